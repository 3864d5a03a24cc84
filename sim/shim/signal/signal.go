// Package signal is package os/signal for simulated processes.
package signal

import (
	"context"
	"os"

	simrt "github.com/xtfly/log4g/zzsim/simrt"
)

func Notify(c chan<- os.Signal, sig ...os.Signal) { simrt.Notify(c, sig...) }
func Stop(c chan<- os.Signal)                     { simrt.StopNotify(c) }
func Ignore(sig ...os.Signal)                     { simrt.Notify(make(chan os.Signal), sig...) }
func Ignored(sig os.Signal) bool                  { return false }
func Reset(sig ...os.Signal)                      { simrt.ResetNotify(sig...) }

func NotifyContext(parent context.Context, sig ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := context.WithCancel(parent)
	c := make(chan os.Signal, 1)
	simrt.Notify(c, sig...)
	simrt.Go(func() {
		simrt.ChanR(c).Recv()
		cancel()
	})
	return ctx, func() { simrt.StopNotify(c); cancel() }
}
