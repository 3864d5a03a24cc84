// Package time is package time on the simulated clock.
package time

import (
	"time"

	simrt "github.com/xtfly/log4g/zzsim/simrt"
)

// Local is the simulated local zone.
var Local = time.Local

func init() { simrt.OnLoc(func(l *time.Location) { Local = l; time.Local = l }) }

// Now reads the simulated wall clock.
func Now() time.Time { return simrt.Now() }

// Since a simulated instant.
func Since(t time.Time) time.Duration { return simrt.Now().Sub(t) }

// Until a simulated instant.
func Until(t time.Time) time.Duration { return t.Sub(simrt.Now()) }

// Sleep in simulated time.
func Sleep(d time.Duration) { simrt.Sleep(d) }

// Timer is a simulated timer.
type Timer struct {
	C <-chan time.Time
	t *simrt.Timer
}

// NewTimer creates a timer.
func NewTimer(d time.Duration) *Timer {
	t := simrt.NewTimer(d, 0, nil)
	return &Timer{C: t.C, t: t}
}

// AfterFunc runs f in its own task after d.
func AfterFunc(d time.Duration, f func()) *Timer {
	return &Timer{t: simrt.NewTimer(d, 0, f)}
}

// Stop the timer.
func (t *Timer) Stop() bool { return t.t.Stop() }

// Reset the timer.
func (t *Timer) Reset(d time.Duration) bool { return t.t.Reset(d, 0) }

// After returns the channel of a new timer.
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

// Ticker is a simulated ticker.
type Ticker struct {
	C <-chan time.Time
	t *simrt.Timer
}

// NewTicker creates a ticker.
func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := simrt.NewTimer(d, d, nil)
	return &Ticker{C: t.C, t: t}
}

// Stop the ticker.
func (t *Ticker) Stop() { t.t.Stop() }

// Reset the ticker.
func (t *Ticker) Reset(d time.Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	t.t.Reset(d, d)
}

// Tick returns the channel of a new ticker.
func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
