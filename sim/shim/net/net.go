// Package net is package net on simulated local sockets.
package net

import (
	"net"
	"time"

	simrt "github.com/xtfly/log4g/zzsim/simrt"
)

func Dial(network, addr string) (net.Conn, error) { return simrt.Dial(network, addr) }
func DialTimeout(network, addr string, _ time.Duration) (net.Conn, error) {
	return simrt.Dial(network, addr)
}
