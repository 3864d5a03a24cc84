package simrt

import (
	"errors"
	"net"
	"os"
	"syscall"
	"time"
)

// Net simulates local datagram sockets of a syslog daemon at /dev/log.
type Net struct {
	s     *Sim
	Up    bool
	Epoch int // increases at every daemon restart: connections of earlier epochs are broken
	Got   []Datagram
	conns []*Conn
	// DialFailP, WriteFailP: fault probabilities
	WriteFailP float64
	Stalled    bool   // the daemon does not read: writes wait
	OnBreak    func() // a write failed
	Dials      int
	Paths      map[string]bool
}

// Datagram received by the daemon.
type Datagram struct {
	Data []byte
	At   int64
	Seq  int
	Src  *Conn
}

// Conn is a connected datagram socket.
type Conn struct {
	n      *Net
	epoch  int
	closed bool
	broken bool
	proc   *Proc
	path   string
	netw   string
}

func newNet(s *Sim) *Net {
	return &Net{s: s, Paths: map[string]bool{"/dev/log": true}}
}

func (n *Net) dropProc(p *Proc) {
	for _, c := range n.conns {
		if c.proc == p {
			c.closed = true
		}
	}
}

// Dial connects to the daemon.
func Dial(network, addr string) (net.Conn, error) {
	s := S
	e := func(err error) error {
		return &net.OpError{Op: "dial", Net: network, Addr: &net.UnixAddr{Name: addr, Net: network}, Err: os.NewSyscallError("connect", err)}
	}
	if s == nil || s.cur == nil {
		return nil, e(syscall.ENOENT)
	}
	s.yield(-12, true)
	n := s.Net
	n.Dials++
	if network != "unixgram" && network != "unix" {
		return nil, e(syscall.ECONNREFUSED)
	}
	if !n.Paths[addr] || network != "unixgram" {
		if n.Paths[addr] {
			return nil, e(syscall.EPROTOTYPE)
		}
		return nil, e(syscall.ENOENT)
	}
	if !n.Up {
		s.Hit("syslog-dial-refused")
		return nil, e(syscall.ECONNREFUSED)
	}
	c := &Conn{n: n, epoch: n.Epoch, proc: s.cur.proc, path: addr, netw: network}
	n.conns = append(n.conns, c)
	s.Logf("dial %s", addr)
	return c, nil
}

// Restart the daemon: existing connections break.
func (n *Net) Restart() {
	n.Epoch++
	n.Up = true
	n.s.Hit("syslog-restart")
	n.s.Logf("syslogd restart")
}

// Down stops the daemon.
func (n *Net) Down() { n.Epoch++; n.Up = false; n.s.Hit("syslog-down"); n.s.Logf("syslogd down") }

// OpenConns of the current epoch.
func (n *Net) OpenConns() int {
	k := 0
	for _, c := range n.conns {
		if !c.closed {
			k++
		}
	}
	return k
}

func (c *Conn) opErr(op string, err error) error {
	return &net.OpError{Op: op, Net: c.netw, Addr: &net.UnixAddr{Name: c.path, Net: c.netw}, Err: err}
}

// Write sends one datagram.
func (c *Conn) Write(b []byte) (int, error) {
	s := S
	if s == nil || s.cur == nil {
		return 0, c.opErr("write", net.ErrClosed)
	}
	s.yield(-12, true)
	if c.closed {
		return 0, c.opErr("write", net.ErrClosed)
	}
	if c.n.Stalled && c.epoch == c.n.Epoch && !c.broken {
		s.Hit("syslog-stalled")
		s.block("stalled syslogd", func() bool { return !c.n.Stalled || c.closed || c.epoch != c.n.Epoch })
		if c.closed {
			return 0, c.opErr("write", net.ErrClosed)
		}
	}
	if c.epoch != c.n.Epoch || c.broken {
		s.Hit("syslog-write-broken")
		return 0, c.opErr("write", os.NewSyscallError("write", syscall.ECONNREFUSED))
	}
	if c.n.WriteFailP > 0 {
		v := s.choose(StFault, 2, func(r *RNG) int {
			if r.Bool(c.n.WriteFailP) {
				return 1
			}
			return 0
		})
		if v == 1 {
			s.Hit("syslog-write-error")
			c.broken = true
			if c.n.OnBreak != nil {
				c.n.OnBreak()
			}
			return 0, c.opErr("write", os.NewSyscallError("write", syscall.ECONNRESET))
		}
	}
	c.n.Got = append(c.n.Got, Datagram{append([]byte(nil), b...), s.mono, s.Seq(), c})
	s.Logf("datagram n=%d", len(b))
	return len(b), nil
}

// Read never returns data.
func (c *Conn) Read(b []byte) (int, error) { return 0, errors.New("simnet: read not supported") }

// Close the socket.
func (c *Conn) Close() error {
	if S != nil && S.cur != nil {
		S.yield(-12, true)
	}
	if c.closed {
		return c.opErr("close", net.ErrClosed)
	}
	c.closed = true
	return nil
}

func (c *Conn) LocalAddr() net.Addr                { return &net.UnixAddr{Name: "", Net: c.netw} }
func (c *Conn) RemoteAddr() net.Addr               { return &net.UnixAddr{Name: c.path, Net: c.netw} }
func (c *Conn) SetDeadline(t time.Time) error      { return nil }
func (c *Conn) SetReadDeadline(t time.Time) error  { return nil }
func (c *Conn) SetWriteDeadline(t time.Time) error { return nil }
