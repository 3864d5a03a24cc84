package simrt

import "os"

type sigReg struct {
	c    chan<- os.Signal
	sigs []os.Signal
}

// Notify registers a signal channel of the running process.
func Notify(c chan<- os.Signal, sigs ...os.Signal) {
	YS(-13)
	if S == nil || S.cur == nil || S.cur.proc == nil {
		return
	}
	p := S.cur.proc
	p.sigs = append(p.sigs, sigReg{c, sigs})
}

// StopNotify removes a registration.
func StopNotify(c chan<- os.Signal) {
	YS(-13)
	if S == nil || S.cur == nil || S.cur.proc == nil {
		return
	}
	p := S.cur.proc
	var n []sigReg
	for _, r := range p.sigs {
		if r.c != c {
			n = append(n, r)
		}
	}
	p.sigs = n
}

// Signal delivers a signal to the process. It reports whether it was caught;
// an uncaught signal kills the process.
func (p *Proc) Signal(sig os.Signal) bool {
	s := p.s
	s.Hit("signal-" + sig.String())
	s.Logf("signal %v", sig)
	caught := false
	for _, r := range p.sigs {
		match := len(r.sigs) == 0
		for _, x := range r.sigs {
			if x == sig {
				match = true
			}
		}
		if match {
			caught = true
			select {
			case r.c <- sig:
			default:
			}
		}
	}
	if !caught {
		p.Kill()
	}
	return caught
}
