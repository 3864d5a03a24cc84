package simrt

import (
	"time"
	"unsafe"
)

type simTimer struct {
	when int64
	seq  int
	proc *Proc
	fn   func()
}

func (s *Sim) addTimer(p *Proc, d int64, fn func()) *simTimer {
	if d < 0 {
		d = 0
	}
	s.tseq++
	t := &simTimer{when: s.mono + d, seq: s.tseq, proc: p, fn: fn}
	s.timers = append(s.timers, t)
	return t
}

func (s *Sim) delTimer(t *simTimer) bool {
	for i, x := range s.timers {
		if x == t {
			s.timers = append(s.timers[:i:i], s.timers[i+1:]...)
			return true
		}
	}
	return false
}

func (s *Sim) earliest() *simTimer {
	var b *simTimer
	for _, t := range s.timers {
		if b == nil || t.when < b.when || (t.when == b.when && t.seq < b.seq) {
			b = t
		}
	}
	return b
}

func (s *Sim) fireTimers() {
	for {
		t := s.earliest()
		if t == nil || t.when > s.mono {
			return
		}
		s.delTimer(t)
		t.fn()
	}
}

// advance jumps the clock to the next timer.
func (s *Sim) advance() {
	if t := s.earliest(); t != nil && t.when > s.mono {
		s.mono = t.when
	}
}

// Mono is the monotonic simulated time.
func (s *Sim) Mono() time.Duration { return time.Duration(s.mono) }

// Wall is the simulated wall clock in nanoseconds.
func (s *Sim) Wall() int64 { return s.wallBase + s.mono + s.skew }

// StepClock moves the wall clock (not the monotonic one).
func (s *Sim) StepClock(d time.Duration) {
	s.skew += int64(d)
	s.Hit("clock-step")
	s.Logf("clock step %v", d)
}

// SetWall sets the wall clock base so that it now reads t.
func (s *Sim) SetWall(t time.Time) { s.skew = t.UnixNano() - s.wallBase - s.mono }

// Now is the simulated time.
func Now() time.Time {
	s := S
	if s == nil {
		return time.Unix(1600000000, 0).UTC()
	}
	return s.now()
}

// now carries a reading of the monotonic clock, as time.Now does: differences
// do not show steps of the wall clock.
func (s *Sim) now() time.Time {
	t := time.Unix(0, s.Wall()).In(s.Loc)
	sec := s.Wall()/1e9 + epoch1885
	if !monoOK || sec < 0 || sec >= 1<<33 || s.Wall() < 0 {
		return t
	}
	x := (*timeRep)(unsafe.Pointer(&t))
	x.wall = 1<<63 | uint64(sec)<<30 | uint64(s.Wall()%1e9)
	x.ext = s.mono + 1
	return t
}

type timeRep struct {
	wall uint64
	ext  int64
	loc  *time.Location
}

const epoch1885 = (1969*365+1969/4-1969/100+1969/400)*86400 - (1884*365+1884/4-1884/100+1884/400)*86400

// monoOK: time.Time is laid out the way now assumes.
var monoOK = func() bool {
	if unsafe.Sizeof(time.Time{}) != unsafe.Sizeof(timeRep{}) {
		return false
	}
	t := time.Now()
	x := (*timeRep)(unsafe.Pointer(&t))
	w := t.UnixNano()
	return x.wall == 1<<63|uint64(w/1e9+epoch1885)<<30|uint64(w%1e9)
}()

// Sleep in simulated time.
func Sleep(d time.Duration) {
	s := S
	if s == nil || s.cur == nil {
		return
	}
	s.yield(-4, true)
	if d <= 0 {
		return
	}
	done := false
	s.addTimer(s.cur.proc, int64(d), func() { done = true })
	s.block("sleep", func() bool { return done })
}

// After schedules fn in the context of the simulator.
func (s *Sim) After(d time.Duration, fn func()) { s.addTimer(nil, int64(d), fn) }

// Timer backs time.Timer and time.Ticker.
type Timer struct {
	C      chan time.Time
	period int64
	t      *simTimer
	f      func()
}

// NewTimer creates a timer; f, if set, runs in a task of its own.
func NewTimer(d, period time.Duration, f func()) *Timer {
	YS(-4)
	t := &Timer{period: int64(period), f: f}
	if f == nil {
		t.C = make(chan time.Time, 1)
	}
	t.start(int64(d))
	return t
}

func (t *Timer) start(d int64) {
	s := S
	if s == nil || s.cur == nil {
		return
	}
	p := s.cur.proc
	t.arm(s, p, d)
}

func (t *Timer) arm(s *Sim, p *Proc, d int64) {
	t.t = s.addTimer(p, d, func() {
		if t.f != nil {
			if p != nil && p.over {
				return
			}
			tk := s.newTask("timer", p)
			go s.taskMain(tk, t.f)
		} else {
			select {
			case t.C <- s.now():
			default:
			}
		}
		t.t = nil
		if t.period > 0 {
			t.arm(s, p, t.period)
		}
	})
}

// Stop the timer.
func (t *Timer) Stop() bool {
	YS(-4)
	if S == nil || t.t == nil {
		return false
	}
	r := S.delTimer(t.t)
	t.t = nil
	return r
}

// Reset the timer.
func (t *Timer) Reset(d time.Duration, period time.Duration) bool {
	r := t.Stop()
	t.period = int64(period)
	t.start(int64(d))
	return r
}
