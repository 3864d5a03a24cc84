// Package simrt is the simulator: a cooperative scheduler over real goroutines
// of which exactly one runs at a time, a simulated clock, and the decision log
// that makes a run a pure function of (program, decisions).
package simrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Streams of decisions. A decision is an int; 0 is always the default.
const (
	StSched = iota // which task runs next (0: continue / lowest id)
	StFault        // fault injected at an operation (0: none)
	StEnv          // map order, listing order, select choice, time jumps
	nStreams
)

// Decision is one non-default decision.
type Decision struct {
	I int `json:"i"` // index in its stream
	V int `json:"v"` // value
}

// Trace holds the non-default decisions of a run, per stream.
type Trace struct {
	D [nStreams][]Decision `json:"d"`
}

// Clone copies a trace.
func (t *Trace) Clone() *Trace {
	n := &Trace{}
	for i := range t.D {
		n.D[i] = append([]Decision(nil), t.D[i]...)
	}
	return n
}

// Len is the number of non-default decisions.
func (t *Trace) Len() int { return len(t.D[0]) + len(t.D[1]) + len(t.D[2]) }

// Violation is one property violation found by a run.
type Violation struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
}

// Opts configures a run.
type Opts struct {
	Seed    uint64
	Replay  *Trace // nil: random decisions from Seed
	StepCap int
	Verbose bool
}

// Result of a run.
type Result struct {
	Violations []Violation
	Trace      *Trace
	Hash       uint64 // of the complete event log
	SchedHash  uint64 // of the sequence of task switches
	Steps      int
	Switches   int
	SimTime    time.Duration
	Capped     bool
	FaultsHit  map[string]int
	Probes     map[string]int
	Pairs      map[uint64]struct{} // (site preempted, site resumed)
	Log        []string
	Stuck      string // real-time watchdog or internal error
}

type taskState int

const (
	tsRun taskState = iota
	tsBlocked
	tsDone
)

// Task is a simulated thread of control, backed by a goroutine.
type Task struct {
	id     int
	name   string
	wake   chan struct{}
	state  taskState
	ready  func() bool // predicate of a blocked task
	why    string
	proc   *Proc
	dead   bool
	site   int
	prio   int
	held   int // until this step, a policy runs others
	syncSt bool
}

// Proc is a simulated operating system process.
type Proc struct {
	s        *Sim
	ID       int
	tasks    []*Task
	over     bool
	Crashed  bool   // killed by an injected crash
	Panicked string // value of an unrecovered panic, if any
	PanicAt  string
	Fatal    string
	ExitCode int
	fds      []*FDesc
	sigs     []sigReg
	pid      int
}

// Sim is one run.
type Sim struct {
	o        Opts
	rng      [nStreams]*RNG
	cnt      [nStreams]int
	rec      *Trace
	rep      [nStreams]map[int]int
	tasks    []*Task
	cur      *Task
	nextID   int
	mono     int64
	wallBase int64
	skew     int64
	Loc      *time.Location
	timers   []*simTimer
	tseq     int
	step     int
	switches int
	seq      int
	hash     uint64
	shash    uint64
	viol     []Violation
	ended    bool
	capped   bool
	endCh    chan struct{}
	wSend    []*waiter
	wRecv    []*waiter
	FS       *FS
	Net      *Net
	F        Faults
	hits     map[string]int
	probes   map[string]int
	pairs    map[uint64]struct{}
	log      []string
	pol      policy
	procs    []*Proc
	stepCost int64
	nextPid  int
	reaping  *Task
	internal string
	// OnStep, if set, is evaluated after every scheduling step (must be cheap).
	OnStep func()
	// HangClass is the violation class used when the run deadlocks.
	HangClass string
	limit     int64 // simulated time limit
	nopreempt int
	closedCh  map[uintptr]bool
	keep      []interface{}
	randCtr   uint64
	blocked   []*Task // in the order in which they blocked
	mapW      map[uintptr]bool
}

// S is the running simulation, nil outside of runs.
var S *Sim

type policy struct {
	pStmt, pSync float64
	kind         int // 0 random walk, 1 priorities with change points, 2 starve one task, 3 hold tasks where they are
	hold         int // how long
	pHold        float64
	change       map[int]bool
	starve       int
	starveUntil  int
}

// Faults is what the harness currently allows the fault stream to inject.
type Faults struct {
	On       bool
	Paths    string             // if not empty: only paths containing this substring
	P        map[string]float64 // per operation: probability of an error
	CrashOn  bool
	CrashP   float64
	StallP   float64
	StallMax time.Duration
	JumpP    float64 // probability per sync point of a pause of the whole process
	JumpMax  time.Duration
	ShortP   float64 // given a write fault: probability of a partial write
	Budget   int     // remaining errors (negative: unlimited)
	Gap      int     // minimal number of operations between crash draws
}

// Cur returns the running task, nil outside simulations.
func Cur() *Task {
	if S == nil {
		return nil
	}
	return S.cur
}

// InSim reports whether the caller runs under a simulation.
func InSim() bool { return S != nil && S.cur != nil }

var resets []struct {
	name string
	fn   func()
}

// RegisterReset registers the re-initialiser of an instrumented package.
func RegisterReset(name string, fn func()) {
	resets = append(resets, struct {
		name string
		fn   func()
	}{name, fn})
}

// Boot re-runs the initialisation of all instrumented packages, in dependency
// order: a fresh process image.
func Boot() {
	for _, r := range resets {
		r.fn()
	}
}

// Run executes ctl as the control task of a new simulation.
func Run(o Opts, ctl func(s *Sim)) *Result {
	if S != nil {
		panic("simrt: nested run")
	}
	if o.StepCap == 0 {
		o.StepCap = 400000
	}
	s := &Sim{o: o, rec: &Trace{}, endCh: make(chan struct{}, 1), hits: map[string]int{}, probes: map[string]int{}, closedCh: map[uintptr]bool{},
		pairs: map[uint64]struct{}{}, Loc: time.UTC, nextPid: 1000, hash: 1469598103934665603, shash: 1469598103934665603,
		limit: int64(100 * 365 * 24 * time.Hour), HangClass: "hang"}
	s.wallBase = time.Date(2021, 3, 4, 10, 0, 0, 0, time.UTC).UnixNano()
	for i := range s.rng {
		s.rng[i] = NewRNG(o.Seed*0x9E3779B97F4A7C15 + uint64(i+1)*0xD1B54A32D192ED03)
	}
	if o.Replay != nil {
		for i := range s.rep {
			s.rep[i] = map[int]int{}
			for _, d := range o.Replay.D[i] {
				s.rep[i][d.I] = d.V
			}
		}
	}
	prng := NewRNG(o.Seed ^ 0xABCDEF0123456789)
	s.pol = genPolicy(prng)
	s.stepCost = int64([]int{100, 1000, 20000}[prng.Intn(3)])
	s.FS = newFS(s)
	s.Net = newNet(s)
	S = s
	s.SetLoc(time.UTC)
	t := s.newTask("ctl", nil)
	s.cur = t
	go s.taskMain(t, func() { ctl(s) })
	t.wake <- struct{}{}
	stuck := false
	wd := time.NewTimer(60 * time.Second)
	select {
	case <-s.endCh:
	case <-wd.C:
		stuck = true
	}
	wd.Stop()
	res := &Result{Trace: s.rec, Hash: s.hash, SchedHash: s.shash, Steps: s.step, Switches: s.switches,
		SimTime: time.Duration(s.mono), Violations: s.viol, Capped: s.capped, FaultsHit: s.hits, Probes: s.probes, Pairs: s.pairs, Log: s.log}
	if stuck {
		buf := make([]byte, 1<<16)
		res.Stuck = "real-time watchdog: " + string(buf[:runtime.Stack(buf, true)])
		return res
	}
	if s.internal != "" {
		res.Stuck = s.internal
	}
	s.reapAll()
	S = nil
	return res
}

func genPolicy(r *RNG) policy {
	p := policy{change: map[int]bool{}}
	switch r.Intn(10) {
	case 0, 1:
		p.pStmt, p.pSync = 0.02, 0.15
	case 2:
		p.pStmt, p.pSync = 0.15, 0.3
	case 3:
		p.pStmt, p.pSync = 0.5, 0.5
	case 4:
		p.pStmt, p.pSync = 0.002, 0.02
	case 5, 6:
		p.kind = 1
		p.pStmt, p.pSync = 0.02, 0.15
		n := 1 + r.Intn(6)
		max := []int{100, 400, 2000, 8000}[r.Intn(4)]
		for i := 0; i < n; i++ {
			p.change[r.Intn(max)] = true
		}
	case 7:
		p.kind = 2
		p.pStmt, p.pSync = 0.05, 0.2
		p.starve = 1 + r.Intn(6)
		p.starveUntil = []int{300, 1500, 6000}[r.Intn(3)]
	case 8, 9:
		p.kind = 3
		p.pStmt, p.pSync = 0.02, 0.1
		p.pHold = []float64{0.002, 0.01, 0.04}[r.Intn(3)]
		p.hold = []int{40, 200, 1000, 4000}[r.Intn(4)]
	}
	return p
}

// choose returns the next decision of a stream.
func (s *Sim) choose(st int, n int, gen func(r *RNG) int) int {
	i := s.cnt[st]
	s.cnt[st]++
	var v int
	if s.o.Replay != nil {
		v = s.rep[st][i]
		if v < 0 || (n > 0 && v >= n) {
			v = 0
		}
	} else {
		v = gen(s.rng[st])
	}
	if v != 0 {
		s.rec.D[st] = append(s.rec.D[st], Decision{i, v})
	}
	return v
}

// Env draws an environment decision in [0,n).
func (s *Sim) Env(n int) int {
	if n <= 1 {
		return 0
	}
	return s.choose(StEnv, n, func(r *RNG) int { return r.Intn(n) })
}

func (s *Sim) mix(x uint64) {
	s.hash ^= x
	s.hash *= 1099511628211
	s.hash ^= s.hash >> 29
}

func (s *Sim) mixStr(x string) {
	h := uint64(1469598103934665603)
	for i := 0; i < len(x); i++ {
		h ^= uint64(x[i])
		h *= 1099511628211
	}
	s.mix(h)
}

// Logf appends to the event log (and its hash). It never draws decisions.
func (s *Sim) Logf(format string, args ...interface{}) {
	x := fmt.Sprintf(format, args...)
	s.mixStr(x)
	if s.o.Verbose {
		who := "-"
		if s.cur != nil {
			who = s.cur.name
		}
		s.log = append(s.log, fmt.Sprintf("%7d %12s %-10s %s", s.step, time.Duration(s.mono), who, x))
	}
}

// Seq returns the next global event sequence number.
func (s *Sim) Seq() int { s.seq++; return s.seq }

// SeqNow returns the current one.
func (s *Sim) SeqNow() int { return s.seq }

// Steps so far.
func (s *Sim) Steps() int { return s.step }

// Probe counts a rare condition.
func (s *Sim) Probe(name string) { s.probes[name]++ }

// Hit counts an injected fault.
func (s *Sim) Hit(name string) { s.hits[name]++ }

// Violate records a violation.
func (s *Sim) Violate(class, format string, args ...interface{}) {
	d := fmt.Sprintf(format, args...)
	s.Logf("VIOLATION %s: %s", class, d)
	if len(s.viol) < 20 {
		s.viol = append(s.viol, Violation{class, d})
	}
}

// Violated reports whether a violation was recorded.
func (s *Sim) Violated() bool { return len(s.viol) > 0 }

// Internal records an error of the harness itself.
func (s *Sim) Internal(format string, args ...interface{}) {
	if s.internal == "" {
		s.internal = "internal: " + fmt.Sprintf(format, args...)
	}
}

func (s *Sim) newTask(name string, p *Proc) *Task {
	t := &Task{id: s.nextID, name: name, wake: make(chan struct{}, 1), proc: p}
	s.nextID++
	t.prio = s.rng[StSched].Intn(1 << 20)
	s.tasks = append(s.tasks, t)
	if p != nil {
		p.tasks = append(p.tasks, t)
	}
	return t
}

// NewProc creates a process without tasks.
func (s *Sim) NewProc() *Proc {
	p := &Proc{s: s, ID: len(s.procs) + 1, pid: s.nextPid}
	s.nextPid += 7
	s.procs = append(s.procs, p)
	return p
}

// Spawn starts a task in the process.
func (p *Proc) Spawn(name string, f func()) *Task {
	s := p.s
	t := s.newTask(name, p)
	go s.taskMain(t, f)
	return t
}

// Go is the instrumented go statement.
func Go(f func()) {
	s := S
	if s == nil || s.cur == nil {
		// outside a simulation (program start): nothing may run concurrently
		return
	}
	s.checkDead()
	n := fmt.Sprintf("g%d", s.nextID)
	t := s.newTask(n, s.cur.proc)
	go s.taskMain(t, f)
	s.yield(-1, true)
}

func (s *Sim) taskMain(t *Task, f func()) {
	<-t.wake
	defer func() {
		// reached on return, Goexit and panic
		if s.reaping == t {
			recover()
			t.state = tsDone
			s.reaping = nil
			s.cur = nil
			s.reapCh() <- struct{}{}
			return
		}
		if r := recover(); r != nil {
			{
				at := panicSite()
				msg := fmt.Sprint(r)
				if t.proc == nil {
					s.Internal("harness panic: %s at %s\n%s", msg, at, debug.Stack())
					t.state = tsDone
					s.finish()
					return
				}
				s.Logf("panic in %s: %s at %s", t.name, msg, at)
				t.proc.Panicked = msg
				t.proc.PanicAt = at
				t.proc.kill()
			}
		}
		t.state = tsDone
		if t.id == 0 {
			s.finish()
			return
		}
		s.pass(t)
	}()
	if t.dead {
		return
	}
	f()
}

func panicSite() string {
	pcs := make([]uintptr, 64)
	n := runtime.Callers(3, pcs)
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if strings.HasPrefix(f.Function, "github.com/xtfly/log4g/") && !strings.Contains(f.Function, "/zzsim/") {
			i := strings.LastIndex(f.File, "/")
			return fmt.Sprintf("%s (%s:%d)", f.Function[strings.LastIndex(f.Function, "/")+1:], f.File[i+1:], f.Line)
		}
		if !more {
			return "?"
		}
	}
}

func (s *Sim) finish() {
	if s.ended {
		return
	}
	s.ended = true
	s.endCh <- struct{}{}
}

var reapC = make(chan struct{})

func (s *Sim) reapCh() chan struct{} { return reapC }

// reap unwinds one dead parked task (called with no other task running).
func (s *Sim) reap(t *Task) {
	if t.state == tsDone || t.state == -1 {
		return
	}
	prev := s.cur
	t.dead = true
	s.reaping = t
	s.cur = t
	t.wake <- struct{}{}
	<-reapC
	s.cur = prev
	s.reaping = nil
	t.state = tsDone
}

func (s *Sim) reapAll() {
	for _, t := range s.tasks {
		if t.state != tsDone {
			s.reap(t)
		}
	}
	s.tasks = nil
	s.cur = nil
}

// checkDead unwinds the running task if its process has died.
func (s *Sim) checkDead() {
	if s.cur.dead {
		runtime.Goexit()
	}
}

// kill marks the process dead. If the running task belongs to it, the caller
// must unwind afterwards (die).
func (p *Proc) kill() {
	if p.over {
		return
	}
	p.over = true
	for _, t := range p.tasks {
		t.dead = true
	}
	for _, fd := range p.fds {
		fd.closed = true
	}
	p.fds = nil
	p.sigs = nil
	ts := p.s.timers[:0]
	for _, tm := range p.s.timers {
		if tm.proc != p {
			ts = append(ts, tm)
		}
	}
	p.s.timers = ts
	p.s.Net.dropProc(p)
}

// Crash kills the process of the running task at this point.
func (s *Sim) Crash(what string) {
	p := s.cur.proc
	if p == nil {
		return
	}
	s.Logf("CRASH %s", what)
	p.Crashed = true
	p.kill()
	runtime.Goexit()
}

// Kill ends a process from outside (end of its life).
func (p *Proc) Kill() {
	p.s.Logf("kill proc %d", p.ID)
	p.kill()
	p.s.reapProc(p)
}

func (s *Sim) reapProc(p *Proc) {
	for _, t := range p.tasks {
		if t != s.cur && t.state != tsDone {
			s.reap(t)
		}
	}
	ts := s.tasks[:0]
	for _, t := range s.tasks {
		if t.proc != p {
			ts = append(ts, t)
		}
	}
	s.tasks = ts
}

// Over reports whether the process has died.
func (p *Proc) Over() bool { return p.over }

// Alive returns the number of unfinished tasks among ts.
func alive(ts []*Task) int {
	n := 0
	for _, t := range ts {
		if t.state != tsDone {
			n++
		}
	}
	return n
}

// Done reports whether the task has finished.
func (t *Task) Done() bool { return t.state == tsDone }

// Name of the task.
func (t *Task) Name() string { return t.name }

// Why tells what a blocked task waits for.
func (t *Task) Why() string {
	if t.state == tsBlocked {
		return t.why
	}
	return "runnable"
}

// Await blocks the calling (control) task until all given tasks are done, the
// process died, or d of simulated time has passed. It returns true when all are done.
func (p *Proc) Await(d time.Duration, ts ...*Task) bool {
	s := p.s
	fired := false
	var tm *simTimer
	if d > 0 {
		tm = s.addTimer(nil, int64(d), func() { fired = true })
	}
	s.block("await", func() bool { return p.over || fired || alive(ts) == 0 })
	if tm != nil {
		s.delTimer(tm)
	}
	if p.over {
		s.reapProc(p)
		return false
	}
	return alive(ts) == 0
}

// WaitUntil blocks the caller until cond holds or d of simulated time has passed.
func (s *Sim) WaitUntil(d time.Duration, cond func() bool) bool {
	s.checkDead()
	fired := false
	tm := s.addTimer(s.cur.proc, int64(d), func() { fired = true })
	s.block("wait", func() bool { return fired || cond() })
	s.delTimer(tm)
	return cond()
}

// AbortRun ends the run at once.
func (s *Sim) abort(class, format string, args ...interface{}) {
	s.Violate(class, format, args...)
}

// Y is the statement-level yield point.
func Y(site int) {
	s := S
	if s == nil || s.cur == nil {
		return
	}
	s.yield(site, false)
}

// YS is a yield point at a synchronisation operation.
func YS(site int) {
	s := S
	if s == nil || s.cur == nil {
		return
	}
	s.yield(site, true)
}

// NoPreempt runs f without switching tasks at statement yields (harness only).
func (s *Sim) NoPreempt(f func()) {
	s.nopreempt++
	defer func() { s.nopreempt-- }()
	f()
}

func (s *Sim) yield(site int, syncPt bool) {
	t := s.cur
	if s.nopreempt > 0 {
		return
	}
	if t.dead {
		runtime.Goexit()
	}
	t.site = site
	t.syncSt = syncPt
	if syncPt && t.proc != nil {
		s.pauseOrCrash(t)
	}
	n := s.next(t, true)
	if n != t {
		s.switchTo(t, n)
	}
}

// pauseOrCrash lets the fault stream pause the whole process (time passes while
// nothing runs) or kill it at a synchronisation point.
func (s *Sim) pauseOrCrash(t *Task) {
	f := &s.F
	if !f.On || (f.JumpP == 0 && !f.CrashOn) {
		return
	}
	v := s.choose(StFault, 0, func(r *RNG) int {
		if f.JumpP > 0 && r.Bool(f.JumpP) {
			return 2 + r.Intn(1000)
		}
		if f.CrashOn && r.Bool(f.CrashP/4) {
			return 1
		}
		return 0
	})
	switch {
	case v == 1 && f.CrashOn:
		s.Hit("crash-at-sync")
		f.CrashOn = false
		s.Crash("at synchronisation point")
	case v >= 2 && f.JumpP > 0:
		s.Hit("process-pause")
		d := int64(f.JumpMax) * int64(v-1) / 1000
		s.Logf("pause %v", time.Duration(d))
		s.mono += d
	}
}

// Block parks the running task until ready() holds (for shims).
func Block(why string, ready func() bool) {
	if S == nil || S.cur == nil {
		if !ready() {
			panic("simrt: blocking outside a simulation: " + why)
		}
		return
	}
	S.block(why, ready)
}

// FatalError is a non-recoverable runtime error of the simulated process.
func FatalError(msg string) {
	s := S
	if s == nil || s.cur == nil {
		panic(msg)
	}
	s.Logf("fatal error: %s", msg)
	p := s.cur.proc
	if p == nil {
		s.Internal("fatal error in harness: %s", msg)
		runtime.Goexit()
	}
	p.Fatal = msg
	p.PanicAt = panicSite()
	p.kill()
	runtime.Goexit()
}

// Exit ends the simulated process like os.Exit.
func Exit(code int) {
	s := S
	if s == nil || s.cur == nil || s.cur.proc == nil {
		panic("simrt: exit outside a simulated process")
	}
	s.Logf("exit %d", code)
	s.cur.proc.ExitCode = code
	s.cur.proc.kill()
	runtime.Goexit()
}

// Getpid of the simulated process.
func Getpid() int {
	if S != nil && S.cur != nil && S.cur.proc != nil {
		return S.cur.proc.pid
	}
	return 4242
}

// block parks the running task until ready() holds.
func (s *Sim) block(why string, ready func() bool) {
	t := s.cur
	if t.dead {
		runtime.Goexit()
	}
	if ready() {
		return
	}
	t.state = tsBlocked
	t.ready = ready
	t.why = why
	s.blocked = append(s.blocked, t)
	n := s.next(t, false)
	if n != t {
		s.switchTo(t, n)
	}
	if t.dead {
		runtime.Goexit()
	}
}

func (s *Sim) switchTo(from, to *Task) {
	s.switches++
	x := uint64(from.id)<<40 ^ uint64(uint32(from.site))<<8 ^ uint64(to.id)
	s.shash ^= x
	s.shash *= 1099511628211
	s.mix(uint64(s.step)<<20 ^ uint64(to.id))
	if from.state != tsDone {
		s.pairs[uint64(uint32(from.site))<<32|uint64(uint32(to.site))] = struct{}{}
	}
	s.cur = to
	to.wake <- struct{}{}
	if from.state == tsDone {
		return
	}
	<-from.wake
	if from.dead {
		runtime.Goexit()
	}
}

// pass hands control on from a finished task.
func (s *Sim) pass(t *Task) {
	n := s.next(t, false)
	if n == nil || n == t {
		return
	}
	s.switchTo(t, n)
}

// next decides which task runs now. cur is first in the candidate list when it
// can go on.
func (s *Sim) next(cur *Task, curOK bool) *Task {
	// predicates and callbacks evaluated here run library code without yielding
	s.nopreempt++
	defer func() { s.nopreempt-- }()
	s.step++
	s.mono += s.stepCost
	if s.step > s.o.StepCap && !s.ended {
		s.capped = true
		s.haltAll()
	}
	if s.OnStep != nil {
		s.OnStep()
	}
	var buf [32]*Task
	for {
		s.fireTimers()
		c := buf[:0]
		if curOK && !cur.dead {
			c = append(c, cur)
		}
		if len(s.blocked) > 0 {
			// longest waiting first, as the runtime's wait queues do
			keep := s.blocked[:0]
			for _, t := range s.blocked {
				if t.dead || t.state != tsBlocked {
					continue
				}
				if t.ready() {
					t.state = tsRun
					t.ready = nil
				} else {
					keep = append(keep, t)
				}
			}
			s.blocked = keep
		}
		for _, t := range s.tasks {
			if t.state == tsRun && !t.dead && !(t == cur && curOK) {
				c = append(c, t)
			}
		}
		if len(c) == 0 {
			if len(s.timers) == 0 || s.mono > s.limit {
				s.deadlock()
				continue
			}
			s.advance()
			continue
		}
		if len(c) == 1 {
			return c[0]
		}
		k := s.choose(StSched, len(c), func(r *RNG) int { return s.policyPick(r, cur, curOK, c) })
		return c[k]
	}
}

// deadlock: nothing can run and no timer is pending. Control must return to the
// ctl task, which sees Stuck() == true.
func (s *Sim) deadlock() {
	ctl := s.tasks[0]
	if ctl.id != 0 {
		panic("simrt: no ctl task")
	}
	var b []string
	for _, t := range s.tasks {
		if t.state == tsBlocked && !t.dead {
			b = append(b, t.name+":"+t.why)
		}
	}
	sort.Strings(b)
	if s.ended {
		panic("simrt: deadlock after end")
	}
	s.Violate(s.HangClass, "no task can run: %s", strings.Join(b, ", "))
	s.haltAll()
}

// haltAll ends the run from wherever we are: the control task becomes runnable
// in unwinding mode.
func (s *Sim) haltAll() {
	ctl := s.tasks[0]
	s.ended = true
	s.endCh <- struct{}{}
	// park forever; reapAll unwinds every task, including the caller
	t := s.cur
	_ = ctl
	if t.state == tsDone {
		runtime.Goexit()
	}
	<-t.wake
	runtime.Goexit()
}

func (s *Sim) policyPick(r *RNG, cur *Task, curOK bool, c []*Task) int {
	p := &s.pol
	kind := p.kind
	if kind == 1 && s.step >= 8000 && s.step/4000%2 == 1 {
		// long runs: priorities alone would starve a task for seconds
		kind = 0
	}
	switch kind {
	case 1:
		if p.change[s.step] && curOK {
			cur.prio = -s.step
		}
		best := 0
		for i, t := range c {
			if t.prio > c[best].prio {
				best = i
			}
		}
		// spinning protection: occasionally deviate
		if r.Intn(997) == 0 {
			return r.Intn(len(c))
		}
		return best
	case 2:
		if s.step < p.starveUntil {
			ok := make([]int, 0, len(c))
			for i, t := range c {
				if t.id != p.starve {
					ok = append(ok, i)
				}
			}
			if len(ok) > 0 && len(ok) < len(c) {
				if curOK && cur.id != p.starve && r.Float() >= p.pSync {
					return 0
				}
				return ok[r.Intn(len(ok))]
			}
		}
	}
	if p.kind == 3 {
		if curOK && r.Float() < p.pHold {
			cur.held = s.step + 1 + r.Intn(p.hold)
		}
		ok := make([]int, 0, len(c))
		for i, t := range c {
			if t.held <= s.step {
				ok = append(ok, i)
			}
		}
		if len(ok) > 0 && len(ok) < len(c) {
			if curOK && cur.held <= s.step && r.Float() >= p.pSync {
				return 0
			}
			return ok[r.Intn(len(ok))]
		}
	}
	if curOK {
		pr := p.pStmt
		if cur.syncSt {
			pr = p.pSync
		}
		if r.Float() >= pr {
			return 0
		}
	}
	return r.Intn(len(c))
}
