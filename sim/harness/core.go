// Package harness holds the programs and oracles that run under the simulator.
package harness

import (
	"context"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
	"github.com/xtfly/log4g/zzsim/simrt"
)

// Op is one step of a task.
type Op struct {
	K string `json:"k"`
	A int    `json:"a,omitempty"`
	B int    `json:"b,omitempty"`
	C int    `json:"c,omitempty"`
	D int    `json:"d,omitempty"`
	E int    `json:"e,omitempty"`
	S string `json:"s,omitempty"`
}

// TaskP is the program of one task.
type TaskP struct {
	Ops []Op `json:"ops"`
}

// Life is the life of one simulated process.
type Life struct {
	Tasks []TaskP        `json:"tasks"`
	P     map[string]int `json:"p,omitempty"`
}

// Prog is a complete generated scenario.
type Prog struct {
	Prop    string            `json:"prop"`
	Kind    string            `json:"kind"`
	P       map[string]int    `json:"p,omitempty"`
	S       map[string]string `json:"s,omitempty"`
	Lives   []Life            `json:"lives"`
	Cfgs    []*api.Config     `json:"cfgs,omitempty"`
	Foreign map[string]string `json:"foreign,omitempty"`
}

// Ops counts the steps of a program.
func (p *Prog) Ops() int {
	n := 0
	for _, l := range p.Lives {
		for _, t := range l.Tasks {
			n += len(t.Ops)
		}
	}
	return n
}

// Rec is one record of the scenario.
type Rec struct {
	ID, Life, Task, Ord int
	Tok, Msg            string
	Logger              string
	Lvl                 api.Level
	S0, S1              int   // sequence numbers around the call
	W0, W1              int64 // wall clock around the call
	M0, M1              int64 // monotonic clock around the call
	Done                bool  // the call returned
	Started             bool
	File, Func          string
	Line                int
	Fields              map[string]interface{}
	Exempt              bool // a fault was injected while it was being written
	X                   map[string]string
}

// E is the environment of one run.
type E struct {
	s     *simrt.Sim
	p     *Prog
	prop  string
	recs  []*Rec
	byTok map[string]*Rec
	proc  *simrt.Proc
	twins []*Rec         // records with the same text
	twinN map[string]int // how often it was found
	life  int
	ords  map[int]int
	dead  bool
	kept  map[api.Logger]api.Writer
}

type kind struct {
	gen func(prop string, r *simrt.RNG, p *Prog)
	run func(e *E)
}

var kinds = map[string]kind{}

// propKinds lists the program kinds of each property, with weights by repetition.
var propKinds = map[string][]string{}

// Props lists the properties with a check.
func Props() []string {
	var r []string
	for k := range propKinds {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// Gen generates the program of a seed.
func Gen(prop string, seed uint64) *Prog {
	r := simrt.NewRNG(seed ^ 0x5bd1e995)
	ks := propKinds[prop]
	k := ks[r.Intn(len(ks))]
	p := &Prog{Prop: prop, Kind: k, P: map[string]int{}, S: map[string]string{}}
	rollName = "r.log"
	kinds[k].gen(prop, r, p)
	pickTail(prop, r, p)
	return p
}

// pickTail chooses what ends the text of a record.
func pickTail(prop string, r *simrt.RNG, p *Prog) {
	t := r.PickS("", "\r\n", "\n\n", ";", " |")
	if r.Intn(4) > 0 {
		return
	}
	switch p.Kind {
	case "sync", "roll", "fan", "cum":
	case "async":
		if prop == "C06" {
			return
		}
	default:
		return
	}
	if len(p.Cfgs) == 0 && p.Kind != "cum" {
		return
	}
	for _, c := range p.Cfgs {
		for _, o := range c.Outputs {
			if o["type"] == "syslog" {
				return
			}
		}
		for _, f := range c.Formats {
			if f["layout"] != lay1 {
				return
			}
		}
	}
	p.S["tail"] = "x" + t
	for _, c := range p.Cfgs {
		for _, f := range c.Formats {
			f["layout"] = strings.TrimSuffix(lay1, "\n") + t
		}
	}
}

// tail is what ends the text of a record.
func (e *E) tail() string {
	if t := e.p.S["tail"]; t != "" {
		return t[1:]
	}
	return "\n"
}

// exp1 is the text of a record in the layout lay1, or that with another end.
func (e *E) exp1(r *Rec) string {
	return r.Logger + "|" + lvlStr(r.Lvl) + "|" + r.Msg + e.tail()
}

// StepCap bounds a run; no generated program comes near it.
const StepCap = 5000000

// Run executes a program.
func Run(p *Prog, seed uint64, tr *simrt.Trace, verbose bool) *simrt.Result {
	o := simrt.Opts{Seed: seed, Replay: tr, StepCap: StepCap, Verbose: verbose}
	res := simrt.Run(o, func(s *simrt.Sim) {
		e := &E{s: s, p: p, prop: p.Prop, byTok: map[string]*Rec{}, ords: map[int]int{}}
		s.HangClass = p.Prop + ":hang"
		rollName = "r.log"
		if n := p.S["rname"]; n != "" {
			rollName = n
		}
		kinds[p.Kind].run(e)
	})
	if res.Capped {
		res.Violations = append(res.Violations, simrt.Violation{Class: p.Prop + ":livelock", Detail: fmt.Sprintf("still running after %d steps", StepCap)})
	}
	var vs []simrt.Violation
	for _, v := range res.Violations {
		if strings.HasPrefix(v.Class, p.Prop+":") {
			vs = append(vs, v)
		}
	}
	res.Violations = vs
	return res
}

// v records a violation of the property under check.
func (e *E) v(what, f string, a ...interface{}) { e.s.Violate(e.prop+":"+what, f, a...) }

// vp records a violation of a given property (kept only when it is the one under check).
func (e *E) vp(prop, what, f string, a ...interface{}) {
	if prop == e.prop {
		e.s.Violate(prop+":"+what, f, a...)
	}
}

// is reports whether one of the properties is under check.
func (e *E) is(props ...string) bool {
	for _, p := range props {
		if p == e.prop {
			return true
		}
	}
	return false
}

func (e *E) pi(k string) int { return e.p.P[k] }

// boot starts a fresh process image and waits for its initialisation.
func (e *E) boot() bool {
	e.proc = e.s.NewProc()
	e.dead = false
	return e.do("boot", func() { simrt.Boot() })
}

// do runs f as a task of the process and waits for it.
func (e *E) do(name string, f func()) bool {
	return e.doFor(name, 2*time.Hour, f)
}

func (e *E) doFor(name string, d time.Duration, f func()) bool {
	if e.proc.Over() {
		return false
	}
	t := e.proc.Spawn(name, f)
	return e.await(d, t)
}

// await waits for tasks; it reports panics and hangs.
func (e *E) await(d time.Duration, ts ...*simrt.Task) bool {
	ok := e.proc.Await(d, ts...)
	if e.checkProc() {
		return false
	}
	if !ok {
		var w []string
		for _, t := range ts {
			if !t.Done() {
				w = append(w, t.Name()+": "+t.Why())
			}
		}
		e.v("hang", "tasks still blocked after %v: %s", d, strings.Join(w, ", "))
		e.proc.Kill()
		return false
	}
	return true
}

// checkProc reports an abnormal end; true when the process is over.
func (e *E) checkProc() bool {
	p := e.proc
	if !p.Over() || e.dead {
		return p.Over()
	}
	e.dead = true
	switch {
	case p.Panicked != "":
		e.v("panic", "panic: %s at %s", p.Panicked, p.PanicAt)
	case p.Fatal != "":
		e.v("fatal", "fatal error: %s at %s", p.Fatal, p.PanicAt)
	case p.Crashed:
	default:
		if p.ExitCode != 0 {
			e.v("exit", "process exited with code %d", p.ExitCode)
		}
	}
	return true
}

var tokPad = "abcdefghijklmnopqrstuvwxyz"

const tokBig = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_-"

// bigPad picks the padding of a record, one in n is large.
func bigPad(r *simrt.RNG, n int, xs ...int) int {
	if r.Intn(n) == 0 {
		return r.Pick(900, 1030, 2000, 4100, 9000, 33000, 66000)
	}
	return r.Pick(xs...)
}

// odd message contents; the last ones end a line.
var oddMsgs = []string{"%", "%d %s %!v(", "100%", "\x00\xff\xfe", " x ", "  ", "\tt\t", "日本語 ü ß", `"q" \'x' {"a":[1]}`, "\rx", "%{msg} %{level}", "<b>&amp;", "\x1b[31mred\x1b[0m",
	"$1 ${x} $(y)", "|", "<<", "é\u2028", "a\nb", "\n\nz", "\r\nz", "x\n", "x\r\n", "\n"}

const (
	oddTail = 3     // messages that end a line
	twinPad = -1000 // records with the same message
	nilPad  = -1001 // records with an empty message
)

// oddPad is bigPad with messages of unusual content, and of equal content.
func oddPad(r *simrt.RNG, n int, tail, twins bool, xs ...int) int {
	switch k := r.Intn(24); {
	case k == 0:
		if l := len(oddMsgs); tail {
			return -1 - r.Intn(l)
		} else {
			return -1 - r.Intn(l-oddTail)
		}
	case k == 1 && twins:
		return r.Pick(twinPad, twinPad, nilPad)
	}
	return bigPad(r, n, xs...)
}

// rec creates the next record.
func (e *E) rec(task int, logger string, lvl api.Level, pad int) *Rec {
	id := len(e.recs)
	h := uint64(id+1) * 0x9E3779B97F4A7C15
	h ^= h >> 29
	r := &Rec{ID: id, Life: e.life, Task: task, Logger: logger, Lvl: lvl}
	r.Tok = fmt.Sprintf("<r%06d:%04x>", id, h&0xffff)
	r.Msg = r.Tok
	if pad == twinPad {
		r.Tok, r.Msg = "", "=same="
		e.twins = append(e.twins, r)
	} else if pad == nilPad {
		r.Tok, r.Msg = "", ""
		e.twins = append(e.twins, r)
	} else if pad < 0 {
		r.Msg += oddMsgs[(-1-pad)%len(oddMsgs)]
	} else if pad > 600 {
		// does not compress, so that archives are large too
		b := make([]byte, pad)
		for i := range b {
			h = h*6364136223846793005 + 1442695040888963407
			b[i] = tokBig[h>>58]
		}
		r.Msg += string(b)
	} else if pad > 0 {
		r.Msg += strings.Repeat(tokPad[id%26:id%26+1], pad)
	}
	k := e.life*1000 + task
	r.Ord = e.ords[k]
	e.ords[k]++
	e.recs = append(e.recs, r)
	if r.Tok != "" {
		e.byTok[r.Tok] = r
	}
	return r
}

func (e *E) begin(r *Rec) {
	r.S0, r.W0, r.M0, r.Started = e.s.Seq(), e.s.Wall(), int64(e.s.Mono()), true
	e.s.Logf("call r%d %s %s", r.ID, r.Logger, lvlStr(r.Lvl))
}

func (e *E) end(r *Rec) {
	r.S1, r.W1, r.M1, r.Done = e.s.Seq(), e.s.Wall(), int64(e.s.Mono()), true
	e.s.Logf("return r%d", r.ID)
}

// here notes the call site on the next line.
func (r *Rec) here() {
	pc, f, l, _ := runtime.Caller(1)
	r.File, r.Line = f, l+1
	r.Func = runtime.FuncForPC(pc).Name()
}

// emit logs through w with the method of the level.
func emit(w api.Writer, r *Rec, how int) {
	m := r.Msg
	if m == "" && r.ID%2 == 0 {
		emitNil(w, r)
		return
	}
	switch how & 7 % 3 {
	case 0:
		switch r.Lvl {
		case api.Trace:
			r.here()
			w.Trace(m)
		case api.Debug:
			r.here()
			w.Debug(m)
		case api.Info:
			r.here()
			w.Info(m)
		case api.Warn:
			r.here()
			w.Warn(m)
		case api.Error:
			r.here()
			w.Error(m)
		case api.Critical:
			r.here()
			w.Critical(m)
		}
	case 1:
		switch r.Lvl {
		case api.Trace:
			r.here()
			w.Tracef("%s%s", r.Tok, m[len(r.Tok):])
		case api.Debug:
			r.here()
			w.Debugf("%s%s", r.Tok, m[len(r.Tok):])
		case api.Info:
			r.here()
			w.Infof("%s%s", r.Tok, m[len(r.Tok):])
		case api.Warn:
			r.here()
			w.Warnf("%s%s", r.Tok, m[len(r.Tok):])
		case api.Error:
			r.here()
			w.Errorf("%s%s", r.Tok, m[len(r.Tok):])
		case api.Critical:
			r.here()
			w.Criticalf("%s%s", r.Tok, m[len(r.Tok):])
		}
	default:
		r.here()
		w.Printf(r.Lvl, "%s", m)
	}
}

// emitNil logs a record without any argument.
func emitNil(w api.Writer, r *Rec) {
	switch r.Lvl {
	case api.Trace:
		w.Trace()
	case api.Debug:
		w.Debugf("")
	case api.Info:
		w.Info()
	case api.Warn:
		w.Warn()
	case api.Error:
		w.Errorf("")
	default:
		w.Printf(r.Lvl, "")
	}
}

type emitter struct{ w api.Writer }

// log is a method call site.
func (x *emitter) log(r *Rec) {
	switch r.Lvl {
	case api.Trace:
		r.here()
		x.w.Trace(r.Msg)
	case api.Debug:
		r.here()
		x.w.Debugf("%s", r.Msg)
	case api.Info:
		r.here()
		x.w.Info(r.Msg)
	case api.Warn:
		r.here()
		x.w.Printf(api.Warn, "%s", r.Msg)
	case api.Error:
		r.here()
		x.w.Errorf("%s", r.Msg)
	default:
		r.here()
		x.w.Critical(r.Msg)
	}
}

// call performs a complete logging call of a record.
func (e *E) call(w api.Writer, r *Rec, how int) {
	if l, ok := w.(api.Logger); ok && how&8 != 0 {
		w = e.keep(l)
	}
	e.begin(r)
	emit(w, r, how)
	e.end(r)
}

// keep returns the writer which was made from a logger when it was first used.
func (e *E) keep(l api.Logger) api.Writer {
	if w := e.kept[l]; w != nil {
		return w
	}
	var w api.Writer
	switch len(e.kept) % 3 {
	case 0:
		w = l.WithFields(api.Field{Key: "kept", Value: "yes"})
	case 1:
		w = l.WithCtx(context.WithValue(context.Background(), "kept", "yes"))
	default:
		// a context which is over
		x, stop := context.WithCancel(context.Background())
		stop()
		w = l.WithCtx(x)
	}
	if e.kept == nil {
		e.kept = map[api.Logger]api.Writer{}
	}
	e.kept[l] = w
	return w
}

// callHow picks a way to log: the method, and whether through a writer kept with fields.
func callHow(r *simrt.RNG) int {
	return r.Intn(3) + r.Pick(0, 0, 8)
}

// get returns a logger of the simulated process.
func get(name string) api.Logger { return log4g.GetLogger(name) }

// mgr is its manager.
func mgr() api.Manager { return log4g.GetManager() }

// lines splits data into lines and reports bytes that are not one whole record.
func (e *E) lines(where, data string, exp func(r *Rec) string) []*Rec {
	var out []*Rec
	if t := e.tail(); t == "" || strings.IndexByte(t, '\n') != len(t)-1 {
		return e.texts(where, data, exp)
	}
	for len(data) > 0 {
		i := strings.IndexByte(data, '\n')
		var ln string
		if i >= 0 {
			// a message may contain line ends
			if r := e.tokOf(data[:i+1]); r != nil {
				if x := exp(r); len(x) > i+1 && strings.HasPrefix(data, x) {
					out = append(out, r)
					data = data[len(x):]
					continue
				}
			}
		}
		if i < 0 {
			ln, data = data, ""
		} else {
			ln, data = data[:i+1], data[i+1:]
		}
		r := e.tokOf(ln)
		if r == nil && e.twin(where, ln, exp) {
			continue
		}
		if r == nil {
			e.v("torn", "%s holds bytes of no record: %q", where, clip(ln))
			continue
		}
		if x := exp(r); ln != x {
			e.v("torn", "%s: record r%d reads %q, expected %q", where, r.ID, clip(ln), clip(x))
			continue
		}
		out = append(out, r)
	}
	return out
}

// texts is lines for texts that do not end with one line end.
func (e *E) texts(where, data string, exp func(r *Rec) string) []*Rec {
	var out []*Rec
	for len(data) > 0 {
		if r := e.tokOf(data); r != nil {
			if x := exp(r); strings.HasPrefix(data, x) {
				out = append(out, r)
				data = data[len(x):]
				continue
			}
		}
		best := ""
		for _, r := range e.twins {
			if x := exp(r); len(x) > len(best) && strings.HasPrefix(data, x) {
				best = x
			}
		}
		if best != "" {
			e.twin(where, best, exp)
			data = data[len(best):]
			continue
		}
		e.v("torn", "%s holds bytes of no record: %q", where, clip(data))
		break
	}
	return out
}

// twin counts a line that several records share.
func (e *E) twin(where, ln string, exp func(r *Rec) string) bool {
	for _, r := range e.twins {
		if exp(r) == ln {
			if e.twinN == nil {
				e.twinN = map[string]int{}
			}
			e.twinN[fmt.Sprint(where, " ", r.Logger, " ", r.Lvl, r.Msg)]++
			return true
		}
	}
	return false
}

func clip(s string) string {
	if len(s) > 220 {
		return s[:200] + "..." + s[len(s)-15:]
	}
	return s
}

func (e *E) tokOf(ln string) *Rec {
	i := strings.Index(ln, "<r")
	if i < 0 || i+14 > len(ln) {
		return nil
	}
	return e.byTok[ln[i:i+14]]
}

// once checks that no record appears twice and that those required appear.
func (e *E) once(where string, got []*Rec, must func(r *Rec) bool, may func(r *Rec) bool) {
	n := map[*Rec]int{}
	for _, r := range got {
		n[r]++
	}
	lo, hi := map[string]int{}, map[string]int{}
	for _, r := range e.recs {
		if r.Tok == "" {
			k := fmt.Sprint(where, " ", r.Logger, " ", r.Lvl, r.Msg)
			lo[k] += b2i(must(r))
			hi[k] += b2i(may == nil || may(r))
			continue
		}
		k := n[r]
		if k > 1 {
			e.v("dup", "%s: record r%d is there %d times", where, r.ID, k)
		}
		if k == 0 && must(r) {
			e.v("lost", "%s: record r%d (%s of %s) is missing", where, r.ID, lvlStr(r.Lvl), r.Logger)
		}
		if k > 0 && may != nil && !may(r) {
			e.v("stray", "%s: record r%d (%s of %s) must not be there", where, r.ID, lvlStr(r.Lvl), r.Logger)
		}
	}
	for _, r := range e.twins {
		k := fmt.Sprint(where, " ", r.Logger, " ", r.Lvl, r.Msg)
		if _, ok := hi[k]; !ok {
			continue
		}
		if c := e.twinN[k]; c > hi[k] {
			e.v("dup", "%s: %d records with equal text (%s of %s), at most %d expected", where, c, lvlStr(r.Lvl), r.Logger, hi[k])
		} else if c < lo[k] {
			e.v("lost", "%s: %d records with equal text (%s of %s), at least %d expected", where, c, lvlStr(r.Lvl), r.Logger, lo[k])
		}
		delete(hi, k)
	}
}

// order checks that the records of each task appear in the order they were logged.
func (e *E) order(where string, got []*Rec) {
	last := map[int]*Rec{}
	for _, r := range got {
		k := r.Life*1000 + r.Task
		if l := last[k]; l != nil && l.Ord > r.Ord {
			e.v("order", "%s: record r%d of task %d comes after r%d which was logged later", where, r.ID, r.Task, l.ID)
		}
		last[k] = r
	}
}

// faults switches fault injection on for the process.
func (e *E) noFaults() { e.s.F = simrt.Faults{} }

// pause enables pauses of the whole process.
func (e *E) pauses() {
	if p := e.pi("pauseP"); p > 0 {
		e.s.F.On = true
		e.s.F.JumpP = float64(p) / 10000
		e.s.F.JumpMax = time.Duration(e.pi("pauseMax")) * time.Millisecond
	}
}

func sleepMs(n int) { simrt.Sleep(time.Duration(n) * time.Millisecond) }

var lvls = []api.Level{api.Trace, api.Debug, api.Info, api.Warn, api.Error, api.Critical}

// The oracles have their own level names: calling the library's from an
// oracle would let it be preempted half-way.
var lvlTab = map[api.Level]string{api.All: "ALL", api.Trace: "TRACE", api.Debug: "DEBUG", api.Info: "INFO", api.Warn: "WARN", api.Error: "ERROR", api.Critical: "CRITICAL", api.Off: "OFF"}

func lvlStr(l api.Level) string { return lvlTab[l] }

func lvlFrom(s string) api.Level {
	for k, v := range lvlTab {
		if strings.EqualFold(v, s) {
			return k
		}
	}
	return api.Uninitialized
}

func lvlName(l api.Level) string { return strings.ToLower(lvlStr(l)) }

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func itoa(n int) string { return fmt.Sprint(n) }
