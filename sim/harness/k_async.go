package harness

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"strings"
	"syscall"
	"time"

	"github.com/xtfly/log4g/api"
	"github.com/xtfly/log4g/zzsim/simrt"
)

// Asynchronous outputs: C02 (close delivers), C03 (safe shutdown), C04 (bounded
// delivery), C05 (bounded lossless queue), C06 (same text as synchronous), C23 (signals).

func init() {
	kinds["async"] = kind{genAsync, runAsync}
	for _, p := range []string{"C02", "C03", "C04", "C05", "C06", "C23"} {
		propKinds[p] = append(propKinds[p], "async")
	}
}

var asyncNames = []string{"root", "a"}

const lay6 = "%{module}|%{level:-8s}|%{time:2006-01-02T15:04:05.000000000}|%{shortfile}:%{line}|%{longfunc}|%{fa}|%{fb:6v}|%{msg}\n"

func genAsync(prop string, r *simrt.RNG, p *Prog) {
	q := r.Pick(1, 1, 2, 3, 5, 20)
	b := r.Pick(1, 1, 2, 3, 5, 20)
	if r.Intn(8) == 0 {
		q = 0 // default: 1000
	}
	if r.Intn(8) == 0 {
		b = 0 // default: 20
	}
	p.P["q"], p.P["b"] = q, b
	kindOut := r.Intn(3) // 0 console, 1 size rolling, 2 time rolling
	if prop == "C05" && r.Intn(4) > 0 {
		kindOut = 0
	}
	lay := lay1
	if prop == "C06" {
		lay = r.PickS("", "", "", "", "", "\n", "\n\n", " ", "\t", "\r\n") + lay6
		if r.Intn(6) == 0 {
			lay += r.PickS("\n", "\r\n", "\n\n")
		}
	}
	o := api.CfgOutput{"name": "o1", "format": "f1", "async": "true"}
	if q > 0 {
		o["queue_size"] = itoa(q)
	}
	if b > 0 {
		o["batch_num"] = itoa(b)
	}
	if r.Intn(3) == 0 {
		o["threshold"] = r.PickS("info", "debug", "warn")
	}
	switch kindOut {
	case 0:
		o["type"] = "console"
	case 1:
		o["type"], o["file"], o["size"], o["backups"] = "size_rolling_file", "log/o1.log", r.PickS("100M", "300"), "20"
		if prop == "C06" || prop == "C05" { // retention must not retire anything
			o["size"] = "100M"
		}
	case 2:
		o["type"], o["file"], o["pattern"], o["backups"] = "time_rolling_file", "log/o1.log", "2006", "20"
	}
	p.P["out"] = kindOut
	cfg := &api.Config{Formats: []api.CfgFormat{{"type": "text", "name": "f1", "layout": lay}}, Outputs: []api.CfgOutput{o}}
	on := []string{"o1"}
	if prop == "C06" {
		s := api.CfgOutput{"name": "s1", "format": "f1", "type": "size_rolling_file", "file": "log/s1.log", "size": "100M"}
		if t := o["threshold"]; t != "" {
			s["threshold"] = t
		}
		cfg.Outputs = append(cfg.Outputs, s)
		on = []string{"o1", "s1"}
		if r.Bool(0.5) {
			on = []string{"s1", "o1"}
		}
	}
	if (prop == "C02" || prop == "C23" || prop == "C03") && r.Intn(3) == 0 {
		o2 := api.CfgOutput{"name": "o2", "format": "f1", "type": "size_rolling_file", "file": "log/o2.log", "size": "100M", "async": "true",
			"queue_size": itoa(r.Pick(1, 3, 50)), "batch_num": itoa(r.Pick(1, 2, 30))}
		cfg.Outputs = append(cfg.Outputs, o2)
		on = append(on, "o2")
		if r.Intn(5) == 0 {
			for i, n := 3, r.Range(3, 6); i <= n; i++ {
				o := api.CfgOutput{}
				for k, v := range o2 {
					o[k] = v
				}
				o["name"] = fmt.Sprintf("o%d", i)
				o["file"] = "log/" + o["name"] + ".log"
				cfg.Outputs = append(cfg.Outputs, o)
				on = append(on, o["name"])
			}
		}
	}
	for _, n := range asyncNames {
		cfg.Loggers = append(cfg.Loggers, api.CfgLogger{Name: n, Level: r.PickS("all", "debug", "trace"), OutputNames: on})
	}
	p.Cfgs = []*api.Config{cfg}
	// when the outputs come into being: in a task of their own, or inside the first task
	p.P["lazy"] = b2i(r.Intn(3) == 0)
	logOp := func() Op {
		return Op{K: "log", A: r.Intn(2), B: r.Intn(6), C: oddPad(r, 30, true, prop == "C02" || prop == "C03" || prop == "C23", 0, 0, 5, 40), D: callHow(r)}
	}
	nt := r.Range(1, 4)
	switch prop {
	case "C02":
		p.Lives = []Life{{Tasks: genTasks(r, nt, 0, 6, func(t, i int) Op {
			if r.Intn(10) == 0 {
				return Op{K: "sleep", A: r.Pick(1, 100, 5000, 5001, 12000)}
			}
			return logOp()
		})}}
		// who closes: a task after its own records, or a closer of its own
		nc := r.Pick(1, 1, 1, 2, 3)
		for i := 0; i < nc; i++ {
			c := Op{K: r.PickS("close", "close", "oclose")}
			if r.Bool(0.5) {
				ts := p.Lives[0].Tasks
				k := r.Intn(len(ts))
				ts[k].Ops = append(ts[k].Ops, c)
			} else {
				var ops []Op
				if r.Bool(0.5) {
					ops = append(ops, Op{K: "sleep", A: r.Pick(0, 1, 5000, 6000)})
				}
				p.Lives[0].Tasks = append(p.Lives[0].Tasks, TaskP{append(ops, c)})
			}
		}
		if r.Intn(4) == 0 {
			p.P["stall"] = r.Pick(1, 100, 7000, 45000, 130000) // ms
		}
	case "C03":
		p.Lives = []Life{{Tasks: genTasks(r, nt, 1, 6, func(t, i int) Op {
			if r.Intn(8) == 0 {
				return Op{K: "sleep", A: r.Pick(0, 1, 5000)}
			}
			return logOp()
		})}}
		for i, n := 0, r.Range(1, 3); i < n; i++ {
			var ops []Op
			for j, m := 0, r.Range(1, 3); j < m; j++ {
				if r.Intn(3) == 0 {
					ops = append(ops, Op{K: "sleep", A: r.Pick(0, 1, 5000)})
				}
				ops = append(ops, Op{K: r.PickS("close", "close", "oclose")})
				if r.Intn(4) == 0 {
					ops = append(ops, logOp())
				}
			}
			p.Lives[0].Tasks = append(p.Lives[0].Tasks, TaskP{ops})
		}
		if r.Intn(4) == 0 {
			p.P["stall"] = r.Pick(1, 100, 7000, 45000)
		}
		if r.Intn(4) == 0 {
			p.P["sig"] = r.Pick(5, 50, 300, 1000)
		}
	case "C04":
		p.Lives = []Life{{Tasks: genTasks(r, r.Range(1, 3), 1, 8, func(t, i int) Op {
			switch r.Intn(4) {
			case 0:
				return Op{K: "sleep", A: r.Pick(10, 900, 4999, 5000, 5001, 9000, 11000, 31000, 70000, 400000)}
			case 1:
				if r.Intn(3) == 0 {
					return Op{K: "step", A: r.Pick(-3600, -10, -5, 5, 10, 3600, -86400)}
				}
			}
			return logOp()
		})}}
		delete(cfg.Outputs[0], "threshold")
		if r.Intn(10) == 0 {
			t := &p.Lives[0].Tasks[0]
			t.Ops = append(t.Ops, Op{K: "sleep", A: 4000000}, logOp())
		}
		if r.Intn(4) == 0 {
			p.P["stall"] = r.Pick(100, 7000, 20000)
		}
	case "C05":
		if q == 0 {
			delete(o, "queue_size")
		}
		p.P["stallall"] = 1
		if r.Intn(6) == 0 {
			p.P["hold"] = r.Pick(200, 700, 4000)
		}
		p.P["pre"] = b2i(r.Bool(0.4)) // let the first records through
		n := r.Pick(1, 2, 4, 10)
		p.Lives = []Life{{Tasks: genTasks(r, r.Range(1, 4), n, n*2+1, func(t, i int) Op {
			if r.Intn(20) == 0 {
				return Op{K: "sleep", A: r.Pick(1, 5000, 6000)}
			}
			return logOp()
		})}}
		if q+b > 20 || q == 0 {
			if q == 0 && r.Intn(4) == 0 {
				for i := 0; i < 1060; i++ {
					p.Lives[0].Tasks[0].Ops = append(p.Lives[0].Tasks[0].Ops, logOp())
				}
			} else if q > 0 {
				for i := 0; i < q+20; i++ {
					t := &p.Lives[0].Tasks[r.Intn(len(p.Lives[0].Tasks))]
					t.Ops = append(t.Ops, logOp())
				}
			}
		}
	case "C06":
		p.Lives = []Life{{Tasks: genTasks(r, nt, 1, 6, func(t, i int) Op {
			if r.Intn(10) == 0 {
				return Op{K: "sleep", A: r.Pick(1, 100, 5000)}
			}
			return Op{K: "logm", A: r.Intn(2), B: r.Intn(6), C: r.Pick(0, 1, 2, 3, 4, 5, 6, 0, 1, 2, 3, 4, 5, 6, 0, 1, 2, 3, 4, 5, 6, 7), D: r.Intn(4)}
		})}}
		if r.Intn(4) == 0 {
			p.P["stall"] = r.Pick(1, 100, 7000)
		}
	case "C23":
		p.Lives = []Life{{Tasks: genTasks(r, nt, 1, 7, func(t, i int) Op {
			if r.Intn(10) == 0 {
				return Op{K: "sleep", A: r.Pick(1, 100, 5000)}
			}
			return logOp()
		})}}
		p.P["sig"] = r.Pick(1, 20, 100, 300, 600, 1500)
		p.P["signo"] = r.Intn(2)
		p.P["sig2"] = r.Intn(3)
	}
	if prop != "C06" && r.Intn(60) == 0 {
		// many records, large queues and batches
		delete(o, "threshold")
		cfg.Loggers[1].Level, cfg.Loggers[0].Level = "all", "all"
		n := r.Pick(60, 150, 300)
		q, b = r.Pick(20, 100, 400), r.Pick(20, 50, 130)
		if prop == "C05" && r.Intn(3) == 0 {
			q, n = r.Pick(1100, 1300), 1350
		}
		if prop == "C04" && r.Intn(3) == 0 || prop == "C05" && r.Intn(6) == 0 {
			b, n = r.Pick(450, 500), 600
		}
		o["queue_size"], o["batch_num"] = itoa(q), itoa(b)
		p.P["q"], p.P["b"], p.P["many"] = q, b, 1
		if out := p.P["out"]; out == 1 {
			o["size"] = "100M"
		}
		ts := p.Lives[0].Tasks
		t := &ts[r.Intn(len(ts))]
		var ops []Op
		pad := r.Pick(0, 0, 0, 4000)
		for i := 0; i < n; i++ {
			ops = append(ops, Op{K: "log", A: i & 1, B: i % 6, C: pad})
		}
		t.Ops = append(ops, t.Ops...)
		if (prop == "C02" || prop == "C03") && r.Intn(2) == 0 {
			p.P["stall"] = r.Pick(1, 100, 7000)
		}
	}
	if (prop == "C02" || prop == "C03") && r.Intn(5) == 0 {
		p.P["pauseP"], p.P["pauseMax"] = 30, 20000
	}
}

type closing struct{ s0, s1 int }

type mutStr struct{ v string }

func (m *mutStr) String() string { return m.v }

type mutCtx struct {
	context.Context
	m map[string]interface{}
}

func (c *mutCtx) Value(k interface{}) interface{} {
	if s, ok := k.(string); ok {
		if v, ok := c.m[s]; ok {
			return v
		}
	}
	return c.Context.Value(k)
}

func runAsync(e *E) {
	p := e.p
	s := e.s
	cfg := p.Cfgs[0]
	q, b := e.pi("q"), e.pi("b")
	if q == 0 {
		q = 1000
	}
	if b == 0 {
		b = 20
	}
	if !e.boot() {
		return
	}
	out := e.pi("out")
	lvlOf := map[string]api.Level{}
	for _, l := range cfg.Loggers {
		lvlOf[l.Name] = lvlFrom(l.Level)
	}
	in := func(o string, r *Rec) bool {
		c := outCfg(cfg, o)
		return c != nil && r.Lvl >= lvlOf[r.Logger] && admits(c, r.Lvl)
	}
	arrive := map[string]map[*Rec]int64{}
	for _, o := range cfg.Outputs {
		arrive[o["name"]] = map[*Rec]int64{}
	}
	note := func(o string, data []byte) {
		d := string(data)
		for {
			i := strings.Index(d, "<r")
			if i < 0 || i+14 > len(d) {
				return
			}
			if r := e.byTok[d[i:i+14]]; r != nil {
				if _, ok := arrive[o][r]; !ok {
					arrive[o][r] = int64(s.Mono())
				}
			}
			d = d[i+2:]
		}
	}
	s.FS.On = func(ev *simrt.Event) {
		if ev.Op == "write" && ev.N > 0 {
			for _, c := range cfg.Outputs {
				o := c["name"]
				if strings.HasPrefix(ev.Path, "/w/log/"+o+".log") {
					note(o, ev.Data[:ev.N])
				}
			}
		}
	}
	s.FS.Stdout.On = func(b []byte) { note("o1", b) }
	stall := func(on bool) {
		if out == 0 {
			s.FS.Stdout.Stalled = on
		} else {
			s.FS.StallPath = ""
			if on {
				s.FS.StallPath = "/w/log/o1.log"
			}
		}
		s.Logf("stall %v", on)
	}
	read := func(o string) string {
		if o == "o1" && out == 0 {
			return string(s.FS.Stdout.Buf)
		}
		return e.rollData("/w/log", o+".log")
	}
	outsN := []string{"o1"}
	for _, o := range cfg.Outputs {
		if n := o["name"]; n != "o1" && n != "s1" {
			outsN = append(outsN, n)
		}
	}
	has := func(o string, r *Rec) int { return strings.Count(read(o), r.Tok) }
	lg := map[string]api.Logger{}
	setup := func() {
		if err := mgr().SetConfig(cfg); err != nil {
			s.Internal("config: %v", err)
		}
		for _, n := range asyncNames {
			lg[n] = get(n)
		}
	}
	ready := false
	if e.pi("lazy") == 0 {
		if !e.do("setup", setup) {
			return
		}
		ready = true
	}
	e.pauses()
	stalled := false
	if n := e.pi("stall"); n > 0 {
		stall(true)
		s.After(time.Duration(n)*time.Millisecond, func() { stall(false) })
	}
	if e.pi("stallall") == 1 && e.pi("pre") == 0 {
		stall(true)
		stalled = true
	}
	accepted := 0
	var closes []closing
	// close calls that began but have not returned also end acceptance
	var begun []int
	doClose := func(kind string) {
		c := closing{s0: s.Seq()}
		s.Logf("%s begins", kind)
		if kind == "close" {
			mgr().Close()
		} else {
			for _, n := range asyncNames {
				ops, _, _ := mgr().GetLoggerOutputs(n)
				for _, o := range ops {
					o.Close()
				}
			}
		}
		c.s1 = s.Seq()
		s.Logf("%s returns", kind)
		closes = append(closes, c)
		for _, o := range outsN {
			d := read(o)
			for _, r := range e.recs {
				if r.Done && r.S1 < c.s0 && in(o, r) && !strings.Contains(d, r.Tok) {
					// records logged after an earlier close began may have been dropped
					late := false
					for _, x := range begun {
						late = late || r.S1 > x
					}
					if !late {
						e.vp("C02", "lost", "record r%d returned before the close call, which has returned, is not in %s", r.ID, o)
					}
				}
			}
		}
	}
	firstClose := func() int {
		m := 1 << 60
		for _, c := range closes {
			if c.s0 < m {
				m = c.s0
			}
		}
		return m
	}
	var ts []*simrt.Task
	for ti, tp := range p.Lives[0].Tasks {
		ti, tp := ti, tp
		ts = append(ts, e.proc.Spawn(fmt.Sprintf("t%d", ti), func() {
			if !ready {
				if ti == 0 {
					setup()
					ready = true
				} else {
					simrt.Block("setup", func() bool { return ready })
				}
			}
			for _, op := range tp.Ops {
				switch op.K {
				case "sleep":
					sleepMs(op.A)
				case "step":
					s.StepClock(time.Duration(op.A) * time.Second)
				case "log":
					n := asyncNames[op.A]
					r := e.rec(ti, n, lvls[op.B], op.C)
					e.call(lg[n], r, op.D)
					if in("o1", r) && r.Tok != "" {
						accepted++
						if len(begun) == 0 && accepted-len(arrive["o1"]) > q+b {
							e.vp("C05", "unbounded", "%d records accepted and not written with queue size %d and batch size %d", accepted-len(arrive["o1"]), q, b)
						}
					}
				case "logm":
					e.mutated(ti, op, lg)
				case "close", "oclose":
					begun = append(begun, s.SeqNow())
					doClose(op.K)
				}
			}
		}))
	}
	sigSeq := 0
	miss := func() (string, *Rec) {
		for _, o := range outsN {
			d := read(o)
			for _, r := range e.recs {
				if r.Done && r.S1 < sigSeq && in(o, r) && !strings.Contains(d, r.Tok) {
					return o, r
				}
			}
		}
		return "", nil
	}
	if n := e.pi("sig"); n > 0 {
		at := s.Steps() + n
		s.WaitUntil(time.Hour, func() bool { return s.Steps() >= at || allDone(ts) || e.proc.Over() })
		var sg os.Signal = os.Interrupt
		if e.pi("signo") == 1 {
			sg = syscall.SIGTERM
		}
		if !e.proc.Over() {
			sigSeq = s.Seq()
			if !e.proc.Signal(sg) {
				e.vp("C23", "killed", "signal %v is not handled: the process dies with queued records", sg)
				e.vp("C03", "killed", "signal %v is not handled", sg)
				return
			}
			if k := e.pi("sig2"); k > 0 {
				for i := 0; i < k; i++ {
					s.WaitUntil(time.Duration(i)*time.Millisecond, func() bool { return false })
					if !e.proc.Over() && !e.proc.Signal([]os.Signal{os.Interrupt, syscall.SIGTERM}[i%2]) {
						// not handled any more
						if o, r := miss(); r != nil {
							e.vp("C23", "lost", "record r%d, accepted before the first signal, is not in %s when a later signal ends the process", r.ID, o)
						}
						return
					}
				}
			}
		}
	}
	if e.is("C23") {
		s.WaitUntil(2*time.Second*time.Duration(1+e.pi("many")), func() bool { _, r := miss(); return r == nil || e.proc.Over() })
		if e.checkProc() {
			return
		}
		if o, r := miss(); r != nil {
			e.v("lost", "record r%d, accepted before the signal, is not in %s seconds after it", r.ID, o)
		}
	}
	if e.pi("stallall") == 1 {
		if !stalled {
			s.WaitUntil(time.Duration(50)*time.Millisecond, func() bool { return accepted > 2 })
			stall(true)
		}
		s.WaitUntil(time.Duration(max(60, e.pi("hold")))*time.Second, func() bool { return false })
		if e.checkProc() {
			return
		}
		outst := accepted - len(arrive["o1"])
		blocked := 0
		for _, r := range e.recs {
			if r.Started && !r.Done {
				blocked++
				if !in("o1", r) {
					e.v("wait", "record r%d, which no output admits, waits for the stalled target", r.ID)
				}
			}
		}
		if blocked > 0 && outst < q {
			e.v("wait", "%d calls wait although only %d records are outstanding (queue size %d)", blocked, outst, q)
		}
		if outst > q+b {
			e.v("unbounded", "%d records outstanding with queue size %d and batch size %d", outst, q, b)
		}
		if blocked > 0 {
			s.Probe("producers-blocked")
		}
		stall(false)
	}
	if !e.await(3*time.Hour, ts...) {
		return
	}
	e.noFaults()
	if e.is("C04") {
		s.WaitUntil(40*time.Second, func() bool { return false })
		if e.checkProc() {
			return
		}
		e.arrivals(b, arrive["o1"], func(r *Rec) bool { return in("o1", r) }, int64(e.pi("stall"))*int64(time.Millisecond))
	}
	// final close, twice
	for i := 0; i < 2; i++ {
		if !e.doFor("final-close", time.Hour, func() { begun = append(begun, s.SeqNow()); doClose("close") }) {
			return
		}
	}
	fc := firstClose()
	if e.pi("sig") > 0 && sigSeq > 0 && sigSeq < fc {
		fc = sigSeq
	}
	for _, bg := range begun {
		if bg < fc {
			fc = bg
		}
	}
	for _, o := range outsN {
		o := o
		var got []*Rec
		if e.is("C06") {
			got = e.linesByTok(o, read(o))
		} else {
			got = e.lines(o, read(o), e.exp1)
		}
		must := func(r *Rec) bool { return in(o, r) && r.S1 < fc && !e.is("C03", "C23") }
		e.once(o, got, must, func(r *Rec) bool { return in(o, r) })
		e.order(o, got)
	}
	if e.is("C06") {
		a, b := e.byLine(read("o1")), e.byLine(read("s1"))
		// the lines without text that some layouts have
		x, y := read("o1"), read("s1")
		for r := range a {
			if b[r] == "" {
				x, y = "", ""
			}
		}
		for r := range b {
			if a[r] == "" {
				x, y = "", ""
			}
		}
		if len(x) != len(y) {
			e.v("differ", "the same records are %d bytes asynchronously, %d bytes synchronously", len(x), len(y))
		}
		for _, r := range e.recs {
			if !r.Done || !in("o1", r) || r.S1 >= fc {
				continue
			}
			x, y := a[r], b[r]
			if y == "" {
				e.v("lost", "record r%d is missing in the synchronous output", r.ID)
			} else if x != y {
				e.v("differ", "record r%d: asynchronous %q, synchronous %q", r.ID, clip(x), clip(y))
			} else if w := r.X["text"]; !strings.Contains(x, w) {
				e.v("content", "record r%d reads %q, at the call its text was %q", r.ID, clip(x), clip(w))
			}
		}
	}
	_ = has
}

func allDone(ts []*simrt.Task) bool {
	for _, t := range ts {
		if !t.Done() {
			return false
		}
	}
	return true
}

func (e *E) byLine(d string) map[*Rec]string {
	m := map[*Rec]string{}
	for _, ln := range strings.SplitAfter(d, "\n") {
		if r := e.tokOf(ln); r != nil {
			m[r] += ln
		}
	}
	return m
}

func (e *E) linesByTok(where, d string) []*Rec {
	var got []*Rec
	for _, ln := range strings.SplitAfter(d, "\n") {
		if ln == "" || ln == "\n" || ln == "\r\n" { // lines of some layouts
			continue
		}
		r := e.tokOf(ln)
		if r == nil {
			e.v("torn", "%s holds bytes of no record: %q", where, clip(ln))
			continue
		}
		got = append(got, r)
	}
	return got
}

// arrivals checks the delivery times of C04.
func (e *E) arrivals(batch int, at map[*Rec]int64, in func(r *Rec) bool, stallUntil int64) {
	const sec = int64(time.Second)
	type evt struct {
		t int64
		d int
	}
	var evs []evt
	for _, r := range e.recs {
		if !r.Done || !in(r) {
			continue
		}
		a, ok := at[r]
		base := r.M1
		if stallUntil > 0 && base < stallUntil+sec {
			base = stallUntil + sec
		}
		if !ok {
			e.v("late", "record r%d was never written (%v after its call)", r.ID, e.s.Mono()-time.Duration(r.M1))
			continue
		}
		if a > base+10*sec {
			e.v("late", "record r%d was written %v after its call", r.ID, time.Duration(a-r.M1))
		}
		evs = append(evs, evt{r.M1, 1}, evt{a, -1})
	}
	// a full batch must not wait
	for i := 1; i < len(evs); i++ {
		for j := i; j > 0 && (evs[j].t < evs[j-1].t || (evs[j].t == evs[j-1].t && evs[j].d < evs[j-1].d)); j-- {
			evs[j], evs[j-1] = evs[j-1], evs[j]
		}
	}
	n := 0
	since := int64(-1)
	for _, x := range evs {
		// with many records the other tasks alone take some time
		if since >= 0 && x.t-since > sec*int64(1+2*e.pi("many")) && since > stallUntil+sec {
			e.v("batch", "%d records were outstanding for %v with batch size %d", n, time.Duration(x.t-since), batch)
			return
		}
		n += x.d
		if n >= batch {
			if since < 0 {
				since = x.t
			}
		} else {
			since = -1
		}
	}
}

// mutated logs with arguments that change after the call.
func (e *E) mutated(ti int, op Op, lg map[string]api.Logger) {
	n := asyncNames[op.A]
	r := e.rec(ti, n, lvls[op.B], 0)
	l := lg[n]
	var w api.Writer = l
	after := func() {}
	fv := &mutStr{"f0"}
	var fbuf = []int{1, 2}
	switch op.D {
	case 1:
		fs := []api.Field{{Key: "fa", Value: fv}, {Key: "fb", Value: fbuf}}
		w = l.WithFields(fs...)
		after = func() { fv.v = "CHANGED"; fbuf[0] = 99; fs[0].Value = "CHANGED" }
	case 2:
		c := &mutCtx{context.Background(), map[string]interface{}{"fa": "c0", "fb": 7}}
		w = l.WithCtx(c)
		after = func() { c.m["fa"] = "CHANGED"; c.m["fb"] = 8 }
	}
	var args []interface{}
	undo := func() {}
	switch op.C {
	case 0:
		m := &mutStr{"x1"}
		args = []interface{}{m}
		undo = func() { m.v = "CHANGED" }
	case 1:
		x := []int{1, 2, 3}
		args = []interface{}{x}
		undo = func() { x[1] = 99 }
	case 2:
		x := map[string]int{"k": 1}
		args = []interface{}{x}
		undo = func() { x["k"] = 99; x["l"] = 5 }
	case 3:
		x := &struct{ A, B int }{1, 2}
		args = []interface{}{x}
		undo = func() { x.A = 99 }
	case 4:
		x := bytes.NewBufferString("buf0")
		args = []interface{}{x}
		undo = func() { x.WriteString("CHANGED") }
	case 5:
		args = []interface{}{errors.New("e1")}
		undo = func() { args[len(args)-1] = "CHANGED" }
	case 6:
		x := 5
		args = []interface{}{fmt.Sprintf("v%d", x)}
	case 7: // large
		x := bytes.Repeat([]byte("0123456789"), 200+1200*(r.ID%3))
		args = []interface{}{x}
		if op.D&1 == 0 {
			args[0] = bytes.NewBuffer(x)
		}
		undo = func() { x[len(x)/2] = 'C' }
	}
	all := append([]interface{}{r.Tok}, args...)
	old := undo
	undo = func() { old(); all[1] = "CHANGED"; all[0] = "CHANGED" }
	f := "%v [%v]"
	r.X = map[string]string{"text": fmt.Sprintf(f, all...)}
	e.begin(r)
	switch r.Lvl {
	case api.Trace:
		w.Tracef(f, all...)
	case api.Debug:
		w.Debugf(f, all...)
	case api.Info:
		w.Infof(f, all...)
	case api.Warn:
		w.Warnf(f, all...)
	case api.Error:
		w.Printf(r.Lvl, f, all...)
	default:
		w.Criticalf(f, all...)
	}
	e.end(r)
	undo()
	after()
}
