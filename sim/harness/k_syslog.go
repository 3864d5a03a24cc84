package harness

import (
	"fmt"
	"strings"
	"time"

	"github.com/xtfly/log4g/api"
	"github.com/xtfly/log4g/zzsim/simrt"
)

// Syslog outputs against a simulated daemon (C22).

func init() {
	kinds["syslog"] = kind{genSyslog, runSyslog}
	propKinds["C22"] = []string{"syslog"}
}

var sysNames = []string{"root", "a", "a/b"}

func genSyslog(prop string, r *simrt.RNG, p *Prog) {
	cfg := &api.Config{Formats: []api.CfgFormat{{"type": "text", "name": "f1", "layout": lay1},
		{"type": "text", "name": "f2", "layout": strings.TrimSuffix(lay1, "\n")}}}
	var outs []string
	for i, n := 0, r.Pick(1, 1, 2); i < n; i++ {
		o := api.CfgOutput{"name": fmt.Sprintf("y%d", i), "type": "syslog", "format": r.PickS("f1", "f1", "f2"), "prefix": r.PickS("module", "", fmt.Sprintf("p%d", i))}
		if i > 0 || n > 1 {
			o["prefix"] = fmt.Sprintf("p%d", i)
		}
		if r.Bool(0.4) {
			o["threshold"] = r.PickS("debug", "info", "WARN", "error", "critical")
		}
		cfg.Outputs = append(cfg.Outputs, o)
		outs = append(outs, o["name"])
	}
	if r.Intn(3) == 0 {
		cfg.Outputs = append(cfg.Outputs, api.CfgOutput{"name": "s1", "type": "size_rolling_file", "format": "f1", "file": "log/s1.log", "size": "100M"})
		if r.Bool(0.5) {
			outs = append(outs, "s1")
		} else {
			outs = append([]string{"s1"}, outs...)
		}
	}
	cfg.Loggers = append(cfg.Loggers, api.CfgLogger{Name: "root", Level: r.PickS("all", "trace", "debug"), OutputNames: outs})
	if r.Bool(0.5) {
		k := r.Range(1, len(outs))
		cfg.Loggers = append(cfg.Loggers, api.CfgLogger{Name: "a", Level: r.PickS("all", "info"), OutputNames: outs[:k]})
	}
	p.Cfgs = []*api.Config{cfg}
	p.P["up"] = b2i(r.Intn(4) > 0)
	if r.Intn(4) == 0 {
		p.P["wfail"] = r.Pick(2, 10, 30)
	}
	p.Lives = []Life{{Tasks: genTasks(r, r.Range(1, 4), 2, 8, func(t, i int) Op {
		if r.Intn(10) == 0 {
			return Op{K: "sleep", A: r.Pick(1, 50, 1000)}
		}
		return Op{K: "log", A: r.Intn(len(sysNames)), B: r.Intn(6), C: oddPad(r, 30, false, true, 0, 0, 5, 200), D: callHow(r)}
	})}}
	if r.Intn(4) > 0 {
		// the operator of the daemon
		var ops []Op
		for i, n := 0, r.Range(1, 5); i < n; i++ {
			if r.Bool(0.4) {
				ops = append(ops, Op{K: "sleep", A: r.Pick(0, 1, 50, 1000)})
			}
			ops = append(ops, Op{K: r.PickS("down", "up", "restart", "restart", "stall", "resume"), A: r.Pick(5, 30, 100, 300)})
		}
		p.Lives[0].Tasks = append(p.Lives[0].Tasks, TaskP{ops})
	}
	if r.Intn(5) == 0 {
		t := &p.Lives[0].Tasks[0]
		t.Ops = append(t.Ops, Op{K: "close"})
	}
}

var severity = map[api.Level]int{api.Trace: 7, api.Debug: 7, api.Info: 6, api.Warn: 4, api.Error: 3, api.Critical: 2}

func runSyslog(e *E) {
	p, s := e.p, e.s
	cfg := p.Cfgs[0]
	s.Net.Up = e.pi("up") == 1
	if !e.boot() {
		return
	}
	m := cfgModel{cfg}
	lg := map[string]api.Logger{}
	if !e.do("setup", func() {
		if err := mgr().SetConfig(cfg); err != nil {
			s.Internal("config: %v", err)
		}
		for _, n := range sysNames {
			lg[n] = get(n)
		}
	}) {
		return
	}
	s.Net.WriteFailP = float64(e.pi("wfail")) / 100
	// instants at which connections broke or the daemon changed state
	var breaks []int
	type span struct{ a, b int }
	var downs []span
	down := -1
	if !s.Net.Up {
		down = 0
	}
	setUp := func(up bool) {
		if up && down >= 0 {
			downs = append(downs, span{down, s.SeqNow()})
			down = -1
		}
		if !up && down < 0 {
			down = s.SeqNow()
		}
		breaks = append(breaks, s.SeqNow())
	}
	s.Net.OnBreak = func() { breaks = append(breaks, s.SeqNow()) }
	closed := 1 << 60
	clean := func(r *Rec) bool {
		if r.S1 >= closed {
			return false
		}
		n := 0
		for _, b := range breaks {
			if b >= r.S0 && b <= r.S1 {
				n++
			}
		}
		for _, d := range downs {
			if d.a <= r.S1 && d.b >= r.S0 {
				return false
			}
		}
		if down >= 0 && down <= r.S1 {
			return false
		}
		return n == 0
	}
	var ts []*simrt.Task
	running := 0
	for _, tp := range p.Lives[0].Tasks {
		running += b2i(len(tp.Ops) > 0 && logs(tp))
	}
	for ti, tp := range p.Lives[0].Tasks {
		ti, tp := ti, tp
		ts = append(ts, e.proc.Spawn(fmt.Sprintf("t%d", ti), func() {
			for _, op := range tp.Ops {
				switch op.K {
				case "sleep":
					sleepMs(op.A)
				case "down", "up", "restart", "stall", "resume":
					at := s.Steps() + op.A
					simrt.Block("steps", func() bool { return s.Steps() >= at || running == 0 })
					if op.K == "stall" || op.K == "resume" {
						s.Net.Stalled = op.K == "stall"
						if s.Net.Stalled {
							s.After(10*time.Second, func() { s.Net.Stalled = false })
						}
						s.Logf("syslogd stalled: %v", s.Net.Stalled)
					} else if op.K == "down" {
						if s.Net.Up {
							setUp(false)
							s.Net.Down()
						}
					} else if op.K == "restart" || !s.Net.Up {
						setUp(true)
						s.Net.Restart()
					}
				case "close":
					closed = s.SeqNow()
					mgr().Close()
				case "log":
					n := sysNames[op.A]
					r := e.rec(ti, n, lvls[op.B], op.C)
					e.call(lg[n], r, op.D)
				}
			}
			running -= b2i(len(tp.Ops) > 0 && logs(tp))
		}))
	}
	if !e.await(3*3600e9, ts...) {
		return
	}
	// the daemon is back for good
	if !s.Net.Up {
		setUp(true)
		s.Net.Restart()
	}
	s.Net.WriteFailP = 0
	from := len(e.recs)
	if !e.do("after", func() {
		for i := 0; i < 4; i++ {
			n := sysNames[i%len(sysNames)]
			e.call(lg[n], e.rec(50, n, lvls[2+i], 0), i)
		}
	}) {
		return
	}
	if e.is("C26") {
		n := 0
		for _, oc := range cfg.Outputs {
			n += b2i(oc["type"] == "syslog")
		}
		if c := s.Net.OpenConns(); c > n {
			e.v("conns", "%d connections to the syslog daemon are open between calls, of %d outputs", c, n)
		}
		for _, f := range e.proc.OpenFDs() {
			if f != "/w/log/s1.log" {
				e.v("fds", "%s is open between calls", f)
			}
		}
		return
	}
	got := map[string][]*Rec{}
	for _, d := range s.Net.Got {
		pri, tag, t, ok := syslogText(string(d.Data))
		o := ""
		for _, oc := range cfg.Outputs {
			if oc["type"] == "syslog" && (oc["prefix"] == tag || oc["prefix"] == "") {
				o = oc["name"]
			}
		}
		r := e.tokOf(t)
		if ok && r == nil && o != "" && e.twin(o, t, exp1) {
			continue
		}
		if !ok || r == nil || o == "" {
			e.v("torn", "datagram %q is no record", clip(string(d.Data)))
			continue
		}
		if exp1(r) != t {
			e.v("torn", "%s: record r%d reads %q", o, r.ID, clip(t))
			continue
		}
		if pri&7 != severity[r.Lvl] {
			e.v("severity", "%s: record r%d of level %s has severity %d, expected %d", o, r.ID, lvlStr(r.Lvl), pri&7, severity[r.Lvl])
		}
		got[o] = append(got[o], r)
	}
	for _, oc := range cfg.Outputs {
		o := oc["name"]
		if oc["type"] != "syslog" {
			if x := e.lines(o, e.rollData("/w/log", o+".log"), exp1); true {
				e.once(o, x, func(r *Rec) bool { return m.in(o, r) }, func(r *Rec) bool { return m.in(o, r) })
			}
			continue
		}
		e.once(o, got[o], func(r *Rec) bool {
			if !m.in(o, r) || !r.Done {
				return false
			}
			if r.ID >= from {
				return closed == 1<<60
			}
			return clean(r)
		}, func(r *Rec) bool { return m.in(o, r) })
		e.order(o, got[o])
	}
}

func logs(t TaskP) bool {
	for _, op := range t.Ops {
		if op.K == "log" {
			return true
		}
	}
	return false
}
