package harness

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/xtfly/log4g/api"
	"github.com/xtfly/log4g/zzsim/simrt"
)

// Runtime changes of levels and outputs (C12), checked for linearizability.

func genLin(prop string, r *simrt.RNG, p *Prog) {
	names := []string{"root"}
	names = append(names, [][]string{{"a", "a/b", "a/b/c"}, {"x", "x.y", "x.z"}, {"a", "a.b"}, {"a/b/c/d", "a/b"}, {"a"}}[r.Intn(5)]...)
	// loggers nobody has asked for yet
	late := 0
	for i, k := 0, r.Pick(0, 0, 1, 2); i < k; i++ {
		names = append(names, names[r.Intn(len(names)-late)]+[]string{"/new", ".new/er"}[i])
		late++
	}
	p.P["late"] = late
	p.S["names"] = strings.Join(names, ",")
	c := &api.Config{Formats: []api.CfgFormat{{"type": "text", "name": "f1", "layout": "%{module}|%{msg}\n"}, {"type": "text", "name": "f2", "layout": "%{module}|%{shortfile}:%{line}|%{msg}\n"}}}
	no := r.Pick(1, 2, 3, 2, 6)
	for i := 0; i < no; i++ {
		c.Outputs = append(c.Outputs, api.CfgOutput{"type": "cap", "name": fmt.Sprintf("o%d", i), "format": r.PickS("f1", "f2"), "ver": ""})
	}
	for i, n := range names {
		if i > 0 && r.Bool(0.6) || i >= len(names)-late {
			continue
		}
		l := api.CfgLogger{Name: n, Level: r.PickS("all", "debug", "info", "warn")}
		if i > 0 && r.Bool(0.3) {
			l.Level = ""
		}
		if i == 0 || r.Bool(0.4) {
			l.OutputNames = []string{fmt.Sprintf("o%d", r.Intn(no))}
		}
		c.Loggers = append(c.Loggers, l)
	}
	p.Cfgs = []*api.Config{c}
	nt := r.Range(2, 4)
	chase := r.Intn(4) == 0 && len(names)-late > 1
	// one list of outputs changes between records
	flip := !chase && no > 1 && r.Intn(5) == 0
	if flip {
		c.Outputs[0]["format"], c.Outputs[1]["format"] = "f1", "f2"
	}
	p.Lives = []Life{{Tasks: genTasks(r, nt, 1, 4, func(t, i int) Op {
		n := r.Intn(len(names))
		if flip {
			n = r.Pick(0, 0, len(names)-late-1)
			if t == 0 {
				return Op{K: "setouts", A: 0, B: 1 + i&1}
			}
			return Op{K: "log", A: n, B: r.Range(3, 5), D: callHow(r)}
		}
		if chase {
			// levels along one line of descent change while the last is used
			n = r.Intn(2 + r.Intn(2))
			if n >= len(names)-late {
				n = 0
			}
			if t == 0 {
				return Op{K: "setlevel", A: n, B: r.Pick(0, 1, 1, 4, 7, 7)}
			}
			n = r.Pick(len(names)-late-1, 1)
			return []Op{{K: "enabled", A: n, B: r.Intn(6)}, {K: "level", A: n}, {K: "log", A: n, B: r.Intn(6), D: callHow(r)}}[r.Pick(0, 0, 1, 2)]
		}
		switch r.Intn(10) {
		case 0, 1, 2:
			l := r.Intn(8) // 0 unsets, 7 is off
			if n == 0 && l == 0 {
				l = 1
			}
			return Op{K: "setlevel", A: n, B: l}
		case 3, 4:
			m := r.Intn(1 << uint(no)) // set of outputs
			if n == 0 && m == 0 {
				m = 1
			}
			return Op{K: "setouts", A: n, B: m}
		case 5:
			return Op{K: "level", A: n}
		case 6:
			return Op{K: "enabled", A: n, B: r.Intn(6), D: r.Intn(2)}
		}
		return Op{K: "log", A: n, B: r.Intn(6), D: callHow(r)}
	})}}
	left := 14
	for t := range p.Lives[0].Tasks {
		ops := p.Lives[0].Tasks[t].Ops
		if len(ops) > left {
			ops = ops[:left]
		}
		left -= len(ops)
		p.Lives[0].Tasks[t].Ops = ops
	}
}

type linOp struct {
	op     Op
	task   int
	s0, s1 int
	rec    *Rec
	lvl    api.Level
	on     bool
	seen   string // outputs that got the record
}

var allLvls = []api.Level{api.Uninitialized, api.Trace, api.Debug, api.Info, api.Warn, api.Error, api.Critical, api.Off}

func runLin(e *E) {
	p, s := e.p, e.s
	cfg := p.Cfgs[0]
	h := &treeH{e: e, got: map[*Rec][]delivery{}, handles: map[string]api.Logger{}, names: strings.Split(p.S["names"], ",")}
	if !e.boot() {
		return
	}
	lg := make([]api.Logger, len(h.names))
	outs := map[string]api.Output{}
	if !e.do("setup", func() {
		mgr().RegisterOutputCreator("cap", func(c api.CfgOutput) (api.Output, error) {
			o := &capOut{h: h, name: c["name"], ver: c["ver"], t: lvlFrom(c["threshold"])}
			outs[o.name] = o
			return o, nil
		})
		// create every output
		all := copyConfig(cfg)
		var on []string
		for _, o := range cfg.Outputs {
			on = append(on, o["name"])
		}
		all.Loggers = []api.CfgLogger{{Name: "root", Level: "all", OutputNames: on}}
		if err := mgr().SetConfig(all); err != nil {
			s.Internal("config: %v", err)
		}
		get("root")
		if err := mgr().SetConfig(copyConfig(cfg)); err != nil {
			s.Internal("config: %v", err)
		}
		for i, n := range h.names {
			if i < len(h.names)-e.pi("late") {
				lg[i] = get(n)
				e.keep(lg[i])
			}
		}
	}) {
		return
	}
	var ops []*linOp
	do := func(ti int, op Op) {
		o := &linOp{op: op, task: ti}
		ops = append(ops, o)
		o.s0 = s.Seq()
		l := lg[op.A]
		if l == nil {
			s.Probe("created-late")
			l = get(h.names[op.A])
			e.keep(l)
			lg[op.A] = l
		}
		s.Logf("op %s %s %d", op.K, h.names[op.A], op.B)
		switch op.K {
		case "setlevel":
			l.SetLevel(allLvls[op.B])
		case "setouts":
			var os []api.Output
			for i, c := range cfg.Outputs {
				if op.B>>uint(i)&1 == 1 {
					os = append(os, outs[c["name"]])
				}
			}
			l.SetOutputs(os)
		case "level":
			o.lvl = l.Level()
		case "enabled":
			if op.D == 0 {
				o.on = l.LevelEnabled(lvls[op.B])
			} else {
				o.on = []func() bool{l.TraceEnabled, l.DebugEnabled, l.InfoEnabled, l.WarnEnabled, l.ErrorEnabled, l.CriticalEnabled}[op.B]()
			}
		case "log":
			o.rec = e.rec(ti, h.names[op.A], lvls[op.B], 0)
			e.call(l, o.rec, op.D)
		}
		o.s1 = s.Seq()
	}
	var ts []*simrt.Task
	for ti, tp := range p.Lives[0].Tasks {
		ti, tp := ti, tp
		ts = append(ts, e.proc.Spawn(fmt.Sprintf("t%d", ti), func() {
			for _, op := range tp.Ops {
				do(ti, op)
			}
		}))
	}
	if !e.await(time.Hour, ts...) {
		return
	}
	// what is in force in the end
	if !e.do("final", func() {
		for i := range h.names {
			do(60, Op{K: "level", A: i})
			do(60, Op{K: "log", A: i, B: 5, D: i})
			do(60, Op{K: "log", A: i, B: 1, D: i})
			do(60, Op{K: "log", A: i, B: 3, D: 8 + i&3})
		}
	}) {
		return
	}
	layouts := map[string]string{}
	for _, o := range cfg.Outputs {
		for _, f := range cfg.Formats {
			if f["name"] == o["format"] {
				layouts[o["name"]] = f["layout"]
			}
		}
	}
	for _, o := range ops {
		if o.rec == nil {
			continue
		}
		var l []string
		for _, d := range h.got[o.rec] {
			l = append(l, d.out)
			if w := layText(layouts[d.out], o.rec); d.text != w {
				e.v("text", "record r%d reads %q in %s, expected %q", o.rec.ID, d.text, d.out, w)
				return
			}
		}
		sort.Strings(l)
		o.seen = strings.Join(l, ",")
	}
	// own levels and outputs
	lv := make([]api.Level, len(h.names))
	ou := make([]string, len(h.names))
	idx := map[string]int{}
	for i, n := range h.names {
		idx[n] = i
		lv[i] = api.Uninitialized
		if c := logCfg(cfg, n); c != nil {
			lv[i] = lvlFrom(c.Level)
			ou[i] = strings.Join(c.OutputNames, ",")
		}
	}
	for _, a := range ops {
		for _, b := range ops {
			if a.task != b.task && strings.HasPrefix(a.op.K, "set") && b.s0 < a.s1 && a.s0 < b.s1 {
				s.Probe("change-overlaps-" + b.op.K)
			}
		}
	}
	if bad := linearize(ops, h.names, idx, lv, ou, cfg); bad != "" {
		e.v("linear", "no order of the calls explains what they observed: %s", bad)
	}
}

// linearize searches an order of the operations, compatible with real time, that
// a sequential logger tree would explain; it returns "" when there is one.
func linearize(ops []*linOp, names []string, idx map[string]int, lv []api.Level, ou []string, cfg *api.Config) string {
	n := len(ops)
	done := make([]bool, n)
	effL := func(i int) api.Level {
		for _, a := range chain(names[i]) {
			if k, ok := idx[a]; ok && lv[k] != api.Uninitialized {
				return lv[k]
			}
		}
		return api.Off
	}
	effO := func(i int) string {
		for _, a := range chain(names[i]) {
			if k, ok := idx[a]; ok && ou[k] != "" {
				return ou[k]
			}
		}
		return ""
	}
	memo := map[string]bool{}
	best, deep := "", -1
	var rec func(k int) bool
	rec = func(k int) bool {
		if k == n {
			return true
		}
		key := fmt.Sprint(done, lv, ou)
		if memo[key] {
			return false
		}
		memo[key] = true
		for i, o := range ops {
			if done[i] {
				continue
			}
			// something that ended before this began must come first
			first := true
			for j, x := range ops {
				if !done[j] && j != i && x.s1 < o.s0 {
					first = false
				}
			}
			if !first {
				continue
			}
			t := o.op.A
			ok := true
			oldL, oldO := lv[t], ou[t]
			switch o.op.K {
			case "setlevel":
				lv[t] = allLvls[o.op.B]
			case "setouts":
				var l []string
				for b, c := range cfg.Outputs {
					if o.op.B>>uint(b)&1 == 1 {
						l = append(l, c["name"])
					}
				}
				ou[t] = strings.Join(l, ",")
			case "level":
				ok = effL(t) == o.lvl
			case "enabled":
				ok = (lvls[o.op.B] >= effL(t)) == o.on
			case "log":
				want := ""
				if o.rec.Lvl >= effL(t) {
					l := strings.Split(effO(t), ",")
					sort.Strings(l)
					want = strings.Join(l, ",")
				}
				ok = want == o.seen
			}
			if ok {
				done[i] = true
				if rec(k + 1) {
					return true
				}
				done[i] = false
			} else if k > deep {
				deep = k
				best = fmt.Sprintf("after %d calls, %s of %s (argument %d) observed level %s, enabled %v, outputs [%s]", k, o.op.K, names[t], o.op.B, lvlStr(o.lvl), o.on, o.seen)
			}
			lv[t], ou[t] = oldL, oldO
		}
		return false
	}
	if rec(0) {
		return ""
	}
	if best == "" {
		best = "-"
	}
	return best
}
