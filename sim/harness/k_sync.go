package harness

import (
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/xtfly/log4g/api"
	"github.com/xtfly/log4g/zzsim/simrt"
)

// Concurrent synchronous logging (C01).

const lay1 = "%{module}|%{level}|%{msg}\n"

func exp1(r *Rec) string { return r.Logger + "|" + lvlStr(r.Lvl) + "|" + r.Msg + "\n" }

func init() {
	kinds["sync"] = kind{genSync, runSync}
	propKinds["C01"] = []string{"sync"}
}

var syncNames = []string{"root", "a", "a/b", "x.y", "a/b/c"}

func genTasks(r *simrt.RNG, nt, lo, hi int, f func(t, i int) Op) []TaskP {
	var ts []TaskP
	for t := 0; t < nt; t++ {
		n := r.Range(lo, hi)
		var tp TaskP
		for i := 0; i < n; i++ {
			tp.Ops = append(tp.Ops, f(t, i))
		}
		ts = append(ts, tp)
	}
	return ts
}

func genSync(prop string, r *simrt.RNG, p *Prog) {
	def := r.Intn(8) == 0
	p.P["def"] = b2i(def)
	cfg := &api.Config{Formats: []api.CfgFormat{{"type": "text", "name": "f1", "layout": lay1}}}
	var outs []string
	add := func(o api.CfgOutput) {
		if r.Intn(3) == 0 {
			o["threshold"] = r.PickS("trace", "debug", "info", "warn", "ERROR")
		}
		cfg.Outputs = append(cfg.Outputs, o)
		outs = append(outs, o["name"])
	}
	mask := 1 + r.Intn(15)
	if def {
		mask = 0
	}
	if mask&1 != 0 {
		add(api.CfgOutput{"type": "console", "name": "c1", "format": "f1"})
	}
	if mask&2 != 0 {
		add(api.CfgOutput{"type": "memory", "name": "m1", "format": "f1"})
		delete(cfg.Outputs[len(cfg.Outputs)-1], "threshold") // memory outputs take every level
	}
	if mask&4 != 0 {
		add(api.CfgOutput{"type": "size_rolling_file", "name": "r1", "format": "f1", "file": "log/r1.log",
			"size": itoa(r.Pick(60, 200, 400, 900)), "backups": "20", "name_mode": r.PickS("postfix", "prefix")})
	}
	if mask&8 != 0 {
		add(api.CfgOutput{"type": "time_rolling_file", "name": "r2", "format": "f1", "file": "log/r2.log", "pattern": "2006-01-02", "backups": "5"})
	}
	if !def {
		for _, n := range syncNames {
			var on []string
			for _, o := range outs {
				if r.Intn(3) > 0 || len(outs) == 1 {
					on = append(on, o)
				}
			}
			if len(on) == 0 {
				on = []string{outs[0]}
			}
			cfg.Loggers = append(cfg.Loggers, api.CfgLogger{Name: n, Level: r.PickS("all", "debug", "info", "trace"), OutputNames: on})
		}
	}
	p.Cfgs = []*api.Config{cfg}
	p.Lives = []Life{{Tasks: genTasks(r, r.Range(2, 5), 2, 7, func(t, i int) Op {
		if r.Intn(12) == 0 {
			return Op{K: "sleep", A: r.Intn(50)}
		}
		return Op{K: "log", A: r.Intn(len(syncNames)), B: r.Intn(6), C: oddPad(r, 40, true, true, 0, 0, 5, 30, 100, 400), D: callHow(r)}
	})}}
	if r.Intn(6) == 0 {
		// a target that takes nothing for a while
		p.P["stall"], p.P["stallat"] = r.Pick(1, 100, 1500, 7000, 40000, 100000), r.Pick(0, 0, 0, 5, 40)
		p.S["stall"] = r.PickS("console", "r1.log", "r2.log")
		if def {
			p.S["stall"] = "console"
		}
	}
	if mask&4 != 0 {
		// keep the number of rolls below the number of backups
		tot := 0
		for _, t := range p.Lives[0].Tasks {
			for i := range t.Ops {
				if tot > 14 {
					t.Ops[i].K = "sleep"
				}
				tot++
			}
		}
	}
}

// rollFiles lists the files of a rolling log in a directory, oldest first, current last.
func (e *E) rollFiles(dir, name string) []string {
	type bk struct {
		n string
		k string
	}
	var bs []bk
	cur := false
	for _, f := range e.s.FS.List(dir) {
		switch {
		case f == name:
			cur = true
		case strings.HasPrefix(f, name+"."):
			bs = append(bs, bk{f, f[len(name)+1:]})
		case strings.HasSuffix(f, "."+name):
			bs = append(bs, bk{f, f[:len(f)-len(name)-1]})
		}
	}
	sort.SliceStable(bs, func(i, j int) bool {
		a, e1 := strconv.Atoi(bs[i].k)
		b, e2 := strconv.Atoi(bs[j].k)
		if e1 == nil && e2 == nil {
			return a < b
		}
		return bs[i].k < bs[j].k
	})
	var r []string
	for _, b := range bs {
		r = append(r, dir+"/"+b.n)
	}
	if cur {
		r = append(r, dir+"/"+name)
	}
	return r
}

func (e *E) rollData(dir, name string) string {
	var b strings.Builder
	for _, f := range e.rollFiles(dir, name) {
		b.Write(e.s.FS.Get(f).Data)
	}
	return b.String()
}

func outCfg(c *api.Config, n string) api.CfgOutput {
	for _, o := range c.Outputs {
		if o["name"] == n {
			return o
		}
	}
	return nil
}

func logCfg(c *api.Config, n string) *api.CfgLogger {
	for i := range c.Loggers {
		if c.Loggers[i].Name == n {
			return &c.Loggers[i]
		}
	}
	return nil
}

func admits(o api.CfgOutput, l api.Level) bool {
	t := lvlFrom(o["threshold"])
	return t == api.Uninitialized || l >= t
}

var defTime = regexp.MustCompile(`(?m)^([A-Z]+ +)\[\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d\.\d{3}(Z|[-+]\d\d:\d\d)\] `)

func runSync(e *E) {
	p := e.p
	if !e.boot() {
		return
	}
	e.pauses()
	def := e.pi("def") == 1
	cfg := p.Cfgs[0]
	var lg = map[string]api.Logger{}
	ok := e.do("setup", func() {
		if err := mgr().SetConfig(cfg); err != nil {
			e.s.Internal("config: %v", err)
		}
		for _, n := range syncNames {
			lg[n] = get(n)
		}
	})
	if !ok {
		return
	}
	lvlOf := map[string]api.Level{}
	outsOf := map[string][]string{}
	for _, n := range syncNames {
		lvlOf[n], outsOf[n] = api.Debug, []string{"c0"}
		if c := logCfg(cfg, n); c != nil {
			lvlOf[n], outsOf[n] = lvlFrom(c.Level), c.OutputNames
		}
	}
	in := func(o string, r *Rec) bool {
		if r.Lvl < lvlOf[r.Logger] {
			return false
		}
		for _, x := range outsOf[r.Logger] {
			if x == o {
				return o == "c0" || admits(outCfg(cfg, o), r.Lvl)
			}
		}
		return false
	}
	read := func(o string) string {
		switch o {
		case "c0":
			return defTime.ReplaceAllString(string(e.s.FS.Stdout.Buf), "$1[T] ")
		case "c1":
			return string(e.s.FS.Stdout.Buf)
		case "r1":
			return e.rollData("/w/log", "r1.log")
		case "r2":
			return e.rollData("/w/log", "r2.log")
		}
		return ""
	}
	names := []string{"c0"}
	if !def {
		names = nil
		for _, o := range cfg.Outputs {
			names = append(names, o["name"])
		}
	}
	if n := e.pi("stall"); n > 0 {
		stall := func(on bool) {
			if f := p.S["stall"]; f == "console" {
				e.s.FS.Stdout.Stalled = on
			} else if e.s.FS.StallPath = ""; on {
				e.s.FS.StallPath = "/w/log/" + f
			}
			e.s.Logf("%s stalled: %v", p.S["stall"], on)
		}
		at := time.Duration(e.pi("stallat")) * time.Millisecond
		if at == 0 {
			stall(true)
		} else {
			e.s.After(at, func() { stall(true) })
		}
		e.s.After(at+time.Duration(n)*time.Millisecond, func() { stall(false) })
	}
	var ts []*simrt.Task
	for ti, tp := range p.Lives[0].Tasks {
		ti, tp := ti, tp
		ts = append(ts, e.proc.Spawn(fmt.Sprintf("t%d", ti), func() {
			for _, op := range tp.Ops {
				switch op.K {
				case "sleep":
					sleepMs(op.A)
				case "log":
					n := syncNames[op.A]
					r := e.rec(ti, n, lvls[op.B], op.C)
					e.call(lg[n], r, op.D)
					for _, o := range names {
						if o != "m1" && r.Tok != "" && in(o, r) && !strings.Contains(read(o), r.Msg) {
							e.v("late", "record r%d is not in %s when its logging call returns", r.ID, o)
						}
					}
				}
			}
		}))
	}
	if !e.await(0x7fffffffffff, ts...) {
		return
	}
	e.noFaults()
	for _, o := range names {
		data := ""
		if o == "m1" {
			found := true
			if !e.do("read", func() { data, found = memText(cfg, "m1") }) {
				return
			}
			if !found {
				continue
			}
		} else {
			data = read(o)
		}
		exp := e.exp1
		if o == "c0" {
			exp = func(r *Rec) string { return fmt.Sprintf("%-5s [T] %s: %s\n", lvlStr(r.Lvl), r.Logger, r.Msg) }
		}
		got := e.lines(o, data, exp)
		e.once(o, got, func(r *Rec) bool { return in(o, r) }, func(r *Rec) bool { return in(o, r) })
		e.order(o, got)
	}
}

// memText returns the text of a memory output of the configuration.
func memText(cfg *api.Config, name string) (string, bool) {
	for _, l := range cfg.Loggers {
		ops, _, err := mgr().GetLoggerOutputs(l.Name)
		if err != nil {
			continue
		}
		for i, n := range l.OutputNames {
			if n == name && i < len(ops) {
				if x, ok := ops[i].(fmt.Stringer); ok {
					return x.String(), true
				}
			}
		}
	}
	return "", false
}
