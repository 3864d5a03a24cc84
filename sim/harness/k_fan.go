package harness

import (
	"fmt"
	"strings"
	"time"

	"github.com/xtfly/log4g/api"
	"github.com/xtfly/log4g/zzsim/simrt"
)

// Several outputs of one logger, some of them failing or stalled (C07).

func init() {
	kinds["fan"] = kind{genFan, runFan}
	propKinds["C07"] = []string{"fan"}
}

var fanNames = []string{"root", "a", "a/b", "x", "x.y", "a/b/c"}

func genFan(prop string, r *simrt.RNG, p *Prog) {
	cfg := &api.Config{Formats: []api.CfgFormat{{"type": "text", "name": "f1", "layout": lay1}}}
	var outs []string
	small := false
	add := func(n, typ string) {
		o := api.CfgOutput{"name": n, "type": typ, "format": "f1"}
		async := r.Intn(3) == 0
		switch typ {
		case "memory", "syslog":
			async = false
		case "size_rolling_file":
			o["file"], o["size"], o["backups"] = "log/"+n+".log", r.PickS("100M", "250"), "20"
			o["name_mode"] = r.PickS("postfix", "prefix")
			small = small || o["size"] == "250"
			if r.Intn(6) == 0 {
				o["archive"] = r.PickS("zip", "gzip")
			}
		case "time_rolling_file":
			o["file"], o["pattern"], o["backups"] = "log/"+n+".log", "2006-01-02", "5"
		}
		if async {
			o["async"], o["queue_size"], o["batch_num"] = "true", itoa(r.Pick(1, 2, 5, 100)), itoa(r.Pick(1, 2, 5, 30))
		}
		if typ != "memory" && r.Bool(0.6) {
			o["threshold"] = r.PickS("trace", "debug", "info", "Warn", "ERROR", "critical", "all", "off", "nonsense")
		}
		cfg.Outputs = append(cfg.Outputs, o)
		outs = append(outs, n)
	}
	no := r.Range(2, 5)
	if r.Intn(15) == 0 {
		no = r.Range(7, 12)
	}
	for i, n := 0, no; i < n; i++ {
		switch r.Intn(6) {
		case 0:
			if outCfg(cfg, "c1") == nil {
				add("c1", "console")
				continue
			}
			fallthrough
		case 1, 2:
			add(fmt.Sprintf("s%d", i), "size_rolling_file")
		case 3:
			add(fmt.Sprintf("t%d", i), "time_rolling_file")
		case 4:
			add(fmt.Sprintf("m%d", i), "memory")
		case 5:
			if outCfg(cfg, "y1") == nil {
				add("y1", "syslog")
			} else {
				add(fmt.Sprintf("s%d", i), "size_rolling_file")
			}
		}
	}
	shuffle := func() []string {
		l := append([]string(nil), outs...)
		for i := len(l) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			l[i], l[j] = l[j], l[i]
		}
		return l
	}
	for i, n := range fanNames {
		if i > 0 && r.Intn(3) == 0 {
			continue // inherits
		}
		l := shuffle()
		k := len(l)
		if r.Intn(3) == 0 {
			k = r.Range(1, k)
		}
		lc := api.CfgLogger{Name: n, Level: r.PickS("all", "debug", "trace", "info"), OutputNames: l[:k]}
		if i > 0 && r.Intn(5) == 0 {
			lc.OutputNames = nil
		}
		cfg.Loggers = append(cfg.Loggers, lc)
	}
	p.Cfgs = []*api.Config{cfg}
	switch r.Intn(5) {
	case 0:
	case 1, 2:
		p.S["bad"], p.S["how"] = outs[r.Intn(len(outs))], "fail"
		p.P["fp"] = r.Pick(10, 40, 100)
		p.P["until"] = r.Pick(0, 20, 200)
	default:
		p.S["bad"], p.S["how"] = outs[r.Intn(len(outs))], "stall"
		p.P["until"] = r.Pick(1, 100, 7000, 7000, 200000, 4000000)
	}
	if p.S["bad"] != "" && r.Intn(3) == 0 {
		p.P["from"] = r.Pick(50, 300, 1000, 5000) // µs
	}
	if b := p.S["bad"]; b != "" {
		switch outCfg(cfg, b)["type"] {
		case "memory":
			p.S["bad"], p.S["how"] = "", ""
		}
	}
	nt := r.Range(1, 4)
	left := 18
	p.Lives = []Life{{Tasks: genTasks(r, nt, 1, 6, func(t, i int) Op {
		if r.Intn(10) == 0 || (small && left == 0) {
			return Op{K: "sleep", A: r.Pick(1, 50, 5000)}
		}
		left--
		return Op{K: "log", A: r.Intn(len(fanNames)), B: r.Intn(6), C: oddPad(r, 40, false, true, 0, 0, 5, 40, 200), D: callHow(r)}
	})}}
}

// cfgModel resolves levels and outputs of loggers from a configuration.
type cfgModel struct{ c *api.Config }

// chain lists a logger name and its ancestors, nearest first, "root" last.
func chain(n string) []string {
	r := []string{n}
	if n == "root" || n == "" {
		return []string{"root"}
	}
	for i := len(n) - 1; i > 0; i-- {
		if n[i] == '/' || n[i] == '.' {
			r = append(r, n[:i])
		}
	}
	return append(r, "root")
}

// level and outputs of a logger; nil outputs: the default console.
func (m cfgModel) level(n string) api.Level {
	for _, a := range chain(n) {
		if c := logCfg(m.c, a); c != nil {
			if l := lvlFrom(c.Level); l != api.Uninitialized {
				return l
			}
			if a == "root" {
				return api.Off
			}
		} else if a == "root" {
			return api.Debug
		}
	}
	return api.Off
}

func (m cfgModel) outputs(n string) ([]string, bool) {
	for _, a := range chain(n) {
		c := logCfg(m.c, a)
		if c != nil && len(c.OutputNames) > 0 {
			return c.OutputNames, true
		}
		if c == nil && a == "root" {
			return nil, false // default console
		}
	}
	return nil, true
}

func (m cfgModel) in(o string, r *Rec) bool {
	if r.Lvl < m.level(r.Logger) {
		return false
	}
	l, _ := m.outputs(r.Logger)
	for _, x := range l {
		if x == o {
			return admits(outCfg(m.c, o), r.Lvl)
		}
	}
	return false
}

// syslogText strips the header of a syslog datagram.
func syslogText(d string) (pri int, tag, msg string, ok bool) {
	// <PRI>time tag[pid]: msg
	if !strings.HasPrefix(d, "<") {
		return
	}
	i := strings.IndexByte(d, '>')
	j := strings.Index(d, "]: ")
	if i < 0 || j < 0 {
		return
	}
	if _, err := fmt.Sscanf(d[1:i], "%d", &pri); err != nil {
		return
	}
	h := d[i+1 : j]
	if k := strings.LastIndexByte(h, '['); k >= 0 {
		tag = h[:k]
		if x := strings.LastIndexByte(tag, ' '); x >= 0 {
			tag = tag[x+1:]
		}
	}
	return pri, tag, d[j+3:], true
}

func runFan(e *E) {
	p, s := e.p, e.s
	cfg := p.Cfgs[0]
	s.Net.Up = true
	if !e.boot() {
		return
	}
	m := cfgModel{cfg}
	lg := map[string]api.Logger{}
	if !e.do("setup", func() {
		if err := mgr().SetConfig(cfg); err != nil {
			s.Internal("config: %v", err)
		}
		for _, n := range fanNames {
			lg[n] = get(n)
		}
	}) {
		return
	}
	bad, how := p.S["bad"], p.S["how"]
	typ := ""
	if bad != "" {
		typ = outCfg(cfg, bad)["type"]
	}
	over := false
	set := func(on bool) {
		if bad == "" {
			return
		}
		switch {
		case how == "stall" && typ == "syslog":
			s.Net.Stalled = on
		case typ == "syslog":
			if on {
				s.Net.Down()
			} else {
				s.Net.Restart()
			}
		case how == "stall" && typ == "console":
			s.FS.Stdout.Stalled = on
		case how == "stall":
			s.FS.StallPath = ""
			if on {
				s.FS.StallPath = "/w/log/" + bad + ".log"
			}
		case typ == "console":
			s.FS.Stdout.FailP = 0
			if on {
				s.FS.Stdout.FailP = float64(e.pi("fp")) / 100
			}
		default:
			s.F = simrt.Faults{}
			if on {
				f := float64(e.pi("fp")) / 100
				s.F = simrt.Faults{On: true, Paths: bad + ".log", Budget: -1, ShortP: 0.5, P: map[string]float64{}}
				for _, op := range []string{"open", "create", "write", "rename", "remove", "stat", "chmod", "close"} {
					s.F.P[op] = f
				}
			}
		}
		s.Logf("target of %s bad: %v", bad, on)
	}
	if n := e.pi("from"); n > 0 && bad != "" {
		s.After(time.Duration(n)*time.Microsecond, func() {
			if !over {
				set(true)
			}
		})
	} else {
		set(true)
	}
	overSeq := 1 << 60
	if n := e.pi("until"); n > 0 && bad != "" {
		s.After(time.Duration(n)*time.Millisecond, func() { over = true; set(false); overSeq = s.SeqNow() })
	}
	var ts []*simrt.Task
	for ti, tp := range p.Lives[0].Tasks {
		ti, tp := ti, tp
		ts = append(ts, e.proc.Spawn(fmt.Sprintf("t%d", ti), func() {
			for _, op := range tp.Ops {
				switch op.K {
				case "sleep":
					sleepMs(op.A)
				case "log":
					n := fanNames[op.A]
					r := e.rec(ti, n, lvls[op.B], op.C)
					e.call(lg[n], r, op.D)
				}
			}
		}))
	}
	if !e.await(3*time.Hour, ts...) {
		return
	}
	over = true
	set(false)
	e.noFaults()
	s.FS.Stdout.FailP, s.FS.Stdout.Stalled = 0, false
	if !e.do("close", func() { mgr().Close() }) {
		return
	}
	for _, oc := range cfg.Outputs {
		o := oc["name"]
		used := false
		for _, n := range fanNames {
			l, _ := m.outputs(n)
			for _, x := range l {
				used = used || x == o
			}
		}
		data := ""
		switch oc["type"] {
		case "console":
			data = string(s.FS.Stdout.Buf)
		case "memory":
			found := true
			if !e.do("read", func() { data, found = memText(cfg, o) }) {
				return
			}
			if !found {
				continue
			}
		case "syslog":
			for _, d := range s.Net.Got {
				_, _, t, ok := syslogText(string(d.Data))
				if !ok {
					e.v("torn", "datagram %q is no syslog message", clip(string(d.Data)))
				}
				data += t
			}
		default:
			data = e.rollData("/w/log", o+".log")
		}
		if o == bad && how == "fail" {
			// records may be missing or cut, but not doubled or stray
			n := map[*Rec]int{}
			for _, r := range e.recsIn(data, e.exp1) {
				n[r]++
				if n[r] > 1 {
					e.v("dup", "%s: record r%d is there %d times", o, r.ID, n[r])
				}
				if !m.in(o, r) {
					e.v("stray", "%s: record r%d (%s of %s) must not be there", o, r.ID, lvlStr(r.Lvl), r.Logger)
				}
			}
			for _, r := range e.recs {
				if r.Tok != "" && r.S0 > overSeq && n[r] == 0 && m.in(o, r) {
					e.v("lost", "%s: record r%d, logged after its target worked again, is missing", o, r.ID)
				}
			}
			continue
		}
		_ = used
		got := e.lines(o, data, e.exp1)
		e.once(o, got, func(r *Rec) bool { return m.in(o, r) }, func(r *Rec) bool { return m.in(o, r) })
		e.order(o, got)
	}
}
