package harness

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/xtfly/log4g/api"
	"github.com/xtfly/log4g/zzsim/simrt"
	"gopkg.in/yaml.v2"
)

// Every operation next to every other (C29), and user code that uses the
// library while the library calls it (C30).

func init() {
	kinds["mix"] = kind{genMix, runMix}
	propKinds["C29"] = []string{"mix"}
	propKinds["C30"] = []string{"mix"}
}

// s, s/t and err are configured alike by all configurations.
var mixNames = []string{"s", "s/t", "err", "root", "a", "a/b", "x.y", "z"}

const mixFixed = 3

func genMix(prop string, r *simrt.RNG, p *Prog) {
	c := &api.Config{Formats: []api.CfgFormat{{"type": "text", "name": "f1", "layout": lay1}, {"type": "talk", "name": "f2", "layout": lay1}}}
	var outs []string
	add := func(o api.CfgOutput) {
		if r.Intn(4) == 0 && o["type"] != "memory" {
			o["threshold"] = r.PickS("debug", "info", "warn")
		}
		o["format"] = "f1"
		if prop == "C30" && o["name"] != "oe" && r.Intn(4) == 0 {
			o["format"] = "f2"
		}
		c.Outputs = append(c.Outputs, o)
		outs = append(outs, o["name"])
	}
	async := func(o api.CfgOutput) api.CfgOutput {
		o["async"], o["queue_size"], o["batch_num"] = "true", itoa(r.Pick(1, 2, 5, 50)), itoa(r.Pick(1, 2, 10))
		return o
	}
	size := r.Pick(200, 1000, 5000)
	if prop == "C30" {
		size = r.Pick(1500, 5000)
	}
	mask := 1 + r.Intn(63)
	if mask&1 != 0 {
		o := api.CfgOutput{"type": "console", "name": "c1"}
		if r.Intn(2) == 0 {
			async(o)
		}
		add(o)
	}
	if mask&2 != 0 {
		add(api.CfgOutput{"type": "memory", "name": "m1"})
	}
	if mask&4 != 0 {
		add(api.CfgOutput{"type": "size_rolling_file", "name": "r1", "file": "log/r1.log", "size": itoa(size), "backups": "20"})
	}
	if mask&8 != 0 {
		add(async(api.CfgOutput{"type": "size_rolling_file", "name": "q1", "file": "log/q1.log", "size": itoa(size), "backups": "20"}))
	}
	if mask&16 != 0 {
		add(api.CfgOutput{"type": "syslog", "name": "y1", "prefix": "pfx"})
	}
	if mask&32 != 0 {
		add(api.CfgOutput{"type": "cap", "name": "k1"})
	}
	fixed := append([]string(nil), outs...)
	add(api.CfgOutput{"type": "cap", "name": "t1", "ver": "0"})
	pick := func() []string {
		var l []string
		for _, o := range fixed {
			if r.Intn(3) > 0 {
				l = append(l, o)
			}
		}
		if len(l) == 0 {
			l = append(l, fixed[r.Intn(len(fixed))])
		}
		return l
	}
	c.Outputs = append(c.Outputs, api.CfgOutput{"type": "size_rolling_file", "name": "oe", "file": "log/oe.log", "format": "f1", "size": "100M"})
	outs = append(outs, "oe")
	lo := api.CfgLogger{Name: "err", Level: "all", OutputNames: []string{"oe"}}
	if r.Intn(3) == 0 {
		lo.OutputNames = append(lo.OutputNames, fixed[r.Intn(len(fixed))])
	}
	c.Loggers = append(c.Loggers,
		api.CfgLogger{Name: "s", Level: r.PickS("all", "debug"), OutputNames: pick()},
		api.CfgLogger{Name: "s/t", Level: r.PickS("all", "info"), OutputNames: pick()}, lo)
	nfix := len(c.Loggers)
	for i, n := 0, r.Range(1, 3); i < n; i++ {
		d := copyConfig(c)
		for _, o := range d.Outputs {
			if o["name"] == "t1" {
				o["ver"] = itoa(r.Intn(3))
			}
		}
		for _, n := range mixNames[mixFixed:] {
			if n != "root" && r.Bool(0.5) {
				continue
			}
			l := api.CfgLogger{Name: n, Level: r.PickS("all", "info", "error", "off")}
			for _, o := range outs {
				if r.Bool(0.4) && o != "oe" {
					l.OutputNames = append(l.OutputNames, o)
				}
			}
			if n == "root" && len(l.OutputNames) == 0 {
				l.OutputNames = []string{"t1"}
			}
			d.Loggers = append(d.Loggers, l)
		}
		for i := len(d.Loggers) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			d.Loggers[i], d.Loggers[j] = d.Loggers[j], d.Loggers[i]
		}
		p.Cfgs = append(p.Cfgs, d)
	}
	_ = nfix
	p.P["sendtalk"] = 0
	if prop == "C30" {
		p.P["sendtalk"] = r.Intn(2)
		p.P["createtalk"] = r.Intn(2)
	}
	closes := r.Intn(3) == 0
	p.P["pre"] = r.Intn(3) // loggers obtained beforehand: none, some, all
	nt := r.Range(2, 5)
	if prop == "C30" {
		nt = r.Range(1, 4)
	}
	p.Lives = []Life{{Tasks: genTasks(r, nt, 2, 7, func(t, i int) Op {
		any := r.Intn(len(mixNames))
		vol := mixFixed + r.Intn(len(mixNames)-mixFixed)
		log := Op{K: "log", A: any, B: r.Intn(6), C: r.Pick(0, 0, 0, 20), D: callHow(r)}
		if prop == "C30" {
			switch r.Intn(12) {
			case 0:
				return Op{K: "cfg", A: r.Intn(len(p.Cfgs)), B: r.Intn(4)}
			case 1:
				return Op{K: "setlevel", A: vol, B: 1 + r.Intn(7)}
			case 2:
				if closes && t == 0 {
					return Op{K: "close"}
				}
				return Op{K: "new", A: any, B: r.Intn(4)}
			case 3, 4, 5:
				return log
			}
			// A: logger, B: level, C: what the value does, D: kind of value and call, E: logger it uses
			return Op{K: "talk", A: r.Intn(len(mixNames)), B: r.Intn(6), C: r.Intn(9), D: r.Intn(9), E: r.Intn(len(mixNames))}
		}
		switch r.Intn(16) {
		case 0:
			return Op{K: "cfg", A: r.Intn(len(p.Cfgs)), B: r.Intn(4)}
		case 1:
			return Op{K: "setlevel", A: vol, B: 1 + r.Intn(7)}
		case 2, 3:
			return Op{K: "gout", A: any}
		case 4:
			return Op{K: "setouts", A: vol, B: r.Intn(len(mixNames))}
		case 5:
			return Op{K: "rego", A: r.Intn(3)}
		case 6:
			return Op{K: "regf", A: r.Intn(3)}
		case 7:
			return Op{K: "new", A: any, B: r.Intn(4)}
		case 8:
			return Op{K: "level", A: any, B: r.Intn(6)}
		case 9:
			return Op{K: "get", A: any}
		case 10:
			if closes {
				return Op{K: r.PickS("close", "close", "sig")}
			}
			return Op{K: "sleep", A: r.Pick(1, 50, 5000)}
		}
		return log
	})}}
	if len(p.Cfgs) > 1 && r.Intn(15) == 0 {
		// configurations one after the other
		t := &p.Lives[0].Tasks[0]
		for i, n := 0, r.Range(8, 14); i < n; i++ {
			t.Ops = append(t.Ops, Op{K: "cfg", A: i % len(p.Cfgs), B: r.Intn(4)})
		}
	}
	if prop == "C29" && r.Intn(3) == 0 {
		// the same at the same time in every task
		op := p.Lives[0].Tasks[0].Ops[0]
		for t := range p.Lives[0].Tasks {
			ops := p.Lives[0].Tasks[t].Ops
			p.Lives[0].Tasks[t].Ops = append([]Op{op}, ops...)
		}
	}
}

type mixH struct {
	e      *E
	lg     map[string]api.Logger
	obj    map[string]api.Output // by name of an output that is never redefined
	made   map[string]int
	got    map[*Rec][]string
	closed int // sequence number when closing first began
	depth  int
	news   int
}

// mixOut is a custom output.
type mixOut struct {
	h    *mixH
	name string
	t    api.Level
	f    api.Formatter
}

func (o *mixOut) Send(ev *api.Event) {
	simrt.YS(-50)
	if ev.Level < o.t {
		return
	}
	h := o.h
	if h.e.pi("sendtalk") == 1 && ev.Name != "err" {
		if l := h.lg["err"]; l != nil {
			h.e.call(l, h.e.rec(70, "err", api.Info, 0), 0)
		}
	}
	text := string(o.f.Format(ev))
	simrt.YS(-50)
	if r := h.e.tokOf(text); r == nil || text != exp1(r) {
		h.e.v("torn", "output %s got %q", o.name, clip(text))
	} else {
		h.got[r] = append(h.got[r], o.name)
	}
}
func (o *mixOut) SetFormatter(f api.Formatter) { o.f = f }
func (o *mixOut) CallerInfoFlag() int {
	if o.f == nil {
		return 0
	}
	return o.f.CallerInfoFlag()
}
func (o *mixOut) Close() { simrt.YS(-50) }

// talkFormat is a custom format that logs.
type talkFormat struct{ h *mixH }

func (f *talkFormat) Format(ev *api.Event) []byte {
	h := f.h
	if l := h.lg["err"]; l != nil && ev.Name != "err" {
		h.e.call(l, h.e.rec(71, "err", api.Debug, 0), 1)
	}
	return []byte(ev.Name + "|" + lvlStr(ev.Level) + "|" + ev.Message() + "\n")
}
func (f *talkFormat) CallerInfoFlag() int { return 0 }

// talker is a value which uses the library while it is formatted.
type talker struct {
	h    *mixH
	ti   int
	op   Op
	text string
}

type talkStr struct{ *talker }
type talkErr struct{ *talker }
type talkFmt struct{ *talker }

func (t talkStr) String() string             { return t.act() }
func (t talkErr) Error() string              { return t.act() }
func (t talkFmt) Format(s fmt.State, _ rune) { s.Write([]byte(t.act())) }
func (t *talker) method() string             { return []string{"String", "Error", "Format"}[t.op.D%3] }
func (t *talker) value() (v interface{}) {
	return []interface{}{talkStr{t}, talkErr{t}, talkFmt{t}}[t.op.D%3]
}
func (t *talker) panics() bool             { return t.op.C == 6 }
func (h *mixH) name(i int) string          { return mixNames[i%len(mixNames)] }
func (h *mixH) logger(n string) api.Logger { l := get(n); h.lg[n] = l; return l }

func (t *talker) act() string {
	h, e := t.h, t.h.e
	if h.depth > 40 && !t.panics() {
		return t.text
	}
	h.depth++
	e.s.Probe("talk-" + itoa(t.op.C))
	n := h.name(t.op.E)
	switch t.op.C {
	case 0, 1, 6:
		e.call(h.logger(n), e.rec(50+t.ti, n, lvls[t.op.D%6], 0), t.op.E)
	case 2:
		h.news++
		n = fmt.Sprintf("%s/v%d", n, h.news)
		e.call(get(n), e.rec(50+t.ti, n, api.Error, 0), t.op.E)
	case 3:
		h.logger("z").SetLevel(lvls[t.op.D%6])
		h.logger(n).LevelEnabled(api.Info)
	case 4:
		h.load(Op{K: "cfg", A: t.op.D, B: t.op.E})
	case 5:
		h.outputs(n)
	case 7:
		simrt.Sleep(time.Duration(t.op.E) * time.Millisecond)
	case 8:
		// a value of the same sort inside
		h.talk(50+t.ti, Op{A: t.op.E, B: t.op.B, C: t.op.E % 8, D: t.op.D, E: t.op.A})
	}
	if t.panics() {
		panic(t.text)
	}
	return t.text
}

// talk logs such a value.
func (h *mixH) talk(ti int, op Op) {
	e := h.e
	n := h.name(op.A)
	l := h.logger(n)
	r := e.rec(ti, n, lvls[op.B], 0)
	t := &talker{h, ti, op, r.Msg}
	how, verb := op.D/3%3, "v"
	if how == 1 {
		verb = "s"
	}
	if t.panics() {
		r.Msg = fmt.Sprintf("%%!%s(PANIC=%s method: %s)", verb, t.method(), r.Msg)
	}
	v := t.value()
	e.begin(r)
	switch how {
	case 0:
		switch r.Lvl {
		case api.Trace:
			l.Trace(v)
		case api.Debug:
			l.Debug(v)
		case api.Info:
			l.Info(v)
		case api.Warn:
			l.Warn(v)
		case api.Error:
			l.Error(v)
		default:
			l.Critical(v)
		}
	case 1:
		l.WithFields(api.Field{Key: "k", Value: v}).Printf(r.Lvl, "%s", v)
	default:
		l.Printf(r.Lvl, "%v", v)
	}
	e.end(r)
}

func (h *mixH) load(op Op) {
	c := copyConfig(h.e.p.Cfgs[op.A%len(h.e.p.Cfgs)])
	var err error
	switch op.B % 4 {
	case 0, 1:
		err = mgr().SetConfig(c)
	case 2:
		b, _ := json.Marshal(c)
		err = mgr().LoadConfig(b, "json")
	case 3:
		b, _ := yaml.Marshal(c)
		err = mgr().LoadConfig(b, "yaml")
	}
	if err != nil {
		h.e.v("error", "a valid configuration is refused: %v", err)
	}
}

// outputs asks for the outputs of a logger.
func (h *mixH) outputs(n string) []api.Output {
	ops, _, err := mgr().GetLoggerOutputs(n)
	if err != nil {
		for _, f := range mixNames[:mixFixed] {
			if f == n {
				h.e.v("error", "no outputs for %s: %v", n, err)
			}
		}
		return nil
	}
	if l := logCfg(h.e.p.Cfgs[0], n); l != nil && strings.Contains(" s s/t err ", " "+n+" ") {
		if len(ops) != len(l.OutputNames) {
			h.e.v("outputs", "%s has %d outputs, the configurations name %v", n, len(ops), l.OutputNames)
			return ops
		}
		for i, o := range l.OutputNames {
			if h.obj[o] == nil {
				h.obj[o] = ops[i]
			} else if h.obj[o] != ops[i] {
				h.e.v("twice", "output %s exists twice though its definition never changed", o)
			}
		}
	}
	for _, o := range ops {
		if x, ok := o.(fmt.Stringer); ok {
			_ = x.String()
		}
	}
	return ops
}

func (h *mixH) op(ti int, op Op) {
	e := h.e
	n := h.name(op.A)
	switch op.K {
	case "log":
		e.call(h.logger(n), e.rec(ti, n, lvls[op.B], op.C), op.D)
	case "talk":
		h.talk(ti, op)
	case "get":
		if a := get(n); h.lg[n] != nil && a != h.lg[n] {
			e.v("logger", "%s has two loggers", n)
		}
		h.logger(n)
	case "new":
		h.news++
		n = fmt.Sprintf("%s%s%d", n, []string{"/n", ".n", "/d/e", "n"}[op.B], h.news)
		e.call(get(n), e.rec(ti, n, api.Error, 0), op.B)
	case "level":
		l := h.logger(n)
		l.Level()
		l.LevelEnabled(lvls[op.B])
	case "setlevel":
		h.logger(n).SetLevel(allLvls[op.B])
	case "setouts":
		if ops := h.outputs(h.name(op.B)); ops != nil || n != "root" {
			h.logger(n).SetOutputs(ops)
		}
	case "gout":
		h.outputs(n)
	case "rego":
		h.register(op.A)
	case "regf":
		h.registerFormat(op.A)
	case "cfg":
		h.load(op)
	case "close":
		if h.closed == 0 {
			h.closed = e.s.Seq()
		}
		mgr().Close()
	case "sig":
		if h.closed == 0 {
			h.closed = e.s.Seq()
		}
		e.proc.Signal([]os.Signal{os.Interrupt, syscall.SIGTERM}[ti%2])
	case "sleep":
		sleepMs(op.A)
	}
}

func (h *mixH) register(k int) {
	t := "cap"
	if k > 0 {
		t = fmt.Sprintf("cap%d", k)
	}
	mgr().RegisterOutputCreator(t, func(c api.CfgOutput) (api.Output, error) {
		simrt.YS(-51)
		if l := h.lg["err"]; l != nil && h.e.pi("createtalk") == 1 {
			h.e.call(l, h.e.rec(72, "err", api.Warn, 0), 2)
		}
		if c["name"] == "k1" {
			if h.made["k1"]++; h.made["k1"] > 1 {
				h.e.v("twice", "output k1 was created twice though its definition never changed")
			}
		}
		return &mixOut{h: h, name: c["name"], t: lvlFrom(c["threshold"])}, nil
	})
}

func (h *mixH) registerFormat(k int) {
	t := "talk"
	if k > 0 {
		t = fmt.Sprintf("talk%d", k)
	}
	mgr().RegisterFormatterCreator(t, func(c api.CfgFormat) (api.Formatter, error) {
		simrt.YS(-51)
		return &talkFormat{h}, nil
	})
}

func runMix(e *E) {
	p, s := e.p, e.s
	cfg := p.Cfgs[0]
	s.Net.Up = true
	h := &mixH{e: e, lg: map[string]api.Logger{}, obj: map[string]api.Output{}, made: map[string]int{}, got: map[*Rec][]string{}}
	if !e.boot() {
		return
	}
	if !e.do("setup", func() {
		h.register(0)
		h.registerFormat(0)
		if err := mgr().SetConfig(copyConfig(cfg)); err != nil {
			s.Internal("config: %v", err)
		}
		for i, n := range mixNames {
			if e.pi("pre") == 2 || e.pi("pre") == 1 && i%2 == 0 {
				h.logger(n)
			}
		}
	}) {
		return
	}
	var ts []*simrt.Task
	for ti, tp := range p.Lives[0].Tasks {
		ti, tp := ti, tp
		ts = append(ts, e.proc.Spawn(fmt.Sprintf("t%d", ti), func() {
			for _, op := range tp.Ops {
				h.op(ti, op)
			}
		}))
	}
	if !e.await(time.Hour, ts...) {
		return
	}
	// everything still works
	if !e.do("final", func() {
		h.load(Op{})
		for i, n := range mixNames {
			l := h.logger(n)
			l.Level()
			e.call(l, e.rec(60, n, api.Critical, 0), i)
			h.outputs(n)
		}
	}) {
		return
	}
	end := h.closed
	if end == 0 {
		end = s.Seq()
	}
	mem := map[string]string{}
	if !e.do("close", func() {
		mgr().Close()
		if o := outCfg(cfg, "m1"); o != nil {
			if x, ok := h.obj["m1"].(fmt.Stringer); ok {
				mem["m1"] = x.String()
			}
		}
	}) {
		return
	}
	m := cfgModel{cfg}
	fixed := map[string]bool{}
	for _, n := range mixNames[:mixFixed] {
		fixed[n] = true
	}
	var names []string
	for _, o := range cfg.Outputs {
		names = append(names, o["name"])
	}
	sort.Strings(names)
	for _, o := range names {
		var got []*Rec
		switch outCfg(cfg, o)["type"] {
		case "console":
			got = e.lines(o, string(s.FS.Stdout.Buf), exp1)
		case "memory":
			if _, ok := mem[o]; !ok {
				continue
			}
			got = e.lines(o, mem[o], exp1)
		case "syslog":
			var d strings.Builder
			for _, x := range s.Net.Got {
				_, _, t, ok := syslogText(string(x.Data))
				if !ok {
					e.v("torn", "datagram %q is no syslog message", clip(string(x.Data)))
				}
				d.WriteString(t)
			}
			got = e.lines(o, d.String(), exp1)
		case "cap":
			for r, l := range h.got {
				for _, x := range l {
					if x == o {
						got = append(got, r)
					}
				}
			}
			sort.Slice(got, func(i, j int) bool { return got[i].ID < got[j].ID })
			if o == "t1" {
				continue
			}
		default:
			got = e.lines(o, e.rollData("/w/log", o+".log"), exp1)
		}
		e.once(o, got, func(r *Rec) bool {
			if !fixed[r.Logger] || !m.in(o, r) {
				return false
			}
			return r.Done && r.S1 < end
		}, func(r *Rec) bool { return !fixed[r.Logger] || m.in(o, r) })
	}
}
