package harness

import (
	"context"
	"errors"
	"fmt"
	"path"
	"strings"
	"time"

	"github.com/xtfly/log4g/api"
	"github.com/xtfly/log4g/zzsim/simrt"
)

// Attribution of records (C25): name, level, fields, time and call site.

func init() {
	kinds["attr"] = kind{genAttr, runAttr}
	propKinds["C25"] = []string{"attr"}
}

var attrNames = []string{"root", "a", "a/b", "a/b/c", "a/b/c/d.e", "x.y", "x.y.z", "w"}

const nsLayout = "2006-01-02T15:04:05.000000000Z07:00"

var attrVerbs = []string{"module", "level", "lvl", "level:-8s", "time:" + nsLayout, "time", "shortfile", "longfile", "line", "line:05d", "longfunc", "shortfunc", "longpkg", "shortpkg", "fa", "fb:6v", "fc"}

func genAttr(prop string, r *simrt.RNG, p *Prog) {
	cfg := &api.Config{}
	var outs []string
	nf := r.Range(1, 3)
	for i := 0; i < nf; i++ {
		var vs []string
		dens := r.Pick(2, 4, 8)
		for _, v := range attrVerbs {
			if r.Intn(10) < dens {
				vs = append(vs, "%{"+v+"}")
			}
		}
		if r.Intn(4) == 0 { // nothing about the call site
			vs = []string{"%{module}", "%{time:" + nsLayout + "}", "%{fa}", "%{level}"}
		}
		for k := len(vs) - 1; k > 0; k-- {
			j := r.Intn(k + 1)
			vs[k], vs[j] = vs[j], vs[k]
		}
		cfg.Formats = append(cfg.Formats, api.CfgFormat{"type": "text", "name": fmt.Sprintf("f%d", i), "layout": strings.Join(append(vs, "%{msg}"), "|") + "\n"})
	}
	for i, n := 0, r.Pick(1, 2, 3, 4, 4, 7); i < n; i++ {
		o := api.CfgOutput{"format": fmt.Sprintf("f%d", r.Intn(nf))}
		k := r.Intn(4)
		if i > 0 && k == 0 {
			k = 1
		}
		switch k {
		case 0:
			o["type"], o["name"] = "console", "c1"
		case 1:
			o["type"], o["name"] = "memory", fmt.Sprintf("m%d", i)
		default:
			o["type"], o["name"], o["size"] = "size_rolling_file", fmt.Sprintf("s%d", i), "100M"
			o["file"] = "log/" + o["name"] + ".log"
		}
		if k != 1 && r.Intn(3) == 0 {
			o["async"], o["queue_size"], o["batch_num"] = "true", itoa(r.Pick(1, 3, 50)), itoa(r.Pick(1, 2, 30))
		}
		if k != 1 && r.Intn(4) == 0 {
			o["threshold"] = r.PickS("debug", "info", "warn")
		}
		cfg.Outputs = append(cfg.Outputs, o)
		outs = append(outs, o["name"])
	}
	for i, n := range attrNames {
		if i > 0 && r.Intn(5) < 3 {
			continue
		}
		lc := api.CfgLogger{Name: n, Level: r.PickS("all", "trace", "debug", "info")}
		if i == 0 || r.Bool(0.5) {
			k := r.Intn(len(outs))
			lc.OutputNames = append(lc.OutputNames, outs[k])
			for j, o := range outs {
				if j != k && r.Bool(0.5) {
					lc.OutputNames = append(lc.OutputNames, o)
				}
			}
		}
		cfg.Loggers = append(cfg.Loggers, lc)
	}
	p.Cfgs = []*api.Config{cfg}
	p.P["reuse"] = b2i(r.Bool(0.5))
	p.Lives = []Life{{Tasks: genTasks(r, r.Range(1, 4), 2, 7, func(t, i int) Op {
		if r.Intn(12) == 0 {
			return Op{K: "sleep", A: r.Pick(1, 50, 5000)}
		}
		return Op{K: "log", A: r.Intn(len(attrNames)), B: r.Intn(6), C: r.Intn(8), D: r.Intn(12), E: r.Pick(0, 0, 0, r.Intn(len(oddMsgs)))}
	})}}
}

// wrapped is a helper whose calls are attributed to its caller (SetCallerSkip(1)).
//
//go:noinline
func wrapped(w api.Writer, r *Rec, how int) {
	m := r.Msg
	switch how % 4 {
	case 0:
		w.Printf(r.Lvl, "%s", m)
		return
	case 1:
		switch r.Lvl {
		case api.Trace:
			w.Trace(m)
		case api.Debug:
			w.Debug(m)
		case api.Info:
			w.Info(m)
		case api.Warn:
			w.Warn(m)
		case api.Error:
			w.Error(m)
		case api.Critical:
			w.Critical(m)
		}
		return
	}
	switch r.Lvl {
	case api.Trace:
		w.Tracef("%v", m)
	case api.Debug:
		w.Debugf("%v", m)
	case api.Info:
		w.Infof("%v", m)
	case api.Warn:
		w.Warnf("%v", m)
	case api.Error:
		w.Errorf("%v", m)
	case api.Critical:
		w.Criticalf("%v", m)
	}
}

//go:noinline
func (x *emitter) deferred(r *Rec) {
	defer func() {
		r.here()
		x.w.Printf(r.Lvl, "%s", r.Msg)
	}()
}

//go:noinline
func (x emitter) value(r *Rec) {
	switch r.Lvl {
	case api.Trace:
		r.here()
		x.w.Tracef(r.Msg)
	case api.Debug:
		r.here()
		x.w.Debugf(r.Msg)
	case api.Info:
		r.here()
		x.w.Infof(r.Msg)
	case api.Warn:
		r.here()
		x.w.Warnf(r.Msg)
	case api.Error:
		r.here()
		x.w.Errorf(r.Msg)
	default:
		r.here()
		x.w.Criticalf(r.Msg)
	}
}

var shortLvl = map[api.Level]string{api.Trace: "TAC", api.Debug: "DBG", api.Info: "INF", api.Warn: "WRN", api.Error: "ERR", api.Critical: "CRI"}

// attrPart compares one part of a printed record with what it must be.
func attrPart(r *Rec, verb, got string) (want string, ok bool) {
	i := strings.LastIndex(r.Func, "/")
	j := strings.Index(r.Func[i+1:], ".")
	pkg, fun := r.Func[:i+1+j], r.Func[i+j+2:]
	field := func(k string) interface{} {
		if v, ok := r.Fields[k]; ok {
			return v
		}
		return nil
	}
	switch verb {
	case "module":
		want = r.Logger
	case "level":
		want = lvlStr(r.Lvl)
	case "level:-8s":
		want = fmt.Sprintf("%-8s", lvlStr(r.Lvl))
	case "lvl":
		want = shortLvl[r.Lvl]
	case "time:" + nsLayout, "time":
		l := nsLayout
		if verb == "time" {
			l = "2006-01-02T15:04:05.000Z07:00"
		}
		t, err := time.Parse(l, got)
		if err != nil {
			return "a time", false
		}
		lo, hi := r.W0, r.W1
		if verb == "time" {
			lo = lo / 1e6 * 1e6
		}
		n := t.UnixNano()
		return fmt.Sprintf("between %v and %v", time.Unix(0, lo).UTC(), time.Unix(0, hi).UTC()), n >= lo && (n <= hi || !r.Done)
	case "shortfile":
		want = path.Base(r.File)
	case "longfile":
		want = r.File
	case "line":
		want = itoa(r.Line)
	case "line:05d":
		want = fmt.Sprintf("%05d", r.Line)
	case "longfunc":
		want = fun
	case "shortfunc":
		want = fun[strings.LastIndex(fun, ".")+1:]
	case "longpkg":
		want = pkg
	case "shortpkg":
		want = path.Base(pkg)
	case "fb:6v":
		want = fmt.Sprintf("%6v", field("fb"))
	case "msg":
		want = r.Msg
	default:
		want = fmt.Sprint(field(verb))
	}
	return want, got == want
}

func runAttr(e *E) {
	p, s := e.p, e.s
	cfg := p.Cfgs[0]
	if !e.boot() {
		return
	}
	m := cfgModel{cfg}
	lg := map[string]api.Logger{}
	if !e.do("setup", func() {
		if err := mgr().SetConfig(cfg); err != nil {
			s.Internal("config: %v", err)
		}
		for _, n := range attrNames {
			lg[n] = get(n)
		}
		if e.pi("reuse") == 1 { // only the last setting counts
			lg["w"].SetCallerSkip(3)
			lg["a/b"].SetCallerSkip(2)
			lg["a/b"].SetCallerSkip(0)
		}
		lg["w"].SetCallerSkip(1)
	}) {
		return
	}
	type shared struct {
		w api.Writer
		f map[string]interface{}
	}
	pool := map[string]shared{}
	mk := func(n string, c int, id int) (api.Writer, map[string]interface{}) {
		var v interface{} = fmt.Sprintf("v%d", id)
		s := v.(string)
		switch id % 13 {
		case 1:
			v = id
		case 2:
			v = errors.New("err " + s)
		case 3:
			v = float64(id) / 7
		case 4:
			v = time.Duration(id) * time.Millisecond
		case 5:
			v = []string{s, "%d"}
		case 6:
			v = struct {
				A int
				B string
			}{id, s}
		case 7:
			v = ""
		case 9:
			v = nil
		case 10:
			v = id%2 == 0
		case 11:
			v = 0
		}
		switch c {
		case 1, 2:
			return lg[n].WithFields(api.Field{Key: "fa", Value: v}), map[string]interface{}{"fa": v}
		case 3:
			return lg[n].WithFields(api.Field{Key: "fa", Value: "old"}, api.Field{Key: "fb", Value: v}, api.Field{Key: "fa", Value: s + "x"}), map[string]interface{}{"fa": s + "x", "fb": v}
		case 4:
			return lg[n].WithCtx(context.WithValue(context.WithValue(context.Background(), "fb", v), "fc", s+"c")), map[string]interface{}{"fb": v, "fc": s + "c"}
		case 5:
			return lg[n].WithFields(), nil
		case 7:
			var l []api.Field
			for i := 0; i < 6+id%5; i++ {
				l = append(l, api.Field{Key: fmt.Sprintf("x%d", i), Value: i})
			}
			l = append(l, api.Field{Key: "fa", Value: v}, api.Field{Key: "fb", Value: s + "b"}, api.Field{Key: "fc", Value: s + "c"})
			return lg[n].WithFields(l...), map[string]interface{}{"fa": v, "fb": s + "b", "fc": s + "c"}
		case 6:
			// a context which is over does not matter
			x, stop := context.WithCancel(context.WithValue(context.Background(), "fa", v))
			stop()
			return lg[n].WithCtx(x), map[string]interface{}{"fa": v}
		}
		return lg[n], nil
	}
	var ts []*simrt.Task
	for ti, tp := range p.Lives[0].Tasks {
		ti, tp := ti, tp
		ts = append(ts, e.proc.Spawn(fmt.Sprintf("t%d", ti), func() {
			for _, op := range tp.Ops {
				if op.K == "sleep" {
					sleepMs(op.A)
					continue
				}
				n := attrNames[op.A]
				r := e.rec(ti, n, lvls[op.B], 0)
				var w api.Writer
				if e.pi("reuse") == 1 && op.C > 0 {
					k := fmt.Sprint(n, op.C)
					if _, ok := pool[k]; !ok {
						x, f := mk(n, op.C, op.A*10+op.C)
						pool[k] = shared{x, f}
					}
					w, r.Fields = pool[k].w, pool[k].f
				} else {
					w, r.Fields = mk(n, op.C, r.ID)
				}
				if op.D == 9 || op.D == 8 {
					r.Msg += " 100% sure"
				} else if op.E > 0 {
					if x := oddMsgs[op.E%len(oddMsgs)]; !strings.ContainsAny(x, "\n|") {
						r.Msg += x
					}
				}
				e.begin(r)
				if n == "w" {
					r.here()
					wrapped(w, r, op.D)
					e.end(r)
					continue
				}
				switch op.D {
				case 0, 1, 2:
					emit(w, r, op.D)
				case 3:
					(&emitter{w}).log(r)
				case 4:
					(&emitter{w}).deferred(r)
				case 5, 9:
					emitter{w}.value(r)
				case 6:
					func() {
						r.here()
						w.Printf(r.Lvl, r.Msg)
					}()
				case 7:
					f := w.Printf
					r.here()
					f(r.Lvl, "%v", r.Msg)
				case 8:
					emit(w, r, 0)
				case 10:
					r.Msg = fmt.Sprint(r.Tok, 1, 2, "x", r.ID)
					switch r.Lvl {
					case api.Trace:
						r.here()
						w.Trace(r.Tok, 1, 2, "x", r.ID)
					case api.Debug:
						r.here()
						w.Debug(r.Tok, 1, 2, "x", r.ID)
					case api.Info:
						r.here()
						w.Info(r.Tok, 1, 2, "x", r.ID)
					case api.Warn:
						r.here()
						w.Warn(r.Tok, 1, 2, "x", r.ID)
					case api.Error:
						r.here()
						w.Error(r.Tok, 1, 2, "x", r.ID)
					default:
						r.here()
						w.Critical(r.Tok, 1, 2, "x", r.ID)
					}
				default:
					emit(w, r, r.ID)
				}
				e.end(r)
			}
		}))
	}
	if !e.await(3*time.Hour, ts...) {
		return
	}
	mem := map[string]string{}
	if !e.do("close", func() {
		for _, oc := range cfg.Outputs {
			if oc["type"] == "memory" {
				mem[oc["name"]], _ = memText(cfg, oc["name"])
			}
		}
		mgr().Close()
	}) {
		return
	}
	for _, oc := range cfg.Outputs {
		o := oc["name"]
		data := mem[o]
		switch oc["type"] {
		case "console":
			data = string(s.FS.Stdout.Buf)
		case "size_rolling_file":
			data = e.rollData("/w/log", o+".log")
		}
		used := oc["type"] != "memory"
		for _, l := range cfg.Loggers {
			for _, x := range l.OutputNames {
				used = used || x == o
			}
		}
		if !used {
			continue
		}
		layout := ""
		for _, f := range cfg.Formats {
			if f["name"] == oc["format"] {
				layout = f["layout"]
			}
		}
		var verbs []string
		for _, v := range strings.Split(strings.TrimSuffix(layout, "\n"), "|") {
			verbs = append(verbs, strings.TrimSuffix(strings.TrimPrefix(v, "%{"), "}"))
		}
		got := e.linesByTok(o, data)
		i := 0
		for _, ln := range strings.SplitAfter(data, "\n") {
			if ln == "" || e.tokOf(ln) == nil {
				continue
			}
			r := got[i]
			i++
			parts := strings.Split(strings.TrimSuffix(ln, "\n"), "|")
			if len(parts) != len(verbs) {
				e.v("torn", "%s: record r%d reads %q with layout %q", o, r.ID, clip(ln), layout)
				continue
			}
			for k, v := range verbs {
				if want, ok := attrPart(r, v, parts[k]); !ok {
					what := strings.SplitN(v, ":", 2)[0]
					switch what {
					case "shortfile", "longfile", "line", "longfunc", "shortfunc", "longpkg", "shortpkg":
						what = "callsite"
					case "fa", "fb", "fc":
						what = "field"
					}
					e.v(what, "%s: record r%d of %s shows %q for %s, expected %q", o, r.ID, r.Logger, parts[k], v, want)
				}
			}
		}
		e.once(o, got, func(r *Rec) bool { return m.in(o, r) }, func(r *Rec) bool { return m.in(o, r) })
	}
}
