package harness

import (
	"encoding/json"
	"fmt"
	"path"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/xtfly/log4g/api"
	"github.com/xtfly/log4g/zzsim/simrt"
	"gopkg.in/yaml.v2"
)

// Logger trees and configuration: C08 (inheritance), C09 (reconfiguration),
// C10 (atomic reconfiguration), C11 (rejected configurations), C12 (runtime changes).

func init() {
	kinds["tree"] = kind{genTree, runTree}
	kinds["lin"] = kind{genLin, runLin}
	for _, p := range []string{"C08", "C09", "C10", "C11"} {
		propKinds[p] = []string{"tree"}
	}
	propKinds["C12"] = []string{"lin"}
}

var treePool = []string{"a", "a/b", "a/b/c", "a.b", "a/b.c", "x", "x.y", "x.y.z", "ab", "a/bc", "/q", "q//r", "q", "a/b/c/d/e", "x/", "root/r", "A", "A/b", "ü/é", "日本/x.y", "x..y", ".q", "a b/c d", "a/b/c/d/e/f.g.h/i/j/k", "a/root", "Root", "x.y/z", "a\\b"}

func pickNames(r *simrt.RNG, n int) []string {
	l := []string{"root"}
	seen := map[string]bool{"root": true}
	if r.Intn(15) == 0 {
		// long and deep names, one below the other
		d := strings.Repeat(r.PickS("d/", "d.", "abcdefg/"), r.Pick(8, 17, 33, 66))
		if r.Intn(3) == 0 {
			d = strings.Repeat("n", r.Pick(63, 127, 255)) + r.PickS("", "n", "/")
		}
		k := strings.IndexAny(d[len(d)/2:], "/.") + len(d)/2
		for _, x := range []string{d + "a", d + "b", d + "a/c.d", d[:k]} {
			if !seen[x] && x != "" && len(l) < n {
				seen[x] = true
				l = append(l, x)
			}
		}
	}
	for len(l) < n {
		x := treePool[r.Intn(16)]
		if r.Intn(4) == 0 {
			x = treePool[r.Intn(len(treePool))]
		}
		if !seen[x] {
			seen[x] = true
			l = append(l, x)
		}
	}
	return l
}

// defNames are the names of outputs and formats, all of one run the same ones:
// plain, the same letters in another case, one the beginning of the next, with
// characters that mean something elsewhere, and names which are types, formats
// or loggers as well.
var defNames = []struct{ out, fmt []string }{
	{[]string{"o1", "o2", "o3", "o4"}, []string{"f1", "f2"}},
	{[]string{"o1", "o2", "o3", "o4"}, []string{"f1", "f2"}},
	{[]string{"out", "Out", "OUT", "oUt"}, []string{"fmt", "Fmt"}},
	{[]string{"o", "oo", "ooo", "oo "}, []string{"o", "oo"}},
	{[]string{"a", "root", "cap", "text"}, []string{"text", "cap"}},
	{[]string{"a/b", "a.b", "a", "a/b.c"}, []string{"a.b", "a/b"}},
	{[]string{"日本", "日", " 1", "1"}, []string{"1", "日"}},
}

func defScheme(names []string) (out, fmts []string) {
	h := 0
	for i, n := range names {
		h += (i + 1) * len(n)
	}
	d := defNames[h%len(defNames)]
	return d.out, d.fmt
}

// genCfg makes a configuration over cap outputs.
func genCfg(r *simrt.RNG, names []string, files bool) *api.Config {
	on, fn := defScheme(names)
	c := &api.Config{}
	nf := r.Range(1, 2)
	for i := 1; i <= nf; i++ {
		v := r.Intn(3)
		l := fmt.Sprintf("F%dv%d|%%{module}|%%{level}|%%{msg}\n", i, v)
		switch r.Intn(3) {
		case 0:
			l = fmt.Sprintf("F%dv%d|%%{module}|%%{level}|%%{shortfile}:%%{line}|%%{msg}\n", i, v)
		case 1:
			l = fmt.Sprintf("F%dv%d|%%{module}|%%{level}|%%{shortfile}:%%{line}|%%{shortfunc}|%%{msg}\n", i, v)
		}
		c.Formats = append(c.Formats, api.CfgFormat{"type": "text", "name": fn[i-1], "layout": l})
	}
	var outs []string
	no := r.Range(1, 4)
	if r.Intn(20) == 0 {
		no = r.Range(8, 11)
		on = append(append([]string(nil), on...), "p5", "p6", "p7", "p8", "p9", "p10", "p11")
	}
	for i, n := 1, no; i <= n; i++ {
		o := api.CfgOutput{"type": "cap", "name": on[i-1], "format": fn[r.Intn(nf)], "ver": itoa(r.Intn(3))}
		if r.Intn(3) == 0 {
			o["threshold"] = r.PickS("debug", "info", "warn")
		}
		c.Outputs = append(c.Outputs, o)
		outs = append(outs, o["name"])
	}
	if files && r.Intn(3) == 0 {
		v := r.Intn(3)
		c.Formats = append(c.Formats, api.CfgFormat{"type": "text", "name": "fs", "layout": "S|%{module}|%{level}|%{msg}\n"})
		c.Outputs = append(c.Outputs, api.CfgOutput{"type": "size_rolling_file", "name": "s1", "format": "fs", "file": "log/s1.log", "size": "100M"})
		outs = append(outs, "s1")
		if r.Bool(0.6) {
			c.Outputs = append(c.Outputs, api.CfgOutput{"type": "size_rolling_file", "name": "as", "format": "fs", "file": fmt.Sprintf("log/as%d.log", v), "size": "100M", "ver": itoa(v),
				"async": "true", "queue_size": itoa(r.Pick(1, 5, 50)), "batch_num": itoa(r.Pick(1, 3, 30))})
			outs = append(outs, "as")
		}
	}
	for i, n := range names {
		if i == 0 && r.Intn(8) == 0 {
			continue // root unconfigured
		}
		if i > 0 && r.Bool(0.4) {
			continue
		}
		l := api.CfgLogger{Name: n, Level: r.PickS("all", "trace", "debug", "info", "warn", "ERROR", "Critical", "off")}
		if i > 0 && r.Intn(4) == 0 {
			l.Level = r.PickS("", "nonsense")
		}
		if i == 0 || r.Intn(4) > 0 {
			for _, o := range outs {
				if r.Bool(0.5) {
					l.OutputNames = append(l.OutputNames, o)
				}
			}
			if i == 0 && len(l.OutputNames) == 0 {
				l.OutputNames = []string{outs[0]}
			}
		}
		c.Loggers = append(c.Loggers, l)
	}
	// order of the definitions
	for i := len(c.Loggers) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		c.Loggers[i], c.Loggers[j] = c.Loggers[j], c.Loggers[i]
	}
	return c
}

// vary changes a configuration a little.
func vary(r *simrt.RNG, c *api.Config, names []string) *api.Config {
	d := genCfg(r, names, false)
	n := copyConfig(c)
	switch r.Intn(10) {
	case 0: // levels only
		for i := range n.Loggers {
			if r.Bool(0.5) {
				n.Loggers[i].Level = r.PickS("all", "debug", "info", "error")
			}
		}
	case 1: // one output redefined
		if len(n.Outputs) == 0 {
			break
		}
		o := n.Outputs[r.Intn(len(n.Outputs))]
		if o["type"] == "cap" {
			o["ver"] = itoa(r.Intn(5))
		}
	case 2: // one format redefined
		for _, f := range d.Formats {
			if len(n.Formats) > 0 && f["name"] == n.Formats[0]["name"] {
				n.Formats[0]["layout"] = f["layout"]
			}
		}
	case 3: // a logger dropped
		if len(n.Loggers) > 1 {
			k := r.Intn(len(n.Loggers))
			n.Loggers = append(n.Loggers[:k], n.Loggers[k+1:]...)
		}
	case 6: // the outputs of a logger exchanged for others
		if len(n.Loggers) == 0 || len(n.Outputs) < 2 {
			break
		}
		l := &n.Loggers[r.Intn(len(n.Loggers))]
		for i, o := range l.OutputNames {
			for j, p := range n.Outputs {
				if p["name"] == o {
					l.OutputNames[i] = n.Outputs[(j+1)%len(n.Outputs)]["name"]
					break
				}
			}
		}
	case 7: // another format, another threshold
		o := n.Outputs[r.Intn(len(n.Outputs))]
		if o["type"] != "cap" {
			break
		}
		if r.Bool(0.5) && len(n.Formats) > 1 {
			if o["format"] == n.Formats[0]["name"] {
				o["format"] = n.Formats[1]["name"]
			} else {
				o["format"] = n.Formats[0]["name"]
			}
		} else if o["threshold"] == "" {
			o["threshold"] = r.PickS("debug", "warn")
		} else {
			delete(o, "threshold")
		}
	case 8: // a logger by another name
		if len(n.Loggers) == 0 {
			break
		}
		l := &n.Loggers[r.Intn(len(n.Loggers))]
		to := names[r.Intn(len(names))]
		for _, x := range n.Loggers {
			if x.Name == to {
				to = ""
			}
		}
		if to != "" {
			l.Name = to
		}
	case 9: // two loggers exchanged
		if len(n.Loggers) > 1 {
			i := r.Intn(len(n.Loggers))
			j := (i + 1 + r.Intn(len(n.Loggers)-1)) % len(n.Loggers)
			a, b := &n.Loggers[i], &n.Loggers[j]
			if a.Name != "root" && b.Name != "root" {
				a.Name, b.Name = b.Name, a.Name
			}
		}
	case 4: // outputs of a logger
		if len(n.Loggers) == 0 {
			break
		}
		l := &n.Loggers[r.Intn(len(n.Loggers))]
		if len(l.OutputNames) > 1 {
			l.OutputNames = l.OutputNames[1:]
		}
	}
	return n
}

func copyConfig(c *api.Config) *api.Config {
	b, _ := json.Marshal(c)
	n := &api.Config{}
	if err := json.Unmarshal(b, n); err != nil {
		panic(err)
	}
	return n
}

func genTree(prop string, r *simrt.RNG, p *Prog) {
	names := pickNames(r, r.Range(3, 7))
	p.S["names"] = strings.Join(names, ",")
	files := prop == "C10" || prop == "C09"
	nc := 1
	switch prop {
	case "C08":
		nc = r.Pick(1, 1, 1, 2)
	case "C09":
		nc = r.Range(2, 5)
	case "C10":
		nc = r.Range(2, 4)
	case "C11":
		nc = r.Range(1, 3)
	}
	for i := 0; i < nc; i++ {
		if i > 0 && r.Intn(3) > 0 {
			p.Cfgs = append(p.Cfgs, vary(r, p.Cfgs[r.Intn(i)], names))
		} else {
			p.Cfgs = append(p.Cfgs, genCfg(r, names, files))
		}
	}
	logOp := func() Op { return Op{K: "log", A: r.Intn(len(names)), B: r.Intn(6), D: callHow(r)} }
	cfgOp := func(i int) Op { return Op{K: "cfg", A: i, B: r.Pick(0, 0, 1, 2, 3, 4)} }
	var ts []TaskP
	switch prop {
	case "C08":
		// obtain loggers in any order, load the configuration at any time
		ts = genTasks(r, r.Range(1, 4), 2, 7, func(t, i int) Op {
			switch r.Intn(5) {
			case 0:
				return logOp()
			case 1:
				return Op{K: "q", A: r.Intn(len(names)), B: r.Intn(6)}
			case 2:
				return Op{K: "new", A: r.Intn(len(treePool))}
			}
			return Op{K: "get", A: r.Intn(len(names))}
		})
		if r.Intn(100) == 0 {
			t := &ts[r.Intn(len(ts))]
			t.Ops = append(t.Ops, Op{K: "many", A: r.Pick(40, 70, 300), B: r.Intn(len(names))})
		}
		for i := 0; i < nc; i++ {
			t := &ts[r.Intn(len(ts))]
			k := r.Intn(len(t.Ops) + 1)
			if r.Intn(3) == 0 {
				k = 0
			}
			t.Ops = append(t.Ops[:k], append([]Op{cfgOp(i)}, t.Ops[k:]...)...)
		}
	case "C09", "C10":
		nt := r.Range(1, 4)
		ts = genTasks(r, nt, 2, 7, func(t, i int) Op {
			switch r.Intn(8) {
			case 0:
				return Op{K: "q", A: r.Intn(len(names)), B: r.Intn(6)}
			case 1:
				return Op{K: "get", A: r.Intn(len(names))}
			case 2:
				if prop == "C09" {
					return Op{K: "new", A: r.Intn(len(treePool))}
				}
			}
			return logOp()
		})
		for i := 0; i < nc; i++ {
			if i == 0 && r.Bool(0.7) {
				p.P["first"] = 1
				continue
			}
			t := &ts[r.Intn(len(ts))]
			k := r.Intn(len(t.Ops) + 1)
			t.Ops = append(t.Ops[:k], append([]Op{cfgOp(i)}, t.Ops[k:]...)...)
			if r.Intn(4) == 0 { // the same once more
				t := &ts[r.Intn(len(ts))]
				t.Ops = append(t.Ops, cfgOp(i))
			}
		}
		if nc > 1 && r.Intn(20) == 0 {
			// one after the other
			var ops []Op
			if r.Bool(0.7) {
				if c := p.Cfgs[0]; outCfg(c, "as") == nil {
					fs := "fs"
					if outCfg(c, "s1") == nil {
						c.Formats = append(c.Formats, api.CfgFormat{"type": "text", "name": fs, "layout": "S|%{module}|%{level}|%{msg}\n"})
					}
					c.Outputs = append(c.Outputs, api.CfgOutput{"type": "size_rolling_file", "name": "as", "format": fs, "file": "log/as0.log", "size": "100M", "ver": "0",
						"async": "true", "queue_size": itoa(r.Pick(1, 5, 50)), "batch_num": itoa(r.Pick(1, 3, 30))})
				}
				for i := 1; i < nc; i++ {
					p.Cfgs[i] = copyConfig(p.Cfgs[0])
					o := outCfg(p.Cfgs[i], "as")
					o["ver"], o["file"] = itoa(3+i), fmt.Sprintf("log/as%d.log", 3+i)
				}
				for _, c := range p.Cfgs {
					for i := range c.Loggers {
						if l := &c.Loggers[i]; len(l.OutputNames) > 0 {
							l.OutputNames = append(l.OutputNames[:0:0], "as")
						}
					}
				}
			}
			for i, n := 0, r.Range(8, 14); i < n; i++ {
				if r.Intn(3) == 0 {
					ops = append(ops, logOp())
				}
				ops = append(ops, cfgOp(i%nc))
			}
			ts = append(ts[:(1+len(ts))/2], TaskP{ops})
		}
	case "C11":
		var ops []Op
		for i, n := 0, r.Range(2, 7); i < n; i++ {
			switch {
			case i == 0 && r.Bool(0.7), r.Intn(5) == 0:
				ops = append(ops, cfgOp(r.Intn(nc)))
			default:
				ops = append(ops, genBad(r, p.Cfgs[r.Intn(nc)]))
			}
			ops = append(ops, Op{K: "probe"})
		}
		ts = []TaskP{{ops}}
		if r.Intn(3) == 0 {
			ts = append(ts, genTasks(r, r.Range(1, 2), 2, 8, func(t, i int) Op { return logOp() })...)
		}
	}
	p.Lives = []Life{{Tasks: ts}}
}

// genBad makes a configuration source that is (most often) not valid.
func genBad(r *simrt.RNG, c *api.Config) Op {
	n := copyConfig(c)
	op := Op{K: "raw", B: r.Pick(1, 2, 3, 4)}
	structural := func() {
		switch r.Intn(7) {
		case 0:
			n.Formats = append(n.Formats, n.Formats[r.Intn(len(n.Formats))])
		case 1:
			n.Outputs = append(n.Outputs, n.Outputs[r.Intn(len(n.Outputs))])
		case 2:
			if len(n.Loggers) > 0 {
				n.Loggers = append(n.Loggers, n.Loggers[r.Intn(len(n.Loggers))])
			}
		case 3:
			n.Outputs[r.Intn(len(n.Outputs))]["format"] = r.PickS("nope", "", "F1")
		case 4:
			n.Loggers = append(n.Loggers, api.CfgLogger{Name: "zz", Level: "info", OutputNames: []string{r.PickS("nope", "", "O1")}})
		case 5:
			k := r.Intn(len(n.Outputs))
			n.Outputs = append(n.Outputs[:k], n.Outputs[k+1:]...)
		case 6:
			n.Formats = n.Formats[:0]
		}
	}
	k := r.Intn(8)
	if k == 0 {
		structural()
	}
	var text string
	if op.B == 1 || op.B == 3 {
		b, _ := json.Marshal(n)
		text = string(b)
	} else {
		b, _ := yaml.Marshal(n)
		text = string(b)
	}
	switch k {
	case 0:
		if r.Intn(4) == 0 {
			op.B = 0 // as a struct
			b, _ := json.Marshal(n)
			text = string(b)
		}
	case 1, 2: // truncated
		text = text[:r.Intn(len(text)+1)]
	case 3: // a byte changed
		b := []byte(text)
		for i, m := 0, r.Range(1, 3); i < m; i++ {
			b[r.Intn(len(b))] = "{}[]:,\"'\n\t -#&*!|>%@`xX0\x00\xff"[r.Intn(26)]
		}
		text = string(b)
	case 4: // lines lost or doubled
		ls := strings.SplitAfter(text, "\n")
		i := r.Intn(len(ls))
		if r.Bool(0.5) {
			ls = append(ls[:i], ls[i+1:]...)
		} else {
			ls = append(ls[:i], append([]string{ls[i]}, ls[i:]...)...)
		}
		text = strings.Join(ls, "")
	case 5: // unsupported or wrong type, missing file
		op.D = 1 + r.Intn(5)
	case 6: // read faults
		op.B = r.Pick(3, 4)
		op.C = 1 + r.Intn(3)
	case 7:
		text = r.PickS("", "\n", "null", "[]", "1", "{", "loggers: 5", "{\"loggers\": 5}", "loggers: [1]", "outputs: {a: b}", "\xff\xfe\x00", "formats:\n- name: a\n- name: a\n", "--- \n...\n--- \n", "*x", "{\"formats\":[{\"name\":1}]}")
	}
	op.S = text
	return op
}

var verbRe = regexp.MustCompile(`%{([a-zA-Z0-9]+)(?::(.*?[^\\]))?}`)

// parseCfg is the oracle's view of a configuration source.
func parseCfg(ext, text string) (c *api.Config, valid bool) {
	c = &api.Config{}
	var err error
	switch strings.ToLower(ext) {
	case "yaml", "yml":
		err = yaml.Unmarshal([]byte(text), c)
	case "json":
		err = json.Unmarshal([]byte(text), c)
	default:
		return nil, false
	}
	if err != nil {
		return nil, false
	}
	return c, validCfg(c)
}

func validCfg(c *api.Config) bool {
	fs, os, ls := map[string]bool{}, map[string]bool{}, map[string]bool{}
	for _, f := range c.Formats {
		if fs[f["name"]] {
			return false
		}
		fs[f["name"]] = true
	}
	for _, o := range c.Outputs {
		if os[o["name"]] || !fs[o["format"]] {
			return false
		}
		os[o["name"]] = true
	}
	for _, l := range c.Loggers {
		if ls[l.Name] {
			return false
		}
		ls[l.Name] = true
		for _, o := range l.OutputNames {
			if !os[o] {
				return false
			}
		}
	}
	return true
}

// usable reports whether every output in use can be created.
func usable(c *api.Config) bool {
	for _, l := range c.Loggers {
		for _, on := range l.OutputNames {
			o := outCfg(c, on)
			if o["type"] != "cap" && o["type"] != "size_rolling_file" {
				return false
			}
			for _, f := range c.Formats {
				if f["name"] == o["format"] && (f["type"] != "text" || !verbRe.MatchString(f["layout"])) {
					return false
				}
			}
		}
	}
	return true
}

// delivery of a record to an output.
type delivery struct {
	out, ver, text string
}

// capOut is an output of the harness.
type capOut struct {
	h    *treeH
	name string
	ver  string
	t    api.Level
	f    api.Formatter
}

func (o *capOut) Send(ev *api.Event) {
	simrt.YS(-50)
	if ev.Level < o.t {
		return
	}
	m := ev.Message()
	text := string(o.f.Format(ev))
	simrt.YS(-50)
	r := o.h.e.tokOf(m)
	if r == nil {
		o.h.e.v("torn", "output %s got the unknown message %q", o.name, clip(m))
		return
	}
	o.h.got[r] = append(o.h.got[r], delivery{o.name, o.ver, text})
}
func (o *capOut) SetFormatter(f api.Formatter) { o.f = f }
func (o *capOut) CallerInfoFlag() int {
	if o.f == nil {
		return 0
	}
	return o.f.CallerInfoFlag()
}
func (o *capOut) Close() {}

type loading struct {
	cfg    *api.Config // nil: the configuration of the start
	s0, s1 int
	open   bool // has not returned
	raw    bool // layouts may be damaged: texts are not compared
	known  bool
	id     int
}

type query struct {
	name string
	lvl  api.Level
	en   int // -1: Level(), else level asked for
	on   bool
	s0   int
	s1   int
}

type treeH struct {
	e       *E
	got     map[*Rec][]delivery
	loads   []*loading
	handles map[string]api.Logger
	queries []query
	names   []string
}

// text of a record under a layout.
func layText(layout string, r *Rec) string {
	fn := r.Func[strings.LastIndex(r.Func, ".")+1:]
	return strings.NewReplacer("%{module}", r.Logger, "%{level}", lvlStr(r.Lvl), "%{shortfile}", path.Base(r.File), "%{line}", itoa(r.Line), "%{shortfunc}", fn, "%{msg}", r.Msg).Replace(layout)
}

// expect returns the deliveries of a record under a configuration.
func (l *loading) expect(r *Rec) []delivery {
	if l.cfg == nil {
		return []delivery{{"stdout", "", ""}}
	}
	m := cfgModel{l.cfg}
	if r.Lvl < m.level(r.Logger) {
		return nil
	}
	on, cfgd := m.outputs(r.Logger)
	if !cfgd {
		return []delivery{{"stdout", "", ""}}
	}
	var ds []delivery
	for _, n := range on {
		o := outCfg(l.cfg, n)
		if !admits(o, r.Lvl) {
			continue
		}
		text := ""
		for _, f := range l.cfg.Formats {
			if f["name"] == o["format"] && !l.raw {
				text = layText(f["layout"], r)
			}
		}
		ds = append(ds, delivery{n, o["ver"], text})
	}
	sort.Slice(ds, func(i, j int) bool { return fmt.Sprint(ds[i]) < fmt.Sprint(ds[j]) })
	return ds
}

func (l *loading) level(n string) api.Level {
	if l.cfg == nil {
		return api.All
	}
	return cfgModel{l.cfg}.level(n)
}

// cands lists the configurations that may be in force for an observation.
func (h *treeH) cands(s0, s1 int) []*loading {
	var r []*loading
	for _, l := range h.loads {
		if l.s0 > s1 {
			continue
		}
		over := false
		for _, k := range h.loads {
			if k != l && !k.open && !l.open && k.s0 > l.s1 && k.s1 < s0 {
				over = true
			}
		}
		if !over {
			r = append(r, l)
		}
	}
	return r
}

func (l *loading) fits(h *treeH, r *Rec) bool {
	want := l.expect(r)
	got := append([]delivery(nil), h.got[r]...)
	for i := range got {
		if got[i].out == "stdout" || l.raw {
			got[i].text = ""
		}
	}
	sort.Slice(got, func(i, j int) bool { return fmt.Sprint(got[i]) < fmt.Sprint(got[j]) })
	if len(want) != len(got) {
		return false
	}
	for i := range want {
		if want[i] != got[i] {
			return false
		}
	}
	return true
}

func (q query) fits(l *loading) bool {
	if q.en < 0 {
		return l.level(q.name) == q.lvl
	}
	return (lvls[q.en] >= l.level(q.name)) == q.on
}

func dstr(ds []delivery) string {
	var s []string
	for _, d := range ds {
		s = append(s, fmt.Sprintf("%s/%s %q", d.out, d.ver, strings.TrimSpace(d.text)))
	}
	if len(s) == 0 {
		return "nothing"
	}
	return strings.Join(s, ", ")
}

func runTree(e *E) {
	p, s := e.p, e.s
	h := &treeH{e: e, got: map[*Rec][]delivery{}, handles: map[string]api.Logger{}, names: strings.Split(p.S["names"], ",")}
	if !e.boot() {
		return
	}
	s.FS.Stdout.On = func(b []byte) {
		for _, ln := range strings.SplitAfter(string(b), "\n") {
			if r := e.tokOf(ln); r != nil {
				h.got[r] = append(h.got[r], delivery{"stdout", "", ""})
			}
		}
	}
	h.loads = []*loading{{s0: -1, s1: -1, known: true}}
	if !e.do("setup", func() {
		mgr().RegisterOutputCreator("cap", func(c api.CfgOutput) (api.Output, error) {
			simrt.YS(-51)
			return &capOut{h: h, name: c["name"], ver: c["ver"], t: lvlFrom(c["threshold"])}, nil
		})
		if e.pi("first") == 1 {
			h.load(Op{K: "cfg", A: 0})
		}
	}) {
		return
	}
	var ts []*simrt.Task
	for ti, tp := range p.Lives[0].Tasks {
		ti, tp := ti, tp
		ts = append(ts, e.proc.Spawn(fmt.Sprintf("t%d", ti), func() {
			for _, op := range tp.Ops {
				h.op(ti, op)
			}
		}))
	}
	if !e.await(time.Hour, ts...) {
		return
	}
	// every logger, known or new, under the configuration now in force
	r0, q0 := len(e.recs), len(h.queries)
	all := append(append([]string(nil), h.names...), "new", "a/new", h.names[len(h.names)-1]+".new")
	for n := range h.handles {
		found := false
		for _, x := range all {
			found = found || x == n
		}
		if !found {
			all = append(all, n)
		}
	}
	sort.Strings(all)
	if !e.do("final", func() {
		for _, n := range all {
			l := h.get(n)
			h.ask(n, l, -1)
			for _, lv := range []api.Level{api.Debug, api.Warn, api.Critical} {
				e.call(l, e.rec(60, n, lv, 0), int(lv))
			}
			e.call(l, e.rec(60, n, api.Info, 0), 8)
		}
	}) {
		return
	}
	if !e.do("close", func() { mgr().Close() }) {
		return
	}
	// what went to files
	for _, f := range e.s.FS.List("/w/log") {
		out, ver := "s1", ""
		if strings.HasPrefix(f, "as") {
			out, ver = "as", f[2:3]
		}
		for _, ln := range strings.SplitAfter(string(s.FS.Get("/w/log/"+f).Data), "\n") {
			if r := e.tokOf(ln); r != nil {
				h.got[r] = append(h.got[r], delivery{out, ver, ln})
			} else if ln != "" {
				e.v("torn", "%s holds %q", f, clip(ln))
			}
		}
	}
	h.judge(r0, q0)
}

func (h *treeH) get(n string) api.Logger {
	l := get(n)
	if o, ok := h.handles[n]; !ok {
		h.handles[n] = l
		h.e.keep(l)
	} else if o != l {
		h.e.v("identity", "GetLogger(%q) returned two different loggers", n)
	}
	return l
}

func (h *treeH) ask(n string, l api.Logger, en int) {
	q := query{name: n, en: en, s0: h.e.s.Seq()}
	if en < 0 {
		q.lvl = l.Level()
	} else {
		switch en {
		case 0:
			q.on = l.TraceEnabled()
		case 1:
			q.on = l.DebugEnabled()
		case 2:
			q.on = l.InfoEnabled()
		case 3:
			q.on = l.WarnEnabled()
		case 4:
			q.on = l.ErrorEnabled()
		default:
			q.on = l.CriticalEnabled()
		}
	}
	q.s1 = h.e.s.Seq()
	h.queries = append(h.queries, q)
}

func (h *treeH) op(ti int, op Op) {
	e := h.e
	switch op.K {
	case "get":
		h.get(h.names[op.A])
	case "new":
		h.get(treePool[op.A])
	case "many":
		// many loggers
		var l []api.Logger
		for i := 0; i < op.A; i++ {
			l = append(l, get(fmt.Sprintf("%s.many%d", h.names[op.B], i)))
		}
		for i := 0; i < op.A; i++ {
			if n := fmt.Sprintf("%s.many%d", h.names[op.B], i); get(n) != l[i] {
				e.v("identity", "GetLogger(%q) returned two different loggers", n)
			}
		}
		for i := 0; i < op.A; i += op.A - 1 {
			h.get(fmt.Sprintf("%s.many%d", h.names[op.B], i))
		}
	case "q":
		n := h.names[op.A]
		h.ask(n, h.get(n), op.B)
		h.ask(n, h.get(n), -1)
	case "log":
		n := h.names[op.A]
		e.call(h.get(n), e.rec(ti, n, lvls[op.B], 0), op.D)
	case "probe":
		for _, n := range h.names {
			l := h.get(n)
			h.ask(n, l, -1)
			e.call(l, e.rec(ti, n, lvls[e.s.SeqNow()%6], 0), 0)
			e.call(l, e.rec(ti, n, api.Critical, 0), 1)
		}
	case "cfg", "raw":
		h.load(op)
	}
}

// load loads a configuration and notes it for the model when it is valid.
func (h *treeH) load(op Op) {
	e := h.e
	s := e.s
	var cfg *api.Config
	valid := true
	text, ext := op.S, map[int]string{0: "json", 1: "json", 2: "yaml", 3: "json", 4: "yaml"}[op.B]
	if op.K == "cfg" {
		cfg = e.p.Cfgs[op.A]
		if op.B == 1 || op.B == 3 {
			b, _ := json.Marshal(cfg)
			text = string(b)
		} else {
			b, _ := yaml.Marshal(cfg)
			text = string(b)
		}
		if op.B == 2 || op.B == 4 {
			ext = []string{"yaml", "yml", "YAML"}[op.A%3]
		}
	} else {
		switch op.D {
		case 1:
			ext = "toml"
		case 2:
			ext = ""
		case 3: // the other type
			ext = map[string]string{"json": "yml", "yaml": "JSON"}[ext]
		case 4:
			ext = "yamll"
		}
		if op.B == 0 {
			ext = "json"
		}
		cfg, valid = parseCfg(ext, text)
		if op.D == 5 {
			valid = false
		}
	}
	l := &loading{cfg: cfg, raw: op.K == "raw", open: true, known: true, id: len(h.loads)}
	if valid {
		l.known = usable(cfg)
		if l.known {
			for _, lc := range cfg.Loggers {
				if lc.Name == "" {
					l.known = false
				}
			}
		}
	}
	file := ""
	if op.B >= 3 {
		file = fmt.Sprintf("/w/conf/log4g%d", s.SeqNow())
		if ext != "" {
			file += "." + ext
		}
		if op.D != 5 {
			s.FS.Put(file, []byte(text), 0644)
		} else if len(text)%2 == 0 {
			s.FS.PutDir(file)
		}
	}
	var err error
	l.s0 = s.Seq()
	if valid {
		h.loads = append(h.loads, l)
	}
	s.Logf("load %s via %d: valid %v", op.K, op.B, valid)
	f0 := s.FS.FaultSeq
	if op.C > 0 && file != "" {
		s.F = simrt.Faults{On: true, Paths: file, Budget: -1, P: map[string]float64{[]string{"open", "read", "stat"}[op.C-1]: 0.7}}
	}
	switch {
	case op.B == 0 && op.K == "cfg":
		err = mgr().SetConfig(copyConfig(cfg))
	case op.B == 0:
		c := &api.Config{}
		if cfg != nil {
			c = copyConfig(cfg)
		} else {
			json.Unmarshal([]byte(text), c)
		}
		err = mgr().SetConfig(c)
	case op.B >= 3:
		err = mgr().LoadConfigFile(file)
	default:
		if op.D == 5 {
			valid = parsesOK(ext, text)
			if valid {
				h.loads = append(h.loads, l)
				l.known = usable(cfg)
			}
		}
		err = mgr().LoadConfig([]byte(text), ext)
	}
	if op.C > 0 {
		s.F = simrt.Faults{}
	}
	s.Probe(fmt.Sprintf("load-valid=%v-accepted=%v", valid, err == nil))
	faulted := s.FS.FaultSeq != f0
	l.s1, l.open = s.Seq(), false
	s.Logf("load returns %v", err)
	switch {
	case err == nil && !valid:
		e.vp("C11", "accepted", "an invalid configuration (%s) was accepted: %q", ext, clip(text))
	case err != nil && valid && !faulted:
		e.vp("C11", "rejected", "a valid configuration (%s) was rejected (%v): %q", ext, err, clip(text))
		if op.K == "cfg" {
			e.v("rejected", "a valid configuration was rejected: %v", err)
		}
	case err != nil && valid:
		// not loaded because of a fault: not a candidate
		for i, x := range h.loads {
			if x == l {
				h.loads = append(h.loads[:i:i], h.loads[i+1:]...)
				break
			}
		}
	}
}

func parsesOK(ext, text string) bool { _, ok := parseCfg(ext, text); return ok }

// judge compares all observations with the configurations that may explain them.
func (h *treeH) judge(r0, q0 int) {
	e := h.e
	if e.s.Violated() {
		return
	}
	unknown := func(ls []*loading) bool {
		for _, l := range ls {
			if !l.known {
				return true
			}
		}
		return false
	}
	for _, r := range e.recs {
		cs := h.cands(r.S0, r.S1)
		if !r.Done || unknown(cs) {
			continue
		}
		ok := false
		for _, l := range cs {
			ok = ok || l.fits(h, r)
		}
		if len(cs) > 1 {
			e.s.Probe("record-during-load")
		} else {
			e.s.Probe("record-under-one-config")
		}
		if !ok {
			e.v("delivery", "record r%d (%s of %s) went to %s; expected %s (%d configurations possible)", r.ID, lvlStr(r.Lvl), r.Logger, dstr(h.got[r]), dstr(cs[len(cs)-1].expect(r)), len(cs))
			return
		}
	}
	for _, q := range h.queries {
		cs := h.cands(q.s0, q.s1)
		if unknown(cs) {
			continue
		}
		ok := false
		for _, l := range cs {
			ok = ok || q.fits(l)
		}
		if !ok {
			if q.en < 0 {
				e.v("level", "level of %s is %s, expected %s", q.name, lvlStr(q.lvl), lvlStr(cs[len(cs)-1].level(q.name)))
			} else {
				e.v("level", "%s enabled for %s: %v", lvlStr(lvls[q.en]), q.name, q.on)
			}
			return
		}
	}
	// all final observations under one configuration
	if len(e.recs) > r0 {
		cs := h.cands(e.recs[r0].S0, 1<<60)
		if unknown(cs) {
			return
		}
		for _, l := range cs {
			all := true
			for _, r := range e.recs[r0:] {
				all = all && l.fits(h, r)
			}
			for _, q := range h.queries[q0:] {
				all = all && q.fits(l)
			}
			if all {
				return
			}
		}
		e.v("mixed", "the final state of the loggers is that of none of the %d configurations loaded last", len(cs))
	}
}
