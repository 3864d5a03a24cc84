package harness

import (
	"fmt"
	"path"
	"strconv"
	"strings"
	"time"

	"github.com/xtfly/log4g/api"
	"github.com/xtfly/log4g/zzsim/simrt"
)

// A rolling output that is redefined, for the same file, while it is used, and
// several outputs that have one file (C31).

func init() {
	kinds["reload"] = kind{genReload, runReload}
	propKinds["C31"] = []string{"reload"}
}

var reloadNames = []string{"root", "a", "a/b"}

func genReload(prop string, r *simrt.RNG, p *Prog) {
	c := &api.Config{Formats: []api.CfgFormat{{"type": "text", "name": "f1", "layout": lay1}, {"type": "text", "name": "f2", "layout": lay1}}}
	o := api.CfgOutput{"name": "r", "format": "f1", "type": "size_rolling_file", "file": "log/r.log", "backups": "20", "name_mode": r.PickS("postfix", "prefix")}
	timeT := r.Intn(4) == 0
	size := r.Pick(40, 100, 200, 400)
	switch {
	case timeT:
		o["type"], o["pattern"] = "time_rolling_file", r.PickS("2006-01-02T15-04-05", "20060102-1504", "2006-01-02")
		p.P["wallms"] = r.Pick(0, 500, 990)
	case r.Intn(5) == 0:
		o["size"] = "100M"
	default:
		o["size"] = itoa(size)
	}
	p.P["time"] = b2i(timeT)
	arch := r.Intn(3) == 0
	if arch {
		o["archive"], o["backups"] = r.PickS("zip", "gzip"), itoa(r.Range(1, 3))
	}
	async := func(o api.CfgOutput) {
		for _, k := range []string{"async", "queue_size", "batch_num"} {
			delete(o, k)
		}
		if r.Intn(2) == 0 {
			o["async"], o["queue_size"], o["batch_num"] = "true", itoa(r.Pick(1, 2, 5, 50)), itoa(r.Pick(1, 2, 4, 20))
		}
	}
	if r.Intn(3) > 0 {
		async(o)
	} else {
		p.P["sync"] = 1
	}
	c.Outputs = []api.CfgOutput{o}
	for _, n := range reloadNames {
		if n == "root" || r.Intn(3) == 0 {
			c.Loggers = append(c.Loggers, api.CfgLogger{Name: n, Level: "all", OutputNames: []string{"r"}})
		}
	}
	p.Cfgs = []*api.Config{c}
	p.P["limit"] = b2i(!timeT)
	for i, n := 1, r.Range(2, 4); i < n; i++ {
		d := copyConfig(p.Cfgs[r.Intn(i)])
		o := d.Outputs[0]
		for k := 0; k < r.Range(1, 2); k++ {
			switch r.Intn(6) {
			case 0:
				o["format"] = r.PickS("f1", "f2")
			case 1:
				if o["threshold"] == "" {
					o["threshold"] = r.PickS("debug", "info")
				} else {
					delete(o, "threshold")
				}
			case 2:
				if p.P["sync"] == 0 {
					async(o)
				}
			case 3:
				if arch {
					o["backups"] = itoa(r.Range(1, 3))
				} else {
					o["backups"] = r.PickS("19", "20")
				}
			case 4:
				if !timeT && r.Bool(0.5) {
					o["size"] = itoa(r.Pick(40, 100, 300))
				} else {
					o["file_perm"] = r.PickS("0644", "0640", "0600")
				}
			case 5:
				o["ver"] = itoa(r.Intn(5))
			}
		}
		p.Cfgs = append(p.Cfgs, d)
	}
	if r.Intn(4) == 0 || timeT && r.Intn(2) == 0 {
		// two outputs of one configuration have the same file
		for _, c := range p.Cfgs {
			d := copyConfig(c).Outputs[0]
			d["name"] = "r2"
			if p.P["sync"] == 0 {
				async(d)
			}
			c.Outputs = append(c.Outputs, d)
			for i := range c.Loggers {
				c.Loggers[i].OutputNames[0] = r.PickS("r", "r2")
			}
		}
	}
	left := 17
	p.P["close"] = b2i(r.Intn(4) == 0)
	p.Lives = []Life{{Tasks: genTasks(r, r.Range(1, 3), 3, 9, func(t, i int) Op {
		switch r.Intn(6) {
		case 0, 1:
			return Op{K: "cfg", A: r.Intn(len(p.Cfgs))}
		case 2:
			return Op{K: "sleep", A: r.Pick(1, 50, 1000, 5000, 6000, 70000)}
		}
		if left == 0 {
			return Op{K: "sleep", A: 5}
		}
		left--
		return Op{K: "log", A: r.Intn(len(reloadNames)), B: r.Intn(6), C: oddPad(r, 40, false, true, 0, 0, 5, 40), D: callHow(r)}
	})}}
	if r.Intn(4) == 0 {
		// at the same time from the start
		for t := range p.Lives[0].Tasks {
			k := Op{K: "cfg", A: t % len(p.Cfgs)}
			p.Lives[0].Tasks[t].Ops = append([]Op{k}, p.Lives[0].Tasks[t].Ops...)
		}
	}
}

func runReload(e *E) {
	p, s := e.p, e.s
	if !e.boot() {
		return
	}
	lg := map[string]api.Logger{}
	if !e.do("setup", func() {
		if err := mgr().SetConfig(p.Cfgs[0]); err != nil {
			s.Internal("config: %v", err)
		}
		for _, n := range reloadNames {
			lg[n] = get(n)
		}
	}) {
		return
	}
	e.pauses()
	must, may := api.All, api.Off
	limit := int64(0)
	for _, c := range p.Cfgs {
		o := c.Outputs[0]
		t := lvlFrom(o["threshold"])
		if t == api.Uninitialized {
			t = api.All
		}
		if t > must {
			must = t
		}
		if t < may {
			may = t
		}
		n, _ := strconv.ParseInt(o["size"], 10, 64)
		if o["size"] == "100M" {
			n = 100 << 20
		}
		if n > limit {
			limit = n
		}
	}
	cur := "/w/log/r.log"
	s.FS.On = func(ev *simrt.Event) {
		if ev.Op == "rename" && ev.Path == cur && ev.Err == nil && ev.Ino.Size() == 0 {
			e.v("empty", "a file without records was rotated away")
		}
		if ev.Op != "write" || ev.N <= 0 || !strings.HasPrefix(ev.Path, "/w/log/") || isArchName(ev.Path) || strings.Contains(ev.Path, ".log4g_tmp") {
			return
		}
		if x := s.FS.Get(cur); x == nil || x != ev.Ino {
			e.v("stale", "records are written to %s, which is not the current log file any more", ev.Path)
		} else if e.pi("limit") == 1 && ev.Pre >= limit {
			e.v("limit", "a file of %d bytes gets more records, the limit is %d", ev.Pre, limit)
		}
	}
	var ts []*simrt.Task
	for ti, tp := range p.Lives[0].Tasks {
		ti, tp := ti, tp
		ts = append(ts, e.proc.Spawn(fmt.Sprintf("t%d", ti), func() {
			for _, op := range tp.Ops {
				switch op.K {
				case "sleep":
					sleepMs(op.A)
				case "cfg":
					if err := mgr().SetConfig(p.Cfgs[op.A]); err != nil {
						e.v("config", "configuration %d is refused: %v", op.A, err)
					}
				case "log":
					n := reloadNames[op.A]
					r := e.rec(ti, n, lvls[op.B], op.C)
					e.call(lg[n], r, op.D)
				}
			}
		}))
	}
	if !e.await(0x7fffffffffff, ts...) {
		return
	}
	n := 0
	if !e.do("rest", func() {
		if e.pi("close") == 1 {
			mgr().Close()
		} else {
			sleepMs(11000)
		}
		for _, f := range e.proc.OpenFDs() {
			if strings.HasPrefix(f, "/w/log/") {
				n++
			}
		}
	}) {
		return
	}
	if n > 1 {
		e.v("fds", "%d files of one log are open between calls", n)
	}
	var got []*Rec
	for _, f := range s.FS.List("/w/log") {
		f = "/w/log/" + f
		if !isArchName(f) {
			continue
		}
		if b := strings.TrimSuffix(strings.TrimSuffix(f, ".zip"), ".gz"); s.FS.Get(b) != nil {
			continue // the backup it was made from is still there
		}
		es := decodeArchive(path.Base(f), s.FS.Get(f).Data)
		if es == nil {
			e.v("archive", "%s is not complete", f)
		}
		for _, x := range es {
			got = append(got, e.lines("the log", x.data, e.exp1)...)
		}
	}
	for _, f := range e.rollFiles("/w/log", "r.log") {
		if !isArchName(f) {
			rs := e.lines("the log", string(s.FS.Get(f).Data), e.exp1)
			got = append(got, rs...)
			if f != cur && e.pi("time") == 1 {
				e.labelOf(f, p.Cfgs[0].Outputs[0]["pattern"], rs, e.pi("sync") == 1)
			}
		}
	}
	e.once("the log", got, func(r *Rec) bool { return r.Lvl >= must }, func(r *Rec) bool { return r.Lvl >= may })
	if e.pi("sync") == 1 && p.Cfgs[0].Outputs[0]["archive"] == "" {
		e.order("the log", got)
	}
}

// labelOf reports a backup with a record of another period. All its patterns
// sort like the periods they stand for.
func (e *E) labelOf(f, pattern string, rs []*Rec, sync bool) {
	l := strings.Trim(strings.Replace(path.Base(f), "r.log", "", 1), ".")
	lab := func(ns int64) string { return time.Unix(0, ns).UTC().Format(pattern) }
	for i, r := range rs {
		if l < lab(r.W0) {
			e.v("period", "backup %s holds record r%d, which was logged in period %s", f, r.ID, lab(r.W0))
			return
		}
		ok := !sync || l <= lab(r.W1)
		// a record in progress at a boundary counts for either period, and
		// decides for its file when another output takes the file over
		for _, x := range rs[i+1:] {
			ok = ok || (lab(x.W0) <= lab(r.W1) && l <= lab(x.W1))
		}
		if !ok {
			e.v("period", "backup %s holds record r%d, which was written in period %s", f, r.ID, lab(r.W1))
			return
		}
	}
}
