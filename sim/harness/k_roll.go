package harness

import (
	"archive/tar"
	"archive/zip"
	"bytes"
	"compress/gzip"
	"fmt"
	"io"
	"os"
	"path"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/xtfly/log4g/api"
	"github.com/xtfly/log4g/zzsim/simrt"
)

// Rolling files: C13-C20, C24, C26.

func init() {
	kinds["roll"] = kind{genRoll, runRoll}
	for _, p := range []string{"C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C24", "C26"} {
		propKinds[p] = append(propKinds[p], "roll")
	}
	propKinds["C26"] = []string{"roll", "roll", "roll", "roll", "roll", "roll", "syslog"}
	if !DriverMissing() {
		propKinds["C26"] = append(propKinds["C26"], "cum", "cum")
	}
}

// rollName is the name of the log file of the run.
var rollName = "r.log"

// names with characters that mean something in patterns, and names that look like labels
var rollNames = []string{"r", "a+b.log", "a[1].log", "r*.log", "r?.(log)", "r.log.1", "1", "2021-03-04", ".r", "日志.log", "r log.txt", "%d.log", "{r}.log", "r\\.log", "$1", "-r.log", "R.LOG"}

type patt struct {
	p    string
	secs int // typical period
}

var patterns = []patt{
	{"2006-01-02T15-04-05", 1}, {"20060102150405", 1},
	{"2006-01-02T15-04", 60}, {"0601021504", 60},
	{"2006-01-02T15", 3600}, {"2006010215", 3600},
	{"2006-01-02", 86400}, {"02-01-2006", 86400}, {"02.Jan.06", 86400},
	{"2006-01", 2592000},
	{"2006-01-02 03PM", 3600}, {"2006.002", 86400}, {"Mon 02 Jan 2006", 86400}, {"Jan_2006", 2592000},
}

// zones with interesting instants (unix seconds shortly before a transition)
var zones = []struct {
	name string
	at   []int64
}{
	{"UTC", []int64{1614852000, 1609459190, 1614556790}},
	{"Europe/Berlin", []int64{1616893190, 1635641990, 1635638390, 1616889590}},
	{"America/New_York", []int64{1615705190, 1636264790, 1636261190}},
	{"Australia/Lord_Howe", []int64{1617461990, 1633188590}},
	{"Asia/Kolkata", []int64{1614882590}},
	{"Pacific/Apia", []int64{1325239190}},
}

func genRoll(prop string, r *simrt.RNG, p *Prog) {
	timeT := false
	switch prop {
	case "C15":
	case "C16", "C17":
		timeT = true
	case "C19", "C20", "C18":
		timeT = r.Intn(4) == 0
	default:
		timeT = r.Intn(3) == 0
	}
	p.P["time"] = b2i(timeT)
	o := api.CfgOutput{"name": "r", "format": "f1"}
	dir := r.PickS("log", "log", "log", ".", "a/b/log", "/w/deep/log")
	switch {
	case prop == "C24" && dir == ".":
		dir = "log"
	}
	p.S["dir"] = dir
	if r.Intn(10) == 0 {
		p.S["rname"] = r.PickS(rollNames...)
		rollName = p.S["rname"]
	}
	o["file"] = dir + "/" + rollName
	if dir == "." {
		o["file"] = r.PickS(rollName, "./"+rollName)
	}
	o["name_mode"] = r.PickS("postfix", "prefix")
	if r.Intn(5) == 0 {
		delete(o, "name_mode")
	}
	p.P["prefix"] = b2i(o["name_mode"] == "prefix")
	max := r.Pick(1, 1, 2, 2, 3, 4)
	if prop == "C15" || prop == "C16" {
		max = r.Pick(2, 5, 10)
	}
	if prop == "C14" && r.Intn(6) == 0 {
		max = r.Pick(5, 7, 12, 20)
	}
	o["backups"] = itoa(max)
	if r.Intn(15) == 0 {
		delete(o, "backups")
		max = 5
	}
	p.P["max"] = max
	arch := ""
	ap := 0.4
	if prop == "C20" {
		ap = 1
	}
	if prop == "C26" {
		ap = 0.8
	}
	if r.Bool(ap) {
		arch = r.PickS("zip", "gzip")
		o["archive"] = arch
	}
	p.S["arch"] = arch
	nl, per := 1, 8
	period := 0
	limit := int64(0)
	if timeT {
		o["type"] = "time_rolling_file"
		pt := patterns[r.Intn(len(patterns))]
		z := zones[0]
		if prop == "C16" || prop == "C17" || r.Intn(3) == 0 {
			z = zones[r.Intn(len(zones))]
		}
		for z.name != "UTC" && z.name != "Asia/Kolkata" && (pt.secs < 3600 && prop != "C17") {
			// labels finer than an hour repeat when the clock is set back
			pt = patterns[r.Intn(len(patterns))]
		}
		o["pattern"] = pt.p
		period = pt.secs
		p.S["pattern"] = pt.p
		p.S["zone"] = z.name
		at := z.at[r.Intn(len(z.at))]
		if r.Intn(3) == 0 {
			at -= int64(r.Intn(3 * period))
		}
		p.P["wall"] = int(at)
		p.P["wallms"] = r.Pick(0, 0, 990, 999, 500)
	} else {
		o["type"] = "size_rolling_file"
		limit = int64(r.Pick(20, 40, 60, 100, 200, 400))
		o["size"] = fmt.Sprint(limit)
		if prop == "C15" && r.Intn(2) == 0 {
			k := []int64{1 << 10, 1 << 20, 1 << 30}
			i := r.Intn(3)
			n := int64(r.Pick(1, 2, 3, 7, 10, 64))
			o["size"] = fmt.Sprintf("%d%c", n, "KMG"[i])
			limit = n * k[i]
		}
		if prop == "C15" && r.Intn(12) == 0 {
			delete(o, "size")
			limit = 10 << 20
		}
		if (prop == "C15" && limit > 500) || r.Intn(6) == 0 {
			d := r.Pick(-1000, -300, -60, -40, -1, 0, 1, 50)
			if r.Intn(4) == 0 {
				d = -r.Intn(700)
			}
			if s := int(limit) + d; s > 0 {
				p.P["precur"] = s
			}
		}
	}
	p.P["limit"] = int(limit)
	if prop != "C16" && prop != "C18" && prop != "C19" && prop != "C17" && period <= 60 && r.Intn(4) == 0 {
		o["async"] = "true"
		o["queue_size"] = itoa(r.Pick(1, 2, 10))
		o["batch_num"] = itoa(r.Pick(1, 2, 5))
		p.P["async"] = 1
	}
	p.P["fperm"], p.P["bperm"], p.P["dperm"] = 0600, 0500, 0760
	p.P["umask"] = r.Pick(022, 0, 077, 027)
	if prop == "C24" || r.Intn(4) == 0 {
		perm := func(k string, key string, xs ...int) {
			x := r.Pick(xs...)
			if x != 0 {
				p.P[k] = x
				o[key] = fmt.Sprintf("0%o", x)
			}
		}
		perm("fperm", "file_perm", 0, 0640, 0600, 0644, 0660, 0200, 0666, 0440, 0400, 0602)
		perm("bperm", "back_perm", 0, 0550, 0440, 0400, 0640, 0000, 0100, 0644, 0600, 0400, 0200)
		perm("dperm", "dir_perm", 0, 0750, 0700, 0755, 0777, 0711, 0550, 0300, 0660, 0600)
	}
	cfg := &api.Config{Formats: []api.CfgFormat{{"type": "text", "name": "f1", "layout": lay1}}, Outputs: []api.CfgOutput{o},
		Loggers: []api.CfgLogger{{Name: "root", Level: "all", OutputNames: []string{"r"}}}}
	p.Cfgs = []*api.Config{cfg}
	// foreign files and earlier backups
	p.Foreign = map[string]string{}
	if (prop == "C14" && r.Intn(4) > 0) || r.Intn(6) == 0 {
		names := []string{rollName + ".bak", rollName + ".1b", rollName + ".x", "x" + rollName, rollName + "s", "R.log.1", "other.log.1", "1.other.log",
			rollName + ".gzz", "notes", "a." + rollName, rollName + "~", "dir:" + rollName + ".999999", "dir:999998." + rollName, "dir:sub", rollName + ".1.old", "old.1." + rollName, rollName + ".", "." + rollName}
		if p.P["prefix"] == 1 {
			names = append(names, rollName+".1", rollName+".2", rollName+".2021-03-04")
		} else {
			names = append(names, "1."+rollName, "2."+rollName, "2021-03-04."+rollName)
		}
		lm := &rollM{timeT: timeT, prefix: p.P["prefix"] == 1, pattern: p.S["pattern"], loc: loadZone(p.S["zone"])}
		for i, n := 0, r.Range(1, 6); i < n; i++ {
			f := r.PickS(names...)
			if _, _, ok := lm.label(strings.TrimPrefix(f, "dir:")); ok && !strings.HasPrefix(f, "dir:") || f == rollName {
				continue
			}
			p.Foreign[f] = "foreign " + f + "\n"
		}
		// names that almost are those of a backup
		for i, n := 0, r.Pick(0, 1, 2, 4); i < n; i++ {
			l := itoa(r.Pick(1, 2, 3, 7, 10, 12, 99, 1000000))
			if timeT {
				l = time.Unix(int64(p.P["wall"]), 0).Add(time.Duration(period*r.Range(-4, 4)) * time.Second).In(lm.loc).Format(lm.pattern)
			}
			f := nearMiss(r, l, rollName, lm.prefix)
			if _, _, ok := lm.label(f); !ok && f != rollName && f != "" && !strings.Contains(f, "/") && !(arch != "" && isArchName(f)) {
				p.Foreign[f] = "foreign " + f + "\n"
			}
		}
	}
	if r.Intn(4) == 0 || (prop == "C14" && r.Bool(0.5)) {
		n := r.Range(1, max+2)
		if r.Intn(40) == 0 || prop == "C14" && r.Intn(15) == 0 {
			n += r.Pick(10, 15, 30, 70) // kept under another limit
		}
		var l []string
		if timeT {
			pt := p.S["pattern"]
			loc := loadZone(p.S["zone"])
			t := time.Unix(int64(p.P["wall"]), 0)
			for i := 0; i < n; i++ {
				t = t.Add(-time.Duration(period*r.Range(1, 3)) * time.Second * 2)
				l = append(l, t.In(loc).Format(pt))
			}
		} else {
			k := 0
			for i := 0; i < n; i++ {
				k += r.Pick(1, 1, 1, 2, 5, 8, 50, 98, 127, 254, 998, 9998, 32766, 65534, 1<<31-2, 1<<33)
				l = append(l, itoa(k))
			}
		}
		seen := map[string]bool{}
		for _, x := range l {
			if !seen[x] {
				p.S["pre"] += x + ","
			}
			seen[x] = true
		}
	}
	// symbolic links which have the names of backups, and a log directory that is one
	if len(p.Foreign) > 0 && r.Intn(3) == 0 {
		for i, n := 0, r.Range(1, 2); i < n; i++ {
			l := itoa(r.Pick(1, 2, 3, 4, 7, 100000001))
			if timeT {
				if !strings.Contains(p.S["pattern"], "2006") {
					break
				}
				l = time.Unix(int64(p.P["wall"]), 0).AddDate(-2, 0, -i).In(loadZone(p.S["zone"])).Format(p.S["pattern"])
			}
			f := rollName + "." + l
			if p.P["prefix"] == 1 {
				f = l + "." + rollName
			}
			if !strings.Contains(","+p.S["pre"], ","+l+",") && p.Foreign[f] == "" {
				p.Foreign["lnk:"+f] = r.PickS("nowhere", "/w/elsewhere/old", "/w/elsewhere", rollName)
			}
		}
	}
	if dir != "." && r.Intn(12) == 0 {
		p.S["real"] = "/w/real/dir"
	}
	// histories
	nl = r.Pick(1, 1, 2, 3)
	tasks := r.Pick(1, 1, 2, 3)
	switch prop {
	case "C15":
		nl, per = r.Range(1, 4), r.Pick(1, 2, 4, 8)
	case "C16", "C17":
		nl, per = r.Range(1, 4), r.Pick(2, 4, 8)
	case "C18":
		nl, per, tasks = r.Range(2, 4), r.Pick(4, 8, 14), r.Pick(1, 1, 2)
	case "C19":
		nl, per = r.Pick(1, 1, 2), r.Pick(6, 10)
	case "C20", "C26":
		nl, per = r.Range(1, 3), r.Pick(6, 12)
	default:
		per = r.Pick(3, 6, 12)
	}
	for i := 0; i < nl; i++ {
		lf := Life{P: map[string]int{}}
		lf.Tasks = genTasks(r, tasks, (per+1)/2, per+2, func(t, i int) Op {
			if timeT && r.Intn(5) < 2 {
				switch r.Intn(4) {
				case 0:
					return Op{K: "sleep", A: period * 1000}
				case 1:
					return Op{K: "sleep", A: r.Intn(period*1500 + 1)}
				case 2:
					return Op{K: "sleep", A: period * 1000 * r.Range(1, 5)}
				case 3:
					return Op{K: "to", A: r.Pick(-1, 0, 1, 2)} // sleep to the next boundary plus A ms
				}
			}
			if prop == "C17" && r.Intn(3) == 0 {
				return Op{K: "step", A: r.Pick(-3, -2, -1, 1, 2) * r.Pick(1, period/2+1, period, period*2)}
			}
			if prop == "C16" && r.Intn(12) == 0 {
				// the clock is set forward
				return Op{K: "step", A: r.Pick(1, 2, period/2+1, period, period*2, period*5)}
			}
			if r.Intn(20) == 0 {
				return Op{K: "sleep", A: r.Pick(1, 1000, 6000)}
			}
			return Op{K: "log", A: r.Intn(2), B: r.Intn(6), C: oddPad(r, 60, true, false, 0, 0, 5, 20, 60, 150), D: callHow(r)}
		})
		if timeT && i > 0 {
			lf.P["gap"] = r.Pick(0, 0, period, period*3/2, r.Intn(3*period+1))
			if prop == "C17" && r.Intn(3) == 0 {
				lf.P["gap"] = -r.Pick(1, period, 3*period)
			}
		}
		if r.Bool(0.5) {
			lf.P["close"] = 1
		}
		if (prop == "C18" || prop == "C20") && i+1 < nl && r.Intn(5) > 0 {
			lf.P["crash"] = 1 + r.Intn(3)
		}
		if prop == "C19" || (prop == "C20" && i+1 <= nl && r.Intn(2) == 0) || (prop == "C26" && r.Intn(2) == 0) || (prop == "C24" && r.Intn(4) == 0) {
			lf.P["faults"] = 1 + r.Intn(3)
			lf.P["fops"] = r.Intn(1 << 14)
			if r.Intn(3) == 0 {
				lf.P["fops"] = 1<<14 - 1
			}
			if prop == "C19" && r.Intn(6) == 0 {
				lf.P["cap"] = r.Pick(1, 50, 200, 500)
			}
			if prop == "C19" {
				// external removals
				for t := range lf.Tasks {
					if r.Intn(5) == 0 {
						k := r.Intn(len(lf.Tasks[t].Ops))
						lf.Tasks[t].Ops[k] = Op{K: "extdel", A: r.Intn(5), B: r.Intn(100)}
					}
				}
			}
		}
		if prop == "C14" && r.Intn(5) == 0 {
			// the directory cannot be read, or more goes wrong
			lf.P["faults"], lf.P["fops"] = 1+r.Intn(3), r.Pick(1<<8, 1<<8|1<<7, 1<<8|1<<0, 1<<5, 1<<4, 1<<14-1)
		}
		if prop == "C15" && r.Intn(3) == 0 {
			// writes fail, are short or find the disk full: rotation goes on
			lf.P["faults"], lf.P["fops"] = 1+r.Intn(3), 1<<2
			if r.Intn(4) == 0 {
				lf.P["fops"] = 0
				lf.P["cap"] = r.Pick(1, 50, 200, 500)
			}
		}
		p.Lives = append(p.Lives, lf)
	}
	if (prop == "C13" || prop == "C14" || prop == "C26") && r.Intn(8) == 0 {
		p.P["pauseP"], p.P["pauseMax"] = 10, 3000
	}
	if prop != "C24" && r.Intn(3) == 0 {
		// later processes have other limits and another archive type
		for i := 1; i < len(p.Lives); i++ {
			lf := &p.Lives[i]
			if lf.P == nil {
				lf.P = map[string]int{}
			}
			if r.Intn(2) == 0 {
				lf.P["max"] = r.Pick(1, 2, 3, 5, 10)
			}
			if !timeT && limit < 1000 && r.Intn(3) == 0 {
				lf.P["limit"] = r.Pick(20, 40, 100, 400)
			}
			named := false // a foreign file could have the name of an archive
			for n := range p.Foreign {
				named = named || isArchName(n)
			}
			if prop != "C20" && prop != "C17" && !named && r.Intn(3) == 0 {
				lf.P["arch"] = r.Pick(1, 2, 3)
			}
			if prop == "C20" && !named && r.Intn(3) == 0 {
				lf.P["arch"] = r.Pick(2, 3)
			}
		}
	}
}

// nearMiss makes a name that resembles the one of a backup.
func nearMiss(r *simrt.RNG, l, base string, prefix bool) string {
	sep := "."
	switch r.Intn(8) {
	case 0: // another separator
		sep = r.PickS("-", "_", "", "x", "..", " ", ". ", ".x.")
	case 1: // something behind it
		x := r.PickS(".gz", ".zip", ".tmp", "~", ".1", " ", ".5", ".000", "a", ".tar.gz", ".bak")
		if prefix {
			return l + sep + base + x
		}
		return base + sep + l + x
	case 2: // something in front of it
		x := r.PickS("a", "a.", ".", "1", "1.", " ", "x.log.", "r.")
		if prefix {
			return x + l + sep + base
		}
		return x + base + sep + l
	case 3: // another log
		base = r.PickS("r.lo", "r.log2", "R.log", "r.LOG", "s.log", "rr.log", "r", "log", ".log")
	case 4: // label and name the other way round
		prefix = !prefix
	case 5: // not the way this log writes labels
		l = r.PickS("+"+l, "-"+l, "0"+l, "00"+l, l+"0x", "0x"+l, l+".0", l+"e1", "1_0", "\u0663", strings.ToLower(l), strings.ToUpper(l), strings.Replace(l, "-", "", 1),
			l+".5", l+".123456789", l+",5", l+"Z", " "+l, l+" ", "99999999999999999999", "18446744073709551617", strings.Replace(l, "2", "5", 1), strings.Replace(l, "0", "1", 1))
	case 6: // no label
		l = r.PickS("", " ", ".", "x")
	case 7: // several labels
		l = l + "." + l
	}
	if prefix {
		return l + sep + base
	}
	return base + sep + l
}

var zoneCache = map[string]*time.Location{}

func loadZone(n string) *time.Location {
	if n == "" {
		return time.UTC
	}
	if l, ok := zoneCache[n]; ok {
		return l
	}
	l, err := time.LoadLocation(n)
	if err != nil {
		panic(err)
	}
	zoneCache[n] = l
	return l
}

// entry of an archive.
type entry struct {
	name string
	data string
}

type fstate struct {
	data string
	mode os.FileMode
	dir  bool
}

// rollM observes one rolling log.
type rollM struct {
	e        *E
	dir      string
	loc      *time.Location
	timeT    bool
	prefix   bool
	pattern  string
	limit    int64
	max      int
	arch     string
	async    bool
	foreign  map[string]fstate
	steps    []int64      // what the wall clock read before and after it was set
	written  map[*Rec]int // order of the complete write
	wlist    []*Rec
	wallAt   map[*Rec]int64
	retired  map[*Rec]bool
	exempt   map[*Rec]bool // in a file removed from outside
	rotSeq   map[int]int   // order of the rotations, by inode
	faulted  map[int]bool  // backups made while faults were injected
	known    map[int]bool  // inodes of backups that existed before
	rolled   bool
	active   int
	faults   bool // faults may be injected now
	crashes  bool
	everF    bool
	litter   map[string]bool
	cache    map[[2]int][]entry
	fperm    os.FileMode
	bperm    os.FileMode
	dperm    os.FileMode
	created  map[int]bool // log files created by the output
	recov    int          // complete writes since faults stopped
	lastLens map[int]int64
	badArch  map[string]bool
	extKeys  []int64 // backups removed from outside while a rotation may have been listing them
	gone     bool    // the current file was removed from outside and not yet rotated
}

func (m *rollM) cur() string { return path.Join(m.dir, rollName) }

// label of a backup file name.
func (m *rollM) label(n string) (string, int64, bool) {
	l := ""
	if m.prefix {
		if !strings.HasSuffix(n, "."+rollName) {
			return "", 0, false
		}
		l = n[:len(n)-len(rollName)-1]
	} else {
		if !strings.HasPrefix(n, rollName+".") {
			return "", 0, false
		}
		l = n[len(rollName)+1:]
	}
	if m.timeT {
		if t, err := time.Parse(m.pattern, l); err != nil || t.Format(m.pattern) != l {
			return "", 0, false
		}
		t, err := time.ParseInLocation(m.pattern, l, m.loc)
		if err != nil {
			return "", 0, false
		}
		return l, t.UnixNano(), true
	}
	k, err := strconv.ParseInt(l, 10, 64)
	if err != nil || k <= 0 || strconv.FormatInt(k, 10) != l {
		return "", 0, false
	}
	return l, k, true
}

type bkup struct {
	name, label string
	key         int64
	ino         *simrt.Inode
}

// backups present, oldest first.
func (m *rollM) backups() []bkup {
	var r []bkup
	d := m.e.s.FS.Get(m.dir)
	if d == nil {
		return nil
	}
	for _, n := range m.e.s.FS.List(m.dir) {
		k := d.Kids[n]
		if k.Mode.IsDir() {
			continue
		}
		if _, ok := m.foreign[path.Join(m.dir, n)]; ok {
			continue
		}
		if l, key, ok := m.label(n); ok {
			r = append(r, bkup{n, l, key, k})
		}
	}
	sort.SliceStable(r, func(i, j int) bool { return r[i].key < r[j].key })
	return r
}

// backupPath reports whether a path is (or would be) a backup of this log.
func (m *rollM) backupPath(p string) (string, int64, bool) {
	if path.Dir(p) != m.dir {
		return "", 0, false
	}
	if _, ok := m.foreign[p]; ok {
		return "", 0, false
	}
	return m.label(path.Base(p))
}

func isArchName(n string) bool { return strings.HasSuffix(n, ".zip") || strings.HasSuffix(n, ".gz") }

type archf struct {
	name string
	ents []entry
	ok   bool
}

// archives decodes the archives beside the log.
func (m *rollM) archives() []archf {
	var r []archf
	d := m.e.s.FS.Get(m.dir)
	if d == nil {
		return nil
	}
	for _, n := range m.e.s.FS.List(m.dir) {
		k := d.Kids[n]
		if k.Mode.IsDir() || !isArchName(n) {
			continue
		}
		if _, ok := m.foreign[path.Join(m.dir, n)]; ok {
			continue
		}
		es, ok := m.decode(n, k)
		r = append(r, archf{n, es, ok})
	}
	return r
}

func (m *rollM) decode(n string, k *simrt.Inode) ([]entry, bool) {
	key := [2]int{k.Ino, len(k.Data)}
	if es, ok := m.cache[key]; ok {
		return es, es != nil
	}
	es := decodeArchive(n, k.Data)
	m.cache[key] = es
	return es, es != nil
}

// decodeArchive returns the entries, nil when the archive is not complete.
func decodeArchive(n string, data []byte) []entry {
	es := []entry{}
	if strings.HasSuffix(n, ".zip") {
		zr, err := zip.NewReader(bytes.NewReader(data), int64(len(data)))
		if err != nil {
			return nil
		}
		for _, f := range zr.File {
			rc, err := f.Open()
			if err != nil {
				return nil
			}
			b, err := io.ReadAll(rc)
			if err != nil {
				return nil
			}
			es = append(es, entry{f.Name, string(b)})
		}
		return es
	}
	gr, err := gzip.NewReader(bytes.NewReader(data))
	if err != nil {
		return nil
	}
	b, err := io.ReadAll(gr)
	if err != nil {
		return nil
	}
	tr := tar.NewReader(bytes.NewReader(b))
	if h, err := tr.Next(); err == nil && len(b) >= 512 {
		for {
			x, err := io.ReadAll(tr)
			if err != nil {
				return nil
			}
			es = append(es, entry{h.Name, string(x)})
			h, err = tr.Next()
			if err == io.EOF {
				return es
			}
			if err != nil {
				return nil
			}
		}
	}
	return append(es, entry{strings.TrimSuffix(n, ".gz"), string(b)})
}

// recsIn lists the records completely contained in data.
func (e *E) recsIn(data string, exp func(r *Rec) string) []*Rec {
	var out []*Rec
	for i := 0; i < len(data); {
		j := strings.Index(data[i:], "<r")
		if j < 0 {
			break
		}
		i += j
		if i+14 <= len(data) {
			if r := e.byTok[data[i:i+14]]; r != nil {
				x := exp(r)
				o := strings.Index(x, r.Tok)
				if i-o >= 0 && i-o+len(x) <= len(data) && data[i-o:i-o+len(x)] == x {
					out = append(out, r)
				}
			}
		}
		i += 2
	}
	return out
}

// stored counts how often each record is stored; an archive does not count
// while the backup it was made from is still there.
func (m *rollM) stored() map[*Rec]int {
	cnt := map[*Rec]int{}
	fs := m.e.s.FS
	have := map[string]bool{}
	for _, b := range m.backups() {
		have[string(b.ino.Data)] = true
		for _, r := range m.e.recsIn(string(b.ino.Data), m.e.exp1) {
			cnt[r]++
		}
	}
	if c := fs.Get(m.cur()); c != nil {
		for _, r := range m.e.recsIn(string(c.Data), m.e.exp1) {
			cnt[r]++
		}
	}
	seen := map[string]bool{}
	for _, a := range m.archives() {
		for _, en := range a.ents {
			if have[en.data] || (seen[en.data] && len(en.data) > 0) {
				continue
			}
			seen[en.data] = true
			for _, r := range m.e.recsIn(en.data, m.e.exp1) {
				cnt[r]++
			}
		}
	}
	return cnt
}

// conserve checks that every record written so far is stored exactly once.
func (m *rollM) conserve(at string) {
	e := m.e
	if !e.is("C13", "C17", "C18", "C19", "C20") || e.s.Violated() {
		return
	}
	cnt := m.stored()
	for _, r := range m.wlist {
		k := cnt[r]
		if k == 0 && !m.retired[r] && !m.exempt[r] {
			e.v("lost", "after %s: record r%d is stored nowhere any more", at, r.ID)
			return
		}
		if k > 1 {
			e.v("dup", "after %s: record r%d is stored %d times", at, r.ID, k)
			return
		}
	}
}

func (m *rollM) sizeRule() bool {
	return !m.timeT && (!m.faults && m.recov >= 0 || m.e.is("C15"))
}

// on observes a file system operation of the process.
func (m *rollM) on(ev *simrt.Event) {
	e := m.e
	if ev.Proc == nil {
		return
	}
	cur := m.cur()
	if ev.Err != nil && ev.Op != "write" {
		return
	}
	for _, p := range []string{ev.Path, ev.To} {
		if _, ok := m.foreign[p]; ok && p != "" {
			switch ev.Op {
			case "write", "rename", "remove", "truncate", "chmod", "link":
				e.vp("C14", "foreign", "%s of %s%s, which is not a backup of this log", ev.Op, ev.Path, map[bool]string{true: " to " + ev.To}[ev.To != ""])
			}
		}
	}
	switch ev.Op {
	case "write":
		if ev.N == 0 {
			return
		}
		if ev.Path == cur || (ev.Ino != nil && m.created[ev.Ino.Ino]) {
			m.wrote(ev)
		}
		return
	case "create":
		if ev.Path == cur && ev.Ino != nil {
			if _, ok := m.lastLens[ev.Ino.Ino]; !ok && len(ev.Ino.Data) == 0 && ev.Ino.Virt == 0 && !m.known[ev.Ino.Ino] && !m.created[ev.Ino.Ino] {
				m.created[ev.Ino.Ino] = true
				if ev.Mode.Perm()&^m.fperm != 0 {
					e.vp("C24", "wide", "log file created with mode %o, configured %o", ev.Mode.Perm(), m.fperm)
				} else if ev.Mode.Perm() != m.fperm&^e.s.FS.Umask {
					e.vp("C24", "mode", "log file created with mode %o, configured %o, umask %o", ev.Mode.Perm(), m.fperm, e.s.FS.Umask)
				}
			}
		}
	case "mkdir":
		if ev.Ino != nil && ev.Mode.Perm()&^m.dperm != 0 {
			e.vp("C24", "wide", "directory %s created with mode %o, configured %o", ev.Path, ev.Mode.Perm(), m.dperm)
		} else if ev.Ino != nil && ev.Mode.Perm() != m.dperm&^e.s.FS.Umask {
			e.vp("C24", "mode", "directory %s created with mode %o, configured %o, umask %o", ev.Path, ev.Mode.Perm(), m.dperm, e.s.FS.Umask)
		}
		return
	case "chmod":
		if ev.Ino != nil {
			m.modes(ev.Path, ev.Ino)
		}
		return
	case "remove":
		if _, _, ok := m.backupPath(ev.Path); ok && ev.Ino != nil && !ev.Ino.Mode.IsDir() {
			m.removed(ev.Path, ev.Ino, "remove")
		}
	case "rename":
		if ev.Path == cur {
			if _, _, ok := m.backupPath(ev.To); ok {
				m.rolled = true
				e.s.Probe("rotation")
				m.gone = false
				m.rotSeq[ev.Ino.Ino] = len(m.rotSeq) + 1
				if m.faults {
					m.faulted[ev.Ino.Ino] = true
				}
				if e.s.FS.FaultSeq == 0 && ev.Ino.Size() == 0 {
					e.vp("C14", "empty", "a file without records was rotated away")
				}
				if m.sizeRule() && ev.Ino.Size() < m.limit {
					e.vp("C15", "early", "file of %d bytes rotated with limit %d", ev.Ino.Size(), m.limit)
					e.vp("C19", "early", "after the faults stopped a file of %d bytes was rotated with limit %d", ev.Ino.Size(), m.limit)
				}
			}
		} else if _, _, ok := m.backupPath(ev.Path); ok {
			if _, _, ok := m.backupPath(ev.To); !ok {
				m.removed(ev.Path, ev.Ino, "rename")
			}
		}
		m.modes(ev.To, ev.Ino)
		if ev.Replace != nil && isArchName(ev.To) {
			// every entry of the replaced archive must still be somewhere
			old, _ := m.decode(ev.To, ev.Replace)
			for _, en := range old {
				if !m.held(en.data) {
					e.vp("C20", "replaced", "archive %s replaced, its entry %s (%d bytes) is gone", ev.To, en.name, len(en.data))
				}
			}
		}
	case "truncate", "link":
	default:
		return
	}
	m.conserve(ev.Op + " " + ev.Path)
}

// held reports whether exactly these bytes are in a complete archive or a backup.
func (m *rollM) held(data string) bool {
	for _, b := range m.backups() {
		if string(b.ino.Data) == data {
			return true
		}
	}
	return m.archived(data)
}

func (m *rollM) archived(data string) bool {
	for _, a := range m.archives() {
		for _, en := range a.ents {
			if en.data == data {
				return true
			}
		}
	}
	return false
}

// modes checks the permissions of a log file or backup at an instant.
func (m *rollM) modes(p string, n *simrt.Inode) {
	if n == nil || m.known[n.Ino] && p == m.cur() {
		return
	}
	if p == m.cur() && m.created[n.Ino] && n.Mode.Perm()&^m.fperm != 0 {
		m.e.vp("C24", "wide", "log file %s has mode %o, configured %o", p, n.Mode.Perm(), m.fperm)
	}
	if _, _, ok := m.backupPath(p); ok && m.created[n.Ino] && n.Mode.Perm()&^(m.fperm|m.bperm) != 0 {
		m.e.vp("C24", "wide", "backup %s has mode %o, configured %o and %o", p, n.Mode.Perm(), m.fperm, m.bperm)
	}
}

// removed judges the removal of a backup.
func (m *rollM) removed(p string, n *simrt.Inode, how string) {
	e := m.e
	_, key, _ := m.backupPath(p)
	left := m.backups() // without the removed one
	count := len(left) + 1
	// older by label and, when both were seen to be rotated, by rotation
	older := 0
	for _, b := range left {
		a, z := m.rotSeq[b.ino.Ino], m.rotSeq[n.Ino]
		if b.key < key && a <= z || !m.timeT && a < z {
			// numbers must follow the rotations
			older++
		}
	}
	for _, k := range m.extKeys {
		count++
		if k < key {
			older++
		}
	}
	legit := true
	if count <= m.max {
		legit = false
		e.vp("C14", "early", "%s of backup %s although only %d backups exist (limit %d)", how, p, count, m.max)
	} else if older >= count-m.max {
		legit = false
		e.vp("C14", "young", "%s of backup %s although %d older backups exist", how, p, older)
		e.vp("C19", "young", "%s of backup %s although %d older backups exist", how, p, older)
	}
	if m.arch != "" {
		if !m.archived(string(n.Data)) {
			e.vp("C20", "unarchived", "backup %s (%d bytes) removed without a complete archive of it", p, n.Size())
		} else {
			e.s.Probe("archived")
		}
		return
	}
	if legit {
		e.s.Probe("retired")
		for _, r := range e.recsIn(string(n.Data), e.exp1) {
			m.retired[r] = true
		}
	}
}

// wrote handles bytes appended to the log.
func (m *rollM) wrote(ev *simrt.Event) {
	e := m.e
	if m.sizeRule() && ev.Path == m.cur() && ev.Pre >= m.limit {
		e.vp("C15", "late", "file of %d bytes (limit %d) received %d more bytes", ev.Pre, m.limit, ev.N)
		if m.recov >= 2 {
			e.vp("C19", "norotation", "after the faults stopped a file of %d bytes (limit %d) received %d more bytes", ev.Pre, m.limit, ev.N)
		}
	}
	if ev.Ino.Links == 0 {
		return
	}
	linked := e.s.FS.Get(ev.Path) == ev.Ino
	for _, r := range e.recsIn(string(ev.Data[:ev.N]), e.exp1) {
		if !linked {
			m.exempt[r] = true
			continue
		}
		if _, ok := m.written[r]; ok {
			e.vp("C13", "dup", "record r%d is written a second time", r.ID)
			e.vp("C19", "dup", "record r%d is written a second time", r.ID)
			continue
		}
		m.written[r] = len(m.wlist)
		m.wlist = append(m.wlist, r)
		m.wallAt[r] = e.s.Wall()
		if !m.faults && m.recov >= 0 {
			m.recov++
		}
	}
	m.lastLens[ev.Ino.Ino] = ev.Ino.Size()
}

// quiet checks what must hold whenever no call is in progress.
func (m *rollM) quiet() {
	e := m.e
	if m.active > 0 || e.proc.Over() {
		return
	}
	bs := m.backups()
	if m.rolled && !m.faults && m.recov >= 0 && len(bs) > m.max && !m.everF {
		e.vp("C14", "retention", "%d backups after a rotation with limit %d", len(bs), m.max)
		e.vp("C18", "retention", "%d backups after a rotation with limit %d", len(bs), m.max)
	}
	if e.is("C24") && !m.faults && !m.everF {
		for _, b := range bs {
			if m.created[b.ino.Ino] && !m.faulted[b.ino.Ino] && b.ino.Mode.Perm() != m.bperm {
				e.v("mode", "backup %s has mode %o after its rotation, configured %o", b.name, b.ino.Mode.Perm(), m.bperm)
			}
		}
	}
	if e.is("C26") {
		n := 0
		var l []string
		for _, f := range e.proc.OpenFDs() {
			if f == m.dir || strings.HasPrefix(f, m.dir+"/") || strings.HasPrefix(f, "/tmp/") {
				n++
				l = append(l, f)
			}
		}
		if n > 1 || (n == 1 && path.Dir(l[0]) != m.dir) {
			e.v("fds", "%d open files between calls: %s", n, strings.Join(l, ", "))
		}
		for _, root := range []string{m.dir, "/tmp"} {
			e.s.FS.Walk(root, func(p string, n *simrt.Inode) {
				if n.Mode.IsDir() || m.litter[p] || p == m.cur() {
					return
				}
				if _, ok := m.foreign[p]; ok {
					return
				}
				if _, _, ok := m.backupPath(p); ok {
					return
				}
				if path.Dir(p) == m.dir && isArchName(p) {
					if _, ok := m.decode(p, n); ok {
						return
					}
				}
				m.litter[p] = true
				e.v("temp", "file %s is left behind", p)
			})
		}
	}
}

// foreignOK compares the foreign files with what they were.
func (m *rollM) foreignOK() {
	for p, st := range m.foreign {
		n := m.e.s.FS.LGet(p)
		if n == nil {
			m.e.v("foreign", "%s, which is not a backup of this log, is gone", p)
		} else if string(n.Data) != st.data || n.Mode != st.mode {
			m.e.v("foreign", "%s, which is not a backup of this log, was changed", p)
		}
	}
}

// labels of an instant.
func (m *rollM) lab(ns int64) string { return time.Unix(0, ns).In(m.loc).Format(m.pattern) }

// periods checks C16.
func (m *rollM) periods() {
	e := m.e
	labs := func(r *Rec) []string {
		l := []string{m.lab(r.W0), m.lab(m.wallAt[r]), m.lab(r.W1)}
		for _, w := range m.steps { // the clock was set during the call
			if w >= r.W0 && w <= r.W1 {
				l = append(l, m.lab(w))
			}
		}
		return l
	}
	can := func(r *Rec, l string) bool {
		for _, x := range labs(r) {
			if x == l {
				return true
			}
		}
		return false
	}
	// a record in progress at a boundary counts for either period; when it is the
	// last one of a process it also decides which of the two its file counts for
	either := func(rs []*Rec, l string) bool {
		for i, r := range rs {
			if can(r, l) {
				continue
			}
			ok := false
			for _, x := range rs[i+1:] {
				if !can(x, l) {
					continue
				}
				for _, y := range labs(x) {
					ok = ok || (y != m.lab(m.wallAt[x]) && can(r, y))
				}
			}
			if !ok {
				return false
			}
		}
		return true
	}
	for _, b := range m.backups() {
		rs := e.recsIn(string(b.ino.Data), e.exp1)
		for _, r := range rs {
			if r.X["pre"] == "" && !can(r, b.label) && !either(rs, b.label) {
				e.v("period", "backup %s holds record r%d, written in period %s", b.name, r.ID, m.lab(m.wallAt[r]))
				return
			}
		}
	}
	for _, a := range m.archives() {
		for _, en := range a.ents {
			n := strings.TrimSuffix(strings.TrimSuffix(a.name, ".gz"), ".zip")
			l, _, ok := m.label(n)
			if !ok {
				continue
			}
			rs := e.recsIn(en.data, e.exp1)
			for _, r := range rs {
				if r.X["pre"] == "" && !can(r, l) && !either(rs, l) {
					e.v("period", "archive %s holds record r%d, written in period %s", a.name, r.ID, m.lab(m.wallAt[r]))
					return
				}
			}
		}
	}
	if c := e.s.FS.Get(m.cur()); c != nil {
		rs := e.recsIn(string(c.Data), e.exp1)
		if len(rs) == 0 {
			return
		}
		last := rs[len(rs)-1]
		ok := false
		for _, l := range []string{m.lab(last.W0), m.lab(last.W1), m.lab(m.wallAt[last])} {
			all := true
			for _, r := range rs {
				all = all && can(r, l)
			}
			ok = ok || all || either(rs, l)
		}
		if !ok {
			e.v("current", "the current file holds records of different periods: r%d (%s) and r%d (%s)", rs[0].ID, m.lab(m.wallAt[rs[0]]), last.ID, m.lab(m.wallAt[last]))
		}
	}
}

// inOrder checks that files read from the oldest to the current one give the write order.
func (m *rollM) inOrder() {
	type part struct {
		key  int64
		arch bool
		data string
		name string
	}
	var ps []part
	for _, b := range m.backups() {
		ps = append(ps, part{b.key, false, string(b.ino.Data), b.name})
	}
	for _, a := range m.archives() {
		n := strings.TrimSuffix(strings.TrimSuffix(a.name, ".gz"), ".zip")
		if _, key, ok := m.label(n); ok {
			for _, en := range a.ents {
				ps = append(ps, part{key, true, en.data, a.name})
			}
		}
	}
	sort.SliceStable(ps, func(i, j int) bool { return ps[i].key < ps[j].key })
	if c := m.e.s.FS.Get(m.cur()); c != nil {
		ps = append(ps, part{data: string(c.Data), name: rollName})
	}
	prev := -1
	pn := ""
	for _, p := range ps {
		for _, r := range m.e.recsIn(p.data, m.e.exp1) {
			if o := m.written[r]; o < prev {
				m.e.v("order", "record r%d in %s was written before a record of %s", r.ID, p.name, pn)
				return
			} else {
				prev = o
			}
		}
		pn = p.name
	}
}

// torn checks that the files hold whole records only.
func (m *rollM) torn() {
	fs := m.e.s.FS
	chk := func(name, d string) {
		m.e.lines(name, d, m.e.exp1)
	}
	for _, b := range m.backups() {
		chk(b.name, string(b.ino.Data))
	}
	if c := fs.Get(m.cur()); c != nil {
		chk(rollName, string(c.Data))
	}
	for _, a := range m.archives() {
		if !a.ok {
			m.e.v("torn", "archive %s cannot be read", a.name)
		}
		for _, en := range a.ents {
			chk(a.name, en.data)
		}
	}
}

func runRoll(e *E) {
	p := e.p
	s := e.s
	cfg := p.Cfgs[0]
	fs := s.FS
	fs.Umask = os.FileMode(e.pi("umask"))
	m := &rollM{e: e, dir: fs.Abs(p.S["dir"]), timeT: e.pi("time") == 1, prefix: e.pi("prefix") == 1, pattern: p.S["pattern"], limit: int64(e.pi("limit")),
		max: e.pi("max"), arch: p.S["arch"], async: e.pi("async") == 1, foreign: map[string]fstate{}, written: map[*Rec]int{}, wallAt: map[*Rec]int64{},
		retired: map[*Rec]bool{}, exempt: map[*Rec]bool{}, known: map[int]bool{}, rotSeq: map[int]int{}, faulted: map[int]bool{}, litter: map[string]bool{}, cache: map[[2]int][]entry{},
		fperm: os.FileMode(e.pi("fperm")), bperm: os.FileMode(e.pi("bperm")), dperm: os.FileMode(e.pi("dperm")), created: map[int]bool{}, lastLens: map[int]int64{}, badArch: map[string]bool{}}
	m.loc = loadZone(p.S["zone"])
	if m.timeT {
		s.SetLoc(m.loc)
		s.SetWall(time.Unix(int64(e.pi("wall")), int64(e.pi("wallms"))*int64(time.Millisecond)))
	}
	if d := p.S["real"]; d != "" {
		fs.PutDir(d)
		fs.PutLink(m.dir, d)
	}
	var fns []string
	for n := range p.Foreign {
		fns = append(fns, n)
	}
	sort.Strings(fns)
	for _, n := range fns {
		d := p.Foreign[n]
		if strings.HasPrefix(n, "lnk:") {
			l := path.Join(m.dir, n[4:])
			x := fs.PutLink(l, d)
			m.foreign[l] = fstate{"", x.Mode, true}
			if d == "/w/elsewhere/old" {
				fs.Put(d, []byte("other"), 0640)
				m.foreign[d] = fstate{"other", 0640, false}
			} else if d == "/w/elsewhere" {
				fs.PutDir(d)
			}
			continue
		}
		if strings.HasPrefix(n, "dir:") {
			x := fs.PutDir(path.Join(m.dir, n[4:]))
			fs.Put(path.Join(m.dir, n[4:], "keep"), []byte(d), 0640)
			m.foreign[path.Join(m.dir, n[4:])] = fstate{"", x.Mode, true}
			m.foreign[path.Join(m.dir, n[4:], "keep")] = fstate{d, 0640, false}
			continue
		}
		fs.Put(path.Join(m.dir, n), []byte(d), 0640)
		m.foreign[path.Join(m.dir, n)] = fstate{d, 0640, false}
	}
	var pre []string
	for _, l := range strings.Split(p.S["pre"], ",") {
		if l != "" {
			pre = append(pre, l)
		}
	}
	name := func(l string) string {
		if m.prefix {
			return l + "." + rollName
		}
		return rollName + "." + l
	}
	note := func(r *Rec) {
		r.X = map[string]string{"pre": "1"}
		r.Done, r.Started = true, true
		m.written[r] = len(m.wlist)
		m.wlist = append(m.wlist, r)
		m.wallAt[r] = s.Wall()
	}
	sort.SliceStable(pre, func(i, j int) bool { _, a, _ := m.label(name(pre[i])); _, b, _ := m.label(name(pre[j])); return a < b })
	for _, l := range pre {
		d := ""
		for k := 0; k < 2; k++ {
			r := e.rec(9, "root", api.Info, 3)
			note(r)
			d += e.exp1(r)
		}
		x := fs.Put(path.Join(m.dir, name(l)), []byte(d), 0500)
		m.known[x.Ino] = true
	}
	if n := int64(e.pi("precur")); n > 0 {
		r := e.rec(9, "root", api.Info, 0)
		d := e.exp1(r)
		if n >= int64(len(d)) {
			note(r)
			x := fs.Put(m.cur(), []byte(d), 0600)
			x.Virt = n - int64(len(d))
			m.known[x.Ino] = true
		}
	}
	fs.On = m.on
	for li, lf := range p.Lives {
		e.life = li
		if g := lf.P["gap"]; g > 0 {
			s.WaitUntil(time.Duration(g)*time.Second, func() bool { return false })
		} else if g < 0 {
			s.StepClock(time.Duration(g) * time.Second)
		}
		s.F = simrt.Faults{}
		fs.Cap = 0
		m.rolled, m.active, m.faults, m.recov = false, 0, false, 0
		if m.crashes {
			// leftovers of a crash may stay
			fs.Walk(m.dir, func(q string, n *simrt.Inode) { m.litter[q] = true })
		}
		if !e.boot() {
			return
		}
		cfg = m.change(cfg, lf)
		lg := map[string]api.Logger{}
		if !e.do("setup", func() {
			if err := mgr().SetConfig(cfg); err != nil {
				s.Internal("config: %v", err)
			}
			lg["root"], lg["a"] = get("root"), get("a")
		}) {
			return
		}
		e.pauses()
		if c := lf.P["crash"]; c > 0 {
			s.F.On, s.F.CrashOn = true, true
			s.F.CrashP = []float64{0.004, 0.02, 0.06}[c-1]
			m.crashes = true
		}
		if f := lf.P["faults"]; f > 0 {
			s.F.On = true
			s.F.P = map[string]float64{}
			s.F.Paths = m.dir
			s.F.Budget = -1
			s.F.ShortP = 0.5
			pr := []float64{0.05, 0.2, 0.6}[f-1]
			for i, op := range []string{"open", "create", "write", "read", "rename", "remove", "mkdir", "stat", "readdir", "chmod", "close", "sync", "truncate", "seek"} {
				if lf.P["fops"]>>uint(i)&1 == 1 && !(op == "remove" && e.is("C26")) {
					s.F.P[op] = pr
				}
			}
			m.faults, m.everF, m.recov = true, true, -1
		}
		if c := lf.P["cap"]; c > 0 {
			fs.Cap = fs.Used() + int64(c)
			m.faults, m.everF, m.recov = true, true, -1
		}
		if !m.life(li, lf.Tasks, lg) {
			if !e.proc.Crashed {
				return
			}
			m.crashes = true
			s.Probe("crash")
			fs.Cap = 0
			m.afterCrash()
			continue
		}
		s.F = simrt.Faults{}
		fs.Cap = 0
		after := lf.P["faults"] > 0 || lf.P["cap"] > 0
		r0, gone := 0, false
		if after {
			// the faults have stopped
			m.faults, m.recov, m.rolled = false, 0, false
			m.everF = false
			n := 8
			ops := []Op{}
			for i := 0; i < n; i++ {
				ops = append(ops, Op{K: "log", A: i % 2, B: i % 6, C: []int{5, 30, 60, 150}[i%4]})
				if m.timeT && i%3 == 2 {
					ops = append(ops, Op{K: "to", A: 1})
				}
			}
			r0, gone = len(e.recs), m.gone
			if !m.life(li, []TaskP{{ops}}, lg) {
				return
			}
		}
		if lf.P["close"] == 1 || m.async {
			if !e.do("close", func() { mgr().Close() }) {
				return
			}
		}
		if after {
			// with an asynchronous output, a rotation can be going on until
			// the manager is closed
			m.recovered(r0, gone)
		}
		m.quiet()
		m.endLife()
		e.proc.Kill()
		if s.Violated() {
			return
		}
	}
}

// change gives the configuration of a process which has another one than the process before.
func (m *rollM) change(cfg *api.Config, lf Life) *api.Config {
	cfg = copyConfig(cfg)
	o := cfg.Outputs[0]
	if n := lf.P["max"]; n > 0 {
		m.max, o["backups"] = n, itoa(n)
	}
	if n := lf.P["limit"]; n > 0 {
		m.limit, o["size"] = int64(n), itoa(n)
	}
	switch lf.P["arch"] {
	case 1:
		m.arch = ""
		delete(o, "archive")
	case 2:
		m.arch, o["archive"] = "zip", "zip"
	case 3:
		m.arch, o["archive"] = "gzip", "gzip"
	}
	return cfg
}

// life runs the tasks of one process; false when the process is over.
func (m *rollM) life(li int, tasks []TaskP, lg map[string]api.Logger) bool {
	e := m.e
	s := e.s
	fs := s.FS
	var ts []*simrt.Task
	for ti, tp := range tasks {
		ti, tp := ti, tp
		ts = append(ts, e.proc.Spawn(fmt.Sprintf("t%d", ti), func() {
			for _, op := range tp.Ops {
				switch op.K {
				case "sleep":
					sleepMs(op.A)
				case "step":
					m.steps = append(m.steps, s.Wall())
					s.StepClock(time.Duration(op.A) * time.Second)
					m.steps = append(m.steps, s.Wall())
				case "to":
					if m.timeT {
						sleepMs(int(m.toNext()/1e6) + op.A)
					}
				case "extdel":
					m.extdel(op)
				case "log":
					n := []string{"root", "a"}[op.A]
					r := e.rec(ti, n, lvls[op.B], op.C)
					m.active++
					f0 := fs.FaultSeq
					e.call(lg[n], r, op.D)
					r.Exempt = fs.FaultSeq != f0
					m.active--
					if m.async {
						continue
					}
					if _, ok := m.written[r]; !ok && !m.exempt[r] {
						if !m.faults && m.recov >= 0 && !m.gone && e.is("C13", "C17", "C18", "C19") {
							e.v("unwritten", "record r%d is not stored when its logging call returns", r.ID)
						}
					}
					if m.active == 0 {
						m.extKeys = nil
						m.quiet()
					}
				}
			}
		}))
	}
	if !e.await(80*365*24*time.Hour, ts...) {
		return false
	}
	if m.async {
		e.s.WaitUntil(12*time.Second, func() bool { return false })
		if e.checkProc() {
			return false
		}
	}
	return true
}

// toNext is the time to the next period.
func (m *rollM) toNext() int64 {
	now := m.e.s.Wall()
	l := m.lab(now)
	lo, hi := int64(0), int64(time.Second)
	for m.lab(now+hi) == l && hi < int64(40*24*time.Hour) {
		lo, hi = hi, hi*2
	}
	for hi-lo > int64(time.Millisecond) {
		mid := (lo + hi) / 2
		if m.lab(now+mid) == l {
			lo = mid
		} else {
			hi = mid
		}
	}
	return hi
}

// extdel removes files from outside.
func (m *rollM) extdel(op Op) {
	e := m.e
	ex := func(n *simrt.Inode) {
		for _, r := range e.recsIn(string(n.Data), e.exp1) {
			m.exempt[r] = true
		}
	}
	e.s.Hit("external-removal")
	switch op.A {
	case 0: // the current file
		if n := e.s.FS.Get(m.cur()); n != nil {
			ex(n)
			e.s.FS.Del(m.cur())
			m.gone = true
		}
	case 1, 2: // a backup
		if bs := m.backups(); len(bs) > 0 {
			b := bs[op.B%len(bs)]
			ex(b.ino)
			m.extKeys = append(m.extKeys, b.key)
			e.s.FS.Del(path.Join(m.dir, b.name))
		}
	case 3, 4: // everything of the log, or its directory
		for _, b := range m.backups() {
			ex(b.ino)
			m.extKeys = append(m.extKeys, b.key)
			e.s.FS.Del(path.Join(m.dir, b.name))
		}
		if n := e.s.FS.Get(m.cur()); n != nil {
			ex(n)
			e.s.FS.Del(m.cur())
			m.gone = true
		}
		if op.A == 4 && len(m.foreign) == 0 && m.arch == "" && e.p.S["arch"] == "" && e.p.S["dir"] != "." {
			e.s.FS.Del(m.dir)
		}
	}
	if m.active == 0 {
		m.extKeys = nil
	}
	m.faults, m.everF, m.recov = true, true, -1
}

func (m *rollM) afterCrash() {
	e := m.e
	m.litter = map[string]bool{}
	m.foreignOKFor("C18")
	if !e.is("C18", "C20") {
		return
	}
	m.conserve("the crash")
	if e.is("C18") && !e.s.Violated() {
		for _, r := range e.recs {
			if r.Done {
				if _, ok := m.written[r]; !ok {
					e.v("unwritten", "record r%d had returned before the crash and is not stored", r.ID)
				}
			}
		}
	}
}

func (m *rollM) foreignOKFor(p string) {
	if m.e.is(p) {
		m.foreignOK()
	}
}

// recovered checks the records logged after the faults stopped.
func (m *rollM) recovered(r0 int, gone bool) {
	e := m.e
	if !e.is("C19", "C20") {
		return
	}
	m.conserve("the faults stopped")
	if e.is("C19") && !m.async {
		for _, r := range e.recs[r0:] {
			if _, ok := m.written[r]; !ok && !m.exempt[r] {
				e.v("unwritten", "record r%d, logged after the faults stopped, is not stored", r.ID)
			}
		}
	}
	if !m.rolled && !m.timeT && m.limit <= 400 && !gone {
		e.vp("C19", "norotation", "no rotation after the faults stopped")
	}
	if m.rolled && len(m.backups()) > m.max {
		e.vp("C19", "retention", "%d backups after a rotation with limit %d once the faults stopped", len(m.backups()), m.max)
		e.vp("C20", "retention", "%d backups after a rotation with limit %d once the faults stopped", len(m.backups()), m.max)
	}
}

// endLife checks the files at the end of a process.
func (m *rollM) endLife() {
	e := m.e
	if e.s.Violated() {
		return
	}
	switch e.prop {
	case "C13":
		m.conserve("the last call")
		m.torn()
		m.inOrder()
		for _, r := range e.recs {
			if _, ok := m.written[r]; !ok && r.Done {
				e.v("unwritten", "record r%d is not stored", r.ID)
			}
		}
	case "C14":
		m.foreignOK()
		m.quiet()
	case "C16":
		m.periods()
	case "C17":
		m.conserve("the last call")
	case "C18", "C19":
		m.conserve("the last call")
		m.foreignOK()
	case "C20":
		m.conserve("the last call")
		for _, a := range m.archives() {
			if !a.ok {
				e.v("incomplete", "archive %s cannot be read", a.name)
			}
		}
	}
}
