package harness

import (
	"archive/tar"
	"archive/zip"
	"bytes"
	"compress/gzip"
	"fmt"
	"io"
	"os"
	"path"
	"sort"
	"strings"
	"time"

	"github.com/xtfly/log4g/api"
	"github.com/xtfly/log4g/internal"
	"github.com/xtfly/log4g/zzsim/simrt"
)

// Cumulative archives: C21. No configuration leads to this mode, an in-package driver sets it up.

// DriverMissing reports that the in-package driver did not build with the tree.
func DriverMissing() bool { return !internal.ZZDriver }

func init() {
	kinds["cum"] = kind{genCum, runCum}
	kinds["acopy"] = kind{genACopy, runACopy}
	propKinds["C21"] = []string{"cum", "cum", "acopy"}
}

const cumLayout = "%{msg}\n"

func genCum(prop string, r *simrt.RNG, p *Prog) {
	timeT := r.Intn(4) == 0
	p.P["time"] = b2i(timeT)
	p.P["prefix"] = r.Intn(2)
	p.P["max"] = r.Pick(1, 1, 2, 3)
	p.P["zip"] = r.Intn(2)
	p.P["limit"] = r.Pick(20, 40, 60, 200)
	p.S["dir"] = r.PickS("log", "log", "a/b", ".")
	p.S["arch"] = r.PickS("arch/all", "log/all", "old/x/all", "all")
	// what is there already
	p.P["pre"] = r.Pick(0, 0, 1, 2, 4) // entries of an archive
	p.P["preseed"] = r.Intn(1000)
	if p.P["pre"] > 0 && r.Intn(8) == 0 {
		p.P["damage"] = 1 + r.Intn(40)
	}
	p.P["preb"] = r.Pick(0, 0, 0, 1, 3) // backups
	nl := r.Range(1, 3)
	for i := 0; i < nl; i++ {
		lf := Life{P: map[string]int{}}
		lf.Tasks = genTasks(r, r.Pick(1, 1, 2), 3, 9, func(t, i int) Op {
			if timeT && r.Intn(3) == 0 {
				return Op{K: "sleep", A: r.Pick(1000, 500, 3000)}
			}
			return Op{K: "log", C: r.Pick(0, 5, 30, 60, 150, 150, 3000)}
		})
		switch r.Intn(4) {
		case 0:
			if i+1 < nl {
				lf.P["crash"] = 1 + r.Intn(3)
			}
		case 1:
			lf.P["faults"] = 1 + r.Intn(4)
			lf.P["fops"] = r.Intn(1 << 14)
			if r.Bool(0.5) {
				lf.P["fops"] = 1 << uint(r.Intn(14))
			}
			if r.Intn(4) == 0 {
				lf.P["fops"] = 1 << 3 // reads only
			}
			if r.Intn(5) == 0 {
				lf.P["cap"] = r.Pick(100, 1000, 5000)
			}
		}
		p.Lives = append(p.Lives, lf)
	}
}

// makeArchive makes an archive with the standard library.
func makeArchive(ext string, es []entry) []byte {
	var b bytes.Buffer
	at := time.Unix(1600000000, 0)
	switch ext {
	case "zip":
		w := zip.NewWriter(&b)
		for i, x := range es {
			h := &zip.FileHeader{Name: x.name, Method: []uint16{zip.Deflate, zip.Store}[i%2]}
			h.SetMode(0500)
			if i%3 > 0 {
				h.Modified = at
			}
			f, _ := w.CreateHeader(h)
			f.Write([]byte(x.data))
		}
		w.Close()
	case "gz":
		w := gzip.NewWriter(&b)
		for _, x := range es {
			w.Write([]byte(x.data))
		}
		w.Close()
	default:
		var z io.Writer = &b
		g := gzip.NewWriter(&b)
		if ext == "targz" {
			z = g
		}
		w := tar.NewWriter(z)
		for _, x := range es {
			w.WriteHeader(&tar.Header{Name: x.name, Typeflag: tar.TypeReg, Mode: 0500, Size: int64(len(x.data)), ModTime: at})
			w.Write([]byte(x.data))
		}
		w.Close()
		if ext == "targz" {
			g.Close()
		}
	}
	return b.Bytes()
}

// readArchive is the inverse.
func readArchive(ext, name string, data []byte) ([]entry, error) {
	es := []entry{}
	switch ext {
	case "zip":
		zr, err := zip.NewReader(bytes.NewReader(data), int64(len(data)))
		if err != nil {
			return nil, err
		}
		for _, f := range zr.File {
			rc, err := f.Open()
			if err != nil {
				return nil, err
			}
			b, err := io.ReadAll(rc)
			if err != nil {
				return nil, err
			}
			es = append(es, entry{f.Name, string(b)})
		}
		return es, nil
	case "targz", "gz":
		gr, err := gzip.NewReader(bytes.NewReader(data))
		if err != nil {
			return nil, err
		}
		if data, err = io.ReadAll(gr); err != nil {
			return nil, err
		}
		if ext == "gz" {
			return append(es, entry{name, string(data)}), nil
		}
	}
	tr := tar.NewReader(bytes.NewReader(data))
	for {
		h, err := tr.Next()
		if err == io.EOF {
			return es, nil
		}
		if err != nil {
			return nil, err
		}
		b, err := io.ReadAll(tr)
		if err != nil {
			return nil, err
		}
		es = append(es, entry{h.Name, string(b)})
	}
}

func someEntries(r *simrt.RNG, n int) []entry {
	var es []entry
	for i := 0; i < n; i++ {
		nm := fmt.Sprintf("%s%d.%s", r.PickS("", "log/", "/w/log/", strings.Repeat("long", 40)+"/"), i, r.PickS("log", "x"))
		sz := r.Pick(0, 1, 10, 100, 511, 512, 513, 3000, 33000)
		b := make([]byte, sz)
		for j := range b {
			b[j] = byte(r.Intn(256))
			if i%2 == 0 {
				b[j] = byte('a' + i)
			}
		}
		es = append(es, entry{nm, string(b)})
	}
	if n > 1 && r.Intn(4) == 0 {
		// archives may hold several entries of one name
		es[n-1].name = es[r.Intn(n-1)].name
	}
	return es
}

type cumM struct {
	*rollM
	apath  string
	ext    string
	last   []entry // of the last archive that was complete
	lastOK bool
	broken bool // the archive was damaged from the start
	lastI  *simrt.Inode
	lastN  int
	dirty  bool // faults or crashes so far: entries may repeat
	torn   bool // the record being written may be cut
	nrot   int
}

// look checks the archive after an operation.
func (m *cumM) look(at string) {
	e := m.e
	if e.is("C26") {
		return
	}
	n := e.s.FS.Get(m.apath)
	if n == nil {
		if m.lastI != nil {
			e.v("gone", "after %s: the archive is gone", at)
		}
		return
	}
	if n == m.lastI && len(n.Data) == m.lastN {
		return
	}
	m.lastI, m.lastN = n, len(n.Data)
	es, err := readArchive(m.ext, "", n.Data)
	if err != nil {
		if m.broken && !m.lastOK {
			return
		}
		e.v("incomplete", "after %s: the archive cannot be read: %v", at, err)
		return
	}
	if m.broken {
		// a damaged archive that could be read after all
		m.broken, m.last, m.lastOK = false, es, true
		return
	}
	// every earlier entry
	have := map[entry]int{}
	for _, x := range es {
		have[x]++
	}
	for _, x := range m.last {
		have[x]--
		if have[x] < 0 {
			e.v("entry", "after %s: entry %s (%d bytes) of the archive is gone or changed; entries: %s", at, x.name, len(x.data), names(es))
			return
		}
	}
	// the others are backups
	for x, k := range have {
		if k <= 0 {
			continue
		}
		ok := false
		for _, b := range m.backups() {
			ok = ok || (path.Base(x.name) == b.name && string(b.ino.Data) == x.data)
		}
		if !ok {
			e.v("alien", "after %s: the archive has a new entry %s (%d bytes) that is no backup", at, x.name, len(x.data))
			return
		}
		if k > 1 {
			e.v("twice", "after %s: the archive got entry %s %d times", at, x.name, k)
			return
		}
		for _, y := range m.last {
			if !m.dirty && y == x {
				e.v("twice", "after %s: the archive got entry %s again", at, x.name)
				return
			}
		}
		e.s.Probe("entry-added")
	}
	m.last, m.lastOK = es, true
}

func names(es []entry) string {
	var l []string
	for _, x := range es {
		l = append(l, fmt.Sprintf("%s(%d)", clip(x.name), len(x.data)))
	}
	return strings.Join(l, " ")
}

func (m *cumM) on(ev *simrt.Event) {
	e := m.e
	if ev.Proc == nil || e.s.Violated() {
		return
	}
	if ev.Err != nil && ev.Op != "write" {
		return
	}
	at := ev.Op + " " + ev.Path
	switch ev.Op {
	case "write":
		if ev.Path == m.cur() && ev.N > 0 {
			for _, r := range e.recsIn(string(ev.Data[:ev.N]), e.exp1) {
				if _, ok := m.written[r]; !ok {
					m.written[r] = len(m.wlist)
					m.wlist = append(m.wlist, r)
				}
			}
		}
		if ev.Ino != nil && ev.Ino == e.s.FS.Get(m.apath) {
			m.look(at)
		}
		return
	case "remove", "truncate":
	case "rename":
		if ev.Path == m.cur() {
			m.rolled = true
			m.nrot++
			e.s.Probe("rotation")
		}
	default:
		return
	}
	if e.is("C26") {
		return
	}
	m.look(at)
	if ev.Op != "truncate" && ev.Ino != nil && !ev.Ino.Mode.IsDir() {
		gone := ev.Op == "remove"
		if ev.Op == "rename" {
			_, _, to := m.backupPath(ev.To)
			gone = !to
		}
		if _, _, ok := m.backupPath(ev.Path); ok && gone {
			found := false
			for _, x := range m.last {
				found = found || (path.Base(x.name) == path.Base(ev.Path) && x.data == string(ev.Ino.Data))
			}
			if !found {
				e.v("uncaptured", "%s of backup %s (%d bytes), which is not in the archive", ev.Op, ev.Path, ev.Ino.Size())
			}
		}
	}
	// nothing is lost
	var all strings.Builder
	for _, b := range m.backups() {
		all.Write(b.ino.Data)
	}
	if c := e.s.FS.Get(m.cur()); c != nil {
		all.Write(c.Data)
	}
	for _, x := range m.last {
		all.WriteString(x.data)
	}
	have := map[*Rec]bool{}
	for _, r := range e.recsIn(all.String(), e.exp1) {
		have[r] = true
	}
	for _, r := range m.wlist {
		if !have[r] {
			e.v("lost", "after %s: record r%d is stored nowhere any more", at, r.ID)
			return
		}
	}
}

// tidy: between calls at most the log file is open, and no temporary file is left (C26).
func (m *cumM) tidy() {
	e := m.e
	for _, f := range e.proc.OpenFDs() {
		if f != m.cur() && (strings.HasPrefix(f, "/w") || strings.HasPrefix(f, "/tmp")) {
			e.v("fds", "%s is open between calls", f)
			return
		}
	}
	for _, root := range []string{"/w", "/tmp"} {
		e.s.FS.Walk(root, func(p string, n *simrt.Inode) {
			if _, _, ok := m.backupPath(p); ok || n.Mode.IsDir() || m.litter[p] || p == m.cur() || p == m.apath {
				return
			}
			m.litter[p] = true
			e.v("temp", "file %s is left behind", p)
		})
	}
}

func (m *cumM) quiet() {
	e := m.e
	if m.active > 0 || e.proc.Over() {
		return
	}
	if e.is("C26") {
		m.tidy()
		return
	}
	if m.rolled && !m.faults && !m.broken && len(m.backups()) > m.max {
		e.v("retention", "%d backups after a rotation with limit %d", len(m.backups()), m.max)
	}
}

func runCum(e *E) {
	p, s := e.p, e.s
	fs := s.FS
	ext := map[int]string{0: "targz", 1: "zip"}[e.pi("zip")]
	m := &cumM{rollM: &rollM{e: e, dir: fs.Abs(p.S["dir"]), timeT: e.pi("time") == 1, prefix: e.pi("prefix") == 1, pattern: "20060102150405",
		max: e.pi("max"), foreign: map[string]fstate{}, written: map[*Rec]int{}, litter: map[string]bool{}}, ext: ext}
	m.loc = loadZone("UTC")
	apath := p.S["arch"] + "." + map[int]string{0: "tar.gz", 1: "zip"}[e.pi("zip")]
	m.apath = fs.Abs(apath)
	s.SetLoc(m.loc)
	r := simrt.NewRNG(uint64(e.pi("preseed")))
	if k := e.pi("pre"); k > 0 {
		old := someEntries(r, k)
		if r.Intn(4) == 0 {
			// named as the first backup will be, the numbers began anew
			l := "1"
			if m.timeT {
				l = "20210101000000"
			}
			b := rollName + "." + l
			if m.prefix {
				b = l + "." + rollName
			}
			old[0].name = path.Join(r.PickS("", p.S["dir"], m.dir), b)
		}
		d := makeArchive(ext, old)
		if c := e.pi("damage"); c > 0 {
			d = d[:len(d)-1-(len(d)*c/50)%len(d)]
		}
		fs.Put(m.apath, d, 0600)
		m.lastI, m.lastN = fs.Get(m.apath), len(d)
		es, err := readArchive(ext, "", d)
		m.last, m.lastOK, m.broken = es, err == nil, err != nil
	}
	for i := 1; i <= e.pi("preb"); i++ {
		l := itoa(i + 6)
		if m.timeT {
			l = fmt.Sprintf("202001020304%02d", i)
		}
		n := rollName + "." + l
		if m.prefix {
			n = l + "." + rollName
		}
		r := e.rec(9, "root", api.Info, 3)
		r.Done = true
		m.wlist = append(m.wlist, r)
		m.written[r] = i
		fs.Put(path.Join(m.dir, n), []byte(e.exp1(r)), 0500)
	}
	file := path.Join(p.S["dir"], rollName)
	cfg := &api.Config{
		Formats: []api.CfgFormat{{"type": "text", "name": "f1", "layout": strings.TrimSuffix(lay1, "\n") + e.tail()}},
		Outputs: []api.CfgOutput{{"type": "cum", "name": "r", "format": "f1"}},
		Loggers: []api.CfgLogger{{Name: "root", Level: "all", OutputNames: []string{"r"}}},
	}
	fs.On = m.on
	for li, lf := range p.Lives {
		e.life = li
		s.F = simrt.Faults{}
		fs.Cap = 0
		m.rolled, m.active, m.faults = false, 0, false
		if li > 0 && p.Lives[li-1].P["crash"] > 0 {
			// leftovers of a crash may stay
			for _, root := range []string{"/w", "/tmp"} {
				fs.Walk(root, func(q string, n *simrt.Inode) { m.litter[q] = true })
			}
		}
		if !e.boot() {
			return
		}
		var lg api.Logger
		if !e.do("setup", func() {
			mgr().RegisterOutputCreator("cum", func(c api.CfgOutput) (api.Output, error) {
				return internal.ZZCum(file, apath, m.timeT, m.ext == "zip", int64(e.pi("limit")), m.max, m.prefix, m.pattern), nil
			})
			if err := mgr().SetConfig(cfg); err != nil {
				s.Internal("config: %v", err)
			}
			lg = get("root")
		}) {
			return
		}
		if c := lf.P["crash"]; c > 0 {
			s.F.On, s.F.CrashOn = true, true
			s.F.CrashP = []float64{0.004, 0.02, 0.06}[c-1]
			m.dirty = true
		}
		if f := lf.P["faults"]; f > 0 {
			s.F.On = true
			s.F.P = map[string]float64{}
			s.F.Paths = "/w"
			s.F.Budget = -1
			s.F.ShortP = 0.5
			pr := []float64{0.02, 0.05, 0.2, 0.6}[f-1]
			for i, op := range []string{"open", "create", "write", "read", "rename", "remove", "mkdir", "stat", "readdir", "chmod", "close", "sync", "truncate", "seek"} {
				if lf.P["fops"]>>uint(i)&1 == 1 && !(op == "remove" && e.is("C26")) {
					s.F.P[op] = pr
				}
			}
			m.faults, m.dirty = true, true
		}
		if c := lf.P["cap"]; c > 0 {
			fs.Cap = fs.Used() + int64(c)
			m.faults, m.dirty = true, true
		}
		if !m.life(li, lf.Tasks, lg) {
			if !e.proc.Crashed {
				return
			}
			s.Probe("crash")
			fs.Cap = 0
			continue
		}
		if m.faults {
			// the faults have stopped
			s.F = simrt.Faults{}
			fs.Cap = 0
			m.faults, m.rolled = false, false
			ops := []Op{}
			for i := 0; i < 6; i++ {
				ops = append(ops, Op{K: "log", C: []int{60, 200}[i%2]})
				if m.timeT {
					ops = append(ops, Op{K: "sleep", A: 1000})
				}
			}
			n := m.nrot
			if !m.life(li, []TaskP{{ops}}, lg) {
				return
			}
			if m.nrot == n && !s.Violated() && !e.is("C26") {
				e.v("norotation", "no rotation after the faults stopped")
			}
		}
		m.look("the last call")
		e.proc.Kill()
		if s.Violated() {
			return
		}
	}
}

func (m *cumM) life(li int, tasks []TaskP, lg api.Logger) bool {
	e := m.e
	var ts []*simrt.Task
	for ti, tp := range tasks {
		ti, tp := ti, tp
		ts = append(ts, e.proc.Spawn(fmt.Sprintf("t%d", ti), func() {
			for _, op := range tp.Ops {
				switch op.K {
				case "sleep":
					sleepMs(op.A)
				case "log":
					r := e.rec(ti, "root", api.Info, op.C)
					m.active++
					e.call(lg, r, 0)
					m.active--
					if m.active == 0 {
						m.quiet()
					}
				}
			}
		}))
	}
	return e.await(time.Hour, ts...)
}

// ---- copies between archives

func genACopy(prop string, r *simrt.RNG, p *Prog) {
	p.S["from"] = r.PickS("tar", "targz", "gz", "zip")
	p.S["to"] = r.PickS("tar", "targz", "gz", "zip")
	if r.Intn(3) == 0 {
		p.S["to"] = p.S["from"]
	}
	p.P["n"] = r.Pick(0, 1, 1, 2, 3, 6)
	if p.S["from"] == "gz" {
		p.P["n"] = 1
	}
	p.P["preseed"] = r.Intn(100000)
	if r.Intn(2) == 0 {
		p.P["faults"] = 1 + r.Intn(4)
		p.P["fops"] = r.Intn(1 << 14)
		if r.Bool(0.6) {
			p.P["fops"] = 1 << uint(r.Intn(14))
		}
		if r.Intn(5) == 0 {
			p.P["cap"] = r.Pick(100, 1000, 40000)
		}
	}
	if r.Intn(6) == 0 {
		p.P["damage"] = 1 + r.Intn(40)
	}
	p.Lives = []Life{{Tasks: []TaskP{{Ops: []Op{{K: "copy"}}}}}}
}

func runACopy(e *E) {
	p, s := e.p, e.s
	fs := s.FS
	from, to := p.S["from"], p.S["to"]
	es := someEntries(simrt.NewRNG(uint64(e.pi("preseed"))), e.pi("n"))
	d := makeArchive(from, es)
	if c := e.pi("damage"); c > 0 {
		d = d[:len(d)-1-(len(d)*c/50)%len(d)]
	}
	if from == "gz" {
		es[0].name = "one.log"
	}
	want, werr := readArchive(from, "one.log", d)
	if e.pi("damage") == 0 && (werr != nil || fmt.Sprint(want) != fmt.Sprint(es)) {
		s.Internal("archive made for the test differs: %v", werr)
		return
	}
	fs.Put("/w/src", d, 0600)
	if !e.boot() {
		return
	}
	fs.PutDir("/tmp")
	var err error
	if !e.do("copy", func() {
		src, oerr := simrt.OpenFile("/w/src", os.O_RDONLY, 0)
		dst, derr := simrt.OpenFile("/w/dst", os.O_WRONLY|os.O_CREATE, 0600)
		if oerr != nil || derr != nil {
			s.Internal("open: %v %v", oerr, derr)
			return
		}
		if f := p.P["faults"]; f > 0 {
			s.F.On = true
			s.F.P = map[string]float64{}
			s.F.Budget = -1
			s.F.ShortP = 0.5
			pr := []float64{0.02, 0.05, 0.2, 0.6}[f-1]
			for i, op := range []string{"open", "create", "write", "read", "rename", "remove", "mkdir", "stat", "readdir", "chmod", "close", "sync", "truncate", "seek"} {
				if p.P["fops"]>>uint(i)&1 == 1 {
					s.F.P[op] = pr
				}
			}
			if c := p.P["cap"]; c > 0 {
				fs.Cap = fs.Used() + int64(c)
			}
		}
		err = internal.ZZCopy(from, to, "one.log", src, int64(len(d)), dst)
		s.F = simrt.Faults{}
		fs.Cap = 0
		src.Close()
		dst.Close()
	}) {
		return
	}
	if n := fs.Get("/w/src"); n == nil || string(n.Data) != string(d) {
		e.v("source", "the archive copied from was changed")
		return
	}
	if err != nil {
		s.Probe("copy-refused")
		if p.P["faults"] == 0 && werr == nil && !(to == "gz" && len(want) != 1) {
			e.v("refused", "copying %d entries from %s to %s failed: %v", len(want), from, to, err)
		}
		return
	}
	s.Probe("copied")
	if to == "gz" && len(want) > 1 {
		e.v("accepted", "copying %d entries into a single-file archive reported no error", len(want))
		return
	}
	n := fs.Get("/w/dst")
	var data []byte
	if n != nil {
		data = n.Data
	}
	got, gerr := readArchive(to, "one.log", data)
	if gerr != nil {
		e.v("incomplete", "copy from %s to %s reported no error, the copy cannot be read: %v", from, to, gerr)
		return
	}
	if werr != nil {
		// damaged behind the last entry, perhaps
		want = es
	}
	if to == "gz" {
		if len(want) == 1 {
			want[0].name = "one.log"
		} else {
			return
		}
	}
	for _, es := range [][]entry{got, want} {
		es := es
		sort.Slice(es, func(i, j int) bool {
			return es[i].name < es[j].name || es[i].name == es[j].name && es[i].data < es[j].data
		})
	}
	for i := 0; i < len(got) || i < len(want); i++ {
		if i >= len(got) || i >= len(want) || got[i] != want[i] {
			e.v("entry", "copy from %s to %s: entries %s, expected %s", from, to, names(got), names(want))
			return
		}
	}
}
