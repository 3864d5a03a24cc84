package simrt

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"
)

// Inode of the simulated file system.
type Inode struct {
	Ino   int
	Mode  os.FileMode // with os.ModeDir for directories
	Data  []byte
	Kids  map[string]*Inode
	MTime int64 // wall clock
	Links int
	Virt  int64  // bytes before Data that are only counted, never read
	To    string // target of a symbolic link
}

// Size in bytes.
func (n *Inode) Size() int64 { return n.Virt + int64(len(n.Data)) }

// FDesc is an open file description.
type FDesc struct {
	ino    *Inode
	name   string // as given
	abs    string
	off    int64
	flag   int
	closed bool
	proc   *Proc
	std    *Stream
	dirPos []fs.DirEntry
	dirSet bool
}

// Stream is a simulated standard stream.
type Stream struct {
	Name    string
	Buf     []byte
	Writes  []int // end offset of each write
	Stalled bool
	Arr     []Arrival // arrival times
	FailP   float64   // probability that a write fails (fault stream)
	FailAll bool      // every write fails (after FailKeep bytes)
	Fails   int
	Lost    [][]byte // payloads of failed writes
	MaxPend int
	N       int // write calls
	On      func(b []byte)
}

// Arrival of bytes at a stream or file.
type Arrival struct {
	End int
	At  int64 // monotonic time
	Seq int
}

// Event is one completed (or failed) file system operation.
type Event struct {
	Op      string
	Path    string
	To      string
	Err     error
	Pre     int64 // size before a write
	N       int
	Ino     *Inode
	Mode    os.FileMode
	Replace *Inode // inode displaced by a rename or removed
	Data    []byte // bytes written
	Proc    *Proc
	Task    *Task
	Fault   bool
}

// FS is the simulated file system.
type FS struct {
	s       *Sim
	Root    *Inode
	nextIno int
	Umask   os.FileMode
	Cwd     string
	Cap     int64 // total bytes, 0: unlimited
	Stdout  *Stream
	Stderr  *Stream
	On      func(ev *Event)
	Ops     int
	tmpSeq  int
	// Forced: operations that must fail while set: op -> path substring.
	Forced map[string]string
	// StallPath: writes to paths with this prefix wait while it is set.
	StallPath string
	FaultSeq  int
}

func newFS(s *Sim) *FS {
	f := &FS{s: s, Umask: 022, Cwd: "/w", Stdout: &Stream{Name: "stdout"}, Stderr: &Stream{Name: "stderr"}}
	f.Root = f.mk(os.ModeDir | 0755)
	f.Root.Kids["w"] = f.mk(os.ModeDir | 0755)
	f.Root.Kids["tmp"] = f.mk(os.ModeDir | 0777)
	return f
}

func (f *FS) mk(mode os.FileMode) *Inode {
	f.nextIno++
	n := &Inode{Ino: f.nextIno, Mode: mode, Links: 1, MTime: f.s.Wall()}
	if mode.IsDir() {
		n.Kids = map[string]*Inode{}
	}
	return n
}

// Abs resolves a path against the working directory.
func (f *FS) Abs(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = f.Cwd + "/" + p
	}
	return path.Clean(p)
}

// walk finds an inode, following symbolic links.
func (f *FS) walk(p string) (*Inode, error) {
	n, _, err := f.find(f.Abs(p), true, 0)
	return n, err
}

// lwalk does not follow the last component.
func (f *FS) lwalk(p string) (*Inode, error) {
	n, _, err := f.find(f.Abs(p), false, 0)
	return n, err
}

// find returns the inode at a clean absolute path, and the path without
// symbolic links; when only the last component is missing, the path it would have.
func (f *FS) find(p string, follow bool, depth int) (*Inode, string, error) {
	n := f.Root
	if p == "/" {
		return n, p, nil
	}
	for i := 0; i < len(p); { // p[:i] is the directory n
		e := strings.IndexByte(p[i+1:], '/')
		if e < 0 {
			e = len(p)
		} else {
			e += i + 1
		}
		c := p[i+1 : e]
		if !n.Mode.IsDir() {
			return nil, "", syscall.ENOTDIR
		}
		if len(c) > 255 {
			return nil, "", syscall.ENAMETOOLONG
		}
		k, ok := n.Kids[c]
		if !ok {
			if e == len(p) {
				return nil, p, syscall.ENOENT
			}
			return nil, "", syscall.ENOENT
		}
		if k.Mode&os.ModeSymlink != 0 && (follow || e < len(p)) {
			if depth >= 40 {
				return nil, "", syscall.ELOOP
			}
			t := k.To
			if !strings.HasPrefix(t, "/") {
				t = p[:i] + "/" + t
			}
			return f.find(path.Clean(t+p[e:]), follow, depth+1)
		}
		n, i = k, e
	}
	return n, p, nil
}

func (f *FS) parent(p string) (*Inode, string, error) {
	p = f.Abs(p)
	d, b := path.Split(p)
	if b == "" {
		return nil, "", syscall.EEXIST
	}
	n, err := f.walk(d)
	if err != nil {
		return nil, "", err
	}
	if !n.Mode.IsDir() {
		return nil, "", syscall.ENOTDIR
	}
	return n, b, nil
}

func (f *FS) used() int64 {
	var t int64
	seen := map[*Inode]bool{}
	var rec func(n *Inode)
	rec = func(n *Inode) {
		if seen[n] {
			return
		}
		seen[n] = true
		t += int64(len(n.Data))
		for _, k := range n.Kids {
			rec(k)
		}
	}
	rec(f.Root)
	return t
}

// Used bytes.
func (f *FS) Used() int64 { return f.used() }

// fault codes (values of the fault stream at a file system operation)
const (
	fcNone = iota
	fcCrashBefore
	fcCrashAfter
	fcStall
	fcErr0 // first error kind of the operation
	fcErr1
	fcErr2
	fcShort    // fcShort+k: write k/16 of the data, then fail
	fcShortMax = fcShort + 15
	fcTorn     = fcShortMax + 1 // fcTorn+k: write k/16 of the data, then crash
	fcTornMax  = fcTorn + 15
)

var errsOf = map[string][]error{
	"open":     {syscall.EMFILE, syscall.EIO, syscall.EACCES},
	"create":   {syscall.ENOSPC, syscall.EMFILE, syscall.EIO},
	"write":    {syscall.ENOSPC, syscall.EIO, syscall.EDQUOT},
	"read":     {syscall.EIO},
	"rename":   {syscall.EACCES, syscall.EIO, syscall.ENOSPC},
	"remove":   {syscall.EACCES, syscall.EIO, syscall.EBUSY},
	"mkdir":    {syscall.ENOSPC, syscall.EACCES, syscall.EIO},
	"stat":     {syscall.EIO},
	"readdir":  {syscall.EIO},
	"chmod":    {syscall.EPERM, syscall.EIO},
	"close":    {syscall.EIO, syscall.ENOSPC},
	"sync":     {syscall.EIO},
	"truncate": {syscall.EIO, syscall.ENOSPC},
	"seek":     {syscall.EIO},
}

// begin is the entry of every operation: yield, then maybe a fault.
// It returns the injected error and, for writes, how many bytes still go through.
func (f *FS) begin(op, p string, n int) (code int, err error) {
	s := f.s
	if s.cur == nil {
		return 0, syscall.ENOSYS
	}
	s.yield(-10, true)
	f.Ops++
	t := s.cur
	if t.proc == nil {
		return 0, nil // harness access: never faulted
	}
	if f.Forced != nil {
		if sub, ok := f.Forced[op]; ok && strings.Contains(p, sub) {
			s.Hit("forced-" + op)
			f.FaultSeq++
			return fcErr0, errsOf[op][0]
		}
	}
	fl := &s.F
	if !fl.On {
		return 0, nil
	}
	if fl.Paths != "" && !strings.Contains(p, fl.Paths) {
		return 0, nil
	}
	errs := errsOf[op]
	v := s.choose(StFault, fcTornMax+1, func(r *RNG) int {
		if fl.CrashOn && r.Bool(fl.CrashP) {
			if op == "write" && n > 1 && r.Bool(0.5) {
				return fcTorn + r.Intn(16)
			}
			return fcCrashBefore + r.Intn(2)
		}
		if fl.P != nil && fl.Budget != 0 && r.Bool(fl.P[op]) && len(errs) > 0 {
			if (op == "write" || op == "read") && n > 1 && r.Bool(fl.ShortP) {
				return fcShort + r.Intn(16)
			}
			return fcErr0 + r.Intn(len(errs))
		}
		if fl.StallP > 0 && r.Bool(fl.StallP) {
			return fcStall
		}
		return 0
	})
	switch {
	case v == fcNone:
		return 0, nil
	case v == fcCrashBefore && fl.CrashOn:
		s.Hit("crash-before-" + op)
		fl.CrashOn = false
		s.Crash("before " + op + " " + p)
	case v == fcCrashAfter && fl.CrashOn:
		fl.CrashOn = false
		return v, nil
	case v >= fcTorn && v <= fcTornMax && fl.CrashOn && op == "write":
		fl.CrashOn = false
		return v, nil
	case v == fcStall && fl.StallP > 0:
		s.Hit("stall-" + op)
		d := time.Duration(1+f.Ops%7) * fl.StallMax / 7
		s.Logf("stall %s %s %v", op, p, d)
		done := false
		s.addTimer(t.proc, int64(d), func() { done = true })
		s.block("stall", func() bool { return done })
		return 0, nil
	case v >= fcErr0 && v <= fcErr2 && v-fcErr0 < len(errs) && fl.P != nil && fl.P[op] > 0 && fl.Budget != 0:
		fl.Budget--
		s.Hit("err-" + op)
		f.FaultSeq++
		s.Logf("inject %s %s: %v", op, p, errs[v-fcErr0])
		return v, errs[v-fcErr0]
	case v >= fcShort && v <= fcShortMax && op == "read" && fl.P != nil && fl.P[op] > 0:
		s.Hit("short-read")
		return v, nil
	case v >= fcShort && v <= fcShortMax && op == "write" && fl.P != nil && fl.P[op] > 0 && fl.Budget != 0:
		fl.Budget--
		s.Hit("short-write")
		f.FaultSeq++
		return v, syscall.ENOSPC
	}
	return 0, nil
}

func (f *FS) end(code int, ev *Event) {
	s := f.s
	ev.Proc = s.cur.proc
	ev.Task = s.cur
	ev.Fault = code >= fcErr0
	e := ""
	if ev.Err != nil {
		e = " = " + ev.Err.Error()
	}
	s.Logf("%s %s%s n=%d%s", ev.Op, ev.Path, toS(ev.To), ev.N, e)
	if f.On != nil {
		f.On(ev)
	}
	if code == fcCrashAfter {
		s.Hit("crash-after-" + ev.Op)
		s.Crash("after " + ev.Op + " " + ev.Path)
	}
	if code >= fcTorn && code <= fcTornMax {
		s.Hit("crash-torn-write")
		s.Crash("inside write " + ev.Path)
	}
}

func toS(t string) string {
	if t == "" {
		return ""
	}
	return " -> " + t
}

func perr(op, p string, err error) error {
	if err == nil {
		return nil
	}
	return &os.PathError{Op: op, Path: p, Err: err}
}

// File is the simulated os.File.
type File struct {
	d *FDesc
}

// StdFile returns a standard stream of the current simulation.
func StdFile(name string) *File { return &File{&FDesc{name: "/dev/" + name, std: &Stream{Name: name}}} }

func (fl *File) stream() *Stream {
	if S == nil {
		return fl.d.std
	}
	switch fl.d.std.Name {
	case "stdout":
		return S.FS.Stdout
	case "stderr":
		return S.FS.Stderr
	}
	return fl.d.std
}

// OpenFile opens a file.
func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	s := S
	if s == nil || s.cur == nil {
		return nil, perr("open", name, syscall.ENOENT)
	}
	f := s.FS
	op := "open"
	if flag&os.O_CREATE != 0 {
		op = "create"
	}
	abs := f.Abs(name)
	code, err := f.begin(op, abs, 0)
	ev := &Event{Op: op, Path: abs, Err: err}
	var d *FDesc
	if err == nil {
		d, ev.Err = f.open(name, abs, flag, perm)
		if d != nil {
			ev.Ino = d.ino
			ev.Mode = d.ino.Mode
		}
	}
	f.end(code, ev)
	if ev.Err != nil {
		return nil, perr("open", name, ev.Err)
	}
	d.proc = s.cur.proc
	if d.proc != nil {
		d.proc.fds = append(d.proc.fds, d)
	}
	return &File{d}, nil
}

func (f *FS) open(name, abs string, flag int, perm os.FileMode) (*FDesc, error) {
	n, to, err := f.find(abs, true, 0)
	if strings.HasSuffix(name, "/") && err == nil && !n.Mode.IsDir() {
		return nil, syscall.ENOTDIR
	}
	if flag&(os.O_CREATE|os.O_EXCL) == os.O_CREATE|os.O_EXCL {
		if _, lerr := f.lwalk(abs); lerr == nil {
			return nil, syscall.EEXIST
		}
	}
	if err == syscall.ENOENT && flag&os.O_CREATE != 0 {
		if to == "" {
			return nil, err
		}
		p, b, perr := f.parent(to)
		if perr != nil {
			return nil, perr
		}
		if strings.HasSuffix(name, "/") {
			return nil, syscall.EISDIR
		}
		if len(b) > 255 {
			return nil, syscall.ENAMETOOLONG
		}
		n = f.mk(perm.Perm() &^ f.Umask)
		p.Kids[b] = n
		p.MTime = f.s.Wall()
		err = nil
	} else if err == nil && flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
		return nil, syscall.EEXIST
	}
	if err != nil {
		return nil, err
	}
	if n.Mode.IsDir() && flag&(os.O_WRONLY|os.O_RDWR) != 0 {
		return nil, syscall.EISDIR
	}
	if flag&os.O_TRUNC != 0 && !n.Mode.IsDir() {
		n.Data, n.Virt = nil, 0
		n.MTime = f.s.Wall()
	}
	return &FDesc{ino: n, name: name, abs: abs, flag: flag}, nil
}

// Name of the file.
func (fl *File) Name() string {
	if fl == nil {
		panic("invalid memory address or nil pointer dereference")
	}
	return fl.d.name
}

func (fl *File) chk(op string) error {
	if fl == nil {
		return os.ErrInvalid
	}
	if S != nil && S.cur != nil {
		S.checkDead()
	}
	if fl.d.closed {
		return perr(op, fl.d.name, os.ErrClosed)
	}
	return nil
}

// Write appends or writes at the offset.
func (fl *File) Write(b []byte) (int, error) {
	if err := fl.chk("write"); err != nil {
		return 0, err
	}
	if fl.d.std != nil {
		return fl.stream().write(b)
	}
	s := S
	if s == nil {
		return 0, perr("write", fl.d.name, syscall.EBADF)
	}
	f := s.FS
	d := fl.d
	if f.StallPath != "" && strings.HasPrefix(d.abs, f.StallPath) && s.cur.proc != nil {
		s.Hit("stall-file")
		s.block("stalled "+d.abs, func() bool { return f.StallPath == "" || !strings.HasPrefix(d.abs, f.StallPath) })
	}
	code, err := f.begin("write", d.abs, len(b))
	if d.closed {
		return 0, perr("write", d.name, os.ErrClosed)
	}
	ev := &Event{Op: "write", Path: d.abs, Ino: d.ino, Err: err, Pre: d.ino.Size(), Data: b}
	if d.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		ev.Err = syscall.EBADF
		f.end(code, ev)
		return 0, perr("write", d.name, ev.Err)
	}
	n := len(b)
	if err != nil {
		n = 0
	}
	if code >= fcShort && code <= fcShortMax {
		n = len(b) * (code - fcShort) / 16
	}
	if code >= fcTorn && code <= fcTornMax {
		n = len(b) * (code - fcTorn) / 16
	}
	if ev.Err == nil && f.Cap > 0 {
		if free := f.Cap - f.used(); int64(n) > free {
			if free < 0 {
				free = 0
			}
			n = int(free)
			ev.Err = syscall.ENOSPC
			ev.Fault = true
			s.Hit("disk-full")
			f.FaultSeq++
		}
	}
	if n > 0 {
		off := d.off
		if d.flag&os.O_APPEND != 0 {
			off = d.ino.Size()
		}
		f.put(d.ino, off, b[:n])
		d.off = off + int64(n)
		d.ino.MTime = s.Wall()
	}
	ev.N = n
	f.end(code, ev)
	return n, perr("write", d.name, ev.Err)
}

func (f *FS) put(n *Inode, off int64, b []byte) {
	off -= n.Virt
	if off < 0 { // over bytes that are only counted
		if off+int64(len(b)) <= 0 {
			return
		}
		b, off = b[-off:], 0
	}
	end := off + int64(len(b))
	if int64(len(n.Data)) < end {
		nd := make([]byte, end, end+end/2)
		copy(nd, n.Data)
		if int64(cap(n.Data)) >= end {
			nd = n.Data[:end]
		}
		n.Data = nd
	}
	copy(n.Data[off:], b)
}

func (st *Stream) write(b []byte) (int, error) {
	s := S
	if s == nil || s.cur == nil {
		return len(b), nil
	}
	s.yield(-11, true)
	if st.Stalled {
		s.Hit("stall-" + st.Name)
		s.block("stalled "+st.Name, func() bool { return !st.Stalled })
	}
	st.N++
	if st.FailP > 0 || st.FailAll {
		v := 0
		if st.FailAll {
			v = 1
		} else {
			v = s.choose(StFault, 18, func(r *RNG) int {
				if r.Bool(st.FailP) {
					return 1 + r.Intn(17)
				}
				return 0
			})
		}
		if v > 0 {
			n := len(b) * (v - 1) / 16
			st.Buf = append(st.Buf, b[:n]...)
			st.Fails++
			s.Hit("err-write-" + st.Name)
			s.FS.FaultSeq++
			st.Lost = append(st.Lost, append([]byte(nil), b...))
			s.Logf("write %s n=%d of %d fails", st.Name, n, len(b))
			return n, perr("write", "/dev/"+st.Name, syscall.EPIPE)
		}
	}
	st.Buf = append(st.Buf, b...)
	st.Arr = append(st.Arr, Arrival{len(st.Buf), s.mono, s.Seq()})
	if st.On != nil {
		st.On(b)
	}
	s.Logf("write %s n=%d", st.Name, len(b))
	return len(b), nil
}

// WriteString writes a string.
func (fl *File) WriteString(x string) (int, error) { return fl.Write([]byte(x)) }

// WriteAt writes at an offset.
func (fl *File) WriteAt(b []byte, off int64) (int, error) {
	if err := fl.chk("write"); err != nil {
		return 0, err
	}
	if fl.d.flag&os.O_APPEND != 0 {
		return 0, errors.New("os: invalid use of WriteAt on file opened with O_APPEND")
	}
	save := fl.d.off
	fl.d.off = off
	n, err := fl.Write(b)
	fl.d.off = save
	return n, err
}

// Read reads at the offset.
func (fl *File) Read(b []byte) (int, error) {
	if err := fl.chk("read"); err != nil {
		return 0, err
	}
	if fl.d.ino != nil && fl.d.off < fl.d.ino.Virt {
		fl.d.off = fl.d.ino.Virt
	}
	n, err := fl.readAt(b, fl.d.off, true)
	fl.d.off += int64(n)
	return n, err
}

func (fl *File) readAt(b []byte, off int64, short bool) (int, error) {
	d := fl.d
	if d.std != nil || S == nil {
		return 0, io.EOF
	}
	f := S.FS
	code, err := f.begin("read", d.abs, len(b))
	ev := &Event{Op: "read", Path: d.abs, Ino: d.ino, Err: err}
	n := 0
	if err == nil {
		if d.ino.Mode.IsDir() {
			ev.Err = syscall.EISDIR
		} else if d.flag&os.O_WRONLY != 0 {
			ev.Err = syscall.EBADF
		} else if off -= d.ino.Virt; off < int64(len(d.ino.Data)) {
			if off < 0 {
				off = 0
			}
			if short && code >= fcShort && code <= fcShortMax {
				b = b[:1+(len(b)-1)*(code-fcShort)/64] // fewer bytes than asked for
			}
			n = copy(b, d.ino.Data[off:])
		}
	}
	ev.N = n
	f.end(code, ev)
	if ev.Err != nil {
		return 0, perr("read", d.name, ev.Err)
	}
	if n == 0 && len(b) > 0 {
		return 0, io.EOF
	}
	return n, nil
}

// ReadAt reads at an offset.
func (fl *File) ReadAt(b []byte, off int64) (int, error) {
	if err := fl.chk("read"); err != nil {
		return 0, err
	}
	n, err := fl.readAt(b, off, false)
	if err == nil && n < len(b) {
		err = io.EOF
	}
	return n, err
}

// Seek sets the offset.
func (fl *File) Seek(off int64, whence int) (int64, error) {
	if err := fl.chk("seek"); err != nil {
		return 0, err
	}
	d := fl.d
	if d.std != nil {
		return 0, perr("seek", d.name, syscall.ESPIPE)
	}
	switch whence {
	case io.SeekCurrent:
		off += d.off
	case io.SeekEnd:
		off += d.ino.Size()
	}
	if off < 0 {
		return 0, perr("seek", d.name, syscall.EINVAL)
	}
	d.off = off
	d.dirSet = false
	return off, nil
}

// Close closes the file.
func (fl *File) Close() error {
	if fl == nil {
		return os.ErrInvalid
	}
	if err := fl.chk("close"); err != nil {
		return err
	}
	d := fl.d
	if d.std != nil || S == nil || S.cur == nil {
		return nil
	}
	f := S.FS
	code, err := f.begin("close", d.abs, 0)
	if d.closed {
		return perr("close", d.name, os.ErrClosed)
	}
	d.closed = true // the descriptor is released even when close reports an error
	if p := d.proc; p != nil {
		for i, x := range p.fds {
			if x == d {
				p.fds = append(p.fds[:i:i], p.fds[i+1:]...)
				break
			}
		}
	}
	ev := &Event{Op: "close", Path: d.abs, Ino: d.ino, Err: err}
	f.end(code, ev)
	return perr("close", d.name, ev.Err)
}

// OpenFDs lists the paths of open files of a process.
func (p *Proc) OpenFDs() []string {
	var r []string
	for _, d := range p.fds {
		r = append(r, d.abs)
	}
	return r
}

// FileInfo of the simulated file system.
type FileInfo struct {
	name string
	size int64
	mode os.FileMode
	mt   int64
	loc  *time.Location
	ino  *Inode
}

func (i *FileInfo) Name() string       { return i.name }
func (i *FileInfo) Size() int64        { return i.size }
func (i *FileInfo) Mode() os.FileMode  { return i.mode }
func (i *FileInfo) ModTime() time.Time { return time.Unix(0, i.mt).In(i.loc) }
func (i *FileInfo) IsDir() bool        { return i.mode.IsDir() }
func (i *FileInfo) Sys() interface{}   { return nil }

// SameFile compares identities.
func SameFile(a, b os.FileInfo) bool {
	x, ok1 := a.(*FileInfo)
	y, ok2 := b.(*FileInfo)
	return ok1 && ok2 && x.ino == y.ino
}

func (f *FS) info(name string, n *Inode) *FileInfo {
	i := &FileInfo{name: name, size: n.Size(), mode: n.Mode, mt: n.MTime, loc: f.s.Loc, ino: n}
	if n.Mode.IsDir() {
		i.size = 4096
	}
	return i
}

// Stat of an open file.
func (fl *File) Stat() (os.FileInfo, error) {
	if err := fl.chk("stat"); err != nil {
		return nil, err
	}
	d := fl.d
	if d.std != nil || S == nil {
		return &FileInfo{name: path.Base(d.name), mode: os.ModeCharDevice | os.ModeDevice | 0620, loc: time.UTC}, nil
	}
	f := S.FS
	code, err := f.begin("stat", d.abs, 0)
	ev := &Event{Op: "stat", Path: d.abs, Ino: d.ino, Err: err}
	f.end(code, ev)
	if ev.Err != nil {
		return nil, perr("stat", d.name, ev.Err)
	}
	return f.info(path.Base(d.abs), d.ino), nil
}

// Stat of a path.
func Stat(name string) (os.FileInfo, error) { return stat("stat", name) }

func stat(op, name string) (os.FileInfo, error) {
	if S == nil || S.cur == nil {
		return nil, perr(op, name, syscall.ENOENT)
	}
	f := S.FS
	abs := f.Abs(name)
	code, err := f.begin("stat", abs, 0)
	ev := &Event{Op: "stat", Path: abs, Err: err}
	var n *Inode
	if err == nil {
		if op == "lstat" && !strings.HasSuffix(name, "/") {
			n, ev.Err = f.lwalk(abs)
		} else {
			n, ev.Err = f.walk(abs)
		}
		if ev.Err == nil && strings.HasSuffix(name, "/") && !n.Mode.IsDir() {
			ev.Err = syscall.ENOTDIR
		}
		ev.Ino = n
	}
	f.end(code, ev)
	if ev.Err != nil {
		return nil, perr(op, name, ev.Err)
	}
	return f.info(path.Base(abs), n), nil
}

// Sync is fsync.
func (fl *File) Sync() error {
	if err := fl.chk("sync"); err != nil {
		return err
	}
	if fl.d.std != nil || S == nil {
		return nil
	}
	code, err := S.FS.begin("sync", fl.d.abs, 0)
	ev := &Event{Op: "sync", Path: fl.d.abs, Ino: fl.d.ino, Err: err}
	S.FS.end(code, ev)
	return perr("sync", fl.d.name, ev.Err)
}

// Truncate an open file.
func (fl *File) Truncate(size int64) error {
	if err := fl.chk("truncate"); err != nil {
		return err
	}
	return S.FS.truncate(fl.d.name, fl.d.abs, fl.d.ino, size)
}

func (f *FS) truncate(name, abs string, n *Inode, size int64) error {
	code, err := f.begin("truncate", abs, 0)
	ev := &Event{Op: "truncate", Path: abs, Ino: n, Err: err, N: int(size), Pre: n.Size()}
	if err == nil {
		if size < 0 {
			ev.Err = syscall.EINVAL
		} else if size < n.Virt {
			n.Virt, n.Data = size, nil
		} else if size <= n.Size() {
			n.Data = append([]byte(nil), n.Data[:size-n.Virt]...)
		} else {
			n.Data = append(append([]byte(nil), n.Data...), make([]byte, size-n.Size())...)
		}
		n.MTime = f.s.Wall()
	}
	f.end(code, ev)
	return perr("truncate", name, ev.Err)
}

// Truncate a path.
func Truncate(name string, size int64) error {
	if S == nil || S.cur == nil {
		return perr("truncate", name, syscall.ENOENT)
	}
	n, err := S.FS.walk(name)
	if err != nil {
		return perr("truncate", name, err)
	}
	return S.FS.truncate(name, S.FS.Abs(name), n, size)
}

func (f *FS) chmod(name, abs string, n *Inode, mode os.FileMode) error {
	code, err := f.begin("chmod", abs, 0)
	ev := &Event{Op: "chmod", Path: abs, Ino: n, Err: err, Mode: mode}
	if err == nil {
		n.Mode = n.Mode&^os.ModePerm | mode.Perm()
	}
	f.end(code, ev)
	return perr("chmod", name, ev.Err)
}

// Chmod an open file.
func (fl *File) Chmod(mode os.FileMode) error {
	if err := fl.chk("chmod"); err != nil {
		return err
	}
	return S.FS.chmod(fl.d.name, fl.d.abs, fl.d.ino, mode)
}

// Chmod a path.
func Chmod(name string, mode os.FileMode) error {
	if S == nil || S.cur == nil {
		return perr("chmod", name, syscall.ENOENT)
	}
	n, err := S.FS.walk(name)
	if err != nil {
		YS(-10)
		return perr("chmod", name, err)
	}
	return S.FS.chmod(name, S.FS.Abs(name), n, mode)
}

// Chtimes sets the modification time.
func Chtimes(name string, at, mt time.Time) error {
	if S == nil || S.cur == nil {
		return perr("chtimes", name, syscall.ENOENT)
	}
	YS(-10)
	n, err := S.FS.walk(name)
	if err != nil {
		return perr("chtimes", name, err)
	}
	if !mt.IsZero() {
		n.MTime = mt.UnixNano()
	}
	return nil
}

// Mkdir creates a directory.
func Mkdir(name string, perm os.FileMode) error {
	if S == nil || S.cur == nil {
		return perr("mkdir", name, syscall.ENOENT)
	}
	f := S.FS
	abs := f.Abs(name)
	code, err := f.begin("mkdir", abs, 0)
	ev := &Event{Op: "mkdir", Path: abs, Err: err, Mode: perm}
	if err == nil {
		p, b, e := f.parent(abs)
		if e != nil {
			ev.Err = e
		} else if _, ok := p.Kids[b]; ok {
			ev.Err = syscall.EEXIST
		} else {
			n := f.mk(os.ModeDir | (perm.Perm() &^ f.Umask))
			p.Kids[b] = n
			p.MTime = f.s.Wall()
			ev.Ino = n
			ev.Mode = n.Mode
		}
	}
	f.end(code, ev)
	return perr("mkdir", name, ev.Err)
}

// MkdirAll creates a directory and its parents, step by step as the library does.
func MkdirAll(name string, perm os.FileMode) error {
	if S == nil || S.cur == nil {
		return perr("mkdir", name, syscall.ENOENT)
	}
	if fi, err := Stat(name); err == nil {
		if fi.IsDir() {
			return nil
		}
		return perr("mkdir", name, syscall.ENOTDIR)
	}
	n := strings.TrimRight(name, "/")
	if i := strings.LastIndex(n, "/"); i > 0 {
		if err := MkdirAll(n[:i], perm); err != nil {
			return err
		}
	}
	if n == "" {
		n = "/"
	}
	err := Mkdir(n, perm)
	if err != nil {
		if fi, e2 := Lstat(n); e2 == nil && fi.IsDir() {
			return nil
		}
		return err
	}
	return nil
}

// Lstat does not follow a symbolic link.
func Lstat(name string) (os.FileInfo, error) { return stat("lstat", name) }

// Symlink makes a symbolic link.
func Symlink(to, name string) error {
	lerr := func(err error) error {
		if err == nil {
			return nil
		}
		return &os.LinkError{Op: "symlink", Old: to, New: name, Err: err}
	}
	if S == nil || S.cur == nil {
		return lerr(syscall.ENOENT)
	}
	f := S.FS
	abs := f.Abs(name)
	code, err := f.begin("rename", abs, 0)
	ev := &Event{Op: "symlink", Path: abs, Err: err}
	if err == nil {
		p, b, e := f.parent(abs)
		if e != nil {
			ev.Err = e
		} else if _, ok := p.Kids[b]; ok {
			ev.Err = syscall.EEXIST
		} else {
			n := f.mk(os.ModeSymlink | 0777)
			n.To = to
			p.Kids[b] = n
			p.MTime = f.s.Wall()
			ev.Ino = n
		}
	}
	f.end(code, ev)
	return lerr(ev.Err)
}

// Readlink reads a symbolic link.
func Readlink(name string) (string, error) {
	if S == nil || S.cur == nil {
		return "", perr("readlink", name, syscall.ENOENT)
	}
	YS(-10)
	n, err := S.FS.lwalk(name)
	if err == nil && n.Mode&os.ModeSymlink == 0 {
		err = syscall.EINVAL
	}
	if err != nil {
		return "", perr("readlink", name, err)
	}
	return n.To, nil
}

// EvalSymlinks is the path without symbolic links.
func EvalSymlinks(name string) (string, error) {
	if S == nil || S.cur == nil {
		return "", perr("lstat", name, syscall.ENOENT)
	}
	YS(-10)
	_, at, err := S.FS.find(S.FS.Abs(name), true, 0)
	if err != nil {
		return "", perr("lstat", name, err)
	}
	if w := S.FS.Cwd + "/"; !strings.HasPrefix(name, "/") && strings.HasPrefix(at+"/", w) {
		if at = strings.TrimPrefix(at+"/", w); at == "" {
			at = "."
		}
		at = path.Clean(at)
	}
	return at, nil
}

// Remove removes a file or empty directory.
func Remove(name string) error {
	if S == nil || S.cur == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	f := S.FS
	abs := f.Abs(name)
	code, err := f.begin("remove", abs, 0)
	ev := &Event{Op: "remove", Path: abs, Err: err}
	if err == nil {
		p, b, e := f.parent(abs)
		if e != nil {
			ev.Err = e
		} else if n, ok := p.Kids[b]; !ok {
			ev.Err = syscall.ENOENT
		} else if n.Mode.IsDir() && len(n.Kids) > 0 {
			ev.Err = syscall.ENOTEMPTY
		} else {
			ev.Ino = n
			ev.Replace = n
			delete(p.Kids, b)
			n.Links--
			p.MTime = f.s.Wall()
		}
	}
	f.end(code, ev)
	return perr("remove", name, ev.Err)
}

// RemoveAll removes a tree.
func RemoveAll(name string) error {
	if S == nil || S.cur == nil {
		return nil
	}
	f := S.FS
	n, err := f.lwalk(name)
	if err != nil {
		YS(-10)
		return nil
	}
	if n.Mode.IsDir() {
		for _, k := range sortedKids(n) {
			if err := RemoveAll(path.Join(name, k)); err != nil {
				return err
			}
		}
	}
	return Remove(name)
}

func sortedKids(n *Inode) []string {
	ks := make([]string, 0, len(n.Kids))
	for k := range n.Kids {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// Rename renames a file.
func Rename(from, to string) error {
	lerr := func(err error) error {
		if err == nil {
			return nil
		}
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: err}
	}
	if S == nil || S.cur == nil {
		return lerr(syscall.ENOENT)
	}
	f := S.FS
	a, b := f.Abs(from), f.Abs(to)
	code, err := f.begin("rename", a, 0)
	ev := &Event{Op: "rename", Path: a, To: b, Err: err}
	if err == nil {
		ev.Err = f.rename(a, b, ev)
	}
	f.end(code, ev)
	return lerr(ev.Err)
}

// inTmp tells whether a name lies in /tmp, which is a file system of its own.
func (f *FS) inTmp(p string) bool {
	if _, at, err := f.find(path.Dir(f.Abs(p)), true, 0); err == nil {
		p = path.Join(at, "x")
	}
	return strings.HasPrefix(p, "/tmp/")
}

func (f *FS) rename(a, b string, ev *Event) error {
	pa, na, e := f.parent(a)
	if e != nil {
		return e
	}
	n, ok := pa.Kids[na]
	if !ok {
		return syscall.ENOENT
	}
	pb, nb, e := f.parent(b)
	if e != nil {
		return e
	}
	if f.inTmp(a) != f.inTmp(b) {
		return syscall.EXDEV
	}
	if o, ok := pb.Kids[nb]; ok {
		if o == n {
			return nil
		}
		if o.Mode.IsDir() != n.Mode.IsDir() {
			if o.Mode.IsDir() {
				return syscall.EEXIST
			}
			return syscall.ENOTDIR
		}
		if o.Mode.IsDir() && len(o.Kids) > 0 {
			return syscall.ENOTEMPTY
		}
		o.Links--
		ev.Replace = o
	}
	delete(pa.Kids, na)
	pb.Kids[nb] = n
	pa.MTime = f.s.Wall()
	pb.MTime = f.s.Wall()
	ev.Ino = n
	return nil
}

// Link makes a hard link.
func Link(from, to string) error {
	lerr := func(err error) error {
		if err == nil {
			return nil
		}
		return &os.LinkError{Op: "link", Old: from, New: to, Err: err}
	}
	if S == nil || S.cur == nil {
		return lerr(syscall.ENOENT)
	}
	f := S.FS
	a, b := f.Abs(from), f.Abs(to)
	code, err := f.begin("rename", a, 0)
	ev := &Event{Op: "link", Path: a, To: b, Err: err}
	if err == nil {
		n, e := f.lwalk(a)
		if e == nil {
			pb, nb, e2 := f.parent(b)
			if e2 != nil {
				e = e2
			} else if _, ok := pb.Kids[nb]; ok {
				e = syscall.EEXIST
			} else if f.inTmp(a) != f.inTmp(b) {
				e = syscall.EXDEV
			} else {
				pb.Kids[nb] = n
				n.Links++
				ev.Ino = n
			}
		}
		ev.Err = e
	}
	f.end(code, ev)
	return lerr(ev.Err)
}

type dirEnt struct{ i *FileInfo }

func (d dirEnt) Name() string               { return d.i.name }
func (d dirEnt) IsDir() bool                { return d.i.IsDir() }
func (d dirEnt) Type() fs.FileMode          { return d.i.mode.Type() }
func (d dirEnt) Info() (fs.FileInfo, error) { return d.i, nil }
func (d dirEnt) String() string             { return fs.FormatDirEntry(d) }

// ReadDir lists n entries (all when n<=0) in an order drawn by the simulator.
func (fl *File) ReadDir(n int) ([]fs.DirEntry, error) {
	if err := fl.chk("readdir"); err != nil {
		return nil, err
	}
	if S == nil || fl.d.std != nil {
		return nil, perr("readdirent", fl.d.name, syscall.ENOTDIR)
	}
	f := S.FS
	d := fl.d
	code, err := f.begin("readdir", d.abs, 0)
	ev := &Event{Op: "readdir", Path: d.abs, Ino: d.ino, Err: err}
	if err == nil && !d.ino.Mode.IsDir() {
		ev.Err = syscall.ENOTDIR
	}
	if ev.Err == nil && !d.dirSet {
		d.dirSet = true
		d.dirPos = nil
		for _, k := range sortedKids(d.ino) {
			d.dirPos = append(d.dirPos, dirEnt{f.info(k, d.ino.Kids[k])})
		}
		f.s.shuffle(len(d.dirPos), func(i, j int) { d.dirPos[i], d.dirPos[j] = d.dirPos[j], d.dirPos[i] })
	}
	f.end(code, ev)
	if ev.Err != nil {
		return nil, perr("readdirent", d.name, ev.Err)
	}
	if n <= 0 {
		r := d.dirPos
		d.dirPos = nil
		return r, nil
	}
	if len(d.dirPos) == 0 {
		return nil, io.EOF
	}
	if n > len(d.dirPos) {
		n = len(d.dirPos)
	}
	r := d.dirPos[:n]
	d.dirPos = d.dirPos[n:]
	return r, nil
}

// Readdir is ReadDir returning FileInfos.
func (fl *File) Readdir(n int) ([]os.FileInfo, error) {
	es, err := fl.ReadDir(n)
	var r []os.FileInfo
	if es != nil {
		r = []os.FileInfo{}
	}
	for _, e := range es {
		i, _ := e.Info()
		r = append(r, i)
	}
	return r, err
}

// Readdirnames is ReadDir returning names.
func (fl *File) Readdirnames(n int) ([]string, error) {
	es, err := fl.ReadDir(n)
	var r []string
	for _, e := range es {
		r = append(r, e.Name())
	}
	return r, err
}

// Fd is a fake descriptor number.
func (fl *File) Fd() uintptr { return 3 }

// Unsupported or trivial parts of the os.File interface.
func (fl *File) Chown(uid, gid int) error           { return nil }
func (fl *File) Chdir() error                       { S.FS.Cwd = fl.d.abs; return nil }
func (fl *File) SetDeadline(t time.Time) error      { return os.ErrNoDeadline }
func (fl *File) SetReadDeadline(t time.Time) error  { return os.ErrNoDeadline }
func (fl *File) SetWriteDeadline(t time.Time) error { return os.ErrNoDeadline }

// ReadFile reads a whole file through open/read/close.
func ReadFile(name string) ([]byte, error) {
	f, err := OpenFile(name, os.O_RDONLY, 0)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var out []byte
	buf := make([]byte, 512)
	for {
		n, err := f.Read(buf)
		out = append(out, buf[:n]...)
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
	}
}

// WriteFile writes a whole file through open/write/close.
func WriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

// ReadDirPath lists a directory sorted by name.
func ReadDirPath(name string) ([]fs.DirEntry, error) {
	f, err := OpenFile(name, os.O_RDONLY, 0)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	es, err := f.ReadDir(-1)
	sort.Slice(es, func(i, j int) bool { return es[i].Name() < es[j].Name() })
	return es, err
}

// CreateTemp creates a fresh file; names come from a counter.
func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = "/tmp"
	}
	pre, suf := pattern, ""
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	for try := 0; ; try++ {
		if S == nil || S.cur == nil {
			return nil, perr("open", dir, syscall.ENOENT)
		}
		S.FS.tmpSeq++
		f, err := OpenFile(path.Join(dir, fmt.Sprintf("%s%09d%s", pre, S.FS.tmpSeq, suf)), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
		if os.IsExist(err) && try < 10000 {
			continue
		}
		return f, err
	}
}

// MkdirTemp creates a fresh directory.
func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = "/tmp"
	}
	S.FS.tmpSeq++
	n := path.Join(dir, fmt.Sprintf("%s%09d", strings.Replace(pattern, "*", "", 1), S.FS.tmpSeq))
	return n, Mkdir(n, 0700)
}

// ---- harness access (no faults, no yields) ----

// Get returns the inode at a path or nil.
func (f *FS) Get(p string) *Inode {
	n, err := f.walk(p)
	if err != nil {
		return nil
	}
	return n
}

// List returns the sorted names in a directory.
func (f *FS) List(p string) []string {
	n := f.Get(p)
	if n == nil || !n.Mode.IsDir() {
		return nil
	}
	return sortedKids(n)
}

// Put creates a file with parents.
func (f *FS) Put(p string, data []byte, mode os.FileMode) *Inode {
	p = f.Abs(p)
	f.PutDir(path.Dir(p))
	d, b, _ := f.parent(p)
	n := f.mk(mode)
	n.Data = append([]byte(nil), data...)
	d.Kids[b] = n
	return n
}

// PutDir creates a directory with parents.
func (f *FS) PutDir(p string) *Inode {
	p = f.Abs(p)
	n, at := f.Root, "/"
	for _, c := range strings.Split(strings.Trim(p, "/"), "/") {
		if c == "" {
			continue
		}
		k, ok := n.Kids[c]
		if !ok {
			k = f.mk(os.ModeDir | 0755)
			n.Kids[c] = k
		}
		if k.Mode&os.ModeSymlink != 0 {
			k, _ = f.walk(path.Join(at, c))
		}
		n, at = k, path.Join(at, c)
	}
	return n
}

// Del removes a path from outside the process.
func (f *FS) Del(p string) bool {
	d, b, err := f.parent(p)
	if err != nil {
		return false
	}
	if _, ok := d.Kids[b]; !ok {
		return false
	}
	delete(d.Kids, b)
	f.s.Logf("external removal of %s", p)
	return true
}

// PutLink creates a symbolic link with parents.
func (f *FS) PutLink(p, to string) *Inode {
	n := f.Put(p, nil, os.ModeSymlink|0777)
	n.To = to
	return n
}

// LGet is Get of a symbolic link itself.
func (f *FS) LGet(p string) *Inode {
	n, err := f.lwalk(p)
	if err != nil {
		return nil
	}
	return n
}

// Walk visits every path below p, sorted; links below p are not followed.
func (f *FS) Walk(p string, fn func(p string, n *Inode)) {
	if n := f.Get(p); n != nil {
		walkTree(p, n, fn)
	}
}

func walkTree(p string, n *Inode, fn func(p string, n *Inode)) {
	fn(p, n)
	if n.Mode.IsDir() {
		for _, k := range sortedKids(n) {
			walkTree(path.Join(p, k), n.Kids[k], fn)
		}
	}
}

// ReadFrom writes everything from r.
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}

// WriteTo writes the rest of the file to w.
func (f *File) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, struct{ io.Reader }{f})
}
