package simrt

import (
	"fmt"
	"os"
	"syscall"
	"time"
)

// CheckDead unwinds the running task when its process has died.
func CheckDead() {
	if s := S; s != nil && s.cur != nil {
		s.checkDead()
	}
}

var onLoc []func(*time.Location)

// OnLoc registers a function called when the simulated zone changes.
func OnLoc(f func(*time.Location)) { onLoc = append(onLoc, f) }

// SetLoc sets the simulated local time zone.
func (s *Sim) SetLoc(l *time.Location) {
	s.Loc = l
	for _, f := range onLoc {
		f(l)
	}
}

// Getwd is the simulated working directory.
func Getwd() string {
	if S == nil {
		return "/w"
	}
	return S.FS.Cwd
}

// Chdir changes it.
func Chdir(d string) error {
	if S == nil {
		return nil
	}
	n, err := S.FS.walk(d)
	if err == nil && !n.Mode.IsDir() {
		err = syscall.ENOTDIR
	}
	if err != nil {
		return perr("chdir", d, err)
	}
	S.FS.Cwd = S.FS.Abs(d)
	return nil
}

// ResetNotify undoes Notify for the signals.
func ResetNotify(sigs ...os.Signal) {
	YS(-13)
	if S == nil || S.cur == nil || S.cur.proc == nil {
		return
	}
	p := S.cur.proc
	if len(sigs) == 0 {
		p.sigs = nil
		return
	}
	for i := range p.sigs {
		var keep []os.Signal
		for _, x := range p.sigs[i].sigs {
			drop := false
			for _, y := range sigs {
				drop = drop || x == y
			}
			if !drop {
				keep = append(keep, x)
			}
		}
		if len(keep) == 0 {
			p.sigs[i].sigs = []os.Signal{syscall.Signal(0)}
		} else {
			p.sigs[i].sigs = keep
		}
	}
}

// RandU64 is the random source of simulated programs.
func RandU64() uint64 {
	s := S
	if s == nil {
		return 4
	}
	s.randCtr++
	return NewRNG(s.o.Seed ^ s.randCtr*0x9E3779B97F4A7C15).U64()
}

// NumTasks of the running process.
func NumTasks() int {
	if S == nil || S.cur == nil || S.cur.proc == nil {
		return 1
	}
	return alive(S.cur.proc.tasks)
}

// Println replaces the print and println builtins.
func Println(args ...interface{}) {
	if S != nil && S.cur != nil {
		S.yield(-41, true)
	}
}

// Zero zeroes a package-level variable.
func Zero[T any](p *T) {
	var z T
	*p = z
}

// RMW is the read half of a read-modify-write of shared memory: other tasks may
// run between the read and the write.
func RMW[T any](v T) T {
	if s := S; s != nil && s.cur != nil {
		s.yield(-42, false)
	}
	return v
}

// Set2 stores two values; other tasks may run between the stores.
func Set2[A, B any](a *A, b *B) func(A, B) {
	return func(x A, y B) { *a = RMW(x); *b = RMW(y) }
}

// Set3 stores three values.
func Set3[A, B, C any](a *A, b *B, c *C) func(A, B, C) {
	return func(x A, y B, z C) { *a = RMW(x); *b = RMW(y); *c = RMW(z) }
}

// Set4 stores four values.
func Set4[A, B, C, D any](a *A, b *B, c *C, d *D) func(A, B, C, D) {
	return func(x A, y B, z C, w D) { *a = RMW(x); *b = RMW(y); *c = RMW(z); *d = RMW(w) }
}

// MapIt iterates over a map in simulated order.
type MapIt[K comparable, V any] struct {
	m  map[K]V
	ks []K
}

// MapIter starts an iteration; the zero key and value only carry types.
func MapIter[M ~map[K]V, K comparable, V any](m M) (*MapIt[K, V], K, V) {
	var k K
	var v V
	if s := S; s != nil && s.cur != nil {
		s.mapCheck(mapID(m), "iteration and map write")
	}
	return &MapIt[K, V]{m: m, ks: MapKeys(m)}, k, v
}

// Next stores the next entry still present.
func (it *MapIt[K, V]) Next(k *K, v *V) bool {
	if s := S; s != nil && s.cur != nil && len(s.mapW) > 0 {
		s.mapCheck(mapID(it.m), "iteration and map write")
	}
	for len(it.ks) > 0 {
		x := it.ks[0]
		it.ks = it.ks[1:]
		if y, ok := it.m[x]; ok {
			if k != nil {
				*k = x
			}
			if v != nil {
				*v = y
			}
			return true
		}
	}
	return false
}

// ChanIt iterates over a channel.
type ChanIt[T any] struct{ c *RecvOp[T] }

// ChanIter starts an iteration.
func ChanIter[T any](ch <-chan T) (*ChanIt[T], T) {
	var v T
	return &ChanIt[T]{ChanR(ch)}, v
}

// Next receives the next value.
func (it *ChanIt[T]) Next(v *T) bool {
	x, ok := it.c.Recv2()
	if ok && v != nil {
		*v = x
	}
	return ok
}

var sites = map[int]string{}

// RegisterSites names statement sites.
func RegisterSites(base int, names []string) {
	for i, n := range names {
		sites[base+i] = n
	}
}

// SiteName of a yield site.
func SiteName(n int) string {
	if x, ok := sites[n]; ok {
		return x
	}
	return fmt.Sprintf("rt%d", n)
}
