package simrt

import "reflect"

// Maps are not safe for concurrent use: the Go runtime ends the process when it
// sees an access while a write is in progress. Instrumented code marks a map
// while it is written, lets other tasks run in between, and every access checks
// the mark, exactly as the runtime does.

func mapID(m interface{}) uintptr { return reflect.ValueOf(m).Pointer() }

func (s *Sim) mapCheck(id uintptr, what string) {
	if len(s.mapW) > 0 && s.mapW[id] {
		FatalError("concurrent map " + what)
	}
}

// MR is the map operand of a read.
func MR[M ~map[K]V, K comparable, V any](m M) M {
	if s := S; s != nil && s.cur != nil && len(s.mapW) > 0 {
		s.mapCheck(mapID(m), "read and map write")
	}
	return m
}

// MapWr is a write to a map.
type MapWr[K comparable, V any] struct{ m map[K]V }

// MW prepares a write.
func MW[M ~map[K]V, K comparable, V any](m M) MapWr[K, V] { return MapWr[K, V]{m} }

func (w MapWr[K, V]) window() {
	s := S
	if s == nil || s.cur == nil || w.m == nil || s.cur.proc == nil {
		return
	}
	id := mapID(w.m)
	s.mapCheck(id, "writes")
	if s.mapW == nil {
		s.mapW = map[uintptr]bool{}
	}
	if s.nopreempt > 0 || len(s.tasks) < 3 {
		return
	}
	s.mapW[id] = true
	defer delete(s.mapW, id)
	s.yield(-43, true)
	s.yield(-43, true)
}

// V passes the value to store, the write being in progress.
func (w MapWr[K, V]) V(v V) V {
	w.window()
	return v
}

// Delete is delete(m, k).
func (w MapWr[K, V]) Delete(k K) {
	w.window()
	delete(w.m, k)
}

// Clear is clear(m).
func (w MapWr[K, V]) Clear() {
	w.window()
	clear(w.m)
}
