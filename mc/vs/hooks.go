package vs

import (
	"reflect"
	"runtime"
	"unsafe"
	"weak"
)

// R announces a plain read of *p and returns p.
func R[T any](p *T, site int32) *T {
	if E.mode == modeConc && p != nil {
		E.plain(unsafe.Pointer(p), unsafe.Sizeof(*p), site, false)
	} else if E.mode == modeSeq {
		E.SeqSteps++
	}
	return p
}

// W performs the plain write *p = v.
func W[T any](p *T, v T, site int32) {
	if E.mode == modeConc && p != nil {
		E.plain(unsafe.Pointer(p), unsafe.Sizeof(*p), site, true)
	} else if E.mode == modeAbort {
		return
	}
	*p = v
}

// WP announces a plain write through p and returns p.
func WP[T any](p *T, site int32) *T {
	if E.mode == modeConc && p != nil {
		E.plain(unsafe.Pointer(p), unsafe.Sizeof(*p), site, true)
	}
	return p
}

// LoopEnter is placed before every loop, Loop at the start of every iteration.
func LoopEnter(site int32) { E.LoopEnter(site) }
func Loop(site int32)      { E.Loop(site) }

// Yield replaces runtime.Gosched and time.Sleep.
func Yield() { runtime.Gosched() }

// Allocation tracking (off by default).

type tracked interface{ alive() bool }

type trackedP[T any] struct{ w weak.Pointer[T] }

func (t trackedP[T]) alive() bool { return t.w.Value() != nil }

var (
	// TrackAlloc switches the weak tracking of heap objects on.
	TrackAlloc bool
	// TrackTypes switches the recording of the types of heap objects on.
	TrackTypes bool
	allocs     []tracked
	heapTypes  = map[unsafe.Pointer]reflect.Type{}
)

// Alloc notes an object allocated by the code under test.
func Alloc[T any](p *T) *T {
	if TrackAlloc && unsafe.Sizeof(*p) > 0 {
		allocs = append(allocs, trackedP[T]{weak.Make(p)})
	}
	if TrackTypes {
		heapTypes[unsafe.Pointer(p)] = reflect.TypeOf(p).Elem()
	}
	return p
}

var onCollect = map[unsafe.Pointer]func(){}

// OnCollect registers what a garbage collection does to a pool.
func OnCollect(p unsafe.Pointer, f func()) { onCollect[p] = f }

// Collect collects garbage, what pools hold included.
func Collect() {
	for _, f := range onCollect {
		f()
	}
	clear(onCollect)
	runtime.GC()
}

// LiveAllocs collects garbage and counts the tracked objects still reachable,
// and how many were tracked.
func LiveAllocs() (live, total int) {
	Collect()
	total = len(allocs)
	for _, a := range allocs {
		if a.alive() {
			live++
		}
	}
	return
}

// ResetAllocs forgets all tracked objects.
func ResetAllocs() {
	clear(allocs)
	allocs = allocs[:0]
	clear(heapTypes)
}

// Globals of the code under test.

type global struct {
	name  string
	ptr   any
	reset func()
}

var globals []global

// Global registers a package-level variable of the code under test.
func Global[T any](name string, p *T) {
	v := *p
	globals = append(globals, global{name, p, func() { *p = v }})
}

// ResetGlobals puts the (top level of the) package-level variables back.
func ResetGlobals() {
	for i := range globals {
		globals[i].reset()
	}
}

// Script is the random source: Heights-1 successes, then a failure, repeated.
type Script struct {
	Zeros int      // successes before each failure
	pos   int      // successes delivered in the current run
	Raw   []uint32 // if set, raw 32-bit outcomes in order, then Zeros applies
	rp    int
	Draws int64
	runs  int // runs completed since SetHeight
}

// SameAgain: a call that draws again gets the same height again.
var SameAgain bool

// again are the heights a call gets that draws again, within a thread.
var again = [...]int{5, 1, 7, 2, 16}

// SetHeight makes the next draws of the random source produce height h.
func SetHeight(h int) {
	s := curScript()
	s.Zeros, s.pos, s.Raw, s.rp, s.runs = h-1, 0, nil, 0, 0
}

// SetRaw makes the random source deliver the given outcomes first.
func SetRaw(raw []uint32) {
	s := curScript()
	s.Zeros, s.pos, s.Raw, s.rp = 0, 0, raw, 0
}

func curScript() *Script {
	if t := E.CurThread(); t != nil {
		return &t.Random
	}
	return &E.Cur0
}

// Draws4 counts the draws asked for as one of four outcomes, DrawsAny the others.
var Draws4, DrawsAny int64

// Draw32 delivers the next raw 32-bit outcome.
func Draw32() uint32 {
	DrawsAny++
	s := curScript()
	s.Draws++
	if s.rp < len(s.Raw) {
		s.rp++
		return s.Raw[s.rp-1]
	}
	if s.pos < s.Zeros {
		s.pos++
		return 0
	}
	s.pos = 0
	if s != &E.Cur0 && !SameAgain {
		s.Zeros = again[s.runs%len(again)] - 1
		s.runs++
	}
	return ^uint32(0)
}
