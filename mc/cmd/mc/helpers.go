//go:build helpers

package main

import (
	"fmt"
	"unsafe"

	"github.com/zhangyunhao116/skipset"
	"verif.local/mc/vs"
)

// C19: the flag word and the tower of pointers every node consists of.

const ( // Op.Key of an OpFn call
	fnSetTrue = iota
	fnSetFalse
	fnGet
	fnMGet
	fnLoad
	fnALoad
	fnStore
	fnAStore
)

var fnNames = [...]string{"SetTrue", "SetFalse", "Get", "MGet", "load", "atomicLoad", "store", "atomicStore"}

func fnString(o Op) string {
	switch o.Key {
	case fnMGet, fnStore, fnAStore:
		return fmt.Sprintf("%s(%d,%d)", fnNames[o.Key], o.H, o.At)
	}
	return fmt.Sprintf("%s(%d)", fnNames[o.Key], o.H)
}

func init() {
	opFnString = fnString
	AllCtors = append(AllCtors,
		Ctor{Name: "bitflag", New: newFlagHelper}, Ctor{Name: "optionalArray", New: newTowerHelper})
	families["flagseq"], families["towerseq"] = flagSeq, towerSeq
	reg := func(n string, gen func(w *W)) {
		families[n] = func(w *W) {
			w.races = true
			w.watch = 0
			w.relevant = func(f *vs.Failure) bool { return true }
			w.r.Oracle = oracleFn
			gen(w)
			vs.E.ReportRaces, vs.E.Watch = false, 0
		}
	}
	fl := func(full bool) []Op {
		fn := func(k, a, b int) Op { return Op{K: OpFn, Key: k, H: a, At: b} }
		o := []Op{fn(fnSetTrue, 1, 0), fn(fnSetTrue, 2, 0), fn(fnSetTrue, 3, 0), fn(fnSetFalse, 1, 0), fn(fnSetFalse, 2, 0), fn(fnSetFalse, 3, 0),
			fn(fnMGet, 3, 1), fn(fnMGet, 3, 3)}
		if full {
			o = append(o, fn(fnGet, 1, 0), fn(fnGet, 3, 0), fn(fnMGet, 3, 2), fn(fnMGet, 3, 0), fn(fnMGet, 1, 1), fn(fnSetTrue, 6, 0), fn(fnSetFalse, 5, 0))
		}
		return o
	}
	flInits := [][]KH{nil, {{K: 0}}, {{K: 1}}, {{K: 0}, {K: 1}}}
	reg("flag11", func(w *W) { w.same(flInits, seqs1(fl(true)), 2) })
	reg("flag12", func(w *W) { w.cross(flInits, seqs1(fl(true)), seqs2(fl(true))) })
	reg("flag22", func(w *W) { w.same(flInits, seqs2(fl(false)), 2) })
	reg("flag111", func(w *W) { w.same(flInits, seqs1(fl(true)), 3) })
	reg("flag112", func(w *W) { w.cross(flInits[:2], seqs1(fl(false)), seqs1(fl(false)), seqs2(fl(false))) })
	reg("flag1111", func(w *W) { w.same(flInits, seqs1(fl(false)), 4) })
	tw := func(idx []int) (o []Op) {
		for _, i := range idx {
			o = append(o, Op{K: OpFn, Key: fnALoad, H: i}, Op{K: OpFn, Key: fnAStore, H: i, At: 1}, Op{K: OpFn, Key: fnAStore, H: i, At: 2})
		}
		return
	}
	twInits := [][]KH{nil, {{K: 3}, {K: 4}, {K: 15}}}
	reg("tower11", func(w *W) {
		var all []int
		for i := 0; i < towerN; i++ {
			all = append(all, i)
		}
		w.same(twInits, seqs1(tw(all)), 2)
	})
	reg("tower12", func(w *W) { w.cross(twInits, seqs1(tw([]int{0, 3, 4, 15})), seqs2(tw([]int{0, 3, 4, 15}))) })
	reg("tower22", func(w *W) { w.same(twInits, seqs2(tw([]int{3, 4})), 2) })
	plans["C19"] = plan{
		quick: []step{{"flagseq", "bitflag", 1}, {"flag11", "bitflag", 1}, {"flag111", "bitflag", 2}, {"flag12", "bitflag", 2}, {"flag22", "bitflag", 2}, {"flag112", "bitflag", 4},
			{"towerseq", "optionalArray", 1}, {"tower11", "optionalArray", 1}, {"tower12", "optionalArray", 1}, {"tower22", "optionalArray", 1}},
		thorough: []step{{"flag1111", "bitflag", 4}},
	}
}

// fnHelper is what OpFn calls go to.
type fnHelper interface{ fn(o Op) int }

type flagHelper struct {
	setTrue, setFalse func(uint32)
	get               func(uint32) bool
	mget              func(a, b uint32) bool
	bits              int
}

type noSet struct{}

func (noSet) Remove(k int) bool                   { return false }
func (noSet) Contains(k int) bool                 { return false }
func (noSet) Range(f func(k int) bool)            {}
func (noSet) RangeFrom(k int, f func(k int) bool) {}
func (noSet) Len() int                            { return 0 }
func (noSet) raw() any                            { return nil }

type flagSet struct {
	noSet
	flagHelper
}

func newFlag() flagHelper {
	a, b, c, d, n := skipset.VerifFlag()
	return flagHelper{a, b, c, d, n}
}

func newFlagHelper() Set { return &flagSet{flagHelper: newFlag()} }

// Add sets an initial flag.
func (s *flagSet) Add(k int) bool { s.setTrue(1 << k); return true }

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (s *flagHelper) fn(o Op) int {
	switch o.Key {
	case fnSetTrue:
		s.setTrue(uint32(o.H))
	case fnSetFalse:
		s.setFalse(uint32(o.H))
	case fnGet:
		return b2i(s.get(uint32(o.H)))
	case fnMGet:
		return b2i(s.mget(uint32(o.H), uint32(o.At)))
	}
	return 0
}

// state reads the word flag by flag.
func (s *flagHelper) state() (v [16]int) {
	for i := 0; i < min(s.bits, 16); i++ {
		v[i] = b2i(s.get(1 << i))
	}
	return
}

type towerSet struct {
	noSet
	load, aload   func(int) unsafe.Pointer
	store, astore func(int, unsafe.Pointer)
}

var towerVals [8]int64
var towerN, towerLow = func() (int, int) {
	_, _, _, _, n, low := skipset.VerifTower()
	return min(n, 16), low
}()

func towerPtr(v int) unsafe.Pointer {
	if v == 0 {
		return nil
	}
	return unsafe.Pointer(&towerVals[v])
}

func towerVal(p unsafe.Pointer) int {
	if p == nil {
		return 0
	}
	for i := range towerVals {
		if p == unsafe.Pointer(&towerVals[i]) {
			return i
		}
	}
	return -1
}

func newTower() *towerSet {
	a, b, c, d, _, _ := skipset.VerifTower()
	return &towerSet{load: a, aload: b, store: c, astore: d}
}

func newTowerHelper() Set { return newTower() }

// Add stores an initial pointer.
func (s *towerSet) Add(k int) bool {
	if k < towerN {
		s.store(k, towerPtr(3))
	}
	return true
}

func (s *towerSet) fn(o Op) int {
	switch o.Key {
	case fnLoad:
		return towerVal(s.load(o.H))
	case fnALoad:
		return towerVal(s.aload(o.H))
	case fnStore:
		s.store(o.H, towerPtr(o.At))
	case fnAStore:
		s.astore(o.H, towerPtr(o.At))
	}
	return 0
}

func (s *towerSet) state() (v [16]int) {
	for i := 0; i < towerN; i++ {
		v[i] = towerVal(s.load(i))
	}
	return
}

// spec is the sequential meaning of a call.
func fnSpec(st *[16]int, o Op) int {
	switch o.Key {
	case fnSetTrue, fnSetFalse:
		for i := 0; i < 16; i++ {
			if o.H>>i&1 != 0 {
				st[i] = b2i(o.Key == fnSetTrue)
			}
		}
	case fnGet:
		for i := 0; i < 16; i++ {
			if o.H>>i&1 != 0 && st[i] != 0 {
				return 1
			}
		}
	case fnMGet:
		for i := 0; i < 16; i++ {
			if o.H>>i&1 != 0 && st[i] != o.At>>i&1 {
				return 0
			}
		}
		return 1
	case fnLoad, fnALoad:
		return st[o.H]
	case fnStore, fnAStore:
		st[o.H] = o.At
	}
	return 0
}

// oracleFn: some order of the calls explains the results and the final state.
func oracleFn(r *Runner) *vs.Failure {
	var st [16]int
	for _, k := range r.Sc.Init {
		if r.C.Name == "bitflag" {
			st[k.K] = 1
		} else if k.K < towerN {
			st[k.K] = 3
		}
	}
	var final [16]int
	if f := guard("at rest", func() {
		vs.E.OnOpStart()
		final = r.sets[0].(interface{ state() [16]int }).state()
	}); f != nil {
		return f
	}
	done := make([]bool, len(r.hist))
	var try func(st [16]int, left int) bool
	try = func(st [16]int, left int) bool {
		if left == 0 {
			return st == final
		}
		first := infTime
		for i := range r.hist {
			if !done[i] && r.hist[i].Ret < first {
				first = r.hist[i].Ret
			}
		}
		for i := range r.hist {
			if done[i] || r.hist[i].Call > first {
				continue
			}
			s2 := st
			if fnSpec(&s2, r.hist[i].Op) != r.hist[i].N {
				continue
			}
			done[i] = true
			if try(s2, left-1) {
				return true
			}
			done[i] = false
		}
		return false
	}
	if !try(st, len(r.hist)) {
		return &vs.Failure{Kind: "atomicity", Msg: fmt.Sprintf("no order of the calls explains the results and the final state %v: %s", final, r.histString())}
	}
	return nil
}

// flagSeq: every call on every state of eight flags, and each of all flags alone.
func flagSeq(w *W) {
	bad := func(format string, a ...any) *vs.Failure {
		return &vs.Failure{Kind: "result", Msg: fmt.Sprintf(format, a...)}
	}
	bits := newFlag().bits
	eq := func(f *flagHelper, want uint64) *vs.Failure {
		for i := 0; i < min(bits, 32); i++ {
			vs.E.OnOpStart()
			if g := f.get(1 << i); g != (want>>i&1 != 0) {
				return bad("Get(1<<%d) = %v with the flags %b", i, g, want)
			}
		}
		m := uint32(1)<<8 - 1
		if bits >= 32 {
			m = ^uint32(0)
		}
		if !f.mget(m, uint32(want)) || f.mget(m, uint32(want)^1) || f.mget(m, uint32(want)^0x80) {
			return bad("MGet is wrong with the flags %b", want)
		}
		return nil
	}
	for st := 0; st < 256; st++ {
		if !w.seq(func() string { return fmt.Sprintf("all calls with the flags %b", st) }, func() *vs.Failure {
			for m := 0; m < 256; m++ {
				for _, set := range []bool{true, false} {
					f := newFlag()
					vs.E.OnOpStart()
					f.setTrue(uint32(st))
					want := st | m
					w.res.Calls++
					if set {
						f.setTrue(uint32(m))
					} else {
						f.setFalse(uint32(m))
						want = st &^ m
					}
					if g := eq(&f, uint64(want)); g != nil {
						return g
					}
				}
				f := newFlag()
				vs.E.OnOpStart()
				f.setTrue(uint32(st))
				if g := f.get(uint32(m)); g != (st&m != 0) {
					return bad("Get(%b) = %v with the flags %b", m, g, st)
				}
				// every subset e of the checked flags
				for e := m; ; e = (e - 1) & m {
					w.res.Calls++
					vs.E.OnOpStart()
					if g := f.mget(uint32(m), uint32(e)); g != (st&m == e) {
						return bad("MGet(%b, %b) = %v with the flags %b", m, e, g, st)
					}
					if e == 0 {
						break
					}
				}
			}
			return nil
		}) {
			return
		}
	}
	w.seq(func() string { return "each flag" }, func() *vs.Failure {
		for i := 0; i < min(bits, 32); i++ {
			for j := 0; j < min(bits, 32); j++ {
				f := newFlag()
				vs.E.OnOpStart()
				f.setTrue(1 << i)
				f.setTrue(1 << j)
				if g := eq(&f, 1<<i|1<<j); g != nil {
					return g
				}
				f.setFalse(1 << i)
				if g := eq(&f, 1<<j&^(1<<i)); g != nil {
					return g
				}
			}
		}
		return nil
	})
}

// towerSeq: every cell keeps what was stored in it by either kind of store, and
// storing in one changes no other; also without the upper part.
func towerSeq(w *W) {
	for i := 0; i < towerN; i++ {
		for j := 0; j < towerN; j++ {
			for mode := 0; mode < 4; mode++ {
				if !w.seq(func() string { return fmt.Sprintf("cells %d and %d, mode %d", i, j, mode) }, func() *vs.Failure {
					s := newTower()
					var st [16]int
					do := func(o Op) *vs.Failure {
						vs.E.OnOpStart()
						w.res.Calls++
						want := fnSpec(&st, o)
						if g := s.fn(o); g != want {
							return &vs.Failure{Kind: "result", Msg: fmt.Sprintf("%s = %d, want %d", fnString(o), g, want)}
						}
						for k := 0; k < towerN; k++ {
							if a, b := towerVal(s.load(k)), towerVal(s.aload(k)); a != st[k] || b != st[k] {
								return &vs.Failure{Kind: "result", Msg: fmt.Sprintf("after %s cell %d holds %d (atomically %d), want %d", fnString(o), k, a, b, st[k])}
							}
						}
						return nil
					}
					for _, o := range []Op{{Key: fnStore + mode&1, H: i, At: 1}, {Key: fnStore + mode>>1, H: j, At: 2}, {Key: fnStore + mode&1, H: i, At: 0}, {Key: fnStore + mode>>1, H: i, At: 3}} {
						if f := do(o); f != nil {
							return f
						}
					}
					return nil
				}) {
					return
				}
			}
		}
	}
	w.seq(func() string { return "low towers" }, func() *vs.Failure {
		load, aload, store, astore, n := skipset.VerifLow()
		for i := 0; i < n; i++ {
			vs.E.OnOpStart()
			store(i, towerPtr(1))
			if towerVal(load(i)) != 1 || towerVal(aload(i)) != 1 {
				return &vs.Failure{Kind: "result", Msg: fmt.Sprintf("cell %d of a low tower loses what was stored", i)}
			}
			astore(i, towerPtr(2))
			for k := 0; k < n; k++ {
				if want := 2 * b2i(k <= i); towerVal(load(k)) != want {
					return &vs.Failure{Kind: "result", Msg: fmt.Sprintf("cell %d of a low tower holds %d, want %d", k, towerVal(load(k)), want)}
				}
			}
		}
		return nil
	})
}
