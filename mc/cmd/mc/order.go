package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/zhangyunhao116/skipset"
	"verif.local/mc/vs"
)

// Boundary values per type, beyond the eight of the value tables.

func signedVals[T ~int | ~int8 | ~int16 | ~int32 | ~int64](bits int) []T {
	m := map[T]bool{0: true, 1: true, -1: true, 2: true, -2: true, 3: true, 5: true, 10: true, 100: true, -100: true}
	for b := 0; b < bits; b++ {
		x := T(1) << b
		for _, v := range []T{x, x - 1, x + 1, -x, -x - 1, -x + 1, ^x} {
			m[v] = true
		}
	}
	var r []T
	for v := range m {
		r = append(r, v)
	}
	return r
}

func unsignedVals[T ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](bits int) []T {
	m := map[T]bool{0: true, 1: true, 2: true, 3: true, 5: true, 10: true, 100: true}
	for b := 0; b < bits; b++ {
		x := T(1) << b
		for _, v := range []T{x, x - 1, x + 1, ^x, ^x + 1, ^x - 1} {
			m[v] = true
		}
	}
	var r []T
	for v := range m {
		r = append(r, v)
	}
	return r
}

func stringVals() []string {
	r := []string{""}
	al := []string{"\x00", "1", "a", "b", "\x7f", "\x80", "\xff"}
	for _, a := range al {
		r = append(r, a)
		for _, b := range al {
			r = append(r, a+b)
		}
	}
	for _, n := range []int{3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 128, 256, 1024} {
		p := strings.Repeat("k", n)
		r = append(r, p, p+"\x00", p+"a", p+"b", p[:n-1]+"\x00", p[:n-1]+"\xff", "\x00"+p, "\xff"+p)
		// a difference after the common prefix against the lengths, and in the middle
		r = append(r, p+"aa", p+"b"+p, p+"\xff"+p, p[:n/2]+"a"+p[n/2:], p[:n/2]+"z"+p[n/2+1:])
	}
	p := strings.Repeat("k", 1<<16)
	r = append(r, p, p+"a", p+"b", p[1:])
	r = append(r, "10", "9", "A", "Z", "é", "É", "e\u0301", "世界", "Aa", "aA", "\xc3", "\xc3\x28")
	return dedup(r)
}

func dedup[T comparable](x []T) []T {
	m := map[T]bool{}
	var r []T
	for _, v := range x {
		if !m[v] {
			m[v] = true
			r = append(r, v)
		}
	}
	return r
}

// eps is the distance from 1 to the next value.
func eps[T float32 | float64](T) T {
	e := T(1)
	for 1+e/2 > 1 {
		e /= 2
	}
	return e
}

func floatVals[T float32 | float64](max, small T, inf T, nan bool) []T {
	r := []T{0, 1, -1, 1.5, -1.5, 2, 0.1, -0.1, max, -max, small, -small, max / 2, inf, -inf, 1e10, -1e10, 1e-10, 3, -3, 1 << 24, 1<<24 + 2, 0.5, -0.5}
	for _, x := range []T{1, -1, 2, 1 << 20, max / 4, small * 8, 1.5, 0.1} { // neighbours
		up := T(x + x*eps(x))
		r = append(r, up, -up, x, -x, T(x-x*eps(x)))
	}
	for e := -1000; e <= 1000; e += 125 {
		if v := T(math.Ldexp(1, e)); v > 0 && v < inf {
			r = append(r, v, -v)
		}
	}
	for _, v := range []float64{1 << 31, 1<<31 - 1, 1 << 32, 1<<32 + 1, 1 << 53, 1<<53 - 1, 1<<53 + 2, 1 << 63, 1 << 64, 255, 256, 65535, 65536} {
		r = append(r, T(v), T(-v))
	}
	r = dedup(r) // of 0 and -0 only one is left
	r = append(r, T(math.Copysign(0, -1)))
	if nan {
		r = append(r, T(math.NaN()), -T(math.NaN()))
	}
	return r
}

// pairCheck decides one ordered pair of values on a fresh set, against cmp.
func pairCheck[T any](mk func() rawSet[T], cmp func(a, b T) int, a, b T, h int) *vs.Failure {
	bad := func(format string, x ...any) *vs.Failure {
		return &vs.Failure{Kind: "order", Msg: fmt.Sprintf("a=%v b=%v: ", show(a), show(b)) + fmt.Sprintf(format, x...)}
	}
	vs.E.OnOpStart()
	s := mk()
	c := cmp(a, b)
	vs.SetHeight(h)
	if !s.Add(a) {
		return bad("Add(a) on an empty set is false")
	}
	if !s.Contains(a) {
		return bad("Contains(a) is false after Add(a)")
	}
	if s.Contains(b) != (c == 0) {
		return bad("Contains(b) = %v after Add(a)", c != 0)
	}
	if c != 0 && s.Remove(b) {
		return bad("Remove(b) = true after Add(a) only")
	}
	vs.SetHeight(3 - h)
	if s.Add(b) != (c != 0) {
		return bad("Add(b) = %v after Add(a)", c == 0)
	}
	n := 2
	if c == 0 {
		n = 1
	}
	if s.Len() != n {
		return bad("Len() = %d after Add(a), Add(b)", s.Len())
	}
	want := []T{a}
	if c < 0 {
		want = []T{a, b}
	} else if c > 0 {
		want = []T{b, a}
	}
	check := func(what string, want []T, iter func(func(T) bool)) *vs.Failure {
		var got []T
		iter(func(v T) bool { got = append(got, v); return len(got) < 8 })
		ok := len(got) == len(want)
		for i := 0; ok && i < len(got); i++ {
			ok = cmp(got[i], want[i]) == 0
		}
		if !ok {
			return bad("%s visits %v, want %v", what, show(got), show(want))
		}
		return nil
	}
	if f := check("Range", want, s.Range); f != nil {
		return f
	}
	wa, wb := []T{a}, []T{b}
	if c < 0 {
		wa = want
	} else if c > 0 {
		wb = want
	}
	if c == 0 {
		wb = wa
	}
	if f := check("RangeFrom(a)", wa, func(f func(T) bool) { s.RangeFrom(a, f) }); f != nil {
		return f
	}
	if f := check("RangeFrom(b)", wb, func(f func(T) bool) { s.RangeFrom(b, f) }); f != nil {
		return f
	}
	if !s.Contains(b) {
		return bad("Contains(b) is false after Add(b)")
	}
	if !s.Remove(a) {
		return bad("Remove(a) is false")
	}
	if s.Contains(a) || s.Contains(b) != (c != 0) {
		return bad("after Remove(a): Contains(a)=%v Contains(b)=%v", s.Contains(a), s.Contains(b))
	}
	if s.Remove(a) || s.Remove(b) != (c != 0) || s.Len() != 0 {
		return bad("second Remove(a) or Remove(b) answers wrongly")
	}
	return nil
}

func show(x any) string { return fmt.Sprintf("%#v", x) }

// ordCase is one constructor with its value table and reference order.
type ordCase struct {
	name string
	run  func(w *W, deep bool)
}

func ordRun[T any](mk func() rawSet[T], vals []T, cmp func(a, b T) int) func(w *W, deep bool) {
	return func(w *W, deep bool) {
		for i := range vals {
			a := vals[i]
			if !w.seq(func() string { return fmt.Sprintf("pairs (%v, x) for all %d table values x", show(a), len(vals)) }, func() *vs.Failure {
				for h := 1; h <= 2; h++ {
					for j := range vals {
						w.res.Calls += 20
						w.res.SeqTrans++
						if f := pairCheck(mk, cmp, a, vals[j], h); f != nil {
							return f
						}
					}
				}
				return nil
			}) {
				return
			}
		}
		// the whole table at once, in several orders
		for rot := 0; rot < 6; rot++ {
			if !w.seq(func() string { return fmt.Sprintf("whole table of %d values, order %d", len(vals), rot) }, func() *vs.Failure {
				return wholeTable(mk, vals, cmp, rot)
			}) {
				return
			}
		}
	}
}

func wholeTable[T any](mk func() rawSet[T], vals []T, cmp func(a, b T) int, rot int) *vs.Failure {
	vs.E.OnOpStart()
	s := mk()
	sorted := append([]T(nil), vals...)
	for i := 1; i < len(sorted); i++ { // insertion sort by the reference order
		for j := i; j > 0 && cmp(sorted[j], sorted[j-1]) < 0; j-- {
			sorted[j], sorted[j-1] = sorted[j-1], sorted[j]
		}
	}
	classes := sorted[:0:0]
	for i, v := range sorted {
		if i == 0 || cmp(v, sorted[i-1]) != 0 {
			classes = append(classes, v)
		}
	}
	ins := append([]T(nil), vals...)
	switch rot {
	case 1:
		ins = append([]T(nil), sorted...)
	case 2:
		ins = reverse(sorted)
	case 3:
		ins = reverse(vals)
	case 4, 5:
		for i := range ins {
			ins[i] = sorted[(i*37+rot)%len(sorted)]
		}
		ins = append(ins, sorted...)
	}
	for i, v := range ins {
		vs.SetHeight(1 + (i*rot)%4)
		vs.E.OnOpStart()
		s.Add(v)
	}
	check := func(what string, want []T, iter func(func(T) bool)) *vs.Failure {
		i := 0
		var f *vs.Failure
		vs.E.OnOpStart()
		iter(func(v T) bool {
			if i >= len(want) || cmp(v, want[i]) != 0 {
				f = &vs.Failure{Kind: "order", Msg: fmt.Sprintf("%s: position %d is %s", what, i, show(v))}
				return false
			}
			i++
			return true
		})
		if f == nil && i != len(want) {
			f = &vs.Failure{Kind: "order", Msg: fmt.Sprintf("%s: %d values instead of %d", what, i, len(want))}
		}
		return f
	}
	if f := check("Range over the whole table", classes, s.Range); f != nil {
		return f
	}
	if s.Len() != len(classes) {
		return &vs.Failure{Kind: "order", Msg: fmt.Sprintf("Len() = %d, want %d", s.Len(), len(classes))}
	}
	for i, v := range classes {
		if f := check("RangeFrom("+show(v)+")", classes[i:], func(f func(T) bool) { s.RangeFrom(v, f) }); f != nil {
			return f
		}
	}
	for i, v := range ins {
		vs.E.OnOpStart()
		if !s.Contains(v) {
			return &vs.Failure{Kind: "order", Msg: fmt.Sprintf("Contains(%s) is false with the whole table added (%d)", show(v), i)}
		}
		if s.Add(v) {
			return &vs.Failure{Kind: "order", Msg: fmt.Sprintf("Add(%s) is true with the whole table added", show(v))}
		}
	}
	for i := range classes {
		if i%2 == 0 {
			vs.E.OnOpStart()
			if !s.Remove(classes[i]) {
				return &vs.Failure{Kind: "order", Msg: fmt.Sprintf("Remove(%s) is false", show(classes[i]))}
			}
		}
	}
	var odd []T
	for i, v := range classes {
		vs.E.OnOpStart()
		if i%2 == 1 {
			odd = append(odd, v)
		}
		if s.Contains(v) != (i%2 == 1) {
			return &vs.Failure{Kind: "order", Msg: fmt.Sprintf("Contains(%s) = %v after removing every other value", show(v), i%2 == 0)}
		}
	}
	return check("Range after removing every other value", odd, s.Range)
}

// anyKind is every kind of element the generic constructors take.
type anyKind interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr | ~float32 | ~float64 | ~string
}

func cmpOf[T anyKind](desc bool) func(a, b T) int {
	return func(a, b T) int {
		r := 0
		if a < b {
			r = -1
		} else if b < a {
			r = 1
		}
		if desc {
			r = -r
		}
		return r
	}
}

// nanCmp: all NaNs are one element before every other.
func nanCmp[T float32 | float64](desc bool) func(a, b T) int {
	return func(a, b T) int {
		an, bn := a != a, b != b
		switch {
		case an && bn:
			return 0
		case an:
			return -1
		case bn:
			return 1
		}
		r := 0
		if a < b {
			r = -1
		} else if b < a {
			r = 1
		}
		if desc {
			r = -r
		}
		return r
	}
}

var ordCases []ordCase

func ord[T anyKind, S rawSet[T]](name string, mk func() S, vals []T, desc bool) {
	ordCases = append(ordCases, ordCase{name, ordRun(func() rawSet[T] { return mk() }, vals, cmpOf[T](desc))})
}

func init() {
	const ib = 32 << (^uint(0) >> 63)
	all8 := func() (r []int8) {
		for i := -128; i < 128; i++ {
			r = append(r, int8(i))
		}
		return
	}
	allu8 := func() (r []uint8) {
		for i := 0; i < 256; i++ {
			r = append(r, uint8(i))
		}
		return
	}
	si, su := signedVals[int](ib), unsignedVals[uint](ib)
	s16, s32, s64 := signedVals[int16](16), signedVals[int32](32), signedVals[int64](64)
	u16, u32, u64 := unsignedVals[uint16](16), unsignedVals[uint32](32), unsignedVals[uint64](64)
	up := unsignedVals[uintptr](ib)
	str := stringVals()
	for _, x := range []func(){
		func() { sortVals(si); sortVals(s16); sortVals(s32); sortVals(s64) },
		func() { sortVals(su); sortVals(u16); sortVals(u32); sortVals(u64); sortVals(up) },
	} {
		x()
	}
	ord("NewInt", skipset.NewInt, si, false)
	ord("NewIntDesc", skipset.NewIntDesc, si, true)
	ord("NewInt32", skipset.NewInt32, s32, false)
	ord("NewInt32Desc", skipset.NewInt32Desc, s32, true)
	ord("NewInt64", skipset.NewInt64, s64, false)
	ord("NewInt64Desc", skipset.NewInt64Desc, s64, true)
	ord("NewUint", skipset.NewUint, su, false)
	ord("NewUintDesc", skipset.NewUintDesc, su, true)
	ord("NewUint32", skipset.NewUint32, u32, false)
	ord("NewUint32Desc", skipset.NewUint32Desc, u32, true)
	ord("NewUint64", skipset.NewUint64, u64, false)
	ord("NewUint64Desc", skipset.NewUint64Desc, u64, true)
	ord("NewString", skipset.NewString, str, false)
	ord("NewStringDesc", skipset.NewStringDesc, str, true)
	ord("New[int]", skipset.New[int], si, false)
	ord("NewDesc[int]", skipset.NewDesc[int], si, true)
	ord("New[int8]", skipset.New[int8], all8(), false)
	ord("NewDesc[int8]", skipset.NewDesc[int8], all8(), true)
	ord("New[int16]", skipset.New[int16], s16, false)
	ord("NewDesc[int16]", skipset.NewDesc[int16], s16, true)
	ord("New[int32]", skipset.New[int32], s32, false)
	ord("NewDesc[int32]", skipset.NewDesc[int32], s32, true)
	ord("New[int64]", skipset.New[int64], s64, false)
	ord("NewDesc[int64]", skipset.NewDesc[int64], s64, true)
	ord("New[uint]", skipset.New[uint], su, false)
	ord("NewDesc[uint]", skipset.NewDesc[uint], su, true)
	ord("New[uint8]", skipset.New[uint8], allu8(), false)
	ord("NewDesc[uint8]", skipset.NewDesc[uint8], allu8(), true)
	ord("New[uint16]", skipset.New[uint16], u16, false)
	ord("NewDesc[uint16]", skipset.NewDesc[uint16], u16, true)
	ord("New[uint32]", skipset.New[uint32], u32, false)
	ord("NewDesc[uint32]", skipset.NewDesc[uint32], u32, true)
	ord("New[uint64]", skipset.New[uint64], u64, false)
	ord("NewDesc[uint64]", skipset.NewDesc[uint64], u64, true)
	ord("New[uintptr]", skipset.New[uintptr], up, false)
	ord("NewDesc[uintptr]", skipset.NewDesc[uintptr], up, true)
	ord("New[string]", skipset.New[string], str, false)
	ord("NewDesc[string]", skipset.NewDesc[string], str, true)
	f32 := floatVals[float32](math.MaxFloat32, math.SmallestNonzeroFloat32, float32(math.Inf(1)), false)
	f64 := floatVals[float64](math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), false)
	n32 := floatVals[float32](math.MaxFloat32, math.SmallestNonzeroFloat32, float32(math.Inf(1)), true)
	n64 := floatVals[float64](math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), true)
	n64 = append(n64, math.Float64frombits(0x7ff8000000000002), math.Float64frombits(0xfff0000000000001))
	n32 = append(n32, math.Float32frombits(0x7fc00002), math.Float32frombits(0xff800001))
	ord("New[float32]", skipset.New[float32], f32, false)
	ord("NewDesc[float32]", skipset.NewDesc[float32], f32, true)
	ord("New[float64]", skipset.New[float64], f64, false)
	ord("NewDesc[float64]", skipset.NewDesc[float64], f64, true)
	fl := func(name string, run func(w *W, deep bool)) { ordCases = append(ordCases, ordCase{name, run}) }
	fl("NewFloat32", ordRun(func() rawSet[float32] { return skipset.NewFloat32() }, n32, nanCmp[float32](false)))
	fl("NewFloat32Desc", ordRun(func() rawSet[float32] { return skipset.NewFloat32Desc() }, n32, nanCmp[float32](true)))
	fl("NewFloat64", ordRun(func() rawSet[float64] { return skipset.NewFloat64() }, n64, nanCmp[float64](false)))
	fl("NewFloat64Desc", ordRun(func() rawSet[float64] { return skipset.NewFloat64Desc() }, n64, nanCmp[float64](true)))
	ord("New[myInt]", skipset.New[myInt], conv[myInt](si), false)
	ord("NewDesc[myInt]", skipset.NewDesc[myInt], conv[myInt](si), true)
	ord("New[myInt8]", skipset.New[myInt8], conv[myInt8](all8()), false)
	ord("NewDesc[myInt8]", skipset.NewDesc[myInt8], conv[myInt8](all8()), true)
	ord("New[myInt16]", skipset.New[myInt16], conv[myInt16](s16), false)
	ord("NewDesc[myInt16]", skipset.NewDesc[myInt16], conv[myInt16](s16), true)
	ord("New[myInt32]", skipset.New[myInt32], conv[myInt32](s32), false)
	ord("NewDesc[myInt32]", skipset.NewDesc[myInt32], conv[myInt32](s32), true)
	ord("New[myInt64]", skipset.New[myInt64], conv[myInt64](s64), false)
	ord("NewDesc[myInt64]", skipset.NewDesc[myInt64], conv[myInt64](s64), true)
	ord("New[myUint]", skipset.New[myUint], conv[myUint](su), false)
	ord("NewDesc[myUint]", skipset.NewDesc[myUint], conv[myUint](su), true)
	ord("New[myUint8]", skipset.New[myUint8], conv[myUint8](allu8()), false)
	ord("NewDesc[myUint8]", skipset.NewDesc[myUint8], conv[myUint8](allu8()), true)
	ord("New[myUint16]", skipset.New[myUint16], conv[myUint16](u16), false)
	ord("NewDesc[myUint16]", skipset.NewDesc[myUint16], conv[myUint16](u16), true)
	ord("New[myUint32]", skipset.New[myUint32], conv[myUint32](u32), false)
	ord("NewDesc[myUint32]", skipset.NewDesc[myUint32], conv[myUint32](u32), true)
	ord("New[myUint64]", skipset.New[myUint64], conv[myUint64](u64), false)
	ord("NewDesc[myUint64]", skipset.NewDesc[myUint64], conv[myUint64](u64), true)
	ord("New[myUintptr]", skipset.New[myUintptr], conv[myUintptr](up), false)
	ord("NewDesc[myUintptr]", skipset.NewDesc[myUintptr], conv[myUintptr](up), true)
	ord("New[myFloat32]", skipset.New[myFloat32], conv[myFloat32](f32), false)
	ord("NewDesc[myFloat32]", skipset.NewDesc[myFloat32], conv[myFloat32](f32), true)
	ord("New[myFloat64]", skipset.New[myFloat64], conv[myFloat64](f64), false)
	ord("NewDesc[myFloat64]", skipset.NewDesc[myFloat64], conv[myFloat64](f64), true)
	ord("New[myString]", skipset.New[myString], conv[myString](str), false)
	ord("NewDesc[myString]", skipset.NewDesc[myString], conv[myString](str), true)

	families["order"] = func(w *W) {
		for _, c := range ordCases {
			if c.name == w.t.Ctor {
				c.run(w, false)
			}
		}
	}
	// all insertion orders of all subsets of up to four table values
	families["perm"] = func(w *W) { w.perms(4) }
	families["perm6"] = func(w *W) { w.perms(6) }
	families["perm5"] = func(w *W) { w.perms(5) }
}

func sortVals[T int | int8 | int16 | int32 | int64 | uint | uint8 | uint16 | uint32 | uint64 | uintptr](x []T) {
	for i := 1; i < len(x); i++ {
		for j := i; j > 0 && x[j] < x[j-1]; j-- {
			x[j], x[j-1] = x[j-1], x[j]
		}
	}
}

func (w *W) perms(n int) {
	var ks []int
	var rec func(used int) bool
	rec = func(used int) bool {
		if len(ks) > 0 {
			cur := append([]int(nil), ks...)
			if !w.seq(func() string { return fmt.Sprintf("insertion order %v of %s", cur, w.c.Vals) }, func() *vs.Failure {
				s := w.c.New()
				var m model
				for i, k := range cur {
					if f := stepOp(s, &m, A(k, 1+(i+k)%3)); f != nil {
						return f
					}
				}
				w.res.Calls += int64(len(cur)) + 18
				return probeAll(s, &m, false)
			}) {
				return false
			}
		}
		if len(ks) == n {
			return true
		}
		for k := 0; k < NKeys; k++ {
			if used&(1<<k) == 0 {
				ks = append(ks, k)
				ok := rec(used | 1<<k)
				ks = ks[:len(ks)-1]
				if !ok {
					return false
				}
			}
		}
		return true
	}
	rec(0)
}
