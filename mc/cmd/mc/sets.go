package main

import (
	"fmt"
	"math"
	"reflect"

	"github.com/zhangyunhao116/skipset"
)

// Set is a set under test seen through ranks: rank i is the i-th value of the
// constructor's value table in the order the set must use.
type Set interface {
	Add(k int) bool
	Remove(k int) bool
	Contains(k int) bool
	Range(f func(k int) bool)
	RangeFrom(k int, f func(k int) bool)
	Len() int
}

// NKeys is the size of every value table. Rank 0 and NKeys-1 are extremes.
const NKeys = 8

type rawSet[T any] interface {
	Add(v T) bool
	Remove(v T) bool
	Contains(v T) bool
	Range(f func(v T) bool)
	RangeFrom(start T, f func(v T) bool)
	Len() int
}

type adapter[T any] struct {
	s   rawSet[T]
	tab []T
	rev func(T) int
}

func (a *adapter[T]) Add(k int) bool           { return a.s.Add(a.tab[k]) }
func (a *adapter[T]) Remove(k int) bool        { return a.s.Remove(a.tab[k]) }
func (a *adapter[T]) Contains(k int) bool      { return a.s.Contains(a.tab[k]) }
func (a *adapter[T]) Len() int                 { return a.s.Len() }
func (a *adapter[T]) Range(f func(k int) bool) { a.s.Range(func(v T) bool { return f(a.rev(v)) }) }
func (a *adapter[T]) RangeFrom(k int, f func(k int) bool) {
	a.s.RangeFrom(a.tab[k], func(v T) bool { return f(a.rev(v)) })
}

// wel is an element whose identity is its class alone: id and the call that uses it differ.
type wel struct{ class, id int }

// weakAdapter passes a different, equivalent element in every kind of call.
type weakAdapter struct{ s *skipset.FuncSet[wel] }

func (a *weakAdapter) raw() any                 { return a.s }
func (a *weakAdapter) Add(k int) bool           { return a.s.Add(wel{k, 1}) }
func (a *weakAdapter) Remove(k int) bool        { return a.s.Remove(wel{k, 2}) }
func (a *weakAdapter) Contains(k int) bool      { return a.s.Contains(wel{k, 3}) }
func (a *weakAdapter) Len() int                 { return a.s.Len() }
func (a *weakAdapter) Range(f func(k int) bool) { a.s.Range(func(v wel) bool { return f(a.rev(v)) }) }
func (a *weakAdapter) RangeFrom(k int, f func(k int) bool) {
	a.s.RangeFrom(wel{k, 4}, func(v wel) bool { return f(a.rev(v)) })
}

// rev: only elements that were added can be listed.
func (a *weakAdapter) rev(v wel) int {
	if v.id != 1 {
		return -1
	}
	return v.class
}

func newWeak() Set {
	return &weakAdapter{skipset.NewFunc(func(a, b wel) bool {
		if a.id == 0 || b.id == 0 {
			panic("the comparison function was given an element that was never passed to the set")
		}
		return a.class < b.class
	})}
}

// Ctor is one exported way of making a set.
type Ctor struct {
	Name string
	New  func() Set
	// Big makes a set over ranks 0..n-1.
	Big func(n int) Set
	// Node names the generated node/set type behind it (several constructors share one).
	Node string
	// Vals renders the value table.
	Vals string
	// Named: the element type is a defined type; the basic kinds carry most explorations.
	Named bool
}

func revOf[T comparable](tab []T) func(T) int {
	return func(v T) int {
		for i := range tab {
			if tab[i] == v {
				return i
			}
		}
		return -1
	}
}

func reverse[T any](x []T) []T {
	y := make([]T, len(x))
	for i := range x {
		y[len(x)-1-i] = x[i]
	}
	return y
}

func ctor[T comparable, S rawSet[T]](name, node string, mk func() S, tab []T, desc bool, big func(i int) T) Ctor {
	if len(tab) != NKeys {
		panic(name)
	}
	if desc {
		tab = reverse(tab)
	}
	rev := revOf(tab)
	c := Ctor{Name: name, Node: node, Vals: fmt.Sprintf("%v", tab),
		New: func() Set { return &adapter[T]{mk(), tab, rev} },
		Big: func(n int) Set {
			t := make([]T, n)
			m := make(map[T]int, n)
			for i := range t {
				r := i
				if desc {
					r = n - 1 - i
				}
				t[i] = big(r)
				m[t[i]] = i
			}
			return &adapter[T]{mk(), t, func(v T) int {
				if i, ok := m[v]; ok {
					return i
				}
				return -1
			}}
		}}
	if big == nil {
		c.Big = nil
	}
	return c
}

func tabSigned[T ~int | ~int8 | ~int16 | ~int32 | ~int64](min, max T) []T {
	return []T{min, min + 1, -1, 0, 1, 2, max - 1, max}
}

func tabUnsigned[T ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](max T) []T {
	return []T{0, 1, 2, max/2 - 1, max / 2, max/2 + 1, max - 1, max}
}

var tabString = []string{"", "\x00", "A", "a", "aa", "ab", "b", "\xff"}

// tabFloat: rank 0 is NaN for the NaN-aware constructors.
var tabFloat64 = []float64{math.Inf(-1), -math.MaxFloat64, -1, 0, math.SmallestNonzeroFloat64, 1.5, math.MaxFloat64, math.Inf(1)}
var tabFloat32 = []float32{float32(math.Inf(-1)), -math.MaxFloat32, -1, 0, math.SmallestNonzeroFloat32, 1.5, math.MaxFloat32, float32(math.Inf(1))}

func nanTab64(desc bool) []float64 {
	t := []float64{math.Inf(-1), -math.MaxFloat64, 0, math.SmallestNonzeroFloat64, 1.5, math.MaxFloat64, math.Inf(1)}
	if desc {
		t = reverse(t)
	}
	return append([]float64{math.NaN()}, t...)
}

func nanTab32(desc bool) []float32 {
	t := []float32{float32(math.Inf(-1)), -math.MaxFloat32, 0, math.SmallestNonzeroFloat32, 1.5, math.MaxFloat32, float32(math.Inf(1))}
	if desc {
		t = reverse(t)
	}
	return append([]float32{float32(math.NaN())}, t...)
}

func floatCtor[T float32 | float64](name string, mk func() *skipset.FuncSet[T], tab []T) Ctor {
	rev := func(v T) int {
		for i := range tab {
			if tab[i] == v || (v != v && tab[i] != tab[i]) {
				return i
			}
		}
		return -1
	}
	return Ctor{Name: name, Node: "float", Vals: fmt.Sprintf("%v", tab), New: func() Set { return &adapter[T]{mk(), tab, rev} },
		Big: func(n int) Set {
			t := make([]T, n)
			up := tab[1] < tab[2]
			for i := range t {
				t[i] = T(i)
				if !up {
					t[i] = T(n - 1 - i)
				}
			}
			return &adapter[T]{mk(), t, func(v T) int {
				if up {
					return int(v)
				}
				return n - 1 - int(v)
			}}
		}}
}

// Named types must work with New as well.
type (
	myInt     int
	myInt8    int8
	myInt16   int16
	myInt32   int32
	myInt64   int64
	myUint    uint
	myUint8   uint8
	myUint16  uint16
	myUint32  uint32
	myUint64  uint64
	myUintptr uintptr
	myFloat32 float32
	myFloat64 float64
	myString  string
)

type pair struct{ a, b int }

// named makes the two generic constructors of a defined type.
func named[T comparable, S, D rawSet[T]](name string, mk func() S, mkDesc func() D, tab []T) []Ctor {
	r := []Ctor{ctor("New["+name+"]", "ordered", mk, tab, false, nil), ctor("NewDesc["+name+"]", "ordereddesc", mkDesc, tab, true, nil)}
	r[0].Named, r[1].Named = true, true
	return r
}

// conv turns values into values of a defined type of the same kind.
func conv[T, F any](x []F) (r []T) {
	for _, v := range x {
		r = append(r, reflect.ValueOf(v).Convert(reflect.TypeFor[T]()).Interface().(T))
	}
	return
}

// BaseCtors: one constructor per generated set type. These carry the concurrent explorations.
var BaseCtors []Ctor

// AllCtors: every exported constructor and, for the generic ones, every kind of element type.
var AllCtors []Ctor

func bigI[T ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr | ~float32 | ~float64](i int) T {
	return T(i)
}
func bigS[T ~string](i int) T { return T(fmt.Sprintf("%06d", i)) }

func init() {
	si, si32, si64 := tabSigned(math.MinInt, math.MaxInt), tabSigned[int32](math.MinInt32, math.MaxInt32), tabSigned[int64](math.MinInt64, math.MaxInt64)
	ui, ui32, ui64 := tabUnsigned[uint](math.MaxUint), tabUnsigned[uint32](math.MaxUint32), tabUnsigned[uint64](math.MaxUint64)
	pairs := []pair{{-1, 0}, {0, 0}, {0, 1}, {0, 2}, {1, 0}, {1, 1}, {2, -5}, {2, 7}}
	lessPair := func(x, y pair) bool { return x.a < y.a || x.a == y.a && x.b < y.b }
	BaseCtors = []Ctor{
		ctor("NewInt", "int", skipset.NewInt, si, false, bigI[int]),
		ctor("NewIntDesc", "intdesc", skipset.NewIntDesc, si, true, bigI[int]),
		ctor("NewInt32", "int32", skipset.NewInt32, si32, false, bigI[int32]),
		ctor("NewInt32Desc", "int32desc", skipset.NewInt32Desc, si32, true, bigI[int32]),
		ctor("NewInt64", "int64", skipset.NewInt64, si64, false, bigI[int64]),
		ctor("NewInt64Desc", "int64desc", skipset.NewInt64Desc, si64, true, bigI[int64]),
		ctor("NewUint", "uint", skipset.NewUint, ui, false, bigI[uint]),
		ctor("NewUintDesc", "uintdesc", skipset.NewUintDesc, ui, true, bigI[uint]),
		ctor("NewUint32", "uint32", skipset.NewUint32, ui32, false, bigI[uint32]),
		ctor("NewUint32Desc", "uint32desc", skipset.NewUint32Desc, ui32, true, bigI[uint32]),
		ctor("NewUint64", "uint64", skipset.NewUint64, ui64, false, bigI[uint64]),
		ctor("NewUint64Desc", "uint64desc", skipset.NewUint64Desc, ui64, true, bigI[uint64]),
		ctor("NewString", "string", skipset.NewString, tabString, false, bigS[string]),
		ctor("NewStringDesc", "stringdesc", skipset.NewStringDesc, tabString, true, bigS[string]),
		ctor("New[int16]", "ordered", skipset.New[int16], tabSigned[int16](math.MinInt16, math.MaxInt16), false, bigI[int16]),
		ctor("NewDesc[int16]", "ordereddesc", skipset.NewDesc[int16], tabSigned[int16](math.MinInt16, math.MaxInt16), true, bigI[int16]),
		ctor("NewFunc[int]", "func", func() *skipset.FuncSet[int] { return skipset.NewFunc(func(a, b int) bool { return a < b }) }, si, false, bigI[int]),
	}
	AllCtors = append(AllCtors, BaseCtors...)
	AllCtors = append(AllCtors,
		floatCtor("NewFloat32", skipset.NewFloat32, nanTab32(false)),
		floatCtor("NewFloat32Desc", skipset.NewFloat32Desc, nanTab32(true)),
		floatCtor("NewFloat64", skipset.NewFloat64, nanTab64(false)),
		floatCtor("NewFloat64Desc", skipset.NewFloat64Desc, nanTab64(true)),
		Ctor{Name: "NewFunc[weak]", Node: "func", New: newWeak, Vals: "classes 0 to 7"},
		ctor("NewFunc[pair]", "func", func() *skipset.FuncSet[pair] { return skipset.NewFunc(lessPair) }, pairs, false, func(i int) pair { return pair{i / 7, i % 7} }),
		ctor("NewFunc[string desc]", "func", func() *skipset.FuncSet[string] {
			return skipset.NewFunc(func(a, b string) bool { return a > b })
		}, tabString, true, bigS[string]),
		ctor("New[int]", "ordered", skipset.New[int], si, false, bigI[int]),
		ctor("NewDesc[int]", "ordereddesc", skipset.NewDesc[int], si, true, bigI[int]),
		ctor("New[int8]", "ordered", skipset.New[int8], tabSigned[int8](math.MinInt8, math.MaxInt8), false, nil),
		ctor("NewDesc[int8]", "ordereddesc", skipset.NewDesc[int8], tabSigned[int8](math.MinInt8, math.MaxInt8), true, nil),
		ctor("New[int32]", "ordered", skipset.New[int32], si32, false, nil),
		ctor("NewDesc[int32]", "ordereddesc", skipset.NewDesc[int32], si32, true, nil),
		ctor("New[int64]", "ordered", skipset.New[int64], si64, false, nil),
		ctor("NewDesc[int64]", "ordereddesc", skipset.NewDesc[int64], si64, true, nil),
		ctor("New[uint]", "ordered", skipset.New[uint], ui, false, nil),
		ctor("NewDesc[uint]", "ordereddesc", skipset.NewDesc[uint], ui, true, nil),
		ctor("New[uint8]", "ordered", skipset.New[uint8], tabUnsigned[uint8](math.MaxUint8), false, nil),
		ctor("NewDesc[uint8]", "ordereddesc", skipset.NewDesc[uint8], tabUnsigned[uint8](math.MaxUint8), true, nil),
		ctor("New[uint16]", "ordered", skipset.New[uint16], tabUnsigned[uint16](math.MaxUint16), false, nil),
		ctor("NewDesc[uint16]", "ordereddesc", skipset.NewDesc[uint16], tabUnsigned[uint16](math.MaxUint16), true, nil),
		ctor("New[uint32]", "ordered", skipset.New[uint32], ui32, false, nil),
		ctor("NewDesc[uint32]", "ordereddesc", skipset.NewDesc[uint32], ui32, true, nil),
		ctor("New[uint64]", "ordered", skipset.New[uint64], ui64, false, nil),
		ctor("NewDesc[uint64]", "ordereddesc", skipset.NewDesc[uint64], ui64, true, nil),
		ctor("New[uintptr]", "ordered", skipset.New[uintptr], tabUnsigned[uintptr](^uintptr(0)), false, nil),
		ctor("NewDesc[uintptr]", "ordereddesc", skipset.NewDesc[uintptr], tabUnsigned[uintptr](^uintptr(0)), true, nil),
		ctor("New[float32]", "ordered", skipset.New[float32], tabFloat32, false, nil),
		ctor("NewDesc[float32]", "ordereddesc", skipset.NewDesc[float32], tabFloat32, true, nil),
		ctor("New[float64]", "ordered", skipset.New[float64], tabFloat64, false, bigI[float64]),
		ctor("NewDesc[float64]", "ordereddesc", skipset.NewDesc[float64], tabFloat64, true, bigI[float64]),
		ctor("New[string]", "ordered", skipset.New[string], tabString, false, bigS[string]),
		ctor("NewDesc[string]", "ordereddesc", skipset.NewDesc[string], tabString, true, bigS[string]),
		ctor("New[myInt]", "ordered", skipset.New[myInt], tabSigned(myInt(math.MinInt), myInt(math.MaxInt)), false, nil),
		ctor("NewDesc[myString]", "ordereddesc", skipset.NewDesc[myString], conv[myString](tabString), true, nil),
	)
	AllCtors = append(AllCtors, named("myInt", skipset.New[myInt], skipset.NewDesc[myInt], tabSigned(myInt(math.MinInt), myInt(math.MaxInt)))[1:]...)
	AllCtors = append(AllCtors, named("myInt8", skipset.New[myInt8], skipset.NewDesc[myInt8], tabSigned(myInt8(math.MinInt8), myInt8(math.MaxInt8)))...)
	AllCtors = append(AllCtors, named("myInt16", skipset.New[myInt16], skipset.NewDesc[myInt16], tabSigned(myInt16(math.MinInt16), myInt16(math.MaxInt16)))...)
	AllCtors = append(AllCtors, named("myInt32", skipset.New[myInt32], skipset.NewDesc[myInt32], tabSigned(myInt32(math.MinInt32), myInt32(math.MaxInt32)))...)
	AllCtors = append(AllCtors, named("myInt64", skipset.New[myInt64], skipset.NewDesc[myInt64], tabSigned(myInt64(math.MinInt64), myInt64(math.MaxInt64)))...)
	AllCtors = append(AllCtors, named("myUint", skipset.New[myUint], skipset.NewDesc[myUint], tabUnsigned(^myUint(0)))...)
	AllCtors = append(AllCtors, named("myUint8", skipset.New[myUint8], skipset.NewDesc[myUint8], tabUnsigned(^myUint8(0)))...)
	AllCtors = append(AllCtors, named("myUint16", skipset.New[myUint16], skipset.NewDesc[myUint16], tabUnsigned(^myUint16(0)))...)
	AllCtors = append(AllCtors, named("myUint32", skipset.New[myUint32], skipset.NewDesc[myUint32], tabUnsigned(^myUint32(0)))...)
	AllCtors = append(AllCtors, named("myUint64", skipset.New[myUint64], skipset.NewDesc[myUint64], tabUnsigned(^myUint64(0)))...)
	AllCtors = append(AllCtors, named("myUintptr", skipset.New[myUintptr], skipset.NewDesc[myUintptr], tabUnsigned(^myUintptr(0)))...)
	AllCtors = append(AllCtors, named("myFloat32", skipset.New[myFloat32], skipset.NewDesc[myFloat32], conv[myFloat32](tabFloat32))...)
	AllCtors = append(AllCtors, named("myFloat64", skipset.New[myFloat64], skipset.NewDesc[myFloat64], conv[myFloat64](tabFloat64))...)
	AllCtors = append(AllCtors, named("myString", skipset.New[myString], skipset.NewDesc[myString], conv[myString](tabString))[:1]...)
}

// CtorByName finds a constructor.
func CtorByName(n string) *Ctor {
	for i := range AllCtors {
		if AllCtors[i].Name == n {
			return &AllCtors[i]
		}
	}
	return nil
}
