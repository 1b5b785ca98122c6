package main

import (
	"fmt"
	"math"
	"runtime"
	"strings"

	"verif.local/mc/vs"
)

// Large sets: every combination of size, order of insertion and removal, and
// pattern of heights from the lists below, verified completely.

var bulkOrders = []struct {
	name string
	f    func(i, n int) int
}{
	{"ascending", func(i, n int) int { return i }},
	{"descending", func(i, n int) int { return n - 1 - i }},
	{"from both ends", func(i, n int) int {
		if i%2 == 0 {
			return i / 2
		}
		return n - 1 - i/2
	}},
	{"scattered", func(i, n int) int { return i * coprime(n) % n }},
	{"from the middle", func(i, n int) int {
		if i%2 == 0 {
			return n/2 + i/2
		}
		return n/2 - 1 - i/2
	}},
}

func coprime(n int) int {
	for p := n*5/8 | 1; ; p += 2 {
		a, b := p, n
		for b != 0 {
			a, b = b, a%b
		}
		if a == 1 {
			return p
		}
	}
}

var bulkHeights = []struct {
	name string
	f    func(i int) int
}{
	{"1", func(int) int { return 1 }},
	{"base 4", func(i int) int { // the even distribution
		h := 1
		for i++; i%4 == 0 && h < 16; i /= 4 {
			h++
		}
		return h
	}},
	{"1 and 16", func(i int) int {
		if i%7 == 3 {
			return 16
		}
		return 1
	}},
	{"4", func(int) int { return 4 }},
	{"5", func(int) int { return 5 }},
	{"all", func(i int) int { return 1 + i*7%17 }},
	{"falling", func(i int) int { return max(1, 16-i) }},
	{"late top", func(i int) int { return 1 + (i/16)%16 }},
}

// bulkFrom: the starts of RangeFrom that are tried: all, or a spread of them.
func bulkFrom(n int) (r []int) {
	st := 1
	if n > 150 {
		st = n/150 + 1
	}
	for k := 0; k < n; k += st {
		r = append(r, k)
	}
	return append(r, n-1)
}

func bulkCheck(s Set, has []bool) *vs.Failure {
	n, cnt := len(has), 0
	e := vs.E
	bad := func(format string, a ...any) *vs.Failure {
		return &vs.Failure{Kind: "result", Msg: fmt.Sprintf(format, a...)}
	}
	next := make([]int, n+1) // the first element not before k
	next[n] = n
	for k := n - 1; k >= 0; k-- {
		next[k] = next[k+1]
		if has[k] {
			next[k] = k
			cnt++
		}
	}
	e.OnOpStart()
	if l := s.Len(); l != cnt {
		return bad("Len() = %d, want %d", l, cnt)
	}
	for k := 0; k < n; k++ {
		e.OnOpStart()
		if g := s.Contains(k); g != has[k] {
			return bad("Contains(%d) = %v, want %v", k, g, has[k])
		}
	}
	walk := func(what string, from, stop int, it func(f func(int) bool)) *vs.Failure {
		want := next[from]
		calls := 0
		var f *vs.Failure
		e.OnOpStart()
		it(func(k int) bool {
			calls++
			if f == nil && (stop > 0 && calls > stop) {
				f = &vs.Failure{Kind: "iteration", Msg: what + " calls the callback again after it returned false"}
			}
			if f == nil && (want >= n || k != want) {
				f = &vs.Failure{Kind: "iteration", Msg: fmt.Sprintf("%s visits %d, want %d", what, k, want)}
			}
			if f != nil {
				return false
			}
			want = next[want+1]
			return calls != stop
		})
		if f == nil && want < n && (stop == 0 || calls < stop) {
			f = &vs.Failure{Kind: "iteration", Msg: fmt.Sprintf("%s ends before %d", what, want)}
		}
		return f
	}
	for _, stop := range []int{0, 1, 5} {
		if f := walk("Range", 0, stop, s.Range); f != nil {
			return f
		}
	}
	for _, k := range bulkFrom(n) {
		for _, stop := range []int{1, 6, 0} {
			if stop == 0 && k%9 != 0 && n > 150 {
				continue
			}
			if f := walk(fmt.Sprintf("RangeFrom(%d)", k), k, stop, func(g func(int) bool) { s.RangeFrom(k, g) }); f != nil {
				return f
			}
		}
	}
	return nil
}

func (w *W) bulkCase(n, o1, o2, h int) *vs.Failure {
	s := w.c.Big(n)
	has := make([]bool, n)
	cnt, seq := 0, 0
	hf := bulkHeights[h].f
	bad := func(format string, a ...any) *vs.Failure {
		return &vs.Failure{Kind: "result", Msg: fmt.Sprintf(format, a...)}
	}
	add := func(k int) *vs.Failure {
		vs.E.OnOpStart()
		vs.SetHeight(hf(seq))
		seq++
		w.res.Calls++
		if g := s.Add(k); g == has[k] {
			return bad("Add(%d) = %v with %d elements", k, g, cnt)
		}
		if !has[k] {
			has[k] = true
			cnt++
		}
		if l := s.Len(); l != cnt {
			return bad("Len() = %d after Add(%d), want %d", l, k, cnt)
		}
		return nil
	}
	rem := func(k int) *vs.Failure {
		vs.E.OnOpStart()
		w.res.Calls++
		if g := s.Remove(k); g != has[k] {
			return bad("Remove(%d) = %v with %d elements", k, g, cnt)
		}
		if has[k] {
			has[k] = false
			cnt--
		}
		if l := s.Len(); l != cnt {
			return bad("Len() = %d after Remove(%d), want %d", l, k, cnt)
		}
		return nil
	}
	phase := func(f func(k int) *vs.Failure, order, from, to int) *vs.Failure {
		for i := from; i < to; i++ {
			if g := f(bulkOrders[order].f(i, n)); g != nil {
				return g
			}
		}
		if g := bulkCheck(s, has); g != nil {
			g.Msg = fmt.Sprintf("with %d elements: %s", cnt, g.Msg)
			return g
		}
		return nil
	}
	for _, g := range []func() *vs.Failure{
		func() *vs.Failure { return phase(add, o1, 0, n/2) },
		func() *vs.Failure { return phase(add, o1, 0, n) }, // the first half again
		func() *vs.Failure { return phase(rem, o2, 0, n/2) },
		func() *vs.Failure { return phase(add, o1, n/4, n) },
		func() *vs.Failure { return phase(rem, o2, n/8, n) },
		func() *vs.Failure { return phase(rem, o2, 0, n) },
		func() *vs.Failure { return phase(add, o2, 0, n/3) },
		func() *vs.Failure { return phase(rem, o1, 0, n) },
	} {
		if f := g(); f != nil {
			return f
		}
	}
	return nil
}

// bulkMem: after removals only what the remaining elements need is alive.
func (w *W) bulkMem(n, o1, o2, h int) *vs.Failure {
	vs.ResetAllocs()
	s := w.c.Big(n)
	seq := 0
	hf := bulkHeights[h].f
	add := func(k int) {
		vs.E.OnOpStart()
		vs.SetHeight(hf(seq))
		seq++
		w.res.Calls++
		s.Add(k)
	}
	rem := func(k int) {
		vs.E.OnOpStart()
		w.res.Calls++
		s.Remove(k)
	}
	const keep = 3
	kept := func(k int) bool { return k < keep }
	for k := 0; k < keep; k++ {
		seq = 0
		add(k)
	}
	rem(n - 1) // what a set may make for its own use is there now
	add(n - 1)
	rem(n - 1)
	s.Contains(1)
	s.RangeFrom(1, func(int) bool { return true })
	base, _ := vs.LiveAllocs()
	for round := 0; round < 2; round++ {
		for i := 0; i < n; i++ {
			add(bulkOrders[o1].f(i, n))
		}
		for i := 0; i < n; i++ {
			if k := bulkOrders[o2].f(i, n); !kept(k) {
				rem(k)
				if i%5 == 0 {
					rem(k)
				}
			}
		}
	}
	live, total := vs.LiveAllocs()
	if live > base {
		live, _ = vs.LiveAllocs()
	}
	runtime.KeepAlive(s)
	if live > base {
		return &vs.Failure{Kind: "memory", Msg: fmt.Sprintf("%d objects (of %d) are alive with %d elements left, %d before %d more were added and removed", live, total, keep, base, n-keep)}
	}
	return nil
}

func (w *W) bulk(sizes []int, mem bool) {
	if w.c.Big == nil {
		return
	}
	if mem {
		vs.TrackAlloc = true
		defer func() { vs.TrackAlloc = false }()
	}
	for _, n := range sizes {
		for h := range bulkHeights {
			for o1 := range bulkOrders {
				for o2 := range bulkOrders {
					if n > 100 && (o1+o2+h)%3 != 0 {
						continue // a Latin pattern of the combinations for the larger sizes
					}
					f := w.bulkCase
					if mem {
						f = w.bulkMem
					}
					if !w.seq(func() string {
						return fmt.Sprintf("%d elements, added %s, removed %s, heights %s", n, bulkOrders[o1].name, bulkOrders[o2].name, bulkHeights[h].name)
					}, func() *vs.Failure { return f(n, o1, o2, h) }) {
						return
					}
				}
			}
		}
	}
}

// bulkNest: in one callback of an iteration many elements are removed and added.
func (w *W) bulkNest(sizes []int) {
	if w.c.Big == nil {
		return
	}
	type rm struct {
		name string
		f    func(at, n, m int) []int
	}
	run := func(lo, hi int) (r []int) {
		for k := lo; k < hi; k++ {
			r = append(r, k)
		}
		return
	}
	rms := []rm{
		{"the next ones, ascending", func(at, n, m int) []int { return run(at, min(n, at+m)) }},
		{"the next ones, descending", func(at, n, m int) []int { return reverse(run(at, min(n, at+m))) }},
		{"those after it, ascending", func(at, n, m int) []int { return run(at+1, min(n, at+1+m)) }},
		{"around it, ascending", func(at, n, m int) []int { return run(max(0, at-m/2), min(n, at+m/2+1)) }},
		{"around it, descending", func(at, n, m int) []int { return reverse(run(max(0, at-m/2), min(n, at+m/2+1))) }},
		{"every other one after it", func(at, n, m int) (r []int) {
			for k := at; k < min(n, at+2*m); k += 2 {
				r = append(r, k)
			}
			return
		}},
		{"the rest, from the end", func(at, n, m int) []int { return reverse(run(at, n)) }},
	}
	for _, n := range sizes {
		for h := range bulkHeights {
			for ri := range rms {
				for _, m := range []int{1, 2, 3, 5, 8, 9, 16, 17, 33, 65, 100} {
					if m > n {
						continue
					}
					for _, at := range []int{0, 1, n / 3, n - 2} {
						for re := 0; re < 3; re++ { // nothing, every third one, all are added again
							for from := 0; from < 2; from++ {
								if !w.seq(func() string {
									return fmt.Sprintf("%d elements, heights %s: in the callback of %d remove %s (%d), add back %d", n, bulkHeights[h].name, at, rms[ri].name, m, re)
								}, func() *vs.Failure { return w.bulkNestCase(n, h, at, rms[ri].f(at, n, m), re, from == 1) }) {
									return
								}
							}
						}
					}
				}
			}
		}
	}
}

func (w *W) bulkNestCase(n, h, at int, rm []int, re int, from bool) *vs.Failure {
	s := w.c.Big(n)
	has := make([]bool, n)
	hf := bulkHeights[h].f
	bad := func(format string, a ...any) *vs.Failure {
		return &vs.Failure{Kind: "result", Msg: fmt.Sprintf(format, a...)}
	}
	for i := 0; i < n; i++ {
		vs.E.OnOpStart()
		vs.SetHeight(hf(i))
		s.Add(i)
		has[i] = true
	}
	touched := make([]bool, n)
	var f *vs.Failure
	last := -1
	seen := make([]bool, n)
	cb := func(k int) bool {
		if k <= last || k < 0 || k >= n {
			f = &vs.Failure{Kind: "iteration", Msg: fmt.Sprintf("%d is visited after %d", k, last)}
			return false
		}
		last = k
		seen[k] = true
		if k != at {
			return true
		}
		for _, x := range rm {
			vs.E.OnOpStart()
			w.res.Calls++
			touched[x] = true
			if !s.Remove(x) {
				f = bad("Remove(%d) = false in the callback", x)
				return false
			}
			has[x] = false
		}
		for i, x := range rm {
			if re == 0 || re == 1 && i%3 != 0 {
				continue
			}
			vs.E.OnOpStart()
			vs.SetHeight(hf(x + 1))
			w.res.Calls++
			if !s.Add(x) {
				f = bad("Add(%d) = false in the callback", x)
				return false
			}
			has[x] = true
		}
		vs.E.OnOpStart() // the iteration goes on
		return true
	}
	vs.E.OnOpStart()
	start := 0
	if from {
		start = at
		s.RangeFrom(at, cb)
	} else {
		s.Range(cb)
	}
	if f != nil {
		return f
	}
	for k := start; k < n; k++ {
		if !seen[k] && !touched[k] {
			return &vs.Failure{Kind: "iteration", Msg: fmt.Sprintf("%d is missing although it was there all along", k)}
		}
		if k > at && seen[k] && !has[k] {
			return &vs.Failure{Kind: "iteration", Msg: fmt.Sprintf("%d is visited although it was removed before its turn", k)}
		}
	}
	return bulkCheck(s, has)
}

// mass: sets with more elements than 16 bits can count, and histories of more
// calls than that on a few elements.
func (w *W) mass(n int) {
	if w.c.Big == nil {
		return
	}
	bad := func(format string, a ...any) *vs.Failure {
		return &vs.Failure{Kind: "result", Msg: fmt.Sprintf(format, a...)}
	}
	calls := n
	if strings.HasSuffix(w.c.Name, "[int16]") { // Big has no more values than this
		n = math.MaxInt16 + 1
	}
	for o := range bulkOrders {
		if o != 0 && o != 3 {
			continue
		}
		if !w.seq(func() string {
			return fmt.Sprintf("%d elements added %s, every other one removed, all removed", n, bulkOrders[o].name)
		}, func() *vs.Failure {
			s := w.c.Big(n)
			has := make([]bool, n)
			cnt := 0
			for i := 0; i < n; i++ {
				k := bulkOrders[o].f(i, n)
				vs.E.OnOpStart()
				vs.SetHeight(bulkHeights[1].f(i))
				w.res.Calls++
				if !s.Add(k) {
					return bad("Add(%d) = false with %d elements", k, i)
				}
				has[k] = true
				cnt++
				if l := s.Len(); l != cnt {
					return bad("Len() = %d with %d elements", l, cnt)
				}
				if i%97 == 0 {
					vs.E.OnOpStart()
					if s.Add(k) {
						return bad("Add(%d) = true a second time with %d elements", k, cnt)
					}
				}
			}
			if f := bulkCheck(s, has); f != nil {
				return f
			}
			for step := 0; step < 2; step++ {
				for k := step; k < n; k += 2 {
					vs.E.OnOpStart()
					w.res.Calls++
					if !s.Remove(k) {
						return bad("Remove(%d) = false with %d elements", k, cnt)
					}
					has[k] = false
					cnt--
					if l := s.Len(); l != cnt {
						return bad("Len() = %d with %d elements", l, cnt)
					}
				}
				if f := bulkCheck(s, has); f != nil {
					return f
				}
			}
			return nil
		}) {
			return
		}
	}
	for first := 1; first <= 3; first++ {
		if !w.seq(func() string {
			return fmt.Sprintf("%d additions and removals of three elements", calls)
		}, func() *vs.Failure {
			s := w.c.Big(3)
			has := make([]bool, 3)
			cnt := 0
			for i := 0; i < calls; i++ {
				k := i * first % 3
				vs.E.OnOpStart()
				w.res.Calls++
				var g bool
				what := "Remove"
				if rem := i%(2+first) == 0 || i/3%2 == 1; rem {
					g = s.Remove(k)
					if g != has[k] {
						return bad("Remove(%d) = %v after %d calls", k, g, i)
					}
					if has[k] {
						has[k] = false
						cnt--
					}
				} else {
					what = "Add"
					vs.SetHeight(bulkHeights[1].f(i))
					g = s.Add(k)
					if g == has[k] {
						return bad("Add(%d) = %v after %d calls", k, g, i)
					}
					if !has[k] {
						has[k] = true
						cnt++
					}
				}
				if l := s.Len(); l != cnt {
					return bad("Len() = %d after %s as call %d, want %d", l, what, i, cnt)
				}
				vs.E.OnOpStart()
				if g := s.Contains(k); g != has[k] {
					return bad("Contains(%d) = %v after %d calls", k, g, i)
				}
			}
			return bulkCheck(s, has)
		}) {
			return
		}
	}
}

func init() {
	families["mass"] = func(w *W) { w.mass(66000) }
	families["mass300k"] = func(w *W) { w.mass(300000) }
	families["bulk"] = func(w *W) { w.bulk([]int{2, 7, 33, 130}, false) }
	families["bulk300"] = func(w *W) { w.bulk([]int{70, 300}, false) }
	families["bulk1k"] = func(w *W) { w.bulk([]int{700, 1100}, false) }
	families["bulknest"] = func(w *W) { w.bulkNest([]int{20, 40}) }
	families["bulknest130"] = func(w *W) { w.bulkNest([]int{130}) }
	families["bulkmem"] = func(w *W) { w.bulk([]int{7, 33, 130}, true) }
	families["bulkmem1k"] = func(w *W) { w.bulk([]int{1100}, true) }
}
