package main

import (
	"fmt"

	"verif.local/mc/vs"
)

// deepNest: iterations nested in callbacks many levels deep, all of them open
// while the innermost callback changes the set; then they go on, stop, or the
// innermost callback panics.
func (w *W) deepNest(depths []int) {
	bottoms := [][]Op{
		nil,
		{A(4, 2), R(5)},
		{R(1), R(3), R(5), R(7)},
		{R(0), R(1), R(2), R(3), R(5), R(6), R(7), A(4, 1)},
		{R(1), A(1, 3), R(6), A(6, 5), A(0, 2), C(1), lenO},
	}
	for _, d := range depths {
		for bi := range bottoms {
			for at := 0; at < 3; at++ {
				for end := 0; end < 3; end++ { // go on, stop, panic
					for _, h := range []int{1, 3, 5} {
						if !w.seq(func() string {
							return fmt.Sprintf("%d iterations within each other, nested at visit %d, innermost: %s, then %s (height %d)", d, at+1, opsString(bottoms[bi]), []string{"going on", "stopping", "panic"}[end], h)
						}, func() *vs.Failure { return w.deepNestCase(d, bottoms[bi], at, end, h) }) {
							return
						}
					}
				}
			}
		}
	}
}

func (w *W) deepNestCase(d int, bottom []Op, at, end, h int) (bad *vs.Failure) {
	s := w.c.New()
	var m model
	for _, k := range []int{1, 2, 3, 5, 6, 7} {
		if f := stepOp(s, &m, A(k, 1+(k*h)%(h+1))); f != nil {
			return f
		}
	}
	fail := func(format string, a ...any) {
		if bad == nil {
			bad = &vs.Failure{Kind: "iteration", Msg: fmt.Sprintf(format, a...)}
		}
	}
	var touched [NKeys]bool // changed since the outermost iteration began
	var level func(j int)
	level = func(j int) {
		vs.E.OnOpStart()
		if j == d {
			for _, o := range bottom {
				before := m
				if f := stepOp(s, &m, o); f != nil && bad == nil {
					bad = f
				}
				for k := range touched {
					touched[k] = touched[k] || before.has[k] != m.has[k]
				}
			}
			if end == 2 {
				panic(cbPanic)
			}
			return
		}
		from, last, n, stopped := 0, -1, 0, false
		visit := func(k int) bool {
			vs.E.OnOpStart()
			w.res.Calls++
			if stopped {
				fail("level %d: called again after false", j)
			}
			if k <= last || k < from || !m.has[k] {
				fail("level %d: %d is visited after %d with contents %v", j, k, last, m.keys())
			}
			for x := max(last+1, from); x < k; x++ {
				if m.has[x] && !touched[x] {
					fail("level %d: %d is visited after %d although %d was there all along", j, k, last, x)
				}
			}
			last = k
			if n == at {
				level(j + 1)
				if end == 1 {
					stopped = true
				}
			}
			n++
			if n > 20 || bad != nil {
				stopped = true
			}
			return !stopped
		}
		if j%2 == 0 {
			s.Range(visit)
		} else {
			from = 1
			s.RangeFrom(1, visit)
		}
		for x := max(last+1, from); x < NKeys && !stopped; x++ {
			if m.has[x] && !touched[x] {
				fail("level %d: ends after %d although %d was there all along", j, last, x)
			}
		}
	}
	catch(end == 2, func() { level(0) })
	if bad != nil {
		return
	}
	if f := probeAll(s, &m, false); f != nil {
		return f
	}
	return drain(s, &m)
}

// manySets makes n sets. Each is used together with the first one when it is
// made, and all are looked at again at the end.
func (w *W) manySets(n int) {
	for hs := 0; hs < 2; hs++ {
		if !w.seq(func() string { return fmt.Sprintf("%d sets, heights %v", n, hs) }, func() *vs.Failure {
			first := w.c.New()
			var fm model
			sets := make([]Set, n)
			ms := make([]model, n)
			for i := range sets {
				s := w.c.New()
				sets[i] = s
				m := &ms[i]
				a, b := i%NKeys, i/NKeys%NKeys
				h := 1 + 4*hs + i%2
				for _, st := range []struct {
					s Set
					m *model
					o Op
				}{
					{s, m, C(a)}, {s, m, lenO}, {s, m, rng},
					{first, &fm, A(a, h)}, {s, m, C(a)}, {s, m, A(b, h)}, {first, &fm, C(b)},
					{s, m, A(a, 1)}, {first, &fm, R(a)}, {s, m, C(a)}, {s, m, lenO}, {first, &fm, lenO},
					{s, m, rng}, {first, &fm, rng}, {s, m, R(b)}, {first, &fm, A(b, 1)}, {s, m, RF(0)}, {first, &fm, R(b)},
				} {
					w.res.Calls++
					if f := stepOp(st.s, st.m, st.o); f != nil {
						f.Msg = fmt.Sprintf("%d sets made: %s", i+1, f.Msg)
						return f
					}
				}
			}
			for i := range sets {
				if f := stepOp(sets[i], &ms[i], rng); f != nil {
					f.Msg = fmt.Sprintf("set %d of %d, all filled: %s", i, n, f.Msg)
					return f
				}
				if f := stepOp(sets[i], &ms[i], A(7, 3)); f != nil {
					return f
				}
			}
			for i := range sets {
				if f := stepOp(sets[i], &ms[i], lenO); f != nil {
					return f
				}
			}
			return probeAll(first, &fm, false)
		}) {
			return
		}
	}
}

func init() {
	families["deepnest"] = func(w *W) { w.deepNest([]int{3, 4, 5, 6, 7, 8, 9, 10, 16, 17, 33, 65, 130, 260}) }
	families["deepnest1k"] = func(w *W) { w.deepNest([]int{1025, 2049}) }
	families["manysets"] = func(w *W) { w.manySets(3000) }
	families["manysets70k"] = func(w *W) { w.manySets(70000) }
}
