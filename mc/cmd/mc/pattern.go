package main

import "verif.local/mc/vs"

// Periodic schedules: one call is interrupted again and again, at the same
// phase, by whole calls of another thread. This reaches what needs many
// conflicts in a row (retry limits, errors that add up, chains of removed
// nodes), far beyond the depth of the complete explorations.

func patterns(deep bool) (ps []vs.Pattern) {
	// one interruption, anywhere, of 1 to 16 calls
	for _, b := range []int{1, 2, 3, 4, 5, 6, 7, 8, 16} {
		for f := 0; f < 200; f++ {
			ps = append(ps, vs.Pattern{First: f, Burst: b})
		}
	}
	gaps, bursts := []int{1, 2, 3, 5, 8, 11, 14, 17, 20, 23, 26, 29, 32, 37, 42}, []int{1, 2}
	if deep {
		gaps = gaps[:0]
		for g := 1; g <= 48; g++ {
			gaps = append(gaps, g)
		}
		bursts = []int{1, 2, 3}
	}
	for _, g := range gaps {
		st := g/4 + 1
		if deep {
			st = 1
		}
		for f := 0; f < g+20; f += st {
			for _, b := range bursts {
				ps = append(ps, vs.Pattern{First: f, Gap: g, Burst: b})
			}
		}
	}
	// at the locks: before every lock operation, every second one, ...
	for _, g := range []int{1, 2, 3, 4, 5} {
		for f := 0; f <= g; f++ {
			for _, b := range []int{1, 2, 3} {
				ps = append(ps, vs.Pattern{First: f, Gap: g, Burst: b, Locks: true})
				ps = append(ps, vs.Pattern{First: f, Gap: g, Burst: b, Locks: true, After: true})
			}
		}
	}
	return
}

// patScripts: what thread 1 does, whole calls in a row, n of them.
func patScripts(n int) (r [][]Op) {
	rep := func(ops ...Op) {
		var s []Op
		for i := 0; len(s) < n; i++ {
			s = append(s, ops[i%len(ops)])
		}
		r = append(r, s)
	}
	rep(A(3, 2), R(3))                                                                                                          // right before the value 4
	rep(R(3), A(3, 1), A(5, 2), R(5))                                                                                           // on both sides
	rep(A(4, 1), R(4))                                                                                                          // the value itself
	rep(R(4), A(4, 3))                                                                                                          //
	rep(A(4, 1), R(4), A(3, 3), R(3))                                                                                           //
	rep(R(0), R(1), R(2), R(3), R(4), R(5), R(6), R(7), A(0, 1), A(1, 2), A(2, 1), A(3, 3), A(4, 1), A(5, 2), A(6, 1), A(7, 1)) // sweeps
	rep(R(7), R(6), R(5), R(4), R(3), R(2), R(1), R(0), A(7, 2), A(6, 1), A(5, 1), A(4, 2), A(3, 1), A(2, 1), A(1, 3), A(0, 1))
	rep(R(3), R(2), A(3, 2), A(2, 1), R(1), R(0), A(1, 1), A(0, 2))
	rep(A(3, 5), R(3), A(5, 6), R(5)) // tall
	return
}

var patInits = [][]KH{
	nil,
	{{3, 1}, {4, 2}, {5, 1}},
	{{0, 1}, {1, 2}, {2, 1}, {3, 3}, {4, 2}, {5, 1}, {6, 2}, {7, 1}},
	{{1, 3}, {3, 5}, {4, 4}, {6, 1}},
}

// patternsLong: many interruptions.
func patternsLong() (ps []vs.Pattern) {
	for _, g := range []int{1, 2, 3, 4} {
		for f := 0; f <= g; f++ {
			for _, b := range []int{1, 2} {
				ps = append(ps, vs.Pattern{First: f, Gap: g, Burst: b, Locks: true})
				ps = append(ps, vs.Pattern{First: f, Gap: g, Burst: b, Locks: true, After: true})
			}
		}
	}
	for _, g := range []int{4, 7, 10, 13, 16, 19, 25, 31} {
		for f := 0; f < g; f += 3 {
			ps = append(ps, vs.Pattern{First: f, Gap: g, Burst: 1})
		}
	}
	return
}

func (w *W) pattern(victims []Op, n int, ps []vs.Pattern) {
	w.r.Pats = ps
	defer func() { w.r.Pats = nil }()
	for _, in := range patInits {
		for _, sc := range patScripts(n) {
			for _, v := range victims {
				if !w.conc(Scenario{Init: in, Thr: [][]Op{{v}, sc}, Long: true}) {
					return
				}
			}
		}
	}
}

var patUp = []Op{A(4, 2), R(4)}
var patRd = []Op{C(4), rng, RF(3), RF(4), {K: OpRange, Stop: 5}}

// sweep: the call on the value is interrupted by removals of one predecessor
// after the other (a marked node admits nothing else right before it).
func (w *W) sweep(n int) {
	w.r.Pats = patternsLong()
	defer func() { w.r.Pats = nil }()
	for _, h := range [][2]int{{1, 1}, {1, 2}, {2, 1}, {3, 2}, {5, 5}} {
		var in []KH
		var sc []Op
		v := n
		if n >= NKeys { // the elements before the keys are removed
			v = 0
		}
		for i := 0; i < n; i++ {
			if n < NKeys {
				in = append(in, KH{i, h[i%2]})
			}
			sc = append(sc, R(v-1-i))
		}
		in = append(in, KH{v, h[0]})
		for _, op := range []Op{R(v), A(v, h[1])} {
			init := in
			if op.K == OpAdd {
				init = in[:len(in)-1]
			}
			for _, sc := range [][]Op{sc, append(append([]Op(nil), C(v)), sc...)} {
				if !w.conc(Scenario{Init: init, Thr: [][]Op{{op}, sc}, Long: true}) {
					return
				}
			}
		}
	}
}

// turns: four threads take turns, or are all under way at the same time.
func (w *W) turns(calls, step int) {
	var ps []vs.Pattern
	for g := 1; g <= 60; g += step {
		for f := 0; f < vs.MaxT; f++ {
			ps = append(ps, vs.Pattern{First: f, Gap: g, Turns: true})
		}
		ps = append(ps, vs.Pattern{First: g, Stack: true}, vs.Pattern{First: g, Stack: true, Back: true})
	}
	w.r.Pats = ps
	defer func() { w.r.Pats = nil }()
	alpha := []Op{A(2, 1), R(2), A(3, 2), R(3), A(1, 3), R(1), C(2), C(3), A(2, 5), R(2), A(3, 1), rng, R(3), A(2, 2), RF(2)}
	for _, in := range [][]KH{nil, {{2, 1}}, {{1, 2}, {2, 2}, {3, 1}}, {{0, 1}, {1, 1}, {3, 3}, {4, 5}}} {
		for a := 1; a < len(alpha); a++ {
			for b := 0; b < len(alpha); b++ {
				thr := make([][]Op, vs.MaxT)
				for t := range thr {
					for c := 0; c < calls; c++ {
						thr[t] = append(thr[t], alpha[(b+a*(t+vs.MaxT*c))%len(alpha)])
					}
				}
				if !w.conc(Scenario{Init: in, Thr: thr}) {
					return
				}
			}
		}
	}
}

var patDrivers = map[string]func(w *W){
	"psw":  func(w *W) { w.sweep(NKeys - 1) },
	"pswb": func(w *W) { w.sweep(w.pad) }, // needs "+n"
	"rr":   func(w *W) { w.turns(1, 1) },
	"rr2":  func(w *W) { w.turns(2, 2) },
	"rr5":  func(w *W) { w.turns(5, 3) },
	"pup":  func(w *W) { w.pattern(patUp, 32, patterns(false)) },
	"pupl": func(w *W) { w.pattern(patUp, 160, patternsLong()) },
	"prd":  func(w *W) { w.pattern(patRd, 32, patterns(false)) },
	"prdd": func(w *W) { w.pattern(append(patRd, lenO), 40, patterns(true)) },
	"plen": func(w *W) { w.pattern([]Op{lenO}, 16, patterns(false)) },
	"pall": func(w *W) { w.pattern(cat([]Op{A(4, 1), A(4, 3), A(4, 5), lenO}, patUp, patRd), 40, patterns(true)) },
}
