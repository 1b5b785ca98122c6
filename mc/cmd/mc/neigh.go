package main

import "verif.local/mc/vs"

// C18: whom an update may wait for. Thread 0 is the one that must not wait.

// farCases calls f with all pairs of a thread on low values and one on high ones,
// with an element of height 3 between them that stays.
func farCases(w *W, lo, hi [][]Op, more [][]Op) {
	lows := [][]KH{nil, {{1, 2}}, {{2, 3}}, {{1, 1}, {2, 2}}}
	highs := [][]KH{nil, {{5, 1}}, {{5, 3}}, {{6, 2}}, {{5, 2}, {6, 1}}}
	for _, a := range lows {
		for _, b := range highs {
			init := append(append(append([]KH(nil), a...), KH{4, 3}), b...)
			for _, l := range lo {
				for _, h := range hi {
					if more == nil {
						if !w.conc(Scenario{Init: init, Thr: [][]Op{h, l}}) || !w.conc(Scenario{Init: init, Thr: [][]Op{l, h}}) {
							return
						}
					}
					for _, m := range more {
						if !w.conc(Scenario{Init: init, Thr: [][]Op{h, l, m}}) {
							return
						}
					}
				}
			}
		}
	}
}

// The low side may use any heights, the high side up to that of the element between.
var neighDrivers = func() map[string]func(w *W) {
	low := cat(addOps(k12, []int{1, 3, 5}), each1(R, k12))
	high := cat(addOps([]int{5}, []int{1, 2, 3}), addOps([]int{6}, []int{2, 3}), each1(R, []int{5, 6}))
	return map[string]func(w *W){
		"far":  func(w *W) { farCases(w, seqs1(low), seqs1(high), nil) },
		"far2": func(w *W) { farCases(w, seqs2(low), seqs1(high), nil) },
		"far22": func(w *W) {
			farCases(w, seqs2(low), seqs2(cat(addOps([]int{5}, []int{3}), addOps([]int{6}, []int{2}), each1(R, []int{5, 6}))), nil)
		},
		"far11": func(w *W) {
			ops := seqs1(cat(addOps(k12, []int{1, 3}), each1(R, k12)))
			farCases(w, ops, seqs1(cat(addOps([]int{5}, []int{3}), addOps([]int{6}, []int{2}), each1(R, []int{5, 6}))), ops)
		},
		// one call suspended, updates of all the further elements (needs "+n")
		"farm": func(w *W) { w.farm() },
		// calls that change nothing
		"noop":   func(w *W) { noopCases(w, seqs1, nil) },
		"noop2":  func(w *W) { noopCases(w, seqs2, nil) },
		"noop11": func(w *W) { noopCases(w, seqs1, seqs1) },
		// the same, after a Contains has told that there is nothing to do
		"seen":  func(w *W) { seenCases(w, nil) },
		"seen1": func(w *W) { seenCases(w, [][]Op{{A(0, 1)}, {A(0, 5)}, {A(2, 2)}, {R(0)}, {R(2)}}) },
		// updates and readers
		"updrd": func(w *W) {
			rd := cat(each1(C, k123), []Op{rng, RF(1), RF(2), RF(3), lenO})
			w.cross(inits(k123, k12), seqs1(cat(addOps(k123, k12), each1(R, k123))), seqs1(rd))
		},
		"updrd2": func(w *W) {
			rd := cat(each1(C, k12), []Op{rng, RF(2), lenO})
			w.cross(inits(k12, k12), seqs1(cat(addOps(k12, []int{1, 5}), each1(R, k12))), seqs2(rd))
		},
		"updrd11": func(w *W) {
			rd := cat(each1(C, k12), []Op{rng, RF(2), lenO})
			w.cross(inits(k12, []int{1, 5}), seqs2(cat(addOps(k12, []int{1, 5}), each1(R, k12))), seqs1(rd), seqs1(rd))
		},
	}
}()

func noopCases(w *W, mk func([]Op) [][]Op, mk2 func([]Op) [][]Op) {
	others := cat(addOps([]int{0, 2}, []int{1, 5}), each1(R, []int{0, 2}), []Op{A(0, 2)})
	if mk2 != nil {
		others = cat(addOps([]int{0, 2}, []int{2}), each1(R, []int{0, 2}))
	}
	for _, init := range inits([]int{0, 1, 2}, k12) {
		has := false
		for _, k := range init {
			has = has || k.K == 1
		}
		mine, ops := []Op{R(1)}, cat(others, []Op{R(1)})
		var pres [][]Op
		if has { // present throughout
			mine, ops = []Op{A(1, 1), A(1, 3), A(1, 5)}, cat(others, addOps([]int{1}, []int{1, 5}))
			pres = [][]Op{nil, {R(1), A(1, 2)}}
		} else { // absent throughout
			pres = [][]Op{nil, {A(1, 2), R(1)}}
		}
		for _, pre := range pres {
			for _, m := range mine {
				for _, o := range mk(ops) {
					if mk2 == nil {
						if !w.conc(Scenario{Init: init, Pre: pre, Thr: [][]Op{{m}, o}}) {
							return
						}
						continue
					}
					for _, o2 := range mk2(ops) {
						if !w.conc(Scenario{Init: init, Pre: pre, Thr: [][]Op{{m}, o, o2}}) {
							return
						}
					}
				}
			}
		}
	}
}

// seenCases: another thread adds (removes) the value 1; when a Contains of thread 0
// has found it present (absent), Adds (Removes) of it wait for nobody.
func seenCases(w *W, more [][]Op) {
	ifp := func(o Op, c int8) Op { o.If = c; return o }
	for _, init := range inits([]int{0, 1, 2}, k12) {
		has := 0
		for _, k := range init {
			if k.K == 1 {
				has = k.H
			}
		}
		var mine, ops [][]Op
		if has > 0 {
			mine = [][]Op{{C(1), ifp(R(1), 1)}}
			ops = [][]Op{{R(1)}, {R(1), A(0, 2)}, {R(1), A(2, 1)}, {R(0), R(1)}, {R(2), R(1)}}
		} else {
			for _, h := range []int{1, 3, 5} {
				mine = append(mine, []Op{C(1), ifp(A(1, h), 2)})
			}
			for _, h := range []int{1, 2, 5} {
				ops = append(ops, []Op{A(1, h)}, []Op{A(1, h), R(0)}, []Op{A(1, h), R(2)}, []Op{A(1, h), A(2, 1)}, []Op{A(0, 2), A(1, h)})
			}
		}
		for _, m := range mine {
			for _, o := range ops {
				if more == nil {
					if !w.conc(Scenario{Init: init, Thr: [][]Op{m, o}}) {
						return
					}
					continue
				}
				if len(o) > 1 {
					continue
				}
				for _, x := range append(more, o) {
					if !w.conc(Scenario{Init: init, Thr: [][]Op{m, o, x}}) {
						return
					}
				}
			}
		}
	}
}

// farm: thread 0 is suspended, at any of its steps, in an update of the value 3;
// thread 1 removes and adds all of the further elements, none of them a
// neighbour: 1 and 6 stay, and 6 is as high as a node can be. It must not wait.
func (w *W) farm() {
	w.watch = 2
	for f := 0; f < 400; f++ {
		w.r.Pats = append(w.r.Pats, vs.Pattern{First: f, Burst: 1 << 30})
	}
	defer func() { w.r.Pats = nil }()
	init := []KH{{1, 5}, {6, 16}}
	var sc []Op
	for i := 0; i < w.pad; i++ {
		sc = append(sc, R(NKeys+i), A(NKeys+i, bulkHeights[1].f(2*i+1)))
	}
	for i := 0; i < min(w.pad, 40); i++ { // not indexed
		sc = append(sc, R(-1-i), A(-1-i, 1))
	}
	for _, u := range []Op{A(3, 1), A(3, 5), R(3)} {
		in := init
		if u.K == OpRemove {
			in = append([]KH{{3, 2}}, init...)
		}
		if !w.conc(Scenario{Init: in, Thr: [][]Op{{u}, sc}, Long: true}) {
			return
		}
	}
}
