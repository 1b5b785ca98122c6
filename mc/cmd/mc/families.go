package main

import (
	"fmt"

	"verif.local/mc/vs"
)

func A(k, h int) Op { return Op{K: OpAdd, Key: k, H: h} }
func R(k int) Op    { return Op{K: OpRemove, Key: k} }
func C(k int) Op    { return Op{K: OpContains, Key: k} }
func RF(k int) Op   { return Op{K: OpRangeFrom, Key: k} }

var (
	rng  = Op{K: OpRange}
	lenO = Op{K: OpLen}
)

// inits enumerates all initial states: every key absent or present with one of the heights.
func inits(keys, heights []int) [][]KH {
	res := [][]KH{nil}
	for _, k := range keys {
		var next [][]KH
		for _, s := range res {
			next = append(next, s)
			for _, h := range heights {
				next = append(next, append(append([]KH(nil), s...), KH{k, h}))
			}
		}
		res = next
	}
	return res
}

func addOps(keys, heights []int) (o []Op) {
	for _, k := range keys {
		for _, h := range heights {
			o = append(o, A(k, h))
		}
	}
	return
}

func each1(f func(int) Op, keys []int) (o []Op) {
	for _, k := range keys {
		o = append(o, f(k))
	}
	return
}

func cat(a ...[]Op) (o []Op) {
	for _, x := range a {
		o = append(o, x...)
	}
	return
}

// seqs2 lists all sequences of two ops.
func seqs2(a []Op) (s [][]Op) {
	for _, x := range a {
		for _, y := range a {
			s = append(s, []Op{x, y})
		}
	}
	return
}

func seqs3(a []Op) (s [][]Op) {
	for _, x := range a {
		for _, y := range a {
			for _, z := range a {
				s = append(s, []Op{x, y, z})
			}
		}
	}
	return
}

func seqs1(a []Op) (s [][]Op) {
	for _, x := range a {
		s = append(s, []Op{x})
	}
	return
}

// drivers calls do for every initial state and every unordered choice of thread
// bodies from ts (n threads with bodies from the same list).
func (w *W) same(ini [][]KH, ts [][]Op, n int) {
	idx := make([]int, n)
	var rec func(pos, from int) bool
	rec = func(pos, from int) bool {
		if pos == n {
			thr := make([][]Op, n)
			for i, x := range idx {
				thr[i] = ts[x]
			}
			for _, s := range ini {
				if !w.conc(Scenario{Init: s, Thr: thr}) {
					return false
				}
			}
			return true
		}
		for i := from; i < len(ts); i++ {
			idx[pos] = i
			if !rec(pos+1, i) {
				return false
			}
		}
		return true
	}
	rec(0, 0)
}

// cross: thread 0 from a, thread 1 from b (and thread 2 from c if given).
func (w *W) cross(ini [][]KH, lists ...[][]Op) {
	thr := make([][]Op, len(lists))
	var rec func(pos int) bool
	rec = func(pos int) bool {
		if pos == len(lists) {
			t := append([][]Op(nil), thr...)
			for _, s := range ini {
				if !w.conc(Scenario{Init: s, Thr: t}) {
					return false
				}
			}
			return true
		}
		for _, x := range lists[pos] {
			thr[pos] = x
			if !rec(pos + 1) {
				return false
			}
		}
		return true
	}
	rec(0)
}

// pairs2 lists unordered pairs of single-op bodies as a helper for three-thread drivers.
func (w *W) readerAndPairs(ini [][]KH, readers []Op, ups []Op) {
	for _, rd := range readers {
		for i := range ups {
			for j := i; j < len(ups); j++ {
				for _, s := range ini {
					if !w.conc(Scenario{Init: s, Thr: [][]Op{{rd}, {ups[i]}, {ups[j]}}}) {
						return
					}
				}
			}
		}
	}
}

var (
	k12   = []int{1, 2}
	k123  = []int{1, 2, 3}
	k1234 = []int{1, 2, 3, 4}
)

// Oracles.

// oracleLin: point operations linearizable, final contents, later behaviour.
func oracleLin(r *Runner) *vs.Failure {
	for s := 0; s < r.nsets(); s++ {
		fs, f := r.probe(s)
		if f != nil {
			return f
		}
		if f := r.checkLin(s, true, false, &fs); f != nil {
			return f
		}
		if f := r.probeDeep(s, &fs); f != nil {
			return f
		}
	}
	return nil
}

// oracleAll: everything observable, iterations included.
func oracleAll(r *Runner) *vs.Failure {
	for s := 0; s < r.nsets(); s++ {
		fs, f := r.probe(s)
		if f != nil {
			return f
		}
		if f := r.checkIterShape(s); f != nil {
			return f
		}
		if f := r.checkLin(s, true, true, &fs); f != nil {
			return f
		}
		if f := r.probeIter(s, &fs); f != nil {
			return f
		}
		if f := r.probeLen(s, &fs); f != nil {
			return f
		}
		if f := r.probeDeep(s, &fs); f != nil {
			return f
		}
	}
	return nil
}

// oracleIter: iterations against the updates, provided the updates are explainable by themselves.
func oracleIter(r *Runner) *vs.Failure {
	for s := 0; s < r.nsets(); s++ {
		if f := r.checkLin(s, true, false, nil); f != nil {
			return nil // the point operations are at fault: C01 reports that
		}
		if f := r.checkIterShape(s); f != nil {
			return f
		}
		if f := r.checkLin(s, true, true, nil); f != nil {
			f.Kind = "iteration"
			return f
		}
	}
	return nil
}

// oracleProgress: every call of the run and every later call returns.
func oracleProgress(r *Runner) *vs.Failure {
	for s := 0; s < r.nsets(); s++ {
		fs, f := r.probe(s)
		if f != nil {
			return f
		}
		if f := r.probeDeep(s, &fs); f != nil && f.Kind != "residue" {
			return f
		}
	}
	return nil
}

func oracleNone(r *Runner) *vs.Failure { return nil }

// oracleLen: exact at rest, within bounds during updates.
func oracleLen(r *Runner) *vs.Failure {
	for s := 0; s < r.nsets(); s++ {
		fs, f := r.probe(s)
		if f != nil {
			return nil
		}
		if f := r.checkLin(s, true, true, &fs); f != nil {
			return nil // the other calls contradict each other: C01 and C03 report that
		}
		if f := r.checkLenRecs(s, &fs); f != nil {
			return f
		}
		if f := r.probeLen(s, &fs); f != nil {
			return f
		}
	}
	return nil
}

func (r *Runner) probeLen(set int, fs *FinalState) *vs.Failure {
	vs.E.OnOpStart()
	var n int
	if f := guard("Len after all calls returned", func() { n = r.sets[set].Len() }); f != nil {
		return f
	}
	if n != fs.Count {
		return &vs.Failure{Kind: "len", Msg: fmt.Sprintf("at rest Len() = %d but the set contains %v; %s", n, fs.keys(), r.histString())}
	}
	return nil
}

// checkLenRecs checks every Len call of the history.
func (r *Runner) checkLenRecs(set int, fs *FinalState) *vs.Failure {
	init := r.initialHas(set)
	n0 := 0
	for _, h := range init {
		if h {
			n0++
		}
	}
	for i := range r.hist {
		l := &r.hist[i]
		if l.Op.K != OpLen || l.Op.Set != set || l.Ret == infTime {
			continue
		}
		// k stays in throughout the call if no order of the calls on it leaves
		// room for a moment without it during the call
		stable := 0
		var arr [48]lop
		for k := 0; k < NKeys; k++ {
			ops := append(r.lops(arr[:0], set, k, true, true, fs), lop{lOut, l.Call, l.Ret})
			if !linearizable(ops, init[k]) {
				stable++
			}
		}
		upper := n0
		for j := range r.hist {
			a := &r.hist[j]
			if a.Op.Set != set || j == i {
				continue
			}
			switch a.Op.K {
			case OpAdd:
				if a.Call < l.Ret && (a.Res || a.Ret > l.Call) {
					upper++
				}
			case OpRemove:
				if a.Res && a.Ret <= l.Call {
					upper--
				}
			}
		}
		if l.N < stable || l.N > upper {
			return &vs.Failure{Kind: "len", Msg: fmt.Sprintf("Len() = %d, but %d elements stay in the set throughout the call and at most %d can have been present: %s", l.N, stable, upper, r.histString())}
		}
	}
	return nil
}

// checkIterShape: strictly increasing, not before the start.
func (r *Runner) checkIterShape(set int) *vs.Failure {
	for i := range r.hist {
		rec := &r.hist[i]
		if rec.Op.Set != set || rec.Op.K != OpRange && rec.Op.K != OpRangeFrom {
			continue
		}
		last := -1
		for _, v := range rec.Vis {
			if v.Key <= last || v.Key < 0 {
				return &vs.Failure{Kind: "iteration", Msg: "values out of order or repeated: " + r.histString()}
			}
			if rec.Op.K == OpRangeFrom && v.Key < rec.Op.Key {
				return &vs.Failure{Kind: "iteration", Msg: "value before the start: " + r.histString()}
			}
			last = v.Key
		}
		if rec.Op.Stop > 0 && len(rec.Vis) > rec.Op.Stop {
			return &vs.Failure{Kind: "iteration", Msg: "callback called again after it returned false: " + r.histString()}
		}
	}
	return nil
}

func progressKind(k string) bool {
	return k == "panic" || k == "deadlock" || k == "livelock" || k == "hang"
}

var families = map[string]func(w *W){}

// point-operation drivers, shared by several properties
var drivers = map[string]func(w *W){
	"pair": func(w *W) {
		ops := cat(addOps(k123, k123), each1(R, k123), each1(C, k123))
		w.same(inits(k123, k123), seqs1(ops), 2)
	},
	"pairu": func(w *W) { // updates only
		ops := cat(addOps(k123, k123), each1(R, k123))
		w.same(inits(k123, k123), seqs1(ops), 2)
	},
	"news": func(w *W) { w.news() },
	"pairsx": func(w *W) { // values at both ends of the type's range
		k := []int{0, 1, NKeys - 1}
		ops := cat(addOps(k, k12), each1(R, k), each1(C, k), []Op{rng, RF(0), RF(NKeys - 1)})
		w.same(inits(k, k12), seqs1(ops), 2)
	},
	"pairs": func(w *W) { // small
		ops := cat(addOps(k123, k12), each1(R, k123), each1(C, k123))
		w.same(inits(k123, k12), seqs1(ops), 2)
	},
	"p12": func(w *W) {
		ops := cat(addOps(k12, k12), each1(R, k12), each1(C, k12))
		w.cross(inits(k12, k12), seqs1(ops), seqs2(ops))
	},
	"p12x": func(w *W) { // 3 keys
		ops := cat(addOps(k123, k12), each1(R, k123), each1(C, k123))
		w.cross(inits(k123, k12), seqs1(ops), seqs2(ops))
	},
	"p22": func(w *W) {
		ops := cat(addOps(k12, k12), each1(R, k12), each1(C, k12))
		w.same(inits(k12, k12), seqs2(ops), 2)
	},
	"p22s": func(w *W) {
		ops := cat(addOps(k12, []int{2}), each1(R, k12), each1(C, []int{1}))
		w.same(inits(k12, []int{2}), seqs2(ops), 2)
	},
	"p33": func(w *W) {
		ops := cat(addOps(k12, []int{2}), each1(R, k12))
		w.same(inits(k12, []int{2}), seqs3(ops), 2)
	},
	"p13": func(w *W) {
		ops := cat(addOps(k12, k12), each1(R, k12), each1(C, k12))
		w.cross(inits(k12, k12), seqs1(ops), seqs3(ops))
	},
	"p23": func(w *W) {
		ops := cat(addOps(k12, []int{2}), each1(R, k12), each1(C, k12))
		w.cross(inits(k12, k12), seqs2(ops), seqs3(ops))
	},
	"tri": func(w *W) {
		ops := cat(addOps(k12, k12), each1(R, k12), each1(C, k12))
		w.same(inits(k12, k12), seqs1(ops), 3)
	},
	"tris": func(w *W) { // updates only, one height
		ops := cat(addOps(k12, []int{2}), each1(R, k12))
		w.same(inits(k12, []int{2}), seqs1(ops), 3)
	},
	"tri3": func(w *W) {
		ops := cat(addOps(k123, []int{2}), each1(R, k123), each1(C, k123))
		w.same(inits(k123, k12), seqs1(ops), 3)
	},
	"tri211": func(w *W) {
		ops := cat(addOps([]int{1}, k12), addOps([]int{2}, []int{2}), each1(R, k12), each1(C, []int{1}))
		for _, a := range seqs2(ops) {
			for i := range ops {
				for j := i; j < len(ops); j++ {
					for _, s := range inits(k12, []int{2}) {
						if !w.conc(Scenario{Init: s, Thr: [][]Op{a, {ops[i]}, {ops[j]}}}) {
							return
						}
					}
				}
			}
		}
	},
	"quad": func(w *W) {
		ops := []Op{A(1, 1), A(1, 2), R(1), C(1), A(2, 2), R(2)}
		w.same(inits(k12, []int{2}), seqs1(ops), 4)
	},
	// tall nodes and concurrent raising of the index
	"tall": func(w *W) {
		ops := cat(addOps(k12, []int{1, 4, 5, 6}), each1(R, k12), each1(C, []int{1}), []Op{rng})
		w.same(inits(k12, []int{1, 5}), seqs1(ops), 2)
	},
	// the highest nodes there are, for exploration with few preemptions
	"tall16": func(w *W) {
		ops := []Op{A(1, 16), A(2, 16), A(1, 64), A(1, 1), R(1), R(2), C(1), rng, RF(2), lenO}
		w.same([][]KH{nil, {{1, 16}}, {{2, 16}}, {{1, 16}, {2, 1}}}, seqs1(ops), 2)
	},
	// every height the index can have, for exploration with few preemptions
	"tallh": func(w *W) {
		for h := 4; h <= 17; h++ {
			ops := []Op{A(1, h), A(2, h), R(1), R(2), C(2), rng}
			w.same([][]KH{nil, {{1, h}}, {{2, h}}, {{1, h - 1}, {2, h}}}, seqs1(ops), 2)
			// with a low element between
			ops = []Op{A(1, h), A(3, h), R(1), R(3), C(3)}
			w.same([][]KH{{{2, 1}}, {{1, h}, {2, 1}}, {{1, h}, {2, h - 1}}, {{2, h - 1}, {3, h}}, {{1, h}, {2, h - 1}, {3, h}}}, seqs1(ops), 2)
		}
	},
	"tall12": func(w *W) {
		ops := []Op{A(1, 5), A(2, 4), R(1), R(2), C(1)}
		w.cross([][]KH{nil, {{1, 5}}, {{2, 1}}, {{1, 5}, {2, 1}}}, seqs1(ops), seqs2(ops))
	},
	"tall3": func(w *W) {
		ops := []Op{A(1, 4), A(1, 5), A(2, 4), A(2, 6), R(1), C(1), C(2)}
		w.same(inits(k12, []int{1, 5}), seqs1(ops), 3)
	},
	// iterations
	"it1": func(w *W) {
		its := []Op{rng, RF(1), RF(2), RF(3), {K: OpRange, Stop: 1}}
		w.cross(inits(k123, k123), seqs1(its), seqs1(cat(addOps(k123, k123), each1(R, k123))))
	},
	"it2": func(w *W) {
		its := []Op{rng, RF(1), RF(2), RF(3)}
		w.cross(inits(k123, k12), seqs1(its), seqs2(cat(addOps(k123, k12), each1(R, k123))))
	},
	"it2s": func(w *W) {
		its := []Op{rng, RF(1), RF(2)}
		w.cross(inits(k123, []int{2}), seqs1(its), seqs2(cat(addOps(k123, []int{1}), each1(R, k123))))
	},
	"itc": func(w *W) { // an iteration and another read by the same thread
		its := [][]Op{{rng, C(1)}, {rng, C(2)}, {C(1), rng}, {C(2), rng}, {rng, rng}, {RF(2), C(2)}, {C(2), RF(2)}, {RF(1), rng}, {rng, RF(2)}, {RF(2), RF(1)}}
		w.cross(inits(k12, k12), its, seqs1(cat(addOps(k12, k123), each1(R, k12))))
	},
	"itc2": func(w *W) {
		its := [][]Op{{rng, C(1)}, {C(1), rng}, {rng, rng}, {RF(2), C(2)}, {C(2), RF(2)}, {rng, RF(2)}}
		w.cross(inits(k12, []int{2}), its, seqs2(cat(addOps(k12, []int{2}), each1(R, k12))))
	},
	"itc11": func(w *W) {
		its := [][]Op{{rng, C(1)}, {C(1), rng}, {rng, rng}, {RF(2), C(2)}}
		ops := seqs1(cat(addOps(k12, []int{2}), each1(R, k12)))
		w.cross(inits(k12, []int{2}), its, ops, ops)
	},
	"it3": func(w *W) {
		its := []Op{rng, RF(1), RF(2)}
		w.cross(inits(k12, k12), seqs1(its), seqs3(cat(addOps(k12, k12), each1(R, k12))))
	},
	"it11": func(w *W) {
		its := []Op{rng, RF(1), RF(2), RF(3)}
		w.readerAndPairs(inits(k123, []int{2}), its, cat(addOps(k123, []int{2}), each1(R, k123)))
	},
	"it12": func(w *W) {
		its := []Op{rng, RF(1), RF(2)}
		ops := cat(addOps(k12, []int{2}), each1(R, k12))
		w.cross(inits(k12, []int{2}), seqs1(its), seqs1(ops), seqs2(ops))
	},
	"ittall": func(w *W) {
		its := []Op{rng, RF(1), RF(2), RF(3)}
		w.cross(inits(k12, []int{1, 5}), seqs1(its), seqs2(cat(addOps(k12, []int{1, 5}), each1(R, k12))))
	},
	"it22": func(w *W) {
		ops := cat(addOps(k12, []int{2}), each1(R, k12))
		w.cross(inits(k12, []int{2}), seqs1([]Op{rng, RF(2)}), seqs2(ops), seqs2(ops))
	},
	"it111": func(w *W) {
		ops := cat(addOps(k123, []int{2}), each1(R, k123))
		w.cross(inits(k123, []int{2}), seqs1([]Op{rng, RF(2)}), seqs1(ops), seqs1(ops), seqs1(ops))
	},
	"rd111": func(w *W) {
		ops := cat(addOps(k12, []int{2}), each1(R, k12))
		w.cross(inits(k12, []int{2}), seqs1([]Op{C(1), rng, lenO}), seqs1(ops), seqs1(ops), seqs1(ops))
	},
	"len111": func(w *W) {
		ops := cat(addOps(k12, []int{2}), each1(R, k12))
		w.cross(inits(k12, []int{2}), seqs1([]Op{lenO}), seqs1(ops), seqs1(ops), seqs1(ops))
	},
	// Len
	"len2": func(w *W) {
		w.cross(inits(k12, k12), seqs1([]Op{lenO}), seqs2(cat(addOps(k12, k12), each1(R, k12))))
	},
	"len11": func(w *W) {
		w.readerAndPairs(inits(k12, k12), []Op{lenO}, cat(addOps(k12, k12), each1(R, k12)))
	},
	"len22": func(w *W) {
		ops := cat(addOps(k12, []int{1}), each1(R, k12))
		w.cross(inits(k12, []int{1}), [][]Op{{lenO, lenO}}, seqs1(ops), seqs2(ops))
	},
	"lenc": func(w *W) {
		ops := cat(addOps(k12, []int{1}), each1(R, k12))
		w.cross(inits(k12, []int{1}), [][]Op{{C(1), lenO}, {lenO, C(1)}, {C(1), lenO, C(1)}, {A(1, 2), lenO}, {R(1), lenO}}, seqs2(ops))
	},
	"lenc11": func(w *W) {
		ops := cat(addOps(k12, []int{1}), each1(R, k12))
		w.cross(inits(k12, []int{1}), [][]Op{{C(1), lenO}, {lenO, C(1)}, {lenO, rng}}, seqs1(ops), seqs1(ops))
	},
	// wait-free readers
	"rd1": func(w *W) {
		rd := cat(each1(C, k123), []Op{rng, RF(1), RF(2), RF(3), lenO})
		w.cross(inits(k123, k123), seqs1(rd), seqs1(cat(addOps(k123, k123), each1(R, k123))))
	},
	"rd2": func(w *W) {
		rd := []Op{C(1), C(2), rng, RF(1), RF(2), lenO}
		w.cross(inits(k12, k12), seqs1(rd), seqs2(cat(addOps(k12, k12), each1(R, k12))))
	},
	"rd11": func(w *W) {
		rd := []Op{C(1), C(2), rng, RF(1), RF(2), lenO}
		w.readerAndPairs(inits(k12, k12), rd, cat(addOps(k12, k12), each1(R, k12)))
	},
	"rdtall": func(w *W) {
		rd := []Op{C(1), C(2), rng, RF(1), RF(2), lenO}
		w.cross(inits(k12, []int{1, 5}), seqs1(rd), seqs1(cat(addOps(k12, []int{1, 5, 16}), each1(R, k12))))
	},
}

func concFam(driver string, oracle func(r *Runner) *vs.Failure, tweak func(w *W)) func(w *W) {
	d, ok := drivers[driver]
	if !ok {
		panic(driver)
	}
	return func(w *W) {
		w.r.Oracle = oracle
		if tweak != nil {
			tweak(w)
		}
		d(w)
		vs.E.ReportRaces, vs.E.Watch = false, 0
		vs.SameAgain, w.r.VisEvents = false, false
	}
}

func init() {
	for n, d := range patDrivers {
		drivers[n] = d
	}
	for n, d := range neighDrivers {
		drivers[n] = d
	}
	for n := range drivers {
		families["lin:"+n] = concFam(n, oracleLin, nil)
		families["all:"+n] = concFam(n, oracleAll, nil)
		families["iter:"+n] = concFam(n, oracleIter, func(w *W) { w.r.VisEvents = true })
		families["prog:"+n] = concFam(n, oracleProgress, func(w *W) {
			w.relevant = func(f *vs.Failure) bool { return progressKind(f.Kind) }
		})
		families["race:"+n] = concFam(n, oracleNone, func(w *W) {
			w.races = true
			w.relevant = func(f *vs.Failure) bool { return f.Kind == "race" }
		})
		families["len:"+n] = concFam(n, oracleLen, func(w *W) {
			w.relevant = func(f *vs.Failure) bool { return f.Kind == "len" }
		})
		families["wait:"+n] = concFam(n, oracleNone, func(w *W) {
			w.watch = 1 // thread 0 is the reader
			w.relevant = func(f *vs.Failure) bool { return f.Kind == "wait" }
		})
		families["mem:"+n] = concFam(n, oracleMem, func(w *W) {
			vs.TrackTypes = true
			vs.SameAgain = true // the oracle goes by the heights of the scenario
			w.r.Before = vs.ResetAllocs
			w.relevant = func(f *vs.Failure) bool { return f.Kind == "memory" }
		})
	}
}
