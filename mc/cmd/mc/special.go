package main

import (
	"fmt"
	"math/bits"

	"github.com/zhangyunhao116/skipset"
	"verif.local/mc/vs"
)

// ---- C09: every strict weak ordering ----

// weakOrders lists all weak orderings of n elements as rank vectors.
func weakOrders(n int) (res [][]int) {
	r := make([]int, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			// ranks must be 0..m without gaps
			seen := 0
			for _, x := range r {
				seen |= 1 << x
			}
			if seen&(seen+1) == 0 {
				res = append(res, append([]int(nil), r...))
			}
			return
		}
		for x := 0; x < n; x++ {
			r[i] = x
			rec(i + 1)
		}
	}
	rec(0)
	return
}

// funcCase runs one history over ids 1..n ordered by rank. T is a slice type,
// so that nothing but the given function can compare values.
func (w *W) funcCase(rank []int, ops []Op) *vs.Failure {
	type T = []int
	n := len(rank)
	var allowed [8]bool
	var bad *vs.Failure
	val := make([]T, n)
	for i := range val {
		val[i] = T{i}
	}
	pass := func(k int) T { allowed[k] = true; return val[k] }
	less := func(a, b T) bool {
		if len(a) != 1 || len(b) != 1 || !allowed[a[0]] || !allowed[b[0]] {
			if bad == nil {
				bad = &vs.Failure{Kind: "func", Msg: fmt.Sprintf("the comparison function was called with (%v, %v), not both values passed to the set", a, b)}
			}
			if len(a) != 1 || len(b) != 1 {
				return false
			}
		}
		return rank[a[0]] < rank[b[0]]
	}
	s := skipset.NewFunc(less)
	rep := [8]int{} // representative per rank, -1 none
	for i := range rep {
		rep[i] = -1
	}
	expect := func(from int) (ks []int) {
		for r := from; r < n; r++ {
			if rep[r] >= 0 {
				ks = append(ks, rep[r])
			}
		}
		return
	}
	iter := func(o Op, from int, f func(cb func(T) bool)) *vs.Failure {
		want := expect(from)
		i, ok, calls := 0, true, 0
		f(func(v T) bool {
			calls++
			if calls > 16 {
				ok = false
				return false
			}
			if len(v) != 1 || i >= len(want) || v[0] != want[i] {
				ok = false
				return false
			}
			i++
			return o.Stop == 0 || i < o.Stop
		})
		m := len(want)
		if o.Stop > 0 && o.Stop < m {
			m = o.Stop
		}
		if !ok || i != m || calls != m {
			return &vs.Failure{Kind: "func", Msg: fmt.Sprintf("ranks %v: %v does not visit the retained elements %v in order", rank, o, want)}
		}
		return nil
	}
	do := func(o Op) *vs.Failure {
		vs.E.OnOpStart()
		var got, want bool
		switch o.K {
		case OpAdd:
			vs.SetHeight(o.H)
			r := rank[o.Key]
			want = rep[r] < 0
			got = s.Add(pass(o.Key))
			if want {
				rep[r] = o.Key
			}
		case OpRemove:
			r := rank[o.Key]
			want = rep[r] >= 0
			got = s.Remove(pass(o.Key))
			rep[r] = -1
		case OpContains:
			want = rep[rank[o.Key]] >= 0
			got = s.Contains(pass(o.Key))
		case OpRange:
			return iter(o, 0, func(cb func(T) bool) { s.Range(cb) })
		case OpRangeFrom:
			return iter(o, rank[o.Key], func(cb func(T) bool) { s.RangeFrom(pass(o.Key), cb) })
		case OpLen:
			if g := s.Len(); g != len(expect(0)) {
				return &vs.Failure{Kind: "func", Msg: fmt.Sprintf("ranks %v: Len() = %d, want %d", rank, g, len(expect(0)))}
			}
			return nil
		}
		if got != want {
			return &vs.Failure{Kind: "func", Msg: fmt.Sprintf("ranks %v: %v = %v, want %v", rank, o, got, want)}
		}
		return nil
	}
	for _, o := range ops {
		w.res.Calls++
		if f := do(o); f != nil {
			return f
		}
		if bad != nil {
			return bad
		}
	}
	for k := 0; k < n; k++ {
		if f := do(C(k)); f != nil {
			return f
		}
		for st := 0; st < 2; st++ {
			o := RF(k)
			o.Stop = st
			if f := do(o); f != nil {
				return f
			}
		}
	}
	if f := do(rng); f != nil {
		return f
	}
	if f := do(lenO); f != nil {
		return f
	}
	for k := 0; k < n; k++ {
		if f := do(R(k)); f != nil {
			return f
		}
	}
	return bad
}

func (w *W) weak(n, depth int, heights []int) {
	keys := make([]int, n)
	for i := range keys {
		keys[i] = i
	}
	alpha := cat(addOps(keys, heights), each1(R, keys), each1(C, keys), each1(RF, keys[:1]))
	ops := make([]Op, depth)
	for _, rank := range weakOrders(n) {
		total := 1
		for i := 0; i < depth; i++ {
			total *= len(alpha)
		}
		for c := 0; c < total; c++ {
			x := c
			for i := range ops {
				ops[i] = alpha[x%len(alpha)]
				x /= len(alpha)
			}
			if !w.seq(func() string { return fmt.Sprintf("elements ranked %v: %s", rank, opsString(ops)) }, func() *vs.Failure { return w.funcCase(rank, ops) }) {
				return
			}
		}
	}
}

// reentrant: the comparison function of a read calls the set.
func (w *W) reentrant() {
	for _, in := range inits([]int{1, 2, 3, 4}, []int{1, 2}) {
		for _, rd := range []Op{C(0), C(2), C(3), C(5), RF(1), RF(3), rng} {
			for at := 1; at <= 3; at++ {
				for _, o := range []Op{A(2, 1), A(5, 2), A(0, 2), R(2), R(4), C(3), rng, lenO} {
					if !w.seq(func() string {
						return fmt.Sprintf("%v: at comparison %d of %v the comparison function calls %v", in, at, rd, o)
					}, func() *vs.Failure { return reentrantCase(in, rd, at, o) }) {
						return
					}
				}
			}
		}
	}
}

func reentrantCase(in []KH, rd Op, at int, o Op) *vs.Failure {
	armed, n, inside := false, 0, false
	var hook func()
	s := skipset.NewFunc(func(a, b int) bool {
		if armed && !inside {
			n++
			if n == at {
				inside = true
				hook()
				inside = false
			}
		}
		return a < b
	})
	ad := &adapter[int]{s, []int{0, 1, 2, 3, 4, 5, 6, 7}, func(v int) int { return v }}
	var m model
	for _, k := range in {
		if f := stepOp(ad, &m, A(k.K, k.H)); f != nil {
			return f
		}
	}
	before := m
	var bad *vs.Failure
	hook = func() { bad = stepOp(ad, &m, o) }
	armed = true
	vs.E.OnOpStart()
	var vis []int
	var res bool
	switch rd.K {
	case OpContains:
		res = ad.Contains(rd.Key)
	case OpRangeFrom:
		ad.RangeFrom(rd.Key, func(k int) bool { vis = append(vis, k); return len(vis) < 20 })
	case OpRange:
		ad.Range(func(k int) bool { vis = append(vis, k); return len(vis) < 20 })
	}
	armed = false
	if bad != nil {
		bad.Msg = "nested in a comparison: " + bad.Msg
		return bad
	}
	if rd.K == OpContains && res != before.has[rd.Key] && res != m.has[rd.Key] {
		return &vs.Failure{Kind: "result", Msg: fmt.Sprintf("%v = %v, before %v, after %v", rd, res, before.keys(), m.keys())}
	}
	if rd.K != OpContains {
		last := -1
		for _, k := range vis {
			if k <= last || !before.has[k] && !m.has[k] || rd.K == OpRangeFrom && k < rd.Key {
				return &vs.Failure{Kind: "iteration", Msg: fmt.Sprintf("%v visits %v, before %v, after %v", rd, vis, before.keys(), m.keys())}
			}
			last = k
		}
		for k := 0; k < NKeys; k++ {
			if before.has[k] && m.has[k] && !(rd.K == OpRangeFrom && k < rd.Key) {
				ok := false
				for _, v := range vis {
					ok = ok || v == k
				}
				if !ok {
					return &vs.Failure{Kind: "iteration", Msg: fmt.Sprintf("%v visits %v, before %v, after %v", rd, vis, before.keys(), m.keys())}
				}
			}
		}
	}
	if f := probeAll(ad, &m, false); f != nil {
		return f
	}
	return drain(ad, &m)
}

// ---- C12: callbacks that block while other threads work ----

func (w *W) freeze() {
	ups := cat(addOps([]int{0, 1, 2, 3}, []int{2}), each1(R, k123), each1(C, []int{2}), []Op{rng, lenO})
	for _, it := range []Op{rng, RF(1), RF(2)} {
		for at := 1; at <= 3; at++ {
			for _, in := range inits(k123, k12) {
				for _, u := range seqs2(ups) {
					o := it
					o.At, o.Freeze = at, true
					if !w.conc(Scenario{Init: in, Thr: [][]Op{{o}, u}}) {
						return
					}
				}
			}
		}
	}
}

// nestconc: a callback makes a call while another thread makes one.
func (w *W) nestconc() {
	ns := []Op{A(1, 1), A(2, 2), A(3, 1), R(1), R(2), R(3), C(2), rng}
	ups := cat(addOps(k123, []int{2}), each1(R, k123))
	for _, it := range []Op{rng, RF(1)} {
		for at := 1; at <= 2; at++ {
			for _, in := range inits(k123, []int{2}) {
				for _, n := range ns {
					for _, u := range ups {
						o := it
						o.At, o.Nested = at, []Op{n}
						if !w.conc(Scenario{Init: in, Thr: [][]Op{{o}, {u}}}) {
							return
						}
					}
				}
			}
		}
	}
}

// ---- C14: two sets ----

func onB(o []Op) (r []Op) {
	for _, x := range o {
		x.Set = 1
		r = append(r, x)
	}
	return
}

// ---- C10: raw outcomes of the random source ----

func (w *W) rawDraws() {
	vals := []uint32{0, 1, 1<<30 - 1, 1 << 30, 1 << 31, 3 << 30, ^uint32(0)}
	n := 1
	const L = 4
	for i := 0; i < L; i++ {
		n *= len(vals)
	}
	for c := 0; c < n; c++ {
		raw := make([]uint32, L)
		x := c
		for i := range raw {
			raw[i] = vals[x%len(vals)]
			x /= len(vals)
		}
		for runs := 0; runs <= 20; runs += 5 {
			pre := make([]uint32, runs)
			all := append(pre, raw...)
			if !w.seq(func() string { return fmt.Sprintf("adds under the draws %x (after %d zeros)", raw, runs) }, func() *vs.Failure {
				s := w.c.New()
				var m model
				for i := 0; i < 4; i++ {
					vs.E.OnOpStart()
					k := []int{3, 1, 5, 2}[i]
					vs.SetRaw(all[i*len(all)/8:])
					if !s.Add(k) {
						return &vs.Failure{Kind: "result", Msg: fmt.Sprintf("Add(%d) of an absent value is false", k)}
					}
					m.has[k] = true
					m.n++
					vs.SetRaw(all)
					if s.Add(k) {
						return &vs.Failure{Kind: "result", Msg: fmt.Sprintf("Add(%d) of a present value is true", k)}
					}
				}
				w.res.Calls += 8
				if f := probeAll(s, &m, false); f != nil {
					return f
				}
				for _, k := range []int{1, 5, 2, 3} {
					if f := stepOp(s, &m, R(k)); f != nil {
						return f
					}
				}
				return probeAll(s, &m, false)
			}) {
				return
			}
		}
	}
}

// ---- C17: cost ----

// costRun builds a set of n elements and returns the greatest and the average
// steps of the queries. src gives the draws of the i-th Add.
func (w *W) costRun(n int, order func(i int) int, src func(i int) []uint32, churn bool) (maxS, avgS map[string]float64, f *vs.Failure) {
	e := vs.E
	s := w.c.Big(n)
	e.OnOpStart()
	maxS, avgS = map[string]float64{}, map[string]float64{}
	note := func(what string) {
		x := float64(e.SeqSteps)
		if x > maxS[what] {
			maxS[what] = x
		}
		avgS[what] += x / float64(n)
	}
	g := guard("building a big set", func() {
		perm := make([]int, n)
		for i := range perm {
			perm[i] = order(i)
		}
		for i := 0; i < n; i++ {
			e.OnOpStart()
			vs.SetRaw(src(i))
			s.Add(perm[i])
		}
		if churn {
			for i := 0; i < n; i++ {
				if i%3 != 0 {
					e.OnOpStart()
					s.Remove(perm[i])
				}
			}
			for i := n - 1; i >= 0; i-- {
				if i%3 != 0 {
					e.OnOpStart()
					vs.SetRaw(src(i*7 + 3))
					s.Add(perm[i])
				}
			}
		}
		for k := 0; k < n; k++ {
			e.OnOpStart()
			if !s.Contains(k) {
				panic(&vs.Failure{Kind: "result", Msg: fmt.Sprintf("Contains(%d) is false", k)})
			}
			note("Contains")
			e.OnOpStart()
			s.RangeFrom(k, func(int) bool { return false })
			note("RangeFrom")
			e.OnOpStart()
			vs.SetRaw(src(k))
			if s.Add(k) {
				panic(&vs.Failure{Kind: "result", Msg: fmt.Sprintf("Add(%d) of a present value is true", k)})
			}
			note("Add of a present value")
			e.OnOpStart()
			if s.Len() != n {
				panic(&vs.Failure{Kind: "result", Msg: fmt.Sprintf("Len() = %d", s.Len())})
			}
			note("Len")
		}
		for i := 0; i < n; i++ {
			k := perm[i]
			e.OnOpStart()
			if !s.Remove(k) {
				panic(&vs.Failure{Kind: "result", Msg: fmt.Sprintf("Remove(%d) is false", k)})
			}
			note("Remove")
			e.OnOpStart()
			if s.Contains(k) {
				panic(&vs.Failure{Kind: "result", Msg: fmt.Sprintf("Contains(%d) after Remove is true", k)})
			}
			note("Contains of an absent value")
			e.OnOpStart()
			vs.SetRaw(src(i))
			if !s.Add(k) {
				panic(&vs.Failure{Kind: "result", Msg: fmt.Sprintf("Add(%d) after Remove is false", k)})
			}
			note("Add")
		}
	})
	return maxS, avgS, g
}

func digits(x, base, n int) (d []int) {
	for i := 0; i < n; i++ {
		d = append(d, x%base)
		x /= base
	}
	return
}

// srcDigits: the draws of Add i are the base-4 digits of (a bijection of) i, so
// that over n = 4^m Adds every sequence of m draws occurs equally often.
func srcDigits(n, mul int) func(i int) []uint32 {
	m := (bits.Len(uint(n)) - 1) / 2
	return func(i int) []uint32 {
		var raw []uint32
		for _, d := range digits(i*mul%n, 4, m) {
			raw = append(raw, uint32(d)*0x55555555)
		}
		return append(raw, ^uint32(0))
	}
}

// srcMix: well mixed 32-bit draws (for sources that use other bits of a draw).
func srcMix(seed uint64) func(i int) []uint32 {
	return func(i int) []uint32 {
		var raw []uint32
		x := seed + uint64(i)*0x9e3779b97f4a7c15
		for j := 0; j < 40; j++ {
			x += 0x9e3779b97f4a7c15
			z := x
			z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
			z = (z ^ z>>27) * 0x94d049bb133111eb
			raw = append(raw, uint32((z^z>>31)>>16))
		}
		return raw
	}
}

// cost measures every operation on every element at two sizes. The work at the
// larger one must stay within twice the growth of log n, on average over the
// elements and, more loosely, for each of them.
func (w *W) cost(n0, n1 int, muls ...int) {
	if w.c.Big == nil {
		return
	}
	orders := []struct {
		name string
		f    func(n int) func(i int) int
	}{
		{"ascending", func(n int) func(int) int { return func(i int) int { return i } }},
		{"descending", func(n int) func(int) int { return func(i int) int { return n - 1 - i } }},
		{"scattered", func(n int) func(int) int { return func(i int) int { return (i*(n/2+n/8+1) + n/3) % n } }},
	}
	growth := float64(bits.Len(uint(n1))-1) / float64(bits.Len(uint(n0))-1)
	for _, o := range orders {
		for _, churn := range []bool{false, true} {
			for _, mul := range muls {
				if !w.seq(func() string {
					return fmt.Sprintf("sizes %d and %d, insertion %s, churn %v, draw order %d", n0, n1, o.name, churn, mul)
				}, func() *vs.Failure {
					// Well mixed draws, and draws exhaustive in base 4 if the code asks for
					// one of four outcomes only.
					for _, mix := range []bool{false, true} {
						vs.Draws4, vs.DrawsAny = 0, 0
						var mx, av [2]map[string]float64
						for x, n := range []int{n0, n1} {
							src := srcDigits(n, mul)
							if mix {
								src = srcMix(uint64(mul))
							}
							m, avg, f := w.costRun(n, o.f(n), src, churn)
							w.res.Calls += int64(n) * 8
							w.res.SeqTrans += int64(n) * 8
							w.res.SeqStates += int64(n)
							if f != nil {
								return f
							}
							mx[x], av[x] = m, avg
						}
						if !mix && vs.DrawsAny > 0 {
							continue
						}
						for _, q := range []string{"Contains", "RangeFrom", "Add of a present value", "Remove", "Contains of an absent value", "Add", "Len"} {
							la, lm := 2*growth*av[0][q]+40, 3*growth*mx[0][q]+120
							if mix { // the shape of the index varies more
								la += 0.4*growth*av[0][q] + 10
							}
							if q == "Len" {
								la, lm = av[0][q]+4, mx[0][q]+4
							}
							if av[1][q] > la || mx[1][q] > lm {
								return &vs.Failure{Kind: "cost", Msg: fmt.Sprintf("%s: %.0f steps on average and %.0f at most at %d elements, %.0f and %.0f at %d elements (limits %.0f and %.0f; mixed draws: %v)", q, av[0][q], mx[0][q], n0, av[1][q], mx[1][q], n1, la, lm, mix)}
							}
						}
						if len(w.res.Notes) < 2 && w.c.Name == "NewInt" {
							w.res.Notes = append(w.res.Notes, fmt.Sprintf("%s %s (mixed draws: %v): average (greatest) steps of Contains %.1f (%.0f) at n=%d, %.1f (%.0f) at n=%d; of Add %.1f (%.0f), %.1f (%.0f); of Remove %.1f (%.0f), %.1f (%.0f)", w.c.Name, o.name, mix,
								av[0]["Contains"], mx[0]["Contains"], n0, av[1]["Contains"], mx[1]["Contains"], n1, av[0]["Add"], mx[0]["Add"], av[1]["Add"], mx[1]["Add"], av[0]["Remove"], mx[0]["Remove"], av[1]["Remove"], mx[1]["Remove"]))
						}
					}
					return nil
				}) {
					return
				}
			}
		}
	}
}

func init() {
	families["weak3"] = func(w *W) { w.weak(3, 4, k12) }
	families["weak4"] = func(w *W) { w.weak(4, 3, k12) }
	families["weak4d"] = func(w *W) { w.weak(4, 4, k12) }
	families["weak3d"] = func(w *W) { w.weak(3, 5, k12) }
	families["weak5"] = func(w *W) { w.weak(5, 3, k12) }
	families["reentrant"] = func(w *W) { w.reentrant() }
	families["freeze"] = func(w *W) { w.r.Oracle = oracleAll; w.freeze() }
	families["nestconc"] = func(w *W) { w.r.Oracle, w.r.VisEvents = oracleAll, true; w.nestconc(); w.r.VisEvents = false }
	families["nested1"] = func(w *W) { w.nested(k123, k12, 1) }
	families["nested2"] = func(w *W) { w.nested(k123, []int{2}, 2) }
	families["two"] = func(w *W) {
		w.r.Oracle = oracleAll
		w.relevant = func(f *vs.Failure) bool { return true }
		w.watch, w.races = 2, true
		w.twoConcWatch()
	}
	families["twonew"] = func(w *W) {
		w.r.Oracle = oracleAll
		w.relevant = func(f *vs.Failure) bool { return true }
		w.races = true
		w.news()
		vs.E.ReportRaces = false
	}
	families["twoseq"] = func(w *W) { w.twoSets(w.c, 4) }
	families["twoseqx"] = func(w *W) { w.twoSets(CtorByName("NewFunc[int]"), 4) }
	families["twoseqd"] = func(w *W) { w.twoSets(w.c, 5) }
	families["rawdraws"] = func(w *W) { w.rawDraws() }
	families["cost"] = func(w *W) { w.cost(64, 1024, 1, 5, 37) }
	families["cost4k"] = func(w *W) { w.cost(64, 4096, 1, 5) }
	families["cost16k"] = func(w *W) { w.cost(64, 16384, 37) }
	families["cost64k"] = func(w *W) { w.cost(64, 65536, 5) }

	families["bfs3"] = func(w *W) { w.bfs(bfsAlphabet([]int{0, 3, 7}, []int{1, 2, 3, 5}, true), false, false, 20000) }
	families["bfs4"] = func(w *W) { w.bfs(bfsAlphabet([]int{0, 2, 3, 7}, []int{1, 2, 4, 5}, true), false, false, 20000) }
	families["bfs5"] = func(w *W) { w.bfs(bfsAlphabet([]int{0, 1, 3, 6, 7}, []int{1, 2, 3, 5}, true), false, false, 60000) }
	families["bfsstop"] = func(w *W) { w.bfs(bfsAlphabet([]int{1, 2, 4, 6}, []int{1, 2, 4}, true), true, false, 20000) }
	families["bfsstop5"] = func(w *W) { w.bfs(bfsAlphabet([]int{0, 2, 3, 5, 7}, []int{1, 3, 5}, true), true, false, 60000) }
	families["bfsstop6"] = func(w *W) {
		w.bfs(bfsAlphabet([]int{0, 1, 2, 4, 5, 7}, []int{1, 2, 3}, true), true, false, 60000)
	}
	families["bfsstopt"] = func(w *W) { w.bfs(bfsAlphabet([]int{1, 3, 6}, []int{1, 5, 16}, true), true, false, 20000) }
	families["bfstall"] = func(w *W) {
		w.bfs(bfsAlphabet([]int{1, 2, 3}, []int{1, 3, 4, 5, 16, 1 << 20}, true), false, false, 20000)
	}
	families["bfstall2"] = func(w *W) {
		w.bfs(bfsAlphabet([]int{1, 2}, []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 33}, true), false, false, 20000)
	}
	families["bfsmem"] = func(w *W) {
		w.relevant = func(f *vs.Failure) bool { return f.Kind == "memory" }
		w.bfs(bfsAlphabet(k1234, []int{1, 2, 5}, true), false, true, 20000)
	}
	families["tree4"] = func(w *W) {
		w.tree(cat(addOps([]int{1, 2, 6}, k12), each1(R, []int{1, 2, 6}), each1(C, k12), []Op{rng, lenO, RF(2)}), 4, false)
	}
	families["tree5"] = func(w *W) {
		w.tree(cat(addOps(k12, []int{1, 2, 5}), each1(R, k12), each1(C, k12), []Op{rng, lenO, RF(2)}), 5, false)
	}
	families["tree6"] = func(w *W) {
		w.tree(cat(addOps(k12, []int{1, 2, 5}), each1(R, k12), each1(C, k12), []Op{rng, lenO, RF(2)}), 6, false)
	}
	memRel := func(f *vs.Failure) bool { return f.Kind == "memory" }
	families["gc4"] = func(w *W) { w.relevant = memRel; w.gc(4) }
	families["gc5"] = func(w *W) { w.relevant = memRel; w.gc(5) }
	families["churn"] = func(w *W) { w.relevant = memRel; w.gcChurn(6) }
}

// twoConcWatch: independence of results and progress of two sets.
// news: sets are made while others are made or used.
func (w *W) news() {
	c2s := []*Ctor{nil, CtorByName("NewFunc[int]")}
	nw := Op{K: OpNew}
	defer func() { w.r.C2 = nil }()
	for i, c2 := range c2s {
		if c2 == nil && i > 0 {
			continue
		}
		w.r.C2 = c2
		uses := [][]Op{{A(1, 1)}, {A(1, 5), C(1)}, {C(1), A(1, 2)}, {A(1, 1), R(1)}, {A(1, 17), rng}, {lenO, A(2, 3)}, {RF(1)}, {R(1), A(0, 1)}}
		for _, a := range uses {
			for _, b := range uses {
				if !w.conc(Scenario{Thr: [][]Op{cat([]Op{nw}, a), onB(cat([]Op{nw}, b))}}) {
					return
				}
				for _, s := range [][]KH{nil, {{1, 1}}, {{0, 5}, {1, 2}}} {
					if !w.conc(Scenario{Init: s, Thr: [][]Op{a, onB(cat([]Op{nw}, b))}}) {
						return
					}
				}
			}
		}
	}
}

func (w *W) twoConcWatch() {
	c2s := []*Ctor{nil}
	if w.t.Tier == "thorough" {
		for i := range BaseCtors {
			c2s = append(c2s, &BaseCtors[i])
		}
	} else {
		c2s = append(c2s, CtorByName("NewFunc[int]"))
	}
	for _, c2 := range c2s {
		w.r.C2 = c2
		w.watch, w.races = 2, true
		ops := []Op{A(1, 1), A(2, 2), A(1, 5), R(1), R(2), C(1), rng, lenO}
		for _, a := range ops {
			for _, b := range seqs1(onB(ops)) {
				for _, s := range inits(k12, k12) {
					if !w.conc(Scenario{Init: s, Init2: s, Thr: [][]Op{{a}, b}}) {
						return
					}
				}
			}
		}
		// each thread uses both sets
		w.watch, w.races = 0, false
		two := []Op{A(1, 2), R(1), C(1)}
		for _, a := range two {
			for _, b := range two {
				for _, c := range two {
					for _, d := range two {
						for _, s := range inits(k12, []int{2}) {
							if !w.conc(Scenario{Init: s, Init2: s, Thr: [][]Op{{a, onB([]Op{b})[0]}, {onB([]Op{c})[0], d}}}) {
								return
							}
						}
					}
				}
			}
		}
	}
}
