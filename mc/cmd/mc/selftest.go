package main

import (
	"fmt"

	"verif.local/mc/vs"
)

// dfsChooser enumerates every interleaving of scheduling points, without any reduction.
type dfsChooser struct {
	prefix []int8
	enab   []uint8
	chosen []int8
	pos    int
}

func (d *dfsChooser) Choose(e *vs.Engine, enabled uint8) int {
	w := -1
	if d.pos < len(d.prefix) {
		w = int(d.prefix[d.pos])
	} else {
		for i := 0; i < vs.MaxT; i++ {
			if enabled&(1<<i) != 0 {
				w = i
				break
			}
		}
	}
	d.enab = append(d.enab, enabled)
	d.chosen = append(d.chosen, int8(w))
	d.pos++
	return w
}

func naive(r *Runner, sc *Scenario, max int) (n int, ok bool, fail *vs.Failure) {
	r.Sc, r.two = sc, usesTwo(sc)
	var prefix []int8
	for {
		d := &dfsChooser{prefix: prefix}
		complete := vs.E.RunWith(d, r.setup())
		if f := vs.E.Failure(); f != nil {
			return n, false, f
		}
		if complete {
			n++
			if f := r.after(); f != nil {
				return n, false, f
			}
		}
		if n > max {
			return n, false, nil
		}
		i := len(d.chosen) - 1
		for ; i >= 0; i-- {
			w := int(d.chosen[i]) + 1
			for w < vs.MaxT && d.enab[i]&(1<<w) == 0 {
				w++
			}
			if w < vs.MaxT {
				prefix = append(append([]int8(nil), d.chosen[:i]...), int8(w))
				break
			}
		}
		if i < 0 {
			return n, true, nil
		}
	}
}

// selftest compares the outcomes found with partial-order reduction with those of
// the enumeration of all interleavings, on drivers small enough for the latter.
func selftest() int {
	bad := 0
	cases := []Scenario{
		{Thr: [][]Op{{A(1, 1)}, {C(1)}}},
		{Thr: [][]Op{{A(1, 1)}, {lenO}}},
		{Init: []KH{{1, 1}}, Thr: [][]Op{{R(1)}, {C(1)}}},
		{Init: []KH{{1, 1}}, Thr: [][]Op{{R(1)}, {lenO, lenO}}},
		{Init: []KH{{2, 1}}, Thr: [][]Op{{A(1, 1)}, {RF(1)}}},
		{Init: []KH{{1, 1}}, Thr: [][]Op{{C(1)}, {C(1)}, {lenO}}},
		{Init: []KH{{1, 1}, {2, 1}}, Thr: [][]Op{{R(1)}, {rng}}},
	}
	for i := range cases {
		sc := &cases[i]
		r := NewRunner(&BaseCtors[0], oracleNone)
		vs.E.Stats = vs.Stats{}
		f, full := r.Explore(sc, 0)
		if f != nil || !full {
			fmt.Println("selftest:", sc, f, full)
			bad++
			continue
		}
		a := r.Out
		ex := vs.E.Stats.Executions
		r.Out = map[uint64]struct{}{}
		n, ok, nf := naive(r, sc, 3000000)
		if nf != nil || !ok {
			fmt.Println("selftest: naive", sc, n, nf, ok)
			continue
		}
		same := len(a) == len(r.Out)
		for h := range r.Out {
			if _, ok := a[h]; !ok {
				same = false
			}
		}
		fmt.Printf("selftest: %-50s reduced %d executions, all interleavings %d, outcomes %d and %d, equal=%v\n", sc, ex, n, len(a), len(r.Out), same)
		if !same {
			bad++
		}
	}
	if bad > 0 {
		return 1
	}
	return 0
}
