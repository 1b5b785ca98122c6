package main

import (
	"fmt"

	"verif.local/mc/vs"
)

// paddedSet is a set that holds pad further elements before and pad behind the
// keys of a scenario, present throughout, of the heights an even random source
// gives. The scenario sees its own keys only; the further elements are checked
// here: every iteration must pass all of them. A scenario may remove further
// elements too (those before the keys are -1, -2, ...), if it neither iterates
// nor calls Len meanwhile, and add them again.
type paddedSet struct {
	s    Set
	pad  int
	gone map[int]bool
}

// newPadded makes such a set, but for the further elements gone.
func newPadded(c *Ctor, pad int, gone map[int]bool) Set {
	s := c.Big(2*pad + NKeys)
	p := &paddedSet{s, pad, map[int]bool{}}
	add := func(i, h int) {
		if gone[i-pad] {
			p.gone[i-pad] = true
			return
		}
		vs.E.OnOpStart()
		vs.SetHeight(h)
		s.Add(i)
	}
	for i := 0; i < pad; i++ {
		low := 2 * i // up to 200 of height 1 before the keys: a long walk
		if pad > 200 {
			low = i
		}
		add(i, bulkHeights[1].f(low))
		add(pad+NKeys+i, bulkHeights[1].f(2*i+1))
	}
	return p
}

func (p *paddedSet) Add(k int) bool {
	ok := p.s.Add(p.pad + k)
	if ok && (k < 0 || k >= NKeys) {
		delete(p.gone, k)
	}
	return ok
}
func (p *paddedSet) Remove(k int) bool {
	ok := p.s.Remove(p.pad + k)
	if ok && (k < 0 || k >= NKeys) {
		p.gone[k] = true
	}
	return ok
}
func (p *paddedSet) Contains(k int) bool { return p.s.Contains(p.pad + k) }
func (p *paddedSet) Len() int            { return p.s.Len() - 2*p.pad + len(p.gone) }
func (p *paddedSet) raw() any            { return p.s.(rawer).raw() }

// next is the first further element from k on.
func (p *paddedSet) next(k int) int {
	for ; k == p.pad || p.gone[k-p.pad]; k++ {
		if k == p.pad {
			k = p.pad + NKeys - 1
		}
	}
	return k
}

// filter passes the scenario's keys on. next is the first further element.
func (p *paddedSet) filter(next int, it func(f func(int) bool), f func(k int) bool) {
	behind, n := p.pad+NKeys, 2*p.pad+NKeys
	next = p.next(next)
	stopped := false
	bad := func(v any) {
		vs.E.Fail(&vs.Failure{Kind: "iteration", Msg: fmt.Sprintf("the iteration goes on with %v although element %d is next (%d elements that stay in the set on each side of the keys)", v, next, p.pad)})
	}
	it(func(v int) bool {
		if v >= p.pad && v < behind {
			if next < behind {
				bad(v)
			}
			stopped = !f(v - p.pad)
			return !stopped
		}
		if v != next || stopped {
			bad(v)
		}
		next = p.next(next + 1)
		return true
	})
	if !stopped && next < n {
		bad("nothing")
	}
}

func (p *paddedSet) Range(f func(k int) bool) { p.filter(0, p.s.Range, f) }
func (p *paddedSet) RangeFrom(k int, f func(k int) bool) {
	p.filter(p.pad+NKeys, func(g func(int) bool) { p.s.RangeFrom(p.pad+k, g) }, f)
}
