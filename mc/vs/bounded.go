package vs

import (
	"fmt"
	"time"
)

// boundChooser enumerates, depth first, every execution with at most K
// preemptions (switches away from a thread that could go on). Switches at
// blocked, spinning or finished threads and between two calls are free.
type boundChooser struct {
	k      int
	frames []bframe
	pos    int
}

type bframe struct {
	enabled, done uint8
	chosen        int8
	prev          int8 // thread that ran before, -1 if none or not enabled
	cost          int  // preemptions before this point
}

func (b *boundChooser) Choose(e *Engine, enabled uint8) int {
	i := b.pos
	b.pos++
	if i < len(b.frames) {
		f := &b.frames[i]
		if f.enabled != enabled {
			e.fail = &Failure{"nondeterminism", fmt.Sprintf("replay diverged at step %d: enabled %b, was %b", i, enabled, f.enabled)}
			return -1
		}
		return int(f.chosen)
	}
	f := bframe{enabled: enabled, prev: -1}
	if i > 0 {
		p := &b.frames[i-1]
		f.cost = p.cost
		if p.prev >= 0 && p.chosen != p.prev {
			f.cost++
		}
		if enabled&(1<<p.chosen) != 0 && e.threads[p.chosen].pk != KCall {
			f.prev = p.chosen
		}
	}
	e.Stats.States++
	e.Stats.Transitions++
	if f.prev >= 0 {
		f.chosen = f.prev
	} else {
		for enabled&(1<<f.chosen) == 0 {
			f.chosen++
		}
	}
	f.done = 1 << f.chosen
	b.frames = append(b.frames, f)
	return int(f.chosen)
}

// next moves to the next execution; false if there is none.
func (b *boundChooser) next() bool {
	for i := len(b.frames) - 1; i >= 0; i-- {
		f := &b.frames[i]
		c := f.enabled &^ f.done
		if c == 0 || f.prev >= 0 && f.cost >= b.k {
			continue
		}
		w := int8(0)
		for c&(1<<w) == 0 {
			w++
		}
		f.chosen = w
		f.done |= 1 << w
		b.frames = b.frames[:i+1]
		b.pos = 0
		return true
	}
	return false
}

// ExploreBounded runs every execution with at most k preemptions. Parameters and
// results are those of Explore.
func (e *Engine) ExploreBounded(mk func() []func(), after func() *Failure, k int, maxExec int64) (*Failure, bool) {
	e.newScenario()
	restarts := 0
	b := &boundChooser{k: k}
	var n int64
	for {
		b.pos = 0
		complete := e.RunWith(b, mk())
		if e.fail != nil {
			e.Stats.Executions++
			return e.fail, false
		}
		if e.needRestart {
			restarts++
			e.Stats.Restarts++
			if restarts > 200 {
				return &Failure{"nondeterminism", "too many restarts"}, false
			}
			b.frames = b.frames[:0]
			continue
		}
		if complete {
			e.Stats.Executions++
			if f := after(); f != nil {
				return f, false
			}
		} else {
			e.Stats.Pruned++
		}
		n++
		if !b.next() {
			return nil, true
		}
		if maxExec > 0 && n >= maxExec || n&255 == 0 && !e.Deadline.IsZero() && time.Now().After(e.Deadline) {
			e.Stats.Capped++
			return nil, false
		}
	}
}
