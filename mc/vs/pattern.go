package vs

import (
	"fmt"
	"time"
)

// Pattern is a periodic schedule of two threads: thread 0 is interrupted after
// First of its steps and then again after every Gap of them (counting every
// step, or only its lock operations if Locks is set: with After the interruption
// comes right after the lock operation, otherwise right before the next one); at
// every interruption thread 1 performs Burst whole calls (as far as it is not blocked). Gap 0: one
// interruption only.
type Pattern struct {
	First, Gap, Burst int
	Locks, After      bool
	// Turns: any number of threads take turns of Gap steps each, from thread
	// First on. Stack: each begins and is suspended after First steps, then they
	// finish one after the other, the last first if Back.
	Turns, Stack, Back bool
}

func (p Pattern) String() string {
	if p.Turns {
		return fmt.Sprintf("turns of %d steps, thread %d first", p.Gap, p.First)
	}
	if p.Stack {
		return fmt.Sprintf("each suspended after %d steps, then finished one by one (backwards: %v)", p.First, p.Back)
	}
	u := "steps"
	if p.Locks {
		u = "lock operations"
		if !p.After {
			u += ", before the next one"
		}
	}
	return fmt.Sprintf("interrupted after %d and every %d %s, %d calls", p.First, p.Gap, u, p.Burst)
}

type patternChooser struct {
	Pattern
	left  int // steps of thread 0 until the next interruption, -1: none
	calls int // calls thread 1 may still begin in this interruption
	other bool
	hits  int // interruptions so far
	cur   int // Turns, Stack: the thread whose turn it is
}

// turns chooses for Turns and Stack.
func (c *patternChooser) turns(e *Engine, enabled uint8) int {
	n := len(e.threads)
	if c.hits == 0 {
		c.hits, c.left = 1, c.First
		if c.Turns {
			c.cur, c.left = c.First%n, c.Gap
		}
	}
	if c.Stack {
		for ; c.cur < n; c.cur++ {
			if enabled&(1<<c.cur) != 0 && c.left > 0 {
				c.left--
				return c.cur
			}
			c.left = c.First
		}
		for i := 0; i < n; i++ {
			k := i
			if c.Back {
				k = n - 1 - i
			}
			if enabled&(1<<k) != 0 {
				return k
			}
		}
		return -1
	}
	for i := 0; i <= n; i++ {
		if enabled&(1<<c.cur) != 0 && c.left > 0 {
			c.left--
			return c.cur
		}
		c.cur, c.left = (c.cur+1)%n, c.Gap
	}
	return -1
}

func (c *patternChooser) Choose(e *Engine, enabled uint8) int {
	if c.Turns || c.Stack {
		return c.turns(e, enabled)
	}
	a, b := enabled&1 != 0, enabled&2 != 0
	t0, t1 := e.threads[0], e.threads[1]
	for {
		if c.other {
			if t1.done || !b || t1.pk == KCall && c.calls == 0 {
				if t1.done || t1.pk == KCall && c.calls == 0 || a {
					c.other = false
					c.left = c.Gap
					if c.Gap == 0 {
						c.left = -1
					}
				}
				if !a {
					if b {
						return c.begin(t1, 1)
					}
					return 0
				}
				continue
			}
			return c.begin(t1, 1)
		}
		if !a { // finished or blocked
			return c.begin(t1, 1)
		}
		lock := t0.pk == KLock || t0.pk == KTry
		if c.left == 0 && b && (!c.Locks || c.After || lock) {
			c.other, c.calls = true, c.Burst
			c.hits++
			continue
		}
		if c.left > 0 && (!c.Locks || lock) {
			c.left--
		}
		return 0
	}
}

func (c *patternChooser) begin(t *Thread, id int) int {
	if t.pk == KCall && c.calls > 0 {
		c.calls--
	}
	return id
}

// ExplorePatterns runs one execution per pattern. Parameters and results are
// those of Explore. A pattern whose first interruption never comes ends the
// patterns with a later one (Gap and Burst as before).
func (e *Engine) ExplorePatterns(mk func() []func(), after func() *Failure, ps []Pattern) (*Failure, bool) {
	e.newScenario()
	restarts := 0
	dead := map[Pattern]bool{}
	for n, p := range ps {
		key := p
		key.First = 0
		if dead[key] {
			continue
		}
		for {
			c := &patternChooser{Pattern: p, left: p.First}
			complete := e.RunWith(c, mk())
			e.Stats.States += int64(e.depth)
			e.Stats.Transitions += int64(e.depth)
			if e.fail != nil {
				e.Stats.Executions++
				return e.fail, false
			}
			if e.needRestart {
				restarts++
				e.Stats.Restarts++
				if restarts > 200 {
					return &Failure{"nondeterminism", "too many restarts"}, false
				}
				continue
			}
			if complete {
				e.Stats.Executions++
				if f := after(); f != nil {
					return f, false
				}
			} else {
				e.Stats.Pruned++
			}
			if c.hits == 0 {
				dead[key] = true
			}
			break
		}
		if n&63 == 0 && !e.Deadline.IsZero() && time.Now().After(e.Deadline) {
			e.Stats.Capped++
			return nil, false
		}
	}
	return nil, true
}
