// Package vs is a controlled scheduler for the instrumented copy of skipset.
//
// Every synchronisation operation of the code under test (atomics, locks) calls
// Pre before it takes effect. In concurrent mode the logical threads are
// coroutines of one goroutine; the scheduler decides at every Pre which thread
// goes on. Exploration is source-DPOR with sleep sets (Abdulla et al., POPL'14),
// without any preemption bound, or any other strategy plugged in as Chooser.
package vs

import (
	"fmt"
	"iter"
	"time"
	"unsafe"
)

// MaxT is the largest number of concurrent threads.
const MaxT = 7

type Kind uint8

const (
	KLoad    Kind = iota // atomic load (or promoted plain read)
	KStore               // atomic store (or promoted plain write)
	KRMW                 // atomic read-modify-write, CAS
	KLock                // exclusive acquire
	KRLock               // shared acquire
	KUnlock              // exclusive release
	KRUnlock             // shared release
	KTry                 // TryLock attempt
	KCall                // an operation starts (history event)
	KRet                 // an operation returns (history event)
	KBlock               // harness-level wait for a harness-level condition
	KPlainR              // plain read (not a scheduling point unless promoted)
	KPlainW              // plain write
	KVis                 // an iteration calls back (history event: an observation ends)
	KCont                // the callback returns (history event: an observation starts)
)

var kindName = [...]string{"load", "store", "rmw", "lock", "rlock", "unlock", "runlock", "trylock", "call", "ret", "block", "read", "write", "visit", "continue"}

func (k Kind) String() string { return kindName[k] }

func isLock(k Kind) bool { return k >= KLock && k <= KTry }

type clock [MaxT]int32

func (c *clock) join(d *clock) {
	for i := range c {
		if d[i] > c[i] {
			c[i] = d[i]
		}
	}
}

type event struct {
	tid   int8
	kind  Kind
	loc   int32
	idx   int32 // index among the events of its thread, from 1
	depth int32 // frame of the event
	clk   clock
}

const (
	modeSeq = iota
	modeConc
	modeAbort
)

type locInfo struct {
	ptr     unsafe.Pointer
	lastW   int32 // event index or -1
	reads   []int32
	evs     []int32 // lock and history events
	holder  int8    // exclusive holder, -1 none
	readers int8
	// Go happens-before bookkeeping
	rel     clock
	relR    clock
	plainW  clock
	plainR  clock
	atomW   clock
	atomR   clock
	siteW   [MaxT]int32
	siteR   [MaxT]int32
	foreign bool // touched by at least two threads
	owner   int8
}

type sigEnt struct {
	loc  int32
	kind Kind
	val  uint64
}

type loopRec struct{ prev, start int }

// Thread is one logical thread of an execution.
type Thread struct {
	ID      int
	body    func()
	next    func() (struct{}, bool)
	stop    func()
	yield   func(struct{}) bool
	started bool
	done    bool
	pk      Kind
	pl      int32
	psite   int32
	cond    func() bool
	clk     clock
	gclk    clock
	nev     int32
	parked  bool
	parkR   []int32
	sig     []sigEnt
	loops   map[int32]loopRec
	// OpSteps counts the shared steps of the current operation.
	OpSteps int
	// OpLocks counts the lock acquisitions of the current operation.
	OpLocks int
	nloops  int
	Parks   int
	Random  Script
	watch   bool
	fairRun int // when it last ran under fair scheduling
	solo    int
	spins   int
}

type frame struct {
	enabled, sleep, done, backtrack uint8
	chosen                          int8
	forced                          bool
	pk                              [MaxT]Kind
	pl                              [MaxT]int32
}

// Chooser picks the next thread among the enabled ones; -1 ends the execution.
type Chooser interface {
	Choose(e *Engine, enabled uint8) int
}

// Failure describes what stopped an execution.
type Failure struct {
	Kind string // panic, deadlock, livelock, race, or set by the harness
	Msg  string
}

func (f *Failure) Error() string { return f.Kind + ": " + f.Msg }

// Stats counts what an exploration covered.
type Stats struct {
	Executions  int64 // complete executions
	Pruned      int64 // executions cut because they were equivalent to an explored one
	States      int64 // distinct scheduling states (nodes of the exploration tree)
	Transitions int64 // transitions between them (events executed for the first time)
	Steps       int64 // events executed, replays included
	Parks       int64 // times a spinning thread was parked
	Races       int64 // pairs of plain accesses promoted to scheduling points
	Restarts    int64
	MaxDepth    int64
	Capped      int64 // scenarios whose exploration hit a cap
}

func (s *Stats) Add(o *Stats) {
	s.Executions += o.Executions
	s.Pruned += o.Pruned
	s.States += o.States
	s.Transitions += o.Transitions
	s.Steps += o.Steps
	s.Parks += o.Parks
	s.Races += o.Races
	s.Restarts += o.Restarts
	s.Capped += o.Capped
	if o.MaxDepth > s.MaxDepth {
		s.MaxDepth = o.MaxDepth
	}
}

type Engine struct {
	Deadline time.Time // exploration of a driver stops here
	mode     int
	threads  []*Thread
	cur      *Thread
	want     int // thread chosen by decide
	events   []event
	frames   []frame
	depth    int // next frame
	replay   int // number of frames to replay
	locs     []locInfo
	nlocs    int
	locOf    map[unsafe.Pointer]int32
	fail     *Failure
	abort    bool
	pruned   bool
	chooser  Chooser
	forced   int // rounds of forced unparking without progress
	writes   int64
	horizon  bool
	fairCur  int
	fairN    int

	Trace       bool
	TraceLog    []string
	ReportRaces bool
	// Watch is the set of threads that must never wait for another thread: a
	// lock another thread may hold, or a spin, is a failure of kind "wait".
	Watch       uint8
	SoloExtra   int // added to SoloLimit: the set is large
	soloT       int
	promoted    map[int32]bool
	needRestart bool
	usesTry     bool
	Stats       Stats

	// sequential-mode accounting
	SeqSteps int64
	SeqLimit int64
	SeqLocks int64
	Cur0     Script // random script of the sequential mode
	SiteName func(int32) string
	// Schedule of the last execution
	Schedule []int8
	MaxSteps int
	heldSeq  int

	// Burning: a thread seen to repeat an iteration is first run alone for a
	// while, to learn whether the loop ends by itself (see park).
	burnT    int
	burnN    int
	burnSite int32
	burnLocs []int32
	burned   int
	stayNow  map[int32]bool // loops that do not end by themselves, in this scenario
	stayCnt  map[int32]int  // scenarios that found so
	exits    map[int32]bool // loops that did end by themselves once
}

// burnMax is how many events a repeating loop is run alone.
const burnMax = 30000

func (e *Engine) newScenario() {
	clear(e.promoted)
	clear(e.stayNow)
	e.usesTry = false
}

func (e *Engine) stays(site int32) bool {
	return e.stayNow[site] || e.stayCnt[site] >= 5 && !e.exits[site]
}

// E is the engine of this process (one exploration at a time).
var E = &Engine{locOf: map[unsafe.Pointer]int32{}, promoted: map[int32]bool{}, stayNow: map[int32]bool{}, stayCnt: map[int32]int{}, exits: map[int32]bool{}, MaxSteps: 6000, SeqLimit: 2000000}

type abortT struct{}

var abortSentinel = abortT{}

const histLoc = 0

func (e *Engine) resetExec() {
	e.events = e.events[:0]
	for i := 0; i < e.nlocs; i++ {
		e.locs[i].ptr = nil
	}
	e.nlocs = 0
	clear(e.locOf)
	e.fail = nil
	e.abort = false
	e.pruned = false
	e.forced = 0
	e.writes = 0
	e.depth = 0
	e.horizon = false
	e.soloT = -1
	e.burnT, e.burned = -1, 0
	e.Schedule = e.Schedule[:0]
	e.TraceLog = e.TraceLog[:0]
	e.newLoc(nil) // histLoc
}

func (e *Engine) newLoc(p unsafe.Pointer) int32 {
	if e.nlocs == len(e.locs) {
		e.locs = append(e.locs, locInfo{})
	}
	l := &e.locs[e.nlocs]
	reads, evs := l.reads[:0], l.evs[:0]
	*l = locInfo{ptr: p, lastW: -1, holder: -1, owner: -1, reads: reads, evs: evs}
	e.nlocs++
	return int32(e.nlocs - 1)
}

func (e *Engine) loc(p unsafe.Pointer) int32 {
	if i, ok := e.locOf[p]; ok {
		return i
	}
	i := e.newLoc(p)
	e.locOf[p] = i
	return i
}

// Conc reports whether the engine runs concurrent threads now.
func (e *Engine) Conc() bool { return e.mode == modeConc }

// CurThread is the running thread, nil in sequential mode.
func (e *Engine) CurThread() *Thread {
	if e.mode == modeSeq {
		return nil
	}
	return e.cur
}

// Now is the number of events executed so far.
func (e *Engine) Now() int { return len(e.events) }

// Pre announces an operation; when it returns the operation may be performed.
func (e *Engine) Pre(k Kind, p unsafe.Pointer, site int32) {
	switch e.mode {
	case modeSeq:
		e.SeqSteps++
		if e.SeqSteps > e.SeqLimit {
			e.SeqSteps = 0
			panic(&Failure{"hang", "operation does not terminate (sequential step limit)"})
		}
		return
	case modeAbort:
		return
	}
	t := e.cur
	if p == nil && (k == KCall || k == KRet || k == KVis || k == KCont) {
		t.pl = histLoc
	} else {
		t.pl = e.loc(p)
	}
	t.pk, t.psite = k, site
	if k == KTry && !e.usesTry {
		e.usesTry = true
		e.needRestart = true
		e.abortNow()
	}
	if !t.started {
		t.started = true // its first event has been chosen already
	} else {
		e.schedulePoint(t)
	}
	e.exec(t)
}

// Block makes the current thread wait until cond holds (harness conditions only;
// cond must depend only on events of kind KCall/KRet/KBlock).
func (e *Engine) Block(cond func() bool) {
	if e.mode != modeConc {
		return
	}
	t := e.cur
	t.pk, t.pl, t.cond = KBlock, histLoc, cond
	e.schedulePoint(t)
	e.exec(t)
	t.cond = nil
}

func (e *Engine) abortNow() {
	e.abort = true
	panic(abortSentinel)
}

func (e *Engine) schedulePoint(t *Thread) {
	w := e.decide()
	if w == t.ID {
		return
	}
	e.want = w
	if !t.yield(struct{}{}) {
		panic(abortSentinel)
	}
}

// Post reports the value an operation observed (for spin detection) and whether it wrote.
func (e *Engine) Post(val uint64, wrote bool) {
	if e.mode != modeConc {
		return
	}
	t := e.cur
	ev := &e.events[len(e.events)-1]
	k := ev.kind
	if k == KRMW && !wrote {
		k = KLoad
	}
	if !wrote && ev.kind == KStore {
		wrote = true
	}
	t.sig = append(t.sig, sigEnt{ev.loc, k, val})
	e.goSync(t, ev.loc, ev.kind, wrote)
	if wrote {
		e.wrote(t, ev)
	}
}

func (e *Engine) wrote(t *Thread, ev *event) {
	e.writes++
	if e.burnT == t.ID {
		e.burnEnds()
	}
	e.forced = 0
	for _, q := range e.threads {
		if q.parked && q != t {
			for _, l := range q.parkR {
				if l == ev.loc {
					q.parked = false
					q.clk.join(&ev.clk)
					break
				}
			}
		}
	}
}

func (e *Engine) enabledOne(t *Thread) bool {
	if t.done || t.parked {
		return false
	}
	switch t.pk {
	case KLock:
		l := &e.locs[t.pl]
		return l.holder < 0 && l.readers == 0
	case KRLock:
		return e.locs[t.pl].holder < 0
	case KBlock:
		return t.cond()
	}
	return true
}

// starts: the history events that start an interval; the others end one.
func starts(k Kind) bool { return k == KCall || k == KCont }

func dependent(k1 Kind, l1 int32, k2 Kind, l2 int32) bool {
	if l1 != l2 {
		return false
	}
	if l1 == histLoc {
		if k1 == KBlock || k2 == KBlock {
			return true
		}
		return starts(k1) != starts(k2)
	}
	if k1 == KLoad && k2 == KLoad {
		return false
	}
	if k1 == KPlainR || k2 == KPlainR {
		return k1 != KLoad && k2 != KLoad && k1 != k2
	}
	return true
}

// decide picks the thread that runs the next event; -1: execution over (or aborted).
func (e *Engine) decide() int {
	if e.fail != nil || e.abort {
		return -1
	}
	var enabled uint8
	alive, parked := 0, 0
	for _, t := range e.threads {
		if t.done {
			continue
		}
		alive++
		if t.parked {
			parked++
			continue
		}
		if e.enabledOne(t) {
			enabled |= 1 << t.ID
		} else if t.watch && t.pk != KBlock {
			e.fail = &Failure{"wait", "a call that must not wait is blocked: " + e.describeBlocked()}
			return -1
		}
	}
	if alive == 0 {
		return -1
	}
	forced := false
	if e.soloT >= 0 {
		t := e.threads[e.soloT]
		if t.done || t.pk == KRet {
			e.soloT = -1
		} else {
			t.solo++
			if t.solo > SoloLimit+e.SoloExtra {
				e.fail = &Failure{"wait", "a call that must not wait does not finish when it runs alone: " + e.describeBlocked()}
				return -1
			}
			enabled = 1 << t.ID
			forced = true
		}
	}
	if e.burnT >= 0 {
		t := e.threads[e.burnT]
		if e.burnGoesOn(t) {
			e.burnN++
			e.burned++
			if e.burnN > burnMax {
				e.stayNow[e.burnSite] = true
				e.stayCnt[e.burnSite]++
				e.needRestart = true
				e.abort = true
				return -1
			}
			enabled = 1 << t.ID
			forced = true
		} else {
			e.burnEnds()
		}
	}
	if enabled == 0 {
		if parked == 0 {
			e.fail = &Failure{"deadlock", e.describeBlocked()}
			return -1
		}
		// Every live thread spins or is blocked. Let the spinners go round some
		// more times before calling it a livelock.
		e.forced++
		if e.forced > 40 {
			e.fail = &Failure{"livelock", "only spinning threads are left and nothing changes: " + e.describeBlocked()}
			return -1
		}
		forced = true
		for _, t := range e.threads {
			if !t.done && t.parked {
				t.parked = false
				t.sig = t.sig[:0]
				clear(t.loops)
				if e.enabledOne(t) {
					enabled |= 1 << t.ID
				}
			}
		}
		if enabled == 0 {
			e.fail = &Failure{"deadlock", e.describeBlocked()}
			return -1
		}
	}
	if e.horizon {
		return e.fair(enabled)
	}
	if len(e.events)-e.burned > e.MaxSteps {
		e.horizon = true
		e.fairCur, e.fairN = -1, 0
		return e.fair(enabled)
	}
	if e.chooser != nil {
		w := e.chooser.Choose(e, enabled)
		if w < 0 {
			e.pruned = true
			e.abort = true
			return -1
		}
		e.depth++
		e.Schedule = append(e.Schedule, int8(w))
		return w
	}
	var w int
	if e.depth < e.replay {
		f := &e.frames[e.depth]
		if f.enabled != enabled {
			e.fail = &Failure{"nondeterminism", fmt.Sprintf("replay diverged at step %d: enabled %b, was %b", e.depth, enabled, f.enabled)}
			return -1
		}
		if e.depth == e.replay-1 {
			e.savePend(f) // unchanged, but keeps sleeping siblings exact
			e.Stats.Transitions++
		}
		w = int(f.chosen)
	} else {
		var sleep uint8
		if e.depth > 0 {
			pf := &e.frames[e.depth-1]
			c := pf.chosen
			for _, t := range e.threads {
				b := uint8(1) << t.ID
				if int8(t.ID) != c && (pf.sleep|pf.done)&b != 0 &&
					!dependent(pf.pk[t.ID], pf.pl[t.ID], pf.pk[c], pf.pl[c]) && !t.parked {
					sleep |= b
				}
			}
		}
		can := enabled &^ sleep
		e.Stats.States++
		if can == 0 {
			e.pruned = true
			e.abort = true
			return -1
		}
		if e.cur != nil && can&(1<<e.cur.ID) != 0 {
			w = e.cur.ID
		} else {
			for w = 0; can&(1<<w) == 0; w++ {
			}
		}
		if e.depth == len(e.frames) {
			e.frames = append(e.frames, frame{})
		}
		f := &e.frames[e.depth]
		*f = frame{enabled: enabled, sleep: sleep, chosen: int8(w), backtrack: 1 << w, forced: forced || e.forced > 0}
		e.savePend(f)
		e.Stats.Transitions++
	}
	e.depth++
	e.Schedule = append(e.Schedule, int8(w))
	return w
}

func (e *Engine) burnGoesOn(t *Thread) bool {
	if t.done || !e.enabledOne(t) {
		return false
	}
	switch t.pk {
	case KStore, KCall, KRet, KBlock, KPlainW, KVis, KCont:
		return false
	}
	for _, l := range e.burnLocs {
		if l == t.pl {
			return true
		}
	}
	return false
}

func (e *Engine) burnEnds() {
	e.exits[e.burnSite] = true
	e.burnT = -1
}

func (e *Engine) savePend(f *frame) {
	for _, t := range e.threads {
		f.pk[t.ID], f.pl[t.ID] = t.pk, t.pl
	}
}

// fair runs threads in turns of 400 steps beyond the horizon. A thread that could
// run now (the lock it waits for may be free for a moment only) and has not run
// for 700 steps goes first.
func (e *Engine) fair(enabled uint8) int {
	now := len(e.events)
	if now-e.burned > e.MaxSteps+30000 {
		e.fail = &Failure{"livelock", "operations do not finish under fair scheduling: " + e.describeBlocked()}
		return -1
	}
	next := -1
	for _, t := range e.threads {
		if enabled&(1<<t.ID) != 0 && t.ID != e.fairCur && now-t.fairRun > 700 && (next < 0 || t.fairRun < e.threads[next].fairRun) {
			next = t.ID
		}
	}
	if next >= 0 {
		e.fairCur, e.fairN = next, 0
	} else if e.fairCur < 0 || e.fairN >= 400 || enabled&(1<<e.fairCur) == 0 {
		for i := 1; i <= MaxT; i++ {
			c := (e.fairCur + i + MaxT) % MaxT
			if enabled&(1<<c) != 0 {
				e.fairCur, e.fairN = c, 0
				break
			}
		}
	}
	e.fairN++
	e.threads[e.fairCur].fairRun = now
	e.Schedule = append(e.Schedule, int8(e.fairCur))
	return e.fairCur
}

func (e *Engine) describeBlocked() string {
	s := ""
	for _, t := range e.threads {
		if t.done {
			continue
		}
		st := "at " + t.pk.String()
		if t.parked {
			st = "spinning"
		} else if isLock(t.pk) && e.locs[t.pl].holder >= 0 {
			st = fmt.Sprintf("waiting for a lock held by T%d", e.locs[t.pl].holder)
		}
		s += fmt.Sprintf("T%d %s; ", t.ID, st)
	}
	return s
}

// exec performs the bookkeeping of t's pending event.
func (e *Engine) exec(t *Thread) {
	e.cur = t
	e.Stats.Steps++
	t.OpSteps++
	k, li := t.pk, t.pl
	l := &e.locs[li]
	t.nev++
	ei := int32(len(e.events))
	e.events = append(e.events, event{tid: int8(t.ID), kind: k, loc: li, idx: t.nev, depth: int32(e.depth - 1)})
	ev := &e.events[ei]
	if l.owner < 0 {
		l.owner = int8(t.ID)
	} else if l.owner != int8(t.ID) {
		l.foreign = true
	}

	dpor := e.chooser == nil && !e.horizon
	if dpor && e.depth-1 < e.replay-1 {
		dpor = false // races of replayed events are known
	}
	J := t.clk
	switch {
	case li == histLoc:
		for i := len(l.evs) - 1; i >= 0; i-- {
			f := &e.events[l.evs[i]]
			if !dependent(f.kind, li, k, li) || int(f.tid) == t.ID {
				continue
			}
			if dpor && J[f.tid] < f.idx && k != KBlock {
				e.race(f, l.evs[i], t, &J)
			}
			J.join(&f.clk)
		}
		l.evs = append(l.evs, ei)
	case isLock(k):
		if k == KUnlock || k == KRUnlock {
			if e.usesTry {
				for i := len(l.evs) - 1; i >= 0; i-- {
					f := &e.events[l.evs[i]]
					if f.kind == KTry && int(f.tid) != t.ID && dpor && J[f.tid] < f.idx {
						e.race(f, l.evs[i], t, &J)
					}
					J.join(&f.clk)
				}
			}
		} else {
			if t.watch && k != KTry {
				// Could the lock have been held when the watched thread came to it?
				// Yes if its last release is not ordered before the thread's previous step.
				for i := len(l.evs) - 1; i >= 0; i-- {
					f := &e.events[l.evs[i]]
					if int(f.tid) != t.ID && (f.kind == KUnlock || f.kind == KRUnlock && k == KLock) && J[f.tid] < f.idx {
						e.fail = &Failure{"wait", fmt.Sprintf("T%d must not wait but takes a lock that T%d may be holding", t.ID, f.tid)}
						e.abortNow()
					}
				}
			}
			for i := len(l.evs) - 1; i >= 0; i-- {
				f := &e.events[l.evs[i]]
				if (f.kind == KUnlock || f.kind == KRUnlock) && k != KTry {
					continue
				}
				if int(f.tid) != t.ID && dpor && J[f.tid] < f.idx {
					e.race(f, l.evs[i], t, &J)
				}
				J.join(&f.clk)
			}
			for i := len(l.evs) - 1; i >= 0; i-- {
				f := &e.events[l.evs[i]]
				J.join(&f.clk)
			}
		}
		l.evs = append(l.evs, ei)
	default:
		if k != KLoad && k != KPlainR {
			for i := len(l.reads) - 1; i >= 0; i-- {
				f := &e.events[l.reads[i]]
				if int(f.tid) != t.ID && dpor && J[f.tid] < f.idx {
					e.race(f, l.reads[i], t, &J)
				}
				J.join(&f.clk)
			}
		}
		if l.lastW >= 0 {
			f := &e.events[l.lastW]
			if int(f.tid) != t.ID && dpor && J[f.tid] < f.idx {
				e.race(f, l.lastW, t, &J)
			}
			J.join(&f.clk)
		}
		if k == KLoad || k == KPlainR {
			l.reads = append(l.reads, ei)
		} else {
			l.lastW = ei
			l.reads = l.reads[:0]
		}
	}
	J[t.ID] = t.nev
	t.clk = J
	ev.clk = J
	if e.Trace {
		e.TraceLog = append(e.TraceLog, fmt.Sprintf("T%d %s loc%d %s", t.ID, k, li, e.site(t.psite)))
	}

	switch k {
	case KLock:
		l.holder = int8(t.ID)
		t.OpLocks++
		t.sig = append(t.sig, sigEnt{li, k, 0})
		t.gclk.join(&l.rel)
		t.gclk.join(&l.relR)
	case KRLock:
		l.readers++
		t.OpLocks++
		t.sig = append(t.sig, sigEnt{li, k, 0})
		t.gclk.join(&l.rel)
	case KUnlock:
		if l.holder < 0 {
			// Locks taken before the concurrent phase do not exist in this harness.
			panic(&Failure{"panic", "unlock of unlocked mutex"})
		}
		l.holder = -1
		t.sig = append(t.sig, sigEnt{li, k, 0})
		l.rel = t.gclk
		t.gclk[t.ID]++
		e.wroteLock(t, ev)
	case KRUnlock:
		if l.readers == 0 {
			panic(&Failure{"panic", "RUnlock of unlocked RWMutex"})
		}
		l.readers--
		t.sig = append(t.sig, sigEnt{li, k, 0})
		l.relR.join(&t.gclk)
		t.gclk[t.ID]++
		e.wroteLock(t, ev)
	}
}

// wroteLock wakes spinners that watch a lock (TryLock loops).
func (e *Engine) wroteLock(t *Thread, ev *event) {
	for _, q := range e.threads {
		if q.parked && q != t {
			for _, l := range q.parkR {
				if l == ev.loc {
					q.parked = false
					q.clk.join(&ev.clk)
					break
				}
			}
		}
	}
}

func (e *Engine) site(s int32) string {
	if s == 0 || e.SiteName == nil {
		return ""
	}
	return e.SiteName(s)
}

// race handles a reversible race between event f (index fi) and t's pending event.
func (e *Engine) race(f *event, fi int32, t *Thread, J *clock) {
	fr := &e.frames[f.depth]
	if fr.forced {
		return
	}
	var first clock // first index in v per thread, 0 none
	var initials uint8
	for i := fi + 1; i < int32(len(e.events)-1); i++ {
		g := &e.events[i]
		if g.clk[f.tid] >= f.idx {
			continue // f happens before g
		}
		if first[g.tid] == 0 {
			first[g.tid] = g.idx
			ok := true
			for r := 0; r < len(e.threads); r++ {
				if r != int(g.tid) && first[r] != 0 && g.clk[r] >= first[r] {
					ok = false
					break
				}
			}
			if ok {
				initials |= 1 << g.tid
			}
		}
	}
	if first[t.ID] == 0 {
		ok := true
		for r := 0; r < len(e.threads); r++ {
			if r != t.ID && first[r] != 0 && J[r] >= first[r] {
				ok = false
				break
			}
		}
		if ok {
			initials |= 1 << t.ID
		}
	}
	if initials&(fr.backtrack|fr.sleep|fr.done) != 0 {
		return
	}
	c := initials & fr.enabled
	if c == 0 {
		fr.backtrack |= fr.enabled
		return
	}
	if c&(1<<t.ID) != 0 {
		fr.backtrack |= 1 << t.ID
		return
	}
	fr.backtrack |= c & -c
}

// goSync updates the happens-before clocks of the Go memory model for an atomic access.
func (e *Engine) goSync(t *Thread, li int32, k Kind, wrote bool) {
	if k == KPlainR || k == KPlainW || li == histLoc {
		return
	}
	l := &e.locs[li]
	if !wrote {
		t.gclk.join(&l.rel)
		e.checkRace(t, l, false, true, t.psite)
		return
	}
	if k == KRMW {
		t.gclk.join(&l.rel)
	}
	e.checkRace(t, l, true, true, t.psite)
	l.rel = t.gclk
	t.gclk[t.ID]++
}

func (e *Engine) checkRace(t *Thread, l *locInfo, write, atomic bool, site int32) {
	me := t.ID
	other := int32(-1)
	var who int
	var what string
	for r := range e.threads {
		if r == me {
			continue
		}
		switch {
		case l.plainW[r] > t.gclk[r]:
			other, who, what = l.siteW[r], r, "plain write"
		case write && l.plainR[r] > t.gclk[r]:
			other, who, what = l.siteR[r], r, "plain read"
		case !atomic && l.atomW[r] > t.gclk[r]:
			other, who, what = l.siteW[r], r, "atomic write"
		case !atomic && write && l.atomR[r] > t.gclk[r]:
			other, who, what = l.siteR[r], r, "atomic read"
		default:
			continue
		}
		break
	}
	if write {
		if atomic {
			l.atomW[me] = t.gclk[me]
		} else {
			l.plainW[me] = t.gclk[me]
			l.siteW[me] = site
		}
	} else {
		if atomic {
			l.atomR[me] = t.gclk[me]
		} else {
			l.plainR[me] = t.gclk[me]
			l.siteR[me] = site
		}
	}
	if other < 0 {
		return
	}
	if e.ReportRaces {
		acc := "read"
		if write {
			acc = "write"
		}
		if atomic {
			acc = "atomic " + acc
		} else {
			acc = "plain " + acc
		}
		e.fail = &Failure{"race", fmt.Sprintf("%s by T%d at %s is unordered with %s by T%d at %s", acc, me, e.site(site), what, who, e.site(other))}
		e.abortNow()
	}
	// Explore the order of these accesses as well: promote the plain ones.
	add := false
	if !atomic && !e.promoted[site] {
		e.promoted[site] = true
		add = true
	}
	if what[0] == 'p' && !e.promoted[other] {
		e.promoted[other] = true
		add = true
	}
	if add {
		e.Stats.Races++
		e.needRestart = true
		e.abortNow()
	}
}

// PlainR is called before a plain read of shared memory.
func (e *Engine) plain(p unsafe.Pointer, size uintptr, site int32, write bool) {
	t := e.cur
	k := KPlainR
	if write {
		k = KPlainW
	}
	words := int((size + 7) / 8)
	if words < 1 {
		words = 1
	}
	if words > 32 {
		words = 32
	}
	if e.promoted[site] {
		e.Pre(k, p, site)
		t = e.cur
		if write {
			e.wrote(t, &e.events[len(e.events)-1])
		}
	}
	for w := 0; w < words; w++ {
		li := e.loc(unsafe.Add(p, 8*w))
		l := &e.locs[li]
		if l.owner < 0 {
			l.owner = int8(t.ID)
		} else if l.owner != int8(t.ID) {
			l.foreign = true
		}
		t.sig = append(t.sig, sigEnt{li, k, 0})
		e.checkRace(t, l, write, false, site)
	}
}

// LoopEnter and Loop delimit loops of the code under test.
func (e *Engine) LoopEnter(site int32) {
	if e.mode == modeConc {
		delete(e.cur.loops, site)
	}
}

func (e *Engine) Loop(site int32) {
	switch e.mode {
	case modeSeq:
		e.SeqSteps++
		if e.SeqSteps > e.SeqLimit {
			e.SeqSteps = 0
			panic(&Failure{"hang", "operation does not terminate (loop limit)"})
		}
		return
	case modeAbort:
		panic(abortSentinel)
	}
	t := e.cur
	t.nloops++
	if t.watch && e.soloT < 0 && t.OpSteps > SoloLimit+e.SoloExtra {
		e.soloT, t.solo = t.ID, 0
	}
	if t.nloops > 3000000 {
		panic(&Failure{"livelock", "loop without synchronisation does not end at " + e.site(site)})
	}
	rec, ok := t.loops[site]
	if !ok {
		t.loops[site] = loopRec{-1, len(t.sig)}
		return
	}
	now := len(t.sig)
	if rec.start > now { // the log was cut by a forced wake-up
		t.loops[site] = loopRec{-1, now}
		return
	}
	if rec.prev >= 0 && e.sameIter(t, t.sig[rec.prev:rec.start], t.sig[rec.start:now]) {
		e.park(t, t.sig[rec.start:now], site)
	}
	t.loops[site] = loopRec{rec.start, now}
}

func (e *Engine) private(t *Thread, s *sigEnt) bool {
	if s.kind == KPlainW || s.kind == KPlainR {
		l := &e.locs[s.loc]
		return !l.foreign && l.plainW[t.ID] != 0
	}
	return false
}

func (e *Engine) sameIter(t *Thread, a, b []sigEnt) bool {
	i, j, n, bal := 0, 0, 0, 0
	for {
		for i < len(a) && e.private(t, &a[i]) {
			i++
		}
		for j < len(b) && e.private(t, &b[j]) {
			j++
		}
		if i == len(a) || j == len(b) {
			break
		}
		if a[i] != b[j] {
			return false
		}
		switch a[i].kind {
		case KStore, KRMW, KPlainW, KCall, KRet, KBlock, KVis, KCont:
			return false
		case KLock, KRLock:
			bal++
		case KUnlock, KRUnlock:
			bal--
			if bal < 0 {
				return false
			}
		}
		n++
		i++
		j++
	}
	return i == len(a) && j == len(b) && n > 0 && bal == 0
}

// SoloLimit bounds the own steps of a watched call that runs alone, SpinLimit
// how often it may repeat an iteration in which nothing is new.
const (
	SoloLimit = 600
	SpinLimit = 12
)

// park is called when t repeats an iteration of a loop and has seen nothing new.
func (e *Engine) park(t *Thread, it []sigEnt, site int32) {
	if t.watch {
		// It goes round a loop without news: let it run alone and see it finish.
		if e.soloT != t.ID {
			e.soloT, t.solo, t.spins = t.ID, 0, 0
		}
		if t.spins++; t.spins > SpinLimit {
			panic(&Failure{"wait", "a call that must not wait goes round a loop and only sees what it has seen, at " + e.site(site)})
		}
		return
	}
	if e.burnT == t.ID {
		return
	}
	t.parkR = t.parkR[:0]
	for i := range it {
		switch it[i].kind {
		case KLoad, KTry, KPlainR:
			t.parkR = append(t.parkR, it[i].loc)
		}
	}
	// Anything written to those locations by others since the iteration began
	// means it was not a stutter.
	start := int32(-1)
	cnt := 0
	for i := len(e.events) - 1; i >= 0 && cnt < len(it); i-- {
		if int(e.events[i].tid) == t.ID {
			cnt++
			start = int32(i)
		}
	}
	if start >= 0 {
		for i := start; i < int32(len(e.events)); i++ {
			ev := &e.events[i]
			if int(ev.tid) != t.ID && (ev.kind == KStore || ev.kind == KRMW || ev.kind == KPlainW || ev.kind == KUnlock) {
				for _, l := range t.parkR {
					if l == ev.loc {
						return
					}
				}
			}
		}
	}
	if !e.horizon && e.forced == 0 && !e.stays(site) {
		// Does the loop end by itself after a number of rounds?
		e.burnT, e.burnN, e.burnSite = t.ID, 0, site
		e.burnLocs = e.burnLocs[:0]
		for i := range it {
			e.burnLocs = append(e.burnLocs, it[i].loc)
		}
		return
	}
	t.parked = true
	t.Parks++
	e.Stats.Parks++
}

// OnOpStart resets the per-operation accounting of the current thread.
func (e *Engine) OnOpStart() {
	if e.mode == modeConc {
		t := e.cur
		t.OpSteps, t.OpLocks, t.nloops = 0, 0, 0
		t.sig = t.sig[:0]
		clear(t.loops)
	} else {
		e.SeqSteps, e.SeqLocks = 0, 0
	}
}

// Fail ends the execution with a failure found by the harness.
func (e *Engine) Fail(f *Failure) {
	e.fail = f
	if e.mode == modeConc {
		e.abortNow()
	}
	panic(f)
}

// RunOnce runs the bodies as concurrent threads until all are done, a failure or a prune.
// It returns true if the execution is complete.
func (e *Engine) RunOnce(bodies []func()) bool {
	e.resetExec()
	for len(e.threads) < len(bodies) {
		e.threads = append(e.threads, &Thread{ID: len(e.threads), loops: map[int32]loopRec{}})
	}
	e.threads = e.threads[:len(bodies)]
	for i, t := range e.threads {
		clear(t.loops)
		*t = Thread{ID: i, loops: t.loops, sig: t.sig[:0], parkR: t.parkR[:0], pk: KCall, pl: histLoc}
		t.body = bodies[i]
		t.gclk[i] = 1
		t.watch = e.Watch&(1<<i) != 0
		t.next, t.stop = iter.Pull(t.run)
	}
	e.mode = modeConc
	e.cur = nil
	w := e.decide()
	for w >= 0 {
		t := e.threads[w]
		e.cur = t
		e.want = -1
		_, more := t.next()
		if !more {
			t.done = true
			if e.fail != nil || e.abort {
				break
			}
			w = e.decide()
			continue
		}
		w = e.want
	}
	complete := e.fail == nil && !e.abort
	e.mode = modeAbort
	for _, t := range e.threads {
		if t.started || true {
			t.stop()
		}
	}
	e.mode = modeSeq
	e.cur = nil
	if d := int64(len(e.events)); d > e.Stats.MaxDepth {
		e.Stats.MaxDepth = d
	}
	return complete
}

func (t *Thread) run(yield func(struct{}) bool) {
	t.yield = yield
	e := E
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		if _, ok := r.(abortT); ok {
			return
		}
		if e.mode == modeAbort {
			return
		}
		if f, ok := r.(*Failure); ok {
			e.fail = f
			return
		}
		e.fail = &Failure{"panic", fmt.Sprint(r)}
	}()
	t.body()
}

// Failure of the last execution, if any.
func (e *Engine) Failure() *Failure { return e.fail }

// NeedsRestart tells that the last execution was given up to be run again with
// what was learned about the code (accesses to schedule, loops that spin).
func (e *Engine) NeedsRestart() bool { return e.needRestart }

// Pruned tells whether the last execution was cut as redundant.
func (e *Engine) Pruned() bool { return e.pruned }

// ThreadState exposes thread i (for harness oracles).
func (e *Engine) ThreadState(i int) *Thread { return e.threads[i] }

// Blocked tells whether thread i cannot take a step now.
func (e *Engine) Blocked(i int) bool { return !e.threads[i].done && !e.enabledOne(e.threads[i]) }

// Done tells whether thread i has finished.
func (e *Engine) Done(i int) bool { return e.threads[i].done }

// Explore runs every execution of the scenario up to equivalence. mk builds the
// bodies for one execution (fresh state each time); after is called after every
// complete execution in sequential mode and returns a failure or nil. It returns
// the first failure (nil if none) and whether the space was exhausted.
func (e *Engine) Explore(mk func() []func(), after func() *Failure, maxExec int64) (*Failure, bool) {
	e.chooser = nil
	e.newScenario()
restart:
	e.needRestart = false
	e.frames = e.frames[:0]
	e.replay = 0
	var n int64
	restarts := 0
	for {
		e.abort, e.fail = false, nil
		complete := e.RunOnce(mk())
		if e.fail != nil {
			e.Stats.Executions++
			return e.fail, false
		}
		if e.needRestart {
			restarts++
			e.Stats.Restarts++
			if restarts > 200 {
				return &Failure{"nondeterminism", "too many restarts"}, false
			}
			goto restart
		}
		if complete {
			e.Stats.Executions++
			n++
			if f := after(); f != nil {
				return f, false
			}
		} else {
			e.Stats.Pruned++
			n++
		}
		// backtrack
		d := e.depth - 1
		if d >= len(e.frames) {
			d = len(e.frames) - 1
		}
		for ; d >= 0; d-- {
			f := &e.frames[d]
			f.done |= 1 << f.chosen
			if c := f.backtrack &^ (f.done | f.sleep) & f.enabled; c != 0 {
				w := 0
				for c&(1<<w) == 0 {
					w++
				}
				f.chosen = int8(w)
				break
			}
		}
		if d < 0 {
			return nil, true
		}
		e.frames = e.frames[:d+1]
		e.replay = d + 1
		if maxExec > 0 && n >= maxExec || n&255 == 0 && !e.Deadline.IsZero() && time.Now().After(e.Deadline) {
			e.Stats.Capped++
			return nil, false
		}
	}
}

// RunWith runs one execution under a chooser.
func (e *Engine) RunWith(c Chooser, bodies []func()) bool {
	e.chooser = c
	e.needRestart = false
	e.abort, e.fail = false, nil
	ok := e.RunOnce(bodies)
	e.chooser = nil
	return ok
}

// FixedSchedule replays a recorded schedule.
type FixedSchedule struct {
	S   []int8
	pos int
	Bad bool
}

func (f *FixedSchedule) Choose(e *Engine, enabled uint8) int {
	if f.pos < len(f.S) {
		w := int(f.S[f.pos])
		f.pos++
		if enabled&(1<<w) == 0 {
			f.Bad = true
			return -1
		}
		return w
	}
	for w := 0; w < MaxT; w++ {
		if enabled&(1<<w) != 0 {
			return w
		}
	}
	return -1
}

// ForceSeq puts the engine back into sequential mode.
func (e *Engine) ForceSeq() { e.mode, e.cur, e.chooser = modeSeq, nil, nil }

// Aborting reports whether coroutines are being unwound.
func (e *Engine) Aborting() bool { return e.mode == modeAbort }

// TryResult finishes a TryLock attempt.
func (e *Engine) TryResult(ok bool) {
	if e.mode != modeConc {
		return
	}
	t := e.cur
	ev := &e.events[len(e.events)-1]
	l := &e.locs[ev.loc]
	v := uint64(0)
	if ok {
		v = 1
		l.holder = int8(t.ID)
		t.OpLocks++
		t.gclk.join(&l.rel)
		t.gclk.join(&l.relR)
		t.sig = append(t.sig, sigEnt{ev.loc, KLock, 1})
	} else {
		t.sig = append(t.sig, sigEnt{ev.loc, KTry, v})
	}
}
