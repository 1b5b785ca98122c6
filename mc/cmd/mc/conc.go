package main

import (
	"fmt"
	"sort"
	"strings"

	"verif.local/mc/vs"
)

type OpKind uint8

const (
	OpAdd OpKind = iota
	OpRemove
	OpContains
	OpRange
	OpRangeFrom
	OpLen
	OpFn  // a call of an internal helper (C19)
	OpNew // makes the set anew
)

var opNames = [...]string{"Add", "Remove", "Contains", "Range", "RangeFrom", "Len", "fn", "New"}

var opFnString func(o Op) string

// Op is one call. Set selects the set (scenarios with two sets). Stop > 0 makes
// an iteration callback return false at its Stop-th call. Nested are calls made
// by the iteration callback when it is given rank At.
type Op struct {
	K      OpKind
	Key    int
	H      int
	Set    int
	Stop   int
	At     int
	Nested []Op
	Freeze bool // the callback waits at rank At until all other threads are done
	Panic  bool // the callback panics at rank At
	If     int8 // 1, 2: made only if the call before it in its thread returned false, true
}

func (o Op) String() string {
	if o.K == OpFn {
		return opFnString(o)
	}
	s := ""
	if o.If > 0 {
		s = "if " + [...]string{"", "false", "true"}[o.If] + ": "
	}
	if o.Set > 0 {
		s += "B."
	}
	switch o.K {
	case OpAdd:
		s += fmt.Sprintf("Add(%d)h%d", o.Key, o.H)
	case OpLen:
		s += "Len()"
	case OpNew:
		s += "New()"
	case OpRange:
		s += "Range()"
	case OpRangeFrom:
		s += fmt.Sprintf("RangeFrom(%d)", o.Key)
	default:
		s += fmt.Sprintf("%s(%d)", opNames[o.K], o.Key)
	}
	if o.Stop > 0 {
		s += fmt.Sprintf("stop%d", o.Stop)
	}
	if len(o.Nested) > 0 {
		s += fmt.Sprintf("{at %d: %v}", o.At, o.Nested)
	}
	if o.Freeze {
		s += fmt.Sprintf("{at %d: blocks}", o.At)
	}
	if o.Panic {
		s += fmt.Sprintf("{at %d: panics}", o.At)
	}
	return s
}

// KH is an element of an initial state: rank and height.
type KH struct{ K, H int }

// Scenario is a closed driver: an initial state and the calls of each thread.
type Scenario struct {
	Init  []KH
	Pre   []Op // further calls made sequentially before the threads start
	Thr   [][]Op
	Init2 []KH // second set, if any op uses it
	Pad   int  // so many further elements before and behind the keys
	Long  bool // executions of more than a few thousand steps are expected
}

func (s *Scenario) String() string {
	var b strings.Builder
	b.WriteString("init{")
	for i, k := range s.Init {
		if i > 0 {
			b.WriteByte(' ')
		}
		fmt.Fprintf(&b, "%d:h%d", k.K, k.H)
	}
	b.WriteString("}")
	if s.Pad > 0 {
		fmt.Fprintf(&b, " in the middle of %d elements", 2*s.Pad)
	}
	if len(s.Pre) > 0 {
		fmt.Fprintf(&b, " pre%v", s.Pre)
	}
	for _, t := range s.Thr {
		fmt.Fprintf(&b, " || %v", t)
	}
	return b.String()
}

// Visit is one callback of an iteration: called at At, over at End.
type Visit struct{ Key, At, End int }

// Rec is a completed (or running) call of a history.
type Rec struct {
	T         int
	Op        Op
	Res       bool
	N         int
	Vis       []Visit
	Stopped   bool
	Call, Ret int
	Steps     int
	Locks     int
}

func (r *Rec) String() string {
	s := fmt.Sprintf("T%d [%d,%d] %s", r.T, r.Call, r.Ret, r.Op.String())
	switch r.Op.K {
	case OpRange, OpRangeFrom:
		s += fmt.Sprintf(" -> %v", r.Vis)
	case OpLen, OpFn:
		s += fmt.Sprintf(" -> %d", r.N)
	default:
		s += fmt.Sprintf(" -> %v", r.Res)
	}
	return s
}

// History of one execution.
type History struct {
	Recs  []Rec
	Final [2]FinalState
}

// FinalState is what the quiescent probe saw.
type FinalState struct {
	Has   [NKeys]bool
	Count int
}

const infTime = 1 << 30

// Runner explores scenarios of one constructor.
type Runner struct {
	C      *Ctor
	C2     *Ctor  // constructor of the second set, if not C
	Before func() // called before the sets are made
	Sc     *Scenario
	sets   [2]Set
	two    bool
	hist   []Rec
	Oracle func(r *Runner) *vs.Failure
	Out    map[uint64]struct{} // distinct outcomes (hashes)
	linOK  map[string]bool
	keybuf []byte
	Deep   bool // destructive part of the probe
	// The times of the callbacks of an iteration matter: they are events.
	VisEvents bool
	Bound     int          // if positive, explore up to this many preemptions only
	Pats      []vs.Pattern // if any, explore these periodic schedules only
	probes    int64
}

func NewRunner(c *Ctor, oracle func(r *Runner) *vs.Failure) *Runner {
	return &Runner{C: c, Oracle: oracle, Out: map[uint64]struct{}{}, linOK: map[string]bool{}, Deep: true}
}

func build(s Set, init []KH) {
	for _, k := range init {
		vs.SetHeight(k.H)
		s.Add(k.K)
	}
}

func (r *Runner) ctor(set int) *Ctor {
	if set == 1 && r.C2 != nil {
		return r.C2
	}
	return r.C
}

func usesTwo(sc *Scenario) bool {
	for _, t := range sc.Thr {
		for _, o := range t {
			if o.Set > 0 {
				return true
			}
		}
	}
	return len(sc.Init2) > 0
}

type cbPanicT struct{}

var cbPanic = &cbPanicT{}

// catch recovers the panic of an iteration callback.
func catch(on bool, f func()) {
	if on {
		defer func() {
			if x := recover(); x != nil && x != any(cbPanic) {
				panic(x)
			}
		}()
	}
	f()
}

// call performs op on behalf of thread tid and records it.
func (r *Runner) call(tid int, op Op) {
	e := vs.E
	i := len(r.hist)
	r.hist = append(r.hist, Rec{T: tid, Op: op, Call: e.Now(), Ret: infTime})
	s := r.sets[op.Set]
	var res bool
	var n int
	visit := func(k int) bool {
		if r.VisEvents {
			e.Pre(vs.KVis, nil, 0)
		}
		rec := &r.hist[i]
		vi := len(rec.Vis)
		rec.Vis = append(rec.Vis, Visit{k, e.Now(), infTime})
		if len(rec.Vis) > 64 {
			e.Fail(&vs.Failure{Kind: "livelock", Msg: "iteration calls back without end"})
		}
		if len(op.Nested) > 0 && k == op.At {
			for _, no := range op.Nested {
				r.call(tid, no)
			}
		}
		if op.Freeze && k == op.At {
			e.Block(func() bool {
				for t := range r.Sc.Thr {
					if t != tid && !e.Done(t) {
						return false
					}
				}
				return true
			})
		}
		rec = &r.hist[i]
		if r.VisEvents {
			e.Pre(vs.KCont, nil, 0)
		}
		rec.Vis[vi].End = e.Now()
		if op.Panic && k == op.At {
			rec.Stopped = true
			panic(cbPanic)
		}
		if op.Stop > 0 && len(rec.Vis) >= op.Stop {
			rec.Stopped = true
			return false
		}
		return true
	}
	switch op.K {
	case OpAdd:
		vs.SetHeight(op.H)
		res = s.Add(op.Key)
	case OpRemove:
		res = s.Remove(op.Key)
	case OpContains:
		res = s.Contains(op.Key)
	case OpRange:
		catch(op.Panic, func() { s.Range(visit) })
	case OpRangeFrom:
		catch(op.Panic, func() { s.RangeFrom(op.Key, visit) })
	case OpLen:
		n = s.Len()
	case OpNew:
		r.sets[op.Set] = r.ctor(op.Set).New()
	case OpFn:
		n = s.(interface{ fn(o Op) int }).fn(op)
	}
	rec := &r.hist[i]
	rec.Res, rec.N, rec.Ret = res, n, e.Now()
}

func (r *Runner) body(tid int) func() {
	return func() {
		e := vs.E
		prev := false
		for _, op := range r.Sc.Thr[tid] {
			if op.If > 0 && prev != (op.If == 2) {
				return
			}
			e.OnOpStart()
			e.Pre(vs.KCall, nil, 0)
			i := len(r.hist)
			r.call(tid, op)
			t := e.CurThread()
			r.hist[i].Steps, r.hist[i].Locks = t.OpSteps, t.OpLocks
			e.OnOpStart()
			e.Pre(vs.KRet, nil, 0)
			r.hist[i].Ret = e.Now()
			prev = r.hist[i].Res
		}
	}
}

// setup builds the initial state and returns the thread bodies.
func (r *Runner) setup() []func() {
	e := vs.E
	e.OnOpStart()
	vs.ResetGlobals()
	if r.Before != nil {
		r.Before()
	}
	r.hist = r.hist[:0]
	if r.Sc.Pad > 0 {
		r.sets[0] = newPadded(r.C, r.Sc.Pad, nil)
	} else {
		r.sets[0] = r.C.New()
	}
	build(r.sets[0], r.Sc.Init)
	if r.two {
		r.sets[1] = r.ctor(1).New()
		build(r.sets[1], r.Sc.Init2)
	}
	for _, o := range r.Sc.Pre {
		s := r.sets[o.Set]
		switch o.K {
		case OpAdd:
			vs.SetHeight(o.H)
			s.Add(o.Key)
		case OpRemove:
			s.Remove(o.Key)
		}
	}
	b := make([]func(), len(r.Sc.Thr))
	for i := range b {
		b[i] = r.body(i)
	}
	return b
}

func (r *Runner) after() (f *vs.Failure) {
	r.note()
	return r.Oracle(r)
}

// note counts distinct outcomes.
func (r *Runner) note() {
	h := uint64(14695981039346656037)
	mix := func(x int) { h = (h ^ uint64(x)) * 1099511628211 }
	// order by thread: recs of one thread are in order already
	for t := range r.Sc.Thr {
		for i := range r.hist {
			rec := &r.hist[i]
			if rec.T != t {
				continue
			}
			mix(t + 1)
			if rec.Res {
				mix(7)
			}
			mix(rec.N + 11)
			for _, v := range rec.Vis {
				mix(v.Key + 101)
			}
		}
	}
	r.Out[h] = struct{}{}
}

// Explore explores the scenario completely (or up to maxExec executions).
func (r *Runner) Explore(sc *Scenario, maxExec int64) (*vs.Failure, bool) {
	r.Sc = sc
	r.two = usesTwo(sc)
	defer sc.steps()()
	if len(r.Pats) > 0 {
		return vs.E.ExplorePatterns(r.setupSafe, r.after, r.Pats)
	}
	if r.Bound > 0 {
		return vs.E.ExploreBounded(r.setupSafe, r.after, r.Bound, maxExec)
	}
	return vs.E.Explore(r.setupSafe, r.after, maxExec)
}

// steps sets the number of steps after which scheduling becomes fair.
func (s *Scenario) steps() func() {
	old := vs.E.MaxSteps
	if s.Long || s.Pad > 0 {
		vs.E.MaxSteps = 60000
	}
	n := 0
	for _, t := range s.Thr {
		n += len(t)
	}
	vs.E.MaxSteps = max(vs.E.MaxSteps, 300*n)
	vs.E.SoloExtra = 100 * s.Pad
	return func() { vs.E.MaxSteps, vs.E.SoloExtra = old, 0 }
}

func (r *Runner) setupSafe() []func() { return r.setup() }

// guard runs fn sequentially, turning panics into failures.
func guard(what string, fn func()) (f *vs.Failure) {
	defer func() {
		if x := recover(); x != nil {
			if vf, ok := x.(*vs.Failure); ok {
				f = &vs.Failure{Kind: vf.Kind, Msg: what + ": " + vf.Msg}
				return
			}
			f = &vs.Failure{Kind: "panic", Msg: what + ": " + fmt.Sprint(x)}
		}
	}()
	fn()
	return nil
}

// initialHas is the state before the threads start.
func (r *Runner) initialHas(set int) (h [NKeys]bool) {
	init := r.Sc.Init
	if set == 1 {
		init = r.Sc.Init2
	}
	for _, k := range init {
		h[k.K] = true
	}
	for _, o := range r.Sc.Pre {
		if o.Set != set {
			continue
		}
		switch o.K {
		case OpAdd:
			h[o.Key] = true
		case OpRemove:
			h[o.Key] = false
		}
	}
	return
}

// probe reads the quiescent state through Contains and Len, in sequential mode.
func (r *Runner) probe(set int) (fs FinalState, f *vs.Failure) {
	s := r.sets[set]
	e := vs.E
	f = guard("after all calls returned", func() {
		for k := 0; k < NKeys; k++ {
			e.OnOpStart()
			fs.Has[k] = s.Contains(k)
			if fs.Has[k] {
				fs.Count++
			}
		}
	})
	return
}

// probeIter checks Range and RangeFrom at rest against fs.
func (r *Runner) probeIter(set int, fs *FinalState) *vs.Failure {
	s := r.sets[set]
	e := vs.E
	var bad string
	f := guard("iteration after all calls returned", func() {
		for from := -1; from < NKeys; from++ {
			var got [32]int
			n := 0
			cb := func(k int) bool {
				if n >= len(got) {
					return false
				}
				got[n] = k
				n++
				return true
			}
			e.OnOpStart()
			if from < 0 {
				s.Range(cb)
			} else {
				s.RangeFrom(from, cb)
			}
			i, ok := 0, true
			for k := max(from, 0); k < NKeys; k++ {
				if fs.Has[k] {
					if i >= n || got[i] != k {
						ok = false
					}
					i++
				}
			}
			if i != n {
				ok = false
			}
			if !ok {
				bad = fmt.Sprintf("at rest the set contains %v but iteration from %d gives %v", fs.keys(), from, got[:n])
				return
			}
		}
	})
	if f != nil {
		return f
	}
	if bad != "" {
		return &vs.Failure{Kind: "iteration", Msg: bad}
	}
	return nil
}

func (fs *FinalState) keys() []int {
	var ks []int
	for k, h := range fs.Has {
		if h {
			ks = append(ks, k)
		}
	}
	return ks
}

// probeDeep drives the set from its quiescent state to empty, to full and to
// empty again and checks every answer: residue of the concurrent phase (a node
// left linked, a lock left held, a wrong flag) shows here.
func (r *Runner) probeDeep(set int, fs *FinalState) *vs.Failure {
	s := r.sets[set]
	e := vs.E
	var bad string
	f := guard("use after all calls returned", func() {
		expect := func(what string, k int, got, want bool) bool {
			if got != want {
				bad = fmt.Sprintf("at rest with contents %v: %s(%d) = %v, want %v", fs.keys(), what, k, got, want)
			}
			return got == want
		}
		for k := 0; k < 6; k++ { // re-adding what is absent must work, what is present must not
			e.OnOpStart()
			vs.SetHeight(1 + k%3)
			if !expect("Add", k, s.Add(k), !fs.Has[k]) {
				return
			}
		}
		for k := 0; k < NKeys; k++ {
			e.OnOpStart()
			if !expect("Remove", k, s.Remove(k), k < 6 || fs.Has[k]) {
				return
			}
		}
		for k := 0; k < 6; k++ {
			e.OnOpStart()
			if !expect("Contains", k, s.Contains(k), false) {
				return
			}
			e.OnOpStart()
			vs.SetHeight(1 + (k+1)%3)
			if !expect("Add", k, s.Add(k), true) {
				return
			}
			e.OnOpStart()
			if !expect("Contains", k, s.Contains(k), true) {
				return
			}
		}
		for k := 0; k < 6; k++ {
			e.OnOpStart()
			if !expect("Remove", k, s.Remove(k), true) {
				return
			}
		}
	})
	if f != nil {
		return f
	}
	if bad != "" {
		return &vs.Failure{Kind: "residue", Msg: bad}
	}
	return nil
}

// lop is one call on one value for the linearizability check.
type lop struct {
	kind      uint8 // 0 add true, 1 remove true, 2 observes present, 3 observes absent
	call, ret int
}

const (
	lAdd, lRem, lIn, lOut = 0, 1, 2, 3
)

// linearizable: can ops be ordered consistently with their intervals, from state st?
func linearizable(ops []lop, st bool) bool {
	n := len(ops)
	if n > 20 {
		return linearizableLong(ops, st)
	}
	var memo map[uint32]struct{}
	if n > 8 {
		memo = map[uint32]struct{}{}
	}
	var rec func(done uint32, st bool) bool
	rec = func(done uint32, st bool) bool {
		if done == 1<<n-1 {
			return true
		}
		if memo != nil {
			k := done << 1
			if st {
				k |= 1
			}
			if _, ok := memo[k]; ok {
				return false
			}
			memo[k] = struct{}{}
		}
		minRet := infTime + 1
		for i := 0; i < n; i++ {
			if done&(1<<i) == 0 && ops[i].ret < minRet {
				minRet = ops[i].ret
			}
		}
		for i := 0; i < n; i++ {
			if done&(1<<i) != 0 || ops[i].call > minRet {
				continue
			}
			ns := st
			switch ops[i].kind {
			case lAdd:
				if st {
					continue
				}
				ns = true
			case lRem:
				if !st {
					continue
				}
				ns = false
			case lIn:
				if !st {
					continue
				}
			case lOut:
				if st {
					continue
				}
			}
			if rec(done|1<<i, ns) {
				return true
			}
		}
		return false
	}
	return rec(0, st)
}

// linearizableLong is linearizable for long histories.
func linearizableLong(ops []lop, st bool) bool {
	type key struct {
		done [4]uint64
		st   bool
	}
	n := len(ops)
	if n > 256 {
		panic("too many calls on one value")
	}
	ops = append([]lop(nil), ops...)
	sort.SliceStable(ops, func(i, j int) bool { return ops[i].call < ops[j].call })
	memo := map[key]struct{}{}
	var rec func(k key, left, from int) bool
	rec = func(k key, left, from int) bool {
		if left == 0 {
			return true
		}
		if _, ok := memo[k]; ok {
			return false
		}
		memo[k] = struct{}{}
		for from < n && k.done[from>>6]&(1<<(from&63)) != 0 {
			from++
		}
		minRet := infTime + 1
		for i := from; i < n && ops[i].call <= minRet; i++ {
			if k.done[i>>6]&(1<<(i&63)) == 0 {
				minRet = min(minRet, ops[i].ret)
			}
		}
		for i := from; i < n && ops[i].call <= minRet; i++ {
			if k.done[i>>6]&(1<<(i&63)) != 0 {
				continue
			}
			kd := ops[i].kind
			if (kd == lAdd || kd == lOut) == k.st {
				continue
			}
			nk := k
			nk.done[i>>6] |= 1 << (i & 63)
			nk.st = kd == lAdd || kd == lIn
			if rec(nk, left-1, from) {
				return true
			}
		}
		return false
	}
	return rec(key{st: st}, n, 0)
}

// lops collects the calls on rank k of a set. ranges adds iterations as observations.
func (r *Runner) lops(buf []lop, set, k int, contains, ranges bool, fs *FinalState) []lop {
	buf = buf[:0]
	for i := range r.hist {
		rec := &r.hist[i]
		if rec.Op.Set != set {
			continue
		}
		switch rec.Op.K {
		case OpAdd:
			if rec.Op.Key == k {
				kd := uint8(lAdd)
				if !rec.Res {
					kd = lIn
				}
				buf = append(buf, lop{kd, rec.Call, rec.Ret})
			}
		case OpRemove:
			if rec.Op.Key == k {
				kd := uint8(lRem)
				if !rec.Res {
					kd = lOut
				}
				buf = append(buf, lop{kd, rec.Call, rec.Ret})
			}
		case OpContains:
			if contains && rec.Op.Key == k {
				kd := uint8(lIn)
				if !rec.Res {
					kd = lOut
				}
				buf = append(buf, lop{kd, rec.Call, rec.Ret})
			}
		case OpRange, OpRangeFrom:
			if !ranges || rec.Op.K == OpRangeFrom && k < rec.Op.Key {
				continue
			}
			kd, from, until := uint8(lOut), rec.Call, rec.Ret
			for i, v := range rec.Vis {
				if v.Key >= k {
					until = v.At
					if v.Key == k {
						kd = lIn
						if i > 0 { // it is in the set when its turn comes
							from = rec.Vis[i-1].End
						}
					}
					break
				}
			}
			if kd == lOut && until == rec.Ret && rec.Stopped {
				continue // the iteration was stopped before it reached k
			}
			buf = append(buf, lop{kd, from, until})
		}
	}
	if fs != nil {
		kd := uint8(lOut)
		if fs.Has[k] {
			kd = lIn
		}
		buf = append(buf, lop{kd, infTime, infTime})
	}
	return buf
}

// checkLin checks the calls of one set value by value (sets are compositions of
// independent one-value sets, and linearizability is local).
func (r *Runner) checkLin(set int, contains, ranges bool, fs *FinalState) *vs.Failure {
	init := r.initialHas(set)
	var arr [48]lop
	for k := 0; k < NKeys; k++ {
		ops := r.lops(arr[:0], set, k, contains, ranges, fs)
		if len(ops) == 0 {
			continue
		}
		if len(ops) == 1 && ops[0].call == infTime {
			if fs.Has[k] != init[k] {
				return &vs.Failure{Kind: "linearizability", Msg: fmt.Sprintf("value %d was not touched but its membership changed from %v to %v", k, init[k], fs.Has[k])}
			}
			continue
		}
		if !linearizable(ops, init[k]) {
			fin := ""
			if fs != nil {
				fin = fmt.Sprintf(", afterwards present=%v", fs.Has[k])
			}
			return &vs.Failure{Kind: "linearizability", Msg: fmt.Sprintf("no order of the calls on value %d explains the results (initially present=%v%s): %s", k, init[k], fin, r.histString())}
		}
	}
	return nil
}

func (r *Runner) histString() string {
	recs := append([]Rec(nil), r.hist...)
	sort.SliceStable(recs, func(i, j int) bool { return recs[i].Call < recs[j].Call })
	var b strings.Builder
	for i := range recs {
		if i > 0 {
			b.WriteString("; ")
		}
		b.WriteString(recs[i].String())
	}
	return b.String()
}

func (r *Runner) nsets() int {
	if r.two {
		return 2
	}
	return 1
}
