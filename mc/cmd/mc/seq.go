package main

import (
	"fmt"
	"maps"
	"reflect"
	"runtime"
	"strings"
	"unsafe"
	"weak"

	"verif.local/mc/vs"
)

// raw exposes the set under test to the canonical walk.
func (a *adapter[T]) raw() any { return a.s }

type rawer interface{ raw() any }

var canon vs.Canon

// model is the reference: a set of ranks.
type model struct {
	has [NKeys]bool
	n   int
}

func (m *model) keys() (ks []int) {
	for k, h := range m.has {
		if h {
			ks = append(ks, k)
		}
	}
	return
}

// stepOp applies op to the set and the model and compares. A nil return means agreement.
func stepOp(s Set, m *model, o Op) *vs.Failure {
	e := vs.E
	e.OnOpStart()
	bad := func(format string, a ...any) *vs.Failure {
		return &vs.Failure{Kind: "result", Msg: fmt.Sprintf(format, a...)}
	}
	switch o.K {
	case OpAdd:
		vs.SetHeight(o.H)
		if got, want := s.Add(o.Key), !m.has[o.Key]; got != want {
			return bad("%v = %v, want %v with contents %v", o, got, want, m.keys())
		}
		if !m.has[o.Key] {
			m.has[o.Key] = true
			m.n++
		}
	case OpRemove:
		if got, want := s.Remove(o.Key), m.has[o.Key]; got != want {
			return bad("%v = %v, want %v with contents %v", o, got, want, m.keys())
		}
		if m.has[o.Key] {
			m.has[o.Key] = false
			m.n--
		}
	case OpContains:
		if got, want := s.Contains(o.Key), m.has[o.Key]; got != want {
			return bad("%v = %v, want %v with contents %v", o, got, want, m.keys())
		}
	case OpLen:
		if got := s.Len(); got != m.n {
			return bad("Len() = %d, want %d with contents %v", got, m.n, m.keys())
		}
	case OpRange, OpRangeFrom:
		var got [24]int
		n, calls, stopped := 0, 0, false
		cb := func(k int) bool {
			calls++
			if stopped {
				return false
			}
			if n < len(got) {
				got[n] = k
				n++
			}
			if n == len(got) {
				stopped = true
				return false
			}
			if o.Stop > 0 && n >= o.Stop {
				stopped = true
				return false
			}
			return true
		}
		from := 0
		if o.K == OpRange {
			s.Range(cb)
		} else {
			from = o.Key
			s.RangeFrom(o.Key, cb)
		}
		i := 0
		ok := true
		for k := from; k < NKeys && !(o.Stop > 0 && i >= o.Stop); k++ {
			if m.has[k] {
				if i >= n || got[i] != k {
					ok = false
				}
				i++
			}
		}
		if !ok || i != n {
			return &vs.Failure{Kind: "iteration", Msg: fmt.Sprintf("%v visits %v with contents %v", o, got[:n], m.keys())}
		}
		if calls != n {
			return &vs.Failure{Kind: "iteration", Msg: fmt.Sprintf("%v calls the callback again after it returned false", o)}
		}
	}
	return nil
}

// probeAll compares every read of the interface with the model.
func probeAll(s Set, m *model, stops bool) *vs.Failure {
	for k := 0; k < NKeys; k++ {
		if f := stepOp(s, m, C(k)); f != nil {
			return f
		}
	}
	if f := stepOp(s, m, lenO); f != nil {
		return f
	}
	maxStop := 0
	if stops {
		maxStop = m.n + 1
	}
	for st := 0; st <= maxStop; st++ {
		if f := stepOp(s, m, Op{K: OpRange, Stop: st}); f != nil {
			return f
		}
		for k := 0; k < NKeys; k++ {
			if f := stepOp(s, m, Op{K: OpRangeFrom, Key: k, Stop: st}); f != nil {
				return f
			}
		}
	}
	return nil
}

func opsString(h []Op) string {
	var b strings.Builder
	for i, o := range h {
		if i > 0 {
			b.WriteString("; ")
		}
		b.WriteString(o.String())
	}
	return b.String()
}

type bfsNode struct {
	hist []Op
}

// bfs explores all states of one set reachable with the alphabet, deduplicated
// by isomorphism of memory. When it ends within the cap every history of any
// length over the alphabet has been decided.
func (w *W) bfs(alphabet []Op, stops bool, mem bool, maxStates int) {
	if mem {
		canon.ByType = map[reflect.Type]int{}
		defer func() { canon.ByType = nil }()
	}
	vs.TrackTypes = true
	defer func() { vs.TrackTypes = false }()
	seen := map[string]struct{}{}
	fresh := func() Set {
		vs.ResetAllocs()
		vs.ResetGlobals()
		vs.E.OnOpStart()
		return w.c.New()
	}
	// visit runs hist and reports whether its last state is new.
	var curr []Op
	run := func(probe bool) (isNew bool, f *vs.Failure) {
		f = guard(opsString(curr), func() {
			s := fresh()
			var m model
			for i, o := range curr {
				if g := stepOp(s, &m, o); g != nil {
					panic(g)
				}
				w.res.Calls++
				_ = i
			}
			key := string(canon.Of(s.(rawer).raw()))
			w.res.Opaque += int64(canon.Opaque)
			if _, ok := seen[key]; !ok {
				isNew = true
				seen[key] = struct{}{}
			} else if !probe {
				return
			}
			if mem && isNew && canon.Opaque == 0 {
				objs := countObjects()
				if want := w.freshObjects(&m, lastHeights(curr), 0, nil); w.leaks(objs, want) {
					panic(&vs.Failure{Kind: "memory", Msg: fmt.Sprintf("%v heap objects are reachable from a set with contents %v, a fresh one needs %v", objs, m.keys(), want)})
				}
				return
			}
			if g := probeAll(s, &m, stops); g != nil {
				panic(g)
			}
		})
		return
	}
	confirm := func(f *vs.Failure) bool {
		if !w.relevant(f) {
			w.res.Skipped++
			return false
		}
		for i := 0; i < 5; i++ {
			w.res.Replays++
			clear(seen)
			if _, g := run(true); g == nil {
				w.res.Nondet++
				w.res.Capped = true
				w.res.Notes = append(w.res.Notes, "not reproducible: "+f.Msg)
				w.stop = true
				return true
			}
		}
		w.res.Fail = &FailInfo{Kind: f.Kind, Msg: f.Msg, Input: w.c.Name + ": " + opsString(curr)}
		w.stop = true
		return true
	}
	var queue [][]Op
	curr = nil
	if isNew, f := run(true); f != nil {
		if confirm(f) {
			return
		}
	} else if isNew {
		queue = append(queue, nil)
	}
	w.res.Scenarios++
	for len(queue) > 0 {
		h := queue[0]
		queue = queue[1:]
		if w.late() {
			return
		}
		for _, o := range alphabet {
			curr = append(append(curr[:0:0], h...), o)
			w.res.SeqTrans++
			isNew, f := run(false)
			if f != nil {
				if confirm(f) {
					return
				}
				continue
			}
			if isNew {
				if len(seen) > maxStates {
					w.res.Capped = true
					w.res.SeqStates += int64(len(seen))
					w.res.Notes = append(w.res.Notes, fmt.Sprintf("%s: state cap of %d reached at depth %d", w.t.Fam, maxStates, len(curr)))
					return
				}
				queue = append(queue, curr)
			}
		}
	}
	w.res.SeqStates += int64(len(seen))
	if w.res.Sample == "" {
		w.res.Sample = fmt.Sprintf("%s: fixpoint of %d states under %d operations, last history: %s", w.c.Name, len(seen), len(alphabet), opsString(curr))
	}
}

func lastHeights(h []Op) (hs [NKeys]int) {
	for _, o := range h {
		if o.K == OpAdd && hs[o.Key] < o.H {
			hs[o.Key] = o.H
		}
	}
	return
}

var freshMemo = map[string]objects{}

// freshObjects: heap objects of a fresh set with these contents. It uses the
// greatest height each element can have, so it is an upper bound.
func (w *W) freshObjects(m *model, hs [NKeys]int, pad int, gone map[int]bool) objects {
	key := fmt.Sprint(w.c.Name, m.has, hs)
	if pad > 0 {
		key += fmt.Sprint(" ", pad, gone)
	}
	if n, ok := freshMemo[key]; ok {
		return n
	}
	vs.ResetGlobals()
	s := w.c.New()
	if pad > 0 {
		s = newPadded(w.c, pad, gone)
	}
	for k, h := range m.has {
		if h {
			vs.SetHeight(max(1, hs[k]))
			s.Add(k)
		}
	}
	canon.Of(s.(rawer).raw())
	freshMemo[key] = countObjects()
	return freshMemo[key]
}

// objects are numbers of heap objects by type.
type objects map[reflect.Type]int

func countObjects() objects { return maps.Clone(objects(canon.ByType)) }

var elementTypes = map[string]objects{}

// leaks: there are more objects of the types that elements consist of than a
// fresh set needs, or (whatever a set may keep for its own use) more than a few
// objects of other types.
func (w *W) leaks(got, fresh objects) bool {
	el, ok := elementTypes[w.c.Name]
	if !ok {
		save := canon.ByType
		s := w.c.New()
		canon.ByType = map[reflect.Type]int{}
		add := func(k int) {
			vs.SetHeight([]int{1, 2, 5, 16}[k%4])
			s.Add(k)
		}
		add(0)
		s.Remove(0)
		for k := 0; k < NKeys/2; k++ {
			add(k)
		}
		canon.Of(s.(rawer).raw())
		half := countObjects()
		for k := NKeys / 2; k < NKeys; k++ {
			add(k)
		}
		canon.Of(s.(rawer).raw())
		el = objects{}
		for t, n := range canon.ByType {
			if n > half[t] {
				el[t] = n
			}
		}
		elementTypes[w.c.Name] = el
		canon.ByType = save
	}
	others := 0
	for t, n := range got {
		d := n - fresh[t]
		if el[t] > 0 && d > 0 {
			return true
		}
		if el[t] == 0 {
			others += d
		}
	}
	return others > 8
}

// oracleMem: nothing but the elements is reachable from the sets at rest.
func oracleMem(r *Runner) *vs.Failure {
	s := r.sets[0]
	canon.ByType = map[reflect.Type]int{}
	defer func() { canon.ByType = nil }()
	canon.Of(s.(rawer).raw())
	objs := countObjects()
	if canon.Opaque > 0 {
		return nil
	}
	if f := r.checkLin(0, false, false, nil); f != nil {
		return nil
	}
	var m model
	if f := guard("", func() {
		for k := 0; k < NKeys; k++ {
			vs.E.OnOpStart()
			if s.Contains(k) {
				m.has[k] = true
				m.n++
			}
		}
	}); f != nil {
		return nil
	}
	var hs [NKeys]int
	for _, k := range r.Sc.Init {
		hs[k.K] = k.H
	}
	for i := range r.hist {
		o := &r.hist[i].Op
		if o.K == OpAdd && hs[o.Key] < o.H {
			hs[o.Key] = o.H
		}
	}
	gone := map[int]bool{}
	for i := range r.hist {
		if o := &r.hist[i]; o.Op.K == OpRemove && o.Res && (o.Op.Key < 0 || o.Op.Key >= NKeys) {
			gone[o.Op.Key] = true
		}
	}
	w := &W{c: r.C}
	if want := w.freshObjects(&m, hs, r.Sc.Pad, gone); w.leaks(objs, want) {
		return &vs.Failure{Kind: "memory", Msg: fmt.Sprintf("%v heap objects are reachable from a set with contents %v, a fresh one needs %v: %s", objs, m.keys(), want, r.histString())}
	}
	return nil
}

// tree runs every sequence of the given depth, without any merging of states.
func (w *W) tree(alphabet []Op, depth int, stops bool) {
	idx := make([]int, depth)
	ops := make([]Op, depth)
	n := 1
	for i := 0; i < depth; i++ {
		n *= len(alphabet)
	}
	for c := 0; c < n; c++ {
		x := c
		for i := range idx {
			idx[i] = x % len(alphabet)
			x /= len(alphabet)
			ops[i] = alphabet[idx[i]]
		}
		if !w.seq(func() string { return opsString(ops) }, func() *vs.Failure {
			s := w.c.New()
			var m model
			for _, o := range ops {
				if f := stepOp(s, &m, o); f != nil {
					return f
				}
			}
			w.res.Calls += int64(depth)
			return probeAll(s, &m, stops)
		}) {
			return
		}
	}
}

func bfsAlphabet(keys, heights []int, reads bool) (a []Op) {
	a = cat(addOps(keys, heights), each1(R, keys))
	if reads {
		a = cat(a, each1(C, keys), []Op{rng, lenO}, each1(RF, keys))
	}
	return
}

// nested: every iteration whose callback makes calls at one position.
func (w *W) nested(keys, heights []int, nestLen int) {
	ops := cat(addOps([]int{0, 1, 2, 3, 4}, []int{1, 2}), each1(R, k123), each1(C, []int{1, 3}), []Op{rng, RF(2), lenO})
	var nests [][]Op
	if nestLen == 1 {
		nests = seqs1(ops)
	} else {
		nests = seqs2(cat(addOps([]int{0, 1, 2, 3, 4}, []int{2}), each1(R, k123), []Op{rng}))
	}
	for _, it := range []Op{rng, RF(1), RF(2), {K: OpRange, Stop: 2}} {
		for _, in := range inits(keys, heights) {
			for at := 1; at <= 3; at++ {
				for _, ns := range nests {
					for pn := 0; pn < 2; pn++ {
						o := it
						o.At, o.Nested, o.Panic = at, ns, pn == 1
						if !w.seq(func() string { return fmt.Sprintf("%v with %v", in, o) }, func() *vs.Failure { return w.nestedCase(in, o) }) {
							return
						}
					}
				}
			}
		}
	}
}

func (w *W) nestedCase(in []KH, o Op) *vs.Failure {
	s := w.c.New()
	var m model
	for _, k := range in {
		if f := stepOp(s, &m, A(k.K, k.H)); f != nil {
			return f
		}
	}
	before := m
	var hist [][NKeys]bool // contents after each nested call
	fired := false
	var vis []int
	var bad *vs.Failure
	cb := func(k int) bool {
		if len(vis) >= 24 {
			panic(&vs.Failure{Kind: "livelock", Msg: "iteration does not end"})
		}
		vis = append(vis, k)
		if k == o.At && !fired {
			fired = true
			for _, n := range o.Nested {
				if f := stepOp(s, &m, n); f != nil {
					bad = f
					return false
				}
				hist = append(hist, m.has)
			}
			if o.Panic {
				panic(cbPanic)
			}
		}
		return !(o.Stop > 0 && len(vis) >= o.Stop)
	}
	w.res.Calls++
	vs.E.OnOpStart()
	catch(true, func() {
		if o.K == OpRange {
			s.Range(cb)
		} else {
			s.RangeFrom(o.Key, cb)
		}
	})
	if bad != nil {
		bad.Msg = "nested in a callback: " + bad.Msg
		return bad
	}
	from := 0
	if o.K == OpRangeFrom {
		from = o.Key
	}
	last := from - 1
	var seen [NKeys]bool
	for _, k := range vis {
		if k <= last {
			return &vs.Failure{Kind: "iteration", Msg: fmt.Sprintf("visits %v: out of order", vis)}
		}
		last = k
		seen[k] = true
	}
	// Each value is seen as by one membership test made before its turn.
	stopped := o.Stop > 0 && len(vis) >= o.Stop || o.Panic && fired
	for k := from; k < NKeys; k++ {
		if stopped && k > last {
			break
		}
		in, out := before.has[k], !before.has[k]
		if fired && k > o.At {
			for _, h := range hist {
				in = in || h[k]
				out = out || !h[k]
			}
		}
		if seen[k] && !in {
			return &vs.Failure{Kind: "iteration", Msg: fmt.Sprintf("visits %v: %d was not in the set at any moment before its turn", vis, k)}
		}
		if !seen[k] && !out {
			return &vs.Failure{Kind: "iteration", Msg: fmt.Sprintf("visits %v: %d is missing although it was there all along", vis, k)}
		}
	}
	if f := probeAll(s, &m, false); f != nil {
		return f
	}
	return drain(s, &m)
}

// drain empties the set, fills it and empties it again.
func drain(s Set, m *model) *vs.Failure {
	for k := 0; k < NKeys; k++ {
		if f := stepOp(s, m, R(k)); f != nil {
			return f
		}
	}
	for k := NKeys - 1; k >= 0; k-- {
		if f := stepOp(s, m, A(k, 1+k%3)); f != nil {
			return f
		}
	}
	if f := probeAll(s, m, false); f != nil {
		return f
	}
	for k := 0; k < NKeys; k++ {
		if f := stepOp(s, m, R(k)); f != nil {
			return f
		}
	}
	return probeAll(s, m, false)
}

// two sets used in turns.
func (w *W) twoSets(c2 *Ctor, depth int) {
	base := []Op{A(1, 1), A(2, 2), A(1, 5), R(1), R(2), C(1), rng, lenO}
	var alpha []Op
	for _, o := range base {
		alpha = append(alpha, o)
		o.Set = 1
		alpha = append(alpha, o)
	}
	n := 1
	for i := 0; i < depth; i++ {
		n *= len(alpha)
	}
	ops := make([]Op, depth)
	for c := 0; c < n; c++ {
		x := c
		for i := range ops {
			ops[i] = alpha[x%len(alpha)]
			x /= len(alpha)
		}
		if !w.seq(func() string { return "and " + c2.Name + ": " + opsString(ops) }, func() *vs.Failure {
			s := [2]Set{w.c.New(), c2.New()}
			var m [2]model
			for _, o := range ops {
				if f := stepOp(s[o.Set], &m[o.Set], o); f != nil {
					return f
				}
			}
			w.res.Calls += int64(depth)
			for i := range s {
				if f := probeAll(s[i], &m[i], false); f != nil {
					return f
				}
			}
			return nil
		}) {
			return
		}
	}
	// a call made from a callback of the other set, and creation of sets in between
	for _, in := range inits(k12, k12) {
		for _, o := range []Op{A(1, 2), A(3, 1), R(1), R(2), C(1), rng, RF(2), lenO} {
			if !w.seq(func() string { return fmt.Sprintf("and %s: %v in a callback on %v", c2.Name, o, in) }, func() *vs.Failure {
				s := [2]Set{w.c.New(), c2.New()}
				var m [2]model
				for i := range s {
					for _, k := range in {
						if f := stepOp(s[i], &m[i], A(k.K, k.H)); f != nil {
							return f
						}
					}
				}
				var bad *vs.Failure
				s[0].Range(func(int) bool {
					bad = stepOp(s[1], &m[1], o)
					return bad == nil
				})
				if bad != nil {
					return bad
				}
				for i := range s {
					if f := probeAll(s[i], &m[i], false); f != nil {
						return f
					}
					if f := drain(s[i], &m[i]); f != nil {
						return f
					}
				}
				return nil
			}) {
				return
			}
		}
	}
}

func strVals() ([]string, []func() bool) {
	vals := make([]string, NKeys)
	alive := make([]func() bool, NKeys)
	for i := range vals {
		b := make([]byte, 24)
		for j := range b {
			b[j] = 'a' + byte(i)
		}
		p := unsafe.SliceData(b)
		vals[i] = unsafe.String(p, len(b))
		w := weak.Make(p)
		alive[i] = func() bool { return w.Value() != nil }
	}
	return vals, alive
}

// gcRun applies a history, drops the harness's references and checks what is still alive.
func gcRun(ops []Op, add func(string) bool, rem func(string) bool, con func(string) bool, keep any) *vs.Failure {
	vals, alive := strVals()
	has := [NKeys]bool{}
	for _, o := range ops {
		vs.E.OnOpStart()
		switch o.K {
		case OpAdd:
			vs.SetHeight(o.H)
			if add(vals[o.Key]) {
				has[o.Key] = true
			}
		case OpRemove:
			if rem(vals[o.Key]) {
				has[o.Key] = false
			}
		case OpContains:
			con(vals[o.Key])
		}
	}
	clear(vals)
	vs.Collect()
	for k := range has {
		if !has[k] && alive[k]() {
			runtime.GC()
			runtime.GC()
			if alive[k]() {
				runtime.KeepAlive(keep)
				return &vs.Failure{Kind: "memory", Msg: fmt.Sprintf("value %d is not in the set but its memory is still reachable", k)}
			}
		}
		if has[k] && !alive[k]() {
			return &vs.Failure{Kind: "memory", Msg: fmt.Sprintf("value %d is in the set but its memory is gone", k)}
		}
	}
	runtime.KeepAlive(keep)
	return nil
}

// gc runs all histories of a depth on a set of strings and looks at the
// reachability of the strings afterwards.
func (w *W) gc(depth int) {
	ops := cat(addOps(k123, []int{1, 5}), each1(R, k123))
	list := make([]Op, depth)
	n := 1
	for i := 0; i < depth; i++ {
		n *= len(ops)
	}
	for c := 0; c < n; c++ {
		x := c
		removed := false
		for i := range list {
			list[i] = ops[x%len(ops)]
			x /= len(ops)
			removed = removed || list[i].K == OpRemove
		}
		if !removed {
			continue
		}
		if !w.seq(func() string { return opsString(list) + " (memory of the values)" }, func() *vs.Failure {
			s, ok := w.c.New().(rawer).raw().(rawSet[string])
			if !ok {
				panic("not a set of strings")
			}
			w.res.Calls += int64(depth)
			return gcRun(list, s.Add, s.Remove, s.Contains, s)
		}) {
			return
		}
	}
}

// gcChurn: long churn on few elements leaves few objects.
func (w *W) gcChurn(rounds int) {
	vs.TrackAlloc = true
	defer func() { vs.TrackAlloc = false }()
	for _, hs := range [][]int{{1}, {2, 1, 3}, {5, 1, 16, 2}, {1, 6, 1, 1, 3}} {
		for _, ks := range [][]int{{1, 2, 3, 4}, {4, 3, 2, 1}, {2, 4, 1, 3}} {
			for keep := 0; keep <= 2; keep++ {
				if !w.seq(func() string { return fmt.Sprintf("churn over %v with heights %v keeping %d", ks, hs, keep) }, func() *vs.Failure {
					vs.ResetAllocs()
					s := w.c.New()
					var m model
					step := func(o Op) {
						if f := stepOp(s, &m, o); f != nil {
							panic(f)
						}
					}
					for i := 0; i < keep; i++ {
						step(A(5+i, 1))
					}
					step(A(1, 1)) // what a set may make for its own use is there now
					step(R(1))
					base, _ := vs.LiveAllocs()
					x := 0
					for r := 0; r < rounds; r++ {
						for _, k := range ks {
							step(A(k, hs[x%len(hs)]))
							x++
							step(A(k, 2)) // fails
						}
						for i := range ks {
							step(R(ks[(i+r)%len(ks)]))
							step(R(ks[(i+r)%len(ks)])) // fails
						}
					}
					live, total := vs.LiveAllocs()
					if live > base {
						live, _ = vs.LiveAllocs()
					}
					runtime.KeepAlive(s)
					if live > base {
						return &vs.Failure{Kind: "memory", Msg: fmt.Sprintf("%d objects (of %d) are alive after everything added has been removed, %d before", live, total, base)}
					}
					return nil
				}) {
					return
				}
			}
		}
	}
}
