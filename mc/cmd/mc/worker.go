package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"runtime/debug"
	"strconv"
	"strings"
	"time"

	"verif.local/mc/vs"
)

// Task is a slice of a family of scenarios (or of a sequential enumeration) on one constructor.
type Task struct {
	ID    int
	Prop  string
	Ctor  string
	Fam   string
	Part  int
	Parts int
	Tier  string
}

// FailInfo is a confirmed violation.
type FailInfo struct {
	Kind     string
	Msg      string
	Input    string // scenario or input, readable
	Scenario *Scenario
	Schedule []int8
	Watch    uint8
	Races    bool
	Trace    []string
}

// Result of a task.
type Result struct {
	ID        int
	Stats     vs.Stats
	Scenarios int64
	Outcomes  int64 // distinct observable outcomes, summed over scenarios
	Multi     int64 // scenarios with at least two distinct outcomes
	Skipped   int64 // scenarios cut by a failure that is another property's business
	Nondet    int64
	SeqStates int64
	SeqTrans  int64
	Calls     int64
	Replays   int64
	Capped    bool
	Opaque    int64
	Sample    string
	Fail      *FailInfo
	Secs      float64
	Notes     []string
}

// W is a worker's context for one task.
type W struct {
	t        Task
	c        *Ctor
	r        *Runner
	res      *Result
	deadline time.Time
	idx      int
	stop     bool
	relevant func(f *vs.Failure) bool
	watch    uint8
	races    bool
	maxExec  int64
	pad      int
}

func (w *W) mine() bool {
	i := w.idx
	w.idx++
	if w.t.Parts <= 1 {
		return true
	}
	return (i*7+i/w.t.Parts)%w.t.Parts == w.t.Part
}

func (w *W) late() bool {
	if w.stop {
		return true
	}
	if !w.deadline.IsZero() && time.Now().After(w.deadline) {
		w.res.Capped = true
		w.stop = true
	}
	return w.stop
}

var showSlow, _ = time.ParseDuration(os.Getenv("VERIF_SLOW"))

// conc explores one scenario. It returns false when the task must stop.
func (w *W) conc(sc Scenario) bool {
	if w.stop || !w.mine() {
		return !w.stop
	}
	if w.late() {
		return false
	}
	e := vs.E
	sc.Pad = w.pad
	e.ReportRaces, e.Watch = w.races, w.watch
	clear(w.r.Out)
	t0, x0 := time.Now(), e.Stats.Executions
	f, full := w.exploreGuard(&sc)
	if d := time.Since(t0); showSlow > 0 && d > showSlow {
		fmt.Fprintf(os.Stderr, "%6.2fs %8d execs  %s\n", d.Seconds(), e.Stats.Executions-x0, sc.String())
	}
	w.res.Scenarios++
	w.res.Outcomes += int64(len(w.r.Out))
	if len(w.r.Out) > 1 {
		w.res.Multi++
	}
	if w.res.Sample == "" && len(w.r.Out) > 1 {
		w.res.Sample = w.c.Name + ": " + sc.String() + " => e.g. " + w.r.histString()
	}
	if f == nil {
		if !full {
			w.res.Capped = true
		}
		if w.res.Scenarios%256 == 1 {
			w.determinism(&sc)
		}
		return true
	}
	if f.Kind == "nondeterminism" {
		w.res.Nondet++
		w.res.Capped = true
		if len(w.res.Notes) < 3 {
			w.res.Notes = append(w.res.Notes, sc.String()+": "+f.Msg)
		}
		return true
	}
	if !w.relevant(f) {
		w.res.Skipped++
		return true
	}
	fi := &FailInfo{Kind: f.Kind, Msg: f.Msg, Input: w.c.Name + ": " + sc.String(), Scenario: &sc,
		Schedule: append([]int8(nil), e.Schedule...), Watch: w.watch, Races: w.races}
	for i := 0; i < 5; i++ {
		g, tr := w.r.Replay(&sc, fi.Schedule)
		w.res.Replays++
		if g == nil || g.Kind != f.Kind {
			w.res.Nondet++
			w.res.Capped = true
			w.res.Notes = append(w.res.Notes, fmt.Sprintf("not reproducible: %s: %v, then %v", sc.String(), f, g))
			return true
		}
		fi.Trace = tr
	}
	w.res.Fail = fi
	w.stop = true
	return false
}

// determinism replays the last execution twice and compares the histories.
func (w *W) determinism(sc *Scenario) {
	s := append([]int8(nil), vs.E.Schedule...)
	g1, _ := w.r.Replay(sc, s)
	h1 := w.r.histString()
	g2, _ := w.r.Replay(sc, s)
	h2 := w.r.histString()
	w.res.Replays += 2
	if (g1 == nil) != (g2 == nil) || h1 != h2 {
		w.res.Nondet++
		w.res.Capped = true
		w.res.Notes = append(w.res.Notes, "replay differs: "+sc.String())
	}
}

func (w *W) exploreGuard(sc *Scenario) (f *vs.Failure, full bool) {
	defer func() {
		if x := recover(); x != nil {
			vs.E.ForceSeq()
			vs.E.Schedule = vs.E.Schedule[:0]
			full = false
			if vf, ok := x.(*vs.Failure); ok {
				f = &vs.Failure{Kind: vf.Kind, Msg: "building the initial state: " + vf.Msg}
				return
			}
			f = &vs.Failure{Kind: "panic", Msg: "building the initial state: " + fmt.Sprint(x) + "\n" + string(debug.Stack())}
		}
	}()
	return w.r.Explore(sc, w.maxExec)
}

// Replay runs one recorded schedule and the oracle.
func (r *Runner) Replay(sc *Scenario, sched []int8) (f *vs.Failure, trace []string) {
	e := vs.E
	defer func() {
		e.Trace = false
		if x := recover(); x != nil {
			e.ForceSeq()
			if vf, ok := x.(*vs.Failure); ok {
				f = &vs.Failure{Kind: vf.Kind, Msg: "building the initial state: " + vf.Msg}
				return
			}
			f = &vs.Failure{Kind: "panic", Msg: "building the initial state: " + fmt.Sprint(x)}
		}
	}()
	r.Sc, r.two = sc, usesTwo(sc)
	defer sc.steps()()
	var ok bool
	for i := 0; i < 200; i++ {
		bodies := r.setup()
		e.Trace = true
		ok = e.RunWith(&vs.FixedSchedule{S: sched}, bodies)
		e.Trace = false
		if !e.NeedsRestart() {
			break
		}
	}
	trace = append([]string(nil), e.TraceLog...)
	if f := e.Failure(); f != nil {
		return f, trace
	}
	if !ok {
		return nil, trace
	}
	return r.Oracle(r), trace
}

// seq runs one sequential case; fn must be self-contained. desc renders it.
func (w *W) seq(desc func() string, fn func() *vs.Failure) bool {
	if w.stop || !w.mine() {
		return !w.stop
	}
	return w.seqAll(desc, fn)
}

func (w *W) seqAll(desc func() string, fn func() *vs.Failure) bool {
	w.res.Scenarios++
	if w.res.Scenarios&63 == 0 && w.late() {
		return false
	}
	run := func() (f *vs.Failure) {
		if g := guard("call", func() { vs.ResetGlobals(); f = fn() }); g != nil {
			return g
		}
		return
	}
	f := run()
	if w.res.Sample == "" && f == nil {
		w.res.Sample = w.c.Name + ": " + desc()
	}
	if f == nil {
		return true
	}
	if !w.relevant(f) {
		w.res.Skipped++
		return true
	}
	for i := 0; i < 5; i++ {
		g := run()
		w.res.Replays++
		if g == nil {
			w.res.Nondet++
			w.res.Capped = true
			w.res.Notes = append(w.res.Notes, fmt.Sprintf("not reproducible: %s: %v", desc(), f))
			return true
		}
	}
	w.res.Fail = &FailInfo{Kind: f.Kind, Msg: f.Msg, Input: w.c.Name + ": " + desc()}
	w.stop = true
	return false
}

// famBound splits "driver+40@2": a driver in the middle of 2*40 further elements,
// explored with at most 2 preemptions instead of completely.
func famBound(f string) (name string, pad, bound int) {
	if i := strings.IndexByte(f, '@'); i >= 0 {
		bound, _ = strconv.Atoi(f[i+1:])
		f = f[:i]
	}
	if i := strings.IndexByte(f, '+'); i >= 0 {
		pad, _ = strconv.Atoi(f[i+1:])
		f = f[:i]
	}
	return f, pad, bound
}

func runTask(t Task, deadline time.Time) *Result {
	t0 := time.Now()
	res := &Result{ID: t.ID}
	w := &W{t: t, c: CtorByName(t.Ctor), res: res, deadline: deadline}
	w.relevant = func(f *vs.Failure) bool { return f.Kind != "race" }
	vs.E.Stats = vs.Stats{}
	vs.E.ReportRaces, vs.E.Watch = false, 0
	vs.E.Deadline = deadline
	vs.TrackAlloc, vs.TrackTypes = false, false
	if w.c == nil {
		panic("unknown constructor " + t.Ctor)
	}
	w.r = NewRunner(w.c, nil)
	if !w.late() {
		var name string
		name, w.pad, w.r.Bound = famBound(t.Fam)
		fam, ok := families[name]
		if !ok {
			panic("unknown family " + t.Fam)
		}
		fam(w)
	}
	vs.TrackAlloc, vs.TrackTypes = false, false
	vs.ResetAllocs()
	res.Stats = vs.E.Stats
	res.Secs = time.Since(t0).Seconds()
	return res
}

// workerMain serves tasks read from standard input.
func workerMain() {
	deadline := time.Time{}
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(make([]byte, 1<<20), 1<<20)
	out := bufio.NewWriter(os.Stdout)
	for in.Scan() {
		var m struct {
			Task     Task
			Deadline int64
		}
		if err := json.Unmarshal(in.Bytes(), &m); err != nil {
			fmt.Fprintln(os.Stderr, "worker:", err)
			os.Exit(4)
		}
		if m.Deadline > 0 {
			deadline = time.UnixMilli(m.Deadline)
		}
		res := runTask(m.Task, deadline)
		b, _ := json.Marshal(res)
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}

// setTypeName is the name of the generated set type behind a constructor.
func setTypeName(c *Ctor) string {
	s := c.New()
	v := reflect.ValueOf(s).Elem().FieldByName("s").Elem()
	n := v.Type().Elem().Name()
	if i := strings.IndexByte(n, '['); i >= 0 {
		n = n[:i]
	}
	return n
}
