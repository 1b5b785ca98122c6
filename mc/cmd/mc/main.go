// Command mc explores the instrumented package exhaustively within bounds.
//
//	mc run -prop C01 -tier quick -evidence FILE -out DIR ...   coordinator
//	mc worker                                                  serves tasks on stdin
//	mc replay FILE                                             replays a violation
//	mc task CTOR FAMILY [PART PARTS]                           one task, for development
//	mc selftest                                                checks the explorer itself
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif.local/mc/vs"
)

var siteNames []string

func loadSites() {
	exe, err := os.Executable()
	if err != nil {
		return
	}
	b, err := os.ReadFile(filepath.Join(filepath.Dir(exe), "skipset", "sites.json"))
	if err != nil {
		return
	}
	json.Unmarshal(b, &siteNames)
	vs.E.SiteName = func(s int32) string {
		if s >= 1 && int(s) <= len(siteNames) {
			return siteNames[s-1]
		}
		return ""
	}
}

func loadClasses() map[string]string {
	m := map[string]string{}
	if exe, err := os.Executable(); err == nil {
		if b, err := os.ReadFile(filepath.Join(filepath.Dir(exe), "skipset", "classes.json")); err == nil {
			json.Unmarshal(b, &m)
		}
	}
	return m
}

func main() {
	loadSites()
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mc run|worker|replay|task|selftest")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "worker":
		runtime.GOMAXPROCS(2)
		workerMain()
	case "run":
		os.Exit(coordinator(os.Args[2:]))
	case "replay":
		os.Exit(replayFile(os.Args[2]))
	case "selftest":
		os.Exit(selftest())
	case "task":
		t := Task{Ctor: os.Args[2], Fam: os.Args[3], Parts: 1, Tier: "quick"}
		if len(os.Args) > 5 {
			t.Part, _ = strconv.Atoi(os.Args[4])
			t.Parts, _ = strconv.Atoi(os.Args[5])
		}
		var dl time.Time
		if d, err := time.ParseDuration(os.Getenv("VERIF_TASKTIME")); err == nil {
			dl = time.Now().Add(d)
		}
		res := runTask(t, dl)
		b, _ := json.MarshalIndent(res, "", " ")
		fmt.Println(string(b))
	default:
		os.Exit(2)
	}
}

// ReplayFile is what a violation leaves behind.
type ReplayFile struct {
	Property string
	Arch     string
	Variant  string // committed or generated sources
	Task     Task
	Fail     *FailInfo
	Note     string
}

type workerProc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err *tailBuf
}

// tailBuf keeps the end of a worker's standard error.
type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 16000 { // keep the head: a Go crash starts with its reason
		t.b = t.b[:16000]
	}
	return len(p), nil
}

func (t *tailBuf) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b)
}

func startWorker(bin string) (*workerProc, error) {
	w := &workerProc{cmd: exec.Command(bin, "worker"), err: &tailBuf{}}
	w.cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GOMEMLIMIT=1500MiB")
	in, err := w.cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := w.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	w.cmd.Stderr = w.err
	w.in, w.out = in, bufio.NewReaderSize(out, 1<<20)
	return w, w.cmd.Start()
}

func (w *workerProc) kill() {
	w.in.Close()
	w.cmd.Process.Kill()
	w.cmd.Wait()
}

type outcome struct {
	res   *Result
	crash string // reason the worker process died
	late  bool
}

// do runs a task on the worker; grace limits its wall time.
func (w *workerProc) do(t Task, deadline time.Time, grace time.Duration) outcome {
	b, _ := json.Marshal(map[string]any{"Task": t, "Deadline": deadline.UnixMilli()})
	if _, err := w.in.Write(append(b, '\n')); err != nil {
		return outcome{crash: "worker did not take the task: " + err.Error()}
	}
	type line struct {
		b   []byte
		err error
	}
	ch := make(chan line, 1)
	go func() {
		l, err := w.out.ReadBytes('\n')
		ch <- line{l, err}
	}()
	select {
	case l := <-ch:
		var r Result
		if l.err == nil && json.Unmarshal(l.b, &r) == nil {
			return outcome{res: &r}
		}
		w.in.Close()
		w.cmd.Wait()
		s := w.err.String()
		if s == "" {
			s = fmt.Sprintf("worker ended: %v", w.cmd.ProcessState)
		}
		return outcome{crash: s}
	case <-time.After(time.Until(deadline) + grace):
		return outcome{late: true}
	}
}

func coordinator(args []string) int {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	tier := fs.String("tier", "quick", "tier")
	seed := fs.Int("seed", 1, "seed")
	evid := fs.String("evidence", "", "evidence file")
	out := fs.String("out", "", "directory for replay files")
	bin := fs.String("bin", "", "worker binary (default: this one)")
	arch := fs.String("arch", runtime.GOARCH, "architecture of the worker binary")
	variant := fs.String("variant", "committed", "sources explored")
	budget := fs.Int("budget", 0, "seconds")
	plainBin := fs.String("plainbin", "", "worker binary with the code as it is, for the family plain")
	started := fs.Int64("started", 0, "when the check began, in ms")
	limit := fs.String("level", "", "instrumentation level")
	fs.Parse(args)
	t0 := time.Now()
	if *started > 0 {
		t0 = time.UnixMilli(*started)
	}
	if *bin == "" {
		*bin, _ = os.Executable()
	}
	if *budget == 0 {
		*budget = 170
		if *tier == "thorough" {
			*budget = 780
		}
	}
	deadline := time.Now().Add(time.Duration(*budget) * time.Second)
	tasks := tasksFor(*prop, *tier, loadClasses())
	if len(tasks) == 0 {
		fmt.Fprintln(os.Stderr, "no tasks for", *prop)
		return 2
	}
	nw := runtime.NumCPU()
	if v := os.Getenv("VERIF_WORKERS"); v != "" {
		nw, _ = strconv.Atoi(v)
	}
	if nw > len(tasks) {
		nw = len(tasks)
	}
	var mu sync.Mutex
	next := 0
	var total Result
	results := make([]*Result, len(tasks))
	var viol *ReplayFile
	var broken []string
	stop := make(chan struct{})
	stopped := false
	halt := func() {
		if !stopped {
			stopped = true
			close(stop)
		}
	}
	var wg sync.WaitGroup
	var live sync.Map
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var w *workerProc
			defer func() {
				if w != nil {
					w.kill()
				}
			}()
			for {
				mu.Lock()
				if next >= len(tasks) || stopped {
					mu.Unlock()
					return
				}
				t := tasks[next]
				next++
				mu.Unlock()
				if time.Now().After(deadline) {
					mu.Lock()
					total.Capped = true
					mu.Unlock()
					continue
				}
				var o outcome
				if t.Fam == "plain" && w != nil {
					w.kill()
					w = nil
				}
				for try := 0; try < 2; try++ {
					if w == nil {
						wb := *bin
						if t.Fam == "plain" && *plainBin != "" {
							wb = *plainBin
						}
						nwk, err := startWorker(wb)
						if err != nil {
							mu.Lock()
							broken = append(broken, err.Error())
							halt()
							mu.Unlock()
							return
						}
						w = nwk
						live.Store(w, true)
					}
					o = w.do(t, deadline, 45*time.Second)
					if o.res != nil {
						break
					}
					live.Delete(w)
					w.kill()
					w = nil
					if o.late {
						break
					}
					mu.Lock()
					st := stopped
					mu.Unlock()
					if st {
						return
					}
				}
				if t.Fam == "plain" && w != nil {
					live.Delete(w)
					w.kill()
					w = nil
				}
				mu.Lock()
				switch {
				case o.res != nil:
					results[t.ID] = o.res
					if o.res.Fail != nil && viol == nil {
						viol = &ReplayFile{Property: *prop, Arch: *arch, Variant: *variant, Task: t, Fail: o.res.Fail}
						halt()
					}
				case o.late:
					total.Capped = true
					total.Notes = append(total.Notes, fmt.Sprintf("task %s %s did not answer in time", t.Ctor, t.Fam))
				default:
					// The process died twice on the same task. That is the code under test
					// (stack overflow, unrecoverable fault) unless memory ran out.
					if crashOfCode(o.crash) && crashRelevant(*prop) {
						if viol == nil {
							viol = &ReplayFile{Property: *prop, Arch: *arch, Variant: *variant, Task: t,
								Fail: &FailInfo{Kind: "crash", Msg: firstLines(o.crash, 12), Input: t.Ctor + " family " + t.Fam}}
							halt()
						}
					} else {
						total.Capped = true
						total.Notes = append(total.Notes, fmt.Sprintf("task %s %s: worker died: %s", t.Ctor, t.Fam, firstLines(o.crash, 3)))
					}
				}
				mu.Unlock()
			}
		}()
	}
	go func() {
		<-stop
		live.Range(func(k, _ any) bool { k.(*workerProc).cmd.Process.Kill(); return true })
	}()
	wg.Wait()

	if len(broken) > 0 {
		fmt.Fprintln(os.Stderr, "cannot run workers:", broken)
		return 2
	}
	done := 0
	fams := map[string]*famStat{}
	var samples []string
	sampleOf := map[string]bool{}
	for i, r := range results {
		if r == nil {
			if viol == nil {
				total.Capped = true
			}
			continue
		}
		done++
		total.Stats.Add(&r.Stats)
		total.Scenarios += r.Scenarios
		total.Outcomes += r.Outcomes
		total.Multi += r.Multi
		total.Skipped += r.Skipped
		total.Nondet += r.Nondet
		total.SeqStates += r.SeqStates
		total.SeqTrans += r.SeqTrans
		total.Calls += r.Calls
		total.Replays += r.Replays
		total.Opaque += r.Opaque
		total.Capped = total.Capped || r.Capped
		if len(total.Notes) < 12 {
			total.Notes = append(total.Notes, r.Notes...)
		}
		f := tasks[i].Fam
		if fams[f] == nil {
			fams[f] = &famStat{ctors: map[string]bool{}}
		}
		fams[f].ctors[tasks[i].Ctor] = true
		fams[f].scen += r.Scenarios
		fams[f].exec += r.Stats.Executions
		fams[f].states += r.Stats.States + r.SeqStates
		fams[f].secs += r.Secs
		if r.Sample != "" && !sampleOf[f] {
			sampleOf[f] = true
			samples = append(samples, f+": "+r.Sample)
		}
	}
	rc := 0
	nviol := 0
	var replayPath string
	if viol != nil {
		rc, nviol = 1, 1
		os.MkdirAll(*out, 0o755)
		replayPath = filepath.Join(*out, fmt.Sprintf("%s-%s-%d.json", *prop, *variant, os.Getpid()))
		b, _ := json.MarshalIndent(viol, "", " ")
		if err := os.WriteFile(replayPath, append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	perFam := map[string]any{}
	for f, s := range fams {
		perFam[f] = map[string]any{"constructors": len(s.ctors), "cases": s.scen, "executions": s.exec, "states": s.states, "cpu_s": round(s.secs)}
	}
	cov := map[string]any{
		"states":                        total.Stats.States + total.SeqStates,
		"transitions":                   total.Stats.Transitions + total.SeqTrans,
		"traces_validated_against_impl": total.Stats.Executions + seqRuns(results),
		"samples":                       samples,
		"cases":                         total.Scenarios,
		"cases_with_several_outcomes":   total.Multi,
		"distinct_outcomes":             total.Outcomes,
		"redundant_executions_cut":      total.Stats.Pruned,
		"steps_executed":                total.Stats.Steps,
		"longest_execution":             total.Stats.MaxDepth,
		"spins_detected":                total.Stats.Parks,
		"racy_accesses_promoted":        total.Stats.Races,
		"calls_made_sequentially":       total.Calls,
		"cases_cut_by_other_failures":   total.Skipped,
		"schedules_replayed":            total.Replays,
		"nondeterministic_cases":        total.Nondet,
		"opaque_pointers":               total.Opaque,
		"tasks":                         len(tasks),
		"tasks_done":                    done,
		"families":                      perFam,
		"representatives":               reps(loadClasses()),
		"instrumentation":               *limit,
		"exhaustive":                    !total.Capped && viol == nil,
		"explanation": "The real code (an instrumented copy of the working tree) is executed; there is no separate model. " +
			"states: scheduling states of the explored execution trees plus memory states of the sequential search; transitions: steps between them; " +
			"traces_validated_against_impl: complete executions of the implementation checked against the oracle.",
	}
	if len(total.Notes) > 0 {
		cov["notes"] = total.Notes
	}
	level := plans[*prop].level
	if level == "" {
		level = "model_checking"
	}
	if level == "exploration" {
		cov["evaluations"] = total.Calls
		cov["distinct_nontrivial"] = total.Scenarios
		cov["rule"] = "evaluations: calls whose work is measured; distinct_nontrivial: distinct combinations of constructor, insertion order, churn and draw order, each measured at every size, with every draw sequence of the length that decides a height occurring equally often"
		delete(cov, "states")
		delete(cov, "transitions")
		delete(cov, "traces_validated_against_impl")
	}
	ev := map[string]any{
		"property": *prop, "tier": *tier, "seed": *seed, "level": level,
		"coverage": cov, "wall_s": round(time.Since(t0).Seconds()), "violations": nviol,
		"assumptions": []string{
			"Go's sync/atomic operations are sequentially consistent and plain accesses are race free (C06 decides that), so interleavings of the instrumented operations are all behaviours",
			"bounds: the drivers listed under families (2 to 4 threads, 1 to 3 calls each, up to 4 values, the heights named in DESIGN.md)",
			"nothing depends on the seed: the exploration is exhaustive within the bounds",
		},
	}
	if err := mergeEvidence(*evid, ev); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s (%s, %s): %d cases, %d executions, %d states, %d transitions, %.1f s, exhaustive=%v\n", *prop, *tier, *variant, *arch,
		total.Scenarios, total.Stats.Executions+seqRuns(results), total.Stats.States+total.SeqStates, total.Stats.Transitions+total.SeqTrans, time.Since(t0).Seconds(), cov["exhaustive"])
	if os.Getenv("VERIF_VERBOSE") != "" {
		var fk []string
		for f := range fams {
			fk = append(fk, f)
		}
		sort.Strings(fk)
		for _, f := range fk {
			fmt.Printf("  %-14s ctors=%d cases=%d exec=%d states=%d cpu=%.1fs\n", f, len(fams[f].ctors), fams[f].scen, fams[f].exec, fams[f].states, fams[f].secs)
		}
		fmt.Printf("  skipped=%d nondet=%d opaque=%d notes=%q\n", total.Skipped, total.Nondet, total.Opaque, total.Notes)
	}
	if viol != nil {
		fmt.Printf("%s: %s: %s\n", viol.Fail.Kind, viol.Fail.Input, viol.Fail.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, replayPath)
	}
	return rc
}

type famStat struct {
	ctors        map[string]bool
	scen         int64
	exec, states int64
	secs         float64
}

func round(x float64) float64 { return float64(int64(x*100+0.5)) / 100 }

// seqRuns: complete sequential runs (every case that is not an interleaving exploration).
func seqRuns(rs []*Result) (n int64) {
	for _, r := range rs {
		if r != nil && r.Stats.Executions == 0 {
			if r.SeqTrans > 0 {
				n += r.SeqTrans
			} else {
				n += r.Scenarios
			}
		}
	}
	return
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// crashOfCode: the Go runtime stopped the process because of the code it ran.
func crashOfCode(s string) bool {
	for _, k := range []string{"stack overflow", "SIGSEGV", "SIGBUS", "checkptr", "fatal error: fault", "concurrent map", "found bad pointer", "unlock of unlocked", "all goroutines are asleep", "unaligned"} {
		if strings.Contains(s, k) {
			return !strings.Contains(s, "out of memory")
		}
	}
	return false
}

func crashRelevant(prop string) bool {
	switch prop {
	case "C04", "C06", "C07", "C13":
		return false
	}
	return true
}

// mergeEvidence writes the evidence file.
func mergeEvidence(path string, ev map[string]any) error {
	if path == "" {
		return nil
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	os.MkdirAll(filepath.Dir(path), 0o755)
	return os.WriteFile(path, append(b, '\n'), 0o644)
}

// replayFile replays a recorded violation: exit 1 if it happens again, 0 if not.
func replayFile(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf ReplayFile
	if err := json.Unmarshal(b, &rf); err != nil || rf.Fail == nil {
		fmt.Fprintln(os.Stderr, "bad replay file", err)
		return 2
	}
	fmt.Printf("property %s, %s\n%s: %s\n", rf.Property, rf.Fail.Input, rf.Fail.Kind, rf.Fail.Msg)
	if rf.Fail.Scenario == nil {
		// sequential cases are found again by running their task
		res := runTask(rf.Task, time.Time{})
		if res.Fail == nil {
			fmt.Println("does not happen on this tree")
			return 0
		}
		fmt.Printf("happens: %s: %s\n", res.Fail.Input, res.Fail.Msg)
		return 1
	}
	w := &W{t: rf.Task, c: CtorByName(rf.Task.Ctor), res: &Result{}}
	w.r = NewRunner(w.c, nil)
	name, _, k := famBound(rf.Task.Fam)
	w.r.Bound = k
	fam := families[name]
	w.stop = true // the family only sets the oracle
	fam(w)
	vs.E.ReportRaces, vs.E.Watch = rf.Fail.Races, rf.Fail.Watch
	f, tr := w.r.Replay(rf.Fail.Scenario, rf.Fail.Schedule)
	for _, l := range tr {
		fmt.Println(" ", l)
	}
	for i := range w.r.hist {
		fmt.Println(" ", w.r.hist[i].String())
	}
	if f != nil {
		fmt.Printf("happens: %s\n", f)
		return 1
	}
	// another schedule may do it on a changed tree
	w.r.Sc = rf.Fail.Scenario
	vs.E.ReportRaces, vs.E.Watch = rf.Fail.Races, rf.Fail.Watch
	f, _ = w.exploreGuard(rf.Fail.Scenario)
	if f != nil {
		fmt.Printf("happens under another schedule of the same driver: %s\n", f)
		return 1
	}
	fmt.Println("does not happen on this tree, under any schedule of this driver")
	return 0
}
