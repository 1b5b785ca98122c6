#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the long texts stay reviewable)."""
import json, os
GEN = ["gen_int.go","gen_intdesc.go","gen_int32.go","gen_int32desc.go","gen_int64.go","gen_int64desc.go",
       "gen_uint.go","gen_uintdesc.go","gen_uint32.go","gen_uint32desc.go","gen_uint64.go","gen_uint64desc.go",
       "gen_string.go","gen_stringdesc.go","gen_ordered.go","gen_ordereddesc.go","gen_func.go"]
CORE = GEN + ["skipset.go","flag.go","oparray.go","util.go"]
ADD=[{"name":"find predecessors, lock them bottom-up, validate (unmarked, still adjacent), link bottom-up, then publish with the fully-linked flag","where":"Add in gen_*.go (skipset.tpl)"}]
REM=[{"name":"lock and mark the victim, lock and validate predecessors, unlink top-down, unlock","where":"Remove in gen_*.go (skipset.tpl)"}]
CON=[{"name":"lock-free descent; membership is decided by the two flag bits of the node found","where":"Contains in gen_*.go (skipset.tpl)"}]
RNG=[{"name":"walk of the bottom list by atomic loads, skipping nodes not (fully linked and unmarked)","where":"Range/RangeFrom in gen_*.go (skipset.tpl)"}]
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=mech))
    if state: d["anchors"]["state"]=state
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=hook
    assert len(title)<=80,(id,len(title))
    P.append(d)
SCHED="A scheduler in control of every synchronisation operation; done by instrumenting a scratch copy of the sources, so nothing is needed in /repo"

p("C01","Add, Remove and Contains are linearizable under every schedule",
  "For every set type and any goroutines calling Add, Remove and Contains on one set, each call takes effect atomically at some moment between its invocation and its return, as on a sequential set: Add returns true exactly when it inserted the value, Remove exactly when it deleted it, Contains exactly when the value is in the set. In particular exactly one of several racing Adds of an absent value (or Removes of a present one) returns true. Once all calls have returned, the set holds exactly what that sequential order leaves and keeps answering every later call accordingly.",
  ["schedules","histories","inputs"],"all interleavings of all concurrent calls, from any earlier state of the set, for every set type",
  "The tests run each concurrent mix once under whatever schedule the machine gives and compare totals at the end; they never check a result against the real-time order of calls, use a small part of the set types, and cannot reach a preemption between two particular instructions.",
  CORE,ADD+REM+CON,[{"name":"node flags","meaning":"fully linked / marked: membership of a node","where":"flag.go"},{"name":"next pointers","meaning":"linked lists per level","where":"oparray.go"}],
  ["return values of Add/Remove/Contains and their invocation/return order","contents and behaviour after quiescence"],SCHED)
p("C02","Every sequential history of calls behaves as a mathematical set",
  "For every constructor and every sequence of Add, Remove, Contains, Range and Len calls made one after another, the results are those of a mathematical set kept in the set's order: Add is true iff the value was absent, Remove is true iff it was present, Contains and Len agree with the contents, and Range lists exactly the contents once each in order. The zero value of the element type and the extreme values of the type are ordinary elements. No call panics or fails to return.",
  ["histories","inputs","configurations"],"all call sequences, all constructors, all outcomes of the internal random choices",
  "The tests run a few fixed sequences with random internal choices on NewInt, NewIntDesc, NewString, New, NewDesc and NewFunc only; most typed sets are never exercised and no sequence is run under more than one outcome of the random choices.",
  CORE,ADD+REM+CON+RNG,None,["return values of all methods"],"Controlled outcomes of the random source (scratch copy of the sources)")
p("C03","Iteration concurrent with updates is ordered, complete and never stale",
  "A Range or RangeFrom that runs concurrently with Add and Remove calls passes values to its callback in strictly increasing set order, never one value twice and (RangeFrom) never one before the start value. A value that is in the set for the whole duration of the iteration is passed (unless the callback stopped it); a value is passed only if it is in the set at some moment between the return of the preceding callback (or the start of the iteration) and its own callback, so that a value removed before its turn comes is not passed. Each single value is seen as by one atomic membership test made during the iteration.",
  ["schedules","histories"],"all interleavings of an iteration with concurrent updates, all start values",
  "The tests iterate during concurrent updates once or twice per run, check only the order of the values, and never whether a value that was there all along was skipped or one that was gone was reported; RangeFrom is never run concurrently.",
  CORE,RNG+ADD+REM,None,["sequence of callback arguments against the history of Add/Remove calls"],SCHED)
p("C04","Contains, Range, RangeFrom and Len are wait-free",
  "Contains, Range, RangeFrom and Len never wait for another goroutine. From every state that can occur while other goroutines are suspended at arbitrary points inside their own Add and Remove calls, a reader that runs alone returns within a number of its own steps bounded by the number of elements ever added, without blocking on a lock and without spinning.",
  ["schedules"],"all suspension points of the concurrent updates, all positions of the reader",
  "No test suspends a goroutine inside an update; under normal scheduling a reader that waits for a lock or a flag merely takes a little longer and the test passes.",
  CORE,CON+RNG,None,["own steps of a reader run alone from every reachable state"],SCHED)
p("C05","No schedule deadlocks, livelocks or crashes an operation",
  "Whatever the interleaving of Add, Remove, Contains, Range, RangeFrom and Len calls on a set, every call returns under fair scheduling: no set of calls blocks each other for ever, no call retries or spins for ever, and no call panics or releases a lock it does not hold. After all calls have returned, no lock is left held: further calls on any value still return.",
  ["schedules","histories"],"all interleavings of concurrent calls, all combinations of operations and internal heights",
  "A lock-order inversion or an endless retry needs a preemption at one particular instruction with particular heights; a test run samples a few schedules and a hang would show only as a time-out.",
  CORE,[{"name":"locks taken from the bottom level up, i.e. in decreasing element order; released on every exit; waiting loops end when the other call finishes","where":"Add/Remove/unlock* in gen_*.go (skipset.tpl)"}],
  [{"name":"mu","meaning":"per-node lock","where":"gen_*.go"}],["enabledness of every goroutine in every reachable state"],SCHED)
p("C06","Concurrent use is free of data races",
  "Any concurrent use of a set through its exported methods is free of data races as the Go memory model defines them: of any two conflicting accesses by two goroutines to memory of the set, at least one of them a write, either both are atomic operations or one happens before the other. This holds for every set type and every schedule.",
  ["schedules"],"all pairs of conflicting accesses in all interleavings, for every set type",
  "The race detector sees only the accesses of the schedule that happened and only those set types a test uses; most typed sets are never run concurrently, and many racy pairs need a rare interleaving to both execute.",
  CORE,[{"name":"atomic loads for every unlocked read of links and flags, atomic stores for every write to a published node, plain reads only of one's own or locked nodes","where":"gen_*.go, oparray.go, flag.go"}],None,
  ["happens-before order of all accesses of each explored execution"],SCHED+"; plain memory accesses are instrumented as well")
p("C07","Len is exact at rest and never drifts or goes below what is present",
  "When no Add or Remove is in progress, Len returns exactly the number of elements in the set, whatever concurrent history led there. While updates are in progress, Len never returns less than the number of elements that stay in the set throughout the call (so never a negative number), and never more than the elements present at its start plus the Adds in progress during it or Removes not yet returned at its start.",
  ["schedules","histories"],"all interleavings of updates and Len calls",
  "The tests read Len only after all goroutines have finished and only for totals; a lost update of the counter needs a preemption between two instructions, and no test reads Len during updates.",
  CORE,[{"name":"atomic counter adjusted once per successful Add/Remove","where":"Add/Remove/Len in gen_*.go (skipset.tpl)"}],
  [{"name":"length","meaning":"element counter","where":"gen_*.go"}],["return value of Len against the history"],SCHED)
p("C08","Each constructor orders its element type as documented, over the full range",
  "Sets from New and the typed constructors list their elements in ascending order of the element type, the Desc constructors in descending order, by the type's own < over its full range (extremes, zero, negative numbers, empty strings, strings that are prefixes of each other); values that are == are one element and others are distinct. The Float32/Float64 constructors, ascending and descending, treat all NaNs as one element that comes before every other one, +0 and -0 as one element, and order the infinities as extremes. (New/NewDesc over float types: values other than NaN.)",
  ["inputs","configurations"],"all constructors, all element types New accepts, all sets of boundary values, all insertion orders",
  "The tests check order with small positive ints, one list of five floats and decimal strings; int32/int64/uint* and their Desc sets, New over other types, and values near the ends of the types are not tested, so a comparison that is wrong only for some pairs of values passes.",
  CORE,[{"name":"Less/Equal substituted into the template per type","where":"gen.go, gen_*.go"},{"name":"NaN-aware comparators","where":"NewFloat32/64[Desc] in skipset.go"}],None,
  ["Range order and membership"],None)
p("C09","NewFunc honours any strict weak ordering",
  "For every strict weak ordering passed to NewFunc, the set identifies elements exactly when neither is less than the other, keeps the element that was added first, lists elements in the order's sequence, and answers Add, Remove, Contains, Range and RangeFrom accordingly. Element identity is decided by the given function alone, not by Go equality or by any other order, and only values passed to the set are handed to it.",
  ["inputs","configurations","histories"],"all strict weak orderings on the values used, all call sequences",
  "The tests use NewFunc only with < and > and one NaN-aware order on floats, under which equivalence coincides with equality; an implementation that confuses the two, or that calls the function with swapped arguments only in some branch, passes.",
  ["gen_func.go","skipset.go","gen.go","skipset.tpl"],[{"name":"every comparison goes through less; equality is !less(a,b) given !less(b,a)","where":"gen_func.go"}],None,
  ["return values, retained representatives, arguments seen by the comparison function"],None)
p("C10","Internal random heights never show in the results",
  "The results of every method are the same whatever the internal random source returns, including arbitrarily long runs of one outcome: no outcome makes a call panic, loop for ever or change its answer, and elements of any mix of internal heights, up to and beyond the maximum, coexist. This also holds when concurrent calls raise the height of the index at the same time.",
  ["inputs","schedules","configurations"],"all outcomes of the random source and all mixes of heights, sequentially and in concurrent calls",
  "The probability of height k is about 4^-k, so tests practically never produce a node of height 10 or more, never the capped maximum, and never two concurrent calls that both raise the index.",
  CORE,[{"name":"height capped at the maximum","where":"randomLevel in util.go"},{"name":"CAS loop that raises the highest level before the search","where":"randomlevel in gen_*.go"},{"name":"second pointer array for high nodes","where":"oparray.go and new*Node in gen_*.go"}],
  [{"name":"highestLevel","meaning":"levels searched","where":"gen_*.go"}],["return values of all methods"],"Controlled outcomes of the random source (scratch copy of the sources)")
p("C11","Range and RangeFrom visit exactly the right elements and stop when told",
  "On a set that is not being modified, Range calls its callback exactly once for each element in set order, and RangeFrom(start) exactly once for each element that is not before start in set order, whether or not start is itself an element. As soon as the callback returns false it is not called again. Neither changes the set.",
  ["inputs","histories","configurations"],"all contents, all start values (present, absent, removed earlier, before the first, after the last), all stopping points, all constructors",
  "RangeFrom is tested on NewInt64/NewInt64Desc only, with random heights and no removals before it, and no test ever returns false from a callback.",
  CORE,RNG+[{"name":"descent to the first element not before start","where":"RangeFrom in gen_*.go (skipset.tpl)"}],None,["callback arguments"],None)
p("C12","Iteration callbacks may use the set freely",
  "No lock is held and nothing is left half done while a Range or RangeFrom callback (or the comparison function of a read) runs: the callback may call any method of the same set, including removing the element it was given, adding elements and iterating again, or may panic or block; these calls return with correct results, other goroutines' calls complete meanwhile, and the set stays fully usable. The iteration itself then goes on in increasing order, passing every later element that is in the set from the start to the end of the iteration and none that is out of the set, because the callback or another call removed it, by the time its turn comes.",
  ["histories","schedules"],"all nested calls at all positions of an iteration over all small sets, and all interleavings with another goroutine's calls",
  "One test removes from a callback, on one concurrent mix; no test adds, nests iterations, panics or blocks in a callback.",
  CORE,RNG,None,["results of nested calls and of later callbacks"],SCHED)
p("C13","Removed elements are released",
  "Once Remove has returned and no other call is in progress, the set no longer keeps the removed element's memory alive: memory held by a set is proportional to the elements it holds, however many additions and removals (successful or not, concurrent or not) came before.",
  ["histories","schedules"],"all sequences of additions and removals with all heights, and interleavings of concurrent ones",
  "No test looks at reachability; a node left linked on an upper level or remembered elsewhere is invisible in return values.",
  CORE,REM+[{"name":"unlink on every level the node is linked on; no other references to nodes are kept","where":"Remove in gen_*.go"}],None,["reachability of node memory after garbage collection"],"Allocation tracking in a scratch copy of the sources")
p("C14","Sets are independent of each other",
  "Operations on one set never affect the results, contents, length or progress of another set, of the same or another type, sequentially or concurrently; sets share no mutable state.",
  ["schedules","histories"],"all interleavings of calls on two sets, all sequential mixes",
  "The tests use one set at a time; scratch state hoisted to package level or shared between sets shows only when two sets are used in an interleaved way.",
  CORE,[{"name":"all mutable state lives in the set value and its nodes; scratch arrays are locals","where":"New* in skipset.go, gen_*.go"}],None,["return values of each set against its own history"],SCHED)
p("C15","The code generator emits set types that honour the same contract",
  "Running the code generator on the current template succeeds and emits every set type the package exports; the emitted package compiles and every emitted type satisfies the sequential, concurrent, ordering and iteration guarantees stated for the committed types.",
  ["programs","configurations"],"all types the generator emits, each under all call sequences and schedules",
  "The tests compile and run only the committed generated files; a change to the template or generator shows there only after somebody regenerates.",
  ["gen.go","skipset.tpl"]+GEN,[{"name":"text template instantiated per type with Less/Equal","where":"gen.go, skipset.tpl"}],None,["behaviour of the package after go generate in a scratch copy"],None)
p("C16","All guarantees hold on 32-bit platforms",
  "Built for a 32-bit target, every constructor works and every method gives the same results as on a 64-bit target: 64-bit counters accessed atomically are suitably aligned, and no element value or count is truncated.",
  ["configurations","inputs"],"all constructors and call sequences on a 32-bit target (386)",
  "The tests and the CI run on 64-bit machines only; a misaligned 64-bit atomic panics on 32-bit targets alone.",
  CORE,[{"name":"64-bit counters first in the struct, which guarantees alignment","where":"type *Set struct in gen_*.go"}],None,["results of the same explorations built with GOARCH=386"],None)
p("C17","Searches use the index: their cost grows logarithmically, not linearly",
  "When the internal random source behaves evenly (each possible draw equally often), the work of one Contains, Add, Remove, or of RangeFrom up to its first element, on a set of n elements grows like log n, for every element, absent value and insertion order of this kind; it does not degrade to a scan of the set, also after elements have been removed and added again. Len takes constant time.",
  ["inputs","configurations"],"all queries on sets built with all draws of the random source equally often, every set type",
  "The tests check results only; a set that degenerated into a linked list would pass all of them.",
  CORE,[{"name":"geometric heights with ratio 1/4","where":"randomLevel in util.go"},{"name":"descent from the highest level in use","where":"find*/Contains/RangeFrom in gen_*.go"}],
  [{"name":"highestLevel","meaning":"levels searched","where":"gen_*.go"}],["number of shared-memory steps per call"],"Step counting in a scratch copy of the sources")
p("C18","Updates wait only for updates of neighbouring elements",
  "The set is scalable: it has no lock that unrelated calls share. An Add or Remove never waits for a reader (Contains, Range, RangeFrom, Len), wherever that reader is suspended. An Add of an element that is in the set throughout the call, and a Remove of a value that is in the set at no moment of the call, wait for nobody. Add and Remove calls on values on either side of an element that stays in the set do not wait for each other if that element's internal height is at least that of the node of the value that comes later in set order. Not waiting means: if the other calls are suspended at arbitrary points, the call still returns within its own steps.",
  ["schedules","configurations"],"all suspension points of the other calls, all combinations of calls, heights and contents",
  "No test suspends a call inside an update and looks whether another call proceeds; a lock that serialises everything, or a lock taken too early or on too many levels, passes every test and costs only throughput, which tests do not measure.",
  CORE,[{"name":"locks on the predecessors on the levels of the node only; none for calls that change nothing","where":"Add/Remove in gen_*.go (skipset.tpl)"}],
  [{"name":"mu","meaning":"per-node lock","where":"gen_*.go"}],["own steps and lock acquisitions of a call while others are suspended in every reachable state"],SCHED)
p("C19","Flag words and pointer towers of nodes are atomic, independent cells",
  "Concurrent SetTrue, SetFalse, Get and MGet calls on one flag word each take effect at one moment: SetTrue sets and SetFalse clears exactly the flags given, all at once, and loses no concurrent change of other flags; Get tells whether any, MGet(check, expect) whether all flags of check have the given values, in one moment's state; every call returns under every schedule. The cells 0..15 of a pointer tower are independent: each returns what was last stored in it by store or atomicStore, atomic accesses of any cells by several goroutines do not race, and the lower cells work without the upper part.",
  ["schedules","inputs"],"all interleavings of calls on one word or tower, all states and masks of 8 flags, all cells",
  "The unit tests of flag.go and oparray.go are sequential; a lost update or torn pair of flags needs a preemption between a load and a store, and the sets themselves never set two flags at once, so that their tests cannot show it.",
  ["flag.go","oparray.go"],[{"name":"compare-and-swap loops on one 32-bit word","where":"flag.go"},{"name":"base array plus optional upper array","where":"oparray.go"}],
  [{"name":"data","meaning":"flag bits","where":"flag.go"},{"name":"base, extra","meaning":"next pointers by level","where":"oparray.go"}],["return values and final state of the helper's calls"],"A file added to the scratch copy of the package exposes the two internal types")
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
