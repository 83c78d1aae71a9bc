package main

import (
	"container/heap"
	"fmt"
	"math/bits"
	"math/rand"
	"runtime"
	"runtime/debug"
	"strings"
	"time"
)

// violation is how an oracle, or a library panic, ends a run.
type violation struct {
	Class  string `json:"class"`  // stable identity, used for minimisation and known findings
	Detail string `json:"detail"` // numbers and context
}

// abortRun ends a run early without a verdict (e.g. the replayed choices make no sense).
type abortRun struct{ why string }

// Sim is one simulated execution. Every decision taken in it comes from Choose,
// so the recorded choice list is the execution.
type Sim struct {
	wide           bool // REQ items of all magnitudes
	craft          craftPlan
	big            bool // sketches and batches of the sizes deployments use
	Prop, Scenario string
	Tier           string
	Index          int
	Seed           uint64

	rng       prng
	replay    []uint64
	replaying bool
	pos       int
	rec       []uint64

	Now    int64 // virtual microseconds
	evSeq  uint64
	events evHeap

	faults map[string]int64
	probes map[string]int64
	sig    uint64
	ops    int64 // library operations performed
	checks int64 // oracle evaluations
	states map[uint64]struct{}

	tracing bool
	trace   []string

	tasks []*Task

	script   *prng
	visits   *siteVisits // scheduling points passed outside tasks, where of interest
	preempts int64
	freeRun  bool
	curTask  *Task

	quiet        bool // faults switched off
	measureAlloc bool
}

func newSim(prop, scenario, tier string, idx int, seed uint64) *Sim {
	return &Sim{Prop: prop, Scenario: scenario, Tier: tier, Index: idx, Seed: seed, rng: prng{seed},
		faults: map[string]int64{}, probes: map[string]int64{}, states: map[uint64]struct{}{}, sig: 1}
}

// Choose returns a value in [0,n). 0 is always the simplest alternative.
func (s *Sim) Choose(n int) int {
	if n <= 1 {
		return 0
	}
	return int(s.choose64(uint64(n)))
}

func (s *Sim) choose64(n uint64) uint64 {
	scr := s.script
	if s.curTask != nil {
		scr = s.curTask.script
	}
	var v uint64
	if scr != nil { // a choice fixed by an earlier one, not a new one
		v = scr.next()
		if n != 0 {
			v %= n
		}
		return v
	}
	if s.replaying {
		if s.pos < len(s.replay) {
			v = s.replay[s.pos]
			if n != 0 {
				v %= n
			}
		}
	} else {
		v = s.rng.next()
		if n != 0 {
			hi, _ := bits.Mul64(v, n)
			v = hi
		}
	}
	s.pos++
	s.rec = append(s.rec, v)
	if len(s.rec) > 2_000_000 {
		panic(abortRun{"too many choices"})
	}
	return v
}

// Bool is true with probability num/den; the simplest alternative is false.
func (s *Sim) Bool(num, den int) bool { return s.Choose(den) >= den-num }

// Range returns a value in [lo,hi].
func (s *Sim) Range(lo, hi int) int { return lo + s.Choose(hi-lo+1) }

// Size returns a value in [0,max] whose magnitude is uniform.
func (s *Sim) Size(max int) int {
	if max <= 0 {
		return 0
	}
	nb := bits.Len(uint(max))
	b := s.Choose(nb + 1)
	if b == 0 {
		return 0
	}
	lo := 1 << (b - 1)
	hi := 1<<b - 1
	if hi > max {
		hi = max
	}
	return s.Range(lo, hi)
}

// Pick returns an index with the given weights.
func (s *Sim) Pick(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	if t == 0 {
		return 0
	}
	v := s.Choose(t)
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return len(w) - 1
}

// Word returns a full 64-bit random word as one choice.
func (s *Sim) Word() uint64 { return s.choose64(0) }

func (s *Sim) Fault(kind string) { s.faults[kind]++; s.mix(hashString("fault:" + kind)) }
func (s *Sim) Probe(name string) { s.probes[name]++ }
func (s *Sim) ProbeIf(c bool, name string) {
	if c {
		s.probes[name]++
	}
}
func (s *Sim) mix(x uint64) { s.sig = mix64(s.sig ^ x) }

// State notes a distinct abstract state reached.
func (s *Sim) State(parts ...uint64) {
	h := mixAll(parts...)
	s.states[h] = struct{}{}
	s.mix(h)
}

func (s *Sim) Logf(f string, a ...any) {
	if s.tracing && len(s.trace) < 5000 {
		s.trace = append(s.trace, fmt.Sprintf("t=%dus ", s.Now)+fmt.Sprintf(f, a...))
	}
}

// Step notes a scheduling event.
func (s *Sim) Step(f string, a ...any) {
	s.mix(hashString(f))
	s.Logf(f, a...)
}

func (s *Sim) Fail(class, f string, a ...any) {
	panic(violation{class, fmt.Sprintf(f, a...)})
}

func (s *Sim) Assert(ok bool, class, f string, a ...any) {
	s.checks++
	if !ok {
		panic(violation{class, fmt.Sprintf(f, a...)})
	}
}

// Must fails the run when err is not nil.
func (s *Sim) Must(err error, class string) {
	s.checks++
	if err != nil {
		panic(violation{class, "unexpected error: " + err.Error()})
	}
}

// ---- discrete events ----

type event struct {
	at  int64
	seq uint64
	run func()
}
type evHeap []event

func (h evHeap) Len() int { return len(h) }
func (h evHeap) Less(i, j int) bool {
	if h[i].at != h[j].at {
		return h[i].at < h[j].at
	}
	return h[i].seq < h[j].seq
}
func (h evHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i] }
func (h *evHeap) Push(x any)   { *h = append(*h, x.(event)) }
func (h *evHeap) Pop() any {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

func (s *Sim) After(d int64, f func()) {
	s.evSeq++
	heap.Push(&s.events, event{s.Now + d, s.evSeq, f})
}

// RunEvents drains the event queue.
func (s *Sim) RunEvents(max int) int {
	n := 0
	for len(s.events) > 0 && n < max {
		e := heap.Pop(&s.events).(event)
		s.Now = e.at
		e.run()
		n++
	}
	return n
}

// ---- cooperative tasks: exactly one runs at a time, the simulator says which ----

type Task struct {
	s      *Sim
	name   string
	resume chan bool
	yield  chan any // nil: yielded; non-nil: finished (taskDone or a panic value)
	done   bool
	every  int
	cnt    int
	yields int
	lib    libRand // each task has its own stream of library randomness

	script *prng      // where Choose takes its values inside this task
	visits siteVisits // scheduling points passed (instrumented build)
	cuts   []cut      // where the task is preempted
}
type taskDone struct{}
type taskPanic struct {
	v     any
	stack string
}
type taskKilled struct{}

func (s *Sim) Go(name string, f func(t *Task)) *Task {
	t := &Task{s: s, name: name, resume: make(chan bool), yield: make(chan any)}
	s.tasks = append(s.tasks, t)
	go func() {
		if !<-t.resume {
			t.yield <- taskDone{}
			return
		}
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(taskKilled); ok {
					t.yield <- taskDone{}
					return
				}
				t.yield <- taskPanic{r, string(debug.Stack())}
				return
			}
			t.yield <- taskDone{}
		}()
		f(t)
	}()
	return t
}

// Yield suspends the task; the simulator picks who runs next.
func (t *Task) Yield() {
	if t == nil || t.s.curTask != t {
		return
	}
	t.yields++
	t.yield <- nil
	if !<-t.resume {
		panic(taskKilled{})
	}
}

// YieldPoint is called from callbacks the library makes; it yields every few calls.
func (s *Sim) YieldPoint() {
	t := s.curTask
	if t == nil || t.every == 0 {
		return
	}
	t.cnt++
	if t.cnt%t.every == 0 {
		t.Yield()
	}
}

// RunTasks schedules all tasks to completion.
func (s *Sim) RunTasks() {
	for {
		var live []*Task
		for _, t := range s.tasks {
			if !t.done {
				live = append(live, t)
			}
		}
		if len(live) == 0 {
			break
		}
		t := live[s.Choose(len(live))]
		s.Now += 1 + int64(s.Choose(8))
		s.mix(hashString(t.name))
		s.Logf("schedule %s", t.name)
		s.curTask = t
		main := *lib
		*lib = t.lib
		t.resume <- true
		var r any
		if rand.SimHook == nil {
			r = <-t.yield
		} else {
			tm := time.NewTimer(5 * time.Second)
			select {
			case r = <-t.yield:
				tm.Stop()
			case <-tm.C:
				s.freeTasks(t)
				*lib = main
				panic(abortRun{"a suspended task holds what another one waits for"})
			}
		}
		t.lib = *lib
		*lib = main
		s.curTask = nil
		switch x := r.(type) {
		case nil:
		case taskDone:
			t.done = true
		case taskPanic:
			t.done = true
			s.killTasks()
			if v, ok := x.v.(violation); ok {
				panic(v)
			}
			if a, ok := x.v.(abortRun); ok {
				panic(a)
			}
			panic(violation{panicClass(x.v, x.stack), fmt.Sprint(x.v) + "\n" + trimStack(x.stack)})
		}
	}
	s.tasks = nil
}

func (s *Sim) killTasks() {
	for _, t := range s.tasks {
		if !t.done {
			t.resume <- false
			<-t.yield
			t.done = true
		}
	}
	s.tasks = nil
	s.curTask = nil
}

// ---- panics ----

const libPrefix = "github.com/apache/datasketches-go/"

// panicClass names a panic by the innermost library function on its stack.
func panicClass(v any, stack string) string {
	fn := ""
	seen := false
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "panic(") {
			seen = true
			fn = ""
			continue
		}
		if seen && fn == "" && strings.HasPrefix(l, libPrefix) {
			fn = strings.TrimPrefix(l, libPrefix)
			if i := strings.LastIndexByte(fn, '('); i > 0 {
				fn = fn[:i]
			}
			// drop generic instantiations
			for {
				a := strings.IndexByte(fn, '[')
				b := strings.IndexByte(fn, ']')
				if a < 0 || b < a {
					break
				}
				fn = fn[:a] + fn[b+1:]
			}
		}
	}
	kind := "panic"
	msg := fmt.Sprint(v)
	switch {
	case strings.Contains(msg, "index out of range"), strings.Contains(msg, "slice bounds out of range"):
		kind = "panic-bounds"
	case strings.Contains(msg, "nil pointer"), strings.Contains(msg, "invalid memory address"):
		kind = "panic-nil"
	case strings.Contains(msg, "divide by zero"):
		kind = "panic-div"
	case strings.Contains(msg, "makeslice"):
		kind = "panic-makeslice"
	}
	if fn == "" {
		return kind + "@harness"
	}
	return kind + "@" + fn
}

func trimStack(st string) string {
	var out []string
	for _, l := range strings.Split(st, "\n") {
		if strings.Contains(l, "/repo/") || strings.HasPrefix(l, libPrefix) || strings.Contains(l, "/verif/sim/") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 24 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Try runs f and reports a library panic as an error-like violation value (nil when none).
func try(f func()) (v *violation) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case violation:
				panic(x)
			case abortRun:
				panic(x)
			case taskKilled:
				panic(x)
			}
			st := string(debug.Stack())
			v = &violation{panicClass(r, st), fmt.Sprint(r) + "\n" + trimStack(st)}
		}
	}()
	f()
	return nil
}

// runOne executes a scenario and returns the violation, if any.
func runOne(s *Sim, f func(*Sim)) (v *violation, aborted string) {
	defer func() {
		if r := recover(); r != nil {
			if len(s.tasks) > 0 {
				s.killTasks()
			}
			switch x := r.(type) {
			case violation:
				v = &x
			case abortRun:
				aborted = x.why
			default:
				st := string(debug.Stack())
				v = &violation{panicClass(r, st), fmt.Sprint(r) + "\n" + trimStack(st)}
			}
		}
	}()
	curSim = s
	seedLib(mixAll(s.Seed, 77), 0)
	f(s)
	return
}

func allocNow() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}
