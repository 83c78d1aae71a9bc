package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"syscall"
	"time"

	"github.com/apache/datasketches-go/theta"
)

// Statement-level preemption. In the instrumented build every statement of the
// library is preceded by a scheduling point, so a task can be suspended in the
// middle of any library function, not only in its callbacks and I/O. The points
// where a task is preempted are drawn from the length of its solo run.

// instrumented tells whether the library under this simulator has scheduling points.
var instrumented = func() bool {
	n := 0
	rand.SimHook = func(int, int) { n++ }
	_, _ = theta.NewQuickSelectUpdateSketch()
	rand.SimHook = nil
	return n > 0
}()

// lockedUp is set once tasks blocked each other (a lock held by a suspended
// task): from then on this process suspends tasks at callbacks only.
var lockedUp bool

// siteVisits counts, per scheduling point, how often a piece of code passes it.
type siteVisits struct {
	n    []int32
	seen []int32     // the points passed, in order of first visit
	fns  [][]int32   // the same by function
	fn   map[int]int // index in fns
}

func (v *siteVisits) add(site, fn int) int32 {
	for len(v.n) <= site {
		v.n = append(v.n, make([]int32, 1024+site-len(v.n))...)
	}
	if v.n[site] == 0 {
		v.seen = append(v.seen, int32(site))
		if v.fn == nil {
			v.fn = map[int]int{}
		}
		i, ok := v.fn[fn]
		if !ok {
			i = len(v.fns)
			v.fn[fn] = i
			v.fns = append(v.fns, nil)
		}
		v.fns[i] = append(v.fns[i], int32(site))
	}
	v.n[site]++
	return v.n[site]
}

// cut suspends a task at the nth time it passes a scheduling point.
type cut struct {
	site int
	nth  int32
}

// drawCut picks a point the task will pass: rarely executed code is as likely
// to be cut as the innermost loops.
func (s *Sim) drawCut(v *siteVisits) cut {
	site := v.seen[s.Choose(len(v.seen))]
	if s.Choose(2) == 1 {
		f := v.fns[s.Choose(len(v.fns))]
		site = f[s.Choose(len(f))]
	}
	return cut{int(site), 1 + int32(s.Choose(int(v.n[site])))}
}

func preemptHook(site, fn int) {
	s := curSim
	if s == nil || s.freeRun {
		return
	}
	t := s.curTask
	if t == nil {
		if s.visits != nil {
			s.visits.add(site, fn)
		}
		return
	}
	if len(t.cuts) == 0 {
		return
	}
	n := t.visits.add(site, fn)
	for _, c := range t.cuts {
		if c.site == site && c.nth == n {
			s.preempts++
			t.Yield()
			break
		}
	}
}

// freeTasks lets every unfinished task run to its end at once, to get out of a
// situation in which a suspended task holds what the running one waits for.
// The results of such a run mean nothing and are dropped.
func (s *Sim) freeTasks(running *Task) {
	lockedUp = true
	s.freeRun = true
	left := 0
	ch := make(chan struct{}, 16)
	for _, t := range s.tasks {
		if t.done {
			continue
		}
		left++
		go func(t *Task, parked bool) {
			if parked {
				t.resume <- true
			}
			for {
				if r := <-t.yield; r != nil {
					break
				}
				t.resume <- true
			}
			ch <- struct{}{}
		}(t, t != running)
	}
	for ; left > 0; left-- {
		select {
		case <-ch:
		case <-time.After(20 * time.Second):
			fmt.Fprintln(os.Stderr, "tasks do not end")
			os.Exit(3)
		}
	}
	s.tasks = nil
	s.curTask = nil
	s.freeRun = false
}

// preemptScenario: like interleave, with tasks of one kind (or of any), cut at
// arbitrary statements.
func preemptScenario(pick func(s *Sim) *Kind) func(*Sim) {
	return func(s *Sim) {
		if !lockedUp {
			rand.SimHook = preemptHook
			defer func() { rand.SimHook = nil }()
		}
		interleaveTasks(pick, true)(s)
	}
}

// reexec hands over to the instrumented build when the property needs it.
func reexec(prop string) {
	if prop != "X04" || instrumented {
		return
	}
	self, err := os.Executable()
	if err != nil {
		return
	}
	x := filepath.Join(filepath.Dir(self), "simx")
	if _, err := os.Stat(x); err != nil {
		return
	}
	_ = syscall.Exec(x, append([]string{x}, os.Args[1:]...), append(os.Environ(), "SIM_REEXEC=1"))
}

// setScript makes the running task (or the main line) take its choices from p.
func (s *Sim) setScript(p *prng) {
	if s.curTask != nil {
		s.curTask.script = p
	} else {
		s.script = p
	}
}

func (s *Sim) scripted() bool {
	if s.curTask != nil {
		return s.curTask.script != nil
	}
	return s.script != nil
}
