package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// scenarioDef is one way of exercising a property.
type scenarioDef struct {
	Name   string
	Weight int
	Run    func(*Sim)
}

type propDef struct {
	ID        string
	Scenarios []scenarioDef
	Quick     int // runs in the quick tier
	Thorough  int // cap of runs in the thorough tier
	Real      []string
	Stub      []string
	Rule      string
}

var props = map[string]*propDef{}

func register(p *propDef) { props[p.ID] = p }

// schedule maps a run index to a scenario: a fixed weighted rotation.
func (p *propDef) scenarioFor(idx int) *scenarioDef {
	t := 0
	for i := range p.Scenarios {
		t += p.Scenarios[i].Weight
	}
	v := int(mixAll(uint64(idx), 0x5ce) % uint64(t))
	for i := range p.Scenarios {
		v -= p.Scenarios[i].Weight
		if v < 0 {
			return &p.Scenarios[i]
		}
	}
	return &p.Scenarios[0]
}

func (p *propDef) scenarioNamed(n string) *scenarioDef {
	for i := range p.Scenarios {
		if p.Scenarios[i].Name == n {
			return &p.Scenarios[i]
		}
	}
	return nil
}

type replayFile struct {
	Property   string   `json:"property"`
	Scenario   string   `json:"scenario"`
	Tier       string   `json:"tier"`
	Index      int      `json:"index"`
	MasterSeed uint64   `json:"master_seed"`
	Seed       uint64   `json:"seed"`
	Choices    []uint64 `json:"choices"`
	Class      string   `json:"class"`
	Detail     string   `json:"detail"`
	Minimised  bool     `json:"minimised"`
	// Prelude lists runs that have to be executed before this one in the same
	// process, where the failure needs state the library kept between runs.
	Prelude []int `json:"prelude,omitempty"`
	OrigLen    int      `json:"original_choices"`
	Faults     map[string]int64
	Trace      []string `json:"trace"`
}

func runSeed(master uint64, prop string, idx int) uint64 {
	return mixAll(master, hashString(prop), uint64(idx))
}

type runResult struct {
	I      int               `json:"i"`
	Sc     string            `json:"sc,omitempty"`
	Start  bool              `json:"start,omitempty"`
	V      *violation        `json:"v,omitempty"`
	Abort  string            `json:"abort,omitempty"`
	Sig    uint64            `json:"sig,omitempty"`
	Ops    int64             `json:"ops,omitempty"`
	Checks int64             `json:"checks,omitempty"`
	Now    int64             `json:"now,omitempty"`
	Faults map[string]int64  `json:"f,omitempty"`
	Probes map[string]int64  `json:"p,omitempty"`
	States []uint64          `json:"st,omitempty"`
	Steps  int               `json:"steps,omitempty"`
	Final  bool              `json:"final,omitempty"`
	Extra  map[string]string `json:"x,omitempty"`
}

func setLimits() {
	lim := syscall.Rlimit{Cur: 10 << 30, Max: 10 << 30}
	_ = syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	c := syscall.Rlimit{}
	_ = syscall.Setrlimit(syscall.RLIMIT_CORE, &c)
	debug.SetGCPercent(200)
}

func execRun(p *propDef, sc *scenarioDef, tier string, idx int, seed uint64, replay []uint64, replaying, tracing bool) (*Sim, *violation, string) {
	s := newSim(p.ID, sc.Name, tier, idx, seed)
	s.replay, s.replaying, s.tracing = replay, replaying, tracing
	v, ab := runOne(s, sc.Run)
	return s, v, ab
}

// selected matches a scenario name against a comma-separated list of names and
// prefixes ending in '*'.
func selected(only, name string) bool {
	for _, o := range strings.Split(only, ",") {
		if o == name || strings.HasSuffix(o, "*") && strings.HasPrefix(name, o[:len(o)-1]) {
			return true
		}
	}
	return false
}

func workerMain(p *propDef, tier string, master uint64, shard, shards, runs int, deadline time.Time, only string) {
	setLimits()
	out := bufio.NewWriterSize(os.Stdout, 1<<16)
	enc := json.NewEncoder(out)
	for i := shard; i < runs; i += shards {
		if time.Now().After(deadline) {
			break
		}
		sc := p.scenarioFor(i)
		if only != "" && !selected(only, sc.Name) {
			continue
		}
		_ = enc.Encode(runResult{I: i, Sc: sc.Name, Start: true})
		out.Flush()
		s, v, ab := execRun(p, sc, tier, i, runSeed(master, p.ID, i), nil, false, false)
		st := make([]uint64, 0, len(s.states))
		for k := range s.states {
			st = append(st, k)
		}
		sort.Slice(st, func(a, b int) bool { return st[a] < st[b] })
		if len(st) > 256 {
			st = st[:256]
		}
		_ = enc.Encode(runResult{I: i, Sc: sc.Name, V: v, Abort: ab, Sig: s.sig, Ops: s.ops, Checks: s.checks, Now: s.Now, Faults: s.faults, Probes: s.probes, States: st, Steps: len(s.rec)})
		if v != nil && len(s.rec) < 1 {
			// nothing else to say
		}
		out.Flush()
	}
	_ = enc.Encode(runResult{Final: true})
	out.Flush()
}

// ---- isolated execution: one run per process, for crashes and hangs ----

type isoResult struct {
	V     *violation
	Rec   []uint64
	Trace []string
	Flt   map[string]int64
}

func execIsolated(self string, rf *replayFile, useChoices bool, timeout time.Duration, trace bool) (isoResult, bool) {
	tmp, err := os.CreateTemp("", "simexec")
	if err != nil {
		fatal("tmp: %v", err)
	}
	defer os.Remove(tmp.Name())
	b, _ := json.Marshal(rf)
	tmp.Write(b)
	tmp.Close()
	args := []string{"exec", "-file", tmp.Name()}
	if useChoices {
		args = append(args, "-choices")
	}
	if trace {
		args = append(args, "-trace")
	}
	cmd := exec.Command(self, args...)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
	var so, se strings.Builder
	cmd.Stdout = &so
	cmd.Stderr = &limitedWriter{b: &se, n: 1 << 16}
	if err := cmd.Start(); err != nil {
		fatal("exec: %v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(timeout):
		cmd.Process.Kill()
		<-done
		return isoResult{V: &violation{"hang", fmt.Sprintf("no progress within %v of wall time (twice, in a fresh process)", timeout)}}, true
	}
	var r isoResult
	if err := json.Unmarshal([]byte(so.String()), &r); err != nil {
		cls := "process-death"
		det := se.String()
		if strings.Contains(det, "out of memory") || strings.Contains(det, "cannot allocate memory") {
			cls = "out-of-memory"
		} else if strings.Contains(det, "stack overflow") || strings.Contains(det, "goroutine stack exceeds") {
			cls = "stack-overflow"
		}
		if i := strings.Index(det, "goroutine 1"); i > 0 {
			fn := panicClass("", "panic(\n"+det)
			cls += strings.TrimPrefix(fn, "panic")
		}
		if len(det) > 3000 {
			det = det[:3000]
		}
		return isoResult{V: &violation{cls, det}}, true
	}
	return r, r.V != nil
}

type limitedWriter struct {
	b *strings.Builder
	n int
}

func (l *limitedWriter) Write(p []byte) (int, error) {
	if l.b.Len() < l.n {
		l.b.Write(p)
	}
	return len(p), nil
}

func execMain(file string, useChoices, trace bool) {
	setLimits()
	b, err := os.ReadFile(file)
	if err != nil {
		fatal("%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fatal("%v", err)
	}
	p := props[rf.Property]
	if p == nil {
		fatal("unknown property %q", rf.Property)
	}
	sc := p.scenarioNamed(rf.Scenario)
	if sc == nil {
		fatal("unknown scenario %q", rf.Scenario)
	}
	for _, i := range rf.Prelude {
		execRun(p, p.scenarioFor(i), rf.Tier, i, runSeed(rf.MasterSeed, p.ID, i), nil, false, false)
	}
	s, v, _ := execRun(p, sc, rf.Tier, rf.Index, rf.Seed, rf.Choices, useChoices, trace)
	json.NewEncoder(os.Stdout).Encode(isoResult{V: v, Rec: s.rec, Trace: s.trace, Flt: s.faults})
}

// findPrelude handles a failure that does not occur in a fresh process: the
// library keeps state between runs. It looks for earlier runs of the same worker
// after which the failing run fails again, and drops those not needed.
func findPrelude(self string, rf *replayFile, workers int, only string, p *propDef) isoResult {
	var earlier []int
	for i := rf.Index % workers; i < rf.Index; i += workers {
		if only == "" || selected(only, p.scenarioFor(i).Name) {
			earlier = append(earlier, i)
		}
	}
	deadline := time.Now().Add(150 * time.Second)
	rf.Choices = nil
	try := func(pre []int) (isoResult, bool) {
		left := time.Until(deadline)
		if left <= 0 {
			return isoResult{}, false
		}
		r := *rf
		r.Prelude = pre
		res, bad := execIsolated(self, &r, false, left, true)
		return res, bad && res.V.Class == rf.Class
	}
	var best isoResult
	for n := 1; ; n *= 2 {
		n = min(n, len(earlier))
		if res, ok := try(earlier[len(earlier)-n:]); ok {
			rf.Prelude, best = append([]int{}, earlier[len(earlier)-n:]...), res
			break
		}
		if n == len(earlier) || time.Now().After(deadline) {
			rf.Prelude = append([]int{}, earlier...)
			return best
		}
	}
	for sz := (len(rf.Prelude) + 1) / 2; sz > 0; sz /= 2 {
		for i := 0; i+sz <= len(rf.Prelude); {
			c := append(append([]int{}, rf.Prelude[:i]...), rf.Prelude[i+sz:]...)
			if res, ok := try(c); ok {
				rf.Prelude, best = c, res
			} else {
				i += sz
			}
		}
	}
	return best
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "simulator error: "+f+"\n", a...)
	os.Exit(2)
}

// ---- minimisation ----

func minimise(p *propDef, sc *scenarioDef, rf *replayFile, budget time.Duration, self string, isolated bool) {
	deadline := time.Now().Add(budget)
	cur := rf.Choices
	trial := func(c []uint64) bool {
		if time.Now().After(deadline) {
			return false
		}
		var v *violation
		var rec []uint64
		if isolated {
			r := *rf
			r.Choices = c
			res, bad := execIsolated(self, &r, true, 20*time.Second, false)
			if !bad {
				return false
			}
			v, rec = res.V, c
			if res.Rec != nil {
				rec = res.Rec
			}
		} else {
			s, vv, _ := execRun(p, sc, rf.Tier, rf.Index, rf.Seed, c, true, false)
			v, rec = vv, s.rec
		}
		if v == nil || v.Class != rf.Class {
			return false
		}
		// drop the trailing zeros: choices beyond the end read as zero
		n := len(rec)
		for n > 0 && rec[n-1] == 0 {
			n--
		}
		rec = rec[:n]
		if better(rec, cur) {
			cur = append([]uint64(nil), rec...)
			return true
		}
		return false
	}
	trial(cur)
	for {
		start := append([]uint64(nil), cur...)
		// truncate
		for n := len(cur) / 2; n > 0; n /= 2 {
			for len(cur) > n && trial(append([]uint64(nil), cur[:len(cur)-n]...)) {
			}
		}
		// delete chunks
		for sz := len(cur) / 2; sz > 0; sz = sz * 2 / 3 {
			for i := 0; i+sz <= len(cur) && time.Now().Before(deadline); {
				c := append([]uint64(nil), cur[:i]...)
				c = append(c, cur[i+sz:]...)
				if !trial(c) {
					i += (sz + 1) / 2
				}
			}
			if sz == 1 {
				break
			}
		}
		// zero chunks
		for sz := 8; sz > 0; sz /= 2 {
			for i := 0; i+sz <= len(cur) && time.Now().Before(deadline); i += sz {
				c := append([]uint64(nil), cur...)
				nz := false
				for j := i; j < i+sz; j++ {
					nz = nz || c[j] != 0
					c[j] = 0
				}
				if nz {
					trial(c)
				}
			}
		}
		// lower single values
		for i := 0; i < len(cur) && time.Now().Before(deadline); i++ {
			for k := 0; k < 40 && i < len(cur) && cur[i] > 0; k++ {
				c := append([]uint64(nil), cur...)
				c[i] /= 2
				if trial(c) {
					continue
				}
				c = append([]uint64(nil), cur...)
				c[i]--
				if !trial(c) {
					break
				}
			}
		}
		if equalU64(start, cur) || time.Now().After(deadline) {
			break
		}
	}
	if better(cur, rf.Choices) {
		rf.Minimised = true
	}
	rf.Choices = cur
}

func better(a, b []uint64) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

func equalU64(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// ---- known findings ----

type knownFinding struct {
	Status      string `json:"status"` // "known" or "fixed"
	Property    string `json:"property"`
	Class       string `json:"class"`
	Scenario    string `json:"scenario"`
	What        string `json:"what"`
	Commit      string `json:"commit"`
	Line        string `json:"line"`
	DetailMatch string `json:"detail_match"`
}

func loadKnown(dir string) []knownFinding {
	b, err := os.ReadFile(filepath.Join(dir, "known_findings.json"))
	if err != nil {
		return nil
	}
	var k []knownFinding
	if err := json.Unmarshal(b, &k); err != nil {
		fatal("known_findings.json: %v", err)
	}
	return k
}

func matchKnown(ks []knownFinding, prop, scen string, v *violation) *knownFinding {
	for i := range ks {
		k := &ks[i]
		if k.Status == "known" && k.Property == prop && k.Class == v.Class && (k.Scenario == "" || k.Scenario == scen) && strings.Contains(v.Detail, k.DetailMatch) {
			return k
		}
	}
	return nil
}

// ---- check driver ----

type workerState struct {
	cur     int
	curSc   string
	curAt   time.Time
	cmd     *exec.Cmd
	died    bool
	final   bool
	stderr  strings.Builder
	aborted bool
}

func checkMain(prop, tier, dir string, master uint64, nworkers, runsOverride int, budget time.Duration, only string, all bool) int {
	p := props[prop]
	if p == nil {
		fatal("unknown property %q", prop)
	}
	self, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}
	known := loadKnown(dir)
	runs := p.Quick
	if tier == "thorough" {
		runs = p.Thorough
		if runs == 0 {
			runs = p.Quick * 1000
		}
	}
	if runsOverride > 0 {
		runs = runsOverride
	}
	start := time.Now()
	deadline := start.Add(budget)
	watchdog := 90 * time.Second

	type hit struct {
		i  int
		sc string
		v  *violation
	}
	var mu sync.Mutex
	var hits []hit
	agg := runResult{Faults: map[string]int64{}, Probes: map[string]int64{}}
	distinct := map[uint64]struct{}{}
	states := map[uint64]struct{}{}
	perSc := map[string]int{}
	evals, aborted, nontrivial := 0, 0, 0
	var suspects []hit // index and scenario of runs that killed or hung a worker
	knownSeen := map[string]int{}
	stop := false

	var wg sync.WaitGroup
	for w := 0; w < nworkers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			ws := &workerState{}
			cmd := exec.Command(self, "worker", "-prop", prop, "-tier", tier, "-seed", strconv.FormatUint(master, 10),
				"-shard", strconv.Itoa(w), "-shards", strconv.Itoa(nworkers), "-runs", strconv.Itoa(runs),
				"-deadline", strconv.FormatInt(deadline.UnixNano(), 10), "-only", only)
			cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
			cmd.Stderr = &limitedWriter{b: &ws.stderr, n: 1 << 16}
			pipe, err := cmd.StdoutPipe()
			if err != nil {
				fatal("%v", err)
			}
			if err := cmd.Start(); err != nil {
				fatal("%v", err)
			}
			ws.cmd = cmd
			lines := make(chan runResult, 16)
			go func() {
				defer close(lines)
				dec := json.NewDecoder(bufio.NewReaderSize(pipe, 1<<16))
				for {
					var r runResult
					if err := dec.Decode(&r); err != nil {
						return
					}
					lines <- r
				}
			}()
			cur, curSc := -1, ""
			timer := time.NewTimer(watchdog)
			defer timer.Stop()
		loop:
			for {
				timer.Reset(watchdog)
				select {
				case r, ok := <-lines:
					if !ok {
						break loop
					}
					if r.Final {
						ws.final = true
						break loop
					}
					if r.Start {
						cur, curSc = r.I, r.Sc
						continue
					}
					cur = -1
					mu.Lock()
					evals++
					if r.Abort != "" {
						aborted++
					}
					if r.Ops > 1 {
						nontrivial++
						distinct[r.Sig] = struct{}{}
					}
					perSc[r.Sc]++
					agg.Ops += r.Ops
					agg.Checks += r.Checks
					agg.Now += r.Now
					agg.Steps += r.Steps
					for k, v := range r.Faults {
						agg.Faults[k] += v
					}
					for k, v := range r.Probes {
						agg.Probes[k] += v
					}
					if len(states) < 4_000_000 {
						for _, x := range r.States {
							states[x] = struct{}{}
						}
					}
					if r.V != nil {
						if k := matchKnown(known, prop, r.Sc, r.V); k != nil {
							knownSeen[k.Class+"|"+k.What]++
						} else {
							hits = append(hits, hit{r.I, r.Sc, r.V})
							if !all {
								stop = true
							}
						}
					}
					st := stop
					mu.Unlock()
					if st {
						break loop
					}
				case <-timer.C:
					mu.Lock()
					suspects = append(suspects, hit{cur, curSc, &violation{"hang", "worker made no progress"}})
					if !all {
						stop = true
					}
					mu.Unlock()
					ws.aborted = true
					break loop
				}
			}
			if !ws.final {
				cmd.Process.Kill()
			}
			go func() {
				for range lines {
				}
			}()
			werr := cmd.Wait()
			mu.Lock()
			defer mu.Unlock()
			if !ws.final && !ws.aborted && !stop && cur >= 0 {
				suspects = append(suspects, hit{cur, curSc, &violation{"process-death", ws.stderr.String()}})
				if !all {
					stop = true
				}
			} else if !ws.final && !ws.aborted && !stop {
				fatal("worker %d ended early: %v %s", w, werr, ws.stderr.String())
			}
		}(w)
	}
	wg.Wait()

	// confirm suspects in fresh processes
	confirmed := make([]*hit, len(suspects))
	var cwg sync.WaitGroup
	for i, h := range suspects {
		cwg.Add(1)
		go func() {
			defer cwg.Done()
			rf := &replayFile{Property: prop, Scenario: h.sc, Tier: tier, Index: h.i, MasterSeed: master, Seed: runSeed(master, prop, h.i)}
			if res, bad := execIsolated(self, rf, false, watchdog, false); bad {
				confirmed[i] = &hit{h.i, h.sc, res.V}
			}
		}()
	}
	cwg.Wait()
	for i, h := range confirmed {
		switch {
		case h == nil && suspects[i].v.Class == "hang":
			// the machine was slow, not the run
			fmt.Fprintf(os.Stderr, "run %d (%s) was slow: abandoned after %v, but it ends in a fresh process\n", suspects[i].i, suspects[i].sc, watchdog)
			aborted++
		case h == nil:
			fatal("run %d (%s) killed its worker but not a fresh process: %s", suspects[i].i, suspects[i].sc, suspects[i].v.Detail)
		default:
			if k := matchKnown(known, prop, h.sc, h.v); k != nil {
				knownSeen[k.Class+"|"+k.What]++
				continue
			}
			hits = append(hits, *h)
		}
	}
	sort.Slice(hits, func(a, b int) bool { return hits[a].i < hits[b].i })
	if all {
		cl := map[string]int{}
		ex := map[string]hit{}
		for _, h := range hits {
			k := h.sc + " " + h.v.Class
			cl[k]++
			if _, ok := ex[k]; !ok {
				ex[k] = h
			}
		}
		ks := make([]string, 0)
		for k := range cl {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			d := ex[k].v.Detail
			if len(d) > 900 {
				d = d[:900]
			}
			fmt.Printf("-- %d x %s (run %d)\n   %s\n", cl[k], k, ex[k].i, strings.ReplaceAll(d, "\n", "\n   "))
		}
	}
	searchWall := time.Since(start)

	rc := 0
	var sample []string
	if len(hits) > 0 && !all {
		h := hits[0]
		sc := p.scenarioNamed(h.sc)
		rf := &replayFile{Property: prop, Scenario: h.sc, Tier: tier, Index: h.i, MasterSeed: master, Seed: runSeed(master, prop, h.i), Class: h.v.Class, Detail: h.v.Detail}
		isolated := h.v.Class == "hang" || strings.HasPrefix(h.v.Class, "process-death") || strings.HasPrefix(h.v.Class, "out-of-memory") || strings.HasPrefix(h.v.Class, "stack-overflow")
		note := ""
		if !isolated {
			s, v, _ := execRun(p, sc, tier, h.i, rf.Seed, nil, false, false)
			if v == nil || v.Class != rf.Class {
				note = "first re-execution did not fail the same way"
			}
			rf.Choices = s.rec
			rf.OrigLen = len(s.rec)
			if note == "" {
				minimise(p, sc, rf, 60*time.Second, self, false)
			}
			// the replay file must reproduce in a fresh process
			same := func(r isoResult, bad bool) bool { return bad && r.V.Class == rf.Class }
			res, bad := execIsolated(self, rf, true, 120*time.Second, true)
			if !same(res, bad) {
				rf.Choices, rf.Minimised = s.rec, false
				if res, bad = execIsolated(self, rf, true, 120*time.Second, true); same(res, bad) {
					minimise(p, sc, rf, 60*time.Second, self, true)
					res, _ = execIsolated(self, rf, true, 120*time.Second, true)
					note = "minimised in fresh processes"
				} else {
					res = findPrelude(self, rf, nworkers, only, p)
					note = fmt.Sprintf("needs %d earlier runs in the same process", len(rf.Prelude))
				}
			}
			rf.Trace, rf.Faults = res.Trace, res.Flt
			if res.V != nil {
				rf.Detail = res.V.Detail
			}
		} else {
			rf.Choices = nil
		}
		if rf.Prelude != nil {
			rf.OrigLen = -1 // replayed from the seeds
		}
		rdir := filepath.Join(dir, "replays")
		os.MkdirAll(rdir, 0o755)
		path := filepath.Join(rdir, fmt.Sprintf("%s-%d-%d.json", prop, master, h.i))
		if isolated {
			// a run that kills its process is replayed from its seed
			rf.OrigLen = -1
		}
		b, _ := json.MarshalIndent(rf, "", " ")
		if err := os.WriteFile(path, b, 0o644); err != nil {
			fatal("%v", err)
		}
		fmt.Printf("violation class=%s scenario=%s run=%d seed=%d choices=%d (from %d) %s\n", rf.Class, rf.Scenario, rf.Index, rf.Seed, len(rf.Choices), rf.OrigLen, note)
		d := rf.Detail
		if len(d) > 2500 {
			d = d[:2500]
		}
		fmt.Println(d)
		if n := len(rf.Trace); n > 0 {
			lo := 0
			if n > 40 {
				lo = n - 40
			}
			fmt.Println("trace (end):")
			for _, l := range rf.Trace[lo:] {
				fmt.Println("  " + l)
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		rc = 1
	}
	// known findings must still be there to be announced; each is announced once
	for _, k := range known {
		if k.Status == "known" && k.Property == prop {
			if knownSeen[k.Class+"|"+k.What] > 0 {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
			}
		}
	}
	// a few executions written out
	if rc == 0 {
		for i := 0; i < runs && len(sample) < 3; i++ {
			sc := p.scenarioFor(i)
			if only != "" && sc.Name != only {
				continue
			}
			if only == "" && len(sample) < len(p.Scenarios) && len(sample) > 0 && strings.HasPrefix(sample[len(sample)-1], sc.Name+":") {
				continue
			}
			rf := &replayFile{Property: prop, Scenario: sc.Name, Tier: tier, Index: i, MasterSeed: master, Seed: runSeed(master, prop, i)}
			res, bad := execIsolated(self, rf, false, 120*time.Second, true)
			if bad {
				continue
			}
			t := res.Trace
			if len(t) > 14 {
				t = append(append([]string{}, t[:12]...), fmt.Sprintf("... %d more events", len(res.Trace)-12))
			}
			sample = append(sample, fmt.Sprintf("%s: seed=%d | %s", sc.Name, rf.Seed, strings.Join(t, " | ")))
		}
	}
	wall := time.Since(start).Seconds()
	hours := searchWall.Hours()
	if hours == 0 {
		hours = 1e-9
	}
	cov := map[string]any{
		"evaluations":                    evals,
		"distinct_nontrivial":            len(distinct),
		"rule":                           p.Rule + " A run is one seed; it is non-trivial when it performed at least two library operations, and distinct when its interleaving signature (rolling hash of scheduled steps, injected faults and reached states) is new.",
		"samples":                        sample,
		"seeds_per_hour":                 int(float64(evals) / hours),
		"simulated_seconds":              float64(agg.Now) / 1e6,
		"library_operations":             agg.Ops,
		"oracle_evaluations":             agg.Checks,
		"scheduler_choices":              agg.Steps,
		"faults_injected":                agg.Faults,
		"probes_hit":                     agg.Probes,
		"distinct_abstract_states":       len(states),
		"runs_per_scenario":              perSc,
		"runs_nontrivial":                nontrivial,
		"runs_abandoned":                 aborted,
		"runs_planned":                   runs,
		"search_wall_s":                  searchWall.Seconds(),
		"workers":                        nworkers,
		"real_components":                p.Real,
		"stub_components":                p.Stub,
		"known_findings_seen":            knownSeen,
		"exhaustive":                     false,
		"violations_before_minimisation": len(hits),
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": master, "level": "exploration", "coverage": cov,
		"assumptions": []string{
			"Go toolchain and its standard library behave as documented; math/rand, math/rand/v2 and crypto/rand are replaced by the simulator's generator through a build overlay of the standard library",
			"the library uses no goroutines, clocks or files of its own, so caller scheduling, callbacks, readers/writers, crashes and randomness are the only nondeterminism",
			"the simulator's reference models and tolerances (DESIGN.md) are right",
		},
		"wall_s": wall, "violations": len(hits),
	}
	if only == "" && !all {
		os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(dir, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
			fatal("%v", err)
		}
	}
	fmt.Printf("%s %s: %d runs (%d planned), %d distinct, %d library ops, %d oracle checks, %d states, %.1fs\n", prop, tier, evals, runs, len(distinct), agg.Ops, agg.Checks, len(states), wall)
	if all {
		fmt.Println("probes:", agg.Probes)
		fmt.Println("faults:", agg.Faults)
	}
	if rc == 0 && evals == 0 {
		fatal("nothing was run")
	}
	return rc
}

func replayMain(file string) int {
	self, _ := os.Executable()
	b, err := os.ReadFile(file)
	if err != nil {
		fatal("%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fatal("%v", err)
	}
	reexec(rf.Property)
	res, bad := execIsolated(self, &rf, rf.OrigLen >= 0, 120*time.Second, true)
	if !bad {
		fmt.Println("the run did not fail")
		return 0
	}
	for _, l := range res.Trace {
		fmt.Println("  " + l)
	}
	fmt.Printf("class=%s\n%s\n", res.V.Class, res.V.Detail)
	if res.V.Class != rf.Class {
		fmt.Printf("note: recorded class was %s\n", rf.Class)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, file)
	return 1
}

func main() {
	installSeams()
	registerX()
	if len(os.Args) < 2 {
		fatal("usage: sim check|worker|exec|replay|list|selftest ...")
	}
	fs := flag.NewFlagSet("sim", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	shard := fs.Int("shard", 0, "")
	shards := fs.Int("shards", 1, "")
	runs := fs.Int("runs", 0, "")
	dl := fs.Int64("deadline", 0, "")
	dir := fs.String("dir", "/verif", "")
	workers := fs.Int("workers", 8, "")
	budget := fs.Int("budget", 300, "")
	file := fs.String("file", "", "")
	choices := fs.Bool("choices", false, "")
	trace := fs.Bool("trace", false, "")
	only := fs.String("only", "", "")
	all := fs.Bool("all", false, "")
	idx := fs.Int("index", 0, "")
	_ = fs.Parse(os.Args[2:])
	switch os.Args[1] {
	case "check", "show", "digest":
		reexec(*prop)
	}
	switch os.Args[1] {
	case "list":
		var ids []string
		for k := range props {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		for _, k := range ids {
			for _, sc := range props[k].Scenarios {
				fmt.Println(k, sc.Name, sc.Weight)
			}
		}
	case "worker":
		workerMain(props[*prop], *tier, *seed, *shard, *shards, *runs, time.Unix(0, *dl), *only)
	case "exec":
		execMain(*file, *choices, *trace)
	case "replay":
		os.Exit(replayMain(*file))
	case "show":
		p := props[*prop]
		setLimits()
		sc := p.scenarioFor(*idx)
		s, v, ab := execRun(p, sc, *tier, *idx, runSeed(*seed, p.ID, *idx), nil, false, true)
		fmt.Println(strings.Join(s.trace, "\n"))
		fmt.Println(sc.Name, "violation:", v, "abort:", ab, "sig", s.sig, "faults", s.faults, "probes", s.probes)
	case "digest":
		// event-log digest of a range of runs, for the determinism self-test
		p := props[*prop]
		setLimits()
		h := uint64(1)
		for i := *shard; i < *runs; i += *shards {
			sc := p.scenarioFor(i)
			s, v, ab := execRun(p, sc, *tier, i, runSeed(*seed, p.ID, i), nil, false, true)
			x := mixAll(s.sig, uint64(len(s.rec)), uint64(s.ops), uint64(s.checks), lib.draws, hashString(ab))
			for _, l := range s.trace {
				x = mix64(x ^ hashString(l))
			}
			if v != nil {
				x ^= hashString(v.Class)
			}
			fmt.Printf("%d %s %016x\n", i, sc.Name, x)
			h = mix64(h ^ x)
		}
	case "check":
		os.Exit(checkMain(*prop, *tier, *dir, *seed, *workers, *runs, time.Duration(*budget)*time.Second, *only, *all))
	default:
		fatal("unknown command %s", os.Args[1])
	}
}
