package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"simrt"
)

//go:generate true

func loadSites() {
	exe, err := os.Executable()
	if err != nil {
		return
	}
	b, err := os.ReadFile(filepath.Join(filepath.Dir(exe), "sites.json"))
	if err == nil {
		json.Unmarshal(b, &simrt.Sites)
	}
	b, err = os.ReadFile(filepath.Join(filepath.Dir(exe), "sites.json.stmts"))
	if err == nil {
		json.Unmarshal(b, &stmtSites)
	}
	simrt.Reached = make([]bool, len(simrt.Sites))
}

// stmtSites are the sites of the statements of the code under test.
var stmtSites []int

func main() {
	debug.SetMaxStack(192 << 20)
	loadSites()
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: simbin run|work|one|replay|selfcheck")
		os.Exit(2)
	}
	cmd := os.Args[1]
	os.Args = os.Args[1:]
	switch cmd {
	case "run":
		os.Exit(cmdRun())
	case "work":
		cmdWork()
	case "one":
		cmdOne()
	case "replay":
		os.Exit(cmdReplay())
	case "exec":
		// run a plan file in this process, for crashes of the process
		p := readPlan(os.Args[1])
		v, _ := execute(p, newStats())
		if v != nil {
			fmt.Println(v.Class)
			fmt.Println(v.Msg)
			os.Exit(1)
		}
	case "selfcheck":
		os.Exit(cmdSelfcheck())
	default:
		os.Exit(2)
	}
}

func readPlan(file string) *Plan {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	p := &Plan{}
	if err := json.Unmarshal(b, p); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	return p
}

// --- known findings ---

type Finding struct {
	Property string `json:"property"`
	Name     string `json:"name"`
	Status   string `json:"status"` // known or fixed
	What     string `json:"what"`
}

func findings(file string) (out []Finding) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	for _, l := range bytes.Split(b, []byte("\n")) {
		var f Finding
		if len(bytes.TrimSpace(l)) > 0 && json.Unmarshal(l, &f) == nil && f.Status == "known" {
			out = append(out, f)
		}
	}
	return
}

// --- worker ---

type report struct {
	Start  *int     `json:"start,omitempty"`
	Plan   *Plan    `json:"plan,omitempty"`
	Stats  *Stats   `json:"stats,omitempty"`
	Hashes []uint64 `json:"hashes,omitempty"`
	Traces []uint64 `json:"traces,omitempty"`
	Sample *Plan    `json:"sample,omitempty"`
	Log    []string `json:"log,omitempty"`
	Differ int      `json:"differ,omitempty"`
	Twice  int      `json:"twice,omitempty"`
	Sites  []int    `json:"sites,omitempty"` // statements reached
}

func seedOf(base uint64, i int) uint64 { return base*1_000_003 + uint64(i) }

func cmdWork() {
	prop := flag.String("prop", "", "")
	base := flag.Uint64("seed", 1, "")
	k := flag.Int("k", 0, "")
	n := flag.Int("n", 1, "")
	runs := flag.Int("runs", 100, "")
	from := flag.Int("from", 0, "")
	capS := flag.Float64("cap", 60, "")
	shrinkS := flag.Float64("shrink", 40, "")
	flag.Parse()
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	send := func(r report) { enc.Encode(r); out.Flush() }
	st := newStats()
	hashes, traces := map[uint64]bool{}, map[uint64]bool{}
	begin := time.Now()
	var final report
	for i := *from + *k; i < *runs; i += *n {
		if time.Since(begin).Seconds() > *capS {
			break
		}
		i := i
		send(report{Start: &i})
		p := generate(*prop, seedOf(*base, i))
		st.Runs++
		ops := st.Ops - st.Skipped
		v, s := execute(p, st)
		if v != nil {
			q := minimise(p, v, time.Duration(*shrinkS*float64(time.Second)))
			send(report{Plan: q})
			break
		}
		if st.Ops-st.Skipped-ops >= 3 {
			hashes[s.logHash()^s.w.Trace] = true
		}
		if s.w.Switches > 0 {
			traces[s.w.Trace] = true
		}
		if i < 40 {
			// the same seed twice must be the same execution
			final.Twice++
			_, s2 := execute(generate(*prop, seedOf(*base, i)), newStats())
			if s2.logHash() != s.logHash() || s2.w.Trace != s.w.Trace {
				final.Differ++
			}
		}
		if final.Sample == nil && p.ops() > 4 && p.ops() < 30 {
			final.Sample = p
			for _, ph := range p.Phases {
				for _, op := range ph.Ops {
					final.Log = append(final.Log, fmt.Sprintf("%s -> %s", clip(op.String(), 160), clip(s.log[op.ID], 80)))
				}
			}
		}
	}
	final.Stats = st
	for h := range hashes {
		final.Hashes = append(final.Hashes, h)
	}
	for h := range traces {
		final.Traces = append(final.Traces, h)
	}
	for i, hit := range simrt.Reached {
		if hit {
			final.Sites = append(final.Sites, i)
		}
	}
	send(final)
}

// minimise turns a failing plan into its replay form and shrinks it.
func minimise(p *Plan, v *Violation, limit time.Duration) *Plan {
	q := p.clone()
	q.Class = v.Class
	fails := sameFailure(v.Class)
	r := q.clone()
	r.Replay = true
	if fails(r) {
		q = r
	}
	q = shrink(q, fails, limit)
	v2, s := execute(q.clone(), newStats())
	if v2 == nil {
		// not repeatable in this process; keep the whole run
		q = p.clone()
		v2 = v
		q.Class, q.Msg = v.Class, v.Msg
		return q
	}
	q.Class, q.Msg = v2.Class, v2.Msg
	q.Trace = fmt.Sprintf("%016x", s.logHash()^s.w.Trace)
	return q
}

func cmdOne() {
	prop := flag.String("prop", "", "")
	seed := flag.Uint64("s", 1, "the run's own seed")
	show := flag.Bool("v", false, "")
	plan := flag.String("plan", "", "write the plan here and stop")
	flag.Parse()
	p := generate(*prop, *seed)
	if *plan != "" {
		os.WriteFile(*plan, p.json(), 0o644)
		return
	}
	st := newStats()
	v, s := execute(p, st)
	if *show {
		for _, ph := range p.Phases {
			fmt.Printf("phase turn=%v preempt=%v track=%v restart=%v\n", ph.Turn, ph.Preempt, ph.Track, ph.Restart)
			for _, op := range ph.Ops {
				fmt.Printf("%s\n   -> %s\n", clip(op.String(), 600), clip(s.log[op.ID], 400))
			}
		}
		fmt.Printf("%+v\n", *st)
	}
	if v != nil {
		fmt.Println("FAIL", v.Class, v.Msg)
		os.Exit(1)
	}
}

// cmdReplay executes a replay file in a fresh process.
func cmdReplay() int {
	p := readPlan(os.Args[1])
	exe, _ := os.Executable()
	c := exec.Command(exe, "exec", os.Args[1])
	out, err := outputWithin(c, 120*time.Second)
	if err == nil {
		fmt.Println("the replay file does not fail on this tree")
		return 0
	}
	lines := strings.SplitN(string(out), "\n", 2)
	got := lines[0]
	msg := ""
	if len(lines) > 1 {
		msg = strings.TrimSpace(lines[1])
	}
	if x, is := err.(*exec.ExitError); !is || x.ExitCode() != 1 {
		got, msg = "fatal", fatalText(out, err)
	}
	fmt.Printf("property %s: %s: %s\n", p.Prop, got, msg)
	if got != p.Class {
		fmt.Printf("(the file recorded %s: %s)\n", p.Class, p.Msg)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.Prop, os.Args[1])
	return 1
}

func fatalText(out []byte, err error) string {
	for _, l := range strings.Split(string(out), "\n") {
		if strings.HasPrefix(l, "fatal error") || strings.HasPrefix(l, "runtime:") || strings.HasPrefix(l, "panic:") {
			return l
		}
	}
	return fmt.Sprint(err)
}

func outputWithin(c *exec.Cmd, d time.Duration) ([]byte, error) {
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	if err := c.Start(); err != nil {
		return nil, err
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	select {
	case err := <-done:
		return b.Bytes(), err
	case <-time.After(d):
		c.Process.Kill()
		<-done
		return b.Bytes(), fmt.Errorf("the run never ends")
	}
}

// --- the check ---

type size struct {
	runs int
	cap  float64
}

func cmdRun() int {
	prop := flag.String("prop", "", "")
	tier := flag.String("tier", "quick", "")
	base := flag.Uint64("seed", 1, "")
	evidence := flag.String("evidence", "", "")
	replays := flag.String("replays", "", "")
	knownFile := flag.String("known", "", "")
	runs := flag.Int("runs", 0, "")
	capS := flag.Float64("cap", 0, "")
	workers := flag.Int("workers", 8, "")
	flag.Parse()
	if generators[*prop] == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		return 2
	}
	sz := quickSize[*prop]
	if *tier == "thorough" {
		sz = size{sz.runs * 40, 780}
	}
	if *runs > 0 {
		sz.runs = *runs
	}
	if *capS > 0 {
		sz.cap = *capS
	}
	begin := time.Now()
	exe, _ := os.Executable()
	total := newStats()
	hashes, traces, reached := map[uint64]bool{}, map[uint64]bool{}, map[int]bool{}
	var mu sync.Mutex
	var failing *Plan
	var samples []interface{}
	differ, twice := 0, 0
	trouble := ""
	stop := make(chan struct{})
	stopOnce := sync.Once{}
	halt := func() { stopOnce.Do(func() { close(stop) }) }
	var wg sync.WaitGroup
	for k := 0; k < *workers; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			c := exec.Command(exe, "work", "-prop", *prop, "-seed", fmt.Sprint(*base), "-k", fmt.Sprint(k), "-n", fmt.Sprint(*workers), "-runs", fmt.Sprint(sz.runs), "-cap", fmt.Sprint(sz.cap))
			c.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=2500MiB")
			var stderr bytes.Buffer
			c.Stderr = &stderr
			pipe, err := c.StdoutPipe()
			if err == nil {
				err = c.Start()
			}
			if err != nil {
				mu.Lock()
				trouble = err.Error()
				mu.Unlock()
				return
			}
			reports := make(chan report)
			go func() {
				dec := json.NewDecoder(bufio.NewReader(pipe))
				for {
					var r report
					if dec.Decode(&r) != nil {
						break
					}
					reports <- r
				}
				close(reports)
			}()
			last, done, stuck := -1, false, false
			timer := time.NewTimer(150 * time.Second)
		loop:
			for {
				select {
				case r, ok := <-reports:
					if !ok {
						break loop
					}
					timer.Reset(150 * time.Second)
					if r.Start != nil {
						last = *r.Start
					}
					mu.Lock()
					if r.Plan != nil {
						if failing == nil {
							failing = r.Plan
						}
						halt()
					}
					if r.Stats != nil {
						done = true
						total.merge(r.Stats)
						for _, h := range r.Hashes {
							hashes[h] = true
						}
						for _, h := range r.Traces {
							traces[h] = true
						}
						for _, i := range r.Sites {
							reached[i] = true
						}
						differ += r.Differ
						twice += r.Twice
						if r.Sample != nil && len(samples) < 2 {
							samples = append(samples, map[string]interface{}{"seed": r.Sample.Seed, "operations": r.Log, "switches": len(r.Sample.Switches)})
						}
					}
					mu.Unlock()
				case <-timer.C:
					stuck = true
					c.Process.Kill()
				case <-stop:
					c.Process.Kill()
					go func() {
						for range reports {
						}
					}()
					c.Wait()
					return
				}
			}
			err = c.Wait()
			if done && err == nil {
				return
			}
			// the worker itself died: is the run it was in to blame?
			if last < 0 {
				mu.Lock()
				trouble = "worker failed to start: " + clip(stderr.String(), 500)
				mu.Unlock()
				return
			}
			p := generate(*prop, seedOf(*base, last))
			if text := fatalText(stderr.Bytes(), err); strings.HasPrefix(text, "panic:") {
				// code under test only ever runs inside tasks, which recover
				mu.Lock()
				trouble = fmt.Sprintf("the harness failed in seed %d: %s %s", p.Seed, text, clip(stderr.String(), 800))
				mu.Unlock()
				return
			}
			if diesAlone(exe, p) {
				p.Class, p.Msg = "fatal", fatalText(stderr.Bytes(), err)
				if stuck {
					p.Msg = "a run never ends"
				}
				deadline := time.Now().Add(60 * time.Second)
				q := shrink(p, func(c *Plan) bool { return time.Now().Before(deadline) && diesAlone(exe, c) }, 60*time.Second)
				mu.Lock()
				if failing == nil {
					failing = q
				}
				mu.Unlock()
				halt()
				return
			}
			mu.Lock()
			trouble = fmt.Sprintf("worker %d died in run %d: %v %s", k, last, err, clip(stderr.String(), 800))
			mu.Unlock()
		}(k)
	}
	wg.Wait()
	wall := time.Since(begin).Seconds()
	known := map[string]bool{}
	var listed []Finding
	for _, f := range findings(*knownFile) {
		known[f.Name] = true
		if f.Property == *prop {
			listed = append(listed, f)
		}
	}
	code := 0
	violations := 0
	// a mismatch explained by a finding that is not listed is a violation
	if failing == nil {
		for name := range total.Known {
			if !known[name] {
				trouble = "finding " + name + " is not listed"
			}
		}
	}
	if failing != nil {
		violations = 1
		code = 1
		os.MkdirAll(*replays, 0o755)
		path := filepath.Join(*replays, fmt.Sprintf("%s-%d.json", *prop, failing.Seed))
		os.WriteFile(path, failing.json(), 0o644)
		c := exec.Command(exe, "replay", path)
		out, err := outputWithin(c, 150*time.Second)
		if err == nil {
			fmt.Printf("the failure of seed %d did not repeat in a fresh process: %s: %s\n", failing.Seed, failing.Class, failing.Msg)
			code = 2
		} else {
			fmt.Print(string(out))
			fmt.Printf("replay with: %s replay %s\n", filepath.Join(os.Getenv("SIM_HOME"), "check.sh"), path)
		}
	}
	if code == 0 && trouble != "" {
		fmt.Fprintln(os.Stderr, "TROUBLE:", trouble)
		code = 2
	}
	for _, f := range listed {
		fmt.Printf("KNOWN-FINDING: property=%s %s (met %d times in this run)\n", f.Property, f.What, total.Known[f.Name])
	}
	writeEvidence(*evidence, *prop, *tier, *base, total, hashes, traces, reached, samples, wall, violations, differ, twice, *workers)
	if code == 0 {
		fmt.Printf("%s held: %d runs, %d operations, %d steps, %d switches, %d distinct runs, %d distinct interleavings in %.1f s\n", *prop, total.Runs, total.Ops, total.Steps, total.Switches, len(hashes), len(traces), wall)
	}
	return code
}

// diesAlone tells whether a plan kills the process that runs it.
func diesAlone(exe string, p *Plan) bool {
	f, err := os.CreateTemp("", "simplan*.json")
	if err != nil {
		return false
	}
	defer os.Remove(f.Name())
	f.Write(p.json())
	f.Close()
	c := exec.Command(exe, "exec", f.Name())
	c.Env = append(os.Environ(), "GOMEMLIMIT=2500MiB")
	_, err = outputWithin(c, 60*time.Second)
	if err == nil {
		return false
	}
	x, is := err.(*exec.ExitError)
	return !is || x.ExitCode() != 1
}

func (s *Stats) merge(o *Stats) {
	s.Runs += o.Runs
	s.Ops += o.Ops
	s.Skipped += o.Skipped
	s.Steps += o.Steps
	s.Switches += o.Switches
	s.SoloRuns += o.SoloRuns
	s.SimTime += o.SimTime
	s.MapRanges += o.MapRanges
	s.ClockReads += o.ClockReads
	s.MaxOpSteps = max(s.MaxOpSteps, o.MaxOpSteps)
	s.Widest, s.Deepest, s.Longest = max(s.Widest, o.Widest), max(s.Deepest, o.Deepest), max(s.Longest, o.Longest)
	for _, x := range []struct{ a, b map[string]int64 }{{s.OpKinds, o.OpKinds}, {s.Faults, o.Faults}, {s.Known, o.Known}, {s.Probes, o.Probes}} {
		for k, n := range x.b {
			x.a[k] += n
		}
	}
}

func writeEvidence(file, prop, tier string, seed uint64, st *Stats, hashes, traces map[uint64]bool, reached map[int]bool, samples []interface{}, wall float64, violations, differ, twice, workers int) {
	if file == "" {
		return
	}
	if samples == nil {
		samples = []interface{}{}
	}
	var files []string
	seen := map[string]bool{}
	for _, s := range simrt.Sites {
		f := strings.SplitN(s, ":", 2)[0]
		if !seen[f] {
			seen[f] = true
			files = append(files, f)
		}
	}
	sort.Strings(files)
	var missed []string
	for _, i := range stmtSites {
		if !reached[i] {
			missed = append(missed, simrt.Sites[i])
		}
	}
	if f := os.Getenv("SIM_MISSED"); f != "" {
		os.WriteFile(f, []byte(strings.Join(missed, "\n")+"\n"), 0o644)
	}
	e := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": wall, "violations": violations,
		"coverage": map[string]interface{}{
			"evaluations":                 st.Runs,
			"distinct_nontrivial":         len(hashes),
			"rule":                        "one evaluation is one simulated run, generated from its own seed (callers, documents, operations, faults) and executed under its own schedule; it counts as non-trivial when at least three of its operations took effect, and as distinct by the hash of everything its callers observed together with its schedule",
			"samples":                     samples,
			"distinct_interleavings":      len(traces),
			"interleaving_measure":        "hash of the sequence of (caller, operation, step, next caller) at every task switch, among runs with at least one switch inside an operation",
			"runs_per_hour":               int64(float64(st.Runs) / wall * 3600),
			"seeds_per_hour":              int64(float64(st.Runs) / wall * 3600),
			"solo_reference_runs":         st.SoloRuns,
			"operations":                  st.Ops,
			"operations_skipped":          st.Skipped,
			"operation_kinds":             st.OpKinds,
			"simulated_steps":             st.Steps,
			"statement_level_switches":    st.Switches,
			"simulated_time_s":            st.SimTime.Seconds(),
			"clock_reads_simulated":       st.ClockReads,
			"hash_order_decisions":        st.MapRanges,
			"faults_injected":             st.Faults,
			"rare_conditions_hit":         st.Probes,
			"longest_operation_steps":     st.MaxOpSteps,
			"most_entries":                st.Widest,
			"most_levels":                 st.Deepest,
			"longest_string":              st.Longest,
			"known_findings_met":          st.Known,
			"determinism_pairs_run":       twice,
			"determinism_pairs_different": differ,
			"workers":                     workers,
			"instrumented_sites":          len(simrt.Sites),
			"library_statements":          len(stmtSites),
			"library_statements_executed": len(stmtSites) - len(missed),
			"real_components":             append([]string{"the library's own code, instrumented from the current tree:"}, files...),
			"stub_components":             []string{"time.Now, map iteration order, math/rand, sync and goroutines of the library and of holistic_common: simulator", "storage: simulated files", "holistic_common.IsNil and GetType: same answers computed without formatting the object (compared with the originals in setup)"},
		},
		"assumptions": []string{"one simulated step is one statement or one shared memory access; accesses are sequentially consistent, and unordered conflicting accesses are reported as violations where the property forbids sharing", "seeded search: a clean batch is evidence, not proof"},
	}
	b, err := json.MarshalIndent(e, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return
	}
	os.MkdirAll(filepath.Dir(file), 0o755)
	os.WriteFile(file, append(b, '\n'), 0o644)
}

// sized for about a minute on eight cores
var quickSize = map[string]size{
	"C01": {18000, 150},
	"C02": {48000, 150},
	"C03": {72000, 150},
	"C04": {60000, 150},
	"C05": {84000, 150},
	"C06": {48000, 150},
	"C07": {120000, 150},
	"C08": {72000, 150},
	"C09": {45000, 150},
	"C10": {78000, 150},
	"C11": {120000, 150},
	"C12": {114000, 150},
	"C13": {60000, 150},
	"C14": {120000, 150},
	"C15": {42000, 150},
	"C16": {24000, 150},
	"C17": {30000, 150},
	"C18": {90000, 150},
	"C19": {90000, 150},
	"C20": {90000, 150},
}
