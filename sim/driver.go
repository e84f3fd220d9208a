package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ------------------------------------------------------------ known findings

type knownFinding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // known or fixed
	Class    string `json:"class"`
	Match    string `json:"match"` // regexp on the message
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
	re       *regexp.Regexp
}

var known []knownFinding

var verifDir = "/verif"

func loadKnown(dir string) {
	verifDir = dir
	b, err := os.ReadFile(filepath.Join(dir, "known_findings.json"))
	if err != nil {
		fatalf("%v", err)
	}
	if err := json.Unmarshal(b, &known); err != nil {
		fatalf("known_findings.json: %v", err)
	}
	for i := range known {
		known[i].re = regexp.MustCompile(known[i].Match)
	}
}

// isKnown reports whether a violation is a listed, unrepaired finding. A
// repaired ("fixed") entry suppresses nothing.
func isKnown(prop string, v *Violation) bool {
	for _, k := range known {
		if k.Status == "known" && k.Property == prop && k.Class == v.Class && k.re.MatchString(v.Msg) {
			return true
		}
	}
	return false
}

// ------------------------------------------------------------ sub-processes

const watchdog = 120 * time.Second

type procOut struct {
	results []RunResult
	started int // last run announced; below -1: a fixed case, -1: a prelude
	clean   bool
	hung    bool
	stderr  string
	code    int
}

func spawn(args []string, stdin []byte, stop *atomic.Bool) procOut {
	cmd := exec.Command(os.Args[0], args...)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 history_size=5", "GOTRACEBACK=all", "GOMAXPROCS=1")
	if stdin != nil {
		cmd.Stdin = bytes.NewReader(stdin)
	}
	var errb bytes.Buffer
	cmd.Stderr = &errb
	so, err := cmd.StdoutPipe()
	if err != nil {
		fatalf("%v", err)
	}
	if err := cmd.Start(); err != nil {
		fatalf("%v", err)
	}
	out := procOut{started: -1}
	timer := time.AfterFunc(watchdog, func() { out.hung = true; cmd.Process.Kill() })
	rd := bufio.NewReaderSize(so, 1<<20)
	for {
		line, err := rd.ReadBytes('\n')
		timer.Reset(watchdog)
		if len(line) > 2 {
			switch line[0] {
			case 'S':
				fmt.Sscanf(string(line[2:]), "%d", &out.started)
			case 'R':
				var r RunResult
				if json.Unmarshal(line[2:], &r) == nil {
					out.results = append(out.results, r)
				}
			}
		}
		if err != nil {
			break
		}
		if stop != nil && stop.Load() {
			cmd.Process.Kill()
		}
	}
	err = cmd.Wait()
	timer.Stop()
	out.clean = err == nil
	out.code = cmd.ProcessState.ExitCode()
	out.stderr = errb.String()
	return out
}

var reHex = regexp.MustCompile(`0x[0-9a-f]+|goroutine \d+|\+0x[0-9a-f]+`)

// classifyCrash turns the death of a simulator process into a violation, or
// nil when the death is not attributable to the code under test.
func classifyCrash(o procOut) *Violation {
	s := o.stderr
	repoFrame := func(txt string) bool {
		for _, l := range strings.Split(txt, "\n") {
			if strings.Contains(l, "/repo/") && strings.Contains(l, ".go:") && !strings.Contains(l, "verifsim") {
				return true
			}
		}
		return false
	}
	short := func(txt string, n int) string {
		var keep []string
		for _, l := range strings.Split(txt, "\n") {
			if strings.TrimSpace(l) == "" {
				continue
			}
			keep = append(keep, reHex.ReplaceAllString(strings.TrimSpace(l), ""))
			if len(keep) >= n {
				break
			}
		}
		return strings.Join(keep, "\n")
	}
	if i := strings.Index(s, "WARNING: DATA RACE"); i >= 0 {
		rep := s[i:]
		if j := strings.Index(rep, "\n=================="); j > 0 {
			rep = rep[:j]
		}
		if repoFrame(rep) {
			return &Violation{"datarace", short(rep, 24)}
		}
		return nil
	}
	for _, m := range []struct{ pat, class string }{{"fatal error: ", "fatal"}, {"panic: ", "panic"}} {
		i := strings.Index(s, m.pat)
		if i >= 0 && (i == 0 || s[i-1] == '\n') {
			rep := s[i:]
			first := rep
			if j := strings.Index(rep, "\n\ngoroutine "); j >= 0 {
				if k := strings.Index(rep[j+2:], "\n\n"); k >= 0 {
					first = rep[:j+2+k]
				}
			}
			if repoFrame(first) {
				return &Violation{m.class, short(first, 24)}
			}
		}
	}
	return nil
}

// runOne executes a request in a fresh process.
func runOne(rq request) (RunResult, error) {
	b := append(mustJSON(rq), '\n')
	o := spawn([]string{"one", "-verif", verifDir}, b, nil)
	if o.hung {
		return RunResult{}, fmt.Errorf("simulator made no progress for %v of real time", watchdog)
	}
	if len(o.results) > 0 && o.started >= 0 {
		return o.results[len(o.results)-1], nil
	}
	if v := classifyCrash(o); v != nil {
		return RunResult{Viol: v}, nil
	}
	return RunResult{}, fmt.Errorf("simulator died (exit %d): %s", o.code, tail(o.stderr, 3000))
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

// ------------------------------------------------------------ replay files

type replayFile struct {
	request
	Class   string   `json:"class"`
	Msg     string   `json:"msg"`
	Digest  uint64   `json:"digest"`
	Trace   uint64   `json:"trace"`
	History []string `json:"history"`
	Origin  string   `json:"origin"`
	Shrunk  string   `json:"shrunk"`
}

func sameViol(a, b *Violation) bool { return a != nil && b != nil && a.Class == b.Class }

func cmdReplay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fatalf("%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fatalf("%v", err)
	}
	r, err := runOne(rf.request)
	if err != nil {
		fatalf("%v", err)
	}
	for _, h := range r.Hist {
		fmt.Println(h)
	}
	if r.Viol == nil {
		fmt.Printf("replay %s: no violation on this tree\n", path)
		return 0
	}
	fmt.Printf("class: %s\n%s\n", r.Viol.Class, r.Viol.Msg)
	if r.Viol.Class == rf.Class && r.Digest == rf.Digest {
		fmt.Println("reproduced exactly (same class, same event log)")
	} else {
		fmt.Printf("reproduced with differences (recorded class %s)\n", rf.Class)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Prop, path)
	return 1
}

// ------------------------------------------------------------ self-test

// cmdSelftest runs n seeds twice, in different processes with different
// neighbours, and compares event-log digests and dispatch traces.
func cmdSelftest(p *Prop, tier string, seed uint64, n int) int {
	if n == 0 {
		n = 200
	}
	type key struct{ d, t, s uint64 }
	sig := func(r RunResult) key { return key{r.Digest, r.Trace, r.Steps} }
	a := map[int]key{}
	o := spawn([]string{"block", "-prop", p.ID, "-tier", tier, "-seed", fmt.Sprint(seed), "-from", "0", "-to", fmt.Sprint(n)}, nil, nil)
	for _, r := range o.results {
		a[r.I] = sig(r)
	}
	if len(a) == 0 {
		fatalf("selftest: no results: %s", tail(o.stderr, 2000))
	}
	var mu sync.Mutex
	bad := 0
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for i := 0; i < n; i++ {
		if _, ok := a[i]; !ok {
			continue
		}
		wg.Add(1)
		sem <- struct{}{}
		go func(i int) {
			defer func() { <-sem; wg.Done() }()
			s := runSeed(seed, p.ID, i)
			r, err := runOne(request{Prop: p.ID, Seed: s, Case: genCase(p, tier, s), Sched: genSched(s, p.Serial)})
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				fmt.Println("run", i, err)
				bad++
			} else if sig(r) != a[i] {
				fmt.Printf("run %d diverged: %v vs %v\n", i, sig(r), a[i])
				bad++
			}
		}(i)
	}
	wg.Wait()
	fmt.Printf("selftest %s: %d runs compared, %d diverged\n", p.ID, len(a), bad)
	if bad > 0 {
		return 3
	}
	return 0
}

// ------------------------------------------------------------ the check

const blockSize = 64

func cmdCheck(p *Prop, tier string, seed uint64, n int, wall time.Duration, dir string, workers int) int {
	t0 := time.Now()
	if n == 0 {
		n = p.Runs
		if tier == "thorough" {
			n *= 25
		}
	}
	if wall == 0 {
		wall = 200 * time.Second
		if tier == "thorough" {
			wall = 780 * time.Second
		}
	}
	if workers == 0 {
		workers = runtime.NumCPU()
	}
	type cand struct {
		i     int
		viol  *Violation
		block int
	}
	type sig struct {
		i    int
		d, t uint64
	}
	var (
		mu       sync.Mutex
		cands    []cand
		sample   []sig // for the determinism re-runs
		stop     atomic.Bool
		errs     []string
		next     atomic.Int64
		wg       sync.WaitGroup
		evals    int
		faults   = map[string]int{}
		probes   = map[string]int{}
		traces   = map[uint64]struct{}{}
		distinct = map[uint64]struct{}{}
		simNS    int64
		steps    uint64
		sw, pre  uint64
		ops      int
		leaks    int
		crashes  int
	)
	every := max(1, n/28)
	account := func(r RunResult) {
		evals++
		for k, v := range r.Faults {
			faults[k] += v
		}
		for k, v := range r.Probes {
			probes[k] += v
		}
		traces[r.Trace] = struct{}{}
		simNS += r.SimNS
		steps += r.Steps
		sw += r.Switch
		pre += r.Preempt
		ops += r.Ops
		if r.Leak {
			leaks++
		}
		if r.Ops > 0 && (r.Preempt > 0 || len(r.Faults) > 0 || (p.Serial && r.Ops > 1)) {
			distinct[r.Digest^mix(r.Trace)] = struct{}{}
		}
		if r.I%every == every/2 && r.Viol == nil {
			sample = append(sample, sig{r.I, r.Digest, r.Trace})
		}
	}
	deadline := t0.Add(wall)
	blocks := (n + blockSize - 1) / blockSize
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				b := int(next.Add(1)) - 1
				if b >= blocks || stop.Load() || time.Now().After(deadline) {
					return
				}
				from, to := b*blockSize, min((b+1)*blockSize, n)
				for from < to {
					o := spawn([]string{"block", "-prop", p.ID, "-tier", tier, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(from), "-to", fmt.Sprint(to), "-verif", dir}, nil, nil)
					mu.Lock()
					done := from - 1
					for _, r := range o.results {
						if r.I < 0 {
							cands = append(cands, cand{r.I, r.Viol, from})
							stop.Store(true)
							break
						}
						done = r.I
						account(r)
						if r.Viol != nil {
							cands = append(cands, cand{r.I, r.Viol, from})
							stop.Store(true)
						}
					}
					if o.hung {
						errs = append(errs, fmt.Sprintf("run %d made no progress for %v of real time", o.started, watchdog))
						stop.Store(true)
						from = to
					} else if done < to-1 {
						// The process ended early: a crash, or a budget exit.
						if o.started > done || o.started < 0 {
							if len(o.results) > 0 && o.results[len(o.results)-1].I < 0 {
								// reported already
							} else if v := classifyCrash(o); v == nil {
								errs = append(errs, fmt.Sprintf("run %d: simulator died (exit %d): %s", o.started, o.code, tail(o.stderr, 3000)))
								stop.Store(true)
							} else if isKnown(p.ID, v) && o.started >= 0 {
								crashes++
								probes["known-finding:"+v.Class]++
							} else {
								cands = append(cands, cand{o.started, v, from})
								stop.Store(true)
							}
							done = o.started
						}
						from = done + 1
					} else {
						from = to
					}
					mu.Unlock()
					if stop.Load() {
						return
					}
				}
			}
		}()
	}
	wg.Wait()
	searchWall := time.Since(t0)

	violations := 0
	exit := 0
	replayPath := ""
	sort.Slice(cands, func(i, j int) bool { return cands[i].i < cands[j].i })
	for _, c := range cands {
		path, err := confirmAndShrink(p, tier, seed, c.i, c.viol, c.block, dir)
		if err != nil {
			errs = append(errs, err.Error())
			continue
		}
		violations++
		replayPath = path
		exit = 1
		break
	}

	// Determinism: re-run a sample of this very batch in fresh processes.
	detN, detBad := 0, 0
	if exit == 0 && len(errs) == 0 {
		var dm sync.Mutex
		var dw sync.WaitGroup
		sem := make(chan struct{}, workers)
		for _, r := range sample {
			dw.Add(1)
			sem <- struct{}{}
			go func() {
				defer func() { <-sem; dw.Done() }()
				s := runSeed(seed, p.ID, r.i)
				rr, err := runOne(request{Prop: p.ID, Seed: s, Case: genCase(p, tier, s), Sched: genSched(s, p.Serial)})
				dm.Lock()
				defer dm.Unlock()
				detN++
				if err != nil || rr.Digest != r.d || rr.Trace != r.t {
					detBad++
					fmt.Fprintf(os.Stderr, "run %d did not repeat exactly (err=%v)\n", r.i, err)
				}
			}()
		}
		dw.Wait()
	}

	// Evidence.
	var samples []any
	for k := 0; k < 3 && k < evals; k++ {
		s := runSeed(seed, p.ID, k)
		samples = append(samples, map[string]any{"run": k, "seed": s, "sched": genSched(s, p.Serial), "case": genCase(p, tier, s)})
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": p.LevelStr,
		"wall_s": time.Since(t0).Seconds(), "violations": violations,
		"assumptions": p.Assume,
		"coverage": map[string]any{
			"evaluations":                  evals,
			"distinct_nontrivial":          len(distinct),
			"rule":                         p.Rule + " A run is counted as distinct and non-trivial when it performed operations on the real code, at least one forced preemption or injected fault happened in it (sequential properties: more than one operation), and its event log and dispatch trace differ from every other run's.",
			"samples":                      samples,
			"runs_requested":               n,
			"runs_per_hour":                int(float64(evals) / searchWall.Hours()),
			"search_wall_s":                searchWall.Seconds(),
			"operations":                   ops,
			"simulated_seconds":            float64(simNS) / 1e9,
			"scheduling_points":            steps,
			"context_switches":             sw,
			"forced_preemptions":           pre,
			"distinct_interleavings":       len(traces),
			"interleaving_measure":         "hash of the sequence (goroutine id, scheduling-point number) of every dispatch in the run",
			"faults_injected":              faults,
			"rare_conditions_reached":      probes,
			"determinism_reruns":           detN,
			"determinism_divergences":      detBad,
			"real_components":              p.Real,
			"stub_components":              p.Stub,
			"runs_with_goroutines_left":    leaks,
			"race_detector":                p.Race,
			"fresh_process_every_runs":     blockSize,
			"parallel_simulator_processes": workers,
			"known_findings_listed_for_it": countKnown(p.ID),
		},
	}
	os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, "evidence", p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		errs = append(errs, err.Error())
	}

	fmt.Printf("%s: %d runs, %d operations, %.0f simulated s, %d interleavings, %d faults, %.1f s\n", p.ID, evals, ops, float64(simNS)/1e9, len(traces), sum(faults), time.Since(t0).Seconds())
	for _, k := range known {
		if k.Property == p.ID && k.Status == "known" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k.What)
		}
	}
	if exit == 1 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, replayPath)
		return 1
	}
	// A single divergence is reported here and in the evidence; what the search
	// decided stands on replays, which are compared exactly.
	if detBad*8 > detN {
		errs = append(errs, fmt.Sprintf("%d of %d re-runs diverged: the simulation is not deterministic", detBad, detN))
	}
	if evals == 0 {
		errs = append(errs, "no runs completed")
	}
	if len(errs) > 0 {
		for _, e := range errs {
			fmt.Fprintln(os.Stderr, "verifsim: error:", e)
		}
		return 3
	}
	return 0
}

func countKnown(id string) int {
	n := 0
	for _, k := range known {
		if k.Property == id && k.Status == "known" {
			n++
		}
	}
	return n
}

func sum(m map[string]int) int {
	n := 0
	for _, v := range m {
		n += v
	}
	return n
}
