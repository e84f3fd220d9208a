package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sync"
	"time"
)

// confirmAndShrink re-executes a violating run in a fresh process, minimises
// the case and the schedule, and writes the replay file.
func confirmAndShrink(p *Prop, tier string, base uint64, i int, v *Violation, block int, dir string) (string, error) {
	seed := caseSeed(base, p.ID, i)
	if i < 0 {
		tier = "quick"
	}
	rq := request{Prop: p.ID, Seed: seed, Case: genCase(p, tier, seed), Sched: genSched(seed, p.Serial), Cold: i < 0}
	if i < 0 {
		rq.Case = fixedCase(p, i, seed)
	}
	res, err := runOne(rq)
	if err != nil {
		return "", fmt.Errorf("run %d reported %q but re-running it failed: %v", i, v.Class, err)
	}
	evals := 1
	if !sameViol(res.Viol, v) {
		// The violation may need state left by earlier runs of its process.
		for k := block; k < i && i >= 0; k++ {
			s := runSeed(base, p.ID, k)
			rq.Prelude = append(rq.Prelude, preRun{s, genCase(p, tier, s), genSched(s, p.Serial)})
		}
		res, err = runOne(rq)
		evals++
		if err != nil || !sameViol(res.Viol, v) {
			got := "nothing"
			if res.Viol != nil {
				got = res.Viol.Class + ": " + res.Viol.Msg
			}
			return "", fmt.Errorf("run %d reported %q (%s) but it did not reproduce in a fresh process (got %s, err %v)", i, v.Class, v.Msg, got, err)
		}
	}
	origin := fmt.Sprintf("run %d of base seed %d, tier %s", i, base, tier)
	fmt.Printf("violation found: %s, class %s; minimising\n%s\n", origin, v.Class, firstLines(res.Viol.Msg, 6))
	size0, dec0 := len(rq.Case), len(res.Dec)
	first := rq

	deadline := time.Now().Add(45 * time.Second)
	workers := runtime.NumCPU()
	// try evaluates candidates in order, in parallel batches, and returns the
	// first (lowest index) that still shows the same violation.
	try := func(cs []request) (int, RunResult) {
		for lo := 0; lo < len(cs); lo += workers {
			if time.Now().After(deadline) {
				return -1, RunResult{}
			}
			hi := min(lo+workers, len(cs))
			out := make([]RunResult, hi-lo)
			var wg sync.WaitGroup
			for k := lo; k < hi; k++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					if r, err := runOne(cs[k]); err == nil {
						out[k-lo] = r
					}
				}()
			}
			wg.Wait()
			evals += hi - lo
			for k := range out {
				if sameViol(out[k].Viol, v) {
					return lo + k, out[k]
				}
			}
		}
		return -1, RunResult{}
	}

	// Prelude.
	for len(rq.Prelude) > 0 && time.Now().Before(deadline) {
		var cs []request
		for n := len(rq.Prelude); n >= 1; n /= 2 {
			for s := 0; s < len(rq.Prelude); s += n {
				c := rq
				c.Prelude = append(append([]preRun{}, rq.Prelude[:s]...), rq.Prelude[min(s+n, len(rq.Prelude)):]...)
				cs = append(cs, c)
			}
		}
		k, r := try(cs)
		if k < 0 {
			break
		}
		rq, res = cs[k], r
	}

	// No schedule at all, if the violation does not need one.
	if !p.Serial {
		c := rq
		c.Sched = Sched{Replay: true}
		if k, r := try([]request{c}); k == 0 {
			rq, res = c, r
		}
	}
	// Case.
	for time.Now().Before(deadline) {
		cands := shrinkJSON(rq.Case)
		var cs []request
		for _, raw := range cands {
			c := rq
			c.Case = raw
			cs = append(cs, c)
		}
		k, r := try(cs)
		if k < 0 {
			break
		}
		rq, res = cs[k], r
	}
	// Schedule: switch to the recorded decisions, then drop decisions.
	if !rq.Sched.Replay && !res.DecOver {
		c := rq
		c.Sched = Sched{Replay: true, Decisions: res.Dec}
		if k, r := try([]request{c}); k == 0 {
			rq, res = c, r
			for n := (len(rq.Sched.Decisions) + 1) / 2; n >= 1 && time.Now().Before(deadline); {
				var cs []request
				d := rq.Sched.Decisions
				for s := 0; s < len(d); s += n {
					c := rq
					c.Sched.Decisions = append(append([][2]uint32{}, d[:s]...), d[min(s+n, len(d)):]...)
					cs = append(cs, c)
				}
				k, r := try(cs)
				if k >= 0 {
					rq, res = cs[k], r
					n = min(n, (len(rq.Sched.Decisions)+1)/2)
					if n == 0 {
						break
					}
					continue
				}
				n /= 2
			}
		}
	}
	// Final confirmation, twice. If the smaller run does not repeat exactly,
	// the run as it was found is reported.
	confirm := func(rq request, want uint64) (RunResult, bool, bool) {
		same, exact := true, true
		var r RunResult
		for k := 0; k < 2; k++ {
			var err error
			r, err = runOne(rq)
			if err != nil || !sameViol(r.Viol, v) {
				return r, false, false
			}
			if len(r.Hist) > 0 && (k > 0 || want != 0) && r.Digest != want {
				exact = false
			}
			want = r.Digest
		}
		return r, same, exact
	}
	r, same, exact := confirm(rq, res.Digest)
	if !exact {
		r2, same2, exact2 := confirm(first, 0)
		if exact2 || !same {
			rq, r, same, exact = first, r2, same2, exact2
		}
	}
	if !same {
		return "", fmt.Errorf("run %d: the %q violation does not replay", i, v.Class)
	}
	note := ""
	if !exact {
		note = "; the event log is not the same in every execution"
	}
	res = r
	rf := replayFile{request: rq, Class: v.Class, Msg: res.Viol.Msg, Digest: res.Digest, Trace: res.Trace, History: res.Hist, Origin: origin,
		Shrunk: fmt.Sprintf("case %d -> %d bytes, schedule decisions %d -> %d, %d executions%s", size0, len(rq.Case), dec0, len(rq.Sched.Decisions), evals, note)}
	os.MkdirAll(filepath.Join(dir, "replays"), 0o755)
	path := filepath.Join(dir, "replays", fmt.Sprintf("%s-%016x.json", p.ID, seed))
	b, err := json.MarshalIndent(rf, "", " ")
	if err != nil {
		return "", err
	}
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		return "", err
	}
	fmt.Printf("minimised: %s\ncase: %s\nschedule: %d non-default decisions\nclass: %s\n%s\n", rf.Shrunk, firstLines(string(rq.Case), 1), len(rq.Sched.Decisions), v.Class, firstLines(res.Viol.Msg, 12))
	return path, nil
}

func firstLines(s string, n int) string {
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' {
			n--
			if n == 0 {
				return s[:i]
			}
		}
	}
	if len(s) > 2000 {
		return s[:2000] + "..."
	}
	return s
}

// shrinkJSON lists simpler variants of a case, most aggressive first.
func shrinkJSON(raw json.RawMessage) []json.RawMessage {
	dec := json.NewDecoder(bytes.NewReader(raw))
	dec.UseNumber()
	var root any
	if err := dec.Decode(&root); err != nil {
		return nil
	}
	var big, small []json.RawMessage
	ser := func() json.RawMessage {
		b, _ := json.Marshal(root)
		return b
	}
	var walk func(v any, set func(any))
	walk = func(v any, set func(any)) {
		switch x := v.(type) {
		case []any:
			for n := len(x); n >= 1; n /= 2 {
				for s := 0; s < len(x); s += n {
					c := append(append([]any{}, x[:s]...), x[min(s+n, len(x)):]...)
					set(c)
					if n > 1 || len(x) == 1 {
						big = append(big, ser())
					} else {
						small = append(small, ser())
					}
				}
			}
			set(x)
			for i := range x {
				walk(x[i], func(nv any) { x[i] = nv })
			}
		case map[string]any:
			for _, k := range sortedKeys(x) {
				walk(x[k], func(nv any) { x[k] = nv })
			}
		case json.Number:
			n, err := x.Int64()
			if err != nil || n == 0 {
				return
			}
			seen := map[int64]bool{n: true}
			cs := []int64{0, 1, n / 2, n - n/4}
			if n <= 24 {
				cs = append(cs, n-1)
			}
			for _, c := range cs {
				if !seen[c] && (c < n || n < 0) {
					seen[c] = true
					set(json.Number(fmt.Sprint(c)))
					small = append(small, ser())
				}
			}
			set(x)
		case bool:
			if x {
				set(false)
				small = append(small, ser())
				set(x)
			}
		}
	}
	walk(root, func(nv any) { root = nv })
	return append(big, small...)
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	for i := 1; i < len(ks); i++ {
		for j := i; j > 0 && ks[j] < ks[j-1]; j-- {
			ks[j], ks[j-1] = ks[j-1], ks[j]
		}
	}
	return ks
}
