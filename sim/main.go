// Command verifsim runs the code under test inside a deterministic simulation.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

func fatalf(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "verifsim: error: "+f+"\n", a...)
	os.Exit(3)
}

type request struct {
	Prop    string          `json:"property"`
	Seed    uint64          `json:"seed"`
	Case    json.RawMessage `json:"case"`
	Sched   Sched           `json:"sched"`
	Prelude []preRun        `json:"prelude,omitempty"`
	// Cold runs the case without the fixed cases before it.
	Cold bool `json:"cold,omitempty"`
}

// preRun is a run executed earlier in the same process.
type preRun struct {
	Seed  uint64          `json:"seed"`
	Case  json.RawMessage `json:"case"`
	Sched Sched           `json:"sched"`
}

func runSeed(base uint64, prop string, i int) uint64 {
	return mix(base*0x9e3779b97f4a7c15 ^ mix(hashStr(prop)+uint64(i)*0xd1342543de82ef95+1))
}

func genCase(p *Prop, tier string, seed uint64) json.RawMessage {
	return mustJSON(p.Gen(NewR(seed, "case"), tier))
}

func emit(res RunResult) {
	b := mustJSON(res)
	os.Stdout.Write(append(append([]byte("R "), b...), '\n'))
}

// simProcess prepares the process and runs a few fixed cases, so that one-time
// initialisation in libraries is over before the first run that counts.
func simProcess(p *Prop, cold bool) {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	setupGlobals()
	if cold {
		return
	}
	for k := 0; k < warmups; k++ {
		i := -2 - k
		s := caseSeed(0, p.ID, i)
		fmt.Fprintf(os.Stdout, "S %d\n", i)
		execRun(p, fixedCase(p, i, s), s, genSched(s, p.Serial), func(r RunResult) { r.I = i; emit(r); os.Exit(0) })
	}
}

const warmups = 8

// fixedCase is the case of a run before the first that counts.
func fixedCase(p *Prop, i int, seed uint64) json.RawMessage {
	if i == -2 && p.Warm != nil {
		return mustJSON(p.Warm())
	}
	return genCase(p, "quick", seed)
}

// caseSeed is the seed of run i; the fixed cases have i < -1.
func caseSeed(base uint64, prop string, i int) uint64 {
	if i < -1 {
		return runSeed(0x77617265, prop, -2-i)
	}
	return runSeed(base, prop, i)
}

func main() {
	if len(os.Args) < 2 {
		fatalf("usage: verifsim check|block|one|replay|selftest|case")
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	tier := fs.String("tier", "quick", "quick or thorough")
	seed := fs.Uint64("seed", 1, "base seed")
	from := fs.Int("from", 0, "first run")
	to := fs.Int("to", 0, "one past the last run")
	n := fs.Int("n", 0, "number of runs")
	wall := fs.Int("wall", 0, "wall-clock cap of the search, seconds")
	dir := fs.String("verif", "/verif", "verification directory")
	workers := fs.Int("workers", 0, "parallel simulator processes")
	i := fs.Int("i", 0, "run index")
	fs.Parse(os.Args[2:])
	need := func() *Prop {
		p := props[*prop]
		if p == nil {
			fatalf("unknown property %q", *prop)
		}
		return p
	}
	exit := os.Exit
	switch cmd {
	case "check", "replay", "selftest":
		// A scratch directory for the simulator processes, removed at the end.
		d, err := os.MkdirTemp("", "verifsim-")
		if err != nil {
			fatalf("%v", err)
		}
		os.Setenv("VERIFSIM_TMP", d)
		exit = func(c int) {
			os.RemoveAll(d)
			os.Exit(c)
		}
	}
	switch cmd {
	case "list":
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
	case "case":
		p := need()
		s := runSeed(*seed, p.ID, *i)
		fmt.Printf("%s\n", mustJSON(request{Prop: p.ID, Seed: s, Case: genCase(p, *tier, s), Sched: genSched(s, p.Serial)}))
	case "block":
		p := need()
		loadKnown(*dir)
		simProcess(p, false)
		for k := *from; k < *to; k++ {
			s := runSeed(*seed, p.ID, k)
			fmt.Fprintf(os.Stdout, "S %d\n", k)
			res := execRun(p, genCase(p, *tier, s), s, genSched(s, p.Serial), func(r RunResult) {
				r.I = k
				emit(r)
				os.Exit(0)
			})
			res.I = k
			emit(res)
		}
	case "one":
		loadKnown(*dir)
		sc := bufio.NewReaderSize(os.Stdin, 1<<20)
		line, err := sc.ReadBytes('\n')
		if err != nil && len(line) == 0 {
			fatalf("no request")
		}
		var rq request
		if err := json.Unmarshal(line, &rq); err != nil {
			fatalf("bad request: %v", err)
		}
		p := props[rq.Prop]
		if p == nil {
			fatalf("unknown property %q", rq.Prop)
		}
		simProcess(p, rq.Cold)
		for _, pr := range rq.Prelude {
			fmt.Fprintf(os.Stdout, "S -1\n")
			execRun(p, pr.Case, pr.Seed, pr.Sched, func(r RunResult) { emit(r); os.Exit(0) })
		}
		fmt.Fprintf(os.Stdout, "S 0\n")
		emit(execRun(p, rq.Case, rq.Seed, rq.Sched, func(r RunResult) { emit(r); os.Exit(0) }))
	case "replay":
		if fs.NArg() != 1 {
			fatalf("usage: verifsim replay FILE")
		}
		loadKnown(*dir)
		exit(cmdReplay(fs.Arg(0)))
	case "selftest":
		p := need()
		loadKnown(*dir)
		exit(cmdSelftest(p, *tier, *seed, *n))
	case "check":
		p := need()
		loadKnown(*dir)
		exit(cmdCheck(p, *tier, *seed, *n, time.Duration(*wall)*time.Second, *dir, *workers))
	default:
		fatalf("unknown command %q", cmd)
	}
}
