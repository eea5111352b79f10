package main

// semsim: deterministic simulation of semnet with fault injection.
//
//	semsim check  PROPERTY            seeded search, evidence, replay file
//	semsim replay FILE                execute a replay file again
//	semsim run    PROPERTY INDEX      one run of the search, with its trace
//	semsim hash   PROPERTY COUNT      event hash of the first COUNT runs
//
// Every run is executed in a process of its own (child.go), so that nothing
// the code under test keeps in memory passes from one run to another.

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type replayFile struct {
	Property  string    `json:"property"`
	VerifSeed uint64    `json:"verif_seed"`
	Run       int       `json:"run"`
	RunSeed   uint64    `json:"run_seed"`
	Violation violation `json:"violation"`
	Hash      string    `json:"event_hash"`
	Shrunk    string    `json:"shrunk"`
	Kind      string    `json:"kind,omitempty"`    // run | threads
	BySeed    bool      `json:"by_seed,omitempty"` // replayed by generating the run again
	Scenario  *Scenario `json:"scenario"`
	Trace     []string  `json:"trace"`
}

func runSeed(verifSeed uint64, prop string, index int) uint64 {
	n, _ := strconv.Atoi(strings.TrimPrefix(prop, "C"))
	return mix(mix(verifSeed, uint64(n)*1000003), uint64(index))
}

func env(name string, def uint64) uint64 {
	if v, err := strconv.ParseUint(os.Getenv(name), 10, 64); err == nil {
		return v
	}
	return def
}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: semsim check|replay|run|hash ...")
		os.Exit(2)
	}
	defer func() {
		if r := recover(); r != nil {
			fmt.Fprintln(os.Stderr, "simulator error:", r)
			buf := make([]byte, 1<<14)
			os.Stderr.Write(buf[:runtime.Stack(buf, false)])
			os.Exit(2)
		}
	}()
	seed := env("VERIF_SEED", 1)
	switch os.Args[1] {
	case "child":
		childMain()
	case "check":
		os.Exit(check(os.Args[2], seed, os.Getenv("VERIF_TIER") == "thorough"))
	case "record":
		record(os.Args[2])
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "run":
		index, _ := strconv.Atoi(os.Args[3])
		gen := fresh(&job{Kind: "run", Prop: os.Args[2], Seed: seed, Index: index, Tracing: true})
		for _, l := range gen.Trace {
			fmt.Println(l)
		}
		fmt.Println(len(gen.Viol), "violations; event hash", fmt.Sprintf("%016x", gen.Hash))
	case "hash":
		n, _ := strconv.Atoi(os.Args[3])
		h := uint64(0)
		found := search("run", os.Args[2], seed, n, time.Hour, true)
		for i := 0; i < n; i++ {
			h = mix(h, found.results[i].hash)
			for _, v := range found.results[i].viol {
				fmt.Printf("run %d: %s %v %s\n", i, v.Obs, v.Props, v.Msg)
			}
		}
		fmt.Printf("%s %d runs %016x\n", os.Args[2], n, h)
	}
}

type result struct {
	done bool
	viol []violation
	hash uint64
}

type found struct {
	results []result
	total   *stats
	done    int
	bad     int // lowest run that violates the property, or -1
}

// search executes runs 0..n-1 on all cores; it stops early once a run violates
// the property (every lower run is still completed) or the time is up.
func search(kind, prop string, seed uint64, n int, limit time.Duration, all bool) *found {
	results := make([]result, n)
	total := newStats()
	var next int64 = -1
	var lowest int64 = int64(n)
	start := time.Now()
	workers := runtime.GOMAXPROCS(0)
	if v := env("SEMSIM_WORKERS", 0); v > 0 {
		workers = int(v)
	}
	var wg sync.WaitGroup
	var lock sync.Mutex
	var failure atomic.Value
	for k := 0; k < workers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					failure.Store(fmt.Sprint(r))
				}
			}()
			for {
				i := atomic.AddInt64(&next, 1)
				if i >= atomic.LoadInt64(&lowest) || time.Since(start) > limit || failure.Load() != nil {
					return
				}
				j := &job{Kind: kind, Prop: prop, Seed: seed, Index: int(i)}
				began := time.Now()
				a := fresh(j)
				if d, slow := time.Since(began), env("SEMSIM_SLOW", 0); slow > 0 && d > time.Duration(slow)*time.Second {
					fmt.Fprintf(os.Stderr, "run %d of %s took %v, %d calls\n", i, prop, d, a.Stats.Calls)
				}
				if a.same(prop, obsFatal) != nil {
					// a machine may stall or run out of memory for reasons of
					// its own: believe it only if it happens twice
					a = fresh(j)
				}
				results[i] = result{done: true, viol: a.Viol, hash: a.Hash}
				lock.Lock()
				total.merge(a.Stats)
				lock.Unlock()
				if all || a.first(prop) == nil {
					continue
				}
				for {
					l := atomic.LoadInt64(&lowest)
					if i >= l || atomic.CompareAndSwapInt64(&lowest, l, i) {
						break
					}
				}
			}
		}()
	}
	wg.Wait()
	if f := failure.Load(); f != nil {
		panic(f)
	}
	f := &found{results: results, total: total, bad: -1}
	for i := range results {
		if results[i].done {
			f.done++
		}
	}
	if lowest < int64(n) {
		f.bad = int(lowest)
	}
	return f
}

func check(prop string, seed uint64, thorough bool) int {
	start := time.Now()
	n, limit := runsFor(prop, thorough)
	if v := env("SEMSIM_RUNS", 0); v > 0 {
		n = int(v)
	}
	f := search("run", prop, seed, n, limit, false)
	total := f.total
	searched := time.Since(start)
	code := 0
	var rf *replayFile
	kind, bad := "run", f.bad
	var threads *found
	if env("SEMSIM_FAST", 0) == 0 && bad < 0 && (prop == "C15" || prop == "C18") {
		k := threadRuns
		if thorough {
			k *= 50
		}
		threads = search("threads", prop, seed, k, limit, false)
		kind, bad = "threads", threads.bad
	}
	if bad >= 0 && env("SEMSIM_FAST", 0) > 0 {
		fmt.Printf("VIOLATION property=%s replay=none (run %d)\n", prop, bad)
		return 1
	}
	if bad >= 0 {
		code = 1
		rf = minimise(kind, prop, seed, bad)
		path := filepath.Join("replays", fmt.Sprintf("%s-seed%d-%s%d.json", prop, seed, kind, bad))
		os.MkdirAll("replays", 0o755)
		b, _ := json.MarshalIndent(rf, "", " ")
		if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
			panic(err)
		}
		fmt.Printf("run %d (seed %#x): %s: %s\n", bad, rf.RunSeed, rf.Violation.Obs, rf.Violation.Msg)
		for _, l := range rf.Trace {
			fmt.Println("  " + l)
		}
		abs, _ := filepath.Abs(path)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, abs)
	}
	known := []string{}
	if prop == "C11" && total.Known > 0 {
		known = append(known, "added-remark-not-listed: HasNextRemark is false on a remark that is not the last of its fact")
	}
	for _, k := range known {
		if !listed(prop, k) {
			panic("known finding is not listed in known_findings.txt: " + k)
		}
		fmt.Printf("KNOWN-FINDING: property=%s %s (%d times)\n", prop, k, total.Known)
	}
	writeEvidence(prop, seed, thorough, total, n, f.done, bad, searched, time.Since(start), known, rf, threads)
	fmt.Printf("%s: %d of %d runs, %d storage calls, %d faults fired, %d distinct histories, %.1f s\n",
		prop, f.done, n, total.Calls, sum(total.Faults), len(total.Histories), time.Since(start).Seconds())
	if threads != nil {
		fmt.Printf("%s: %d runs of clients on threads of their own under the race detector, %d storage calls, %d distinct interleavings\n",
			prop, threads.done, threads.total.Calls, len(threads.total.Inter))
	}
	return code
}

func sum(m map[string]int) int {
	n := 0
	for k, v := range m {
		if !strings.HasPrefix(k, "mode-") {
			n += v
		}
	}
	return n
}

// listed tells whether known_findings.txt lists the finding.
func listed(prop, finding string) bool {
	b, err := os.ReadFile("known_findings.txt")
	if err != nil {
		return false
	}
	key := strings.SplitN(finding, ":", 2)[0]
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "finding: property="+prop+" "+key) {
			return true
		}
	}
	return false
}

// minimise turns a violating run into a replay file. Whatever is written down
// has been reproduced in a fresh process.
func minimise(kind, prop string, seed uint64, index int) *replayFile {
	gen := fresh(&job{Kind: kind, Prop: prop, Seed: seed, Index: index, Tracing: true})
	rf := &replayFile{Kind: kind, Property: prop, VerifSeed: seed, Run: index, RunSeed: runSeed(seed, prop, index)}
	keep := func(a *answer, sc *Scenario, v *violation) {
		rf.Scenario, rf.Violation, rf.Hash, rf.Trace = sc, *v, fmt.Sprintf("%016x", a.Hash), a.Trace
	}
	v := gen.first(prop)
	if v == nil {
		rf.BySeed = true
		rf.Shrunk = "not minimised: executing the run again gave another result; the code under test depends on something outside the simulator"
		rf.Hash = fmt.Sprintf("%016x", gen.Hash)
		return rf
	}
	keep(gen, gen.Scenario, v)
	reproduces := func(sc *Scenario) bool {
		a := fresh(&job{Kind: "eval", Prop: prop, Scenario: sc, Tracing: true})
		if w := a.same(prop, v.Obs); w != nil {
			keep(a, sc, w)
			return true
		}
		return false
	}
	if gen.Scenario == nil || !reproduces(gen.Scenario) {
		rf.BySeed = true
		rf.Shrunk = "not minimised: the run is replayed by generating it again"
		return rf
	}
	deadline := time.Now().Add(60 * time.Second)
	before := len(gen.Scenario.Steps)
	small, tries := gen.Scenario, 0
	if prop != "C18" && prop != "C21" && kind == "run" && v.Obs != obsFatal {
		a := fresh(&job{Kind: "shrink", Prop: prop, Obs: v.Obs, Scenario: gen.Scenario, Limit: 3000, Deadline: deadline})
		if a.Scenario != nil {
			small, tries = a.Scenario, a.Tries
		}
	}
	if tries == 0 || !reproduces(small) {
		small, tries = shrink(prop, v.Obs, gen.Scenario, 1500, deadline, func(sc *Scenario) []violation {
			return fresh(&job{Kind: "eval", Prop: prop, Scenario: sc}).Viol
		})
		reproduces(small)
	}
	rf.Shrunk = fmt.Sprintf("%d steps to %d in %d executions", before, len(rf.Scenario.Steps), tries)
	return rf
}

func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	rf := &replayFile{}
	if err := json.Unmarshal(b, rf); err != nil {
		panic(err)
	}
	j := &job{Kind: "eval", Prop: rf.Property, Scenario: rf.Scenario, Tracing: true}
	if rf.BySeed {
		if rf.Kind == "" {
			rf.Kind = "run"
		}
		j = &job{Kind: rf.Kind, Prop: rf.Property, Seed: rf.VerifSeed, Index: rf.Run, Tracing: true}
	}
	a := fresh(j)
	for _, l := range a.Trace {
		fmt.Println(l)
	}
	hash := fmt.Sprintf("%016x", a.Hash)
	fmt.Printf("event hash %s, recorded %s: same execution: %v\n", hash, rf.Hash, hash == rf.Hash)
	if v := a.same(rf.Property, rf.Violation.Obs); v != nil {
		fmt.Println(v.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
		return 1
	}
	fmt.Println("not reproduced")
	return 0
}
