package main

// Child processes: each executes one job and sends one answer on descriptor 3.
// A child that dies (stack overflow, fatal error of the runtime, memory) or
// stops making storage calls without finishing is a violation of its own.

import (
	"bytes"
	"context"
	"encoding/gob"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

type job struct {
	Kind     string // run | threads | eval | shrink
	Prop     string
	Seed     uint64
	Index    int
	Scenario *Scenario
	Tracing  bool
	Obs      string
	Limit    int
	Deadline time.Time

	Elsewhere int // C21: executed with the settings of this number
}

type answer struct {
	Stats    *stats
	Viol     []violation
	Hash     uint64
	Trace    []string
	Scenario *Scenario
	Tries    int
	Sizes    []int // nodes created, by storage
	Written  []int // remarks written, by storage
	Changes  []uint64
	Answers  []uint64
	Error    string // the simulator itself failed
}

// first is the first violation of the property.
func (a *answer) first(prop string) *violation {
	for i := range a.Viol {
		if a.Viol[i].hits(prop) {
			return &a.Viol[i]
		}
	}
	return nil
}

func (a *answer) same(prop, obs string) *violation {
	for i := range a.Viol {
		if a.Viol[i].hits(prop) && a.Viol[i].Obs == obs {
			return &a.Viol[i]
		}
	}
	return nil
}

// sees tells whether a kind of wrong observation was made.
func (a *answer) sees(obs string) bool {
	for i := range a.Viol {
		if a.Viol[i].Obs == obs {
			return true
		}
	}
	return false
}

const stallLimit = 30 * time.Second

// progress is written by every storage call and read by the watchdog.
var progress atomic.Int64

// fresh executes a job in a new process.
func fresh(j *job) *answer {
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	if j.threads() {
		self = filepath.Join(filepath.Dir(self), "semsim-race")
	}
	limit := 400 * time.Second
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, self, "child", j.Kind)
	cmd.Env = j.environment()
	if j.Elsewhere > 0 {
		cmd.Dir = "/"
	}
	in := &bytes.Buffer{}
	if err := gob.NewEncoder(in).Encode(j); err != nil {
		panic(err)
	}
	cmd.Stdin = in
	stderr := &bytes.Buffer{}
	cmd.Stderr = stderr
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	defer r.Close()
	cmd.ExtraFiles = []*os.File{w}
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	w.Close()
	a := &answer{}
	derr := gob.NewDecoder(r).Decode(a)
	werr := cmd.Wait()
	if derr == nil && a.Error != "" {
		panic(a.Error)
	}
	if derr != nil {
		text := stderr.String()
		if len(text) > 600 {
			text = text[:600]
		}
		if strings.Contains(text, "simulator error") {
			panic(text)
		}
		a = &answer{Stats: newStats()}
		a.Viol = []violation{fatal(j.Prop, fmt.Sprintf("the process executing the run dies (%v): %s", werr, text))}
	}
	if j.threads() {
		for _, r := range races(stderr.String()) {
			a.Viol = append(a.Viol, violation{Obs: obsRace, Props: []string{"C15", "C18"}, Op: "thread", Msg: r})
		}
	}
	return a
}

// threads tells whether the job has clients on threads of their own.
func (j *job) threads() bool {
	return j.Kind == "threads" || j.Scenario != nil && j.Scenario.Threads
}

func fatal(prop, msg string) violation {
	return violation{Obs: obsFatal, Props: []string{"C02", "C07", prop}, Msg: msg}
}

func childMain() {
	out := os.NewFile(3, "answer")
	defer func() {
		if r := recover(); r != nil {
			buf := make([]byte, 1<<14)
			text := fmt.Sprintf("simulator error: %v\n%s", r, buf[:runtime.Stack(buf, false)])
			gob.NewEncoder(out).Encode(&answer{Error: text})
			os.Exit(0)
		}
	}()
	j := &job{}
	if err := gob.NewDecoder(os.Stdin).Decode(j); err != nil {
		panic(err)
	}
	lim := syscall.Rlimit{Cur: 8 << 30, Max: 8 << 30}
	if !underRaceDetector {
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	debug.SetGCPercent(1000)
	debug.SetMemoryLimit(1 << 30)
	debug.SetMaxStack(256 << 20)
	scatter(j.Elsewhere)
	done := make(chan struct{})
	go func() {
		last, since := int64(-1), time.Now()
		for {
			select {
			case <-done:
				return
			case <-time.After(time.Second):
			}
			if p := progress.Load(); p != last {
				last, since = p, time.Now()
			} else if time.Since(since) > stallLimit {
				buf := make([]byte, 1<<14)
				buf = buf[:runtime.Stack(buf, true)]
				a := &answer{Stats: newStats(), Viol: []violation{fatal(j.Prop, fmt.Sprintf("an operation neither ends nor makes a storage call for %v:\n%s", stallLimit, buf))}}
				gob.NewEncoder(out).Encode(a)
				os.Exit(0)
			}
		}
	}()
	a := j.execute()
	close(done)
	if err := gob.NewEncoder(out).Encode(a); err != nil {
		panic(err)
	}
}

func (j *job) execute() *answer {
	if j.threads() {
		sc := j.Scenario
		if sc == nil {
			sc = generateThreads(runSeed(j.Seed, j.Prop, j.Index), j.Prop)
		}
		return runThreads(sc, newStats())
	}
	switch j.Kind {
	case "run":
		st := newStats()
		u, sc := generate(runSeed(j.Seed, j.Prop, j.Index), profileOf(j.Prop), st, j.Tracing)
		st.Runs = 1
		st.Calls = u.clock
		st.Crashes = u.crashes()
		for _, w := range u.worlds {
			st.Backends[w.cfg.Backend+" "+w.cfg.IDs+" "+w.cfg.Order]++
			st.Shapes[w.model.shape()]++
		}
		st.Histories[u.hash]++
		a := &answer{Stats: st, Viol: differential(j.Prop, sc, u, 1), Hash: u.hash, Trace: u.trace}
		if nontrivial(j.Prop, st) {
			st.Nontrivial = 1
		}
		if j.Tracing || len(a.Viol) > 0 {
			a.Scenario = sc
		}
		return a
	case "eval":
		u := evaluate(j.Scenario, j.Tracing)
		a := &answer{Stats: u.stats, Viol: differential(j.Prop, j.Scenario, u, 6), Hash: u.hash, Trace: u.trace}
		for _, w := range u.worlds {
			a.Sizes, a.Written, a.Changes = append(a.Sizes, len(w.created)), append(a.Written, len(w.model.order)), append(a.Changes, w.changes)
			a.Answers = append(a.Answers, w.answers)
		}
		return a
	case "shrink":
		small, tries := shrink(j.Prop, j.Obs, j.Scenario, j.Limit, j.Deadline, func(sc *Scenario) []violation {
			progress.Add(1)
			return differential(j.Prop, sc, evaluate(sc, false), 6)
		})
		return &answer{Stats: newStats(), Scenario: small, Tries: tries}
	}
	panic("simulator: unknown job " + j.Kind)
}
