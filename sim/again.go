package main

// The same history once more (C21): in another process, at another time, with
// other settings, a storage that behaves the same must see the same changes
// and the user the same answers.

import (
	"fmt"
	"os"
	"strings"
)

// elsewhere are the settings of the further executions, in turn.
var elsewhere = [][]string{
	{"TZ=Asia/Kathmandu", "LANG=tr_TR.UTF-8", "LC_ALL=tr_TR.UTF-8", "HOME=/nonexistent", "USER=nobody", "GOMAXPROCS=4"},
	{"TZ=", "LANG=C", "LC_ALL=", "HOSTNAME=elsewhere", "PWD=/", "GOMAXPROCS=2", "GOGC=20"},
	{"TZ=America/St_Johns", "LANG=de_DE.UTF-8", "TMPDIR=/tmp", "DEBUG=1", "CI=1", "GOMAXPROCS=1"},
}

// ballast keeps objects of the heap at other addresses than in other processes.
var ballast [][]byte

func scatter(n int) {
	for i := 0; i < n*16; i++ {
		ballast = append(ballast, make([]byte, 16<<(uint(i+n)%9)))
	}
}

// undisturbed tells whether a scenario contains no faults that are placed by
// number of call, and no schedules: an execution that reads in another order
// is then as good as any.
func undisturbed(sc *Scenario) bool {
	for _, s := range sc.Steps {
		if len(s.Faults) > 0 || s.Do == "par" || s.Do == "cross" || s.Do == "gauge" || s.Do == "measure" || s.Do == "ramp" || s.Do == "soak" {
			return false
		}
	}
	return sc.Config.Order != "random"
}

// repeat adds a violation if a further execution gives other answers or
// changes.
func repeat(sc *Scenario, u *universe, times int) []violation {
	if !undisturbed(sc) {
		return u.viol
	}
	w := u.worlds[0]
	for i := 0; i < times; i++ {
		a := fresh(&job{Kind: "eval", Scenario: sc, Elsewhere: 1 + i%len(elsewhere)})
		if len(a.Changes) == 0 {
			return u.viol // died, which is another matter
		}
		u.stats.hit("history executed again in another process")
		what := ""
		switch {
		case a.Changes[0] != w.changes:
			what = "makes other changes to the storage"
		case a.Answers[0] != w.answers:
			what = "gives other answers"
		default:
			continue
		}
		return append(u.viol, violation{Obs: obsChance, Props: []string{"C21"}, Step: len(sc.Steps), Op: "audit",
			Msg: fmt.Sprintf("the same history of %d steps, executed again in another process (%s), %s (%d nodes and %d before, %d and %d then)",
				len(sc.Steps), strings.Join(elsewhere[i%len(elsewhere)], " "), what, len(w.created), len(w.model.order), a.Sizes[0], a.Written[0])})
	}
	return u.viol
}

// environment is that of the child process for a job.
func (j *job) environment() []string {
	env := append(os.Environ(), "GOMAXPROCS=1")
	if j.Elsewhere > 0 {
		env = append(env, elsewhere[j.Elsewhere-1]...)
	}
	if j.threads() {
		env = append(env, "GORACE=atexit_sleep_ms=0 history_size=7")
	}
	return env
}
