package main

// What a check covered, measured on the run itself.

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"
)

const (
	threadRuns = 1500
	quickCount = 8000
	quickLimit = 150 * time.Second
	deepCount  = 400000
	deepLimit  = 30 * time.Minute
)

func runsFor(prop string, thorough bool) (int, time.Duration) {
	if thorough {
		return deepCount, deepLimit
	}
	switch prop {
	case "C20":
		return 3000, quickLimit // long runs
	case "C22", "C23", "C25":
		return 4000, quickLimit
	case "C26":
		return 2000, quickLimit
	case "C24":
		return 300, quickLimit
	}
	return quickCount, quickLimit
}

// ruleOf: a run counts as non-trivial if every one of these situations came up
// in it at least once.
var ruleOf = map[string][]string{
	"C01": {"text compared", "write acknowledged on a non-empty graph"},
	"C02": {"write acknowledged on a non-empty graph"},
	"C03": {"read through a remark value kept in memory compared", "read through a looked-up remark compared", "write acknowledged on a non-empty graph"},
	"C04": {"wrong identifier refused: internal|wrong identifier refused: raw|wrong identifier refused: alias|wrong identifier refused: unused|wrong identifier refused: zero|wrong identifier refused: huge"},
	"C05": {"process dies inside a write with acknowledged remarks stored", "read compared after a crash"},
	"C06": {"write interrupted after it had changed the storage", "read compared after an interrupted write"},
	"C07": {"write succeeds after failures"},
	"C08": {"failed storage call reported by a write|failed storage call reported by a read"},
	"C09": {"place in a story of several facts compared"},
	"C10": {"place among several child stories compared"},
	"C11": {"place in a fact of several remarks compared|place in a fact of one remark compared"},
	"C12": {"output compared, asked for a remark of a later fact"},
	"C13": {"storage growth compared, pair stored|storage growth compared, phrases stored"},
	"C14": {"read compared while the storage is read-only|read compared while the storage is full"},
	"C15": {"read during a write in progress compared"},
	"C16": {"write acknowledged on a non-empty graph"},
	"C18": {"operations on different storages interleaved", "write acknowledged on a non-empty graph", "text compared"},
	"C19": {"storage size compared with another order of the same writes", "write acknowledged on a non-empty graph"},
	"C20": {"work compared after unrelated writes"},
	"C21": {"history executed again in another process", "write acknowledged on a non-empty graph"},
	"C22": {"waste of an interrupted write measured", "waste measured of a write that had created many nodes"},
	"C23": {"remark stored earlier compared", "write acknowledged on a graph stored earlier"},
	"C25": {"remark written by the earlier version read by the current one", "remark written by the current version read by the earlier one", "write on a remark that the other version wrote"},
	"C26": {"growth of work compared: write|growth of work compared: read"},
	"C24": {"memory compared after many operations"},
	"C17": {"remark of one client read by another compared", "write on a remark another client wrote"},
}

func nontrivial(prop string, st *stats) bool {
	for _, need := range ruleOf[prop] {
		ok := false
		for _, p := range strings.Split(need, "|") {
			ok = ok || st.Probe[p] > 0
		}
		if !ok {
			return false
		}
	}
	return true
}

func count(m map[string]int) int { return len(m) }

func writeEvidence(prop string, seed uint64, thorough bool, t *stats, planned, done, bad int, searched, wall time.Duration, known []string, rf *replayFile, threads *found) {
	tier := "quick"
	if thorough {
		tier = "thorough"
	}
	sites := map[string]int{}
	for k := range t.Sites {
		sites[strings.SplitN(k, " ", 2)[0]]++
	}
	kinds, modes := map[string]int{}, map[string]int{}
	for k, v := range t.Faults {
		if strings.HasPrefix(k, "mode-") {
			if k != "mode-" {
				modes[strings.TrimPrefix(k, "mode-")] = v
			}
		} else {
			kinds[k] = v
		}
	}
	repeats := 0
	for _, v := range t.Inter {
		if v > 1 {
			repeats++
		}
	}
	samples := []interface{}{}
	for i := 0; i < min(done, 40) && len(samples) < 2; i++ {
		a := fresh(&job{Kind: "run", Prop: prop, Seed: seed, Index: i, Tracing: true})
		if a.Stats.Nontrivial > 0 && (len(a.Scenario.Steps) < 30 || i > 20) {
			sc := a.Scenario
			if len(a.Trace) > 80 {
				a.Trace = append(a.Trace[:80], "...")
			}
			samples = append(samples, map[string]interface{}{
				"run": i, "run_seed": fmt.Sprintf("%#x", runSeed(seed, prop, i)), "config": sc.Config,
				"storage_calls": a.Stats.Calls, "event_hash": fmt.Sprintf("%016x", a.Hash), "trace": a.Trace})
		}
	}
	hours := searched.Hours()
	violations := []interface{}{}
	if rf != nil {
		violations = append(violations, map[string]interface{}{"run": rf.Run, "seed": rf.RunSeed, "violation": rf.Violation, "shrunk": rf.Shrunk})
	}
	cov := map[string]interface{}{
		"evaluations":         done,
		"distinct_nontrivial": t.DistinctNontrivial,
		"rule": "One evaluation is one simulated run: a seeded generator grows a history of graph operations by several clients, " +
			"placing storage failures, lost answers, outages, process deaths, restarts and interleavings, and every answer is compared with the reference model. " +
			"Distinct: no two counted runs have the same event hash (all storage calls with arguments and results, outcomes, faults, switches). " +
			"Non-trivial for " + prop + ": each of the following came up at least once in the run: " + strings.Join(ruleOf[prop], "; ") + " (a bar separates alternatives).",
		"samples":                                            samples,
		"planned_runs":                                       planned,
		"seeds":                                              fmt.Sprintf("run i uses mix(mix(VERIF_SEED=%d, property), i), i = 0..%d", seed, done-1),
		"runs_per_hour":                                      int(float64(done) / hours),
		"seeds_per_hour":                                     int(float64(done) / hours),
		"simulated_time_storage_calls":                       t.Calls,
		"simulated_time_note":                                "semnet has no clock or timer; simulated time is the number of storage calls executed, the unit at which the scheduler decides",
		"operations_by_outcome":                              t.ByOp,
		"most_storage_calls_of_an_operation":                 t.MaxCalls,
		"most_nodes_wasted_by_an_interruption":               t.MaxWaste,
		"writes_acknowledged":                                t.Acked,
		"writes_interrupted":                                 t.Failed,
		"interrupted_writes_found_complete":                  t.Adopted,
		"audits_of_everything_reachable":                     t.Audits,
		"faults_fired":                                       kinds,
		"storage_modes_entered":                              modes,
		"faults_fired_by_storage_call":                       t.FaultCalls,
		"distinct_code_lines_whose_storage_call_was_faulted": sites,
		"process_deaths":                                     t.Crashes,
		"concurrent_phases":                                  t.ParSteps,
		"distinct_interleavings":                             len(t.Inter),
		"interleaving_measure":                               "hash of the sequence of (process, storage calls executed so far) at every switch in a phase with a write in progress",
		"distinct_structures":                                count(t.Shapes),
		"structure_measure":                                  "canonical form of the tree of stories, facts and remarks at the end of a run, without texts",
		"distinct_event_histories":                           len(t.Histories),
		"storage_configurations":                             t.Backends,
		"situations_reached":                                 t.Probe,
		"interleavings_seen_more_than_once":                  repeats,
		"components_running_real_code":                       []string{"github.com/mem-memov/semnet, all packages, built from /repo's working tree", "github.com/mem-memov/clew graph and slice storage (runs with backend clew)"},
		"components_stubbed":                                 []string{"storage behind semnet's storage interface in runs with backend mem: a model of the same contract with other identifiers and listing orders", "process scheduling: coroutines switched at storage calls", "process death: unwinding the operation at a storage call and discarding handle and values"},
		"known_findings_seen":                                known,
		"violations_detail":                                  violations,
	}
	if threads != nil {
		cov["runs_of_clients_on_threads_under_the_race_detector"] = threads.done
		cov["threads_storage_calls"] = threads.total.Calls
		cov["threads_distinct_interleavings"] = len(threads.total.Inter)
		cov["threads_distinct_histories"] = len(threads.total.Histories)
		cov["threads_note"] = "one goroutine per client, exactly one of which goes on at a time as the seed decides; the handing over is hidden from the race detector, which reports memory of semnet that two clients use without synchronisation"
	}
	v := 0
	if bad >= 0 {
		v = 1
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"assumptions": []string{
			"each storage call is atomic and durable once it has returned or its answer was lost; a crash is the death of a process at a storage call",
			"the storage hands out 1..8 first, as clew does, and keeps clew's meaning of references and links",
			"at most one write is in progress at a time; a handle is used by one caller at a time",
			"sampling: runs that were not drawn are not covered",
		},
		"wall_s": wall.Seconds(), "violations": v,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		panic(err)
	}
	os.MkdirAll("evidence", 0o755)
	if err := os.WriteFile(filepath.Join("evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		panic(fmt.Sprint("evidence: ", err))
	}
}
