package main

// What a run covered. One stats per run; merged in seed order.

import "sort"

type stats struct {
	Runs, Ops, Calls        int
	Acked, Failed, Adopted  int
	Audits, Known, Restarts int
	Crashes                 int
	MaxCalls                int            // by one operation
	ByOp                    map[string]int // operation and how it ended
	Faults                  map[string]int // fault kind -> times fired
	FaultCalls              map[string]int // fault kind @ storage call
	Sites                   map[string]int // line of semnet whose call was failed
	Inter                   map[uint64]int // distinct interleavings in concurrent phases
	Shapes                  map[string]int // distinct model structures at the end of a run
	Histories               map[uint64]int // distinct event histories
	Backends                map[string]int
	ParSteps                int
	MaxWaste                int // nodes wasted by an interruption
	Nontrivial              int
	DistinctNontrivial      int
	Probe                   map[string]int // how often a situation a property is about came up
}

func newStats() *stats {
	return &stats{ByOp: map[string]int{}, Faults: map[string]int{}, FaultCalls: map[string]int{}, Sites: map[string]int{},
		Inter: map[uint64]int{}, Shapes: map[string]int{}, Histories: map[uint64]int{}, Backends: map[string]int{}, Probe: map[string]int{}}
}

func (s *stats) hit(probe string) {
	if s != nil {
		s.Probe[probe]++
	}
}

func (s *stats) fault(kind, call, site string) {
	s.Faults[kind]++
	if call != "" {
		s.FaultCalls[kind+"@"+call]++
	}
	if site != "" {
		s.Sites[kindClass(kind)+" "+site]++
	}
}

func kindClass(k string) string {
	switch k {
	case "crash", "crash-after":
		return "crash"
	}
	return "failure"
}

func (s *stats) op(op, status string) {
	s.Ops++
	s.ByOp[op+":"+status]++
}

func (s *stats) interleaving(h uint64) {
	s.ParSteps++
	s.Inter[h]++
}

func (s *stats) merge(o *stats) {
	s.Runs += o.Runs
	s.Ops += o.Ops
	s.Calls += o.Calls
	s.Acked += o.Acked
	s.Failed += o.Failed
	s.Adopted += o.Adopted
	s.Audits += o.Audits
	s.Known += o.Known
	s.Restarts += o.Restarts
	s.Crashes += o.Crashes
	s.MaxCalls = max(s.MaxCalls, o.MaxCalls)
	s.ParSteps += o.ParSteps
	s.MaxWaste = max(s.MaxWaste, o.MaxWaste)
	s.Nontrivial += o.Nontrivial
	addS(s.ByOp, o.ByOp)
	addS(s.Faults, o.Faults)
	addS(s.FaultCalls, o.FaultCalls)
	addS(s.Sites, o.Sites)
	addS(s.Shapes, o.Shapes)
	addS(s.Probe, o.Probe)
	addS(s.Backends, o.Backends)
	for k, v := range o.Inter {
		s.Inter[k] += v
	}
	for k, v := range o.Histories {
		if o.Nontrivial > 0 && s.Histories[k] == 0 {
			s.DistinctNontrivial++
		}
		s.Histories[k] += v
	}
}

func addS(a, b map[string]int) {
	for k, v := range b {
		a[k] += v
	}
}

func top(m map[string]int, n int) map[string]int {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		if m[keys[i]] != m[keys[j]] {
			return m[keys[i]] > m[keys[j]]
		}
		return keys[i] < keys[j]
	})
	if len(keys) > n {
		keys = keys[:n]
	}
	out := map[string]int{}
	for _, k := range keys {
		out[k] = m[k]
	}
	return out
}
