package main

// Operations on different storages in progress at the same time, in one
// process: coroutines switched at storage calls.

import "iter"

func (u *universe) cross(s *Step) {
	type part struct {
		next  func() (struct{}, bool)
		done  bool
		calls int
	}
	parts := []*part{}
	for i := range s.Pair {
		st := &s.Pair[i]
		if st.World >= len(u.worlds) || st.Do != "op" {
			continue
		}
		for j := range s.Pair[:i] {
			if s.Pair[j].World == st.World {
				st = nil // one operation per storage
				break
			}
		}
		if st == nil {
			continue
		}
		w := u.worlds[st.World]
		next, _ := iter.Pull(func(yield func(struct{}) bool) {
			w.mainYield = func() { yield(struct{}{}) }
			w.execute(st)
			w.mainYield = nil
		})
		parts = append(parts, &part{next: next})
	}
	if len(parts) == 0 {
		return
	}
	switches := uint64(14695981039346656037)
	resume := func(p *part) bool {
		if p.done {
			return false
		}
		if _, ok := p.next(); !ok {
			p.done = true
			return false
		}
		p.calls++
		return true
	}
	for _, b := range s.Sched {
		p := parts[b.Actor%len(parts)]
		for n := 0; n < b.Calls && resume(p); n++ {
		}
		switches = (switches ^ uint64(b.Actor+7)<<32 ^ uint64(p.calls)) * 1099511628211
		u.worlds[0].note(903, uint64(b.Actor), uint64(p.calls))
	}
	for _, p := range parts {
		for resume(p) {
		}
	}
	u.stats.interleaving(switches)
	u.stats.hit("operations on different storages interleaved")
}

// solo is the part of a scenario that concerns one storage.
func solo(sc *Scenario, world int) *Scenario {
	out := &Scenario{Config: append([]Config{sc.Config}, sc.Peers...)[world]}
	take := func(s Step) {
		if s.World == world {
			s.World = 0
			out.Steps = append(out.Steps, s)
		}
	}
	for _, s := range sc.Steps {
		if s.Do == "cross" {
			for _, p := range s.Pair {
				take(p)
			}
		} else {
			take(s)
		}
	}
	return clone(out)
}
