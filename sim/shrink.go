package main

// Minimising a violating scenario. The predicate is exact re-execution: a
// candidate is kept only if it still shows the same kind of wrong observation
// against the same property.

import (
	"encoding/json"
	"fmt"
	"time"
)

func clone(sc *Scenario) *Scenario {
	b, _ := json.Marshal(sc)
	c := &Scenario{}
	json.Unmarshal(b, c)
	return c
}

// evaluate executes a scenario and returns what it violates.
func evaluate(sc *Scenario, tracing bool) *universe {
	u := newUniverse(sc, newStats(), tracing)
	for i := range sc.Steps {
		u.execute(&sc.Steps[i])
	}
	return u
}

// differential decides whether a wrong observation is due to the freedoms of
// the storage contract (C16: the same history is executed on the real clew
// storage) or to another storage in the process (C18: the history of the
// storage is executed alone, in a fresh process).
func differential(prop string, sc *Scenario, u *universe, again int) []violation {
	viol := u.viol
	if prop == "C19" {
		return compareSize(sc, u)
	}
	if prop == "C21" {
		return repeat(sc, u, again)
	}
	if prop == "C18" && len(sc.Peers) > 0 {
		alone := make([]*answer, len(u.worlds))
		out := []violation{}
		for i := range u.worlds {
			alone[i] = fresh(&job{Kind: "eval", Scenario: solo(sc, i)})
		}
		for _, v := range viol {
			if v.Obs != obsFatal && alone[v.World].sees(v.Obs) {
				out = append(out, v)
				continue
			}
			v.Props = append(append([]string{}, v.Props...), "C18")
			v.Msg += " (the same history is answered correctly when the storage is the only one in the process)"
			out = append(out, v)
		}
		for i, w := range u.worlds {
			if len(alone[i].Changes) > 0 && alone[i].Changes[0] != w.changes {
				out = append(out, violation{Obs: obsForeign, Props: []string{"C18"}, World: i, Step: len(sc.Steps), Op: "audit",
					Msg: fmt.Sprintf("storage %d sees other changes (%d nodes) than when the same history is executed on it alone in a process (%d nodes)", i, len(w.created), alone[i].Sizes[0])})
			}
		}
		u.stats.hit("changes of the storage compared with those of the same history alone in a process")
		return out
	}
	if prop != "C16" || len(viol) == 0 || sc.Config.Backend == "clew" {
		return viol
	}
	ref := clone(sc)
	ref.Config.Backend = "clew"
	onClew := map[string]bool{}
	for _, v := range evaluate(ref, false).viol {
		onClew[v.Obs] = true
	}
	out := []violation{}
	for _, v := range viol {
		if !onClew[v.Obs] && !v.hits("C16") {
			v.Props = append(append([]string{}, v.Props...), "C16")
			v.Msg += " (the same history is answered correctly on clew storage)"
		}
		out = append(out, v)
	}
	return out
}

type shrinker struct {
	prop     string
	obs      string
	best     *Scenario
	tries    int
	limit    int
	deadline time.Time
	judge    func(*Scenario) []violation
}

// enough ends the minimisation when its time is used up.
type enough struct{}

func (s *shrinker) fails(c *Scenario) bool {
	if s.tries >= s.limit || time.Now().After(s.deadline) {
		panic(enough{})
	}
	s.tries++
	for _, v := range s.judge(c) {
		if v.Obs == s.obs && v.hits(s.prop) {
			s.best = c
			return true
		}
	}
	return false
}

func shrink(prop, obs string, sc *Scenario, limit int, deadline time.Time, judge func(*Scenario) []violation) (small *Scenario, tries int) {
	s := &shrinker{prop: prop, obs: obs, best: sc, limit: limit, deadline: deadline, judge: judge}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(enough); !ok {
				panic(r)
			}
			small, tries = s.best, s.tries
		}
	}()
	for {
		before := s.tries
		size := weight(s.best)
		s.steps()
		s.faults()
		s.config()
		s.texts()
		if weight(s.best) >= size || s.tries == before {
			return s.best, s.tries
		}
	}
}

func weight(sc *Scenario) int {
	b, _ := json.Marshal(sc)
	return len(b)
}

// steps removes ever smaller runs of steps.
func (s *shrinker) steps() {
	for size := len(s.best.Steps); size >= 1; size /= 2 {
		for at := len(s.best.Steps) - size; at >= 0; at -= size {
			if at+size > len(s.best.Steps) {
				continue
			}
			c := clone(s.best)
			c.Steps = append(c.Steps[:at:at], c.Steps[at+size:]...)
			s.fails(c)
		}
	}
}

func (s *shrinker) faults() {
	for j := len(s.best.Sched) - 1; j >= 0; j-- {
		c := clone(s.best)
		c.Sched = append(c.Sched[:j:j], c.Sched[j+1:]...)
		s.fails(c)
	}
	for i := 0; i < len(s.best.Steps); i++ {
		for j := len(s.best.Steps[i].Faults) - 1; j >= 0; j-- {
			c := clone(s.best)
			f := c.Steps[i].Faults
			c.Steps[i].Faults = append(f[:j:j], f[j+1:]...)
			if s.fails(c) {
				continue
			}
			f = s.best.Steps[i].Faults
			if f[j].Kind == "outage" && f[j].Len > 1 {
				c = clone(s.best)
				c.Steps[i].Faults[j].Kind, c.Steps[i].Faults[j].Len = "err", 0
				s.fails(c)
			}
			if f[j].All {
				c = clone(s.best)
				c.Steps[i].Faults[j].All = false
				s.fails(c)
			}
		}
		for j := len(s.best.Steps[i].Readers) - 1; j >= 0; j-- {
			c := clone(s.best)
			r := c.Steps[i].Readers
			c.Steps[i].Readers = append(r[:j:j], r[j+1:]...)
			s.fails(c)
		}
		for j := len(s.best.Steps[i].Sched) - 1; j >= 0; j-- {
			if j >= len(s.best.Steps[i].Sched) {
				continue
			}
			c := clone(s.best)
			b := c.Steps[i].Sched
			c.Steps[i].Sched = append(b[:j:j], b[j+1:]...)
			s.fails(c)
		}
		if v := s.best.Steps[i].Via; v != "" && v != "look" {
			c := clone(s.best)
			c.Steps[i].Via, c.Steps[i].N = "look", 0
			s.fails(c)
		}
		if s.best.Steps[i].Do == "cross" {
			for j := range s.best.Steps[i].Pair {
				c := clone(s.best)
				c.Steps[i] = c.Steps[i].Pair[j]
				if s.fails(c) {
					break
				}
			}
		}
		if s.best.Steps[i].Do == "par" {
			c := clone(s.best)
			c.Steps[i].Do, c.Steps[i].Readers, c.Steps[i].Sched = "op", nil, nil
			s.fails(c)
		}
	}
}

func (s *shrinker) config() {
	try := func(change func(c *Config)) {
		c := clone(s.best)
		change(&c.Config)
		if c.Config != s.best.Config {
			s.fails(c)
		}
	}
	if s.prop != "C16" {
		try(func(c *Config) { c.Backend, c.IDs, c.Order = "clew", "", "" })
	}
	if s.best.Config.Backend != "clew" {
		try(func(c *Config) { c.IDs = "dense" })
		try(func(c *Config) { c.Order = "insertion" })
	}
	try(func(c *Config) { c.EarlyOpen = false })
	try(func(c *Config) { c.Object = "" })
	try(func(c *Config) { c.Partial = false })
	try(func(c *Config) { c.Mixed = false })
	for n := 1; n < s.best.Config.Clients; n++ {
		m := n
		before := s.best
		try(func(c *Config) { c.Clients = m })
		if s.best != before {
			break
		}
	}
}

// texts makes the texts short and plain.
func (s *shrinker) texts() {
	for i := 0; i < len(s.best.Steps); i++ {
		for _, which := range []int{0, 1} {
			for _, plain := range []string{"a", "b", "a b"} {
				get := func(st *Step) *string {
					if which == 0 {
						return &st.O
					}
					return &st.P
				}
				cur := *get(&s.best.Steps[i])
				if cur == "" || len(cur) <= len(plain) {
					continue
				}
				c := clone(s.best)
				*get(&c.Steps[i]) = plain
				if s.fails(c) {
					break
				}
			}
		}
	}
}
