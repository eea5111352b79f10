package main

// The size of the storage (C19): the same writes in another order, by other
// clients and with restarts in between must take the same number of nodes.

import "fmt"

// reordered is the scenario's writes in an order, by clients and with restarts
// that are a function of the scenario, each remark after the one it refers to.
// It is nil if the scenario contains anything but fault-free writes and reads.
func reordered(sc *Scenario) *Scenario {
	out := &Scenario{Config: sc.Config}
	key := func(uid, salt int) uint64 { return mix(mix(sc.Config.StoreSeed, uint64(uid)), uint64(salt)) }
	out.Config.Clients = 1 + int(key(0, 1)%3)
	out.Config.EarlyOpen = key(0, 2)%2 == 0
	rest := map[int]Step{}
	for _, s := range sc.Steps {
		if s.Do == "mode" && s.Mode != "" || len(s.Faults) > 0 {
			return nil
		}
		if (s.Do == "op" || s.Do == "par") && isWrite(s.Op) {
			rest[s.UID] = Step{Do: "op", Op: s.Op, UID: s.UID, Target: s.Target, O: s.O, P: s.P, Client: int(key(s.UID, 3) % 5)}
		}
	}
	for len(rest) > 0 {
		best, found := Step{}, false
		for _, s := range rest {
			if _, waits := rest[s.Target]; waits && s.Op != "create" {
				continue
			}
			if a, b := key(s.UID, 4), key(best.UID, 4); !found || a < b || a == b && s.UID < best.UID {
				best, found = s, true
			}
		}
		if !found {
			return nil // not a scenario that was generated
		}
		delete(rest, best.UID)
		if best.Op != "create" {
			best.Via = "look"
		}
		out.Steps = append(out.Steps, best)
		if key(best.UID, 5)%8 == 0 {
			out.Steps = append(out.Steps, Step{Do: "restart"})
		}
	}
	return out
}

// compareSize adds a violation if the other order takes another number of nodes.
func compareSize(sc *Scenario, u *universe) []violation {
	if len(u.viol) > 0 {
		return u.viol
	}
	other := reordered(sc)
	w := u.worlds[0]
	if other == nil || len(w.model.order) == 0 {
		return u.viol
	}
	a := fresh(&job{Kind: "eval", Scenario: other})
	if len(a.Viol) > 0 || len(a.Sizes) == 0 {
		return u.viol
	}
	u.stats.hit("storage size compared with another order of the same writes")
	if a.Written[0] != len(w.model.order) {
		return u.viol // shrunk: steps without a target
	}
	if a.Sizes[0] == len(w.created) {
		return u.viol
	}
	return append(u.viol, violation{Obs: obsSize, Props: []string{"C19"}, Step: len(sc.Steps), Op: "audit",
		Msg: fmt.Sprintf("the storage holds %d nodes after %d writes; after the same writes in another order (%s) it holds %d",
			len(w.created), len(w.model.order), orderOf(other), a.Sizes[0])})
}

func orderOf(sc *Scenario) string {
	out := ""
	for _, s := range sc.Steps {
		if s.Do == "op" {
			out += fmt.Sprintf(" #%d", s.UID)
		}
	}
	if len(out) > 400 {
		out = out[:400] + " ..."
	}
	return "order" + out
}
