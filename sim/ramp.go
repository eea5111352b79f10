package main

// Work in proportion (C26): what an operation takes, in storage calls and
// links read, is compared while what it is about grows eightfold. One step of
// a reading takes the same in a list of any length and on texts with any number
// of relatives; a whole list, a text, or a write takes at most in proportion
// to the length of the list or text.

import (
	"fmt"
	"strings"
)

type rampSample struct{ size, work int }

// steps which go from one remark to another, or to its texts
func isStep(op string) bool {
	switch op {
	case "text", "first", "nextfact", "nextstory", "nextremark", "look":
		return true
	}
	return false
}

// toll is the work of an operation that is then undone.
func (w *world) toll(s *Step) (int, *outcome) {
	step := *s
	step.Faults, step.Via = nil, "look"
	if s.Op == "create" {
		step.Via = ""
	}
	ctx := &opctx{}
	out := w.run(w.auditor(), &step, ctx)
	w.note(907, uint64(ctx.work))
	return ctx.work, out
}

// measure takes one sample. Those with the same key belong together.
func (w *world) measure(s *Step) {
	if w.cfg.Order == "random" || w.mode != "" || !w.present(s) {
		return
	}
	w.rehearsing = true
	w.be.mark()
	work, out := w.toll(s)
	w.be.rewind()
	w.rehearsing = false
	if out.status != "ok" {
		return
	}
	if w.ramps == nil {
		w.ramps = map[string][]rampSample{}
	}
	size := len(w.model.order) + w.failedWrites
	key := fmt.Sprint(s.Key, s.Op, out.has)
	x := w.ramps[key]
	if n := len(x); n > 0 && x[n-1].size >= size {
		return
	}
	x = append(x, rampSample{size, work})
	w.ramps[key] = x
	w.log("measured: %s takes %d after %d writes (%s)", show(s), work, size, s.Key)
	w.weigh(s, x, fmt.Sprintf("%s (%s), after as many writes", show(s), s.Key))
}

// weigh compares the newest sample with the earlier ones.
func (w *world) weigh(s *Step, x []rampSample, what string) {
	n := len(x)
	if isStep(s.Op) && n > 1 && x[n-1].size >= x[0].size+20 {
		w.stats.hit("work of a step compared as its surroundings grew")
		if x[n-1].work > x[0].work+x[0].work/2+16 {
			w.violate(obsRamp, &where{op: s.Op}, fmt.Sprintf("%s: takes %d storage calls and links read at size %d, it took %d at size %d", what, x[n-1].work, x[n-1].size, x[0].work, x[0].size))
		}
	}
	if !isStep(s.Op) && n > 3 && x[1].size >= x[0].size+6 && x[n-1].size-x[n-2].size >= 2*(x[1].size-x[0].size) {
		w.stats.hit("growth of work compared: " + kindOf(s.Op))
		more, size := x[n-1].work-x[n-2].work, x[n-1].size-x[n-2].size
		size0 := x[1].size - x[0].size
		more0 := max(x[1].work-x[0].work, 8*size0)
		if more > 64 && (more-64)*size0*2 > 3*more0*size {
			w.violate(obsRamp, &where{op: s.Op}, fmt.Sprintf("%s: takes %d storage calls and links read more at size %d than at %d, and up to %d more at %d than at %d: more than in proportion",
				what, more, x[n-1].size, x[n-2].size, more0, x[1].size, x[0].size))
		}
	}
}

// ramp stores and reads texts of s.N, 2, 4 and 8 times as many repetitions of
// a period, all of which is undone.
func (w *world) ramp(s *Step) {
	if w.cfg.Order == "random" || w.mode != "" || !w.present(s) || s.N == 0 {
		return
	}
	w.rehearsing = true
	defer delete(w.model.remarks, -7)
	samples := map[string][]rampSample{}
	ops := []string{s.Op, s.Op, "text", "output"}
	names := []string{"storing a new text", "storing a stored text", "reading a text", "printing a text"}
	ok := true
	for i := 1; i <= 8 && ok; i *= 2 {
		text := strings.TrimSuffix(strings.Repeat(s.P, s.N*i), " ")
		w.be.mark()
		made := &Step{Op: s.Op, UID: -7, Target: s.Target, O: text, P: text}
		for j, name := range names {
			step := made
			if j > 1 {
				step = &Step{Op: ops[j], Target: -7, UID: -1}
			}
			work, out := w.toll(step)
			if ok = out.status == "ok"; !ok {
				break
			}
			if j < 2 {
				w.model.remarks[-7] = &mRemark{uid: -7, id: out.id}
			}
			samples[name] = append(samples[name], rampSample{s.N * i * len([]rune(s.P)), work})
		}
		w.be.rewind()
	}
	w.rehearsing = false
	if !ok {
		return
	}
	w.log("texts of %q up to %d times, by %s: %v", s.P, 8*s.N, s.Op, samples)
	for j, name := range names {
		if x := samples[name]; len(x) == 4 {
			w.weigh(&Step{Op: map[bool]string{true: s.Op, false: "output"}[j < 2]}, x, fmt.Sprintf("%s that repeats %q", name, s.P))
			w.stats.hit("work compared with the length of a text: " + name)
		}
	}
}

var rampDims = []string{"facts", "children", "depth", "remarks", "same pair", "properties of an object", "objects of a property", "word fan-out", "phrase fan-out"}

// ramps lets one dimension grow eightfold and takes samples on the way.
func (g *generator) ramps() {
	r, w := g.r, g.w
	for i, n := 0, 1+r.n(2); i < n; i++ {
		period := ""
		for j, k := 0, 1+r.n(5); j < k; j++ {
			period += string(g.alpha[r.n(len(g.alpha))])
			if r.p(20) {
				period += " "
			}
		}
		if strings.TrimSpace(period) == "" || strings.HasPrefix(period, " ") || strings.Contains(period, "  ") {
			continue
		}
		s := Step{Do: "ramp", Op: "create", P: period, N: 1 + (10+r.n(60))/len([]rune(period)), UID: -1}
		if len(w.model.order) > 0 && r.p(60) {
			s.Op, s.Target = []string{"addremark", "addfact", "child"}[r.n(3)], g.target().uid
		}
		g.do(s)
	}
	if r.p(40) {
		return
	}
	dim := rampDims[r.n(len(rampDims))]
	o, p := g.phrase(), g.phrase()
	if r.p(75) { // so that the list counts more than its texts
		o, p = string(g.alpha[r.n(len(g.alpha))]), string(g.alpha[r.n(len(g.alpha))])
	}
	uids := []int{}
	write := func(s Step) bool {
		s.Do, s.UID, s.N = "op", g.nextUID(), r.n(50)
		g.do(s)
		if w.model.remarks[s.UID] == nil {
			return false
		}
		uids = append(uids, s.UID)
		return true
	}
	who := g.client()
	if !write(Step{Op: "create", Client: who, O: o, P: p}) {
		return
	}
	rare := func(i int) string { return string(rune(0x4e00 + i)) }
	prefix := g.word()
	wide := strings.Contains(dim, " of ") || strings.Contains(dim, "fan-out") || dim == "same pair"
	grow := map[string]string{"facts": "addfact", "children": "child", "depth": "child", "remarks": "addremark"}[dim]
	if grow == "" {
		grow = []string{"create", "create", "addfact", "child"}[r.n(4)]
	}
	place, only := r.n(3), r.p(50)
	texts := func(s *Step, i int) {
		s.O, s.P = o, p
		switch dim {
		case "properties of an object":
			s.P = rare(i)
		case "objects of a property":
			s.O = rare(i)
		case "word fan-out":
			s.O = prefix + rare(i)
		case "phrase fan-out":
			s.O = prefix + " " + rare(i)
		}
	}
	// what is measured
	type probe struct {
		op   string
		role int // -1: first, 100: last, otherwise a percentage
		text int
	}
	probes := []probe{}
	for i, n := 0, 4+r.n(5); i < n; i++ {
		x := probe{pick(r, evenReads, readOrder), []int{-1, 100, 20 + r.n(80)}[r.n(3)], -1}
		if r.p(45) {
			x.op = []string{"create", "addremark", "addfact", "child"}[r.n(4)]
			if grow != "create" && r.p(30) {
				x.op = grow
			}
			if wide && r.p(70) {
				x.text = []int{5000, 1 + r.n(6)}[r.n(2)]
			}
		}
		probes = append(probes, x)
	}
	n := 8 + r.n(16)
	if r.p(15) {
		n = 24 + r.n(40)
	}
	for stage := 1; stage <= 8; stage *= 2 {
		for tries := 0; len(uids) < n*stage && tries < 2*n*stage+20 && !g.tired(); tries++ {
			s := Step{Op: grow, Client: who, Target: uids[0], Via: "held"}
			if grow == "create" {
				s.Target, s.Via = 0, ""
			} else if dim == "depth" || place == 1 && dim != "children" {
				s.Target = uids[len(uids)-1]
			} else if place == 2 && dim != "children" && dim != "depth" {
				s.Target = uids[r.n(len(uids))]
			}
			if grow == "child" && dim != "depth" {
				s.Target = uids[0]
			}
			texts(&s, len(uids))
			if grow == "addremark" {
				s.O = ""
			}
			if !only {
				s.Client = g.client()
			}
			if r.p(g.p.fault) && r.p(8) {
				s.Do = "op"
				s.UID = -1
				g.faults(&s)
			}
			write(s)
		}
		if len(uids) < n*stage {
			return
		}
		for i, x := range probes {
			t := uids[0]
			if x.role == 100 {
				t = uids[len(uids)-1]
			} else if x.role >= 0 {
				t = uids[x.role*len(uids)/100]
			}
			s := Step{Do: "measure", Op: x.op, Target: t, UID: -1, Key: fmt.Sprintf("%s %d", dim, i)}
			if isWrite(x.op) {
				s.O, s.P = o, p
				if x.text >= 0 {
					texts(&s, x.text)
				}
				if x.op == "addremark" {
					s.O = ""
				}
				if x.op == "create" {
					s.Target = 0
				}
			}
			g.do(s)
		}
	}
	w.stats.hit("grown eightfold: " + dim)
}
