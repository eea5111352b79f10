package main

// The work of an operation (C20): the number of storage calls it makes and of
// links it reads must not grow with content it has nothing to do with. It is
// measured on a fresh handle, without lasting effect, before and after a bulk
// of writes to other stories. That of a read may not depend on any text stored
// since. That of a write depends on the texts its search comes across: it is
// compared if there are no new ones with a word that begins with the same
// character, no new pairs with one of its texts and no new characters.

import (
	"fmt"
	"strings"
)

type gaugeSample struct{ n, remarks, phrases int }

// gauge measures the step's operation and compares the result with earlier
// measurements of the same operation in the same surroundings.
func (w *world) gauge(s *Step) {
	if w.cfg.Order == "random" || w.mode != "" || !w.present(s) {
		return // a search may take longer or shorter with the listing order
	}
	m := w.model
	key := fmt.Sprintf("%s of #%d", s.Op, s.Target)
	if isWrite(s.Op) {
		o := s.O
		if s.Op == "addremark" {
			o = m.remarks[s.Target].o
		}
		if !m.pairs[[2]string{o, s.P}] {
			return
		}
		key += fmt.Sprintf(" with %q %q, %s", s.O, s.P, m.near(o, s.P))
	}
	if s.Op != "create" {
		// its own story and those around it
		st := m.remarks[s.Target].fact.story
		for _, x := range append([]*mStory{st, st.parent}, st.family()...) {
			if x != nil {
				key += fmt.Sprintf(", %d %d %d", len(x.facts), len(x.children), x.broken)
				for _, f := range x.facts {
					key += fmt.Sprintf(" %d", len(f.remarks))
				}
			}
		}
	}
	w.rehearsing = true
	w.be.mark()
	ctx := &opctx{}
	step := *s
	step.Faults, step.Via = nil, "look"
	if s.Op == "create" {
		step.Via = ""
	}
	out := w.run(w.auditor(), &step, ctx)
	w.be.rewind()
	w.rehearsing = false
	w.note(904, uint64(ctx.work))
	if out.status != "ok" {
		return
	}
	if w.gauges == nil {
		w.gauges = map[string]gaugeSample{}
	}
	first, ok := w.gauges[key]
	if !ok {
		w.gauges[key] = gaugeSample{ctx.work, len(m.order), len(m.phrases)}
		return
	}
	w.log("gauge: %s takes %d, with %d remarks it took %d", show(&step), ctx.work, first.remarks, first.n)
	w.stats.hit("work compared after unrelated writes")
	if len(m.order) != first.remarks {
		w.stats.hit("work compared after unrelated writes: " + kindOf(s.Op))
		if len(m.phrases) != first.phrases {
			w.stats.hit("work compared after unrelated writes of new texts: " + kindOf(s.Op))
		}
	}
	if ctx.work > first.n+first.n/32+8 {
		w.violate(obsWork, &where{op: s.Op}, fmt.Sprintf("%s takes %d storage calls and links read with %d remarks stored; with %d remarks it took %d, and only other stories were written to since",
			show(&step), ctx.work, len(m.order), first.remarks, first.n))
	}
}

// near counts the texts which the search for a pair may come across.
func (m *model) near(o, p string) string {
	heads, all := map[rune]bool{}, map[rune]bool{}
	for _, w := range strings.Split(o+" "+p, " ") {
		heads[head(w)] = true
	}
	near := func(text string) bool {
		found := false
		for _, c := range text {
			all[c] = true
		}
		for _, w := range strings.Split(text, " ") {
			found = found || heads[head(w)]
		}
		return found
	}
	phrases, pairs, unsure := 0, 0, 0
	for text := range m.phrases {
		if near(text) {
			phrases++
		}
	}
	for pair := range m.maybe {
		if a, b := near(pair[0]), near(pair[1]); (a || b) && !m.pairs[pair] {
			unsure++
		}
	}
	for pair := range m.pairs {
		if pair[0] == o || pair[1] == p || pair[0] == p || pair[1] == o {
			pairs++
		}
	}
	return fmt.Sprintf("%d phrases, %d pairs near, %d in doubt, %d characters", phrases, pairs, unsure, len(all))
}

func head(w string) rune {
	for _, c := range w {
		return c
	}
	return 0
}

func kindOf(op string) string {
	if isWrite(op) {
		return "write"
	}
	return "read"
}

// family is the story's siblings and children.
func (s *mStory) family() []*mStory {
	out := append([]*mStory{}, s.children...)
	if s.parent != nil {
		out = append(out, s.parent.children...)
	}
	return out
}

// scale measures some operations, writes a lot elsewhere, and measures again.
func (g *generator) scale() {
	r, m := g.r, g.w.model
	for i := 0; i < 4 && len(m.order) < 4; i++ {
		g.do(g.writeStep())
	}
	if len(m.order) == 0 {
		return
	}
	gauges := []Step{}
	apart := map[*mStory]bool{}
	for i, n := 0, 2+r.n(5); i < n; i++ {
		t := g.target()
		s := Step{Do: "gauge", Op: pick(r, evenReads, readOrder), Target: t.uid, UID: -1}
		if r.p(50) {
			k := m.order[r.n(len(m.order))]
			s.Op = []string{"create", "addremark", "addfact", "child"}[r.n(4)]
			s.O, s.P = k.o, k.p
			switch s.Op {
			case "create":
				s.Target = 0
			case "addremark":
				s.O, s.P = "", t.p
			}
		}
		if s.Op != "create" {
			st := t.fact.story
			apart[st], apart[st.parent] = true, true
			for _, x := range st.family() {
				apart[x] = true
			}
		}
		gauges = append(gauges, s)
		g.do(s)
	}
	// one kind of write and one pair dominate, so that one dimension grows
	op := []string{"create", "addremark", "addfact", "child"}[r.n(4)]
	k := m.order[r.n(len(m.order))]
	if r.p(50) && gauges[0].Target != 0 {
		k = m.remarks[gauges[0].Target]
	}
	mixed := r.p(30)
	fresh := g.kin(k, gauges)
	var anchor *mRemark
	for i, n := 0, 25+r.n(20+r.n(140)); i < n; i++ {
		if mixed {
			op, k = []string{"create", "addremark", "addfact", "child"}[r.n(4)], m.order[r.n(len(m.order))]
		}
		s := Step{Do: "op", Client: g.client(), UID: g.nextUID(), Op: op, O: k.o, P: k.p, Via: []string{"held", "look"}[r.n(2)], N: r.n(50)}
		if mixed || anchor == nil {
			anchor = m.order[r.n(len(m.order))]
		}
		switch {
		case apart[anchor.fact.story]:
			s.Op, anchor = "create", nil
		case op == "addfact" || op == "child":
			s.Target = anchor.fact.story.any(r.n(1 << 16)).uid
		case op == "addremark":
			s.O, s.P, s.Target = "", anchor.p, anchor.uid
		}
		if s.Op == "create" {
			s.Target, s.Via, s.N = 0, "", 0
		}
		if fresh != nil {
			fresh(&s, i)
		}
		if r.p(g.p.fault) && r.p(25) {
			g.faults(&s)
		}
		g.do(s)
		if x := m.remarks[s.UID]; x != nil && s.Op == "create" {
			anchor = x
		}
		if r.p(2) {
			g.do(Step{Do: "reopen", Client: g.client()})
		}
	}
	for _, s := range gauges {
		g.do(s)
	}
}

// kin gives the writes of a bulk new texts which have something in common with
// those of the remark: an object, a property, or how they begin. In most bulks
// it gives none.
func (g *generator) kin(k *mRemark, gauges []Step) func(*Step, int) {
	r := g.r
	fashion := r.n(14)
	base := 0x4e00 + r.n(4000)
	if r.p(50) {
		base = 0x61
	}
	rare := func(i int) string { return string(rune(base + i)) }
	text := func(s *Step, o, p string) {
		if s.P = p; s.Op != "addremark" {
			s.O = o
		}
	}
	ws := strings.Split([]string{k.o, k.p}[r.n(2)], " ")
	switch fashion {
	case 0:
		return func(s *Step, i int) { text(s, g.phrase(), g.phrase()) }
	case 1:
		return func(s *Step, i int) { text(s, k.o, rare(i)) }
	case 2:
		return func(s *Step, i int) { text(s, rare(i), k.p) }
	case 3: // other last words, or one more word
		begin := strings.Join(ws[:len(ws)-r.n(2)], " ")
		if begin == "" {
			begin = ws[0]
		}
		return func(s *Step, i int) { text(s, begin+" "+rare(i), k.p) }
	case 4: // words that begin alike
		begin := []rune(ws[r.n(len(ws))])
		begin = begin[:1+r.n(len(begin))]
		return func(s *Step, i int) { text(s, string(begin)+rare(i), k.p) }
	case 5: // phrases that begin with the same word
		return func(s *Step, i int) { text(s, ws[0]+" "+rare(i)+" "+ws[0], k.p) }
	case 6, 7, 8: // words of known characters that begin as none of those of a write
		m := g.w.model
		writes := []Step{}
		for _, s := range gauges {
			if isWrite(s.Op) {
				writes = append(writes, s)
			}
		}
		if len(writes) > 0 {
			gauges = []Step{writes[r.n(len(writes))]}
		}
		taken, seen := map[rune]bool{}, map[rune]bool{}
		for _, s := range gauges {
			o := s.O
			if s.Op == "addremark" {
				o = m.remarks[s.Target].o
			}
			for _, w := range strings.Split(o+" "+s.P, " ") {
				taken[head(w)] = true
			}
		}
		letters, heads := []rune{}, []rune{}
		for _, k := range m.order {
			for _, c := range k.o + " " + k.p {
				if c != ' ' && !seen[c] {
					seen[c] = true
					letters = append(letters, c)
					if !taken[c] {
						heads = append(heads, c)
					}
				}
			}
		}
		if len(heads) == 0 {
			return nil
		}
		foreign := func() string {
			t := ""
			for i, n := 0, 1+r.n(2); i < n; i++ {
				if i > 0 {
					t += " "
				}
				t += string(heads[r.n(len(heads))])
				for j := r.n(4); j > 0; j-- {
					t += string(letters[r.n(len(letters))])
				}
			}
			return t
		}
		return func(s *Step, i int) { text(s, foreign(), foreign()) }
	}
	return nil
}
