package main

// Stretching: a series of similar writes that drives one dimension of the
// graph (length of a list, depth, fan-out of a trie node, length of a text)
// far beyond what mixed histories reach.

import "math"

var dimensions = []string{"facts", "children", "depth", "remarks", "word fan-out", "phrase fan-out", "properties of an object",
	"objects of a property", "same pair", "long word", "long phrase", "stories"}

var favourite = map[string][]string{
	"C09": {"facts"}, "C10": {"children", "depth"}, "C11": {"remarks"}, "C12": {"facts", "remarks"},
	"C13": {"same pair", "word fan-out", "phrase fan-out", "properties of an object", "objects of a property"},
	"C19": {"same pair", "word fan-out", "phrase fan-out", "properties of an object", "objects of a property", "long word", "long phrase"},
	"C01": {"long word", "long phrase", "word fan-out", "phrase fan-out"}, "C03": {"stories", "same pair"}, "C04": {"stories", "facts"},
}

// span draws a size from 6 to about 290, small ones and the neighbourhood of
// numbers that people like more often; now and then from 300 to about 1100.
func span(r *rng) int {
	if r.p(4) {
		return []int{300, 400, 500, 512, 600, 800, 1000, 1024}[r.n(8)] + 1 + r.n(60)
	}
	if r.p(20) {
		return []int{10, 16, 20, 32, 50, 64, 100, 128, 200, 256}[r.n(10)] + 1 + r.n(4)
	}
	return int(6 * math.Exp2(float64(r.n(5600))/1000))
}

// tired tells that the run has taken long enough.
func (g *generator) tired() bool { return g.w.u.clock > 40000000 }

func (g *generator) stretch() {
	r := g.r
	dim := dimensions[r.n(len(dimensions))]
	if f := favourite[g.p.prop]; len(f) > 0 && r.p(60) {
		dim = f[r.n(len(f))]
	}
	n := span(r)
	if (dim == "stories" || dim == "remarks" || dim == "same pair") && g.p.fault < 50 && r.p(2) {
		n = 4097 + r.n(200)
	}
	// adding to the last one is quick however many there are
	quick := false
	if few := g.p.fault < 50; few && (dim == "facts" && r.p(2) || dim == "children" && r.p(1)) {
		n, quick = 4097+r.n(100), r.p(90)
	}
	anchor := g.target()
	short := func() string { return string(g.alpha[r.n(len(g.alpha))]) }
	o, p := g.phrase(), g.phrase()
	prefix := g.word()
	rare := func(i int) string {
		// different for every i, and never a space
		c := rune(0x21 + i)
		if r.p(20) {
			c = rune(0x4e00 + i*37)
		}
		return string(c)
	}
	length := 0
	if dim == "long word" || dim == "long phrase" {
		if r.p(15) && n < 300 {
			n *= 4
		} else if r.p(4) {
			n = 4097 + r.n(200)
		} else if dim == "long word" && r.p(2) {
			n = 65537 + r.n(50)
		}
		text := ""
		for i := 0; i < n; i++ {
			if dim == "long phrase" && i > 0 {
				text += " "
			}
			text += short()
		}
		g.phrases = append(g.phrases, text)
		o, length, n = text, n, 1+r.n(3)
	}
	grown := 0
	for i := 0; i < n && !g.tired(); i++ {
		s := Step{Do: "op", Client: g.client(), UID: g.nextUID(), O: o, P: p, Via: g.via(), N: r.n(50)}
		switch {
		case anchor == nil || dim == "stories":
			s.Op = "create"
		case dim == "facts":
			s.Op, s.Target = "addfact", anchor.fact.story.any(r.n(1<<16)).uid
			if quick && i%400 > 0 {
				s.Target, s.Via = g.w.model.order[len(g.w.model.order)-1].uid, "held"
			}
		case dim == "children":
			s.Op, s.Target = "child", anchor.fact.story.any(r.n(1<<16)).uid
		case dim == "depth":
			s.Op, s.Target = "child", anchor.uid
		case dim == "remarks":
			s.Op, s.Target = "addremark", anchor.fact.remarks[r.n(len(anchor.fact.remarks))].uid
		default:
			s.Op, s.Target = []string{"create", "addfact", "child"}[r.n(3)], anchor.uid
		}
		switch dim {
		case "word fan-out":
			s.O = prefix + rare(i)
		case "phrase fan-out":
			s.O = prefix + " " + rare(i)
		case "properties of an object":
			s.P = rare(i)
		case "objects of a property":
			s.O = rare(i)
		case "facts", "children", "depth", "remarks", "stories":
			if r.p(50) {
				s.P = short()
			}
			if r.p(50) {
				s.O = short()
			}
		}
		switch s.Op {
		case "create":
			s.Target, s.Via, s.N = 0, "", 0
		case "addremark":
			s.O = ""
		}
		if r.p(g.p.fault) && r.p(20) {
			g.faults(&s)
		}
		g.do(s)
		if m := g.w.model.remarks[s.UID]; m != nil {
			grown++
			if anchor == nil || dim == "depth" {
				anchor = m
			}
		}
		if len(g.w.model.order) > 0 && r.p(4) {
			q := g.readStep()
			q.Target = anchor.uid
			g.do(q)
		}
		if r.p(1) {
			g.do(Step{Do: "reopen", Client: g.client()})
		}
	}
	// an old text once more, after all the others
	if anchor != nil && r.p(70) {
		k := g.w.model.order[r.n(len(g.w.model.order))]
		g.do(Step{Do: "op", Client: g.client(), UID: g.nextUID(), Op: "addfact", Target: anchor.uid, Via: "look", O: k.o, P: k.p})
	}
	size := "301-4096"
	switch {
	case grown > 4096:
		size = "more than 4096"
	case grown > 100 && grown <= 300:
		size = "101-300"
	case grown <= 10:
		size = "up to 10"
	case grown <= 30:
		size = "11-30"
	case grown <= 100:
		size = "31-100"
	}
	if dim == "long word" || dim == "long phrase" {
		size = "up to 300"
		if length > 65536 {
			size = "more than 65536"
		} else if length > 4096 {
			size = "more than 4096"
		} else if length > 300 {
			size = "301-4096"
		}
	}
	g.w.stats.hit("stretched: " + dim + ", " + size)
}
