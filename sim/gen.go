package main

// The seeded generator: it grows a scenario step by step against a live world
// and decides, for every operation, who issues it, how the target is reached,
// which texts it carries, which storage calls fail and where a process dies,
// and how a write in progress interleaves with readers. All of it is written
// down as plain data, so that replaying needs no randomness.

import (
	"strconv"
	"strings"
)

type profile struct {
	steps     [2]int
	clients   [2]int
	early     int    // % of runs whose handles are all opened before first use
	clew      int    // % of runs on the real clew storage
	writes    [4]int // weights: create, addremark, addfact, child
	write     int    // % of steps that write
	fault     int    // % of writes with faults
	readFault int    // % of reads with faults
	kinds     map[string]int
	all       int // % of crashes that take every process down
	uniform   int // % of faults placed uniformly over all calls rather than on mutating ones
	retry     int // % chance to retry a faulted write, again and again
	mode      int // % of steps that change the storage's mode
	modes     []string
	par       int // % of steps that are a write in progress with readers
	reopen    int
	restart   int
	bogus     int
	malformed int // % of writes with a malformed text
	audit     int
	review    int
	firstUse  int // % of runs that begin with failures during first use
	reuse     int // % of texts taken from those already used
	ahead     int // % of steps that look up an identifier before it is handed out
	reads     map[string]int
	worlds    int // storages in the process
	cross     int // % of steps during which all storages are in use
	sweep     int // % of steps that try one operation with a fault at one call after the other
	stretch   int // % of runs that drive one dimension far
	taping    bool
	scale     int // % of runs that measure work before and after a bulk of writes
	ramp      int // % of runs in which one dimension grows eightfold while work is measured
	soak      int // % of runs that compare memory before and after many operations
	prop      string
	big       int // % of runs with many more steps and small texts
}

var evenReads = map[string]int{"text": 4, "first": 2, "nextfact": 3, "nextstory": 3, "nextremark": 2, "list": 2, "sibs": 2, "output": 2}

var anyFault = map[string]int{"err": 4, "lost": 4, "outage": 2, "crash": 4, "crash-after": 2}
var failOnly = map[string]int{"err": 4, "lost": 3, "outage": 2}
var crashOnly = map[string]int{"crash": 4, "crash-after": 2}

func base() profile {
	return profile{
		steps: [2]int{6, 26}, clients: [2]int{1, 3}, early: 50, clew: 40,
		writes: [4]int{3, 2, 4, 3}, write: 60, fault: 25, readFault: 5, kinds: anyFault, all: 40,
		uniform: 30, retry: 50, par: 4, reopen: 4, restart: 3, bogus: 2, malformed: 2, audit: 4,
		review: 2, firstUse: 15, reuse: 50, reads: evenReads, big: 3, stretch: 6, sweep: 1, scale: 2, ahead: 1,
	}
}

func profileOf(prop string) profile {
	p := base()
	p.prop = prop
	switch prop {
	case "C01":
		p.malformed, p.reuse, p.reads = 6, 40, map[string]int{"text": 10, "first": 1, "nextfact": 1, "output": 1}
	case "C02":
		p.fault, p.readFault, p.malformed, p.clients, p.firstUse, p.big = 0, 0, 12, [2]int{1, 3}, 0, 8
		p.mode, p.write, p.bogus = 0, 70, 4
	case "C03":
		p.clients, p.reopen, p.restart, p.fault, p.review, p.ahead = [2]int{1, 4}, 4, 4, 25, 12, 3
	case "C04":
		p.bogus, p.fault, p.ahead = 30, 25, 4
	case "C05":
		p.kinds, p.fault, p.all, p.audit, p.sweep = crashOnly, 45, 60, 6, 2
	case "C06":
		p.fault, p.retry, p.par, p.sweep = 55, 30, 2, 2
	case "C07":
		p.fault, p.retry, p.firstUse, p.mode, p.modes = 50, 80, 60, 4, []string{"down", "readonly", "full"}
	case "C08":
		p.kinds, p.fault, p.readFault, p.uniform, p.write, p.sweep = failOnly, 70, 75, 65, 45, 6
		p.mode, p.modes = 4, []string{"down", "readonly", "full"}
	case "C09":
		p.writes = [4]int{2, 2, 10, 2}
		p.reads = map[string]int{"first": 3, "nextfact": 6, "list": 4, "text": 1}
	case "C10":
		p.writes = [4]int{2, 1, 2, 10}
		p.reads = map[string]int{"first": 1, "nextstory": 6, "sibs": 4, "text": 1, "list": 1}
	case "C11":
		p.writes = [4]int{2, 10, 4, 2}
		p.reads = map[string]int{"nextremark": 8, "text": 2, "first": 1, "nextfact": 2, "list": 1, "nextstory": 1}
	case "C12":
		p.reads = map[string]int{"output": 10, "text": 1, "first": 1}
		p.writes = [4]int{3, 4, 4, 2}
	case "C13":
		p.reuse, p.fault, p.write, p.reopen, p.restart, p.big = 80, 20, 85, 6, 5, 6
	case "C14":
		p.mode, p.modes, p.write, p.reopen, p.restart = 14, []string{"readonly", "readonly", "full"}, 40, 8, 5
		p.bogus = 8
	case "C15":
		p.par, p.clients, p.fault, p.steps = 55, [2]int{2, 4}, 35, [2]int{6, 16}
	case "C16":
		p.clew, p.fault, p.big = 0, 10, 6
	case "C18":
		p.worlds, p.cross, p.clients, p.kinds, p.fault = 2, 35, [2]int{1, 2}, failOnly, 15
		p.firstUse, p.steps, p.stretch, p.scale, p.sweep = 30, [2]int{4, 16}, 2, 0, 0
	case "C19":
		p.fault, p.readFault, p.malformed, p.firstUse, p.mode, p.bogus, p.par = 0, 0, 0, 0, 0, 1, 3
		p.write, p.reuse, p.reopen, p.restart, p.big, p.audit = 90, 55, 6, 5, 8, 1
	case "C20":
		p.scale, p.stretch, p.big, p.steps, p.audit, p.clients = 100, 2, 0, [2]int{2, 10}, 1, [2]int{1, 2}
		p.mode, p.par, p.readFault, p.reuse = 0, 1, 0, 60
	case "C21":
		p.fault, p.readFault, p.firstUse, p.par, p.sweep, p.scale = 0, 0, 0, 0, 0, 0
		p.write, p.reopen, p.restart, p.mode, p.modes, p.audit = 75, 5, 4, 2, []string{"readonly", "full"}, 1
	case "C22":
		p.fault, p.retry, p.firstUse, p.sweep, p.readFault, p.malformed, p.bogus = 65, 60, 40, 6, 0, 0, 0
		p.write, p.audit, p.par, p.scale, p.stretch = 90, 1, 0, 0, 1
	case "C25":
		p.clients, p.reopen, p.restart, p.fault, p.reuse, p.write = [2]int{2, 4}, 12, 6, 25, 60, 60
		p.scale, p.stretch, p.sweep = 0, 3, 0
	case "C26":
		p.ramp, p.scale, p.stretch, p.big, p.steps, p.audit, p.clients = 100, 0, 0, 0, [2]int{1, 8}, 1, [2]int{1, 3}
		p.mode, p.par, p.readFault, p.sweep = 0, 0, 0, 0
	case "C24":
		p.soak, p.scale, p.stretch, p.big, p.steps, p.sweep, p.firstUse = 100, 0, 0, 0, [2]int{2, 6}, 0, 0
	case "C23":
		p.fault, p.firstUse, p.scale, p.stretch, p.sweep, p.par = 20, 0, 0, 1, 0, 2
		p.steps, p.clients, p.reuse, p.write, p.audit, p.bogus = [2]int{4, 16}, [2]int{1, 2}, 80, 60, 1, 4
	case "C17":
		p.clients, p.reopen, p.fault, p.readFault, p.ahead = [2]int{2, 5}, 6, 15, 10, 5
	}
	return p
}

type generator struct {
	r       *rng
	p       profile
	w       *world
	u       *universe
	index   int
	cfg     Config
	left    int
	sc      *Scenario
	uid     int
	words   []string
	phrases []string
	alpha   []rune
	small   bool
	focus   int // % of targets taken from one story or its children
	long    int // % of words and phrases that are long
	twin    int // % of writes whose object and property are equal
}

func pick(r *rng, weights map[string]int, order []string) string {
	total := 0
	for _, k := range order {
		total += weights[k]
	}
	n := r.n(total)
	for _, k := range order {
		if n -= weights[k]; n < 0 {
			return k
		}
	}
	return order[0]
}

var faultOrder = []string{"err", "lost", "outage", "crash", "crash-after"}
var readOrder = []string{"text", "first", "nextfact", "nextstory", "nextremark", "list", "sibs", "output"}

func between(r *rng, span [2]int) int { return span[0] + r.n(span[1]-span[0]+1) }

// generate makes and executes one run.
func generate(seed uint64, p profile, st *stats, tracing bool) (*universe, *Scenario) {
	r := newRng(seed)
	sc := &Scenario{}
	gens := []*generator{}
	if p.worlds > 1 {
		p.worlds = []int{2, 2, 2, 2, 2, 2, 3, 3, 3, 4}[r.n(10)]
	}
	for i := 0; i < max(1, p.worlds); i++ {
		g := newGenerator(r, p, sc)
		if i > 0 {
			sc.Peers = append(sc.Peers, g.cfg)
			if r.p(60) {
				// much the same texts on all storages
				g.words, g.phrases, g.alpha = gens[0].words, gens[0].phrases, gens[0].alpha
			}
		} else {
			sc.Config = g.cfg
		}
		g.index = i
		gens = append(gens, g)
	}
	u := newUniverse(sc, st, tracing)
	for i, g := range gens {
		g.u, g.w = u, u.worlds[i]
		if p.taping {
			g.w.tape = &tape{}
		}
		if g.cfg.Old > 0 {
			g.inherit()
		}
	}
	left := 0
	for _, g := range gens {
		left += g.left
	}
	for _, g := range gens {
		if r.p(g.p.firstUse) {
			g.firstUse()
		}
	}
	far := -1
	if r.p(p.stretch) {
		far = 1 + r.n(left)
	}
	wide := -1
	if r.p(p.scale) {
		wide = 1 + r.n(left)
	}
	for ; left > 0 && !gens[0].tired(); left-- {
		g := gens[r.n(len(gens))]
		if left == wide {
			g.scale()
		}
		if left == far {
			g.stretch()
		}
		if len(gens) > 1 && r.p(g.p.cross) {
			crossStep(r, sc, u, gens)
		} else {
			g.step()
		}
	}
	for _, g := range gens {
		g.finish()
		if p.ramp > 0 && r.p(p.ramp) {
			g.ramps()
		}
		if p.soak > 0 && r.p(p.soak) {
			g.soaks()
		}
	}
	return u, sc
}

// inherit has the run begin with what an old graph holds.
func (g *generator) inherit() {
	g.uid = g.w.inherited
	for _, m := range g.w.model.order {
		for _, text := range []string{m.o, m.p} {
			if len(g.phrases) < 60 {
				g.keep(text)
			}
			for _, word := range strings.Split(text, " ") {
				if len(g.words) < 100 {
					g.remember(word)
				}
				for _, c := range word {
					if g.r.p(5) {
						g.alpha = append(g.alpha, c)
					}
				}
			}
		}
	}
	g.do(Step{Do: "audit"})
}

// crossStep has every storage work on an operation at the same time.
func crossStep(r *rng, sc *Scenario, u *universe, gens []*generator) {
	s := Step{Do: "cross"}
	calls := []int{}
	for _, g := range gens {
		op := g.writeStep()
		if len(g.w.model.order) > 0 && r.p(30) {
			op = g.readStep()
		}
		op.World = g.index
		kinds := g.rehearse(op)
		if r.p(g.p.fault) {
			g.faults(&op)
		}
		calls = append(calls, len(kinds))
		s.Pair = append(s.Pair, op)
	}
	for i, n := 0, 2+r.n(30); i < n; i++ {
		k := r.n(len(gens))
		s.Sched = append(s.Sched, Burst{k, 1 + r.n(1+calls[k]/(1+r.n(8)))})
	}
	sc.Steps = append(sc.Steps, s)
	u.execute(&s)
}

// newGenerator draws what is particular to one storage of a run.
func newGenerator(r *rng, p profile, sc *Scenario) *generator {
	cfg := Config{Backend: "mem", Clients: between(r, p.clients), EarlyOpen: r.p(p.early), StoreSeed: r.u64()}
	if r.p(p.clew) {
		cfg.Backend = "clew"
	} else {
		cfg.IDs = []string{"dense", "gaps", "scramble", "down", "wide", "stride"}[r.n(6)]
		cfg.Order = []string{"insertion", "reverse", "random"}[r.n(3)]
	}
	if n := r.n(100); n < 40 {
		cfg.Object = "shared"
	} else if n < 50 {
		cfg.Object = "value"
	}
	cfg.Mixed = p.prop == "C25"
	cfg.Partial = cfg.StoreSeed%5 < 2
	// swarm: switch some features off in some runs
	for _, f := range []*int{&p.reopen, &p.restart, &p.par, &p.mode, &p.malformed, &p.bogus, &p.audit, &p.readFault} {
		if r.p(30) {
			*f = 0
		}
	}
	if r.p(12) {
		p.fault = 0
	}
	if r.p(20) {
		// one kind of write dominates
		p.writes[r.n(4)] += 12
	}
	if (p.prop == "C20" || p.prop == "C21" || p.prop == "C26") && cfg.Order == "random" {
		cfg.Order = "insertion"
	}
	cfg.Thrift = p.prop == "C22"
	if p.prop == "C23" {
		cfg.Old = 1 + r.n(oldGraphs)
	}
	if (cfg.Old > 0 || p.taping) && cfg.Backend == "mem" {
		// Which of the two bits is which is told from the order of their
		// identifiers: a storage that is copied has to keep it.
		cfg.IDs = []string{"dense", "gaps", "stride"}[r.n(3)]
	}
	g := &generator{r: r, p: p, sc: sc, cfg: cfg}
	g.alphabet()
	g.long, g.twin = []int{2, 2, 6, 20}[r.n(4)], []int{3, 3, 30}[r.n(3)]
	if r.p(25) {
		g.focus = 50 + r.n(50)
	}
	n := between(r, p.steps)
	if r.p(p.big) {
		n, g.small = n*4, true
	}
	g.left = n
	return g
}

func (g *generator) do(s Step) *Step {
	s.World = g.index
	g.sc.Steps = append(g.sc.Steps, s)
	g.u.execute(&s)
	return &g.sc.Steps[len(g.sc.Steps)-1]
}

func (g *generator) nextUID() int { g.uid++; return g.uid }

// ---- texts

// peculiar code points: those that text libraries like to treat specially, and
// families they take for one another.
var peculiar = func() (out []rune) {
	for _, family := range []string{
		"\u00e9 e \u0301 \u00c9 E", "\u00c5 \u212b A \u030a \u00e5", "k K \u212a", "s S \u017f \u00df \u1e9e", "i I \u0130 \u0131 \u0307",
		"\u03c3 \u03c2 \u03a3", "\ufb01 f i", "\uff21 \uff41 A a", "\u03a9 \u2126", "\u00b5 \u03bc", "\u01c4 \u01c5 \u01c6", "\u1100 \u1161 \uac00",
		"\u00b2 2 \u0662 \u0968", "\u2212 - \u2010 \u2011 \u00ad \u2013", "\u2018 \u2019 ' \u02bc", "\u200b \u200c \u200d \u2060 \ufeff",
		"\u200e \u200f \u202a \u202e \u2066 \u061c", "\u0085 \u00a0 \u1680 \u2003 \u2028 \u2029 \u202f \u205f \u3000 \u180e",
		"\U0001f468 \u200d \U0001f469 \ufe0f \ufe0e \U0001f3fb", "\U0001f1e9 \U0001f1ea", "\U000e0041 \U000e0100 \U000e0001",
		"\ud7ff \ue000 \uf8ff \ufdd0 \ufdef \ufffe \uffff \ufffd \ufffc \ufff9", "\U0001fffe \U0001ffff \U00020000 \U0002fffe \U000f0000 \U0010fffd \U0010fffe \U0010ffff",
		"\x7f \u0080 \u009f \u00ff \u0100 \u07ff \u0800 \u0fff \u1000 \uffff \U00010000", "\x01 \x1b \x1c \x1f \x00 \t \n \v \f \r",
	} {
		for _, c := range strings.Split(family, " ") {
			for _, c := range c {
				out = append(out, c)
			}
		}
		out = append(out, -1)
	}
	return out
}()

func (g *generator) alphabet() {
	r := g.r
	switch r.n(8) {
	case 6:
		// two or three families and their neighbours
		for i, n := 0, 2+r.n(2); i < n; i++ {
			for j, k := r.n(len(peculiar)), 4+r.n(8); k > 0; j, k = j+1, k-1 {
				if c := peculiar[j%len(peculiar)]; c >= 0 {
					g.alpha = append(g.alpha, c)
				}
			}
		}
		g.alpha = append(g.alpha, 'a')
	case 0:
		g.alpha = []rune{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}
	case 1:
		g.alpha = []rune("01abc`A")
	case 2:
		g.alpha = []rune("aÂãāÃáa\u0301")
	case 3:
		for i := 0; i < 12; i++ {
			var c rune
			switch r.n(4) {
			case 0:
				c = rune(0x21 + r.n(0x5e))
			case 1:
				c = rune(0x80 + r.n(0x700))
			case 2:
				c = rune(0x800 + r.n(0xd800-0x800))
			default:
				c = rune(0xe000 + r.n(0x110000-0xe000))
			}
			g.alpha = append(g.alpha, c)
		}
		g.alpha = append(g.alpha, 0x10ffff, 0xfffd, 0xfeff)
	case 4:
		g.alpha = []rune("%sd\\\"'<>&{}[]()$/|:;,#~^*?+=@`_.-n0")
	case 5:
		g.alpha = []rune("\t\n\r\v\u00a0\u3000\u2028.,ab\u0085\u200b")
	default:
		g.alpha = []rune("abcdefghijklmnopqrstuvwxyzABC'-!?0123456789")
	}
	if r.p(25) && len(g.alpha) > 4 {
		g.alpha = g.alpha[:2+r.n(3)]
	}
}

func (g *generator) word() string {
	r := g.r
	if len(g.words) > 0 && r.p(55) {
		w := []rune(g.words[r.n(len(g.words))])
		if !r.p(35) {
			return string(w)
		}
		// a prefix, an extension, or a near miss of a known word
		switch r.n(4) {
		case 0:
			if len(w) > 1 {
				w = w[:len(w)-1]
			}
		case 1:
			w = append(append([]rune{}, w...), g.alpha[r.n(len(g.alpha))])
		case 2:
			w = append([]rune{}, w...)
			w[r.n(len(w))] = g.alpha[r.n(len(g.alpha))]
		default:
			w = append([]rune{w[0]}, w...)
		}
		return g.remember(string(w))
	}
	n := 1 + r.n(4)
	if g.small {
		n = 1
	} else if r.p(g.long) {
		n = 5 + r.n(36)
	}
	w := make([]rune, n)
	for i := range w {
		w[i] = g.alpha[r.n(len(g.alpha))]
	}
	return g.remember(string(w))
}

func (g *generator) remember(w string) string {
	g.words = append(g.words, w)
	return w
}

func (g *generator) phrase() string {
	r := g.r
	if len(g.phrases) > 0 && r.p(g.p.reuse) {
		ph := g.phrases[r.n(len(g.phrases))]
		if r.p(70) {
			return ph
		}
		ws := strings.Split(ph, " ")
		switch r.n(3) {
		case 0:
			if len(ws) > 1 {
				ws = ws[:len(ws)-1]
			}
		case 1:
			ws = append(append([]string{}, ws...), g.word())
		default:
			ws = append([]string{}, ws...)
			ws[r.n(len(ws))] = g.word()
		}
		return g.keep(strings.Join(ws, " "))
	}
	n := 1 + r.n(3)
	if g.small {
		n = 1 + r.n(2)
	} else if r.p(g.long) {
		n = 4 + r.n(20)
	}
	ws := make([]string, n)
	for i := range ws {
		ws[i] = g.word()
	}
	return g.keep(strings.Join(ws, " "))
}

func (g *generator) keep(p string) string {
	g.phrases = append(g.phrases, p)
	return p
}

func (g *generator) malform(t string) string {
	switch g.r.n(5) {
	case 0:
		return ""
	case 1:
		return t + " "
	case 2:
		return " " + t
	case 3:
		return t + "  " + t
	}
	return " "
}

// ---- steps

func (g *generator) target() *mRemark {
	o := g.w.model.order
	if len(o) == 0 {
		return nil
	}
	if g.focus > 0 && g.r.p(g.focus) {
		// the first story and what hangs below it: long lists
		st := o[0].fact.story
		if n := len(st.children); n > 0 && g.r.p(40) {
			st = st.children[g.r.n(n)]
		}
		return st.any(g.r.n(200))
	}
	if g.r.p(40) {
		return o[len(o)-1-g.r.n(min(len(o), 3))]
	}
	return o[g.r.n(len(o))]
}

func (g *generator) via() string {
	return []string{"held", "held", "kept", "look", "look", "walk", "sib", "first"}[g.r.n(8)]
}

func (g *generator) client() int { return g.r.n(g.cfg.Clients) }

func (g *generator) writeStep() Step {
	r := g.r
	s := Step{Do: "op", Client: g.client(), UID: g.nextUID(), O: g.phrase(), P: g.phrase(), Via: g.via(), N: r.n(50)}
	if r.p(g.twin) {
		s.P = s.O
	}
	t := g.target()
	total := 0
	for _, x := range g.p.writes {
		total += x
	}
	n := r.n(total)
	for i, op := range []string{"create", "addremark", "addfact", "child"} {
		if n -= g.p.writes[i]; n < 0 {
			s.Op = op
			break
		}
	}
	if t == nil {
		s.Op = "create"
	} else {
		s.Target = t.uid
		if s.Op == "child" && r.p(60) {
			// several children of one parent rather than ever deeper trees
			if p := t.fact.story.parent; p != nil {
				s.Target = p.any(r.n(50)).uid
			}
		}
	}
	switch s.Op {
	case "create":
		s.Target, s.Via, s.N = 0, "", 0
	case "addremark":
		s.O = ""
	}
	if r.p(g.p.malformed) && r.p(35) {
		bad := func(t string) string {
			at := r.n(len(t) + 1)
			junk := []string{"\xff", "\x80", "\xc3", "\xe2\x82", "\xf0\x9f\x98", "\xed\xa0\x80", "\xc0\x80"}[r.n(7)]
			return t[:at] + junk + t[at:]
		}
		if r.p(60) || s.Op == "addremark" {
			s.P = bad(s.P)
		} else {
			s.O = bad(s.O)
		}
		s.O, s.P, s.Raw = strconv.Quote(s.O), strconv.Quote(s.P), true
	} else if r.p(g.p.malformed) {
		if r.p(50) && s.Op != "addremark" {
			s.O = g.malform(s.O)
		} else {
			s.P = g.malform(s.P)
		}
	}
	return s
}

func (g *generator) readStep() Step {
	r := g.r
	t := g.target()
	return Step{Do: "op", Client: g.client(), Op: pick(r, g.p.reads, readOrder), Target: t.uid, Via: g.via(), N: r.n(50)}
}

func (g *generator) bogusStep() Step {
	return Step{Do: "op", Client: g.client(), Op: "bogus", Bogus: []string{"zero", "unused", "huge", "internal", "internal", "internal", "raw", "raw", "alias"}[g.r.n(9)], N: g.r.n(1 << 16)}
}

// rehearse runs the step without faults on a copy of the storage and returns
// the kinds of its storage calls.
func (g *generator) rehearse(s Step) []byte {
	kinds, _ := g.foresee(s)
	return kinds
}

// foresee is rehearse and what the step gives.
func (g *generator) foresee(s Step) ([]byte, *outcome) {
	w := g.w
	if !w.present(&s) {
		return nil, nil
	}
	if s.Op == "bogus" {
		rs, ok := w.resolve(&s)
		if !ok {
			return nil, nil
		}
		s = rs
	}
	s = *s.plain()
	s.Faults = nil
	w.rehearsing = true
	w.be.mark()
	mode := w.mode
	w.mode = ""
	ctx := &opctx{record: true}
	out := w.run(w.auditor(), &s, ctx)
	w.mode = mode
	w.be.rewind()
	w.rehearsing = false
	return ctx.kinds, out
}

// ahead looks up the identifier that the next write will be given, before and
// after it has been given.
func (g *generator) ahead() {
	r := g.r
	s := g.writeStep()
	_, out := g.foresee(s)
	if out == nil || out.status != "ok" || out.id == 0 {
		g.do(s)
		return
	}
	askers := []int{}
	for i, n := 0, 1+r.n(3); i < n; i++ {
		askers = append(askers, g.client())
	}
	for _, i := range askers {
		g.do(Step{Do: "op", Client: i, Op: "bogus", Bogus: "ahead", N: int(out.id) - r.n(1+r.n(3))})
	}
	if r.p(g.p.fault) {
		g.faults(&s)
		g.do(s)
		s.UID, s.Faults = g.nextUID(), nil
	}
	g.do(s)
	if g.w.model.remarks[s.UID] == nil {
		return
	}
	for _, i := range askers {
		if r.p(80) {
			q := g.readStep()
			q.Client, q.Target, q.Via = i, s.UID, "look"
			g.do(q)
		}
	}
}

func mutatingCalls(kinds []byte) []int {
	out := []int{}
	for i, k := range kinds {
		if k == 'c' || k == 'S' || k == 'C' || k == 'D' || k == 'X' {
			out = append(out, i)
		}
	}
	return out
}

func (g *generator) place(kinds []byte) int {
	r := g.r
	muts := mutatingCalls(kinds)
	if len(kinds) == 0 {
		return r.n(40)
	}
	if len(muts) == 0 || r.p(g.p.uniform) {
		return r.n(len(kinds))
	}
	if r.p(40) {
		// the last steps of a write link it to what exists
		k := min(len(muts), 16)
		return muts[len(muts)-1-r.n(k)]
	}
	return muts[r.n(len(muts))]
}

func (g *generator) faults(s *Step) {
	r := g.r
	kinds := g.rehearse(*s)
	n := 1
	if r.p(15) {
		n = 2
	}
	for i := 0; i < n; i++ {
		f := Fault{Kind: pick(r, g.p.kinds, faultOrder), At: g.place(kinds)}
		if r.p(35) {
			f.At, f.arm, f.depth = -1, 1+r.n(1+r.n(60)), 24
			if r.p(60) {
				f.arm, f.depth = 1+r.n(12), 2
			}
		}
		switch f.Kind {
		case "outage":
			f.Len = 1 + r.n(30)
		case "crash", "crash-after":
			f.All = r.p(g.p.all)
		}
		if f.At >= 0 && f.At < len(kinds) {
			f.Note = string(kinds[f.At : f.At+1])
		}
		s.Faults = append(s.Faults, f)
	}
}

func (g *generator) step() {
	r, p := g.r, &g.p
	n := r.n(100)
	take := func(share int) bool { n -= share; return n < 0 }
	have := len(g.w.model.order) > 0
	switch {
	case take(p.mode):
		if len(p.modes) > 0 {
			m := p.modes[r.n(len(p.modes))]
			g.do(Step{Do: "mode", Mode: m})
			for i, k := 0, 2+r.n(6); i < k; i++ {
				if have && r.p(80) {
					g.do(g.readStep())
				} else if r.p(50) {
					g.do(g.writeStep())
				} else {
					g.do(g.bogusStep())
				}
				if r.p(20) {
					g.do(Step{Do: "reopen", Client: g.client()})
				}
			}
			g.do(Step{Do: "mode", Mode: ""})
		}
	case take(p.reopen):
		g.do(Step{Do: "reopen", Client: g.client()})
	case take(p.restart):
		g.do(Step{Do: "restart"})
	case take(p.bogus):
		s := g.bogusStep()
		if r.p(p.readFault) {
			g.faults(&s)
		}
		g.do(s)
	case take(p.ahead):
		g.ahead()
	case take(p.audit):
		g.do(Step{Do: "audit"})
	case p.fault > 0 && take(p.sweep):
		g.sweep()
	case take(p.review):
		g.do(Step{Do: "review", Client: g.client()})
	case have && g.cfg.Clients > 1 && take(p.par):
		g.parStep()
	case !have || r.p(p.write):
		s := g.writeStep()
		faulty := r.p(p.fault)
		if faulty {
			g.faults(&s)
		}
		g.do(s)
		for tries := 0; faulty && tries < 6 && r.p(p.retry); tries++ {
			// once more: by the same handle or another, with or without trouble
			again := s
			again.UID, again.Faults = g.nextUID(), nil
			if r.p(40) {
				again.Client = g.client()
			}
			if r.p(30) {
				again.Via = "look"
			}
			faulty = r.p(60)
			if faulty {
				g.faults(&again)
			}
			g.do(again)
		}
	default:
		s := g.readStep()
		if r.p(p.readFault) {
			g.faults(&s)
		}
		g.do(s)
	}
}

// sweep tries one operation again and again with a fault at one storage call
// after the other: a read at all of its calls, a write from some call on until
// it gets through.
func (g *generator) sweep() {
	r := g.r
	failures := map[string]int{}
	for k, share := range g.p.kinds {
		if k == "err" || k == "lost" || k == "outage" {
			failures[k] = share
		}
	}
	if len(g.w.model.order) > 0 && g.p.readFault > 0 && len(failures) > 0 && r.p(60) {
		s := g.readStep()
		n := len(g.rehearse(s)) + 1
		stride := 1 + n/300
		kind := pick(r, failures, faultOrder)
		for at := r.n(stride); at < n; at += stride {
			s.Faults = []Fault{{At: at, Kind: kind, Len: 1}}
			g.do(s)
		}
		return
	}
	s := g.writeStep()
	kinds := g.rehearse(s)
	at := r.n(len(kinds) + 1)
	if muts := mutatingCalls(kinds); len(muts) > 0 && r.p(50) {
		at = muts[r.n(len(muts))]
	}
	kind := pick(r, g.p.kinds, faultOrder)
	all := r.p(g.p.all)
	for tries := 0; tries < 60 && g.w.model.remarks[s.UID] == nil; tries++ {
		if tries > 0 {
			s.UID = g.nextUID()
		}
		s.Faults = []Fault{{At: at, Kind: kind, Len: 1, All: all}}
		g.do(s)
		at += 1 + r.n(2)
	}
}

// firstUse is a series of attempts on an empty storage that all go wrong.
func (g *generator) firstUse() {
	r := g.r
	for i, n := 0, 1+r.n(6); i < n && len(g.w.model.order) == 0; i++ {
		s := Step{Do: "op", Client: g.client(), UID: g.nextUID(), Op: "create", O: g.phrase(), P: g.phrase()}
		kinds := g.rehearse(s)
		limit := len(kinds)
		if limit > 48 && r.p(70) {
			limit = 48
		}
		f := Fault{Kind: pick(r, g.p.kinds, faultOrder), At: r.n(limit + 1)}
		if len(g.p.kinds) == 0 {
			return
		}
		switch f.Kind {
		case "outage":
			f.Len = 1 + r.n(8)
		case "crash", "crash-after":
			f.All = r.p(g.p.all)
		}
		s.Faults = []Fault{f}
		g.do(s)
		if r.p(20) {
			g.do(g.bogusStep())
		}
	}
}

func (g *generator) parStep() {
	r := g.r
	s := g.writeStep()
	s.Do = "par"
	kinds := g.rehearse(s)
	if r.p(g.p.fault) {
		g.faults(&s)
	}
	muts := mutatingCalls(kinds)
	// readers look mostly at what the write is about to change
	near := []*mRemark{}
	if t := g.w.model.remarks[s.Target]; t != nil {
		st := t.fact.story
		near = append(near, st.facts[len(st.facts)-1].remarks[0], t, st.head())
		if len(st.children) > 0 {
			near = append(near, st.children[len(st.children)-1].head(), st.children[0].head())
		}
	}
	nr := 2 + r.n(6)
	for i := 0; i < nr; i++ {
		rd := g.readStep()
		if rd.Client == s.Client {
			rd.Client = (rd.Client + 1) % g.cfg.Clients
		}
		if len(near) > 0 && r.p(75) {
			rd.Target = near[r.n(len(near))].uid
			switch s.Op {
			case "addfact":
				rd.Op = []string{"nextfact", "nextfact", "list", "text", "first"}[r.n(5)]
			case "child":
				rd.Op = []string{"nextstory", "nextstory", "sibs", "text", "first"}[r.n(5)]
			case "addremark":
				rd.Op = []string{"nextremark", "output", "text", "nextfact"}[r.n(4)]
			}
		}
		if r.p(g.p.readFault) && r.p(30) {
			g.faults(&rd)
		}
		s.Readers = append(s.Readers, rd)
	}
	readers := []int{}
	for _, rd := range s.Readers {
		readers = append(readers, rd.Client)
	}
	// the schedule: the writer advances to just before or after one of its
	// changes, then readers get anything from one call to several operations
	at := 0
	for i, n := 0, 3+r.n(14); i < n; i++ {
		to := at + 1 + r.n(12)
		if len(muts) > 0 && r.p(75) {
			lo := 0
			if r.p(50) {
				lo = max(0, len(muts)-16)
			}
			to = muts[lo+r.n(len(muts)-lo)] + 1 + r.n(2)
		}
		if to > at {
			s.Sched = append(s.Sched, Burst{-1, to - at})
			at = to
		}
		who := readers[r.n(len(readers))]
		calls := 1 + r.n(3)
		switch r.n(4) {
		case 0:
			calls = 1 + r.n(40)
		case 1:
			calls = 50 + r.n(600)
		case 2:
			calls = 5000
		}
		s.Sched = append(s.Sched, Burst{who, calls})
	}
	g.do(s)
}

// finish ends a run: faults stop, everything is compared with the model, and
// every handle has to be able to write and to read it back.
func (g *generator) finish() {
	r := g.r
	g.do(Step{Do: "mode", Mode: ""})
	g.do(Step{Do: "audit"})
	m := g.w.model
	n := min(g.cfg.Clients, 3)
	for i := 0; i < n; i++ {
		c := (i + r.n(g.cfg.Clients)) % g.cfg.Clients
		ops := []string{"create", "addremark", "addfact", "child"}
		for j, k := 0, 1+r.n(2); j < k; j++ {
			s := Step{Do: "op", Client: c, UID: g.nextUID(), O: g.phrase(), P: g.phrase(), N: r.n(50), Op: ops[r.n(4)], Via: g.via()}
			g.aim(&s)
			g.do(s)
		}
	}
	// known texts once more: nothing but bookkeeping may be added
	k := 2
	if g.p.reuse >= 80 {
		k = 8
	}
	for i := 0; i < k && len(m.order) > 0; i++ {
		a, b := m.order[r.n(len(m.order))], m.order[r.n(len(m.order))]
		if r.p(60) {
			b = a
		}
		s := Step{Do: "op", Client: g.client(), UID: g.nextUID(), O: a.o, P: b.p, N: r.n(50), Op: []string{"create", "addfact", "child", "addremark"}[r.n(4)], Via: g.via()}
		if r.p(15) {
			s.O, s.P = s.P, s.O
		}
		s.Target = a.uid
		if s.Op == "create" {
			s.Target, s.Via, s.N = 0, "", 0
		}
		if s.Op == "addremark" {
			s.O = ""
		}
		g.do(s)
	}
	if r.p(40) {
		g.do(Step{Do: "restart"})
	}
	g.do(Step{Do: "audit"})
	g.do(Step{Do: "review", Client: r.n(g.cfg.Clients)})
	if len(m.order) > 0 {
		for i := 0; i < n; i++ {
			s := g.readStep()
			s.Client = i
			g.do(s)
		}
	}
}

func (g *generator) aim(s *Step) {
	t := g.target()
	if t == nil {
		s.Op = "create"
	} else {
		s.Target = t.uid
	}
	switch s.Op {
	case "create":
		s.Target, s.Via, s.N = 0, "", 0
	case "addremark":
		s.O = ""
	}
}
