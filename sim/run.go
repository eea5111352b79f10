package main

// Executing a scenario and judging everything it shows against the model.

import (
	"fmt"
	"iter"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// kinds of wrong observation
const (
	obsText       = "wrong-text"
	obsLookup     = "lookup-failed"
	obsFacts      = "wrong-fact-list"
	obsStories    = "wrong-story-list"
	obsRemarks    = "wrong-remark-list"
	obsOutput     = "wrong-output"
	obsWriteErr   = "write-failed"
	obsReadErr    = "read-failed"
	obsPanic      = "panic"
	obsBudget     = "endless"
	obsMalformed  = "malformed-accepted"
	obsSwallow    = "failure-swallowed"
	obsDisguise   = "failure-disguised"
	obsFaultPanic = "panic-on-failure"
	obsBogus      = "wrong-identifier-accepted"
	obsMutation   = "read-wrote"
	obsBreach     = "foreign-identifier"
	obsGrowth     = "stored-again"
	obsIdentity   = "identifier-reused"
	obsPar        = "reader-disturbed"
	obsFatal      = "process-dies"
	obsSize       = "storage-size"
	obsForeign    = "other-changes-than-alone"
	obsWork       = "work-grows"
	obsThreads    = "wrong-among-threads"
	obsRace       = "race"
	obsChance     = "other-result-next-time"
	obsRamp       = "out-of-proportion"
	obsWaste      = "wasteful-repetition"
	obsLeak       = "left-behind"
)

type violation struct {
	Obs   string   `json:"observation"`
	Props []string `json:"properties"`
	Step  int      `json:"step"`
	Op    string   `json:"op"`
	Msg   string   `json:"message"`
	World int      `json:"world,omitempty"`
}

func (v violation) hits(prop string) bool {
	for _, p := range v.Props {
		if p == prop {
			return true
		}
	}
	return false
}

// where an observation was made
type where struct {
	op    string
	par   bool
	added bool // on a remark that was added to a fact
	held  bool
	after bool // on a remark that was written after failures
	other bool // the same question through another value or handle is answered rightly
	text  bool // a wrong text
}

// violate records a violation once per (observation, operation, properties).
func (w *world) violate(obs string, at *where, msg string) {
	if w.rehearsing {
		return
	}
	if at == nil {
		at = &where{}
	}
	props := map[string]bool{}
	state := false
	switch obs {
	case obsText:
		props["C01"], state = true, true
		if at.held {
			props["C03"] = true
		}
	case obsLookup:
		props["C03"], props["C01"], props["C02"], state = true, true, true, true
	case obsFacts:
		state = true
		props["C09"] = !at.text
		if at.added {
			props["C11"] = true
		}
	case obsStories:
		state = true
		props["C10"] = !at.text
	case obsRemarks:
		state = true
		props["C11"] = !at.text
	case obsOutput:
		props["C12"], state = true, true
	case obsWriteErr:
		props["C02"] = true
		if w.faultsFired > 0 || w.crashes > 0 {
			props["C07"] = true
		}
		if w.clientsUsed > 1 {
			props["C17"] = true
		}
		if w.failedWrites > 0 {
			props["C06"] = true
		}
	case obsReadErr:
		props["C02"], state = true, true
		switch at.op {
		case "text":
			props["C01"] = true
		case "first", "nextfact", "list":
			props["C09"] = true
		case "nextstory", "sibs":
			props["C10"] = true
		case "nextremark":
			props["C11"] = true
		case "output":
			props["C12"] = true
		}
		if w.mode == "readonly" || w.mode == "full" {
			props["C14"] = true
		}
		if w.faultsFired > 0 {
			props["C07"] = true
		}
	case obsPanic:
		props["C02"] = true
		if at.op == "bogus" {
			props["C04"] = true
		}
		if w.faultsFired > 0 {
			props["C07"] = true
		}
	case obsBudget:
		props["C02"], props["C07"] = true, true
	case obsMalformed:
		props["C02"] = true
	case obsSwallow, obsFaultPanic, obsDisguise:
		props["C08"] = true
	case obsBogus:
		props["C04"] = true
	case obsMutation:
		props["C14"] = true
		if at.op == "bogus" {
			props["C04"] = true
		}
	case obsBreach:
		props["C16"] = true
	case obsGrowth:
		props["C13"] = true
	case obsWork:
		props["C20"] = true
	case obsRamp:
		props["C26"] = true
	case obsLeak:
		props["C24"] = true
	case obsWaste:
		props["C22"] = true
	case obsIdentity:
		props["C03"], state = true, true
	}
	if w.cfg.Old > 0 && (state || obs == obsWriteErr || obs == obsPanic || obs == obsGrowth) {
		props["C23"] = true
	}
	if w.cfg.Mixed && (state || obs == obsWriteErr || obs == obsPanic || obs == obsGrowth) {
		props["C25"] = true
	}
	if state {
		if w.crashes > 0 {
			props["C05"] = true
		}
		if w.failedWrites > 0 {
			props["C06"] = true
		}
		if w.clientsUsed > 1 {
			props["C17"] = true
		}
	}
	switch obs {
	case obsText, obsFacts, obsStories, obsRemarks, obsOutput, obsLookup, obsReadErr:
		if at.other {
			props["C03"] = true
		}
		if at.text {
			props["C01"] = true
		}
		if at.after && w.faultsFired > 0 {
			props["C07"] = true
		}
		if w.mode == "readonly" || w.mode == "full" {
			props["C14"] = true
		}
	}
	if at.par && obs != obsSwallow && obs != obsFaultPanic && obs != obsDisguise {
		props["C15"] = true
	}
	list := []string{}
	for p, yes := range props {
		if yes {
			list = append(list, p)
		}
	}
	sort.Strings(list)
	key := obs + "|" + at.op + "|" + strings.Join(list, ",")
	if w.seen[key] {
		return
	}
	w.seen[key] = true
	w.noteString(key)
	w.u.viol = append(w.u.viol, violation{Obs: obs, Props: list, Step: w.step, Op: at.op, Msg: msg, World: w.index})
	w.log("WRONG %s [%s] %s", obs, strings.Join(list, " "), msg)
}

func (w *world) log(format string, args ...interface{}) {
	if w.u.tracing && !w.rehearsing {
		where := ""
		if len(w.u.worlds) > 1 {
			where = fmt.Sprintf("storage %d, ", w.index)
		}
		w.u.trace = append(w.u.trace, fmt.Sprintf("%7d  ", w.u.clock)+where+fmt.Sprintf(format, args...))
	}
}

// ---- running

// begin starts an operation's context. Explicit faults come from the step.
func begin(s *Step) *opctx { return &opctx{faults: s.Faults} }

// present tells whether the step's targets exist in the model (a shrunk
// scenario may have lost them).
func (w *world) present(s *Step) bool {
	if s.Op == "create" {
		return true
	}
	if s.Op == "bogus" {
		return true
	}
	return w.model.remarks[s.Target] != nil
}

// resolve turns the description of a wrong identifier into a number.
func (w *world) resolve(s *Step) (Step, bool) {
	r := *s
	switch s.Bogus {
	case "zero":
		r.N = 0
	case "huge":
		r.N = -1 // the largest uint
	case "raw":
		// any number in the range the storage uses, handed out or not
		if w.be.maxID() == 0 {
			return r, false
		}
		id := 1 + uint(s.N)%w.be.maxID()
		if w.model.byID[id] != nil || w.doubtful[id] {
			return r, false
		}
		r.N = int(id)
	case "ahead":
		// one that is about to be handed out
		if s.N < 1 || w.known[uint(s.N)] {
			return r, false
		}
	case "unused":
		r.N = int(w.be.maxID()) + 1 + s.N
		for w.known[uint(r.N)] {
			r.N++
		}
	case "alias":
		// the identifier of a remark in a number of another width
		if len(w.model.order) == 0 {
			return r, false
		}
		id := w.model.order[s.N%len(w.model.order)].id ^ 1<<[]uint{8, 16, 31, 32, 33, 48, 62, 63}[s.N/64%8]
		if w.known[id] {
			return r, false
		}
		r.N = int(id)
	case "internal":
		if len(w.created) == 0 {
			return r, false
		}
		id := w.created[s.N%len(w.created)]
		if w.model.byID[id] != nil || w.doubtful[id] {
			return r, false
		}
		r.N = int(id)
	}
	return r, true
}

// Execute runs one step and judges it.
func (w *world) execute(s *Step) {
	defer func() { w.step++ }()
	w.note(900, uint64(w.step))
	s = s.plain()
	switch s.Do {
	case "op":
		w.single(s)
	case "par":
		w.parallel(s)
	case "mode":
		w.mode = s.Mode
		w.log("storage is now %q", s.Mode)
		if w.stats != nil {
			w.stats.fault("mode-"+s.Mode, "", "")
		}
	case "reopen":
		// the client drops its handle and values and opens the graph again
		c := w.clients[s.Client%len(w.clients)]
		if c.graph != nil {
			c.port.dead = true
			w.log("client %d reopens", c.index)
		}
	case "restart":
		// every process ends in an orderly way and the storage is reopened
		for _, c := range w.clients {
			if c.port != nil {
				c.port.dead = true
			}
		}
		w.shared = nil
		w.be.reopen()
		w.log("all clients restart")
	case "gauge":
		w.gauge(s)
	case "measure":
		w.measure(s)
	case "ramp":
		w.ramp(s)
	case "soak":
		w.soak(s)
	case "audit":
		w.audit(w.auditor(), nil)
		w.recheck()
	case "review":
		w.review(w.clients[s.Client%len(w.clients)])
	}
}

// review asks the remark values a client has kept, old ones and new ones.
func (w *world) review(c *client) {
	if c.graph == nil || c.port.dead {
		return
	}
	old := w.quietOn()
	defer w.quietOff(old)
	for i, r := range w.model.order {
		if i >= 20 && i < len(w.model.order)-20 {
			continue
		}
		for n := range c.kept[r.uid] {
			for j, op := range []string{"text", "nextfact", "nextstory", "first", "nextremark"} {
				if (w.step+i+n+j)%2 == 0 {
					w.ask(c, op, r, "kept", n)
				}
			}
		}
		if _, ok := c.held[r.uid]; ok {
			w.ask(c, "nextfact", r, "held", 0)
			w.ask(c, "nextstory", r, "held", 0)
		}
	}
	w.stats.hit("values kept by a client asked again")
}

func (w *world) single(s *Step) {
	if !w.present(s) {
		return
	}
	step := *s
	if s.Op == "bogus" {
		r, ok := w.resolve(s)
		if !ok {
			return
		}
		step = r
	}
	c := w.live(s.Client)
	ctx := begin(&step)
	if w.mainYield != nil {
		ctx.yield, w.mainYield = w.mainYield, nil
		ctx.yield()
	}
	before := -1
	if w.frugal(&step) {
		before = w.needed(&step)
	}
	w.log("client %d: %s", c.index, show(&step))
	out := w.run(c, &step, ctx)
	w.log("         -> %s %s %s%s (%d calls)", out.status, out.canon, out.msg, faultNote(out), ctx.calls)
	if isWrite(step.Op) {
		w.judgeWrite(c, &step, out, false)
		w.thrift(&step, before, out)
	} else {
		w.judgeRead(c, &step, out, nil)
	}
}

func faultNote(o *outcome) string {
	if o.fired == 0 {
		return ""
	}
	return " {" + strings.Join(o.ctx.firedKinds, " ") + "}"
}

func show(s *Step) string {
	switch s.Op {
	case "create":
		return fmt.Sprintf("#%d = CreateStory(%q, %q)%s", s.UID, s.O, s.P, showFaults(s))
	case "addremark":
		return fmt.Sprintf("#%d = #%d[%s].AddRemarkToFact(%q)%s", s.UID, s.Target, s.Via, s.P, showFaults(s))
	case "addfact":
		return fmt.Sprintf("#%d = #%d[%s].AddFactToStory(%q, %q)%s", s.UID, s.Target, s.Via, s.O, s.P, showFaults(s))
	case "child":
		return fmt.Sprintf("#%d = #%d[%s].CreateChildStory(%q, %q)%s", s.UID, s.Target, s.Via, s.O, s.P, showFaults(s))
	case "bogus":
		return fmt.Sprintf("GetRemark(%d) (%s)%s", uint(s.N), s.Bogus, showFaults(s))
	}
	return fmt.Sprintf("%s of #%d[%s]%s", s.Op, s.Target, s.Via, showFaults(s))
}

func showFaults(s *Step) string {
	out := ""
	for _, f := range s.Faults {
		out += fmt.Sprintf(" !%s at call %d", f.Kind, f.At)
		if f.Kind == "outage" {
			out += fmt.Sprintf(" for %d", f.Len)
		}
		if f.All {
			out += " (all)"
		}
	}
	return out
}

// plain is the step with its texts as they are.
func (s *Step) plain() *Step {
	if !s.Raw {
		return s
	}
	t := *s
	if o, err := strconv.Unquote(s.O); err == nil {
		t.O = o
	}
	if p, err := strconv.Unquote(s.P); err == nil {
		t.P = p
	}
	return &t
}

// odd tells whether a text is not valid UTF-8: it may be refused, or accepted
// as some other text.
func odd(s *Step) bool {
	return !utf8.ValidString(s.P) || s.Op != "addremark" && !utf8.ValidString(s.O)
}

// enter brings the model up to date with a write that took effect.
func (w *world) enter(s *Step, id uint, target *mRemark) *mRemark {
	r := w.model.apply(s.Op, s.UID, id, target, s.O, s.P)
	r.fact.story.note(w, r)
	if w.tape != nil {
		w.tape.remarks = append(w.tape.remarks, oldRemark{UID: s.UID, Op: s.Op, Target: s.Target})
	}
	if odd(s) {
		// whatever it reads as now, it has to read as from now on
		old := w.quietOn()
		out := w.run(w.auditor(), &Step{Op: "text", Target: s.UID, Via: "look"}, &opctx{})
		w.quietOff(old)
		var got uint
		var o, p string
		if n, _ := fmt.Sscanf(out.canon, "%d %q %q", &got, &o, &p); n == 3 {
			if utf8.ValidString(s.O) || s.Op == "addremark" {
				o = r.o
			}
			if utf8.ValidString(s.P) {
				p = r.p
			}
			w.model.retext(r, o, p)
			w.stats.hit("text that is not valid UTF-8 accepted")
		}
	}
	return r
}

// wellFormed is the property's own definition of acceptable texts.
func wellFormed(s *Step) bool {
	ok := func(t string) bool {
		for _, word := range strings.Split(t, " ") {
			if word == "" {
				return false
			}
		}
		return true
	}
	if s.Op == "addremark" {
		return ok(s.P)
	}
	return ok(s.O) && ok(s.P)
}

func (w *world) swallowed(s *Step, out *outcome, par bool) {
	for _, x := range out.swallowed {
		w.violate(obsSwallow, &where{op: s.Op, par: par}, fmt.Sprintf("%s: %s reports success although its storage call failed", show(s), x))
	}
	for _, x := range out.disguised {
		w.violate(obsDisguise, &where{op: s.Op, par: par}, fmt.Sprintf("%s: the error is not the storage's: %s", show(s), x))
	}
}

// judgeWrite judges a finished write and brings the model up to date. It
// returns the remark if the write is now part of the model.
func (w *world) judgeWrite(c *client, s *Step, out *outcome, par bool) *mRemark {
	at := &where{op: s.Op, par: par}
	w.swallowed(s, out, par)
	target := w.model.remarks[s.Target]
	if out.status == "ok" {
		if !wellFormed(s) {
			w.violate(obsMalformed, at, fmt.Sprintf("%s succeeds although a word of a text is empty", show(s)))
			// what is stored now is unspecified: forget it ever happened
			for _, id := range out.ctx.made {
				w.doubtful[id] = true
			}
			w.failedWrites++
			if s.Op == "addfact" || s.Op == "child" {
				w.settle(s, target, false)
			}
			return nil
		}
		if w.model.byID[out.id] != nil {
			w.violate(obsIdentity, at, fmt.Sprintf("%s returns identifier %d, which belongs to another remark", show(s), out.id))
			return nil
		}
		if !odd(s) {
			w.growth(s, out, target)
		}
		r := w.enter(s, out.id, target)
		c.held[s.UID] = out.value
		if w.stats != nil {
			w.stats.Acked++
			w.stats.hit("write acknowledged")
			if w.stats.Acked > 1 {
				w.stats.hit("write acknowledged on a non-empty graph")
			}
			if w.inherited > 0 {
				w.stats.hit("write acknowledged on a graph stored earlier")
			}
			if w.trouble[c.index] {
				w.stats.hit("write succeeds on a handle that saw failures")
			}
			if w.failedWrites > 0 || w.crashes > 0 {
				w.stats.hit("write succeeds after failures")
			}
			if target != nil && w.authors[target.uid] != c.index {
				w.stats.hit("write on a remark another client wrote")
				if old, ok := w.olden[target.uid]; ok && old != c.old {
					w.stats.hit("write on a remark that the other version wrote")
				}
			}
			if target != nil && target.fact.index < len(target.fact.story.facts)-2 && s.Op == "addfact" {
				w.stats.hit("fact added from a fact that is not the last")
			}
		}
		w.authors[s.UID] = c.index
		if w.cfg.Mixed {
			w.olden[s.UID] = c.old
		}
		w.readBack(c, s, r, target)
		return r
	}
	switch {
	case out.status == "budget":
		w.violate(obsBudget, at, fmt.Sprintf("%s does not end within %d storage calls", show(s), opBudget))
	case out.status == "panic" && out.fired > 0:
		w.violate(obsFaultPanic, at, fmt.Sprintf("%s panics when the storage fails (%s): %s", show(s), strings.Join(out.ctx.firedKinds, ","), out.msg))
	case out.status == "panic":
		w.violate(obsPanic, at, fmt.Sprintf("%s panics: %s", show(s), out.msg))
	case out.status == "err" && out.fired == 0 && !wellFormed(s):
		w.stats.hit("malformed text refused")
	case out.status == "err" && out.fired == 0 && odd(s) && out.api != "GetRemark":
		w.stats.hit("text that is not valid UTF-8 refused")
	case out.status == "err" && out.fired == 0 && wellFormed(s):
		if out.api == "GetRemark" {
			at.other = !par && w.otherwise(s)
			w.violate(obsLookup, at, fmt.Sprintf("%s: looking up the acknowledged remark fails: %s", show(s), out.msg))
		} else {
			w.violate(obsWriteErr, at, fmt.Sprintf("%s fails: %s", show(s), out.msg))
		}
	}
	if out.fired > 0 && c.index < 90 {
		w.trouble[c.index] = true
		if len(w.model.order) > 0 {
			if out.status == "crash" {
				w.stats.hit("process dies inside a write with acknowledged remarks stored")
			} else {
				w.stats.hit("write fails with acknowledged remarks stored")
			}
			if out.ctx.muts > 0 {
				w.stats.hit("write interrupted after it had changed the storage")
			}
		} else {
			w.stats.hit("first use of the storage interrupted")
		}
		if out.status == "err" {
			w.stats.hit("failed storage call reported by a write")
		}
	}
	refused := out.status == "err" && out.fired == 0 && (!wellFormed(s) || odd(s)) && out.api != "GetRemark"
	if refused && out.ctx.muts == 0 {
		return nil // before anything was touched
	}
	for _, id := range out.ctx.made {
		w.doubtful[id] = true
	}
	w.failedWrites++
	if target != nil {
		target.fact.story.broken++
	}
	if target != nil && s.Op == "addremark" {
		w.model.maybe[[2]string{target.o, s.P}] = true
	} else {
		w.model.maybe[[2]string{s.O, s.P}] = true
	}
	if w.stats != nil {
		w.stats.Failed++
	}
	if s.Op == "addfact" || s.Op == "child" {
		return w.settle(s, target, refused)
	}
	return nil
}

func (o *outcome) firedInCallOrBefore() bool { return o.fired > 0 }

func (s *mStory) note(w *world, r *mRemark) {
	if w.crashes > 0 {
		r.after = "crash"
	} else if w.faultsFired > 0 {
		r.after = "fault"
	}
}

// settle finds out what an interrupted write left behind: nothing, or the
// complete new fact or story. In the latter case the model adopts it. A write
// that was refused for its texts must have left nothing.
func (w *world) settle(s *Step, target *mRemark, refused bool) *mRemark {
	a := w.auditor()
	old := w.quietOn()
	defer w.quietOff(old)
	st := target.fact.story
	probe := &Step{Op: "list", Target: st.head().uid, Via: "look"}
	listed := len(st.facts)
	if s.Op == "child" {
		if len(st.children) == 0 {
			return nil // nothing leads to a first child but its identifier
		}
		probe = &Step{Op: "sibs", Target: st.children[0].head().uid, Via: "look"}
		listed = len(st.children)
	}
	out := w.run(a, probe, &opctx{})
	want, _ := w.model.expect(probe.Op, w.model.remarks[probe.Target])
	if out.status == "ok" && out.canon != want {
		// one more entry at the end, with the right texts, is the write's effect
		ids := strings.Fields(out.canon)
		extra := ""
		if len(ids) > 0 {
			extra = ids[len(ids)-1]
		}
		if strings.TrimSpace(want+" "+extra) == strings.TrimSpace(out.canon) && !refused {
			var id uint
			fmt.Sscan(extra, &id)
			if w.model.byID[id] == nil {
				w.log("         the interrupted write took effect: %d", id)
				r := w.enter(s, id, target)
				if w.stats != nil {
					w.stats.Adopted++
				}
				w.readBack(a, s, r, target)
				return r
			}
		}
		w.violate(map[string]string{"list": obsFacts, "sibs": obsStories}[probe.Op], &where{op: probe.Op},
			fmt.Sprintf("after the failed %s the list of %d entries [%s] is [%s]", show(s), listed, want, out.canon))
		return nil
	}
	w.judgeRead(a, probe, out, nil)
	return nil
}

func (w *world) quietOn() (old [2]string) {
	old[0] = w.mode
	if w.quiet {
		old[1] = "q"
	}
	w.quiet = true
	if w.mode == "down" {
		w.mode = ""
	}
	return old
}

func (w *world) quietOff(old [2]string) {
	w.mode = old[0]
	w.quiet = old[1] == "q"
}

// ask makes one fault-free read of the oracle's own and judges it.
func (w *world) ask(c *client, op string, r *mRemark, via string, n int) {
	s := &Step{Op: op, Target: r.uid, Via: via, N: n, Client: c.index}
	out := w.run(c, s, &opctx{})
	w.judgeRead(c, s, out, nil)
}

// readBack looks at a remark that has just been written, and at its neighbours.
func (w *world) readBack(c *client, s *Step, r *mRemark, target *mRemark) {
	old := w.quietOn()
	defer w.quietOff(old)
	if c.port.dead {
		c = w.auditor()
	}
	w.ask(c, "text", r, "held", 0)
	w.ask(c, "text", r, "look", 0)
	w.ask(c, "first", r, "held", 0)
	w.ask(c, "nextfact", r, "held", 0)
	w.ask(c, "nextstory", r, "look", 0)
	w.ask(c, "nextremark", r, "held", 0)
	st := r.fact.story
	if r.fact.index > 0 {
		w.ask(c, "nextfact", st.facts[r.fact.index-1].remarks[0], "look", 0)
	}
	if st.parent != nil && st.index > 0 && r.fact.index == 0 {
		w.ask(c, "nextstory", st.parent.children[st.index-1].head(), "look", 0)
	}
	if target != nil {
		w.ask(c, "text", target, "look", 0)
	}
	w.ask(c, "output", st.head(), "look", 0)
}

// judgeRead compares a finished read with the model. accept lists further
// acceptable answers (the state after a write in progress).
func (w *world) judgeRead(c *client, s *Step, out *outcome, accept []string) {
	at := &where{op: s.Op, par: accept != nil, held: s.Via == "held" || s.Via == "kept"}
	if m := w.model.remarks[s.Target]; m != nil {
		at.added = m.pos > 0
		at.after = m.after != ""
	}
	w.swallowed(s, out, at.par)
	if out.ctx.muts > 0 && (s.Op != "bogus" || len(w.model.order) > 0) {
		w.violate(obsMutation, at, fmt.Sprintf("%s changes the storage (%d mutating calls)", show(s), out.ctx.muts))
	}
	switch {
	case out.status == "crash":
		return
	case out.status == "budget":
		w.violate(obsBudget, at, fmt.Sprintf("%s does not end within %d storage calls", show(s), opBudget))
		w.violate(obsReadErr, at, fmt.Sprintf("%s does not end", show(s)))
		return
	case out.status == "panic" && out.fired > 0:
		w.violate(obsFaultPanic, at, fmt.Sprintf("%s panics when the storage fails (%s): %s", show(s), strings.Join(out.ctx.firedKinds, ","), out.msg))
		return
	case out.status == "panic":
		w.violate(obsPanic, at, fmt.Sprintf("%s panics: %s", show(s), out.msg))
		if s.Op != "bogus" {
			w.violate(obsReadErr, at, fmt.Sprintf("%s panics: %s", show(s), out.msg))
		}
		return
	case out.status == "err" && out.fired > 0:
		w.stats.hit("failed storage call reported by a read")
		return
	case out.status == "err":
		at.other = !at.par && s.Op != "bogus" && w.otherwise(s)
		if out.api == "GetRemark" {
			w.violate(obsLookup, at, fmt.Sprintf("%s: looking up the acknowledged remark fails: %s", show(s), out.msg))
		}
		w.violate(obsReadErr, at, fmt.Sprintf("%s fails in %s: %s", show(s), out.api, out.msg))
		return
	}
	if s.Op == "bogus" {
		w.stats.hit("wrong identifier refused: " + s.Bogus)
		if out.canon != "refused" {
			w.violate(obsBogus, at, fmt.Sprintf("%s returns a remark, but none was ever written under this identifier", show(s)))
		}
		return
	}
	if len(out.swallowed) > 0 {
		return // already reported; the answer is not to be trusted
	}
	m := w.model.remarks[s.Target]
	if accept == nil {
		want, known := w.model.expect(s.Op, m)
		accept = []string{want}
		if known != "" && out.canon == known {
			if s.Op == "nextremark" && w.stats != nil {
				w.stats.Known++
			}
			return
		}
	}
	w.probeRead(c, s, m, at.par)
	for _, a := range accept {
		if out.canon == a {
			return
		}
	}
	at.other = !at.par && w.otherwise(s)
	at.text = onlyText(out.canon, accept)
	obs := map[string]string{"text": obsText, "first": obsFacts, "nextfact": obsFacts, "list": obsFacts,
		"nextstory": obsStories, "sibs": obsStories, "nextremark": obsRemarks, "output": obsOutput}[s.Op]
	w.violate(obs, at, fmt.Sprintf("%s yields [%s], expected [%s]", show(s), out.canon, strings.Join(accept, "] or [")))
}

// onlyText tells whether an answer names the right remark in the right story,
// but with a wrong text.
func onlyText(canon string, accept []string) bool {
	ends := func(s string) (string, string, bool) {
		i, j := strings.Index(s, " "), strings.LastIndex(s, " in ")
		if i < 0 || j < i {
			return "", "", false
		}
		return s[:i], s[j:], true
	}
	a, b, ok := ends(canon)
	for _, want := range accept {
		c, d, is := ends(want)
		if ok && is && a == c && b == d {
			return true
		}
	}
	return false
}

// otherwise tells whether a question that was answered wrongly is answered
// rightly when it is asked through another value of the remark.
func (w *world) otherwise(s *Step) bool {
	m := w.model.remarks[s.Target]
	if m == nil || w.rehearsing {
		return false
	}
	old := w.quietOn()
	defer w.quietOff(old)
	q := *s
	if isWrite(q.Op) {
		q.Op = "text"
	}
	want, known := w.model.expect(q.Op, m)
	ask := func(c *client, via string) bool {
		q.Via, q.Faults = via, nil
		out := w.run(c, &q, &opctx{})
		return out.status == "ok" && (out.canon == want || known != "" && out.canon == known)
	}
	if ask(w.auditor(), "look") {
		return true
	}
	for _, c := range w.clients {
		if c.graph == nil || c.port.dead {
			continue
		}
		if _, ok := c.held[m.uid]; ok && ask(c, "held") {
			return true
		}
		if len(c.kept[m.uid]) > 1 && ask(c, "kept") {
			return true
		}
		if ask(c, "look") {
			return true
		}
	}
	return false
}

// probeRead counts reads that put a property to the test.
func (w *world) probeRead(c *client, s *Step, m *mRemark, par bool) {
	if w.stats == nil {
		return
	}
	hit := w.stats.hit
	st := m.fact.story
	if m.uid <= w.inherited {
		hit("remark stored earlier compared")
	}
	switch s.Op {
	case "text":
		hit("text compared")
		if m.after != "" {
			hit("text compared, written after failures or crashes")
		}
	case "first", "nextfact", "list":
		if len(st.facts) > 1 {
			hit("place in a story of several facts compared")
		}
	case "nextstory", "sibs":
		if st.parent != nil && len(st.parent.children) > 1 {
			hit("place among several child stories compared")
		}
	case "nextremark":
		if len(m.fact.remarks) > 1 {
			hit("place in a fact of several remarks compared")
		} else {
			hit("place in a fact of one remark compared")
		}
	case "output":
		hit("output compared")
		if m.fact.index > 0 {
			hit("output compared, asked for a remark of a later fact")
		}
	}
	if w.crashes > 0 {
		hit("read compared after a crash")
	}
	if w.failedWrites > 0 {
		hit("read compared after an interrupted write")
	}
	if s.Via == "held" || s.Via == "kept" {
		hit("read through a remark value kept in memory compared")
	} else {
		hit("read through a looked-up remark compared")
	}
	switch w.mode {
	case "readonly":
		hit("read compared while the storage is read-only")
	case "full":
		hit("read compared while the storage is full")
	}
	if par {
		hit("read during a write in progress compared")
	}
	if old, ok := w.olden[m.uid]; ok && old && !c.old {
		hit("remark written by the earlier version read by the current one")
	} else if ok && !old && c.old {
		hit("remark written by the current version read by the earlier one")
	}
	if a, ok := w.authors[m.uid]; ok && a != c.index {
		hit("remark of one client read by another compared")
	}
}

// growth checks that texts which are already stored are not stored again.
func (w *world) growth(s *Step, out *outcome, target *mRemark) {
	if out.fired > 0 {
		return
	}
	o := s.O
	if s.Op == "addremark" {
		o = target.o
	}
	m := w.model
	if strings.ContainsRune(o+s.P, utf8.RuneError) {
		return // may be what a text that is not valid UTF-8 was stored as
	}
	class := ""
	switch {
	case m.pairs[[2]string{o, s.P}]:
		class = "pair"
	case m.maybe[[2]string{o, s.P}]:
		return
	case m.phrases[o] && m.phrases[s.P]:
		class = "phrases"
	default:
		return
	}
	key := class + " " + s.Op
	n := out.ctx.creates
	w.grown(key, n, s)
}

func (w *world) grown(key string, n int, s *Step) {
	if w.growthSeen == nil {
		w.growthSeen = map[string]growthSample{}
	}
	if first, ok := w.growthSeen[key]; ok {
		w.stats.hit("storage growth compared, " + strings.Fields(key)[0] + " stored")
		if first.n != n {
			w.violate(obsGrowth, &where{op: s.Op}, fmt.Sprintf("%s creates %d nodes although its texts are stored; %s, in the same situation (%s), created %d", show(s), n, first.what, key, first.n))
		}
	} else {
		w.growthSeen[key] = growthSample{n, show(s)}
	}
	var pair, phrases growthSample
	var okA, okB bool
	pair, okA = w.growthSeen["pair "+s.Op]
	phrases, okB = w.growthSeen["phrases "+s.Op]
	if okA && okB && pair.n > phrases.n {
		w.violate(obsGrowth, &where{op: s.Op}, fmt.Sprintf("%s creates %d nodes although the pair is stored; %s creates only %d", pair.what, pair.n, phrases.what, phrases.n))
	}
}

type growthSample struct {
	n    int
	what string
}

// audit compares everything reachable with the model.
func (w *world) audit(a *client, only *mStory) {
	old := w.quietOn()
	defer w.quietOff(old)
	if w.stats != nil {
		w.stats.Audits++
	}
	n := len(w.model.order)
	stride := 1 + n/1200 // of very many, every second, third, ... and the last ones
	for i, r := range w.model.order {
		if only != nil && r.fact.story != only || (i+w.step)%stride > 0 && i < n-50 {
			continue
		}
		w.ask(a, "text", r, "look", 0)
		w.ask(a, "first", r, "look", 0)
		w.ask(a, "nextremark", r, "look", 0)
		if (i/stride)%4 == w.step%4 {
			w.ask(a, "nextfact", r, "look", 0)
			w.ask(a, "nextstory", r, "look", 0)
			w.ask(a, "output", r, "look", 0)
		}
	}
	for i, st := range w.model.stories {
		if only != nil && st != only || (i+w.step)%stride > 0 && i < len(w.model.stories)-50 {
			continue
		}
		w.ask(a, "list", st.any(len(st.facts)+w.step), "look", 0)
		w.ask(a, "nextstory", st.any(w.step), "look", 0)
		if st.index == 0 {
			w.ask(a, "sibs", st.head(), "look", 0)
		}
	}
}

// ---- a write in progress with readers around it

type actor struct {
	next  func() (struct{}, bool)
	stop  func()
	done  bool
	calls int
}

type reading struct {
	step   *Step
	client *client
	out    *outcome
	before string
	known  string
}

func (w *world) parallel(s *Step) {
	if !w.present(s) {
		return
	}
	wc := w.live(s.Client)
	byClient := map[int][]*reading{}
	clients := []int{}
	all := []*reading{}
	for i := range s.Readers {
		r := &s.Readers[i]
		ci := r.Client % len(w.clients)
		if ci == wc.index || w.model.remarks[r.Target] == nil || isWrite(r.Op) || r.Op == "bogus" {
			continue
		}
		rd := &reading{step: r, client: w.live(ci)}
		rd.before, rd.known = w.model.expect(r.Op, w.model.remarks[r.Target])
		if byClient[ci] == nil {
			clients = append(clients, ci)
		}
		byClient[ci] = append(byClient[ci], rd)
		all = append(all, rd)
	}
	var wout *outcome
	actors := map[int]*actor{}
	spawn := func(id int, body func(yield func())) {
		next, stop := iter.Pull(func(yield func(struct{}) bool) {
			body(func() { yield(struct{}{}) })
		})
		actors[id] = &actor{next: next, stop: stop}
	}
	w.log("client %d: %s, with readers:", wc.index, show(s))
	spawn(-1, func(yield func()) {
		ctx := begin(s)
		ctx.yield = yield
		yield()
		wout = w.run(wc, s, ctx)
		w.log("         writer -> %s %s%s (%d calls)", wout.status, wout.msg, faultNote(wout), ctx.calls)
	})
	for _, ci := range clients {
		ci := ci
		spawn(ci, func(yield func()) {
			for _, rd := range byClient[ci] {
				ctx := begin(rd.step)
				ctx.yield = yield
				yield()
				if rd.client.port.dead {
					return
				}
				rd.out = w.run(rd.client, rd.step, ctx)
				w.log("         reader %d: %s -> %s %s %s%s", ci, show(rd.step), rd.out.status, rd.out.canon, rd.out.msg, faultNote(rd.out))
				if rd.out.status == "crash" {
					return
				}
			}
		})
	}
	// the schedule, then everybody to the end
	switches := uint64(14695981039346656037)
	resume := func(id int) bool {
		a := actors[id]
		if a == nil || a.done {
			return false
		}
		if _, ok := a.next(); !ok {
			a.done = true
			return false
		}
		a.calls++
		return true
	}
	for _, b := range s.Sched {
		id := b.Actor
		if id >= 0 {
			id = id % len(w.clients)
		}
		for n := 0; n < b.Calls && resume(id); n++ {
		}
		if a := actors[id]; a != nil {
			switches = (switches ^ uint64(id+7)<<32 ^ uint64(a.calls)) * 1099511628211
			w.note(902, uint64(id+7), uint64(a.calls))
		}
	}
	for _, id := range append([]int{-1}, clients...) {
		for resume(id) {
		}
	}
	if w.stats != nil {
		w.stats.interleaving(switches)
	}
	if wout == nil {
		return
	}
	// the state afterwards; the before-state's answers were kept
	w.judgeWrite(wc, s, wout, true)
	seenAfter := -1
	for _, rd := range all {
		if rd.out == nil {
			continue
		}
		m := w.model.remarks[rd.step.Target]
		after, known := w.model.expect(rd.step.Op, m)
		accept := []string{rd.before, after}
		if rd.known != "" {
			accept = append(accept, rd.known)
		}
		if known != "" {
			accept = append(accept, known)
		}
		w.judgeRead(rd.client, rd.step, rd.out, accept)
	}
	// once seen, it stays; and it is seen by whoever asks after the answer
	acked := wout.status == "ok" && len(wout.swallowed) == 0
	for _, rd := range all {
		if rd.out == nil || rd.out.status != "ok" || len(rd.out.swallowed) > 0 || rd.known != "" {
			continue
		}
		after, known := w.model.expect(rd.step.Op, w.model.remarks[rd.step.Target])
		if known != "" || after == rd.before || rd.out.canon != after {
			continue
		}
		if seenAfter < 0 || rd.out.finish < seenAfter {
			seenAfter = rd.out.finish
		}
	}
	for _, rd := range all {
		if rd.out == nil || rd.out.status != "ok" || rd.known != "" {
			continue
		}
		after, known := w.model.expect(rd.step.Op, w.model.remarks[rd.step.Target])
		if known != "" || after == rd.before || rd.out.canon != rd.before {
			continue
		}
		if seenAfter >= 0 && rd.out.start > seenAfter {
			w.violate(obsPar, &where{op: rd.step.Op, par: true}, fmt.Sprintf("%s no longer shows the effect of %s, which was seen before", show(rd.step), show(s)))
		}
		if acked && rd.out.start > wout.finish {
			w.violate(obsPar, &where{op: rd.step.Op, par: true}, fmt.Sprintf("%s does not show the effect of %s, which had returned", show(rd.step), show(s)))
		}
	}
}
