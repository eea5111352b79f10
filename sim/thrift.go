package main

// What interrupted writes waste (C22): a write that is interrupted and then
// repeated may take only so many nodes more than a write that is not, no
// matter how long its texts are and how far it had come.

import "fmt"

// wasteLimit is the number of nodes an interruption may waste. What is created
// for a remark, a fact and a story does not depend on texts, and may be
// created again; of texts, only what was being created when it happened.
const wasteLimit = 16

// needed is the number of nodes the write would create now, if it were not
// interrupted; -1 if that cannot be told.
func (w *world) needed(s *Step) int {
	w.rehearsing = true
	w.be.mark()
	step := *s
	step.Faults = nil
	if s.Op != "create" {
		step.Via = "look"
	}
	ctx := &opctx{}
	out := w.run(w.auditor(), &step, ctx)
	w.be.rewind()
	w.rehearsing = false
	w.note(905, uint64(ctx.creates-ctx.deletes))
	if out.status != "ok" {
		return -1
	}
	return ctx.creates - ctx.deletes
}

func (w *world) frugal(s *Step) bool {
	return w.cfg.Thrift && isWrite(s.Op) && w.mode == "" && len(s.Faults) > 0 && wellFormed(s) && !odd(s)
}

// thrift judges an interrupted write by what its repetition still creates.
func (w *world) thrift(s *Step, before int, out *outcome) {
	if before < 0 || out.status == "ok" || out.fired == 0 {
		return
	}
	after := w.needed(s)
	if after < 0 {
		return
	}
	stored := out.ctx.creates - out.ctx.deletes
	waste := stored + after - before
	w.log("         would have created %d, created %d, repeating it would create %d: %d wasted", before, stored, after, waste)
	w.stats.hit("waste of an interrupted write measured")
	if stored > wasteLimit {
		w.stats.hit("waste measured of a write that had created many nodes")
	}
	if waste > w.stats.MaxWaste {
		w.stats.MaxWaste = waste
	}
	if waste > wasteLimit {
		w.violate(obsWaste, &where{op: s.Op}, fmt.Sprintf("%s would have created %d nodes; it was interrupted after %d, and repeating it creates another %d", show(s), before, stored, after))
	}
}
