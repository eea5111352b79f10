package main

// What a handle keeps (C24): after many operations of some kinds, the process
// may not hold more memory than after a quarter of them, nor may goroutines be
// left behind. The storage of these operations takes all its memory beforehand.

import (
	"fmt"
	"math/bits"
	"runtime"
	"strings"
	"time"

	"github.com/mem-memov/semnet"
)

// soakKinds are what a soak can consist of.
var soakKinds = []string{"create", "addremark", "addfact", "child", "text", "walk", "output", "lookup",
	"unknown", "malformed", "failed write", "failed read", "dying write", "new handle", "new output", "chain", "journey"}

// soakKeep is the number of bytes for each operation that may be kept: less
// than a number in a list.
const soakKeep = 4

// ---- a storage without memory of its own: it is all there from the start

type flatNode struct{ prev, next, firstTarget, lastTarget, firstSource, lastSource, targets, sources uint32 }
type flatLink struct{ source, target, nextTarget, nextSource uint32 }

type flatStore struct {
	nodes []flatNode
	links []flatLink
	full  bool
	until int // the storage call that fails, counted down; -1: none
	die   bool
	fired int
	calls int
}

var flat *flatStore // used again by the next soak of the process

func newFlatStore() *flatStore {
	if flat == nil {
		flat = &flatStore{nodes: make([]flatNode, 0, 3<<20), links: make([]flatLink, 0, 4<<20)}
	}
	flat.nodes, flat.links, flat.full, flat.until, flat.fired, flat.calls = flat.nodes[:0], flat.links[:0], false, -1, 0, 0
	return flat
}

func (s *flatStore) enter(ids ...uint) error {
	s.calls++
	if s.calls&1023 == 0 {
		progress.Add(1)
	}
	if s.until >= 0 {
		s.until--
		if s.until < 0 {
			s.fired++
			if s.die {
				panic(crashSentinel{})
			}
			return errStorage
		}
	}
	for _, id := range ids {
		if id < 1 || id > uint(len(s.nodes)) {
			return errNoNode
		}
	}
	return nil
}

var errNoNode = fmt.Errorf("storage: no such node")

func (s *flatStore) Has(id uint) (bool, error) {
	if err := s.enter(); err != nil {
		return false, err
	}
	return id >= 1 && id <= uint(len(s.nodes)), nil
}

func (s *flatStore) Create() (uint, error) {
	if err := s.enter(); err != nil {
		return 0, err
	}
	if len(s.nodes) == cap(s.nodes) {
		s.full = true
		return 0, errStorage
	}
	s.nodes = append(s.nodes, flatNode{})
	return uint(len(s.nodes)), nil
}

func (s *flatStore) ReadTargets(id uint) ([]uint, error) {
	if err := s.enter(id); err != nil {
		return nil, err
	}
	n := &s.nodes[id-1]
	out := make([]uint, 0, n.targets)
	for l := n.firstTarget; l != 0; l = s.links[l-1].nextTarget {
		if s.links[l-1].source != 0 {
			out = append(out, uint(s.links[l-1].target))
		}
	}
	return out, nil
}

func (s *flatStore) ReadSources(id uint) ([]uint, error) {
	if err := s.enter(id); err != nil {
		return nil, err
	}
	n := &s.nodes[id-1]
	out := make([]uint, 0, n.sources)
	for l := n.firstSource; l != 0; l = s.links[l-1].nextSource {
		if s.links[l-1].source != 0 {
			out = append(out, uint(s.links[l-1].source))
		}
	}
	return out, nil
}

func (s *flatStore) SetReference(id, reference uint) error {
	if err := s.enter(id, reference); err != nil {
		return err
	}
	s.nodes[id-1].next, s.nodes[reference-1].prev = uint32(reference), uint32(id)
	return nil
}

func (s *flatStore) GetReference(id uint) (uint, uint, error) {
	if err := s.enter(id); err != nil {
		return 0, 0, err
	}
	return uint(s.nodes[id-1].prev), uint(s.nodes[id-1].next), nil
}

func (s *flatStore) Connect(source, target uint) error {
	if err := s.enter(source, target); err != nil {
		return err
	}
	a, b := &s.nodes[source-1], &s.nodes[target-1]
	for l := a.firstTarget; l != 0 && a.targets < 1000; l = s.links[l-1].nextTarget {
		if s.links[l-1].source != 0 && uint(s.links[l-1].target) == target {
			return nil
		}
	}
	if len(s.links) == cap(s.links) {
		s.full = true
		return errStorage
	}
	s.links = append(s.links, flatLink{source: uint32(source), target: uint32(target)})
	l := uint32(len(s.links))
	if a.firstTarget == 0 {
		a.firstTarget = l
	} else {
		s.links[a.lastTarget-1].nextTarget = l
	}
	if b.firstSource == 0 {
		b.firstSource = l
	} else {
		s.links[b.lastSource-1].nextSource = l
	}
	a.lastTarget, b.lastSource = l, l
	a.targets++
	b.sources++
	return nil
}

func (s *flatStore) Disconnect(source, target uint) error {
	if err := s.enter(source, target); err != nil {
		return err
	}
	for l := s.nodes[source-1].firstTarget; l != 0; l = s.links[l-1].nextTarget {
		if uint(s.links[l-1].target) == target && s.links[l-1].source != 0 {
			s.links[l-1].source = 0
			s.nodes[source-1].targets--
			s.nodes[target-1].sources--
			return nil
		}
	}
	return errStorage
}

func (s *flatStore) Delete(id uint) error { return s.enter(id) }

// ---- the operations

type soak struct {
	store  *flatStore
	graph  *semnet.Graph
	output *semnet.Output
	r      rng
	ring   [8]semnet.Remark
	last   semnet.Remark
	at     semnet.Remark
	texts  int
	done   int
	ends   map[string]int
}

// text is one that was not used before, or a common one.
func (k *soak) text() string {
	if k.r.p(25) {
		return []string{"a", "b", "a b", "cat", "the cat"}[k.r.n(5)]
	}
	k.texts++
	if k.r.p(20) {
		return fmt.Sprintf("t%d u%d", k.texts*7919%99991, k.r.n(50))
	}
	return fmt.Sprintf("t%d", k.texts*7919%99991)
}

func (k *soak) create() (semnet.Remark, error) {
	a, err := k.graph.CreateStory(k.text(), k.text())
	return semnet.Remark{Aggregate: a}, err
}

func (k *soak) write(op int, r semnet.Remark) (semnet.Remark, error) {
	switch op {
	case 1:
		a, err := r.AddRemarkToFact(k.text())
		return semnet.Remark{Aggregate: a}, err
	case 2:
		a, err := r.AddFactToStory(k.text(), k.text())
		return semnet.Remark{Aggregate: a}, err
	case 3:
		a, err := r.CreateChildStory(k.text(), k.text())
		return semnet.Remark{Aggregate: a}, err
	}
	return k.create()
}

func (k *soak) one(kind string) (err error) {
	k.done++
	place := k.r.n(len(k.ring))
	r := k.ring[place]
	defer func() {
		k.store.until = -1
		if e := recover(); e != nil {
			if _, crash := e.(crashSentinel); !crash {
				panic(e)
			}
			k.open()
			err = nil
		}
	}()
	var made semnet.Remark
	switch kind {
	case "create":
		made, err = k.create()
	case "addremark":
		made, err = k.write(1, r)
	case "addfact":
		made, err = k.write(2, r)
	case "child":
		made, err = k.write(3, r)
	case "text":
		_, _, err = r.GetObjectAndProperty()
	case "walk":
		_, err = r.GetFirstFact()
		for _, step := range []func() error{
			func() error { _, e := r.GetNextFact(); return e },
			func() error { _, e := r.GetNextStory(); return e },
			func() error { _, e := r.GetNextRemark(); return e },
		} {
			_ = step()
		}
	case "output":
		_, err = k.output.GetStory(r)
	case "lookup":
		made, err = k.graph.GetRemark(r.GetIdentifier())
	case "unknown":
		_, e := k.graph.GetRemark(uint(k.done*13) + uint(k.r.n(2))<<uint(30+k.r.n(30)))
		if e == nil {
			k.ends["found"]++
		}
	case "malformed":
		bad := []string{"", " ", "a  b", " " + k.text(), k.text() + " "}[k.r.n(5)]
		if k.r.p(50) {
			_, _ = k.graph.CreateStory(bad, k.text())
		} else {
			_, _ = r.AddFactToStory(k.text(), bad)
		}
	case "failed write", "dying write":
		k.store.until, k.store.die = k.r.n(120), kind == "dying write"
		_, _ = k.write(k.r.n(4), r)
	case "failed read":
		k.store.until, k.store.die = k.r.n(40), false
		switch k.r.n(4) {
		case 0:
			_, _, _ = r.GetObjectAndProperty()
		case 1:
			_, _ = k.output.GetStory(r)
		case 2:
			_, _ = k.graph.GetRemark(r.GetIdentifier())
		case 3:
			_, _ = r.GetFirstFact()
		}
	case "new handle":
		g := semnet.NewGraph(k.store)
		made, err = g.GetRemark(r.GetIdentifier())
	case "chain":
		// each write on the remark that the last one gave
		if k.r.p(50) {
			k.last, err = k.write(2, k.last)
		} else {
			k.last, err = k.write(3, k.last)
		}
	case "journey":
		// each step from where the last one led
		next, e := k.at.GetNextFact()
		if e != nil {
			next, err = k.at.GetFirstFact()
		}
		if err == nil {
			k.at = semnet.Remark{Aggregate: next}
		}
	case "new output":
		_, err = semnet.NewOutput(k.graph).GetStory(r)
	}
	if err == nil && made.Aggregate != nil {
		k.ring[place] = made
	}
	if err == nil && k.done%12 == 0 && (kind == "addremark" || kind == "addfact" || kind == "child") {
		k.ring[place], err = k.create()
	}
	return err
}

// open begins again with a new handle, as a new process would.
func (k *soak) open() {
	k.graph = semnet.NewGraph(k.store)
	k.output = semnet.NewOutput(k.graph)
	for i, r := range k.ring {
		if r.Aggregate == nil {
			continue
		}
		if n, err := k.graph.GetRemark(r.GetIdentifier()); err == nil {
			k.ring[i] = n
		}
	}
}

func (k *soak) rounds(kinds []string, n int) error {
	for i := 0; i < n; i++ {
		kind := kinds[i%len(kinds)]
		if err := k.one(kind); err != nil {
			return fmt.Errorf("%s: %w", kind, err)
		}
	}
	return nil
}

func held() int {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int(m.HeapAlloc)
}

// goroutines counts them once those that are about to end have ended.
func goroutines(most int) int {
	n := runtime.NumGoroutine()
	for i := 0; i < 50 && n > most; i++ {
		time.Sleep(10 * time.Millisecond)
		n = runtime.NumGoroutine()
	}
	return n
}

// soak executes s.N operations of the kinds s.Op, then three times, then again
// four times as many.
func (w *world) soak(s *Step) {
	kinds := strings.Split(s.Op, "+")
	k := &soak{store: newFlatStore(), r: rng{mix(w.cfg.StoreSeed, uint64(s.Client))}, ends: map[string]int{}}
	k.open()
	for i := range k.ring {
		k.ring[i], _ = k.create()
		if k.ring[i].Aggregate == nil {
			return // shows elsewhere
		}
	}
	k.last, _ = k.create()
	k.at, _ = k.create()
	for i := 0; i < 5 && k.last.Aggregate != nil && k.at.Aggregate != nil; i++ {
		_, _ = k.write(2, k.at)
	}
	if k.last.Aggregate == nil || k.at.Aggregate == nil {
		return // shows elsewhere
	}
	at := &where{op: "soak"}
	var size [3]int
	var running [3]int
	for i, n := range []int{s.N, 3 * s.N, 4 * s.N} {
		err := k.rounds(kinds, n)
		if err != nil || k.store.full {
			w.log("soak of %s ends after %d operations: %v", s.Op, k.done, err)
			return // shows elsewhere
		}
		most := running[0]
		if i == 0 {
			most = 1 << 30
		}
		size[i], running[i] = held(), goroutines(most)
		grown, more := 0, 0
		if i > 0 {
			grown, more = (size[i]-size[i-1])/n, running[i]-running[0]
		}
		w.log("soak of %s: after %d operations and %d storage calls, %d bytes for each more, %d goroutines more", s.Op, k.done, k.store.calls, grown, more)
		if more > 0 {
			w.violate(obsLeak, at, fmt.Sprintf("after %d operations (%s) goroutines are left running that were not there after %d", k.done, s.Op, s.N))
			return
		}
		if i > 0 && size[i]-size[i-1] < n*soakKeep {
			for _, kind := range kinds {
				w.stats.hit("memory compared after many operations: " + kind)
			}
			if k.store.fired > 0 {
				w.stats.hit("memory compared after storage failures")
				w.stats.fault("soak", "", "")
			}
			w.stats.hit("memory compared after many operations")
			w.note(906, uint64(k.store.calls), uint64(len(k.store.nodes)))
			return
		}
	}
	per := uint((size[2] - size[1]) / (4 * s.N))
	w.violate(obsLeak, at, fmt.Sprintf("each operation (%s) leaves about %d bytes behind that are not given up, from %d operations to %d", s.Op, 1<<uint(bits.Len(per)-1), s.N, k.done))
}

func (g *generator) soaks() {
	for i := 0; i < 2; i++ {
		n := 1 + g.r.n(3)*g.r.n(2)
		kinds := []string{}
		for len(kinds) < n {
			kinds = append(kinds, soakKinds[g.r.n(len(soakKinds))])
		}
		g.do(Step{Do: "soak", Op: strings.Join(kinds, "+"), N: 2000 + g.r.n(2000), Client: g.r.n(1000), UID: -1})
	}
}
