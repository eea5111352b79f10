package main

// Clients on threads of their own (C15, C18): every client is a goroutine, and
// a seeded scheduler lets exactly one of them go on at a time, from one storage
// call to the next. The handing over is hidden from the race detector, so that
// it reports any memory two clients use without synchronisation, whether or not
// the accesses come close to each other in this schedule. All work on the
// storages is done by the scheduler.

import (
	"fmt"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/mem-memov/semnet"
)

const maxList = 1 << 12

// threadPort passes storage calls to the scheduler.
type threadPort struct {
	request, reply chan struct{}
	ended          atomic.Uint64
	kind, a, b     atomic.Uint64
	failed         atomic.Uint64
	r, s           atomic.Uint64
	length         atomic.Uint64
	list           [maxList]atomic.Uint64
	failures       int // seen by the thread
}

func (p *threadPort) call(kind int, a, b uint) error {
	raceOff()
	p.kind.Store(uint64(kind))
	p.a.Store(uint64(a))
	p.b.Store(uint64(b))
	p.request <- struct{}{}
	<-p.reply
	failed := p.failed.Load() > 0
	raceOn()
	if failed {
		p.failures++
		return errStorage
	}
	return nil
}

func (p *threadPort) links(kind int, id uint) ([]uint, error) {
	if err := p.call(kind, id, 0); err != nil {
		return nil, err
	}
	raceOff()
	out := make([]uint, p.length.Load())
	for i := range out {
		out[i] = uint(p.list[i].Load())
	}
	raceOn()
	return out, nil
}

func (p *threadPort) value(v *atomic.Uint64) uint {
	raceOff()
	defer raceOn()
	return uint(v.Load())
}

func (p *threadPort) Has(id uint) (bool, error) {
	if err := p.call(kHas, id, 0); err != nil {
		return false, err
	}
	return p.value(&p.r) > 0, nil
}

func (p *threadPort) Create() (uint, error) {
	if err := p.call(kCreate, 0, 0); err != nil {
		return 0, err
	}
	return p.value(&p.r), nil
}

func (p *threadPort) GetReference(id uint) (uint, uint, error) {
	if err := p.call(kGetRef, id, 0); err != nil {
		return 0, 0, err
	}
	return p.value(&p.r), p.value(&p.s), nil
}

func (p *threadPort) ReadSources(id uint) ([]uint, error)    { return p.links(kSources, id) }
func (p *threadPort) ReadTargets(id uint) ([]uint, error)    { return p.links(kTargets, id) }
func (p *threadPort) SetReference(id uint, other uint) error { return p.call(kSetRef, id, other) }
func (p *threadPort) Connect(id uint, other uint) error      { return p.call(kConnect, id, other) }
func (p *threadPort) Disconnect(id uint, other uint) error   { return p.call(kDisconnect, id, other) }
func (p *threadPort) Delete(id uint) error                   { return p.call(kDelete, id, 0) }

// serve executes the call on the storage; the scheduler does that.
func (p *threadPort) serve(be backend, fail bool) {
	a, b := uint(p.a.Load()), uint(p.b.Load())
	var err error
	list := []uint{}
	var r, s uint
	switch kind := int(p.kind.Load()); {
	case fail:
		err = errStorage
	case kind == kHas:
		var has bool
		if has, err = be.Has(a); has {
			r = 1
		}
	case kind == kCreate:
		r, err = be.Create()
	case kind == kSources:
		list, err = be.ReadSources(a)
	case kind == kTargets:
		list, err = be.ReadTargets(a)
	case kind == kSetRef:
		err = be.SetReference(a, b)
	case kind == kGetRef:
		r, s, err = be.GetReference(a)
	case kind == kConnect:
		err = be.Connect(a, b)
	case kind == kDisconnect:
		err = be.Disconnect(a, b)
	case kind == kDelete:
		err = be.Delete(a)
	}
	if len(list) > maxList {
		panic("simulator: long list")
	}
	p.failed.Store(0)
	if err != nil {
		p.failed.Store(1)
	}
	p.r.Store(uint64(r))
	p.s.Store(uint64(s))
	p.length.Store(uint64(len(list)))
	for i, x := range list {
		p.list[i].Store(uint64(x))
	}
}

// thread is a client on a thread of its own.
type thread struct {
	world, client int
	port          *threadPort
	steps         []*Step
	known         []written // acknowledged remarks it may use
	wrong         []string
	trace         []string
	done          bool
	calls         int // of all operations
	before        int // failures seen before the operation
}

type written struct {
	id   uint
	o, p string
}

// work executes the steps. Only a failed storage call is an excuse for an error.
func (t *thread) work(graph *semnet.Graph) {
	for _, s := range t.steps {
		t.one(graph, s)
	}
}

func (t *thread) one(graph *semnet.Graph, s *Step) {
	what := fmt.Sprintf("storage %d client %d: %s", t.world, t.client, s.Op)
	if t.port != nil {
		t.before = t.port.failures
	}
	defer func() {
		if r := recover(); r != nil {
			t.wrong = append(t.wrong, fmt.Sprintf("%s: panic: %v", what, r))
		}
	}()
	var r semnet.Remark
	var err error
	var on written
	if s.Op != "create" {
		if len(t.known) == 0 {
			return
		}
		on = t.known[s.N%len(t.known)]
		if r, err = graph.GetRemark(on.id); err != nil {
			t.fail(what, err)
			return
		}
		what += fmt.Sprintf(" on %d", on.id)
	}
	ack := func(x interface{ GetIdentifier() uint }, o, p string) {
		if err == nil {
			t.known = append(t.known, written{x.GetIdentifier(), strings.Clone(o), strings.Clone(p)})
		}
	}
	switch s.Op {
	case "create":
		what += fmt.Sprintf("(%q, %q)", s.O, s.P)
		r, err = graph.CreateStory(s.O, s.P)
		ack(r.Aggregate, s.O, s.P)
	case "addremark":
		what += fmt.Sprintf("(%q)", s.P)
		added, e := r.AddRemarkToFact(s.P)
		err = e
		ack(added, on.o, s.P)
	case "addfact":
		what += fmt.Sprintf("(%q, %q)", s.O, s.P)
		added, e := r.AddFactToStory(s.O, s.P)
		err = e
		ack(added, s.O, s.P)
	case "child":
		what += fmt.Sprintf("(%q, %q)", s.O, s.P)
		added, e := r.CreateChildStory(s.O, s.P)
		err = e
		ack(added, s.O, s.P)
	case "text":
		var o, p string
		o, p, err = r.GetObjectAndProperty()
		if err == nil && (o != on.o || p != on.p) {
			t.wrong = append(t.wrong, fmt.Sprintf("%s: reads %q %q instead of %q %q", what, o, p, on.o, on.p))
		}
	case "first":
		_, err = r.GetFirstFact()
	case "nextfact":
		var has bool
		if has, err = r.HasNextFact(); err == nil && has {
			_, err = r.GetNextFact()
		}
	case "nextstory":
		var has bool
		if has, err = r.HasNextStory(); err == nil && has {
			_, err = r.GetNextStory()
		}
	case "nextremark":
		var has bool
		if has, err = r.HasNextRemark(); err == nil && has {
			_, err = r.GetNextRemark()
		}
	case "output":
		_, err = semnet.NewOutput(graph).GetStory(r)
	}
	if err != nil {
		t.fail(what, err)
		return
	}
	t.trace = append(t.trace, what)
}

func (t *thread) fail(what string, err error) {
	if t.port == nil || t.before == t.port.failures {
		t.wrong = append(t.wrong, fmt.Sprintf("%s: %v", what, err))
	}
	t.trace = append(t.trace, what+" -> "+err.Error())
}

// runThreads executes a scenario of threads.
func runThreads(sc *Scenario, st *stats) *answer {
	a := &answer{Stats: st, Scenario: sc}
	cfgs := append([]Config{sc.Config}, sc.Peers...)
	stores := []backend{}
	known := make([][]written, len(cfgs))
	for i := range cfgs {
		stores = append(stores, newBackend(cfgs[i]))
	}
	// what is there before
	threads := []*thread{}
	for i := range sc.Steps {
		s := &sc.Steps[i]
		w := s.World
		if w >= len(cfgs) {
			continue
		}
		if s.Client == 0 {
			t := &thread{world: w, steps: []*Step{s}, known: known[w]}
			t.work(semnet.NewGraph(stores[w]))
			known[w] = t.known
			a.Trace = append(a.Trace, t.trace...)
			a.wrong(t)
			continue
		}
		var t *thread
		for _, o := range threads {
			if o.world == w && o.client == s.Client {
				t = o
			}
		}
		if t == nil {
			t = &thread{world: w, client: s.Client, port: &threadPort{request: make(chan struct{}), reply: make(chan struct{})}}
			threads = append(threads, t)
		}
		t.steps = append(t.steps, s)
	}
	var wg sync.WaitGroup
	for _, t := range threads {
		t.known = append([]written{}, known[t.world]...)
		wg.Add(1)
		go func() {
			defer wg.Done()
			raceOff()
			<-t.port.reply
			raceOn()
			t.work(semnet.NewGraph(t.port))
			raceOff()
			t.port.ended.Store(1)
			t.port.request <- struct{}{}
			raceOn()
		}()
	}
	hash := uint64(14695981039346656037)
	raceOff()
	// step lets a thread go on to its next storage call
	step := func(i int) bool {
		t := threads[i]
		if t.done {
			return false
		}
		progress.Add(1)
		t.port.reply <- struct{}{}
		<-t.port.request
		if t.port.ended.Load() > 0 {
			t.done = true
			return false
		}
		fail := false
		for _, s := range t.steps {
			for _, f := range s.Faults {
				fail = fail || f.At == t.calls
			}
		}
		t.calls++
		st.Calls++
		t.port.serve(stores[t.world], fail)
		for _, v := range []uint64{uint64(i), t.port.kind.Load(), t.port.a.Load(), t.port.r.Load()} {
			hash = (hash ^ v) * 1099511628211
		}
		return true
	}
	switches := uint64(14695981039346656037)
	if len(threads) > 0 {
		for _, b := range sc.Sched {
			i := b.Actor % len(threads)
			for n := 0; n < b.Calls && step(i); n++ {
			}
			switches = (switches ^ uint64(i+7)<<32 ^ uint64(threads[i].calls)) * 1099511628211
		}
	}
	for i := range threads {
		for step(i) {
		}
	}
	raceOn()
	wg.Wait()
	for _, t := range threads {
		a.Trace = append(a.Trace, t.trace...)
		a.wrong(t)
	}
	st.Runs = 1
	st.interleaving(switches)
	st.Histories[hash]++
	a.Hash = hash
	return a
}

func (a *answer) wrong(t *thread) {
	for _, m := range t.wrong {
		a.Viol = append(a.Viol, violation{Obs: obsThreads, Props: []string{"C15", "C18"}, World: t.world, Op: "thread", Msg: m})
	}
}

// generateThreads makes a scenario of threads: for C15 one storage with a
// writer and readers, otherwise clients on different storages.
func generateThreads(seed uint64, prop string) *Scenario {
	r := newRng(mix(seed, 77))
	sc := &Scenario{Threads: true}
	p := profileOf(prop)
	p.reuse = 60
	worlds := 1
	if prop == "C18" {
		worlds = 2 + r.n(2)
	}
	var first *generator
	for w := 0; w < worlds; w++ {
		g := newGenerator(r, p, sc)
		g.cfg.Object, g.cfg.Clients = "", 1
		if w == 0 {
			sc.Config, first = g.cfg, g
		} else {
			sc.Peers = append(sc.Peers, g.cfg)
			if r.p(60) {
				g.words, g.phrases, g.alpha = first.words, first.phrases, first.alpha
			}
		}
		g.long = 1
		write := func(client int) Step {
			s := Step{Do: "op", World: w, Client: client, Op: []string{"create", "addremark", "addfact", "child"}[r.n(4)], O: g.phrase(), P: g.phrase(), N: r.n(1000)}
			if prop == "C18" && r.p(8) {
				s.Faults = []Fault{{At: r.n(1500), Kind: "err"}}
			}
			return s
		}
		read := func(client int) Step {
			return Step{Do: "op", World: w, Client: client, Op: []string{"text", "text", "first", "nextfact", "nextstory", "nextremark", "output"}[r.n(7)], N: r.n(1000)}
		}
		if prop == "C15" || r.p(60) {
			for i, n := 0, 1+r.n(4); i < n; i++ {
				s := write(0)
				s.Faults = nil
				if i == 0 {
					s.Op = "create"
				}
				sc.Steps = append(sc.Steps, s)
			}
		}
		for i, n := 0, 1+r.n(4); i < n; i++ {
			if prop == "C18" && r.p(40) {
				sc.Steps = append(sc.Steps, read(1))
			} else {
				sc.Steps = append(sc.Steps, write(1))
			}
		}
		if prop == "C15" {
			for c, readers := 2, 3+r.n(2); c <= readers; c++ {
				for i, n := 0, 1+r.n(5); i < n; i++ {
					sc.Steps = append(sc.Steps, read(c))
				}
			}
		}
	}
	for i, n := 0, r.n(60); i < n; i++ {
		sc.Sched = append(sc.Sched, Burst{r.n(8), 1 + r.n(1+r.n(300))})
	}
	return sc
}

var frameLine = regexp.MustCompile(`^  ([^\s(].*)\(\)$`)

// races are the reports of the race detector in which both accesses are made
// by semnet.
func races(stderr string) (out []string) {
	for _, block := range strings.Split(stderr, "==================") {
		if !strings.Contains(block, "WARNING: DATA RACE") {
			continue
		}
		places, own := []string{}, true
		// the stack below each line that names an access
		lines := strings.Split(block, "\n")
		for i, l := range lines {
			l = strings.ToLower(l)
			if !strings.Contains(l, " at 0x") || !strings.Contains(l, " by ") {
				continue
			}
			place := ""
			for _, f := range lines[i+1:] {
				if f == "" {
					break
				}
				if m := frameLine.FindStringSubmatch(f); m != nil {
					name := m[1]
					if strings.Contains(name, "/") && strings.Contains(strings.SplitN(name, "/", 2)[0], ".") || strings.HasPrefix(name, "main.") {
						place = name
						break
					}
				}
			}
			own = own && strings.HasPrefix(place, "github.com/mem-memov/semnet")
			places = append(places, place)
		}
		if own && len(places) > 1 {
			out = append(out, fmt.Sprintf("%s and %s use the same memory without synchronisation:\n%s", places[0], places[1], strings.TrimSpace(block)))
		}
	}
	return out
}
