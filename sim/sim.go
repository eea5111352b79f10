package main

// The simulated world: client processes, the storage port each of them talks
// through, fault injection, and the execution of a single operation.
//
// Every storage call of the code under test passes through port.call. That is
// the one place where the simulator decides what happens next: another client
// runs (coroutine switch), the process dies, the call fails, its answer is
// lost, or it is executed.

import (
	"encoding/binary"
	"errors"
	"fmt"
	"hash/fnv"
	"runtime"
	"strings"
)

// ---- scenario: plain data; executing it involves no randomness except the
// storage's own, which is seeded by Config.StoreSeed

type Config struct {
	Backend   string `json:"backend"` // clew | mem
	IDs       string `json:"ids,omitempty"`
	Order     string `json:"order,omitempty"`
	StoreSeed uint64 `json:"store_seed,omitempty"`
	Clients   int    `json:"clients"`
	EarlyOpen bool   `json:"early_open,omitempty"` // handles are opened before the storage is first used
	Object    string `json:"object,omitempty"`     // what NewGraph is given: "" an object for each handle | shared | value
	Thrift    bool   `json:"thrift,omitempty"`     // what interrupted writes waste is measured
	Old       int    `json:"old,omitempty"`        // the storage holds a graph that was stored earlier
	Mixed     bool   `json:"mixed,omitempty"`      // some of the handles are of the version in frozen/
	Partial   bool   `json:"partial,omitempty"`    // a storage call that fails returns values beside the error
}

type Fault struct {
	At   int    `json:"at"`             // storage call of the operation, counted from 0
	Kind string `json:"kind"`           // err | lost | outage | crash | crash-after
	Len  int    `json:"len,omitempty"`  // outage: number of calls
	All  bool   `json:"all,omitempty"`  // crash: every process dies, not only the caller
	Note string `json:"note,omitempty"` // call kind seen when the scenario was generated

	// While a scenario is generated, At may be left open: the fault then goes
	// to a call from a place in the code (depth frames of the stack) at which
	// no such fault has been injected in this run, passing over arm-1 of them.
	// At gets the outcome.
	arm, depth int
}

type Step struct {
	Do      string  `json:"do"`              // op | par | cross | mode | reopen | restart | audit | review | gauge
	World   int     `json:"world,omitempty"` // which storage the step is about
	UID     int     `json:"uid,omitempty"`
	Client  int     `json:"client"`
	Op      string  `json:"op,omitempty"`
	Target  int     `json:"target,omitempty"`
	Via     string  `json:"via,omitempty"` // held | kept | look | walk | sib | first
	O       string  `json:"o,omitempty"`
	P       string  `json:"p,omitempty"`
	Bogus   string  `json:"bogus,omitempty"` // zero | unused | huge | internal | raw | alias
	N       int     `json:"n,omitempty"`
	Raw     bool    `json:"raw,omitempty"`  // O and P are in Go syntax, because they are not valid UTF-8
	Key     string  `json:"key,omitempty"`  // measure: samples with the same key are compared
	Mode    string  `json:"mode,omitempty"` // "" | readonly | full | down
	Faults  []Fault `json:"faults,omitempty"`
	Readers []Step  `json:"readers,omitempty"` // par: read operations, by client, in order
	Sched   []Burst `json:"sched,omitempty"`   // par, cross: who runs for how many storage calls
	Pair    []Step  `json:"pair,omitempty"`    // cross: operations on different storages, in progress at the same time
}

type Burst struct {
	Actor int `json:"a"` // par: -1 the writer, otherwise a client; cross: index of the operation
	Calls int `json:"n"`
}

type Scenario struct {
	Config Config   `json:"config"`
	Peers  []Config `json:"peers,omitempty"` // further storages in the same process
	Steps  []Step   `json:"steps"`

	Threads bool    `json:"threads,omitempty"` // clients are threads (threads.go); client 0 goes first, alone
	Sched   []Burst `json:"sched,omitempty"`   // of threads
}

// universe is everything that lives in one process: usually one world, that
// is one storage with its clients, and sometimes several.
type universe struct {
	worlds  []*world
	stats   *stats
	tracing bool
	trace   []string
	current int
	clock   int
	hash    uint64
	viol    []violation
}

func newUniverse(sc *Scenario, st *stats, tracing bool) *universe {
	u := &universe{stats: st, tracing: tracing, hash: 14695981039346656037}
	for i, cfg := range append([]Config{sc.Config}, sc.Peers...) {
		w := newWorld(cfg, st, u)
		w.index = i
		u.worlds = append(u.worlds, w)
	}
	return u
}

func (u *universe) execute(s *Step) {
	if s.World >= len(u.worlds) {
		return
	}
	if s.Do == "cross" {
		u.cross(s)
		return
	}
	u.worlds[s.World].execute(s)
}

func (u *universe) crashes() (n int) {
	for _, w := range u.worlds {
		n += w.crashes
	}
	return n
}

func isWrite(op string) bool {
	switch op {
	case "create", "addremark", "addfact", "child":
		return true
	}
	return false
}

// ---- sentinels that unwind an operation from inside a storage call

type crashSentinel struct{}
type budgetSentinel struct{}

const opBudget = 6000000

// ---- one running operation

type opctx struct {
	calls, creates, muts int
	deletes              int
	work                 int // storage calls and links read
	faults               []Fault
	outage               int
	fired                int
	firedKinds           []string
	lax                  bool
	yield                func()
	record               bool
	kinds                []byte // recorded when rehearsing: one letter per call
	made                 []uint
	sites                map[uint64]bool // places an open fault has passed over
}

type client struct {
	index int
	graph handle
	port  *port
	held  map[int]remark
	kept  map[int][]remark // values from lookups and navigation
	out   writer           // used again and again
	used  bool
	old   bool // runs the version in frozen/
}

type world struct {
	u       *universe
	index   int
	cfg     Config
	be      backend
	clients []*client
	model   *model
	mode    string

	known    map[uint]bool // identifiers the storage handed out
	created  []uint
	changes  uint64        // hash of all changes made to the storage
	answers  uint64        // hash of what all operations returned
	doubtful map[uint]bool // handed out to writes that did not succeed

	seq        int // starts and ends of operations, in order
	rehearsing bool
	quiet      bool // the oracle's own reads

	crashes, failedWrites, faultsFired int
	clientsUsed                        int
	step                               int

	growthSeen map[string]growthSample
	trouble    map[int]bool // clients that saw a write of theirs fail
	authors    map[int]int  // remark -> client that wrote it
	olden      map[int]bool // remark -> whether the version in frozen/ wrote it

	struck map[uint64]bool // places in the code at which open faults have gone off

	ramps  map[string][]rampSample
	gauges map[string]gaugeSample // least work of operations in situations

	shared *sharedPort

	mainYield func() // given to the next main operation: cross steps

	texts []returned // texts that were returned

	inherited int // highest number of a remark in an old graph
	tape      *tape

	stats *stats
	seen  map[string]bool
}

type port struct {
	w      *world
	client int
	dead   bool
	cur    *opctx
}

var errStorage = fmt.Errorf("injected storage failure")

func newWorld(cfg Config, st *stats, u *universe) *world {
	if cfg.Clients < 1 {
		cfg.Clients = 1
	}
	w := &world{u: u, cfg: cfg, be: newBackend(cfg), model: newModel(), known: map[uint]bool{},
		doubtful: map[uint]bool{}, trouble: map[int]bool{}, authors: map[int]int{}, olden: map[int]bool{}, stats: st, seen: map[string]bool{}}
	if cfg.Old > 0 {
		w.inherit(cfg.Old)
	}
	for i := 0; i < cfg.Clients; i++ {
		w.clients = append(w.clients, &client{index: i})
		if cfg.EarlyOpen {
			w.open(i)
		}
	}
	return w
}

func (w *world) open(i int) *client {
	c := w.clients[i]
	c.port = &port{w: w, client: i}
	c.old = w.previous(uint64(i))
	c.graph = newHandle(w.object(c.port), c.old)
	c.held, c.kept, c.out = map[int]remark{}, map[int][]remark{}, nil
	return c
}

// client returns client i with a live handle, opening one if there is none or
// its process died.
func (w *world) live(i int) *client {
	i = i % len(w.clients)
	c := w.clients[i]
	if c.graph == nil || c.port.dead {
		w.open(i)
		w.note(901, uint64(i))
	}
	if !c.used {
		c.used = true
		w.clientsUsed++
	}
	return c
}

// valuePort is a storage that is a value, and not a comparable one.
type valuePort struct {
	*port
	_ [0]func()
}

// sharedPort is the one storage object of all handles in a process. It passes
// calls on to the port of the handle that is at work.
type sharedPort struct{ *port }

// object is what a handle is given as its storage.
func (w *world) object(p *port) storage {
	switch {
	case w.cfg.Object == "value":
		return valuePort{port: p}
	case w.cfg.Object == "shared" && !w.rehearsing:
		if w.shared == nil {
			w.shared = &sharedPort{}
		}
		w.shared.port = p
		return w.shared
	}
	return p
}

// atWork says whose calls come next.
func (w *world) atWork(p *port) {
	if w.shared != nil && !w.rehearsing {
		w.shared.port = p
	}
}

// auditor is a process of its own with a fresh handle.
func (w *world) auditor() *client {
	p := &port{w: w, client: 99}
	return &client{index: 99, port: p, graph: newHandle(w.object(p), w.previous(99)), held: map[int]remark{}}
}

func (w *world) note(vals ...uint64) {
	if w.rehearsing {
		return
	}
	h := w.u.hash
	for _, v := range vals {
		for i := 0; i < 64; i += 16 {
			h ^= (v >> i) & 0xffff
			h *= 1099511628211
		}
	}
	w.u.hash = h
}

func (w *world) noteString(s string) {
	if w.rehearsing {
		return
	}
	f := fnv.New64a()
	f.Write([]byte(s))
	w.note(binary.LittleEndian.Uint64(f.Sum(nil)))
}

// ---- the storage port

const (
	kHas = iota
	kCreate
	kSources
	kTargets
	kSetRef
	kGetRef
	kConnect
	kDisconnect
	kDelete
)

var kindNames = []string{"Has", "Create", "ReadSources", "ReadTargets", "SetReference", "GetReference", "Connect", "Disconnect", "Delete"}

func mutating(kind int) bool {
	return kind == kCreate || kind == kSetRef || kind >= kConnect
}

func (p *port) call(kind int, a, b uint, do func() error) error {
	w, c := p.w, p.cur
	if c == nil {
		// a call outside any operation: nothing in the code under test does
		// this today, but building a handle may legitimately touch the storage
		c = &opctx{}
	}
	if c.yield != nil {
		c.yield()
		w.atWork(p)
	}
	if p.dead {
		panic(crashSentinel{})
	}
	at := c.calls
	c.calls++
	c.work++
	if !w.rehearsing {
		w.u.clock++
		progress.Add(1)
		w.note(uint64(w.index)<<16|uint64(p.client)<<8|uint64(kind), uint64(a), uint64(b))
	}
	if c.record {
		c.kinds = append(c.kinds, "hcstSgCDX"[kind])
	}
	if c.calls > opBudget {
		panic(budgetSentinel{})
	}
	// ambient failures
	fail := ""
	if !w.quiet || w.mode != "down" {
		switch {
		case w.rehearsing:
		case w.mode == "down":
			fail = "down"
		case w.mode == "readonly" && mutating(kind):
			fail = "readonly"
		case w.mode == "full" && kind == kCreate:
			fail = "full"
		}
	}
	lost, dieAfter := false, false
	var crash *Fault
	for i := range c.faults {
		f := &c.faults[i]
		if f.arm > 0 && !w.rehearsing {
			w.strike(f, c, at, kind)
		}
		if f.At != at {
			continue
		}
		switch f.Kind {
		case "err":
			fail = "err"
		case "lost":
			lost = true
		case "outage":
			c.outage = f.Len
		case "crash":
			p.fire(c, "crash", kind)
			p.die(f.All)
			panic(crashSentinel{})
		case "crash-after":
			dieAfter, crash = true, f
		}
	}
	if c.outage > 0 {
		c.outage--
		fail = "outage"
	}
	if fail != "" {
		p.fire(c, fail, kind)
		return errStorage
	}
	if mutating(kind) {
		c.muts++
	}
	if !c.lax && kind != kHas {
		p.vet(kind, a, b)
	}
	err := do()
	if mutating(kind) && !w.rehearsing && err == nil {
		made := uint(0)
		if kind == kCreate {
			made = w.created[len(w.created)-1]
		}
		if w.tape != nil {
			w.tape.calls = append(w.tape.calls, [3]uint{uint(kind), a, b})
		}
		for _, v := range []uint{uint(kind), a, b, made} {
			w.changes = (w.changes ^ uint64(v)) * 1099511628211
			w.changes ^= w.changes >> 29
		}
	}
	if dieAfter {
		p.fire(c, "crash-after", kind)
		p.die(crash.All)
		panic(crashSentinel{})
	}
	if lost {
		p.fire(c, "lost", kind)
		return errStorage
	}
	return err
}

// strike decides whether a fault that was left open goes to this call.
func (w *world) strike(f *Fault, c *opctx, at, kind int) {
	if c.sites == nil {
		c.sites = map[uint64]bool{}
	}
	site := stackSite(f.depth)
	if w.struck[site] || c.sites[site] {
		return
	}
	c.sites[site] = true
	f.arm--
	if f.arm == 0 {
		if w.struck == nil {
			w.struck = map[uint64]bool{}
		}
		w.struck[site] = true
		f.At = at
		f.Note = "hcstSgCDX"[kind:kind+1] + " by place"
	}
}

// stackSite is a number for the way the code got to the current storage call.
func stackSite(depth int) uint64 {
	var pcs [24]uintptr
	n := runtime.Callers(4, pcs[:depth])
	h := uint64(14695981039346656037) + uint64(depth)
	for _, pc := range pcs[:n] {
		h = (h ^ uint64(pc)) * 1099511628211
	}
	return h
}

func (p *port) vet(kind int, a, b uint) {
	w := p.w
	if w.rehearsing {
		return
	}
	bad := uint(0)
	isBad := false
	switch kind {
	case kCreate:
		return
	case kSetRef, kConnect, kDisconnect:
		if !w.known[b] {
			bad, isBad = b, true
		}
	}
	if !w.known[a] {
		bad, isBad = a, true
	}
	if isBad {
		w.violate(obsBreach, nil, fmt.Sprintf("%s is given identifier %d, which the storage never handed out", kindNames[kind], bad))
	}
}

func (p *port) fire(c *opctx, kind string, call int) {
	c.fired++
	c.firedKinds = append(c.firedKinds, kind+"@"+kindNames[call])
	w := p.w
	if w.rehearsing {
		return
	}
	w.faultsFired++
	w.noteString(kind)
	if w.stats != nil {
		if w.cfg.Partial && !strings.HasPrefix(kind, "crash") {
			kind += " with values"
		}
		w.stats.fault(kind, kindNames[call], codeSite())
	}
}

func (p *port) die(all bool) {
	w := p.w
	p.dead = true
	w.crashes++
	if all || w.cfg.Object == "shared" {
		// new processes have a new storage object
		w.shared = nil
		for _, c := range w.clients {
			if c.port != nil {
				c.port.dead = true
			}
		}
		w.be.reopen()
	}
}

// codeSite names the line of semnet whose storage call is being failed.
func codeSite() string {
	var pcs [16]uintptr
	n := runtime.Callers(4, pcs[:])
	frames := runtime.CallersFrames(pcs[:n])
	for {
		f, more := frames.Next()
		if strings.Contains(f.Function, "mem-memov/semnet") {
			name := f.Function[strings.Index(f.Function, "semnet"):]
			return fmt.Sprintf("%s:%d", name, f.Line)
		}
		if !more {
			return "?"
		}
	}
}

func (p *port) Has(source uint) (r bool, err error) {
	err = p.call(kHas, source, 0, func() (e error) { r, e = p.w.be.Has(source); return })
	if err != nil {
		r = p.w.cfg.Partial
	}
	return r, err
}

func (p *port) Create() (r uint, err error) {
	err = p.call(kCreate, 0, 0, func() (e error) {
		r, e = p.w.be.Create()
		if e == nil {
			if p.cur != nil {
				p.cur.creates++
				p.cur.made = append(p.cur.made, r)
			}
			if !p.w.rehearsing {
				p.w.known[r] = true
				p.w.created = append(p.w.created, r)
				p.w.note(uint64(r))
			}
		}
		return
	})
	if err != nil {
		r = p.leftover(r)
	}
	return r, err
}

// leftover is the number that a failed call returns beside its error, where
// the storage does that. What it means is for nobody to ask.
func (p *port) leftover(r uint) uint {
	switch n := p.cur; {
	case !p.w.cfg.Partial || n == nil || len(p.w.created) == 0:
		return 0
	case n.calls%3 == 0:
		return p.w.created[n.calls%len(p.w.created)]
	case n.calls%3 == 1 && r == 0:
		return p.w.created[len(p.w.created)-1] + 1
	}
	return r
}

func (p *port) list(kind int, id uint, read func(uint) ([]uint, error)) (r []uint, err error) {
	err = p.call(kind, id, 0, func() (e error) { r, e = read(id); return })
	if err != nil {
		if c := p.cur; c != nil && p.w.cfg.Partial {
			// as much as had been read
			part, e := read(id)
			if e != nil || c.calls%4 == 0 {
				return []uint{}, err
			}
			return part[:len(part)-len(part)*(c.calls%4-1)/3], err
		}
		return nil, err
	}
	if p.cur != nil {
		p.cur.work += len(r)
	}
	for _, x := range r {
		p.w.note(uint64(x))
	}
	return r, nil
}

func (p *port) ReadSources(target uint) ([]uint, error) {
	return p.list(kSources, target, p.w.be.ReadSources)
}

func (p *port) ReadTargets(source uint) ([]uint, error) {
	return p.list(kTargets, source, p.w.be.ReadTargets)
}

func (p *port) SetReference(source uint, reference uint) error {
	return p.call(kSetRef, source, reference, func() error { return p.w.be.SetReference(source, reference) })
}

func (p *port) GetReference(source uint) (prev, next uint, err error) {
	err = p.call(kGetRef, source, 0, func() (e error) { prev, next, e = p.w.be.GetReference(source); return })
	if err != nil {
		prev, next = p.leftover(prev), p.leftover(next)
	}
	return prev, next, err
}

func (p *port) Connect(source uint, target uint) error {
	return p.call(kConnect, source, target, func() error { return p.w.be.Connect(source, target) })
}

func (p *port) Disconnect(source uint, target uint) error {
	return p.call(kDisconnect, source, target, func() error { return p.w.be.Disconnect(source, target) })
}

func (p *port) Delete(source uint) error {
	return p.call(kDelete, source, 0, func() error {
		err := p.w.be.Delete(source)
		if err == nil && p.cur != nil {
			p.cur.deletes++
		}
		return err
	})
}

// ---- outcomes

type outcome struct {
	status    string // ok | err | panic | budget | crash
	msg       string
	api       string // the API call at which it ended
	canon     string // reads: what was seen, in canonical form
	id        uint
	value     remark
	has       bool
	fired     int
	ctx       *opctx
	start     int
	finish    int
	swallowed []string
	disguised []string // API calls that failed with another error than the storage's
}

// execution is the script of one operation: a few API calls in a row.
type execution struct {
	w   *world
	c   *client
	s   *Step
	ctx *opctx
	out *outcome
}

type opError struct{ err error }

// api makes one call of the public API. A failure injected during the call
// must come back as an error of that call.
func (x *execution) api(name string, f func() error) error {
	before := x.ctx.fired
	x.out.api = name
	err := f()
	if x.ctx.fired > before && err == nil {
		x.out.swallowed = append(x.out.swallowed, name+" after "+strings.Join(x.ctx.firedKinds[before:], ","))
	}
	if x.ctx.fired > before && err != nil && !errors.Is(err, errStorage) {
		x.out.disguised = append(x.out.disguised, fmt.Sprintf("%s after %s: %q", name, strings.Join(x.ctx.firedKinds[before:], ","), err))
	}
	return err
}

// keep has the client remember a value it was given, beside the one the write
// returned: up to four of each remark.
func (x *execution) keep(r remark) {
	if x.c.kept == nil || r == nil {
		return
	}
	if m := x.w.model.byID[r.GetIdentifier()]; m != nil && len(x.c.kept[m.uid]) < 4 {
		x.c.kept[m.uid] = append(x.c.kept[m.uid], r)
	}
}

func (x *execution) must(name string, f func() error) {
	if err := x.api(name, f); err != nil {
		panic(opError{err})
	}
}

// run executes an operation to its end on the current goroutine.
func (w *world) run(c *client, s *Step, ctx *opctx) *outcome {
	w.seq++
	out := &outcome{ctx: ctx, start: w.seq}
	x := &execution{w, c, s, ctx, out}
	c.port.cur = ctx
	w.atWork(c.port)
	func() {
		defer func() {
			c.port.cur = nil
			switch r := recover().(type) {
			case nil:
				out.status = "ok"
			case opError:
				out.status, out.msg = "err", r.err.Error()
			case crashSentinel:
				out.status = "crash"
				c.port.dead = true
			case budgetSentinel:
				out.status, out.msg = "budget", fmt.Sprintf("more than %d storage calls", opBudget)
			default:
				out.status, out.msg = "panic", fmt.Sprint(r)
			}
		}()
		x.script()
	}()
	w.seq++
	out.finish = w.seq
	out.fired = ctx.fired
	if !w.rehearsing {
		w.noteString(s.Op + "|" + out.status + "|" + out.canon)
		f := fnv.New64a()
		fmt.Fprintf(f, "%016x|%s|%s|%s|%d", w.answers, s.Op, out.status, out.canon, out.id)
		w.answers = f.Sum64()
		if w.stats != nil {
			w.stats.MaxCalls = max(w.stats.MaxCalls, ctx.calls)
		}
		if w.stats != nil && !w.quiet {
			w.stats.op(s.Op, out.status)
		}
	}
	return out
}

func (x *execution) script() {
	w, c, s, out := x.w, x.c, x.s, x.out
	switch s.Op {
	case "create":
		x.must("CreateStory", func() (e error) { out.value, e = c.graph.CreateStory(s.O, s.P); return })
		out.id = out.value.GetIdentifier()
		return
	case "bogus":
		x.ctx.lax = true
		err := x.api("GetRemark", func() error { _, e := c.graph.GetRemark(uint(s.N)); return e })
		if err != nil {
			out.canon = "refused"
		} else {
			out.canon = "accepted"
		}
		return
	}
	r := x.acquire(s)
	switch s.Op {
	case "addremark":
		x.must("AddRemarkToFact", func() error {
			a, e := r.AddRemarkToFact(s.P)
			out.value = a
			return e
		})
		out.id = out.value.GetIdentifier()
	case "addfact":
		x.must("AddFactToStory", func() error {
			a, e := r.AddFactToStory(s.O, s.P)
			out.value = a
			return e
		})
		out.id = out.value.GetIdentifier()
	case "child":
		x.must("CreateChildStory", func() error {
			a, e := r.CreateChildStory(s.O, s.P)
			out.value = a
			return e
		})
		out.id = out.value.GetIdentifier()
	case "text":
		out.canon = fmt.Sprintf("%d %s", r.GetIdentifier(), x.text(r))
	case "first":
		out.canon = fmt.Sprint(x.first(r).GetIdentifier())
	case "nextfact":
		next, has := x.nextFact(r)
		out.has = has
		if has {
			out.canon = x.describe(next)
		} else {
			out.canon = "end"
			if x.ctx.yield == nil {
				if x.api("GetNextFact", func() error { _, e := r.GetNextFact(); return e }) == nil {
					out.canon = "end, yet GetNextFact succeeds"
				}
			}
		}
	case "nextstory":
		next, has := x.nextStory(r)
		out.has = has
		if has {
			out.canon = x.describe(next)
		} else {
			out.canon = "end"
			if x.ctx.yield == nil {
				if x.api("GetNextStory", func() error { _, e := r.GetNextStory(); return e }) == nil {
					out.canon = "end, yet GetNextStory succeeds"
				}
			}
		}
	case "nextremark":
		next, has := x.nextRemark(r)
		out.has = has
		if has {
			out.canon = x.describe(next)
		} else {
			out.canon = "end"
			if x.ctx.yield == nil {
				if x.api("GetNextRemark", func() error { _, e := r.GetNextRemark(); return e }) == nil {
					out.canon = "end, yet GetNextRemark succeeds"
				}
			}
		}
	case "list":
		f := x.first(r)
		ids := []string{fmt.Sprint(f.GetIdentifier())}
		for len(ids) < 12000 {
			next, has := x.nextFact(f)
			if !has {
				break
			}
			f = next
			ids = append(ids, fmt.Sprint(f.GetIdentifier()))
		}
		out.canon = strings.Join(ids, " ")
	case "sibs":
		ids := []string{}
		for f := r; len(ids) < 12000; {
			next, has := x.nextStory(f)
			if !has {
				break
			}
			f = next
			ids = append(ids, fmt.Sprint(f.GetIdentifier()))
		}
		out.canon = strings.Join(ids, " ")
	case "output":
		writer := x.outputOf(c)
		x.must("Output.GetStory", func() (e error) { out.canon, e = writer.GetStory(r); return })
		w.retain(out.canon)
		out.canon = fmt.Sprintf("%q", out.canon)
	default:
		panic("simulator: unknown operation " + s.Op)
	}
	_ = w
}

// outputOf chooses an Output: a new one, the client's, or one of another
// client in the same process, which is given this client's remark.
func (x *execution) outputOf(c *client) writer {
	if x.s.N%3 == 2 {
		return c.graph.newOutput()
	}
	if o := x.w.clients[x.s.N/3%len(x.w.clients)]; x.ctx.yield == nil && x.s.N%3 == 1 && o != c && o.old == c.old && o.graph != nil && !o.port.dead {
		o.port.cur, c = x.ctx, o
	}
	if c.out == nil {
		c.out = c.graph.newOutput()
	}
	return c.out
}

// returned is a text the graph has returned, and what it read then.
type returned struct{ text, was string }

// retain keeps a text that was returned, to see that it stays what it is.
func (w *world) retain(text string) {
	if !w.rehearsing && text != "" && len(w.texts) < 400 {
		w.texts = append(w.texts, returned{text, strings.Clone(text)})
	}
}

// recheck looks at the texts returned earlier.
func (w *world) recheck() {
	for _, t := range w.texts {
		if t.text != t.was {
			w.violate(obsText, &where{op: "returned"}, fmt.Sprintf("a text that was returned as %q has become %q", t.was, t.text))
			break
		}
	}
	w.texts = w.texts[:0]
}

func (x *execution) text(r remark) string {
	var o, p string
	x.must("GetObjectAndProperty", func() (e error) { o, p, e = r.GetObjectAndProperty(); return })
	x.w.retain(o)
	x.w.retain(p)
	return fmt.Sprintf("%q %q", o, p)
}

func (x *execution) first(r remark) (f remark) {
	x.must("GetFirstFact", func() error { a, e := r.GetFirstFact(); f = a; return e })
	x.keep(f)
	return f
}

func (x *execution) nextFact(r remark) (next remark, has bool) {
	x.must("HasNextFact", func() (e error) { has, e = r.HasNextFact(); return })
	if has {
		x.must("GetNextFact", func() error { a, e := r.GetNextFact(); next = a; return e })
		x.keep(next)
	}
	return
}

func (x *execution) nextStory(r remark) (next remark, has bool) {
	x.must("HasNextStory", func() (e error) { has, e = r.HasNextStory(); return })
	if has {
		x.must("GetNextStory", func() error { a, e := r.GetNextStory(); next = a; return e })
		x.keep(next)
	}
	return
}

func (x *execution) nextRemark(r remark) (next remark, has bool) {
	x.must("HasNextRemark", func() (e error) { has, e = r.HasNextRemark(); return })
	if has {
		x.must("GetNextRemark", func() error { a, e := r.GetNextRemark(); next = a; return e })
		x.keep(next)
	}
	return
}

// describe reads everything that can be seen from an entry a list led to.
func (x *execution) describe(r remark) string {
	return fmt.Sprintf("%d %s in %d", r.GetIdentifier(), x.text(r), x.first(r).GetIdentifier())
}

// acquire gets hold of the target remark in the way the step asks for.
func (x *execution) acquire(s *Step) remark {
	m := x.w.model.remarks[s.Target]
	look := func(m *mRemark) (r remark) {
		x.must("GetRemark", func() (e error) { r, e = x.c.graph.GetRemark(m.id); return })
		x.keep(r)
		return r
	}
	start := func(m *mRemark) remark {
		if r, ok := x.c.held[m.uid]; ok {
			return r
		}
		return look(m)
	}
	switch s.Via {
	case "held":
		return start(m)
	case "kept":
		if k := x.c.kept[m.uid]; len(k) > 0 {
			return k[s.N%len(k)]
		}
	case "walk":
		// from some remark of the story to the first fact, then fact to fact
		if m.fact.remarks[0] == m {
			r := x.first(start(m.fact.story.any(s.N)))
			for i := 0; i < m.fact.index; i++ {
				x.must("GetNextFact", func() error { a, e := r.GetNextFact(); r = a; return e })
			}
			return r
		}
	case "sib":
		st := m.fact.story
		if m.fact.index == 0 && m.fact.remarks[0] == m && st.parent != nil && st.index > 0 {
			r := start(st.parent.children[0].any(s.N))
			for i := 0; i < st.index; i++ {
				x.must("GetNextStory", func() error { a, e := r.GetNextStory(); r = a; return e })
			}
			return r
		}
	case "first":
		if m.fact.index == 0 && m.fact.remarks[0] == m {
			return x.first(start(m.fact.story.any(s.N)))
		}
	}
	return look(m)
}
