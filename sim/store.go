package main

// Simulated storage. Two back ends stand behind the seam abstract.Storage:
//
//	clew  the real github.com/mem-memov/clew graph on its slice storage
//	mem   a small model of the same contract with the freedoms the contract
//	      leaves: any identifiers after the first eight, any listing order,
//	      and strictness about identifiers that were never handed out
//
// Both apply every call atomically and durably; a crash is the death of the
// process(es) that hold handles, at a call boundary. mark/rewind give the
// generator a throw-away rehearsal of an operation.

import (
	"fmt"
	"reflect"
	"unsafe"

	"github.com/mem-memov/clew"
)

// storage is semnet's abstract.Storage.
type storage interface {
	Has(source uint) (bool, error)
	Create() (uint, error)
	ReadSources(target uint) ([]uint, error)
	ReadTargets(source uint) ([]uint, error)
	SetReference(source uint, reference uint) error
	GetReference(source uint) (uint, uint, error)
	Connect(source uint, target uint) error
	Disconnect(source uint, target uint) error
	Delete(source uint) error
}

type backend interface {
	storage

	mark()
	rewind()
	reopen()
	maxID() uint
}

// ---- splitmix64: the only source of randomness, fully determined by its seed

type rng struct{ s uint64 }

func newRng(seed uint64) *rng { return &rng{seed} }

func (r *rng) u64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *rng) n(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.u64() % uint64(n))
}

func (r *rng) p(percent int) bool { return r.n(100) < percent }

func mix(a, b uint64) uint64 {
	r := rng{a ^ (b+1)*0xd6e8feb86659fd93}
	r.u64()
	return r.u64()
}

// ---- mem

type memNode struct {
	id         uint
	prev, next uint
	targets    []uint
	sources    []uint
	dead       bool
}

type memStore struct {
	cfg   Config
	nodes []memNode
	index map[uint]int
	rng   rng
	max   uint

	marked bool
	undo   []func()
	rng0   rng
	max0   uint
}

func newMemStore(cfg Config) *memStore {
	return &memStore{cfg: cfg, index: map[uint]int{}, rng: rng{mix(cfg.StoreSeed, 77)}}
}

func (s *memStore) find(id uint) (*memNode, error) {
	i, ok := s.index[id]
	if !ok || s.nodes[i].dead {
		return nil, fmt.Errorf("storage: no node %d", id)
	}
	return &s.nodes[i], nil
}

func (s *memStore) Has(id uint) (bool, error) {
	_, err := s.find(id)
	return err == nil, nil
}

func (s *memStore) nextID() uint {
	n := uint(len(s.nodes)) + 1
	if n <= 8 {
		return n
	}
	switch s.cfg.IDs {
	case "gaps":
		return s.max + 1 + uint(s.rng.n(9))
	case "scramble":
		for {
			id := 9 + uint(s.rng.n(1<<20))
			if _, used := s.index[id]; !used {
				return id
			}
		}
	case "wide":
		for {
			id := uint(s.rng.u64())
			if _, used := s.index[id]; !used && id > 8 {
				return id
			}
		}
	case "stride":
		// identifiers that agree in their lower bits
		shift := []uint{8, 16, 32}[s.cfg.StoreSeed%3]
		return (n-8)<<shift + 3
	case "down":
		return 1<<22 - n
	default:
		return n
	}
}

func (s *memStore) Create() (uint, error) {
	id := s.nextID()
	s.index[id] = len(s.nodes)
	s.nodes = append(s.nodes, memNode{id: id})
	if id > s.max {
		s.max = id
	}
	if s.marked {
		s.undo = append(s.undo, func() {
			s.nodes = s.nodes[:len(s.nodes)-1]
			delete(s.index, id)
		})
	}
	return id, nil
}

func (s *memStore) list(ids []uint) []uint {
	out := make([]uint, len(ids))
	copy(out, ids)
	switch s.cfg.Order {
	case "reverse":
		for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
			out[i], out[j] = out[j], out[i]
		}
	case "random":
		for i := len(out) - 1; i > 0; i-- {
			j := s.rng.n(i + 1)
			out[i], out[j] = out[j], out[i]
		}
	}
	return out
}

func (s *memStore) ReadSources(target uint) ([]uint, error) {
	n, err := s.find(target)
	if err != nil {
		return nil, err
	}
	return s.list(n.sources), nil
}

func (s *memStore) ReadTargets(source uint) ([]uint, error) {
	n, err := s.find(source)
	if err != nil {
		return nil, err
	}
	return s.list(n.targets), nil
}

func (s *memStore) SetReference(source uint, reference uint) error {
	if _, err := s.find(source); err != nil {
		return err
	}
	if _, err := s.find(reference); err != nil {
		return err
	}
	i, j := s.index[source], s.index[reference]
	if s.marked {
		oldNext, oldPrev := s.nodes[i].next, s.nodes[j].prev
		s.undo = append(s.undo, func() { s.nodes[i].next = oldNext; s.nodes[j].prev = oldPrev })
	}
	s.nodes[j].prev = source
	s.nodes[i].next = reference
	return nil
}

func (s *memStore) GetReference(source uint) (uint, uint, error) {
	n, err := s.find(source)
	if err != nil {
		return 0, 0, err
	}
	return n.prev, n.next, nil
}

func (s *memStore) Connect(source uint, target uint) error {
	if _, err := s.find(source); err != nil {
		return err
	}
	if _, err := s.find(target); err != nil {
		return err
	}
	i, j := s.index[source], s.index[target]
	for _, t := range s.nodes[i].targets {
		if t == target {
			return nil
		}
	}
	s.nodes[i].targets = append(s.nodes[i].targets, target)
	s.nodes[j].sources = append(s.nodes[j].sources, source)
	if s.marked {
		s.undo = append(s.undo, func() {
			s.nodes[i].targets = s.nodes[i].targets[:len(s.nodes[i].targets)-1]
			s.nodes[j].sources = s.nodes[j].sources[:len(s.nodes[j].sources)-1]
		})
	}
	return nil
}

func without(ids []uint, id uint) []uint {
	out := make([]uint, 0, len(ids))
	for _, x := range ids {
		if x != id {
			out = append(out, x)
		}
	}
	return out
}

func (s *memStore) Disconnect(source uint, target uint) error {
	if _, err := s.find(source); err != nil {
		return err
	}
	if _, err := s.find(target); err != nil {
		return err
	}
	i, j := s.index[source], s.index[target]
	if s.marked {
		ot, os := s.nodes[i].targets, s.nodes[j].sources
		s.undo = append(s.undo, func() { s.nodes[i].targets = ot; s.nodes[j].sources = os })
	}
	s.nodes[i].targets = without(s.nodes[i].targets, target)
	s.nodes[j].sources = without(s.nodes[j].sources, source)
	return nil
}

func (s *memStore) Delete(source uint) error {
	n, err := s.find(source)
	if err != nil {
		return err
	}
	targets := append([]uint{}, n.targets...)
	sources := append([]uint{}, n.sources...)
	for _, t := range targets {
		if err := s.Disconnect(source, t); err != nil {
			return err
		}
	}
	for _, x := range sources {
		if err := s.Disconnect(x, source); err != nil {
			return err
		}
	}
	i := s.index[source]
	s.nodes[i].dead = true
	if s.marked {
		s.undo = append(s.undo, func() { s.nodes[i].dead = false })
	}
	return nil
}

func (s *memStore) mark() { s.marked, s.undo, s.rng0, s.max0 = true, s.undo[:0], s.rng, s.max }

func (s *memStore) rewind() {
	for i := len(s.undo) - 1; i >= 0; i-- {
		s.undo[i]()
	}
	s.undo, s.marked, s.rng, s.max = s.undo[:0], false, s.rng0, s.max0
}

func (s *memStore) reopen()     {}
func (s *memStore) maxID() uint { return s.max }

// ---- clew

type clewStore struct {
	*clew.Graph
	raw   interface{} // *clew.sliceStorage
	data  *[][6]uint  // its entries
	again func() *clew.Graph
	saved [][6]uint
}

func newClewStore() *clewStore {
	slices := clew.NewSliceStorage()
	s := &clewStore{raw: slices, again: func() *clew.Graph { return clew.NewGraph(slices) }}
	field := reflect.ValueOf(slices).Elem().FieldByName("entries")
	s.data = (*[][6]uint)(unsafe.Pointer(field.UnsafeAddr()))
	s.Graph = s.again()
	return s
}

func (s *clewStore) mark() { s.saved = append(s.saved[:0], *s.data...) }

func (s *clewStore) rewind() {
	restored := make([][6]uint, len(s.saved), len(s.saved)+64)
	copy(restored, s.saved)
	*s.data = restored
	s.Graph = s.again()
}

func (s *clewStore) reopen() { s.Graph = s.again() }

func (s *clewStore) maxID() uint { return uint(len(*s.data)) }

func newBackend(cfg Config) backend {
	if cfg.Backend == "clew" {
		return newClewStore()
	}
	return newMemStore(cfg)
}
