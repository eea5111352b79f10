package main

// Storages written earlier (C23). old/ holds a number of graphs that were
// stored by the version of semnet these checks were written for: the calls
// that changed the storage, in order, and what had been acknowledged. A run
// may begin with one of them instead of an empty storage. The calls are made
// again on the run's own kind of storage, without any code of semnet.

import (
	"bytes"
	"compress/gzip"
	"embed"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
)

//go:embed old
var oldFiles embed.FS

type oldGraph struct {
	Calls    [][]int     `json:"calls"` // kind and arguments; nodes are counted from 1 in order of creation
	Remarks  []oldRemark `json:"remarks"`
	Doubtful []int       `json:"doubtful"` // nodes of interrupted writes
	Maybe    [][2]string `json:"maybe"`    // pairs of interrupted writes
}

type oldRemark struct {
	UID    int    `json:"uid"`
	Node   int    `json:"node"`
	Op     string `json:"op"`
	Target int    `json:"target,omitempty"`
	O      string `json:"o"`
	P      string `json:"p"`
}

const oldGraphs = 48

func oldName(n int) string { return fmt.Sprintf("old/%02d.json.gz", n) }

func readOld(n int) *oldGraph {
	b, err := oldFiles.ReadFile(oldName(n))
	if err != nil {
		panic(err)
	}
	z, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		panic(err)
	}
	g := &oldGraph{}
	if err := json.NewDecoder(z).Decode(g); err != nil {
		panic(err)
	}
	io.Copy(io.Discard, z)
	return g
}

// inherit makes the storage and the model those of an old graph.
func (w *world) inherit(n int) {
	g := readOld(n)
	node := func(i int) uint {
		if i == 0 {
			return 0
		}
		return w.created[i-1]
	}
	for _, c := range g.Calls {
		var err error
		a, b := uint(0), uint(0)
		if len(c) > 1 {
			a = node(c[1])
		}
		if len(c) > 2 {
			b = node(c[2])
		}
		switch c[0] {
		case kCreate:
			var id uint
			id, err = w.be.Create()
			w.created = append(w.created, id)
			w.known[id] = true
		case kSetRef:
			err = w.be.SetReference(a, b)
		case kConnect:
			err = w.be.Connect(a, b)
		case kDisconnect:
			err = w.be.Disconnect(a, b)
		case kDelete:
			err = w.be.Delete(a)
		}
		if err != nil {
			panic(fmt.Sprintf("simulator: old graph %d: %v: %v", n, c, err))
		}
	}
	for _, r := range g.Remarks {
		w.model.apply(r.Op, r.UID, node(r.Node), w.model.remarks[r.Target], r.O, r.P)
		w.inherited = max(w.inherited, r.UID)
	}
	for _, i := range g.Doubtful {
		w.doubtful[node(i)] = true
	}
	for _, pair := range g.Maybe {
		w.model.maybe[pair] = true
	}
}

// ---- making them

// tape records what a run does to its storage.
type tape struct {
	calls   [][3]uint
	remarks []oldRemark
	made    map[int]uint
}

// record writes a number of graphs into a directory: the outcome of runs of
// several profiles, those that stay within a size.
func record(dir string) {
	made := 0
	for i := 0; made < oldGraphs; i++ {
		prop := []string{"C06", "C02", "C07", "C09", "C10", "C11", "C05", "C03"}[i%8]
		p := profileOf(prop)
		p.par, p.mode, p.worlds, p.sweep, p.taping = 0, 0, 1, min(p.sweep, 1), true
		u, _ := generate(mix(0x01d, uint64(i)), p, newStats(), false)
		w := u.worlds[0]
		if len(u.viol) > 0 || len(w.model.order) < 3 || len(w.created) > 9000 || w.tape == nil {
			continue
		}
		node := map[uint]int{}
		for k, id := range w.created {
			node[id] = k + 1
		}
		g := &oldGraph{Remarks: w.tape.remarks, Calls: [][]int{}}
		for _, c := range w.tape.calls {
			one := []int{int(c[0])}
			for _, id := range c[1:] {
				if id != 0 {
					one = append(one, node[id])
				}
			}
			g.Calls = append(g.Calls, one)
		}
		for k := range g.Remarks {
			r := &g.Remarks[k]
			m := w.model.remarks[r.UID]
			r.Node, r.O, r.P = node[m.id], m.o, m.p
		}
		for k, id := range w.created {
			if w.doubtful[id] {
				g.Doubtful = append(g.Doubtful, k+1)
			}
		}
		for pair := range w.model.maybe {
			g.Maybe = append(g.Maybe, pair)
		}
		made++
		var b bytes.Buffer
		z, _ := gzip.NewWriterLevel(&b, gzip.BestCompression)
		json.NewEncoder(z).Encode(g)
		z.Close()
		name := filepath.Join(dir, fmt.Sprintf("%02d.json.gz", made))
		if err := os.WriteFile(name, b.Bytes(), 0o644); err != nil {
			panic(err)
		}
		fmt.Printf("%s: %s, %d nodes, %d remarks, %d interrupted writes, %d bytes\n", name, prop, len(w.created), len(g.Remarks), w.failedWrites, b.Len())
	}
}
