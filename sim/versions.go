package main

// Handles of two versions of semnet: the one that is examined, built from
// /repo, and the one the properties were written for, a copy of which is in
// frozen/. In runs of C25 both are open on the same storage.

import (
	"semnetsim/frozen"

	"github.com/mem-memov/semnet"
)

type remark interface {
	GetIdentifier() uint
	GetObjectAndProperty() (string, string, error)
	HasNextRemark() (bool, error)
	GetNextRemark() (remark, error)
	HasNextFact() (bool, error)
	GetNextFact() (remark, error)
	GetFirstFact() (remark, error)
	HasNextStory() (bool, error)
	GetNextStory() (remark, error)
	AddRemarkToFact(property string) (remark, error)
	AddFactToStory(object string, property string) (remark, error)
	CreateChildStory(object string, property string) (remark, error)
}

type handle interface {
	CreateStory(object string, property string) (remark, error)
	GetRemark(identifier uint) (remark, error)
	newOutput() writer
}

type writer interface {
	GetStory(r remark) (string, error)
}

// ---- the version in /repo

type currentHandle struct{ *semnet.Graph }
type currentRemark struct{ semnet.Remark }
type currentWriter struct{ *semnet.Output }

func (h currentHandle) CreateStory(object string, property string) (remark, error) {
	r, err := h.Graph.CreateStory(object, property)
	return currentRemark{r}, err
}

func (h currentHandle) GetRemark(identifier uint) (remark, error) {
	r, err := h.Graph.GetRemark(identifier)
	return currentRemark{r}, err
}

func (h currentHandle) newOutput() writer { return currentWriter{semnet.NewOutput(h.Graph)} }

func (w currentWriter) GetStory(r remark) (string, error) {
	return w.Output.GetStory(r.(currentRemark).Remark)
}

func (r currentRemark) GetNextRemark() (remark, error) {
	a, err := r.Remark.GetNextRemark()
	return currentRemark{semnet.Remark{Aggregate: a}}, err
}

func (r currentRemark) GetNextFact() (remark, error) {
	a, err := r.Remark.GetNextFact()
	return currentRemark{semnet.Remark{Aggregate: a}}, err
}

func (r currentRemark) GetFirstFact() (remark, error) {
	a, err := r.Remark.GetFirstFact()
	return currentRemark{semnet.Remark{Aggregate: a}}, err
}

func (r currentRemark) GetNextStory() (remark, error) {
	a, err := r.Remark.GetNextStory()
	return currentRemark{semnet.Remark{Aggregate: a}}, err
}

func (r currentRemark) AddRemarkToFact(property string) (remark, error) {
	a, err := r.Remark.AddRemarkToFact(property)
	return currentRemark{semnet.Remark{Aggregate: a}}, err
}

func (r currentRemark) AddFactToStory(object string, property string) (remark, error) {
	a, err := r.Remark.AddFactToStory(object, property)
	return currentRemark{semnet.Remark{Aggregate: a}}, err
}

func (r currentRemark) CreateChildStory(object string, property string) (remark, error) {
	a, err := r.Remark.CreateChildStory(object, property)
	return currentRemark{semnet.Remark{Aggregate: a}}, err
}

// ---- the version in frozen/

type pastHandle struct{ *frozen.Graph }
type pastRemark struct{ frozen.Remark }
type pastWriter struct{ *frozen.Output }

func (h pastHandle) CreateStory(object string, property string) (remark, error) {
	r, err := h.Graph.CreateStory(object, property)
	return pastRemark{r}, err
}

func (h pastHandle) GetRemark(identifier uint) (remark, error) {
	r, err := h.Graph.GetRemark(identifier)
	return pastRemark{r}, err
}

func (h pastHandle) newOutput() writer { return pastWriter{frozen.NewOutput(h.Graph)} }

func (w pastWriter) GetStory(r remark) (string, error) {
	return w.Output.GetStory(r.(pastRemark).Remark)
}

func (r pastRemark) GetNextRemark() (remark, error) {
	a, err := r.Remark.GetNextRemark()
	return pastRemark{frozen.Remark{Aggregate: a}}, err
}

func (r pastRemark) GetNextFact() (remark, error) {
	a, err := r.Remark.GetNextFact()
	return pastRemark{frozen.Remark{Aggregate: a}}, err
}

func (r pastRemark) GetFirstFact() (remark, error) {
	a, err := r.Remark.GetFirstFact()
	return pastRemark{frozen.Remark{Aggregate: a}}, err
}

func (r pastRemark) GetNextStory() (remark, error) {
	a, err := r.Remark.GetNextStory()
	return pastRemark{frozen.Remark{Aggregate: a}}, err
}

func (r pastRemark) AddRemarkToFact(property string) (remark, error) {
	a, err := r.Remark.AddRemarkToFact(property)
	return pastRemark{frozen.Remark{Aggregate: a}}, err
}

func (r pastRemark) AddFactToStory(object string, property string) (remark, error) {
	a, err := r.Remark.AddFactToStory(object, property)
	return pastRemark{frozen.Remark{Aggregate: a}}, err
}

func (r pastRemark) CreateChildStory(object string, property string) (remark, error) {
	a, err := r.Remark.CreateChildStory(object, property)
	return pastRemark{frozen.Remark{Aggregate: a}}, err
}

func newHandle(s storage, old bool) handle {
	if old {
		return pastHandle{frozen.NewGraph(s)}
	}
	return currentHandle{semnet.NewGraph(s)}
}

// previous tells whether a handle that is opened now is of the version in
// frozen/. A client may open one version after the other.
func (w *world) previous(client uint64) bool {
	return w.cfg.Mixed && mix(mix(w.cfg.StoreSeed, client), uint64(w.step)+5)%2 == 0
}
