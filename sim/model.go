package main

// The reference model: remarks in facts in stories in a tree. Operations on it
// are a few lines each; every answer of the code under test is compared with
// what this model says.

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

type mRemark struct {
	uid   int
	id    uint
	o, p  string
	fact  *mFact
	pos   int
	after string // what had happened when it was written: "", "fault" or "crash"
}

type mFact struct {
	story   *mStory
	index   int
	remarks []*mRemark
}

type mStory struct {
	parent   *mStory
	index    int
	facts    []*mFact
	children []*mStory
	broken   int // writes to it that failed
}

type model struct {
	remarks map[int]*mRemark
	order   []*mRemark
	byID    map[uint]*mRemark
	stories []*mStory
	// texts stored by successful writes, for storage growth
	phrases map[string]bool
	pairs   map[[2]string]bool
	maybe   map[[2]string]bool // pairs of failed writes: stored or not
}

func newModel() *model {
	return &model{remarks: map[int]*mRemark{}, byID: map[uint]*mRemark{}, phrases: map[string]bool{}, pairs: map[[2]string]bool{}, maybe: map[[2]string]bool{}}
}

func (s *mStory) any(n int) *mRemark {
	all := []*mRemark{}
	for _, f := range s.facts {
		all = append(all, f.remarks...)
	}
	return all[n%len(all)]
}

func (s *mStory) head() *mRemark { return s.facts[0].remarks[0] }

// apply performs an acknowledged (or adopted) write.
func (m *model) apply(op string, uid int, id uint, target *mRemark, o, p string) *mRemark {
	r := &mRemark{uid: uid, id: id, o: o, p: p}
	switch op {
	case "create":
		st := &mStory{}
		m.stories = append(m.stories, st)
		f := &mFact{story: st}
		st.facts = []*mFact{f}
		r.fact = f
	case "addremark":
		r.o = target.o
		r.fact = target.fact
	case "addfact":
		st := target.fact.story
		f := &mFact{story: st, index: len(st.facts)}
		st.facts = append(st.facts, f)
		r.fact = f
	case "child":
		st := target.fact.story
		c := &mStory{parent: st, index: len(st.children)}
		st.children = append(st.children, c)
		m.stories = append(m.stories, c)
		f := &mFact{story: c}
		c.facts = []*mFact{f}
		r.fact = f
	}
	r.pos = len(r.fact.remarks)
	r.fact.remarks = append(r.fact.remarks, r)
	m.remarks[uid] = r
	m.order = append(m.order, r)
	m.byID[id] = r
	m.phrases[r.o], m.phrases[r.p] = true, true
	m.pairs[[2]string{r.o, r.p}] = true
	return r
}

// retext changes the texts of a remark just entered.
func (m *model) retext(r *mRemark, o, p string) {
	r.o, r.p = o, p
	m.phrases[o], m.phrases[p] = true, true
	m.pairs[[2]string{o, p}] = true
}

func describe(r *mRemark) string {
	return fmt.Sprintf("%d %q %q in %d", r.id, r.o, r.p, r.fact.story.head().id)
}

// expect gives the answers the model allows for a read of target. The second
// result is an answer that is wrong but recorded as a known finding.
func (m *model) expect(op string, t *mRemark) (want string, known string) {
	st := t.fact.story
	switch op {
	case "text":
		return fmt.Sprintf("%d %q %q", t.id, t.o, t.p), ""
	case "first":
		return fmt.Sprint(st.head().id), ""
	case "nextfact":
		if t.fact.index+1 < len(st.facts) {
			return describe(st.facts[t.fact.index+1].remarks[0]), ""
		}
		return "end", ""
	case "nextstory":
		if st.parent != nil && st.index+1 < len(st.parent.children) {
			return describe(st.parent.children[st.index+1].head()), ""
		}
		return "end", ""
	case "nextremark":
		if t.pos+1 < len(t.fact.remarks) {
			return describe(t.fact.remarks[t.pos+1]), "end"
		}
		return "end", ""
	case "list":
		ids := []string{}
		for _, f := range st.facts {
			ids = append(ids, strconv.FormatUint(uint64(f.remarks[0].id), 10))
		}
		return strings.Join(ids, " "), ""
	case "sibs":
		ids := []string{}
		if st.parent != nil {
			for _, c := range st.parent.children[st.index+1:] {
				ids = append(ids, strconv.FormatUint(uint64(c.head().id), 10))
			}
		}
		return strings.Join(ids, " "), ""
	case "output":
		f := st.facts[0]
		var b strings.Builder
		for _, r := range f.remarks {
			b.WriteString(r.o + " " + r.p + " ")
		}
		all := b.String()
		head := f.remarks[0].o + " " + f.remarks[0].p + " "
		if head == all {
			return fmt.Sprintf("%q", all), ""
		}
		return fmt.Sprintf("%q", all), fmt.Sprintf("%q", head)
	}
	panic("simulator: no expectation for " + op)
}

// shape is a canonical form of the whole structure without texts.
func (m *model) shape() string {
	var story func(s *mStory) string
	story = func(s *mStory) string {
		out := "("
		for _, f := range s.facts {
			out += fmt.Sprint(len(f.remarks))
		}
		for _, c := range s.children {
			out += story(c)
		}
		return out + ")"
	}
	tops := []string{}
	for _, s := range m.stories {
		if s.parent == nil {
			tops = append(tops, story(s))
		}
	}
	sort.Strings(tops)
	return strings.Join(tops, "")
}
