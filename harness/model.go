package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"sort"

	"github.com/Vivino/rankdb"
)

type (
	Elem  = rankdb.Element
	Elems = rankdb.Elements
	EID   = rankdb.ElementID
)

// refAbove is the documented ranking, written independently of the code.
func refAbove(a, b Elem) bool {
	switch {
	case a.Score != b.Score:
		return a.Score > b.Score
	case a.TieBreaker != b.TieBreaker:
		return a.TieBreaker > b.TieBreaker
	case a.Updated != b.Updated:
		return a.Updated < b.Updated
	}
	return a.ID < b.ID
}

func refSort(e []Elem) { sort.SliceStable(e, func(i, j int) bool { return refAbove(e[i], e[j]) }) }

func eq(a, b Elem) bool {
	return a.Score == b.Score && a.ID == b.ID && a.TieBreaker == b.TieBreaker && a.Updated == b.Updated && bytes.Equal(a.Payload, b.Payload)
}

func cp(e Elem) Elem {
	if e.Payload != nil {
		e.Payload = append([]byte{}, e.Payload...)
	}
	return e
}

func cps(e []Elem) Elems {
	out := make(Elems, len(e))
	for i := range e {
		out[i] = cp(e[i])
	}
	return out
}

func es(e Elem) string {
	return fmt.Sprintf("{id:%d score:%d tie:%d upd:%d pl:%x}", e.ID, e.Score, e.TieBreaker, e.Updated, trunc(e.Payload))
}
func trunc(b []byte) []byte {
	if len(b) > 8 {
		return b[:8]
	}
	return b
}
func ess(e []Elem) string {
	s := "["
	for i, x := range e {
		if i > 40 {
			s += fmt.Sprintf(" ...%d more", len(e)-i)
			break
		}
		s += es(x) + " "
	}
	return s + "]"
}

// model is the reference ranking.
type model struct {
	m      map[EID]Elem
	sorted []Elem
	pos    map[EID]int
	dirty  bool
}

func newModel() *model { return &model{m: map[EID]Elem{}, dirty: true} }

func (m *model) clone() *model {
	n := newModel()
	for k, v := range m.m {
		n.m[k] = cp(v)
	}
	return n
}

func (m *model) put(es ...Elem) {
	for _, e := range es {
		m.m[e.ID] = cp(e)
	}
	m.dirty = true
}

func (m *model) del(ids ...EID) {
	for _, id := range ids {
		delete(m.m, id)
	}
	m.dirty = true
}

func (m *model) reset(es ...Elem) {
	m.m = map[EID]Elem{}
	m.put(es...)
}

func (m *model) list() []Elem {
	if m.dirty {
		m.sorted = m.sorted[:0:0]
		for _, e := range m.m {
			m.sorted = append(m.sorted, e)
		}
		refSort(m.sorted)
		m.pos = make(map[EID]int, len(m.sorted))
		for i, e := range m.sorted {
			m.pos[e.ID] = i
		}
		m.dirty = false
	}
	return m.sorted
}

func (m *model) len() int { return len(m.m) }

func (m *model) rank(id EID) (int, bool) {
	m.list()
	p, ok := m.pos[id]
	return p, ok
}

// above returns up to r elements directly above position p, nearest first.
func (m *model) above(p, r int) []Elem {
	l := m.list()
	var out []Elem
	for i := p - 1; i >= 0 && len(out) < r; i-- {
		out = append(out, l[i])
	}
	return out
}

func (m *model) below(p, r int) []Elem {
	l := m.list()
	var out []Elem
	for i := p + 1; i < len(l) && len(out) < r; i++ {
		out = append(out, l[i])
	}
	return out
}

func sameElems(got, want []Elem) string {
	if len(got) != len(want) {
		return fmt.Sprintf("got %d elements, want %d: got %s want %s", len(got), len(want), ess(got), ess(want))
	}
	for i := range got {
		if !eq(got[i], want[i]) {
			return fmt.Sprintf("position %d of %d: got %s, want %s", i, len(want), es(got[i]), es(want[i]))
		}
	}
	return ""
}

// --- generators -----------------------------------------------------------

// elemGen generates elements with a chosen flavour of scores and ties.
type elemGen struct {
	r      *rand.Rand
	kind   int
	ties   int
	idKind int
	nextID uint64
	upd    uint32
	plMax  int
	// lateUpd generates the ends of the range of update times.
	lateUpd bool
}

func newElemGen(r *rand.Rand) *elemGen {
	return &elemGen{r: r, kind: r.Intn(6), ties: r.Intn(4), idKind: r.Intn(4), nextID: uint64(1 + r.Intn(3)), upd: uint32(1000 + r.Intn(1000)), plMax: 12, lateUpd: r.Intn(6) == 0}
}

var edgeScores = []uint64{0, 1, 2, math.MaxUint64, math.MaxUint64 - 1, 1 << 63, 1<<63 - 1, math.MaxUint32, 1 << 32}

func (g *elemGen) score() uint64 {
	switch g.kind {
	case 0:
		return uint64(g.r.Intn(4))
	case 1:
		return uint64(g.r.Intn(60))
	case 2:
		return g.r.Uint64()
	case 3:
		if g.r.Intn(2) == 0 {
			return pick(g.r, edgeScores)
		}
		return g.r.Uint64()
	case 4:
		return math.MaxUint64 - uint64(g.r.Intn(30))
	default:
		return uint64(g.r.Intn(100000))
	}
}

func (g *elemGen) tie() uint32 {
	switch g.ties {
	case 0:
		return 0
	case 1:
		return uint32(g.r.Intn(3))
	case 2:
		return pick(g.r, []uint32{0, 1, math.MaxUint32, math.MaxUint32 - 1, 7})
	default:
		return g.r.Uint32()
	}
}

func (g *elemGen) id() EID {
	switch g.idKind {
	case 0:
		g.nextID++
		return EID(g.nextID)
	case 1:
		return EID(g.r.Intn(200))
	case 2:
		if g.r.Intn(4) == 0 {
			return EID(pick(g.r, edgeScores))
		}
		return EID(g.r.Intn(1000))
	default:
		return EID(g.r.Uint64())
	}
}

func (g *elemGen) payload() []byte {
	switch g.r.Intn(4) {
	case 0:
		return nil
	case 1:
		return []byte{}
	}
	b := make([]byte, g.r.Intn(g.plMax+1))
	g.r.Read(b)
	return b
}

func (g *elemGen) updated() uint32 {
	if g.lateUpd && g.r.Intn(4) == 0 {
		return pick(g.r, []uint32{math.MaxUint32, math.MaxUint32 - 1, math.MaxUint32, 1})
	}
	if g.r.Intn(3) > 0 {
		g.upd++
		return g.upd
	}
	return uint32(1000 + g.r.Intn(3))
}

func (g *elemGen) elem(id EID) Elem {
	return Elem{ID: id, Score: g.score(), TieBreaker: g.tie(), Updated: g.updated(), Payload: g.payload()}
}

// fresh returns n elements with distinct IDs not in m (and not repeated).
func (g *elemGen) fresh(m *model, n int) []Elem {
	seen := map[EID]bool{}
	var out []Elem
	for tries := 0; len(out) < n && tries < n*20+50; tries++ {
		id := g.id()
		if _, ok := m.m[id]; ok || seen[id] {
			continue
		}
		seen[id] = true
		out = append(out, g.elem(id))
	}
	return out
}

// existing returns up to n distinct existing IDs.
func (g *elemGen) existing(m *model, n int) []EID {
	l := m.list()
	if len(l) == 0 {
		return nil
	}
	var out []EID
	seen := map[EID]bool{}
	for i := 0; i < n*3 && len(out) < n; i++ {
		id := l[g.r.Intn(len(l))].ID
		if !seen[id] {
			seen[id] = true
			out = append(out, id)
		}
	}
	return out
}

// mutate returns a changed version of e: new score, small move, or only payload.
func (g *elemGen) mutate(m *model, id EID) Elem {
	old := m.m[id]
	e := g.elem(id)
	switch g.r.Intn(5) {
	case 0:
		e.Score, e.TieBreaker = old.Score, old.TieBreaker
	case 1:
		if old.Score < math.MaxUint64 {
			e.Score = old.Score + 1
		}
	case 2: // take the place of another element
		l := m.list()
		o := l[g.r.Intn(len(l))]
		e.Score, e.TieBreaker = o.Score, o.TieBreaker
	}
	return e
}

func shuffle(r *rand.Rand, e []Elem) {
	r.Shuffle(len(e), func(i, j int) { e[i], e[j] = e[j], e[i] })
}
