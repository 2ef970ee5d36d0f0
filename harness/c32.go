package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/Vivino/rankdb"
)

func init() {
	register(&Check{ID: "C32", Quick: 500, Thorough: 10000, Run: runC32,
		Rule:   "one case = a list in a generated state and 40 damages of its stored layout, elements or index, each on its own copy of the storage and each opened by a fresh process; Verify and VerifyElements together must fail exactly when an independent decoder of the blobs finds the list inconsistent",
		Assume: []string{"a verification that repaired the stored index itself may succeed"}})
}

// mpEncLayout encodes segments as they are stored.
func mpEncLayout(version byte, ss *rankdb.Segments) []byte {
	b, err := ss.MarshalMsg([]byte{version})
	if err != nil {
		panic(err)
	}
	return b
}

// damageOne changes one thing in the stored list and describes it.
func damageOne(s *sim, sp *spy, sc, ix string) string {
	r := s.r
	layout, index := sc, false
	if r.Intn(5) < 2 {
		layout, index = ix, true
	}
	lb, _ := sp.raw(s.set, layout)
	var ss rankdb.Segments
	if _, err := ss.UnmarshalMsg(lb[1:]); err != nil {
		panic(err)
	}
	st, err := readSegs(sp, s.set, layout, true)
	s.must(err, "stored segments")
	n := len(ss.Segments)
	i := r.Intn(n)
	sg := &ss.Segments[i]
	name := "scores"
	if index {
		name = "index"
	}
	saveLayout := func(what string, a ...interface{}) string {
		sp.put(s.set, layout, mpEncLayout(lb[0], &ss))
		return fmt.Sprintf("%s segment #%d of %d: %s", name, i, n, fmt.Sprintf(what, a...))
	}
	el := st.Segs[i].Elems
	eb, _ := sp.raw(s.set, st.Segs[i].Key)
	saveElems := func(es []Elem, fix bool, what string, a ...interface{}) string {
		sp.put(s.set, st.Segs[i].Key, mpEncElems(eb[0], es))
		t := ""
		if fix {
			sg.N = len(es)
			sp.put(s.set, layout, mpEncLayout(lb[0], &ss))
			t = " with matching count"
		}
		return fmt.Sprintf("%s segment #%d of %d: %s%s", name, i, n, fmt.Sprintf(what, a...), t)
	}
	for {
		switch x := r.Intn(22); x {
		case 0:
			d := pick(r, []int{-1, 1, 7})
			sg.N += d
			return saveLayout("count changed by %d", d)
		case 1:
			d := pick(r, []uint64{1, math.MaxUint64, 1 << 32})
			sg.Min += d
			return saveLayout("lower bound changed by %d", d)
		case 2:
			d := pick(r, []uint64{1, math.MaxUint64, 1 << 32})
			sg.Max += d
			return saveLayout("upper bound changed by %d", d)
		case 3:
			sg.MinTie += pick(r, []uint32{1, math.MaxUint32})
			return saveLayout("lower tie bound changed")
		case 4:
			sg.MaxTie += pick(r, []uint32{1, math.MaxUint32})
			return saveLayout("upper tie bound changed")
		case 5:
			if n < 2 {
				continue
			}
			j := r.Intn(n)
			if i == j {
				continue
			}
			ss.Segments[i], ss.Segments[j] = ss.Segments[j], ss.Segments[i]
			return saveLayout("swapped with #%d", j)
		case 6:
			if n < 2 {
				continue
			}
			ss.Segments = append(ss.Segments[:i:i], ss.Segments[i+1:]...)
			return saveLayout("dropped from the layout")
		case 7:
			ss.Segments = append(ss.Segments[:i+1:i+1], ss.Segments[i:]...)
			return saveLayout("listed twice")
		case 8:
			ss.Segments = nil
			return saveLayout("layout emptied")
		case 9:
			ss.IsIndex = !ss.IsIndex
			return saveLayout("index flag flipped")
		case 10:
			ss.ID = "another"
			return saveLayout("layout ID changed")
		case 11: // a segment of the same content under another parent
			sg.Parent = "another"
			sp.put(s.set, fmt.Sprintf("another-%06d", sg.ID), eb)
			return saveLayout("parent changed")
		case 12:
			if n < 2 {
				continue
			}
			j := r.Intn(n)
			if i == j {
				continue
			}
			sp.put(s.set, st.Segs[j].Key, eb)
			return fmt.Sprintf("%s elements of #%d of %d also stored as #%d", name, i, n, j)
		case 13:
			if len(el) < 2 {
				continue
			}
			j := r.Intn(len(el) - 1)
			el[j], el[j+1] = el[j+1], el[j]
			return saveElems(el, false, "elements %d and %d swapped", j, j+1)
		case 14:
			if len(el) == 0 {
				continue
			}
			j := r.Intn(len(el))
			id := el[j].ID
			return saveElems(append(el[:j:j], el[j+1:]...), r.Intn(2) == 0, "element %d removed", id)
		case 15: // an element too many
			var e Elem
			if all := s.mod.list(); len(all) > 0 && r.Intn(2) == 0 {
				e = cp(all[r.Intn(len(all))])
				if index {
					e.Score, e.Payload = uint64(e.ID), nil
				}
			} else {
				e = s.g.elem(s.g.id())
				e.Updated = 1
				if r.Intn(2) == 0 {
					e.Score, e.TieBreaker = sg.Min, sg.MinTie
				}
			}
			el = append(el, e)
			if r.Intn(4) > 0 {
				sort.SliceStable(el, func(a, b int) bool { return refAbove(el[a], el[b]) })
			}
			return saveElems(el, r.Intn(2) == 0, "element %s added", es(e))
		case 16:
			if len(el) == 0 {
				continue
			}
			j := r.Intn(len(el))
			old := el[j].ID
			el[j].ID += EID(1 + r.Intn(3))
			return saveElems(el, false, "element %d renamed %d", old, el[j].ID)
		case 17:
			if len(el) == 0 {
				continue
			}
			j := pick(r, []int{0, len(el) - 1, r.Intn(len(el))})
			old := el[j].Score
			el[j].Score += pick(r, []uint64{1, math.MaxUint64, 1 << 40})
			return saveElems(el, false, "score of element %d changed from %d to %d", el[j].ID, old, el[j].Score)
		case 18:
			if len(el) == 0 {
				continue
			}
			j := pick(r, []int{0, len(el) - 1, r.Intn(len(el))})
			old := el[j].TieBreaker
			el[j].TieBreaker += pick(r, []uint32{1, math.MaxUint32, 5})
			return saveElems(el, false, "tie breaker of element %d changed from %d to %d", el[j].ID, old, el[j].TieBreaker)
		case 19: // harmless
			if len(el) == 0 || index {
				continue
			}
			j := r.Intn(len(el))
			el[j].Payload = []byte("changed")
			return saveElems(el, false, "payload changed")
		case 20: // harmless
			sg.Updated++
			return saveLayout("update time changed")
		case 21:
			sp.drop(s.set, st.Segs[i].Key)
			return fmt.Sprintf("%s elements of segment #%d of %d lost", name, i, n)
		}
	}
}

func runC32(c *C) {
	r := c.Rng
	s := newSim(c)
	ss := pick(r, [][2]int{{2, 4}, {3, 8}, {4, 10}, {8, 24}, {100, 400}})
	s.merge, s.split = ss[0], ss[1]
	s.load = false // nothing loads in the background
	s.create(r.Intn(60))
	for i := r.Intn(8); i > 0; i-- {
		s.stepNoReload()
	}
	s.must(s.mgr.SaveLists(s.ctx, false), "SaveLists")
	sc, ix := listRefs(s.l)
	_, _, err := readStored(s.spy, s.set, sc, ix)
	s.must(err, "stored state")
	bad, good := 0, 0
	for k := 0; k < 40; k++ {
		f := s.fork(false)
		what := "nothing"
		if k > 0 {
			what = damageOne(s, f.spy, sc, ix)
		}
		_, _, broken := readStored(f.spy, s.set, sc, ix)
		l := f.l
		e1 := l.Verify(s.ctx, f.bs)
		e2 := l.VerifyElements(s.ctx, f.bs)
		if broken == nil && (e1 != nil || e2 != nil) {
			c.Failf("consistent list (changed: %s) does not verify: %v, elements %v", what, e1, e2)
		}
		if broken != nil && e1 == nil && e2 == nil {
			sc2, ix2 := listRefs(l)
			if _, _, err := readStored(f.spy, s.set, sc2, ix2); err != nil {
				c.Failf("verification accepted an inconsistent list after %s: %v", what, err)
			}
			c.Count("index_rebuilt_by_verification", 1)
		}
		if broken != nil {
			bad++
			// What was found once is found again, also by the same process.
			if e1 != nil && l.Verify(s.ctx, f.bs) == nil {
				c.Failf("the second verification accepted what the first refused after %s: %v", what, e1)
			}
			if e2 != nil && l.VerifyElements(s.ctx, f.bs) == nil {
				c.Failf("the second element verification accepted what the first refused after %s: %v", what, e2)
			}
		} else {
			good++
		}
		checkUnlocked(c, s.ctx, l, "after verification")
		c.Tick()
	}
	c.Count("inconsistent_lists_refused", int64(bad))
	c.Count("consistent_lists_accepted", int64(good))
	c.NonTrivial()
	c.Sig(c.Idx, s.mod.len(), bad, good)
	c.Sample("%d elements in segments of %d-%d: %d inconsistent and %d consistent variants", s.mod.len(), s.merge, s.split, bad, good)
}
