package main

import (
	"bytes"
	"fmt"
	"math"
	"sort"
	"time"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/sortfloat"
)

func init() {
	register(&Check{ID: "C20", Quick: 1200, Thorough: 20000, Run: runC20,
		Rule:   "one case = a batch of generated collections pushed through every collection operation and compared with a naive reference; every 100th case sorts and merges collections beyond the parallel sort threshold",
		Assume: []string{"merge operands are sorted and deduplicated as documented", "which of several copies equal in update time and score survives deduplication is not specified"}})
	register(&Check{ID: "C21", Quick: 64, Thorough: 800, Run: runC21,
		Rule: "one case = 20000 generated float pairs (random bit patterns, boundaries, neighbours, subnormals, infinities, NaNs) converted, compared and converted back"})
}

// algGen makes collections with many collisions.
func algElems(c *C, g *elemGen, n int, unique bool) []Elem {
	var out []Elem
	seen := map[EID]bool{}
	for tries := 0; len(out) < n && tries < 20*n+20; tries++ {
		id := g.id()
		if unique && seen[id] {
			continue
		}
		seen[id] = true
		e := g.elem(id)
		if c.Rng.Intn(4) > 0 {
			e.Updated = uint32(c.Rng.Intn(3)) + 1
		}
		out = append(out, e)
	}
	return out
}

func sorted(e []Elem) []Elem {
	o := append([]Elem{}, e...)
	refSort(o)
	return o
}

// asMultiset compares regardless of order.
func sameSet(a, b []Elem) string {
	x, y := sorted(a), sorted(b)
	tie := func(s []Elem) {
		sort.SliceStable(s, func(i, j int) bool {
			if refAbove(s[i], s[j]) {
				return true
			}
			if refAbove(s[j], s[i]) {
				return false
			}
			return bytes.Compare(s[i].Payload, s[j].Payload) < 0
		})
	}
	tie(x)
	tie(y)
	return sameElems(x, y)
}

func isSorted(e []Elem) int {
	for i := 1; i < len(e); i++ {
		if refAbove(e[i], e[i-1]) {
			return i
		}
	}
	return -1
}

func runC20(c *C) {
	r := c.Rng
	g := newElemGen(r)
	if g.idKind == 0 {
		g.idKind = 1
	}
	if c.Idx%100 == 3 {
		bigSort(c)
		return
	}
	fail := func(what, d string, in []Elem) {
		if d != "" {
			c.Failf("%s: %s\ninput %s", what, d, ess(in))
		}
	}
	for round := 0; round < 12; round++ {
		n := pick(r, []int{0, 1, 2, 3, 8, 15, 40, 200})
		in := algElems(c, g, n, false)
		c.Logf("collection %s", ess(in))
		c.Sig(n, g.kind, g.ties, g.idKind, round)

		// Sort
		s := cps(in)
		wasSorted := isSorted(in) < 0
		ch := s.Sort()
		fail("Sort loses or changes elements", sameSet(s, in), in)
		if i := isSorted(s); i >= 0 {
			c.Failf("Sort left position %d out of order: %s", i, ess(s))
		}
		if ch == wasSorted {
			c.Failf("Sort reports changed=%v, input sorted=%v", ch, wasSorted)
		}
		for i := 1; i < len(s); i++ {
			if s[i-1].Above(s[i]) != refAbove(s[i-1], s[i]) || s[i].Above(s[i-1]) != refAbove(s[i], s[i-1]) {
				c.Failf("Above(%s,%s) wrong", es(s[i-1]), es(s[i]))
			}
		}

		// Deduplicate
		d := cps(in)
		ch = d.Deduplicate()
		best := map[EID]Elem{}
		dup := false
		for _, e := range in {
			b, ok := best[e.ID]
			dup = dup || ok
			if !ok || e.Updated > b.Updated || (e.Updated == b.Updated && e.Score > b.Score) {
				best[e.ID] = e
			}
		}
		if ch != dup {
			c.Failf("Deduplicate reports %v, duplicates %v", ch, dup)
		}
		if len(d) != len(best) {
			c.Failf("Deduplicate left %d elements of %d IDs: %s", len(d), len(best), ess(d))
		}
		for _, e := range d {
			b := best[e.ID]
			if e.Updated != b.Updated || e.Score != b.Score {
				c.Failf("Deduplicate kept %s although %s is newer or scores higher", es(e), es(b))
			}
			found := false
			for _, o := range in {
				found = found || eq(o, e)
			}
			if !found {
				c.Failf("Deduplicate made up %s", es(e))
			}
		}
		if i := isSorted(d); i >= 0 {
			c.Failf("Deduplicate left position %d out of order", i)
		}
		ne := rankdb.NewElements(cps(in))
		if len(ne) != len(best) || isSorted(ne) >= 0 {
			c.Failf("NewElements: %d elements of %d IDs, unsorted at %d", len(ne), len(best), isSorted(ne))
		}
		if hd := cps(in); (hd.HasDuplicates() != nil) != dup {
			c.Failf("HasDuplicates says %v, want %v", hd.HasDuplicates(), dup)
		}

		// Merge of two sorted collections, with and without spare capacity.
		uniq := algElems(c, g, n, true)
		cut := 0
		if len(uniq) > 0 {
			cut = r.Intn(len(uniq) + 1)
		}
		a, b := sorted(uniq[:cut]), sorted(uniq[cut:])
		for _, sliced := range []bool{true, false} {
			x := make(Elems, len(a), len(a)+r.Intn(20))
			copy(x, a)
			bb := cps(b)
			x.Merge(bb, sliced)
			fail(fmt.Sprintf("Merge(sliced=%v)", sliced), sameElems(x, sorted(uniq)), uniq)
			fail("Merge changed its argument", sameElems(bb, b), uniq)
		}
		// sliced: a shared backing array must not be written.
		if len(a) > 0 {
			back := make(Elems, len(a)+8)
			copy(back, a)
			for i := len(a); i < len(back); i++ {
				back[i] = Elem{ID: 77, Score: uint64(i)}
			}
			orig := cps(back)
			x := back[:len(a)]
			x.Merge(cps(b), true)
			fail("Merge(sliced) wrote into the shared array", sameElems(back, orig), uniq)
		}
		// Large merge
		if round == 0 && c.Idx%10 == 0 {
			big := algElems(c, &elemGen{r: r, kind: 2, idKind: 3}, 1500, true)
			k := r.Intn(len(big))
			x := Elems(sorted(big[:k]))
			x.Merge(Elems(sorted(big[k:])), false)
			fail("large Merge", sameElems(x, sorted(big)), nil)
		}

		// MergeDeduplicate: inserted wins.
		p, q := algElems(c, g, n, true), algElems(c, g, r.Intn(n+1), true)
		want := map[EID]Elem{}
		for _, e := range p {
			want[e.ID] = e
		}
		for _, e := range q {
			want[e.ID] = e
		}
		var wl []Elem
		for _, e := range want {
			wl = append(wl, e)
		}
		x := Elems(sorted(p))
		px := cps(x)
		y := x
		y.MergeDeduplicate(cps(sorted(q)))
		fail("MergeDeduplicate", sameElems(y, sorted(wl)), nil)
		fail("MergeDeduplicate changed the original slice", sameElems(x, px), nil)

		// SplitSize
		if n > 0 {
			each := 1 + r.Intn(n+3)
			parts := Elems(s).SplitSize(each)
			var all []Elem
			for i, pt := range parts {
				if len(pt) == 0 {
					c.Failf("SplitSize(%d) made an empty chunk", each)
				}
				if i > 0 {
					l, f := parts[i-1][len(parts[i-1])-1], pt[0]
					if l.Score == f.Score && l.TieBreaker == f.TieBreaker {
						c.Failf("SplitSize(%d) separated %s and %s", each, es(l), es(f))
					}
				}
				all = append(all, pt...)
			}
			fail("SplitSize lost or reordered elements", sameElems(all, s), s)
			// chunks no bigger than asked unless ties force it
			for _, pt := range parts {
				if len(pt) > each {
					k := pt[len(pt)-1]
					run := 0
					for _, e := range pt {
						if e.Score == k.Score && e.TieBreaker == k.TieBreaker {
							run++
						}
					}
					if len(pt)-run >= each {
						c.Failf("SplitSize(%d) made a chunk of %d not forced by ties", each, len(pt))
					}
				}
			}
			// MinMax
			mn, mx, mnt, mxt := Elems(s).MinMax()
			if mx != s[0].Score || mxt != s[0].TieBreaker || mn != s[len(s)-1].Score || mnt != s[len(s)-1].TieBreaker {
				c.Failf("MinMax is %d/%d..%d/%d", mx, mxt, mn, mnt)
			}
		}

		// Keyed sequence operations against the reference.
		cur := Elems(sorted(uniq))
		cur = cps(cur)
		ref := sorted(uniq)
		for k := 0; k < 10; k++ {
			e := g.elem(g.id())
			if len(ref) > 0 && r.Intn(2) == 0 {
				e.ID = ref[r.Intn(len(ref))].ID
			}
			idx := -1
			for i := range ref {
				if ref[i].ID == e.ID {
					idx = i
				}
			}
			rm := func() {
				if idx >= 0 {
					ref = append(append([]Elem{}, ref[:idx]...), ref[idx+1:]...)
				}
			}
			checkRank := func(what string, rk *rankdb.Rank) {
				pos := -1
				for i := range ref {
					if ref[i].ID == e.ID {
						pos = i
					}
				}
				if rk == nil || rk.FromTop != pos || rk.FromBottom != len(ref)-1-pos {
					c.Failf("%s(%s) returned rank %+v, want position %d of %d", what, es(e), rk, pos, len(ref))
				}
			}
			switch r.Intn(5) {
			case 0:
				if idx >= 0 {
					continue
				}
				pos := cur.Insert(e)
				ref = sorted(append(ref, e))
				if ref[pos].ID != e.ID {
					c.Failf("Insert(%s) returned index %d", es(e), pos)
				}
			case 1:
				rk, err := cur.Add(e)
				if err != nil {
					c.Failf("Add(%s): %v", es(e), err)
				}
				rm()
				ref = sorted(append(ref, e))
				checkRank("Add", rk)
			case 2:
				rk, err := cur.Update(e)
				if (err == nil) != (idx >= 0) {
					c.Failf("Update(%s) of present=%v: %v", es(e), idx >= 0, err)
				}
				if err != nil {
					if err != rankdb.ErrNotFound {
						c.Failf("Update of missing: %v", err)
					}
					break
				}
				rm()
				ref = sorted(append(ref, e))
				checkRank("Update", rk)
			case 3:
				err := cur.Delete(e.ID)
				if (err == nil) != (idx >= 0) || (err != nil && err != rankdb.ErrNotFound) {
					c.Failf("Delete(%d) of present=%v: %v", e.ID, idx >= 0, err)
				}
				rm()
			case 4:
				f, err := cur.Find(e.ID)
				i, err2 := cur.FindIdx(e.ID)
				if (err == nil) != (idx >= 0) || (err2 == nil) != (idx >= 0) {
					c.Failf("Find(%d) of present=%v: %v, %v", e.ID, idx >= 0, err, err2)
				}
				if err == nil && (!eq(*f, ref[idx]) || i != idx) {
					c.Failf("Find(%d) returned %s at %d, want %s at %d", e.ID, es(*f), i, es(ref[idx]), idx)
				}
				si, err := cur.FindScoreIdx(e.Score)
				wi := -1
				for i := range ref {
					if ref[i].Score == e.Score {
						wi = i
						break
					}
				}
				if (err == nil) != (wi >= 0) || (err == nil && si != wi) {
					c.Failf("FindScoreIdx(%d) is %d, %v; want %d", e.Score, si, err, wi)
				}
			}
			fail("keyed operation", sameElems(cur, ref), ref)
			c.Count("keyed_ops", 1)
		}
		// Updated zero means now.
		if len(ref) > 0 {
			e := ref[r.Intn(len(ref))]
			e.Updated = 0
			t0 := uint32(time.Now().Unix())
			if _, err := cur.Update(e); err != nil {
				c.Failf("Update: %v", err)
			}
			f, _ := cur.Find(e.ID)
			if f == nil || f.Updated < t0 {
				c.Failf("Update with zero time stored %v", f)
			}
			t := time.Unix(int64(1000+r.Intn(100000)), 0)
			cur.UpdateTime(t)
			for _, e := range cur {
				if int64(e.Updated) != t.Unix() {
					c.Failf("UpdateTime left %s", es(e))
				}
			}
		}

		// Clones are independent.
		src := cps(in)
		cl := src.Clone(true)
		for i := range cl {
			for j := range cl[i].Payload {
				cl[i].Payload[j] ^= 0xff
			}
			cl[i].Score++
		}
		fail("changing a clone changed the origin", sameElems(src, in), in)
		// Ranked
		off, tot := r.Intn(100), 0
		tot = off + len(s) + r.Intn(50)
		for i, re := range s.Ranked(off, tot) {
			if re.FromTop != off+i || re.FromBottom != tot-1-off-i || !eq(re.Element, s[i]) {
				c.Failf("Ranked(%d,%d)[%d] is %+v", off, tot, i, re)
			}
		}
		// IDs
		idsIn := s.IDs()
		uniqIDs := map[EID]bool{}
		for _, i := range idsIn {
			uniqIDs[i] = true
		}
		dd := append(rankdb.ElementIDs{}, idsIn...)
		dd.Deduplicate()
		if len(dd) != len(uniqIDs) {
			c.Failf("ElementIDs.Deduplicate left %d of %d", len(dd), len(uniqIDs))
		}
		for i := range dd {
			if !uniqIDs[dd[i]] || (i > 0 && dd[i] >= dd[i-1]) {
				c.Failf("ElementIDs.Deduplicate wrong: %v", dd)
			}
		}
		other := Elems(uniq).IDs()
		om := map[EID]bool{}
		for _, i := range other {
			om[i] = true
		}
		notIn := dd.NotIn(other)
		nm := map[EID]bool{}
		for _, i := range notIn {
			nm[i] = true
			if om[i] || !uniqIDs[i] {
				c.Failf("NotIn returned %d", i)
			}
		}
		ovl := dd.Overlap(other)
		vm := map[EID]bool{}
		for _, i := range ovl {
			vm[i] = true
			if !om[i] || !uniqIDs[i] {
				c.Failf("Overlap returned %d", i)
			}
		}
		if len(nm)+len(vm) != len(dd) || len(notIn) != len(nm) {
			c.Failf("NotIn %d + Overlap %d != %d", len(nm), len(vm), len(dd))
		}
		// list IDs
		lids := rankdb.ListIDs{}
		lm := map[rankdb.ListID]bool{}
		for i := r.Intn(12); i > 0; i-- {
			id := rankdb.ListID(fmt.Sprintf("l%d", r.Intn(8)))
			lids = append(lids, id)
			lm[id] = true
		}
		nl := len(lids)
		chg := lids.Deduplicate()
		if len(lids) != len(lm) || chg != (nl != len(lm)) {
			c.Failf("ListIDs.Deduplicate: %v of %d distinct, changed %v", lids, len(lm), chg)
		}
		for i := range lids {
			if !lm[lids[i]] || (i > 0 && lids[i-1] >= lids[i]) {
				c.Failf("ListIDs.Deduplicate: %v", lids)
			}
		}
		c.Count("collections", 1)
		if n > 2 {
			c.NonTrivial()
		}
	}
	c.Sample("score kind %d, tie kind %d, id kind %d", g.kind, g.ties, g.idKind)
}

// bigSort covers the parallel split+merge sort, including long runs of ties.
func bigSort(c *C) {
	r := c.Rng
	n := 25000 + r.Intn(40000)
	if r.Intn(4) == 0 {
		n = 25000 + r.Intn(3)
	}
	in := make(Elems, n)
	mode := c.Idx / 100 % 5
	run := r.Intn(n)
	for i := range in {
		e := Elem{ID: EID(i + 1), Updated: uint32(r.Intn(50)), Score: r.Uint64()}
		switch mode {
		case 0: // everything tied
			e.Score, e.TieBreaker = 5, 9
		case 1:
			e.Score = uint64(r.Intn(3))
		case 2: // one long run in the middle of a random list
			if i > run {
				e.Score = 1 << 40
			}
		case 3: // nearly sorted
			e.Score = uint64(n - i)
			if r.Intn(500) == 0 {
				e.Score = r.Uint64()
			}
		}
		in[i] = e
	}
	c.Logf("big sort of %d, mode %d", n, mode)
	s := cps(in)
	s.Sort()
	if d := sameElems(s, sorted(in)); d != "" {
		c.Failf("Sort of %d elements (mode %d): %s", n, mode, d)
	}
	k := r.Intn(n)
	a, b := Elems(sorted(in[:k])), Elems(sorted(in[k:]))
	a.Merge(b, r.Intn(2) == 0)
	if d := sameElems(a, s); d != "" {
		c.Failf("Merge of %d+%d: %s", k, n-k, d)
	}
	c.Count("big_sorts", 1)
	c.NonTrivial()
	c.Sig("big", mode, n)
	c.Sample("sort and merge of %d elements, mode %d", n, mode)
}

func runC21(c *C) {
	r := c.Rng
	edge := []float64{0, math.Copysign(0, -1), 1, -1, math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64,
		math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64, math.Float64frombits(0x0010000000000000), math.Float64frombits(0x000fffffffffffff),
		math.Pi, 1e-300, -1e-300, 0.1, 1 << 53, math.Nextafter(1, 2), math.Nextafter(1, 0)}
	gen := func() float64 {
		switch r.Intn(6) {
		case 0:
			return pick(r, edge)
		case 1:
			return r.NormFloat64()
		case 2:
			f := pick(r, edge)
			for i := r.Intn(3); i >= 0; i-- {
				f = math.Nextafter(f, pick(r, edge))
			}
			return f
		case 3:
			return float64(r.Intn(2000) - 1000)
		default:
			return math.Float64frombits(r.Uint64())
		}
	}
	nan := sortfloat.SortableFloat64(math.NaN())
	for i := 0; i < 20000; i++ {
		a, b := gen(), gen()
		if r.Intn(4) == 0 {
			b = math.Nextafter(a, math.Inf(1))
		}
		x, y := sortfloat.SortableFloat64(a), sortfloat.SortableFloat64(b)
		if a != a {
			if x != nan {
				c.Failf("NaN %x maps to %d, other NaN to %d", math.Float64bits(a), x, nan)
			}
			c.Count("nans", 1)
			_ = sortfloat.ReverseFloat64(x)
			continue
		}
		if back := sortfloat.ReverseFloat64(x); back != a {
			c.Failf("%v (bits %x) converts to %d and back to %v (bits %x)", a, math.Float64bits(a), x, back, math.Float64bits(back))
		}
		if x == nan {
			c.Failf("%v maps to the NaN score", a)
		}
		_ = sortfloat.ReverseFloat64(r.Uint64())
		if b != b {
			continue
		}
		if (a < b) != (x < y) || (a > b) != (x > y) {
			negz := a == 0 && b == 0 // -0 may order at or below +0
			if negz && math.Signbit(a) && x <= y {
				continue
			}
			if negz && math.Signbit(b) && y <= x {
				continue
			}
			c.Failf("%v (bits %x) -> %d and %v (bits %x) -> %d order differently", a, math.Float64bits(a), x, b, math.Float64bits(b), y)
		}
		c.Count("pairs", 1)
	}
	c.NonTrivial()
	c.Sig(c.Idx)
	c.Sample("20000 float pairs")
}
