package main

import (
	"errors"
	"math"
	"time"

	"github.com/Vivino/rankdb"
)

func init() {
	register(&Check{ID: "C01", Quick: 1000, Thorough: 4000, Run: runC01,
		Rule:   "one case = one list driven through a generated sequence of operations next to a reference ranking; after every operation length, full content, offsets from both ends, lookups and stats are compared",
		Assume: []string{"update batches hold distinct element IDs, and inserts only IDs not present (documented preconditions)", "the bottom of the store stack is an exact in-memory store"}})
	register(&Check{ID: "C02", Quick: 900, Thorough: 3500, Run: runC02,
		Rule:   "one case = one operation sequence; after every operation the code's own verification, an independent decoder of the stored blobs and (periodically) a fresh process view are checked",
		Assume: []string{"distinct IDs per batch", "no background services run in these cases"}})
	register(&Check{ID: "C03", Quick: 900, Thorough: 4000, Run: runC03,
		Rule:   "one case = one list in a generated state; score, percentile and offset queries at, between and beyond all element positions are compared with the reference ranking",
		Assume: []string{"percentile positions use the exact product floor(p*n)"}})
	register(&Check{ID: "C04", Quick: 900, Thorough: 4000, Run: runC04,
		Rule:   "one case = one list in a generated state; lookups with radius and updates with results compared with the reference ranking before and after",
		Assume: []string{"distinct IDs per batch"}})
}

func runC01(c *C) {
	s := newSim(c)
	if c.Idx%130 == 7 {
		bigPopulate(s)
		return
	}
	n := 0
	if c.Rng.Intn(3) > 0 {
		n = 1 + c.Rng.Intn(120)
	}
	s.create(n)
	s.checkRanking(true)
	steps := 25 + c.Rng.Intn(30)
	for i := 0; i < steps; i++ {
		op := s.step()
		s.checkRanking(i%5 == 4 || op == "repair" || op == "reindex" || op == "populate")
	}
	s.checkRanking(true)
	if s.segments() > 1 {
		c.NonTrivial()
	}
	c.Sample("%d ops on a list of %d elements in %d segments, sizes %d/%d, cache %s, ops %v", steps, s.mod.len(), s.segments(), s.merge, s.split, s.cname, s.ops)
}

// bigPopulate covers creation and sorting of large lists.
func bigPopulate(s *sim) {
	s.merge, s.split = 500, 2000
	s.g.idKind, s.g.kind = 0, 2
	if s.r.Intn(2) == 0 {
		s.g.kind = 5
	}
	n := 101000 + s.r.Intn(30000)
	s.create(n)
	s.c.Tick()
	s.checkTop(0, n+1)
	for i := 0; i < 30; i++ {
		s.checkTop(s.r.Intn(n+2), 1+s.r.Intn(50))
		s.checkBottom(s.r.Intn(n+2), 1+s.r.Intn(50))
	}
	s.must(s.l.ForceSplit(s.ctx, s.bs), "ForceSplit")
	s.checkTop(0, n+1)
	q := s.randIDs(500)
	res, err := s.l.GetElements(s.ctx, s.bs, append([]EID{}, q...), 0)
	s.must(err, "GetElements")
	s.checkRanked("GetElements", res, q, 0)
	b := s.batch(30000)
	s.update(b, 0, false)
	s.checkTop(0, s.mod.len()+1)
	s.checkStructure()
	s.c.NonTrivial()
	s.c.Sig("big", n)
	s.c.Max("elements", int64(s.mod.len()))
	s.c.Sample("large list: populate %d, split, update 30000", n)
}

func runC02(c *C) {
	s := newSim(c)
	n := 0
	if c.Rng.Intn(3) > 0 {
		n = 1 + c.Rng.Intn(150)
	}
	s.create(n)
	s.checkStructure()
	steps := 25 + c.Rng.Intn(30)
	maxSeg := 0
	for i := 0; i < steps; i++ {
		before := s.segments()
		op := s.step()
		s.checkStructure()
		after := s.segments()
		if after > maxSeg {
			maxSeg = after
		}
		if op == "split" {
			if after > before {
				c.Count("splits_happened", int64(after-before))
			}
			if after < before {
				c.Count("merges_happened", int64(before-after))
			}
			s.checkTop(0, s.mod.len()+1)
		}
		if i%8 == 7 {
			l := s.freshView()
			s.must(l.Verify(s.ctx, s.bs), "Verify in fresh process")
			s.must(l.VerifyElements(s.ctx, s.bs), "VerifyElements in fresh process")
			old := s.l
			s.l = l
			s.checkTop(0, s.mod.len()+1)
			s.l = old
			c.Count("fresh_views", 1)
		}
	}
	if maxSeg > 1 {
		c.NonTrivial()
	}
	c.Sample("%d ops, up to %d segments, sizes %d/%d, ops %v", steps, maxSeg, s.merge, s.split, s.ops)
}

// churn brings a list to an interesting state without checking every step.
func (s *sim) churn(steps int) {
	for i := 0; i < steps; i++ {
		s.step()
	}
}

func runC03(c *C) {
	s := newSim(c)
	n := 0
	if c.Rng.Intn(5) > 0 {
		n = 1 + c.Rng.Intn(100)
	}
	s.create(n)
	for round := 0; round < 3; round++ {
		s.churn(c.Rng.Intn(8))
		if c.Rng.Intn(6) == 0 { // leave segments empty
			l := s.mod.list()
			if len(l) > 2 {
				a := c.Rng.Intn(len(l))
				b := a + c.Rng.Intn(len(l)-a) + 1
				s.del(ids(l[a:b]))
			}
		}
		if c.Rng.Intn(12) == 0 && s.mod.len() > 0 {
			s.del(ids(s.mod.list()))
		}
		s.checkScores()
		s.checkPercentiles()
		N := s.mod.len()
		for _, off := range []int{0, N - 1, N, N + 1, N + 1000, math.MaxInt32} {
			if off >= 0 {
				s.checkTop(off, 1+c.Rng.Intn(5))
				s.checkBottom(off, 1+c.Rng.Intn(5))
			}
		}
		if _, err := s.l.GetRankScoreAsc(s.ctx, s.bs, 1, 1); err != nil && !errors.Is(err, rankdb.ErrNotImplemented) {
			c.Failf("GetRankScoreAsc: %v", err)
		}
	}
	if s.segments() > 1 {
		c.NonTrivial()
	}
	c.Sample("list of %d elements in %d segments, sizes %d/%d", s.mod.len(), s.segments(), s.merge, s.split)
}

func (s *sim) checkScores() {
	l := s.mod.list()
	scores := map[uint64]bool{0: true, math.MaxUint64: true, 1: true, 1 << 63: true}
	step := 1
	if len(l) > 60 {
		step = len(l)/60 + 1
	}
	for i := 0; i < len(l); i += step {
		sc := l[i].Score
		scores[sc] = true
		if sc > 0 {
			scores[sc-1] = true
		}
		if sc < math.MaxUint64 {
			scores[sc+1] = true
		}
	}
	for sc := range scores {
		n := 1 + s.r.Intn(6)
		if s.r.Intn(8) == 0 {
			n = len(l) + 3
		}
		got, err := s.l.GetRankScoreDesc(s.ctx, s.bs, sc, n)
		s.must(err, "GetRankScoreDesc(%d,%d)", sc, n)
		first := len(l)
		for i, e := range l {
			if e.Score <= sc {
				first = i
				break
			}
		}
		want := window(l, first, n)
		if len(got) != len(want) {
			s.c.Failf("GetRankScoreDesc(%d,%d): got %d elements, want %d (first at %d of %d)", sc, n, len(got), len(want), first, len(l))
		}
		for i := range got {
			p := first + i
			if !eq(got[i].Element, want[i]) {
				s.c.Failf("GetRankScoreDesc(%d,%d)[%d]: got %s, want %s", sc, n, i, es(got[i].Element), es(want[i]))
			}
			if got[i].FromTop != p || got[i].FromBottom != len(l)-1-p {
				s.c.Failf("GetRankScoreDesc(%d,%d)[%d]: rank top %d bottom %d, want %d %d", sc, n, i, got[i].FromTop, got[i].FromBottom, p, len(l)-1-p)
			}
		}
		s.c.Count("score_queries", 1)
	}
	s.c.Tick()
}

func (s *sim) checkPercentiles() {
	n := s.mod.len()
	var ps []float64
	ps = append(ps, 0, 1, 0.5, 0.999999, 1e-9, -1, 2)
	for i := 0; i < 8; i++ {
		ps = append(ps, s.r.Float64())
	}
	if n > 0 { // multiples exactly representable
		for i := 0; i < 4; i++ {
			ps = append(ps, float64(s.r.Intn(64))/64)
		}
	}
	for _, p := range ps {
		radius := s.r.Intn(4)
		re, err := s.l.GetPercentile(s.ctx, s.bs, p, radius)
		s.c.Count("percentile_queries", 1)
		if n == 0 {
			if err == nil && re != nil {
				s.c.Failf("GetPercentile(%v) of empty list returned %s", p, es(re.Element))
			}
			s.c.Count("percentile_on_empty", 1)
			continue
		}
		s.must(err, "GetPercentile(%v) of %d elements", p, n)
		q := math.Max(0, math.Min(1, p))
		want := floorMul(q, n)
		if want >= n {
			want = n - 1
		}
		if pos, ok := s.mod.rank(re.ID); !ok || pos != want {
			s.c.Failf("GetPercentile(%v) of %d elements returned position %d (found %v), want %d", p, n, pos, ok, want)
		}
		s.checkOne("GetPercentile", *re, radius)
	}
	s.c.Tick()
}

func runC04(c *C) {
	s := newSim(c)
	n := 0
	if c.Rng.Intn(6) > 0 {
		n = 1 + c.Rng.Intn(100)
	}
	s.create(n)
	for round := 0; round < 4; round++ {
		s.churn(c.Rng.Intn(6))
		for i := 0; i < 6; i++ {
			radius := pick(s.r, []int{0, 1, 2, 3, 5, 17, s.mod.len(), s.mod.len() + 7})
			q := s.randIDs(1 + s.r.Intn(10))
			if s.r.Intn(4) == 0 {
				q = append(ids(s.mod.list()), q...)
			}
			res, err := s.l.GetElements(s.ctx, s.bs, append([]EID{}, q...), radius)
			s.must(err, "GetElements radius %d", radius)
			s.checkRanked("GetElements", res, q, radius)
			c.Count("neighbour_lookups", int64(len(res)))
			nb := 1 + s.r.Intn(8)
			if s.r.Intn(5) == 0 {
				nb = 40
			}
			s.update(s.batch(nb), s.r.Intn(6), true)
			c.Tick()
		}
	}
	res, err := s.l.GetElements(s.ctx, s.bs, nil, 3)
	if err != nil || len(res) != 0 {
		c.Failf("GetElements of nothing: %d results, %v", len(res), err)
	}
	if s.segments() > 1 {
		c.NonTrivial()
	}
	c.Sample("list of %d elements in %d segments, sizes %d/%d", s.mod.len(), s.segments(), s.merge, s.split)
	_ = time.Now
}
