package main

import (
	"bytes"
	"context"
	"fmt"
	"time"

	"github.com/Vivino/rankdb"
)

func init() {
	register(&Check{ID: "C10", Level: "fault_enumeration", Quick: 260, Thorough: 1600, Run: runC10,
		Rule:   "one case = a list in a generated state and every kind of operation on it; for each operation every storage call it makes is failed in turn (call fails, call is applied but reported failed, everything fails from there on, context cancelled there), each on its own fork of the storage; plus a random history with random faults",
		Assume: []string{"a failed call either had no effect or its full effect", "elements of a failed operation may be old, new or absent afterwards", "the directory is saved before a restarted process loads it"}})
}

// fork continues the list in a new process on a copy of the storage.
func (s *sim) fork(warm bool) *sim {
	f := *s
	f.spy = s.spy.fork()
	f.bs = f.spy
	f.mod = s.mod.clone()
	f.cache = newCache("lru", 1+s.r.Intn(40))
	if s.r.Intn(3) == 0 {
		f.cache = nil
	}
	m, err := rankdb.NewManager(f.bs, "dir")
	s.must(err, "NewManager")
	s.must(m.LoadLists(s.ctx, f.cache), "LoadLists")
	l, ok := m.Lists.ByID(s.id)
	if !ok {
		s.c.Failf("list missing in forked storage")
	}
	f.mgr, f.l = m, l
	if warm {
		_, err := l.GetRankTop(s.ctx, f.bs, 0, f.mod.len()+1)
		if err != nil && f.mod.len() > 0 {
			s.c.Failf("warming up: %v", err)
		}
	}
	return &f
}

// fop is an operation on a list with a known effect.
type fop struct {
	name string
	run  func(ctx context.Context, s *sim) error
	// after is the content when the operation succeeded.
	after func(m *model)
	// touched lists the elements a failed operation may have affected.
	touched []EID
	all     bool // the operation replaces all content
	read    bool
	// intact: untouched elements must be found right after the failure, before any repair.
	intact bool
	// atomic: after a failure the content is exactly the old or the new one.
	atomic bool
	gone   bool // success leaves no list
	// done runs extra checks after success.
	done func(s *sim)
}

func (s *sim) faultOps() []*fop {
	r := s.r
	var ops []*fop
	b := s.batch(1 + r.Intn(8))
	for _, res := range []bool{false, true} {
		res := res
		rad := r.Intn(3)
		ops = append(ops, &fop{name: fmt.Sprintf("update(results=%v)", res), intact: true, touched: ids(b),
			run: func(ctx context.Context, s *sim) error {
				got, err := s.l.UpdateElements(ctx, s.bs, cps(b), rad, res)
				if err == nil && res && len(got) != len(b) {
					s.c.Failf("update returned %d results and no error for %d elements", len(got), len(b))
				}
				return err
			},
			after: func(m *model) { m.put(b...) }})
	}
	ins := s.g.fresh(s.mod, 1+r.Intn(8))
	ops = append(ops, &fop{name: "insert", intact: true, touched: ids(ins),
		run:   func(ctx context.Context, s *sim) error { return s.l.Insert(ctx, s.bs, cps(ins)) },
		after: func(m *model) { m.put(ins...) }})
	d := s.randIDs(1 + r.Intn(8))
	ops = append(ops, &fop{name: "delete", intact: true, touched: d,
		run:   func(ctx context.Context, s *sim) error { return s.l.DeleteElements(ctx, s.bs, append([]EID{}, d...)) },
		after: func(m *model) { m.del(d...) }})
	ops = append(ops, &fop{name: "split", run: func(ctx context.Context, s *sim) error { return s.l.ForceSplit(ctx, s.bs) }, after: func(m *model) {}})
	ops = append(ops, &fop{name: "reindex", intact: true, run: func(ctx context.Context, s *sim) error { return s.l.Reindex(ctx, s.bs) }, after: func(m *model) {}})
	ops = append(ops, &fop{name: "repair", run: func(ctx context.Context, s *sim) error { return s.l.Repair(ctx, s.bs, false) }, after: func(m *model) {}})
	pop := s.g.fresh(newModel(), r.Intn(40))
	ops = append(ops, &fop{name: "populate", all: true, atomic: true,
		run:   func(ctx context.Context, s *sim) error { return s.l.Populate(ctx, s.bs, cps(pop)) },
		after: func(m *model) { m.reset(pop...) }})
	ops = append(ops, &fop{name: "deletelist", all: true, gone: true,
		run: func(ctx context.Context, s *sim) error { return s.mgr.DeleteList(ctx, s.id) }, after: func(m *model) { m.reset() }})
	ops = append(ops, &fop{name: "clone", run: func(ctx context.Context, s *sim) error {
		l, err := rankdb.NewList(ctx, "clone", "cloneset", s.bs, rankdb.WithListOption.Clone(s.l), rankdb.WithListOption.MergeSplitSize(s.merge, s.split))
		if err == nil {
			s.spy.onCall = nil
			cl := *s
			cl.l, cl.id, cl.set = l, "clone", "cloneset"
			cl.checkRanking(false)
			cl.checkStructure()
		}
		return err
	}, after: func(m *model) {}})
	ops = append(ops, &fop{name: "backup", run: func(ctx context.Context, s *sim) error {
		var buf bytes.Buffer
		w := rankdb.NewWriterMsg()
		defer w.Close()
		w.ReplaceWriter(&buf)
		err := s.l.Backup(ctx, s.bs, w)
		w.Flush()
		if err != nil {
			return err
		}
		s.spy.onCall = nil
		sp := newSpy()
		l, err := rankdb.RestoreList(quiet(context.Background()), sp, rankdb.NewReaderMsgp(buf.Bytes()), nil, nil)
		if err != nil {
			s.c.Failf("backup reported success but cannot be restored: %v", err)
		}
		rs := *s
		rs.l, rs.bs, rs.spy = l, sp, sp
		rs.checkRanking(false)
		return nil
	}, after: func(m *model) {}, read: true})

	// Reads: whatever they return without error is right.
	read := func(name string, fn func(ctx context.Context, s *sim) error) {
		ops = append(ops, &fop{name: name, read: true, run: fn, after: func(m *model) {}})
	}
	off, k := r.Intn(s.mod.len()+1), 1+r.Intn(20)
	if off > 0 {
		off--
	}
	read("gettop", func(ctx context.Context, s *sim) error {
		got, err := s.l.GetRankTop(ctx, s.bs, off, k)
		if err == nil {
			if dd := sameElems(got, window(s.mod.list(), off, k)); dd != "" {
				s.c.Failf("GetRankTop under faults: %s", dd)
			}
		}
		return err
	})
	read("getbottom", func(ctx context.Context, s *sim) error {
		got, err := s.l.GetRankBottom(ctx, s.bs, off, k)
		if err == nil {
			if dd := sameElems(got, window(s.mod.list(), s.mod.len()-1-off, k)); dd != "" {
				s.c.Failf("GetRankBottom under faults: %s", dd)
			}
		}
		return err
	})
	q := s.randIDs(6)
	rad := r.Intn(5)
	read("getelements", func(ctx context.Context, s *sim) error {
		got, err := s.l.GetElements(ctx, s.bs, append([]EID{}, q...), rad)
		if err == nil {
			s.checkRanked("GetElements under faults", got, q, rad)
		}
		return err
	})
	score := s.g.score()
	if s.mod.len() > 0 {
		score = s.mod.list()[r.Intn(s.mod.len())].Score
	}
	read("getscore", func(ctx context.Context, s *sim) error {
		got, err := s.l.GetRankScoreDesc(ctx, s.bs, score, k)
		if err == nil {
			l := s.mod.list()
			first := len(l)
			for i, e := range l {
				if e.Score <= score {
					first = i
					break
				}
			}
			want := window(l, first, k)
			if len(got) != len(want) {
				s.c.Failf("GetRankScoreDesc under faults: %d elements, want %d", len(got), len(want))
			}
			for i := range got {
				if !eq(got[i].Element, want[i]) || got[i].FromTop != first+i {
					s.c.Failf("GetRankScoreDesc under faults: [%d] is %s rank %d, want %s rank %d", i, es(got[i].Element), got[i].FromTop, es(want[i]), first+i)
				}
			}
		}
		return err
	})
	pct := r.Float64()
	read("percentile", func(ctx context.Context, s *sim) error {
		got, err := s.l.GetPercentile(ctx, s.bs, pct, rad)
		if err == nil && got != nil {
			s.checkOne("GetPercentile under faults", *got, rad)
		}
		return err
	})
	read("len", func(ctx context.Context, s *sim) error {
		got, err := s.l.Len(ctx, s.bs)
		if err == nil && got != s.mod.len() {
			s.c.Failf("Len under faults: %d, want %d", got, s.mod.len())
		}
		return err
	})
	read("stats", func(ctx context.Context, s *sim) error {
		st, err := s.l.Stats(ctx, s.bs, true)
		if err == nil {
			if st.Elements != s.mod.len() {
				s.c.Failf("Stats under faults: %d elements, want %d", st.Elements, s.mod.len())
			}
			if n := s.mod.len(); n > 0 {
				if st.Top == nil || st.Bottom == nil {
					s.c.Failf("Stats under faults: no error, but no top or bottom element of %d", n)
				}
				if !eq(st.Top.Element, s.mod.list()[0]) || !eq(st.Bottom.Element, s.mod.list()[n-1]) {
					s.c.Failf("Stats under faults: wrong top or bottom element")
				}
			}
		}
		return err
	})
	read("verify", func(ctx context.Context, s *sim) error { return s.l.Verify(ctx, s.bs) })
	read("verifyelements", func(ctx context.Context, s *sim) error { return s.l.VerifyElements(ctx, s.bs) })
	return ops
}

type injMode int

const (
	injError  injMode = iota // the call fails
	injAfter                 // the call is applied and fails
	injOn                    // this and all later calls fail
	injCancel                // the context is cancelled at the call
	injModes
)

var injNames = []string{"fails", "is applied but fails", "and all later fail", "cancels the context"}

// inject runs op on s with the k-th storage call failing. Returns whether the
// fault was reached.
func (s *sim) inject(op *fop, k int64, mode injMode) (hit bool, err error) {
	ctx, cancel := context.WithCancel(s.ctx)
	defer cancel()
	start := s.spy.calls
	what := ""
	s.spy.mu.Lock()
	s.spy.onCall = func(n int64, o, set, key string) faultMode {
		n -= start
		if n < k {
			return faultNone
		}
		switch mode {
		case injError, injAfter:
			if n != k {
				return faultNone
			}
			hit = true
			what = o
			if mode == injAfter {
				return faultAfter
			}
			return faultError
		case injOn:
			hit = true
			if n == k {
				what = o
			}
			return faultError
		default:
			if n == k {
				hit = true
				what = o
				cancel()
				return faultError
			}
		}
		return faultNone
	}
	s.spy.mu.Unlock()
	err = op.run(ctx, s)
	s.spy.onCall = nil
	if hit {
		s.c.Count("faults_injected", 1)
		s.c.Count("fault_on_"+what, 1)
	}
	return hit, err
}

func runC10(c *C) {
	r := c.Rng
	s := newSim(c)
	ss := splitSizes[r.Intn(6)]
	s.merge, s.split = ss[0], ss[1]
	n := 0
	if r.Intn(8) > 0 {
		n = 1 + r.Intn(70)
	}
	s.create(n)
	for i := r.Intn(8); i > 0; i-- {
		s.stepNoReload()
	}
	if r.Intn(3) > 0 {
		s.must(s.l.ForceSplit(s.ctx, s.bs), "ForceSplit")
	}
	s.must(s.mgr.SaveLists(s.ctx, false), "SaveLists")
	if s.segments() > 1 {
		c.NonTrivial()
	}
	ops := s.faultOps()
	r.Shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
	// Every operation kind comes up over the cases; a few per case keeps cases short.
	per := 6
	if c.Tier == "thorough" {
		per = len(ops)
	}
	for _, op := range ops[:per] {
		warm := r.Intn(2) == 0
		// Without faults, to learn how many calls it makes.
		f := s.fork(warm)
		start := f.spy.calls
		if err := op.run(s.ctx, f); err != nil && !(s.mod.len() == 0 && op.read) {
			c.Failf("%s without faults: %v", op.name, err)
		}
		calls := f.spy.calls - start
		c.Max("calls_of_one_op", calls)
		maxK := calls
		step := int64(1)
		if maxK > 40 {
			step = maxK/40 + 1
		}
		for k := int64(1); k <= maxK; k += step {
			for mode := injError; mode < injModes; mode++ {
				if mode > injAfter && r.Intn(3) > 0 {
					continue
				}
				f := s.fork(warm)
				c.Logf("%s, storage call %d of %d %s (warm %v)", op.name, k, calls, injNames[mode], warm)
				hit, err := f.inject(op, k, mode)
				if !hit {
					c.Count("faults_not_reached", 1)
				}
				f.judge(op, err, mode)
				c.Count("op_"+op.name, 1)
			}
		}
		c.Sig(op.name, calls, warm)
	}
	burst(s)
	c.Sample("%d elements, sizes %d/%d, %d operation kinds", s.mod.len(), s.merge, s.split, per)
}

// judge decides whether the outcome of an operation under a fault was right.
func (f *sim) judge(op *fop, err error, mode injMode) {
	c, r := f.c, f.r
	checkUnlocked(c, f.ctx, f.l, "after "+op.name+" under a fault")
	before := f.mod.clone()
	if op.read {
		// Reads change nothing and work again.
		f.checkRanking(false)
		f.checkStructure()
		return
	}
	if err == nil {
		c.Count("succeeded_despite_fault", 1)
		op.after(f.mod)
		if op.gone {
			if _, ok := f.mgr.Lists.ByID(f.id); ok {
				c.Failf("list deletion succeeded, but the list is still there")
			}
			if k := f.spy.keys(f.set); len(k) > 0 {
				c.Failf("list deletion succeeded under a fault, but left blobs %v", k)
			}
			return
		}
		f.checkRanking(false)
		f.checkStructure()
		l := f.l
		f.l = f.freshView()
		f.checkRanking(false)
		f.l = l
		return
	}
	c.Count("failed_ops", 1)
	if op.gone {
		if _, ok := f.mgr.Lists.ByID(f.id); !ok {
			c.Failf("list deletion failed (%v), but the list is gone from the directory", err)
		}
		f.must(f.mgr.DeleteList(f.ctx, f.id), "second attempt to delete the list")
		if k := f.spy.keys(f.set); len(k) > 0 {
			c.Failf("list deletion failed once, the second attempt left blobs %v", k)
		}
		if _, ok := f.mgr.Lists.ByID(f.id); ok {
			c.Failf("list still there after deleting it")
		}
		return
	}
	touched := map[EID]bool{}
	for _, id := range op.touched {
		touched[id] = true
	}
	want := f.mod.clone()
	op.after(want)
	if op.atomic {
		got, e2 := f.l.GetRankTop(f.ctx, f.bs, 0, before.len()+want.len()+5)
		if e2 == nil || (before.len() == 0 || want.len() == 0) {
			d1, d2 := sameElems(got, before.list()), sameElems(got, want.list())
			if d1 != "" && d2 != "" {
				c.Failf("after failed %s (%v) the list is neither the old nor the new content: %s / %s", op.name, err, d1, d2)
			}
		} else {
			c.Failf("after failed %s (%v) the list cannot be read: %v", op.name, err, e2)
		}
	}
	var rest []EID
	for _, e := range before.list() {
		if !touched[e.ID] {
			rest = append(rest, e.ID)
		}
	}
	if op.intact && len(rest) > 0 {
		got, e2 := f.l.GetElements(f.ctx, f.bs, append([]EID{}, rest...), 0)
		if e2 == nil {
			seen := map[EID]bool{}
			for _, re := range got {
				if !eq(re.Element, before.m[re.ID]) {
					c.Failf("after failed %s (%v) untouched element is %s, was %s", op.name, err, es(re.Element), es(before.m[re.ID]))
				}
				seen[re.ID] = true
			}
			for _, id := range rest {
				if !seen[id] {
					c.Failf("after failed %s (%v) untouched element %d is not found", op.name, err, id)
				}
			}
		}
	}
	// The process may have been restarted before the repair.
	if r.Intn(2) == 0 {
		f.reload()
	}
	if r.Intn(3) == 0 {
		f.l.ReleaseSegments(f.ctx)
	}
	if e2 := f.l.Repair(f.ctx, f.bs, false); e2 != nil {
		c.Failf("repair after failed %s (%v): %v", op.name, err, e2)
	}
	f.adopt(op.name, err, before, want, touched, op.all)
	for i := 0; i < 2; i++ {
		f.stepNoReload()
		f.checkRanking(i == 1)
	}
	c.Count("recoveries", 1)
}

// adopt checks the content found after recovery and makes it the new reference.
func (f *sim) adopt(what string, err error, before, want *model, touched map[EID]bool, all bool) {
	c := f.c
	n := before.len() + want.len() + 10
	got, e2 := f.l.GetRankTop(f.ctx, f.bs, 0, n)
	if e2 != nil && before.len() > 0 && !all && len(touched) == 0 {
		c.Failf("after failed %s (%v) and repair: %v", what, err, e2)
	}
	now := newModel()
	for _, e := range got {
		o, okO := before.m[e.ID]
		w, okW := want.m[e.ID]
		if !(okO && eq(o, e)) && !(okW && eq(w, e)) {
			c.Failf("after failed %s (%v) and repair the list holds %s, which is neither the old nor the new element", what, err, es(e))
		}
		if _, dup := now.m[e.ID]; dup {
			c.Failf("after failed %s (%v) and repair element %d is there twice", what, err, e.ID)
		}
		now.put(e)
	}
	if !all {
		for id, e := range before.m {
			if g, ok := now.m[id]; !touched[id] && (!ok || !eq(g, e)) {
				c.Failf("after failed %s (%v) and repair untouched element %s is missing or changed", what, err, es(e))
			}
		}
	} else if sameElems(got, before.list()) != "" && sameElems(got, want.list()) != "" {
		c.Failf("after failed %s (%v) and repair the content is neither the old nor the new", what, err)
	}
	f.mod = now
	f.checkRanking(true)
	f.checkStructure()
}

// burst runs a history with random faults, tracking which elements a failed
// operation may have affected.
func burst(s *sim) {
	c, r := s.c, s.r
	f := s.fork(false)
	pct := 1 + r.Intn(20)
	tainted := map[EID]bool{}
	cand := map[EID][]Elem{} // allowed contents of tainted elements
	on := true
	// Fault decisions depend on the call number only.
	seed := uint64(r.Int63())
	f.spy.onCall = func(n int64, op, set, key string) faultMode {
		x := (seed + uint64(n)) * 0x9E3779B97F4A7C15
		x ^= x >> 29
		if !on || int(x%100) >= pct {
			return faultNone
		}
		if x>>20&1 == 0 {
			return faultAfter
		}
		return faultError
	}
	defer func() { f.spy.onCall = nil }()
	taint := func(es []Elem, del []EID) {
		for _, id := range append(ids(es), del...) {
			if !tainted[id] {
				tainted[id] = true
				if o, ok := f.mod.m[id]; ok {
					cand[id] = append(cand[id], o)
				}
			}
		}
		for _, e := range es {
			cand[e.ID] = append(cand[e.ID], e)
		}
	}
	fails := 0
	// After a failed split elements may be indexed to the segment they were in
	// before, so until the repair operations by ID may miss them.
	stale := false
	for i := 0; i < 25; i++ {
		ctx, cancel := context.WithTimeout(f.ctx, time.Minute)
		switch x := r.Intn(10); {
		case x < 4:
			b := f.batch(1 + r.Intn(8))
			c.Logf("burst update %s", ess(b))
			_, err := f.l.UpdateElements(ctx, f.bs, cps(b), 1, r.Intn(2) == 0)
			if err != nil || stale {
				taint(b, nil)
				fails++
			} else {
				for _, e := range b {
					if !tainted[e.ID] {
						f.mod.put(e)
					} else {
						cand[e.ID] = append(cand[e.ID], e)
					}
				}
			}
		case x < 6:
			d := f.randIDs(1 + r.Intn(6))
			c.Logf("burst delete %v", d)
			if err := f.l.DeleteElements(ctx, f.bs, append([]EID{}, d...)); err != nil || stale {
				taint(nil, d)
				fails++
			} else {
				for _, id := range d {
					if !tainted[id] {
						f.mod.del(id)
					}
				}
			}
		case x < 8:
			c.Logf("burst split")
			if f.l.ForceSplit(ctx, f.bs) != nil {
				fails++
				stale = true
			}
		case x < 9:
			f.l.ReleaseSegments(ctx)
		default:
			off := r.Intn(f.mod.len() + 1)
			got, err := f.l.GetRankTop(ctx, f.bs, off, 10)
			if err == nil {
				for _, e := range got {
					f.burstElem("GetRankTop", e, tainted, cand)
				}
			}
		}
		cancel()
		checkUnlocked(c, f.ctx, f.l, "during fault burst")
	}
	on = false
	c.Count("burst_failures", int64(fails))
	if r.Intn(2) == 0 {
		f.reload()
	}
	c.Logf("repair")
	f.must(f.l.Repair(f.ctx, f.bs, false), "repair after fault burst")
	got, _ := f.l.GetRankTop(f.ctx, f.bs, 0, f.mod.len()+len(cand)+10)
	now := newModel()
	for _, e := range got {
		f.burstElem("content after repair", e, tainted, cand)
		if _, dup := now.m[e.ID]; dup {
			c.Failf("after fault burst and repair element %d is there twice", e.ID)
		}
		now.put(e)
	}
	for id, e := range f.mod.m {
		if g, ok := now.m[id]; !tainted[id] && (!ok || !eq(g, e)) {
			c.Failf("after fault burst and repair untouched element %s is missing or changed", es(e))
		}
	}
	f.mod = now
	f.checkRanking(true)
	f.checkStructure()
	for i := 0; i < 3; i++ {
		f.stepNoReload()
		f.checkRanking(true)
	}
	c.Count("bursts", 1)
}

func (f *sim) burstElem(what string, e Elem, tainted map[EID]bool, cand map[EID][]Elem) {
	if !tainted[e.ID] {
		if w, ok := f.mod.m[e.ID]; !ok || !eq(w, e) {
			f.c.Failf("%s during faults: element %s, want %s (present %v)", what, es(e), es(w), ok)
		}
		return
	}
	for _, w := range cand[e.ID] {
		if eq(w, e) {
			return
		}
	}
	f.c.Failf("%s during faults: element %s is none of the values written: %s", what, es(e), ess(cand[e.ID]))
}
