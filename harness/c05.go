package main

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/blobstore"
)

func init() {
	register(&Check{ID: "C05", Quick: 500, Thorough: 2000, Run: runC05,
		Rule:   "one case = several lists over a random store stack (memory, bolt, badger or observed store under wrappers); after every few operations the directory is saved and a new manager (for persistent stores after closing and reopening) compared with the reference; segments are released at every step",
		Assume: []string{"the directory is saved after the last operation (documented persistence point)", "the process is the only user of the store"}})
	register(&Check{ID: "C06", Quick: 700, Thorough: 2500, Run: runC06,
		Rule:   "one case = a list in a generated state, a clone of it with other set, sizes and metadata, then operations on both (including deletion of either), each compared with its own reference and with the blobs it owns",
		Assume: []string{"distinct IDs per batch"}})
	register(&Check{ID: "C12", Quick: 600, Thorough: 2500, Run: runC12,
		Rule:   "one case = several lists on one observed store; after every operation the stored blobs are exactly those reachable from the lists according to an independent decoder; lists are deleted and re-created under the same ID",
		Assume: []string{"operations complete without storage faults (C10 covers faults)"}})
	register(&Check{ID: "C23", Quick: 600, Thorough: 2500, Run: runC23,
		Rule:   "one case = up to six lists on one store, set and shared cache (and a twin run without cache), driven by interleaved operations including deletion and re-creation; every list compared with its own reference after every operation on any of them; then in half of the cases one client per list (and more lists, created at the same moment) uses them all at once beside pruning and directory saves, each list compared with its own reference after each of its operations and the blobs of all with an inventory",
		Assume: []string{"distinct IDs per batch"}})
}

var listNames = []rankdb.ListID{"list", "list2", "lis", "some/list id", "ünïcode", "l", "list-000001", "-", "lists", "a+0"}

func runC05(c *C) {
	r := c.Rng
	st := newStack(c, false)
	st.open()
	st.createSets(quiet(c.Ctx), []string{"set", "other", "a-b_c", "dir"})
	closed := false
	c.Cleanup(func() {
		if !closed {
			st.close()
		}
		st.release()
	})
	nl := 1 + r.Intn(3)
	names := append([]rankdb.ListID{}, listNames...)
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	var sims []*sim
	var mgr *rankdb.Manager
	for i := 0; i < nl; i++ {
		s := newSim(c).on(st.top, nil, names[i], pick(r, []string{"set", "other", "a-b_c"}))
		s.mgr = mgr
		if i == 0 && r.Intn(3) == 0 { // many segments
			s.merge, s.split = 3, 8
		}
		n := 0
		if r.Intn(4) > 0 {
			n = 1 + r.Intn(100)
		}
		s.create(n)
		mgr = s.mgr
		sims = append(sims, s)
	}
	rounds := 4 + r.Intn(4)
	for i := 0; i < rounds; i++ {
		for j := r.Intn(6); j >= 0; j-- {
			s := pick(r, sims)
			switch r.Intn(8) {
			case 0:
				s.l.ReleaseSegments(s.ctx)
			case 1:
				s.must(mgr.Lists.Prune(s.ctx), "Prune")
			case 2:
				s.checkRanking(false)
			default:
				s.stepNoReload()
			}
			if r.Intn(3) == 0 {
				s.l.ReleaseSegments(s.ctx)
			}
		}
		pick(r, sims).checkRanking(true)
		ctx := sims[0].ctx
		if err := mgr.SaveLists(ctx, false); err != nil {
			c.Failf("SaveLists: %v", err)
		}
		if st.bottom == "bolt" || st.bottom == "badger" || len(st.lazies) > 0 {
			if r.Intn(2) == 0 || i == rounds-1 {
				if err := st.close(); err != nil {
					c.Failf("closing store: %v", err)
				}
				closed = true
				st.open()
				closed = false
				c.Count("store_reopens", 1)
				for _, s := range sims {
					s.bs = st.top
				}
			}
		}
		cache, _ := randCache(r)
		m, err := rankdb.NewManager(st.top, "dir")
		if err != nil {
			c.Failf("NewManager: %v", err)
		}
		if err := m.LoadLists(ctx, cache); err != nil {
			c.Failf("LoadLists: %v", err)
		}
		if got := m.Lists.All(); len(got) != nl {
			c.Failf("%d lists after reload, want %d", len(got), nl)
		}
		for _, s := range sims {
			l, ok := m.Lists.ByID(s.id)
			if !ok {
				c.Failf("list %q missing after reload", s.id)
			}
			s.checkMeta(l)
			s.l, s.mgr = l, m
			s.checkRanking(r.Intn(3) == 0)
			s.must(l.Verify(ctx, s.bs), "Verify after reload")
			s.must(l.VerifyElements(ctx, s.bs), "VerifyElements after reload")
			c.Count("reloads_compared", 1)
			if s.segments() > 1 {
				c.NonTrivial()
			}
			if s.load {
				c.Count("reloads_with_index", 1)
			} else {
				c.Count("reloads_without_index", 1)
			}
			// Releasing what was just loaded changes nothing.
			l.ReleaseSegments(ctx)
			s.checkRanking(false)
		}
		mgr = m
		c.Sig(st.name, nl)
	}
	c.Count("bottom_"+st.bottom, 1)
	c.Sample("%d lists over %s, %d reloads", nl, st.name, rounds)
}

// stepNoReload is step without replacing the manager.
func (s *sim) stepNoReload() string {
	switch x := s.r.Intn(100); {
	case x < 40:
		s.update(s.batch(1+s.r.Intn(12)), s.r.Intn(4), s.r.Intn(2) == 0)
		return "update"
	case x < 50:
		s.insert(s.g.fresh(s.mod, 1+s.r.Intn(12)))
		return "insert"
	case x < 66:
		s.del(s.randIDs(1 + s.r.Intn(10)))
		return "delete"
	case x < 80:
		s.c.Logf("%q force split", s.id)
		s.must(s.l.ForceSplit(s.ctx, s.bs), "ForceSplit")
		return "split"
	case x < 86:
		s.c.Logf("%q reindex", s.id)
		s.must(s.l.Reindex(s.ctx, s.bs), "Reindex")
		return "reindex"
	case x < 91:
		s.c.Logf("%q repair", s.id)
		s.must(s.l.Repair(s.ctx, s.bs, s.r.Intn(2) == 0), "Repair")
		return "repair"
	case x < 94:
		l := s.mod.list()
		if len(l) > 0 {
			a := s.r.Intn(len(l))
			b := a + s.r.Intn(len(l)-a) + 1
			s.del(ids(l[a:b]))
		}
		return "deleterange"
	case x < 97:
		n := 0
		if s.r.Intn(4) > 0 {
			n = s.r.Intn(60)
		}
		s.populate(s.g.fresh(newModel(), n))
		return "populate"
	default:
		s.c.Logf("%q release", s.id)
		s.l.ReleaseSegments(s.ctx)
		return "release"
	}
}

func runC06(c *C) {
	r := c.Rng
	a := newSim(c)
	n := 0
	if r.Intn(5) > 0 {
		n = 1 + r.Intn(120)
	}
	a.create(n)
	for i := r.Intn(12); i > 0; i-- {
		a.stepNoReload()
	}
	if r.Intn(3) == 0 {
		a.l.ReleaseSegments(a.ctx)
	}
	// The clone.
	b := newSim(c).on(a.bs, a.spy, rankdb.ListID(string(a.id)+" clone"), pick(r, []string{a.set, a.set, "otherset"}))
	b.mgr = a.mgr
	b.mod = a.mod.clone()
	b.g.idKind, b.g.kind, b.g.ties, b.g.nextID = a.g.idKind, a.g.kind, a.g.ties, a.g.nextID
	if r.Intn(2) == 0 {
		b.cache, b.cname = a.cache, a.cname
	}
	opt := rankdb.WithListOption
	before := a.spy.snapshot()
	l, err := rankdb.NewList(b.ctx, b.id, b.set, b.bs, opt.Clone(a.l), opt.MergeSplitSize(b.merge, b.split), opt.LoadIndex(b.load), opt.Cache(b.cache), opt.Metadata(b.meta))
	b.must(err, "NewList with Clone")
	b.l = l
	c.Logf("clone %q (%d elements, sizes %d/%d) to %q set %q sizes %d/%d", a.id, a.mod.len(), a.merge, a.split, b.id, b.set, b.merge, b.split)
	if d := diffStores(before, a.spy.snapshot(), func(k skey) bool { _, ok := before[k]; return !ok }); d != "" {
		c.Failf("cloning changed the storage of the origin: %s", d)
	}
	a.mgr.Lists.Add(l)
	b.checkMeta(l)
	a.checkMeta(a.l)
	a.checkRanking(true)
	b.checkRanking(true)
	a.checkStructure()
	b.checkStructure()
	checkInventory(c, a.spy, "after clone", a, b)
	if _, err := rankdb.NewList(b.ctx, "bad", b.set, b.bs, opt.Clone(a.l), opt.Populate(cps(a.mod.list()))); err == nil && a.mod.len() > 0 {
		c.Failf("a list both cloned and populated was created without error")
	}
	c.Count("clones", 1)
	c.Max("cloned_elements", int64(b.mod.len()))
	both := []*sim{a, b}
	steps := 6 + r.Intn(12)
	for i := 0; i < steps; i++ {
		s := pick(r, both)
		other := a
		if s == a {
			other = b
		}
		foreign := map[skey][]byte{}
		snap := a.spy.snapshot()
		for _, k := range other.stored() {
			kk := skey{other.set, k}
			foreign[kk] = snap[kk]
		}
		op := s.stepNoReload()
		after := a.spy.snapshot()
		for k, v := range foreign {
			if w, ok := after[k]; !ok || string(w) != string(v) {
				c.Failf("%s on %q changed blob %s/%s of %q (present after: %v)", op, s.id, k.set, k.key, other.id, ok)
			}
		}
		other.checkRanking(false)
		s.checkRanking(i%4 == 0)
		c.Sig(op)
	}
	// The clone's own sizes apply when split.
	b.must(b.l.ForceSplit(b.ctx, b.bs), "ForceSplit")
	b.must(b.l.ForceSplit(b.ctx, b.bs), "ForceSplit")
	b.checkStructure()
	if b.segments() > 1 {
		c.NonTrivial()
	}
	a.checkStructure()
	// Reload both.
	if r.Intn(2) == 0 {
		a.must(a.mgr.SaveLists(a.ctx, false), "SaveLists")
		a.reopen()
		b.mgr = a.mgr
		b.l, _ = a.mgr.Lists.ByID(b.id)
		if b.l == nil {
			c.Failf("clone missing after reload")
		}
		b.checkMeta(b.l)
		b.checkRanking(true)
	}
	// Delete one of them.
	gone, left := a, b
	if r.Intn(2) == 0 {
		gone, left = b, a
	}
	c.Logf("delete list %q", gone.id)
	gone.must(gone.mgr.DeleteList(gone.ctx, gone.id), "DeleteList")
	left.checkRanking(true)
	left.checkStructure()
	checkInventory(c, a.spy, "after deleting "+string(gone.id), left)
	for i := 0; i < 4; i++ {
		left.stepNoReload()
		left.checkRanking(true)
	}
	fl := left.freshView()
	left.must(fl.Verify(left.ctx, left.bs), "Verify in fresh process")
	left.must(fl.VerifyElements(left.ctx, left.bs), "VerifyElements in fresh process")
	c.Sample("clone of %d elements, %d ops on both, sizes %d/%d and %d/%d", n, steps, a.merge, a.split, b.merge, b.split)
}

func runC12(c *C) {
	r := c.Rng
	sp := newSpy()
	nl := 1 + r.Intn(4)
	sets := []string{"set", "set2", "se"}
	names := append([]rankdb.ListID{}, listNames...)
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	var sims []*sim
	var mgr *rankdb.Manager
	cache, _ := randCache(r)
	for i := 0; i < nl; i++ {
		s := newSim(c).on(sp, sp, names[i], pick(r, sets))
		s.mgr = mgr
		if r.Intn(2) == 0 {
			s.cache = cache
		}
		n := 0
		if r.Intn(4) > 0 {
			n = 1 + r.Intn(80)
		}
		s.create(n)
		mgr = s.mgr
		sims = append(sims, s)
	}
	checkInventory(c, sp, "after create", sims...)
	steps := 15 + r.Intn(20)
	for i := 0; i < steps; i++ {
		s := pick(r, sims)
		switch x := r.Intn(20); {
		case x < 2: // delete and re-create
			c.Logf("delete list %q", s.id)
			if r.Intn(2) == 0 {
				s.l.ReleaseSegments(s.ctx)
			}
			old := map[skey]bool{}
			for _, k := range s.stored() {
				old[skey{s.set, k}] = true
			}
			before := sp.snapshot()
			s.must(mgr.DeleteList(s.ctx, s.id), "DeleteList")
			if d := diffStores(before, sp.snapshot(), func(k skey) bool { return old[k] }); d != "" {
				c.Failf("deleting list %q touched other blobs: %s", s.id, d)
			}
			if _, ok := mgr.Lists.ByID(s.id); ok {
				c.Failf("deleted list %q still in directory", s.id)
			}
			rest := without(sims, s)
			checkInventory(c, sp, "after deleting "+string(s.id), rest...)
			for _, o := range rest {
				o.checkTop(0, o.mod.len()+1)
			}
			c.Count("lists_deleted", 1)
			// Same ID again, possibly in another set and with other sizes.
			s.mod = newModel()
			s.set = pick(r, sets)
			ss := pick(r, splitSizes)
			s.merge, s.split = ss[0], ss[1]
			n := 0
			if r.Intn(2) == 0 {
				n = 1 + r.Intn(50)
			}
			s.create(n)
			s.checkRanking(true)
			c.Count("lists_recreated", 1)
		case x < 4: // clone one and delete it again
			b := newSim(c).on(sp, sp, s.id+"/c", pick(r, sets))
			l, err := rankdb.NewList(b.ctx, b.id, b.set, sp, rankdb.WithListOption.Clone(s.l), rankdb.WithListOption.Cache(cache))
			s.must(err, "clone")
			b.l, b.mod, b.mgr = l, s.mod.clone(), mgr
			checkInventory(c, sp, "after clone", append([]*sim{b}, sims...)...)
			if r.Intn(2) == 0 {
				s.must(l.DeleteAll(b.ctx, sp), "DeleteAll")
			} else {
				mgr.Lists.Add(l)
				s.must(mgr.DeleteList(b.ctx, b.id), "DeleteList")
			}
		case x < 6:
			c.Logf("%q populate over old content", s.id)
			s.populate(s.g.fresh(newModel(), r.Intn(60)))
			c.Count("replaced", 1)
		case x < 8:
			c.Logf("%q reload", s.id)
			s.must(mgr.SaveLists(s.ctx, false), "SaveLists")
			m, err := rankdb.NewManager(sp, "dir")
			s.must(err, "NewManager")
			s.must(m.LoadLists(s.ctx, cache), "LoadLists")
			mgr = m
			for _, o := range sims {
				o.mgr = m
				o.l, _ = m.Lists.ByID(o.id)
				if o.l == nil {
					c.Failf("list %q missing after reload", o.id)
				}
			}
		default:
			before := s.segments()
			op := s.stepNoReload()
			if op == "split" && s.segments() < before {
				c.Count("merges", 1)
			}
			c.Count("op_"+op, 1)
			c.Sig(op)
		}
		checkInventory(c, sp, fmt.Sprintf("after step %d on %q", i, s.id), sims...)
		c.NonTrivial()
	}
	for _, s := range sims {
		s.checkRanking(true)
	}
	// Delete everything.
	for _, s := range sims {
		s.must(mgr.DeleteList(s.ctx, s.id), "DeleteList")
	}
	checkInventory(c, sp, "after deleting all lists")
	if err := mgr.DeleteList(sims[0].ctx, "missing"); err != nil {
		c.Failf("deleting a list that does not exist: %v", err)
	}
	c.Sample("%d lists, %d steps", nl, steps)
}

func without(s []*sim, x *sim) []*sim {
	var out []*sim
	for _, y := range s {
		if y != x {
			out = append(out, y)
		}
	}
	return out
}

func runC23(c *C) {
	r := c.Rng
	var bs blobstore.Store
	sp := newSpy()
	bs = sp
	cache, cname := randCache(r)
	if cache == nil {
		cache, cname = newCache("arc", 3), "arc/3"
	}
	nl := 2 + r.Intn(5)
	names := append([]rankdb.ListID{}, listNames...)
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	set := "set"
	var sims []*sim
	var mgr *rankdb.Manager
	for i := 0; i < nl; i++ {
		s := newSim(c).on(bs, sp, names[i], set)
		s.mgr = mgr
		s.cache, s.cname = cache, cname
		ss := pick(r, splitSizes[:5])
		s.merge, s.split = ss[0], ss[1]
		s.g.idKind = 1 // lists share element IDs
		n := 0
		if r.Intn(5) > 0 {
			n = 1 + r.Intn(60)
		}
		s.create(n)
		mgr = s.mgr
		sims = append(sims, s)
	}
	// The twin runs the same history without a cache.
	twinSpy := newSpy()
	twin := newSim(c).on(twinSpy, twinSpy, "twin", set)
	twin.cache = nil
	steps := 15 + r.Intn(20)
	for i := 0; i < steps; i++ {
		s := pick(r, sims)
		switch x := r.Intn(20); {
		case x < 2:
			c.Logf("delete and re-create %q", s.id)
			s.must(mgr.DeleteList(s.ctx, s.id), "DeleteList")
			s.mod = newModel()
			s.create(r.Intn(40))
			c.Count("recreated", 1)
		case x < 3:
			s.must(mgr.Lists.Prune(s.ctx), "Prune")
		case x < 4:
			// A second manager in the same process sharing the cache object.
			s.must(mgr.SaveLists(s.ctx, false), "SaveLists")
			m, err := rankdb.NewManager(bs, "dir")
			s.must(err, "NewManager")
			s.must(m.LoadLists(s.ctx, cache), "LoadLists")
			mgr = m
			for _, o := range sims {
				o.mgr = m
				o.l, _ = m.Lists.ByID(o.id)
				if o.l == nil {
					c.Failf("list %q missing after reload", o.id)
				}
			}
			c.Count("reloads_sharing_cache", 1)
		default:
			op := s.stepNoReload()
			c.Count("op_"+op, 1)
			c.Sig(op, len(s.id))
		}
		for _, o := range sims {
			o.checkRanking(o == s && i%5 == 0)
			c.Count("other_lists_compared", 1)
		}
		if s.segments() > 1 {
			c.NonTrivial()
		}
	}
	// Results with and without cache are equal.
	src := pick(r, sims)
	l, err := rankdb.NewList(twin.ctx, "nocache", set, bs, rankdb.WithListOption.Clone(src.l), rankdb.WithListOption.MergeSplitSize(src.merge, src.split))
	src.must(err, "clone without cache")
	cached := src.l
	for i := 0; i < 10; i++ {
		off, n := r.Intn(src.mod.len()+2), 1+r.Intn(10)
		g1, e1 := cached.GetRankTop(src.ctx, bs, off, n)
		g2, e2 := l.GetRankTop(src.ctx, bs, off, n)
		if (e1 == nil) != (e2 == nil) {
			c.Failf("GetRankTop(%d,%d) with cache: %v, without: %v", off, n, e1, e2)
		}
		if d := sameElems(g1, g2); d != "" {
			c.Failf("GetRankTop(%d,%d) differs with and without cache: %s", off, n, d)
		}
		sc := src.g.score()
		r1, e1 := cached.GetRankScoreDesc(src.ctx, bs, sc, n)
		r2, e2 := l.GetRankScoreDesc(src.ctx, bs, sc, n)
		if (e1 == nil) != (e2 == nil) || len(r1) != len(r2) {
			c.Failf("GetRankScoreDesc(%d,%d) with cache: %d %v, without: %d %v", sc, n, len(r1), e1, len(r2), e2)
		}
		for i := range r1 {
			if !eq(r1[i].Element, r2[i].Element) || r1[i].FromTop != r2[i].FromTop || r1[i].FromBottom != r2[i].FromBottom {
				c.Failf("GetRankScoreDesc(%d,%d)[%d] differs with and without cache", sc, n, i)
			}
		}
		c.Count("cache_twins_compared", 1)
	}
	src.must(l.DeleteAll(src.ctx, bs), "DeleteAll")
	for _, o := range sims {
		o.checkRanking(true)
		o.checkStructure()
	}
	if r.Intn(2) == 0 {
		sims = besideEachOther(c, sims, cache, cname, set)
	}
	c.Sample("%d lists sharing cache %s, %d steps", nl, cname, steps)
}

// besideEachOther has one client for each list, and some more that create
// lists at the same time. Every list has a single client, so what each client
// gets is still known exactly.
func besideEachOther(c *C, sims []*sim, cache rankdb.Cache, cname, set string) []*sim {
	r := c.Rng
	old := len(sims)
	bs, sp, mgr := sims[0].bs, sims[0].spy, sims[0].mgr
	for i := 3 + r.Intn(6); i > 0; i-- {
		s := newSim(c).on(bs, sp, rankdb.ListID(fmt.Sprintf("new-%d", i)), set)
		s.mgr = mgr
		s.cache, s.cname = cache, cname
		ss := pick(r, splitSizes[:5])
		s.merge, s.split = ss[0], ss[1]
		sims = append(sims, s)
	}
	var running, stop int64 = int64(len(sims)), 0
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i, s := range sims {
		s.r = rand.New(rand.NewSource(r.Int63()))
		s.g = newElemGen(s.r)
		s.g.idKind = 1
		fresh := i >= old
		n, steps := s.r.Intn(3)*s.r.Intn(20), 4+s.r.Intn(12)
		wg.Add(1)
		go func(s *sim) {
			defer wg.Done()
			defer atomic.AddInt64(&running, -1)
			defer func() {
				if v := recover(); v != nil {
					f, ok := v.(failure)
					if !ok {
						panic(v)
					}
					atomic.StoreInt64(&stop, 1)
					c.FailAsync("with all lists in use at once: list %q: %s", s.id, f.msg)
				}
			}()
			<-start
			if fresh {
				s.create(n)
			}
			for i := 0; i < steps && atomic.LoadInt64(&stop) == 0; i++ {
				if s.r.Intn(8) == 0 {
					s.must(mgr.DeleteList(s.ctx, s.id), "DeleteList")
					s.mod = newModel()
					s.create(s.r.Intn(40))
					c.Count("recreated_beside_others", 1)
				} else {
					c.Count("beside_others_"+s.stepNoReload(), 1)
				}
				s.checkRanking(i%4 == 0)
			}
		}(s)
	}
	// Others create lists all the time, which nobody changes after that.
	created := make([][]*rankdb.List, 8)
	if c.Idx%3 == 0 {
		for w := range created {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				<-start
				for i := 0; i < 30; i++ {
					l, err := rankdb.NewList(quiet(c.Ctx), rankdb.ListID(fmt.Sprintf("burst-%d-%d", w, i)), set, bs, rankdb.WithListOption.Cache(cache))
					if err != nil {
						c.FailAsync("creating a list while others are created: %v", err)
						return
					}
					created[w] = append(created[w], l)
				}
			}(w)
		}
	}
	close(start)
	for atomic.LoadInt64(&running) > 0 {
		sims[0].must(mgr.SaveLists(sims[0].ctx, false), "SaveLists")
		sims[0].must(mgr.Lists.Prune(sims[0].ctx), "Prune")
		c.Count("pruned_beside_others", 1)
		time.Sleep(time.Millisecond)
	}
	wg.Wait()
	c.CheckAsync()
	for _, s := range sims {
		s.checkRanking(true)
		s.checkStructure()
	}
	users := map[string]rankdb.ListID{}
	for _, ls := range created {
		for _, l := range ls {
			sc, ix := listRefs(l)
			for _, id := range []string{sc, ix} {
				if o, dup := users[id]; dup {
					c.Failf("lists %q and %q, created at the same time, are both stored as %s", o, l.ID, id)
				}
				users[id] = l.ID
			}
			sims[0].must(l.DeleteAll(sims[0].ctx, bs), "DeleteAll of %q", l.ID)
			c.Count("lists_created_at_once", 1)
		}
	}
	checkInventory(c, sp, "after all lists were used at once", sims...)
	c.Count("lists_used_at_once", int64(len(sims)))
	return sims
}

// --- C11 ---------------------------------------------------------------------

func init() {
	register(&Check{ID: "C11", Quick: 900, Thorough: 4000, Run: runC11,
		Rule:   "one case = a list in a generated state whose stored blobs are damaged (index missing, stale or corrupt; element blobs lost, corrupt, duplicated or misplaced; layout lost or corrupt); the expected content is computed from the damaged storage by an independent decoder and compared with the list after reindex or repair",
		Assume: []string{"reads of a list whose index is missing may fail until an operation that writes reindexed it", "the process repairing has not loaded the damaged blobs before"}})
}

// mpEncSegBlob encodes an element blob the way the code stores it.
func mpEncElems(version byte, es []Elem) []byte {
	b := mpEncUint(nil, uint64(version))
	if len(es) < 16 {
		b = append(b, 0x90|byte(len(es)))
	} else {
		b = append(b, 0xdc, byte(len(es)>>8), byte(len(es)))
	}
	for _, e := range es {
		b = append(b, 0x95)
		b = mpEncUint(b, e.Score)
		b = mpEncUint(b, uint64(e.ID))
		b = append(b, 0xc4, byte(len(e.Payload)))
		b = append(b, e.Payload...)
		b = mpEncUint(b, uint64(e.TieBreaker))
		b = mpEncUint(b, uint64(e.Updated))
	}
	return b
}

// bestCopies is the documented deduplication: most recently updated, then highest ranked.
func bestCopies(all []Elem) map[EID][]Elem {
	best := map[EID][]Elem{}
	for _, e := range all {
		cur := best[e.ID]
		if len(cur) == 0 || e.Updated > cur[0].Updated || (e.Updated == cur[0].Updated && e.Score > cur[0].Score) {
			best[e.ID] = []Elem{e}
		} else if e.Updated == cur[0].Updated && e.Score == cur[0].Score {
			best[e.ID] = append(cur, e) // either may be kept
		}
	}
	return best
}

func runC11(c *C) {
	r := c.Rng
	s := newSim(c)
	s.merge, s.split = splitSizes[r.Intn(6)][0], 0
	for _, ss := range splitSizes {
		if ss[0] == s.merge {
			s.split = ss[1]
		}
	}
	n := 0
	if r.Intn(8) > 0 {
		n = 1 + r.Intn(120)
	}
	s.create(n)
	for i := r.Intn(10); i > 0; i-- {
		s.stepNoReload()
	}
	s.must(s.l.ForceSplit(s.ctx, s.bs), "ForceSplit")
	// Another list that must stay as it is.
	other := newSim(c).on(s.bs, s.spy, "bystander", s.set)
	other.mgr = s.mgr
	other.create(1 + r.Intn(30))
	s.must(s.mgr.SaveLists(s.ctx, false), "SaveLists")
	if r.Intn(6) == 0 {
		healthyRepair(s, other)
		return
	}
	sc, ix := listRefs(s.l)
	scores, err := readSegs(s.spy, s.set, sc, true)
	s.must(err, "stored scores")
	index, err := readSegs(s.spy, s.set, ix, true)
	s.must(err, "stored index")
	version, _ := s.spy.raw(s.set, scores.Segs[0].Key)
	ver := version[0]

	kind := pick(r, []string{"index-layout-missing", "index-layout-corrupt", "index-elements-missing", "index-elements-corrupt", "index-stale", "index-wrong",
		"elements-lost", "elements-lost", "elements-corrupt", "duplicates", "duplicates", "misplaced", "counts", "layout-counts", "layout-bounds", "layout-lost", "layout-corrupt"})
	indexOnly := false
	layoutGone := false
	damage := func(what, key string, nb []byte) {
		c.Logf("damage %s: %s", what, key)
		if nb == nil {
			s.spy.drop(s.set, key)
		} else {
			s.spy.put(s.set, key, nb)
		}
	}
	garble := func(b []byte) []byte {
		switch r.Intn(4) {
		case 0:
			return b[:r.Intn(len(b))]
		case 1:
			return []byte{}
		case 2:
			nb := append([]byte{}, b...)
			nb[0] ^= 0x15 // version
			return nb
		default:
			return []byte{b[0], 0xc1, 0xc1}
		}
	}
	some := func(n int) []int {
		if n == 0 {
			return nil
		}
		k := 1 + r.Intn(n)
		if r.Intn(2) == 0 {
			k = 1
		}
		return r.Perm(n)[:k]
	}
	readable := map[int]bool{}
	for i := range scores.Segs {
		readable[i] = true
	}
	switch kind {
	case "index-layout-missing":
		indexOnly = true
		damage(kind, ix, nil)
	case "index-layout-corrupt":
		indexOnly = true
		b, _ := s.spy.raw(s.set, ix)
		damage(kind, ix, garble(b))
	case "index-elements-missing":
		indexOnly = true
		for _, i := range some(len(index.Segs)) {
			damage(kind, index.Segs[i].Key, nil)
		}
	case "index-elements-corrupt":
		indexOnly = true
		for _, i := range some(len(index.Segs)) {
			b, _ := s.spy.raw(s.set, index.Segs[i].Key)
			damage(kind, index.Segs[i].Key, garble(b))
		}
	case "index-wrong": // entries pointing to other segments, missing or invented
		indexOnly = true
		for _, i := range some(len(index.Segs)) {
			es := append([]Elem{}, index.Segs[i].Elems...)
			for j := range es {
				switch r.Intn(3) {
				case 0:
					es[j].TieBreaker = uint32(r.Intn(10))
				case 1:
					es[j].ID += EID(r.Intn(3))
				}
			}
			if len(es) > 0 && r.Intn(2) == 0 {
				es = es[:r.Intn(len(es))]
			}
			damage(kind, index.Segs[i].Key, mpEncElems(ver, es))
		}
	case "index-stale":
		indexOnly = true
		old := s.spy.snapshot()
		for i := 0; i < 5; i++ {
			s.update(s.batch(1+r.Intn(10)), 0, false)
			s.del(s.randIDs(3))
		}
		s.must(s.l.ForceSplit(s.ctx, s.bs), "ForceSplit")
		s.must(s.mgr.SaveLists(s.ctx, false), "SaveLists")
		for _, k := range append([]string{ix}, keysOf(index)...) {
			if b, ok := old[skey{s.set, k}]; ok {
				damage(kind, k, b)
			}
		}
		scores, err = readSegs(s.spy, s.set, sc, true)
		s.must(err, "stored scores")
		for i := range scores.Segs {
			readable[i] = true
		}
	case "elements-lost":
		for _, i := range some(len(scores.Segs)) {
			damage(kind, scores.Segs[i].Key, nil)
			readable[i] = false
		}
	case "elements-corrupt":
		for _, i := range some(len(scores.Segs)) {
			b, _ := s.spy.raw(s.set, scores.Segs[i].Key)
			damage(kind, scores.Segs[i].Key, garble(b))
			readable[i] = false
		}
	case "duplicates", "misplaced":
		all := s.mod.list()
		for _, i := range some(len(scores.Segs)) {
			es := append([]Elem{}, scores.Segs[i].Elems...)
			for k := 1 + r.Intn(5); k > 0 && len(all) > 0; k-- {
				e := cp(all[r.Intn(len(all))])
				if kind == "duplicates" {
					switch r.Intn(4) {
					case 0:
						e.Score += uint64(r.Intn(5))
					case 1:
						e.Updated += uint32(r.Intn(3))
						e.Payload = []byte("other")
					case 2:
						e.Updated--
						e.Score = s.g.score()
					}
				} else {
					e.ID = s.g.id()
				}
				es = append(es, e)
			}
			if r.Intn(3) == 0 {
				shuffle(r, es)
			} else {
				refSort(es)
			}
			scores.Segs[i].Elems = es
			damage(kind, scores.Segs[i].Key, mpEncElems(ver, es))
		}
	case "counts": // the segment blob holds fewer or more elements than the layout says
		for _, i := range some(len(scores.Segs)) {
			es := scores.Segs[i].Elems
			es = es[:r.Intn(len(es)+1)]
			scores.Segs[i].Elems = es
			damage(kind, scores.Segs[i].Key, mpEncElems(ver, es))
		}
	case "layout-counts", "layout-bounds": // the layout no longer matches its blobs
		key := sc
		if r.Intn(4) == 0 {
			key, indexOnly = ix, true
		}
		b, _ := s.spy.raw(s.set, key)
		var ss rankdb.Segments
		if _, err := ss.UnmarshalMsg(b[1:]); err != nil {
			panic(err)
		}
		for _, i := range some(len(ss.Segments)) {
			sg := &ss.Segments[i]
			if kind == "layout-counts" {
				sg.N = pick(r, []int{-1, 0, sg.N + 1, sg.N - 1, -sg.N, math.MinInt64, math.MaxInt64, 1 << 40, 1 << 31})
				continue
			}
			switch r.Intn(4) {
			case 0:
				sg.Min, sg.Max = sg.Max, sg.Min
			case 1:
				sg.Min += uint64(r.Intn(5))
			case 2:
				sg.Max = s.g.score()
			case 3:
				sg.MinTie, sg.MaxTie = uint32(r.Intn(5)), uint32(r.Intn(5))
			}
		}
		damage(kind, key, mpEncLayout(b[0], &ss))
	case "layout-lost":
		layoutGone = true
		damage(kind, sc, nil)
	case "layout-corrupt":
		layoutGone = true
		b, _ := s.spy.raw(s.set, sc)
		damage(kind, sc, garble(b))
	}
	// Further damage to the index never matters.
	if !indexOnly && r.Intn(3) == 0 {
		damage("index too", ix, nil)
	}
	var all []Elem
	for i, sg := range scores.Segs {
		if readable[i] && !layoutGone {
			all = append(all, sg.Elems...)
		}
	}
	best := bestCopies(all)

	// A new process.
	m, err := rankdb.NewManager(s.bs, "dir")
	s.must(err, "NewManager")
	s.must(m.LoadLists(s.ctx, newCache("arc", 64)), "LoadLists with damaged list")
	l, ok := m.Lists.ByID(s.id)
	if !ok {
		c.Failf("damaged list missing from directory")
	}
	s.l, s.mgr = l, m
	ol, _ := m.Lists.ByID("bystander")
	if ol == nil {
		c.Failf("other list missing after damage")
	}
	other.l, other.mgr = ol, m
	// Touch it first in some cases; nothing may crash or lock up.
	rough := r.Intn(5) == 0
	if rough || r.Intn(3) == 0 {
		touch(s)
	}
	if rough {
		roughWrites(s)
	}
	if !rough && indexOnly && r.Intn(2) == 0 {
		c.Logf("reindex")
		s.must(l.Reindex(s.ctx, s.bs), "Reindex of a list with damaged index (%s)", kind)
		c.Count("reindexed", 1)
	} else {
		clear := r.Intn(2) == 0
		c.Logf("repair clear=%v", clear)
		err := l.Repair(s.ctx, s.bs, clear)
		if err != nil {
			if !layoutGone || clear {
				c.Failf("Repair(clear=%v) after %s: %v", clear, kind, err)
			}
			checkUnlocked(c, s.ctx, l, "after failed repair")
			c.Count("repair_refused", 1)
			s.must(l.Repair(s.ctx, s.bs, true), "Repair with clear")
		}
		c.Count("repaired", 1)
	}
	checkUnlocked(c, s.ctx, l, "after repair")
	c.Count("damage_"+kind, 1)
	// Exactly the readable elements, each the best copy.
	got, err := l.GetRankTop(s.ctx, s.bs, 0, len(best)+1000)
	if len(best) > 0 && !rough {
		s.must(err, "GetRankTop after recovery")
	}
	if rough {
		// What the writes left is unknown: only a consistent list is required.
		s.mod.reset(got...)
		got = nil
	} else if len(got) != len(best) {
		c.Failf("after %s and recovery %d elements, want %d", kind, len(got), len(best))
	}
	if !rough {
		s.mod.reset()
	}
	for _, e := range got {
		okE := false
		for _, w := range best[e.ID] {
			if eq(w, e) {
				okE = true
			}
		}
		if !okE {
			c.Failf("after %s and recovery element %s, want one of %s", kind, es(e), ess(best[e.ID]))
		}
		s.mod.put(e)
	}
	s.checkRanking(true)
	s.checkStructure()
	other.checkRanking(true)
	other.checkStructure()
	for i := 0; i < 4; i++ {
		s.stepNoReload()
		s.checkRanking(true)
	}
	fl := s.freshView()
	s.must(fl.Verify(s.ctx, s.bs), "Verify in fresh process")
	s.must(fl.VerifyElements(s.ctx, s.bs), "VerifyElements in fresh process")
	if len(scores.Segs) > 1 {
		c.NonTrivial()
	}
	c.Sig(kind, len(scores.Segs), len(best))
	c.Sample("%s on %d segments, %d elements recovered", kind, len(scores.Segs), len(best))
}

func keysOf(ss *storedSegs) []string {
	var out []string
	for _, x := range ss.Segs {
		out = append(out, x.Key)
	}
	sort.Strings(out)
	return out
}

// touch runs reads on a damaged list; errors are fine, crashes are not.
// roughWrites writes to a damaged list. Anything may fail, nothing may crash,
// hang or leave the list locked.
func roughWrites(s *sim) {
	s.c.Logf("writes on the damaged list")
	for k := 1 + s.r.Intn(6); k > 0; k-- {
		op := s.r.Intn(9)
		var err error
		switch op {
		case 0, 1:
			_, err = s.l.UpdateElements(s.ctx, s.bs, s.batch(1+s.r.Intn(8)), s.r.Intn(3), s.r.Intn(2) == 0)
		case 2:
			err = s.l.DeleteElements(s.ctx, s.bs, s.randIDs(3))
		case 3, 4:
			err = s.l.ForceSplit(s.ctx, s.bs)
		case 5:
			err = s.l.Reindex(s.ctx, s.bs)
		case 6:
			err = s.l.Insert(s.ctx, s.bs, s.batch(1+s.r.Intn(8)))
		case 7:
			_, err = s.l.InsertNew(s.ctx, s.bs, s.batch(1+s.r.Intn(8)))
		case 8:
			s.l.ReleaseSegments(s.ctx)
		}
		s.c.Logf("op %d on the damaged list: %v", op, err)
		checkUnlocked(s.c, s.ctx, s.l, "after writes to the damaged list")
	}
	s.c.Count("written_damaged", 1)
}

func touch(s *sim) {
	s.c.Logf("reads on the damaged list")
	_, _ = s.l.Len(s.ctx, s.bs)
	_ = s.l.Verify(s.ctx, s.bs)
	_ = s.l.VerifyElements(s.ctx, s.bs)
	_, _ = s.l.GetElements(s.ctx, s.bs, s.randIDs(3), 1)
	_, _ = s.l.GetRankTop(s.ctx, s.bs, s.r.Intn(10), 5)
	_, _ = s.l.GetRankBottom(s.ctx, s.bs, s.r.Intn(10), 5)
	_, _ = s.l.GetRankScoreDesc(s.ctx, s.bs, s.g.score(), 5)
	_, _ = s.l.GetPercentile(s.ctx, s.bs, s.r.Float64(), 1)
	_, _ = s.l.Stats(s.ctx, s.bs, true)
	checkUnlocked(s.c, s.ctx, s.l, "after reads of the damaged list")
	s.c.Count("touched_damaged", 1)
}

func healthyRepair(s, other *sim) {
	c := s.c
	for i := 0; i < 3; i++ {
		s.must(s.l.Repair(s.ctx, s.bs, s.r.Intn(2) == 0), "Repair of healthy list")
		s.checkRanking(true)
		s.checkStructure()
		s.must(s.l.Reindex(s.ctx, s.bs), "Reindex of healthy list")
		s.checkRanking(true)
		s.checkStructure()
		other.checkRanking(true)
		s.reload()
		other.mgr = s.mgr
		other.l, _ = s.mgr.Lists.ByID(other.id)
		if other.l == nil {
			c.Failf("other list missing")
		}
		s.stepNoReload()
	}
	checkInventory(c, s.spy, "after repairs", s, other)
	c.Count("healthy_repairs", 3)
	c.NonTrivial()
	c.Sig("healthy", s.mod.len())
	c.Sample("repair and reindex of a healthy list of %d elements", s.mod.len())
	_ = math.MaxInt
	_ = rand.Int
}
