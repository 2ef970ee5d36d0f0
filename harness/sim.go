package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"time"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/blobstore"
	lru "github.com/hashicorp/golang-lru"
)

type lruWrap struct{ *lru.Cache }

func (l lruWrap) Add(k, v interface{}) { l.Cache.Add(k, v) }

// newCache returns a segment cache of the given kind; "none" gives nil.
func newCache(kind string, size int) rankdb.Cache {
	switch kind {
	case "arc":
		c, err := lru.NewARC(size)
		if err != nil {
			panic(err)
		}
		return c
	case "2q":
		c, err := lru.New2Q(size)
		if err != nil {
			panic(err)
		}
		return c
	case "lru":
		c, err := lru.New(size)
		if err != nil {
			panic(err)
		}
		return lruWrap{c}
	}
	return nil
}

var cacheKinds = []string{"none", "arc", "2q", "lru"}

func randCache(r *rand.Rand) (rankdb.Cache, string) {
	k := pick(r, cacheKinds)
	n := pick(r, []int{2, 4, 16, 1000})
	return newCache(k, n), fmt.Sprintf("%s/%d", k, n)
}

var splitSizes = [][2]int{{2, 4}, {1, 5}, {3, 8}, {4, 10}, {8, 24}, {20, 60}, {100, 400}, {500, 2000}}

// sim drives one list and its model through the same operations.
type sim struct {
	c     *C
	ctx   context.Context
	r     *rand.Rand
	bs    blobstore.Store
	spy   *spy // the bottom store, when it is a spy
	set   string
	id    rankdb.ListID
	l     *rankdb.List
	mgr   *rankdb.Manager
	mod   *model
	g     *elemGen
	cache rankdb.Cache
	cname string
	merge int
	split int
	meta  map[string]string
	load  bool
	ops   map[string]int
}

func newSim(c *C) *sim {
	s := &sim{c: c, ctx: quiet(c.Ctx), r: c.Rng, mod: newModel(), ops: map[string]int{}}
	s.spy = newSpy()
	s.bs = s.spy
	s.set = pick(s.r, []string{"set", "s", "a-b_c"})
	s.id = rankdb.ListID(pick(s.r, []string{"list", "l1", "some/list id", "ünïcode"}))
	s.g = newElemGen(s.r)
	ss := pick(s.r, splitSizes)
	s.merge, s.split = ss[0], ss[1]
	s.cache, s.cname = randCache(s.r)
	s.load = s.r.Intn(2) == 0
	if s.r.Intn(2) == 0 {
		s.meta = map[string]string{"k": "v", "": "empty", "n": fmt.Sprint(s.r.Intn(100))}
	}
	return s
}

// create makes the list and its manager, populated with n elements.
func (s *sim) create(n int) {
	opt := rankdb.WithListOption
	opts := []rankdb.ListOption{opt.MergeSplitSize(s.merge, s.split), opt.LoadIndex(s.load), opt.Cache(s.cache), opt.Metadata(s.meta)}
	var init []Elem
	if n > 0 {
		init = s.g.fresh(s.mod, n)
		shuffle(s.r, init)
		opts = append(opts, opt.Populate(cps(init)))
	}
	t0 := uint32(time.Now().Unix())
	l, err := rankdb.NewList(s.ctx, s.id, s.set, s.bs, opts...)
	if err != nil {
		s.c.Failf("NewList(%d elements, sizes %d/%d): %v", n, s.merge, s.split, err)
	}
	s.l = l
	s.c.Logf("create %q set %q sizes %d/%d cache %s loadindex %v with %d elements", s.id, s.set, s.merge, s.split, s.cname, s.load, n)
	if n > 0 {
		got, err := l.GetRankTop(s.ctx, s.bs, 0, n+10)
		if err != nil {
			s.c.Failf("GetRankTop after create: %v", err)
		}
		t1 := uint32(time.Now().Unix())
		byID := map[EID]Elem{}
		for _, e := range init {
			byID[e.ID] = e
		}
		for _, e := range got {
			w, ok := byID[e.ID]
			if !ok {
				s.c.Failf("created list holds unknown or repeated element %s", es(e))
			}
			if e.Updated < t0 || e.Updated > t1 {
				s.c.Failf("created element %s has update time outside [%d,%d]", es(e), t0, t1)
			}
			w.Updated = e.Updated
			if !eq(w, e) {
				s.c.Failf("created element is %s, want %s", es(e), es(w))
			}
			delete(byID, e.ID)
			s.mod.put(e)
		}
		if len(byID) != 0 {
			s.c.Failf("%d of %d elements missing after create", len(byID), n)
		}
	}
	if s.mgr == nil {
		s.mgr = newMgr(s.c, s.bs, s.cache)
	}
	s.mgr.Lists.Add(l)
}

func newMgr(c *C, bs blobstore.Store, cache rankdb.Cache) *rankdb.Manager {
	m, err := rankdb.NewManager(bs, "dir")
	if err != nil {
		c.Failf("NewManager: %v", err)
	}
	if err := m.NewLists(cache); err != nil {
		c.Failf("NewLists: %v", err)
	}
	return m
}

// with redirects the sim to another store, keeping everything else.
func (s *sim) on(bs blobstore.Store, spy *spy, id rankdb.ListID, set string) *sim {
	s.bs, s.spy, s.id, s.set = bs, spy, id, set
	return s
}

// stored returns the keys of all blobs the list owns in storage.
func (s *sim) stored() []string {
	sc, ix := listRefs(s.l)
	_, keys, err := readStored(s.spy, s.set, sc, ix)
	s.must(err, "stored state of %q", s.id)
	return keys
}

// checkInventory verifies that the blobs in storage are exactly those owned by
// the given lists (plus the directory).
func checkInventory(c *C, sp *spy, when string, sims ...*sim) {
	own := map[skey]rankdb.ListID{}
	for _, s := range sims {
		for _, k := range s.stored() {
			kk := skey{s.set, k}
			if o, dup := own[kk]; dup {
				c.Failf("%s: blob %s/%s is used by lists %q and %q", when, s.set, k, o, s.id)
			}
			own[kk] = s.id
		}
	}
	for k := range sp.snapshot() {
		if k.set == "dir" {
			continue
		}
		if _, ok := own[k]; !ok {
			c.Failf("%s: blob %s/%s is not part of any list", when, k.set, k.key)
		}
	}
	c.Count("inventories", 1)
	c.Max("blobs", int64(len(own)))
}

func (s *sim) must(err error, what string, a ...interface{}) {
	if err != nil {
		s.c.Failf("%s: %v", fmt.Sprintf(what, a...), err)
	}
}

// reload saves the directory and continues with a fresh process view of it.
func (s *sim) reload() {
	s.must(s.mgr.SaveLists(s.ctx, false), "SaveLists")
	s.reopen()
}

func (s *sim) reopen() {
	m, err := rankdb.NewManager(s.bs, "dir")
	s.must(err, "NewManager")
	if s.cache != nil {
		s.cache, s.cname = randCache(s.r)
		if s.cache == nil {
			s.cache = newCache("arc", 8)
		}
	}
	s.must(m.LoadLists(s.ctx, s.cache), "LoadLists")
	l, ok := m.Lists.ByID(s.id)
	if !ok {
		s.c.Failf("list %q missing after reload", s.id)
	}
	s.checkMeta(l)
	s.mgr, s.l = m, l
}

func (s *sim) checkMeta(l *rankdb.List) {
	l.RLock()
	defer l.RUnlock()
	if l.ID != s.id || l.Set != s.set || l.MergeSize != s.merge || l.SplitSize != s.split || l.LoadIndex != s.load {
		s.c.Failf("list settings changed: id %q set %q merge %d split %d load %v; want %q %q %d %d %v", l.ID, l.Set, l.MergeSize, l.SplitSize, l.LoadIndex, s.id, s.set, s.merge, s.split, s.load)
	}
	if len(l.Metadata) != len(s.meta) || (len(s.meta) > 0 && !reflect.DeepEqual(l.Metadata, s.meta)) {
		s.c.Failf("list metadata is %v, want %v", l.Metadata, s.meta)
	}
}

// batch builds an update batch of distinct IDs mixing new and existing ones.
func (s *sim) batch(n int) []Elem {
	var b []Elem
	nex := 0
	if s.mod.len() > 0 {
		nex = s.r.Intn(n + 1)
	}
	for _, id := range s.g.existing(s.mod, nex) {
		b = append(b, s.g.mutate(s.mod, id))
	}
	seen := map[EID]bool{}
	for _, e := range b {
		seen[e.ID] = true
	}
	for _, e := range s.g.fresh(s.mod, n-len(b)) {
		if !seen[e.ID] {
			b = append(b, e)
		}
	}
	shuffle(s.r, b)
	return b
}

func ids(e []Elem) []EID {
	out := make([]EID, len(e))
	for i := range e {
		out[i] = e[i].ID
	}
	return out
}

func (s *sim) update(b []Elem, radius int, results bool) {
	before := s.mod.clone()
	s.c.Logf("update %s results %v radius %d", ess(b), results, radius)
	res, err := s.l.UpdateElements(s.ctx, s.bs, cps(b), radius, results)
	s.must(err, "UpdateElements(%d)", len(b))
	s.mod.put(b...)
	if !results {
		if len(res) != 0 {
			s.c.Failf("UpdateElements without results returned %d", len(res))
		}
		return
	}
	s.checkRanked("UpdateElements", res, ids(b), radius)
	for _, re := range res {
		p, ok := before.rank(re.ID)
		if !ok {
			if re.Before != nil {
				s.c.Failf("update of new element %d reports a previous rank %+v", re.ID, *re.Before)
			}
			continue
		}
		if re.Before == nil {
			s.c.Failf("update of existing element %d reports no previous rank", re.ID)
		}
		old := before.list()[p]
		if !eq(re.Before.Element, old) {
			s.c.Failf("previous element of %d is %s, want %s", re.ID, es(re.Before.Element), es(old))
		}
		if re.Before.FromTop != p || re.Before.FromBottom != before.len()-1-p {
			s.c.Failf("previous rank of %d is top %d bottom %d, want %d %d", re.ID, re.Before.FromTop, re.Before.FromBottom, p, before.len()-1-p)
		}
	}
	s.c.Count("update_results_checked", int64(len(res)))
}

// checkRanked compares ranked results for the requested IDs with the model.
func (s *sim) checkRanked(what string, res rankdb.RankedElements, want []EID, radius int) {
	wantSet := map[EID]bool{}
	for _, id := range want {
		if _, ok := s.mod.m[id]; ok {
			wantSet[id] = true
		}
	}
	last := -1
	for _, re := range res {
		if !wantSet[re.ID] {
			s.c.Failf("%s: unexpected or repeated element %s (asked for %v)", what, es(re.Element), want)
		}
		delete(wantSet, re.ID)
		s.checkOne(what, re, radius)
		if p, _ := s.mod.rank(re.ID); p < last {
			s.c.Failf("%s: results not in rank order (position %d after %d)", what, p, last)
		} else {
			last = p
		}
	}
	if len(wantSet) != 0 {
		s.c.Failf("%s: elements missing from result: %v", what, wantSet)
	}
}

func (s *sim) checkOne(what string, re rankdb.RankedElement, radius int) {
	p, ok := s.mod.rank(re.ID)
	if !ok {
		s.c.Failf("%s: element %s is not in the list", what, es(re.Element))
	}
	if w := s.mod.list()[p]; !eq(w, re.Element) {
		s.c.Failf("%s: element is %s, want %s", what, es(re.Element), es(w))
	}
	if re.FromTop != p || re.FromBottom != s.mod.len()-1-p {
		s.c.Failf("%s: element %d has rank top %d bottom %d, want %d %d", what, re.ID, re.FromTop, re.FromBottom, p, s.mod.len()-1-p)
	}
	if d := sameElems(re.Above, s.mod.above(p, radius)); d != "" {
		s.c.Failf("%s: above element %d (rank %d radius %d): %s", what, re.ID, p, radius, d)
	}
	if d := sameElems(re.Below, s.mod.below(p, radius)); d != "" {
		s.c.Failf("%s: below element %d (rank %d radius %d): %s", what, re.ID, p, radius, d)
	}
}

func (s *sim) insert(b []Elem) {
	s.c.Logf("insert %s", ess(b))
	s.must(s.l.Insert(s.ctx, s.bs, cps(b)), "Insert(%d)", len(b))
	s.mod.put(b...)
}

func (s *sim) del(d []EID) {
	s.c.Logf("delete %v", d)
	s.must(s.l.DeleteElements(s.ctx, s.bs, append([]EID{}, d...)), "DeleteElements(%v)", d)
	s.mod.del(d...)
}

func (s *sim) populate(b []Elem) {
	s.c.Logf("populate %s", ess(b))
	s.must(s.l.Populate(s.ctx, s.bs, cps(b)), "Populate(%d)", len(b))
	s.mod.reset(b...)
}

// randIDs returns a mix of existing, missing and repeated IDs.
func (s *sim) randIDs(n int) []EID {
	d := s.g.existing(s.mod, n)
	for i := s.r.Intn(3); i > 0; i-- {
		d = append(d, s.g.id())
	}
	if len(d) > 0 && s.r.Intn(3) == 0 {
		d = append(d, d[s.r.Intn(len(d))])
	}
	s.r.Shuffle(len(d), func(i, j int) { d[i], d[j] = d[j], d[i] })
	return d
}

// step performs one random operation and returns its name.
func (s *sim) step() string {
	big := 1 + s.r.Intn(12)
	if s.r.Intn(6) == 0 {
		big = 10 + s.r.Intn(40)
	}
	op := ""
	switch x := s.r.Intn(100); {
	case x < 36:
		op = "update"
		s.update(s.batch(big), s.r.Intn(5), s.r.Intn(2) == 0)
	case x < 44:
		op = "insert"
		s.insert(s.g.fresh(s.mod, big))
	case x < 60:
		op = "delete"
		s.del(s.randIDs(big))
	case x < 72:
		op = "split"
		s.c.Logf("force split")
		s.must(s.l.ForceSplit(s.ctx, s.bs), "ForceSplit")
	case x < 77:
		op = "reindex"
		s.c.Logf("reindex")
		s.must(s.l.Reindex(s.ctx, s.bs), "Reindex")
	case x < 81:
		op = "repair"
		s.c.Logf("repair")
		s.must(s.l.Repair(s.ctx, s.bs, s.r.Intn(2) == 0), "Repair")
	case x < 88:
		op = "release"
		s.c.Logf("release")
		s.l.ReleaseSegments(s.ctx)
	case x < 91:
		op = "prune"
		s.c.Logf("prune")
		s.must(s.mgr.Lists.Prune(s.ctx), "Prune")
	case x < 95:
		op = "reload"
		s.c.Logf("reload")
		s.reload()
	case x < 97:
		op = "populate"
		n := 0
		if s.r.Intn(4) > 0 {
			n = s.r.Intn(60)
		}
		s.populate(s.g.fresh(newModel(), n))
	default:
		op = "deleterange"
		l := s.mod.list()
		if len(l) > 0 {
			a := s.r.Intn(len(l))
			b := a + s.r.Intn(len(l)-a) + 1
			s.del(ids(l[a:b]))
		}
	}
	s.ops[op]++
	s.c.Count("op_"+op, 1)
	s.c.Sig(op, s.mod.len())
	return op
}

// segCounts returns the number of score segments.
func (s *sim) segments() int {
	st, err := s.l.Stats(s.ctx, s.bs, false)
	s.must(err, "Stats")
	s.c.Max("segments", int64(st.Segments))
	return st.Segments
}

// checkRanking compares length, full content and offsets with the model.
func (s *sim) checkRanking(full bool) {
	want := s.mod.list()
	n, err := s.l.Len(s.ctx, s.bs)
	s.must(err, "Len")
	if n != len(want) {
		s.c.Failf("Len is %d, want %d", n, len(want))
	}
	s.checkTop(0, n+3)
	cnt := 4
	if full && n < 80 {
		cnt = n + 1
	}
	for i := 0; i < cnt; i++ {
		off := i
		if cnt != n+1 {
			off = s.r.Intn(n + 2)
		}
		k := 1 + s.r.Intn(6)
		if s.r.Intn(5) == 0 {
			k = s.r.Intn(n + 4)
		}
		s.checkTop(off, k)
		s.checkBottom(off, k)
	}
	q := s.randIDs(8)
	if full {
		q = append(ids(want), q...)
		s.r.Shuffle(len(q), func(i, j int) { q[i], q[j] = q[j], q[i] })
	}
	res, err := s.l.GetElements(s.ctx, s.bs, append([]EID{}, q...), 0)
	s.must(err, "GetElements")
	s.checkRanked("GetElements", res, q, 0)
	s.c.Count("lookups_checked", int64(len(q)))
	st, err := s.l.Stats(s.ctx, s.bs, true)
	s.must(err, "Stats")
	if st.Elements != n {
		s.c.Failf("Stats.Elements is %d, want %d", st.Elements, n)
	}
	if n == 0 {
		if st.Top != nil || st.Bottom != nil {
			s.c.Failf("Stats of empty list has top/bottom")
		}
	} else {
		if st.Top == nil || st.Bottom == nil {
			s.c.Failf("Stats of list with %d elements has no top/bottom", n)
		}
		if !eq(st.Top.Element, want[0]) || st.Top.FromTop != 0 || st.Top.FromBottom != n-1 {
			s.c.Failf("Stats.Top is %s top %d bottom %d, want %s", es(st.Top.Element), st.Top.FromTop, st.Top.FromBottom, es(want[0]))
		}
		if !eq(st.Bottom.Element, want[n-1]) || st.Bottom.FromTop != n-1 || st.Bottom.FromBottom != 0 {
			s.c.Failf("Stats.Bottom is %s top %d bottom %d, want %s", es(st.Bottom.Element), st.Bottom.FromTop, st.Bottom.FromBottom, es(want[n-1]))
		}
	}
	s.c.Max("elements", int64(n))
}

func window(l []Elem, off, k int) []Elem {
	if off >= len(l) {
		return nil
	}
	if off+k > len(l) {
		k = len(l) - off
	}
	return l[off : off+k]
}

func (s *sim) checkTop(off, k int) {
	want := s.mod.list()
	got, err := s.l.GetRankTop(s.ctx, s.bs, off, k)
	s.c.Count("range_reads_checked", 1)
	if off >= len(want) {
		if !errors.Is(err, rankdb.ErrOffsetOutOfBounds) {
			s.c.Failf("GetRankTop(%d,%d) of %d elements: %d elements, err %v; want out of bounds", off, k, len(want), len(got), err)
		}
		return
	}
	s.must(err, "GetRankTop(%d,%d)", off, k)
	if d := sameElems(got, window(want, off, k)); d != "" {
		s.c.Failf("GetRankTop(%d,%d): %s", off, k, d)
	}
}

func (s *sim) checkBottom(off, k int) {
	want := s.mod.list()
	got, err := s.l.GetRankBottom(s.ctx, s.bs, off, k)
	s.c.Count("range_reads_checked", 1)
	if off >= len(want) {
		if !errors.Is(err, rankdb.ErrOffsetOutOfBounds) {
			s.c.Failf("GetRankBottom(%d,%d) of %d elements: %d elements, err %v; want out of bounds", off, k, len(want), len(got), err)
		}
		return
	}
	s.must(err, "GetRankBottom(%d,%d)", off, k)
	if d := sameElems(got, window(want, len(want)-1-off, k)); d != "" {
		s.c.Failf("GetRankBottom(%d,%d): %s", off, k, d)
	}
}

// checkStructure runs the code's own verification and the independent decoder.
func (s *sim) checkStructure() {
	s.must(s.l.Verify(s.ctx, s.bs), "Verify")
	s.must(s.l.VerifyElements(s.ctx, s.bs), "VerifyElements")
	if s.spy == nil {
		return
	}
	sc, ix := listRefs(s.l)
	got, _, err := readStored(s.spy, s.set, sc, ix)
	s.must(err, "stored state")
	if d := sameElems(got, s.mod.list()); d != "" {
		s.c.Failf("stored elements: %s", d)
	}
	s.c.Count("structure_checks", 1)
}

// fresh loads the list in a new manager without touching this one.
func (s *sim) freshView() *rankdb.List {
	var buf bytes.Buffer
	s.must(s.mgr.Lists.Save(s.ctx, &buf), "Lists.Save")
	m, err := rankdb.NewManager(s.bs, "dir")
	s.must(err, "NewManager")
	s.must(m.NewLists(nil), "NewLists")
	s.must(m.Lists.Load(s.ctx, s.bs, buf.Bytes()), "Lists.Load")
	l, ok := m.Lists.ByID(s.id)
	if !ok {
		s.c.Failf("list missing from saved directory")
	}
	return l
}

// checkUnlocked verifies that no lock is left held on the list.
func checkUnlocked(c *C, ctx context.Context, l *rankdb.List, what string) {
	if err := l.VerifyUnlocked(ctx, 20*time.Second); err != nil {
		c.Failf("%s: locks still held: %v", what, err)
	}
}
