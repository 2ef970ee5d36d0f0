package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/blobstore"
)

func init() {
	register(&Check{ID: "C37", Race: true, Quick: 900, Thorough: 12000, Setup: setupJWT, Run: runC37,
		Rule: "one case = a lazy saver used by concurrent clients on a counting store that delays and fails (most cases; queue held back, flowing, or shut down), its statistics compared with what clients and store counted; or a list read concurrently through a counting cache and storage; or a real server of which the health answer is compared with its configuration and its earlier answers while clients work"})
}

func runC37(c *C) {
	switch {
	case c.Idx%12 == 11:
		healthReports(c)
	case c.Idx%4 == 3:
		listReports(c)
	default:
		lazyReports(c)
	}
}

// ioCount counts operations and their bytes.
type ioCount struct {
	sets, setBytes, gets, getBytes, dels int64
}

func (n *ioCount) load() ioCount {
	return ioCount{atomic.LoadInt64(&n.sets), atomic.LoadInt64(&n.setBytes), atomic.LoadInt64(&n.gets), atomic.LoadInt64(&n.getBytes), atomic.LoadInt64(&n.dels)}
}

func (n ioCount) within(lo, hi ioCount) bool {
	in := func(v, a, b int64) bool { return a <= v && v <= b }
	return in(n.sets, lo.sets, hi.sets) && in(n.setBytes, lo.setBytes, hi.setBytes) && in(n.gets, lo.gets, hi.gets) && in(n.getBytes, lo.getBytes, hi.getBytes) && in(n.dels, lo.dels, hi.dels)
}

// countingStore counts what reaches a store.
type countingStore struct {
	blobstore.Store
	n ioCount
}

func (s *countingStore) Get(ctx context.Context, set, key string) ([]byte, error) {
	atomic.AddInt64(&s.n.gets, 1)
	b, err := s.Store.Get(ctx, set, key)
	atomic.AddInt64(&s.n.getBytes, int64(len(b)))
	return b, err
}

func (s *countingStore) Set(ctx context.Context, set, key string, b []byte) error {
	atomic.AddInt64(&s.n.sets, 1)
	atomic.AddInt64(&s.n.setBytes, int64(len(b)))
	return s.Store.Set(ctx, set, key, b)
}

func (s *countingStore) Delete(ctx context.Context, set, key string) error {
	atomic.AddInt64(&s.n.dels, 1)
	return s.Store.Delete(ctx, set, key)
}

func statsIn(st blobstore.LazyStats) ioCount {
	return ioCount{int64(st.Sets), st.SetBytes, int64(st.Gets), st.GetBytes, int64(st.Deletes)}
}

func statsOut(st blobstore.LazyStats) ioCount {
	return ioCount{int64(st.OutSets), st.OutSetBytes, int64(st.OutGets), st.OutGetBytes, int64(st.OutDeletes)}
}

// checkLazyStats checks what holds for every report. settled is set if nothing happens.
func checkLazyStats(st blobstore.LazyStats) error {
	if want := st.GetBytes - st.OutGetBytes + st.SetBytes - st.OutSetBytes - st.ItemBytes; st.SavedBytes != want {
		return fmt.Errorf("%d saved bytes, want %d", st.SavedBytes, want)
	}
	pct := func(name string, got float64, all, out int64) error {
		if math.IsNaN(got) || math.IsInf(got, 0) {
			return fmt.Errorf("%s is %v", name, got)
		}
		if all > 0 {
			if want := 100 * float64(all-out) / float64(all); math.Abs(got-want) > 1e-6*math.Max(1, math.Abs(want)) {
				return fmt.Errorf("%s is %v, want %v", name, got, want)
			}
		}
		return nil
	}
	if err := pct("part of read bytes saved", st.GetSavedBytesPct, st.GetBytes, st.OutGetBytes); err != nil {
		return err
	}
	if err := pct("part of written bytes saved", st.SetSavedBytesPct, st.SetBytes, st.OutSetBytes); err != nil {
		return err
	}
	b, err := json.Marshal(st)
	if err != nil {
		return fmt.Errorf("statistics cannot be reported: %v", err)
	}
	var back blobstore.LazyStats
	if err := json.Unmarshal(b, &back); err != nil {
		return fmt.Errorf("reported statistics cannot be read: %v", err)
	}
	if back != st {
		return fmt.Errorf("statistics are reported as %s, are %+v", b, st)
	}
	return nil
}

func lazyReports(c *C) {
	r := c.Rng
	ctx := quiet(c.Ctx)
	sp := newSpy()
	sp.delay = jitter(c.Seed, pick(r, []int{0, 20, 60}), time.Duration(1+r.Intn(1000))*time.Microsecond)
	failing := r.Intn(4) == 0
	if failing {
		sp.onCall = func(n int64, op, set, key string) faultMode {
			if n%5 == 2 {
				return pick(rand.New(rand.NewSource(n)), []faultMode{faultError, faultAfter})
			}
			return faultNone
		}
	}
	inner := &countingStore{Store: sp}
	parked := r.Intn(2) == 0 // nothing is saved before shutdown
	lim, fl, maxTime := 1+r.Intn(12), 1, time.Duration(1+r.Intn(3000))*time.Microsecond
	fl += r.Intn(lim)
	if parked {
		lim, fl, maxTime = 1000, 900+r.Intn(100), time.Hour
	}
	savers := 1 + r.Intn(6)
	timeout := time.Duration(30+r.Intn(30)) * time.Second
	o := blobstore.WithLazySaveOption
	l, err := blobstore.NewLazySaver(inner, o.Logger(nullLog{}), o.Items(lim, fl), o.MaxTime(maxTime), o.Savers(savers), o.SaveTimeout(timeout), o.Verbose(r.Intn(6) == 0))
	if err != nil {
		c.Failf("NewLazySaver: %v", err)
	}
	stopped := false
	c.Cleanup(func() {
		if !stopped {
			l.Shutdown()
		}
	})
	report := func(when string) blobstore.LazyStats {
		st := l.Stats()
		if err := checkLazyStats(st); err != nil {
			c.Failf("%s: %v; %+v", when, err, st)
		}
		if st.Options.MaxItems != lim || st.Options.FlushItems != fl || st.Options.MaxTime != maxTime || st.Options.Savers != savers || st.Options.SaveTimeout != timeout {
			c.Failf("%s: reported options %+v are not those given (%d %d %v %d %v)", when, st.Options, lim, fl, maxTime, savers, timeout)
		}
		c.Count("lazy_reports", 1)
		return st
	}
	if st := report("unused"); statsIn(st) != (ioCount{}) || statsOut(st) != (ioCount{}) || st.ItemQueue != 0 || st.ItemBytes != 0 {
		c.Failf("an unused lazy saver reports %+v", st)
	}
	var started, done ioCount
	clients := 1 + r.Intn(5)
	last := make([]map[skey]int, clients) // length of the newest value by key, deletions have none
	keys := 1 + r.Intn(8)
	ops := 10 + r.Intn(60)
	kinds := pick(r, []string{"all", "all", "sets", "gets", "deletes", "empty"})
	c.Logf("limit %d/%d maxtime %v savers %d clients %d ops %d kinds %s failing %v", lim, fl, maxTime, savers, clients, ops, kinds, failing)
	var wg sync.WaitGroup
	for cl := 0; cl < clients; cl++ {
		last[cl] = map[skey]int{}
		wg.Add(1)
		go func(cl int, r *rand.Rand) {
			defer wg.Done()
			for i := 0; i < ops && !c.Failed(); i++ {
				k := skey{fmt.Sprintf("s%d", cl), fmt.Sprintf("k%d", r.Intn(keys))}
				x := r.Intn(10)
				switch kinds {
				case "sets", "empty":
					x = 0
				case "deletes":
					x = 5
				case "gets":
					x = 9
				}
				switch {
				case x < 5:
					v := randBytes(r, pick(r, []int{0, 1, 30, 1024, 1025, 3000}))
					if kinds == "empty" {
						v = nil
					}
					atomic.AddInt64(&started.sets, 1)
					atomic.AddInt64(&started.setBytes, int64(len(v)))
					if err := l.Set(ctx, k.set, k.key, v); err != nil {
						c.FailAsync("lazy set: %v", err)
						return
					}
					atomic.AddInt64(&done.setBytes, int64(len(v)))
					atomic.AddInt64(&done.sets, 1)
					last[cl][k] = len(v)
				case x < 7:
					atomic.AddInt64(&started.dels, 1)
					if err := l.Delete(ctx, k.set, k.key); err != nil {
						c.FailAsync("lazy delete: %v", err)
						return
					}
					atomic.AddInt64(&done.dels, 1)
					last[cl][k] = 0
				default:
					atomic.AddInt64(&started.gets, 1)
					atomic.AddInt64(&started.getBytes, 3000)
					b, err := l.Get(ctx, k.set, k.key)
					if err != nil && err != blobstore.ErrBlobNotFound && !failing {
						c.FailAsync("lazy get: %v", err)
						return
					}
					atomic.AddInt64(&done.getBytes, int64(len(b)))
					atomic.AddInt64(&done.gets, 1)
				}
				c.Tick()
			}
		}(cl, rand.New(rand.NewSource(r.Int63())))
	}
	stop := make(chan struct{})
	var watch sync.WaitGroup
	watch.Add(1)
	go func() {
		defer watch.Done()
		c.guard(func() {
			for n := 0; ; n++ {
				select {
				case <-stop:
					return
				default:
				}
				lo := done.load()
				st := report("while used")
				if hi := started.load(); !statsIn(st).within(lo, hi) {
					c.Failf("while used: reported %+v, but %+v were done before and %+v begun after", st, lo, hi)
				}
				time.Sleep(time.Duration(100+n) * time.Microsecond)
			}
		})
	}()
	wg.Wait()
	close(stop)
	watch.Wait()
	c.CheckAsync()
	st := report("when clients are done")
	if in := statsIn(st); in != done {
		c.Failf("clients have done %+v, reported are %+v", done, in)
	}
	if parked {
		items, bytes := 0, int64(0)
		for cl := range last {
			for _, n := range last[cl] {
				items++
				bytes += int64(n)
			}
		}
		if st.ItemQueue != items || st.ItemBytes != bytes {
			c.Failf("%d items of %d bytes wait, reported are %d of %d bytes", items, bytes, st.ItemQueue, st.ItemBytes)
		}
		c.Count("queues_compared", 1)
	}
	l.Shutdown()
	stopped = true
	for i := r.Intn(3); i > 0; i-- {
		if l.Set(ctx, "s", "k", []byte{1}) == nil || l.Delete(ctx, "s", "k") == nil {
			c.Failf("writes are accepted after shutdown")
		}
	}
	st = report("after shutdown")
	if in := statsIn(st); in != done {
		c.Failf("after shutdown: clients have done %+v, reported are %+v", done, in)
	}
	if out, want := statsOut(st), inner.n.load(); out != want {
		c.Failf("after shutdown: the storage got %+v, reported are %+v", want, out)
	}
	if st.ItemQueue != 0 || st.ItemBytes != 0 {
		c.Failf("after shutdown %d items of %d bytes wait", st.ItemQueue, st.ItemBytes)
	}
	if inner.n.sets+inner.n.dels+inner.n.gets > 0 {
		c.NonTrivial()
	}
	c.Count("client_ops", done.sets+done.gets+done.dels)
	c.Sig(done, inner.n, lim, fl)
	c.Sample("clients did %+v, storage got %+v", done, inner.n)
}

// countingCache counts lookups of a cache.
type countingCache struct {
	rankdb.Cache
	hits, misses int64
}

func (k *countingCache) Get(key interface{}) (interface{}, bool) {
	v, ok := k.Cache.Get(key)
	if ok {
		atomic.AddInt64(&k.hits, 1)
	} else {
		atomic.AddInt64(&k.misses, 1)
	}
	return v, ok
}

// listReports compares the cache statistics of a list with what cache and storage saw.
func listReports(c *C) {
	r := c.Rng
	ctx := quiet(c.Ctx)
	bs := newSpy()
	bs.delay = jitter(c.Seed, pick(r, []int{0, 20}), time.Duration(1+r.Intn(300))*time.Microsecond)
	var cache *countingCache
	sz := pick(r, splitSizes[:6])
	n := r.Intn(200)
	elems := make([]rankdb.Element, 0, n)
	for i := 0; i < n; i++ {
		elems = append(elems, rankdb.Element{ID: rankdb.ElementID(i*7 + 1), Score: uint64(r.Intn(500)), TieBreaker: uint32(i), Updated: uint32(i)})
	}
	var l *rankdb.List
	var err error
	switch r.Intn(5) {
	case 0:
		l, err = rankdb.NewList(ctx, "list", "set", bs, rankdb.WithListOption.MergeSplitSize(sz[0], sz[1]), rankdb.WithListOption.Populate(elems))
	default:
		k, _ := randCache(r)
		for k == nil {
			k, _ = randCache(r)
		}
		cache = &countingCache{Cache: k}
		l, err = rankdb.NewList(ctx, "list", "set", bs, rankdb.WithListOption.MergeSplitSize(sz[0], sz[1]), rankdb.WithListOption.Populate(elems), rankdb.WithListOption.Cache(cache))
	}
	if err != nil {
		c.Failf("NewList: %v", err)
	}
	stats := func(when string) *rankdb.ListStats {
		st, err := l.Stats(ctx, bs, false)
		if err != nil {
			c.Failf("%s: Stats: %v", when, err)
		}
		want := 0.0
		if st.CacheHits+st.CacheMisses > 0 {
			want = 100 * float64(st.CacheHits) / float64(st.CacheHits+st.CacheMisses)
		}
		if !(math.Abs(st.CachePct-want) < 1e-6) {
			c.Failf("%s: %d hits and %d misses are reported as %v %%", when, st.CacheHits, st.CacheMisses, st.CachePct)
		}
		if st.Elements != n {
			c.Failf("%s: %d elements reported, want %d", when, st.Elements, n)
		}
		if cache == nil && st.CacheHits+st.CacheMisses > 0 {
			c.Failf("%s: %d hits and %d misses of no cache", when, st.CacheHits, st.CacheMisses)
		}
		c.Count("list_reports", 1)
		return st
	}
	for round := 0; round < 4; round++ {
		if r.Intn(3) == 0 {
			l.ReleaseSegments(ctx)
		}
		a := stats("before use")
		var h0, m0 int64
		if cache != nil {
			h0, m0 = cache.hits, cache.misses
		}
		var wg sync.WaitGroup
		for cl := 1 + r.Intn(4); cl > 0; cl-- {
			wg.Add(1)
			go func(r *rand.Rand) {
				defer wg.Done()
				for i := 0; i < 10 && !c.Failed(); i++ {
					var err error
					if r.Intn(4) == 0 && n > 0 {
						// Stays where it is.
						e := elems[r.Intn(n)]
						e.Payload = randBytes(r, 1+r.Intn(20))
						_, err = l.UpdateElements(ctx, bs, rankdb.Elements{e}, r.Intn(3), r.Intn(2) == 0)
					} else if r.Intn(2) == 0 {
						_, err = l.GetRankTop(ctx, bs, r.Intn(n+1), 1+r.Intn(10))
						if err == rankdb.ErrOffsetOutOfBounds {
							err = nil
						}
					} else {
						_, err = l.GetElements(ctx, bs, []rankdb.ElementID{rankdb.ElementID(r.Intn(200)*7 + 1)}, r.Intn(4))
					}
					if err != nil {
						c.FailAsync("reading: %v", err)
						return
					}
				}
			}(rand.New(rand.NewSource(r.Int63())))
		}
		wg.Wait()
		c.CheckAsync()
		b := stats("after use")
		if cache != nil {
			dh, dm := cache.hits-h0, cache.misses-m0
			if int64(b.CacheHits-a.CacheHits) != dh || int64(b.CacheMisses-a.CacheMisses) != dm {
				c.Failf("reads had %d hits and %d misses, reported are %d more and %d more", dh, dm, int64(b.CacheHits-a.CacheHits), int64(b.CacheMisses-a.CacheMisses))
			}
			c.Count("cache_lookups", dh+dm)
			if dh > 0 && dm > 0 {
				c.NonTrivial()
			}
		}
		if b.Segments != a.Segments {
			c.Failf("reading changed the number of segments from %d to %d", a.Segments, b.Segments)
		}
	}
	c.Sig("list", n, sz, cache != nil)
}

type healthReport struct {
	Cache map[string]interface{} `json:"element_cache"`
	Lazy  *blobstore.LazyStats   `json:"lazy_saver"`
}

func healthReports(c *C) {
	r := c.Rng
	cfg := randSrvCfg(r, c.TempDir())
	s := startSrv(c, cfg)
	c.Logf("%v", cfg)
	lazyTime := map[string]time.Duration{"20ms": 20 * time.Millisecond, "200ms": 200 * time.Millisecond, "10s": 10 * time.Second}[cfg.lazyTime]
	health := func(when string) healthReport {
		rs := s.try(c.Ctx, "GET", "/health", "", nil)
		s.answered("GET /health "+when, nil, rs)
		if rs.code != 200 {
			c.Failf("%s: health is answered with %s", when, rs)
		}
		var h healthReport
		rs.json(c, "health "+when, &h)
		if cfg.lazy != (h.Lazy != nil) {
			c.Failf("%s: lazy saver configured: %v, but the report is %s", when, cfg.lazy, rs)
		}
		if h.Lazy != nil {
			if err := checkLazyStats(*h.Lazy); err != nil {
				c.Failf("%s: %v: %s", when, err, rs)
			}
			o := h.Lazy.Options
			if o.MaxItems != cfg.lazyLimit || o.FlushItems != cfg.lazyFlush || o.Savers != cfg.lazySavers || o.MaxTime != lazyTime || o.SaveTimeout != time.Minute {
				c.Failf("%s: reported options %+v are not those of %v", when, o, cfg)
			}
		}
		if cfg.cacheEntries == 0 {
			if h.Cache["max_entries"] != nil || h.Cache["current_entries"] != nil {
				c.Failf("%s: a cache is reported, but none configured: %s", when, rs)
			}
		} else {
			most := cfg.cacheEntries
			if cfg.cacheType == "" || cfg.cacheType == "ARC" {
				// The ARC of the library keeps more at times, as its ghost lists steer it.
				most *= 2
			}
			cur, ok := h.Cache["current_entries"].(float64)
			if max, _ := h.Cache["max_entries"].(float64); int(max) != cfg.cacheEntries || !ok || cur < 0 || int(cur) > most {
				c.Failf("%s: %d cache entries are allowed, the report is %s", when, cfg.cacheEntries, rs)
			}
			c.Max("cache_entries", int64(cur))
		}
		c.Count("health_reports", 1)
		return h
	}
	later := func(when string, a, b healthReport) {
		if a.Lazy == nil {
			return
		}
		hi := ioCount{math.MaxInt64, math.MaxInt64, math.MaxInt64, math.MaxInt64, math.MaxInt64}
		if !statsIn(*b.Lazy).within(statsIn(*a.Lazy), hi) || !statsOut(*b.Lazy).within(statsOut(*a.Lazy), hi) {
			c.Failf("%s: counters went back from %+v to %+v", when, *a.Lazy, *b.Lazy)
		}
	}
	h0 := health("after start")
	if rs := s.try(c.Ctx, "GET", "/", "", nil); rs.code != 200 || rs.err != nil {
		c.Failf("the server does not say that it runs: %s", rs)
	}
	var wg sync.WaitGroup
	clients := 1 + r.Intn(4)
	for cl := 0; cl < clients; cl++ {
		wg.Add(1)
		go func(cl int, r *rand.Rand) {
			defer wg.Done()
			for i := 0; i < 6 && !c.Failed(); i++ {
				id := fmt.Sprintf("l-%d-%d", cl, i)
				var pop []map[string]interface{}
				for e := r.Intn(60); e >= 0; e-- {
					pop = append(pop, map[string]interface{}{"id": e + 1, "score": r.Intn(1000), "payload": map[string]int{"v": e}})
				}
				rs := s.try(c.Ctx, "POST", "/lists", "", map[string]interface{}{"id": id, "set": "data", "merge_size": 10, "split_size": 24, "populate": pop})
				if rs.err == nil && rs.code == 200 {
					rs = s.try(c.Ctx, "GET", "/lists/"+id+"/range?from_top=0&limit=20", "", nil)
				}
				if rs.err != nil || rs.code != 200 {
					c.FailAsync("using list %s: %s", id, rs)
					return
				}
			}
		}(cl, rand.New(rand.NewSource(r.Int63())))
	}
	stop := make(chan struct{})
	var watch sync.WaitGroup
	for i := 0; i < 2; i++ {
		watch.Add(1)
		go func() {
			defer watch.Done()
			c.guard(func() {
				for h := h0; ; {
					select {
					case <-stop:
						return
					default:
					}
					n := health("while used")
					later("while used", h, n)
					h = n
				}
			})
		}()
	}
	wg.Wait()
	close(stop)
	watch.Wait()
	c.CheckAsync()
	h1 := health("when clients are done")
	later("when clients are done", h0, h1)
	if h1.Lazy != nil {
		if h1.Lazy.Sets-h0.Lazy.Sets < clients*6 {
			c.Failf("%d lists with elements were created, but only %d values set", clients*6, h1.Lazy.Sets-h0.Lazy.Sets)
		}
		if cfg.lazyTime != "10s" {
			// All is written when its time has come.
			for end := time.Now().Add(60 * time.Second); ; {
				h := health("when all is written")
				later("when all is written", h1, h)
				if h.Lazy.ItemQueue == 0 || cfg.saveEvery != "1h" {
					break
				}
				if time.Now().After(end) {
					c.Failf("%d items wait 60 s after the last write: %+v", h.Lazy.ItemQueue, *h.Lazy)
				}
				time.Sleep(10 * time.Millisecond)
			}
		}
		c.Count("lazy_servers", 1)
	}
	s.finish()
	c.NonTrivial()
	c.Sig("health", cfg.String(), clients)
}
