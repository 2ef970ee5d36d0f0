package main

import (
	"bytes"
	"context"
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"github.com/Vivino/rankdb"
)

func init() {
	register(&Check{ID: "C31", Race: true, Quick: 160, Thorough: 3000, Run: runC31, StallSecs: 60,
		Rule:   "one case = a list on a store that blocks and honours contexts; callers with live contexts read (and in half of the cases update) it while others run every kind of read with contexts cancelled or expiring at random points, with segments released in between; every live call must succeed with its exact result, cancelled calls must return an error or the exact result, contexts of completed calls are cancelled immediately",
		Assume: []string{"cancellation of writes and the state they leave behind is explored by C10"}})
}

// ctxStore is a store that takes some time for each call and gives up when the
// context of the call ends, as remote stores do.
type ctxStore struct {
	*spy
	max     time.Duration
	seed    uint64
	aborted int64
}

func (s *ctxStore) wait(ctx context.Context) error {
	x := atomic.AddUint64(&s.seed, 0x9E3779B97F4A7C15)
	x ^= x >> 31
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 29
	t := time.NewTimer(time.Duration(x % uint64(s.max)))
	defer t.Stop()
	select {
	case <-ctx.Done():
		atomic.AddInt64(&s.aborted, 1)
		return ctx.Err()
	case <-t.C:
		return nil
	}
}

func (s *ctxStore) Get(ctx context.Context, set, key string) ([]byte, error) {
	if err := s.wait(ctx); err != nil {
		return nil, err
	}
	return s.spy.Get(ctx, set, key)
}

func (s *ctxStore) Set(ctx context.Context, set, key string, b []byte) error {
	if err := s.wait(ctx); err != nil {
		return err
	}
	return s.spy.Set(ctx, set, key, b)
}

func (s *ctxStore) Delete(ctx context.Context, set, key string) error {
	if err := s.wait(ctx); err != nil {
		return err
	}
	return s.spy.Delete(ctx, set, key)
}

// guard turns failures of helpers used in other goroutines into async failures.
func (c *C) guard(fn func()) {
	defer func() {
		if r := recover(); r != nil {
			f, ok := r.(failure)
			if !ok {
				panic(r)
			}
			c.FailAsync("%s", f.msg)
		}
	}()
	fn()
}

// readOnce runs one random read with ctx. exact says whether the list is known
// to be as the model says. Errors are returned, wrong results fail the case.
func (s *sim) readOnce(ctx context.Context, exact bool) (string, error) {
	r, l := s.r, s.l
	all := s.mod.list()
	n := len(all)
	k := 1 + r.Intn(n+2)
	switch x := r.Intn(12); x {
	case 0, 1:
		off := r.Intn(n)
		got, err := l.GetRankTop(ctx, s.bs, off, k)
		if err == nil && exact {
			if d := sameElems(got, window(all, off, k)); d != "" {
				s.c.Failf("GetRankTop(%d,%d): %s", off, k, d)
			}
		}
		return "GetRankTop", err
	case 2:
		off := r.Intn(n)
		got, err := l.GetRankBottom(ctx, s.bs, off, k)
		if err == nil && exact {
			if d := sameElems(got, window(all, n-1-off, k)); d != "" {
				s.c.Failf("GetRankBottom(%d,%d): %s", off, k, d)
			}
		}
		return "GetRankBottom", err
	case 3, 4, 5:
		q := s.randIDs(1 + r.Intn(10))
		rad := r.Intn(4)
		got, err := l.GetElements(ctx, s.bs, append([]EID{}, q...), rad)
		if err == nil && exact {
			s.checkRanked("GetElements", got, q, rad)
		}
		return "GetElements", err
	case 6:
		p := r.Intn(n)
		got, err := l.GetRankScoreDesc(ctx, s.bs, all[p].Score, k)
		if err == nil && exact {
			first := p
			for first > 0 && all[first-1].Score == all[p].Score {
				first--
			}
			w := window(all, first, k)
			if len(got) != len(w) {
				s.c.Failf("GetRankScoreDesc(%d,%d): %d elements, want %d", all[p].Score, k, len(got), len(w))
			}
			for i := range w {
				if !eq(got[i].Element, w[i]) || got[i].FromTop != first+i {
					s.c.Failf("GetRankScoreDesc(%d,%d): element %d is %s rank %d, want %s rank %d", all[p].Score, k, i, es(got[i].Element), got[i].FromTop, es(w[i]), first+i)
				}
			}
		}
		return "GetRankScoreDesc", err
	case 7:
		got, err := l.GetPercentile(ctx, s.bs, r.Float64(), r.Intn(3))
		if err == nil && got == nil {
			s.c.Failf("GetPercentile of %d elements returned nothing", n)
		}
		return "GetPercentile", err
	case 8:
		got, err := l.Stats(ctx, s.bs, r.Intn(2) == 0)
		if err == nil && exact && got.Elements != n {
			s.c.Failf("Stats: %d elements, want %d", got.Elements, n)
		}
		return "Stats", err
	case 9:
		return "Verify", l.Verify(ctx, s.bs)
	case 10:
		return "VerifyElements", l.VerifyElements(ctx, s.bs)
	}
	var buf bytes.Buffer
	w := rankdb.NewWriterMsg()
	defer w.Close()
	w.ReplaceWriter(&buf)
	err := l.Backup(ctx, s.bs, w)
	w.Flush()
	if err == nil && exact {
		rl, err := rankdb.RestoreList(s.ctx, newSpy(), rankdb.NewReaderMsgp(buf.Bytes()), nil, nil)
		if err != nil {
			s.c.Failf("restoring a backup that succeeded: %v", err)
		}
		_ = rl
	}
	return "Backup", err
}

func runC31(c *C) {
	r := c.Rng
	s := newSim(c)
	sizes := pick(r, [][2]int{{2, 4}, {3, 8}, {4, 10}, {8, 24}, {20, 60}})
	s.merge, s.split = sizes[0], sizes[1]
	if r.Intn(2) == 0 {
		s.cache, s.cname = nil, "none"
	}
	s.create(5 + r.Intn(120))
	st := &ctxStore{spy: s.spy, seed: uint64(c.Seed), max: time.Duration(50+r.Intn(400)) * time.Microsecond}
	s.bs = st
	s.mod.list()
	writers := 0
	if r.Intn(2) == 0 {
		writers = 1 + r.Intn(3)
	}
	live, doomed := 2+r.Intn(4), 2+r.Intn(4)
	ops := 15 + r.Intn(25)
	c.Logf("%d live and %d doomed readers, %d writers, %d ops, store calls up to %v", live, doomed, writers, ops, st.max)
	var failedDoomed, okDoomed int64
	var stop int32
	var liveWG, bgWG sync.WaitGroup
	for i := 0; i < live; i++ {
		v := *s
		v.r, v.mod = rand.New(rand.NewSource(r.Int63())), s.mod.clone()
		v.g = newElemGen(v.r)
		v.mod.list()
		liveWG.Add(1)
		go c.guard(func() {
			defer liveWG.Done()
			for k := 0; k < ops && !c.Failed(); k++ {
				c.Tick()
				// The context ends as soon as the call has returned.
				ctx, cancel := context.WithCancel(s.ctx)
				if v.r.Intn(3) == 0 {
					cancel()
					ctx, cancel = context.WithTimeout(s.ctx, 5*time.Minute)
				}
				what, err := v.readOnce(ctx, writers == 0)
				cancel()
				if err != nil && !(writers > 0 && what != "GetElements" && what != "Stats" && what != "Verify" && what != "VerifyElements" && what != "Backup" && err == rankdb.ErrOffsetOutOfBounds) {
					c.FailAsync("%s with a live context failed while other callers were cancelled: %v", what, err)
					return
				}
				c.Count("live_reads", 1)
			}
		})
	}
	groups := make([]*model, writers)
	for w := 0; w < writers; w++ {
		w := w
		groups[w] = newModel()
		wr := rand.New(rand.NewSource(r.Int63()))
		liveWG.Add(1)
		go c.guard(func() {
			defer liveWG.Done()
			for k := 0; k < ops && !c.Failed(); k++ {
				c.Tick()
				ctx, cancel := context.WithCancel(s.ctx)
				var err error
				what := "UpdateElements"
				m := groups[w]
				if wr.Intn(4) > 0 || m.len() == 0 {
					var b []Elem
					seen := map[EID]bool{}
					for i := 1 + wr.Intn(6); i > 0; i-- {
						id := EID(1<<50 + uint64(w)<<40 + uint64(wr.Intn(40)))
						if !seen[id] {
							seen[id] = true
							b = append(b, Elem{ID: id, Score: uint64(wr.Intn(1000)) << uint(wr.Intn(40)), TieBreaker: wr.Uint32(), Updated: wr.Uint32(), Payload: []byte(fmt.Sprint(k))})
						}
					}
					res := wr.Intn(2) == 0
					got, e := s.l.UpdateElements(ctx, st, cps(b), wr.Intn(3), res)
					err = e
					if e == nil && res && len(got) != len(b) {
						c.FailAsync("update of %d elements returned %d results", len(b), len(got))
					}
					m.put(b...)
				} else {
					what = "DeleteElements"
					d := []EID{m.list()[wr.Intn(m.len())].ID}
					err = s.l.DeleteElements(ctx, st, append([]EID{}, d...))
					m.del(d...)
				}
				cancel()
				if err != nil {
					c.FailAsync("%s with a live context failed while other callers were cancelled: %v", what, err)
					return
				}
				c.Count("live_writes", 1)
			}
		})
	}
	for i := 0; i < doomed; i++ {
		v := *s
		v.r, v.mod = rand.New(rand.NewSource(r.Int63())), s.mod.clone()
		v.g = newElemGen(v.r)
		v.mod.list()
		bgWG.Add(1)
		go c.guard(func() {
			defer bgWG.Done()
			for atomic.LoadInt32(&stop) == 0 && !c.Failed() {
				d := time.Duration(v.r.Int63n(int64(4 * st.max)))
				ctx, cancel := context.WithTimeout(s.ctx, d)
				if v.r.Intn(3) > 0 {
					cancel()
					ctx, cancel = context.WithCancel(s.ctx)
					if d < st.max/8 {
						cancel()
					} else {
						time.AfterFunc(d, cancel)
					}
				}
				_, err := v.readOnce(ctx, writers == 0)
				cancel()
				if err != nil {
					atomic.AddInt64(&failedDoomed, 1)
				} else {
					atomic.AddInt64(&okDoomed, 1)
				}
			}
		})
	}
	bgWG.Add(1)
	rel := r.Intn(3)
	go c.guard(func() {
		defer bgWG.Done()
		for atomic.LoadInt32(&stop) == 0 && rel > 0 {
			time.Sleep(st.max * time.Duration(rel))
			s.l.ReleaseSegments(s.ctx)
			c.Count("releases", 1)
		}
	})
	liveWG.Wait()
	atomic.StoreInt32(&stop, 1)
	bgWG.Wait()
	c.CheckAsync()
	checkUnlocked(c, s.ctx, s.l, "after cancelled calls")
	for _, m := range groups {
		s.mod.put(m.list()...)
	}
	s.bs = s.spy
	s.checkRanking(false)
	s.checkStructure()
	c.Count("cancelled_reads_failed", failedDoomed)
	c.Count("cancelled_reads_completed", okDoomed)
	c.Count("store_calls_aborted", atomic.LoadInt64(&st.aborted))
	if failedDoomed > 0 {
		c.NonTrivial()
	}
	c.Sig(c.Idx, live, doomed, writers, s.mod.len(), failedDoomed)
	c.Sample("%d elements in segments of %d-%d, %d live and %d doomed readers, %d writers: %d cancelled calls failed, %d completed, %d store calls aborted", s.mod.len(), s.merge, s.split, live, doomed, writers, failedDoomed, okDoomed, st.aborted)
}
