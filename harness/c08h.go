package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"github.com/Vivino/rankdb"
)

// hop is an operation of a held case. Operations of one case write disjoint elements.
type hop struct {
	name string
	put  []Elem
	del  []EID
	run  func(ctx context.Context) error
}

// heldGen makes operations for a held case.
type heldGen struct {
	s      *sim
	pool   []EID // elements nobody writes yet
	next   EID
	stable map[EID]Elem // filled in when all operations are known
	reset  bool         // one operation replaces the content
}

func (h *heldGen) take(n int) []EID {
	if n > len(h.pool) {
		n = len(h.pool)
	}
	d := h.pool[:n]
	h.pool = h.pool[n:]
	return append([]EID{}, d...)
}

func (h *heldGen) elems(ids []EID, fresh int) []Elem {
	r := h.s.r
	for ; fresh > 0; fresh-- {
		h.next++
		ids = append(ids, h.next)
	}
	var out []Elem
	for _, id := range ids {
		e := h.s.g.elem(id)
		if e.Updated == 0 {
			e.Updated = 1
		}
		e.Payload = []byte(fmt.Sprintf("w%d", r.Intn(1000)))
		out = append(out, e)
	}
	return out
}

// scan checks what a read of the whole list returned while others were writing.
func (h *heldGen) scan(what string, got []Elem, err error) error {
	if errors.Is(err, rankdb.ErrOffsetOutOfBounds) && (h.reset || len(h.stable) == 0) {
		return nil
	}
	if err != nil || h.reset {
		return err
	}
	seen := map[EID]int{}
	for _, e := range got {
		if w, ok := h.stable[e.ID]; ok {
			if !eq(w, e) {
				h.s.c.FailAsync("%s: element %s is %s although nobody changes it", what, es(w), es(e))
			}
			seen[e.ID]++
		}
	}
	for id, e := range h.stable {
		if seen[id] != 1 {
			h.s.c.FailAsync("%s found element %s, which nobody changes, %d times", what, es(e), seen[id])
			return nil
		}
	}
	return nil
}

func (h *heldGen) write(kind string) *hop {
	s, r := h.s, h.s.r
	o := &hop{name: kind}
	switch kind {
	case "update":
		o.put = h.elems(h.take(1+r.Intn(5)), r.Intn(4))
		res := r.Intn(2) == 0
		o.run = func(ctx context.Context) error {
			got, err := s.l.UpdateElements(ctx, s.bs, cps(o.put), 1, res)
			if err == nil && res && !h.reset && len(got) != len(o.put) {
				s.c.FailAsync("update of %d elements returned %d", len(o.put), len(got))
			}
			return err
		}
	case "insert":
		o.put = h.elems(nil, 1+r.Intn(5))
		o.run = func(ctx context.Context) error { return s.l.Insert(ctx, s.bs, cps(o.put)) }
	case "delete":
		o.del = h.take(1 + r.Intn(5))
		o.run = func(ctx context.Context) error {
			return s.l.DeleteElements(ctx, s.bs, append([]EID{}, o.del...))
		}
	}
	return o
}

func (h *heldGen) other(kind string) *hop {
	s, r := h.s, h.s.r
	o := &hop{name: kind}
	switch kind {
	case "split":
		o.run = func(ctx context.Context) error { return s.l.ForceSplit(ctx, s.bs) }
	case "reindex":
		o.run = func(ctx context.Context) error { return s.l.Reindex(ctx, s.bs) }
	case "repair":
		clear := r.Intn(2) == 0
		o.run = func(ctx context.Context) error { return s.l.Repair(ctx, s.bs, clear) }
	case "release":
		o.run = func(ctx context.Context) error { s.l.ReleaseSegments(ctx); return nil }
	case "prune":
		o.run = func(ctx context.Context) error { return s.mgr.Lists.Prune(ctx) }
	case "save":
		o.run = func(ctx context.Context) error {
			var buf bytes.Buffer
			return s.mgr.Lists.Save(ctx, &buf)
		}
	case "verify":
		o.run = func(ctx context.Context) error { return s.l.Verify(ctx, s.bs) }
	case "verifyelements":
		o.run = func(ctx context.Context) error { return s.l.VerifyElements(ctx, s.bs) }
	case "scan":
		o.run = func(ctx context.Context) error {
			got, err := s.l.GetRankTop(ctx, s.bs, 0, 1<<16)
			return h.scan("GetRankTop", got, err)
		}
	case "lookup":
		o.run = func(ctx context.Context) error {
			var q []EID
			for id := range h.stable {
				q = append(q, id)
			}
			got, err := s.l.GetElements(ctx, s.bs, q, 1)
			var l []Elem
			for _, re := range got {
				l = append(l, re.Element)
			}
			return h.scan("GetElements", l, err)
		}
	case "percentile":
		o.run = func(ctx context.Context) error {
			_, err := s.l.GetPercentile(ctx, s.bs, 0.5, 2)
			if errors.Is(err, rankdb.ErrOffsetOutOfBounds) || errors.Is(err, rankdb.ErrNotFound) {
				return nil // content may be moving
			}
			return err
		}
	case "backup":
		o.run = func(ctx context.Context) error {
			var buf bytes.Buffer
			w := rankdb.NewWriterMsg()
			w.ReplaceWriter(&buf)
			err := s.l.Backup(ctx, s.bs, w)
			w.Flush()
			w.Close()
			if err != nil {
				return err
			}
			sp := newSpy()
			rd := rankdb.NewReaderMsgp(buf.Bytes())
			defer rd.Close()
			l2, err := rankdb.RestoreList(ctx, sp, rd, nil, nil)
			if err != nil {
				return err
			}
			got, err := l2.GetRankTop(ctx, sp, 0, 1<<16)
			return h.scan("backup", got, err)
		}
	case "clone":
		o.run = func(ctx context.Context) error {
			sp := newSpy()
			w := rankdb.WithListOption
			l2, err := rankdb.NewList(ctx, "copy", s.set+"2", sp2(s.bs, sp, s.set), w.MergeSplitSize(s.merge, s.split), w.Clone(s.l))
			if err != nil {
				return err
			}
			got, err := l2.GetRankTop(ctx, sp, 0, 1<<16)
			return h.scan("clone", got, err)
		}
	}
	return o
}

var heldReads = []string{"scan", "scan", "lookup", "lookup", "percentile", "verify", "verifyelements", "backup", "clone", "save"}
var heldAdmin = []string{"split", "reindex", "repair", "release", "release", "prune"}
var heldWrites = []string{"update", "update", "delete", "insert"}

func (h *heldGen) any() *hop {
	switch x := h.s.r.Intn(10); {
	case x < 4:
		return h.write(pick(h.s.r, heldWrites))
	case x < 7:
		return h.other(pick(h.s.r, heldAdmin))
	}
	return h.other(pick(h.s.r, heldReads))
}

// runHeld holds one operation at one of its storage calls until other
// operations on the list are done or waiting.
func runHeld(c *C) {
	r := c.Rng
	s := newSim(c)
	ss := pick(r, [][2]int{{2, 4}, {3, 8}, {4, 10}, {8, 24}})
	s.merge, s.split = ss[0], ss[1]
	s.g.lateUpd = false
	s.create(8 + r.Intn(60))
	for i := r.Intn(6); i > 0; i-- {
		s.stepNoReload()
	}
	if s.mod.len() < 4 {
		s.populate(s.g.fresh(newModel(), 10+r.Intn(30)))
	}
	if r.Intn(2) == 0 {
		s.must(s.l.ForceSplit(s.ctx, s.bs), "ForceSplit")
	}
	s.must(s.mgr.SaveLists(s.ctx, false), "SaveLists")
	kinds := append(append([]string{"populate"}, heldWrites...), "split", "split", "reindex", "repair", "scan", "lookup", "backup", "clone", "verifyelements")
	for round := 0; round < 3; round++ {
		kind := pick(r, kinds)
		seed := r.Int63()
		calls := int64(0)
		// The first run tells how many storage calls the operation makes.
		for pos := int64(0); pos <= calls; {
			f := s.fork(seed&1 == 0)
			n := f.heldRun(kind, pos)
			if pos == 0 {
				calls = n
				c.Max("calls_of_one_op", n)
				if n == 0 {
					break
				}
			}
			step := calls/10 + 1
			pos += 1 + r.Int63n(step)
		}
		c.Count("held_"+kind, 1)
	}
	c.NonTrivial()
}

// heldRun runs an operation held at its storage call pos (0: not held, alone)
// next to others. Returns the number of storage calls seen before others started.
func (s *sim) heldRun(kind string, pos int64) int64 {
	c, r := s.c, s.r
	h := &heldGen{s: s, pool: ids(s.mod.list()), next: 1 << 45, stable: map[EID]Elem{}}
	r.Shuffle(len(h.pool), func(i, j int) { h.pool[i], h.pool[j] = h.pool[j], h.pool[i] })
	keep := len(h.pool) / 3
	h.pool = h.pool[keep:]
	var a *hop
	var pop []Elem
	switch kind {
	case "populate":
		h.reset = true
		pop = h.elems(nil, r.Intn(30))
		a = &hop{name: kind, run: func(ctx context.Context) error { return s.l.Populate(ctx, s.bs, cps(pop)) }}
	case "update", "insert", "delete":
		a = h.write(kind)
	default:
		a = h.other(kind)
	}
	lanes := make([][]*hop, 1+r.Intn(3))
	if pos == 0 {
		lanes = nil
	}
	all := []*hop{a}
	for i := range lanes {
		for j := 1 + r.Intn(3); j > 0; j-- {
			o := h.any()
			lanes[i] = append(lanes[i], o)
			all = append(all, o)
		}
	}
	touched := map[EID]bool{}
	for _, o := range all {
		for _, id := range append(ids(o.put), o.del...) {
			touched[id] = true
		}
	}
	for _, e := range s.mod.list() {
		if !touched[e.ID] {
			h.stable[e.ID] = e
		}
	}
	var heldAt atomic.Value
	heldAt.Store("")
	held, release := make(chan struct{}), make(chan struct{})
	start := atomic.LoadInt64(&s.spy.calls)
	if pos > 0 {
		s.spy.onCall = func(n int64, op, set, key string) faultMode {
			if n-start == pos {
				heldAt.Store(op)
				close(held)
				<-release
			}
			return faultNone
		}
	}
	var wg sync.WaitGroup
	var done int64
	aDone := make(chan struct{})
	runOp := func(o *hop) {
		if err := o.run(s.ctx); err != nil {
			c.FailAsync("%s failed next to a held %s: %v", o.name, a.name, err)
		}
		atomic.AddInt64(&done, 1)
	}
	wg.Add(1)
	go c.guard(func() {
		defer wg.Done()
		defer close(aDone)
		runOp(a)
	})
	select {
	case <-held:
		c.Count("held_at_"+heldAt.Load().(string), 1)
	case <-aDone:
	}
	calls := atomic.LoadInt64(&s.spy.calls) - start
	trace := a.name
	for _, l := range lanes {
		l := l
		trace += " |"
		for _, o := range l {
			trace += " " + o.name
		}
		wg.Add(1)
		go c.guard(func() {
			defer wg.Done()
			for _, o := range l {
				runOp(o)
			}
		})
	}
	c.Logf("held at call %d (%s): %s", pos, heldAt.Load(), trace)
	// Let the others run until they are done or wait for the held one.
	if pos > 0 {
		last, since := int64(-1), time.Now()
		for t0 := time.Now(); time.Since(t0) < 100*time.Millisecond; {
			now := atomic.LoadInt64(&s.spy.calls) + atomic.LoadInt64(&done)
			if now != last {
				last, since = now, time.Now()
			} else if time.Since(since) > 1500*time.Microsecond {
				break
			}
			time.Sleep(200 * time.Microsecond)
		}
		c.Count("done_while_held", atomic.LoadInt64(&done))
		c.Count("waiting_for_held", int64(len(all))-atomic.LoadInt64(&done))
		c.Sig(trace, pos, atomic.LoadInt64(&done))
	}
	close(release)
	wg.Wait()
	s.spy.onCall = nil
	c.CheckAsync()
	if pos == 0 {
		return calls
	}
	if h.reset {
		s.resetContent(pop, lanes)
	} else {
		for _, o := range all {
			s.mod.put(o.put...)
			s.mod.del(o.del...)
		}
	}
	s.checkRanking(true)
	s.checkStructure()
	l := s.l
	s.l = s.freshView()
	s.checkRanking(false)
	s.l = l
	checkInventory(c, s.spy, "after "+trace, s)
	checkUnlocked(c, s.ctx, s.l, "after "+trace)
	c.Count("held_runs", 1)
	return calls
}

// resetContent makes the content after a replacement next to writes the
// reference: each write came either before or after the replacement.
func (s *sim) resetContent(pop []Elem, lanes [][]*hop) {
	got, err := s.l.GetRankTop(s.ctx, s.bs, 0, 1<<16)
	if errors.Is(err, rankdb.ErrOffsetOutOfBounds) {
		err = nil
	}
	s.must(err, "reading the content")
	have := newModel()
	for _, e := range got {
		if _, dup := have.m[e.ID]; dup {
			s.c.Failf("element %d is in the list twice", e.ID)
		}
		have.put(e)
	}
	want := newModel()
	want.put(pop...)
	for _, l := range lanes {
		after := false
		for _, o := range l {
			if len(o.put) > 0 {
				if _, ok := have.m[o.put[0].ID]; ok {
					after = true
				}
			}
			if after {
				want.put(o.put...)
			}
		}
	}
	if d := sameElems(got, want.list()); d != "" {
		s.c.Failf("content after a replacement next to writes: %s", d)
	}
	s.mod = want
}
