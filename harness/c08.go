package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/blobstore"
	"github.com/anishathalye/porcupine"
)

func init() {
	register(&Check{ID: "C08", Race: true, Quick: 1400, Thorough: 4000, Run: runC08,
		Rule: "one case = clients running updates, inserts, deletes, lookups, range, score and percentile reads, statistics, verification, splits, reindexing, repairs, backups and unloading on one list with random delays in its storage; every observation of an element is recorded with a global order, the history of each element is checked for linearizability and the final content, structure and stored state are decoded and compared; every eighth case holds one operation at each of its storage calls in turn while other operations run, then compares reads of untouched elements and the final state",
		Assume: []string{"each written element version is distinct",
			"elements are inserted (without lookup) only under unused IDs, as documented",
			"ranks and windows of reads that overlap writes are not asserted, only the elements in them; results of a single writer are compared exactly"}})
	register(&Check{ID: "C09", Race: true, Quick: 800, Thorough: 1600, Run: runC09,
		Rule:   "one case = several lists in one manager whose list splitter, pruner and interval saver run at millisecond intervals while clients use, add and delete lists; histories are checked as for C08, then oversized segments must disappear without further traffic, and the directory written by the shutdown save is decoded",
		Assume: []string{"a segment may stay larger than the split size when equally scored elements cannot be separated", "oversized segments must be split within 30 s of the last operation"}})
}

// --- element histories ---------------------------------------------------------

const (
	eRead  = iota // lookup: out is the version seen, 0 if absent
	eSeen         // part of a range read: out was present
	eWrite        // update or insert of ver
	eDel
	eRMW // update of ver that reports the previous version in out
)

type elemIn struct {
	kind int
	ver  uint32
}

var elemModel = porcupine.Model{
	Init: func() interface{} { return uint32(0) },
	Step: func(st, in, out interface{}) (bool, interface{}) {
		i := in.(elemIn)
		switch i.kind {
		case eRead, eSeen:
			return out.(uint32) == st.(uint32), st
		case eWrite:
			return true, i.ver
		case eRMW:
			return out.(uint32) == st.(uint32), i.ver
		}
		return true, uint32(0)
	},
	Equal: func(a, b interface{}) bool { return a.(uint32) == b.(uint32) },
	DescribeOperation: func(in, out interface{}) string {
		i := in.(elemIn)
		switch i.kind {
		case eRead:
			return fmt.Sprintf("lookup -> %d", out)
		case eSeen:
			return fmt.Sprintf("range read contains %d", out)
		case eWrite:
			return fmt.Sprintf("write %d", i.ver)
		case eRMW:
			return fmt.Sprintf("update to %d, previous %d", i.ver, out)
		}
		return "delete"
	},
}

// conc is one list used concurrently.
type conc struct {
	*sim
	seed   int64
	clock  *int64
	mu     sync.Mutex
	hist   map[EID][]porcupine.Operation
	byVer  map[uint32]Elem
	nextV  uint32
	stable map[EID]Elem
	hot    []EID
	nextID uint64
	insPct int
	popPct int
	single bool // one writer: its results are compared exactly
	wmu    sync.Mutex
	gone   int32 // list was deleted from the manager
	label  string
}

func newConc(s *sim, clock *int64) *conc {
	return &conc{sim: s, seed: s.r.Int63(), clock: clock, hist: map[EID][]porcupine.Operation{}, byVer: map[uint32]Elem{}, stable: map[EID]Elem{}, nextID: 1 << 40}
}

func (k *conc) tick() int64 { return atomic.AddInt64(k.clock, 1) }

// version makes a new distinct version of an element.
func (k *conc) version(r *rand.Rand, id EID) Elem {
	k.mu.Lock()
	defer k.mu.Unlock()
	k.nextV++
	e := k.g2(r, id)
	pl := make([]byte, 4+r.Intn(20))
	for i := range pl {
		pl[i] = byte(k.nextV)
	}
	binary.BigEndian.PutUint32(pl, k.nextV)
	e.Payload = pl
	k.byVer[k.nextV] = cp(e)
	return e
}

func (k *conc) g2(r *rand.Rand, id EID) Elem {
	g := *k.g
	g.r = r
	e := Elem{ID: id, Score: g.score(), TieBreaker: g.tie(), Updated: uint32(1000 + r.Intn(5))}
	return e
}

// verOf returns the version of an element that was read, failing when nothing
// ever wrote that element.
func (k *conc) verOf(what string, e Elem) (uint32, bool) {
	if len(e.Payload) >= 4 {
		v := binary.BigEndian.Uint32(e.Payload)
		k.mu.Lock()
		w, ok := k.byVer[v]
		k.mu.Unlock()
		if ok && eq(w, e) {
			return v, true
		}
		if ok {
			k.c.FailAsync("%s%s: returned element %s, no write stored that (version %d was %s)", k.label, what, es(e), v, es(w))
			return 0, false
		}
	}
	k.c.FailAsync("%s%s: returned element %s that no write stored", k.label, what, es(e))
	return 0, false
}

func (k *conc) add(id EID, cl int, call, ret int64, in elemIn, out uint32) {
	k.mu.Lock()
	k.hist[id] = append(k.hist[id], porcupine.Operation{ClientId: cl, Call: call, Return: ret, Input: in, Output: out})
	k.mu.Unlock()
}

// sawAll records the elements of a read that returned them in order.
func (k *conc) sawAll(what string, cl int, call, ret int64, got []Elem, complete bool) {
	seen := map[EID]int{}
	for i, e := range got {
		if i > 0 && refAbove(e, got[i-1]) {
			k.c.FailAsync("%s%s: result not in rank order: %s before %s", k.label, what, es(got[i-1]), es(e))
			return
		}
		seen[e.ID]++
		v, ok := k.verOf(what, e)
		if !ok {
			return
		}
		k.add(e.ID, cl, call, ret, elemIn{eSeen, 0}, v)
	}
	for id := range k.stable {
		if seen[id] > 1 || (complete && seen[id] == 0) {
			k.c.FailAsync("%s%s: element %d, which nobody changes, is returned %d times (%d elements returned)", k.label, what, id, seen[id], len(got))
			return
		}
	}
	k.c.Count("range_elements_seen", int64(len(got)))
}

func (k *conc) err(cl int, op string, err error) bool {
	if err == nil {
		return true
	}
	if atomic.LoadInt32(&k.gone) != 0 {
		return false
	}
	k.c.FailAsync("%sclient %d: %s returned an error without any storage failure: %v", k.label, cl, op, err)
	return false
}

func (k *conc) pickIDs(r *rand.Rand, n int) []EID {
	seen := map[EID]bool{}
	var out []EID
	for i := 0; i < n; i++ {
		id := k.hot[r.Intn(len(k.hot))]
		if !seen[id] {
			seen[id] = true
			out = append(out, id)
		}
	}
	return out
}

// write performs one modifying operation.
func (k *conc) write(cl int, r *rand.Rand) {
	if k.single {
		k.wmu.Lock()
		defer k.wmu.Unlock()
	}
	x := r.Intn(100)
	switch {
	case x < k.popPct: // replace everything, stable elements with themselves
		var b []Elem
		for _, e := range k.stable {
			b = append(b, cp(e))
		}
		w := map[EID]uint32{}
		for _, id := range k.pickIDs(r, 6) {
			e := k.version(r, id)
			b = append(b, e)
			w[id] = binary.BigEndian.Uint32(e.Payload)
		}
		// Nothing but hot elements is written while there are populates.
		known := k.hot
		shuffle(r, b)
		call := k.tick()
		err := k.l.Populate(k.ctx, k.bs, cps(b))
		ret := k.tick()
		if !k.err(cl, "Populate", err) {
			return
		}
		for _, id := range known {
			if _, ok := k.stable[id]; ok {
				continue
			}
			if _, ok := w[id]; !ok {
				k.add(id, cl, call, ret, elemIn{eDel, 0}, 0)
			}
		}
		for id, v := range w {
			k.add(id, cl, call, ret, elemIn{eWrite, v}, 0)
		}
		if k.single {
			k.mod.reset(b...)
		}
		k.c.Count("populates", 1)
	case x < 8:
		ids := k.pickIDs(r, 1+r.Intn(3))
		call := k.tick()
		err := k.l.DeleteElements(k.ctx, k.bs, append([]EID{}, ids...))
		ret := k.tick()
		if !k.err(cl, "DeleteElements", err) {
			return
		}
		for _, id := range ids {
			k.add(id, cl, call, ret, elemIn{eDel, 0}, 0)
		}
		if k.single {
			k.mod.del(ids...)
		}
		k.c.Count("deletes", 1)
	case x < 8+k.insPct:
		n := 1 + r.Intn(4)
		var b []Elem
		for i := 0; i < n; i++ {
			id := EID(atomic.AddUint64(&k.nextID, uint64(1+r.Intn(3))))
			b = append(b, k.version(r, id))
		}
		call := k.tick()
		err := k.l.Insert(k.ctx, k.bs, cps(b))
		ret := k.tick()
		if !k.err(cl, "Insert", err) {
			return
		}
		for _, e := range b {
			k.add(e.ID, cl, call, ret, elemIn{eWrite, binary.BigEndian.Uint32(e.Payload)}, 0)
		}
		if k.single {
			k.mod.put(b...)
		}
		k.c.Count("inserts", 1)
	default:
		var b []Elem
		for _, id := range k.pickIDs(r, 1+r.Intn(4)) {
			b = append(b, k.version(r, id))
		}
		results := r.Intn(2) == 0
		radius := r.Intn(4)
		call := k.tick()
		res, err := k.l.UpdateElements(k.ctx, k.bs, cps(b), radius, results)
		ret := k.tick()
		if !k.err(cl, "UpdateElements", err) {
			return
		}
		prev := map[EID]uint32{}
		if results {
			got := map[EID]bool{}
			for _, re := range res {
				if got[re.ID] {
					k.c.FailAsync("%supdate returned element %d twice", k.label, re.ID)
					return
				}
				got[re.ID] = true
				var w *Elem
				for i := range b {
					if b[i].ID == re.ID {
						w = &b[i]
					}
				}
				if w == nil || !eq(*w, re.Element) {
					k.c.FailAsync("%supdate of %s returned %s", k.label, ess(b), es(re.Element))
					return
				}
				if re.Before != nil {
					v, ok := k.verOf("update result Before", re.Before.Element)
					if !ok {
						return
					}
					if re.Before.ID != re.ID {
						k.c.FailAsync("%supdate of %d reports element %d as previous", k.label, re.ID, re.Before.ID)
						return
					}
					prev[re.ID] = v
				}
			}
			if len(got) != len(b) {
				k.c.FailAsync("%supdate of %d elements returned %d: %s", k.label, len(b), len(got), ess(b))
				return
			}
			if k.single {
				before := k.mod.clone()
				k.mod.put(b...)
				k.exact("UpdateElements", res, radius, before)
			}
		} else if k.single {
			k.mod.put(b...)
		}
		for _, e := range b {
			if results {
				k.add(e.ID, cl, call, ret, elemIn{eRMW, binary.BigEndian.Uint32(e.Payload)}, prev[e.ID])
			} else {
				k.add(e.ID, cl, call, ret, elemIn{eWrite, binary.BigEndian.Uint32(e.Payload)}, 0)
			}
		}
		k.c.Count("updates", 1)
	}
}

// exact compares the results of the only writer with the model.
func (k *conc) exact(what string, res rankdb.RankedElements, radius int, before *model) {
	defer func() {
		if x := recover(); x != nil {
			if f, ok := x.(failure); ok {
				k.c.FailAsync("%s(single writer) %s", k.label, f.msg)
				return
			}
			panic(x)
		}
	}()
	for _, re := range res {
		k.checkOne(what, re, radius)
		p, ok := before.rank(re.ID)
		if ok != (re.Before != nil) {
			k.c.Failf("%s: element %d existed before: %v, previous rank reported: %v", what, re.ID, ok, re.Before != nil)
		}
		if ok && (re.Before.FromTop != p || re.Before.FromBottom != before.len()-1-p) {
			k.c.Failf("%s: element %d previous rank top %d bottom %d, want %d %d", what, re.ID, re.Before.FromTop, re.Before.FromBottom, p, before.len()-1-p)
		}
	}
	k.c.Count("single_writer_results", int64(len(res)))
}

// read performs one reading operation.
func (k *conc) read(cl int, r *rand.Rand) {
	switch x := r.Intn(100); {
	case x < 50:
		ids := k.pickIDs(r, 1+r.Intn(4))
		var st []EID
		for id := range k.stable {
			if len(st) >= 2 {
				break
			}
			st = append(st, id)
		}
		q := append(append([]EID{}, ids...), st...)
		r.Shuffle(len(q), func(i, j int) { q[i], q[j] = q[j], q[i] })
		radius := r.Intn(4)
		call := k.tick()
		res, err := k.l.GetElements(k.ctx, k.bs, append([]EID{}, q...), radius)
		ret := k.tick()
		if !k.err(cl, "GetElements", err) {
			return
		}
		got := map[EID]uint32{}
		for _, re := range res {
			if _, dup := got[re.ID]; dup {
				k.c.FailAsync("%sGetElements(%v) returned %d twice", k.label, q, re.ID)
				return
			}
			v, ok := k.verOf("GetElements", re.Element)
			if !ok {
				return
			}
			got[re.ID] = v
			if len(re.Above) > radius || len(re.Below) > radius {
				k.c.FailAsync("%sGetElements radius %d returned %d above %d below", k.label, radius, len(re.Above), len(re.Below))
				return
			}
			for _, e := range append(append([]Elem{}, re.Above...), re.Below...) {
				if _, ok := k.verOf("neighbor", e); !ok {
					return
				}
			}
		}
		for _, id := range st {
			if _, ok := got[id]; !ok {
				k.c.FailAsync("%sGetElements(%v) did not find %d, which nobody changes", k.label, q, id)
				return
			}
		}
		for _, id := range ids {
			k.add(id, cl, call, ret, elemIn{eRead, 0}, got[id])
		}
		k.c.Count("lookups", 1)
	case x < 62:
		off, n := 0, 1<<20
		if r.Intn(2) == 0 {
			off, n = r.Intn(len(k.stable)+3), 1+r.Intn(12)
		}
		call := k.tick()
		res, err := k.l.GetRankTop(k.ctx, k.bs, off, n)
		ret := k.tick()
		if errors.Is(err, rankdb.ErrOffsetOutOfBounds) && (off > 0 || len(k.stable) == 0) {
			return
		}
		if k.err(cl, "GetRankTop", err) {
			k.sawAll(fmt.Sprintf("GetRankTop(%d,%d)", off, n), cl, call, ret, res, off == 0 && n == 1<<20)
		}
		k.c.Count("range_reads", 1)
	case x < 70:
		off, n := r.Intn(len(k.stable)+3), 1+r.Intn(12)
		call := k.tick()
		res, err := k.l.GetRankBottom(k.ctx, k.bs, off, n)
		ret := k.tick()
		if errors.Is(err, rankdb.ErrOffsetOutOfBounds) {
			return
		}
		if k.err(cl, "GetRankBottom", err) {
			k.sawAll(fmt.Sprintf("GetRankBottom(%d,%d)", off, n), cl, call, ret, res, false)
		}
		k.c.Count("range_reads", 1)
	case x < 78:
		sc := k.g2(r, 0).Score
		call := k.tick()
		res, err := k.l.GetRankScoreDesc(k.ctx, k.bs, sc, 1+r.Intn(10))
		ret := k.tick()
		if k.err(cl, "GetRankScoreDesc", err) {
			var l []Elem
			for _, re := range res {
				if re.Score > sc {
					k.c.FailAsync("%sGetRankScoreDesc(%d) returned %s", k.label, sc, es(re.Element))
				}
				l = append(l, re.Element)
			}
			k.sawAll("GetRankScoreDesc", cl, call, ret, l, false)
		}
		k.c.Count("score_reads", 1)
	case x < 84:
		call := k.tick()
		re, err := k.l.GetPercentile(k.ctx, k.bs, r.Float64(), r.Intn(3))
		ret := k.tick()
		if err != nil && (errors.Is(err, rankdb.ErrOffsetOutOfBounds) || errors.Is(err, rankdb.ErrNotFound)) {
			// The list may have shrunk while reading.
			return
		}
		if k.err(cl, "GetPercentile", err) && re != nil {
			k.sawAll("GetPercentile", cl, call, ret, []Elem{re.Element}, false)
		}
		k.c.Count("percentiles", 1)
	case x < 90:
		n, err := k.l.Len(k.ctx, k.bs)
		if k.err(cl, "Len", err) && n < 0 {
			k.c.FailAsync("Len is %d", n)
		}
	default:
		_, err := k.l.Stats(k.ctx, k.bs, r.Intn(2) == 0)
		k.err(cl, "Stats", err)
	}
}

// admin performs one maintenance operation.
func (k *conc) admin(cl int, r *rand.Rand) {
	ops := []string{"split", "reindex", "release", "verify", "verifyelements", "backup", "repair", "save", "prune", "clone"}
	op := pick(r, ops)
	var err error
	switch op {
	case "split":
		err = k.l.ForceSplit(k.ctx, k.bs)
	case "reindex":
		err = k.l.Reindex(k.ctx, k.bs)
	case "release":
		k.l.ReleaseSegments(k.ctx)
	case "verify":
		err = k.l.Verify(k.ctx, k.bs)
	case "verifyelements":
		err = k.l.VerifyElements(k.ctx, k.bs)
	case "repair":
		err = k.l.Repair(k.ctx, k.bs, false)
	case "prune":
		err = k.mgr.Lists.Prune(k.ctx)
	case "save":
		var buf bytes.Buffer
		err = k.mgr.Lists.Save(k.ctx, &buf)
	case "backup", "clone":
		// A consistent copy taken while the list is used.
		sp := newSpy()
		var l2 *rankdb.List
		call := k.tick()
		if op == "backup" {
			var buf bytes.Buffer
			w := rankdb.NewWriterMsg()
			w.ReplaceWriter(&buf)
			err = k.l.Backup(k.ctx, k.bs, w)
			w.Flush()
			w.Close()
			if err == nil {
				rd := rankdb.NewReaderMsgp(buf.Bytes())
				l2, err = rankdb.RestoreList(k.ctx, sp, rd, nil, nil)
				rd.Close()
			}
		} else {
			o := rankdb.WithListOption
			l2, err = rankdb.NewList(k.ctx, "copy", k.set+"2", sp2(k.bs, sp, k.set), o.MergeSplitSize(k.merge, k.split), o.Clone(k.l))
		}
		ret := k.tick()
		if err == nil {
			var got Elems
			got, err = l2.GetRankTop(k.ctx, sp, 0, 1<<20)
			if errors.Is(err, rankdb.ErrOffsetOutOfBounds) {
				err = nil
			}
			if err == nil {
				k.sawAll(op, cl, call, ret, got, true)
				have := map[EID]bool{}
				for _, e := range got {
					if have[e.ID] {
						k.c.FailAsync("%s%s holds element %d twice", k.label, op, e.ID)
					}
					have[e.ID] = true
				}
				// A copy is a read of every element.
				for _, id := range k.hot {
					if !have[id] {
						k.add(id, cl, call, ret, elemIn{eRead, 0}, 0)
					}
				}
			}
		}
	}
	if err != nil {
		k.err(cl, op, err)
	}
	k.c.Count("admin_"+op, 1)
}

// sp2 sends accesses of one set to a and everything else to b.
func sp2(a blobstore.Store, b blobstore.Store, set string) blobstore.Store {
	return setSplit{a, b, set}
}

type setSplit struct {
	a, b blobstore.Store
	set  string
}

func (s setSplit) pick(set string) blobstore.Store {
	if set == s.set {
		return s.a
	}
	return s.b
}
func (s setSplit) Get(ctx context.Context, set, key string) ([]byte, error) {
	return s.pick(set).Get(ctx, set, key)
}
func (s setSplit) Set(ctx context.Context, set, key string, v []byte) error {
	return s.pick(set).Set(ctx, set, key, v)
}
func (s setSplit) Delete(ctx context.Context, set, key string) error {
	return s.pick(set).Delete(ctx, set, key)
}

// seedContent fills the list before traffic starts.
func (k *conc) seedContent(nHot, nStable int) {
	r := k.r
	var b []Elem
	for i := 0; i < nHot; i++ {
		id := EID(1 + i)
		if r.Intn(4) == 0 {
			id = EID(r.Uint64()>>1 | 1<<62)
		}
		k.hot = append(k.hot, id)
	}
	call := k.tick()
	for _, id := range k.hot {
		if r.Intn(3) > 0 {
			b = append(b, k.version(r, id))
		}
	}
	for i := 0; i < nStable; i++ {
		e := k.version(r, EID(1000+i))
		k.stable[e.ID] = e
		b = append(b, e)
	}
	k.sim.populate(b)
	ret := k.tick()
	for _, e := range b {
		k.add(e.ID, 99, call, ret, elemIn{eWrite, binary.BigEndian.Uint32(e.Payload)}, 0)
	}
}

// settle checks content and structure after all clients have stopped.
func (k *conc) settle(when string) {
	k.c.Logf("%s%s: final state", k.label, when)
	call := k.tick()
	got, err := k.l.GetRankTop(k.ctx, k.bs, 0, 1<<20)
	ret := k.tick()
	if errors.Is(err, rankdb.ErrOffsetOutOfBounds) {
		err = nil
	}
	k.must(err, "%s%s: reading final content", k.label, when)
	k.sawAll(when, 98, call, ret, got, true)
	k.c.CheckAsync()
	m := newModel()
	for _, e := range got {
		if _, dup := m.m[e.ID]; dup {
			k.c.Failf("%s%s: element %d is in the list twice", k.label, when, e.ID)
		}
		m.put(e)
	}
	k.mu.Lock()
	var all []EID
	for id := range k.hist {
		all = append(all, id)
	}
	k.mu.Unlock()
	sort.Slice(all, func(i, j int) bool { return all[i] < all[j] })
	for _, id := range all {
		v := uint32(0)
		if e, ok := m.m[id]; ok {
			v, _ = k.verOf(when, e)
		}
		k.add(id, 98, call, ret, elemIn{eRead, 0}, v)
	}
	if k.single {
		if d := sameElems(got, k.mod.list()); d != "" {
			k.c.Failf("%s%s: content after a single writer: %s", k.label, when, d)
		}
	}
	// Everything read from now on must agree with that content.
	k.mod = m
	old := k.g
	k.g = newElemGen(k.r)
	k.checkRanking(true)
	k.g = old
}

// linearizable checks the history of every element.
func (k *conc) linearizable() {
	var all []EID
	for id := range k.hist {
		all = append(all, id)
	}
	sort.Slice(all, func(i, j int) bool { return all[i] < all[j] })
	for _, id := range all {
		h := k.hist[id]
		res := porcupine.CheckOperationsTimeout(elemModel, h, 20*time.Second)
		k.c.Tick()
		k.c.Count("histories", 1)
		k.c.Count("history_events", int64(len(h)))
		switch res {
		case porcupine.Illegal:
			d := describeHistory(elemModel, reduceHistory(h))
			if len(d) > 12000 {
				d = d[:6000] + "\n...\n" + d[len(d)-6000:]
			}
			k.c.Failf("%shistory of element %d is not linearizable:\n%s", k.label, id, d)
		case porcupine.Unknown:
			k.c.Count("histories_undecided", 1)
		}
	}
}

// reduceHistory drops observations that are not needed for an element history
// to be illegal. Writes are kept.
func reduceHistory(h []porcupine.Operation) []porcupine.Operation {
	h = append([]porcupine.Operation{}, h...)
	illegal := func(h []porcupine.Operation) bool {
		return porcupine.CheckOperationsTimeout(elemModel, h, 2*time.Second) == porcupine.Illegal
	}
	stop := time.Now().Add(20 * time.Second)
	for i := 0; i < len(h) && time.Now().Before(stop); {
		in := h[i].Input.(elemIn)
		t := append([]porcupine.Operation{}, h[:i]...)
		switch in.kind {
		case eRead, eSeen:
			t = append(t, h[i+1:]...)
			if illegal(t) {
				h = t
				continue
			}
		case eRMW:
			o := h[i]
			o.Input = elemIn{eWrite, in.ver}
			t = append(append(t, o), h[i+1:]...)
			if illegal(t) {
				h = t
			}
		}
		i++
	}
	return h
}

// overlaps counts pairs of overlapping operations, as evidence of concurrency.
func (k *conc) overlaps() int {
	n := 0
	for _, h := range k.hist {
		h = append([]porcupine.Operation{}, h...)
		sort.Slice(h, func(i, j int) bool { return h[i].Call < h[j].Call })
		var sig []string
		for i := range h {
			for j := i + 1; j < len(h) && h[j].Call < h[i].Return; j++ {
				n++
			}
			sig = append(sig, fmt.Sprint(h[i].Input.(elemIn).kind))
		}
		k.c.Sig(strings.Join(sig, ""))
	}
	return n
}

func runC08(c *C) {
	if c.Idx%8 == 2 {
		runHeld(c)
		return
	}
	s := newSim(c)
	r := c.Rng
	s.g.kind = pick(r, []int{0, 1, 1, 2, 5})
	ss := pick(r, [][2]int{{2, 4}, {3, 8}, {4, 10}, {8, 24}, {2, 30}, {500, 2000}})
	s.merge, s.split = ss[0], ss[1]
	s.create(0)
	var clock int64
	k := newConc(s, &clock)
	k.insPct = pick(r, []int{0, 4, 15})
	if r.Intn(3) == 0 {
		k.insPct, k.popPct = 0, 2
	}
	k.single = r.Intn(3) == 0
	k.seedContent(2+r.Intn(10), pick(r, []int{0, 5, 30, 80}))
	s.spy.delay = jitter(c.Seed, pick(r, []int{0, 5, 25, 60}), time.Duration(20+r.Intn(400))*time.Microsecond)
	clients := 2 + r.Intn(6)
	ops := 15 + r.Intn(40)
	adminPct := pick(r, []int{0, 5, 20})
	writePct := pick(r, []int{20, 50, 80})
	c.Logf("%d clients, %d ops each, %d%% admin, %d%% writes, single writer %v, hot %v, stable %d, delay", clients, ops, adminPct, writePct, k.single, k.hot, len(k.stable))
	var wg sync.WaitGroup
	for cl := 0; cl < clients; cl++ {
		wg.Add(1)
		go func(cl int, r *rand.Rand) {
			defer wg.Done()
			for i := 0; i < ops && !c.Failed(); i++ {
				x := r.Intn(100)
				switch {
				case x < adminPct:
					k.admin(cl, r)
				case x < adminPct+writePct*(100-adminPct)/100:
					k.write(cl, r)
				default:
					k.read(cl, r)
				}
				c.Tick()
			}
		}(cl, rand.New(rand.NewSource(r.Int63())))
	}
	wg.Wait()
	c.CheckAsync()
	s.spy.delay = nil
	k.settle("after traffic")
	k.checkStructure()
	k.c.CheckAsync()
	k.must(k.l.ForceSplit(k.ctx, k.bs), "ForceSplit")
	k.checkRanking(true)
	k.checkStructure()
	checkInventory(c, s.spy, "after traffic", s)
	k.linearizable()
	n := k.overlaps()
	c.Count("overlapping_pairs", int64(n))
	c.Count("clients", int64(clients))
	if n > 0 {
		c.NonTrivial()
	}
	checkUnlocked(c, s.ctx, s.l, "after traffic")
	c.Sample("%d clients x %d ops on sizes %d/%d cache %s, %d elements tracked, %d overlapping operation pairs", clients, ops, s.merge, s.split, s.cname, len(k.hist), n)
}

// --- C09 -------------------------------------------------------------------------

// oversized returns a description of segments of the stored list that must be
// split, or "".
func (k *sim) oversized() (string, error) {
	sc, ix := listRefs(k.l)
	for _, x := range []struct{ name, id string }{{"scores", sc}, {"index", ix}} {
		ss, err := readSegs(k.spy, k.set, x.id, true)
		if err != nil {
			return "", err
		}
		for _, sg := range ss.Segs {
			if len(sg.Elems) <= k.split {
				continue
			}
			// Equally scored elements stay together.
			group, big := 1, 1
			for i := 1; i < len(sg.Elems); i++ {
				if sg.Elems[i].Score == sg.Elems[i-1].Score && sg.Elems[i].TieBreaker == sg.Elems[i-1].TieBreaker {
					group++
				} else {
					group = 1
				}
				if group > big {
					big = group
				}
			}
			if len(sg.Elems) > k.split+2*big {
				return fmt.Sprintf("%s segment %d holds %d elements, split size is %d", x.name, sg.ID, len(sg.Elems), k.split), nil
			}
		}
	}
	return "", nil
}

func runC09(c *C) {
	r := c.Rng
	ctx := quiet(c.Ctx)
	sp := newSpy()
	cache, cname := randCache(r)
	mgr := newMgr(c, sp, cache)
	var clock int64
	nLists := 1 + r.Intn(3)
	var ks []*conc
	for i := 0; i < nLists; i++ {
		s := newSim(c)
		s.spy, s.bs, s.mgr, s.cache, s.cname = sp, sp, mgr, cache, cname
		s.id = rankdb.ListID(fmt.Sprintf("list%d", i))
		s.set = pick(r, []string{"set", "other"})
		s.g.kind, s.g.ties = pick(r, []int{1, 2, 5}), 3
		ss := pick(r, [][2]int{{2, 4}, {3, 8}, {4, 10}, {8, 24}})
		s.merge, s.split = ss[0], ss[1]
		s.create(0)
		k := newConc(s, &clock)
		k.label = string(s.id) + ": "
		k.insPct = pick(r, []int{10, 40})
		k.single = r.Intn(3) == 0
		k.seedContent(3+r.Intn(10), pick(r, []int{0, 5, 30}))
		ks = append(ks, k)
	}
	every := func() time.Duration { return time.Duration(300+r.Intn(4000)) * time.Microsecond }
	split, prune, save := make(chan chan struct{}), make(chan chan struct{}), make(chan chan struct{})
	var backup blobstore.Store
	if r.Intn(2) == 0 {
		backup = newSpy()
		mgr.Backup, mgr.BackupEvery = blobstore.StoreWithSet(backup, "bk"), 1+r.Intn(3)
	}
	var closed int32
	var late int64
	sp.onWrite = func(op, set, key string, _ []byte) {
		if set == "dir" && atomic.LoadInt32(&closed) != 0 {
			atomic.AddInt64(&late, 1)
		}
		if set == "dir" {
			c.Count("directory_saves", 1)
		}
	}
	sp.delay = jitter(c.Seed, pick(r, []int{0, 5, 25}), time.Duration(20+r.Intn(300))*time.Microsecond)
	mgr.StartListSplitter(ctx, sp, split)
	mgr.StartListPruner(ctx, every(), prune)
	mgr.StartIntervalSaver(ctx, every(), save)
	clients := 2 + r.Intn(5)
	ops := 20 + r.Intn(40)
	c.Logf("%d lists, cache %s, %d clients x %d ops", nLists, cname, clients, ops)
	var wg sync.WaitGroup
	var mu sync.Mutex
	extra := map[rankdb.ListID][]Elem{} // lists added (and kept) by clients
	for cl := 0; cl < clients; cl++ {
		wg.Add(1)
		go func(cl int, r *rand.Rand) {
			defer wg.Done()
			var mine []rankdb.ListID
			for i := 0; i < ops && !c.Failed(); i++ {
				c.Tick()
				k := ks[r.Intn(len(ks))]
				switch x := r.Intn(100); {
				case x < 4: // add a list
					id := rankdb.ListID(fmt.Sprintf("new-%d-%d", cl, i))
					e := []Elem{{ID: 1, Score: uint64(cl), Payload: []byte("x")}, {ID: 2, Score: uint64(i), Payload: []byte("y")}}
					o := rankdb.WithListOption
					l, err := rankdb.NewList(ctx, id, "set", sp, o.MergeSplitSize(2, 4), o.Populate(cps(e)), o.Cache(cache))
					if err != nil {
						c.FailAsync("NewList: %v", err)
						return
					}
					mgr.Lists.Add(l)
					mine = append(mine, id)
					mu.Lock()
					extra[id] = e
					mu.Unlock()
				case x < 6 && len(mine) > 0:
					id := mine[0]
					mine = mine[1:]
					if err := mgr.DeleteList(ctx, id); err != nil {
						c.FailAsync("DeleteList: %v", err)
						return
					}
					mu.Lock()
					delete(extra, id)
					mu.Unlock()
				case x < 60:
					k.write(cl, r)
				case x < 64:
					k.admin(cl, r)
				default:
					k.read(cl, r)
				}
			}
		}(cl, rand.New(rand.NewSource(r.Int63())))
	}
	wg.Wait()
	c.CheckAsync()
	// Growth is handled without any further traffic.
	grown := 0
	for _, k := range ks {
		deadline := time.Now().Add(30 * time.Second)
		for first := true; ; first = false {
			why, err := k.oversized()
			if err == nil && why == "" {
				break
			}
			if first {
				grown++
			}
			if time.Now().After(deadline) {
				c.Failf("%snot split long after traffic stopped: %s (%v)", k.label, why, err)
			}
			c.Tick()
			time.Sleep(2 * time.Millisecond)
		}
	}
	c.Count("lists_oversized_when_traffic_stopped", int64(grown))
	// A last list, then shut down: pruner and splitter first, then the saver.
	o := rankdb.WithListOption
	last, err := rankdb.NewList(ctx, "the-last", "set", sp, o.Populate([]rankdb.Element{{ID: 9, Score: 9}}), o.Cache(cache))
	if err != nil {
		c.Failf("NewList: %v", err)
	}
	mgr.Lists.Add(last)
	for _, ch := range []chan chan struct{}{prune, split, save} {
		v := make(chan struct{})
		select {
		case ch <- v:
		case <-time.After(60 * time.Second):
			c.Failf("a background service does not take the shutdown request")
		}
		select {
		case <-v:
		case <-time.After(60 * time.Second):
			c.Failf("a background service does not finish its shutdown")
		}
	}
	atomic.StoreInt32(&closed, 1)
	saved := sp.fork()
	sp.delay = nil
	for _, k := range ks {
		k.settle("after shutdown")
		k.checkStructure()
	}
	c.CheckAsync()
	if n := atomic.LoadInt64(&late); n != 0 {
		c.Failf("%d directory saves after the saver reported completion", n)
	}
	// The directory as it was when the saver reported completion.
	m2, err := rankdb.NewManager(saved, "dir")
	if err != nil {
		c.Failf("NewManager: %v", err)
	}
	if err := m2.LoadLists(ctx, newCache("arc", 16)); err != nil {
		c.Failf("the directory saved on shutdown does not load: %v", err)
	}
	want := len(extra) + len(ks) + 1
	if n := len(m2.Lists.All()); n != want {
		c.Failf("the directory saved on shutdown holds %d lists, want %d", n, want)
	}
	for id := range extra {
		l, ok := m2.Lists.ByID(id)
		if !ok {
			c.Failf("list %q, added before shutdown, is not in the saved directory", id)
		}
		got, err := l.GetRankTop(ctx, saved, 0, 10)
		if err != nil || len(got) != 2 {
			c.Failf("list %q from the saved directory: %d elements, %v", id, len(got), err)
		}
	}
	for _, k := range ks {
		l, ok := m2.Lists.ByID(k.id)
		if !ok {
			c.Failf("list %q is not in the directory saved on shutdown", k.id)
		}
		got, err := l.GetRankTop(ctx, saved, 0, 1<<20)
		if errors.Is(err, rankdb.ErrOffsetOutOfBounds) {
			err = nil
		}
		if err != nil {
			c.Failf("%sreading after restart: %v", k.label, err)
		}
		if d := sameElems(got, k.mod.list()); d != "" {
			c.Failf("%scontent after restart: %s", k.label, d)
		}
		k.linearizable()
		n := k.overlaps()
		c.Count("overlapping_pairs", int64(n))
		if n > 0 {
			c.NonTrivial()
		}
		checkUnlocked(c, ctx, k.l, "after shutdown")
	}
	c.Sample("%d lists, %d clients x %d ops, cache %s, %d lists oversized when traffic stopped", nLists, clients, ops, cname, grown)
}
