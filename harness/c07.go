package main

import (
	"bytes"
	"errors"
	"fmt"

	"github.com/Vivino/rankdb"
)

func init() {
	register(&Check{ID: "C07", Quick: 600, Thorough: 2500, Run: runC07,
		Rule:   "one case = a list in a generated state backed up to a stream, restored under the same and a new ID into an empty store and into the store holding the original, then operated on; the stream truncated at every (sampled) length, with wrong versions, with bytes changed, and read from failing readers",
		Assume: []string{"streams whose changed bytes announce more than 500k entries in a header are skipped (the allocation for them is the known finding of C22)", "the format has no checksum: a changed payload byte is not detectable and not asserted"}})
}

func backupOf(s *sim) []byte {
	var buf bytes.Buffer
	w := rankdb.NewWriterMsg()
	defer w.Close()
	w.ReplaceWriter(&buf)
	s.must(s.l.Backup(s.ctx, s.bs, w), "Backup")
	w.Flush()
	return append([]byte{}, buf.Bytes()...)
}

// failReader fails after n bytes.
type failReader struct {
	b   []byte
	n   int
	err error
}

func (f *failReader) Read(p []byte) (int, error) {
	if f.n <= 0 || len(f.b) == 0 {
		return 0, f.err
	}
	k := len(p)
	if k > f.n {
		k = f.n
	}
	if k > 7 {
		k = 7
	}
	k = copy(p[:k], f.b)
	f.b, f.n = f.b[k:], f.n-k
	return k, nil
}

// hugeHeader walks the msgpack tokens and reports whether one announces a huge size.
func hugeHeader(raw []byte) bool {
	const lim = 500000
	be := func(p, n int) (int, bool) {
		if p+n > len(raw) {
			return 0, false
		}
		v := 0
		for i := 0; i < n; i++ {
			v = v<<8 | int(raw[p+i])
		}
		return v, true
	}
	for p := 0; p < len(raw); {
		t := raw[p]
		p++
		skip, cnt, ok := 0, 0, true
		switch {
		case t < 0xa0 || t >= 0xe0: // fixint, fixmap, fixarray
		case t < 0xc0:
			skip = int(t & 31)
		case t == 0xc4 || t == 0xd9:
			skip, ok = be(p, 1)
			p++
		case t == 0xc5 || t == 0xda:
			skip, ok = be(p, 2)
			p += 2
		case t == 0xc6 || t == 0xdb:
			skip, ok = be(p, 4)
			p += 4
		case t == 0xc7:
			skip, ok = be(p, 1)
			p += 2
		case t == 0xc8:
			skip, ok = be(p, 2)
			p += 3
		case t == 0xc9:
			skip, ok = be(p, 4)
			p += 5
		case t == 0xca || t == 0xce || t == 0xd2:
			skip = 4
		case t == 0xcb || t == 0xcf || t == 0xd3:
			skip = 8
		case t == 0xcc || t == 0xd0:
			skip = 1
		case t == 0xcd || t == 0xd1:
			skip = 2
		case t >= 0xd4 && t <= 0xd8:
			skip = 1 + 1<<uint(t-0xd4)
		case t == 0xdc || t == 0xde:
			p += 2
		case t == 0xdd || t == 0xdf:
			cnt, ok = be(p, 4)
			p += 4
		}
		if skip > lim || cnt > lim {
			return true
		}
		if !ok {
			return false
		}
		p += skip
	}
	return false
}

func runC07(c *C) {
	r := c.Rng
	s := newSim(c)
	n := 0
	if r.Intn(6) > 0 {
		n = 1 + r.Intn(120)
	}
	s.create(n)
	for i := r.Intn(10); i > 0; i-- {
		s.stepNoReload()
	}
	if r.Intn(3) == 0 {
		s.l.ReleaseSegments(s.ctx)
	}
	if s.segments() > 1 {
		c.NonTrivial()
	}
	before := s.spy.snapshot()
	b := backupOf(s)
	checkUnlocked(c, s.ctx, s.l, "after backup")
	if d := diffStores(before, s.spy.snapshot(), nil); d != "" {
		c.Failf("backup changed storage: %s", d)
	}
	s.checkRanking(false)
	c.Max("stream_bytes", int64(len(b)))
	snap := s.mod.clone() // content at backup time

	// restored returns a sim of the restored list.
	restored := func(sp *spy, id rankdb.ListID, newID *rankdb.ListID, src []byte) (*sim, error) {
		cache, cname := randCache(r)
		var rd *rankdb.ReaderMsgp
		if r.Intn(2) == 0 {
			rd = rankdb.NewReaderMsgp(src)
		} else {
			rd = rankdb.NewReaderMsgpReader(&failReader{b: src, n: len(src), err: errors.New("EOF")})
		}
		l, err := rankdb.RestoreList(s.ctx, sp, rd, cache, newID)
		if err != nil {
			return nil, err
		}
		rs := &sim{c: c, ctx: s.ctx, r: r, bs: sp, spy: sp, set: s.set, id: id, l: l, mod: snap.clone(), g: s.g, cache: cache, cname: cname,
			merge: s.merge, split: s.split, meta: s.meta, load: s.load, ops: map[string]int{}}
		rs.mgr = newMgr(c, sp, cache)
		rs.mgr.Lists.Add(l)
		return rs, nil
	}
	check := func(rs *sim, what string) {
		rs.checkMeta(rs.l)
		rs.checkRanking(true)
		rs.checkStructure()
		checkUnlocked(c, rs.ctx, rs.l, what)
		c.Count("restores_compared", 1)
	}

	// Same ID and new ID, empty store.
	for _, nid := range []*rankdb.ListID{nil, idp("renamed")} {
		id := s.id
		if nid != nil {
			id = *nid
		}
		sp := newSpy()
		rs, err := restored(sp, id, nid, b)
		s.must(err, "RestoreList into empty store (new id %v)", nid != nil)
		check(rs, "after restore")
		checkInventory(c, sp, "after restore into empty store", rs)
		for i := 0; i < 5; i++ {
			rs.stepNoReload()
			rs.checkRanking(i == 4)
		}
		rs.reload()
		rs.checkRanking(true)
		rs.checkStructure()
	}
	// New ID (or the same one, as when replacing a list) next to the original.
	cid := rankdb.ListID("copy")
	if r.Intn(3) == 0 {
		cid = s.id
	}
	rs, err := restored(s.spy, cid, idp(string(cid)), b)
	s.must(err, "RestoreList under a new ID")
	check(rs, "after restore under new ID")
	if d := diffStores(before, s.spy.snapshot(), func(k skey) bool { _, ok := before[k]; return !ok }); d != "" {
		c.Failf("restoring under a new ID changed the original's storage: %s", d)
	}
	checkInventory(c, s.spy, "after restore under a new ID", s, rs)
	for i := 0; i < 5; i++ {
		x, y := rs, s
		if r.Intn(2) == 0 {
			x, y = s, rs
		}
		x.stepNoReload()
		y.checkRanking(false)
		x.checkRanking(i == 4)
	}
	s.must(rs.l.DeleteAll(s.ctx, s.bs), "DeleteAll of restored list")
	s.checkRanking(true)
	checkInventory(c, s.spy, "after deleting the restored list", s)

	// Corruptions: into a fork of the store holding the (changed) original.
	fork := s.spy.fork()
	holds := fork.snapshot()
	reject := func(what string, src []byte) {
		var nid *rankdb.ListID
		if r.Intn(2) == 0 {
			nid = idp("copy")
		}
		rs, err := restored(fork, "x", nid, src)
		if err == nil {
			c.Failf("restoring a stream with %s (%d of %d bytes) succeeded with %v", what, len(src), len(b), rs.l)
		}
		if d := diffStores(holds, fork.snapshot(), nil); d != "" {
			c.Failf("failed restore of a stream with %s changed storage: %s", what, d)
		}
		c.Count("rejected_"+what, 1)
	}
	step := 1
	if len(b) > 400 {
		step = len(b)/400 + 1
	}
	for k := r.Intn(step); k < len(b); k += step {
		reject("truncated", b[:k])
	}
	for k := 1; k < 12 && k < len(b); k++ {
		reject("truncated", b[:len(b)-k])
	}
	c.Tick()
	// The failing reader returns its error.
	for i := 0; i < 10; i++ {
		e := fmt.Errorf("read failure %d", i)
		k := r.Intn(len(b))
		rd := rankdb.NewReaderMsgpReader(&failReader{b: b, n: k, err: e})
		if _, err := rankdb.RestoreList(s.ctx, fork, rd, nil, idp("copy")); err == nil {
			c.Failf("restore from a reader failing after %d of %d bytes succeeded", k, len(b))
		}
		c.Count("failing_readers", 1)
	}
	// Wrong version.
	for _, v := range []byte{0, 2, 7, 127, 128, 255} {
		nb := append([]byte{}, b...)
		nb[0] = v
		reject("wrong-version", nb)
	}
	// Changed bytes.
	for i := 0; i < 150; i++ {
		nb := append([]byte{}, b...)
		for k := 1 + r.Intn(3); k > 0; k-- {
			p := r.Intn(len(nb))
			if r.Intn(2) == 0 {
				nb[p] ^= 1 << uint(r.Intn(8))
			} else {
				nb[p] = byte(r.Intn(256))
			}
		}
		if r.Intn(8) == 0 { // remove a piece
			p := r.Intn(len(nb))
			q := p + r.Intn(len(nb)-p)
			nb = append(nb[:p:p], nb[q:]...)
		}
		if hugeHeader(nb) {
			c.Count("skipped_huge", 1)
			continue
		}
		f := newSpy()
		l, err := rankdb.RestoreList(s.ctx, f, rankdb.NewReaderMsgp(nb), nil, idp("copy"))
		if err != nil {
			c.Count("rejected_changed", 1)
			continue
		}
		c.Count("accepted_changed", 1)
		got, err := l.GetRankTop(s.ctx, f, 0, snap.len()+10)
		if err != nil && !(snap.len() == 0 && errors.Is(err, rankdb.ErrOffsetOutOfBounds)) {
			c.Count("accepted_then_error", 1)
			continue
		}
		if len(got) != snap.len() {
			c.Failf("a stream with changed bytes was restored with %d of %d elements", len(got), snap.len())
		}
	}
	c.Tick()
	// Write faults while restoring.
	for i := 0; i < 6; i++ {
		f := newSpy()
		at := int64(1 + r.Intn(12))
		hit := false
		f.onCall = func(n int64, op, set, key string) faultMode {
			if n == at {
				hit = true
				return faultError
			}
			return faultNone
		}
		l, err := rankdb.RestoreList(s.ctx, f, rankdb.NewReaderMsgp(b), nil, idp("copy"))
		f.onCall = nil
		if hit && err == nil {
			c.Failf("restore with a failing storage call %d succeeded", at)
		}
		if err == nil {
			got, err := l.Len(s.ctx, f)
			if err != nil || got != snap.len() {
				c.Failf("restored %d elements (%v), want %d", got, err, snap.len())
			}
		}
		if hit {
			c.Count("restore_write_faults", 1)
		}
	}
	// Restoring the backup over the changed original with its exact identity.
	rs, err = restored(s.spy, s.id, nil, b)
	s.must(err, "RestoreList over the original")
	check(rs, "after restoring over the original")
	for i := 0; i < 4; i++ {
		rs.stepNoReload()
		rs.checkRanking(true)
	}
	c.Sig(len(b), snap.len())
	c.Sample("%d elements in %d bytes, sizes %d/%d", snap.len(), len(b), s.merge, s.split)
}

func idp(s string) *rankdb.ListID { id := rankdb.ListID(s); return &id }
