package main

import (
	"bytes"
	"compress/flate"
	"context"
	"errors"
	"fmt"
	"io"
	"reflect"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/blobstore"
	"github.com/klauspost/compress/zstd"
)

// dirEntry is what the model knows about a list.
type dirEntry struct {
	set  string
	meta map[string]string
	l    *rankdb.List
}

type dirSim struct {
	c   *C
	ctx context.Context
	bs  blobstore.Store
	m   *rankdb.Manager
	mod map[rankdb.ListID]*dirEntry
	ids func() rankdb.ListID
}

func newDirSim(c *C, bs blobstore.Store) *dirSim {
	d := &dirSim{c: c, ctx: quiet(c.Ctx), bs: bs, mod: map[rankdb.ListID]*dirEntry{}}
	m, err := rankdb.NewManager(bs, "dir")
	if err != nil {
		c.Failf("NewManager: %v", err)
	}
	if err := m.NewLists(newCache("arc", 64)); err != nil {
		c.Failf("NewLists: %v", err)
	}
	d.m = m
	r := c.Rng
	switch r.Intn(5) {
	case 0:
		d.ids = func() rankdb.ListID { return rankdb.ListID(fmt.Sprint(r.Intn(300))) }
	case 1:
		d.ids = func() rankdb.ListID { return rankdb.ListID(fmt.Sprintf("list-%05d", r.Intn(400))) }
	case 2: // prefixes of each other
		d.ids = func() rankdb.ListID {
			b := make([]byte, 1+r.Intn(5))
			for i := range b {
				b[i] = "ab"[r.Intn(2)]
			}
			return rankdb.ListID(b)
		}
	case 3:
		d.ids = func() rankdb.ListID {
			return rankdb.ListID(pick(r, []string{"é", "z", "Z", "世", "\x01", "~", " "}) + fmt.Sprint(r.Intn(40)))
		}
	default:
		d.ids = func() rankdb.ListID {
			b := make([]byte, 1+r.Intn(3))
			r.Read(b)
			return rankdb.ListID(b)
		}
	}
	return d
}

var dirSets = []string{"set", "other", "s3", "x/y"}

func (d *dirSim) randMeta() map[string]string {
	r := d.c.Rng
	if r.Intn(4) == 0 {
		return nil
	}
	m := map[string]string{}
	for _, k := range []string{"a", "b", "c", "", "ab"} {
		if r.Intn(2) == 0 {
			m[k] = pick(r, []string{"", "1", "2", "v"})
		}
	}
	return m
}

func (d *dirSim) newList(id rankdb.ListID, n int) *rankdb.List {
	r := d.c.Rng
	opt := rankdb.WithListOption
	e := &dirEntry{set: pick(r, dirSets), meta: d.randMeta()}
	ss := pick(r, splitSizes)
	opts := []rankdb.ListOption{opt.Metadata(e.meta), opt.MergeSplitSize(ss[0], ss[1]), opt.LoadIndex(r.Intn(3) == 0)}
	if n > 0 {
		g := newElemGen(r)
		opts = append(opts, opt.Populate(cps(g.fresh(newModel(), n))))
	}
	l, err := rankdb.NewList(d.ctx, id, e.set, d.bs, opts...)
	if err != nil {
		d.c.Failf("NewList: %v", err)
	}
	e.l = l
	d.mod[id] = e
	return l
}

func (d *dirSim) sorted() []rankdb.ListID {
	var out []rankdb.ListID
	for id := range d.mod {
		out = append(out, id)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func lids(ls []*rankdb.List) []rankdb.ListID {
	out := make([]rankdb.ListID, 0, len(ls))
	for _, l := range ls {
		if l == nil {
			out = append(out, "<nil>")
			continue
		}
		out = append(out, l.ID)
	}
	return out
}

func sameIDs(a, b []rankdb.ListID) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (d *dirSim) checkAfter(from rankdb.ListID, n int) {
	all := d.sorted()
	i := sort.Search(len(all), func(i int) bool { return all[i] > from })
	got, pg := d.m.Lists.SortedIDsAfter(from, n)
	d.c.Count("pages_checked", 1)
	if n <= 0 {
		if len(got) != 0 {
			d.c.Failf("SortedIDsAfter(%q,%d) returned %d lists", from, n, len(got))
		}
		return
	}
	end := i + n
	if end > len(all) {
		end = len(all)
	}
	if !sameIDs(lids(got), all[i:end]) {
		d.c.Failf("SortedIDsAfter(%q,%d) returned %q, want %q", from, n, lids(got), all[i:end])
	}
	if pg.Before != i || pg.After != len(all)-end {
		d.c.Failf("SortedIDsAfter(%q,%d): before %d after %d, want %d %d", from, n, pg.Before, pg.After, i, len(all)-end)
	}
	d.checkObjects(got)
}

func (d *dirSim) checkBefore(to rankdb.ListID, n int) {
	all := d.sorted()
	i := sort.Search(len(all), func(i int) bool { return all[i] >= to })
	got, pg := d.m.Lists.SortedIDsBefore(to, n)
	d.c.Count("pages_checked", 1)
	if n <= 0 {
		if len(got) != 0 {
			d.c.Failf("SortedIDsBefore(%q,%d) returned %d lists", to, n, len(got))
		}
		return
	}
	st := i - n
	if st < 0 {
		st = 0
	}
	if !sameIDs(lids(got), all[st:i]) {
		d.c.Failf("SortedIDsBefore(%q,%d) returned %q, want %q", to, n, lids(got), all[st:i])
	}
	if pg.Before != st || pg.After != len(all)-i {
		d.c.Failf("SortedIDsBefore(%q,%d): before %d after %d, want %d %d", to, n, pg.Before, pg.After, st, len(all)-i)
	}
	d.checkObjects(got)
}

func (d *dirSim) checkObjects(ls []*rankdb.List) {
	for _, l := range ls {
		if e := d.mod[l.ID]; e == nil || e.l != l {
			d.c.Failf("directory returned another list object for %q", l.ID)
		}
	}
}

func (d *dirSim) randID() rankdb.ListID {
	all := d.sorted()
	switch x := d.c.Rng.Intn(10); {
	case x < 5 && len(all) > 0:
		return pick(d.c.Rng, all)
	case x == 5:
		return ""
	case x == 6:
		return "\xff\xff\xff\xff\xff"
	}
	return d.ids()
}

func (d *dirSim) matches(e *dirEntry, q map[string]string, sets []string) bool {
	for _, s := range sets {
		if s == e.set {
			return true
		}
	}
	if len(q) == 0 {
		return false
	}
	for k, v := range q {
		if w, ok := e.meta[k]; !ok || v != w {
			return false
		}
	}
	return true
}

func (d *dirSim) randQuery() (map[string]string, []string) {
	r := d.c.Rng
	var sets []string
	for _, s := range append([]string{"nosuchset", ""}, dirSets...) {
		if r.Intn(4) == 0 {
			sets = append(sets, s)
		}
	}
	if len(sets) > 0 && r.Intn(4) == 0 {
		sets = append(sets, sets[0])
	}
	var q map[string]string
	for n := r.Intn(4); n > 0; n-- {
		if q == nil {
			q = map[string]string{}
		}
		q[pick(r, []string{"a", "b", "c", "", "ab", "missing"})] = pick(r, []string{"", "1", "2", "v"})
	}
	return q, sets
}

func (d *dirSim) checkMatch() {
	q, sets := d.randQuery()
	var want []rankdb.ListID
	for _, id := range d.sorted() {
		if d.matches(d.mod[id], q, sets) {
			want = append(want, id)
		}
	}
	got := d.m.Lists.MatchAll(q, sets)
	sort.Slice(got, func(i, j int) bool { return got[i] < got[j] })
	if !sameIDs(got, want) {
		d.c.Failf("MatchAll(%q, %q) returned %q, want %q", q, sets, got, want)
	}
	d.c.Count("matches_checked", 1)
	if len(want) > 0 && len(want) < len(d.mod) {
		d.c.Count("matches_selective", 1)
	}
}

func (d *dirSim) checkLookups() {
	var req, want []rankdb.ListID
	for i := 0; i < 12; i++ {
		id := d.randID()
		req = append(req, id)
		if d.mod[id] != nil {
			want = append(want, id)
		}
		l, ok := d.m.Lists.ByID(id)
		if e := d.mod[id]; ok != (e != nil) || (ok && l != e.l) {
			d.c.Failf("ByID(%q) found %v", id, ok)
		}
	}
	got := d.m.Lists.Exists(req...)
	if !sameIDs(got, want) {
		d.c.Failf("Exists(%q) returned %q, want %q", req, got, want)
	}
	ls := d.m.Lists.ByIDs(req...)
	if len(ls) != len(req) {
		d.c.Failf("ByIDs of %d IDs returned %d", len(req), len(ls))
	}
	for i, l := range ls {
		if e := d.mod[req[i]]; (l == nil) != (e == nil) || (l != nil && l != e.l) {
			d.c.Failf("ByIDs: entry %d (%q) wrong", i, req[i])
		}
	}
	all := []rankdb.ListID(d.m.Lists.All())
	sort.Slice(all, func(i, j int) bool { return all[i] < all[j] })
	if !sameIDs(all, d.sorted()) {
		d.c.Failf("All returned %q, want %q", all, d.sorted())
	}
}

func (d *dirSim) walk(n int) {
	var fw []rankdb.ListID
	from := rankdb.ListID("")
	for i := 0; ; i++ {
		ls, _ := d.m.Lists.SortedIDsAfter(from, n)
		if len(ls) == 0 {
			break
		}
		fw = append(fw, lids(ls)...)
		from = ls[len(ls)-1].ID
		if i > len(d.mod)+3 {
			d.c.Failf("walking forward with page size %d does not end", n)
		}
	}
	if !sameIDs(fw, d.sorted()) {
		d.c.Failf("walking forward with page size %d visits %q, want %q", n, fw, d.sorted())
	}
	var bw []rankdb.ListID
	to := rankdb.ListID("\xff\xff\xff\xff\xff\xff")
	for i := 0; ; i++ {
		ls, _ := d.m.Lists.SortedIDsBefore(to, n)
		if len(ls) == 0 {
			break
		}
		bw = append(lids(ls), bw...)
		to = ls[0].ID
		if i > len(d.mod)+3 {
			d.c.Failf("walking backward with page size %d does not end", n)
		}
	}
	if !sameIDs(bw, d.sorted()) {
		d.c.Failf("walking backward with page size %d visits %q, want %q", n, bw, d.sorted())
	}
	d.c.Count("walks", 2)
}

func runC18(c *C) {
	r := c.Rng
	d := newDirSim(c, newSpy())
	if c.Idx%4 == 3 {
		runC18conc(c, d)
		return
	}
	n := pick(r, []int{0, 1, 2, 3, 7, 30, 90})
	for i := 0; i < n; i++ {
		d.m.Lists.Add(d.newList(d.ids(), 0))
	}
	for step := 0; step < 8; step++ {
		for i := 0; i < 12; i++ {
			k := pick(r, []int{-1, 0, 1, 1, 2, 2, 3, 5, 10, len(d.mod), len(d.mod) + 2})
			d.checkAfter(d.randID(), k)
			d.checkBefore(d.randID(), k)
			d.checkMatch()
		}
		d.checkLookups()
		d.walk(1 + r.Intn(6))
		// Change.
		switch r.Intn(4) {
		case 0:
			id := d.randID()
			c.Logf("delete %q from directory", id)
			d.m.Lists.Delete(id)
			delete(d.mod, id)
		case 1:
			id := d.randID()
			c.Logf("delete list %q", id)
			if err := d.m.DeleteList(d.ctx, id); err != nil {
				c.Failf("DeleteList(%q): %v", id, err)
			}
			delete(d.mod, id)
		case 2: // several at once, possibly overwriting
			var ls []*rankdb.List
			for i := 1 + r.Intn(3); i > 0; i-- {
				ls = append(ls, d.newList(d.ids(), 0))
			}
			c.Logf("add %q", lids(ls))
			d.m.Lists.Add(ls...)
		case 3:
			if len(d.mod) > 0 {
				id := pick(r, d.sorted())
				c.Logf("overwrite %q", id)
				d.m.Lists.Add(d.newList(id, 0))
			}
		}
	}
	c.Max("lists", int64(len(d.mod)))
	c.Sig("seq", n, len(d.mod), c.Idx)
	c.NonTrivial()
	c.Sample("%d lists, paged, matched and changed", len(d.mod))
}

// runC18conc keeps a set of lists that never changes while others come and go.
func runC18conc(c *C, d *dirSim) {
	r := c.Rng
	fixed := map[rankdb.ListID]*dirEntry{}
	for i := 0; i < 40; i++ {
		d.m.Lists.Add(d.newList(d.ids(), 0))
	}
	for id, e := range d.mod {
		fixed[id] = e
	}
	// Lists that come and go, created up front, several objects per ID.
	type churn struct{ ls []*rankdb.List }
	var chs []churn
	universe := map[*rankdb.List]*dirEntry{}
	for _, e := range fixed {
		universe[e.l] = e
	}
	for i := 0; i < 24; i++ {
		id := d.ids()
		if fixed[id] != nil {
			continue
		}
		var ch churn
		for k := 0; k < 6; k++ {
			ch.ls = append(ch.ls, d.newList(id, 0))
			universe[ch.ls[k]] = d.mod[id]
		}
		chs = append(chs, ch)
	}
	type rq struct {
		q    map[string]string
		sets []string
	}
	var qs []rq
	for i := 0; i < 10; i++ {
		q, s := d.randQuery()
		qs = append(qs, rq{q, s})
	}
	var fsorted []rankdb.ListID
	for id := range fixed {
		fsorted = append(fsorted, id)
	}
	sort.Slice(fsorted, func(i, j int) bool { return fsorted[i] < fsorted[j] })

	var stop int32
	var wg, rwg sync.WaitGroup
	const W = 3
	for w := 0; w < W; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for it := 0; atomic.LoadInt32(&stop) == 0 && it < 1<<20; it++ {
				c.Tick()
				for i := w; i < len(chs); i += W {
					l := chs[i].ls[it%len(chs[i].ls)]
					if it < len(chs[i].ls) { // objects are handed to Add once
						d.m.Lists.Add(l)
					} else if it%2 == 0 {
						d.m.Lists.Delete(l.ID)
					}
				}
				if it == 6 {
					return
				}
				time.Sleep(time.Millisecond)
			}
		}(w)
	}
	seeds := []int64{r.Int63(), r.Int63(), r.Int63()}
	for k := range seeds {
		rwg.Add(1)
		go func(k int) {
			defer rwg.Done()
			rounds := 0
			for done := false; !done || rounds < 4; rounds++ {
				done = atomic.LoadInt32(&stop) != 0
				n := 1 + (k*7+rounds)%6
				var got []rankdb.ListID
				back := (k+rounds)%2 == 1
				at := rankdb.ListID("")
				if back {
					at = "\xff\xff\xff\xff\xff\xff"
				}
				for i := 0; i < 5000; i++ {
					c.Tick()
					var ls []*rankdb.List
					var pg rankdb.PageInfo
					if back {
						ls, pg = d.m.Lists.SortedIDsBefore(at, n)
					} else {
						ls, pg = d.m.Lists.SortedIDsAfter(at, n)
					}
					if pg.Before < 0 || pg.After < 0 || pg.Before+pg.After+len(ls) > len(fixed)+len(chs) {
						c.FailAsync("page counts before %d after %d of %d possible lists", pg.Before, pg.After, len(fixed)+len(chs))
					}
					if len(ls) == 0 {
						if (back && pg.Before > 0) || (!back && pg.After > 0) {
							continue // everything on this page was just deleted
						}
						break
					}
					p := lids(ls)
					for j := range p {
						if universe[ls[j]] == nil {
							c.FailAsync("page holds unknown list %q", p[j])
						}
						if j > 0 && p[j-1] >= p[j] {
							c.FailAsync("page not ascending: %q", p)
						}
					}
					if back {
						at = p[0]
						got = append(p, got...)
					} else {
						at = p[len(p)-1]
						got = append(got, p...)
					}
				}
				var gf []rankdb.ListID
				for j, id := range got {
					if j > 0 && got[j-1] >= id {
						c.FailAsync("walk visits %q after %q", id, got[j-1])
					}
					if fixed[id] != nil {
						gf = append(gf, id)
					}
				}
				if !sameIDs(gf, fsorted) {
					c.FailAsync("walk (back %v, page size %d) visits %q of the unchanging lists %q", back, n, gf, fsorted)
				}
				c.Count("concurrent_walks", 1)
				q := qs[rounds%len(qs)]
				res := map[rankdb.ListID]bool{}
				for _, id := range d.m.Lists.MatchAll(q.q, q.sets) {
					if res[id] {
						c.FailAsync("MatchAll returned %q twice", id)
					}
					res[id] = true
				}
				for id, e := range fixed {
					if res[id] != d.matches(e, q.q, q.sets) {
						c.FailAsync("MatchAll(%q,%q) includes %q: %v", q.q, q.sets, id, res[id])
					}
					if l, ok := d.m.Lists.ByID(id); !ok || l != e.l {
						c.FailAsync("ByID(%q) found %v", id, ok)
					}
				}
				if ex := d.m.Lists.Exists(fsorted...); !sameIDs(ex, fsorted) {
					c.FailAsync("Exists returned %q, want %q", ex, fsorted)
				}
			}
		}(k)
	}
	wg.Wait()
	atomic.StoreInt32(&stop, 1)
	rwg.Wait()
	c.CheckAsync()
	c.Sig("conc", len(chs), c.Idx)
	c.NonTrivial()
	c.Sample("%d fixed and %d changing lists, concurrent walks", len(fixed), len(chs))
}

// ---------------------------------------------------------------------------
// C19

// dirState describes a whole directory, including content.
type listState struct {
	ID, Set       string
	Merge, Split  int
	Load          bool
	Meta          map[string]string
	Scores, Index string
	Elems         Elems
}

func (d *dirSim) stateOf(m *rankdb.Manager, content bool) map[string]listState {
	out := map[string]listState{}
	for _, id := range m.Lists.All() {
		l, ok := m.Lists.ByID(id)
		if !ok {
			d.c.Failf("list %q from All not found", id)
		}
		out[string(id)] = d.stateOfList(l, content)
	}
	return out
}

func (d *dirSim) stateOfList(l *rankdb.List, content bool) listState {
	l.RLock()
	s := listState{ID: string(l.ID), Set: l.Set, Merge: l.MergeSize, Split: l.SplitSize, Load: l.LoadIndex,
		Scores: string(l.Scores), Index: string(l.Index), Meta: map[string]string{}}
	for k, v := range l.Metadata {
		s.Meta[k] = v
	}
	l.RUnlock()
	if content {
		n, err := l.Len(d.ctx, d.bs)
		if err != nil {
			d.c.Failf("Len of %q: %v", s.ID, err)
		}
		if n > 0 {
			e, err := l.GetRankTop(d.ctx, d.bs, 0, n)
			if err != nil {
				d.c.Failf("GetRankTop of %q: %v", s.ID, err)
			}
			s.Elems = cps(e)
			for i := range s.Elems {
				if len(s.Elems[i].Payload) == 0 {
					s.Elems[i].Payload = nil
				}
			}
		}
	}
	return s
}

func diffDirs(got, want map[string]listState) string {
	for id, w := range want {
		g, ok := got[id]
		if !ok {
			return fmt.Sprintf("list %q missing (%d of %d lists)", id, len(got), len(want))
		}
		if !reflect.DeepEqual(g, w) {
			return fmt.Sprintf("list %q is %+v, want %+v", id, g, w)
		}
	}
	for id := range got {
		if _, ok := want[id]; !ok {
			return fmt.Sprintf("unexpected list %q", id)
		}
	}
	return ""
}

type failWriter struct {
	left   int
	once   bool // only the first write past the limit fails
	n      int
	failed bool
}

func (f *failWriter) Write(p []byte) (int, error) {
	if f.left < 0 || f.once && f.failed {
		f.n += len(p)
		return len(p), nil
	}
	if len(p) > f.left {
		n := f.left
		f.left = 0
		f.failed = true
		return n, errInjected
	}
	f.left -= len(p)
	f.n += len(p)
	return len(p), nil
}

// directoryStream returns the stream of a stored directory without compression,
// or nil if it is not of the format that is known here.
func directoryStream(b []byte) []byte {
	if len(b) < 2 || b[0] != 0x17 {
		return nil
	}
	dec, err := zstd.NewReader(bytes.NewReader(b[1:]), zstd.WithDecoderConcurrency(1))
	if err != nil {
		return nil
	}
	defer dec.Close()
	plain, err := io.ReadAll(dec)
	if err != nil {
		return nil
	}
	return plain
}

// dirHugeHeaders reports whether the decompressed directory may announce a huge
// collection; decoding those exhausts memory (known finding of C22).
func dirHugeHeaders(b []byte) bool {
	if len(b) < 2 {
		return false
	}
	raw := b[1:]
	if b[0] == 0x17 {
		dec, err := zstd.NewReader(bytes.NewReader(b[1:]), zstd.WithDecoderConcurrency(1))
		if err != nil {
			return false
		}
		defer dec.Close()
		var buf bytes.Buffer
		tmp := make([]byte, 32<<10)
		for buf.Len() < 8<<20 {
			n, err := dec.Read(tmp)
			buf.Write(tmp[:n])
			if err != nil {
				break
			}
		}
		raw = buf.Bytes()
	}
	for i := 0; i+2 < len(raw); i++ {
		switch raw[i] {
		case 0xdd, 0xdf, 0xc6, 0xdb, 0xc9:
			if raw[i+1] != 0 || raw[i+2] > 8 {
				return true
			}
		}
	}
	return false
}

func runC19(c *C) {
	r := c.Rng
	bs := newSpy()
	d := newDirSim(c, bs)
	n := pick(r, []int{0, 1, 2, 5, 20, 60})
	big := c.Idx%40 == 39
	if big {
		n = 700 + r.Intn(1500)
	}
	for i := 0; i < n; i++ {
		size := pick(r, []int{0, 0, 1, 5, 40})
		if big {
			size = pick(r, []int{0, 0, 0, 0, 0, 3})
		}
		d.m.Lists.Add(d.newList(d.ids(), size))
	}
	bback := newSpy()
	withBackup := r.Intn(3) > 0
	load := func() (*rankdb.Manager, error) {
		m, err := rankdb.NewManager(bs, "dir")
		if err != nil {
			c.Failf("NewManager: %v", err)
		}
		if withBackup {
			m.Backup = blobstore.StoreWithSet(bback, "bset")
		}
		return m, m.LoadLists(d.ctx, newCache("lru", 16))
	}
	if withBackup {
		d.m.Backup = blobstore.StoreWithSet(bback, "bset")
	}
	// Nothing saved yet.
	if _, err := load(); err == nil {
		c.Failf("loading with neither a directory nor a backup stored succeeded")
	} else if !errors.Is(err, blobstore.ErrBlobNotFound) {
		c.Failf("loading a never saved directory: %v", err)
	}
	// First generation, with backup.
	if err := d.m.SaveLists(d.ctx, withBackup); err != nil {
		c.Failf("SaveLists: %v", err)
	}
	v1 := d.stateOf(d.m, true)
	if len(v1) != len(d.mod) {
		c.Failf("%d lists in the directory, want %d", len(v1), len(d.mod))
	}
	check := func(what string, wants ...map[string]listState) {
		m, err := load()
		if err != nil {
			c.Failf("%s: LoadLists: %v", what, err)
		}
		got := d.stateOf(m, true)
		diff := ""
		for _, w := range wants {
			df := diffDirs(got, w)
			if df == "" {
				c.Count("loads_checked", 1)
				return
			}
			diff += df + " / "
		}
		c.Failf("%s: loaded directory differs: %s", what, diff)
	}
	check("first save", v1)
	// Second generation: lists are added and removed. Old content stays readable
	// since removed lists are only removed from the directory.
	for i := 1 + r.Intn(4); i > 0; i-- {
		id := d.ids()
		if d.mod[id] != nil {
			continue
		}
		d.m.Lists.Add(d.newList(id, r.Intn(10)))
	}
	for _, id := range d.sorted() {
		if r.Intn(6) == 0 {
			d.m.Lists.Delete(id)
			delete(d.mod, id)
		}
	}
	v2 := d.stateOf(d.m, true)
	// A failed save leaves the old one loadable.
	{
		with := withBackup && r.Intn(2) == 0
		mode := pick(r, []faultMode{faultError, faultError, faultAfter})
		inBackup := with && r.Intn(2) == 0
		f := func(_ int64, op, set, key string) faultMode {
			if op == "set" {
				return mode
			}
			return faultNone
		}
		if inBackup {
			bback.onCall = f
		} else {
			bs.onCall = f
		}
		err := d.m.SaveLists(d.ctx, with)
		bs.onCall, bback.onCall = nil, nil
		if err == nil {
			c.Failf("SaveLists reports success although the store failed (backup %v, failing backup %v)", with, inBackup)
		}
		check("after failed save", v1, v2)
		c.Count("failed_saves", 1)
		// Backup must be whole as well.
		if withBackup {
			blob, _ := bs.raw("dir", "lists")
			bs.drop("dir", "lists")
			check("backup after failed save", v1, v2)
			bs.put("dir", "lists", blob)
		}
	}
	// Start from known generations: backup v1, directory v2.
	v1blob, _ := bback.raw("bset", "lists-backup")
	_ = v1blob
	bdir := v1
	if withBackup {
		m, _ := rankdb.NewManager(bs, "dir")
		m.Backup = blobstore.StoreWithSet(bback, "bset")
		bs.drop("dir", "lists")
		if err := m.LoadLists(d.ctx, nil); err != nil {
			c.Failf("LoadLists from backup: %v", err)
		}
		bdir = d.stateOf(m, true)
	}
	if err := d.m.SaveLists(d.ctx, false); err != nil {
		c.Failf("SaveLists: %v", err)
	}
	check("second save", v2)
	good, ok := bs.raw("dir", "lists")
	if !ok {
		c.Failf("no directory stored after SaveLists")
	}
	c.Max("directory_bytes", int64(len(good)))
	// Directories are also read uncompressed, and deflated as they once were.
	if plain := directoryStream(good); plain != nil {
		bs.put("dir", "lists", append([]byte{7}, plain...))
		check("directory stored uncompressed", v2)
		for i := 0; i < 2; i++ {
			var buf bytes.Buffer
			fw, err := flate.NewWriter(&buf, pick(r, []int{flate.NoCompression, flate.BestSpeed, flate.DefaultCompression, flate.HuffmanOnly}))
			if err != nil {
				c.Failf("flate: %v", err)
			}
			fw.Write(plain)
			fw.Close()
			bs.put("dir", "lists", buf.Bytes())
			check("directory stored deflated", v2)
			if !withBackup {
				bs.put("dir", "lists", buf.Bytes()[:r.Intn(buf.Len())])
				if _, err := load(); err == nil {
					c.Failf("a truncated deflated directory is accepted")
				}
				bs.put("dir", "lists", append([]byte{7}, plain[:r.Intn(len(plain))]...))
				if _, err := load(); err == nil {
					c.Failf("a truncated uncompressed directory is accepted")
				}
			}
			c.Count("other_formats_loaded", 1)
		}
		bs.put("dir", "lists", good)
	} else {
		c.Count("directory_format_unknown", 1)
	}
	// Damage.
	try := func(what string, b []byte) {
		if b != nil && dirHugeHeaders(b) {
			c.Count("damage_skipped_huge", 1)
			return
		}
		if b == nil {
			bs.drop("dir", "lists")
		} else {
			bs.put("dir", "lists", b)
		}
		c.Logf("directory damaged: %s", what)
		m, err := load()
		c.Count("damaged_loads", 1)
		if err != nil {
			if withBackup {
				c.Failf("directory %s: loading fails although the backup is intact: %v", what, err)
			}
			c.Count("damage_rejected", 1)
			return
		}
		got := d.stateOf(m, true)
		d2 := diffDirs(got, v2)
		if d2 == "" {
			return
		}
		if withBackup {
			d1 := diffDirs(got, bdir)
			if d1 == "" {
				c.Count("backup_used", 1)
				return
			}
			c.Failf("directory %s: loaded directory is neither the saved one (%s) nor the backup (%s)", what, d2, d1)
		}
		c.Failf("directory %s: damaged directory accepted: %s", what, d2)
	}
	try("missing", nil)
	try("empty", []byte{})
	cuts := 12
	if len(good) <= 300 {
		cuts = 24
	}
	if big {
		cuts = 3
	}
	for i := 0; i < cuts; i++ {
		k := r.Intn(len(good))
		if r.Intn(3) == 0 && len(good) > 12 {
			k = len(good) - 1 - r.Intn(12)
		}
		try(fmt.Sprintf("truncated to %d of %d bytes", k, len(good)), append([]byte{}, good[:k]...))
	}
	for i := 0; i < cuts; i++ {
		b := append([]byte{}, good...)
		k := r.Intn(len(b))
		if r.Intn(4) == 0 {
			k = r.Intn(min(len(b), 20))
		}
		old := b[k]
		b[k] = byte(pick(r, []int{0, 255, 0xc3, 0xc2, int(old) ^ 1<<uint(r.Intn(8)), r.Intn(256)}))
		if b[k] == old {
			b[k] ^= 0x80
		}
		try(fmt.Sprintf("byte %d changed from %#x to %#x", k, old, b[k]), b)
	}
	if withBackup {
		// Without a backup the directory must not be taken for a missing one,
		// which would be replaced by an empty one.
		old, hadBackup := bback.raw("bset", "lists-backup")
		for i := 0; i < 4; i++ {
			bback.drop("bset", "lists-backup")
			bs.put("dir", "lists", good[:r.Intn(len(good))])
			what := "truncated directory and no backup"
			switch i {
			case 1:
				bs.put("dir", "lists", good)
				what = "unreadable directory and no backup"
				bs.onCall = func(_ int64, op, set, key string) faultMode {
					if op == "get" && key == "lists" {
						return faultError
					}
					return faultNone
				}
			case 2:
				what = "truncated directory and backup"
				bback.put("bset", "lists-backup", good[:r.Intn(len(good))])
			case 3:
				what = "missing directory and unreadable backup"
				bs.drop("dir", "lists")
				bback.onCall = func(int64, string, string, string) faultMode { return faultError }
			}
			_, err := load()
			bs.onCall, bback.onCall = nil, nil
			if err == nil {
				c.Failf("%s: loading succeeds", what)
			}
			if errors.Is(err, blobstore.ErrBlobNotFound) {
				c.Failf("%s: loading reports that nothing is stored: %v", what, err)
			}
			c.Count("both_unusable", 1)
		}
		bback.drop("bset", "lists-backup")
		if hadBackup {
			bback.put("bset", "lists-backup", old)
		}
	}
	bs.put("dir", "lists", good)
	check("repaired directory", v2)
	// Saving to a writer failing at any point reports it.
	full := &failWriter{left: -1}
	if err := d.m.Lists.Save(d.ctx, full); err != nil {
		c.Failf("Lists.Save: %v", err)
	}
	for i := 0; i < 8; i++ {
		k := r.Intn(full.n)
		if i == 0 {
			k = full.n - 1
		} else if i < 3 {
			k = i - 1
		}
		fw := &failWriter{left: k, once: r.Intn(2) == 0}
		if err := d.m.Lists.Save(d.ctx, fw); err == nil && fw.failed {
			c.Failf("Lists.Save reports success although the writer failed after %d of %d bytes", k, full.n)
		}
		c.Count("failed_writers", 1)
	}
	c.Sig(n, withBackup, len(v2), c.Idx)
	c.NonTrivial()
	c.Sample("%d then %d lists, backup %v, directory of %d bytes", len(v1), len(v2), withBackup, len(good))
}

func init() {
	register(&Check{ID: "C18", Race: true, Quick: 400, Thorough: 8000, Run: runC18,
		Rule: "each case builds a random directory (five ID families, four sets, random metadata, 0-90 lists), checks forward and backward pages of all sizes with counts, complete walks, matching, existence and lookups against a sorted reference after every change; every fourth case walks and matches concurrently with lists being added and removed, under the race detector, requiring every unchanging list exactly once"})
	register(&Check{ID: "C19", Quick: 240, Thorough: 5000, Run: runC19,
		Rule: "each case saves two generations of a random directory (0-60 lists with content, every 40th case up to 2200), loads them in new managers and compares every field and element; fails the save in store and backup; stores it uncompressed and deflated; truncates and corrupts the stored directory at random places requiring the saved generation, the backup generation or an error; fails the output writer at random offsets"})
}
