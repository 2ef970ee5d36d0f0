package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/backup"
	"github.com/Vivino/rankdb/backup/file"
	"github.com/Vivino/rankdb/backup/reader"
	"github.com/klauspost/compress/zstd"
	"github.com/tinylib/msgp/msgp"
)

func init() {
	register(&Check{ID: "C30", Race: true, Quick: 1000, Thorough: 6000, Run: runC30,
		Rule:   "one case = a backup job over a random selection of healthy, damaged, changing and missing lists to a file, pipe or failing destination, polled by several goroutines and sometimes cancelled at a storage access; the stream is then restored under a prefix and suffix over existing lists, with storage faults, and the report of both is compared with what is really restored; every 17th case starts two real servers and sends backups to files, downloads, each other and broken destinations, with polling, cancellation and clients that leave, and restores them from bodies, files and URLs, complete and incomplete",
		Assume: []string{"a list that is modified while it is backed up is restored as it was at some time during the job", "a cancelled job may leave lists unreported and its stream may end without a terminator"}})
}

// memSaver collects a backup and fails when told to.
type memSaver struct {
	mu       sync.Mutex
	buf      bytes.Buffer
	saveErr  error
	failAt   int // fail writes beyond this many bytes, <0: never
	closeErr error
	delay    func()
	closed   int
}

func (m *memSaver) Save(ctx context.Context) (io.WriteCloser, error) {
	if m.saveErr != nil {
		return nil, m.saveErr
	}
	return m, nil
}

func (m *memSaver) Write(b []byte) (int, error) {
	if m.delay != nil {
		m.delay()
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.failAt >= 0 && m.buf.Len()+len(b) > m.failAt {
		n := m.failAt - m.buf.Len()
		if n < 0 {
			n = 0
		}
		m.buf.Write(b[:n])
		return n, errInjected
	}
	return m.buf.Write(b)
}

func (m *memSaver) Close() error {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.closed++
	return m.closeErr
}

// changing is a list that one goroutine modifies during the job.
type changing struct {
	*sim
	mu     sync.Mutex
	states []string
}

func contentKey(e []Elem) string {
	var sb strings.Builder
	for _, x := range e {
		sb.WriteString(es(x))
	}
	return sb.String()
}

func runC30(c *C) {
	if c.Idx%17 == 7 {
		runC30Server(c)
		return
	}
	r := c.Rng
	sp := newSpy()
	ctx := quiet(c.Ctx)
	cache, _ := randCache(r)
	mgr := newMgr(c, sp, cache)
	sims := map[rankdb.ListID]*sim{}
	var all []rankdb.ListID
	n := r.Intn(8)
	for i := 0; i < n; i++ {
		s := newSim(c)
		s.spy, s.bs, s.mgr, s.cache = sp, sp, mgr, cache
		s.id = rankdb.ListID(fmt.Sprintf("%s%d", pick(r, []string{"list", "l ist/", "a", "ü"}), i))
		s.set = pick(r, []string{"set", "set2"})
		s.create(r.Intn(60))
		for j := r.Intn(4); j > 0; j-- {
			s.stepNoReload()
		}
		sims[s.id] = s
		all = append(all, s.id)
	}
	// Damaged lists cannot be backed up.
	broken := map[rankdb.ListID]bool{}
	for _, id := range all {
		if r.Intn(5) != 0 {
			continue
		}
		s := sims[id]
		if s.mod.len() == 0 {
			continue
		}
		sc, _ := listRefs(s.l)
		ss, err := readSegs(sp, s.set, sc, true)
		s.must(err, "reading stored state")
		sg := ss.Segs[r.Intn(len(ss.Segs))]
		s.l.ReleaseSegments(ctx)
		if p, ok := cache.(interface{ Purge() }); ok {
			p.Purge()
		}
		if r.Intn(2) == 0 {
			sp.drop(s.set, sg.Key)
		} else {
			sp.put(s.set, sg.Key, []byte{2, 0xdc, 0xff})
		}
		broken[id] = true
	}
	if len(broken) > 0 {
		// The caches of the other lists are shared and purged.
		for _, id := range all {
			sims[id].l.ReleaseSegments(ctx)
		}
	}
	// Selection.
	sel := rankdb.ListIDs{}
	missing := map[rankdb.ListID]bool{}
	for _, id := range all {
		if r.Intn(5) > 0 {
			sel = append(sel, id)
		}
	}
	for i := r.Intn(3); i > 0; i-- {
		id := rankdb.ListID(fmt.Sprintf("missing%d", i))
		missing[id] = true
		sel = append(sel, id)
	}
	r.Shuffle(len(sel), func(i, j int) { sel[i], sel[j] = sel[j], sel[i] })
	selected := map[rankdb.ListID]bool{}
	for _, id := range sel {
		selected[id] = true
	}

	// Lists that change while they are backed up.
	chg := map[rankdb.ListID]*changing{}
	for _, id := range sel {
		if !missing[id] && !broken[id] && r.Intn(4) == 0 {
			chg[id] = &changing{sim: sims[id], states: []string{contentKey(sims[id].mod.list())}}
		}
	}

	// Destination.
	var sav backup.Saver
	mem := &memSaver{failAt: -1}
	var fileName string
	var rdBuf bytes.Buffer
	rdDone := make(chan struct{})
	kind := pick(r, []string{"mem", "mem", "file", "reader", "save-error", "write-error", "close-error", "delayed", "reader-abort"})
	var errCh chan error
	bad := false
	switch kind {
	case "mem":
		sav = mem
	case "delayed":
		sav = mem
		errCh = make(chan error, 1)
		if bad = r.Intn(2) == 0; bad {
			errCh <- errInjected
		} else {
			errCh <- nil
		}
	case "file":
		fileName = filepath.Join(c.TempDir(), "backup.bin")
		sav = file.New(fileName)
	case "reader", "reader-abort":
		x := reader.NewReader()
		sav = x
		limit := int64(1 << 40)
		if kind == "reader-abort" {
			limit = int64(r.Intn(400))
			bad = true
		}
		go func() {
			defer close(rdDone)
			o := x.Output()
			io.CopyN(&rdBuf, o, limit)
			o.Close()
		}()
	case "save-error":
		mem.saveErr, bad = errInjected, true
		sav = mem
	case "write-error":
		mem.failAt, bad = r.Intn(600), true
		sav = mem
	case "close-error":
		mem.closeErr, bad = errInjected, true
		sav = mem
	}
	mem.delay = jitter(c.Seed+1, 10, 200*time.Microsecond)
	sp.delay = jitter(c.Seed, pick(r, []int{0, 10, 40}), 300*time.Microsecond)

	// Cancellation at a storage access of the job.
	var id backup.ID
	idSet := make(chan struct{})
	var cancelled, jobOver int32
	var cancelAt int64 = -1
	if r.Intn(3) == 0 && len(chg) == 0 {
		cancelAt = int64(r.Intn(30))
	}
	base := atomic.LoadInt64(&sp.calls)
	if cancelAt >= 0 {
		sp.onCall = func(n int64, op, set, key string) faultMode {
			if n-base == cancelAt+1 {
				select {
				case <-idSet:
				case <-time.After(10 * time.Second):
					return faultNone
				}
				id.Cancel()
				atomic.StoreInt32(&cancelled, 1)
			}
			return faultNone
		}
	}
	req := backup.Request{DB: mgr, Dst: sav, Lists: append(rankdb.ListIDs{}, sel...)}
	if errCh != nil {
		req.ErrCh = errCh
	}
	c.Logf("backup of %q (broken %v, missing %v, changing %d) to %s, cancel at access %d", sel, broken, missing, len(chg), kind, cancelAt)
	if st := backup.ID("no such id").Status(); st != nil {
		c.Failf("an unknown backup ID has a status: %+v", st)
	}
	t0 := time.Now()
	id = req.Start(ctx)
	close(idSet)
	var wg sync.WaitGroup
	stopChg := make(chan struct{})
	for lid, k := range chg {
		wg.Add(1)
		go func(lid rankdb.ListID, k *changing, r *rand.Rand) {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					c.FailAsync("changing list %q: %v", lid, x)
				}
			}()
			for i := 0; ; i++ {
				select {
				case <-stopChg:
					return
				default:
				}
				if i > 300 {
					time.Sleep(time.Millisecond)
					continue
				}
				b := k.g.fresh(k.mod, 1)
				for _, x := range k.g.existing(k.mod, r.Intn(3)) {
					b = append(b, k.g.mutate(k.mod, x))
				}
				m := k.mod.clone()
				m.put(b...)
				// The state becomes visible somewhere during the update.
				k.mu.Lock()
				k.states = append(k.states, contentKey(m.list()))
				k.mu.Unlock()
				if _, err := k.l.UpdateElements(ctx, sp, cps(b), 0, false); err != nil {
					c.FailAsync("update of list %q during backup: %v", lid, err)
					return
				}
				k.mod.put(b...)
			}
		}(lid, k, rand.New(rand.NewSource(r.Int63())))
	}
	for i := range chg {
		// The generators share the case's random source.
		chg[i].g.r = rand.New(rand.NewSource(int64(i[0]) + c.Seed))
		chg[i].sim.r = chg[i].g.r
	}
	// Pollers.
	var polls int64
	var final *backup.Status
	var fmu sync.Mutex
	var pw sync.WaitGroup
	for p := 0; p < 1+r.Intn(3); p++ {
		pw.Add(1)
		go func(r *rand.Rand) {
			defer pw.Done()
			last := 0
			var lastSize int64
			deadline := time.Now().Add(90 * time.Second)
			for {
				st := id.Status()
				atomic.AddInt64(&polls, 1)
				c.Tick()
				if st == nil {
					c.FailAsync("a started job has no status")
					return
				}
				if st.Lists != len(sel) {
					c.FailAsync("status total is %d, want %d", st.Lists, len(sel))
				}
				if st.ListsDone < last || st.ListsDone > st.Lists || st.ListsDone < 0 {
					c.FailAsync("progress went from %d to %d of %d", last, st.ListsDone, st.Lists)
				}
				if st.Size < lastSize {
					c.FailAsync("size went from %d to %d", lastSize, st.Size)
				}
				last, lastSize = st.ListsDone, st.Size
				for _, ok := range st.Success {
					if !selected[rankdb.ListID(ok)] {
						c.FailAsync("status lists %q as successful, which was not selected", ok)
					}
				}
				if st.Done != (st.Finished != nil) {
					c.FailAsync("status done %v with finish time %v", st.Done, st.Finished)
				}
				if st.Done {
					fmu.Lock()
					if final == nil {
						final = st
					}
					fmu.Unlock()
					return
				}
				if time.Now().After(deadline) {
					c.FailAsync("backup job does not finish: %+v", *st)
					return
				}
				// A returned status belongs to the caller.
				st.Errors["poller"], st.Custom["poller"] = "x", "y"
				for i := range st.Success {
					st.Success[i] = "poller"
				}
				if r.Intn(3) == 0 {
					time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
				}
			}
		}(rand.New(rand.NewSource(r.Int63())))
	}
	pw.Wait()
	atomic.StoreInt32(&jobOver, 1)
	close(stopChg)
	wg.Wait()
	sp.onCall, sp.delay = nil, nil
	c.CheckAsync()
	if kind == "reader" || kind == "reader-abort" {
		select {
		case <-rdDone:
		case <-time.After(20 * time.Second):
			c.Failf("the backup is done, but its output was not closed")
		}
	}
	st := id.Status()
	if !reflect.DeepEqual(st.Success, final.Success) || !reflect.DeepEqual(st.Errors, final.Errors) || st.Size != final.Size || st.Cancelled != final.Cancelled {
		c.Failf("status changed after it was done: %+v then %+v", *final, *st)
	}
	c.Count("polls", polls)
	c.Count("dest_"+kind, 1)
	wasCancelled := atomic.LoadInt32(&cancelled) != 0
	c.Logf("status: success %q errors %v cancelled %v size %d", st.Success, st.Errors, st.Cancelled, st.Size)
	if st.Cancelled != wasCancelled {
		c.Failf("job was cancelled: %v, status says %v", wasCancelled, st.Cancelled)
	}
	if st.Started.Before(t0.Add(-time.Second)) || st.Finished.Before(st.Started) {
		c.Failf("job started %v, finished %v", st.Started, st.Finished)
	}
	if wasCancelled {
		c.Count("cancelled_jobs", 1)
	}
	if st.ListsDone < len(st.Success) {
		c.Failf("%d lists done, %d successful", st.ListsDone, len(st.Success))
	}
	success := map[rankdb.ListID]bool{}
	for _, s := range st.Success {
		if success[rankdb.ListID(s)] {
			c.Failf("list %q is reported successful twice", s)
		}
		success[rankdb.ListID(s)] = true
	}
	if bad && len(st.Errors) == 0 && !wasCancelled {
		full := kind == "write-error" && mem.buf.Len() < mem.failAt || kind == "reader-abort"
		if !full {
			c.Failf("destination failed (%s), but no error is reported", kind)
		}
	}
	if bad && kind == "delayed" && len(success) > 0 {
		c.Failf("the destination reported %v in the end, but %d lists are reported as backed up", errInjected, len(success))
	}
	for k := range st.Errors {
		switch k {
		case "saver", "finalizing", "compress", "delayed_error":
			if !bad && !wasCancelled {
				c.Failf("healthy destination, but the status reports %s: %s", k, st.Errors[k])
			}
		default:
			if !selected[rankdb.ListID(k)] {
				c.Failf("status reports an error for %q, which was not selected", k)
			}
		}
	}
	for _, lid := range sel {
		_, failed := st.Errors[string(lid)]
		if failed && st.Errors[string(lid)] == "" {
			c.Failf("list %q failed without a reason", lid)
		}
		if failed && success[lid] {
			c.Failf("list %q is reported as both successful and failed", lid)
		}
		switch {
		case missing[lid] || broken[lid]:
			if success[lid] {
				c.Failf("list %q (missing %v, damaged %v) is reported as backed up", lid, missing[lid], broken[lid])
			}
			if !failed && !wasCancelled && !bad {
				c.Failf("list %q could not be backed up, but is not reported", lid)
			}
		case !bad && !wasCancelled && !success[lid]:
			c.Failf("list %q is not reported as backed up: %q", lid, st.Errors[string(lid)])
		case !failed && !success[lid] && !wasCancelled && kind != "save-error":
			c.Failf("list %q is neither successful nor failed", lid)
		}
	}
	// What was written.
	var data []byte
	switch kind {
	case "file":
		var err error
		if data, err = os.ReadFile(fileName); err != nil {
			c.Failf("reading backup file: %v", err)
		}
	case "reader", "reader-abort":
		data = rdBuf.Bytes()
	default:
		data = mem.buf.Bytes()
		if mem.saveErr == nil && mem.closed != 1 {
			c.Failf("destination was closed %d times", mem.closed)
		}
	}
	if !bad && st.Size != int64(len(data)) {
		c.Failf("status size is %d, %d bytes were written", st.Size, len(data))
	}
	if len(success) == 0 && bad {
		c.NonTrivial()
		c.Sig("bad", kind, len(sel), len(st.Errors))
		return
	}

	// Restore somewhere else, over existing lists.
	dsp := newSpy()
	dcache, _ := randCache(r)
	dmgr := newMgr(c, dsp, dcache)
	pre, suf := pick(r, []string{"", "", "pre-", "x"}), pick(r, []string{"", "", ".suf", "2"})
	replace := r.Intn(2) == 0
	exist := map[rankdb.ListID]*sim{}
	cand := append([]rankdb.ListID{}, sel...)
	cand = append(cand, "unrelated")
	for _, lid := range cand {
		if r.Intn(3) != 0 && lid != "unrelated" {
			continue
		}
		s := newSim(c)
		s.spy, s.bs, s.mgr, s.cache = dsp, dsp, dmgr, dcache
		s.id = rankdb.ListID(pre) + lid + rankdb.ListID(suf)
		if lid == "unrelated" {
			s.id = "unrelated"
		}
		s.set = pick(r, []string{"set", "dset"})
		s.create(r.Intn(30))
		exist[s.id] = s
	}
	dstID := func(id rankdb.ListID) rankdb.ListID { return rankdb.ListID(pre) + id + rankdb.ListID(suf) }
	failing := map[rankdb.ListID]bool{}
	failSet := ""
	if r.Intn(3) == 0 {
		failSet = pick(r, []string{"set", "set2"})
		for lid := range success {
			if sims[lid].set == failSet {
				failing[dstID(lid)] = true
			}
		}
		dsp.onCall = func(n int64, op, set, key string) faultMode {
			if op == "set" && set == failSet {
				return faultError
			}
			return faultNone
		}
	}
	// A list may be created by someone else during the restore.
	var born *sim
	var bornIn int32
	if !replace && failSet == "" && r.Intn(2) == 0 {
		for _, lid := range cand {
			d := dstID(lid)
			if !success[lid] || exist[d] != nil {
				continue
			}
			born = newSim(c)
			born.spy, born.bs, born.cache, born.id, born.set = dsp, dsp, dcache, d, "born"
			born.mgr = newMgr(c, newSpy(), dcache)
			born.create(r.Intn(30))
			born.mgr = dmgr
			break
		}
	}
	if born != nil {
		at := int64(1 + r.Intn(12))
		if r.Intn(3) == 0 {
			at = int64(1 + r.Intn(100))
		}
		var sets int64
		dsp.onCall = func(n int64, op, set, key string) faultMode {
			if op == "set" && atomic.AddInt64(&sets, 1) == at && dmgr.Lists.AddNew(born.l) {
				atomic.StoreInt32(&bornIn, 1)
			}
			return faultNone
		}
	}
	var src backup.Loader = backup.WrapReader{ReadCloser: io.NopCloser(bytes.NewReader(data))}
	if r.Intn(4) == 0 {
		name := fileName
		if kind != "file" {
			name = filepath.Join(c.TempDir(), "restored.bin")
			if err := os.WriteFile(name, data, 0o600); err != nil {
				panic(err)
			}
		}
		if _, err := (&backup.RestoreInfo{Source: file.New(name + ".none"), DB: dmgr}).Restore(ctx); err == nil {
			c.Failf("restoring from a file that does not exist succeeds")
		}
		src = file.New(name)
		c.Count("restored_from_file", 1)
	}
	ri := backup.RestoreInfo{Source: src, DB: dmgr, Replace: replace, Cache: dcache, ListIDPrefix: pre, ListIDSuffix: suf}
	res, err := ri.Restore(ctx)
	dsp.onCall = nil
	if born != nil {
		if atomic.LoadInt32(&bornIn) != 0 {
			exist[born.id] = born
			c.Count("created_during_restore", 1)
		} else {
			born.must(born.l.DeleteAll(ctx, dsp), "DeleteAll")
		}
	}
	if err != nil && !(wasCancelled || len(success) == 0) {
		c.Failf("restoring a backup reported successful for %q: %v", st.Success, err)
	}
	if wasCancelled && len(success) == 0 && err == nil && res == nil {
		c.Failf("restore returned nothing")
	}
	skipped, restored := 0, 0
	for lid := range success {
		d := dstID(lid)
		switch {
		case exist[d] != nil && !replace:
			skipped++
		case failing[d]:
		default:
			restored++
		}
	}
	if err == nil {
		if res.Restored != restored || res.Skipped != skipped {
			c.Failf("restore reports %d restored %d skipped, want %d %d (%v)", res.Restored, res.Skipped, restored, skipped, res.Failed)
		}
		for d := range failing {
			if exist[d] != nil && !replace {
				continue
			}
			if res.Failed[string(d)] == "" {
				c.Failf("list %q could not be restored, but is not reported: %v", d, res.Failed)
			}
		}
		for d := range res.Failed {
			if !failing[rankdb.ListID(d)] {
				c.Failf("restore of %q reported as failed: %s", d, res.Failed[d])
			}
		}
	}
	want := map[rankdb.ListID]bool{}
	var final2 []*sim
	clean := true
	for lid := range success {
		d := dstID(lid)
		old := exist[d]
		if (old != nil && !replace) || failing[d] {
			if failing[d] {
				clean = false
			}
			continue
		}
		delete(exist, d)
		want[d] = true
		l, ok := dmgr.Lists.ByID(d)
		if !ok {
			c.Failf("list %q is reported as backed up, but not restored as %q", lid, d)
		}
		s := *sims[lid]
		src := &s
		src.c, src.ctx = c, ctx
		src.bs, src.spy, src.l, src.mgr, src.id = dsp, dsp, l, dmgr, d
		got, err := l.GetRankTop(ctx, dsp, 0, 1<<20)
		if errors.Is(err, rankdb.ErrOffsetOutOfBounds) {
			err = nil
		}
		if err != nil {
			c.Failf("reading restored list %q: %v", d, err)
		}
		if k := chg[lid]; k != nil {
			ok := false
			key := contentKey(got)
			for _, x := range k.states {
				ok = ok || x == key
			}
			if !ok {
				c.Failf("list %q was changed during the backup; the restored content (%d elements) is none of its %d states", lid, len(got), len(k.states))
			}
			src.mod = newModel()
			src.mod.put(got...)
			c.Count("changing_lists_restored", 1)
		}
		src.g = newElemGen(r)
		src.checkMeta(l)
		src.checkRanking(true)
		src.checkStructure()
		final2 = append(final2, src)
		c.Count("lists_restored", 1)
	}
	for d, s := range exist {
		l, ok := dmgr.Lists.ByID(d)
		if !ok || l != s.l {
			c.Failf("existing list %q was replaced or removed: present %v", d, ok)
		}
		want[d] = true
		s.checkMeta(l)
		s.checkRanking(true)
		final2 = append(final2, s)
	}
	for _, d := range dmgr.Lists.All() {
		if !want[d] {
			c.Failf("after the restore there is a list %q", d)
		}
	}
	if clean {
		checkInventory(c, dsp, "after restore", final2...)
	}
	if !bad && !wasCancelled && len(data) > 0 {
		cutRestore(c, ctx, data, success, sims, chg)
	}
	// The source is as it was.
	for _, lid := range all {
		if !broken[lid] {
			sims[lid].checkRanking(false)
			checkUnlocked(c, ctx, sims[lid].l, "after backup")
		}
	}
	var ks []string
	for k := range st.Errors {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	c.Sig(kind, len(sel), len(success), len(broken), len(chg), replace, pre, suf, len(failing), wasCancelled)
	if len(success) > 0 {
		c.NonTrivial()
	}
	c.Sample("%d lists to %s: %d successful, errors for %q, cancelled %v, %d polls; restored %d, skipped %d, replace %v prefix %q suffix %q", len(sel), kind, len(success), ks, wasCancelled, polls, restored, skipped, replace, pre, suf)
}

// cutRestore restores parts of a stream: that it is incomplete is reported, and
// there are only complete lists afterwards.
func cutRestore(c *C, ctx context.Context, data []byte, success map[rankdb.ListID]bool, sims map[rankdb.ListID]*sim, chg map[rankdb.ListID]*changing) {
	r := c.Rng
	zr, err := zstd.NewReader(bytes.NewReader(data))
	if err != nil {
		c.Failf("backup is not readable: %v", err)
	}
	plain, err := io.ReadAll(zr)
	zr.Close()
	if err != nil {
		c.Failf("backup is not readable: %v", err)
	}
	// Where the lists begin.
	ends, ok := splitBackup(plain)
	if ok && len(ends) != len(success) {
		c.Failf("backup has %d lists, %d are reported as backed up", len(ends), len(success))
	}
	for i := 0; i < 3; i++ {
		cut := r.Intn(len(plain))
		if len(ends) > 0 && r.Intn(2) == 0 {
			cut = ends[r.Intn(len(ends))]
			if r.Intn(3) == 0 && cut+1 < len(plain) {
				cut++
			}
		}
		var buf bytes.Buffer
		zw, err := zstd.NewWriter(&buf)
		if err != nil {
			panic(err)
		}
		zw.Write(plain[:cut])
		if err := zw.Close(); err != nil {
			panic(err)
		}
		part := buf.Bytes()
		var src io.Reader = bytes.NewReader(part)
		what := fmt.Sprintf("restore of %d of %d bytes", cut, len(plain))
		switch r.Intn(4) {
		case 0:
			n := r.Intn(len(part))
			src = bytes.NewReader(part[:n])
			what += fmt.Sprintf(", cut to %d of %d compressed", n, len(part))
		case 1:
			src = failingReader{src}
			what += ", then a read error"
		}
		sp := newSpy()
		mgr := newMgr(c, sp, nil)
		ri := backup.RestoreInfo{Source: backup.WrapReader{ReadCloser: io.NopCloser(src)}, DB: mgr, Replace: r.Intn(2) == 0}
		res, err := ri.Restore(ctx)
		if err == nil {
			c.Failf("%s: it is incomplete, but succeeded: %+v", what, res)
		}
		full := 0
		for _, e := range ends {
			if e <= cut {
				full++
			}
		}
		ids := mgr.Lists.All()
		if ok && len(ids) > full {
			c.Failf("%s: it has %d lists, there are %d", what, full, len(ids))
		}
		var left []*sim
		for _, id := range ids {
			if !success[id] {
				c.Failf("%s: list %q is not part of the backup", what, id)
			}
			l, _ := mgr.Lists.ByID(id)
			s := *sims[id]
			s.c, s.ctx, s.bs, s.spy, s.l, s.mgr, s.cache = c, ctx, sp, sp, l, mgr, nil
			got, err := l.GetRankTop(s.ctx, sp, 0, 1<<20)
			if err != nil && !errors.Is(err, rankdb.ErrOffsetOutOfBounds) {
				c.Failf("%s: list %q: %v", what, id, err)
			}
			if k := chg[id]; k != nil {
				ok, key := false, contentKey(got)
				for _, x := range k.states {
					ok = ok || x == key
				}
				if !ok {
					c.Failf("%s: list %q has %d elements, none of its %d states", what, id, len(got), len(k.states))
				}
				s.mod = newModel()
				s.mod.put(got...)
			}
			s.checkRanking(false)
			left = append(left, &s)
		}
		checkInventory(c, sp, what, left...)
		c.Count("cut_streams", 1)
		if len(ids) > 0 {
			c.Count("cut_streams_with_lists", 1)
		}
	}
}

// splitBackup returns where the lists of a backup end, if it is in the known
// format.
func splitBackup(b []byte) ([]int, bool) {
	var ends []int
	size := len(b)
	for {
		more, rest, err := msgp.ReadBoolBytes(b)
		if err != nil {
			return nil, false
		}
		if b = rest; !more {
			return ends, len(b) == 0
		}
		if _, b, err = msgp.ReadUint8Bytes(b); err == nil {
			if _, b, err = msgp.ReadStringBytes(b); err == nil {
				_, b, err = msgp.ReadBytesBytes(b, nil)
			}
		}
		if err != nil {
			return nil, false
		}
		ends = append(ends, size-len(b))
	}
}
