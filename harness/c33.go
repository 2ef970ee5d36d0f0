package main

import (
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/blobstore"
)

func init() {
	register(&Check{ID: "C33", Race: true, Quick: 160, Thorough: 4000, Run: runC33,
		Rule:   "one case = an interval saver over a changing directory, or a list splitter over several lists, on a store that fails, is slow or recovers; the sequence of writes is checked for cadence, the stored directory and backup are decoded and compared after a bounded number of saves, and segments that must be split are searched in the stored lists",
		Assume: []string{"the backup is due every BackupEvery saves; one save more is accepted"}})
}

func runC33(c *C) {
	switch c.Idx % 4 {
	case 0, 1:
		runSaver(c)
	case 2:
		runSplitterFaults(c)
	default:
		runSplitQueue(c)
	}
}

// saverLog records the saves of an interval saver.
type saverLog struct {
	mu       sync.Mutex
	main     int // attempts
	mainOK   int
	bk       int
	bkOK     int
	sinceBk  int // directory saves since the last backup attempt
	mostGap  int
	failMain bool
	failBk   bool
}

func (s *saverLog) get() saverLog {
	s.mu.Lock()
	defer s.mu.Unlock()
	return saverLog{main: s.main, mainOK: s.mainOK, bk: s.bk, bkOK: s.bkOK, mostGap: s.mostGap, sinceBk: s.sinceBk}
}

func runSaver(c *C) {
	r := c.Rng
	bs, bback := newSpy(), newSpy()
	d := newDirSim(c, bs)
	mode := pick(r, []string{"plain", "plain", "slow", "never"})
	every := time.Duration(300+r.Intn(1500)) * time.Microsecond
	if mode == "never" {
		every = 0
	}
	n := 0
	hasBackup := r.Intn(4) > 0
	if hasBackup {
		n = pick(r, []int{0, 1, 2, 3, 5, 8})
		d.m.Backup, d.m.BackupEvery = blobstore.StoreWithSet(bback, "bset"), n
	} else {
		d.m.BackupEvery = r.Intn(3)
	}
	var lg saverLog
	var slow int64
	bs.onCall = func(_ int64, op, set, key string) faultMode {
		if set != "dir" || op != "set" {
			return faultNone
		}
		if d := atomic.LoadInt64(&slow); d > 0 {
			time.Sleep(time.Duration(d))
		}
		lg.mu.Lock()
		defer lg.mu.Unlock()
		lg.main++
		lg.sinceBk++
		if lg.sinceBk > lg.mostGap {
			lg.mostGap = lg.sinceBk
		}
		if lg.failMain {
			return faultError
		}
		lg.mainOK++
		return faultNone
	}
	bback.onCall = func(_ int64, op, set, key string) faultMode {
		if op != "set" {
			return faultNone
		}
		lg.mu.Lock()
		defer lg.mu.Unlock()
		lg.bk++
		lg.sinceBk = 0
		if lg.failBk {
			return faultError
		}
		lg.bkOK++
		return faultNone
	}
	fail := func(main, bk bool) {
		lg.mu.Lock()
		lg.failMain, lg.failBk = main, bk
		lg.mu.Unlock()
	}
	wait := func(what string, cond func(saverLog) bool) {
		for t0 := time.Now(); !cond(lg.get()); time.Sleep(100 * time.Microsecond) {
			c.Tick()
			if time.Since(t0) > 30*time.Second {
				g := lg.get()
				c.Failf("interval saver (every %v, backup every %d): no %s within 30 seconds (%d saves, %d succeeded, %d backups)", every, n, what, g.main, g.mainOK, g.bk)
			}
		}
	}
	stop := make(chan chan struct{})
	d.m.StartIntervalSaver(d.ctx, every, stop)
	loaded := func(fromBackup bool) map[string]listState {
		b := bs.fork()
		if fromBackup {
			b.drop("dir", "lists")
		}
		m, err := rankdb.NewManager(b, "dir")
		if err != nil {
			c.Failf("NewManager: %v", err)
		}
		if fromBackup {
			m.Backup = blobstore.StoreWithSet(bback.fork(), "bset")
		}
		if err := m.LoadLists(d.ctx, nil); err != nil {
			c.Failf("loading the directory (from backup %v): %v", fromBackup, err)
		}
		return d.stateOf(m, false)
	}
	change := func() {
		for i := 1 + r.Intn(3); i > 0; i-- {
			id := d.ids()
			if d.mod[id] == nil {
				d.m.Lists.Add(d.newList(id, r.Intn(3)))
			}
		}
		for _, id := range d.sorted() {
			if r.Intn(5) == 0 {
				d.m.Lists.Delete(id)
				delete(d.mod, id)
			}
		}
	}
	rounds := 2 + r.Intn(4)
	trace := ""
	for i := 0; i < rounds && mode != "never"; i++ {
		c.Tick()
		failMain, failBk := r.Intn(4) == 0, r.Intn(4) == 0
		fail(failMain, failBk)
		change()
		at := lg.get()
		// The save running now may have begun before the change.
		wait("further saves", func(g saverLog) bool { return g.main >= at.main+2 })
		if n > 0 {
			wait("further backups", func(g saverLog) bool { return g.bk >= at.bk+2 })
		}
		want := d.stateOf(d.m, false)
		if !failMain {
			if df := diffDirs(loaded(false), want); df != "" {
				c.Failf("directory two saves after a change (failing backup %v): %s", failBk, df)
			}
			c.Count("directories_checked", 1)
		}
		if n > 0 && !failBk {
			if df := diffDirs(loaded(true), want); df != "" {
				c.Failf("backup two backups after a change (failing directory %v): %s", failMain, df)
			}
			c.Count("backups_checked", 1)
		}
		trace += fmt.Sprintf(" fail %v/%v", failMain, failBk)
		c.Sig(failMain, failBk, n, len(want))
	}
	if mode == "never" {
		change()
		time.Sleep(time.Duration(1+r.Intn(15)) * time.Millisecond)
		if g := lg.get(); g.main+g.bk != 0 {
			c.Failf("%d saves and %d backups although the interval is 0", g.main, g.bk)
		}
	}
	g := lg.get()
	if n == 0 && g.bk != 0 {
		c.Failf("%d backups although BackupEvery is 0", g.bk)
	}
	if n > 0 && mode != "never" && g.mostGap > n+1 {
		// mostGap counts from the save that made the backup.
		c.Failf("%d directory saves in a row without a backup, although one is due every %d", g.mostGap, n)
	}
	// Shut down. A save in progress and the last one may take long.
	fail(false, false)
	if mode == "slow" {
		atomic.StoreInt64(&slow, int64(time.Duration(5+r.Intn(30))*time.Millisecond))
		if r.Intn(2) == 0 {
			time.Sleep(2 * time.Millisecond) // a slow save is likely in progress
		}
	}
	change()
	v := make(chan struct{})
	select {
	case stop <- v:
	case <-time.After(60 * time.Second):
		c.Failf("the saver does not take the shutdown request")
	}
	select {
	case <-v:
	case <-time.After(60 * time.Second):
		c.Failf("the saver does not finish its shutdown")
	}
	done := lg.get()
	if df := diffDirs(loaded(false), d.stateOf(d.m, false)); df != "" {
		c.Failf("directory when the saver reported completion (%s store): %s", mode, df)
	}
	time.Sleep(time.Duration(2+r.Intn(4))*time.Millisecond + time.Duration(atomic.LoadInt64(&slow)))
	if g := lg.get(); g.main != done.main || g.bk != done.bk {
		c.Failf("the saver writes after it reported completion")
	}
	c.Count("saves", int64(done.main))
	c.Count("backups", int64(done.bk))
	c.Count("shutdowns_"+mode, 1)
	c.NonTrivial()
	c.Sample("saver every %v, backup every %d (%v), %s:%s, %d saves, %d backups", every, n, hasBackup, mode, trace, done.main, done.bk)
}

// serviceLists makes a few lists, each in its own set, in one manager.
func serviceLists(c *C, sp *spy, n int) ([]*sim, *rankdb.Manager) {
	cache, cname := randCache(c.Rng)
	mgr := newMgr(c, sp, cache)
	var ss []*sim
	for i := 0; i < n; i++ {
		s := newSim(c)
		s.spy, s.bs, s.mgr, s.cache, s.cname = sp, sp, mgr, cache, cname
		s.id, s.set = rankdb.ListID(fmt.Sprintf("list%d", i)), fmt.Sprintf("s%d", i)
		s.g.kind, s.g.ties, s.g.lateUpd = pick(c.Rng, []int{1, 2, 5}), 3, false
		x := pick(c.Rng, [][2]int{{2, 4}, {3, 8}, {4, 10}, {8, 24}})
		s.merge, s.split = x[0], x[1]
		s.create(pick(c.Rng, []int{0, 3, 10}))
		ss = append(ss, s)
	}
	return ss, mgr
}

// grow adds elements until the stored list must be split.
func (s *sim) grow() {
	for i := 0; i < 200; i++ {
		if why, err := s.oversized(); err == nil && why != "" {
			return
		}
		b := s.g.fresh(s.mod, 1+s.r.Intn(s.split))
		for i := range b {
			b[i].Updated = 1 + uint32(s.r.Intn(1000))
		}
		if s.r.Intn(2) == 0 {
			s.insert(b)
		} else {
			s.update(b, 0, false)
		}
	}
}

func (s *sim) awaitSplit(when string) {
	for t0 := time.Now(); ; time.Sleep(time.Millisecond) {
		why, err := s.oversized()
		if err == nil && why == "" {
			return
		}
		s.c.Tick()
		if time.Since(t0) > 20*time.Second {
			s.c.Failf("%s: list %s is not split after 20 seconds: %s (%v)", when, s.id, why, err)
		}
	}
}

// undersized returns a description of stored neighbouring segments that
// should be one, or "".
func (s *sim) undersized() (string, error) {
	sc, ix := listRefs(s.l)
	for _, x := range []struct{ name, id string }{{"scores", sc}, {"index", ix}} {
		ss, err := readSegs(s.spy, s.set, x.id, true)
		if err != nil {
			return "", err
		}
		for i := 1; i < len(ss.Segs); i++ {
			if a, b := len(ss.Segs[i-1].Elems), len(ss.Segs[i].Elems); a+b < s.merge {
				return fmt.Sprintf("%s segments %d and %d hold %d and %d elements, merge size is %d", x.name, i-1, i, a, b, s.merge), nil
			}
		}
	}
	return "", nil
}

func stopService(c *C, ch chan chan struct{}) {
	v := make(chan struct{})
	for _, f := range []func() bool{
		func() bool {
			select {
			case ch <- v:
				return true
			case <-time.After(60 * time.Second):
			}
			return false
		},
		func() bool {
			select {
			case <-v:
				return true
			case <-time.After(60 * time.Second):
			}
			return false
		}} {
		if !f() {
			c.Failf("a background service does not shut down")
		}
	}
}

// runSplitterFaults lets splits of one list fail while others must be split.
func runSplitterFaults(c *C) {
	r := c.Rng
	sp := newSpy()
	ss, mgr := serviceLists(c, sp, 2+r.Intn(3))
	bad := ss[r.Intn(len(ss))]
	op := pick(r, []string{"set", "get", ""})
	gone := r.Intn(3) == 0
	stop := make(chan chan struct{})
	var broken int32
	faults := func(on bool) {
		v := int32(0)
		if on {
			v = 1
		}
		atomic.StoreInt32(&broken, v)
	}
	sp.onCall = func(_ int64, o, set, key string) faultMode {
		if atomic.LoadInt32(&broken) != 0 && set == bad.set && (op == "" || o == op) {
			return faultError
		}
		return faultNone
	}
	restart := r.Intn(2) == 0
	// Grow all lists, so all splits are requested.
	for _, s := range ss {
		s.grow()
		c.Logf("list %s has %d elements, sizes %d/%d", s.id, s.mod.len(), s.merge, s.split)
	}
	if gone {
		// The list is deleted before it is split.
		if err := mgr.DeleteList(c.Ctx, bad.id); err != nil {
			c.Failf("DeleteList: %v", err)
		}
	} else {
		if r.Intn(2) == 0 {
			bad.l.ReleaseSegments(bad.ctx)
			if bad.cache != nil {
				for _, s := range ss {
					s.l.ReleaseSegments(s.ctx)
				}
			}
		}
		faults(true)
	}
	mgr.StartListSplitter(quiet(c.Ctx), sp, stop)
	for _, s := range ss {
		if s != bad {
			s.awaitSplit(fmt.Sprintf("while splits of %s fail (%q, deleted %v)", bad.id, op, gone))
			s.checkRanking(false)
			c.Count("split_next_to_failing", 1)
		}
	}
	if gone {
		stopService(c, stop)
		var rest []*sim
		for _, s := range ss {
			if s != bad {
				s.checkStructure()
				rest = append(rest, s)
			}
		}
		checkInventory(c, sp, "after a queued split of a deleted list", rest...)
		c.Count("deleted_while_queued", 1)
	} else {
		for t0 := time.Now(); atomic.LoadInt64(&sp.failed) == 0 && time.Since(t0) < time.Second; {
			time.Sleep(100 * time.Microsecond) // the split is requested, but may be served from memory
		}
		failed := atomic.LoadInt64(&sp.failed)
		// No split may be running while the store recovers.
		if restart {
			stopService(c, stop)
		} else {
			// The requests are served in order, by one splitter.
			for _, s := range ss {
				if s != bad {
					s.grow()
					s.awaitSplit("after the split of another list failed")
				}
			}
			c.Count("splitter_kept_running", 1)
		}
		faults(false)
		if failed > 0 {
			c.Count("failed_splits", 1)
		}
		if op == "get" {
			// Some segments may have been split before one could not be read.
			bad.must(bad.l.Repair(bad.ctx, sp, false), "Repair")
		}
		bad.checkRanking(true)
		if restart {
			bad.checkStructure()
			stop = make(chan chan struct{})
			mgr.StartListSplitter(quiet(c.Ctx), sp, stop)
		} else {
			bad.grow()
		}
		b := bad.g.fresh(bad.mod, 1)
		b[0].Updated = 5
		bad.update(b, 0, false)
		bad.awaitSplit("after the store recovered")
		stopService(c, stop)
		for _, s := range ss {
			s.checkRanking(true)
			s.checkStructure()
			s.must(s.l.VerifyElements(s.ctx, s.bs), "VerifyElements")
		}
		checkInventory(c, sp, "after the store recovered", ss...)
	}
	c.Sig(op, gone, restart, len(ss), bad.split, bad.mod.len())
	c.NonTrivial()
	c.Sample("%d lists, splits of %s fail (%q, deleted %v, splitter restarted %v)", len(ss), bad.id, op, gone, restart)
}

// runSplitQueue requests more splits than the queue takes while no splitter runs.
func runSplitQueue(c *C) {
	r := c.Rng
	sp := newSpy()
	if c.Idx%16 == 15 {
		runManySplits(c)
		return
	}
	ss, mgr := serviceLists(c, sp, 1+r.Intn(3))
	for _, s := range ss {
		s.grow()
	}
	reqs := pick(r, []int{10, 1050, 1200})
	for i := 0; i < reqs; i++ {
		s := ss[r.Intn(len(ss))]
		c.Tick()
		// Each write to an oversized list requests a split.
		id := pick(r, ids(s.mod.list()))
		e := s.mod.m[id]
		if e.Updated == 0 {
			e.Updated = 1
		}
		e.Payload = []byte(fmt.Sprint(i))
		if _, err := s.l.UpdateElements(s.ctx, s.bs, cps([]Elem{e}), 0, false); err != nil {
			c.Failf("update %d while no splitter runs: %v", i, err)
		}
		s.mod.put(e)
	}
	stop := make(chan chan struct{})
	mgr.StartListSplitter(quiet(c.Ctx), sp, stop)
	for _, s := range ss {
		s.awaitSplit(fmt.Sprintf("%d split requests before the splitter started", reqs))
	}
	// Lists that shrink are merged while they are used.
	for _, s := range ss {
		l := s.mod.list()
		var d []EID
		for i, e := range l {
			if i != len(l)/2 {
				d = append(d, e.ID)
			}
		}
		r.Shuffle(len(d), func(i, j int) { d[i], d[j] = d[j], d[i] })
		keep := r.Intn(len(d)/3 + 1)
		s.del(d[keep:])
		for t0 := time.Now(); ; time.Sleep(time.Millisecond) {
			why, err := s.undersized()
			if err == nil && why == "" {
				break
			}
			c.Tick()
			if time.Since(t0) > 20*time.Second {
				c.Failf("segments of a list that shrank to %d elements are not merged in 20 seconds of use: %s (%v)", s.mod.len(), why, err)
			}
			e := s.mod.list()[0]
			if e.Updated == 0 {
				e.Updated = 1
			}
			e.Payload = []byte("used")
			s.mod.put(e)
			if _, err := s.l.UpdateElements(s.ctx, s.bs, cps([]Elem{e}), 0, false); err != nil {
				c.Failf("UpdateElements: %v", err)
			}
			c.Count("uses_until_merged", 1)
		}
	}
	stopService(c, stop)
	for _, s := range ss {
		s.checkRanking(true)
		s.checkStructure()
	}
	checkInventory(c, sp, "after splitting", ss...)
	c.Count("queued_requests", int64(reqs))
	c.Sig(reqs, len(ss), ss[0].mod.len())
	c.NonTrivial()
	c.Sample("%d split requests for %d lists before the splitter starts", reqs, len(ss))
}

// runManySplits has more lists to split than the queue takes. Those that did not
// get in are split when they are used again.
func runManySplits(c *C) {
	r := c.Rng
	sp := newSpy()
	ss, mgr := serviceLists(c, sp, 1010+r.Intn(200))
	for _, s := range ss {
		s.grow()
		c.Tick()
	}
	stop := make(chan chan struct{})
	mgr.StartListSplitter(quiet(c.Ctx), sp, stop)
	again := 0
	for _, s := range ss {
		for t0 := time.Now(); ; time.Sleep(time.Millisecond) {
			why, err := s.oversized()
			if err == nil && why == "" {
				break
			}
			c.Tick()
			if time.Since(t0) > 20*time.Second {
				c.Failf("%d lists had to be split; %s is not after 20 seconds of use: %s (%v)", len(ss), s.id, why, err)
			}
			if time.Since(t0) < 20*time.Millisecond {
				continue
			}
			again++
			e := s.mod.list()[0]
			if e.Updated == 0 {
				e.Updated = 1
			}
			e.Payload = []byte("used")
			s.mod.put(e)
			if _, err := s.l.UpdateElements(s.ctx, s.bs, cps([]Elem{e}), 0, false); err != nil {
				c.Failf("UpdateElements: %v", err)
			}
		}
	}
	stopService(c, stop)
	for _, s := range ss {
		s.checkRanking(false)
	}
	checkInventory(c, sp, "after splitting", ss...)
	c.Count("lists_split", int64(len(ss)))
	c.Count("uses_until_split", int64(again))
	c.Sig(len(ss), again)
	c.NonTrivial()
	c.Sample("%d lists to split", len(ss))
}
