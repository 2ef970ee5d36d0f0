package main

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"sync"
	"syscall"
	"time"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/blobstore/boltstore"
	"github.com/etcd-io/bbolt"
)

func init() {
	subs["bolt"] = subBolt
	register(&Check{ID: "C29", Quick: 320, Thorough: 2400, Run: runC29,
		Rule: "one case = several rounds in which a child process writing to a bolt store (raw blobs from concurrent writers, or lists through the list API with splits, reindexing and directory saves) announces and acknowledges each operation through a pipe and is killed with SIGKILL at a random announcement, acknowledgement or random time in between; the store is then reopened, checked by bolt, and every key or element compared with the acknowledged operations; a round starts from the recovered state of the previous one",
		Assume: []string{"a killed process loses no data it handed to the kernel (power loss is not simulated)",
			"replacing the whole content of a list (Populate) is acknowledged when the directory was saved afterwards"}})
}

// wop is one announced operation of a child.
type wop struct {
	N     int
	W     int // writer
	Ack   bool
	Err   string `json:",omitempty"`
	Kind  string
	Set   string  `json:",omitempty"`
	Key   string  `json:",omitempty"`
	Val   []byte  `json:",omitempty"`
	Nil   bool    `json:",omitempty"`
	Elems []welem `json:",omitempty"`
	IDs   []EID   `json:",omitempty"`
}

type welem struct {
	ID  EID
	S   uint64
	T   uint32
	U   uint32
	P   []byte `json:",omitempty"`
	Nil bool   `json:",omitempty"`
}

func toW(es []Elem) (out []welem) {
	for _, e := range es {
		out = append(out, welem{e.ID, e.Score, e.TieBreaker, e.Updated, e.Payload, e.Payload == nil})
	}
	return
}

func fromW(es []welem) (out []Elem) {
	for _, e := range es {
		x := Elem{ID: e.ID, Score: e.S, TieBreaker: e.T, Updated: e.U, Payload: e.P}
		if x.Payload == nil && !e.Nil {
			x.Payload = []byte{}
		}
		out = append(out, x)
	}
	return
}

// childState is what a child starts from.
type childState struct {
	Seed    int64
	Writers int
	Round   int
	Halt    bool // stop between repair and directory save
	Merge   int
	Split   int
	Elems   []welem
}

var boltSets = []string{"s", "set", "other set"}

func rawKey(w, k int) (string, string) {
	return boltSets[(w+k)%3], fmt.Sprintf("w%d-k%d", w, k)
}

const listKeysPerWriter = 5

// subBolt is the child program: subBolt mode dir state.
func subBolt(args []string) int {
	mode, db, stf := args[0], args[1], args[2]
	b, err := os.ReadFile(stf)
	if err != nil {
		fmt.Println(err)
		return 3
	}
	var st childState
	if err := json.Unmarshal(b, &st); err != nil {
		fmt.Println(err)
		return 3
	}
	var mu sync.Mutex
	n := 0
	say := func(o *wop) {
		mu.Lock()
		defer mu.Unlock()
		if !o.Ack {
			n++
			o.N = n
		}
		b, _ := json.Marshal(o)
		os.Stdout.Write(append(b, '\n'))
	}
	ack := func(o *wop, err error) {
		a := &wop{N: o.N, W: o.W, Ack: true}
		if err != nil {
			a.Err = err.Error()
		}
		say(a)
	}
	ctx := quiet(context.Background())
	bs, err := boltstore.NewBoltStore(db, nil)
	if err != nil {
		say(&wop{Kind: "open", Err: err.Error()})
		return 0
	}
	if mode == "raw" {
		var wg sync.WaitGroup
		for w := 0; w < st.Writers; w++ {
			wg.Add(1)
			go func(w int, r *rand.Rand) {
				defer wg.Done()
				for {
					set, key := rawKey(w, r.Intn(listKeysPerWriter))
					o := &wop{W: w, Kind: "set", Set: set, Key: key}
					switch x := r.Intn(10); {
					case x == 0:
						o.Kind = "del"
					case x == 1:
						o.Kind = "get"
					default:
						o.Val = make([]byte, pick(r, []int{0, 1, 100, 4000, 20000}))
						r.Read(o.Val)
						if r.Intn(8) == 0 {
							o.Kind = "create"
						}
					}
					say(o)
					var err error
					switch o.Kind {
					case "set":
						err = bs.Set(ctx, set, key, o.Val)
					case "create":
						err = bs.Create(ctx, set, key, o.Val)
					case "del":
						err = bs.Delete(ctx, set, key)
					case "get":
						_, err = bs.Get(ctx, set, key)
					}
					ack(o, err)
				}
			}(w, rand.New(rand.NewSource(st.Seed+int64(w))))
		}
		wg.Wait()
		return 0
	}
	// Lists.
	r := rand.New(rand.NewSource(st.Seed))
	mod := newModel()
	mod.put(fromW(st.Elems)...)
	g := newElemGen(r)
	cache := newCache("arc", pick(r, []int{1, 4, 64}))
	mgr, err := rankdb.NewManager(bs, "dir")
	if err == nil {
		if st.Round == 0 {
			err = mgr.NewLists(cache)
		} else {
			err = mgr.LoadLists(ctx, cache)
		}
	}
	if err != nil {
		say(&wop{Kind: "open", Err: err.Error()})
		return 0
	}
	var l *rankdb.List
	if st.Round == 0 {
		o := &wop{Kind: "new"}
		say(o)
		opt := rankdb.WithListOption
		l, err = rankdb.NewList(ctx, "list", "set", bs, opt.MergeSplitSize(st.Merge, st.Split), opt.Cache(cache))
		if err == nil {
			mgr.Lists.Add(l)
			err = mgr.SaveLists(ctx, false)
		}
		ack(o, err)
		if err != nil {
			return 0
		}
	} else {
		var ok bool
		if l, ok = mgr.Lists.ByID("list"); !ok {
			say(&wop{Kind: "open", Err: "list is not in the directory"})
			return 0
		}
	}
	if st.Halt {
		b := g.fresh(mod, 9)
		o := &wop{Kind: "insert", Elems: toW(b)}
		say(o)
		ack(o, l.Insert(ctx, bs, cps(b)))
		o = &wop{Kind: "repair"}
		say(o)
		if err := l.Repair(ctx, bs, false); err != nil {
			ack(o, err)
			return 0
		}
		say(&wop{Kind: "halted"})
		time.Sleep(time.Hour)
	}
	if r.Intn(2) == 0 {
		// The server's own background work.
		mgr.StartListSplitter(ctx, bs, make(chan chan struct{}))
		mgr.StartIntervalSaver(ctx, 5*time.Millisecond, make(chan chan struct{}))
	}
	other := 0
	for {
		o := &wop{}
		var run func() error
		var done func()
		switch x := r.Intn(100); {
		case x < 50 || mod.len() < 4:
			var b []Elem
			for _, id := range g.existing(mod, r.Intn(4)) {
				b = append(b, g.mutate(mod, id))
			}
			b = append(b, g.fresh(mod, 1+r.Intn(8))...)
			shuffle(r, b)
			o.Kind, o.Elems = "update", toW(b)
			res := r.Intn(2) == 0
			run = func() error { _, err := l.UpdateElements(ctx, bs, cps(b), 1, res); return err }
			done = func() { mod.put(b...) }
		case x < 65:
			b := g.fresh(mod, 1+r.Intn(10))
			o.Kind, o.Elems = "insert", toW(b)
			run = func() error { return l.Insert(ctx, bs, cps(b)) }
			done = func() { mod.put(b...) }
		case x < 78:
			ids := g.existing(mod, 1+r.Intn(6))
			o.Kind, o.IDs = "delete", ids
			run = func() error { return l.DeleteElements(ctx, bs, append([]EID{}, ids...)) }
			done = func() { mod.del(ids...) }
		case x < 86:
			o.Kind = "split"
			run = func() error { return l.ForceSplit(ctx, bs) }
		case x < 90:
			o.Kind = "reindex"
			run = func() error { return l.Reindex(ctx, bs) }
		case x < 93:
			o.Kind = "save"
			run = func() error { return mgr.SaveLists(ctx, false) }
		case x < 95:
			o.Kind = "repair"
			run = func() error {
				if err := l.Repair(ctx, bs, false); err != nil {
					return err
				}
				return mgr.SaveLists(ctx, false)
			}
		case x < 96:
			b := append([]Elem{}, mod.list()...)
			b = append(b[:len(b)/2], g.fresh(mod, 3)...)
			o.Kind, o.Elems = "populate", toW(b)
			run = func() error {
				if err := l.Populate(ctx, bs, cps(b)); err != nil {
					return err
				}
				return mgr.SaveLists(ctx, false)
			}
			done = func() { mod.reset(b...) }
		case x < 98:
			l.ReleaseSegments(ctx)
			continue
		default:
			other++
			o.Kind, o.Key = "newlist", fmt.Sprintf("other-%d-%d", st.Round, other)
			b := newElemGen(r).fresh(newModel(), 1+r.Intn(20))
			for i := range b {
				b[i].Updated = 77
			}
			o.Elems = toW(b)
			run = func() error {
				opt := rankdb.WithListOption
				l, err := rankdb.NewList(ctx, rankdb.ListID(o.Key), "set", bs, opt.MergeSplitSize(3, 9), opt.Cache(cache))
				if err != nil {
					return err
				}
				if err := l.Insert(ctx, bs, cps(b)); err != nil {
					return err
				}
				mgr.Lists.Add(l)
				return mgr.SaveLists(ctx, false)
			}
		}
		say(o)
		err := run()
		ack(o, err)
		if err != nil {
			return 0
		}
		if done != nil {
			done()
		}
	}
}

// runKilled starts the child and kills it at a random point. It returns the
// announcements that were read.
func runKilled(c *C, mode, db, stf string, r *rand.Rand, halt bool) []wop {
	cmd := exec.Command(selfExe(), "sub", "bolt", mode, db, stf)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.Env = append(os.Environ(), "GOMAXPROCS="+strconv.Itoa(1+r.Intn(4)))
	cmd.Stderr = nil
	out, err := cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	var killer sync.Once
	kill := func() { killer.Do(func() { cmd.Process.Kill() }) }
	guard := time.AfterFunc(30*time.Second, kill)
	at := 1 + r.Intn(60)
	if halt {
		at = -1
	}
	if r.Intn(4) == 0 {
		at = 1 + r.Intn(400)
	}
	if r.Intn(8) == 0 && !halt {
		at = 0
		time.AfterFunc(time.Duration(r.Intn(40000))*time.Microsecond, kill)
	}
	wait := time.Duration(0)
	switch r.Intn(4) {
	case 1:
		wait = time.Duration(r.Intn(300)) * time.Microsecond
	case 2:
		wait = time.Duration(r.Intn(2500)) * time.Microsecond
	case 3:
		wait = time.Duration(r.Intn(9000)) * time.Microsecond
	}
	var ops []wop
	rd := bufio.NewReaderSize(out, 1<<16)
	for i := 1; ; i++ {
		line, err := rd.ReadBytes('\n')
		if err != nil {
			if err != io.EOF && !errors.Is(err, os.ErrClosed) {
				c.Logf("reading child output: %v", err)
			}
			break
		}
		var o wop
		if err := json.Unmarshal(line, &o); err != nil {
			// Output of a crashing child.
			c.Logf("child: %s", line)
			continue
		}
		ops = append(ops, o)
		if halt {
			if o.Kind == "halted" {
				kill()
			}
			continue
		}
		if i == at {
			if wait == 0 {
				kill()
			} else {
				time.AfterFunc(wait, kill)
			}
		}
	}
	werr := cmd.Wait()
	guard.Stop()
	c.Tick()
	var xe *exec.ExitError
	if errors.As(werr, &xe) && !xe.Sys().(syscall.WaitStatus).Signaled() {
		c.Failf("child ended with %v, operations %d", werr, len(ops))
	}
	return ops
}

// openBolt opens the store left behind, checks it with bolt's own checker and
// copies it.
func openBolt(c *C, db string) (*boltstore.BoltStore, *spy) {
	bs, err := boltstore.NewBoltStore(db, &bbolt.Options{Timeout: 20 * time.Second})
	if err != nil {
		c.Failf("opening the store after the kill: %v", err)
	}
	sp := newSpy()
	err = bs.DB().View(func(tx *bbolt.Tx) error {
		for err := range tx.Check() {
			c.FailAsync("bolt finds the file inconsistent: %v", err)
		}
		return tx.ForEach(func(name []byte, b *bbolt.Bucket) error {
			return b.ForEach(func(k, v []byte) error {
				sp.put(string(name), string(k), v)
				return nil
			})
		})
	})
	if err != nil {
		c.Failf("reading the store after the kill: %v", err)
	}
	c.CheckAsync()
	return bs, sp
}

func runC29(c *C) {
	r := c.Rng
	db := filepath.Join(c.TempDir(), "bolt.db")
	stf := db + ".state"
	raw := r.Intn(3) == 0 && c.Idx != 0
	rounds := 4 + r.Intn(4)
	st := childState{Writers: 1 + r.Intn(4)}
	ss := pick(r, [][2]int{{2, 4}, {3, 8}, {4, 10}, {8, 24}, {500, 2000}})
	st.Merge, st.Split = ss[0], ss[1]
	ref := map[skey][]byte{} // raw content; nil: absent
	mod := newModel()
	others := map[string][]Elem{}
	ctx := quiet(c.Ctx)
	created := false
	for round := 0; round < rounds; round++ {
		st.Seed, st.Round = r.Int63(), round
		st.Halt = c.Idx == 0 && round == 0
		if !raw && !created {
			st.Round = 0
		}
		st.Elems = toW(mod.list())
		b, _ := json.Marshal(st)
		if err := os.WriteFile(stf, b, 0o600); err != nil {
			panic(err)
		}
		mode := "list"
		if raw {
			mode = "raw"
		}
		ops := runKilled(c, mode, db, stf, r, st.Halt)
		acked := map[int]string{}
		isAck := map[int]bool{}
		for _, o := range ops {
			if o.Ack {
				acked[o.N], isAck[o.N] = o.Err, true
			}
		}
		var inflight []wop
		nAck := 0
		for _, o := range ops {
			if o.Ack {
				continue
			}
			if o.Kind == "open" {
				c.Failf("round %d: the restarted process could not open the store: %s", round, o.Err)
			}
			if o.Kind == "halted" {
				continue
			}
			if !isAck[o.N] {
				inflight = append(inflight, o)
				continue
			}
			if e := acked[o.N]; e != "" && !raw {
				c.Failf("round %d: %s failed: %s", round, o.Kind, e)
			}
			nAck++
		}
		c.Count("acknowledged", int64(nAck))
		c.Count("in_flight_at_kill", int64(len(inflight)))
		bs, sp := openBolt(c, db)
		if raw {
			for _, o := range ops {
				if o.Ack || !isAck[o.N] {
					continue
				}
				k := skey{o.Set, o.Key}
				e := acked[o.N]
				switch o.Kind {
				case "set":
					ref[k] = append([]byte{}, o.Val...)
				case "create":
					if ref[k] == nil {
						ref[k] = append([]byte{}, o.Val...)
					} else if e == "" {
						c.Failf("round %d: create over existing key %v succeeded", round, k)
					} else {
						e = ""
					}
				case "del":
					ref[k] = nil
				case "get":
					if (ref[k] == nil) != (e != "") {
						c.Failf("round %d: get %v of value present=%v: %q", round, k, ref[k] != nil, e)
					}
					e = ""
				}
				if e != "" {
					c.Failf("round %d: %s %v failed: %s", round, o.Kind, k, e)
				}
			}
			cand := map[skey][]wop{}
			for _, o := range inflight {
				c.Sig(o.Kind, len(o.Val), nAck)
				c.NonTrivial()
				cand[skey{o.Set, o.Key}] = append(cand[skey{o.Set, o.Key}], o)
			}
			for w := 0; w < st.Writers; w++ {
				for k := 0; k < listKeysPerWriter; k++ {
					set, key := rawKey(w, k)
					kk := skey{set, key}
					got, err := bs.Get(ctx, set, key)
					rawv, has := sp.raw(set, key)
					if (err == nil) != has || (has && string(got) != string(rawv)) {
						c.Failf("round %d: Get(%s,%s) returns %d bytes, %v; stored %d bytes, present %v", round, set, key, len(got), err, len(rawv), has)
					}
					ok := has == (ref[kk] != nil) && string(rawv) == string(ref[kk])
					for _, o := range cand[kk] {
						switch o.Kind {
						case "set":
							ok = ok || (has && string(rawv) == string(o.Val))
						case "create":
							ok = ok || (ref[kk] == nil && has && string(rawv) == string(o.Val))
						case "del":
							ok = ok || !has
						}
					}
					if !ok {
						c.Failf("round %d: after the kill key %s/%s is present=%v with %d bytes; last acknowledged: present=%v with %d bytes; in flight: %d operations on it", round, set, key, has, len(rawv), ref[kk] != nil, len(ref[kk]), len(cand[kk]))
					}
					ref[kk] = nil
					if has {
						ref[kk] = append([]byte{}, rawv...)
					}
					c.Count("keys_compared", 1)
				}
			}
			if n := len(sp.snapshot()); n > st.Writers*listKeysPerWriter {
				c.Failf("round %d: %d keys in the store, only %d were written", round, n, st.Writers*listKeysPerWriter)
			}
			bs.Close()
			continue
		}

		// Lists: the model after all acknowledged operations.
		tainted := map[EID]bool{}
		cand := map[EID][]Elem{}
		allTainted := false
		apply := func(o wop) {
			switch o.Kind {
			case "new":
				created = true
			case "update", "insert":
				mod.put(fromW(o.Elems)...)
			case "delete":
				mod.del(o.IDs...)
			case "populate":
				mod.reset(fromW(o.Elems)...)
			case "newlist":
				others[o.Key] = fromW(o.Elems)
			}
		}
		for _, o := range ops {
			if !o.Ack && isAck[o.N] {
				apply(o)
			}
		}
		maybe := map[string][]Elem{}
		for _, o := range inflight {
			c.Sig(o.Kind, len(o.Elems), mod.len(), nAck)
			c.NonTrivial()
			c.Count("killed_in_"+o.Kind, 1)
			c.Logf("round %d: killed during %s of %d elements %d ids after %d acknowledged", round, o.Kind, len(o.Elems), len(o.IDs), nAck)
			switch o.Kind {
			case "new", "populate":
				allTainted = true
			case "newlist":
				maybe[o.Key] = fromW(o.Elems)
			}
			for _, e := range fromW(o.Elems) {
				tainted[e.ID] = o.Kind != "newlist" || tainted[e.ID]
				if o.Kind != "newlist" {
					cand[e.ID] = append(cand[e.ID], e)
				}
			}
			for _, id := range o.IDs {
				tainted[id] = true
			}
		}
		m, err := rankdb.NewManager(bs, "dir")
		if err != nil {
			c.Failf("NewManager: %v", err)
		}
		err = m.LoadLists(ctx, newCache("arc", 16))
		if !created {
			// Killed before the list was acknowledged.
			if err == nil {
				if _, ok := m.Lists.ByID("list"); ok {
					created = true
				}
			}
			if !created {
				bs.Close()
				os.Remove(db)
				continue
			}
		}
		if err != nil {
			c.Failf("round %d: the directory does not load after the kill: %v", round, err)
		}
		l, ok := m.Lists.ByID("list")
		if !ok {
			c.Failf("round %d: the list is not in the directory after the kill", round)
		}
		for key, want := range others {
			l, ok := m.Lists.ByID(rankdb.ListID(key))
			if !ok {
				c.Failf("round %d: acknowledged list %q is not in the directory", round, key)
			}
			got, err := l.GetRankTop(ctx, bs, 0, 1<<20)
			if err != nil {
				c.Failf("round %d: reading list %q: %v", round, key, err)
			}
			w := newModel()
			w.put(want...)
			if sameElems(got, w.list()) != "" {
				// It may have been in the middle of a background split.
				c.Count("other_lists_repaired", 1)
				if err := l.Repair(ctx, bs, false); err != nil {
					c.Failf("round %d: repairing list %q: %v", round, key, err)
				}
				if got, err = l.GetRankTop(ctx, bs, 0, 1<<20); err != nil {
					c.Failf("round %d: reading repaired list %q: %v", round, key, err)
				}
			}
			if d := sameElems(got, w.list()); d != "" {
				c.Failf("round %d: list %q that nobody was changing: %s", round, key, d)
			}
			c.Count("other_lists_compared", 1)
		}
		var either *model
		for _, o := range inflight {
			if o.Kind != "repair" && o.Kind != "populate" {
				continue
			}
			sc, _ := listRefs(l)
			if _, err := readSegs(sp, "set", sc, true); err != nil {
				// The old content is deleted, and the directory does not refer to the new.
				allTainted = true
				c.Known("replaced-content-before-directory-save", fmt.Sprintf("killed during %s before the directory was saved: the directory refers to deleted content: %v", o.Kind, err))
			} else if o.Kind == "populate" {
				c.Count("populate_kills_intact", 1)
				either = newModel()
				either.put(fromW(o.Elems)...)
			}
		}
		// Without repair, elements nobody was changing must not be wrong.
		if !allTainted {
			if got, err := l.GetRankTop(ctx, bs, 0, 1<<20); err == nil {
				for _, e := range got {
					w, ok := mod.m[e.ID]
					if (!ok || !eq(w, e)) && !tainted[e.ID] {
						c.Failf("round %d: before repair the list holds %s, acknowledged: %v %s", round, es(e), ok, es(w))
					}
				}
			}
		}
		err = l.Repair(ctx, bs, allTainted)
		if err != nil {
			c.Failf("round %d: repair after the kill: %v", round, err)
		}
		got, err := l.GetRankTop(ctx, bs, 0, 1<<20)
		if errors.Is(err, rankdb.ErrOffsetOutOfBounds) {
			err = nil
		}
		if err != nil {
			c.Failf("round %d: reading the repaired list: %v", round, err)
		}
		if either != nil && sameElems(got, mod.list()) != "" && sameElems(got, either.list()) != "" {
			c.Failf("round %d: killed while replacing the content: the list has %d elements, neither the old %d nor the new %d", round, len(got), mod.len(), either.len())
		}
		have := map[EID]Elem{}
		for i, e := range got {
			if _, dup := have[e.ID]; dup {
				c.Failf("round %d: element %d is in the repaired list twice", round, e.ID)
			}
			if i > 0 && !refAbove(got[i-1], e) {
				c.Failf("round %d: repaired list is not sorted: %s then %s", round, es(got[i-1]), es(e))
			}
			have[e.ID] = e
			w, ok := mod.m[e.ID]
			if ok && eq(w, e) {
				continue
			}
			if !tainted[e.ID] && !allTainted {
				c.Failf("round %d: repaired list holds %s, acknowledged: %v %s", round, es(e), ok, es(w))
			}
			ok = false
			for _, x := range cand[e.ID] {
				ok = ok || eq(x, e)
			}
			if !ok {
				c.Failf("round %d: repaired list holds %s, which no operation wrote", round, es(e))
			}
		}
		if !allTainted {
			for id, e := range mod.m {
				if _, ok := have[id]; !ok && !tainted[id] {
					c.Failf("round %d: acknowledged element %s is missing after repair; in flight: %d operations", round, es(e), len(inflight))
				}
			}
		}
		if err := l.Verify(ctx, bs); err != nil {
			c.Failf("round %d: Verify after repair: %v", round, err)
		}
		if err := l.VerifyElements(ctx, bs); err != nil {
			c.Failf("round %d: VerifyElements after repair: %v", round, err)
		}
		if err := m.SaveLists(ctx, false); err != nil {
			c.Failf("round %d: SaveLists: %v", round, err)
		}
		for key := range maybe {
			// The list may or may not have been created.
			if l, ok := m.Lists.ByID(rankdb.ListID(key)); ok {
				if err := l.Repair(ctx, bs, true); err != nil {
					c.Failf("round %d: repair of half made list: %v", round, err)
				}
				if err := m.DeleteList(ctx, rankdb.ListID(key)); err != nil {
					c.Failf("round %d: deleting half made list: %v", round, err)
				}
				if err := m.SaveLists(ctx, false); err != nil {
					c.Failf("round %d: SaveLists: %v", round, err)
				}
			}
		}
		mod.reset(got...)
		c.Count("elements_compared", int64(len(got)))
		c.Max("elements", int64(len(got)))
		// Decode what is stored now.
		sp2 := newSpy()
		bs.DB().View(func(tx *bbolt.Tx) error {
			return tx.ForEach(func(name []byte, b *bbolt.Bucket) error {
				return b.ForEach(func(k, v []byte) error { sp2.put(string(name), string(k), v); return nil })
			})
		})
		sc, ix := listRefs(l)
		stored, _, err := readStored(sp2, "set", sc, ix)
		if err != nil {
			c.Failf("round %d: stored state after repair: %v", round, err)
		}
		sort.Slice(stored, func(i, j int) bool { return refAbove(stored[i], stored[j]) })
		if d := sameElems(stored, got); d != "" {
			c.Failf("round %d: stored elements after repair: %s", round, d)
		}
		bs.Close()
	}
	c.Count("kills", int64(rounds))
	c.Sample("%d kills, raw blobs %v, %d writers, sizes %d/%d, %d elements at the end, %d other lists", rounds, raw, st.Writers, st.Merge, st.Split, mod.len(), len(others))
}
