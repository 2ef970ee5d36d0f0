package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/Vivino/rankdb/blobstore/boltstore"
	"github.com/etcd-io/bbolt"
)

func init() {
	register(&Check{ID: "C28", Quick: 90, Thorough: 2500, StallSecs: 240, Run: runC28,
		Rule:   "one case = several rounds on one BoltDB or Badger storage with random lazy saving, retry, cache, update limit and background jobs: concurrent clients that own disjoint elements in shared lists and lists of their own send updates, batches, multi-list updates and list creations, replacements, clones and deletions, some cancel requests or send bad ones; the server gets SIGTERM, SIGINT or SIGUSR2 at a random point with requests in flight, must end with status 0, and is started again; every element and list must then be as its client last got acknowledged (a request without answer may have been done or not, a refused one must not); goroutine snapshots taken while clients run count the updates running at once against the configured limit",
		Assume: []string{"a request that got no answer because the process ended may have been done or not"}})
}

// scope is what one client owns in one list: a part of a shared list or a whole
// list (nil if there is no such list).
type scope map[EID]Elem

type shutClient struct {
	i       int
	shared  []string
	own     []string
	ids     []EID
	state   map[string]scope
	pending map[string]scope // of the request without answer
	ended   string
}

func (s scope) clone() scope {
	if s == nil {
		return nil
	}
	n := scope{}
	for k, v := range s {
		n[k] = v
	}
	return n
}

func sameScope(a, b scope) bool {
	if (a == nil) != (b == nil) || len(a) != len(b) {
		return false
	}
	for id, x := range a {
		y, ok := b[id]
		if !ok || x.Score != y.Score || x.TieBreaker != y.TieBreaker || !bytes.Equal(x.Payload, y.Payload) {
			return false
		}
	}
	return true
}

func (s scope) String() string {
	if s == nil {
		return "no list"
	}
	var e []Elem
	for _, x := range s {
		e = append(e, x)
	}
	refSort(e)
	return fmt.Sprintf("%d elements %s", len(e), ess(e))
}

const ownerSpan = 1000000

func (cl *shutClient) elem(r *rand.Rand, id EID, n int) inElem {
	e := inElem{ID: uint64(id), Score: uint64(r.Intn(3000)), Payload: json.RawMessage(fmt.Sprintf(`{"c":%d,"n":%d,"pad":%q}`, cl.i, n, strings.Repeat("x", r.Intn(60))))}
	if r.Intn(3) == 0 {
		t := uint32(r.Intn(10))
		e.TieBreaker = &t
	}
	return e
}

// run sends requests until the server refuses or is gone. The first no requests
// are sent before that may happen.
func (cl *shutClient) run(a *apiSim, srv *srv, r *rand.Rand, acks *int64, stop func() bool) {
	c := a.c
	for n := 0; !c.Failed() && !stop(); n++ {
		id := cl.ids[r.Intn(len(cl.ids))]
		sh := cl.shared[r.Intn(len(cl.shared))]
		ow := cl.own[r.Intn(len(cl.own))]
		next := map[string]scope{}
		var m, p string
		var body interface{}
		want := 200
		switch k := r.Intn(16); k {
		case 0, 1, 2: // element in a shared list
			e := cl.elem(r, id, n)
			m, p, body = "PUT", fmt.Sprintf("/lists/%s/elements/%d", sh, id), e
			next[sh] = cl.state[sh].clone()
			next[sh][id] = e.elem(0)
		case 3, 4: // batch
			var b []inElem
			next[sh] = cl.state[sh].clone()
			for _, i := range r.Perm(len(cl.ids))[:1+r.Intn(len(cl.ids))] {
				e := cl.elem(r, cl.ids[i], n)
				b = append(b, e)
				next[sh][cl.ids[i]] = e.elem(0)
			}
			m, p, body = "PUT", fmt.Sprintf("/lists/%s/elements", sh), b
		case 5: // delete
			m, p, want = "DELETE", fmt.Sprintf("/lists/%s/elements/%d", sh, id), 204
			next[sh] = cl.state[sh].clone()
			delete(next[sh], id)
		case 6: // create
			e := cl.elem(r, id, n)
			m, p, body = "POST", fmt.Sprintf("/lists/%s/elements", sh), e
			if _, ok := cl.state[sh][id]; ok {
				want = 409
			} else {
				next[sh] = cl.state[sh].clone()
				next[sh][id] = e.elem(0)
			}
		case 7, 8: // all shared lists
			e := cl.elem(r, id, n)
			m, p, body = "PUT", "/xlist/elements?errors_only=true", map[string]interface{}{"lists": cl.shared, "payload": []inElem{e}}
			if r.Intn(3) == 0 {
				m, p, body = "DELETE", fmt.Sprintf("/xlist/elements/%d?match_metadata=%s", id, urlQ(`{"shared":"1"}`)), nil
			}
			for _, l := range cl.shared {
				next[l] = cl.state[l].clone()
				next[l][id] = e.elem(0)
				if m == "DELETE" {
					delete(next[l], id)
				}
			}
		case 9, 10: // list of its own
			var pop []inElem
			nw := scope{}
			cnt := r.Intn(40)
			if r.Intn(6) == 0 {
				cnt = 500 + r.Intn(1500)
			}
			for j := 0; j < cnt; j++ {
				e := cl.elem(r, EID(j*7), n)
				pop = append(pop, e)
				nw[EID(j*7)] = e.elem(0)
			}
			body = map[string]interface{}{"id": ow, "set": pick(r, []string{"set-a", "set-b"}), "split_size": pick(r, []int{20, 200}), "merge_size": 10, "populate": pop, "load_index": r.Intn(2) == 0}
			m, p = "POST", "/lists?replace=true"
			if r.Intn(2) == 0 {
				p = "/lists"
			}
			if p == "/lists" && cl.state[ow] != nil {
				want = 409
			} else {
				next[ow] = nw
			}
		case 11: // delete it
			m, p, want = "DELETE", "/lists/"+ow, 204
			next[ow] = nil
		case 12: // clone
			src := cl.own[r.Intn(len(cl.own))]
			m, p, body = "PUT", "/lists/"+src+"/clone", map[string]interface{}{"id": ow, "set": "set-c", "split_size": 30, "merge_size": 10}
			switch {
			case cl.state[src] == nil:
				want = 404
			case cl.state[ow] != nil:
				want = 409
			default:
				next[ow] = cl.state[src].clone()
			}
		case 13: // element in it
			e := cl.elem(r, EID(r.Intn(300)), n)
			m, p, body = "PUT", fmt.Sprintf("/lists/%s/elements/%d", ow, e.ID), e
			if cl.state[ow] == nil {
				want = 404
			} else {
				next[ow] = cl.state[ow].clone()
				next[ow][EID(e.ID)] = e.elem(0)
			}
		case 14: // maintenance
			m, p = "PUT", fmt.Sprintf("/lists/%s/%s", sh, pick(r, []string{"reindex", "repair", "verify"}))
		case 15: // read
			m, p = "GET", fmt.Sprintf("/lists/%s/elements/%d?range=0", sh, id)
			if _, ok := cl.state[sh][id]; !ok {
				want = 404
			}
		}
		x := srv.try(context.Background(), m, p, "", body)
		switch {
		case x.err != nil:
			cl.pending = next
			cl.ended = fmt.Sprintf("%s %s: %v", m, p, x.err)
			return
		case x.code == 503:
			cl.ended = fmt.Sprintf("%s %s was refused", m, p)
			return
		case x.code != want:
			c.FailAsync("client %d: %s %s %s: %s, want %d", cl.i, m, p, bodyText(body), x, want)
			return
		}
		if strings.HasPrefix(p, "/xlist") {
			var res apiResultList
			if json.Unmarshal(x.body, &res) != nil || len(res.Errors) > 0 {
				c.FailAsync("client %d: %s %s: %s", cl.i, m, p, x)
				return
			}
		}
		if m == "GET" && want == 200 {
			var e apiElem
			w := cl.state[sh][id]
			if json.Unmarshal(x.body, &e) != nil || EID(e.ID) != id || e.Score != w.Score || string(canonJSON(e.Payload)) != string(w.Payload) {
				c.FailAsync("client %d: element %d of list %s is %s, the client stored %s", cl.i, id, sh, x, es(w))
				return
			}
		}
		for k, v := range next {
			cl.state[k] = v
		}
		atomic.AddInt64(acks, 1)
	}
}

// content reads a whole list, nil if there is none.
func (a *apiSim) content(id string) scope {
	out := scope{}
	for off := 0; ; off += 1000 {
		x := a.s.do("GET", fmt.Sprintf("/lists/%s/range?from_top=%d&limit=1000", id, off), nil)
		if x.code == 404 {
			if off > 0 {
				return out
			}
			if y := a.s.do("GET", "/lists/"+id, nil); y.code == 404 {
				return nil
			}
			return out
		}
		var es []apiElem
		if x.code != 200 {
			a.c.Failf("range of list %s: %s", id, x)
		}
		x.json(a.c, "range", &es)
		for _, e := range es {
			if _, dup := out[EID(e.ID)]; dup {
				a.c.Failf("list %s has element %d twice", id, e.ID)
			}
			out[EID(e.ID)] = Elem{ID: EID(e.ID), Score: e.Score, TieBreaker: e.TieBreaker, Payload: canonJSON(e.Payload)}
		}
		if len(es) < 1000 {
			return out
		}
	}
}

// updatesRunning counts the requests of clients that are inside an update of a
// list in one snapshot of all goroutines.
func updatesRunning(stacks string) int {
	n := 0
	for _, g := range strings.Split(stacks, "\n\n") {
		if !strings.Contains(g, "net/http.(*conn).serve") {
			continue
		}
		for _, f := range []string{".(*List).UpdateElements(", ".(*List).DeleteElements(", ".(*List).Insert(", ".(*List).InsertNew(", ".(*List).Reindex(", ".(*List).Repair(", ".(*List).DeleteAll(", "rankdb.NewList(", ".(*List).Populate("} {
			if strings.Contains(g, f) {
				n++
				break
			}
		}
	}
	return n
}

func runC28(c *C) {
	r := c.Rng
	cfg := randSrvCfg(r, c.TempDir())
	cfg.storage = pick(r, []string{"BoltDB", "BoltDB", "BoltDB", "Badger", "Aerospike"})
	cfg.aeroIf(r)
	cfg.maxUpdates = pick(r, []int{0, 1, 2, 3, 8})
	cfg.debug = cfg.maxUpdates > 0 && r.Intn(2) == 0
	if r.Intn(2) == 0 { // nothing is stored before the shutdown
		cfg.lazy, cfg.lazyTime, cfg.lazyLimit, cfg.lazyFlush, cfg.lazySavers = true, "5m", 100000, 90000, 1+r.Intn(4)
		if r.Intn(3) > 0 {
			cfg.saveEvery = "1h"
		}
	}
	a := newAPISim(c, nil)
	shared := []string{"shared-0", "shared-1", "shared-2"}[:1+r.Intn(3)]
	nc := 3 + r.Intn(6)
	var cls []*shutClient
	for i := 0; i < nc; i++ {
		cl := &shutClient{i: i, shared: shared, state: map[string]scope{}}
		for j := 0; j < 3; j++ {
			cl.own = append(cl.own, fmt.Sprintf("own-%d-%d", i, j))
		}
		for j := 0; j < 3+r.Intn(40); j++ {
			cl.ids = append(cl.ids, EID(i*ownerSpan+r.Intn(ownerSpan)))
		}
		for _, l := range shared {
			cl.state[l] = scope{}
		}
		cls = append(cls, cl)
	}
	c.Logf("server: %v, %d clients", cfg, nc)
	rounds := 2 + r.Intn(2)
	for round := 0; round <= rounds; round++ {
		a.s = startSrv(c, cfg)
		if round == 0 {
			for _, l := range shared {
				a.s.expect(200, "POST", "/lists", map[string]interface{}{"id": l, "set": pick(r, []string{"set-a", "set-b"}), "split_size": pick(r, []int{20, 50, 200}), "merge_size": 10, "metadata": map[string]string{"shared": "1"}, "load_index": r.Intn(2) == 0})
			}
		} else {
			a.shutCheck(fmt.Sprintf("round %d", round), shared, cls)
		}
		if round == rounds {
			break
		}
		a.shutRound(cfg, round, cls)
	}
	a.s.finish()
	if cfg.storage == "BoltDB" {
		a.shutFile(shared, cls)
		if r.Intn(2) == 0 {
			a.brokenDirectory(cfg)
		}
	}
	c.NonTrivial()
	c.Sample("%d rounds, %d clients; %v", rounds, nc, cfg)
}

// shutRound runs clients and ends the server under them.
func (a *apiSim) shutRound(cfg srvCfg, round int, cls []*shutClient) {
	c, r, s := a.c, a.r, a.s
	var acks int64
	var wg, bg sync.WaitGroup
	var down int32
	for _, cl := range cls {
		cl.pending, cl.ended = nil, ""
		wg.Add(1)
		go func(cl *shutClient, r *rand.Rand) {
			defer wg.Done()
			cl.run(a, s, r, &acks, func() bool { return false })
		}(cl, rand.New(rand.NewSource(r.Int63())))
	}
	stop := make(chan struct{})
	// Requests that fail or are cancelled must give back their permission to
	// update. They use lists and elements nobody checks.
	if r.Intn(2) == 0 {
		bg.Add(1)
		go func(r *rand.Rand) {
			defer bg.Done()
			for n := 0; ; n++ {
				select {
				case <-stop:
					return
				default:
				}
				ctx, cancel := context.WithTimeout(context.Background(), time.Duration(r.Intn(4000))*time.Microsecond)
				switch r.Intn(4) {
				case 0:
					s.try(ctx, "PUT", "/lists/not-there/elements/5", "", `{"id":5,"score":1}`)
				case 1:
					s.try(ctx, "PUT", "/lists/shared-0/elements/-5", "", `{"id":`)
				case 2:
					s.try(ctx, "PUT", "/lists/shared-0/reindex", "", nil)
				case 3:
					s.try(ctx, "PUT", "/xlist/elements", "", `{"lists":["nope","nope2"],"payload":[{"id":1,"score":1}]}`)
				}
				cancel()
				c.Count("failing_requests", 1)
				if n > 300 {
					return
				}
			}
		}(rand.New(rand.NewSource(r.Int63())))
	}
	if cfg.debug {
		bg.Add(1)
		go func() {
			defer bg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				x := s.try(context.Background(), "GET", "/debug/pprof/goroutine?debug=2", "", nil)
				if x.err != nil || x.code != http.StatusOK {
					return
				}
				n := updatesRunning(string(x.body))
				c.Count("snapshots", 1)
				if n == cfg.maxUpdates {
					c.Count("snapshots_at_limit", 1)
				}
				if n > cfg.maxUpdates && atomic.LoadInt32(&down) == 0 {
					c.FailAsync("%d updates run at the same time, MaxUpdates is %d:\n%s", n, cfg.maxUpdates, keepTarget(string(x.body)))
					return
				}
				time.Sleep(time.Millisecond)
			}
		}()
	}
	// When to stop.
	after := int64(pick(r, []int{1, 5, 30, 150, 400}) + r.Intn(20))
	t0 := time.Now()
	last, lastAt := int64(0), t0
	for {
		n := atomic.LoadInt64(&acks)
		if n >= after || c.Failed() {
			break
		}
		if n != last {
			last, lastAt = n, time.Now()
		}
		if time.Since(lastAt) > 100*time.Second {
			c.Failf("no request was answered in 100 s; goroutines of the server:\n%s", s.dump())
		}
		time.Sleep(200 * time.Microsecond)
	}
	time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
	atomic.StoreInt32(&down, 1)
	if c.Failed() {
		close(stop)
		s.alive()
		s.kill()
		wg.Wait()
		bg.Wait()
		c.CheckAsync()
	}
	s.signal(pick(r, []syscall.Signal{syscall.SIGTERM, syscall.SIGTERM, syscall.SIGINT, syscall.SIGUSR2}))
	s.wait()
	close(stop)
	wg.Wait()
	bg.Wait()
	s.checkLog()
	c.CheckAsync()
	refused, unanswered := 0, 0
	for _, cl := range cls {
		c.Logf("round %d: client %d ended with: %s", round, cl.i, cl.ended)
		if strings.HasSuffix(cl.ended, "refused") {
			refused++
		} else if cl.pending != nil {
			unanswered++
		}
	}
	c.Count("acknowledged", acks)
	c.Count("refused", int64(refused))
	c.Count("unanswered", int64(unanswered))
	c.Count("shutdowns", 1)
	c.Sig(round, acks, refused, unanswered)
}

func keepTarget(t string) string {
	var keep []string
	for _, b := range strings.Split(t, "\n\n") {
		if hasTarget(b) {
			keep = append(keep, b)
		}
	}
	t = strings.Join(keep, "\n\n")
	if len(t) > 8000 {
		t = t[:8000]
	}
	return t
}

// shutCheck compares everything with what the clients got acknowledged.
func (a *apiSim) shutCheck(what string, shared []string, cls []*shutClient) {
	c := a.c
	var dir struct {
		Lists []apiListInfo `json:"lists"`
	}
	a.s.expect(200, "GET", "/lists?limit=1000", nil).json(c, "list lists", &dir)
	var have []string
	for _, l := range dir.Lists {
		have = append(have, l.ID)
	}
	settle := func(cl *shutClient, id string, got scope) {
		st := cl.state[id]
		if sameScope(st, got) {
			return
		}
		if p, ok := cl.pending[id]; ok && cl.pending != nil && sameScope(p, got) {
			cl.state[id] = p
			c.Count("unanswered_done", 1)
			return
		}
		p := "nothing"
		if cl.pending != nil {
			p = fmt.Sprintf("%q with %v", cl.ended, cl.pending[id])
		}
		c.Failf("%s: list %s: client %d last got acknowledged %v (request without answer: %s; it ended with %s), after the restart there is %v", what, id, cl.i, st, p, cl.ended, got)
	}
	for _, id := range shared {
		all := a.content(id)
		if all == nil {
			c.Failf("%s: list %s is gone after the restart, lists: %q", what, id, have)
		}
		c.Count("elements_compared", int64(len(all)))
		for _, cl := range cls {
			got := scope{}
			for eid, e := range all {
				if int(eid/ownerSpan) == cl.i {
					got[eid] = e
					delete(all, eid)
				}
			}
			settle(cl, id, got)
		}
		if len(all) > 0 {
			c.Failf("%s: list %s has elements nobody stored: %v", what, id, all)
		}
	}
	want := append([]string{}, shared...)
	for _, cl := range cls {
		for _, id := range cl.own {
			got := a.content(id)
			c.Count("elements_compared", int64(len(got)))
			settle(cl, id, got)
			if got != nil {
				want = append(want, id)
			}
		}
		cl.pending = nil
	}
	sort.Strings(want)
	if !reflect.DeepEqual(have, want) {
		c.Failf("%s: lists %q, want %q", what, have, want)
	}
	var res apiResultList
	a.s.expect(200, "PUT", "/xlist/verify?elements=true&errors_only=true", `{}`).json(c, "verify", &res)
	if len(res.Errors) > 0 {
		c.Failf("%s: lists do not verify after the restart: %v", what, res.Errors)
	}
	// Updates still work.
	a.s.expect(404, "PUT", "/lists/not-there/elements/1", `{"id":1,"score":1}`)
	c.Count("restarts_compared", 1)
}

// shutFile compares the file with the models.
func (a *apiSim) shutFile(shared []string, cls []*shutClient) {
	lists, sp := a.boltFile()
	c := a.c
	known := map[skey]bool{{"rankdb", "lists"}: true, {"rankdb-backup", "lists-backup"}: true}
	for id, l := range lists {
		sc, ix := listRefs(l)
		got, keys, err := readStored(sp, l.Set, sc, ix)
		if err != nil {
			c.Failf("stored state of list %q: %v", id, err)
		}
		for _, k := range keys {
			known[skey{l.Set, k}] = true
		}
		want := scope{}
		for _, cl := range cls {
			for k, v := range cl.state[id] {
				want[k] = v
			}
		}
		have := scope{}
		for _, e := range got {
			e.Payload = canonJSON(e.Payload)
			have[e.ID] = e
		}
		if !sameScope(want, have) {
			c.Failf("stored list %q is %v, want %v", id, have, want)
		}
	}
	for k := range sp.snapshot() {
		if !known[k] {
			c.Failf("blob %q in set %q belongs to no list after orderly shutdowns", k.key, k.set)
		}
	}
	c.Count("files_checked", 1)
}

// brokenDirectory damages the stored directory: the server must not start with
// other lists and must leave the storage as it is.
func (a *apiSim) brokenDirectory(cfg srvCfg) {
	c, r := a.c, a.r
	file := filepath.Join(cfg.dir, "rankdb.bolt")
	bs, err := boltstore.NewBoltStore(file, &bbolt.Options{Timeout: 20 * time.Second})
	if err != nil {
		panic(err)
	}
	good, err := bs.Get(c.Ctx, "rankdb", "lists")
	if err != nil {
		c.Failf("reading the stored directory: %v", err)
	}
	bad := append([]byte{}, good...)
	switch r.Intn(3) {
	case 0:
		bad = bad[:1+r.Intn(len(bad)-1)]
	case 1:
		bad[len(bad)/2] ^= 0x41
	case 2:
		bad = []byte{}
	}
	if err := bs.Set(c.Ctx, "rankdb", "lists", bad); err != nil {
		panic(err)
	}
	// There may be no backup yet, or one that cannot be read either.
	switch {
	case cfg.backupEvery == 0:
		if r.Intn(2) == 0 {
			cfg.backupEvery = 1000000
			c.Count("refused_without_backup", 1)
		}
	case r.Intn(3) > 0:
		err = bs.Delete(c.Ctx, "rankdb-backup", "lists-backup")
		c.Count("refused_without_backup", 1)
	default:
		err = bs.Set(c.Ctx, "rankdb-backup", "lists-backup", bad)
	}
	if err != nil {
		panic(err)
	}
	bs.Close()
	cfg.saveEvery = "1ms"
	s, err := tryStartSrv(c, cfg)
	if err == nil {
		s.kill()
		c.Failf("the server starts with a damaged directory (%d of %d bytes), its lists are no longer known", len(bad), len(good))
	}
	if _, serr := os.Stat(file); serr != nil {
		c.Failf("the storage file is gone: %v", serr)
	}
	bs, err = boltstore.NewBoltStore(file, &bbolt.Options{Timeout: 20 * time.Second})
	if err != nil {
		c.Failf("opening the storage after a refused start: %v", err)
	}
	defer bs.Close()
	now, err := bs.Get(c.Ctx, "rankdb", "lists")
	if err != nil || !bytes.Equal(now, bad) {
		c.Failf("a refused start changed the stored directory: %v", err)
	}
	c.Count("refused_starts", 1)
}
