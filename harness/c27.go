package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"net/url"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"
)

func init() {
	register(&Check{ID: "C27", Quick: 150, Thorough: 3000, StallSecs: 150, Run: runC27,
		Rule:   "one case = one real server (race instrumented, random storage, cache and background jobs) driven through a random sequence of list creations, replacements, clones, deletions, single-list verify/repair/reindex and invalid requests with random IDs, sets, metadata, sizes and content; after each the answer, and regularly the paged directory (both directions) and the content of all lists, are compared with the model; then concurrent clients creating, replacing, cloning and deleting lists of their own and competing for the same ID while others page through the directory; persistent servers are restarted in between and their file is checked for the exact directory, content and left over blobs",
		Assume: []string{"the server and the harness see the same clock"}})
}

const listChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_."

func randListID(r *rand.Rand) string {
	n := 2 + r.Intn(8)
	switch r.Intn(10) {
	case 0:
		n = 100
	case 1:
		n = 2
	}
	b := make([]byte, n)
	alpha := listChars
	if r.Intn(3) == 0 {
		alpha = "ab-."
	}
	for i := range b {
		b[i] = alpha[r.Intn(len(alpha))]
	}
	return string(b)
}

func (a *apiSim) randSet() string {
	if a.s.cfg.storage != "Badger" && a.r.Intn(8) == 0 {
		return pick(a.r, []string{"s/t", "s\u00e9t ", "rankdb2", "set\x01", strings.Repeat("s", 100), "ss"})
	}
	return pick(a.r, []string{"set-a", "set-b", "set-c"})
}

func (a *apiSim) randMeta() map[string]string {
	switch a.r.Intn(5) {
	case 0:
		return nil
	case 1:
		return map[string]string{}
	}
	m := map[string]string{}
	for i := a.r.Intn(5); i >= 0; i-- {
		m[pick(a.r, []string{"country", "game", "", "k\u00e9y", `"q"`, "n"})] = pick(a.r, []string{"dk", "", "a b", "<&>", "2", strings.Repeat("v", 300)})
	}
	return m
}

// fill returns elements to populate a list with and what the list has then.
func (a *apiSim) fill(l *apiList, n int) []inElem {
	var pop []inElem
	for _, x := range a.newIDs(l, n) {
		pop = append(pop, a.in(x))
	}
	if len(pop) > 0 && a.r.Intn(4) == 0 {
		d := pop[a.r.Intn(len(pop))]
		e := a.in(EID(d.ID))
		if e.Score != d.Score {
			pop = append(pop, e)
		}
	}
	a.r.Shuffle(len(pop), func(i, j int) { pop[i], pop[j] = pop[j], pop[i] })
	return pop
}

func (a *apiSim) newList(id string) *apiList {
	r := a.r
	l := &apiList{id: id, set: a.randSet(), meta: a.randMeta(), mod: newModel(), loadIndex: r.Intn(2) == 0}
	sz := pick(r, [][2]int{{10, 11}, {10, 20}, {15, 40}, {500, 2000}, {10, 100000}, {99999, 100000}, {30, 31}})
	l.merge, l.split = sz[0], sz[1]
	return l
}

func (a *apiSim) idOrNew() string {
	if len(a.lists) > 0 && a.r.Intn(2) == 0 {
		return a.anyList().id
	}
	for {
		id := randListID(a.r)
		if a.lists[id] == nil {
			return id
		}
	}
}

// lifecycleStep sends one valid request about a list.
func (a *apiSim) lifecycleStep() {
	c, r, s := a.c, a.r, a.s
	switch k := r.Intn(12); k {
	case 0, 1, 2, 3: // create
		id := a.idOrNew()
		old := a.lists[id]
		l := a.newList(id)
		n := r.Intn(30)
		if r.Intn(8) == 0 {
			n = 100 + r.Intn(200)
		}
		pop := a.fill(l, n)
		p := a.listPayload(l, pop)
		defaults := r.Intn(5) == 0
		if defaults {
			delete(p, "split_size")
			delete(p, "merge_size")
			delete(p, "load_index")
			l.split, l.merge, l.loadIndex = 2000, 500, false
		}
		if pop == nil && r.Intn(2) == 0 {
			p["populate"] = []inElem{}
		}
		q := ""
		replace := r.Intn(2) == 0
		if replace || r.Intn(3) == 0 {
			q = fmt.Sprintf("?replace=%v", replace)
		}
		if old != nil && !replace {
			s.expect(409, "POST", "/lists"+q, p)
			a.checkList("after a refused creation", old)
			c.Count("create_conflicts", 1)
			return
		}
		t0 := time.Now()
		x := s.expect(200, "POST", "/lists"+q, p)
		a.lists[id] = l
		a.adopt(l, pop, t0, time.Now())
		var inf apiListInfo
		x.json(c, "create list", &inf)
		a.checkInfo("create list", l, inf, true)
		a.checkList("after create list", l)
		if old != nil {
			c.Count("replaced", 1)
			c.Max("replaced_set_changes", 1)
		} else {
			c.Count("created", 1)
		}
	case 4, 5: // clone
		src, id := a.idOrNew(), a.idOrNew()
		l := a.newList(id)
		p := a.listPayload(l, nil)
		path := fmt.Sprintf("/lists/%s/clone", esc(src))
		o := a.lists[src]
		switch {
		case o == nil:
			s.expect(404, "PUT", path, p)
			c.Count("clone_missing", 1)
			return
		case a.lists[id] != nil:
			s.expect(409, "PUT", path, p)
			a.checkList("after a refused clone", a.lists[id])
			c.Count("clone_conflicts", 1)
			return
		}
		x := s.expect(200, "PUT", path, p)
		l.mod = o.mod.clone()
		a.lists[id] = l
		var inf apiListInfo
		x.json(c, "clone list", &inf)
		a.checkInfo("clone list", l, inf, true)
		a.checkList("source after clone", o)
		a.checkList("clone", l)
		c.Count("cloned", 1)
	case 6, 7: // delete
		id := a.idOrNew()
		if len(a.lists) < 3 && r.Intn(3) > 0 {
			return
		}
		s.expect(204, "DELETE", "/lists/"+esc(id), nil)
		if a.lists[id] != nil {
			c.Count("deleted", 1)
		}
		delete(a.lists, id)
		s.expect(404, "GET", "/lists/"+esc(id), nil)
		s.expect(404, "GET", "/lists/"+esc(id)+"/range?from_top=0", nil)
	case 8: // get
		id := a.idOrNew()
		if l := a.lists[id]; l != nil {
			a.getInfo(l)
			return
		}
		s.expect(404, "GET", "/lists/"+esc(id), nil)
	case 9, 10: // verify, repair, reindex
		id := a.idOrNew()
		l := a.lists[id]
		op := pick(r, []string{"verify", "verify?repair=true", "verify?repair=true&clear=true", "repair", "repair?clear=true", "reindex"})
		path := fmt.Sprintf("/lists/%s/%s", esc(id), op)
		if l == nil {
			s.expect(404, "PUT", path, nil)
			return
		}
		x := s.expect(200, "PUT", path, nil)
		if op == "reindex" {
			var inf apiListInfo
			x.json(c, op, &inf)
			a.checkInfo(op, l, inf, true)
			return
		}
		var res struct {
			Error *string      `json:"error"`
			List  *apiListInfo `json:"list"`
		}
		x.json(c, op, &res)
		if res.Error != nil || res.List == nil {
			c.Failf("%s of list %q: %s", op, id, x)
		}
		l2 := *res.List
		if l2.ID != l.id || l2.Set != l.set || l2.SplitSize != l.split || l2.MergeSize != l.merge || l2.LoadIndex != l.loadIndex || len(l.meta)+len(l2.Metadata) > 0 && !reflect.DeepEqual(l.meta, l2.Metadata) {
			c.Failf("%s of list %q: returned %+v, want set %q sizes %d/%d metadata %v", op, id, l2, l.set, l.merge, l.split, l.meta)
		}
		a.checkList("after "+op, l)
		c.Count("maintenance", 1)
	case 11:
		a.checkDirectory("between requests")
	}
}

// lifecycleMalformed sends requests that must be refused.
func (a *apiSim) lifecycleMalformed() {
	r := a.r
	ex := "no-list"
	if len(a.lists) > 0 {
		ex = a.anyList().id
	}
	nw := randListID(r)
	for a.lists[nw] != nil {
		nw = randListID(r)
	}
	id := pick(r, []string{ex, nw})
	q := pick(r, []string{"", "?replace=true"})
	bad := pick(r, []string{
		`{`, `[]`, ``, `"x"`, `null`, `{}`,
		fmt.Sprintf(`{"id":%q}`, id),
		`{"set":"set-a"}`,
		fmt.Sprintf(`{"id":%q,"set":"s"}`, id),
		fmt.Sprintf(`{"id":%q,"set":""}`, id),
		fmt.Sprintf(`{"id":%q,"set":%q}`, id, strings.Repeat("s", 101)),
		fmt.Sprintf(`{"id":%q,"set":"set-a","split_size":9}`, id),
		fmt.Sprintf(`{"id":%q,"set":"set-a","split_size":100001}`, id),
		fmt.Sprintf(`{"id":%q,"set":"set-a","merge_size":9}`, id),
		fmt.Sprintf(`{"id":%q,"set":"set-a","merge_size":100001,"split_size":100000}`, id),
		fmt.Sprintf(`{"id":%q,"set":"set-a","merge_size":20,"split_size":20}`, id),
		fmt.Sprintf(`{"id":%q,"set":"set-a","merge_size":21,"split_size":20}`, id),
		fmt.Sprintf(`{"id":%q,"set":"set-a","merge_size":2000}`, id),
		fmt.Sprintf(`{"id":%q,"set":"set-a","split_size":500}`, id),
		fmt.Sprintf(`{"id":%q,"set":"set-a","split_size":"100"}`, id),
		fmt.Sprintf(`{"id":%q,"set":"set-a","metadata":{"a":1}}`, id),
		fmt.Sprintf(`{"id":%q,"set":"set-a","metadata":["a"]}`, id),
		fmt.Sprintf(`{"id":%q,"set":"set-a","load_index":"maybe"}`, id),
		fmt.Sprintf(`{"id":%q,"set":"set-a","populate":[{"id":1}]}`, id),
		fmt.Sprintf(`{"id":%q,"set":"set-a","populate":[{"score":1}]}`, id),
		fmt.Sprintf(`{"id":%q,"set":"set-a","populate":[{"id":1,"score":2},{"id":-1,"score":1}]}`, id),
		fmt.Sprintf(`{"id":%q,"set":"set-a","populate":{"id":1,"score":2}}`, id),
		fmt.Sprintf(`{"id":%q,"set":"set-a","populate":[{"id":1,"score":2}`, id),
		`{"id":"x","set":"set-a"}`, `{"id":"","set":"set-a"}`, `{"id":"a b","set":"set-a"}`, `{"id":"a/b","set":"set-a"}`, `{"id":"ab\n","set":"set-a"}`, `{"id":"\u00e9\u00e9","set":"set-a"}`, `{"id":"a,b","set":"set-a"}`,
		fmt.Sprintf(`{"id":%q,"set":"set-a"}`, strings.Repeat("i", 101)),
		`{"id":12,"set":"set-a"}`,
	})
	switch r.Intn(4) {
	case 0, 1:
		a.s.clientError("POST", "/lists"+q, bad)
	case 2: // clone
		if a.r.Intn(3) == 0 {
			bad = fmt.Sprintf(`{"id":%q,"set":"set-a","populate":[{"id":1,"score":2}]}`, nw)
		}
		a.s.clientError("PUT", fmt.Sprintf("/lists/%s/clone", esc(ex)), bad)
	case 3:
		p := pick(r, []string{"/lists?limit=0", "/lists?limit=1001", "/lists?limit=-1", "/lists?limit=x", "/lists?limit=1.5",
			"/lists/x", "/lists/" + strings.Repeat("i", 101), "/lists/a%20b", "/lists/%C3%A9%C3%A9", "/lists/" + esc(ex) + "?top_bottom=5"})
		a.s.clientError("GET", p, nil)
		p = pick(r, []string{"/lists/x", "/lists/" + strings.Repeat("i", 101), "/lists/a%20b", "/lists/a,b"})
		a.s.clientError("DELETE", p, nil)
		op := pick(r, []string{"verify?repair=perhaps", "repair?clear=perhaps", "verify?clear=2"})
		a.s.clientError("PUT", "/lists/"+esc(ex)+"/"+op, nil)
		a.s.clientError("POST", "/lists?replace=perhaps", fmt.Sprintf(`{"id":%q,"set":"set-a"}`, id))
	}
	a.c.Count("malformed_requests", 1)
	a.checkDirectory("after a refused request")
	if r.Intn(3) == 0 {
		a.checkAll("after a refused request")
	}
}

// pages walks through the directory. Safe for concurrent use.
func (a *apiSim) pages(limit int) ([]string, error) {
	var out []string
	after := ""
	for {
		q := url.Values{}
		q.Set("limit", fmt.Sprint(limit))
		q.Set("after_id", after)
		x := a.s.try(context.Background(), "GET", "/lists?"+q.Encode(), a.s.auth, nil)
		var res struct {
			Before int           `json:"lists_before"`
			After  int           `json:"lists_after"`
			Lists  []apiListInfo `json:"lists"`
		}
		if x.err != nil || x.code != 200 || json.Unmarshal(x.body, &res) != nil {
			return nil, fmt.Errorf("page after %q: %s", after, x)
		}
		if len(res.Lists) > limit {
			return nil, fmt.Errorf("page after %q with limit %d has %d lists", after, limit, len(res.Lists))
		}
		for _, l := range res.Lists {
			if l.ID <= after {
				return nil, fmt.Errorf("list %q comes after %q", l.ID, after)
			}
			out = append(out, l.ID)
			after = l.ID
		}
		if res.After == 0 {
			return out, nil
		}
	}
}

// lifecycleConcurrent: clients with lists of their own, and clients that want
// the same ID, while others page through the directory.
func (a *apiSim) lifecycleConcurrent() {
	c, s := a.c, a.s
	r := a.r
	nc := 2 + r.Intn(4)
	stable := a.listIDs()
	isStable := map[string]bool{}
	for _, id := range stable {
		isStable[id] = true
	}
	var src *apiList
	if len(stable) > 0 {
		src = a.anyList()
	}
	type result struct {
		mu   sync.Mutex
		wins map[string][]*apiList
	}
	res := result{wins: map[string][]*apiList{}}
	finals := make([]map[string]*apiList, nc)
	contested := make([]string, 4)
	for i := range contested {
		contested[i] = fmt.Sprintf("contested-%d-%d", a.s.cmd.Process.Pid, i)
	}
	wasThere := len(stable)
	stop := make(chan struct{})
	var wg, bg sync.WaitGroup
	for w := 0; w < 2; w++ {
		bg.Add(1)
		go func(r *rand.Rand) {
			defer bg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				got, err := a.pages(pick(r, []int{1, 2, 3, 7, 100}))
				if err != nil {
					c.FailAsync("paging while lists change: %v", err)
					return
				}
				n := 0
				for i, id := range got {
					if i > 0 && got[i-1] >= id {
						c.FailAsync("paging while lists change: %q after %q", id, got[i-1])
						return
					}
					if isStable[id] {
						n++
					}
				}
				if n != wasThere {
					c.FailAsync("paging while other lists change: %d of the %d lists nobody changes were listed: %q, want all of %q", n, wasThere, got, stable)
					return
				}
				c.Count("concurrent_walks", 1)
			}
		}(rand.New(rand.NewSource(r.Int63())))
	}
	// Lists are made beforehand, generating them is not safe for concurrent use.
	type job struct {
		l   *apiList
		pop []inElem
		b   map[string]interface{}
	}
	mk := func(id string, i, n int) job {
		l := a.newList(id)
		l.meta = map[string]string{"who": fmt.Sprint(i), "n": fmt.Sprint(n)}
		var pop []inElem
		for _, x := range a.newIDs(l, 1+r.Intn(25)) {
			e := a.in(x)
			e.Payload = json.RawMessage(fmt.Sprintf(`{"w":%d,"n":%d}`, i, n))
			pop = append(pop, e)
		}
		return job{l, pop, a.listPayload(l, pop)}
	}
	for i := 0; i < nc; i++ {
		var own, want []job
		for n := 0; n < 14; n++ {
			own = append(own, mk(fmt.Sprintf("own-%d-%d-%d", a.s.cmd.Process.Pid, i, n%4), i, n))
		}
		for n, id := range contested {
			want = append(want, mk(id, i, n))
		}
		finals[i] = map[string]*apiList{}
		wg.Add(1)
		go func(i int, r *rand.Rand) {
			defer wg.Done()
			st := finals[i]
			ask := func(m, p string, b interface{}) (resp, bool) {
				x := s.try(context.Background(), m, p, s.auth, b)
				if x.err != nil || x.code >= 500 {
					c.FailAsync("concurrent %s %s: %s", m, p, x)
					return x, false
				}
				return x, !c.Failed()
			}
			store := func(j job, t1 time.Time) *apiList {
				for _, e := range j.pop {
					j.l.mod.put(e.elem(uint32(t1.Unix())))
				}
				return j.l
			}
			for n, j := range own {
				if n%4 == 0 && len(want) > 0 {
					w := want[0]
					want = want[1:]
					p, m := "/lists", "POST"
					clone := src != nil && r.Intn(3) == 0
					if clone {
						p, m = "/lists/"+esc(src.id)+"/clone", "PUT"
						delete(w.b, "populate")
					}
					x, ok := ask(m, p, w.b)
					if !ok {
						return
					}
					switch x.code {
					case 200:
						var l *apiList
						if clone {
							l = w.l
							l.mod = nil // the content of src
						} else {
							l = store(w, time.Now())
						}
						res.mu.Lock()
						res.wins[w.l.id] = append(res.wins[w.l.id], l)
						res.mu.Unlock()
					case 409:
					default:
						c.FailAsync("concurrent creation of list %q: %s", w.l.id, x)
						return
					}
				}
				id := j.l.id
				_, exists := st[id]
				switch r.Intn(5) {
				case 0, 1:
					x, ok := ask("POST", "/lists", j.b)
					if !ok {
						return
					}
					if exists != (x.code == 409) || !exists && x.code != 200 {
						c.FailAsync("creation of list %q by its only client (exists: %v): %s", id, exists, x)
						return
					}
					if !exists {
						st[id] = store(j, time.Now())
					}
				case 2:
					x, ok := ask("POST", "/lists?replace=true", j.b)
					if !ok {
						return
					}
					if x.code != 200 {
						c.FailAsync("replacement of list %q by its only client: %s", id, x)
						return
					}
					st[id] = store(j, time.Now())
				case 3:
					x, ok := ask("DELETE", "/lists/"+id, nil)
					if !ok {
						return
					}
					if x.code != 204 {
						c.FailAsync("deletion of list %q: %s", id, x)
						return
					}
					delete(st, id)
				case 4:
					x, ok := ask("GET", "/lists/"+id, nil)
					if !ok {
						return
					}
					var in apiListInfo
					if exists != (x.code == 200) || exists && (json.Unmarshal(x.body, &in) != nil || in.Elements != st[id].mod.len() || in.Metadata["n"] != st[id].meta["n"]) {
						c.FailAsync("list %q of its only client (exists: %v): %s", id, exists, x)
						return
					}
				}
				c.Count("concurrent_requests", 1)
			}
		}(i, rand.New(rand.NewSource(r.Int63())))
	}
	wg.Wait()
	close(stop)
	bg.Wait()
	if c.Failed() {
		s.alive()
		c.CheckAsync()
	}
	for _, st := range finals {
		for id, l := range st {
			a.lists[id] = l
		}
	}
	for _, id := range contested {
		w := res.wins[id]
		if len(w) != 1 {
			c.Failf("%d of %d concurrent creations of list %q succeeded", len(w), nc, id)
		}
		if w[0].mod == nil {
			w[0].mod = src.mod.clone()
		}
		a.lists[id] = w[0]
		c.Count("contested_lists", 1)
	}
	// The second a list was stored in is not known exactly.
	var ids []string
	for id := range a.lists {
		if !isStable[id] {
			ids = append(ids, id)
		}
	}
	sort.Strings(ids)
	for _, id := range ids {
		l := a.lists[id]
		if l.mod.len() == 0 {
			continue
		}
		var x apiElem
		e := l.mod.list()[0]
		s.expect(200, "GET", l.path("/elements/%d?range=0", e.ID), nil).json(c, "get", &x)
		if d := int64(e.Updated) - x.UpdatedAt.Unix(); d != 0 && d > 0 && d < 100 && strings.HasPrefix(id, "own-") || d > 0 && strings.HasPrefix(id, "contested-") && d < 100 {
			mod := newModel()
			for _, e := range l.mod.list() {
				e.Updated = uint32(x.UpdatedAt.Unix())
				mod.put(e)
			}
			l.mod = mod
		}
	}
}

func runC27(c *C) {
	r := c.Rng
	cfg := randSrvCfg(r, c.TempDir())
	if r.Intn(2) == 0 {
		cfg.storage = "BoltDB"
		cfg.aeroIf(r)
	}
	s := startSrv(c, cfg)
	a := newAPISim(c, s)
	a.plain = true
	a.g.idKind = pick(r, []int{0, 1})
	c.Logf("server: %v", cfg)
	rounds := 1
	if cfg.storage != "Memory" {
		rounds = 2
	}
	for round := 0; round < rounds; round++ {
		for i := 0; i < 45; i++ {
			a.lifecycleStep()
			if len(a.lists) > 0 && r.Intn(3) == 0 {
				a.elementStep(a.anyList())
			}
			if r.Intn(6) == 0 {
				a.lifecycleMalformed()
			}
			if r.Intn(12) == 0 {
				a.checkAll("after a request")
			}
		}
		a.checkDirectory("at the end of the sequence")
		a.checkAll("at the end of the sequence")
		if r.Intn(2) == 0 {
			a.lifecycleConcurrent()
			a.checkDirectory("after concurrent requests")
			a.checkAll("after concurrent requests")
		}
		c.Max("lists", int64(len(a.lists)))
		c.Count("requests", a.s.reqs)
		if round+1 < rounds {
			a.s.stop()
			if cfg.storage == "BoltDB" {
				a.checkBoltFile("after shutdown")
			}
			a.s = startSrv(c, cfg)
			a.checkDirectory("after a restart")
			a.checkAll("after a restart")
			c.Count("restarts", 1)
		}
	}
	c.Sig(cfg.String(), a.listIDs())
	c.NonTrivial()
	c.Sample("%d lists at the end; %v", len(a.lists), cfg)
	a.s.finish()
	if cfg.storage == "BoltDB" {
		a.checkBoltFile("after shutdown")
	}
}
