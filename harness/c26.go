package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/blobstore/boltstore"
	"github.com/etcd-io/bbolt"
)

func init() {
	register(&Check{ID: "C26", Quick: 150, Thorough: 3000, StallSecs: 150, Run: runC26,
		Rule:   "one case = one real server (race instrumented, random storage, cache and background jobs) with 4-12 lists in several sets with different metadata; random multi-list create, update, delete, read, verify, repair and reindex requests with every kind of selection, each answer compared list by list with the models, all lists compared afterwards; then concurrent clients sending multi-list requests on disjoint elements while other lists come and go; on BoltDB then damaged stored lists among healthy ones",
		Assume: []string{"the server and the harness see the same clock"}})
}

// multi sends a multi-list request and checks that exactly the selected lists
// are reported: those in bad as failed, the others as succeeded.
func (a *apiSim) multi(what, method, path string, body interface{}, sel []string, bad func(id string) bool, errorsOnly bool) map[string][]apiElem {
	x := a.s.expect(200, method, path, body)
	return a.multiResult(what, x, sel, bad, errorsOnly)
}

func (a *apiSim) multiResult(what string, x resp, sel []string, bad func(id string) bool, errorsOnly bool) map[string][]apiElem {
	out, err := checkMulti(x, sel, bad, errorsOnly)
	if err != nil {
		a.c.Failf("%s: %v", what, err)
	}
	a.c.Count("list_results", int64(len(sel)))
	return out
}

func checkMulti(x resp, sel []string, bad func(id string) bool, errorsOnly bool) (map[string][]apiElem, error) {
	var res apiResultList
	if err := json.Unmarshal(x.body, &res); err != nil {
		return nil, fmt.Errorf("answer cannot be decoded: %v: %s", err, x)
	}
	var good, fail []string
	for _, id := range sel {
		if bad(id) {
			fail = append(fail, id)
		} else if !errorsOnly {
			good = append(good, id)
		}
	}
	var gotGood, gotFail []string
	out := map[string][]apiElem{}
	for id, v := range res.Success {
		gotGood = append(gotGood, id)
		if v != nil {
			out[id] = v.Results
		}
	}
	for id, e := range res.Errors {
		gotFail = append(gotFail, id)
		if e == "" {
			return nil, fmt.Errorf("list %q failed without a reason", id)
		}
	}
	sort.Strings(gotGood)
	sort.Strings(gotFail)
	if !reflect.DeepEqual(gotGood, good) && len(gotGood)+len(good) > 0 {
		return nil, fmt.Errorf("reported as succeeded: %q, want %q; failed: %v", gotGood, good, res.Errors)
	}
	if !reflect.DeepEqual(gotFail, fail) && len(gotFail)+len(fail) > 0 {
		return nil, fmt.Errorf("reported as failed: %v, want exactly %q", res.Errors, fail)
	}
	return out, nil
}

// missingList is the only reason to fail when nothing is wrong with a list.
func (a *apiSim) missingList(id string) bool { return a.lists[id] == nil }

func boolQ(r *rand.Rand, q *[]string, name string) bool {
	switch r.Intn(4) {
	case 0, 1:
		*q = append(*q, name+"=true")
		return true
	case 2:
		*q = append(*q, name+"=false")
	}
	return false
}

func queryOf(q []string) string {
	if len(q) == 0 {
		return ""
	}
	return "?" + strings.Join(q, "&")
}

// multiElems are elements for several lists: some of them exist in some of them.
func (a *apiSim) multiElems(sel []string, n int) []inElem {
	var out []inElem
	for i := 0; i < n; i++ {
		var id EID
		var l *apiList
		if len(sel) > 0 {
			l = a.lists[pick(a.r, sel)]
		}
		if l == nil {
			l = a.anyList()
		}
		if ids := a.g.existing(l.mod, 1); len(ids) > 0 && a.r.Intn(2) == 0 {
			id = ids[0]
		} else {
			id = a.missing(l)
		}
		e := a.in(id)
		if canonJSON(e.Payload) == nil {
			e.Payload = json.RawMessage(fmt.Sprintf(`{"m":%d}`, a.r.Intn(1000)))
		}
		dup := false
		for _, o := range out {
			dup = dup || o.ID == e.ID && o.Score == e.Score
		}
		if !dup {
			out = append(out, e)
		}
	}
	return out
}

// multiStep sends one multi-list request.
func (a *apiSim) multiStep() {
	c, r := a.c, a.r
	s := a.selection()
	sel := a.selected(s)
	var q []string
	eo := false
	switch k := r.Intn(10); k {
	case 0, 1: // create
		results := boolQ(r, &q, "results")
		eo = boolQ(r, &q, "errors_only")
		in := a.multiElems(nil, r.Intn(4))
		if r.Intn(2) == 0 {
			for i := range in { // mostly new everywhere
				in[i].ID = uint64(a.g.id())
			}
		}
		in = dedupIn(in)
		conflict := func(id string) bool {
			l := a.lists[id]
			if l == nil {
				return true
			}
			for _, e := range in {
				if _, ok := l.mod.m[EID(e.ID)]; ok {
					return true
				}
			}
			return false
		}
		failed := map[string]bool{}
		for _, id := range sel {
			failed[id] = conflict(id)
			if failed[id] && a.lists[id] != nil {
				c.Count("create_conflicts", 1)
			}
		}
		b := in
		if b == nil && r.Intn(2) == 0 {
			b = []inElem{}
		}
		t0 := time.Now()
		res := a.multi("multi-list create", "POST", "/xlist/elements"+queryOf(q), s.body(b), sel, func(id string) bool { return failed[id] }, eo)
		t1 := time.Now()
		for _, id := range sel {
			if failed[id] {
				continue
			}
			l := a.lists[id]
			a.adopt(l, in, t0, t1)
			if !eo {
				var want []Elem
				if results {
					want = a.inOrder(l, inIDs(in))
				}
				a.checkSeq("multi-list create", l, res[id], want, true)
			}
			c.Count("created", int64(len(in)))
		}
	case 2, 3: // put
		results := boolQ(r, &q, "results")
		eo = boolQ(r, &q, "errors_only")
		in := a.multiElems(sel, r.Intn(7))
		b := append([]inElem(nil), in...)
		r.Shuffle(len(b), func(i, j int) { b[i], b[j] = b[j], b[i] })
		if b == nil && r.Intn(2) == 0 {
			b = []inElem{}
		}
		t0 := time.Now()
		res := a.multi("multi-list update", "PUT", "/xlist/elements"+queryOf(q), s.body(b), sel, a.missingList, eo)
		t1 := time.Now()
		for _, id := range sel {
			l := a.lists[id]
			if l == nil {
				continue
			}
			a.adopt(l, in, t0, t1)
			if !eo {
				var want []Elem
				if results {
					want = a.inOrder(l, inIDs(in))
				}
				a.checkSeq("multi-list update", l, res[id], want, true)
			}
			c.Count("updated", int64(len(in)))
		}
	case 4: // delete
		eo = boolQ(r, &q, "errors_only")
		id := EID(a.multiElems(sel, 1)[0].ID)
		a.multi("multi-list delete", "DELETE", fmt.Sprintf("/xlist/elements/%d%s", id, joinQuery(s.query(), q)), nil, sel, a.missingList, eo)
		for _, lid := range sel {
			if l := a.lists[lid]; l != nil {
				if _, ok := l.mod.m[id]; ok {
					c.Count("deleted", 1)
				}
				l.mod.del(id)
			}
		}
	case 5, 6: // get
		id := EID(a.multiElems(sel, 1)[0].ID)
		res := a.multi("multi-list get", "GET", fmt.Sprintf("/xlist/elements/%d%s", id, joinQuery(s.query(), nil)), nil, sel, a.missingList, false)
		for _, lid := range sel {
			if l := a.lists[lid]; l != nil {
				a.checkSeq("multi-list get", l, res[lid], a.inOrder(l, []EID{id}), true)
			}
		}
	case 7, 8: // verify
		elems := boolQ(r, &q, "elements")
		boolQ(r, &q, "repair")
		boolQ(r, &q, "clear")
		eo = boolQ(r, &q, "errors_only")
		if s.empty() {
			sel = a.listIDs()
		}
		a.multi("multi-list verify", "PUT", "/xlist/verify"+queryOf(q), s.body(nil), sel, a.missingList, eo)
		if elems {
			c.Count("verified_elements", int64(len(sel)))
		}
	case 9: // reindex
		eo = boolQ(r, &q, "errors_only")
		if s.empty() {
			sel = a.listIDs()
		}
		a.multi("multi-list reindex", "PUT", "/xlist/reindex"+queryOf(q), s.body(nil), sel, a.missingList, eo)
	}
	c.Max("selected_lists", int64(len(sel)))
	c.Sig(sel, eo)
	if len(s.meta) > 0 {
		c.Count("by_metadata", 1)
	}
	if len(s.sets) > 0 {
		c.Count("by_set", 1)
	}
	if len(s.lists) > 0 {
		c.Count("by_id", 1)
	}
}

func joinQuery(a string, q []string) string {
	a = strings.TrimPrefix(a, "?")
	if a != "" {
		q = append([]string{a}, q...)
	}
	return queryOf(q)
}

func (a *apiSim) multiMalformed() {
	r := a.r
	l := a.anyList()
	id := a.missing(l)
	if ids := a.g.existing(l.mod, 1); len(ids) > 0 {
		id = ids[0]
	}
	nw := a.missing(l)
	all := []struct {
		m, p string
		b    interface{}
	}{
		{"POST", "/xlist/elements", fmt.Sprintf(`{"lists":[%q],"payload":[{"id":%d}]`, l.id, nw)},
		{"PUT", "/xlist/elements", fmt.Sprintf(`{"lists":[%q],"payload":{"id":%d,"score":1}}`, l.id, nw)},
		{"PUT", "/xlist/elements", fmt.Sprintf(`{"lists":%q,"payload":[{"id":%d,"score":1}]}`, l.id, nw)},
		{"PUT", "/xlist/elements", fmt.Sprintf(`{"lists":[%q],"match_metadata":["x"],"payload":[{"id":%d,"score":1}]}`, l.id, nw)},
		{"PUT", "/xlist/elements", fmt.Sprintf(`{"all_in_sets":[1],"payload":[{"id":%d,"score":1}]}`, nw)},
		{"PUT", "/xlist/elements", fmt.Sprintf(`{"lists":[%q],"payload":[{"id":%d,"score":7},{"id":-4,"score":1}]}`, l.id, nw)},
		{"PUT", "/xlist/elements?results=perhaps", fmt.Sprintf(`{"lists":[%q],"payload":[{"id":%d,"score":7}]}`, l.id, nw)},
		{"PUT", "/xlist/elements?errors_only=perhaps", fmt.Sprintf(`{"lists":[%q],"payload":[{"id":%d,"score":7}]}`, l.id, nw)},
		{"DELETE", fmt.Sprintf("/xlist/elements/%d?lists=%s&match_metadata=%s", id, l.id, urlQ(pick(r, []string{"{", `["n"]`, `{"n":1}`, "x", `"n"`}))), nil},
		{"GET", fmt.Sprintf("/xlist/elements/%d?lists=%s&match_metadata=%s", id, l.id, urlQ(pick(r, []string{"{", `["n"]`, `{"n":1}`, "x"}))), nil},
		{"DELETE", fmt.Sprintf("/xlist/elements/%s?lists=%s", pick(r, []string{"abc", "-1", "99999999999999999999", "1,2"}), l.id), nil},
		{"GET", fmt.Sprintf("/xlist/elements/%s?lists=%s", pick(r, []string{"abc", "-1", "99999999999999999999"}), l.id), nil},
		{"DELETE", fmt.Sprintf("/xlist/elements/%d?lists=%s&errors_only=perhaps", id, l.id), nil},
		{"PUT", "/xlist/verify?repair=perhaps", `{}`},
		{"PUT", "/xlist/verify", pick(r, []string{`{`, `[]`, `{"lists":5}`})},
		{"PUT", "/xlist/reindex", pick(r, []string{`{`, `[]`, `{"lists":[5]}`, `{"match_metadata":"x"}`})},
	}
	q := all[r.Intn(len(all))]
	a.s.clientError(q.m, q.p, q.b)
	a.c.Count("malformed_requests", 1)
	a.checkAll("after a refused multi-list request")
}

// multiConcurrent runs clients sending multi-list requests for elements only
// they use, while lists nobody selects by name come and go.
func (a *apiSim) multiConcurrent() {
	c, s := a.c, a.s
	nc := 2 + a.r.Intn(4)
	type key struct {
		list string
		id   EID
	}
	ids := a.listIDs()
	states := make([]map[key]*Elem, nc)
	own := make([][]EID, nc)
	used := map[EID]bool{}
	for i := range own {
		for len(own[i]) < 5 {
			id := a.g.id()
			if a.r.Intn(2) == 0 {
				if x := a.g.existing(a.anyList().mod, 1); len(x) > 0 {
					id = x[0]
				}
			}
			if !used[id] {
				used[id] = true
				own[i] = append(own[i], id)
			}
		}
		states[i] = map[key]*Elem{}
		for _, l := range ids {
			for _, id := range own[i] {
				if e, ok := a.lists[l].mod.m[id]; ok {
					x := cp(e)
					states[i][key{l, id}] = &x
				}
			}
		}
	}
	type req struct {
		s   selection
		sel []string
	}
	var sels []req
	for len(sels) < 40 {
		x := a.selection()
		sels = append(sels, req{x, a.selected(x)})
	}
	stable := map[string]bool{}
	for _, id := range ids {
		stable[id] = true
	}
	const volatile = "zz-tmp"
	drop := func(x resp) resp { // forget results of lists that come and go
		var res apiResultList
		if json.Unmarshal(x.body, &res) != nil {
			return x
		}
		for id := range res.Success {
			if strings.HasPrefix(id, volatile) {
				delete(res.Success, id)
			}
		}
		for id := range res.Errors {
			if strings.HasPrefix(id, volatile) {
				delete(res.Errors, id)
			}
		}
		x.body, _ = json.Marshal(res)
		return x
	}
	stop := make(chan struct{})
	var bg, wg sync.WaitGroup
	bg.Add(1)
	go func(r *rand.Rand) {
		defer bg.Done()
		for i := 0; ; i++ {
			select {
			case <-stop:
				return
			default:
			}
			id := fmt.Sprintf("%s-%d", volatile, i%3)
			b := fmt.Sprintf(`{"id":%q,"set":%q,"metadata":{"p":"0","n":"1"},"populate":[{"id":5,"score":1}]}`, id, pick(r, []string{"set-a", "set-b"}))
			x := s.try(context.Background(), "POST", "/lists", s.auth, b)
			if x.err == nil && x.code != 200 {
				c.FailAsync("create of temporary list %s: %s", id, x)
				return
			}
			x = s.try(context.Background(), "DELETE", "/lists/"+id, s.auth, nil)
			if x.err == nil && x.code != 204 {
				c.FailAsync("delete of temporary list %s: %s", id, x)
				return
			}
		}
	}(rand.New(rand.NewSource(a.r.Int63())))
	for i := 0; i < nc; i++ {
		wg.Add(1)
		go func(i int, r *rand.Rand) {
			defer wg.Done()
			st := states[i]
			for n := 0; n < 20 && !c.Failed(); n++ {
				q := sels[r.Intn(len(sels))]
				id := own[i][r.Intn(len(own[i]))]
				fail := func(id string) bool { return !stable[id] }
				in := inElem{ID: uint64(id), Score: uint64(r.Intn(400)), Payload: json.RawMessage(fmt.Sprintf(`{"c":%d,"n":%d}`, i, n))}
				kind := r.Intn(5)
				var x resp
				t0 := time.Now()
				switch kind {
				case 0:
					x = s.try(context.Background(), "PUT", "/xlist/elements?results=true", s.auth, q.s.body([]inElem{in}))
				case 1:
					x = s.try(context.Background(), "POST", "/xlist/elements?results=true", s.auth, q.s.body([]inElem{in}))
					fail = func(l string) bool { return !stable[l] || st[key{l, id}] != nil }
				case 2:
					x = s.try(context.Background(), "DELETE", fmt.Sprintf("/xlist/elements/%d%s", id, joinQuery(q.s.query(), nil)), s.auth, nil)
				case 3:
					x = s.try(context.Background(), "GET", fmt.Sprintf("/xlist/elements/%d%s", id, joinQuery(q.s.query(), nil)), s.auth, nil)
				case 4:
					x = s.try(context.Background(), "PUT", pick(r, []string{"/xlist/reindex", "/xlist/verify?elements=true"}), s.auth, q.s.body(nil))
					if q.s.empty() {
						q.sel = ids
					}
				}
				t1 := time.Now()
				if x.err != nil || x.code != 200 {
					c.FailAsync("concurrent multi-list request %d: %s", kind, x)
					return
				}
				res, err := checkMulti(drop(x), q.sel, fail, false)
				if err != nil {
					c.FailAsync("concurrent multi-list request %d with %v: %v", kind, q.s, err)
					return
				}
				for _, l := range q.sel {
					k := key{l, id}
					if !stable[l] || kind == 4 {
						continue
					}
					conflict := kind == 1 && st[k] != nil
					switch kind {
					case 0, 1:
						if !conflict {
							w := in.elem(uint32(t1.Unix()))
							if t0.Unix() != t1.Unix() {
								w.Updated = 0 // unknown
							}
							st[k] = &w
						}
					case 2:
						delete(st, k)
						continue
					}
					if conflict {
						continue
					}
					w := st[k]
					g := res[l]
					if (w == nil) != (len(g) == 0) || len(g) > 1 {
						c.FailAsync("concurrent multi-list request %d: element %d in list %s: got %v, its only client left it as %v", kind, id, l, apiIDs(g), w)
						return
					}
					if w != nil && (EID(g[0].ID) != w.ID || g[0].Score != w.Score || string(canonJSON(g[0].Payload)) != string(w.Payload)) {
						c.FailAsync("concurrent multi-list request %d: element %d in list %s is %+v %s, its only client stored %s", kind, id, l, g[0], g[0].Payload, es(*w))
						return
					}
				}
				c.Count("concurrent_requests", 1)
			}
		}(i, rand.New(rand.NewSource(a.r.Int63())))
	}
	wg.Wait()
	close(stop)
	bg.Wait()
	if c.Failed() {
		s.alive()
		c.CheckAsync()
	}
	for i := range own {
		for _, l := range ids {
			for _, id := range own[i] {
				w := states[i][key{l, id}]
				switch {
				case w == nil:
					a.lists[l].mod.del(id)
				case w.Updated == 0:
					var e apiElem
					s.expect(200, "GET", a.lists[l].path("/elements/%d?range=0", id), nil).json(c, "get", &e)
					w.Updated = uint32(e.UpdatedAt.Unix())
					fallthrough
				default:
					a.lists[l].mod.put(*w)
				}
			}
		}
	}
	for i := 0; i < 3; i++ {
		s.expect(204, "DELETE", fmt.Sprintf("/lists/%s-%d", volatile, i), nil)
	}
}

// boltFile reads the file of a stopped server: the lists in the directory and
// all blobs.
func (a *apiSim) boltFile() (map[string]*rankdb.List, *spy) {
	c := a.c
	bs, sp := openBolt(c, filepath.Join(a.s.cfg.dir, "rankdb.bolt"))
	defer bs.Close()
	m, err := rankdb.NewManager(bs, "rankdb")
	if err != nil {
		panic(err)
	}
	if err := m.LoadLists(c.Ctx, nil); err != nil {
		c.Failf("loading the lists a server saved at shutdown: %v", err)
	}
	out := map[string]*rankdb.List{}
	for _, id := range m.Lists.All() {
		l, _ := m.Lists.ByID(id)
		out[string(id)] = l
	}
	return out, sp
}

// checkBoltFile compares the file a stopped server left with the models and
// looks for blobs that belong to no list.
func (a *apiSim) checkBoltFile(what string) {
	c := a.c
	lists, sp := a.boltFile()
	known := map[skey]bool{{"rankdb", "lists"}: true, {"rankdb-backup", "lists-backup"}: true}
	for _, id := range a.listIDs() {
		l := a.lists[id]
		ls := lists[id]
		if ls == nil {
			c.Failf("%s: list %q is not in the saved directory", what, id)
		}
		sc, ix := listRefs(ls)
		got, keys, err := readStored(sp, l.set, sc, ix)
		if err != nil {
			c.Failf("%s: stored state of list %q: %v", what, id, err)
		}
		for _, k := range keys {
			known[skey{l.set, k}] = true
		}
		sort.Slice(got, func(i, j int) bool { return refAbove(got[i], got[j]) })
		for i := range got {
			got[i].Payload = canonJSON(got[i].Payload)
		}
		if d := sameElems(got, l.mod.list()); d != "" {
			c.Failf("%s: stored elements of list %q: %s", what, id, d)
		}
	}
	if len(lists) != len(a.lists) {
		c.Failf("%s: the saved directory has %d lists, want %q", what, len(lists), a.listIDs())
	}
	for k := range sp.snapshot() {
		if !known[k] && !a.leaky {
			c.Failf("%s: blob %q in set %q belongs to no list", what, k.key, k.set)
		}
	}
	c.Count("files_checked", 1)
}

// damage stores damaged lists in the file of a stopped server. Returns the IDs
// of the lists that have lost something, and which elements were lost.
func (a *apiSim) damageBolt() (map[string]string, map[string]map[EID]bool) {
	c, r := a.c, a.r
	lists, sp := a.boltFile()
	bs, err := boltstore.NewBoltStore(filepath.Join(a.s.cfg.dir, "rankdb.bolt"), &bbolt.Options{Timeout: 20 * time.Second})
	if err != nil {
		panic(err)
	}
	defer bs.Close()
	bad := map[string]string{}
	lost := map[string]map[EID]bool{}
	ids := a.listIDs()
	for _, i := range r.Perm(len(ids))[:1+r.Intn(3)] {
		id := ids[i]
		l := a.lists[id]
		if l.mod.len() == 0 {
			continue
		}
		sc, ix := listRefs(lists[id])
		scores, err := readSegs(sp, l.set, sc, true)
		if err != nil {
			c.Failf("stored list %q: %v", id, err)
		}
		index, err := readSegs(sp, l.set, ix, true)
		if err != nil {
			c.Failf("stored index of list %q: %v", id, err)
		}
		kind := pick(r, []string{"index-layout", "index-elements", "elements"})
		var key string
		del := r.Intn(2) == 0
		lost[id] = map[EID]bool{}
		switch kind {
		case "index-layout":
			key = ix
			a.leaky = true // what it refers to cannot be found
		case "index-elements":
			sg := index.Segs[r.Intn(len(index.Segs))]
			if len(sg.Elems) == 0 {
				continue
			}
			key = sg.Key
		case "elements":
			sg := scores.Segs[r.Intn(len(scores.Segs))]
			if len(sg.Elems) == 0 {
				continue
			}
			key, del = sg.Key, true
			for _, e := range sg.Elems {
				lost[id][e.ID] = true
			}
		}
		if del {
			err = bs.Delete(context.Background(), l.set, key)
		} else {
			err = bs.Set(context.Background(), l.set, key, []byte{0x77, 1, 2})
		}
		if err != nil {
			panic(err)
		}
		bad[id] = kind
		c.Logf("damage %s of list %s (key %s, deleted %v)", kind, id, key, del)
		c.Count("damaged_lists", 1)
	}
	return bad, lost
}

// multiDamaged runs multi-list requests over healthy and damaged lists.
func (a *apiSim) multiDamaged() {
	c, r := a.c, a.r
	a.s.stop()
	bad, lost := a.damageBolt()
	// Lists loaded at start are checked (and may be reindexed) in the
	// background, so only what is found must be consistent.
	a.s = startSrv(c, a.s.cfg)
	all := selection{sets: []string{"set-a", "set-b", "set-c"}}
	sel := a.selected(all)
	touched := map[EID]Elem{}
	either := func(what string, x resp) map[string][]apiElem {
		var res apiResultList
		x.json(c, what, &res)
		out := map[string][]apiElem{}
		for _, id := range sel {
			s, ok := res.Success[id]
			e, failed := res.Errors[id]
			if ok == failed {
				c.Failf("%s: list %q: success %v, error %q", what, id, ok, e)
			}
			if failed && bad[id] == "" {
				c.Failf("%s: list %q failed with %q, only %v are damaged", what, id, e, bad)
			}
			if failed {
				c.Count("damaged_reported", 1)
			}
			if ok && s != nil {
				out[id] = s.Results
			}
		}
		if len(res.Success)+len(res.Errors) != len(sel) {
			c.Failf("%s: %s, want exactly the lists %q", what, x, sel)
		}
		return out
	}
	for i := 0; i < 3; i++ {
		id := EID(a.multiElems(sel, 1)[0].ID)
		res := either("multi-list get with damaged lists", a.s.expect(200, "GET", fmt.Sprintf("/xlist/elements/%d%s", id, joinQuery(all.query(), nil)), nil))
		for _, lid := range sel {
			if bad[lid] == "" {
				a.checkSeq("multi-list get with damaged lists", a.lists[lid], res[lid], a.inOrder(a.lists[lid], []EID{id}), true)
			}
		}
	}
	// Verify reports the damage.
	x := a.s.expect(200, "PUT", "/xlist/verify?elements=true", pick(r, []interface{}{all.body(nil), `{}`}))
	either("multi-list verify with damaged lists", x)
	var res apiResultList
	x.json(c, "verify", &res)
	for id, kind := range bad {
		if kind == "elements" && res.Errors[id] == "" {
			c.Failf("multi-list verify: list %q lost the elements %v, no error is reported", id, lost[id])
		}
	}
	// Updates of healthy lists work.
	if r.Intn(2) == 0 {
		for i := 0; i < 2; i++ {
			in := a.multiElems(sel, 1+r.Intn(3))
			in = dedupIn(in)
			t0 := time.Now()
			either("multi-list update with damaged lists", a.s.expect(200, "PUT", "/xlist/elements?results=true", all.body(in)))
			t1 := time.Now()
			for _, id := range sel {
				if bad[id] == "" {
					a.adopt(a.lists[id], in, t0, t1)
				}
			}
			for _, e := range in {
				touched[EID(e.ID)] = e.elem(uint32(t1.Unix()))
			}
		}
		for _, id := range sel {
			if bad[id] == "" {
				a.checkList("after a multi-list update with damaged lists", a.lists[id])
			}
		}
	}
	// Repair, some lists on their own.
	for _, id := range sel {
		if r.Intn(3) > 0 {
			continue
		}
		l := a.lists[id]
		type listOp struct {
			Error *string `json:"error"`
		}
		var res listOp
		one := func(p string) {
			res = listOp{}
			a.s.expect(200, "PUT", l.path("%s", p), nil).json(c, p, &res)
		}
		one("/verify")
		if bad[id] == "" && res.Error != nil {
			c.Failf("verify: list %q: %s, only %v are damaged", id, *res.Error, bad)
		}
		if bad[id] == "elements" && res.Error == nil {
			c.Failf("verify: list %q lost the elements %v, no error is reported", id, lost[id])
		}
		p := pick(r, []string{"/verify?repair=true", "/repair", "/verify?repair=true&clear=true", "/repair?clear=true"})
		one(p)
		if res.Error != nil {
			c.Failf("%s: list %q (%s): %s", p, id, bad[id], *res.Error)
		}
		one("/verify")
		if res.Error != nil {
			c.Failf("verify after %s: list %q (%s): %s", p, id, bad[id], *res.Error)
		}
		c.Count("repaired_alone", 1)
	}
	x = a.s.expect(200, "PUT", "/xlist/verify?elements=true&repair=true", pick(r, []interface{}{all.body(nil), `{}`}))
	either("multi-list repair", x)
	res = apiResultList{}
	x.json(c, "repair", &res)
	if len(res.Errors) > 0 {
		c.Failf("multi-list repair: %v, damaged: %v", res.Errors, bad)
	}
	for _, id := range sel {
		l := a.lists[id]
		if bad[id] == "" {
			continue
		}
		// What is left.
		var got []apiElem
		for off := 0; ; off += 1000 {
			x := a.s.do("GET", l.path("/range?from_top=%d&limit=1000", off), nil)
			if x.code == 404 {
				break
			}
			var es []apiElem
			x.json(c, "range", &es)
			got = append(got, es...)
		}
		have := map[EID]apiElem{}
		for _, e := range got {
			have[EID(e.ID)] = e
		}
		mod := newModel()
		for eid, e := range have {
			g := Elem{ID: eid, Score: e.Score, TieBreaker: e.TieBreaker, Payload: canonJSON(e.Payload), Updated: uint32(e.UpdatedAt.Unix())}
			w, ok := l.mod.m[eid]
			_, t := touched[eid]
			if !t && (!ok || lost[id][eid] || !eq(w, g)) {
				c.Failf("repaired list %q (%s): element %s, want %v %s", id, bad[id], es(g), ok, es(w))
			}
			mod.put(g)
		}
		for eid, e := range l.mod.m {
			_, t := touched[eid]
			if _, ok := have[eid]; !ok && !t && !lost[id][eid] {
				c.Failf("repaired list %q (%s): element %s was lost", id, bad[id], es(e))
			}
		}
		l.mod = mod
	}
	a.checkAll("after multi-list repair")
	q := a.multi("verify after repair", "PUT", "/xlist/verify?elements=true", `{}`, a.listIDs(), a.missingList, false)
	_ = q
	c.Count("damage_rounds", 1)
}

func runC26(c *C) {
	r := c.Rng
	cfg := randSrvCfg(r, c.TempDir())
	if r.Intn(3) == 0 {
		cfg.storage = "BoltDB"
		cfg.aeroIf(r)
	}
	s := startSrv(c, cfg)
	a := newAPISim(c, s)
	a.plain = true
	a.g.idKind = pick(r, []int{0, 1})
	c.Logf("server: %v", cfg)
	nl := 4 + r.Intn(9)
	for i := 0; i < nl; i++ {
		var meta map[string]string
		switch r.Intn(5) {
		case 0:
		case 1:
			meta = map[string]string{}
		default:
			meta = map[string]string{"n": fmt.Sprint(r.Intn(4)), "p": fmt.Sprint(i % 2)}
			if r.Intn(4) == 0 {
				meta["other"] = pick(r, []string{"x", ""})
			}
		}
		a.create(fmt.Sprintf("list-%d", i), pick(r, []string{"set-a", "set-b", "set-c"}), r.Intn(40), meta)
	}
	for i := 0; i < 50; i++ {
		a.multiStep()
		if r.Intn(4) == 0 {
			a.elementStep(a.anyList())
		}
		if r.Intn(12) == 0 {
			a.multiMalformed()
		}
		if r.Intn(6) == 0 {
			a.checkAll("after a multi-list request")
		}
	}
	a.checkAll("at the end of the sequence")
	a.multiConcurrent()
	a.checkAll("after concurrent multi-list requests")
	a.checkDirectory("after concurrent multi-list requests")
	a.multi("verify at the end", "PUT", "/xlist/verify?elements=true", `{}`, a.listIDs(), a.missingList, false)
	if cfg.storage == "BoltDB" && len(a.lists) > 0 {
		a.multiDamaged()
	}
	c.Count("requests", a.s.reqs)
	c.NonTrivial()
	c.Sample("%d lists, %d requests; %v", nl, a.s.reqs, cfg)
	a.s.finish()
	if cfg.storage == "BoltDB" {
		a.checkBoltFile("after shutdown")
	}
}
