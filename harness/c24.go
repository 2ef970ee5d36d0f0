package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"
)

func init() {
	register(&Check{ID: "C24", Quick: 200, Thorough: 4000, StallSecs: 150, Run: runC24,
		Rule:   "one case = one real server process (race instrumented, random storage, cache and background jobs) driven over HTTP with a random sequence of valid and malformed element requests on several lists; every answer is compared with the list model, every refused request must leave all content unchanged; then concurrent clients on disjoint elements and competing creations of the same element",
		Assume: []string{"the server and the harness see the same clock; update times are taken from answers and must lie within the request"}})
}

func runC24(c *C) {
	r := c.Rng
	cfg := randSrvCfg(r, c.TempDir())
	s := startSrv(c, cfg)
	a := newAPISim(c, s)
	c.Logf("server: %v", cfg)
	nl := 1 + r.Intn(3)
	for i := 0; i < nl; i++ {
		a.create(fmt.Sprintf("list-%d", i), pick(r, []string{"set-a", "set-b"}), r.Intn(60), map[string]string{"n": fmt.Sprint(i)})
	}
	steps := 110
	for i := 0; i < steps; i++ {
		a.elementStep(a.anyList())
		if r.Intn(5) == 0 {
			a.malformed(a.anyList())
		}
		if r.Intn(25) == 0 {
			a.checkAll("after a step")
		}
	}
	a.checkAll("at the end of the sequence")
	a.concurrentClients(a.anyList())
	a.checkAll("after concurrent clients")
	for _, id := range a.listIDs() {
		a.verify(a.lists[id])
	}
	c.Count("requests", s.reqs)
	c.NonTrivial()
	c.Sig(cfg.String(), nl, s.reqs)
	c.Sample("%d requests on %d lists; %v", s.reqs, nl, cfg)
	s.finish()
}

func (a *apiSim) verify(l *apiList) {
	var res struct {
		Error *string      `json:"error"`
		List  *apiListInfo `json:"list"`
	}
	a.s.expect(200, "PUT", l.path("/verify"), nil).json(a.c, "verify", &res)
	if res.Error != nil {
		a.c.Failf("list %s does not verify: %s", l.id, *res.Error)
	}
	if res.List == nil || res.List.ID != l.id {
		a.c.Failf("verify of list %s returned %+v", l.id, res.List)
	}
}

// rangeParam returns a query part and the range it asks for.
func (a *apiSim) rangeParam() (string, int) {
	if a.r.Intn(3) == 0 {
		return "", 5
	}
	n := pick(a.r, []int{0, 1, 2, 5, 13, 100})
	return fmt.Sprintf("?range=%d", n), n
}

// elementStep performs one valid element request.
func (a *apiSim) elementStep(l *apiList) {
	c, r, s := a.c, a.r, a.s
	some := func() EID {
		if ids := a.g.existing(l.mod, 1); len(ids) > 0 && r.Intn(5) > 0 {
			return ids[0]
		}
		return a.missing(l)
	}
	switch k := r.Intn(14); k {
	case 0, 1: // create
		id := some()
		if r.Intn(2) == 0 {
			id = a.missing(l)
		}
		e := a.in(id)
		q, rng := a.rangeParam()
		_, exists := l.mod.m[id]
		t0 := time.Now()
		if exists {
			s.expect(409, "POST", l.path("/elements%s", q), e)
			c.Count("create_conflicts", 1)
			return
		}
		var x apiElem
		s.expect(200, "POST", l.path("/elements%s", q), e).json(c, "create", &x)
		l.mod.put(e.elem(a.upd("create", x, t0, time.Now())))
		a.checkFull("create element", l, x, rng)
		c.Count("creates", 1)
	case 2: // get
		id := some()
		q, rng := a.rangeParam()
		if _, ok := l.mod.m[id]; !ok {
			s.expect(404, "GET", l.path("/elements/%d%s", id, q), nil)
			c.Count("get_missing", 1)
			return
		}
		var x apiElem
		s.expect(200, "GET", l.path("/elements/%d%s", id, q), nil).json(c, "get", &x)
		if EID(x.ID) != id {
			c.Failf("get of element %d returned %d", id, x.ID)
		}
		a.checkFull("get element", l, x, rng)
		c.Count("gets", 1)
	case 3, 4: // put
		id := some()
		old, exists := l.mod.m[id]
		var before apiElem
		e := a.in(id)
		if exists {
			e = a.change(l, id)
			p, _ := l.mod.rank(id)
			b := l.mod.len() - 1 - p
			before.FromTop, before.FromBottom = &p, &b
		}
		nullUpdate := !a.plain && exists && old.Payload != nil && r.Intn(6) == 0
		if nullUpdate {
			e.Payload = pick(r, []json.RawMessage{nil, json.RawMessage("null")})
		}
		q, rng := a.rangeParam()
		t0 := time.Now()
		var x apiElem
		s.expect(200, "PUT", l.path("/elements/%d%s", id, q), e).json(c, "put", &x)
		l.mod.put(e.elem(a.upd("put", x, t0, time.Now())))
		if nullUpdate {
			// The API says that null does not update the payload.
			m := e.elem(uint32(x.UpdatedAt.Unix()))
			if canonJSON(x.Payload) == nil {
				c.Known("null-payload-clears", "an update without payload (or null) clears the stored payload; the API documents that null means do not update")
			} else {
				m.Payload = old.Payload
			}
			l.mod.put(m)
		}
		a.checkFull("put element", l, x, rng)
		if (x.Previous != nil) != exists {
			c.Failf("put of element %d (existed: %v) returned previous rank %v", id, exists, x.Previous)
		}
		if exists {
			p := x.Previous
			if EID(p.ID) != id || p.FromTop == nil || p.FromBottom == nil || *p.FromTop != *before.FromTop || *p.FromBottom != *before.FromBottom || p.Score != old.Score || p.TieBreaker != old.TieBreaker || string(canonJSON(p.Payload)) != string(old.Payload) || uint32(p.UpdatedAt.Unix()) != old.Updated || p.ListID != l.id {
				c.Failf("put of element %d: previous rank is %+v (top %s bottom %s), was %s at %d", id, *p, pint(p.FromTop), pint(p.FromBottom), es(old), *before.FromTop)
			}
			c.Count("updates", 1)
		}
	case 5, 6: // put multi
		var batch []inElem
		for _, id := range a.g.existing(l.mod, r.Intn(8)) {
			batch = append(batch, a.change(l, id))
		}
		for _, id := range a.newIDs(l, r.Intn(8)) {
			batch = append(batch, a.in(id))
		}
		if len(batch) > 0 && r.Intn(3) == 0 { // duplicates
			d := batch[r.Intn(len(batch))]
			e := a.in(EID(d.ID))
			if canonJSON(e.Payload) == nil {
				e.Payload = json.RawMessage(`{"dup":1}`)
			}
			// The order of equal elements in one request is not specified.
			if e.Score == d.Score {
				e.Score ^= 1
			}
			clash := false
			for _, b := range batch {
				clash = clash || b.ID == e.ID && b.Score == e.Score
			}
			if !clash {
				batch = append(batch, e)
			}
		}
		r.Shuffle(len(batch), func(i, j int) { batch[i], batch[j] = batch[j], batch[i] })
		results := r.Intn(2) == 0
		q := ""
		if results || r.Intn(2) == 0 {
			q = fmt.Sprintf("?results=%v", results)
		}
		if batch == nil {
			batch = []inElem{}
		}
		t0 := time.Now()
		var x apiMulti
		s.expect(200, "PUT", l.path("/elements%s", q), batch).json(c, "put multi", &x)
		a.adopt(l, batch, t0, time.Now())
		if len(x.NotFound) > 0 {
			c.Failf("put multi: not found %v", x.NotFound)
		}
		if !results {
			if len(x.Found) > 0 {
				c.Failf("put multi without results returned elements %v", apiIDs(x.Found))
			}
		} else {
			a.checkSeq("put multi", l, x.Found, a.inOrder(l, inIDs(batch)), false)
		}
		c.Count("batch_elements", int64(len(batch)))
	case 7: // delete one
		id := some()
		s.expect(204, "DELETE", l.path("/elements/%d", id), nil)
		l.mod.del(id)
		c.Count("deletes", 1)
	case 8: // delete multi
		ids := a.g.existing(l.mod, 1+r.Intn(5))
		if len(ids) == 0 || r.Intn(3) == 0 {
			ids = append(ids, a.missing(l))
		}
		if r.Intn(3) == 0 {
			ids = append(ids, ids[0])
		}
		var q []string
		for _, id := range ids {
			q = append(q, fmt.Sprintf("element_ids=%d", id))
		}
		s.expect(204, "DELETE", l.path("/elements?%s", strings.Join(q, "&")), nil)
		l.mod.del(ids...)
		c.Count("deletes", int64(len(ids)))
	case 9: // find
		ids := a.g.existing(l.mod, r.Intn(10))
		for i := r.Intn(4); i > 0; i-- {
			ids = append(ids, a.missing(l))
		}
		if len(ids) > 0 && r.Intn(3) == 0 {
			ids = append(ids, ids[0])
		}
		r.Shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
		var x apiMulti
		s.expect(200, "POST", l.path("/elements/find"), map[string]interface{}{"element_ids": uids(ids)}).json(c, "find", &x)
		a.checkSeq("find", l, x.Found, a.inOrder(l, ids), false)
		nf := map[uint64]bool{}
		for _, id := range ids {
			if _, ok := l.mod.m[id]; !ok {
				nf[uint64(id)] = true
			}
		}
		for _, id := range x.NotFound {
			if !nf[id] {
				c.Failf("find: %d is reported as not found", id)
			}
			delete(nf, id)
		}
		if len(nf) > 0 {
			c.Failf("find: missing elements %v are not reported as not found: %v", nf, x.NotFound)
		}
		c.Count("finds", 1)
	case 10: // around
		id := some()
		ids := a.g.existing(l.mod, r.Intn(12))
		if r.Intn(2) == 0 {
			ids = append(ids, a.missing(l))
		}
		q, rng := a.rangeParam()
		body := map[string]interface{}{"element_ids": uids(ids)}
		if _, ok := l.mod.m[id]; !ok {
			s.expect(404, "POST", l.path("/elements/%d/around%s", id, q), body)
			return
		}
		var x apiElem
		s.expect(200, "POST", l.path("/elements/%d/around%s", id, q), body).json(c, "around", &x)
		grp := a.inOrder(l, append(ids, id))
		at := -1
		for i, e := range grp {
			if e.ID == id {
				at = i
			}
		}
		a.checkElem("around", l, x, false)
		if EID(x.ID) != id || x.LocalTop == nil || x.LocalBottom == nil || *x.LocalTop != at || *x.LocalBottom != len(grp)-1-at {
			c.Failf("around: element %d is at %s/%s within the group, want %d of %d", x.ID, pint(x.LocalTop), pint(x.LocalBottom), at, len(grp))
		}
		lo, hi := at-rng, at+1+rng
		if lo < 0 {
			lo = 0
		}
		if hi > len(grp) {
			hi = len(grp)
		}
		var above, below []apiElem
		if x.Neighbors != nil {
			above, below = x.Neighbors.Above, x.Neighbors.Below
		}
		a.checkSeq("around, above", l, above, grp[lo:at], false)
		a.checkSeq("around, below", l, below, grp[at+1:hi], false)
		c.Count("arounds", 1)
	case 11: // range
		n := l.mod.len()
		off, limit := r.Intn(n+3), pick(r, []int{1, 2, 7, 25, 1000})
		q := fmt.Sprintf("&limit=%d", limit)
		if r.Intn(4) == 0 {
			q, limit = "", 25
		}
		top := r.Intn(2) == 0
		p := l.path("/range?from_top=%d%s", off, q)
		if !top {
			p = l.path("/range?from_bottom=%d%s", off, q)
		}
		if off >= n {
			s.expect(404, "GET", p, nil)
			c.Count("range_out_of_bounds", 1)
			return
		}
		var x []apiElem
		s.expect(200, "GET", p, nil).json(c, "range", &x)
		from := off
		if !top {
			from = n - 1 - off
		}
		hi := from + limit
		if hi > n {
			hi = n
		}
		a.checkSeq("range", l, x, l.mod.list()[from:hi], false)
		c.Count("ranges", 1)
	case 12: // percentile
		n := l.mod.len()
		q, rng := a.rangeParam()
		q = strings.TrimPrefix(q, "?")
		txt := pick(r, []string{"0", "100", "50", "50.0", "12.5", "99.999", "1e-7", "+25", "-0", fmt.Sprint(r.Float64() * 100)})
		var p float64
		fmt.Sscan(txt, &p)
		if txt == "-0" {
			p = 0
		}
		path := l.path("/percentile?from_top=%s&%s", strings.ReplaceAll(txt, "+", "%2B"), q)
		if r.Intn(5) == 0 {
			path, p = l.path("/percentile?%s", q), 50
		}
		if n == 0 {
			s.expect(404, "GET", path, nil)
			return
		}
		var x apiElem
		s.expect(200, "GET", path, nil).json(c, "percentile", &x)
		want := floorMul(math.Min(1, p/100), n)
		if want >= n {
			want = n - 1
		}
		if pos, ok := l.mod.rank(EID(x.ID)); !ok || pos != want {
			c.Failf("percentile %s of %d elements returned element %d at position %d (%v), want position %d", txt, n, x.ID, pos, ok, want)
		}
		a.checkFull("percentile", l, x, rng)
		c.Count("percentiles", 1)
	case 13:
		if a.plain || r.Intn(3) > 0 {
			a.getInfo(l)
			return
		}
		// Elements without ID or score in a batch.
		id := some()
		in := inElem{ID: uint64(id)}
		if o := l.mod.m[id]; o.Payload != nil {
			in.Payload = json.RawMessage(`{"bad":1}`)
		}
		body := fmt.Sprintf(`[{"id":%d,"payload":{"bad":1}}]`, id)
		if r.Intn(2) == 0 {
			in.ID, in.Score = 0, uint64(r.Intn(50))
			body = fmt.Sprintf(`[{"score":%d,"payload":{"bad":1}}]`, in.Score)
		}
		in.Payload = json.RawMessage(`{"bad":1}`)
		t0 := time.Now()
		x := s.do("PUT", l.path("/elements"), body)
		switch {
		case x.code == 200:
			c.Known("batch-missing-required", "PUT of several elements accepts elements without the required id or score and stores them as 0")
			a.adopt(l, []inElem{in}, t0, time.Now())
		case x.code < 400 || x.code > 499:
			c.Failf("put multi of an element without ID or score: %s", x)
		}
		// Nulls are ignored or refused.
		if x = s.do("PUT", l.path("/elements"), pick(r, []string{`[null]`, `[null,null]`})); x.code != 200 && (x.code < 400 || x.code > 499) {
			c.Failf("put multi of null: %s", x)
		}
	}
}

func uids(ids []EID) []uint64 {
	out := []uint64{}
	for _, id := range ids {
		out = append(out, uint64(id))
	}
	return out
}

func inIDs(es []inElem) []EID {
	var out []EID
	for _, e := range es {
		out = append(out, EID(e.ID))
	}
	return out
}

// inOrder returns the elements of l with the given IDs in rank order.
func (a *apiSim) inOrder(l *apiList, ids []EID) []Elem {
	seen := map[EID]bool{}
	var out []Elem
	for _, id := range ids {
		if e, ok := l.mod.m[id]; ok && !seen[id] {
			seen[id] = true
			out = append(out, e)
		}
	}
	refSort(out)
	return out
}

// malformed sends requests that must be refused and checks that nothing changed.
func (a *apiSim) malformed(l *apiList) {
	r, s := a.r, a.s
	ex := a.missing(l)
	if ids := a.g.existing(l.mod, 1); len(ids) > 0 {
		ex = ids[0]
	}
	nw := a.missing(l)
	type rq struct {
		m, p string
		b    interface{}
	}
	bodies := []string{`{`, `[]`, `{"id":-1,"score":1}`, `{"score":1}`, `{"id":%d}`, `{"id":"x","score":1}`, `{"id":%d,"score":1.5}`, `{"id":%d,"score":-1}`, `{"id":%d,"score":18446744073709551616}`,
		`{"id":18446744073709551616,"score":1}`, `{"id":%d,"score":1,"tie_breaker":4294967296}`, `{"id":%d,"score":1,"tie_breaker":-1}`, `"x"`, `12`, `{"id":%d,"score":"1"}`, `null`, ``, `{"id":%d,"score":1,"payload":{]}`, `{"id":%d,"score":1`, "\x00", `{"id":null,"score":null}`}
	body := func() string {
		b := pick(r, bodies)
		if strings.Contains(b, "%d") {
			return fmt.Sprintf(b, pick(r, []EID{ex, nw}))
		}
		return b
	}
	elemOK := fmt.Sprintf(`{"id":%d,"score":7}`, nw)
	list := func(p string) string { return "/lists/" + p }
	all := []rq{
		{"POST", l.path("/elements"), body()},
		{"PUT", l.path("/elements/%d", ex), body()},
		{"PUT", l.path("/elements/%d", nw), body()},
		{"PUT", l.path("/elements/%d", ex), elemOK},
		{"PUT", l.path("/elements/%d", pick(r, []EID{ex, nw})), fmt.Sprintf(`{"id":%d,"score":7}`, pick(r, []EID{0, nw + 1, ex + 1, nw ^ 1<<63, nw * 10}))},
		{"PUT", l.path("/elements"), pick(r, []string{`{`, `{"id":1,"score":2}`, fmt.Sprintf(`[{"id":%d,"score":5},{"id":-1,"score":3}]`, nw), fmt.Sprintf(`[{"id":%d,"score":5},3]`, ex), `"x"`, fmt.Sprintf(`[{"id":%d,"score":5},`, ex)})},
		{"POST", l.path("/elements?range=%s", pick(r, []string{"-1", "101", "x", "1.5", "99999999999999999999"})), elemOK},
		{"PUT", l.path("/elements/%d?range=%s", nw, pick(r, []string{"-1", "101", "x", "1.5"})), elemOK},
		{"GET", l.path("/elements/%d?range=%s", ex, pick(r, []string{"-1", "101", "x", "1.5"})), nil},
		{"GET", l.path("/elements/%s", pick(r, []string{"abc", "-1", "99999999999999999999", "123456789012345678901", "1.5", "0x10", "%20", "1%20"})), nil},
		{"DELETE", l.path("/elements/%s", pick(r, []string{"abc", "-1", "99999999999999999999", "123456789012345678901", "1,2"})), nil},
		{"DELETE", l.path("/elements?element_ids=%d&element_ids=%s", ex, pick(r, []string{"abc", "-1", "99999999999999999999", "", "1,2"})), nil},
		{"PUT", l.path("/elements/%s", pick(r, []string{"abc", "-1", "99999999999999999999"})), elemOK},
		{"POST", l.path("/elements/find"), pick(r, []string{`{`, `{}`, `{"element_ids":[-1]}`, `{"element_ids":["a"]}`, `{"element_ids":5}`, `[]`, `{"element_ids":[18446744073709551616]}`, ``, `null`, `{"element_ids":null}`})},
		{"POST", l.path("/elements/%d/around", ex), pick(r, []string{`{`, `{}`, `{"element_ids":[-1]}`, `{"element_ids":["a"]}`, ``, `null`})},
		{"POST", l.path("/elements/%s/around", pick(r, []string{"abc", "99999999999999999999"})), `{"element_ids":[1]}`},
		{"GET", l.path("/range?%s", pick(r, []string{"", "from_top=0&from_bottom=0", "from_top=-1", "from_bottom=-1", "from_top=x", "from_top=0&limit=0", "from_top=0&limit=1001", "from_top=0&limit=x", "from_bottom=1&limit=-5", "from_top=99999999999999999999"})), nil},
		{"GET", l.path("/percentile?from_top=%s", pick(r, []string{"x", "-1", "100.0001", "101", "NaN", "nan", "Inf", "-Inf", "1e400", "1e300", "0.5.5", "50%25", "-0.0001"})), nil},
		{"GET", l.path("/percentile?from_top=10&range=%s", pick(r, []string{"-1", "101", "x"})), nil},
		{"GET", l.path("?top_bottom=perhaps"), nil},
		{"PUT", l.path("/elements?results=perhaps"), "[" + elemOK + "]"},
		{"PATCH", l.path("/elements"), elemOK},
		{"POST", l.path("/elements/%d", ex), elemOK},
		// lists that do not exist
		{"POST", list("nolist/elements"), elemOK},
		{"PUT", list("nolist/elements"), "[" + elemOK + "]"},
		{"PUT", list(fmt.Sprintf("nolist/elements/%d", nw)), elemOK},
		{"GET", list(fmt.Sprintf("nolist/elements/%d", ex)), nil},
		{"DELETE", list(fmt.Sprintf("nolist/elements/%d", ex)), nil},
		{"DELETE", list(fmt.Sprintf("nolist/elements?element_ids=%d", ex)), nil},
		{"POST", list("nolist/elements/find"), fmt.Sprintf(`{"element_ids":[%d]}`, ex)},
		{"POST", list(fmt.Sprintf("nolist/elements/%d/around", ex)), fmt.Sprintf(`{"element_ids":[%d]}`, ex)},
		{"GET", list("nolist"), nil},
		{"GET", list("nolist/range?from_top=0"), nil},
		{"GET", list("nolist/percentile"), nil},
		{"GET", list(pick(r, []string{"x", "a%2Fb", "%C3%A9%C3%A9", "a%20b", strings.Repeat("a", 101), "a,b"}) + "/range?from_top=0"), nil},
	}
	for i := 1 + r.Intn(4); i > 0; i-- {
		q := all[r.Intn(len(all))]
		res := s.clientError(q.m, q.p, q.b)
		if strings.HasPrefix(q.p, "/lists/nolist") && res.code != 404 {
			a.c.Failf("%s %s %v: got %s, want not found", q.m, q.p, q.b, res)
		}
		a.c.Count("malformed_requests", 1)
	}
	a.checkAll("after a refused request")
}

// concurrentClients runs clients that own disjoint elements and that compete
// for the creation of others.
func (a *apiSim) concurrentClients(l *apiList) {
	c, s := a.c, a.s
	nc := 2 + a.r.Intn(5)
	// Every client gets a part of the existing elements and new ones.
	own := make([][]EID, nc)
	for i, e := range l.mod.list() {
		own[i%nc] = append(own[i%nc], e.ID)
	}
	for i, id := range a.newIDs(l, nc*6) {
		own[i%nc] = append(own[i%nc], id)
	}
	taken := map[EID]bool{}
	for _, o := range own {
		for _, id := range o {
			taken[id] = true
		}
	}
	var contested []EID
	for len(contested) < 6 {
		if id := a.missing(l); !taken[id] {
			taken[id] = true
			contested = append(contested, id)
		}
	}
	type won struct {
		e Elem
		n int
	}
	wins := map[EID]won{}
	var mu sync.Mutex
	state := make([]map[EID]*Elem, nc)
	var wg sync.WaitGroup
	for i := 0; i < nc; i++ {
		st := map[EID]*Elem{}
		for _, id := range own[i] {
			if e, ok := l.mod.m[id]; ok {
				x := cp(e)
				st[id] = &x
			}
		}
		state[i] = st
		wg.Add(1)
		go func(i int, r *rand.Rand, ids []EID) {
			defer wg.Done()
			ask := func(m, p string, b interface{}) (resp, bool) {
				x := s.try(context.Background(), m, p, s.auth, b)
				if x.err != nil || x.code >= 500 {
					c.FailAsync("concurrent %s %s %s: %s", m, p, bodyText(b), x)
					return x, false
				}
				return x, !c.Failed()
			}
			same := func(what string, e apiElem, w *Elem) bool {
				if w == nil {
					c.FailAsync("%s: element %d is present, its only client has deleted it", what, e.ID)
					return false
				}
				if e.Score != w.Score || e.TieBreaker != w.TieBreaker || string(canonJSON(e.Payload)) != string(w.Payload) || e.UpdatedAt == nil || uint32(e.UpdatedAt.Unix()) != w.Updated {
					c.FailAsync("%s: element %d is %+v %s, its only client stored %s %s", what, e.ID, e, e.Payload, es(*w), w.Payload)
					return false
				}
				return true
			}
			for step := 0; step < 25; step++ {
				id := ids[r.Intn(len(ids))]
				in := inElem{ID: uint64(id), Score: uint64(r.Intn(500)), Payload: json.RawMessage(fmt.Sprintf(`{"c":%d,"s":%d}`, i, step))}
				t0 := time.Now()
				switch r.Intn(6) {
				case 0, 1:
					x, ok := ask("PUT", l.path("/elements/%d?range=%d", id, r.Intn(4)), in)
					if !ok {
						return
					}
					var e apiElem
					if x.code != 200 || json.Unmarshal(x.body, &e) != nil || e.UpdatedAt == nil {
						c.FailAsync("concurrent put: %s", x)
						return
					}
					w := in.elem(uint32(e.UpdatedAt.Unix()))
					if !same("concurrent put", e, &w) {
						return
					}
					if (e.Previous != nil) != (st[id] != nil) {
						c.FailAsync("concurrent put of element %d: previous rank %v, the element existed: %v", id, e.Previous, st[id] != nil)
						return
					}
					if e.Previous != nil && !same("previous rank of concurrent put", *e.Previous, st[id]) {
						return
					}
					st[id] = &w
				case 2:
					x, ok := ask("DELETE", l.path("/elements/%d", id), nil)
					if !ok {
						return
					}
					if x.code != 204 {
						c.FailAsync("concurrent delete: %s", x)
						return
					}
					delete(st, id)
				case 3:
					x, ok := ask("GET", l.path("/elements/%d?range=3", id), nil)
					if !ok {
						return
					}
					var e apiElem
					switch {
					case x.code == 404:
						if st[id] != nil {
							c.FailAsync("concurrent get: element %d not found, its only client stored %s", id, es(*st[id]))
							return
						}
					case x.code != 200 || json.Unmarshal(x.body, &e) != nil:
						c.FailAsync("concurrent get: %s", x)
						return
					case !same("concurrent get", e, st[id]):
						return
					}
				case 4: // batch
					var b []inElem
					for _, j := range r.Perm(len(ids)) {
						if len(b) == 4 {
							break
						}
						b = append(b, inElem{ID: uint64(ids[j]), Score: uint64(r.Intn(500)), Payload: json.RawMessage(fmt.Sprintf(`{"c":%d,"b":%d}`, i, step))})
					}
					x, ok := ask("PUT", l.path("/elements?results=true"), b)
					if !ok {
						return
					}
					var m apiMulti
					if x.code != 200 || json.Unmarshal(x.body, &m) != nil || len(m.Found) != len(b) {
						c.FailAsync("concurrent batch: %s", x)
						return
					}
					for _, e := range m.Found {
						for _, in := range b {
							if in.ID == e.ID && e.UpdatedAt != nil {
								w := in.elem(uint32(e.UpdatedAt.Unix()))
								if !same("concurrent batch", e, &w) {
									return
								}
								st[EID(e.ID)] = &w
							}
						}
					}
				case 5: // competing creation
					id := contested[r.Intn(len(contested))]
					in.ID = uint64(id)
					x, ok := ask("POST", l.path("/elements"), in)
					if !ok {
						return
					}
					var e apiElem
					switch {
					case x.code == 409:
					case x.code != 200 || json.Unmarshal(x.body, &e) != nil || e.UpdatedAt == nil:
						c.FailAsync("concurrent create: %s", x)
						return
					default:
						w := in.elem(uint32(e.UpdatedAt.Unix()))
						if !same("concurrent create", e, &w) {
							return
						}
						mu.Lock()
						wins[id] = won{w, wins[id].n + 1}
						if wins[id].n > 1 {
							c.FailAsync("element %d was created %d times, nobody deleted it", id, wins[id].n)
						}
						mu.Unlock()
					}
				}
				if d := time.Since(t0); d > 60*time.Second {
					c.Count("slow_requests", 1)
				}
			}
		}(i, rand.New(rand.NewSource(a.r.Int63())), own[i])
	}
	wg.Wait()
	if c.Failed() {
		s.alive()
		c.CheckAsync()
	}
	for i, st := range state {
		for _, id := range own[i] {
			if st[id] == nil {
				l.mod.del(id)
			} else {
				l.mod.put(*st[id])
			}
		}
	}
	var ids []EID
	for id := range wins {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	for _, id := range ids {
		l.mod.put(wins[id].e)
		c.Count("contested_creations", 1)
	}
	c.Count("concurrent_clients", int64(nc))
}
