package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

func init() {
	register(&Check{ID: "C36", Quick: 400, Thorough: 5000, Setup: setupJWT, Run: runC36, StallSecs: 200,
		Rule:   "one case = a real server with a random number of updates at a time on a storage whose writes are held at a gate; rounds of more updates than that on different lists are sent over all endpoints that write. The updates that reached the storage must become exactly as many as allowed and never more, also while held updates are let go one by one, while others fail, are refused or are left by their clients; meanwhile reads of other lists are answered. All are carried out in the end and match a model",
		Assume: []string{"an update reaches the storage within 60 s of getting its turn", "updates are told apart by the set of their lists"}})
}

// updateGate holds the writes of updates until they are let go.
type updateGate struct {
	mu    sync.Mutex
	cond  *sync.Cond
	owner map[string]*gatedUpdate // by set
	held  int                     // updates of which writes are held
	peak  int
	over  string
	limit int
}

type gatedUpdate struct {
	name          string
	arrived, open bool
	refuse        bool
	left          bool // the client leaves; whether it is carried out is open
	lists         []string
	cancel        context.CancelFunc
	m, p          string
	body          interface{}
	want          int
	apply         func(t0, t1 time.Time)
	res           resp
	t0, t1        time.Time
	done          chan struct{}
}

// pass is called for every write to a set.
func (g *updateGate) pass(set string) bool {
	g.mu.Lock()
	defer g.mu.Unlock()
	u := g.owner[set]
	if u == nil {
		return false
	}
	if !u.arrived && !u.open {
		u.arrived = true
		g.held++
		if g.held > g.peak {
			g.peak = g.held
		}
		if g.limit > 0 && g.held > g.limit && g.over == "" {
			var names []string
			seen := map[*gatedUpdate]bool{}
			for _, o := range g.owner {
				if o.arrived && !o.open && !seen[o] {
					seen[o] = true
					st := ""
					if o.left {
						st = " (its client may have left)"
					}
					select {
					case <-o.done:
						st += fmt.Sprintf(" (answered %s)", o.res)
					default:
					}
					names = append(names, o.name+st)
				}
			}
			g.over = strings.Join(names, ", ")
		}
		g.cond.Broadcast()
	}
	for !u.open {
		g.cond.Wait()
	}
	return u.refuse
}

func (g *updateGate) letGo(u *gatedUpdate) {
	g.mu.Lock()
	if !u.open {
		u.open = true
		if u.arrived {
			g.held--
		}
		g.cond.Broadcast()
	}
	g.mu.Unlock()
}

func (g *updateGate) state() (held int, over string) {
	g.mu.Lock()
	defer g.mu.Unlock()
	return g.held, g.over
}

func (g *updateGate) waiting(u *gatedUpdate) bool {
	g.mu.Lock()
	defer g.mu.Unlock()
	return u.arrived && !u.open
}

type limitSim struct {
	*apiSim
	gate   *updateGate
	k      int
	n      int // lists made
	kinds  map[string]int
	failed int
	gone   int
}

// newLimitList makes a list in a set of its own. It is one that does not grow
// enough to be split in the background.
func (a *limitSim) newLimitList(n int) *apiList {
	a.n++
	a.bigSplit = true
	return a.create(fmt.Sprintf("l-%d", a.n), fmt.Sprintf("set-%d", a.n), n, nil)
}

// update returns an update that surely writes, on lists no other update of the
// round is about.
func (a *limitSim) update(free *[]*apiList) *gatedUpdate {
	r := a.r
	take := func() *apiList {
		l := (*free)[0]
		*free = (*free)[1:]
		return l
	}
	full := func(id EID) inElem {
		e := a.in(id)
		if canonJSON(e.Payload) == nil {
			e.Payload = json.RawMessage(`{"k":1}`)
		}
		return e
	}
	u := &gatedUpdate{done: make(chan struct{}), want: 200}
	kind := r.Intn(15)
	if len(*free) < 2 && (kind == 11 || kind == 12 || kind == 7 || kind == 8) {
		kind = 0
	}
	l := take()
	sets := []string{l.set}
	u.lists = []string{l.id}
	fresh := func() (es []inElem) {
		for _, id := range a.newIDs(l, 1+r.Intn(5)) {
			es = append(es, full(id))
		}
		return
	}
	more := func() (ls []*apiList) {
		ls = []*apiList{l}
		for i := 0; i < 3 && len(*free) > 0 && (i == 0 || r.Intn(2) == 0); i++ {
			m := take()
			ls = append(ls, m)
			sets = append(sets, m.set)
			u.lists = append(u.lists, m.id)
		}
		return
	}
	switch kind {
	case 0, 1:
		es := fresh()
		u.name, u.m, u.p, u.body = "put elements", "PUT", l.path("/elements?results=%v", r.Intn(2) == 0), es
		u.apply = func(t0, t1 time.Time) { a.adopt(l, es, t0, t1) }
	case 2:
		e := fresh()[0]
		u.name, u.m, u.p, u.body = "create element", "POST", l.path("/elements"), e
		u.apply = func(t0, t1 time.Time) { a.adopt(l, []inElem{e}, t0, t1) }
	case 3:
		e := fresh()[0]
		u.name, u.m, u.p, u.body = "put element", "PUT", l.path("/elements/%d", e.ID), e
		u.apply = func(t0, t1 time.Time) { a.adopt(l, []inElem{e}, t0, t1) }
	case 4:
		id := a.g.existing(l.mod, 1)[0]
		u.name, u.m, u.p, u.want = "delete element", "DELETE", l.path("/elements/%d", id), 204
		u.apply = func(t0, t1 time.Time) { l.mod.del(id) }
	case 5:
		ids := a.g.existing(l.mod, 3)
		var q []string
		for _, id := range ids {
			q = append(q, fmt.Sprintf("element_ids=%d", id))
		}
		u.name, u.m, u.p, u.want = "delete elements", "DELETE", l.path("/elements?%s", strings.Join(q, "&")), 204
		u.apply = func(t0, t1 time.Time) { l.mod.del(ids...) }
	case 6:
		u.name, u.m, u.p = "reindex", "PUT", l.path("/reindex")
	case 7: // another list, cloned from this one
		a.n++
		n := &apiList{id: fmt.Sprintf("l-%d", a.n), set: fmt.Sprintf("set-%d", a.n), split: 2000, merge: 12, mod: l.mod.clone()}
		sets, u.lists = []string{n.set}, []string{n.id}
		u.name, u.m, u.p, u.body = "clone list", "PUT", l.path("/clone"), a.listPayload(n, nil)
		u.apply = func(t0, t1 time.Time) { a.lists[n.id] = n }
	case 8:
		u.name, u.m, u.p, u.want = "delete list", "DELETE", l.path(""), 204
		u.apply = func(t0, t1 time.Time) { delete(a.lists, l.id) }
	case 9: // a new list, or this one replaced
		n := &apiList{split: 2000, merge: 12, mod: newModel()}
		n.id, n.set = l.id, l.set
		if r.Intn(2) == 0 {
			a.n++
			n.id, n.set = fmt.Sprintf("l-%d", a.n), fmt.Sprintf("set-%d", a.n)
			sets, u.lists = []string{n.set}, []string{n.id}
		}
		var es []inElem
		for _, id := range a.newIDs(n, 15+r.Intn(30)) {
			es = append(es, full(id))
		}
		u.name, u.m, u.p, u.body = "create list", "POST", "/lists?replace=true", a.listPayload(n, es)
		u.apply = func(t0, t1 time.Time) {
			a.lists[n.id] = n
			a.adopt(n, es, t0, t1)
		}
	case 10:
		ls := more()
		id := a.g.existing(l.mod, 1)[0]
		u.name, u.m, u.p = "multi-list delete", "DELETE", fmt.Sprintf("/xlist/elements/%d?%s", id, selection{lists: u.lists}.query())
		u.apply = func(t0, t1 time.Time) {
			for _, x := range ls {
				x.mod.del(id)
			}
		}
	case 11:
		ls := more()
		es := []inElem{full(EID(r.Int63()))}
		u.name, u.m, u.p, u.body = "multi-list put", "PUT", "/xlist/elements", selection{lists: u.lists}.body(es)
		if r.Intn(2) == 0 {
			u.name, u.m = "multi-list create", "POST"
		}
		u.apply = func(t0, t1 time.Time) {
			for _, x := range ls {
				a.adopt(x, es, t0, t1)
			}
		}
	case 13:
		u.name, u.m, u.p = "repair", "PUT", l.path("/repair?clear=%v", r.Intn(2) == 0)
	case 14: // a copy of this list, restored under another name; it has the set of the list
		x := a.s.expect(200, "PUT", "/xlist/backup", map[string]interface{}{"destination": map[string]string{"type": "download"}, "lists": map[string]interface{}{"lists": u.lists}})
		a.n++
		n := *l
		n.id, n.mod = fmt.Sprintf("r%d-%s", a.n, l.id), l.mod.clone()
		u.name, u.m, u.p, u.body = "restore", "POST", fmt.Sprintf("/xlist/restore?list_id_prefix=r%d-", a.n), x.body
		u.apply = func(t0, t1 time.Time) {
			a.lists[n.id] = &n
			a.checkList("restored list", &n)
			a.s.expect(204, "DELETE", n.path(""), nil)
			delete(a.lists, n.id)
		}
	case 12:
		more()
		u.name, u.m, u.p, u.body = "multi-list reindex", "PUT", "/xlist/reindex", selection{lists: u.lists}.body(nil)
	}
	a.kinds[u.name]++
	u.name += " of " + strings.Join(u.lists, " ")
	a.gate.mu.Lock()
	for _, s := range sets {
		a.gate.owner[s] = u
	}
	a.gate.mu.Unlock()
	return u
}

// noise are requests to updating endpoints that are refused or have nothing to
// do; each must give back its turn.
func (a *limitSim) noise() {
	r := a.r
	have := a.g0()
	l := a.anyList()
	ctx := context.Background()
	for i := 0; i < 1+r.Intn(2*a.k+3); i++ {
		var m, p, what string
		var body interface{}
		bad := inElem{ID: 1, Payload: json.RawMessage(`{}`)}
		auth := a.s.auth
		switch r.Intn(26) {
		case 20, 21, 22, 23, 24, 25:
			// Access refused within the update.
			if a.s.auth == "" {
				continue
			}
			id := a.g.existing(have.mod, 1)[0]
			claims := map[string]interface{}{"scopes": strings.Join(allScopes, " ")}
			if r.Intn(2) == 0 {
				claims["only_lists"] = "other-list"
			} else {
				claims["only_elements"] = fmt.Sprint(uint64(id) ^ 1)
			}
			auth = "Bearer " + signJWT("RS256", 0, claims)
			e := inElem{ID: uint64(id), Payload: json.RawMessage(`{}`)}
			sel := selection{lists: []string{have.id}}
			switch r.Intn(8) {
			case 0:
				m, p, body = "POST", have.path("/elements"), e
			case 1:
				m, p, body = "PUT", have.path("/elements"), []inElem{e}
			case 2:
				m, p, body = "PUT", have.path("/elements/%d", id), e
			case 3:
				m, p = "DELETE", have.path("/elements/%d", id)
			case 4:
				m, p = "DELETE", have.path("/elements?element_ids=%d", id)
			case 5:
				m, p, body = "PUT", "/xlist/elements", sel.body([]inElem{e})
			case 6:
				m, p, body = "POST", "/xlist/elements", sel.body([]inElem{e})
			default:
				m, p = "DELETE", fmt.Sprintf("/xlist/elements/%d?%s", id, sel.query())
			}
			what = "access refused"
		case 0:
			m, p, body, what = "POST", "/lists/none/elements", bad, "create in missing list"
		case 1:
			m, p, body, what = "PUT", "/lists/none/elements", []inElem{bad}, "put in missing list"
		case 2:
			m, p, what = "DELETE", "/lists/none/elements/1", "delete in missing list"
		case 3:
			m, p, what = "DELETE", "/lists/none/elements?element_ids=1", "delete some in missing list"
		case 4:
			m, p, body, what = "PUT", "/lists/none/elements/1", bad, "put one in missing list"
		case 5:
			m, p, body, what = "PUT", l.path("/elements/2"), bad, "element that differs"
		case 6:
			m, p, body, what = "POST", l.path("/elements"), inElem{ID: uint64(a.g.existing(have.mod, 1)[0])}, "existing element"
			p = have.path("/elements")
		case 7:
			m, p, body, what = "POST", "/lists", a.listPayload(l, nil), "existing list"
		case 8:
			m, p, body, what = "PUT", "/lists/none/clone", a.listPayload(&apiList{id: "x", set: "y", split: 20, merge: 10}, nil), "clone of missing list"
		case 9:
			m, p, body, what = "PUT", l.path("/clone"), a.listPayload(l, nil), "clone to existing list"
		case 10:
			m, p, what = "PUT", "/lists/none/"+pick(r, []string{"reindex", "repair", "verify"}), "work on missing list"
		case 11:
			m, p, what = "PUT", have.path("/verify?elements=true"), "verify"
		case 12:
			m, p, body, what = "PUT", "/xlist/verify", map[string]interface{}{}, "verify all"
		case 13:
			m, p, what = "DELETE", "/xlist/elements/1?lists=none&match_metadata=x", "bad metadata"
		case 14:
			m, p, what = "DELETE", "/xlist/elements/abc?lists=none", "bad element"
		case 15:
			m, p, body, what = "PUT", "/xlist/backup", map[string]interface{}{"destination": map[string]string{"type": pick(r, []string{"nowhere", "file", "s3", "server"})}, "lists": map[string]interface{}{"lists": []string{have.id}}}, "backup to nowhere"
		case 16:
			m, p, body, what = "POST", "/xlist/restore?src_file="+pick(r, []string{"s3://a/b", "http://127.0.0.1:1/x", "/nonexistent"}), "x", "restore from nowhere"
		case 17:
			m, p, body, what = "POST", "/xlist/restore", "not a backup", "restore of garbage"
		case 18:
			m, p, body, what = "PUT", "/xlist/backup", map[string]interface{}{"destination": map[string]string{"type": "download"}, "lists": map[string]interface{}{"lists": []string{have.id}}}, "download"
		default:
			m, p, body, what = "PUT", "/xlist/elements", selection{lists: []string{"none"}}.body([]inElem{bad}), "put in missing lists"
		}
		a.kinds["refused or idle"]++
		res := a.s.try(ctx, m, p, auth, body)
		if what == "access refused" && res.err == nil && (res.code < 400 || res.code > 499) {
			a.c.Failf("%s %s with a token for other lists or elements: %s", m, p, res)
		}
		a.c.Logf("%s: %s %s -> %s", what, m, p, res)
		if res.err != nil {
			a.s.answered(what+": "+m+" "+p, body, res)
		}
	}
}

// g0 returns a list with elements.
func (a *limitSim) g0() *apiList {
	for _, id := range a.listIDs() {
		if a.lists[id].mod.len() > 0 {
			return a.lists[id]
		}
	}
	return a.newLimitList(12)
}

// read reads from a list no update is about.
func (a *limitSim) read(l *apiList) {
	switch a.r.Intn(8) {
	case 0:
		a.checkList("read while updates are held", l)
	case 1:
		a.getInfo(l)
	case 2:
		a.s.expect(200, "GET", "/health", nil)
	case 3:
		a.s.expect(200, "GET", "/lists?limit=5", nil)
	case 4:
		id := a.g.existing(l.mod, 1)[0]
		r := a.s.expect(200, "GET", fmt.Sprintf("/xlist/elements/%d?lists=%s", id, l.id), nil)
		if !strings.Contains(string(r.body), l.id) {
			a.c.Failf("multi-list get of element %d of list %s: %s", id, l.id, r)
		}
	case 5:
		a.s.expect(200, "GET", l.path("/percentile"), nil)
	case 6:
		a.s.expect(200, "GET", l.path("/range?from_top=0"), nil)
	default:
		id := a.g.existing(l.mod, 1)[0]
		a.s.expect(200, "GET", l.path("/elements/%d", id), nil)
	}
	a.c.Count("reads_while_held", 1)
}

func (a *limitSim) round() {
	r, c := a.r, a.c
	for len(a.lists) < a.k+6 || r.Intn(3) == 0 && len(a.lists) < 40 {
		a.newLimitList(12 + r.Intn(30))
	}
	var free []*apiList
	for _, id := range a.listIDs() {
		if a.lists[id].mod.len() >= 5 {
			free = append(free, a.lists[id])
		}
	}
	for len(free) < a.k+4 {
		free = append(free, a.newLimitList(12+r.Intn(30)))
	}
	r.Shuffle(len(free), func(i, j int) { free[i], free[j] = free[j], free[i] })
	quiet := free[:2]
	free = free[2:]
	a.gate.mu.Lock()
	a.gate.owner = map[string]*gatedUpdate{}
	a.gate.mu.Unlock()
	want := a.k + 1 + r.Intn(8)
	if a.k == 0 {
		want = 3 + r.Intn(15)
	}
	var us []*gatedUpdate
	for len(us) < want && len(free) > 0 {
		u := a.update(&free)
		u.refuse = r.Intn(8) == 0
		u.left = r.Intn(8) == 0
		us = append(us, u)
	}
	c.NonTrivial()
	c.Sig(a.k, len(us))
	for _, u := range us {
		u := u
		c.Sig(u.name, u.refuse, u.left)
		ctx, cancel := context.WithCancel(context.Background())
		u.cancel = cancel
		u.t0 = time.Now()
		go func() {
			defer close(u.done)
			u.res = a.s.try(ctx, u.m, u.p, a.s.auth, u.body)
			u.t1 = time.Now()
		}()
	}
	defer func() {
		for _, u := range us {
			a.gate.letGo(u)
			u.cancel()
		}
	}()
	pending := append([]*gatedUpdate{}, us...)
	for len(pending) > 0 {
		// As many as allowed arrive at the storage.
		sure := 0
		for _, u := range pending {
			if !u.left {
				sure++
			}
		}
		if a.k > 0 && sure > a.k {
			sure = a.k
		}
		t0 := time.Now()
		for {
			held, over := a.gate.state()
			if over != "" {
				c.Failf("%d updates at a time are configured, these write at the same time: %s", a.k, over)
			}
			if held >= sure {
				break
			}
			if time.Since(t0) > 60*time.Second {
				a.s.alive()
				var names []string
				for _, u := range pending {
					select {
					case <-u.done:
						names = append(names, fmt.Sprintf("%s (answered %s)", u.name, u.res))
					default:
						names = append(names, fmt.Sprintf("%s (writing %v)", u.name, a.gate.waiting(u)))
					}
				}
				c.Failf("%d updates at a time are configured and %d wait, but only %d write: %s; goroutines of the server:\n%s", a.k, len(pending), held, strings.Join(names, ", "), a.s.dump())
			}
			time.Sleep(time.Millisecond)
			c.Tick()
		}
		if sure > 1 {
			c.Count("times_at_the_limit", 1)
		}
		for i := 0; i < r.Intn(4); i++ {
			a.read(pick(r, quiet))
		}
		time.Sleep(time.Duration(r.Intn(12)) * time.Millisecond)
		if _, over := a.gate.state(); over != "" {
			c.Failf("%d updates at a time are configured, these write at the same time: %s", a.k, over)
		}
		// Some clients leave, some updates go on.
		for _, u := range pending {
			if u.left && r.Intn(2) == 0 {
				u.cancel()
			}
		}
		n := 1
		if r.Intn(3) == 0 {
			n = 1 + r.Intn(4)
		}
		var rest []*gatedUpdate
		var gone []*gatedUpdate
		for _, u := range pending {
			switch {
			case u.left && !a.gate.waiting(u):
				// May never arrive, or arrive and hold a turn any time.
				if r.Intn(3) > 0 && len(pending) > 1 {
					rest = append(rest, u)
					continue
				}
				u.cancel()
				a.gate.letGo(u)
				gone = append(gone, u)
			case n > 0 && a.gate.waiting(u):
				n--
				if u.left {
					u.cancel()
				}
				a.gate.letGo(u)
				gone = append(gone, u)
			default:
				rest = append(rest, u)
			}
		}
		if len(gone) == 0 {
			// Only ones that were left and have not arrived.
			for _, u := range rest {
				if u.left {
					u.cancel()
					a.gate.letGo(u)
					gone = append(gone, u)
				}
			}
			var keep []*gatedUpdate
			for _, u := range rest {
				if !u.left {
					keep = append(keep, u)
				}
			}
			rest = keep
		}
		for _, u := range gone {
			if !u.left {
				<-u.done
			}
		}
		pending = rest
	}
	for _, u := range us {
		select {
		case <-u.done:
		case <-time.After(110 * time.Second):
			c.Failf("%s: not answered", u.name)
		}
		c.Logf("%s: %s %s %s -> %s (left %v refused %v)", u.name, u.m, u.p, bodyText(u.body), u.res, u.left, u.refuse)
		if u.left || u.refuse {
			if u.refuse && !u.left {
				a.failed++
				if u.res.err != nil {
					a.s.answered(u.name, u.body, u.res)
				}
			} else {
				a.gone++
			}
			// What it did is open.
			for _, id := range u.lists {
				delete(a.lists, id)
			}
			continue
		}
		a.s.answered(u.name, u.body, u.res)
		if u.res.code != u.want {
			c.Failf("%s: %s %s %s: got %s, want %d", u.name, u.m, u.p, bodyText(u.body), u.res, u.want)
		}
		if strings.Contains(u.p, "/xlist/") && !strings.Contains(u.p, "restore") {
			var rl apiResultList
			u.res.json(c, u.name, &rl)
			if len(rl.Errors) > 0 || len(rl.Success) != len(u.lists) {
				c.Failf("%s: %s", u.name, u.res)
			}
		}
		c.Count("updates", 1)
		if u.apply != nil {
			u.apply(u.t0, u.t1)
		}
	}
	if a.gate.peak > 0 {
		c.Max("updates_writing_at_once", int64(a.gate.peak))
	}
}

func runC36(c *C) {
	r := c.Rng
	cfg := randSrvCfg(r, c.TempDir())
	cfg.storage, cfg.lazy, cfg.retry = "Aerospike", false, false
	cfg.saveEvery, cfg.pruneEvery = "1h", pick(r, []string{"1h", "50ms"})
	cfg.aeroIf(r)
	cfg.aeroBlock, cfg.aero.refusePct = 1<<20, 0
	cfg.maxUpdates = pick(r, []int{0, 1, 1, 2, 3, 4, 8})
	auth := ""
	if r.Intn(2) == 0 {
		cfg.jwtKeys = filepath.Join(cfg.dir, "keys")
		if err := os.MkdirAll(cfg.jwtKeys, 0o755); err != nil {
			panic(err)
		}
		os.WriteFile(filepath.Join(cfg.jwtKeys, "k0.pub"), jwtKeys.pub[0], 0o644)
		auth = "Bearer " + signJWT("RS256", 0, map[string]interface{}{"scopes": strings.Join(allScopes, " ")})
	}
	g := &updateGate{owner: map[string]*gatedUpdate{}, limit: cfg.maxUpdates}
	g.cond = sync.NewCond(&g.mu)
	cfg.aero.gate.Store(g.pass)
	c.Logf("server: %v", cfg)
	s := startSrv(c, cfg)
	s.auth = auth
	a := &limitSim{apiSim: newAPISim(c, s), gate: g, k: cfg.maxUpdates, kinds: map[string]int{}}
	for i := 0; i < 3+r.Intn(3); i++ {
		a.noise()
		a.round()
		a.checkAll("after the updates")
	}
	g.mu.Lock()
	g.owner = map[string]*gatedUpdate{}
	g.mu.Unlock()
	a.checkAll("in the end")
	s.finish()
	c.Count("updates_failed", int64(a.failed))
	c.Count("updates_left", int64(a.gone))
	for k, n := range a.kinds {
		c.Count("kind: "+k, int64(n))
	}
}
