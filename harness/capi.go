package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"net/url"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"
)

// What the server answers, decoded independently of its own client.
type apiElem struct {
	ID         uint64          `json:"id"`
	FromTop    *int            `json:"from_top"`
	FromBottom *int            `json:"from_bottom"`
	ListID     string          `json:"list_id"`
	Score      uint64          `json:"score"`
	TieBreaker uint32          `json:"tie_breaker"`
	Payload    json.RawMessage `json:"payload"`
	UpdatedAt  *time.Time      `json:"updated_at"`
	Neighbors  *struct {
		Above []apiElem `json:"above"`
		Below []apiElem `json:"below"`
	} `json:"neighbors"`
	LocalTop    *int     `json:"local_from_top"`
	LocalBottom *int     `json:"local_from_bottom"`
	Previous    *apiElem `json:"previous_rank"`
}

type apiListInfo struct {
	ID        string            `json:"id"`
	Set       string            `json:"set"`
	Metadata  map[string]string `json:"metadata"`
	SplitSize int               `json:"split_size"`
	MergeSize int               `json:"merge_size"`
	LoadIndex bool              `json:"load_index"`
	Elements  int               `json:"elements"`
	Segments  int               `json:"segments"`
	Avg       float64           `json:"avg_segment_elements"`
	Top       *apiElem          `json:"top_element"`
	Bottom    *apiElem          `json:"bottom_element"`
}

type apiMulti struct {
	Found    []apiElem `json:"found"`
	NotFound []uint64  `json:"not_found"`
}

type apiResultList struct {
	Success map[string]*struct {
		Results []apiElem `json:"results"`
	} `json:"success"`
	Errors map[string]string `json:"errors"`
}

// inElem is an element sent to the server.
type inElem struct {
	ID         uint64          `json:"id"`
	Score      uint64          `json:"score"`
	TieBreaker *uint32         `json:"tie_breaker,omitempty"`
	Payload    json.RawMessage `json:"payload,omitempty"`
}

func (e inElem) elem(upd uint32) Elem {
	x := Elem{ID: EID(e.ID), Score: e.Score, Payload: canonJSON(e.Payload), Updated: upd}
	if e.TieBreaker != nil {
		x.TieBreaker = *e.TieBreaker
	}
	return x
}

// canonJSON returns a canonical form of a JSON value, nil for null and nothing.
func canonJSON(b []byte) []byte {
	b = bytes.TrimSpace(b)
	if len(b) == 0 || string(b) == "null" {
		return nil
	}
	var v interface{}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	if err := d.Decode(&v); err != nil {
		return append([]byte("invalid:"), b...)
	}
	o, _ := json.Marshal(v)
	return o
}

// apiList is the model of one list of the server.
type apiList struct {
	id, set      string
	meta         map[string]string
	split, merge int
	loadIndex    bool
	mod          *model
}

func (l *apiList) path(s string, a ...interface{}) string {
	return "/lists/" + url.PathEscape(l.id) + fmt.Sprintf(s, a...)
}

// apiSim drives one server and the models of its lists.
type apiSim struct {
	c     *C
	s     *srv
	r     *rand.Rand
	g     *elemGen
	lists map[string]*apiList
	plain bool // no requests that are about known findings of C24
	s3    *fakeS3
	leaky bool // storage may hold blobs of damaged lists

	bigSplit bool // lists are not split
}

func newAPISim(c *C, s *srv) *apiSim {
	g := newElemGen(c.Rng)
	return &apiSim{c: c, s: s, r: c.Rng, g: g, lists: map[string]*apiList{}}
}

var payloads = []string{``, `{}`, `{"name":"x"}`, `{"a":{"b":[1,2,3.5,-1e9]},"c":null}`, `{"t":"<b>&\u2028\u0000\"\\/ \ud83d\ude00"}`, `{ "spaced" :  [ 1 , true ] }`, `[1,2]`, `"text"`, `12345678901234567890123`, `false`, `""`}

func (a *apiSim) payload() json.RawMessage {
	switch a.r.Intn(12) {
	case 0:
		return json.RawMessage(fmt.Sprintf(`{"blob":%q}`, strings.Repeat("x", a.r.Intn(3000))))
	case 1, 2, 3:
		return json.RawMessage(fmt.Sprintf(`{"v":%d}`, a.r.Int63()))
	}
	return json.RawMessage(pick(a.r, payloads))
}

func (a *apiSim) in(id EID) inElem {
	e := inElem{ID: uint64(id), Score: a.g.score(), Payload: a.payload()}
	if t := a.g.tie(); t != 0 || a.r.Intn(3) == 0 {
		e.TieBreaker = &t
	}
	return e
}

// change returns a changed version of an element of l; it keeps a payload that
// is not null (what an update without payload does is asked for separately).
func (a *apiSim) change(l *apiList, id EID) inElem {
	e := a.in(id)
	o := a.g.mutate(l.mod, id)
	e.Score = o.Score
	if o.TieBreaker != 0 {
		t := o.TieBreaker
		e.TieBreaker = &t
	}
	if len(canonJSON(e.Payload)) == 0 && l.mod.m[id].Payload != nil {
		e.Payload = json.RawMessage(`{}`)
	}
	return e
}

func (a *apiSim) newIDs(l *apiList, n int) []EID {
	var out []EID
	for _, e := range a.g.fresh(l.mod, n) {
		out = append(out, e.ID)
	}
	return out
}

func (a *apiSim) missing(l *apiList) EID {
	for i := 0; ; i++ {
		id := a.g.id()
		if i > 100 {
			id = EID(a.r.Int63())
		}
		if _, ok := l.mod.m[id]; !ok {
			return id
		}
	}
}

// create makes a list through the API.
func (a *apiSim) create(id, set string, n int, meta map[string]string) *apiList {
	l := &apiList{id: id, set: set, meta: meta, split: pick(a.r, []int{11, 12, 20, 40, 2000}), loadIndex: a.r.Intn(2) == 0, mod: newModel()}
	l.merge = 10
	if a.bigSplit {
		l.split = 2000
	}
	if l.split > 20 {
		l.merge = 10 + a.r.Intn(10)
	}
	var pop []inElem
	for _, x := range a.newIDs(l, n) {
		pop = append(pop, a.in(x))
	}
	p := a.listPayload(l, pop)
	t0 := time.Now()
	r := a.s.expect(200, "POST", "/lists", p)
	a.lists[id] = l
	a.adopt(l, pop, t0, time.Now())
	var inf apiListInfo
	r.json(a.c, "create list", &inf)
	a.checkInfo("create list", l, inf, true)
	return l
}

func (a *apiSim) listPayload(l *apiList, pop []inElem) map[string]interface{} {
	p := map[string]interface{}{"id": l.id, "set": l.set, "split_size": l.split, "merge_size": l.merge, "load_index": l.loadIndex}
	if l.meta != nil {
		p["metadata"] = l.meta
	}
	if pop != nil {
		p["populate"] = pop
	}
	return p
}

// adopt puts elements in the model that the server stored between t0 and t1 and
// finds out the time it stored them with.
func (a *apiSim) adopt(l *apiList, es []inElem, t0, t1 time.Time) {
	es = dedupIn(es)
	upd := uint32(t0.Unix())
	if t0.Unix() != t1.Unix() && len(es) > 0 {
		r := a.s.expect(200, "GET", l.path("/elements/%d?range=0", es[0].ID), nil)
		var e apiElem
		r.json(a.c, "get element", &e)
		upd = a.upd("element stored now", e, t0, t1)
	}
	for _, e := range es {
		l.mod.put(e.elem(upd))
	}
}

// upd returns the update time of an element stored between t0 and t1.
func (a *apiSim) upd(what string, e apiElem, t0, t1 time.Time) uint32 {
	if e.UpdatedAt == nil || e.UpdatedAt.Unix() < t0.Unix() || e.UpdatedAt.Unix() > t1.Unix() {
		a.c.Failf("%s: element %d updated at %v, the request ran from %v to %v", what, e.ID, e.UpdatedAt, t0.Unix(), t1.Unix())
	}
	return uint32(e.UpdatedAt.Unix())
}

// dedupIn keeps the highest ranked element of each ID.
func dedupIn(es []inElem) []inElem {
	best := map[uint64]int{}
	for i, e := range es {
		j, ok := best[e.ID]
		if !ok || refAbove(e.elem(1), es[j].elem(1)) {
			best[e.ID] = i
		}
	}
	var out []inElem
	for i, e := range es {
		if best[e.ID] == i {
			out = append(out, e)
		}
	}
	return out
}

// checkElem compares an element of an answer with the model.
func (a *apiSim) checkElem(what string, l *apiList, e apiElem, tiny bool) int {
	w, ok := l.mod.m[EID(e.ID)]
	if !ok {
		a.c.Failf("%s: returned element %d, which is not in list %s", what, e.ID, l.id)
	}
	p, _ := l.mod.rank(w.ID)
	if e.FromTop == nil || e.FromBottom == nil || *e.FromTop != p || *e.FromBottom != l.mod.len()-1-p {
		a.c.Failf("%s: element %d is reported at %s from top, %s from bottom, it is at %d of %d", what, e.ID, pint(e.FromTop), pint(e.FromBottom), p, l.mod.len())
	}
	if e.Score != w.Score || !bytes.Equal(canonJSON(e.Payload), w.Payload) {
		a.c.Failf("%s: element %d has score %d payload %s, want %d %s", what, e.ID, e.Score, e.Payload, w.Score, w.Payload)
	}
	if !tiny {
		if e.TieBreaker != w.TieBreaker || e.ListID != l.id || e.UpdatedAt == nil || uint32(e.UpdatedAt.Unix()) != w.Updated {
			a.c.Failf("%s: element %d has tie breaker %d, list %q, updated at %v, want %d %q %d", what, e.ID, e.TieBreaker, e.ListID, e.UpdatedAt, w.TieBreaker, l.id, w.Updated)
		}
	}
	a.c.Count("elements_compared", 1)
	return p
}

func pint(p *int) string {
	if p == nil {
		return "nothing"
	}
	return strconv.Itoa(*p)
}

// checkSeq checks a sequence of elements against the given part of the ranking.
func (a *apiSim) checkSeq(what string, l *apiList, got []apiElem, want []Elem, tiny bool) {
	if len(got) != len(want) {
		a.c.Failf("%s: got %d elements %v, want %d: %s", what, len(got), apiIDs(got), len(want), ess(want))
	}
	for i, e := range got {
		a.checkElem(what, l, e, tiny)
		if EID(e.ID) != want[i].ID {
			a.c.Failf("%s: element %d of the answer is %d, want %d", what, i, e.ID, want[i].ID)
		}
	}
}

func apiIDs(es []apiElem) []uint64 {
	var out []uint64
	for _, e := range es {
		out = append(out, e.ID)
	}
	return out
}

// checkNeighbors checks an element with its neighbours within rng.
func (a *apiSim) checkFull(what string, l *apiList, e apiElem, rng int) {
	p := a.checkElem(what, l, e, false)
	all := l.mod.list()
	lo, hi := p-rng, p+1+rng
	if lo < 0 {
		lo = 0
	}
	if hi > len(all) {
		hi = len(all)
	}
	if e.Neighbors == nil {
		if rng > 0 && len(all) > 1 {
			a.c.Failf("%s: no neighbours of element %d", what, e.ID)
		}
		return
	}
	a.checkSeq(what+", above", l, e.Neighbors.Above, all[lo:p], false)
	a.checkSeq(what+", below", l, e.Neighbors.Below, all[p+1:hi], false)
}

func (a *apiSim) checkInfo(what string, l *apiList, in apiListInfo, topBottom bool) {
	meta := in.Metadata
	if len(meta) == 0 {
		meta = nil
	}
	wm := l.meta
	if len(wm) == 0 {
		wm = nil
	}
	if in.ID != l.id || in.Set != l.set || in.SplitSize != l.split || in.MergeSize != l.merge || in.LoadIndex != l.loadIndex || !reflect.DeepEqual(meta, wm) {
		a.c.Failf("%s: list is %+v, want id %q set %q split %d merge %d load index %v metadata %v", what, in, l.id, l.set, l.split, l.merge, l.loadIndex, l.meta)
	}
	n := l.mod.len()
	if in.Elements != n || in.Segments < 1 {
		a.c.Failf("%s: list %s has %d elements in %d segments, want %d elements", what, l.id, in.Elements, in.Segments, n)
	}
	if w := float64(in.Elements) / float64(in.Segments); in.Avg != w {
		a.c.Failf("%s: list %s has %v elements per segment, want %v", what, l.id, in.Avg, w)
	}
	if !topBottom || n == 0 {
		if in.Top != nil || in.Bottom != nil {
			a.c.Failf("%s: list %s (%d elements) has top %v bottom %v", what, l.id, n, in.Top, in.Bottom)
		}
		return
	}
	if in.Top == nil || in.Bottom == nil {
		a.c.Failf("%s: list %s (%d elements) has no top or bottom element", what, l.id, n)
	}
	if p := a.checkElem(what+", top", l, *in.Top, false); p != 0 {
		a.c.Failf("%s: top element of list %s is at position %d", what, l.id, p)
	}
	if p := a.checkElem(what+", bottom", l, *in.Bottom, false); p != n-1 {
		a.c.Failf("%s: bottom element of list %s is at position %d of %d", what, l.id, p, n)
	}
}

// checkList reads everything in a list and compares it with the model.
func (a *apiSim) checkList(what string, l *apiList) {
	n := l.mod.len()
	if n == 0 {
		r := a.s.do("GET", l.path("/range?from_top=0"), nil)
		if r.code != 404 {
			a.c.Failf("%s: range of empty list %s: %s", what, l.id, r)
		}
	}
	for off := 0; off < n; off += 1000 {
		r := a.s.expect(200, "GET", l.path("/range?from_top=%d&limit=1000", off), nil)
		var es []apiElem
		r.json(a.c, "range", &es)
		all := l.mod.list()
		hi := off + 1000
		if hi > n {
			hi = n
		}
		a.checkSeq(what+": list "+l.id, l, es, all[off:hi], false)
	}
	a.c.Count("list_dumps", 1)
}

func (a *apiSim) checkAll(what string) {
	for _, id := range a.listIDs() {
		a.checkList(what, a.lists[id])
	}
}

func (a *apiSim) listIDs() []string {
	var ids []string
	for id := range a.lists {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

func (a *apiSim) anyList() *apiList {
	ids := a.listIDs()
	return a.lists[ids[a.r.Intn(len(ids))]]
}

// getInfo compares the description of a list.
func (a *apiSim) getInfo(l *apiList) {
	tb := a.r.Intn(2) == 0
	p := l.path("")
	if tb || a.r.Intn(2) == 0 {
		p = l.path("?top_bottom=%v", tb)
	}
	var in apiListInfo
	a.s.expect(200, "GET", p, nil).json(a.c, "get list", &in)
	a.checkInfo("get list", l, in, tb)
}

// checkDirectory pages through all lists.
func (a *apiSim) checkDirectory(what string) {
	ids := a.listIDs()
	limit := pick(a.r, []int{1, 2, 3, 5, 25, 1000})
	seen := 0
	after := ""
	for page := 0; ; page++ {
		q := url.Values{}
		q.Set("limit", strconv.Itoa(limit))
		if after != "" || a.r.Intn(2) == 0 {
			q.Set("after_id", after)
		}
		var res struct {
			Before int           `json:"lists_before"`
			After  int           `json:"lists_after"`
			Lists  []apiListInfo `json:"lists"`
		}
		a.s.expect(200, "GET", "/lists?"+q.Encode(), nil).json(a.c, "list lists", &res)
		if res.Before != seen || res.After != len(ids)-seen-len(res.Lists) {
			a.c.Failf("%s: page after %q has %d lists, %d before and %d after; there are %d lists, %d already seen", what, after, len(res.Lists), res.Before, res.After, len(ids), seen)
		}
		if len(res.Lists) > limit || len(res.Lists) < limit && res.After > 0 {
			a.c.Failf("%s: page of %d lists, limit %d, %d following", what, len(res.Lists), limit, res.After)
		}
		for _, in := range res.Lists {
			if seen >= len(ids) || in.ID != ids[seen] {
				a.c.Failf("%s: list %d of the listing is %q, want the IDs %q in order", what, seen, in.ID, ids)
			}
			l := a.lists[in.ID]
			if in.Set != l.set || in.SplitSize != l.split || in.MergeSize != l.merge || in.LoadIndex != l.loadIndex || len(in.Metadata) != len(l.meta) {
				a.c.Failf("%s: list is %+v, want id %q set %q split %d merge %d load index %v metadata %v", what, in, l.id, l.set, l.split, l.merge, l.loadIndex, l.meta)
			}
			for k, v := range l.meta {
				if w, ok := in.Metadata[k]; !ok || w != v {
					a.c.Failf("%s: list %q has metadata %v, want %v", what, in.ID, in.Metadata, l.meta)
				}
			}
			seen++
		}
		if res.After == 0 {
			break
		}
		after = res.Lists[len(res.Lists)-1].ID
	}
	if seen != len(ids) {
		a.c.Failf("%s: listing has %d lists, want %d", what, seen, len(ids))
	}
	// Backwards.
	if len(ids) > 0 {
		i := a.r.Intn(len(ids))
		var res struct {
			Before int           `json:"lists_before"`
			After  int           `json:"lists_after"`
			Lists  []apiListInfo `json:"lists"`
		}
		a.s.expect(200, "GET", fmt.Sprintf("/lists?before_id=%s&limit=%d", ids[i], limit), nil).json(a.c, "list lists", &res)
		lo := i - limit
		if lo < 0 {
			lo = 0
		}
		want := ids[lo:i]
		var got []string
		for _, l := range res.Lists {
			got = append(got, l.ID)
		}
		if strings.Join(got, ",") != strings.Join(want, ",") || res.Before != lo || res.After != len(ids)-i {
			a.c.Failf("%s: page before %q with limit %d: %q, %d before, %d after, want %q %d %d", what, ids[i], limit, got, res.Before, res.After, want, lo, len(ids)-i)
		}
	}
	a.c.Count("directory_walks", 1)
}

// aeroIf starts the node of an Aerospike configuration, which refuses some
// requests if the server is to try again.
func (s *srvCfg) aeroIf(r *rand.Rand) {
	if s.storage != "Aerospike" {
		s.aero = nil
		return
	}
	if s.aero == nil {
		s.aero = newFakeAero()
	}
	s.aeroBlock = pick(r, []int{0, 1 << 20, 2048, 3000, 8 << 10})
	if s.retry {
		s.aero.refusePct = 3
	}
}

func randSrvCfg(r *rand.Rand, dir string) srvCfg {
	cfg := srvCfg{dir: dir, storage: pick(r, []string{"Memory", "Memory", "BoltDB", "BoltDB", "Badger", "Badger", "Aerospike"}),
		cacheEntries: pick(r, []int{0, 1, 5, 1000}), cacheType: pick(r, []string{"", "ARC", "LRU", "LRU2Q"}),
		maxUpdates: pick(r, []int{0, 1, 2, 8}), retry: r.Intn(3) == 0, saveEvery: pick(r, []string{"1h", "20ms", "100ms"}), pruneEvery: pick(r, []string{"1h", "30ms", "100ms"})}
	cfg.aeroIf(r)
	if cfg.cacheType == "LRU2Q" && cfg.cacheEntries == 1 {
		cfg.cacheEntries = 5
	}
	if r.Intn(2) == 0 {
		cfg.lazy = true
		cfg.lazyTime = pick(r, []string{"20ms", "200ms", "10s"})
		cfg.lazyLimit = pick(r, []int{20, 100, 1000})
		cfg.lazyFlush = cfg.lazyLimit / 2
		cfg.lazySavers = 1 + r.Intn(4)
	}
	if r.Intn(3) == 0 {
		cfg.backupEvery = 1 + r.Intn(3)
	}
	return cfg
}
