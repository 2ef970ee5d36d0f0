package main

import (
	"context"
	"crypto"
	"crypto/hmac"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	_ "crypto/sha512"
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	mrand "math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

func init() {
	register(&Check{ID: "C25", Quick: 120, Thorough: 2500, StallSecs: 150, Setup: setupJWT, Run: runC25,
		Rule:   "one case = one real server with two token keys; random requests to every protected endpoint with generated tokens (algorithm, key, damage, validity period, scope form, list and element restrictions of every shape); an independent decision procedure says whether the request must be carried out; refused requests must answer 401 and leave directory and content unchanged, granted ones have their effect",
		Assume: []string{"neighbours returned with an element are not restricted, ranges and percentiles are restricted by list only, api:manage endpoints do not enforce restrictions (README, Security)"}})
}

var jwtKeys struct {
	priv [3]*rsa.PrivateKey // the last one is not configured
	pub  [3][]byte
}

func setupJWT() error {
	for i := range jwtKeys.priv {
		k, err := rsa.GenerateKey(rand.Reader, 2048)
		if err != nil {
			return err
		}
		b, err := x509.MarshalPKIXPublicKey(&k.PublicKey)
		if err != nil {
			return err
		}
		jwtKeys.priv[i] = k
		jwtKeys.pub[i] = pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: b})
	}
	return nil
}

func b64(b []byte) string { return base64.RawURLEncoding.EncodeToString(b) }

func signJWT(alg string, key int, claims map[string]interface{}) string {
	h, _ := json.Marshal(map[string]string{"alg": alg, "typ": "JWT"})
	p, _ := json.Marshal(claims)
	in := b64(h) + "." + b64(p)
	var hash crypto.Hash
	switch {
	case strings.HasSuffix(alg, "256"):
		hash = crypto.SHA256
	case strings.HasSuffix(alg, "384"):
		hash = crypto.SHA384
	default:
		hash = crypto.SHA512
	}
	var sig []byte
	var err error
	switch alg[:2] {
	case "RS", "ES":
		d := hash.New()
		d.Write([]byte(in))
		sig, err = rsa.SignPKCS1v15(rand.Reader, jwtKeys.priv[key], hash, d.Sum(nil))
	case "PS":
		d := hash.New()
		d.Write([]byte(in))
		sig, err = rsa.SignPSS(rand.Reader, jwtKeys.priv[key], hash, d.Sum(nil), &rsa.PSSOptions{SaltLength: rsa.PSSSaltLengthAuto})
	case "HS":
		m := hmac.New(sha256.New, jwtKeys.pub[key])
		m.Write([]byte(in))
		sig = m.Sum(nil)
	}
	if err != nil {
		panic(err)
	}
	return in + "." + b64(sig)
}

// token is a generated Authorization header and what it must grant.
type token struct {
	header string
	desc   string
	valid  bool
	scopes map[string]bool
	lists  map[string]bool // nil: unrestricted
	elems  map[uint64]bool
}

func (t *token) allows(scope string, restricted bool, lists []string, elems []EID) bool {
	if !t.valid || !t.scopes[scope] {
		return false
	}
	if !restricted {
		return true
	}
	if t.lists != nil {
		for _, l := range lists {
			if !t.lists[l] {
				return false
			}
		}
	}
	if t.elems != nil {
		for _, e := range elems {
			if !t.elems[uint64(e)] {
				return false
			}
		}
	}
	return true
}

var allScopes = []string{"api:read", "api:update", "api:delete", "api:manage"}

func genToken(r *mrand.Rand, lists []string, elems []EID) *token {
	t := &token{scopes: map[string]bool{}}
	cl := map[string]interface{}{"iss": "test", "jti": strconv.Itoa(r.Int())}
	now := time.Now().Unix()
	// Scopes.
	var sc []string
	for _, s := range allScopes {
		if r.Intn(4) > 0 {
			sc = append(sc, s)
		}
	}
	set := func(ss ...string) {
		for _, s := range ss {
			t.scopes[s] = true
		}
	}
	switch k := r.Intn(14); k {
	case 0:
		cl["scopes"] = sc
		set(sc...)
	case 1:
		cl["scope"] = strings.Join(sc, " ")
		set(sc...)
	case 2:
		cl["scopes"] = pick(r, []interface{}{"", 5, "api", "api:readx api:rea", "api:read,api:update,api:delete,api:manage", "API:READ API:UPDATE API:DELETE API:MANAGE", map[string]bool{"api:read": true}, true, []int{1}, "api:*", "*"})
		t.desc += fmt.Sprintf(" scopes %v", cl["scopes"])
	case 3:
		t.desc += " no scopes"
	default:
		cl["scopes"] = strings.Join(sc, " ")
		set(sc...)
	}
	// List restriction.
	some := func(ids []string) []string {
		var out []string
		for _, id := range ids {
			if r.Intn(2) == 0 {
				out = append(out, id)
			}
		}
		return out
	}
	join := func(ids []string) string {
		sep := pick(r, []string{",", ", ", " ,", ",,"})
		s := strings.Join(ids, sep)
		if r.Intn(6) == 0 {
			s = " " + s + " "
		}
		return s
	}
	badClaim := []interface{}{5, 1.5, true, nil, []string{}, map[string]string{}, lists, "", " ", ",", "*"}
	switch r.Intn(8) {
	case 0, 1, 2, 3: // unrestricted
	case 4, 5:
		ids := some(lists)
		t.lists = map[string]bool{}
		for _, id := range ids {
			t.lists[id] = true
		}
		if r.Intn(3) == 0 { // entries that match no list
			l := lists[r.Intn(len(lists))]
			ids = append(ids, pick(r, []string{l + "x", l[:len(l)-1], strings.ToUpper(l), l + " " + l, "*", "list-*", l + ";" + l}))
		}
		r.Shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
		cl["only_lists"] = join(ids)
	case 6:
		cl["only_lists"] = strings.Join(lists, ",")
		t.lists = map[string]bool{}
		for _, id := range lists {
			t.lists[id] = true
		}
	case 7:
		cl["only_lists"] = pick(r, badClaim)
		t.lists = map[string]bool{}
	}
	var eids []string
	for _, e := range elems {
		eids = append(eids, fmt.Sprint(uint64(e)))
	}
	switch r.Intn(8) {
	case 0, 1, 2, 3:
	case 4, 5, 6:
		ids := some(eids)
		t.elems = map[uint64]bool{}
		for _, id := range ids {
			v, _ := strconv.ParseUint(id, 10, 64)
			t.elems[v] = true
		}
		if r.Intn(2) == 0 {
			e := eids[r.Intn(len(eids))]
			if e == "0" {
				e = "999"
			}
			// Entries that are not element IDs grant nothing.
			ids = append(ids, pick(r, []string{e + "x", "x" + e, "-" + e, e + ".0", "0x" + e, "*", "", "1-999999", e + " " + e, "1e3", "99999999999999999999", e + "_0"}))
		}
		if r.Intn(3) == 0 {
			// Neither do those of others that are nearly the same.
			v := uint64(elems[r.Intn(len(elems))])
			v = pick(r, []uint64{v ^ 1<<32, v ^ 1<<63, v ^ 1<<31, v + 1<<16, v * 10, v / 10, v + 1<<8})
			t.elems[v] = true
			ids = append(ids, fmt.Sprint(v))
		}
		r.Shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
		cl["only_elements"] = join(ids)
	case 7:
		cl["only_elements"] = pick(r, append(append([]interface{}{}, badClaim...), float64(elems[0]), elems))
		t.elems = map[uint64]bool{}
	}
	t.valid = true
	alg, key := pick(r, []string{"RS256", "RS384", "RS512"}), r.Intn(2)
	if r.Intn(2) == 0 {
		cl["exp"] = now + 3600
	}
	if r.Intn(3) == 0 {
		cl["nbf"] = now - 3600
	}
	if r.Intn(3) == 0 {
		cl["iat"] = now - 10
	}
	pre := "Bearer "
	if r.Intn(5) == 0 {
		pre = pick(r, []string{"bearer ", "BEARER "})
	}
	damage := ""
	if r.Intn(4) == 0 {
		t.valid = false
		damage = pick(r, []string{"expired", "not yet", "wrong key", "PS256", "none", "none-sig", "HS256", "ES256", "no header", "basic", "claims changed", "sig changed", "no sig", "garbage", "empty", "unsigned"})
	}
	switch damage {
	case "expired":
		cl["exp"] = now - pick(r, []int64{5, 3600, 1000000})
	case "not yet":
		cl["nbf"] = now + 3600
	case "wrong key":
		key = 2
	case "PS256", "HS256", "ES256":
		alg = damage
	}
	var tok string
	if damage == "none" || damage == "none-sig" {
		h, _ := json.Marshal(map[string]string{"alg": pick(r, []string{"none", "None", "NONE", "nOnE"}), "typ": "JWT"})
		p, _ := json.Marshal(cl)
		tok = b64(h) + "." + b64(p) + "."
		if damage == "none-sig" {
			tok += "AAAA"
		}
	} else {
		tok = signJWT(alg, key, cl)
	}
	parts := strings.Split(tok, ".")
	switch damage {
	case "claims changed":
		c2 := map[string]interface{}{"scopes": strings.Join(allScopes, " ")}
		p, _ := json.Marshal(c2)
		tok = parts[0] + "." + b64(p) + "." + parts[2]
	case "sig changed":
		s, _ := base64.RawURLEncoding.DecodeString(parts[2])
		s[r.Intn(len(s))] ^= 1 << uint(r.Intn(8))
		tok = parts[0] + "." + parts[1] + "." + b64(s)
	case "no sig":
		tok = parts[0] + "." + parts[1] + "."
	case "unsigned":
		tok = parts[0] + "." + parts[1]
	case "garbage":
		tok = pick(r, []string{"x", "a.b.c", "..", "{}", parts[1]})
	case "empty":
		tok = ""
	}
	t.header = pre + tok
	switch damage {
	case "no header":
		t.header = ""
	case "basic":
		t.header = pick(r, []string{"Basic " + tok, tok, "Bearer", "Token " + tok})
	}
	j, _ := json.Marshal(cl)
	t.desc = fmt.Sprintf("%s key %d %q claims %s%s", alg, key, damage, j, t.desc)
	return t
}

// jwtOp is a well-formed request to a protected endpoint.
type jwtOp struct {
	name       string
	scope      string
	restricted bool
	lists      []string
	elems      []EID
	m, p       string
	body       interface{}
	want       int
	apply      func(t0, t1 time.Time)
	reads      *apiList
}

// randomOp makes a request and what it does to the model if it is carried out.
func (a *apiSim) randomOp() jwtOp {
	r := a.r
	l := a.anyList()
	some := func(n int) []EID {
		ids := a.g.existing(l.mod, n)
		if len(ids) == 0 {
			ids = append(ids, a.missing(l))
		}
		return ids
	}
	one := some(1)[0]
	_, exists := l.mod.m[one]
	in := func(id EID) inElem {
		e := a.in(id)
		if canonJSON(e.Payload) == nil {
			e.Payload = json.RawMessage(`{"k":1}`)
		}
		return e
	}
	code := func(ok bool) int {
		if ok {
			return 200
		}
		return 404
	}
	switch r.Intn(26) {
	case 0:
		return jwtOp{name: "get element", scope: "api:read", restricted: true, lists: []string{l.id}, elems: []EID{one}, m: "GET", p: l.path("/elements/%d", one), want: code(exists)}
	case 1:
		ids := some(4)
		return jwtOp{name: "find", scope: "api:read", restricted: true, lists: []string{l.id}, elems: ids, m: "POST", p: l.path("/elements/find"), body: map[string]interface{}{"element_ids": uids(ids)}, want: 200}
	case 2:
		ids := some(3)
		return jwtOp{name: "around", scope: "api:read", restricted: true, lists: []string{l.id}, elems: append([]EID{one}, ids...), m: "POST", p: l.path("/elements/%d/around", one), body: map[string]interface{}{"element_ids": uids(ids)}, want: code(exists)}
	case 3:
		return jwtOp{name: "get list", scope: "api:read", restricted: true, lists: []string{l.id}, m: "GET", p: l.path(""), want: 200}
	case 4:
		return jwtOp{name: "get range", scope: "api:read", restricted: true, lists: []string{l.id}, m: "GET", p: l.path("/range?from_top=0"), want: code(l.mod.len() > 0)}
	case 5:
		return jwtOp{name: "percentile", scope: "api:read", restricted: true, lists: []string{l.id}, m: "GET", p: l.path("/percentile"), want: code(l.mod.len() > 0)}
	case 6, 7:
		id := one
		if r.Intn(2) == 0 {
			id = a.missing(l)
		}
		e := in(id)
		_, ex := l.mod.m[id]
		w := 200
		if ex {
			w = 409
		}
		return jwtOp{name: "create element", scope: "api:update", restricted: true, lists: []string{l.id}, elems: []EID{id}, m: "POST", p: l.path("/elements"), body: e, want: w, apply: func(t0, t1 time.Time) {
			if !ex {
				a.adopt(l, []inElem{e}, t0, t1)
			}
		}}
	case 8, 9:
		e := in(one)
		return jwtOp{name: "put element", scope: "api:update", restricted: true, lists: []string{l.id}, elems: []EID{one}, m: "PUT", p: l.path("/elements/%d", one), body: e, want: 200, apply: func(t0, t1 time.Time) { a.adopt(l, []inElem{e}, t0, t1) }}
	case 10, 11:
		var b []inElem
		ids := some(4)
		if r.Intn(2) == 0 {
			ids = append(ids, a.newIDs(l, 1)...)
		}
		for _, id := range ids {
			b = append(b, in(id))
		}
		return jwtOp{name: "put elements", scope: "api:update", restricted: true, lists: []string{l.id}, elems: ids, m: "PUT", p: l.path("/elements?results=%v", r.Intn(2) == 0), body: b, want: 200, apply: func(t0, t1 time.Time) { a.adopt(l, b, t0, t1) }}
	case 12:
		return jwtOp{name: "delete element", scope: "api:delete", restricted: true, lists: []string{l.id}, elems: []EID{one}, m: "DELETE", p: l.path("/elements/%d", one), want: 204, apply: func(t0, t1 time.Time) { l.mod.del(one) }}
	case 13:
		ids := some(3)
		var q []string
		for _, id := range ids {
			q = append(q, fmt.Sprintf("element_ids=%d", id))
		}
		return jwtOp{name: "delete elements", scope: "api:delete", restricted: true, lists: []string{l.id}, elems: ids, m: "DELETE", p: l.path("/elements?%s", strings.Join(q, "&")), want: 204, apply: func(t0, t1 time.Time) { l.mod.del(ids...) }}
	case 14, 15, 16, 17:
		sel := a.selection()
		ids := a.selected(sel)
		id := one
		if r.Intn(2) == 0 {
			id = a.missing(l)
		}
		switch r.Intn(4) {
		case 0:
			return jwtOp{name: "multi-list get", scope: "api:read", restricted: true, lists: ids, elems: []EID{id}, m: "GET", p: fmt.Sprintf("/xlist/elements/%d?%s", id, sel.query()), want: 200}
		case 1:
			return jwtOp{name: "multi-list delete", scope: "api:delete", restricted: true, lists: ids, elems: []EID{id}, m: "DELETE", p: fmt.Sprintf("/xlist/elements/%d?%s", id, sel.query()), want: 200, apply: func(t0, t1 time.Time) {
				for _, x := range ids {
					if a.lists[x] != nil {
						a.lists[x].mod.del(id)
					}
				}
			}}
		case 2:
			b := []inElem{in(id)}
			return jwtOp{name: "multi-list put", scope: "api:update", restricted: true, lists: ids, elems: []EID{id}, m: "PUT", p: "/xlist/elements", body: sel.body(b), want: 200, apply: func(t0, t1 time.Time) {
				for _, x := range ids {
					if a.lists[x] != nil {
						a.adopt(a.lists[x], b, t0, t1)
					}
				}
			}}
		default:
			b := []inElem{in(id)}
			return jwtOp{name: "multi-list create", scope: "api:update", restricted: true, lists: ids, elems: []EID{id}, m: "POST", p: "/xlist/elements", body: sel.body(b), want: 200, apply: func(t0, t1 time.Time) {
				for _, x := range ids {
					if k := a.lists[x]; k != nil {
						if _, ex := k.mod.m[id]; !ex {
							a.adopt(k, b, t0, t1)
						}
					}
				}
			}}
		}
	case 18:
		n := &apiList{id: fmt.Sprintf("list-n%d", r.Intn(3)), set: "set-a", split: 20, merge: 10, mod: newModel()}
		w := 200
		if a.lists[n.id] != nil {
			w = 409
		}
		return jwtOp{name: "create list", scope: "api:manage", m: "POST", p: "/lists", body: a.listPayload(n, nil), want: w, apply: func(t0, t1 time.Time) {
			if w == 200 {
				a.lists[n.id] = n
			}
		}}
	case 19:
		id := fmt.Sprintf("list-n%d", r.Intn(3))
		return jwtOp{name: "delete list", scope: "api:manage", m: "DELETE", p: "/lists/" + id, want: 204, apply: func(t0, t1 time.Time) { delete(a.lists, id) }}
	case 20:
		return jwtOp{name: pick(r, []string{"reindex", "repair", "verify"}), scope: "api:manage", m: "PUT", p: l.path(pick(r, []string{"/reindex", "/repair", "/verify"})), want: 200}
	case 21:
		n := &apiList{id: fmt.Sprintf("list-n%d", r.Intn(3)), set: "set-b", split: 30, merge: 12, mod: l.mod.clone()}
		w := 200
		if a.lists[n.id] != nil {
			w = 409
		}
		return jwtOp{name: "clone", scope: "api:manage", m: "PUT", p: l.path("/clone"), body: a.listPayload(n, nil), want: w, apply: func(t0, t1 time.Time) {
			if w == 200 {
				a.lists[n.id] = n
			}
		}}
	case 22:
		return jwtOp{name: "list lists", scope: "api:manage", m: "GET", p: "/lists", want: 200}
	case 23:
		return jwtOp{name: "multi-list maintenance", scope: "api:manage", m: "PUT", p: pick(r, []string{"/xlist/verify", "/xlist/reindex", "/xlist/verify?repair=true&elements=true"}), body: a.selection().body(nil), want: 200}
	case 24:
		switch r.Intn(3) {
		case 0:
			return jwtOp{name: "backup", scope: "api:manage", m: "PUT", p: "/xlist/backup", body: map[string]interface{}{"destination": map[string]string{"type": "download"}, "lists": a.selection().body(nil)}, want: 200}
		case 1:
			return jwtOp{name: "backup", scope: "api:manage", m: "PUT", p: "/xlist/backup", body: map[string]interface{}{"destination": map[string]string{"type": "nowhere"}, "lists": map[string]string{}}, want: 400}
		default:
			return jwtOp{name: "restore", scope: "api:manage", m: "POST", p: "/xlist/restore?src_file=/nonexistent/file", body: "x", want: 400}
		}
	default:
		switch r.Intn(4) {
		case 0:
			return jwtOp{name: "health", scope: "api:manage", m: "GET", p: "/health", want: 200}
		case 1:
			return jwtOp{name: "root", scope: "api:manage", m: "GET", p: "/", want: 200}
		case 2:
			return jwtOp{name: "backup status", scope: "api:manage", m: "GET", p: "/backup/none", want: 404}
		default:
			return jwtOp{name: "backup cancel", scope: "api:manage", m: "DELETE", p: "/backup/none", want: 404}
		}
	}
}

// selection of lists of a multi-list request.
type selection struct {
	lists []string
	meta  map[string]string
	sets  []string
}

func (a *apiSim) selection() selection {
	var s selection
	r := a.r
	ids := a.listIDs()
	switch r.Intn(4) {
	case 0:
	default:
		for _, id := range ids {
			if r.Intn(3) == 0 {
				s.lists = append(s.lists, id)
			}
		}
		if r.Intn(4) == 0 {
			s.lists = append(s.lists, "list-none")
		}
		if len(s.lists) > 0 && r.Intn(4) == 0 {
			s.lists = append(s.lists, s.lists[0])
		}
		r.Shuffle(len(s.lists), func(i, j int) { s.lists[i], s.lists[j] = s.lists[j], s.lists[i] })
	}
	if r.Intn(3) == 0 {
		l := a.lists[ids[r.Intn(len(ids))]]
		s.meta = map[string]string{}
		for k, v := range l.meta {
			if r.Intn(2) == 0 {
				s.meta[k] = v
			}
		}
		if r.Intn(5) == 0 {
			s.meta["other"] = "x"
		}
		if len(s.meta) == 0 {
			s.meta = nil
		}
	}
	if r.Intn(3) == 0 {
		s.sets = append(s.sets, pick(r, []string{"set-a", "set-b", "set-c", "set-none"}))
		if r.Intn(3) == 0 {
			s.sets = append(s.sets, pick(r, []string{"set-a", "set-b"}))
		}
	}
	return s
}

func (s selection) empty() bool { return len(s.lists)+len(s.meta)+len(s.sets) == 0 }

func (s selection) body(elems []inElem) map[string]interface{} {
	b := map[string]interface{}{}
	if s.lists != nil {
		b["lists"] = s.lists
	}
	if s.meta != nil {
		b["match_metadata"] = s.meta
	}
	if s.sets != nil {
		b["all_in_sets"] = s.sets
	}
	if elems != nil {
		b["payload"] = elems
	}
	return b
}

func (s selection) query() string {
	var q []string
	for _, l := range s.lists {
		q = append(q, "lists="+l)
	}
	if s.meta != nil {
		j, _ := json.Marshal(s.meta)
		q = append(q, "match_metadata="+urlQ(string(j)))
	}
	for _, l := range s.sets {
		q = append(q, "all_in_sets="+l)
	}
	return strings.Join(q, "&")
}

// selected returns the IDs selected: the named ones, those with all the
// metadata, and those in the sets.
func (a *apiSim) selected(s selection) []string {
	m := map[string]bool{}
	for _, id := range s.lists {
		m[id] = true
	}
	for id, l := range a.lists {
		if len(s.meta) > 0 {
			ok := true
			for k, v := range s.meta {
				if w, has := l.meta[k]; !has || w != v {
					ok = false
				}
			}
			if ok {
				m[id] = true
			}
		}
		for _, set := range s.sets {
			if l.set == set {
				m[id] = true
			}
		}
	}
	var out []string
	for id := range m {
		out = append(out, id)
	}
	sort.Strings(out)
	return out
}

func runC25(c *C) {
	r := c.Rng
	cfg := randSrvCfg(r, c.TempDir())
	cfg.storage = "Memory"
	cfg.jwtKeys = filepath.Join(cfg.dir, "keys")
	if err := os.MkdirAll(cfg.jwtKeys, 0o755); err != nil {
		panic(err)
	}
	for i := 0; i < 2; i++ {
		os.WriteFile(filepath.Join(cfg.jwtKeys, fmt.Sprintf("k%d.pub", i)), jwtKeys.pub[i], 0o644)
	}
	// A key that is not named *.pub is not configured.
	os.WriteFile(filepath.Join(cfg.jwtKeys, "other.key"), jwtKeys.pub[2], 0o644)
	if r.Intn(2) == 0 {
		// The key that would sign tokens if the server were built to hand them out.
		os.WriteFile(filepath.Join(cfg.jwtKeys, "jwt.key"), pem.EncodeToMemory(&pem.Block{Type: "RSA PRIVATE KEY", Bytes: x509.MarshalPKCS1PrivateKey(jwtKeys.priv[0])}), 0o600)
	}
	s := startSrv(c, cfg)
	s.auth = "Bearer " + signJWT("RS256", 0, map[string]interface{}{"scopes": strings.Join(allScopes, " ")})
	for _, auth := range []string{"", s.auth, "Bearer " + signJWT("RS256", 0, map[string]interface{}{"scopes": "api:read"})} {
		x := s.try(context.Background(), "POST", "/jwt?scope="+pick(r, []string{"api:read", "api:manage", "api:manage%20api:update"})+pick(r, []string{"", "&expire=10", "&only_lists=list-0"}), auth, nil)
		s.answered("POST /jwt", nil, x)
		if x.code < 400 || x.hdr.Get("Authorization") != "" {
			c.Failf("the server hands out tokens: %s with header %q to a request with %q", x, x.hdr.Get("Authorization"), auth)
		}
		c.Count("tokens_not_handed_out", 1)
	}
	a := newAPISim(c, s)
	a.g.idKind = pick(r, []int{0, 1})
	for i := 0; i < 3; i++ {
		a.create(fmt.Sprintf("list-%d", i), pick(r, []string{"set-a", "set-b", "set-c"}), r.Intn(25), map[string]string{"n": fmt.Sprint(i), "p": fmt.Sprint(i % 2)})
	}
	granted, refused := 0, 0
	kinds := map[string]int{}
	ask := func(op jwtOp, t *token) {
		ok := t.allows(op.scope, op.restricted, op.lists, op.elems)
		if op.restricted && (len(op.lists) == 0 || len(op.elems) == 0) && t.valid && t.scopes[op.scope] {
			// Nothing is asked for; either answer is fine as nothing can change.
			if len(op.lists) == 0 {
				return
			}
			if _, plain := t.lists[""]; plain {
				return
			}
		}
		t0 := time.Now()
		x := s.try(context.Background(), op.m, op.p, t.header, op.body)
		t1 := time.Now()
		s.c.Logf("%s: %s %s %s with %s -> %s (must be granted: %v)", op.name, op.m, op.p, bodyText(op.body), t.desc, x, ok)
		s.answered(op.name, op.body, x)
		if ok {
			granted++
			if x.code != op.want {
				c.Failf("%s %s %s with a sufficient token answered %s, want %d; token: %s", op.name, op.m, op.p, x, op.want, t.desc)
			}
			if op.apply != nil {
				op.apply(t0, t1)
			}
			kinds["granted_"+op.name]++
			if r.Intn(8) == 0 {
				a.checkAll("after " + op.name)
			}
			return
		}
		refused++
		kinds["refused_"+op.name]++
		if x.code != 401 {
			c.Failf("%s %s %s must be refused, but answered %s; token: %s; affects lists %q elements %d", op.name, op.m, op.p, x, t.desc, op.lists, op.elems)
		}
		if r.Intn(3) == 0 {
			a.checkDirectory("after refused " + op.name)
			a.checkAll("after refused " + op.name)
		}
	}
	for i := 0; i < 130; i++ {
		op := a.randomOp()
		// Tokens are made around what the request touches.
		lists := append([]string{}, op.lists...)
		if len(lists) == 0 {
			lists = a.listIDs()
		}
		elems := append([]EID{}, op.elems...)
		if len(elems) == 0 || r.Intn(3) == 0 {
			elems = append(elems, a.g.existing(a.anyList().mod, 3)...)
		}
		if len(elems) == 0 {
			elems = []EID{1, 2}
		}
		ask(op, genToken(r, lists, elems))
	}
	a.checkDirectory("at the end of the sequence")
	a.checkAll("at the end of the sequence")
	// Concurrent requests with different tokens do not influence each other.
	type job struct {
		op jwtOp
		t  *token
		ok bool
	}
	var jobs []job
	for len(jobs) < 60 {
		op := a.randomOp()
		if op.apply != nil || op.scope == "api:manage" || len(op.lists) == 0 || len(op.elems) == 0 {
			continue
		}
		t := genToken(r, op.lists, op.elems)
		jobs = append(jobs, job{op, t, t.allows(op.scope, op.restricted, op.lists, op.elems)})
	}
	var wg sync.WaitGroup
	for w := 0; w < 6; w++ {
		wg.Add(1)
		go func(r *mrand.Rand) {
			defer wg.Done()
			for i := 0; i < 30; i++ {
				j := jobs[r.Intn(len(jobs))]
				x := s.try(context.Background(), j.op.m, j.op.p, j.t.header, j.op.body)
				if x.err != nil || x.code >= 500 {
					c.FailAsync("concurrent %s: %s", j.op.name, x)
					return
				}
				if j.ok != (x.code == j.op.want) || !j.ok && x.code != 401 {
					c.FailAsync("concurrent %s %s: answered %s, must be granted: %v; token: %s", j.op.m, j.op.p, x, j.ok, j.t.desc)
					return
				}
			}
		}(mrand.New(mrand.NewSource(r.Int63())))
	}
	wg.Wait()
	c.CheckAsync()
	for k, n := range kinds {
		c.Count(strings.ReplaceAll(k, " ", "_"), int64(n))
	}
	c.Count("granted", int64(granted))
	c.Count("refused", int64(refused))
	c.Sig(granted, refused, s.reqs)
	c.NonTrivial()
	c.Sample("%d requests granted, %d refused, 180 concurrent", granted, refused)
	s.finish()
}
