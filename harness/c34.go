package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"reflect"
	"strings"
	"sync/atomic"
	"time"

	"github.com/ugorji/go/codec"
)

var mpHandle = func() *codec.MsgpackHandle {
	h := &codec.MsgpackHandle{}
	h.MapType = reflect.TypeOf(map[string]interface{}(nil))
	h.RawToString = true
	return h
}()

// toMsgpack converts a JSON text; ok is false if it is not one.
func toMsgpack(j []byte) ([]byte, bool) {
	d := json.NewDecoder(bytes.NewReader(j))
	d.UseNumber()
	var v interface{}
	if d.Decode(&v) != nil || d.More() {
		return nil, false
	}
	var out []byte
	if codec.NewEncoderBytes(&out, mpHandle).Encode(mpValue(v)) != nil {
		return nil, false
	}
	return out, true
}

// mpValue replaces numbers by the kind they are, and payloads of elements by
// their JSON text as bytes.
func mpValue(v interface{}) interface{} {
	switch x := v.(type) {
	case map[string]interface{}:
		_, score := x["score"]
		_, lists := x["lists"]
		for k, e := range x {
			if k == "payload" && score && !lists && e != nil {
				b, _ := json.Marshal(e)
				x[k] = b
				continue
			}
			x[k] = mpValue(e)
		}
	case []interface{}:
		for i := range x {
			x[i] = mpValue(x[i])
		}
	case json.Number:
		var u uint64
		if _, err := fmt.Sscanf(string(x), "%d", &u); err == nil && fmt.Sprint(u) == string(x) {
			return u
		}
		if i, err := x.Int64(); err == nil {
			return i
		}
		f, _ := x.Float64()
		return f
	}
	return v
}

// fromMsgpack converts an answer to JSON.
func fromMsgpack(b []byte) ([]byte, error) {
	d := codec.NewDecoderBytes(b, mpHandle)
	var v interface{}
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	if d.NumBytesRead() != len(b) {
		return nil, fmt.Errorf("%d bytes after the message", len(b)-d.NumBytesRead())
	}
	return json.Marshal(jsonValue(v))
}

func jsonValue(v interface{}) interface{} {
	switch x := v.(type) {
	case map[string]interface{}:
		for k, e := range x {
			if k == "payload" {
				switch p := e.(type) {
				case string:
					x[k] = json.RawMessage(p)
					continue
				case []byte:
					x[k] = json.RawMessage(p)
					continue
				}
			}
			if t, ok := e.(string); ok && strings.HasSuffix(k, "_at") {
				x[k] = mpTime(t)
				continue
			}
			x[k] = jsonValue(e)
		}
	case []interface{}:
		for i := range x {
			x[i] = jsonValue(x[i])
		}
	}
	return v
}

// mpTime reads a time in the format of msgpack.
func mpTime(t string) interface{} {
	b := []byte(t)
	switch len(b) {
	case 4:
		return time.Unix(int64(binary.BigEndian.Uint32(b)), 0).UTC()
	case 8:
		x := binary.BigEndian.Uint64(b)
		return time.Unix(int64(x&(1<<34-1)), int64(x>>34)).UTC()
	case 12:
		return time.Unix(int64(binary.BigEndian.Uint64(b[4:])), int64(binary.BigEndian.Uint32(b))).UTC()
	}
	return t
}

func (s *srv) mixedEncoding(rd io.Reader) (io.Reader, string, string) {
	x := atomic.AddUint64(&s.encCtr, 1) * 0x9E3779B97F4A7C15 >> 40
	accept := []string{"", "application/json", "application/msgpack", "application/msgpack"}[x%4]
	if rd == nil || x/4%3 == 0 {
		return rd, "application/json", accept
	}
	b, err := io.ReadAll(rd)
	if err != nil {
		return bytes.NewReader(b), "application/json", accept
	}
	m, ok := toMsgpack(b)
	if !ok {
		return bytes.NewReader(b), "application/json", accept
	}
	s.c.Count("msgpack_requests", 1)
	return bytes.NewReader(m), "application/msgpack", accept
}

func (s *srv) decodeAnswer(what, accept string, res *http.Response, b []byte) []byte {
	ct := res.Header.Get("Content-Type")
	if len(b) == 0 || strings.Contains(ct, "octet-stream") || strings.HasPrefix(ct, "text/") {
		return b
	}
	if !strings.HasPrefix(accept, "application/msgpack") {
		if b[0] != '{' && b[0] != '[' {
			s.c.FailAsync("%s: asked for %q, the answer is not JSON: %.60q", what, accept, b)
		}
		return b
	}
	j, err := fromMsgpack(b)
	if err != nil {
		s.c.FailAsync("%s: asked for msgpack, the answer (%s) is not: %v: %.200q", what, ct, err, b)
		return b
	}
	s.c.Count("msgpack_answers", 1)
	return j
}

func init() {
	register(&Check{ID: "C34", Quick: 90, Thorough: 500, Run: runC34,
		Rule:   "one case = one real server (race instrumented) driven through list, element and multi-list requests compared with the models while every request body and every answer is JSON or msgpack at random; the same reads are made in both encodings and compared field by field; then bodies that are damaged or have other types than documented, with all lists read as JSON afterwards",
		Assume: []string{"the server is built with the tag of its msgpack library that avoids runtime internals (see DESIGN.md)", "times have at least the precision of msgpack timestamps"}})
}

// raw sends a body in an encoding as it is and asks for one.
func (s *srv) raw(method, path, ctype, accept string, body []byte) resp {
	req, err := http.NewRequest(method, s.base+path, bytes.NewReader(body))
	if err != nil {
		panic(err)
	}
	if body == nil {
		req.Body = nil
	} else {
		req.Header.Set("Content-Type", ctype)
	}
	req.Header.Set("Accept", accept)
	s.c.Tick()
	res, err := s.cl.Do(req)
	s.c.Tick()
	if err != nil {
		return resp{err: err}
	}
	defer res.Body.Close()
	b, err := io.ReadAll(res.Body)
	r := resp{code: res.StatusCode, body: b, hdr: res.Header, err: err}
	s.c.Logf("%s %s (%s, %d bytes) -> %d, %d bytes", method, path, ctype, len(body), r.code, len(b))
	s.answered(method+" "+path, body, r)
	return r
}

// generic decodes JSON for comparison; members that are null count as absent
// and numbers that change between requests are dropped.
func generic(b []byte) (interface{}, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	if d.More() {
		return nil, fmt.Errorf("more after the value")
	}
	return norm(v), nil
}

func norm(v interface{}) interface{} {
	switch x := v.(type) {
	case map[string]interface{}:
		for k, e := range x {
			switch {
			case e == nil, strings.HasPrefix(k, "cache_"):
				delete(x, k)
				continue
			case k == "id" && x["status"] != nil && x["code"] != nil: // of an error
				delete(x, k)
				continue
			case k == "detail":
				delete(x, k)
				continue
			case k == "updated_at":
				if t, err := time.Parse(time.RFC3339Nano, fmt.Sprint(e)); err == nil {
					x[k] = t.UTC().String()
				}
				continue
			}
			x[k] = norm(e)
		}
	case []interface{}:
		for i := range x {
			x[i] = norm(x[i])
		}
	case json.Number:
		if f, err := x.Float64(); err == nil && strings.ContainsAny(string(x), ".eE") {
			return fmt.Sprintf("%.6g", f)
		}
	}
	return v
}

// sameInBoth makes a request that changes nothing in all four ways.
func (a *apiSim) sameInBoth(method, path string, body []byte) {
	c := a.c
	var first interface{}
	var firstCode int
	var firstWay string
	for i := 0; i < 4; i++ {
		ct, accept, b := "application/json", "application/json", body
		if i&1 != 0 {
			accept = "application/msgpack"
		}
		if i&2 != 0 {
			if body == nil {
				continue
			}
			m, ok := toMsgpack(body)
			if !ok {
				continue
			}
			ct, b = "application/msgpack", m
		}
		way := ct + " to " + accept
		x := a.s.raw(method, path, ct, accept, b)
		j := x.body
		if i&1 != 0 && len(j) > 0 {
			var err error
			if j, err = fromMsgpack(j); err != nil {
				c.Failf("%s %s %s (%s): answer %d cannot be decoded: %v: %.300q", method, path, body, way, x.code, err, x.body)
			}
		}
		var v interface{}
		if len(j) > 0 {
			var err error
			if v, err = generic(j); err != nil {
				c.Failf("%s %s %s (%s): answer %d cannot be decoded: %v: %.300q", method, path, body, way, x.code, err, j)
			}
		}
		if i == 0 {
			first, firstCode, firstWay = v, x.code, way
			continue
		}
		if x.code != firstCode || !reflect.DeepEqual(v, first) {
			f, _ := json.Marshal(first)
			g, _ := json.Marshal(v)
			c.Failf("%s %s %s: %s answers %d %s, %s answers %d %s", method, path, body, firstWay, firstCode, f, way, x.code, g)
		}
		c.Count("answers_compared", 1)
	}
}

// both compares answers to reads.
func (a *apiSim) both() {
	r := a.r
	l := a.anyList()
	id := a.missing(l)
	if es := l.mod.list(); len(es) > 0 && r.Intn(4) > 0 {
		id = pick(r, es).ID
	}
	p := l.path("")
	switch r.Intn(9) {
	case 0:
		a.sameInBoth("GET", fmt.Sprintf("%s/elements/%d?range=%d", p, id, r.Intn(4)), nil)
	case 1:
		a.sameInBoth("GET", fmt.Sprintf("%s/range?from_top=%d&limit=%d", p, r.Intn(l.mod.len()+2), 1+r.Intn(30)), nil)
	case 2:
		a.sameInBoth("GET", fmt.Sprintf("%s/range?from_bottom=%d&limit=%d", p, r.Intn(l.mod.len()+2), 1+r.Intn(30)), nil)
	case 3:
		a.sameInBoth("GET", p+fmt.Sprintf("?top_bottom=%v", r.Intn(2) == 0), nil)
	case 4:
		a.sameInBoth("GET", fmt.Sprintf("/lists?limit=%d", 1+r.Intn(10)), nil)
	case 5:
		a.sameInBoth("POST", p+"/elements/find", []byte(fmt.Sprintf(`{"element_ids":[%d,%d,5]}`, id, a.missing(l))))
	case 6:
		a.sameInBoth("GET", fmt.Sprintf("%s/percentile?from_top=%d&range=%d", p, r.Intn(101), r.Intn(4)), nil)
	case 7:
		a.sameInBoth("GET", fmt.Sprintf("/xlist/elements/%d?all_in_sets=set-a", id), nil)
	case 8:
		a.sameInBoth("PUT", p+"/verify?elements=true", nil)
	}
}

// damageMP changes a msgpack text.
func damageMP(r *rand.Rand, m []byte) []byte {
	m = append([]byte{}, m...)
	for n := 1 + r.Intn(3); n > 0 && len(m) > 0; n-- {
		i := r.Intn(len(m))
		switch r.Intn(5) {
		case 0:
			m = m[:i]
		case 1:
			m[i] = byte(r.Intn(256))
		case 2:
			m[i] ^= 1 << uint(r.Intn(8))
		case 3: // sizes that are not there
			m = append(append(append([]byte{}, m[:i]...), pick(r, []string{"\xdd\xff\xff\xff\xff", "\xdf\x7f\xff\xff\xff", "\xdb\xff\xff\xff\xf0", "\xc6\xff\xff\xff\xff", "\xc1", "\xc0", "\xcb\x7f\xf8\x00\x00\x00\x00\x00\x00", strings.Repeat("\x91", 3000)})...), m[i:]...)
		case 4:
			m = append(m, m[i:]...)
		}
	}
	return m
}

// hostile sends bodies that are not what they should be to a list of its own.
func (a *apiSim) hostile() {
	c, r := a.c, a.r
	const id = "zz-hostile"
	a.s.expect(http.StatusOK, "POST", "/lists", map[string]interface{}{"id": id, "set": "hostile", "split_size": 20, "merge_size": 10, "load_index": true})
	enc := func(v interface{}) []byte {
		var out []byte
		codec.NewEncoderBytes(&out, mpHandle).MustEncode(v)
		return out
	}
	type m = map[string]interface{}
	for i := 0; i < 60; i++ {
		eid := r.Intn(50)
		var body interface{}
		switch r.Intn(8) {
		case 0:
			body = m{"id": eid, "score": r.Intn(100), "payload": pick(r, []interface{}{m{"a": 1}, []int{1, 2}, 5, true, 1.5})}
		case 1, 2: // bytes that are not JSON
			body = m{"id": eid, "score": r.Intn(100), "payload": pick(r, [][]byte{[]byte("text"), []byte(`{"a":`), {}, {0xff, 0xfe}, []byte(`{} {}`), []byte("\x00"), []byte(" "), []byte(`"a` + "\n" + `"`), []byte("NaN")})}
		case 3:
			body = m{"id": pick(r, []interface{}{-5, 1.5, "7", nil, true, uint64(1) << 63}), "score": pick(r, []interface{}{-5, 1.5, "7", nil, true, 3})}
		case 4:
			body = m{"id": eid, "score": 3, "tie_breaker": pick(r, []interface{}{-1, uint64(1) << 32, "x", nil, 2.5, 7})}
		default:
			body = m{"id": eid, "score": r.Intn(100), "payload": []byte(pick(r, []string{`{"a":1}`, `null`, `[1,2]`, `"s"`}))}
		}
		path := fmt.Sprintf("/lists/%s/elements/%d", id, eid)
		method := "PUT"
		switch r.Intn(4) {
		case 0:
			path, method = "/lists/"+id+"/elements", "POST"
		case 1:
			path, body = "/lists/"+id+"/elements", []interface{}{body}
		case 2:
			path, body = "/xlist/elements", m{"lists": []string{id}, "payload": []interface{}{body}}
		}
		b := enc(body)
		if r.Intn(3) == 0 {
			b = damageMP(r, b)
		}
		x := a.s.raw(method, path, "application/msgpack", pick(r, []string{"application/json", "application/msgpack"}), b)
		if x.code == http.StatusOK {
			c.Count("hostile_accepted", 1)
		} else {
			c.Count("hostile_refused", 1)
		}
		if r.Intn(5) == 0 {
			a.readable(id, fmt.Sprintf("after %s %s with %q was answered %d", method, path, b, x.code))
		}
	}
	a.readable(id, "after hostile bodies")
	a.s.expect(http.StatusNoContent, "DELETE", "/lists/"+id, nil)
}

// readable reads a list in both encodings.
func (a *apiSim) readable(id, when string) {
	x := a.s.raw("GET", "/lists/"+id+"/range?from_top=0&limit=1000", "", "application/json", nil)
	var es []apiElem
	if x.code == http.StatusNotFound {
		var in apiListInfo
		a.s.expect(http.StatusOK, "GET", "/lists/"+id, nil).json(a.c, "list", &in)
		if in.Elements == 0 {
			return
		}
	}
	if x.code != http.StatusOK || json.Unmarshal(x.body, &es) != nil {
		a.c.Failf("%s the list cannot be read as JSON: %d %.300q", when, x.code, x.body)
	}
	for i := range es {
		if i > 0 && (es[i].Score > es[i-1].Score || es[i].FromTop == nil || *es[i].FromTop != i) {
			a.c.Failf("%s the list is out of order at %d", when, i)
		}
	}
	a.sameInBoth("GET", "/lists/"+id+"/range?from_top=0&limit=1000", nil)
	a.c.Count("hostile_lists_read", 1)
}

func runC34(c *C) {
	r := c.Rng
	cfg := randSrvCfg(r, c.TempDir())
	s := startSrv(c, cfg)
	s.mixed = true
	a := newAPISim(c, s)
	a.plain = true
	a.g.idKind = pick(r, []int{0, 1})
	c.Logf("server: %v", cfg)
	for i := 0; i < 80; i++ {
		switch x := r.Intn(12); {
		case x < 3 || len(a.lists) == 0:
			a.lifecycleStep()
		case x < 8:
			a.elementStep(a.anyList())
		case x < 10:
			a.multiStep()
		case len(a.lists) > 0:
			a.both()
		}
		if r.Intn(12) == 0 {
			a.checkAll("after a request")
		}
	}
	a.checkDirectory("at the end of the sequence")
	a.checkAll("at the end of the sequence")
	if len(a.lists) > 0 {
		for i := 0; i < 8; i++ {
			a.both()
		}
	}
	a.hostile()
	a.checkAll("after hostile requests")
	c.Count("requests", a.s.reqs)
	c.Sig(cfg.String(), a.listIDs())
	c.NonTrivial()
	c.Sample("%d lists, %d requests; %v", len(a.lists), a.s.reqs, cfg)
	a.s.finish()
}
