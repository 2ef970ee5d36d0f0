package main

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"sync/atomic"
	"unicode/utf8"
)

// fakeDynamo is a table service the real DynamoDB client talks to. It keeps
// the documented limits of items, tables and keys, and answers reads that do
// not ask for consistency with the value before the last write.
type fakeDynamo struct {
	mu     sync.Mutex
	tables map[string]map[string]dynItem
	broken int32 // number of coming requests to refuse
	calls  map[string]int
	stale  int
	hs     *httptest.Server

	keyName  map[string]string // name of the key attribute by table
	idName   string            // names users have asked for
	blobName string
}

type dynItem struct {
	now, old []byte
	nowOK    bool
	oldOK    bool
	fresh    bool // written since it was last read
}

func newFakeDynamo() *fakeDynamo {
	f := &fakeDynamo{tables: map[string]map[string]dynItem{}, calls: map[string]int{}, keyName: map[string]string{}, idName: "id", blobName: "blob"}
	f.hs = httptest.NewServer(f)
	return f
}

func (f *fakeDynamo) fail(w http.ResponseWriter, code, msg string) {
	w.Header().Set("Content-Type", "application/x-amz-json-1.0")
	w.WriteHeader(400)
	fmt.Fprintf(w, `{"__type":"com.amazonaws.dynamodb.v20120810#%s","message":%q}`, code, msg)
}

func (f *fakeDynamo) ServeHTTP(w http.ResponseWriter, q *http.Request) {
	body, _ := io.ReadAll(q.Body)
	type attr struct {
		S *string
		B *[]byte
	}
	var in struct {
		TableName            string
		Key                  map[string]attr
		Item                 map[string]attr
		ConsistentRead       bool
		AttributeDefinitions []struct{ AttributeName, AttributeType string }
		KeySchema            []struct{ AttributeName, KeyType string }
	}
	if err := json.Unmarshal(body, &in); err != nil {
		f.fail(w, "SerializationException", err.Error())
		return
	}
	op := q.Header.Get("X-Amz-Target")
	op = op[strings.LastIndex(op, ".")+1:]
	f.mu.Lock()
	defer f.mu.Unlock()
	f.calls[op]++
	if atomic.LoadInt32(&f.broken) > 0 {
		atomic.AddInt32(&f.broken, -1)
		f.fail(w, "AccessDeniedException", "not now")
		return
	}
	ok := len(in.TableName) >= 3 && len(in.TableName) <= 255
	for _, r := range in.TableName {
		ok = ok && (r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("_.-", r))
	}
	if !ok {
		f.fail(w, "ValidationException", "table name")
		return
	}
	if op == "CreateTable" {
		names := map[string]bool{}
		for _, d := range in.AttributeDefinitions {
			names[d.AttributeName] = true
		}
		for _, k := range in.KeySchema {
			if !names[k.AttributeName] {
				f.fail(w, "ValidationException", "key attribute is not defined")
				return
			}
		}
		if len(in.AttributeDefinitions) != len(in.KeySchema) {
			f.fail(w, "ValidationException", "One or more parameter values were invalid: Number of attributes in KeySchema does not exactly match number of attributes defined in AttributeDefinitions")
			return
		}
		if f.tables[in.TableName] != nil {
			f.fail(w, "ResourceInUseException", "table exists")
			return
		}
		if len(in.KeySchema) != 1 || in.KeySchema[0].KeyType != "HASH" {
			f.fail(w, "ValidationException", "key schema")
			return
		}
		f.tables[in.TableName] = map[string]dynItem{}
		f.keyName[in.TableName] = in.KeySchema[0].AttributeName
		fmt.Fprintf(w, `{"TableDescription":{"TableName":%q,"TableStatus":"ACTIVE"}}`, in.TableName)
		return
	}
	t := f.tables[in.TableName]
	if t == nil {
		f.fail(w, "ResourceNotFoundException", "Requested resource not found")
		return
	}
	at := in.Key
	if op == "PutItem" {
		at = in.Item
	}
	key := f.keyName[in.TableName]
	if key != f.idName || op != "PutItem" && len(at) != 1 {
		f.fail(w, "ValidationException", "The provided key element does not match the schema")
		return
	}
	id := at[key].S
	if id == nil || *id == "" || len(*id) > 2048 || !utf8.ValidString(*id) {
		f.fail(w, "ValidationException", "key")
		return
	}
	it := t[*id]
	switch op {
	case "GetItem":
		v, has := it.now, it.nowOK
		if it.fresh && !in.ConsistentRead {
			v, has = it.old, it.oldOK
			f.stale++
		}
		it.fresh = false
		t[*id] = it
		if !has {
			fmt.Fprint(w, `{}`)
			return
		}
		b, _ := json.Marshal(map[string]interface{}{"Item": map[string]interface{}{key: map[string]string{"S": *id}, f.blobName: map[string][]byte{"B": v}}})
		w.Write(b)
	case "PutItem":
		blob := at[f.blobName].B
		if blob == nil {
			f.fail(w, "ValidationException", "Supplied AttributeValue is empty, must contain exactly one of the supported datatypes")
			return
		}
		if len(*id)+len(*blob)+len(key)+len(f.blobName) > 400<<10 {
			f.fail(w, "ValidationException", "Item size has exceeded the maximum allowed size")
			return
		}
		t[*id] = dynItem{now: *blob, nowOK: true, old: it.now, oldOK: it.nowOK, fresh: true}
		fmt.Fprint(w, `{}`)
	case "DeleteItem":
		t[*id] = dynItem{old: it.now, oldOK: it.nowOK, fresh: true}
		fmt.Fprint(w, `{}`)
	default:
		f.fail(w, "UnknownOperationException", op)
	}
}

// fakeAero is one node of an Aerospike cluster, for the real client.
type fakeAero struct {
	mu                 sync.Mutex
	recs               map[string]map[string][]byte // bins by digest
	broken             int32
	calls              map[string]int
	n                  uint64
	refusePct, refused int
	l                  net.Listener
	gate               atomic.Value // func(set string) (refuse bool), asked before a write is carried out
}

func newFakeAero() *fakeAero {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	f := &fakeAero{recs: map[string]map[string][]byte{}, calls: map[string]int{}, l: l}
	go func() {
		for {
			conn, err := l.Accept()
			if err != nil {
				return
			}
			go f.serve(conn)
		}
	}()
	return f
}

func (f *fakeAero) reset() {
	f.mu.Lock()
	f.recs = map[string]map[string][]byte{}
	f.mu.Unlock()
}

func (f *fakeAero) serve(conn net.Conn) {
	defer conn.Close()
	for {
		var h [8]byte
		if _, err := io.ReadFull(conn, h[:]); err != nil {
			return
		}
		n := binary.BigEndian.Uint64(h[:]) & (1<<48 - 1)
		if n > 4<<20 {
			return
		}
		body := make([]byte, n)
		if _, err := io.ReadFull(conn, body); err != nil {
			return
		}
		var out []byte
		switch h[1] {
		case 1:
			out = f.info(string(body))
		case 3:
			if out = f.message(body); out == nil {
				return
			}
		default:
			return
		}
		reply := make([]byte, 8, 8+len(out))
		binary.BigEndian.PutUint64(reply, 2<<56|uint64(h[1])<<48|uint64(len(out)))
		if _, err := conn.Write(append(reply, out...)); err != nil {
			return
		}
	}
}

func (f *fakeAero) info(names string) []byte {
	var b bytes.Buffer
	for _, n := range strings.Fields(names) {
		v := ""
		switch n {
		case "build":
			v = "4.5.0"
		case "node":
			v = "BB9020011AC4202"
		case "partition-generation", "peers-generation":
			v = "1"
		case "replicas-all":
			v = "test:1," + base64.StdEncoding.EncodeToString(bytes.Repeat([]byte{255}, 512)) + ";"
		}
		fmt.Fprintf(&b, "%s\t%s\n", n, v)
	}
	return b.Bytes()
}

func (f *fakeAero) message(m []byte) []byte {
	if len(m) < 22 || m[0] != 22 {
		return nil
	}
	fields, ops := int(binary.BigEndian.Uint16(m[18:])), int(binary.BigEndian.Uint16(m[20:]))
	read, write := m[1], m[2]
	p := m[22:]
	next := func() (typ byte, v []byte) {
		if len(p) < 5 {
			return 255, nil
		}
		n := int(binary.BigEndian.Uint32(p))
		if n < 1 || len(p) < 4+n {
			return 255, nil
		}
		typ, v = p[4], p[5:4+n]
		p = p[4+n:]
		return
	}
	digest, set := "", ""
	for i := 0; i < fields; i++ {
		switch t, v := next(); t {
		case 0:
			if string(v) != "test" {
				return f.reply(20, nil)
			}
		case 1:
			set = string(v)
		case 4:
			digest = string(v)
		case 255:
			return nil
		}
	}
	if g, _ := f.gate.Load().(func(string) bool); g != nil && write&3 != 0 && g(set) {
		return f.reply(18, nil)
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	if atomic.LoadInt32(&f.broken) > 0 {
		atomic.AddInt32(&f.broken, -1)
		return f.reply(18, nil)
	}
	f.n += 0x9E3779B97F4A7C15
	if int((f.n>>33)%100) < f.refusePct {
		f.refused++
		return f.reply(18, nil)
	}
	rec := f.recs[digest]
	switch {
	case write&2 != 0:
		f.calls["delete"]++
		if rec == nil {
			return f.reply(2, nil)
		}
		delete(f.recs, digest)
		return f.reply(0, nil)
	case write&1 != 0:
		f.calls["put"]++
		bins := map[string][]byte{}
		for k, v := range rec {
			bins[k] = v
		}
		size := 0
		for i := 0; i < ops; i++ {
			op, v := next()
			if op != 2 || len(v) < 3 || len(v) < 3+int(v[2]) || v[2] > 14 || v[0] != 4 {
				return f.reply(4, nil)
			}
			val := v[3+int(v[2]):]
			size += len(val)
			bins[string(v[3:3+int(v[2])])] = append([]byte{}, val...)
		}
		if size > 1<<20 {
			return f.reply(13, nil) // record too big
		}
		f.recs[digest] = bins
		return f.reply(0, nil)
	case read&1 != 0:
		f.calls["get"]++
		if rec == nil {
			return f.reply(2, nil)
		}
		return f.reply(0, rec)
	}
	return f.reply(4, nil)
}

func (f *fakeAero) reply(code byte, bins map[string][]byte) []byte {
	out := make([]byte, 22)
	out[0], out[5] = 22, code
	binary.BigEndian.PutUint32(out[6:], 1)
	binary.BigEndian.PutUint16(out[20:], uint16(len(bins)))
	for k, v := range bins {
		var h [8]byte
		binary.BigEndian.PutUint32(h[:], uint32(4+len(k)+len(v)))
		h[4], h[5], h[7] = 1, 4, byte(len(k))
		out = append(out, h[:]...)
		out = append(out, k...)
		out = append(out, v...)
	}
	return out
}
