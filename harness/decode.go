package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"sort"

	"github.com/Vivino/rankdb"
)

// A small msgpack reader, independent of the code under test, used to judge
// what is really in storage.

var errTrunc = errors.New("truncated msgpack")

func mpDecode(b []byte) (v interface{}, rest []byte, err error) {
	if len(b) == 0 {
		return nil, nil, errTrunc
	}
	c := b[0]
	b = b[1:]
	need := func(n int) bool { return len(b) >= n }
	arr := func(n int) (interface{}, []byte, error) {
		out := make([]interface{}, 0, min(n, 4096))
		for i := 0; i < n; i++ {
			var x interface{}
			if x, b, err = mpDecode(b); err != nil {
				return nil, nil, err
			}
			out = append(out, x)
		}
		return out, b, nil
	}
	mp := func(n int) (interface{}, []byte, error) {
		out := map[string]interface{}{}
		for i := 0; i < n; i++ {
			var k, x interface{}
			if k, b, err = mpDecode(b); err != nil {
				return nil, nil, err
			}
			if x, b, err = mpDecode(b); err != nil {
				return nil, nil, err
			}
			out[fmt.Sprint(k)] = x
		}
		return out, b, nil
	}
	str := func(n int) (interface{}, []byte, error) {
		if !need(n) {
			return nil, nil, errTrunc
		}
		return string(b[:n]), b[n:], nil
	}
	bin := func(n int) (interface{}, []byte, error) {
		if !need(n) {
			return nil, nil, errTrunc
		}
		return append([]byte{}, b[:n]...), b[n:], nil
	}
	u := func(n int) (uint64, bool) {
		if !need(n) {
			return 0, false
		}
		var x uint64
		for i := 0; i < n; i++ {
			x = x<<8 | uint64(b[i])
		}
		b = b[n:]
		return x, true
	}
	switch {
	case c < 0x80:
		return uint64(c), b, nil
	case c < 0x90:
		return mp(int(c & 0xf))
	case c < 0xa0:
		return arr(int(c & 0xf))
	case c < 0xc0:
		return str(int(c & 0x1f))
	case c >= 0xe0:
		return int64(int8(c)), b, nil
	}
	switch c {
	case 0xc0:
		return nil, b, nil
	case 0xc2:
		return false, b, nil
	case 0xc3:
		return true, b, nil
	case 0xc4, 0xc5, 0xc6:
		n, ok := u(1 << (c - 0xc4))
		if !ok {
			return nil, nil, errTrunc
		}
		return bin(int(n))
	case 0xca:
		n, ok := u(4)
		if !ok {
			return nil, nil, errTrunc
		}
		return float64(math.Float32frombits(uint32(n))), b, nil
	case 0xcb:
		n, ok := u(8)
		if !ok {
			return nil, nil, errTrunc
		}
		return math.Float64frombits(n), b, nil
	case 0xcc, 0xcd, 0xce, 0xcf:
		n, ok := u(1 << (c - 0xcc))
		if !ok {
			return nil, nil, errTrunc
		}
		return n, b, nil
	case 0xd0, 0xd1, 0xd2, 0xd3:
		sz := 1 << (c - 0xd0)
		n, ok := u(sz)
		if !ok {
			return nil, nil, errTrunc
		}
		sh := uint(64 - 8*sz)
		return int64(n<<sh) >> sh, b, nil
	case 0xd9, 0xda, 0xdb:
		n, ok := u(1 << (c - 0xd9))
		if !ok {
			return nil, nil, errTrunc
		}
		return str(int(n))
	case 0xdc, 0xdd:
		n, ok := u(2 << (c - 0xdc))
		if !ok {
			return nil, nil, errTrunc
		}
		return arr(int(n))
	case 0xde, 0xdf:
		n, ok := u(2 << (c - 0xde))
		if !ok {
			return nil, nil, errTrunc
		}
		return mp(int(n))
	}
	return nil, nil, fmt.Errorf("unexpected msgpack byte %x", c)
}

func mpUint(v interface{}) (uint64, error) {
	switch x := v.(type) {
	case uint64:
		return x, nil
	case int64:
		if x >= 0 {
			return uint64(x), nil
		}
	}
	return 0, fmt.Errorf("not an unsigned integer: %T %v", v, v)
}

func mpEncUint(b []byte, v uint64) []byte {
	switch {
	case v < 0x80:
		return append(b, byte(v))
	case v <= 0xff:
		return append(b, 0xcc, byte(v))
	case v <= 0xffff:
		return binary.BigEndian.AppendUint16(append(b, 0xcd), uint16(v))
	case v <= 0xffffffff:
		return binary.BigEndian.AppendUint32(append(b, 0xce), uint32(v))
	}
	return binary.BigEndian.AppendUint64(append(b, 0xcf), v)
}

// storedSeg is a segment as found in storage.
type storedSeg struct {
	ID             uint32
	Min, Max       uint64
	MinTie, MaxTie uint32
	N              int
	Updated        int64
	Parent         string
	Elems          []Elem
	Key            string
}

type storedSegs struct {
	ID      string
	IsIndex bool
	NextID  uint64
	Segs    []storedSeg
}

func mpElem(v interface{}) (Elem, error) {
	a, ok := v.([]interface{})
	if !ok || len(a) != 5 {
		return Elem{}, fmt.Errorf("element is not a 5-tuple: %v", v)
	}
	var e Elem
	s, err := mpUint(a[0])
	if err != nil {
		return e, err
	}
	id, err := mpUint(a[1])
	if err != nil {
		return e, err
	}
	t, err := mpUint(a[3])
	if err != nil {
		return e, err
	}
	u, err := mpUint(a[4])
	if err != nil {
		return e, err
	}
	e = Elem{Score: s, ID: EID(id), TieBreaker: uint32(t), Updated: uint32(u)}
	if p, ok := a[2].([]byte); ok {
		e.Payload = p
	}
	return e, nil
}

func mpElems(b []byte) ([]Elem, error) {
	_, b, err := mpDecode(b) // version
	if err != nil {
		return nil, err
	}
	v, rest, err := mpDecode(b)
	if err != nil {
		return nil, err
	}
	if len(rest) != 0 {
		return nil, fmt.Errorf("%d trailing bytes", len(rest))
	}
	a, ok := v.([]interface{})
	if !ok {
		return nil, fmt.Errorf("elements blob holds %T", v)
	}
	var out []Elem
	for _, x := range a {
		e, err := mpElem(x)
		if err != nil {
			return nil, err
		}
		out = append(out, e)
	}
	return out, nil
}

// readSegs decodes a segments blob and, if elems, all element blobs it refers to.
func readSegs(s *spy, set, id string, elems bool) (*storedSegs, error) {
	b, ok := s.raw(set, id)
	if !ok {
		return nil, fmt.Errorf("segments blob %q missing", id)
	}
	_, b, err := mpDecode(b)
	if err != nil {
		return nil, err
	}
	v, rest, err := mpDecode(b)
	if err != nil {
		return nil, err
	}
	if len(rest) != 0 {
		return nil, fmt.Errorf("segments blob %q: %d trailing bytes", id, len(rest))
	}
	m, ok := v.(map[string]interface{})
	if !ok {
		return nil, fmt.Errorf("segments blob holds %T", v)
	}
	out := &storedSegs{}
	out.ID, _ = m["ID"].(string)
	out.IsIndex, _ = m["IsIndex"].(bool)
	if out.NextID, err = mpUint(m["NextID"]); err != nil {
		return nil, err
	}
	l, _ := m["Segments"].([]interface{})
	for _, x := range l {
		a, ok := x.([]interface{})
		if !ok || len(a) != 8 {
			return nil, fmt.Errorf("segment is not an 8-tuple")
		}
		var u [6]uint64
		for i := range u {
			if u[i], err = mpUint(a[i]); err != nil {
				return nil, err
			}
		}
		sg := storedSeg{ID: uint32(u[0]), Min: u[1], Max: u[2], MinTie: uint32(u[3]), MaxTie: uint32(u[4]), N: int(u[5])}
		sg.Parent, _ = a[7].(string)
		if up, err := mpUint(a[6]); err == nil {
			sg.Updated = int64(up)
		}
		sg.Key = fmt.Sprintf("%s-%06d", sg.Parent, sg.ID)
		if elems {
			eb, ok := s.raw(set, sg.Key)
			if !ok {
				return nil, fmt.Errorf("segment %d: element blob %q missing", sg.ID, sg.Key)
			}
			if sg.Elems, err = mpElems(eb); err != nil {
				return nil, fmt.Errorf("segment %d: %v", sg.ID, err)
			}
		}
		out.Segs = append(out.Segs, sg)
	}
	return out, nil
}

func prevPos(s uint64, t uint32) (uint64, uint32) {
	if t > 0 {
		return s, t - 1
	}
	if s == 0 {
		return 0, 0
	}
	return s - 1, math.MaxUint32
}

// invariants checks the structure of one stored segment collection.
func (ss *storedSegs) invariants(index bool) error {
	if ss.IsIndex != index {
		return fmt.Errorf("IsIndex is %v", ss.IsIndex)
	}
	if len(ss.Segs) == 0 {
		return errors.New("no segments")
	}
	seen := map[uint32]bool{}
	for i, sg := range ss.Segs {
		p := fmt.Sprintf("segment #%d id %d", i, sg.ID)
		if seen[sg.ID] {
			return fmt.Errorf("%s: duplicate id", p)
		}
		seen[sg.ID] = true
		if sg.Parent != ss.ID {
			return fmt.Errorf("%s: parent %q, want %q", p, sg.Parent, ss.ID)
		}
		if uint64(sg.ID) >= ss.NextID {
			return fmt.Errorf("%s: id not below NextID %d", p, ss.NextID)
		}
		if i == 0 {
			if sg.Max != math.MaxUint64 || sg.MaxTie != math.MaxUint32 {
				return fmt.Errorf("%s: first segment starts at %d/%d", p, sg.Max, sg.MaxTie)
			}
		} else {
			ws, wt := prevPos(ss.Segs[i-1].Min, ss.Segs[i-1].MinTie)
			if sg.Max != ws || sg.MaxTie != wt {
				return fmt.Errorf("%s: starts at %d/%d, previous ends at %d/%d", p, sg.Max, sg.MaxTie, ss.Segs[i-1].Min, ss.Segs[i-1].MinTie)
			}
		}
		if i == len(ss.Segs)-1 && (sg.Min != 0 || sg.MinTie != 0) {
			return fmt.Errorf("%s: last segment ends at %d/%d", p, sg.Min, sg.MinTie)
		}
		if sg.N != len(sg.Elems) {
			return fmt.Errorf("%s: count %d but %d elements stored", p, sg.N, len(sg.Elems))
		}
		for j, e := range sg.Elems {
			if j > 0 && !refAbove(sg.Elems[j-1], e) {
				return fmt.Errorf("%s: element %d not sorted: %s then %s", p, j, es(sg.Elems[j-1]), es(e))
			}
			hi := e.Score > sg.Max || (e.Score == sg.Max && e.TieBreaker > sg.MaxTie)
			lo := e.Score < sg.Min || (e.Score == sg.Min && e.TieBreaker < sg.MinTie)
			if hi || lo {
				return fmt.Errorf("%s: element %s outside %d/%d..%d/%d", p, es(e), sg.Max, sg.MaxTie, sg.Min, sg.MinTie)
			}
		}
	}
	return nil
}

// listRefs returns the IDs of the segment collections of a list.
func listRefs(l *rankdb.List) (scores, index string) {
	l.RLock()
	defer l.RUnlock()
	return string(l.Scores), string(l.Index)
}

// readStored decodes everything a list refers to in storage, checks the
// structural invariants and returns elements and the reachable keys.
func readStored(s *spy, set, scores, index string) (elems []Elem, keys []string, err error) {
	sc, err := readSegs(s, set, scores, true)
	if err != nil {
		return nil, nil, fmt.Errorf("scores: %v", err)
	}
	ix, err := readSegs(s, set, index, true)
	if err != nil {
		return nil, nil, fmt.Errorf("index: %v", err)
	}
	if sc.ID != scores {
		return nil, nil, fmt.Errorf("scores blob %q has ID %q", scores, sc.ID)
	}
	if ix.ID != index {
		return nil, nil, fmt.Errorf("index blob %q has ID %q", index, ix.ID)
	}
	keys = append(keys, scores, index)
	for _, sg := range append(append([]storedSeg{}, sc.Segs...), ix.Segs...) {
		keys = append(keys, sg.Key)
	}
	sort.Strings(keys)
	if err := sc.invariants(false); err != nil {
		return nil, keys, fmt.Errorf("scores: %v", err)
	}
	if err := ix.invariants(true); err != nil {
		return nil, keys, fmt.Errorf("index: %v", err)
	}
	where := map[EID]uint32{}
	for _, sg := range sc.Segs {
		for _, e := range sg.Elems {
			if o, dup := where[e.ID]; dup {
				return nil, keys, fmt.Errorf("element %d in segments %d and %d", e.ID, o, sg.ID)
			}
			where[e.ID] = sg.ID
			elems = append(elems, e)
		}
	}
	n := 0
	for _, sg := range ix.Segs {
		for _, e := range sg.Elems {
			n++
			if uint64(e.ID) != e.Score {
				return nil, keys, fmt.Errorf("index entry %s does not sort by its id", es(e))
			}
			w, ok := where[e.ID]
			if !ok {
				return nil, keys, fmt.Errorf("index entry for missing element %d", e.ID)
			}
			if w != e.TieBreaker {
				return nil, keys, fmt.Errorf("element %d indexed to segment %d, is in %d", e.ID, e.TieBreaker, w)
			}
		}
	}
	if n != len(where) {
		return nil, keys, fmt.Errorf("%d index entries for %d elements", n, len(where))
	}
	return elems, keys, nil
}
