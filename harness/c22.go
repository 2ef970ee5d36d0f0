package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os/exec"
	"reflect"
	"strings"

	"github.com/Vivino/rankdb"
	"github.com/klauspost/compress/zstd"
	"github.com/tinylib/msgp/msgp"
)

func init() {
	register(&Check{ID: "C22", Quick: 400, Thorough: 6000, Run: runC22,
		Rule:   "one case = generated values of every serializable type encoded and decoded through both interfaces, then every truncation and several hundred mutations of the encodings decoded",
		Assume: []string{"arbitrary bytes claiming 32-bit array, map or blob lengths are explored by one isolated memory-limited process only"}})
	subs["decodehuge"] = subDecodeHuge
}

type msgpType interface {
	msgp.Decodable
	msgp.Encodable
	msgp.Marshaler
	msgp.Unmarshaler
	msgp.Sizer
}

func randStr(r *rand.Rand) string {
	switch r.Intn(4) {
	case 0:
		return ""
	case 1:
		return strings.Repeat("x", r.Intn(300))
	case 2:
		b := make([]byte, r.Intn(40))
		r.Read(b)
		return string(b)
	}
	return fmt.Sprintf("id-%d", r.Intn(1000))
}

func rInt(r *rand.Rand) int {
	return pick(r, []int{0, 1, 127, 128, 255, 256, 65535, 65536, math.MaxInt32, math.MaxInt64, -1, -32, -33, -129, math.MinInt64, r.Int()})
}
func rU32(r *rand.Rand) uint32 {
	return pick(r, []uint32{0, 1, 127, 128, 255, 256, 65535, 65536, math.MaxUint32, r.Uint32()})
}
func rU64(r *rand.Rand) uint64 {
	return pick(r, []uint64{0, 1, 127, 128, 255, 256, 65535, 65536, math.MaxUint32, 1 << 32, 1 << 63, math.MaxUint64, r.Uint64()})
}

func randElement(r *rand.Rand) Elem {
	e := Elem{Score: rU64(r), ID: EID(rU64(r)), TieBreaker: rU32(r), Updated: rU32(r)}
	if r.Intn(3) > 0 {
		e.Payload = make([]byte, pick(r, []int{0, 1, 31, 255, 256, 1000, 65536}))
		r.Read(e.Payload)
	}
	return e
}

func randSegment(r *rand.Rand) rankdb.Segment {
	return rankdb.Segment{ID: rankdb.SegmentID(rU32(r)), Min: rU64(r), Max: rU64(r), MinTie: rU32(r), MaxTie: rU32(r), N: rInt(r), Updated: int64(rInt(r)), Parent: rankdb.SegmentsID(randStr(r))}
}

func randElements(r *rand.Rand) Elems {
	e := make(Elems, pick(r, []int{0, 1, 2, 15, 16, 30}))
	for i := range e {
		e[i] = randElement(r)
		if len(e[i].Payload) > 300 {
			e[i].Payload = e[i].Payload[:20]
		}
	}
	return e
}

// values generates one value per type, with a constructor for an empty one.
func msgpValues(r *rand.Rand) map[string][2]func() msgpType {
	el := randElement(r)
	els := randElements(r)
	eid := rankdb.ElementID(rU64(r))
	eids := rankdb.ElementIDs{}
	for i := r.Intn(20); i > 0; i-- {
		eids = append(eids, rankdb.ElementID(rU64(r)))
	}
	lid := rankdb.ListID(randStr(r))
	lids := rankdb.ListIDs{}
	for i := r.Intn(20); i > 0; i-- {
		lids = append(lids, rankdb.ListID(randStr(r)))
	}
	seg := randSegment(r)
	segid := rankdb.SegmentID(rU32(r))
	segsid := rankdb.SegmentsID(randStr(r))
	ss := &rankdb.Segments{ID: rankdb.SegmentsID(randStr(r)), NextID: rankdb.SegmentID(rU32(r)), IsIndex: r.Intn(2) == 0, Segments: []rankdb.Segment{}}
	for i := r.Intn(20); i > 0; i-- {
		ss.Segments = append(ss.Segments, randSegment(r))
	}
	l := &rankdb.List{ID: lid, Set: randStr(r), SplitSize: rInt(r), MergeSize: rInt(r), LoadIndex: r.Intn(2) == 0, Scores: rankdb.SegmentsID(randStr(r)), Index: rankdb.SegmentsID(randStr(r)), Metadata: map[string]string{}}
	for i := r.Intn(20); i > 0; i-- {
		l.Metadata[randStr(r)] = randStr(r)
	}
	re := func() *rankdb.RankedElement {
		if r.Intn(3) == 0 {
			return nil
		}
		// Statistics serialize the element only; ranks are not stored data.
		return &rankdb.RankedElement{Element: randElement(r)}
	}
	st := &rankdb.ListStats{Elements: rInt(r), Segments: rInt(r), CacheHits: rU64(r), CacheMisses: rU64(r), CachePct: r.Float64(), Top: re(), Bottom: re()}
	f := func(v, z func() msgpType) [2]func() msgpType { return [2]func() msgpType{v, z} }
	return map[string][2]func() msgpType{
		"Element":       f(func() msgpType { return &el }, func() msgpType { return new(rankdb.Element) }),
		"Elements":      f(func() msgpType { return &els }, func() msgpType { return new(rankdb.Elements) }),
		"IndexElement":  f(func() msgpType { return &rankdb.IndexElement{Element: el} }, func() msgpType { return new(rankdb.IndexElement) }),
		"IndexElements": f(func() msgpType { return &rankdb.IndexElements{Elements: els} }, func() msgpType { return new(rankdb.IndexElements) }),
		"ElementID":     f(func() msgpType { return &eid }, func() msgpType { return new(rankdb.ElementID) }),
		"ElementIDs":    f(func() msgpType { return &eids }, func() msgpType { return new(rankdb.ElementIDs) }),
		"ListID":        f(func() msgpType { return &lid }, func() msgpType { return new(rankdb.ListID) }),
		"ListIDs":       f(func() msgpType { return &lids }, func() msgpType { return new(rankdb.ListIDs) }),
		"Segment":       f(func() msgpType { return &seg }, func() msgpType { return new(rankdb.Segment) }),
		"SegmentID":     f(func() msgpType { return &segid }, func() msgpType { return new(rankdb.SegmentID) }),
		"SegmentsID":    f(func() msgpType { return &segsid }, func() msgpType { return new(rankdb.SegmentsID) }),
		"Segments":      f(func() msgpType { return ss }, func() msgpType { return new(rankdb.Segments) }),
		"List":          f(func() msgpType { return l }, func() msgpType { return new(rankdb.List) }),
		"ListStats":     f(func() msgpType { return st }, func() msgpType { return new(rankdb.ListStats) }),
	}
}

var msgpNames = []string{"Element", "Elements", "IndexElement", "IndexElements", "ElementID", "ElementIDs", "ListID", "ListIDs", "Segment", "SegmentID", "SegmentsID", "Segments", "List", "ListStats"}

// canon renders the exported serialized fields of a value, treating nil and
// empty slices and maps alike.
func canon(v interface{}) string {
	switch x := v.(type) {
	case *rankdb.List:
		return fmt.Sprintf("%q %q %v %d %d %v %q %q", x.ID, x.Set, canonMap(x.Metadata), x.SplitSize, x.MergeSize, x.LoadIndex, x.Scores, x.Index)
	case *rankdb.Segments:
		s := fmt.Sprintf("%q %d %v", x.ID, x.NextID, x.IsIndex)
		for i := range x.Segments {
			s += canon(&x.Segments[i])
		}
		return s
	case *rankdb.Segment:
		return fmt.Sprintf("[%d %d %d %d %d %d %d %q]", x.ID, x.Min, x.Max, x.MinTie, x.MaxTie, x.N, x.Updated, x.Parent)
	case *rankdb.Element:
		return canonE(*x)
	case *rankdb.Elements:
		s := ""
		for _, e := range *x {
			s += canonE(e)
		}
		return s
	case *rankdb.IndexElement:
		return canonE(x.Element)
	case *rankdb.IndexElements:
		return canon(&x.Elements)
	case *rankdb.ListStats:
		return fmt.Sprintf("%d %d %d %d %v top %s bottom %s", x.Elements, x.Segments, x.CacheHits, x.CacheMisses, x.CachePct, canonR(x.Top), canonR(x.Bottom))
	case *rankdb.ListIDs:
		return fmt.Sprintf("%q", []rankdb.ListID(*x))
	case *rankdb.ElementIDs:
		return fmt.Sprintf("%d", []rankdb.ElementID(*x))
	}
	return fmt.Sprintf("%#v", reflect.ValueOf(v).Elem().Interface())
}

func canonMap(m map[string]string) string { return fmt.Sprintf("%q", m) }
func canonE(e Elem) string {
	return fmt.Sprintf("{%d %d %d %d %x}", e.Score, e.ID, e.TieBreaker, e.Updated, e.Payload)
}
func canonR(r *rankdb.RankedElement) string {
	if r == nil {
		return "nil"
	}
	return canonE(r.Element)
}

func tame(b []byte) []byte {
	// 32-bit lengths are explored separately.
	for i, x := range b {
		switch x {
		case 0xdd, 0xdf, 0xc6, 0xdb, 0xc9:
			b[i] = x - 1
		}
	}
	return b
}

func runC22(c *C) {
	r := c.Rng
	if c.Idx == 0 {
		hugeHeaders(c)
		return
	}
	vals := msgpValues(r)
	encs := map[string][]byte{}
	for _, name := range msgpNames {
		v, zero := vals[name][0](), vals[name][1]
		want := canon(v)
		enc, err := v.MarshalMsg(nil)
		if err != nil {
			c.Failf("%s: MarshalMsg: %v", name, err)
		}
		if canon(v) != want {
			c.Failf("%s: encoding changed the value", name)
		}
		if len(enc) > v.Msgsize() {
			c.Failf("%s: encoding of %d bytes is larger than announced %d", name, len(enc), v.Msgsize())
		}
		var buf bytes.Buffer
		if err := msgp.Encode(&buf, v); err != nil {
			c.Failf("%s: EncodeMsg: %v", name, err)
		}
		if name != "List" && !bytes.Equal(buf.Bytes(), enc) { // map order may differ
			c.Failf("%s: EncodeMsg and MarshalMsg differ: %x %x", name, trunc(buf.Bytes()), trunc(enc))
		}
		pre := []byte("prefix")
		app, err := v.MarshalMsg(append([]byte{}, pre...))
		if err != nil || !bytes.HasPrefix(app, pre) || len(app) != len(pre)+len(enc) {
			c.Failf("%s: MarshalMsg does not append: %v", name, err)
		}
		tail := make([]byte, 1+r.Intn(9))
		r.Read(tail)
		for _, e := range [][]byte{enc, buf.Bytes()} {
			in := append(append([]byte{}, e...), tail...)
			d := zero()
			rest, err := d.UnmarshalMsg(in)
			if err != nil {
				c.Failf("%s: UnmarshalMsg of own encoding: %v (value %s)", name, err, want)
			}
			if !bytes.Equal(rest, tail) {
				c.Failf("%s: UnmarshalMsg left %d bytes, want %d", name, len(rest), len(tail))
			}
			for i := range in {
				in[i] ^= 0x55
			}
			if canon(d) != want {
				c.Failf("%s: UnmarshalMsg returned %s, want %s (also after the input buffer was reused)", name, canon(d), want)
			}
			d = zero()
			rd := msgp.NewReader(bytes.NewReader(append(append([]byte{}, e...), tail...)))
			if err := d.DecodeMsg(rd); err != nil {
				c.Failf("%s: DecodeMsg of own encoding: %v", name, err)
			}
			if canon(d) != want {
				c.Failf("%s: DecodeMsg returned %s, want %s", name, canon(d), want)
			}
			rest = make([]byte, len(tail))
			if _, err := rd.ReadFull(rest); err != nil || !bytes.Equal(rest, tail) {
				c.Failf("%s: DecodeMsg did not consume exactly its encoding: %v", name, err)
			}
		}
		encs[name] = enc
		c.Count("roundtrips", 2)
	}
	// Truncations: never accepted, never crash.
	for _, name := range msgpNames {
		enc := encs[name]
		zero := vals[name][1]
		step := 1
		if len(enc) > 400 {
			step = len(enc)/400 + 1
		}
		for n := 0; n < len(enc); n += step {
			cut := append([]byte{}, enc[:n]...)
			if _, err := zero().UnmarshalMsg(cut); err == nil {
				c.Failf("%s: UnmarshalMsg accepted the first %d of %d bytes", name, n, len(enc))
			}
			if err := zero().DecodeMsg(msgp.NewReader(bytes.NewReader(cut))); err == nil {
				c.Failf("%s: DecodeMsg accepted the first %d of %d bytes", name, n, len(enc))
			}
			c.Count("truncations_rejected", 2)
		}
		// Mutations and random bytes: error or a value, no crash, no effect elsewhere.
		other := vals[name][0]()
		before := canon(other)
		for k := 0; k < 40; k++ {
			var b []byte
			if r.Intn(3) == 0 {
				b = make([]byte, r.Intn(64))
				r.Read(b)
			} else {
				src := encs[name]
				if r.Intn(5) == 0 {
					src = encs[pick(r, msgpNames)]
				}
				b = append([]byte{}, src...)
				for m := 1 + r.Intn(4); m > 0 && len(b) > 0; m-- {
					switch r.Intn(3) {
					case 0:
						b[r.Intn(len(b))] = byte(r.Intn(256))
					case 1:
						b[r.Intn(len(b))] ^= 1 << r.Intn(8)
					case 2:
						i := r.Intn(len(b))
						b = append(b[:i:i], b[i+r.Intn(len(b)-i):]...)
					}
				}
			}
			b = tame(b)
			ro := append([]byte{}, b...)
			d := zero()
			_, err := d.UnmarshalMsg(b)
			if err != nil {
				c.Count("mutations_rejected", 1)
			} else {
				c.Count("mutations_accepted", 1)
				// what was accepted must itself round-trip
				w := canon(d)
				e2, err := d.MarshalMsg(nil)
				if err != nil {
					c.Failf("%s: re-encoding an accepted value: %v", name, err)
				}
				d2 := zero()
				if _, err := d2.UnmarshalMsg(e2); err != nil || canon(d2) != w {
					c.Failf("%s: accepted value does not round-trip: %v", name, err)
				}
			}
			if !bytes.Equal(ro, b) {
				c.Failf("%s: UnmarshalMsg modified its input", name)
			}
			d3 := zero()
			err3 := d3.DecodeMsg(msgp.NewReader(bytes.NewReader(b)))
			if (err == nil) != (err3 == nil) {
				c.Count("interfaces_disagree_on_garbage", 1)
			}
			c.Tick()
		}
		if canon(other) != before {
			c.Failf("%s: decoding garbage disturbed another value", name)
		}
	}
	poolCheck(c)
	if c.Idx%2 == 1 {
		versionCheck(c)
	}
	c.NonTrivial()
	c.Sig(c.Idx)
	c.Sample("14 types, list encoding %d bytes", len(encs["List"]))
}

// poolCheck exercises the pooled writer and version helpers.
func poolCheck(c *C) {
	r := c.Rng
	for i := 0; i < 20; i++ {
		w := rankdb.NewWriterMsg()
		v := uint8(r.Intn(120) + 1)
		if err := w.SetVersion(v); err != nil {
			c.Failf("SetVersion(%d): %v", v, err)
		}
		e := randElements(r)
		if err := e.EncodeMsg(w.Writer()); err != nil {
			c.Failf("EncodeMsg: %v", err)
		}
		b := append([]byte{}, w.Buffer().Bytes()...)
		w.Close()
		rest, gv := rankdb.MsgpGetVersion(b)
		if gv != v {
			c.Failf("version %d read back as %d", v, gv)
		}
		var d Elems
		left, err := d.UnmarshalMsg(rest)
		if err != nil || len(left) != 0 || canon(&d) != canon(&e) {
			c.Failf("pooled encoding does not round-trip: %v, %d left", err, len(left))
		}
		rd := rankdb.NewReaderMsgp(b)
		if gv := rd.GetVersion(); gv != v {
			c.Failf("reader version %d read back as %d", v, gv)
		}
		var d2 Elems
		if err := d2.DecodeMsg(rd.Reader()); err != nil || canon(&d2) != canon(&e) {
			c.Failf("pooled reader does not round-trip: %v", err)
		}
		rd.Close()
	}
	w := rankdb.NewWriterMsg()
	if err := w.SetVersion(255); err == nil {
		c.Failf("the error version was accepted for writing")
	}
	w.Close()
	if _, v := rankdb.MsgpGetVersion(nil); v != 255 {
		c.Failf("version of no bytes is %d", v)
	}
}

// versionCheck replaces the format version of everything a list stores, and of
// its backup stream and directory, and expects each to be refused.
func versionCheck(c *C) {
	s := newSim(c)
	s.create(1 + c.Rng.Intn(60))
	sc, ix := listRefs(s.l)
	all := s.mod.list()
	versions := func(cur byte) []byte {
		out := []byte{0, 1, 2, 3, cur + 1, cur - 1, byte(c.Rng.Intn(128)), 0xc0, 0xff}
		n := 0
		for _, v := range out {
			if v != cur {
				out[n] = v
				n++
			}
		}
		return out[:n]
	}
	s.must(s.mgr.SaveLists(s.ctx, false), "SaveLists")
	// Blobs.
	for _, layout := range []string{sc, ix} {
		ss, err := readSegs(s.spy, s.set, layout, true)
		s.must(err, "stored segments")
		keys := []string{layout}
		for _, sg := range ss.Segs {
			keys = append(keys, sg.Key)
		}
		if len(keys) > 6 {
			keys = append(keys[:3:3], keys[len(keys)-3:]...)
		}
		for _, k := range keys {
			b, _ := s.spy.raw(s.set, k)
			for _, v := range versions(b[0]) {
				f := s.fork(false)
				f.spy.put(s.set, k, append([]byte{v}, b[1:]...))
				l := f.freshView()
				if layout == sc {
					if got, err := l.GetRankTop(s.ctx, f.bs, 0, len(all)+1); err == nil {
						c.Failf("blob %s with version %d instead of %d was read: %d elements", k, v, b[0], len(got))
					}
					c.Count("wrong_versions_rejected", 1)
				}
				got, err := l.GetElements(s.ctx, f.bs, ids(all), 0)
				if err == nil && layout == sc && k == sc {
					c.Failf("layout %s with version %d instead of %d was read: %d elements", k, v, b[0], len(got))
				}
				if err == nil && len(got) != len(all) {
					c.Failf("blob %s with version %d instead of %d: lookup of %d elements returned %d and no error", k, v, b[0], len(all), len(got))
				}
				if err == nil && k != ix {
					// (a missing or unreadable index layout may be rebuilt)
					c.Failf("blob %s with version %d instead of %d was read by a lookup of all elements", k, v, b[0])
				}
				c.Count("wrong_versions_looked_up", 1)
			}
		}
	}
	// Backup stream: version, list, version, segments, version, count, elements.
	w := rankdb.NewWriterMsg()
	s.must(s.l.Backup(s.ctx, s.bs, w), "Backup")
	b := append([]byte{}, w.Buffer().Bytes()...)
	w.Close()
	pos := []int{0}
	for i := 0; i < 2; i++ {
		rest, err := msgp.Skip(b[pos[i]+1:])
		s.must(err, "backup stream")
		pos = append(pos, len(b)-len(rest))
	}
	for _, p := range pos {
		for _, v := range versions(b[p]) {
			mod := append([]byte{}, b...)
			mod[p] = v
			var nid *rankdb.ListID
			if c.Rng.Intn(2) == 0 {
				id := rankdb.ListID("restored")
				nid = &id
			}
			if _, err := rankdb.RestoreList(s.ctx, newSpy(), rankdb.NewReaderMsgp(mod), nil, nid); err == nil {
				c.Failf("backup stream with version %d instead of %d at byte %d was restored", v, b[p], p)
			}
			c.Count("wrong_versions_rejected", 1)
		}
	}
	// Directory.
	var dir bytes.Buffer
	s.must(s.mgr.Lists.Save(s.ctx, &dir), "Lists.Save")
	zr, err := zstd.NewReader(bytes.NewReader(dir.Bytes()[1:]))
	s.must(err, "directory compression")
	plain, err := io.ReadAll(zr)
	zr.Close()
	s.must(err, "directory compression")
	for _, v := range versions(plain[0]) {
		var out bytes.Buffer
		out.WriteByte(dir.Bytes()[0])
		zw, _ := zstd.NewWriter(&out)
		zw.Write(append([]byte{v}, plain[1:]...))
		zw.Close()
		m := newMgr(c, s.bs, nil)
		if err := m.Lists.Load(s.ctx, s.bs, out.Bytes()); err == nil {
			c.Failf("directory with version %d instead of %d was loaded", v, plain[0])
		}
		c.Count("wrong_versions_rejected", 1)
	}
}

// hugeHeaders decodes headers announcing 2^32-1 entries in a memory-limited process.
func hugeHeaders(c *C) {
	for _, name := range []string{"Elements", "Segments", "List"} {
		cmd := exec.Command("/bin/bash", "-c", `ulimit -v 12000000; exec "$0" sub decodehuge `+name, selfExe())
		out, err := cmd.CombinedOutput()
		c.Count("huge_headers_tried", 1)
		c.Tick()
		if err != nil {
			if crashKind(string(out)) == "violation" || strings.Contains(string(out), "out of memory") {
				c.Known("huge-header-"+name, "a few bytes announcing 2^32-1 entries make decoding "+name+" allocate for all of them and crash: "+strings.SplitN(string(out), "\n", 2)[0])
			} else {
				panic(fmt.Sprintf("decodehuge: %v %s", err, out))
			}
		}
	}
	c.NonTrivial()
	c.Sig("huge")
}

func subDecodeHuge(args []string) int {
	var err error
	switch args[0] {
	case "Elements":
		var e Elems
		_, err = e.UnmarshalMsg([]byte{0xdd, 0xff, 0xff, 0xff, 0xff, 0x95})
	case "Segments":
		var s rankdb.Segments
		_, err = s.UnmarshalMsg(append([]byte{0x81, 0xa8}, append([]byte("Segments"), 0xdd, 0xff, 0xff, 0xff, 0xff)...))
	case "List":
		var l rankdb.List
		_, err = l.UnmarshalMsg([]byte{0x98, 0xa1, 'a', 0xa1, 'b', 0xdf, 0xff, 0xff, 0xff, 0xff})
	}
	if err == nil {
		fmt.Println("accepted")
		return 4
	}
	return 0
}
