package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"hash/crc32"
	"math/rand"
	"net"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/Vivino/rankdb/blobstore"
	"github.com/Vivino/rankdb/blobstore/aerostore"
	"github.com/Vivino/rankdb/blobstore/badgerstore"
	"github.com/Vivino/rankdb/blobstore/boltstore"
	"github.com/Vivino/rankdb/blobstore/dynamo"
	"github.com/Vivino/rankdb/blobstore/memstore"
	"github.com/anishathalye/porcupine"
	"github.com/aws/aws-sdk-go/aws"
	"github.com/aws/aws-sdk-go/aws/credentials"
	"github.com/aws/aws-sdk-go/aws/session"
	"github.com/aws/aws-sdk-go/service/dynamodb"
	"github.com/cenkalti/backoff"
	"github.com/dgraph-io/badger"
	"github.com/etcd-io/bbolt"
)

func init() {
	register(&Check{ID: "C13", Quick: 500, Thorough: 2400, Run: runC13,
		Rule:   "one case = one store stack (memory, bolt, badger, spy, or the Aerospike or DynamoDB client talking to a stand-in, under random wrappers) driven by random gets, sets, deletes and reopens next to a map; callers overwrite their buffers after every call",
		Assume: []string{"sets are not empty, keys have at least two bytes and values at most 1 MB (limits of the bundled stores)", "the Aerospike and DynamoDB clients talk to stand-ins in the check that keep the documented limits of those services"}})
	register(&Check{ID: "C14", Race: true, Quick: 900, Thorough: 2000, Run: runC14,
		Rule:   "one case = a concurrent history of gets, sets and deletes by several clients over one store stack with random delays below it, recorded with a global order and checked for linearizability per key",
		Assume: []string{"values are distinct per write"}})
	register(&Check{ID: "C15", Race: true, Quick: 1200, Thorough: 2400, Run: runC15,
		Rule:   "one case = clients writing through a lazy saver with random queue limits, savers and timing over a slow store; every write reaching the store is observed",
		Assume: []string{"the underlying store accepts the saver's writes within the save timeout (failed saves are dropped by documented design)"}})
	register(&Check{ID: "C16", Quick: 900, Thorough: 2400, Run: runC16,
		Rule:   "one case = a size-limited store over an observed store: sizes around every multiple of the limit, overwrites, deletes, new instances, missing parts and failing writes",
		Assume: []string{"keys do not end in '+' and a number except in the case that reports that known collision", "leftover part blobs after a new instance overwrites an unread key are not observable through the store and not asserted"}})
	register(&Check{ID: "C17", Quick: 800, Thorough: 3000, Run: runC17,
		Rule: "one case = a scripted sequence of errors behind a retrying store; attempts, returned value, error and timing budget are compared with the script"})
}

// --- stacks ------------------------------------------------------------------

// stack is a store stack over a persistent or volatile bottom.
type stack struct {
	c        *C
	name     string
	bottom   string
	layers   []string
	dir      string
	limit    int
	top      blobstore.Store
	base     blobstore.Store // the bottom itself, below any delay
	spy      *spy
	mem      *memstore.MemBlobStore
	lazies   []*blobstore.LazySaver
	closers  []func() error
	dyn      *fakeDynamo
	aero     *aeroConn
	split    bool // Dynamo store that splits values
	flakyPct int
	delay    func()
}

// flaky fails some calls with a transient error before passing them on.
type flaky struct {
	s   blobstore.Store
	ctr uint64
	pct int
}

var errTransient = errors.New("transient failure")

func (f *flaky) fail() bool {
	x := atomic.AddUint64(&f.ctr, 1) * 0x9E3779B97F4A7C15
	return int((x>>33)%100) < f.pct
}
func (f *flaky) Get(ctx context.Context, set, key string) ([]byte, error) {
	if f.fail() {
		return nil, errTransient
	}
	return f.s.Get(ctx, set, key)
}
func (f *flaky) Set(ctx context.Context, set, key string, b []byte) error {
	if f.fail() {
		return errTransient
	}
	return f.s.Set(ctx, set, key, b)
}
func (f *flaky) Delete(ctx context.Context, set, key string) error {
	if f.fail() {
		return errTransient
	}
	return f.s.Delete(ctx, set, key)
}

// delayed adds jitter before and after each call of the wrapped store.
type delayed struct {
	s blobstore.Store
	d func()
}

func (d *delayed) Get(ctx context.Context, set, key string) ([]byte, error) {
	d.d()
	b, err := d.s.Get(ctx, set, key)
	d.d()
	return b, err
}
func (d *delayed) Set(ctx context.Context, set, key string, b []byte) error {
	d.d()
	err := d.s.Set(ctx, set, key, b)
	d.d()
	return err
}
func (d *delayed) Delete(ctx context.Context, set, key string) error {
	d.d()
	err := d.s.Delete(ctx, set, key)
	d.d()
	return err
}

func fastBackoff() backoff.BackOff { return backoff.NewConstantBackOff(20 * time.Microsecond) }

func (s *stack) has(l string) bool {
	if s.bottom == l {
		return true
	}
	for _, x := range s.layers {
		if x == l {
			return true
		}
	}
	return false
}

func (s *stack) open() {
	var st blobstore.Store
	s.lazies, s.closers = nil, nil
	must := func(err error) {
		if err != nil {
			s.c.Failf("opening %s: %v", s.name, err)
		}
	}
	switch s.bottom {
	case "mem":
		if s.mem == nil {
			s.mem = memstore.NewMemStore()
		}
		st = s.mem
	case "spy":
		if s.spy == nil {
			s.spy = newSpy()
		}
		st = s.spy
	case "bolt":
		b, err := boltstore.NewBoltStore(filepath.Join(s.dir, "db.bolt"), &bbolt.Options{NoSync: true, Timeout: 10 * time.Second})
		must(err)
		st = b
		s.closers = append(s.closers, b.Close)
	case "dynamo":
		if s.dyn == nil {
			s.dyn = newFakeDynamo()
			if r := s.c.Rng; r.Intn(2) == 0 {
				n := pick(r, [][2]string{{"blob", "id"}, {"key", "value"}, {"b", "i"}, {"ID", "Blob"}})
				s.dyn.idName, s.dyn.blobName = n[0], n[1]
				s.c.Count("dynamo_own_names", 1)
			}
		}
		ses, err := session.NewSession(&aws.Config{Endpoint: aws.String(s.dyn.hs.URL), Region: aws.String("us-east-1"), Credentials: credentials.NewStaticCredentials("key", "secret", ""), MaxRetries: aws.Int(0), HTTPClient: s.dyn.hs.Client()})
		must(err)
		d, err := dynamo.New(ses)
		must(err)
		if s.dyn.idName != "id" {
			d.SetAttributeNames(s.dyn.idName, s.dyn.blobName)
		}
		st = d
		if s.split {
			st = d.GetStore()
		}
	case "aero":
		if s.aero == nil {
			s.aero = getAero(s.c)
		}
		s.aero.uses++
		st = s.aero.as
	case "badger":
		o := badger.DefaultOptions(filepath.Join(s.dir, "badger")).WithLogger(nil).WithMaxTableSize(1 << 20).WithValueLogFileSize(8 << 20).WithSyncWrites(false).WithNumCompactors(1).WithNumMemtables(1)
		b, err := badgerstore.New(o)
		must(err)
		st = b
		s.closers = append(s.closers, b.Close)
	}
	s.base = st
	if s.delay != nil {
		st = &delayed{st, s.delay}
	}
	for _, l := range s.layers {
		switch l {
		case "maxsize":
			m, err := blobstore.NewMaxSizeStore(st, s.limit)
			must(err)
			st = m
		case "retry":
			if s.flakyPct > 0 {
				st = &flaky{s: st, pct: s.flakyPct}
			}
			m, err := blobstore.NewRetryStore(st, blobstore.WithRetryOpt.Backoff(fastBackoff, fastBackoff, fastBackoff), blobstore.WithRetryOpt.OpTimeout(20*time.Second))
			must(err)
			st = m
		case "lazy":
			o := blobstore.WithLazySaveOption
			lim := 1 + s.c.Rng.Intn(20)
			maxTime := time.Duration(1+s.c.Rng.Intn(5)) * time.Millisecond
			if s.c.Rng.Intn(2) == 0 {
				maxTime = time.Hour
			}
			m, err := blobstore.NewLazySaver(st, o.Logger(nullLog{}), o.Items(lim, 1+s.c.Rng.Intn(lim)), o.MaxTime(maxTime), o.Savers(1+s.c.Rng.Intn(5)), o.SaveTimeout(30*time.Second))
			must(err)
			st = m
			s.lazies = append(s.lazies, m)
		}
	}
	s.top = st
}

func (s *stack) close() error {
	for i := len(s.lazies) - 1; i >= 0; i-- {
		s.lazies[i].Shutdown()
	}
	var first error
	for _, f := range s.closers {
		if err := f(); err != nil && first == nil {
			first = err
		}
	}
	return first
}

func newStack(c *C, concurrent bool) *stack {
	r := c.Rng
	s := &stack{c: c}
	s.bottom = pick(r, []string{"mem", "mem", "bolt", "bolt", "badger", "badger", "spy", "spy", "dynamo", "aero"})
	s.split = r.Intn(2) == 0
	s.limit = 1024 + r.Intn(600)
	for i := pick(r, []int{0, 1, 1, 1, 2, 3}); i > 0; i-- {
		l := pick(r, []string{"maxsize", "retry", "lazy"})
		if s.has(l) {
			continue
		}
		s.layers = append(s.layers, l)
	}
	if r.Intn(2) == 0 {
		s.flakyPct = 30
	}
	s.name = s.bottom + "<" + strings.Join(s.layers, "<")
	if s.bottom == "bolt" || s.bottom == "badger" {
		s.dir = c.TempDir()
	}
	if s.bottom == "dynamo" && s.split {
		s.name = "split-" + s.name
	}
	c.Logf("store stack %s limit %d", s.name, s.limit)
	return s
}

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

// aeroConn is a client connected to a stand-in node; clients cannot be closed
// and are used again by later cases.
type aeroConn struct {
	f    *fakeAero
	as   *aerostore.AeroStore
	uses int
}

var aeroPool struct {
	sync.Mutex
	free []*aeroConn
}

func getAero(c *C) *aeroConn {
	aeroPool.Lock()
	defer aeroPool.Unlock()
	if n := len(aeroPool.free); n > 0 {
		a := aeroPool.free[n-1]
		aeroPool.free = aeroPool.free[:n-1]
		a.f.reset()
		return a
	}
	f := newFakeAero()
	as, err := aerostore.New("test", "127.0.0.1:"+fmt.Sprint(f.l.Addr().(*net.TCPAddr).Port))
	if err != nil {
		c.Failf("connecting to an Aerospike stand-in: %v", err)
	}
	return &aeroConn{f: f, as: as}
}

// release gives up what the bottom of the stack holds outside the case.
func (s *stack) release() {
	if s.dyn != nil {
		s.dyn.hs.Close()
		s.dyn = nil
	}
	if s.aero != nil {
		aeroPool.Lock()
		aeroPool.free = append(aeroPool.free, s.aero)
		aeroPool.Unlock()
		s.aero = nil
	}
}

// maxVal is the largest value the stack has to accept.
func (s *stack) maxVal() int {
	switch {
	case s.bottom == "dynamo" && !s.split && !s.has("maxsize"):
		return 399 << 10
	case s.has("maxsize"):
		return blobstore.MaxSize + 1000
	}
	return blobstore.MaxSize
}

// createSets makes the sets of stores that need it.
func (s *stack) createSets(ctx context.Context, sets []string) {
	if s.dyn == nil {
		return
	}
	ses, err := session.NewSession(&aws.Config{Endpoint: aws.String(s.dyn.hs.URL), Region: aws.String("us-east-1"), Credentials: credentials.NewStaticCredentials("key", "secret", ""), MaxRetries: aws.Int(0), HTTPClient: s.dyn.hs.Client()})
	if err != nil {
		s.c.Failf("session: %v", err)
	}
	d, err := dynamo.New(ses)
	if err != nil {
		s.c.Failf("dynamo: %v", err)
	}
	if s.dyn.idName != "id" {
		d.SetAttributeNames(s.dyn.idName, s.dyn.blobName)
	}
	for _, set := range sets {
		if err := d.CreateSet(ctx, set, &dynamodb.ProvisionedThroughput{ReadCapacityUnits: aws.Int64(1), WriteCapacityUnits: aws.Int64(1)}); err != nil {
			s.c.Failf("creating the set %q: %v", set, err)
		}
	}
}

// break makes the next requests to a service fail; false if there is none.
func (s *stack) breakNext(n int32) bool {
	switch {
	case s.dyn != nil:
		atomic.StoreInt32(&s.dyn.broken, n)
	case s.aero != nil:
		atomic.StoreInt32(&s.aero.f.broken, n)
	default:
		return false
	}
	return true
}

// storeKeys makes set and key names that stress separators and encodings.
func storeKeys(r *rand.Rand, s *stack) (sets, keys []string) {
	sets = []string{"a", "set", "a b", "ü", string(randBytes(r, 1+r.Intn(10)))}
	keys = []string{"k1", "key", "ke", "keyy", "k\x00", "\x00\x00", "a+b", "kü/", "\xff\xff", string(randBytes(r, 2+r.Intn(60))), strings.Repeat("long", 60)}
	if s.bottom == "dynamo" {
		sets = []string{"set", "Set", "a.b", "a_b-c", strings.Repeat("s", 255), "sett"}
		keys[len(keys)-2] = fmt.Sprintf("%x", keys[len(keys)-2])
		for i := range keys {
			keys[i] = strings.ToValidUTF8(keys[i], "\u00ff")
		}
	}
	if s.bottom == "dynamo" {
		keys = append(keys, "b/cc", "cc", "/cc", "/c", "x/y/z", "//")
	} else if !s.has("badger") { // slashes collide there: known finding
		sets = append(sets, "a/b", "a/", "/")
		keys = append(keys, "b/cc", "cc", "/cc", "/c", "x/y/z", "//")
	} else {
		for i := range keys {
			keys[i] = strings.ReplaceAll(keys[i], "/", "_")
		}
		for i := range sets {
			sets[i] = strings.ReplaceAll(sets[i], "/", "_")
		}
	}
	return
}

func runC13(c *C) {
	r := c.Rng
	ctx := quiet(c.Ctx)
	if c.Idx == 0 {
		slashCollision(c, ctx)
		return
	}
	if c.Idx%100 == 1 {
		longKeys(c, ctx)
		return
	}
	s := newStack(c, false)
	s.open()
	defer func() { _ = s.close(); s.release() }()
	sets, keys := storeKeys(r, s)
	s.createSets(ctx, sets)
	ref := map[skey][]byte{}
	valLen := func() int {
		n := pick(r, []int{0, 1, 10, 100, 1000, s.limit - 4, s.limit - 3, s.limit - 1, s.limit, s.limit + 1, 2 * s.limit, 5000, r.Intn(9000)})
		if r.Intn(60) == 0 {
			n = s.maxVal() - r.Intn(1000)*r.Intn(2)
		}
		return n
	}
	checkGet := func(k skey) {
		got, err := s.top.Get(ctx, k.set, k.key)
		want, ok := ref[k]
		if !ok {
			if err != blobstore.ErrBlobNotFound {
				c.Failf("%s: get of absent %q/%q: %d bytes, %v", s.name, k.set, k.key, len(got), err)
			}
			return
		}
		if err != nil {
			c.Failf("%s: get %q/%q: %v", s.name, k.set, k.key, err)
		}
		if !bytes.Equal(got, want) {
			c.Failf("%s: get %q/%q: got %d bytes (crc %x), want %d (crc %x)", s.name, k.set, k.key, len(got), crc32.ChecksumIEEE(got), len(want), crc32.ChecksumIEEE(want))
		}
		for i := range got { // what the caller does with it is its own business
			got[i] ^= 0xa5
		}
		c.Count("gets_compared", 1)
	}
	steps := 150 + r.Intn(150)
	for i := 0; i < steps; i++ {
		k := skey{pick(r, sets), pick(r, keys)}
		switch x := r.Intn(100); {
		case x < 45:
			v := randBytes(r, valLen())
			keep := append([]byte{}, v...)
			c.Logf("set %q/%q %d bytes", k.set, k.key, len(v))
			cctx, cancel := context.WithCancel(ctx)
			err := s.top.Set(cctx, k.set, k.key, v)
			cancel() // as request contexts are
			if err != nil {
				c.Failf("%s: set %q/%q %d bytes: %v", s.name, k.set, k.key, len(v), err)
			}
			if !bytes.Equal(v, keep) {
				c.Failf("%s: set changed the caller's buffer", s.name)
			}
			for i := range v {
				v[i] = 0
			}
			ref[k] = keep
		case x < 60:
			c.Logf("delete %q/%q", k.set, k.key)
			if err := s.top.Delete(ctx, k.set, k.key); err != nil {
				c.Failf("%s: delete %q/%q: %v", s.name, k.set, k.key, err)
			}
			delete(ref, k)
		case x < 97:
			checkGet(k)
		default:
			if r.Intn(3) > 0 && i < steps-20 {
				continue
			}
			c.Logf("close and reopen")
			if err := s.close(); err != nil {
				c.Failf("%s: close: %v", s.name, err)
			}
			s.open()
			c.Count("reopens", 1)
			for _, st := range sets {
				for _, ky := range keys {
					checkGet(skey{st, ky})
				}
			}
		}
		// The Bolt store can also create values that must not exist.
		if bs, ok := s.base.(*boltstore.BoltStore); ok && len(s.layers) == 0 && r.Intn(4) == 0 {
			v := randBytes(r, valLen())
			_, had := ref[k]
			err := bs.Create(ctx, k.set, k.key, v)
			switch {
			case had && err != blobstore.ErrBlobExists:
				c.Failf("%s: create of existing %q/%q: %v", s.name, k.set, k.key, err)
			case !had && err != nil:
				c.Failf("%s: create of absent %q/%q: %v", s.name, k.set, k.key, err)
			case !had:
				ref[k] = append([]byte{}, v...)
			}
			for i := range v {
				v[i] = 0
			}
			checkGet(k)
			c.Count("creates", 1)
		}
		// A service that refuses a request: nothing changes, or it is tried again.
		if r.Intn(8) == 0 && (len(s.layers) == 0 && !s.split || len(s.layers) == 1 && s.layers[0] == "retry" && !s.split && s.flakyPct == 0) && s.breakNext(1) {
			_, had := ref[k]
			again := len(s.layers) > 0
			var err error
			switch r.Intn(3) {
			case 0:
				_, err = s.top.Get(ctx, k.set, k.key)
				if again && !had && err == blobstore.ErrBlobNotFound {
					err = nil
				}
			case 1:
				v := randBytes(r, valLen())
				if err = s.top.Set(ctx, k.set, k.key, v); err == nil {
					ref[k] = v
				}
			case 2:
				if err = s.top.Delete(ctx, k.set, k.key); err == nil {
					delete(ref, k)
				}
			}
			if again && err != nil {
				c.Failf("%s: one refused request and the operation failed: %v", s.name, err)
			}
			if !again && (err == nil || err == blobstore.ErrBlobNotFound) {
				c.Failf("%s: the service refused the request, the store answers %v", s.name, err)
			}
			s.breakNext(0)
			checkGet(k)
			c.Count("refused_requests", 1)
		}
		// WithSet view agrees
		if r.Intn(20) == 0 {
			ws := blobstore.StoreWithSet(s.top, k.set)
			g, err := ws.Get(ctx, k.key)
			w, ok := ref[k]
			if (err == nil) != ok || !bytes.Equal(g, w) {
				c.Failf("%s: store with set disagrees on %q/%q: %v", s.name, k.set, k.key, err)
			}
			if ws.Store() != s.top {
				c.Failf("store with set returns another store")
			}
		}
		c.Tick()
	}
	for _, st := range sets {
		for _, ky := range keys {
			checkGet(skey{st, ky})
		}
	}
	if s.mem != nil && len(s.layers) == 0 {
		for _, st := range sets {
			n, size := 0, 0
			for k, v := range ref {
				if k.set == st {
					n++
					size += len(v)
				}
			}
			if gn, gs := s.mem.Usage(st); gn != n || gs != size {
				c.Failf("memory store usage of %q is %d blobs %d bytes, want %d, %d", st, gn, gs, n, size)
			}
			if d := s.mem.Dir(st); len(d) != n {
				c.Failf("memory store directory of %q has %d entries, want %d", st, len(d), n)
			}
		}
	}
	c.NonTrivial()
	c.Sig(s.name, c.Idx)
	c.Count("stack_"+s.bottom, 1)
	c.Sample("%s, %d steps, %d live keys", s.name, steps, len(ref))
}

// longKeys queues more in the Badger store than one of its transactions can hold.
func longKeys(c *C, ctx context.Context) {
	r := c.Rng
	s := &stack{c: c, bottom: "badger", name: "badger", dir: c.TempDir()}
	s.open()
	defer func() { _ = s.close() }()
	ref := map[string][]byte{}
	check := func() {
		for k, v := range ref {
			if got, err := s.top.Get(ctx, "set", k); err != nil || !bytes.Equal(got, v) {
				c.Failf("badger, %d values with long keys: get of a stored value: %d bytes, %v", len(ref), len(got), err)
			}
			c.Count("gets_compared", 1)
		}
	}
	n := 120 + r.Intn(300)
	for i := 0; i < n; i++ {
		k := fmt.Sprintf("%05d", r.Intn(n)) + strings.Repeat("k", 500+r.Intn(5000))
		v := randBytes(r, r.Intn(200))
		if err := s.top.Set(ctx, "set", k, append([]byte{}, v...)); err != nil {
			c.Failf("badger: set of value %d with a key of %d bytes: %v", i, len(k), err)
		}
		ref[k] = v
		if r.Intn(150) == 0 {
			check()
		}
		c.Tick()
	}
	check()
	if err := s.close(); err != nil {
		c.Failf("badger: closing with queued values: %v", err)
	}
	s.open()
	check()
	c.NonTrivial()
	c.Sig("long", n)
	c.Count("long_key_runs", 1)
}

// slashCollision reports the known key collision of the badger store.
func slashCollision(c *C, ctx context.Context) {
	s := &stack{c: c, bottom: "badger", name: "badger", dir: c.TempDir()}
	s.open()
	defer s.close()
	_ = s.top.Set(ctx, "a", "b/c", []byte("one"))
	_ = s.top.Set(ctx, "a/b", "cc", []byte("two"))
	_ = s.top.Set(ctx, "a", "b/cc", []byte("three"))
	if v, err := s.top.Get(ctx, "a/b", "cc"); err != nil || string(v) != "two" {
		c.Known("badger-slash-collision", fmt.Sprintf("badger: set \"a/b\" key \"cc\" and set \"a\" key \"b/cc\" share one entry: got %q, %v", v, err))
	}
	c.NonTrivial()
	c.Sig("slash")
}

// --- C14 -----------------------------------------------------------------------

// stamped values carry their own identity and checksum.
func stampVal(id uint32, size int) []byte {
	if size < 8 {
		size = 8
	}
	b := make([]byte, size)
	x := uint64(id)*0x9E3779B97F4A7C15 + 1
	for i := 8; i < size; i++ {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		b[i] = byte(x)
	}
	binary.LittleEndian.PutUint32(b, id)
	binary.LittleEndian.PutUint32(b[4:], crc32.ChecksumIEEE(b[8:])^id^uint32(size))
	return b
}

// stampID returns the identity of an intact stamped value.
func stampID(b []byte) (uint32, bool) {
	if len(b) < 8 {
		return 0, false
	}
	id := binary.LittleEndian.Uint32(b)
	return id, binary.LittleEndian.Uint32(b[4:]) == crc32.ChecksumIEEE(b[8:])^id^uint32(len(b))
}

type regIn struct {
	op  int // 0 get 1 set 2 delete
	val uint32
}

var regModel = porcupine.Model{
	Init: func() interface{} { return uint32(0) },
	Step: func(st, in, out interface{}) (bool, interface{}) {
		i := in.(regIn)
		switch i.op {
		case 0:
			return out.(uint32) == st.(uint32), st
		case 1:
			return true, i.val
		}
		return true, uint32(0)
	},
	Equal: func(a, b interface{}) bool { return a.(uint32) == b.(uint32) },
	DescribeOperation: func(in, out interface{}) string {
		i := in.(regIn)
		switch i.op {
		case 0:
			return fmt.Sprintf("get -> %d", out)
		case 1:
			return fmt.Sprintf("set %d", i.val)
		}
		return "delete"
	},
}

func describeHistory(m porcupine.Model, h []porcupine.Operation) string {
	h = append([]porcupine.Operation{}, h...)
	sort.Slice(h, func(i, j int) bool { return h[i].Call < h[j].Call })
	var sb strings.Builder
	for _, o := range h {
		fmt.Fprintf(&sb, "client %d [%d,%d] %s\n", o.ClientId, o.Call, o.Return, m.DescribeOperation(o.Input, o.Output))
	}
	return sb.String()
}

func runC14(c *C) {
	r := c.Rng
	ctx := quiet(c.Ctx)
	s := newStack(c, true)
	s.delay = jitter(c.Seed, 25, time.Duration(1+r.Intn(800))*time.Microsecond)
	s.open()
	c.Cleanup(s.release)
	s.createSets(ctx, []string{"set"})
	clients := 2 + r.Intn(5)
	nkeys := 1 + r.Intn(4)
	ops := 12 + r.Intn(25)
	dels := pick(r, []int{1, 1, 3})
	var clock int64
	var mu sync.Mutex
	hist := make([][]porcupine.Operation, nkeys)
	sizes := []int{8, 30, 500, s.limit - 3, s.limit, 2*s.limit + 7, 3 * s.limit}
	var nextID uint32
	var wg sync.WaitGroup
	for cl := 0; cl < clients; cl++ {
		wg.Add(1)
		go func(cl int, r *rand.Rand) {
			defer wg.Done()
			for i := 0; i < ops && !c.Failed(); i++ {
				k := r.Intn(nkeys)
				key := fmt.Sprintf("key%d", k)
				o := porcupine.Operation{ClientId: cl, Call: atomic.AddInt64(&clock, 1)}
				var err error
				switch x := r.Intn(9 + dels); {
				case x < 5:
					var b []byte
					b, err = s.top.Get(ctx, "set", key)
					var id uint32
					if err == blobstore.ErrBlobNotFound {
						err = nil
					} else if err == nil {
						var ok bool
						if id, ok = stampID(b); !ok {
							c.FailAsync("%s: get of %s returned %d bytes that no single set stored", s.name, key, len(b))
							return
						}
					}
					o.Input, o.Output = regIn{0, 0}, id
					for i := range b {
						b[i] = 0xee
					}
				case x < 9:
					id := atomic.AddUint32(&nextID, 1)
					v := stampVal(id, pick(r, sizes))
					err = s.top.Set(ctx, "set", key, v)
					o.Input, o.Output = regIn{1, id}, uint32(0)
					for i := range v {
						v[i] = 0xdd
					}
				default:
					err = s.top.Delete(ctx, "set", key)
					o.Input, o.Output = regIn{2, 0}, uint32(0)
				}
				o.Return = atomic.AddInt64(&clock, 1)
				if err != nil {
					c.FailAsync("%s: operation %v on %s: %v", s.name, o.Input, key, err)
					return
				}
				c.Tick()
				mu.Lock()
				hist[k] = append(hist[k], o)
				mu.Unlock()
				if r.Intn(5) == 0 {
					runtime.Gosched()
				}
			}
		}(cl, rand.New(rand.NewSource(r.Int63())))
	}
	stopFill := make(chan struct{})
	var fill sync.WaitGroup
	if s.bottom == "badger" { // unrelated writes make its queue flush
		fill.Add(1)
		go func() {
			defer fill.Done()
			for i := 0; ; i++ {
				select {
				case <-stopFill:
					return
				default:
				}
				if err := s.base.Set(ctx, "filler", fmt.Sprintf("f%d", i%150), []byte{1}); err != nil {
					c.FailAsync("filler set: %v", err)
					return
				}
			}
		}()
	}
	wg.Wait()
	close(stopFill)
	fill.Wait()
	c.CheckAsync()
	// After a clean close and reopen the final reads must fit as well.
	if err := s.close(); err != nil {
		c.Failf("%s: close: %v", s.name, err)
	}
	s.delay = nil
	s.open()
	for k := 0; k < nkeys; k++ {
		call := atomic.AddInt64(&clock, 1)
		b, err := s.top.Get(ctx, "set", fmt.Sprintf("key%d", k))
		var id uint32
		if err == nil {
			var ok bool
			if id, ok = stampID(b); !ok {
				c.Failf("%s: final get returned %d bytes that no single set stored", s.name, len(b))
			}
		} else if err != blobstore.ErrBlobNotFound {
			c.Failf("%s: final get: %v", s.name, err)
		}
		hist[k] = append(hist[k], porcupine.Operation{ClientId: clients, Call: call, Return: atomic.AddInt64(&clock, 1), Input: regIn{0, 0}, Output: id})
	}
	_ = s.close()
	overlap := 0
	for k := range hist {
		c.Tick()
		res := porcupine.CheckOperationsTimeout(regModel, hist[k], 15*time.Second)
		if res == porcupine.Illegal {
			c.Failf("%s: history of key%d is not linearizable:\n%s", s.name, k, describeHistory(regModel, hist[k]))
		}
		if res == porcupine.Unknown {
			c.Count("histories_undecided", 1)
		} else {
			c.Count("histories_linearizable", 1)
		}
		c.Count("operations", int64(len(hist[k])))
		for _, o := range hist[k] {
			if o.Return > o.Call+1 {
				overlap++
			}
			c.Sig(o.Call, o.Return, o.Input)
		}
	}
	c.Count("operations_overlapping_others", int64(overlap))
	c.Count("stack_"+s.bottom, 1)
	for _, l := range s.layers {
		c.Count("layer_"+l, 1)
	}
	if overlap > 0 {
		c.NonTrivial()
	}
	c.Sample("%s, %d clients x %d ops on %d keys, %d overlapping", s.name, clients, ops, nkeys, overlap)
}

// --- C15 -----------------------------------------------------------------------

type lazyOp struct {
	del bool
	id  uint32
}

func runC15(c *C) {
	r := c.Rng
	ctx := quiet(c.Ctx)
	inner := newSpy()
	inner.delay = jitter(c.Seed, pick(r, []int{0, 20, 60, 100}), time.Duration(1+r.Intn(3000))*time.Microsecond)
	failing := r.Intn(6) == 0
	failedKeys := map[skey]bool{}
	var fmu sync.Mutex
	if failing {
		inner.onCall = func(n int64, op, set, key string) faultMode {
			if op != "get" && n%7 == 3 {
				fmu.Lock()
				failedKeys[skey{set, key}] = true
				fmu.Unlock()
				return faultError
			}
			return faultNone
		}
	}
	written := map[skey][]lazyOp{} // guarded by the spy's lock
	inner.onWrite = func(op, set, key string, val []byte) {
		k := skey{set, key}
		o := lazyOp{del: op == "delete"}
		if !o.del {
			id, ok := stampID(val)
			if !ok {
				c.FailAsync("the lazy saver wrote a damaged value of %d bytes under %s/%s", len(val), set, key)
			}
			o.id = id
		}
		written[k] = append(written[k], o)
	}
	lim := 1 + r.Intn(12)
	fl := 1 + r.Intn(lim)
	savers := 1 + r.Intn(6)
	maxTime := time.Duration(1+r.Intn(4000)) * time.Microsecond
	if r.Intn(4) == 0 {
		maxTime = time.Hour
	}
	o := blobstore.WithLazySaveOption
	l, err := blobstore.NewLazySaver(inner, o.Logger(nullLog{}), o.Items(lim, fl), o.MaxTime(maxTime), o.Savers(savers), o.SaveTimeout(60*time.Second), o.Verbose(r.Intn(5) == 0))
	if err != nil {
		c.Failf("NewLazySaver: %v", err)
	}
	clients := 1 + r.Intn(5)
	perKeys := 1 + r.Intn(3)
	ops := 20 + r.Intn(60)
	earlyShutdown := r.Intn(3) == 0
	c.Logf("limit %d flush %d savers %d maxtime %v clients %d ops %d failing %v early %v", lim, fl, savers, maxTime, clients, ops, failing, earlyShutdown)
	acked := make([]map[skey][]lazyOp, clients)
	refused := make([]map[uint32]bool, clients)
	var ids uint32
	var wg sync.WaitGroup
	var active int32 = int32(clients)
	for cl := 0; cl < clients; cl++ {
		acked[cl] = map[skey][]lazyOp{}
		refused[cl] = map[uint32]bool{}
		wg.Add(1)
		go func(cl int, r *rand.Rand) {
			defer wg.Done()
			defer atomic.AddInt32(&active, -1)
			last := map[skey]uint32{}
			for i := 0; i < ops && !c.Failed(); i++ {
				// each client owns its keys; separators are chosen to tempt collisions
				k := skey{fmt.Sprintf("s%d", cl), fmt.Sprintf("x/k%d", r.Intn(perKeys))}
				if r.Intn(2) == 0 {
					k = skey{fmt.Sprintf("s%d/x", cl), fmt.Sprintf("k%d", r.Intn(perKeys))}
				}
				switch x := r.Intn(10); {
				case x < 5:
					id := atomic.AddUint32(&ids, 1)
					v := stampVal(id, pick(r, []int{8, 1000, 1024, 1025, 5000}))
					cctx, cancel := context.WithCancel(ctx)
					err := l.Set(cctx, k.set, k.key, v)
					cancel() // as request contexts are
					for i := range v {
						v[i] = 0
					}
					if err == blobstore.ErrShuttingDown && earlyShutdown {
						refused[cl][id] = true
						return
					}
					if err != nil {
						c.FailAsync("lazy set: %v", err)
						return
					}
					acked[cl][k] = append(acked[cl][k], lazyOp{id: id})
					last[k] = id
				case x < 7:
					cctx, cancel := context.WithCancel(ctx)
					err := l.Delete(cctx, k.set, k.key)
					cancel()
					if err == blobstore.ErrShuttingDown && earlyShutdown {
						return
					}
					if err != nil {
						c.FailAsync("lazy delete: %v", err)
						return
					}
					acked[cl][k] = append(acked[cl][k], lazyOp{del: true})
					last[k] = 0
				default:
					if failing {
						continue
					}
					b, err := l.Get(ctx, k.set, k.key)
					if err == blobstore.ErrShuttingDown && earlyShutdown {
						return
					}
					var id uint32
					if err == nil {
						var ok bool
						if id, ok = stampID(b); !ok {
							c.FailAsync("lazy get returned a damaged value")
							return
						}
					} else if err != blobstore.ErrBlobNotFound {
						c.FailAsync("lazy get: %v", err)
						return
					}
					if id != last[k] {
						c.FailAsync("client %d reads %d under %v after its own completed write of %d", cl, id, k, last[k])
						return
					}
					c.Count("own_writes_read", 1)
				}
				c.Tick()
			}
		}(cl, rand.New(rand.NewSource(r.Int63())))
	}
	// Watch the queue while clients run.
	stop := make(chan struct{})
	var watch sync.WaitGroup
	watch.Add(1)
	go func() {
		defer watch.Done()
		for {
			select {
			case <-stop:
				return
			default:
			}
			st := l.Stats()
			if st.ItemQueue > lim+clients+savers {
				c.FailAsync("queue holds %d items with limit %d, %d clients and %d savers", st.ItemQueue, lim, clients, savers)
			}
			c.Max("queue", int64(st.ItemQueue))
			time.Sleep(200 * time.Microsecond)
		}
	}()
	if earlyShutdown {
		for atomic.LoadUint32(&ids) < uint32(r.Intn(clients*ops/2+1)) && atomic.LoadInt32(&active) > 0 {
			time.Sleep(20 * time.Microsecond)
		}
		l.Shutdown()
	}
	wg.Wait()
	if !earlyShutdown && maxTime < time.Hour && !failing && r.Intn(2) == 0 {
		// the queue drains by itself
		for l.Stats().ItemQueue > 0 {
			time.Sleep(time.Millisecond)
			c.Tick()
		}
		c.Count("drained_by_itself", 1)
		c.CheckAsync()
		checkLazyFinal(c, inner, acked, nil)
	}
	l.Shutdown()
	close(stop)
	watch.Wait()
	c.CheckAsync()
	if err := l.Set(ctx, "s0", "after", stampVal(1, 8)); err != blobstore.ErrShuttingDown {
		c.Failf("set after shutdown: %v", err)
	}
	if err := l.Delete(ctx, "s0", "after"); err != blobstore.ErrShuttingDown {
		c.Failf("delete after shutdown: %v", err)
	}
	checkLazyFinal(c, inner, acked, failedKeys)
	// Order: what reached the store per key is a subsequence of the client's writes.
	n := 0
	for cl := range acked {
		for k, log := range acked[cl] {
			i := 0
			w := written[k]
			if failedKeys[k] {
				continue
			}
			for j, x := range w {
				for i < len(log) && log[i] != x {
					i++
				}
				if i == len(log) {
					c.Failf("write %d of %v to the store (%+v of %+v) is out of order; client wrote %+v", j, k, x, w, log)
				}
				i++
				n++
			}
			if refusedAny(refused[cl], w) {
				c.Failf("a refused write reached the store under %v: %+v", k, w)
			}
		}
	}
	for k := range written {
		own := false
		for cl := range acked {
			if _, ok := acked[cl][k]; ok {
				own = true
			}
		}
		if !own {
			c.Failf("the lazy saver wrote under %v which no client wrote", k)
		}
	}
	total := 0
	for cl := range acked {
		for _, l := range acked[cl] {
			total += len(l)
		}
	}
	c.Count("client_writes", int64(total))
	c.Count("store_writes_in_order", int64(n))
	if earlyShutdown {
		c.Count("early_shutdowns", 1)
	}
	if n > 0 {
		c.NonTrivial()
	}
	c.Sig(total, n, lim, fl, savers)
	c.Sample("limit %d flush %d savers %d maxtime %v: %d client writes, %d store writes", lim, fl, savers, maxTime, total, n)
}

func refusedAny(ref map[uint32]bool, w []lazyOp) bool {
	for _, x := range w {
		if !x.del && ref[x.id] {
			return true
		}
	}
	return false
}

func checkLazyFinal(c *C, inner *spy, acked []map[skey][]lazyOp, skip map[skey]bool) {
	for cl := range acked {
		for k, log := range acked[cl] {
			if skip[k] {
				continue
			}
			want := log[len(log)-1]
			b, ok := inner.raw(k.set, k.key)
			if want.del {
				if ok {
					id, _ := stampID(b)
					c.Failf("%v was last deleted, store holds write %d; writes %+v", k, id, log)
				}
				continue
			}
			if !ok {
				c.Failf("%v: the last write %d never reached the store; writes %+v", k, want.id, log)
			}
			if id, _ := stampID(b); id != want.id {
				c.Failf("%v: the store holds write %d, the last write was %d; writes %+v", k, id, want.id, log)
			}
		}
	}
}

// --- C16 -----------------------------------------------------------------------

// sharedMaxSize lets several clients use a few keys at the same time. Every get
// must return one whole value that was set; afterwards m and ref agree again.
func sharedMaxSize(c *C, ctx context.Context, m *blobstore.MaxSizeStore, inner *spy, limit int, ref map[skey][]byte) {
	r := c.Rng
	inner.delay = jitter(c.Seed, 40, time.Duration(1+r.Intn(400))*time.Microsecond)
	sizes := []int{8, 500, limit - 3, limit, limit + 9, 2*limit + 7, 3 * limit, 5*limit - 1}
	keys := []skey{{"s", "k1"}, {"t", "k1"}, {"s", "k2"}}[:1+r.Intn(3)]
	for _, k := range keys {
		v := stampVal(0xfffff, pick(r, sizes))
		if err := m.Set(ctx, k.set, k.key, v); err != nil {
			c.Failf("set %v: %v", k, err)
		}
	}
	var nextID uint32
	var gets, sets int64
	var wg sync.WaitGroup
	dels := r.Intn(2) == 0
	for cl := 2 + r.Intn(3); cl > 0; cl-- {
		wg.Add(1)
		go func(r *rand.Rand) {
			defer wg.Done()
			for i := 0; i < 15 && !c.Failed(); i++ {
				k := pick(r, keys)
				var err error
				switch x := r.Intn(10); {
				case x < 4:
					var b []byte
					b, err = m.Get(ctx, k.set, k.key)
					if err == blobstore.ErrBlobNotFound && dels {
						err = nil
					} else if err == nil {
						if _, ok := stampID(b); !ok {
							c.FailAsync("get of %v while others set it returned %d bytes that no single set stored", k, len(b))
							return
						}
					}
					atomic.AddInt64(&gets, 1)
				case x < 9 || !dels:
					err = m.Set(ctx, k.set, k.key, stampVal(atomic.AddUint32(&nextID, 1), pick(r, sizes)))
					atomic.AddInt64(&sets, 1)
				default:
					err = m.Delete(ctx, k.set, k.key)
				}
				if err != nil {
					c.FailAsync("shared %v: %v", k, err)
					return
				}
				c.Tick()
			}
		}(rand.New(rand.NewSource(r.Int63())))
	}
	wg.Wait()
	c.CheckAsync()
	inner.delay = nil
	for _, k := range keys {
		b, err := m.Get(ctx, k.set, k.key)
		if err == blobstore.ErrBlobNotFound && dels {
			delete(ref, k)
			continue
		}
		if err != nil {
			c.Failf("get of %v after concurrent use: %v", k, err)
		}
		if _, ok := stampID(b); !ok {
			c.Failf("get of %v after concurrent use returned %d bytes that no single set stored", k, len(b))
		}
		ref[k] = append([]byte{}, b...)
	}
	c.Count("shared_gets", gets)
	c.Count("shared_sets", sets)
}

func runC16(c *C) {
	r := c.Rng
	ctx := quiet(c.Ctx)
	if c.Idx == 0 {
		partCollision(c, ctx)
		return
	}
	if _, err := blobstore.NewMaxSizeStore(newSpy(), r.Intn(1024)); err == nil {
		c.Failf("a limit below 1KB was accepted")
	}
	inner := newSpy()
	limit := pick(r, []int{1024, 1025, 1500, 4096})
	inner.onWrite = func(op, set, key string, val []byte) {
		if len(val) > limit {
			c.FailAsync("a blob of %d bytes was written to the wrapped store, limit %d", len(val), limit)
		}
	}
	open := func() *blobstore.MaxSizeStore {
		m, err := blobstore.NewMaxSizeStore(inner, limit)
		if err != nil {
			c.Failf("NewMaxSizeStore: %v", err)
		}
		return m
	}
	m := open()
	fresh := true // inventory is exact while one instance did everything
	ref := map[skey][]byte{}
	// Some sets and keys are the same when written together.
	sets, keys := []string{"s", "t", "sk", `s/\x`, "s/x"}, []string{"k1", "k2", "key+", "k1+", "x+y", "1k", "k1k", `x/\k1`, "x/k1"}
	if r.Intn(2) == 0 {
		sets, keys = []string{"s", "t"}, keys[:5]
	}
	if c.Idx%40 == 5 { // the upper limit
		big := make([]byte, 65535*1024)
		if limit == 1024 {
			if err := m.Set(ctx, "s", "big", big); err != blobstore.ErrBlobTooBig {
				c.Failf("a value above the supported size: %v", err)
			}
			if n := len(inner.snapshot()); n != 0 {
				c.Failf("a refused value left %d blobs", n)
			}
			c.Count("too_big_refused", 1)
		}
	}
	size := func() int {
		switch r.Intn(4) {
		case 0:
			return r.Intn(6)
		case 1: // around a multiple of the limit
			n := limit*(1+r.Intn(5)) + r.Intn(9) - 5
			return n
		case 2: // around 128 parts, where the header grows
			if r.Intn(8) == 0 {
				return limit*(127+r.Intn(4)) + r.Intn(9) - 5
			}
		}
		return r.Intn(limit * 6)
	}
	get := func(k skey) {
		v, err := m.Get(ctx, k.set, k.key)
		w, ok := ref[k]
		if !ok {
			if err != blobstore.ErrBlobNotFound {
				c.Failf("get of absent %v: %d bytes, %v", k, len(v), err)
			}
			return
		}
		if err != nil || !bytes.Equal(v, w) {
			c.Failf("get of %v: %d bytes, %v; want %d bytes", k, len(v), err, len(w))
		}
		c.Count("gets_compared", 1)
	}
	inventory := func() {
		if !fresh {
			return
		}
		want := map[skey]bool{}
		for k, v := range ref {
			want[k] = true
			// parts are key+0, key+1...: their bytes must add up to the value and header
			total, n := 0, 0
			for i := -1; ; i++ {
				kk := k
				if i >= 0 {
					kk.key = fmt.Sprintf("%s+%d", k.key, i)
				}
				b, ok := inner.raw(kk.set, kk.key)
				if !ok {
					break
				}
				want[kk] = true
				total += len(b)
				n++
			}
			if total < len(v)+1 || total > len(v)+3 {
				c.Failf("value %v of %d bytes is stored in %d blobs of together %d bytes", k, len(v), n, total)
			}
			c.Max("parts", int64(n))
		}
		for k := range inner.snapshot() {
			if !want[k] {
				c.Failf("blob %v is left in the wrapped store; live keys %d", k, len(ref))
			}
		}
		c.Count("inventories", 1)
	}
	steps := 60 + r.Intn(60)
	for i := 0; i < steps; i++ {
		k := skey{pick(r, sets), pick(r, keys)}
		switch x := r.Intn(20); {
		case x < 9:
			v := randBytes(r, size())
			keep := append([]byte{}, v...)
			c.Logf("set %v %d", k, len(v))
			if err := m.Set(ctx, k.set, k.key, v); err != nil {
				c.Failf("set %v of %d bytes: %v", k, len(v), err)
			}
			for i := range v {
				v[i] = 1
			}
			ref[k] = keep
		case x < 12:
			c.Logf("delete %v", k)
			if err := m.Delete(ctx, k.set, k.key); err != nil {
				c.Failf("delete %v: %v", k, err)
			}
			delete(ref, k)
		case x < 17:
			get(k)
		case x < 18:
			c.Logf("new instance")
			m = open()
			fresh = false
			for k := range ref { // reading makes the new instance know the parts
				get(k)
			}
			fresh = true
		case x < 19: // missing part on a fork
			v, ok := ref[k]
			if !ok || len(v) < 2*limit {
				continue
			}
			f := inner.fork()
			part := fmt.Sprintf("%s+%d", k.key, r.Intn((len(v)+1)/limit))
			if _, ok := f.raw(k.set, part); !ok {
				continue
			}
			f.drop(k.set, part)
			m2, _ := blobstore.NewMaxSizeStore(f, limit)
			if b, err := m2.Get(ctx, k.set, k.key); err == nil {
				c.Failf("get of %v with missing part %s returned %d bytes without error", k, part, len(b))
			}
			c.Count("missing_parts", 1)
		default: // failing call on a fork
			faultFork(c, ctx, inner, limit, k, ref[k], size())
		}
		c.CheckAsync()
		inventory()
		c.Tick()
	}
	if r.Intn(3) > 0 {
		sharedMaxSize(c, ctx, m, inner, limit, ref)
		inventory()
	}
	// another instance over the same storage sees everything, and can delete it
	m = open()
	for _, s := range sets {
		for _, k := range keys {
			get(skey{s, k})
		}
	}
	m = open()
	for k := range ref {
		if err := m.Delete(ctx, k.set, k.key); err != nil {
			c.Failf("delete %v: %v", k, err)
		}
	}
	if n := len(inner.snapshot()); n != 0 {
		c.Failf("%d blobs left after deleting every key from a new instance", n)
	}
	c.NonTrivial()
	c.Sig(c.Idx, limit)
	c.Sample("limit %d, %d steps, %d keys", limit, steps, len(ref))
}

// faultFork fails one call of a set, get or delete on a copy of the storage.
func faultFork(c *C, ctx context.Context, inner *spy, limit int, k skey, old []byte, size int) {
	r := c.Rng
	f := inner.fork()
	m, _ := blobstore.NewMaxSizeStore(f, limit)
	if r.Intn(2) == 0 {
		_, _ = m.Get(ctx, k.set, k.key)
	}
	base := f.calls
	at := int64(1 + r.Intn(4))
	hit := false
	f.onCall = func(n int64, op, set, key string) faultMode {
		if n == base+at {
			hit = true
			return faultError
		}
		return faultNone
	}
	switch r.Intn(3) {
	case 0:
		v := randBytes(r, size)
		deletesFail := false
		f.onCall = func(n int64, op, set, key string) faultMode {
			if n == base+at {
				hit = true
				deletesFail = op == "delete"
				return faultError
			}
			return faultNone
		}
		err := m.Set(ctx, k.set, k.key, v)
		f.onCall = nil
		if hit && err == nil && !deletesFail {
			c.Failf("set of %v reported success although a write to the wrapped store failed", k)
		}
		got, gerr := m.Get(ctx, k.set, k.key)
		m2, _ := blobstore.NewMaxSizeStore(f, limit)
		got2, gerr2 := m2.Get(ctx, k.set, k.key)
		if (gerr == nil) != (gerr2 == nil) || !bytes.Equal(got, got2) {
			c.Failf("after a failed set old and new instance disagree on %v: %v %v", k, gerr, gerr2)
		}
		if err == nil {
			if gerr != nil || !bytes.Equal(got, v) {
				c.Failf("set of %v succeeded, get returns %d bytes, %v", k, len(got), gerr)
			}
		} else if gerr == nil && !bytes.Equal(got, v) && (old == nil || !bytes.Equal(got, old)) {
			c.Known("torn-value-after-failed-overwrite", fmt.Sprintf("overwriting a %d byte value by %d bytes failed at the wrapped store; get then returns %d bytes that are neither", len(old), len(v), len(got)))
		}
	case 1:
		got, err := m.Get(ctx, k.set, k.key)
		if hit && err == nil {
			c.Failf("get of %v returned %d bytes although a read failed", k, len(got))
		}
		if hit && err == blobstore.ErrBlobNotFound {
			c.Failf("get of %v reports not found although a read failed", k)
		}
	case 2:
		err := m.Delete(ctx, k.set, k.key)
		if hit && err == nil {
			c.Failf("delete of %v reported success although the wrapped store failed", k)
		}
		f.onCall = nil
		if err := m.Delete(ctx, k.set, k.key); err != nil {
			c.Failf("second delete of %v: %v", k, err)
		}
		if _, err := m.Get(ctx, k.set, k.key); err != blobstore.ErrBlobNotFound {
			c.Failf("get of deleted %v: %v", k, err)
		}
	}
	if hit {
		c.Count("faults", 1)
	}
}

func partCollision(c *C, ctx context.Context) {
	m, err := blobstore.NewMaxSizeStore(newSpy(), 1024)
	if err != nil {
		c.Failf("%v", err)
	}
	_ = m.Set(ctx, "s", "key", make([]byte, 1500))
	_ = m.Set(ctx, "s", "key+0", []byte("other"))
	if v, err := m.Get(ctx, "s", "key"); err != nil || !bytes.Equal(v, make([]byte, 1500)) {
		c.Known("part-key-collision", fmt.Sprintf("a value stored under \"key+0\" overwrites the second part of \"key\": get returns %d bytes, %v", len(v), err))
	}
	c.NonTrivial()
	c.Sig("collision")
}

// --- C17 -----------------------------------------------------------------------

// scripted returns a fixed sequence of errors.
type scripted struct {
	mu    sync.Mutex
	errs  []error
	calls int
	val   []byte
	got   []byte
	block time.Duration
}

func (s *scripted) next(ctx context.Context) error {
	s.mu.Lock()
	n := s.calls
	s.calls++
	var err error
	if n < len(s.errs) {
		err = s.errs[n]
	}
	s.mu.Unlock()
	if err == errBlock {
		<-ctx.Done()
		return ctx.Err()
	}
	return err
}

var errBlock = errors.New("block until the attempt times out")

func (s *scripted) Get(ctx context.Context, set, key string) ([]byte, error) {
	if err := s.next(ctx); err != nil {
		// What comes with an error is not part of the value.
		return []byte("part"), err
	}
	return append([]byte{}, s.val...), nil
}
func (s *scripted) Set(ctx context.Context, set, key string, b []byte) error {
	err := s.next(ctx)
	if err == nil {
		s.got = append([]byte{}, b...)
	}
	return err
}
func (s *scripted) Delete(ctx context.Context, set, key string) error { return s.next(ctx) }

// countdown is a backoff that allows n retries.
type countdown struct{ n int }

func (b *countdown) NextBackOff() time.Duration {
	if b.n <= 0 {
		return backoff.Stop
	}
	b.n--
	return time.Microsecond
}
func (b *countdown) Reset() {}

func runC17(c *C) {
	r := c.Rng
	bg := quiet(c.Ctx)
	errP1, errP2 := fmt.Errorf("perm one"), fmt.Errorf("perm two")
	transient := []error{errTransient, errInjected, context.DeadlineExceeded, errors.New("other")}
	for round := 0; round < 30; round++ {
		// configuration
		budget := r.Intn(8)
		mk := func() backoff.BackOff { return &countdown{budget} }
		opts := []blobstore.RetryStoreOption{blobstore.WithRetryOpt.Backoff(mk, mk, mk)}
		perm := map[error]bool{blobstore.ErrBlobNotFound: true, blobstore.ErrBlobTooBig: true, context.Canceled: true}
		if r.Intn(2) == 0 {
			opts = append(opts, blobstore.WithRetryOpt.PermanentErr(errP1))
			perm[errP1] = true
		}
		if r.Intn(2) == 0 {
			opts = append(opts, blobstore.WithRetryOpt.PermanentErr(errP2, nil))
			perm[errP2] = true
		}
		timeout := time.Duration(0)
		if r.Intn(2) == 0 {
			timeout = time.Millisecond
		}
		if timeout > 0 || r.Intn(2) == 0 {
			opts = append(opts, blobstore.WithRetryOpt.OpTimeout(timeout))
		} else {
			timeout = time.Second
		}
		r.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
		// script
		var errs []error
		for i := r.Intn(7); i > 0; i-- {
			var e error
			switch r.Intn(8) {
			case 0:
				e = pick(r, []error{blobstore.ErrBlobNotFound, blobstore.ErrBlobTooBig, context.Canceled})
			case 1:
				e = errP1
			case 2:
				e = errP2
			case 3:
				if timeout == time.Millisecond {
					e = errBlock
				} else {
					e = errTransient
				}
			default:
				e = pick(r, transient)
			}
			errs = append(errs, e)
		}
		sc := &scripted{errs: errs, val: randBytes(r, 1+r.Intn(50))}
		rs, err := blobstore.NewRetryStore(sc, opts...)
		if err != nil {
			c.Failf("NewRetryStore: %v", err)
		}
		// expectation
		wantCalls, wantErr := 0, error(nil)
		left := budget
		for {
			e := error(nil)
			if wantCalls < len(errs) {
				e = errs[wantCalls]
			}
			wantCalls++
			if e == errBlock {
				e = context.DeadlineExceeded
			}
			wantErr = e
			if e == nil || perm[e] || left == 0 {
				break
			}
			left--
		}
		c.Logf("round %d: script %v budget %d perm %d", round, errs, budget, len(perm))
		ctx := bg
		cancelAt := -1
		op := r.Intn(3)
		val := randBytes(r, 20)
		var got []byte
		switch op {
		case 0:
			got, err = rs.Get(ctx, "set", "key")
		case 1:
			err = rs.Set(ctx, "set", "key", val)
		case 2:
			err = rs.Delete(ctx, "set", "key")
		}
		_ = cancelAt
		if err != wantErr {
			c.Failf("op %d with script %v and %d retries returned %v, want %v", op, errs, budget, err, wantErr)
		}
		if sc.calls != wantCalls {
			c.Failf("op %d with script %v and %d retries made %d attempts, want %d", op, errs, budget, sc.calls, wantCalls)
		}
		if err == nil && op == 0 && !bytes.Equal(got, sc.val) {
			c.Failf("get returned %x, want %x", got, sc.val)
		}
		if err != nil && op == 0 && len(got) != 0 {
			c.Failf("failed get returned a value")
		}
		if err == nil && op == 1 && !bytes.Equal(sc.got, val) {
			c.Failf("set stored %x, want %x", sc.got, val)
		}
		c.Count("attempts", int64(sc.calls))
		if wantErr != nil {
			c.Count("final_errors", 1)
		} else if wantCalls > 1 {
			c.Count("retried_successes", 1)
		}
		c.Sig(errs, budget, op)

		// The caller's context ends while attempts keep failing.
		if round%5 == 0 {
			cctx, cancel := context.WithCancel(bg)
			n := 1 + r.Intn(5)
			cs := &cancelling{after: n, cancel: cancel}
			always := func() backoff.BackOff { return backoff.NewConstantBackOff(10 * time.Microsecond) }
			rs, _ := blobstore.NewRetryStore(cs, blobstore.WithRetryOpt.Backoff(always, always, always))
			switch r.Intn(3) {
			case 0:
				_, err = rs.Get(cctx, "set", "key")
			case 1:
				err = rs.Set(cctx, "set", "key", val)
			default:
				err = rs.Delete(cctx, "set", "key")
			}
			if err == nil || cs.calls != n {
				c.Failf("context ended at attempt %d: %d attempts, error %v", n, cs.calls, err)
			}
			c.Count("contexts_ended", 1)
			cancel()
		}
		// The caller's context ends while an attempt is running.
		if round%10 == 3 {
			type ctxKey struct{}
			cctx, cancel := context.WithCancel(context.WithValue(bg, ctxKey{}, round))
			hs := &hanging{started: make(chan struct{}, 10), value: ctxKey{}}
			always := func() backoff.BackOff { return backoff.NewConstantBackOff(10 * time.Microsecond) }
			rs, _ := blobstore.NewRetryStore(hs, blobstore.WithRetryOpt.Backoff(always, always, always), blobstore.WithRetryOpt.OpTimeout(pick(r, []time.Duration{0, time.Hour})))
			errC := make(chan error, 1)
			op := r.Intn(3)
			go func() {
				var err error
				switch op {
				case 0:
					_, err = rs.Get(cctx, "set", "key")
				case 1:
					err = rs.Set(cctx, "set", "key", val)
				default:
					err = rs.Delete(cctx, "set", "key")
				}
				errC <- err
			}()
			<-hs.started
			cancel()
			err := <-errC
			if hs.late.Load() > 0 {
				c.Failf("op %d: the attempt running when the caller's context ended was still running 20 s later", op)
			}
			if err == nil {
				c.Failf("op %d succeeded although its context ended before the attempt was done", op)
			}
			if hs.foreign.Load() > 0 {
				c.Failf("op %d: an attempt did not get the values of the caller's context", op)
			}
			c.Count("attempts_interrupted", 1)
		}
		// A plain store is not affected by how others were configured.
		plain := &scripted{errs: []error{errP1, errP2, errP1}, val: []byte("v")}
		bo := func() backoff.BackOff { return backoff.NewConstantBackOff(time.Microsecond) }
		ps, _ := blobstore.NewRetryStore(plain, blobstore.WithRetryOpt.Backoff(bo, nil, nil))
		if _, err := ps.Get(bg, "set", "key"); err != nil || plain.calls != 4 {
			c.Failf("a store without permanent errors gave up on %v after %d attempts: configuration of another store leaked", err, plain.calls)
		}
		c.Tick()
	}
	// Errors stay private when the permanent list is set on unrelated stores.
	c.NonTrivial()
	c.Sample("30 scripts")
}

// cancelling cancels the caller's context during its n-th attempt.
type cancelling struct {
	after, calls int
	cancel       func()
}

func (s *cancelling) do() error {
	s.calls++
	if s.calls == s.after {
		s.cancel()
	}
	return errTransient
}
func (s *cancelling) Get(ctx context.Context, set, key string) ([]byte, error) { return nil, s.do() }
func (s *cancelling) Set(ctx context.Context, set, key string, b []byte) error { return s.do() }
func (s *cancelling) Delete(ctx context.Context, set, key string) error        { return s.do() }

// hanging blocks every attempt until its context ends.
type hanging struct {
	started       chan struct{}
	value         interface{}
	late, foreign atomic.Int64
}

func (h *hanging) do(ctx context.Context) error {
	if ctx.Value(h.value) == nil {
		h.foreign.Add(1)
	}
	select {
	case h.started <- struct{}{}:
	default:
	}
	select {
	case <-ctx.Done():
		return ctx.Err()
	case <-time.After(20 * time.Second):
		h.late.Add(1)
		return blobstore.ErrBlobTooBig
	}
}
func (h *hanging) Get(ctx context.Context, set, key string) ([]byte, error) {
	return nil, h.do(ctx)
}
func (h *hanging) Set(ctx context.Context, set, key string, b []byte) error { return h.do(ctx) }
func (h *hanging) Delete(ctx context.Context, set, key string) error        { return h.do(ctx) }
