package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/backup"
	"github.com/Vivino/rankdb/backup/file"
	"github.com/Vivino/rankdb/backup/reader"
	"github.com/Vivino/rankdb/backup/s3"
	"github.com/Vivino/rankdb/blobstore"
	"github.com/aws/aws-sdk-go/aws"
	"github.com/aws/aws-sdk-go/aws/credentials"
	"github.com/aws/aws-sdk-go/aws/session"
)

func init() {
	register(&Check{ID: "C35", Quick: 220, Thorough: 3000, Run: runC35, StallSecs: 150,
		Rule:   "library cases run list operations with cancelled and expiring contexts on a failing, slow store, services, lazy savers, directory loads, backup jobs to failing, closing and abandoned destinations and restores of cut streams, then compare the goroutines, locks, open files and unclosed sources and destinations with those before; every 20th case does the same with two servers exchanging backups, clients that leave within requests, answers and transfers, and sources that refuse: when idle, the goroutines and files of the servers must be those they had after starting",
		Assume: []string{"idle HTTP connections kept for reuse and idle internals of badger and the Aerospike client are no remains of work"}})
}

// lingering returns the goroutines of a dump that belong to work of the code
// under test, by goroutine ID.
func lingering(gs []gor) map[string]gor {
	out := map[string]gor{}
	for _, g := range gs {
		b := g.body
		switch {
		case strings.Contains(b, "main.watchdog"), strings.Contains(b, "main.dumpGoroutines"), strings.Contains(b, "net/http/pprof"), strings.Contains(b, "runtime/pprof.writeGoroutineStacks"):
			continue
		case strings.Contains(b, "dgraph-io/badger") && !hasTarget(b), strings.Contains(b, "aerospike") && !hasTarget(b):
			continue
		case strings.Contains(b, "main.runCase(") && !hasTarget(b):
			continue
		case strings.Contains(b, ".VerifyUnlocked.func") && g.state == "sleep":
			// The timer of the verification that is meant for tests.
			continue
		}
		keep := hasTarget(b)
		for _, x := range []string{"klauspost/compress/", "klauspost/readahead", "aws-sdk-go", "io.(*pipe)", "net/http.(*body)", "mime/multipart"} {
			keep = keep || strings.Contains(b, x)
		}
		// A connection whose answer nobody reads; idle ones wait for input.
		if strings.Contains(b, "net/http.(*persistConn).readLoop") && g.state != "IO wait" {
			keep = true
		}
		if keep {
			out[g.id] = g
		}
	}
	return out
}

// parseDump splits the text of a goroutine dump.
func parseDump(t string) (out []gor) {
	for _, blk := range strings.Split(t, "\n\n") {
		blk = strings.TrimSpace(blk)
		nl := strings.IndexByte(blk, '\n')
		if !strings.HasPrefix(blk, "goroutine ") || nl < 0 {
			continue
		}
		head := strings.TrimPrefix(blk[:nl], "goroutine ")
		sp := strings.IndexByte(head, ' ')
		st := strings.Trim(head[sp+1:], "[]:")
		if i := strings.IndexByte(st, ','); i >= 0 {
			st = st[:i]
		}
		out = append(out, gor{id: head[:sp], state: st, body: blk[nl+1:]})
	}
	return
}

// remains waits until nothing new is left. It gives up, returning what is left,
// when that has not changed at all for a while.
func remains(c *C, base map[string]gor, get func() map[string]gor, files func() []string) string {
	var last string
	var since time.Time
	for n := 0; ; n++ {
		var ids []string
		now := get()
		for id := range now {
			if _, ok := base[id]; !ok {
				ids = append(ids, id)
			}
		}
		sort.Strings(ids)
		fs := files()
		if len(ids) == 0 && len(fs) == 0 {
			return ""
		}
		key := strings.Join(fs, ",")
		var sb strings.Builder
		for _, f := range fs {
			fmt.Fprintf(&sb, "open: %s\n", f)
		}
		for _, id := range ids {
			key += id + now[id].state + ";"
			fmt.Fprintf(&sb, "goroutine %s [%s]\n%s\n\n", id, now[id].state, now[id].body)
		}
		if key != last {
			last, since = key, time.Now()
		}
		c.Tick()
		if time.Since(since) > 25*time.Second && n > 100 {
			t := sb.String()
			if len(t) > 9000 {
				t = t[:9000]
			}
			return t
		}
		d := time.Duration(n) * time.Millisecond
		if d > 100*time.Millisecond {
			d = 100 * time.Millisecond
		}
		time.Sleep(d)
	}
}

// openFiles returns the open files of a process below dir.
func openFiles(pid int, dir string, skip ...string) (out []string) {
	p := fmt.Sprintf("/proc/%d/fd", pid)
	es, err := os.ReadDir(p)
	if err != nil {
		return nil
	}
next:
	for _, e := range es {
		t, err := os.Readlink(filepath.Join(p, e.Name()))
		if err != nil || !strings.HasPrefix(t, dir) {
			continue
		}
		for _, s := range skip {
			if strings.Contains(t, s) {
				continue next
			}
		}
		out = append(out, t)
	}
	sort.Strings(out)
	return
}

func runC35(c *C) {
	if c.Idx%20 == 7 {
		leftServers(c)
		return
	}
	leftLibrary(c)
}

// trackedSource is a source of a restore that may fail and notes being closed.
type trackedSource struct {
	io.Reader
	closed int32
}

func (t *trackedSource) Close() error { atomic.AddInt32(&t.closed, 1); return nil }

func leftLibrary(c *C) {
	r := c.Rng
	ctx := quiet(c.Ctx)
	dir := c.TempDir()
	get := func() map[string]gor { return lingering(dumpGoroutines()) }
	base := get()
	var kinds []string
	did := func(k string) { kinds = append(kinds, k); c.Count("did_"+k, 1) }
	sources := newSources()
	defer sources.hs.Close()
	defer sources.s3.hs.Close()
	s := newSim(c)
	if s.split > 200 {
		s.merge, s.split = 4, 10
	}
	s.create(10 + r.Intn(120))
	s.mod.list()
	for n := 2 + r.Intn(4); n > 0; n-- {
		switch r.Intn(7) {
		case 0, 1: // operations that are given up or fail
			did("operations")
			st := &ctxStore{spy: s.spy, seed: uint64(r.Int63()), max: time.Duration(50+r.Intn(300)) * time.Microsecond}
			if r.Intn(2) == 0 {
				seed := r.Uint64()
				s.spy.onCall = func(n int64, op, set, key string) faultMode {
					x := seed + uint64(n)*0x9E3779B97F4A7C15
					x ^= x >> 29
					x *= 0xBF58476D1CE4E5B9
					x ^= x >> 32
					if x%12 == 0 {
						return faultError
					}
					return faultNone
				}
			}
			var wg sync.WaitGroup
			for i := 0; i < 4; i++ {
				v := *s
				v.r, v.mod, v.bs = rand.New(rand.NewSource(r.Int63())), s.mod.clone(), st
				v.g = newElemGen(v.r)
				v.mod.list()
				wg.Add(1)
				go c.guard(func() {
					defer wg.Done()
					for k := 0; k < 12; k++ {
						cctx, cancel := context.WithTimeout(ctx, time.Duration(v.r.Int63n(int64(6*st.max))))
						switch v.r.Intn(6) {
						case 0:
							v.l.UpdateElements(cctx, st, cps(v.batch(1+v.r.Intn(6))), v.r.Intn(2), v.r.Intn(2) == 0)
						case 1:
							v.l.DeleteElements(cctx, st, v.randIDs(3))
						case 2:
							switch v.r.Intn(4) {
							case 0:
								v.l.Repair(cctx, st, false)
							case 1:
								v.l.Reindex(cctx, st)
							case 2:
								v.l.Insert(cctx, st, cps(v.batch(1+v.r.Intn(20))))
							default:
								v.l.ReleaseSegments(cctx)
							}
						default:
							v.readOnce(cctx, false)
						}
						cancel()
						c.Count("given_up_calls", 1)
						c.Tick()
					}
				})
			}
			wg.Wait()
			c.CheckAsync()
			s.spy.onCall = nil
			checkUnlocked(c, ctx, s.l, "after calls that were given up or failed")
			if err := s.l.Repair(ctx, s.bs, true); err != nil {
				c.Failf("repair after failed calls: %v", err)
			}
			// The list is whatever it is now.
			es, err := s.l.GetRankTop(ctx, s.bs, 0, 100000)
			if err != nil && err != rankdb.ErrOffsetOutOfBounds {
				c.Failf("reading the list after a repair: %v", err)
			}
			s.mod = newModel()
			for _, e := range es {
				s.mod.put(e)
			}
			for len(s.mod.list()) < 5 {
				s.update(s.batch(5), 0, false)
			}
		case 2: // lazy saver
			did("lazy")
			inner := newSpy()
			inner.delay = jitter(r.Int63(), 30, time.Duration(1+r.Intn(2000))*time.Microsecond)
			if r.Intn(2) == 0 {
				inner.onCall = func(n int64, op, _, _ string) faultMode {
					if op == "set" && n%3 == 0 {
						return faultError
					}
					return faultNone
				}
			}
			o := blobstore.WithLazySaveOption
			lim := 1 + r.Intn(8)
			l, err := blobstore.NewLazySaver(inner, o.Logger(nullLog{}), o.Items(lim, 1+r.Intn(lim)), o.MaxTime(time.Duration(1+r.Intn(50))*time.Millisecond), o.Savers(1+r.Intn(4)), o.SaveTimeout(time.Minute))
			if err != nil {
				c.Failf("NewLazySaver: %v", err)
			}
			var wg sync.WaitGroup
			for i := 0; i < 3; i++ {
				wg.Add(1)
				go func(rr *rand.Rand) {
					defer wg.Done()
					for k := 0; k < 15; k++ {
						cctx, cancel := context.WithTimeout(ctx, time.Duration(rr.Intn(3000))*time.Microsecond)
						key := fmt.Sprint(rr.Intn(10))
						switch rr.Intn(4) {
						case 0:
							l.Get(cctx, "s", key)
						case 1:
							l.Delete(cctx, "s", key)
						default:
							l.Set(cctx, "s", key, []byte(key))
						}
						cancel()
						c.Tick()
					}
				}(rand.New(rand.NewSource(r.Int63())))
			}
			if r.Intn(2) == 0 {
				wg.Wait()
			}
			l.Shutdown()
			wg.Wait()
		case 3: // directory and services
			did("services")
			if err := s.mgr.SaveLists(ctx, false); err != nil {
				c.Failf("SaveLists: %v", err)
			}
			good, _ := s.spy.raw(s.mgr.Set, "lists")
			sp := s.spy.fork()
			if r.Intn(2) == 0 {
				sp.put(s.mgr.Set, "lists", append([]byte{}, good[:r.Intn(len(good))]...))
			}
			m, err := rankdb.NewManager(sp, s.mgr.Set)
			if err != nil {
				c.Failf("NewManager: %v", err)
			}
			if m.LoadLists(ctx, nil) != nil {
				m.NewLists(nil)
			}
			var chs []chan chan struct{}
			for i := 0; i < 3; i++ {
				chs = append(chs, make(chan chan struct{}))
			}
			m.StartIntervalSaver(ctx, time.Duration(1+r.Intn(5))*time.Millisecond, chs[0])
			m.StartListPruner(ctx, time.Duration(r.Intn(3))*time.Millisecond, chs[1])
			m.StartListSplitter(ctx, sp, chs[2])
			time.Sleep(time.Duration(r.Intn(8)) * time.Millisecond)
			for _, i := range r.Perm(3) {
				stopService(c, chs[i])
			}
		case 4, 5: // backup jobs
			leftJob(c, s, ctx, dir, did, sources)
		case 6: // failing restores
			did("restores")
			data := jobBytes(c, s, ctx)
			for i := 0; i < 6; i++ {
				src := &trackedSource{Reader: bytes.NewReader(data[:r.Intn(len(data)+1)])}
				switch r.Intn(4) {
				case 0:
					src.Reader = bytes.NewReader(randBytes(r, 200))
				case 1:
					src.Reader = failingReader{src.Reader}
				}
				m := newMgr(c, newSpy(), nil)
				ri := backup.RestoreInfo{Source: backup.WrapReader{ReadCloser: src}, DB: m, Replace: true}
				_, err := ri.Restore(ctx)
				if n := atomic.LoadInt32(&src.closed); n == 0 {
					c.Failf("a restore (%v) did not close its source", err)
				}
				c.Count("sources_closed", 1)
			}
			tr := &http.Transport{}
			for i := 0; i < 4; i++ {
				path := pick(r, []string{"/good", "/bad", "/cut", "/hang-up"})
				ri := backup.RestoreInfo{Source: backup.HTTPLoader{URL: sources.hs.URL + path, Client: &http.Client{Transport: tr}}, DB: newMgr(c, newSpy(), nil), Replace: true}
				if r.Intn(2) == 0 {
					path = pick(r, []string{"good", "long", "bad", "none", "garbage"})
					ri.Source = s3.New(path, "b", s3Session(c, sources.s3, tr))
				}
				sources.set(data)
				_, err := ri.Restore(ctx)
				if strings.HasSuffix(path, "good") != (err == nil) && path != "long" {
					c.Failf("restore of %s: %v", path, err)
				}
				c.Count("remote_sources", 1)
			}
			// Connections that are still used do not count as idle.
			tr.CloseIdleConnections()
		}
		c.Tick()
	}
	if t := remains(c, base, get, func() []string { return openFiles(os.Getpid(), dir) }); t != "" {
		c.Failf("after %v nothing should be left, but for 25 s there is:\n%s", kinds, t)
	}
	checkUnlocked(c, ctx, s.l, "at the end")
	c.Count("idle_compared", 1)
	c.NonTrivial()
	sort.Strings(kinds)
	c.Sig(kinds, c.Idx)
	c.Sample("%v: nothing left", kinds)
}

// remoteSources are servers that restores read from.
type remoteSources struct {
	mu   sync.Mutex
	data []byte
	hs   *httptest.Server
	s3   *fakeS3
}

func (s *remoteSources) set(data []byte) {
	s.mu.Lock()
	s.data = data
	s.mu.Unlock()
	s.s3.put("/b/good", data)
	// More than is read before the end of the backup is seen.
	s.s3.put("/b/long", append(append([]byte{}, data...), make([]byte, 8<<20)...))
	s.s3.put("/b/garbage", bytes.Repeat([]byte("garbage"), 1<<20))
	s.s3.mu.Lock()
	s.s3.fails["/b/bad"] = 403
	s.s3.mu.Unlock()
}

func newSources() *remoteSources {
	s := &remoteSources{s3: newFakeS3()}
	s.hs = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		s.mu.Lock()
		data := s.data
		s.mu.Unlock()
		switch q.URL.Path {
		case "/bad", "/refuse":
			w.WriteHeader(500)
			w.Write(bytes.Repeat([]byte("no"), 5000))
		case "/cut":
			w.Write(data[:len(data)/2])
		case "/hang-up":
			w.Header().Set("Content-Length", fmt.Sprint(len(data)+100))
			w.Write(data[:len(data)/2])
		default:
			w.Write(data)
		}
	}))
	return s
}

func s3Session(c *C, f *fakeS3, tr *http.Transport) *session.Session {
	ses, err := session.NewSession(&aws.Config{Endpoint: aws.String(f.hs.URL), S3ForcePathStyle: aws.Bool(true), Region: aws.String("us-east-1"), Credentials: credentials.NewStaticCredentials("key", "secret", ""), MaxRetries: aws.Int(0), HTTPClient: &http.Client{Transport: tr}})
	if err != nil {
		panic(err)
	}
	return ses
}

func jobBytes(c *C, s *sim, ctx context.Context) []byte {
	dst := &memSaver{failAt: -1}
	req := backup.Request{DB: s.mgr, Dst: dst, Lists: rankdb.ListIDs{s.id}}
	waitJob(c, req.Start(ctx))
	return append([]byte{}, dst.buf.Bytes()...)
}

func waitJob(c *C, id backup.ID) *backup.Status {
	for t0 := time.Now(); ; {
		st := id.Status()
		if st == nil {
			c.Failf("job %s is unknown", id)
		}
		if st.Done {
			return st
		}
		if time.Since(t0) > 100*time.Second {
			c.Failf("backup job does not end: %+v", st)
		}
		time.Sleep(200 * time.Microsecond)
	}
}

// leftJob runs a backup job that ends in some way.
func leftJob(c *C, s *sim, ctx context.Context, dir string, did func(string), src *remoteSources) {
	r := c.Rng
	ids := rankdb.ListIDs{s.id}
	if r.Intn(2) == 0 {
		ids = append(ids, "none")
	}
	kind := pick(r, []string{"mem", "write-error", "close-error", "save-error", "file", "no-file", "reader", "reader-abort", "reader-cut", "cancel", "list-error", "s3", "s3-early", "s3-reject"})
	did("job_" + kind)
	dst := &memSaver{failAt: -1}
	var sv backup.Saver = dst
	var errCh chan error
	var after func()
	switch kind {
	case "write-error":
		dst.failAt = r.Intn(100)
	case "close-error":
		dst.closeErr = errInjected
	case "save-error":
		dst.saveErr = errInjected
	case "file":
		sv = file.New(filepath.Join(dir, fmt.Sprint(r.Int63())))
	case "no-file":
		sv = file.New(filepath.Join(dir, "none", "x"))
	case "reader", "reader-abort", "reader-cut":
		rd := reader.NewReader()
		sv = rd
		n := r.Int63n(200)
		after = func() {
			switch kind {
			case "reader-abort":
				rd.Output().Close()
				return
			case "reader-cut":
				io.CopyN(io.Discard, rd.Output(), n)
			default:
				io.Copy(io.Discard, rd.Output())
			}
			rd.Output().Close()
		}
	case "s3", "s3-early", "s3-reject":
		tr := &http.Transport{}
		name := map[string]string{"s3": "fine", "s3-early": "early", "s3-reject": "reject"}[kind]
		f := s3.New(name, "b", s3Session(c, src.s3, tr))
		sv = f
		errCh = f.ResultErr
		defer tr.CloseIdleConnections()
	case "list-error":
		s.l.ReleaseSegments(ctx)
		s.spy.onCall = func(n int64, op, set, key string) faultMode {
			if op == "get" {
				return faultError
			}
			return faultNone
		}
		defer func() { s.spy.onCall = nil }()
	}
	req := backup.Request{DB: s.mgr, Dst: sv, Lists: ids, ErrCh: errCh}
	if kind == "cancel" {
		dst.delay = jitter(r.Int63(), 50, time.Millisecond)
	}
	id := req.Start(ctx)
	if kind == "cancel" {
		time.Sleep(time.Duration(r.Intn(1000)) * time.Microsecond)
		id.Cancel()
	}
	if after != nil {
		after()
	}
	if st := waitJob(c, id); errCh != nil && (st.Errors["delayed_error"] == "") != (kind == "s3") {
		c.Failf("errors of a job to %s: %v", kind, st.Errors)
	}
	if sv == backup.Saver(dst) && kind != "save-error" {
		dst.mu.Lock()
		n := dst.closed
		dst.mu.Unlock()
		if n != 1 {
			c.Failf("the destination of a backup (%s) was closed %d times", kind, n)
		}
		c.Count("destinations_closed", 1)
	}
}

// --- servers --------------------------------------------------------------

func (a *apiSim) goroutines() map[string]gor {
	x := a.s.do("GET", "/debug/pprof/goroutine?debug=2", nil)
	if x.code != 200 || !strings.Contains(string(x.body), "goroutine ") {
		a.c.Failf("goroutines of the server: %s", x)
	}
	return lingering(parseDump(string(x.body)))
}

// leaveWithin sends a part of a request, or a whole one whose answer is not
// waited for, and leaves.
func (a *apiSim) leaveWithin(streams [][]byte) {
	c, r := a.c, a.r
	type rq struct{ m, p, body string }
	list := "none"
	if len(a.lists) > 0 {
		list = a.anyList().id
	}
	es := fmt.Sprintf(`[{"id":%d,"score":%d,"payload":{"a":1}}]`, r.Intn(1000), r.Intn(1000))
	reqs := []rq{
		{"PUT", "/lists/" + esc(list) + "/elements", es},
		{"POST", "/lists/" + esc(list) + "/elements/find", `{"element_ids":[1,2,3]}`},
		{"GET", "/lists/" + esc(list) + "/range?from_top=0&limit=1000", ""},
		{"GET", "/lists?limit=1000", ""},
		{"PUT", "/xlist/verify?elements=true&repair=true", `{"all_in_sets":["set-a","set-b","set-c"]}`},
		{"PUT", "/xlist/reindex", `{"all_in_sets":["set-a","set-b","set-c"]}`},
		{"POST", "/xlist/restore?list_id_prefix=left-", string(streams[r.Intn(len(streams))])},
		{"PUT", "/xlist/backup", `{"lists":{},"destination":{"type":"download"}}`},
		{"PUT", "/lists/" + esc(list) + "/verify?elements=true", ""},
	}
	q := pick(r, reqs)
	head := fmt.Sprintf("%s %s HTTP/1.1\r\nHost: x\r\nContent-Type: application/json\r\nContent-Length: %d\r\n", q.m, q.p, len(q.body))
	if r.Intn(4) == 0 {
		head += "Expect: 100-continue\r\n"
	}
	all := head + "\r\n" + q.body
	n := len(all)
	if r.Intn(2) == 0 {
		n = 1 + r.Intn(len(all))
	}
	cn, err := net.DialTimeout("tcp", a.s.addr, 10*time.Second)
	if err != nil {
		c.Failf("cannot connect: %v", err)
	}
	cn.SetDeadline(time.Now().Add(20 * time.Second))
	cn.Write([]byte(all[:n]))
	switch r.Intn(4) {
	case 0:
		time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
	case 1:
		if n == len(all) {
			io.CopyN(io.Discard, cn, int64(1+r.Intn(200)))
		}
	case 2:
		cn.(*net.TCPConn).SetLinger(0)
	}
	cn.Close()
	c.Count("left_requests", 1)
	c.Tick()
}

func leftServers(c *C) {
	r := c.Rng
	bases := map[*apiSim]map[string]gor{}
	baseFiles := map[*apiSim]map[string]int{}
	skip := []string{"/badger/", "rankdb.bolt", ".log"}
	files := func(a *apiSim) []string { return openFiles(a.s.cmd.Process.Pid, scratchDir(), skip...) }
	c30Servers(c, 3+r.Intn(3), func(sims []*apiSim) {
		for _, a := range sims {
			bases[a] = a.goroutines()
			m := map[string]int{}
			for _, f := range files(a) {
				m[f]++
			}
			baseFiles[a] = m
		}
	}, func(sims []*apiSim) {
		c.Tick()
		data := a0stream(c, sims[0])
		streams := [][]byte{data, data[:len(data)/2], {}, []byte("x")}
		src := newSources()
		src.set(data)
		for _, a := range sims {
			for i := 0; i < 25; i++ {
				a.leaveWithin(streams)
			}
			if a.s3 != nil {
				a.s3.put("/b/long", append(append([]byte{}, data...), make([]byte, 8<<20)...))
				a.s3.put("/b/garbage", bytes.Repeat([]byte("garbage"), 1<<20))
				for _, p := range []string{"/long", "/garbage", "/none"} {
					a.s.do("POST", "/xlist/restore?list_id_prefix=bad-&src="+url.QueryEscape("s3://b"+p), "")
					c.Count("refused_sources", 1)
				}
			}
			for _, p := range []string{"/refuse", "/cut", "/hang-up"} {
				a.s.do("POST", "/xlist/restore?list_id_prefix=bad-&src="+url.QueryEscape(src.hs.URL+p), "")
				c.Count("refused_sources", 1)
			}
		}
		src.hs.Close()
		src.s3.hs.Close()
		for _, a := range sims {
			a := a
			a.s.tr.CloseIdleConnections()
			t := remains(c, bases[a], a.goroutines, func() (out []string) {
				m := map[string]int{}
				for _, f := range files(a) {
					if m[f]++; m[f] > baseFiles[a][f] {
						out = append(out, f)
					}
				}
				return
			})
			if t != "" {
				c.Failf("the server has been idle for 25 s, but still has:\n%s", t)
			}
			c.Count("servers_compared", 1)
			// The clients that left may have changed and created lists.
			a.lists = map[string]*apiList{}
			a.leaky = true
		}
	})
}

// a0stream is a backup of everything.
func a0stream(c *C, a *apiSim) []byte {
	x := a.s.expect(200, "PUT", "/xlist/backup", map[string]interface{}{"lists": map[string]interface{}{}, "destination": map[string]interface{}{"type": "download"}})
	if len(x.body) == 0 {
		c.Failf("empty backup")
	}
	return x.body
}
