package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// The real server binary, built race instrumented beside the harness.
func srvBinary() string { return filepath.Join(filepath.Dir(selfExe()), "rankdb-srv") }

// srvCfg is the configuration of one server process.
type srvCfg struct {
	storage      string // Memory, BoltDB, Badger, Aerospike
	aero         *fakeAero
	aeroBlock    int
	dir          string // for storage files and the config
	lazy         bool
	lazyTime     string
	lazyLimit    int
	lazyFlush    int
	lazySavers   int
	retry        bool
	cacheEntries int
	cacheType    string
	maxUpdates   int
	jwtKeys      string
	saveEvery    string
	pruneEvery   string
	backupEvery  int
	debug        bool
	reqWait      string
	stageWait    string
	slowIO       bool
	s3           string // endpoint of an object storage
}

func (s srvCfg) toml(addr string) string {
	def := func(v, d string) string {
		if v == "" {
			return d
		}
		return v
	}
	var b strings.Builder
	p := func(f string, a ...interface{}) { fmt.Fprintf(&b, f+"\n", a...) }
	p("ListenAddress = %q", addr)
	p("MasterSet = %q", "rankdb")
	p("Storage = %q", s.storage)
	p("CacheEntries = %d", s.cacheEntries)
	p("CacheType = %q", s.cacheType)
	p("SaveEvery = %q", def(s.saveEvery, "1h"))
	p("PruneEvery = %q", def(s.pruneEvery, "1h"))
	p("MaxUpdates = %d", s.maxUpdates)
	p("JwtKeyPath = %q", s.jwtKeys)
	p("ShutdownStageWait = %q", def(s.stageWait, "60s"))
	p("ShutdownRequestWait = %q", def(s.reqWait, "60s"))
	p("Debug = %v", s.debug)
	p("LogInfo = false")
	p("ReadTimeout = \"10m\"\nReadHeaderTimeout = \"60s\"\nWriteTimeout = \"10m\"\nIdleTimeout = \"10m\"")
	if s.backupEvery > 0 {
		p("BackupStorage = \"Master\"\nBackupSet = \"rankdb-backup\"\nBackupEvery = %d", s.backupEvery)
	}
	p("[Badger]\nPath = %q\nNoSync = true", filepath.Join(s.dir, "badger"))
	p("[BoltDB]\nFilePath = %q\nNoSync = true\nNoGrowSync = false", filepath.Join(s.dir, "rankdb.bolt"))
	if s.aero != nil {
		p("[Aerospike]\nHosts = %q\nNamespace = \"test\"\nWriteBlockSize = %d", s.aero.l.Addr(), s.aeroBlock)
	}
	p("[LazySaver]\nEnabled = %v\nMaxTime = %q\nLimitItems = %d\nFlushAtItems = %d\nSavers = %d\nSaveTimeout = \"1m\"", s.lazy, def(s.lazyTime, "10s"), s.lazyLimit, s.lazyFlush, s.lazySavers)
	if s.s3 != "" {
		p("[AWS]\nEnabled = true\nRegion = \"us-east-1\"\nS3Endpoint = %q\nAccessKey = \"key\"\nSecretKey = \"secret\"", s.s3)
	}
	p("[StorageRetry]\nEnabled = %v", s.retry)
	return b.String()
}

func (s srvCfg) String() string {
	st := s.storage
	if s.aero != nil {
		st += fmt.Sprintf("/%d", s.aeroBlock)
	}
	return fmt.Sprintf("storage %s lazy %v(%s/%d/%d/%d) retry %v cache %s/%d maxupdates %d save %q prune %q backup %d", st, s.lazy, s.lazyTime, s.lazyLimit, s.lazyFlush, s.lazySavers, s.retry, s.cacheType, s.cacheEntries, s.maxUpdates, s.saveEvery, s.pruneEvery, s.backupEvery)
}

// srv is a running server process.
type srv struct {
	c      *C
	cfg    srvCfg
	cmd    *exec.Cmd
	addr   string
	base   string
	errOut string
	done   chan struct{}
	werr   error
	cl     *http.Client
	tr     *http.Transport
	auth   string // Authorization header
	reqs   int64
	mixed  bool // requests and answers in msgpack or JSON at random
	encCtr uint64
	ended  bool
	mu     sync.Mutex
	seen   []string // unexpected statuses, reported on the case goroutine
}

var srvPort int64

func freeAddr(c *C) string {
	pid := os.Getpid()
	ip := fmt.Sprintf("127.%d.%d.%d", 1+(pid>>14)&127, (pid>>7)&127, 1+pid&127)
	for i := 0; i < 2000; i++ {
		port := 20000 + (int(atomic.AddInt64(&srvPort, 1))+pid*7)%20000
		addr := fmt.Sprintf("%s:%d", ip, port)
		l, err := net.Listen("tcp", addr)
		if err != nil {
			continue
		}
		l.Close()
		return addr
	}
	panic("no free address")
}

// startSrv starts a server and waits until it answers.
func startSrv(c *C, cfg srvCfg) *srv {
	for try := 0; ; try++ {
		s, err := tryStartSrv(c, cfg)
		if err == nil {
			return s
		}
		if try < 3 && strings.Contains(err.Error(), "address already in use") {
			continue
		}
		c.Failf("the server does not start with %v: %v", cfg, err)
	}
}

func tryStartSrv(c *C, cfg srvCfg) (*srv, error) {
	if cfg.dir == "" {
		cfg.dir = c.TempDir()
	}
	s := &srv{c: c, cfg: cfg, addr: freeAddr(c), done: make(chan struct{})}
	s.base = "http://" + s.addr
	conf := filepath.Join(cfg.dir, "conf.toml")
	if err := os.WriteFile(conf, []byte(cfg.toml(s.addr)), 0o644); err != nil {
		panic(err)
	}
	out, err := os.CreateTemp(cfg.dir, "server-*.log")
	if err != nil {
		panic(err)
	}
	s.errOut = out.Name()
	s.cmd = exec.Command(srvBinary(), "-config", conf)
	s.cmd.Dir = cfg.dir
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "GORACE=") && !strings.HasPrefix(e, "GOTRACEBACK=") {
			s.cmd.Env = append(s.cmd.Env, e)
		}
	}
	s.cmd.Env = append(s.cmd.Env, "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 history_size=3", "GOTRACEBACK=all", "GOMAXPROCS=4")
	s.cmd.Stdout, s.cmd.Stderr = out, out
	s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	err = s.cmd.Start()
	out.Close()
	if err != nil {
		panic(fmt.Sprintf("cannot start %s: %v", srvBinary(), err))
	}
	go func() {
		s.werr = s.cmd.Wait()
		close(s.done)
	}()
	s.tr = &http.Transport{MaxIdleConnsPerHost: 64, DisableKeepAlives: false}
	s.cl = &http.Client{Transport: s.tr, Timeout: 120 * time.Second, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
	c.Cleanup(func() { s.kill() })
	deadline := time.Now().Add(120 * time.Second)
	for {
		select {
		case <-s.done:
			s.ended = true
			return nil, fmt.Errorf("exited with %v: %s", s.werr, s.logTail(6000))
		default:
		}
		cn, err := net.DialTimeout("tcp", s.addr, time.Second)
		if err == nil {
			cn.Close()
			break
		}
		if time.Now().After(deadline) {
			d := s.dump()
			return nil, fmt.Errorf("not listening after 120 s: %s", d)
		}
		time.Sleep(4 * time.Millisecond)
		c.Tick()
	}
	c.Count("server_starts", 1)
	c.Count("server_starts_"+cfg.storage, 1)
	return s, nil
}

func (s *srv) log() string {
	b, _ := os.ReadFile(s.errOut)
	return string(b)
}

func (s *srv) logTail(n int) string {
	var ls []string
	for _, l := range strings.Split(s.log(), "\n") {
		if !strings.HasPrefix(l, "level=info") {
			ls = append(ls, l)
		}
	}
	t := strings.Join(ls, "\n")
	if len(t) > n {
		// A crash is described at its start.
		i := strings.Index(t, "panic: ")
		if j := strings.Index(t, "fatal error: "); i < 0 || j >= 0 && j < i {
			i = j
		}
		if i >= 0 && len(t)-i > n {
			return t[i : i+n]
		}
		return "..." + t[len(t)-n:]
	}
	return t
}

// dump makes the server print its goroutines and end.
func (s *srv) dump() string {
	before := len(s.log())
	s.cmd.Process.Signal(syscall.SIGQUIT)
	select {
	case <-s.done:
	case <-time.After(10 * time.Second):
	}
	t := s.log()
	if len(t) > before {
		t = t[before:]
	}
	// Only goroutines inside the code under test.
	var keep []string
	for _, b := range strings.Split(t, "\n\n") {
		if hasTarget(b) {
			keep = append(keep, b)
		}
	}
	t = strings.Join(keep, "\n\n")
	if len(t) > 12000 {
		t = t[:12000]
	}
	return t
}

func (s *srv) kill() {
	if s == nil || s.cmd == nil || s.cmd.Process == nil {
		return
	}
	select {
	case <-s.done:
	default:
		s.cmd.Process.Kill()
		<-s.done
	}
	s.ended = true
	s.tr.CloseIdleConnections()
}

// checkLog looks for reports of the race detector and crashes.
func (s *srv) checkLog() {
	t := s.log()
	tr, other := parseRaces(s.errOut)
	if other > 0 {
		s.c.Count("races_outside_target", int64(other))
	}
	if len(tr) > 0 {
		s.c.Failf("data race in the server: %s", tr[0].text)
	}
	if strings.Contains(t, "fatal error: ") || strings.Contains(t, "\npanic: ") {
		if s.ended {
			s.c.Failf("the server crashed: %s", s.logTail(8000))
		}
	}
}

// stop asks the server to shut down and waits for it.
func (s *srv) stop() {
	s.signal(syscall.SIGTERM)
	s.wait()
	s.checkLog()
}

func (s *srv) signal(sig syscall.Signal) { s.cmd.Process.Signal(sig) }

func (s *srv) wait() {
	t0 := time.Now()
	for {
		select {
		case <-s.done:
			s.ended = true
			s.tr.CloseIdleConnections()
			if s.werr != nil {
				s.c.Failf("the server ended with %v on shutdown: %s", s.werr, s.logTail(8000))
			}
			return
		case <-time.After(100 * time.Millisecond):
			s.c.Tick()
		}
		if time.Since(t0) > 200*time.Second {
			s.c.Failf("the server does not shut down: %s", s.dump())
		}
	}
}

// finish ends a case: the server must still be alive and is shut down.
func (s *srv) finish() {
	s.alive()
	s.checkLog()
	s.stop()
	if f := s.cfg.aero; f != nil && s.cfg.storage == "Aerospike" {
		f.mu.Lock()
		s.c.Count("aerospike_writes", int64(f.calls["put"]))
		s.c.Count("aerospike_requests_refused", int64(f.refused))
		f.mu.Unlock()
	}
}

func (s *srv) alive() {
	select {
	case <-s.done:
		s.ended = true
		s.c.Failf("the server crashed: %v: %s", s.werr, s.logTail(10000))
	default:
	}
}

// resp is an answer of the server. err is set if there was none.
type resp struct {
	code int
	body []byte
	hdr  http.Header
	err  error
}

func (r resp) String() string {
	if r.err != nil {
		return "no answer: " + r.err.Error()
	}
	b := string(r.body)
	if len(b) > 300 {
		b = b[:300] + "..."
	}
	return fmt.Sprintf("%d %s", r.code, strings.TrimSpace(b))
}

func (r resp) json(c *C, what string, v interface{}) {
	if err := json.Unmarshal(r.body, v); err != nil {
		c.Failf("%s: answer cannot be decoded: %v: %s", what, err, r)
	}
}

// try sends a request. Safe for concurrent use; never aborts the case.
func (s *srv) try(ctx context.Context, method, path, auth string, body interface{}) resp {
	var rd io.Reader
	switch b := body.(type) {
	case nil:
	case string:
		rd = strings.NewReader(b)
	case []byte:
		rd = bytes.NewReader(b)
	case io.Reader:
		rd = b
	default:
		j, err := json.Marshal(b)
		if err != nil {
			panic(err)
		}
		rd = bytes.NewReader(j)
	}
	ctype, accept := "application/json", ""
	if s.mixed {
		rd, ctype, accept = s.mixedEncoding(rd)
	}
	req, err := http.NewRequestWithContext(ctx, method, s.base+path, rd)
	if err != nil {
		return resp{err: err}
	}
	if rd != nil {
		req.Header.Set("Content-Type", ctype)
	}
	if accept != "" {
		req.Header.Set("Accept", accept)
	}
	if auth != "" {
		req.Header.Set("Authorization", auth)
	}
	atomic.AddInt64(&s.reqs, 1)
	s.c.Tick()
	res, err := s.cl.Do(req)
	s.c.Tick()
	if err != nil {
		return resp{err: err}
	}
	defer res.Body.Close()
	b, err := io.ReadAll(res.Body)
	s.c.Tick()
	if s.mixed && err == nil {
		b = s.decodeAnswer(method+" "+path, accept, res, b)
	}
	return resp{code: res.StatusCode, body: b, hdr: res.Header, err: err}
}

// do sends a request that must be answered.
func (s *srv) do(method, path string, body interface{}) resp {
	r := s.try(context.Background(), method, path, s.auth, body)
	s.c.Logf("%s %s %s -> %s", method, path, bodyText(body), r)
	s.answered(method+" "+path, body, r)
	return r
}

func bodyText(body interface{}) string {
	switch b := body.(type) {
	case nil:
		return ""
	case string:
		if len(b) > 200 {
			return b[:200]
		}
		return b
	case []byte:
		return fmt.Sprintf("<%d bytes>", len(b))
	case io.Reader:
		return "<stream>"
	}
	j, _ := json.Marshal(body)
	if len(j) > 300 {
		return string(j[:300]) + "..."
	}
	return string(j)
}

// answered reports requests without an answer and internal errors.
func (s *srv) answered(what string, body interface{}, r resp) {
	if r.err != nil {
		time.Sleep(50 * time.Millisecond)
		s.alive()
		var ne net.Error
		if errors.As(r.err, &ne) && ne.Timeout() {
			s.c.Failf("%s %s: no answer within 120 s; goroutines of the server:\n%s", what, bodyText(body), s.dump())
		}
		s.c.Failf("%s %s: no answer: %v", what, bodyText(body), r.err)
	}
	if r.code >= 500 {
		s.c.Failf("%s %s: internal error: %s; server log: %s", what, bodyText(body), r, s.logTail(5000))
	}
}

func (s *srv) expect(code int, method, path string, body interface{}) resp {
	r := s.do(method, path, body)
	if r.code != code {
		s.c.Failf("%s %s %s: got %s, want status %d", method, path, bodyText(body), r, code)
	}
	return r
}

// clientError expects a 4xx answer.
func (s *srv) clientError(method, path string, body interface{}) resp {
	r := s.do(method, path, body)
	if r.code < 400 || r.code > 499 {
		s.c.Failf("%s %s %s: got %s, want a client error", method, path, bodyText(body), r)
	}
	return r
}

func esc(s string) string { return url.PathEscape(s) }
