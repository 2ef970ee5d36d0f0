package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// The HTTP part of C30: backups and restores through the real server.

// apiBackup is the status of a job as the server describes it.
type apiBackup struct {
	Cancelled bool              `json:"cancelled"`
	Done      bool              `json:"done"`
	Errors    map[string]string `json:"errors"`
	Finished  *time.Time        `json:"finished"`
	Lists     int               `json:"lists"`
	ListsDone int               `json:"lists_done"`
	Size      int64             `json:"size"`
	Storage   string            `json:"storage"`
	Started   time.Time         `json:"started"`
	URI       string            `json:"uri"`
}

// copyOf is the list as it is restored under another ID.
func (l *apiList) copyOf(id string) *apiList {
	n := *l
	n.id = id
	n.mod = l.mod.clone()
	return &n
}

// jobOf is a started job and what it was asked to do.
type jobOf struct {
	id, kind, file string
	sel            []string            // selected, may include lists that do not exist
	lists          map[string]*apiList // the existing ones as they were
	t0             time.Time
	last           apiBackup
	cancelled      bool
	dst            *apiSim // server jobs
	pre, suf       string
	refuse         bool   // the destination does not accept it
	s3             string // object the backup goes to
	gone           bool   // the client went away
}

// startJob starts a backup of a random selection. Returns nil if none was started.
// pending: other jobs may be running already.
func (a *apiSim) startJob(dir string, others []*apiSim, fake string, pending bool) (*jobOf, []byte) {
	c, r := a.c, a.r
	s := a.selection()
	for i, id := range s.lists {
		if id == "list-none" && r.Intn(2) == 0 {
			s.lists[i] = "list-none2"
		}
	}
	j := &jobOf{t0: time.Now(), lists: map[string]*apiList{}}
	j.sel = a.selected(s)
	if s.empty() {
		j.sel = a.listIDs()
	}
	for _, id := range j.sel {
		if l := a.lists[id]; l != nil {
			j.lists[id] = l.copyOf(id)
		}
	}
	dest := map[string]interface{}{}
	body := map[string]interface{}{"lists": s.body(nil), "destination": dest}
	j.kind = pick(r, []string{"file", "file", "download", "download", "server", "server", "server", "bad-file", "refused", "gone", "s3", "s3", "s3-refused"})
	if strings.HasPrefix(j.kind, "s3") && a.s3 == nil {
		j.kind = "file"
	}
	switch j.kind {
	case "file":
		j.file = filepath.Join(dir, fmt.Sprintf("backup-%d.bin", r.Int63()))
		dest["type"], dest["path"] = "file", j.file
	case "bad-file":
		dest["type"], dest["path"] = "file", filepath.Join(dir, "none", "backup.bin")
	case "download", "gone":
		dest["type"] = "download"
		if r.Intn(3) == 0 {
			dest["path"] = "unused"
		}
	case "server":
		j.dst = others[r.Intn(len(others))]
		for pending && j.dst == a {
			// It could change what the others save.
			j.dst = others[r.Intn(len(others))]
		}
		dest["type"], dest["path"] = "server", j.dst.s.addr
		if r.Intn(2) == 0 {
			j.pre = pick(r, []string{"r-", "list", "x"})
			dest["server_list_id_prefix"] = j.pre
		}
		if r.Intn(2) == 0 {
			j.suf = pick(r, []string{"-r", "2"})
			dest["server_list_id_suffix"] = j.suf
		}
	case "s3", "s3-refused":
		name := pick(r, []string{"b", "dir/b", "a/b c", "%25x/y"}) + fmt.Sprint(r.Int63())
		if j.kind == "s3-refused" {
			j.refuse = true
			name = pick(r, []string{"reject", "early", "dir/reject", "dir/early"})
		}
		u := url.URL{Scheme: "s3", Host: "The_bucket", Path: "/" + name}
		j.s3 = "/The_bucket/" + name
		dest["type"], dest["path"] = "s3", u.String()
	case "refused":
		j.refuse = true
		dest["type"], dest["path"] = "server", fake
	}
	if j.kind == "gone" {
		// The client leaves after some bytes.
		ctx, cancel := context.WithCancel(context.Background())
		req, _ := http.NewRequestWithContext(ctx, "PUT", a.s.base+"/xlist/backup", strings.NewReader(bodyJSON(body)))
		req.Header.Set("Content-Type", "application/json")
		res, err := a.s.cl.Do(req)
		if err != nil {
			c.Failf("download: no answer: %v", err)
		}
		if res.StatusCode != 200 {
			c.Failf("download: status %d", res.StatusCode)
		}
		j.id = res.Header.Get("X-Backup-ID")
		io.CopyN(io.Discard, res.Body, int64(r.Intn(300)))
		cancel()
		res.Body.Close()
		j.gone = true
		c.Count("left_downloads", 1)
		return j, nil
	}
	if j.kind == "download" {
		x := a.s.expect(200, "PUT", "/xlist/backup", body)
		j.id = x.hdr.Get("X-Backup-ID")
		if j.id == "" {
			c.Failf("download without X-Backup-ID: %v", x.hdr)
		}
		c.Count("downloads", 1)
		return j, x.body
	}
	x := a.s.expect(201, "PUT", "/xlist/backup", body)
	var cb struct {
		ID  string `json:"id"`
		URL string `json:"callback_url"`
	}
	x.json(c, "backup", &cb)
	if cb.ID == "" || cb.URL != "/backup/"+cb.ID {
		c.Failf("backup callback is %+v", cb)
	}
	j.id = cb.ID
	c.Count("jobs", 1)
	return j, nil
}

func bodyJSON(v interface{}) string {
	b := bodyText(v)
	if strings.HasSuffix(b, "...") {
		panic("body too long for bodyJSON")
	}
	return b
}

// poll compares the status of a job with the one before.
func (a *apiSim) poll(j *jobOf) bool {
	c := a.c
	var st apiBackup
	a.s.expect(200, "GET", "/backup/"+j.id, nil).json(c, "backup status", &st)
	what := fmt.Sprintf("backup of %q to %s", j.sel, j.kind)
	if st.Lists != len(j.sel) || st.ListsDone < j.last.ListsDone || st.ListsDone > st.Lists || st.Size < j.last.Size {
		c.Failf("%s: status %+v follows %+v, %d lists selected", what, st, j.last, len(j.sel))
	}
	if st.Done != (st.Finished != nil) || j.last.Done && !st.Done {
		c.Failf("%s: status done %v with finish time %v, done before: %v", what, st.Done, st.Finished, j.last.Done)
	}
	if st.URI != "/backup/"+j.id || st.Storage == "" {
		c.Failf("%s: status has URI %q storage %q", what, st.URI, st.Storage)
	}
	if st.Started.Before(j.t0.Add(-time.Second)) || st.Finished != nil && st.Finished.Before(st.Started) {
		c.Failf("%s: started %v, finished %v, requested %v", what, st.Started, st.Finished, j.t0)
	}
	inSel := map[string]bool{}
	for _, id := range j.sel {
		inSel[id] = true
	}
	for k, e := range st.Errors {
		switch {
		case e == "":
			c.Failf("%s: %q failed without a reason", what, k)
		case inSel[k]:
			if j.lists[k] != nil && !j.cancelled && !j.refuse && !j.gone && j.kind != "bad-file" {
				c.Failf("%s: healthy list %q is reported as failed: %s", what, k, e)
			}
		case k == "saver" && j.kind == "bad-file":
		case (k == "finalizing" || k == "saver" || k == "delayed_error") && (j.refuse || j.gone || j.cancelled):
		default:
			c.Failf("%s: unexpected error %s: %s", what, k, e)
		}
	}
	j.last = st
	c.Count("api_polls", 1)
	return st.Done
}

// finishJob polls until the job is done and checks the final report.
func (a *apiSim) finishJob(j *jobOf) {
	c, r := a.c, a.r
	deadline := time.Now().Add(90 * time.Second)
	cancelAt := -1
	if r.Intn(3) == 0 {
		cancelAt = r.Intn(5)
	}
	if cancelAt == 0 {
		a.s.expect(204, "DELETE", "/backup/"+j.id, nil)
		j.cancelled = true
	}
	for n := 0; !a.poll(j); n++ {
		if n == cancelAt {
			a.s.expect(204, "DELETE", "/backup/"+j.id, nil)
			j.cancelled = true
			c.Count("cancel_requests", 1)
		}
		if time.Now().After(deadline) {
			c.Failf("backup of %q to %s does not finish: %+v; goroutines of the server: %s", j.sel, j.kind, j.last, a.s.dump())
		}
		time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
	}
	st := j.last
	what := fmt.Sprintf("backup of %q to %s", j.sel, j.kind)
	if st.Cancelled && !j.cancelled {
		c.Failf("%s: nobody cancelled it, status is %+v", what, st)
	}
	if st.Cancelled {
		c.Count("cancelled_api_jobs", 1)
	}
	for _, id := range j.sel {
		if j.lists[id] == nil && st.Errors[id] == "" && !st.Cancelled && j.kind != "bad-file" && !j.gone && !j.refuse {
			c.Failf("%s: list %q does not exist, but is not reported: %v", what, id, st.Errors)
		}
		if j.refuse && st.Errors[id] == "" && st.Errors["saver"] == "" && !st.Cancelled {
			c.Failf("%s: destination did not accept it, but list %q is not reported: %v", what, id, st.Errors)
		}
	}
	if (j.kind == "bad-file" || j.refuse) && len(st.Errors) == 0 && !st.Cancelled {
		c.Failf("%s: could not be written, but no error is reported", what)
	}
	if !st.Cancelled && !j.gone && !j.refuse && j.kind != "bad-file" && st.ListsDone != len(j.lists) {
		c.Failf("%s: %d lists done, want %d: %v", what, st.ListsDone, len(j.lists), st.Errors)
	}
	if j.kind == "file" {
		if fi, err := os.Stat(j.file); err != nil || !st.Cancelled && fi.Size() != st.Size {
			c.Failf("%s: status size %d, file: %v %v", what, st.Size, fi, err)
		}
	}
	if j.s3 != "" {
		b, ok := a.s3.get(j.s3)
		switch {
		case j.refuse && ok:
			panic("refused object was stored")
		case !j.refuse && !st.Cancelled && (!ok || int64(len(b)) != st.Size):
			c.Failf("%s: reported as done, status size %d, object: %v, %d bytes", what, st.Size, ok, len(b))
		case ok && st.Cancelled:
			c.Count("s3_cancelled_stored", 1)
		}
		c.Count("s3_backups", 1)
	}
	if r.Intn(3) == 0 {
		// A finished job can be cancelled without effect.
		a.s.expect(204, "DELETE", "/backup/"+j.id, nil)
		if !a.poll(j) || j.last.Cancelled != st.Cancelled || len(j.last.Errors) != len(st.Errors) || j.last.Size != st.Size {
			c.Failf("%s: status changed after it was done: %+v then %+v", what, st, j.last)
		}
	}
}

// restored puts the lists of a stream into the model of the destination.
func (d *apiSim) restored(j *jobOf, pre, suf string, keep bool) (restored, skipped int) {
	for id, l := range j.lists {
		to := pre + id + suf
		if d.lists[to] != nil && keep {
			skipped++
			continue
		}
		d.lists[to] = l.copyOf(to)
		restored++
	}
	return
}

// eitherOr finds out which of the lists of an incomplete stream were restored;
// each of them must be completely new or completely untouched.
func (d *apiSim) eitherOr(what string, j *jobOf, pre, suf string, keep bool) {
	var ids []string
	for id := range j.lists {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		to := pre + id + suf
		if keep && d.lists[to] != nil {
			continue
		}
		n := j.lists[id].copyOf(to)
		x := d.s.do("GET", n.path(""), nil)
		if x.code == 404 && d.lists[to] == nil {
			continue
		}
		if x.code != 200 {
			d.c.Failf("%s: get list %q: %s", what, to, x)
		}
		if old := d.lists[to]; old != nil {
			var in apiListInfo
			x.json(d.c, "get list", &in)
			y := d.s.do("GET", n.path("/range?from_top=0&limit=1000"), nil)
			var es []apiElem
			if y.code == 200 {
				y.json(d.c, "range", &es)
			}
			// Which one is it? It is compared completely afterwards.
			if sameAPI(es, old.mod.list()) && in.Set == old.set && in.SplitSize == old.split {
				continue
			}
		}
		d.lists[to] = n
		d.c.Count("partly_restored", 1)
	}
}

func sameAPI(es []apiElem, want []Elem) bool {
	if len(want) > 1000 {
		want = want[:1000]
	}
	if len(es) != len(want) {
		return false
	}
	for i, e := range es {
		if e.ID != uint64(want[i].ID) || e.Score != want[i].Score || e.UpdatedAt == nil || uint32(e.UpdatedAt.Unix()) != want[i].Updated || !bytes.Equal(canonJSON(e.Payload), canonJSON(want[i].Payload)) {
			return false
		}
	}
	return true
}

type failingReader struct{ io.Reader }

func (f failingReader) Read(b []byte) (int, error) {
	n, err := f.Reader.Read(b)
	if err == io.EOF {
		err = errors.New("client gave up")
	}
	return n, err
}

// restore sends a stream to d. complete: it is a whole stream.
func (d *apiSim) restore(dir string, j *jobOf, data []byte, complete bool) {
	c, r := d.c, d.r
	q := url.Values{}
	pre, suf, keep := "", "", false
	if r.Intn(2) == 0 {
		pre = pick(r, []string{"r-", "p._", "list"})
		q.Set("list_id_prefix", pre)
	}
	if r.Intn(2) == 0 {
		suf = pick(r, []string{"-r", "2", "_."})
		q.Set("list_id_suffix", suf)
	}
	switch r.Intn(4) {
	case 0, 1:
		keep = true
		q.Set("keep", "true")
	case 2:
		q.Set("keep", "false")
	}
	if r.Intn(5) == 0 && len(data) > 0 && complete {
		data = data[:r.Intn(len(data))]
		complete = false
	}
	var body interface{} = data
	var x resp
	via := pick(r, []string{"body", "body", "file", "url", "broken-body", "no-file", "bad-url", "s3", "s3", "bad-s3"})
	if strings.HasSuffix(via, "s3") && d.s3 == nil {
		via = "body"
	}
	what := fmt.Sprintf("restore of %q (%d bytes, complete %v) by %s prefix %q suffix %q keep %v", j.sel, len(data), complete, via, pre, suf, keep)
	send := func() resp { return d.s.do("POST", "/xlist/restore?"+q.Encode(), body) }
	switch via {
	case "body":
		x = send()
	case "file":
		fn := filepath.Join(dir, fmt.Sprintf("src-%d.bin", r.Int63()))
		if err := os.WriteFile(fn, data, 0o600); err != nil {
			panic(err)
		}
		q.Set("src_file", fn)
		body = ""
		x = send()
	case "no-file":
		q.Set("src_file", filepath.Join(dir, "none.bin"))
		body = ""
		d.s.clientError("POST", "/xlist/restore?"+q.Encode(), body)
		return
	case "s3", "bad-s3":
		name := pick(r, []string{"s", "dir/s", "a/b c", "%25x/y"}) + fmt.Sprint(r.Int63())
		u := url.URL{Scheme: "s3", Host: "The_bucket", Path: "/" + name}
		q.Set("src", u.String())
		body = ""
		if via == "bad-s3" {
			if r.Intn(2) == 0 {
				d.s3.mu.Lock()
				d.s3.fails["/The_bucket/"+name] = 403
				d.s3.mu.Unlock()
			}
			d.s.clientError("POST", "/xlist/restore?"+q.Encode(), body)
			return
		}
		d.s3.put("/The_bucket/"+name, data)
		x = send()
		c.Count("s3_restores", 1)
	case "url", "bad-url":
		hs := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
			if via == "bad-url" {
				w.WriteHeader([]int{404, 500, 403}[len(data)%3])
			}
			w.Write(data)
		}))
		q.Set("src", hs.URL+"/data.bin")
		body = ""
		if via == "bad-url" {
			d.s.clientError("POST", "/xlist/restore?"+q.Encode(), body)
			hs.Close()
			return
		}
		x = send()
		hs.Close()
	case "broken-body":
		// The client breaks off within or after the stream.
		cut := r.Intn(len(data) + 1)
		x = d.s.try(context.Background(), "POST", "/xlist/restore?"+q.Encode(), "", io.Reader(failingReader{bytes.NewReader(data[:cut])}))
		// The server may still be at it.
		if x.err == nil && x.code >= 500 {
			c.Failf("%s: broken off: %s", what, x)
		}
		d.settle()
		d.eitherOr(what+", broken off", j, pre, suf, keep)
		c.Count("broken_restores", 1)
		return
	}
	c.Count("api_restores", 1)
	if x.code == 200 {
		var res struct {
			Errors   map[string]string `json:"errors"`
			Restored int               `json:"restored"`
			Skipped  int               `json:"skipped"`
		}
		x.json(c, "restore", &res)
		rs, sk := d.restored(j, pre, suf, keep)
		if len(res.Errors) > 0 || res.Restored != rs || res.Skipped != sk {
			c.Failf("%s: reports %+v, want %d restored %d skipped", what, res, rs, sk)
		}
		if sk > 0 {
			c.Count("restores_keeping", 1)
		}
		return
	}
	if complete {
		c.Failf("%s: %s", what, x)
	}
	if x.code != 400 {
		c.Failf("%s: incomplete stream: %s", what, x)
	}
	d.eitherOr(what, j, pre, suf, keep)
	c.Count("incomplete_restores", 1)
}

// settle waits until the server has no restore in progress, which may go on
// after its client is gone, and its directory is the same twice in a row.
func (d *apiSim) settle() {
	prev := ""
	for i, same := 0, 0; i < 4000 && same < 3; i++ {
		x := d.s.do("GET", "/debug/pprof/goroutine?debug=2", nil)
		busy := strings.Contains(string(x.body), "MultilistController).Restore")
		if x.code != 200 || !strings.Contains(string(x.body), "goroutine ") {
			d.c.Failf("goroutines of the server: %s", x)
		}
		x = d.s.do("GET", "/lists?limit=1000", nil)
		if !busy && string(x.body) == prev {
			same++
		} else {
			same = 0
		}
		prev = string(x.body)
		time.Sleep(5 * time.Millisecond)
	}
}

// fakeServer accepts connections like a rankdb server, but no transfers.
func fakeServer(c *C, mode string) (string, func()) {
	hs := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		if q.Method == "GET" {
			w.Header().Set("Content-Type", "application/json")
			w.Write([]byte("{}"))
			return
		}
		switch mode {
		case "error":
			io.Copy(io.Discard, q.Body)
			w.WriteHeader(500)
			w.Write([]byte("no"))
		case "error-early":
			w.WriteHeader(503)
		case "bad-request":
			io.Copy(io.Discard, q.Body)
			w.Header().Set("Content-Type", "application/vnd.goa.error")
			w.WriteHeader(400)
			w.Write([]byte(`{"id":"x","code":"bad_request","status":400,"detail":"no"}`))
		case "garbage":
			io.Copy(io.Discard, q.Body)
			w.Header().Set("Content-Type", "application/vnd.goa.error")
			w.WriteHeader(400)
			w.Write([]byte(`{"id":`))
		case "hangup":
			io.CopyN(io.Discard, q.Body, 10)
			if h, ok := w.(http.Hijacker); ok {
				if cn, _, err := h.Hijack(); err == nil {
					cn.(*net.TCPConn).SetLinger(0)
					cn.Close()
				}
			}
		}
	}))
	return strings.TrimPrefix(hs.URL, "http://"), hs.Close
}

func (a *apiSim) backupMalformed(dir string) {
	r := a.r
	noS3 := "/xlist/restore?src=s3://bucket/x.bin"
	if a.s3 != nil {
		noS3 = "/xlist/restore?src=s3://The_bucket/none.bin"
	}
	type m = map[string]interface{}
	switch r.Intn(9) {
	case 0:
		a.s.clientError("PUT", "/xlist/backup", m{"lists": m{}, "destination": m{"type": pick(r, []string{"", "disk", "FILE"}), "path": "x"}})
	case 1:
		a.s.clientError("PUT", "/xlist/backup", m{"lists": m{}, "destination": m{"type": pick(r, []string{"file", "server", "s3"})}})
	case 2:
		a.s.clientError("PUT", "/xlist/backup", m{"lists": m{}, "destination": m{"type": pick(r, []string{"file", "server", "s3"}), "path": ""}})
	case 3:
		a.s.clientError("PUT", "/xlist/backup", m{"lists": m{}, "destination": m{"type": "server", "path": pick(r, []string{"127.0.0.1:1", "not a host", "::"})}})
	case 4:
		a.s.clientError("PUT", "/xlist/backup", m{"destination": m{"type": "download"}})
	case 5:
		a.s.clientError("PUT", "/xlist/backup", m{"lists": m{}})
	case 6:
		a.s.clientError("POST", "/xlist/restore", pick(r, []string{"", "x", "not a backup stream at all", "\x28\xb5\x2f\xfd"}))
	case 7:
		a.s.clientError("POST", noS3, "")
	default:
		id := pick(r, []string{"none", "a%2Fb", "%00"})
		for _, meth := range []string{"GET", "DELETE"} {
			if x := a.s.do(meth, "/backup/"+id, nil); x.code != 404 {
				a.c.Failf("%s of an unknown job: %s", meth, x)
			}
		}
	}
	a.c.Count("malformed", 1)
}

func runC30Server(c *C) { c30Servers(c, 6, nil, nil) }

// c30Servers runs rounds of backups and restores between two servers.
func c30Servers(c *C, rounds int, before, after func(sims []*apiSim)) {
	r := c.Rng
	var s3 *fakeS3
	if r.Intn(4) > 0 {
		s3 = newFakeS3()
		defer s3.hs.Close()
	}
	mk := func(lists int, prefix string) *apiSim {
		cfg := randSrvCfg(r, c.TempDir())
		cfg.debug = true // see settle
		if s3 != nil {
			cfg.s3 = s3.hs.URL
		}
		s := startSrv(c, cfg)
		a := newAPISim(c, s)
		a.s3 = s3
		a.plain = true
		a.g.idKind = pick(r, []int{0, 1})
		for i := 0; i < lists; i++ {
			id := fmt.Sprintf("list%d", i)
			a.create(id, pick(r, []string{"set-a", "set-b", "set-c"}), r.Intn(80), map[string]string{"k": pick(r, []string{"1", "2"}), "i": fmt.Sprint(i)})
		}
		c.Logf("server %s: %v", s.addr, cfg)
		return a
	}
	a := mk(2+r.Intn(6), "")
	b := mk(1+r.Intn(3), "")
	sims := []*apiSim{a, b}
	dir := c.TempDir()
	if before != nil {
		before(sims)
	}
	for round := 0; round < rounds; round++ {
		src := sims[r.Intn(2)]
		if len(src.lists) == 0 || len(src.lists) > 40 {
			break
		}
		for i := r.Intn(4); i > 0; i-- {
			src.elementStep(src.anyList())
		}
		fake, closeFake := fakeServer(c, pick(r, []string{"error", "error-early", "bad-request", "garbage", "hangup"}))
		var jobs []*jobOf
		streams := map[*jobOf][]byte{}
		var srvJob bool
		for n := 1 + r.Intn(3); n > 0; n-- {
			if srvJob {
				break
			}
			j, data := src.startJob(dir, sims, fake, len(jobs) > 0)
			jobs = append(jobs, j)
			streams[j] = data
			// What it stores there is part of what follows.
			srvJob = j.kind == "server"
		}
		for _, j := range jobs {
			src.finishJob(j)
		}
		closeFake()
		// Transfers have changed their destination by now, the restores follow.
		sort.SliceStable(jobs, func(i, k int) bool { return jobs[i].kind == "server" && jobs[k].kind != "server" })
		for _, j := range jobs {
			switch j.kind {
			case "server":
				if j.last.Cancelled {
					j.dst.settle()
					j.dst.eitherOr("cancelled transfer", j, j.pre, j.suf, false)
				} else {
					j.dst.restored(j, j.pre, j.suf, false)
					c.Count("transfers", 1)
				}
			case "file":
				b, err := os.ReadFile(j.file)
				if err != nil {
					c.Failf("reading backup: %v", err)
				}
				streams[j] = b
				fallthrough
			case "s3":
				if j.s3 != "" {
					b, ok := s3.get(j.s3)
					if !ok {
						continue
					}
					streams[j] = b
				}
				fallthrough
			case "download":
				for n := 1 + r.Intn(2); n > 0; n-- {
					sims[r.Intn(2)].restore(dir, j, streams[j], !j.last.Cancelled)
				}
			}
		}
		if r.Intn(2) == 0 {
			src.backupMalformed(dir)
		}
		for _, s := range sims {
			s.checkDirectory("after a restore")
			s.checkAll("after a restore")
		}
		// The restored lists can be used.
		for _, s := range sims {
			if len(s.lists) > 0 {
				s.elementStep(s.anyList())
			}
		}
	}
	if after != nil {
		after(sims)
	}
	c.Count("requests", a.s.reqs+b.s.reqs)
	c.Sig(a.s.cfg.String(), b.s.cfg.String(), a.listIDs(), b.listIDs())
	c.NonTrivial()
	c.Sample("server: %d and %d lists at the end; %v; %v", len(a.lists), len(b.lists), a.s.cfg, b.s.cfg)
	for _, s := range sims {
		s.s.stop()
		if s.s.cfg.storage == "BoltDB" && !s.leaky {
			s.checkBoltFile("after shutdown")
		}
	}
}
