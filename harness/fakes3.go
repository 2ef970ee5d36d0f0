package main

import (
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
)

// fakeS3 is an object storage the real client of the server under test talks
// to. Buckets are addressed by path. Objects with these names are special:
// "reject…" is refused after it was received, "early…" before.
type fakeS3 struct {
	mu    sync.Mutex
	objs  map[string][]byte
	fails map[string]int // GET status by path
	puts  int
	hs    *httptest.Server
}

func newFakeS3() *fakeS3 {
	f := &fakeS3{objs: map[string][]byte{}, fails: map[string]int{}}
	f.hs = httptest.NewServer(f)
	return f
}

func s3Error(w http.ResponseWriter, status int, code string) {
	w.Header().Set("Content-Type", "application/xml")
	w.WriteHeader(status)
	fmt.Fprintf(w, `<?xml version="1.0" encoding="UTF-8"?><Error><Code>%s</Code><Message>%s</Message><RequestId>1</RequestId></Error>`, code, code)
}

func (f *fakeS3) ServeHTTP(w http.ResponseWriter, q *http.Request) {
	p := q.URL.Path
	name := p[strings.LastIndex(p, "/")+1:]
	switch {
	case q.Method == "PUT" && q.URL.RawQuery == "":
		if strings.HasPrefix(name, "early") {
			s3Error(w, 403, "AccessDenied")
			return
		}
		b, err := io.ReadAll(q.Body)
		if err != nil || q.ContentLength >= 0 && int64(len(b)) != q.ContentLength {
			s3Error(w, 400, "IncompleteBody")
			return
		}
		if strings.HasPrefix(name, "reject") {
			s3Error(w, 403, "AccessDenied")
			return
		}
		f.mu.Lock()
		f.objs[p] = b
		f.puts++
		f.mu.Unlock()
		w.Header().Set("ETag", `"x"`)
	case q.Method == "GET" && q.URL.RawQuery == "":
		f.mu.Lock()
		b, ok := f.objs[p]
		st := f.fails[p]
		f.mu.Unlock()
		switch {
		case st != 0:
			s3Error(w, st, "Refused")
		case !ok:
			s3Error(w, 404, "NoSuchKey")
		default:
			w.Header().Set("ETag", `"x"`)
			w.Header().Set("Content-Length", fmt.Sprint(len(b)))
			w.Write(b)
		}
	default:
		s3Error(w, 501, "NotImplemented")
	}
}

func (f *fakeS3) get(p string) ([]byte, bool) {
	f.mu.Lock()
	defer f.mu.Unlock()
	b, ok := f.objs[p]
	return b, ok
}

func (f *fakeS3) put(p string, b []byte) {
	f.mu.Lock()
	f.objs[p] = b
	f.mu.Unlock()
}
