package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/Vivino/rankdb/blobstore"
	rlog "github.com/Vivino/rankdb/log"
)

// errInjected is the error a fault injecting store returns.
var errInjected = errors.New("injected storage failure")

type skey struct{ set, key string }

// faultMode says how a call is failed.
type faultMode int

const (
	faultNone  faultMode = iota
	faultError           // the call fails, nothing happens
	faultAfter           // the write is applied, the call still fails
)

// spy is the reference blob store: exact, copying, observable, and able to
// inject faults and delays.
type spy struct {
	mu      sync.RWMutex
	m       map[skey][]byte
	calls   int64
	gets    int64
	sets    int64
	dels    int64
	onCall  func(n int64, op, set, key string) faultMode // nil: no faults
	delay   func()
	onWrite func(op, set, key string, val []byte) // after a successful write
	strict  bool                                  // check that written buffers do not change during the call
	failed  int64
}

func newSpy() *spy { return &spy{m: map[skey][]byte{}} }

func (s *spy) pre(ctx context.Context, op, set, key string) (faultMode, error) {
	n := atomic.AddInt64(&s.calls, 1)
	atomic.AddInt64(&progress, 1)
	if d := s.delay; d != nil {
		d()
	}
	if err := ctx.Err(); err != nil {
		return faultError, err
	}
	if f := s.onCall; f != nil {
		if m := f(n, op, set, key); m != faultNone {
			atomic.AddInt64(&s.failed, 1)
			return m, errInjected
		}
	}
	return faultNone, nil
}

func (s *spy) Get(ctx context.Context, set, key string) ([]byte, error) {
	atomic.AddInt64(&s.gets, 1)
	if _, err := s.pre(ctx, "get", set, key); err != nil {
		return nil, err
	}
	s.mu.RLock()
	v, ok := s.m[skey{set, key}]
	s.mu.RUnlock()
	if !ok {
		return nil, blobstore.ErrBlobNotFound
	}
	return append([]byte{}, v...), nil
}

func (s *spy) Set(ctx context.Context, set, key string, val []byte) error {
	atomic.AddInt64(&s.sets, 1)
	v := append([]byte{}, val...)
	m, err := s.pre(ctx, "set", set, key)
	if err != nil && m != faultAfter {
		return err
	}
	s.mu.Lock()
	s.m[skey{set, key}] = v
	if s.onWrite != nil {
		s.onWrite("set", set, key, v)
	}
	s.mu.Unlock()
	return err
}

func (s *spy) Delete(ctx context.Context, set, key string) error {
	atomic.AddInt64(&s.dels, 1)
	m, err := s.pre(ctx, "delete", set, key)
	if err != nil && m != faultAfter {
		return err
	}
	s.mu.Lock()
	delete(s.m, skey{set, key})
	if s.onWrite != nil {
		s.onWrite("delete", set, key, nil)
	}
	s.mu.Unlock()
	return err
}

func (s *spy) keys(set string) []string {
	s.mu.RLock()
	defer s.mu.RUnlock()
	var out []string
	for k := range s.m {
		if k.set == set {
			out = append(out, k.key)
		}
	}
	sort.Strings(out)
	return out
}

func (s *spy) raw(set, key string) ([]byte, bool) {
	s.mu.RLock()
	defer s.mu.RUnlock()
	v, ok := s.m[skey{set, key}]
	return append([]byte{}, v...), ok
}

func (s *spy) put(set, key string, v []byte) {
	s.mu.Lock()
	s.m[skey{set, key}] = append([]byte{}, v...)
	s.mu.Unlock()
}

func (s *spy) drop(set, key string) {
	s.mu.Lock()
	delete(s.m, skey{set, key})
	s.mu.Unlock()
}

func (s *spy) snapshot() map[skey][]byte {
	s.mu.RLock()
	defer s.mu.RUnlock()
	out := make(map[skey][]byte, len(s.m))
	for k, v := range s.m {
		out[k] = append([]byte{}, v...)
	}
	return out
}

// fork returns an independent store with the same content and no faults.
func (s *spy) fork() *spy { return &spy{m: s.snapshot()} }

func diffStores(a, b map[skey][]byte, skip func(skey) bool) string {
	var out []string
	for k, v := range a {
		if skip != nil && skip(k) {
			continue
		}
		w, ok := b[k]
		if !ok {
			out = append(out, fmt.Sprintf("%s/%s disappeared", k.set, k.key))
		} else if string(w) != string(v) {
			out = append(out, fmt.Sprintf("%s/%s changed", k.set, k.key))
		}
	}
	for k := range b {
		if skip != nil && skip(k) {
			continue
		}
		if _, ok := a[k]; !ok {
			out = append(out, fmt.Sprintf("%s/%s appeared", k.set, k.key))
		}
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

// jitter returns a delay function with its own random source, for use from
// many goroutines: mostly nothing, sometimes a yield, sometimes a short sleep.
func jitter(seed int64, sleepPct int, max time.Duration) func() {
	var ctr uint64
	return func() {
		x := uint64(seed) + atomic.AddUint64(&ctr, 1)*0x9E3779B97F4A7C15
		x ^= x >> 31
		x *= 0xBF58476D1CE4E5B9
		x ^= x >> 29
		if int(x%100) < sleepPct {
			time.Sleep(time.Duration((x >> 8) % uint64(max)))
		}
	}
}

// nullLog swallows log output but exercises the logging code paths.
type nullLog struct{}

func (nullLog) Info(string, ...interface{})       {}
func (nullLog) Error(string, ...interface{})      {}
func (n nullLog) New(...interface{}) rlog.Adapter { return n }

// quiet returns a context carrying a silent logger.
func quiet(ctx context.Context) context.Context { return rlog.WithLogger(ctx, nullLog{}) }

func pick[T any](r *rand.Rand, xs []T) T { return xs[r.Intn(len(xs))] }
