From 65960afa3d3078048becdbdbd0b790fdecd5c897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:27 +0000
Subject: [PATCH 01/57] fix: return looked up elements sorted by rank

---
 segments.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/segments.go b/segments.go
index 71ddfd1..a92025f 100644
--- a/segments.go
+++ b/segments.go
@@ -960,6 +960,8 @@ func (s *Segments) FindElements(ctx context.Context, bs blobstore.WithSet, ids I
 	for e := range resch {
 		res = append(res, e...)
 	}
+	// Segments are searched concurrently, so restore rank order.
+	RankedElements(res).Sort()
 	return res, nil
 }
 
-- 
2.43.0


From 7cc9bca02b5b17076e4ab7fd89596edc8a3afa73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:27 +0000
Subject: [PATCH 02/57] fix: report rank before update relative to the whole
 list

---
 list.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/list.go b/list.go
index 08a3ee9..826e9d2 100644
--- a/list.go
+++ b/list.go
@@ -1277,6 +1277,8 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 	segmentScoresWait := make(map[int]chan struct{})
 	// Contains all segments with previous score values.
 	oldRank := make(map[ElementID]*RankedElement)
+	// Offsets of all segments and total prior to update.
+	oldOffsets, oldTotal := scores.topOffsets()
 
 	// used for local locking
 	var mu sync.Mutex
@@ -1376,11 +1378,12 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 				}
 				if results {
 					// Record rank of old element.
-					rank, err := scores.findRanked(ctx, store, ss, eid, 0, 0)
+					rank, err := scores.findRanked(ctx, store, ss, eid, oldOffsets[segIdx], 0)
 					if err != nil {
 						log.Info(ctx, "Could not find element", "error", err.Error())
 						continue
 					}
+					rank.CalculateFromBottom(oldTotal)
 					withLock(func() {
 						oldRank[eid] = rank
 					})
-- 
2.43.0


From cb39502bebcbad4246d5b5c38d2173ab01d9fa8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:16 +0000
Subject: [PATCH 03/57] fix: percentile of empty lists and lists ending in
 empty segments

---
 list.go     | 7 +++++++
 segments.go | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/list.go b/list.go
index 826e9d2..1b3dfae 100644
--- a/list.go
+++ b/list.go
@@ -1749,10 +1749,17 @@ func (l *List) GetPercentile(ctx context.Context, bs blobstore.Store, percentile
 
 	store := blobstore.StoreWithSet(bs, set)
 	segOffs, total := segs.scores.topOffsets()
+	if total == 0 {
+		return nil, ErrOffsetOutOfBounds
+	}
 	var bTotal = &big.Float{}
 	bTotal = bTotal.SetInt(big.NewInt(int64(total)))
 	bTotal = bTotal.Mul(bTotal, big.NewFloat(percentile))
 	wantOff, _ := bTotal.Int64()
+	if wantOff >= int64(total) {
+		// Use last element, trailing segments may be empty.
+		wantOff = int64(total) - 1
+	}
 	for i, segOff := range segOffs {
 		if wantOff < int64(segOff) {
 			e, err := segs.scores.getElementIndex(ctx, store, i-1, int(wantOff)-segOffs[i-1], segOffs[i-1], radius)
diff --git a/segments.go b/segments.go
index a92025f..523010d 100644
--- a/segments.go
+++ b/segments.go
@@ -974,6 +974,9 @@ func (s *Segments) getElementIndex(ctx context.Context, bs blobstore.WithSet, se
 	}
 	defer ls.unlock()
 
+	if len(ls.elements) == 0 {
+		return nil, ErrNotFound
+	}
 	if elementOff >= len(ls.elements) {
 		elementOff = len(ls.elements) - 1
 	}
-- 
2.43.0


From dbdf785283bdf90d8a42bc141c06f5d424bbd055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:16 +0000
Subject: [PATCH 04/57] fix: recursive read lock when querying from score

---
 segments.go | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/segments.go b/segments.go
index 523010d..f8301e6 100644
--- a/segments.go
+++ b/segments.go
@@ -1069,24 +1069,34 @@ func (s *Segments) getElementsFromScore(ctx context.Context, bs blobstore.WithSe
 		return nil, err
 	}
 
-	defer ls.unlock()
-	seg := ls.seg
-	for i, elem := range ls.elements {
-		if elem.Score <= score {
-			e, err := s.getElementsOffset(ctx, bs, segIdx, i, elements)
-			if err != nil {
-				return nil, err
-			}
-			return e.Ranked(i, seg.N), nil
+	// Find first element, and copy what we need from this segment.
+	// The segment must be unlocked before others are locked.
+	n := len(ls.elements)
+	first := n
+	for i := range ls.elements {
+		if ls.elements[i].Score <= score {
+			first = i
+			break
+		}
+	}
+	var res = make(Elements, 0, elements)
+	for _, elem := range ls.elements[first:] {
+		if len(res) >= elements {
+			break
 		}
+		res = append(res, elem)
 	}
+	ls.unlock()
 
-	// Return first of next segment.
-	e, err := s.getElementsOffset(ctx, bs, segIdx+1, 0, elements)
-	if err != nil {
-		return nil, err
+	// Add remaining from following segments.
+	if len(res) < elements {
+		e, err := s.getElementsOffset(ctx, bs, segIdx+1, 0, elements-len(res))
+		if err != nil {
+			return nil, err
+		}
+		res = append(res, e...)
 	}
-	return e.Ranked(seg.N, seg.N), nil
+	return res.Ranked(first, n), nil
 }
 
 // getElementsOffset returns elements from a specific segment+element offset.
-- 
2.43.0


From 6be3cf931244d157254b6a293ba569ab2c640e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:17 +0000
Subject: [PATCH 05/57] fix: deadlock when neighbor lookups hold a segment
 while locking another

---
 segments.go | 103 +++++++++++++++++++++++++---------------------------
 1 file changed, 49 insertions(+), 54 deletions(-)

diff --git a/segments.go b/segments.go
index f8301e6..3c400f1 100644
--- a/segments.go
+++ b/segments.go
@@ -937,7 +937,6 @@ func (s *Segments) FindElements(ctx context.Context, bs blobstore.WithSet, ids I
 				errch <- err
 				return
 			}
-			defer ls.unlock()
 			var res []RankedElement
 			for _, id := range ids {
 				re, err := s.findRanked(ctx, bs, ls, id, offsets[segIdx], radius)
@@ -948,6 +947,15 @@ func (s *Segments) FindElements(ctx context.Context, bs blobstore.WithSet, ids I
 				re.CalculateFromBottom(total)
 				res = append(res, *re)
 			}
+			// Release segment before getting neighbors from other segments.
+			ls.unlock()
+			for i := range res {
+				err := s.addNeighbors(ctx, bs, &res[i], segIdx, radius)
+				if err != nil {
+					errch <- err
+					return
+				}
+			}
 			resch <- res
 		}(segIdx, id)
 	}
@@ -972,22 +980,28 @@ func (s *Segments) getElementIndex(ctx context.Context, bs blobstore.WithSet, se
 	if err != nil {
 		return nil, err
 	}
-	defer ls.unlock()
-
 	if len(ls.elements) == 0 {
+		ls.unlock()
 		return nil, ErrNotFound
 	}
 	if elementOff >= len(ls.elements) {
 		elementOff = len(ls.elements) - 1
 	}
 	re, err := s.findRanked(ctx, bs, ls, ls.elements[elementOff].ID, offset, radius)
+	// Release segment before getting neighbors from other segments.
+	ls.unlock()
+	if err != nil {
+		return nil, err
+	}
+	err = s.addNeighbors(ctx, bs, re, segIdx, radius)
 	if err != nil {
 		return nil, err
 	}
 	return re, nil
 }
 
-// findRanked returns ranked element.
+// findRanked returns ranked element with neighbors from the same segment.
+// Use addNeighbors for neighbors in other segments.
 // caller must hold segment read lock and element read lock for supplied segment.
 func (s *Segments) findRanked(ctx context.Context, bs blobstore.WithSet, ls *lockedSegment, id ElementID, offset, radius int) (*RankedElement, error) {
 	eidx, err := ls.elements.FindIdx(id)
@@ -1003,60 +1017,41 @@ func (s *Segments) findRanked(ctx context.Context, bs blobstore.WithSet, ls *loc
 		Below:   make([]Element, 0, radius),
 	}
 
-	if radius <= 0 {
-		return &r, nil
+	for i := eidx + 1; i < len(ls.elements) && len(r.Below) < radius; i++ {
+		r.Below = append(r.Below, ls.elements[i])
+	}
+	for i := eidx - 1; i >= 0 && len(r.Above) < radius; i-- {
+		r.Above = append(r.Above, ls.elements[i])
 	}
-	segIdx := ls.index
+	return &r, nil
+}
 
-	// Below
-	func() {
-		bidx, bLS, bsegIdx := eidx, ls, segIdx
-		for i := 1; i < radius+1; i++ {
-			bidx++
-			for bidx == len(bLS.elements) {
-				// Load next
-				bsegIdx++
-				if bsegIdx == len(s.Segments) {
-					return
-				}
-				ls, err := s.elementFullIdx(ctx, bs, bsegIdx, true)
-				if err != nil {
-					log.Error(ctx, "Unable to load segment", "error", err, "segment_idx", bsegIdx)
-					return
-				}
-				defer ls.unlock()
-				bLS = ls
-				bidx = 0
-			}
-			r.Below = append(r.Below, bLS.elements[bidx])
+// addNeighbors adds neighbors from other segments than the one containing the element.
+// Segments are locked one at the time, so caller may not hold any element locks.
+func (s *Segments) addNeighbors(ctx context.Context, bs blobstore.WithSet, r *RankedElement, segIdx, radius int) error {
+	for i := segIdx + 1; i < len(s.Segments) && len(r.Below) < radius; i++ {
+		ls, err := s.elementFullIdx(ctx, bs, i, true)
+		if err != nil {
+			log.Error(ctx, "Unable to load segment", "error", err, "segment_idx", i)
+			return err
 		}
-	}()
-
-	// Above
-	func() {
-		aidx, aLS, asegIdx := eidx, ls, segIdx
-		for i := 1; i < radius+1; i++ {
-			aidx--
-			for aidx < 0 {
-				// Load previous
-				asegIdx--
-				if asegIdx == -1 {
-					return
-				}
-				ls, err := s.elementFullIdx(ctx, bs, asegIdx, true)
-				if err != nil {
-					log.Error(ctx, "Unable to load segment", "error", err, "segment_idx", asegIdx)
-					return
-				}
-				aLS = ls
-				aidx = len(aLS.elements) - 1
-				defer ls.unlock()
-			}
-			r.Above = append(r.Above, aLS.elements[aidx])
+		for j := 0; j < len(ls.elements) && len(r.Below) < radius; j++ {
+			r.Below = append(r.Below, ls.elements[j])
 		}
-	}()
-
-	return &r, nil
+		ls.unlock()
+	}
+	for i := segIdx - 1; i >= 0 && len(r.Above) < radius; i-- {
+		ls, err := s.elementFullIdx(ctx, bs, i, true)
+		if err != nil {
+			log.Error(ctx, "Unable to load segment", "error", err, "segment_idx", i)
+			return err
+		}
+		for j := len(ls.elements) - 1; j >= 0 && len(r.Above) < radius; j-- {
+			r.Above = append(r.Above, ls.elements[j])
+		}
+		ls.unlock()
+	}
+	return nil
 }
 
 // getElementsOffset returns elements from a specific segment+element offset.
-- 
2.43.0


From 75e8482afd06c60710368999434a7e146a21dc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:17 +0000
Subject: [PATCH 06/57] fix: deadlock when list stats are loaded while segments
 are being replaced

---
 list.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/list.go b/list.go
index 1b3dfae..07efd0e 100644
--- a/list.go
+++ b/list.go
@@ -1036,13 +1036,13 @@ func (l *List) Stats(ctx context.Context, bs blobstore.Store, elements bool) (*L
 		res.CachePct = 100 * float64(res.CacheHits) / float64(res.CacheMisses+res.CacheHits)
 	}
 	if elements {
-		es, err := l.GetRankTop(ctx, bs, 0, 1)
+		es, err := l.getRankTop(ctx, bs, 0, 1, segs)
 		if err == nil && len(es) > 0 {
 			top := RankedElement{Element: es[0]}
 			top.CalculateFromBottom(res.Elements)
 			res.Top = &top
 		}
-		es, err = l.GetRankBottom(ctx, bs, 0, 1)
+		es, err = l.getRankBottom(ctx, bs, 0, 1, segs)
 		if err == nil && len(es) > 0 {
 			bottom := RankedElement{Element: es[0], FromTop: res.Elements - 1}
 			res.Bottom = &bottom
-- 
2.43.0


From 7a5153402249752c749c169271906d3689f38a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:41 +0000
Subject: [PATCH 07/57] fix: deduplicate keeps highest score when equally
 recent, sort of large tied lists

---
 elements.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/elements.go b/elements.go
index 6f4c8ab..42e9f4c 100644
--- a/elements.go
+++ b/elements.go
@@ -85,7 +85,7 @@ func (l *Elements) Deduplicate() (changed bool) {
 		j := i
 		// If updated time equal, use highest score
 		if prev.Updated == e.Updated {
-			if prev.Score > e.Score {
+			if prev.Score < e.Score {
 				j = i - 1
 			}
 		} else {
@@ -130,6 +130,11 @@ func (l *Elements) Sort() (changed bool) {
 	}
 	// Split + sort
 	split := l.SplitSize(2500)
+	if len(split) == 1 {
+		// All score/tiebreakers are equal, so we cannot split.
+		sort.Slice(lst, lst.Sorter())
+		return true
+	}
 	for i, s := range split {
 		s.Sort()
 		split[i] = s
-- 
2.43.0


From a2d30a262cc321589a10b8f297ed55baa9cf39da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:01 +0000
Subject: [PATCH 08/57] fix: permanent errors only apply to the store they are
 configured for

---
 blobstore/retry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blobstore/retry.go b/blobstore/retry.go
index 87fcaf2..9b71f89 100644
--- a/blobstore/retry.go
+++ b/blobstore/retry.go
@@ -84,7 +84,7 @@ func (l RetryOpt) PermanentErr(errs ...error) RetryStoreOption {
 		}
 		for _, err := range errs {
 			if err != nil {
-				o.permanent[err] = struct{}{}
+				perm[err] = struct{}{}
 			}
 		}
 		o.permanent = perm
-- 
2.43.0


From 6423e04ecfd4c26affd4df365361455e6eb0c52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:11 +0000
Subject: [PATCH 09/57] fix: deleting from max size store reports read errors

---
 blobstore/maxsize.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/blobstore/maxsize.go b/blobstore/maxsize.go
index 1ec61e5..e12dc4d 100644
--- a/blobstore/maxsize.go
+++ b/blobstore/maxsize.go
@@ -163,9 +163,12 @@ func (r *MaxSizeStore) Delete(ctx context.Context, set, key string) error {
 
 	if n == 0 {
 		b, err := r.store.Get(ctx, set, key)
-		if err != nil {
+		if err == ErrBlobNotFound {
 			return nil
 		}
+		if err != nil {
+			return err
+		}
 		var size int
 		n, size = binary.Uvarint(b)
 		if size < 1 {
-- 
2.43.0


From 96728a81fee3c22bbab9299262fcea72cf6c1fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:37 +0000
Subject: [PATCH 10/57] fix: memory store keeps sets apart and returns copies

---
 blobstore/memstore/memstore.go | 42 ++++++++++++++++------------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/blobstore/memstore/memstore.go b/blobstore/memstore/memstore.go
index cf6c51b..cdf4862 100644
--- a/blobstore/memstore/memstore.go
+++ b/blobstore/memstore/memstore.go
@@ -8,7 +8,6 @@ import (
 	"context"
 	"fmt"
 	"sort"
-	"strings"
 	"sync"
 
 	"github.com/Vivino/rankdb/blobstore"
@@ -18,32 +17,29 @@ import (
 // NewMemStore returns a new MemBlobStore
 func NewMemStore() *MemBlobStore {
 	return &MemBlobStore{
-		blobs:   make(map[string][]byte),
-		reads:   make(map[string]int),
-		writes:  make(map[string]int),
-		deletes: make(map[string]int),
+		blobs:   make(map[blobKey][]byte),
+		reads:   make(map[blobKey]int),
+		writes:  make(map[blobKey]int),
+		deletes: make(map[blobKey]int),
 	}
 }
 
 type MemBlobStore struct {
 	blobsMu sync.Mutex
-	blobs   map[string][]byte
-	reads   map[string]int
-	writes  map[string]int
-	deletes map[string]int
+	blobs   map[blobKey][]byte
+	reads   map[blobKey]int
+	writes  map[blobKey]int
+	deletes map[blobKey]int
 	debug   bool
 }
 
-func toKey(set, key string) string {
-	return set + "/" + key
+// blobKey identifies a blob.
+type blobKey struct {
+	set, key string
 }
 
-func splitKey(k string) (set, key string) {
-	s := strings.Split(k, "/")
-	if len(s) != 2 {
-		panic(fmt.Errorf("len != 2, was %d", len(s)))
-	}
-	return s[0], s[1]
+func toKey(set, key string) blobKey {
+	return blobKey{set: set, key: key}
 }
 
 func (m *MemBlobStore) Get(ctx context.Context, set, key string) ([]byte, error) {
@@ -57,7 +53,10 @@ func (m *MemBlobStore) Get(ctx context.Context, set, key string) ([]byte, error)
 	if !ok {
 		return nil, blobstore.ErrBlobNotFound
 	}
-	return blob, nil
+	// Stored blobs must not be affected by changes to the returned value.
+	dst := make([]byte, len(blob))
+	copy(dst, blob)
+	return dst, nil
 }
 
 func (m *MemBlobStore) Set(ctx context.Context, set, key string, val []byte) error {
@@ -93,7 +92,7 @@ func (m *MemBlobStore) Delete(ctx context.Context, set, key string) error {
 func (m *MemBlobStore) Usage(set string) (blobs, size int) {
 	m.blobsMu.Lock()
 	for k, v := range m.blobs {
-		if strings.HasPrefix(k, toKey(set, "")) {
+		if k.set == set {
 			size += len(v)
 			blobs++
 		}
@@ -106,9 +105,8 @@ func (m *MemBlobStore) Dir(set string) []string {
 	var res []string
 	m.blobsMu.Lock()
 	for k, v := range m.blobs {
-		s, key := splitKey(k)
-		if set == s {
-			res = append(res, fmt.Sprintf("%s: %d bytes [r:%d, w:%d, d:%d]", key, len(v), m.reads[k], m.writes[k], m.deletes[k]))
+		if set == k.set {
+			res = append(res, fmt.Sprintf("%s: %d bytes [r:%d, w:%d, d:%d]", k.key, len(v), m.reads[k], m.writes[k], m.deletes[k]))
 		}
 	}
 	m.blobsMu.Unlock()
-- 
2.43.0


From 8d0a764db3543f32afc07abf8032d3f44358436d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:38 +0000
Subject: [PATCH 11/57] fix: badger store loses queued writes on errors and
 shows stale values during delete

---
 blobstore/badgerstore/badger.go | 49 ++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 16 deletions(-)

diff --git a/blobstore/badgerstore/badger.go b/blobstore/badgerstore/badger.go
index 931a489..ae3b828 100644
--- a/blobstore/badgerstore/badger.go
+++ b/blobstore/badgerstore/badger.go
@@ -43,9 +43,9 @@ func (b *BadgerStore) Close() error {
 	err := b.flush()
 	err2 := b.db.Close()
 	if err != nil {
-		return err2
+		return err
 	}
-	return err
+	return err2
 }
 
 func (b *BadgerStore) key(set, key string) []byte {
@@ -84,26 +84,38 @@ func (b *BadgerStore) Get(ctx context.Context, set, key string) ([]byte, error)
 	return res, err
 }
 
+// flush the queue to the database.
+// Entries remain queued until they have been committed.
+// Caller must hold b.mu.
 func (b *BadgerStore) flush() error {
 	txn := b.db.NewTransaction(true)
+	pending := make([]string, 0, len(b.queue))
+	commit := func() error {
+		if err := txn.Commit(); err != nil {
+			return err
+		}
+		for _, k := range pending {
+			delete(b.queue, k)
+		}
+		pending = pending[:0]
+		return nil
+	}
 	for k, v := range b.queue {
-		if err := txn.Set([]byte(k), v); err == badger.ErrTxnTooBig {
-			err = txn.Commit()
-			txn = b.db.NewTransaction(true)
-			err = txn.Set([]byte(k), v)
-			if err != nil {
-				txn.Discard()
+		err := txn.Set([]byte(k), v)
+		if err == badger.ErrTxnTooBig {
+			if err := commit(); err != nil {
 				return err
 			}
-			delete(b.queue, k)
-		} else if err == nil {
-			delete(b.queue, k)
-		} else {
+			txn = b.db.NewTransaction(true)
+			err = txn.Set([]byte(k), v)
+		}
+		if err != nil {
 			txn.Discard()
 			return err
 		}
+		pending = append(pending, k)
 	}
-	return txn.Commit()
+	return commit()
 }
 
 func (b *BadgerStore) Set(ctx context.Context, set, key string, val []byte) error {
@@ -121,15 +133,20 @@ func (b *BadgerStore) Set(ctx context.Context, set, key string, val []byte) erro
 
 func (b *BadgerStore) Delete(ctx context.Context, set, key string) error {
 	b.mu.Lock()
-	delete(b.queue, b.keyString(set, key))
-	b.mu.Unlock()
-	return b.db.Update(func(tx *badger.Txn) error {
+	defer b.mu.Unlock()
+	// Keep the queued value until the stored one is gone,
+	// so an older value doesn't become visible.
+	err := b.db.Update(func(tx *badger.Txn) error {
 		err := tx.Delete(b.key(set, key))
 		if err == badger.ErrKeyNotFound {
 			err = nil
 		}
 		return err
 	})
+	if err == nil {
+		delete(b.queue, b.keyString(set, key))
+	}
+	return err
 }
 
 // BadgerLogger converts a logger on a context to a Badger logger.
-- 
2.43.0


From 1128afe0391f64245e6e27721a24eb02d5279652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:44 +0000
Subject: [PATCH 12/57] fix: lazy saver mixes up items of different sets

---
 blobstore/lazysaver.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/blobstore/lazysaver.go b/blobstore/lazysaver.go
index 72a71ba..6597059 100644
--- a/blobstore/lazysaver.go
+++ b/blobstore/lazysaver.go
@@ -24,7 +24,7 @@ type LazySaver struct {
 	mu           sync.RWMutex
 	tokens       chan struct{}
 	cache        *list.List
-	cacheIdx     map[string]*list.Element
+	cacheIdx     map[lazyItemKey]*list.Element
 	itemAdded    chan struct{}
 	savech       chan *list.Element
 	shuttingDown bool
@@ -176,7 +176,7 @@ func NewLazySaver(store Store, opts ...lazySaveOption) (*LazySaver, error) {
 		lazySaveOptions: defaultLazySaveOptions,
 		store:           store,
 		cache:           list.New(),
-		cacheIdx:        make(map[string]*list.Element),
+		cacheIdx:        make(map[lazyItemKey]*list.Element),
 		itemAdded:       make(chan struct{}, 1),
 		savech:          make(chan *list.Element),
 		shutdownCh:      make(chan struct{}, 0),
@@ -635,8 +635,13 @@ func (l *LazySaver) Delete(ctx context.Context, set, key string) error {
 	return fn(ctx, set, key)
 }
 
-func lazyKey(set, key string) string {
-	return set + "/" + key
+// lazyItemKey identifies a queued item.
+type lazyItemKey struct {
+	set, key string
+}
+
+func lazyKey(set, key string) lazyItemKey {
+	return lazyItemKey{set: set, key: key}
 }
 
 var (
-- 
2.43.0


From cfc37fa74cb83eae3023dcffe7c8f94d17ebee23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:53 +0000
Subject: [PATCH 13/57] fix: lazy saver loses writes racing with shutdown

---
 blobstore/lazysaver.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/blobstore/lazysaver.go b/blobstore/lazysaver.go
index 6597059..7362c3d 100644
--- a/blobstore/lazysaver.go
+++ b/blobstore/lazysaver.go
@@ -238,6 +238,11 @@ func NewLazySaver(store Store, opts ...lazySaveOption) (*LazySaver, error) {
 		// Copy b, so caller is free to re-use.
 		b = append(getDataBufferChunk(len(b)), b...)
 		l.mu.Lock()
+		if l.shuttingDown {
+			// Items added now may never be saved.
+			l.mu.Unlock()
+			return ErrShuttingDown
+		}
 		e, ok := l.cacheIdx[lazyKey(set, key)]
 		if ok {
 			// First update cache, since we have it.
@@ -268,6 +273,11 @@ func NewLazySaver(store Store, opts ...lazySaveOption) (*LazySaver, error) {
 		// First update cache, if we have it.
 		r := updateItemRequest{ctx: ctx, set: set, key: key, seen: time.Now()}
 		l.mu.Lock()
+		if l.shuttingDown {
+			// Items added now may never be saved.
+			l.mu.Unlock()
+			return ErrShuttingDown
+		}
 		e, ok := l.cacheIdx[lazyKey(set, key)]
 		if ok {
 			if l.verbose {
-- 
2.43.0


From b305256be50b0f28e31b2ade180c35c9dbf73ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:02 +0000
Subject: [PATCH 14/57] fix: lazy saver may store an older write after a newer
 one

---
 blobstore/lazysaver.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/blobstore/lazysaver.go b/blobstore/lazysaver.go
index 7362c3d..5cf7614 100644
--- a/blobstore/lazysaver.go
+++ b/blobstore/lazysaver.go
@@ -73,6 +73,12 @@ type updateItemRequest struct {
 	seen     time.Time
 	token    struct{}
 	saving   bool
+
+	// prev is closed when the previous save of the same key is done.
+	// It is nil if there is none in progress.
+	prev <-chan struct{}
+	// done is closed when this item has been saved.
+	done chan struct{}
 }
 
 type lazySaveOption func(*lazySaveOptions) error
@@ -319,6 +325,11 @@ func NewLazySaver(store Store, opts ...lazySaveOption) (*LazySaver, error) {
 
 // caller must hold l.mu.Lock. This lock is released.
 func (l *LazySaver) add(r updateItemRequest) {
+	r.done = make(chan struct{})
+	if e, ok := l.cacheIdx[lazyKey(r.set, r.key)]; ok {
+		// Being saved now, so this must be saved after that.
+		r.prev = e.Value.(updateItemRequest).done
+	}
 	e := l.cache.PushBack(r)
 	l.cacheIdx[lazyKey(r.set, r.key)] = e
 	l.mu.Unlock()
@@ -475,6 +486,10 @@ func (l *LazySaver) startSaver(n int) {
 	for e := range input {
 		v := e.Value.(updateItemRequest)
 		var dataDone []byte
+		if v.prev != nil {
+			// Items are handed out in order, so another saver already has this.
+			<-v.prev
+		}
 		ok := func() bool {
 			ctx, cancel := context.WithTimeout(log.WithValues(ctxb, "set", v.set, "key", v.key), timeout)
 			defer cancel()
@@ -516,6 +531,7 @@ func (l *LazySaver) startSaver(n int) {
 		tokens <- v.token
 		l.mu.Lock()
 		l.cache.Remove(e)
+		close(v.done)
 		lk := lazyKey(v.set, v.key)
 		if found := l.cacheIdx[lk]; e == found {
 			delete(l.cacheIdx, lk)
-- 
2.43.0


From 5a54b4ad2cfa1bc3c7118bb60d3b35a8c6f821a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:36 +0000
Subject: [PATCH 15/57] fix: paging lists backwards returns the closest lists

SortedIDsBefore tracked the smallest selected ID starting from the empty
ID, so lists closest to the provided ID could be left out, and a page of
one returned the wrong list with wrong counts.
---
 lists.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lists.go b/lists.go
index 7be2d7d..5429185 100644
--- a/lists.go
+++ b/lists.go
@@ -443,7 +443,7 @@ func (l *Lists) SortedIDsBefore(to ListID, n int) ([]*List, PageInfo) {
 					return true
 				}
 				s = append(s, string(id))
-				if id < firstElement {
+				if len(s) == 1 || id < firstElement {
 					firstElement = id
 				}
 			} else {
@@ -455,8 +455,8 @@ func (l *Lists) SortedIDsBefore(to ListID, n int) ([]*List, PageInfo) {
 	s.Sort()
 	if cropOne {
 		if len(s) > 1 {
-			page.After++
-			s = s[:1]
+			page.Before++
+			s = s[1:]
 		}
 	}
 	res := make([]*List, 0, len(s))
-- 
2.43.0


From dfc6c57dd946390c628a9de80ca8e976e48a6c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:04 +0000
Subject: [PATCH 16/57] fix: saving and loading the list directory reports
 incomplete data

Errors while flushing the compressed stream were ignored when saving,
loading did not verify the checksum following the end marker, and a
failed save of the backup was reported as success.
---
 lists.go   | 34 +++++++++++++++++++++++++---------
 manager.go | 15 ++++++++++-----
 2 files changed, 35 insertions(+), 14 deletions(-)

diff --git a/lists.go b/lists.go
index 5429185..ad3e7dc 100644
--- a/lists.go
+++ b/lists.go
@@ -85,7 +85,7 @@ const (
 )
 
 // Save the lists.
-func (l Lists) Save(ctx context.Context, w io.Writer) error {
+func (l Lists) Save(ctx context.Context, w io.Writer) (err error) {
 	wc := &writeCounter{w: w}
 	n := 0
 	defer func() {
@@ -98,19 +98,23 @@ func (l Lists) Save(ctx context.Context, w io.Writer) error {
 	c := compressionNone
 	if compressLists {
 		c = compressionZstd
-		enc, err := zstd.NewWriter(wc)
-		if err != nil {
-			return err
+		enc, zerr := zstd.NewWriter(wc)
+		if zerr != nil {
+			return zerr
 		}
 		wm.ReplaceWriter(enc)
-		defer enc.Close()
+		defer func() {
+			cerr := enc.Close()
+			if err == nil {
+				err = cerr
+			}
+		}()
 	}
-	_, err := wc.Write([]byte{c})
+	_, err = wc.Write([]byte{c})
 	if err != nil {
 		return err
 	}
 
-	defer wm.Flush()
 	err = wm.SetVersion(listVersion)
 	if err != nil {
 		return err
@@ -138,8 +142,7 @@ func (l Lists) Save(ctx context.Context, w io.Writer) error {
 	if err != nil {
 		return err
 	}
-	wm.Flush()
-	return nil
+	return msg.Flush()
 }
 
 // Load the lists. Overwrites all existing lists.
@@ -211,6 +214,19 @@ func (l *Lists) Load(ctx context.Context, bs blobstore.Store, b []byte) error {
 			})
 		}
 	}
+	if err == nil {
+		// Check that the end marker is the end, which also verifies checksums.
+		_, err = msg.ReadBool()
+		if err == nil {
+			_, err = msg.R.ReadByte()
+			switch err {
+			case io.EOF:
+				err = nil
+			case nil:
+				err = errors.New("unexpected data after lists")
+			}
+		}
+	}
 	log.Info(ctx, "Loaded lists", "list count", n, "size", len(b), "duration", time.Since(start))
 	if len(lazyLoad) > 0 {
 		go func() {
diff --git a/manager.go b/manager.go
index 701c451..0a7f3e0 100644
--- a/manager.go
+++ b/manager.go
@@ -189,14 +189,19 @@ func (m *Manager) SaveLists(ctx context.Context, backup bool) error {
 	if err != nil {
 		return err
 	}
-	if backup {
+	var backupErr error
+	if backup && m.Backup != nil {
 		// If storing backup, do that first.
-		err := m.Backup.Set(ctx, backupListStorageKey, buf.Bytes())
-		if err != nil {
-			log.Error(ctx, "Unable to save backup")
+		backupErr = m.Backup.Set(ctx, backupListStorageKey, buf.Bytes())
+		if backupErr != nil {
+			log.Error(ctx, "Unable to save backup", "error", backupErr)
 		}
 	}
-	return m.Storage.Set(ctx, m.Set, listStorageKey, buf.Bytes())
+	err = m.Storage.Set(ctx, m.Set, listStorageKey, buf.Bytes())
+	if err != nil {
+		return err
+	}
+	return backupErr
 }
 
 // DeleteList will delete a list and all data associated.
-- 
2.43.0


From 691719fcbda9af73cedba7c16ae6af5271de3280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:07 +0000
Subject: [PATCH 17/57] fix: matching an empty metadata value only matches
 lists having the key

---
 lists.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lists.go b/lists.go
index ad3e7dc..00d8f28 100644
--- a/lists.go
+++ b/lists.go
@@ -319,7 +319,7 @@ func (l *Lists) MatchAll(q map[string]string, sets []string) []ListID {
 			return true
 		}
 		for k, v := range q {
-			if list.Metadata[k] != v {
+			if got, ok := list.Metadata[k]; !ok || got != v {
 				return true
 			}
 		}
-- 
2.43.0


From 5d8d3376052b128389acfae317b7a604508fbebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:03 +0000
Subject: [PATCH 18/57] fix: segments that cannot be saved keep their stored
 state and report errors

---
 segments.go | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/segments.go b/segments.go
index 3c400f1..e5b2485 100644
--- a/segments.go
+++ b/segments.go
@@ -267,6 +267,7 @@ type lockedSegment struct {
 }
 
 // Read lock must be held and locked segment must be write locked.
+// If the elements cannot be saved the segment is left as it was in storage.
 func (s *Segments) replaceSegment(ctx context.Context, bs blobstore.WithSet, ls *lockedSegment) error {
 	if ls.readOnly {
 		panic("replace with read only")
@@ -276,19 +277,29 @@ func (s *Segments) replaceSegment(ctx context.Context, bs blobstore.WithSet, ls
 		ls.seg.loader = &elementLoader{}
 	}
 
-	s.SegmentsLock.Lock()
-	ls.seg.elementsUpdated(ls.elements)
-	if ls.index >= len(s.Segments) || ls.index < 0 {
-		return fmt.Errorf("internal error: locked segment index (%d) out of range (0:%d)", ls.index, len(s.Segments))
+	s.SegmentsLock.RLock()
+	n := len(s.Segments)
+	s.SegmentsLock.RUnlock()
+	if ls.index >= n || ls.index < 0 {
+		return fmt.Errorf("internal error: locked segment index (%d) out of range (0:%d)", ls.index, n)
 	}
-	s.Segments[ls.index] = *ls.seg
-	s.SegmentsLock.Unlock()
 
 	err := ls.saveElements(ctx, bs, ls.elements)
 	if err != nil {
+		// Cached elements may have been modified.
+		if s.cache != nil {
+			s.cache.Remove(ls.seg.cacheID())
+		}
 		return err
 	}
 
+	s.SegmentsLock.Lock()
+	ls.seg.elementsUpdated(ls.elements)
+	if dst := &s.Segments[ls.index]; dst != ls.seg {
+		*dst = *ls.seg
+	}
+	s.SegmentsLock.Unlock()
+
 	if s.cache != nil {
 		s.cache.Add(ls.seg.cacheID(), ls.elements)
 	}
@@ -444,7 +455,11 @@ func (s *Segments) DeleteElements(ctx context.Context, bs blobstore.WithSet, e E
 				log.Info(ctx, "Did not find all elements", "left", len(toDelete)-ndeleted)
 			}
 			ls.elements = ls.elements[:wrtto]
-			s.replaceSegment(ctx, bs, ls)
+			err = s.replaceSegment(ctx, bs, ls)
+			if err != nil {
+				errC <- err
+				return
+			}
 			if withIdx {
 				deleted.Sort()
 				idxC <- deleted
@@ -539,6 +554,7 @@ func (s *Segments) Insert(ctx context.Context, bs blobstore.WithSet, in Elements
 			err = s.replaceSegment(ctx, bs, ls)
 			if err != nil {
 				errC <- err
+				return
 			}
 			if withIdx {
 				idxC <- e.ElementIDs(seg.ID)
-- 
2.43.0


From ae388caaca8f17b68922b8f93b33cb9f27aac499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:09 +0000
Subject: [PATCH 19/57] fix: updates that cannot load or save segments return
 an error

---
 list.go | 64 ++++++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 47 insertions(+), 17 deletions(-)

diff --git a/list.go b/list.go
index 07efd0e..e0c1be6 100644
--- a/list.go
+++ b/list.go
@@ -1289,8 +1289,8 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 	}
 
 	// segmentScoresLoad loads a score by index.
-	var segmentScoresLoad func(segIdx int) *lockedSegment
-	segmentScoresLoad = func(segIdx int) *lockedSegment {
+	var segmentScoresLoad func(segIdx int) (*lockedSegment, error)
+	segmentScoresLoad = func(segIdx int) (*lockedSegment, error) {
 		mu.Lock()
 		ss, ok := segmentScores[segIdx]
 		if !ok {
@@ -1312,14 +1312,14 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 				mu.Lock()
 				delete(segmentScoresWait, segIdx)
 				mu.Unlock()
-				return nil
+				return nil, err
 			}
 			mu.Lock()
 			segmentScores[segIdx] = ss
 			delete(segmentScoresWait, segIdx)
 		}
 		mu.Unlock()
-		return ss
+		return ss, nil
 	}
 
 	// Use if returning early.
@@ -1372,9 +1372,10 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 				scores.SegmentsLock.RLock()
 				segIdx := scores.idx[SegmentID(existing.TieBreaker)]
 				scores.SegmentsLock.RUnlock()
-				ss := segmentScoresLoad(segIdx)
-				if ss == nil {
-					continue
+				ss, err := segmentScoresLoad(segIdx)
+				if err != nil {
+					errs <- err
+					return
 				}
 				if results {
 					// Record rank of old element.
@@ -1398,12 +1399,18 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 		return nil, err
 	}
 	// Split incoming elements to get destination score segments.
-	for sidx, elems := range scores.splitElementsIdx(elems) {
-		// The element should end up in this segment
-		scoreDstSeg := segmentScoresLoad(sidx)
-		if scoreDstSeg == nil {
-			continue
+	// Load all before any segment is modified.
+	dstScores := scores.splitElementsIdx(elems)
+	for sidx := range dstScores {
+		_, err := segmentScoresLoad(sidx)
+		if err != nil {
+			unlockAll()
+			return nil, err
 		}
+	}
+	for sidx, elems := range dstScores {
+		// The element should end up in this segment
+		scoreDstSeg := segmentScores[sidx]
 
 		// Check if element have changed from another segment
 		for _, elem := range elems {
@@ -1454,8 +1461,7 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 			scores.SegmentsLock.RLock()
 			eSid := scores.idx[SegmentID(existing.TieBreaker)]
 			scores.SegmentsLock.RUnlock()
-			rem := segmentScoresLoad(eSid)
-			if rem != nil {
+			if rem := segmentScores[eSid]; rem != nil {
 				err := rem.elements.Delete(elem.ID)
 				if err != nil {
 					log.Info(ctx, "Could not delete existing", "error", err.Error())
@@ -1464,10 +1470,13 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 		}
 	}
 
+	// If segments cannot be saved, save as much as possible and report it.
+	var saveErr error
 	for _, ls := range segmentsIdx {
 		err := index.replaceSegment(ctx, store, ls)
 		if err != nil {
 			log.Error(ctx, "Error saving updated index elements", "error", err.Error())
+			saveErr = err
 		}
 	}
 
@@ -1475,10 +1484,23 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 		err := scores.replaceSegment(ctx, store, ls)
 		if err != nil {
 			log.Error(ctx, "Error saving updated score elements", "error", err.Error())
+			saveErr = err
 		}
 	}
 	wg.Wait()
+	if saveErr != nil {
+		err := l.saveSegments(ctx, bs, segs)
+		if err != nil {
+			log.Error(ctx, "Error saving segments", "error", err.Error())
+		}
+		return nil, saveErr
+	}
 	l.checkSanity(ctx, bs, "update", segs)
+	l.checkSplit(ctx, bs, segs)
+	err = l.saveSegments(ctx, bs, segs)
+	if err != nil {
+		return nil, err
+	}
 
 	// Get updated when everything is said and done.
 	updated := []RankedElement{}
@@ -1494,9 +1516,7 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 			updated[i] = elem
 		}
 	}
-
-	l.checkSplit(ctx, bs, segs)
-	return updated, l.saveSegments(ctx, bs, segs)
+	return updated, nil
 }
 
 // deleteElements will delete elements with the supplied ids.
@@ -1539,6 +1559,11 @@ func (l *List) DeleteElements(ctx context.Context, bs blobstore.Store, ids []Ele
 		return nil
 	}()
 	if err != nil {
+		// Some segments may have been updated.
+		serr := l.saveSegments(ctx, bs, segs)
+		if serr != nil {
+			log.Error(ctx, "Error saving segments", "error", serr.Error())
+		}
 		return err
 	}
 	l.checkSplit(ctx, bs, segs)
@@ -1557,6 +1582,11 @@ func (l *List) Insert(ctx context.Context, bs blobstore.Store, e Elements) error
 	defer segs.unlock()
 	err = l.insert(ctx, bs, e, segs)
 	if err != nil {
+		// Some segments may have been updated.
+		serr := l.saveSegments(ctx, bs, segs)
+		if serr != nil {
+			log.Error(ctx, "Error saving segments", "error", serr.Error())
+		}
 		return err
 	}
 	l.checkSplit(ctx, bs, segs)
-- 
2.43.0


From 8cc5f6e830fd60d3c29b996087b694a9869ea0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:43 +0000
Subject: [PATCH 20/57] fix: splitting and merging keep stored elements when a
 save fails or is interrupted

---
 list.go     | 52 ++++++++++++++++++++++++++++++++--------------------
 segments.go | 23 +++++++++++++++++++++++
 2 files changed, 55 insertions(+), 20 deletions(-)

diff --git a/list.go b/list.go
index e0c1be6..b40b632 100644
--- a/list.go
+++ b/list.go
@@ -2106,7 +2106,7 @@ func (l *List) requestSplit(ctx context.Context) {
 // split will check all segments if they need splitting or merging and do so.
 // If no segments are provided, they will be acquired from the list.
 // Segments are saved if splitting is done.
-func (l *List) split(ctx context.Context, bs blobstore.Store, segs *segments, merge bool) error {
+func (l *List) split(ctx context.Context, bs blobstore.Store, segs *segments, merge bool) (err error) {
 	ctx = log.WithFn(ctx)
 	if segs != nil && segs.readOnly {
 		return errors.New("split: readonly segments supplied")
@@ -2115,12 +2115,17 @@ func (l *List) split(ctx context.Context, bs blobstore.Store, segs *segments, me
 		return errors.New("split: segments supplied without update lock")
 	}
 	if segs == nil {
-		var err error
 		segs, err = l.loadSegments(ctx, bs, segsWritable|segsLockUpdates)
 		if err != nil {
 			return err
 		}
 		defer segs.unlock()
+		defer func() {
+			if err != nil {
+				// Discard unsaved changes and use what was stored.
+				l.scores, l.index = nil, nil
+			}
+		}()
 	}
 
 	l.RLock()
@@ -2142,6 +2147,9 @@ func (l *List) split(ctx context.Context, bs blobstore.Store, segs *segments, me
 	// We must retain both lists for update.
 	updated := false
 
+	// Error deleting segments that are no longer used.
+	var deleteErr error
+
 	for i := 0; i < len(scores.Segments); i++ {
 		seg := &scores.Segments[i]
 		if seg.N < splitSize {
@@ -2173,9 +2181,15 @@ func (l *List) split(ctx context.Context, bs blobstore.Store, segs *segments, me
 				if err != nil {
 					return err
 				}
-				err = ls.seg.deleteElements(ctx, store)
+				// Stop referring to the merged segment before deleting it.
+				err = scores.Save(ctx, store)
+				if err != nil {
+					return err
+				}
+				err = scores.deleteSegment(ctx, store, ls.seg)
 				if err != nil {
 					log.Info(ctx, "deleteElements returned error", "error", err.Error())
+					deleteErr = err
 				}
 				updIdx = append(updIdx, ch...)
 				updated = true
@@ -2201,11 +2215,7 @@ func (l *List) split(ctx context.Context, bs blobstore.Store, segs *segments, me
 				return nil
 			}
 			// Save changed segments
-			err = scores.replaceSegment(ctx, store, ls)
-			if err != nil {
-				return err
-			}
-			err = scores.replaceSegment(ctx, store, newSeg)
+			err = scores.saveSplit(ctx, store, ls, newSeg)
 			if err != nil {
 				return err
 			}
@@ -2226,7 +2236,7 @@ func (l *List) split(ctx context.Context, bs blobstore.Store, segs *segments, me
 	}
 
 	// Update indexes of split/merged elements
-	err := index.updateIndexElements(ctx, store, updIdx)
+	err = index.updateIndexElements(ctx, store, updIdx)
 	if err != nil {
 		log.Error(ctx, "Index update returned error", "error", err.Error())
 		return err
@@ -2269,9 +2279,15 @@ func (l *List) split(ctx context.Context, bs blobstore.Store, segs *segments, me
 				if err != nil {
 					return err
 				}
-				err = ls.seg.deleteElements(ctx, store)
+				// Stop referring to the merged segment before deleting it.
+				err = index.Save(ctx, store)
+				if err != nil {
+					return err
+				}
+				err = index.deleteSegment(ctx, store, ls.seg)
 				if err != nil {
 					log.Info(ctx, "deleteElements returned error", "error", err.Error())
+					deleteErr = err
 				}
 
 				updated = true
@@ -2300,15 +2316,7 @@ func (l *List) split(ctx context.Context, bs blobstore.Store, segs *segments, me
 			}
 
 			// Save updated segments.
-			err = index.replaceSegment(ctx, store, newSeg)
-			if err != nil {
-				return err
-			}
-			err = index.replaceSegment(ctx, store, ls)
-			if err != nil {
-				return err
-			}
-			return nil
+			return index.saveSplit(ctx, store, ls, newSeg)
 		}()
 		if err != nil {
 			log.Error(ctx, "Index merge returned error", "error", err.Error(), "seg_id", seg.ID, "seg_idx", i)
@@ -2324,5 +2332,9 @@ func (l *List) split(ctx context.Context, bs blobstore.Store, segs *segments, me
 	// invalidate index
 	index.idx = nil
 
-	return l.saveSegments(ctx, bs, segs)
+	err = l.saveSegments(ctx, bs, segs)
+	if err != nil {
+		return err
+	}
+	return deleteErr
 }
diff --git a/segments.go b/segments.go
index e5b2485..b6edca5 100644
--- a/segments.go
+++ b/segments.go
@@ -308,6 +308,29 @@ func (s *Segments) replaceSegment(ctx context.Context, bs blobstore.WithSet, ls
 	return nil
 }
 
+// saveSplit will save a segment that has been split and the segment that was added by the split.
+// The added segment must be part of the stored segments before elements are removed from the other.
+// Both segments are unlocked.
+func (s *Segments) saveSplit(ctx context.Context, bs blobstore.WithSet, ls, added *lockedSegment) error {
+	err := s.replaceSegment(ctx, bs, added)
+	if err == nil {
+		err = s.Save(ctx, bs)
+	}
+	if err != nil {
+		ls.unlock()
+		return err
+	}
+	return s.replaceSegment(ctx, bs, ls)
+}
+
+// deleteSegment will delete the stored elements of a segment that is no longer part of s.
+func (s *Segments) deleteSegment(ctx context.Context, bs blobstore.WithSet, seg *Segment) error {
+	if s.cache != nil {
+		s.cache.Remove(seg.cacheID())
+	}
+	return seg.deleteElements(ctx, bs)
+}
+
 // newLockedSegment creates a new locked segment with the content of the provided segment.
 // The segment is added to s, but not saved.
 func (s *Segments) newLockedSegment(ctx context.Context, bs blobstore.WithSet, seg *Segment) *lockedSegment {
-- 
2.43.0


From b855163abb3049c48ab26e1616d5adceaa91dfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:32 +0000
Subject: [PATCH 21/57] fix: replaced and deleted list content is kept until
 new content is stored, lost segments can be repaired

---
 blobstore/blobstore.go |   2 +
 blobstore/maxsize.go   |   3 +-
 list.go                | 253 ++++++++++++++++++++++++-----------------
 manager.go             |   7 +-
 segments.go            |  11 +-
 5 files changed, 169 insertions(+), 107 deletions(-)

diff --git a/blobstore/blobstore.go b/blobstore/blobstore.go
index 7f31068..a0b46d4 100644
--- a/blobstore/blobstore.go
+++ b/blobstore/blobstore.go
@@ -83,6 +83,8 @@ var (
 	ErrBlobTooBig = errors.New("blob size exceeded")
 	// ErrBlobExists is returned if a blob exists when create is called.
 	ErrBlobExists = errors.New("blob already exists")
+	// ErrBlobCorrupt is returned when a stored blob is invalid.
+	ErrBlobCorrupt = errors.New("corrupt blob")
 	// ErrShuttingDown is returned when server is shutting down.
 	ErrShuttingDown = errors.New("server is shutting down")
 )
diff --git a/blobstore/maxsize.go b/blobstore/maxsize.go
index e12dc4d..3315954 100644
--- a/blobstore/maxsize.go
+++ b/blobstore/maxsize.go
@@ -7,7 +7,6 @@ package blobstore
 import (
 	"context"
 	"encoding/binary"
-	"errors"
 	"fmt"
 	"math"
 	"strconv"
@@ -74,7 +73,7 @@ func (r *MaxSizeStore) Get(ctx context.Context, set, key string) ([]byte, error)
 	}
 	n, size := binary.Uvarint(b)
 	if size < 1 {
-		return nil, errors.New("corrupt blob")
+		return nil, ErrBlobCorrupt
 	}
 	b = b[size:]
 	if n == 0 {
diff --git a/list.go b/list.go
index b40b632..6322dcc 100644
--- a/list.go
+++ b/list.go
@@ -22,6 +22,7 @@ import (
 
 	"github.com/Vivino/rankdb/blobstore"
 	"github.com/Vivino/rankdb/log"
+	"github.com/tinylib/msgp/msgp"
 )
 
 // List contains the segments representing a list
@@ -244,6 +245,8 @@ func (l *List) updateSegments(ctx context.Context, s *segments) {
 		log.Error(ctx, "Was sent segment for update with readonly segment")
 		return
 	}
+	l.Lock()
+	defer l.Unlock()
 	l.scores = s.scores
 	l.index = s.index
 	if s.scores != nil {
@@ -280,8 +283,23 @@ const (
 
 	// Opposite of segsLockUpdates. Specified for code clarity.
 	segsAllowUpdates
+
+	// Return segments without content for segments that are lost.
+	// Use when the content will be replaced or deleted.
+	segsAllowLost
 )
 
+// isLost returns whether an error loading content means that the content
+// doesn't exist or is invalid, so loading it again will not help.
+func isLost(err error) bool {
+	switch err {
+	case blobstore.ErrBlobNotFound, blobstore.ErrBlobCorrupt, ErrNotFound, ErrVersionMismatch:
+		return true
+	}
+	_, ok := err.(msgp.Error)
+	return ok
+}
+
 // segments is a structure that controls access to "scores" and "index" *Segments.
 // (*List).loadSegments() or (*List).newSegments()
 type segments struct {
@@ -290,6 +308,10 @@ type segments struct {
 	unlock       func()
 	readOnly     bool
 	updateLocked bool
+	// lost is set if scores could not be loaded. Only with segsAllowLost.
+	lost error
+	// indexErr is set if the index could not be loaded, but may still exist. Only with segsAllowLost.
+	indexErr error
 }
 
 // removeUnlock will remove the unlock function and make it print an error
@@ -365,31 +387,56 @@ func (l *List) loadSegments(ctx context.Context, bs blobstore.Store, fl loadFlag
 		s.readOnly = false
 	}
 
-	if s.scores == nil && !l.Scores.Unset() {
-		s.scores, err = l.Scores.Load(ctx, blobstore.StoreWithSet(bs, l.Set), l.cache)
+	allowLost := fl&segsAllowLost != 0
+	stubs := false
+	if s.scores == nil {
+		err = ErrNotFound
+		if !l.Scores.Unset() {
+			s.scores, err = l.Scores.Load(ctx, blobstore.StoreWithSet(bs, l.Set), l.cache)
+		}
 		if err != nil {
-			log.Error(ctx, "Error loading scores segments", "error", err, "scores_id", l.Scores, "list_id", l.ID)
-			s.unlock()
-			return nil, err
+			if !l.Scores.Unset() {
+				log.Error(ctx, "Error loading scores segments", "error", err, "scores_id", l.Scores, "list_id", l.ID)
+			}
+			if !allowLost || !isLost(err) {
+				s.unlock()
+				return nil, err
+			}
+			s.lost = err
+			s.scores = &Segments{ID: l.Scores, NextID: 1}
+			stubs = true
 		}
 	}
 
-	if s.index == nil && !l.Index.Unset() {
-		s.index, err = l.Index.Load(ctx, blobstore.StoreWithSet(bs, l.Set), l.cache)
+	if s.index == nil {
+		err = ErrNotFound
+		if !l.Index.Unset() {
+			s.index, err = l.Index.Load(ctx, blobstore.StoreWithSet(bs, l.Set), l.cache)
+		}
 		if err != nil {
-			log.Error(ctx, "Error loading index segments", "error", err, "index_id", l.Index, "list_id", l.ID)
+			if !l.Index.Unset() {
+				log.Error(ctx, "Error loading index segments", "error", err, "index_id", l.Index, "list_id", l.ID)
+			}
 			// Ditch index and reindex.
-			nindex := NewSegments(0, false)
-			nindex.IsIndex = true
-			s.index = nindex
-
-			err := l.reindex(ctx, bs, &s)
-			if err != nil {
-				s.unlock()
-				return nil, err
+			s.index = &Segments{ID: l.Index, NextID: 1, IsIndex: true}
+			if allowLost {
+				stubs = true
+				if !isLost(err) {
+					s.indexErr = err
+				}
+			} else {
+				err := l.reindex(ctx, bs, &s)
+				if err != nil {
+					s.unlock()
+					return nil, err
+				}
 			}
 		}
 	}
+	if stubs {
+		// Do not use these for other operations.
+		return &s, nil
+	}
 	l.updateSegments(ctx, &s)
 	// Return read only if that was what was requested.
 	if readOnly {
@@ -460,9 +507,6 @@ func (l *List) saveSegments(ctx context.Context, bs blobstore.Store, s *segments
 	if s == nil {
 		return errors.New("no segments provided")
 	}
-	if !s.readOnly {
-		l.updateSegments(ctx, s)
-	}
 	l.RLock()
 	set := l.Set
 	l.RUnlock()
@@ -483,6 +527,9 @@ func (l *List) saveSegments(ctx context.Context, bs blobstore.Store, s *segments
 	} else {
 		log.Info(ctx, "index not loaded, cannot save")
 	}
+	if !s.readOnly {
+		l.updateSegments(ctx, s)
+	}
 	return nil
 }
 
@@ -755,28 +802,26 @@ func (l *List) reindex(ctx context.Context, bs blobstore.Store, segs *segments)
 		return err
 	}
 
-	// Save index.
-	err = newIdx.Save(ctx, store)
-	if err != nil {
-		log.Error(ctx, "Saving new index:", "err", err)
-		return err
-	}
-
-	// Delete old
-	err = segs.index.Delete(ctx, store)
-	if err != nil {
-		// We will survive, but want to know
-		log.Error(ctx, "Deleting index:", "err", err)
-	}
+	newIdx.cache = l.cache
 
-	// Replace
+	// Save and replace
+	old := segs.index
 	segs.index = newIdx
 	err = l.saveSegments(ctx, bs, segs)
 	if err != nil {
-		segs.unlock()
+		log.Error(ctx, "Saving new index:", "err", err)
+		segs.index = old
 		return err
 	}
 
+	// Delete old
+	if old != nil {
+		err = old.Delete(ctx, store)
+		if err != nil {
+			log.Error(ctx, "Deleting index:", "err", err)
+			return err
+		}
+	}
 	return nil
 }
 
@@ -808,24 +853,25 @@ func (l *List) VerifyUnlocked(ctx context.Context, timeout time.Duration) error
 	}
 	ok = make(chan struct{}, 0)
 
-	// We need read lock.
+	// Do not hold the list lock while waiting, it is acquired by operations holding the others.
 	l.RLock()
-	defer l.RUnlock()
+	index, scores := l.index, l.scores
+	l.RUnlock()
 	testLock(log.Logger(ctx).New("lock", "list.loadingLock"), fail, &l.loadingLock, wg)
 	testLock(log.Logger(ctx).New("lock", "list.segmentsLock"), fail, &l.segmentsLock, wg)
 	testLock(log.Logger(ctx).New("lock", "list.updateLock"), fail, &l.updateLock, wg)
-	if l.index != nil {
-		testLock(log.Logger(ctx).New("lock", "list.index.segmentstats"), fail, &l.index.SegmentsLock, wg)
-		for i := range l.index.Segments {
-			seg := &l.index.Segments[i]
+	if index != nil {
+		testLock(log.Logger(ctx).New("lock", "list.index.segmentstats"), fail, &index.SegmentsLock, wg)
+		for i := range index.Segments {
+			seg := &index.Segments[i]
 			testLock(log.Logger(ctx).New("lock", "list.index.loader.Mu", "segment", i, "segment_id", seg.cacheID()), fail, &seg.loader.Mu, wg)
 			testLock(log.Logger(ctx).New("lock", "list.index.loader.LoadingMu", "segment", i, "segment_id", seg.cacheID()), fail, &seg.loader.LoadingMu, wg)
 		}
 	}
-	if l.scores != nil {
-		testLock(log.Logger(ctx).New("lock", "list.scores.segmentstats"), fail, &l.scores.SegmentsLock, wg)
-		for i := range l.scores.Segments {
-			seg := &l.scores.Segments[i]
+	if scores != nil {
+		testLock(log.Logger(ctx).New("lock", "list.scores.segmentstats"), fail, &scores.SegmentsLock, wg)
+		for i := range scores.Segments {
+			seg := &scores.Segments[i]
 			testLock(log.Logger(ctx).New("lock", "list.scores.loader.Mu", "segment", i, "segment_id", seg.cacheID()), fail, &seg.loader.Mu, wg)
 			testLock(log.Logger(ctx).New("lock", "list.scores.loader.LoadingMu", "segment", i, "segment_id", seg.cacheID()), fail, &seg.loader.LoadingMu, wg)
 		}
@@ -868,10 +914,10 @@ func testLock(log log.Adapter, fail chan struct{}, locker sync.Locker, wg *sync.
 // Elements are assumed to be de-duplicated.
 func (l *List) Populate(ctx context.Context, bs blobstore.Store, e Elements) error {
 	ctx = log.WithFn(ctx)
-	segs, err := l.loadSegments(ctx, bs, segsWritable|segsLockUpdates)
+	segs, err := l.loadSegments(ctx, bs, segsWritable|segsLockUpdates|segsAllowLost)
 	if err != nil {
-		// Log error, but proceed.
 		log.Error(ctx, "Populate: error loading existing segments", "error", err.Error())
+		return err
 	}
 	segs, err = l.populate(ctx, bs, e, segs)
 	if segs != nil {
@@ -882,27 +928,34 @@ func (l *List) Populate(ctx context.Context, bs blobstore.Store, e Elements) err
 
 // Populate will replace content of list with the supplied elements.
 // Elements are assumed to be de-duplicated.
+// The existing content is deleted when the new content has been saved.
 // Even if an error is returned, the returned segments must be unlocked of not nil.
 func (l *List) populate(ctx context.Context, bs blobstore.Store, e Elements, segs *segments) (*segments, error) {
 	ctx = log.WithFn(ctx, "list_id", l.ID)
-	store := blobstore.StoreWithSet(bs, l.Set)
-
-	l.RLock()
-	hasValid := (!l.Scores.Unset() || !l.Index.Unset()) && segs != nil
-	l.RUnlock()
-	if hasValid {
-		err := l.deleteAll(ctx, bs, segs)
-		if err != nil {
-			return segs, err
-		}
+	var old segments
+	if segs != nil {
+		old = *segs
 	}
+	var err error
 	if len(e) == 0 {
-		segs, err := l.initEmptyList(ctx, bs, segs)
+		segs, err = l.initEmptyList(ctx, bs, segs)
+	} else {
+		segs, err = l.populateElements(ctx, bs, e, segs)
+	}
+	if err != nil {
 		return segs, err
 	}
+	return segs, l.deleteSegments(ctx, bs, &old)
+}
 
-	// Retain full lock while populating.
-	l.Lock()
+// populateElements creates new segments with the supplied elements.
+// Even if an error is returned, the returned segments must be unlocked of not nil.
+func (l *List) populateElements(ctx context.Context, bs blobstore.Store, e Elements, segs *segments) (*segments, error) {
+	l.RLock()
+	store := blobstore.StoreWithSet(bs, l.Set)
+	mergeSize := l.MergeSize
+	splitSize := l.SplitSize
+	l.RUnlock()
 
 	// Above ~200k we get significant slowdown, we defer these.
 	var deferred Elements
@@ -922,13 +975,13 @@ func (l *List) populate(ctx context.Context, bs blobstore.Store, e Elements, seg
 	e.Sort()
 
 	// Calculate size of each segment
-	wantSize := (l.MergeSize + l.SplitSize) / 2
+	wantSize := (mergeSize + splitSize) / 2
 	if len(deferred) > 0 {
 		factor := float64(len(deferred)+len(e)) / float64(len(e))
 		wantSize = int(float64(wantSize) / factor)
 		// Avoid too many merges.
-		if wantSize < l.MergeSize/4 {
-			wantSize = l.MergeSize / 4
+		if wantSize < mergeSize/4 {
+			wantSize = mergeSize / 4
 		}
 	}
 
@@ -939,7 +992,6 @@ func (l *List) populate(ctx context.Context, bs blobstore.Store, e Elements, seg
 	ids := IndexElements{make(Elements, 0, len(e))}
 	scores, err := NewSegmentsElements(ctx, store, split, &ids)
 	if err != nil {
-		l.Unlock()
 		return segs, err
 	}
 	scores.cache = l.cache
@@ -950,21 +1002,17 @@ func (l *List) populate(ctx context.Context, bs blobstore.Store, e Elements, seg
 	split = ids.SplitSize(wantSize)
 	idx, err := NewSegmentsElements(ctx, store, split, nil)
 	if err != nil {
-		segs.unlock()
 		return segs, err
 	}
 	idx.cache = l.cache
 	segs.index = idx
-	l.Unlock()
 
 	if len(deferred) > 0 {
-		l.updateSegments(ctx, segs)
 		err = l.insert(ctx, bs, deferred, segs)
 		if err != nil {
 			return segs, err
 		}
 	}
-	l.updateSegments(ctx, segs)
 	err = l.saveSegments(ctx, bs, segs)
 	if err != nil {
 		return segs, err
@@ -1120,48 +1168,48 @@ func (l *List) ReleaseSegments(ctx context.Context) {
 func (l *List) DeleteAll(ctx context.Context, bs blobstore.Store) error {
 	ctx = log.WithFn(ctx)
 	// Ensure segments are loaded.
-	segs, err := l.loadSegments(ctx, bs, segsWritable|segsLockUpdates)
+	segs, err := l.loadSegments(ctx, bs, segsWritable|segsLockUpdates|segsAllowLost)
 	if err != nil {
 		log.Error(ctx, "Error loading segments for delete", "err", err)
-		// Ignore, we are deleting anyway.
-		return nil
+		return err
 	}
 	defer segs.unlock()
-	return l.deleteAll(ctx, bs, segs)
-}
-
-// deleteAll will delete all stored content of a list.
-func (l *List) deleteAll(ctx context.Context, bs blobstore.Store, segs *segments) error {
-	ctx = log.WithFn(ctx)
-	if segs == nil {
-		return errors.New("deleteAll: nil segments provided")
-	}
-	if segs.readOnly {
-		return errors.New("deleteAll: readOnly segments provided")
-	}
-	if !segs.updateLocked {
-		return errors.New("deleteAll: segments without update lock provided")
+	if segs.indexErr != nil {
+		return segs.indexErr
 	}
+	err = l.deleteSegments(ctx, bs, segs)
 	l.Lock()
 	defer l.Unlock()
+	l.scores = nil
+	l.index = nil
+	if err != nil {
+		// Keep IDs, so delete can be tried again.
+		return err
+	}
+	l.Index = ""
+	l.Scores = ""
+	return nil
+}
 
+// deleteSegments will delete all stored content of segments.
+func (l *List) deleteSegments(ctx context.Context, bs blobstore.Store, segs *segments) error {
+	l.RLock()
 	store := blobstore.StoreWithSet(bs, l.Set)
+	l.RUnlock()
 	if segs.scores != nil {
 		err := segs.scores.Delete(ctx, store)
 		if err != nil {
 			log.Error(ctx, "Error Deleting Scores", "error", err)
+			return err
 		}
 	}
 	if segs.index != nil {
 		err := segs.index.Delete(ctx, store)
 		if err != nil {
 			log.Error(ctx, "Error Deleting Index", "error", err)
+			return err
 		}
 	}
-	l.scores = nil
-	l.index = nil
-	l.Index = ""
-	l.Scores = ""
 	return nil
 }
 
@@ -1606,7 +1654,7 @@ func (l *List) insert(ctx context.Context, bs blobstore.Store, e Elements, segs
 	store := blobstore.StoreWithSet(bs, l.Set)
 
 	// Limit single inserts to inserting max into each segment.
-	var wantLimit = (l.SplitSize / 4) * len(l.index.Segments)
+	var wantLimit = (l.SplitSize / 4) * len(segs.index.Segments)
 	if wantLimit > 100000 {
 		wantLimit = 100000
 	}
@@ -1827,18 +1875,16 @@ func (l *List) checkSanity(ctx context.Context, bs blobstore.Store, after string
 // Repair will repair the list.
 // So far this is fairly brutally done by loading all segments and recreating scores and indexes.
 func (l *List) Repair(ctx context.Context, bs blobstore.Store, clearIfErr bool) error {
-	store := blobstore.StoreWithSet(bs, l.Set)
-	stats, _ := l.Stats(ctx, bs, false)
-
 	l.RLock()
+	store := blobstore.StoreWithSet(bs, l.Set)
 	ctx = log.WithValues(ctx, "list_id", l.ID)
 	l.RUnlock()
 
-	segs, err := l.loadSegments(ctx, bs, segsWritable|segsLockUpdates)
+	segs, err := l.loadSegments(ctx, bs, segsWritable|segsLockUpdates|segsAllowLost)
 	if err != nil {
-		if (err == blobstore.ErrBlobNotFound && l.scores == nil) || (clearIfErr && l.scores == nil) {
+		if clearIfErr {
 			log.Logger(ctx).Error("Repair: Could not load segments. list cleared", "list_id", l.ID)
-			segs, err := l.initEmptyList(ctx, bs, segs)
+			segs, err := l.initEmptyList(ctx, bs, nil)
 			if segs != nil {
 				segs.unlock()
 			}
@@ -1851,29 +1897,30 @@ func (l *List) Repair(ctx context.Context, bs blobstore.Store, clearIfErr bool)
 			segs.unlock()
 		}
 	}()
+	if segs.lost != nil && segs.lost != blobstore.ErrBlobNotFound && !clearIfErr {
+		return segs.lost
+	}
 
-	// Now that no-one else is updating, make sure that no-one else reads from the list while we rebuild.
-	l.Lock()
-	segs.scores.SegmentsLock.Lock()
+	// Now that no-one else is updating or reading, collect everything that can be read.
 	segments := segs.scores.Segments
-	allElements := make(Elements, 0, stats.Elements)
+	allElements := make(Elements, 0, segs.scores.Elements())
 	for i := range segments {
 		seg, err := segs.scores.elementFullIdx(ctx, store, i, true)
 		if err != nil {
 			log.Error(ctx, "Repair: Error loading elements", "error", err)
+			if !isLost(err) && !clearIfErr {
+				return err
+			}
 			continue
 		}
 
-		elems := seg.elements
+		elems := seg.elements.Clone(false)
 		if elems.Deduplicate() {
 			log.Info(ctx, "Elements de-duplicated", "before_elems", len(seg.elements), "after_elems", len(elems), "segment_id", seg.seg.ID)
 		}
 		allElements = append(allElements, elems...)
 		seg.unlock()
 	}
-	// Unlock so we can re-populate.
-	l.Unlock()
-	segs.scores.SegmentsLock.Unlock()
 
 	if allElements.Deduplicate() {
 		log.Info(ctx, "Elements deduplicated")
diff --git a/manager.go b/manager.go
index 0a7f3e0..6ffe7b8 100644
--- a/manager.go
+++ b/manager.go
@@ -211,5 +211,10 @@ func (m *Manager) DeleteList(ctx context.Context, id ListID) error {
 		return nil
 	}
 	m.Lists.Delete(id)
-	return lst.DeleteAll(ctx, m.Storage)
+	err := lst.DeleteAll(ctx, m.Storage)
+	if err != nil {
+		// Keep the list, unless it has been replaced, so it can be deleted later.
+		m.Lists.lists.LoadOrStore(id, lst)
+	}
+	return err
 }
diff --git a/segments.go b/segments.go
index b6edca5..af19d1c 100644
--- a/segments.go
+++ b/segments.go
@@ -919,8 +919,13 @@ func (s SegmentsID) Load(ctx context.Context, store blobstore.WithSet, cache Cac
 }
 
 // Delete will delete the segments representation and elements.
+// If elements cannot be deleted the representation is kept, so it can be attempted again.
 func (s *Segments) Delete(ctx context.Context, store blobstore.WithSet) error {
+	if s.ID.Unset() {
+		return nil
+	}
 	var wg sync.WaitGroup
+	var errC = make(chan error)
 	wg.Add(len(s.Segments))
 	for i := range s.Segments {
 		elem := &s.Segments[i]
@@ -932,10 +937,14 @@ func (s *Segments) Delete(ctx context.Context, store blobstore.WithSet) error {
 			err := s.deleteElements(ctx, store)
 			if err != nil {
 				log.Error(ctx, "Unable to delete segment", "id", s.ID, "error", err)
+				errC <- err
 			}
 		}(elem)
 	}
-	wg.Wait()
+	err := waitErr(ctx, errC, &wg)
+	if err != nil {
+		return err
+	}
 	s.Segments = nil
 	return store.Delete(ctx, string(s.ID))
 }
-- 
2.43.0


From 697d72a4c5341ab78c62aca0c652fc8adaeebccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:40 +0000
Subject: [PATCH 22/57] fix: list stats report load errors and count cache hits
 once

---
 list.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/list.go b/list.go
index 6322dcc..fa40259 100644
--- a/list.go
+++ b/list.go
@@ -18,6 +18,7 @@ import (
 	"runtime/pprof"
 	"sort"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/Vivino/rankdb/blobstore"
@@ -1071,26 +1072,26 @@ func (l *List) Stats(ctx context.Context, bs blobstore.Store, elements bool) (*L
 
 	res.Elements = scores.Elements()
 	res.Segments = len(scores.Segments)
-	if scores != nil {
-		res.CacheHits = l.scores.cacheHits + l.index.cacheHits
-		res.CacheMisses = l.scores.cacheMisses + l.index.cacheMisses
-	}
-	if index != nil {
-		res.CacheHits += index.cacheHits
-		res.CacheMisses += index.cacheMisses
-	}
+	res.CacheHits = atomic.LoadUint64(&scores.cacheHits) + atomic.LoadUint64(&index.cacheHits)
+	res.CacheMisses = atomic.LoadUint64(&scores.cacheMisses) + atomic.LoadUint64(&index.cacheMisses)
 
 	if res.CacheMisses+res.CacheHits > 0 {
 		res.CachePct = 100 * float64(res.CacheHits) / float64(res.CacheMisses+res.CacheHits)
 	}
 	if elements {
 		es, err := l.getRankTop(ctx, bs, 0, 1, segs)
+		if err != nil && err != ErrOffsetOutOfBounds {
+			return nil, err
+		}
 		if err == nil && len(es) > 0 {
 			top := RankedElement{Element: es[0]}
 			top.CalculateFromBottom(res.Elements)
 			res.Top = &top
 		}
 		es, err = l.getRankBottom(ctx, bs, 0, 1, segs)
+		if err != nil && err != ErrOffsetOutOfBounds {
+			return nil, err
+		}
 		if err == nil && len(es) > 0 {
 			bottom := RankedElement{Element: es[0], FromTop: res.Elements - 1}
 			res.Bottom = &bottom
-- 
2.43.0


From 78c00d3c258b0e9c4aea9dc3f31ae26c300e9cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:05 +0000
Subject: [PATCH 23/57] fix: verification reads segments while they are updated

---
 list.go     | 8 ++++----
 segments.go | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/list.go b/list.go
index fa40259..32769c3 100644
--- a/list.go
+++ b/list.go
@@ -642,10 +642,10 @@ func (l *List) verify(ctx context.Context, bs blobstore.Store, segs *segments) e
 			return fmt.Errorf("Index Segments ID not set on list.")
 		}
 		if segs.scores.ID != l.Scores {
-			return fmt.Errorf("Scores Segments ID mismatch. List: %v, Segments:%v", l.Scores, l.scores.ID)
+			return fmt.Errorf("Scores Segments ID mismatch. List: %v, Segments:%v", l.Scores, segs.scores.ID)
 		}
 		if segs.index.ID != l.Index {
-			return IndexError(fmt.Errorf("Index Segments ID mismatch. List: %v, Segments:%v", l.Index, l.index.ID))
+			return IndexError(fmt.Errorf("Index Segments ID mismatch. List: %v, Segments:%v", l.Index, segs.index.ID))
 		}
 		if segs.scores.IsIndex {
 			return fmt.Errorf("Score Segments was marked as index.")
@@ -673,7 +673,7 @@ func (l *List) verify(ctx context.Context, bs blobstore.Store, segs *segments) e
 	psegn := lMergeSize
 	for i := range segs.scores.Segments {
 		segs.scores.SegmentsLock.RLock()
-		seg := &segs.scores.Segments[i]
+		seg := segs.scores.Segments[i]
 		segs.scores.SegmentsLock.RUnlock()
 		if seg.Parent != lScores {
 			return ScoreError(fmt.Errorf("Scores Segment %d Parent ID mismatch. List: %v, Segment:%v", i, lScores, seg.Parent))
@@ -696,7 +696,7 @@ func (l *List) verify(ctx context.Context, bs blobstore.Store, segs *segments) e
 	psegn = lMergeSize
 	for i := range segs.index.Segments {
 		segs.index.SegmentsLock.RLock()
-		seg := &l.index.Segments[i]
+		seg := segs.index.Segments[i]
 		segs.index.SegmentsLock.RUnlock()
 		if seg.Parent != lIndex {
 			return IndexError(fmt.Errorf("Index Segment %d Parent ID mismatch. List: %v, Segment:%v", i, lIndex, seg.Parent))
diff --git a/segments.go b/segments.go
index af19d1c..4808694 100644
--- a/segments.go
+++ b/segments.go
@@ -710,7 +710,7 @@ func (s *Segments) Verify(ctx context.Context, bs blobstore.WithSet) error {
 	for i := range s.Segments {
 		err := func(i int) error {
 			s.SegmentsLock.RLock()
-			v := &s.Segments[i]
+			v := s.Segments[i]
 			s.SegmentsLock.RUnlock()
 
 			prefix := fmt.Sprintf("Segment %v:", v.ID)
@@ -730,7 +730,7 @@ func (s *Segments) Verify(ctx context.Context, bs blobstore.WithSet) error {
 				}
 			} else {
 				s.SegmentsLock.RLock()
-				prev := &s.Segments[i-1]
+				prev := s.Segments[i-1]
 				s.SegmentsLock.RUnlock()
 				// Maximum of this should be just after minimum of previous
 				wantScore, wantTie := Element{Score: prev.Min, TieBreaker: prev.MinTie}.PrevMax()
-- 
2.43.0


From c7a59c68e8ada3884cf99bff5d735374ef8e3fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:29 +0000
Subject: [PATCH 24/57] fix: cloning takes a consistent copy and reports failed
 saves

---
 list.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/list.go b/list.go
index 32769c3..e66bd42 100644
--- a/list.go
+++ b/list.go
@@ -538,7 +538,7 @@ func (l *List) saveSegments(ctx context.Context, bs blobstore.Store, s *segments
 func (l *List) cloneElements(ctx context.Context, bs blobstore.Store, org *List) error {
 	ctx = log.WithFn(ctx)
 	// Ensure segments are loaded.
-	oSegs, err := org.loadSegments(ctx, bs, segsReadOnly|segsAllowUpdates)
+	oSegs, err := org.loadSegments(ctx, bs, segsReadOnly|segsLockUpdates)
 	if err != nil {
 		return fmt.Errorf("loading segments: %v", err)
 	}
@@ -578,13 +578,9 @@ func (l *List) cloneElements(ctx context.Context, bs blobstore.Store, org *List)
 		dst.elements = ls.elements.Clone(true)
 		ls.unlock()
 		dstIdx.Elements = append(dstIdx.Elements, dst.elements.ElementIDs(dst.seg.ID).Elements...)
-		if err != nil {
-			dst.unlock()
-			return err
-		}
 		err = newSegments.scores.replaceSegment(ctx, bsDst, dst)
 		if err != nil {
-			log.Error(ctx, err.Error())
+			return err
 		}
 	}
 	dstIdx.Sort()
-- 
2.43.0


From 7e3c644116051eda9ce13397d0a857b98d1b5565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:04 +0000
Subject: [PATCH 25/57] fix: lists with very small split sizes can be populated
 and inserted into

---
 elements.go | 3 +++
 list.go     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/elements.go b/elements.go
index 42e9f4c..894d11c 100644
--- a/elements.go
+++ b/elements.go
@@ -391,6 +391,9 @@ func (l *Elements) Delete(id ElementID) error {
 
 // SplitSize will split the elements into a slice of elements.
 func (l Elements) SplitSize(inEach int) []Elements {
+	if inEach < 1 {
+		inEach = 1
+	}
 	if len(l) <= inEach {
 		return []Elements{l}
 	}
diff --git a/list.go b/list.go
index e66bd42..63fe033 100644
--- a/list.go
+++ b/list.go
@@ -1652,6 +1652,9 @@ func (l *List) insert(ctx context.Context, bs blobstore.Store, e Elements, segs
 
 	// Limit single inserts to inserting max into each segment.
 	var wantLimit = (l.SplitSize / 4) * len(segs.index.Segments)
+	if wantLimit < 1 {
+		wantLimit = 1
+	}
 	if wantLimit > 100000 {
 		wantLimit = 100000
 	}
-- 
2.43.0


From 920f908b0618f99c36ff764484cd677edd8e2f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:06 +0000
Subject: [PATCH 26/57] fix: backup and restore reject inconsistent streams and
 release locks

---
 list.go | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/list.go b/list.go
index 63fe033..4a93c02 100644
--- a/list.go
+++ b/list.go
@@ -1962,12 +1962,11 @@ func (l *List) Backup(ctx context.Context, bs blobstore.Store, w *WriterMsgp) er
 	}
 	scores.SegmentsLock.RLock()
 	err = scores.EncodeMsg(w.Writer())
+	segs := len(scores.Segments)
+	scores.SegmentsLock.RUnlock()
 	if err != nil {
 		return err
 	}
-
-	segs := len(scores.Segments)
-	scores.SegmentsLock.RUnlock()
 	if err := w.SetVersion(segmentVersion); err != nil {
 		return err
 	}
@@ -1987,7 +1986,9 @@ func (l *List) Backup(ctx context.Context, bs blobstore.Store, w *WriterMsgp) er
 			defer ls.unlock()
 
 			// Encode segment
-			err = ls.seg.EncodeMsg(w.Writer())
+			seg := *ls.seg
+			seg.N = len(ls.elements)
+			err = seg.EncodeMsg(w.Writer())
 			if err != nil {
 				return err
 			}
@@ -2047,19 +2048,25 @@ func RestoreList(ctx context.Context, bs blobstore.Store, r *ReaderMsgp, c Cache
 	if err != nil {
 		return nil, err
 	}
-	s.Segments = make([]Segment, segs)
-	for i := range s.Segments {
+	if segs != len(s.Segments) {
+		return nil, fmt.Errorf("RestoreList: segment count mismatch, want %d, got %d", len(s.Segments), segs)
+	}
+	// Read all content before storing any of it.
+	read := make([]*lockedSegment, segs)
+	for i := range read {
 		var seg Segment
 		// First decode segment.
 		err = seg.DecodeMsg(r.Reader())
 		if err != nil {
 			return nil, err
 		}
+		if seg.ID != s.Segments[i].ID {
+			return nil, fmt.Errorf("RestoreList: segment %d ID mismatch, want %d, got %d", i, s.Segments[i].ID, seg.ID)
+		}
 		seg.loader = &elementLoader{}
 		// decode elements
 		ls := lockedSegment{
 			seg:      &seg,
-			elements: make(Elements, 0, seg.N),
 			index:    i,
 			readOnly: false,
 			unlock:   func() {},
@@ -2068,9 +2075,15 @@ func RestoreList(ctx context.Context, bs blobstore.Store, r *ReaderMsgp, c Cache
 		if err != nil {
 			return nil, err
 		}
+		if len(ls.elements) != seg.N {
+			return nil, fmt.Errorf("RestoreList: element count mismatch in segment %d, want %d, got %d", i, seg.N, len(ls.elements))
+		}
 		// Override segment id
 		seg.Parent = s.ID
-		err := s.replaceSegment(ctx, store, &ls)
+		read[i] = &ls
+	}
+	for _, ls := range read {
+		err := s.replaceSegment(ctx, store, ls)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 47e5203f7c9b6fa751a5cbdec596f5cacaab7bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:48 +0000
Subject: [PATCH 27/57] fix: backup jobs and restores report failures and keep
 replaced lists until restored

---
 backup/job.go     | 57 ++++++++++++++++++++++++++++++++++++++---------
 backup/restore.go | 27 ++++++++++++----------
 2 files changed, 62 insertions(+), 22 deletions(-)

diff --git a/backup/job.go b/backup/job.go
index 8018529..53abea3 100644
--- a/backup/job.go
+++ b/backup/job.go
@@ -38,8 +38,18 @@ func (id ID) Status() *Status {
 		return nil
 	}
 	job.mu.Lock()
+	defer job.mu.Unlock()
+	// Return a copy that isn't updated by the job.
 	status := job.status
-	job.mu.Unlock()
+	status.Custom = make(map[string]string, len(job.status.Custom))
+	for k, v := range job.status.Custom {
+		status.Custom[k] = v
+	}
+	status.Errors = make(map[string]string, len(job.status.Errors))
+	for k, v := range job.status.Errors {
+		status.Errors[k] = v
+	}
+	status.Success = append(make([]string, 0, len(job.status.Success)), job.status.Success...)
 	return &status
 }
 
@@ -172,6 +182,9 @@ func (req Request) Start(bg context.Context) ID {
 			n := wc.n
 			wc.mu.Unlock()
 			job.mu.Lock()
+			if ctx.Err() != nil {
+				job.status.Cancelled = true
+			}
 			job.status.Done = true
 			job.status.Size = n
 			now := time.Now()
@@ -180,20 +193,44 @@ func (req Request) Start(bg context.Context) ID {
 			job.mu.Unlock()
 		}()
 
+		setErr := func(key string, err error) {
+			job.mu.Lock()
+			job.status.Errors[key] = err.Error()
+			job.mu.Unlock()
+		}
+		// finalized is called with errors writing the end of the stream.
+		// No lists can be expected to be restored, since it may be truncated anywhere.
+		finalized := func(err error) {
+			if err == nil {
+				return
+			}
+			setErr("finalizing", err)
+			job.mu.Lock()
+			for _, id := range job.status.Success {
+				job.status.Errors[id] = "backup was not finalized: " + err.Error()
+			}
+			job.status.Success = job.status.Success[:0]
+			job.mu.Unlock()
+		}
+
 		msg := rankdb.NewWriterMsg()
 		dst, err := job.dst.Save(ctx)
 		if err != nil {
-			job.status.Errors["saver"] = err.Error()
+			setErr("saver", err)
 			return
 		}
-		defer dst.Close()
+		defer func() {
+			finalized(dst.Close())
+		}()
 		wc.w = dst
 		zw, err := zstd.NewWriter(&wc)
 		if err != nil {
-			job.status.Errors["compress"] = err.Error()
+			setErr("compress", err)
 			return
 		}
-		defer zw.Close()
+		defer func() {
+			finalized(zw.Close())
+		}()
 		msg.ReplaceWriter(zw)
 		defer msg.Close()
 		db := job.db
@@ -207,6 +244,8 @@ func (req Request) Start(bg context.Context) ID {
 				job.mu.Lock()
 				job.status.Cancelled = true
 				job.mu.Unlock()
+				// Lists that were backed up can be restored.
+				finalized(msg.Writer().Flush())
 				return
 			default:
 			}
@@ -235,12 +274,10 @@ func (req Request) Start(bg context.Context) ID {
 			job.mu.Unlock()
 		}
 		err = msg.Writer().WriteBool(false)
-		if err != nil {
-			job.mu.Lock()
-			job.status.Errors["finalizing"] = err.Error()
-			job.mu.Unlock()
+		if err == nil {
+			err = msg.Writer().Flush()
 		}
-		msg.Flush()
+		finalized(err)
 	}()
 
 	log.Info(ctx, "Backup started")
diff --git a/backup/restore.go b/backup/restore.go
index 9fd485e..40f3cd9 100644
--- a/backup/restore.go
+++ b/backup/restore.go
@@ -80,28 +80,31 @@ func (ri *RestoreInfo) Restore(ctx context.Context) (*RestoreResult, error) {
 		if err != nil {
 			return nil, err
 		}
-		if _, ok := ri.DB.Lists.ByID(dstLstID); ok {
-			if !ri.Replace {
-				res.Skipped++
-				// We have already consumed the body, so we can safely continue.
-				continue
-			}
-			// List will be shortly unavailable.
-			err := ri.DB.DeleteList(ctx, dstLstID)
-			if err != nil {
-				log.Error(ctx, "Error Deleting List", "list_id", dstLstID, "error", err.Error())
-				// Restore it anyway.
-			}
+		old, exists := ri.DB.Lists.ByID(dstLstID)
+		if exists && !ri.Replace {
+			res.Skipped++
+			// We have already consumed the body, so we can safely continue.
+			continue
 		}
 
 		lst, err := rankdb.RestoreList(ctx, db.Storage, rankdb.NewReaderMsgp(b), ri.Cache, &dstLstID)
 		if err != nil {
+			if res.Failed == nil {
+				res.Failed = make(map[string]string)
+			}
 			res.Failed[string(dstLstID)] = err.Error()
 			log.Error(ctx, "Error Restoring List", "list_id", dstLstID, "error", err.Error())
 			continue
 		}
 		db.Lists.Add(lst)
 		res.Restored++
+		if exists {
+			// The restored list does not share any content with the list it replaces.
+			err := old.DeleteAll(ctx, db.Storage)
+			if err != nil {
+				log.Error(ctx, "Error Deleting replaced List", "list_id", dstLstID, "error", err.Error())
+			}
+		}
 	}
 	log.Info(ctx, "Restore ended", "error", err, "result", res)
 	return &res, nil
-- 
2.43.0


From f34b50835dfc835c5de8bd50c31a364f42e732a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:01 +0000
Subject: [PATCH 28/57] fix: neighbors above end with the element just above

---
 api/morph/elements.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/api/morph/elements.go b/api/morph/elements.go
index b9a5112..1664827 100644
--- a/api/morph/elements.go
+++ b/api/morph/elements.go
@@ -56,7 +56,7 @@ func (r RankedElement) Full(id rankdb.ListID) *app.RankdbElementFull {
 		Below app.RankdbElementCollection `form:"below,omitempty" json:"below,omitempty" yaml:"below,omitempty" xml:"below,omitempty"`
 	}{
 		Below: Elements{In: in.Below}.ToRanked(in.FromTop+1, in.FromBottom-1, id),
-		Above: Elements{In: in.Above}.ToRanked(in.FromTop-len(in.Above), in.FromBottom+len(in.Above), id),
+		Above: Elements{In: in.Above}.Reversed().ToRanked(in.FromTop-len(in.Above), in.FromBottom+len(in.Above), id),
 	}
 
 	return &app.RankdbElementFull{
@@ -110,7 +110,7 @@ func (r RankedElement) FullUpdate(id rankdb.ListID) *app.RankdbElementFullUpdate
 		Below app.RankdbElementCollection `form:"below,omitempty" json:"below,omitempty" yaml:"below,omitempty" xml:"below,omitempty"`
 	}{
 		Below: Elements{In: in.Below}.ToRanked(in.FromTop+1, in.FromBottom-1, id),
-		Above: Elements{In: in.Above}.ToRanked(in.FromTop-len(in.Above), in.FromBottom+len(in.Above), id),
+		Above: Elements{In: in.Above}.Reversed().ToRanked(in.FromTop-len(in.Above), in.FromBottom+len(in.Above), id),
 	}
 
 	return &app.RankdbElementFullUpdate{
@@ -182,6 +182,15 @@ func (e Elements) ToRanked(firstFromTop, firstFromBottom int, id rankdb.ListID)
 	return res
 }
 
+// Reversed returns a copy of the elements in reverse order.
+func (e Elements) Reversed() Elements {
+	res := make([]rankdb.Element, len(e.In))
+	for i, elem := range e.In {
+		res[len(res)-1-i] = elem
+	}
+	return Elements{In: res}
+}
+
 func NewApiElements(e ...*app.Element) ApiElements {
 	return ApiElements{In: e}
 }
-- 
2.43.0


From 79714f7374a3584e4dbf5cb5cf842d8d9c7dc0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:02 +0000
Subject: [PATCH 29/57] fix: badger writes are synced unless NoSync is set

---
 api/rankdb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/rankdb.go b/api/rankdb.go
index e9c41d3..2726fa0 100644
--- a/api/rankdb.go
+++ b/api/rankdb.go
@@ -279,7 +279,7 @@ func newBlobstore(ctx context.Context, s string) (store blobstore.Store, closers
 	switch s {
 	case "Badger":
 		opts := badger.DefaultOptions(config.Badger.Path)
-		opts = opts.WithSyncWrites(config.Badger.NoSync).WithTruncate(config.Badger.NoSync)
+		opts = opts.WithSyncWrites(!config.Badger.NoSync).WithTruncate(config.Badger.NoSync)
 		opts = opts.WithLogger(badgerstore.BadgerLogger(ctx))
 		bs, err := badgerstore.New(opts)
 		if err != nil {
-- 
2.43.0


From 59ba5356a8185f5796a02a58f88d8281097e022c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:59 +0000
Subject: [PATCH 30/57] fix: index read errors are reported instead of
 reindexing over the stored index

---
 list.go     | 5 +++++
 segments.go | 4 ++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/list.go b/list.go
index 4a93c02..314e612 100644
--- a/list.go
+++ b/list.go
@@ -418,6 +418,11 @@ func (l *List) loadSegments(ctx context.Context, bs blobstore.Store, fl loadFlag
 			if !l.Index.Unset() {
 				log.Error(ctx, "Error loading index segments", "error", err, "index_id", l.Index, "list_id", l.ID)
 			}
+			if !allowLost && !isLost(err) {
+				// The index still exists.
+				s.unlock()
+				return nil, err
+			}
 			// Ditch index and reindex.
 			s.index = &Segments{ID: l.Index, NextID: 1, IsIndex: true}
 			if allowLost {
diff --git a/segments.go b/segments.go
index 4808694..be0bec3 100644
--- a/segments.go
+++ b/segments.go
@@ -9,7 +9,6 @@ package rankdb
 import (
 	"context"
 	"encoding/json"
-	"errors"
 	"fmt"
 	"math"
 	"sort"
@@ -901,7 +900,8 @@ func (s SegmentsID) Load(ctx context.Context, store blobstore.WithSet, cache Cac
 	segs := Segments{}
 	switch v {
 	case 1:
-		return nil, errors.New("deprecated v1 found")
+		log.Info(ctx, "deprecated v1 found", "segments_id", s)
+		return nil, ErrVersionMismatch
 	case segmentsVersion:
 		b, err = segs.UnmarshalMsg(b)
 	default:
-- 
2.43.0


From 5dc59a4a418c0795b3a4ba4ca5e36cea3e1c5038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:34 +0000
Subject: [PATCH 31/57] fix: lookups find elements that are moved to another
 segment while looking

---
 list.go | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/list.go b/list.go
index 314e612..cc0ccf3 100644
--- a/list.go
+++ b/list.go
@@ -1266,27 +1266,44 @@ func (l *List) GetElements(ctx context.Context, bs blobstore.Store, ids []Elemen
 	if err != nil {
 		return nil, err
 	}
+	res, missed, err := l.getElements(ctx, bs, ids, radius, segs)
+	segs.unlock()
+	if err != nil || missed == 0 {
+		return res, err
+	}
+
+	// Indexed elements can be moved to another segment before we look for them.
+	// Look up again without updates.
+	segs, err = l.loadSegments(ctx, bs, segsReadOnly|segsLockUpdates)
+	if err != nil {
+		return nil, err
+	}
 	defer segs.unlock()
-	return l.getElements(ctx, bs, ids, radius, segs)
+	res, _, err = l.getElements(ctx, bs, ids, radius, segs)
+	return res, err
 }
 
-// GetElements will look up the provided elements and return them as ranked.
+// getElements will look up the provided elements and return them as ranked.
 // The returned elements are sorted by rank.
 // Elements that are not found are not returned.
-func (l *List) getElements(ctx context.Context, bs blobstore.Store, ids []ElementID, radius int, segs *segments) (RankedElements, error) {
+// The number of elements that are indexed, but were not found is returned as missed.
+func (l *List) getElements(ctx context.Context, bs blobstore.Store, ids []ElementID, radius int, segs *segments) (res RankedElements, missed int, err error) {
 	ctx = log.WithFn(ctx)
 	scores := segs.scores
 	l.RLock()
 	set := l.Set
 	l.RUnlock()
 
-	// Disallow updates to scores until we have found the elements
 	e, err := l.getIndexElements(ctx, bs, ids, segs)
 	if err != nil {
-		return nil, err
+		return nil, 0, err
 	}
 	// Find elements in each segment.
-	return scores.FindElements(ctx, blobstore.StoreWithSet(bs, set), e, radius)
+	res, err = scores.FindElements(ctx, blobstore.StoreWithSet(bs, set), e, radius)
+	if err != nil {
+		return nil, 0, err
+	}
+	return res, len(e.Elements) - len(res), nil
 }
 
 // UpdateElements will update or add elements to the list.
@@ -1555,7 +1572,7 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 	// Get updated when everything is said and done.
 	updated := []RankedElement{}
 	if results {
-		updated, err = l.getElements(ctx, bs, ids, radius, segs)
+		updated, _, err = l.getElements(ctx, bs, ids, radius, segs)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From bfb48195e28ec70f0be3e6048034eec22c599d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:13 +0000
Subject: [PATCH 32/57] fix: segments loaded for reading are not saved back as
 writable

---
 list.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/list.go b/list.go
index cc0ccf3..62ff86d 100644
--- a/list.go
+++ b/list.go
@@ -448,6 +448,7 @@ func (l *List) loadSegments(ctx context.Context, bs blobstore.Store, fl loadFlag
 	if readOnly {
 		l.segmentsLock.Unlock()
 		l.segmentsLock.RLock()
+		s.readOnly = true
 		s.unlock = func() {
 			l.segmentsLock.RUnlock()
 			if updateLock {
-- 
2.43.0


From 080cacfed54d52670ee3acac12efc4125e873463 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:36:51 +0000
Subject: [PATCH 33/57] fix: multi list operations honour all_in_sets without
 metadata

---
 api/multilist.go | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/api/multilist.go b/api/multilist.go
index a0ab575..6df8443 100644
--- a/api/multilist.go
+++ b/api/multilist.go
@@ -51,9 +51,7 @@ func (c *MultilistController) Create(ctx *app.CreateMultilistContext) error {
 
 	// Collect list ids.
 	lists := morph.APIListIDs{In: ctx.Payload.Lists}.IDs()
-	if len(ctx.Payload.MatchMetadata) > 0 {
-		lists = append(lists, db.Lists.MatchAll(ctx.Payload.MatchMetadata, ctx.Payload.AllInSets)...)
-	}
+	lists = append(lists, db.Lists.MatchAll(ctx.Payload.MatchMetadata, ctx.Payload.AllInSets)...)
 	lists.Deduplicate()
 	if err := HasAccessToList(ctx, lists...); err != nil {
 		return ctx.Unauthorized(err)
@@ -197,9 +195,7 @@ func (c *MultilistController) Put(ctx *app.PutMultilistContext) error {
 
 	// Collect list ids.
 	lists := morph.APIListIDs{In: ctx.Payload.Lists}.IDs()
-	if len(ctx.Payload.MatchMetadata) > 0 {
-		lists = append(lists, db.Lists.MatchAll(ctx.Payload.MatchMetadata, ctx.Payload.AllInSets)...)
-	}
+	lists = append(lists, db.Lists.MatchAll(ctx.Payload.MatchMetadata, ctx.Payload.AllInSets)...)
 	lists.Deduplicate()
 	if err := HasAccessToList(ctx, lists...); err != nil {
 		return ctx.Unauthorized(err)
@@ -242,11 +238,9 @@ func (c *MultilistController) Verify(ctx *app.VerifyMultilistContext) error {
 
 	// Collect list ids.
 	lists := morph.APIListIDs{In: ctx.Payload.Lists}.IDs()
-	if len(ctx.Payload.MatchMetadata) > 0 {
-		lists = append(lists, db.Lists.MatchAll(ctx.Payload.MatchMetadata, ctx.Payload.AllInSets)...)
-	}
+	lists = append(lists, db.Lists.MatchAll(ctx.Payload.MatchMetadata, ctx.Payload.AllInSets)...)
 	lists.Deduplicate()
-	if len(ctx.Payload.Lists)+len(ctx.Payload.MatchMetadata) == 0 {
+	if len(ctx.Payload.Lists)+len(ctx.Payload.MatchMetadata)+len(ctx.Payload.AllInSets) == 0 {
 		lists = db.Lists.All()
 	}
 
@@ -308,11 +302,9 @@ func (c *MultilistController) Reindex(ctx *app.ReindexMultilistContext) error {
 
 	// Collect list ids.
 	lists := morph.APIListIDs{In: ctx.Payload.Lists}.IDs()
-	if len(ctx.Payload.MatchMetadata) > 0 {
-		lists = append(lists, db.Lists.MatchAll(ctx.Payload.MatchMetadata, ctx.Payload.AllInSets)...)
-	}
+	lists = append(lists, db.Lists.MatchAll(ctx.Payload.MatchMetadata, ctx.Payload.AllInSets)...)
 	lists.Deduplicate()
-	if len(ctx.Payload.Lists)+len(ctx.Payload.MatchMetadata) == 0 {
+	if len(ctx.Payload.Lists)+len(ctx.Payload.MatchMetadata)+len(ctx.Payload.AllInSets) == 0 {
 		lists = db.Lists.All()
 	}
 
@@ -343,11 +335,9 @@ func (c *MultilistController) Backup(ctx *app.BackupMultilistContext) error {
 
 	// Collect list ids.
 	lists := morph.APIListIDs{In: ctx.Payload.Lists.Lists}.IDs()
-	if len(ctx.Payload.Lists.MatchMetadata) > 0 {
-		lists = append(lists, db.Lists.MatchAll(ctx.Payload.Lists.MatchMetadata, ctx.Payload.Lists.AllInSets)...)
-	}
+	lists = append(lists, db.Lists.MatchAll(ctx.Payload.Lists.MatchMetadata, ctx.Payload.Lists.AllInSets)...)
 	lists.Deduplicate()
-	if len(ctx.Payload.Lists.Lists)+len(ctx.Payload.Lists.MatchMetadata) == 0 {
+	if len(ctx.Payload.Lists.Lists)+len(ctx.Payload.Lists.MatchMetadata)+len(ctx.Payload.Lists.AllInSets) == 0 {
 		lists = db.Lists.All()
 	}
 
-- 
2.43.0


From 07eebaa84a533e11ccac382ba438f540d460561e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:51 +0000
Subject: [PATCH 34/57] fix: multi list updates do not share elements between
 lists

---
 api/multilist.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/api/multilist.go b/api/multilist.go
index 6df8443..a422639 100644
--- a/api/multilist.go
+++ b/api/multilist.go
@@ -74,7 +74,8 @@ func (c *MultilistController) Create(ctx *app.CreateMultilistContext) error {
 			return nil, ErrConflict("element(s) already exists", "element_ids", elems.IDs())
 		}
 
-		err = lst.Insert(ctx, db.Storage, in)
+		// Elements are sorted and may be kept by the list, so they cannot be shared.
+		err = lst.Insert(ctx, db.Storage, in.Clone(true))
 		if err != nil {
 			return nil, err
 		}
@@ -211,7 +212,8 @@ func (c *MultilistController) Put(ctx *app.PutMultilistContext) error {
 	// Execute
 
 	res := onEveryList(ctx, lists, 32, func(lst *rankdb.List) (*app.RankdbOperationSuccess, error) {
-		elems, err := lst.UpdateElements(ctx, db.Storage, in, 0, ctx.Results)
+		// Elements are sorted and may be kept by the list, so they cannot be shared.
+		elems, err := lst.UpdateElements(ctx, db.Storage, in.Clone(true), 0, ctx.Results)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 20b77126b6447b5825e2458c5c079f83da4b7b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:56 +0000
Subject: [PATCH 35/57] fix: cancelled multi list operations report lists that
 were not processed

---
 api/multilist.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/api/multilist.go b/api/multilist.go
index a422639..2686404 100644
--- a/api/multilist.go
+++ b/api/multilist.go
@@ -459,7 +459,6 @@ func (c *MultilistController) Restore(ctx *app.RestoreMultilistContext) error {
 // onEveryList applies a function to all lists represented by the sent ids.
 func onEveryList(ctx context.Context, lists rankdb.ListIDs, limit int, fn func(l *rankdb.List) (*app.RankdbOperationSuccess, error)) *app.RankdbResultlist {
 	var wg sync.WaitGroup
-	wg.Add(len(lists))
 	var mu sync.Mutex
 	var results = app.RankdbResultlist{
 		Success: make(map[string]*app.RankdbOperationSuccess, len(lists)),
@@ -471,11 +470,18 @@ func onEveryList(ctx context.Context, lists rankdb.ListIDs, limit int, fn func(l
 	}
 	for i, id := range lists {
 		if err := ctx.Err(); err != nil {
-			return nil
+			// Report remaining, and wait for the ones running.
+			mu.Lock()
+			for _, id := range lists[i:] {
+				results.Errors[string(id)] = err.Error()
+			}
+			mu.Unlock()
+			break
 		}
 		if limit > 0 {
 			<-tokens
 		}
+		wg.Add(1)
 		go func(i int, id rankdb.ListID) {
 			defer func() {
 				if r := recover(); r != nil {
-- 
2.43.0


From bd45d06201b9a8091ce503967a1767e4b8050501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:56 +0000
Subject: [PATCH 36/57] fix: tokens with invalid restrictions are not
 unrestricted

---
 api/jwt.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/api/jwt.go b/api/jwt.go
index eb4bc7a..0eaf7e0 100644
--- a/api/jwt.go
+++ b/api/jwt.go
@@ -90,7 +90,11 @@ func HasAccessToList(ctx context.Context, ids ...rankdb.ListID) error {
 	if !ok {
 		return goajwt.ErrJWTError("unsupported claims shape")
 	}
-	if val, ok := claims["only_lists"].(string); ok {
+	if only, restricted := claims["only_lists"]; restricted {
+		val, ok := only.(string)
+		if !ok {
+			return goajwt.ErrJWTError("unsupported only_lists claim")
+		}
 		// Check all ids
 		for _, id := range ids {
 			ok := false
@@ -120,7 +124,11 @@ func HasAccessToElement(ctx context.Context, ids ...rankdb.ElementID) error {
 	if !ok {
 		return goajwt.ErrJWTError("unsupported claims shape")
 	}
-	if val, ok := claims["only_elements"].(string); ok {
+	if only, restricted := claims["only_elements"]; restricted {
+		val, ok := only.(string)
+		if !ok {
+			return goajwt.ErrJWTError("unsupported only_elements claim")
+		}
 		lists := strings.Split(val, ",")
 		for _, id := range ids {
 			ok := false
-- 
2.43.0


From 3c41ca27c56ac0084222454ecb9921d90c386746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:47 +0000
Subject: [PATCH 37/57] fix: concurrent creates of an element insert it once

---
 api/elements.go  | 15 +++++----------
 api/multilist.go |  9 ++-------
 list.go          | 25 ++++++++++++++++++++++++-
 3 files changed, 31 insertions(+), 18 deletions(-)

diff --git a/api/elements.go b/api/elements.go
index 3511ca3..ac21cad 100644
--- a/api/elements.go
+++ b/api/elements.go
@@ -47,22 +47,17 @@ func (c *ElementsController) Create(ctx *app.CreateElementsContext) error {
 		return ctx.Unauthorized(err)
 	}
 
-	elems, err := lst.GetElements(ctx, db.Storage, eid, ctx.Range)
-	if err != nil {
-		return err
-	}
-	if len(elems) > 0 {
-		return ctx.Conflict(ErrConflict("element already exists", "element_id", ctx.Payload.ID))
-	}
-
 	element := morph.NewApiElements(ctx.Payload).Elements()
 	element.UpdateTime(time.Now())
-	err = lst.Insert(ctx, db.Storage, element)
+	existing, err := lst.InsertNew(ctx, db.Storage, element)
 	if err != nil {
 		return err
 	}
+	if len(existing) > 0 {
+		return ctx.Conflict(ErrConflict("element already exists", "element_id", ctx.Payload.ID))
+	}
 
-	elems, err = lst.GetElements(ctx, db.Storage, eid, ctx.Range)
+	elems, err := lst.GetElements(ctx, db.Storage, eid, ctx.Range)
 	if err != nil {
 		return err
 	}
diff --git a/api/multilist.go b/api/multilist.go
index 2686404..962f142 100644
--- a/api/multilist.go
+++ b/api/multilist.go
@@ -66,19 +66,14 @@ func (c *MultilistController) Create(ctx *app.CreateMultilistContext) error {
 
 	// Execute
 	res := onEveryList(ctx, lists, 16, func(lst *rankdb.List) (*app.RankdbOperationSuccess, error) {
-		elems, err := lst.GetElements(ctx, db.Storage, in.IDs(), 0)
+		// Elements are sorted and may be kept by the list, so they cannot be shared.
+		elems, err := lst.InsertNew(ctx, db.Storage, in.Clone(true))
 		if err != nil {
 			return nil, err
 		}
 		if len(elems) > 0 {
 			return nil, ErrConflict("element(s) already exists", "element_ids", elems.IDs())
 		}
-
-		// Elements are sorted and may be kept by the list, so they cannot be shared.
-		err = lst.Insert(ctx, db.Storage, in.Clone(true))
-		if err != nil {
-			return nil, err
-		}
 		if !ctx.Results {
 			return &app.RankdbOperationSuccess{}, nil
 		}
diff --git a/list.go b/list.go
index 62ff86d..7a007ce 100644
--- a/list.go
+++ b/list.go
@@ -1648,7 +1648,30 @@ func (l *List) Insert(ctx context.Context, bs blobstore.Store, e Elements) error
 		return err
 	}
 	defer segs.unlock()
-	err = l.insert(ctx, bs, e, segs)
+	return l.insertAndSave(ctx, bs, e, segs)
+}
+
+// InsertNew inserts elements unless one or more are already on the list.
+// If so, nothing is inserted and the elements on the list are returned.
+// Provided elements must be deduplicated, but are not required to be sorted.
+func (l *List) InsertNew(ctx context.Context, bs blobstore.Store, e Elements) (existing RankedElements, err error) {
+	ctx = log.WithFn(ctx)
+	segs, err := l.loadSegments(ctx, bs, segsReadOnly|segsLockUpdates)
+	if err != nil {
+		return nil, err
+	}
+	defer segs.unlock()
+	existing, _, err = l.getElements(ctx, bs, e.IDs(), 0, segs)
+	if err != nil || len(existing) > 0 {
+		return existing, err
+	}
+	return nil, l.insertAndSave(ctx, bs, e, segs)
+}
+
+// insertAndSave inserts elements, requests splits if needed and saves segments.
+// Provided segments must contain update lock.
+func (l *List) insertAndSave(ctx context.Context, bs blobstore.Store, e Elements, segs *segments) error {
+	err := l.insert(ctx, bs, e, segs)
 	if err != nil {
 		// Some segments may have been updated.
 		serr := l.saveSegments(ctx, bs, segs)
-- 
2.43.0


From e607ae26b82f51a967262b59d34f353531efc0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:51 +0000
Subject: [PATCH 38/57] fix: creating lists concurrently or replacing them
 keeps exactly one list

---
 api/lists.go | 29 ++++++++++++++++++++++-------
 lists.go     |  9 +++++++++
 2 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/api/lists.go b/api/lists.go
index 2aba814..95bafa4 100644
--- a/api/lists.go
+++ b/api/lists.go
@@ -11,6 +11,7 @@ import (
 	"github.com/Vivino/rankdb"
 	"github.com/Vivino/rankdb/api/app"
 	"github.com/Vivino/rankdb/api/morph"
+	"github.com/Vivino/rankdb/log"
 	"github.com/goadesign/goa"
 )
 
@@ -65,15 +66,23 @@ func (c *ListsController) Create(ctx *app.CreateListsContext) error {
 	if err != nil {
 		return ctx.BadRequest(err)
 	}
-	if oldList != nil {
-		err := oldList.DeleteAll(ctx, db.Storage)
-		if err != nil {
-			return err
+	// Add to manager
+	if ctx.Replace {
+		db.Lists.Add(list)
+	} else if !db.Lists.AddNew(list) {
+		// Was created while we created ours.
+		if err := list.DeleteAll(ctx, db.Storage); err != nil {
+			log.Error(ctx, "Unable to delete content of list not added", "list_id", list.ID, "error", err)
 		}
+		return ctx.Conflict(ErrConflict("list already exists", "list_id", ctx.Payload.ID))
 	}
 
-	// Add to manager
-	db.Lists.Add(list)
+	// The list has been replaced, so the old content is no longer used.
+	if oldList != nil {
+		if err := oldList.DeleteAll(ctx, db.Storage); err != nil {
+			log.Error(ctx, "Unable to delete content of replaced list", "list_id", list.ID, "error", err)
+		}
+	}
 
 	// ListsController_Create: end_implement
 	return ctx.OKFull(morph.List{In: list}.Full(ctx, db.Storage, true))
@@ -353,7 +362,13 @@ func (c *ListsController) Clone(ctx *app.CloneListsContext) error {
 	}
 
 	// Add to manager
-	db.Lists.Add(list)
+	if !db.Lists.AddNew(list) {
+		// Was created while we created ours.
+		if err := list.DeleteAll(ctx, db.Storage); err != nil {
+			log.Error(ctx, "Unable to delete content of list not added", "list_id", list.ID, "error", err)
+		}
+		return ctx.Conflict(ErrConflict("list already exists", "list_id", ctx.Payload.ID))
+	}
 
 	// ListsController_Create: end_implement
 	return ctx.OKFull(morph.List{In: list}.Full(ctx, db.Storage, true))
diff --git a/lists.go b/lists.go
index 00d8f28..4ab78b6 100644
--- a/lists.go
+++ b/lists.go
@@ -289,6 +289,15 @@ func (l *Lists) Add(lists ...*List) {
 	}
 }
 
+// AddNew will add the list, unless there already is a list with the same ID.
+// Returns whether the list was added.
+func (l *Lists) AddNew(lst *List) bool {
+	lst.cache = l.cache
+	lst.manager = l.manager
+	_, exists := l.lists.LoadOrStore(lst.ID, lst)
+	return !exists
+}
+
 // MatchAll will return all lists where all metadata fields match the provided.
 // A numbers of sets can also be provided. All lists from sets are included.
 // If q and sets both have 0 entries nothing is returned.
-- 
2.43.0


From bd9df1d2b82055a321a9e025d429e90e44464014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:53 +0000
Subject: [PATCH 39/57] fix: percentile NaN is a bad request

---
 api/lists.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/api/lists.go b/api/lists.go
index 95bafa4..c408109 100644
--- a/api/lists.go
+++ b/api/lists.go
@@ -5,6 +5,7 @@ package api
 // See LICENSE file for license details
 
 import (
+	"math"
 	"strconv"
 	"time"
 
@@ -145,6 +146,9 @@ func (c *ListsController) GetPercentile(ctx *app.GetPercentileListsContext) erro
 	} else {
 		return ctx.BadRequest(goa.InvalidParamTypeError("from_top", ctx.FromTop, "number"))
 	}
+	if math.IsNaN(percentile) {
+		return ctx.BadRequest(goa.InvalidParamTypeError("from_top", ctx.FromTop, "number"))
+	}
 	if percentile < 0 {
 		return ctx.BadRequest(goa.InvalidRangeError(`from_top`, ctx.FromTop, 0, true))
 	}
-- 
2.43.0


From 3c4fa8e79509dc50349ebd9ae7bcf81a0bba7b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:56 +0000
Subject: [PATCH 40/57] fix: backup to a server reports transfers the server
 did not accept

---
 backup/server/rankdb.go | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/backup/server/rankdb.go b/backup/server/rankdb.go
index 61fb397..28e9dc2 100644
--- a/backup/server/rankdb.go
+++ b/backup/server/rankdb.go
@@ -11,6 +11,7 @@ import (
 	"io"
 	"io/ioutil"
 	"net/http"
+	"sync"
 
 	"github.com/Vivino/rankdb/api/client"
 	"github.com/Vivino/rankdb/log"
@@ -53,8 +54,28 @@ func (r *RankDB) Save(ctx context.Context) (io.WriteCloser, error) {
 	b := bodyWriter{req: req, c: r.c}
 	b.r, b.w = io.Pipe()
 	log.Info(ctx, "Created pipe for writing", "full_path", b.req.URL.String())
-	go b.Transfer(ctx)
-	return b.w, nil
+	done := make(chan error, 1)
+	go func() {
+		done <- b.Transfer(ctx)
+	}()
+	return &transferWriter{PipeWriter: b.w, done: done}, nil
+}
+
+// transferWriter waits for the destination server to accept the transfer when closed.
+type transferWriter struct {
+	*io.PipeWriter
+	done chan error
+	once sync.Once
+	err  error
+}
+
+// Close the writer. Returns an error if the destination server failed to receive the content.
+func (t *transferWriter) Close() error {
+	t.once.Do(func() {
+		_ = t.PipeWriter.Close()
+		t.err = <-t.done
+	})
+	return t.err
 }
 
 // bodyWriter provides transfer from the pipe writer to the body of the request.
@@ -70,26 +91,27 @@ type bodyWriter struct {
 }
 
 // Transfer the body after executing the request.
-// Errors are logged, and the pipe will be closed with an error if any occurs.
-func (b *bodyWriter) Transfer(ctx context.Context) {
+// Errors are logged and returned, and the pipe will be closed with an error if any occurs.
+func (b *bodyWriter) Transfer(ctx context.Context) error {
 	log.Info(ctx, "Starting tranfer to destination server", "full_path", b.req.URL.String())
 	b.req.Body = b.r
 	resp, err := b.c.Do(ctx, b.req)
 	if err != nil {
 		log.Error(ctx, "Backup transfer failed", "error", err)
 		_ = b.r.CloseWithError(err)
-		return
+		return err
 	}
 	if resp.StatusCode != http.StatusOK {
 		err := decodeError(ctx, resp, b.c)
 		log.Error(ctx, "Backup transfer failed", "error", err)
 		_ = b.r.CloseWithError(err)
-		return
+		return err
 	}
 	log.Info(ctx, "Destination server returned ok", "full_path", b.req.URL.String())
 	b.r.Close()
 	io.Copy(ioutil.Discard, resp.Body)
 	resp.Body.Close()
+	return nil
 }
 
 // decodeError will decode an error response.
-- 
2.43.0


From 75cea5666f7e78b03d0f2329334ce12c1ac5ab8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:30 +0000
Subject: [PATCH 41/57] fix: percentile of an empty list is not found

---
 api/lists.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/api/lists.go b/api/lists.go
index c408109..500e155 100644
--- a/api/lists.go
+++ b/api/lists.go
@@ -156,6 +156,10 @@ func (c *ListsController) GetPercentile(ctx *app.GetPercentileListsContext) erro
 		return ctx.BadRequest(goa.InvalidRangeError(`from_top`, ctx.FromTop, 100, false))
 	}
 	re, err := lst.GetPercentile(ctx, db.Storage, percentile/100, ctx.Range)
+	if err == rankdb.ErrOffsetOutOfBounds {
+		// The list is empty.
+		return ctx.NotFound(goa.ErrNotFound("no_element", "list_id", listID))
+	}
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 10599d40d71ef251ef5f7c49c37ef21577324a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:11 +0000
Subject: [PATCH 42/57] fix: cloning with invalid sizes is a bad request

---
 api/lists.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/api/lists.go b/api/lists.go
index 500e155..d0969d0 100644
--- a/api/lists.go
+++ b/api/lists.go
@@ -356,6 +356,9 @@ func (c *ListsController) Clone(ctx *app.CloneListsContext) error {
 	if ctx.Payload.Populate != nil {
 		return ctx.BadRequest(goa.ErrBadRequest("cloned lists cannot contain payload", "list_id", ctx.Payload.ID))
 	}
+	if ctx.Payload.MergeSize >= ctx.Payload.SplitSize {
+		return ctx.BadRequest(goa.ErrBadRequest("merge_size must be smaller than split_size", "list_id", ctx.Payload.ID))
+	}
 
 	// Create List
 	list, err := rankdb.NewList(
-- 
2.43.0


From 2fd4bdb6eaac4e2b34917e53d4f0fb21184eca29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:55 +0000
Subject: [PATCH 43/57] fix: a cancelled caller does not fail others waiting
 for the same segment

---
 segment.go | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/segment.go b/segment.go
index a4b9613..a6e6336 100644
--- a/segment.go
+++ b/segment.go
@@ -46,7 +46,7 @@ type elementLoader struct {
 	Mu        sync.RWMutex
 	LoadingMu sync.Mutex
 	Loading   chan struct{}
-	Gimme     func(read bool) (Elements, error)
+	Gimme     func(read bool) (e Elements, cancelled bool, err error)
 }
 
 // MaxSegment contains the highest score and tiebreaker.
@@ -171,26 +171,34 @@ func (s *Segment) elementsUpdated(e Elements) {
 // loadElements will load segment elements from cache or storage.
 // Caller must hold segment lock.
 func (s *Segment) loadElements(ctx context.Context, store blobstore.WithSet, readOnly bool) (e Elements, err error) {
-	err = nil
-	s.loader.LoadingMu.Lock()
-
-	// Check if someone else is loading.
-	if wait := s.loader.Loading; wait != nil {
+	for {
+		s.loader.LoadingMu.Lock()
+		wait := s.loader.Loading
+		if wait == nil {
+			break
+		}
+		// Someone else is loading
 		gimme := s.loader.Gimme
 		s.loader.LoadingMu.Unlock()
 		<-wait
-		return gimme(readOnly)
-		// Someone else is loading
+		e, cancelled, err := gimme(readOnly)
+		if !cancelled {
+			return e, err
+		}
+		// It was cancelled, which says nothing about our own request.
+		if err := ctx.Err(); err != nil {
+			return nil, err
+		}
 	}
 	var forReader Elements
-	s.loader.Gimme = func(read bool) (Elements, error) {
+	s.loader.Gimme = func(read bool) (elems Elements, cancelled bool, e error) {
 		if err != nil {
-			return nil, err
+			return nil, ctx.Err() != nil, err
 		}
 		if !readOnly {
-			return forReader.Clone(false), err
+			return forReader.Clone(false), false, nil
 		}
-		return forReader, err
+		return forReader, false, nil
 	}
 	s.loader.Loading = make(chan struct{}, 0)
 	s.loader.LoadingMu.Unlock()
-- 
2.43.0


From c63728d8b7ce3e2bf176f9dfc87878a0dfff8d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:09 +0000
Subject: [PATCH 44/57] fix: damaged element counts do not crash the process

---
 list.go     |  6 +++---
 segment.go  |  5 ++++-
 segments.go | 18 ++++++++++++++++--
 3 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/list.go b/list.go
index 7a007ce..30a4be6 100644
--- a/list.go
+++ b/list.go
@@ -564,7 +564,7 @@ func (l *List) cloneElements(ctx context.Context, bs blobstore.Store, org *List)
 	bsDst := blobstore.StoreWithSet(bs, dSet)
 	newSegments := l.newSegments(ctx, len(oScores.Segments), false, nil)
 	defer newSegments.unlock()
-	dstIdx := IndexElements{Elements: make(Elements, 0, oScores.Elements())}
+	dstIdx := IndexElements{Elements: make(Elements, 0, oScores.sizeHint())}
 	for i := range oScores.Segments {
 		ls, err := oScores.elementFullIdx(ctx, blobstore.StoreWithSet(bs, oSet), i, true)
 		if err != nil {
@@ -1873,7 +1873,7 @@ func (l *List) GetPercentile(ctx context.Context, bs blobstore.Store, percentile
 
 	store := blobstore.StoreWithSet(bs, set)
 	segOffs, total := segs.scores.topOffsets()
-	if total == 0 {
+	if total <= 0 {
 		return nil, ErrOffsetOutOfBounds
 	}
 	var bTotal = &big.Float{}
@@ -1949,7 +1949,7 @@ func (l *List) Repair(ctx context.Context, bs blobstore.Store, clearIfErr bool)
 
 	// Now that no-one else is updating or reading, collect everything that can be read.
 	segments := segs.scores.Segments
-	allElements := make(Elements, 0, segs.scores.Elements())
+	allElements := make(Elements, 0, segs.scores.sizeHint())
 	for i := range segments {
 		seg, err := segs.scores.elementFullIdx(ctx, store, i, true)
 		if err != nil {
diff --git a/segment.go b/segment.go
index a6e6336..31d8e8b 100644
--- a/segment.go
+++ b/segment.go
@@ -219,7 +219,10 @@ func (s *Segment) loadElements(ctx context.Context, store blobstore.WithSet, rea
 	if b, v = MsgpGetVersion(b); v != elementsVersion {
 		return nil, ErrVersionMismatch
 	}
-	e = make(Elements, 0, s.N)
+	// The stored count may be damaged, an element always uses more than one byte.
+	if s.N >= 0 && s.N <= len(b) {
+		e = make(Elements, 0, s.N)
+	}
 	_, err = e.UnmarshalMsg(b)
 	forReader = e
 	if !readOnly {
diff --git a/segments.go b/segments.go
index be0bec3..8f55ad5 100644
--- a/segments.go
+++ b/segments.go
@@ -139,6 +139,20 @@ func (s *Segments) Elements() int {
 	return n
 }
 
+// sizeHint returns the number of elements to preallocate space for.
+// Stored counts may be damaged, so it is only a hint.
+func (s *Segments) sizeHint() int {
+	const max = 1 << 20
+	n := s.Elements()
+	if n < 0 {
+		return 0
+	}
+	if n > max {
+		return max
+	}
+	return n
+}
+
 // AlignIndex will align segments to be used for indexes.
 // This ensure that segment splits are on score boundaries
 // so changes in tiebreaker does not affect segment assignment.
@@ -768,7 +782,7 @@ func (s *Segments) Verify(ctx context.Context, bs blobstore.WithSet) error {
 // Segments must be read locked by callers.
 func (s *Segments) VerifyElements(ctx context.Context, bs blobstore.WithSet, IDs *map[ElementID]SegmentID) error {
 	var errC = make(chan error)
-	var elems = make(map[ElementID]SegmentID, s.Elements())
+	var elems = make(map[ElementID]SegmentID, s.sizeHint())
 	if IDs != nil {
 		*IDs = elems
 	}
@@ -840,7 +854,7 @@ func (s *Segments) VerifyElements(ctx context.Context, bs blobstore.WithSet, IDs
 // ElementIndexAll will return index for all elements in the list.
 func (s *Segments) ElementIndexAll(ctx context.Context, bs blobstore.WithSet) (IndexElements, error) {
 	// Collect indexes.
-	res := IndexElements{Elements: make(Elements, 0, s.Elements())}
+	res := IndexElements{Elements: make(Elements, 0, s.sizeHint())}
 	var idxC = make(chan IndexElements, len(s.Segments))
 	var errC = make(chan error)
 	var wg sync.WaitGroup
-- 
2.43.0


From 14429081ef4ce8df76c879abff2f775391115ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:12 +0000
Subject: [PATCH 45/57] fix: verification reports elements indexed under
 another ID

---
 segments.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/segments.go b/segments.go
index 8f55ad5..2ebe21e 100644
--- a/segments.go
+++ b/segments.go
@@ -833,6 +833,10 @@ func (s *Segments) VerifyElements(ctx context.Context, bs blobstore.WithSet, IDs
 					return
 				}
 				if s.IsIndex {
+					if elem.Score != uint64(elem.ID) {
+						errC <- fmt.Errorf(prefix+"Element ID %v is indexed as %v", elem.ID, elem.Score)
+						return
+					}
 					elems[elem.ID] = SegmentID(elem.TieBreaker)
 				} else {
 					elems[elem.ID] = seg.ID
-- 
2.43.0


From 5fb50355b7db7699d193fad16c8a0e4d733196e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:18 +0000
Subject: [PATCH 46/57] fix: elements with the latest possible update time
 belong to a segment

---
 segment.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/segment.go b/segment.go
index 31d8e8b..578a651 100644
--- a/segment.go
+++ b/segment.go
@@ -118,11 +118,10 @@ func (s *Segment) FilterIdx(e Elements) (start, end int) {
 	if start == -1 {
 		return 0, 0
 	}
-	endE := &Element{Score: s.Min, TieBreaker: s.MinTie, Updated: math.MaxUint32}
-	// Find first element that is below endE
+	// Find first element that is below the minimum.
 	end = len(e)
 	for i, elem := range e[start:] {
-		if !elem.aboveP(endE) {
+		if elem.Score < s.Min || (elem.Score == s.Min && elem.TieBreaker < s.MinTie) {
 			end = i + start
 			break
 		}
-- 
2.43.0


From 5736042c4425e3b8f0a2511a71a1a9978ad8d481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:22 +0000
Subject: [PATCH 47/57] fix: size limited store keeps sets and keys apart

The number of parts was tracked by set and key written together, so different
values could share an entry and leave parts behind when deleted.
---
 blobstore/maxsize.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/blobstore/maxsize.go b/blobstore/maxsize.go
index 3315954..e972557 100644
--- a/blobstore/maxsize.go
+++ b/blobstore/maxsize.go
@@ -23,8 +23,8 @@ type MaxSizeStore struct {
 
 	// Cache parts size.
 	// No entry means one or unknown number of segments.
-	parts   map[string]int
-	running map[string]*sync.Mutex
+	parts   map[[2]string]int
+	running map[[2]string]*sync.Mutex
 	mu      sync.Mutex
 }
 
@@ -38,14 +38,14 @@ func NewMaxSizeStore(store Store, maxSize int) (*MaxSizeStore, error) {
 	r := MaxSizeStore{
 		store:   store,
 		maxsize: maxSize,
-		parts:   make(map[string]int),
-		running: make(map[string]*sync.Mutex),
+		parts:   make(map[[2]string]int),
+		running: make(map[[2]string]*sync.Mutex),
 	}
 	return &r, nil
 }
 
-func mapKey(set, key string) string {
-	return set + `/\` + key
+func mapKey(set, key string) [2]string {
+	return [2]string{set, key}
 }
 
 func extKey(key string, n int) string {
-- 
2.43.0


From d01c0bc4cb0496673c3ec9bfd0222ddbb1f478d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:01 +0000
Subject: [PATCH 48/57] fix: restore keeps lists created meanwhile

---
 backup/restore.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/backup/restore.go b/backup/restore.go
index 40f3cd9..eaf6b52 100644
--- a/backup/restore.go
+++ b/backup/restore.go
@@ -96,7 +96,17 @@ func (ri *RestoreInfo) Restore(ctx context.Context) (*RestoreResult, error) {
 			log.Error(ctx, "Error Restoring List", "list_id", dstLstID, "error", err.Error())
 			continue
 		}
-		db.Lists.Add(lst)
+		if ri.Replace {
+			db.Lists.Add(lst)
+		} else if !db.Lists.AddNew(lst) {
+			// Was created while we restored ours.
+			err := lst.DeleteAll(ctx, db.Storage)
+			if err != nil {
+				log.Error(ctx, "Error Deleting List not added", "list_id", dstLstID, "error", err.Error())
+			}
+			res.Skipped++
+			continue
+		}
 		res.Restored++
 		if exists {
 			// The restored list does not share any content with the list it replaces.
-- 
2.43.0


From 195b8e4380d1f7500c7d4fd57cd4901b41505377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:16 +0000
Subject: [PATCH 49/57] fix: a failed upload leaves no list reported as backed
 up

---
 backup/job.go | 44 +++++++++++++++++++++-----------------------
 1 file changed, 21 insertions(+), 23 deletions(-)

diff --git a/backup/job.go b/backup/job.go
index 53abea3..1ddd9d0 100644
--- a/backup/job.go
+++ b/backup/job.go
@@ -168,15 +168,29 @@ func (req Request) Start(bg context.Context) ID {
 
 	// Start backup
 	go func() {
+		setErr := func(key string, err error) {
+			job.mu.Lock()
+			job.status.Errors[key] = err.Error()
+			job.mu.Unlock()
+		}
+		// failed is called with errors writing the end of the stream.
+		// No lists can be expected to be restored, since it may be truncated anywhere.
+		failed := func(key string, err error) {
+			if err == nil {
+				return
+			}
+			setErr(key, err)
+			job.mu.Lock()
+			for _, id := range job.status.Success {
+				job.status.Errors[id] = "backup was not finalized: " + err.Error()
+			}
+			job.status.Success = job.status.Success[:0]
+			job.mu.Unlock()
+		}
 		// unlock and set status when done.
 		defer func() {
 			if req.ErrCh != nil {
-				err := <-req.ErrCh
-				if err != nil {
-					job.mu.Lock()
-					job.status.Errors["delayed_error"] = err.Error()
-					job.mu.Unlock()
-				}
+				failed("delayed_error", <-req.ErrCh)
 			}
 			wc.mu.Lock()
 			n := wc.n
@@ -193,24 +207,8 @@ func (req Request) Start(bg context.Context) ID {
 			job.mu.Unlock()
 		}()
 
-		setErr := func(key string, err error) {
-			job.mu.Lock()
-			job.status.Errors[key] = err.Error()
-			job.mu.Unlock()
-		}
-		// finalized is called with errors writing the end of the stream.
-		// No lists can be expected to be restored, since it may be truncated anywhere.
 		finalized := func(err error) {
-			if err == nil {
-				return
-			}
-			setErr("finalizing", err)
-			job.mu.Lock()
-			for _, id := range job.status.Success {
-				job.status.Errors[id] = "backup was not finalized: " + err.Error()
-			}
-			job.status.Success = job.status.Success[:0]
-			job.mu.Unlock()
+			failed("finalizing", err)
 		}
 
 		msg := rankdb.NewWriterMsg()
-- 
2.43.0


From dd7da9b08bbacba5b305015d65caecbdf32688f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:16 +0000
Subject: [PATCH 50/57] fix: read consistently from DynamoDB

---
 blobstore/dynamo/dynamo.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blobstore/dynamo/dynamo.go b/blobstore/dynamo/dynamo.go
index 281bd85..b22fbc6 100644
--- a/blobstore/dynamo/dynamo.go
+++ b/blobstore/dynamo/dynamo.go
@@ -67,6 +67,8 @@ func (s *Store) Get(ctx context.Context, set, key string) ([]byte, error) {
 	in := dynamodb.GetItemInput{
 		Key:       map[string]*dynamodb.AttributeValue{s.id: {S: aws.String(key)}},
 		TableName: aws.String(set),
+		// Default reads may return a value before the last write.
+		ConsistentRead: aws.Bool(true),
 	}
 	res, err := s.db.GetItemWithContext(ctx, &in)
 	if err != nil {
-- 
2.43.0


From 42c7099f16662776da3cb98cb2536713bf459197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:16 +0000
Subject: [PATCH 51/57] fix: DynamoDB table definition names only the key

---
 blobstore/dynamo/dynamo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blobstore/dynamo/dynamo.go b/blobstore/dynamo/dynamo.go
index b22fbc6..29be332 100644
--- a/blobstore/dynamo/dynamo.go
+++ b/blobstore/dynamo/dynamo.go
@@ -51,8 +51,8 @@ func (s *Store) GetStore() blobstore.Store {
 func (s *Store) CreateSet(ctx context.Context, set string, provision *dynamodb.ProvisionedThroughput) error {
 	in := dynamodb.CreateTableInput{
 		AttributeDefinitions: []*dynamodb.AttributeDefinition{
+			// Only attributes of the key can be defined.
 			{AttributeName: &s.id, AttributeType: aws.String("S")},
-			{AttributeName: &s.blobName, AttributeType: aws.String("B")},
 		},
 		TableName:             aws.String(set),
 		KeySchema:             []*dynamodb.KeySchemaElement{{AttributeName: &s.id, KeyType: aws.String("HASH")}},
-- 
2.43.0


From ee74cf23baeab9ab515c0df7cc239e96c6007fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:16 +0000
Subject: [PATCH 52/57] fix: refuse payloads that are not JSON

---
 api/elements.go       | 18 +++++++++++++++---
 api/lists.go          |  6 +++++-
 api/morph/elements.go | 12 ++++++++++++
 api/multilist.go      | 12 ++++++++++--
 4 files changed, 42 insertions(+), 6 deletions(-)

diff --git a/api/elements.go b/api/elements.go
index ac21cad..14383e2 100644
--- a/api/elements.go
+++ b/api/elements.go
@@ -47,7 +47,11 @@ func (c *ElementsController) Create(ctx *app.CreateElementsContext) error {
 		return ctx.Unauthorized(err)
 	}
 
-	element := morph.NewApiElements(ctx.Payload).Elements()
+	in := morph.NewApiElements(ctx.Payload)
+	if err := in.ValidPayloads(); err != nil {
+		return ctx.BadRequest(err)
+	}
+	element := in.Elements()
 	element.UpdateTime(time.Now())
 	existing, err := lst.InsertNew(ctx, db.Storage, element)
 	if err != nil {
@@ -297,7 +301,11 @@ func (c *ElementsController) Put(ctx *app.PutElementsContext) error {
 	if err := HasAccessToElement(ctx, ids.ElementIDs()...); err != nil {
 		return ctx.Unauthorized(err)
 	}
-	elems := morph.NewApiElements(ctx.Payload).Elements()
+	in := morph.NewApiElements(ctx.Payload)
+	if err := in.ValidPayloads(); err != nil {
+		return ctx.BadRequest(err)
+	}
+	elems := in.Elements()
 	elems.UpdateTime(time.Now())
 	re, err := lst.UpdateElements(ctx, db.Storage, elems, ctx.Range, true)
 	if err != nil {
@@ -330,7 +338,11 @@ func (c *ElementsController) PutMulti(ctx *app.PutMultiElementsContext) error {
 	if !ok {
 		return ctx.NotFound(goa.ErrNotFound("not_found", "list_id", ctx.ListID))
 	}
-	elems := morph.ApiElements{In: ctx.Payload}.Elements()
+	in := morph.ApiElements{In: ctx.Payload}
+	if err := in.ValidPayloads(); err != nil {
+		return ctx.BadRequest(err)
+	}
+	elems := in.Elements()
 	elems.UpdateTime(time.Now())
 	elems.Deduplicate()
 
diff --git a/api/lists.go b/api/lists.go
index d0969d0..5e23b46 100644
--- a/api/lists.go
+++ b/api/lists.go
@@ -48,7 +48,11 @@ func (c *ListsController) Create(ctx *app.CreateListsContext) error {
 	opts = append(opts, rankdb.WithListOption.MergeSplitSize(ctx.Payload.MergeSize, ctx.Payload.SplitSize))
 	opts = append(opts, rankdb.WithListOption.LoadIndex(ctx.Payload.LoadIndex))
 	if ctx.Payload.Populate != nil && len(ctx.Payload.Populate) > 0 {
-		elems := morph.ApiElements{In: ctx.Payload.Populate}.Elements()
+		in := morph.ApiElements{In: ctx.Payload.Populate}
+		if err := in.ValidPayloads(); err != nil {
+			return ctx.BadRequest(err)
+		}
+		elems := in.Elements()
 		elems.UpdateTime(time.Now())
 		elems.Deduplicate()
 		opts = append(opts, rankdb.WithListOption.Populate(elems))
diff --git a/api/morph/elements.go b/api/morph/elements.go
index 1664827..b9cc7b8 100644
--- a/api/morph/elements.go
+++ b/api/morph/elements.go
@@ -8,6 +8,7 @@ import (
 
 	"github.com/Vivino/rankdb"
 	"github.com/Vivino/rankdb/api/app"
+	"github.com/goadesign/goa"
 )
 
 type RankedElement struct {
@@ -199,6 +200,17 @@ type ApiElements struct {
 	In []*app.Element
 }
 
+// ValidPayloads returns an error if a payload is not JSON.
+// Encodings other than JSON allow any bytes, which could not be returned again.
+func (a ApiElements) ValidPayloads() error {
+	for _, in := range a.In {
+		if in != nil && in.Payload != nil && !json.Valid(in.Payload) {
+			return goa.ErrBadRequest("payload is not valid JSON", "element_id", in.ID)
+		}
+	}
+	return nil
+}
+
 func (a ApiElements) Elements() rankdb.Elements {
 	e := a.In
 	res := make([]rankdb.Element, 0, len(e))
diff --git a/api/multilist.go b/api/multilist.go
index 962f142..87b5c11 100644
--- a/api/multilist.go
+++ b/api/multilist.go
@@ -57,7 +57,11 @@ func (c *MultilistController) Create(ctx *app.CreateMultilistContext) error {
 		return ctx.Unauthorized(err)
 	}
 
-	in := morph.ApiElements{In: ctx.Payload.Payload}.Elements()
+	apiElems := morph.ApiElements{In: ctx.Payload.Payload}
+	if err := apiElems.ValidPayloads(); err != nil {
+		return ctx.BadRequest(err)
+	}
+	in := apiElems.Elements()
 	in.Deduplicate()
 	in.UpdateTime(time.Now())
 	if err := HasAccessToElement(ctx, in.IDs()...); err != nil {
@@ -197,7 +201,11 @@ func (c *MultilistController) Put(ctx *app.PutMultilistContext) error {
 		return ctx.Unauthorized(err)
 	}
 
-	in := morph.ApiElements{In: ctx.Payload.Payload}.Elements()
+	apiElems := morph.ApiElements{In: ctx.Payload.Payload}
+	if err := apiElems.ValidPayloads(); err != nil {
+		return ctx.BadRequest(err)
+	}
+	in := apiElems.Elements()
 	in.UpdateTime(time.Now())
 	in.Deduplicate()
 	if err := HasAccessToElement(ctx, in.IDs()...); err != nil {
-- 
2.43.0


From d7b5ccc7209bddb65b0d7eec78c8ac0f39f9cb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:41 +0000
Subject: [PATCH 53/57] fix: lists that cannot be loaded are not missing
 because there is no backup

---
 manager.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/manager.go b/manager.go
index 6ffe7b8..c509313 100644
--- a/manager.go
+++ b/manager.go
@@ -175,7 +175,12 @@ func (m *Manager) LoadLists(ctx context.Context, cache Cache) error {
 	}
 	// Load backup.
 	log.Error(ctx, "Unable to load master list, loading from backup", "error", err.Error())
+	mainErr := err
 	blob, err = m.Backup.Get(ctx, backupListStorageKey)
+	if err == blobstore.ErrBlobNotFound {
+		// Lists that cannot be loaded are not missing because there is no backup.
+		return mainErr
+	}
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From a60478285779d66dfdfbe4d1f2e04af59b2827e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:41 +0000
Subject: [PATCH 54/57] fix: close refused backup sources

---
 backup/provider.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/backup/provider.go b/backup/provider.go
index dc01ca0..fab69a1 100644
--- a/backup/provider.go
+++ b/backup/provider.go
@@ -52,6 +52,7 @@ func (h HTTPLoader) Load(ctx context.Context) (io.ReadCloser, error) {
 		return nil, err
 	}
 	if resp.StatusCode > 299 {
+		resp.Body.Close()
 		return nil, errors.New(resp.Status)
 	}
 	return resp.Body, nil
-- 
2.43.0


From 3b0aef9af9b3fbe2ffc15ed3047a687aa10ef63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:41 +0000
Subject: [PATCH 55/57] fix: close S3 backup sources

---
 backup/s3/s3.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/backup/s3/s3.go b/backup/s3/s3.go
index 2224d43..e2fc099 100644
--- a/backup/s3/s3.go
+++ b/backup/s3/s3.go
@@ -60,13 +60,12 @@ func (f *File) Save(ctx context.Context) (io.WriteCloser, error) {
 
 func (f *File) Load(ctx context.Context) (io.ReadCloser, error) {
 	s3svc := s3.New(f.Client)
-	result, err := s3svc.GetObject(&s3.GetObjectInput{
+	result, err := s3svc.GetObjectWithContext(ctx, &s3.GetObjectInput{
 		Bucket: aws.String(f.Bucket),
 		Key:    aws.String(f.Key),
 	})
 	if err != nil {
 		return nil, err
 	}
-	// FIXME: Never closes result.Body.
-	return readahead.NewReader(result.Body), nil
+	return readahead.NewReadCloser(result.Body), nil
 }
-- 
2.43.0


From 379f7e9d233eaf30fc48fc61d6d01e34c58af33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:41 +0000
Subject: [PATCH 56/57] fix: close the health answer of destination servers

---
 backup/server/rankdb.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/backup/server/rankdb.go b/backup/server/rankdb.go
index 28e9dc2..a94b0b2 100644
--- a/backup/server/rankdb.go
+++ b/backup/server/rankdb.go
@@ -28,6 +28,7 @@ func NewRankDB(ctx context.Context, host string) (*RankDB, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer resp.Body.Close()
 	if resp.StatusCode != http.StatusOK {
 		return nil, errors.New("Could not reach destination server")
 	}
-- 
2.43.0


From a94b16e817894c9069f085ce4deed488419af26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:06 +0000
Subject: [PATCH 57/57] fix: report lazy saver statistics before the first get
 and set

---
 blobstore/lazysaver.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/blobstore/lazysaver.go b/blobstore/lazysaver.go
index 5cf7614..8ee4069 100644
--- a/blobstore/lazysaver.go
+++ b/blobstore/lazysaver.go
@@ -599,8 +599,13 @@ func (l *LazySaver) Stats() LazyStats {
 	s.SavedBytes = s.GetBytes - s.OutGetBytes
 	s.SavedBytes += s.SetBytes - s.OutSetBytes
 	s.SavedBytes -= s.ItemBytes
-	s.GetSavedBytesPct = float64(s.GetBytes-s.OutGetBytes) / float64(s.GetBytes) * 100
-	s.SetSavedBytesPct = float64(s.SetBytes-s.OutSetBytes) / float64(s.SetBytes) * 100
+	// NaN cannot be represented in JSON.
+	if s.GetBytes > 0 {
+		s.GetSavedBytesPct = float64(s.GetBytes-s.OutGetBytes) / float64(s.GetBytes) * 100
+	}
+	if s.SetBytes > 0 {
+		s.SetSavedBytesPct = float64(s.SetBytes-s.OutSetBytes) / float64(s.SetBytes) * 100
+	}
 	return s
 }
 
-- 
2.43.0

