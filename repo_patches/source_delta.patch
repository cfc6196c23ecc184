From c36beea6c19df7ea419fe385367fd4f900303ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:31 +0000
Subject: [PATCH 01/46] fix: MultiGet must allocate one value per key

---
 store/multiget.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/store/multiget.go b/store/multiget.go
index 635bcd4..b2ad0a3 100644
--- a/store/multiget.go
+++ b/store/multiget.go
@@ -18,7 +18,7 @@ package store
 // KVReader, and might be used by KVStore implementations that don't
 // have a native multi-get facility.
 func MultiGet(kvreader KVReader, keys [][]byte) ([][]byte, error) {
-	vals := make([][]byte, 0, len(keys))
+	vals := make([][]byte, len(keys))
 
 	for i, key := range keys {
 		val, err := kvreader.Get(key)
-- 
2.43.0


From 3be9f26d9ea372fe3e40bdb73771fb13ae62159d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:31 +0000
Subject: [PATCH 02/46] fix: batches must not keep the merge buffers of the
 caller

---
 store/batch.go           | 2 +-
 store/goleveldb/batch.go | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/store/batch.go b/store/batch.go
index 7110526..9b1fc4c 100644
--- a/store/batch.go
+++ b/store/batch.go
@@ -50,7 +50,7 @@ func (b *EmulatedBatch) Merge(key, val []byte) {
 	copy(ck, key)
 	cv := make([]byte, len(val))
 	copy(cv, val)
-	b.Merger.Merge(key, val)
+	b.Merger.Merge(ck, cv)
 }
 
 func (b *EmulatedBatch) Reset() {
diff --git a/store/goleveldb/batch.go b/store/goleveldb/batch.go
index b2221cb..b08e189 100644
--- a/store/goleveldb/batch.go
+++ b/store/goleveldb/batch.go
@@ -34,7 +34,10 @@ func (b *Batch) Delete(key []byte) {
 }
 
 func (b *Batch) Merge(key, val []byte) {
-	b.merge.Merge(key, val)
+	// the caller may reuse key and val as soon as this call returns
+	ck := append([]byte(nil), key...)
+	cv := append([]byte{}, val...)
+	b.merge.Merge(ck, cv)
 }
 
 func (b *Batch) Reset() {
-- 
2.43.0


From 5770cd8d792811ab9bd8e88f42d982c33eb5a437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:32 +0000
Subject: [PATCH 03/46] fix: Reset of an emulated batch must discard its merges

---
 store/batch.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/store/batch.go b/store/batch.go
index 9b1fc4c..f9f66a7 100644
--- a/store/batch.go
+++ b/store/batch.go
@@ -55,6 +55,7 @@ func (b *EmulatedBatch) Merge(key, val []byte) {
 
 func (b *EmulatedBatch) Reset() {
 	b.Ops = b.Ops[:0]
+	b.Merger = NewEmulatedMerge(b.Merger.mo)
 }
 
 func (b *EmulatedBatch) Close() error {
-- 
2.43.0


From a7531b10cb4abe4430b6e3f25ddc7632ef937bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:02 +0000
Subject: [PATCH 04/46] fix: badger batches must be atomic and report commit
 errors

---
 store/badger/writer.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/store/badger/writer.go b/store/badger/writer.go
index 8a36173..a3991a6 100644
--- a/store/badger/writer.go
+++ b/store/badger/writer.go
@@ -31,9 +31,8 @@ func (w *Writer) ExecuteBatch(batch store.KVBatch) (err error) {
 
 	txn := w.s.db.NewTransaction(true)
 
-	defer (func() {
-		txn.Commit()
-	})()
+	// no effect once the transaction is committed
+	defer txn.Discard()
 
 	for k, mergeOps := range emulatedBatch.Merger.Merges {
 		kb := []byte(k)
@@ -66,7 +65,7 @@ func (w *Writer) ExecuteBatch(batch store.KVBatch) (err error) {
 		}
 	}
 
-	return nil
+	return txn.Commit()
 }
 
 // Close closes the current writer
-- 
2.43.0


From c63915919ddf4e6fb24b207b6508cdc683875eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:03 +0000
Subject: [PATCH 05/46] fix: badger merges must tell absent keys from empty
 values and failed reads

---
 store/badger/writer.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/store/badger/writer.go b/store/badger/writer.go
index a3991a6..acab1f6 100644
--- a/store/badger/writer.go
+++ b/store/badger/writer.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 
 	"github.com/akhenakh/oureadb/store"
+	"github.com/dgraph-io/badger"
 )
 
 // Writer bleve.search/store/Writer implementation
@@ -37,9 +38,15 @@ func (w *Writer) ExecuteBatch(batch store.KVBatch) (err error) {
 	for k, mergeOps := range emulatedBatch.Merger.Merges {
 		kb := []byte(k)
 		item, err := txn.Get(kb)
-		existingVal := []byte{}
+		if err != nil && err != badger.ErrKeyNotFound {
+			return err
+		}
+		var existingVal []byte
 		if err == nil {
-			existingVal, _ = item.ValueCopy(nil)
+			existingVal, err = item.ValueCopy([]byte{})
+			if err != nil {
+				return err
+			}
 		}
 		mergedVal, fullMergeOk := w.s.mo.FullMerge(kb, existingVal, mergeOps)
 		if !fullMergeOk {
-- 
2.43.0


From 6bcce8d1043d1a9f2830a000064bb85161f4e416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:04 +0000
Subject: [PATCH 06/46] fix: badger Get must tell empty values and failures
 from missing keys

---
 store/badger/reader.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/store/badger/reader.go b/store/badger/reader.go
index e90fd76..4df5527 100644
--- a/store/badger/reader.go
+++ b/store/badger/reader.go
@@ -15,10 +15,14 @@ type Reader struct {
 // Get fetch the value of the specified key from the store
 func (r *Reader) Get(k []byte) ([]byte, error) {
 	item, err := r.txn.Get(k)
-	if err != nil {
+	if err == badger.ErrKeyNotFound {
 		return nil, nil
 	}
-	return item.ValueCopy(nil)
+	if err != nil {
+		return nil, err
+	}
+	// nil is for missing keys only
+	return item.ValueCopy([]byte{})
 }
 
 // MultiGet returns multiple values for the specified keys
-- 
2.43.0


From fa297564e991c3d40e5b21cfe31a88c5efed2bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:04 +0000
Subject: [PATCH 07/46] fix: a refused merge must not deadlock the gtreap store
 or apply half a batch

---
 store/gtreap/writer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/store/gtreap/writer.go b/store/gtreap/writer.go
index 022fec5..8508612 100644
--- a/store/gtreap/writer.go
+++ b/store/gtreap/writer.go
@@ -44,6 +44,9 @@ func (w *Writer) ExecuteBatch(batch store.KVBatch) error {
 	}
 
 	w.s.m.Lock()
+	defer w.s.m.Unlock()
+
+	before := w.s.t
 	for k, mergeOps := range emulatedBatch.Merger.Merges {
 		kb := []byte(k)
 		var existingVal []byte
@@ -53,6 +56,7 @@ func (w *Writer) ExecuteBatch(batch store.KVBatch) error {
 		}
 		mergedVal, fullMergeOk := w.s.mo.FullMerge(kb, existingVal, mergeOps)
 		if !fullMergeOk {
+			w.s.t = before
 			return fmt.Errorf("merge operator returned failure")
 		}
 		w.s.t = w.s.t.Upsert(&Item{k: kb, v: mergedVal}, rand.Int())
@@ -65,7 +69,6 @@ func (w *Writer) ExecuteBatch(batch store.KVBatch) error {
 			w.s.t = w.s.t.Delete(&Item{k: op.K})
 		}
 	}
-	w.s.m.Unlock()
 
 	return nil
 }
-- 
2.43.0


From bdda1542e4c63689fc116e6f184482e7e4502dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:05 +0000
Subject: [PATCH 08/46] fix: goleveldb Reader must report snapshot errors

---
 store/goleveldb/store.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/store/goleveldb/store.go b/store/goleveldb/store.go
index f971b97..9ad2dfe 100644
--- a/store/goleveldb/store.go
+++ b/store/goleveldb/store.go
@@ -77,7 +77,10 @@ func (ldbs *Store) Close() error {
 }
 
 func (ldbs *Store) Reader() (store.KVReader, error) {
-	snapshot, _ := ldbs.db.GetSnapshot()
+	snapshot, err := ldbs.db.GetSnapshot()
+	if err != nil {
+		return nil, err
+	}
 	return &Reader{
 		store:    ldbs,
 		snapshot: snapshot,
-- 
2.43.0


From 9c10a8c9710e0c8025d088581d1a356c98ff5d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:06 +0000
Subject: [PATCH 09/46] fix: goleveldb merges must not override the sets and
 deletes of their batch

---
 store/goleveldb/writer.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/store/goleveldb/writer.go b/store/goleveldb/writer.go
index 701f86b..1f74272 100644
--- a/store/goleveldb/writer.go
+++ b/store/goleveldb/writer.go
@@ -45,6 +45,7 @@ func (w *Writer) ExecuteBatch(b store.KVBatch) error {
 	}
 
 	// first process merges
+	merged := new(leveldb.Batch)
 	for k, mergeOps := range batch.merge.Merges {
 		kb := []byte(k)
 		existingVal, err := w.store.db.Get(kb, w.store.defaultReadOptions)
@@ -56,11 +57,15 @@ func (w *Writer) ExecuteBatch(b store.KVBatch) error {
 			return fmt.Errorf("merge operator returned failure")
 		}
 		// add the final merge to this batch
-		batch.batch.Put(kb, mergedVal)
+		merged.Put(kb, mergedVal)
+	}
+	// sets and deletes come after the merges, as on the other stores
+	if err := batch.batch.Replay(merged); err != nil {
+		return err
 	}
 
 	// now execute the batch
-	return w.store.db.Write(batch.batch, w.store.defaultWriteOptions)
+	return w.store.db.Write(merged, w.store.defaultWriteOptions)
 }
 
 func (w *Writer) Close() error {
-- 
2.43.0


From e209c7b7c444741eb025d2337bc1f5b7595bc18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:19 +0000
Subject: [PATCH 10/46] fix: boltdb New must release the file when the bucket
 cannot be created

---
 store/boltdb/store.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/store/boltdb/store.go b/store/boltdb/store.go
index 87cd9d8..aaa8fba 100644
--- a/store/boltdb/store.go
+++ b/store/boltdb/store.go
@@ -86,6 +86,8 @@ func New(mo store.MergeOperator, config map[string]interface{}) (store.KVStore,
 			return err
 		})
 		if err != nil {
+			// release the file lock
+			_ = db.Close()
 			return nil, err
 		}
 	}
-- 
2.43.0


From e65ce426b25ed8df958fb38c821950dbc9422153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:20 +0000
Subject: [PATCH 11/46] fix: boltdb must refuse to open a missing bucket read
 only

---
 store/boltdb/store.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/store/boltdb/store.go b/store/boltdb/store.go
index aaa8fba..3e9d6f1 100644
--- a/store/boltdb/store.go
+++ b/store/boltdb/store.go
@@ -90,6 +90,18 @@ func New(mo store.MergeOperator, config map[string]interface{}) (store.KVStore,
 			_ = db.Close()
 			return nil, err
 		}
+	} else {
+		// the bucket can't be created, reading without it is not possible
+		err = db.View(func(tx *bolt.Tx) error {
+			if tx.Bucket([]byte(bucket)) == nil {
+				return bolt.ErrBucketNotFound
+			}
+			return nil
+		})
+		if err != nil {
+			_ = db.Close()
+			return nil, err
+		}
 	}
 
 	rv := Store{
-- 
2.43.0


From 337aecf6cf4900809605ad11815205df863c8a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:03 +0000
Subject: [PATCH 12/46] fix: goleveldb merges must see a deleted key as missing

---
 store/goleveldb/writer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/store/goleveldb/writer.go b/store/goleveldb/writer.go
index 1f74272..d4decf2 100644
--- a/store/goleveldb/writer.go
+++ b/store/goleveldb/writer.go
@@ -52,6 +52,10 @@ func (w *Writer) ExecuteBatch(b store.KVBatch) error {
 		if err != nil && err != leveldb.ErrNotFound {
 			return err
 		}
+		if err == leveldb.ErrNotFound {
+			// a deleted key may come with an empty, non nil, value
+			existingVal = nil
+		}
 		mergedVal, fullMergeOk := w.store.mo.FullMerge(kb, existingVal, mergeOps)
 		if !fullMergeOk {
 			return fmt.Errorf("merge operator returned failure")
-- 
2.43.0


From d575df1f4aeca25d643b01203122e3dde9084bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:50 +0000
Subject: [PATCH 13/46] fix: ring orientation must not depend on the first
 vertices nor reverse the coordinates of the caller

---
 index/geodata/loop.go  | 18 ++++++++++--------
 index/geodata/tools.go |  9 ---------
 2 files changed, 10 insertions(+), 17 deletions(-)

diff --git a/index/geodata/loop.go b/index/geodata/loop.go
index 5806590..89edbe5 100644
--- a/index/geodata/loop.go
+++ b/index/geodata/loop.go
@@ -19,19 +19,21 @@ func LoopFromCoordinatesAndCCW(c []float64, checkCCW bool) *s2.Loop {
 		points[i/2] = s2.PointFromLatLng(s2.LatLngFromDegrees(c[i+1], c[i]))
 	}
 
-	if checkCCW && s2.RobustSign(points[0], points[1], points[2]) != s2.CounterClockwise {
-		// reversing the slice
-		for i := len(points)/2 - 1; i >= 0; i-- {
-			opp := len(points) - 1 - i
-			points[i], points[opp] = points[opp], points[i]
-		}
-	}
-
 	if points[0] == points[len(points)-1] {
 		// remove last item if same as 1st
 		points = append(points[:len(points)-1], points[len(points)-1+1:]...)
 	}
 
 	loop := s2.LoopFromPoints(points)
+
+	// the orientation is a property of the whole ring, not of three of its vertices
+	if checkCCW && !loop.IsNormalized() {
+		// reversing the slice
+		for i := len(points)/2 - 1; i >= 0; i-- {
+			opp := len(points) - 1 - i
+			points[i], points[opp] = points[opp], points[i]
+		}
+		loop = s2.LoopFromPoints(points)
+	}
 	return loop
 }
diff --git a/index/geodata/tools.go b/index/geodata/tools.go
index 3af1031..5e77d98 100644
--- a/index/geodata/tools.go
+++ b/index/geodata/tools.go
@@ -217,15 +217,6 @@ func coverPolygon(c []float64, coverer *s2.RegionCoverer, interior bool) (s2.Cel
 		return nil, errors.New("invalid polygons")
 	}
 
-	// super hacky try reverse if ContainsOrigin
-	if l.ContainsOrigin() {
-		// reversing the slice
-		for i := len(c)/2 - 1; i >= 0; i-- {
-			opp := len(c) - 1 - i
-			c[i], c[opp] = c[opp], c[i]
-		}
-	}
-
 	if interior {
 		return coverer.InteriorCovering(l), nil
 	}
-- 
2.43.0


From db03d95eee7f268c1b1d77fc2c0c8137a4da9353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:51 +0000
Subject: [PATCH 14/46] fix: rings with fewer than three distinct vertices must
 be refused

---
 index/geodata/loop.go  | 12 ++++++++++--
 index/geodata/tools.go |  2 +-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/index/geodata/loop.go b/index/geodata/loop.go
index 89edbe5..939cdee 100644
--- a/index/geodata/loop.go
+++ b/index/geodata/loop.go
@@ -13,10 +13,14 @@ func LoopFromCoordinatesAndCCW(c []float64, checkCCW bool) *s2.Loop {
 	if len(c)%2 != 0 || len(c) < 2*3 {
 		return nil
 	}
-	points := make([]s2.Point, len(c)/2)
+	points := make([]s2.Point, 0, len(c)/2)
 
 	for i := 0; i < len(c); i += 2 {
-		points[i/2] = s2.PointFromLatLng(s2.LatLngFromDegrees(c[i+1], c[i]))
+		p := s2.PointFromLatLng(s2.LatLngFromDegrees(c[i+1], c[i]))
+		// a repeated vertex does not make an edge
+		if len(points) == 0 || points[len(points)-1] != p {
+			points = append(points, p)
+		}
 	}
 
 	if points[0] == points[len(points)-1] {
@@ -24,6 +28,10 @@ func LoopFromCoordinatesAndCCW(c []float64, checkCCW bool) *s2.Loop {
 		points = append(points[:len(points)-1], points[len(points)-1+1:]...)
 	}
 
+	if len(points) < 3 {
+		return nil
+	}
+
 	loop := s2.LoopFromPoints(points)
 
 	// the orientation is a property of the whole ring, not of three of its vertices
diff --git a/index/geodata/tools.go b/index/geodata/tools.go
index 5e77d98..bf38fc3 100644
--- a/index/geodata/tools.go
+++ b/index/geodata/tools.go
@@ -213,7 +213,7 @@ func coverPolygon(c []float64, coverer *s2.RegionCoverer, interior bool) (s2.Cel
 	}
 
 	l := LoopFromCoordinatesAndCCW(c, true)
-	if l.IsEmpty() || l.IsFull() {
+	if l == nil || l.IsEmpty() || l.IsFull() {
 		return nil, errors.New("invalid polygons")
 	}
 
-- 
2.43.0


From 09f7ca65ed77164f1c2056fb19e69c48033bf3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:52 +0000
Subject: [PATCH 15/46] fix: GeoDataToRect must bound the inside of a ring
 written in either direction and refuse malformed ones

---
 index/geodata/tools.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/index/geodata/tools.go b/index/geodata/tools.go
index bf38fc3..948304b 100644
--- a/index/geodata/tools.go
+++ b/index/geodata/tools.go
@@ -106,8 +106,8 @@ func GeoDataToRect(gd *GeoData) (s2.Rect, error) {
 		return s2.Rect{}, errors.New("point can't be rect bounded")
 
 	case Geometry_POLYGON:
-		l := LoopFromCoordinates(gd.Geometry.Coordinates)
-		if l.IsEmpty() || l.IsFull() || l.ContainsOrigin() {
+		l := LoopFromCoordinatesAndCCW(gd.Geometry.Coordinates, true)
+		if l == nil || l.IsEmpty() || l.IsFull() {
 			return s2.Rect{}, errors.New("invalid polygon")
 		}
 		return l.RectBound(), nil
-- 
2.43.0


From 00d69d5a3b181ab94369321623229e1dc7c95e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:52 +0000
Subject: [PATCH 16/46] fix: line covers must respect the minimum level of the
 coverer

---
 index/geodata/tools.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/index/geodata/tools.go b/index/geodata/tools.go
index 948304b..cf04785 100644
--- a/index/geodata/tools.go
+++ b/index/geodata/tools.go
@@ -174,9 +174,9 @@ func geoDataCoverCellUnion(gd *GeoData, coverer *s2.RegionCoverer, interior bool
 
 		var cupl s2.CellUnion
 		if interior {
-			cupl = coverer.InteriorCellUnion(&pl)
+			cupl = coverer.InteriorCovering(&pl)
 		} else {
-			cupl = coverer.CellUnion(&pl)
+			cupl = coverer.Covering(&pl)
 		}
 		cu = append(cu, cupl...)
 
-- 
2.43.0


From 66034e447962e744932c711b9b45271e6d9a8550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:53 +0000
Subject: [PATCH 17/46] fix: only the lng lat pairs of the outer ring make a
 GeoData

---
 index/geodata/tools.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/index/geodata/tools.go b/index/geodata/tools.go
index cf04785..e01b672 100644
--- a/index/geodata/tools.go
+++ b/index/geodata/tools.go
@@ -16,7 +16,7 @@ func GeomToGeoData(g geom.T, gd *GeoData) error {
 
 	switch g := g.(type) {
 	case *geom.Point:
-		geo.Coordinates = g.Coords()
+		geo.Coordinates = flatXY(g.FlatCoords(), g.Stride())
 		geo.Type = Geometry_POINT
 		//case *geom.MultiPolygon:
 		//	geo.Type = geodata.Geometry_MULTIPOLYGON
@@ -24,11 +24,13 @@ func GeomToGeoData(g geom.T, gd *GeoData) error {
 	case *geom.Polygon:
 		// only supports outer ring
 		geo.Type = Geometry_POLYGON
-		geo.Coordinates = g.FlatCoords()
+		if len(g.Ends()) > 0 {
+			geo.Coordinates = flatXY(g.FlatCoords()[:g.Ends()[0]], g.Stride())
+		}
 
 	case *geom.LineString:
 		geo.Type = Geometry_LINESTRING
-		geo.Coordinates = g.FlatCoords()
+		geo.Coordinates = flatXY(g.FlatCoords(), g.Stride())
 
 	default:
 		return errors.Errorf("unsupported geo type %T", g)
@@ -38,6 +40,18 @@ func GeomToGeoData(g geom.T, gd *GeoData) error {
 	return nil
 }
 
+// flatXY returns the lng lat pairs of flat coordinates, dropping any other ordinate
+func flatXY(c []float64, stride int) []float64 {
+	if stride <= 2 {
+		return c
+	}
+	xy := make([]float64, 0, 2*len(c)/stride)
+	for i := 0; i+stride <= len(c); i += stride {
+		xy = append(xy, c[i], c[i+1])
+	}
+	return xy
+}
+
 // GeoDataToGeom converts GeoData to a geom.T representation
 func GeoDataToGeom(gd *GeoData) (geom.T, error) {
 	switch gd.Geometry.Type {
-- 
2.43.0


From dc32b865d023e6e67add7ac15f0717ccaa681c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:25 +0000
Subject: [PATCH 18/46] fix: points, lines and rings without usable coordinates
 must be refused

---
 index/geodata/loop.go  | 19 ++++++++++++++++++-
 index/geodata/tools.go |  9 +++++++++
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/index/geodata/loop.go b/index/geodata/loop.go
index 939cdee..1b13df6 100644
--- a/index/geodata/loop.go
+++ b/index/geodata/loop.go
@@ -1,6 +1,10 @@
 package geodata
 
-import "github.com/golang/geo/s2"
+import (
+	"math"
+
+	"github.com/golang/geo/s2"
+)
 
 // LoopFromCoordinates creates a LoopFence from a list of lng lat
 func LoopFromCoordinates(c []float64) *s2.Loop {
@@ -13,6 +17,9 @@ func LoopFromCoordinatesAndCCW(c []float64, checkCCW bool) *s2.Loop {
 	if len(c)%2 != 0 || len(c) < 2*3 {
 		return nil
 	}
+	if !finite(c) {
+		return nil
+	}
 	points := make([]s2.Point, 0, len(c)/2)
 
 	for i := 0; i < len(c); i += 2 {
@@ -45,3 +52,13 @@ func LoopFromCoordinatesAndCCW(c []float64, checkCCW bool) *s2.Loop {
 	}
 	return loop
 }
+
+// finite reports whether c holds only numbers that can be coordinates
+func finite(c []float64) bool {
+	for _, v := range c {
+		if math.IsNaN(v) || math.IsInf(v, 0) {
+			return false
+		}
+	}
+	return true
+}
diff --git a/index/geodata/tools.go b/index/geodata/tools.go
index e01b672..9d81413 100644
--- a/index/geodata/tools.go
+++ b/index/geodata/tools.go
@@ -133,6 +133,9 @@ func GeoDataToRect(gd *GeoData) (s2.Rect, error) {
 		if len(gd.Geometry.Coordinates)%2 != 0 {
 			return s2.Rect{}, errors.New("invalid coordinates count for line")
 		}
+		if len(gd.Geometry.Coordinates) == 0 || !finite(gd.Geometry.Coordinates) {
+			return s2.Rect{}, errors.New("invalid coordinates for line")
+		}
 
 		pl := make(s2.Polyline, len(gd.Geometry.Coordinates)/2)
 		for i := 0; i < len(gd.Geometry.Coordinates); i += 2 {
@@ -155,6 +158,9 @@ func geoDataCoverCellUnion(gd *GeoData, coverer *s2.RegionCoverer, interior bool
 	var cu s2.CellUnion
 	switch gd.Geometry.Type {
 	case Geometry_POINT:
+		if len(gd.Geometry.Coordinates) < 2 || !finite(gd.Geometry.Coordinates) {
+			return nil, errors.New("invalid coordinates for point")
+		}
 		c := s2.CellIDFromLatLng(s2.LatLngFromDegrees(gd.Geometry.Coordinates[1], gd.Geometry.Coordinates[0]))
 		cu = append(cu, c.Parent(coverer.MinLevel))
 
@@ -179,6 +185,9 @@ func geoDataCoverCellUnion(gd *GeoData, coverer *s2.RegionCoverer, interior bool
 		if len(gd.Geometry.Coordinates)%2 != 0 {
 			return nil, errors.New("invalid coordinates count for line")
 		}
+		if len(gd.Geometry.Coordinates) == 0 || !finite(gd.Geometry.Coordinates) {
+			return nil, errors.New("invalid coordinates for line")
+		}
 
 		pl := make(s2.Polyline, len(gd.Geometry.Coordinates)/2)
 		for i := 0; i < len(gd.Geometry.Coordinates); i += 2 {
-- 
2.43.0


From f1f2d7d62a1891dd9178016af7b9d1fcd27432d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:54 +0000
Subject: [PATCH 19/46] fix: a multipolygon without polygons or with a missing
 one must be refused

---
 index/geodata/tools.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/index/geodata/tools.go b/index/geodata/tools.go
index 9d81413..af2f39c 100644
--- a/index/geodata/tools.go
+++ b/index/geodata/tools.go
@@ -172,7 +172,13 @@ func geoDataCoverCellUnion(gd *GeoData, coverer *s2.RegionCoverer, interior bool
 		cu = append(cu, cup...)
 
 	case Geometry_MULTIPOLYGON:
+		if len(gd.Geometry.Geometries) == 0 {
+			return nil, errors.New("invalid multipolygon without polygons")
+		}
 		for _, g := range gd.Geometry.Geometries {
+			if g == nil {
+				return nil, errors.New("invalid multipolygon with a missing polygon")
+			}
 			cup, err := coverPolygon(g.Coordinates, coverer, interior)
 			if err != nil {
 				return nil, errors.Wrap(err, "can't cover multipolygon")
-- 
2.43.0


From 4e870c17991a517e961fa0f74d9cd404ad6ba017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:54 +0000
Subject: [PATCH 20/46] fix: exports must refuse missing geometries and
 incomplete coordinates

---
 index/geodata/tools.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/index/geodata/tools.go b/index/geodata/tools.go
index af2f39c..e0c0d10 100644
--- a/index/geodata/tools.go
+++ b/index/geodata/tools.go
@@ -52,8 +52,22 @@ func flatXY(c []float64, stride int) []float64 {
 	return xy
 }
 
+// checkXY reports an error if the flat coordinates of g can't be lng lat pairs
+func checkXY(g *Geometry) error {
+	if g == nil {
+		return errors.New("invalid geometry")
+	}
+	if len(g.Coordinates)%2 != 0 || (g.Type == Geometry_POINT && len(g.Coordinates) > 2) {
+		return errors.New("invalid coordinates count")
+	}
+	return nil
+}
+
 // GeoDataToGeom converts GeoData to a geom.T representation
 func GeoDataToGeom(gd *GeoData) (geom.T, error) {
+	if err := checkXY(gd.Geometry); err != nil {
+		return nil, err
+	}
 	switch gd.Geometry.Type {
 	case Geometry_POINT:
 		return geom.NewPointFlat(geom.XY, gd.Geometry.Coordinates), nil
@@ -256,6 +270,9 @@ func coverPolygon(c []float64, coverer *s2.RegionCoverer, interior bool) (s2.Cel
 func ToGeoJSONFeatureCollection(geos []*GeoData) ([]byte, error) {
 	fc := geojson.FeatureCollection{}
 	for _, g := range geos {
+		if err := checkXY(g.GetGeometry()); err != nil {
+			return nil, err
+		}
 		f := &geojson.Feature{}
 		switch g.Geometry.Type {
 		case Geometry_POINT:
@@ -267,6 +284,9 @@ func ToGeoJSONFeatureCollection(geos []*GeoData) ([]byte, error) {
 		case Geometry_MULTIPOLYGON:
 			mp := geom.NewMultiPolygon(geom.XY)
 			for _, poly := range g.Geometry.Geometries {
+				if err := checkXY(poly); err != nil {
+					return nil, err
+				}
 				ng := geom.NewPolygonFlat(geom.XY, poly.Coordinates, []int{len(poly.Coordinates)})
 				mp.Push(ng)
 			}
@@ -292,6 +312,9 @@ func PointsToGeoJSONPolyLines(geos []*GeoData) ([]byte, error) {
 	}
 
 	for _, g := range geos {
+		if err := checkXY(g.GetGeometry()); err != nil {
+			return nil, err
+		}
 		switch g.Geometry.Type {
 		case Geometry_POINT:
 			flatCoords = append(flatCoords, g.Geometry.Coordinates...)
-- 
2.43.0


From 9916e584ab861669d285516990a24cabb6a91926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:55 +0000
Subject: [PATCH 21/46] fix: exporting a property without value must not panic

---
 index/geodata/tools.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index/geodata/tools.go b/index/geodata/tools.go
index e0c0d10..5e7ac94 100644
--- a/index/geodata/tools.go
+++ b/index/geodata/tools.go
@@ -335,7 +335,7 @@ func PropertiesToJSONMap(src map[string]*spb.Value) map[string]interface{} {
 	res := make(map[string]interface{})
 
 	for k, v := range src {
-		switch x := v.Kind.(type) {
+		switch x := v.GetKind().(type) {
 		case *spb.Value_NumberValue:
 			res[k] = x.NumberValue
 		case *spb.Value_StringValue:
-- 
2.43.0


From 9365fe01c2f61417ba7c029e2ea03b048a2a223d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:56 +0000
Subject: [PATCH 22/46] fix: a null feature must be refused

---
 index/geodata/tools.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/index/geodata/tools.go b/index/geodata/tools.go
index 5e7ac94..c289be2 100644
--- a/index/geodata/tools.go
+++ b/index/geodata/tools.go
@@ -82,6 +82,10 @@ func GeoDataToGeom(gd *GeoData) (geom.T, error) {
 
 // GeoJSONFeatureToGeoData fill gd with the GeoJSON data f
 func GeoJSONFeatureToGeoData(f *geojson.Feature, gd *GeoData) error {
+	if f == nil {
+		return errors.New("missing feature")
+	}
+
 	err := PropertiesToGeoData(f, gd)
 	if err != nil {
 		return errors.Wrap(err, "while converting feature properties to GeoData")
-- 
2.43.0


From 069425e5e9421d8e5eee084e81010aa8e1c27d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:48 +0000
Subject: [PATCH 23/46] fix: point index queries must include the last leaf of
 their cells

---
 index/s2pointidx.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/index/s2pointidx.go b/index/s2pointidx.go
index 6ebac0b..01b543b 100644
--- a/index/s2pointidx.go
+++ b/index/s2pointidx.go
@@ -87,7 +87,8 @@ func (idx *S2PointIdx) GeoIdsAtCell(c s2.CellID) ([]GeoID, error) {
 	start = append(start, itob(uint64(c.RangeMin()))...)
 	stop := make([]byte, len(idx.prefix))
 	copy(stop, idx.prefix)
-	stop = append(stop, itob(uint64(c.RangeMax()))...)
+	// the end of a range is excluded
+	stop = append(stop, itob(uint64(c.RangeMax())+1)...)
 
 	var res []GeoID
 
@@ -162,7 +163,8 @@ func (idx *S2PointIdx) GeoIdsRadiusQuery(lat, lng, radius float64) ([]GeoID, err
 		start = append(start, itob(uint64(coverCell.RangeMin()))...)
 		stop := make([]byte, len(idx.prefix))
 		copy(stop, idx.prefix)
-		stop = append(stop, itob(uint64(coverCell.RangeMax()))...)
+		// the end of a range is excluded
+		stop = append(stop, itob(uint64(coverCell.RangeMax())+1)...)
 
 		// iterate entries with cell's prefix
 		iter := kv.RangeIterator(start, stop)
@@ -214,7 +216,8 @@ func (idx *S2PointIdx) GeoIdsRectQuery(urlat, urlng, bllat, bllng float64) ([]Ge
 		start = append(start, itob(uint64(coverCell.RangeMin()))...)
 		stop := make([]byte, len(idx.prefix))
 		copy(stop, idx.prefix)
-		stop = append(stop, itob(uint64(coverCell.RangeMax()))...)
+		// the end of a range is excluded
+		stop = append(stop, itob(uint64(coverCell.RangeMax())+1)...)
 
 		// iterate entries with cell's prefix
 		iter := kv.RangeIterator(start, stop)
-- 
2.43.0


From b7344a56266b371364a8f3efad092d3f792c6f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:48 +0000
Subject: [PATCH 24/46] fix: returned ids must not alias the iterator key

---
 index/s2idx.go      | 3 ++-
 index/s2pointidx.go | 3 ++-
 index/s2timeidx.go  | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/index/s2idx.go b/index/s2idx.go
index 5ccc696..0038697 100644
--- a/index/s2idx.go
+++ b/index/s2idx.go
@@ -155,6 +155,7 @@ func (idx *S2FlatIdx) keyToValues(k []byte) (c s2.CellID, id GeoID, err error) {
 		return c, id, errors.Wrap(err, "read back cell key failed")
 	}
 
-	id = k[len(idx.prefix)+8:]
+	// the key belongs to the iterator
+	id = append(GeoID(nil), k[len(idx.prefix)+8:]...)
 	return
 }
diff --git a/index/s2pointidx.go b/index/s2pointidx.go
index 01b543b..d1de02d 100644
--- a/index/s2pointidx.go
+++ b/index/s2pointidx.go
@@ -257,6 +257,7 @@ func (idx *S2PointIdx) keyToValues(k []byte) (c s2.CellID, id GeoID, err error)
 		return c, id, errors.Wrap(err, "read back cell key failed")
 	}
 
-	id = k[len(idx.prefix)+8:]
+	// the key belongs to the iterator
+	id = append(GeoID(nil), k[len(idx.prefix)+8:]...)
 	return
 }
diff --git a/index/s2timeidx.go b/index/s2timeidx.go
index 512b1b3..8a4f5c8 100644
--- a/index/s2timeidx.go
+++ b/index/s2timeidx.go
@@ -189,6 +189,7 @@ func (idx *S2FlatTimeIdx) keyToValues(k []byte) (c s2.CellID, t time.Time, id Ge
 	// reverse ts back to ts
 	t = time.Unix(0, math.MaxInt64-ts)
 
-	id = k[len(idx.prefix)+8+8:]
+	// the key belongs to the iterator
+	id = append(GeoID(nil), k[len(idx.prefix)+8+8:]...)
 	return
 }
-- 
2.43.0


From 79d04987637babb0e1624aff39f4ef3428f6715b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:49 +0000
Subject: [PATCH 25/46] fix: indexes must not depend on the prefix slice of the
 caller

---
 index/s2idx.go      | 2 +-
 index/s2pointidx.go | 2 +-
 index/s2timeidx.go  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/index/s2idx.go b/index/s2idx.go
index 0038697..c25c902 100644
--- a/index/s2idx.go
+++ b/index/s2idx.go
@@ -25,7 +25,7 @@ type S2FlatIdx struct {
 func NewS2FlatIdx(s store.KVStore, prefix []byte, level int) *S2FlatIdx {
 	return &S2FlatIdx{
 		KVStore: s,
-		prefix:  prefix,
+		prefix:  append([]byte(nil), prefix...),
 		level:   level,
 	}
 }
diff --git a/index/s2pointidx.go b/index/s2pointidx.go
index d1de02d..23e39d9 100644
--- a/index/s2pointidx.go
+++ b/index/s2pointidx.go
@@ -22,7 +22,7 @@ type S2PointIdx struct {
 func NewS2PointIdx(s store.KVStore, prefix []byte) *S2PointIdx {
 	return &S2PointIdx{
 		KVStore: s,
-		prefix:  prefix,
+		prefix:  append([]byte(nil), prefix...),
 	}
 }
 
diff --git a/index/s2timeidx.go b/index/s2timeidx.go
index 8a4f5c8..94c4956 100644
--- a/index/s2timeidx.go
+++ b/index/s2timeidx.go
@@ -27,7 +27,7 @@ type S2FlatTimeIdx struct {
 func NewS2FlatTimeIdx(s store.KVStore, prefix []byte, level int) *S2FlatTimeIdx {
 	return &S2FlatTimeIdx{
 		KVStore: s,
-		prefix:  prefix,
+		prefix:  append([]byte(nil), prefix...),
 		level:   level,
 	}
 }
-- 
2.43.0


From 62c7523e9a1db4bf0562a1dfcc568d32e6e71cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:49 +0000
Subject: [PATCH 26/46] fix: a query must report a failing reader instead of
 panicking

---
 index/s2idx.go      | 2 +-
 index/s2pointidx.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/index/s2idx.go b/index/s2idx.go
index c25c902..11d5575 100644
--- a/index/s2idx.go
+++ b/index/s2idx.go
@@ -79,10 +79,10 @@ func (idx *S2FlatIdx) GeoIdsAtCell(c s2.CellID) ([]GeoID, error) {
 	var res []GeoID
 
 	kv, err := idx.Reader()
-	defer kv.Close()
 	if err != nil {
 		return nil, err
 	}
+	defer kv.Close()
 
 	// iterate entries with cell's prefix
 	iter := kv.PrefixIterator(k)
diff --git a/index/s2pointidx.go b/index/s2pointidx.go
index 23e39d9..4071785 100644
--- a/index/s2pointidx.go
+++ b/index/s2pointidx.go
@@ -149,10 +149,10 @@ func (idx *S2PointIdx) GeoIdsRadiusQuery(lat, lng, radius float64) ([]GeoID, err
 	cu := coverer.Covering(cap)
 
 	kv, err := idx.Reader()
-	defer kv.Close()
 	if err != nil {
 		return nil, err
 	}
+	defer kv.Close()
 
 	var res []GeoID
 
@@ -204,10 +204,10 @@ func (idx *S2PointIdx) GeoIdsRectQuery(urlat, urlng, bllat, bllng float64) ([]Ge
 	var res []GeoID
 
 	kv, err := idx.Reader()
-	defer kv.Close()
 	if err != nil {
 		return nil, err
 	}
+	defer kv.Close()
 
 	// we range over cover to lookup for points (cell l30) and filter them in place
 	for _, coverCell := range cu {
-- 
2.43.0


From ad2993eb0c8518af5a7cb55ea3343583c7eee173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:50 +0000
Subject: [PATCH 27/46] fix: queries must close their readers and iterators

---
 index/s2pointidx.go | 3 +++
 index/s2timeidx.go  | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/index/s2pointidx.go b/index/s2pointidx.go
index 4071785..8fa844b 100644
--- a/index/s2pointidx.go
+++ b/index/s2pointidx.go
@@ -96,6 +96,7 @@ func (idx *S2PointIdx) GeoIdsAtCell(c s2.CellID) ([]GeoID, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer kv.Close()
 
 	// iterate entries with cell's prefix
 	iter := kv.RangeIterator(start, stop)
@@ -179,6 +180,7 @@ func (idx *S2PointIdx) GeoIdsRadiusQuery(lat, lng, radius float64) ([]GeoID, err
 
 			c, id, err := idx.keyToValues(kid)
 			if err != nil {
+				iter.Close()
 				return nil, errors.Wrap(err, "read back failed key from db")
 			}
 
@@ -230,6 +232,7 @@ func (idx *S2PointIdx) GeoIdsRectQuery(urlat, urlng, bllat, bllng float64) ([]Ge
 
 			c, id, err := idx.keyToValues(kid)
 			if err != nil {
+				iter.Close()
 				return nil, errors.Wrap(err, "read back failed key from db")
 			}
 
diff --git a/index/s2timeidx.go b/index/s2timeidx.go
index 94c4956..d12effb 100644
--- a/index/s2timeidx.go
+++ b/index/s2timeidx.go
@@ -128,9 +128,11 @@ func (idx *S2FlatTimeIdx) GeoTimeIdsAtCell(c s2.CellID, from time.Time, to time.
 	if err != nil {
 		return nil, err
 	}
+	defer kv.Close()
 
 	// iterate entries with cell's prefix
 	iter := kv.RangeIterator(startKey, stopKey)
+	defer iter.Close()
 	for {
 		kid, _, ok := iter.Current()
 		if !ok {
-- 
2.43.0


From 686e5e8bc007519a94c54b973181f9e0154d205b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:51 +0000
Subject: [PATCH 28/46] fix: indexing must close its writer

---
 index/s2idx.go      | 1 +
 index/s2pointidx.go | 1 +
 index/s2timeidx.go  | 1 +
 3 files changed, 3 insertions(+)

diff --git a/index/s2idx.go b/index/s2idx.go
index 11d5575..d1048d3 100644
--- a/index/s2idx.go
+++ b/index/s2idx.go
@@ -48,6 +48,7 @@ func (idx *S2FlatIdx) GeoIndex(gd *geodata.GeoData, id GeoID) error {
 	if err != nil {
 		return err
 	}
+	defer kv.Close()
 
 	batch := kv.NewBatch()
 	defer batch.Close()
diff --git a/index/s2pointidx.go b/index/s2pointidx.go
index 8fa844b..281115e 100644
--- a/index/s2pointidx.go
+++ b/index/s2pointidx.go
@@ -34,6 +34,7 @@ func (idx *S2PointIdx) PointIndex(lat, lng float64, id GeoID) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer kv.Close()
 
 	batch := kv.NewBatch()
 	defer batch.Close()
diff --git a/index/s2timeidx.go b/index/s2timeidx.go
index d12effb..600c560 100644
--- a/index/s2timeidx.go
+++ b/index/s2timeidx.go
@@ -48,6 +48,7 @@ func (idx *S2FlatTimeIdx) GeoTimeIndex(gd *geodata.GeoData, t time.Time, id GeoI
 	if err != nil {
 		return err
 	}
+	defer kv.Close()
 
 	batch := kv.NewBatch()
 	defer batch.Close()
-- 
2.43.0


From d69d8e544ec486bff4b4cc023f57b558334444fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:51 +0000
Subject: [PATCH 29/46] fix: the area of a radius query must be the one of a
 spherical cap

---
 index/tools.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/index/tools.go b/index/tools.go
index a47c087..dc13538 100644
--- a/index/tools.go
+++ b/index/tools.go
@@ -33,5 +33,11 @@ func int64tob(v int64) []byte {
 
 func s2RadialAreaMeters(radius float64) float64 {
 	r := (radius / earthCircumferenceMeter) * math.Pi * 2
-	return math.Pi * r * r
+	if r >= math.Pi {
+		// the whole sphere
+		return 4 * math.Pi
+	}
+	// area of a spherical cap, s2 derives the angle back from it
+	s := math.Sin(r / 2)
+	return 4 * math.Pi * s * s
 }
-- 
2.43.0


From a1abf5663e9ab848393dd98900bd993fe9895c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:52 +0000
Subject: [PATCH 30/46] fix: rectangle queries must go eastward from bottom
 left to upper right

---
 index/s2pointidx.go |  2 ++
 index/s2timeidx.go  |  2 ++
 index/tools.go      | 14 ++++++++++++++
 3 files changed, 18 insertions(+)

diff --git a/index/s2pointidx.go b/index/s2pointidx.go
index 281115e..ff2c2d7 100644
--- a/index/s2pointidx.go
+++ b/index/s2pointidx.go
@@ -201,6 +201,8 @@ func (idx *S2PointIdx) GeoIdsRadiusQuery(lat, lng, radius float64) ([]GeoID, err
 func (idx *S2PointIdx) GeoIdsRectQuery(urlat, urlng, bllat, bllng float64) ([]GeoID, error) {
 	rect := s2.RectFromLatLng(s2.LatLngFromDegrees(bllat, bllng))
 	rect = rect.AddPoint(s2.LatLngFromDegrees(urlat, urlng))
+	// always go eastward from bottom left to upper right
+	rect.Lng = lngInterval(bllng, urlng)
 	coverer := &s2.RegionCoverer{MaxLevel: 14, MaxCells: 8}
 	cu := coverer.Covering(rect)
 
diff --git a/index/s2timeidx.go b/index/s2timeidx.go
index 600c560..a90b101 100644
--- a/index/s2timeidx.go
+++ b/index/s2timeidx.go
@@ -85,6 +85,8 @@ func (idx *S2FlatTimeIdx) GeoTimeIdsRadiusQuery(from time.Time, to time.Time, la
 func (idx *S2FlatTimeIdx) GeoTimeIdsRectQuery(from time.Time, to time.Time, urlat, urlng, bllat, bllng float64) ([]GeoID, error) {
 	rect := s2.RectFromLatLng(s2.LatLngFromDegrees(bllat, bllng))
 	rect = rect.AddPoint(s2.LatLngFromDegrees(urlat, urlng))
+	// always go eastward from bottom left to upper right
+	rect.Lng = lngInterval(bllng, urlng)
 	coverer := &s2.RegionCoverer{MinLevel: idx.level, MaxLevel: idx.level}
 	cu := coverer.Covering(rect)
 	return idx.GeoTimeIdsAtCells(cu, from, to)
diff --git a/index/tools.go b/index/tools.go
index dc13538..4b9eced 100644
--- a/index/tools.go
+++ b/index/tools.go
@@ -4,6 +4,9 @@ import (
 	"encoding/binary"
 	"math"
 	"time"
+
+	"github.com/golang/geo/s1"
+	"github.com/golang/geo/s2"
 )
 
 const earthCircumferenceMeter = 40075017
@@ -31,6 +34,17 @@ func int64tob(v int64) []byte {
 	return b
 }
 
+// lngInterval returns the longitudes on the way eastward from west to east in degrees
+func lngInterval(west, east float64) s1.Interval {
+	if east-west >= 360 {
+		return s1.FullInterval()
+	}
+	return s1.IntervalFromEndpoints(
+		s2.LatLngFromDegrees(0, west).Normalized().Lng.Radians(),
+		s2.LatLngFromDegrees(0, east).Normalized().Lng.Radians(),
+	)
+}
+
 func s2RadialAreaMeters(radius float64) float64 {
 	r := (radius / earthCircumferenceMeter) * math.Pi * 2
 	if r >= math.Pi {
-- 
2.43.0


From 078d1b3d60197f7bd2fcbdb23b1e0e83f3549a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:26 +0000
Subject: [PATCH 31/46] fix: the time index must refuse an object without cover

---
 index/s2timeidx.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/index/s2timeidx.go b/index/s2timeidx.go
index a90b101..9ea8ad4 100644
--- a/index/s2timeidx.go
+++ b/index/s2timeidx.go
@@ -44,6 +44,11 @@ func (idx *S2FlatTimeIdx) GeoTimeIndex(gd *geodata.GeoData, t time.Time, id GeoI
 		return errors.Wrap(err, "generating cover failed")
 	}
 
+	// no cover for this geo object this is probably an error
+	if len(cu) == 0 {
+		return errors.New("geo object can't be indexed, empty cover")
+	}
+
 	kv, err := idx.KVStore.Writer()
 	if err != nil {
 		return err
-- 
2.43.0


From a11253c6ca47fe8371c40a9f2b0711bf093c3b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:27 +0000
Subject: [PATCH 32/46] fix: objects with an empty id can't be looked up and
 must be refused

---
 index/s2idx.go      | 4 ++++
 index/s2pointidx.go | 4 ++++
 index/s2timeidx.go  | 4 ++++
 index/tools.go      | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/index/s2idx.go b/index/s2idx.go
index d1048d3..098f359 100644
--- a/index/s2idx.go
+++ b/index/s2idx.go
@@ -34,6 +34,10 @@ func NewS2FlatIdx(s store.KVStore, prefix []byte, level int) *S2FlatIdx {
 // it's not storing GeoData itself but only the geo index of the cover
 // id is the key referring to the GeoData stored somewhere else
 func (idx *S2FlatIdx) GeoIndex(gd *geodata.GeoData, id GeoID) error {
+	if len(id) == 0 {
+		return errEmptyID
+	}
+
 	cu, err := idx.Covering(gd)
 	if err != nil {
 		return errors.Wrap(err, "generating cover failed")
diff --git a/index/s2pointidx.go b/index/s2pointidx.go
index ff2c2d7..769b19e 100644
--- a/index/s2pointidx.go
+++ b/index/s2pointidx.go
@@ -30,6 +30,10 @@ func NewS2PointIdx(s store.KVStore, prefix []byte) *S2PointIdx {
 // it's not storing GeoData itself but only the geo cell l30 of the point
 // id is the key referring to the GeoData stored somewhere else
 func (idx *S2PointIdx) PointIndex(lat, lng float64, id GeoID) ([]byte, error) {
+	if len(id) == 0 {
+		return nil, errEmptyID
+	}
+
 	kv, err := idx.KVStore.Writer()
 	if err != nil {
 		return nil, err
diff --git a/index/s2timeidx.go b/index/s2timeidx.go
index 9ea8ad4..f05fbc1 100644
--- a/index/s2timeidx.go
+++ b/index/s2timeidx.go
@@ -39,6 +39,10 @@ func NewS2FlatTimeIdx(s store.KVStore, prefix []byte, level int) *S2FlatTimeIdx
 // could be a user position or an effect zone
 // t is the time when the event end (can be in the future)
 func (idx *S2FlatTimeIdx) GeoTimeIndex(gd *geodata.GeoData, t time.Time, id GeoID) error {
+	if len(id) == 0 {
+		return errEmptyID
+	}
+
 	cu, err := idx.Covering(gd)
 	if err != nil {
 		return errors.Wrap(err, "generating cover failed")
diff --git a/index/tools.go b/index/tools.go
index 4b9eced..05ec021 100644
--- a/index/tools.go
+++ b/index/tools.go
@@ -7,6 +7,7 @@ import (
 
 	"github.com/golang/geo/s1"
 	"github.com/golang/geo/s2"
+	"github.com/pkg/errors"
 )
 
 const earthCircumferenceMeter = 40075017
@@ -22,6 +23,9 @@ var (
 // GeoID a key referring to a GeoData
 type GeoID []byte
 
+// errEmptyID an empty id can't be told from the end of a key
+var errEmptyID = errors.New("empty id")
+
 func itob(v uint64) []byte {
 	b := make([]byte, 8)
 	binary.BigEndian.PutUint64(b, v)
-- 
2.43.0


From 061d6a2b41f94051e2cc0c6ae0a2ac925deace1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:27 +0000
Subject: [PATCH 33/46] fix: a point without coordinates can't be indexed

---
 index/s2pointidx.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/index/s2pointidx.go b/index/s2pointidx.go
index 769b19e..8c4c537 100644
--- a/index/s2pointidx.go
+++ b/index/s2pointidx.go
@@ -66,9 +66,15 @@ func (idx *S2PointIdx) PointKey(lat, lng float64, id GeoID) []byte {
 
 // GeoPointKey is returning the key generated for a geopoint + id
 func (idx *S2PointIdx) GeoPointKey(gd *geodata.GeoData, id GeoID) ([]byte, error) {
+	if gd.Geometry == nil {
+		return nil, errors.New("invalid geometry")
+	}
 	if gd.Geometry.Type != geodata.Geometry_POINT {
 		return nil, errors.New("only points are supported")
 	}
+	if len(gd.Geometry.Coordinates) < 2 {
+		return nil, errors.New("invalid coordinates for point")
+	}
 
 	return idx.PointKey(gd.Geometry.Coordinates[1], gd.Geometry.Coordinates[0], id), nil
 }
@@ -77,9 +83,15 @@ func (idx *S2PointIdx) GeoPointKey(gd *geodata.GeoData, id GeoID) ([]byte, error
 // it's not storing GeoData itself but only the geo cell l30 of the point
 // id is the key referring to the GeoData stored somewhere else
 func (idx *S2PointIdx) GeoPointIndex(gd *geodata.GeoData, id GeoID) ([]byte, error) {
+	if gd.Geometry == nil {
+		return nil, errors.New("invalid geometry")
+	}
 	if gd.Geometry.Type != geodata.Geometry_POINT {
 		return nil, errors.New("only points are supported")
 	}
+	if len(gd.Geometry.Coordinates) < 2 {
+		return nil, errors.New("invalid coordinates for point")
+	}
 
 	return idx.PointIndex(gd.Geometry.Coordinates[1], gd.Geometry.Coordinates[0], id)
 }
-- 
2.43.0


From f952da64e0ece91a306d153a850f2b5f4796b732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:28 +0000
Subject: [PATCH 34/46] fix: a point that is not a number can't be indexed

---
 index/s2pointidx.go | 7 +++++--
 index/tools.go      | 4 ++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/index/s2pointidx.go b/index/s2pointidx.go
index 8c4c537..28e9adc 100644
--- a/index/s2pointidx.go
+++ b/index/s2pointidx.go
@@ -33,6 +33,9 @@ func (idx *S2PointIdx) PointIndex(lat, lng float64, id GeoID) ([]byte, error) {
 	if len(id) == 0 {
 		return nil, errEmptyID
 	}
+	if !isFinite(lat) || !isFinite(lng) {
+		return nil, errors.New("invalid coordinates for point")
+	}
 
 	kv, err := idx.KVStore.Writer()
 	if err != nil {
@@ -72,7 +75,7 @@ func (idx *S2PointIdx) GeoPointKey(gd *geodata.GeoData, id GeoID) ([]byte, error
 	if gd.Geometry.Type != geodata.Geometry_POINT {
 		return nil, errors.New("only points are supported")
 	}
-	if len(gd.Geometry.Coordinates) < 2 {
+	if c := gd.Geometry.Coordinates; len(c) < 2 || !isFinite(c[0]) || !isFinite(c[1]) {
 		return nil, errors.New("invalid coordinates for point")
 	}
 
@@ -89,7 +92,7 @@ func (idx *S2PointIdx) GeoPointIndex(gd *geodata.GeoData, id GeoID) ([]byte, err
 	if gd.Geometry.Type != geodata.Geometry_POINT {
 		return nil, errors.New("only points are supported")
 	}
-	if len(gd.Geometry.Coordinates) < 2 {
+	if c := gd.Geometry.Coordinates; len(c) < 2 || !isFinite(c[0]) || !isFinite(c[1]) {
 		return nil, errors.New("invalid coordinates for point")
 	}
 
diff --git a/index/tools.go b/index/tools.go
index 05ec021..45b8d3b 100644
--- a/index/tools.go
+++ b/index/tools.go
@@ -26,6 +26,10 @@ type GeoID []byte
 // errEmptyID an empty id can't be told from the end of a key
 var errEmptyID = errors.New("empty id")
 
+func isFinite(v float64) bool {
+	return !math.IsNaN(v) && !math.IsInf(v, 0)
+}
+
 func itob(v uint64) []byte {
 	b := make([]byte, 8)
 	binary.BigEndian.PutUint64(b, v)
-- 
2.43.0


From d4a7df4ccb8456a68c90a32fc7bf790b4a1e6e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:09 +0000
Subject: [PATCH 35/46] fix: the cells endpoint must refuse invalid tokens

---
 s2tools/handlers.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/s2tools/handlers.go b/s2tools/handlers.go
index fb033e8..b1d9b15 100644
--- a/s2tools/handlers.go
+++ b/s2tools/handlers.go
@@ -28,6 +28,10 @@ func S2CellQueryHandler(w http.ResponseWriter, r *http.Request) {
 
 	for i, cs := range cells {
 		c := s2.CellIDFromToken(cs)
+		if !c.IsValid() {
+			http.Error(w, "invalid parameters", 400)
+			return
+		}
 		cu[i] = c
 	}
 
-- 
2.43.0


From ba4e862f68a560d4a9377253182287685f606b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:10 +0000
Subject: [PATCH 36/46] fix: ParseCellID must not return invalid cells

---
 s2tools/parse.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/s2tools/parse.go b/s2tools/parse.go
index d3c14a5..8ab0997 100644
--- a/s2tools/parse.go
+++ b/s2tools/parse.go
@@ -17,7 +17,7 @@ func ParseCellID(cs string) *s2.CellID {
 		c := s2.CellIDFromFace(face)
 		for _, b := range cs[2:] {
 			child, err := strconv.Atoi(string(b))
-			if err != nil || child < 0 || child > 3 {
+			if err != nil || child < 0 || child > 3 || c.IsLeaf() {
 				return nil
 			}
 
@@ -27,7 +27,7 @@ func ParseCellID(cs string) *s2.CellID {
 	}
 
 	c := s2.CellIDFromToken(cs)
-	if c != s2.CellID(0) {
+	if c.IsValid() {
 		return &c
 	}
 
@@ -36,5 +36,8 @@ func ParseCellID(cs string) *s2.CellID {
 		return nil
 	}
 	c = s2.CellID(id)
+	if !c.IsValid() {
+		return nil
+	}
 	return &c
 }
-- 
2.43.0


From cf018385046d51171b4386f7dfe05a34ec38b6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:10 +0000
Subject: [PATCH 37/46] fix: the GeoJSON endpoint must answer malformed
 geometries and levels with an error

---
 s2tools/handlers.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/s2tools/handlers.go b/s2tools/handlers.go
index b1d9b15..c7adf12 100644
--- a/s2tools/handlers.go
+++ b/s2tools/handlers.go
@@ -3,6 +3,7 @@ package s2tools
 import (
 	"encoding/json"
 	"errors"
+	"fmt"
 	"net/http"
 	"strconv"
 	"strings"
@@ -40,6 +41,19 @@ func S2CellQueryHandler(w http.ResponseWriter, r *http.Request) {
 	w.Write(CellUnionToGeoJSON(cu))
 }
 
+// maxCellLevel is the level of s2 leaf cells
+const maxCellLevel = 30
+
+// decodeFeatures decodes a feature collection, some malformed geometries make the GeoJSON decoder panic
+func decodeFeatures(dec *json.Decoder, fc *geojson.FeatureCollection) (err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("invalid geometry: %v", r)
+		}
+	}()
+	return dec.Decode(fc)
+}
+
 // GeoJSONToCellHandler expect GeoJSON POST at a given URL:
 // /{min_level:[0-9]+}/{max_level:[0-9]+}/{max_cells:[0-9]+}/
 // GeoJSON as body, with only one feature inside the file
@@ -74,7 +88,12 @@ func GeoJSONToCellHandler(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	err = dec.Decode(&fc)
+	if vals[0] > maxCellLevel || vals[1] > maxCellLevel {
+		http.Error(w, "invalid level", 400)
+		return
+	}
+
+	err = decodeFeatures(dec, &fc)
 	if err != nil {
 		http.Error(w, err.Error()+" can't unmasrhal JSON", 400)
 		return
-- 
2.43.0


From c9c7e53d4a8517b610860a089b03590adf218fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:24 +0000
Subject: [PATCH 38/46] fix: a ring crossing itself must not cover the other
 side of the globe

---
 index/geodata/loop.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/index/geodata/loop.go b/index/geodata/loop.go
index 1b13df6..64d4a72 100644
--- a/index/geodata/loop.go
+++ b/index/geodata/loop.go
@@ -3,6 +3,7 @@ package geodata
 import (
 	"math"
 
+	"github.com/golang/geo/r3"
 	"github.com/golang/geo/s2"
 )
 
@@ -50,9 +51,28 @@ func LoopFromCoordinatesAndCCW(c []float64, checkCCW bool) *s2.Loop {
 		}
 		loop = s2.LoopFromPoints(points)
 	}
+	// a ring crossing itself has no orientation, what it encloses is on the side of its vertices
+	if checkCCW && reachesOppositeSide(loop) {
+		loop.Invert()
+	}
 	return loop
 }
 
+// reachesOppositeSide reports whether a loop with all its vertices on one side of
+// the globe contains the middle of the other one
+func reachesOppositeSide(loop *s2.Loop) bool {
+	var sum r3.Vector
+	for _, p := range loop.Vertices() {
+		sum = sum.Add(p.Vector)
+	}
+	for _, p := range loop.Vertices() {
+		if p.Dot(sum) <= 0 {
+			return false
+		}
+	}
+	return loop.ContainsPoint(s2.Point{Vector: sum.Mul(-1).Normalize()})
+}
+
 // finite reports whether c holds only numbers that can be coordinates
 func finite(c []float64) bool {
 	for _, v := range c {
-- 
2.43.0


From 4c5dfd86282dcec1a7753dfb9efda34b8b75c138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:47 +0000
Subject: [PATCH 39/46] fix: a ring going back and forth between two vertices
 must be refused

---
 index/geodata/loop.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/index/geodata/loop.go b/index/geodata/loop.go
index 64d4a72..2971ea3 100644
--- a/index/geodata/loop.go
+++ b/index/geodata/loop.go
@@ -36,7 +36,7 @@ func LoopFromCoordinatesAndCCW(c []float64, checkCCW bool) *s2.Loop {
 		points = append(points[:len(points)-1], points[len(points)-1+1:]...)
 	}
 
-	if len(points) < 3 {
+	if !threeDistinct(points) {
 		return nil
 	}
 
@@ -73,6 +73,17 @@ func reachesOppositeSide(loop *s2.Loop) bool {
 	return loop.ContainsPoint(s2.Point{Vector: sum.Mul(-1).Normalize()})
 }
 
+// threeDistinct reports whether points without consecutive repetition
+// hold at least three different ones
+func threeDistinct(points []s2.Point) bool {
+	for i := 2; i < len(points); i++ {
+		if points[i] != points[0] && points[i] != points[1] {
+			return true
+		}
+	}
+	return false
+}
+
 // finite reports whether c holds only numbers that can be coordinates
 func finite(c []float64) bool {
 	for _, v := range c {
-- 
2.43.0


From e20a2ef89d943b8ca454d4367b85202bfcb4a672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:48 +0000
Subject: [PATCH 40/46] fix: the interior cover of a line must not exhaust
 memory

---
 index/geodata/tools.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/index/geodata/tools.go b/index/geodata/tools.go
index c289be2..1760be5 100644
--- a/index/geodata/tools.go
+++ b/index/geodata/tools.go
@@ -219,13 +219,11 @@ func geoDataCoverCellUnion(gd *GeoData, coverer *s2.RegionCoverer, interior bool
 			pl[i/2] = s2.PointFromLatLng(ll)
 		}
 
-		var cupl s2.CellUnion
+		// a line has no interior, searching cells inside it would go down to the last level
 		if interior {
-			cupl = coverer.InteriorCovering(&pl)
-		} else {
-			cupl = coverer.Covering(&pl)
+			return s2.CellUnion{}, nil
 		}
-		cu = append(cu, cupl...)
+		cu = append(cu, coverer.Covering(&pl)...)
 
 	default:
 		return nil, errors.New("unsupported data type")
-- 
2.43.0


From 14350849db8fdb4f957801de733d3cce4bcbe367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:17 +0000
Subject: [PATCH 41/46] fix: a large batch must be visible at once while the
 store is compacted

---
 store/goleveldb/store.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/store/goleveldb/store.go b/store/goleveldb/store.go
index 9ad2dfe..a3fc89b 100644
--- a/store/goleveldb/store.go
+++ b/store/goleveldb/store.go
@@ -55,6 +55,11 @@ func New(mo store.MergeOperator, config map[string]interface{}) (store.KVStore,
 		return nil, err
 	}
 
+	// goleveldb writes a batch larger than the write buffer straight to a
+	// table, without waiting for a memory table being written at that time,
+	// and reads then find the older values of that memory table
+	opts.DisableLargeBatchTransaction = true
+
 	db, err := leveldb.OpenFile(path, opts)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 3148b8526df54ac260d11b3f48a5a6261dd26fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:03 +0000
Subject: [PATCH 42/46] fix: compaction of a LevelDB store must not be undone
 by reopening it

---
 store/goleveldb/store.go  | 66 ++++++++++++++++++++-------------------
 store/goleveldb/writer.go |  3 ++
 2 files changed, 37 insertions(+), 32 deletions(-)

diff --git a/store/goleveldb/store.go b/store/goleveldb/store.go
index a3fc89b..e2808de 100644
--- a/store/goleveldb/store.go
+++ b/store/goleveldb/store.go
@@ -18,6 +18,7 @@ import (
 	"bytes"
 	"fmt"
 	"os"
+	"sync"
 
 	"github.com/akhenakh/oureadb/store"
 	"github.com/syndtr/goleveldb/leveldb"
@@ -36,6 +37,9 @@ type Store struct {
 	db   *leveldb.DB
 	mo   store.MergeOperator
 
+	// writes is read-locked while a batch is executed
+	writes sync.RWMutex
+
 	defaultWriteOptions *opt.WriteOptions
 	defaultReadOptions  *opt.ReadOptions
 }
@@ -102,49 +106,47 @@ func (ldbs *Store) Writer() (store.KVWriter, error) {
 // compacts the underlying goleveldb store.  Removing entries is a workaround for github issue #374.
 func (ldbs *Store) CompactWithBatchSize(batchSize int) error {
 	// workaround for github issue #374 - remove DictionaryTerm keys with count=0
-	batch := &leveldb.Batch{}
 	for {
-		t, err := ldbs.db.OpenTransaction()
+		n, err := ldbs.removeZeroCounts(batchSize)
 		if err != nil {
 			return err
 		}
-		iter := t.NewIterator(util.BytesPrefix([]byte("d")), ldbs.defaultReadOptions)
-
-		for iter.Next() {
-			if bytes.Equal(iter.Value(), []byte{0}) {
-				k := append([]byte{}, iter.Key()...)
-				batch.Delete(k)
-			}
-			if batch.Len() == batchSize {
-				break
-			}
-		}
-		iter.Release()
-		if iter.Error() != nil {
-			t.Discard()
-			return iter.Error()
-		}
-
-		if batch.Len() > 0 {
-			err := t.Write(batch, ldbs.defaultWriteOptions)
-			if err != nil {
-				t.Discard()
-				return err
-			}
-			err = t.Commit()
-			if err != nil {
-				return err
-			}
-		} else {
-			t.Discard()
+		if n == 0 {
 			break
 		}
-		batch.Reset()
 	}
 
 	return ldbs.db.CompactRange(util.Range{Start: nil, Limit: nil})
 }
 
+// removeZeroCounts removes up to batchSize DictionaryTerm entries with a count of zero, and returns how
+// many it removed.  It is not a goleveldb transaction: a transaction does not wait for a memory table
+// being written when it is opened, and what it changed is then lost when the store is reopened.
+func (ldbs *Store) removeZeroCounts(batchSize int) (int, error) {
+	// no batch may be executed between reading an entry and removing it
+	ldbs.writes.Lock()
+	defer ldbs.writes.Unlock()
+
+	batch := &leveldb.Batch{}
+	iter := ldbs.db.NewIterator(util.BytesPrefix([]byte("d")), ldbs.defaultReadOptions)
+	for iter.Next() {
+		if bytes.Equal(iter.Value(), []byte{0}) {
+			batch.Delete(iter.Key())
+		}
+		if batch.Len() == batchSize {
+			break
+		}
+	}
+	iter.Release()
+	if err := iter.Error(); err != nil {
+		return 0, err
+	}
+	if batch.Len() == 0 {
+		return 0, nil
+	}
+	return batch.Len(), ldbs.db.Write(batch, ldbs.defaultWriteOptions)
+}
+
 // Compact compacts the underlying goleveldb store.  The current implementation includes a workaround
 // for github issue #374 (see CompactWithBatchSize).
 func (ldbs *Store) Compact() error {
diff --git a/store/goleveldb/writer.go b/store/goleveldb/writer.go
index d4decf2..87f7a9d 100644
--- a/store/goleveldb/writer.go
+++ b/store/goleveldb/writer.go
@@ -44,6 +44,9 @@ func (w *Writer) ExecuteBatch(b store.KVBatch) error {
 		return fmt.Errorf("wrong type of batch")
 	}
 
+	w.store.writes.RLock()
+	defer w.store.writes.RUnlock()
+
 	// first process merges
 	merged := new(leveldb.Batch)
 	for k, mergeOps := range batch.merge.Merges {
-- 
2.43.0


From 81888e2773a7d1dade805e2dbef57cdb0f1265d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:35 +0000
Subject: [PATCH 43/46] fix: bounds in the wrong order must give an empty
 iterator, not a panic

---
 store/goleveldb/reader.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/store/goleveldb/reader.go b/store/goleveldb/reader.go
index 4265bb2..54a7aa5 100644
--- a/store/goleveldb/reader.go
+++ b/store/goleveldb/reader.go
@@ -15,6 +15,8 @@
 package goleveldb
 
 import (
+	"bytes"
+
 	"github.com/akhenakh/oureadb/store"
 	"github.com/syndtr/goleveldb/leveldb"
 	"github.com/syndtr/goleveldb/leveldb/util"
@@ -49,6 +51,10 @@ func (r *Reader) PrefixIterator(prefix []byte) store.KVIterator {
 }
 
 func (r *Reader) RangeIterator(start, end []byte) store.KVIterator {
+	if end != nil && bytes.Compare(start, end) > 0 {
+		// goleveldb panics on bounds given in the wrong order
+		end = start
+	}
 	byteRange := &util.Range{
 		Start: start,
 		Limit: end,
-- 
2.43.0


From d85d77859c66a27c4282c2b070d89823d4d1c533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:42 +0000
Subject: [PATCH 44/46] fix: a rectangle query must not miss the cells it
 enters in the middle of an edge

---
 index/s2pointidx.go |  2 +-
 index/s2timeidx.go  |  2 +-
 index/tools.go      | 45 +++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 47 insertions(+), 2 deletions(-)

diff --git a/index/s2pointidx.go b/index/s2pointidx.go
index 28e9adc..ffd5a72 100644
--- a/index/s2pointidx.go
+++ b/index/s2pointidx.go
@@ -223,7 +223,7 @@ func (idx *S2PointIdx) GeoIdsRectQuery(urlat, urlng, bllat, bllng float64) ([]Ge
 	// always go eastward from bottom left to upper right
 	rect.Lng = lngInterval(bllng, urlng)
 	coverer := &s2.RegionCoverer{MaxLevel: 14, MaxCells: 8}
-	cu := coverer.Covering(rect)
+	cu := coverer.Covering(rectRegion{rect})
 
 	var res []GeoID
 
diff --git a/index/s2timeidx.go b/index/s2timeidx.go
index f05fbc1..9119f9b 100644
--- a/index/s2timeidx.go
+++ b/index/s2timeidx.go
@@ -97,7 +97,7 @@ func (idx *S2FlatTimeIdx) GeoTimeIdsRectQuery(from time.Time, to time.Time, urla
 	// always go eastward from bottom left to upper right
 	rect.Lng = lngInterval(bllng, urlng)
 	coverer := &s2.RegionCoverer{MinLevel: idx.level, MaxLevel: idx.level}
-	cu := coverer.Covering(rect)
+	cu := coverer.Covering(rectRegion{rect})
 	return idx.GeoTimeIdsAtCells(cu, from, to)
 }
 
diff --git a/index/tools.go b/index/tools.go
index 45b8d3b..c939c68 100644
--- a/index/tools.go
+++ b/index/tools.go
@@ -5,6 +5,7 @@ import (
 	"math"
 	"time"
 
+	"github.com/golang/geo/r1"
 	"github.com/golang/geo/s1"
 	"github.com/golang/geo/s2"
 	"github.com/pkg/errors"
@@ -53,6 +54,50 @@ func lngInterval(west, east float64) s1.Interval {
 	)
 }
 
+// rectRegion is a rect to cover, s2.Rect by itself misses the cells it enters only
+// in the middle of an edge running westward
+type rectRegion struct {
+	s2.Rect
+}
+
+// IntersectsCell reports whether the rect and the cell have a point in common
+func (r rectRegion) IntersectsCell(c s2.Cell) bool {
+	if r.Rect.IntersectsCell(c) {
+		return true
+	}
+	if r.IsEmpty() {
+		return false
+	}
+	for i := 0; i < 4; i++ {
+		a, b := c.Vertex(i), c.Vertex((i+1)&3)
+		span := s1.IntervalFromPointPair(s2.LatLngFromPoint(a).Lng.Radians(), s2.LatLngFromPoint(b).Lng.Radians())
+		if !span.ContainsInterval(r.Lng) {
+			continue
+		}
+
+		// the latitudes of the edge between both sides of the rect
+		n := a.Cross(b.Vector)
+		if n.Z == 0 {
+			// a meridian up to the pole
+			continue
+		}
+		latAt := func(lng float64) float64 {
+			return math.Atan(-(n.X*math.Cos(lng) + n.Y*math.Sin(lng)) / n.Z)
+		}
+		lat := r1.IntervalFromPoint(latAt(r.Lng.Lo)).AddPoint(latAt(r.Lng.Hi))
+		top := math.Atan2(n.Y, n.X)
+		for _, lng := range []float64{top, math.Remainder(top+math.Pi, 2*math.Pi)} {
+			if r.Lng.Contains(lng) {
+				lat = lat.AddPoint(latAt(lng))
+			}
+		}
+		if lat.Intersects(r.Lat) {
+			return true
+		}
+	}
+	return false
+}
+
 func s2RadialAreaMeters(radius float64) float64 {
 	r := (radius / earthCircumferenceMeter) * math.Pi * 2
 	if r >= math.Pi {
-- 
2.43.0


From 0beab0418bbc352af3383a45cea761db05fd3ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:29 +0000
Subject: [PATCH 45/46] fix: a point rectangle query must accept longitudes
 written beyond 180 degrees

---
 index/s2pointidx.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/index/s2pointidx.go b/index/s2pointidx.go
index ffd5a72..638d6bd 100644
--- a/index/s2pointidx.go
+++ b/index/s2pointidx.go
@@ -218,8 +218,8 @@ func (idx *S2PointIdx) GeoIdsRadiusQuery(lat, lng, radius float64) ([]GeoID, err
 
 // GeoIdsRectQuery query over rect ur upper right bl bottom left
 func (idx *S2PointIdx) GeoIdsRectQuery(urlat, urlng, bllat, bllng float64) ([]GeoID, error) {
-	rect := s2.RectFromLatLng(s2.LatLngFromDegrees(bllat, bllng))
-	rect = rect.AddPoint(s2.LatLngFromDegrees(urlat, urlng))
+	rect := s2.RectFromLatLng(s2.LatLngFromDegrees(bllat, bllng).Normalized())
+	rect = rect.AddPoint(s2.LatLngFromDegrees(urlat, urlng).Normalized())
 	// always go eastward from bottom left to upper right
 	rect.Lng = lngInterval(bllng, urlng)
 	coverer := &s2.RegionCoverer{MaxLevel: 14, MaxCells: 8}
-- 
2.43.0


From 5430c8e9301eab035a50b96aa7716a0a170eb123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:29 +0000
Subject: [PATCH 46/46] fix: a time index rectangle query must accept
 longitudes written beyond 180 degrees

---
 index/s2timeidx.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/index/s2timeidx.go b/index/s2timeidx.go
index 9119f9b..6f37bb0 100644
--- a/index/s2timeidx.go
+++ b/index/s2timeidx.go
@@ -92,8 +92,8 @@ func (idx *S2FlatTimeIdx) GeoTimeIdsRadiusQuery(from time.Time, to time.Time, la
 // GeoTimeIdsRectQuery query over rect ur upper right bl bottom left
 // scan from future to past
 func (idx *S2FlatTimeIdx) GeoTimeIdsRectQuery(from time.Time, to time.Time, urlat, urlng, bllat, bllng float64) ([]GeoID, error) {
-	rect := s2.RectFromLatLng(s2.LatLngFromDegrees(bllat, bllng))
-	rect = rect.AddPoint(s2.LatLngFromDegrees(urlat, urlng))
+	rect := s2.RectFromLatLng(s2.LatLngFromDegrees(bllat, bllng).Normalized())
+	rect = rect.AddPoint(s2.LatLngFromDegrees(urlat, urlng).Normalized())
 	// always go eastward from bottom left to upper right
 	rect.Lng = lngInterval(bllng, urlng)
 	coverer := &s2.RegionCoverer{MinLevel: idx.level, MaxLevel: idx.level}
-- 
2.43.0

