From 5b9eeafe5bff123a7de9bbe4ba1c5e3ec15dbdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:18 +0000
Subject: [PATCH 01/69] fix: theta decoder bounds checks on truncated or
 malformed images

---
 theta/decoder.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/theta/decoder.go b/theta/decoder.go
index b24deca..47e5599 100644
--- a/theta/decoder.go
+++ b/theta/decoder.go
@@ -168,6 +168,9 @@ func decodeVersion4(bytes []byte, seed uint64) (compactSketchData, error) {
 	}
 
 	numEntriesBytes := bytes[compactSketchV4NumEntriesBytesByte]
+	if numEntriesBytes > 4 {
+		return compactSketchData{}, fmt.Errorf("invalid number of bytes for the number of entries: %d", numEntriesBytes)
+	}
 	dataOffsetBytes := compactSketchV4PackedDataExactByte
 	if hasTheta {
 		dataOffsetBytes = compactSketchV4PackedDataEstByte
@@ -185,6 +188,9 @@ func decodeVersion4(bytes []byte, seed uint64) (compactSketchData, error) {
 	dataOffsetBytes += int(numEntriesBytes)
 
 	entryBits := bytes[compactSketchV4EntryBitsByte]
+	if entryBits < 1 || entryBits > 63 {
+		return compactSketchData{}, fmt.Errorf("invalid number of bits per entry: %d", entryBits)
+	}
 	expectedBits := uint64(entryBits) * uint64(numEntries)
 	expectedSize := dataOffsetBytes + int(wholeBytesToHoldBits(expectedBits))
 
@@ -254,6 +260,9 @@ func decodeVersion3(bytes []byte, seed uint64) (compactSketchData, error) {
 		}, nil
 	}
 
+	if err := validateMemorySize(bytes, compactSketchEntriesExactU64*8); err != nil {
+		return compactSketchData{}, err
+	}
 	numEntries := binary.LittleEndian.Uint32(bytes[compactSketchNumEntriesU32*4:])
 	entriesStartU64 := compactSketchEntriesExactU64
 	if hasTheta {
@@ -303,6 +312,9 @@ func decodeVersion2(bytes []byte, seed uint64) (compactSketchData, error) {
 			bytes:      bytes,
 		}, nil
 	case 2:
+		if err := validateMemorySize(bytes, compactSketchEntriesExactU64*8); err != nil {
+			return compactSketchData{}, err
+		}
 		numEntries := binary.LittleEndian.Uint32(bytes[compactSketchNumEntriesU32*4:])
 		if numEntries == 0 {
 			return compactSketchData{
@@ -332,6 +344,9 @@ func decodeVersion2(bytes []byte, seed uint64) (compactSketchData, error) {
 			bytes:           bytes,
 		}, nil
 	case 3:
+		if err := validateMemorySize(bytes, compactSketchEntriesEstimationU64*8); err != nil {
+			return compactSketchData{}, err
+		}
 		numEntries := binary.LittleEndian.Uint32(bytes[compactSketchNumEntriesU32*4:])
 		theta := binary.LittleEndian.Uint64(bytes[compactSketchThetaU64*8:])
 
@@ -374,6 +389,9 @@ func decodeVersion1(bytes []byte, seed uint64) (compactSketchData, error) {
 		return compactSketchData{}, err
 	}
 
+	if err := validateMemorySize(bytes, compactSketchEntriesEstimationU64*8); err != nil {
+		return compactSketchData{}, err
+	}
 	numEntries := binary.LittleEndian.Uint32(bytes[compactSketchNumEntriesU32*4:])
 	theta := binary.LittleEndian.Uint64(bytes[compactSketchThetaU64*8:])
 
-- 
2.43.0


From 00ac07421cb95345f2ae559070e3f67d60e3c536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:26 +0000
Subject: [PATCH 02/69] fix: tuple set operations copy summaries instead of
 sharing them with inputs and results

---
 tuple/arrayofnumbers_intersection.go | 2 +-
 tuple/arrayofnumbers_union.go        | 5 ++++-
 tuple/compact_sketch.go              | 2 +-
 tuple/intersection.go                | 2 +-
 tuple/union.go                       | 5 ++++-
 5 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/tuple/arrayofnumbers_intersection.go b/tuple/arrayofnumbers_intersection.go
index 45f1668..f84df63 100644
--- a/tuple/arrayofnumbers_intersection.go
+++ b/tuple/arrayofnumbers_intersection.go
@@ -120,7 +120,7 @@ func (i *ArrayOfNumbersSketchIntersection[V]) Update(sketch ArrayOfNumbersSketch
 
 			i.hashtable.Insert(idx, entry[*ArrayOfNumbersSummary[V]]{
 				Hash:    hash,
-				Summary: summary,
+				Summary: summary.Clone().(*ArrayOfNumbersSummary[V]),
 			})
 		}
 
diff --git a/tuple/arrayofnumbers_union.go b/tuple/arrayofnumbers_union.go
index 8d5cc36..16348a3 100644
--- a/tuple/arrayofnumbers_union.go
+++ b/tuple/arrayofnumbers_union.go
@@ -115,7 +115,7 @@ func (u *ArrayOfNumbersSketchUnion[V]) Update(sketch ArrayOfNumbersSketch[V]) er
 				if err == ErrKeyNotFound {
 					u.hashtable.Insert(index, entry[*ArrayOfNumbersSummary[V]]{
 						Hash:    hash,
-						Summary: summary,
+						Summary: summary.Clone().(*ArrayOfNumbersSummary[V]),
 					})
 					continue
 				}
@@ -171,6 +171,9 @@ func (u *ArrayOfNumbersSketchUnion[V]) Result(ordered bool) (*ArrayOfNumbersComp
 		thetaVal = entries[nominalNum].Hash
 		entries = entries[:nominalNum]
 	}
+	for i := range entries {
+		entries[i].Summary = entries[i].Summary.Clone().(*ArrayOfNumbersSummary[V])
+	}
 
 	if ordered {
 		slices.SortFunc(entries, u.entryLessFunc)
diff --git a/tuple/compact_sketch.go b/tuple/compact_sketch.go
index b7af325..f3658fd 100644
--- a/tuple/compact_sketch.go
+++ b/tuple/compact_sketch.go
@@ -105,7 +105,7 @@ func NewCompactSketchFromThetaSketch[S Summary](
 	for hash := range sketch.All() {
 		entries = append(entries, entry[S]{
 			Hash:    hash,
-			Summary: summary,
+			Summary: summary.Clone().(S),
 		})
 	}
 
diff --git a/tuple/intersection.go b/tuple/intersection.go
index d11360b..41d567d 100644
--- a/tuple/intersection.go
+++ b/tuple/intersection.go
@@ -157,7 +157,7 @@ func (i *Intersection[S]) Update(sketch Sketch[S]) error {
 
 			i.hashtable.Insert(idx, entry[S]{
 				Hash:    hash,
-				Summary: summary,
+				Summary: summary.Clone().(S),
 			})
 		}
 
diff --git a/tuple/union.go b/tuple/union.go
index b2468d4..bbd7042 100644
--- a/tuple/union.go
+++ b/tuple/union.go
@@ -203,7 +203,7 @@ func (u *Union[S]) Update(sketch Sketch[S]) error {
 				if err == ErrKeyNotFound {
 					u.hashtable.Insert(index, entry[S]{
 						Hash:    hash,
-						Summary: summary,
+						Summary: summary.Clone().(S),
 					})
 					continue
 				}
@@ -263,6 +263,9 @@ func (u *Union[S]) Result(ordered bool) (*CompactSketch[S], error) {
 		thetaVal = entries[nominalNum].Hash
 		entries = entries[:nominalNum]
 	}
+	for i := range entries {
+		entries[i].Summary = entries[i].Summary.Clone().(S)
+	}
 
 	if ordered {
 		slices.SortFunc(entries, u.entryLessFunc)
-- 
2.43.0


From 9e3a6feb3c025cbbe7aae6ebd7a351362ee2072f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:58 +0000
Subject: [PATCH 03/69] fix: array-of-numbers tuple sketch refuses updates with
 the wrong number of values

---
 tuple/arrayofnumbers_update_sketch.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/tuple/arrayofnumbers_update_sketch.go b/tuple/arrayofnumbers_update_sketch.go
index edb7df0..fc78657 100644
--- a/tuple/arrayofnumbers_update_sketch.go
+++ b/tuple/arrayofnumbers_update_sketch.go
@@ -246,6 +246,14 @@ func (s *ArrayOfNumbersUpdateSketch[V]) ResizeFactor() theta.ResizeFactor {
 	return s.table.rf
 }
 
+// checkValues refuses values that do not match the number of values in a summary.
+func (s *ArrayOfNumbersUpdateSketch[V]) checkValues(values []V) error {
+	if len(values) != int(s.numberOfValuesInSummary) {
+		return fmt.Errorf("number of values mismatch: expected %d, actual %d", s.numberOfValuesInSummary, len(values))
+	}
+	return nil
+}
+
 // UpdateUint64 updates this sketch with a given unsigned 64-bit integer
 func (s *ArrayOfNumbersUpdateSketch[V]) UpdateUint64(key uint64, values []V) error {
 	return s.UpdateInt64(int64(key), values)
@@ -253,6 +261,10 @@ func (s *ArrayOfNumbersUpdateSketch[V]) UpdateUint64(key uint64, values []V) err
 
 // UpdateInt64 updates this sketch with a given signed 64-bit integer
 func (s *ArrayOfNumbersUpdateSketch[V]) UpdateInt64(key int64, values []V) error {
+	if err := s.checkValues(values); err != nil {
+		return err
+	}
+
 	hash, err := s.table.HashInt64AndScreen(key)
 	if err != nil {
 		return err
@@ -281,6 +293,10 @@ func (s *ArrayOfNumbersUpdateSketch[V]) UpdateUint32(key uint32, values []V) err
 
 // UpdateInt32 updates this sketch with a given signed 32-bit integer
 func (s *ArrayOfNumbersUpdateSketch[V]) UpdateInt32(key int32, values []V) error {
+	if err := s.checkValues(values); err != nil {
+		return err
+	}
+
 	hash, err := s.table.HashInt32AndScreen(key)
 	if err != nil {
 		return err
@@ -337,6 +353,9 @@ func (s *ArrayOfNumbersUpdateSketch[V]) UpdateString(key string, values []V) err
 	if key == "" {
 		return ErrUpdateEmptyString
 	}
+	if err := s.checkValues(values); err != nil {
+		return err
+	}
 
 	hash, err := s.table.HashStringAndScreen(key)
 	if err != nil {
@@ -361,6 +380,10 @@ func (s *ArrayOfNumbersUpdateSketch[V]) UpdateString(key string, values []V) err
 
 // UpdateBytes updates this sketch with given data
 func (s *ArrayOfNumbersUpdateSketch[V]) UpdateBytes(data []byte, values []V) error {
+	if err := s.checkValues(values); err != nil {
+		return err
+	}
+
 	hash, err := s.table.HashBytesAndScreen(data)
 	if err != nil {
 		return err
-- 
2.43.0


From 613e9fb53ea247a0b29f7d18a1c7991c55a35ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:22 +0000
Subject: [PATCH 04/69] fix: tuple decoders no longer allocate for unconfirmed
 entry counts and string lengths

---
 tuple/arrayofnumbers_sketch_decoder.go | 4 ++--
 tuple/arrayofstrings_sketch.go         | 8 +++++---
 tuple/decoder.go                       | 8 ++++++--
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/tuple/arrayofnumbers_sketch_decoder.go b/tuple/arrayofnumbers_sketch_decoder.go
index 56fb292..e7e7702 100644
--- a/tuple/arrayofnumbers_sketch_decoder.go
+++ b/tuple/arrayofnumbers_sketch_decoder.go
@@ -129,7 +129,7 @@ func (dec *ArrayOfNumbersSketchDecoder[V]) Decode(r io.Reader) (*ArrayOfNumbersC
 			return nil, err
 		}
 
-		hashes := make([]uint64, 0, numEntries)
+		hashes := make([]uint64, 0, min(numEntries, maxInitialCapacity))
 		for i := uint32(0); i < numEntries; i++ {
 			var hash uint64
 			if err := binary.Read(r, binary.LittleEndian, &hash); err != nil {
@@ -139,7 +139,7 @@ func (dec *ArrayOfNumbersSketchDecoder[V]) Decode(r io.Reader) (*ArrayOfNumbersC
 			hashes = append(hashes, hash)
 		}
 
-		entries = make([]entry[*ArrayOfNumbersSummary[V]], 0, numEntries)
+		entries = make([]entry[*ArrayOfNumbersSummary[V]], 0, len(hashes))
 		for i := uint32(0); i < numEntries; i++ {
 			summary, err := dec.read(r, numberOfValuesInSummary)
 			if err != nil {
diff --git a/tuple/arrayofstrings_sketch.go b/tuple/arrayofstrings_sketch.go
index f9134d4..d90d2e9 100644
--- a/tuple/arrayofstrings_sketch.go
+++ b/tuple/arrayofstrings_sketch.go
@@ -18,6 +18,7 @@
 package tuple
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"io"
@@ -159,12 +160,13 @@ func readStrings(r io.Reader) ([]string, error) {
 			return nil, err
 		}
 
-		bytes := make([]byte, length)
-		if _, err := io.ReadFull(r, bytes); err != nil {
+		// the length is not trusted for allocation before the bytes arrive
+		var value bytes.Buffer
+		if _, err := io.CopyN(&value, r, int64(length)); err != nil {
 			return nil, err
 		}
 
-		values = append(values, string(bytes))
+		values = append(values, value.String())
 	}
 
 	return values, nil
diff --git a/tuple/decoder.go b/tuple/decoder.go
index 3ed4c9a..dc09d74 100644
--- a/tuple/decoder.go
+++ b/tuple/decoder.go
@@ -27,6 +27,10 @@ import (
 	"github.com/apache/datasketches-go/theta"
 )
 
+// maxInitialCapacity limits what a decoder allocates up front for an entry
+// count that the remaining input has not yet confirmed.
+const maxInitialCapacity = 1 << 16
+
 // SummaryReader reads and returns a summary from the reader.
 // Implementations should read the format written by a corresponding SummaryWriter.
 //
@@ -132,7 +136,7 @@ func (dec *Decoder[S]) Decode(r io.Reader) (*CompactSketch[S], error) {
 		}
 	}
 
-	entries := make([]entry[S], numEntries)
+	entries := make([]entry[S], 0, min(numEntries, maxInitialCapacity))
 	for i := uint32(0); i < numEntries; i++ {
 		var hash uint64
 		if err := binary.Read(r, binary.LittleEndian, &hash); err != nil {
@@ -144,7 +148,7 @@ func (dec *Decoder[S]) Decode(r io.Reader) (*CompactSketch[S], error) {
 			return nil, err
 		}
 
-		entries[i] = entry[S]{Hash: hash, Summary: summary}
+		entries = append(entries, entry[S]{Hash: hash, Summary: summary})
 	}
 
 	isOrdered := (flags & (1 << flagIsOrdered)) != 0
-- 
2.43.0


From 7d381e5ed6ff10f57571c5310cf1dc4f9596d04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:19 +0000
Subject: [PATCH 05/69] fix: HLL decoder checks image sizes and no longer
 retains the caller's slice

---
 hll/hll_array.go  |  2 +-
 hll/hll_sketch.go |  3 ++
 hll/union.go      |  8 ++---
 hll/utils.go      | 74 +++++++++++++++++++++++++++++++++++++++++++++++
 4 files changed, 82 insertions(+), 5 deletions(-)

diff --git a/hll/hll_array.go b/hll/hll_array.go
index 521eb16..f01b7a2 100644
--- a/hll/hll_array.go
+++ b/hll/hll_array.go
@@ -317,5 +317,5 @@ func (a *hllArrayImpl) extractCommonHll(byteArr []byte) {
 	a.putNumAtCurMin(extractNumAtCurMin(byteArr))
 	a.putRebuildCurMinNumKxQFlag(extractRebuildCurMinNumKxQFlag(byteArr))
 
-	a.hllByteArr = byteArr[hllByteArrStart : hllByteArrStart+len(a.hllByteArr)]
+	copy(a.hllByteArr, byteArr[hllByteArrStart:])
 }
diff --git a/hll/hll_sketch.go b/hll/hll_sketch.go
index 278272a..7552230 100644
--- a/hll/hll_sketch.go
+++ b/hll/hll_sketch.go
@@ -186,6 +186,9 @@ func NewHllSketchFromSlice(bytes []byte, checkRebuild bool) (HllSketch, error) {
 	if err != nil {
 		return nil, err
 	}
+	if err := checkImage(bytes, curMode); err != nil {
+		return nil, err
+	}
 	if curMode == curModeHll {
 		tgtHllType := extractTgtHllType(bytes)
 		if tgtHllType == TgtHllTypeHll4 {
diff --git a/hll/union.go b/hll/union.go
index 24491c2..0fe8b7d 100644
--- a/hll/union.go
+++ b/hll/union.go
@@ -108,14 +108,14 @@ func NewUnion(lgMaxK int) (Union, error) {
 }
 
 func NewUnionFromSlice(byteArray []byte) (Union, error) {
-	lgK, err := checkLgK(extractLgK(byteArray))
-	if err != nil {
-		return nil, err
-	}
 	sk, e := NewHllSketchFromSlice(byteArray, false)
 	if e != nil {
 		return nil, e
 	}
+	lgK, err := checkLgK(extractLgK(byteArray))
+	if err != nil {
+		return nil, err
+	}
 	union, err := NewUnion(lgK)
 	if err != nil {
 		return nil, err
diff --git a/hll/utils.go b/hll/utils.go
index 92d910f..c3208be 100644
--- a/hll/utils.go
+++ b/hll/utils.go
@@ -180,6 +180,80 @@ func checkPreamble(preamble []byte) (curMode, error) {
 	return curMode, nil
 }
 
+// checkImage checks that the sizes announced in an image are possible and that
+// the image is long enough to hold them.
+func checkImage(byteArr []byte, curMode curMode) error {
+	lgK, err := checkLgK(extractLgK(byteArr))
+	if err != nil {
+		return err
+	}
+	tgtHllType := extractTgtHllType(byteArr)
+	compact := extractCompactFlag(byteArr)
+	required := 0
+
+	switch curMode {
+	case curModeList:
+		couponCount := extractListCount(byteArr)
+		if couponCount >= 1<<lgInitListSize {
+			return fmt.Errorf("possible Corruption: Invalid List Count: %d", couponCount)
+		}
+		if !compact {
+			couponCount = 1 << lgInitListSize
+		}
+		required = listIntArrStart + 4*couponCount
+	case curModeSet:
+		couponCount := extractHashSetCount(byteArr)
+		if lgK <= 7 || couponCount*resizeDenom > resizeNumber<<(lgK-3) {
+			return fmt.Errorf("possible Corruption: Invalid Set Count: %d", couponCount)
+		}
+		if !compact {
+			lgArr := extractLgArr(byteArr)
+			if lgArr < lgInitSetSize {
+				if lgArr, err = computeLgArr(byteArr, couponCount, lgK); err != nil {
+					return err
+				}
+			}
+			if lgArr > lgK-3 {
+				return fmt.Errorf("possible Corruption: Invalid Array Size: %d", lgArr)
+			}
+			couponCount = 1 << lgArr
+		}
+		required = hashSetIntArrStart + 4*couponCount
+	case curModeHll:
+		switch tgtHllType {
+		case TgtHllTypeHll4:
+			auxCount := extractAuxCount(byteArr)
+			if auxCount > 1<<lgK {
+				return fmt.Errorf("possible Corruption: Invalid Aux Count: %d", auxCount)
+			}
+			if !compact {
+				lgArr := lgAuxArrInts[lgK]
+				if auxCount > 0 {
+					lgArr = extractLgArr(byteArr)
+				}
+				if lgArr >= lgK {
+					return fmt.Errorf("possible Corruption: Invalid Array Size: %d", lgArr)
+				}
+				auxCount = 1 << lgArr
+			}
+			required = hllByteArrStart + 1<<(lgK-1) + 4*auxCount
+		case TgtHllTypeHll6:
+			required = hllByteArrStart + ((3 << lgK) >> 2) + 1
+		case TgtHllTypeHll8:
+			required = hllByteArrStart + 1<<lgK
+		default:
+			return fmt.Errorf("possible Corruption: Invalid HLL Type: %d", tgtHllType)
+		}
+	default:
+		return fmt.Errorf("possible Corruption: Invalid Mode: %d", curMode)
+	}
+
+	if len(byteArr) < required {
+		return fmt.Errorf("input array too small: %d, required: %d", len(byteArr), required)
+	}
+	return nil
+}
+
 func getMaxUpdatableSerializationBytes(lgConfigK int, tgtHllType TgtHllType) int {
 	var arrBytes int
 	if tgtHllType == TgtHllTypeHll4 {
-- 
2.43.0


From 7657631c3f36c536c1a0d23a76b771f5055a27d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:18 +0000
Subject: [PATCH 06/69] fix: HLL union of sketches with different sizes, and
 queries between merges

---
 hll/union.go | 109 ++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 94 insertions(+), 15 deletions(-)

diff --git a/hll/union.go b/hll/union.go
index 0fe8b7d..8f1d8b1 100644
--- a/hll/union.go
+++ b/hll/union.go
@@ -68,10 +68,16 @@ func (u *unionImpl) iterator() pairIterator {
 //}
 
 func (u *unionImpl) GetUpperBound(numStdDev int) (float64, error) {
+	if err := checkRebuildCurMinNumKxQ(u.gadget); err != nil {
+		return 0, err
+	}
 	return u.gadget.GetUpperBound(numStdDev)
 }
 
 func (u *unionImpl) GetLowerBound(numStdDev int) (float64, error) {
+	if err := checkRebuildCurMinNumKxQ(u.gadget); err != nil {
+		return 0, err
+	}
 	return u.gadget.GetLowerBound(numStdDev)
 }
 
@@ -125,10 +131,16 @@ func NewUnionFromSlice(byteArray []byte) (Union, error) {
 }
 
 func (u *unionImpl) GetCompositeEstimate() (float64, error) {
+	if err := checkRebuildCurMinNumKxQ(u.gadget); err != nil {
+		return 0, err
+	}
 	return u.gadget.GetCompositeEstimate()
 }
 
 func (u *unionImpl) GetEstimate() (float64, error) {
+	if err := checkRebuildCurMinNumKxQ(u.gadget); err != nil {
+		return 0, err
+	}
 	return u.gadget.GetEstimate()
 }
 
@@ -194,7 +206,12 @@ func (u *unionImpl) GetUpdatableSerializationBytes() int {
 }
 
 func (u *unionImpl) Reset() error {
-	return u.gadget.Reset()
+	gadget, err := NewHllSketch(u.lgMaxK, TgtHllTypeHll8)
+	if err != nil {
+		return err
+	}
+	u.gadget = gadget
+	return nil
 }
 
 func (u *unionImpl) unionImpl(source HllSketch) (hllSketchStateI, error) {
@@ -242,7 +259,7 @@ func (u *unionImpl) unionImpl(source HllSketch) (hllSketchStateI, error) {
 	}
 
 	if srcLgK < gdgtLgK {
-		bit3 = 0
+		bit3 = 8
 	}
 
 	if srcLgK > u.lgMaxK {
@@ -270,7 +287,12 @@ func (u *unionImpl) unionImpl(source HllSketch) (hllSketchStateI, error) {
 		// case 16: src >  max, src >= gdt, gdtList, gdtHeap
 		// case 18: src >  max, src >= gdt, gdtSet,  gdtHeap
 		{ //Action: downsample src to MaxLgK, reverse merge w/autofold, ooof=src
-			return nil, fmt.Errorf("not implemented cas 16,18")
+			srcHll8, err := downsample(sourceC, u.lgMaxK)
+			if err != nil {
+				return nil, err
+			}
+			err = gadgetC.mergeTo(srcHll8)
+			return srcHll8.sketch, err
 		}
 	case 4, 20:
 		// case 4: src <= max, src >= gdt, gdtHLL, gdtHeap
@@ -286,7 +308,16 @@ func (u *unionImpl) unionImpl(source HllSketch) (hllSketchStateI, error) {
 		}
 	case 12: //src <= max, src <  gdt, gdtHLL, gdtHeap
 		{ //Action: downsample gdt to srcLgK, forward HLL merge w/autofold, ooof=True
-			return nil, fmt.Errorf("not implemented case 12")
+			downsampled, err := downsample(gadgetC, srcLgK)
+			if err != nil {
+				return nil, err
+			}
+			err = mergeHlltoHLLmode(source, downsampled, srcLgK, srcLgK)
+			if err != nil {
+				return nil, err
+			}
+			downsampled.sketch.putOutOfOrder(true)
+			return downsampled.sketch, nil
 		}
 	case 6, 14:
 		// case 6: src <= max, src >= gdt, gdtEmpty, gdtHeap
@@ -300,13 +331,48 @@ func (u *unionImpl) unionImpl(source HllSketch) (hllSketchStateI, error) {
 		}
 	case 22: //src >  max, src >= gdt, gdtEmpty, gdtHeap
 		{ //Action: downsample src to lgMaxK, replace gdt, ooof=src
-			return nil, fmt.Errorf("not implemented")
+			srcHll8, err := downsample(sourceC, u.lgMaxK)
+			if err != nil {
+				return nil, err
+			}
+			return srcHll8.sketch, nil
 		}
 	default:
 		return nil, fmt.Errorf("impossible")
 	}
 }
 
+// downsample returns a HLL_8 copy of the given HLL mode sketch, folded to the smaller lgConfigK.
+func downsample(candidate *hllSketchState, tgtLgK int) (*hllSketchState, error) {
+	candArr, ok := candidate.sketch.(hllArray)
+	if !ok {
+		return nil, fmt.Errorf("candidate must be in HLL mode")
+	}
+	tgtArr := newHll8Array(tgtLgK)
+	itr := candArr.iterator()
+	for itr.nextAll() {
+		v, err := itr.getValue()
+		if err != nil {
+			return nil, err
+		}
+		if v == empty {
+			continue
+		}
+		p, err := itr.getPair()
+		if err != nil {
+			return nil, err
+		}
+		if _, err = tgtArr.couponUpdate(p); err != nil { //rebuilds KxQ, etc.
+			return nil, err
+		}
+	}
+	//both of these are required for isomorphism
+	tgtArr.putHipAccum(candArr.getHipAccum())
+	tgtArr.putOutOfOrder(candArr.isOutOfOrder())
+	tgtArr.putRebuildCurMinNumKxQFlag(false)
+	return &hllSketchState{sketch: tgtArr}, nil
+}
+
 func checkRebuildCurMinNumKxQ(sketch HllSketch) error {
 	sketchImpl := sketch.(*hllSketchState).sketch
 	curMode := sketch.GetCurMode()
@@ -370,7 +436,11 @@ func mergeHlltoHLLmode(src HllSketch, tgt HllSketch, srcLgK int, tgtLgK int) err
 	if src.GetTgtHllType() != TgtHllTypeHll8 {
 		sw |= 8
 	}
+	if srcLgK < tgtLgK {
+		return fmt.Errorf("source must not be smaller than the target: %d, %d", srcLgK, tgtLgK)
+	}
 	srcK := 1 << srcLgK
+	tgtKMask := (1 << tgtLgK) - 1
 
 	switch sw {
 	case 0: //HLL_8, srcLgK=tgtLgK, src=heap, tgt=heap
@@ -385,7 +455,17 @@ func mergeHlltoHLLmode(src HllSketch, tgt HllSketch, srcLgK int, tgtLgK int) err
 				}
 			}
 		}
-	case 8, 9: //!HLL_8, srcLgK=tgtLgK, src=heap, tgt=heap/mem
+	case 4: //HLL_8, srcLgK>tgtLgK, src=heap, tgt=heap
+		{
+			srcArr := src.(*hllSketchState).sketch.(*hll8ArrayImpl).hllByteArr
+			tgtArr := tgt.(*hllSketchState).sketch.(*hll8ArrayImpl).hllByteArr
+			for i, srcV := range srcArr {
+				if srcV > tgtArr[i&tgtKMask] {
+					tgtArr[i&tgtKMask] = srcV
+				}
+			}
+		}
+	case 8, 12: //!HLL_8, srcLgK>=tgtLgK, src=heap, tgt=heap
 		{
 			tgtAbsHllArr := tgt.(*hllSketchState).sketch.(*hll8ArrayImpl)
 			if src.GetTgtHllType() == TgtHllTypeHll4 {
@@ -403,9 +483,9 @@ func mergeHlltoHLLmode(src HllSketch, tgt HllSketch, srcLgK int, tgtLgK int) err
 						if err != nil {
 							return err
 						}
-						tgtAbsHllArr.updateSlotNoKxQ(j, v)
+						tgtAbsHllArr.updateSlotNoKxQ(j&tgtKMask, v)
 					} else {
-						tgtAbsHllArr.updateSlotNoKxQ(j, int(value)+curMin)
+						tgtAbsHllArr.updateSlotNoKxQ(j&tgtKMask, int(value)+curMin)
 					}
 					j++
 					value = uint(b) >> 4
@@ -414,9 +494,9 @@ func mergeHlltoHLLmode(src HllSketch, tgt HllSketch, srcLgK int, tgtLgK int) err
 						if err != nil {
 							return err
 						}
-						tgtAbsHllArr.updateSlotNoKxQ(j, v)
+						tgtAbsHllArr.updateSlotNoKxQ(j&tgtKMask, v)
 					} else {
-						tgtAbsHllArr.updateSlotNoKxQ(j, int(value)+curMin)
+						tgtAbsHllArr.updateSlotNoKxQ(j&tgtKMask, int(value)+curMin)
 					}
 					j++
 				}
@@ -430,23 +510,22 @@ func mergeHlltoHLLmode(src HllSketch, tgt HllSketch, srcLgK int, tgtLgK int) err
 					b3 := src6.hllByteArr[i+2]
 					i += 3
 					value := uint(b1) & 0x3f
-					tgtAbsHllArr.updateSlotNoKxQ(j, int(value))
+					tgtAbsHllArr.updateSlotNoKxQ(j&tgtKMask, int(value))
 					j++
 					value = uint(b1) >> 6
 					value |= (uint(b2) & 0x0f) << 2
-					tgtAbsHllArr.updateSlotNoKxQ(j, int(value))
+					tgtAbsHllArr.updateSlotNoKxQ(j&tgtKMask, int(value))
 					j++
 					value = uint(b2) >> 4
 					value |= (uint(b3) & 3) << 4
-					tgtAbsHllArr.updateSlotNoKxQ(j, int(value))
+					tgtAbsHllArr.updateSlotNoKxQ(j&tgtKMask, int(value))
 					j++
 					value = uint(b3) >> 2
-					tgtAbsHllArr.updateSlotNoKxQ(j, int(value))
+					tgtAbsHllArr.updateSlotNoKxQ(j&tgtKMask, int(value))
 					j++
 				}
 			}
 		}
-		// TODO continue implementing
 	default:
 		return fmt.Errorf("not implemented")
 	}
-- 
2.43.0


From a5e50fdce2bae23862cf94d0df7995d22f5d8aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:19 +0000
Subject: [PATCH 07/69] fix: HLL decoder refuses 4-bit images with missing
 exception values

---
 hll/hll_4array.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/hll/hll_4array.go b/hll/hll_4array.go
index d8ab28d..70c2925 100644
--- a/hll/hll_4array.go
+++ b/hll/hll_4array.go
@@ -118,6 +118,20 @@ func deserializeHll4(byteArray []byte) (hllArray, error) {
 		hll4.putAuxHashMap(auxHashMap, false)
 	}
 
+	// Every slot marked as an exception must have its value in the AuxHashMap.
+	for slotNo := 0; slotNo < 1<<lgConfigK; slotNo++ {
+		if hll4.(*hll4ArrayImpl).getNibble(slotNo) != auxToken {
+			continue
+		}
+		auxHashMap := hll4.getAuxHashMap()
+		if auxHashMap == nil {
+			return nil, fmt.Errorf("possible corruption: slot %d has no exception value", slotNo)
+		}
+		if _, err := auxHashMap.mustFindValueFor(slotNo); err != nil {
+			return nil, fmt.Errorf("possible corruption: %w", err)
+		}
+	}
+
 	return hll4, nil
 }
 
-- 
2.43.0


From 9c2c93de3d7633261c9e3da84d5a5c17a52bedf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:07 +0000
Subject: [PATCH 08/69] fix: HLL union keeps small register contributions out
 of the large accumulator when rebuilding

---
 hll/union.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hll/union.go b/hll/union.go
index 8f1d8b1..2c0cb7c 100644
--- a/hll/union.go
+++ b/hll/union.go
@@ -405,7 +405,8 @@ func checkRebuildCurMinNumKxQ(sketch HllSketch) error {
 				if err != nil {
 					return err
 				}
-				kxq1 += inv - 1.0
+				kxq0 -= 1.0
+				kxq1 += inv
 			}
 		}
 		if v > curMin {
-- 
2.43.0


From 45e78912134facccbc3de7459be3fca0b460de81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:42 +0000
Subject: [PATCH 09/69] fix: hashing of int32 slices no longer ignores every
 other value

---
 internal/murmur3.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/internal/murmur3.go b/internal/murmur3.go
index 9b00be2..efd49de 100644
--- a/internal/murmur3.go
+++ b/internal/murmur3.go
@@ -71,8 +71,8 @@ func HashInt32SliceMurmur3(key []int32, offsetInts int, lengthInts int, seed uin
 
 	// Process the 128-bit blocks (the body) into the hash
 	for i := 0; i < nblocks; i++ {
-		k1 := uint64(key[offsetInts+(i<<2)])   //offsetInts + 0, 4, 8, ...
-		k2 := uint64(key[offsetInts+(i<<2)+2]) //offsetInts + 2, 6, 10, ...
+		k1 := getTwoInt32s(key, offsetInts+(i<<2))   //offsetInts + 0, 4, 8, ...
+		k2 := getTwoInt32s(key, offsetInts+(i<<2)+2) //offsetInts + 2, 6, 10, ...
 		hashState.blockMix128(k1, k2)
 	}
 
@@ -83,13 +83,14 @@ func HashInt32SliceMurmur3(key []int32, offsetInts int, lengthInts int, seed uin
 	// Get the tail
 	k1 := uint64(0)
 	k2 := uint64(0)
-	if rem > 2 {
-		k1 = uint64(key[offsetInts+tail]) //k2 -> whole; k1 -> partial
+	switch rem {
+	case 3: //k1 -> whole; k2 -> partial
+		k1 = getTwoInt32s(key, offsetInts+tail)
 		k2 = uint64(key[offsetInts+tail+2])
-	} else {
-		if rem != 0 {
-			k1 = uint64(key[offsetInts+tail]) //k1 -> whole(2), partial(1) or 0; k2 == 0
-		}
+	case 2: //k1 -> whole; k2 == 0
+		k1 = getTwoInt32s(key, offsetInts+tail)
+	case 1: //k1 -> partial; k2 == 0
+		k1 = uint64(key[offsetInts+tail])
 	}
 
 	// Mix the tail into the hash and return
@@ -157,6 +158,11 @@ func HashByteArrMurmur3(key []byte, offsetBytes int, lengthBytes int, seed uint6
 	return hashState.finalMix128(k1, k2, uint64(lengthBytes))
 }
 
+// getTwoInt32s packs two consecutive ints into one word, the first in the low half.
+func getTwoInt32s(key []int32, index int) uint64 {
+	return uint64(uint32(key[index])) | uint64(uint32(key[index+1]))<<32
+}
+
 func getUint64(bArr []byte, index int, rem int) uint64 {
 	var out uint64
 	for i := rem - 1; i >= 0; i-- { //i= 7,6,5,4,3,2,1,0
-- 
2.43.0


From 24ecf5d060d9ba118b34fc1cfef701f27bb80375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:55 +0000
Subject: [PATCH 10/69] fix: CPC wrapper of an empty sketch answers zero

---
 cpc/cpc_wrapper.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/cpc/cpc_wrapper.go b/cpc/cpc_wrapper.go
index ec2d268..603bd9e 100644
--- a/cpc/cpc_wrapper.go
+++ b/cpc/cpc_wrapper.go
@@ -45,6 +45,9 @@ func NewCpcWrapperFromBytes(byteArray []byte) (*CpcWrapper, error) {
 // If the sketch is in HIP mode, we return the HIP accumulator; otherwise we
 // return the ICON estimate.
 func (cw *CpcWrapper) GetEstimate() float64 {
+	if cw.isEmpty() {
+		return 0
+	}
 	if !hasHip(cw.mem) {
 		return iconEstimate(getLgK(cw.mem), getNumCoupons(cw.mem))
 	}
@@ -59,6 +62,9 @@ func (cw *CpcWrapper) GetLgK() int {
 // GetLowerBound returns the lower bound of the confidence interval given kappa
 // (the number of standard deviations from the mean).
 func (cw *CpcWrapper) GetLowerBound(kappa int) float64 {
+	if cw.isEmpty() {
+		return 0
+	}
 	if !hasHip(cw.mem) {
 		return iconConfidenceLB(getLgK(cw.mem), getNumCoupons(cw.mem), kappa)
 	}
@@ -68,12 +74,22 @@ func (cw *CpcWrapper) GetLowerBound(kappa int) float64 {
 // GetUpperBound returns the upper bound of the confidence interval given kappa
 // (the number of standard deviations from the mean).
 func (cw *CpcWrapper) GetUpperBound(kappa int) float64 {
+	if cw.isEmpty() {
+		return 0
+	}
 	if !hasHip(cw.mem) {
 		return iconConfidenceUB(getLgK(cw.mem), getNumCoupons(cw.mem), kappa)
 	}
 	return hipConfidenceUB(getLgK(cw.mem), getNumCoupons(cw.mem), getHipAccum(cw.mem), kappa)
 }
 
+// isEmpty returns true if the wrapped sketch is empty. The image of an empty
+// sketch has neither the numCoupons nor the HIP fields.
+func (cw *CpcWrapper) isEmpty() bool {
+	format := getFormat(cw.mem)
+	return format == CpcFormatEmptyMerged || format == CpcFormatEmptyHip
+}
+
 // GetFamily returns the family ID for CPC sketches.
 func (cw *CpcWrapper) GetFamily() int {
 	return internal.FamilyEnum.CPC.Id
-- 
2.43.0


From 8447738e4d541867ea3d1aed8aaf6be9d55f7cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:35 +0000
Subject: [PATCH 11/69] fix: CPC decoder checks sizes, ranges and the seed hash

---
 cpc/cpc_compressed_state.go | 17 +++++++++++++++++
 cpc/cpc_sketch.go           | 17 +----------------
 cpc/pair_table.go           |  3 +++
 cpc/utils.go                |  3 +++
 4 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/cpc/cpc_compressed_state.go b/cpc/cpc_compressed_state.go
index b77a646..98324f7 100644
--- a/cpc/cpc_compressed_state.go
+++ b/cpc/cpc_compressed_state.go
@@ -183,6 +183,10 @@ func uncompressSketch(source *CpcCompressedState, seed uint64) (*CpcSketch, erro
 		return nil, err
 	}
 
+	if offset := source.getWindowOffset(); offset > 56 {
+		return nil, fmt.Errorf("window offset %d out of range for %d coupons", offset, source.NumCoupons)
+	}
+
 	// Populate the new sketch with fields from the compressed state.
 	sketch.numCoupons = source.NumCoupons
 	// Assuming source.getWindowOffset() exists and returns the correct window offset.
@@ -519,6 +523,9 @@ func (c *CpcCompressedState) uncompressSlidingFlavor(src *CpcSketch) error {
 			rowCol := pairs[i]
 			row := rowCol >> 6
 			col := rowCol & 63
+			if col >= len(permutation) {
+				return fmt.Errorf("uncompressSlidingFlavor: invalid pair value %d at index %d", rowCol, i)
+			}
 			// First, undo the permutation.
 			col = int(permutation[col])
 			// Then, undo the rotation: old = (new + (offset+8)) mod 64.
@@ -713,6 +720,9 @@ func uncompressTheSurprisingValues(source *CpcCompressedState) ([]int, error) {
 	if numPairs <= 0 {
 		return nil, fmt.Errorf("uncompressTheSurprisingValues: numPairs must be > 0, got %d", numPairs)
 	}
+	if numPairs > 32*len(source.CsvStream) { // every pair takes more than one bit
+		return nil, fmt.Errorf("uncompressTheSurprisingValues: %d pairs in %d words", numPairs, len(source.CsvStream))
+	}
 	pairs := make([]int, numPairs)
 	// Determine the number of base bits using the Golomb code decision.
 	numBaseBits, err := golombChooseNumberOfBaseBits(srcK+numPairs, numPairs)
@@ -723,6 +733,10 @@ func uncompressTheSurprisingValues(source *CpcCompressedState) ([]int, error) {
 	if err := lowLevelUncompressPairs(pairs, numPairs, numBaseBits, source.CsvStream, source.CsvLengthInts); err != nil {
 		return nil, err
 	}
+	// Pairs are in row order.
+	if lastRow := pairs[numPairs-1] >> 6; lastRow < 0 || lastRow >= srcK {
+		return nil, fmt.Errorf("uncompressTheSurprisingValues: row %d out of range", lastRow)
+	}
 	return pairs, nil
 }
 
@@ -941,6 +955,9 @@ func lowLevelUncompressPairs(pairArray []int, numPairsToDecode, numBaseBits int,
 		}
 		rowIndex := predictedRowIndex + int(yDelta)
 		colIndex := predictedColIndex + xDelta
+		if colIndex > 63 {
+			return fmt.Errorf("lowLevelUncompressPairs: column %d out of range", colIndex)
+		}
 		rowCol := (rowIndex << 6) | colIndex
 		pairArray[pairIndex] = rowCol
 		pairIndex++
diff --git a/cpc/cpc_sketch.go b/cpc/cpc_sketch.go
index eeaec0c..e16b3b4 100644
--- a/cpc/cpc_sketch.go
+++ b/cpc/cpc_sketch.go
@@ -96,22 +96,7 @@ func NewCpcSketchFromSlice(bytes []byte, seed uint64) (*CpcSketch, error) {
 	if err != nil {
 		return nil, err
 	}
-
-	sketch, err := NewCpcSketch(c.LgK, seed)
-	if err != nil {
-		return nil, err
-	}
-	sketch.numCoupons = c.NumCoupons
-	sketch.windowOffset = c.getWindowOffset()
-	sketch.fiCol = c.FiCol
-	sketch.mergeFlag = c.MergeFlag
-	sketch.kxp = c.Kxp
-	sketch.hipEstAccum = c.HipEstAccum
-	sketch.slidingWindow = nil
-	sketch.pairTable = nil
-
-	err = c.uncompress(sketch)
-	return sketch, err
+	return uncompressSketch(c, seed)
 }
 
 func NewCpcSketchFromSliceWithDefault(bytes []byte) (*CpcSketch, error) {
diff --git a/cpc/pair_table.go b/cpc/pair_table.go
index d4ae1c8..8ef4220 100644
--- a/cpc/pair_table.go
+++ b/cpc/pair_table.go
@@ -40,6 +40,9 @@ func NewPairTable(lgSizeInts, numValidBits int) (*pairTable, error) {
 	if err := checkLgSizeInts(lgSizeInts); err != nil {
 		return nil, err
 	}
+	if lgSizeInts > numValidBits {
+		return nil, fmt.Errorf("LgSizeInts %d exceeds the %d valid bits of a pair", lgSizeInts, numValidBits)
+	}
 	numSlots := 1 << lgSizeInts
 	validBits := numValidBits
 	numPairs := 0
diff --git a/cpc/utils.go b/cpc/utils.go
index b39ebd3..fc63db8 100644
--- a/cpc/utils.go
+++ b/cpc/utils.go
@@ -284,6 +284,9 @@ func checkLoPreamble(bytes []byte) error {
 	if bytes[loFieldPreInts] != preIntsDef {
 		return fmt.Errorf("preIntsDef: %d, bytes[loFieldPreInts]: %d", preIntsDef, bytes[loFieldPreInts])
 	}
+	if err := checkCapacity(len(bytes), int(preIntsDef)<<2); err != nil {
+		return err
+	}
 	fam := getFamilyId(bytes)
 	if fam != internal.FamilyEnum.CPC.Id {
 		return fmt.Errorf("family: %d, bytes[loFieldFamily]: %d", internal.FamilyEnum.CPC.Id, fam)
-- 
2.43.0


From 0ee61d7081d5cb43333802c0fbdcb8cc9eae1b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:48 +0000
Subject: [PATCH 12/69] fix: CPC wrapper refuses truncated images

---
 cpc/cpc_wrapper.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cpc/cpc_wrapper.go b/cpc/cpc_wrapper.go
index 603bd9e..2651db9 100644
--- a/cpc/cpc_wrapper.go
+++ b/cpc/cpc_wrapper.go
@@ -38,6 +38,10 @@ func NewCpcWrapperFromBytes(byteArray []byte) (*CpcWrapper, error) {
 	if !isCompressed(byteArray) {
 		return nil, fmt.Errorf("CpcWrapper: sketch is not compressed")
 	}
+	// The accessors read the image in place; refuse one that is cut short.
+	if _, err := importFromMemory(byteArray); err != nil {
+		return nil, fmt.Errorf("CpcWrapper: %w", err)
+	}
 	return &CpcWrapper{mem: byteArray}, nil
 }
 
-- 
2.43.0


From 8c168338dd43419f78d482fcc5724491ad16c432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:07 +0000
Subject: [PATCH 13/69] fix: CPC union hands out a copy of its bit matrix

---
 cpc/cpc_union.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpc/cpc_union.go b/cpc/cpc_union.go
index c7caa04..326fa0b 100644
--- a/cpc/cpc_union.go
+++ b/cpc/cpc_union.go
@@ -20,6 +20,7 @@ package cpc
 import (
 	"fmt"
 	"math/bits"
+	"slices"
 
 	"github.com/apache/datasketches-go/internal"
 )
@@ -351,7 +352,7 @@ func (u *CpcUnion) GetBitMatrix() ([]uint64, error) {
 	}
 
 	if u.bitMatrix != nil {
-		return u.bitMatrix, nil
+		return slices.Clone(u.bitMatrix), nil
 	}
 
 	if u.accumulator == nil {
-- 
2.43.0


From 8b1525f37228999d35566785085bb25ccbac6410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:05 +0000
Subject: [PATCH 14/69] fix: item serializers check lengths before reading or
 allocating

---
 common/item_sketch_double.go | 11 ++++++++++-
 common/item_sketch_float.go  | 11 ++++++++++-
 common/item_sketch_long.go   | 11 ++++++++++-
 common/item_sketch_string.go | 11 ++++++-----
 common/utils.go              | 10 ++++++++++
 5 files changed, 46 insertions(+), 8 deletions(-)

diff --git a/common/item_sketch_double.go b/common/item_sketch_double.go
index 8462fb6..6b684de 100644
--- a/common/item_sketch_double.go
+++ b/common/item_sketch_double.go
@@ -48,6 +48,12 @@ func (f ItemSketchDoubleSerDe) SizeOf(item float64) int {
 }
 
 func (f ItemSketchDoubleSerDe) SizeOfMany(mem []byte, offsetBytes int, numItems int) (int, error) {
+	if numItems <= 0 {
+		return 0, nil
+	}
+	if !checkItemBounds(offsetBytes, numItems, 8, len(mem)) {
+		return 0, errOutOfBounds
+	}
 	return numItems * 8, nil
 }
 
@@ -71,9 +77,12 @@ func (f ItemSketchDoubleSerDe) SerializeManyToSlice(item []float64) []byte {
 }
 
 func (f ItemSketchDoubleSerDe) DeserializeManyFromSlice(mem []byte, offsetBytes int, numItems int) ([]float64, error) {
-	if numItems == 0 {
+	if numItems <= 0 {
 		return []float64{}, nil
 	}
+	if !checkItemBounds(offsetBytes, numItems, 8, len(mem)) {
+		return nil, errOutOfBounds
+	}
 	array := make([]float64, 0, numItems)
 	for i := 0; i < numItems; i++ {
 		array = append(array, math.Float64frombits(binary.LittleEndian.Uint64(mem[offsetBytes:])))
diff --git a/common/item_sketch_float.go b/common/item_sketch_float.go
index eae77a9..759816e 100644
--- a/common/item_sketch_float.go
+++ b/common/item_sketch_float.go
@@ -39,6 +39,12 @@ func (s ItemSketchFloatSerDe) SizeOf(item float32) int {
 }
 
 func (s ItemSketchFloatSerDe) SizeOfMany(mem []byte, offsetBytes int, numItems int) (int, error) {
+	if numItems <= 0 {
+		return 0, nil
+	}
+	if !checkItemBounds(offsetBytes, numItems, 4, len(mem)) {
+		return 0, errOutOfBounds
+	}
 	return numItems * 4, nil
 }
 
@@ -63,9 +69,12 @@ func (s ItemSketchFloatSerDe) SerializeManyToSlice(items []float32) []byte {
 }
 
 func (s ItemSketchFloatSerDe) DeserializeManyFromSlice(mem []byte, offsetBytes int, numItems int) ([]float32, error) {
-	if numItems == 0 {
+	if numItems <= 0 {
 		return []float32{}, nil
 	}
+	if !checkItemBounds(offsetBytes, numItems, 4, len(mem)) {
+		return nil, errOutOfBounds
+	}
 
 	array := make([]float32, 0, numItems)
 	for i := 0; i < numItems; i++ {
diff --git a/common/item_sketch_long.go b/common/item_sketch_long.go
index c4c5d11..224d47a 100644
--- a/common/item_sketch_long.go
+++ b/common/item_sketch_long.go
@@ -47,6 +47,12 @@ func (f ItemSketchLongSerDe) SizeOf(item int64) int {
 }
 
 func (f ItemSketchLongSerDe) SizeOfMany(mem []byte, offsetBytes int, numItems int) (int, error) {
+	if numItems <= 0 {
+		return 0, nil
+	}
+	if !checkItemBounds(offsetBytes, numItems, 8, len(mem)) {
+		return 0, errOutOfBounds
+	}
 	return numItems * 8, nil
 }
 
@@ -70,9 +76,12 @@ func (f ItemSketchLongSerDe) SerializeManyToSlice(item []int64) []byte {
 }
 
 func (f ItemSketchLongSerDe) DeserializeManyFromSlice(mem []byte, offsetBytes int, numItems int) ([]int64, error) {
-	if numItems == 0 {
+	if numItems <= 0 {
 		return []int64{}, nil
 	}
+	if !checkItemBounds(offsetBytes, numItems, 8, len(mem)) {
+		return nil, errOutOfBounds
+	}
 	array := make([]int64, 0, numItems)
 	for i := 0; i < numItems; i++ {
 		array = append(array, int64(binary.LittleEndian.Uint64(mem[offsetBytes:])))
diff --git a/common/item_sketch_string.go b/common/item_sketch_string.go
index 19a5539..874d20d 100644
--- a/common/item_sketch_string.go
+++ b/common/item_sketch_string.go
@@ -59,7 +59,7 @@ func (f ItemSketchStringSerDe) SizeOfMany(mem []byte, offsetBytes int, numItems
 		}
 		itemLenBytes := int(binary.LittleEndian.Uint32(mem[offset:]))
 		offset += 4
-		if offset+itemLenBytes > memCap {
+		if !checkBounds(offset, itemLenBytes, memCap) {
 			return 0, errors.New("offset out of bounds")
 		}
 		offset += itemLenBytes
@@ -117,23 +117,24 @@ func (f ItemSketchStringSerDe) DeserializeManyFromSlice(mem []byte, offsetBytes
 	if numItems <= 0 {
 		return []string{}, nil
 	}
-	array := make([]string, numItems)
 	offset := offsetBytes
 	intSize := 4
 	memCap := len(mem)
+	if !checkItemBounds(offset, numItems, intSize, memCap) {
+		return nil, errors.New("offset out of bounds")
+	}
+	array := make([]string, numItems)
 	for i := 0; i < numItems; i++ {
 		if !checkBounds(offset, intSize, memCap) {
 			return nil, errors.New("offset out of bounds")
 		}
 		strLength := int(binary.LittleEndian.Uint32(mem[offset:]))
 		offset += intSize
-		utf8Bytes := make([]byte, strLength)
 		if !checkBounds(offset, strLength, memCap) {
 			return nil, errors.New("offset out of bounds")
 		}
-		copy(utf8Bytes, mem[offset:offset+strLength])
+		array[i] = string(mem[offset : offset+strLength])
 		offset += strLength
-		array[i] = string(utf8Bytes)
 	}
 	return array, nil
 }
diff --git a/common/utils.go b/common/utils.go
index 2269654..62a449e 100644
--- a/common/utils.go
+++ b/common/utils.go
@@ -18,6 +18,8 @@
 package common
 
 import (
+	"fmt"
+	"io"
 	"math"
 	"math/bits"
 )
@@ -27,10 +29,18 @@ const (
 	InverseGoldenU64     = 0x9e3779b97f4a7c13
 )
 
+var errOutOfBounds = fmt.Errorf("offset out of bounds: %w", io.ErrUnexpectedEOF)
+
 func checkBounds(offset int, reqLen int, memCap int) bool {
 	return !((offset | reqLen | (offset + reqLen) | (memCap - (offset + reqLen))) < 0)
 }
 
+// checkItemBounds tells whether numItems items of at least itemSize bytes each fit
+// between the offset and the end of a slice of memCap bytes.
+func checkItemBounds(offset int, numItems int, itemSize int, memCap int) bool {
+	return offset >= 0 && offset <= memCap && numItems <= (memCap-offset)/itemSize
+}
+
 func PowerSeriesNextDouble(ppb int, curPoint float64, roundToLong bool, logBase float64) float64 {
 	// If curPoint < 1.0, force cur to 1.0
 	cur := curPoint
-- 
2.43.0


From 6122383b5c7b2632e1a4e39a2a4cb67683bca9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:01 +0000
Subject: [PATCH 15/69] fix: KLL decoder checks image sizes, structure and
 level boundaries

---
 kll/items_sketch.go          | 11 +++++----
 kll/items_sketch_validate.go | 48 ++++++++++++++++++++++++++++++------
 kll/preamble_utils.go        |  2 ++
 kll/sketch_structure.go      | 14 ++++++-----
 4 files changed, 57 insertions(+), 18 deletions(-)

diff --git a/kll/items_sketch.go b/kll/items_sketch.go
index af96371..2fa6e28 100644
--- a/kll/items_sketch.go
+++ b/kll/items_sketch.go
@@ -155,7 +155,7 @@ func NewKllItemsSketchFromSlice[C comparable](sl []byte, compareFn common.Compar
 		items = make([]C, k)
 		items[k-1] = deserItems[0]
 	case _COMPACT_FULL:
-		offset := int(_DATA_START_ADR + memVal.numLevels*4)
+		offset := _DATA_START_ADR + int(memVal.numLevels)*4
 		deserMinItems, err := serde.DeserializeManyFromSlice(sl, offset, 1)
 		if err != nil {
 			return nil, err
@@ -561,11 +561,12 @@ func (s *ItemsSketch[C]) ToSlice() ([]byte, error) {
 	binary.LittleEndian.PutUint64(bytesOut[8:16], n)
 	binary.LittleEndian.PutUint16(bytesOut[16:18], minK)
 	bytesOut[18] = numLevels
-	for i := uint8(0); i < numLevels; i++ {
+	for i := 0; i < int(numLevels); i++ {
 		binary.LittleEndian.PutUint32(bytesOut[_DATA_START_ADR+i*4:], lvlsArr[i])
 	}
-	copy(bytesOut[_DATA_START_ADR+(numLevels*4):], minMaxByteArr)
-	copy(bytesOut[_DATA_START_ADR+int(numLevels*4)+len(minMaxByteArr):], itemsByteArr)
+	dataStart := _DATA_START_ADR + int(numLevels)*4
+	copy(bytesOut[dataStart:], minMaxByteArr)
+	copy(bytesOut[dataStart+len(minMaxByteArr):], itemsByteArr)
 	return bytesOut, nil
 }
 
@@ -669,7 +670,7 @@ func (s *ItemsSketch[C]) getSingleItem() (C, error) {
 	if s.n != 1 {
 		return *new(C), fmt.Errorf("sketch must have exactly one item")
 	}
-	return s.items[s.k-1], nil
+	return s.items[s.levels[0]], nil
 }
 
 func (s *ItemsSketch[C]) getRetainedItemsArray() []C {
diff --git a/kll/items_sketch_validate.go b/kll/items_sketch_validate.go
index e78ff77..5c2914d 100644
--- a/kll/items_sketch_validate.go
+++ b/kll/items_sketch_validate.go
@@ -57,13 +57,16 @@ type itemsSketchMemoryValidate[C comparable] struct {
 }
 
 func newItemsSketchMemoryValidate[C comparable](srcMem []byte, serde common.ItemSketchSerde[C]) (*itemsSketchMemoryValidate[C], error) {
-	capa := cap(srcMem)
-	if capa < 8 {
-		return nil, fmt.Errorf("Memory too small: %d", capa)
+	size := len(srcMem)
+	if size < _DATA_START_ADR_SINGLE_ITEM {
+		return nil, fmt.Errorf("Memory too small: %d", size)
 	}
 	preInts := getPreInts(srcMem)
 	serVer := getSerVer(srcMem)
-	sketchStructure := getSketchStructure(preInts, serVer)
+	sketchStructure, err := getSketchStructure(preInts, serVer)
+	if err != nil {
+		return nil, err
+	}
 	familyID := getFamilyID(srcMem)
 	if familyID != internal.FamilyEnum.Kll.Id {
 		return nil, fmt.Errorf("Source not KLL: %d", familyID)
@@ -71,7 +74,7 @@ func newItemsSketchMemoryValidate[C comparable](srcMem []byte, serde common.Item
 	flags := getFlags(srcMem)
 	k := getK(srcMem)
 	m := getM(srcMem)
-	err := checkM(m)
+	err = checkM(m)
 	if err != nil {
 		return nil, err
 	}
@@ -107,16 +110,28 @@ func (vlid *itemsSketchMemoryValidate[C]) validate() error {
 		if vlid.emptyFlag {
 			return fmt.Errorf("Empty flag and compact full")
 		}
+		if len(vlid.srcMem) < _DATA_START_ADR {
+			return fmt.Errorf("Memory too small: %d", len(vlid.srcMem))
+		}
 		vlid.n = getN(vlid.srcMem)
 		vlid.minK = getMinK(vlid.srcMem)
 		vlid.numLevels = getNumLevels(vlid.srcMem)
+		if vlid.n == 0 || vlid.numLevels == 0 || vlid.numLevels > _MAX_NUM_LEVELS {
+			return fmt.Errorf("Invalid n or number of levels: %d, %d", vlid.n, vlid.numLevels)
+		}
+		if len(vlid.srcMem) < _DATA_START_ADR+int(vlid.numLevels)*4 {
+			return fmt.Errorf("Memory too small: %d", len(vlid.srcMem))
+		}
 		// Get Levels Arr and add the last element
 		vlid.levelsArr = make([]uint32, vlid.numLevels+1)
-		for i := uint8(0); i < vlid.numLevels; i++ {
-			vlid.levelsArr[i] = binary.LittleEndian.Uint32(vlid.srcMem[_DATA_START_ADR+i*4 : _DATA_START_ADR+i*4+4])
+		for i := 0; i < int(vlid.numLevels); i++ {
+			vlid.levelsArr[i] = binary.LittleEndian.Uint32(vlid.srcMem[_DATA_START_ADR+i*4:])
 		}
 		capacityItems := computeTotalItemCapacity(uint16(vlid.k), uint8(vlid.m), uint8(vlid.numLevels))
 		vlid.levelsArr[vlid.numLevels] = capacityItems //load the last one
+		if err := checkLevels(vlid.n, vlid.levelsArr); err != nil {
+			return err
+		}
 		sb, err := computeSketchBytes(vlid.srcMem, vlid.levelsArr, vlid.typeBytes, vlid.serde)
 		if err != nil {
 			return err
@@ -151,6 +166,25 @@ func (vlid *itemsSketchMemoryValidate[C]) validate() error {
 	return nil
 }
 
+// checkLevels checks that the levels are in order and that the weights of the items they hold sum to n.
+func checkLevels(n uint64, levelsArr []uint32) error {
+	remaining := n
+	for i := 0; i < len(levelsArr)-1; i++ {
+		if levelsArr[i] > levelsArr[i+1] {
+			return fmt.Errorf("Levels array is not in order: %v", levelsArr)
+		}
+		pop := uint64(levelsArr[i+1] - levelsArr[i])
+		if pop > remaining>>i {
+			return fmt.Errorf("Items do not add up to n: %d", n)
+		}
+		remaining -= pop << i
+	}
+	if remaining != 0 {
+		return fmt.Errorf("Items do not add up to n: %d", n)
+	}
+	return nil
+}
+
 func computeSketchBytes[C comparable](srcMem []byte, levelsArr []uint32, typeBytes int, serde common.ItemSketchSerde[C]) (int, error) {
 	numLevels := len(levelsArr) - 1
 	retainedItems := levelsArr[numLevels] - levelsArr[0]
diff --git a/kll/preamble_utils.go b/kll/preamble_utils.go
index 89852c5..e058221 100644
--- a/kll/preamble_utils.go
+++ b/kll/preamble_utils.go
@@ -39,6 +39,8 @@ const (
 	// 19 is reserved for future use
 	_DATA_START_ADR = 20 // Full Sketch, not single item
 
+	_MAX_NUM_LEVELS = 61 // more than any stream can fill
+
 	// Other static members
 	_SERIAL_VERSION_EMPTY_FULL  = 1 // Empty or full preamble, NOT single item format, NOT updatable
 	_SERIAL_VERSION_SINGLE      = 2 // only single-item format, NOT updatable
diff --git a/kll/sketch_structure.go b/kll/sketch_structure.go
index 78a39c0..63d778e 100644
--- a/kll/sketch_structure.go
+++ b/kll/sketch_structure.go
@@ -17,6 +17,8 @@
 
 package kll
 
+import "fmt"
+
 type sketchStructure struct {
 	preInts int
 	serVer  int
@@ -33,19 +35,19 @@ func (s sketchStructure) getPreInts() int { return s.preInts }
 
 func (s sketchStructure) getSerVer() int { return s.serVer }
 
-func getSketchStructure(preInts, serVer int) sketchStructure {
+func getSketchStructure(preInts, serVer int) (sketchStructure, error) {
 	if preInts == _PREAMBLE_INTS_EMPTY_SINGLE {
 		if serVer == _SERIAL_VERSION_EMPTY_FULL {
-			return _COMPACT_EMPTY
+			return _COMPACT_EMPTY, nil
 		} else if serVer == _SERIAL_VERSION_SINGLE {
-			return _COMPACT_SINGLE
+			return _COMPACT_SINGLE, nil
 		}
 	} else if preInts == _PREAMBLE_INTS_FULL {
 		if serVer == _SERIAL_VERSION_EMPTY_FULL {
-			return _COMPACT_FULL
+			return _COMPACT_FULL, nil
 		} else if serVer == _SERIAL_VERSION_UPDATABLE {
-			return _UPDATABLE
+			return _UPDATABLE, nil
 		}
 	}
-	panic("Invalid preamble ints and serial version combo")
+	return sketchStructure{}, fmt.Errorf("Invalid preamble ints and serial version combo: %d, %d", preInts, serVer)
 }
-- 
2.43.0


From 0a682de0f0c52dfb19f36fad75973612ce9bf60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:24 +0000
Subject: [PATCH 16/69] fix: KLL image of a sketch holding the empty string

---
 kll/items_sketch.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/kll/items_sketch.go b/kll/items_sketch.go
index 2fa6e28..5047d6a 100644
--- a/kll/items_sketch.go
+++ b/kll/items_sketch.go
@@ -642,12 +642,8 @@ func (s *ItemsSketch[C]) getMinMaxSizeBytes() int {
 }
 
 func (s *ItemsSketch[C]) getMinMaxByteArr() []byte {
-	minBytes := s.serde.SerializeOneToSlice(s.minItem)
-	maxBytes := s.serde.SerializeOneToSlice(s.maxItem)
-	minMaxBytes := make([]byte, len(minBytes)+len(maxBytes))
-	copy(minMaxBytes, minBytes)
-	copy(minMaxBytes[len(minBytes):], maxBytes)
-	return minMaxBytes
+	// as an array, so that items of length zero keep their length prefix
+	return s.serde.SerializeManyToSlice([]C{s.minItem, s.maxItem})
 }
 
 func (s *ItemsSketch[C]) getSingleItemSizeBytes() (int, error) {
@@ -663,7 +659,7 @@ func (s *ItemsSketch[C]) getSingleItemByteArr() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	return s.serde.SerializeOneToSlice(v), nil
+	return s.serde.SerializeManyToSlice([]C{v}), nil
 }
 
 func (s *ItemsSketch[C]) getSingleItem() (C, error) {
-- 
2.43.0


From 6ab905fa99129ed103d8820aa3af1198bb8028c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:35 +0000
Subject: [PATCH 17/69] fix: KLL level capacity for k of 32768 and more

---
 kll/items_sketch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kll/items_sketch.go b/kll/items_sketch.go
index 5047d6a..99415f3 100644
--- a/kll/items_sketch.go
+++ b/kll/items_sketch.go
@@ -1018,7 +1018,7 @@ func intCapAux(k uint16, depth uint8) uint32 {
 }
 
 func intCapAuxAux(k uint16, depth uint8) uint32 {
-	twok := uint64(k << 1)                        // for rounding at the end, pre-multiply by 2 here, divide by 2 during rounding.
+	twok := uint64(k) << 1                        // for rounding at the end, pre-multiply by 2 here, divide by 2 during rounding.
 	tmp := (twok << depth) / powersOfThree[depth] //2k* (2/3)^depth. 2k also keeps the fraction larger.
 	result := (tmp + 1) >> 1                      // (tmp + 1)/2. If odd, round up. This guarantees an integer.
 	if result <= uint64(k) {
-- 
2.43.0


From 5bd09fcf3580e16c32583c53d4c7c52b67411080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:47 +0000
Subject: [PATCH 18/69] fix: KLL Reset restores the error bound of a new sketch

---
 kll/items_sketch.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kll/items_sketch.go b/kll/items_sketch.go
index 99415f3..6d6c059 100644
--- a/kll/items_sketch.go
+++ b/kll/items_sketch.go
@@ -476,6 +476,7 @@ func (s *ItemsSketch[C]) Merge(other *ItemsSketch[C]) {
 // Reset this sketch to the empty state.
 func (s *ItemsSketch[C]) Reset() {
 	s.n = 0
+	s.minK = s.k
 	s.isLevelZeroSorted = false
 	s.numLevels = 1
 	s.levels = []uint32{uint32(s.k), uint32(s.k)}
-- 
2.43.0


From 169acdd9d8dd3b805bfeae2eb975ec6ff202efc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:16 +0000
Subject: [PATCH 19/69] fix: KLL partition boundaries no longer change the
 cached sorted view

---
 kll/items_sketch_sorted_view.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/kll/items_sketch_sorted_view.go b/kll/items_sketch_sorted_view.go
index 95fee90..b870598 100644
--- a/kll/items_sketch_sorted_view.go
+++ b/kll/items_sketch_sorted_view.go
@@ -19,6 +19,7 @@ package kll
 
 import (
 	"errors"
+	"slices"
 	"sort"
 
 	"github.com/apache/datasketches-go/common"
@@ -181,10 +182,14 @@ func (s *ItemsSketchSortedView[C]) GetPartitionBoundaries(numEquallySized int, i
 	if s.totalN == 0 {
 		return nil, errors.New("empty sketch")
 	}
-	s.cumWeights[0] = 1
-	s.cumWeights[len(s.cumWeights)-1] = int64(s.totalN)
-	s.quantiles[0] = s.minItem
-	s.quantiles[len(s.quantiles)-1] = s.maxItem
+	// the ends are adjusted on a copy: other queries use this view as well
+	view := *s
+	view.cumWeights = slices.Clone(s.cumWeights)
+	view.quantiles = slices.Clone(s.quantiles)
+	view.cumWeights[0] = 1
+	view.cumWeights[len(view.cumWeights)-1] = int64(view.totalN)
+	view.quantiles[0] = view.minItem
+	view.quantiles[len(view.quantiles)-1] = view.maxItem
 
 	evSpNormRanks, err := evenlySpacedDoubles(0, 1.0, numEquallySized+1)
 	if err != nil {
@@ -193,13 +198,13 @@ func (s *ItemsSketchSortedView[C]) GetPartitionBoundaries(numEquallySized int, i
 	evSpQuantiles := make([]C, len(evSpNormRanks))
 	evSpNatRanks := make([]int64, len(evSpNormRanks))
 	for i := 0; i < len(evSpNormRanks); i++ {
-		index, err := s.getQuantileIndex(evSpNormRanks[i], inclusive)
+		index, err := view.getQuantileIndex(evSpNormRanks[i], inclusive)
 		if err != nil {
 			return nil, err
 		}
 
-		evSpQuantiles[i] = s.quantiles[index]
-		evSpNatRanks[i] = s.cumWeights[index]
+		evSpQuantiles[i] = view.quantiles[index]
+		evSpNatRanks[i] = view.cumWeights[index]
 	}
 	return newItemsSketchPartitionBoundaries[C](s.totalN, evSpQuantiles, evSpNatRanks, evSpNormRanks, s.maxItem, s.minItem, inclusive)
 }
-- 
2.43.0


From abd6cb53e93e1aa74c172650769388b8373bb0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:49 +0000
Subject: [PATCH 20/69] fix: KLL constructor checks m

---
 kll/items_sketch.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kll/items_sketch.go b/kll/items_sketch.go
index 6d6c059..78d6657 100644
--- a/kll/items_sketch.go
+++ b/kll/items_sketch.go
@@ -86,6 +86,9 @@ func NewKllItemsSketch[C comparable](k uint16, m uint8, compareFn common.Compare
 	if k < _MIN_K || k > _MAX_K {
 		return nil, fmt.Errorf("k must be >= %d and <= %d: %d", _MIN_K, _MAX_K, k)
 	}
+	if err := checkM(m); err != nil {
+		return nil, err
+	}
 	if compareFn == nil {
 		return nil, fmt.Errorf("no compare function provided")
 	}
-- 
2.43.0


From 8b3bdcdff294225eb989b2375d358ffe7b70915e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:44 +0000
Subject: [PATCH 21/69] fix: REQ merge into a new sketch takes over minimum and
 maximum

---
 req/sketch.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/req/sketch.go b/req/sketch.go
index 8d5c866..b53a983 100644
--- a/req/sketch.go
+++ b/req/sketch.go
@@ -74,6 +74,8 @@ func NewSketch(options ...SketchOptionFunc) (*Sketch, error) {
 	sk := &Sketch{
 		k:                      defaultK,
 		isHighRankAccuracyMode: true,
+		minItem:                float32(math.NaN()),
+		maxItem:                float32(math.NaN()),
 	}
 	for _, option := range options {
 		option(sk)
-- 
2.43.0


From cf2d77df6b14c9ab8b463158063d8c640bf13a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:37 +0000
Subject: [PATCH 22/69] fix: REQ rank bounds stay within 0 and 1

---
 req/sketch.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/req/sketch.go b/req/sketch.go
index b53a983..ee42995 100644
--- a/req/sketch.go
+++ b/req/sketch.go
@@ -746,7 +746,7 @@ func computeRankLowerBound(
 	fixed := fixRSEFactor / float64(k)
 	lbRel := rank - (float64(numStdDev) * relative)
 	lbFix := rank - (float64(numStdDev) * fixed)
-	return max(lbRel, lbFix)
+	return max(lbRel, lbFix, 0.0)
 }
 
 func isExactRank(
@@ -782,7 +782,7 @@ func computeRankUpperBound(
 	fixed := fixRSEFactor / float64(k)
 	lbRel := rank + (float64(numStdDev) * relative)
 	lbFix := rank + (float64(numStdDev) * fixed)
-	return min(lbRel, lbFix)
+	return min(lbRel, lbFix, 1.0)
 }
 
 // Item represents a quantile value and its associated weight retained by the sketch.
-- 
2.43.0


From e20b24debe70ce8aa192c44442bf3cd2e15996ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:24 +0000
Subject: [PATCH 23/69] fix: t-digest quantile interpolates toward the nearer
 centroid

---
 tdigest/double.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tdigest/double.go b/tdigest/double.go
index 30eaf7a..9b187aa 100644
--- a/tdigest/double.go
+++ b/tdigest/double.go
@@ -401,7 +401,8 @@ func (d *Double) Quantile(rank float64) (float64, error) {
 			}
 			w1 := weight - weightSoFar - leftWeight
 			w2 := weightSoFar + dw - weight - rightWeight
-			return weightedAverage(d.centroids[i].mean, w1, d.centroids[i+1].mean, w2), nil
+			// the nearer centroid counts for more
+			return weightedAverage(d.centroids[i].mean, w2, d.centroids[i+1].mean, w1), nil
 		}
 		weightSoFar += dw
 	}
-- 
2.43.0


From ccafe3c51a39b00abfcb99575eff709962a5931e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:30 +0000
Subject: [PATCH 24/69] fix: t-digest quantiles above the last centroid stay
 below the maximum

---
 tdigest/double.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tdigest/double.go b/tdigest/double.go
index 9b187aa..f69ee9a 100644
--- a/tdigest/double.go
+++ b/tdigest/double.go
@@ -376,7 +376,11 @@ func (d *Double) Quantile(rank float64) (float64, error) {
 
 	lastWeight := float64(d.centroids[len(d.centroids)-1].weight)
 	if lastWeight > 1 && float64(d.centroidsWeight)-weight <= lastWeight/2.0 {
-		return d.max + (float64(d.centroidsWeight)-weight-1.0)/(lastWeight/2.0-1.0)*(d.max-d.centroids[len(d.centroids)-1].mean), nil
+		// a last centroid of weight 2 has no tail to interpolate over
+		if lastWeight <= 2 {
+			return d.max, nil
+		}
+		return d.max - (float64(d.centroidsWeight)-weight-1.0)/(lastWeight/2.0-1.0)*(d.max-d.centroids[len(d.centroids)-1].mean), nil
 	}
 
 	// interpolate between extremes
-- 
2.43.0


From 39b8ceb8da4f7da33b775240b82e22374a0512cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:42 +0000
Subject: [PATCH 25/69] fix: t-digest merge takes over minimum and maximum

---
 tdigest/double.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tdigest/double.go b/tdigest/double.go
index f69ee9a..24b7130 100644
--- a/tdigest/double.go
+++ b/tdigest/double.go
@@ -213,6 +213,8 @@ func (d *Double) Merge(other *Double) error {
 	}
 	tmp = append(tmp, other.centroids...)
 
+	d.min = min(d.min, other.min)
+	d.max = max(d.max, other.max)
 	d.merge(tmp, uint64(len(d.buffer))+other.TotalWeight())
 
 	return nil
-- 
2.43.0


From 577a8c21a98ad925615c8584eab611a31a86cf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:53 +0000
Subject: [PATCH 26/69] fix: t-digest restored with a long buffer still
 compresses

---
 tdigest/double.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tdigest/double.go b/tdigest/double.go
index 24b7130..34c4b4f 100644
--- a/tdigest/double.go
+++ b/tdigest/double.go
@@ -188,7 +188,7 @@ func (d *Double) Update(value float64) error {
 		return ErrInfinity
 	}
 
-	if len(d.buffer) == d.centroidsCapacity*bufferMultiplier {
+	if len(d.buffer) >= d.centroidsCapacity*bufferMultiplier {
 		d.compress()
 	}
 	d.buffer = append(d.buffer, value)
-- 
2.43.0


From aada00ee5e6261eec3e1cacfea73abe0e7c05b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:26 +0000
Subject: [PATCH 27/69] fix: t-digest stream decoder makes the checks of the
 slice decoder

---
 tdigest/double_decoder.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tdigest/double_decoder.go b/tdigest/double_decoder.go
index 4ab952a..5cf7ad0 100644
--- a/tdigest/double_decoder.go
+++ b/tdigest/double_decoder.go
@@ -140,7 +140,7 @@ func (d *DoubleDecoder) Decode(r io.Reader) (*Double, error) {
 		return nil, err
 	}
 	maxVal := math.Float64frombits(maxValBytes)
-	if err := validateNaN(minVal, "max"); err != nil {
+	if err := validateNaN(maxVal, "max"); err != nil {
 		return nil, err
 	}
 
@@ -200,6 +200,10 @@ func (d *DoubleDecoder) decodeCompat(r io.Reader) (*Double, error) {
 		return nil, err
 	}
 
+	if typeFlag != compatTypeDouble && typeFlag != compatTypeFloat {
+		return nil, errUnexpectedPreamble
+	}
+
 	if typeFlag == compatTypeDouble { // compatibility with asBytes()
 		var minValBytes uint64
 		if err := binary.Read(r, binary.BigEndian, &minValBytes); err != nil {
@@ -315,7 +319,7 @@ func (d *DoubleDecoder) decodeCompat(r io.Reader) (*Double, error) {
 		if err := validateInf(float64(mean), "centroid mean"); err != nil {
 			return nil, err
 		}
-		if err := validateNaN(float64(weight), "centroid mean"); err != nil {
+		if err := validateNaN(float64(mean), "centroid mean"); err != nil {
 			return nil, err
 		}
 
-- 
2.43.0


From cb8ee44f73df5b5cc5ddbe0bec0416d693793a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:04 +0000
Subject: [PATCH 28/69] fix: t-digest decoders reject weights below one and
 totals that overflow

---
 tdigest/double_decoder.go | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/tdigest/double_decoder.go b/tdigest/double_decoder.go
index 5cf7ad0..2f365b4 100644
--- a/tdigest/double_decoder.go
+++ b/tdigest/double_decoder.go
@@ -34,6 +34,9 @@ var (
 	errUnexpectedPreamble    = errors.New("unexpected sketch preamble")
 )
 
+// maxTotalWeight bounds the total weight of a decoded t-Digest.
+const maxTotalWeight = 1 << 62
+
 // DoubleDecoder decodes a Double from the given reader.
 type DoubleDecoder struct{}
 
@@ -164,8 +167,8 @@ func (d *DoubleDecoder) Decode(r io.Reader) (*Double, error) {
 		if err := binary.Read(r, binary.LittleEndian, &weightBytes); err != nil {
 			return nil, err
 		}
-		weight := math.Float64bits(math.Float64frombits(weightBytes))
-		if err := validateZero(float64(weight), "centroid weight"); err != nil {
+		weight := weightBytes
+		if err := validateWeight(weight, totalWeight); err != nil {
 			return nil, err
 		}
 
@@ -242,7 +245,7 @@ func (d *DoubleDecoder) decodeCompat(r io.Reader) (*Double, error) {
 				return nil, err
 			}
 			weight := math.Float64frombits(weightBytes)
-			if err := validateZero(weight, "centroid weight"); err != nil {
+			if err := validateCompatWeight(weight, totalWeight); err != nil {
 				return nil, err
 			}
 
@@ -307,7 +310,7 @@ func (d *DoubleDecoder) decodeCompat(r io.Reader) (*Double, error) {
 			return nil, err
 		}
 		weight := math.Float32frombits(weightBytes)
-		if err := validateZero(float64(weight), "centroid weight"); err != nil {
+		if err := validateCompatWeight(float64(weight), totalWeight); err != nil {
 			return nil, err
 		}
 
@@ -437,7 +440,7 @@ func DecodeDouble(data []byte) (*Double, error) {
 
 		weight := binary.LittleEndian.Uint64(data[offset:])
 		offset += 8
-		if err := validateZero(float64(weight), "centroid weight"); err != nil {
+		if err := validateWeight(weight, totalWeight); err != nil {
 			return nil, err
 		}
 
@@ -508,7 +511,7 @@ func decodeDoubleCompat(data []byte) (*Double, error) {
 		for i := range centroids {
 			weight := math.Float64frombits(binary.BigEndian.Uint64(data[offset:]))
 			offset += 8
-			if err := validateZero(float64(weight), "centroid weight"); err != nil {
+			if err := validateCompatWeight(weight, totalWeight); err != nil {
 				return nil, err
 			}
 
@@ -563,7 +566,7 @@ func decodeDoubleCompat(data []byte) (*Double, error) {
 	for i := range centroids {
 		weight := math.Float32frombits(binary.BigEndian.Uint32(data[offset:]))
 		offset += 4
-		if err := validateZero(float64(weight), "centroid weight"); err != nil {
+		if err := validateCompatWeight(float64(weight), totalWeight); err != nil {
 			return nil, err
 		}
 
@@ -597,9 +600,24 @@ func validateInf(v float64, name string) error {
 	return nil
 }
 
-func validateZero(v float64, name string) error {
-	if v == 0.0 {
-		return errors.New(name + ": Zero")
+// validateWeight checks the weight of a centroid against the weight before it.
+func validateWeight(weight, totalWeight uint64) error {
+	if weight == 0 {
+		return errors.New("centroid weight: Zero")
+	}
+	if weight > maxTotalWeight || totalWeight > maxTotalWeight-weight {
+		return errors.New("centroid weight: too large")
 	}
 	return nil
 }
+
+// validateCompatWeight is validateWeight for a weight held as a floating-point number.
+func validateCompatWeight(weight float64, totalWeight uint64) error {
+	if !(weight < maxTotalWeight) { // NaN too
+		return errors.New("centroid weight: too large")
+	}
+	if weight < 1 {
+		return errors.New("centroid weight: less than one")
+	}
+	return validateWeight(uint64(weight), totalWeight)
+}
-- 
2.43.0


From a94904ed4482663867ceff1ee81139963f00c0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:39 +0000
Subject: [PATCH 29/69] fix: t-digest stream decoder allocates as the values
 arrive

---
 tdigest/double_decoder.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/tdigest/double_decoder.go b/tdigest/double_decoder.go
index 2f365b4..644652f 100644
--- a/tdigest/double_decoder.go
+++ b/tdigest/double_decoder.go
@@ -37,6 +37,9 @@ var (
 // maxTotalWeight bounds the total weight of a decoded t-Digest.
 const maxTotalWeight = 1 << 62
 
+// maxPreallocated bounds what a stream decoder allocates before it has read the values.
+const maxPreallocated = 1 << 12
+
 // DoubleDecoder decodes a Double from the given reader.
 type DoubleDecoder struct{}
 
@@ -147,9 +150,9 @@ func (d *DoubleDecoder) Decode(r io.Reader) (*Double, error) {
 		return nil, err
 	}
 
-	centroids := make([]doublePrecisionCentroid, numCentroids)
+	centroids := make([]doublePrecisionCentroid, 0, min(numCentroids, maxPreallocated))
 	var totalWeight uint64
-	for i := range centroids {
+	for range numCentroids {
 		var meanBytes uint64
 		if err := binary.Read(r, binary.LittleEndian, &meanBytes); err != nil {
 			return nil, err
@@ -161,7 +164,6 @@ func (d *DoubleDecoder) Decode(r io.Reader) (*Double, error) {
 		if err := validateInf(mean, "centroid mean"); err != nil {
 			return nil, err
 		}
-		centroids[i].mean = mean
 
 		var weightBytes uint64
 		if err := binary.Read(r, binary.LittleEndian, &weightBytes); err != nil {
@@ -172,12 +174,12 @@ func (d *DoubleDecoder) Decode(r io.Reader) (*Double, error) {
 			return nil, err
 		}
 
-		centroids[i].weight = weight
+		centroids = append(centroids, doublePrecisionCentroid{mean: mean, weight: weight})
 		totalWeight += weight
 	}
 
-	buffer := make([]float64, numBuffered)
-	for i := range buffer {
+	buffer := make([]float64, 0, min(numBuffered, maxPreallocated))
+	for range numBuffered {
 		var dataBytes uint64
 		if err := binary.Read(r, binary.LittleEndian, &dataBytes); err != nil {
 			return nil, err
@@ -191,7 +193,7 @@ func (d *DoubleDecoder) Decode(r io.Reader) (*Double, error) {
 			return nil, err
 		}
 
-		buffer[i] = bufferedValue
+		buffer = append(buffer, bufferedValue)
 	}
 
 	return newDoubleFromInternalStates(reverseMerge, k, minVal, maxVal, centroids, totalWeight, buffer)
@@ -237,9 +239,9 @@ func (d *DoubleDecoder) decodeCompat(r io.Reader) (*Double, error) {
 			return nil, err
 		}
 
-		centroids := make([]doublePrecisionCentroid, numCentroids)
+		centroids := make([]doublePrecisionCentroid, 0, min(numCentroids, maxPreallocated))
 		var totalWeight uint64
-		for i := range centroids {
+		for range numCentroids {
 			var weightBytes uint64
 			if err := binary.Read(r, binary.BigEndian, &weightBytes); err != nil {
 				return nil, err
@@ -261,7 +263,7 @@ func (d *DoubleDecoder) decodeCompat(r io.Reader) (*Double, error) {
 				return nil, err
 			}
 
-			centroids[i] = doublePrecisionCentroid{mean: mean, weight: uint64(weight)}
+			centroids = append(centroids, doublePrecisionCentroid{mean: mean, weight: uint64(weight)})
 			totalWeight += uint64(weight)
 		}
 
-- 
2.43.0


From 7b256aaaae1d43c5ae6ec5df9effce3964a4ff3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:50 +0000
Subject: [PATCH 30/69] fix: t-digest decoders reject a compression outside its
 range

---
 tdigest/double_decoder.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/tdigest/double_decoder.go b/tdigest/double_decoder.go
index 644652f..ce64d19 100644
--- a/tdigest/double_decoder.go
+++ b/tdigest/double_decoder.go
@@ -232,7 +232,10 @@ func (d *DoubleDecoder) decodeCompat(r io.Reader) (*Double, error) {
 		if err := binary.Read(r, binary.BigEndian, &kBytes); err != nil {
 			return nil, err
 		}
-		k := uint16(math.Float64frombits(kBytes))
+		k, err := compatK(math.Float64frombits(kBytes))
+		if err != nil {
+			return nil, err
+		}
 
 		var numCentroids uint32
 		if err := binary.Read(r, binary.BigEndian, &numCentroids); err != nil {
@@ -292,7 +295,10 @@ func (d *DoubleDecoder) decodeCompat(r io.Reader) (*Double, error) {
 	if err := binary.Read(r, binary.BigEndian, &kBytes); err != nil {
 		return nil, err
 	}
-	k := uint16(math.Float32frombits(kBytes))
+	k, err := compatK(float64(math.Float32frombits(kBytes)))
+	if err != nil {
+		return nil, err
+	}
 
 	var unused uint32
 	if err := binary.Read(r, binary.BigEndian, &unused); err != nil {
@@ -498,7 +504,10 @@ func decodeDoubleCompat(data []byte) (*Double, error) {
 		}
 
 		kDouble := math.Float64frombits(binary.BigEndian.Uint64(data[offset:]))
-		k := uint16(kDouble)
+		k, err := compatK(kDouble)
+		if err != nil {
+			return nil, err
+		}
 		offset += 8
 
 		numCentroids := binary.BigEndian.Uint32(data[offset:])
@@ -551,7 +560,10 @@ func decodeDoubleCompat(data []byte) (*Double, error) {
 	}
 
 	kFloat := math.Float32frombits(binary.BigEndian.Uint32(data[offset:]))
-	k := uint16(kFloat)
+	k, err := compatK(float64(kFloat))
+	if err != nil {
+		return nil, err
+	}
 	offset += 4
 
 	offset += 4 // unused
@@ -623,3 +635,11 @@ func validateCompatWeight(weight float64, totalWeight uint64) error {
 	}
 	return validateWeight(uint64(weight), totalWeight)
 }
+
+// compatK converts the compression parameter, held as a floating-point number.
+func compatK(k float64) (uint16, error) {
+	if !(k >= 0 && k <= math.MaxUint16) { // NaN too
+		return 0, ErrInvalidK
+	}
+	return uint16(k), nil
+}
-- 
2.43.0


From 66ae7730d9bbfb7c701e149440d7278013311f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:01 +0000
Subject: [PATCH 31/69] fix: t-digest decoders keep no extremes without values
 nor infinite ones

---
 tdigest/double.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tdigest/double.go b/tdigest/double.go
index 34c4b4f..1a1e3bc 100644
--- a/tdigest/double.go
+++ b/tdigest/double.go
@@ -146,6 +146,12 @@ func newDoubleFromInternalStates(
 	if k < 10 {
 		return nil, ErrInvalidK
 	}
+	if len(centroids) == 0 && len(buffer) == 0 {
+		return NewDouble(k)
+	}
+	if math.IsInf(min, 0) || math.IsInf(max, 0) {
+		return nil, ErrInfinity
+	}
 
 	fudge := 10
 	if k < 30 {
-- 
2.43.0


From 3e9b504a750cd8e73f0d2b6887519ba1732e71c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:27 +0000
Subject: [PATCH 32/69] fix: t-digest rank does not decrease before a lone
 outer centroid

---
 tdigest/double.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tdigest/double.go b/tdigest/double.go
index 1a1e3bc..bd9b9c5 100644
--- a/tdigest/double.go
+++ b/tdigest/double.go
@@ -293,7 +293,7 @@ func (d *Double) Rank(value float64) (float64, error) {
 	firstMean := d.centroids[0].mean
 	if value < firstMean {
 		if firstMean-d.min > 0 {
-			if value == d.min {
+			if value == d.min || d.centroids[0].weight == 1 {
 				return 0.5 / float64(d.centroidsWeight), nil
 			}
 			return (1.0 + (value-d.min)/(firstMean-d.min)*(float64(d.centroids[0].weight)/2.0-1.0)) / float64(d.centroidsWeight), nil
@@ -305,7 +305,7 @@ func (d *Double) Rank(value float64) (float64, error) {
 	lastMean := d.centroids[len(d.centroids)-1].mean
 	if value > lastMean {
 		if d.max-lastMean > 0 {
-			if value == d.max {
+			if value == d.max || d.centroids[len(d.centroids)-1].weight == 1 {
 				return 1.0 - 0.5/float64(d.centroidsWeight), nil
 			}
 			return 1.0 - ((1.0 + (d.max-value)/(d.max-lastMean)*(float64(d.centroids[len(d.centroids)-1].weight)/2.0-1.0)) / float64(d.centroidsWeight)), nil
-- 
2.43.0


From 7fff7adfd37c46d446c0a0274af7c22b72eea058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:14 +0000
Subject: [PATCH 33/69] fix: frequencies sketch emptied by a purge is not an
 empty sketch

---
 frequencies/items_sketch.go | 3 ++-
 frequencies/longs_sketch.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/frequencies/items_sketch.go b/frequencies/items_sketch.go
index ee2c9c0..c9a3468 100644
--- a/frequencies/items_sketch.go
+++ b/frequencies/items_sketch.go
@@ -325,7 +325,8 @@ func (i *ItemsSketch[C]) GetStreamLength() int64 {
 
 // IsEmpty returns true if this sketch is empty.
 func (i *ItemsSketch[C]) IsEmpty() bool {
-	return i.GetNumActiveItems() == 0
+	// A purge can remove every active item, the weight of the stream remains.
+	return i.streamWeight == 0
 }
 
 // Update this sketch with an item and a frequency count of one.
diff --git a/frequencies/longs_sketch.go b/frequencies/longs_sketch.go
index 7c0c924..9da3d5a 100644
--- a/frequencies/longs_sketch.go
+++ b/frequencies/longs_sketch.go
@@ -393,7 +393,8 @@ func (s *LongsSketch) GetStreamLength() int64 {
 
 // IsEmpty returns true if this sketch is empty
 func (s *LongsSketch) IsEmpty() bool {
-	return s.GetNumActiveItems() == 0
+	// A purge can remove every active item, the weight of the stream remains.
+	return s.streamWeight == 0
 }
 
 // Update this sketch with an item and a frequency count of one.
-- 
2.43.0


From 419de56c7b09808fa1e57d46548d8858ac64cae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:40 +0000
Subject: [PATCH 34/69] fix: frequencies items sketch below the smallest map
 size can purge

---
 frequencies/items_sketch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frequencies/items_sketch.go b/frequencies/items_sketch.go
index c9a3468..6d4c472 100644
--- a/frequencies/items_sketch.go
+++ b/frequencies/items_sketch.go
@@ -70,7 +70,7 @@ func NewFrequencyItemsSketch[C comparable](lgMaxMapSize int, lgCurMapSize int, h
 		return nil, err
 	}
 	curMapCap := hashMap.getCapacity()
-	maxMapCap := int(float64(uint64(1)<<lgMaxMapSize) * reversePurgeItemHashMapLoadFactor)
+	maxMapCap := int(float64(uint64(1)<<lgMaxMapSz) * reversePurgeItemHashMapLoadFactor)
 	offset := int64(0)
 	sampleSize := min(_SAMPLE_SIZE, maxMapCap)
 
-- 
2.43.0


From 9d043ca024734e03736e6299eec982392a2baadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:51 +0000
Subject: [PATCH 35/69] fix: frequencies sketches reject a starting map larger
 than the maximum

---
 frequencies/items_sketch.go | 3 +++
 frequencies/longs_sketch.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/frequencies/items_sketch.go b/frequencies/items_sketch.go
index 6d4c472..d696651 100644
--- a/frequencies/items_sketch.go
+++ b/frequencies/items_sketch.go
@@ -65,6 +65,9 @@ type ItemsSketch[C comparable] struct {
 func NewFrequencyItemsSketch[C comparable](lgMaxMapSize int, lgCurMapSize int, hasher common.ItemSketchHasher[C], serde common.ItemSketchSerde[C]) (*ItemsSketch[C], error) {
 	lgMaxMapSz := max(lgMaxMapSize, _LG_MIN_MAP_SIZE)
 	lgCurMapSz := max(lgCurMapSize, _LG_MIN_MAP_SIZE)
+	if lgCurMapSz > lgMaxMapSz {
+		return nil, fmt.Errorf("lgCurMapSize must not be greater than lgMaxMapSize %d: %d", lgMaxMapSz, lgCurMapSz)
+	}
 	hashMap, err := newReversePurgeItemHashMap[C](1<<lgCurMapSz, hasher, serde)
 	if err != nil {
 		return nil, err
diff --git a/frequencies/longs_sketch.go b/frequencies/longs_sketch.go
index 9da3d5a..4864da3 100644
--- a/frequencies/longs_sketch.go
+++ b/frequencies/longs_sketch.go
@@ -62,6 +62,9 @@ func NewLongsSketch(lgMaxMapSize int, lgCurMapSize int) (*LongsSketch, error) {
 	//set initial size of hash map
 	lgMaxMapSize = max(lgMaxMapSize, _LG_MIN_MAP_SIZE)
 	lgCurMapSize = max(lgCurMapSize, _LG_MIN_MAP_SIZE)
+	if lgCurMapSize > lgMaxMapSize {
+		return nil, fmt.Errorf("lgCurMapSize must not be greater than lgMaxMapSize %d: %d", lgMaxMapSize, lgCurMapSize)
+	}
 	hashMap, err := newReversePurgeLongHashMap(1 << lgCurMapSize)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From c121c5b01614315aea6f4dc03de9d9c29d049bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:39 +0000
Subject: [PATCH 36/69] fix: frequencies decoders reject preambles that do not
 fit the empty flag or the slice

---
 frequencies/items_sketch.go | 5 ++++-
 frequencies/longs_sketch.go | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/frequencies/items_sketch.go b/frequencies/items_sketch.go
index d696651..67bfd13 100644
--- a/frequencies/items_sketch.go
+++ b/frequencies/items_sketch.go
@@ -118,6 +118,9 @@ func NewFrequencyItemsSketchFromSlice[C comparable](slc []byte, hasher common.It
 	}
 
 	pre0, err := checkPreambleSize(slc) //make sure preamble will fit
+	if err != nil {
+		return nil, err
+	}
 	maxPreLongs := internal.FamilyEnum.Frequency.MaxPreLongs
 
 	preLongs := extractPreLongs(pre0)                     //Byte 0
@@ -140,7 +143,7 @@ func NewFrequencyItemsSketchFromSlice[C comparable](slc []byte, hasher common.It
 	if familyID != actFamID {
 		return nil, fmt.Errorf("possible corruption: familyID must be %d: %d", actFamID, familyID)
 	}
-	if empty && !preLongsEq1 { //Byte 5 and Byte 0
+	if empty != preLongsEq1 { //Byte 5 and Byte 0
 		return nil, fmt.Errorf("(preLongs == 1) ^ empty == true")
 	}
 	if empty {
diff --git a/frequencies/longs_sketch.go b/frequencies/longs_sketch.go
index 4864da3..beb3dd3 100644
--- a/frequencies/longs_sketch.go
+++ b/frequencies/longs_sketch.go
@@ -127,7 +127,7 @@ func NewLongsSketchFromSlice(slc []byte) (*LongsSketch, error) {
 	if familyID != actFamID {
 		return nil, fmt.Errorf("possible Corruption: FamilyID must be %d: %d", actFamID, familyID)
 	}
-	if empty && !preLongsEq1 {
+	if empty != preLongsEq1 {
 		return nil, fmt.Errorf("possible Corruption: Empty Flag set incorrectly: %t", preLongsEq1)
 	}
 	if empty {
-- 
2.43.0


From 2cc17c32a5190accaf740fd2cef36367b27147eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:51 +0000
Subject: [PATCH 37/69] fix: empty frequencies items sketch keeps its maximum
 map size

---
 frequencies/items_sketch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frequencies/items_sketch.go b/frequencies/items_sketch.go
index 67bfd13..55e762e 100644
--- a/frequencies/items_sketch.go
+++ b/frequencies/items_sketch.go
@@ -147,7 +147,7 @@ func NewFrequencyItemsSketchFromSlice[C comparable](slc []byte, hasher common.It
 		return nil, fmt.Errorf("(preLongs == 1) ^ empty == true")
 	}
 	if empty {
-		return NewFrequencyItemsSketchWithMaxMapSize[C](1<<_LG_MIN_MAP_SIZE, hasher, serde)
+		return NewFrequencyItemsSketch[C](lgMaxMapSize, _LG_MIN_MAP_SIZE, hasher, serde)
 	}
 	// Get full preamble
 	preArr := make([]int64, preLongs)
-- 
2.43.0


From 811d68101aae34f639d349f69ba1b3fc24c24e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:37 +0000
Subject: [PATCH 38/69] fix: frequencies decoders check sizes before they
 allocate

---
 frequencies/items_sketch.go                | 18 +++++++-------
 frequencies/longs_sketch.go                | 28 ++++++++++++++--------
 frequencies/preamble_utils.go              | 22 +++++++++++++++++
 frequencies/reverse_purge_long_hash_map.go |  5 ++--
 4 files changed, 52 insertions(+), 21 deletions(-)

diff --git a/frequencies/items_sketch.go b/frequencies/items_sketch.go
index 55e762e..09b69ac 100644
--- a/frequencies/items_sketch.go
+++ b/frequencies/items_sketch.go
@@ -155,22 +155,24 @@ func NewFrequencyItemsSketchFromSlice[C comparable](slc []byte, hasher common.It
 		preArr[j] = int64(binary.LittleEndian.Uint64(slc[j<<3:]))
 	}
 
-	fis, err := NewFrequencyItemsSketch[C](lgMaxMapSize, lgCurMapSize, hasher, serde)
+	preBytes := preLongs << 3
+	activeItems := extractActiveItems(preArr[1])
+	reqBytes := preBytes + activeItems*8 // count Arr only
+	if len(slc) < reqBytes {
+		return nil, fmt.Errorf("possible Corruption: Insufficient bytes in array: %d, %d", len(slc), reqBytes)
+	}
+	if err := checkMapSizes(lgMaxMapSize, lgCurMapSize); err != nil {
+		return nil, err
+	}
+	fis, err := NewFrequencyItemsSketch[C](lgMaxMapSize, restoredLgMapSize(lgCurMapSize, activeItems), hasher, serde)
 	if err != nil {
 		return nil, err
 	}
 	fis.streamWeight = 0 // update after
 	fis.offset = preArr[3]
 
-	preBytes := preLongs << 3
-	activeItems := extractActiveItems(preArr[1])
-
 	// Get countArray
 	countArray := make([]int64, activeItems)
-	reqBytes := preBytes + activeItems*8 // count Arr only
-	if len(slc) < reqBytes {
-		return nil, fmt.Errorf("possible Corruption: Insufficient bytes in array: %d, %d", len(slc), reqBytes)
-	}
 	for j := 0; j < activeItems; j++ {
 		countArray[j] = int64(binary.LittleEndian.Uint64(slc[preBytes+j<<3:]))
 	}
diff --git a/frequencies/longs_sketch.go b/frequencies/longs_sketch.go
index beb3dd3..d224b31 100644
--- a/frequencies/longs_sketch.go
+++ b/frequencies/longs_sketch.go
@@ -138,22 +138,24 @@ func NewLongsSketchFromSlice(slc []byte) (*LongsSketch, error) {
 	for i := 0; i < preLongs; i++ {
 		preArr[i] = int64(binary.LittleEndian.Uint64(slc[i<<3:]))
 	}
-	fls, err := NewLongsSketch(lgMaxMapSize, lgCurMapSize)
+	preBytes := preLongs << 3
+	activeItems := extractActiveItems(preArr[1])
+	reqBytes := preBytes + 2*activeItems*8 //count Arr + Items Arr
+	if len(slc) < reqBytes {
+		return nil, fmt.Errorf("possible Corruption: Insufficient bytes in array: %d, %d", len(slc), reqBytes)
+	}
+	if err := checkMapSizes(lgMaxMapSize, lgCurMapSize); err != nil {
+		return nil, err
+	}
+	fls, err := NewLongsSketch(lgMaxMapSize, restoredLgMapSize(lgCurMapSize, activeItems))
 	if err != nil {
 		return nil, err
 	}
 	fls.streamWeight = 0 //update after
 	fls.offset = preArr[3]
 
-	preBytes := preLongs << 3
-	activeItems := extractActiveItems(preArr[1])
-
 	// Get countArray
 	countArray := make([]int64, activeItems)
-	reqBytes := preBytes + 2*activeItems*8 //count Arr + Items Arr
-	if len(slc) < reqBytes {
-		return nil, fmt.Errorf("possible Corruption: Insufficient bytes in array: %d, %d", len(slc), reqBytes)
-	}
 	for i := 0; i < activeItems; i++ {
 		countArray[i] = int64(binary.LittleEndian.Uint64(slc[preBytes+(i<<3):]))
 	}
@@ -226,6 +228,9 @@ func NewLongsSketchFromString(str string) (*LongsSketch, error) {
 	if err != nil {
 		return nil, err
 	}
+	if !internal.IsPowerOf2(int(lgCurOrigin)) {
+		return nil, fmt.Errorf("possible Corruption: map length is not a power of 2: %d", lgCurOrigin)
+	}
 	lgCur := bits.TrailingZeros64(lgCurOrigin)
 
 	//checks
@@ -244,13 +249,16 @@ func NewLongsSketchFromString(str string) (*LongsSketch, error) {
 		return nil, fmt.Errorf("possible Corruption: Incorrect # of tokens: %d, numActive: %d", numTokens, numActive)
 	}
 	//    if ((2 * numActive) != (numTokens - STR_PREAMBLE_TOKENS - 2)) {
-	sk, err := NewLongsSketch(int(lgMax), int(lgCur))
+	if err := checkMapSizes(int(lgMax), lgCur); err != nil {
+		return nil, err
+	}
+	sk, err := NewLongsSketch(int(lgMax), restoredLgMapSize(lgCur, int(numActive)))
 	if err != nil {
 		return nil, err
 	}
 	sk.streamWeight = streamWt
 	sk.offset = offset
-	sk.hashMap, err = deserializeFromStringArray(tokens)
+	sk.hashMap, err = deserializeFromStringArray(tokens, len(sk.hashMap.keys))
 	if err != nil {
 		return nil, err
 	}
diff --git a/frequencies/preamble_utils.go b/frequencies/preamble_utils.go
index 3a2b0fd..e89255b 100644
--- a/frequencies/preamble_utils.go
+++ b/frequencies/preamble_utils.go
@@ -20,6 +20,7 @@ package frequencies
 import (
 	"encoding/binary"
 	"errors"
+	"fmt"
 )
 
 const (
@@ -38,8 +39,22 @@ const (
 	_EMPTY_FLAG_MASK = 5
 
 	_SER_VER = 1
+
+	// _LG_MAX_RESTORED_MAP_SIZE is the log2 of the largest map that is allocated on the word of a
+	// preamble alone. Larger maps are allocated as far as the active items need them.
+	_LG_MAX_RESTORED_MAP_SIZE = 16
 )
 
+// restoredLgMapSize returns the log2 of the map size that a sketch is restored with, given the
+// recorded lgCurMapSize and the number of active items. The map grows again as items arrive.
+func restoredLgMapSize(lgCurMapSize int, activeItems int) int {
+	lgSize := _LG_MAX_RESTORED_MAP_SIZE
+	for lgSize < lgCurMapSize && (3<<lgSize)>>2 < activeItems {
+		lgSize++
+	}
+	return min(lgSize, lgCurMapSize)
+}
+
 func checkPreambleSize(preamble []byte) (int64, error) {
 	if len(preamble) < 8 {
 		return 0, errors.New("preamble is too small")
@@ -53,6 +68,13 @@ func checkPreambleSize(preamble []byte) (int64, error) {
 	return pre0, nil
 }
 
+func checkMapSizes(lgMaxMapSize, lgCurMapSize int) error {
+	if max(lgCurMapSize, _LG_MIN_MAP_SIZE) > max(lgMaxMapSize, _LG_MIN_MAP_SIZE) {
+		return fmt.Errorf("possible corruption: lgCurMapSize %d is greater than lgMaxMapSize %d", lgCurMapSize, lgMaxMapSize)
+	}
+	return nil
+}
+
 func insertPreLongs(preLongs, pre0 int64) int64 {
 	mask := int64(0x3F)
 	return (preLongs & mask) | (^mask & pre0)
diff --git a/frequencies/reverse_purge_long_hash_map.go b/frequencies/reverse_purge_long_hash_map.go
index dbf18f8..2fc2edb 100644
--- a/frequencies/reverse_purge_long_hash_map.go
+++ b/frequencies/reverse_purge_long_hash_map.go
@@ -278,11 +278,10 @@ func deserializeReversePurgeLongHashMapFromString(string string) (*reversePurgeL
 	return table, nil
 }
 
-func deserializeFromStringArray(tokens []string) (*reversePurgeLongHashMap, error) {
+func deserializeFromStringArray(tokens []string, length int) (*reversePurgeLongHashMap, error) {
 	ignore := strPreambleTokens
 	numActive, _ := strconv.ParseUint(tokens[ignore], 10, 32)
-	length, _ := strconv.ParseUint(tokens[ignore+1], 10, 32)
-	hashMap, err := newReversePurgeLongHashMap(int(length))
+	hashMap, err := newReversePurgeLongHashMap(length)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 0932452d0c8496ddff961e4c9245619cacd765aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:49 +0000
Subject: [PATCH 39/69] fix: frequencies longs sketch restores negative items
 from its string form

---
 frequencies/reverse_purge_long_hash_map.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/frequencies/reverse_purge_long_hash_map.go b/frequencies/reverse_purge_long_hash_map.go
index 2fc2edb..f261aaa 100644
--- a/frequencies/reverse_purge_long_hash_map.go
+++ b/frequencies/reverse_purge_long_hash_map.go
@@ -287,15 +287,18 @@ func deserializeFromStringArray(tokens []string, length int) (*reversePurgeLongH
 	}
 	j := 2 + ignore
 	for i := 0; i < int(numActive); i++ {
-		key, err := strconv.ParseUint(tokens[j], 10, 64)
+		key, err := strconv.ParseInt(tokens[j], 10, 64)
 		if err != nil {
 			return nil, err
 		}
-		value, err := strconv.ParseUint(tokens[j+1], 10, 64)
+		value, err := strconv.ParseInt(tokens[j+1], 10, 64)
 		if err != nil {
 			return nil, err
 		}
-		err = hashMap.adjustOrPutValue(int64(key), int64(value))
+		if value < 0 {
+			return nil, fmt.Errorf("possible Corruption: count may not be negative: %d", value)
+		}
+		err = hashMap.adjustOrPutValue(key, value)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 4f0e1332eb85eb68e2b97dec465923d95b831c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:26 +0000
Subject: [PATCH 40/69] fix: count-min sketch rejects hash counts below one and
 sizes that overflow

---
 count/count_min_sketch.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/count/count_min_sketch.go b/count/count_min_sketch.go
index 30dd99d..410ad39 100644
--- a/count/count_min_sketch.go
+++ b/count/count_min_sketch.go
@@ -47,7 +47,11 @@ func NewCountMinSketch(numHashes int8, numBuckets int32, seed int64) (*CountMinS
 		return nil, errors.New("using fewer than 3 buckets incurs relative error greater than 1.0")
 	}
 
-	if numBuckets*int32(numHashes) >= 1<<30 {
+	if numHashes < 1 {
+		return nil, errors.New("at least one hash function is required")
+	}
+
+	if int64(numBuckets)*int64(numHashes) >= 1<<30 {
 		return nil, errors.New("these parameters generate a sketch that exceeds 2^30 elements")
 	}
 
-- 
2.43.0


From 9d6cb643915ff6581ed825d32669c43f79369d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:38 +0000
Subject: [PATCH 41/69] fix: suggested number of count-min hashes for full
 confidence is the largest

---
 count/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/count/utils.go b/count/utils.go
index da7c25c..08df106 100644
--- a/count/utils.go
+++ b/count/utils.go
@@ -33,7 +33,7 @@ func SuggestNumHashes(confidence float64) (int8, error) {
 	if confidence < 0 || confidence > 1.0 {
 		return 0, errors.New("confidence must be between 0 and 1.0 (inclusive)")
 	}
-	return min(int8(math.Ceil(math.Log(1.0/(1.0-confidence)))), int8(math.MaxInt8)), nil
+	return int8(min(math.Ceil(math.Log(1.0/(1.0-confidence))), math.MaxInt8)), nil
 }
 
 func checkHeaderValidity(preamble, serVer, familyID, flagsByte byte) error {
-- 
2.43.0


From 69356dc893f1e610565bfd769a58f28e075582d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:50 +0000
Subject: [PATCH 42/69] fix: count-min decoder checks header, seed hash and
 length

---
 count/count_min_sketch.go | 23 +++++++++++++++++------
 count/utils.go            | 14 +++++++++++++-
 2 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/count/count_min_sketch.go b/count/count_min_sketch.go
index 410ad39..c43d6dc 100644
--- a/count/count_min_sketch.go
+++ b/count/count_min_sketch.go
@@ -21,6 +21,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"errors"
+	"fmt"
 	"io"
 	"math"
 	"math/rand"
@@ -301,13 +302,13 @@ func (c *CountMinSketch) Deserialize(b []byte, seed int64) (*CountMinSketch, err
 		return nil, err
 	}
 
-	err = checkHeaderValidity(preamble, serVe, familyID, flag)
+	err = checkHeaderValidity(preamble, serVe, familyID)
 	if err != nil {
 		return nil, err
 	}
 
 	unused32 := make([]byte, 4)
-	_, err = r.Read(unused32)
+	_, err = io.ReadFull(r, unused32)
 	if err != nil {
 		return nil, err
 	}
@@ -336,12 +337,24 @@ func (c *CountMinSketch) Deserialize(b []byte, seed int64) (*CountMinSketch, err
 		return nil, err
 	}
 
-	cms, err := NewCountMinSketch(numHashes, numBuckets, seed)
+	expectedSeedHash, err := internal.ComputeSeedHash(seed)
 	if err != nil {
 		return nil, err
 	}
+	if seedHash != expectedSeedHash {
+		return nil, fmt.Errorf("seed hash mismatch: expected %d, found %d", expectedSeedHash, seedHash)
+	}
 
 	isEmpty := (flag & (1 << IsEmpty)) > 0
+	if !isEmpty && int64(r.Len()) < 8+8*int64(numBuckets)*int64(numHashes) {
+		return nil, io.ErrUnexpectedEOF
+	}
+
+	cms, err := NewCountMinSketch(numHashes, numBuckets, seed)
+	if err != nil {
+		return nil, err
+	}
+
 	if isEmpty {
 		return cms, nil
 	}
@@ -354,14 +367,12 @@ func (c *CountMinSketch) Deserialize(b []byte, seed int64) (*CountMinSketch, err
 	cms.totalWeight = totalWeight
 
 	var w int64
-	var i int
-	for r.Len() > 0 {
+	for i := range cms.sketchSlice {
 		err = binary.Read(r, binary.LittleEndian, &w)
 		if err != nil {
 			return nil, err
 		}
 		cms.sketchSlice[i] = w
-		i++
 	}
 
 	return cms, nil
diff --git a/count/utils.go b/count/utils.go
index 08df106..0d65a1c 100644
--- a/count/utils.go
+++ b/count/utils.go
@@ -19,7 +19,10 @@ package count
 
 import (
 	"errors"
+	"fmt"
 	"math"
+
+	"github.com/apache/datasketches-go/internal"
 )
 
 func SuggestNumBuckets(relativeError float64) (int32, error) {
@@ -36,7 +39,16 @@ func SuggestNumHashes(confidence float64) (int8, error) {
 	return int8(min(math.Ceil(math.Log(1.0/(1.0-confidence))), math.MaxInt8)), nil
 }
 
-func checkHeaderValidity(preamble, serVer, familyID, flagsByte byte) error {
+func checkHeaderValidity(preamble, serVer, familyID byte) error {
+	if preamble != PreambleLongsShort {
+		return fmt.Errorf("possible corruption: preamble longs must be %d: %d", PreambleLongsShort, preamble)
+	}
+	if serVer != SerialVersion1 {
+		return fmt.Errorf("possible corruption: serial version must be %d: %d", SerialVersion1, serVer)
+	}
+	if int(familyID) != internal.FamilyEnum.CountMinSketch.Id {
+		return fmt.Errorf("possible corruption: family must be %d: %d", internal.FamilyEnum.CountMinSketch.Id, familyID)
+	}
 	return nil
 }
 
-- 
2.43.0


From b2ea2fd337ba5006cd99a90fd7c4f10492019172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:24 +0000
Subject: [PATCH 43/69] fix: bloom filter with the largest number of hashes
 does not loop forever

---
 filters/bloom_filter.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/filters/bloom_filter.go b/filters/bloom_filter.go
index 78a21cd..9824d8d 100644
--- a/filters/bloom_filter.go
+++ b/filters/bloom_filter.go
@@ -202,8 +202,8 @@ func (bf *bloomFilterImpl) getHashIndex(h0, h1 uint64, i uint16) uint64 {
 
 // internalUpdate updates the filter with pre-computed hash values.
 func (bf *bloomFilterImpl) internalUpdate(h0, h1 uint64) {
-	for i := uint16(1); i <= bf.numHashes; i++ {
-		idx := bf.getHashIndex(h0, h1, i)
+	for i := uint16(0); i < bf.numHashes; i++ {
+		idx := bf.getHashIndex(h0, h1, i+1)
 		if !getBit(bf.bitArray, idx) {
 			setBit(bf.bitArray, idx)
 			bf.numBitsSet++
@@ -217,8 +217,8 @@ func (bf *bloomFilterImpl) internalQuery(h0, h1 uint64) bool {
 	if bf.IsEmpty() {
 		return false
 	}
-	for i := uint16(1); i <= bf.numHashes; i++ {
-		idx := bf.getHashIndex(h0, h1, i)
+	for i := uint16(0); i < bf.numHashes; i++ {
+		idx := bf.getHashIndex(h0, h1, i+1)
 		if !getBit(bf.bitArray, idx) {
 			return false
 		}
@@ -231,8 +231,8 @@ func (bf *bloomFilterImpl) internalQuery(h0, h1 uint64) bool {
 func (bf *bloomFilterImpl) internalQueryAndUpdate(h0, h1 uint64) bool {
 	valueExists := true
 	newBitsSet := uint64(0)
-	for i := uint16(1); i <= bf.numHashes; i++ {
-		idx := bf.getHashIndex(h0, h1, i)
+	for i := uint16(0); i < bf.numHashes; i++ {
+		idx := bf.getHashIndex(h0, h1, i+1)
 		wasSet := getAndSetBit(bf.bitArray, idx)
 		valueExists = valueExists && wasSet
 		if !wasSet {
-- 
2.43.0


From e0ec92d79dbae7f7fcb56472a06af7d8021eda40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:36 +0000
Subject: [PATCH 44/69] fix: bloom filter decoder checks sizes before it
 allocates and rejects an empty bit array

---
 filters/bloom_filter_builder.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/filters/bloom_filter_builder.go b/filters/bloom_filter_builder.go
index 9eb0374..6d0cc8a 100644
--- a/filters/bloom_filter_builder.go
+++ b/filters/bloom_filter_builder.go
@@ -220,6 +220,21 @@ func NewBloomFilterFromSlice(bytes []byte) (BloomFilter, error) {
 
 	// Calculate capacity
 	capacityBits := uint64(bitArrayLength) * 64
+	if bitArrayLength == 0 || capacityBits > maxBits {
+		return nil, fmt.Errorf("invalid bit array length: %d", bitArrayLength)
+	}
+
+	// Validate the size before allocating the bit array
+	if isEmpty {
+		if len(bytes) != preambleEmptyBytes {
+			return nil, fmt.Errorf("empty filter size mismatch: got %d bytes, expected %d", len(bytes), preambleEmptyBytes)
+		}
+	} else {
+		expectedSize := preambleBytes + int(bitArrayLength)*8
+		if len(bytes) != expectedSize {
+			return nil, fmt.Errorf("non-empty filter size mismatch: got %d bytes, expected %d", len(bytes), expectedSize)
+		}
+	}
 
 	// Create filter structure
 	bf := &bloomFilterImpl{
@@ -233,18 +248,9 @@ func NewBloomFilterFromSlice(bytes []byte) (BloomFilter, error) {
 
 	// Handle empty filter
 	if isEmpty {
-		if len(bytes) != preambleEmptyBytes {
-			return nil, fmt.Errorf("empty filter size mismatch: got %d bytes, expected %d", len(bytes), preambleEmptyBytes)
-		}
 		return bf, nil
 	}
 
-	// Handle non-empty filter
-	expectedSize := preambleBytes + int(bitArrayLength)*8
-	if len(bytes) != expectedSize {
-		return nil, fmt.Errorf("non-empty filter size mismatch: got %d bytes, expected %d", len(bytes), expectedSize)
-	}
-
 	// Extract num bits set
 	numBitsSet := extractNumBitsSet(bytes)
 	if numBitsSet == dirtyBitsValue {
-- 
2.43.0


From 116c97ece05cb11480dada31ba276763ad20cec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:47 +0000
Subject: [PATCH 45/69] fix: bloom filter decoder rejects a wrong count of set
 bits

---
 filters/bloom_filter_builder.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/filters/bloom_filter_builder.go b/filters/bloom_filter_builder.go
index 6d0cc8a..bb72448 100644
--- a/filters/bloom_filter_builder.go
+++ b/filters/bloom_filter_builder.go
@@ -266,11 +266,13 @@ func NewBloomFilterFromSlice(bytes []byte) (BloomFilter, error) {
 		bf.bitArray[i] = binary.LittleEndian.Uint64(bytes[offset:])
 	}
 
-	// Recount if dirty
-	if bf.isDirty {
-		bf.numBitsSet = countBitsSet(bf.bitArray)
-		bf.isDirty = false
+	// The recorded count must be the actual one, unless it is marked dirty
+	bitsSet := countBitsSet(bf.bitArray)
+	if !bf.isDirty && bf.numBitsSet != bitsSet {
+		return nil, fmt.Errorf("invalid number of bits set: %d (counted %d)", bf.numBitsSet, bitsSet)
 	}
+	bf.numBitsSet = bitsSet
+	bf.isDirty = false
 
 	return bf, nil
 }
-- 
2.43.0


From c364b42746973c29a6afbe2ad7d899cc6114a14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:02 +0000
Subject: [PATCH 46/69] fix: reservoir union with a maximum size below 2 is
 refused instead of panicking on update

---
 sampling/reservoir_items_union.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sampling/reservoir_items_union.go b/sampling/reservoir_items_union.go
index eb85ade..b3883b6 100644
--- a/sampling/reservoir_items_union.go
+++ b/sampling/reservoir_items_union.go
@@ -50,6 +50,10 @@ type ReservoirItemsUnion[T any] struct {
 
 // NewReservoirItemsUnion creates a new union with the specified maximum k.
 func NewReservoirItemsUnion[T any](maxK int) (*ReservoirItemsUnion[T], error) {
+	if maxK < minK {
+		return nil, errors.New("max k must be at least 2")
+	}
+
 	return &ReservoirItemsUnion[T]{
 		maxK:   maxK,
 		gadget: nil, // Start with nil gadget, will be initialized on first update
@@ -67,7 +71,11 @@ func (u *ReservoirItemsUnion[T]) Update(item T) error {
 	}
 
 	if u.gadget == nil {
-		u.gadget, _ = NewReservoirItemsSketch[T](u.maxK)
+		gadget, err := NewReservoirItemsSketch[T](u.maxK)
+		if err != nil {
+			return err
+		}
+		u.gadget = gadget
 	}
 
 	if err := u.gadget.Update(item); err != nil {
-- 
2.43.0


From 0cc8a352bf2691a38502dfe6e769dc9a312c5b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:14 +0000
Subject: [PATCH 47/69] fix: resetting a reservoir union restores its maximum
 size and does not panic before the first update

---
 sampling/reservoir_items_union.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/sampling/reservoir_items_union.go b/sampling/reservoir_items_union.go
index b3883b6..c544570 100644
--- a/sampling/reservoir_items_union.go
+++ b/sampling/reservoir_items_union.go
@@ -273,7 +273,17 @@ func (u *ReservoirItemsUnion[T]) MaxK() int {
 
 // Reset clears the union.
 func (u *ReservoirItemsUnion[T]) Reset() {
-	u.gadget.Reset()
+	if u.gadget == nil {
+		return
+	}
+
+	// start over with maxK, the gadget may have taken over the smaller k of an input sketch
+	gadget, err := NewReservoirItemsSketch[T](u.maxK)
+	if err != nil {
+		u.gadget = nil
+		return
+	}
+	u.gadget = gadget
 }
 
 // String returns a human-readable summary of the union.
-- 
2.43.0


From 97dca3cdd95b611c4aa2af1e80a1b751142516b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:13 +0000
Subject: [PATCH 48/69] fix: reservoir decoder and raw update check the number
 of items seen and the image length

---
 sampling/reservoir_items_sketch.go | 51 ++++++++++++++----------------
 1 file changed, 23 insertions(+), 28 deletions(-)

diff --git a/sampling/reservoir_items_sketch.go b/sampling/reservoir_items_sketch.go
index e9b3711..d34d11c 100644
--- a/sampling/reservoir_items_sketch.go
+++ b/sampling/reservoir_items_sketch.go
@@ -298,11 +298,10 @@ func (s *ReservoirItemsSketch[T]) insertValueAtPosition(item T, pos int) error {
 
 // forceIncrementItemsSeen adds delta to the items seen count.
 func (s *ReservoirItemsSketch[T]) forceIncrementItemsSeen(delta int64) error {
-	s.n += delta
-
-	if s.n > maxItemsSeen {
-		return fmt.Errorf("n (%d) exceeds maxItemsSeen (%d)", s.n, maxItemsSeen)
+	if s.n+delta > maxItemsSeen {
+		return fmt.Errorf("n (%d) exceeds maxItemsSeen (%d)", s.n+delta, maxItemsSeen)
 	}
+	s.n += delta
 	return nil
 }
 
@@ -435,9 +434,19 @@ func NewReservoirItemsSketchFromSlice[T any](data []byte, serde common.ItemSketc
 
 	flags := data[3]
 	isEmpty := (flags & flagEmpty) != 0
-	n := 0
+	if isEmpty != (preambleLong == preambleIntsEmpty) {
+		return nil, fmt.Errorf("possible corruption: sketch with empty flag %t and %d preamble longs", isEmpty, preambleLong)
+	}
+	n := int64(0)
 	if !isEmpty {
-		n = int(binary.LittleEndian.Uint64(data[8:]))
+		if len(data) < preambleLong*8 {
+			return nil, errors.New("data too short")
+		}
+		encN := binary.LittleEndian.Uint64(data[8:])
+		if encN == 0 || encN > maxItemsSeen {
+			return nil, fmt.Errorf("possible corruption: non-empty sketch with invalid n: %d", encN)
+		}
+		n = int64(encN)
 	}
 
 	k := int(binary.LittleEndian.Uint32(data[4:]))
@@ -460,33 +469,13 @@ func NewReservoirItemsSketchFromSlice[T any](data []byte, serde common.ItemSketc
 	}
 
 	preambleLongBytes := internal.FamilyEnum.ReservoirItems.MaxPreLongs * 8
-	capacity := k
-	if n < k {
-		ceilingLgK, _ := internal.ExactLog2(common.CeilingPowerOf2(k))
-		minLgSize, _ := internal.ExactLog2(common.CeilingPowerOf2(n))
-		initialLgSize := startingSubMultiple(ceilingLgK, int(rf), max(minLgSize, minLgArrItems))
-		capacity = adjustedSamplingAllocationSize(k, 1<<initialLgSize)
-	}
-
-	numSamples := min(n, k)
+	numSamples := int(min(n, int64(k)))
 	items, err := serde.DeserializeManyFromSlice(data, preambleLongBytes, numSamples)
 	if err != nil {
 		return nil, err
 	}
 
-	sketch, err := newReservoirItemsSketchFromStates(items, int64(n), rf, k)
-	if err != nil {
-		return nil, err
-	}
-
-	sketch.data = slices.Grow(sketch.data, capacity)
-
-	return &ReservoirItemsSketch[T]{
-		k:    k,
-		n:    int64(n),
-		rf:   rf,
-		data: items,
-	}, nil
+	return newReservoirItemsSketchFromStates(items, n, rf, k)
 }
 
 func newReservoirItemsSketchFromStates[T any](
@@ -498,6 +487,12 @@ func newReservoirItemsSketchFromStates[T any](
 	if k < len(items) {
 		return nil, fmt.Errorf("k must be at least as large as the number of items, got %d < %d", k, len(items))
 	}
+	if n < 0 || n > maxItemsSeen {
+		return nil, fmt.Errorf("invalid number of items seen: %d", n)
+	}
+	if n < int64(len(items)) {
+		return nil, fmt.Errorf("sketch with too many items. items seen: %d, current items count: %d", n, len(items))
+	}
 	if (n >= int64(k) && len(items) < k) || (n < int64(k) && int64(len(items)) < n) {
 		return nil, fmt.Errorf("sketch with too few items. items seen: %d, max size: %d, current items count: %d", n, k, len(items))
 	}
-- 
2.43.0


From 5fde0968e70ceeebbf5c73faa270f9d701ad479e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:45 +0000
Subject: [PATCH 49/69] fix: restored varopt sketch in estimation mode accepts
 updates again

---
 sampling/varopt_items_sketch_decoder.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/sampling/varopt_items_sketch_decoder.go b/sampling/varopt_items_sketch_decoder.go
index 242ff7a..ac46fdf 100644
--- a/sampling/varopt_items_sketch_decoder.go
+++ b/sampling/varopt_items_sketch_decoder.go
@@ -194,16 +194,12 @@ func DecodeVarOptItemsSketch[T any](buffer []byte, serde common.ItemSketchSerde[
 		copy(data[h+1:h+1+r], rData)
 	}
 
-	m := 0
-	if r > 0 {
-		m = 1
-	}
 	return &VarOptItemsSketch[T]{
 		data:         data,
 		weights:      weights,
 		k:            int(k),
 		h:            int(h),
-		m:            m,
+		m:            0, // the middle region is empty between updates
 		r:            int(r),
 		n:            int64(n),
 		totalWeightR: totalWeightR,
-- 
2.43.0


From 18085e42b9a3ecce599084e97278e4dd11c524bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:58 +0000
Subject: [PATCH 50/69] fix: varopt union result with a reduced k can be
 serialized

---
 sampling/varopt_items_sketch.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/sampling/varopt_items_sketch.go b/sampling/varopt_items_sketch.go
index c6a2860..ee059a8 100644
--- a/sampling/varopt_items_sketch.go
+++ b/sampling/varopt_items_sketch.go
@@ -901,8 +901,11 @@ func (s *VarOptItemsSketch[T]) decreaseKBy1() error {
 		s.h--
 		s.k--
 		s.n-- // will be re-incremented with the update
+		s.trimToSize()
 
-		s.update(pulledItem, pulledWeight, pulledMark)
+		if err := s.update(pulledItem, pulledWeight, pulledMark); err != nil {
+			return err
+		}
 	case s.h == 0 && s.r > 0:
 		// pure reservoir mode, so can simply eject a randomly chosen sample from the reservoir
 		if s.r < 2 {
@@ -916,8 +919,18 @@ func (s *VarOptItemsSketch[T]) decreaseKBy1() error {
 
 		s.k--
 		s.r--
+		s.trimToSize()
 	default:
 	}
 
 	return nil
 }
+
+// trimToSize drops the slots that are no longer used after k was reduced in estimation mode.
+func (s *VarOptItemsSketch[T]) trimToSize() {
+	s.data = s.data[:s.k+1]
+	s.weights = s.weights[:s.k+1]
+	if s.marks != nil {
+		s.marks = s.marks[:s.k+1]
+	}
+}
-- 
2.43.0


From 7184419a2d86ef96a2e264d17802822aa39371ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:10 +0000
Subject: [PATCH 51/69] fix: varopt union of heavy samples of equal threshold
 does not fail on rounding

---
 sampling/varopt_items_union.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampling/varopt_items_union.go b/sampling/varopt_items_union.go
index ab362f1..1388b1e 100644
--- a/sampling/varopt_items_union.go
+++ b/sampling/varopt_items_union.go
@@ -396,7 +396,7 @@ func (u *VarOptItemsUnion[T]) markMovingGadgetCoercer() (*VarOptItemsSketch[T],
 			resultK, resultH+resultR,
 		)
 	}
-	if math.Abs(transferredWeight-u.outerTauNumer) >= 1e-10 {
+	if math.Abs(transferredWeight-u.outerTauNumer) >= 1e-10*max(1, u.outerTauNumer) {
 		return nil, fmt.Errorf(
 			"invalid state after mark moving: expected transferredWeight=%g, outerTauNumer=%g",
 			transferredWeight, u.outerTauNumer,
-- 
2.43.0


From abf84af04126621bf4c3e0e17113fabd8f589387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:23 +0000
Subject: [PATCH 52/69] fix: varopt union result keeps no exact item lighter
 than its threshold

---
 sampling/varopt_items_union.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sampling/varopt_items_union.go b/sampling/varopt_items_union.go
index 1388b1e..fabea36 100644
--- a/sampling/varopt_items_union.go
+++ b/sampling/varopt_items_union.go
@@ -222,9 +222,10 @@ func (u *VarOptItemsUnion[T]) Result() (*VarOptItemsSketch[T], error) {
 		return u.migrateMarkedItemsByDecreasingK()
 	}
 
-	// explicitly enforce rule that items in H should not be lighter than the sketch's tau
+	// explicitly enforce rule that items in H should not be lighter than the sketch's tau,
+	// which is going to be outerTau as the gadget itself is not in estimation mode
 	for i := 0; i < u.gadget.h; i++ {
-		if u.gadget.weights[i] < u.gadget.tau() && !u.gadget.marks[i] {
+		if u.gadget.weights[i] < u.outerTau() && !u.gadget.marks[i] {
 			return u.migrateMarkedItemsByDecreasingK()
 		}
 	}
-- 
2.43.0


From cb337de7de0f4aed2a8f6bd995a849cffb5991e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:36 +0000
Subject: [PATCH 53/69] fix: varopt subset sum reports the total weight while
 the sketch is exact

---
 sampling/varopt_items_sketch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampling/varopt_items_sketch.go b/sampling/varopt_items_sketch.go
index ee059a8..6abb919 100644
--- a/sampling/varopt_items_sketch.go
+++ b/sampling/varopt_items_sketch.go
@@ -744,7 +744,7 @@ func (s *VarOptItemsSketch[T]) EstimateSubsetSum(predicate func(T) bool) (Sample
 			LowerBound:        trueWeightInH,
 			Estimate:          trueWeightInH,
 			UpperBound:        trueWeightInH,
-			TotalSketchWeight: trueWeightInH,
+			TotalSketchWeight: weightSumInH,
 		}, nil
 	}
 
-- 
2.43.0


From 236805ea3d3ee5bdc63c076890eeabda3113f087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:36 +0000
Subject: [PATCH 54/69] fix: varopt decoders check weights, counts and sizes
 before they allocate

---
 sampling/varopt_items_sketch_decoder.go | 64 ++++++++++++++++---------
 sampling/varopt_items_union_decoder.go  | 16 +++++++
 2 files changed, 57 insertions(+), 23 deletions(-)

diff --git a/sampling/varopt_items_sketch_decoder.go b/sampling/varopt_items_sketch_decoder.go
index ac46fdf..c0fc516 100644
--- a/sampling/varopt_items_sketch_decoder.go
+++ b/sampling/varopt_items_sketch_decoder.go
@@ -108,41 +108,36 @@ func DecodeVarOptItemsSketch[T any](buffer []byte, serde common.ItemSketchSerde[
 		totalWeightR = math.Float64frombits(binary.LittleEndian.Uint64(buffer[index:]))
 		index += 8
 
-		if math.IsNaN(totalWeightR) || r == 0 || totalWeightR <= 0 {
+		if math.IsNaN(totalWeightR) || math.IsInf(totalWeightR, 0) || r == 0 || totalWeightR <= 0 {
 			return nil, fmt.Errorf("data is corrupt in full mode: invalid R region weight: %f", totalWeightR)
 		}
 	}
 
-	sliceLen := int(allocSize)
-	if r == 0 {
-		sliceLen = int(h)
-	}
-
-	// read h weights, fill in rest of slice with -1.0
-	weights := make([]float64, sliceLen, allocSize)
+	// read h weights
 	if err := validateBuffer(buffer, index+int(h)*8); err != nil {
 		return nil, err
 	}
-	for i := 0; i < int(h); i++ {
+	hWeights := make([]float64, h)
+	for i := range hWeights {
 		w := math.Float64frombits(binary.LittleEndian.Uint64(buffer[index:]))
 		index += 8
 
 		if w <= 0 {
 			return nil, fmt.Errorf("non-positive weight: %f", w)
 		}
+		if math.IsNaN(w) || math.IsInf(w, 0) {
+			return nil, fmt.Errorf("non-finite weight: %f", w)
+		}
 
-		weights[i] = w
-	}
-	for i := h; i < uint32(len(weights)); i++ {
-		weights[i] = -1
+		hWeights[i] = w
 	}
 
 	var (
-		marks       []bool
+		hMarks      []bool
 		numMarksInH uint32
 	)
 	if isGadget {
-		marks = make([]bool, sliceLen, allocSize)
+		hMarks = make([]bool, h)
 		val := uint8(0)
 		for i := 0; i < int(h); i++ {
 			if (i & 0x7) == 0 {
@@ -154,15 +149,13 @@ func DecodeVarOptItemsSketch[T any](buffer []byte, serde common.ItemSketchSerde[
 				index++
 			}
 
-			marks[i] = (val>>(i&0x7))&0x1 == 1
-			if marks[i] {
+			hMarks[i] = (val>>(i&0x7))&0x1 == 1
+			if hMarks[i] {
 				numMarksInH++
 			}
 		}
 	}
 
-	data := make([]T, sliceLen, allocSize)
-
 	hBytes, err := serde.SizeOfMany(buffer, index, int(h))
 	if err != nil {
 		return nil, err
@@ -175,8 +168,8 @@ func DecodeVarOptItemsSketch[T any](buffer []byte, serde common.ItemSketchSerde[
 		return nil, err
 	}
 	index += hBytes
-	copy(data[:h], hRegionData)
 
+	var rData []T
 	if r > 0 {
 		rBytes, err := serde.SizeOfMany(buffer, index, int(r))
 		if err != nil {
@@ -185,13 +178,35 @@ func DecodeVarOptItemsSketch[T any](buffer []byte, serde common.ItemSketchSerde[
 		if err := validateBuffer(buffer, index+rBytes); err != nil {
 			return nil, err
 		}
-		rData, err := serde.DeserializeManyFromSlice(buffer, index, int(r))
+		rData, err = serde.DeserializeManyFromSlice(buffer, index, int(r))
 		if err != nil {
 			return nil, err
 		}
 		index += rBytes
+	}
+
+	// allocate the arrays only now that the contents are known to be there
+	sliceLen := int(allocSize)
+	if r == 0 {
+		sliceLen = int(h)
+	}
+	data := make([]T, sliceLen)
+	copy(data, hRegionData)
+	if r > 0 {
+		copy(data[h+1:], rData)
+	}
 
-		copy(data[h+1:h+1+r], rData)
+	// fill in rest of weights with -1.0
+	weights := make([]float64, sliceLen)
+	copy(weights, hWeights)
+	for i := int(h); i < len(weights); i++ {
+		weights[i] = -1
+	}
+
+	var marks []bool
+	if isGadget {
+		marks = make([]bool, sliceLen)
+		copy(marks, hMarks)
 	}
 
 	return &VarOptItemsSketch[T]{
@@ -234,6 +249,9 @@ func validateVarOptItemsSketchFamilyAndSerVer(familyID, serVer uint8) error {
 func computeVarOptItemsSketchDataSize(
 	preambleLongs uint8, k uint32, n uint64, h uint32, r uint32, rf ResizeFactor,
 ) (uint32, error) {
+	if n > math.MaxInt64 {
+		return 0, fmt.Errorf("invalid number of items seen: %d", n)
+	}
 	if k == 0 || k > varOptMaxK {
 		return 0, errors.New("k must be at least 1 and less than 2^31 - 1")
 	}
@@ -264,7 +282,7 @@ func computeVarOptItemsSketchDataSize(
 			return 0, fmt.Errorf("invalid preamble longs: expected full because n>k, got %d", preambleLongs)
 		}
 
-		if h+r != k {
+		if uint64(h)+uint64(r) != uint64(k) {
 			return 0, fmt.Errorf("invalid state in full mode: expected h+r==k, got h=%d, r=%d, k=%d", h, r, k)
 		}
 
diff --git a/sampling/varopt_items_union_decoder.go b/sampling/varopt_items_union_decoder.go
index 363081d..d061569 100644
--- a/sampling/varopt_items_union_decoder.go
+++ b/sampling/varopt_items_union_decoder.go
@@ -19,6 +19,7 @@ package sampling
 
 import (
 	"encoding/binary"
+	"errors"
 	"fmt"
 	"math"
 
@@ -65,6 +66,9 @@ func DecodeVarOptItemsUnion[T any](buffer []byte, serde common.ItemSketchSerde[T
 	}
 	isEmpty := (buffer[index] & varOptItemsUnionEmptyFlag) != 0
 	index++
+	if isEmpty != (preLongs == varOptItemsUnionEmptyPreLongs) {
+		return nil, fmt.Errorf("invalid preLongs: %d with empty flag %t", preLongs, isEmpty)
+	}
 
 	if err := validateBuffer(buffer, index+4); err != nil {
 		return nil, err
@@ -110,6 +114,18 @@ func DecodeVarOptItemsUnion[T any](buffer []byte, serde common.ItemSketchSerde[T
 	if err != nil {
 		return nil, err
 	}
+	if gadget.marks == nil {
+		return nil, errors.New("possible corruption: the sketch of a union must be a gadget")
+	}
+	if gadget.k != maxK {
+		return nil, fmt.Errorf("possible corruption: union of max k %d with a gadget of k %d", maxK, gadget.k)
+	}
+	if n < gadget.n {
+		return nil, fmt.Errorf("possible corruption: union of %d items with a gadget of %d", n, gadget.n)
+	}
+	if math.IsNaN(outerTauNumer) || math.IsInf(outerTauNumer, 0) || outerTauNumer < 0 || outerTauDenom > math.MaxInt64 {
+		return nil, fmt.Errorf("possible corruption: invalid outer tau %g / %d", outerTauNumer, outerTauDenom)
+	}
 
 	return &VarOptItemsUnion[T]{
 		gadget:        gadget,
-- 
2.43.0


From 184acef72921b515d9daa305139add557621c132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:23 +0000
Subject: [PATCH 55/69] fix: reservoir that starts from raw parts without items
 can grow

---
 sampling/reservoir_items_sketch.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sampling/reservoir_items_sketch.go b/sampling/reservoir_items_sketch.go
index d34d11c..09e0682 100644
--- a/sampling/reservoir_items_sketch.go
+++ b/sampling/reservoir_items_sketch.go
@@ -131,7 +131,8 @@ func (s *ReservoirItemsSketch[T]) Update(item T) error {
 }
 
 func (s *ReservoirItemsSketch[T]) growReservoir() {
-	adjustedSize := adjustedSamplingAllocationSize(s.k, cap(s.data)<<int(s.rf))
+	// a sketch built from raw parts may start without any storage
+	adjustedSize := adjustedSamplingAllocationSize(s.k, max(cap(s.data)<<int(s.rf), 1<<minLgArrItems))
 	s.data = slices.Grow(s.data, adjustedSize)
 }
 
-- 
2.43.0


From dc91061948ebba63a3dfdbaf37c04aa7abbd8e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:37 +0000
Subject: [PATCH 56/69] fix: varopt update does not fail when tau exceeds an
 equal weight by rounding

---
 sampling/varopt_items_sketch.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sampling/varopt_items_sketch.go b/sampling/varopt_items_sketch.go
index 6abb919..13d1dcf 100644
--- a/sampling/varopt_items_sketch.go
+++ b/sampling/varopt_items_sketch.go
@@ -74,6 +74,7 @@ const (
 	// VarOpt specific constants
 	varOptDefaultResizeFactor = ResizeX8
 	varOptMaxK                = (1 << 31) - 2 // maximum k value
+	varOptTauTolerance        = 1e-9          // relative rounding error allowed when comparing weights to tau
 )
 
 type VarOptOption func(*varOptConfig)
@@ -271,7 +272,8 @@ func (s *VarOptItemsSketch[T]) update(item T, weight float64, mark bool) error {
 			return err
 		}
 
-		if minWeight < s.tau() {
+		// tau is a rounded quotient: it may exceed an item of the same weight by a hair
+		if minWeight < s.tau()*(1-varOptTauTolerance) {
 			return errors.New("sketch not in valid estimation mode")
 		}
 	}
-- 
2.43.0


From 2e335d0a2a6814bb43ce63798c65be6a59bd9123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:17 +0000
Subject: [PATCH 57/69] fix: reservoir union refuses an input that exceeds its
 capacity before changing anything

---
 sampling/reservoir_items_union.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sampling/reservoir_items_union.go b/sampling/reservoir_items_union.go
index c544570..5565ef2 100644
--- a/sampling/reservoir_items_union.go
+++ b/sampling/reservoir_items_union.go
@@ -179,6 +179,11 @@ func (u *ReservoirItemsUnion[T]) createNewGadget(
 func (u *ReservoirItemsUnion[T]) twoWayMergeInternal(
 	source *ReservoirItemsSketch[T], isModifiable bool,
 ) error {
+	// refuse before anything is changed
+	if source.N() > maxItemsSeen-u.gadget.N() {
+		return ErrSketchExceedsMaxCapacity
+	}
+
 	if source.N() <= int64(source.K()) {
 		if err := u.twoWayMergeInternalStandard(source); err != nil {
 			return err
-- 
2.43.0


From f200c9defa415b43761775a6d8e633737e8817ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:22 +0000
Subject: [PATCH 58/69] fix: continue the coin pair of the merged REQ compactor

---
 req/compactor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/req/compactor.go b/req/compactor.go
index df789dd..fcb01e0 100644
--- a/req/compactor.go
+++ b/req/compactor.go
@@ -192,6 +192,10 @@ func (c *compactor) Merge(other *compactor) error {
 		return fmt.Errorf("compaction weights do not match. current: %d, other: %d", c.lgWeight, other.lgWeight)
 	}
 
+	if (c.state & 1) == 0 {
+		// an odd state flips the coin of the compaction before, which is the other's
+		c.coin = other.coin
+	}
 	c.state |= other.state
 	for c.ensureEnoughSections() {
 	}
-- 
2.43.0


From 14958f61c1363ac4811e24ed1aa157fb9ce3c354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:11 +0000
Subject: [PATCH 59/69] fix: search sorted items by the comparator's order
 alone

---
 internal/inequality_search.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/internal/inequality_search.go b/internal/inequality_search.go
index 885c3a9..09a7dd5 100644
--- a/internal/inequality_search.go
+++ b/internal/inequality_search.go
@@ -73,15 +73,15 @@ func resolve[C comparable](arr []C, lo int, hi int, v C, crit Inequality, compar
 	switch crit {
 	case InequalityLT:
 		if lo == hi {
-			if compareFn(v, arr[hi]) == false && v != arr[hi] {
+			if compareFn(arr[hi], v) {
 				result = lo
 			} else {
 				result = -1
 			}
 		} else {
-			if compareFn(v, arr[hi]) == false && v != arr[hi] {
+			if compareFn(arr[hi], v) {
 				result = hi
-			} else if compareFn(v, arr[lo]) == false && v != arr[lo] {
+			} else if compareFn(arr[lo], v) {
 				result = lo
 			} else {
 				result = -1
@@ -106,15 +106,15 @@ func resolve[C comparable](arr []C, lo int, hi int, v C, crit Inequality, compar
 
 	case InequalityGE:
 		if lo == hi {
-			if compareFn(v, arr[lo]) || v == arr[lo] {
+			if !compareFn(arr[lo], v) {
 				result = lo
 			} else {
 				result = -1
 			}
 		} else {
-			if compareFn(v, arr[lo]) || v == arr[lo] {
+			if !compareFn(arr[lo], v) {
 				result = lo
-			} else if compareFn(v, arr[hi]) || v == arr[hi] {
+			} else if !compareFn(arr[hi], v) {
 				result = hi
 			} else {
 				result = -1
@@ -147,7 +147,7 @@ func compare[C comparable](arr []C, a int, b int, v C, crit Inequality, compareF
 	result := 0
 	switch crit {
 	case InequalityLT, InequalityGE:
-		if compareFn(v, arr[a]) || arr[a] == v {
+		if !compareFn(arr[a], v) {
 			result = -1
 		} else if compareFn(arr[b], v) {
 			result = 1
@@ -157,7 +157,7 @@ func compare[C comparable](arr []C, a int, b int, v C, crit Inequality, compareF
 	case InequalityLE, InequalityGT:
 		if compareFn(v, arr[a]) {
 			result = -1
-		} else if compareFn(arr[b], v) || arr[b] == v {
+		} else if !compareFn(v, arr[b]) {
 			result = 1
 		} else {
 			result = 0
-- 
2.43.0


From a41a5e485508a5c238d37a083ed92600141619a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:03 +0000
Subject: [PATCH 60/69] fix: an empty union with sampling gives an empty result
 of theta one

---
 theta/union.go                | 2 +-
 tuple/arrayofnumbers_union.go | 2 +-
 tuple/union.go                | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/theta/union.go b/theta/union.go
index b501639..b150fe1 100644
--- a/theta/union.go
+++ b/theta/union.go
@@ -163,7 +163,7 @@ func (u *Union) Result(ordered bool) (*CompactSketch, error) {
 		if err != nil {
 			return nil, err
 		}
-		return newCompactSketchFromEntries(true, true, uint16(seedHash), u.theta, nil), nil
+		return newCompactSketchFromEntries(true, true, uint16(seedHash), MaxTheta, nil), nil
 	}
 
 	var entries []uint64
diff --git a/tuple/arrayofnumbers_union.go b/tuple/arrayofnumbers_union.go
index 16348a3..cd8c281 100644
--- a/tuple/arrayofnumbers_union.go
+++ b/tuple/arrayofnumbers_union.go
@@ -142,7 +142,7 @@ func (u *ArrayOfNumbersSketchUnion[V]) Result(ordered bool) (*ArrayOfNumbersComp
 		if err != nil {
 			return nil, err
 		}
-		return newArrayOfNumbersCompactSketch[V](true, true, uint16(seedHash), u.theta, nil, u.numValuesInSummary), nil
+		return newArrayOfNumbersCompactSketch[V](true, true, uint16(seedHash), theta.MaxTheta, nil, u.numValuesInSummary), nil
 	}
 
 	var entries []entry[*ArrayOfNumbersSummary[V]]
diff --git a/tuple/union.go b/tuple/union.go
index bbd7042..7030f68 100644
--- a/tuple/union.go
+++ b/tuple/union.go
@@ -234,7 +234,7 @@ func (u *Union[S]) Result(ordered bool) (*CompactSketch[S], error) {
 		if err != nil {
 			return nil, err
 		}
-		return newCompactSketch[S](true, true, uint16(seedHash), u.theta, nil), nil
+		return newCompactSketch[S](true, true, uint16(seedHash), theta.MaxTheta, nil), nil
 	}
 
 	var entries []entry[S]
-- 
2.43.0


From c43e9b9bb33de521666b1c19202b19e30f0d7c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:33 +0000
Subject: [PATCH 61/69] fix: size the lookup table of a theta and tuple
 difference for the load it is filled to, so large differences do not rehash
 it on every insert

---
 theta/a_not_b.go | 2 +-
 tuple/a_not_b.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/theta/a_not_b.go b/theta/a_not_b.go
index 1224f96..ce5f762 100644
--- a/theta/a_not_b.go
+++ b/theta/a_not_b.go
@@ -112,7 +112,7 @@ func computeSortBased(a, b Sketch, theta uint64) []uint64 {
 func computeHashBased(a, b Sketch, theta uint64) ([]uint64, error) {
 	lgSize := internal.LgSizeFromCount(b.NumRetained(), rebuildThreshold)
 
-	table := NewHashtable(lgSize, lgSize, ResizeX1, 1, 0, 0, false)
+	table := NewHashtable(lgSize, lgSize-1, ResizeX1, 1, 0, 0, false)
 
 	for entry := range b.All() {
 		if entry < theta {
diff --git a/tuple/a_not_b.go b/tuple/a_not_b.go
index 126dbb0..0157087 100644
--- a/tuple/a_not_b.go
+++ b/tuple/a_not_b.go
@@ -126,7 +126,7 @@ func computeSortBased[S Summary](a, b Sketch[S], theta uint64) []entry[S] {
 func computeHashBased[S Summary](a, b Sketch[S], thetaVal uint64) ([]entry[S], error) {
 	lgSize := internal.LgSizeFromCount(b.NumRetained(), rebuildThreshold)
 
-	table := theta.NewHashtable(lgSize, lgSize, theta.ResizeX1, 1, 0, 0, false)
+	table := theta.NewHashtable(lgSize, lgSize-1, theta.ResizeX1, 1, 0, 0, false)
 
 	for hash := range b.All() {
 		if hash < thetaVal {
@@ -261,7 +261,7 @@ func computeSortBasedTupleAThetaB[S Summary](a Sketch[S], b theta.Sketch, theta
 func computeHashBasedTupleAThetaB[S Summary](a Sketch[S], b theta.Sketch, thetaVal uint64) ([]entry[S], error) {
 	lgSize := internal.LgSizeFromCount(b.NumRetained(), rebuildThreshold)
 
-	table := theta.NewHashtable(lgSize, lgSize, theta.ResizeX1, 1, 0, 0, false)
+	table := theta.NewHashtable(lgSize, lgSize-1, theta.ResizeX1, 1, 0, 0, false)
 
 	for hash := range b.All() {
 		if hash < thetaVal {
-- 
2.43.0


From 87f7e136e71456ec16e54c2701351237c03c2571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:17 +0000
Subject: [PATCH 62/69] fix: check the seed hash of every non-empty array of
 numbers image, also when it retains no entries

---
 tuple/arrayofnumbers_sketch_decoder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tuple/arrayofnumbers_sketch_decoder.go b/tuple/arrayofnumbers_sketch_decoder.go
index e7e7702..e76555a 100644
--- a/tuple/arrayofnumbers_sketch_decoder.go
+++ b/tuple/arrayofnumbers_sketch_decoder.go
@@ -102,7 +102,8 @@ func (dec *ArrayOfNumbersSketchDecoder[V]) Decode(r io.Reader) (*ArrayOfNumbersC
 	}
 
 	hasEntries := (flags & (1 << arrayOfNumbersSketchFlagHasEntries)) != 0
-	if hasEntries {
+	isEmpty := (flags & (1 << arrayOfNumbersSketchFlagIsEmpty)) != 0
+	if hasEntries || !isEmpty {
 		expectedSeedHash, err := internal.ComputeSeedHash(int64(dec.seed))
 		if err != nil {
 			return nil, err
@@ -153,7 +154,6 @@ func (dec *ArrayOfNumbersSketchDecoder[V]) Decode(r io.Reader) (*ArrayOfNumbersC
 		}
 	}
 
-	isEmpty := (flags & (1 << arrayOfNumbersSketchFlagIsEmpty)) != 0
 	isOrdered := (flags & (1 << arrayOfNumbersSketchFlagIsOrdered)) != 0
 
 	return newArrayOfNumbersCompactSketch[V](
-- 
2.43.0


From a9c3817152d5377841ef599f1a142e368fd04c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:36 +0000
Subject: [PATCH 63/69] fix: theta maximum serialized size was truncated to 8
 bits

---
 theta/compact_sketch.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/theta/compact_sketch.go b/theta/compact_sketch.go
index 82959bc..979c83d 100644
--- a/theta/compact_sketch.go
+++ b/theta/compact_sketch.go
@@ -272,9 +272,9 @@ func (s *CompactSketch) preambleLongs(compressed bool) uint8 {
 
 // MaxSerializedSizeBytes computes maximum serialized size in bytes
 // lgK is the nominal number of entries in the sketch
-func (s *CompactSketch) MaxSerializedSizeBytes(lgK uint8) uint8 {
+func (s *CompactSketch) MaxSerializedSizeBytes(lgK uint8) int {
 	capacity := computeCapacity(lgK+1, lgK)
-	return uint8(8 * (3 + int(capacity)))
+	return 8 * (3 + int(capacity))
 }
 
 // SerializedSizeBytes computes the size in bytes required to serialize the current state of the sketch.
-- 
2.43.0


From a127e13c0e1fe3eff4d1894a509b85aaa7391349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:49 +0000
Subject: [PATCH 64/69] fix: sort the whole range when the CPC pair sort falls
 back from insertion sort

introspectiveInsertionSort gives up on insertion once it has moved too many
elements and sorts the range [l, r] instead, but it started at j, the place
the last element was inserted at, so everything before it was left as it was.
The compressor then met pairs out of order and refused to encode a valid
sketch (lowLevelCompressPairs: assertion failed).
---
 cpc/pair_table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpc/pair_table.go b/cpc/pair_table.go
index 8ef4220..ba44dd0 100644
--- a/cpc/pair_table.go
+++ b/cpc/pair_table.go
@@ -216,7 +216,7 @@ func introspectiveInsertionSort(a []int, l, r int) {
 			for m := 0; m < len(a); m++ {
 				b[m] = a[m] & 0xFFFF_FFFF
 			}
-			slices.Sort(b[j : r+1])
+			slices.Sort(b[l : r+1])
 			for m := 0; m < len(a); m++ {
 				a[m] = b[m]
 			}
-- 
2.43.0


From be39908264bb753d714d232ad8e36c78065586e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:01 +0000
Subject: [PATCH 65/69] fix: refuse NaN as a sampling probability

The range checks of the theta and tuple sketch and union options compare
p <= 0 || p > 1, which NaN passes; the sketch then started from a garbage
theta.
---
 theta/union.go                        | 2 +-
 theta/update_sketch.go                | 2 +-
 tuple/arrayofnumbers_union.go         | 2 +-
 tuple/arrayofnumbers_update_sketch.go | 2 +-
 tuple/union.go                        | 2 +-
 tuple/update_sketch.go                | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/theta/union.go b/theta/union.go
index b150fe1..c489f01 100644
--- a/theta/union.go
+++ b/theta/union.go
@@ -93,7 +93,7 @@ func NewUnion(opts ...UnionOptionFunc) (*Union, error) {
 	if options.lgK > MaxLgK {
 		return nil, fmt.Errorf("lg_k must not be greater than %d: %d", MaxLgK, options.lgK)
 	}
-	if options.p <= 0 || options.p > 1 {
+	if !(options.p > 0 && options.p <= 1) {
 		return nil, errors.New("sampling probability must be between 0 and 1")
 	}
 
diff --git a/theta/update_sketch.go b/theta/update_sketch.go
index 03a4028..99a856f 100644
--- a/theta/update_sketch.go
+++ b/theta/update_sketch.go
@@ -100,7 +100,7 @@ func NewQuickSelectUpdateSketch(opts ...UpdateSketchOptionFunc) (*QuickSelectUpd
 	if options.lgK > MaxLgK {
 		return nil, fmt.Errorf("lg_k must not be greater than %d: %d", MaxLgK, options.lgK)
 	}
-	if options.p <= 0 || options.p > 1 {
+	if !(options.p > 0 && options.p <= 1) {
 		return nil, errors.New("sampling probability must be between 0 and 1")
 	}
 
diff --git a/tuple/arrayofnumbers_union.go b/tuple/arrayofnumbers_union.go
index cd8c281..345311b 100644
--- a/tuple/arrayofnumbers_union.go
+++ b/tuple/arrayofnumbers_union.go
@@ -57,7 +57,7 @@ func NewArrayOfNumbersSketchUnion[V Number](
 	if options.lgK > theta.MaxLgK {
 		return nil, fmt.Errorf("lgK must not be greater than %d: %d", theta.MaxLgK, options.lgK)
 	}
-	if options.p <= 0 || options.p > 1 {
+	if !(options.p > 0 && options.p <= 1) {
 		return nil, errors.New("sampling probability must be between 0 and 1")
 	}
 
diff --git a/tuple/arrayofnumbers_update_sketch.go b/tuple/arrayofnumbers_update_sketch.go
index fc78657..8394091 100644
--- a/tuple/arrayofnumbers_update_sketch.go
+++ b/tuple/arrayofnumbers_update_sketch.go
@@ -56,7 +56,7 @@ func NewArrayOfNumbersUpdateSketch[V Number](
 	if options.lgK > theta.MaxLgK {
 		return nil, fmt.Errorf("lg_k must not be greater than %d: %d", theta.MaxLgK, options.lgK)
 	}
-	if options.p <= 0 || options.p > 1 {
+	if !(options.p > 0 && options.p <= 1) {
 		return nil, errors.New("sampling probability must be between 0 and 1")
 	}
 
diff --git a/tuple/union.go b/tuple/union.go
index 7030f68..3158338 100644
--- a/tuple/union.go
+++ b/tuple/union.go
@@ -51,7 +51,7 @@ func (o *unionOptions) Validate() error {
 	if o.lgK > theta.MaxLgK {
 		return fmt.Errorf("lgK must not be greater than %d: %d", theta.MaxLgK, o.lgK)
 	}
-	if o.p <= 0 || o.p > 1 {
+	if !(o.p > 0 && o.p <= 1) {
 		return errors.New("sampling probability must be between 0 and 1")
 	}
 
diff --git a/tuple/update_sketch.go b/tuple/update_sketch.go
index 5a70201..e17d91f 100644
--- a/tuple/update_sketch.go
+++ b/tuple/update_sketch.go
@@ -111,7 +111,7 @@ func NewUpdateSketch[S UpdatableSummary[V], V any](
 	if options.lgK > theta.MaxLgK {
 		return nil, fmt.Errorf("lg_k must not be greater than %d: %d", theta.MaxLgK, options.lgK)
 	}
-	if options.p <= 0 || options.p > 1 {
+	if !(options.p > 0 && options.p <= 1) {
 		return nil, errors.New("sampling probability must be between 0 and 1")
 	}
 
-- 
2.43.0


From cabfc06971de36017b705060fa0d2e85155a2579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:24 +0000
Subject: [PATCH 66/69] fix: refuse NaN as a Bloom filter's target false
 positive probability

---
 filters/bloom_filter_builder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filters/bloom_filter_builder.go b/filters/bloom_filter_builder.go
index bb72448..73455dc 100644
--- a/filters/bloom_filter_builder.go
+++ b/filters/bloom_filter_builder.go
@@ -105,7 +105,7 @@ func NewBloomFilterByAccuracy(maxDistinctItems uint64, targetFpp float64, opts .
 	if maxDistinctItems == 0 {
 		return nil, fmt.Errorf("maxDistinctItems must be positive")
 	}
-	if targetFpp <= 0.0 || targetFpp >= 1.0 {
+	if !(targetFpp > 0.0 && targetFpp < 1.0) {
 		return nil, fmt.Errorf("targetFpp must be between 0 and 1")
 	}
 
-- 
2.43.0


From 21ecc1483ac43b4f6ab47891fb559c67d880797f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:35 +0000
Subject: [PATCH 67/69] fix: refuse VarOpt union sizes that do not fit an int

NewVarOptItemsUnion converts the caller's uint to int before the range
check, which only excluded 0: sizes of 2^63 and more became negative, passed,
and either panicked in make or left a union of negative size.
---
 sampling/varopt_items_sketch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampling/varopt_items_sketch.go b/sampling/varopt_items_sketch.go
index 13d1dcf..7b4bb1a 100644
--- a/sampling/varopt_items_sketch.go
+++ b/sampling/varopt_items_sketch.go
@@ -128,7 +128,7 @@ func NewVarOptItemsSketch[T any](k uint, opts ...VarOptOption) (*VarOptItemsSket
 func newVarOptItemsSketchFromState[T any](
 	k int, rf ResizeFactor, isGadget bool,
 ) (*VarOptItemsSketch[T], error) {
-	if k == 0 || k > varOptMaxK {
+	if k <= 0 || k > varOptMaxK {
 		return nil, errors.New("k must be at least 1 and less than 2^31 - 1")
 	}
 
-- 
2.43.0


From 15317308a03d9344ddea6a8652643881735cbd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:45 +0000
Subject: [PATCH 68/69] fix: suggest count-min dimensions only where there are
 some

SuggestNumBuckets let NaN through, and turned relative errors below
e/(2^31-1) into a negative number of buckets; SuggestNumHashes let NaN
through.
---
 count/utils.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/count/utils.go b/count/utils.go
index 0d65a1c..6d237af 100644
--- a/count/utils.go
+++ b/count/utils.go
@@ -26,14 +26,18 @@ import (
 )
 
 func SuggestNumBuckets(relativeError float64) (int32, error) {
-	if relativeError <= 0 {
+	if !(relativeError > 0) {
 		return 0, errors.New("relative error must be greater than 0.0")
 	}
-	return int32(math.Ceil(math.Exp(1.0) / relativeError)), nil
+	numBuckets := math.Ceil(math.Exp(1.0) / relativeError)
+	if numBuckets > math.MaxInt32 {
+		return 0, errors.New("relative error is too small")
+	}
+	return int32(numBuckets), nil
 }
 
 func SuggestNumHashes(confidence float64) (int8, error) {
-	if confidence < 0 || confidence > 1.0 {
+	if !(confidence >= 0 && confidence <= 1.0) {
 		return 0, errors.New("confidence must be between 0 and 1.0 (inclusive)")
 	}
 	return int8(min(math.Ceil(math.Log(1.0/(1.0-confidence))), math.MaxInt8)), nil
-- 
2.43.0


From 485c88c8c978a4025b998504c1df17a486ac8b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:39 +0000
Subject: [PATCH 69/69] fix: return an error when a CPC image to be described
 is cut short

CpcSketchToString indexed the preamble of any slice it was given and panicked
when the announced streams were longer than the image, although it returns an
error.
---
 cpc/utils.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/cpc/utils.go b/cpc/utils.go
index fc63db8..fba5c75 100644
--- a/cpc/utils.go
+++ b/cpc/utils.go
@@ -851,6 +851,12 @@ func putFirst8(mem []byte, preInts, lgK, fiCol, flags byte, seedHash int16) erro
 func CpcSketchToString(mem []byte, detail bool) (string, error) {
 	LS := "\n"
 	capBytes := len(mem)
+	if err := checkCapacity(capBytes, 8); err != nil {
+		return "", err
+	}
+	if err := checkCapacity(capBytes, getDefinedPreInts(getFormat(mem))<<2); err != nil {
+		return "", err
+	}
 
 	// Low preamble fields (first 8 bytes)
 	preInts := int(mem[loFieldPreInts]) & 0xFF
@@ -1157,11 +1163,15 @@ func CpcSketchToString(mem []byte, detail bool) (string, error) {
 		sb.WriteString(LS + "### CPC SKETCH IMAGE - DATA" + LS)
 		if wLengthInts > 0 {
 			sb.WriteString(LS + "Window Stream:" + LS)
-			listData(mem, int(wStreamStart), int(wLengthInts), sb)
+			if err := listData(mem, int(wStreamStart), int(wLengthInts), sb); err != nil {
+				return "", err
+			}
 		}
 		if svLengthInts > 0 {
 			sb.WriteString(LS + "SV Stream:" + LS)
-			listData(mem, int(svStreamStart), int(svLengthInts), sb)
+			if err := listData(mem, int(svStreamStart), int(svLengthInts), sb); err != nil {
+				return "", err
+			}
 		}
 	}
 	sb.WriteString("### END CPC SKETCH IMAGE" + LS)
@@ -1191,11 +1201,11 @@ func characterPad(s string, fieldLength int, padChar rune, append bool) string {
 
 // listData reads lengthInts integers from mem starting at offsetBytes,
 // and appends each formatted value (using dataFmt) to the provided strings.Builder.
-func listData(mem []byte, offsetBytes, lengthInts int, sb *strings.Builder) {
+func listData(mem []byte, offsetBytes, lengthInts int, sb *strings.Builder) error {
 	memCap := len(mem)
 	expectedCap := offsetBytes + 4*lengthInts
 	if err := checkCapacity(memCap, expectedCap); err != nil {
-		panic(err)
+		return err
 	}
 	for i := 0; i < lengthInts; i++ {
 		start := offsetBytes + 4*i
@@ -1204,4 +1214,5 @@ func listData(mem []byte, offsetBytes, lengthInts int, sb *strings.Builder) {
 		sb.WriteString(fmt.Sprintf(dataFmt, i, value))
 		sb.WriteString("\n")
 	}
+	return nil
 }
-- 
2.43.0

