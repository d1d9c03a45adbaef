From 300316af32d4f00adbe758d8018140dac17cba14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:33 +0000
Subject: [PATCH 1/4] fix: keep the accelerated stream decoders inside the
 stream

When the last group is partial, ReadAllFast and ReadAllDeltaFast could load up
to 3 bytes beyond the end of a stream that holds exactly the encoded data.
---
 pkg/stream/reader/reader_amd64.go | 46 +++++++++++++++----------------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/pkg/stream/reader/reader_amd64.go b/pkg/stream/reader/reader_amd64.go
index eb03649..6b4868f 100644
--- a/pkg/stream/reader/reader_amd64.go
+++ b/pkg/stream/reader/reader_amd64.go
@@ -20,21 +20,20 @@ func ReadAllFast(count int, stream []byte, out []uint32) {
 		dataPos = (count + 3) / 4
 		ctrlLen = dataPos
 		// lowest32 is the limit for the count of integers we'll read in
-		// bulk 8 at a time directly from the input stream. We subtract 3
+		// bulk 8 at a time directly from the input stream. We subtract 4
 		// here since we load 16 bytes at a time in the assembly code. If
 		// you attempt to load the last few control bytes worth of data,
 		// it's possible there won't be enough bytes in the data stream to
 		// support it, which can lead to loading from uninitialized memory.
 		//
-		// [ _ _ _ _ | _ _ _ _ | _ _ _ _ | _ _ _ _ ]
-		//                    works fine --^ ^-- bad things here
+		// [ _ _ _ _ | _ _ _ _ | _ _ _ _ | _ _ _ _ | _ ]
+		//            works fine --^ ^-- bad things here
 		//
-		// Imagine the last group of 16 in the above array is all encoded with
-		// 4 bytes. Decoding the first 4 integers in that group will work fine,
-		// since it will load the last 3 (unused) bytes. However, when attempting
-		// to decode the last three groups of 4, each load will need an extra
-		// 1, 2, or 3 bytes (respectively) in order to be considered safe.
-		lowest32 = ((ctrlLen - 3) * 4) &^ 31
+		// A full group of 4 integers occupies at least 4 bytes, but the very
+		// last group may hold a single integer that takes a single byte. A load
+		// of 16 bytes for a group that occupies as little as 4 bytes needs 12
+		// more bytes to follow it, and only 3 full groups guarantee that many.
+		lowest32 = ((ctrlLen - 4) * 4) &^ 31
 	)
 
 	for ; decoded < lowest32; decoded += 32 {
@@ -86,9 +85,9 @@ func ReadAllFast(count int, stream []byte, out []uint32) {
 		ctrlPos += 8
 	}
 
-	// Must be strictly less than the last 4 blocks of integers, since we can't safely
-	// decode 8 if our ctrl pos starts at the first 4 in the block.
-	for ; ctrlPos < ctrlLen-4; ctrlPos += 2 {
+	// At least 3 full blocks of 4 integers must follow the 8 we decode here, and the
+	// last block may be a partial one, so we need 4 blocks after the current two.
+	for ; ctrlPos < ctrlLen-5; ctrlPos += 2 {
 		ctrl := uint16(stream[ctrlPos]) | uint16(stream[ctrlPos+1])<<8
 		decode.Get8uint32FastAsm(
 			stream[dataPos:],
@@ -130,21 +129,20 @@ func ReadAllDeltaFast(count int, stream []byte, out []uint32, prev uint32) {
 		dataPos = (count + 3) / 4
 		ctrlLen = dataPos
 		// lowest32 is the limit for the count of integers we'll read in
-		// bulk 8 at a time directly from the input stream. We subtract 3
+		// bulk 8 at a time directly from the input stream. We subtract 4
 		// here since we load 16 bytes at a time in the assembly code. If
 		// you attempt to load the last few control bytes worth of data,
 		// it's possible there won't be enough bytes in the data stream to
 		// support it, which can lead to loading from uninitialized memory.
 		//
-		// [ _ _ _ _ | _ _ _ _ | _ _ _ _ | _ _ _ _ ]
-		//                    works fine --^ ^-- bad things here
+		// [ _ _ _ _ | _ _ _ _ | _ _ _ _ | _ _ _ _ | _ ]
+		//            works fine --^ ^-- bad things here
 		//
-		// Imagine the last group of 16 in the above array is all encoded with
-		// 4 bytes. Decoding the first 4 integers in that group will work fine,
-		// since it will load the last 3 (unused) bytes. However, when attempting
-		// to decode the last three groups of 4, each load will need an extra
-		// 1, 2, or 3 bytes (respectively) in order to be considered safe.
-		lowest32 = ((ctrlLen - 3) * 4) &^ 31
+		// A full group of 4 integers occupies at least 4 bytes, but the very
+		// last group may hold a single integer that takes a single byte. A load
+		// of 16 bytes for a group that occupies as little as 4 bytes needs 12
+		// more bytes to follow it, and only 3 full groups guarantee that many.
+		lowest32 = ((ctrlLen - 4) * 4) &^ 31
 	)
 
 	for ; decoded < lowest32; decoded += 32 {
@@ -201,9 +199,9 @@ func ReadAllDeltaFast(count int, stream []byte, out []uint32, prev uint32) {
 		prev = nums[31]
 	}
 
-	// Must be strictly less than the last 4 blocks of integers, since we can't safely
-	// decode 8 if our ctrl pos starts at the first 4 in the block.
-	for ; ctrlPos < ctrlLen-4; ctrlPos += 2 {
+	// At least 3 full blocks of 4 integers must follow the 8 we decode here, and the
+	// last block may be a partial one, so we need 4 blocks after the current two.
+	for ; ctrlPos < ctrlLen-5; ctrlPos += 2 {
 		ctrl := uint16(stream[ctrlPos]) | uint16(stream[ctrlPos+1])<<8
 		decode.Get8uint32DeltaFastAsm(
 			stream[dataPos:],
-- 
2.43.0


From 8fc38e906726f6c36bacfdd6c5f392bf2f2ff132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:00 +0000
Subject: [PATCH 2/4] fix: make the portable build compile

On architectures other than amd64 the accelerated block decoders had another
signature than the code using them, and ReadAllDeltaFast and WriteAllDeltaFast
were missing.
---
 pkg/decode/decode_base.go        | 4 ++--
 pkg/stream/reader/reader_base.go | 4 ++++
 pkg/stream/writer/writer_base.go | 4 ++++
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkg/decode/decode_base.go b/pkg/decode/decode_base.go
index decaee5..ee83b9c 100644
--- a/pkg/decode/decode_base.go
+++ b/pkg/decode/decode_base.go
@@ -10,10 +10,10 @@ func GetMode() shared.PerformanceMode {
 	return shared.Normal
 }
 
-func Get8uint32Fast(in []byte, out []uint32, ctrl uint16) int {
+func Get8uint32Fast(in []byte, out []uint32, ctrl uint16) {
 	panic("unreachable")
 }
 
-func Get8uint32DeltaFast(in []byte, out []uint32, ctrl uint16, prev uint32) int {
+func Get8uint32DeltaFast(in []byte, out []uint32, ctrl uint16, prev uint32) {
 	panic("unreachable")
 }
diff --git a/pkg/stream/reader/reader_base.go b/pkg/stream/reader/reader_base.go
index 18a7b86..7a6cdf4 100644
--- a/pkg/stream/reader/reader_base.go
+++ b/pkg/stream/reader/reader_base.go
@@ -5,3 +5,7 @@ package reader
 func ReadAllFast(count int, stream []byte, out []uint32) {
 	panic("unreachable")
 }
+
+func ReadAllDeltaFast(count int, stream []byte, out []uint32, prev uint32) {
+	panic("unreachable")
+}
diff --git a/pkg/stream/writer/writer_base.go b/pkg/stream/writer/writer_base.go
index 6a54520..7e815f0 100644
--- a/pkg/stream/writer/writer_base.go
+++ b/pkg/stream/writer/writer_base.go
@@ -5,3 +5,7 @@ package writer
 func WriteAllFast(in []uint32) []byte {
 	panic("unreachable")
 }
+
+func WriteAllDeltaFast(in []uint32, prev uint32) []byte {
+	panic("unreachable")
+}
-- 
2.43.0


From a1f24b641b609f9abb8f1ce893fa8f0d449cecf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:10 +0000
Subject: [PATCH 3/4] fix: keep random test values within their byte length

The upper bounds passed to randUint32Range are inclusive, so each of the 1, 2
and 3 byte generators could return a value that needs one byte more.
---
 pkg/util/rand.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/util/rand.go b/pkg/util/rand.go
index 34ee6c8..4fa1f45 100644
--- a/pkg/util/rand.go
+++ b/pkg/util/rand.go
@@ -22,15 +22,15 @@ var (
 	generators = []generator{
 		// 1 byte,
 		func() uint32 {
-			return randUint32Range(0, 1<<8)
+			return randUint32Range(0, 1<<8-1)
 		},
 		// 2 byte,
 		func() uint32 {
-			return randUint32Range(1<<8, 1<<16)
+			return randUint32Range(1<<8, 1<<16-1)
 		},
 		// 3 byte,
 		func() uint32 {
-			return randUint32Range(1<<16, 1<<24)
+			return randUint32Range(1<<16, 1<<24-1)
 		},
 		// 4 byte,
 		func() uint32 {
-- 
2.43.0


From 257f7136f1619ff10d14270163e500583ca052d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:10 +0000
Subject: [PATCH 4/4] fix: find the end of the benchmark section after its
 start

The updater searched the whole README for the closing fence, so a code block
before the benchmark section made it duplicate everything from there on.
---
 tools/parse_and_write_bench.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tools/parse_and_write_bench.go b/tools/parse_and_write_bench.go
index 740771c..4c39796 100644
--- a/tools/parse_and_write_bench.go
+++ b/tools/parse_and_write_bench.go
@@ -99,7 +99,13 @@ func main() {
 		log.Fatalf("couldn't find start sentinel")
 	}
 
-	restStart := bytes.Index(allData, bEnd)
+	// the section ends at the first closing fence after its start
+	bodyStart := start + len(bStart)
+	restStart := bytes.Index(allData[bodyStart:], bEnd)
+	if restStart < 0 {
+		log.Fatalf("couldn't find end sentinel")
+	}
+	restStart += bodyStart
 
 	var final []byte
 	final = append(final, allData[:start]...)
-- 
2.43.0

