From 5752cb19c5b5bd888c622949dcabfb1b59cf8954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:49 +0000
Subject: [PATCH 1/3] fix: make the non-amd64 fallback build compile

The Fast stubs in decode returned an int that Get8Impl/Get8DeltaImpl do not,
and reader/writer lacked the Delta stubs that the portable dispatch refers to,
so no GOARCH but amd64 compiled.
---
 pkg/decode/decode_base.go        | 4 ++--
 pkg/stream/reader/reader_base.go | 4 ++++
 pkg/stream/writer/writer_base.go | 4 ++++
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkg/decode/decode_base.go b/pkg/decode/decode_base.go
index decaee5..ee83b9c 100644
--- a/pkg/decode/decode_base.go
+++ b/pkg/decode/decode_base.go
@@ -10,10 +10,10 @@ func GetMode() shared.PerformanceMode {
 	return shared.Normal
 }
 
-func Get8uint32Fast(in []byte, out []uint32, ctrl uint16) int {
+func Get8uint32Fast(in []byte, out []uint32, ctrl uint16) {
 	panic("unreachable")
 }
 
-func Get8uint32DeltaFast(in []byte, out []uint32, ctrl uint16, prev uint32) int {
+func Get8uint32DeltaFast(in []byte, out []uint32, ctrl uint16, prev uint32) {
 	panic("unreachable")
 }
diff --git a/pkg/stream/reader/reader_base.go b/pkg/stream/reader/reader_base.go
index 18a7b86..7a6cdf4 100644
--- a/pkg/stream/reader/reader_base.go
+++ b/pkg/stream/reader/reader_base.go
@@ -5,3 +5,7 @@ package reader
 func ReadAllFast(count int, stream []byte, out []uint32) {
 	panic("unreachable")
 }
+
+func ReadAllDeltaFast(count int, stream []byte, out []uint32, prev uint32) {
+	panic("unreachable")
+}
diff --git a/pkg/stream/writer/writer_base.go b/pkg/stream/writer/writer_base.go
index 6a54520..7e815f0 100644
--- a/pkg/stream/writer/writer_base.go
+++ b/pkg/stream/writer/writer_base.go
@@ -5,3 +5,7 @@ package writer
 func WriteAllFast(in []uint32) []byte {
 	panic("unreachable")
 }
+
+func WriteAllDeltaFast(in []uint32, prev uint32) []byte {
+	panic("unreachable")
+}
-- 
2.43.0


From d3c59a32a9337362a2cffd42a3f53808336feb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:02 +0000
Subject: [PATCH 2/3] fix: keep the fast readers inside the stream when the
 last group is partial

The bulk loops load 16 bytes per group and counted the trailing group among
those that pad the last load. When it is partial and the numbers around it are
small, up to 3 bytes past the end of the stream were read (e.g. 17 zeros).
---
 pkg/stream/reader/reader_amd64.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/pkg/stream/reader/reader_amd64.go b/pkg/stream/reader/reader_amd64.go
index eb03649..7d2f9c4 100644
--- a/pkg/stream/reader/reader_amd64.go
+++ b/pkg/stream/reader/reader_amd64.go
@@ -34,7 +34,12 @@ func ReadAllFast(count int, stream []byte, out []uint32) {
 		// since it will load the last 3 (unused) bytes. However, when attempting
 		// to decode the last three groups of 4, each load will need an extra
 		// 1, 2, or 3 bytes (respectively) in order to be considered safe.
-		lowest32 = ((ctrlLen - 3) * 4) &^ 31
+		//
+		// A trailing partial group may hold as little as 1 byte of data, so it
+		// doesn't count towards the 16 bytes that must follow: only the groups
+		// with all 4 integers do.
+		fullGroups = count / 4
+		lowest32   = ((fullGroups - 3) * 4) &^ 31
 	)
 
 	for ; decoded < lowest32; decoded += 32 {
@@ -86,9 +91,9 @@ func ReadAllFast(count int, stream []byte, out []uint32) {
 		ctrlPos += 8
 	}
 
-	// Must be strictly less than the last 4 blocks of integers, since we can't safely
-	// decode 8 if our ctrl pos starts at the first 4 in the block.
-	for ; ctrlPos < ctrlLen-4; ctrlPos += 2 {
+	// Must be strictly less than the last 4 full blocks of integers, since we can't
+	// safely decode 8 if our ctrl pos starts at the first 4 in the block.
+	for ; ctrlPos < fullGroups-4; ctrlPos += 2 {
 		ctrl := uint16(stream[ctrlPos]) | uint16(stream[ctrlPos+1])<<8
 		decode.Get8uint32FastAsm(
 			stream[dataPos:],
@@ -144,7 +149,12 @@ func ReadAllDeltaFast(count int, stream []byte, out []uint32, prev uint32) {
 		// since it will load the last 3 (unused) bytes. However, when attempting
 		// to decode the last three groups of 4, each load will need an extra
 		// 1, 2, or 3 bytes (respectively) in order to be considered safe.
-		lowest32 = ((ctrlLen - 3) * 4) &^ 31
+		//
+		// A trailing partial group may hold as little as 1 byte of data, so it
+		// doesn't count towards the 16 bytes that must follow: only the groups
+		// with all 4 integers do.
+		fullGroups = count / 4
+		lowest32   = ((fullGroups - 3) * 4) &^ 31
 	)
 
 	for ; decoded < lowest32; decoded += 32 {
@@ -201,9 +211,9 @@ func ReadAllDeltaFast(count int, stream []byte, out []uint32, prev uint32) {
 		prev = nums[31]
 	}
 
-	// Must be strictly less than the last 4 blocks of integers, since we can't safely
-	// decode 8 if our ctrl pos starts at the first 4 in the block.
-	for ; ctrlPos < ctrlLen-4; ctrlPos += 2 {
+	// Must be strictly less than the last 4 full blocks of integers, since we can't
+	// safely decode 8 if our ctrl pos starts at the first 4 in the block.
+	for ; ctrlPos < fullGroups-4; ctrlPos += 2 {
 		ctrl := uint16(stream[ctrlPos]) | uint16(stream[ctrlPos+1])<<8
 		decode.Get8uint32DeltaFastAsm(
 			stream[dataPos:],
-- 
2.43.0


From ca4de269621bba2987332ade1f678629be227766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:02 +0000
Subject: [PATCH 3/3] fix: search for the end of the benchmark block after its
 start

An earlier code block in the README made the rewrite splice at that block's
closing fence, duplicating everything between it and the benchmarks; a missing
fence crashed it.
---
 tools/parse_and_write_bench.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tools/parse_and_write_bench.go b/tools/parse_and_write_bench.go
index 740771c..959ba68 100644
--- a/tools/parse_and_write_bench.go
+++ b/tools/parse_and_write_bench.go
@@ -99,7 +99,13 @@ func main() {
 		log.Fatalf("couldn't find start sentinel")
 	}
 
-	restStart := bytes.Index(allData, bEnd)
+	// Only the fence that closes the benchmark block counts, not an earlier one.
+	bodyStart := start + len(bStart)
+	restStart := bytes.Index(allData[bodyStart:], bEnd)
+	if restStart < 0 {
+		log.Fatalf("couldn't find end sentinel")
+	}
+	restStart += bodyStart
 
 	var final []byte
 	final = append(final, allData[:start]...)
-- 
2.43.0

