From 8bc4eee4c56dd9350932364651751685a352e3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:05 +0000
Subject: [PATCH 01/39] fix: report a failed seek of the local file while
 patching

---
 patcher/sequential/sequential.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/patcher/sequential/sequential.go b/patcher/sequential/sequential.go
index b8a3018..46bce3b 100644
--- a/patcher/sequential/sequential.go
+++ b/patcher/sequential/sequential.go
@@ -57,7 +57,9 @@ func SequentialPatcher(
 			firstMatched := locallyAvailableBlocks[0]
 
 			// we have the current block range in the local file
-			localFile.Seek(firstMatched.MatchOffset, ABSOLUTE_POSITION)
+			if _, err := localFile.Seek(firstMatched.MatchOffset, ABSOLUTE_POSITION); err != nil {
+				return fmt.Errorf("Could not seek to %v in the local file: %v", firstMatched.MatchOffset, err)
+			}
 			blockSizeToRead := int64(firstMatched.EndBlock-firstMatched.StartBlock+1) * firstMatched.BlockSize
 
 			if _, err := io.Copy(output, io.LimitReader(localFile, blockSizeToRead)); err != nil {
-- 
2.43.0


From 663bb46584a6c0d491fc0a500a290392f18ef5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:05 +0000
Subject: [PATCH 02/39] fix: report a failed block request while patching

---
 patcher/sequential/sequential.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/patcher/sequential/sequential.go b/patcher/sequential/sequential.go
index 46bce3b..3c18fa9 100644
--- a/patcher/sequential/sequential.go
+++ b/patcher/sequential/sequential.go
@@ -71,7 +71,14 @@ func SequentialPatcher(
 
 		} else if withinFirstBlockOfRemoteBlocks(currentBlock, requiredRemoteBlocks) {
 			firstMissing := requiredRemoteBlocks[0]
-			reference.RequestBlocks(firstMissing)
+			if err := reference.RequestBlocks(firstMissing); err != nil {
+				return fmt.Errorf(
+					"Could not request blocks %v-%v: %v",
+					firstMissing.StartBlock,
+					firstMissing.EndBlock,
+					err,
+				)
+			}
 
 			select {
 			case result := <-reference.GetResultChannel():
-- 
2.43.0


From bf970406f285447364b461056d5042f5ca556ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:01 +0000
Subject: [PATCH 03/39] fix: report failed writes while generating checksums

---
 filechecksum/filechecksum.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/filechecksum/filechecksum.go b/filechecksum/filechecksum.go
index 4f69701..f5c7110 100644
--- a/filechecksum/filechecksum.go
+++ b/filechecksum/filechecksum.go
@@ -101,7 +101,9 @@ func (check *FileChecksumGenerator) GetStrongHash() hash.Hash {
 // Potentially speaking, this might be better producing a channel of blocks, which would remove the need for io from
 // a number of other places.
 func (check *FileChecksumGenerator) GenerateChecksums(inputFile io.Reader, output io.Writer) (fileChecksum []byte, err error) {
-	for chunkResult := range check.StartChecksumGeneration(inputFile, 64, nil) {
+	results := check.StartChecksumGeneration(inputFile, 64, nil)
+
+	for chunkResult := range results {
 		if chunkResult.Err != nil {
 			return nil, chunkResult.Err
 		} else if chunkResult.Filechecksum != nil {
@@ -109,8 +111,17 @@ func (check *FileChecksumGenerator) GenerateChecksums(inputFile io.Reader, outpu
 		}
 
 		for _, chunk := range chunkResult.Checksums {
-			output.Write(chunk.WeakChecksum)
-			output.Write(chunk.StrongChecksum)
+			if _, err = output.Write(chunk.WeakChecksum); err == nil {
+				_, err = output.Write(chunk.StrongChecksum)
+			}
+
+			if err != nil {
+				// let the generation finish, so that it is not left blocked
+				for range results {
+				}
+
+				return nil, err
+			}
 		}
 	}
 
-- 
2.43.0


From 2e2c4605712e2ca730c0c3f292442c7a092feecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:01 +0000
Subject: [PATCH 04/39] fix: report read errors while generating checksums

---
 filechecksum/filechecksum.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/filechecksum/filechecksum.go b/filechecksum/filechecksum.go
index f5c7110..f77d358 100644
--- a/filechecksum/filechecksum.go
+++ b/filechecksum/filechecksum.go
@@ -181,13 +181,20 @@ func (check *FileChecksumGenerator) generate(
 		n, err := io.ReadFull(inputFile, buffer)
 		section := buffer[:n]
 
+		if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
+			resultChan <- ChecksumResults{
+				Err: err,
+			}
+			return
+		}
+
 		if n == 0 {
 			break
 		}
 
 		// As hashes, the assumption is that they never error
-		// additionally, we assume that the only reason not
-		// to write a full block would be reaching the end of the file
+		// additionally, the only reason not to read a full block
+		// is having reached the end of the file
 		fullChecksum.Write(section)
 		check.WeakRollingHash.SetBlock(section)
 		strongHash.Write(section)
-- 
2.43.0


From d4f5b42f11f8d9891b21c47b5b8f8eb2ad97e74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:01 +0000
Subject: [PATCH 05/39] fix: report failed block compression while generating
 checksums

---
 filechecksum/filechecksum.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/filechecksum/filechecksum.go b/filechecksum/filechecksum.go
index f77d358..17e3a2d 100644
--- a/filechecksum/filechecksum.go
+++ b/filechecksum/filechecksum.go
@@ -208,7 +208,15 @@ func (check *FileChecksumGenerator) generate(
 		blockSize := int64(check.BlockSize)
 
 		if compressionFunction != nil {
-			blockSize, err = compressionFunction(section)
+			var compressionErr error
+			blockSize, compressionErr = compressionFunction(section)
+
+			if compressionErr != nil {
+				resultChan <- ChecksumResults{
+					Err: compressionErr,
+				}
+				return
+			}
 		}
 
 		results = append(
-- 
2.43.0


From c0e877793f2e8d1af0a563cf28b629e700acc16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:11 +0000
Subject: [PATCH 06/39] fix: do not panic when a second block request fails

---
 blocksources/blocksourcebase.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/blocksources/blocksourcebase.go b/blocksources/blocksourcebase.go
index 95e236a..a854403 100644
--- a/blocksources/blocksourcebase.go
+++ b/blocksources/blocksourcebase.go
@@ -205,7 +205,11 @@ func (s *BlockSourceBase) loop() {
 			inflightRequests -= 1
 
 			if result.err != nil {
-				pendingErrors.setError(result.err)
+				// only the first problem is reported, there might be nobody
+				// left to receive any other
+				if state == STATE_RUNNING {
+					pendingErrors.setError(result.err)
+				}
 				pendingResponse.clear()
 				state = STATE_EXITING
 				break
@@ -214,12 +218,14 @@ func (s *BlockSourceBase) loop() {
 			s.bytesRequested += int64(len(result.data))
 
 			if s.Verifier != nil && !s.Verifier.VerifyBlockRange(result.startBlockID, result.data) {
-				pendingErrors.setError(
-					fmt.Errorf(
-						"The returned block range (%v-%v) did not match the expected checksum for the blocks",
-						result.startBlockID, result.endBlockID,
-					),
-				)
+				if state == STATE_RUNNING {
+					pendingErrors.setError(
+						fmt.Errorf(
+							"The returned block range (%v-%v) did not match the expected checksum for the blocks",
+							result.startBlockID, result.endBlockID,
+						),
+					)
+				}
 				pendingResponse.clear()
 				state = STATE_EXITING
 				break
-- 
2.43.0


From 83b4081fbe7c46ef20570f0b363255dfc286b941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:11 +0000
Subject: [PATCH 07/39] fix: do not start queued requests after a failure or
 close of a block source

---
 blocksources/blocksourcebase.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blocksources/blocksourcebase.go b/blocksources/blocksourcebase.go
index a854403..0892a51 100644
--- a/blocksources/blocksourcebase.go
+++ b/blocksources/blocksourcebase.go
@@ -154,7 +154,7 @@ func (s *BlockSourceBase) loop() {
 	for state == STATE_RUNNING || inflightRequests > 0 || pendingErrors.Err() != nil {
 
 		// Start any pending work that we can
-		for inflightRequests < s.ConcurrentRequests && len(requestQueue) > 0 {
+		for state == STATE_RUNNING && inflightRequests < s.ConcurrentRequests && len(requestQueue) > 0 {
 			inflightRequests += 1
 
 			nextRequest := requestQueue[len(requestQueue)-1]
-- 
2.43.0


From 87e88be51f62bac6a1b96ff4a665801cb37978a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:11 +0000
Subject: [PATCH 08/39] fix: requests and closes around the end of a block
 source do not panic or race

---
 blocksources/blocksourcebase.go | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/blocksources/blocksourcebase.go b/blocksources/blocksourcebase.go
index 0892a51..d0a99d7 100644
--- a/blocksources/blocksourcebase.go
+++ b/blocksources/blocksourcebase.go
@@ -54,6 +54,7 @@ func NewBlockSourceBase(
 		errorChannel:        make(chan error),
 		responseChannel:     make(chan patcher.BlockReponse),
 		requestChannel:      make(chan patcher.MissingBlockSpan),
+		done:                make(chan struct{}),
 	}
 
 	go b.loop()
@@ -84,6 +85,9 @@ type BlockSourceBase struct {
 	responseChannel chan patcher.BlockReponse
 	requestChannel  chan patcher.MissingBlockSpan
 
+	// closed once the block source has quit
+	done chan struct{}
+
 	bytesRequested int64
 }
 
@@ -97,8 +101,12 @@ func (s *BlockSourceBase) ReadBytes() int64 {
 }
 
 func (s *BlockSourceBase) RequestBlocks(block patcher.MissingBlockSpan) error {
-	s.requestChannel <- block
-	return nil
+	select {
+	case s.requestChannel <- block:
+		return nil
+	case <-s.done:
+		return BlockSourceAlreadyClosedError
+	}
 }
 
 func (s *BlockSourceBase) GetResultChannel() <-chan patcher.BlockReponse {
@@ -113,16 +121,10 @@ func (s *BlockSourceBase) EncounteredError() <-chan error {
 var BlockSourceAlreadyClosedError = errors.New("Block source was already closed")
 
 func (s *BlockSourceBase) Close() (err error) {
-	// if it has already been closed, just recover
-	// however, let the caller know
-	defer func() {
-		if recover() != nil {
-			err = BlockSourceAlreadyClosedError
-		}
-	}()
-
-	if !s.hasQuit {
-		s.exitChannel <- true
+	select {
+	case s.exitChannel <- true:
+	case <-s.done:
+		// it has already quit, there is nothing left to close
 	}
 
 	return
@@ -131,9 +133,8 @@ func (s *BlockSourceBase) Close() (err error) {
 func (s *BlockSourceBase) loop() {
 	defer func() {
 		s.hasQuit = true
-		close(s.exitChannel)
+		close(s.done)
 		close(s.errorChannel)
-		close(s.requestChannel)
 		close(s.responseChannel)
 	}()
 
-- 
2.43.0


From 4f07cb6d6fe52b2ea4c5b1123671df0d3e93bc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:11 +0000
Subject: [PATCH 09/39] fix: read the byte count of a block source atomically

---
 blocksources/blocksourcebase.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/blocksources/blocksourcebase.go b/blocksources/blocksourcebase.go
index d0a99d7..7738be2 100644
--- a/blocksources/blocksourcebase.go
+++ b/blocksources/blocksourcebase.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"sort"
+	"sync/atomic"
 
 	"github.com/Redundancy/go-sync/patcher"
 )
@@ -68,6 +69,9 @@ func NewBlockSourceBase(
 // BlockSourceBase implements patcher.BlockSource, and if it's good enough,
 // perhaps nobody else ever will have to.
 type BlockSourceBase struct {
+	// accessed atomically, first in the struct for its alignment
+	bytesRequested int64
+
 	Requester           BlockSourceRequester
 	BlockSourceResolver BlockSourceOffsetResolver
 	Verifier            BlockVerifier
@@ -87,8 +91,6 @@ type BlockSourceBase struct {
 
 	// closed once the block source has quit
 	done chan struct{}
-
-	bytesRequested int64
 }
 
 const (
@@ -97,7 +99,7 @@ const (
 )
 
 func (s *BlockSourceBase) ReadBytes() int64 {
-	return s.bytesRequested
+	return atomic.LoadInt64(&s.bytesRequested)
 }
 
 func (s *BlockSourceBase) RequestBlocks(block patcher.MissingBlockSpan) error {
@@ -216,7 +218,7 @@ func (s *BlockSourceBase) loop() {
 				break
 			}
 
-			s.bytesRequested += int64(len(result.data))
+			atomic.AddInt64(&s.bytesRequested, int64(len(result.data)))
 
 			if s.Verifier != nil && !s.Verifier.VerifyBlockRange(result.startBlockID, result.data) {
 				if state == STATE_RUNNING {
-- 
2.43.0


From 30b93f82d697fa0699cdb534b17071b839701db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:11 +0000
Subject: [PATCH 10/39] fix: stop a comparison at a read error and report it

---
 comparer/comparer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/comparer/comparer.go b/comparer/comparer.go
index b793818..5dc8494 100644
--- a/comparer/comparer.go
+++ b/comparer/comparer.go
@@ -180,6 +180,10 @@ func (c *Comparer) startFindMatchingBlocks_int(
 			next = READ_NEXT_BYTE
 		}
 
+		if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
+			break
+		}
+
 		if uint(n) == generator.BlockSize {
 			generator.WeakRollingHash.SetBlock(block)
 			blockMemory.Write(block)
-- 
2.43.0


From eff019532b8a8095d56465305a171f28b92701c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:35 +0000
Subject: [PATCH 11/39] fix: do not read the next block over the memory of the
 current one while comparing

---
 comparer/comparer.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/comparer/comparer.go b/comparer/comparer.go
index 5dc8494..130b256 100644
--- a/comparer/comparer.go
+++ b/comparer/comparer.go
@@ -134,10 +134,8 @@ func (c *Comparer) startFindMatchingBlocks_int(
 		if weakMatchList := reference.FindWeakChecksum2(weaksum); weakMatchList != nil {
 			atomic.AddInt64(&c.WeakHashHits, 1)
 
-			block = blockMemory.GetBlock()
-
 			strong.Reset()
-			strong.Write(block)
+			strong.Write(blockMemory.GetBlock())
 			strongSum = strong.Sum(strongSum)
 			strongList := reference.FindStrongChecksum2(strongSum, weakMatchList)
 
-- 
2.43.0


From d56e3448f0d28baa7cc8369e64fb823a41f02d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:35 +0000
Subject: [PATCH 12/39] fix: use the byte that was read when comparing with a
 block size of one

---
 comparer/comparer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/comparer/comparer.go b/comparer/comparer.go
index 130b256..4a90561 100644
--- a/comparer/comparer.go
+++ b/comparer/comparer.go
@@ -183,8 +183,8 @@ func (c *Comparer) startFindMatchingBlocks_int(
 		}
 
 		if uint(n) == generator.BlockSize {
-			generator.WeakRollingHash.SetBlock(block)
-			blockMemory.Write(block)
+			generator.WeakRollingHash.SetBlock(readBytes)
+			blockMemory.Write(readBytes)
 			i += int64(n)
 		} else if n > 0 {
 			b_len := blockMemory.Len()
-- 
2.43.0


From c92cbe25cf6698750c84cf8045abcafebe1128b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:35 +0000
Subject: [PATCH 13/39] fix: write the remaining bytes after wrapping a
 circular buffer

---
 circularbuffer/noalloc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circularbuffer/noalloc.go b/circularbuffer/noalloc.go
index 0449739..6efa879 100644
--- a/circularbuffer/noalloc.go
+++ b/circularbuffer/noalloc.go
@@ -156,7 +156,7 @@ func (buff *doubleSizeBuffer) Write(by []byte) {
 
 		copy(
 			buff.buffer[buff.head:buff.head+writeThisTime], // to
-			by,
+			remaining,
 		)
 
 		buff.head += writeThisTime
-- 
2.43.0


From e12b889952fc4e3f97d8846e6787a5a8bb0ec746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:35 +0000
Subject: [PATCH 14/39] fix: verify the blocks after one without a known
 checksum

---
 filechecksum/verifier.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/filechecksum/verifier.go b/filechecksum/verifier.go
index 9d604a5..952e292 100644
--- a/filechecksum/verifier.go
+++ b/filechecksum/verifier.go
@@ -31,7 +31,8 @@ func (v *HashVerifier) VerifyBlockRange(startBlockID uint, data []byte) bool {
 		)
 
 		if expectedChecksum == nil {
-			return true
+			// nothing to compare this block with
+			continue
 		}
 
 		v.Hash.Write(blockData)
-- 
2.43.0


From 71f3d590fc66774e20b031d7535f70c986ea1147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:35 +0000
Subject: [PATCH 15/39] fix: a rejected block does not affect later
 verifications

---
 filechecksum/verifier.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/filechecksum/verifier.go b/filechecksum/verifier.go
index 952e292..b1b9ffa 100644
--- a/filechecksum/verifier.go
+++ b/filechecksum/verifier.go
@@ -35,14 +35,13 @@ func (v *HashVerifier) VerifyBlockRange(startBlockID uint, data []byte) bool {
 			continue
 		}
 
+		v.Hash.Reset()
 		v.Hash.Write(blockData)
 		hashedData := v.Hash.Sum(nil)
 
 		if bytes.Compare(expectedChecksum, hashedData) != 0 {
 			return false
 		}
-
-		v.Hash.Reset()
 	}
 
 	return true
-- 
2.43.0


From 6166a892aad83e2204b70857d29dc221b177b2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:03 +0000
Subject: [PATCH 16/39] fix: do not touch the hashes of a generator after its
 last result was sent

---
 filechecksum/filechecksum.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/filechecksum/filechecksum.go b/filechecksum/filechecksum.go
index 17e3a2d..ac74341 100644
--- a/filechecksum/filechecksum.go
+++ b/filechecksum/filechecksum.go
@@ -170,9 +170,14 @@ func (check *FileChecksumGenerator) generate(
 	fullChecksum.Reset()
 
 	// We reset the hashes when done do we can reuse the generator
-	defer check.WeakRollingHash.Reset()
-	defer strongHash.Reset()
-	defer fullChecksum.Reset()
+	// this has to happen before the last result is sent, after which
+	// the generator belongs to the receiver again
+	finish := func(last ChecksumResults) {
+		check.WeakRollingHash.Reset()
+		strongHash.Reset()
+		fullChecksum.Reset()
+		resultChan <- last
+	}
 
 	results := make([]chunks.ChunkChecksum, 0, blocksPerResult)
 
@@ -182,9 +187,9 @@ func (check *FileChecksumGenerator) generate(
 		section := buffer[:n]
 
 		if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
-			resultChan <- ChecksumResults{
+			finish(ChecksumResults{
 				Err: err,
-			}
+			})
 			return
 		}
 
@@ -212,9 +217,9 @@ func (check *FileChecksumGenerator) generate(
 			blockSize, compressionErr = compressionFunction(section)
 
 			if compressionErr != nil {
-				resultChan <- ChecksumResults{
+				finish(ChecksumResults{
 					Err: compressionErr,
-				}
+				})
 				return
 			}
 		}
@@ -255,9 +260,9 @@ func (check *FileChecksumGenerator) generate(
 		}
 	}
 
-	resultChan <- ChecksumResults{
+	finish(ChecksumResults{
 		Filechecksum: fullChecksum.Sum(nil),
-	}
+	})
 
 	return
 }
-- 
2.43.0


From fe9323fcc48b686317e598a683db3267fba44c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:03 +0000
Subject: [PATCH 17/39] fix: report a failed close of the files of the final
 copy

---
 rsync.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsync.go b/rsync.go
index 59db7c1..e4ab562 100644
--- a/rsync.go
+++ b/rsync.go
@@ -298,7 +298,7 @@ func (f *fileCopyCloser) Close() (err error) {
 
 	defer func() {
 		e := from.Close()
-		if err != nil {
+		if err == nil {
 			err = e
 		}
 	}()
@@ -311,7 +311,7 @@ func (f *fileCopyCloser) Close() (err error) {
 
 	defer func() {
 		e := to.Close()
-		if err != nil {
+		if err == nil {
 			err = e
 		}
 	}()
-- 
2.43.0


From 6fbf8458e28148c904a04bdf95da30bb234babe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:03 +0000
Subject: [PATCH 18/39] fix: return the error of creating a temporary file
 instead of crashing

---
 rsync.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rsync.go b/rsync.go
index e4ab562..bd846aa 100644
--- a/rsync.go
+++ b/rsync.go
@@ -220,6 +220,10 @@ func getOutFile(filename string) (f io.WriteCloser, err error) {
 
 func getTempFile() (f io.WriteCloser, filename string, err error) {
 	ft, err := ioutil.TempFile(".", "tmp_")
+	if err != nil {
+		return nil, "", err
+	}
+
 	filename = ft.Name()
 	f = ft
 	return
-- 
2.43.0


From ad88fddcf4d3e0ef1456f24a1bc27d52b01e8305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:04 +0000
Subject: [PATCH 19/39] fix: discard the previous content of the output file

---
 rsync.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsync.go b/rsync.go
index bd846aa..3f1817b 100644
--- a/rsync.go
+++ b/rsync.go
@@ -215,7 +215,7 @@ func getOutFile(filename string) (f io.WriteCloser, err error) {
 		return os.Create(filename)
 	}
 
-	return os.OpenFile(filename, os.O_WRONLY, 0)
+	return os.OpenFile(filename, os.O_WRONLY|os.O_TRUNC, 0)
 }
 
 func getTempFile() (f io.WriteCloser, filename string, err error) {
-- 
2.43.0


From d61d1e129689afb7e7bd41efd674129561bd8d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:04 +0000
Subject: [PATCH 20/39] fix: remove the temporary file after the final copy

---
 rsync.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rsync.go b/rsync.go
index 3f1817b..bdfdb2c 100644
--- a/rsync.go
+++ b/rsync.go
@@ -294,6 +294,13 @@ type fileCopyCloser struct {
 }
 
 func (f *fileCopyCloser) Close() (err error) {
+	defer func() {
+		// the temporary file is not needed once it was copied and closed
+		if err == nil {
+			err = os.Remove(f.from)
+		}
+	}()
+
 	from, err := os.OpenFile(f.from, os.O_RDONLY, 0)
 
 	if err != nil {
-- 
2.43.0


From 39c9e70275cc0f7293392cd64f4f501fb7377fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:04 +0000
Subject: [PATCH 21/39] fix: exit with a non-zero status when a command returns
 an error

---
 cmd/gosync/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/gosync/main.go b/cmd/gosync/main.go
index 4ff5578..c7aa6f6 100644
--- a/cmd/gosync/main.go
+++ b/cmd/gosync/main.go
@@ -61,5 +61,8 @@ func main() {
 		return nil
 	}
 
-	app.Run(os.Args)
+	if err := app.Run(os.Args); err != nil {
+		fmt.Fprintln(os.Stderr, err)
+		os.Exit(1)
+	}
 }
-- 
2.43.0


From 0a3c29cd93a3f81704be8cd24f0995f82123757e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:04 +0000
Subject: [PATCH 22/39] fix: do not patch with an index that could not be read

---
 cmd/gosync/patch.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/gosync/patch.go b/cmd/gosync/patch.go
index 448e689..a733d11 100644
--- a/cmd/gosync/patch.go
+++ b/cmd/gosync/patch.go
@@ -69,11 +69,17 @@ func Patch(c *cli.Context) error {
 			magicString,
 			majorVersion,
 		)
+		if e != nil {
+			return e
+		}
 
 		index, checksumLookup, blockCount, err := readIndex(
 			indexReader,
 			uint(blocksize),
 		)
+		if err != nil {
+			return err
+		}
 
 		fs := &gosync_main.BasicSummary{
 			ChecksumIndex:  index,
-- 
2.43.0


From 58befea1de863eaf08ef09899ffe368b9f55ee4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:04 +0000
Subject: [PATCH 23/39] fix: fail a build if the input cannot be examined or
 the index not closed

---
 cmd/gosync/build.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/cmd/gosync/build.go b/cmd/gosync/build.go
index 9051435..b147dfb 100644
--- a/cmd/gosync/build.go
+++ b/cmd/gosync/build.go
@@ -46,8 +46,12 @@ func Build(c *cli.Context) error {
 		os.Exit(1)
 	}
 
-	s, _ := inputFile.Stat()
-	// TODO: Error?
+	s, err := inputFile.Stat()
+	if err != nil {
+		handleFileError(filename, err)
+		os.Exit(1)
+	}
+
 	file_size := s.Size()
 
 	defer inputFile.Close()
@@ -61,8 +65,6 @@ func Build(c *cli.Context) error {
 		os.Exit(1)
 	}
 
-	defer outputFile.Close()
-
 	if err = writeHeaders(
 		outputFile,
 		magicString,
@@ -83,6 +85,10 @@ func Build(c *cli.Context) error {
 	_, err = generator.GenerateChecksums(inputFile, outputFile)
 	end := time.Now()
 
+	if e := outputFile.Close(); err == nil {
+		err = e
+	}
+
 	if err != nil {
 		fmt.Fprintf(
 			os.Stderr,
-- 
2.43.0


From a5cea4be7a8c5d6a7a5229098d76a2139338fc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:04 +0000
Subject: [PATCH 24/39] fix: the sections searched by diff overlap and cover
 the whole file

---
 cmd/gosync/common.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/cmd/gosync/common.go b/cmd/gosync/common.go
index 8203952..53fb9cc 100644
--- a/cmd/gosync/common.go
+++ b/cmd/gosync/common.go
@@ -254,12 +254,8 @@ func multithreadedMatching(
 		offset := sectionSize * i
 
 		// Sections must overlap by blocksize (strictly blocksize - 1?)
-		if i > 0 {
-			offset -= int64(blocksize)
-		}
-
 		sectionReader := bufio.NewReaderSize(
-			io.NewSectionReader(localFile, offset, sectionSize),
+			io.NewSectionReader(localFile, offset, sectionSize+int64(blocksize)),
 			MB,
 		)
 
-- 
2.43.0


From eb0595baece23e1366f2c8a7a89d242de8d379ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:31 +0000
Subject: [PATCH 25/39] fix: close the input file when the output cannot be
 opened

---
 rsync.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsync.go b/rsync.go
index bdfdb2c..a7a9781 100644
--- a/rsync.go
+++ b/rsync.go
@@ -116,6 +116,7 @@ func MakeRSync(
 		out, outFilename, err = getTempFile()
 
 		if err != nil {
+			inputFile.Close()
 			return
 		}
 
@@ -127,6 +128,7 @@ func MakeRSync(
 		out, err = getOutFile(OutFile)
 
 		if err != nil {
+			inputFile.Close()
 			return
 		}
 
-- 
2.43.0


From 04769e3b99b92c69a428018d4b02753014952e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:31 +0000
Subject: [PATCH 26/39] fix: closing a session closes its block source, and
 everything else after a failure

---
 rsync.go | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/rsync.go b/rsync.go
index a7a9781..606960b 100644
--- a/rsync.go
+++ b/rsync.go
@@ -110,7 +110,7 @@ func MakeRSync(
 
 	var out io.WriteCloser
 	var outFilename = OutFile
-	var copier closer
+	var outCloser closer
 
 	if useTempFile {
 		out, outFilename, err = getTempFile()
@@ -120,7 +120,8 @@ func MakeRSync(
 			return
 		}
 
-		copier = &fileCopyCloser{
+		outCloser = &fileCopyCloser{
+			temp: &fileCloser{out, outFilename},
 			from: outFilename,
 			to:   OutFile,
 		}
@@ -132,7 +133,7 @@ func MakeRSync(
 			return
 		}
 
-		copier = nullCloser{}
+		outCloser = &fileCloser{out, outFilename}
 	}
 
 	// blocksource
@@ -160,9 +161,9 @@ func MakeRSync(
 		Source:  source,
 		Summary: Summary,
 		OnClose: []closer{
+			source,
 			&fileCloser{inputFile, InputFile},
-			&fileCloser{out, outFilename},
-			copier,
+			outCloser,
 		},
 	}
 
@@ -257,13 +258,14 @@ func IsSameFile(path1, path2 string) (same bool, err error) {
 
 // Close - close open files, copy to the final location from
 // a temporary one if neede
-func (rsync *RSync) Close() error {
+// everything is closed, the first problem is reported
+func (rsync *RSync) Close() (err error) {
 	for _, f := range rsync.OnClose {
-		if err := f.Close(); err != nil {
-			return err
+		if e := f.Close(); e != nil && err == nil {
+			err = e
 		}
 	}
-	return nil
+	return err
 }
 
 type fileCloser struct {
@@ -284,13 +286,9 @@ func (f *fileCloser) Close() error {
 	return nil
 }
 
-type nullCloser struct{}
-
-func (n nullCloser) Close() error {
-	return nil
-}
-
+// closes a temporary file, and then copies it to its final location
 type fileCopyCloser struct {
+	temp closer
 	from string
 	to   string
 }
@@ -303,6 +301,10 @@ func (f *fileCopyCloser) Close() (err error) {
 		}
 	}()
 
+	if err = f.temp.Close(); err != nil {
+		return err
+	}
+
 	from, err := os.OpenFile(f.from, os.O_RDONLY, 0)
 
 	if err != nil {
-- 
2.43.0


From 74b960c82c867252d6bd9f5ec5f4b3a415288a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:52 +0000
Subject: [PATCH 27/39] fix: closing a session whose in-place patch failed does
 not overwrite the original

---
 rsync.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/rsync.go b/rsync.go
index 606960b..a8f228f 100644
--- a/rsync.go
+++ b/rsync.go
@@ -48,6 +48,9 @@ type RSync struct {
 	Summary FileSummary
 
 	OnClose []closer
+
+	// Patch returned an error, the output is not complete
+	patchFailed bool
 }
 
 type closer interface {
@@ -172,6 +175,10 @@ func MakeRSync(
 
 // Patch the files
 func (rsync *RSync) Patch() (err error) {
+	defer func() {
+		rsync.patchFailed = err != nil
+	}()
+
 	numMatchers := int64(DefaultConcurrency)
 	blockSize := rsync.Summary.GetBlockSize()
 	sectionSize := rsync.Summary.GetFileSize() / numMatchers
@@ -261,6 +268,10 @@ func IsSameFile(path1, path2 string) (same bool, err error) {
 // everything is closed, the first problem is reported
 func (rsync *RSync) Close() (err error) {
 	for _, f := range rsync.OnClose {
+		if c, ok := f.(*fileCopyCloser); ok && rsync.patchFailed {
+			c.discard = true
+		}
+
 		if e := f.Close(); e != nil && err == nil {
 			err = e
 		}
@@ -291,6 +302,9 @@ type fileCopyCloser struct {
 	temp closer
 	from string
 	to   string
+
+	// do not copy an incomplete file
+	discard bool
 }
 
 func (f *fileCopyCloser) Close() (err error) {
@@ -301,7 +315,7 @@ func (f *fileCopyCloser) Close() (err error) {
 		}
 	}()
 
-	if err = f.temp.Close(); err != nil {
+	if err = f.temp.Close(); err != nil || f.discard {
 		return err
 	}
 
-- 
2.43.0


From a1de64f61459ef160bc3d3cdca95cf766de3e33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:53 +0000
Subject: [PATCH 28/39] fix: close the session of a failed patch, to remove its
 temporary file

---
 cmd/gosync/patch.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cmd/gosync/patch.go b/cmd/gosync/patch.go
index a733d11..c010a28 100644
--- a/cmd/gosync/patch.go
+++ b/cmd/gosync/patch.go
@@ -102,11 +102,12 @@ func Patch(c *cli.Context) error {
 
 		err = rsync.Patch()
 
-		if err != nil {
-			return err
+		// also after a failure, to clean up
+		if e := rsync.Close(); err == nil {
+			err = e
 		}
 
-		return rsync.Close()
+		return err
 	})
 	return nil
 }
-- 
2.43.0


From 52669f06710137eda459511274c50af408a187f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:51 +0000
Subject: [PATCH 29/39] fix: a response waiting for a lower request was lost

With a response pending, starting a request for a lower block made the
send of the pending response drop the entry of the lower request, so its
response was never delivered and the source hung.
---
 blocksources/blocksourcebase.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/blocksources/blocksourcebase.go b/blocksources/blocksourcebase.go
index 7738be2..c2fd851 100644
--- a/blocksources/blocksourcebase.go
+++ b/blocksources/blocksourcebase.go
@@ -164,6 +164,13 @@ func (s *BlockSourceBase) loop() {
 
 			requestOrdering = append(requestOrdering, nextRequest.StartBlockID)
 			sort.Sort(sort.Reverse(requestOrdering))
+
+			// a response that has to wait for the new, lower request is sent
+			// after it
+			if pendingResponse.Response().StartBlock > nextRequest.StartBlockID {
+				pendingResponse.clear()
+			}
+
 			go func() {
 				resolver := s.BlockSourceResolver
 
-- 
2.43.0


From 3edc8674b29f3d637810389c22345d372a1e1652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:24 +0000
Subject: [PATCH 30/39] fix: patching to an empty reference asked for all
 blocks up to the largest number

With an index of no blocks the last block number wrapped around, so that
one range of nearly all numbers was missing and requested, and the patch
failed. An empty reference is now an empty output.
---
 rsync.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rsync.go b/rsync.go
index a8f228f..125d352 100644
--- a/rsync.go
+++ b/rsync.go
@@ -179,6 +179,13 @@ func (rsync *RSync) Patch() (err error) {
 		rsync.patchFailed = err != nil
 	}()
 
+	blockCount := rsync.Summary.GetBlockCount()
+
+	// an empty reference has no last block, there is nothing to write
+	if blockCount == 0 {
+		return nil
+	}
+
 	numMatchers := int64(DefaultConcurrency)
 	blockSize := rsync.Summary.GetBlockSize()
 	sectionSize := rsync.Summary.GetFileSize() / numMatchers
@@ -208,7 +215,7 @@ func (rsync *RSync) Patch() (err error) {
 	}
 
 	mergedBlocks := merger.GetMergedBlocks()
-	missing := mergedBlocks.GetMissingBlocks(rsync.Summary.GetBlockCount() - 1)
+	missing := mergedBlocks.GetMissingBlocks(blockCount - 1)
 
 	return sequential.SequentialPatcher(
 		rsync.Input,
-- 
2.43.0


From 04de21e47bdfec6a1d05b490b30f6f4a0363c576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:45 +0000
Subject: [PATCH 31/39] fix: refuse gosync files with an impossible block or
 file size

---
 cmd/gosync/common.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cmd/gosync/common.go b/cmd/gosync/common.go
index 53fb9cc..0a5f7c6 100644
--- a/cmd/gosync/common.go
+++ b/cmd/gosync/common.go
@@ -205,6 +205,17 @@ func readHeadersAndCheck(
 	}
 
 	err = binary.Read(r, binary.LittleEndian, &blocksize)
+	if err != nil {
+		return
+	}
+
+	if blocksize == 0 || filesize < 0 {
+		err = fmt.Errorf(
+			"The gosync file is damaged: block size %v, file size %v",
+			blocksize, filesize,
+		)
+	}
+
 	return
 }
 
-- 
2.43.0


From 00b004b826d34ef717ce518084cc905ff9a8114b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:46 +0000
Subject: [PATCH 32/39] fix: build refuses block sizes that the gosync file
 cannot hold

---
 cmd/gosync/build.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cmd/gosync/build.go b/cmd/gosync/build.go
index b147dfb..09e9dbf 100644
--- a/cmd/gosync/build.go
+++ b/cmd/gosync/build.go
@@ -2,6 +2,7 @@ package main
 
 import (
 	"fmt"
+	"math"
 	"os"
 	"path/filepath"
 	"time"
@@ -31,7 +32,14 @@ func init() {
 
 func Build(c *cli.Context) error {
 	filename := c.Args().Get(0)
-	blocksize := uint32(c.Int("blocksize"))
+	requestedBlocksize := c.Int("blocksize")
+
+	// it is stored as 32 bits
+	if requestedBlocksize < 1 || int64(requestedBlocksize) > math.MaxUint32 {
+		return fmt.Errorf("Invalid block size: %v", requestedBlocksize)
+	}
+
+	blocksize := uint32(requestedBlocksize)
 	generator := filechecksum.NewFileChecksumGenerator(uint(blocksize))
 	inputFile, err := os.Open(filename)
 
-- 
2.43.0


From 33d6046983ea12a2c3cb54ed82c52cf066d98689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:47 +0000
Subject: [PATCH 33/39] fix: diff refuses to run with less than one stream

---
 cmd/gosync/diff.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/gosync/diff.go b/cmd/gosync/diff.go
index 0d35f77..424facd 100644
--- a/cmd/gosync/diff.go
+++ b/cmd/gosync/diff.go
@@ -82,6 +82,10 @@ func Diff(c *cli.Context) error {
 
 	num_matchers := int64(c.Int("p"))
 
+	if num_matchers < 1 {
+		return fmt.Errorf("Invalid number of streams: %v", num_matchers)
+	}
+
 	localFile_size := fi.Size()
 
 	// Don't split up small files
-- 
2.43.0


From 54fa0f2f58701a9e2bd7177863b7bbd9c432cd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:35 +0000
Subject: [PATCH 34/39] fix: compare the window completed by a last byte read
 together with the end of the stream

---
 comparer/comparer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/comparer/comparer.go b/comparer/comparer.go
index 4a90561..dfc49a7 100644
--- a/comparer/comparer.go
+++ b/comparer/comparer.go
@@ -172,6 +172,12 @@ func (c *Comparer) startFindMatchingBlocks_int(
 		case READ_NEXT_BYTE:
 			n, err = comparison.Read(singleByte)
 			readBytes = singleByte
+
+			// the last byte may be read together with the end of the stream,
+			// the window it completes has to be compared before going on
+			if n > 0 && err == io.EOF {
+				err = nil
+			}
 		case READ_NEXT_BLOCK:
 			n, err = io.ReadFull(comparison, block)
 			readBytes = block[:n]
-- 
2.43.0


From c2af6fe9ae0758313eeb65f51bf06323c492ab02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:04 +0000
Subject: [PATCH 35/39] fix: build refuses to overwrite its input

---
 cmd/gosync/build.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/cmd/gosync/build.go b/cmd/gosync/build.go
index 09e9dbf..ba4f6a2 100644
--- a/cmd/gosync/build.go
+++ b/cmd/gosync/build.go
@@ -7,6 +7,7 @@ import (
 	"path/filepath"
 	"time"
 
+	gosync_main "github.com/Redundancy/go-sync"
 	"github.com/Redundancy/go-sync/filechecksum"
 	"github.com/urfave/cli/v2"
 )
@@ -66,6 +67,19 @@ func Build(c *cli.Context) error {
 
 	ext := filepath.Ext(filename)
 	outfilePath := filename[:len(filename)-len(ext)] + ".gosync"
+
+	// creating the output would destroy the input
+	same, err := gosync_main.IsSameFile(filename, outfilePath)
+
+	if err != nil {
+		handleFileError(outfilePath, err)
+		os.Exit(1)
+	}
+
+	if same {
+		return fmt.Errorf("The output would overwrite the input: %v", filename)
+	}
+
 	outputFile, err := os.Create(outfilePath)
 
 	if err != nil {
-- 
2.43.0


From 2e468443aa7a92323d6cfc91aeb0cd596c3e2bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:49 +0000
Subject: [PATCH 36/39] fix: patch refuses an index that does not have the
 blocks of a file of its size

---
 rsync.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/rsync.go b/rsync.go
index 125d352..c0afe3d 100644
--- a/rsync.go
+++ b/rsync.go
@@ -180,6 +180,23 @@ func (rsync *RSync) Patch() (err error) {
 	}()
 
 	blockCount := rsync.Summary.GetBlockCount()
+	blockSize := rsync.Summary.GetBlockSize()
+	fileSize := rsync.Summary.GetFileSize()
+
+	// the last block may be a partial one
+	expectedCount := fileSize / int64(blockSize)
+	if fileSize%int64(blockSize) != 0 {
+		expectedCount++
+	}
+
+	if fileSize < 0 || int64(blockCount) != expectedCount {
+		return fmt.Errorf(
+			"The index has %v blocks, a file of %v bytes has %v",
+			blockCount,
+			fileSize,
+			expectedCount,
+		)
+	}
 
 	// an empty reference has no last block, there is nothing to write
 	if blockCount == 0 {
@@ -187,8 +204,7 @@ func (rsync *RSync) Patch() (err error) {
 	}
 
 	numMatchers := int64(DefaultConcurrency)
-	blockSize := rsync.Summary.GetBlockSize()
-	sectionSize := rsync.Summary.GetFileSize() / numMatchers
+	sectionSize := fileSize / numMatchers
 	sectionSize += int64(blockSize) - (sectionSize % int64(blockSize))
 
 	merger := &comparer.MatchMerger{}
-- 
2.43.0


From ac3af57d62b26c8b7d455b5ffa8a6fffab233eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:52 +0000
Subject: [PATCH 37/39] fix: a partial last block found in the middle of the
 local file was copied with the bytes behind it

---
 rsync.go | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/rsync.go b/rsync.go
index c0afe3d..a79fc42 100644
--- a/rsync.go
+++ b/rsync.go
@@ -233,14 +233,47 @@ func (rsync *RSync) Patch() (err error) {
 	mergedBlocks := merger.GetMergedBlocks()
 	missing := mergedBlocks.GetMissingBlocks(blockCount - 1)
 
-	return sequential.SequentialPatcher(
+	output := &sizedWriter{rsync.Output, uint64(fileSize)}
+
+	err = sequential.SequentialPatcher(
 		rsync.Input,
 		rsync.Source,
 		toPatcherMissingSpan(missing, int64(blockSize)),
 		toPatcherFoundSpan(mergedBlocks, int64(blockSize)),
 		20*megabyte,
-		rsync.Output,
+		output,
 	)
+
+	if err == nil && output.remaining != 0 {
+		err = fmt.Errorf("%v bytes are missing at the end of the output", output.remaining)
+	}
+
+	return err
+}
+
+// sizedWriter does not write more than the remaining number of bytes, the rest
+// is dropped: a partial last block may have been found in the middle of the
+// local file, where other bytes follow it
+type sizedWriter struct {
+	output    io.Writer
+	remaining uint64
+}
+
+func (w *sizedWriter) Write(p []byte) (int, error) {
+	wanted := p
+
+	if uint64(len(p)) > w.remaining {
+		wanted = p[:w.remaining]
+	}
+
+	n, err := w.output.Write(wanted)
+	w.remaining -= uint64(n)
+
+	if err != nil {
+		return n, err
+	}
+
+	return len(p), nil
 }
 
 func getOutFile(filename string) (f io.WriteCloser, err error) {
-- 
2.43.0


From 6229fe55b3f5449fd959b6cae0fd9ac2f98662a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:41 +0000
Subject: [PATCH 38/39] fix: search all of the local file for blocks, also when
 it is longer than the reference

---
 rsync.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rsync.go b/rsync.go
index a79fc42..863944e 100644
--- a/rsync.go
+++ b/rsync.go
@@ -203,8 +203,16 @@ func (rsync *RSync) Patch() (err error) {
 		return nil
 	}
 
+	// blocks are searched in all of the local file, which can be longer than
+	// the reference
+	localSize, err := rsync.Input.Seek(0, io.SeekEnd)
+
+	if err != nil {
+		return fmt.Errorf("Could not get the size of the input: %v", err)
+	}
+
 	numMatchers := int64(DefaultConcurrency)
-	sectionSize := fileSize / numMatchers
+	sectionSize := localSize / numMatchers
 	sectionSize += int64(blockSize) - (sectionSize % int64(blockSize))
 
 	merger := &comparer.MatchMerger{}
-- 
2.43.0


From 8327555f78930ee946e6ab611c74390dd777a7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:44:14 +0000
Subject: [PATCH 39/39] fix: read the whole magic string also when it arrives
 in pieces

---
 cmd/gosync/common.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gosync/common.go b/cmd/gosync/common.go
index 0a5f7c6..993cfcf 100644
--- a/cmd/gosync/common.go
+++ b/cmd/gosync/common.go
@@ -173,7 +173,7 @@ func readHeadersAndCheck(
 ) {
 	b := make([]byte, len(magicString))
 
-	if _, err = r.Read(b); err != nil {
+	if _, err = io.ReadFull(r, b); err != nil {
 		return
 	} else if string(b) != magicString {
 		err = errors.New(
-- 
2.43.0

