From 65312f1219bd422da9bb8ce98e5b6707e13922e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 01/50] fix: circular buffer repeated the start of a write
 after wrapping around

When a write crossed the end of one of the internal buffers, the part after
the wrap was copied from the start of the input again, so later blocks and
evicted bytes read from that buffer were wrong.
---
 circularbuffer/noalloc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circularbuffer/noalloc.go b/circularbuffer/noalloc.go
index 0449739..6efa879 100644
--- a/circularbuffer/noalloc.go
+++ b/circularbuffer/noalloc.go
@@ -156,7 +156,7 @@ func (buff *doubleSizeBuffer) Write(by []byte) {
 
 		copy(
 			buff.buffer[buff.head:buff.head+writeThisTime], // to
-			by,
+			remaining,
 		)
 
 		buff.head += writeThisTime
-- 
2.43.0


From 06d2407bc226f69fb29940da8fdb3c8ebc6dbe50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 02/50] fix: comparer read the next block over the bytes still
 in its window

The slice returned by the circular buffer was reused as the read buffer, so a
short read at the end of the input overwrote bytes that were then reported as
evicted, and the rolling checksum of the remaining tail was wrong.
---
 comparer/comparer.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/comparer/comparer.go b/comparer/comparer.go
index b793818..1e67ec8 100644
--- a/comparer/comparer.go
+++ b/comparer/comparer.go
@@ -134,10 +134,8 @@ func (c *Comparer) startFindMatchingBlocks_int(
 		if weakMatchList := reference.FindWeakChecksum2(weaksum); weakMatchList != nil {
 			atomic.AddInt64(&c.WeakHashHits, 1)
 
-			block = blockMemory.GetBlock()
-
 			strong.Reset()
-			strong.Write(block)
+			strong.Write(blockMemory.GetBlock())
 			strongSum = strong.Sum(strongSum)
 			strongList := reference.FindStrongChecksum2(strongSum, weakMatchList)
 
-- 
2.43.0


From fbd80b0c610cecaff5a9c186e0d4ca1aa6367705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 03/50] fix: comparer used a stale block with a block size of
 one byte

With one byte blocks, a single byte read fills a whole block, but the window
was filled from the block buffer instead of the byte just read.
---
 comparer/comparer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/comparer/comparer.go b/comparer/comparer.go
index 1e67ec8..8471cc1 100644
--- a/comparer/comparer.go
+++ b/comparer/comparer.go
@@ -179,8 +179,8 @@ func (c *Comparer) startFindMatchingBlocks_int(
 		}
 
 		if uint(n) == generator.BlockSize {
-			generator.WeakRollingHash.SetBlock(block)
-			blockMemory.Write(block)
+			generator.WeakRollingHash.SetBlock(readBytes)
+			blockMemory.Write(readBytes)
 			i += int64(n)
 		} else if n > 0 {
 			b_len := blockMemory.Len()
-- 
2.43.0


From 5e1f27d7a2ded32e1ebdcee274cb15f9a08cc50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 04/50] fix: comparer skipped the last full window if a read
 returned data with EOF

---
 comparer/comparer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/comparer/comparer.go b/comparer/comparer.go
index 8471cc1..2a9d2ae 100644
--- a/comparer/comparer.go
+++ b/comparer/comparer.go
@@ -170,7 +170,9 @@ func (c *Comparer) startFindMatchingBlocks_int(
 
 		switch next {
 		case READ_NEXT_BYTE:
-			n, err = comparison.Read(singleByte)
+			// ReadFull, since a reader may return the last byte together with EOF,
+			// and the window ending in that byte must still be compared
+			n, err = io.ReadFull(comparison, singleByte)
 			readBytes = singleByte
 		case READ_NEXT_BLOCK:
 			n, err = io.ReadFull(comparison, block)
-- 
2.43.0


From 40abca2e6d8032a126674b60af40ff74aad86c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 05/50] fix: comparer never stopped after a read error

An error other than EOF after the first block was neither reported nor ended
the loop: a persistent error spun forever, a transient one was ignored and the
bytes lost. Report it and stop, as documented.
---
 comparer/comparer.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/comparer/comparer.go b/comparer/comparer.go
index 2a9d2ae..c8ca73e 100644
--- a/comparer/comparer.go
+++ b/comparer/comparer.go
@@ -180,6 +180,13 @@ func (c *Comparer) startFindMatchingBlocks_int(
 			next = READ_NEXT_BYTE
 		}
 
+		if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
+			ReportErr(
+				fmt.Errorf("Error reading comparison: %v", err),
+			)
+			return
+		}
+
 		if uint(n) == generator.BlockSize {
 			generator.WeakRollingHash.SetBlock(readBytes)
 			blockMemory.Write(readBytes)
@@ -211,9 +218,4 @@ func (c *Comparer) startFindMatchingBlocks_int(
 			i += 1
 		}
 	}
-
-	if err != io.EOF {
-		ReportErr(err)
-		return
-	}
 }
-- 
2.43.0


From df574253b8decd5cafd8b00fe79d720244d2a0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 06/50] fix: checksum generation took a failing input for its
 end

---
 filechecksum/filechecksum.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/filechecksum/filechecksum.go b/filechecksum/filechecksum.go
index 4f69701..a16947d 100644
--- a/filechecksum/filechecksum.go
+++ b/filechecksum/filechecksum.go
@@ -126,6 +126,16 @@ type ChecksumResults struct {
 	Err error
 }
 
+// Reads until the block is full, or the reader has ended or failed
+func readBlock(r io.Reader, block []byte) (n int, err error) {
+	for n < len(block) && err == nil {
+		var read int
+		read, err = r.Read(block[n:])
+		n += read
+	}
+	return
+}
+
 // A function or object that can compress blocks
 // the compression function must also write out the compressed blocks somewhere!
 // Compressed blocks should be independently inflatable
@@ -167,16 +177,19 @@ func (check *FileChecksumGenerator) generate(
 
 	i := uint(0)
 	for {
-		n, err := io.ReadFull(inputFile, buffer)
+		n, err := readBlock(inputFile, buffer)
 		section := buffer[:n]
 
+		if err != nil && err != io.EOF {
+			resultChan <- ChecksumResults{Err: err}
+			return
+		}
+
 		if n == 0 {
 			break
 		}
 
 		// As hashes, the assumption is that they never error
-		// additionally, we assume that the only reason not
-		// to write a full block would be reaching the end of the file
 		fullChecksum.Write(section)
 		check.WeakRollingHash.SetBlock(section)
 		strongHash.Write(section)
-- 
2.43.0


From a996e72f9ac0abe2487930fe27e43cea430d8427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 07/50] fix: checksum generation ignored compression errors

---
 filechecksum/filechecksum.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/filechecksum/filechecksum.go b/filechecksum/filechecksum.go
index a16947d..44f56cd 100644
--- a/filechecksum/filechecksum.go
+++ b/filechecksum/filechecksum.go
@@ -203,7 +203,13 @@ func (check *FileChecksumGenerator) generate(
 		blockSize := int64(check.BlockSize)
 
 		if compressionFunction != nil {
-			blockSize, err = compressionFunction(section)
+			var compressErr error
+			blockSize, compressErr = compressionFunction(section)
+
+			if compressErr != nil {
+				resultChan <- ChecksumResults{Err: compressErr}
+				return
+			}
 		}
 
 		results = append(
-- 
2.43.0


From 70944ebc7731c783b16c7b8a47a88ad213acd288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:30 +0000
Subject: [PATCH 08/50] fix: checksum generation ignored output errors

---
 filechecksum/filechecksum.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/filechecksum/filechecksum.go b/filechecksum/filechecksum.go
index 44f56cd..2a1a700 100644
--- a/filechecksum/filechecksum.go
+++ b/filechecksum/filechecksum.go
@@ -105,16 +105,26 @@ func (check *FileChecksumGenerator) GenerateChecksums(inputFile io.Reader, outpu
 		if chunkResult.Err != nil {
 			return nil, chunkResult.Err
 		} else if chunkResult.Filechecksum != nil {
-			return chunkResult.Filechecksum, nil
+			fileChecksum = chunkResult.Filechecksum
 		}
 
+		// after a failed write, only wait for the generation to end
 		for _, chunk := range chunkResult.Checksums {
-			output.Write(chunk.WeakChecksum)
-			output.Write(chunk.StrongChecksum)
+			if err == nil {
+				_, err = output.Write(chunk.WeakChecksum)
+			}
+
+			if err == nil {
+				_, err = output.Write(chunk.StrongChecksum)
+			}
 		}
 	}
 
-	return nil, nil
+	if err != nil {
+		return nil, err
+	}
+
+	return fileChecksum, nil
 }
 
 type ChecksumResults struct {
-- 
2.43.0


From e7a22eb702e4cb9e912444f815a92a64a2af47b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 09/50] fix: checksum generator was reset after its last result
 was delivered

---
 filechecksum/filechecksum.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/filechecksum/filechecksum.go b/filechecksum/filechecksum.go
index 2a1a700..c875f92 100644
--- a/filechecksum/filechecksum.go
+++ b/filechecksum/filechecksum.go
@@ -178,11 +178,6 @@ func (check *FileChecksumGenerator) generate(
 	strongHash.Reset()
 	fullChecksum.Reset()
 
-	// We reset the hashes when done do we can reuse the generator
-	defer check.WeakRollingHash.Reset()
-	defer strongHash.Reset()
-	defer fullChecksum.Reset()
-
 	results := make([]chunks.ChunkChecksum, 0, blocksPerResult)
 
 	i := uint(0)
@@ -191,6 +186,7 @@ func (check *FileChecksumGenerator) generate(
 		section := buffer[:n]
 
 		if err != nil && err != io.EOF {
+			check.Reset()
 			resultChan <- ChecksumResults{Err: err}
 			return
 		}
@@ -217,6 +213,7 @@ func (check *FileChecksumGenerator) generate(
 			blockSize, compressErr = compressionFunction(section)
 
 			if compressErr != nil {
+				check.Reset()
 				resultChan <- ChecksumResults{Err: compressErr}
 				return
 			}
@@ -258,9 +255,13 @@ func (check *FileChecksumGenerator) generate(
 		}
 	}
 
+	fileChecksumValue := fullChecksum.Sum(nil)
+
+	// We reset the hashes when done so we can reuse the generator
+	// as soon as the last result has been received
+	check.Reset()
+
 	resultChan <- ChecksumResults{
-		Filechecksum: fullChecksum.Sum(nil),
+		Filechecksum: fileChecksumValue,
 	}
-
-	return
 }
-- 
2.43.0


From 53a549da8082ca81741ba0d663d42bb614893b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 10/50] fix: hash verifier rejected good blocks after a corrupt
 one

---
 filechecksum/verifier.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/filechecksum/verifier.go b/filechecksum/verifier.go
index 9d604a5..2a604b7 100644
--- a/filechecksum/verifier.go
+++ b/filechecksum/verifier.go
@@ -34,14 +34,13 @@ func (v *HashVerifier) VerifyBlockRange(startBlockID uint, data []byte) bool {
 			return true
 		}
 
+		v.Hash.Reset()
 		v.Hash.Write(blockData)
 		hashedData := v.Hash.Sum(nil)
 
 		if bytes.Compare(expectedChecksum, hashedData) != 0 {
 			return false
 		}
-
-		v.Hash.Reset()
 	}
 
 	return true
-- 
2.43.0


From b4e1b698e6dd90e4d3ed2891f3d0dd995f1e1f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 11/50] fix: a second failing request crashed the block source

---
 blocksources/blocksourcebase.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/blocksources/blocksourcebase.go b/blocksources/blocksourcebase.go
index 95e236a..7aea956 100644
--- a/blocksources/blocksourcebase.go
+++ b/blocksources/blocksourcebase.go
@@ -153,8 +153,8 @@ func (s *BlockSourceBase) loop() {
 
 	for state == STATE_RUNNING || inflightRequests > 0 || pendingErrors.Err() != nil {
 
-		// Start any pending work that we can
-		for inflightRequests < s.ConcurrentRequests && len(requestQueue) > 0 {
+		// Start any pending work that we can, unless we're giving up
+		for state == STATE_RUNNING && inflightRequests < s.ConcurrentRequests && len(requestQueue) > 0 {
 			inflightRequests += 1
 
 			nextRequest := requestQueue[len(requestQueue)-1]
@@ -204,6 +204,11 @@ func (s *BlockSourceBase) loop() {
 		case result := <-resultChan:
 			inflightRequests -= 1
 
+			// only the first failure is reported, and nothing is delivered after it
+			if state != STATE_RUNNING {
+				break
+			}
+
 			if result.err != nil {
 				pendingErrors.setError(result.err)
 				pendingResponse.clear()
-- 
2.43.0


From ec3b08e20c267a2f0c4ee185336cadbd21374f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 12/50] fix: block source lost track of responses when a lower
 block was requested

---
 blocksources/blocksourcebase.go | 37 ++++++++++++---------------------
 1 file changed, 13 insertions(+), 24 deletions(-)

diff --git a/blocksources/blocksourcebase.go b/blocksources/blocksourcebase.go
index 7aea956..3b7d9bd 100644
--- a/blocksources/blocksourcebase.go
+++ b/blocksources/blocksourcebase.go
@@ -189,6 +189,19 @@ func (s *BlockSourceBase) loop() {
 			requestQueue = requestQueue[:len(requestQueue)-1]
 		}
 
+		// Only the lowest of the active requests may be delivered next.
+		// It can change whenever one is started, received or delivered
+		pendingResponse.clear()
+
+		if state == STATE_RUNNING && len(responseOrdering) > 0 {
+			lowestResponse := responseOrdering[len(responseOrdering)-1]
+			lowestRequest := requestOrdering[len(requestOrdering)-1]
+
+			if lowestRequest == lowestResponse.StartBlock {
+				pendingResponse.setResponse(&lowestResponse)
+			}
+		}
+
 		select {
 		case newRequest := <-s.requestChannel:
 			requestQueue = append(
@@ -211,7 +224,6 @@ func (s *BlockSourceBase) loop() {
 
 			if result.err != nil {
 				pendingErrors.setError(result.err)
-				pendingResponse.clear()
 				state = STATE_EXITING
 				break
 			}
@@ -225,7 +237,6 @@ func (s *BlockSourceBase) loop() {
 						result.startBlockID, result.endBlockID,
 					),
 				)
-				pendingResponse.clear()
 				state = STATE_EXITING
 				break
 			}
@@ -240,32 +251,10 @@ func (s *BlockSourceBase) loop() {
 			// sort high to low
 			sort.Sort(sort.Reverse(responseOrdering))
 
-			// if we just got the lowest requested block, we can set
-			// the response. Otherwise, wait.
-			lowestRequest := requestOrdering[len(requestOrdering)-1]
-
-			if lowestRequest == result.startBlockID {
-				lowestResponse := responseOrdering[len(responseOrdering)-1]
-				pendingResponse.clear()
-				pendingResponse.setResponse(&lowestResponse)
-			}
-
 		case pendingResponse.sendIfPending() <- pendingResponse.Response():
-			pendingResponse.clear()
 			responseOrdering = responseOrdering[:len(responseOrdering)-1]
 			requestOrdering = requestOrdering[:len(requestOrdering)-1]
 
-			// check if there's another response to enqueue
-			if len(responseOrdering) > 0 {
-				lowestResponse := responseOrdering[len(responseOrdering)-1]
-				lowestRequest := requestOrdering[len(requestOrdering)-1]
-
-				if lowestRequest == lowestResponse.StartBlock {
-					pendingResponse.setResponse(&lowestResponse)
-
-				}
-			}
-
 		case pendingErrors.sendIfSet() <- pendingErrors.Err():
 			pendingErrors.clear()
 
-- 
2.43.0


From 5dcf34e1ad4e5e6c2316fb87c0dc231eb33c9d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:38 +0000
Subject: [PATCH 13/50] fix: block source raced and crashed on requests and
 closes around its shutdown

---
 blocksources/blocksourcebase.go | 72 ++++++++++++++++++++++-----------
 1 file changed, 48 insertions(+), 24 deletions(-)

diff --git a/blocksources/blocksourcebase.go b/blocksources/blocksourcebase.go
index 3b7d9bd..2e1aff7 100644
--- a/blocksources/blocksourcebase.go
+++ b/blocksources/blocksourcebase.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"sort"
+	"sync/atomic"
 
 	"github.com/Redundancy/go-sync/patcher"
 )
@@ -51,6 +52,8 @@ func NewBlockSourceBase(
 		ConcurrentRequests:  concurrentRequestCount,
 		ConcurrentBytes:     concurrentBytes,
 		exitChannel:         make(chan bool),
+		quitChannel:         make(chan struct{}),
+		endedChannel:        make(chan struct{}),
 		errorChannel:        make(chan error),
 		responseChannel:     make(chan patcher.BlockReponse),
 		requestChannel:      make(chan patcher.MissingBlockSpan),
@@ -67,6 +70,9 @@ func NewBlockSourceBase(
 // BlockSourceBase implements patcher.BlockSource, and if it's good enough,
 // perhaps nobody else ever will have to.
 type BlockSourceBase struct {
+	// accessed atomically, so it must stay 64 bit aligned
+	bytesRequested int64
+
 	Requester           BlockSourceRequester
 	BlockSourceResolver BlockSourceOffsetResolver
 	Verifier            BlockVerifier
@@ -78,13 +84,15 @@ type BlockSourceBase struct {
 	// (requested + pending delivery)
 	ConcurrentBytes int64
 
-	hasQuit         bool
-	exitChannel     chan bool
+	hasQuit     bool
+	exitChannel chan bool
+	// closed when no more requests will be accepted
+	quitChannel chan struct{}
+	// closed when the last background activity has ended
+	endedChannel    chan struct{}
 	errorChannel    chan error
 	responseChannel chan patcher.BlockReponse
 	requestChannel  chan patcher.MissingBlockSpan
-
-	bytesRequested int64
 }
 
 const (
@@ -93,12 +101,16 @@ const (
 )
 
 func (s *BlockSourceBase) ReadBytes() int64 {
-	return s.bytesRequested
+	return atomic.LoadInt64(&s.bytesRequested)
 }
 
 func (s *BlockSourceBase) RequestBlocks(block patcher.MissingBlockSpan) error {
-	s.requestChannel <- block
-	return nil
+	select {
+	case s.requestChannel <- block:
+		return nil
+	case <-s.quitChannel:
+		return BlockSourceAlreadyClosedError
+	}
 }
 
 func (s *BlockSourceBase) GetResultChannel() <-chan patcher.BlockReponse {
@@ -112,17 +124,13 @@ func (s *BlockSourceBase) EncounteredError() <-chan error {
 
 var BlockSourceAlreadyClosedError = errors.New("Block source was already closed")
 
+// Close stops the block source from accepting and starting any more requests,
+// without waiting for the requests that are already in flight
 func (s *BlockSourceBase) Close() (err error) {
-	// if it has already been closed, just recover
-	// however, let the caller know
-	defer func() {
-		if recover() != nil {
-			err = BlockSourceAlreadyClosedError
-		}
-	}()
-
-	if !s.hasQuit {
-		s.exitChannel <- true
+	select {
+	case s.exitChannel <- true:
+		<-s.quitChannel
+	case <-s.endedChannel:
 	}
 
 	return
@@ -130,11 +138,9 @@ func (s *BlockSourceBase) Close() (err error) {
 
 func (s *BlockSourceBase) loop() {
 	defer func() {
-		s.hasQuit = true
-		close(s.exitChannel)
 		close(s.errorChannel)
-		close(s.requestChannel)
 		close(s.responseChannel)
+		close(s.endedChannel)
 	}()
 
 	state := STATE_RUNNING
@@ -143,7 +149,13 @@ func (s *BlockSourceBase) loop() {
 	pendingErrors := &errorWatcher{errorChannel: s.errorChannel}
 	pendingResponse := &pendingResponseHelper{responseChannel: s.responseChannel}
 	resultChan := make(chan asyncResult)
-	defer close(resultChan)
+
+	stop := func() {
+		if !s.hasQuit {
+			s.hasQuit = true
+			close(s.quitChannel)
+		}
+	}
 
 	requestQueue := make(QueuedRequestList, 0, s.ConcurrentRequests*2)
 
@@ -202,8 +214,13 @@ func (s *BlockSourceBase) loop() {
 			}
 		}
 
+		requestChannel := s.requestChannel
+		if state != STATE_RUNNING {
+			requestChannel = nil
+		}
+
 		select {
-		case newRequest := <-s.requestChannel:
+		case newRequest := <-requestChannel:
 			requestQueue = append(
 				requestQueue,
 				s.BlockSourceResolver.SplitBlockRangeToDesiredSize(
@@ -217,6 +234,10 @@ func (s *BlockSourceBase) loop() {
 		case result := <-resultChan:
 			inflightRequests -= 1
 
+			if result.err == nil {
+				atomic.AddInt64(&s.bytesRequested, int64(len(result.data)))
+			}
+
 			// only the first failure is reported, and nothing is delivered after it
 			if state != STATE_RUNNING {
 				break
@@ -225,11 +246,10 @@ func (s *BlockSourceBase) loop() {
 			if result.err != nil {
 				pendingErrors.setError(result.err)
 				state = STATE_EXITING
+				stop()
 				break
 			}
 
-			s.bytesRequested += int64(len(result.data))
-
 			if s.Verifier != nil && !s.Verifier.VerifyBlockRange(result.startBlockID, result.data) {
 				pendingErrors.setError(
 					fmt.Errorf(
@@ -238,6 +258,7 @@ func (s *BlockSourceBase) loop() {
 					),
 				)
 				state = STATE_EXITING
+				stop()
 				break
 			}
 
@@ -260,6 +281,9 @@ func (s *BlockSourceBase) loop() {
 
 		case <-s.exitChannel:
 			state = STATE_EXITING
+			stop()
+			// there may be nobody left to receive it
+			pendingErrors.clear()
 		}
 	}
 }
-- 
2.43.0


From 56134dc1f61ce3493ca98fa08dcfa983ae224fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:07 +0000
Subject: [PATCH 14/50] fix: hash verifier skipped the blocks after one without
 a checksum

---
 filechecksum/verifier.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filechecksum/verifier.go b/filechecksum/verifier.go
index 2a604b7..dd7bd6c 100644
--- a/filechecksum/verifier.go
+++ b/filechecksum/verifier.go
@@ -31,7 +31,7 @@ func (v *HashVerifier) VerifyBlockRange(startBlockID uint, data []byte) bool {
 		)
 
 		if expectedChecksum == nil {
-			return true
+			continue
 		}
 
 		v.Hash.Reset()
-- 
2.43.0


From 6ae4fc856e2bcca67ff4869cb8c4de77c6d680f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:11 +0000
Subject: [PATCH 15/50] fix: block source crashed verifying data longer than
 the requested range

---
 blocksources/blocksourcebase.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/blocksources/blocksourcebase.go b/blocksources/blocksourcebase.go
index 2e1aff7..1541d34 100644
--- a/blocksources/blocksourcebase.go
+++ b/blocksources/blocksourcebase.go
@@ -250,7 +250,12 @@ func (s *BlockSourceBase) loop() {
 				break
 			}
 
-			if s.Verifier != nil && !s.Verifier.VerifyBlockRange(result.startBlockID, result.data) {
+			// data beyond the requested range can not be verified
+			expectedLength := s.BlockSourceResolver.GetBlockEndOffset(result.endBlockID) -
+				s.BlockSourceResolver.GetBlockStartOffset(result.startBlockID)
+
+			if s.Verifier != nil && (int64(len(result.data)) > expectedLength ||
+				!s.Verifier.VerifyBlockRange(result.startBlockID, result.data)) {
 				pendingErrors.setError(
 					fmt.Errorf(
 						"The returned block range (%v-%v) did not match the expected checksum for the blocks",
-- 
2.43.0


From ae38d11617acae368a2f1a5849068256a3dd7c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:49 +0000
Subject: [PATCH 16/50] fix: sequential patcher ignored failed seeks and
 requests and short data

---
 patcher/sequential/sequential.go | 56 ++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 18 deletions(-)

diff --git a/patcher/sequential/sequential.go b/patcher/sequential/sequential.go
index b8a3018..9d8e15d 100644
--- a/patcher/sequential/sequential.go
+++ b/patcher/sequential/sequential.go
@@ -57,44 +57,64 @@ func SequentialPatcher(
 			firstMatched := locallyAvailableBlocks[0]
 
 			// we have the current block range in the local file
-			localFile.Seek(firstMatched.MatchOffset, ABSOLUTE_POSITION)
+			if _, err := localFile.Seek(firstMatched.MatchOffset, ABSOLUTE_POSITION); err != nil {
+				return fmt.Errorf("Could not seek to %v in the local file: %v", firstMatched.MatchOffset, err)
+			}
+
 			blockSizeToRead := int64(firstMatched.EndBlock-firstMatched.StartBlock+1) * firstMatched.BlockSize
 
-			if _, err := io.Copy(output, io.LimitReader(localFile, blockSizeToRead)); err != nil {
+			n, err := io.Copy(output, io.LimitReader(localFile, blockSizeToRead))
+
+			if err != nil {
 				return fmt.Errorf("Could not copy %v bytes to output: %v", blockSizeToRead, err)
 			}
 
+			// only the very last block may not be a full one
+			isLast := firstMatched.EndBlock == maxBlock
+
+			if n != blockSizeToRead && (!isLast || n < blockSizeToRead-firstMatched.BlockSize) {
+				return fmt.Errorf("Could only copy %v of %v bytes to output", n, blockSizeToRead)
+			}
+
 			currentBlock = firstMatched.EndBlock + 1
 			locallyAvailableBlocks = locallyAvailableBlocks[1:]
 
 		} else if withinFirstBlockOfRemoteBlocks(currentBlock, requiredRemoteBlocks) {
 			firstMissing := requiredRemoteBlocks[0]
-			reference.RequestBlocks(firstMissing)
+
+			if err := reference.RequestBlocks(firstMissing); err != nil {
+				return fmt.Errorf("Could not request blocks: %v", err)
+			}
 
 			select {
 			case result := <-reference.GetResultChannel():
 				if result.StartBlock == currentBlock {
+					blockCount := firstMissing.EndBlock - firstMissing.StartBlock + 1
+					completed := calculateNumberOfCompletedBlocks(
+						len(result.Data),
+						firstMissing.BlockSize,
+					)
+
+					// only the very last block may not be a full one
+					isLast := firstMissing.EndBlock == maxBlock
+					isFull := int64(len(result.Data)) == int64(blockCount)*firstMissing.BlockSize
+
+					if completed != blockCount || (!isLast && !isFull) {
+						return fmt.Errorf(
+							"Unexpected reponse length from remote source: blocks %v-%v (got %v blocks, %v bytes)",
+							firstMissing.StartBlock,
+							firstMissing.EndBlock,
+							completed,
+							len(result.Data),
+						)
+					}
+
 					if _, err := output.Write(result.Data); err != nil {
 						return fmt.Errorf(
 							"Could not write data to output: %v", 
 							err,
 						)
 					} else {
-
-						completed := calculateNumberOfCompletedBlocks(
-							len(result.Data),
-							firstMissing.BlockSize,
-						)
-
-						if completed != (firstMissing.EndBlock-firstMissing.StartBlock) + 1 {
-							return fmt.Errorf(
-								"Unexpected reponse length from remote source: blocks %v-%v (got %v blocks)", 
-								firstMissing.StartBlock,
-								firstMissing.EndBlock,
-								completed,
-						)
-						}
-
 						currentBlock += completed
 						requiredRemoteBlocks = requiredRemoteBlocks[1:]
 					}
-- 
2.43.0


From e371bcb0e9cfe3b8221834e6dc7a4195ccc81aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:53 +0000
Subject: [PATCH 17/50] fix: patching did not scan the end of a local file
 longer than the reference

---
 rsync.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rsync.go b/rsync.go
index 59db7c1..86fa474 100644
--- a/rsync.go
+++ b/rsync.go
@@ -171,7 +171,15 @@ func MakeRSync(
 func (rsync *RSync) Patch() (err error) {
 	numMatchers := int64(DefaultConcurrency)
 	blockSize := rsync.Summary.GetBlockSize()
-	sectionSize := rsync.Summary.GetFileSize() / numMatchers
+
+	// the input may be longer or shorter than the reference
+	inputSize, err := rsync.Input.Seek(0, io.SeekEnd)
+
+	if err != nil {
+		return fmt.Errorf("Could not get the size of the input: %v", err)
+	}
+
+	sectionSize := inputSize / numMatchers
 	sectionSize += int64(blockSize) - (sectionSize % int64(blockSize))
 
 	merger := &comparer.MatchMerger{}
-- 
2.43.0


From ef0e3173b29a1b4b5069fa9e8dbed4af5546fbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:56 +0000
Subject: [PATCH 18/50] fix: patching to an empty reference requested
 nonexistent blocks

---
 rsync.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rsync.go b/rsync.go
index 86fa474..653a268 100644
--- a/rsync.go
+++ b/rsync.go
@@ -171,6 +171,12 @@ func MakeRSync(
 func (rsync *RSync) Patch() (err error) {
 	numMatchers := int64(DefaultConcurrency)
 	blockSize := rsync.Summary.GetBlockSize()
+	blockCount := rsync.Summary.GetBlockCount()
+
+	if blockCount == 0 {
+		// nothing to find or to fetch
+		return nil
+	}
 
 	// the input may be longer or shorter than the reference
 	inputSize, err := rsync.Input.Seek(0, io.SeekEnd)
@@ -206,7 +212,7 @@ func (rsync *RSync) Patch() (err error) {
 	}
 
 	mergedBlocks := merger.GetMergedBlocks()
-	missing := mergedBlocks.GetMissingBlocks(rsync.Summary.GetBlockCount() - 1)
+	missing := mergedBlocks.GetMissingBlocks(blockCount - 1)
 
 	return sequential.SequentialPatcher(
 		rsync.Input,
-- 
2.43.0


From fa549d22c1a2a43570fda6a57579a5282520c267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:00 +0000
Subject: [PATCH 19/50] fix: patching wrote beyond a partial last block found
 within the local file

---
 rsync.go | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/rsync.go b/rsync.go
index 653a268..c18a443 100644
--- a/rsync.go
+++ b/rsync.go
@@ -214,14 +214,49 @@ func (rsync *RSync) Patch() (err error) {
 	mergedBlocks := merger.GetMergedBlocks()
 	missing := mergedBlocks.GetMissingBlocks(blockCount - 1)
 
-	return sequential.SequentialPatcher(
+	output := &fileSizeWriter{
+		output:    rsync.Output,
+		remaining: rsync.Summary.GetFileSize(),
+	}
+
+	err = sequential.SequentialPatcher(
 		rsync.Input,
 		rsync.Source,
 		toPatcherMissingSpan(missing, int64(blockSize)),
 		toPatcherFoundSpan(mergedBlocks, int64(blockSize)),
 		20*megabyte,
-		rsync.Output,
+		output,
 	)
+
+	if err == nil && output.remaining > 0 {
+		err = fmt.Errorf("The patched file is %v bytes too short", output.remaining)
+	}
+
+	return err
+}
+
+// fileSizeWriter writes no more than the size of the file, since the last
+// block may be a partial one, found where the local file goes on after it
+type fileSizeWriter struct {
+	output    io.Writer
+	remaining int64
+}
+
+func (w *fileSizeWriter) Write(p []byte) (n int, err error) {
+	excess := 0
+
+	if int64(len(p)) > w.remaining {
+		excess = len(p) - int(w.remaining)
+	}
+
+	n, err = w.output.Write(p[:len(p)-excess])
+	w.remaining -= int64(n)
+
+	if err != nil {
+		return n, err
+	}
+
+	return n + excess, nil
 }
 
 func getOutFile(filename string) (f io.WriteCloser, err error) {
-- 
2.43.0


From 32bc5f2611956cab10b19f022acdfc62b0f4885b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:27 +0000
Subject: [PATCH 20/50] fix: patching left the end of a longer existing output
 in place

---
 rsync.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/rsync.go b/rsync.go
index c18a443..a629545 100644
--- a/rsync.go
+++ b/rsync.go
@@ -260,11 +260,8 @@ func (w *fileSizeWriter) Write(p []byte) (n int, err error) {
 }
 
 func getOutFile(filename string) (f io.WriteCloser, err error) {
-	if _, err = os.Stat(filename); os.IsNotExist(err) {
-		return os.Create(filename)
-	}
-
-	return os.OpenFile(filename, os.O_WRONLY, 0)
+	// an existing file may be longer than the new one
+	return os.Create(filename)
 }
 
 func getTempFile() (f io.WriteCloser, filename string, err error) {
-- 
2.43.0


From a6cc26ad4fdbd0f31ff24b6cf1de10e454933556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:30 +0000
Subject: [PATCH 21/50] fix: errors copying over the local file were swallowed

---
 rsync.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsync.go b/rsync.go
index a629545..4064782 100644
--- a/rsync.go
+++ b/rsync.go
@@ -344,7 +344,7 @@ func (f *fileCopyCloser) Close() (err error) {
 
 	defer func() {
 		e := from.Close()
-		if err != nil {
+		if err == nil {
 			err = e
 		}
 	}()
@@ -357,7 +357,7 @@ func (f *fileCopyCloser) Close() (err error) {
 
 	defer func() {
 		e := to.Close()
-		if err != nil {
+		if err == nil {
 			err = e
 		}
 	}()
-- 
2.43.0


From 5b76f98de9b9ded1d72f4e3aa11d64e405146e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:34 +0000
Subject: [PATCH 22/50] fix: crash when no temporary file could be created

---
 rsync.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rsync.go b/rsync.go
index 4064782..cf7e70f 100644
--- a/rsync.go
+++ b/rsync.go
@@ -266,6 +266,11 @@ func getOutFile(filename string) (f io.WriteCloser, err error) {
 
 func getTempFile() (f io.WriteCloser, filename string, err error) {
 	ft, err := ioutil.TempFile(".", "tmp_")
+
+	if err != nil {
+		return
+	}
+
 	filename = ft.Name()
 	f = ft
 	return
-- 
2.43.0


From b942e7eb4841f587512465fa0d0deda8c0b6f424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 23/50] fix: closing after a failed patch overwrote the local
 file

---
 rsync.go | 44 +++++++++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/rsync.go b/rsync.go
index cf7e70f..efe9144 100644
--- a/rsync.go
+++ b/rsync.go
@@ -48,6 +48,9 @@ type RSync struct {
 	Summary FileSummary
 
 	OnClose []closer
+
+	// the output is complete, and no file of it has failed to close
+	complete bool
 }
 
 type closer interface {
@@ -110,7 +113,7 @@ func MakeRSync(
 
 	var out io.WriteCloser
 	var outFilename = OutFile
-	var copier closer
+	var copier *fileCopyCloser
 
 	if useTempFile {
 		out, outFilename, err = getTempFile()
@@ -130,7 +133,6 @@ func MakeRSync(
 			return
 		}
 
-		copier = nullCloser{}
 	}
 
 	// blocksource
@@ -160,15 +162,23 @@ func MakeRSync(
 		OnClose: []closer{
 			&fileCloser{inputFile, InputFile},
 			&fileCloser{out, outFilename},
-			copier,
 		},
 	}
 
+	if copier != nil {
+		copier.rsync = r
+		r.OnClose = append(r.OnClose, copier)
+	}
+
 	return
 }
 
 // Patch the files
 func (rsync *RSync) Patch() (err error) {
+	defer func() {
+		rsync.complete = err == nil
+	}()
+
 	numMatchers := int64(DefaultConcurrency)
 	blockSize := rsync.Summary.GetBlockSize()
 	blockCount := rsync.Summary.GetBlockCount()
@@ -302,13 +312,17 @@ func IsSameFile(path1, path2 string) (same bool, err error) {
 
 // Close - close open files, copy to the final location from
 // a temporary one if neede
-func (rsync *RSync) Close() error {
+func (rsync *RSync) Close() (err error) {
 	for _, f := range rsync.OnClose {
-		if err := f.Close(); err != nil {
-			return err
+		if e := f.Close(); e != nil {
+			rsync.complete = false
+
+			if err == nil {
+				err = e
+			}
 		}
 	}
-	return nil
+	return
 }
 
 type fileCloser struct {
@@ -329,18 +343,18 @@ func (f *fileCloser) Close() error {
 	return nil
 }
 
-type nullCloser struct{}
-
-func (n nullCloser) Close() error {
-	return nil
-}
-
 type fileCopyCloser struct {
-	from string
-	to   string
+	from  string
+	to    string
+	rsync *RSync
 }
 
+// Close - replace the content of the final file, once it is known to be complete
 func (f *fileCopyCloser) Close() (err error) {
+	if !f.rsync.complete {
+		return
+	}
+
 	from, err := os.OpenFile(f.from, os.O_RDONLY, 0)
 
 	if err != nil {
-- 
2.43.0


From f5b2d201600b7604996aae0edd6c07d14438e882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:42 +0000
Subject: [PATCH 24/50] fix: the temporary file of an in-place patch was never
 removed

---
 rsync.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/rsync.go b/rsync.go
index efe9144..3a21c01 100644
--- a/rsync.go
+++ b/rsync.go
@@ -351,10 +351,22 @@ type fileCopyCloser struct {
 
 // Close - replace the content of the final file, once it is known to be complete
 func (f *fileCopyCloser) Close() (err error) {
-	if !f.rsync.complete {
-		return
+	if f.rsync.complete {
+		// if it fails, the temporary file has the only copy
+		if err = f.copy(); err != nil {
+			return fmt.Errorf(
+				"Could not copy %v to %v: %v",
+				f.from,
+				f.to,
+				err,
+			)
+		}
 	}
 
+	return os.Remove(f.from)
+}
+
+func (f *fileCopyCloser) copy() (err error) {
 	from, err := os.OpenFile(f.from, os.O_RDONLY, 0)
 
 	if err != nil {
-- 
2.43.0


From db9911013fff17682bed5bfca0c6da2e1a365b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:46 +0000
Subject: [PATCH 25/50] fix: the block source of a patch was never closed

---
 rsync.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rsync.go b/rsync.go
index 3a21c01..5f7e250 100644
--- a/rsync.go
+++ b/rsync.go
@@ -160,6 +160,7 @@ func MakeRSync(
 		Source:  source,
 		Summary: Summary,
 		OnClose: []closer{
+			source,
 			&fileCloser{inputFile, InputFile},
 			&fileCloser{out, outFilename},
 		},
-- 
2.43.0


From a98d785ba6a46349485024513eb93b18dae758dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:24 +0000
Subject: [PATCH 26/50] fix: an existing output had to be readable

---
 rsync.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsync.go b/rsync.go
index 5f7e250..67fb7ab 100644
--- a/rsync.go
+++ b/rsync.go
@@ -272,7 +272,7 @@ func (w *fileSizeWriter) Write(p []byte) (n int, err error) {
 
 func getOutFile(filename string) (f io.WriteCloser, err error) {
 	// an existing file may be longer than the new one
-	return os.Create(filename)
+	return os.OpenFile(filename, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0666)
 }
 
 func getTempFile() (f io.WriteCloser, filename string, err error) {
-- 
2.43.0


From 932c9bc1cf143ee2ec94be5c6d836b2cf7bf7fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:28 +0000
Subject: [PATCH 27/50] fix: closing again after failing to copy over the local
 file removed the only copy

---
 rsync.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rsync.go b/rsync.go
index 67fb7ab..1bf8f8b 100644
--- a/rsync.go
+++ b/rsync.go
@@ -348,10 +348,17 @@ type fileCopyCloser struct {
 	from  string
 	to    string
 	rsync *RSync
+	done  bool
 }
 
 // Close - replace the content of the final file, once it is known to be complete
 func (f *fileCopyCloser) Close() (err error) {
+	if f.done {
+		return
+	}
+
+	f.done = true
+
 	if f.rsync.complete {
 		// if it fails, the temporary file has the only copy
 		if err = f.copy(); err != nil {
-- 
2.43.0


From cdbff6d4f5e156c726c1adca96d13bb926dc956e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:32 +0000
Subject: [PATCH 28/50] fix: patching again after a failure installed a broken
 file

---
 rsync.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rsync.go b/rsync.go
index 1bf8f8b..6e0587e 100644
--- a/rsync.go
+++ b/rsync.go
@@ -3,6 +3,7 @@ package gosync
 import (
 	"bufio"
 	"crypto/md5"
+	"errors"
 	"fmt"
 	"io"
 	"io/ioutil"
@@ -51,6 +52,8 @@ type RSync struct {
 
 	// the output is complete, and no file of it has failed to close
 	complete bool
+	// the output may hold a part of the file
+	failed bool
 }
 
 type closer interface {
@@ -176,8 +179,13 @@ func MakeRSync(
 
 // Patch the files
 func (rsync *RSync) Patch() (err error) {
+	if rsync.failed {
+		return errors.New("Patching has already failed, the output is not usable")
+	}
+
 	defer func() {
 		rsync.complete = err == nil
+		rsync.failed = err != nil
 	}()
 
 	numMatchers := int64(DefaultConcurrency)
-- 
2.43.0


From 9d62da9ff5bdbc8809820fb08a186ae29c437c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:00 +0000
Subject: [PATCH 29/50] fix: the patch command ignored invalid indexes

---
 cmd/gosync/common.go | 22 ++++++++++++++++++++++
 cmd/gosync/patch.go  | 18 ++++++++++++++++++
 2 files changed, 40 insertions(+)

diff --git a/cmd/gosync/common.go b/cmd/gosync/common.go
index 8203952..01c1876 100644
--- a/cmd/gosync/common.go
+++ b/cmd/gosync/common.go
@@ -205,9 +205,31 @@ func readHeadersAndCheck(
 	}
 
 	err = binary.Read(r, binary.LittleEndian, &blocksize)
+	if err != nil {
+		return
+	}
+
+	if filesize < 0 || blocksize == 0 {
+		err = fmt.Errorf(
+			"invalid file size (%v) or block size (%v) in the file header",
+			filesize,
+			blocksize,
+		)
+	}
 	return
 }
 
+// the number of blocks in a file, of which the last may be a partial one
+func expectedBlockCount(filesize int64, blocksize uint32) uint64 {
+	count := uint64(filesize) / uint64(blocksize)
+
+	if uint64(filesize)%uint64(blocksize) != 0 {
+		count++
+	}
+
+	return count
+}
+
 func readIndex(r io.Reader, blocksize uint) (
 	i *index.ChecksumIndex,
 	checksumLookup filechecksum.ChecksumLookup,
diff --git a/cmd/gosync/patch.go b/cmd/gosync/patch.go
index 448e689..791cb31 100644
--- a/cmd/gosync/patch.go
+++ b/cmd/gosync/patch.go
@@ -70,11 +70,29 @@ func Patch(c *cli.Context) error {
 			majorVersion,
 		)
 
+		if e != nil {
+			return e
+		}
+
 		index, checksumLookup, blockCount, err := readIndex(
 			indexReader,
 			uint(blocksize),
 		)
 
+		if err != nil {
+			return err
+		}
+
+		if expected := expectedBlockCount(filesize, blocksize); uint64(blockCount) != expected {
+			return fmt.Errorf(
+				"The index has %v blocks, but a file of %v bytes has %v blocks of %v bytes",
+				blockCount,
+				filesize,
+				expected,
+				blocksize,
+			)
+		}
+
 		fs := &gosync_main.BasicSummary{
 			ChecksumIndex:  index,
 			ChecksumLookup: checksumLookup,
-- 
2.43.0


From e526a90d6d3e3df1bbdd2e190f43d193c61ba2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 30/50] fix: the magic string of an index could be read
 partially

---
 cmd/gosync/common.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gosync/common.go b/cmd/gosync/common.go
index 01c1876..262d058 100644
--- a/cmd/gosync/common.go
+++ b/cmd/gosync/common.go
@@ -173,7 +173,7 @@ func readHeadersAndCheck(
 ) {
 	b := make([]byte, len(magicString))
 
-	if _, err = r.Read(b); err != nil {
+	if _, err = io.ReadFull(r, b); err != nil {
 		return
 	} else if string(b) != magicString {
 		err = errors.New(
-- 
2.43.0


From 521637d1102ff5cb8707360a4dd8e79b4ea50a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:08 +0000
Subject: [PATCH 31/50] fix: the diff command did not scan across its section
 boundaries and the end of the file

---
 cmd/gosync/common.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/cmd/gosync/common.go b/cmd/gosync/common.go
index 262d058..2751ba6 100644
--- a/cmd/gosync/common.go
+++ b/cmd/gosync/common.go
@@ -276,12 +276,8 @@ func multithreadedMatching(
 		offset := sectionSize * i
 
 		// Sections must overlap by blocksize (strictly blocksize - 1?)
-		if i > 0 {
-			offset -= int64(blocksize)
-		}
-
 		sectionReader := bufio.NewReaderSize(
-			io.NewSectionReader(localFile, offset, sectionSize),
+			io.NewSectionReader(localFile, offset, sectionSize+int64(blocksize)),
 			MB,
 		)
 
-- 
2.43.0


From 07070ad2527698973ce622358e356e9aa24b06c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:11 +0000
Subject: [PATCH 32/50] fix: the diff command reported missing blocks for an
 empty reference

---
 cmd/gosync/diff.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmd/gosync/diff.go b/cmd/gosync/diff.go
index 0d35f77..f384468 100644
--- a/cmd/gosync/diff.go
+++ b/cmd/gosync/diff.go
@@ -6,6 +6,7 @@ import (
 	"runtime"
 	"time"
 
+	"github.com/Redundancy/go-sync/comparer"
 	"github.com/urfave/cli/v2"
 )
 
@@ -131,7 +132,12 @@ func Diff(c *cli.Context) error {
 
 	// TODO: GetMissingBlocks uses the highest index, not the count, this can be pretty confusing
 	// Should clean up this interface to avoid that
-	missing := mergedBlocks.GetMissingBlocks(uint(index.BlockCount) - 1)
+	var missing comparer.BlockSpanList
+
+	if index.BlockCount > 0 {
+		missing = mergedBlocks.GetMissingBlocks(uint(index.BlockCount) - 1)
+	}
+
 	fmt.Println("Index blocks:", index.BlockCount)
 
 	totalMissingSize := uint64(0)
-- 
2.43.0


From b85e7f703991bdcffcdfeedd2ad3e135f05355d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:15 +0000
Subject: [PATCH 33/50] fix: failing commands exited successfully

---
 cmd/gosync/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/gosync/main.go b/cmd/gosync/main.go
index 4ff5578..c7aa6f6 100644
--- a/cmd/gosync/main.go
+++ b/cmd/gosync/main.go
@@ -61,5 +61,8 @@ func main() {
 		return nil
 	}
 
-	app.Run(os.Args)
+	if err := app.Run(os.Args); err != nil {
+		fmt.Fprintln(os.Stderr, err)
+		os.Exit(1)
+	}
 }
-- 
2.43.0


From 3b82bc11d7177d8a2a8d83365f864147a681bcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:19 +0000
Subject: [PATCH 34/50] fix: the build command overwrote an input with the name
 of its output

---
 cmd/gosync/build.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/gosync/build.go b/cmd/gosync/build.go
index 9051435..8928cf2 100644
--- a/cmd/gosync/build.go
+++ b/cmd/gosync/build.go
@@ -54,6 +54,12 @@ func Build(c *cli.Context) error {
 
 	ext := filepath.Ext(filename)
 	outfilePath := filename[:len(filename)-len(ext)] + ".gosync"
+
+	// do not overwrite the input
+	if info, err := os.Stat(outfilePath); err == nil && os.SameFile(s, info) {
+		outfilePath = filename + ".gosync"
+	}
+
 	outputFile, err := os.Create(outfilePath)
 
 	if err != nil {
-- 
2.43.0


From 624c8cd62351b253f613cbe092dcfd149a955bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 35/50] fix: the build command accepted invalid block sizes

---
 cmd/gosync/build.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/gosync/build.go b/cmd/gosync/build.go
index 8928cf2..6b86dfe 100644
--- a/cmd/gosync/build.go
+++ b/cmd/gosync/build.go
@@ -32,6 +32,12 @@ func init() {
 func Build(c *cli.Context) error {
 	filename := c.Args().Get(0)
 	blocksize := uint32(c.Int("blocksize"))
+
+	if size := c.Int("blocksize"); size <= 0 || int64(size) != int64(blocksize) {
+		fmt.Fprintf(os.Stderr, "Invalid block size: %v\n", size)
+		os.Exit(1)
+	}
+
 	generator := filechecksum.NewFileChecksumGenerator(uint(blocksize))
 	inputFile, err := os.Open(filename)
 
-- 
2.43.0


From 24bc88eed900f1c50da11b033c95901117961274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:07 +0000
Subject: [PATCH 36/50] fix: uniform reader ended at a read of no bytes

---
 util/readers/uniformreader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/readers/uniformreader.go b/util/readers/uniformreader.go
index e6045da..8de697e 100644
--- a/util/readers/uniformreader.go
+++ b/util/readers/uniformreader.go
@@ -20,7 +20,7 @@ func (r *uniformReader) Read(p []byte) (n int, err error) {
 		read = readable
 	}
 
-	if read == 0 {
+	if readable == 0 {
 		return 0, io.EOF
 	}
 
-- 
2.43.0


From 316392641d29af98006163e9f1d2cc85949d8232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:54 +0000
Subject: [PATCH 37/50] fix: sequential patcher ignored short writes of fetched
 blocks

---
 patcher/sequential/sequential.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/patcher/sequential/sequential.go b/patcher/sequential/sequential.go
index 9d8e15d..d4cdd7d 100644
--- a/patcher/sequential/sequential.go
+++ b/patcher/sequential/sequential.go
@@ -109,7 +109,13 @@ func SequentialPatcher(
 						)
 					}
 
-					if _, err := output.Write(result.Data); err != nil {
+					n, err := output.Write(result.Data)
+
+					if err == nil && n < len(result.Data) {
+						err = io.ErrShortWrite
+					}
+
+					if err != nil {
 						return fmt.Errorf(
 							"Could not write data to output: %v", 
 							err,
-- 
2.43.0


From 5dcf71eb4e9be77a25b02778aeec611e00ef6b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:56 +0000
Subject: [PATCH 38/50] fix: gzip encoded responses were only noticed in lower
 case and the first header

---
 blocksources/httpblocksource.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blocksources/httpblocksource.go b/blocksources/httpblocksource.go
index 0e93278..61dc8db 100644
--- a/blocksources/httpblocksource.go
+++ b/blocksources/httpblocksource.go
@@ -73,7 +73,8 @@ func (r *HttpRequester) DoRequest(startOffset int64, endOffset int64) (data []by
 	} else if rangedResponse.StatusCode != 206 {
 		return nil, RangedRequestNotSupportedError
 	} else if strings.Contains(
-		rangedResponse.Header.Get("Content-Encoding"),
+		// a header may be repeated, and its values do not depend on case
+		strings.ToLower(strings.Join(rangedResponse.Header["Content-Encoding"], ",")),
 		"gzip",
 	) {
 		return nil, ResponseFromServerWasGZiped
-- 
2.43.0


From dcc8ac4198152d414bf8ff41a29eee3ce6615ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:12 +0000
Subject: [PATCH 39/50] fix: the diff command took a local file that it could
 not read for a different one

---
 cmd/gosync/common.go | 24 +++++++++++++++++++++++-
 cmd/gosync/diff.go   |  8 +++++++-
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/cmd/gosync/common.go b/cmd/gosync/common.go
index 2751ba6..cea145f 100644
--- a/cmd/gosync/common.go
+++ b/cmd/gosync/common.go
@@ -9,6 +9,7 @@ import (
 	"net/http"
 	"net/url"
 	"os"
+	"sync"
 
 	"github.com/Redundancy/go-sync/chunks"
 	"github.com/Redundancy/go-sync/comparer"
@@ -257,8 +258,29 @@ func readIndex(r io.Reader, blocksize uint) (
 	return
 }
 
+// failureRecorder remembers that reading failed, which the matching blocks
+// do not tell
+type failureRecorder struct {
+	io.ReaderAt
+
+	mutex sync.Mutex
+	err   error
+}
+
+func (r *failureRecorder) ReadAt(p []byte, off int64) (n int, err error) {
+	n, err = r.ReaderAt.ReadAt(p, off)
+
+	if err != nil && err != io.EOF {
+		r.mutex.Lock()
+		r.err = err
+		r.mutex.Unlock()
+	}
+
+	return
+}
+
 func multithreadedMatching(
-	localFile *os.File,
+	localFile io.ReaderAt,
 	idx *index.ChecksumIndex,
 	localFileSize,
 	matcherCount int64,
diff --git a/cmd/gosync/diff.go b/cmd/gosync/diff.go
index f384468..e759491 100644
--- a/cmd/gosync/diff.go
+++ b/cmd/gosync/diff.go
@@ -90,8 +90,10 @@ func Diff(c *cli.Context) error {
 		num_matchers = 1
 	}
 
+	reader := &failureRecorder{ReaderAt: localFile}
+
 	merger, compare := multithreadedMatching(
-		localFile,
+		reader,
 		index,
 		localFile_size,
 		num_matchers,
@@ -100,6 +102,10 @@ func Diff(c *cli.Context) error {
 
 	mergedBlocks := merger.GetMergedBlocks()
 
+	if reader.err != nil {
+		return fmt.Errorf("Could not read %v: %v", localFilename, reader.err)
+	}
+
 	fmt.Println("\nMatched:")
 	totalMatchingSize := uint64(0)
 	matchedBlockCountAfterMerging := uint(0)
-- 
2.43.0


From 4b3031c802ad4e009df7941000fa66a42a902d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:13 +0000
Subject: [PATCH 40/50] fix: a failing patch command left its temporary file
 behind

---
 cmd/gosync/patch.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/gosync/patch.go b/cmd/gosync/patch.go
index 791cb31..c4ab0be 100644
--- a/cmd/gosync/patch.go
+++ b/cmd/gosync/patch.go
@@ -115,6 +115,8 @@ func Patch(c *cli.Context) error {
 		err = rsync.Patch()
 
 		if err != nil {
+			// nothing is installed, but the temporary file is removed
+			rsync.Close()
 			return err
 		}
 
-- 
2.43.0


From 80b0686c0efba667c9daa463c5142f1a10746812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:14 +0000
Subject: [PATCH 41/50] fix: the input stayed open if the output could not be
 created

---
 rsync.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsync.go b/rsync.go
index 6e0587e..28c441d 100644
--- a/rsync.go
+++ b/rsync.go
@@ -122,6 +122,7 @@ func MakeRSync(
 		out, outFilename, err = getTempFile()
 
 		if err != nil {
+			inputFile.Close()
 			return
 		}
 
@@ -133,6 +134,7 @@ func MakeRSync(
 		out, err = getOutFile(OutFile)
 
 		if err != nil {
+			inputFile.Close()
 			return
 		}
 
-- 
2.43.0


From 79efa46380f06ee098ad3abc953d0c7360985977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:23 +0000
Subject: [PATCH 42/50] fix: read no more of an HTTP response than the range
 asked for

---
 blocksources/httpblocksource.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blocksources/httpblocksource.go b/blocksources/httpblocksource.go
index 61dc8db..e69101d 100644
--- a/blocksources/httpblocksource.go
+++ b/blocksources/httpblocksource.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"io"
 	"net/http"
 	"strings"
 )
@@ -80,7 +81,8 @@ func (r *HttpRequester) DoRequest(startOffset int64, endOffset int64) (data []by
 		return nil, ResponseFromServerWasGZiped
 	} else {
 		buf := bytes.NewBuffer(make([]byte, 0, endOffset-startOffset))
-		_, err = buf.ReadFrom(rangedResponse.Body)
+		// one byte too many is enough to refuse the response
+		_, err = buf.ReadFrom(io.LimitReader(rangedResponse.Body, endOffset-startOffset+1))
 
 		if err != nil {
 			err = fmt.Errorf(
-- 
2.43.0


From dd4c03b703156223053beb6f46ed7298658596e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:21 +0000
Subject: [PATCH 43/50] fix: start requests only within the allowed number of
 bytes in flight

---
 blocksources/blocksourcebase.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/blocksources/blocksourcebase.go b/blocksources/blocksourcebase.go
index 1541d34..1fa6096 100644
--- a/blocksources/blocksourcebase.go
+++ b/blocksources/blocksourcebase.go
@@ -145,7 +145,7 @@ func (s *BlockSourceBase) loop() {
 
 	state := STATE_RUNNING
 	inflightRequests := 0
-	//inflightBytes := int64(0)
+	inflightBytes := int64(0)
 	pendingErrors := &errorWatcher{errorChannel: s.errorChannel}
 	pendingResponse := &pendingResponseHelper{responseChannel: s.responseChannel}
 	resultChan := make(chan asyncResult)
@@ -167,10 +167,19 @@ func (s *BlockSourceBase) loop() {
 
 		// Start any pending work that we can, unless we're giving up
 		for state == STATE_RUNNING && inflightRequests < s.ConcurrentRequests && len(requestQueue) > 0 {
-			inflightRequests += 1
-
 			nextRequest := requestQueue[len(requestQueue)-1]
 
+			requestBytes := s.BlockSourceResolver.GetBlockEndOffset(nextRequest.EndBlockID) -
+				s.BlockSourceResolver.GetBlockStartOffset(nextRequest.StartBlockID)
+
+			// a single request may be larger than what is allowed
+			if s.ConcurrentBytes > 0 && inflightBytes > 0 && requestBytes > s.ConcurrentBytes-inflightBytes {
+				break
+			}
+
+			inflightRequests += 1
+			inflightBytes += requestBytes
+
 			requestOrdering = append(requestOrdering, nextRequest.StartBlockID)
 			sort.Sort(sort.Reverse(requestOrdering))
 			go func() {
@@ -267,6 +276,9 @@ func (s *BlockSourceBase) loop() {
 				break
 			}
 
+			// what is pending delivery may differ from what was requested
+			inflightBytes += int64(len(result.data)) - expectedLength
+
 			responseOrdering = append(responseOrdering,
 				patcher.BlockReponse{
 					StartBlock: result.startBlockID,
@@ -278,6 +290,7 @@ func (s *BlockSourceBase) loop() {
 			sort.Sort(sort.Reverse(responseOrdering))
 
 		case pendingResponse.sendIfPending() <- pendingResponse.Response():
+			inflightBytes -= int64(len(responseOrdering[len(responseOrdering)-1].Data))
 			responseOrdering = responseOrdering[:len(responseOrdering)-1]
 			requestOrdering = requestOrdering[:len(requestOrdering)-1]
 
-- 
2.43.0


From 98fb4544bb9bbebb79cdd03b9730c046ac2e460c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:24 +0000
Subject: [PATCH 44/50] fix: request no more missing blocks at a time than the
 allowed storage holds

---
 patcher/sequential/sequential.go | 47 ++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/patcher/sequential/sequential.go b/patcher/sequential/sequential.go
index d4cdd7d..797f8f2 100644
--- a/patcher/sequential/sequential.go
+++ b/patcher/sequential/sequential.go
@@ -81,29 +81,30 @@ func SequentialPatcher(
 
 		} else if withinFirstBlockOfRemoteBlocks(currentBlock, requiredRemoteBlocks) {
 			firstMissing := requiredRemoteBlocks[0]
+			request := limitToStorage(firstMissing, currentBlock, maxBlockStorage)
 
-			if err := reference.RequestBlocks(firstMissing); err != nil {
+			if err := reference.RequestBlocks(request); err != nil {
 				return fmt.Errorf("Could not request blocks: %v", err)
 			}
 
 			select {
 			case result := <-reference.GetResultChannel():
 				if result.StartBlock == currentBlock {
-					blockCount := firstMissing.EndBlock - firstMissing.StartBlock + 1
+					blockCount := request.EndBlock - request.StartBlock + 1
 					completed := calculateNumberOfCompletedBlocks(
 						len(result.Data),
-						firstMissing.BlockSize,
+						request.BlockSize,
 					)
 
 					// only the very last block may not be a full one
-					isLast := firstMissing.EndBlock == maxBlock
-					isFull := int64(len(result.Data)) == int64(blockCount)*firstMissing.BlockSize
+					isLast := request.EndBlock == maxBlock
+					isFull := int64(len(result.Data)) == int64(blockCount)*request.BlockSize
 
 					if completed != blockCount || (!isLast && !isFull) {
 						return fmt.Errorf(
 							"Unexpected reponse length from remote source: blocks %v-%v (got %v blocks, %v bytes)",
-							firstMissing.StartBlock,
-							firstMissing.EndBlock,
+							request.StartBlock,
+							request.EndBlock,
 							completed,
 							len(result.Data),
 						)
@@ -122,7 +123,10 @@ func SequentialPatcher(
 						)
 					} else {
 						currentBlock += completed
-						requiredRemoteBlocks = requiredRemoteBlocks[1:]
+
+						if currentBlock > firstMissing.EndBlock {
+							requiredRemoteBlocks = requiredRemoteBlocks[1:]
+						}
 					}
 				} else {
 					return fmt.Errorf(
@@ -158,6 +162,33 @@ func withinFirstBlockOfLocalBlocks(currentBlock uint, localBlocks []patcher.Foun
 	return len(localBlocks) > 0 && localBlocks[0].StartBlock <= currentBlock && localBlocks[0].EndBlock >= currentBlock
 }
 
+// the part of a missing span from currentBlock on that fits into the allowed storage,
+// but at least a single block
+func limitToStorage(
+	missing patcher.MissingBlockSpan,
+	currentBlock uint,
+	maxBlockStorage uint64,
+) patcher.MissingBlockSpan {
+	maxBlocks := uint64(1)
+
+	if missing.BlockSize > 0 && maxBlockStorage > uint64(missing.BlockSize) {
+		maxBlocks = maxBlockStorage / uint64(missing.BlockSize)
+	}
+
+	limited := missing
+	limited.StartBlock = currentBlock
+
+	if uint64(missing.EndBlock-currentBlock) >= maxBlocks {
+		limited.EndBlock = currentBlock + uint(maxBlocks) - 1
+	}
+
+	if uint(len(missing.ExpectedSums)) == missing.EndBlock-missing.StartBlock+1 {
+		limited.ExpectedSums = missing.ExpectedSums[currentBlock-missing.StartBlock : limited.EndBlock-missing.StartBlock+1]
+	}
+
+	return limited
+}
+
 func calculateNumberOfCompletedBlocks(resultLength int, blockSize int64) (completedBlockCount uint) {
 	// TODO: lots of casting to uint here, is it safe?
 	completedBlockCount = uint(resultLength) / uint(blockSize)
-- 
2.43.0


From b09cdc1a618e7622d53a69be63a776b25e042615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:34 +0000
Subject: [PATCH 45/50] fix: do not verify blocks when a summary has no
 checksum lookup

---
 rsync.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/rsync.go b/rsync.go
index 28c441d..1130992 100644
--- a/rsync.go
+++ b/rsync.go
@@ -95,6 +95,16 @@ func (fs *BasicSummary) GetFileSize() int64 {
 	return fs.FileSize
 }
 
+// GetStrongChecksumForBlock gets the checksum to verify a block with,
+// or nil if there is no ChecksumLookup, which disables the verification
+func (fs *BasicSummary) GetStrongChecksumForBlock(blockID int) []byte {
+	if fs.ChecksumLookup == nil {
+		return nil
+	}
+
+	return fs.ChecksumLookup.GetStrongChecksumForBlock(blockID)
+}
+
 // MakeRSync creates an RSync object using string paths,
 // inferring most of the configuration
 func MakeRSync(
-- 
2.43.0


From ea0128a2bef3f0ddf33472e012813a93af3f77a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:55 +0000
Subject: [PATCH 46/50] fix: report an index file that can not be closed

---
 cmd/gosync/build.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cmd/gosync/build.go b/cmd/gosync/build.go
index 6b86dfe..15b820b 100644
--- a/cmd/gosync/build.go
+++ b/cmd/gosync/build.go
@@ -73,8 +73,6 @@ func Build(c *cli.Context) error {
 		os.Exit(1)
 	}
 
-	defer outputFile.Close()
-
 	if err = writeHeaders(
 		outputFile,
 		magicString,
@@ -95,6 +93,11 @@ func Build(c *cli.Context) error {
 	_, err = generator.GenerateChecksums(inputFile, outputFile)
 	end := time.Now()
 
+	// the index may only be complete once it is closed
+	if e := outputFile.Close(); err == nil {
+		err = e
+	}
+
 	if err != nil {
 		fmt.Fprintf(
 			os.Stderr,
-- 
2.43.0


From 0b484e1d78143026b8622d637de66993fd05239b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:55 +0000
Subject: [PATCH 47/50] fix: report an input whose size is not that of its
 content when building an index

---
 cmd/gosync/build.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/cmd/gosync/build.go b/cmd/gosync/build.go
index 15b820b..f084d99 100644
--- a/cmd/gosync/build.go
+++ b/cmd/gosync/build.go
@@ -2,6 +2,7 @@ package main
 
 import (
 	"fmt"
+	"io"
 	"os"
 	"path/filepath"
 	"time"
@@ -90,9 +91,15 @@ func Build(c *cli.Context) error {
 	}
 
 	start := time.Now()
-	_, err = generator.GenerateChecksums(inputFile, outputFile)
+	counter := &countingReader{Reader: inputFile}
+	_, err = generator.GenerateChecksums(counter, outputFile)
 	end := time.Now()
 
+	// the size in the header must be the one of the indexed content
+	if err == nil && counter.count != file_size {
+		err = fmt.Errorf("%v bytes were read from a file of %v bytes", counter.count, file_size)
+	}
+
 	// the index may only be complete once it is closed
 	if e := outputFile.Close(); err == nil {
 		err = e
@@ -129,3 +136,15 @@ func Build(c *cli.Context) error {
 
 	return nil
 }
+
+// countingReader counts the bytes that are read through it
+type countingReader struct {
+	io.Reader
+	count int64
+}
+
+func (r *countingReader) Read(p []byte) (n int, err error) {
+	n, err = r.Reader.Read(p)
+	r.count += int64(n)
+	return
+}
-- 
2.43.0


From e848b5e7a46bce64bc2d48ea616633a38e38c90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:18 +0000
Subject: [PATCH 48/50] fix: read the index of a patch from a URL too, as
 documented

---
 cmd/gosync/common.go | 2 +-
 cmd/gosync/patch.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/gosync/common.go b/cmd/gosync/common.go
index cea145f..9b9f4f9 100644
--- a/cmd/gosync/common.go
+++ b/cmd/gosync/common.go
@@ -94,7 +94,7 @@ func getLocalOrRemoteFile(path string) (io.ReadCloser, error) {
 	switch {
 	case err != nil:
 		return os.Open(path)
-	case url.Scheme == "":
+	case url.Scheme != "http" && url.Scheme != "https":
 		return os.Open(path)
 	default:
 		response, err := http.Get(path)
diff --git a/cmd/gosync/patch.go b/cmd/gosync/patch.go
index c4ab0be..4843bfd 100644
--- a/cmd/gosync/patch.go
+++ b/cmd/gosync/patch.go
@@ -58,7 +58,7 @@ func Patch(c *cli.Context) error {
 			outFilename = c.Args().Get(3)
 		}
 
-		indexReader, e := os.Open(summaryFile)
+		indexReader, e := getLocalOrRemoteFile(summaryFile)
 		if e != nil {
 			return e
 		}
-- 
2.43.0


From 1ee556d816bda9188c35be04fb88aeb52ca3bb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:36 +0000
Subject: [PATCH 49/50] fix: refuse to compare with less than one stream

---
 cmd/gosync/diff.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/gosync/diff.go b/cmd/gosync/diff.go
index e759491..f006181 100644
--- a/cmd/gosync/diff.go
+++ b/cmd/gosync/diff.go
@@ -83,6 +83,10 @@ func Diff(c *cli.Context) error {
 
 	num_matchers := int64(c.Int("p"))
 
+	if num_matchers < 1 {
+		return fmt.Errorf("Invalid number of streams: %v", num_matchers)
+	}
+
 	localFile_size := fi.Size()
 
 	// Don't split up small files
-- 
2.43.0


From 5b7941ec671d1c1c1506c4fb796af6960bf548a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:32:31 +0000
Subject: [PATCH 50/50] fix: decompressed blocks were refused when they are
 verified

---
 blocksources/blocksourcebase.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/blocksources/blocksourcebase.go b/blocksources/blocksourcebase.go
index 1fa6096..54c9677 100644
--- a/blocksources/blocksourcebase.go
+++ b/blocksources/blocksourcebase.go
@@ -259,11 +259,15 @@ func (s *BlockSourceBase) loop() {
 				break
 			}
 
-			// data beyond the requested range can not be verified
 			expectedLength := s.BlockSourceResolver.GetBlockEndOffset(result.endBlockID) -
 				s.BlockSourceResolver.GetBlockStartOffset(result.startBlockID)
 
-			if s.Verifier != nil && (int64(len(result.data)) > expectedLength ||
+			// data beyond the requested range can not be verified
+			// (other resolvers may have compressed ranges, with more data in them)
+			_, uncompressed := s.BlockSourceResolver.(*FixedSizeBlockResolver)
+			tooLong := uncompressed && int64(len(result.data)) > expectedLength
+
+			if s.Verifier != nil && (tooLong ||
 				!s.Verifier.VerifyBlockRange(result.startBlockID, result.data)) {
 				pendingErrors.setError(
 					fmt.Errorf(
-- 
2.43.0

