From f275fb6fa2a6b129e850855a24dda5d63d6cba8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:35 +0000
Subject: [PATCH 01/43] fix: block major version must not depend on map
 iteration order

GetBlockMajorVersion kept whichever passed upgrade was visited last, so
above the second upgrade height the result was random.
---
 config/network.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/network.go b/config/network.go
index fd0825f..a050afd 100644
--- a/config/network.go
+++ b/config/network.go
@@ -148,7 +148,7 @@ func (n *Network) GetBlockMajorVersion(blockIndex uint32) byte {
 	version := BlockMajorVersion1
 
 	for majorVersion, upgradeHeight := range n.blockUpgradesMap {
-		if blockIndex > upgradeHeight {
+		if blockIndex > upgradeHeight && majorVersion > version {
 			version = majorVersion
 		}
 	}
-- 
2.43.0


From 00a4c2daaa1bf603878d412f21b9454cf4a43a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:35 +0000
Subject: [PATCH 02/43] fix: AlternativeBlockAllowed deadlocked on its own lock

It called IsInCheckpointZone, which takes the same mutex, whenever the
alternative block was deeper than the unlock window.
---
 config/checkpoints.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/config/checkpoints.go b/config/checkpoints.go
index 5d336cd..b23dea0 100644
--- a/config/checkpoints.go
+++ b/config/checkpoints.go
@@ -76,6 +76,11 @@ func (cp *checkpoints) IsInCheckpointZone(index uint32) bool {
 	cp.Lock()
 	defer cp.Unlock()
 
+	return cp.isInCheckpointZone(index)
+}
+
+// isInCheckpointZone must be called with the lock held
+func (cp *checkpoints) isInCheckpointZone(index uint32) bool {
 	// No checkpoints added
 	if len(cp.pointsSorted) == 0 {
 		return false
@@ -120,7 +125,7 @@ func (cp *checkpoints) AlternativeBlockAllowed(bcSize uint32, index uint32) erro
 	}
 
 	uw := MinedMoneyUnlockWindow
-	if index < bcSize-uw && bcSize > uw && !cp.IsInCheckpointZone(index) {
+	if index < bcSize-uw && bcSize > uw && !cp.isInCheckpointZone(index) {
 		err := ErrCheckpointsTooDeepReorg
 		logger.Error(err)
 		return err
-- 
2.43.0


From 20c2e431a010fe0c30920ce099bffad61c2f9fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:36 +0000
Subject: [PATCH 03/43] fix: MedianSlice overflowed for large middle values

---
 utils/math.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/math.go b/utils/math.go
index 10f991f..69ae942 100644
--- a/utils/math.go
+++ b/utils/math.go
@@ -17,7 +17,8 @@ func MedianSlice(sl []uint64) uint64 {
 
 	n := l / 2
 	if l%2 == 0 {
-		return (sl[n-1] + sl[n]) / 2
+		// the slice is sorted, so this is the mean of the two without overflow
+		return sl[n-1] + (sl[n]-sl[n-1])/2
 	} else {
 		return sl[n]
 	}
-- 
2.43.0


From 463874f89c4cacac80cdd83c626b4279efa1bb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:50 +0000
Subject: [PATCH 04/43] fix: a day has 24 hours

The expected number of blocks per day (and with it the version 1 difficulty
window and the yearly tail emission) was computed from 25 hours.
---
 config/params.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/params.go b/config/params.go
index 519af10..f8477d2 100644
--- a/config/params.go
+++ b/config/params.go
@@ -67,7 +67,7 @@ const (
 	MaxExtraSize = 1024
 
 	difficultyTarget             = 240
-	expectedNumberOfBlocksPerDay = (25 * 60 * 60) / difficultyTarget
+	expectedNumberOfBlocksPerDay = (24 * 60 * 60) / difficultyTarget
 
 	difficultyWindow  = expectedNumberOfBlocksPerDay
 	difficultyWindow2 = 17
-- 
2.43.0


From 181c47c1a2800aa18396974b599e19d26ab2be90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:50 +0000
Subject: [PATCH 05/43] fix: fee for a large extra must grow with its size

GetFeePerByte divided the fee by the extra size, so the surcharge shrank to
nothing; it is one percent of the minimal fee for every byte above 100.
---
 config/network.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/network.go b/config/network.go
index a050afd..5e55b10 100644
--- a/config/network.go
+++ b/config/network.go
@@ -273,7 +273,7 @@ func (n *Network) MinimalFeeValidator(height uint32) uint64 {
 
 func (n *Network) GetFeePerByte(txExtraSize uint64, minFee uint64) uint64 {
 	if txExtraSize > 100 {
-		return minFee / (100 * (txExtraSize - 100))
+		return minFee / 100 * (txExtraSize - 100)
 	}
 
 	return 0
-- 
2.43.0


From 5a4ec44bfec82f311b68244d322ca51ff81317be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:50 +0000
Subject: [PATCH 06/43] fix: version 4 difficulty must divide by the weighted
 solve times

The LWMA formula is work*T*(N+1)/(2*L); the code multiplied by L and used N*1.
---
 config/network.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/config/network.go b/config/network.go
index 5e55b10..582ef7a 100644
--- a/config/network.go
+++ b/config/network.go
@@ -475,7 +475,12 @@ func (n *Network) nextDifficultyV4(height uint32, timestamps []uint64, cumulativ
 		}
 	}
 
-	nextD := int64(cumulativeDifficulties[N]-cumulativeDifficulties[0]) * T * (N * 1) / 2 * L
+	// timestamps out of order may cancel out
+	if L < 1 {
+		L = 1
+	}
+
+	nextD := int64(cumulativeDifficulties[N]-cumulativeDifficulties[0]) * T * (N + 1) / (2 * L)
 	nextD = (nextD * 99) / 100
 
 	prevD := int64(cumulativeDifficulties[N] - cumulativeDifficulties[N-1])
-- 
2.43.0


From 6c4a469d2dba66f2565ca34f4d6a6131adf8c46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:50 +0000
Subject: [PATCH 07/43] fix: version 5 difficulty average and rounding

The average work is (last-first)/N and rounding to i is ((d+i/2)/i)*i; the
misplaced parentheses took almost the whole cumulative difficulty as average
and halved the result.
---
 config/network.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/config/network.go b/config/network.go
index 582ef7a..5d62db3 100644
--- a/config/network.go
+++ b/config/network.go
@@ -395,7 +395,7 @@ func (n *Network) nextDifficultyV5(height uint32, majorVersion byte, timestamps
 	}
 
 	nextD := int64(0)
-	avgD := int64(cumulativeDifficulties[N]) - int64(cumulativeDifficulties[0])/N
+	avgD := (int64(cumulativeDifficulties[N]) - int64(cumulativeDifficulties[0])) / N
 
 	// Prevent round off error for small D and overflow for large D.
 	if avgD > 2000000*N*N*T {
@@ -408,7 +408,7 @@ func (n *Network) nextDifficultyV5(height uint32, majorVersion byte, timestamps
 	i := int64(1000000000)
 	for i > 1 {
 		if nextD > i*100 {
-			nextD = (((nextD + i) / 2) / i) * i
+			nextD = ((nextD + i/2) / i) * i
 			break
 		}
 
-- 
2.43.0


From 84c09b22c2ab3d249c195a082a0a580d57dea433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:50 +0000
Subject: [PATCH 08/43] fix: version 3 difficulty must weight solve times
 linearly

k = N*(N+1)/2 normalises weights 1..N, but every weight was 1.
---
 config/network.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/network.go b/config/network.go
index 5d62db3..4de1f92 100644
--- a/config/network.go
+++ b/config/network.go
@@ -543,7 +543,7 @@ func (n *Network) nextDifficultyV3(timestamps []uint64, cumulativeDifficulties [
 		solveTime = int64(timestamps[i]) - int64(timestamps[i-1])
 		solveTime = utils.MinInt64(T*7, utils.MaxInt64(solveTime, -6*T))
 		difficulty = int64(cumulativeDifficulties[i]) - int64(cumulativeDifficulties[i-1])
-		LWMA += float64(solveTime*1) / k
+		LWMA += float64(solveTime*int64(i)) / k
 		sumInverseD += 1 / float64(difficulty)
 	}
 
-- 
2.43.0


From 6527bd503cfa3e16e625efe683ff85456acc7963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:55 +0000
Subject: [PATCH 09/43] fix: transaction list lengths must not exceed the bytes
 left

A length field of the wire was passed to make() as it came, so a few bytes
could panic the node or make it allocate any amount of memory.
---
 cryptonote/transaction.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/cryptonote/transaction.go b/cryptonote/transaction.go
index 8979ab7..3c0c106 100644
--- a/cryptonote/transaction.go
+++ b/cryptonote/transaction.go
@@ -231,10 +231,14 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 	 * Read transaction Inputs
 	 */
 	inputsLen, err := binary.ReadUvarint(br)
-	tp.Inputs = make([]TransactionInput, inputsLen)
 	if err != nil {
 		return err
 	}
+	// every input takes at least one byte
+	if inputsLen > uint64(br.Len()) {
+		return errors.New("more inputs than bytes left")
+	}
+	tp.Inputs = make([]TransactionInput, inputsLen)
 
 	for inputIndex := uint64(0); inputIndex < inputsLen; inputIndex++ {
 		var tag byte
@@ -294,10 +298,14 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 	 * Read transaction Output
 	 */
 	outputLen, err := binary.ReadUvarint(br)
-	tp.Outputs = make([]TransactionOutput, outputLen)
 	if err != nil {
 		return err
 	}
+	// every output takes at least one byte
+	if outputLen > uint64(br.Len()) {
+		return errors.New("more outputs than bytes left")
+	}
+	tp.Outputs = make([]TransactionOutput, outputLen)
 
 	for outputIndex := uint64(0); outputIndex < outputLen; outputIndex++ {
 		amount, err := binary.ReadUvarint(br)
@@ -337,6 +345,9 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 		return err
 	}
 
+	if extraLen > uint64(br.Len()) {
+		return errors.New("extra is longer than the bytes left")
+	}
 	tp.Extra = make([]byte, extraLen)
 	if err := binary.Read(br, binary.LittleEndian, &tp.Extra); err != nil {
 		return err
-- 
2.43.0


From bcf703d0648189ddbb4cbcbe9c164bac24131bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:01 +0000
Subject: [PATCH 10/43] fix: extra nonce size above 2^63 passed the limit

The size was compared as a signed number and then allocated.
---
 cryptonote/transaction_extra.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptonote/transaction_extra.go b/cryptonote/transaction_extra.go
index 3892d72..4200949 100644
--- a/cryptonote/transaction_extra.go
+++ b/cryptonote/transaction_extra.go
@@ -86,7 +86,7 @@ func TxExtraFromBytes(b []byte) (*TransactionExtraFields, error) {
 			if err != nil {
 				return nil, err
 			}
-			if int(size) > TxExtraNonceMax {
+			if size > uint64(TxExtraNonceMax) {
 				return nil, ErrNonceMax
 			}
 
-- 
2.43.0


From 0f3f0c569f3a86e557eb3ef591d6b50a6547148f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:06 +0000
Subject: [PATCH 11/43] fix: errors reading block versions were swallowed

A block whose header or parent block ended early parsed without an error and
left a parent block without a base transaction, which crashes when hashed.
---
 cryptonote/block.go        | 4 ++--
 cryptonote/block_parent.go | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/cryptonote/block.go b/cryptonote/block.go
index 032779d..67de25c 100644
--- a/cryptonote/block.go
+++ b/cryptonote/block.go
@@ -227,12 +227,12 @@ func (h *BlockHeader) deserialize(reader *bytes.Reader) error {
 
 	majorVersion, err := binary.ReadUvarint(reader)
 	if err != nil {
-		return nil
+		return err
 	}
 
 	minorVersion, err := binary.ReadUvarint(reader)
 	if err != nil {
-		return nil
+		return err
 	}
 
 	switch uint8(majorVersion) {
diff --git a/cryptonote/block_parent.go b/cryptonote/block_parent.go
index 656e72b..e07a75c 100644
--- a/cryptonote/block_parent.go
+++ b/cryptonote/block_parent.go
@@ -68,17 +68,17 @@ func (pb *ParentBlock) deserialize(r *bytes.Reader) error {
 
 	majorVersion, err := binary.ReadUvarint(r)
 	if err != nil {
-		return nil
+		return err
 	}
 
 	minorVersion, err := binary.ReadUvarint(r)
 	if err != nil {
-		return nil
+		return err
 	}
 
 	timestamp, err := binary.ReadUvarint(r)
 	if err != nil {
-		return nil
+		return err
 	}
 
 	if err := prev.Read(r); err != nil {
-- 
2.43.0


From 26d7996c9db7e810f0c0a755942262cee79c518d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:12 +0000
Subject: [PATCH 12/43] fix: version 5 block headers could not be read or
 written

They have the fields of version 4; the signature that follows was handled
already.
---
 cryptonote/block.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cryptonote/block.go b/cryptonote/block.go
index 67de25c..3ac3faa 100644
--- a/cryptonote/block.go
+++ b/cryptonote/block.go
@@ -240,7 +240,7 @@ func (h *BlockHeader) deserialize(reader *bytes.Reader) error {
 		if err := prev.Read(reader); err != nil {
 			return err
 		}
-	case config.BlockMajorVersion1, config.BlockMajorVersion4:
+	case config.BlockMajorVersion1, config.BlockMajorVersion4, config.BlockMajorVersion5:
 		ts, err = binary.ReadUvarint(reader)
 		if err != nil {
 			return err
@@ -285,7 +285,7 @@ func (h *BlockHeader) serialize() []byte {
 	switch h.MajorVersion {
 	case config.BlockMajorVersion2, config.BlockMajorVersion3:
 		serialized.Write(h.PreviousBlockHash[:])
-	case config.BlockMajorVersion1, config.BlockMajorVersion4:
+	case config.BlockMajorVersion1, config.BlockMajorVersion4, config.BlockMajorVersion5:
 		written = binary.PutUvarint(buf, h.Timestamp)
 		serialized.Write(buf[:written])
 		serialized.Write(h.PreviousBlockHash[:])
-- 
2.43.0


From 6e945155b5f1153ad693a4667fa8ab7cb08cd05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:18 +0000
Subject: [PATCH 13/43] fix: signatures after an input without any were filed
 under the wrong input

Serialising or validating such a transaction indexed past the list.
---
 cryptonote/transaction.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cryptonote/transaction.go b/cryptonote/transaction.go
index 3c0c106..e70e9b1 100644
--- a/cryptonote/transaction.go
+++ b/cryptonote/transaction.go
@@ -391,10 +391,11 @@ func (ts *TransactionSignatures) deserialize(br *bytes.Reader, t *Transaction) e
 			return errors.New("unexpected signatures")
 		}
 
-		if sigSize == 0 {
+		if signaturesNotExpected {
 			continue
 		}
 
+		// inputs without signatures keep an empty list, the list is looked up by the index of the input
 		sigs := make([]crypto.Signature, sigSize)
 		for i := 0; i < sigSize; i++ {
 			if err := binary.Read(br, binary.LittleEndian, &sigs[i]); err != nil {
-- 
2.43.0


From b32b2073e8195feb9623e35665cfab6991f4c747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:23 +0000
Subject: [PATCH 14/43] fix: parent block transaction count was cut to 16 bits

The branch was read for the full count, so the block did not serialise back.
---
 cryptonote/block_parent.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cryptonote/block_parent.go b/cryptonote/block_parent.go
index e07a75c..6924027 100644
--- a/cryptonote/block_parent.go
+++ b/cryptonote/block_parent.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"fmt"
 	"github.com/r3volut1oner/go-karbo/crypto"
+	"math"
 )
 
 type ParentBlock struct {
@@ -94,6 +95,10 @@ func (pb *ParentBlock) deserialize(r *bytes.Reader) error {
 		return err
 	}
 
+	if txCount > math.MaxUint16 {
+		return errors.New("wrong parent block transactions count")
+	}
+
 	var baseTxBranch crypto.HashList
 	branchSize := treeDepth(int(txCount))
 	for i := 0; i < branchSize; i++ {
-- 
2.43.0


From f638cc2becc982a391ce626402ab76470aad92e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:52 +0000
Subject: [PATCH 15/43] fix: merge mining tag must be as long as it says

---
 cryptonote/transaction_extra.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cryptonote/transaction_extra.go b/cryptonote/transaction_extra.go
index 4200949..1de835c 100644
--- a/cryptonote/transaction_extra.go
+++ b/cryptonote/transaction_extra.go
@@ -106,10 +106,15 @@ func TxExtraFromBytes(b []byte) (*TransactionExtraFields, error) {
 				return nil, ErrMergeMiningTagMax
 			}
 
+			before := r.Len()
 			depth, err := binary.ReadUvarint(r)
 			if err != nil {
 				return nil, err
 			}
+			// the tag holds the depth and the 32 bytes of the root
+			if uint64(before-r.Len())+32 != size {
+				return nil, ErrMergeMiningTagMax
+			}
 
 			var h crypto.Hash
 			if err := h.Read(r); err != nil {
-- 
2.43.0


From b70ff202a87dec60bee10e2233894aaf11f014b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:25 +0000
Subject: [PATCH 16/43] fix: memory storage could not store the genesis block

---
 cryptonote/storage_memory.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cryptonote/storage_memory.go b/cryptonote/storage_memory.go
index d0cdd84..4c01499 100644
--- a/cryptonote/storage_memory.go
+++ b/cryptonote/storage_memory.go
@@ -34,6 +34,7 @@ func NewMemoryStorage() Storage {
 	return &memoryStorage{
 		blockIndex:                            map[uint32]*Block{},
 		blockInfosIndex:                       map[uint32]*blockInfo{},
+		blockInfosHashIndex:                   map[crypto.Hash]*blockInfo{},
 		transactionsIndex:                     map[uint32]*[]Transaction{},
 		spentKeysImagesIndex:                  map[uint32]*[]crypto.KeyImage{},
 		spentMultisignatureGlobalIndexesIndex: map[uint32]*[]MultisigAmountGlobalOutputIndexPair{},
@@ -43,6 +44,7 @@ func NewMemoryStorage() Storage {
 func (s *memoryStorage) Init(genesisBlock *Block) error {
 	info := blockInfo{
 		Index:                0,
+		Hash:                 *genesisBlock.Hash(),
 		CumulativeDifficulty: 1,
 		Size:                 genesisBlock.BaseTransaction.Size(),
 		TotalGeneratedCoins:  genesisBlock.BaseTransaction.Outputs[0].Amount,
-- 
2.43.0


From 7259900dd2554db31c5fb5b332dc8d30e381c69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:31 +0000
Subject: [PATCH 17/43] fix: TopIndex released a read lock as a write lock

---
 cryptonote/storage_memory.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cryptonote/storage_memory.go b/cryptonote/storage_memory.go
index 4c01499..2a05bd0 100644
--- a/cryptonote/storage_memory.go
+++ b/cryptonote/storage_memory.go
@@ -56,9 +56,13 @@ func (s *memoryStorage) Init(genesisBlock *Block) error {
 
 func (s *memoryStorage) TopIndex() (uint32, error) {
 	s.RLock()
-	index := s.topBlock.Index()
-	s.Unlock()
-	return index, nil
+	defer s.RUnlock()
+
+	if s.topBlock == nil {
+		return 0, utils.AssertionError("storage must be initialized")
+	}
+
+	return s.topBlock.Index(), nil
 }
 
 func (s *memoryStorage) TopBlock() (*Block, error) {
-- 
2.43.0


From aef221ba262a90328767c3a5f2e3fe00182380cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:37 +0000
Subject: [PATCH 18/43] fix: chain height was always 0

---
 cryptonote/chain.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cryptonote/chain.go b/cryptonote/chain.go
index b156932..c381e49 100644
--- a/cryptonote/chain.go
+++ b/cryptonote/chain.go
@@ -81,8 +81,12 @@ func (bc *BlockChain) Init() error {
 
 // Height returns current blockchain height
 func (bc *BlockChain) Height() uint32 {
-	// TODO: Implement
-	return 0
+	topBlock := bc.TopBlock()
+	if topBlock == nil {
+		return 0
+	}
+
+	return topBlock.Index()
 }
 
 // TopBlock returns current best block
-- 
2.43.0


From 2f829ba564e38c732ed46af8a075516044b5975d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:44 +0000
Subject: [PATCH 19/43] fix: mixin was counted for the wrong inputs

---
 cryptonote/transaction_validator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptonote/transaction_validator.go b/cryptonote/transaction_validator.go
index f71626e..b5790b1 100644
--- a/cryptonote/transaction_validator.go
+++ b/cryptonote/transaction_validator.go
@@ -569,7 +569,7 @@ func (validator *blockTransactionsValidator) IsFusionTransaction(transaction *Tr
 func countMixin(transaction *Transaction) int {
 	mixin := 0
 	for _, input := range transaction.Inputs {
-		if _, ok := input.(InputKey); ok {
+		if _, ok := input.(InputKey); !ok {
 			continue
 		}
 
-- 
2.43.0


From c25699fa98bc90a5dc872d14391e4b708a3859dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:50 +0000
Subject: [PATCH 20/43] fix: only half of the difficulty window was used

---
 cryptonote/difficulty.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cryptonote/difficulty.go b/cryptonote/difficulty.go
index d4d5355..ee1690c 100644
--- a/cryptonote/difficulty.go
+++ b/cryptonote/difficulty.go
@@ -36,7 +36,6 @@ func (bc *BlockChain) lastBlocksCumulativeDifficulties(count uint32, index uint3
 
 		difficulties = append(difficulties, tempInfo.CumulativeDifficulty)
 		tempInfo = bc.storage.getBlockInfoAtIndex(index - i)
-		count--
 	}
 
 	return utils.SliceReverse(difficulties)
-- 
2.43.0


From c95aae7a2ed4564394f0d1b0ea7bfddb2b94f815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:56 +0000
Subject: [PATCH 21/43] fix: only half of the reward window was used

---
 cryptonote/chain.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cryptonote/chain.go b/cryptonote/chain.go
index c381e49..199b861 100644
--- a/cryptonote/chain.go
+++ b/cryptonote/chain.go
@@ -604,7 +604,6 @@ func (bc *BlockChain) lastBLockSizes(count uint32, index uint32) []uint64 {
 
 		sizes = append(sizes, tempInfo.Size)
 		tempInfo = bc.storage.getBlockInfoAtIndex(index - i)
-		count--
 	}
 
 	return utils.SliceReverse(sizes)
-- 
2.43.0


From 0a72125aba85f30b4d9651d9a76c24ea8be331b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:02 +0000
Subject: [PATCH 22/43] fix: coinbase unlock height was compared modulo 2^32

---
 cryptonote/chain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptonote/chain.go b/cryptonote/chain.go
index 199b861..b58d357 100644
--- a/cryptonote/chain.go
+++ b/cryptonote/chain.go
@@ -412,7 +412,7 @@ func (bc *BlockChain) validateBlock(blogger *log.Entry, block *Block, prevBlock
 		return 0, err
 	}
 
-	if uint32(block.BaseTransaction.UnlockHeight) != prevBlockIndex+1+bc.Network.MinedMoneyUnlockWindow() {
+	if block.BaseTransaction.UnlockHeight != uint64(prevBlockIndex)+1+uint64(bc.Network.MinedMoneyUnlockWindow()) {
 		err := ErrTransactionWrongUnlockTime
 		blogger.Error(err)
 		return 0, err
-- 
2.43.0


From 1fc1e2a9f3354657ed64f32f27431b47307d8a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:08 +0000
Subject: [PATCH 23/43] fix: a block took part in the median its timestamp is
 checked against

---
 cryptonote/chain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptonote/chain.go b/cryptonote/chain.go
index b58d357..6f028f7 100644
--- a/cryptonote/chain.go
+++ b/cryptonote/chain.go
@@ -384,7 +384,7 @@ func (bc *BlockChain) validateBlock(blogger *log.Entry, block *Block, prevBlock
 	}
 
 	timestampCheckWindow := bc.Network.BlockTimestampCheckWindow(block.MajorVersion)
-	lastTimestamps := bc.lastBlocksTimestamps(timestampCheckWindow, block, true)
+	lastTimestamps := bc.lastBlocksTimestamps(timestampCheckWindow, prevBlock, true)
 	if uint32(len(lastTimestamps)) >= timestampCheckWindow {
 		if block.Timestamp < utils.MedianSlice(lastTimestamps) {
 			err := ErrBlockValidationTimestampTooFarInPast
-- 
2.43.0


From d7e566064ffcc060629ee2e7262401a068d1ee79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:14 +0000
Subject: [PATCH 24/43] fix: merge mined blocks had no timestamp and nonce

---
 cryptonote/block.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cryptonote/block.go b/cryptonote/block.go
index 3ac3faa..454e419 100644
--- a/cryptonote/block.go
+++ b/cryptonote/block.go
@@ -139,6 +139,10 @@ func (b *Block) Deserialize(r *bytes.Reader) error {
 		}
 
 		b.Parent = parentBlock
+
+		// these versions keep their timestamp and nonce in the parent block
+		b.Timestamp = parentBlock.Timestamp
+		b.Nonce = parentBlock.Nonce
 	}
 
 	if err := b.BaseTransaction.Deserialize(r); err != nil {
-- 
2.43.0


From 451547fcc869d4cbf9652d0d48dfac83b58efa62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:19 +0000
Subject: [PATCH 25/43] fix: required signatures were compared to the key count
 modulo 256

---
 cryptonote/transaction_validator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptonote/transaction_validator.go b/cryptonote/transaction_validator.go
index b5790b1..b313d25 100644
--- a/cryptonote/transaction_validator.go
+++ b/cryptonote/transaction_validator.go
@@ -261,7 +261,7 @@ func (validator *blockTransactionsValidator) validateOutputs(transaction *Transa
 		case OutputMultisignature:
 			outputTarget := output.Target.(OutputMultisignature)
 
-			if outputTarget.RequiredSignaturesCount > byte(len(outputTarget.Keys)) {
+			if int(outputTarget.RequiredSignaturesCount) > len(outputTarget.Keys) {
 				err := ErrTransactionOutputInvalidRequiredSignaturesCount
 				logger.Error(err)
 				return 0, err
-- 
2.43.0


From 895b513ce506f141279e2a1b4464665d67185767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:25 +0000
Subject: [PATCH 26/43] fix: the fees of a block could overflow

---
 cryptonote/transaction_validator.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cryptonote/transaction_validator.go b/cryptonote/transaction_validator.go
index b313d25..a6d71f2 100644
--- a/cryptonote/transaction_validator.go
+++ b/cryptonote/transaction_validator.go
@@ -336,6 +336,12 @@ func (validator *blockTransactionsValidator) validateTransactionFee(transaction
 		}
 	}
 
+	if fee > math.MaxUint64-validator.cumulativeFee {
+		err = ErrTransactionInvalidFee
+		logger.Error(err)
+		return
+	}
+
 	validator.cumulativeFee += fee
 
 	return
-- 
2.43.0


From 787d67f5887f1983c58d8f671d31743a44cd79f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:31 +0000
Subject: [PATCH 27/43] fix: any outputs of the right number counted as fusion

---
 cryptonote/transaction_validator.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/cryptonote/transaction_validator.go b/cryptonote/transaction_validator.go
index a6d71f2..a6eadba 100644
--- a/cryptonote/transaction_validator.go
+++ b/cryptonote/transaction_validator.go
@@ -7,6 +7,7 @@ import (
 	"github.com/r3volut1oner/go-karbo/utils"
 	log "github.com/sirupsen/logrus"
 	"math"
+	"sort"
 )
 
 type blockTransactionsValidator struct {
@@ -553,12 +554,17 @@ func (validator *blockTransactionsValidator) IsFusionTransaction(transaction *Tr
 	}
 
 	expectedOutputsAmount := validator.bc.DecomposeAmount(inputAmount, dustThreshold)
-	// Why do we need sorting here?
-	//sort.Slice(expectedOutputsAmount, func(i, j int) bool {
-	//	return expectedOutputsAmount[i] < expectedOutputsAmount[j]
-	//})
+	// outputs must be sorted, the dust comes last in the decomposition
+	sort.Slice(expectedOutputsAmount, func(i, j int) bool {
+		return expectedOutputsAmount[i] < expectedOutputsAmount[j]
+	})
+
+	match := len(expectedOutputsAmount) == len(outputsAmounts)
+	for i := 0; match && i < len(outputsAmounts); i++ {
+		match = expectedOutputsAmount[i] == outputsAmounts[i]
+	}
 
-	if len(expectedOutputsAmount) != len(outputsAmounts) {
+	if !match {
 		logger := validator.logger.WithFields(log.Fields{
 			"expected_outputs_amount_len": len(expectedOutputsAmount),
 			"input_amounts_len":           len(outputsAmounts),
-- 
2.43.0


From a52b126440b9459875b1985e381a40b7ebffc302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 28/43] fix: addresses with a padded tag were accepted

---
 cryptonote/address.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cryptonote/address.go b/cryptonote/address.go
index c2947a2..6203293 100644
--- a/cryptonote/address.go
+++ b/cryptonote/address.go
@@ -95,6 +95,12 @@ func addressDecode(addr string) (tag uint64, data []byte, err error) {
 		return
 	}
 
+	// a longer encoding of the tag would be another text of the same address
+	if read > 1 && ddata[read-1] == 0 {
+		err = fmt.Errorf("non canonical tag")
+		return
+	}
+
 	data = ddata[read:]
 	return
 }
-- 
2.43.0


From 2825dca8b287e9f3994d1c4aa6125be5cd8256b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 29/43] fix: addresses with keys that are not curve points were
 accepted

---
 cryptonote/address.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cryptonote/address.go b/cryptonote/address.go
index 6203293..3681917 100644
--- a/cryptonote/address.go
+++ b/cryptonote/address.go
@@ -58,6 +58,12 @@ func (a *Address) FromString(s string) error {
 	copy(spendPublicKeyBytes[:], data[:32])
 	copy(viewPublicKeyBytes[:], data[32:64])
 
+	spendPublicKey := crypto.PublicKey(spendPublicKeyBytes)
+	viewPublicKey := crypto.PublicKey(viewPublicKeyBytes)
+	if !spendPublicKey.Check() || !viewPublicKey.Check() {
+		return crypto.ErrKeyNotOnCurve
+	}
+
 	a.base58 = s
 	a.SpendPublicKey = spendPublicKeyBytes
 	a.ViewPublicKey = viewPublicKeyBytes
-- 
2.43.0


From 5cfe1ed8cfc917ee914e3e6382cd223995868c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:08 +0000
Subject: [PATCH 30/43] fix: difficulty of the next block used the version of
 the previous one

---
 cryptonote/difficulty.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptonote/difficulty.go b/cryptonote/difficulty.go
index ee1690c..04da0ab 100644
--- a/cryptonote/difficulty.go
+++ b/cryptonote/difficulty.go
@@ -12,7 +12,7 @@ func (bc *BlockChain) difficultyForNextBlock(b *Block) (uint64, error) {
 		return 0, errors.New(fmt.Sprintf("unknown block hashIndex %d, top hashIndex is %d", b.Index(), bc.bestTip.Index()))
 	}
 
-	nextBlockMajorVersion := bc.Network.GetBlockMajorVersion(b.Index())
+	nextBlockMajorVersion := bc.Network.GetBlockMajorVersion(b.Index() + 1)
 	difficultyBlocksCount := bc.Network.DifficultyBlocksCountByBlockVersion(nextBlockMajorVersion)
 
 	timestamps := bc.lastBlocksTimestamps(difficultyBlocksCount, b, false)
-- 
2.43.0


From d39549155f31d6324d07287f1d0c67ce3ba87b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:14 +0000
Subject: [PATCH 31/43] fix: equal offsets of ring members were taken for equal
 outputs

---
 cryptonote/transaction_validator.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cryptonote/transaction_validator.go b/cryptonote/transaction_validator.go
index a6eadba..49f8ceb 100644
--- a/cryptonote/transaction_validator.go
+++ b/cryptonote/transaction_validator.go
@@ -4,7 +4,6 @@ import (
 	"errors"
 	"github.com/r3volut1oner/go-karbo/config"
 	"github.com/r3volut1oner/go-karbo/crypto"
-	"github.com/r3volut1oner/go-karbo/utils"
 	log "github.com/sirupsen/logrus"
 	"math"
 	"sort"
@@ -156,10 +155,12 @@ func (validator *blockTransactionsValidator) validateInputs(transaction *Transac
 				}
 			}
 
-			if !utils.SliceIsUniqueUint32(&input.OutputIndexes) {
-				err := ErrTransactionInputIdenticalOutputIndexes
-				logger.Error(err)
-				return 0, err
+			for _, offset := range input.OutputIndexes[1:] {
+				if offset == 0 {
+					err := ErrTransactionInputIdenticalOutputIndexes
+					logger.Error(err)
+					return 0, err
+				}
 			}
 
 			if _, ok := validator.spentKeyImages[input.KeyImage]; ok {
-- 
2.43.0


From 69d30e652cc028e7663282a74262d34caa1128ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:20 +0000
Subject: [PATCH 32/43] fix: bytes after a raw transaction were accepted and
 counted

---
 cryptonote/chain.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cryptonote/chain.go b/cryptonote/chain.go
index 6f028f7..98c0b92 100644
--- a/cryptonote/chain.go
+++ b/cryptonote/chain.go
@@ -564,6 +564,11 @@ func (bc *BlockChain) deserializeTransactions(blogger *log.Entry, rt [][]byte) (
 			return nil, 0, ErrAddBlockTransactionDeserialization
 		}
 
+		if r.Len() != 0 {
+			tsLogger.Error(ErrAddBlockTransactionDeserialization)
+			return nil, 0, ErrAddBlockTransactionDeserialization
+		}
+
 		transactionsSize += tsSize
 	}
 
-- 
2.43.0


From dfd04386eed5610a2a4c68d6571346989d882857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:26 +0000
Subject: [PATCH 33/43] fix: messages that end in an empty list or text were
 not decoded

Reading no bytes at the end of the payload gave EOF. Short reads of names,
sizes and data went unnoticed and left zeros.
---
 encoding/binary/decode.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/encoding/binary/decode.go b/encoding/binary/decode.go
index 04776f7..3c32a15 100644
--- a/encoding/binary/decode.go
+++ b/encoding/binary/decode.go
@@ -61,13 +61,13 @@ func (d *Decoder) decode(v interface{}) error {
 func (d *Decoder) readName() (string, error) {
 	var sizeByte [1]byte
 
-	if _, err := d.r.Read(sizeByte[:]); err != nil {
+	if _, err := io.ReadFull(d.r, sizeByte[:]); err != nil {
 		return "", err
 	}
 
 	str := make([]byte, sizeByte[0])
 
-	if _, err := d.r.Read(str); err != nil {
+	if _, err := io.ReadFull(d.r, str); err != nil {
 		return "", err
 	}
 
@@ -131,7 +131,7 @@ func (d *Decoder) readValue(value reflect.Value, typeByte byte) error {
 		}
 
 		b := make([]byte, size)
-		if _, err := d.r.Read(b); err != nil {
+		if _, err := io.ReadFull(d.r, b); err != nil {
 			return err
 		}
 
@@ -193,7 +193,7 @@ func (d *Decoder) readValue(value reflect.Value, typeByte byte) error {
 
 func (d *Decoder) readVarInt() (uint64, error) {
 	var sizeBytes [8]byte
-	if _, err := d.r.Read(sizeBytes[0:1]); err != nil {
+	if _, err := io.ReadFull(d.r, sizeBytes[0:1]); err != nil {
 		return 0, err
 	}
 
@@ -216,7 +216,7 @@ func (d *Decoder) readVarInt() (uint64, error) {
 	allBytes := make([]byte, 8)
 	allBytes[0] = sizeBytes[0]
 
-	if _, err := d.r.Read(allBytes[1:bytesLeft+1]); err != nil {
+	if _, err := io.ReadFull(d.r, allBytes[1:bytesLeft+1]); err != nil {
 		return 0, err
 	}
 
-- 
2.43.0


From 9f13f7cea8f6d6ac86aabc2008ab84aff68c4a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:31 +0000
Subject: [PATCH 34/43] fix: payloads cut off before an object were decoded as
 an empty object

A list of such objects with a huge count never ended.
---
 encoding/binary/decode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoding/binary/decode.go b/encoding/binary/decode.go
index 3c32a15..6ec770c 100644
--- a/encoding/binary/decode.go
+++ b/encoding/binary/decode.go
@@ -26,8 +26,8 @@ func (d *Decoder) decode(v interface{}) error {
 	}
 
 	size, err := d.readVarInt()
-	if err == io.EOF {
-		return nil
+	if err != nil {
+		return err
 	}
 
 	metadata, err := getStructBinaryMetadata(reflect.ValueOf(v), false)
-- 
2.43.0


From c0614598f32076aa53136d55a5a0329bff104fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:37 +0000
Subject: [PATCH 35/43] fix: the size of binary data in a payload decided the
 memory allocated for it

A payload of a few bytes made the node allocate any amount, or panic.
---
 encoding/binary/decode.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/encoding/binary/decode.go b/encoding/binary/decode.go
index 6ec770c..b552ac0 100644
--- a/encoding/binary/decode.go
+++ b/encoding/binary/decode.go
@@ -130,11 +130,14 @@ func (d *Decoder) readValue(value reflect.Value, typeByte byte) error {
 			return err
 		}
 
-		b := make([]byte, size)
-		if _, err := io.ReadFull(d.r, b); err != nil {
+		// size is up to the sender, never allocate more than what is really there
+		var buf bytes.Buffer
+		if _, err := io.CopyN(&buf, d.r, int64(size)); err != nil {
 			return err
 		}
 
+		b := buf.Bytes()
+
 		switch value.Kind() {
 		// For slice we don't know exact size of the data encoded.
 		// We read item by item with N size, where N defined by receiving slice element type.
-- 
2.43.0


From 4c8b0d3ebe8079a77ced829c691074b64289fb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:43 +0000
Subject: [PATCH 36/43] fix: ids of a wrong size were cut or filled with zeros
 when decoded

---
 encoding/binary/decode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/encoding/binary/decode.go b/encoding/binary/decode.go
index b552ac0..8fbb384 100644
--- a/encoding/binary/decode.go
+++ b/encoding/binary/decode.go
@@ -171,6 +171,10 @@ func (d *Decoder) readValue(value reflect.Value, typeByte byte) error {
 			value.Set(newSlice)
 		// For binary data only [N]byte array supported.
 		case reflect.Array:
+			if len(b) != value.Len() {
+				return errors.New(fmt.Sprintf("wrong size of the binary data: %d, expected: %d", len(b), value.Len()))
+			}
+
 			newArray := reflect.New(value.Type()).Elem()
 			reflect.Copy(newArray, reflect.ValueOf(b))
 
-- 
2.43.0


From ef9c2b3b64bf7e0ae8b1c51277469f6ab02dc0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:22 +0000
Subject: [PATCH 37/43] fix: an object in place of a number or text in a
 payload crashed the node

---
 encoding/binary/decode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/encoding/binary/decode.go b/encoding/binary/decode.go
index 8fbb384..992b633 100644
--- a/encoding/binary/decode.go
+++ b/encoding/binary/decode.go
@@ -185,6 +185,10 @@ func (d *Decoder) readValue(value reflect.Value, typeByte byte) error {
 			return errors.New(fmt.Sprintf("not supported kind '%s' for binary received", value.Kind()))
 		}
 	case typeObject:
+		if value.Kind() != reflect.Struct {
+			return errors.New(fmt.Sprintf("not supported kind '%s' for object received", value.Kind()))
+		}
+
 		v := reflect.New(value.Type())
 		if err := d.decode(v.Interface()); err != nil {
 			return err
-- 
2.43.0


From 5ec3d401c7372c05aa39a4252bb502c7122f5402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:48 +0000
Subject: [PATCH 38/43] fix: a list of binary items received as one binary hung
 the node

---
 encoding/binary/decode.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/encoding/binary/decode.go b/encoding/binary/decode.go
index 992b633..e54fd37 100644
--- a/encoding/binary/decode.go
+++ b/encoding/binary/decode.go
@@ -155,6 +155,11 @@ func (d *Decoder) readValue(value reflect.Value, typeByte byte) error {
 			itemType := value.Type().Elem()
 			reader := bytes.NewReader(b)
 
+			// items without a size of their own can't be cut out of the data
+			if binary.Size(reflect.New(itemType).Interface()) <= 0 {
+				return errors.New(fmt.Sprintf("not supported items '%s' for binary received", itemType))
+			}
+
 			for {
 				item := reflect.New(itemType)
 				err := binary.Read(reader, binary.LittleEndian, item.Interface())
-- 
2.43.0


From 011cc1e8dfb07d9316b397a9642fa29863565b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 39/43] fix: handshakes were refused by peers with newer
 versions and accepted from older ones

---
 p2p/peer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 0bc6843..cf31084 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -149,7 +149,7 @@ func (p *Peer) handshake(n *Node) (*HandshakeResponse, error) {
 		return nil, errors.New("wrong network id received")
 	}
 
-	if n.Config.Network.P2PMinimumVersion < res.NodeData.Version {
+	if res.NodeData.Version < n.Config.Network.P2PMinimumVersion {
 		return nil, errors.New("node data version not match minimal")
 	}
 
-- 
2.43.0


From 2255ed22e6cd3ba3bc80091cb9ea5bfdf7ccae41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 40/43] fix: incoming handshakes of unsupported versions were
 accepted

---
 p2p/command_handshake.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/p2p/command_handshake.go b/p2p/command_handshake.go
index ac09d5f..3c8b3c9 100644
--- a/p2p/command_handshake.go
+++ b/p2p/command_handshake.go
@@ -20,6 +20,7 @@ type HandshakeResponse struct {
 
 var (
 	ErrHandshakeWrongNetwork    = errors.New("wrong network connection")
+	ErrHandshakeWrongVersion    = errors.New("version of the peer is not supported")
 	ErrHandshakeNotIncoming     = errors.New("handshake not from incoming connection")
 	ErrHandshakeHasID           = errors.New("ID for the connecting peer already set")
 	ErrHandshakeProcessSyncData = errors.New("failed to process sync data")
@@ -61,6 +62,13 @@ func (n *Node) HandleHandshake(p *Peer, req HandshakeRequest) error {
 		return err
 	}
 
+	if req.NodeData.Version < n.Config.Network.P2PMinimumVersion {
+		err := ErrHandshakeWrongVersion
+		p.logger.Error(err)
+		p.Shutdown()
+		return err
+	}
+
 	if !p.isIncoming {
 		err := ErrHandshakeNotIncoming
 		p.logger.Error(err)
-- 
2.43.0


From 372961a0ea2df46ee332a1a747df890aa6f37a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 41/43] fix: synchronization stopped when all the needed blocks
 became known meanwhile

---
 p2p/peer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/p2p/peer.go b/p2p/peer.go
index cf31084..41897f5 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -220,6 +220,11 @@ func (p *Peer) requestMissingBlocks(n *Node, checkHavingBlocks bool) error {
 		}
 
 		p.neededBlocks = neededBlocks
+
+		// all the needed blocks became known meanwhile, nothing would continue the synchronization
+		if len(requestBlocks) == 0 {
+			return p.requestMissingBlocks(n, checkHavingBlocks)
+		}
 	} else if p.lastResponseHeight < (p.remoteHeight - 1) {
 		if err := p.requestChain(n.Blockchain); err != nil {
 			return err
-- 
2.43.0


From fd1a2aa01b5e97761de153b8859093e222d738e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:48 +0000
Subject: [PATCH 42/43] fix: blocks that did not parse were written to files, a
 peer could fill the disk

---
 p2p/notification_response_get_objects.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/p2p/notification_response_get_objects.go b/p2p/notification_response_get_objects.go
index 8e5f9fe..864afd8 100644
--- a/p2p/notification_response_get_objects.go
+++ b/p2p/notification_response_get_objects.go
@@ -6,7 +6,6 @@ import (
 	"fmt"
 	"github.com/r3volut1oner/go-karbo/crypto"
 	"github.com/r3volut1oner/go-karbo/cryptonote"
-	"io/ioutil"
 )
 
 // NotificationResponseGetObjects == 2004
@@ -49,10 +48,7 @@ func (n *Node) HandleResponseGetObjects(p *Peer, nt NotificationResponseGetObjec
 		rawBlockReader := bytes.NewReader(rawBlock.Block)
 		if err := block.Deserialize(rawBlockReader); err != nil {
 			p.Shutdown()
-			// TODO: Remove this. It is debug only.
-			height := n.Blockchain.Height()
-			blockHeight := height + uint32(i)
-			_ = ioutil.WriteFile(fmt.Sprintf("./block_%d.dat", blockHeight), rawBlock.Block, 0644)
+			blockHeight := n.Blockchain.Height() + uint32(i)
 			return errors.New(
 				fmt.Sprintf("[%s] (%d) failed to convert raw block (%d): %s", p, i, blockHeight, err),
 			)
-- 
2.43.0


From b2cb3ad2855b24296a1979ebd042d8ce99391513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:48 +0000
Subject: [PATCH 43/43] fix: ring signatures with another number of parts than
 keys are refused

---
 crypto/signature.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crypto/signature.go b/crypto/signature.go
index 6d7da31..8849ae9 100644
--- a/crypto/signature.go
+++ b/crypto/signature.go
@@ -278,6 +278,10 @@ func GenerateRingSignature(prefixHash *Hash, image *KeyImage, pubs *[]PublicKey,
 }
 
 func CheckRingSignature(prefixHash *Hash, image *KeyImage, pubs *[]PublicKey, sigs *[]Signature, checkKeyImage bool) bool {
+	if len(*sigs) != len(*pubs) {
+		return false
+	}
+
 	// -------- ENABLED IN DEBUG MODE --------
 	for i := 0; i < len(*pubs); i++ {
 		if !(*pubs)[i].Check() {
-- 
2.43.0

