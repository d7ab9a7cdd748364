From c68617bedcb597076b91c581a95a5a18e177e7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:11 +0000
Subject: [PATCH 01/32] fix: apply the end-of-period time rule to the last
 block of each period

---
 pkg/core/verify.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/core/verify.go b/pkg/core/verify.go
index 79cb135..afff546 100644
--- a/pkg/core/verify.go
+++ b/pkg/core/verify.go
@@ -183,7 +183,7 @@ func (v Verifier) VerifyBlock(b Block) error {
 
 	// If last block in period, verify time is ahead of first block in period
 	// This prevents panics in ExpectedTargetAdjustment
-	if newBlockHeight+1%v.params.DifficultyPeriod == 0 {
+	if (newBlockHeight+1)%v.params.DifficultyPeriod == 0 {
 		var firstBlockId HashT
 		if newBlockHeight+1 == v.params.DifficultyPeriod {
 			if !v.inv.GetBlockSpecificAncestor(b.PrevBlockId, int(v.params.DifficultyPeriod-2)).EqZero() {
-- 
2.43.0


From 1d4d99c1784ec45907da3e061224331652318803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:19 +0000
Subject: [PATCH 02/32] fix: refuse transactions and blocks whose totals
 overflow 64 bits

---
 pkg/core/transaction.go | 18 ++++++++++++++++++
 pkg/core/verify.go      | 13 +++++++++++--
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/pkg/core/transaction.go b/pkg/core/transaction.go
index 55f01ed..d619105 100644
--- a/pkg/core/transaction.go
+++ b/pkg/core/transaction.go
@@ -80,6 +80,24 @@ func (tx Tx) OutputsValue() uint64 {
 	return total
 }
 
+// Whether the total of either the inputs or the outputs exceeds 64 bits.
+func (tx Tx) ValuesOverflow() bool {
+	inputs, outputs := uint64(0), uint64(0)
+	for _, txi := range tx.Inputs {
+		if inputs+txi.Utxo.Value < inputs {
+			return true
+		}
+		inputs += txi.Utxo.Value
+	}
+	for _, txo := range tx.Outputs {
+		if outputs+txo.Value < outputs {
+			return true
+		}
+		outputs += txo.Value
+	}
+	return false
+}
+
 func (tx Tx) VSize() uint64 {
 	// 8 from MinBlock, 32 each from top-level hash of Inputs and Outputs
 	vSize := uint64(8 + 32 + 32)
diff --git a/pkg/core/verify.go b/pkg/core/verify.go
index afff546..e76eacd 100644
--- a/pkg/core/verify.go
+++ b/pkg/core/verify.go
@@ -138,8 +138,12 @@ func (v Verifier) VerifyBlock(b Block) error {
 		if i != 0 && tx.IsCoinbase {
 			return fmt.Errorf("only first block tx may be coinbase")
 		}
-		totalInputs += tx.InputsValue()
-		totalOutputs += tx.OutputsValue()
+		inputs, outputs := tx.InputsValue(), tx.OutputsValue()
+		if totalInputs+inputs < totalInputs || totalOutputs+outputs < totalOutputs {
+			return fmt.Errorf("block total inputs or outputs overflow")
+		}
+		totalInputs += inputs
+		totalOutputs += outputs
 	}
 
 	// Verify block's total inputs and outputs match
@@ -249,6 +253,11 @@ func (v Verifier) VerifyTxIsolated(tx Tx) error {
 		return fmt.Errorf("tx vSize exceeds limit")
 	}
 
+	// Verify totals can't wrap around
+	if tx.ValuesOverflow() {
+		return fmt.Errorf("tx total inputs or outputs overflow")
+	}
+
 	if tx.IsCoinbase {
 		// Verify coinbase has no inputs
 		if len(tx.Inputs) > 0 {
-- 
2.43.0


From e48349decab38143b846d95d13ff1f570d3bcc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:23 +0000
Subject: [PATCH 03/32] fix: refuse transactions that list the same input twice

---
 pkg/core/verify.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/core/verify.go b/pkg/core/verify.go
index e76eacd..4423885 100644
--- a/pkg/core/verify.go
+++ b/pkg/core/verify.go
@@ -45,6 +45,11 @@ func (v Verifier) VerifyTx(tx Tx) error {
 		return err
 	}
 
+	// Verify no utxo is consumed more than once
+	if set.NewSetFromList(tx.GetConsumedUtxos()).Size() != len(tx.Inputs) {
+		return fmt.Errorf("tx consumes the same utxo more than once")
+	}
+
 	// Verify each input's public key and value match origin
 	for _, txi := range tx.Inputs {
 		if !v.inv.HasTxOut(txi.Utxo.TxId, txi.Utxo.Ind) {
-- 
2.43.0


From c6aa39f3ce6460231bd21d2cef38266081d251a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:25 +0000
Subject: [PATCH 04/32] fix: undo a block's transactions in reverse order when
 rewinding

---
 internal/chain/state.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/chain/state.go b/internal/chain/state.go
index 1975c7e..9ec55a9 100644
--- a/internal/chain/state.go
+++ b/internal/chain/state.go
@@ -85,7 +85,9 @@ func (s *State) Rewind() {
 	}
 	rBlock := s.inv.GetBlock(s.head)
 	rTxs := s.inv.GetMerkleTxs(rBlock.MerkleRoot)
-	for _, tx := range rTxs {
+	// Undo in reverse order, as later txs may spend outputs of earlier ones
+	for i := len(rTxs) - 1; i >= 0; i-- {
+		tx := rTxs[i]
 		txId := tx.Hash()
 		// Return tx back to mempool
 		s.mempool.Add(txId)
-- 
2.43.0


From 7fdec705ac9130bd7b41d83a141cfcec1be26192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:40 +0000
Subject: [PATCH 05/32] fix: refuse impossible payments in the tx factory
 instead of wrapping around

---
 pkg/core/transaction.go | 11 ++++++++++-
 pkg/core/txfactory.go   | 23 ++++++++++++++++++++---
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/pkg/core/transaction.go b/pkg/core/transaction.go
index d619105..b04860b 100644
--- a/pkg/core/transaction.go
+++ b/pkg/core/transaction.go
@@ -1,5 +1,7 @@
 package core
 
+import "math"
+
 // Reference to supposedly-unspent transaction output.
 type Utxo struct {
 	TxId  HashT  `json:"txId"`
@@ -116,8 +118,15 @@ func (tx Tx) Rate() float64 {
 }
 
 // What fees would be paid at the given fee rate.
+// At least 1, since a tx without surplus isn't admissible, and at most the largest uint64.
 func (tx Tx) FeeFromRate(targetFeeRate float64) uint64 {
-	return uint64(targetFeeRate * float64(tx.VSize()))
+	fee := targetFeeRate * float64(tx.VSize())
+	if !(fee >= 1) {
+		return 1
+	} else if fee >= math.MaxUint64 {
+		return math.MaxUint64
+	}
+	return uint64(fee)
 }
 
 func (tx Tx) HasSurplus() bool {
diff --git a/pkg/core/txfactory.go b/pkg/core/txfactory.go
index 129d5af..2d2842f 100644
--- a/pkg/core/txfactory.go
+++ b/pkg/core/txfactory.go
@@ -29,6 +29,11 @@ func MakeOutboundTx(
 		return nil, err
 	}
 
+	// Verify there's something to spend
+	if len(utxoPkhs) == 0 {
+		return nil, fmt.Errorf("insufficient balance")
+	}
+
 	// Get total balance, pkh with the highest balance, and verify each pkh controlled
 	balance, richestPkh, err := getBalanceAndRichestPkh(utxoPkhs, pkhPrivs)
 	if err != nil {
@@ -38,6 +43,9 @@ func MakeOutboundTx(
 	// Get total outputs and verify <= utxos
 	totalOut := uint64(0)
 	for _, val := range dests {
+		if totalOut+val < totalOut {
+			return nil, fmt.Errorf("insufficient balance: %d < total of outputs", balance)
+		}
 		totalOut += val
 	}
 	if totalOut >= balance {
@@ -93,16 +101,18 @@ func MakeOutboundTx(
 		}
 
 		// Check if we now have enough inputs to cover outputs + fees
-		if totalIn >= totalOut+tx.FeeFromRate(targetFeeRate) {
+		fee := tx.FeeFromRate(targetFeeRate)
+		if totalIn >= totalOut && totalIn-totalOut >= fee {
 			break
 		}
 
 		// If we reached the end of the loop without breaking, we can't make it work
 		if i == len(utxos)-1 {
 			return nil, fmt.Errorf(
-				"insufficient balance to pay outputs and target fee rate - %d < %d",
+				"insufficient balance to pay outputs and target fee rate - %d < %d + %d",
 				balance,
-				totalOut+tx.FeeFromRate(targetFeeRate),
+				totalOut,
+				fee,
 			)
 		}
 	}
@@ -200,6 +210,13 @@ func MakeConsolidateTx(
 		tx.Inputs = append(tx.Inputs, txIn)
 	}
 
+	// Verify the inputs can pay the fees
+	if totalIn < tx.FeeFromRate(targetFeeRate) {
+		return nil, fmt.Errorf(
+			"insufficient balance to pay target fee rate - %d < %d", totalIn, tx.FeeFromRate(targetFeeRate),
+		)
+	}
+
 	// Set the output amount
 	tx.Outputs[0].Value = totalIn - tx.FeeFromRate(targetFeeRate)
 
-- 
2.43.0


From 61a7edc740a0693a98c2ac85a556c6d6b96d259a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:51 +0000
Subject: [PATCH 06/32] fix: mine blocks with a time the chain accepts

---
 internal/miner/miner.go |  7 ++++++-
 pkg/core/difficulty.go  | 35 +++++++++++++++++++++++++++++++++++
 2 files changed, 41 insertions(+), 1 deletion(-)

diff --git a/internal/miner/miner.go b/internal/miner/miner.go
index 227be14..551ba19 100644
--- a/internal/miner/miner.go
+++ b/internal/miner/miner.go
@@ -109,6 +109,11 @@ func (m *Miner) updateTemplate(head core.HashT, target core.HashT, txIds []core.
 	for i, merkleId := range merkleIds {
 		outMerkles[i] = merkleMap[merkleId]
 	}
+	// Never claim an earlier time than the chain allows, even if our clock is behind it
+	minedTime := uint64(time.Now().Unix())
+	if minTime := core.MinNextMinedTime(m.inv.GetCoreParams(), m.inv, head); minedTime < minTime {
+		minedTime = minTime
+	}
 	// Set our template and output data
 	m.template = &core.Block{
 		PrevBlockId: head,
@@ -116,7 +121,7 @@ func (m *Miner) updateTemplate(head core.HashT, target core.HashT, txIds []core.
 		Target:      target,
 		Noise:       core.NewHashTRand(),
 		Nonce:       0,
-		MinedTime:   uint64(time.Now().Unix()),
+		MinedTime:   minedTime,
 	}
 	m.outCoinbase = &coinbaseTx
 	m.outMerkles = outMerkles
diff --git a/pkg/core/difficulty.go b/pkg/core/difficulty.go
index 5c10a78..ab34ac8 100644
--- a/pkg/core/difficulty.go
+++ b/pkg/core/difficulty.go
@@ -3,6 +3,7 @@ package core
 import (
 	"fmt"
 	"math/big"
+	"sort"
 )
 
 // Subset of Inv methods required to compute a next target.
@@ -46,6 +47,40 @@ func ExpectedTargetAdjustment(params Params, inv InvTargeter, head HashT) (uint6
 	return actualTime, desiredTime, nil
 }
 
+// Compute the lowest mined time that VerifyBlock will accept for a block following the given one.
+func MinNextMinedTime(params Params, inv InvTargeter, prevBlockId HashT) uint64 {
+	if prevBlockId.EqZero() {
+		return 0
+	}
+
+	// Must be above the median of the previous 5 blocks, dropping the zero block if appropriate
+	times := []uint64{inv.GetBlock(prevBlockId).MinedTime}
+	for _, ancestorId := range inv.GetBlockAncestors(prevBlockId, 4) {
+		if !ancestorId.EqZero() {
+			times = append(times, inv.GetBlock(ancestorId).MinedTime)
+		}
+	}
+	sort.Slice(times, func(i, j int) bool { return times[i] < times[j] })
+	minTime := times[len(times)/2] + 1
+	if len(times)%2 == 0 {
+		minTime = (times[len(times)/2-1]+times[len(times)/2])/2 + 1
+	}
+
+	// If last block in period, must also be above the first block in the period
+	height := inv.GetBlockHeight(prevBlockId) + 1
+	if (height+1)%params.DifficultyPeriod == 0 {
+		firstHeight := height + 1 - params.DifficultyPeriod
+		if firstHeight == 0 {
+			firstHeight = 1
+		}
+		firstId := inv.GetBlockSpecificAncestor(prevBlockId, int(height-1-firstHeight))
+		if firstTime := inv.GetBlock(firstId).MinedTime; firstTime+1 > minTime {
+			minTime = firstTime + 1
+		}
+	}
+	return minTime
+}
+
 func NextTarget(params Params, inv InvTargeter, prevBlockId HashT) HashT {
 	// Special case - first block gets original target
 	if prevBlockId.EqZero() {
-- 
2.43.0


From 16f34677b34ac5b0bff39b92f2c759b4fbfbea2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:53 +0000
Subject: [PATCH 07/32] fix: don't let Prepend write into the slice it was
 given

---
 pkg/util/util.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/util/util.go b/pkg/util/util.go
index 1270868..041bdb7 100644
--- a/pkg/util/util.go
+++ b/pkg/util/util.go
@@ -11,8 +11,9 @@ func MapKeys[K comparable, V any](in map[K]V) []K {
 	return out
 }
 
-// Prepend into slice.
+// Prepend into slice. Does not modify in-place, returns a new one.
 func Prepend[K any](ls []K, items ...K) []K {
+	ls = CopyList(ls)
 	for _, item := range items {
 		if len(ls) == 0 {
 			ls = []K{item}
-- 
2.43.0


From 396a12e4de222813a8760daaee46d3ce64d4c4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:18 +0000
Subject: [PATCH 08/32] fix: refuse to write byte strings that don't fit their
 16-bit length

---
 pkg/prot/conn.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/prot/conn.go b/pkg/prot/conn.go
index af67bb3..d492b1a 100644
--- a/pkg/prot/conn.go
+++ b/pkg/prot/conn.go
@@ -170,8 +170,8 @@ func (c *Conn) Write(data []byte) {
 	if c.err != nil {
 		return
 	}
-	if len(data) > 65536 {
-		c.err = fmt.Errorf("too many bytes to write: %d > 65536", len(data))
+	if len(data) > 65535 {
+		c.err = fmt.Errorf("too many bytes to write: %d > 65535", len(data))
 		return
 	}
 	sizeB := make([]byte, 2)
-- 
2.43.0


From 7ae6fbf22d20d01eb161d0e58d3b59c0922e068b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:00 +0000
Subject: [PATCH 09/32] fix: keep partially received messages across read
 timeouts

---
 pkg/prot/conn.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkg/prot/conn.go b/pkg/prot/conn.go
index d492b1a..92a5916 100644
--- a/pkg/prot/conn.go
+++ b/pkg/prot/conn.go
@@ -17,6 +17,7 @@ type Conn struct {
 	tc            *net.TCPConn
 	peerRuntimeId string
 	err           error
+	unread        []byte // Bytes of a read that timed out, consumed by the next read
 }
 
 // Create a new connection from an existing TCP Connection.
@@ -111,8 +112,11 @@ func (c *Conn) readRawTimeout(numBytes uint16, timeout time.Duration) []byte {
 	c.tc.SetReadDeadline(time.Now().Add(timeout))
 	defer c.tc.SetReadDeadline(time.Time{})
 	data := make([]byte, numBytes)
-	_, err := io.ReadFull(c.tc, data)
+	numUnread := copy(data, c.unread)
+	c.unread = c.unread[numUnread:]
+	numRead, err := io.ReadFull(c.tc, data[numUnread:])
 	if err != nil {
+		c.unread = append(data[:numUnread+numRead], c.unread...)
 		c.err = err
 		return nil
 	}
@@ -154,7 +158,11 @@ func (c *Conn) ReadTimeout(timeout time.Duration) []byte {
 		return nil
 	}
 	size := binary.BigEndian.Uint16(sizeB)
-	return c.readRawTimeout(size, defaultTimeout)
+	data := c.readRawTimeout(size, defaultTimeout)
+	if c.err != nil {
+		c.unread = append(sizeB, c.unread...)
+	}
+	return data
 }
 
 // Read variable-length data from the conn with the default timeout for each read.
-- 
2.43.0


From d2725d54b135dece0759f4b0282bdb771278466b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:25 +0000
Subject: [PATCH 10/32] fix: keep concurrent loads and stores of the disk map
 from overwriting each other

---
 pkg/disksyncmap/disksyncmap.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/disksyncmap/disksyncmap.go b/pkg/disksyncmap/disksyncmap.go
index 1268a8c..db12836 100644
--- a/pkg/disksyncmap/disksyncmap.go
+++ b/pkg/disksyncmap/disksyncmap.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"os"
+	"sync"
 
 	"github.com/levilutz/basiccoin/pkg/syncmap"
 )
@@ -15,6 +16,7 @@ type comparableStringer interface {
 
 // A sync map backed by disk.
 type DiskSyncMap[K comparableStringer, V fmt.Stringer] struct {
+	mu        sync.Mutex // Keeps memory and disk in step, held by stores and loads.
 	m         *syncmap.SyncMap[K, V]
 	basePath  string
 	parseFunc func(raw string) (v V, err error)
@@ -54,6 +56,8 @@ func (dsm *DiskSyncMap[K, V]) Get(key K) V {
 
 // Store the given key to the map and disk.
 func (dsm *DiskSyncMap[K, V]) Store(key K, val V) {
+	dsm.mu.Lock()
+	defer dsm.mu.Unlock()
 	dsm.m.Store(key, val)
 	if err := dsm.saveFile(dsm.keyPath(key), val); err != nil {
 		fmt.Printf("failed to save file %s: %s\n", dsm.keyPath(key), err)
@@ -62,6 +66,11 @@ func (dsm *DiskSyncMap[K, V]) Store(key K, val V) {
 
 // Load the key from files into the sync map if not present, return whether it exists.
 func (dsm *DiskSyncMap[K, V]) tryLoadKeyFromDisk(key K) bool {
+	if dsm.m.Has(key) {
+		return true
+	}
+	dsm.mu.Lock()
+	defer dsm.mu.Unlock()
 	if dsm.m.Has(key) {
 		return true
 	}
-- 
2.43.0


From 7967ea6356c91124b92eb69f46317af168d7c0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:03 +0000
Subject: [PATCH 11/32] fix: don't let a new queue share the list it was given

---
 pkg/queue/queue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/queue/queue.go b/pkg/queue/queue.go
index 2256a57..24d8270 100644
--- a/pkg/queue/queue.go
+++ b/pkg/queue/queue.go
@@ -8,7 +8,7 @@ type Queue[K any] struct {
 // Create a new queue.
 func NewQueue[K any](keys ...K) *Queue[K] {
 	return &Queue[K]{
-		q: keys,
+		q: append([]K{}, keys...),
 	}
 }
 
-- 
2.43.0


From e8e3777bfbd08979626b12afb2cce98f9b4f4381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:33 +0000
Subject: [PATCH 12/32] fix: refuse tx records with impossible input or output
 counts

---
 internal/inv/serialize.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/inv/serialize.go b/internal/inv/serialize.go
index fade6c8..22bb9e9 100644
--- a/internal/inv/serialize.go
+++ b/internal/inv/serialize.go
@@ -136,6 +136,9 @@ func TxRecordFromString(raw string) (record TxRecord, err error) {
 	if err != nil {
 		return TxRecord{}, fmt.Errorf("failed to parse NumOutputs: %s", err)
 	}
+	if numInputs < 0 || numInputs > len(rows) || numOutputs < 0 || numOutputs > len(rows) {
+		return TxRecord{}, fmt.Errorf("impossible number of inputs or outputs: %d, %d", numInputs, numOutputs)
+	}
 	expectRows := 5 + numInputs*5 + numOutputs*2
 	if len(rows) != expectRows {
 		return TxRecord{}, fmt.Errorf("expected %d rows, got %d", expectRows, len(rows))
-- 
2.43.0


From 2cae65e15f8bc730fa6250ab3b0e245c96d5f8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:33 +0000
Subject: [PATCH 13/32] fix: accept blocks with txs that were only pending
 before a restart

---
 internal/chain/state.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/chain/state.go b/internal/chain/state.go
index 9ec55a9..2fd0238 100644
--- a/internal/chain/state.go
+++ b/internal/chain/state.go
@@ -226,11 +226,11 @@ func (s *State) VerifyTxIncludable(txId core.HashT, autoAddMempoolInsecure bool)
 		return fmt.Errorf("tx cannot be included in block - too low")
 	}
 	if !s.mempool.Includes(txId) {
-		if autoAddMempoolInsecure {
-			s.AddMempoolTx(txId)
-		} else {
-			return fmt.Errorf("tx does not exist in mempool")
+		if _, included := s.includedTxBlocks[txId]; included && !autoAddMempoolInsecure {
+			return fmt.Errorf("tx already included")
 		}
+		// Known and verified, but not pending: the mempool is empty after a restart
+		s.AddMempoolTx(txId)
 	}
 	// Verify each tx input's claimed utxo is available
 	// This guards against double-spends
-- 
2.43.0


From fbc5556a47cb180053d20ab3c8000c8d0f58f985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:03 +0000
Subject: [PATCH 14/32] fix: take up resubmitted txs that a restart dropped
 from the mempool

---
 internal/chain/chain.go | 9 +++++----
 internal/chain/state.go | 6 ++++++
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/internal/chain/chain.go b/internal/chain/chain.go
index 781aa9b..dc26cca 100644
--- a/internal/chain/chain.go
+++ b/internal/chain/chain.go
@@ -208,12 +208,13 @@ func (c *Chain) handleCandidateHead(event bus.CandidateHeadEvent) error {
 
 func (c *Chain) handleCandidateTx(event bus.CandidateTxEvent) error {
 	txId := event.Tx.Hash()
-	if c.inv.HasTx(txId) {
+	if !c.inv.HasTx(txId) {
+		if err := c.inv.StoreTx(event.Tx); err != nil {
+			return err
+		}
+	} else if c.state.HasTx(txId) {
 		return nil
 	}
-	if err := c.inv.StoreTx(event.Tx); err != nil {
-		return err
-	}
 	c.state.AddMempoolTx(txId)
 	c.bus.ValidatedTx.Pub(bus.ValidatedTxEvent{
 		TxId: txId,
diff --git a/internal/chain/state.go b/internal/chain/state.go
index 2fd0238..8417634 100644
--- a/internal/chain/state.go
+++ b/internal/chain/state.go
@@ -256,6 +256,12 @@ func (s *State) GetSortedIncludableMempool() []core.HashT {
 	return memL
 }
 
+// Check whether a tx is pending or included. A known tx may be neither after a restart.
+func (s *State) HasTx(txId core.HashT) bool {
+	_, included := s.includedTxBlocks[txId]
+	return included || s.mempool.Includes(txId)
+}
+
 // Add a tx to the mempool.
 func (s *State) AddMempoolTx(txId core.HashT) {
 	tx := s.inv.GetTx(txId)
-- 
2.43.0


From 99b90fb64f9a15c1bcd74666f31d0568add1714a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:52 +0000
Subject: [PATCH 15/32] fix: replace saved records and the saved head
 atomically

---
 internal/chain/chain.go        |  2 +-
 pkg/disksyncmap/disksyncmap.go |  3 ++-
 pkg/util/util.go               | 11 +++++++++++
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/internal/chain/chain.go b/internal/chain/chain.go
index dc26cca..dbbc805 100644
--- a/internal/chain/chain.go
+++ b/internal/chain/chain.go
@@ -227,7 +227,7 @@ func (c *Chain) handleCandidateTx(event bus.CandidateTxEvent) error {
 }
 
 func (c *Chain) saveHeadToFile(head core.HashT) error {
-	return os.WriteFile(*c.saveDir+"/head", []byte(head.String()), 0666)
+	return util.WriteFileAtomic(*c.saveDir+"/head", []byte(head.String()), 0666)
 }
 
 func loadHeadFromFile(saveDir *string) (head *core.HashT, err error) {
diff --git a/pkg/disksyncmap/disksyncmap.go b/pkg/disksyncmap/disksyncmap.go
index db12836..d452504 100644
--- a/pkg/disksyncmap/disksyncmap.go
+++ b/pkg/disksyncmap/disksyncmap.go
@@ -7,6 +7,7 @@ import (
 	"sync"
 
 	"github.com/levilutz/basiccoin/pkg/syncmap"
+	"github.com/levilutz/basiccoin/pkg/util"
 )
 
 type comparableStringer interface {
@@ -84,7 +85,7 @@ func (dsm *DiskSyncMap[K, V]) tryLoadKeyFromDisk(key K) bool {
 
 // Write to the given file on disk.
 func (dsm *DiskSyncMap[K, V]) saveFile(path string, val V) error {
-	return os.WriteFile(path, []byte(val.String()), 0666)
+	return util.WriteFileAtomic(path, []byte(val.String()), 0666)
 }
 
 // Load the given file from disk and parse.
diff --git a/pkg/util/util.go b/pkg/util/util.go
index 041bdb7..3341265 100644
--- a/pkg/util/util.go
+++ b/pkg/util/util.go
@@ -1,5 +1,7 @@
 package util
 
+import "os"
+
 // Get keys from map.
 func MapKeys[K comparable, V any](in map[K]V) []K {
 	out := make([]K, len(in))
@@ -68,3 +70,12 @@ func WriteChIfPossible[K any](ch chan<- K, val K) {
 		close(ch)
 	}()
 }
+
+// Replace a file's content, such that it always has either its old or its new content in full.
+func WriteFileAtomic(path string, data []byte, perm os.FileMode) error {
+	tmpPath := path + ".tmp"
+	if err := os.WriteFile(tmpPath, data, perm); err != nil {
+		return err
+	}
+	return os.Rename(tmpPath, path)
+}
-- 
2.43.0


From 2b3c4d7a889317a6f4772534eb75b9ce6890bd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:38 +0000
Subject: [PATCH 16/32] fix: pass synced entities to the chain in dependency
 order

---
 internal/peer/sync.go | 55 +++++++++++++++++++++++--------------------
 1 file changed, 29 insertions(+), 26 deletions(-)

diff --git a/internal/peer/sync.go b/internal/peer/sync.go
index cd13447..17fd24c 100644
--- a/internal/peer/sync.go
+++ b/internal/peer/sync.go
@@ -148,47 +148,50 @@ func (p *Peer) handleInboundSyncChain() error {
 	// Request the peer for entities we don't know about
 	newMerkles := make([]core.MerkleNode, 0)
 	newTxs := make([]core.Tx, 0)
-	idQueue := queue.NewQueue[core.HashT]()
 	receivedIds := set.NewSet[core.HashT]()
-	for _, block := range newBlocks {
-		idQueue.Push(block.MerkleRoot)
-	}
-	for idQueue.Size() > 0 {
-		id, _ := idQueue.Pop()
-		if p.inv.HasEntity(id) || receivedIds.Includes(id) {
-			continue
-		}
-		p.conn.WriteHashT(id)
-		isTx := p.conn.ReadBool()
-		if p.conn.HasErr() {
-			return p.conn.Err()
-		} else if !isTx {
-			merkle := p.conn.ReadMerkle(id)
-			if p.conn.HasErr() {
-				return p.conn.Err()
+	// Go oldest block first, so each entity follows everything it depends on
+	for i := len(newBlocks) - 1; i >= 0; i-- {
+		blockMerkles := make([]core.MerkleNode, 0)
+		idQueue := queue.NewQueue(newBlocks[i].MerkleRoot)
+		for idQueue.Size() > 0 {
+			id, _ := idQueue.Pop()
+			if p.inv.HasEntity(id) || receivedIds.Includes(id) {
+				continue
 			}
-			newMerkles = append(newMerkles, merkle)
-			idQueue.Push(merkle.LChild, merkle.RChild)
-		} else {
-			tx := p.conn.ReadTx(id)
+			p.conn.WriteHashT(id)
+			isTx := p.conn.ReadBool()
 			if p.conn.HasErr() {
 				return p.conn.Err()
+			} else if !isTx {
+				merkle := p.conn.ReadMerkle(id)
+				if p.conn.HasErr() {
+					return p.conn.Err()
+				}
+				blockMerkles = append(blockMerkles, merkle)
+				idQueue.Push(merkle.LChild, merkle.RChild)
+			} else {
+				tx := p.conn.ReadTx(id)
+				if p.conn.HasErr() {
+					return p.conn.Err()
+				}
+				newTxs = append(newTxs, tx)
 			}
-			newTxs = append(newTxs, tx)
+			receivedIds.Add(id)
 		}
-		receivedIds.Add(id)
+		// Children were received after their parents, but must be inserted before them
+		newMerkles = append(newMerkles, util.Reverse(blockMerkles)...)
 	}
 	p.conn.WriteHashT(core.HashT{})
 	p.conn.WriteString("complete")
 	if p.conn.HasErr() {
 		return p.conn.Err()
 	}
-	// Send the new entities to the head (reversed so they're inserted in correct order)
+	// Send the new entities to the head (in the order they should be inserted)
 	p.bus.CandidateHead.Pub(bus.CandidateHeadEvent{
 		Head:                   newHead,
 		Blocks:                 util.Reverse(newBlocks),
-		Merkles:                util.Reverse(newMerkles),
-		Txs:                    util.Reverse(newTxs),
+		Merkles:                newMerkles,
+		Txs:                    newTxs,
 		AutoAddMempoolInsecure: false,
 	})
 	return nil
-- 
2.43.0


From f360c2ddc73dc6723bedd8f56a743a7ae51e9c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:34 +0000
Subject: [PATCH 17/32] fix: tell new peers about the newest head, even if it
 was only just validated

---
 internal/peer/peer.go               |  7 +++++--
 internal/peerfactory/peerfactory.go | 18 ++++++++++++------
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/internal/peer/peer.go b/internal/peer/peer.go
index 3a0987d..9a3a506 100644
--- a/internal/peer/peer.go
+++ b/internal/peer/peer.go
@@ -47,7 +47,10 @@ type Peer struct {
 }
 
 // Create a new peer given a message bus instance.
-func NewPeer(msgBus *bus.Bus, inv inv.InvReader, conn *prot.Conn, curHead core.HashT) *Peer {
+// The current head is only retrieved once we're subscribed to new ones, so we can't miss any.
+func NewPeer(
+	msgBus *bus.Bus, inv inv.InvReader, conn *prot.Conn, getCurHead func() core.HashT,
+) *Peer {
 	subs := &subscriptions{
 		PrintUpdate:        msgBus.PrintUpdate.SubCh(),
 		SendPeers:          msgBus.SendPeers.SubCh(),
@@ -62,7 +65,7 @@ func NewPeer(msgBus *bus.Bus, inv inv.InvReader, conn *prot.Conn, curHead core.H
 		subs:        subs,
 		conn:        conn,
 		shouldClose: false,
-		curHead:     curHead,
+		curHead:     getCurHead(),
 	}
 }
 
diff --git a/internal/peerfactory/peerfactory.go b/internal/peerfactory/peerfactory.go
index 268af5e..8faf2e5 100644
--- a/internal/peerfactory/peerfactory.go
+++ b/internal/peerfactory/peerfactory.go
@@ -26,7 +26,7 @@ type subcriptions struct {
 	PeersReceived     *topic.SubCh[bus.PeersReceivedEvent]
 	PeersRequested    *topic.SubCh[bus.PeersRequestedEvent]
 	PrintUpdate       *topic.SubCh[bus.PrintUpdateEvent]
-	ValidatedHead     *topic.SubCh[bus.ValidatedHeadEvent]
+	ValidatedHead     topic.Sub[bus.ValidatedHeadEvent] // Only use in latestHead
 }
 
 // A peer factory. Does not manage the peers after creation.
@@ -54,7 +54,7 @@ func NewPeerFactory(params Params, msgBus *bus.Bus, inv inv.InvReader) *PeerFact
 		PeersReceived:     msgBus.PeersReceived.SubCh(),
 		PeersRequested:    msgBus.PeersRequested.SubCh(),
 		PrintUpdate:       msgBus.PrintUpdate.SubCh(),
-		ValidatedHead:     msgBus.ValidatedHead.SubCh(),
+		ValidatedHead:     msgBus.ValidatedHead.Sub(),
 	}
 	return &PeerFactory{
 		params:         params,
@@ -140,9 +140,6 @@ func (pf *PeerFactory) Loop() {
 				PeerAddrs:       util.CopyMap(pf.knownPeerAddrs),
 			})
 
-		case event := <-pf.subs.ValidatedHead.C:
-			pf.curHead = event.Head
-
 		case event := <-pf.subs.PrintUpdate.C:
 			if !event.PeerFactory {
 				continue
@@ -150,6 +147,7 @@ func (pf *PeerFactory) Loop() {
 			fmt.Printf("peers: %d\n", pf.knownPeers.Size())
 
 		case <-seekPeersTicker.C:
+			pf.latestHead() // Don't let the subscription pile up
 			pf.seekNewPeers()
 		}
 	}
@@ -221,6 +219,14 @@ func (pf *PeerFactory) listen() {
 	}
 }
 
+// Get the latest validated head, including any published just before this call.
+func (pf *PeerFactory) latestHead() core.HashT {
+	for event, ok := pf.subs.ValidatedHead.Pop(); ok; event, ok = pf.subs.ValidatedHead.Pop() {
+		pf.curHead = event.Head
+	}
+	return pf.curHead
+}
+
 // Upgrade a connection to peer, if appropriate.
 func (pf *PeerFactory) addConn(conn *prot.Conn) {
 	if conn.HasErr() {
@@ -231,7 +237,7 @@ func (pf *PeerFactory) addConn(conn *prot.Conn) {
 	if pf.knownPeers.Size() < pf.params.MaxPeers &&
 		!pf.knownPeers.Includes(runtimeId) {
 		// Upgrade to peer
-		go peer.NewPeer(pf.bus, pf.inv, conn, pf.curHead).Loop()
+		go peer.NewPeer(pf.bus, pf.inv, conn, pf.latestHead).Loop()
 		pf.knownPeers.Add(runtimeId)
 		// Set our localaddr and start listen if we only now can
 		if pf.params.Listen && pf.params.LocalAddr == "" {
-- 
2.43.0


From 95f85ef579e20e07b75effe28b9d8bb78cf91535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:01 +0000
Subject: [PATCH 18/32] fix: reconsider a better head whose blocks were already
 stored by a failed offer

---
 internal/peer/sync.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/peer/sync.go b/internal/peer/sync.go
index 17fd24c..15eb949 100644
--- a/internal/peer/sync.go
+++ b/internal/peer/sync.go
@@ -27,6 +27,15 @@ func (p *Peer) handleSyncChain() error {
 	if theirWork.Eq(ourWork) || (ourWork.Lt(theirWork) && p.inv.HasBlock(theirHead)) {
 		p.conn.WriteString("cancel")
 		p.conn.ReadString() // Just to consume their msg
+		if !theirWork.Eq(ourWork) {
+			// If we only failed to include it as part of another chain, we can now
+			p.bus.CandidateHead.Pub(bus.CandidateHeadEvent{
+				Head:    theirHead,
+				Blocks:  []core.Block{},
+				Merkles: []core.MerkleNode{},
+				Txs:     []core.Tx{},
+			})
+		}
 		return p.conn.Err()
 	} else {
 		p.conn.WriteString("continue")
-- 
2.43.0


From 244e2e8aa539bf9e01398e550734f4cb71c73565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:16 +0000
Subject: [PATCH 19/32] fix: close a peer's connection when its session ends

---
 internal/peer/peer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/peer/peer.go b/internal/peer/peer.go
index 9a3a506..7ddfc29 100644
--- a/internal/peer/peer.go
+++ b/internal/peer/peer.go
@@ -79,6 +79,7 @@ func (p *Peer) Loop() {
 		} else {
 			fmt.Printf("peer %s closed\n", p.conn.PeerRuntimeId())
 		}
+		p.conn.Close()
 		p.subs.Close()
 		p.bus.PeerClosing.Pub(bus.PeerClosingEvent{
 			PeerRuntimeId: p.conn.PeerRuntimeId(),
-- 
2.43.0


From 67ba4c3450c54fc8fd13ab82e995409433b240aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:16 +0000
Subject: [PATCH 20/32] fix: don't let a silent newcomer keep others from
 connecting

---
 internal/peerfactory/peerfactory.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/internal/peerfactory/peerfactory.go b/internal/peerfactory/peerfactory.go
index 8faf2e5..89b2f41 100644
--- a/internal/peerfactory/peerfactory.go
+++ b/internal/peerfactory/peerfactory.go
@@ -209,13 +209,16 @@ func (pf *PeerFactory) listen() {
 		if err != nil {
 			continue
 		}
-		protParams := prot.NewParams(pf.params.RuntimeId, false, pf.params.DebugConns)
-		conn := prot.NewConn(protParams, tcpConn)
-		if conn.HasErr() {
-			conn.CloseIfPossible(nil)
-			continue
-		}
-		pf.newConns <- conn
+		// Don't make other newcomers wait for this one's handshake
+		go func() {
+			protParams := prot.NewParams(pf.params.RuntimeId, false, pf.params.DebugConns)
+			conn := prot.NewConn(protParams, tcpConn)
+			if conn.HasErr() {
+				conn.CloseIfPossible(nil)
+				return
+			}
+			pf.newConns <- conn
+		}()
 	}
 }
 
-- 
2.43.0


From c9ff7ad9e273b647f6312f097835d1609d1f98d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:01 +0000
Subject: [PATCH 21/32] fix: don't make room for more than a peer actually
 sends

---
 internal/peer/handlers.go |  5 +++--
 pkg/prot/core.go          | 24 ++++++++++++------------
 2 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/internal/peer/handlers.go b/internal/peer/handlers.go
index ffce87c..85b12cf 100644
--- a/internal/peer/handlers.go
+++ b/internal/peer/handlers.go
@@ -41,8 +41,9 @@ var peerAddrsCmd = "peer-addrs"
 
 func (p *Peer) handleReadPeerAddrs() error {
 	numPeers := p.conn.ReadUint64()
-	peerAddrs := make(map[string]string, numPeers)
-	for i := 0; i < int(numPeers); i++ {
+	// The peer chose this count, so only make room for what actually arrives.
+	peerAddrs := make(map[string]string)
+	for i := uint64(0); i < numPeers && !p.conn.HasErr(); i++ {
 		runtimeId := p.conn.ReadString()
 		peerAddrs[runtimeId] = p.conn.ReadString()
 	}
diff --git a/pkg/prot/core.go b/pkg/prot/core.go
index 53d5cfd..ccea87b 100644
--- a/pkg/prot/core.go
+++ b/pkg/prot/core.go
@@ -101,14 +101,14 @@ func (c *Conn) ReadTx(expectId core.HashT) core.Tx {
 	tx := core.Tx{
 		IsCoinbase: c.ReadBool(),
 		MinBlock:   c.ReadUint64(),
-		Inputs:     make([]core.TxIn, c.ReadUint64()),
-		Outputs:    make([]core.TxOut, c.ReadUint64()),
-	}
-	if c.err != nil {
-		return core.Tx{}
-	}
-	for i := range tx.Inputs {
-		tx.Inputs[i] = core.TxIn{
+		Inputs:     []core.TxIn{},
+		Outputs:    []core.TxOut{},
+	}
+	// The peer chose these counts, so only make room for what actually arrives.
+	numInputs := c.ReadUint64()
+	numOutputs := c.ReadUint64()
+	for i := uint64(0); i < numInputs && c.err == nil; i++ {
+		tx.Inputs = append(tx.Inputs, core.TxIn{
 			Utxo: core.Utxo{
 				TxId:  c.ReadHashT(),
 				Ind:   c.ReadUint64(),
@@ -116,13 +116,13 @@ func (c *Conn) ReadTx(expectId core.HashT) core.Tx {
 			},
 			PublicKey: c.Read(),
 			Signature: c.Read(),
-		}
+		})
 	}
-	for i := range tx.Outputs {
-		tx.Outputs[i] = core.TxOut{
+	for i := uint64(0); i < numOutputs && c.err == nil; i++ {
+		tx.Outputs = append(tx.Outputs, core.TxOut{
 			Value:         c.ReadUint64(),
 			PublicKeyHash: c.ReadHashT(),
-		}
+		})
 	}
 	if c.err != nil {
 		return core.Tx{}
-- 
2.43.0


From 33658e783fb2e6b1cd169d976be7cb0638d971d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:59 +0000
Subject: [PATCH 22/32] fix: take a failed connection's error before its
 closing routine starts using it

---
 internal/peerfactory/peerfactory.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/peerfactory/peerfactory.go b/internal/peerfactory/peerfactory.go
index 89b2f41..eb80d5b 100644
--- a/internal/peerfactory/peerfactory.go
+++ b/internal/peerfactory/peerfactory.go
@@ -175,8 +175,9 @@ func (pf *PeerFactory) tryConn(addr string) (*prot.Conn, error) {
 	if err != nil {
 		return nil, err
 	} else if conn.HasErr() {
+		err = conn.Err()
 		conn.CloseIfPossible(nil)
-		return nil, conn.Err()
+		return nil, err
 	}
 	return conn, nil
 }
-- 
2.43.0


From 02c0fcfa939fb5f3d5ad0bccac34fa64d48557be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:30 +0000
Subject: [PATCH 23/32] fix: answer rich list requests of any length

---
 internal/chain/state.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/chain/state.go b/internal/chain/state.go
index 8417634..e02c3a7 100644
--- a/internal/chain/state.go
+++ b/internal/chain/state.go
@@ -390,9 +390,9 @@ func (s *State) GetRichList(maxLen uint64) map[core.HashT]uint64 {
 		return pkhBals[pkhs[i]] > pkhBals[pkhs[j]]
 	})
 	// outLen = min(maxLen, len(pkhs))
-	outLen := int(maxLen)
-	if len(pkhs) < outLen {
-		outLen = len(pkhs)
+	outLen := len(pkhs)
+	if maxLen < uint64(len(pkhs)) {
+		outLen = int(maxLen)
 	}
 	out := make(map[core.HashT]uint64, outLen)
 	for i := 0; i < outLen; i++ {
-- 
2.43.0


From 9c97d2601493c3287660e20adbb06741d877a38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:00 +0000
Subject: [PATCH 24/32] fix: replace the wallet file as a whole, so a failed or
 interrupted save does not lose its keys

---
 cmd/bcwallet/config.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/bcwallet/config.go b/cmd/bcwallet/config.go
index b80f79b..75e3895 100644
--- a/cmd/bcwallet/config.go
+++ b/cmd/bcwallet/config.go
@@ -9,6 +9,7 @@ import (
 	"path"
 
 	"github.com/levilutz/basiccoin/pkg/core"
+	"github.com/levilutz/basiccoin/pkg/util"
 )
 
 type KeyConfigJSON struct {
@@ -202,7 +203,7 @@ func (c *Config) Save() error {
 		return fmt.Errorf("config file is a directory: %s", getConfigPath(c.Dev))
 	}
 
-	return os.WriteFile(getConfigPath(c.Dev), rawConfig, 0600)
+	return util.WriteFileAtomic(getConfigPath(c.Dev), rawConfig, 0600)
 }
 
 func EnsureConfig(dev bool) {
-- 
2.43.0


From 6cd05cdf9f4661f5886a74df55e2b69b26fab8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:11 +0000
Subject: [PATCH 25/32] fix: report a generated address only once its key is
 saved

---
 cmd/bcwallet/bcwallet.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/bcwallet/bcwallet.go b/cmd/bcwallet/bcwallet.go
index 8d4cc35..9748e0b 100644
--- a/cmd/bcwallet/bcwallet.go
+++ b/cmd/bcwallet/bcwallet.go
@@ -98,8 +98,11 @@ var commands = []Command{
 				kc = NewKeyConfig(priv)
 			}
 			ctx.Config.AddKeys(kc)
+			if err := ctx.Config.Save(); err != nil {
+				return err
+			}
 			fmt.Println(kc.PublicKeyHash)
-			return ctx.Config.Save()
+			return nil
 		},
 	},
 	{
-- 
2.43.0


From aca2fce6706055348924d8403f2ef000709369b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:04 +0000
Subject: [PATCH 26/32] fix: send the sum of all amounts listed for an address,
 not only the last one

---
 cmd/bcwallet/bcwallet.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/bcwallet/bcwallet.go b/cmd/bcwallet/bcwallet.go
index 9748e0b..f1afa8b 100644
--- a/cmd/bcwallet/bcwallet.go
+++ b/cmd/bcwallet/bcwallet.go
@@ -203,7 +203,10 @@ var commands = []Command{
 				if err != nil {
 					return err
 				}
-				dests[pkh] = val
+				if dests[pkh]+val < val {
+					return fmt.Errorf("total amount to %s too large", pkh)
+				}
+				dests[pkh] += val
 			}
 
 			// Get current head height / min block
-- 
2.43.0


From 4a5bc968517c17f7bb07c7b4bc1c1472ac9f3788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:04 +0000
Subject: [PATCH 27/32] fix: ask for a command when only dev is given, instead
 of crashing

---
 cmd/bcwallet/cli.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/bcwallet/cli.go b/cmd/bcwallet/cli.go
index fd52508..c80fcbf 100644
--- a/cmd/bcwallet/cli.go
+++ b/cmd/bcwallet/cli.go
@@ -45,6 +45,10 @@ func Execute(commands []Command) {
 	var command string
 	var cmdArgs []string
 	if os.Args[1] == "dev" {
+		if len(os.Args) < 3 {
+			fmt.Println(yellowStr("must provide command"))
+			return
+		}
 		dev = true
 		command = os.Args[2]
 		cmdArgs = os.Args[3:]
-- 
2.43.0


From f13879d98dfd549116a93c22365cb4e5c9472f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:07 +0000
Subject: [PATCH 28/32] fix: report an import file that is missing or damaged,
 instead of crashing

---
 cmd/bcwallet/bcwallet.go |  6 ++++--
 cmd/bcwallet/config.go   | 17 +++++++++++++++++
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/cmd/bcwallet/bcwallet.go b/cmd/bcwallet/bcwallet.go
index f1afa8b..6c92169 100644
--- a/cmd/bcwallet/bcwallet.go
+++ b/cmd/bcwallet/bcwallet.go
@@ -44,8 +44,10 @@ var commands = []Command{
 		RequiredArgs:   1,
 		RequiresClient: false,
 		Handler: func(ctx *HandlerContext) error {
-			newCfg := GetConfig(ctx.Args[0])
-			newCfg.VerifyKeys()
+			newCfg, err := LoadConfig(ctx.Args[0])
+			if err != nil {
+				return err
+			}
 			ctx.Config.AddKeys(newCfg.Keys...)
 			return ctx.Config.Save()
 		},
diff --git a/cmd/bcwallet/config.go b/cmd/bcwallet/config.go
index 75e3895..8cfbf6b 100644
--- a/cmd/bcwallet/config.go
+++ b/cmd/bcwallet/config.go
@@ -173,6 +173,23 @@ func getConfigPath(dev bool) string {
 	}
 }
 
+func LoadConfig(path string) (*Config, error) {
+	rawConfig, err := os.ReadFile(path)
+	if err != nil {
+		return nil, fmt.Errorf("failed to find config: %s", err.Error())
+	}
+	config := &Config{}
+	if err := json.Unmarshal(rawConfig, config); err != nil {
+		return nil, fmt.Errorf("failed to parse config: %s", err.Error())
+	}
+	for _, kc := range config.Keys {
+		if err := kc.Verify(); err != nil {
+			return nil, err
+		}
+	}
+	return config, nil
+}
+
 func GetConfig(path string) *Config {
 	rawConfig, err := os.ReadFile(path)
 	if err != nil {
-- 
2.43.0


From 0919785a761df88e704377909be1707bfe3b07fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:30 +0000
Subject: [PATCH 29/32] fix: refuse address prefixes that can never be found,
 instead of searching for ever

---
 cmd/bcwallet/bcwallet.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/bcwallet/bcwallet.go b/cmd/bcwallet/bcwallet.go
index 6c92169..cc64491 100644
--- a/cmd/bcwallet/bcwallet.go
+++ b/cmd/bcwallet/bcwallet.go
@@ -77,7 +77,10 @@ var commands = []Command{
 			if len(ctx.Args) > 0 {
 				if len(ctx.Args[0]) >= 6 {
 					fmt.Println(yellowStr("longer prefixes take exponentially longer time to find"))
-				} // nb. we don't check that the given prefix only contains hex chars
+				}
+				if len(ctx.Args[0]) > 64 || strings.Trim(ctx.Args[0], "0123456789abcdef") != "" {
+					return fmt.Errorf("prefix must be at most 64 lowercase hex characters")
+				}
 				for {
 					priv, err := core.NewEcdsa()
 					if err != nil {
-- 
2.43.0


From 0421c70808ae51b22b516d579ddbf95c24d631df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:34 +0000
Subject: [PATCH 30/32] fix: end with an error when the http port cannot be
 served

---
 internal/rest/server.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/rest/server.go b/internal/rest/server.go
index b448cf6..b42479f 100644
--- a/internal/rest/server.go
+++ b/internal/rest/server.go
@@ -81,7 +81,9 @@ func (s *Server) Start() {
 	}
 
 	portStr := fmt.Sprintf(":%d", s.params.Port)
-	http.ListenAndServe(portStr, nil)
+	if err := http.ListenAndServe(portStr, nil); err != nil {
+		panic(fmt.Sprintf("failed to serve http: %s", err))
+	}
 }
 
 // Mount the given handlers to the given endpoint. Handlers provided as map from methods.
-- 
2.43.0


From 8c6f5c8c44c8e9133f6439eee73740256c4da34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:12 +0000
Subject: [PATCH 31/32] fix: announce and listen on a discovered IPv6 address
 without panicking

---
 internal/peerfactory/peerfactory.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/peerfactory/peerfactory.go b/internal/peerfactory/peerfactory.go
index eb80d5b..f32943e 100644
--- a/internal/peerfactory/peerfactory.go
+++ b/internal/peerfactory/peerfactory.go
@@ -245,7 +245,9 @@ func (pf *PeerFactory) addConn(conn *prot.Conn) {
 		pf.knownPeers.Add(runtimeId)
 		// Set our localaddr and start listen if we only now can
 		if pf.params.Listen && pf.params.LocalAddr == "" {
-			pf.params.LocalAddr = conn.LocalAddr().IP.String() + ":21720"
+			localAddr := *conn.LocalAddr()
+			localAddr.Port = 21720
+			pf.params.LocalAddr = localAddr.String()
 			go pf.listen()
 		}
 		// Broadcast our localaddr to the peer if we want to listen
-- 
2.43.0


From 77ec3a0b03d87cdd4eaaf4c48cb137a36e558deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:07 +0000
Subject: [PATCH 32/32] fix: take up an announced transaction that is known but
 no longer pending after a restart

---
 internal/peer/handlers.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/peer/handlers.go b/internal/peer/handlers.go
index 85b12cf..3d62ede 100644
--- a/internal/peer/handlers.go
+++ b/internal/peer/handlers.go
@@ -74,6 +74,10 @@ func (p *Peer) handleReadNewTx() error {
 		return p.conn.Err()
 	} else if p.inv.HasTx(txId) {
 		p.conn.WriteBool(false)
+		// After a restart we can know it without having it pending
+		p.bus.CandidateTx.Pub(bus.CandidateTxEvent{
+			Tx: p.inv.GetTx(txId),
+		})
 		return p.conn.Err()
 	}
 	p.conn.WriteBool(true)
-- 
2.43.0

