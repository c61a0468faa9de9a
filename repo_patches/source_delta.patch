From b081ba55d8013773aca80efd20a7d07444e32e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:55 +0000
Subject: [PATCH 01/98] fix: iterate Tree keys in ascending order

---
 tevm/tree.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tevm/tree.go b/tevm/tree.go
index 85340ea..0603204 100644
--- a/tevm/tree.go
+++ b/tevm/tree.go
@@ -220,14 +220,15 @@ func (t *Tree) Rollback(snap int) {
 }
 
 func (t *Tree) apply(node *treenode, fn func(k, v []byte) bool) bool {
-	if node.Left != 0 && !t.apply(t.num(node.Left), fn) {
+	// keys greater than the node's are stored on the left
+	if node.Right != 0 && !t.apply(t.num(node.Right), fn) {
 		return false
 	}
 	if !fn(node.Key, node.Value) {
 		return false
 	}
-	if node.Right != 0 {
-		return t.apply(t.num(node.Right), fn)
+	if node.Left != 0 {
+		return t.apply(t.num(node.Left), fn)
 	}
 	return true
 }
-- 
2.43.0


From d129107cc7beeed8164480b9ac5d62ec2a7d15cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:12 +0000
Subject: [PATCH 02/98] fix: keep earlier snapshots valid when an emptied Tree
 is snapshotted

---
 tevm/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tevm/tree.go b/tevm/tree.go
index 0603204..dafdc4c 100644
--- a/tevm/tree.go
+++ b/tevm/tree.go
@@ -167,7 +167,7 @@ func (t *Tree) Get(key []byte) []byte {
 // Snapshot returns a snapshot number for the
 // current state of the tree
 func (t *Tree) Snapshot() int {
-	if t.Root == 0 {
+	if t.Root == 0 && len(t.Snaps) == 0 {
 		return -1
 	}
 	s := len(t.Snaps)
-- 
2.43.0


From 86215c42aad85f80b122975e2d8ca3f833ff5b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:13 +0000
Subject: [PATCH 03/98] fix: do not let a Tree copy overwrite the original's
 snapshots

---
 tevm/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tevm/tree.go b/tevm/tree.go
index dafdc4c..b8b97ff 100644
--- a/tevm/tree.go
+++ b/tevm/tree.go
@@ -195,7 +195,7 @@ func (t *Tree) CopyAt(snap int) Tree {
 	}
 	s := t.Snaps[snap]
 	return Tree{
-		Snaps: t.Snaps[:snap+1],
+		Snaps: t.Snaps[:snap+1:snap+1],
 		Root:  s.Root,
 		// make sure any appends to the node list
 		// cause reallocation of the backing data
-- 
2.43.0


From d0d38d27bc2def58be87480c96e386cd4ace530a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:15 +0000
Subject: [PATCH 04/98] fix: do not let a Tree rollback overwrite nodes used by
 copies

---
 tevm/tree.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tevm/tree.go b/tevm/tree.go
index b8b97ff..4cfd912 100644
--- a/tevm/tree.go
+++ b/tevm/tree.go
@@ -213,9 +213,10 @@ func (t *Tree) Rollback(snap int) {
 		return
 	}
 	s := t.Snaps[snap]
-	t.Snaps = t.Snaps[:snap+1]
+	t.Snaps = t.Snaps[:snap+1:snap+1]
 	t.Root = s.Root
-	t.All = t.All[:s.Allocated]
+	// copies of later snapshots still refer to the nodes past this point
+	t.All = t.All[:s.Allocated:s.Allocated]
 	t.Epoch++
 }
 
-- 
2.43.0


From e658226b2cd0995e6643a21bcd92002828328d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:58 +0000
Subject: [PATCH 05/98] fix: overwrite the destination when decoding hex
 instead of OR-ing into it

---
 hex.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hex.go b/hex.go
index 5b771ce..9bb6722 100644
--- a/hex.go
+++ b/hex.go
@@ -54,6 +54,9 @@ func hexdecode(dst, src []byte) error {
 	// make sure that it implicitly has a 0 nibble
 	// at the beginning rather than at the end.
 	addend := uint(len(src) & 1)
+	for i := range dst {
+		dst[i] = 0
+	}
 	for i, b := range src[2:] {
 		a, ok := fromhex(b)
 		if !ok {
-- 
2.43.0


From a76cf5a496a46c389c4e4adca92e50db2be1a754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:59 +0000
Subject: [PATCH 06/98] fix: do not mint ether when an account transfers to
 itself

---
 tevm/evm.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tevm/evm.go b/tevm/evm.go
index 591a5f9..c7a526e 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -719,6 +719,11 @@ func dotransfer(s vm.StateDB, from, to common.Address, v *big.Int) {
 		return
 	}
 
+	if from == to {
+		// moving value from an account to itself changes nothing
+		return
+	}
+
 	aaddr, baddr := seth.Address(from), seth.Address(to)
 	facct, _ := st.getAccount(&aaddr)
 	fbcct, _ := st.getAccount(&baddr)
-- 
2.43.0


From b5e4a07b043c38edb8ceda9f193512a4f3a176d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:01 +0000
Subject: [PATCH 07/98] fix: clear the balance of a self-destructed contract

---
 tevm/evm.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index c7a526e..bd812ba 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -383,10 +383,12 @@ func (s *gethState) Suicide(addr common.Address) bool {
 	// out of the JSON-RPC API, so this may
 	// simply be wrong.
 	acct, ok := s.getAccount(&a)
-	if !ok || acct.Suicided() {
+	if !ok {
 		return false
 	}
+	// the balance has already been moved to the beneficiary
 	acct.SetSuicided(true)
+	acct.SetBalance(new(big.Int))
 	s.setAccount(&a, &acct)
 	return true
 }
-- 
2.43.0


From e02900bc9cfd231b5d810b1c1e7f1b84b95a28de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:02 +0000
Subject: [PATCH 08/98] fix: carry over the balance of an account that a
 contract is created at

---
 tevm/evm.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tevm/evm.go b/tevm/evm.go
index bd812ba..11cd4d3 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -143,6 +143,10 @@ func (s *gethState) CreateAccount(addr common.Address) {
 	}
 	var empty Account
 	a := seth.Address(addr)
+	// a balance that was there before the account was created carries over
+	prev, _ := s.getAccount(&a)
+	bal := prev.Balance()
+	empty.SetBalance(bal.Big())
 	s.setAccount(&a, &empty)
 }
 
-- 
2.43.0


From 67c57432f1ed18e76e5774b6d793fed6ceea8b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:04 +0000
Subject: [PATCH 09/98] fix: do not let the account tree alias addresses owned
 by callers

---
 tevm/evm.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 11cd4d3..a8d3087 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -124,7 +124,9 @@ func (s *gethState) treeAccount(addr *seth.Address) (Account, bool) {
 }
 
 func (s *gethState) setAccount(addr *seth.Address, acct *Account) {
-	s.Accounts.Insert(addr[:], acct[:])
+	// the tree keeps the key, so do not hand it memory owned by the caller
+	key := *addr
+	s.Accounts.Insert(key[:], acct[:])
 }
 
 type statesnap struct {
-- 
2.43.0


From 073ff460c3e9fd7c1d3435fb72a4acebda4bdd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:55 +0000
Subject: [PATCH 10/98] fix: do not let the transaction tree alias the caller's
 transaction

---
 tevm/evm.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index a8d3087..0ac8710 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -973,7 +973,8 @@ func (c *Chain) Mine(tx *seth.Transaction) (ret []byte, h seth.Hash, err error)
 
 	b.Transactions = append(b.Transactions, js(&tx.Hash))
 	c.pendingrx = append(c.pendingrx, rx)
-	c.State.Transactions.Insert(tx.Hash[:], encode(tx))
+	// the tree keeps the key, so do not hand it memory owned by the caller
+	c.State.Transactions.Insert(h[:], encode(tx))
 	return
 }
 
-- 
2.43.0


From af0ec12a10cbda34280177b0dc53d017d9a11aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:56 +0000
Subject: [PATCH 11/98] fix: record the block and position of mined logs and
 receipts

---
 tevm/evm.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 0ac8710..d4d9116 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -954,8 +954,15 @@ func (c *Chain) Mine(tx *seth.Transaction) (ret []byte, h seth.Hash, err error)
 	tx.Block = *b.Hash
 	tx.BlockNumber = *b.Number
 
-	for _, l := range c.State.Logs[l0:] {
+	var logs int // logs emitted so far in this block
+	for _, rx := range c.pendingrx {
+		logs += len(rx.Logs)
+	}
+	for i, l := range c.State.Logs[l0:] {
 		copy(l.TxHash[:], tx.Hash[:])
+		copy(l.BlockHash[:], b.Hash[:])
+		l.TxIndex = uint(*idx)
+		l.Index = uint(logs + i)
 	}
 
 	rx := &seth.Receipt{
@@ -998,6 +1005,7 @@ func (c *Chain) Seal() {
 	for i := range c.pendingrx {
 		rx := c.pendingrx[i]
 		copy(rx.BlockHash[:], b.Hash[:])
+		rx.BlockNumber = *b.Number
 		c.State.Receipts.Insert(rx.Hash[:], encode(rx))
 	}
 	c.pendingrx = c.pendingrx[:0]
-- 
2.43.0


From 96982cd78280fa94f5008415178e9d41a58a3a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:58 +0000
Subject: [PATCH 12/98] fix: undo the effects of a failed gas estimate

---
 tevm/transport.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tevm/transport.go b/tevm/transport.go
index 07249fa..cf55662 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -411,6 +411,7 @@ func (c *Chain) estimate(a *callArgs, blocknum int64) (seth.Uint64, error) {
 	// TODO: incorporate gas price
 	evm.Context.GasPrice = big.NewInt(0)
 	snap := evm.StateDB.Snapshot()
+	defer evm.StateDB.RevertToSnapshot(snap)
 
 	gas := uint64(c.State.Pending.GasLimit)
 	if a.Gas != 0 {
@@ -431,8 +432,6 @@ func (c *Chain) estimate(a *callArgs, blocknum int64) (seth.Uint64, error) {
 		gas -= rem
 	}
 
-	evm.StateDB.RevertToSnapshot(snap)
-
 	return seth.Uint64(gas), nil
 }
 
-- 
2.43.0


From d43e5a0e3c7fe9fc65cfb5fe6927115f3bc3408d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:59 +0000
Subject: [PATCH 13/98] fix: give the first block of a fork the hash of its own
 number

---
 tevm/evm.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tevm/evm.go b/tevm/evm.go
index d4d9116..fe14d7a 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -683,7 +683,9 @@ func NewFork(c *seth.Client, blocknum int64) *Chain {
 
 	// For convenience, start our chain at blocknum+1
 	n := seth.Uint64(blocknum + 1)
+	h := seth.Hash(n2h(uint64(n)))
 	chain.State.Pending.Number = &n
+	chain.State.Pending.Hash = &h
 
 	chain.State.Fallback.Client = c
 	chain.State.Fallback.Block = blocknum
-- 
2.43.0


From 9964f3a37436cb1aa813fa876a3465b640901624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:01 +0000
Subject: [PATCH 14/98] fix: do not let code cleared on a fork reappear from
 the base chain

---
 tevm/evm.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tevm/evm.go b/tevm/evm.go
index fe14d7a..c417d9e 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -284,6 +284,11 @@ func (s *gethState) SetCode(addr common.Address, data []byte) {
 	if s.Trace != nil {
 		s.Trace("SetCode", addr.String(), data)
 	}
+	if data == nil {
+		// present, but empty; a missing entry means
+		// that the code is that of the fallback chain
+		data = []byte{}
+	}
 	s.Code.Insert(addr[:], data)
 }
 
-- 
2.43.0


From 06f3d07f9ea5ab05b4ed0f7d8b293d6017612b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:02 +0000
Subject: [PATCH 15/98] fix: do not replace the pending block's transactions
 when it is queried

---
 tevm/transport.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tevm/transport.go b/tevm/transport.go
index cf55662..e847ab8 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -314,7 +314,9 @@ func (c *Chain) staticCall(a *callArgs, blocknum int64) (seth.Data, error) {
 func (c *Chain) getBlock(h *seth.Hash, fulltx bool) (*seth.Block, error) {
 	var b *seth.Block
 	if bytes.Equal(h[:], c.State.Pending.Hash[:]) {
-		b = c.State.Pending
+		// the caller must not see or cause changes to the pending block
+		pending := *c.State.Pending
+		b = &pending
 	} else {
 		buf := c.State.Blocks.Get(h[:])
 		if buf == nil {
-- 
2.43.0


From 2b7286f8950e0fdfa7b296f699ad687c61b56a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:04 +0000
Subject: [PATCH 16/98] fix: understand block numbers and tags as clients send
 them

---
 tevm/transport.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/tevm/transport.go b/tevm/transport.go
index e847ab8..bb49191 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -6,9 +6,9 @@ import (
 	"errors"
 	"fmt"
 	"log"
+	"math"
 	"math/big"
 	"net/http"
-	"strconv"
 
 	"github.com/ethereum/go-ethereum/common"
 	"github.com/ethereum/go-ethereum/core/vm"
@@ -50,11 +50,14 @@ func (b *blocknum) UnmarshalJSON(buf []byte) error {
 	case bytes.Equal(rawearliest, buf):
 		*b = 0
 	default:
-		// should be an integer
-		i, err := strconv.ParseInt(string(buf), 10, 64)
-		if err != nil {
+		// should be an integer, either plain or as quoted hex
+		var i seth.Uint64
+		if err := i.UnmarshalJSON(buf); err != nil {
 			return err
 		}
+		if i > math.MaxInt64 {
+			return fmt.Errorf("block number %s out of range", buf)
+		}
 		*b = blocknum(i)
 	}
 	return nil
@@ -179,13 +182,22 @@ func (c *Chain) execute(method string, params []json.RawMessage) (interface{}, e
 		}
 		return c.getBlock(&h, all)
 	case "eth_getBlockByNumber":
-		var n seth.Int
 		var all bool
-		if err := marshal(params, &n, &all); err != nil {
+		if err := marshal(params, &b, &all); err != nil {
 			return nil, err
 		}
+		n := int64(b)
+		switch pending := int64(*c.State.Pending.Number); n {
+		case -1:
+			n = pending
+		case -2:
+			n = pending
+			if _, ok := c.block2snap[pending-1]; ok {
+				n = pending - 1
+			}
+		}
 		// hack: block hashes are hashes of the block number
-		h := seth.Hash(n2h(uint64(n.Int64())))
+		h := seth.Hash(n2h(uint64(n)))
 		return c.getBlock(&h, all)
 	case "eth_newFilter":
 		type newFilterReq struct {
-- 
2.43.0


From 7b26b89af8237c78b813577902ee4137728c1ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:06 +0000
Subject: [PATCH 17/98] fix: reject RPC parameters that do not decode

---
 tevm/transport.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tevm/transport.go b/tevm/transport.go
index bb49191..819fc29 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -454,7 +454,9 @@ func marshal(from []json.RawMessage, to ...interface{}) error {
 		return fmt.Errorf("expected %d params; found %d", len(to), len(from))
 	}
 	for i := range from {
-		gross(from[i], to[i])
+		if err := gross(from[i], to[i]); err != nil {
+			return err
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 4c09b2d1294dac6d2eb90e63819d0b036953fcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:07 +0000
Subject: [PATCH 18/98] fix: accept filters from a block number up to the
 latest or pending block

---
 tevm/transport.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tevm/transport.go b/tevm/transport.go
index 819fc29..ba9f024 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -235,7 +235,7 @@ func (c *Chain) execute(method string, params []json.RawMessage) (interface{}, e
 }
 
 func (c *Chain) newFilter(from, to blocknum, addr *seth.Address, topics []*seth.Hash) (int, error) {
-	if from > to {
+	if from >= 0 && to >= 0 && from > to {
 		return 0, fmt.Errorf("cannot filter block range [%d,%d)", from, to)
 	}
 	c.filtcount++
-- 
2.43.0


From d9811148392078cb3cd48ea7229964f6c2b9537d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:34 +0000
Subject: [PATCH 19/98] fix: estimate enough gas for transactions with nested
 calls

---
 tevm/transport.go | 45 +++++++++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/tevm/transport.go b/tevm/transport.go
index ba9f024..5f5e348 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -424,28 +424,45 @@ func (c *Chain) estimate(a *callArgs, blocknum int64) (seth.Uint64, error) {
 
 	// TODO: incorporate gas price
 	evm.Context.GasPrice = big.NewInt(0)
-	snap := evm.StateDB.Snapshot()
-	defer evm.StateDB.RevertToSnapshot(snap)
+
+	// run tries the transaction with the given gas
+	// and returns how much of it was used
+	run := func(gas uint64) (uint64, error) {
+		snap := evm.StateDB.Snapshot()
+		defer evm.StateDB.RevertToSnapshot(snap)
+		var rem uint64
+		var err error
+		if a.To == nil {
+			_, _, rem, err = evm.Create(a.Ref(), a.Data, gas, a.Value.Big())
+		} else {
+			_, rem, err = evm.Call(a.Ref(), *a.To, a.Data, gas, a.Value.Big())
+		}
+		return gas - rem, err
+	}
 
 	gas := uint64(c.State.Pending.GasLimit)
 	if a.Gas != 0 {
 		gas = uint64(a.Gas)
 	}
+	used, err := run(gas)
+	if err != nil {
+		return 0, err
+	}
+	if _, err := run(used); err == nil {
+		return seth.Uint64(used), nil
+	}
 
-	if a.To == nil {
-		_, _, rem, err := evm.Create(a.Ref(), a.Data, gas, a.Value.Big())
-		if err != nil {
-			return 0, err
+	// A transaction may have to offer more gas than it uses, since a
+	// contract can only pass on a part of its gas to those it calls.
+	// Find an amount between the gas used and the gas offered that does.
+	for used+1 < gas {
+		mid := used + (gas-used)/2
+		if _, err := run(mid); err == nil {
+			gas = mid
+		} else {
+			used = mid
 		}
-		gas -= rem
-	} else {
-		_, rem, err := evm.Call(a.Ref(), *a.To, a.Data, gas, a.Value.Big())
-		if err != nil {
-			return 0, err
-		}
-		gas -= rem
 	}
-
 	return seth.Uint64(gas), nil
 }
 
-- 
2.43.0


From 21f42d2170a70a1c227cda092d140d637452dba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:36 +0000
Subject: [PATCH 20/98] fix: do not share the table of sealed blocks with
 historical views

---
 tevm/evm.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index c417d9e..800df5d 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -595,7 +595,12 @@ func (c *Chain) AtBlock(n int64) *Chain {
 	c.State.atSnap(snap, &cc.State)
 	cc.Debugf = c.Debugf
 	cc.State.Pending = nb
-	cc.block2snap = c.block2snap
+	cc.block2snap = make(map[int64]int)
+	for bn, s := range c.block2snap {
+		if bn < n {
+			cc.block2snap[bn] = s
+		}
+	}
 	return cc
 }
 
-- 
2.43.0


From fdea3e295598709fe30d70065a6c8498d12d0d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:37 +0000
Subject: [PATCH 21/98] fix: keep the preceding blocks in historical views

---
 tevm/evm.go       | 3 ++-
 tevm/transport.go | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 800df5d..c02917d 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -460,7 +460,7 @@ func (s *State) atSnap(n int, dst *State) {
 	ns := s.Snapshots[n]
 	dst.Fallback = s.Fallback
 	dst.Trace = s.Trace
-	dst.Refund = s.Refund
+	dst.Refund = ns.Refund
 	dst.Accounts = s.Accounts.CopyAt(ns.Accounts)
 	dst.Code = s.Code.CopyAt(ns.Code)
 	dst.Storage = s.Storage.CopyAt(ns.State)
@@ -595,6 +595,7 @@ func (c *Chain) AtBlock(n int64) *Chain {
 	c.State.atSnap(snap, &cc.State)
 	cc.Debugf = c.Debugf
 	cc.State.Pending = nb
+	cc.State.Blocks = c.State.Blocks.CopyAt(c.State.Blocks.Snapshot())
 	cc.block2snap = make(map[int64]int)
 	for bn, s := range c.block2snap {
 		if bn < n {
diff --git a/tevm/transport.go b/tevm/transport.go
index 5f5e348..4f04f45 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -338,6 +338,10 @@ func (c *Chain) getBlock(h *seth.Hash, fulltx bool) (*seth.Block, error) {
 		if _, err := b.UnmarshalMsg(buf); err != nil {
 			return nil, err
 		}
+		if *b.Number > *c.State.Pending.Number {
+			// this is a view of the chain at an earlier block
+			return nil, fmt.Errorf("unknown block hash %s", h)
+		}
 	}
 	if !fulltx {
 		return b, nil
-- 
2.43.0


From 5a0ff91c6384fea12b3f54b464e3256c15672125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:39 +0000
Subject: [PATCH 22/98] fix: do not return the pending state for an unknown
 block number

---
 tevm/evm.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index c02917d..41671c0 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -561,16 +561,14 @@ func (c *Chain) AtBlock(n int64) *Chain {
 	var snap int
 	pending := int64(*c.State.Pending.Number)
 	switch n {
-	case pending - 1, -2: // latest
+	case -2: // latest
 		s, ok := c.block2snap[pending-1]
-		if ok {
-			n = pending - 1
-			snap = s
-			break
+		if !ok {
+			return c
 		}
-		fallthrough
+		n = pending - 1
+		snap = s
 	case pending, -1: // pending
-		n = pending
 		return c
 	default:
 		s, ok := c.block2snap[n]
-- 
2.43.0


From ec34c8b1fd323c0e3dc3d30d324cf29851ee5476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:41 +0000
Subject: [PATCH 23/98] fix: give copies of a chain their own history and
 pending block

---
 tevm/evm.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/tevm/evm.go b/tevm/evm.go
index 41671c0..fe9305e 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -548,7 +548,18 @@ func (c *Chain) Copy() *Chain {
 	c.State.atSnap(((*gethState)(&c.State)).Snapshot(), &cc.State)
 
 	p := *c.State.Pending
+	p.Transactions = append([]json.RawMessage(nil), p.Transactions...)
 	cc.State.Pending = &p
+	for _, rx := range c.pendingrx {
+		r := *rx
+		cc.pendingrx = append(cc.pendingrx, &r)
+	}
+	cc.State.Blocks = c.State.Blocks.CopyAt(c.State.Blocks.Snapshot())
+	cc.block2snap = make(map[int64]int)
+	for bn, s := range c.block2snap {
+		cc.block2snap[bn] = s
+	}
+	cc.Debugf = c.Debugf
 	return cc
 }
 
-- 
2.43.0


From 08557eb6000e292c4ed7cc51d64b8d8389b264c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:43 +0000
Subject: [PATCH 24/98] fix: serialise the receipts of the pending block

---
 tevm/evm.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index fe9305e..95683c2 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -1055,7 +1055,8 @@ func (c *Chain) MarshalJSON() ([]byte, error) {
 	b, err := json.Marshal(&struct {
 		State      State
 		Block2snap map[int64]int
-	}{c.State, c.block2snap})
+		Pendingrx  []*seth.Receipt `json:",omitempty"`
+	}{c.State, c.block2snap, c.pendingrx})
 	c.mu.Unlock()
 	return b, err
 }
@@ -1065,6 +1066,7 @@ func (c *Chain) UnmarshalJSON(b []byte) error {
 	var s struct {
 		State      State
 		Block2snap map[int64]int
+		Pendingrx  []*seth.Receipt
 	}
 	if err := json.Unmarshal(b, &s); err != nil {
 		return err
@@ -1072,6 +1074,10 @@ func (c *Chain) UnmarshalJSON(b []byte) error {
 	c.mu.Lock()
 	c.State = s.State
 	c.block2snap = s.Block2snap
+	if c.block2snap == nil {
+		c.block2snap = make(map[int64]int)
+	}
+	c.pendingrx = s.Pendingrx
 	c.mu.Unlock()
 	return nil
 }
-- 
2.43.0


From c211cbf194ff4d38b2e1df2d973c661a732418f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:45 +0000
Subject: [PATCH 25/98] fix: make all methods of Chain safe for concurrent use,
 as documented

---
 tevm/evm.go       | 24 ++++++++++++++++++++++++
 tevm/transport.go | 10 +++++-----
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 95683c2..6376d16 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -541,6 +541,8 @@ func (f *filter) matches(log *types.Log) bool {
 // Copy returns a new logical copy of the chain.
 // Copy avoids making a deep copy of the state.
 func (c *Chain) Copy() *Chain {
+	c.mu.Lock()
+	defer c.mu.Unlock()
 	cc := new(Chain)
 
 	// snapshot the current chain state
@@ -569,6 +571,12 @@ func (c *Chain) Copy() *Chain {
 // and -2 is interpreted as the latest block (i.e. the
 // chain state just before the pending block).
 func (c *Chain) AtBlock(n int64) *Chain {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	return c.atBlock(n)
+}
+
+func (c *Chain) atBlock(n int64) *Chain {
 	var snap int
 	pending := int64(*c.State.Pending.Number)
 	switch n {
@@ -647,6 +655,8 @@ func lconv(l []*types.Log) []seth.Log {
 // the returned log values do not include logs
 // from that fallback chain.
 func (c *Chain) Logs() []seth.Log {
+	c.mu.Lock()
+	defer c.mu.Unlock()
 	return lconv(c.State.Logs)
 }
 
@@ -717,6 +727,8 @@ func NewFork(c *seth.Client, blocknum int64) *Chain {
 func (c *Chain) NewAccount(ether int) seth.Address {
 	var addr seth.Address
 	rand.Read(addr[:])
+	c.mu.Lock()
+	defer c.mu.Unlock()
 	if ether == 0 {
 		c.State.StateDB().CreateAccount(common.Address(addr))
 		return addr
@@ -944,6 +956,12 @@ func pretty(v interface{}) []byte {
 // rather than offering all of the gas in the block to the transaction,
 // which more faithfully mimics the behavior of an actual ethereum node.
 func (c *Chain) Mine(tx *seth.Transaction) (ret []byte, h seth.Hash, err error) {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	return c.mine(tx)
+}
+
+func (c *Chain) mine(tx *seth.Transaction) (ret []byte, h seth.Hash, err error) {
 	b := c.State.Pending
 
 	// make up a tx hash:
@@ -1020,6 +1038,12 @@ func js(v interface{}) []byte {
 // same parameters (but with an update block number and hash,
 // and zeroed gas used).
 func (c *Chain) Seal() {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	c.seal()
+}
+
+func (c *Chain) seal() {
 	b := c.State.Pending
 
 	// for all transactions in the block,
diff --git a/tevm/transport.go b/tevm/transport.go
index 4f04f45..0bd41d9 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -303,7 +303,7 @@ func (c *Chain) deleteFilter(fd int) (bool, error) {
 
 // staticCall handles eth_call.
 func (c *Chain) staticCall(a *callArgs, blocknum int64) (seth.Data, error) {
-	c = c.AtBlock(blocknum)
+	c = c.atBlock(blocknum)
 	if c == nil {
 		return nil, fmt.Errorf("unknown block number %d", blocknum)
 	}
@@ -372,12 +372,12 @@ func (c *Chain) getBlock(h *seth.Hash, fulltx bool) (*seth.Block, error) {
 
 // send handles eth_sendTransaction
 func (c *Chain) send(a *seth.Transaction) (*seth.Hash, error) {
-	_, h, err := c.Mine(a)
+	_, h, err := c.mine(a)
 	if err != nil {
 		return nil, err
 	}
 	// For now, 1 tx per block.
-	c.Seal()
+	c.seal()
 	return &h, nil
 }
 
@@ -411,7 +411,7 @@ func (c *Chain) transaction(h seth.Hash) (*seth.Transaction, error) {
 
 // balance handles eth_getBalance.
 func (c *Chain) balance(addr *seth.Address, block int64) (*seth.Int, error) {
-	c = c.AtBlock(block)
+	c = c.atBlock(block)
 	if c == nil {
 		return nil, fmt.Errorf("unknown block number %d", block)
 	}
@@ -420,7 +420,7 @@ func (c *Chain) balance(addr *seth.Address, block int64) (*seth.Int, error) {
 
 // estimate handles eth_estimateGas.
 func (c *Chain) estimate(a *callArgs, blocknum int64) (seth.Uint64, error) {
-	c = c.AtBlock(blocknum)
+	c = c.atBlock(blocknum)
 	if c == nil {
 		return 0, fmt.Errorf("unknown block number %d", blocknum)
 	}
-- 
2.43.0


From be521cc8c56bb23c384d204dea817c337d427011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:51 +0000
Subject: [PATCH 26/98] fix: let forks see contracts that have neither nonce
 nor balance

---
 tevm/evm.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 6376d16..090673e 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -174,7 +174,8 @@ func (s *gethState) getAccount(addr *seth.Address) (Account, bool) {
 	if err != nil {
 		panic("fallback GetNonce: " + err.Error())
 	}
-	if nonce == 0 && bal.IsZero() {
+	if nonce == 0 && bal.IsZero() && len(s.getCode(addr)) == 0 {
+		// contracts created before EIP-161 can have a zero nonce
 		return acct, false
 	}
 
@@ -267,7 +268,11 @@ func (s *gethState) getCode(addr *seth.Address) []byte {
 		if s.Trace != nil {
 			s.Trace("Fallback GetCode", addr.String())
 		}
-		s.Code.Insert(addr[:], buf)
+		if buf == nil {
+			buf = []byte{}
+		}
+		key := *addr
+		s.Code.Insert(key[:], buf)
 	}
 	return buf
 }
@@ -382,7 +387,7 @@ func (s *gethState) Empty(addr common.Address) bool {
 	a := seth.Address(addr)
 	acct, ok := s.getAccount(&a)
 	bal := acct.Balance()
-	return !ok || (acct.Nonce() == 0 && bal.IsZero() && len(s.Code.Get(a[:])) == 0)
+	return !ok || (acct.Nonce() == 0 && bal.IsZero() && len(s.getCode(&a)) == 0)
 }
 
 func (s *gethState) Suicide(addr common.Address) bool {
-- 
2.43.0


From 8600d3595d535802a4a8f23da4cd603e3204849a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:53 +0000
Subject: [PATCH 27/98] fix: leave no trace of constant calls in the state

---
 tevm/evm.go       | 13 +++++++++++--
 tevm/transport.go |  9 ++++-----
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 090673e..4228a28 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -870,11 +870,20 @@ func (c *Chain) Call(sender, dst *seth.Address, sig string, args ...seth.EtherTy
 	return ret, err
 }
 
+// staticCall executes a call and undoes everything it did to the
+// state; even a static call can bring empty accounts into existence.
+func (c *Chain) staticCall(sender, dst *seth.Address, data []byte, gas uint64) ([]byte, uint64, error) {
+	evm := c.evm(*sender)
+	snap := evm.StateDB.Snapshot()
+	defer evm.StateDB.RevertToSnapshot(snap)
+	return evm.StaticCall(s2r(sender), common.Address(*dst), data, gas)
+}
+
 // StaticCall yields the result of the given transaction in
 // the pending block without comitting the state changes to the chain.
 func (c *Chain) StaticCall(sender, dst *seth.Address, sig string, args ...seth.EtherType) ([]byte, error) {
 	c.mu.Lock()
-	ret, _, err := c.evm(*sender).StaticCall(s2r(sender), common.Address(*dst), seth.ABIEncode(sig, args...), defaultGasLimit)
+	ret, _, err := c.staticCall(sender, dst, seth.ABIEncode(sig, args...), defaultGasLimit)
 	c.mu.Unlock()
 	return ret, err
 }
@@ -882,7 +891,7 @@ func (c *Chain) StaticCall(sender, dst *seth.Address, sig string, args ...seth.E
 // EstimateGas estimates the amount of gas that the given transaction will use.
 func (c *Chain) EstimateGas(sender, dst *seth.Address, sig string, args ...seth.EtherType) (uint64, error) {
 	c.mu.Lock()
-	_, left, err := c.evm(*sender).StaticCall(s2r(sender), common.Address(*dst), seth.ABIEncode(sig, args...), defaultGasLimit)
+	_, left, err := c.staticCall(sender, dst, seth.ABIEncode(sig, args...), defaultGasLimit)
 	c.mu.Unlock()
 	return defaultGasLimit - left, err
 }
diff --git a/tevm/transport.go b/tevm/transport.go
index 0bd41d9..a8775b8 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -143,7 +143,7 @@ func (c *Chain) execute(method string, params []json.RawMessage) (interface{}, e
 		if err := marshal(params, tx, &b); err != nil {
 			return nil, err
 		}
-		return c.staticCall(tx, int64(b))
+		return c.ethCall(tx, int64(b))
 	case "eth_sendTransaction":
 		a := new(callArgs)
 		if err := marshal(params, a); err != nil {
@@ -301,13 +301,12 @@ func (c *Chain) deleteFilter(fd int) (bool, error) {
 	return len(c.filters) != l, nil
 }
 
-// staticCall handles eth_call.
-func (c *Chain) staticCall(a *callArgs, blocknum int64) (seth.Data, error) {
+// ethCall handles eth_call.
+func (c *Chain) ethCall(a *callArgs, blocknum int64) (seth.Data, error) {
 	c = c.atBlock(blocknum)
 	if c == nil {
 		return nil, fmt.Errorf("unknown block number %d", blocknum)
 	}
-	evm := c.evm(a.From)
 	gas := uint64(c.State.Pending.GasLimit)
 	if a.Gas != 0 {
 		gas = uint64(a.Gas)
@@ -316,7 +315,7 @@ func (c *Chain) staticCall(a *callArgs, blocknum int64) (seth.Data, error) {
 	if a.To != nil {
 		to = *a.To
 	}
-	ret, _, err := evm.StaticCall(a.Ref(), to, a.Data, gas)
+	ret, _, err := c.staticCall((*seth.Address)(&a.From), (*seth.Address)(&to), a.Data, gas)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From cb0d17193f4b4caf862d672a31c6afe24514f5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:00 +0000
Subject: [PATCH 28/98] fix: do not crash on contracts that read the gas price

---
 tevm/evm.go       | 2 ++
 tevm/transport.go | 2 --
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 4228a28..6c806ab 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -802,6 +802,7 @@ func (c *Chain) context(sender [20]byte) vm.Context {
 		BlockNumber: new(big.Int).SetInt64(int64(*b.Number)),
 		Time:        new(big.Int).SetInt64(int64(b.Timestamp)),
 		Difficulty:  new(big.Int).Set((*big.Int)(b.Difficulty)),
+		GasPrice:    new(big.Int),
 	}
 }
 
@@ -990,6 +991,7 @@ func (c *Chain) mine(tx *seth.Transaction) (ret []byte, h seth.Hash, err error)
 	var addr common.Address
 	status := 1
 	vm := c.evm(*tx.From)
+	vm.Context.GasPrice.Set(tx.GasPrice.Big())
 	if tx.To == nil {
 		ret, addr, gas, err = vm.Create(s2r(tx.From), []byte(tx.Input), uint64(tx.Gas), tx.Value.Big())
 	} else {
diff --git a/tevm/transport.go b/tevm/transport.go
index a8775b8..ee14616 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -7,7 +7,6 @@ import (
 	"fmt"
 	"log"
 	"math"
-	"math/big"
 	"net/http"
 
 	"github.com/ethereum/go-ethereum/common"
@@ -426,7 +425,6 @@ func (c *Chain) estimate(a *callArgs, blocknum int64) (seth.Uint64, error) {
 	evm := c.evm(a.From)
 
 	// TODO: incorporate gas price
-	evm.Context.GasPrice = big.NewInt(0)
 
 	// run tries the transaction with the given gas
 	// and returns how much of it was used
-- 
2.43.0


From 13c5b3f34b38e2c4482db571c106db7266a5a02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:21 +0000
Subject: [PATCH 29/98] fix: encode negative integers in two's complement

---
 send.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/send.go b/send.go
index c95c308..6ab87d3 100644
--- a/send.go
+++ b/send.go
@@ -43,7 +43,15 @@ func (a *Address) internal() {}
 // EncodeABI implements EtherType
 func (i *Int) EncodeABI(v []byte) []byte {
 	var w [32]byte
-	bits := (*big.Int)(i).Bytes()
+	n := (*big.Int)(i)
+	if n.Sign() < 0 {
+		// two's complement
+		n = new(big.Int).Add(n, new(big.Int).Lsh(big.NewInt(1), 256))
+		if n.BitLen() != 256 {
+			panic("ABI encoding: integer overflow")
+		}
+	}
+	bits := n.Bytes()
 	if len(bits) > 32 {
 		panic("ABI encoding: integer overflow")
 	}
-- 
2.43.0


From e524ae9cf5afc88d5541e8c48903472e0d1c3ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:23 +0000
Subject: [PATCH 30/98] fix: check every argument against the function
 signature

---
 send.go | 66 ++++++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 44 insertions(+), 22 deletions(-)

diff --git a/send.go b/send.go
index 6ab87d3..fb330a3 100644
--- a/send.go
+++ b/send.go
@@ -185,39 +185,61 @@ func typecheck(f string, args []EtherType) {
 		panic(f + " has a bad right paren")
 	}
 	var argstrings []string
-	if strings.Contains(f[lparen+1:rparen], ",") {
+	if lparen+1 < rparen {
 		argstrings = strings.Split(f[lparen+1:rparen], ",")
-		if len(argstrings) != len(args) {
+	}
+	if len(argstrings) != len(args) {
+		// NOTE: extra arguments for a single parameter are tolerated
+		if len(argstrings) != 1 || len(args) == 0 {
 			panic(fmt.Sprintf("mismatched argument lists: %d args vs %d given", len(argstrings), len(args)))
 		}
 	}
 	for i := range argstrings {
-		switch argstrings[i] {
-		case "address":
-			if _, ok := args[i].(*Address); !ok {
-				panic("address argument not an address")
-			}
-		case "uint", "uint256", "int", "int256":
-			if _, ok := args[i].(*Int); !ok {
-				panic(argstrings[i] + " argument not an Int")
-			}
-		case "bytes32":
-			if _, ok := args[i].(*Data); !ok {
-				if _, ok = args[i].(*Int); !ok {
-					panic(argstrings[i] + "argument not an Int or Data")
-				}
+		if argstrings[i] == "" || strings.ContainsAny(argstrings[i], "(") {
+			panic(f + " has a bad parameter list")
+		}
+		var ok bool
+		elem := strings.TrimSuffix(argstrings[i], "[]")
+		if elem != argstrings[i] {
+			switch args[i].(type) {
+			case *AddrSlice:
+				ok = elem == "address"
+			case *IntSlice:
+				ok = isint(elem) || elem == "bytes32"
+			case *DataSlice:
+				ok = isfixed(elem)
 			}
-		default:
-			if strings.HasSuffix(argstrings[i], "[]") {
-				if _, ok := args[i].(EtherSlice); !ok {
-					panic("argument not a slice")
-				}
+		} else if elem == "bytes" || elem == "string" {
+			_, ok = args[i].(*Bytes)
+		} else {
+			switch args[i].(type) {
+			case *Address:
+				ok = elem == "address"
+			case *Int:
+				ok = isint(elem) || elem == "bytes32"
+			case *Data:
+				ok = isfixed(elem)
 			}
-			// TODO: more typechecking
+		}
+		if !ok {
+			panic(fmt.Sprintf("%s argument cannot be a %T", argstrings[i], args[i]))
 		}
 	}
 }
 
+// is 't' a type that is represented as an Int?
+func isint(t string) bool {
+	return !strings.HasSuffix(t, "]") &&
+		(t == "bool" || strings.HasPrefix(t, "int") || strings.HasPrefix(t, "uint") ||
+			strings.HasPrefix(t, "fixed") || strings.HasPrefix(t, "ufixed"))
+}
+
+// is 't' a type that is represented as Data?
+func isfixed(t string) bool {
+	return !strings.HasSuffix(t, "]") &&
+		(t == "function" || strings.HasPrefix(t, "bytes") && t != "bytes")
+}
+
 // ABIEncode encodes a function and its arguments
 func ABIEncode(fn string, args ...EtherType) []byte {
 	typecheck(fn, args)
-- 
2.43.0


From 24edad666fe86b8f75eb0e65e189d871056e2443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:25 +0000
Subject: [PATCH 31/98] fix: decode addresses and data at every position and
 reject truncated words

---
 send.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/send.go b/send.go
index fb330a3..9043f72 100644
--- a/send.go
+++ b/send.go
@@ -376,25 +376,19 @@ func DecodeABI(v []byte, args ...interface{}) error {
 	cur := v
 	offset := int64(0)
 	for i, v := range args {
-		if len(cur[offset:]) == 0 {
+		if int64(len(cur))-offset < 32 {
 			return fmt.Errorf("no argument returned at position %d", i)
 		}
-		buf := cur[offset:]
-		if len(buf) > 32 {
-			buf = buf[:32]
-		}
+		buf := cur[offset : offset+32]
 
 		// easy cases that don't involve converting types
 		// or handling variable-length types
 		did := true
 		switch v := v.(type) {
 		case *Data:
-			if len(*v) < 32 {
-				*v = make([]byte, 32)
-			}
-			copy(*v, cur)
+			*v = append(Data(nil), buf...)
 		case *Address:
-			copy(v[:], cur[12:])
+			copy(v[:], buf[12:])
 		case *Int:
 			(*big.Int)(v).SetBytes(buf)
 		case *big.Int:
-- 
2.43.0


From 5412f0c1ef8c5cf61c38a1ced53f63e90f9f9365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:27 +0000
Subject: [PATCH 32/98] fix: bound offsets and lengths of dynamic values in ABI
 data

---
 send.go | 89 ++++++++++++++++++++++-----------------------------------
 1 file changed, 34 insertions(+), 55 deletions(-)

diff --git a/send.go b/send.go
index 9043f72..a9a5597 100644
--- a/send.go
+++ b/send.go
@@ -356,6 +356,21 @@ func (d *ABIDecoder) UnmarshalText(v []byte) error {
 	return DecodeABI([]byte(data), (*d)...)
 }
 
+// dynamic finds the dynamically-sized value in 'v' with the offset 'doff'
+// given in the word at 'offset' and with elements of 'size' bytes each.
+// It returns the number of elements and the position of the first one.
+func dynamic(v []byte, offset int64, doff *big.Int, size int64) (length, dpos int64, err error) {
+	if !doff.IsInt64() || doff.Int64() < offset+32 || doff.Int64() > int64(len(v))-32 {
+		return 0, 0, fmt.Errorf("bad offset %d for data length returned (%d)", doff, len(v))
+	}
+	dpos = doff.Int64() + 32
+	n := new(big.Int).SetBytes(v[dpos-32 : dpos])
+	if !n.IsInt64() || n.Int64() > (int64(len(v))-dpos)/size {
+		return 0, 0, fmt.Errorf("bad length %d for data length returned (%d)", n, len(v))
+	}
+	return n.Int64(), dpos, nil
+}
+
 // DecodeABI decodes a solidity return value into its
 // constituent arguments.
 //
@@ -404,53 +419,29 @@ func DecodeABI(v []byte, args ...interface{}) error {
 		spare.SetBytes(buf)
 		switch v := v.(type) {
 		case *string:
-			doff := spare.Int64()
-			if doff < offset+32 || doff >= int64(len(cur)-32) {
-				return fmt.Errorf("bad string offset %d for data length returned (%d)", doff, len(cur))
-			}
-			spare.SetBytes(cur[doff : doff+32])
-			length := spare.Int64()
-			dpos := doff + 32
-			if dpos+length >= int64(len(cur)) {
-				return fmt.Errorf("bad string length %d for data length returned (%d)", length, len(cur))
+			length, dpos, err := dynamic(cur, offset, &spare, 1)
+			if err != nil {
+				return err
 			}
 			*v = string(cur[dpos : dpos+length])
 		case *[]byte:
-			doff := spare.Int64()
-			if doff < offset+32 || doff >= int64(len(cur)-32) {
-				return fmt.Errorf("bad bytes offset %d for data length returned (%d)", doff, len(cur))
-			}
-			spare.SetBytes(cur[doff : doff+32])
-			length := spare.Int64()
-			dpos := doff + 32
-			if dpos+length > int64(len(cur)) {
-				return fmt.Errorf("bad bytes length %d for data length returned (%d)", length, len(cur))
+			length, dpos, err := dynamic(cur, offset, &spare, 1)
+			if err != nil {
+				return err
 			}
 			*v = make([]byte, length)
 			copy(*v, cur[dpos:dpos+length])
 		case *Bytes:
-			doff := spare.Int64()
-			if doff < offset+32 || doff >= int64(len(cur)-32) {
-				return fmt.Errorf("bad bytes offset %d for data length returned (%d)", doff, len(cur))
-			}
-			spare.SetBytes(cur[doff : doff+32])
-			length := spare.Int64()
-			dpos := doff + 32
-			if dpos+length > int64(len(cur)) {
-				return fmt.Errorf("bad bytes length %d for data length returned (%d)", length, len(cur))
+			length, dpos, err := dynamic(cur, offset, &spare, 1)
+			if err != nil {
+				return err
 			}
 			*v = make([]byte, length)
 			copy(*v, cur[dpos:dpos+length])
 		case *IntSlice:
-			doff := spare.Int64()
-			if doff < offset+32 || doff >= int64(len(cur)-32) {
-				return fmt.Errorf("bad slice offset %d for data length returned (%d)", doff, len(cur))
-			}
-			spare.SetBytes(cur[doff : doff+32])
-			length := spare.Int64()
-			dpos := doff + 32
-			if dpos+(length*32) > int64(len(cur)) {
-				return fmt.Errorf("bad slice offset %d for data length returned (%d)", doff, len(cur))
+			length, dpos, err := dynamic(cur, offset, &spare, 32)
+			if err != nil {
+				return err
 			}
 			s := make([]Int, length)
 			for i := range s {
@@ -459,15 +450,9 @@ func DecodeABI(v []byte, args ...interface{}) error {
 			}
 			*v = IntSlice(s)
 		case *AddrSlice:
-			doff := spare.Int64()
-			if doff < offset+32 || doff >= int64(len(cur)-32) {
-				return fmt.Errorf("bad slice offset %d for data length returned (%d)", doff, len(cur))
-			}
-			spare.SetBytes(cur[doff : doff+32])
-			length := spare.Int64()
-			dpos := doff + 32
-			if dpos+(length*32) > int64(len(cur)) {
-				return fmt.Errorf("bad slice offset %d for data length returned (%d)", doff, len(cur))
+			length, dpos, err := dynamic(cur, offset, &spare, 32)
+			if err != nil {
+				return err
 			}
 			s := make([]Address, length)
 			for i := range s {
@@ -476,20 +461,14 @@ func DecodeABI(v []byte, args ...interface{}) error {
 			}
 			*v = AddrSlice(s)
 		case *DataSlice:
-			doff := spare.Int64()
-			if doff < offset+32 || doff >= int64(len(cur)-32) {
-				return fmt.Errorf("bad slice offset %d for data length returned (%d)", doff, len(cur))
-			}
-			spare.SetBytes(cur[doff : doff+32])
-			length := spare.Int64()
-			dpos := doff + 32
-			if dpos+(length*32) > int64(len(cur)) {
-				return fmt.Errorf("bad slice offset %d for data length returned (%d)", doff, len(cur))
+			length, dpos, err := dynamic(cur, offset, &spare, 32)
+			if err != nil {
+				return err
 			}
 			s := make([]Data, length)
 			for i := range s {
 				o := int(dpos) + i*32
-				copy(s[i][:], cur[o+12:o+32])
+				s[i] = append(Data(nil), cur[o:o+32]...)
 			}
 			*v = DataSlice(s)
 		case *bool:
-- 
2.43.0


From 919ddb5d5bf208c143ba041d54ec63dd92897e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:01 +0000
Subject: [PATCH 33/98] fix: format the integer zero as 0x0

---
 hex.go  | 3 +++
 seth.go | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/hex.go b/hex.go
index 9bb6722..f64d6c0 100644
--- a/hex.go
+++ b/hex.go
@@ -70,6 +70,9 @@ func hexdecode(dst, src []byte) error {
 
 // hexstring returns a hex string of the given data
 func hexstring(b []byte, trunc bool) []byte {
+	if trunc && len(b) == 0 {
+		return []byte("0x0")
+	}
 	buf := make([]byte, 2+2*len(b))
 	hex.Encode(buf[2:], b)
 	if trunc && len(buf) > 2 && buf[2] == '0' {
diff --git a/seth.go b/seth.go
index 1cfb47a..bebf2a6 100644
--- a/seth.go
+++ b/seth.go
@@ -221,7 +221,7 @@ func (i *Int) UnmarshalText(b []byte) error {
 	if err != nil {
 		return err
 	}
-	i.Big().SetBytes(buf)
+	i.Big().SetBytes(bytes.TrimLeft(buf, "\x00"))
 	return nil
 }
 
-- 
2.43.0


From f977a551e91957f59edacbab15f2792687b30ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:03 +0000
Subject: [PATCH 34/98] fix: reject addresses, hashes, keys and signatures with
 a missing digit

---
 hex.go       |  9 +++++++++
 seth.go      | 12 ++++++------
 signature.go | 12 ++++++------
 3 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/hex.go b/hex.go
index f64d6c0..8d4682d 100644
--- a/hex.go
+++ b/hex.go
@@ -41,6 +41,15 @@ func fromhex(c byte) (byte, bool) {
 	return 0, false
 }
 
+// hexfixed decodes hex strings that have
+// exactly two digits for each byte of dst
+func hexfixed(dst, src []byte) error {
+	if hexprefix(src) && len(src)-2 != 2*len(dst) {
+		return fmt.Errorf("size mismatch: %d digits for %d bytes", len(src)-2, len(dst))
+	}
+	return hexdecode(dst, src)
+}
+
 // hexparse decodes hex strings, like "0xaf1"
 func hexdecode(dst, src []byte) error {
 	if !hexprefix(src) {
diff --git a/seth.go b/seth.go
index bebf2a6..ac6d330 100644
--- a/seth.go
+++ b/seth.go
@@ -297,7 +297,7 @@ func (a *Address) String() string {
 }
 
 func (a *Address) FromString(s string) error {
-	return hexdecode(a[:], []byte(s))
+	return hexfixed(a[:], []byte(s))
 }
 
 // Scan implements fmt.Scanner (uses the verb %a)
@@ -309,7 +309,7 @@ func (a *Address) Scan(s fmt.ScanState, x rune) error {
 	if err != nil {
 		return err
 	}
-	return hexdecode(a[:], tok)
+	return hexfixed(a[:], tok)
 }
 
 func (a Address) MarshalText() ([]byte, error) {
@@ -317,7 +317,7 @@ func (a Address) MarshalText() ([]byte, error) {
 }
 
 func (a *Address) UnmarshalText(b []byte) error {
-	return hexdecode(a[:], b)
+	return hexfixed(a[:], b)
 }
 
 // Zero returns whether this is the zero address.
@@ -343,7 +343,7 @@ func (h *Hash) String() string {
 }
 
 func (h *Hash) FromString(s string) error {
-	return hexdecode(h[:], []byte(s))
+	return hexfixed(h[:], []byte(s))
 }
 
 func (h Hash) MarshalText() ([]byte, error) {
@@ -351,7 +351,7 @@ func (h Hash) MarshalText() ([]byte, error) {
 }
 
 func (h *Hash) UnmarshalText(b []byte) error {
-	return hexdecode(h[:], b)
+	return hexfixed(h[:], b)
 }
 
 // Scan implements fmt.Scanner (uses %h verb)
@@ -363,7 +363,7 @@ func (h *Hash) Scan(s fmt.ScanState, verb rune) error {
 	if err != nil {
 		return err
 	}
-	return hexdecode(h[:], tok)
+	return hexfixed(h[:], tok)
 }
 
 // Block represents and Ethereum block
diff --git a/signature.go b/signature.go
index 8017350..94a59df 100644
--- a/signature.go
+++ b/signature.go
@@ -52,7 +52,7 @@ func (s *Signature) String() string {
 
 // FromString parses a signature from a string.
 func (s *Signature) FromString(z string) error {
-	return hexdecode(s[:], []byte(z))
+	return hexfixed(s[:], []byte(z))
 }
 
 // MarshalText implements encoding.TextMarshaler.
@@ -62,7 +62,7 @@ func (s *Signature) MarshalText() ([]byte, error) {
 
 // UnmarshalText implements encoding.TextUnmarshaler.
 func (s *Signature) UnmarshalText(b []byte) error {
-	return hexdecode(s[:], b)
+	return hexfixed(s[:], b)
 }
 
 // Parts returns the r, s, and v parts of the signature.
@@ -255,7 +255,7 @@ func (k *PrivateKey) String() string {
 
 // FromString parses a private key from a string.
 func (k *PrivateKey) FromString(s string) error {
-	return hexdecode(k[:], []byte(s))
+	return hexfixed(k[:], []byte(s))
 }
 
 // MarshalText implements encoding.TextMarshaler.
@@ -265,7 +265,7 @@ func (k *PrivateKey) MarshalText() ([]byte, error) {
 
 // UnmarshalText implements encoding.TextUnmarshaler.
 func (k *PrivateKey) UnmarshalText(b []byte) error {
-	return hexdecode(k[:], b)
+	return hexfixed(k[:], b)
 }
 
 // A PublicKey holds a public key.
@@ -304,7 +304,7 @@ func (k *PublicKey) String() string {
 
 // FromString parses a public key from a string.
 func (k *PublicKey) FromString(s string) error {
-	return hexdecode(k[:], []byte(s))
+	return hexfixed(k[:], []byte(s))
 }
 
 // MarshalText implements encoding.TextMarshaler.
@@ -314,7 +314,7 @@ func (k *PublicKey) MarshalText() ([]byte, error) {
 
 // UnmarshalText implements encoding.TextUnmarshaler.
 func (k *PublicKey) UnmarshalText(b []byte) error {
-	return hexdecode(k[:], b)
+	return hexfixed(k[:], b)
 }
 
 // Address returns the address corresponding to this public key.
-- 
2.43.0


From 1e0f232771aa98ed712078b831ed870c719e2813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:01 +0000
Subject: [PATCH 35/98] fix: refuse to recover a key from r off the curve or to
 the point at infinity

---
 signature.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/signature.go b/signature.go
index 94a59df..56e0c84 100644
--- a/signature.go
+++ b/signature.go
@@ -114,6 +114,9 @@ func (z *Signature) Recover(hash *Hash) (*PublicKey, error) {
 	}
 
 	CurvePoint(&r, &ry, v)
+	if !curve.IsOnCurve(&r, &ry) {
+		return nil, errors.New("invalid signature: r is not on the curve")
+	}
 
 	ri.ModInverse(&r, order)
 	si.Mul(&ri, &s)
@@ -128,6 +131,9 @@ func (z *Signature) Recover(hash *Hash) (*PublicKey, error) {
 
 	ex, ey := curve.ScalarBaseMult(e.Bytes())
 	qx, qy := curve.Add(sx, sy, ex, ey)
+	if qx.Sign() == 0 && qy.Sign() == 0 {
+		return nil, errors.New("invalid signature: no public key")
+	}
 
 	return NewPublicKey(qx, qy), nil
 }
-- 
2.43.0


From 0dad270da7a076b135127f463ea2b48295010096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:03 +0000
Subject: [PATCH 36/98] fix: treat signatures with v other than 0 or 1 as
 invalid

---
 signature.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/signature.go b/signature.go
index 56e0c84..98a50ae 100644
--- a/signature.go
+++ b/signature.go
@@ -82,7 +82,7 @@ func (z *Signature) parts() (r, s big.Int, v int, ok bool) {
 	if s.Sign() == 0 {
 		return
 	}
-	ok = r.Cmp(order) < 0 && s.Cmp(halforder) <= 0
+	ok = r.Cmp(order) < 0 && s.Cmp(halforder) <= 0 && v <= 1
 	return
 }
 
-- 
2.43.0


From 416ee7f20cd16dbf5b0e2b34149b04dab3083ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:39 +0000
Subject: [PATCH 37/98] fix: authenticate key files with the second 16 bytes of
 the derived key and refuse bad KDF parameters

---
 keyfile.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/keyfile.go b/keyfile.go
index c01770a..ef266e3 100644
--- a/keyfile.go
+++ b/keyfile.go
@@ -67,6 +67,12 @@ func pbkdf2Derive(pass []byte, jsparams json.RawMessage) ([]byte, error) {
 	default:
 		return nil, fmt.Errorf("bad prf %q for pbkdf2", p.Hashfn)
 	}
+	if p.Iters < 1 {
+		return nil, fmt.Errorf("bad iteration count %d for pbkdf2", p.Iters)
+	}
+	if p.Keylen < 32 {
+		return nil, fmt.Errorf("pbkdf2 key length %d too short", p.Keylen)
+	}
 
 	salt, err := hex.DecodeString(p.Salt)
 	if err != nil {
@@ -92,6 +98,12 @@ func scryptDerive(pass []byte, jsparams json.RawMessage) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if p.R < 1 || p.P < 1 {
+		return nil, fmt.Errorf("bad scrypt params r=%d p=%d", p.R, p.P)
+	}
+	if p.Keylen < 32 {
+		return nil, fmt.Errorf("scrypt key length %d too short", p.Keylen)
+	}
 	return scrypt.Key(pass, salt, p.N, p.R, p.P, p.Keylen)
 }
 
@@ -128,11 +140,11 @@ func aes128ctrDecipher(key, ciphertext []byte, jsparams json.RawMessage) error {
 	return nil
 }
 
-// the keyfile MAC is the keccak256 of the last 16 bytes
+// the keyfile MAC is the keccak256 of the second 16 bytes
 // of the derived key, concatenated with the ciphertext
 func (k *Keyfile) checkmac(key, ciphertext []byte) error {
 	h := keccak.New256()
-	h.Write(key[len(key)-16:])
+	h.Write(key[16:32])
 	h.Write(ciphertext)
 	sum := h.Sum(nil)
 	want, err := hex.DecodeString(k.Crypto.MAC)
-- 
2.43.0


From 0ee87f521b67e9a8dfa3f37b3ac4d791bcd82f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:41 +0000
Subject: [PATCH 38/98] fix: refuse key files with a bad IV or key length

---
 keyfile.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/keyfile.go b/keyfile.go
index ef266e3..82cc116 100644
--- a/keyfile.go
+++ b/keyfile.go
@@ -131,6 +131,9 @@ func aes128ctrDecipher(key, ciphertext []byte, jsparams json.RawMessage) error {
 	if err != nil {
 		return fmt.Errorf("bad aes-128-ctr iv: %s", err)
 	}
+	if len(iv) != aes.BlockSize {
+		return fmt.Errorf("bad aes-128-ctr iv: length %d", len(iv))
+	}
 	block, err := aes.NewCipher(key[:16])
 	if err != nil {
 		return err
@@ -186,6 +189,9 @@ func (k *Keyfile) Private(passphrase []byte) (*PrivateKey, error) {
 		return nil, err
 	}
 	priv := new(PrivateKey)
+	if len(ciphertext) != len(priv) {
+		return nil, fmt.Errorf("key file holds %d bytes; want %d", len(ciphertext), len(priv))
+	}
 	copy(priv[:], ciphertext)
 	if k.Address != "" {
 		want, err := hex.DecodeString(k.Address)
-- 
2.43.0


From d345aafa9de1ae37a11e2ccca407dd3471606c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:50 +0000
Subject: [PATCH 39/98] fix: parse amounts without an integer part over used
 destinations

---
 cc/currency.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cc/currency.go b/cc/currency.go
index 12b8c61..b9a0a4f 100644
--- a/cc/currency.go
+++ b/cc/currency.go
@@ -115,6 +115,7 @@ func parseDigits(num *big.Int, s string, digits int) (*big.Int, error) {
 	if ip == "" && fp == "" {
 		return nil, errors.New("cc: number cannot be empty")
 	}
+	num.SetInt64(0)
 	if ip != "" {
 		if !isdigit(rune(ip[0])) {
 			return nil, errors.New("cc: invalid character in integer part: " + s)
-- 
2.43.0


From c9f52c930754c0c2312ede475e30c4768764fcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:52 +0000
Subject: [PATCH 40/98] fix: round rates made from floating-point numbers to
 the closest rate

---
 cc/currency.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cc/currency.go b/cc/currency.go
index b9a0a4f..a10b46d 100644
--- a/cc/currency.go
+++ b/cc/currency.go
@@ -32,8 +32,10 @@ func NewRate(f float64) *Rate {
 	rat.SetFloat64(f)
 	num, denom := rat.Num(), rat.Denom()
 	if num.Sign() != 0 {
+		// round to nearest: floor((2*num + denom) / (2*denom))
 		pow10(num, RateDigits)
-		num.Div(num, denom)
+		num.Lsh(num, 1).Add(num, denom)
+		num.Div(num, new(big.Int).Lsh(denom, 1))
 	}
 	return (*Rate)(num)
 }
-- 
2.43.0


From 60f64cb709cd00fc678769b71ab3681a8437fb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:07 +0000
Subject: [PATCH 41/98] fix: refuse a lone quote as a rate instead of panicking

---
 cc/currency.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cc/currency.go b/cc/currency.go
index a10b46d..5aa2e3a 100644
--- a/cc/currency.go
+++ b/cc/currency.go
@@ -181,7 +181,7 @@ func (r *Rate) UnmarshalJSON(b []byte) error {
 	if string(b) == "null" {
 		return nil
 	}
-	if len(b) > 0 && b[0] == '"' && b[len(b)-1] == '"' {
+	if len(b) > 1 && b[0] == '"' && b[len(b)-1] == '"' {
 		b = b[1 : len(b)-1]
 	}
 	n, err := ParseRate(string(b))
-- 
2.43.0


From f184b694cdf181732cba29277fbc90f836acb9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:46 +0000
Subject: [PATCH 42/98] fix: do not share a response between the readers of an
 old and a new connection

---
 client.go | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/client.go b/client.go
index b926f1c..36478c4 100644
--- a/client.go
+++ b/client.go
@@ -28,15 +28,16 @@ type RPCTransport struct {
 	conn    io.ReadWriteCloser
 	enc     *json.Encoder // wraps send side of conn
 	pending map[int]*pending
-	res     RPCResponse
 	dial    func() (io.ReadWriteCloser, error)
 }
 
 func (t *RPCTransport) background(conn io.ReadWriteCloser) {
 	dec := json.NewDecoder(conn)
 	for {
-		t.res = RPCResponse{}
-		err := dec.Decode(&t.res)
+		// NOTE: the reader of a previous connection
+		// may still be running, so this cannot be shared
+		var res RPCResponse
+		err := dec.Decode(&res)
 		if err != nil {
 			log.Printf("seth: conn read: %s", err)
 			t.lock.Lock()
@@ -48,22 +49,27 @@ func (t *RPCTransport) background(conn io.ReadWriteCloser) {
 			return
 		}
 		t.lock.Lock()
-		p := t.pending[t.res.ID]
+		if t.conn != conn {
+			// we have reconnected; all of the calls
+			// made on this connection have been aborted
+			t.lock.Unlock()
+			return
+		}
+		p := t.pending[res.ID]
 		if p != nil {
-			delete(t.pending, t.res.ID)
+			delete(t.pending, res.ID)
 		}
 		t.lock.Unlock()
 		if p == nil {
-			log.Printf("spurious response ID %d", t.res.ID)
+			log.Printf("spurious response ID %d", res.ID)
 			continue
 		}
-		if t.res.Error.Code != 0 || t.res.Error.Message != "" {
-			c := t.res.Error
-			p.err = &c
-		} else if bytes.Equal(t.res.Result, rawnull) {
+		if res.Error.Code != 0 || res.Error.Message != "" {
+			p.err = &res.Error
+		} else if bytes.Equal(res.Result, rawnull) {
 			p.err = ErrNotFound
 		} else {
-			*p.res = t.res
+			*p.res = res
 		}
 		close(p.notify)
 	}
-- 
2.43.0


From 03229d40d0919acdef29a53557eb9cc414115d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:52 +0000
Subject: [PATCH 43/98] fix: list pending transactions from the pending block

---
 seth.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seth.go b/seth.go
index ac6d330..301d1c1 100644
--- a/seth.go
+++ b/seth.go
@@ -521,7 +521,7 @@ func (c *Client) BlockNumber() (int64, error) {
 
 // Pending returns the list of pending transactions.
 func (c *Client) Pending() ([]Transaction, error) {
-	b, err := c.GetBlock(-1, true)
+	b, err := c.GetBlock(Pending, true)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 96138b250edaff4cf2fa1718ae0c2bd06b6cf58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:18 +0000
Subject: [PATCH 44/98] fix: keep filter ids that do not fit in 64 bits

---
 filter.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/filter.go b/filter.go
index e11b991..098ed58 100644
--- a/filter.go
+++ b/filter.go
@@ -4,7 +4,6 @@ import (
 	"encoding/json"
 	"log"
 	"math"
-	"math/big"
 	"strconv"
 	"sync"
 	"time"
@@ -12,7 +11,7 @@ import (
 
 // Filter represents a Log filter
 type Filter struct {
-	id  int64
+	id  json.RawMessage // as the server named it; may not fit in 64 bits
 	c   *Client
 	out chan *Log
 
@@ -99,23 +98,23 @@ done:
 	close(f.out)
 }
 
-func (c *Client) getLogs(id int64) ([]Log, error) {
+func (c *Client) getLogs(id json.RawMessage) ([]Log, error) {
 	var o []Log
-	p := []json.RawMessage{itox(id)}
+	p := []json.RawMessage{id}
 	err := c.Do("eth_getFilterLogs", p, &o)
 	return o, err
 }
 
-func (c *Client) getUpdates(id int64) ([]Log, error) {
+func (c *Client) getUpdates(id json.RawMessage) ([]Log, error) {
 	var o []Log
-	p := []json.RawMessage{itox(id)}
+	p := []json.RawMessage{id}
 	err := c.Do("eth_getFilterChanges", p, &o)
 	return o, err
 }
 
-func (c *Client) deleteFilter(id int64) {
+func (c *Client) deleteFilter(id json.RawMessage) {
 	var out bool
-	err := c.Do("eth_uninstallFilter", []json.RawMessage{itox(id)}, &out)
+	err := c.Do("eth_uninstallFilter", []json.RawMessage{id}, &out)
 	if err != nil || !out {
 		log.Printf("uninstallFilter: %s %v", err, out)
 	}
@@ -161,7 +160,10 @@ func (c *Client) FilterTopics(topics []*Hash, addr *Address, start, end int64) (
 	if err != nil {
 		return nil, err
 	}
-	id := (*big.Int)(&out).Int64()
+	id, err := json.Marshal(&out)
+	if err != nil {
+		return nil, err
+	}
 	f := &Filter{c: c, out: make(chan *Log, 20), exit: make(chan struct{}, 1), id: id, poll: poll}
 	go frecv(f)
 	return f, nil
-- 
2.43.0


From db7d711590ab38515de99400933fad6c1a2e4b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:31 +0000
Subject: [PATCH 45/98] fix: refuse to sign gas amounts that do not fit in a
 transaction

---
 sender.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sender.go b/sender.go
index 6f4a522..c1dcc58 100644
--- a/sender.go
+++ b/sender.go
@@ -116,6 +116,11 @@ func (s *Sender) Call(opts *CallOpts) (Hash, error) {
 		return s.Client.Call(opts)
 	}
 
+	// the transaction has 64 bits for the gas
+	if !opts.Gas.Big().IsUint64() {
+		return Hash{}, fmt.Errorf("Sender.Call: gas %s out of range", opts.Gas)
+	}
+
 	tx := opts.Transaction()
 
 	// if no nonce was specified, try to select it
-- 
2.43.0


From 41a0cd46f80f05283338fdffed1f87d73508c641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:51 +0000
Subject: [PATCH 46/98] fix: drain the pending block, not the latest

---
 sender.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sender.go b/sender.go
index c1dcc58..623ac3e 100644
--- a/sender.go
+++ b/sender.go
@@ -202,7 +202,7 @@ func (s *Sender) Wait(h *Hash) error {
 // contain no transactions from this account.
 func (s *Sender) Drain(prompt ...func(t *Transaction)) error {
 	for {
-		p, err := s.GetBlock(-1, true)
+		p, err := s.GetBlock(Pending, true)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 0242811ba7e8fc4386bf9c0b55f55d5003fb0d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:55 +0000
Subject: [PATCH 47/98] fix: compare addresses, not pointers, when draining

---
 sender.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sender.go b/sender.go
index 623ac3e..be78898 100644
--- a/sender.go
+++ b/sender.go
@@ -212,7 +212,7 @@ func (s *Sender) Drain(prompt ...func(t *Transaction)) error {
 		}
 		var t *Transaction
 		for i := range txs {
-			if txs[i].From == s.Addr {
+			if txs[i].From != nil && *txs[i].From == *s.Addr {
 				t = &txs[i]
 				break
 			}
-- 
2.43.0


From cdac8ff2c4fc64259086e7d08d3c6448432bd517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:21 +0000
Subject: [PATCH 48/98] fix: do not overflow when outbidding a gas price

---
 sender.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sender.go b/sender.go
index be78898..b8d98f3 100644
--- a/sender.go
+++ b/sender.go
@@ -179,7 +179,7 @@ func (s *Sender) Cancel(h *Hash) (Hash, error) {
 	if s.GasPrice.Cmp(&tx.GasPrice) > 0 {
 		opts.GasPrice = &s.GasPrice
 	} else {
-		opts.GasPrice = NewInt(tx.GasPrice.Int64() + 1)
+		opts.GasPrice = (*Int)(new(big.Int).Add(tx.GasPrice.Big(), big.NewInt(1)))
 	}
 	return s.Call(&opts)
 }
-- 
2.43.0


From 1eedde4f0ccd7194790a5605e8ca98fa3e62170c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:56 +0000
Subject: [PATCH 49/98] fix: compile sources that contain no contracts

---
 compile.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/compile.go b/compile.go
index ce1bc72..fd68f52 100644
--- a/compile.go
+++ b/compile.go
@@ -249,13 +249,11 @@ func h2b(s string) []byte {
 }
 
 func (s *solcout) toBundle() *CompiledBundle {
-	nc := 0
-	for _, cs := range s.Contracts {
-		nc += len(cs)
-	}
+	// NOTE: files that don't contain any
+	// contracts do not show up in s.Contracts
 	b := &CompiledBundle{
-		Filenames: make([]string, len(s.Contracts)),
-		Sources:   make([]string, len(s.Contracts)),
+		Filenames: make([]string, len(s.Sources)),
+		Sources:   make([]string, len(s.Sources)),
 	}
 	// XXX: assume IDs are 0-indexed...
 	for name, id := range s.Sources {
-- 
2.43.0


From a83e5113102e11073abf854af7d16479799e2e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:10 +0000
Subject: [PATCH 50/98] fix: put source texts in the order of the source ids

---
 compile.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compile.go b/compile.go
index fd68f52..9c6b812 100644
--- a/compile.go
+++ b/compile.go
@@ -434,7 +434,7 @@ func compile(sources []Source) (*CompiledBundle, error) {
 		}
 	}
 	for i := range b.Sources {
-		b.Sources[i] = sources[i].Body
+		b.Sources[i] = blob.Sources[b.Filenames[i]].Content
 	}
 	return b, nil
 }
-- 
2.43.0


From 088a96bcb26db8d440c872cc15ca643c0a16719b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:26 +0000
Subject: [PATCH 51/98] fix: give different sources different cache names

---
 compile.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/compile.go b/compile.go
index 9c6b812..f628703 100644
--- a/compile.go
+++ b/compile.go
@@ -7,7 +7,6 @@ import (
 	"encoding/json"
 	"fmt"
 	"hash"
-	"io"
 	"io/ioutil"
 	"os"
 	"os/exec"
@@ -313,8 +312,10 @@ func cachename(sources []Source) string {
 	h0 := keccak.New256()
 	h1 := keccak.New256()
 	for i := range sources {
-		io.WriteString(h0, sources[i].Filename)
-		io.WriteString(h1, sources[i].Body)
+		// NOTE: the lengths keep different lists of
+		// strings from looking the same to the hash
+		fmt.Fprintf(h0, "%d:%s", len(sources[i].Filename), sources[i].Filename)
+		fmt.Fprintf(h1, "%d:%s", len(sources[i].Body), sources[i].Body)
 	}
 	// filename is 'name hash'-'content hash'.bundle
 	// so that we can to a quick glob search to remove
-- 
2.43.0


From e65a7424202a17dfbfef8e623491e35b160342b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:06 +0000
Subject: [PATCH 52/98] fix: return an error for unlinked bytecode instead of
 panicking

---
 compile.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/compile.go b/compile.go
index f628703..42d6d29 100644
--- a/compile.go
+++ b/compile.go
@@ -239,15 +239,7 @@ func (c *CompiledBundle) Contract(name string) *CompiledContract {
 	return nil
 }
 
-func h2b(s string) []byte {
-	bits, err := hex.DecodeString(s)
-	if err != nil {
-		panic(err)
-	}
-	return bits
-}
-
-func (s *solcout) toBundle() *CompiledBundle {
+func (s *solcout) toBundle() (*CompiledBundle, error) {
 	// NOTE: files that don't contain any
 	// contracts do not show up in s.Contracts
 	b := &CompiledBundle{
@@ -260,15 +252,20 @@ func (s *solcout) toBundle() *CompiledBundle {
 	}
 	for _, contracts := range s.Contracts {
 		for contract, out := range contracts {
+			code, err := hex.DecodeString(out.EVM.Bytecode.Object)
+			if err != nil {
+				// this is the case for code that needs linking
+				return nil, fmt.Errorf("bytecode of contract %s: %s", contract, err)
+			}
 			b.Contracts = append(b.Contracts, CompiledContract{
 				Name:      contract,
-				Code:      h2b(out.EVM.Bytecode.Object),
+				Code:      code,
 				Sourcemap: out.EVM.Bytecode.Sourcemap,
 				ABI:       out.ABI,
 			})
 		}
 	}
-	return b
+	return b, nil
 }
 
 // SourceOf returns the source line (text) of the given pc.
@@ -428,7 +425,10 @@ func compile(sources []Source) (*CompiledBundle, error) {
 	if err := compileError(jsout.Errors); err != nil {
 		return nil, fmt.Errorf("solc compilation error: %s", err)
 	}
-	b := jsout.toBundle()
+	b, err := jsout.toBundle()
+	if err != nil {
+		return nil, err
+	}
 	for i := range jsout.Errors {
 		if jsout.Errors[i].Type == "Warning" {
 			b.Warnings = append(b.Warnings, jsout.Errors[i].FormattedMessage)
-- 
2.43.0


From 964bc5c0a1502708d77fa2a7b7705c34ce0e6cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:54 +0000
Subject: [PATCH 53/98] fix: do not use a cached bundle whose checksum is wrong

---
 compile.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/compile.go b/compile.go
index 42d6d29..ec996ae 100644
--- a/compile.go
+++ b/compile.go
@@ -342,8 +342,13 @@ func cachedBundle(name string) (*CompiledBundle, bool) {
 	if err != nil {
 		return nil, false
 	}
-	d := msgp.NewReader(r)
-	if err := b.DecodeMsg(d); err != nil {
+	// NOTE: read everything, so that the
+	// checksum at the end is verified
+	buf, err := ioutil.ReadAll(r)
+	if err != nil {
+		return nil, false
+	}
+	if rest, err := b.UnmarshalMsg(buf); err != nil || len(rest) != 0 {
 		return nil, false
 	}
 	return b, true
-- 
2.43.0


From 34c253e60c546d656383e6c378a340a92fa8063e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:40 +0000
Subject: [PATCH 54/98] fix: remove only stale bundles from the cache directory

---
 compile.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/compile.go b/compile.go
index ec996ae..a450de7 100644
--- a/compile.go
+++ b/compile.go
@@ -325,12 +325,15 @@ func cachedBundle(name string) (*CompiledBundle, bool) {
 	f, err := os.Open(name)
 	if err != nil {
 		// let's look for stale builds and clean them up
-		i := strings.IndexByte(name, '-')
-		if i != -1 && i != len(name)-1 {
-			all, err := filepath.Glob(name[:i+1] + "*")
+		dir, base := filepath.Split(name)
+		i := strings.IndexByte(base, '-')
+		if i != -1 && i != len(base)-1 {
+			all, err := ioutil.ReadDir(dir)
 			if err == nil {
-				for i := range all {
-					os.Remove(all[i])
+				for j := range all {
+					if strings.HasPrefix(all[j].Name(), base[:i+1]) {
+						os.Remove(filepath.Join(dir, all[j].Name()))
+					}
 				}
 			}
 		}
-- 
2.43.0


From 6033d5daa5f45854b387f5ce69a5491bad1e24d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 55/98] fix: SourceOf of a negative program counter reports no
 source

---
 compile.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compile.go b/compile.go
index a450de7..c05b317 100644
--- a/compile.go
+++ b/compile.go
@@ -155,7 +155,7 @@ func mustint(s string) int {
 }
 
 func (c *CompiledContract) pc2info(pc int) *srcinfo {
-	if pc >= len(c.pos) {
+	if pc < 0 || pc >= len(c.pos) {
 		return nil
 	}
 	n := c.pos[pc]
-- 
2.43.0


From 121f9e36a7f22b64e30d261d4437cff9b08e7d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:04 +0000
Subject: [PATCH 56/98] fix: skip push data when numbering opcodes for the
 source map

---
 compile.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/compile.go b/compile.go
index c05b317..8a8f6c4 100644
--- a/compile.go
+++ b/compile.go
@@ -168,17 +168,17 @@ func (c *CompiledContract) pc2info(pc int) *srcinfo {
 func (c *CompiledContract) compilePos() {
 	opnum := 0
 	var out []int
-	for i := range c.Code {
+	for len(out) < len(c.Code) {
 		width := 0
-		b := c.Code[i]
+		b := c.Code[len(out)]
 		out = append(out, opnum)
 		if b >= 0x60 && b < 0x80 {
-			width = int(b - 0x59)
+			width = int(b - 0x5f)
 		}
 		// for multi-byte instructions,
 		// any pc that points into the instruction
 		// gets the same opcode number
-		for j := 0; j < width; j++ {
+		for j := 0; j < width && len(out) < len(c.Code); j++ {
 			out = append(out, opnum)
 		}
 		opnum++
-- 
2.43.0


From 56bccc1b8d23ba764ab609b62ed0b46bf2e67734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 57/98] fix: SourceOf panicked on source map entries without
 source

---
 compile.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/compile.go b/compile.go
index 8a8f6c4..ce13279 100644
--- a/compile.go
+++ b/compile.go
@@ -281,7 +281,14 @@ func (b *CompiledBundle) SourceOf(c *CompiledContract, pc int) string {
 	if info == nil {
 		return ""
 	}
-	return b.Sources[info.f][info.s : info.s+info.l]
+	if info.f < 0 || info.f >= len(b.Sources) {
+		return "" // generated code has no source
+	}
+	src := b.Sources[info.f]
+	if info.s < 0 || info.l < 0 || info.s > len(src) || info.l > len(src)-info.s {
+		return ""
+	}
+	return src[info.s : info.s+info.l]
 }
 
 func compileError(errors []solcerror) error {
-- 
2.43.0


From 76a05eae91fd51177109d2d6ccef6984b6b5a581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:08 +0000
Subject: [PATCH 58/98] fix: source map entries with a modifier depth were
 ignored

---
 compile.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/compile.go b/compile.go
index ce13279..9afda66 100644
--- a/compile.go
+++ b/compile.go
@@ -194,6 +194,10 @@ func (c *CompiledContract) compileSourcemap() {
 			out[i] = out[i-1]
 		}
 		sections := strings.Split(ops[i], ":")
+		if len(sections) > 4 {
+			// newer compilers add a modifier depth
+			sections = sections[:4]
+		}
 		switch len(sections) {
 		case 4:
 			if len(sections[3]) > 0 {
-- 
2.43.0


From 47f6688c9e1bc6d38f15ad8f73b6628a51efb739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:16 +0000
Subject: [PATCH 59/98] fix: eth: encode string arguments as written instead of
 as hex

---
 cmd/eth/call.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/eth/call.go b/cmd/eth/call.go
index c19d13a..418c7ba 100644
--- a/cmd/eth/call.go
+++ b/cmd/eth/call.go
@@ -30,7 +30,8 @@ func init() {
 }
 
 func etherstring(s string) seth.EtherType {
-	return etherbytes(s)
+	b := seth.Bytes(s)
+	return &b
 }
 
 func unhex(s string) []byte {
-- 
2.43.0


From 36b2d3f0dade8db62f9a72f67d109ab8d693abf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:18 +0000
Subject: [PATCH 60/98] fix: eth: accept exactly the integers that fit the
 argument type

---
 cmd/eth/call.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/cmd/eth/call.go b/cmd/eth/call.go
index 418c7ba..6d7eb93 100644
--- a/cmd/eth/call.go
+++ b/cmd/eth/call.go
@@ -80,8 +80,16 @@ func etherint(s string, bitwidth int, signed bool) seth.EtherType {
 	if v.Sign() < 0 && !signed {
 		fatalf("value %q not allowed to be signed\n", s)
 	}
-	if v.BitLen() >= bitwidth {
-		fatalf("value %q overflows bit-width %d", s, bitwidth)
+	lim := v
+	if signed {
+		// one bit is the sign
+		bitwidth--
+		if v.Sign() < 0 {
+			lim = new(big.Int).Not(v)
+		}
+	}
+	if lim.BitLen() > bitwidth {
+		fatalf("value %q overflows its type", s)
 	}
 	return (*seth.Int)(v)
 }
@@ -139,17 +147,17 @@ func parsearg(typ, val string) seth.EtherType {
 	case "bytes":
 		return etherbytes(val)
 	case "int8", "uint8":
-		return etherint(val, 8, val == "int8")
+		return etherint(val, 8, typ == "int8")
 	case "int16", "uint16":
-		return etherint(val, 16, val == "int16")
+		return etherint(val, 16, typ == "int16")
 	case "int32", "uint32":
-		return etherint(val, 32, val == "int32")
+		return etherint(val, 32, typ == "int32")
 	case "int64", "uint64":
-		return etherint(val, 64, val == "int64")
+		return etherint(val, 64, typ == "int64")
 	case "int128", "uint128":
-		return etherint(val, 128, val == "int128")
+		return etherint(val, 128, typ == "int128")
 	case "int256", "uint256":
-		return etherint(val, 256, val == "int256")
+		return etherint(val, 256, typ == "int256")
 	case "address":
 		return etheraddr(val)
 	}
-- 
2.43.0


From 5c71c971642dda23c98e5fe3be588e5e1bfe17a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:19 +0000
Subject: [PATCH 61/98] fix: eth: parse array arguments between the brackets

---
 cmd/eth/call.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/cmd/eth/call.go b/cmd/eth/call.go
index 6d7eb93..54db56d 100644
--- a/cmd/eth/call.go
+++ b/cmd/eth/call.go
@@ -95,15 +95,20 @@ func etherint(s string, bitwidth int, signed bool) seth.EtherType {
 }
 
 func etherarr(typ string, val string) seth.EtherType {
-	if val[0] != '[' || val[len(val)-1] != ']' {
+	if len(val) < 2 || val[0] != '[' || val[len(val)-1] != ']' {
 		fatalf("array values must be enclosed with square braces\n")
 	}
-	parts := strings.Split(val, ",")
-	if len(parts) == 0 {
-		// doesn't really matter what type this is...
-		s := make(seth.IntSlice, 0)
-		return &s
+	val = val[1 : len(val)-1]
+	if val == "" {
+		switch {
+		case typ == "address":
+			return new(seth.AddrSlice)
+		case typ == "bool" || strings.HasPrefix(typ, "int") || strings.HasPrefix(typ, "uint"):
+			return new(seth.IntSlice)
+		}
+		fatalf("slice of %s unimplemented\n", typ)
 	}
+	parts := strings.Split(val, ",")
 
 	// Warning: this is super gross.
 	// This should be replaced with something better.
-- 
2.43.0


From 49d107eff38263701606f7b65c33b7e32a9d8c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:21 +0000
Subject: [PATCH 62/98] fix: eth: name the function in signature errors

---
 cmd/eth/call.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/eth/call.go b/cmd/eth/call.go
index 54db56d..c1cd48b 100644
--- a/cmd/eth/call.go
+++ b/cmd/eth/call.go
@@ -185,7 +185,7 @@ func parsefn(c *seth.Client, addr *seth.Address, fn string, args []string) []set
 	if lparen == -1 || rparen == -1 ||
 		rparen-lparen < 1 ||
 		rparen != len(fn)-1 {
-		fatalf("bad function signature %q (bad parens)\n", args[1])
+		fatalf("bad function signature %q (bad parens)\n", fn)
 	}
 
 	fname := fn[:lparen]
@@ -206,7 +206,7 @@ func parsefn(c *seth.Client, addr *seth.Address, fn string, args []string) []set
 			}
 		}
 		if !found {
-			fatalf("signature %q (jump table %x) not found in code\n", args[1], h[:4])
+			fatalf("signature %q (jump table %x) not found in code\n", fn, h[:4])
 		}
 	}
 
-- 
2.43.0


From f097e89e015c1c39d26eacc57f0ba83c13a7bc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:22 +0000
Subject: [PATCH 63/98] fix: eth call: refuse superfluous arguments

---
 cmd/eth/call.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/eth/call.go b/cmd/eth/call.go
index c1cd48b..d943c11 100644
--- a/cmd/eth/call.go
+++ b/cmd/eth/call.go
@@ -240,6 +240,9 @@ func call(fs *flag.FlagSet) {
 
 	c := client()
 	callargs := parsefn(c, addr, args[1], args[2:])
+	if len(callargs) != len(args[2:]) {
+		fatalf("signature wants %d arguments, but %d were provided\n", len(callargs), len(args[2:]))
+	}
 
 	sign, from := signer()
 	opts := seth.CallOpts{
-- 
2.43.0


From 39415b92deb7d0b69384648616beb62c46cb6225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:23 +0000
Subject: [PATCH 64/98] fix: eth read: print negative integers as negative

---
 cmd/eth/read.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/eth/read.go b/cmd/eth/read.go
index f85f006..df5005c 100644
--- a/cmd/eth/read.go
+++ b/cmd/eth/read.go
@@ -81,13 +81,17 @@ func read(fs *flag.FlagSet) {
 		fatalf("error making call: %s\n", err)
 	}
 
-	for _, v := range *d {
+	for i, v := range *d {
 		switch v := v.(type) {
 		case *string:
 			fmt.Println(*v)
 		case *bool:
 			fmt.Println(*v)
 		case *big.Int:
+			if strings.HasPrefix(rettypes[i], "int") && v.Bit(255) == 1 {
+				// negative number in two's complement
+				v.Sub(v, new(big.Int).Lsh(big.NewInt(1), 256))
+			}
 			fmt.Println(v.String())
 		case *seth.Address:
 			fmt.Println(v.String())
-- 
2.43.0


From e0cc99a2e4cc8453fb932539be023d4688094e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:39 +0000
Subject: [PATCH 65/98] fix: eth: sign with the key that matched, not with the
 last one listed

---
 cmd/eth/keys.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmd/eth/keys.go b/cmd/eth/keys.go
index b515f2f..a405e00 100644
--- a/cmd/eth/keys.go
+++ b/cmd/eth/keys.go
@@ -155,12 +155,14 @@ func signer() (seth.Signer, seth.Address) {
 	if err != nil {
 		fatalf("bad keyspec %q\n", err)
 	}
-	for _, kd := range keys() {
+	kds := keys()
+	for i := range kds {
+		kd := &kds[i]
 		if re.MatchString(kd.addr.String()) || re.MatchString(kd.id) {
 			if matched != nil {
 				fatalf("ambiguous key spec %q matches more than one key\n", spec)
 			}
-			matched = &kd
+			matched = kd
 		} else {
 			debugf("%s doesn't match", kd.id)
 		}
-- 
2.43.0


From 98b10d63b81859af681d39a73ab983507b3d4073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:36 +0000
Subject: [PATCH 66/98] fix: eth jumptab: do not miss a short entry at the end
 of the code

---
 cmd/eth/jumptab.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/eth/jumptab.go b/cmd/eth/jumptab.go
index 64cf541..5c3481a 100644
--- a/cmd/eth/jumptab.go
+++ b/cmd/eth/jumptab.go
@@ -178,7 +178,8 @@ func jumpentries(code []byte) []jmpentry {
 	// That would make the code a bit simpler.
 	var entries []jmpentry
 	base := code[preamble:]
-	for len(base) > 12 {
+	// the shortest entry is 10 bytes long
+	for len(base) >= 10 {
 		var pushbytes, prefixbytes [4]byte
 
 		if base[0] == oppush1+3 &&
@@ -200,6 +201,9 @@ func jumpentries(code []byte) []jmpentry {
 		if pwidth > 4 {
 			break // ???
 		}
+		if len(base) < 8+pwidth+1 {
+			break // cut short
+		}
 		copy(pushbytes[4-pwidth:], base[8:8+pwidth])
 		if base[8+pwidth] != opjumpi {
 			break // ???
-- 
2.43.0


From e01c4353002f1382e10aa4055bb17e1a1f88709c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:09 +0000
Subject: [PATCH 67/98] fix: bindgen: generate code that compiles for strings,
 bytes and other types

---
 bindgen/main.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/bindgen/main.go b/bindgen/main.go
index f3c9f4b..17bf32f 100644
--- a/bindgen/main.go
+++ b/bindgen/main.go
@@ -113,13 +113,34 @@ func typeconv(a string) string {
 		return "*seth.Address"
 	case "address[]":
 		return "*seth.AddrSlice"
-	case "uint256[]":
-		return "*seth.IntSlice"
+	case "string", "bytes":
+		return "*seth.Bytes"
 	default:
+		switch elem := strings.TrimSuffix(a, "[]"); {
+		case elem == a && integer(a):
+			return "*seth.Int"
+		case elem == a && fixedbytes(a):
+			return "*seth.Data"
+		case elem == "bool" || integer(elem):
+			return "*seth.IntSlice"
+		case fixedbytes(elem):
+			return "*seth.DataSlice"
+		}
 		return "seth.Data"
 	}
 }
 
+// integer returns whether a is (u)int or (u)intN
+func integer(a string) bool {
+	a = strings.TrimPrefix(a, "u")
+	return strings.HasPrefix(a, "int") && strings.Trim(a[3:], "0123456789") == ""
+}
+
+// fixedbytes returns whether a is bytesN
+func fixedbytes(a string) bool {
+	return strings.HasPrefix(a, "bytes") && a != "bytes" && strings.Trim(a[5:], "0123456789") == ""
+}
+
 func rettype(a string) string {
 	switch a {
 	case "bool", "int8", "int16", "int32", "int64",
-- 
2.43.0


From 9eeeae893f9a073de66a6f9ca48e49e80e460e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:10 +0000
Subject: [PATCH 68/98] fix: bindgen: decode arrays of bytes32 and of smaller
 unsigned integers

---
 bindgen/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bindgen/main.go b/bindgen/main.go
index 17bf32f..69f0273 100644
--- a/bindgen/main.go
+++ b/bindgen/main.go
@@ -152,8 +152,10 @@ func rettype(a string) string {
 		return "seth.Address"
 	case "address[]":
 		return "seth.AddrSlice"
-	case "uint256[]":
+	case "uint8[]", "uint16[]", "uint32[]", "uint64[]", "uint128[]", "uint256[]":
 		return "seth.IntSlice"
+	case "bytes32[]":
+		return "seth.DataSlice"
 	case "string":
 		return "string"
 	case "bytes":
-- 
2.43.0


From 0e926b2ef07825e5072afa8192029167619a98ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:11 +0000
Subject: [PATCH 69/98] fix: bindgen: give each overload of a function its own
 method

---
 bindgen/main.go | 39 +++++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/bindgen/main.go b/bindgen/main.go
index 69f0273..b6f648a 100644
--- a/bindgen/main.go
+++ b/bindgen/main.go
@@ -172,6 +172,36 @@ func deref(v string) string {
 	return v
 }
 
+// skip returns whether there is no method for d
+func skip(d *seth.ABIDescriptor) bool {
+	// don't do anything for pointless functions
+	return d.Type != "function" || d.Constant && len(d.Outputs) == 0
+}
+
+// methods returns the name of the Go method for each function of the contract;
+// functions that would have the same name are numbered
+func methods(c *seth.CompiledContract) map[int]string {
+	names := make(map[int]string)
+	used := make(map[string]bool)
+	for i := range c.ABI {
+		name := strings.Title(c.ABI[i].Name)
+		if !skip(&c.ABI[i]) && !used[name] {
+			names[i], used[name] = name, true
+		}
+	}
+	for i := range c.ABI {
+		if skip(&c.ABI[i]) || names[i] != "" {
+			continue
+		}
+		name := strings.Title(c.ABI[i].Name)
+		for n := 1; used[name]; n++ {
+			name = fmt.Sprintf("%s%d", strings.Title(c.ABI[i].Name), n)
+		}
+		names[i], used[name] = name, true
+	}
+	return names
+}
+
 func generate(w io.Writer, c *seth.CompiledContract) {
 	if bin {
 		fmt.Fprintf(w, "var %sCode = %#v\n", c.Name, c.Code)
@@ -189,19 +219,16 @@ func generate(w io.Writer, c *seth.CompiledContract) {
 	fmt.Fprintln(w, "}")
 
 	// methods
+	names := methods(c)
 	for i := range c.ABI {
 		d := &c.ABI[i]
-		if d.Type != "function" {
-			continue
-		}
-		// don't do anything for pointless functions
-		if d.Constant && len(d.Outputs) == 0 {
+		if skip(d) {
 			continue
 		}
 
 		fmt.Fprintln(w)
 
-		fmt.Fprintf(w, "func (z *%s) %s(", c.Name, strings.Title(d.Name))
+		fmt.Fprintf(w, "func (z *%s) %s(", c.Name, names[i])
 		// input arguments
 		var argstrs []string
 		for i := range d.Inputs {
-- 
2.43.0


From 2fec451ed656a597243895b06bb6d179ca5a4778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:31 +0000
Subject: [PATCH 70/98] fix: yubihsm: report a failed authentication

---
 yubihsm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yubihsm.go b/yubihsm.go
index 49f2323..4c86255 100644
--- a/yubihsm.go
+++ b/yubihsm.go
@@ -40,7 +40,7 @@ func (y *yubictx) Unlock(b []byte) error {
 	}
 	if err := sess.Authenticate(y.ctx); err != nil {
 		sess.Destroy()
-		return nil
+		return err
 	}
 	y.sess = sess
 	return nil
-- 
2.43.0


From 6c2cc03ec1176a6bfc002ef4885ade132d135f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:32 +0000
Subject: [PATCH 71/98] fix: yubihsm: do not keep an incomplete list of keys

---
 yubihsm.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yubihsm.go b/yubihsm.go
index 4c86255..6377b39 100644
--- a/yubihsm.go
+++ b/yubihsm.go
@@ -68,6 +68,7 @@ func (y *yubictx) loadk256() error {
 		return err
 	}
 
+	var pks []HSMKey
 	for i := range objs {
 		var spk PublicKey
 		pk, err := y.sess.GetPublicKey(objs[i].ID)
@@ -75,12 +76,13 @@ func (y *yubictx) loadk256() error {
 			return err
 		}
 		copy(spk[:], pk)
-		y.pks = append(y.pks, HSMKey{
+		pks = append(pks, HSMKey{
 			ID:     "yubihsm:" + strconv.Itoa(objs[i].ID),
 			Public: spk,
 			Aux:    objs[i],
 		})
 	}
+	y.pks = pks
 	return nil
 }
 
-- 
2.43.0


From cedc5fb108cd7c9ed7307bfc9d32315c03ddb198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:33 +0000
Subject: [PATCH 72/98] fix: yubihsm: do not return a signature that is not by
 the key asked for

---
 yubihsm.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/yubihsm.go b/yubihsm.go
index 6377b39..c5bce8e 100644
--- a/yubihsm.go
+++ b/yubihsm.go
@@ -101,15 +101,22 @@ func yubisigner(sess *yubihsm.Session, k *HSMKey) Signer {
 			return nil, err
 		}
 
-		// Figure out what 'v' should be.
-		sig := NewSignature(r, s, 0)
-		if pk0, err := NewSignature(r, s, 0).Recover(sum); err != nil {
-			return nil, err
-		} else if *pk0 != k.Public {
-			sig = NewSignature(r, s, 1)
+		if r.Sign() <= 0 || r.Cmp(order) >= 0 || s.Sign() <= 0 || s.Cmp(order) >= 0 {
+			return nil, fmt.Errorf("hsm returned a malformed signature")
 		}
 
-		return sig, nil
+		// Figure out what 'v' should be.
+		for v := 0; v < 2; v++ {
+			sig := NewSignature(r, s, v)
+			pk, err := sig.Recover(sum)
+			if err != nil {
+				return nil, err
+			}
+			if *pk == k.Public {
+				return sig, nil
+			}
+		}
+		return nil, fmt.Errorf("hsm signed with a key other than %s", k.ID)
 	}
 }
 
-- 
2.43.0


From e2ae78ccec020b4b4a4e1545f16cc38fb700942e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:34 +0000
Subject: [PATCH 73/98] fix: yubihsm: pass strings that are not ASCII to the
 library whole

---
 yubihsm/yubihsm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yubihsm/yubihsm.go b/yubihsm/yubihsm.go
index 9253446..111641e 100644
--- a/yubihsm/yubihsm.go
+++ b/yubihsm/yubihsm.go
@@ -751,7 +751,7 @@ func SetDebugOutput(file *os.File) error {
 // The reference must be held until the C code is done with it.
 func cstr(s string) *C.char {
 	cc := make([]C.char, len(s)+1)
-	for i := range s {
+	for i := 0; i < len(s); i++ {
 		cc[i] = C.char(s[i])
 	}
 	return &cc[0]
-- 
2.43.0


From 50c25c9aa0dce9b455f867d15595a00f72331c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:36 +0000
Subject: [PATCH 74/98] fix: yubihsm: do not panic on empty messages and
 passwords

---
 yubihsm/yubihsm.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/yubihsm/yubihsm.go b/yubihsm/yubihsm.go
index 111641e..c57b9a3 100644
--- a/yubihsm/yubihsm.go
+++ b/yubihsm/yubihsm.go
@@ -89,8 +89,8 @@ func (c *Connector) SetProxyServer(url string) error {
 func (c *Connector) Send(msg, res *Message) error {
 	rsize := C.size_t(cap(res.Data))
 	rc := C.yh_send_plain_msg((*C.yh_connector)(c),
-		C.yh_cmd(msg.Command), (*C.uint8_t)(&msg.Data[0]), C.size_t(len(msg.Data)),
-		(*C.yh_cmd)(&res.Command), (*C.uint8_t)(&res.Data[0]), &rsize)
+		C.yh_cmd(msg.Command), bytesptr(msg.Data), C.size_t(len(msg.Data)),
+		(*C.yh_cmd)(&res.Command), bytesptr(res.Data), &rsize)
 	if err := rcerr(rc); err != nil {
 		return err
 	}
@@ -103,7 +103,7 @@ func (c *Connector) Send(msg, res *Message) error {
 func (c *Connector) NewDerivedSession(id int, password []byte, recreate bool, ctx *Context) (*Session, error) {
 	s := new(Session)
 	rc := C.yh_create_session_derived((*C.yh_connector)(c), C.uint16_t(id),
-		(*C.uint8_t)(&password[0]), C.size_t(len(password)),
+		bytesptr(password), C.size_t(len(password)),
 		C._Bool(recreate), (*C.uint8_t)(&ctx[0]), C.size_t(len(ctx)), &s.session)
 	if err := rcerr(rc); err != nil {
 		return nil, err
@@ -116,8 +116,8 @@ func (c *Connector) NewDerivedSession(id int, password []byte, recreate bool, ct
 func (c *Connector) NewSession(id int, key, mac []byte, recreate bool, ctx *Context) (*Session, error) {
 	s := new(Session)
 	rc := C.yh_create_session((*C.yh_connector)(c), C.uint16_t(id),
-		(*C.uint8_t)(&key[0]), C.size_t(len(key)),
-		(*C.uint8_t)(&mac[0]), C.size_t(len(mac)),
+		bytesptr(key), C.size_t(len(key)),
+		bytesptr(mac), C.size_t(len(mac)),
 		C._Bool(recreate), (*C.uint8_t)(&ctx[0]), C.size_t(len(ctx)), &s.session)
 	if err := rcerr(rc); err != nil {
 		return nil, err
@@ -265,7 +265,7 @@ func (s *Session) SignECDSA(id int, data []byte) (R, S *big.Int, err error) {
 	outlen := C.size_t(len(out))
 
 	rc := C.yh_util_sign_ecdsa(s.session, C.uint16_t(id),
-		(*C.uint8_t)(&data[0]), C.size_t(len(data)),
+		bytesptr(data), C.size_t(len(data)),
 		(*C.uint8_t)(&out[0]), &outlen)
 
 	if err := rcerr(rc); err != nil {
@@ -747,6 +747,14 @@ func SetDebugOutput(file *os.File) error {
 	return nil
 }
 
+// bytesptr returns a pointer to the bytes of b, which is nil if there is no room in b.
+func bytesptr(b []byte) *C.uint8_t {
+	if cap(b) == 0 {
+		return nil
+	}
+	return (*C.uint8_t)(&b[:1][0])
+}
+
 // cstr creates a null-terminated *C.char from a string for use with C code.
 // The reference must be held until the C code is done with it.
 func cstr(s string) *C.char {
-- 
2.43.0


From e3e24c3d3adb34299feaf5079e1f8c6aa32b971c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:40 +0000
Subject: [PATCH 75/98] fix: eth block: do not panic when the pending block has
 no number

---
 cmd/eth/block.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/eth/block.go b/cmd/eth/block.go
index 8b4d0d9..cea9ab8 100644
--- a/cmd/eth/block.go
+++ b/cmd/eth/block.go
@@ -47,7 +47,11 @@ func blockrange(c *seth.Client, spec string) {
 	// have to fetch the block to do this
 	start := blocknum(split[0])
 	if start < 0 {
-		start = int64(*(getblock(c, start, false).Number))
+		b := getblock(c, start, false)
+		if b.Number == nil {
+			fatalf("the %s block has no number\n", split[0])
+		}
+		start = int64(*b.Number)
 	}
 
 	diff, err := strconv.ParseInt(split[1], 0, 64)
-- 
2.43.0


From d70965e299c8f0f22b5faef8938bee78635d574c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:42 +0000
Subject: [PATCH 76/98] fix: eth block: do not show the latest and pending
 blocks for ranges reaching below zero

---
 cmd/eth/block.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cmd/eth/block.go b/cmd/eth/block.go
index cea9ab8..bc6db89 100644
--- a/cmd/eth/block.go
+++ b/cmd/eth/block.go
@@ -58,13 +58,21 @@ func blockrange(c *seth.Client, spec string) {
 	if err != nil {
 		fatalf("couldn't parse %q as an integer: %s\n", split[1], err)
 	}
+	if diff < 0 {
+		fatalf("bad block range specifier %q\n", spec)
+	}
 	op := func(a, b int64) int64 { return a + b }
 	if opstr == "-" {
 		op = func(a, b int64) int64 { return a - b }
 	}
 
 	for i := int64(0); i < diff; i++ {
-		showblock(getblock(c, op(start, i), true))
+		n := op(start, i)
+		if n < 0 {
+			// negative numbers stand for the latest and pending blocks
+			fatalf("block range %q goes beyond the first or last block\n", spec)
+		}
+		showblock(getblock(c, n, true))
 	}
 }
 
-- 
2.43.0


From 0061ad2cb389dfd74dca7cbd9c2413583e8983c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:59 +0000
Subject: [PATCH 77/98] fix: eth post: refuse an empty line, too

---
 cmd/eth/post.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/eth/post.go b/cmd/eth/post.go
index 0133b0c..3547a2d 100644
--- a/cmd/eth/post.go
+++ b/cmd/eth/post.go
@@ -42,12 +42,12 @@ func post(fs *flag.FlagSet) {
 		if err != nil {
 			fatalf("reading arg%d: %s\n", i, err)
 		}
+		if len(hexbuf) > 0 && hexbuf[len(hexbuf)-1] == '\n' {
+			hexbuf = hexbuf[:len(hexbuf)-1]
+		}
 		if len(hexbuf) == 0 {
 			fatalf("zero-length input can't possibly be a transaction\n")
 		}
-		if hexbuf[len(hexbuf)-1] == '\n' {
-			hexbuf = hexbuf[:len(hexbuf)-1]
-		}
 		buf := make([]byte, hex.DecodedLen(len(hexbuf)))
 		_, err = hex.Decode(buf, hexbuf)
 		if err != nil {
-- 
2.43.0


From 80a64a0d7aebb32ec1b91644ec43897122a80ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:33 +0000
Subject: [PATCH 78/98] fix: tevm: do not transfer negative amounts, which made
 ether out of nothing

---
 tevm/evm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 6c806ab..f179290 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -754,7 +754,7 @@ func (c *Chain) NewAccount(ether int) seth.Address {
 }
 
 func cantransfer(s vm.StateDB, addr common.Address, v *big.Int) bool {
-	return s.GetBalance(addr).Cmp(v) >= 0
+	return v.Sign() >= 0 && s.GetBalance(addr).Cmp(v) >= 0
 }
 
 func dotransfer(s vm.StateDB, from, to common.Address, v *big.Int) {
-- 
2.43.0


From ffcaa24f8a469f51d76a25775a13ff54c124a491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:18 +0000
Subject: [PATCH 79/98] fix: tevm: a response has no error member when the
 request succeeded

---
 tevm/transport.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/tevm/transport.go b/tevm/transport.go
index ee14616..d0333e0 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -78,7 +78,17 @@ func (s *Chain) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	}
 	var res seth.RPCResponse
 	s.Execute(&jsr, &res)
-	err = json.NewEncoder(w).Encode(&res)
+	// a response has either a result or an error
+	out := struct {
+		ID      int             `json:"id"`
+		Version string          `json:"jsonrpc"`
+		Result  json.RawMessage `json:"result,omitempty"`
+		Error   *seth.RPCError  `json:"error,omitempty"`
+	}{ID: res.ID, Version: res.Version, Result: res.Result}
+	if res.Error.Code != 0 {
+		out.Error = &res.Error
+	}
+	err = json.NewEncoder(w).Encode(&out)
 	if err != nil {
 		log.Printf("error writing response: %s", err)
 		w.WriteHeader(500)
-- 
2.43.0


From 0a5230ef2903bad6964d7b744382ec4af5cfd690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:41 +0000
Subject: [PATCH 80/98] fix: tevm: give the id of a filter as a quantity

---
 tevm/transport.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tevm/transport.go b/tevm/transport.go
index d0333e0..ea58815 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -219,7 +219,8 @@ func (c *Chain) execute(method string, params []json.RawMessage) (interface{}, e
 		if err := marshal(params, req); err != nil {
 			return nil, err
 		}
-		return c.newFilter(req.FromBlock, req.ToBlock, req.Address, req.Topics)
+		id, err := c.newFilter(req.FromBlock, req.ToBlock, req.Address, req.Topics)
+		return seth.Uint64(id), err
 	case "eth_getFilterChanges":
 		var n seth.Int
 		if err := marshal(params, &n); err != nil {
-- 
2.43.0


From 30b6176bf17cd706fe1e3b9d177a6676dde7d767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:02 +0000
Subject: [PATCH 81/98] fix: tevm: do not truncate the number of a filter

---
 tevm/transport.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tevm/transport.go b/tevm/transport.go
index ea58815..c99dee7 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -222,23 +222,23 @@ func (c *Chain) execute(method string, params []json.RawMessage) (interface{}, e
 		id, err := c.newFilter(req.FromBlock, req.ToBlock, req.Address, req.Topics)
 		return seth.Uint64(id), err
 	case "eth_getFilterChanges":
-		var n seth.Int
+		var n seth.Uint64
 		if err := marshal(params, &n); err != nil {
 			return nil, err
 		}
-		return c.filterChanges(int(n.Int64()))
+		return c.filterChanges(int(n))
 	case "eth_getFilterLogs":
-		var n seth.Int
+		var n seth.Uint64
 		if err := marshal(params, &n); err != nil {
 			return nil, err
 		}
-		return c.filterLogs(int(n.Int64()))
+		return c.filterLogs(int(n))
 	case "eth_uninstallFilter":
-		var n seth.Int
+		var n seth.Uint64
 		if err := marshal(params, &n); err != nil {
 			return nil, err
 		}
-		return c.deleteFilter(int(n.Int64()))
+		return c.deleteFilter(int(n))
 	default:
 		return nil, errors.New(method + ": unsupported method")
 	}
-- 
2.43.0


From badda8fb9008244a217e4df886930165618afd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:53 +0000
Subject: [PATCH 82/98] fix: tevm: CreateAt changes nothing when the
 constructor fails

---
 tevm/evm.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tevm/evm.go b/tevm/evm.go
index f179290..683b426 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -837,6 +837,7 @@ func (c *Chain) CreateAt(addr, sender *seth.Address, code []byte) error {
 	c.mu.Lock()
 
 	evm := c.evm(*sender)
+	snap := evm.StateDB.Snapshot()
 	evm.StateDB.CreateAccount(common.Address(*addr))
 	evm.StateDB.SetNonce(common.Address(*addr), 1)
 
@@ -848,6 +849,7 @@ func (c *Chain) CreateAt(addr, sender *seth.Address, code []byte) error {
 	static := false
 	ret, err := evm.Interpreter().Run(contract, nil, static)
 	if err != nil {
+		evm.StateDB.RevertToSnapshot(snap)
 		c.mu.Unlock()
 		return err
 	}
-- 
2.43.0


From e22fb212652ea0cb6b9927c7923ea272dee95e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:58 +0000
Subject: [PATCH 83/98] fix: tevm: estimate the gas of calls that change the
 state, too

---
 tevm/evm.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 683b426..8b69de3 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -894,8 +894,11 @@ func (c *Chain) StaticCall(sender, dst *seth.Address, sig string, args ...seth.E
 // EstimateGas estimates the amount of gas that the given transaction will use.
 func (c *Chain) EstimateGas(sender, dst *seth.Address, sig string, args ...seth.EtherType) (uint64, error) {
 	c.mu.Lock()
-	_, left, err := c.staticCall(sender, dst, seth.ABIEncode(sig, args...), defaultGasLimit)
-	c.mu.Unlock()
+	defer c.mu.Unlock()
+	evm := c.evm(*sender)
+	snap := evm.StateDB.Snapshot()
+	defer evm.StateDB.RevertToSnapshot(snap)
+	_, left, err := evm.Call(s2r(sender), common.Address(*dst), seth.ABIEncode(sig, args...), defaultGasLimit, &zero)
 	return defaultGasLimit - left, err
 }
 
-- 
2.43.0


From 6d16c9aa6d57b07eae5499738d0729d9fe348304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:03 +0000
Subject: [PATCH 84/98] fix: tevm: keep the parameters of the block when
 sealing it

---
 tevm/evm.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 8b69de3..28dbe04 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -1083,14 +1083,20 @@ func (c *Chain) seal() {
 
 	n := seth.Uint64(uint64(*b.Number) + 1)
 	h := seth.Hash(n2h(uint64(n)))
+	ts := seth.Uint64(time.Now().Unix())
+	if ts < b.Timestamp {
+		// a block is no older than its parent
+		ts = b.Timestamp
+	}
 	c.State.Pending = &seth.Block{
 		Number:          &n,
 		Parent:          *b.Hash,
 		Hash:            &h,
+		Miner:           b.Miner,
 		GasLimit:        b.GasLimit,
-		Difficulty:      seth.NewInt(0),
+		Difficulty:      (*seth.Int)(new(big.Int).Set(b.Difficulty.Big())),
 		TotalDifficulty: seth.NewInt(0),
-		Timestamp:       seth.Uint64(time.Now().Unix()),
+		Timestamp:       ts,
 	}
 }
 
-- 
2.43.0


From 94d2703e2ef047128ea86508a53b1314e4e37930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:07 +0000
Subject: [PATCH 85/98] fix: tevm: a contract that self-destructed is gone
 after the transaction

---
 tevm/evm.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/tevm/evm.go b/tevm/evm.go
index 28dbe04..9e96d30 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -101,6 +101,9 @@ type State struct {
 
 	Logs []*types.Log
 	snapshots
+
+	// contracts that self-destructed in the current transaction
+	destroyed []seth.Address
 }
 
 type snapshots struct {
@@ -406,9 +409,23 @@ func (s *gethState) Suicide(addr common.Address) bool {
 	acct.SetSuicided(true)
 	acct.SetBalance(new(big.Int))
 	s.setAccount(&a, &acct)
+	s.destroyed = append(s.destroyed, a)
 	return true
 }
 
+// finalise ends a transaction: the contracts that
+// self-destructed in it are gone from now on
+func (s *gethState) finalise() {
+	for i := range s.destroyed {
+		if acct, ok := s.treeAccount(&s.destroyed[i]); ok && acct.Suicided() {
+			var empty Account
+			s.setAccount(&s.destroyed[i], &empty)
+			s.SetCode(common.Address(s.destroyed[i]), nil)
+		}
+	}
+	s.destroyed = nil
+}
+
 func (s *gethState) HasSuicided(addr common.Address) bool {
 	if s.Trace != nil {
 		s.Trace("HasSuicided", addr.String())
@@ -826,6 +843,7 @@ func (c *Chain) evm(sender [20]byte) *vm.EVM {
 func (c *Chain) Create(sender *seth.Address, code []byte) (seth.Address, error) {
 	c.mu.Lock()
 	_, addr, _, err := c.evm(*sender).Create(s2r(sender), code, defaultGasLimit, &zero)
+	((*gethState)(&c.State)).finalise()
 	c.mu.Unlock()
 	return seth.Address(addr), err
 }
@@ -855,6 +873,7 @@ func (c *Chain) CreateAt(addr, sender *seth.Address, code []byte) error {
 	}
 
 	evm.StateDB.SetCode(common.Address(*addr), ret)
+	((*gethState)(&c.State)).finalise()
 
 	c.mu.Unlock()
 
@@ -869,6 +888,7 @@ func (c *Chain) CreateAt(addr, sender *seth.Address, code []byte) error {
 func (c *Chain) Call(sender, dst *seth.Address, sig string, args ...seth.EtherType) ([]byte, error) {
 	c.mu.Lock()
 	ret, _, err := c.evm(*sender).Call(s2r(sender), common.Address(*dst), seth.ABIEncode(sig, args...), defaultGasLimit, &zero)
+	((*gethState)(&c.State)).finalise()
 	c.mu.Unlock()
 	return ret, err
 }
@@ -906,6 +926,7 @@ func (c *Chain) EstimateGas(sender, dst *seth.Address, sig string, args ...seth.
 func (c *Chain) Send(sender, dst *seth.Address, value *big.Int) error {
 	c.mu.Lock()
 	_, _, err := c.evm(*sender).Call(s2r(sender), common.Address(*dst), nil, defaultGasLimit, value)
+	((*gethState)(&c.State)).finalise()
 	c.mu.Unlock()
 	return err
 }
@@ -1003,6 +1024,7 @@ func (c *Chain) mine(tx *seth.Transaction) (ret []byte, h seth.Hash, err error)
 		ret, gas, err = vm.Call(s2r(tx.From), common.Address(*tx.To), []byte(tx.Input), uint64(tx.Gas), tx.Value.Big())
 	}
 
+	((*gethState)(&c.State)).finalise()
 	if err != nil {
 		status = 0
 	}
-- 
2.43.0


From 1bfe799657b35f5288ca44915bfcdace7145d640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:47 +0000
Subject: [PATCH 86/98] fix: ParseTransfer: a transfer event holds exactly one
 word of data

---
 seth.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seth.go b/seth.go
index 301d1c1..bb05d1d 100644
--- a/seth.go
+++ b/seth.go
@@ -757,7 +757,7 @@ func (r *Receipt) ParseTransfer(l *Log) (TokenTransfer, bool) {
 	if len(l.Topics) != 3 || len(l.Topics[1]) != 32 || len(l.Topics[2]) != 32 {
 		return TokenTransfer{}, false
 	}
-	if !bytes.Equal(l.Topics[0], ERC20Transfer[:]) {
+	if !bytes.Equal(l.Topics[0], ERC20Transfer[:]) || len(l.Data) != 32 {
 		return TokenTransfer{}, false
 	}
 	tt := TokenTransfer{Block: int64(r.BlockNumber), TxHeight: int(r.Index), Token: l.Address}
-- 
2.43.0


From ae5bccca51c893d39a51e60b181adc83cf6c3c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:48 +0000
Subject: [PATCH 87/98] fix: cc: do not hand out the address kept in the
 registry

---
 cc/currency.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cc/currency.go b/cc/currency.go
index 5aa2e3a..7d2cf74 100644
--- a/cc/currency.go
+++ b/cc/currency.go
@@ -221,8 +221,8 @@ func (c Currency) Digits() int {
 // Addr returns the contract address, if this represents an ERC20 token. This
 // panics if the currency is not registered.
 func (c Currency) Addr() *seth.Address {
-	if addr := &c.resolve().addr; !addr.Zero() {
-		return addr
+	if addr := c.resolve().addr; !addr.Zero() {
+		return &addr
 	}
 	return nil
 }
-- 
2.43.0


From 5523dc3cdf59a925bea844acaf1e02f6de4b080f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:49 +0000
Subject: [PATCH 88/98] fix: cc: do not register a token whose address is
 refused

---
 cc/currency.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cc/currency.go b/cc/currency.go
index 7d2cf74..28c0145 100644
--- a/cc/currency.go
+++ b/cc/currency.go
@@ -543,13 +543,13 @@ func registerCurrency(c *currency) Currency {
 		}
 		return Currency(p.name)
 	}
-	currencies[c.name] = c
 	if !c.addr.Zero() {
 		if _, ok := tokens[c.addr]; ok {
 			panic("cc: conflicting token address: " + c.addr.String())
 		}
 		tokens[c.addr] = Currency(c.name)
 	}
+	currencies[c.name] = c
 	return Currency(c.name)
 }
 
-- 
2.43.0


From 5c82992849682666a2d727998abf36167d4dad6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:51 +0000
Subject: [PATCH 89/98] fix: signatures of functions and events spell out their
 tuples

---
 abi.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/abi.go b/abi.go
index b92792f..020e661 100644
--- a/abi.go
+++ b/abi.go
@@ -32,9 +32,18 @@ func (c *CompiledContract) Find(desc string) *ABIDescriptor {
 // signature is the function selector, and for events,
 // the hash of the signature is the first topic in the log.
 func (d *ABIDescriptor) Signature() string {
-	var args []string
-	for i := range d.Inputs {
-		args = append(args, d.Inputs[i].Type)
+	return d.Name + canonicalTypes(d.Inputs)
+}
+
+func canonicalTypes(params []ABIParam) string {
+	var types []string
+	for i := range params {
+		typ := params[i].Type
+		// the canonical form of 'tuple[]' is '(...)[]'
+		if typ == "tuple" || strings.HasPrefix(typ, "tuple[") {
+			typ = canonicalTypes(params[i].Components) + typ[len("tuple"):]
+		}
+		types = append(types, typ)
 	}
-	return d.Name + "(" + strings.Join(args, ",") + ")"
+	return "(" + strings.Join(types, ",") + ")"
 }
-- 
2.43.0


From 2bbdceb6ea5de2d98e48f1feee6c9a502e4de631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:52 +0000
Subject: [PATCH 90/98] fix: erc20: do not ignore the error from minting

---
 tevm/erc20/compliance.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tevm/erc20/compliance.go b/tevm/erc20/compliance.go
index 2fc1694..28b7372 100644
--- a/tevm/erc20/compliance.go
+++ b/tevm/erc20/compliance.go
@@ -110,7 +110,7 @@ func TestABICompliance(t *testing.T, cc *seth.CompiledContract) {
 func TestCompliance(t *Token) {
 	lc := len(t.C.Logs())
 	addr := t.C.NewAccount(1)
-	t.Mint(t, &addr, seth.NewInt(1000))
+	please(t.T, t.Mint(t, &addr, seth.NewInt(1000)))
 
 	// there should be a transfer from 0 in here,
 	// since we minted some tokens
-- 
2.43.0


From 1cc5ceb1819b00a132091928872866b60542507d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:53 +0000
Subject: [PATCH 91/98] fix: erc20: fail rather than crash when the token emits
 no proper event

---
 tevm/erc20/compliance.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/tevm/erc20/compliance.go b/tevm/erc20/compliance.go
index 28b7372..533a8f1 100644
--- a/tevm/erc20/compliance.go
+++ b/tevm/erc20/compliance.go
@@ -25,6 +25,15 @@ func assertln(t *testing.T, cond bool, text string) {
 	}
 }
 
+// requireln is assertln for things that
+// the rest of the test depends upon
+func requireln(t *testing.T, cond bool, text string) {
+	if !cond {
+		t.Helper()
+		t.Fatal(text)
+	}
+}
+
 func mustError(t *testing.T, err error, text string) {
 	t.Helper()
 	if err == nil {
@@ -34,13 +43,13 @@ func mustError(t *testing.T, err error, text string) {
 }
 
 func isERC20Approve(l *seth.Log, from, to *seth.Address) bool {
-	return bytes.Equal(l.Topics[0], seth.ERC20Approve[:]) &&
+	return len(l.Topics) == 3 && bytes.Equal(l.Topics[0], seth.ERC20Approve[:]) &&
 		bytes.Equal(l.Topics[1][12:], from[:]) &&
 		bytes.Equal(l.Topics[2][12:], to[:])
 }
 
 func isERC20Transfer(l *seth.Log, from, to *seth.Address) bool {
-	return bytes.Equal(l.Topics[0], seth.ERC20Transfer[:]) &&
+	return len(l.Topics) == 3 && bytes.Equal(l.Topics[0], seth.ERC20Transfer[:]) &&
 		bytes.Equal(l.Topics[1][12:], from[:]) &&
 		bytes.Equal(l.Topics[2][12:], to[:])
 }
@@ -115,7 +124,7 @@ func TestCompliance(t *Token) {
 	// there should be a transfer from 0 in here,
 	// since we minted some tokens
 	logs := t.C.Logs()
-	assertln(t.T, len(logs) == lc+1, "no Transfer emitted for minting")
+	requireln(t.T, len(logs) == lc+1, "no Transfer emitted for minting")
 	transfer := &logs[lc]
 	var zeroaddr seth.Address
 	assertln(t.T, isERC20Transfer(transfer, &zeroaddr, &addr), "didn't emit a proper transfer event")
@@ -134,7 +143,7 @@ func TestCompliance(t *Token) {
 	}
 
 	logs = t.C.Logs()
-	assertln(t.T, len(logs) == lc+2, "no Transfer emitted after transfer() called")
+	requireln(t.T, len(logs) == lc+2, "no Transfer emitted after transfer() called")
 	transfer = &logs[lc+1]
 	assertln(t.T, isERC20Transfer(transfer, &addr, &addr2), "didn't emit a proper transfer event")
 	assertln(t.T, bytes.Equal(transfer.Address[:], t.Addr[:]), "transfer event not emitted by token")
@@ -148,7 +157,7 @@ func TestCompliance(t *Token) {
 	please(t.T, err)
 	assertln(t.T, ok, "approve() returned false")
 	logs = t.C.Logs()
-	assertln(t.T, len(logs) == lc+3, "no Approval event emitted after approve()")
+	requireln(t.T, len(logs) == lc+3, "no Approval event emitted after approve()")
 	approve := &logs[lc+2]
 	assertln(t.T, isERC20Approve(approve, &addr, &addr2), "didn't emit proper approve event")
 	assertln(t.T, bytes.Equal(approve.Address[:], t.Addr[:]), "approve event not emitted by token")
@@ -164,7 +173,7 @@ func TestCompliance(t *Token) {
 	please(t.T, err)
 	assertln(t.T, ok, "transferFrom() failed")
 	logs = t.C.Logs()
-	assertln(t.T, len(logs) == lc+4, "no Transfer emitted")
+	requireln(t.T, len(logs) == lc+4, "no Transfer emitted")
 	transfer = &logs[lc+3]
 	assertln(t.T, isERC20Transfer(transfer, &addr, &addr2), "didn't emit proper transfer event")
 	assertln(t.T, bytes.Equal(transfer.Address[:], t.Addr[:]), "transfer event not emitted by token")
@@ -182,7 +191,7 @@ func TestCompliance(t *Token) {
 	balance = t.BalanceOf(&addr2)
 	assertln(t.T, balance.IsZero(), "balance isn't zero after burning 200 tokens...?")
 	logs = t.C.Logs()
-	assertln(t.T, len(logs) == lc+5, "no Transfer event emitted after burning")
+	requireln(t.T, len(logs) == lc+5, "no Transfer event emitted after burning")
 	transfer = &logs[lc+4]
 	assertln(t.T, isERC20Transfer(transfer, &addr2, &zeroaddr), "burn didn't emit proper transfer event")
 	assertln(t.T, bytes.Equal(transfer.Address[:], t.Addr[:]), "transfer event not emitted by token")
-- 
2.43.0


From df0de1613d520b4ec13fabc7e595b7c36c8c92d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:54 +0000
Subject: [PATCH 92/98] fix: erc20: a token does not need to have an owner

---
 tevm/erc20/compliance.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/tevm/erc20/compliance.go b/tevm/erc20/compliance.go
index 533a8f1..d4dd615 100644
--- a/tevm/erc20/compliance.go
+++ b/tevm/erc20/compliance.go
@@ -208,10 +208,19 @@ func ret2i(b []byte) *seth.Int {
 	return (*seth.Int)(&i)
 }
 
+// caller returns the account that makes queries,
+// since there doesn't need to be an owner
+func (t *Token) caller() *seth.Address {
+	if t.Owner == nil {
+		return new(seth.Address)
+	}
+	return t.Owner
+}
+
 // BalanceOf calls token.balanceOf(addr)
 func (t *Token) BalanceOf(addr *seth.Address) *seth.Int {
 	t.Helper()
-	bytes, err := t.C.StaticCall(t.Owner, t.Addr, "balanceOf(address)", addr)
+	bytes, err := t.C.StaticCall(t.caller(), t.Addr, "balanceOf(address)", addr)
 	if err != nil {
 		t.Fatalf("token.balanceOf(): %s", err)
 	}
@@ -229,7 +238,7 @@ func ret2b(b []byte) bool {
 
 func (t *Token) TotalSupply() *seth.Int {
 	t.Helper()
-	bytes, err := t.C.StaticCall(t.Owner, t.Addr, "totalSupply()")
+	bytes, err := t.C.StaticCall(t.caller(), t.Addr, "totalSupply()")
 	if err != nil {
 		t.Fatal("totalSupply():", err)
 	}
-- 
2.43.0


From 51dc6ed20b31397fe47f5de1cfab53ca23c00549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:13 +0000
Subject: [PATCH 93/98] fix: tevm: undoing logs must not let later logs
 overwrite those of a copy

---
 tevm/evm.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 9e96d30..b8a2d77 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -450,7 +450,9 @@ func (s *gethState) RevertToSnapshot(v int) {
 	s.Storage.Rollback(ns.State)
 	s.Transactions.Rollback(ns.TXs)
 	s.Receipts.Rollback(ns.RXs)
-	s.Logs = s.Logs[:ns.LogLen]
+	// a copy may share the logs that are undone,
+	// so do not overwrite them later on
+	s.Logs = s.Logs[:ns.LogLen:ns.LogLen]
 
 	// make sure we can't roll forward
 	snaps = snaps[:v]
-- 
2.43.0


From c5ad1831af5ae051ad6bc6020af11691d702cc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:15 +0000
Subject: [PATCH 94/98] fix: tevm: loading a chain must drop the filters on the
 previous one

---
 tevm/evm.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tevm/evm.go b/tevm/evm.go
index b8a2d77..9f1d41b 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -1153,6 +1153,8 @@ func (c *Chain) UnmarshalJSON(b []byte) error {
 		c.block2snap = make(map[int64]int)
 	}
 	c.pendingrx = s.Pendingrx
+	// filters refer to the logs of the previous state
+	c.filters = nil
 	c.mu.Unlock()
 	return nil
 }
-- 
2.43.0


From 0eed54f599023618e778d218ea19e1c7e4b4bf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:10 +0000
Subject: [PATCH 95/98] fix: tevm: release the lock when the fallback chain
 fails

---
 tevm/evm.go       | 18 ++++++++----------
 tevm/transport.go | 11 ++++++++---
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 9f1d41b..f4a5895 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -844,9 +844,9 @@ func (c *Chain) evm(sender [20]byte) *vm.EVM {
 // of the newly created contract.
 func (c *Chain) Create(sender *seth.Address, code []byte) (seth.Address, error) {
 	c.mu.Lock()
+	defer c.mu.Unlock()
 	_, addr, _, err := c.evm(*sender).Create(s2r(sender), code, defaultGasLimit, &zero)
 	((*gethState)(&c.State)).finalise()
-	c.mu.Unlock()
 	return seth.Address(addr), err
 }
 
@@ -855,6 +855,7 @@ func (c *Chain) Create(sender *seth.Address, code []byte) (seth.Address, error)
 // increment the sender nonce or enforce callstack limits.
 func (c *Chain) CreateAt(addr, sender *seth.Address, code []byte) error {
 	c.mu.Lock()
+	defer c.mu.Unlock()
 
 	evm := c.evm(*sender)
 	snap := evm.StateDB.Snapshot()
@@ -870,15 +871,12 @@ func (c *Chain) CreateAt(addr, sender *seth.Address, code []byte) error {
 	ret, err := evm.Interpreter().Run(contract, nil, static)
 	if err != nil {
 		evm.StateDB.RevertToSnapshot(snap)
-		c.mu.Unlock()
 		return err
 	}
 
 	evm.StateDB.SetCode(common.Address(*addr), ret)
 	((*gethState)(&c.State)).finalise()
 
-	c.mu.Unlock()
-
 	return nil
 }
 
@@ -889,9 +887,9 @@ func (c *Chain) CreateAt(addr, sender *seth.Address, code []byte) error {
 // 'sig' must be in the canonical method signature encoding.
 func (c *Chain) Call(sender, dst *seth.Address, sig string, args ...seth.EtherType) ([]byte, error) {
 	c.mu.Lock()
+	defer c.mu.Unlock()
 	ret, _, err := c.evm(*sender).Call(s2r(sender), common.Address(*dst), seth.ABIEncode(sig, args...), defaultGasLimit, &zero)
 	((*gethState)(&c.State)).finalise()
-	c.mu.Unlock()
 	return ret, err
 }
 
@@ -908,8 +906,8 @@ func (c *Chain) staticCall(sender, dst *seth.Address, data []byte, gas uint64) (
 // the pending block without comitting the state changes to the chain.
 func (c *Chain) StaticCall(sender, dst *seth.Address, sig string, args ...seth.EtherType) ([]byte, error) {
 	c.mu.Lock()
+	defer c.mu.Unlock()
 	ret, _, err := c.staticCall(sender, dst, seth.ABIEncode(sig, args...), defaultGasLimit)
-	c.mu.Unlock()
 	return ret, err
 }
 
@@ -927,9 +925,9 @@ func (c *Chain) EstimateGas(sender, dst *seth.Address, sig string, args ...seth.
 // Send creates a transaction that sends ether from one address to another.
 func (c *Chain) Send(sender, dst *seth.Address, value *big.Int) error {
 	c.mu.Lock()
+	defer c.mu.Unlock()
 	_, _, err := c.evm(*sender).Call(s2r(sender), common.Address(*dst), nil, defaultGasLimit, value)
 	((*gethState)(&c.State)).finalise()
-	c.mu.Unlock()
 	return err
 }
 
@@ -951,15 +949,15 @@ func (c *Chain) Sender(from *seth.Address) *seth.Sender {
 // SubBalance subtracts from the balance of an account.
 func (c *Chain) SubBalance(addr *seth.Address, v *big.Int) {
 	c.mu.Lock()
+	defer c.mu.Unlock()
 	c.State.StateDB().SubBalance(common.Address(*addr), v)
-	c.mu.Unlock()
 }
 
 // AddBalance adds to the balance of an account.
 func (c *Chain) AddBalance(addr *seth.Address, v *big.Int) {
 	c.mu.Lock()
+	defer c.mu.Unlock()
 	c.State.StateDB().AddBalance(common.Address(*addr), v)
-	c.mu.Unlock()
 }
 
 func (c *Chain) balanceOf(addr *seth.Address) *big.Int {
@@ -971,8 +969,8 @@ func (c *Chain) balanceOf(addr *seth.Address) *big.Int {
 // BalanceOf returns the balance of an address, in Wei.
 func (c *Chain) BalanceOf(addr *seth.Address) *big.Int {
 	c.mu.Lock()
+	defer c.mu.Unlock()
 	b := c.balanceOf(addr)
-	c.mu.Unlock()
 	return b
 }
 
diff --git a/tevm/transport.go b/tevm/transport.go
index c99dee7..9f9aa95 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -105,9 +105,7 @@ func (c *Chain) Execute(req *seth.RPCRequest, res *seth.RPCResponse) error {
 		c.Debugf("request:\n%s\n", pretty(req))
 	}
 
-	c.mu.Lock()
-	ret, err := c.execute(req.Method, req.Params)
-	c.mu.Unlock()
+	ret, err := c.lockexec(req.Method, req.Params)
 	if err != nil {
 		res.Result = nil
 		res.Error.Code = -32601
@@ -124,6 +122,13 @@ func (c *Chain) Execute(req *seth.RPCRequest, res *seth.RPCResponse) error {
 	return err
 }
 
+func (c *Chain) lockexec(method string, params []json.RawMessage) (interface{}, error) {
+	c.mu.Lock()
+	// the fallback chain can make this panic
+	defer c.mu.Unlock()
+	return c.execute(method, params)
+}
+
 func (c *Chain) execute(method string, params []json.RawMessage) (interface{}, error) {
 	var b blocknum
 	switch method {
-- 
2.43.0


From 33b65259eaec00ba35f56ad7319207c40fb1b957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:10 +0000
Subject: [PATCH 96/98] fix: tevm: a failure of the fallback chain must not
 leave part of a transaction

---
 tevm/evm.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index f4a5895..20cc7c8 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -458,6 +458,16 @@ func (s *gethState) RevertToSnapshot(v int) {
 	snaps = snaps[:v]
 }
 
+// undo (when deferred) goes back to the snapshot if the caller panics, which
+// it does when the state of the fallback chain cannot be read
+func (s *gethState) undo(snap int) {
+	if e := recover(); e != nil {
+		s.RevertToSnapshot(snap)
+		s.destroyed = nil
+		panic(e)
+	}
+}
+
 func (s *gethState) Snapshot() int {
 	if s.Trace != nil {
 		s.Trace("Snapshot")
@@ -845,6 +855,8 @@ func (c *Chain) evm(sender [20]byte) *vm.EVM {
 func (c *Chain) Create(sender *seth.Address, code []byte) (seth.Address, error) {
 	c.mu.Lock()
 	defer c.mu.Unlock()
+	st := (*gethState)(&c.State)
+	defer st.undo(st.Snapshot())
 	_, addr, _, err := c.evm(*sender).Create(s2r(sender), code, defaultGasLimit, &zero)
 	((*gethState)(&c.State)).finalise()
 	return seth.Address(addr), err
@@ -858,7 +870,9 @@ func (c *Chain) CreateAt(addr, sender *seth.Address, code []byte) error {
 	defer c.mu.Unlock()
 
 	evm := c.evm(*sender)
-	snap := evm.StateDB.Snapshot()
+	st := (*gethState)(&c.State)
+	snap := st.Snapshot()
+	defer st.undo(snap)
 	evm.StateDB.CreateAccount(common.Address(*addr))
 	evm.StateDB.SetNonce(common.Address(*addr), 1)
 
@@ -888,6 +902,8 @@ func (c *Chain) CreateAt(addr, sender *seth.Address, code []byte) error {
 func (c *Chain) Call(sender, dst *seth.Address, sig string, args ...seth.EtherType) ([]byte, error) {
 	c.mu.Lock()
 	defer c.mu.Unlock()
+	st := (*gethState)(&c.State)
+	defer st.undo(st.Snapshot())
 	ret, _, err := c.evm(*sender).Call(s2r(sender), common.Address(*dst), seth.ABIEncode(sig, args...), defaultGasLimit, &zero)
 	((*gethState)(&c.State)).finalise()
 	return ret, err
@@ -926,6 +942,8 @@ func (c *Chain) EstimateGas(sender, dst *seth.Address, sig string, args ...seth.
 func (c *Chain) Send(sender, dst *seth.Address, value *big.Int) error {
 	c.mu.Lock()
 	defer c.mu.Unlock()
+	st := (*gethState)(&c.State)
+	defer st.undo(st.Snapshot())
 	_, _, err := c.evm(*sender).Call(s2r(sender), common.Address(*dst), nil, defaultGasLimit, value)
 	((*gethState)(&c.State)).finalise()
 	return err
@@ -1011,6 +1029,8 @@ func (c *Chain) mine(tx *seth.Transaction) (ret []byte, h seth.Hash, err error)
 	tx.Hash = seth.HashBytes(bh[:])
 	h = tx.Hash
 
+	st := (*gethState)(&c.State)
+	defer st.undo(st.Snapshot())
 	l0 := len(c.State.Logs)
 
 	var gas uint64
-- 
2.43.0


From 60e5fac0e62bf150cd03a29db526f9667fffe011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:59 +0000
Subject: [PATCH 97/98] fix: Chain.Logs: do not hand out the memory of the
 chain's logs

---
 tevm/evm.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 20cc7c8..46435bf 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -656,15 +656,17 @@ func (c *Chain) atBlock(n int64) *Chain {
 	return cc
 }
 
+// l2l converts a log; the two share no memory
 func l2l(l *types.Log, sl *seth.Log) {
 	sl.Address = seth.Address(l.Address)
 	sl.Topics = make([]seth.Data, len(l.Topics))
 	for i := range l.Topics {
-		sl.Topics[i] = seth.Data(l.Topics[i][:])
+		sl.Topics[i] = append(seth.Data{}, l.Topics[i][:]...)
 	}
-	sl.Data = seth.Data(l.Data)
-	sl.BlockHash = (*seth.Hash)(&l.BlockHash)
-	sl.TxHash = (*seth.Hash)(&l.TxHash)
+	sl.Data = append(seth.Data{}, l.Data...)
+	bh, th := seth.Hash(l.BlockHash), seth.Hash(l.TxHash)
+	sl.BlockHash = &bh
+	sl.TxHash = &th
 	index := seth.Uint64(l.Index)
 	sl.LogIndex = &index
 	txindex := seth.Uint64(l.TxIndex)
-- 
2.43.0


From bfdb5bef53d849a74021bf81e8d07908478a5f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:00 +0000
Subject: [PATCH 98/98] fix: eth call: refuse a negative gas price, and do not
 let a high one wrap around

---
 cmd/eth/call.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmd/eth/call.go b/cmd/eth/call.go
index d943c11..8d3347d 100644
--- a/cmd/eth/call.go
+++ b/cmd/eth/call.go
@@ -244,11 +244,17 @@ func call(fs *flag.FlagSet) {
 		fatalf("signature wants %d arguments, but %d were provided\n", len(callargs), len(args[2:]))
 	}
 
+	if gweicall < 0 {
+		fatalf("negative gas price %d\n", gweicall)
+	}
+	price := big.NewInt(int64(gweicall))
+	price.Mul(price, big.NewInt(1e9))
+
 	sign, from := signer()
 	opts := seth.CallOpts{
 		From:     &from,
 		To:       addr,
-		GasPrice: seth.NewInt(int64(gweicall) * 1e9),
+		GasPrice: (*seth.Int)(price),
 	}
 	if noncecall >= 0 {
 		u := seth.Uint64(noncecall)
-- 
2.43.0

