From 4e66cac841f069b02fc8931e38899c12ef3d1f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 01/42] fix: LruCache with a capacity of one dereferences a
 null pointer

With Capacity == 1 the tail of the LRU queue has no predecessor, and inserting
the first element crashed. Also, Clear() formed a reference to the element
behind the last entry.
---
 cpp/common/lru_cache.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cpp/common/lru_cache.h b/cpp/common/lru_cache.h
index 036e4dd..3bcf678 100644
--- a/cpp/common/lru_cache.h
+++ b/cpp/common/lru_cache.h
@@ -84,7 +84,7 @@ class LruCache {
     entries_.resize(Capacity);
     for (size_t i = 0; i < entries_.size(); i++) {
       entries_[i].pred = i > 0 ? &entries_[i - 1] : nullptr;
-      entries_[i].succ = i < entries_.size() ? &entries_[i + 1] : nullptr;
+      entries_[i].succ = i + 1 < entries_.size() ? &entries_[i + 1] : nullptr;
     }
     head_ = &entries_[0];
     tail_ = &entries_[Capacity - 1];
@@ -123,6 +123,12 @@ class LruCache {
   }
 
   Entry* GetNewHead() {
+    // With a single entry, the tail is the head as well and is re-used in place.
+    if (tail_ == head_) {
+      index_.clear();
+      return head_;
+    }
+
     // Remove tail element.
     auto new_tail = tail_->pred;
     new_tail->succ = nullptr;
-- 
2.43.0


From 546d71859ba8d641a37e7a8ad4f2f1defb6fce3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:17 +0000
Subject: [PATCH 02/42] fix: evmzero reports an oversized init code as an
 interpreter error

The generic EVMC_FAILURE status is not a contract failure for the Go adapter,
so a contract executing CREATE with more than 49152 bytes of init code made
the interpreter return an error instead of an unsuccessful result.
---
 cpp/vm/evmzero/evmzero.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/vm/evmzero/evmzero.cc b/cpp/vm/evmzero/evmzero.cc
index 0781950..2befbc8 100644
--- a/cpp/vm/evmzero/evmzero.cc
+++ b/cpp/vm/evmzero/evmzero.cc
@@ -56,7 +56,8 @@ evmc_status_code ToEvmcStatusCode(RunState state) {
     case RunState::kErrorStaticCall:
       return EVMC_STATIC_MODE_VIOLATION;
     case RunState::kErrorInitCodeSizeExceeded:
-      return EVMC_FAILURE;
+      // EIP-3860: exceeding the limit is an exceptional abort, like running out of gas.
+      return EVMC_OUT_OF_GAS;
   }
   return EVMC_FAILURE;
 }
-- 
2.43.0


From d001af46cdaafefdebeb721f1f16f7b655312157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:43 +0000
Subject: [PATCH 03/42] fix: lfvm's SWAP2_SWAP1_POP_JUMP truncates the jump
 destination

Destinations beyond 2^31 were truncated, so that a jump to an invalid
destination either succeeded or ended in an index-out-of-range panic.
---
 go/interpreter/lfvm/super_instructions.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/go/interpreter/lfvm/super_instructions.go b/go/interpreter/lfvm/super_instructions.go
index 5ce7b50..bdc9483 100644
--- a/go/interpreter/lfvm/super_instructions.go
+++ b/go/interpreter/lfvm/super_instructions.go
@@ -11,6 +11,7 @@
 package lfvm
 
 import (
+	"math"
 	"math/bits"
 
 	"github.com/holiman/uint256"
@@ -121,6 +122,10 @@ func opSwap2_Swap1_Pop_Jump(c *context) error {
 	top := c.stack.pop()
 	c.stack.pop()
 	trg := c.stack.peek()
+	// overflow check
+	if !trg.IsUint64() || trg.Uint64() > math.MaxInt32 {
+		return errInvalidJump
+	}
 	c.pc = int32(trg.Uint64()) - 1
 	*trg = *top
 	return checkJumpDest(c)
-- 
2.43.0


From 96fdf15208c8ae5db8e2a3f741320062495fae80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:31 +0000
Subject: [PATCH 04/42] fix: evmzero derives a wild pointer for an empty memory
 span

The offset of an empty memory region is arbitrary. A LOG without data on an
empty memory passed its offset as data pointer to the host. Hosts written in
Go are stopped by their runtime when it finds an invalid pointer on a stack.
---
 cpp/vm/evmzero/memory.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cpp/vm/evmzero/memory.h b/cpp/vm/evmzero/memory.h
index 17d0aca..a1f45f4 100644
--- a/cpp/vm/evmzero/memory.h
+++ b/cpp/vm/evmzero/memory.h
@@ -35,8 +35,12 @@ class Memory {
   uint64_t GetSize() const { return memory_.size(); }
 
   // Get a span for the given memory offset and size that can be used for
-  // reading or writing. Grows memory automatically, unless size == 0.
+  // reading or writing. Grows memory automatically, unless size == 0. The
+  // offset of an empty span is not limited, so no pointer is derived from it.
   std::span<uint8_t> GetSpan(uint64_t offset, uint64_t size) {
+    if (size == 0) {
+      return {};
+    }
     Grow(offset, size);
     return {memory_.data() + offset, size};
   }
-- 
2.43.0


From d926824be50d22836d80dd309c45b9c858ef8bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:47 +0000
Subject: [PATCH 05/42] fix: lfvm's hash cache reads an entry after releasing
 its lock

---
 go/interpreter/lfvm/hash_cache.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/go/interpreter/lfvm/hash_cache.go b/go/interpreter/lfvm/hash_cache.go
index f6b651d..700bacc 100644
--- a/go/interpreter/lfvm/hash_cache.go
+++ b/go/interpreter/lfvm/hash_cache.go
@@ -108,8 +108,10 @@ func (h *hashCache[K]) getHash(key K) tosca.Hash {
 			h.head.pred = entry
 			h.head = entry
 		}
+		// The entry may be recycled as soon as the lock is released.
+		hash := entry.hash
 		h.lock.Unlock()
-		return entry.hash
+		return hash
 	}
 
 	// Compute the hash without holding the lock.
-- 
2.43.0


From 4bdb05e249c621c9f555162cb8aa8583b9e0bb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:47 +0000
Subject: [PATCH 06/42] fix: the hash of an account's code in a CT state is
 always zero

---
 go/ct/st/accounts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/ct/st/accounts.go b/go/ct/st/accounts.go
index 5569c6b..b59f31f 100644
--- a/go/ct/st/accounts.go
+++ b/go/ct/st/accounts.go
@@ -79,7 +79,7 @@ func (a *Accounts) GetCode(address tosca.Address) Bytes {
 func (a *Accounts) GetCodeHash(address tosca.Address) (hash [32]byte) {
 	hasher := sha3.NewLegacyKeccak256()
 	_, _ = hasher.Write(a.GetCode(address).ToBytes()) // Hash.Write never returns an error
-	hasher.Sum(hash[:])
+	hasher.Sum(hash[:0])
 	return
 }
 
-- 
2.43.0


From f7606238d3c8a34e8e0ebcc4f20a4722f4bb3d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:47 +0000
Subject: [PATCH 07/42] fix: comparing CT storages distinguishes absent from
 zero original values

The values cannot be told apart by the accessors, and Diff reported no
difference for storages considered different by Eq.
---
 go/ct/st/storage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/ct/st/storage.go b/go/ct/st/storage.go
index 650c71e..5c98787 100644
--- a/go/ct/st/storage.go
+++ b/go/ct/st/storage.go
@@ -157,7 +157,7 @@ func mapEqualIgnoringZeroValues[K comparable](a map[K]U256, b map[K]U256) bool {
 
 func (a *Storage) Eq(b *Storage) bool {
 	return mapEqualIgnoringZeroValues(a.current, b.current) &&
-		maps.Equal(a.original, b.original) &&
+		mapEqualIgnoringZeroValues(a.original, b.original) &&
 		maps.Equal(a.warm, b.warm)
 }
 
-- 
2.43.0


From d8d456136d56fa08d3b4187b407a116b984beaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:47 +0000
Subject: [PATCH 08/42] fix: reusing a released CT stack of small capacity
 panics

Stacks of new states and clones exceeding the capacity of a pooled stack are
allocated with a small capacity. Once released, the next user of the pool is
handed a stack that cannot be resized.
---
 go/ct/st/stack.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/go/ct/st/stack.go b/go/ct/st/stack.go
index 5815059..8afa64f 100644
--- a/go/ct/st/stack.go
+++ b/go/ct/st/stack.go
@@ -48,7 +48,7 @@ func NewStackWithSize(size int) *Stack {
 	if MaxStackSize < size {
 		panic("Warning: maximal stack size exceeded")
 	}
-	stack.stack = stack.stack[:size]
+	stack.Resize(size)
 	return stack
 }
 
@@ -72,6 +72,12 @@ func (s *Stack) Resize(size int) {
 	if MaxStackSize < size {
 		panic("Warning: maximal stack size exceeded")
 	}
+	if cap(s.stack) < size {
+		// Not all stacks are allocated with the maximal capacity.
+		resized := make([]U256, size, MaxStackSize)
+		copy(resized, s.stack)
+		s.stack = resized
+	}
 	s.stack = s.stack[:size]
 }
 
-- 
2.43.0


From ed2eee1e79976be2f8dda8d7b19aced2cfecf06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:47 +0000
Subject: [PATCH 09/42] fix: RandU256Between ignores the random source for the
 full range

---
 go/ct/common/u256.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/go/ct/common/u256.go b/go/ct/common/u256.go
index e338a96..d211657 100644
--- a/go/ct/common/u256.go
+++ b/go/ct/common/u256.go
@@ -86,6 +86,9 @@ func RandU256Between(rnd *rand.Rand, min, max U256) U256 {
 	}
 	// Calculate the range
 	rangeValue := max.Sub(min).Add(NewU256(1))
+	if rangeValue.IsZero() { // the range covers all values
+		return RandU256(rnd)
+	}
 	// Generate a random value within the range
 	randValue := RandU256(rnd).Mod(rangeValue)
 	// Add the min value to the random value
-- 
2.43.0


From e1a34de54f487b34a7d47948f724940330ef07e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:04 +0000
Subject: [PATCH 10/42] fix: the CT specification has no rule for some states

No rule covered JUMP and JUMPI with too little gas and an invalid destination
or a zero condition, LOG and SSTORE with too little gas in read-only mode,
SSTORE with exactly 2300 gas, SSTORE of the current value to a cold slot, and
PUSH0 before Shanghai with too little gas or a (nearly) full stack.
---
 go/ct/spc/specification.go | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/go/ct/spc/specification.go b/go/ct/spc/specification.go
index f8f6458..f1ffb22 100644
--- a/go/ct/spc/specification.go
+++ b/go/ct/spc/specification.go
@@ -502,7 +502,7 @@ func getAllRules() []Rule {
 		// Certain storage configurations imply warm access. Not all
 		// combinations are possible; invalid ones are marked below.
 
-		// {revision: tosca.R09_Berlin, warm: false, config: tosca.StorageAssigned, gasCost: 2200}, // invalid
+		{revision: tosca.R09_Berlin, warm: false, config: tosca.StorageAssigned, gasCost: 2200},
 		{revision: tosca.R09_Berlin, warm: false, config: tosca.StorageAdded, gasCost: 22100},
 		// {revision: tosca.R09_Berlin, warm: false, config: tosca.StorageAddedDeleted, gasCost: 2200, gasRefund: 19900},     // invalid
 		// {revision: tosca.R09_Berlin, warm: false, config: tosca.StorageDeletedRestored, gasCost: 2200, gasRefund: -10800}, // invalid
@@ -527,7 +527,7 @@ func getAllRules() []Rule {
 		// Certain storage configurations imply warm access. Not all
 		// combinations are possible; invalid ones are marked below.
 		sstoreRules = append(sstoreRules, []sstoreOpParams{
-			// {revision: rev, warm: false, config: tosca.StorageAssigned, gasCost: 2200}, // invalid
+			{revision: rev, warm: false, config: tosca.StorageAssigned, gasCost: 2200},
 			{revision: rev, warm: false, config: tosca.StorageAdded, gasCost: 22100},
 			// {revision: rev, warm: false, config: tosca.StorageAddedDeleted, gasCost: 2200, gasRefund: 19900},  // invalid
 			// {revision: rev, warm: false, config: tosca.StorageDeletedRestored, gasCost: 2200, gasRefund: 100}, // invalid
@@ -555,7 +555,7 @@ func getAllRules() []Rule {
 		rules = append(rules, sstoreOpReadOnlyMode(params))
 	}
 
-	rules = append(rules, tooLittleGas(instruction{op: vm.SSTORE, staticGas: 2300, name: "_EIP2200"})...)
+	rules = append(rules, tooLittleGas(instruction{op: vm.SSTORE, staticGas: 2301, name: "_EIP2200"})...)
 	rules = append(rules, tooFewElements(instruction{op: vm.SSTORE, staticGas: 2, pops: 2})...)
 
 	// --- JUMP ---
@@ -585,7 +585,6 @@ func getAllRules() []Rule {
 				AnyKnownRevision(),
 				Eq(Status(), st.Running),
 				Eq(Op(Pc()), vm.JUMP),
-				Ge(Gas(), 8),
 				Ge(StackSize(), 1),
 				IsData(Param(0)),
 			),
@@ -601,7 +600,6 @@ func getAllRules() []Rule {
 				AnyKnownRevision(),
 				Eq(Status(), st.Running),
 				Eq(Op(Pc()), vm.JUMP),
-				Ge(Gas(), 8),
 				Ge(StackSize(), 1),
 				IsCode(Param(0)),
 				Ne(Op(Param(0)), vm.JUMPDEST),
@@ -652,13 +650,25 @@ func getAllRules() []Rule {
 			}),
 		},
 
+		{
+			Name: "jumpi_not_taken_with_too_little_gas",
+			Condition: And(
+				AnyKnownRevision(),
+				Eq(Status(), st.Running),
+				Eq(Op(Pc()), vm.JUMPI),
+				Lt(Gas(), 10),
+				Ge(StackSize(), 2),
+				Eq(Param(1), NewU256(0)),
+			),
+			Effect: FailEffect(),
+		},
+
 		{
 			Name: "jumpi_to_data",
 			Condition: And(
 				AnyKnownRevision(),
 				Eq(Status(), st.Running),
 				Eq(Op(Pc()), vm.JUMPI),
-				Ge(Gas(), 10),
 				Ge(StackSize(), 2),
 				IsData(Param(0)),
 				Ne(Param(1), NewU256(0)),
@@ -676,7 +686,6 @@ func getAllRules() []Rule {
 				AnyKnownRevision(),
 				Eq(Status(), st.Running),
 				Eq(Op(Pc()), vm.JUMPI),
-				Ge(Gas(), 10),
 				Ge(StackSize(), 2),
 				IsCode(Param(0)),
 				Ne(Op(Param(0)), vm.JUMPDEST),
@@ -868,8 +877,6 @@ func getAllRules() []Rule {
 				RevisionBounds(tosca.R07_Istanbul, tosca.R11_Paris),
 				Eq(Status(), st.Running),
 				Eq(Op(Pc()), vm.PUSH0),
-				Ge(Gas(), 2),
-				Lt(StackSize(), st.MaxStackSize-1),
 			),
 			Effect: FailEffect(),
 		},
@@ -2102,16 +2109,10 @@ func sstoreOpTooLittleGas(params sstoreOpParams) Rule {
 func sstoreOpReadOnlyMode(params sstoreOpParams) Rule {
 	name := fmt.Sprintf("sstore_in_read_only_mode_%v_%v", params.revision, params.config)
 
-	gasLimit := tosca.Gas(2301) // EIP2200
-	if params.gasCost > gasLimit {
-		gasLimit = params.gasCost
-	}
-
 	conditions := []Condition{
 		IsRevision(params.revision),
 		Eq(Status(), st.Running),
 		Eq(Op(Pc()), vm.SSTORE),
-		Ge(Gas(), gasLimit),
 		Eq(ReadOnly(), true),
 		Ge(StackSize(), 2),
 		StorageConfiguration(params.config, Param(0), Param(1)),
@@ -2181,7 +2182,6 @@ func logOp(n int) []Rule {
 		AnyKnownRevision(),
 		Eq(Status(), st.Running),
 		Eq(Op(Pc()), op),
-		Ge(Gas(), minGas),
 		Eq(ReadOnly(), true),
 		Ge(StackSize(), 2+n),
 	}
-- 
2.43.0


From 212aa289267a0f023605779b73cfc665aca66f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:12 +0000
Subject: [PATCH 11/42] fix: CT state generation depends on map order and the
 global random source

Generators iterate over maps while drawing from the random source, and the
account generator draws from the global one, so that the same seed and
constraints lead to different states.
---
 go/ct/gen/accounts.go            | 19 ++++++++++++++-----
 go/ct/gen/assignment.go          | 12 ++++++++++++
 go/ct/gen/block_context.go       |  3 ++-
 go/ct/gen/transaction_context.go |  3 ++-
 go/ct/gen/transient_storage.go   |  3 ++-
 5 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/go/ct/gen/accounts.go b/go/ct/gen/accounts.go
index c5ed458..769dc12 100644
--- a/go/ct/gen/accounts.go
+++ b/go/ct/gen/accounts.go
@@ -11,6 +11,7 @@
 package gen
 
 import (
+	"bytes"
 	"fmt"
 	"slices"
 	"sort"
@@ -206,12 +207,12 @@ func (g *AccountsGenerator) Generate(assignment Assignment, rnd *rand.Rand, acco
 			nonEmptyAccounts[address] = struct{}{}
 		}
 	}
-	for address := range emptyAccounts {
+	for _, address := range sortedAddresses(emptyAccounts) {
 		accountsBuilder.SetBalance(address, NewU256(0))
 		accountsBuilder.SetCode(address, Bytes{})
 	}
-	for address := range nonEmptyAccounts {
-		switch rand.Intn(3) {
+	for _, address := range sortedAddresses(nonEmptyAccounts) {
+		switch rnd.Intn(3) {
 		case 0:
 			accountsBuilder.SetBalance(address, NewU256(1))
 		case 1:
@@ -292,8 +293,8 @@ func (g *AccountsGenerator) processBalanceConstraints(
 	}
 
 	// Get list of all accounts to be resolved.
-	accounts := maps.Keys(lowerBounds)
-	for _, address := range maps.Keys(upperBounds) {
+	accounts := sortedAddresses(lowerBounds)
+	for _, address := range sortedAddresses(upperBounds) {
 		if _, isPresent := lowerBounds[address]; !isPresent {
 			accounts = append(accounts, address)
 		}
@@ -321,6 +322,14 @@ func (g *AccountsGenerator) processBalanceConstraints(
 	return nil
 }
 
+// sortedAddresses returns the addresses in the given map in a fixed order, such
+// that the results of a generation depend on its random source only.
+func sortedAddresses[T any](set map[tosca.Address]T) []tosca.Address {
+	res := maps.Keys(set)
+	slices.SortFunc(res, func(a, b tosca.Address) int { return bytes.Compare(a[:], b[:]) })
+	return res
+}
+
 type emptyConstraint struct {
 	address Variable
 	empty   bool
diff --git a/go/ct/gen/assignment.go b/go/ct/gen/assignment.go
index c7b6f76..6dc30b4 100644
--- a/go/ct/gen/assignment.go
+++ b/go/ct/gen/assignment.go
@@ -12,6 +12,7 @@ package gen
 
 import (
 	"fmt"
+	"slices"
 	"sort"
 	"strings"
 
@@ -53,3 +54,14 @@ func (a Assignment) String() string {
 
 	return "{" + strings.Join(entries, ",") + "}"
 }
+
+// sortedVariables returns the variables in the given map in a fixed order, such
+// that the results of a generation depend on its random source only.
+func sortedVariables[T any](set map[Variable]T) []Variable {
+	res := make([]Variable, 0, len(set))
+	for variable := range set {
+		res = append(res, variable)
+	}
+	slices.Sort(res)
+	return res
+}
diff --git a/go/ct/gen/block_context.go b/go/ct/gen/block_context.go
index a440a86..5280d37 100644
--- a/go/ct/gen/block_context.go
+++ b/go/ct/gen/block_context.go
@@ -148,7 +148,8 @@ func (b *BlockContextGenerator) bindVariablesInRangeConstraints(resultingBlockNu
 	upperBound := resultingBlockNumber
 	blockNumberRangeGenerator := NewRangeSolver(lowerBound, upperBound-1)
 
-	for variable, inRange := range b.rangeConstraints {
+	for _, variable := range sortedVariables(b.rangeConstraints) {
+		inRange := b.rangeConstraints[variable]
 		if currentValue, isBound := assignment[variable]; isBound {
 			if inRange != isInRange(lowerBound, currentValue, upperBound) {
 				return ErrUnsatisfiable
diff --git a/go/ct/gen/transaction_context.go b/go/ct/gen/transaction_context.go
index 114e2d4..6139098 100644
--- a/go/ct/gen/transaction_context.go
+++ b/go/ct/gen/transaction_context.go
@@ -68,7 +68,8 @@ func (t *TransactionContextGenerator) Generate(assignment Assignment, rnd *rand.
 	if minMustNotHaveBlobHash != 0 {
 		blobHashesCount += 1
 	}
-	for variable, hasBlobHash := range t.blobHashVariables {
+	for _, variable := range sortedVariables(t.blobHashVariables) {
+		hasBlobHash := t.blobHashVariables[variable]
 		// the bounded variables are dealt with above
 		if _, isBound := assignment[variable]; !isBound {
 			newValueRangeSolver := NewRangeSolver(0, blobHashesCount-1)
diff --git a/go/ct/gen/transient_storage.go b/go/ct/gen/transient_storage.go
index 71d5599..8e3dbb3 100644
--- a/go/ct/gen/transient_storage.go
+++ b/go/ct/gen/transient_storage.go
@@ -80,7 +80,8 @@ func (t *TransientStorageGenerator) Generate(assignment Assignment, rnd *rand.Ra
 	transientStorage := &st.TransientStorage{}
 
 	// Process zero/nonZero constraints.
-	for variable, nonZero := range t.nonZeroConstraints {
+	for _, variable := range sortedVariables(t.nonZeroConstraints) {
+		nonZero := t.nonZeroConstraints[variable]
 
 		// Check different assignments with the same key whether they conflict
 		if _, isBound := assignment[variable]; isBound {
-- 
2.43.0


From 203160979addd1da888406c9832b2752c84c7b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:24 +0000
Subject: [PATCH 12/42] fix: Lt and Gt over-restrict CT generators

Both restricted to less than the predecessor and more than the successor of
their bound, making constraints like stackSize < 1 unsatisfiable; bounds at the
ends of the balance range wrapped around and were ignored.
---
 go/ct/rlz/conditions.go  |  6 ++----
 go/ct/rlz/expressions.go | 10 ++++++++++
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/go/ct/rlz/conditions.go b/go/ct/rlz/conditions.go
index b30dfc8..013bb82 100644
--- a/go/ct/rlz/conditions.go
+++ b/go/ct/rlz/conditions.go
@@ -199,8 +199,7 @@ func (c *lt[T]) Check(s *st.State) (bool, error) {
 }
 
 func (c *lt[T]) Restrict(generator *gen.StateGenerator) {
-	domain := c.lhs.Domain()
-	c.lhs.Restrict(RestrictLess, domain.Predecessor(c.rhs), generator)
+	c.lhs.Restrict(RestrictLess, c.rhs, generator)
 }
 
 func (c *lt[T]) GetTestValues() []TestValue {
@@ -266,8 +265,7 @@ func (c *gt[T]) Check(s *st.State) (bool, error) {
 }
 
 func (c *gt[T]) Restrict(generator *gen.StateGenerator) {
-	domain := c.lhs.Domain()
-	c.lhs.Restrict(RestrictGreater, domain.Successor(c.rhs), generator)
+	c.lhs.Restrict(RestrictGreater, c.rhs, generator)
 }
 
 func (c *gt[T]) GetTestValues() []TestValue {
diff --git a/go/ct/rlz/expressions.go b/go/ct/rlz/expressions.go
index 3f7cb7e..d121407 100644
--- a/go/ct/rlz/expressions.go
+++ b/go/ct/rlz/expressions.go
@@ -252,6 +252,11 @@ func (b balance) Restrict(kind RestrictionKind, value U256, generator *gen.State
 
 	switch kind {
 	case RestrictLess:
+		if value.IsZero() { // there is no such balance
+			generator.AddBalanceLowerBound(variable, NewU256(1))
+			generator.AddBalanceUpperBound(variable, NewU256(0))
+			return
+		}
 		generator.AddBalanceUpperBound(variable, value.Sub(NewU256(1)))
 	case RestrictLessEqual:
 		generator.AddBalanceUpperBound(variable, value)
@@ -261,6 +266,11 @@ func (b balance) Restrict(kind RestrictionKind, value U256, generator *gen.State
 	case RestrictGreaterEqual:
 		generator.AddBalanceLowerBound(variable, value)
 	case RestrictGreater:
+		if value == MaxU256() { // there is no such balance
+			generator.AddBalanceLowerBound(variable, NewU256(1))
+			generator.AddBalanceUpperBound(variable, NewU256(0))
+			return
+		}
 		generator.AddBalanceLowerBound(variable, value.Add(NewU256(1)))
 	}
 }
-- 
2.43.0


From d6a8f332f89f69466256e629c2ec48ee6b625785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:17 +0000
Subject: [PATCH 13/42] fix: CT generators violate constraints on variables
 that share a value

Warm/cold, storage and blob hash constraints of different variables with the
same value were not checked for conflicts, non-empty accounts could be left
empty by balance constraints, and the smallest block number offset overflowed.
---
 go/ct/gen/accounts.go            | 12 ++++++++++++
 go/ct/gen/block_context.go       | 13 +++++++++++--
 go/ct/gen/storage.go             | 10 ++++++++++
 go/ct/gen/transaction_context.go | 20 ++++++++++----------
 go/ct/st/accounts.go             |  4 ++++
 5 files changed, 47 insertions(+), 12 deletions(-)

diff --git a/go/ct/gen/accounts.go b/go/ct/gen/accounts.go
index 769dc12..49f406c 100644
--- a/go/ct/gen/accounts.go
+++ b/go/ct/gen/accounts.go
@@ -224,8 +224,13 @@ func (g *AccountsGenerator) Generate(assignment Assignment, rnd *rand.Rand, acco
 	}
 
 	// Process warm/cold constraints.
+	isWarm := map[tosca.Address]bool{}
 	for _, con := range g.warmCold {
 		address := getBoundOrBindNewAddress(con.key)
+		if warm, found := isWarm[address]; found && warm != con.warm {
+			return nil, fmt.Errorf("%w, address %v conflicting warm/cold constraints", ErrUnsatisfiable, address)
+		}
+		isWarm[address] = con.warm
 		if con.warm {
 			accountsBuilder.SetWarm(address)
 		}
@@ -241,6 +246,13 @@ func (g *AccountsGenerator) Generate(assignment Assignment, rnd *rand.Rand, acco
 		return nil, err
 	}
 
+	// Balance constraints may have left non-empty accounts without balance.
+	for address := range nonEmptyAccounts {
+		if accountsBuilder.IsEmpty(address) {
+			accountsBuilder.SetCode(address, NewBytes([]byte{1}))
+		}
+	}
+
 	// Some random entries.
 	for i, max := 0, rnd.Intn(5); i < max; i++ {
 		address := getUnusedAddress()
diff --git a/go/ct/gen/block_context.go b/go/ct/gen/block_context.go
index 5280d37..0f34616 100644
--- a/go/ct/gen/block_context.go
+++ b/go/ct/gen/block_context.go
@@ -122,7 +122,7 @@ func (b *BlockContextGenerator) generateBlockNumber(assignment Assignment, rnd *
 // bindVariablesInValueConstraints processes the fixed-value constraints on variables.
 func (b *BlockContextGenerator) bindVariablesInValueConstraints(assignment Assignment, resultingBlockNumber uint64) error {
 	for variable, offset := range b.valueConstraint {
-		requiredValue, underflow := addOffset(NewU256(resultingBlockNumber), -offset)
+		requiredValue, underflow := subOffset(NewU256(resultingBlockNumber), offset)
 		if underflow {
 			return ErrUnsatisfiable
 		}
@@ -416,6 +416,15 @@ func addOffset(value U256, offset int64) (result U256, hasOverflown bool) {
 	return result, result.Lt(value)
 }
 
+// subOffset subtracts an offset from a U256 value, checking for underflow.
+func subOffset(value U256, offset int64) (result U256, hasUnderflown bool) {
+	if offset == math.MinInt64 { // its negation is not an int64
+		result := value.Add(NewU256(1 << 63))
+		return result, result.Lt(value)
+	}
+	return addOffset(value, -offset)
+}
+
 // addWithOverflowCheck adds two uint64 values, checking for overflow.
 func addWithOverflowCheck(a, b uint64) (result uint64, hasOverflown bool) {
 	result = a + b
@@ -424,5 +433,5 @@ func addWithOverflowCheck(a, b uint64) (result uint64, hasOverflown bool) {
 
 func isInRange(lowerBound uint64, currentValue U256, upperBound uint64) bool {
 	value := currentValue.Uint64()
-	return currentValue.IsUint64() && lowerBound <= value && value <= upperBound
+	return currentValue.IsUint64() && lowerBound <= value && value < upperBound
 }
diff --git a/go/ct/gen/storage.go b/go/ct/gen/storage.go
index 20bbb33..121f26b 100644
--- a/go/ct/gen/storage.go
+++ b/go/ct/gen/storage.go
@@ -168,8 +168,13 @@ func (g *StorageGenerator) Generate(assignment Assignment, rnd *rand.Rand) (*st.
 	builder := st.NewStorageBuilder()
 
 	// Process storage configuration constraints.
+	configuredKeys := map[U256]bool{}
 	for _, con := range g.cfg {
 		key := getKey(con.key)
+		if configuredKeys[key] {
+			return nil, fmt.Errorf("%w, key %v conflicting storage configuration", ErrUnsatisfiable, key)
+		}
+		configuredKeys[key] = true
 
 		newValue, isBound := assignment[con.newValue]
 		if isBound {
@@ -228,8 +233,13 @@ func (g *StorageGenerator) Generate(assignment Assignment, rnd *rand.Rand) (*st.
 	}
 
 	// Process warm/cold constraints.
+	isWarm := map[U256]bool{}
 	for _, con := range g.warmCold {
 		key := getKey(con.key)
+		if warm, found := isWarm[key]; found && warm != con.warm {
+			return nil, fmt.Errorf("%w, key %v conflicting warm/cold constraints", ErrUnsatisfiable, key)
+		}
+		isWarm[key] = con.warm
 		if !builder.IsInOriginal(key) {
 			builder.SetOriginal(key, RandU256(rnd))
 			builder.SetCurrent(key, RandU256(rnd))
diff --git a/go/ct/gen/transaction_context.go b/go/ct/gen/transaction_context.go
index 6139098..b5cfb7d 100644
--- a/go/ct/gen/transaction_context.go
+++ b/go/ct/gen/transaction_context.go
@@ -38,18 +38,18 @@ func (t *TransactionContextGenerator) Generate(assignment Assignment, rnd *rand.
 		return nil, ErrUnsatisfiable
 	}
 
-	maxMustHaveBlobHash := uint64(0)
+	blobHashesCount := uint64(0)
 	minMustNotHaveBlobHash := uint64(math.MaxUint64)
 
 	// process all the bounded variables to find the maximum present and minimum absent values
 	for variable, hasBlobHash := range t.blobHashVariables {
 		if assignedValue, isBound := assignment[variable]; isBound {
 			if hasBlobHash {
-				if !assignedValue.IsUint64() {
+				if !assignedValue.IsUint64() || assignedValue.Uint64() == math.MaxUint64 {
 					return nil, ErrUnsatisfiable
 				}
-				if assignedValue.Uint64() > maxMustHaveBlobHash {
-					maxMustHaveBlobHash = assignedValue.Uint64()
+				if assignedValue.Uint64() >= blobHashesCount {
+					blobHashesCount = assignedValue.Uint64() + 1
 				}
 			} else {
 				if assignedValue.IsUint64() && assignedValue.Uint64() < minMustNotHaveBlobHash {
@@ -59,19 +59,19 @@ func (t *TransactionContextGenerator) Generate(assignment Assignment, rnd *rand.
 		}
 	}
 
-	if maxMustHaveBlobHash > minMustNotHaveBlobHash ||
-		maxMustHaveBlobHash == math.MaxUint64 {
+	if blobHashesCount > minMustNotHaveBlobHash {
 		return nil, ErrUnsatisfiable
 	}
-
-	blobHashesCount := maxMustHaveBlobHash
-	if minMustNotHaveBlobHash != 0 {
-		blobHashesCount += 1
+	if blobHashesCount == 0 && minMustNotHaveBlobHash != 0 {
+		blobHashesCount = 1
 	}
 	for _, variable := range sortedVariables(t.blobHashVariables) {
 		hasBlobHash := t.blobHashVariables[variable]
 		// the bounded variables are dealt with above
 		if _, isBound := assignment[variable]; !isBound {
+			if hasBlobHash && blobHashesCount == 0 {
+				return nil, ErrUnsatisfiable
+			}
 			newValueRangeSolver := NewRangeSolver(0, blobHashesCount-1)
 			if !hasBlobHash {
 				newValueRangeSolver = NewRangeSolver(blobHashesCount, math.MaxUint64)
diff --git a/go/ct/st/accounts.go b/go/ct/st/accounts.go
index b59f31f..2a80bcf 100644
--- a/go/ct/st/accounts.go
+++ b/go/ct/st/accounts.go
@@ -236,6 +236,10 @@ func (ab *AccountsBuilder) SetWarm(addr tosca.Address) *AccountsBuilder {
 	return ab
 }
 
+func (ab *AccountsBuilder) IsEmpty(addr tosca.Address) bool {
+	return ab.accounts.IsEmpty(addr)
+}
+
 func (ab *AccountsBuilder) Exists(addr tosca.Address) bool {
 	return ab.accounts.Exists(addr)
 }
-- 
2.43.0


From 62c82cd99b20d27892d95b10c0b70b025fbf3cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:38 +0000
Subject: [PATCH 14/42] fix: code constraints on bound variables move the
 variable

isCode and isData constraints on a variable that already has a value assigned
another position to it, such that other uses of the variable were violated.
Also, operations at position 0 or at the code size limit got no space.
---
 go/ct/gen/code.go | 49 ++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 38 insertions(+), 11 deletions(-)

diff --git a/go/ct/gen/code.go b/go/ct/gen/code.go
index dad12c5..7bc3dd6 100644
--- a/go/ct/gen/code.go
+++ b/go/ct/gen/code.go
@@ -90,7 +90,7 @@ func (g *CodeGenerator) Generate(assignment Assignment, rnd *rand.Rand) (*st.Cod
 	varOps := make([]varOpConstraint, 0, len(g.varOps))
 	for _, cur := range g.varOps {
 		if value, found := assignment[cur.variable]; found {
-			if !value.IsUint64() || value.Uint64() > st.MaxCodeSize {
+			if !value.IsUint64() || value.Uint64() >= st.MaxCodeSize {
 				return nil, fmt.Errorf("%w: unable to constrain code at position %v", ErrUnsatisfiable, value)
 			}
 			ops = append(ops, constOpConstraint{pos: int(value.Uint64()), op: cur.op})
@@ -102,7 +102,7 @@ func (g *CodeGenerator) Generate(assignment Assignment, rnd *rand.Rand) (*st.Cod
 	// Pick a random size that is large enough for all const constraints.
 	minSize := 0
 	for _, constraint := range ops {
-		if constraint.pos > minSize {
+		if constraint.pos >= minSize {
 			minSize = constraint.pos + 1
 		}
 	}
@@ -437,9 +437,14 @@ func (solver *varCodeConstraintSolver) solveIsCode(varIsCodeConstraints []varIsC
 			if !pos.Lt(NewU256(uint64(solver.codeSize))) {
 				return fmt.Errorf("%w, unable to satisfy isCode[%v], out-of-bounds", ErrUnsatisfiable, cur.variable)
 			}
-			if solver.usedPositions[int(pos.Uint64())] == isCode {
+			switch solver.usedPositions[int(pos.Uint64())] {
+			case isCode:
 				continue // already satisfied
+			case isData:
+				return fmt.Errorf("%w, unable to satisfy isCode[%v]", ErrUnsatisfiable, cur.variable)
 			}
+			solver.placeRandomOp(int(pos.Uint64()))
+			continue
 		}
 
 		// For the remaining variables, find a position and either populate an
@@ -458,11 +463,7 @@ func (solver *varCodeConstraintSolver) solveIsCode(varIsCodeConstraints []varIsC
 		}
 
 		if solver.usedPositions[pos] == isUnused {
-			// Pick a random op and lock it in.
-			randomOps := vm.ValidOpCodesNoPush()
-			op := randomOps[solver.rnd.Intn(len(randomOps))]
-			solver.markUsed(pos, op)
-			solver.ops = append(solver.ops, constOpConstraint{pos, op})
+			solver.placeRandomOp(pos)
 		}
 
 		solver.assign(cur.variable, pos)
@@ -470,14 +471,40 @@ func (solver *varCodeConstraintSolver) solveIsCode(varIsCodeConstraints []varIsC
 	return nil
 }
 
+// placeRandomOp picks a random op and locks it in at the given unused position.
+func (solver *varCodeConstraintSolver) placeRandomOp(pos int) {
+	randomOps := vm.ValidOpCodesNoPush()
+	op := randomOps[solver.rnd.Intn(len(randomOps))]
+	solver.markUsed(pos, op)
+	solver.ops = append(solver.ops, constOpConstraint{pos, op})
+}
+
+// placePushBefore locks in a PUSH1 op in front of the given unused position,
+// such that this position becomes data. It returns false if there is no unused
+// position to place the op at.
+func (solver *varCodeConstraintSolver) placePushBefore(pos int) bool {
+	if pos == 0 || solver.usedPositions[pos-1] != isUnused {
+		return false
+	}
+	solver.markUsed(pos-1, vm.PUSH1)
+	solver.ops = append(solver.ops, constOpConstraint{pos - 1, vm.PUSH1})
+	return true
+}
+
 func (solver *varCodeConstraintSolver) solveIsData(varIsDataConstraints []varIsDataConstraint) error {
 	for _, cur := range varIsDataConstraints {
-		// Check if the variable is already assigned and points to a slot marked
-		// as code. If so, we cannot satisfy this constraint!
+		// If the variable is already assigned, its position needs to be data
+		// already, or there needs to be space for an op making it so.
 		if pos, isAssigned := solver.assignment[cur.variable]; isAssigned {
-			if pos.Lt(NewU256(uint64(solver.codeSize))) && solver.usedPositions[int(pos.Uint64())] == isCode {
+			if !pos.Lt(NewU256(uint64(solver.codeSize))) {
+				return fmt.Errorf("%w, unable to satisfy isData[%v], out-of-bounds", ErrUnsatisfiable, cur.variable)
+			}
+			position := int(pos.Uint64())
+			used := solver.usedPositions[position]
+			if used == isCode || (used == isUnused && !solver.placePushBefore(position)) {
 				return fmt.Errorf("%w, unable to satisfy isData[%v]", ErrUnsatisfiable, cur.variable)
 			}
+			continue
 		}
 
 		// For the remaining variables, find a position and either populate an
-- 
2.43.0


From 810dc18e2e6f743eeb2e8401b09d46996646c9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:13 +0000
Subject: [PATCH 15/42] fix: CT conditions on different properties share one
 test dimension

---
 go/ct/rlz/conditions.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/go/ct/rlz/conditions.go b/go/ct/rlz/conditions.go
index 013bb82..988ea86 100644
--- a/go/ct/rlz/conditions.go
+++ b/go/ct/rlz/conditions.go
@@ -766,7 +766,7 @@ func (c *isAddressWarm) Restrict(generator *gen.StateGenerator) {
 }
 
 func (c *isAddressWarm) GetTestValues() []TestValue {
-	property := Property(fmt.Sprintf("warm(%v)", c.key))
+	property := Property(fmt.Sprintf("accountWarm(%v)", c.key))
 	return []TestValue{
 		NewTestValue(property, boolDomain{}, true, restrictAccountWarmCold(c.key)),
 	}
@@ -799,7 +799,7 @@ func (c *isAddressCold) Restrict(generator *gen.StateGenerator) {
 }
 
 func (c *isAddressCold) GetTestValues() []TestValue {
-	property := Property(fmt.Sprintf("warm(%v)", c.key))
+	property := Property(fmt.Sprintf("accountWarm(%v)", c.key))
 	return []TestValue{
 		NewTestValue(property, boolDomain{}, false, restrictAccountWarmCold(c.key)),
 	}
@@ -920,7 +920,7 @@ func (c *inRange256FromCurrentBlock) Restrict(generator *gen.StateGenerator) {
 }
 
 func (c *inRange256FromCurrentBlock) GetTestValues() []TestValue {
-	property := Property(c.String())
+	property := Property(fmt.Sprintf("blockNumberOffset(%v)", c.blockNumber))
 	domain := BlockNumberOffsetDomain{}
 	restrict := func(generator *gen.StateGenerator, offset int64) {
 		paramVariable := c.blockNumber.GetVariable()
-- 
2.43.0


From d4686fc5121456f2360a663dab874ff8569bf9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:13 +0000
Subject: [PATCH 16/42] fix: excluding the largest program counter in a CT
 condition panics

---
 go/ct/rlz/domains.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/go/ct/rlz/domains.go b/go/ct/rlz/domains.go
index f2b98e0..8c88d0e 100644
--- a/go/ct/rlz/domains.go
+++ b/go/ct/rlz/domains.go
@@ -260,11 +260,17 @@ func (statusCodeDomain) SamplesForAll(a []st.StatusCode) []st.StatusCode {
 
 type pcDomain struct{}
 
-func (pcDomain) Equal(a U256, b U256) bool     { return a.Eq(b) }
-func (pcDomain) Less(a U256, b U256) bool      { return a.Lt(b) }
-func (pcDomain) Predecessor(a U256) U256       { return a.Sub(NewU256(1)) }
-func (pcDomain) Successor(a U256) U256         { return a.Add(NewU256(1)) }
-func (pcDomain) SomethingNotEqual(a U256) U256 { return a.Add(NewU256(1)) }
+func (pcDomain) Equal(a U256, b U256) bool { return a.Eq(b) }
+func (pcDomain) Less(a U256, b U256) bool  { return a.Lt(b) }
+func (pcDomain) Predecessor(a U256) U256   { return a.Sub(NewU256(1)) }
+func (pcDomain) Successor(a U256) U256     { return a.Add(NewU256(1)) }
+
+func (pcDomain) SomethingNotEqual(a U256) U256 {
+	if a.Eq(NewU256(math.MaxUint16)) {
+		return NewU256(0) // program counters have 16 bits
+	}
+	return a.Add(NewU256(1))
+}
 
 func (d pcDomain) Samples(a U256) []U256 {
 	return d.SamplesForAll([]U256{a})
-- 
2.43.0


From fc4d1ba7e2d155cb5447bbaf2678c329f52632cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:11 +0000
Subject: [PATCH 17/42] fix: CT generator rarely satisfies conditions on the
 code at a fixed program counter

---
 go/ct/gen/state.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/go/ct/gen/state.go b/go/ct/gen/state.go
index 3ca99cb..01723d6 100644
--- a/go/ct/gen/state.go
+++ b/go/ct/gen/state.go
@@ -353,6 +353,15 @@ func (g *StateGenerator) generateWith(rnd *rand.Rand, assignment Assignment) (*s
 		return nil, fmt.Errorf("%w, multiple conflicting status constraints defined: %v", ErrUnsatisfiable, g.statusConstraints)
 	}
 
+	// A fixed program counter determines the variables bound to it.
+	if len(g.pcConstantConstraints) == 1 {
+		for _, variable := range g.pcVariableConstraints {
+			if _, found := assignment[variable]; !found {
+				assignment[variable] = NewU256(uint64(g.pcConstantConstraints[0]))
+			}
+		}
+	}
+
 	// Invoke CodeGenerator
 	resultCode, err := g.codeGen.Generate(assignment, rnd)
 	if err != nil {
-- 
2.43.0


From c82a5a67442541ae2313582baa442f5c8a22d605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:11 +0000
Subject: [PATCH 18/42] fix: CT generator leaves no space for data next to
 operations

---
 go/ct/gen/code.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/go/ct/gen/code.go b/go/ct/gen/code.go
index 7bc3dd6..395ba69 100644
--- a/go/ct/gen/code.go
+++ b/go/ct/gen/code.go
@@ -146,6 +146,12 @@ func (g *CodeGenerator) Generate(assignment Assignment, rnd *rand.Rand) (*st.Cod
 		}
 		size = *g.codeSize
 	} else {
+		// Operations may be placed such that they leave single bytes between them
+		// only. Data constraints need two consecutive ones.
+		if len(g.varIsDataConstraints) > 0 {
+			minSize += len(ops) + len(varOps) + len(g.varIsCodeConstraints) + 2
+		}
+
 		// We use an exponential distribution for the code size here since long codes
 		// extend the runtime but are expected to reveal limited extra code coverage.
 		const expectedSize float64 = 200
-- 
2.43.0


From 5a8b6360fc6b2f97f90f770d098fceb2f38816cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:04 +0000
Subject: [PATCH 19/42] fix: floria passes init code to itself as call data

The init code of a contract creation runs with empty call data;
CALLDATASIZE in a constructor reported the size of the init code.
---
 go/processor/floria/run_context.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/go/processor/floria/run_context.go b/go/processor/floria/run_context.go
index 64f6c15..3b14f40 100644
--- a/go/processor/floria/run_context.go
+++ b/go/processor/floria/run_context.go
@@ -47,11 +47,13 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 	}
 
 	recipient := parameters.Recipient
+	input := parameters.Input
 	var createdAddress tosca.Address
 	if kind == tosca.Create || kind == tosca.Create2 {
 		if parameters.Recipient == (tosca.Address{}) {
 			code = tosca.Code(parameters.Input)
 			codeHash = hashCode(code)
+			input = nil // init code is not its own call data
 		}
 		createdAddress = createAddress(
 			kind,
@@ -113,7 +115,7 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 		Gas:                   parameters.Gas,
 		Recipient:             recipient,
 		Sender:                parameters.Sender,
-		Input:                 parameters.Input,
+		Input:                 input,
 		Value:                 parameters.Value,
 		CodeHash:              &codeHash,
 		Code:                  code,
-- 
2.43.0


From 7b4d5470137b1b6c920d8e574e32d5db11c77481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:04 +0000
Subject: [PATCH 20/42] fix: a failed contract creation in floria leaves an
 account with nonce 1

The nonce of the new account was set before the snapshot was taken, such
that the address remained occupied after a failed creation.
---
 go/processor/floria/run_context.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/go/processor/floria/run_context.go b/go/processor/floria/run_context.go
index 3b14f40..1e9c542 100644
--- a/go/processor/floria/run_context.go
+++ b/go/processor/floria/run_context.go
@@ -69,7 +69,6 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 		}
 
 		r.SetNonce(parameters.Sender, r.GetNonce(parameters.Sender)+1)
-		r.SetNonce(createdAddress, 1)
 		recipient = createdAddress
 	}
 
@@ -79,6 +78,10 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 
 	snapshot := r.CreateSnapshot()
 
+	if kind == tosca.Create || kind == tosca.Create2 {
+		r.SetNonce(createdAddress, 1)
+	}
+
 	// StaticCall and DelegateCall do not transfer value
 	if kind != tosca.StaticCall && kind != tosca.DelegateCall {
 		if err := transferValue(r, parameters.Value, parameters.Sender, recipient); err != nil {
-- 
2.43.0


From dc8fa119261c13559c5adb421709eb941f264556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:04 +0000
Subject: [PATCH 21/42] fix: floria keeps the effects of a creation whose code
 is refused

A creation failing on the code size, the 0xEF prefix, or the deposit gas
is an unsuccessful call, whose effects must be reverted.
---
 go/processor/floria/run_context.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/go/processor/floria/run_context.go b/go/processor/floria/run_context.go
index 1e9c542..5de8fc8 100644
--- a/go/processor/floria/run_context.go
+++ b/go/processor/floria/run_context.go
@@ -130,13 +130,16 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 	} else if kind == tosca.Create || kind == tosca.Create2 {
 		code := result.Output
 		if len(code) > maxCodeSize {
+			r.RestoreSnapshot(snapshot)
 			return tosca.CallResult{}, nil
 		}
 		if r.blockParameters.Revision >= tosca.R10_London && len(code) > 0 && code[0] == 0xEF {
+			r.RestoreSnapshot(snapshot)
 			return tosca.CallResult{}, nil
 		}
 		createGas := tosca.Gas(len(result.Output) * createGasCostPerByte)
 		if result.GasLeft < createGas {
+			r.RestoreSnapshot(snapshot)
 			return tosca.CallResult{}, nil
 		}
 		result.GasLeft -= createGas
-- 
2.43.0


From a198139d9368a9ee8c5e0c21730d8595fad80cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:04 +0000
Subject: [PATCH 22/42] fix: floria keeps the value sent to a failing
 precompiled contract

---
 go/processor/floria/run_context.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/go/processor/floria/run_context.go b/go/processor/floria/run_context.go
index 5de8fc8..14b7ca5 100644
--- a/go/processor/floria/run_context.go
+++ b/go/processor/floria/run_context.go
@@ -93,11 +93,17 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 	output, isStatePrecompiled := handleStateContract(
 		r, parameters.Sender, parameters.Recipient, parameters.Input, parameters.Gas)
 	if isStatePrecompiled {
+		if !output.Success {
+			r.RestoreSnapshot(snapshot)
+		}
 		return output, nil
 	}
 	output, isPrecompiled := handlePrecompiledContract(
 		r.blockParameters.Revision, parameters.Input, recipient, parameters.Gas)
 	if isPrecompiled {
+		if !output.Success {
+			r.RestoreSnapshot(snapshot)
+		}
 		return output, nil
 	}
 
-- 
2.43.0


From d910dabbd493ec34e9e10e68562453f083b85a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:04 +0000
Subject: [PATCH 23/42] fix: a failing precompiled contract in floria returns
 gas

A precompiled contract that fails on its input consumes all the gas it got.
---
 go/processor/floria/precompiled.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/go/processor/floria/precompiled.go b/go/processor/floria/precompiled.go
index 7433356..fc61e86 100644
--- a/go/processor/floria/precompiled.go
+++ b/go/processor/floria/precompiled.go
@@ -27,9 +27,12 @@ func handlePrecompiledContract(revision tosca.Revision, input tosca.Data, addres
 	}
 	gas -= tosca.Gas(gasCost)
 	output, err := contract.Run(input)
+	if err != nil { // precompiled contracts only return errors on invalid input
+		return tosca.CallResult{}, true // all gas is consumed
+	}
 
 	return tosca.CallResult{
-		Success: err == nil, // precompiled contracts only return errors on invalid input
+		Success: true,
 		Output:  output,
 		GasLeft: gas,
 	}, true
-- 
2.43.0


From e46d9a2b4b59b0ef2a3fd326b70c8915a4c5211a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:04 +0000
Subject: [PATCH 24/42] fix: floria runs precompiled contracts whose costs
 exceed 2^63

The costs are unsigned; converted to Gas, the largest ones were negative,
which is always affordable, and increased the gas that was left.
---
 go/processor/floria/precompiled.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/processor/floria/precompiled.go b/go/processor/floria/precompiled.go
index fc61e86..0f81c36 100644
--- a/go/processor/floria/precompiled.go
+++ b/go/processor/floria/precompiled.go
@@ -22,7 +22,7 @@ func handlePrecompiledContract(revision tosca.Revision, input tosca.Data, addres
 		return tosca.CallResult{}, false
 	}
 	gasCost := contract.RequiredGas(input)
-	if gas < tosca.Gas(gasCost) {
+	if gas < 0 || uint64(gas) < gasCost { // costs may exceed the range of Gas
 		return tosca.CallResult{}, true
 	}
 	gas -= tosca.Gas(gasCost)
-- 
2.43.0


From f40cdb55897e27946654b0bd4a68b57fd4ab6549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:04 +0000
Subject: [PATCH 25/42] fix: floria ignores precompiled contracts in
 DELEGATECALL and CALLCODE

For those, the code address selects the contract and not the recipient,
which is the calling account.
---
 go/processor/floria/run_context.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/go/processor/floria/run_context.go b/go/processor/floria/run_context.go
index 14b7ca5..9dacd31 100644
--- a/go/processor/floria/run_context.go
+++ b/go/processor/floria/run_context.go
@@ -98,8 +98,12 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 		}
 		return output, nil
 	}
+	codeAddress := recipient
+	if kind == tosca.DelegateCall || kind == tosca.CallCode {
+		codeAddress = parameters.CodeAddress
+	}
 	output, isPrecompiled := handlePrecompiledContract(
-		r.blockParameters.Revision, parameters.Input, recipient, parameters.Gas)
+		r.blockParameters.Revision, parameters.Input, codeAddress, parameters.Gas)
 	if isPrecompiled {
 		if !output.Success {
 			r.RestoreSnapshot(snapshot)
-- 
2.43.0


From 8c953daeab4c0e535d1403fc71434874f7c21445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:04 +0000
Subject: [PATCH 26/42] fix: floria charges for transactions refused for their
 init code size

A refused transaction has an empty receipt and must not change the state.
---
 go/processor/floria/processor.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/go/processor/floria/processor.go b/go/processor/floria/processor.go
index d83080c..79ed4f0 100644
--- a/go/processor/floria/processor.go
+++ b/go/processor/floria/processor.go
@@ -64,6 +64,11 @@ func (p *processor) Run(
 		return tosca.Receipt{}, nil
 	}
 
+	if blockParameters.Revision >= tosca.R12_Shanghai && transaction.Recipient == nil &&
+		len(transaction.Input) > maxInitCodeSize {
+		return tosca.Receipt{}, nil
+	}
+
 	if err := buyGas(transaction, context); err != nil {
 		return tosca.Receipt{}, nil
 	}
@@ -74,11 +79,6 @@ func (p *processor) Run(
 	}
 	gas -= intrinsicGas
 
-	if blockParameters.Revision >= tosca.R12_Shanghai && transaction.Recipient == nil &&
-		len(transaction.Input) > maxInitCodeSize {
-		return tosca.Receipt{}, nil
-	}
-
 	transactionParameters := tosca.TransactionParameters{
 		Origin:     transaction.Sender,
 		GasPrice:   transaction.GasPrice,
-- 
2.43.0


From fc94325c6a7b6dd8ab7d87d46c82025b1fa0c03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:04 +0000
Subject: [PATCH 27/42] fix: floria computes gas costs modulo 2^256

A transaction with a huge gas price was executed for a fraction of its costs.
---
 go/processor/floria/processor.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/go/processor/floria/processor.go b/go/processor/floria/processor.go
index 79ed4f0..9f1d364 100644
--- a/go/processor/floria/processor.go
+++ b/go/processor/floria/processor.go
@@ -12,6 +12,7 @@ package floria
 
 import (
 	"fmt"
+	"math/big"
 
 	"github.com/Fantom-foundation/Tosca/go/tosca"
 )
@@ -272,6 +273,12 @@ func setupGasBilling(transaction tosca.Transaction) tosca.Gas {
 
 func buyGas(transaction tosca.Transaction, context tosca.TransactionContext) error {
 	gas := transaction.GasPrice.Scale(uint64(transaction.GasLimit))
+	if transaction.GasLimit > 0 {
+		max := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))
+		if transaction.GasPrice.ToBig().Cmp(max.Div(max, big.NewInt(int64(transaction.GasLimit)))) > 0 {
+			return fmt.Errorf("gas costs overflow: %v * %v", transaction.GasLimit, transaction.GasPrice)
+		}
+	}
 
 	// Buy gas
 	senderBalance := context.GetBalance(transaction.Sender)
-- 
2.43.0


From 4b82751f8c0d173d3ed34f112716d28e6b4f0ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:04 +0000
Subject: [PATCH 28/42] fix: floria does not increment the creator's nonce on
 an address collision

The nonce of the creator is incremented by every attempt to create a
contract. In particular, a transaction could be repeated.
---
 go/processor/floria/run_context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/processor/floria/run_context.go b/go/processor/floria/run_context.go
index 9dacd31..991b7f1 100644
--- a/go/processor/floria/run_context.go
+++ b/go/processor/floria/run_context.go
@@ -62,13 +62,13 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 			parameters.Salt,
 			codeHash,
 		)
+		r.SetNonce(parameters.Sender, r.GetNonce(parameters.Sender)+1)
 		if r.GetNonce(createdAddress) != 0 ||
 			(r.GetCodeHash(createdAddress) != (tosca.Hash{}) &&
 				r.GetCodeHash(createdAddress) != emptyCodeHash) {
 			return tosca.CallResult{}, nil
 		}
 
-		r.SetNonce(parameters.Sender, r.GetNonce(parameters.Sender)+1)
 		recipient = createdAddress
 	}
 
-- 
2.43.0


From 3aaa8c200a0b867ceec0e3f7e5bc6b3182a35d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:04 +0000
Subject: [PATCH 29/42] fix: a contract creation in floria may wrap the
 creator's nonce

See EIP-2681: such a creation fails without consuming gas.
---
 go/processor/floria/run_context.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/go/processor/floria/run_context.go b/go/processor/floria/run_context.go
index 991b7f1..74e2e78 100644
--- a/go/processor/floria/run_context.go
+++ b/go/processor/floria/run_context.go
@@ -55,6 +55,9 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 			codeHash = hashCode(code)
 			input = nil // init code is not its own call data
 		}
+		if r.GetNonce(parameters.Sender)+1 == 0 {
+			return tosca.CallResult{GasLeft: parameters.Gas}, nil
+		}
 		createdAddress = createAddress(
 			kind,
 			parameters.Sender,
-- 
2.43.0


From 035fd0726bc06fcfb16b33c57bcbaa11f8d85851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:04 +0000
Subject: [PATCH 30/42] fix: floria does not add created contracts to the
 access list

See EIP-2929: the address of a contract being created is warm, even if
the creation fails.
---
 go/processor/floria/run_context.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/go/processor/floria/run_context.go b/go/processor/floria/run_context.go
index 74e2e78..6d081c2 100644
--- a/go/processor/floria/run_context.go
+++ b/go/processor/floria/run_context.go
@@ -66,6 +66,9 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 			codeHash,
 		)
 		r.SetNonce(parameters.Sender, r.GetNonce(parameters.Sender)+1)
+		if r.blockParameters.Revision >= tosca.R09_Berlin {
+			r.AccessAccount(createdAddress)
+		}
 		if r.GetNonce(createdAddress) != 0 ||
 			(r.GetCodeHash(createdAddress) != (tosca.Hash{}) &&
 				r.GetCodeHash(createdAddress) != emptyCodeHash) {
-- 
2.43.0


From 0ec760dc67683c438ba2e372dcb9fc3974b1deae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:04 +0000
Subject: [PATCH 31/42] fix: floria's state contract truncates nonce
 differences to 64 bits

---
 go/processor/floria/state_contract.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/go/processor/floria/state_contract.go b/go/processor/floria/state_contract.go
index 0d062ed..1b65507 100644
--- a/go/processor/floria/state_contract.go
+++ b/go/processor/floria/state_contract.go
@@ -228,19 +228,19 @@ func executeStateContractIncNonce(state tosca.WorldState, sender tosca.Address,
 
 	account := tosca.Address(input[12:32])
 	value := tosca.Value(input[32:64])
-	valueUint := big.NewInt(0).SetBytes(value[:]).Uint64()
+	valueBig := big.NewInt(0).SetBytes(value[:])
 
 	if account == sender {
 		// Origin nonce shouldn't change during his transaction
 		return 0, ErrExecutionReverted
 	}
 
-	if valueUint <= 0 || 256 <= valueUint {
+	if valueBig.Sign() <= 0 || valueBig.Cmp(big.NewInt(256)) >= 0 {
 		// Don't allow large nonce increasing to prevent a nonce overflow
 		return 0, ErrExecutionReverted
 	}
 
-	state.SetNonce(account, state.GetNonce(account)+valueUint)
+	state.SetNonce(account, state.GetNonce(account)+valueBig.Uint64())
 
 	return gas, nil
 }
-- 
2.43.0


From b85d6bc779f5f4504233877b1a6ea831a46094f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:04 +0000
Subject: [PATCH 32/42] fix: floria's state contract modifies the state in
 static calls

---
 go/processor/floria/run_context.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/go/processor/floria/run_context.go b/go/processor/floria/run_context.go
index 6d081c2..31c5271 100644
--- a/go/processor/floria/run_context.go
+++ b/go/processor/floria/run_context.go
@@ -96,6 +96,10 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 		}
 	}
 
+	if r.static && parameters.Recipient == StateContractAddress() {
+		r.RestoreSnapshot(snapshot)
+		return tosca.CallResult{}, nil
+	}
 	output, isStatePrecompiled := handleStateContract(
 		r, parameters.Sender, parameters.Recipient, parameters.Input, parameters.Gas)
 	if isStatePrecompiled {
-- 
2.43.0


From d257dc37df8bb81245a2617bea6b2b4d9047d0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:46 +0000
Subject: [PATCH 33/42] fix: floria's state contract does not protect the
 transaction's origin

Balance and nonce of the transaction's origin must not be changed; the check
compared with the calling driver contract, which is not necessarily the origin.
---
 go/processor/floria/run_context.go    |  4 ++--
 go/processor/floria/state_contract.go | 25 +++++++++++++++++++------
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/go/processor/floria/run_context.go b/go/processor/floria/run_context.go
index 31c5271..0fc50d3 100644
--- a/go/processor/floria/run_context.go
+++ b/go/processor/floria/run_context.go
@@ -100,8 +100,8 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 		r.RestoreSnapshot(snapshot)
 		return tosca.CallResult{}, nil
 	}
-	output, isStatePrecompiled := handleStateContract(
-		r, parameters.Sender, parameters.Recipient, parameters.Input, parameters.Gas)
+	output, isStatePrecompiled := handleStateContractCall(
+		r, r.transactionParameters.Origin, parameters.Sender, parameters.Recipient, parameters.Input, parameters.Gas)
 	if isStatePrecompiled {
 		if !output.Success {
 			r.RestoreSnapshot(snapshot)
diff --git a/go/processor/floria/state_contract.go b/go/processor/floria/state_contract.go
index 1b65507..580dc7d 100644
--- a/go/processor/floria/state_contract.go
+++ b/go/processor/floria/state_contract.go
@@ -88,6 +88,19 @@ func handleStateContract(
 	receiver tosca.Address,
 	input []byte,
 	gas tosca.Gas,
+) (tosca.CallResult, bool) {
+	return handleStateContractCall(state, sender, sender, receiver, input, gas)
+}
+
+// handleStateContractCall handles calls of the state contract in a transaction of the given
+// origin, whose balance and nonce are protected from being modified.
+func handleStateContractCall(
+	state tosca.WorldState,
+	origin tosca.Address,
+	sender tosca.Address,
+	receiver tosca.Address,
+	input []byte,
+	gas tosca.Gas,
 ) (tosca.CallResult, bool) {
 	if receiver != StateContractAddress() {
 		return tosca.CallResult{}, false
@@ -105,7 +118,7 @@ func handleStateContract(
 	selector := input[:4]
 	input = input[4:]
 	if bytes.Equal(selector, setBalanceMethodID) {
-		gasLeft, err = executeStateSetBalance(state, sender, input, gas)
+		gasLeft, err = executeStateSetBalance(state, origin, input, gas)
 	} else if bytes.Equal(selector, copyCodeMethodID) {
 		gasLeft, err = executeStateContractCopyCode(state, input, gas)
 	} else if bytes.Equal(selector, swapCodeMethodID) {
@@ -113,7 +126,7 @@ func handleStateContract(
 	} else if bytes.Equal(selector, setStorageMethodID) {
 		gasLeft, err = executeStateContractSetStorage(state, input, gas)
 	} else if bytes.Equal(selector, incNonceMethodID) {
-		gasLeft, err = executeStateContractIncNonce(state, sender, input, gas)
+		gasLeft, err = executeStateContractIncNonce(state, origin, input, gas)
 	}
 
 	return tosca.CallResult{
@@ -123,7 +136,7 @@ func handleStateContract(
 	}, true
 }
 
-func executeStateSetBalance(state tosca.WorldState, sender tosca.Address, input []byte, gas tosca.Gas) (tosca.Gas, error) {
+func executeStateSetBalance(state tosca.WorldState, origin tosca.Address, input []byte, gas tosca.Gas) (tosca.Gas, error) {
 	if gas < callValueTransferGas {
 		return 0, ErrOutOfGas
 	}
@@ -135,7 +148,7 @@ func executeStateSetBalance(state tosca.WorldState, sender tosca.Address, input
 	account := tosca.Address(input[12:32])
 	value := tosca.Value(input[32:64])
 
-	if account == sender {
+	if account == origin {
 		// Origin balance shouldn't decrease during his transaction
 		return 0, ErrExecutionReverted
 	}
@@ -217,7 +230,7 @@ func executeStateContractSetStorage(state tosca.WorldState, input []byte, gas to
 	return gas, nil
 }
 
-func executeStateContractIncNonce(state tosca.WorldState, sender tosca.Address, input []byte, gas tosca.Gas) (tosca.Gas, error) {
+func executeStateContractIncNonce(state tosca.WorldState, origin tosca.Address, input []byte, gas tosca.Gas) (tosca.Gas, error) {
 	if gas < callValueTransferGas {
 		return 0, ErrOutOfGas
 	}
@@ -230,7 +243,7 @@ func executeStateContractIncNonce(state tosca.WorldState, sender tosca.Address,
 	value := tosca.Value(input[32:64])
 	valueBig := big.NewInt(0).SetBytes(value[:])
 
-	if account == sender {
+	if account == origin {
 		// Origin nonce shouldn't change during his transaction
 		return 0, ErrExecutionReverted
 	}
-- 
2.43.0


From 82c80f97315f54a49fb58a155ef4388ca07b9223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:34 +0000
Subject: [PATCH 34/42] Revert "fix: the hash of an account's code in a CT
 state is always zero"

This reverts commit 4bdb05e249c621c9f555162cb8aa8583b9e0bb70.
---
 go/ct/st/accounts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/ct/st/accounts.go b/go/ct/st/accounts.go
index 2a80bcf..5fa94bb 100644
--- a/go/ct/st/accounts.go
+++ b/go/ct/st/accounts.go
@@ -79,7 +79,7 @@ func (a *Accounts) GetCode(address tosca.Address) Bytes {
 func (a *Accounts) GetCodeHash(address tosca.Address) (hash [32]byte) {
 	hasher := sha3.NewLegacyKeccak256()
 	_, _ = hasher.Write(a.GetCode(address).ToBytes()) // Hash.Write never returns an error
-	hasher.Sum(hash[:0])
+	hasher.Sum(hash[:])
 	return
 }
 
-- 
2.43.0


From 088168f27cc2226d742e3ad49831e01b855f9b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:00 +0000
Subject: [PATCH 35/42] fix: evmzero reports gas refunds of reverted executions

EVMC demands a gas refund of zero for every result other than a
success. evmzero reported the refund accumulated before a REVERT, which
callers adding the refunds of nested calls up (floria, evmzero itself)
granted to the transaction, although the storage changes that earned it
are undone.
---
 cpp/vm/evmzero/evmzero.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cpp/vm/evmzero/evmzero.cc b/cpp/vm/evmzero/evmzero.cc
index 2befbc8..e6f860a 100644
--- a/cpp/vm/evmzero/evmzero.cc
+++ b/cpp/vm/evmzero/evmzero.cc
@@ -164,10 +164,12 @@ class VM : public evmc_vm {
       std::copy(interpreter_result.return_data.begin(), interpreter_result.return_data.end(), output_data);
     }
 
+    // EVMC requires the gas refund to be zero for everything but a success.
+    const auto status_code = ToEvmcStatusCode(interpreter_result.state);
     return {
-        .status_code = ToEvmcStatusCode(interpreter_result.state),
+        .status_code = status_code,
         .gas_left = interpreter_result.remaining_gas,
-        .gas_refund = interpreter_result.refunded_gas,
+        .gas_refund = status_code == EVMC_SUCCESS ? interpreter_result.refunded_gas : 0,
         .output_data = output_data,
         .output_size = interpreter_result.return_data.size(),
         .release = [](const evmc_result* result) { delete[] result->output_data; },
-- 
2.43.0


From 21391c7babba192902e867b7c701e3ccc38bcd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:39 +0000
Subject: [PATCH 36/42] fix: the conformance tool's test command ignores the
 last of several rules

---
 go/ct/driver/test.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/ct/driver/test.go b/go/ct/driver/test.go
index f307c94..fca17a5 100644
--- a/go/ct/driver/test.go
+++ b/go/ct/driver/test.go
@@ -63,7 +63,7 @@ func doTest(context *cli.Context) error {
 			defer s0.Release()
 
 			rules[0].Effect.Apply(s0)
-			for i := 1; i < len(rules)-1; i++ {
+			for i := 1; i < len(rules); i++ {
 				s := state.Clone()
 				defer s.Release()
 				rules[i].Effect.Apply(s)
-- 
2.43.0


From 44545f4be62dcab13b93676809b56bd7c790d3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:58 +0000
Subject: [PATCH 37/42] fix: evmrs' SIGNEXTEND shifts by 256 bits when the sign
 is in the highest byte

---
 rust/src/types/amount.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/src/types/amount.rs b/rust/src/types/amount.rs
index 827738b..2c87f43 100644
--- a/rust/src/types/amount.rs
+++ b/rust/src/types/amount.rs
@@ -381,11 +381,11 @@ impl u256 {
     pub fn signextend(self, rhs: Self) -> Self {
         let (lhs, lhs_overflow) = self.into_u64_with_overflow();
         let lhs = lhs as usize;
-        if lhs_overflow || lhs > 31 {
+        if lhs_overflow || lhs >= 31 {
             return rhs;
         }
 
-        let byte = 31 - lhs; // lhs <= 31 so this does not underflow
+        let byte = 31 - lhs; // lhs < 31 so this does not underflow
         let negative = (rhs.to_le_bytes()[lhs] & 0x80) > 0;
 
         let res = if negative {
-- 
2.43.0


From f4353aebd8eec759d52c115c498405fd60475bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:58 +0000
Subject: [PATCH 38/42] fix: evmrs' calls run out of gas when more than half of
 the maximum gas is passed on

---
 rust/src/interpreter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/src/interpreter.rs b/rust/src/interpreter.rs
index 74a4391..36b84a1 100644
--- a/rust/src/interpreter.rs
+++ b/rust/src/interpreter.rs
@@ -1707,9 +1707,9 @@ impl<const STEPPABLE: bool> Interpreter<'_, STEPPABLE> {
             dest[..min_len].copy_from_slice(&output[..min_len]);
         }
 
-        self.gas_left.add(result.gas_left())?;
         self.gas_left.consume(endowment)?;
         self.gas_left.consume(stipend)?;
+        self.gas_left.add(result.gas_left())?;
         self.gas_refund.add(result.gas_refund())?;
 
         self.stack
@@ -1794,8 +1794,8 @@ impl<const STEPPABLE: bool> Interpreter<'_, STEPPABLE> {
             dest[..min_len].copy_from_slice(&output[..min_len]);
         }
 
-        self.gas_left.add(result.gas_left())?;
         self.gas_left.consume(endowment)?;
+        self.gas_left.add(result.gas_left())?;
         self.gas_refund.add(result.gas_refund())?;
 
         self.stack
-- 
2.43.0


From 3f9957db73371b0f1f3b3636d79927eac03482e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:58 +0000
Subject: [PATCH 39/42] fix: evmrs reports gas refunds of reverted executions

---
 rust/src/interpreter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rust/src/interpreter.rs b/rust/src/interpreter.rs
index 36b84a1..cbfc825 100644
--- a/rust/src/interpreter.rs
+++ b/rust/src/interpreter.rs
@@ -1834,7 +1834,11 @@ impl<const STEPPABLE: bool> From<Interpreter<'_, STEPPABLE>> for ExecutionResult
         Self::new(
             value.exec_status.into(),
             value.gas_left.as_u64() as i64,
-            value.gas_refund.as_i64(),
+            if value.exec_status == ExecStatus::Revert {
+                0 // reverted executions do not grant refunds
+            } else {
+                value.gas_refund.as_i64()
+            },
             #[cfg(not(feature = "custom-evmc"))]
             value.output.as_deref(),
             #[cfg(feature = "custom-evmc")]
-- 
2.43.0


From a95587f73e1d44ae61b8ff8b2ab53fcbff9dcb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:07 +0000
Subject: [PATCH 40/42] fix: evmrs' BLOCKHASH gives access to the hashes of the
 current and of older blocks

---
 rust/src/interpreter.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/rust/src/interpreter.rs b/rust/src/interpreter.rs
index cbfc825..2d4748d 100644
--- a/rust/src/interpreter.rs
+++ b/rust/src/interpreter.rs
@@ -1114,11 +1114,15 @@ impl<const STEPPABLE: bool> Interpreter<'_, STEPPABLE> {
     fn block_hash(&mut self) -> OpResult {
         self.gas_left.consume(20)?;
         let [block_number] = self.stack.pop()?;
-        self.stack.push(
-            u64::try_from(block_number)
-                .map(|idx| self.context.get_block_hash(idx as i64).into())
-                .unwrap_or(u256::ZERO),
-        )?;
+        // only the hashes of the 256 most recent blocks, excluding the current one, are accessible
+        let current = self.context.get_tx_context().block_number as u64;
+        let hash = match u64::try_from(block_number) {
+            Ok(idx) if idx < current && current - idx <= 256 => {
+                self.context.get_block_hash(idx as i64).into()
+            }
+            _ => u256::ZERO,
+        };
+        self.stack.push(hash)?;
         self.code_reader.next();
         self.return_from_op()
     }
-- 
2.43.0


From 1702c1ad5ca694fddd4d22cfc552ea51b8da96aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:29 +0000
Subject: [PATCH 41/42] fix: evmrs' inline dispatch skips a wrong number of
 instructions in front of jump destinations

---
 rust/src/types/code_reader.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/src/types/code_reader.rs b/rust/src/types/code_reader.rs
index 375b9da..064c280 100644
--- a/rust/src/types/code_reader.rs
+++ b/rust/src/types/code_reader.rs
@@ -146,7 +146,8 @@ impl<'a, const STEPPABLE: bool> CodeReader<'a, STEPPABLE> {
             .get_data()
             .into_u64_saturating();
         #[cfg(not(feature = "fn-ptr-conversion-expanded-dispatch"))]
-        let offset = u32::from_ne_bytes(self.code_analysis.analysis[self.pc].get_data());
+        // the offset is stored in the data entry following the current instruction
+        let offset = u32::from_ne_bytes(self.code_analysis.analysis[self.pc + 1].get_data());
         self.pc += offset as usize;
     }
 
-- 
2.43.0


From c4ba66226489a7a0b56ca979e13f4d3eb4c4780d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:32 +0000
Subject: [PATCH 42/42] fix: evmrs' SELFBALANCE ignores the balance of the
 account with address zero

---
 rust/src/interpreter.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/rust/src/interpreter.rs b/rust/src/interpreter.rs
index 2d4748d..33ed0f1 100644
--- a/rust/src/interpreter.rs
+++ b/rust/src/interpreter.rs
@@ -1178,11 +1178,7 @@ impl<const STEPPABLE: bool> Interpreter<'_, STEPPABLE> {
         check_min_revision(Revision::EVMC_ISTANBUL, self.revision)?;
         self.gas_left.consume(5)?;
         let addr = self.message.recipient();
-        if u256::from(addr) == u256::ZERO {
-            self.stack.push(u256::ZERO)?;
-        } else {
-            self.stack.push(self.context.get_balance(addr))?;
-        }
+        self.stack.push(self.context.get_balance(addr))?;
         self.code_reader.next();
         self.return_from_op()
     }
-- 
2.43.0

