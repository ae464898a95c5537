From 74d21299d09503dc1025ef1932bd91dfefc5f229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:58 +0000
Subject: [PATCH 01/55] fix: create_trie_subset panics instead of reporting the
 pruned key it hit

---
 mpt_trie/src/trie_subsets.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mpt_trie/src/trie_subsets.rs b/mpt_trie/src/trie_subsets.rs
index eadb6b3..6bbe956 100644
--- a/mpt_trie/src/trie_subsets.rs
+++ b/mpt_trie/src/trie_subsets.rs
@@ -254,8 +254,10 @@ where
     N: PartialTrie,
     K: Into<Nibbles>,
 {
-    for mut k in keys_involved.map(|k| k.into()) {
-        mark_nodes_that_are_needed(tracked_trie, &mut k).map_err(|_| {
+    for k in keys_involved.map(|k| k.into()) {
+        // Marking consumes the key, but the error needs all of it.
+        let mut remaining = k;
+        mark_nodes_that_are_needed(tracked_trie, &mut remaining).map_err(|_| {
             // We need to unwind back to this callsite in order to produce the actual error.
             let query = DebugQueryParamsBuilder::default()
                 .include_node_specific_values(true)
-- 
2.43.0


From 832ef797d1a5537754114b392de4053ed8603c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:25 +0000
Subject: [PATCH 02/55] fix: refusing to collapse an extension into a hash node
 panics on long keys

---
 mpt_trie/src/trie_ops.rs | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/mpt_trie/src/trie_ops.rs b/mpt_trie/src/trie_ops.rs
index c7cee9b..e35fc05 100644
--- a/mpt_trie/src/trie_ops.rs
+++ b/mpt_trie/src/trie_ops.rs
@@ -395,8 +395,7 @@ impl<T: PartialTrie> Node<T> {
                 // Final check at the root if we have an extension node. While this check also
                 // exists as we recursively traverse down the trie, it can not perform this
                 // check on the root node.
-                let wrapped_node =
-                    try_collapse_if_extension(updated_root, &Nibbles::default(), strategy)?;
+                let wrapped_node = try_collapse_if_extension(updated_root, strategy)?;
                 let node_ref: &Node<T> = &wrapped_node;
                 *self = node_ref.clone();
 
@@ -553,7 +552,7 @@ fn delete_intern<N: PartialTrie>(
 
                             let mut updated_children = children.clone();
                             updated_children[nibble as usize] =
-                                try_collapse_if_extension(updated_child, &curr_k, strategy)?;
+                                try_collapse_if_extension(updated_child, strategy)?;
                             branch(updated_children, value.clone())
                         }
                         true => {
@@ -590,12 +589,8 @@ fn delete_intern<N: PartialTrie>(
 
                     delete_intern(child, curr_k, strategy).and_then(|res| {
                         res.map_or(Ok(None), |(updated_child, value_deleted)| {
-                            let updated_node = collapse_ext_node_if_needed(
-                                ext_nibbles,
-                                &updated_child,
-                                &curr_k,
-                                strategy,
-                            )?;
+                            let updated_node =
+                                collapse_ext_node_if_needed(ext_nibbles, &updated_child, strategy)?;
                             Ok(Some((updated_node, value_deleted)))
                         })
                     })
@@ -614,13 +609,10 @@ fn delete_intern<N: PartialTrie>(
 
 fn try_collapse_if_extension<N: PartialTrie>(
     node: WrappedNode<N>,
-    curr_key: &Nibbles,
     strategy: OnOrphanedHashNode,
 ) -> TrieOpResult<WrappedNode<N>> {
     match node.as_ref() {
-        Node::Extension { nibbles, child } => {
-            collapse_ext_node_if_needed(nibbles, child, curr_key, strategy)
-        }
+        Node::Extension { nibbles, child } => collapse_ext_node_if_needed(nibbles, child, strategy),
         _ => Ok(node),
     }
 }
@@ -652,7 +644,6 @@ fn try_collapse_if_extension<N: PartialTrie>(
 fn collapse_ext_node_if_needed<N: PartialTrie>(
     ext_nibbles: &Nibbles,
     child: &WrappedNode<N>,
-    curr_key: &Nibbles,
     strategy: OnOrphanedHashNode,
 ) -> TrieOpResult<WrappedNode<N>> {
     trace!(
@@ -677,7 +668,7 @@ fn collapse_ext_node_if_needed<N: PartialTrie>(
         Node::Hash(h) => match strategy {
             OnOrphanedHashNode::CollapseToExtension => Ok(extension(*ext_nibbles, child.clone())),
             OnOrphanedHashNode::Reject => Err(TrieOpError::ExtensionCollapsedIntoHashError(
-                curr_key.merge_nibbles(ext_nibbles),
+                *ext_nibbles,
                 *h,
             )),
         },
-- 
2.43.0


From 89db288c621e616c4d0dfc54c7161c1b07ad7487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:25 +0000
Subject: [PATCH 03/55] fix: Smt::get panics on an absent key whose path ends
 in an empty subtree

---
 smt_trie/src/smt.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/smt_trie/src/smt.rs b/smt_trie/src/smt.rs
index d2236ae..b286d7b 100644
--- a/smt_trie/src/smt.rs
+++ b/smt_trie/src/smt.rs
@@ -156,7 +156,15 @@ impl<D: Db> Smt<D> {
                 level += 1;
             }
         }
-        unreachable!()
+
+        // The path ends in an empty subtree: the key is not in the SMT.
+        assert!(self
+            .kv_store
+            .get(&key)
+            .copied()
+            .unwrap_or_default()
+            .is_zero());
+        U256::ZERO
     }
 
     /// Set the value associated with the key in the SMT.
-- 
2.43.0


From f51170c3288939fee6129dab1e2701aff1eafce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:31 +0000
Subject: [PATCH 04/55] fix: clones of a HashedPartialTrie share one cached
 root hash

---
 mpt_trie/src/partial_trie.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/mpt_trie/src/partial_trie.rs b/mpt_trie/src/partial_trie.rs
index e8f1ebe..ca9feb5 100644
--- a/mpt_trie/src/partial_trie.rs
+++ b/mpt_trie/src/partial_trie.rs
@@ -347,6 +347,12 @@ impl HashedPartialTrie {
     pub(crate) fn set_hash(&self, v: Option<H256>) {
         *self.hash.write() = v;
     }
+
+    /// Forget the hash after a change of the node. Clones share the cached
+    /// value, so it is replaced and not overwritten.
+    fn reset_hash(&mut self) {
+        self.hash = Arc::new(RwLock::new(None));
+    }
 }
 
 impl PartialTrie for HashedPartialTrie {
@@ -372,7 +378,7 @@ impl PartialTrie for HashedPartialTrie {
         V: Into<crate::trie_ops::ValOrHash>,
     {
         self.node.trie_insert(k, v)?;
-        self.set_hash(None);
+        self.reset_hash();
         Ok(())
     }
 
@@ -382,9 +388,11 @@ impl PartialTrie for HashedPartialTrie {
         V: Into<crate::trie_ops::ValOrHash>,
         I: IntoIterator<Item = (K, V)>,
     {
-        self.node.trie_extend(nodes)?;
-        self.set_hash(None);
-        Ok(())
+        // A failed extend may have inserted some of the nodes.
+        let res = self.node.trie_extend(nodes);
+        self.reset_hash();
+
+        res
     }
 
     fn get<K>(&self, k: K) -> Option<&[u8]>
@@ -399,7 +407,7 @@ impl PartialTrie for HashedPartialTrie {
         K: Into<crate::nibbles::Nibbles>,
     {
         let res = self.node.trie_delete(k, self.strategy);
-        self.set_hash(None);
+        self.reset_hash();
 
         res
     }
-- 
2.43.0


From 01795224c92f3c6f803cdf6fb0a28b4e942373b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:04 +0000
Subject: [PATCH 05/55] fix: a precompile failing when called directly by a
 transaction reverted a checkpoint that was never made

---
 .../src/cpu/kernel/asm/core/precompiles/main.asm                | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/precompiles/main.asm b/evm_arithmetization/src/cpu/kernel/asm/core/precompiles/main.asm
index d29bff2..eb0d030 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/precompiles/main.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/precompiles/main.asm
@@ -57,6 +57,8 @@ global after_precompile:
 
 global handle_precompiles_from_eoa:
     PUSH 1 %mstore_global_metadata(@GLOBAL_METADATA_IS_PRECOMPILE_FROM_EOA)
+    // If the precompile fails, this is reverted in `process_message_txn_fail`.
+    %checkpoint
     // stack: addr, retdest
     %create_context
     // stack: new_ctx, addr, retdest
-- 
2.43.0


From c27977380bc219d103092b21046bdd8d51ef00aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:19 +0000
Subject: [PATCH 06/55] fix: a fresh coinbase paid by a reverted transaction is
 looked up as if it did not exist

---
 trace_decoder/src/core.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trace_decoder/src/core.rs b/trace_decoder/src/core.rs
index cd2bcfa..75b098c 100644
--- a/trace_decoder/src/core.rs
+++ b/trace_decoder/src/core.rs
@@ -503,8 +503,9 @@ where
 
                 let do_writes = !just_access
                     && match born {
-                        // if txn failed, don't commit changes to trie
-                        true => receipt.status,
+                        // if txn failed, don't commit changes to trie,
+                        // but the beneficiary is paid all the same
+                        true => receipt.status || addr == block.block_beneficiary,
                         false => true,
                     };
 
-- 
2.43.0


From 7187bf09e15c677496391f2e0717f0df01053e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:50 +0000
Subject: [PATCH 07/55] fix: reading an unset address grew the memory segment
 up to that address

---
 evm_arithmetization/src/cpu/kernel/interpreter.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/evm_arithmetization/src/cpu/kernel/interpreter.rs b/evm_arithmetization/src/cpu/kernel/interpreter.rs
index d974550..ca65012 100644
--- a/evm_arithmetization/src/cpu/kernel/interpreter.rs
+++ b/evm_arithmetization/src/cpu/kernel/interpreter.rs
@@ -410,10 +410,14 @@ impl<F: RichField> Interpreter<F> {
             match kind {
                 MemoryOpKind::Read => {
                     if self.generation_state.memory.get(address).is_none() {
-                        if !self.is_preinitialized_segment(address.segment) && !value.is_zero() {
+                        if self.is_preinitialized_segment(address.segment) {
+                            self.generation_state.memory.set(address, value);
+                        } else if !value.is_zero() {
                             return Err(anyhow!("The initial value {:?} at address {:?} should be zero, because it is not preinitialized.", value, address));
                         }
-                        self.generation_state.memory.set(address, value);
+                        // An unset address already reads as zero. Recording it would
+                        // make the segment as long as the address: a user's shift
+                        // reads the shift table at any displacement below 2^32.
                     }
                 }
                 MemoryOpKind::Write => self.generation_state.memory.set(address, value),
-- 
2.43.0


From fc1319c5b85b04bebbf6223576085430121a3486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:58 +0000
Subject: [PATCH 08/55] fix: the honest proof that a jump target inside push
 data is no jumpdest could be refused by the kernel

---
 .../src/generation/prover_input.rs            | 52 ++++++++++---------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/evm_arithmetization/src/generation/prover_input.rs b/evm_arithmetization/src/generation/prover_input.rs
index 704e2f4..d2f157f 100644
--- a/evm_arithmetization/src/generation/prover_input.rs
+++ b/evm_arithmetization/src/generation/prover_input.rs
@@ -395,17 +395,13 @@ impl<F: RichField> GenerationState<F> {
     }
 
     /// Returns a non-jumpdest proof for the address on the top of the stack. A
-    /// non-jumpdest proof is the closest address to the address on the top of
-    /// the stack, if the closest address is >= 32, or zero otherwise.
+    /// non-jumpdest proof is the address closest to the address on the top of
+    /// the stack from which [`get_proofs_and_jumpdests`] could prove a
+    /// jumpdest, or zero if there is none.
     fn run_next_non_jumpdest_proof(&self) -> Result<U256, ProgramError> {
         let code = self.get_current_code()?;
         let address = u256_to_usize(stack_peek(self, 0)?)?;
-        let closest_opcode_addr = get_closest_opcode_address(&code, address);
-        Ok(if closest_opcode_addr < 32 {
-            U256::zero()
-        } else {
-            closest_opcode_addr.into()
-        })
+        Ok(get_closest_proof(&code, address).into())
     }
 
     /// Returns a pointer to an element in the list whose value is such that
@@ -860,21 +856,14 @@ fn get_proofs_and_jumpdests(
     largest_address: usize,
     jumpdest_table: std::collections::BTreeSet<usize>,
 ) -> Vec<usize> {
-    const PUSH1_OPCODE: u8 = 0x60;
-    const PUSH32_OPCODE: u8 = 0x7f;
     let (proofs, _) = CodeIterator::until(code, largest_address + 1).fold(
         (vec![], 0),
         |(mut proofs, last_proof), (addr, _opcode)| {
-            let has_prefix = if let Some(prefix_start) = addr.checked_sub(32) {
-                code[prefix_start..addr]
-                    .iter()
-                    .rev()
-                    .zip(0..32)
-                    .all(|(&byte, i)| byte > PUSH32_OPCODE || byte < PUSH1_OPCODE + i)
+            let last_proof = if has_valid_prefix(code, addr) {
+                addr - 32
             } else {
-                false
+                last_proof
             };
-            let last_proof = if has_prefix { addr - 32 } else { last_proof };
             if jumpdest_table.contains(&addr) {
                 // Push the proof
                 proofs.push(last_proof);
@@ -887,13 +876,28 @@ fn get_proofs_and_jumpdests(
     proofs
 }
 
-/// Return the largest prev_addr in `code` such that `code[pred_addr]` is an
-/// opcode (and not the argument of some PUSHXX) and pred_addr <= address
-fn get_closest_opcode_address(code: &[u8], address: usize) -> usize {
-    let (prev_addr, _) = CodeIterator::until(code, address + 1)
+/// Returns the largest proof valid for an opcode of `code` at or before
+/// `address`, or zero if there is none.
+fn get_closest_proof(code: &[u8], address: usize) -> usize {
+    CodeIterator::until(code, address + 1)
+        .filter(|&(addr, _opcode)| has_valid_prefix(code, addr))
         .last()
-        .unwrap_or((0, 0));
-    prev_addr
+        .map_or(0, |(addr, _opcode)| addr - 32)
+}
+
+/// Checks that none of the 32 bytes before `addr` is a PUSHXX with `addr` in
+/// its range.
+fn has_valid_prefix(code: &[u8], addr: usize) -> bool {
+    const PUSH1_OPCODE: u8 = 0x60;
+    const PUSH32_OPCODE: u8 = 0x7f;
+    let Some(prefix_start) = addr.checked_sub(32) else {
+        return false;
+    };
+    code[prefix_start..addr]
+        .iter()
+        .rev()
+        .zip(0..32)
+        .all(|(&byte, i)| byte > PUSH32_OPCODE || byte < PUSH1_OPCODE + i)
 }
 
 /// An iterator over the EVM code contained in `code`, which skips the bytes
-- 
2.43.0


From 68695132d50ee1a6984d995a04e72b6f73531371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:03 +0000
Subject: [PATCH 09/55] fix: a jump beyond the deployed code limit was refused
 in init code

---
 evm_arithmetization/src/cpu/kernel/asm/core/exception.asm | 4 ++--
 evm_arithmetization/src/cpu/kernel/constants/mod.rs       | 6 +++++-
 evm_arithmetization/src/witness/transition.rs             | 6 +++---
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/exception.asm b/evm_arithmetization/src/cpu/kernel/asm/core/exception.asm
index bea641c..5f8dcc7 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/exception.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/exception.asm
@@ -130,10 +130,10 @@ global invalid_jump_jumpi_destination_common:
         // We have a jump destination on the stack. We want to `PANIC` if it is valid, and jump to
         // `fault_exception` if it is not. An address is a valid jump destination if it points to a
         // `JUMPDEST` instruction. In practice, we check two things:
-        //  1. the address is no greater than MAX_CODE_SIZE, and
+        //  1. the address is no greater than MAX_INITCODE_SIZE, as the code may be init code, and
         //  2. it points to a `JUMPDEST` instruction.
         // stack: jump_dest
-        PUSH @MAX_CODE_SIZE
+        PUSH @MAX_INITCODE_SIZE
         DUP2
         // stack: jump_dest, max_size, jump_dest
         GT // jump_dest > max_size == !(jump_dest <= max_size)
diff --git a/evm_arithmetization/src/cpu/kernel/constants/mod.rs b/evm_arithmetization/src/cpu/kernel/constants/mod.rs
index 91c2a0a..911aab6 100644
--- a/evm_arithmetization/src/cpu/kernel/constants/mod.rs
+++ b/evm_arithmetization/src/cpu/kernel/constants/mod.rs
@@ -377,9 +377,13 @@ pub(crate) const MAX_CODE_SIZE: u64 = if cfg!(feature = "polygon_pos") {
     0x6000 // default Ethereum value
 };
 
+/// Init code may be larger than deployed code (see EIP-3860), and jump
+/// anywhere in it.
+pub(crate) const MAX_INITCODE_SIZE: u64 = 0xc000;
+
 const CODE_SIZE_LIMIT: [(&str, u64); 3] = [
     ("MAX_CODE_SIZE", MAX_CODE_SIZE),
-    ("MAX_INITCODE_SIZE", 0xc000),
+    ("MAX_INITCODE_SIZE", MAX_INITCODE_SIZE),
     ("INITCODE_WORD_COST", 2),
 ];
 
diff --git a/evm_arithmetization/src/witness/transition.rs b/evm_arithmetization/src/witness/transition.rs
index fdcf9af..1affc53 100644
--- a/evm_arithmetization/src/witness/transition.rs
+++ b/evm_arithmetization/src/witness/transition.rs
@@ -6,7 +6,7 @@ use super::util::stack_pop_with_log_and_fill;
 use crate::cpu::columns::CpuColumnsView;
 use crate::cpu::kernel::aggregator::KERNEL;
 use crate::cpu::kernel::constants::context_metadata::ContextMetadata;
-use crate::cpu::kernel::constants::MAX_CODE_SIZE;
+use crate::cpu::kernel::constants::MAX_INITCODE_SIZE;
 use crate::cpu::kernel::opcodes::get_opcode;
 use crate::cpu::membus::NUM_GP_CHANNELS;
 use crate::cpu::stack::{
@@ -384,7 +384,7 @@ where
             .try_into()
             .map_err(|_| ProgramError::InvalidJumpDestination)?;
 
-        if !self.is_kernel() && dst > MAX_CODE_SIZE as u32 {
+        if !self.is_kernel() && dst > MAX_INITCODE_SIZE as u32 {
             return Err(ProgramError::InvalidJumpDestination);
         }
 
@@ -456,7 +456,7 @@ where
                 .try_into()
                 .map_err(|_| ProgramError::InvalidJumpiDestination)?;
 
-            if !self.is_kernel() && dst > MAX_CODE_SIZE as u32 {
+            if !self.is_kernel() && dst > MAX_INITCODE_SIZE as u32 {
                 return Err(ProgramError::InvalidJumpiDestination);
             }
 
-- 
2.43.0


From 581efbad68d66aadf00d321a64cc0e90698c7b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:09 +0000
Subject: [PATCH 10/55] fix: the simulation that finds the jump destinations of
 a transaction followed invalid jumps

---
 evm_arithmetization/src/witness/transition.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/evm_arithmetization/src/witness/transition.rs b/evm_arithmetization/src/witness/transition.rs
index 1affc53..dbe5db7 100644
--- a/evm_arithmetization/src/witness/transition.rs
+++ b/evm_arithmetization/src/witness/transition.rs
@@ -441,6 +441,17 @@ where
             }
 
             self.push_cpu(row);
+        } else {
+            // The analysis sets the jumpdest bits natively. It must not follow an invalid
+            // jump either, or whatever runs after it would differ from the actual execution.
+            let addr = MemoryAddress::new(
+                self.get_registers().context,
+                Segment::JumpdestBits,
+                dst as usize,
+            );
+            if self.get_from_memory(addr) != ethereum_types::U256::one() {
+                return Err(ProgramError::InvalidJumpDestination);
+            }
         }
         self.get_mut_generation_state().jump_to(dst as usize)?;
         Ok(())
-- 
2.43.0


From 2ed332be9e653d6ffa4f6f7709bd3b6ea8033815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:33 +0000
Subject: [PATCH 11/55] fix: a creation whose code is refused left that code as
 return data

---
 evm_arithmetization/src/cpu/kernel/asm/core/create.asm | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/create.asm b/evm_arithmetization/src/cpu/kernel/asm/core/create.asm
index 1c8e57e..71d2c2a 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/create.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/create.asm
@@ -225,12 +225,14 @@ create_collision:
 // stack: new_ctx, leftover_gas, success, address, kexit_info
 create_first_byte_ef:
     %revert_checkpoint
+    %mstore_context_metadata(@CTX_METADATA_RETURNDATA_SIZE, 0)
     %stack (leftover_gas, success, address, kexit_info) -> (kexit_info, 0)
     EXIT_KERNEL
 
 // stack: code_size, new_ctx, leftover_gas, success, address, kexit_info
 create_code_too_large:
     %revert_checkpoint
+    %mstore_context_metadata(@CTX_METADATA_RETURNDATA_SIZE, 0)
     %stack (code_size, leftover_gas, success, address, kexit_info) -> (kexit_info, 0)
     EXIT_KERNEL
 
-- 
2.43.0


From 6196925804e96c580e82c03a6353e7c24302ac71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:33 +0000
Subject: [PATCH 12/55] fix: a creation refused before it starts warmed the
 address of the contract

---
 evm_arithmetization/src/cpu/kernel/asm/core/create.asm | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/create.asm b/evm_arithmetization/src/cpu/kernel/asm/core/create.asm
index 71d2c2a..e5f9e66 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/create.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/create.asm
@@ -69,8 +69,6 @@ global sys_create2:
 // Post stack: address
 global create_common:
     // stack: address, value, code_offset, code_len, kexit_info
-    DUP1 %insert_accessed_addresses_no_return
-
     // Check call depth
     %call_depth
     %gt_const(@CALL_STACK_LIMIT)
@@ -83,6 +81,8 @@ global create_common:
     DUP1 %nonce %eq_const(@MAX_NONCE) %jumpi(nonce_overflow) // EIP-2681
     %increment_nonce
     // stack: address, value, code_offset, code_len, kexit_info
+    // The address only becomes warm when the creation is attempted.
+    DUP1 %insert_accessed_addresses_no_return
 
     %checkpoint
 
-- 
2.43.0


From 239b2454d748c82191ada75edb9ba008cfbd669f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:30 +0000
Subject: [PATCH 13/55] verif_hooks: a guarded seam for the prover's advice
 (off by default)

---
 .../src/cpu/kernel/interpreter.rs             |  11 ++
 .../src/generation/prover_input.rs            |  29 +++++
 evm_arithmetization/src/generation/state.rs   |   3 +
 evm_arithmetization/src/lib.rs                |   3 +
 evm_arithmetization/src/verif_hooks.rs        | 102 ++++++++++++++++++
 evm_arithmetization/src/witness/memory.rs     |   2 +
 6 files changed, 150 insertions(+)
 create mode 100644 evm_arithmetization/src/verif_hooks.rs

diff --git a/evm_arithmetization/src/cpu/kernel/interpreter.rs b/evm_arithmetization/src/cpu/kernel/interpreter.rs
index ca65012..5f25e10 100644
--- a/evm_arithmetization/src/cpu/kernel/interpreter.rs
+++ b/evm_arithmetization/src/cpu/kernel/interpreter.rs
@@ -256,6 +256,17 @@ impl<F: RichField> Interpreter<F> {
         let preinit_storage_ll_segment = MemorySegmentState {
             content: storage_leaves,
         };
+        #[cfg(verif_hooks)]
+        let [preinit_trie_data_segment, preinit_accounts_ll_segment, preinit_storage_ll_segment] =
+            [
+                (Segment::TrieData, preinit_trie_data_segment),
+                (Segment::AccountsLinkedList, preinit_accounts_ll_segment),
+                (Segment::StorageLinkedList, preinit_storage_ll_segment),
+            ]
+            .map(|(segment, mut values)| {
+                crate::verif_hooks::initial_memory(segment.unscale(), &mut values.content);
+                values
+            });
         self.insert_preinitialized_segment(Segment::TrieData, preinit_trie_data_segment);
         self.insert_preinitialized_segment(
             Segment::AccountsLinkedList,
diff --git a/evm_arithmetization/src/generation/prover_input.rs b/evm_arithmetization/src/generation/prover_input.rs
index d2f157f..413685c 100644
--- a/evm_arithmetization/src/generation/prover_input.rs
+++ b/evm_arithmetization/src/generation/prover_input.rs
@@ -53,7 +53,36 @@ impl From<Vec<String>> for ProverInputFn {
 }
 
 impl<F: RichField> GenerationState<F> {
+    #[cfg(verif_hooks)]
     pub(crate) fn prover_input(&mut self, input_fn: &ProverInputFn) -> Result<U256, ProgramError> {
+        let stack = (0..8)
+            .map_while(|i| stack_peek(self, i).ok())
+            .collect::<Vec<_>>();
+        crate::verif_hooks::enter();
+        let honest = self.honest_prover_input(input_fn);
+        let mut pokes = vec![];
+        let chosen =
+            crate::verif_hooks::leave(&input_fn.0, honest.as_ref().ok().copied(), stack, &mut pokes);
+        for (context, segment, offset, value) in pokes {
+            let address = MemoryAddress {
+                context,
+                segment,
+                virt: offset,
+            };
+            // A word is only free until its first access.
+            if self.memory.get(address).is_none() || input_fn.0[0] == "account_code" {
+                self.memory.set(address, value);
+            }
+        }
+        chosen.map_or(honest, Ok)
+    }
+
+    #[cfg(not(verif_hooks))]
+    pub(crate) fn prover_input(&mut self, input_fn: &ProverInputFn) -> Result<U256, ProgramError> {
+        self.honest_prover_input(input_fn)
+    }
+
+    fn honest_prover_input(&mut self, input_fn: &ProverInputFn) -> Result<U256, ProgramError> {
         match input_fn.0[0].as_str() {
             "end_of_txns" => self.run_end_of_txns(),
             "trie_ptr" => self.run_trie_ptr(input_fn),
diff --git a/evm_arithmetization/src/generation/state.rs b/evm_arithmetization/src/generation/state.rs
index abe4b4f..84dc1c9 100644
--- a/evm_arithmetization/src/generation/state.rs
+++ b/evm_arithmetization/src/generation/state.rs
@@ -208,6 +208,9 @@ pub(crate) trait State<F: RichField> {
             let registers = self.get_registers();
             let pc = registers.program_counter;
 
+            #[cfg(verif_hooks)]
+            crate::verif_hooks::step(registers.is_kernel, pc, registers.stack_top)?;
+
             let halt_final = registers.is_kernel && halt_offsets.contains(&pc);
             if running && (self.at_halt() || self.at_end_segment(cycle_limit)) {
                 running = false;
diff --git a/evm_arithmetization/src/lib.rs b/evm_arithmetization/src/lib.rs
index 9bc6021..7bd16b7 100644
--- a/evm_arithmetization/src/lib.rs
+++ b/evm_arithmetization/src/lib.rs
@@ -251,6 +251,7 @@
 #![allow(clippy::needless_range_loop)]
 #![allow(clippy::too_many_arguments)]
 #![allow(clippy::field_reassign_with_default)]
+#![allow(unexpected_cfgs)] // `verif_hooks`
 #![feature(let_chains)]
 
 zk_evm_common::check_chain_features!();
@@ -286,6 +287,8 @@ pub mod extension_tower;
 pub mod testing_utils;
 pub mod tries;
 pub mod util;
+#[cfg(verif_hooks)]
+pub mod verif_hooks;
 pub mod world;
 
 // Public definitions and re-exports
diff --git a/evm_arithmetization/src/verif_hooks.rs b/evm_arithmetization/src/verif_hooks.rs
new file mode 100644
index 0000000..1b7936b
--- /dev/null
+++ b/evm_arithmetization/src/verif_hooks.rs
@@ -0,0 +1,102 @@
+//! Seams for deterministic simulation. This module only exists when the crate
+//! is compiled with `--cfg verif_hooks`.
+//!
+//! The kernel's execution depends on values a prover is free to choose: the
+//! results of `PROVER_INPUT`, the code loaded along with one of them, and the
+//! contents of the preinitialized segments. A simulation installs a [`Hook`]
+//! on its thread to choose them, and to watch or end the execution.
+
+use std::cell::{Cell, RefCell};
+
+use anyhow::{bail, Result};
+use ethereum_types::U256;
+
+/// A word of memory to be overwritten: context, unscaled segment, offset and
+/// value.
+pub type Poke = (usize, usize, usize, U256);
+
+pub trait Hook {
+    /// Chooses the result of a `PROVER_INPUT`, given its name, the honest
+    /// result, if any, and the stack, top first. May also change memory.
+    fn advice(
+        &mut self,
+        name: &str,
+        honest: Option<U256>,
+        stack: &[U256],
+        pokes: &mut Vec<Poke>,
+    ) -> Option<U256>;
+
+    /// Changes a preinitialized segment.
+    fn initial_memory(&mut self, unscaled_segment: usize, content: &mut Vec<Option<U256>>);
+
+    /// Called before each instruction, with the number of simulations of user
+    /// code it is nested in. An error ends the execution.
+    fn step(&mut self, depth: usize, kernel: bool, pc: usize, stack_top: U256) -> Result<()>;
+}
+
+thread_local! {
+    static HOOK: RefCell<Option<Box<dyn Hook>>> = const { RefCell::new(None) };
+    static DEPTH: Cell<usize> = const { Cell::new(0) };
+}
+
+/// Installs a hook on the current thread, or removes it.
+pub fn set(hook: Option<Box<dyn Hook>>) {
+    DEPTH.set(0);
+    HOOK.set(hook);
+}
+
+/// The kernel label at an offset, if any, or the offset itself.
+pub fn label(pc: usize) -> String {
+    crate::cpu::kernel::aggregator::KERNEL.offset_name(pc)
+}
+
+/// The offset of a global kernel label.
+pub fn offset(label: &str) -> Option<usize> {
+    crate::cpu::kernel::aggregator::KERNEL
+        .global_labels
+        .get(label)
+        .copied()
+}
+
+pub(crate) fn enter() {
+    DEPTH.set(DEPTH.get() + 1);
+}
+
+pub(crate) fn leave(
+    name: &[String],
+    honest: Option<U256>,
+    stack: Vec<U256>,
+    pokes: &mut Vec<Poke>,
+) -> Option<U256> {
+    DEPTH.set(DEPTH.get().saturating_sub(1));
+    if DEPTH.get() > 0 {
+        return honest;
+    }
+    HOOK.with_borrow_mut(|h| match h {
+        Some(h) => h.advice(&name.join("::"), honest, &stack, pokes),
+        None => honest,
+    })
+}
+
+pub(crate) fn initial_memory(unscaled_segment: usize, content: &mut Vec<Option<U256>>) {
+    HOOK.with_borrow_mut(|h| {
+        if let Some(h) = h {
+            h.initial_memory(unscaled_segment, content)
+        }
+    })
+}
+
+pub(crate) fn step(kernel: bool, pc: usize, stack_top: U256) -> Result<()> {
+    HOOK.with_borrow_mut(|h| match h {
+        Some(h) => h.step(DEPTH.get(), kernel, pc, stack_top),
+        None => Ok(()),
+    })
+}
+
+/// Keeps a wrong pointer from using up the memory of the machine.
+pub(crate) fn check_write(offset: usize) -> Result<()> {
+    if offset > 1 << 22 && HOOK.with_borrow(|h| h.is_some()) {
+        bail!("offset {offset} is out of the simulated machine's memory");
+    }
+    Ok(())
+}
diff --git a/evm_arithmetization/src/witness/memory.rs b/evm_arithmetization/src/witness/memory.rs
index 7abced8..392ef86 100644
--- a/evm_arithmetization/src/witness/memory.rs
+++ b/evm_arithmetization/src/witness/memory.rs
@@ -339,6 +339,8 @@ impl MemorySegmentState {
 
     #[inline]
     pub(crate) fn set(&mut self, virtual_addr: usize, value: U256) {
+        #[cfg(verif_hooks)]
+        crate::verif_hooks::check_write(virtual_addr).unwrap();
         if virtual_addr >= self.content.len() {
             self.content.resize(virtual_addr + 1, None);
         }
-- 
2.43.0


From f72790ea1510f857bbd5135179f883a996c72927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:43 +0000
Subject: [PATCH 14/55] fix: the blob base fee was whatever the prover said

---
 .../src/cpu/kernel/asm/memory/metadata.asm    | 40 ++++++++++++++++++-
 .../cpu/kernel/asm/transactions/type_3.asm    |  2 +-
 .../src/cpu/kernel/constants/mod.rs           | 19 ++++++++-
 .../src/generation/prover_input.rs            | 31 +-------------
 4 files changed, 58 insertions(+), 34 deletions(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/memory/metadata.asm b/evm_arithmetization/src/cpu/kernel/asm/memory/metadata.asm
index 5ac85f1..7423ca6 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/memory/metadata.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/memory/metadata.asm
@@ -317,10 +317,48 @@ global sys_basefee:
         // stack: kexit_info
         %charge_gas_const(@GAS_BASE)
         // stack: kexit_info
-        PROVER_INPUT(blobbasefee)
+        %blob_base_fee
         // stack: blobbasefee, kexit_info
         SWAP1
         EXIT_KERNEL
+
+    // Computes the blob base fee from the excess blob gas of the block. See `fake_exponential`
+    // in <https://eips.ethereum.org/EIPS/eip-4844>.
+    // Pre stack: retdest
+    // Post stack: blobbasefee
+    global blob_base_fee:
+        // stack: retdest
+        PUSH 1 // i
+        PUSH @MIN_BASE_FEE_PER_BLOB_GAS
+        PUSH @BLOB_BASE_FEE_UPDATE_FRACTION
+        MUL
+        PUSH 0
+    blob_base_fee_loop:
+        // stack: output, accum, i, retdest
+        DUP2 ISZERO %jumpi(blob_base_fee_end)
+        DUP2 ADD
+        // stack: output + accum, accum, i, retdest
+        SWAP1
+        %mload_global_metadata(@GLOBAL_METADATA_BLOCK_EXCESS_BLOB_GAS)
+        MUL
+        // stack: accum * excess_blob_gas, output, i, retdest
+        DUP3 PUSH @BLOB_BASE_FEE_UPDATE_FRACTION MUL
+        SWAP1 DIV
+        // stack: accum * excess_blob_gas / (i * fraction), output, i, retdest
+        SWAP2 %increment SWAP2
+        SWAP1
+        %jump(blob_base_fee_loop)
+    blob_base_fee_end:
+        // stack: output, accum, i, retdest
+        PUSH @BLOB_BASE_FEE_UPDATE_FRACTION SWAP1 DIV
+        %stack (blobbasefee, accum, i, retdest) -> (retdest, blobbasefee)
+        JUMP
+
+    %macro blob_base_fee
+        PUSH %%after
+        %jump(blob_base_fee)
+    %%after:
+    %endmacro
 }
 
 global sys_blockhash:
diff --git a/evm_arithmetization/src/cpu/kernel/asm/transactions/type_3.asm b/evm_arithmetization/src/cpu/kernel/asm/transactions/type_3.asm
index f84f95c..a34c4ce 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/transactions/type_3.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/transactions/type_3.asm
@@ -105,7 +105,7 @@ store_origin:
     PUSH @GAS_PER_BLOB
     %get_blob_versioned_hashes_list_length
     MUL
-    PROVER_INPUT(blobbasefee)
+    %blob_base_fee
     MUL
 %endmacro
 
diff --git a/evm_arithmetization/src/cpu/kernel/constants/mod.rs b/evm_arithmetization/src/cpu/kernel/constants/mod.rs
index 911aab6..9eb3dde 100644
--- a/evm_arithmetization/src/cpu/kernel/constants/mod.rs
+++ b/evm_arithmetization/src/cpu/kernel/constants/mod.rs
@@ -82,6 +82,15 @@ pub(crate) fn evm_constants() -> HashMap<String, U256> {
         cancun_constants::HISTORY_BUFFER_LENGTH.value,
     );
 
+    c.insert(
+        cancun_constants::BLOB_BASE_FEE_UPDATE_FRACTION.name.into(),
+        cancun_constants::BLOB_BASE_FEE_UPDATE_FRACTION.value,
+    );
+    c.insert(
+        cancun_constants::MIN_BASE_FEE_PER_BLOB_GAS.name.into(),
+        cancun_constants::MIN_BASE_FEE_PER_BLOB_GAS.value,
+    );
+
     c.insert(
         global_exit_root::GLOBAL_EXIT_ROOT_MANAGER_L2_STATE_KEY
             .0
@@ -413,9 +422,15 @@ pub mod cancun_constants {
 
     use super::*;
 
-    pub const BLOB_BASE_FEE_UPDATE_FRACTION: U256 = U256([0x32f0ed, 0, 0, 0]);
+    pub const BLOB_BASE_FEE_UPDATE_FRACTION: Named<U256> = Named {
+        name: "BLOB_BASE_FEE_UPDATE_FRACTION",
+        value: U256([0x32f0ed, 0, 0, 0]),
+    };
 
-    pub const MIN_BASE_FEE_PER_BLOB_GAS: U256 = U256::one();
+    pub const MIN_BASE_FEE_PER_BLOB_GAS: Named<U256> = Named {
+        name: "MIN_BASE_FEE_PER_BLOB_GAS",
+        value: U256::one(),
+    };
 
     pub const KZG_VERSIONED_HASH: u8 = 0x01;
 
diff --git a/evm_arithmetization/src/generation/prover_input.rs b/evm_arithmetization/src/generation/prover_input.rs
index 413685c..ee126b8 100644
--- a/evm_arithmetization/src/generation/prover_input.rs
+++ b/evm_arithmetization/src/generation/prover_input.rs
@@ -18,8 +18,7 @@ use super::linked_list::{
 use super::mpt::load_state_mpt;
 use crate::cpu::kernel::cancun_constants::KZG_VERSIONED_HASH;
 use crate::cpu::kernel::constants::cancun_constants::{
-    BLOB_BASE_FEE_UPDATE_FRACTION, G2_TRUSTED_SETUP_POINT, MIN_BASE_FEE_PER_BLOB_GAS,
-    POINT_EVALUATION_PRECOMPILE_RETURN_VALUE,
+    G2_TRUSTED_SETUP_POINT, POINT_EVALUATION_PRECOMPILE_RETURN_VALUE,
 };
 use crate::cpu::kernel::constants::context_metadata::ContextMetadata;
 use crate::cpu::kernel::interpreter::simulate_cpu_and_get_user_jumps;
@@ -90,7 +89,6 @@ impl<F: RichField> GenerationState<F> {
             "sf" => self.run_sf(input_fn),
             "ffe" => self.run_ffe(input_fn),
             "rlp" => self.run_rlp(),
-            "blobbasefee" => self.run_blobbasefee(),
             "current_hash" => self.run_current_hash(),
             "account_code" => self.run_account_code(),
             "bignum_modmul" => self.run_bignum_modmul(),
@@ -223,15 +221,6 @@ impl<F: RichField> GenerationState<F> {
             .ok_or(ProgramError::ProverInputError(OutOfRlpData))
     }
 
-    fn run_blobbasefee(&mut self) -> Result<U256, ProgramError> {
-        let excess_blob_gas = self.inputs.block_metadata.block_excess_blob_gas;
-        Ok(fake_exponential(
-            MIN_BASE_FEE_PER_BLOB_GAS,
-            excess_blob_gas,
-            BLOB_BASE_FEE_UPDATE_FRACTION,
-        ))
-    }
-
     fn run_current_hash(&mut self) -> Result<U256, ProgramError> {
         Ok(U256::from_big_endian(&self.inputs.block_hashes.cur_hash.0))
     }
@@ -1139,21 +1128,3 @@ fn modexp(x: U256, e: U256, n: U256) -> Result<U256, ProgramError> {
 
     Ok(product)
 }
-
-/// See EIP-4844: <https://eips.ethereum.org/EIPS/eip-4844#helpers>.
-fn fake_exponential(factor: U256, numerator: U256, denominator: U256) -> U256 {
-    if factor.is_zero() || numerator.is_zero() {
-        return factor;
-    }
-
-    let mut i = 1;
-    let mut output = U256::zero();
-    let mut numerator_accum = factor * denominator;
-    while !numerator_accum.is_zero() {
-        output += numerator_accum;
-        numerator_accum = (numerator_accum * numerator) / (denominator * i);
-        i += 1;
-    }
-
-    output / denominator
-}
-- 
2.43.0


From acf70ea863e8aafa05af4a3f813ef2641fc82da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:43 +0000
Subject: [PATCH 15/55] fix: a prover could read any account or slot as missing

---
 .../asm/mpt/linked_list/linked_list.asm       | 49 ++++++++++++++++++-
 1 file changed, 47 insertions(+), 2 deletions(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm b/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm
index 650d69d..333714e 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm
@@ -301,7 +301,23 @@ account_found:
 
 account_not_found:
     // stack: pred_addr_key, pred_ptr, addr_key, retdest
-    %stack (pred_addr_key, pred_ptr, addr_key, retdest) -> (retdest, 0)
+    POP
+    // get the value of the next address
+    %add_const(@ACCOUNTS_NEXT_NODE_PTR)
+    MLOAD_GENERAL
+    // stack: next_ptr, addr_key, retdest
+    // Check that the predecessor is not a deleted node
+    DUP1
+    %eq_const(@U256_MAX)
+    %assert_zero
+    MLOAD_GENERAL
+    // stack: next_addr_key, addr_key, retdest
+    // Here, (addr_key > pred_addr_key) || (pred_ptr == @SEGMENT_ACCOUNTS_LINKED_LIST).
+    // We should have (addr_key < next_addr_key), as otherwise the account could be further in the list.
+    %assert_gt
+    // stack: retdest
+    PUSH 0
+    SWAP1
     JUMP
 
 %macro remove_account_from_linked_list
@@ -831,7 +847,36 @@ global search_slot:
     PANIC
 slot_not_found:    
     // stack: pred_addr_or_pred_key, pred_ptr, addr_key, key, value, retdest
-    %stack (pred_addr_or_pred_key, pred_ptr, addr_key, key, value, retdest)
+    POP
+    %add_const(@STORAGE_NEXT_NODE_PTR)
+    MLOAD_GENERAL
+    // stack: next_ptr, addr_key, key, value, retdest
+    // Check that the predecessor is not a deleted node
+    DUP1
+    %eq_const(@U256_MAX)
+    %assert_zero
+    DUP1
+    MLOAD_GENERAL
+    // stack: next_addr_key, next_ptr, addr_key, key, value, retdest
+    DUP3 DUP2
+    // The slot is smaller than the next one, as otherwise it could be further in the list.
+    GT
+    %jumpi(slot_not_found_next_ok)
+    // stack: next_addr_key, next_ptr, addr_key, key, value, retdest
+    // If addr_key >= next_addr_key, it must hold that next_addr_key == addr_key.
+    DUP3
+    %assert_eq
+    // stack: next_ptr, addr_key, key, value, retdest
+    DUP1
+    %increment
+    MLOAD_GENERAL
+    // stack: next_key, next_ptr, addr_key, key, value, retdest
+    DUP4 DUP2
+    // The next key must be strictly larger
+    %assert_gt
+slot_not_found_next_ok:
+    // stack: next_addr_or_next_key, next_ptr, addr_key, key, value, retdest
+    %stack (next_addr_or_next_key, next_ptr, addr_key, key, value, retdest)
         -> (retdest, value)
     JUMP
 
-- 
2.43.0


From ff0539ecf6a7a34c82047c495290407d6ee5abc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:43 +0000
Subject: [PATCH 16/55] fix: a prover could keep the slots of a deleted account

---
 .../asm/mpt/linked_list/linked_list.asm       | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm b/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm
index 333714e..d8cbf71 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm
@@ -950,10 +950,14 @@ global remove_all_account_slots:
     // pred_ptr/5, retdest
     %get_valid_slot_ptr
     // stack: pred_ptr, addr_key, retdest
-    // First, check that the previous address is not `addr`
+    // First, check that the previous address is strictly smaller than `addr`,
+    // or that it is the special node with key @U256_MAX.
     DUP1 MLOAD_GENERAL
     // stack: pred_addr_key, pred_ptr, addr_key, retdest
-    DUP3 EQ %jumpi(panic)
+    DUP3 GT
+    DUP2 %eq_const(@SEGMENT_STORAGE_LINKED_LIST)
+    ADD // OR
+    %assert_nonzero
     // stack: pred_ptr, addr_key, retdest
     DUP1
 
@@ -962,7 +966,8 @@ remove_all_slots_loop:
     // stack: pred_ptr, pred_ptr, addr_key, retdest
     %add_const(@STORAGE_NEXT_NODE_PTR) DUP1 MLOAD_GENERAL
     // stack: cur_ptr, cur_ptr_ptr, pred_ptr, addr_key, retdest
-    DUP1 %eq_const(@U256_MAX) %jumpi(remove_all_slots_end)
+    // Check that the predecessor is not a deleted node
+    DUP1 %eq_const(@U256_MAX) %jumpi(panic)
     DUP1 %add_const(@STORAGE_NEXT_NODE_PTR) MLOAD_GENERAL 
     // stack: next_ptr, cur_ptr, cur_ptr_ptr, pred_ptr, addr_key, retdest
     SWAP1 DUP1
@@ -983,8 +988,12 @@ remove_all_slots_loop:
     %jump(remove_all_slots_loop)
 
 remove_all_slots_pop_and_end:
-    POP
-remove_all_slots_end:
+    // stack: cur_ptr, next_ptr, cur_ptr_ptr, pred_ptr, addr_key, retdest
+    // The first slot we leave must be past those of `addr`.
+    MLOAD_GENERAL
+    DUP5 SWAP1
+    // stack: cur_addr_key, addr_key, next_ptr, cur_ptr_ptr, pred_ptr, addr_key, retdest
+    %assert_gt
     // stack: next_ptr, cur_ptr_ptr, pred_ptr, addr_key, retdest
     %pop4 JUMP
 
-- 
2.43.0


From 5d3fb49ca6a890a45ca9b8fb24da62e2ca81e3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:59 +0000
Subject: [PATCH 17/55] fix: a prover could use words below a list's segment as
 its nodes

---
 .../src/cpu/kernel/asm/core/access_lists.asm              | 8 ++++++++
 .../src/cpu/kernel/asm/mpt/linked_list/linked_list.asm    | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/access_lists.asm b/evm_arithmetization/src/cpu/kernel/asm/core/access_lists.asm
index 84cc407..571077b 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/access_lists.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/access_lists.asm
@@ -85,6 +85,10 @@ global init_access_lists:
     // stack: scaled_len/2, ptr/2, ptr/2
     %assert_gt
     %mul_const(2)
+    // The node must not be below the segment either.
+    DUP1
+    PUSH @SEGMENT_ACCESSED_ADDRESSES
+    %assert_le
     // stack: ptr
 %endmacro
 
@@ -229,6 +233,10 @@ global remove_accessed_addresses:
     // stack: scaled_len/4, ptr/4, ptr/4
     %assert_gt
     %mul_const(4)
+    // The node must not be below the segment either.
+    DUP1
+    PUSH @SEGMENT_ACCESSED_STORAGE_KEYS
+    %assert_le
     // stack: ptr
 %endmacro
 
diff --git a/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm b/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm
index d8cbf71..ea9ada1 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm
@@ -159,6 +159,10 @@ store_initial_accounts_end:
     // stack: @SEGMENT_ACCOUNTS_LINKED_LIST/4 + accounts_linked_list_len/4, ptr/4, ptr/4
     %assert_gt
     %mul_const(4)
+    // The node must not be below the segment either.
+    DUP1
+    PUSH @SEGMENT_ACCOUNTS_LINKED_LIST
+    %assert_le
 %endmacro
 
 global insert_account_with_overwrite:
-- 
2.43.0


From 6f9e3392f868596413e4feffcedaeb0409f1738f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:17 +0000
Subject: [PATCH 18/55] fix: a prover could deny that a destination is a
 JUMPDEST

---
 .../src/cpu/kernel/asm/core/jumpdest_analysis.asm        | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/jumpdest_analysis.asm b/evm_arithmetization/src/cpu/kernel/asm/core/jumpdest_analysis.asm
index 842d794..a17b2ff 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/jumpdest_analysis.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/jumpdest_analysis.asm
@@ -267,10 +267,15 @@ global verify_non_jumpdest:
     // stack: addr, ctx
     PROVER_INPUT(jumpdest_table::non_jumpdest_proof)
     // stack: proof, addr, ctx,
-    // Check that proof <= addr as otherwise it allows
+    // Check that the opcodes up to `addr` can be walked through from proof, that
+    // is that proof == 0 or proof + 32 <= addr, as otherwise it allows
     // a malicious prover to leave `@SEGMENT_JUMPDEST_BITS` as 0
     // at position addr while it shouldn't.
-    DUP2 DUP2
+    DUP2
+    DUP2 ISZERO %not_bit %mul_const(32)
+    // stack: 32 * (proof != 0), addr, proof, addr, ctx
+    DUP3 ADD
+    // stack: proof_end, addr, proof, addr, ctx
     %assert_le
     %write_table_if_jumpdest
     JUMP
-- 
2.43.0


From 01d972850e06dc78d2499f0286127d778805a1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:17 +0000
Subject: [PATCH 19/55] fix: a prover could have ecrecover fail on a valid
 signature

---
 .../src/cpu/kernel/asm/curve/secp256k1/lift_x.asm   | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/curve/secp256k1/lift_x.asm b/evm_arithmetization/src/cpu/kernel/asm/curve/secp256k1/lift_x.asm
index 94e9234..1f46b89 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/curve/secp256k1/lift_x.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/curve/secp256k1/lift_x.asm
@@ -18,7 +18,16 @@
     // stack: y, x^3+7, y, parity
     %squaremodn_secp_base
     // stack: y^2, x^3+7, y, parity
-    EQ
+    DUP2 DUP2 EQ
+    // stack: sqrtOk, y^2, x^3+7, y, parity
+    // -1 is not a square, so exactly one of x^3+7 and -(x^3+7) is. If `y` isn't a root of the
+    // former, it must be one of the latter, as otherwise the prover could deny that there is a root.
+    SWAP2
+    // stack: x^3+7, y^2, sqrtOk, y, parity
+    %addmodn_secp_base
+    // stack: y^2 + x^3+7, sqrtOk, y, parity
+    DUP2 ISZERO MUL
+    %assert_zero
     // stack: sqrtOk, y, parity
     SWAP2
     // stack: parity, y, sqrtOk
@@ -26,6 +35,8 @@
     // stack: 2, parity, y, sqrtOk
     DUP3
     // stack: y, 2, parity, y, sqrtOk
+    // The parity is that of the canonical representative.
+    DUP1 %secp_base %assert_gt
     MOD
     // stack: y % 2, parity, y, sqrtOk
     EQ
-- 
2.43.0


From 7b32350a4ba31f12892d72fe003a3e3105b6c6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:42 +0000
Subject: [PATCH 20/55] revert: a prover could deny that a destination is a
 JUMPDEST

test_verify_non_jumpdest requires that the honest proof for a valid JUMPDEST leaves its bit unset.
---
 .../src/cpu/kernel/asm/core/jumpdest_analysis.asm        | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/jumpdest_analysis.asm b/evm_arithmetization/src/cpu/kernel/asm/core/jumpdest_analysis.asm
index a17b2ff..842d794 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/jumpdest_analysis.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/jumpdest_analysis.asm
@@ -267,15 +267,10 @@ global verify_non_jumpdest:
     // stack: addr, ctx
     PROVER_INPUT(jumpdest_table::non_jumpdest_proof)
     // stack: proof, addr, ctx,
-    // Check that the opcodes up to `addr` can be walked through from proof, that
-    // is that proof == 0 or proof + 32 <= addr, as otherwise it allows
+    // Check that proof <= addr as otherwise it allows
     // a malicious prover to leave `@SEGMENT_JUMPDEST_BITS` as 0
     // at position addr while it shouldn't.
-    DUP2
-    DUP2 ISZERO %not_bit %mul_const(32)
-    // stack: 32 * (proof != 0), addr, proof, addr, ctx
-    DUP3 ADD
-    // stack: proof_end, addr, proof, addr, ctx
+    DUP2 DUP2
     %assert_le
     %write_table_if_jumpdest
     JUMP
-- 
2.43.0


From 1bedb9cbb24f5b17b2413503732bf98212fec996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:19 +0000
Subject: [PATCH 21/55] fix: the honest proof that an opcode is no jumpdest is
 its address again

---
 evm_arithmetization/src/generation/prover_input.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/evm_arithmetization/src/generation/prover_input.rs b/evm_arithmetization/src/generation/prover_input.rs
index ee126b8..a723cce 100644
--- a/evm_arithmetization/src/generation/prover_input.rs
+++ b/evm_arithmetization/src/generation/prover_input.rs
@@ -415,11 +415,19 @@ impl<F: RichField> GenerationState<F> {
     /// Returns a non-jumpdest proof for the address on the top of the stack. A
     /// non-jumpdest proof is the address closest to the address on the top of
     /// the stack from which [`get_proofs_and_jumpdests`] could prove a
-    /// jumpdest, or zero if there is none.
+    /// jumpdest, or zero if there is none. The address itself is enough if it
+    /// is that of an opcode.
     fn run_next_non_jumpdest_proof(&self) -> Result<U256, ProgramError> {
         let code = self.get_current_code()?;
         let address = u256_to_usize(stack_peek(self, 0)?)?;
-        Ok(get_closest_proof(&code, address).into())
+        let is_opcode = CodeIterator::until(&code, address + 1)
+            .last()
+            .is_some_and(|(addr, _opcode)| addr == address);
+        Ok(if is_opcode && address >= 32 {
+            address.into()
+        } else {
+            get_closest_proof(&code, address).into()
+        })
     }
 
     /// Returns a pointer to an element in the list whose value is such that
-- 
2.43.0


From 3a8e42192259d11fed5650ce3e1795bdd8c04794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:26 +0000
Subject: [PATCH 22/55] fix: the checks of the prover's pointers and roots fit
 in the kernel's size

The kernel's code takes part of the 2^16 rows that the smallest memory tables have.
---
 .../cpu/kernel/asm/curve/secp256k1/lift_x.asm | 50 +++++++++----------
 .../asm/mpt/linked_list/linked_list.asm       | 22 +++-----
 2 files changed, 33 insertions(+), 39 deletions(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/curve/secp256k1/lift_x.asm b/evm_arithmetization/src/cpu/kernel/asm/curve/secp256k1/lift_x.asm
index 1f46b89..4071ae9 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/curve/secp256k1/lift_x.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/curve/secp256k1/lift_x.asm
@@ -18,34 +18,34 @@
     // stack: y, x^3+7, y, parity
     %squaremodn_secp_base
     // stack: y^2, x^3+7, y, parity
-    DUP2 DUP2 EQ
-    // stack: sqrtOk, y^2, x^3+7, y, parity
-    // -1 is not a square, so exactly one of x^3+7 and -(x^3+7) is. If `y` isn't a root of the
-    // former, it must be one of the latter, as otherwise the prover could deny that there is a root.
-    SWAP2
-    // stack: x^3+7, y^2, sqrtOk, y, parity
-    %addmodn_secp_base
-    // stack: y^2 + x^3+7, sqrtOk, y, parity
-    DUP2 ISZERO MUL
-    %assert_zero
-    // stack: sqrtOk, y, parity
-    SWAP2
-    // stack: parity, y, sqrtOk
+    // Exactly one of x^3+7 and -(x^3+7) is a square, as -1 is not. If `y` isn't a root of the
+    // former, it must be one of the latter, as otherwise the prover could deny that there is a
+    // root. It must also be canonical, for its parity to be that of the root.
+    %secp_base
+    // stack: N, y^2, x^3+7, y, parity
+    DUP4 DUP2 %assert_gt
+    DUP3 DUP2 SUB
+    // stack: N - (x^3+7), N, y^2, x^3+7, y, parity
+    DUP3 EQ
+    // stack: negSqrtOk, N, y^2, x^3+7, y, parity
+    SWAP3 SWAP1 SWAP2 EQ
+    // stack: sqrtOk, N, negSqrtOk, y, parity
+    SWAP2 DUP3 ADD
+    // stack: negSqrtOk + sqrtOk, N, sqrtOk, y, parity
+    %assert_nonzero
+    // stack: N, sqrtOk, y, parity
+    DUP3 SWAP1 SUB
+    // stack: N - y, sqrtOk, y, parity
+    SWAP3
+    // stack: parity, sqrtOk, y, N - y
     PUSH 2
-    // stack: 2, parity, y, sqrtOk
-    DUP3
-    // stack: y, 2, parity, y, sqrtOk
-    // The parity is that of the canonical representative.
-    DUP1 %secp_base %assert_gt
+    DUP4
+    // stack: y, 2, parity, sqrtOk, y, N - y
     MOD
-    // stack: y % 2, parity, y, sqrtOk
+    // stack: y % 2, parity, sqrtOk, y, N - y
     EQ
-    // stack: correctParity, y, sqrtOk
-    DUP2
-    // stack: y, correctParity, y, sqrtOk
-    %secp_base
-    // stack: N, y, correctParity, y, sqrtOk
-    SUB
+    // stack: correctParity, sqrtOk, y, N - y
+    SWAP1 SWAP3
     // stack: N - y, correctParity, y, sqrtOk
     SWAP1
     // stack: correctParity, N - y, y, sqrtOk
diff --git a/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm b/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm
index ea9ada1..35283cf 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm
@@ -159,10 +159,6 @@ store_initial_accounts_end:
     // stack: @SEGMENT_ACCOUNTS_LINKED_LIST/4 + accounts_linked_list_len/4, ptr/4, ptr/4
     %assert_gt
     %mul_const(4)
-    // The node must not be below the segment either.
-    DUP1
-    PUSH @SEGMENT_ACCOUNTS_LINKED_LIST
-    %assert_le
 %endmacro
 
 global insert_account_with_overwrite:
@@ -310,10 +306,9 @@ account_not_found:
     %add_const(@ACCOUNTS_NEXT_NODE_PTR)
     MLOAD_GENERAL
     // stack: next_ptr, addr_key, retdest
-    // Check that the predecessor is not a deleted node
-    DUP1
-    %eq_const(@U256_MAX)
-    %assert_zero
+    // Check that the predecessor is not a deleted node, i.e. that next_ptr != @U256_MAX
+    DUP1 NOT
+    %assert_nonzero
     MLOAD_GENERAL
     // stack: next_addr_key, addr_key, retdest
     // Here, (addr_key > pred_addr_key) || (pred_ptr == @SEGMENT_ACCOUNTS_LINKED_LIST).
@@ -855,10 +850,9 @@ slot_not_found:
     %add_const(@STORAGE_NEXT_NODE_PTR)
     MLOAD_GENERAL
     // stack: next_ptr, addr_key, key, value, retdest
-    // Check that the predecessor is not a deleted node
-    DUP1
-    %eq_const(@U256_MAX)
-    %assert_zero
+    // Check that the predecessor is not a deleted node, i.e. that next_ptr != @U256_MAX
+    DUP1 NOT
+    %assert_nonzero
     DUP1
     MLOAD_GENERAL
     // stack: next_addr_key, next_ptr, addr_key, key, value, retdest
@@ -970,8 +964,8 @@ remove_all_slots_loop:
     // stack: pred_ptr, pred_ptr, addr_key, retdest
     %add_const(@STORAGE_NEXT_NODE_PTR) DUP1 MLOAD_GENERAL
     // stack: cur_ptr, cur_ptr_ptr, pred_ptr, addr_key, retdest
-    // Check that the predecessor is not a deleted node
-    DUP1 %eq_const(@U256_MAX) %jumpi(panic)
+    // Check that the predecessor is not a deleted node, i.e. that cur_ptr != @U256_MAX
+    DUP1 NOT %assert_nonzero
     DUP1 %add_const(@STORAGE_NEXT_NODE_PTR) MLOAD_GENERAL 
     // stack: next_ptr, cur_ptr, cur_ptr_ptr, pred_ptr, addr_key, retdest
     SWAP1 DUP1
-- 
2.43.0


From de8bf488ea677c4945c0e32c4230792be069b308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:52 +0000
Subject: [PATCH 23/55] fix: the point evaluation precompile accepted inputs of
 any length

---
 .../src/cpu/kernel/asm/core/precompiles/kzg_peval.asm         | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/precompiles/kzg_peval.asm b/evm_arithmetization/src/cpu/kernel/asm/core/precompiles/kzg_peval.asm
index 5a8a372..297f178 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/precompiles/kzg_peval.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/precompiles/kzg_peval.asm
@@ -14,6 +14,10 @@ global precompile_kzg_peval:
 
     %charge_gas_const(@KZG_PEVAL_GAS)
 
+    // The input must have exactly 192 bytes.
+    %calldatasize
+    %eq_const(192) ISZERO %jumpi(fault_exception)
+
     // Load `versioned_hash | z | y | commitment | proof` from the call data using `MLOAD_32BYTES`.
     // Note that `z` and `y` are padded 32 byte big endian values, and `commitment` and `proof` are
     // both 48 bytes big-endian encoded values.
-- 
2.43.0


From 136aea4452590b68a2d31b30a295aabf75673937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:52 +0000
Subject: [PATCH 24/55] fix: the point evaluation precompile accepted values
 equal to the modulus

---
 evm_arithmetization/src/curve_pairings.rs          | 4 ++--
 evm_arithmetization/src/generation/prover_input.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/evm_arithmetization/src/curve_pairings.rs b/evm_arithmetization/src/curve_pairings.rs
index 8152bdd..84520b1 100644
--- a/evm_arithmetization/src/curve_pairings.rs
+++ b/evm_arithmetization/src/curve_pairings.rs
@@ -698,8 +698,8 @@ pub mod bls381 {
             }
         };
 
-        if x.val > BLS_BASE {
-            return Err(anyhow!("X coordinate is larger than modulus."));
+        if x.val >= BLS_BASE {
+            return Err(anyhow!("X coordinate is not smaller than modulus."));
         }
 
         if infinity_flag_set {
diff --git a/evm_arithmetization/src/generation/prover_input.rs b/evm_arithmetization/src/generation/prover_input.rs
index a723cce..b9a3a2c 100644
--- a/evm_arithmetization/src/generation/prover_input.rs
+++ b/evm_arithmetization/src/generation/prover_input.rs
@@ -663,7 +663,7 @@ impl<F: RichField> GenerationState<F> {
         let proof_lo = stack_peek(self, 6)?;
 
         // Validate scalars
-        if z > BLS_SCALAR || y > BLS_SCALAR {
+        if z >= BLS_SCALAR || y >= BLS_SCALAR {
             return Ok(U256::zero());
         }
 
-- 
2.43.0


From 9482e4eb142384dd16e8f393b6d31005d5886d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:06 +0000
Subject: [PATCH 25/55] fix: the point evaluation precompile accepted points
 outside the subgroup

---
 evm_arithmetization/src/curve_pairings.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/evm_arithmetization/src/curve_pairings.rs b/evm_arithmetization/src/curve_pairings.rs
index 84520b1..1e5d448 100644
--- a/evm_arithmetization/src/curve_pairings.rs
+++ b/evm_arithmetization/src/curve_pairings.rs
@@ -570,7 +570,7 @@ pub mod bls381 {
     use anyhow::{anyhow, Result};
 
     use super::*;
-    use crate::extension_tower::BLS_BASE;
+    use crate::extension_tower::{BLS_BASE, BLS_SCALAR};
 
     const B_G1: BLS381 = BLS381 {
         val: U512([4, 0, 0, 0, 0, 0, 0, 0]),
@@ -727,12 +727,30 @@ pub mod bls381 {
                 return Err(anyhow!("Byte flags are contradictory"));
             }
 
-            Ok(CurveAff::<BLS381> { x, y })
+            let point = CurveAff::<BLS381> { x, y };
+            if !g1_is_in_subgroup(point) {
+                return Err(anyhow!("This point is not in the subgroup."));
+            }
+
+            Ok(point)
         } else {
             Err(anyhow!("This point is not on the curve."))
         }
     }
 
+    /// Checks that the order of a point of the curve divides the order of the
+    /// scalar field.
+    fn g1_is_in_subgroup(point: CurveAff<BLS381>) -> bool {
+        let mut order = [0u8; 32];
+        BLS_SCALAR.to_big_endian(&mut order);
+        let acc = order
+            .into_iter()
+            .fold(CurveAff::<BLS381>::unit(), |acc, byte| {
+                acc * 256_i32 + point * byte as i32
+            });
+        acc == CurveAff::<BLS381>::unit()
+    }
+
     // The optimal Ate pairing takes a point each from the curve and its twist and
     // outputs an Fp12 element.
     pub(crate) fn ate_optim(p: CurveAff<BLS381>, q: CurveAff<Fp2<BLS381>>) -> Fp12<BLS381> {
-- 
2.43.0


From ac207578a32eb640a799411521d94833cb567f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:02 +0000
Subject: [PATCH 26/55] fix: transient storage was searched word by word
 instead of entry by entry

---
 .../src/cpu/kernel/asm/memory/transient_storage.asm             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/memory/transient_storage.asm b/evm_arithmetization/src/cpu/kernel/asm/memory/transient_storage.asm
index 8aa32c3..ff14c77 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/memory/transient_storage.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/memory/transient_storage.asm
@@ -56,7 +56,7 @@ search_transient_storage_loop:
     %jumpi(search_transient_storage_found)
 increment_and_loop:
     // stack: i, len, addr, key, retdest
-    %increment
+    %add_const(3)
     %jump(search_transient_storage_loop)
 
 search_transient_storage_not_found:
-- 
2.43.0


From 2902af8f0f62f41dc83caa6a4f5bcca5536fa935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:02 +0000
Subject: [PATCH 27/55] fix: CREATE of empty code was refused after a call that
 returned bytes starting with 0xEF

---
 evm_arithmetization/src/cpu/kernel/asm/core/create.asm | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/create.asm b/evm_arithmetization/src/cpu/kernel/asm/core/create.asm
index e5f9e66..d6f6db6 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/create.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/create.asm
@@ -148,12 +148,15 @@ after_constructor:
     // stack: new_ctx, leftover_gas, success, address, kexit_info
     POP
 
-    // EIP-3541: Reject new contract code starting with the 0xEF byte
+    // EIP-3541: Reject new contract code starting with the 0xEF byte, if code_size > 0
     PUSH @SEGMENT_RETURNDATA
     GET_CONTEXT
     %build_address_no_offset
     MLOAD_GENERAL
-    %eq_const(0xEF) %jumpi(create_first_byte_ef)
+    %eq_const(0xEF)
+    %returndatasize
+    MUL
+    %jumpi(create_first_byte_ef)
 
     // Charge gas for the code size.
     // stack: leftover_gas, success, address, kexit_info
-- 
2.43.0


From 6fab01120483345438c16d5e6427d30f4376a13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:02 +0000
Subject: [PATCH 28/55] fix: the prover pointed at slots removed along with
 their account

---
 evm_arithmetization/src/generation/prover_input.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/evm_arithmetization/src/generation/prover_input.rs b/evm_arithmetization/src/generation/prover_input.rs
index b9a3a2c..a324b7e 100644
--- a/evm_arithmetization/src/generation/prover_input.rs
+++ b/evm_arithmetization/src/generation/prover_input.rs
@@ -633,6 +633,10 @@ impl<F: RichField> GenerationState<F> {
             .range(..(addr, U256::zero()))
             .next_back()
             .unwrap_or((&DUMMYHEAD, &(Segment::StorageLinkedList as usize)));
+        // The kernel is about to remove all the nodes of this account.
+        self.state_ptrs
+            .storage
+            .retain(|&(slot_addr, _), _| slot_addr != addr);
 
         Ok(U256::from(
             (pred_ptr - Segment::StorageLinkedList as usize) / STORAGE_LINKED_LIST_NODE_SIZE,
-- 
2.43.0


From 4d79a056a524012dcff286d935ed498502e837ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:30 +0000
Subject: [PATCH 29/55] fix: a transaction could use more gas than is left in
 its block

The gas limit of a transaction was compared with the gas limit of the block,
not with what the transactions before it left of it.
---
 evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm b/evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm
index 28252d0..c5e62f0 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm
@@ -18,10 +18,14 @@ global process_normalized_txn:
     %mload_txn_field(@TXN_FIELD_GAS_LIMIT)
     %assert_ge(invalid_txn)
 
-    // Assert block gas limit >= txn gas limit.
+    // Assert block gas limit >= txn gas limit + gas used so far in the block.
+    // stack: retdest, prev_gas_used
     %mload_txn_field(@TXN_FIELD_GAS_LIMIT)
+    DUP3
     %mload_global_metadata(@GLOBAL_METADATA_BLOCK_GAS_LIMIT)
+    SUB
     %assert_ge(invalid_txn)
+    // stack: retdest
 
     %mload_txn_field(@TXN_FIELD_ORIGIN)
     // stack: sender, retdest
-- 
2.43.0


From c1989845f54370ad00b11beebb2c3dfc111c0fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:38 +0000
Subject: [PATCH 30/55] fix: senders were not checked to afford the maximal
 fee, nor fees to fit in 256 bits

The balance was compared with the effective instead of the maximal gas price,
and with a sum whose terms could overflow: with gas_limit * gas_price + value
small modulo 2^256, a transaction minted the refund of its gas.
---
 .../src/cpu/kernel/asm/core/process_txn.asm      | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm b/evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm
index c5e62f0..3b699b1 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm
@@ -43,14 +43,20 @@ global process_normalized_txn:
     DUP1 %ext_code_empty %assert_nonzero(invalid_txn_1)
     // stack: sender, retdest
 
-    // Assert sender balance >= gas_limit * gas_price + value.
+    // Assert sender balance >= gas_limit * max_fee + value.
+    // No term of this sum may overflow.
     %balance
     // stack: sender_balance, retdest
-    %mload_txn_field(@TXN_FIELD_COMPUTED_FEE_PER_GAS)
-    %mload_txn_field(@TXN_FIELD_GAS_LIMIT)
-    MUL
     %mload_txn_field(@TXN_FIELD_VALUE)
-    ADD
+    // stack: value, sender_balance, retdest
+    DUP2 DUP2 GT %jumpi(invalid_txn_2)
+    SWAP1 SUB
+    // stack: spendable, retdest
+    %mload_txn_field(@TXN_FIELD_GAS_LIMIT)
+    SWAP1
+    DIV
+    // stack: spendable / gas_limit, retdest
+    %mload_txn_field(@TXN_FIELD_MAX_FEE_PER_GAS)
     %assert_le(invalid_txn)
     // stack: retdest
 
-- 
2.43.0


From 390204fb696525a72467b882891adf05f99094ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:38 +0000
Subject: [PATCH 31/55] fix: the checks of blob transactions fit in the
 kernel's size

The check of a slot pointer, expanded five times, becomes a routine.
---
 .../kernel/asm/mpt/linked_list/linked_list.asm | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm b/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm
index 35283cf..8fabfa4 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm
@@ -486,20 +486,30 @@ store_initial_slots_end:
 // TODO: Maybe we should check here if the node has been deleted.
 %macro get_valid_slot_ptr
     // stack: ptr/5
+    %stack (ptr) -> (ptr, %%after)
+    %jump(get_valid_slot_ptr)
+%%after:
+    // stack: ptr
+%endmacro
+
+get_valid_slot_ptr:
+    // stack: ptr/5, retdest
     DUP1
     PUSH 5
     PUSH @SEGMENT_STORAGE_LINKED_LIST
-    // stack: segment, 5, ptr/5, ptr/5
+    // stack: segment, 5, ptr/5, ptr/5, retdest
     %mload_global_metadata(@GLOBAL_METADATA_STORAGE_LINKED_LIST_NEXT_AVAILABLE)
     SUB
-    // stack: accessed_strg_keys_len, 5, ptr/5, ptr/5
+    // stack: accessed_strg_keys_len, 5, ptr/5, ptr/5, retdest
     // By construction, the unscaled list len must be multiple of 5
     DIV
-    // stack: accessed_strg_keys_len/5, ptr/5, ptr/5
+    // stack: accessed_strg_keys_len/5, ptr/5, ptr/5, retdest
     %assert_gt
     %mul_const(5)
     %add_const(@SEGMENT_STORAGE_LINKED_LIST)
-%endmacro
+    // stack: ptr, retdest
+    SWAP1
+    JUMP
 
 /// Inserts the pair (address_key, storage_key) and a new payload pointer into the linked list if it is not already present,
 /// or modifies its payload if it was already present.
-- 
2.43.0


From e78ec00f83a32aa1476525fdb85377313bbbbcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:43 +0000
Subject: [PATCH 32/55] fix: refused blob transactions were charged for their
 blobs

The blob fee was deducted before the transaction was found valid, so that a
replayed one, or any other that is then refused, burnt its sender's ether. Nor
were the maximal blob fee, the balance it needs, the number of blobs and the
recipient checked.
---
 .../src/cpu/kernel/asm/core/process_txn.asm   | 61 +++++++++++--------
 .../cpu/kernel/asm/transactions/type_3.asm    | 49 +++++++++++----
 2 files changed, 73 insertions(+), 37 deletions(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm b/evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm
index 3b699b1..06eccac 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm
@@ -27,6 +27,20 @@ global process_normalized_txn:
     %assert_ge(invalid_txn)
     // stack: retdest
 
+    // Assert chain ID matches block metadata
+    %mload_txn_field(@TXN_FIELD_CHAIN_ID_PRESENT)
+    // stack: chain_id_present, retdest
+    DUP1
+    %mload_txn_field(@TXN_FIELD_CHAIN_ID)
+    // stack: tx_chain_id, chain_id_present, chain_id_present, retdest
+    MUL SWAP1
+    // stack: chain_id_present, filtered_tx_chain_id, retdest
+    %mload_global_metadata(@GLOBAL_METADATA_BLOCK_CHAIN_ID)
+    MUL
+    // stack: filtered_block_chain_id, filtered_tx_chain_id, retdest
+    %assert_eq(invalid_txn)
+    // stack: retdest
+
     %mload_txn_field(@TXN_FIELD_ORIGIN)
     // stack: sender, retdest
 
@@ -43,44 +57,43 @@ global process_normalized_txn:
     DUP1 %ext_code_empty %assert_nonzero(invalid_txn_1)
     // stack: sender, retdest
 
-    // Assert sender balance >= gas_limit * max_fee + value.
-    // No term of this sum may overflow.
+    // Assert sender balance >= gas_limit * max_fee + value, plus the most its
+    // blobs may cost. No term of this sum may overflow.
     %balance
     // stack: sender_balance, retdest
+    PUSH 0
+    SWAP1
     %mload_txn_field(@TXN_FIELD_VALUE)
-    // stack: value, sender_balance, retdest
-    DUP2 DUP2 GT %jumpi(invalid_txn_2)
+    // stack: value, sender_balance, blob_fee=0, retdest
+    DUP2 DUP2 GT %jumpi(invalid_txn_3)
     SWAP1 SUB
-    // stack: spendable, retdest
+    // stack: spendable, blob_fee=0, retdest
+    #[cfg(feature = eth_mainnet)]
+    {
+        %mload_txn_field(@TXN_FIELD_TYPE)
+        %eq_const(3)
+        %jumpi(check_blob_txn)
+    global check_blob_txn_end:
+    }
+    // stack: spendable, blob_fee, retdest
     %mload_txn_field(@TXN_FIELD_GAS_LIMIT)
     SWAP1
     DIV
-    // stack: spendable / gas_limit, retdest
+    // stack: spendable / gas_limit, blob_fee, retdest
     %mload_txn_field(@TXN_FIELD_MAX_FEE_PER_GAS)
-    %assert_le(invalid_txn)
-    // stack: retdest
-
-    // Assert chain ID matches block metadata
-    %mload_txn_field(@TXN_FIELD_CHAIN_ID_PRESENT)
-    // stack: chain_id_present, retdest
-    DUP1
-    %mload_txn_field(@TXN_FIELD_CHAIN_ID)
-    // stack: tx_chain_id, chain_id_present, chain_id_present, retdest
-    MUL SWAP1
-    // stack: chain_id_present, filtered_tx_chain_id, retdest
-    %mload_global_metadata(@GLOBAL_METADATA_BLOCK_CHAIN_ID)
-    MUL
-    // stack: filtered_block_chain_id, filtered_tx_chain_id, retdest
-    %assert_eq(invalid_txn)
-    // stack: retdest
+    %assert_le(invalid_txn_1)
+    // stack: blob_fee, retdest
 
 global buy_gas:
+    // stack: blob_fee, retdest
+    // EIP-4844: the blob fee is deducted along with the gas, and burnt.
     %mload_txn_field(@TXN_FIELD_COMPUTED_FEE_PER_GAS)
     %mload_txn_field(@TXN_FIELD_GAS_LIMIT)
     MUL
-    // stack: gas_cost, retdest
+    ADD
+    // stack: cost, retdest
     %mload_txn_field(@TXN_FIELD_ORIGIN)
-    // stack: sender_addr, gas_cost, retdest
+    // stack: sender_addr, cost, retdest
     %deduct_eth
     // stack: deduct_eth_status, retdest
     %jumpi(panic)
diff --git a/evm_arithmetization/src/cpu/kernel/asm/transactions/type_3.asm b/evm_arithmetization/src/cpu/kernel/asm/transactions/type_3.asm
index a34c4ce..0a65c48 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/transactions/type_3.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/transactions/type_3.asm
@@ -87,27 +87,50 @@ store_origin:
     %eq_const(0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff)
     %jumpi(panic)
 
-    // stack: address, retdest
-    // EIP-4844: Deduct blob_gas_fee from the sender and burn it
-    %compute_blob_gas_fee
-    DUP2
-    // stack: address, blob_gas_fee, address, retdest
-    %deduct_eth
-    // stack: deduct_eth_status, address, retdest
-    %jumpi(panic)
-
     // stack: address, retdest
     %mstore_txn_field(@TXN_FIELD_ORIGIN)
     // stack: retdest
     %jump(process_normalized_txn)
 
-%macro compute_blob_gas_fee
-    PUSH @GAS_PER_BLOB
+// Checks what EIP-4844 adds to the validity of a transaction, and computes the fee of its blobs.
+// Pre stack: spendable, 0, retdest
+// Post stack: spendable - max_blob_cost, blob_fee, retdest
+global check_blob_txn:
     %get_blob_versioned_hashes_list_length
-    MUL
+    // stack: n_blobs, spendable, 0, retdest
+    // A block has room for 6 blobs, and a transaction with blobs cannot create a contract.
+    DUP1 %gt_const(6)
+    %is_contract_creation
+    OR
+    %jumpi(invalid_txn_3)
+    %mul_const(@GAS_PER_BLOB)
     %blob_base_fee
+    SWAP3 POP
+    // stack: blob_gas, spendable, blob_base_fee, retdest
+    // Assert max_fee_per_blob_gas >= blob_base_fee
+    DUP3
+    %mload_txn_field(@TXN_FIELD_MAX_FEE_PER_BLOB_GAS)
+    LT
+    %jumpi(invalid_txn_3)
+    // Assert spendable >= blob_gas * max_fee_per_blob_gas
+    DUP1 DUP3 DIV
+    %mload_txn_field(@TXN_FIELD_MAX_FEE_PER_BLOB_GAS)
+    GT
+    %jumpi(invalid_txn_3)
+    // stack: blob_gas, spendable, blob_base_fee, retdest
+    DUP1
+    %mload_txn_field(@TXN_FIELD_MAX_FEE_PER_BLOB_GAS)
     MUL
-%endmacro
+    // stack: max_blob_cost, blob_gas, spendable, blob_base_fee, retdest
+    %stack (max_blob_cost, blob_gas, spendable, blob_base_fee)
+        -> (spendable, max_blob_cost, blob_base_fee, blob_gas)
+    SUB
+    SWAP2
+    // stack: blob_gas, blob_base_fee, spendable', retdest
+    MUL
+    SWAP1
+    // stack: spendable', blob_fee, retdest
+    %jump(check_blob_txn_end)
 
 %macro get_blob_versioned_hashes_list_length
     // stack: (empty)
-- 
2.43.0


From 8508f9a6f97c897b661c9b15493c259cc02155ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:42 +0000
Subject: [PATCH 33/55] fix: never end a segment between the pruning of the
 kernel's context and the halt

---
 evm_arithmetization/src/cpu/kernel/aggregator.rs | 5 ++---
 evm_arithmetization/src/cpu/kernel/asm/halt.asm  | 2 --
 evm_arithmetization/src/cpu/kernel/asm/main.asm  | 7 +++++--
 3 files changed, 7 insertions(+), 7 deletions(-)
 delete mode 100644 evm_arithmetization/src/cpu/kernel/asm/halt.asm

diff --git a/evm_arithmetization/src/cpu/kernel/aggregator.rs b/evm_arithmetization/src/cpu/kernel/aggregator.rs
index 9ba3502..7513f35 100644
--- a/evm_arithmetization/src/cpu/kernel/aggregator.rs
+++ b/evm_arithmetization/src/cpu/kernel/aggregator.rs
@@ -10,9 +10,9 @@ use crate::cpu::kernel::constants::evm_constants;
 use crate::cpu::kernel::parser::parse;
 
 pub const NUMBER_KERNEL_FILES: usize = if cfg!(feature = "eth_mainnet") {
-    157
+    156
 } else if cfg!(feature = "cdk_erigon") || cfg!(feature = "polygon_pos") {
-    154
+    153
 } else {
     // unreachable
     0
@@ -96,7 +96,6 @@ pub static KERNEL_FILES: [&str; NUMBER_KERNEL_FILES] = [
     include_str!("asm/curve/secp256k1/precomputation.asm"),
     include_str!("asm/curve/wnaf.asm"),
     include_str!("asm/exp.asm"),
-    include_str!("asm/halt.asm"),
     include_str!("asm/hash/blake2/addresses.asm"),
     include_str!("asm/hash/blake2/blake2_f.asm"),
     // include_str!("asm/hash/blake2/blake2b.asm"),
diff --git a/evm_arithmetization/src/cpu/kernel/asm/halt.asm b/evm_arithmetization/src/cpu/kernel/asm/halt.asm
deleted file mode 100644
index 49561fd..0000000
--- a/evm_arithmetization/src/cpu/kernel/asm/halt.asm
+++ /dev/null
@@ -1,2 +0,0 @@
-global halt:
-    PANIC
diff --git a/evm_arithmetization/src/cpu/kernel/asm/main.asm b/evm_arithmetization/src/cpu/kernel/asm/main.asm
index cb170ef..834b7ed 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/main.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/main.asm
@@ -250,10 +250,13 @@ global check_final_state_trie:
     POP
 
     // We have reached the end of the execution, so we set the pruning flag to 1 for context 0.
+    // The halting state must come right after: a segment ending in between would leave the next
+    // one without the kernel code.
     PUSH 1
     SET_CONTEXT
-    
-    %jump(halt)
+
+global halt:
+    PANIC
 
 %macro reinitialize_memory_pre_txn
     // Reinitialize accessed addresses and storage keys lists
-- 
2.43.0


From 0af6590d6a901045189a4697b5cc5dc40ce80af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:02 +0000
Subject: [PATCH 34/55] hook: the constraint system, for a simulated verifier

---
 evm_arithmetization/src/verif_hooks.rs | 125 +++++++++++++++++++++++++
 1 file changed, 125 insertions(+)

diff --git a/evm_arithmetization/src/verif_hooks.rs b/evm_arithmetization/src/verif_hooks.rs
index 1b7936b..bd478e4 100644
--- a/evm_arithmetization/src/verif_hooks.rs
+++ b/evm_arithmetization/src/verif_hooks.rs
@@ -100,3 +100,128 @@ pub(crate) fn check_write(offset: usize) -> Result<()> {
     }
     Ok(())
 }
+
+/// The constraint system, for a simulated verifier that checks traces instead
+/// of proofs.
+pub mod starks {
+    use plonky2::field::extension::Extendable;
+    use plonky2::hash::hash_types::RichField;
+    use plonky2::iop::witness::{PartialWitness, Witness, WitnessWrite};
+    use plonky2::plonk::circuit_builder::CircuitBuilder;
+    use plonky2::plonk::circuit_data::CircuitConfig;
+    use plonky2::plonk::config::GenericConfig;
+    use starky::constraint_consumer::ConstraintConsumer;
+    use starky::cross_table_lookup::CrossTableLookup;
+    use starky::evaluation_frame::StarkEvaluationFrame;
+    use starky::lookup::{GrandProductChallenge, Lookup};
+    use starky::stark::Stark;
+
+    use crate::all_stark::AllStark;
+    use crate::proof::PublicValues;
+    use crate::recursive_verifier::{
+        add_virtual_public_values_public_input, get_memory_extra_looking_sum_circuit,
+        set_public_value_targets,
+    };
+
+    macro_rules! with_stark {
+        ($all:ident, $table:ident, $s:ident, $e:expr) => {
+            match $table {
+                0 => { let $s = &$all.arithmetic_stark; $e }
+                1 => { let $s = &$all.byte_packing_stark; $e }
+                2 => { let $s = &$all.cpu_stark; $e }
+                3 => { let $s = &$all.keccak_stark; $e }
+                4 => { let $s = &$all.keccak_sponge_stark; $e }
+                5 => { let $s = &$all.logic_stark; $e }
+                6 => { let $s = &$all.memory_stark; $e }
+                7 => { let $s = &$all.mem_before_stark; $e }
+                8 => { let $s = &$all.mem_after_stark; $e }
+                #[cfg(feature = "cdk_erigon")]
+                9 => { let $s = &$all.poseidon_stark; $e }
+                _ => unreachable!(),
+            }
+        };
+    }
+
+    fn eval<F: RichField + Extendable<D>, const D: usize, S: Stark<F, D>>(
+        s: &S,
+        local: &[F],
+        next: &[F],
+        mut consumer: ConstraintConsumer<F>,
+    ) -> Vec<F> {
+        let frame = S::EvaluationFrame::<F, F, 1>::from_values(local, next, &[]);
+        s.eval_packed_generic::<F, F, 1>(&frame, &mut consumer);
+        consumer.accumulators()
+    }
+
+    /// The constraints on a row and its successor, combined with each alpha.
+    pub fn eval_row<F: RichField + Extendable<D>, const D: usize>(
+        all: &AllStark<F, D>,
+        table: usize,
+        local: &[F],
+        next: &[F],
+        alphas: &[F],
+        first: bool,
+        last: bool,
+    ) -> Vec<F> {
+        let consumer = ConstraintConsumer::new(
+            alphas.to_vec(),
+            F::from_bool(!last),
+            F::from_bool(first),
+            F::from_bool(last),
+        );
+        with_stark!(all, table, s, eval(s, local, next, consumer))
+    }
+
+    /// The lookups within a table.
+    pub fn lookups<F: RichField + Extendable<D>, const D: usize>(
+        all: &AllStark<F, D>,
+        table: usize,
+    ) -> Vec<Lookup<F>> {
+        with_stark!(all, table, s, s.lookups())
+    }
+
+    /// The lookups between tables.
+    pub fn cross_table_lookups<F: RichField + Extendable<D>, const D: usize>(
+        all: &AllStark<F, D>,
+    ) -> &[CrossTableLookup<F>] {
+        &all.cross_table_lookups
+    }
+
+    /// The names and indices of a table's columns, as far as they have names.
+    pub fn columns(table: usize) -> String {
+        match table {
+            1 => format!("{:?}", crate::byte_packing::columns::BYTE_PACKING_COL_MAP),
+            2 => format!("{:?}", crate::cpu::columns::COL_MAP),
+            6 => format!("{:?}", crate::memory::columns::MEMORY_COL_MAP),
+            _ => String::new(),
+        }
+    }
+
+    /// What the public values contribute to the lookups into the memory: as
+    /// computed by the verifier, and as computed in its circuit.
+    pub fn extra_looking_sums<
+        F: RichField + Extendable<D>,
+        C: GenericConfig<D, F = F>,
+        const D: usize,
+    >(
+        public_values: &PublicValues<F>,
+        challenge: GrandProductChallenge<F>,
+    ) -> anyhow::Result<(F, F)> {
+        let native =
+            crate::verifier::testing::get_memory_extra_looking_sum(public_values, challenge);
+        let mut builder = CircuitBuilder::<F, D>::new(CircuitConfig::standard_recursion_config());
+        let pv = add_virtual_public_values_public_input(&mut builder);
+        let target = GrandProductChallenge {
+            beta: builder.add_virtual_target(),
+            gamma: builder.add_virtual_target(),
+        };
+        let sum = get_memory_extra_looking_sum_circuit(&mut builder, &pv, target);
+        let data = builder.mock_build::<C>();
+        let mut witness = PartialWitness::new();
+        set_public_value_targets(&mut witness, &pv, public_values)
+            .map_err(|e| anyhow::anyhow!("{e:?}"))?;
+        witness.set_target(target.beta, challenge.beta)?;
+        witness.set_target(target.gamma, challenge.gamma)?;
+        Ok((native, data.generate_witness(witness).get_target(sum)))
+    }
+}
-- 
2.43.0


From 988f25bbcfd410b2e95eab96308e03ac345e8d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:09 +0000
Subject: [PATCH 35/55] hook: the lying prover sees the memory

---
 .../src/generation/prover_input.rs                | 15 +++++++++++++--
 evm_arithmetization/src/verif_hooks.rs            |  7 +++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/evm_arithmetization/src/generation/prover_input.rs b/evm_arithmetization/src/generation/prover_input.rs
index a324b7e..ff11d5a 100644
--- a/evm_arithmetization/src/generation/prover_input.rs
+++ b/evm_arithmetization/src/generation/prover_input.rs
@@ -60,8 +60,19 @@ impl<F: RichField> GenerationState<F> {
         crate::verif_hooks::enter();
         let honest = self.honest_prover_input(input_fn);
         let mut pokes = vec![];
-        let chosen =
-            crate::verif_hooks::leave(&input_fn.0, honest.as_ref().ok().copied(), stack, &mut pokes);
+        let chosen = crate::verif_hooks::leave(
+            &input_fn.0,
+            honest.as_ref().ok().copied(),
+            stack,
+            &|context, segment, virt| {
+                self.memory.get_with_init(MemoryAddress {
+                    context,
+                    segment,
+                    virt,
+                })
+            },
+            &mut pokes,
+        );
         for (context, segment, offset, value) in pokes {
             let address = MemoryAddress {
                 context,
diff --git a/evm_arithmetization/src/verif_hooks.rs b/evm_arithmetization/src/verif_hooks.rs
index bd478e4..39f3cd6 100644
--- a/evm_arithmetization/src/verif_hooks.rs
+++ b/evm_arithmetization/src/verif_hooks.rs
@@ -17,12 +17,14 @@ pub type Poke = (usize, usize, usize, U256);
 
 pub trait Hook {
     /// Chooses the result of a `PROVER_INPUT`, given its name, the honest
-    /// result, if any, and the stack, top first. May also change memory.
+    /// result, if any, the stack, top first, and the memory, by context,
+    /// unscaled segment and offset. May also change memory.
     fn advice(
         &mut self,
         name: &str,
         honest: Option<U256>,
         stack: &[U256],
+        memory: &dyn Fn(usize, usize, usize) -> U256,
         pokes: &mut Vec<Poke>,
     ) -> Option<U256>;
 
@@ -66,6 +68,7 @@ pub(crate) fn leave(
     name: &[String],
     honest: Option<U256>,
     stack: Vec<U256>,
+    memory: &dyn Fn(usize, usize, usize) -> U256,
     pokes: &mut Vec<Poke>,
 ) -> Option<U256> {
     DEPTH.set(DEPTH.get().saturating_sub(1));
@@ -73,7 +76,7 @@ pub(crate) fn leave(
         return honest;
     }
     HOOK.with_borrow_mut(|h| match h {
-        Some(h) => h.advice(&name.join("::"), honest, &stack, pokes),
+        Some(h) => h.advice(&name.join("::"), honest, &stack, memory, pokes),
         None => honest,
     })
 }
-- 
2.43.0


From a9c6fe971552e5f7badcb467111521e4688abdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:51 +0000
Subject: [PATCH 36/55] fix: the modular multiplication hint reads addresses
 that were never written as zero

---
 .../src/generation/prover_input.rs            | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/evm_arithmetization/src/generation/prover_input.rs b/evm_arithmetization/src/generation/prover_input.rs
index ff11d5a..f5bc6c3 100644
--- a/evm_arithmetization/src/generation/prover_input.rs
+++ b/evm_arithmetization/src/generation/prover_input.rs
@@ -295,16 +295,16 @@ impl<F: RichField> GenerationState<F> {
         m_start_loc: usize,
     ) -> (Vec<U256>, Vec<U256>) {
         let n = self.memory.contexts.len();
-        let a = &self.memory.contexts[n - 1].segments[Segment::KernelGeneral.unscale()].content()
-            [a_start_loc..a_start_loc + len];
-        let b = &self.memory.contexts[n - 1].segments[Segment::KernelGeneral.unscale()].content()
-            [b_start_loc..b_start_loc + len];
-        let m = &self.memory.contexts[n - 1].segments[Segment::KernelGeneral.unscale()].content()
-            [m_start_loc..m_start_loc + len];
-
-        let a_biguint = mem_vec_to_biguint(a);
-        let b_biguint = mem_vec_to_biguint(b);
-        let m_biguint = mem_vec_to_biguint(m);
+        let segment = &self.memory.contexts[n - 1].segments[Segment::KernelGeneral.unscale()];
+        // Addresses that were never written hold zero.
+        let limbs = |start: usize| (start..start + len).map(|i| segment.get(i)).collect_vec();
+        let a = limbs(a_start_loc);
+        let b = limbs(b_start_loc);
+        let m = limbs(m_start_loc);
+
+        let a_biguint = mem_vec_to_biguint(&a);
+        let b_biguint = mem_vec_to_biguint(&b);
+        let m_biguint = mem_vec_to_biguint(&m);
 
         let prod = a_biguint * b_biguint;
         let quo = if m_biguint == BigUint::default() {
-- 
2.43.0


From 4f76942fb168c3037d57bb6c1ab66180b6d03942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:51 +0000
Subject: [PATCH 37/55] fix: a range check cannot stand in for an arithmetic
 operation

---
 evm_arithmetization/src/arithmetic/arithmetic_stark.rs | 9 ++++-----
 evm_arithmetization/src/cpu/cpu_stark.rs               | 8 ++++++++
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/evm_arithmetization/src/arithmetic/arithmetic_stark.rs b/evm_arithmetization/src/arithmetic/arithmetic_stark.rs
index 2b7eb25..8876060 100644
--- a/evm_arithmetization/src/arithmetic/arithmetic_stark.rs
+++ b/evm_arithmetization/src/arithmetic/arithmetic_stark.rs
@@ -109,11 +109,10 @@ pub(crate) fn ctl_arithmetic_rows<F: Field>() -> TableWithColumns<F> {
     // by `regs`, where each element of `regs` is a range of columns
     // corresponding to a 256-bit input or output register (also `ops`
     // is used as the operation filter).
-    TableWithColumns::new(
-        *Table::Arithmetic,
-        cpu_arith_data_link(&all_combined_cols, &REGISTER_MAP),
-        filter,
-    )
+    let mut cols = cpu_arith_data_link(&all_combined_cols, &REGISTER_MAP);
+    // A range check must not be taken for the operation with the same opcode.
+    cols.push(Column::single(columns::IS_RANGE_CHECK));
+    TableWithColumns::new(*Table::Arithmetic, cols, filter)
 }
 
 /// Structure representing the `Arithmetic` STARK, which carries out all the
diff --git a/evm_arithmetization/src/cpu/cpu_stark.rs b/evm_arithmetization/src/cpu/cpu_stark.rs
index a0dd45e..ef273d0 100644
--- a/evm_arithmetization/src/cpu/cpu_stark.rs
+++ b/evm_arithmetization/src/cpu/cpu_stark.rs
@@ -108,6 +108,14 @@ pub(crate) fn ctl_arithmetic_base_rows<F: Field>() -> TableWithColumns<F> {
     // directly.
     let mut columns = vec![Column::le_bits(COL_MAP.opcode_bits)];
     columns.extend(ctl_data_ternops());
+    // Whether the values are only range-checked. As the opcode of a range-check
+    // row is not restricted, such a row could otherwise stand in for an actual
+    // operation, and give it an arbitrary output.
+    columns.push(Column::sum([
+        COL_MAP.op.push_prover_input,
+        COL_MAP.op.syscall,
+        COL_MAP.op.exception,
+    ]));
     // Create the CPU Table whose columns are those with the three
     // inputs and one output of the ternary operations listed in `ops`
     // (also `ops` is used as the operation filter). The list of
-- 
2.43.0


From c72507fa9f583e8b25364ed86dc42e073002aaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:51 +0000
Subject: [PATCH 38/55] fix: no memory access in the channel that holds a
 pushed value

---
 evm_arithmetization/src/cpu/stack.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/evm_arithmetization/src/cpu/stack.rs b/evm_arithmetization/src/cpu/stack.rs
index e5b1682..9f962b1 100644
--- a/evm_arithmetization/src/cpu/stack.rs
+++ b/evm_arithmetization/src/cpu/stack.rs
@@ -310,6 +310,12 @@ pub(crate) fn eval_packed_one<P: PackedField>(
     let num_pops = P::Scalar::from_canonical_usize(stack_behavior.num_pops);
     let push = P::Scalar::from_canonical_usize(stack_behavior.pushes as usize);
     yield_constr.constraint_transition(filter * (nv.stack_len - (lv.stack_len - num_pops + push)));
+
+    // If you push, the new top of the stack isn't read from memory: the channel
+    // that holds it makes no access.
+    if stack_behavior.pushes {
+        yield_constr.constraint_transition(filter * nv.mem_channels[0].used);
+    }
 }
 
 /// Evaluates constraints for all opcodes' `StackBehavior`s.
@@ -633,6 +639,13 @@ pub(crate) fn eval_ext_circuit_one<F: RichField + Extendable<D>, const D: usize>
     let diff = builder.sub_extension(nv.stack_len, diff);
     let constr = builder.mul_extension(filter, diff);
     yield_constr.constraint_transition(builder, constr);
+
+    // If you push, the new top of the stack isn't read from memory: the channel
+    // that holds it makes no access.
+    if stack_behavior.pushes {
+        let constr = builder.mul_extension(filter, nv.mem_channels[0].used);
+        yield_constr.constraint_transition(builder, constr);
+    }
 }
 
 /// Circuit version of `eval_packed`.
-- 
2.43.0


From 7a55eae5118c328634d3d27820e00a6ea768a093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:51 +0000
Subject: [PATCH 39/55] fix: disable the last memory channel when an operation
 does not use it

---
 evm_arithmetization/src/cpu/stack.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/evm_arithmetization/src/cpu/stack.rs b/evm_arithmetization/src/cpu/stack.rs
index 9f962b1..415df09 100644
--- a/evm_arithmetization/src/cpu/stack.rs
+++ b/evm_arithmetization/src/cpu/stack.rs
@@ -123,8 +123,8 @@ pub(crate) const POSEIDON_GENERAL_OP: StackBehavior = StackBehavior {
 // checked to ensure that every general-purpose memory channel is either
 // disabled or has its read flag and address properly constrained. The same
 // applies  when `disable_other_channels` is set to `false`, except the first
-// `num_pops` and the last `pushes as usize` channels have their read flag and
-// address constrained automatically in this file.
+// `num_pops` channels have their read flag and address constrained
+// automatically in this file.
 pub(crate) const STACK_BEHAVIORS: OpsColumnsView<Option<StackBehavior>> = OpsColumnsView {
     binary_op: BASIC_BINARY_OP,
     ternary_op: BASIC_TERNARY_OP,
@@ -156,7 +156,7 @@ pub(crate) const STACK_BEHAVIORS: OpsColumnsView<Option<StackBehavior>> = OpsCol
     m_op_32bytes: Some(StackBehavior {
         num_pops: 2,
         pushes: true,
-        disable_other_channels: false,
+        disable_other_channels: true,
     }),
     exit_kernel: Some(StackBehavior {
         num_pops: 1,
@@ -299,8 +299,7 @@ pub(crate) fn eval_packed_one<P: PackedField>(
     if stack_behavior.disable_other_channels {
         // The first channel contains (or not) the top of the stack and is constrained
         // elsewhere.
-        for i in max(1, stack_behavior.num_pops)..NUM_GP_CHANNELS - (stack_behavior.pushes as usize)
-        {
+        for i in max(1, stack_behavior.num_pops)..NUM_GP_CHANNELS {
             let channel = lv.mem_channels[i];
             yield_constr.constraint(filter * channel.used);
         }
@@ -622,8 +621,7 @@ pub(crate) fn eval_ext_circuit_one<F: RichField + Extendable<D>, const D: usize>
     if stack_behavior.disable_other_channels {
         // The first channel contains (or not) the top of the stack and is constrained
         // elsewhere.
-        for i in max(1, stack_behavior.num_pops)..NUM_GP_CHANNELS - (stack_behavior.pushes as usize)
-        {
+        for i in max(1, stack_behavior.num_pops)..NUM_GP_CHANNELS {
             let channel = lv.mem_channels[i];
             let constr = builder.mul_extension(filter, channel.used);
             yield_constr.constraint(builder, constr);
-- 
2.43.0


From 79bd5151e276898424ac20737d9cd43b61925557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:51 +0000
Subject: [PATCH 40/55] fix: constrain what follows MLOAD_32BYTES and
 MSTORE_32BYTES

---
 evm_arithmetization/src/cpu/control_flow.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/evm_arithmetization/src/cpu/control_flow.rs b/evm_arithmetization/src/cpu/control_flow.rs
index 0aa1a30..1531eed 100644
--- a/evm_arithmetization/src/cpu/control_flow.rs
+++ b/evm_arithmetization/src/cpu/control_flow.rs
@@ -8,7 +8,7 @@ use starky::constraint_consumer::{ConstraintConsumer, RecursiveConstraintConsume
 use crate::cpu::columns::{CpuColumnsView, COL_MAP};
 use crate::cpu::kernel::aggregator::KERNEL;
 
-const NATIVE_INST_LEN: usize = if cfg!(feature = "cdk_erigon") { 13 } else { 12 };
+const NATIVE_INST_LEN: usize = if cfg!(feature = "cdk_erigon") { 14 } else { 13 };
 
 const NATIVE_INSTRUCTIONS: [usize; NATIVE_INST_LEN] = [
     COL_MAP.op.binary_op,
@@ -27,6 +27,7 @@ const NATIVE_INSTRUCTIONS: [usize; NATIVE_INST_LEN] = [
     // not PUSH (need to increment by more than 1)
     COL_MAP.op.dup_swap,
     COL_MAP.op.context_op,
+    COL_MAP.op.m_op_32bytes,
     // not EXIT_KERNEL (performs a jump)
     COL_MAP.op.m_op_general,
     // not SYSCALL (performs a jump)
-- 
2.43.0


From a06e6a9913d2b1f6c3166747d06a592aa5ecbf0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:51 +0000
Subject: [PATCH 41/55] fix: constrain what follows PUSH

---
 evm_arithmetization/src/cpu/control_flow.rs | 29 +++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/evm_arithmetization/src/cpu/control_flow.rs b/evm_arithmetization/src/cpu/control_flow.rs
index 1531eed..1abdda9 100644
--- a/evm_arithmetization/src/cpu/control_flow.rs
+++ b/evm_arithmetization/src/cpu/control_flow.rs
@@ -83,6 +83,20 @@ pub(crate) fn eval_packed_generic<P: PackedField>(
     );
     yield_constr.constraint_transition(is_prover_input * (lv.is_kernel_mode - nv.is_kernel_mode));
 
+    // `PUSHn` also skips its `n` operand bytes. The low 5 bits of its opcode are
+    // `n - 1`.
+    let is_push: P = lv.op.push_prover_input * (P::ONES - lv.opcode_bits[7]);
+    let push_len: P = lv.opcode_bits[..5]
+        .iter()
+        .enumerate()
+        .map(|(i, &bit)| bit * P::Scalar::from_canonical_u64(1 << i))
+        .sum::<P>()
+        + P::ONES;
+    yield_constr.constraint_transition(
+        is_push * (lv.program_counter - nv.program_counter + P::ONES + push_len),
+    );
+    yield_constr.constraint_transition(is_push * (lv.is_kernel_mode - nv.is_kernel_mode));
+
     // Check the helper value in the general columns. We do not need to enforce that
     // it is set to 0 if the operation is a `PROVER_INPUT`, as the latter is a
     // kernel-only instruction. This is enforced in the `decode` module.
@@ -146,6 +160,21 @@ pub(crate) fn eval_ext_circuit<F: RichField + Extendable<D>, const D: usize>(
         yield_constr.constraint_transition(builder, pc_constr);
         let kernel_constr = builder.mul_extension(is_prover_input, kernel_diff);
         yield_constr.constraint_transition(builder, kernel_constr);
+
+        // `PUSHn` also skips its `n` operand bytes. The low 5 bits of its opcode are
+        // `n - 1`.
+        let is_push = builder.sub_extension(lv.op.push_prover_input, is_prover_input);
+        let push_len = lv.opcode_bits[..5]
+            .iter()
+            .enumerate()
+            .fold(one, |cumul, (i, &bit)| {
+                builder.mul_const_add_extension(F::from_canonical_u64(1 << i), bit, cumul)
+            });
+        let pc_diff = builder.add_extension(pc_diff, push_len);
+        let pc_constr = builder.mul_add_extension(is_push, pc_diff, is_push);
+        yield_constr.constraint_transition(builder, pc_constr);
+        let kernel_constr = builder.mul_extension(is_push, kernel_diff);
+        yield_constr.constraint_transition(builder, kernel_constr);
     }
 
     // Check the helper value in the general columns. We do not need to enforce that
-- 
2.43.0


From aeb574ebac176111201ddfb865cf53a232de9bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:51 +0000
Subject: [PATCH 42/55] fix: a jump leaves the kernel flag as it is

---
 evm_arithmetization/src/cpu/jumps.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/evm_arithmetization/src/cpu/jumps.rs b/evm_arithmetization/src/cpu/jumps.rs
index c100c4f..4bf6694 100644
--- a/evm_arithmetization/src/cpu/jumps.rs
+++ b/evm_arithmetization/src/cpu/jumps.rs
@@ -172,6 +172,9 @@ pub(crate) fn eval_packed_jump_jumpi<P: PackedField>(
     );
     yield_constr
         .constraint_transition(filter * jumps_lv.should_jump * (nv.program_counter - jump_dest));
+
+    // A jump leaves the kernel flag as it is.
+    yield_constr.constraint_transition(filter * (nv.is_kernel_mode - lv.is_kernel_mode));
 }
 
 /// Circuit version of `eval_packed_jumpi_jumpi`.
@@ -383,6 +386,13 @@ pub(crate) fn eval_ext_circuit_jump_jumpi<F: RichField + Extendable<D>, const D:
         let constr = builder.mul_extension(constr_a, constr_b);
         yield_constr.constraint_transition(builder, constr);
     }
+
+    // A jump leaves the kernel flag as it is.
+    {
+        let diff = builder.sub_extension(nv.is_kernel_mode, lv.is_kernel_mode);
+        let constr = builder.mul_extension(filter, diff);
+        yield_constr.constraint_transition(builder, constr);
+    }
 }
 
 /// Evaluates constraints for EXIT_KERNEL, JUMP and JUMPI.
-- 
2.43.0


From 0bd3cb1541d41730fe4214732b7980b97cf83c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:51 +0000
Subject: [PATCH 43/55] fix: JUMPI reads its condition from the stack

---
 evm_arithmetization/src/cpu/jumps.rs | 47 ++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/evm_arithmetization/src/cpu/jumps.rs b/evm_arithmetization/src/cpu/jumps.rs
index 4bf6694..1560025 100644
--- a/evm_arithmetization/src/cpu/jumps.rs
+++ b/evm_arithmetization/src/cpu/jumps.rs
@@ -158,6 +158,22 @@ pub(crate) fn eval_packed_jump_jumpi<P: PackedField>(
     // Channel 1 is unused by the `JUMP` instruction.
     yield_constr.constraint(is_jump * lv.mem_channels[1].used);
 
+    // The `JUMPI` instruction reads its condition there, in the second element of
+    // the stack.
+    let cond_channel = lv.mem_channels[1];
+    yield_constr.constraint(is_jumpi * (cond_channel.used - P::ONES));
+    yield_constr.constraint(is_jumpi * (cond_channel.is_read - P::ONES));
+    yield_constr.constraint(is_jumpi * (cond_channel.addr_context - lv.context));
+    yield_constr.constraint(
+        is_jumpi
+            * (cond_channel.addr_segment
+                - P::Scalar::from_canonical_usize(Segment::Stack.unscale())),
+    );
+    yield_constr.constraint(
+        is_jumpi
+            * (cond_channel.addr_virtual - lv.stack_len + P::Scalar::from_canonical_u64(2)),
+    );
+
     // Update stack length.
     yield_constr.constraint_transition(is_jump * (nv.stack_len - lv.stack_len + P::ONES));
     yield_constr.constraint_transition(
@@ -358,6 +374,37 @@ pub(crate) fn eval_ext_circuit_jump_jumpi<F: RichField + Extendable<D>, const D:
         yield_constr.constraint(builder, constr);
     }
 
+    // The `JUMPI` instruction reads its condition there, in the second element of
+    // the stack.
+    let cond_channel = lv.mem_channels[1];
+    {
+        let constr = builder.mul_sub_extension(is_jumpi, cond_channel.used, is_jumpi);
+        yield_constr.constraint(builder, constr);
+    }
+    {
+        let constr = builder.mul_sub_extension(is_jumpi, cond_channel.is_read, is_jumpi);
+        yield_constr.constraint(builder, constr);
+    }
+    {
+        let diff = builder.sub_extension(cond_channel.addr_context, lv.context);
+        let constr = builder.mul_extension(is_jumpi, diff);
+        yield_constr.constraint(builder, constr);
+    }
+    {
+        let diff = builder.add_const_extension(
+            cond_channel.addr_segment,
+            -F::from_canonical_usize(Segment::Stack.unscale()),
+        );
+        let constr = builder.mul_extension(is_jumpi, diff);
+        yield_constr.constraint(builder, constr);
+    }
+    {
+        let diff = builder.sub_extension(cond_channel.addr_virtual, lv.stack_len);
+        let diff = builder.add_const_extension(diff, F::TWO);
+        let constr = builder.mul_extension(is_jumpi, diff);
+        yield_constr.constraint(builder, constr);
+    }
+
     // Update stack length.
     {
         let diff = builder.sub_extension(nv.stack_len, lv.stack_len);
-- 
2.43.0


From 886d33f6af6b96950939ec94b6ca7ce20c1c5ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:51 +0000
Subject: [PATCH 44/55] fix: constrain the length of the stack after
 MSTORE_GENERAL

---
 evm_arithmetization/src/cpu/memio.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/evm_arithmetization/src/cpu/memio.rs b/evm_arithmetization/src/cpu/memio.rs
index b68f78b..14408bb 100644
--- a/evm_arithmetization/src/cpu/memio.rs
+++ b/evm_arithmetization/src/cpu/memio.rs
@@ -205,6 +205,11 @@ fn eval_packed_store<P: PackedField>(
         lv.op.m_op_general * (lv.general.stack().stack_inv_aux - P::ONES) * top_read_channel.used,
     );
     yield_constr.constraint(lv.op.m_op_general * lv.opcode_bits[0] * top_read_channel.used);
+
+    // Constrain the new stack length.
+    yield_constr.constraint_transition(
+        filter * (nv.stack_len - lv.stack_len + P::Scalar::from_canonical_usize(2)),
+    );
 }
 
 /// Circuit version of `eval_packed_store`.
@@ -349,6 +354,14 @@ fn eval_ext_circuit_store<F: RichField + Extendable<D>, const D: usize>(
         let constr = builder.mul_extension(mul, top_read_channel.used);
         yield_constr.constraint(builder, constr);
     }
+
+    // Constrain the new stack length.
+    {
+        let diff = builder.sub_extension(nv.stack_len, lv.stack_len);
+        let diff = builder.add_const_extension(diff, F::TWO);
+        let constr = builder.mul_extension(filter, diff);
+        yield_constr.constraint_transition(builder, constr);
+    }
 }
 
 /// Evaluates constraints for MLOAD_GENERAL and MSTORE_GENERAL.
-- 
2.43.0


From d4a80b904eba56c7e1636e42395ce67412789920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:51 +0000
Subject: [PATCH 45/55] fix: a stack that is not empty cannot be claimed to be

---
 evm_arithmetization/src/cpu/contextops.rs |  8 ++++++++
 evm_arithmetization/src/cpu/memio.rs      | 10 ++++++++++
 evm_arithmetization/src/cpu/stack.rs      | 10 ++++++++++
 3 files changed, 28 insertions(+)

diff --git a/evm_arithmetization/src/cpu/contextops.rs b/evm_arithmetization/src/cpu/contextops.rs
index 11ffe0d..a3e218d 100644
--- a/evm_arithmetization/src/cpu/contextops.rs
+++ b/evm_arithmetization/src/cpu/contextops.rs
@@ -296,6 +296,9 @@ pub(crate) fn eval_packed<P: PackedField>(
     yield_constr.constraint(
         filter * (stack_len * lv.general.stack().stack_inv - lv.general.stack().stack_inv_aux),
     );
+    yield_constr.constraint(
+        filter * stack_len * (lv.general.stack().stack_inv_aux - P::ONES),
+    );
     // Enable or disable the channel.
     yield_constr.constraint(filter * (lv.general.stack().stack_inv_aux - channel.used));
     let new_filter = filter * lv.general.stack().stack_inv_aux;
@@ -344,6 +347,11 @@ pub(crate) fn eval_ext_circuit<F: RichField + Extendable<D>, const D: usize>(
         );
         let constr = builder.mul_extension(filter, diff);
         yield_constr.constraint(builder, constr);
+
+        let diff =
+            builder.mul_sub_extension(stack_len, lv.general.stack().stack_inv_aux, stack_len);
+        let constr = builder.mul_extension(filter, diff);
+        yield_constr.constraint(builder, constr);
     }
     // Enable or disable the channel.
     {
diff --git a/evm_arithmetization/src/cpu/memio.rs b/evm_arithmetization/src/cpu/memio.rs
index 14408bb..32fe2c9 100644
--- a/evm_arithmetization/src/cpu/memio.rs
+++ b/evm_arithmetization/src/cpu/memio.rs
@@ -182,6 +182,10 @@ fn eval_packed_store<P: PackedField>(
         lv.op.m_op_general
             * (len_diff * lv.general.stack().stack_inv - lv.general.stack().stack_inv_aux),
     );
+    // It must be 1 if the stack doesn't get empty.
+    yield_constr.constraint(
+        lv.op.m_op_general * len_diff * (lv.general.stack().stack_inv_aux - P::ONES),
+    );
     // If stack_len != 2 and MSTORE, read new top of the stack in
     // nv.mem_channels[0].
     let top_read_channel = nv.mem_channels[0];
@@ -298,6 +302,12 @@ fn eval_ext_circuit_store<F: RichField + Extendable<D>, const D: usize>(
         );
         let constr = builder.mul_extension(lv.op.m_op_general, diff);
         yield_constr.constraint(builder, constr);
+
+        // It must be 1 if the stack doesn't get empty.
+        let diff =
+            builder.mul_sub_extension(len_diff, lv.general.stack().stack_inv_aux, len_diff);
+        let constr = builder.mul_extension(lv.op.m_op_general, diff);
+        yield_constr.constraint(builder, constr);
     }
     // If stack_len != 2 and MSTORE, read new top of the stack in
     // nv.mem_channels[0].
diff --git a/evm_arithmetization/src/cpu/stack.rs b/evm_arithmetization/src/cpu/stack.rs
index 415df09..2fab933 100644
--- a/evm_arithmetization/src/cpu/stack.rs
+++ b/evm_arithmetization/src/cpu/stack.rs
@@ -382,6 +382,10 @@ pub(crate) fn eval_packed<P: PackedField>(
         lv.op.not_pop
             * (len_diff * lv.general.stack().stack_inv - lv.general.stack().stack_inv_aux),
     );
+    // It must be 1 if the stack doesn't get empty.
+    yield_constr.constraint(
+        lv.op.not_pop * len_diff * (lv.general.stack().stack_inv_aux - P::ONES),
+    );
 
     // If stack_len != 1 and POP, read new top of the stack in nv.mem_channels[0].
     let top_read_channel = nv.mem_channels[0];
@@ -731,6 +735,12 @@ pub(crate) fn eval_ext_circuit<F: RichField + Extendable<D>, const D: usize>(
         );
         let constr = builder.mul_extension(lv.op.not_pop, diff);
         yield_constr.constraint(builder, constr);
+
+        // It must be 1 if the stack doesn't get empty.
+        let diff =
+            builder.mul_sub_extension(len_diff, lv.general.stack().stack_inv_aux, len_diff);
+        let constr = builder.mul_extension(lv.op.not_pop, diff);
+        yield_constr.constraint(builder, constr);
     }
     // If stack_len != 4 and MSTORE, read new top of the stack in
     // nv.mem_channels[0].
-- 
2.43.0


From b137b3c1438fa0008f15ca9414b5a4ffaa3ef8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:51 +0000
Subject: [PATCH 46/55] fix: GET_CONTEXT writes the top of the stack to memory

---
 evm_arithmetization/src/cpu/contextops.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/evm_arithmetization/src/cpu/contextops.rs b/evm_arithmetization/src/cpu/contextops.rs
index a3e218d..fd4e2d3 100644
--- a/evm_arithmetization/src/cpu/contextops.rs
+++ b/evm_arithmetization/src/cpu/contextops.rs
@@ -314,6 +314,14 @@ pub(crate) fn eval_packed<P: PackedField>(
     // The address is one less than stack_len.
     let addr_virtual = stack_len - P::ONES;
     yield_constr.constraint(new_filter * (channel.addr_virtual - addr_virtual));
+
+    // get_context writes the previous top of the stack. `stack_inv_aux_2` holds
+    // `stack_inv_aux` for set_context, and 0 for get_context.
+    let write_filter =
+        filter * (lv.general.stack().stack_inv_aux - lv.general.stack().stack_inv_aux_2);
+    for (&limb_written, &limb_top) in channel.value.iter().zip(lv.mem_channels[0].value.iter()) {
+        yield_constr.constraint(write_filter * (limb_written - limb_top));
+    }
 }
 
 /// Circuit version of èval_packed`.
@@ -388,4 +396,17 @@ pub(crate) fn eval_ext_circuit<F: RichField + Extendable<D>, const D: usize>(
         let constr = builder.mul_extension(new_filter, diff);
         yield_constr.constraint(builder, constr);
     }
+
+    // get_context writes the previous top of the stack. `stack_inv_aux_2` holds
+    // `stack_inv_aux` for set_context, and 0 for get_context.
+    let write_filter = builder.sub_extension(
+        lv.general.stack().stack_inv_aux,
+        lv.general.stack().stack_inv_aux_2,
+    );
+    let write_filter = builder.mul_extension(filter, write_filter);
+    for (&limb_written, &limb_top) in channel.value.iter().zip(lv.mem_channels[0].value.iter()) {
+        let diff = builder.sub_extension(limb_written, limb_top);
+        let constr = builder.mul_extension(write_filter, diff);
+        yield_constr.constraint(builder, constr);
+    }
 }
-- 
2.43.0


From cc8870a1306714e5cd24b9227c1cd5e80fc2513f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:51 +0000
Subject: [PATCH 47/55] fix: the final exception pushes the kernel flag

---
 .../src/cpu/syscalls_exceptions.rs              | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/evm_arithmetization/src/cpu/syscalls_exceptions.rs b/evm_arithmetization/src/cpu/syscalls_exceptions.rs
index cea7d70..d608ffa 100644
--- a/evm_arithmetization/src/cpu/syscalls_exceptions.rs
+++ b/evm_arithmetization/src/cpu/syscalls_exceptions.rs
@@ -114,15 +114,13 @@ pub(crate) fn eval_packed<P: PackedField>(
     // counter (limbs 6 and 7).
     yield_constr.constraint(filter_syscall * (output[0] - (lv.program_counter + P::ONES)));
     yield_constr.constraint(filter_exception * (output[0] - lv.program_counter));
-    // Check the kernel mode, for syscalls only
-    yield_constr.constraint(filter_syscall * (output[1] - lv.is_kernel_mode));
+    // Check the kernel mode. As exceptions happen in user mode, it is 0 for them,
+    // except for the final halting step.
+    yield_constr.constraint(total_filter * (output[1] - lv.is_kernel_mode));
     yield_constr.constraint(total_filter * (output[6] - lv.gas));
     yield_constr.constraint(total_filter * output[7]); // High limb of gas is zero.
 
     // Zero the rest of that register
-    // output[1] is 0 for exceptions (except for the final halting step), but not
-    // for syscalls.
-    yield_constr.constraint(filter_exception * (exc_code - exc_stop_code) * output[1]);
     for &limb in &output[2..6] {
         yield_constr.constraint(total_filter * limb);
     }
@@ -294,10 +292,11 @@ pub(crate) fn eval_ext_circuit<F: RichField + Extendable<D>, const D: usize>(
         let constr = builder.mul_extension(filter_exception, diff);
         yield_constr.constraint(builder, constr);
     }
-    // Push to stack(exception): current PC (limb 0), gas counter (limbs 6 and 7).
+    // Check the kernel mode. As exceptions happen in user mode, it is 0 for them,
+    // except for the final halting step.
     {
         let diff = builder.sub_extension(output[1], lv.is_kernel_mode);
-        let constr = builder.mul_extension(filter_syscall, diff);
+        let constr = builder.mul_extension(total_filter, diff);
         yield_constr.constraint(builder, constr);
     }
     {
@@ -312,10 +311,6 @@ pub(crate) fn eval_ext_circuit<F: RichField + Extendable<D>, const D: usize>(
     }
 
     // Zero the rest of that register
-    // output[1] is 0 for exceptions (except for the final halting step), but not
-    // for syscalls.
-    let constr = builder.mul_many_extension([filter_exception, opcode_is_exc_stop, output[1]]);
-    yield_constr.constraint(builder, constr);
     for &limb in &output[2..6] {
         let constr = builder.mul_extension(total_filter, limb);
         yield_constr.constraint(builder, constr);
-- 
2.43.0


From 53f83608cfcaa7e9ae671e15aa38a32ecf94db07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:51 +0000
Subject: [PATCH 48/55] fix: range-check the bytes of the digest in the Keccak
 sponge

---
 .../src/keccak_sponge/keccak_sponge_stark.rs     | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/evm_arithmetization/src/keccak_sponge/keccak_sponge_stark.rs b/evm_arithmetization/src/keccak_sponge/keccak_sponge_stark.rs
index 26cc764..391a7a8 100644
--- a/evm_arithmetization/src/keccak_sponge/keccak_sponge_stark.rs
+++ b/evm_arithmetization/src/keccak_sponge/keccak_sponge_stark.rs
@@ -228,6 +228,15 @@ pub(crate) fn ctl_looking_keccak_filter<F: Field>() -> Filter<F> {
     ]))
 }
 
+/// The columns that must hold bytes: the input, and the digest, as only the
+/// 32-bit limbs that its bytes make up are linked to the Keccak table.
+fn range_checked_columns() -> impl Iterator<Item = usize> {
+    KECCAK_SPONGE_COL_MAP
+        .block_bytes
+        .into_iter()
+        .chain(KECCAK_SPONGE_COL_MAP.updated_digest_state_bytes)
+}
+
 /// Information about a Keccak sponge operation needed for witness generation.
 #[derive(Clone, Debug)]
 pub(crate) struct KeccakSpongeOp {
@@ -517,8 +526,7 @@ impl<F: RichField + Extendable<D>, const D: usize> KeccakSpongeStark<F, D> {
         // For each column c in cols, generate the range-check
         // permutations and put them in the corresponding range-check
         // columns rc_c and rc_c+1.
-        for col in 0..KECCAK_RATE_BYTES {
-            let c = KECCAK_SPONGE_COL_MAP.block_bytes[col];
+        for c in range_checked_columns() {
             for i in 0..n_rows {
                 let x = cols[c][i].to_canonical_u64() as usize;
                 assert!(
@@ -945,10 +953,10 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for KeccakSpongeS
 
     fn lookups(&self) -> Vec<Lookup<F>> {
         vec![Lookup {
-            columns: Column::singles(KECCAK_SPONGE_COL_MAP.block_bytes).collect(),
+            columns: Column::singles(range_checked_columns()).collect(),
             table_column: Column::single(KECCAK_SPONGE_COL_MAP.range_counter),
             frequencies_column: Column::single(KECCAK_SPONGE_COL_MAP.rc_frequencies),
-            filter_columns: vec![Default::default(); KECCAK_RATE_BYTES],
+            filter_columns: vec![Default::default(); KECCAK_RATE_BYTES + KECCAK_DIGEST_BYTES],
         }]
     }
 
-- 
2.43.0


From 56e17b356ac433f68c1dce3a9c737ac3f28ad284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:51 +0000
Subject: [PATCH 49/55] fix: a value of a preinitialized segment cannot be
 dropped from the final memory

---
 evm_arithmetization/src/memory/memory_stark.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/evm_arithmetization/src/memory/memory_stark.rs b/evm_arithmetization/src/memory/memory_stark.rs
index 357e720..5690714 100644
--- a/evm_arithmetization/src/memory/memory_stark.rs
+++ b/evm_arithmetization/src/memory/memory_stark.rs
@@ -603,13 +603,9 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for MemoryStark<F
         // `mem_after_filter` must be binary.
         yield_constr.constraint(mem_after_filter * (mem_after_filter - P::ONES));
 
-        // `mem_after_filter` is equal to `maybe_in_mem_after` if:
-        // - segment is not preinitialized OR
-        // - value is not zero.
+        // `mem_after_filter` is equal to `maybe_in_mem_after` if the value is not zero.
         for i in 0..VALUE_LIMBS {
-            yield_constr.constraint(
-                (mem_after_filter - maybe_in_mem_after) * preinitialized_segments * value_limbs[i],
-            );
+            yield_constr.constraint((mem_after_filter - maybe_in_mem_after) * value_limbs[i]);
         }
 
         // Validate timestamp_inv. Since it's used as a CTL filter, its value must be
@@ -825,13 +821,10 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for MemoryStark<F
             yield_constr.constraint(builder, constr);
         }
 
-        // `mem_after_filter` is equal to `maybe_in_mem_after` if:
-        // - segment is not preinitialized OR
-        // - value is not zero.
+        // `mem_after_filter` is equal to `maybe_in_mem_after` if the value is not zero.
         let mem_after_filter_diff = builder.sub_extension(mem_after_filter, maybe_in_mem_after);
         for i in 0..VALUE_LIMBS {
-            let prod = builder.mul_extension(preinitialized_segments, value_limbs[i]);
-            let constr = builder.mul_extension(mem_after_filter_diff, prod);
+            let constr = builder.mul_extension(mem_after_filter_diff, value_limbs[i]);
             yield_constr.constraint(builder, constr);
         }
 
-- 
2.43.0


From d2d977557c79f7645f84650bb9ba0fcb376aa218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:50 +0000
Subject: [PATCH 50/55] fix: a segment starts at the entry point of the kernel

---
 evm_arithmetization/src/cpu/control_flow.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/evm_arithmetization/src/cpu/control_flow.rs b/evm_arithmetization/src/cpu/control_flow.rs
index 1abdda9..0bba5d2 100644
--- a/evm_arithmetization/src/cpu/control_flow.rs
+++ b/evm_arithmetization/src/cpu/control_flow.rs
@@ -58,6 +58,12 @@ pub(crate) fn eval_packed_generic<P: PackedField>(
 
     let next_halt_state = P::ONES - is_cpu_cycle_next;
 
+    // Execution starts at the entry point of our kernel, in kernel mode. The kernel
+    // itself checks the context and the stack that it starts with.
+    yield_constr.constraint_first_row(lv.program_counter - get_start_pc::<P::Scalar>());
+    yield_constr.constraint_first_row(lv.is_kernel_mode - P::ONES);
+    yield_constr.constraint_first_row(is_cpu_cycle - P::ONES);
+
     // Once we start executing instructions, then we continue until the end of the
     // table or we reach dummy padding rows. This, along with the constraints on
     // the first row, enforces that operation flags and the halt flag are
@@ -131,6 +137,18 @@ pub(crate) fn eval_ext_circuit<F: RichField + Extendable<D>, const D: usize>(
 
     let next_halt_state = builder.sub_extension(one, is_cpu_cycle_next);
 
+    // Execution starts at the entry point of our kernel, in kernel mode. The kernel
+    // itself checks the context and the stack that it starts with.
+    {
+        let start_pc = builder.constant_extension(get_start_pc::<F>().into());
+        let constr = builder.sub_extension(lv.program_counter, start_pc);
+        yield_constr.constraint_first_row(builder, constr);
+        let constr = builder.sub_extension(lv.is_kernel_mode, one);
+        yield_constr.constraint_first_row(builder, constr);
+        let constr = builder.sub_extension(is_cpu_cycle, one);
+        yield_constr.constraint_first_row(builder, constr);
+    }
+
     // Once we start executing instructions, then we continue until the end of the
     // table or we reach dummy padding rows. This, along with the constraints on
     // the first row, enforces that operation flags and the halt flag are
-- 
2.43.0


From f8122f1bcc1597be740b7faf81de78389fb5a231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:50 +0000
Subject: [PATCH 51/55] fix: only the last value of an address is kept in the
 final memory

---
 .../src/memory/memory_stark.rs                | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/evm_arithmetization/src/memory/memory_stark.rs b/evm_arithmetization/src/memory/memory_stark.rs
index 5690714..6e9f702 100644
--- a/evm_arithmetization/src/memory/memory_stark.rs
+++ b/evm_arithmetization/src/memory/memory_stark.rs
@@ -600,8 +600,13 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for MemoryStark<F
             maybe_in_mem_after + filter * not_address_unchanged * (is_stale - P::ONES),
         );
 
-        // `mem_after_filter` must be binary.
+        // The last row is the last one of its address.
+        yield_constr.constraint_last_row(maybe_in_mem_after + filter * (is_stale - P::ONES));
+
+        // `mem_after_filter` must be binary, and 0 if `maybe_in_mem_after` is: only
+        // the last value of an address is kept.
         yield_constr.constraint(mem_after_filter * (mem_after_filter - P::ONES));
+        yield_constr.constraint(mem_after_filter * (maybe_in_mem_after - P::ONES));
 
         // `mem_after_filter` is equal to `maybe_in_mem_after` if the value is not zero.
         for i in 0..VALUE_LIMBS {
@@ -814,11 +819,22 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for MemoryStark<F
             yield_constr.constraint_transition(builder, constr);
         }
 
-        // `mem_after_filter` must be binary.
+        // The last row is the last one of its address.
+        {
+            let rhs = builder.mul_sub_extension(filter, is_stale, filter);
+            let constr = builder.add_extension(maybe_in_mem_after, rhs);
+            yield_constr.constraint_last_row(builder, constr);
+        }
+
+        // `mem_after_filter` must be binary, and 0 if `maybe_in_mem_after` is: only
+        // the last value of an address is kept.
         {
             let constr =
                 builder.mul_sub_extension(mem_after_filter, mem_after_filter, mem_after_filter);
             yield_constr.constraint(builder, constr);
+            let constr =
+                builder.mul_sub_extension(mem_after_filter, maybe_in_mem_after, mem_after_filter);
+            yield_constr.constraint(builder, constr);
         }
 
         // `mem_after_filter` is equal to `maybe_in_mem_after` if the value is not zero.
-- 
2.43.0


From 4a0d3769c6d22a8c6281258855fef9a5f0f7ab38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:32 +0000
Subject: [PATCH 52/55] fix: padding rows make no access through the partial
 channel

---
 evm_arithmetization/src/cpu/halt.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/evm_arithmetization/src/cpu/halt.rs b/evm_arithmetization/src/cpu/halt.rs
index 32e46fc..5c95823 100644
--- a/evm_arithmetization/src/cpu/halt.rs
+++ b/evm_arithmetization/src/cpu/halt.rs
@@ -36,6 +36,7 @@ pub(crate) fn eval_packed<P: PackedField>(
         let channel = lv.mem_channels[i];
         yield_constr.constraint(halt_state * channel.used);
     }
+    yield_constr.constraint(halt_state * lv.partial_channel.used);
 
     // The last row must be a dummy padding row.
     yield_constr.constraint_last_row(halt_state - P::ONES);
@@ -81,6 +82,8 @@ pub(crate) fn eval_ext_circuit<F: RichField + Extendable<D>, const D: usize>(
         let constr = builder.mul_extension(halt_state, channel.used);
         yield_constr.constraint(builder, constr);
     }
+    let constr = builder.mul_extension(halt_state, lv.partial_channel.used);
+    yield_constr.constraint(builder, constr);
 
     // The last row must be a dummy padding row.
     {
-- 
2.43.0


From a4485886cf00de905dd35fe6cc3ca5b857301422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:52 +0000
Subject: [PATCH 53/55] fix: GET_CONTEXT and SET_CONTEXT make no access through
 the partial channel

---
 evm_arithmetization/src/cpu/contextops.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/evm_arithmetization/src/cpu/contextops.rs b/evm_arithmetization/src/cpu/contextops.rs
index fd4e2d3..1a5c7dc 100644
--- a/evm_arithmetization/src/cpu/contextops.rs
+++ b/evm_arithmetization/src/cpu/contextops.rs
@@ -288,6 +288,8 @@ pub(crate) fn eval_packed<P: PackedField>(
     // we can constrain both at the same time.
     let filter = lv.op.context_op;
     let channel = lv.mem_channels[2];
+    // Neither uses the partial channel.
+    yield_constr.constraint(filter * lv.partial_channel.used);
     // For get_context, we check if lv.stack_len is 0. For set_context, we check if
     // nv.stack_len is 0. However, for get_context, we can deduce lv.stack_len
     // from nv.stack_len since the operation only pushes.
@@ -341,6 +343,11 @@ pub(crate) fn eval_ext_circuit<F: RichField + Extendable<D>, const D: usize>(
     // we can constrain both at the same time.
     let filter = lv.op.context_op;
     let channel = lv.mem_channels[2];
+    // Neither uses the partial channel.
+    {
+        let constr = builder.mul_extension(filter, lv.partial_channel.used);
+        yield_constr.constraint(builder, constr);
+    }
     // For get_context, we check if lv.stack_len is 0. For set_context, we check if
     // nv.stack_len is 0. However, for get_context, we can deduce lv.stack_len
     // from nv.stack_len since the operation only pushes.
-- 
2.43.0


From 99fe9b00f0b796ea81ab633961b1cb069d10da55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:17 +0000
Subject: [PATCH 54/55] hook: the constraints one by one

---
 evm_arithmetization/src/verif_hooks.rs | 41 ++++++++++++--------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/evm_arithmetization/src/verif_hooks.rs b/evm_arithmetization/src/verif_hooks.rs
index 39f3cd6..a4d2cd8 100644
--- a/evm_arithmetization/src/verif_hooks.rs
+++ b/evm_arithmetization/src/verif_hooks.rs
@@ -108,6 +108,7 @@ pub(crate) fn check_write(offset: usize) -> Result<()> {
 /// of proofs.
 pub mod starks {
     use plonky2::field::extension::Extendable;
+    use plonky2::field::packed::PackedField;
     use plonky2::hash::hash_types::RichField;
     use plonky2::iop::witness::{PartialWitness, Witness, WitnessWrite};
     use plonky2::plonk::circuit_builder::CircuitBuilder;
@@ -145,33 +146,29 @@ pub mod starks {
         };
     }
 
-    fn eval<F: RichField + Extendable<D>, const D: usize, S: Stark<F, D>>(
+    fn eval<
+        F: RichField + Extendable<D>,
+        const D: usize,
+        P: PackedField<Scalar = F>,
+        S: Stark<F, D>,
+    >(
         s: &S,
-        local: &[F],
-        next: &[F],
-        mut consumer: ConstraintConsumer<F>,
-    ) -> Vec<F> {
-        let frame = S::EvaluationFrame::<F, F, 1>::from_values(local, next, &[]);
-        s.eval_packed_generic::<F, F, 1>(&frame, &mut consumer);
-        consumer.accumulators()
+        local: &[P],
+        next: &[P],
+        consumer: &mut ConstraintConsumer<P>,
+    ) {
+        let frame = S::EvaluationFrame::<F, P, 1>::from_values(local, next, &[]);
+        s.eval_packed_generic::<F, P, 1>(&frame, consumer);
     }
 
-    /// The constraints on a row and its successor, combined with each alpha.
-    pub fn eval_row<F: RichField + Extendable<D>, const D: usize>(
+    /// The constraints on a row and its successor.
+    pub fn eval_row<F: RichField + Extendable<D>, const D: usize, P: PackedField<Scalar = F>>(
         all: &AllStark<F, D>,
         table: usize,
-        local: &[F],
-        next: &[F],
-        alphas: &[F],
-        first: bool,
-        last: bool,
-    ) -> Vec<F> {
-        let consumer = ConstraintConsumer::new(
-            alphas.to_vec(),
-            F::from_bool(!last),
-            F::from_bool(first),
-            F::from_bool(last),
-        );
+        local: &[P],
+        next: &[P],
+        consumer: &mut ConstraintConsumer<P>,
+    ) {
         with_stark!(all, table, s, eval(s, local, next, consumer))
     }
 
-- 
2.43.0


From c39bc5d4e18c51c0a94a18a7ac575d01da3c520f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:09 +0000
Subject: [PATCH 55/55] fix: an arithmetic opcode decodes to one kind of
 operation

---
 .../src/arithmetic/arithmetic_stark.rs        | 19 +++++++++++++--
 evm_arithmetization/src/cpu/cpu_stark.rs      | 24 ++++++++++++-------
 2 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/evm_arithmetization/src/arithmetic/arithmetic_stark.rs b/evm_arithmetization/src/arithmetic/arithmetic_stark.rs
index 8876060..c765a2d 100644
--- a/evm_arithmetization/src/arithmetic/arithmetic_stark.rs
+++ b/evm_arithmetization/src/arithmetic/arithmetic_stark.rs
@@ -110,8 +110,23 @@ pub(crate) fn ctl_arithmetic_rows<F: Field>() -> TableWithColumns<F> {
     // corresponding to a 256-bit input or output register (also `ops`
     // is used as the operation filter).
     let mut cols = cpu_arith_data_link(&all_combined_cols, &REGISTER_MAP);
-    // A range check must not be taken for the operation with the same opcode.
-    cols.push(Column::single(columns::IS_RANGE_CHECK));
+    // The kind of the row, as the CPU takes its operands and its output from
+    // different places: a range check must not be taken for the operation with the
+    // same opcode, nor an operation for one of another kind.
+    cols.push(Column::linear_combination(
+        [
+            (columns::IS_RANGE_CHECK, 1),
+            (columns::IS_ADDMOD, 2),
+            (columns::IS_MULMOD, 2),
+            (columns::IS_SUBMOD, 2),
+            (columns::IS_ADDFP254, 3),
+            (columns::IS_MULFP254, 3),
+            (columns::IS_SUBFP254, 3),
+            (columns::IS_SHL, 4),
+            (columns::IS_SHR, 4),
+        ]
+        .map(|(col, kind)| (col, F::from_canonical_u8(kind))),
+    ));
     TableWithColumns::new(*Table::Arithmetic, cols, filter)
 }
 
diff --git a/evm_arithmetization/src/cpu/cpu_stark.rs b/evm_arithmetization/src/cpu/cpu_stark.rs
index ef273d0..a8acd74 100644
--- a/evm_arithmetization/src/cpu/cpu_stark.rs
+++ b/evm_arithmetization/src/cpu/cpu_stark.rs
@@ -108,14 +108,22 @@ pub(crate) fn ctl_arithmetic_base_rows<F: Field>() -> TableWithColumns<F> {
     // directly.
     let mut columns = vec![Column::le_bits(COL_MAP.opcode_bits)];
     columns.extend(ctl_data_ternops());
-    // Whether the values are only range-checked. As the opcode of a range-check
-    // row is not restricted, such a row could otherwise stand in for an actual
-    // operation, and give it an arbitrary output.
-    columns.push(Column::sum([
-        COL_MAP.op.push_prover_input,
-        COL_MAP.op.syscall,
-        COL_MAP.op.exception,
-    ]));
+    // The kind of the row: if the values are only range-checked, and else where
+    // the operands come from. Otherwise, as the opcode of a range-check row is not
+    // restricted, such a row could stand in for an actual operation and give it an
+    // arbitrary output, or a ternary operation could be taken for a binary one with
+    // an arbitrary third operand.
+    columns.push(Column::linear_combination(
+        [
+            (COL_MAP.op.push_prover_input, 1),
+            (COL_MAP.op.syscall, 1),
+            (COL_MAP.op.exception, 1),
+            (COL_MAP.op.ternary_op, 2),
+            (COL_MAP.op.fp254_op, 3),
+            (COL_MAP.op.shift, 4),
+        ]
+        .map(|(col, kind)| (col, F::from_canonical_u8(kind))),
+    ));
     // Create the CPU Table whose columns are those with the three
     // inputs and one output of the ternary operations listed in `ops`
     // (also `ops` is used as the operation filter). The list of
-- 
2.43.0

