From 7703e08983e342c60145409ea03bf87c7267274f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:07 +0000
Subject: [PATCH 01/25] fix: mpt_trie: clones of a HashedPartialTrie must not
 share cached hashes after a change

---
 mpt_trie/src/partial_trie.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/mpt_trie/src/partial_trie.rs b/mpt_trie/src/partial_trie.rs
index e8f1ebe..5703dce 100644
--- a/mpt_trie/src/partial_trie.rs
+++ b/mpt_trie/src/partial_trie.rs
@@ -347,6 +347,12 @@ impl HashedPartialTrie {
     pub(crate) fn set_hash(&self, v: Option<H256>) {
         *self.hash.write() = v;
     }
+
+    /// Drops the cached hash after a change of the node. Clones made earlier
+    /// share the old cache cell and still need it, so take a new one.
+    fn forget_hash(&mut self) {
+        self.hash = Arc::new(RwLock::new(None));
+    }
 }
 
 impl PartialTrie for HashedPartialTrie {
@@ -372,7 +378,7 @@ impl PartialTrie for HashedPartialTrie {
         V: Into<crate::trie_ops::ValOrHash>,
     {
         self.node.trie_insert(k, v)?;
-        self.set_hash(None);
+        self.forget_hash();
         Ok(())
     }
 
@@ -382,9 +388,11 @@ impl PartialTrie for HashedPartialTrie {
         V: Into<crate::trie_ops::ValOrHash>,
         I: IntoIterator<Item = (K, V)>,
     {
-        self.node.trie_extend(nodes)?;
-        self.set_hash(None);
-        Ok(())
+        // Some nodes may have been inserted even if this fails.
+        let res = self.node.trie_extend(nodes);
+        self.forget_hash();
+
+        res
     }
 
     fn get<K>(&self, k: K) -> Option<&[u8]>
@@ -399,7 +407,7 @@ impl PartialTrie for HashedPartialTrie {
         K: Into<crate::nibbles::Nibbles>,
     {
         let res = self.node.trie_delete(k, self.strategy);
-        self.set_hash(None);
+        self.forget_hash();
 
         res
     }
-- 
2.43.0


From f93864c3c6ded12a378c1bedad2499821731fc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:07 +0000
Subject: [PATCH 02/25] fix: mpt_trie: create_trie_subsets must forget that an
 earlier subset touched the root

---
 mpt_trie/src/trie_subsets.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/mpt_trie/src/trie_subsets.rs b/mpt_trie/src/trie_subsets.rs
index eadb6b3..ba23adc 100644
--- a/mpt_trie/src/trie_subsets.rs
+++ b/mpt_trie/src/trie_subsets.rs
@@ -373,18 +373,14 @@ fn create_partial_trie_subset_from_tracked_trie<N: PartialTrie>(
 }
 
 fn reset_tracked_trie_state<N: PartialTrie>(tracked_node: &mut TrackedNode<N>) {
+    tracked_node.info.reset();
+
     match tracked_node.node {
-        TrackedNodeIntern::Branch(ref mut children) => children.iter_mut().for_each(|c| {
-            c.info.reset();
-            reset_tracked_trie_state(c);
-        }),
-        TrackedNodeIntern::Extension(ref mut child) => {
-            child.info.reset();
-            reset_tracked_trie_state(child);
-        }
-        TrackedNodeIntern::Empty | TrackedNodeIntern::Hash | TrackedNodeIntern::Leaf => {
-            tracked_node.info.reset()
+        TrackedNodeIntern::Branch(ref mut children) => {
+            children.iter_mut().for_each(reset_tracked_trie_state)
         }
+        TrackedNodeIntern::Extension(ref mut child) => reset_tracked_trie_state(child),
+        TrackedNodeIntern::Empty | TrackedNodeIntern::Hash | TrackedNodeIntern::Leaf => {}
     }
 }
 
-- 
2.43.0


From 05f33363e07391d8b8b074ef183e4004ff96e358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:17 +0000
Subject: [PATCH 03/25] fix: mpt_trie: looking up or subsetting by a key that
 ends inside an extension must not panic

---
 mpt_trie/src/trie_ops.rs     | 5 +++++
 mpt_trie/src/trie_subsets.rs | 4 +++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/mpt_trie/src/trie_ops.rs b/mpt_trie/src/trie_ops.rs
index c7cee9b..c1ae28b 100644
--- a/mpt_trie/src/trie_ops.rs
+++ b/mpt_trie/src/trie_ops.rs
@@ -356,6 +356,11 @@ impl<T: PartialTrie> Node<T> {
             }
             Node::Extension { nibbles, child } => {
                 trace!("Get traversed Extension (nibbles: {:?})", nibbles);
+                // The key ends inside the extension.
+                if curr_nibbles.count < nibbles.count {
+                    return None;
+                }
+
                 let r = curr_nibbles.pop_nibbles_front(nibbles.count);
 
                 match r.nibbles_are_identical_up_to_smallest_count(nibbles) {
diff --git a/mpt_trie/src/trie_subsets.rs b/mpt_trie/src/trie_subsets.rs
index ba23adc..b6cb119 100644
--- a/mpt_trie/src/trie_subsets.rs
+++ b/mpt_trie/src/trie_subsets.rs
@@ -325,7 +325,9 @@ fn mark_nodes_that_are_needed<N: PartialTrie>(
             trie.info.touched = true;
 
             let nibbles: &Nibbles = trie.info.get_nibbles_expected();
-            if curr_nibbles.nibbles_are_identical_up_to_smallest_count(nibbles) {
+            if curr_nibbles.count >= nibbles.count
+                && curr_nibbles.nibbles_are_identical_up_to_smallest_count(nibbles)
+            {
                 curr_nibbles.pop_nibbles_front(nibbles.count);
                 return mark_nodes_that_are_needed(child, curr_nibbles);
             }
-- 
2.43.0


From 1539e1986fbb0558630882cb2f9fc360f3a32041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:29 +0000
Subject: [PATCH 04/25] fix: mpt_trie: a subset through a hidden part must
 return its error, not panic building it

---
 mpt_trie/src/trie_subsets.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mpt_trie/src/trie_subsets.rs b/mpt_trie/src/trie_subsets.rs
index b6cb119..642ffbe 100644
--- a/mpt_trie/src/trie_subsets.rs
+++ b/mpt_trie/src/trie_subsets.rs
@@ -254,8 +254,10 @@ where
     N: PartialTrie,
     K: Into<Nibbles>,
 {
-    for mut k in keys_involved.map(|k| k.into()) {
-        mark_nodes_that_are_needed(tracked_trie, &mut k).map_err(|_| {
+    for k in keys_involved.map(|k| k.into()) {
+        // Marking consumes the key, and an error is about the whole key.
+        let mut remaining_k = k;
+        mark_nodes_that_are_needed(tracked_trie, &mut remaining_k).map_err(|_| {
             // We need to unwind back to this callsite in order to produce the actual error.
             let query = DebugQueryParamsBuilder::default()
                 .include_node_specific_values(true)
-- 
2.43.0


From 79821f23dfc6e28144e908ae3428dcc3acb4fff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:24 +0000
Subject: [PATCH 05/25] fix: smt_trie: getting a key that leads to an empty
 subtree must return 0, not panic

---
 smt_trie/src/smt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt_trie/src/smt.rs b/smt_trie/src/smt.rs
index d2236ae..b9ddb8e 100644
--- a/smt_trie/src/smt.rs
+++ b/smt_trie/src/smt.rs
@@ -156,7 +156,7 @@ impl<D: Db> Smt<D> {
                 level += 1;
             }
         }
-        unreachable!()
+        U256::ZERO
     }
 
     /// Set the value associated with the key in the SMT.
-- 
2.43.0


From c2d0b4769717439be60e5a069d1337164f2b2311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:13 +0000
Subject: [PATCH 06/25] fix: smt_trie: keys that differ only in their last bit
 must not overflow the shifts of their limbs

---
 smt_trie/src/smt.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/smt_trie/src/smt.rs b/smt_trie/src/smt.rs
index b9ddb8e..f5b3a66 100644
--- a/smt_trie/src/smt.rs
+++ b/smt_trie/src/smt.rs
@@ -50,7 +50,9 @@ impl Key {
             n[i % 4] += 1;
         }
         let key = std::array::from_fn(|i| {
-            F::from_canonical_u64((rem_key.0[i].to_canonical_u64() << n[i]) | accs[i])
+            // All 64 bits of a limb may come from `bits`, nothing remains then.
+            let rem = rem_key.0[i].to_canonical_u64().checked_shl(n[i]);
+            F::from_canonical_u64(rem.unwrap_or_default() | accs[i])
         });
         Key(key)
     }
@@ -63,7 +65,7 @@ impl Key {
             if full_levels * 4 + i < nbits {
                 n += 1;
             }
-            auxk[i] >>= n;
+            auxk[i] = auxk[i].checked_shr(n as u32).unwrap_or_default();
         }
         Key(auxk.map(F::from_canonical_u64))
     }
-- 
2.43.0


From 83a5edfb5640454ffc58baea95556eaf7b41855d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:00 +0000
Subject: [PATCH 07/25] fix: kernel: code deployment must not look at stale
 return data, nor leave rejected code in it

---
 evm_arithmetization/src/cpu/kernel/asm/core/create.asm | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/create.asm b/evm_arithmetization/src/cpu/kernel/asm/core/create.asm
index 1c8e57e..51d1095 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/create.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/create.asm
@@ -148,13 +148,18 @@ after_constructor:
     // stack: new_ctx, leftover_gas, success, address, kexit_info
     POP
 
-    // EIP-3541: Reject new contract code starting with the 0xEF byte
+    // EIP-3541: Reject new contract code starting with the 0xEF byte, if code_size > 0.
+    // (Otherwise the return data segment still holds the bytes of an earlier call.)
+    %returndatasize ISZERO
+    // stack: code_size == 0, leftover_gas, success, address, kexit_info
+    %jumpi(after_constructor_ef_check)
     PUSH @SEGMENT_RETURNDATA
     GET_CONTEXT
     %build_address_no_offset
     MLOAD_GENERAL
     %eq_const(0xEF) %jumpi(create_first_byte_ef)
 
+after_constructor_ef_check:
     // Charge gas for the code size.
     // stack: leftover_gas, success, address, kexit_info
     %returndatasize // Size of the code.
@@ -225,12 +230,14 @@ create_collision:
 // stack: new_ctx, leftover_gas, success, address, kexit_info
 create_first_byte_ef:
     %revert_checkpoint
+    %mstore_context_metadata(@CTX_METADATA_RETURNDATA_SIZE, 0)
     %stack (leftover_gas, success, address, kexit_info) -> (kexit_info, 0)
     EXIT_KERNEL
 
 // stack: code_size, new_ctx, leftover_gas, success, address, kexit_info
 create_code_too_large:
     %revert_checkpoint
+    %mstore_context_metadata(@CTX_METADATA_RETURNDATA_SIZE, 0)
     %stack (code_size, leftover_gas, success, address, kexit_info) -> (kexit_info, 0)
     EXIT_KERNEL
 
-- 
2.43.0


From 357cec6e3c4594934db75ca83f8fef710cd8320f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:00 +0000
Subject: [PATCH 08/25] fix: kernel: reverting a self-destruct without balance
 must unmark the contract for deletion

---
 .../src/cpu/kernel/asm/core/terminate.asm     | 27 -------------------
 .../kernel/asm/journal/account_destroyed.asm  |  7 +++++
 2 files changed, 7 insertions(+), 27 deletions(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/terminate.asm b/evm_arithmetization/src/cpu/kernel/asm/core/terminate.asm
index 2e3482e..bbe0b05 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/terminate.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/terminate.asm
@@ -109,36 +109,9 @@ global sys_selfdestruct:
     %add_eth
 
 sys_selfdestruct_journal_add:
-    // stack: address, recipient, balance, kexit_info
-    DUP3 ISZERO
-
-    // If balance is 0, we didn't perform any transfer. Hence, the recipient
-    // may not exist, and we need to verify this before adding a new journal entry.
-
-    // stack: balance=0, address, recipient, balance, kexit_info
-    %jumpi(skip_journal_entry_if_nonexistent)
-
-sys_selfdestruct_journal_add_after_check:
     // stack: address, recipient, balance, kexit_info
     %journal_add_account_destroyed
-    %jump(sys_selfdestruct_exit)
-
-skip_journal_entry_if_nonexistent:
-    // stack: address, recipient, balance, kexit_info
-    DUP2 %is_non_existent
-
-    // If the account doesn't exist, there is no need to add a journal entry.
-    // stack: recipient_is_non_existent, address, recipient, balance, kexit_info
-    %jumpi(skip_journal_entry)
-
-    // stack: address, recipient, balance, kexit_info
-    %jump(sys_selfdestruct_journal_add_after_check)
-
-skip_journal_entry:
-    // stack: address, recipient, balance, kexit_info
-    %pop3
 
-sys_selfdestruct_exit:
     // stack: kexit_info
     %leftover_gas
     // stack: leftover_gas
diff --git a/evm_arithmetization/src/cpu/kernel/asm/journal/account_destroyed.asm b/evm_arithmetization/src/cpu/kernel/asm/journal/account_destroyed.asm
index d62f3d4..b5a9c13 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/journal/account_destroyed.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/journal/account_destroyed.asm
@@ -13,6 +13,8 @@ global revert_account_destroyed:
     %jump(remove_selfdestruct_list)
 revert_account_destroyed_contd:
     // stack: address, target, prev_balance, retdest
+    // If `prev_balance` is 0, nothing was transferred, and `target` may not exist.
+    DUP3 ISZERO %jumpi(revert_account_destroyed_no_transfer)
     SWAP1
     // Remove `prev_balance` from `target`'s balance.
     // stack: target, address, prev_balance, retdest
@@ -36,3 +38,8 @@ revert_account_destroyed_contd:
     // stack: account_balance_payload_ptr, prev_balance, retdest
     %mstore_trie_data
     JUMP
+
+revert_account_destroyed_no_transfer:
+    // stack: address, target, prev_balance, retdest
+    %pop3
+    JUMP
-- 
2.43.0


From 09365de9c736311976059e206dee296fa7b2404d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:00 +0000
Subject: [PATCH 09/25] fix: kernel: a contract that a creation collides with
 was not created in this transaction

---
 .../src/cpu/kernel/asm/core/create_contract_account.asm         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/create_contract_account.asm b/evm_arithmetization/src/cpu/kernel/asm/core/create_contract_account.asm
index a614f9f..e8a50f4 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/create_contract_account.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/create_contract_account.asm
@@ -4,7 +4,6 @@
 %macro create_contract_account
     // stack: address
     DUP1 %insert_touched_addresses
-    DUP1 %append_created_contracts
     DUP1 %mpt_read_state_trie
     // stack: existing_account_ptr, address
     // If the account doesn't exist, there's no need to check its balance or nonce,
@@ -33,6 +32,7 @@
     %journal_add_account_created
 %%do_insert:
     // stack: new_acct_value=existing_balance, address
+    DUP2 %append_created_contracts
     // Write the new account's data to MPT data, and get a pointer to it.
     %get_trie_data_size
     // stack: account_ptr, new_acct_value, address
-- 
2.43.0


From 00e32c4d0a9105410665329bf43a477d291f3dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:00 +0000
Subject: [PATCH 10/25] fix: kernel: a transaction that directly calls a
 precompile may fail

---
 .../src/cpu/kernel/asm/core/precompiles/main.asm                | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/precompiles/main.asm b/evm_arithmetization/src/cpu/kernel/asm/core/precompiles/main.asm
index d29bff2..875a7aa 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/precompiles/main.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/precompiles/main.asm
@@ -57,6 +57,8 @@ global after_precompile:
 
 global handle_precompiles_from_eoa:
     PUSH 1 %mstore_global_metadata(@GLOBAL_METADATA_IS_PRECOMPILE_FROM_EOA)
+    // `process_message_txn_fail` reverts to this checkpoint if the precompile fails.
+    %checkpoint
     // stack: addr, retdest
     %create_context
     // stack: new_ctx, addr, retdest
-- 
2.43.0


From 38489720b48bc1f9d192594821e89c939f06c274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:38 +0000
Subject: [PATCH 11/25] fix: kernel: an invalid blob transaction must not pay
 the blob fee

---
 .../src/cpu/kernel/asm/core/process_txn.asm         | 13 ++++++++++++-
 .../src/cpu/kernel/asm/transactions/type_3.asm      |  9 ---------
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm b/evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm
index 28252d0..f008772 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm
@@ -39,7 +39,7 @@ global process_normalized_txn:
     DUP1 %ext_code_empty %assert_nonzero(invalid_txn_1)
     // stack: sender, retdest
 
-    // Assert sender balance >= gas_limit * gas_price + value.
+    // Assert sender balance >= gas_limit * gas_price + value (+ blob_gas_fee).
     %balance
     // stack: sender_balance, retdest
     %mload_txn_field(@TXN_FIELD_COMPUTED_FEE_PER_GAS)
@@ -47,6 +47,11 @@ global process_normalized_txn:
     MUL
     %mload_txn_field(@TXN_FIELD_VALUE)
     ADD
+    #[cfg(feature = eth_mainnet)]
+    {
+        %compute_blob_gas_fee
+        ADD
+    }
     %assert_le(invalid_txn)
     // stack: retdest
 
@@ -68,6 +73,12 @@ global buy_gas:
     %mload_txn_field(@TXN_FIELD_COMPUTED_FEE_PER_GAS)
     %mload_txn_field(@TXN_FIELD_GAS_LIMIT)
     MUL
+    #[cfg(feature = eth_mainnet)]
+    {
+        // EIP-4844: Deduct blob_gas_fee from the sender and burn it
+        %compute_blob_gas_fee
+        ADD
+    }
     // stack: gas_cost, retdest
     %mload_txn_field(@TXN_FIELD_ORIGIN)
     // stack: sender_addr, gas_cost, retdest
diff --git a/evm_arithmetization/src/cpu/kernel/asm/transactions/type_3.asm b/evm_arithmetization/src/cpu/kernel/asm/transactions/type_3.asm
index f84f95c..661cd81 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/transactions/type_3.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/transactions/type_3.asm
@@ -87,15 +87,6 @@ store_origin:
     %eq_const(0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff)
     %jumpi(panic)
 
-    // stack: address, retdest
-    // EIP-4844: Deduct blob_gas_fee from the sender and burn it
-    %compute_blob_gas_fee
-    DUP2
-    // stack: address, blob_gas_fee, address, retdest
-    %deduct_eth
-    // stack: deduct_eth_status, address, retdest
-    %jumpi(panic)
-
     // stack: address, retdest
     %mstore_txn_field(@TXN_FIELD_ORIGIN)
     // stack: retdest
-- 
2.43.0


From b43173e321c80cdce3827348b07205111a924759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:09 +0000
Subject: [PATCH 12/25] fix: kernel: a transaction's cost must not overflow
 when compared with the sender's balance

---
 evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm b/evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm
index f008772..74be9fa 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm
@@ -42,6 +42,9 @@ global process_normalized_txn:
     // Assert sender balance >= gas_limit * gas_price + value (+ blob_gas_fee).
     %balance
     // stack: sender_balance, retdest
+    // First bound the summands one by one, so that the sum below cannot overflow.
+    DUP1 %mload_txn_field(@TXN_FIELD_COMPUTED_FEE_PER_GAS) %assert_le(invalid_txn_1)
+    DUP1 %mload_txn_field(@TXN_FIELD_VALUE) %assert_le(invalid_txn_1)
     %mload_txn_field(@TXN_FIELD_COMPUTED_FEE_PER_GAS)
     %mload_txn_field(@TXN_FIELD_GAS_LIMIT)
     MUL
-- 
2.43.0


From eff0abb27f83b7404e4ae3f9e9308f6c82c50e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:56 +0000
Subject: [PATCH 13/25] fix: kernel: the sender must afford the maximum fee,
 not only the effective one

---
 evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm b/evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm
index 74be9fa..a63d408 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm
@@ -39,13 +39,13 @@ global process_normalized_txn:
     DUP1 %ext_code_empty %assert_nonzero(invalid_txn_1)
     // stack: sender, retdest
 
-    // Assert sender balance >= gas_limit * gas_price + value (+ blob_gas_fee).
+    // Assert sender balance >= gas_limit * max_fee + value (+ blob_gas_fee).
     %balance
     // stack: sender_balance, retdest
     // First bound the summands one by one, so that the sum below cannot overflow.
-    DUP1 %mload_txn_field(@TXN_FIELD_COMPUTED_FEE_PER_GAS) %assert_le(invalid_txn_1)
+    DUP1 %mload_txn_field(@TXN_FIELD_MAX_FEE_PER_GAS) %assert_le(invalid_txn_1)
     DUP1 %mload_txn_field(@TXN_FIELD_VALUE) %assert_le(invalid_txn_1)
-    %mload_txn_field(@TXN_FIELD_COMPUTED_FEE_PER_GAS)
+    %mload_txn_field(@TXN_FIELD_MAX_FEE_PER_GAS)
     %mload_txn_field(@TXN_FIELD_GAS_LIMIT)
     MUL
     %mload_txn_field(@TXN_FIELD_VALUE)
-- 
2.43.0


From fc16082ab2977187cb631dc1f5bb767f641855d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:33 +0000
Subject: [PATCH 14/25] fix: witness: a deleted account's slots must leave the
 hints for the storage linked list

---
 evm_arithmetization/src/generation/prover_input.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/evm_arithmetization/src/generation/prover_input.rs b/evm_arithmetization/src/generation/prover_input.rs
index 704e2f4..012d5e9 100644
--- a/evm_arithmetization/src/generation/prover_input.rs
+++ b/evm_arithmetization/src/generation/prover_input.rs
@@ -611,6 +611,8 @@ impl<F: RichField> GenerationState<F> {
             .range(..(addr, U256::zero()))
             .next_back()
             .unwrap_or((&DUMMYHEAD, &(Segment::StorageLinkedList as usize)));
+        // The kernel removes all of these nodes from the list.
+        self.state_ptrs.storage.retain(|&(a, _), _| a != addr);
 
         Ok(U256::from(
             (pred_ptr - Segment::StorageLinkedList as usize) / STORAGE_LINKED_LIST_NODE_SIZE,
-- 
2.43.0


From 25fbac514a0a2204f873de64e2990321d854384d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:55 +0000
Subject: [PATCH 15/25] fix: kernel: the point evaluation precompile takes
 exactly 192 bytes

---
 .../src/cpu/kernel/asm/core/precompiles/kzg_peval.asm         | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/precompiles/kzg_peval.asm b/evm_arithmetization/src/cpu/kernel/asm/core/precompiles/kzg_peval.asm
index 5a8a372..6ccdcf8 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/precompiles/kzg_peval.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/precompiles/kzg_peval.asm
@@ -14,6 +14,10 @@ global precompile_kzg_peval:
 
     %charge_gas_const(@KZG_PEVAL_GAS)
 
+    // The input must be exactly 192 bytes long.
+    %calldatasize
+    %eq_const(192) ISZERO %jumpi(fault_exception)
+
     // Load `versioned_hash | z | y | commitment | proof` from the call data using `MLOAD_32BYTES`.
     // Note that `z` and `y` are padded 32 byte big endian values, and `commitment` and `proof` are
     // both 48 bytes big-endian encoded values.
-- 
2.43.0


From 7280e235fc8ba589f1cdbd85c3ec19a742a8cec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:55 +0000
Subject: [PATCH 16/25] fix: point evaluation: the modulus itself is no
 canonical scalar

---
 evm_arithmetization/src/generation/prover_input.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evm_arithmetization/src/generation/prover_input.rs b/evm_arithmetization/src/generation/prover_input.rs
index 012d5e9..8743123 100644
--- a/evm_arithmetization/src/generation/prover_input.rs
+++ b/evm_arithmetization/src/generation/prover_input.rs
@@ -643,7 +643,7 @@ impl<F: RichField> GenerationState<F> {
         let proof_lo = stack_peek(self, 6)?;
 
         // Validate scalars
-        if z > BLS_SCALAR || y > BLS_SCALAR {
+        if z >= BLS_SCALAR || y >= BLS_SCALAR {
             return Ok(U256::zero());
         }
 
-- 
2.43.0


From 5c228f997e54ef02e299723b6e584f4dc6c66e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 17/25] fix: credit the fee of a failed transaction to a
 beneficiary that did not exist before

In trace_decoder, the changes that a failed transaction makes to an account
which is not yet in the state were dropped. The beneficiary is credited the
fee whether the transaction succeeds or not, so the state roots of the
payloads were wrong whenever it first appears in a failed transaction.
---
 trace_decoder/src/core.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trace_decoder/src/core.rs b/trace_decoder/src/core.rs
index cd2bcfa..02eb1c8 100644
--- a/trace_decoder/src/core.rs
+++ b/trace_decoder/src/core.rs
@@ -503,8 +503,9 @@ where
 
                 let do_writes = !just_access
                     && match born {
-                        // if txn failed, don't commit changes to trie
-                        true => receipt.status,
+                        // if txn failed, don't commit changes to trie,
+                        // apart from the fee that it pays all the same
+                        true => receipt.status || addr == block.block_beneficiary,
                         false => true,
                     };
 
-- 
2.43.0


From 51e9fab7f640250a17c098ceeec7444e64964058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:56 +0000
Subject: [PATCH 18/25] verif hooks: read and evaluate the STARK tables from
 outside (cfg verif_hooks, off by default)

---
 evm_arithmetization/src/lib.rs         |   5 +
 evm_arithmetization/src/verif_hooks.rs | 286 +++++++++++++++++++++++++
 2 files changed, 291 insertions(+)
 create mode 100644 evm_arithmetization/src/verif_hooks.rs

diff --git a/evm_arithmetization/src/lib.rs b/evm_arithmetization/src/lib.rs
index 9bc6021..ff50b6f 100644
--- a/evm_arithmetization/src/lib.rs
+++ b/evm_arithmetization/src/lib.rs
@@ -288,6 +288,11 @@ pub mod tries;
 pub mod util;
 pub mod world;
 
+// Access for external verification
+#[allow(unexpected_cfgs)]
+#[cfg(verif_hooks)]
+pub mod verif_hooks;
+
 // Public definitions and re-exports
 mod public_types;
 pub use public_types::*;
diff --git a/evm_arithmetization/src/verif_hooks.rs b/evm_arithmetization/src/verif_hooks.rs
new file mode 100644
index 0000000..e888c3c
--- /dev/null
+++ b/evm_arithmetization/src/verif_hooks.rs
@@ -0,0 +1,286 @@
+//! Access for external verification to the tables and their constraints.
+//! Compiled only with `--cfg verif_hooks`; nothing else depends on it.
+
+use ethereum_types::U256;
+use plonky2::field::goldilocks_field::GoldilocksField;
+use plonky2::field::polynomial::PolynomialValues;
+use plonky2::field::types::Field;
+use plonky2::util::timing::TimingTree;
+use starky::constraint_consumer::ConstraintConsumer;
+use starky::cross_table_lookup::CrossTableLookup;
+use starky::evaluation_frame::StarkEvaluationFrame;
+use starky::lookup::Lookup;
+use starky::stark::Stark;
+
+use crate::all_stark::{all_cross_table_lookups, Table, MEMORY_CTL_IDX, NUM_TABLES};
+use crate::arithmetic::arithmetic_stark::ArithmeticStark;
+use crate::arithmetic::{BinaryOperator, Operation, TernaryOperator};
+use crate::byte_packing::byte_packing_stark::{BytePackingOp, BytePackingStark};
+use crate::cpu::cpu_stark::CpuStark;
+use crate::cpu::kernel::aggregator::KERNEL;
+use crate::generation::segments::GenerationSegmentData;
+use crate::keccak::keccak_stark::KeccakStark;
+use crate::keccak_sponge::keccak_sponge_stark::KeccakSpongeStark;
+use crate::logic;
+use crate::logic::LogicStark;
+use crate::memory::memory_stark::MemoryStark;
+use crate::memory::segments::Segment;
+use crate::memory_continuation::memory_continuation_stark::MemoryContinuationStark;
+use crate::proof::PublicValues;
+use crate::witness::memory::{MemoryAddress, MemoryOp, MemoryOpKind};
+use crate::witness::state::RegistersState;
+
+pub type F = GoldilocksField;
+pub const D: usize = 2;
+pub type Columns = Vec<PolynomialValues<F>>;
+
+pub const TABLES: usize = NUM_TABLES;
+pub const MEMORY_CTL: usize = MEMORY_CTL_IDX;
+
+/// Does something with the STARK of a table.
+macro_rules! with_stark {
+    ($table:expr, $stark:ident => $do:expr) => {{
+        let table = $table;
+        if table == *Table::Arithmetic {
+            let $stark = ArithmeticStark::<F, D>::default();
+            $do
+        } else if table == *Table::BytePacking {
+            let $stark = BytePackingStark::<F, D>::default();
+            $do
+        } else if table == *Table::Cpu {
+            let $stark = CpuStark::<F, D>::default();
+            $do
+        } else if table == *Table::Keccak {
+            let $stark = KeccakStark::<F, D>::default();
+            $do
+        } else if table == *Table::KeccakSponge {
+            let $stark = KeccakSpongeStark::<F, D>::default();
+            $do
+        } else if table == *Table::Logic {
+            let $stark = LogicStark::<F, D>::default();
+            $do
+        } else if table == *Table::Memory {
+            let $stark = MemoryStark::<F, D>::default();
+            $do
+        } else {
+            let $stark = MemoryContinuationStark::<F, D>::default();
+            $do
+        }
+    }};
+}
+
+/// The number of columns of each table.
+pub fn widths() -> [usize; NUM_TABLES] {
+    let mut widths = [0; NUM_TABLES];
+    widths[*Table::Arithmetic] = crate::arithmetic::columns::NUM_ARITH_COLUMNS;
+    widths[*Table::BytePacking] = crate::byte_packing::columns::NUM_COLUMNS;
+    widths[*Table::Cpu] = crate::cpu::columns::NUM_CPU_COLUMNS;
+    widths[*Table::Keccak] = crate::keccak::columns::NUM_COLUMNS;
+    widths[*Table::KeccakSponge] = crate::keccak_sponge::columns::NUM_KECCAK_SPONGE_COLUMNS;
+    widths[*Table::Logic] = logic::columns::NUM_COLUMNS;
+    widths[*Table::Memory] = crate::memory::columns::NUM_COLUMNS;
+    widths[*Table::MemBefore] = crate::memory_continuation::columns::NUM_COLUMNS;
+    widths[*Table::MemAfter] = crate::memory_continuation::columns::NUM_COLUMNS;
+    widths
+}
+
+/// The columns of a table by name, as printed by `Debug`.
+pub fn layout(table: usize) -> String {
+    if table == *Table::Cpu {
+        format!("{:?}", crate::cpu::columns::COL_MAP)
+    } else if table == *Table::Memory {
+        format!("{:?}", crate::memory::columns::MEMORY_COL_MAP)
+    } else if table == *Table::Logic {
+        format!("{:?}", logic::columns::LOGIC_COL_MAP)
+    } else if table == *Table::BytePacking {
+        format!("{:?}", crate::byte_packing::columns::BYTE_PACKING_COL_MAP)
+    } else if table == *Table::KeccakSponge {
+        format!("{:?}", crate::keccak_sponge::columns::KECCAK_SPONGE_COL_MAP)
+    } else {
+        String::new()
+    }
+}
+
+fn eval_one<S: Stark<F, D>>(stark: &S, lv: &[F], nv: &[F], at: [bool; 3], alpha: F) -> F {
+    let frame = S::EvaluationFrame::<F, F, 1>::from_values(lv, nv, &[]);
+    let mut consumer = ConstraintConsumer::<F>::new(
+        vec![alpha],
+        F::from_bool(at[0]),
+        F::from_bool(at[1]),
+        F::from_bool(at[2]),
+    );
+    stark.eval_packed_generic(&frame, &mut consumer);
+    consumer.accumulators()[0]
+}
+
+/// A random combination of all the constraints of a table on two neighbouring
+/// rows: with those of transitions, of the first row, of the last row.
+pub fn eval(table: usize, lv: &[F], nv: &[F], at: [bool; 3], alpha: F) -> F {
+    with_stark!(table, s => eval_one(&s, lv, nv, at, alpha))
+}
+
+/// The lookups within a table.
+pub fn lookups(table: usize) -> Vec<Lookup<F>> {
+    with_stark!(table, s => s.lookups())
+}
+
+/// The lookups between tables.
+pub fn cross_lookups() -> Vec<CrossTableLookup<F>> {
+    all_cross_table_lookups()
+}
+
+/// The memory writes that the verifier adds for the public values.
+#[cfg(debug_assertions)]
+pub fn public_memory(public_values: &PublicValues<F>) -> Vec<Vec<F>> {
+    crate::verifier::debug_utils::get_memory_extra_looking_values::<F, D>(public_values)
+}
+
+/// The number of a memory segment.
+pub fn segment(name: &str) -> Option<usize> {
+    Segment::all()
+        .iter()
+        .find(|s| format!("{s:?}") == name)
+        .map(|s| s.unscale())
+}
+
+/// A memory operation: whether it is real, whether it reads, its time,
+/// context, segment, offset and value.
+pub type Access = (bool, bool, usize, [usize; 3], U256);
+
+const fn address(a: [usize; 3]) -> MemoryAddress {
+    MemoryAddress {
+        context: a[0],
+        segment: a[1],
+        virt: a[2],
+    }
+}
+
+/// The memory table for some operations, and the rows of the next memory.
+pub fn memory_table(
+    accesses: &[Access],
+    before: &[([usize; 3], U256)],
+    stale: &[usize],
+) -> (Columns, Vec<Vec<F>>) {
+    let ops = accesses
+        .iter()
+        .map(|&(filter, is_read, timestamp, a, value)| MemoryOp {
+            filter,
+            timestamp,
+            address: address(a),
+            kind: if is_read {
+                MemoryOpKind::Read
+            } else {
+                MemoryOpKind::Write
+            },
+            value,
+        })
+        .collect();
+    let before: Vec<_> = before.iter().map(|&(a, v)| (address(a), v)).collect();
+    let (columns, after, _) = MemoryStark::<F, D>::default().generate_trace(
+        ops,
+        &before,
+        stale.to_vec(),
+        &mut TimingTree::default(),
+    );
+    (columns, after)
+}
+
+/// The arithmetic table for operations given by name, with their inputs.
+/// "RangeCheck" takes three inputs, the opcode and the output.
+pub fn arithmetic_table(ops: &[(&str, Vec<U256>)]) -> Columns {
+    use BinaryOperator::*;
+    let binary = [
+        Add, Mul, Sub, Div, Mod, Lt, Gt, AddFp254, MulFp254, SubFp254, Byte, Shl, Shr,
+    ];
+    let ternary = [
+        TernaryOperator::AddMod,
+        TernaryOperator::MulMod,
+        TernaryOperator::SubMod,
+    ];
+    let ops = ops
+        .iter()
+        .map(|(name, x)| {
+            if let Some(op) = binary.iter().find(|op| format!("{op:?}") == *name) {
+                Operation::binary(*op, x[0], x[1])
+            } else if let Some(op) = ternary.iter().find(|op| format!("{op:?}") == *name) {
+                Operation::ternary(*op, x[0], x[1], x[2])
+            } else {
+                Operation::range_check(x[0], x[1], x[2], x[3], x[4])
+            }
+        })
+        .collect();
+    ArithmeticStark::<F, D>::default().generate_trace(ops)
+}
+
+/// The logic table for operations given by name.
+pub fn logic_table(ops: &[(&str, U256, U256)]) -> Columns {
+    let ops = ops
+        .iter()
+        .map(|&(name, a, b)| {
+            let op = match name {
+                "And" => logic::Op::And,
+                "Or" => logic::Op::Or,
+                _ => logic::Op::Xor,
+            };
+            logic::Operation::new(op, a, b)
+        })
+        .collect();
+    LogicStark::<F, D>::default().generate_trace(ops, 1, &mut TimingTree::default())
+}
+
+/// The byte-packing table for operations: whether they read, the address, the
+/// time and the bytes.
+pub fn byte_packing_table(ops: &[(bool, [usize; 3], usize, Vec<u8>)]) -> Columns {
+    let ops = ops
+        .iter()
+        .map(|(is_read, a, timestamp, bytes)| BytePackingOp {
+            is_read: *is_read,
+            base_address: address(*a),
+            timestamp: *timestamp,
+            bytes: bytes.clone(),
+        })
+        .collect();
+    BytePackingStark::<F, D>::default().generate_trace(ops, 1, &mut TimingTree::default())
+}
+
+/// A view of what a segment starts with and ends in.
+#[derive(Clone, Debug)]
+pub struct SegmentView {
+    pub index: usize,
+    pub registers_before: RegistersState,
+    pub registers_after: RegistersState,
+    pub memory: Vec<([usize; 3], U256)>,
+    pub preinitialized: Vec<(usize, Vec<Option<U256>>)>,
+}
+
+pub fn view(data: &GenerationSegmentData) -> SegmentView {
+    let mut memory = vec![];
+    for (c, context) in data.memory.contexts.iter().enumerate() {
+        for (s, segment) in context.segments.iter().enumerate() {
+            for (v, value) in segment.content.iter().enumerate() {
+                if let Some(value) = value {
+                    memory.push(([c, s, v], *value));
+                }
+            }
+        }
+    }
+    let mut preinitialized: Vec<_> = data
+        .memory
+        .preinitialized_segments
+        .iter()
+        .map(|(s, m)| (s.unscale(), m.content.clone()))
+        .collect();
+    preinitialized.sort();
+    SegmentView {
+        index: data.segment_index,
+        registers_before: data.registers_before,
+        registers_after: data.registers_after,
+        memory,
+        preinitialized,
+    }
+}
+
+/// Where a label of the kernel is.
+pub fn label(name: &str) -> usize {
+    KERNEL.global_labels[name]
+}
-- 
2.43.0


From 7cab3a1c365ce4caa97e12fc21512d39780054f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:20 +0000
Subject: [PATCH 19/25] fix: memory table: only the contexts that the CPU
 pruned may count as stale

---
 .../src/memory/memory_stark.rs                | 27 +++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/evm_arithmetization/src/memory/memory_stark.rs b/evm_arithmetization/src/memory/memory_stark.rs
index 357e720..016da28 100644
--- a/evm_arithmetization/src/memory/memory_stark.rs
+++ b/evm_arithmetization/src/memory/memory_stark.rs
@@ -492,6 +492,8 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for MemoryStark<F
         let addr_virtual = lv.addr_virtual;
         let value_limbs = lv.value_limbs;
         let timestamp_inv = lv.timestamp_inv;
+        let stale_contexts = lv.stale_contexts;
+        let is_pruned = lv.is_pruned;
         let is_stale = lv.is_stale;
         let maybe_in_mem_after = lv.maybe_in_mem_after;
         let mem_after_filter = lv.mem_after_filter;
@@ -595,6 +597,14 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for MemoryStark<F
             yield_constr.constraint_transition(initialize_aux * next_values_limbs[i]);
         }
 
+        // `is_stale` and `is_pruned` must be binary.
+        yield_constr.constraint(is_stale * (is_stale - P::ONES));
+        yield_constr.constraint(is_pruned * (is_pruned - P::ONES));
+
+        // `is_pruned` must be set whenever `stale_contexts` holds a context, so that
+        // only the contexts that were pruned by the CPU can be stale.
+        yield_constr.constraint(stale_contexts * (is_pruned - P::ONES));
+
         // Validate `maybe_in_mem_after`.
         yield_constr.constraint_transition(
             maybe_in_mem_after + filter * not_address_unchanged * (is_stale - P::ONES),
@@ -644,6 +654,8 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for MemoryStark<F
         let value_limbs = lv.value_limbs;
         let timestamp = lv.timestamp;
         let timestamp_inv = lv.timestamp_inv;
+        let stale_contexts = lv.stale_contexts;
+        let is_pruned = lv.is_pruned;
         let is_stale = lv.is_stale;
         let maybe_in_mem_after = lv.maybe_in_mem_after;
         let mem_after_filter = lv.mem_after_filter;
@@ -810,6 +822,21 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for MemoryStark<F
             yield_constr.constraint_transition(builder, zero_init_constraint);
         }
 
+        // `is_stale` and `is_pruned` must be binary.
+        {
+            let constr = builder.mul_sub_extension(is_stale, is_stale, is_stale);
+            yield_constr.constraint(builder, constr);
+            let constr = builder.mul_sub_extension(is_pruned, is_pruned, is_pruned);
+            yield_constr.constraint(builder, constr);
+        }
+
+        // `is_pruned` must be set whenever `stale_contexts` holds a context, so that
+        // only the contexts that were pruned by the CPU can be stale.
+        {
+            let constr = builder.mul_sub_extension(stale_contexts, is_pruned, stale_contexts);
+            yield_constr.constraint(builder, constr);
+        }
+
         // Validate `maybe_in_mem_after`.
         {
             let rhs = builder.mul_extension(filter, not_address_unchanged);
-- 
2.43.0


From 6ce5ac93a4b0fe24da24f1591f6d546791a0d8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:20 +0000
Subject: [PATCH 20/25] fix: memory table: zero values, and values of
 preinitialized segments, are carried over exactly as intended

---
 evm_arithmetization/src/memory/columns.rs     |  6 ++
 .../src/memory/memory_stark.rs                | 65 +++++++++++++++----
 2 files changed, 57 insertions(+), 14 deletions(-)

diff --git a/evm_arithmetization/src/memory/columns.rs b/evm_arithmetization/src/memory/columns.rs
index 10fb75b..7f1def0 100644
--- a/evm_arithmetization/src/memory/columns.rs
+++ b/evm_arithmetization/src/memory/columns.rs
@@ -80,6 +80,12 @@ pub(crate) struct MemoryColumnsView<T> {
     /// segment is preinitialized or the value is non-zero, is 0 otherwise.
     pub mem_after_filter: T,
 
+    /// Used to check that the segment is not preinitialized when its value is
+    /// filtered out. Contains the inverse of the `preinitialized_segments` of
+    /// the previous row (which describes the segment of this row) if
+    /// `mem_after_filter` and `maybe_in_mem_after` differ, 0 otherwise.
+    pub preinitialized_segments_inv: T,
+
     /// We use a range check to enforce the ordering.
     pub range_check: T,
     /// The counter column (used for the range check) starts from 0 and
diff --git a/evm_arithmetization/src/memory/memory_stark.rs b/evm_arithmetization/src/memory/memory_stark.rs
index 016da28..84bbdd3 100644
--- a/evm_arithmetization/src/memory/memory_stark.rs
+++ b/evm_arithmetization/src/memory/memory_stark.rs
@@ -275,6 +275,9 @@ impl<F: RichField + Extendable<D>, const D: usize> MemoryStark<F, D> {
                         .contains(&(addr_segment.to_canonical_u64() as usize))
                 {
                     trace_col_vecs[MEMORY_COL_MAP.mem_after_filter][i] = F::ONE;
+                } else if i > 0 {
+                    trace_col_vecs[MEMORY_COL_MAP.preinitialized_segments_inv][i] =
+                        trace_col_vecs[MEMORY_COL_MAP.preinitialized_segments][i - 1].inverse();
                 }
             }
         }
@@ -295,13 +298,13 @@ impl<F: RichField + Extendable<D>, const D: usize> MemoryStark<F, D> {
     /// address, say at timestamps 50 and 80.
     fn fill_gaps(memory_ops: &mut Vec<MemoryOp>) {
         // First, insert padding row at address (0, 0, 0) if the first row doesn't
-        // have a first virtual address at 0.
-        if memory_ops[0].address.virt != 0 {
-            let dummy_addr = MemoryAddress {
-                context: 0,
-                segment: 0,
-                virt: 0,
-            };
+        // have this address.
+        let dummy_addr = MemoryAddress {
+            context: 0,
+            segment: 0,
+            virt: 0,
+        };
+        if memory_ops[0].address != dummy_addr {
             memory_ops.insert(
                 0,
                 MemoryOp {
@@ -507,6 +510,9 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for MemoryStark<F
         let next_addr_segment = nv.addr_segment;
         let next_addr_virtual = nv.addr_virtual;
         let next_values_limbs = nv.value_limbs;
+        let next_maybe_in_mem_after = nv.maybe_in_mem_after;
+        let next_mem_after_filter = nv.mem_after_filter;
+        let next_preinitialized_segments_inv = nv.preinitialized_segments_inv;
 
         // The filter must be 0 or 1.
         let filter = lv.filter;
@@ -613,14 +619,24 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for MemoryStark<F
         // `mem_after_filter` must be binary.
         yield_constr.constraint(mem_after_filter * (mem_after_filter - P::ONES));
 
+        // `mem_after_filter` can only be set if `maybe_in_mem_after` is.
+        yield_constr.constraint(mem_after_filter * (maybe_in_mem_after - P::ONES));
+
         // `mem_after_filter` is equal to `maybe_in_mem_after` if:
-        // - segment is not preinitialized OR
+        // - segment is preinitialized OR
         // - value is not zero.
         for i in 0..VALUE_LIMBS {
-            yield_constr.constraint(
-                (mem_after_filter - maybe_in_mem_after) * preinitialized_segments * value_limbs[i],
-            );
+            yield_constr.constraint((mem_after_filter - maybe_in_mem_after) * value_limbs[i]);
         }
+        // `preinitialized_segments` describes the segment of the next row. It must be
+        // invertible if the value of the next row is filtered out, i.e. that segment
+        // cannot be a preinitialized one. The first row has no previous row: it is
+        // never filtered out.
+        yield_constr.constraint_first_row(mem_after_filter - maybe_in_mem_after);
+        yield_constr.constraint_transition(
+            (next_mem_after_filter - next_maybe_in_mem_after)
+                * (preinitialized_segments * next_preinitialized_segments_inv - P::ONES),
+        );
 
         // Validate timestamp_inv. Since it's used as a CTL filter, its value must be
         // checked.
@@ -667,6 +683,9 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for MemoryStark<F
         let next_addr_segment = nv.addr_segment;
         let next_addr_virtual = nv.addr_virtual;
         let next_values_limbs = nv.value_limbs;
+        let next_maybe_in_mem_after = nv.maybe_in_mem_after;
+        let next_mem_after_filter = nv.mem_after_filter;
+        let next_preinitialized_segments_inv = nv.preinitialized_segments_inv;
         let next_is_read = nv.is_read;
         let next_timestamp = nv.timestamp;
 
@@ -852,15 +871,33 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for MemoryStark<F
             yield_constr.constraint(builder, constr);
         }
 
+        // `mem_after_filter` can only be set if `maybe_in_mem_after` is.
+        {
+            let constr =
+                builder.mul_sub_extension(mem_after_filter, maybe_in_mem_after, mem_after_filter);
+            yield_constr.constraint(builder, constr);
+        }
+
         // `mem_after_filter` is equal to `maybe_in_mem_after` if:
-        // - segment is not preinitialized OR
+        // - segment is preinitialized OR
         // - value is not zero.
         let mem_after_filter_diff = builder.sub_extension(mem_after_filter, maybe_in_mem_after);
         for i in 0..VALUE_LIMBS {
-            let prod = builder.mul_extension(preinitialized_segments, value_limbs[i]);
-            let constr = builder.mul_extension(mem_after_filter_diff, prod);
+            let constr = builder.mul_extension(mem_after_filter_diff, value_limbs[i]);
             yield_constr.constraint(builder, constr);
         }
+        // `preinitialized_segments` describes the segment of the next row. It must be
+        // invertible if the value of the next row is filtered out, i.e. that segment
+        // cannot be a preinitialized one. The first row has no previous row: it is
+        // never filtered out.
+        yield_constr.constraint_first_row(builder, mem_after_filter_diff);
+        {
+            let next_diff = builder.sub_extension(next_mem_after_filter, next_maybe_in_mem_after);
+            let prod =
+                builder.mul_extension(preinitialized_segments, next_preinitialized_segments_inv);
+            let constr = builder.mul_sub_extension(next_diff, prod, next_diff);
+            yield_constr.constraint_transition(builder, constr);
+        }
 
         // Validate timestamp_inv. Since it's used as a CTL filter, its value must be
         // checked.
-- 
2.43.0


From 8da0203d963ae02ad6bb925e45f20515fc2c2c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:20 +0000
Subject: [PATCH 21/25] fix: memory table: the last value of an address cannot
 be left out of the next memory

---
 .../src/memory/memory_stark.rs                | 60 ++++++++++++++-----
 1 file changed, 44 insertions(+), 16 deletions(-)

diff --git a/evm_arithmetization/src/memory/memory_stark.rs b/evm_arithmetization/src/memory/memory_stark.rs
index 84bbdd3..e498450 100644
--- a/evm_arithmetization/src/memory/memory_stark.rs
+++ b/evm_arithmetization/src/memory/memory_stark.rs
@@ -366,24 +366,24 @@ impl<F: RichField + Extendable<D>, const D: usize> MemoryStark<F, D> {
         // - We change its filter to 0 to indicate that this is a dummy operation.
         // - We make sure it's a read, since dummy operations must be reads.
         // - We change the address so that the last operation can still be included in
-        //   `MemAfterStark`.
-        let padding_addr = MemoryAddress {
-            virt: last_op.address.virt + 1,
-            ..last_op.address
-        };
-        let padding_op = MemoryOp {
-            filter: false,
-            kind: Read,
-            address: padding_addr,
-            timestamp: last_op.timestamp + 1,
-            value: U256::zero(),
-        };
+        //   `MemAfterStark`. Each padding row has its own address, as only an actual
+        //   operation can be the last of several at the same address.
         let num_ops = memory_ops.len();
         // We want at least one padding row, so that the last real operation can have
         // its flags set correctly.
         let num_ops_padded = (num_ops + 1).next_power_of_two();
-        for _ in num_ops..num_ops_padded {
-            memory_ops.push(padding_op);
+        for i in num_ops..num_ops_padded {
+            let padding_addr = MemoryAddress {
+                virt: last_op.address.virt + 1 + (i - num_ops),
+                ..last_op.address
+            };
+            memory_ops.push(MemoryOp {
+                filter: false,
+                kind: Read,
+                address: padding_addr,
+                timestamp: last_op.timestamp + 1,
+                value: U256::zero(),
+            });
         }
     }
 
@@ -535,6 +535,9 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for MemoryStark<F
         let address_unchanged =
             one - context_first_change - segment_first_change - virtual_first_change;
 
+        let next_address_changed =
+            nv.context_first_change + nv.segment_first_change + nv.virtual_first_change;
+
         let range_check = lv.range_check;
 
         let not_context_first_change = one - context_first_change;
@@ -611,8 +614,16 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for MemoryStark<F
         // only the contexts that were pruned by the CPU can be stale.
         yield_constr.constraint(stale_contexts * (is_pruned - P::ONES));
 
-        // Validate `maybe_in_mem_after`.
+        // The last operation at an address must be an actual one if there is another:
+        // a dummy read in its place would keep the value out of `MemAfter`.
         yield_constr.constraint_transition(
+            address_unchanged * (P::ONES - nv.filter) * next_address_changed,
+        );
+        // The last row always ends its address.
+        yield_constr.constraint_last_row(address_unchanged);
+
+        // Validate `maybe_in_mem_after`.
+        yield_constr.constraint(
             maybe_in_mem_after + filter * not_address_unchanged * (is_stale - P::ONES),
         );
 
@@ -715,6 +726,12 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for MemoryStark<F
             builder.sub_extension(cur, virtual_first_change)
         };
 
+        let next_address_changed = builder.add_many_extension([
+            nv.context_first_change,
+            nv.segment_first_change,
+            nv.virtual_first_change,
+        ]);
+
         let range_check = lv.range_check;
 
         let not_context_first_change = builder.sub_extension(one, context_first_change);
@@ -856,12 +873,23 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for MemoryStark<F
             yield_constr.constraint(builder, constr);
         }
 
+        // The last operation at an address must be an actual one if there is another:
+        // a dummy read in its place would keep the value out of `MemAfter`.
+        {
+            let next_is_dummy = builder.sub_extension(one, nv.filter);
+            let next_dummy_end = builder.mul_extension(next_is_dummy, next_address_changed);
+            let constr = builder.mul_extension(address_unchanged, next_dummy_end);
+            yield_constr.constraint_transition(builder, constr);
+        }
+        // The last row always ends its address.
+        yield_constr.constraint_last_row(builder, address_unchanged);
+
         // Validate `maybe_in_mem_after`.
         {
             let rhs = builder.mul_extension(filter, not_address_unchanged);
             let rhs = builder.mul_sub_extension(rhs, is_stale, rhs);
             let constr = builder.add_extension(maybe_in_mem_after, rhs);
-            yield_constr.constraint_transition(builder, constr);
+            yield_constr.constraint(builder, constr);
         }
 
         // `mem_after_filter` must be binary.
-- 
2.43.0


From d304b36443e85f99a8ab2f12acfeb68f987cb88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:50 +0000
Subject: [PATCH 22/25] fix: arithmetic table: a range check cannot stand in
 for an arithmetic operation

---
 evm_arithmetization/src/arithmetic/arithmetic_stark.rs | 10 +++++-----
 evm_arithmetization/src/cpu/cpu_stark.rs               |  8 ++++++++
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/evm_arithmetization/src/arithmetic/arithmetic_stark.rs b/evm_arithmetization/src/arithmetic/arithmetic_stark.rs
index 2b7eb25..9a542df 100644
--- a/evm_arithmetization/src/arithmetic/arithmetic_stark.rs
+++ b/evm_arithmetization/src/arithmetic/arithmetic_stark.rs
@@ -109,11 +109,11 @@ pub(crate) fn ctl_arithmetic_rows<F: Field>() -> TableWithColumns<F> {
     // by `regs`, where each element of `regs` is a range of columns
     // corresponding to a 256-bit input or output register (also `ops`
     // is used as the operation filter).
-    TableWithColumns::new(
-        *Table::Arithmetic,
-        cpu_arith_data_link(&all_combined_cols, &REGISTER_MAP),
-        filter,
-    )
+    let mut ctl_columns = cpu_arith_data_link(&all_combined_cols, &REGISTER_MAP);
+    // `OPCODE_COL` can hold the code of an arithmetic operation: a range check, whose
+    // result is not constrained, must not be looked up as one.
+    ctl_columns.push(Column::single(columns::IS_RANGE_CHECK));
+    TableWithColumns::new(*Table::Arithmetic, ctl_columns, filter)
 }
 
 /// Structure representing the `Arithmetic` STARK, which carries out all the
diff --git a/evm_arithmetization/src/cpu/cpu_stark.rs b/evm_arithmetization/src/cpu/cpu_stark.rs
index a0dd45e..c4e3117 100644
--- a/evm_arithmetization/src/cpu/cpu_stark.rs
+++ b/evm_arithmetization/src/cpu/cpu_stark.rs
@@ -108,6 +108,14 @@ pub(crate) fn ctl_arithmetic_base_rows<F: Field>() -> TableWithColumns<F> {
     // directly.
     let mut columns = vec![Column::le_bits(COL_MAP.opcode_bits)];
     columns.extend(ctl_data_ternops());
+    // Range checks (of syscalls, exceptions and prover inputs) must not be confused
+    // with arithmetic operations: their result can be any value. Of the instructions
+    // sharing `push_prover_input`, the filter below only selects `PROVER_INPUT`.
+    columns.push(Column::sum([
+        COL_MAP.op.push_prover_input,
+        COL_MAP.op.syscall,
+        COL_MAP.op.exception,
+    ]));
     // Create the CPU Table whose columns are those with the three
     // inputs and one output of the ternary operations listed in `ops`
     // (also `ops` is used as the operation filter). The list of
-- 
2.43.0


From 2f8ebb8b974d4b9fabcafbcb619d9e320c148bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:52 +0000
Subject: [PATCH 23/25] fix: witness: an account balance longer than 32 bytes
 is an error, not a panic

---
 trace_decoder/src/wire.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trace_decoder/src/wire.rs b/trace_decoder/src/wire.rs
index 3590430..029e654 100644
--- a/trace_decoder/src/wire.rs
+++ b/trace_decoder/src/wire.rs
@@ -164,7 +164,10 @@ fn account_leaf(input: &mut &[u8]) -> PResult<Instruction> {
             true => Some(
                 trace(
                     "balance",
-                    cbor::<Vec<u8>>.map(|bytes| U256::from_big_endian(&bytes)),
+                    // `from_big_endian` panics for more than 32 bytes
+                    cbor::<Vec<u8>>
+                        .verify(|bytes: &Vec<u8>| bytes.len() <= 32)
+                        .map(|bytes| U256::from_big_endian(&bytes)),
                 )
                 .parse_next(input)?,
             ),
-- 
2.43.0


From f9b95a3c531c2bedca9771bde0e4dc6a6ba18dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:31 +0000
Subject: [PATCH 24/25] verif hooks: the columns of the arithmetic table

---
 evm_arithmetization/src/verif_hooks.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/evm_arithmetization/src/verif_hooks.rs b/evm_arithmetization/src/verif_hooks.rs
index e888c3c..3ec3257 100644
--- a/evm_arithmetization/src/verif_hooks.rs
+++ b/evm_arithmetization/src/verif_hooks.rs
@@ -96,6 +96,22 @@ pub fn layout(table: usize) -> String {
         format!("{:?}", crate::byte_packing::columns::BYTE_PACKING_COL_MAP)
     } else if table == *Table::KeccakSponge {
         format!("{:?}", crate::keccak_sponge::columns::KECCAK_SPONGE_COL_MAP)
+    } else if table == *Table::Arithmetic {
+        use crate::arithmetic::columns::*;
+        let list = |r: std::ops::Range<usize>| r.collect::<Vec<_>>();
+        let parts = [
+            ("in0", list(INPUT_REGISTER_0)),
+            ("in1", list(INPUT_REGISTER_1)),
+            ("in2", list(INPUT_REGISTER_2)),
+            ("out", list(OUTPUT_REGISTER)),
+            ("aux", list(AUX_INPUT_REGISTER_DBL)),
+            ("reduced", list(MODULAR_OUT_AUX_RED)),
+            ("zero", vec![MODULAR_MOD_IS_ZERO, MODULAR_DIV_DENOM_IS_ZERO]),
+            ("low", list(MODULAR_AUX_INPUT_LO)),
+            ("high", list(MODULAR_AUX_INPUT_HI)),
+        ];
+        let parts: Vec<_> = parts.iter().map(|(n, l)| format!("{n}: {l:?}")).collect();
+        format!("Columns {{ {} }}", parts.join(", "))
     } else {
         String::new()
     }
-- 
2.43.0


From 6a2880468c5cd9af720e8bb1a0288602148fdc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:31 +0000
Subject: [PATCH 25/25] fix: arithmetic table: the quotient of a division by
 zero is zero

---
 evm_arithmetization/src/arithmetic/modular.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/evm_arithmetization/src/arithmetic/modular.rs b/evm_arithmetization/src/arithmetic/modular.rs
index f91bebe..15ba049 100644
--- a/evm_arithmetization/src/arithmetic/modular.rs
+++ b/evm_arithmetization/src/arithmetic/modular.rs
@@ -453,6 +453,12 @@ pub(crate) fn modular_constr_poly<P: PackedField>(
         filter * (mod_is_zero * (lv[IS_DIV] + lv[IS_SHR]) - div_denom_is_zero),
     );
 
+    // The quotient of a division by zero is zero. With the modulus 1, which
+    // replaces 0 here, any quotient up to the input would do. The limbs are
+    // range-checked, so that their sum is zero only if each of them is.
+    let quot_sum = quot.into_iter().sum::<P>();
+    yield_constr.constraint_transition(filter * div_denom_is_zero * quot_sum);
+
     // Needed to compensate for adding mod_is_zero to modulus above,
     // since the call eval_packed_generic_addcy() below subtracts modulus
     // to verify in the case of a DIV or SHR.
@@ -645,6 +651,14 @@ pub(crate) fn modular_constr_poly_ext_circuit<F: RichField + Extendable<D>, cons
     let t = builder.mul_extension(filter, t);
     yield_constr.constraint_transition(builder, t);
 
+    // The quotient of a division by zero is zero. With the modulus 1, which
+    // replaces 0 here, any quotient up to the input would do. The limbs are
+    // range-checked, so that their sum is zero only if each of them is.
+    let quot_sum = builder.add_many_extension(quot);
+    let t = builder.mul_extension(div_denom_is_zero, quot_sum);
+    let t = builder.mul_extension(filter, t);
+    yield_constr.constraint_transition(builder, t);
+
     // Needed to compensate for adding mod_is_zero to modulus above,
     // since the call eval_packed_generic_addcy() below subtracts modulus
     // to verify in the case of a DIV or SHR.
-- 
2.43.0

