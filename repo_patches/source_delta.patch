From 1076bb68ebfaa6bdcd901f795ce7a9ea6faaa0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:50 +0000
Subject: [PATCH 01/22] fix: follow a single EIP-7702 delegation level when
 inspecting accounts

A delegation loop (A -> B -> A) made inspect_account_delegated recurse until the stack
overflowed, and the delegation of an account first seen through the database was only
followed when the database happened to return the code inline.
---
 crates/mega-evm/src/evm/instructions.rs | 66 +++++++++++++------------
 1 file changed, 35 insertions(+), 31 deletions(-)

diff --git a/crates/mega-evm/src/evm/instructions.rs b/crates/mega-evm/src/evm/instructions.rs
index 805c1a5..ac36369 100644
--- a/crates/mega-evm/src/evm/instructions.rs
+++ b/crates/mega-evm/src/evm/instructions.rs
@@ -1268,6 +1268,33 @@ pub trait JournalInspectTr {
     ) -> Result<&EvmStorageSlot, Self::DBError>;
 }
 
+/// Loads the account into the journal, without marking it as warm, together with its code.
+fn inspect_account_with_code<DB: revm::Database>(
+    journal: &mut Journal<DB>,
+    address: Address,
+) -> Result<&mut Account, DB::Error> {
+    let transaction_id = journal.transaction_id;
+    let account = match journal.inner.state.entry(address) {
+        Entry::Occupied(entry) => entry.into_mut(),
+        Entry::Vacant(entry) => {
+            let mut account = journal
+                .database
+                .basic(address)?
+                .map(|info| info.into())
+                .unwrap_or_else(|| Account::new_not_existing(transaction_id));
+            // delibrately mark the account as cold since we are only inpecting it, not warming
+            // it.
+            account.mark_cold();
+            entry.insert(account)
+        }
+    };
+    if account.info.code_hash != KECCAK_EMPTY && account.info.code.is_none() {
+        // Load code if not loaded before
+        account.info.code = Some(journal.database.code_by_hash(account.info.code_hash)?);
+    }
+    Ok(account)
+}
+
 impl<DB: revm::Database> JournalInspectTr for Journal<DB> {
     type DBError = <DB as revm::Database>::Error;
 
@@ -1275,38 +1302,15 @@ impl<DB: revm::Database> JournalInspectTr for Journal<DB> {
         &mut self,
         address: Address,
     ) -> Result<&mut Account, Self::DBError> {
-        let transaction_id = self.transaction_id;
-        let account = match self.inner.state.entry(address) {
-            Entry::Occupied(entry) => {
-                let account = entry.into_mut();
-                if account.info.code_hash != KECCAK_EMPTY && account.info.code.is_none() {
-                    // Load code if not loaded before
-                    account.info.code = Some(self.database.code_by_hash(account.info.code_hash)?);
-                }
-                account
-            }
-            Entry::Vacant(entry) => {
-                let mut account = self
-                    .database
-                    .basic(address)?
-                    .map(|info| info.into())
-                    .unwrap_or_else(|| Account::new_not_existing(transaction_id));
-                // delibrately mark the account as cold since we are only inpecting it, not warming
-                // it.
-                account.mark_cold();
-                entry.insert(account)
-            }
-        };
+        let account = inspect_account_with_code(self, address)?;
 
-        // If the account is a delegated account, inspect the delegated account.
-        if let Some(Bytecode::Eip7702(code)) = &account.info.code {
-            let address = code.address();
-            return self.inspect_account_delegated(address);
-        }
-
-        // Load account again to bypass the borrow checker.
-        let account = self.inner.state.get_mut(&address).unwrap();
-        Ok(account)
+        // If the account is a delegated account, inspect the delegated account. As in EIP-7702,
+        // only one level of delegation is followed: delegations may form chains or loops.
+        let address = match &account.info.code {
+            Some(Bytecode::Eip7702(code)) => code.address(),
+            _ => address,
+        };
+        inspect_account_with_code(self, address)
     }
 
     fn inspect_storage(
-- 
2.43.0


From 3311dd92fbdba72cf7c89c8e05280dee0e6224be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:32 +0000
Subject: [PATCH 02/22] fix: inspect the storage of the account itself, not of
 its EIP-7702 delegate

For a delegated account, inspect_storage cached the account's slot in the journal entry of the
delegate, so the delegate's own storage was read (and metered) with the wrong value.
---
 crates/mega-evm/src/evm/instructions.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/mega-evm/src/evm/instructions.rs b/crates/mega-evm/src/evm/instructions.rs
index ac36369..d3bf4ff 100644
--- a/crates/mega-evm/src/evm/instructions.rs
+++ b/crates/mega-evm/src/evm/instructions.rs
@@ -1319,11 +1319,12 @@ impl<DB: revm::Database> JournalInspectTr for Journal<DB> {
         key: StorageKey,
     ) -> Result<&EvmStorageSlot, Self::DBError> {
         let transaction_id = self.transaction_id;
-        let account = self.inspect_account_delegated(address)?;
+        // The storage always belongs to the account itself, even if its code is delegated.
+        let account = inspect_account_with_code(self, address)?;
         if account.storage.contains_key(&key) {
             // Slot already exists, return reference to it
             // Need to reload account to satisfy borrow checker
-            let account = self.inspect_account_delegated(address)?;
+            let account = inspect_account_with_code(self, address)?;
             return Ok(account.storage.get(&key).unwrap());
         }
         // Slot doesn't exist, load from DB and insert
@@ -1332,7 +1333,7 @@ impl<DB: revm::Database> JournalInspectTr for Journal<DB> {
         // delibrately mark the slot as cold since we are only inpecting it, not warming it
         slot.mark_cold();
         // Load account again to bypass the borrow checker and insert the slot
-        let account = self.inspect_account_delegated(address)?;
+        let account = inspect_account_with_code(self, address)?;
         account.storage.insert(key, slot);
         // Return reference to the newly inserted slot
         Ok(account.storage.get(&key).expect("slot should exist"))
-- 
2.43.0


From e803370a0890ac9fbe035d307262f3b8a53187db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:47 +0000
Subject: [PATCH 03/22] fix: do not read beyond the allocated memory in the
 CREATE2 wrapper

The wrapper hashed the init code before the memory range was expanded by the original
instruction, which panicked in debug builds and was an out-of-bounds read in release builds.
An empty init code with an arbitrary offset was also rejected although it is valid.
---
 crates/mega-evm/src/evm/instructions.rs | 48 +++++++++++++++++++++----
 1 file changed, 42 insertions(+), 6 deletions(-)

diff --git a/crates/mega-evm/src/evm/instructions.rs b/crates/mega-evm/src/evm/instructions.rs
index d3bf4ff..32ffd14 100644
--- a/crates/mega-evm/src/evm/instructions.rs
+++ b/crates/mega-evm/src/evm/instructions.rs
@@ -5,7 +5,7 @@ use crate::{
     AdditionalLimit, ExternalEnvTypes, HostExt, MegaContext, MegaSpecId,
 };
 use alloy_evm::Database;
-use alloy_primitives::{keccak256, Address, Bytes, U256};
+use alloy_primitives::{keccak256, Address, Keccak256, U256};
 use revm::{
     context::{ContextTr, JournalTr},
     handler::instructions::{EthInstructions, InstructionProvider},
@@ -870,12 +870,48 @@ pub mod storage_gas_ext {
                 context.interpreter.halt(InstructionResult::StackUnderflow);
                 return;
             };
-            let initcode_offset = as_usize_or_fail!(context.interpreter, initcode_offset);
             let initcode_len = as_usize_or_fail!(context.interpreter, initcode_len);
-            let code = Bytes::copy_from_slice(
-                context.interpreter.memory.slice_len(initcode_offset, initcode_len).as_ref(),
-            );
-            let initcode_hash = keccak256(&code);
+            let initcode_hash = if initcode_len == 0 {
+                KECCAK_EMPTY
+            } else {
+                let initcode_offset = as_usize_or_fail!(context.interpreter, initcode_offset);
+                let available = context.interpreter.memory.size().saturating_sub(initcode_offset);
+                if initcode_len <= available {
+                    keccak256(
+                        context.interpreter.memory.slice_len(initcode_offset, initcode_len).as_ref(),
+                    )
+                } else {
+                    // The memory is only expanded by the original instruction below. Up to there
+                    // the missing part reads as zeros. Fail early in the cases where the original
+                    // instruction fails, so that the hashing is always paid for.
+                    if initcode_len > context.host.max_initcode_size() {
+                        context.interpreter.halt(InstructionResult::CreateInitCodeSizeLimit);
+                        return;
+                    }
+                    let create2_cost = revm::interpreter::gas::create2_cost(initcode_len);
+                    if create2_cost.is_none_or(|cost| context.interpreter.gas.remaining() < cost) {
+                        context.interpreter.halt(InstructionResult::OutOfGas);
+                        return;
+                    }
+                    let mut hasher = Keccak256::new();
+                    if available > 0 {
+                        hasher.update(
+                            context
+                                .interpreter
+                                .memory
+                                .slice_len(initcode_offset, available)
+                                .as_ref(),
+                        );
+                    }
+                    let mut missing = initcode_len - available;
+                    while missing > 0 {
+                        let chunk = min(missing, 32);
+                        hasher.update(&[0u8; 32][..chunk]);
+                        missing -= chunk;
+                    }
+                    hasher.finalize()
+                }
+            };
 
             let Some(salt) = context.interpreter.stack.inspect::<3>() else {
                 context.interpreter.halt(InstructionResult::StackUnderflow);
-- 
2.43.0


From e98b3fbaf0a13a31f28c1a235373a3771f661110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:30 +0000
Subject: [PATCH 04/22] fix: count the data size of access lists by length, not
 by vector capacity

AccessListItem::size() is an in-memory size that depends on the capacity of the storage key
vector, so the same transaction was metered differently depending on how it was decoded.
---
 crates/mega-evm/src/limit/data_size.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/mega-evm/src/limit/data_size.rs b/crates/mega-evm/src/limit/data_size.rs
index 3cd96dc..7a223d2 100644
--- a/crates/mega-evm/src/limit/data_size.rs
+++ b/crates/mega-evm/src/limit/data_size.rs
@@ -169,7 +169,11 @@ impl DataSizeTracker {
         // bytes for the access list of a transaction
         size += tx
             .access_list()
-            .map(|item| item.map(|access| access.size() as u64).sum::<u64>())
+            .map(|item| {
+                // 20 bytes for the address and 32 bytes for each storage key. The in-memory size of
+                // the item must not be used: it depends on the capacity of its vector.
+                item.map(|access| 20 + 32 * access.storage_keys.len() as u64).sum::<u64>()
+            })
             .unwrap_or_default();
         // bytes for the EIP-7702 authorization list of a transaction (101 bytes per authorization)
         size += tx.authorization_list_len() as u64 * AUTHORIZATION_SIZE;
-- 
2.43.0


From 534e502b4fc2353f2607210aa7bc4302ef688414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:17 +0000
Subject: [PATCH 05/22] fix: saturate the block limit pre-execution sums

A transaction gas limit close to u64::MAX wrapped block_gas_used + gas_limit around and
passed the block gas limit check (or panicked with overflow checks).
---
 crates/mega-evm/src/block/limit.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/mega-evm/src/block/limit.rs b/crates/mega-evm/src/block/limit.rs
index 4a5ef65..105ce37 100644
--- a/crates/mega-evm/src/block/limit.rs
+++ b/crates/mega-evm/src/block/limit.rs
@@ -794,7 +794,7 @@ impl BlockLimiter {
         }
 
         // Check block gas limit
-        if self.block_gas_used + gas_limit > self.limits.block_gas_limit {
+        if self.block_gas_used.saturating_add(gas_limit) > self.limits.block_gas_limit {
             return Err(BlockExecutionError::Validation(
                 BlockValidationError::TransactionGasLimitMoreThanAvailableBlockGas {
                     transaction_gas_limit: gas_limit,
@@ -815,7 +815,7 @@ impl BlockLimiter {
         }
 
         // Check block transaction size limit
-        if tx_size + self.block_tx_size_used > self.limits.block_txs_encode_size_limit {
+        if tx_size.saturating_add(self.block_tx_size_used) > self.limits.block_txs_encode_size_limit {
             return Err(BlockExecutionError::Validation(BlockValidationError::InvalidTx {
                 hash: tx_hash,
                 error: Box::new(MegaBlockLimitExceededError::TransactionEncodeSizeLimit {
@@ -840,7 +840,7 @@ impl BlockLimiter {
             }
 
             // Check block data availability size limit
-            if da_size + self.block_da_size_used > self.limits.block_da_size_limit {
+            if da_size.saturating_add(self.block_da_size_used) > self.limits.block_da_size_limit {
                 return Err(BlockExecutionError::Validation(BlockValidationError::InvalidTx {
                     hash: tx_hash,
                     error: Box::new(MegaBlockLimitExceededError::DataAvailabilitySizeLimit {
-- 
2.43.0


From 70d87126412b1c94dd9821d4f6ae2f952eb191d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:03 +0000
Subject: [PATCH 06/22] fix: report database and SALT failures instead of
 panicking or ignoring them

A database failure while inspecting a callee panicked, a failure while inspecting a storage slot
was treated as a zero slot, and a failing SALT environment halted with FatalExternalError without
recording an error, which made the handler panic. All of them now surface as EVMError.
---
 crates/mega-evm/src/evm/execution.rs      |  2 +-
 crates/mega-evm/src/evm/instructions.rs   | 73 +++++++++++++----------
 crates/mega-evm/src/limit/mod.rs          |  9 +--
 crates/mega-evm/src/limit/state_growth.rs | 10 ++--
 4 files changed, 53 insertions(+), 41 deletions(-)

diff --git a/crates/mega-evm/src/evm/execution.rs b/crates/mega-evm/src/evm/execution.rs
index 846f339..ea0e82f 100644
--- a/crates/mega-evm/src/evm/execution.rs
+++ b/crates/mega-evm/src/evm/execution.rs
@@ -667,7 +667,7 @@ where
         if is_mini_rex_enabled &&
             additional_limit
                 .borrow_mut()
-                .before_frame_init(&frame_init, self.ctx().journal_mut())
+                .before_frame_init(&frame_init, self.ctx().journal_mut())?
                 .exceeded_limit()
         {
             // if the limit is exceeded, create an error frame result and return it directly
diff --git a/crates/mega-evm/src/evm/instructions.rs b/crates/mega-evm/src/evm/instructions.rs
index 32ffd14..6c310ed 100644
--- a/crates/mega-evm/src/evm/instructions.rs
+++ b/crates/mega-evm/src/evm/instructions.rs
@@ -1,5 +1,9 @@
 use core::cmp::min;
 
+#[cfg(not(feature = "std"))]
+use alloc as std;
+use std::format;
+
 use crate::{
     constants::{self},
     AdditionalLimit, ExternalEnvTypes, HostExt, MegaContext, MegaSpecId,
@@ -7,7 +11,7 @@ use crate::{
 use alloy_evm::Database;
 use alloy_primitives::{keccak256, Address, Keccak256, U256};
 use revm::{
-    context::{ContextTr, JournalTr},
+    context::{ContextError, ContextTr, JournalTr},
     handler::instructions::{EthInstructions, InstructionProvider},
     interpreter::{
         as_usize_or_fail, gas, gas_or_fail,
@@ -240,6 +244,15 @@ macro_rules! run_inner_instruction_or_abort {
     };
 }
 
+/// Macro to report a failure of the database or of an external environment, and halt the execution.
+macro_rules! fatal_external_error {
+    ($context:expr, $error:expr) => {{
+        *$context.host.error() = Err($error);
+        $context.interpreter.halt(InstructionResult::FatalExternalError);
+        return;
+    }};
+}
+
 mod mini_rex {
     use super::*;
 
@@ -694,9 +707,10 @@ pub mod additional_limit_ext {
             return;
         };
         let storage_slot = context.host.journal_mut().inspect_storage(target_address, index);
-        let (original_value, present_value) = storage_slot
-            .map(|slot| (slot.original_value(), slot.present_value()))
-            .unwrap_or_default();
+        let (original_value, present_value) = match storage_slot {
+            Ok(slot) => (slot.original_value(), slot.present_value()),
+            Err(err) => fatal_external_error!(context, ContextError::Db(err)),
+        };
         let Some(new_value) = context.interpreter.stack.inspect::<1>() else {
             context.interpreter.halt(InstructionResult::StackUnderflow);
             return;
@@ -756,6 +770,11 @@ pub mod additional_limit_ext {
 pub mod storage_gas_ext {
     use super::*;
 
+    /// The error reported when the storage gas for `address` cannot be determined.
+    fn storage_gas_error<DBError>(address: Address) -> ContextError<DBError> {
+        ContextError::Custom(format!("Failed to get storage gas for address: {address}"))
+    }
+
     /// Macro to charge storage gas for new account creation before calling the wrapped instruction.
     ///
     /// This macro generates a wrapper function that:
@@ -790,11 +809,10 @@ pub mod storage_gas_ext {
                     return;
                 };
                 let to = to.into_address();
-                let Ok(to_account) = context.host.journal_mut().inspect_account_delegated(to) else {
-                    context.interpreter.halt(InstructionResult::FatalExternalError);
-                    return;
+                let is_empty = match context.host.journal_mut().inspect_account_delegated(to) {
+                    Ok(to_account) => to_account.state_clear_aware_is_empty(spec),
+                    Err(err) => fatal_external_error!(context, ContextError::Db(err)),
                 };
-                let is_empty = to_account.state_clear_aware_is_empty(spec);
                 let has_transfer = if $has_transfer_logic {
                     let Some(value) =context.interpreter.stack.inspect::<2>() else {
                         context.interpreter.halt(InstructionResult::StackUnderflow);
@@ -807,8 +825,7 @@ pub mod storage_gas_ext {
                 // Charge additional storage gas cost for creating a new account
                 if is_empty && has_transfer {
                     let Ok(new_account_storage_gas) = context.host.new_account_storage_gas(to) else {
-                        context.interpreter.halt(InstructionResult::FatalExternalError);
-                        return;
+                        fatal_external_error!(context, storage_gas_error(to));
                     };
                     gas!(context.interpreter, new_account_storage_gas);
                 }
@@ -855,9 +872,9 @@ pub mod storage_gas_ext {
         let creator_address = context.interpreter.input.target_address();
         // Load the creator account from the journal, this must not be cold loaded since the creator
         // must have been warmed when the current frame begins.
-        let Ok(creator) = context.host.journal_mut().load_account(creator_address) else {
-            context.interpreter.halt(InstructionResult::FatalExternalError);
-            return;
+        let creator_nonce = match context.host.journal_mut().load_account(creator_address) {
+            Ok(creator) => creator.data.info.nonce,
+            Err(err) => fatal_external_error!(context, ContextError::Db(err)),
         };
 
         // Calculate the created address
@@ -920,7 +937,7 @@ pub mod storage_gas_ext {
 
             creator_address.create2(salt.to_be_bytes(), initcode_hash)
         } else {
-            creator_address.create(creator.data.info.nonce)
+            creator_address.create(creator_nonce)
         };
 
         // Charge storage gas cost for creating a new contract
@@ -932,8 +949,7 @@ pub mod storage_gas_ext {
             context.host.new_account_storage_gas(created_address)
         };
         let Ok(create_contract_storage_gas) = create_contract_storage_gas else {
-            context.interpreter.halt(InstructionResult::FatalExternalError);
-            return;
+            fatal_external_error!(context, storage_gas_error(created_address));
         };
         gas!(context.interpreter, create_contract_storage_gas);
 
@@ -1031,9 +1047,10 @@ pub mod storage_gas_ext {
         };
         // The storage slot values
         let storage_slot = context.host.journal_mut().inspect_storage(target_address, index);
-        let (original_value, present_value) = storage_slot
-            .map(|slot| (slot.original_value(), slot.present_value()))
-            .unwrap_or_default();
+        let (original_value, present_value) = match storage_slot {
+            Ok(slot) => (slot.original_value(), slot.present_value()),
+            Err(err) => fatal_external_error!(context, ContextError::Db(err)),
+        };
         let Some(new_value) = context.interpreter.stack.inspect::<1>() else {
             context.interpreter.halt(InstructionResult::StackUnderflow);
             return;
@@ -1044,8 +1061,7 @@ pub mod storage_gas_ext {
             let Ok(sstore_set_storage_gas) =
                 context.host.sstore_set_storage_gas(target_address, index)
             else {
-                context.interpreter.halt(InstructionResult::FatalExternalError);
-                return;
+                fatal_external_error!(context, storage_gas_error(target_address));
             };
             gas!(context.interpreter, sstore_set_storage_gas);
         }
@@ -1285,23 +1301,20 @@ impl StackInspectTr for Stack {
 /// loaded from the database and cached in the journal. However, since we explicitly mark the
 /// account or storage slot as cold, this pre-loading before executing the original instruction will
 /// make no difference on gas cost.
-pub trait JournalInspectTr {
-    /// The database error type.
-    type DBError;
-
+pub trait JournalInspectTr: JournalTr {
     /// Inspect the account at the given address without marking it as warm. If the account is
     /// EIP-7702 type, it should inspect the delegated account.
     fn inspect_account_delegated(
         &mut self,
         address: Address,
-    ) -> Result<&mut Account, Self::DBError>;
+    ) -> Result<&mut Account, <Self::Database as revm::Database>::Error>;
 
     /// Inspect the storage at the given address and key without marking it as warm.
     fn inspect_storage(
         &mut self,
         address: Address,
         key: StorageKey,
-    ) -> Result<&EvmStorageSlot, Self::DBError>;
+    ) -> Result<&EvmStorageSlot, <Self::Database as revm::Database>::Error>;
 }
 
 /// Loads the account into the journal, without marking it as warm, together with its code.
@@ -1332,12 +1345,10 @@ fn inspect_account_with_code<DB: revm::Database>(
 }
 
 impl<DB: revm::Database> JournalInspectTr for Journal<DB> {
-    type DBError = <DB as revm::Database>::Error;
-
     fn inspect_account_delegated(
         &mut self,
         address: Address,
-    ) -> Result<&mut Account, Self::DBError> {
+    ) -> Result<&mut Account, <Self::Database as revm::Database>::Error> {
         let account = inspect_account_with_code(self, address)?;
 
         // If the account is a delegated account, inspect the delegated account. As in EIP-7702,
@@ -1353,7 +1364,7 @@ impl<DB: revm::Database> JournalInspectTr for Journal<DB> {
         &mut self,
         address: Address,
         key: StorageKey,
-    ) -> Result<&EvmStorageSlot, Self::DBError> {
+    ) -> Result<&EvmStorageSlot, <Self::Database as revm::Database>::Error> {
         let transaction_id = self.transaction_id;
         // The storage always belongs to the account itself, even if its code is delegated.
         let account = inspect_account_with_code(self, address)?;
diff --git a/crates/mega-evm/src/limit/mod.rs b/crates/mega-evm/src/limit/mod.rs
index 763e42a..f443af1 100644
--- a/crates/mega-evm/src/limit/mod.rs
+++ b/crates/mega-evm/src/limit/mod.rs
@@ -9,6 +9,7 @@ use revm::{
         interpreter::EthInterpreter, interpreter_action::FrameInit, CallOutcome, CreateOutcome,
         FrameInput, Gas, InstructionResult, InterpreterResult, SStoreResult,
     },
+    Database,
 };
 
 use crate::{EvmTxRuntimeLimits, JournalInspectTr, MegaHaltReason, MegaSpecId, MegaTransaction};
@@ -415,11 +416,11 @@ impl AdditionalLimit {
     }
 
     /// Hook called before a new execution frame is initialized.
-    pub(crate) fn before_frame_init<JOURNAL: JournalInspectTr<DBError: core::fmt::Debug>>(
+    pub(crate) fn before_frame_init<JOURNAL: JournalInspectTr>(
         &mut self,
         frame_init: &FrameInit,
         journal: &mut JOURNAL,
-    ) -> AdditionalLimitResult {
+    ) -> Result<AdditionalLimitResult, <JOURNAL::Database as Database>::Error> {
         match &frame_init.frame_input {
             FrameInput::Empty => unreachable!(),
             FrameInput::Call(call_inputs) => {
@@ -433,7 +434,7 @@ impl AdditionalLimit {
                     journal,
                     call_inputs.target_address,
                     has_transfer,
-                );
+                )?;
             }
             FrameInput::Create(_) => {
                 // new frame in data size tracker
@@ -445,7 +446,7 @@ impl AdditionalLimit {
             }
         }
 
-        self.check_limit()
+        Ok(self.check_limit())
     }
 
     /// Hook called when a new execution frame is successfully initialized in `frame_init` and needs
diff --git a/crates/mega-evm/src/limit/state_growth.rs b/crates/mega-evm/src/limit/state_growth.rs
index e3f2967..16eb891 100644
--- a/crates/mega-evm/src/limit/state_growth.rs
+++ b/crates/mega-evm/src/limit/state_growth.rs
@@ -77,7 +77,7 @@ use alloc as std;
 use std::vec::Vec;
 
 use alloy_primitives::{Address, U256};
-use revm::{interpreter::InstructionResult, primitives::hardfork::SpecId};
+use revm::{interpreter::InstructionResult, primitives::hardfork::SpecId, Database};
 
 use crate::JournalInspectTr;
 
@@ -225,22 +225,22 @@ impl StateGrowthTracker {
     ///
     /// This implements EIP-161's account clearing rules. Calls without value transfer
     /// to empty accounts do not create an account and thus don't count toward state growth.
-    pub(crate) fn record_call<JOURNAL: JournalInspectTr<DBError: core::fmt::Debug>>(
+    pub(crate) fn record_call<JOURNAL: JournalInspectTr>(
         &mut self,
         journal: &mut JOURNAL,
         address: Address,
         has_transfer: bool,
-    ) {
+    ) -> Result<(), <JOURNAL::Database as Database>::Error> {
         self.new_frame();
 
-        let to_account =
-            journal.inspect_account_delegated(address).expect("failed to inspect account");
+        let to_account = journal.inspect_account_delegated(address)?;
         let is_empty = to_account.state_clear_aware_is_empty(SpecId::PRAGUE);
 
         if is_empty && has_transfer {
             self.total_growth += 1;
             self.update_current_frame_discardable_size(1);
         }
+        Ok(())
     }
 
     /// Records the new account creation.
-- 
2.43.0


From 2658fdb1a7bb355f3cd442c18443c8b9cb99f664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:00 +0000
Subject: [PATCH 07/22] fix: clear the journal when an inspected transaction is
 rejected

InspectEvm::inspect_tx returned early on error, so with an inspector attached the leftovers of a
rejected transaction (for example a bumped nonce) leaked into the next one.
---
 crates/mega-evm/src/evm/interfaces.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/mega-evm/src/evm/interfaces.rs b/crates/mega-evm/src/evm/interfaces.rs
index 411fb3e..49d5f70 100644
--- a/crates/mega-evm/src/evm/interfaces.rs
+++ b/crates/mega-evm/src/evm/interfaces.rs
@@ -171,6 +171,18 @@ where
         let mut h = MegaHandler::<_, _, EthFrame<EthInterpreter>>::new();
         revm::inspector::InspectorHandler::inspect_run(&mut h, self)
     }
+
+    fn inspect_tx(
+        &mut self,
+        tx: Self::Tx,
+    ) -> Result<ExecResultAndState<Self::ExecutionResult, Self::State>, Self::Error> {
+        let output_or_error = self.inspect_one_tx(tx);
+        // As in `ExecuteEvm::transact`, the journal must be cleared even if the transaction is
+        // rejected, otherwise its leftovers are visible to the next transaction.
+        let state = revm::ExecuteEvm::finalize(self);
+        let output = output_or_error?;
+        Ok(ExecResultAndState::new(output, state))
+    }
 }
 
 impl<DB, INSP, ExtEnvs: ExternalEnvTypes> revm::InspectCommitEvm for MegaEvm<DB, INSP, ExtEnvs>
-- 
2.43.0


From 65318dca0cbd3db35807f27e2971bcc2613ffae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:07 +0000
Subject: [PATCH 08/22] fix: keep keyless deployment changes to accounts the
 outer transaction already loaded

Accounts already present in the outer journal (for example through the access
list) were merged without the touched flag, so that the signer's nonce and
balance change or the deployed contract were dropped on commit.
---
 crates/mega-evm/src/evm/state.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/mega-evm/src/evm/state.rs b/crates/mega-evm/src/evm/state.rs
index 8a6d271..c8bad3c 100644
--- a/crates/mega-evm/src/evm/state.rs
+++ b/crates/mega-evm/src/evm/state.rs
@@ -135,6 +135,9 @@ fn merge_account_state(this: &mut Account, other: &Account, merge_status: bool)
     merge_evm_storage(&mut this.storage, &other.storage);
     if merge_status {
         merge_account_status(&mut this.status, other.status);
+    } else if other.is_touched() {
+        // changes to an account that is not touched would be dropped when the state is committed
+        this.mark_touch();
     }
 }
 
-- 
2.43.0


From 0b442af1ce6d7a94253e2b49b1549e1cbcdc0b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:07 +0000
Subject: [PATCH 09/22] fix: do not run a keyless deployment once a resource
 limit is exceeded

The outer transaction halts in that case, but the sandbox changes are not
journaled and outlived it.
---
 crates/mega-evm/src/evm/execution.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/mega-evm/src/evm/execution.rs b/crates/mega-evm/src/evm/execution.rs
index ea0e82f..f758be1 100644
--- a/crates/mega-evm/src/evm/execution.rs
+++ b/crates/mega-evm/src/evm/execution.rs
@@ -644,7 +644,12 @@ where
             // Only intercept if:
             // 1. Sandbox is not disabled (prevents infinite recursion)
             // 2. This is a top-level call (depth == 0)
-            if !self.ctx().is_sandbox_disabled() && frame_init.depth == 0 {
+            // 3. No limit is exceeded yet: otherwise the transaction halts, and the sandbox changes
+            //    (which are not journaled) would outlive it
+            if !self.ctx().is_sandbox_disabled() &&
+                frame_init.depth == 0 &&
+                additional_limit.borrow_mut().check_limit().within_limit()
+            {
                 if let FrameInput::Call(call_inputs) = &frame_init.frame_input {
                     if call_inputs.target_address == KEYLESS_DEPLOY_ADDRESS {
                         let input_bytes = call_inputs.input.bytes(self.ctx());
-- 
2.43.0


From 28ef1c47e47951f48e89db1bffc4571438cd97e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:53 +0000
Subject: [PATCH 10/22] fix: report database failures during a keyless
 deployment as errors

A failing database read inside the keyless deploy sandbox was turned into a revert with
InternalError, so a transient database failure produced a committed result that differs from
the one of a healthy node. It now surfaces as EVMError like everywhere else.
---
 crates/mega-evm/src/sandbox/execution.rs | 51 +++++++++++++++++-------
 1 file changed, 36 insertions(+), 15 deletions(-)

diff --git a/crates/mega-evm/src/sandbox/execution.rs b/crates/mega-evm/src/sandbox/execution.rs
index d9bf1dd..9d4ab5d 100644
--- a/crates/mega-evm/src/sandbox/execution.rs
+++ b/crates/mega-evm/src/sandbox/execution.rs
@@ -29,8 +29,8 @@ use alloy_sol_types::SolCall;
 use mega_system_contracts::keyless_deploy::IKeylessDeploy;
 use revm::{
     context::{
-        result::{ExecutionResult, ResultAndState},
-        ContextTr, TxEnv,
+        result::{EVMError, ExecutionResult, ResultAndState},
+        ContextError, ContextTr, TxEnv,
     },
     context_interface::Transaction,
     handler::FrameResult,
@@ -233,7 +233,7 @@ pub fn execute_keyless_deploy_call<DB: alloy_evm::Database, ExtEnvs: ExternalEnv
             .journal_mut()
             .database
             .basic(deploy_address)
-            .map_err(|e| KeylessDeployError::InternalError(e.to_string()));
+            .map_err(|e| report_database_error(ctx, e));
         match deploy_account {
             Ok(Some(info)) if info.code_hash != KECCAK_EMPTY => {
                 return make_error!(KeylessDeployError::ContractAlreadyExists);
@@ -320,10 +320,13 @@ pub fn execute_keyless_deploy_sandbox<DB: alloy_evm::Database, ExtEnvs: External
         .with_nonce_override(deploy_signer);
 
     // Check signer balance
-    let signer_account = sandbox_db
-        .basic(deploy_signer)
-        .map_err(|e| KeylessDeployError::InternalError(e.to_string()))?
-        .unwrap_or_default();
+    let signer_account = match sandbox_db.basic(deploy_signer) {
+        Ok(account) => account.unwrap_or_default(),
+        Err(e) => {
+            drop(sandbox_db);
+            return Err(report_database_error(ctx, e));
+        }
+    };
 
     // Ensure signer has enough balance to cover gas cost and value
     let gas_cost = U256::from(gas_limit) * U256::from(gas_price);
@@ -332,6 +335,8 @@ pub fn execute_keyless_deploy_sandbox<DB: alloy_evm::Database, ExtEnvs: External
         return Err(KeylessDeployError::InsufficientBalance);
     }
 
+    let mut database_error = None;
+
     // Execute sandbox - using type-erased SandboxDb prevents infinite type instantiation
     let sandbox_result: Result<SandboxOutcome, KeylessDeployError> = {
         // Create sandbox context with the type-erased database.
@@ -381,11 +386,20 @@ pub fn execute_keyless_deploy_sandbox<DB: alloy_evm::Database, ExtEnvs: External
                     error: KeylessDeployError::ExecutionHalted { gas_used, reason },
                 }),
             },
-            Err(e) => Err(KeylessDeployError::InternalError(e.to_string())),
+            Err(e) => {
+                let error = KeylessDeployError::InternalError(e.to_string());
+                if let EVMError::Database(e) = e {
+                    database_error = Some(e);
+                }
+                Err(error)
+            }
         }
     };
 
-    sandbox_result
+    match database_error {
+        Some(e) => Err(report_database_error(ctx, e)),
+        None => sandbox_result,
+    }
 }
 
 /// Outcome of sandbox execution, including state for merging on failure.
@@ -442,10 +456,17 @@ fn get_account_nonce<DB: alloy_evm::Database, ExtEnvs: ExternalEnvTypes>(
     if let Some(acc) = journal.state.get(&address) {
         return Ok(acc.info.nonce);
     }
-    Ok(journal
-        .database
-        .basic(address)
-        .map_err(|e| KeylessDeployError::InternalError(e.to_string()))?
-        .map(|info| info.nonce)
-        .unwrap_or(0))
+    let account = journal.database.basic(address).map_err(|e| report_database_error(ctx, e))?;
+    Ok(account.map(|info| info.nonce).unwrap_or(0))
+}
+
+/// Records a database failure in the parent context, so that the transaction fails with an error
+/// instead of committing a result that depends on the failure.
+fn report_database_error<DB: alloy_evm::Database, ExtEnvs: ExternalEnvTypes>(
+    ctx: &mut MegaContext<DB, ExtEnvs>,
+    error: impl ToString,
+) -> KeylessDeployError {
+    let message = error.to_string();
+    *ctx.error() = Err(ContextError::Custom(message.clone()));
+    KeylessDeployError::InternalError(message)
 }
-- 
2.43.0


From 42186c45e9d07e92a7953f602138878084bae6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:46 +0000
Subject: [PATCH 11/22] fix: reset the per-block SALT state when the block is
 set on an existing EVM

ContextSetters::set_block (used by ExecuteEvm::set_block and transact_with_block style helpers)
replaced the block without the reset that with_block does, so the next block was priced with
the bucket capacities cached for the previous one and reported its buckets as accessed.
---
 crates/mega-evm/src/evm/context.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/mega-evm/src/evm/context.rs b/crates/mega-evm/src/evm/context.rs
index 6df9ccb..3aba185 100644
--- a/crates/mega-evm/src/evm/context.rs
+++ b/crates/mega-evm/src/evm/context.rs
@@ -556,9 +556,14 @@ impl<DB: Database, ExtEnvs: ExternalEnvTypes> ContextTr for MegaContext<DB, ExtE
 /// This implementation provides methods to update the context state, with
 /// special handling for transaction updates to reset internal state.
 impl<DB: Database, ExtEnvs: ExternalEnvTypes> ContextSetters for MegaContext<DB, ExtEnvs> {
+    fn set_block(&mut self, block: Self::Block) {
+        self.inner.set_block(block);
+        // Reset internal state for new block
+        self.on_new_block();
+    }
+
     delegate! {
         to self.inner {
-            fn set_block(&mut self, block: Self::Block);
             fn set_tx(&mut self, tx: Self::Tx);
         }
     }
-- 
2.43.0


From a44c420bd56450e120b70f5936dc042efce62dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:25 +0000
Subject: [PATCH 12/22] fix: do not commit existing accounts as created when
 deploying system contracts

---
 crates/mega-evm/src/block/executor.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/crates/mega-evm/src/block/executor.rs b/crates/mega-evm/src/block/executor.rs
index 3cbecd3..3857e83 100644
--- a/crates/mega-evm/src/block/executor.rs
+++ b/crates/mega-evm/src/block/executor.rs
@@ -246,6 +246,22 @@ where
                 .push(MegaSystemCallOutcome { source: StateChangeSource::Transaction(0), state });
         }
 
+        // The deployments above mark the accounts they touch as created. For an account that already
+        // exists this would discard its storage when committed, and the bundle state rejects such a
+        // transition if the account has changed in an earlier block.
+        for (address, account) in outcomes.iter_mut().flat_map(|outcome| outcome.state.iter_mut()) {
+            if account.is_created() {
+                let cached = self
+                    .evm
+                    .db_mut()
+                    .load_cache_account(*address)
+                    .map_err(BlockExecutionError::other)?;
+                if cached.account_info().is_some_and(|info| !info.is_empty()) {
+                    account.unmark_created();
+                }
+            }
+        }
+
         Ok(outcomes)
     }
 
-- 
2.43.0


From 16b89c0cf3cf79ef3a6af17ad4087fe1ac77eacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:08 +0000
Subject: [PATCH 13/22] fix: destroy prefunded accounts that a keyless
 deployment created and selfdestructed

---
 crates/mega-evm/src/sandbox/execution.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/mega-evm/src/sandbox/execution.rs b/crates/mega-evm/src/sandbox/execution.rs
index 9d4ab5d..d91d6ad 100644
--- a/crates/mega-evm/src/sandbox/execution.rs
+++ b/crates/mega-evm/src/sandbox/execution.rs
@@ -445,6 +445,17 @@ fn apply_sandbox_state<DB: alloy_evm::Database, ExtEnvs: ExternalEnvTypes>(
     // Merge the sandbox state into the parent journal
     merge_evm_state_optional_status(&mut journal.state, &sandbox_state, false);
 
+    // An account created and selfdestructed in the sandbox is merged as an empty touched account. If
+    // it existed before (e.g., its address was funded in advance), committing it that way is not a
+    // valid state transition, so it has to be marked as selfdestructed.
+    for (address, account) in &sandbox_state {
+        if account.is_selfdestructed() && !account.is_loaded_as_not_existing() {
+            if let Some(merged) = journal.state.get_mut(address) {
+                merged.mark_selfdestruct();
+            }
+        }
+    }
+
     Ok(())
 }
 
-- 
2.43.0


From bdae2fe913c9f6b96b03a3ac785da81dd33e722c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:33 +0000
Subject: [PATCH 14/22] fix: saturate storage gas for extreme bucket capacities
 and block numbers

---
 crates/mega-evm/src/evm/context.rs   |  6 +++---
 crates/mega-evm/src/evm/execution.rs |  4 +++-
 crates/mega-evm/src/external/gas.rs  | 14 +++++++-------
 3 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/crates/mega-evm/src/evm/context.rs b/crates/mega-evm/src/evm/context.rs
index 3aba185..7f4bdef 100644
--- a/crates/mega-evm/src/evm/context.rs
+++ b/crates/mega-evm/src/evm/context.rs
@@ -108,7 +108,7 @@ impl<DB: Database> MegaContext<DB, EmptyExternalEnv> {
             dynamic_storage_gas_cost: Rc::new(RefCell::new(DynamicGasCost::new(
                 spec,
                 EmptyExternalEnv,
-                inner.block.number.to::<u64>().saturating_sub(1),
+                inner.block.number.saturating_to::<u64>().saturating_sub(1),
             ))),
             oracle_env: Rc::new(RefCell::new(EmptyExternalEnv)),
             volatile_data_tracker: Rc::new(RefCell::new(VolatileDataAccessTracker::new(
@@ -168,7 +168,7 @@ impl<DB: Database, ExtEnvTypes: ExternalEnvTypes> MegaContext<DB, ExtEnvTypes> {
             dynamic_storage_gas_cost: Rc::new(RefCell::new(DynamicGasCost::new(
                 spec,
                 external_envs.salt_env,
-                inner.block.number.to::<u64>() - 1,
+                inner.block.number.saturating_to::<u64>().saturating_sub(1),
             ))),
             oracle_env: Rc::new(RefCell::new(external_envs.oracle_env)),
             volatile_data_tracker: Rc::new(RefCell::new(VolatileDataAccessTracker::new(
@@ -288,7 +288,7 @@ impl<DB: Database, ExtEnvTypes: ExternalEnvTypes> MegaContext<DB, ExtEnvTypes> {
         self,
         external_envs: ExternalEnvs<NewExtEnvTypes>,
     ) -> MegaContext<DB, NewExtEnvTypes> {
-        let parent_block_number = self.inner.block.number.to::<u64>().saturating_sub(1);
+        let parent_block_number = self.inner.block.number.saturating_to::<u64>().saturating_sub(1);
         let spec = self.spec;
         MegaContext {
             inner: self.inner,
diff --git a/crates/mega-evm/src/evm/execution.rs b/crates/mega-evm/src/evm/execution.rs
index f758be1..4ef8949 100644
--- a/crates/mega-evm/src/evm/execution.rs
+++ b/crates/mega-evm/src/evm/execution.rs
@@ -363,11 +363,13 @@ where
                     (address, storage_gas)
                 }
             };
-            initial_and_floor_gas.initial_gas += storage_gas.map_err(|_| {
+            let storage_gas = storage_gas.map_err(|_| {
                 let err_str =
                     format!("Failed to get storage gas for callee address: {callee_address}",);
                 Self::Error::from_string(err_str)
             })?;
+            initial_and_floor_gas.initial_gas =
+                initial_and_floor_gas.initial_gas.saturating_add(storage_gas);
         }
 
         Ok(initial_and_floor_gas)
diff --git a/crates/mega-evm/src/external/gas.rs b/crates/mega-evm/src/external/gas.rs
index 8bfadfc..1786e37 100644
--- a/crates/mega-evm/src/external/gas.rs
+++ b/crates/mega-evm/src/external/gas.rs
@@ -53,9 +53,9 @@ impl<SaltEnvImpl: SaltEnv> DynamicGasCost<SaltEnvImpl> {
         let multiplier = self.load_bucket_cost_multiplier(bucket_id)?;
 
         let gas = if self.spec.is_enabled(MegaSpecId::REX) {
-            constants::rex::SSTORE_SET_STORAGE_GAS_BASE * (multiplier - 1)
+            constants::rex::SSTORE_SET_STORAGE_GAS_BASE.saturating_mul(multiplier.saturating_sub(1))
         } else {
-            constants::mini_rex::SSTORE_SET_STORAGE_GAS * multiplier
+            constants::mini_rex::SSTORE_SET_STORAGE_GAS.saturating_mul(multiplier)
         };
 
         Ok(gas)
@@ -69,9 +69,9 @@ impl<SaltEnvImpl: SaltEnv> DynamicGasCost<SaltEnvImpl> {
         let multiplier = self.load_bucket_cost_multiplier(bucket_id)?;
 
         let gas = if self.spec.is_enabled(MegaSpecId::REX) {
-            constants::rex::NEW_ACCOUNT_STORAGE_GAS_BASE * (multiplier - 1)
+            constants::rex::NEW_ACCOUNT_STORAGE_GAS_BASE.saturating_mul(multiplier.saturating_sub(1))
         } else {
-            constants::mini_rex::NEW_ACCOUNT_STORAGE_GAS * multiplier
+            constants::mini_rex::NEW_ACCOUNT_STORAGE_GAS.saturating_mul(multiplier)
         };
 
         Ok(gas)
@@ -85,9 +85,9 @@ impl<SaltEnvImpl: SaltEnv> DynamicGasCost<SaltEnvImpl> {
         let multiplier = self.load_bucket_cost_multiplier(bucket_id)?;
 
         let gas = if self.spec.is_enabled(MegaSpecId::REX) {
-            constants::rex::CONTRACT_CREATION_STORAGE_GAS_BASE * (multiplier - 1)
+            constants::rex::CONTRACT_CREATION_STORAGE_GAS_BASE.saturating_mul(multiplier.saturating_sub(1))
         } else {
-            constants::mini_rex::NEW_ACCOUNT_STORAGE_GAS * multiplier
+            constants::mini_rex::NEW_ACCOUNT_STORAGE_GAS.saturating_mul(multiplier)
         };
 
         Ok(gas)
@@ -112,6 +112,6 @@ impl<SaltEnvImpl: SaltEnv> DynamicGasCost<SaltEnvImpl> {
 
 impl<SaltEnvImpl: SaltEnv> DynamicGasCost<SaltEnvImpl> {
     pub(crate) fn on_new_block(&mut self, block: &BlockEnv) {
-        self.reset(block.number.to::<u64>().saturating_sub(1));
+        self.reset(block.number.saturating_to::<u64>().saturating_sub(1));
     }
 }
-- 
2.43.0


From 84b46f75fda16b8b917ffdcc27d56cad41526b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:05 +0000
Subject: [PATCH 15/22] fix: apply the spec set by with_cfg to storage gas and
 default limits

---
 crates/mega-evm/src/evm/context.rs  | 10 ++++++++++
 crates/mega-evm/src/external/gas.rs |  5 +++++
 2 files changed, 15 insertions(+)

diff --git a/crates/mega-evm/src/evm/context.rs b/crates/mega-evm/src/evm/context.rs
index 7f4bdef..27cdb80 100644
--- a/crates/mega-evm/src/evm/context.rs
+++ b/crates/mega-evm/src/evm/context.rs
@@ -255,6 +255,7 @@ impl<DB: Database, ExtEnvTypes: ExternalEnvTypes> MegaContext<DB, ExtEnvTypes> {
     ///
     /// Returns `self` for method chaining.
     pub fn with_cfg(mut self, cfg: CfgEnv<MegaSpecId>) -> Self {
+        let old_spec = self.spec;
         self.spec = cfg.spec;
         self.inner = self.inner.with_cfg(cfg.into_op_cfg());
         if self.spec.is_enabled(MegaSpecId::MINI_REX) {
@@ -267,6 +268,15 @@ impl<DB: Database, ExtEnvTypes: ExternalEnvTypes> MegaContext<DB, ExtEnvTypes> {
                     Some(constants::mini_rex::MAX_INITCODE_SIZE);
             }
         }
+        // The storage gas schedule, and the runtime limits unless customized, follow the spec.
+        if self.spec != old_spec {
+            self.dynamic_storage_gas_cost.borrow_mut().set_spec(self.spec);
+            let limits = self.additional_limit.borrow().limits;
+            if limits == EvmTxRuntimeLimits::from_spec(old_spec) {
+                let limits = EvmTxRuntimeLimits::from_spec(self.spec);
+                self = self.with_tx_runtime_limits(limits);
+            }
+        }
         self
     }
 
diff --git a/crates/mega-evm/src/external/gas.rs b/crates/mega-evm/src/external/gas.rs
index 1786e37..acb3647 100644
--- a/crates/mega-evm/src/external/gas.rs
+++ b/crates/mega-evm/src/external/gas.rs
@@ -36,6 +36,11 @@ impl<SaltEnvImpl: SaltEnv> DynamicGasCost<SaltEnvImpl> {
         self.parent_block = parent_block;
     }
 
+    /// Sets the spec id that selects the gas schedule.
+    pub(crate) fn set_spec(&mut self, spec: MegaSpecId) {
+        self.spec = spec;
+    }
+
     /// Gets the bucket IDs used during transaction execution.
     pub fn get_bucket_ids(&self) -> Vec<BucketId> {
         self.bucket_cost_mulitipers.keys().copied().collect()
-- 
2.43.0


From 46b263af707b74c3ec4e2ae2d5e493f75aff9e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:57 +0000
Subject: [PATCH 16/22] fix: reject transactions that do not fit a block
 without a gas limit

---
 crates/mega-evm/src/block/limit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mega-evm/src/block/limit.rs b/crates/mega-evm/src/block/limit.rs
index 105ce37..5775fc3 100644
--- a/crates/mega-evm/src/block/limit.rs
+++ b/crates/mega-evm/src/block/limit.rs
@@ -794,7 +794,7 @@ impl BlockLimiter {
         }
 
         // Check block gas limit
-        if self.block_gas_used.saturating_add(gas_limit) > self.limits.block_gas_limit {
+        if gas_limit > self.limits.block_gas_limit.saturating_sub(self.block_gas_used) {
             return Err(BlockExecutionError::Validation(
                 BlockValidationError::TransactionGasLimitMoreThanAvailableBlockGas {
                     transaction_gas_limit: gas_limit,
-- 
2.43.0


From 2957550119899c7f7cda962b3653ac3de468a81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:56 +0000
Subject: [PATCH 17/22] fix: increase the sender's nonce when a creation
 transaction halts before its first frame

---
 crates/mega-evm/src/evm/execution.rs | 29 +++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/crates/mega-evm/src/evm/execution.rs b/crates/mega-evm/src/evm/execution.rs
index 4ef8949..14e1d0c 100644
--- a/crates/mega-evm/src/evm/execution.rs
+++ b/crates/mega-evm/src/evm/execution.rs
@@ -13,7 +13,7 @@ use op_revm::{
 use revm::{
     context::{
         result::{ExecutionResult, FromStringError, InvalidTransaction},
-        ContextTr, FrameStack, Transaction,
+        ContextTr, FrameStack, JournalTr, Transaction,
     },
     handler::{
         evm::{ContextDbError, FrameInitResult},
@@ -68,7 +68,7 @@ where
     DB: Database,
     ExtEnvs: ExternalEnvTypes,
     EVM: EvmTr<Context = MegaContext<DB, ExtEnvs>>,
-    ERROR: FromStringError,
+    ERROR: FromStringError + From<ContextDbError<MegaContext<DB, ExtEnvs>>>,
 {
     /// The hook to be called in `revm::handler::Handler::run_without_catch_error` and
     /// `revm::handler::InspectorHandler::inspect_run_without_catch_error`
@@ -121,13 +121,33 @@ where
         let tx = ctx.tx();
         if tx.gas_limit() < init_and_floor_gas.initial_gas {
             // If not sufficient gas, we halt with out of gas
-            let oog_frame_result = gen_oog_frame_result(tx.kind(), tx.gas_limit());
+            let kind = tx.kind();
+            let oog_frame_result = gen_oog_frame_result(kind, tx.gas_limit());
+            if kind.is_create() {
+                increase_creator_nonce(ctx)?;
+            }
             return Ok(Some(oog_frame_result));
         }
         Ok(None)
     }
 }
 
+/// Increases the nonce of the sender of a creation transaction that halts before its first frame
+/// is initialized. The nonce of such a sender is otherwise only increased when the create frame is
+/// made, so that the halted transaction could be executed again.
+fn increase_creator_nonce<DB: Database, ExtEnvs: ExternalEnvTypes>(
+    ctx: &mut MegaContext<DB, ExtEnvs>,
+) -> Result<(), ContextDbError<MegaContext<DB, ExtEnvs>>> {
+    let caller = ctx.tx().caller();
+    let journal = ctx.journal_mut();
+    let account = journal.load_account(caller)?.data;
+    if let Some(nonce) = account.info.nonce.checked_add(1) {
+        account.info.nonce = nonce;
+        journal.nonce_bump_journal_entry(caller);
+    }
+    Ok(())
+}
+
 impl<DB: Database, INSP, ExtEnvs: ExternalEnvTypes> MegaEvm<DB, INSP, ExtEnvs> {
     /// This is the hook to be called in the beginning of the `frame_run` and `inspect_frame_run`
     /// functions. This function checks if the additional limit is already exceeded, if so, we
@@ -678,6 +698,9 @@ where
                 .exceeded_limit()
         {
             // if the limit is exceeded, create an error frame result and return it directly
+            if frame_init.depth == 0 && matches!(frame_init.frame_input, FrameInput::Create(_)) {
+                increase_creator_nonce(self.ctx())?;
+            }
             let (gas_limit, return_memory_offset) = match &frame_init.frame_input {
                 FrameInput::Create(inputs) => (inputs.gas_limit, None),
                 FrameInput::Call(inputs) => {
-- 
2.43.0


From b48049f317e0617118dfc68c5f1cb7ac69734aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:41 +0000
Subject: [PATCH 18/22] fix: see contracts deployed earlier in the journal when
 checking a keyless deployment

---
 crates/mega-evm/src/sandbox/execution.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/crates/mega-evm/src/sandbox/execution.rs b/crates/mega-evm/src/sandbox/execution.rs
index d91d6ad..a1f9dcf 100644
--- a/crates/mega-evm/src/sandbox/execution.rs
+++ b/crates/mega-evm/src/sandbox/execution.rs
@@ -229,11 +229,15 @@ pub fn execute_keyless_deploy_call<DB: alloy_evm::Database, ExtEnvs: ExternalEnv
 
     // Step 7: Check deploy address doesn't already have code
     {
-        let deploy_account = ctx
-            .journal_mut()
-            .database
-            .basic(deploy_address)
-            .map_err(|e| report_database_error(ctx, e));
+        // The contract may have been deployed in this journal and not be in the database yet.
+        let journal = ctx.journal_mut();
+        let deploy_account = match journal.inner.state.get(&deploy_address) {
+            Some(account) => Ok(Some(account.info.clone())),
+            None => journal
+                .database
+                .basic(deploy_address)
+                .map_err(|e| report_database_error(ctx, e)),
+        };
         match deploy_account {
             Ok(Some(info)) if info.code_hash != KECCAK_EMPTY => {
                 return make_error!(KeylessDeployError::ContractAlreadyExists);
-- 
2.43.0


From e81f0630f891e29c5c4df62ed68347549af8304b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:29 +0000
Subject: [PATCH 19/22] fix: keep code that is not in the database yet when
 merging EVM states

---
 crates/mega-evm/src/evm/state.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/mega-evm/src/evm/state.rs b/crates/mega-evm/src/evm/state.rs
index c8bad3c..798b373 100644
--- a/crates/mega-evm/src/evm/state.rs
+++ b/crates/mega-evm/src/evm/state.rs
@@ -131,7 +131,11 @@ pub fn merge_evm_state_optional_status(this: &mut EvmState, other: &EvmState, me
 /// The other account to merge is not flagged as `SelfDestructed`. See more details in
 /// the [`merge_evm_state`] function.
 fn merge_account_state(this: &mut Account, other: &Account, merge_status: bool) {
-    this.info = other.info.clone();
+    let old_info = core::mem::replace(&mut this.info, other.info.clone());
+    if this.info.code.is_none() && this.info.code_hash == old_info.code_hash {
+        // `other` did not load the code, which is not in the database yet if `this` has set it
+        this.info.code = old_info.code;
+    }
     merge_evm_storage(&mut this.storage, &other.storage);
     if merge_status {
         merge_account_status(&mut this.status, other.status);
-- 
2.43.0


From af1e929d2fa70b9c6418e6c46e909552d1475660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:24 +0000
Subject: [PATCH 20/22] fix: mark accounts destroyed by a keyless deployment as
 created, as merging expects

---
 crates/mega-evm/src/sandbox/execution.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/mega-evm/src/sandbox/execution.rs b/crates/mega-evm/src/sandbox/execution.rs
index a1f9dcf..9e4d6c2 100644
--- a/crates/mega-evm/src/sandbox/execution.rs
+++ b/crates/mega-evm/src/sandbox/execution.rs
@@ -455,6 +455,7 @@ fn apply_sandbox_state<DB: alloy_evm::Database, ExtEnvs: ExternalEnvTypes>(
     for (address, account) in &sandbox_state {
         if account.is_selfdestructed() && !account.is_loaded_as_not_existing() {
             if let Some(merged) = journal.state.get_mut(address) {
+                merged.mark_created();
                 merged.mark_selfdestruct();
             }
         }
-- 
2.43.0


From 60861cd55649590c36f321bc9d0aab1dc1ec2d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:26 +0000
Subject: [PATCH 21/22] fix: take accounts created earlier in the journal as
 existing in a transaction's storage gas

---
 crates/mega-evm/src/evm/execution.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/mega-evm/src/evm/execution.rs b/crates/mega-evm/src/evm/execution.rs
index 14e1d0c..fd66c33 100644
--- a/crates/mega-evm/src/evm/execution.rs
+++ b/crates/mega-evm/src/evm/execution.rs
@@ -376,8 +376,14 @@ where
                     (created_address, storage_gas)
                 }
                 TxKind::Call(address) => {
+                    // An earlier transaction of the same journal may have created the account.
                     let new_account = !ctx.tx().value().is_zero() &&
-                        ctx.db_mut().basic(address)?.is_none_or(|acc| acc.is_empty());
+                        match ctx.journal().inner.state.get(&address) {
+                            Some(acc) => acc.is_empty(),
+                            None => {
+                                ctx.db_mut().basic(address)?.is_none_or(|acc| acc.is_empty())
+                            }
+                        };
                     let storage_gas =
                         if new_account { ctx.new_account_storage_gas(address) } else { Ok(0) };
                     (address, storage_gas)
-- 
2.43.0


From 3c30d3ae16487344c4c9cef534f1ffe4060db21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:19 +0000
Subject: [PATCH 22/22] fix: saturate the available block gas in the error of
 the block limiter

When more gas than the block gas limit has been counted, rejecting the next
transaction underflowed while building the error.
---
 crates/mega-evm/src/block/limit.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/mega-evm/src/block/limit.rs b/crates/mega-evm/src/block/limit.rs
index 5775fc3..5b1b0a5 100644
--- a/crates/mega-evm/src/block/limit.rs
+++ b/crates/mega-evm/src/block/limit.rs
@@ -798,7 +798,10 @@ impl BlockLimiter {
             return Err(BlockExecutionError::Validation(
                 BlockValidationError::TransactionGasLimitMoreThanAvailableBlockGas {
                     transaction_gas_limit: gas_limit,
-                    block_available_gas: self.limits.block_gas_limit - self.block_gas_used,
+                    block_available_gas: self
+                        .limits
+                        .block_gas_limit
+                        .saturating_sub(self.block_gas_used),
                 },
             ));
         }
-- 
2.43.0

