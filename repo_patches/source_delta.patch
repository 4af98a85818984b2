From d3cf4a056b02c5c98560f7a345f8748c00bab239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:40 +0000
Subject: [PATCH 01/11] fix: honour writable/signer flags of remaining accounts
 in CPI builders

The CPI builders document and push remaining accounts as (account, is_writable,
is_signer), but the invocation read the two flags in the opposite order: a writable
remaining account was passed as a read-only signer and vice versa.
---
 rust-client/src/generated/instructions/initialize.rs | 4 ++--
 rust-client/src/generated/instructions/set.rs        | 4 ++--
 rust-client/src/generated/instructions/stake.rs      | 4 ++--
 rust-client/src/generated/instructions/unstake.rs    | 4 ++--
 rust-client/src/generated/instructions/withdraw.rs   | 4 ++--
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/rust-client/src/generated/instructions/initialize.rs b/rust-client/src/generated/instructions/initialize.rs
index 526627d..e12c93f 100644
--- a/rust-client/src/generated/instructions/initialize.rs
+++ b/rust-client/src/generated/instructions/initialize.rs
@@ -392,8 +392,8 @@ impl<'a, 'b> InitializeCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let mut data = borsh::to_vec(&InitializeInstructionData::new()).unwrap();
diff --git a/rust-client/src/generated/instructions/set.rs b/rust-client/src/generated/instructions/set.rs
index 1969d7c..e92ccc3 100644
--- a/rust-client/src/generated/instructions/set.rs
+++ b/rust-client/src/generated/instructions/set.rs
@@ -213,8 +213,8 @@ impl<'a, 'b> SetCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let mut data = borsh::to_vec(&SetInstructionData::new()).unwrap();
diff --git a/rust-client/src/generated/instructions/stake.rs b/rust-client/src/generated/instructions/stake.rs
index 6e983d7..887a2fa 100644
--- a/rust-client/src/generated/instructions/stake.rs
+++ b/rust-client/src/generated/instructions/stake.rs
@@ -354,8 +354,8 @@ impl<'a, 'b> StakeCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let mut data = borsh::to_vec(&StakeInstructionData::new()).unwrap();
diff --git a/rust-client/src/generated/instructions/unstake.rs b/rust-client/src/generated/instructions/unstake.rs
index 4b8574f..f9b8456 100644
--- a/rust-client/src/generated/instructions/unstake.rs
+++ b/rust-client/src/generated/instructions/unstake.rs
@@ -400,8 +400,8 @@ impl<'a, 'b> UnstakeCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let mut data = borsh::to_vec(&UnstakeInstructionData::new()).unwrap();
diff --git a/rust-client/src/generated/instructions/withdraw.rs b/rust-client/src/generated/instructions/withdraw.rs
index 257ac50..9194fe2 100644
--- a/rust-client/src/generated/instructions/withdraw.rs
+++ b/rust-client/src/generated/instructions/withdraw.rs
@@ -364,8 +364,8 @@ impl<'a, 'b> WithdrawCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let mut data = borsh::to_vec(&WithdrawInstructionData::new()).unwrap();
-- 
2.43.0


From 8c13a938c3bd03efc52b41013ea1110be31d35db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:23 +0000
Subject: [PATCH 02/11] fix: ignore accounts not owned by the program when
 fetching pending withdrawals

---
 rust-client/src/utils/mod.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/rust-client/src/utils/mod.rs b/rust-client/src/utils/mod.rs
index 47bcbba..a631c33 100644
--- a/rust-client/src/utils/mod.rs
+++ b/rust-client/src/utils/mod.rs
@@ -1,5 +1,5 @@
-use crate::generated::accounts::{fetch_all_maybe_pending_withdraw, fetch_state};
-use crate::generated::shared;
+use crate::generated::accounts::fetch_state;
+use crate::generated::programs::XORCA_STAKING_PROGRAM_ID;
 use crate::{
     find_orca_vault_address, find_pending_withdraw_pda, find_state_address, PendingWithdraw, State,
 };
@@ -90,16 +90,18 @@ pub fn fetch_pending_withdraws_for_staker(
     }
 
     // Fetch all accounts (including non-existent ones)
-    let maybe_accounts = fetch_all_maybe_pending_withdraw(rpc, &addresses)?;
+    let accounts = rpc
+        .get_multiple_accounts(&addresses)
+        .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e.to_string()))?;
 
-    // Filter out non-existent accounts and extract the data
-    let pending_withdraws: Vec<PendingWithdraw> = maybe_accounts
+    // Filter out addresses that hold no pending withdraw account. Anyone can send lamports to
+    // such an address, which makes it show up as an empty account that the program does not own.
+    let pending_withdraws = accounts
         .into_iter()
-        .filter_map(|maybe_account| match maybe_account {
-            shared::MaybeAccount::Exists(decoded) => Some(decoded.data),
-            shared::MaybeAccount::NotFound(_) => None,
-        })
-        .collect();
+        .flatten()
+        .filter(|account| account.owner == XORCA_STAKING_PROGRAM_ID)
+        .map(|account| PendingWithdraw::from_bytes(&account.data))
+        .collect::<Result<Vec<_>, _>>()?;
 
     Ok(pending_withdraws)
 }
-- 
2.43.0


From 8cd39779db6d37c0d3b8240280b4953b002900b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:49 +0000
Subject: [PATCH 03/11] fix: scripts must not truncate or round integer
 arguments

parseInt turned "12.5", "1e6" or "10abc" into another amount, cooldown or
withdraw index and lost precision above 2^53. Only plain digits are taken now
and kept exact.
---
 ts-scripts/constants.ts              | 15 +++++++++++++++
 ts-scripts/initialize.ts             |  5 +++--
 ts-scripts/set.ts                    | 10 ++++++----
 ts-scripts/transfer-orca-to-vault.ts | 10 ++++++++--
 ts-scripts/unstake.ts                |  3 ++-
 ts-scripts/withdraw.ts               |  3 ++-
 6 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/ts-scripts/constants.ts b/ts-scripts/constants.ts
index e8f5dfe..73fb0cc 100644
--- a/ts-scripts/constants.ts
+++ b/ts-scripts/constants.ts
@@ -51,3 +51,18 @@ export const DEPLOYER_ADDRESS = new PublicKey('94kZD71sbTKhqhcvY9D9Ra5BsLzKRZgzn
 
 export const STATE_SEED = 'state';
 export const PENDING_WITHDRAW_SEED = 'pending_withdraw';
+
+// ============================================================================
+// ARGUMENT PARSING
+// ============================================================================
+
+/**
+ * Parses a non-negative integer command line argument exactly, whatever its size.
+ * Anything but plain digits ("12.5", "1e6", "10abc", "-1") is rejected, never truncated.
+ */
+export function parseUnsignedInteger(value: string): bigint {
+  if (!/^\d+$/.test(value)) {
+    throw new Error(`Invalid argument "${value}": must be a non-negative integer`);
+  }
+  return BigInt(value);
+}
diff --git a/ts-scripts/initialize.ts b/ts-scripts/initialize.ts
index 410d99d..87ba961 100644
--- a/ts-scripts/initialize.ts
+++ b/ts-scripts/initialize.ts
@@ -17,6 +17,7 @@ import {
   TOKEN_PROGRAM_ID,
   ASSOCIATED_TOKEN_PROGRAM_ID,
   SYSTEM_PROGRAM_ID,
+  parseUnsignedInteger,
 } from './constants';
 
 // Parse command line arguments
@@ -30,7 +31,7 @@ if (args.length < 3) {
 }
 
 const [deployerKeypairPath, updateAuthorityKeypairPath, coolDownPeriodStr] = args;
-const coolDownPeriod = parseInt(coolDownPeriodStr);
+const coolDownPeriod = parseUnsignedInteger(coolDownPeriodStr);
 
 console.log('🚀 Starting initialize transaction...');
 console.log(`Deployer keypair: ${deployerKeypairPath}`);
@@ -92,7 +93,7 @@ async function main() {
 
     // Write the cool down period as i64 (little-endian)
     const coolDownBuffer = Buffer.alloc(8);
-    coolDownBuffer.writeBigInt64LE(BigInt(coolDownPeriod), 0);
+    coolDownBuffer.writeBigInt64LE(coolDownPeriod, 0);
     instructionData.set(coolDownBuffer, 1);
 
     // Create the initialize instruction
diff --git a/ts-scripts/set.ts b/ts-scripts/set.ts
index 257d103..22b80a1 100644
--- a/ts-scripts/set.ts
+++ b/ts-scripts/set.ts
@@ -9,7 +9,7 @@ import {
 } from '@solana/web3.js';
 import { readFileSync } from 'fs';
 import { TransactionInstruction } from '@solana/web3.js';
-import { XORCA_STAKING_PROGRAM_ID, RPC_URL, STATE_SEED } from './constants';
+import { XORCA_STAKING_PROGRAM_ID, RPC_URL, STATE_SEED, parseUnsignedInteger } from './constants';
 
 // Parse command line arguments
 const args = process.argv.slice(2);
@@ -69,8 +69,10 @@ async function main() {
     let instructionData: Buffer;
 
     if (operation === 'update-cooldown') {
-      const cooldownSeconds = parseInt(value);
-      if (isNaN(cooldownSeconds) || cooldownSeconds < 0) {
+      let cooldownSeconds: bigint;
+      try {
+        cooldownSeconds = parseUnsignedInteger(value);
+      } catch (error) {
         console.error('❌ Invalid cooldown period! Must be a non-negative integer.');
         process.exit(1);
       }
@@ -81,7 +83,7 @@ async function main() {
       instructionData = Buffer.alloc(10); // 1 byte for Set discriminator + 1 byte for StateUpdateInstruction discriminator + 8 bytes for i64
       instructionData.writeUInt8(4, 0); // Set instruction discriminator
       instructionData.writeUInt8(0, 1); // UpdateCoolDownPeriod discriminator
-      instructionData.writeBigInt64LE(BigInt(cooldownSeconds), 2); // new_cool_down_period_s as little-endian i64
+      instructionData.writeBigInt64LE(cooldownSeconds, 2); // new_cool_down_period_s as little-endian i64
 
       console.log(`Setting cooldown period to: ${cooldownSeconds} seconds`);
     } else if (operation === 'update-authority') {
diff --git a/ts-scripts/transfer-orca-to-vault.ts b/ts-scripts/transfer-orca-to-vault.ts
index c01f825..ce65c98 100644
--- a/ts-scripts/transfer-orca-to-vault.ts
+++ b/ts-scripts/transfer-orca-to-vault.ts
@@ -15,7 +15,13 @@ import {
   TOKEN_PROGRAM_ID,
   ASSOCIATED_TOKEN_PROGRAM_ID,
 } from '@solana/spl-token';
-import { ORCA_MINT_ADDRESS, XORCA_STAKING_PROGRAM_ID, RPC_URL, STATE_SEED } from './constants';
+import {
+  ORCA_MINT_ADDRESS,
+  XORCA_STAKING_PROGRAM_ID,
+  RPC_URL,
+  STATE_SEED,
+  parseUnsignedInteger,
+} from './constants';
 
 // Parse command line arguments
 const args = process.argv.slice(2);
@@ -27,7 +33,7 @@ if (args.length < 2) {
 }
 
 const [senderKeypairPath, orcaAmountStr] = args;
-const orcaAmount = BigInt(parseInt(orcaAmountStr));
+const orcaAmount = parseUnsignedInteger(orcaAmountStr);
 
 console.log('🚀 Starting ORCA transfer to vault...');
 console.log(`Sender keypair: ${senderKeypairPath}`);
diff --git a/ts-scripts/unstake.ts b/ts-scripts/unstake.ts
index 55f9df2..28260d1 100644
--- a/ts-scripts/unstake.ts
+++ b/ts-scripts/unstake.ts
@@ -20,6 +20,7 @@ import {
   TOKEN_PROGRAM_ID,
   RPC_URL,
   ASSOCIATED_TOKEN_PROGRAM_ID,
+  parseUnsignedInteger,
 } from './constants';
 
 // Parse command line arguments
@@ -32,7 +33,7 @@ if (args.length < 3) {
 
 const [stakerKeypairPath, xorcaAmountStr, withdrawIndexStr] = args;
 const xorcaAmount = BigInt(xorcaAmountStr);
-const withdrawIndex = parseInt(withdrawIndexStr, 10);
+const withdrawIndex = Number(parseUnsignedInteger(withdrawIndexStr));
 
 console.log('🚀 Starting unstake transaction...');
 console.log(`Staker keypair: ${stakerKeypairPath}`);
diff --git a/ts-scripts/withdraw.ts b/ts-scripts/withdraw.ts
index 8360c3e..495d9f2 100644
--- a/ts-scripts/withdraw.ts
+++ b/ts-scripts/withdraw.ts
@@ -20,6 +20,7 @@ import {
   TOKEN_PROGRAM_ID,
   RPC_URL,
   ASSOCIATED_TOKEN_PROGRAM_ID,
+  parseUnsignedInteger,
 } from './constants';
 
 // Parse command line arguments
@@ -31,7 +32,7 @@ if (args.length < 2) {
 }
 
 const [stakerKeypairPath, withdrawIndexStr] = args;
-const withdrawIndex = parseInt(withdrawIndexStr, 10);
+const withdrawIndex = Number(parseUnsignedInteger(withdrawIndexStr));
 
 console.log('🚀 Starting withdraw transaction...');
 console.log(`Staker keypair: ${stakerKeypairPath}`);
-- 
2.43.0


From 5793fa1a0e5c3365e61a9e469a2aa41403a7c232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:49 +0000
Subject: [PATCH 04/11] fix: status printed the two exchange rates under each
 other's label

(non-escrowed ORCA + 100) / (supply + 100) is ORCA per xORCA.
---
 ts-scripts/status.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ts-scripts/status.ts b/ts-scripts/status.ts
index e02808e..b54f1e0 100644
--- a/ts-scripts/status.ts
+++ b/ts-scripts/status.ts
@@ -109,8 +109,9 @@ async function main() {
       const numerator = nonEscrowedAmount + VIRTUAL_NON_ESCROWED_ORCA_AMOUNT;
       const denominator = xorcaSupply + VIRTUAL_XORCA_SUPPLY;
 
-      const exchangeRate = Number(numerator) / Number(denominator);
-      const inverseExchangeRate = Number(denominator) / Number(numerator);
+      // xORCA minted per ORCA staked, and ORCA returned per xORCA unstaked
+      const exchangeRate = Number(denominator) / Number(numerator);
+      const inverseExchangeRate = Number(numerator) / Number(denominator);
 
       console.log('🔄 Exchange Rates:');
       console.log(
-- 
2.43.0


From 3af70529cf6db004704c5711c299d9bc5e0ad9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:29 +0000
Subject: [PATCH 05/11] fix: pending-withdraws hid claims when the node failed,
 and called ORCA xORCA

A failed read is an error now instead of an absent claim; addresses that only
received lamports are still skipped.
---
 ts-scripts/pending-withdraws.ts | 121 +++++++++++++++-----------------
 1 file changed, 58 insertions(+), 63 deletions(-)

diff --git a/ts-scripts/pending-withdraws.ts b/ts-scripts/pending-withdraws.ts
index 99bae1a..87e57b0 100644
--- a/ts-scripts/pending-withdraws.ts
+++ b/ts-scripts/pending-withdraws.ts
@@ -66,64 +66,59 @@ async function main() {
     const pendingWithdraws = [];
 
     for (let withdrawIndex = 0; withdrawIndex < maxWithdrawalsToSearch; withdrawIndex++) {
-      try {
-        // Derive pending withdraw account address
-        const [pendingWithdrawAddress] = PublicKey.findProgramAddressSync(
-          [
-            Buffer.from(PENDING_WITHDRAW_SEED),
-            stakerPublicKey.toBuffer(),
-            Buffer.from([withdrawIndex]),
-          ],
-          XORCA_STAKING_PROGRAM_ID
-        );
-
-        // Try to fetch the account
-        const accountInfo = await connection.getAccountInfo(pendingWithdrawAddress);
-        if (accountInfo) {
-          // Parse pending withdraw data according to the Rust struct:
-          // - discriminator: 1 byte
-          // - padding1: 5 bytes
-          // - bump: 1 byte
-          // - withdraw_index: 1 byte
-          // - unstaker: 32 bytes
-          // - withdrawable_orca_amount: 8 bytes (u64)
-          // - withdrawable_timestamp: 8 bytes (i64)
-          const data = accountInfo.data;
-
-          const discriminator = data.readUInt8(0);
-          const bump = data.readUInt8(6);
-          const storedWithdrawIndex = data.readUInt8(7);
-          const unstaker = data.slice(8, 40); // 32 bytes
-          const withdrawableOrcaAmount = data.readBigUInt64LE(40); // 8 bytes
-          const withdrawableTimestamp = data.readBigInt64LE(48); // 8 bytes (signed)
-
-          // Calculate current timestamp
-          const currentTimestamp = BigInt(Math.floor(Date.now() / 1000));
-
-          // withdrawableTimestamp is the future time when withdraw will be ready
-          // So we need to check if current time >= withdrawableTimestamp
-          const isReady = currentTimestamp >= withdrawableTimestamp;
-          const timeRemaining = isReady ? 0n : withdrawableTimestamp - currentTimestamp;
-          const timeSinceReady = isReady ? currentTimestamp - withdrawableTimestamp : 0n;
-
-          // Calculate when the withdraw was created (withdrawableTimestamp - cooldown)
-          const createdAtTimestamp = withdrawableTimestamp - coolDownPeriodS;
-          const timeElapsed = currentTimestamp - createdAtTimestamp;
-
-          pendingWithdraws.push({
-            index: storedWithdrawIndex,
-            address: pendingWithdrawAddress,
-            xorcaAmount: withdrawableOrcaAmount,
-            timestamp: withdrawableTimestamp,
-            timeElapsed,
-            timeRemaining,
-            isReady,
-            timeSinceReady,
-          });
-        }
-      } catch (error) {
-        // Account doesn't exist or parsing error, continue searching
-        continue;
+      // Derive pending withdraw account address
+      const [pendingWithdrawAddress] = PublicKey.findProgramAddressSync(
+        [
+          Buffer.from(PENDING_WITHDRAW_SEED),
+          stakerPublicKey.toBuffer(),
+          Buffer.from([withdrawIndex]),
+        ],
+        XORCA_STAKING_PROGRAM_ID
+      );
+
+      // Fetch the account; an address that only received lamports is no claim
+      const accountInfo = await connection.getAccountInfo(pendingWithdrawAddress);
+      if (accountInfo && accountInfo.owner.equals(XORCA_STAKING_PROGRAM_ID)) {
+        // Parse pending withdraw data according to the Rust struct:
+        // - discriminator: 1 byte
+        // - padding1: 5 bytes
+        // - bump: 1 byte
+        // - withdraw_index: 1 byte
+        // - unstaker: 32 bytes
+        // - withdrawable_orca_amount: 8 bytes (u64)
+        // - withdrawable_timestamp: 8 bytes (i64)
+        const data = accountInfo.data;
+
+        const discriminator = data.readUInt8(0);
+        const bump = data.readUInt8(6);
+        const storedWithdrawIndex = data.readUInt8(7);
+        const unstaker = data.slice(8, 40); // 32 bytes
+        const withdrawableOrcaAmount = data.readBigUInt64LE(40); // 8 bytes
+        const withdrawableTimestamp = data.readBigInt64LE(48); // 8 bytes (signed)
+
+        // Calculate current timestamp
+        const currentTimestamp = BigInt(Math.floor(Date.now() / 1000));
+
+        // withdrawableTimestamp is the future time when withdraw will be ready
+        // So we need to check if current time >= withdrawableTimestamp
+        const isReady = currentTimestamp >= withdrawableTimestamp;
+        const timeRemaining = isReady ? 0n : withdrawableTimestamp - currentTimestamp;
+        const timeSinceReady = isReady ? currentTimestamp - withdrawableTimestamp : 0n;
+
+        // Calculate when the withdraw was created (withdrawableTimestamp - cooldown)
+        const createdAtTimestamp = withdrawableTimestamp - coolDownPeriodS;
+        const timeElapsed = currentTimestamp - createdAtTimestamp;
+
+        pendingWithdraws.push({
+          index: storedWithdrawIndex,
+          address: pendingWithdrawAddress,
+          orcaAmount: withdrawableOrcaAmount,
+          timestamp: withdrawableTimestamp,
+          timeElapsed,
+          timeRemaining,
+          isReady,
+          timeSinceReady,
+        });
       }
     }
 
@@ -139,7 +134,7 @@ async function main() {
     pendingWithdraws.forEach((withdraw, index) => {
       console.log(`\n${index + 1}. Pending Withdraw #${withdraw.index}`);
       console.log(`   Address: ${withdraw.address.toString()}`);
-      console.log(`   xORCA Amount: ${withdraw.xorcaAmount.toString()}`);
+      console.log(`   ORCA Amount: ${withdraw.orcaAmount.toString()}`);
       // Handle timestamp display safely - show when withdraw was created
       try {
         const createdAtTimestamp = withdraw.timestamp - coolDownPeriodS;
@@ -173,13 +168,13 @@ async function main() {
     console.log(`In Cooldown: ${cooldownWithdraws.length}`);
 
     if (readyWithdraws.length > 0) {
-      const totalReadyXorca = readyWithdraws.reduce((sum, w) => sum + w.xorcaAmount, 0n);
-      console.log(`Total xORCA Ready: ${totalReadyXorca.toString()}`);
+      const totalReadyOrca = readyWithdraws.reduce((sum, w) => sum + w.orcaAmount, 0n);
+      console.log(`Total ORCA Ready: ${totalReadyOrca.toString()}`);
     }
 
     if (cooldownWithdraws.length > 0) {
-      const totalCooldownXorca = cooldownWithdraws.reduce((sum, w) => sum + w.xorcaAmount, 0n);
-      console.log(`Total xORCA in Cooldown: ${totalCooldownXorca.toString()}`);
+      const totalCooldownOrca = cooldownWithdraws.reduce((sum, w) => sum + w.orcaAmount, 0n);
+      console.log(`Total ORCA in Cooldown: ${totalCooldownOrca.toString()}`);
     }
   } catch (error) {
     console.error('❌ Error fetching pending withdraws:', error);
-- 
2.43.0


From 9f4da85bf9295a15e926e7468098f58eb206303c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:48 +0000
Subject: [PATCH 06/11] fix: scripts reported balances as amounts received

stake printed the whole xORCA balance, unstake the whole ORCA balance and
transfer-orca-to-vault twice the transfer as "received".
---
 ts-scripts/stake.ts                  | 6 +++++-
 ts-scripts/transfer-orca-to-vault.ts | 2 +-
 ts-scripts/unstake.ts                | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/ts-scripts/stake.ts b/ts-scripts/stake.ts
index d6aa818..f24cc32 100644
--- a/ts-scripts/stake.ts
+++ b/ts-scripts/stake.ts
@@ -106,6 +106,9 @@ async function main() {
     } else {
       console.log('✅ Staker xORCA ATA exists');
     }
+    const initialXorcaBalance = xorcaAtaInfo
+      ? BigInt((await connection.getTokenAccountBalance(stakerXorcaAta)).value.amount)
+      : 0n;
 
     // Create the stake instruction manually
     console.log('🏗️ Creating stake instruction...');
@@ -179,7 +182,8 @@ async function main() {
 
     const orcaStaked = BigInt(orcaBalance.value.amount) - BigInt(finalOrcaBalance.value.amount);
     console.log(`ORCA staked: ${orcaStaked.toString()}`);
-    console.log(`xORCA received: ${finalXorcaBalance.value.amount}`);
+    const xorcaReceived = BigInt(finalXorcaBalance.value.amount) - initialXorcaBalance;
+    console.log(`xORCA received: ${xorcaReceived.toString()}`);
   } catch (error) {
     console.error('❌ Error staking ORCA:', error);
     process.exit(1);
diff --git a/ts-scripts/transfer-orca-to-vault.ts b/ts-scripts/transfer-orca-to-vault.ts
index ce65c98..c632a73 100644
--- a/ts-scripts/transfer-orca-to-vault.ts
+++ b/ts-scripts/transfer-orca-to-vault.ts
@@ -139,7 +139,7 @@ async function main() {
     console.log(`Final sender ORCA balance: ${finalSenderBalance.toString()}`);
     console.log(`Final vault ORCA balance: ${finalVaultBalance.toString()}`);
     console.log(`ORCA transferred: ${orcaAmount.toString()}`);
-    console.log(`Vault received: ${finalVaultBalance - (vaultAccount.amount - orcaAmount)} ORCA`);
+    console.log(`Vault received: ${finalVaultBalance - vaultAccount.amount} ORCA`);
 
     console.log('🎉 Transfer to vault completed successfully!');
   } catch (error) {
diff --git a/ts-scripts/unstake.ts b/ts-scripts/unstake.ts
index 28260d1..9bb03b0 100644
--- a/ts-scripts/unstake.ts
+++ b/ts-scripts/unstake.ts
@@ -122,6 +122,8 @@ async function main() {
     } else {
       console.log('✅ Staker ORCA ATA exists');
     }
+    const stakerOrcaBalance =
+      orcaAtaInfo && orcaAtaInfo.data.length >= 72 ? orcaAtaInfo.data.readBigUInt64LE(64) : 0n;
 
     // Derive pending withdraw account
     console.log('🔍 Deriving pending withdraw account...');
@@ -214,7 +216,7 @@ async function main() {
     console.log(`Staker's final ORCA balance: ${finalStakerOrcaBalance}`);
 
     const xorcaUnstaked = stakerXorcaBalance - finalStakerXorcaBalance;
-    const orcaReceived = finalStakerOrcaBalance - (stakerXorcaBalance > 0 ? BigInt(0) : BigInt(0));
+    const orcaReceived = finalStakerOrcaBalance - stakerOrcaBalance;
     console.log(`xORCA unstaked: ${xorcaUnstaked}`);
     console.log(`ORCA received: ${orcaReceived}`);
   } catch (error) {
-- 
2.43.0


From 55957c3a3465740ac72780893984a1332bdd5173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:37 +0000
Subject: [PATCH 07/11] fix: let Initialize use a vault token account somebody
 else already created

---
 solana-program/src/instructions/initialize.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/solana-program/src/instructions/initialize.rs b/solana-program/src/instructions/initialize.rs
index 2d4e2cc..5ff598f 100644
--- a/solana-program/src/instructions/initialize.rs
+++ b/solana-program/src/instructions/initialize.rs
@@ -1,7 +1,7 @@
 use crate::{
     assertions::account::{
         assert_account_address, assert_account_owner, assert_account_role, assert_account_seeds,
-        assert_external_account_data, AccountRole,
+        assert_external_account_data, make_owner_token_account_assertions, AccountRole,
     },
     cpi::token::{TokenMint, ORCA_MINT_ID, XORCA_MINT_ID},
     error::ErrorCode,
@@ -93,7 +93,11 @@ pub fn process_instruction(accounts: &[AccountInfo], cool_down_period_s: &i64) -
 
     // 7. Vault Account Assertions
     assert_account_role(vault_account, &[AccountRole::Writable])?;
-    assert_account_owner(vault_account, &SYSTEM_PROGRAM_ID)?;
+    // Anyone can create the state's associated token account ahead of time, so an existing
+    // vault must not prevent initialization.
+    if !vault_account.is_owned_by(&SYSTEM_PROGRAM_ID) {
+        make_owner_token_account_assertions(vault_account, state_account, orca_mint_account, true)?;
+    }
 
     // 8. Token Program Account Assertions
     assert_account_address(token_program_account, &SPL_TOKEN_PROGRAM_ID)?;
-- 
2.43.0


From e4909a3eb6be8fe558d6d3de8dea9081237ff942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:46 +0000
Subject: [PATCH 08/11] fix: refuse malformed hex secrets in generate-keypair
 instead of truncating them

---
 ts-scripts/generate-keypair.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ts-scripts/generate-keypair.ts b/ts-scripts/generate-keypair.ts
index 1dbc51a..725681b 100644
--- a/ts-scripts/generate-keypair.ts
+++ b/ts-scripts/generate-keypair.ts
@@ -28,6 +28,11 @@ function main() {
   const filename = args[1] || 'generated-keypair.json';
 
   try {
+    // Buffer.from silently stops at the first pair that is not hexadecimal
+    if (!/^(?:[0-9a-f]{2})+$/i.test(hexPrivateKey)) {
+      throw new Error('Invalid private key. Expected an even number of hexadecimal digits');
+    }
+
     // Decode hex private key
     const privateKeyBytes = Buffer.from(hexPrivateKey, 'hex');
 
-- 
2.43.0


From 7b5effecbf1847d655f1f83c49da1f2747a46382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:49 +0000
Subject: [PATCH 09/11] fix: fetch pending withdraws of more than 100 indices
 in several requests (Rust client)

Nodes refuse getMultipleAccounts requests with more than 100 addresses, so every
limit above 100 made fetch_pending_withdraws_for_staker fail.
---
 rust-client/src/utils/mod.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/rust-client/src/utils/mod.rs b/rust-client/src/utils/mod.rs
index a631c33..5cec697 100644
--- a/rust-client/src/utils/mod.rs
+++ b/rust-client/src/utils/mod.rs
@@ -12,6 +12,8 @@ use spl_token_interface::state::{Account, Mint};
 use std::str::FromStr;
 
 pub const DEFAULT_MAX_WITHDRAWALS_TO_SEARCH: u8 = 15;
+/// Nodes refuse `getMultipleAccounts` requests with more addresses than this
+const MAX_ACCOUNTS_PER_REQUEST: usize = 100;
 pub const ORCA_MINT_ADDRESS: &str = "orcaEKTdK7LKz57vaAYr9QeNsVEPfiu6QeMU1kektZE";
 pub const XORCA_MINT_ADDRESS: &str = "xorcaYqbXUNz3474ubUMJAdu2xgPsew3rUCe5ughT3N";
 pub const TOKEN_PROGRAM_ADDRESS: &str = "TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA";
@@ -89,10 +91,14 @@ pub fn fetch_pending_withdraws_for_staker(
         addresses.push(address);
     }
 
-    // Fetch all accounts (including non-existent ones)
-    let accounts = rpc
-        .get_multiple_accounts(&addresses)
-        .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e.to_string()))?;
+    // Fetch all accounts (including non-existent ones), as many per request as nodes accept
+    let mut accounts = Vec::with_capacity(addresses.len());
+    for chunk in addresses.chunks(MAX_ACCOUNTS_PER_REQUEST) {
+        let fetched = rpc
+            .get_multiple_accounts(chunk)
+            .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e.to_string()))?;
+        accounts.extend(fetched);
+    }
 
     // Filter out addresses that hold no pending withdraw account. Anyone can send lamports to
     // such an address, which makes it show up as an empty account that the program does not own.
-- 
2.43.0


From aebf8d2a41506b26c022d8e207fc17b5b853b8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:49 +0000
Subject: [PATCH 10/11] fix: fetch pending withdraws of more than 100 indices
 in several requests (JavaScript client)

Nodes refuse getMultipleAccounts requests with more than 100 addresses, so every
limit above 100 made fetchPendingWithdrawsForStaker fail.
---
 js-client/src/utils/index.ts | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/js-client/src/utils/index.ts b/js-client/src/utils/index.ts
index ba17fb8..95b6e5a 100644
--- a/js-client/src/utils/index.ts
+++ b/js-client/src/utils/index.ts
@@ -23,6 +23,7 @@ const ASSOCIATED_TOKEN_PROGRAM_ADDRESS = 'ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsL
 const ORCA_MINT_ADDRESS = 'orcaEKTdK7LKz57vaAYr9QeNsVEPfiu6QeMU1kektZE' as Address;
 const XORCA_MINT_ADDRESS = 'xorcaYqbXUNz3474ubUMJAdu2xgPsew3rUCe5ughT3N' as Address; // TODO: update this
 
+const MAX_ACCOUNTS_PER_REQUEST = 100;
 const DEFAULT_MAX_WITHDRAWALS_TO_SEARCH = 15;
 const WITHDRAW_INDEX_MAX_UINT = 255;
 
@@ -95,11 +96,15 @@ export async function fetchPendingWithdrawsForStaker(
       findPendingWithdrawAddress(staker, index).then(([address]) => address)
     )
   );
-  const accounts = await rpc
-    .getMultipleAccounts(pendingWithdrawAddresses, { encoding: 'base64' })
-    .send();
+  // Nodes refuse requests with more than MAX_ACCOUNTS_PER_REQUEST addresses
+  const accounts = [];
+  for (let i = 0; i < pendingWithdrawAddresses.length; i += MAX_ACCOUNTS_PER_REQUEST) {
+    const chunk = pendingWithdrawAddresses.slice(i, i + MAX_ACCOUNTS_PER_REQUEST);
+    const { value } = await rpc.getMultipleAccounts(chunk, { encoding: 'base64' }).send();
+    accounts.push(...value);
+  }
   const [pendingWithdrawDecoder, base64Encoder] = [getPendingWithdrawDecoder(), getBase64Encoder()];
-  const pendingWithdraws = accounts.value
+  const pendingWithdraws = accounts
     .filter((account): account is NonNullable<typeof account> => Boolean(account))
     .map((account) => {
       const dataBytes = base64Encoder.encode(account.data[0]);
-- 
2.43.0


From 59d87fde1196e22727a0942a869ffaf3a322e7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:49 +0000
Subject: [PATCH 11/11] fix: js-client: do not use Node's Buffer in the vault
 and mint supply helpers

fetchVaultState and fetchXorcaMintSupply (and fetchStakingExchangeRate, which
uses both) failed in browsers, which have no Buffer, although the package
ships a browser bundle. Decode base64 with kit's encoder, as the other
helpers in this file already do.
---
 js-client/src/utils/index.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/js-client/src/utils/index.ts b/js-client/src/utils/index.ts
index 95b6e5a..1be4559 100644
--- a/js-client/src/utils/index.ts
+++ b/js-client/src/utils/index.ts
@@ -148,7 +148,7 @@ export async function fetchVaultState(rpc: Rpc<GetAccountInfoApi>): Promise<{
     throw new Error('Vault ATA not found.');
   }
   const tokenDecoder = getTokenDecoder();
-  const dataBytes = new Uint8Array(Buffer.from(accountInfo.value.data[0], 'base64'));
+  const dataBytes = getBase64Encoder().encode(accountInfo.value.data[0]);
   const tokenAccount = tokenDecoder.decode(dataBytes);
   return {
     address: vaultPda[0],
@@ -164,7 +164,7 @@ export async function fetchXorcaMintSupply(rpc: Rpc<GetAccountInfoApi>): Promise
     throw new Error('xORCA mint not found.');
   }
   const mintDecoder = getMintDecoder();
-  const dataBytes = new Uint8Array(Buffer.from(accountInfo.value.data[0], 'base64'));
+  const dataBytes = getBase64Encoder().encode(accountInfo.value.data[0]);
   const mintAccount = mintDecoder.decode(dataBytes);
   return mintAccount.supply;
 }
-- 
2.43.0

