From 9f5f28a750a246c59e84e350e17226189faddc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:19 +0000
Subject: [PATCH 01/12] fix: count the verified signatures as the Ed25519
 program does

The Ed25519 program verifies as many signatures as the first byte of its
instruction data says. Reading the count from two bytes let an instruction with
data [1, 1, ..] pass for 257 verifications although only the first one was made,
so the second shred's signature could be forged.
---
 program/src/sigverify.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/program/src/sigverify.rs b/program/src/sigverify.rs
index f6c033d..ee61bea 100644
--- a/program/src/sigverify.rs
+++ b/program/src/sigverify.rs
@@ -125,12 +125,13 @@ impl<'a> SignatureVerification<'a> {
         if sigverify_ix.program_id != ed25519_program::id() {
             return Err(SlashingError::MissingSignatureVerification);
         }
-        let num_signatures = u16::from_le_bytes(
-            sigverify_ix.data[0..2]
-                .try_into()
-                .map_err(|_| SlashingError::MissingSignatureVerification)?,
-        );
-        if num_signatures < NUM_VERIFICATIONS as u16 {
+        // The Ed25519 program takes the number of signatures from the first byte only,
+        // the second byte is padding which it ignores
+        let num_signatures = *sigverify_ix
+            .data
+            .first()
+            .ok_or(SlashingError::MissingSignatureVerification)?;
+        if usize::from(num_signatures) < NUM_VERIFICATIONS {
             return Err(SlashingError::MissingSignatureVerification);
         }
         let expected_data_size = NUM_VERIFICATIONS
-- 
2.43.0


From 5ba615df4f9eb78732cfbb2475d8be094e83faa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:19 +0000
Subject: [PATCH 02/12] fix: take verified signatures only from the data that
 was verified

The Ed25519 instruction refers to the data of the top level instruction that
follows it. When the slashing program is invoked by another program that is the
caller's data, while the slashing program looked at the same place of its own
instruction data and took whatever it found there as verified.
---
 program/src/sigverify.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/program/src/sigverify.rs b/program/src/sigverify.rs
index ee61bea..e8589a2 100644
--- a/program/src/sigverify.rs
+++ b/program/src/sigverify.rs
@@ -84,6 +84,7 @@ impl<'a> SignatureVerification<'a> {
 
     fn get_data_slice<'b>(
         data: &'a [u8],
+        verified_data: &[u8],
         _instructions_sysvar: &'a AccountInfo<'b>,
         instruction_index: u16,
         current_index: u16,
@@ -103,6 +104,10 @@ impl<'a> SignatureVerification<'a> {
         if end > data.len() {
             return Err(SlashingError::InvalidSignatureVerification);
         }
+        if verified_data.get(start..end) != Some(&data[start..end]) {
+            msg!("The data that was verified is not the data of the slashing instruction");
+            return Err(SlashingError::InvalidSignatureVerification);
+        }
 
         Ok(&data[start..end])
     }
@@ -120,6 +125,10 @@ impl<'a> SignatureVerification<'a> {
         // Instruction inspection to unpack successful signature verifications
         let current_index = load_current_index_checked(instructions_sysvar)
             .map_err(|_| SlashingError::InvalidSignatureVerification)?;
+        // Instruction indices refer to top level instructions, which is not the one being
+        // processed if we were invoked by another program
+        let current_ix = get_instruction_relative(0, instructions_sysvar)
+            .map_err(|_| SlashingError::InvalidSignatureVerification)?;
         let sigverify_ix = get_instruction_relative(relative_index, instructions_sysvar)
             .map_err(|_| SlashingError::MissingSignatureVerification)?;
         if sigverify_ix.program_id != ed25519_program::id() {
@@ -154,6 +163,7 @@ impl<'a> SignatureVerification<'a> {
             // Parse out signature
             let signature = Self::get_data_slice(
                 instruction_data,
+                &current_ix.data,
                 instructions_sysvar,
                 offsets.signature_instruction_index,
                 current_index,
@@ -164,6 +174,7 @@ impl<'a> SignatureVerification<'a> {
             // Parse out pubkey
             let pubkey = Self::get_data_slice(
                 instruction_data,
+                &current_ix.data,
                 instructions_sysvar,
                 offsets.public_key_instruction_index,
                 current_index,
@@ -174,6 +185,7 @@ impl<'a> SignatureVerification<'a> {
             // Parse out message
             let message = Self::get_data_slice(
                 instruction_data,
+                &current_ix.data,
                 instructions_sysvar,
                 offsets.message_instruction_index,
                 current_index,
-- 
2.43.0


From 416c3db1cb3480832f63533d28c71068f18f5e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:19 +0000
Subject: [PATCH 03/12] fix: ignore bytes past the end of a shred when
 comparing payloads

A shred and a copy of it with bytes appended were taken for two different shreds,
although the leader signed only one.
---
 program/src/shred.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/program/src/shred.rs b/program/src/shred.rs
index 90230fe..8243efa 100644
--- a/program/src/shred.rs
+++ b/program/src/shred.rs
@@ -329,7 +329,8 @@ impl<'a> Shred<'a> {
 
     /// Returns true if the other shred has the same (slot, index,
     /// shred-type), but different payload.
-    /// Retransmitter's signature is ignored when comparing payloads.
+    /// Retransmitter's signature and any bytes past the end of the shred
+    /// are ignored when comparing payloads.
     pub(crate) fn is_shred_duplicate(&self, other: &Shred) -> bool {
         if (self.slot(), self.index(), self.shred_type())
             != (other.slot(), other.index(), other.shred_type())
@@ -340,9 +341,6 @@ impl<'a> Shred<'a> {
             let Ok((proof_offset, proof_size)) = shred.get_proof_offset_and_size() else {
                 return shred.payload;
             };
-            if !shred.resigned {
-                return shred.payload;
-            }
             let Some(offset) = proof_offset.checked_add(proof_size) else {
                 return shred.payload;
             };
-- 
2.43.0


From 6ca6cfeea78502c148f717b7e49516eb52e2ef07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:19 +0000
Subject: [PATCH 04/12] fix: refuse a proof offset past the end of the proof
 account

instead of aborting the program.
---
 program/src/processor.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/program/src/processor.rs b/program/src/processor.rs
index 4958895..581b032 100644
--- a/program/src/processor.rs
+++ b/program/src/processor.rs
@@ -82,7 +82,10 @@ pub fn process_instruction(
         SlashingInstruction::DuplicateBlockProof => {
             let accounts = SlashingAccounts::new(account_info_iter)?;
             let data = decode_instruction_data::<DuplicateBlockProofInstructionData>(input)?;
-            let proof_data = &accounts.proof_account.try_borrow_data()?[data.offset()?..];
+            let proof_account_data = accounts.proof_account.try_borrow_data()?;
+            let proof_data = proof_account_data
+                .get(data.offset()?..)
+                .ok_or(SlashingError::ProofBufferTooSmall)?;
             let violation_report = ViolationReport {
                 version: ViolationReport::VERSION,
                 reporter: data.reporter,
-- 
2.43.0


From 35636a4f98472191cd63f9e508d958cda225d73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:42 +0000
Subject: [PATCH 05/12] fix: refuse to close an account that holds no report

An account owned by the program that is too short for a report aborted the
program, and a long enough one filled with zeros was closed.
---
 program/src/state.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/program/src/state.rs b/program/src/state.rs
index 12a889e..920298f 100644
--- a/program/src/state.rs
+++ b/program/src/state.rs
@@ -318,8 +318,14 @@ pub(crate) fn close_violation_report<'a, 'b>(
     destination_account: &'a AccountInfo<'b>,
 ) -> Result<(), ProgramError> {
     let report_data = report_account.try_borrow_data()?;
-    let report: &ViolationReport =
-        pod_from_bytes(&report_data[0..std::mem::size_of::<ViolationReport>()])?;
+    // Anybody can have an account created that is owned by this program, but only
+    // this program can have made a report of it
+    let report: &ViolationReport = report_data
+        .get(0..std::mem::size_of::<ViolationReport>())
+        .map(pod_from_bytes)
+        .transpose()?
+        .filter(|report: &&ViolationReport| report.version > 0)
+        .ok_or(SlashingError::InvalidViolationReportAcccount)?;
     let destination = report.destination;
 
     if Epoch::from(report.epoch).saturating_add(3) > sysvar::clock::Clock::get()?.epoch {
-- 
2.43.0


From 504b9b3259d90491a8ee98c7fd2144f0ce61db5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:14 +0000
Subject: [PATCH 06/12] fix: close and display skip accounts that hold no
 report

---
 clients/cli/src/main.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/clients/cli/src/main.rs b/clients/cli/src/main.rs
index 250e454..f0d449d 100644
--- a/clients/cli/src/main.rs
+++ b/clients/cli/src/main.rs
@@ -375,8 +375,9 @@ async fn command_close(
 
     let mut displays = vec![];
     for (pubkey, report_account) in reports {
-        let report: &ViolationReport =
-            pod_from_bytes(&report_account.data()[..std::mem::size_of::<ViolationReport>()])?;
+        let Some(report) = get_report(report_account.data()) else {
+            continue;
+        };
         if report.epoch() + 3 > epoch {
             early_reports += 1;
             continue;
@@ -455,8 +456,9 @@ async fn command_display(
 
     let mut displays = vec![];
     for (pubkey, report_account) in reports {
-        let report: &ViolationReport =
-            pod_from_bytes(&report_account.data()[..std::mem::size_of::<ViolationReport>()])?;
+        let Some(report) = get_report(report_account.data()) else {
+            continue;
+        };
         if ignore_filter(report) {
             continue;
         }
@@ -473,6 +475,17 @@ async fn command_display(
     ))
 }
 
+/// The violation report recorded in an account of the slashing program, or
+/// `None` if the account holds none: anyone can assign an account of zeroes to
+/// the program
+fn get_report(data: &[u8]) -> Option<&ViolationReport> {
+    let header = data.get(..std::mem::size_of::<ViolationReport>())?;
+    if ViolationReport::version(header) == 0 {
+        return None;
+    }
+    pod_from_bytes(header).ok()
+}
+
 async fn initialize_and_write_proof(
     config: &Config,
     proof_account: &Keypair,
-- 
2.43.0


From a8a6800ca315275438869c2e2c41f458a853ee27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:14 +0000
Subject: [PATCH 07/12] fix: close counts as too early only reports that match
 its filters

---
 clients/cli/src/main.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/clients/cli/src/main.rs b/clients/cli/src/main.rs
index f0d449d..221f3fe 100644
--- a/clients/cli/src/main.rs
+++ b/clients/cli/src/main.rs
@@ -378,11 +378,11 @@ async fn command_close(
         let Some(report) = get_report(report_account.data()) else {
             continue;
         };
-        if report.epoch() + 3 > epoch {
-            early_reports += 1;
+        if ignore_filter(pubkey, report) {
             continue;
         }
-        if ignore_filter(pubkey, report) {
+        if report.epoch() + 3 > epoch {
+            early_reports += 1;
             continue;
         }
         let lamports = report_account.lamports;
-- 
2.43.0


From 25d200568becbd42287509f41ce611f8558c3ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:14 +0000
Subject: [PATCH 08/12] fix: a report that cannot be closed does not keep close
 from closing others

---
 clients/cli/src/main.rs | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/clients/cli/src/main.rs b/clients/cli/src/main.rs
index 221f3fe..324c226 100644
--- a/clients/cli/src/main.rs
+++ b/clients/cli/src/main.rs
@@ -15,6 +15,7 @@ use {
     solana_sdk::{
         account::ReadableAccount,
         clock::Slot,
+        instruction::Instruction,
         pubkey::Pubkey,
         rent::Rent,
         signature::{Keypair, Signature, Signer, SIGNATURE_BYTES},
@@ -388,13 +389,14 @@ async fn command_close(
         let lamports = report_account.lamports;
 
         let close_ix = close_violation_report(&pubkey, &report.destination);
-        let transaction = Transaction::new_signed_with_payer(
-            &[close_ix],
-            Some(&payer.pubkey()),
-            &[payer.as_ref()],
-            config.rpc_client.get_latest_blockhash().await?,
-        );
-        let signature = process_transaction(config, transaction).await?;
+        let signature = match process_instruction(config, close_ix, payer.as_ref()).await {
+            Ok(signature) => signature,
+            Err(e) => {
+                // Reports are independent of each other, carry on with the rest
+                eprintln!("Failed to close report account {pubkey}: {e:?}");
+                continue;
+            }
+        };
 
         displays.push(CloseReportOutput {
             report_account: pubkey,
@@ -554,6 +556,21 @@ async fn initialize_and_write_proof(
     Ok(())
 }
 
+/// Process a transaction of a single instruction that only the payer signs
+async fn process_instruction(
+    config: &Config,
+    instruction: Instruction,
+    payer: &dyn Signer,
+) -> Result<Option<Signature>, Error> {
+    let transaction = Transaction::new_signed_with_payer(
+        &[instruction],
+        Some(&payer.pubkey()),
+        &[payer],
+        config.rpc_client.get_latest_blockhash().await?,
+    );
+    process_transaction(config, transaction).await
+}
+
 async fn process_transaction(
     config: &Config,
     transaction: Transaction,
-- 
2.43.0


From 549bd831fe53ac46f5b32c7f64a706e8b5450325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:14 +0000
Subject: [PATCH 09/12] fix: attach closes every proof account, whatever
 becomes of the others

---
 clients/cli/src/main.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/clients/cli/src/main.rs b/clients/cli/src/main.rs
index 324c226..515fd46 100644
--- a/clients/cli/src/main.rs
+++ b/clients/cli/src/main.rs
@@ -202,14 +202,18 @@ async fn command_attach(
                 &payer.pubkey(),
                 &payer.pubkey(),
             );
-            let transaction = Transaction::new_signed_with_payer(
-                &[close_ix],
-                Some(&payer.pubkey()),
-                &[payer.as_ref()],
-                config.rpc_client.get_latest_blockhash().await?,
-            );
-            if process_transaction(config, transaction).await?.is_some() {
-                println_display(config, "Closed proof account".to_string());
+            // Some of these may not exist, e.g. if their creation failed
+            match process_instruction(config, close_ix, payer.as_ref()).await {
+                Ok(Some(_)) => println_display(config, "Closed proof account".to_string()),
+                Ok(None) => (),
+                Err(e) => eprintln_display(
+                    config,
+                    format!(
+                        "Failed to close proof account {}: {:?}",
+                        proof_account.pubkey(),
+                        e
+                    ),
+                ),
             }
         }
 
-- 
2.43.0


From 4b2b91731033441ded8a3c8a45d5f8aa191acf83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:14 +0000
Subject: [PATCH 10/12] fix: attach carries on when a slot has no known leader
 or shreds without a Merkle root

---
 clients/cli/src/main.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/clients/cli/src/main.rs b/clients/cli/src/main.rs
index 515fd46..6b9ad17 100644
--- a/clients/cli/src/main.rs
+++ b/clients/cli/src/main.rs
@@ -242,7 +242,12 @@ async fn report_duplicate_block_violation(
     slot: Slot,
 ) -> Result<bool, Error> {
     // Check if this violation has already been reported
-    let node_pubkey = config.rpc_client.get_slot_leaders(slot, 1).await?[0];
+    let node_pubkey = *config
+        .rpc_client
+        .get_slot_leaders(slot, 1)
+        .await?
+        .first()
+        .ok_or_else(|| Error::from("Unable to fetch the leader of the slot"))?;
     let (pda, _) = get_violation_report_address(&node_pubkey, slot, ProofType::DuplicateBlockProof);
     if let Some(report_account) = config
         .rpc_client
@@ -287,8 +292,12 @@ async fn report_duplicate_block_violation(
 
     // Submit the violation to the slashing program
     let payer = config.fee_payer()?;
-    let shred_1_merkle_root = layout::get_merkle_root(proof.shred1.as_ref()).unwrap();
-    let shred_2_merkle_root = layout::get_merkle_root(proof.shred2.as_ref()).unwrap();
+    let get_merkle_root = |shred| {
+        layout::get_merkle_root(shred)
+            .ok_or_else(|| Error::from("Duplicate proof has a shred without a Merkle root"))
+    };
+    let shred_1_merkle_root = get_merkle_root(proof.shred1.as_ref())?;
+    let shred_2_merkle_root = get_merkle_root(proof.shred2.as_ref())?;
     let shred_1_signature = proof.shred1.as_ref()[..SIGNATURE_BYTES].try_into().unwrap();
     let shred_2_signature = proof.shred2.as_ref()[..SIGNATURE_BYTES].try_into().unwrap();
 
-- 
2.43.0


From 407fea4ac1872518f3f1f8826b01cd9d603cb1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:09 +0000
Subject: [PATCH 11/12] fix: attach counts a report it made but could not read
 back

---
 clients/cli/src/main.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/clients/cli/src/main.rs b/clients/cli/src/main.rs
index 6b9ad17..bfc45bf 100644
--- a/clients/cli/src/main.rs
+++ b/clients/cli/src/main.rs
@@ -325,13 +325,13 @@ async fn report_duplicate_block_violation(
         config.rpc_client.get_latest_blockhash().await?,
     );
     if let Some(_signature) = process_transaction(config, transaction).await? {
-        let report_account = config.rpc_client.get_account(&pda).await?;
-        let report: &ViolationReport =
-            pod_from_bytes(&report_account.data()[..std::mem::size_of::<ViolationReport>()])?;
-        println_display(
-            config,
-            ViolationReportOutput::from_report(pda, report, vec![]).to_string(),
-        );
+        // The report is made, whether or not we manage to fetch and show it
+        let report_account = config.rpc_client.get_account(&pda).await;
+        let message = match report_account.as_ref().map(|a| get_report(a.data())) {
+            Ok(Some(report)) => ViolationReportOutput::from_report(pda, report, vec![]).to_string(),
+            _ => format!("Reported slot {slot}, unable to fetch report account {pda}"),
+        };
+        println_display(config, message);
     }
 
     Ok(true)
-- 
2.43.0


From ffa0062521aa453b37a78aba23262e12d03f33a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:09 +0000
Subject: [PATCH 12/12] fix: verbose display copes with recorded shreds it
 cannot parse

---
 clients/cli/src/output.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/clients/cli/src/output.rs b/clients/cli/src/output.rs
index 4823b78..18b1bde 100644
--- a/clients/cli/src/output.rs
+++ b/clients/cli/src/output.rs
@@ -185,10 +185,18 @@ impl ViolationReportOutput {
     }
 
     fn display_duplicate_block_proof(w: &mut dyn Write, proof: DuplicateSlotProof) -> Result {
-        let shred1 = Shred::new_from_serialized_shred(proof.shred1).unwrap();
-        let shred2 = Shred::new_from_serialized_shred(proof.shred2).unwrap();
+        let shred1 = Shred::new_from_serialized_shred(proof.shred1);
+        let shred2 = Shred::new_from_serialized_shred(proof.shred2);
 
         for (i, shred) in [&shred1, &shred2].iter().enumerate() {
+            // The program accepts as evidence shreds no honest leader would make
+            let shred = match shred {
+                Ok(shred) => shred,
+                Err(err) => {
+                    writeln!(w, "    Shred{}: unable to parse: {}", i + 1, err)?;
+                    continue;
+                }
+            };
             writeln!(
                 w,
                 "    Shred{}: fec_set_index {}, index {}, shred_type {:?}\n       \
@@ -205,12 +213,14 @@ impl ViolationReportOutput {
             writeln!(w, "       payload: {:?}", shred.payload())?;
         }
 
-        if shred1.shred_type() == ShredType::Code && shred2.shred_type() == ShredType::Code {
-            writeln!(
-                w,
-                "    Erasure consistency {}",
-                ErasureMeta::check_erasure_consistency(&shred1, &shred2)
-            )?;
+        if let (Ok(shred1), Ok(shred2)) = (shred1, shred2) {
+            if shred1.shred_type() == ShredType::Code && shred2.shred_type() == ShredType::Code {
+                writeln!(
+                    w,
+                    "    Erasure consistency {}",
+                    ErasureMeta::check_erasure_consistency(&shred1, &shred2)
+                )?;
+            }
         }
 
         Ok(())
-- 
2.43.0

