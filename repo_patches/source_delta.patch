From 81b57f295ecf19bf2bcdaaff985bd232b398605f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:50 +0000
Subject: [PATCH 01/15] fix: report NotEnoughMessages from
 terminate_due_to_errors, Terminated on cancellation

---
 manul/src/session/session.rs |  2 +-
 manul/src/session/tokio.rs   | 23 ++++++++++++++++-------
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/manul/src/session/session.rs b/manul/src/session/session.rs
index fc90233..d0eb37e 100644
--- a/manul/src/session/session.rs
+++ b/manul/src/session/session.rs
@@ -461,7 +461,7 @@ where
     /// Will be usually called after receiving [`CanFinalize::Never`] from
     /// [`can_finalize`](`Self::can_finalize`).
     pub fn terminate_due_to_errors(self, accum: RoundAccumulator<P, SP>) -> Result<SessionReport<P, SP>, LocalError> {
-        self.terminate_inner(accum, false)
+        self.terminate_inner(accum, true)
     }
 
     /// Attempts to finalize the current round.
diff --git a/manul/src/session/tokio.rs b/manul/src/session/tokio.rs
index 34bcd31..11f574e 100644
--- a/manul/src/session/tokio.rs
+++ b/manul/src/session/tokio.rs
@@ -143,7 +143,7 @@ where
                     message_in.ok_or_else(|| LocalError::new("The incoming message channel was closed unexpectedly"))?
                 },
                 _ = cancellation.cancelled() => {
-                    return session.terminate_due_to_errors(accum);
+                    return session.terminate(accum);
                 }
             };
 
@@ -180,6 +180,13 @@ where
     }
 }
 
+/// The reason why the message processing loop for a round ended in [`par_run_session`].
+enum LoopOutcome {
+    Finalize,
+    TerminateDueToErrors,
+    Cancelled,
+}
+
 /// Executes the session waiting for the messages from the `rx` channel
 /// and pushing outgoing messages into the `tx` channel.
 /// The messages are processed in parallel.
@@ -277,14 +284,14 @@ where
             message_processing_tasks.push(message_processing);
         }
 
-        let can_finalize = loop {
+        let loop_outcome = loop {
             match session.can_finalize(&accum) {
-                CanFinalize::Yes => break true,
+                CanFinalize::Yes => break LoopOutcome::Finalize,
                 CanFinalize::NotYet => {}
                 // Due to already registered invalid messages from nodes,
                 // even if the remaining nodes send correct messages, it won't be enough.
                 // Terminating.
-                CanFinalize::Never => break false,
+                CanFinalize::Never => break LoopOutcome::TerminateDueToErrors,
             }
 
             tokio::select! {
@@ -332,7 +339,7 @@ where
                     }
                 },
                 _ = cancellation.cancelled() => {
-                    break false;
+                    break LoopOutcome::Cancelled;
                 }
             }
         };
@@ -373,8 +380,10 @@ where
         let session_inner = Arc::into_inner(session)
             .ok_or_else(|| LocalError::new("There are still references to the session left"))?;
 
-        if !can_finalize {
-            return session_inner.terminate_due_to_errors(accum);
+        match loop_outcome {
+            LoopOutcome::Finalize => {}
+            LoopOutcome::TerminateDueToErrors => return session_inner.terminate_due_to_errors(accum),
+            LoopOutcome::Cancelled => return session_inner.terminate(accum),
         }
 
         match session_inner.finalize_round(rng, accum)? {
-- 
2.43.0


From 219bb1d03118ff63d533c034fdf7f266f0062fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:50 +0000
Subject: [PATCH 02/15] fix: do not deliver cached echo round messages from
 banned senders

---
 manul/src/session/session.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/manul/src/session/session.rs b/manul/src/session/session.rs
index d0eb37e..1f3be9f 100644
--- a/manul/src/session/session.rs
+++ b/manul/src/session/session.rs
@@ -493,7 +493,12 @@ where
                 accum.payloads,
                 accum.artifacts,
             ));
-            let cached_messages = filter_messages(accum.cached, &round.as_ref().transition_info().id);
+            // Similarly to the case of a regular round below,
+            // the senders could have been banned after their messages were cached.
+            let cached_messages = filter_messages(accum.cached, &round.as_ref().transition_info().id)
+                .into_iter()
+                .filter(|message| !transcript.is_banned(message.from()))
+                .collect::<Vec<_>>();
             let session =
                 Session::new_for_next_round(rng, self.session_id, self.signer, self.format, round, transcript)?;
             return Ok(RoundOutcome::AnotherRound {
-- 
2.43.0


From 165fb30c2629855e5f72251e13a7308c2c54c2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:50 +0000
Subject: [PATCH 03/15] fix: check the guilty party when verifying a mismatched
 broadcasts evidence

---
 manul/src/session/evidence.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/manul/src/session/evidence.rs b/manul/src/session/evidence.rs
index fad53f0..30275ee 100644
--- a/manul/src/session/evidence.rs
+++ b/manul/src/session/evidence.rs
@@ -205,7 +205,7 @@ where
             EvidenceEnum::InvalidEchoBroadcast(evidence) => evidence.verify::<P, SP>(&self.guilty_party, &format),
             EvidenceEnum::InvalidNormalBroadcast(evidence) => evidence.verify::<P, SP>(&self.guilty_party, &format),
             EvidenceEnum::InvalidEcho(evidence) => evidence.verify::<SP>(&self.guilty_party, &format),
-            EvidenceEnum::MismatchedBroadcasts(evidence) => evidence.verify::<SP>(),
+            EvidenceEnum::MismatchedBroadcasts(evidence) => evidence.verify::<SP>(&self.guilty_party),
         }
     }
 }
@@ -253,8 +253,13 @@ pub struct MismatchedBroadcastsEvidence<Id> {
     error: MismatchedBroadcastsError<Id>,
 }
 
-impl<Id> MismatchedBroadcastsEvidence<Id> {
-    fn verify<SP: SessionParameters<Verifier = Id>>(&self) -> Result<(), EvidenceError> {
+impl<Id: PartyId> MismatchedBroadcastsEvidence<Id> {
+    fn verify<SP: SessionParameters<Verifier = Id>>(&self, verifier: &SP::Verifier) -> Result<(), EvidenceError> {
+        if verifier != self.error.guilty_party() {
+            return Err(EvidenceError::InvalidEvidence(
+                "The guilty party does not match the sender of the attached messages".into(),
+            ));
+        }
         self.error.verify_evidence::<SP>()
     }
 }
-- 
2.43.0


From 2f740e3b995b8cd695af97cb0004ac4619c52602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:53 +0000
Subject: [PATCH 04/15] fix: compare the metadata of echoed messages with that
 of the main round in the evidence

---
 manul/src/session/echo.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/manul/src/session/echo.rs b/manul/src/session/echo.rs
index a9ff8c0..26f107c 100644
--- a/manul/src/session/echo.rs
+++ b/manul/src/session/echo.rs
@@ -57,6 +57,11 @@ impl<Id: PartyId> InvalidEchoError<Id> {
         metadata: &MessageMetadata,
         message: &EchoRoundMessage<SP::Verifier>,
     ) -> Result<(), EvidenceError> {
+        // The echo pack was sent in the echo round, and the messages in it were sent in the corresponding main round.
+        let main_round_id = metadata.round_id().non_echo().map_err(|_err| {
+            EvidenceError::InvalidEvidence("The attached message is not from an echo round".into())
+        })?;
+
         let invalid_echo = message.message_hashes.get(&self.invalid_echo_sender).ok_or_else(|| {
             EvidenceError::InvalidEvidence(format!(
                 "Did not find {:?} in the attached message",
@@ -74,7 +79,9 @@ impl<Id: PartyId> InvalidEchoError<Id> {
 
         // `from` sent us a correctly signed message but from another round or another session.
         // Provable fault of `from`.
-        if verified_echo.metadata() != metadata {
+        if verified_echo.metadata().session_id() != metadata.session_id()
+            || verified_echo.metadata().round_id() != &main_round_id
+        {
             return Ok(());
         }
 
-- 
2.43.0


From 733f95a68125a4cb33a3be2607cca0fdd8ddeaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:55 +0000
Subject: [PATCH 05/15] fix: include parent rounds in simultaneous rounds for
 rounds followed by an echo round

---
 manul/src/protocol/round_id.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/manul/src/protocol/round_id.rs b/manul/src/protocol/round_id.rs
index 9659c18..67bfac7 100644
--- a/manul/src/protocol/round_id.rs
+++ b/manul/src/protocol/round_id.rs
@@ -182,11 +182,10 @@ impl TransitionInfo {
     /// the parent rounds (if those nodes still are not finalized while we already are),
     /// and the sibling rounds (if some nodes went on a different path).
     pub(crate) fn simultaneous_rounds(&self, followed_by_echo_round: bool) -> Result<BTreeSet<RoundId>, LocalError> {
-        let mut result = if followed_by_echo_round {
-            BTreeSet::from([self.id.echo()?])
-        } else {
-            self.parents.clone()
-        };
+        let mut result = self.parents.clone();
+        if followed_by_echo_round {
+            result.insert(self.id.echo()?);
+        }
         result.extend(self.siblings.iter().cloned());
         result.extend(self.children.iter().cloned());
         Ok(result)
-- 
2.43.0


From 36f8c5f854d5f3b1cc148c43580db9eff12adac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:37 +0000
Subject: [PATCH 06/15] fix: bind the message part kind in the signed digest so
 that part hashes cannot be passed off as echo broadcasts

---
 manul/src/protocol.rs         |  2 +-
 manul/src/protocol/message.rs | 11 ++++++++++
 manul/src/session/echo.rs     |  7 ++++---
 manul/src/session/message.rs  | 39 +++++++++++++++++++++--------------
 4 files changed, 40 insertions(+), 19 deletions(-)

diff --git a/manul/src/protocol.rs b/manul/src/protocol.rs
index 9a74c83..716e123 100644
--- a/manul/src/protocol.rs
+++ b/manul/src/protocol.rs
@@ -39,7 +39,7 @@ pub(crate) use dyn_round::{Artifact, BoxedReceiveError, DynRound, Payload};
 pub(crate) use evidence::EvidenceProtocolMessage;
 pub(crate) use message::{
     DirectMessage, DirectMessageError, DynProtocolMessage, EchoBroadcast, EchoBroadcastError, NormalBroadcast,
-    NormalBroadcastError, ProtocolMessagePart, ProtocolMessagePartHashable,
+    NormalBroadcastError, PartKind, ProtocolMessagePart, ProtocolMessagePartHashable,
 };
 pub(crate) use rng::BoxedRng;
 pub(crate) use round::NoType;
diff --git a/manul/src/protocol/message.rs b/manul/src/protocol/message.rs
index 09f3cf1..c9d24cf 100644
--- a/manul/src/protocol/message.rs
+++ b/manul/src/protocol/message.rs
@@ -129,6 +129,17 @@ pub(crate) enum PartKind {
     DirectMessage,
 }
 
+impl PartKind {
+    /// The byte identifying this kind in hashed data.
+    pub(crate) fn to_byte(self) -> u8 {
+        match self {
+            Self::EchoBroadcast => 0,
+            Self::NormalBroadcast => 1,
+            Self::DirectMessage => 2,
+        }
+    }
+}
+
 pub(crate) trait HasPartKind {
     const KIND: PartKind;
 }
diff --git a/manul/src/session/echo.rs b/manul/src/session/echo.rs
index 26f107c..bf0803c 100644
--- a/manul/src/session/echo.rs
+++ b/manul/src/session/echo.rs
@@ -58,9 +58,10 @@ impl<Id: PartyId> InvalidEchoError<Id> {
         message: &EchoRoundMessage<SP::Verifier>,
     ) -> Result<(), EvidenceError> {
         // The echo pack was sent in the echo round, and the messages in it were sent in the corresponding main round.
-        let main_round_id = metadata.round_id().non_echo().map_err(|_err| {
-            EvidenceError::InvalidEvidence("The attached message is not from an echo round".into())
-        })?;
+        let main_round_id = metadata
+            .round_id()
+            .non_echo()
+            .map_err(|_err| EvidenceError::InvalidEvidence("The attached message is not from an echo round".into()))?;
 
         let invalid_echo = message.message_hashes.get(&self.invalid_echo_sender).ok_or_else(|| {
             EvidenceError::InvalidEvidence(format!(
diff --git a/manul/src/session/message.rs b/manul/src/session/message.rs
index 5463ce5..b6e326e 100644
--- a/manul/src/session/message.rs
+++ b/manul/src/session/message.rs
@@ -12,7 +12,7 @@ use super::{
     LocalError,
 };
 use crate::protocol::{
-    DirectMessage, EchoBroadcast, EvidenceError, NormalBroadcast, ProtocolMessagePartHashable, RoundId,
+    DirectMessage, EchoBroadcast, EvidenceError, NormalBroadcast, PartKind, ProtocolMessagePartHashable, RoundId,
 };
 
 #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
@@ -107,13 +107,19 @@ pub struct MessageWithMetadata<M> {
     message: M,
 }
 
+// The kind of the message part is a part of the digest so that a signature created for a message part of one kind
+// could not be passed off as one for a message part of another kind.
+// Message parts contain their kind in the hash as well, but if we only have access to the hash
+// (as it is the case for [`SignedMessageHash`]) we cannot check that.
 fn message_digest<SP: SessionParameters>(
+    kind: PartKind,
     metadata: &MessageMetadata,
     message_part_hash: &[u8],
 ) -> Result<SP::Digest, LocalError> {
     let message_part_hash_len =
         u64::try_from(message_part_hash.as_ref().len()).expect("message part hash length does not exceed 18 exabytes");
     Ok(SP::Digest::new_with_prefix(b"SignedMessagePartDigest")
+        .chain_update([kind.to_byte()])
         .chain_update(SP::WireFormat::serialize(metadata)?)
         .chain_update(message_part_hash_len.to_be_bytes())
         .chain_update(message_part_hash))
@@ -125,7 +131,7 @@ impl<M: ProtocolMessagePartHashable> MessageWithMetadata<M> {
         SP: SessionParameters,
     {
         let message_part_hash = self.message.hash::<SP::Digest>();
-        let digest = message_digest::<SP>(&self.metadata, &message_part_hash)?;
+        let digest = message_digest::<SP>(M::KIND, &self.metadata, &message_part_hash)?;
         Ok(digest)
     }
 }
@@ -156,18 +162,6 @@ where
         })
     }
 
-    pub(crate) fn to_signed_hash<SP>(&self) -> SignedMessageHash
-    where
-        SP: SessionParameters,
-    {
-        let message_part_hash = self.message_with_metadata.message.hash::<SP::Digest>();
-        SignedMessageHash {
-            signature: self.signature.clone(),
-            metadata: self.message_with_metadata.metadata.clone(),
-            message_part_hash: message_part_hash.as_ref().into(),
-        }
-    }
-
     pub(crate) fn metadata(&self) -> &MessageMetadata {
         &self.message_with_metadata.metadata
     }
@@ -193,6 +187,20 @@ where
     }
 }
 
+impl SignedMessagePart<EchoBroadcast> {
+    pub(crate) fn to_signed_hash<SP>(&self) -> SignedMessageHash
+    where
+        SP: SessionParameters,
+    {
+        let message_part_hash = self.message_with_metadata.message.hash::<SP::Digest>();
+        SignedMessageHash {
+            signature: self.signature.clone(),
+            metadata: self.message_with_metadata.metadata.clone(),
+            message_part_hash: message_part_hash.as_ref().into(),
+        }
+    }
+}
+
 #[derive(Debug, Clone)]
 pub struct VerifiedMessagePart<M> {
     signature: SerializedSignature,
@@ -369,6 +377,7 @@ impl<Verifier> VerifiedMessage<Verifier> {
     }
 }
 
+/// The signed hash of an echo broadcast.
 #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
 pub(crate) struct SignedMessageHash {
     signature: SerializedSignature,
@@ -389,7 +398,7 @@ impl SignedMessageHash {
     where
         SP: SessionParameters,
     {
-        let digest = message_digest::<SP>(&self.metadata, &self.message_part_hash)?;
+        let digest = message_digest::<SP>(PartKind::EchoBroadcast, &self.metadata, &self.message_part_hash)?;
         let signature = self.signature.deserialize::<SP>()?;
         verifier.verify_digest(digest, &signature)?;
         Ok(VerifiedMessageHash {
-- 
2.43.0


From 27ebd426811046e90fd4d33fa9cb3ef0dccaa6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:37 +0000
Subject: [PATCH 07/15] fix: do not panic on evidence with a protocol error for
 a round that does not generate errors

---
 manul/src/protocol/evidence.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/manul/src/protocol/evidence.rs b/manul/src/protocol/evidence.rs
index 83ab481..9ee2585 100644
--- a/manul/src/protocol/evidence.rs
+++ b/manul/src/protocol/evidence.rs
@@ -272,7 +272,11 @@ where
         _shared_data: &<<Self::Round as Round<Id>>::Protocol as Protocol<Id>>::SharedData,
         _messages: EvidenceMessages<'_, Id, Self::Round>,
     ) -> Result<(), EvidenceError> {
-        panic!("Methods of `NoProtocolErrors` should not be called during normal operation.")
+        // This method can be called if a (possibly malicious) third party supplied an evidence
+        // with a serialized error for a round that does not generate errors.
+        Err(EvidenceError::InvalidEvidence(
+            "The round does not generate provable errors".into(),
+        ))
     }
 }
 
-- 
2.43.0


From 836c9cff4838ada231618828d9c0826bd8ce2f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:41 +0000
Subject: [PATCH 08/15] fix: report messages from a wrong protocol group in a
 chained protocol evidence as invalid evidence

---
 manul/src/combinators/chain.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/manul/src/combinators/chain.rs b/manul/src/combinators/chain.rs
index 4204fa3..4f2e4d1 100644
--- a/manul/src/combinators/chain.rs
+++ b/manul/src/combinators/chain.rs
@@ -86,17 +86,23 @@ where
     pub protocol2: <C::Protocol2 as Protocol<Id>>::SharedData,
 }
 
-fn ungroup(expected_group: GroupNum, round_id: &RoundId) -> Result<RoundId, LocalError> {
-    let (group, round_id) = round_id.split_group()?;
+// The round IDs here come from the evidence, which is untrusted, so a wrong group is not a local error.
+fn ungroup(expected_group: GroupNum, round_id: &RoundId) -> Result<RoundId, EvidenceError> {
+    let (group, round_id) = round_id
+        .split_group()
+        .map_err(|_err| EvidenceError::InvalidEvidence(format!("The round ID {round_id} is not in a group")))?;
     if group != expected_group {
-        return Err(LocalError::new(format!(
+        return Err(EvidenceError::InvalidEvidence(format!(
             "Expected round ID from group {expected_group}, got round {round_id} from a different group: {group}"
         )));
     }
     Ok(round_id)
 }
 
-fn ungroup_map<T>(expected_group: GroupNum, grouped: BTreeMap<RoundId, T>) -> Result<BTreeMap<RoundId, T>, LocalError> {
+fn ungroup_map<T>(
+    expected_group: GroupNum,
+    grouped: BTreeMap<RoundId, T>,
+) -> Result<BTreeMap<RoundId, T>, EvidenceError> {
     grouped
         .into_iter()
         .map(|(round_id, value)| ungroup(expected_group, &round_id).map(|round_id| (round_id, value)))
-- 
2.43.0


From e23c968fa349b6af8cd194b784da1c99b656097f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:05 +0000
Subject: [PATCH 09/15] fix: do not panic in run_sync if the protocol does not
 send any messages

---
 manul/src/dev/run_sync.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/manul/src/dev/run_sync.rs b/manul/src/dev/run_sync.rs
index 5fd9c8f..bac8bc6 100644
--- a/manul/src/dev/run_sync.rs
+++ b/manul/src/dev/run_sync.rs
@@ -212,7 +212,7 @@ where
         states.insert(verifier, state);
     }
 
-    loop {
+    while !messages.is_empty() {
         // Pick a random message and deliver it
         let message = messages.pop(rng);
 
@@ -247,13 +247,10 @@ where
             state
         };
         states.insert(message.to.clone(), new_state);
-
-        if messages.is_empty() {
-            trace!("All messages delivered, exiting loop");
-            break;
-        }
     }
 
+    trace!("All messages delivered, exiting loop");
+
     let mut reports = BTreeMap::new();
     for (verifier, state) in states {
         let report = match state {
-- 
2.43.0


From 188c13eb5e399c913afd5c738293e98639e4e4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:36 +0000
Subject: [PATCH 10/15] fix: do not wait for messages from banned nodes when
 deciding if a round can be finalized

---
 manul/src/session/session.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/manul/src/session/session.rs b/manul/src/session/session.rs
index 1f3be9f..fb77f5e 100644
--- a/manul/src/session/session.rs
+++ b/manul/src/session/session.rs
@@ -540,7 +540,7 @@ where
 
     /// Checks if the round can be finalized.
     pub fn can_finalize(&self, accum: &RoundAccumulator<P, SP>) -> CanFinalize {
-        accum.can_finalize()
+        accum.can_finalize(&self.transcript)
     }
 }
 
@@ -593,20 +593,30 @@ where
         }
     }
 
-    fn can_finalize(&self) -> CanFinalize {
+    fn can_finalize(&self, transcript: &Transcript<P, SP>) -> CanFinalize {
         if self
             .expecting_messages_from
             .iter()
             .all(|key| self.payloads.contains_key(key))
         {
             CanFinalize::Yes
-        } else if !self.still_have_not_sent_messages.is_empty() {
+        } else if self
+            .still_have_not_sent_messages
+            .iter()
+            .any(|key| self.can_still_respond(transcript, key))
+        {
             CanFinalize::NotYet
         } else {
             CanFinalize::Never
         }
     }
 
+    // Messages from the banned nodes are rejected,
+    // so there is no point in waiting for them unless there is one already being processed.
+    fn can_still_respond(&self, transcript: &Transcript<P, SP>, from: &SP::Verifier) -> bool {
+        self.message_is_being_processed(from) || !(self.is_banned(from) || transcript.is_banned(from))
+    }
+
     fn is_banned(&self, from: &SP::Verifier) -> bool {
         self.provable_errors.contains_key(from) || self.unprovable_errors.contains_key(from)
     }
-- 
2.43.0


From 36244939955d9bd5f2ab280ba560fb58e0943f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:39 +0000
Subject: [PATCH 11/15] fix: register mismatched broadcasts errors under the
 guilty party and not the echo sender

---
 manul/src/session/session.rs | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/manul/src/session/session.rs b/manul/src/session/session.rs
index fb77f5e..728599b 100644
--- a/manul/src/session/session.rs
+++ b/manul/src/session/session.rs
@@ -643,13 +643,12 @@ where
         }
     }
 
-    fn register_provable_error(&mut self, from: &SP::Verifier, evidence: Evidence<P, SP>) -> Result<(), LocalError> {
-        if self.provable_errors.insert(from.clone(), evidence).is_some() {
-            Err(LocalError::new(format!(
-                "A provable error for {from:?} is already registered",
-            )))
-        } else {
-            Ok(())
+    // Note that the same party may be reported several times
+    // (e.g. different nodes can echo the same mismatched broadcast, and then the party can also send an invalid message),
+    // and one evidence is enough to prove its misbehavior.
+    fn register_provable_error(&mut self, evidence: Evidence<P, SP>) {
+        if !self.provable_errors.contains_key(evidence.guilty_party()) {
+            self.provable_errors.insert(evidence.guilty_party().clone(), evidence);
         }
     }
 
@@ -723,17 +722,20 @@ where
             BoxedReceiveError::InvalidDirectMessage(error) => {
                 let (_echo_broadcast, _normal_broadcast, direct_message) = processed.message.into_parts();
                 let evidence = Evidence::new_invalid_direct_message(&from, direct_message, error);
-                self.register_provable_error(&from, evidence)
+                self.register_provable_error(evidence);
+                Ok(())
             }
             BoxedReceiveError::InvalidEchoBroadcast(error) => {
                 let (echo_broadcast, _normal_broadcast, _direct_message) = processed.message.into_parts();
                 let evidence = Evidence::new_invalid_echo_broadcast(&from, echo_broadcast, error);
-                self.register_provable_error(&from, evidence)
+                self.register_provable_error(evidence);
+                Ok(())
             }
             BoxedReceiveError::InvalidNormalBroadcast(error) => {
                 let (_echo_broadcast, normal_broadcast, _direct_message) = processed.message.into_parts();
                 let evidence = Evidence::new_invalid_normal_broadcast(&from, normal_broadcast, error);
-                self.register_provable_error(&from, evidence)
+                self.register_provable_error(evidence);
+                Ok(())
             }
             BoxedReceiveError::Protocol(boxed_error) => {
                 let (echo_broadcast, normal_broadcast, direct_message) = processed.message.into_parts();
@@ -746,7 +748,8 @@ where
                     boxed_error,
                     transcript,
                 )?;
-                self.register_provable_error(&from, evidence)
+                self.register_provable_error(evidence);
+                Ok(())
             }
             BoxedReceiveError::Unprovable(error) => {
                 self.unprovable_errors.insert(from.clone(), error);
@@ -754,8 +757,10 @@ where
             }
             BoxedReceiveError::Echo(error) => {
                 let (_echo_broadcast, normal_broadcast, _direct_message) = processed.message.into_parts();
+                // Note that the guilty party here may be different from the sender of the message.
                 let evidence = Evidence::new_echo_round_error(&from, normal_broadcast, *error)?;
-                self.register_provable_error(&from, evidence)
+                self.register_provable_error(evidence);
+                Ok(())
             }
             BoxedReceiveError::Local(error) => Err(error),
         }
-- 
2.43.0


From 810466f478dfbe85bce2be5a65dc72480e8b6e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:42 +0000
Subject: [PATCH 12/15] fix: reject messages from parties the round does not
 expect messages from instead of failing with a local error

---
 manul/src/session/session.rs | 57 +++++++++++++++++++++---------------
 1 file changed, 34 insertions(+), 23 deletions(-)

diff --git a/manul/src/session/session.rs b/manul/src/session/session.rs
index 728599b..3abc072 100644
--- a/manul/src/session/session.rs
+++ b/manul/src/session/session.rs
@@ -223,6 +223,32 @@ where
         })
     }
 
+    // Picks the messages that should be processed in this (newly created) session
+    // out of the ones that were cached previously.
+    fn apply_cached_messages(
+        self,
+        cached: BTreeMap<SP::Verifier, BTreeMap<RoundId, VerifiedMessage<SP::Verifier>>>,
+    ) -> RoundOutcome<P, SP> {
+        // These messages could have been cached before
+        // processing messages from the same node for the current round.
+        // So there might have been some new errors, and we need to check again
+        // if the sender is already banned.
+        //
+        // Also when the messages were cached it was not known who this round expects the messages from.
+        let cached_messages = filter_messages(cached, &self.round_id())
+            .into_iter()
+            .filter(|message| {
+                !self.transcript.is_banned(message.from())
+                    && self.communication_info.expecting_messages_from.contains(message.from())
+            })
+            .collect::<Vec<_>>();
+
+        RoundOutcome::AnotherRound {
+            session: self.into(),
+            cached_messages,
+        }
+    }
+
     /// Returns the verifier corresponding to the session's signer.
     pub fn verifier(&self) -> SP::Verifier {
         self.verifier.clone()
@@ -338,6 +364,12 @@ where
             .simultaneous_rounds(self.echo_round_info.is_some())?;
 
         let message_for = if message_round_id == self.round_id() {
+            if !self.communication_info.expecting_messages_from.contains(from) {
+                let err = "Messages from this party are not expected in this round";
+                accum.register_unprovable_error(from, RemoteError::new(err))?;
+                trace!("[{key:?}] {err}");
+                return Ok(PreprocessOutcome::remote_error(err));
+            }
             if accum.message_is_being_processed(from) {
                 let err = "Message from this party is already being processed";
                 accum.register_unprovable_error(from, RemoteError::new(err))?;
@@ -493,18 +525,9 @@ where
                 accum.payloads,
                 accum.artifacts,
             ));
-            // Similarly to the case of a regular round below,
-            // the senders could have been banned after their messages were cached.
-            let cached_messages = filter_messages(accum.cached, &round.as_ref().transition_info().id)
-                .into_iter()
-                .filter(|message| !transcript.is_banned(message.from()))
-                .collect::<Vec<_>>();
             let session =
                 Session::new_for_next_round(rng, self.session_id, self.signer, self.format, round, transcript)?;
-            return Ok(RoundOutcome::AnotherRound {
-                session: session.into(),
-                cached_messages,
-            });
+            return Ok(session.apply_cached_messages(accum.cached));
         }
 
         match self.round.into_inner().finalize(rng, accum.payloads, accum.artifacts)? {
@@ -519,21 +542,9 @@ where
                     return Err(LocalError::new(format!("Unexpected next round id: {round_id:?}")));
                 }
 
-                // These messages could have been cached before
-                // processing messages from the same node for the current round.
-                // So there might have been some new errors, and we need to check again
-                // if the sender is already banned.
-                let cached_messages = filter_messages(accum.cached, &round_id)
-                    .into_iter()
-                    .filter(|message| !transcript.is_banned(message.from()))
-                    .collect::<Vec<_>>();
-
                 let session =
                     Session::new_for_next_round(rng, self.session_id, self.signer, self.format, round, transcript)?;
-                Ok(RoundOutcome::AnotherRound {
-                    cached_messages,
-                    session: session.into(),
-                })
+                Ok(session.apply_cached_messages(accum.cached))
             }
         }
     }
-- 
2.43.0


From 5c8afc4a939cd5a7876b97a4ae433a8ae8c2c748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:30 +0000
Subject: [PATCH 13/15] fix: do not lose messages cached for the rounds after
 the next one

---
 manul/src/session/session.rs | 65 ++++++++++++++++++++----------------
 1 file changed, 37 insertions(+), 28 deletions(-)

diff --git a/manul/src/session/session.rs b/manul/src/session/session.rs
index 3abc072..aab4ba6 100644
--- a/manul/src/session/session.rs
+++ b/manul/src/session/session.rs
@@ -119,6 +119,8 @@ pub struct Session<P: Protocol<SP::Verifier>, SP: SessionParameters> {
     normal_broadcast: SignedMessagePart<NormalBroadcast>,
     transition_info: TransitionInfo,
     transcript: Transcript<P, SP>,
+    /// The messages that were cached in the previous rounds and are not intended for the current round.
+    cached: BTreeMap<SP::Verifier, BTreeMap<RoundId, VerifiedMessage<SP::Verifier>>>,
 }
 
 /// Possible non-erroneous results of finalizing a round.
@@ -220,31 +222,45 @@ where
             communication_info,
             echo_round_info,
             transcript,
+            cached: BTreeMap::new(),
         })
     }
 
     // Picks the messages that should be processed in this (newly created) session
-    // out of the ones that were cached previously.
+    // out of the ones that were cached previously, and keeps the ones intended for the rounds following this one.
     fn apply_cached_messages(
         self,
         cached: BTreeMap<SP::Verifier, BTreeMap<RoundId, VerifiedMessage<SP::Verifier>>>,
     ) -> RoundOutcome<P, SP> {
-        // These messages could have been cached before
-        // processing messages from the same node for the current round.
-        // So there might have been some new errors, and we need to check again
-        // if the sender is already banned.
-        //
-        // Also when the messages were cached it was not known who this round expects the messages from.
-        let cached_messages = filter_messages(cached, &self.round_id())
-            .into_iter()
-            .filter(|message| {
-                !self.transcript.is_banned(message.from())
-                    && self.communication_info.expecting_messages_from.contains(message.from())
-            })
-            .collect::<Vec<_>>();
+        let round_id = self.round_id();
+        let mut session = self;
+        let mut cached_messages = Vec::new();
+
+        for (from, messages) in cached {
+            // These messages could have been cached before
+            // processing messages from the same node for the current round.
+            // So there might have been some new errors, and we need to check again
+            // if the sender is already banned.
+            if session.transcript.is_banned(&from) {
+                continue;
+            }
+
+            let mut messages = messages;
+            if let Some(message) = messages.remove(&round_id) {
+                // When the message was cached it was not known who this round expects the messages from.
+                if session.communication_info.expecting_messages_from.contains(&from) {
+                    cached_messages.push(message);
+                }
+            }
+
+            // These may be intended for the rounds following this one.
+            if !messages.is_empty() {
+                session.cached.insert(from, messages);
+            }
+        }
 
         RoundOutcome::AnotherRound {
-            session: self.into(),
+            session: session.into(),
             cached_messages,
         }
     }
@@ -454,7 +470,7 @@ where
 
     /// Makes an accumulator for a new round.
     pub fn make_accumulator(&self) -> RoundAccumulator<P, SP> {
-        RoundAccumulator::new(&self.communication_info.expecting_messages_from)
+        RoundAccumulator::new(&self.communication_info.expecting_messages_from, self.cached.clone())
     }
 
     fn terminate_inner(
@@ -588,14 +604,17 @@ where
     P: Protocol<SP::Verifier>,
     SP: SessionParameters,
 {
-    fn new(expecting_messages_from: &BTreeSet<SP::Verifier>) -> Self {
+    fn new(
+        expecting_messages_from: &BTreeSet<SP::Verifier>,
+        cached: BTreeMap<SP::Verifier, BTreeMap<RoundId, VerifiedMessage<SP::Verifier>>>,
+    ) -> Self {
         Self {
             still_have_not_sent_messages: expecting_messages_from.clone(),
             expecting_messages_from: expecting_messages_from.clone(),
             processing: BTreeSet::new(),
             payloads: BTreeMap::new(),
             artifacts: BTreeMap::new(),
-            cached: BTreeMap::new(),
+            cached,
             echo_broadcasts: BTreeMap::new(),
             normal_broadcasts: BTreeMap::new(),
             direct_messages: BTreeMap::new(),
@@ -836,16 +855,6 @@ impl<Verifier> PreprocessOutcome<Verifier> {
     }
 }
 
-fn filter_messages<Verifier>(
-    messages: BTreeMap<Verifier, BTreeMap<RoundId, VerifiedMessage<Verifier>>>,
-    round_id: &RoundId,
-) -> Vec<VerifiedMessage<Verifier>> {
-    messages
-        .into_values()
-        .filter_map(|mut messages| messages.remove(round_id))
-        .collect()
-}
-
 #[cfg(test)]
 mod tests {
     use impls::impls;
-- 
2.43.0


From b47eb0c85b57438f1e3efa8790f89142251641a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:52 +0000
Subject: [PATCH 14/15] fix: treat the nodes whose cached messages were
 returned for processing as already being processed

---
 manul/src/session/session.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/manul/src/session/session.rs b/manul/src/session/session.rs
index aab4ba6..a4a3be2 100644
--- a/manul/src/session/session.rs
+++ b/manul/src/session/session.rs
@@ -121,6 +121,8 @@ pub struct Session<P: Protocol<SP::Verifier>, SP: SessionParameters> {
     transcript: Transcript<P, SP>,
     /// The messages that were cached in the previous rounds and are not intended for the current round.
     cached: BTreeMap<SP::Verifier, BTreeMap<RoundId, VerifiedMessage<SP::Verifier>>>,
+    /// The senders of the messages for the current round that were cached in the previous rounds.
+    cached_senders: BTreeSet<SP::Verifier>,
 }
 
 /// Possible non-erroneous results of finalizing a round.
@@ -223,6 +225,7 @@ where
             echo_round_info,
             transcript,
             cached: BTreeMap::new(),
+            cached_senders: BTreeSet::new(),
         })
     }
 
@@ -249,6 +252,7 @@ where
             if let Some(message) = messages.remove(&round_id) {
                 // When the message was cached it was not known who this round expects the messages from.
                 if session.communication_info.expecting_messages_from.contains(&from) {
+                    session.cached_senders.insert(from.clone());
                     cached_messages.push(message);
                 }
             }
@@ -470,7 +474,11 @@ where
 
     /// Makes an accumulator for a new round.
     pub fn make_accumulator(&self) -> RoundAccumulator<P, SP> {
-        RoundAccumulator::new(&self.communication_info.expecting_messages_from, self.cached.clone())
+        RoundAccumulator::new(
+            &self.communication_info.expecting_messages_from,
+            self.cached.clone(),
+            self.cached_senders.clone(),
+        )
     }
 
     fn terminate_inner(
@@ -607,11 +615,12 @@ where
     fn new(
         expecting_messages_from: &BTreeSet<SP::Verifier>,
         cached: BTreeMap<SP::Verifier, BTreeMap<RoundId, VerifiedMessage<SP::Verifier>>>,
+        processing: BTreeSet<SP::Verifier>,
     ) -> Self {
         Self {
             still_have_not_sent_messages: expecting_messages_from.clone(),
             expecting_messages_from: expecting_messages_from.clone(),
-            processing: BTreeSet::new(),
+            processing,
             payloads: BTreeMap::new(),
             artifacts: BTreeMap::new(),
             cached,
-- 
2.43.0


From aac7c6404f6955394bbe6213af12961252cf7ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:53 +0000
Subject: [PATCH 15/15] fix: do not stall in par_run_session when a round ends
 with its channels full

---
 manul/src/session/tokio.rs | 45 ++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/manul/src/session/tokio.rs b/manul/src/session/tokio.rs
index 11f574e..49c9d45 100644
--- a/manul/src/session/tokio.rs
+++ b/manul/src/session/tokio.rs
@@ -346,6 +346,34 @@ where
 
         debug!("{my_id}: Finalizing the round {}", session.round_id());
 
+        // Drop our copies of `Sender`s to let the channels close.
+        drop(outgoing_tx);
+        drop(processed_tx);
+
+        // Send all the remaining messages and record the remaining results.
+        // This has to be done before joining the tasks since they may be waiting for a place in a full channel.
+        loop {
+            tokio::select! {
+                Some((message_out, artifact)) = outgoing_rx.recv() => {
+                    let from = message_out.from.clone();
+                    let to = message_out.to.clone();
+                    tx.send(message_out)
+                        .await
+                        .map_err(|err| {
+                            LocalError::new(format!("Failed to send a message from {from:?} to {to:?}: {err}",))
+                        })?;
+
+                    session.add_artifact(&mut accum, artifact)?;
+                }
+                Some(processed) = processed_rx.recv() => {
+                    session.add_processed_message(&mut accum, processed)?;
+                }
+                else => break,
+            }
+        }
+
+        debug!("{my_id}: Sent out all remaining messages");
+
         // Join all the handles created in this iteration.
 
         for message_creation_task in message_creation_tasks {
@@ -360,23 +388,6 @@ where
                 .map_err(|_err| LocalError::new("Failed to join a message processing task"))??;
         }
 
-        // Drop our copies of `Sender`s to let the channels close.
-        drop(outgoing_tx);
-        drop(processed_tx);
-
-        // Send all the remaining messages
-        while let Some((message_out, artifact)) = outgoing_rx.recv().await {
-            let from = message_out.from.clone();
-            let to = message_out.to.clone();
-            tx.send(message_out)
-                .await
-                .map_err(|err| LocalError::new(format!("Failed to send a message from {from:?} to {to:?}: {err}",)))?;
-
-            session.add_artifact(&mut accum, artifact)?;
-        }
-
-        debug!("{my_id}: Sent out all remaining messages");
-
         let session_inner = Arc::into_inner(session)
             .ok_or_else(|| LocalError::new("There are still references to the session left"))?;
 
-- 
2.43.0

