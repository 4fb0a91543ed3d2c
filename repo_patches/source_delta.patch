From c931b437b8c252f90e792ada33f9c7a52b834ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 01/20] fix: pack the low bit of every sixth coefficient in the
 3-bit encoding

read_bytes_3bit stored bit 2 of cs[5] where from_bytes_3bit expects bit 0, so
LightSaber decapsulation failed with probability around 3.5e-6.
---
 saber-rust/src/poly.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/saber-rust/src/poly.rs b/saber-rust/src/poly.rs
index 6543d00..54a3a97 100644
--- a/saber-rust/src/poly.rs
+++ b/saber-rust/src/poly.rs
@@ -294,7 +294,7 @@ impl Poly {
             bs[1] = U8::from((cs[2] >> 2) & 0x01.into())
                 | U8::from((cs[3] & 0x07.into()) << 1)
                 | U8::from((cs[4] & 0x07.into()) << 4)
-                | U8::from(((cs[5] >> 2) & 0x01.into()) << 7);
+                | U8::from((cs[5] & 0x01.into()) << 7);
             bs[2] = U8::from((cs[5] >> 1) & 0x03.into())
                 | U8::from((cs[6] & 0x07.into()) << 2)
                 | U8::from((cs[7] & 0x07.into()) << 5);
-- 
2.43.0


From 09c89c794539525f3f9aec6f409c008764eb2b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 02/20] fix: reject ciphertexts too short to hold a nonce and a
 MAC instead of panicking

---
 latke/src/auth_enc.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/latke/src/auth_enc.rs b/latke/src/auth_enc.rs
index 0b14d7b..40d7e84 100644
--- a/latke/src/auth_enc.rs
+++ b/latke/src/auth_enc.rs
@@ -55,6 +55,10 @@ pub(crate) fn auth_decrypt(key: AuthEncKey, sealed_msg: &[u8]) -> Result<Vec<u8>
     // Deserialize the key and split the MAC and IV from the ciphertext
     let (enc_key, mac_key) = key.split_at(32);
     let mac_size = <MyMac as OutputSizeUser>::output_size();
+    // Anything too short to hold a nonce and a MAC cannot be authentic
+    if sealed_msg.len() < mac_size + 12 {
+        return Err(MacError);
+    }
     let (ciphertext_and_nonce, mac) = sealed_msg.split_at(sealed_msg.len() - mac_size);
     let (ciphertext, nonce) = ciphertext_and_nonce.split_at(ciphertext_and_nonce.len() - 12);
 
-- 
2.43.0


From 2b9542481c4f4cde28959ae6beb5f5b03fe6800c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 03/20] fix: implement the simulated execution of the
 Fiore-Gennaro IBKE

---
 latke/src/ibke/fg_ibke.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/latke/src/ibke/fg_ibke.rs b/latke/src/ibke/fg_ibke.rs
index d1e7b65..7eda9e3 100644
--- a/latke/src/ibke/fg_ibke.rs
+++ b/latke/src/ibke/fg_ibke.rs
@@ -279,7 +279,30 @@ impl IdentityBasedKeyExchange for FgIbkeC {
     }
 
     fn run_sim(&mut self) -> Option<usize> {
-        todo!()
+        let out = match self.next_step {
+            // Sends id, X, eph_pk
+            0 => Some(Id::default().len() + 32 + 32),
+            // Sends id, X, eph_pk, mac1
+            1 => Some(Id::default().len() + 32 + 32 + 32),
+            2 => {
+                // Sends a MAC
+                self.done = true;
+                Some(32)
+            }
+            3 => {
+                // All done
+                self.done = true;
+                None
+            }
+            _ => {
+                panic!("protocol already ended")
+            }
+        };
+
+        // Initiator gets the even steps, responder gets the odd steps
+        self.next_step += 2;
+
+        out
     }
 
     fn is_done(&self) -> bool {
-- 
2.43.0


From 911e794d11b3bcf419e5e2d1ad9d3086419faff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 04/20] fix: mark simulated HMQV-C executions as done after
 their last step

---
 latke/src/ibke/id_hmqv_c.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/latke/src/ibke/id_hmqv_c.rs b/latke/src/ibke/id_hmqv_c.rs
index 595de00..ba5ff91 100644
--- a/latke/src/ibke/id_hmqv_c.rs
+++ b/latke/src/ibke/id_hmqv_c.rs
@@ -177,9 +177,14 @@ impl IdentityBasedKeyExchange for IdHmqvC {
             }
             2 => {
                 // Sends a MAC
+                self.done = true;
                 Some(32)
             }
-            3 => None,
+            3 => {
+                // All done
+                self.done = true;
+                None
+            }
             _ => {
                 panic!("protocol already finished")
             }
-- 
2.43.0


From c883660ab8aeee577b88cbc3bb1ee72a3b1b0410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 05/20] fix: count the nonce in the ciphertext overhead used by
 simulated SIGMA-R executions

---
 latke/src/auth_enc.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/latke/src/auth_enc.rs b/latke/src/auth_enc.rs
index 40d7e84..29f26d5 100644
--- a/latke/src/auth_enc.rs
+++ b/latke/src/auth_enc.rs
@@ -12,7 +12,8 @@ use rand_core::{CryptoRng, RngCore};
 
 type MyCipher = ChaCha20;
 
-pub(crate) const TAGLEN: usize = <MyMac as OutputSizeUser>::OutputSize::USIZE;
+/// The number of bytes by which a ciphertext is longer than its plaintext, i.e., a 12-byte nonce and a MAC
+pub(crate) const TAGLEN: usize = 12 + <MyMac as OutputSizeUser>::OutputSize::USIZE;
 
 /// A key for authenticated encryption. This is a 256-bit encryption key followed by a 256-bit HMAC key.
 pub(crate) type AuthEncKey = [u8; 64];
-- 
2.43.0


From 0711ee127fd4e849505d3b5d9b66dbc4fffeba50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 06/20] fix: unconditionally execute the encrypted IBKE after a
 decryption failure

A leftover assertion aborted the session instead of entering simulated mode,
an empty message bypassed decryption, and a simulated execution could release
the key of its unconfirmed real prefix.
---
 latke/src/eue_transform.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/latke/src/eue_transform.rs b/latke/src/eue_transform.rs
index d1058c6..8f71d8b 100644
--- a/latke/src/eue_transform.rs
+++ b/latke/src/eue_transform.rs
@@ -72,10 +72,13 @@ impl<I: IdentityBasedKeyExchange> Eue<I> {
         mut rng: R,
         incoming_ciphertext: &[u8],
     ) -> Result<Option<Vec<u8>>, I::Error> {
-        // Decrypt the incoming ciphertext if there is any and we're in real mode
-        let incoming_msg = if incoming_ciphertext.len() > 0 && self.real_mode {
+        // A late message must not affect a session that has already completed
+        assert!(!self.is_done(), "protocol already finished");
+
+        // Decrypt the incoming ciphertext if we're in real mode. Only the very first step of the protocol has no incoming ciphertext
+        let no_incoming = self.next_step_is_first && incoming_ciphertext.is_empty();
+        let incoming_msg = if !no_incoming && self.real_mode {
             let pt = auth_decrypt(self.msg_key, incoming_ciphertext);
-            assert!(pt.is_ok());
             // If a decryption error occurred, we exit real mode and will just start sending zeros
             if pt.is_err() {
                 self.real_mode = false;
@@ -84,7 +87,7 @@ impl<I: IdentityBasedKeyExchange> Eue<I> {
                 Some(pt.unwrap())
             }
         } else {
-            // If the ciphertext is empty or we're not in real mode, then the message is empty or it doesn't matter. Set it to empty
+            // If there is no ciphertext or we're not in real mode, then the message is empty or it doesn't matter. Set it to empty
             Some(Vec::new())
         };
 
@@ -120,6 +123,8 @@ impl<I: IdentityBasedKeyExchange> Eue<I> {
     }
 
     pub fn finalize(&self) -> (Id, SessKey) {
+        // A simulated execution has no output
+        assert!(self.real_mode, "protocol did not successfully complete");
         self.sess.finalize()
     }
 }
-- 
2.43.0


From a2cbd670521db0f6bfb27ab6da081357aecd9c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 07/20] fix: never release a session key before the protocol
 has completed

The key-confirming protocols derive the key a step before they verify the
confirmation, and finalize handed it out regardless.
---
 latke/src/ibke/fg_ibke.rs    | 1 +
 latke/src/ibke/id_hmqv_c.rs  | 1 +
 latke/src/ibke/id_sigma_r.rs | 1 +
 latke/src/pake/kc_spake2.rs  | 1 +
 4 files changed, 4 insertions(+)

diff --git a/latke/src/ibke/fg_ibke.rs b/latke/src/ibke/fg_ibke.rs
index 7eda9e3..cbe1b2d 100644
--- a/latke/src/ibke/fg_ibke.rs
+++ b/latke/src/ibke/fg_ibke.rs
@@ -310,6 +310,7 @@ impl IdentityBasedKeyExchange for FgIbkeC {
     }
 
     fn finalize(&self) -> (Id, SessKey) {
+        assert!(self.done, "protocol did not successfully complete");
         // Add the IBKE output to the running transcript hash
         let mut trh = self.running_transcript_hash.clone();
         trh.input_ikm(self.sess_key.as_ref().unwrap());
diff --git a/latke/src/ibke/id_hmqv_c.rs b/latke/src/ibke/id_hmqv_c.rs
index ba5ff91..2c10ab7 100644
--- a/latke/src/ibke/id_hmqv_c.rs
+++ b/latke/src/ibke/id_hmqv_c.rs
@@ -158,6 +158,7 @@ impl IdentityBasedKeyExchange for IdHmqvC {
     }
 
     fn finalize(&self) -> (Id, SessKey) {
+        assert!(self.done, "protocol did not successfully complete");
         (self.output_id.unwrap(), self.output_key.unwrap())
     }
 
diff --git a/latke/src/ibke/id_sigma_r.rs b/latke/src/ibke/id_sigma_r.rs
index 4951f99..95e7085 100644
--- a/latke/src/ibke/id_sigma_r.rs
+++ b/latke/src/ibke/id_sigma_r.rs
@@ -381,6 +381,7 @@ impl IdSigmaR {
     }
 
     fn finalize(&self) -> (Id, SessKey) {
+        assert!(self.done, "protocol did not successfully complete");
         (self.output_id.unwrap(), self.output_key.unwrap())
     }
 
diff --git a/latke/src/pake/kc_spake2.rs b/latke/src/pake/kc_spake2.rs
index c35c653..44149fe 100644
--- a/latke/src/pake/kc_spake2.rs
+++ b/latke/src/pake/kc_spake2.rs
@@ -155,6 +155,7 @@ impl Pake for KcSpake2 {
     }
 
     fn finalize(&self) -> SessKey {
+        assert!(self.done, "protocol did not successfully complete");
         self.output_key.unwrap()
     }
 }
-- 
2.43.0


From e984ab8fbf5791b13478eda8676bec11f70725bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 08/20] fix: refuse to finish a session with a peer other than
 the specified one

---
 latke/src/latke.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/latke/src/latke.rs b/latke/src/latke.rs
index dcbaa39..815234d 100644
--- a/latke/src/latke.rs
+++ b/latke/src/latke.rs
@@ -14,6 +14,7 @@ pub struct Latke<I: IdentityBasedKeyExchange, P: Pake> {
     ssid: Ssid,
     pwfile: LatkePwfile<I>,
     role: PartyRole,
+    peer: PeerModel,
 
     pake_state: P,
     ibke_state: Option<Eue<I>>,
@@ -88,6 +89,7 @@ impl<I: IdentityBasedKeyExchange, P: Pake> Latke<I, P> {
             ssid,
             pwfile,
             role,
+            peer,
             pake_state,
             ibke_state: None,
             running_transcript_hash: MyKdfExtract::new(Some(b"latke-tr-hash")),
@@ -169,6 +171,11 @@ impl<I: IdentityBasedKeyExchange, P: Pake> Latke<I, P> {
         // Finalize the IBKE
         let (id, ibke_sess_key) = self.ibke_state.as_ref().unwrap().finalize();
 
+        // If the peer was specified in advance, it must be the one we ended up talking to
+        if let PeerModel::PreSpecified(peer_id) = self.peer {
+            assert!(id == peer_id, "peer is not the specified one");
+        }
+
         // Add the IBKE output to the running transcript hash
         let mut trh = self.running_transcript_hash.clone();
         trh.input_ikm(&ibke_sess_key);
-- 
2.43.0


From 63778840ae8df9c71aed2547ea91e1743ceed89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:58 +0000
Subject: [PATCH 09/20] fix: return an error for CAKE messages of the wrong
 length

---
 latke/src/pake/cake.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/latke/src/pake/cake.rs b/latke/src/pake/cake.rs
index ac41c5d..0324622 100644
--- a/latke/src/pake/cake.rs
+++ b/latke/src/pake/cake.rs
@@ -96,8 +96,8 @@ impl Pake for Cake {
             }
             // Receive the ephemral pubkey, decrypt it, and encapsulate to it
             1 => {
-                let mut eph_pk = [0u8; INDCPA_PUBLICKEYBYTES];
-                eph_pk.copy_from_slice(&incoming_msg);
+                let mut eph_pk: [u8; INDCPA_PUBLICKEYBYTES] =
+                    incoming_msg.try_into().map_err(|_| ())?;
                 // Decrypt the ephemeral pubkey
                 ideal_cipher_decrypt(0x00, &self.ssid, &self.password, &mut eph_pk);
                 let eph_pk = INDCPAPublicKey::from_bytes(&eph_pk);
@@ -118,7 +118,7 @@ impl Pake for Cake {
             2 => {
                 // Decrypt
                 // We can make an EncappedKey from a ciphertext because (1) the encryption adds no extra bytes, and (2) there's no structure to a ciphertext
-                let mut encapped_key = EncappedKey::from_bytes(incoming_msg).unwrap();
+                let mut encapped_key = EncappedKey::from_bytes(incoming_msg).map_err(|_| ())?;
                 ideal_cipher_decrypt(0x01, &self.ssid, &self.password, encapped_key.as_mut());
 
                 // Decapsulate
-- 
2.43.0


From d10a4aab6f4f7ea29f8f520a3cd7ea5162c795a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:58 +0000
Subject: [PATCH 10/20] fix: return an error for malformed CPace messages

---
 latke/src/pake/cpace.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/latke/src/pake/cpace.rs b/latke/src/pake/cpace.rs
index 178cff5..cada211 100644
--- a/latke/src/pake/cpace.rs
+++ b/latke/src/pake/cpace.rs
@@ -66,7 +66,7 @@ impl Pake for Cpace {
             // Receive the first message, derive the session key, and send the second message (my first outgoing message)
             1 => {
                 // Process the first message
-                let packet = incoming_msg.try_into().unwrap();
+                let packet = incoming_msg.try_into().map_err(|_| ())?;
                 let st = CPace::step2(
                     &packet,
                     &self.password,
@@ -74,7 +74,7 @@ impl Pake for Cpace {
                     PROTO_ID_RESP,
                     Some(self.ssid),
                 )
-                .unwrap();
+                .map_err(|_| ())?;
 
                 // Derive the second message and the session key
                 self.output_key = Some(st.shared_keys().k1);
@@ -88,8 +88,9 @@ impl Pake for Cpace {
             // Receive the second message and derive the session key
             2 => {
                 // Process the second
-                let packet = incoming_msg.try_into().unwrap();
-                let shared_keys = self.step1_state.as_ref().unwrap().step3(&packet).unwrap();
+                let packet = incoming_msg.try_into().map_err(|_| ())?;
+                let step1_state = self.step1_state.as_ref().unwrap();
+                let shared_keys = step1_state.step3(&packet).map_err(|_| ())?;
 
                 // Derive the session key
                 self.output_key = Some(shared_keys.k1);
-- 
2.43.0


From cf61fca5d0e223cff7e32d54f3a918310daca4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:58 +0000
Subject: [PATCH 11/20] fix: return an error for malformed KC-SPAKE2 messages

---
 latke/src/pake/kc_spake2.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/latke/src/pake/kc_spake2.rs b/latke/src/pake/kc_spake2.rs
index 44149fe..632437f 100644
--- a/latke/src/pake/kc_spake2.rs
+++ b/latke/src/pake/kc_spake2.rs
@@ -68,7 +68,7 @@ impl Pake for KcSpake2 {
             1 => {
                 let pake_state: Spake2<Ed25519Group> =
                     core::mem::replace(&mut self.pake_state, None).unwrap();
-                let pake_key = pake_state.finish(&incoming_msg).unwrap();
+                let pake_key = pake_state.finish(&incoming_msg).map_err(|_| MacError)?;
 
                 // Out PAKE msg is the message computed in the constructor
                 let out_msg = self.first_outgoing_message.clone();
@@ -94,13 +94,16 @@ impl Pake for KcSpake2 {
             // Receive the second message and derive the session key
             2 => {
                 // Deserialize the incoming message as (pake_msg, mac)
+                if incoming_msg.len() < <MyMac as OutputSizeUser>::OutputSize::USIZE {
+                    return Err(MacError);
+                }
                 let (incoming_pake_msg, incoming_mac1) = incoming_msg
                     .split_at(incoming_msg.len() - <MyMac as OutputSizeUser>::OutputSize::USIZE);
 
                 // Finish the key negotiation of ht PAKE
                 let pake_state: Spake2<Ed25519Group> =
                     core::mem::replace(&mut self.pake_state, None).unwrap();
-                let pake_key = pake_state.finish(&incoming_pake_msg).unwrap();
+                let pake_key = pake_state.finish(&incoming_pake_msg).map_err(|_| MacError)?;
 
                 // From the PAKE key, derive the final session key and two MACs over the transcript
                 let mut sess_hash = [0u8; 64 + core::mem::size_of::<SessKey>()];
-- 
2.43.0


From 974bde66315f2132e17b4b1cc65dbd38151d449b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:58 +0000
Subject: [PATCH 12/20] fix: return an error for malformed Fiore-Gennaro IBKE
 messages

---
 latke/src/ibke/fg_ibke.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/latke/src/ibke/fg_ibke.rs b/latke/src/ibke/fg_ibke.rs
index cbe1b2d..e63b7a8 100644
--- a/latke/src/ibke/fg_ibke.rs
+++ b/latke/src/ibke/fg_ibke.rs
@@ -137,17 +137,20 @@ impl IdentityBasedKeyExchange for FgIbkeC {
             }
             1 => {
                 // Receive id, X, eph_pk
+                if incoming_msg.len() != Id::default().len() + 32 + 32 {
+                    return Err(MacError);
+                }
                 let rest = incoming_msg;
                 let (other_id, rest) = rest.split_at(Id::default().len());
                 let (incoming_X_bytes, incoming_eph_pk_bytes) = rest.split_at(32);
                 let incoming_X = CompressedRistretto::from_slice(incoming_X_bytes)
                     .unwrap()
                     .decompress()
-                    .unwrap();
+                    .ok_or(MacError)?;
                 let incoming_eph_pk = CompressedRistretto::from_slice(incoming_eph_pk_bytes)
                     .unwrap()
                     .decompress()
-                    .unwrap();
+                    .ok_or(MacError)?;
                 self.output_id = Some(other_id.try_into().unwrap());
 
                 // Generate an ephemeral keypair
@@ -195,6 +198,9 @@ impl IdentityBasedKeyExchange for FgIbkeC {
             }
             2 => {
                 // Receive id, X, eph_pk, mac
+                if incoming_msg.len() != Id::default().len() + 32 + 32 + 32 {
+                    return Err(MacError);
+                }
                 let rest = incoming_msg;
                 let (other_id, rest) = rest.split_at(Id::default().len());
                 let (incoming_X_bytes, rest) = rest.split_at(32);
@@ -202,11 +208,11 @@ impl IdentityBasedKeyExchange for FgIbkeC {
                 let incoming_X = CompressedRistretto::from_slice(incoming_X_bytes)
                     .unwrap()
                     .decompress()
-                    .unwrap();
+                    .ok_or(MacError)?;
                 let incoming_eph_pk = CompressedRistretto::from_slice(incoming_eph_pk_bytes)
                     .unwrap()
                     .decompress()
-                    .unwrap();
+                    .ok_or(MacError)?;
                 self.output_id = Some(other_id.try_into().unwrap());
 
                 // Do the key agreement arithmetic
-- 
2.43.0


From f9eb1cf79346c1953f2b6920b87c851c6647ee25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:58 +0000
Subject: [PATCH 13/20] fix: return an error for malformed HMQV-C messages

---
 latke/src/ibke/id_hmqv_c.rs | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/latke/src/ibke/id_hmqv_c.rs b/latke/src/ibke/id_hmqv_c.rs
index 2c10ab7..97a5b9a 100644
--- a/latke/src/ibke/id_hmqv_c.rs
+++ b/latke/src/ibke/id_hmqv_c.rs
@@ -7,7 +7,8 @@ use crate::{
 use blake2::digest::MacError;
 use curve25519_dalek::{ristretto::CompressedRistretto, RistrettoPoint, Scalar};
 use ed25519_dalek::{
-    Signature, Signer, SigningKey as SigPrivkey, Verifier, VerifyingKey as SigPubkey,
+    Signature, SignatureError, Signer, SigningKey as SigPrivkey, Verifier,
+    VerifyingKey as SigPubkey,
 };
 use hkdf::hmac::digest::Digest;
 use rand_core::{CryptoRng, RngCore};
@@ -36,20 +37,24 @@ impl IdHmqvCCert {
         .concat()
     }
 
-    fn from_bytes(bytes: &[u8]) -> Self {
+    fn from_bytes(bytes: &[u8]) -> Result<Self, IdHmqvCError> {
+        if bytes.len() != Self::size() {
+            return Err(SignatureError::new().into());
+        }
+
         let rest = bytes;
         let (id, rest) = rest.split_at(Id::default().len());
         let (upk, rest) = rest.split_at(32);
         let sig = rest;
 
-        IdHmqvCCert {
+        Ok(IdHmqvCCert {
             id: id.try_into().unwrap(),
             upk: CompressedRistretto::from_slice(upk)
                 .unwrap()
                 .decompress()
-                .unwrap(),
+                .ok_or(SignatureError::new())?,
             upk_sig: Signature::from_bytes(sig.try_into().unwrap()),
-        }
+        })
     }
 
     fn size() -> usize {
@@ -223,14 +228,17 @@ impl IdentityBasedKeyExchange for IdHmqvC {
             1 => {
                 // Receive the ephemeral pubkey and the cert
                 let rest = incoming_msg;
+                if rest.len() < 32 {
+                    return Err(MacError.into());
+                }
                 let (incoming_eph_pk_bytes, rest) = rest.split_at(32);
                 let incoming_cert_bytes = rest;
 
                 let incoming_eph_pk = CompressedRistretto::from_slice(incoming_eph_pk_bytes)
                     .unwrap()
                     .decompress()
-                    .unwrap();
-                let incoming_cert = IdHmqvCCert::from_bytes(incoming_cert_bytes);
+                    .ok_or(MacError)?;
+                let incoming_cert = IdHmqvCCert::from_bytes(incoming_cert_bytes)?;
 
                 // Verify the certificate
                 self.mpk.verify(
@@ -291,6 +299,9 @@ impl IdentityBasedKeyExchange for IdHmqvC {
             2 => {
                 // Receive the ephemeral pubkey and the cert
                 let rest = incoming_msg;
+                if rest.len() < 32 + 32 {
+                    return Err(MacError.into());
+                }
                 let (incoming_eph_pk_bytes, rest) = rest.split_at(32);
                 let (incoming_mac1, rest) = rest.split_at(32);
                 let incoming_cert_bytes = rest;
@@ -298,8 +309,8 @@ impl IdentityBasedKeyExchange for IdHmqvC {
                 let incoming_eph_pk = CompressedRistretto::from_slice(incoming_eph_pk_bytes)
                     .unwrap()
                     .decompress()
-                    .unwrap();
-                let incoming_cert = IdHmqvCCert::from_bytes(incoming_cert_bytes);
+                    .ok_or(MacError)?;
+                let incoming_cert = IdHmqvCCert::from_bytes(incoming_cert_bytes)?;
 
                 // Verify the certificate
                 self.mpk.verify(
-- 
2.43.0


From 4283d94093bdb6dd0b19c6d3697dd1263c0c2e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:58 +0000
Subject: [PATCH 14/20] fix: return an error for malformed signed
 Diffie-Hellman messages

---
 latke/src/ibke/id_sig_dh.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/latke/src/ibke/id_sig_dh.rs b/latke/src/ibke/id_sig_dh.rs
index 18abe4b..cb7fffd 100644
--- a/latke/src/ibke/id_sig_dh.rs
+++ b/latke/src/ibke/id_sig_dh.rs
@@ -34,21 +34,25 @@ impl SigDhCert {
         .concat()
     }
 
-    fn from_bytes(bytes: &[u8]) -> Self {
+    fn from_bytes(bytes: &[u8]) -> Result<Self, SignatureError> {
+        if bytes.len() != Self::size() {
+            return Err(SignatureError::new());
+        }
+
         let rest = bytes;
         let (id, rest) = rest.split_at(Id::default().len());
         let (sig_upk, rest) = rest.split_at(32);
         let (dh_upk, rest) = rest.split_at(32);
         let sig = rest;
 
-        SigDhCert {
+        Ok(SigDhCert {
             id: id.try_into().unwrap(),
             upk: (
-                SigPubkey::from_bytes(sig_upk.try_into().unwrap()).unwrap(),
+                SigPubkey::from_bytes(sig_upk.try_into().unwrap())?,
                 DhPubkey::from(<[u8; 32]>::try_from(dh_upk).unwrap()),
             ),
             upk_sig: Signature::from_bytes(sig.try_into().unwrap()),
-        }
+        })
     }
 
     fn size() -> usize {
@@ -196,6 +200,9 @@ impl IdentityBasedKeyExchange for IdSigDh {
             1 => {
                 // Receive the ephemeral pubkey, the signature, and the cert
                 let rest = incoming_msg;
+                if rest.len() < 32 + Signature::BYTE_SIZE {
+                    return Err(SignatureError::new());
+                }
                 let (incoming_eph_pk_bytes, rest) = rest.split_at(32);
                 let (incoming_sig_bytes, rest) = rest.split_at(Signature::BYTE_SIZE);
                 let incoming_cert_bytes = rest;
@@ -203,7 +210,7 @@ impl IdentityBasedKeyExchange for IdSigDh {
                 let incoming_eph_pk =
                     DhPubkey::from(<[u8; 32]>::try_from(incoming_eph_pk_bytes).unwrap());
                 let incoming_sig = Signature::from_bytes(incoming_sig_bytes.try_into().unwrap());
-                let incoming_cert = SigDhCert::from_bytes(incoming_cert_bytes);
+                let incoming_cert = SigDhCert::from_bytes(incoming_cert_bytes)?;
 
                 // Verify the certificate
                 self.mpk.verify(
@@ -269,6 +276,9 @@ impl IdentityBasedKeyExchange for IdSigDh {
             }
             2 => {
                 let rest = incoming_msg;
+                if rest.len() < 32 + Signature::BYTE_SIZE {
+                    return Err(SignatureError::new());
+                }
                 let (incoming_eph_pk_bytes, rest) = rest.split_at(32);
                 let (incoming_sig_bytes, rest) = rest.split_at(Signature::BYTE_SIZE);
                 let incoming_cert_bytes = rest;
@@ -276,7 +286,7 @@ impl IdentityBasedKeyExchange for IdSigDh {
                 let incoming_eph_pk =
                     DhPubkey::from(<[u8; 32]>::try_from(incoming_eph_pk_bytes).unwrap());
                 let incoming_sig = Signature::from_bytes(incoming_sig_bytes.try_into().unwrap());
-                let incoming_cert = SigDhCert::from_bytes(incoming_cert_bytes);
+                let incoming_cert = SigDhCert::from_bytes(incoming_cert_bytes)?;
 
                 // Verify the certificate
                 self.mpk.verify(
-- 
2.43.0


From a0bdf158969da87a56a509648ee83bb624bd65ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 15/20] fix: return an error for malformed SIGMA-R messages

---
 latke/src/ibke/id_sigma_r.rs | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/latke/src/ibke/id_sigma_r.rs b/latke/src/ibke/id_sigma_r.rs
index 95e7085..ebabb41 100644
--- a/latke/src/ibke/id_sigma_r.rs
+++ b/latke/src/ibke/id_sigma_r.rs
@@ -184,6 +184,21 @@ impl From<pqcrypto_traits::Error> for SigmaError {
     }
 }
 
+/// Checks the length of a received value
+fn check_len(name: &'static str, bytes: &[u8], expected: usize) -> Result<(), SigmaError> {
+    if bytes.len() == expected {
+        Ok(())
+    } else {
+        Err(SigmaError::InvalidLength(
+            pqcrypto_traits::Error::BadLength {
+                name,
+                actual: bytes.len(),
+                expected,
+            },
+        ))
+    }
+}
+
 impl From<IdSigmaSigError> for SigmaError {
     fn from(err: IdSigmaSigError) -> Self {
         Self::Sig(err)
@@ -240,7 +255,8 @@ impl SigmaCert {
             ),
             IdSigmaSignatureScheme::Ed25519 => (
                 IdSigmaPubkey::Ed25519(
-                    EdVerifyingKey::from_bytes(upk_bytes.try_into().unwrap()).unwrap(),
+                    EdVerifyingKey::from_bytes(upk_bytes.try_into().unwrap())
+                        .map_err(IdSigmaSigError::from)?,
                 ),
                 IdSigmaSignature::Ed25519(EdSignature::from_bytes(sig_bytes.try_into().unwrap())),
             ),
@@ -457,6 +473,8 @@ impl IdSigmaR {
             }
             1 => {
                 // Deserialize everything
+                let nonce_len = Nonce::default().len();
+                check_len("message 1", incoming_msg, nonce_len + KEM_PUBKEY_SIZE)?;
                 let (nonce, kem_pubkey_bytes) = incoming_msg.split_at(Nonce::default().len());
                 self.nonces.0 = Some(nonce.try_into().unwrap());
                 self.kem_pubkey = Some(KemPubkey::from_bytes(kem_pubkey_bytes));
@@ -490,8 +508,9 @@ impl IdSigmaR {
             }
             2 => {
                 // Deserialize everything
-                let (nonce_b, encapped_key_bytes) = incoming_msg.split_at(Nonce::default().len());
-                assert_eq!(encapped_key_bytes.len(), BYTES_CCA_DEC);
+                let nonce_len = Nonce::default().len();
+                check_len("message 2", incoming_msg, nonce_len + BYTES_CCA_DEC)?;
+                let (nonce_b, encapped_key_bytes) = incoming_msg.split_at(nonce_len);
 
                 // Save all the values and check that the ssid_a matches what we gave the peer
                 self.encapped_key = Some(EncappedKey::from_bytes(encapped_key_bytes)?);
@@ -550,6 +569,11 @@ impl IdSigmaR {
                 // Deserialize and decrypt everything
                 let ciphertext = incoming_msg;
                 let sig_mac_cert = auth_decrypt(self.enc_keys.as_ref().unwrap().0, ciphertext)?;
+                check_len(
+                    "sig, mac, cert",
+                    &sig_mac_cert,
+                    IdSigmaSignature::size(sig_ty) + 32 + SigmaCert::size(sig_ty),
+                )?;
                 let (sig_mac, incoming_cert_bytes) =
                     sig_mac_cert.split_at(sig_mac_cert.len() - SigmaCert::size(sig_ty));
                 let (sig, incoming_mac) = sig_mac.split_at(IdSigmaSignature::size(sig_ty));
@@ -622,6 +646,11 @@ impl IdSigmaR {
                 // Deserialize and decrypt everything
                 let ciphertext = incoming_msg;
                 let sig_mac_cert = auth_decrypt(self.enc_keys.as_ref().unwrap().1, ciphertext)?;
+                check_len(
+                    "sig, mac, cert",
+                    &sig_mac_cert,
+                    IdSigmaSignature::size(sig_ty) + 32 + SigmaCert::size(sig_ty),
+                )?;
                 let (sig_mac, incoming_cert_bytes) =
                     sig_mac_cert.split_at(sig_mac_cert.len() - SigmaCert::size(sig_ty));
                 let (sig, incoming_mac) = sig_mac.split_at(IdSigmaSignature::size(sig_ty));
-- 
2.43.0


From 34ee150940407e0f5726327fb19edc52ac2e4339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:40 +0000
Subject: [PATCH 16/20] fix: check the norm of z when verifying Dilithium
 signatures with AVX2

---
 pqcrypto/pqclean/crypto_sign/dilithium2/avx2/sign.c | 5 ++++-
 pqcrypto/pqclean/crypto_sign/dilithium3/avx2/sign.c | 5 ++++-
 pqcrypto/pqclean/crypto_sign/dilithium5/avx2/sign.c | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/pqcrypto/pqclean/crypto_sign/dilithium2/avx2/sign.c b/pqcrypto/pqclean/crypto_sign/dilithium2/avx2/sign.c
index 9c7a3ab..efa27b7 100644
--- a/pqcrypto/pqclean/crypto_sign/dilithium2/avx2/sign.c
+++ b/pqcrypto/pqclean/crypto_sign/dilithium2/avx2/sign.c
@@ -306,9 +306,12 @@ int PQCLEAN_DILITHIUM2_AVX2_crypto_sign_verify(const uint8_t *sig, size_t siglen
     PQCLEAN_DILITHIUM2_AVX2_poly_challenge(&c, sig);
     PQCLEAN_DILITHIUM2_AVX2_poly_ntt(&c);
 
-    /* Unpack z; shortness follows from unpacking */
+    /* Unpack z and check that it is short */
     for (i = 0; i < L; i++) {
         PQCLEAN_DILITHIUM2_AVX2_polyz_unpack(&z.vec[i], sig + CTILDEBYTES + i * POLYZ_PACKEDBYTES);
+        if (PQCLEAN_DILITHIUM2_AVX2_poly_chknorm(&z.vec[i], GAMMA1 - BETA)) {
+            return -1;
+        }
         PQCLEAN_DILITHIUM2_AVX2_poly_ntt(&z.vec[i]);
     }
 
diff --git a/pqcrypto/pqclean/crypto_sign/dilithium3/avx2/sign.c b/pqcrypto/pqclean/crypto_sign/dilithium3/avx2/sign.c
index d09c4de..566189a 100644
--- a/pqcrypto/pqclean/crypto_sign/dilithium3/avx2/sign.c
+++ b/pqcrypto/pqclean/crypto_sign/dilithium3/avx2/sign.c
@@ -316,9 +316,12 @@ int PQCLEAN_DILITHIUM3_AVX2_crypto_sign_verify(const uint8_t *sig, size_t siglen
     PQCLEAN_DILITHIUM3_AVX2_poly_challenge(&c, sig);
     PQCLEAN_DILITHIUM3_AVX2_poly_ntt(&c);
 
-    /* Unpack z; shortness follows from unpacking */
+    /* Unpack z and check that it is short */
     for (i = 0; i < L; i++) {
         PQCLEAN_DILITHIUM3_AVX2_polyz_unpack(&z.vec[i], sig + CTILDEBYTES + i * POLYZ_PACKEDBYTES);
+        if (PQCLEAN_DILITHIUM3_AVX2_poly_chknorm(&z.vec[i], GAMMA1 - BETA)) {
+            return -1;
+        }
         PQCLEAN_DILITHIUM3_AVX2_poly_ntt(&z.vec[i]);
     }
 
diff --git a/pqcrypto/pqclean/crypto_sign/dilithium5/avx2/sign.c b/pqcrypto/pqclean/crypto_sign/dilithium5/avx2/sign.c
index 916dd22..3cb52ba 100644
--- a/pqcrypto/pqclean/crypto_sign/dilithium5/avx2/sign.c
+++ b/pqcrypto/pqclean/crypto_sign/dilithium5/avx2/sign.c
@@ -326,9 +326,12 @@ int PQCLEAN_DILITHIUM5_AVX2_crypto_sign_verify(const uint8_t *sig, size_t siglen
     PQCLEAN_DILITHIUM5_AVX2_poly_challenge(&c, sig);
     PQCLEAN_DILITHIUM5_AVX2_poly_ntt(&c);
 
-    /* Unpack z; shortness follows from unpacking */
+    /* Unpack z and check that it is short */
     for (i = 0; i < L; i++) {
         PQCLEAN_DILITHIUM5_AVX2_polyz_unpack(&z.vec[i], sig + CTILDEBYTES + i * POLYZ_PACKEDBYTES);
+        if (PQCLEAN_DILITHIUM5_AVX2_poly_chknorm(&z.vec[i], GAMMA1 - BETA)) {
+            return -1;
+        }
         PQCLEAN_DILITHIUM5_AVX2_poly_ntt(&z.vec[i]);
     }
 
-- 
2.43.0


From 4ab749b6eed574ba68c1d5288a1ff0569346711d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:13 +0000
Subject: [PATCH 17/20] fix: return an error for malformed CHIP identity
 messages

---
 latke/src/chip.rs | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/latke/src/chip.rs b/latke/src/chip.rs
index 8753d80..295140c 100644
--- a/latke/src/chip.rs
+++ b/latke/src/chip.rs
@@ -11,6 +11,15 @@ use curve25519_dalek::{
 use hkdf::hmac::digest::Digest;
 use rand::{CryptoRng, RngCore};
 
+/// An error in a CHIP session
+#[derive(Debug)]
+pub enum ChipError<E> {
+    /// The identity message of the other party is not the encoding of two group elements
+    InvalidMessage,
+    /// The PAKE failed
+    Pake(E),
+}
+
 /// The password file for the CHIP protocol
 #[derive(Clone)]
 pub struct ChipPwfile {
@@ -87,7 +96,7 @@ impl<P: Pake> Chip<P> {
         &mut self,
         mut rng: R,
         incoming_msg: &[u8],
-    ) -> Result<Option<Vec<u8>>, P::Error> {
+    ) -> Result<Option<Vec<u8>>, ChipError<P::Error>> {
         // Remember the initiator does even steps and the responder does odd steps
         let out_msg = match self.next_step {
             0 => Some(self.ibke_step_1(&mut rng)),
@@ -97,27 +106,32 @@ impl<P: Pake> Chip<P> {
             }
             2 => {
                 self.tr_recv.push(incoming_msg.to_vec());
-                let ibke_out = self.ibke_step_2(incoming_msg);
+                let ibke_out = self.ibke_step_2(incoming_msg)?;
 
                 // Initialize the PAKE and send the first message
                 let mut pake_state = P::new(&mut rng, self.ssid, &ibke_out, PartyRole::Initiator);
-                let pake_msg = pake_state.run(&[])?;
+                let pake_msg = pake_state.run(&[]).map_err(ChipError::Pake)?;
                 self.pake_state = Some(pake_state);
 
                 pake_msg
             }
             3 => {
                 let last_msg = self.tr_recv.last().cloned().unwrap();
-                let ibke_out = self.ibke_step_2(&last_msg);
+                let ibke_out = self.ibke_step_2(&last_msg)?;
 
                 // Initialize the PAKE, process the first message, and send the second
                 let mut pake_state = P::new(&mut rng, self.ssid, &ibke_out, PartyRole::Responder);
-                let pake_msg = pake_state.run(incoming_msg)?;
+                let pake_msg = pake_state.run(incoming_msg).map_err(ChipError::Pake)?;
                 self.pake_state = Some(pake_state);
 
                 pake_msg
             }
-            _ => self.pake_state.as_mut().unwrap().run(incoming_msg)?,
+            _ => self
+                .pake_state
+                .as_mut()
+                .unwrap()
+                .run(incoming_msg)
+                .map_err(ChipError::Pake)?,
         };
 
         self.next_step += 2;
@@ -145,20 +159,22 @@ impl<P: Pake> Chip<P> {
     }
 
     /// The second step of the Fiore-Gennaro IBKE
-    fn ibke_step_2(&mut self, msg: &[u8]) -> Vec<u8> {
+    fn ibke_step_2<E>(&mut self, msg: &[u8]) -> Result<Vec<u8>, ChipError<E>> {
         self.tr_recv.push(msg.to_vec());
 
+        if msg.len() != 64 {
+            return Err(ChipError::InvalidMessage);
+        }
         let (other_X_bytes, other_R_bytes) = msg.split_at(32);
-        assert_eq!(other_R_bytes.len(), 32);
 
         let other_X = CompressedRistretto::from_slice(other_X_bytes)
             .unwrap()
             .decompress()
-            .unwrap();
+            .ok_or(ChipError::InvalidMessage)?;
         let other_R = CompressedRistretto::from_slice(other_R_bytes)
             .unwrap()
             .decompress()
-            .unwrap();
+            .ok_or(ChipError::InvalidMessage)?;
 
         let other_h = Scalar::from_hash(
             MyHash512::new()
@@ -189,7 +205,7 @@ impl<P: Pake> Chip<P> {
         ]
         .concat();
 
-        pake_input
+        Ok(pake_input)
     }
 }
 
-- 
2.43.0


From 95c91a51271dde7871ea6a15bc70a4ea41b081e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:41 +0000
Subject: [PATCH 18/20] fix: release descriptors when the device-file random
 source fails

---
 pqcrypto/pqclean/common/randombytes.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pqcrypto/pqclean/common/randombytes.c b/pqcrypto/pqclean/common/randombytes.c
index 24fea7c..8a69524 100644
--- a/pqcrypto/pqclean/common/randombytes.c
+++ b/pqcrypto/pqclean/common/randombytes.c
@@ -197,6 +197,9 @@ static int randombytes_linux_wait_for_entropy(int device) {
         strategy = PROC;
         // Open the entropy count file
         proc_file = fopen("/proc/sys/kernel/random/entropy_avail", "r");
+        if (proc_file == NULL) {
+            return -1;
+        }
     } else if (retcode != 0) {
         // Unrecoverable ioctl error
         return -1;
@@ -210,6 +213,9 @@ static int randombytes_linux_wait_for_entropy(int device) {
     } while (fd == -1 && errno == EINTR); /* EAGAIN will not occur */
     if (fd == -1) {
         /* Unrecoverable IO error */
+        if (strategy == PROC) {
+            fclose(proc_file);
+        }
         return -1;
     }
 
@@ -267,6 +273,7 @@ static int randombytes_linux_randombytes_urandom(void *buf, size_t n) {
         return -1;
     }
     if (randombytes_linux_wait_for_entropy(fd) == -1) {
+        close(fd);
         return -1;
     }
 
@@ -277,6 +284,7 @@ static int randombytes_linux_randombytes_urandom(void *buf, size_t n) {
             continue;
         }
         if (tmp == -1) {
+            close(fd);
             return -1;    /* Unrecoverable IO error */
         }
         offset += tmp;
-- 
2.43.0


From fc9460470f842d6b2c07e0904b5fb1282e509c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:41 +0000
Subject: [PATCH 19/20] fix: release descriptors of the device-file random
 source (pqcrypto-internals copy)

---
 pqcrypto/pqcrypto-internals/cfiles/randombytes.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pqcrypto/pqcrypto-internals/cfiles/randombytes.c b/pqcrypto/pqcrypto-internals/cfiles/randombytes.c
index f3bbbc2..ff0f443 100644
--- a/pqcrypto/pqcrypto-internals/cfiles/randombytes.c
+++ b/pqcrypto/pqcrypto-internals/cfiles/randombytes.c
@@ -172,6 +172,9 @@ static int randombytes_linux_wait_for_entropy(int device) {
         strategy = PROC;
         // Open the entropy count file
         proc_file = fopen("/proc/sys/kernel/random/entropy_avail", "r");
+        if (proc_file == NULL) {
+            return -1;
+        }
     } else if (retcode != 0) {
         // Unrecoverable ioctl error
         return -1;
@@ -185,6 +188,9 @@ static int randombytes_linux_wait_for_entropy(int device) {
     } while (fd == -1 && errno == EINTR); /* EAGAIN will not occur */
     if (fd == -1) {
         /* Unrecoverable IO error */
+        if (strategy == PROC) {
+            fclose(proc_file);
+        }
         return -1;
     }
 
@@ -244,6 +250,7 @@ static int randombytes_linux_randombytes_urandom(void *buf, size_t n) {
         return -1;
     }
     if (randombytes_linux_wait_for_entropy(fd) == -1) {
+        close(fd);
         return -1;
     }
 
@@ -254,11 +261,13 @@ static int randombytes_linux_randombytes_urandom(void *buf, size_t n) {
             continue;
         }
         if (tmp == -1) {
+            close(fd);
             return -1; /* Unrecoverable IO error */
         }
         offset += tmp;
         n -= tmp;
     }
+    close(fd);
     assert(n == 0);
     return 0;
 }
-- 
2.43.0


From 94b3598931fac0b857146d5c370df9821476243b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:44 +0000
Subject: [PATCH 20/20] fix: refuse stored signatures whose length exceeds
 their buffer

---
 pqcrypto/pqcrypto-dilithium/src/dilithium2.rs | 20 +++++++++++++++++
 pqcrypto/pqcrypto-dilithium/src/dilithium3.rs | 20 +++++++++++++++++
 pqcrypto/pqcrypto-dilithium/src/dilithium5.rs | 20 +++++++++++++++++
 .../pqcrypto-template/scheme/src/scheme.rs.j2 | 22 ++++++++++++++++++-
 4 files changed, 81 insertions(+), 1 deletion(-)

diff --git a/pqcrypto/pqcrypto-dilithium/src/dilithium2.rs b/pqcrypto/pqcrypto-dilithium/src/dilithium2.rs
index 35d4455..d5538fe 100644
--- a/pqcrypto/pqcrypto-dilithium/src/dilithium2.rs
+++ b/pqcrypto/pqcrypto-dilithium/src/dilithium2.rs
@@ -98,9 +98,29 @@ simple_struct!(
 pub struct DetachedSignature(
     #[cfg_attr(feature = "serialization", serde(with = "BigArray"))]
     [u8; ffi::PQCLEAN_DILITHIUM2_CLEAN_CRYPTO_BYTES],
+    #[cfg_attr(
+        feature = "serialization",
+        serde(deserialize_with = "deserialize_signature_len")
+    )]
     usize,
 );
 
+/// Reads the length of a stored signature, which cannot exceed the buffer it is stored in
+#[cfg(feature = "serialization")]
+fn deserialize_signature_len<'de, D: serde::Deserializer<'de>>(
+    deserializer: D,
+) -> core::result::Result<usize, D::Error> {
+    let len = usize::deserialize(deserializer)?;
+    if len > signature_bytes() {
+        return Err(serde::de::Error::custom(Error::BadLength {
+            name: "DetachedSignature",
+            actual: len,
+            expected: signature_bytes(),
+        }));
+    }
+    Ok(len)
+}
+
 // for internal use
 impl DetachedSignature {
     fn new() -> Self {
diff --git a/pqcrypto/pqcrypto-dilithium/src/dilithium3.rs b/pqcrypto/pqcrypto-dilithium/src/dilithium3.rs
index c31f935..631e13e 100644
--- a/pqcrypto/pqcrypto-dilithium/src/dilithium3.rs
+++ b/pqcrypto/pqcrypto-dilithium/src/dilithium3.rs
@@ -98,9 +98,29 @@ simple_struct!(
 pub struct DetachedSignature(
     #[cfg_attr(feature = "serialization", serde(with = "BigArray"))]
     [u8; ffi::PQCLEAN_DILITHIUM3_CLEAN_CRYPTO_BYTES],
+    #[cfg_attr(
+        feature = "serialization",
+        serde(deserialize_with = "deserialize_signature_len")
+    )]
     usize,
 );
 
+/// Reads the length of a stored signature, which cannot exceed the buffer it is stored in
+#[cfg(feature = "serialization")]
+fn deserialize_signature_len<'de, D: serde::Deserializer<'de>>(
+    deserializer: D,
+) -> core::result::Result<usize, D::Error> {
+    let len = usize::deserialize(deserializer)?;
+    if len > signature_bytes() {
+        return Err(serde::de::Error::custom(Error::BadLength {
+            name: "DetachedSignature",
+            actual: len,
+            expected: signature_bytes(),
+        }));
+    }
+    Ok(len)
+}
+
 // for internal use
 impl DetachedSignature {
     fn new() -> Self {
diff --git a/pqcrypto/pqcrypto-dilithium/src/dilithium5.rs b/pqcrypto/pqcrypto-dilithium/src/dilithium5.rs
index 8eb565c..5d93da5 100644
--- a/pqcrypto/pqcrypto-dilithium/src/dilithium5.rs
+++ b/pqcrypto/pqcrypto-dilithium/src/dilithium5.rs
@@ -98,9 +98,29 @@ simple_struct!(
 pub struct DetachedSignature(
     #[cfg_attr(feature = "serialization", serde(with = "BigArray"))]
     [u8; ffi::PQCLEAN_DILITHIUM5_CLEAN_CRYPTO_BYTES],
+    #[cfg_attr(
+        feature = "serialization",
+        serde(deserialize_with = "deserialize_signature_len")
+    )]
     usize,
 );
 
+/// Reads the length of a stored signature, which cannot exceed the buffer it is stored in
+#[cfg(feature = "serialization")]
+fn deserialize_signature_len<'de, D: serde::Deserializer<'de>>(
+    deserializer: D,
+) -> core::result::Result<usize, D::Error> {
+    let len = usize::deserialize(deserializer)?;
+    if len > signature_bytes() {
+        return Err(serde::de::Error::custom(Error::BadLength {
+            name: "DetachedSignature",
+            actual: len,
+            expected: signature_bytes(),
+        }));
+    }
+    Ok(len)
+}
+
 // for internal use
 impl DetachedSignature {
     fn new() -> Self {
diff --git a/pqcrypto/pqcrypto-template/scheme/src/scheme.rs.j2 b/pqcrypto/pqcrypto-template/scheme/src/scheme.rs.j2
index afc5d08..c3edf66 100644
--- a/pqcrypto/pqcrypto-template/scheme/src/scheme.rs.j2
+++ b/pqcrypto/pqcrypto-template/scheme/src/scheme.rs.j2
@@ -139,9 +139,29 @@ simple_struct!(SharedSecret, ffi::PQCLEAN_{{ NS_NAME }}_CRYPTO_BYTES);
 pub struct DetachedSignature(
     #[cfg_attr(feature = "serialization", serde(with = "BigArray"))]
     [u8; ffi::PQCLEAN_{{ NS_NAME }}_CRYPTO_BYTES],
-    usize
+    #[cfg_attr(
+        feature = "serialization",
+        serde(deserialize_with = "deserialize_signature_len")
+    )]
+    usize,
 );
 
+/// Reads the length of a stored signature, which cannot exceed the buffer it is stored in
+#[cfg(feature = "serialization")]
+fn deserialize_signature_len<'de, D: serde::Deserializer<'de>>(
+    deserializer: D,
+) -> core::result::Result<usize, D::Error> {
+    let len = usize::deserialize(deserializer)?;
+    if len > signature_bytes() {
+        return Err(serde::de::Error::custom(Error::BadLength {
+            name: "DetachedSignature",
+            actual: len,
+            expected: signature_bytes(),
+        }));
+    }
+    Ok(len)
+}
+
 // for internal use
 impl DetachedSignature {
     fn new() -> Self {
-- 
2.43.0

