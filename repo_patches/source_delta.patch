From a9f5554bd5401b69aee6d3f353eb20c75f3dcb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:19 +0000
Subject: [PATCH] fix: verifier rejects proofs with surplus pi or theta
 elements

For scalar-side equations verify() read only the first pi (MSMEG2,
quadratic) or theta (MSMEG1, quadratic) element and ignored any further
ones, so a malformed proof object with extra elements was accepted.
---
 src/verifier.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/verifier.rs b/src/verifier.rs
index a56a39f..7df96fa 100644
--- a/src/verifier.rs
+++ b/src/verifier.rs
@@ -58,6 +58,7 @@ impl<E: Pairing> Verifiable<E> for MSMEG1<E> {
     fn verify(&self, com_proof: &CProof<E>, crs: &CRS<E>) -> bool {
         assert_eq!(com_proof.equ_proofs.len(), 1);
         assert_eq!(self.get_type(), com_proof.equ_proofs[0].equ_type);
+        assert_eq!(com_proof.equ_proofs[0].theta.len(), 1);
         let is_parallel = true;
 
         let lin_a_com_y = ComT::<E>::pairing_sum(
@@ -92,6 +93,7 @@ impl<E: Pairing> Verifiable<E> for MSMEG2<E> {
     fn verify(&self, com_proof: &CProof<E>, crs: &CRS<E>) -> bool {
         assert_eq!(com_proof.equ_proofs.len(), 1);
         assert_eq!(self.get_type(), com_proof.equ_proofs[0].equ_type);
+        assert_eq!(com_proof.equ_proofs[0].pi.len(), 1);
         let is_parallel = true;
 
         let lin_a_com_y = ComT::<E>::pairing_sum(
@@ -126,6 +128,8 @@ impl<E: Pairing> Verifiable<E> for QuadEqu<E> {
     fn verify(&self, com_proof: &CProof<E>, crs: &CRS<E>) -> bool {
         assert_eq!(com_proof.equ_proofs.len(), 1);
         assert_eq!(self.get_type(), com_proof.equ_proofs[0].equ_type);
+        assert_eq!(com_proof.equ_proofs[0].pi.len(), 1);
+        assert_eq!(com_proof.equ_proofs[0].theta.len(), 1);
         let is_parallel = true;
 
         let lin_a_com_y = ComT::<E>::pairing_sum(
-- 
2.43.0

