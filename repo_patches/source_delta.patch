From a37d126ff657134029c42b6d509cedaaa387154d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:54 +0000
Subject: [PATCH 01/28] fix: re-randomize locally multiplied Shamir shares
 before opening them

The shares of a product computed locally lie on the product of the two sharing
polynomials. Sending them unmasked in mul_open (used by inv, inv_vec, div and
the PLONK prover) lets every receiver factor that polynomial and learn a factor
up to a few candidates.
---
 co-circom/co-plonk/src/lib.rs               |  2 +-
 co-circom/co-plonk/src/round2.rs            |  4 ++--
 mpc-core/src/protocols/shamir/arithmetic.rs | 20 +++++++++++++++-----
 3 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/co-circom/co-plonk/src/lib.rs b/co-circom/co-plonk/src/lib.rs
index 4b0da35..fabf5a9 100644
--- a/co-circom/co-plonk/src/lib.rs
+++ b/co-circom/co-plonk/src/lib.rs
@@ -252,7 +252,7 @@ where
     {
         let domain_size = zkey.domain_size;
         // TODO check and explain numbers
-        let num_pairs = domain_size * 222 + 15;
+        let num_pairs = domain_size * 227 + 17;
         let preprocessing = ShamirPreprocessing::new(num_parties, threshold, num_pairs, &nets[0])?;
         let mut state = ShamirState::from(preprocessing);
         // execute prover in MPC
diff --git a/co-circom/co-plonk/src/round2.rs b/co-circom/co-plonk/src/round2.rs
index b57a310..9555bf5 100644
--- a/co-circom/co-plonk/src/round2.rs
+++ b/co-circom/co-plonk/src/round2.rs
@@ -158,8 +158,8 @@ impl<'a, P: Pairing, T: CircomPlonkProver<P>, N: Network + 'static> Round2<'a, P
 
         let batched_mul_span = tracing::debug_span!("buffer z network round").entered();
         // TODO check and explain numbers
-        let mut state0 = state.fork(zkey.domain_size * 6 + 2)?;
-        let mut state1 = state.fork(zkey.domain_size * 7 + 2)?;
+        let mut state0 = state.fork(zkey.domain_size * 8 + 3)?;
+        let mut state1 = state.fork(zkey.domain_size * 10 + 3)?;
         let (num, den) = mpc_net::join(
             || T::array_prod_mul(false, &n1, &n2, &n3, &nets[0], &mut state0),
             || T::array_prod_mul(true, &d1, &d2, &d3, &nets[1], &mut state1),
diff --git a/mpc-core/src/protocols/shamir/arithmetic.rs b/mpc-core/src/protocols/shamir/arithmetic.rs
index 82fe0a8..35ceb5d 100644
--- a/mpc-core/src/protocols/shamir/arithmetic.rs
+++ b/mpc-core/src/protocols/shamir/arithmetic.rs
@@ -246,6 +246,17 @@ fn clone_from_slice(
 }
 */
 
+/// Produces a fresh degree-2t sharing of zero by consuming one correlated randomness pair.
+///
+/// The polynomial of a locally multiplied share is the product of the polynomials of its factors, so sending it as is allows a receiver to factor it. It has to be re-randomized before it is opened.
+pub(super) fn zero_share_2t<F: PrimeField, N: Network>(
+    net: &N,
+    state: &mut ShamirState<F>,
+) -> eyre::Result<F> {
+    let (r_t, r_2t) = state.get_pair(net)?;
+    Ok(r_2t - r_t)
+}
+
 /// This function performs a multiplication directly followed by an opening. This is preferred over Open(Mul(\[x\], \[y\])), since Mul performs resharing of the result for degree reduction. Thus, mul_open(\[x\], \[y\]) requires less communication in fewer rounds compared to Open(Mul(\[x\], \[y\])).
 fn mul_open<F: PrimeField, N: Network>(
     a: ShamirShare<F>,
@@ -253,8 +264,8 @@ fn mul_open<F: PrimeField, N: Network>(
     net: &N,
     state: &mut ShamirState<F>,
 ) -> eyre::Result<F> {
-    let mul = a * b;
-    let rcv = net.broadcast_next(state.num_parties, 2 * state.threshold + 1, mul.a)?;
+    let mul = a.a * b.a + zero_share_2t(net, state)?;
+    let rcv = net.broadcast_next(state.num_parties, 2 * state.threshold + 1, mul)?;
     Ok(super::reconstruct(&rcv, &state.open_lagrange_2t))
 }
 
@@ -268,9 +279,8 @@ pub fn mul_open_vec<F: PrimeField, N: Network>(
     let mul = a
         .iter()
         .zip(b.iter())
-        .map(|(a, b)| a * b)
-        .collect::<Vec<_>>();
-    let mul = ShamirShare::convert_vec(mul);
+        .map(|(a, b)| Ok(a.a * b.a + zero_share_2t(net, state)?))
+        .collect::<eyre::Result<Vec<_>>>()?;
 
     let rcv = net.broadcast_next(state.num_parties, 2 * state.threshold + 1, mul)?;
 
-- 
2.43.0


From db0924fd030f2369b1eff5ab8dc70230ee85ba14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:49 +0000
Subject: [PATCH 02/28] fix: re-randomize Shamir half point shares before
 opening them

A locally multiplied share lies on a polynomial that is determined by the
sharing polynomials of its factors. Opened unmasked, as in the last step of the
Groth16 prover, it lets receivers test guesses of the secret inputs.
---
 co-circom/co-groth16/src/groth16.rs         | 6 +++---
 mpc-core/src/protocols/shamir/pointshare.rs | 7 ++++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/co-circom/co-groth16/src/groth16.rs b/co-circom/co-groth16/src/groth16.rs
index dae99d3..71de165 100644
--- a/co-circom/co-groth16/src/groth16.rs
+++ b/co-circom/co-groth16/src/groth16.rs
@@ -445,11 +445,11 @@ where
         matrices: &ConstraintMatrices<P::ScalarField>,
         witness: ShamirSharedWitness<P::ScalarField>,
     ) -> eyre::Result<Proof<P>> {
-        // we need 3 number of corr rand pairs. 2 for two rand calls, 1 for scalar_mul
-        let num_pairs = 3;
+        // we need 6 number of corr rand pairs. 2 for two rand calls, 1 for scalar_mul, 3 for the opened points
+        let num_pairs = 6;
         let preprocessing = ShamirPreprocessing::new(num_parties, threshold, num_pairs, net0)?;
         let mut state0 = ShamirState::from(preprocessing);
-        let mut state1 = state0.fork(1)?;
+        let mut state1 = state0.fork(2)?;
         // execute prover in MPC
         Self::prove_inner::<N, R>(
             net0,
diff --git a/mpc-core/src/protocols/shamir/pointshare.rs b/mpc-core/src/protocols/shamir/pointshare.rs
index eba7872..49d301f 100644
--- a/mpc-core/src/protocols/shamir/pointshare.rs
+++ b/mpc-core/src/protocols/shamir/pointshare.rs
@@ -8,8 +8,8 @@ use ark_ff::Zero;
 use mpc_net::Network;
 
 use super::{
-    ShamirPointShare, ShamirPrimeFieldShare, ShamirState, network::ShamirNetworkExt, reconstruct,
-    reconstruct_point,
+    ShamirPointShare, ShamirPrimeFieldShare, ShamirState, arithmetic::zero_share_2t,
+    network::ShamirNetworkExt, reconstruct, reconstruct_point,
 };
 
 mod ops;
@@ -98,12 +98,13 @@ pub fn scalar_mul_local<C: CurveGroup>(a: &PointShare<C>, b: FieldShare<C::Scala
     (b * a).a
 }
 
-/// Performs opening of a point share.
+/// Performs opening of a degree-2t point share. The share is re-randomized before it is sent, which consumes one correlated randomness pair.
 pub fn open_half_point<C: CurveGroup, N: Network>(
     a: C,
     net: &N,
     state: &mut ShamirState<C::ScalarField>,
 ) -> eyre::Result<C> {
+    let a = a + C::generator() * zero_share_2t(net, state)?;
     let rcv = net.broadcast_next(state.num_parties, state.threshold * 2 + 1, a)?;
     let res = reconstruct_point(&rcv, &state.open_lagrange_2t);
     Ok(res)
-- 
2.43.0


From 8c2b43cbe6ae6d41997b69ee261fe9744695987a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:13 +0000
Subject: [PATCH 03/28] Guarded access to the Bristol circuit interface for
 verification

---
 .../rep3/yao/bristol_fashion/bristol.rs       | 55 +++++++++++++++++++
 .../protocols/rep3/yao/bristol_fashion/mod.rs |  3 +
 2 files changed, 58 insertions(+)

diff --git a/mpc-core/src/protocols/rep3/yao/bristol_fashion/bristol.rs b/mpc-core/src/protocols/rep3/yao/bristol_fashion/bristol.rs
index 82c4bc6..775d2f0 100644
--- a/mpc-core/src/protocols/rep3/yao/bristol_fashion/bristol.rs
+++ b/mpc-core/src/protocols/rep3/yao/bristol_fashion/bristol.rs
@@ -664,6 +664,61 @@ impl BristolFashionEvaluator for BoolBristolFashionEvaluator {
     }
 }
 
+/// Access to the crate-private circuit interface for the verification harness.
+#[allow(unexpected_cfgs)]
+#[cfg(co_snarks_verif)]
+pub mod verif_hooks {
+    use super::*;
+
+    /// [`BristolFashionCircuit::from_reader`]
+    pub fn from_reader(reader: impl Read) -> Result<BristolFashionCircuit, CircuitBuilderError> {
+        BristolFashionCircuit::from_reader(reader)
+    }
+    /// [`BristolFashionCircuit::from_file`]
+    pub fn from_file(path: impl AsRef<Path>) -> Result<BristolFashionCircuit, CircuitBuilderError> {
+        BristolFashionCircuit::from_file(path)
+    }
+    /// [`BristolFashionCircuit::evaluate`] on bits
+    pub fn evaluate(
+        circuit: &BristolFashionCircuit,
+        inputs: &[Vec<bool>],
+    ) -> Result<Vec<Vec<bool>>, CircuitExecutionError> {
+        circuit.evaluate(inputs, &mut BoolBristolFashionEvaluator)
+    }
+    /// [`LeveledBristolFashionCircuit::evaluate`] on bits
+    pub fn evaluate_leveled(
+        circuit: &BristolFashionCircuit,
+        inputs: &[Vec<bool>],
+    ) -> Result<Vec<Vec<bool>>, CircuitExecutionError> {
+        circuit
+            .clone()
+            .level()
+            .evaluate(inputs, &mut BoolBristolFashionEvaluator)
+    }
+    /// Number of AND gates, input wires and wires, of the circuit and of its leveled form
+    pub fn counts(circuit: &BristolFashionCircuit) -> [usize; 6] {
+        let l = circuit.clone().level();
+        [
+            circuit.num_and_gates(),
+            circuit.num_input_wires(),
+            circuit.num_wires(),
+            l.num_and_gates(),
+            l.num_input_wires(),
+            l.num_wires(),
+        ]
+    }
+    /// Input and output wires
+    pub fn wires(circuit: &BristolFashionCircuit) -> (Vec<Vec<usize>>, Vec<Vec<usize>>) {
+        (circuit.get_input_wires(), circuit.get_output_wires())
+    }
+    /// [`BristolFashionCircuit::write_circuit_file`]
+    pub fn write(circuit: &BristolFashionCircuit) -> Result<Vec<u8>, std::io::Error> {
+        let mut out = Vec::new();
+        circuit.write_circuit_file(&mut out)?;
+        Ok(out)
+    }
+}
+
 #[cfg(test)]
 mod tests {
 
diff --git a/mpc-core/src/protocols/rep3/yao/bristol_fashion/mod.rs b/mpc-core/src/protocols/rep3/yao/bristol_fashion/mod.rs
index 7cec3c3..84d4ab2 100644
--- a/mpc-core/src/protocols/rep3/yao/bristol_fashion/mod.rs
+++ b/mpc-core/src/protocols/rep3/yao/bristol_fashion/mod.rs
@@ -2,6 +2,9 @@
 
 use thiserror::Error;
 mod bristol;
+#[allow(unexpected_cfgs)]
+#[cfg(co_snarks_verif)]
+pub use bristol::verif_hooks;
 pub use bristol::{BristolFashionCircuit, BristolFashionEvaluator, LeveledBristolFashionCircuit};
 
 /// Errors that happen during parsing of circuits
-- 
2.43.0


From 94d01ba03d17b986546f8e785ddd0d8722bfe083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:09 +0000
Subject: [PATCH 04/28] fix: parse EQW gates that copy wire 0 or 1

---
 .../src/protocols/rep3/yao/bristol_fashion/bristol/parser.rs   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpc-core/src/protocols/rep3/yao/bristol_fashion/bristol/parser.rs b/mpc-core/src/protocols/rep3/yao/bristol_fashion/bristol/parser.rs
index 8a9cf15..675a3e3 100644
--- a/mpc-core/src/protocols/rep3/yao/bristol_fashion/bristol/parser.rs
+++ b/mpc-core/src/protocols/rep3/yao/bristol_fashion/bristol/parser.rs
@@ -145,8 +145,9 @@ fn xor_gate(input: &str) -> IResult<&str, BristolFashionGate> {
 }
 
 fn gate(input: &str) -> IResult<&str, BristolFashionGate> {
+    // EQW has to be tried before EQ, which is a prefix of it
     terminated(
-        alt((xor_gate, and_gate, inv_gate, eq_gate, eqw_gate)),
+        alt((xor_gate, and_gate, inv_gate, eqw_gate, eq_gate)),
         line_ending,
     )(input)
 }
-- 
2.43.0


From b5a024e2d037636fac21860796a8ddc077b05aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:09 +0000
Subject: [PATCH 05/28] fix: reject circuits declaring more inputs or outputs
 than wires

---
 .../rep3/yao/bristol_fashion/bristol/parser.rs         | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mpc-core/src/protocols/rep3/yao/bristol_fashion/bristol/parser.rs b/mpc-core/src/protocols/rep3/yao/bristol_fashion/bristol/parser.rs
index 675a3e3..e272b02 100644
--- a/mpc-core/src/protocols/rep3/yao/bristol_fashion/bristol/parser.rs
+++ b/mpc-core/src/protocols/rep3/yao/bristol_fashion/bristol/parser.rs
@@ -175,6 +175,14 @@ pub fn parse(input: &str) -> Result<UnverifiedBristolFashionCircuit, CircuitBuil
         .finish()
         .map_err(|e| CircuitBuilderError::ParseError(e.to_string()))?;
 
+    let num_inputs = inputs.iter().map(|&n| u64::from(n)).sum::<u64>();
+    let num_outputs = outputs.iter().map(|&n| u64::from(n)).sum::<u64>();
+    if num_inputs > u64::from(num_wires) || num_outputs > u64::from(num_wires) {
+        return Err(CircuitBuilderError::InvalidCircuit(format!(
+            "{num_inputs} inputs and {num_outputs} outputs declared for {num_wires} wires"
+        )));
+    }
+
     let mut cur_idx = 0;
 
     // first wires are inputs
@@ -188,7 +196,7 @@ pub fn parse(input: &str) -> Result<UnverifiedBristolFashionCircuit, CircuitBuil
         .collect();
 
     // last wires are outputs
-    let mut cur_idx = (num_wires - outputs.iter().sum::<u32>()) as usize;
+    let mut cur_idx = num_wires as usize - num_outputs as usize;
     let output_wires = outputs
         .into_iter()
         .map(|wires_i| {
-- 
2.43.0


From 734980a1016050e23e98f319ecf4fef96f1f20e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:09 +0000
Subject: [PATCH 06/28] fix: reject circuits using wire ids beyond the declared
 wire count

---
 .../protocols/rep3/yao/bristol_fashion/bristol/builder.rs  | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mpc-core/src/protocols/rep3/yao/bristol_fashion/bristol/builder.rs b/mpc-core/src/protocols/rep3/yao/bristol_fashion/bristol/builder.rs
index 8bf0eca..06c8d38 100644
--- a/mpc-core/src/protocols/rep3/yao/bristol_fashion/bristol/builder.rs
+++ b/mpc-core/src/protocols/rep3/yao/bristol_fashion/bristol/builder.rs
@@ -124,6 +124,13 @@ impl UnverifiedBristolFashionCircuit {
             )));
         }
 
+        if let Some(id) = wires.iter().find(|&&id| id >= self.num_wires) {
+            return Err(CircuitBuilderError::InvalidCircuit(format!(
+                "wire id {id} out of range for a circuit with {} wires",
+                self.num_wires
+            )));
+        }
+
         let UnverifiedBristolFashionCircuit {
             num_wires: _,
             input_wires,
-- 
2.43.0


From 84dc3c04cae50eefbe767b27875fcf16d93c8cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:09 +0000
Subject: [PATCH 07/28] fix: level circuits whose first level has only AND
 gates

---
 mpc-core/src/protocols/rep3/yao/bristol_fashion/bristol.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mpc-core/src/protocols/rep3/yao/bristol_fashion/bristol.rs b/mpc-core/src/protocols/rep3/yao/bristol_fashion/bristol.rs
index 775d2f0..e0f764f 100644
--- a/mpc-core/src/protocols/rep3/yao/bristol_fashion/bristol.rs
+++ b/mpc-core/src/protocols/rep3/yao/bristol_fashion/bristol.rs
@@ -219,8 +219,7 @@ impl BristolFashionCircuit {
         }
 
         let levels: Vec<_> = levels
-            .into_values()
-            .enumerate()
+            .into_iter()
             .flat_map(|(and_level, internal_levels)| {
                 internal_levels
                     .into_values()
-- 
2.43.0


From 2628c33e4f751d1af9bc4e4375b3a28ddec3998f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:39 +0000
Subject: [PATCH 08/28] fix: refuse Groth16 verification with a wrong number of
 public inputs

---
 co-circom/co-groth16/src/verifier.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/co-circom/co-groth16/src/verifier.rs b/co-circom/co-groth16/src/verifier.rs
index 40fd42e..da4b060 100644
--- a/co-circom/co-groth16/src/verifier.rs
+++ b/co-circom/co-groth16/src/verifier.rs
@@ -19,6 +19,13 @@ impl<P: Pairing> Groth16<P> {
         proof: &Proof<P>,
         public_inputs: &[P::ScalarField],
     ) -> Result<(), VerificationError> {
+        // arkworks silently ignores surplus inputs and treats missing ones as zero
+        if public_inputs.len() + 1 != vk.gamma_abc_g1.len() {
+            return Err(VerificationError::Malformed(eyre::eyre!(
+                "verification key does not fit {} public inputs",
+                public_inputs.len(),
+            )));
+        }
         let vk = ark_groth16::prepare_verifying_key(vk);
         let proof_valid = ArkworksGroth16::<P>::verify_proof(&vk, proof, public_inputs)
             .map_err(eyre::Report::from)?;
-- 
2.43.0


From 9d9eb4071db3eb1f0540ba2023f654d2082a0b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:34 +0000
Subject: [PATCH 09/28] fix: report a too short PLONK witness as an error

---
 co-circom/co-plonk/src/lib.rs   | 11 ++++++++---
 co-circom/co-plonk/src/types.rs |  4 +++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/co-circom/co-plonk/src/lib.rs b/co-circom/co-plonk/src/lib.rs
index fabf5a9..fba4567 100644
--- a/co-circom/co-plonk/src/lib.rs
+++ b/co-circom/co-plonk/src/lib.rs
@@ -144,13 +144,18 @@ mod plonk_utils {
         tracing::trace!("get witness on {index}");
         let result = if index <= zkey.n_public {
             tracing::trace!("indexing public input!");
-            T::promote_to_trivial_share(id, witness.public_inputs[index])
+            let public = witness.public_inputs.get(index);
+            let public = public.ok_or(PlonkProofError::CorruptedWitness(index))?;
+            T::promote_to_trivial_share(id, *public)
         } else if index < zkey.n_vars - zkey.n_additions {
             tracing::trace!("indexing private input!");
-            witness.witness[index - zkey.n_public - 1]
+            let private = witness.witness.get(index - zkey.n_public - 1);
+            *private.ok_or(PlonkProofError::CorruptedWitness(index))?
         } else if index < zkey.n_vars {
             tracing::trace!("indexing additions!");
-            witness.addition_witness[index + zkey.n_additions - zkey.n_vars].to_owned()
+            let addition = index + zkey.n_additions - zkey.n_vars;
+            let addition = witness.addition_witness.get(addition);
+            *addition.ok_or(PlonkProofError::CorruptedWitness(index))?
         } else {
             tracing::warn!("Witness corrupted with invalid Index {index}");
             return Err(PlonkProofError::CorruptedWitness(index));
diff --git a/co-circom/co-plonk/src/types.rs b/co-circom/co-plonk/src/types.rs
index 2db8f31..37e032b 100644
--- a/co-circom/co-plonk/src/types.rs
+++ b/co-circom/co-plonk/src/types.rs
@@ -116,7 +116,9 @@ impl<P: Pairing, T: CircomPlonkProver<P>> PlonkWitness<P, T> {
     ) -> Self {
         // we have a Groth16 witness, therefore there is a leading one in the witness.
         // we just write zero here instead of one to mirror snarkjs.
-        shared_witness.public_inputs[0] = P::ScalarField::zero();
+        if let Some(first) = shared_witness.public_inputs.first_mut() {
+            *first = P::ScalarField::zero();
+        }
         Self {
             public_inputs: shared_witness.public_inputs,
             witness: shared_witness.witness,
-- 
2.43.0


From c5dfd378c3aacdf0519edc2fab7bfc9dc04dd686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:24 +0000
Subject: [PATCH 10/28] fix: flushing a blocking network whose writer thread
 has ended reports it

A bounded queue keeps its messages after its receiver is gone, so a flush queued
while the writer thread fails was never acknowledged nor refused: without a flush
timeout flush() and dropping the network waited for ever.
---
 mpc-net/src/blocking.rs | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/mpc-net/src/blocking.rs b/mpc-net/src/blocking.rs
index 84e0830..de2bbea 100644
--- a/mpc-net/src/blocking.rs
+++ b/mpc-net/src/blocking.rs
@@ -14,7 +14,7 @@ use std::{
 };
 
 use bytes::{Buf as _, Bytes, BytesMut};
-use crossbeam_channel::{Receiver, Sender, bounded};
+use crossbeam_channel::{Receiver, Sender, bounded, never, select};
 use eyre::ContextCompat as _;
 use intmap::IntMap;
 
@@ -26,7 +26,8 @@ pub(crate) const SEND_QUEUE_CAP: usize = 32;
 /// Capacity (in frames) of each per-peer receive queue.
 pub(crate) const RECV_QUEUE_CAP: usize = 32;
 
-type SendEntry = (Sender<WriteMsg>, AtomicUsize);
+/// Queue to the writer thread, a channel that is closed once that thread has ended, and the byte counter.
+type SendEntry = (Sender<WriteMsg>, Receiver<()>, AtomicUsize);
 type RecvEntry = (Receiver<eyre::Result<Bytes>>, AtomicUsize);
 
 /// A message handed to a peer's background writer thread.
@@ -75,9 +76,13 @@ impl BlockingChannels {
     {
         let max_frame_length = self.max_frame_length;
         let (send_tx, send_rx) = bounded(SEND_QUEUE_CAP);
-        std::thread::spawn(move || writer_loop(write_stream, send_rx));
+        let (writer_alive, writer_ended) = bounded(0);
+        std::thread::spawn(move || {
+            let _alive = writer_alive;
+            writer_loop(write_stream, send_rx)
+        });
         self.send
-            .insert(other_id, (send_tx, AtomicUsize::default()));
+            .insert(other_id, (send_tx, writer_ended, AtomicUsize::default()));
 
         let (recv_tx, recv_rx) = bounded(RECV_QUEUE_CAP);
         std::thread::spawn(move || reader_loop(read_stream, recv_tx, max_frame_length));
@@ -91,7 +96,7 @@ impl BlockingChannels {
         if data.len() > self.max_frame_length {
             eyre::bail!("frame len {} > max {}", data.len(), self.max_frame_length);
         }
-        let (tx, sent_bytes) = self.send.get(to).context("party id out-of-bounds")?;
+        let (tx, _, sent_bytes) = self.send.get(to).context("party id out-of-bounds")?;
         sent_bytes.fetch_add(data.len(), Ordering::Relaxed);
         // The payload moves into the queue unchanged; the writer thread prepends the
         // length prefix with a vectored write (no copy of the payload).
@@ -114,18 +119,23 @@ impl BlockingChannels {
 
     /// Drain every peer's write pump and flush its sink, surfacing any failure.
     pub(crate) fn flush(&self) -> eyre::Result<()> {
-        for (to, (tx, _)) in self.send.iter() {
+        for (to, (tx, writer_ended, _)) in self.send.iter() {
             let (ack_tx, ack_rx) = bounded(1);
             tx.send(WriteMsg::Flush(ack_tx))
                 .map_err(|_| eyre::eyre!("writer thread for party {to} terminated"))?;
-            let result = if let Some(timeout) = self.flush_timeout {
-                ack_rx
-                    .recv_timeout(timeout)
-                    .map_err(|_| eyre::eyre!("timed out flushing send queue for party {to}"))?
-            } else {
-                ack_rx
-                    .recv()
-                    .map_err(|_| eyre::eyre!("writer thread for party {to} terminated"))?
+            // A bounded queue keeps its messages when the receiving side goes away, so if the
+            // writer thread has ended the ack channel is never closed: wait for either.
+            let timeout = self
+                .flush_timeout
+                .map_or_else(never, crossbeam_channel::after);
+            let result = select! {
+                recv(ack_rx) -> ack => ack
+                    .map_err(|_| eyre::eyre!("writer thread for party {to} terminated"))?,
+                recv(writer_ended) -> _ => match ack_rx.try_recv() {
+                    Ok(ack) => ack,
+                    Err(_) => eyre::bail!("writer thread for party {to} terminated"),
+                },
+                recv(timeout) -> _ => eyre::bail!("timed out flushing send queue for party {to}"),
             };
             if let Err(e) = result {
                 eyre::bail!("failed to flush send queue for party {to}: {e}");
@@ -137,7 +147,7 @@ impl BlockingChannels {
     /// Application-level (sent, received) byte counts per peer.
     pub(crate) fn stats(&self, my_id: usize) -> ConnectionStats {
         let mut stats = std::collections::BTreeMap::new();
-        for (id, (_, sent_bytes)) in self.send.iter() {
+        for (id, (_, _, sent_bytes)) in self.send.iter() {
             let recv_bytes = &self.recv.get(id).expect("was in send so must be in recv").1;
             stats.insert(
                 id,
-- 
2.43.0


From 84ad9a9177530df9f155bb8ec23734c46eff0ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:05 +0000
Subject: [PATCH 11/28] fix: a connection without handshake does not hold up
 other sessions

---
 mpc-net/src/tcp_session.rs          | 17 ++++++++++++++---
 mpc-net/src/tcp_session_blocking.rs | 12 ++++++++++--
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/mpc-net/src/tcp_session.rs b/mpc-net/src/tcp_session.rs
index 8a4feab..cfd4047 100644
--- a/mpc-net/src/tcp_session.rs
+++ b/mpc-net/src/tcp_session.rs
@@ -175,9 +175,20 @@ impl TcpNetworkHandler {
                 loop {
                     if let Ok((stream, addr)) = listener.accept().await {
                         tracing::trace!("accepted incoming connection from {addr}");
-                        if let Err(err) = streams.insert(stream).await {
-                            tracing::warn!("failed to insert incoming connection: {err:?}");
-                        }
+                        // the handshake is read in a task of its own, so that a connection that
+                        // does not send it does not hold up the ones after it
+                        let streams = streams.clone();
+                        tokio::spawn(async move {
+                            match tokio::time::timeout(time_to_idle, streams.insert(stream)).await {
+                                Ok(Ok(())) => {}
+                                Ok(Err(err)) => {
+                                    tracing::warn!("failed to insert incoming connection: {err:?}");
+                                }
+                                Err(_) => {
+                                    tracing::warn!("incoming connection sent no handshake in time");
+                                }
+                            }
+                        });
                     } else {
                         tracing::warn!("failed to accept incoming connection");
                     }
diff --git a/mpc-net/src/tcp_session_blocking.rs b/mpc-net/src/tcp_session_blocking.rs
index 53ed3e0..3188d5d 100644
--- a/mpc-net/src/tcp_session_blocking.rs
+++ b/mpc-net/src/tcp_session_blocking.rs
@@ -196,8 +196,16 @@ impl TcpNetworkHandler {
                 loop {
                     if let Ok((stream, addr)) = listener.accept() {
                         tracing::trace!("accepted incoming connection from {addr}");
-                        if let Err(err) = streams.insert(stream) {
-                            tracing::warn!("failed to insert incoming connection: {err:?}");
+                        // the handshake is read in a thread of its own, so that a connection that
+                        // does not send it does not hold up the ones after it
+                        let streams = streams.clone();
+                        let handshake = std::thread::Builder::new().spawn(move || {
+                            if let Err(err) = streams.insert(stream) {
+                                tracing::warn!("failed to insert incoming connection: {err:?}");
+                            }
+                        });
+                        if let Err(err) = handshake {
+                            tracing::warn!("failed to spawn handshake thread: {err:?}");
                         }
                     } else {
                         tracing::warn!("failed to accept incoming connection");
-- 
2.43.0


From e66ef60bd1a9dacabc7c011f159f6c25d0a81b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:05 +0000
Subject: [PATCH 12/28] fix: a session attempt given up does not swallow the
 next connection

---
 mpc-net/src/tcp_session.rs          | 7 ++++++-
 mpc-net/src/tcp_session_blocking.rs | 9 +++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/mpc-net/src/tcp_session.rs b/mpc-net/src/tcp_session.rs
index cfd4047..74c71dd 100644
--- a/mpc-net/src/tcp_session.rs
+++ b/mpc-net/src/tcp_session.rs
@@ -121,8 +121,13 @@ impl TcpStreams {
             }
             Some((MaybeTcpStream::Waiter(tx), _)) => {
                 tracing::trace!("found waiter, sending stream");
-                if tx.send(stream).is_err() {
+                if let Err(stream) = tx.send(stream) {
+                    // the waiter has given up, keep the connection for the next one
                     tracing::warn!("failed to send stream to waiter, receiver dropped");
+                    streams.insert(
+                        (session_id, party_id),
+                        (MaybeTcpStream::TcpStream(stream), Instant::now()),
+                    );
                 }
             }
             None => {
diff --git a/mpc-net/src/tcp_session_blocking.rs b/mpc-net/src/tcp_session_blocking.rs
index 3188d5d..aa51f90 100644
--- a/mpc-net/src/tcp_session_blocking.rs
+++ b/mpc-net/src/tcp_session_blocking.rs
@@ -7,7 +7,7 @@ use std::sync::{Arc, Mutex};
 use std::time::{Duration, Instant};
 
 use byteorder::{NetworkEndian, ReadBytesExt as _, WriteBytesExt as _};
-use crossbeam_channel::Sender;
+use crossbeam_channel::{SendError, Sender};
 use eyre::Context as _;
 use serde::Deserialize;
 
@@ -141,8 +141,13 @@ impl TcpStreams {
             }
             Some((MaybeTcpStream::Waiter(tx), _)) => {
                 tracing::trace!("found waiter, sending stream");
-                if tx.send(stream).is_err() {
+                if let Err(SendError(stream)) = tx.send(stream) {
+                    // the waiter has given up, keep the connection for the next one
                     tracing::warn!("failed to send stream to waiter, receiver dropped");
+                    streams.insert(
+                        (session_id, party_id),
+                        (MaybeTcpStream::TcpStream(stream), Instant::now()),
+                    );
                 }
             }
             None => {
-- 
2.43.0


From 2560e58a5225a0788a104c4014ccb8430b74cab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:25 +0000
Subject: [PATCH 13/28] fix: size the index of a batched curve table lookup by
 the tables' length

---
 mpc-core/src/protocols/rep3_ring/gadgets/lut_curve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc-core/src/protocols/rep3_ring/gadgets/lut_curve.rs b/mpc-core/src/protocols/rep3_ring/gadgets/lut_curve.rs
index 6dadaaf..ea71fe4 100644
--- a/mpc-core/src/protocols/rep3_ring/gadgets/lut_curve.rs
+++ b/mpc-core/src/protocols/rep3_ring/gadgets/lut_curve.rs
@@ -51,7 +51,7 @@ pub fn read_public_luts<C: CurveGroup, T: IntRing2k, N: Network>(
 where
     Standard: Distribution<T>,
 {
-    let n = luts.len();
+    let n = luts.iter().map(|l| l.len()).max().unwrap();
     let k = n.next_power_of_two().ilog2() as usize;
 
     assert!(k <= T::K);
-- 
2.43.0


From 8d7b84f45cdf02beebbc581e0305472f83727e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:25 +0000
Subject: [PATCH 14/28] fix: look up field tables of different lengths with one
 index

---
 mpc-core/src/protocols/rep3_ring/gadgets/lut_field.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc-core/src/protocols/rep3_ring/gadgets/lut_field.rs b/mpc-core/src/protocols/rep3_ring/gadgets/lut_field.rs
index 9293422..c8f90db 100644
--- a/mpc-core/src/protocols/rep3_ring/gadgets/lut_field.rs
+++ b/mpc-core/src/protocols/rep3_ring/gadgets/lut_field.rs
@@ -185,7 +185,7 @@ where
             for f1 in e_.iter() {
                 let index = j ^ c;
                 j += 1;
-                if index >= n {
+                if index >= lut.len() {
                     // The pad with 0 case
                     continue;
                 }
-- 
2.43.0


From 7d57e5a9ba08d48c194c04424505daaba3323ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:25 +0000
Subject: [PATCH 15/28] fix: read public field tables with two entries

---
 mpc-core/src/protocols/rep3_ring/lut_field.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/mpc-core/src/protocols/rep3_ring/lut_field.rs b/mpc-core/src/protocols/rep3_ring/lut_field.rs
index 136a9b8..1bb8a27 100644
--- a/mpc-core/src/protocols/rep3_ring/lut_field.rs
+++ b/mpc-core/src/protocols/rep3_ring/lut_field.rs
@@ -84,9 +84,8 @@ impl<F: FieldUint> Rep3FieldLookupTable<F> {
         let bits = rep3::conversion::a2b_selector(index, net0, state0)?;
         let k = len.next_power_of_two().ilog2() as usize;
 
-        let result = if k == 1 {
-            Self::get_from_public_luts_internal::<Bit, _>(bits, luts, net0, net1, state0, state1)?
-        } else if k <= 8 {
+        // The low depth lookup works on an even number of index bits
+        let result = if k <= 8 {
             Self::get_from_public_luts_internal::<u8, _>(bits, luts, net0, net1, state0, state1)?
         } else if k <= 16 {
             Self::get_from_public_luts_internal::<u16, _>(bits, luts, net0, net1, state0, state1)?
@@ -333,9 +332,8 @@ impl<F: FieldUint> LookupTableProvider<F> for Rep3FieldLookupTable<F> {
         let bits = rep3::conversion::a2b_selector(index, net0, state0)?;
         let k = len.next_power_of_two().ilog2() as usize;
 
-        let result = if k == 1 {
-            Self::get_from_lut_internal::<Bit, _>(bits, lut, net0, net1, state0, state1)?
-        } else if k <= 8 {
+        // The low depth lookup works on an even number of index bits
+        let result = if k <= 8 {
             Self::get_from_lut_internal::<u8, _>(bits, lut, net0, net1, state0, state1)?
         } else if k <= 16 {
             Self::get_from_lut_internal::<u16, _>(bits, lut, net0, net1, state0, state1)?
-- 
2.43.0


From 4504dc5b5f8322a5ee5b9d58af4c3881bc30514b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:19 +0000
Subject: [PATCH 16/28] fix: look up in tables with a single entry

---
 mpc-core/src/protocols/rep3_ring/gadgets/ohv.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mpc-core/src/protocols/rep3_ring/gadgets/ohv.rs b/mpc-core/src/protocols/rep3_ring/gadgets/ohv.rs
index f629da6..3c9e3db 100644
--- a/mpc-core/src/protocols/rep3_ring/gadgets/ohv.rs
+++ b/mpc-core/src/protocols/rep3_ring/gadgets/ohv.rs
@@ -25,7 +25,6 @@ pub fn rand_ohv<T: IntRing2k, N: Network>(
 where
     Standard: Distribution<T>,
 {
-    debug_assert!(k >= 1);
     debug_assert!(k <= T::K); // Make sure datatype is large enough for bitsize
     let (mut a, mut b) = state.rngs.rand.random_elements::<T>();
     if k != T::K {
@@ -49,9 +48,14 @@ pub fn ohv<T: IntRing2k, N: Network>(
     net: &N,
     state: &mut Rep3State,
 ) -> eyre::Result<Vec<Rep3RingShare<Bit>>> {
-    debug_assert!(k > 0);
     debug_assert!(k <= T::K); // Make sure datatype is large enough for bitsize
 
+    if k == 0 {
+        // A single entry, which is always the selected one
+        let one = RingElement(Bit::new(true));
+        return Ok(vec![binary::promote_to_trivial_share(state.id, &one)]);
+    }
+
     let new_k = k - 1;
     let vk = bits.get_bit(new_k);
 
-- 
2.43.0


From 265cbe4e8cdd158e5acf637da85d0d00f703ce0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:19 +0000
Subject: [PATCH 17/28] fix: divide an odd number of odd-width values by public
 ones

---
 mpc-core/src/protocols/rep3/yao/circuits.rs | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/mpc-core/src/protocols/rep3/yao/circuits.rs b/mpc-core/src/protocols/rep3/yao/circuits.rs
index e5e9744..9f3b9e0 100644
--- a/mpc-core/src/protocols/rep3/yao/circuits.rs
+++ b/mpc-core/src/protocols/rep3/yao/circuits.rs
@@ -2010,8 +2010,6 @@ impl GarbledCircuits {
     ) -> Result<BinaryBundle<G::Item>, G::Error> {
         debug_assert_eq!(wires_x1.size(), wires_x2.size());
         let length = wires_x1.size();
-        debug_assert_eq!(length % 2, 0);
-
         debug_assert_eq!(length % input_bitlen, 0);
         debug_assert_eq!(wires_c.size(), length);
         debug_assert_eq!(divisor.len(), length);
@@ -2046,8 +2044,6 @@ impl GarbledCircuits {
     ) -> Result<BinaryBundle<G::Item>, G::Error> {
         debug_assert_eq!(wires_x1.size(), wires_x2.size());
         let length = wires_x1.size();
-        debug_assert_eq!(length % 2, 0);
-
         debug_assert_eq!(length % input_bitlen, 0);
         debug_assert_eq!(wires_c.size(), length);
         debug_assert_eq!(dividend.len(), length);
@@ -2124,8 +2120,6 @@ impl GarbledCircuits {
         let input_bitlen = F::MODULUS_BIT_SIZE as usize;
         debug_assert_eq!(wires_x1.size(), wires_x2.size());
         let length = wires_x1.size();
-        debug_assert_eq!(length % 2, 0);
-
         debug_assert_eq!(length % input_bitlen, 0);
         debug_assert_eq!(wires_c.size(), length);
         debug_assert_eq!(divisor.len(), length);
@@ -2163,8 +2157,6 @@ impl GarbledCircuits {
         let input_bitlen = F::MODULUS_BIT_SIZE as usize;
         debug_assert_eq!(wires_x1.size(), wires_x2.size());
         let length = wires_x1.size();
-        debug_assert_eq!(length % 2, 0);
-
         debug_assert_eq!(length % input_bitlen, 0);
         debug_assert_eq!(wires_c.size(), length);
         debug_assert_eq!(dividend.len(), length);
-- 
2.43.0


From 8d33db9977be708394c8696b3f3ea3d0b0c07586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:19 +0000
Subject: [PATCH 18/28] fix: mask every point of a batch on its own when
 converting to coordinates

---
 mpc-core/src/protocols/rep3/conversion.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mpc-core/src/protocols/rep3/conversion.rs b/mpc-core/src/protocols/rep3/conversion.rs
index 6c270c5..2c9ae96 100644
--- a/mpc-core/src/protocols/rep3/conversion.rs
+++ b/mpc-core/src/protocols/rep3/conversion.rs
@@ -930,8 +930,12 @@ where
     let mut x2_x = Vec::with_capacity(input_len);
     let mut x2_y = Vec::with_capacity(input_len);
 
-    let r_x = vec![state.rngs.rand.masking_field_element::<C::BaseField>(); input_len];
-    let r_y = vec![state.rngs.rand.masking_field_element::<C::BaseField>(); input_len];
+    let r_x = (0..input_len)
+        .map(|_| state.rngs.rand.masking_field_element::<C::BaseField>())
+        .collect::<Vec<_>>();
+    let r_y = (0..input_len)
+        .map(|_| state.rngs.rand.masking_field_element::<C::BaseField>())
+        .collect::<Vec<_>>();
 
     for (x, r_x, r_y) in izip!(x.iter(), r_x.iter(), r_y.iter()) {
         match state.id {
-- 
2.43.0


From 86055a031868eddab0ff986c7b43bb0024b8ca52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:41 +0000
Subject: [PATCH 19/28] fix: comparisons of a public value with a shared one on
 equal operands

---
 co-circom/circom-mpc-vm/src/mpc/rep3.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/co-circom/circom-mpc-vm/src/mpc/rep3.rs b/co-circom/circom-mpc-vm/src/mpc/rep3.rs
index 3b3fc0a..e119d21 100644
--- a/co-circom/circom-mpc-vm/src/mpc/rep3.rs
+++ b/co-circom/circom-mpc-vm/src/mpc/rep3.rs
@@ -271,7 +271,7 @@ impl<F: PrimeField + FieldUint, N: Network> VmCircomWitnessExtension<F>
             (Rep3VmType::Public(a), Rep3VmType::Arithmetic(b)) => {
                 let a = self.plain.val(a);
                 let b = self.val(b);
-                Ok(arithmetic::ge_public(b, a, self.net0, &mut self.state0)?.into())
+                Ok(arithmetic::gt_public(b, a, self.net0, &mut self.state0)?.into())
             }
             (Rep3VmType::Arithmetic(a), Rep3VmType::Public(b)) => {
                 let a = self.val(a);
@@ -292,7 +292,7 @@ impl<F: PrimeField + FieldUint, N: Network> VmCircomWitnessExtension<F>
             (Rep3VmType::Public(a), Rep3VmType::Arithmetic(b)) => {
                 let a = self.plain.val(a);
                 let b = self.val(b);
-                Ok(arithmetic::gt_public(b, a, self.net0, &mut self.state0)?.into())
+                Ok(arithmetic::ge_public(b, a, self.net0, &mut self.state0)?.into())
             }
             (Rep3VmType::Arithmetic(a), Rep3VmType::Public(b)) => {
                 let a = self.val(a);
@@ -313,7 +313,7 @@ impl<F: PrimeField + FieldUint, N: Network> VmCircomWitnessExtension<F>
             (Rep3VmType::Public(a), Rep3VmType::Arithmetic(b)) => {
                 let a = self.plain.val(a);
                 let b = self.val(b);
-                Ok(arithmetic::le_public(b, a, self.net0, &mut self.state0)?.into())
+                Ok(arithmetic::lt_public(b, a, self.net0, &mut self.state0)?.into())
             }
             (Rep3VmType::Arithmetic(a), Rep3VmType::Public(b)) => {
                 let a = self.val(a);
@@ -334,7 +334,7 @@ impl<F: PrimeField + FieldUint, N: Network> VmCircomWitnessExtension<F>
             (Rep3VmType::Public(a), Rep3VmType::Arithmetic(b)) => {
                 let a = self.plain.val(a);
                 let b = self.val(b);
-                Ok(arithmetic::lt_public(b, a, self.net0, &mut self.state0)?.into())
+                Ok(arithmetic::le_public(b, a, self.net0, &mut self.state0)?.into())
             }
             (Rep3VmType::Arithmetic(a), Rep3VmType::Public(b)) => {
                 let a = self.val(a);
-- 
2.43.0


From 0c7116b4d6b3636c4e302064e80f6eaa6ca22521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:41 +0000
Subject: [PATCH 20/28] fix: signals of a batched run start with a full batch
 of zeros

---
 co-circom/circom-mpc-vm/src/mpc_vm.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/co-circom/circom-mpc-vm/src/mpc_vm.rs b/co-circom/circom-mpc-vm/src/mpc_vm.rs
index a3f3367..95bda28 100644
--- a/co-circom/circom-mpc-vm/src/mpc_vm.rs
+++ b/co-circom/circom-mpc-vm/src/mpc_vm.rs
@@ -1177,7 +1177,7 @@ impl<F: PrimeField + FieldUint> BatchedPlainWitnessExtension<F> {
         config: VMConfig,
         batch_size: usize,
     ) -> Self {
-        let mut signals = vec![Vec::with_capacity(batch_size); parser.amount_signals];
+        let mut signals = vec![vec![F::zero(); batch_size]; parser.amount_signals];
         signals[0] = vec![F::one(); batch_size];
         let batched_constant_table = parser
             .constant_table
@@ -1255,7 +1255,7 @@ impl<'a, F: PrimeField + FieldUint, N: Network> BatchedRep3WitnessExtension<'a,
         let driver =
             BatchedCircomRep3VmWitnessExtension::new(net0, net1, config.a2b_type, batch_size)?;
         let mut signals = vec![
-            BatchedRep3VmType::from(Vec::<F>::with_capacity(batch_size));
+            BatchedRep3VmType::from(vec![F::zero(); batch_size]);
             parser.amount_signals
         ];
         signals[0] = BatchedRep3VmType::from(vec![F::one(); batch_size]);
-- 
2.43.0


From 84a71e6bc921833cc92998400e8ddf22ca2c3484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:36 +0000
Subject: [PATCH 21/28] fix: remainder modulo two to the power of zero

---
 mpc-core/src/protocols/rep3/yao.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mpc-core/src/protocols/rep3/yao.rs b/mpc-core/src/protocols/rep3/yao.rs
index 4b6ac49..730fe81 100644
--- a/mpc-core/src/protocols/rep3/yao.rs
+++ b/mpc-core/src/protocols/rep3/yao.rs
@@ -750,6 +750,9 @@ pub fn field_mod_power_2<F: FieldUint, N: Network>(
     state: &mut Rep3State,
     mod_bit: usize,
 ) -> eyre::Result<Rep3PrimeFieldShare<F>> {
+    if mod_bit == 0 {
+        return Ok(Rep3PrimeFieldShare::zero_share());
+    }
     let decomposed = decompose_arithmetic(input, net, state, mod_bit, mod_bit)?;
     debug_assert_eq!(decomposed.len(), 1);
     let res = decomposed[0];
-- 
2.43.0


From 64f088086bcdf87a94122e68b6020325ac37d74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:18 +0000
Subject: [PATCH 22/28] fix: leave a public if without else when its condition
 is false

---
 co-circom/circom-mpc-vm/src/mpc_vm.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/co-circom/circom-mpc-vm/src/mpc_vm.rs b/co-circom/circom-mpc-vm/src/mpc_vm.rs
index 95bda28..1200e47 100644
--- a/co-circom/circom-mpc-vm/src/mpc_vm.rs
+++ b/co-circom/circom-mpc-vm/src/mpc_vm.rs
@@ -571,6 +571,13 @@ impl<F: PrimeField, C: VmCircomWitnessExtension<F>> Component<F, C> {
                         if protocol.is_zero(cond, false)? {
                             //we need to jump
                             ip += jump;
+                            //without an else branch we skip the only instruction that pops the element
+                            if matches!(
+                                current_body[ip - 1],
+                                op_codes::MpcOpCode::EndTruthyBranch(0)
+                            ) {
+                                self.if_stack.pop();
+                            }
                             continue;
                         }
                     }
-- 
2.43.0


From a3674948546f54f7d53d50bb127c8bcf3aca3082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:05 +0000
Subject: [PATCH 23/28] fix: functions called in a branch on a shared condition
 return

---
 co-circom/circom-mpc-vm/src/mpc_vm.rs | 71 ++++++++++++++++++++++-----
 1 file changed, 60 insertions(+), 11 deletions(-)

diff --git a/co-circom/circom-mpc-vm/src/mpc_vm.rs b/co-circom/circom-mpc-vm/src/mpc_vm.rs
index 1200e47..ca07048 100644
--- a/co-circom/circom-mpc-vm/src/mpc_vm.rs
+++ b/co-circom/circom-mpc-vm/src/mpc_vm.rs
@@ -91,7 +91,14 @@ pub type Rep3WitnessExtension<'a, F, N> =
 pub type ShamirWitnessExtension<'a, F, N> =
     WitnessExtension<F, CircomShamirVmWitnessExtension<'a, F, N>>;
 
-type ConsumedFunCtx<T> = (usize, usize, Vec<T>, Arc<CodeBlock>, Vec<(T, Vec<T>)>);
+type ConsumedFunCtx<T> = (
+    usize,
+    usize,
+    Vec<T>,
+    Arc<CodeBlock>,
+    Vec<(T, Vec<T>)>,
+    usize,
+);
 
 #[derive(Default, Clone)]
 struct IfCtxStack<F: PrimeField, C: VmCircomWitnessExtension<F>>(Vec<IfCtx<F, C>>);
@@ -138,11 +145,26 @@ impl<F: PrimeField, C: VmCircomWitnessExtension<F>> IfCtxStack<F, C> {
     }
 
     fn is_shared(&self) -> bool {
+        self.is_shared_above(0)
+    }
+
+    /// Whether one of the branches above `depth` depends on a shared condition.
+    fn is_shared_above(&self, depth: usize) -> bool {
         self.0
             .iter()
+            .skip(depth)
             .any(|cond| matches!(cond, IfCtx::Shared(_, _, _)))
     }
 
+    fn depth(&self) -> usize {
+        self.0.len()
+    }
+
+    /// Leaves all branches above `depth`.
+    fn truncate(&mut self, depth: usize) {
+        self.0.truncate(depth);
+    }
+
     fn get_shared_condition(&self) -> C::VmType {
         if let Some(IfCtx::Shared(_, acc_condition, _)) = self
             .0
@@ -232,6 +254,8 @@ struct FunctionCtx<T> {
     vars: Vec<T>,
     body: Arc<CodeBlock>,
     shared_return_vals: Vec<(T, Vec<T>)>,
+    /// the number of branches the caller is in
+    if_depth: usize,
 }
 
 impl<T> FunctionCtx<T> {
@@ -241,6 +265,7 @@ impl<T> FunctionCtx<T> {
         vars: Vec<T>,
         body: Arc<CodeBlock>,
         shared_return_vals: Vec<(T, Vec<T>)>,
+        if_depth: usize,
     ) -> Self {
         Self {
             ip,
@@ -248,6 +273,7 @@ impl<T> FunctionCtx<T> {
             vars,
             body,
             shared_return_vals,
+            if_depth,
         }
     }
 
@@ -258,6 +284,7 @@ impl<T> FunctionCtx<T> {
             self.vars,
             self.body,
             self.shared_return_vals,
+            self.if_depth,
         )
     }
 }
@@ -452,6 +479,7 @@ impl<F: PrimeField, C: VmCircomWitnessExtension<F>> Component<F, C> {
                             func_vars,
                             Arc::clone(&current_body),
                             next_shared_ret_vals,
+                            self.if_stack.depth(),
                         ));
                         //set size of return value
                         self.current_return_vals = *return_vals;
@@ -758,10 +786,19 @@ impl<F: PrimeField, C: VmCircomWitnessExtension<F>> Component<F, C> {
                     break;
                 }
                 op_codes::MpcOpCode::ReturnFun => {
+                    //the shared ifs of this function decide whether we can return, not the ones of the caller
+                    let returns_shared = {
+                        let if_depth = self
+                            .functions_ctx
+                            .peek_stack_frame()
+                            .last()
+                            .map_or(0, |fun_ctx| fun_ctx.if_depth);
+                        self.if_stack.is_shared_above(if_depth)
+                    };
                     //check if we have multiple return values
                     if self.current_return_vals == 1 {
                         //check if we currently in an shared if
-                        if self.if_stack.is_shared() {
+                        if returns_shared {
                             //we need to store the return val for later use
                             let mut this_condition = self.if_stack.get_shared_condition();
                             for (cond, _) in current_shared_ret_vals.iter() {
@@ -801,7 +838,7 @@ impl<F: PrimeField, C: VmCircomWitnessExtension<F>> Component<F, C> {
                         if current_vars.len() < start + end {
                             current_vars.resize(start + end, protocol.public_zero());
                         }
-                        if self.if_stack.is_shared() {
+                        if returns_shared {
                             //we need to store the return val for later use
                             let mut this_condition = self.if_stack.get_shared_condition();
                             for (cond, _) in current_shared_ret_vals.iter() {
@@ -845,8 +882,15 @@ impl<F: PrimeField, C: VmCircomWitnessExtension<F>> Component<F, C> {
                                 });
                         }
                     }
-                    let (old_ip, old_return_vals, mut old_vars, old_body, shared_return_vals) =
-                        self.functions_ctx.pop().consume();
+                    let (
+                        old_ip,
+                        old_return_vals,
+                        mut old_vars,
+                        old_body,
+                        shared_return_vals,
+                        if_depth,
+                    ) = self.functions_ctx.pop().consume();
+                    self.if_stack.truncate(if_depth);
                     ip = old_ip;
                     self.current_return_vals = old_return_vals;
                     current_shared_ret_vals = shared_return_vals;
@@ -855,8 +899,15 @@ impl<F: PrimeField, C: VmCircomWitnessExtension<F>> Component<F, C> {
                 }
                 op_codes::MpcOpCode::ReturnSharedIfFun => {
                     self.handle_shared_fun_return(protocol, &current_shared_ret_vals)?;
-                    let (old_ip, old_return_vals, mut old_vars, old_body, shared_return_vals) =
-                        self.functions_ctx.pop().consume();
+                    let (
+                        old_ip,
+                        old_return_vals,
+                        mut old_vars,
+                        old_body,
+                        shared_return_vals,
+                        if_depth,
+                    ) = self.functions_ctx.pop().consume();
+                    self.if_stack.truncate(if_depth);
                     ip = old_ip;
                     self.current_return_vals = old_return_vals;
                     current_shared_ret_vals = shared_return_vals;
@@ -1261,10 +1312,8 @@ impl<'a, F: PrimeField + FieldUint, N: Network> BatchedRep3WitnessExtension<'a,
     ) -> eyre::Result<Self> {
         let driver =
             BatchedCircomRep3VmWitnessExtension::new(net0, net1, config.a2b_type, batch_size)?;
-        let mut signals = vec![
-            BatchedRep3VmType::from(vec![F::zero(); batch_size]);
-            parser.amount_signals
-        ];
+        let mut signals =
+            vec![BatchedRep3VmType::from(vec![F::zero(); batch_size]); parser.amount_signals];
         signals[0] = BatchedRep3VmType::from(vec![F::one(); batch_size]);
         let batched_constant_table = parser
             .constant_table
-- 
2.43.0


From cf87c075988f43822d4514a9b554b6ebfdfc6ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:05 +0000
Subject: [PATCH 24/28] fix: division after a return in a branch on a shared
 condition

---
 co-circom/circom-mpc-vm/src/mpc_vm.rs | 42 +++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/co-circom/circom-mpc-vm/src/mpc_vm.rs b/co-circom/circom-mpc-vm/src/mpc_vm.rs
index ca07048..7ddcb0f 100644
--- a/co-circom/circom-mpc-vm/src/mpc_vm.rs
+++ b/co-circom/circom-mpc-vm/src/mpc_vm.rs
@@ -650,8 +650,9 @@ impl<F: PrimeField, C: VmCircomWitnessExtension<F>> Component<F, C> {
                 op_codes::MpcOpCode::Div => {
                     let mut rhs = self.pop_field();
                     let lhs = self.pop_field();
-                    if self.if_stack.is_shared() {
-                        let cond = self.if_stack.get_shared_condition();
+                    if let Some(cond) =
+                        self.shared_execution_condition(protocol, &current_shared_ret_vals)?
+                    {
                         rhs = protocol.cmux(cond, rhs, protocol.public_one())?;
                     }
                     self.push_field(protocol.div(lhs, rhs)?);
@@ -939,6 +940,43 @@ impl<F: PrimeField, C: VmCircomWitnessExtension<F>> Component<F, C> {
         Ok(())
     }
 
+    /// The shared condition under which the current instruction takes effect: we are in the taken
+    /// branch of all shared ifs, and neither the current function nor one of its callers has already
+    /// returned in a shared if. Returns `None` if it takes effect in any case.
+    fn shared_execution_condition(
+        &mut self,
+        protocol: &mut C,
+        current_shared_ret_vals: &[(C::VmType, Vec<C::VmType>)],
+    ) -> Result<Option<C::VmType>> {
+        let mut condition = self
+            .if_stack
+            .is_shared()
+            .then(|| self.if_stack.get_shared_condition());
+        let callers = self.functions_ctx.peek_stack_frame();
+        for ret_vals in callers
+            .iter()
+            .map(|fun_ctx| fun_ctx.shared_return_vals.as_slice())
+            .chain(std::iter::once(current_shared_ret_vals))
+        {
+            // the conditions of the returns of one function exclude each other
+            let mut returned = None;
+            for (cond, _) in ret_vals {
+                returned = Some(match returned {
+                    Some(returned) => protocol.add(returned, cond.to_owned())?,
+                    None => cond.to_owned(),
+                });
+            }
+            if let Some(returned) = returned {
+                let running = protocol.bool_not(returned)?;
+                condition = Some(match condition {
+                    Some(condition) => protocol.bool_and(condition, running)?,
+                    None => running,
+                });
+            }
+        }
+        Ok(condition)
+    }
+
     fn handle_shared_fun_return(
         &mut self,
         protocol: &mut C,
-- 
2.43.0


From 689d3f49d7a9e84dc5de458fc2e556d01ad045f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:05 +0000
Subject: [PATCH 25/28] fix: assertions in a branch on a shared condition

---
 co-circom/circom-mpc-vm/src/mpc_vm.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/co-circom/circom-mpc-vm/src/mpc_vm.rs b/co-circom/circom-mpc-vm/src/mpc_vm.rs
index 7ddcb0f..aa71cd0 100644
--- a/co-circom/circom-mpc-vm/src/mpc_vm.rs
+++ b/co-circom/circom-mpc-vm/src/mpc_vm.rs
@@ -580,7 +580,18 @@ impl<F: PrimeField, C: VmCircomWitnessExtension<F>> Component<F, C> {
                     }
                 }
                 op_codes::MpcOpCode::Assert(line) => {
-                    let assertion = self.pop_field();
+                    let mut assertion = self.pop_field();
+                    if let Some(cond) =
+                        self.shared_execution_condition(protocol, &current_shared_ret_vals)?
+                    {
+                        //a public assertion that holds needs no condition
+                        if protocol.is_shared(&assertion)?
+                            || protocol.is_zero(assertion.clone(), false)?
+                        {
+                            //only the taken branch may fail
+                            assertion = protocol.cmux(cond, assertion, protocol.public_one())?;
+                        }
+                    }
                     if protocol.is_zero(assertion, true)? {
                         bail!(
                             "Assertion failed during execution on line {line} in component {}",
-- 
2.43.0


From 277fb609e30833013e8c9698b2059c0fb73ca985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:41 +0000
Subject: [PATCH 26/28] fix: integer division by zero in a branch on a shared
 condition that is not taken

---
 co-circom/circom-mpc-vm/src/mpc_vm.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/co-circom/circom-mpc-vm/src/mpc_vm.rs b/co-circom/circom-mpc-vm/src/mpc_vm.rs
index aa71cd0..8dcd317 100644
--- a/co-circom/circom-mpc-vm/src/mpc_vm.rs
+++ b/co-circom/circom-mpc-vm/src/mpc_vm.rs
@@ -675,6 +675,7 @@ impl<F: PrimeField, C: VmCircomWitnessExtension<F>> Component<F, C> {
                 }
                 op_codes::MpcOpCode::Mod => {
                     let rhs = self.pop_field();
+                    let rhs = self.guard_int_divisor(protocol, rhs, &current_shared_ret_vals)?;
                     let lhs = self.pop_field();
                     self.push_field(protocol.modulo(lhs, rhs)?);
                 }
@@ -685,6 +686,7 @@ impl<F: PrimeField, C: VmCircomWitnessExtension<F>> Component<F, C> {
                 }
                 op_codes::MpcOpCode::IntDiv => {
                     let rhs = self.pop_field();
+                    let rhs = self.guard_int_divisor(protocol, rhs, &current_shared_ret_vals)?;
                     let lhs = self.pop_field();
                     self.push_field(protocol.int_div(lhs, rhs)?);
                 }
@@ -988,6 +990,31 @@ impl<F: PrimeField, C: VmCircomWitnessExtension<F>> Component<F, C> {
         Ok(condition)
     }
 
+    /// Replaces a divisor which may be zero by one if the current instruction does not take effect.
+    /// A public divisor other than zero stays public, dividing by it is cheaper.
+    fn guard_int_divisor(
+        &mut self,
+        protocol: &mut C,
+        divisor: C::VmType,
+        current_shared_ret_vals: &[(C::VmType, Vec<C::VmType>)],
+    ) -> Result<C::VmType> {
+        let conditional = self.if_stack.is_shared()
+            || !current_shared_ret_vals.is_empty()
+            || self
+                .functions_ctx
+                .peek_stack_frame()
+                .iter()
+                .any(|fun_ctx| !fun_ctx.shared_return_vals.is_empty());
+        if conditional
+            && (protocol.is_shared(&divisor)? || protocol.is_zero(divisor.clone(), false)?)
+            && let Some(cond) =
+                self.shared_execution_condition(protocol, current_shared_ret_vals)?
+        {
+            return protocol.cmux(cond, divisor, protocol.public_one());
+        }
+        Ok(divisor)
+    }
+
     fn handle_shared_fun_return(
         &mut self,
         protocol: &mut C,
-- 
2.43.0


From 3e1469fc97c80305de37c703494b37e256f3df9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 27/28] fix: bitwise or and xor of shared values exceeding the
 modulus

---
 co-circom/circom-mpc-vm/src/mpc/rep3.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/co-circom/circom-mpc-vm/src/mpc/rep3.rs b/co-circom/circom-mpc-vm/src/mpc/rep3.rs
index e119d21..af20f3f 100644
--- a/co-circom/circom-mpc-vm/src/mpc/rep3.rs
+++ b/co-circom/circom-mpc-vm/src/mpc/rep3.rs
@@ -11,7 +11,7 @@ use mpc_core::{
     MpcState,
     gadgets::poseidon2::Poseidon2,
     protocols::rep3::{
-        Rep3PrimeFieldShare, Rep3State,
+        Rep3PrimeFieldShare, Rep3State, Rep3UintShare,
         arithmetic::{self, promote_to_trivial_share},
         binary,
         conversion::{self, A2BType, bit_inject_many},
@@ -102,6 +102,21 @@ impl<'a, F: PrimeField, N: Network> CircomRep3VmWitnessExtension<'a, F, N> {
     }
 }
 
+impl<F: FieldUint, N: Network> CircomRep3VmWitnessExtension<'_, F, N> {
+    /// Translates the result of a bitwise operation on two field elements to an arithmetic share.
+    /// It has at most as many bits as the modulus, but may exceed the modulus, whereas the
+    /// conversion expects a field element. Therefore, the top bit is translated on its own.
+    fn bits_to_field(&mut self, bits: &Rep3UintShare<F>) -> eyre::Result<ArithmeticShare<F>> {
+        let top_bit = F::MODULUS_BIT_SIZE as usize - 1;
+        let low = bits.and_mask(&F::Uint::mask(top_bit));
+        let top = (bits >> top_bit).and_mask(&F::Uint::one());
+        let low = conversion::b2a_selector(&low, self.net0, &mut self.state0)?;
+        let top = conversion::bit_inject(&top, self.net0, &mut self.state0)?;
+        let weight = F::from(2u64).pow([top_bit as u64]);
+        Ok(low + arithmetic::mul_public(top, weight))
+    }
+}
+
 impl<F: PrimeField + FieldUint, N: Network> VmCircomWitnessExtension<F>
     for CircomRep3VmWitnessExtension<'_, F, N>
 {
@@ -481,7 +496,7 @@ impl<F: PrimeField + FieldUint, N: Network> VmCircomWitnessExtension<F>
             | (Rep3VmType::Arithmetic(a), Rep3VmType::Public(b)) => {
                 let a = conversion::a2b_selector(a, self.net0, &mut self.state0)?;
                 let binary = binary::xor_public(&a, &b.to_uint(), self.id);
-                Ok(conversion::b2a_selector(&binary, self.net0, &mut self.state0)?.into())
+                Ok(self.bits_to_field(&binary)?.into())
             }
             (Rep3VmType::Arithmetic(a), Rep3VmType::Arithmetic(b)) => {
                 let (a, b) = mpc_net::join(
@@ -489,7 +504,7 @@ impl<F: PrimeField + FieldUint, N: Network> VmCircomWitnessExtension<F>
                     || conversion::a2b_selector(b, self.net1, &mut self.state1),
                 );
                 let binary = binary::xor(&a?, &b?);
-                let result = conversion::b2a_selector(&binary, self.net0, &mut self.state0)?;
+                let result = self.bits_to_field(&binary)?;
                 Ok(result.into())
             }
         }
@@ -502,7 +517,7 @@ impl<F: PrimeField + FieldUint, N: Network> VmCircomWitnessExtension<F>
             | (Rep3VmType::Arithmetic(a), Rep3VmType::Public(b)) => {
                 let a = conversion::a2b_selector(a, self.net0, &mut self.state0)?;
                 let binary = binary::or_public(&a, &b.to_uint(), self.id);
-                let result = conversion::b2a_selector(&binary, self.net0, &mut self.state0)?;
+                let result = self.bits_to_field(&binary)?;
                 Ok(result.into())
             }
             (Rep3VmType::Arithmetic(a), Rep3VmType::Arithmetic(b)) => {
@@ -511,7 +526,7 @@ impl<F: PrimeField + FieldUint, N: Network> VmCircomWitnessExtension<F>
                     || conversion::a2b_selector(b, self.net1, &mut self.state1),
                 );
                 let binary = binary::or(&a?, &b?, self.net0, &mut self.state0)?;
-                Ok(conversion::b2a_selector(&binary, self.net0, &mut self.state0)?.into())
+                Ok(self.bits_to_field(&binary)?.into())
             }
         }
     }
-- 
2.43.0


From 7df473ef9f5708e178749fe8043c8f1f6df9f9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:36 +0000
Subject: [PATCH 28/28] fix: masks of vectors of field elements are not uniform

---
 mpc-core/src/protocols/rep3/rngs.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mpc-core/src/protocols/rep3/rngs.rs b/mpc-core/src/protocols/rep3/rngs.rs
index ada4628..b23243b 100644
--- a/mpc-core/src/protocols/rep3/rngs.rs
+++ b/mpc-core/src/protocols/rep3/rngs.rs
@@ -135,9 +135,11 @@ impl Rep3Rand {
     // TODO do not collect the values
     /// Generate a vector of masking field elements
     pub fn masking_field_elements_vec<F: PrimeField>(&mut self, len: usize) -> Vec<F> {
+        // 128 bits more than the modulus has, so that the reduced elements are statistically close to uniform
         let field_size = usize::try_from(F::MODULUS_BIT_SIZE)
             .expect("u32 fits into usize")
-            .div_ceil(8);
+            .div_ceil(8)
+            + 16;
         let mut a = vec![0_u8; field_size * len];
         let mut b = vec![0_u8; field_size * len];
         rayon::join(
-- 
2.43.0

