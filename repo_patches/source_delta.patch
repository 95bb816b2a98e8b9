From 2bebc8137796bcc0a8e6f5f82c7a8d1657ab4c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:54 +0000
Subject: [PATCH 01/23] verif: guarded constructors for the circuits with
 private fields

---
 proof_of_space/src/circuit/mimc3_df_circuit.rs   | 7 +++++++
 proof_of_space/src/circuit/mimc5_df_circuit.rs   | 7 +++++++
 proof_of_space/src/circuit/mimc5_hash_circuit.rs | 7 +++++++
 proof_of_space/src/circuit/mimc7_hash_circuit.rs | 7 +++++++
 4 files changed, 28 insertions(+)

diff --git a/proof_of_space/src/circuit/mimc3_df_circuit.rs b/proof_of_space/src/circuit/mimc3_df_circuit.rs
index b119055..9783d73 100644
--- a/proof_of_space/src/circuit/mimc3_df_circuit.rs
+++ b/proof_of_space/src/circuit/mimc3_df_circuit.rs
@@ -19,6 +19,13 @@ pub struct MiMC3DFDemo<'a, F: Field> {
     constants: &'a [F],
 }
 
+#[cfg(feature = "verif")]
+impl<'a, F: Field> MiMC3DFDemo<'a, F> {
+    pub fn verif_new(xl: Option<F>, xr: Option<F>, constants: &'a [F]) -> Self {
+        Self { xl, xr, constants }
+    }
+}
+
 /// Our demo circuit implements this `Circuit` trait which
 /// is used during paramgen and proving in order to
 /// synthesize the constraint system.
diff --git a/proof_of_space/src/circuit/mimc5_df_circuit.rs b/proof_of_space/src/circuit/mimc5_df_circuit.rs
index d48845f..19dc2aa 100644
--- a/proof_of_space/src/circuit/mimc5_df_circuit.rs
+++ b/proof_of_space/src/circuit/mimc5_df_circuit.rs
@@ -19,6 +19,13 @@ pub struct MiMC5DFDemo<'a, F: Field> {
     constants: &'a [F],
 }
 
+#[cfg(feature = "verif")]
+impl<'a, F: Field> MiMC5DFDemo<'a, F> {
+    pub fn verif_new(xl: Option<F>, xr: Option<F>, constants: &'a [F]) -> Self {
+        Self { xl, xr, constants }
+    }
+}
+
 /// Our demo circuit implements this `Circuit` trait which
 /// is used during paramgen and proving in order to
 /// synthesize the constraint system.
diff --git a/proof_of_space/src/circuit/mimc5_hash_circuit.rs b/proof_of_space/src/circuit/mimc5_hash_circuit.rs
index 7070c58..cc4722d 100644
--- a/proof_of_space/src/circuit/mimc5_hash_circuit.rs
+++ b/proof_of_space/src/circuit/mimc5_hash_circuit.rs
@@ -19,6 +19,13 @@ pub struct MiMC5HashDemo<'a, F: Field> {
     constants: &'a [F],
 }
 
+#[cfg(feature = "verif")]
+impl<'a, F: Field> MiMC5HashDemo<'a, F> {
+    pub fn verif_new(x_inputs: &'a [Option<F>], key: Option<F>, constants: &'a [F]) -> Self {
+        Self { x_inputs, key, constants }
+    }
+}
+
 /// Our demo circuit implements this `Circuit` trait which
 /// is used during paramgen and proving in order to
 /// synthesize the constraint system.
diff --git a/proof_of_space/src/circuit/mimc7_hash_circuit.rs b/proof_of_space/src/circuit/mimc7_hash_circuit.rs
index 074fcb5..866d351 100644
--- a/proof_of_space/src/circuit/mimc7_hash_circuit.rs
+++ b/proof_of_space/src/circuit/mimc7_hash_circuit.rs
@@ -19,6 +19,13 @@ pub struct MiMC7HashDemo<'a, F: Field> {
     constants: &'a [F],
 }
 
+#[cfg(feature = "verif")]
+impl<'a, F: Field> MiMC7HashDemo<'a, F> {
+    pub fn verif_new(x_inputs: &'a [Option<F>], key: Option<F>, constants: &'a [F]) -> Self {
+        Self { x_inputs, key, constants }
+    }
+}
+
 /// Our demo circuit implements this `Circuit` trait which
 /// is used during paramgen and proving in order to
 /// synthesize the constraint system.
-- 
2.43.0


From 27ef35c5fdc49e8ca396baedbf5adac23dbbca8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:08 +0000
Subject: [PATCH 02/23] fix: let proof_of_storage compile (unfinished branch of
 zk_vde legendre)

---
 proof_of_storage/src/zk_vde/sloth.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/proof_of_storage/src/zk_vde/sloth.rs b/proof_of_storage/src/zk_vde/sloth.rs
index 98621b2..dfb88db 100644
--- a/proof_of_storage/src/zk_vde/sloth.rs
+++ b/proof_of_storage/src/zk_vde/sloth.rs
@@ -9,6 +9,7 @@ pub fn legendre<F: Field>(mut x: F, p: F) -> F {
         return F::one();
     }
     else {
+        unimplemented!()
     }
 }
 
-- 
2.43.0


From 8b2f2fab8b110dffa739c2ab6e92ae4376258ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:56 +0000
Subject: [PATCH 03/23] fix: prepare_space rounds the declared size up to whole
 bytes

---
 proof_of_space/src/proof_of_space/prover.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/proof_of_space/src/proof_of_space/prover.rs b/proof_of_space/src/proof_of_space/prover.rs
index e9105d9..fe88be0 100644
--- a/proof_of_space/src/proof_of_space/prover.rs
+++ b/proof_of_space/src/proof_of_space/prover.rs
@@ -35,7 +35,8 @@ pub fn prepare_space(path: &str, n: usize) -> std::io::Result<()> {
     let count = base.pow(n.try_into().unwrap());
 
     let buf = [0u8; 1];
-    for _ in 0..(n + 1) * count / 8 {
+    // 不足一个字节的部分也需要占用一个字节
+    for _ in 0..((n + 1) * count + 7) / 8 {
         file.write_all(&buf).unwrap();
     }
     Ok(())
-- 
2.43.0


From 7c17723f60ed7012fd692054da9a63da3bed1b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:43 +0000
Subject: [PATCH 04/23] fix: hash circuits key each input with the running
 result

The key of every single hash was a fresh witness variable that no constraint
tied to the running result, so any public value could be proved.
---
 proof_of_space/src/circuit/mimc5_hash_circuit.rs | 2 +-
 proof_of_space/src/circuit/mimc7_hash_circuit.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/proof_of_space/src/circuit/mimc5_hash_circuit.rs b/proof_of_space/src/circuit/mimc5_hash_circuit.rs
index cc4722d..318b3bb 100644
--- a/proof_of_space/src/circuit/mimc5_hash_circuit.rs
+++ b/proof_of_space/src/circuit/mimc5_hash_circuit.rs
@@ -42,7 +42,7 @@ impl<'a, F: Field> ConstraintSynthesizer<F> for MiMC5HashDemo<'a, F> {
             let x_in = cs.new_witness_variable(|| x_in_val.ok_or(SynthesisError::AssignmentMissing))?;
 
             let key_val = res_val;
-            let key = cs.new_witness_variable(|| key_val.ok_or(SynthesisError::AssignmentMissing))?;    
+            let key = res;
             
             let mut h_val = Some(F::zero());
             let mut h = cs.new_witness_variable(|| h_val.ok_or(SynthesisError::AssignmentMissing))?;
diff --git a/proof_of_space/src/circuit/mimc7_hash_circuit.rs b/proof_of_space/src/circuit/mimc7_hash_circuit.rs
index 866d351..8ebe4f0 100644
--- a/proof_of_space/src/circuit/mimc7_hash_circuit.rs
+++ b/proof_of_space/src/circuit/mimc7_hash_circuit.rs
@@ -42,7 +42,7 @@ impl<'a, F: Field> ConstraintSynthesizer<F> for MiMC7HashDemo<'a, F> {
             let x_in = cs.new_witness_variable(|| x_in_val.ok_or(SynthesisError::AssignmentMissing))?;
 
             let key_val = res_val;
-            let key = cs.new_witness_variable(|| key_val.ok_or(SynthesisError::AssignmentMissing))?;    
+            let key = res;
             
             let mut h_val = Some(F::zero());
             let mut h = cs.new_witness_variable(|| h_val.ok_or(SynthesisError::AssignmentMissing))?;
-- 
2.43.0


From 63e20e9680d060da03598d75114c076e2ddaa8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:43 +0000
Subject: [PATCH 05/23] fix: equal circuit fixes the initial power of two and
 sum

Both were free witness variables, so the weighted sums could be anything.
---
 proof_of_space/src/circuit/equal_circuit.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/proof_of_space/src/circuit/equal_circuit.rs b/proof_of_space/src/circuit/equal_circuit.rs
index 0233124..e9463ef 100644
--- a/proof_of_space/src/circuit/equal_circuit.rs
+++ b/proof_of_space/src/circuit/equal_circuit.rs
@@ -34,6 +34,18 @@ impl<'a, F: Field> ConstraintSynthesizer<F> for EqualDemo<'a, F> {
 
         let mut x = cs.new_witness_variable(|| x_val.ok_or(SynthesisError::AssignmentMissing))?;
 
+        // two = 1, x = 0
+        cs.enforce_constraint(
+            lc!() + two,
+            lc!() + Variable::One,
+            lc!() + Variable::One
+        )?;
+        cs.enforce_constraint(
+            lc!() + x,
+            lc!() + Variable::One,
+            lc!()
+        )?;
+
         for i in 0..INPUT_SIZE {
             let bit = self.x_bits[i];
             let mut bit_val = None;
-- 
2.43.0


From bf9e74437cbbf5b5da95b751b7b20753519d3458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:43 +0000
Subject: [PATCH 06/23] fix: pow circuit starts from one

The initial product was a free witness variable, so the public value could be
any multiple of the power.
---
 proof_of_space/src/circuit/pow_circuit.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/proof_of_space/src/circuit/pow_circuit.rs b/proof_of_space/src/circuit/pow_circuit.rs
index 6c8cdb5..dd0c0c0 100644
--- a/proof_of_space/src/circuit/pow_circuit.rs
+++ b/proof_of_space/src/circuit/pow_circuit.rs
@@ -26,6 +26,13 @@ impl<'a, F: Field> ConstraintSynthesizer<F> for PowDemo<'a, F> {
         let mut y_val = Some(F::one());
         let mut y = cs.new_witness_variable(|| y_val.ok_or(SynthesisError::AssignmentMissing))?;
 
+        // y = 1
+        cs.enforce_constraint(
+            lc!() + y,
+            lc!() + Variable::One,
+            lc!() + Variable::One
+        )?;
+
         let mut g_val = self.g;
         let mut g = cs.new_witness_variable(|| g_val.ok_or(SynthesisError::AssignmentMissing))?;
 
-- 
2.43.0


From 664fd223fa191dcc0c050dc7a733babf65566863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:43 +0000
Subject: [PATCH 07/23] fix: space circuit evaluates the delay function at the
 public m

The right half was a witness variable that nothing tied to m.
---
 proof_of_space/src/circuit/pospace_circuit.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proof_of_space/src/circuit/pospace_circuit.rs b/proof_of_space/src/circuit/pospace_circuit.rs
index 4c9fc82..5d04757 100644
--- a/proof_of_space/src/circuit/pospace_circuit.rs
+++ b/proof_of_space/src/circuit/pospace_circuit.rs
@@ -48,7 +48,7 @@ impl<'a> ConstraintSynthesizer<Fr> for PospaceDemo<'a> {
         let key = cs.new_input_variable(|| key_val.ok_or(SynthesisError::AssignmentMissing))?;
 
         let m_val = self.m;
-        cs.new_input_variable(|| m_val.ok_or(SynthesisError::AssignmentMissing))?;
+        let m = cs.new_input_variable(|| m_val.ok_or(SynthesisError::AssignmentMissing))?;
     
         for i in 0..self.x.len() {
             let x_val = self.x[i];
@@ -68,7 +68,7 @@ impl<'a> ConstraintSynthesizer<Fr> for PospaceDemo<'a> {
 
             // xr = m
             let mut xr_val = m_val;
-            let mut xr = cs.new_witness_variable(|| xr_val.ok_or(SynthesisError::AssignmentMissing))?;
+            let mut xr = m;
 
             // 1.证明延迟函数计算的正确性：y = mimc_vde(key + x, m)
             for j in 0..MIMC5_DF_ROUNDS {
-- 
2.43.0


From 6b6a6879f1d82cfa3fed2a189a6dacafebd51d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:43 +0000
Subject: [PATCH 08/23] fix: space circuit expands the delay function's own
 output

The bits were compared with a witness variable that nothing tied to the output.
---
 proof_of_space/src/circuit/pospace_circuit.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/proof_of_space/src/circuit/pospace_circuit.rs b/proof_of_space/src/circuit/pospace_circuit.rs
index 5d04757..2184a8f 100644
--- a/proof_of_space/src/circuit/pospace_circuit.rs
+++ b/proof_of_space/src/circuit/pospace_circuit.rs
@@ -183,12 +183,10 @@ impl<'a> ConstraintSynthesizer<Fr> for PospaceDemo<'a> {
                         y_val = tmp_val;
                         
                         if k == y_bits_val.len() - 1 {
-                            let yy_val = xl_val;
-                            let yy = cs.new_witness_variable(|| yy_val.ok_or(SynthesisError::AssignmentMissing))?;
                             cs.enforce_constraint(
                                 lc!() + y,
                                 lc!() + Variable::One,
-                                lc!() + yy
+                                lc!() + xl
                             )?;
                         }
 
-- 
2.43.0


From 37eb19e308feaa8441ee1e061d1be953fd97c03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:43 +0000
Subject: [PATCH 09/23] fix: space circuit fixes the initial sums and powers of
 two

They were free witness variables, so any challenge value could be proved.
---
 proof_of_space/src/circuit/pospace_circuit.rs | 26 ++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/proof_of_space/src/circuit/pospace_circuit.rs b/proof_of_space/src/circuit/pospace_circuit.rs
index 2184a8f..b38ed48 100644
--- a/proof_of_space/src/circuit/pospace_circuit.rs
+++ b/proof_of_space/src/circuit/pospace_circuit.rs
@@ -132,6 +132,18 @@ impl<'a> ConstraintSynthesizer<Fr> for PospaceDemo<'a> {
                     let mut two_val = Some(Fr::one());
                     let mut two = cs.new_witness_variable(|| two_val.ok_or(SynthesisError::AssignmentMissing))?;
 
+                    // y = 0, two = 1
+                    cs.enforce_constraint(
+                        lc!() + y,
+                        lc!() + Variable::One,
+                        lc!()
+                    )?;
+                    cs.enforce_constraint(
+                        lc!() + two,
+                        lc!() + Variable::One,
+                        lc!() + Variable::One
+                    )?;
+
                     for k in 0..y_bits_val.len() {
                         // 2.证明y的二进制展开每一位都是0或者1（Y_SIZE位）
                         let bit_val = {
@@ -208,7 +220,19 @@ impl<'a> ConstraintSynthesizer<Fr> for PospaceDemo<'a> {
                             
                             let mut two_val = Some(Fr::one());
                             let mut two = cs.new_witness_variable(|| two_val.ok_or(SynthesisError::AssignmentMissing))?;
-    
+
+                            // yn = 0, two = 1
+                            cs.enforce_constraint(
+                                lc!() + yn,
+                                lc!() + Variable::One,
+                                lc!()
+                            )?;
+                            cs.enforce_constraint(
+                                lc!() + two,
+                                lc!() + Variable::One,
+                                lc!() + Variable::One
+                            )?;
+
                             for m in 0..yn_bits_val.len() {
 
                                 // 4.证明yn的二进制展开每一位都是0或者1（YN_SIZE位）
-- 
2.43.0


From 79c3628236a79544e6b76c8a41e8f0148430c13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:43 +0000
Subject: [PATCH 10/23] fix: space circuit hashes the proved preimages under
 the public key

The hash part used fresh witness variables for the key and the preimages, so
the public hash was not tied to what the first part proves.
---
 proof_of_space/src/circuit/pospace_circuit.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/proof_of_space/src/circuit/pospace_circuit.rs b/proof_of_space/src/circuit/pospace_circuit.rs
index b38ed48..34741c9 100644
--- a/proof_of_space/src/circuit/pospace_circuit.rs
+++ b/proof_of_space/src/circuit/pospace_circuit.rs
@@ -50,9 +50,12 @@ impl<'a> ConstraintSynthesizer<Fr> for PospaceDemo<'a> {
         let m_val = self.m;
         let m = cs.new_input_variable(|| m_val.ok_or(SynthesisError::AssignmentMissing))?;
     
+        let mut x_vars = vec![];
+
         for i in 0..self.x.len() {
             let x_val = self.x[i];
             let x = cs.new_witness_variable(|| x_val.ok_or(SynthesisError::AssignmentMissing))?;
+            x_vars.push(x);
 
             // xl = key + x
             let mut xl_val = key_val.map(|mut e| {
@@ -307,15 +310,15 @@ impl<'a> ConstraintSynthesizer<Fr> for PospaceDemo<'a> {
         }
 
         let mut res_val  = self.key;
-        let mut res = cs.new_witness_variable(|| res_val.ok_or(SynthesisError::AssignmentMissing))?;
+        let mut res = key;
 
         // 7.证明x_hash是x的哈希结果：x_hash = hash(x[0], x[1], .. , x[n-1])
         for i in 0..self.x.len() {
             let x_in_val= self.x[i];
-            let x_in = cs.new_witness_variable(|| x_in_val.ok_or(SynthesisError::AssignmentMissing))?;
+            let x_in = x_vars[i];
 
             let key_val = res_val;
-            let key = cs.new_witness_variable(|| key_val.ok_or(SynthesisError::AssignmentMissing))?;    
+            let key = res;
             
             let mut h_val = Some(Fr::zero());
             let mut h = cs.new_witness_variable(|| h_val.ok_or(SynthesisError::AssignmentMissing))?;
-- 
2.43.0


From eba55fe3c3dded905f7f77718aa14c941ae7d371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:54 +0000
Subject: [PATCH 11/23] fix: space verifier rejects proofs that do not verify

---
 proof_of_space/src/proof_of_space/verifier.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/proof_of_space/src/proof_of_space/verifier.rs b/proof_of_space/src/proof_of_space/verifier.rs
index 7313605..5f1fa65 100644
--- a/proof_of_space/src/proof_of_space/verifier.rs
+++ b/proof_of_space/src/proof_of_space/verifier.rs
@@ -40,5 +40,6 @@ pub fn verify(pvk: PreparedVerifyingKey<Bls12_381>, proof: Proof<Bls12_381>, key
 
     verify_input.push(x_hash);
 
-    assert!(verify_proof(&pvk, &proof, &verify_input).is_ok());
+    // verify_proof返回Ok(false)表示证明不成立
+    assert!(verify_proof(&pvk, &proof, &verify_input).unwrap());
 }
-- 
2.43.0


From 93642510c417d494a0e8c8536447da813ae2ee46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:04 +0000
Subject: [PATCH 12/23] fix: space verifier counts each challenge position once

---
 proof_of_space/src/proof_of_space/verifier.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/proof_of_space/src/proof_of_space/verifier.rs b/proof_of_space/src/proof_of_space/verifier.rs
index 5f1fa65..8c0693a 100644
--- a/proof_of_space/src/proof_of_space/verifier.rs
+++ b/proof_of_space/src/proof_of_space/verifier.rs
@@ -29,6 +29,9 @@ pub fn create_challenges(n: usize, end: usize) -> Vec<usize> {
 
 pub fn verify(pvk: PreparedVerifyingKey<Bls12_381>, proof: Proof<Bls12_381>, key: Fr, m: Fr, challenges: &Vec<usize>, idx_response: &Vec<usize>, x_hash: Fr) {
     //! 验证零知识证明
+    // 同一个挑战不能被重复响应，证明者按挑战顺序响应，位置应严格递增
+    assert!(idx_response.windows(2).all(|w| w[0] < w[1]));
+
     let mut verify_input = vec![];
     verify_input.push(key);
     verify_input.push(m);
-- 
2.43.0


From 72cbdef27831d39aace5bf8c4ef4e82b47a50ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:17 +0000
Subject: [PATCH 13/23] fix: random dependency selection stays inside the
 digest (more than 65536 units)

---
 proof_of_storage/src/proof_of_storage/depend.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/proof_of_storage/src/proof_of_storage/depend.rs b/proof_of_storage/src/proof_of_storage/depend.rs
index 7b5c0b4..94efd5f 100644
--- a/proof_of_storage/src/proof_of_storage/depend.rs
+++ b/proof_of_storage/src/proof_of_storage/depend.rs
@@ -72,7 +72,7 @@ pub fn long_mode_random(num: usize, data: &Vec<u8>, index: usize, count: usize)
     let mut blake3_res = hasher.finalize();
 
     let mut data_hash: [u8; 16] = blake3_res.as_bytes().as_slice()[..16].try_into().unwrap();
-    for i in (0..16).step_by(step) {
+    for i in (0..=16 - step).step_by(step) {
         if c < count {
             let mut data_idx = 0;
             for j in 0..step {
@@ -94,7 +94,7 @@ pub fn long_mode_random(num: usize, data: &Vec<u8>, index: usize, count: usize)
 
         data_hash = blake3_res.as_bytes().as_slice()[..16].try_into().unwrap();
 
-        for i in (0..16).step_by(step) {
+        for i in (0..=16 - step).step_by(step) {
             if c < count {
                 let mut data_idx = 0;
                 for j in 0..step {
@@ -239,7 +239,7 @@ pub fn short_depend_random(num: usize, data: &Vec<u8>, index: usize, count: usiz
     let mut blake3_res = hasher.finalize();
 
     let mut data_hash: [u8; 16] = blake3_res.as_bytes().as_slice()[..16].try_into().unwrap();
-    for i in (0..16).step_by(step) {
+    for i in (0..=16 - step).step_by(step) {
         if c < count {
             let mut data_idx = 0;
             for j in 0..step {
@@ -263,7 +263,7 @@ pub fn short_depend_random(num: usize, data: &Vec<u8>, index: usize, count: usiz
 
         data_hash = blake3_res.as_bytes().as_slice()[..16].try_into().unwrap();
 
-        for i in (0..16).step_by(step) {
+        for i in (0..=16 - step).step_by(step) {
             if c < count {
                 let mut data_idx = 0;
                 for j in 0..step {
-- 
2.43.0


From 5a347ee4e428ef8ca21f1ce9e28db0f0896bdcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:22 +0000
Subject: [PATCH 14/23] fix: long dependency distances do not overflow for many
 dependencies

---
 proof_of_storage/src/proof_of_storage/depend.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/proof_of_storage/src/proof_of_storage/depend.rs b/proof_of_storage/src/proof_of_storage/depend.rs
index 94efd5f..33c38a7 100644
--- a/proof_of_storage/src/proof_of_storage/depend.rs
+++ b/proof_of_storage/src/proof_of_storage/depend.rs
@@ -22,6 +22,11 @@ pub fn long_mode_2(index: usize, count: usize) -> Vec<usize> {
     //!       -2,     -3,     -5,     -9...
     let mut long_index = vec![];
     for i in 0..count {
+        // 2^i溢出前距离早已超出范围，不会再有依赖
+        if i >= usize::BITS as usize - 1 {
+            break;
+        }
+
         // dis = 1 + 2^i
         // dis = 2, 3, 5, 9..
         let dis = 1 + usize::pow(2, i.try_into().unwrap());
@@ -37,6 +42,11 @@ pub fn long_mode_3(index: usize) -> Vec<usize> {
     let mut long_index = vec![];
     let count = index / 10;
     for i in 0..count {
+        // 2^i溢出前距离早已超出范围，不会再有依赖
+        if i >= usize::BITS as usize - 1 {
+            break;
+        }
+
         // dis = 1 + 2^i
         // dis = 2, 3, 5, 9..
         let dis = 1 + usize::pow(2, i.try_into().unwrap());
-- 
2.43.0


From a514923f69e13822a8a66f25b2d998e66f1a5dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:27 +0000
Subject: [PATCH 15/23] fix: short_mode_2 follows its documented distances

---
 proof_of_storage/src/proof_of_storage/depend.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/proof_of_storage/src/proof_of_storage/depend.rs b/proof_of_storage/src/proof_of_storage/depend.rs
index 33c38a7..3401af3 100644
--- a/proof_of_storage/src/proof_of_storage/depend.rs
+++ b/proof_of_storage/src/proof_of_storage/depend.rs
@@ -206,14 +206,23 @@ pub fn short_mode_2(num: usize, index: usize, count: usize) -> Vec<usize> {
     let mut short_index = vec![];
     let mut flag = false;
     for i in 0..count {
+        // 2^i溢出前距离早已超出寻址范围
+        if i >= usize::BITS as usize - 1 {
+            break;
+        }
+
         let idx;
-        let dis1 = 1 - usize::pow(2, i.try_into().unwrap());
-        let dis2 = 1 + usize::pow(2, i.try_into().unwrap());
+        let pow = usize::pow(2, i.try_into().unwrap());
         if flag == true {
-            idx = index - dis1;
+            // -1+2^i
+            idx = index + pow - 1;
         }
         else {
-            idx = index - dis2;
+            // -1-2^i，超出左侧范围时停止
+            if index < 1 + pow {
+                break;
+            }
+            idx = index - 1 - pow;
         }
         flag = !flag;
 
-- 
2.43.0


From 1bbaa0bce6826b374d0b763c280f36fd9118ab21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:43 +0000
Subject: [PATCH 16/23] fix: sloth and its inverse map 0 to 0

---
 proof_of_storage/src/vde/rug_sloth.rs | 9 +++++++++
 proof_of_storage/src/vde/sloth.rs     | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/proof_of_storage/src/vde/rug_sloth.rs b/proof_of_storage/src/vde/rug_sloth.rs
index 6e3525e..e904b98 100644
--- a/proof_of_storage/src/vde/rug_sloth.rs
+++ b/proof_of_storage/src/vde/rug_sloth.rs
@@ -62,6 +62,11 @@ fn test_legendre() {
 }
 
 pub fn single_sloth(x: &Integer, p: &Integer) -> Integer {
+    // 0没有可交换的相邻元素，映射到自身
+    if *x == 0 {
+        return x.clone();
+    }
+
     let flag = legendre(x.clone(), &p);
     // let flag = x.clone().pow_mod(&((p - Integer::from_str("1").unwrap()) / Integer::from_str("2").unwrap()), &p).unwrap();
     let mut y;
@@ -96,6 +101,10 @@ pub fn sloth(y: &Integer, p: &Integer, t: usize) -> Integer {
 }
 
 pub fn single_sloth_inv(y: &Integer, p: &Integer) -> Integer {
+    if *y == 0 {
+        return y.clone();
+    }
+
     let x;
     if y.clone() % 2 == Integer::from_str("1").unwrap() {
         x = (y + Integer::from_str("1").unwrap()) % p;
diff --git a/proof_of_storage/src/vde/sloth.rs b/proof_of_storage/src/vde/sloth.rs
index 9099e95..b44fc8e 100644
--- a/proof_of_storage/src/vde/sloth.rs
+++ b/proof_of_storage/src/vde/sloth.rs
@@ -54,6 +54,11 @@ pub fn legendre(mut x: BigInt, p: &BigInt) -> BigInt {
 }
 
 pub fn single_sloth(x: &BigInt, p: &BigInt) -> BigInt {
+    // 0没有可交换的相邻元素，映射到自身
+    if *x == 0.to_bigint().unwrap() {
+        return x.clone();
+    }
+
     let flag = legendre(x.clone(), &p);
     // let flag = x.modpow(&((p - 1.to_bigint().unwrap()) / 2.to_bigint().unwrap()), &p);
     let mut y;
@@ -88,6 +93,10 @@ pub fn sloth(y: &BigInt, p: &BigInt, t: usize) -> BigInt {
 }
 
 pub fn single_sloth_inv(y: &BigInt, p: &BigInt) -> BigInt {
+    if *y == 0.to_bigint().unwrap() {
+        return y.clone();
+    }
+
     let x;
     if y.clone() % 2 == 1.to_bigint().unwrap() {
         x = (y + 1.to_bigint().unwrap()) % p;
-- 
2.43.0


From 1c12b24e2e2aaf7657b3073392361ca2969c9596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:13 +0000
Subject: [PATCH 17/23] fix: modsub returns a non-negative residue for every
 operand

---
 proof_of_storage/src/proof_of_storage/common.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/proof_of_storage/src/proof_of_storage/common.rs b/proof_of_storage/src/proof_of_storage/common.rs
index 5849075..cebe59a 100644
--- a/proof_of_storage/src/proof_of_storage/common.rs
+++ b/proof_of_storage/src/proof_of_storage/common.rs
@@ -138,7 +138,8 @@ pub fn modadd(left: &Vec<u8>, right: &Vec<u8>, p: &Integer) -> Vec<u8> {
 pub fn modsub(left: &Vec<u8>, right: &Vec<u8>, p: &Integer) -> Vec<u8> {
     let left_int = Integer::from_digits(left, Order::Lsf);
     let right_int = Integer::from_digits(right, Order::Lsf);
-    let res_int = (left_int + p - right_int) % p;
+    // right 大于 left + p 时结果也取非负余数
+    let res_int = ((left_int - right_int) % p + p) % p;
     let mut res = res_int.to_digits::<u8>(Order::Lsf);
     res.append(&mut vec![0u8; left.len() - res.len()]);
     res
-- 
2.43.0


From 12c6c9720ab7737c7f137f1c471d2c2f1ea31d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:19 +0000
Subject: [PATCH 18/23] fix: Merkle tree of a file covers it from the first
 byte

---
 proof_of_storage/src/proof_of_storage/merkle_tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proof_of_storage/src/proof_of_storage/merkle_tree.rs b/proof_of_storage/src/proof_of_storage/merkle_tree.rs
index c2235d7..d426126 100644
--- a/proof_of_storage/src/proof_of_storage/merkle_tree.rs
+++ b/proof_of_storage/src/proof_of_storage/merkle_tree.rs
@@ -14,7 +14,7 @@ pub fn generate_merkle_tree_from_file(path: &str, data_len: usize, leaf_len: usi
 
     let mut leaf_values = vec![];
     for i in (0..data_len).step_by(leaf_len) {
-        let buf = read_file(&mut file, i + leaf_len, leaf_len);
+        let buf = read_file(&mut file, i, leaf_len);
         leaf_values.push(buf);
     }
     let leaves: Vec< [u8; 32]> = leaf_values.iter().map(|x| Sha256::hash(x)).collect();
-- 
2.43.0


From 28c34697099a0ff810d6d6f44a447151ff99bb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:02 +0000
Subject: [PATCH 19/23] fix: short dependencies of sealing are over the units
 of a block

---
 proof_of_storage/src/proof_of_storage/prover.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proof_of_storage/src/proof_of_storage/prover.rs b/proof_of_storage/src/proof_of_storage/prover.rs
index d0f14af..058d192 100644
--- a/proof_of_storage/src/proof_of_storage/prover.rs
+++ b/proof_of_storage/src/proof_of_storage/prover.rs
@@ -76,7 +76,7 @@ pub fn seal(params: &PosPara, path: &str, vde_key: &Integer, iv: &Vec<u8>) -> (V
     };
     let idxs_s = {
         if params.mode_s != 0 {
-            create_short_depend(block_cnt, params.cnt_s, params.mode_s)
+            create_short_depend(params.block_l / params.unit_l, params.cnt_s, params.mode_s)
         }
         else {
             vec![]
@@ -293,7 +293,7 @@ pub fn unseal(params: &PosPara, path: &str, vde_key: &Integer, iv: &Vec<u8>)
     };
     let idxs_s = {
         if params.mode_s != 0 {
-            create_short_depend(block_cnt, params.cnt_s, params.mode_s)
+            create_short_depend(params.block_l / params.unit_l, params.cnt_s, params.mode_s)
         }
         else {
             vec![]
-- 
2.43.0


From c08aefb0926831a332ced63a75a6f9900fd26f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:02 +0000
Subject: [PATCH 20/23] fix: unsealing reads the blocks the sealing depended on

---
 proof_of_storage/src/proof_of_storage/prover.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proof_of_storage/src/proof_of_storage/prover.rs b/proof_of_storage/src/proof_of_storage/prover.rs
index 058d192..94ae344 100644
--- a/proof_of_storage/src/proof_of_storage/prover.rs
+++ b/proof_of_storage/src/proof_of_storage/prover.rs
@@ -378,7 +378,7 @@ pub fn unseal(params: &PosPara, path: &str, vde_key: &Integer, iv: &Vec<u8>)
                 }
             }
             else {
-                for i in 0..idxs_l[idx2].len() {
+                for &i in &idxs_l[idx2] {
                     let start = Instant::now();
                     let buf = read_file(&mut file, i * params.block_pl, params.block_pl);
                     file_cost += start.elapsed().as_secs_f32();
-- 
2.43.0


From 90df8adfd7b475283f20c38235078d8129a6f8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:29 +0000
Subject: [PATCH 21/23] fix: parallel unsealing takes short dependencies over
 the units of a block

---
 proof_of_storage/src/proof_of_storage/verifier.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proof_of_storage/src/proof_of_storage/verifier.rs b/proof_of_storage/src/proof_of_storage/verifier.rs
index ccfa522..56678c8 100644
--- a/proof_of_storage/src/proof_of_storage/verifier.rs
+++ b/proof_of_storage/src/proof_of_storage/verifier.rs
@@ -379,7 +379,7 @@ pub fn batch_unseal(params: &PosPara, blocks_idx: &Vec<usize>, blocks: &mut Vec<
 pub fn batch_unseal_parallel(params: &PosPara, blocks_idx: &Vec<usize>, blocks: &Vec<Vec<Vec<u8>>>, before_block_ids: &Vec<Vec<u8>>, depend_blocks: &Vec<Vec<Vec<Vec<u8>>>>, vde_key: &Integer, iv: &Vec<u8>, parallel_num: usize) -> Vec<Vec<Vec<u8>>> {
     let idxs_s = {
         if params.mode_s != 0 {
-            create_short_depend(params.data_l / params.block_l, params.cnt_s, params.mode_s)
+            create_short_depend(params.block_l / params.unit_l, params.cnt_s, params.mode_s)
         }
         else {
             vec![]
-- 
2.43.0


From 6fa87f68b1c317e2a050c6962fadbe47e55b8995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:26 +0000
Subject: [PATCH 22/23] fix: unseal-and-verify takes short dependencies over
 the units of a block

---
 proof_of_storage/src/proof_of_storage/verifier.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proof_of_storage/src/proof_of_storage/verifier.rs b/proof_of_storage/src/proof_of_storage/verifier.rs
index 56678c8..648e06a 100644
--- a/proof_of_storage/src/proof_of_storage/verifier.rs
+++ b/proof_of_storage/src/proof_of_storage/verifier.rs
@@ -210,7 +210,7 @@ pub fn batch_unseal_prepare(sealed_path: &str, idx_begin: usize, idx_end: usize,
 pub fn batch_unseal_and_verify(params: &PosPara, origin_path: &str, blocks_idx: &Vec<usize>, blocks: &Vec<Vec<Vec<u8>>>, before_block_ids: &Vec<Vec<u8>>, depend_blocks: &Vec<Vec<Vec<Vec<u8>>>>, vde_key: &Integer, iv: &Vec<u8>) {
     let idxs_s = {
         if params.mode_s != 0 {
-            create_short_depend(params.data_l / params.block_l, params.cnt_s, params.mode_s)
+            create_short_depend(params.block_l / params.unit_l, params.cnt_s, params.mode_s)
         }
         else {
             vec![]
-- 
2.43.0


From 7add75644bd507aeb9d52395a4d7a2435d0e5d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:53 +0000
Subject: [PATCH 23/23] fix: an integer has an empty list of zero bits

---
 proof_of_space/src/proof_of_space/convert.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/proof_of_space/src/proof_of_space/convert.rs b/proof_of_space/src/proof_of_space/convert.rs
index d52ea3d..d1532a5 100644
--- a/proof_of_space/src/proof_of_space/convert.rs
+++ b/proof_of_space/src/proof_of_space/convert.rs
@@ -76,16 +76,12 @@ pub fn usize_to_bits(x: usize, n: usize) -> Vec<bool> {
     let mut x = x.clone();
     let mut res = vec![false; n];
     let mut i = 0;
-    while x > 0 {
+    while x > 0 && i < n {
         if x % 2 == 1 {
             res[i] = true;
         }
         x = x / 2;
         i += 1;
-        
-        if i >= n {
-            break;
-        }
     }
     res
 }
-- 
2.43.0

