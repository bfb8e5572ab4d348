From b2f9f0fa70765e7081ce9ee2f5136003b0b0eb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:38 +0000
Subject: [PATCH 01/42] fix: negate five-coefficient elements of F5G instead of
 panicking

---
 starky/src/f5g.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starky/src/f5g.rs b/starky/src/f5g.rs
index 61e2299..874de5f 100644
--- a/starky/src/f5g.rs
+++ b/starky/src/f5g.rs
@@ -488,9 +488,9 @@ impl Neg for F5G {
     #[inline]
     fn neg(self) -> Self::Output {
         match self.dim {
-            3 => Self {
+            5 => Self {
                 cube: [-self.cube[0], -self.cube[1], -self.cube[2], -self.cube[3], -self.cube[4]],
-                dim: 3,
+                dim: 5,
             },
             1 => Self::from(-self.to_be()),
             _ => {
-- 
2.43.0


From 6a2148173971832b54b3370ce5e9be67de5e971e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:38 +0000
Subject: [PATCH 02/42] fix: order F5G elements lexicographically and make lt
 terminate

---
 starky/src/f5g.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/starky/src/f5g.rs b/starky/src/f5g.rs
index 874de5f..c631731 100644
--- a/starky/src/f5g.rs
+++ b/starky/src/f5g.rs
@@ -104,11 +104,7 @@ impl FieldExtension for F5G {
         let res = rhs.as_elements();
         match self.dim {
             5 => {
-                (les[0] > res[0]
-                    && (les[1] == res[1])
-                    && (les[2] == res[2])
-                    && (les[3] == res[3])
-                    && (les[4] == res[4]))
+                (les[0] > res[0])
                     || ((les[0] == res[0]) && (les[1] > res[1]))
                     || ((les[0] == res[0]) && (les[1] == res[1]) && (les[2] > res[2]))
                     || ((les[0] == res[0])
@@ -135,7 +131,7 @@ impl FieldExtension for F5G {
 
     #[inline]
     fn lt(&self, rhs: &Self) -> bool {
-        !self.gt(rhs) || self.lt(rhs)
+        !self.geq(rhs)
     }
 
     #[inline]
-- 
2.43.0


From 668c2adfbf58b62641e94bb0ca43500f2dbe4e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:06 +0000
Subject: [PATCH 03/42] fix: bit length of a one-limb field representation
 counted a second limb

---
 fields/src/field_gl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fields/src/field_gl.rs b/fields/src/field_gl.rs
index 1146e5d..cf653d8 100644
--- a/fields/src/field_gl.rs
+++ b/fields/src/field_gl.rs
@@ -230,7 +230,7 @@ impl crate::ff::PrimeFieldRepr for FrRepr {
     }
     #[inline(always)]
     fn num_bits(&self) -> u32 {
-        let mut ret = (2usize as u32) * 64;
+        let mut ret = (1usize as u32) * 64;
         for i in self.0.iter().rev() {
             let leading = i.leading_zeros();
             ret -= leading;
-- 
2.43.0


From ebcf9c9bb37cde90b47b14f19a2e9c7b3b718316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:08 +0000
Subject: [PATCH 04/42] fix: hash four-element rows as two scalars in
 hash_element_array, as hash_element_matrix and the circuits do

---
 starky/src/linearhash_bls12381.rs | 2 +-
 starky/src/linearhash_bn128.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/starky/src/linearhash_bls12381.rs b/starky/src/linearhash_bls12381.rs
index 1eb9fa3..aaac5ef 100644
--- a/starky/src/linearhash_bls12381.rs
+++ b/starky/src/linearhash_bls12381.rs
@@ -104,7 +104,7 @@ impl LinearHashBLS12381 {
     pub fn hash_element_array(&self, vals: &[FGL]) -> Result<ElementDigest<4, Fr>> {
         let mut st64 = [FGL::ZERO; 4];
         let mut digest: Fr = Fr::zero();
-        if vals.len() <= 4 {
+        if vals.len() <= 3 {
             for (i, v) in vals.iter().enumerate() {
                 st64[i] = *v;
             }
diff --git a/starky/src/linearhash_bn128.rs b/starky/src/linearhash_bn128.rs
index f0eaee1..8cc56d0 100644
--- a/starky/src/linearhash_bn128.rs
+++ b/starky/src/linearhash_bn128.rs
@@ -105,7 +105,7 @@ impl LinearHashBN128 {
     pub fn hash_element_array(&self, vals: &[FGL]) -> Result<ElementDigest<4, Fr>> {
         let mut st64 = [FGL::ZERO; 4];
         let mut digest: Fr = Fr::zero();
-        if vals.len() <= 4 {
+        if vals.len() <= 3 {
             for (i, v) in vals.iter().enumerate() {
                 st64[i] = *v;
             }
-- 
2.43.0


From bf7fd280fb88f818ced9ca82b3b9652a8329fd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:08 +0000
Subject: [PATCH 05/42] fix: place the running digest among its siblings when
 recomputing a Merkle root, so that the leaf is bound

---
 starky/src/merklehash_bls12381.rs | 8 ++++++--
 starky/src/merklehash_bn128.rs    | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/starky/src/merklehash_bls12381.rs b/starky/src/merklehash_bls12381.rs
index 19454f4..360fec9 100644
--- a/starky/src/merklehash_bls12381.rs
+++ b/starky/src/merklehash_bls12381.rs
@@ -116,11 +116,15 @@ impl MerkleTreeBLS12381 {
         if mp.len() == offset {
             return Ok(*value);
         }
-        //let cur_idx = idx & 0xF;
+        let cur_idx = idx & 0xF;
         let next_idx = idx >> 4;
         let mut vals: Vec<Fr> = vec![];
         for i in 0..16 {
-            vals.push(mp[offset][i]);
+            if i == cur_idx {
+                vals.push(Fr(value.as_scalar::<Fr>()));
+            } else {
+                vals.push(mp[offset][i]);
+            }
         }
         let init = Fr::zero();
         let next_value = self.poseidon.hash(&vals, &init)?;
diff --git a/starky/src/merklehash_bn128.rs b/starky/src/merklehash_bn128.rs
index 54ae026..618f5c2 100644
--- a/starky/src/merklehash_bn128.rs
+++ b/starky/src/merklehash_bn128.rs
@@ -115,11 +115,15 @@ impl MerkleTreeBN128 {
         if mp.len() == offset {
             return Ok(*value);
         }
-        //let cur_idx = idx & 0xF;
+        let cur_idx = idx & 0xF;
         let next_idx = idx >> 4;
         let mut vals: Vec<Fr> = vec![];
         for i in 0..16 {
-            vals.push(mp[offset][i]);
+            if i == cur_idx {
+                vals.push(Fr(value.as_scalar::<Fr>()));
+            } else {
+                vals.push(mp[offset][i]);
+            }
         }
         let init = Fr::zero();
         let next_value = self.poseidon.hash(&vals, &init)?;
-- 
2.43.0


From 4705ea5e0c95270ce2ccac76fc24be9e785abcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:08 +0000
Subject: [PATCH 06/42] fix: discard undrawn field challenges when a transcript
 absorbs an element

---
 starky/src/transcript_bls12381.rs | 1 +
 starky/src/transcript_bn128.rs    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/starky/src/transcript_bls12381.rs b/starky/src/transcript_bls12381.rs
index 1fc52ca..85cd135 100644
--- a/starky/src/transcript_bls12381.rs
+++ b/starky/src/transcript_bls12381.rs
@@ -32,6 +32,7 @@ impl TranscriptBLS128 {
     }
     fn add_1(&mut self, e: &Fr) -> Result<()> {
         self.out = VecDeque::new();
+        self.out3 = VecDeque::new();
         log::trace!("add_1: {:?}", fr_to_biguint(e));
         self.pending.push(*e);
         if self.pending.len() == 16 {
diff --git a/starky/src/transcript_bn128.rs b/starky/src/transcript_bn128.rs
index 7577ed8..0dba7a5 100644
--- a/starky/src/transcript_bn128.rs
+++ b/starky/src/transcript_bn128.rs
@@ -32,6 +32,7 @@ impl TranscriptBN128 {
     }
     fn add_1(&mut self, e: &Fr) -> Result<()> {
         self.out = VecDeque::new();
+        self.out3 = VecDeque::new();
         log::trace!("add_1: {:?}", fr_to_biguint(e));
         self.pending.push(*e);
         if self.pending.len() == 16 {
-- 
2.43.0


From 8500a4ad013aef3f64d57bff643a67c1688d28ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:03 +0000
Subject: [PATCH 07/42] fix: keep one worker on single-CPU machines instead of
 dividing by zero

---
 starky/src/constant.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starky/src/constant.rs b/starky/src/constant.rs
index cd8442e..9869fec 100644
--- a/starky/src/constant.rs
+++ b/starky/src/constant.rs
@@ -118,5 +118,5 @@ pub const MAX_OPS_PER_THREAD: usize = 1 << 18;
 pub const GLOBAL_L1: &str = "Global.L1";
 
 pub fn get_max_workers() -> usize {
-    num_cpus::get() - 1
+    std::cmp::max(num_cpus::get() - 1, 1)
 }
-- 
2.43.0


From 712a93952ac37cfd7aed2ac01e23d90cec666197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:12 +0000
Subject: [PATCH 08/42] fix: the root of a one-row Merkle tree is its leaf, not
 the zero padding

---
 starky/src/merklehash.rs          | 4 ++++
 starky/src/merklehash_bls12381.rs | 4 ++++
 starky/src/merklehash_bn128.rs    | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/starky/src/merklehash.rs b/starky/src/merklehash.rs
index af4649d..d924cb3 100644
--- a/starky/src/merklehash.rs
+++ b/starky/src/merklehash.rs
@@ -45,6 +45,10 @@ pub struct MerkleTreeGL {
 }
 
 fn get_n_nodes(n_: usize) -> usize {
+    if n_ == 1 {
+        // the only leaf is the root
+        return 1;
+    }
     let mut n = n_;
     let mut next_n = (n - 1) / 2 + 1;
     let mut acc = next_n * 2;
diff --git a/starky/src/merklehash_bls12381.rs b/starky/src/merklehash_bls12381.rs
index 360fec9..8abaccf 100644
--- a/starky/src/merklehash_bls12381.rs
+++ b/starky/src/merklehash_bls12381.rs
@@ -25,6 +25,10 @@ pub struct MerkleTreeBLS12381 {
 }
 
 fn get_n_nodes(n_: usize) -> usize {
+    if n_ == 1 {
+        // the only leaf is the root
+        return 1;
+    }
     let mut n = n_;
     let mut next_n = (n - 1) / 16 + 1;
     let mut acc = next_n * 16;
diff --git a/starky/src/merklehash_bn128.rs b/starky/src/merklehash_bn128.rs
index 618f5c2..b20de3e 100644
--- a/starky/src/merklehash_bn128.rs
+++ b/starky/src/merklehash_bn128.rs
@@ -24,6 +24,10 @@ pub struct MerkleTreeBN128 {
 }
 
 fn get_n_nodes(n_: usize) -> usize {
+    if n_ == 1 {
+        // the only leaf is the root
+        return 1;
+    }
     let mut n = n_;
     let mut next_n = (n - 1) / 16 + 1;
     let mut acc = next_n * 16;
-- 
2.43.0


From d64272fdedb436a61f890d4089a82fa8b0284e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:29 +0000
Subject: [PATCH 09/42] fix: reduce PIL numbers below -p to their residue

---
 starky/src/types.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/starky/src/types.rs b/starky/src/types.rs
index 6e5a405..5432b9f 100644
--- a/starky/src/types.rs
+++ b/starky/src/types.rs
@@ -220,16 +220,12 @@ where
 #[inline(always)]
 pub fn parse_pil_number(raw_val: &str) -> u64 {
     //let raw_val = r.value.as_ref().unwrap();
-    let mut n_val: i128 = match raw_val.starts_with("0x") {
+    let n_val: i128 = match raw_val.starts_with("0x") {
         true => i128::from_str_radix(&raw_val[2..], 16).unwrap(),
         _ => raw_val.parse::<i128>().unwrap(),
     };
     // FIXME: Goldilocks modular, try to fetch it from FieldExtension
-    if n_val < 0 {
-        n_val += 18446744069414584321;
-    }
-    n_val %= 18446744069414584321;
-    n_val as u64
+    n_val.rem_euclid(18446744069414584321) as u64
 }
 
 #[cfg(test)]
-- 
2.43.0


From 9e14b48f1bfda7c7e1603bf6a2282ee48523d550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 10/42] fix: refuse truncated or non-canonical witness elements

---
 algebraic-gpu/src/reader.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/algebraic-gpu/src/reader.rs b/algebraic-gpu/src/reader.rs
index 18ba416..27a1e0b 100644
--- a/algebraic-gpu/src/reader.rs
+++ b/algebraic-gpu/src/reader.rs
@@ -105,14 +105,12 @@ pub fn load_witness_from_bin_reader<E: PrimeField, R: Read>(mut reader: R) -> Re
     for _ in 0..witness_len {
         let mut repr = E::default().to_repr();
         let repr_slice = repr.as_mut();
-        if reader.read_exact(repr_slice).is_err() {
-            continue;
-        }
+        reader.read_exact(repr_slice)?;
         let maybe_field_elem = E::from_repr(repr);
         if maybe_field_elem.is_some().unwrap_u8() == 1 {
             result.push(maybe_field_elem.unwrap());
         } else {
-            continue;
+            bail!("witness element is not in the field");
         }
         // repr.read_le(&mut reader)?;
         // result.push(E::Fr::from_repr(repr)?);
-- 
2.43.0


From 47d421e38d3047c2edf54ec74ebb628dc1e33b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 11/42] fix: compute the witness section size without overflow

---
 algebraic-gpu/src/reader.rs                     | 2 +-
 algebraic-gpu/src/witness/witness_calculator.rs | 2 +-
 algebraic/src/reader.rs                         | 2 +-
 algebraic/src/witness/witness_calculator.rs     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/algebraic-gpu/src/reader.rs b/algebraic-gpu/src/reader.rs
index 27a1e0b..166c2c7 100644
--- a/algebraic-gpu/src/reader.rs
+++ b/algebraic-gpu/src/reader.rs
@@ -98,7 +98,7 @@ pub fn load_witness_from_bin_reader<E: PrimeField, R: Read>(mut reader: R) -> Re
         bail!("invalid section type".to_string());
     }
     let sec_size = reader.read_u64::<LittleEndian>()?;
-    if sec_size != (witness_len * field_size) as u64 {
+    if sec_size != witness_len as u64 * field_size as u64 {
         bail!(format!("Invalid witness section size {}", sec_size));
     }
     let mut result = Vec::with_capacity(witness_len as usize);
diff --git a/algebraic-gpu/src/witness/witness_calculator.rs b/algebraic-gpu/src/witness/witness_calculator.rs
index 5038b33..3dec413 100644
--- a/algebraic-gpu/src/witness/witness_calculator.rs
+++ b/algebraic-gpu/src/witness/witness_calculator.rs
@@ -237,7 +237,7 @@ impl WitnessCalculator {
         // sec type
         writer.write_u32::<LittleEndian>(2)?;
         // sec size
-        writer.write_u64::<LittleEndian>((wtns_size * field_size) as u64)?;
+        writer.write_u64::<LittleEndian>(wtns_size as u64 * field_size as u64)?;
 
         for w in wtns {
             writer.write_u32::<LittleEndian>(*w)?;
diff --git a/algebraic/src/reader.rs b/algebraic/src/reader.rs
index 864fda9..daf3879 100644
--- a/algebraic/src/reader.rs
+++ b/algebraic/src/reader.rs
@@ -124,7 +124,7 @@ pub fn load_witness_from_bin_reader<E: ScalarEngine, R: Read>(mut reader: R) ->
         bail!("invalid section type".to_string());
     }
     let sec_size = reader.read_u64::<LittleEndian>()?;
-    if sec_size != (witness_len * field_size) as u64 {
+    if sec_size != witness_len as u64 * field_size as u64 {
         bail!(format!("Invalid witness section size {}", sec_size));
     }
     let mut result = Vec::with_capacity(witness_len as usize);
diff --git a/algebraic/src/witness/witness_calculator.rs b/algebraic/src/witness/witness_calculator.rs
index dc5d7fe..a1a19d9 100644
--- a/algebraic/src/witness/witness_calculator.rs
+++ b/algebraic/src/witness/witness_calculator.rs
@@ -237,7 +237,7 @@ impl WitnessCalculator {
         // sec type
         writer.write_u32::<LittleEndian>(2)?;
         // sec size
-        writer.write_u64::<LittleEndian>((wtns_size * field_size) as u64)?;
+        writer.write_u64::<LittleEndian>(wtns_size as u64 * field_size as u64)?;
 
         for w in wtns {
             writer.write_u32::<LittleEndian>(*w)?;
-- 
2.43.0


From af9b2485c51ff76003e0ff0f1f729c9ec2e70651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 12/42] fix: tie the modulus of constraint and witness files to
 the field read

---
 algebraic-gpu/src/r1cs_file.rs | 12 ++++++++++++
 algebraic-gpu/src/reader.rs    |  2 +-
 algebraic/src/r1cs_file.rs     | 10 ++++++++++
 algebraic/src/reader.rs        |  2 +-
 4 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/algebraic-gpu/src/r1cs_file.rs b/algebraic-gpu/src/r1cs_file.rs
index 928171a..b5c0c89 100644
--- a/algebraic-gpu/src/r1cs_file.rs
+++ b/algebraic-gpu/src/r1cs_file.rs
@@ -4,6 +4,8 @@
 use crate::circom_circuit::{Constraint, CustomGates, CustomGatesUses};
 use byteorder::{LittleEndian, ReadBytesExt};
 use ff::PrimeField;
+use num_bigint::BigUint;
+use num_traits::Num;
 use std::{
     collections::BTreeMap,
     io::{Error, ErrorKind, Read, Result, Seek, SeekFrom},
@@ -46,6 +48,13 @@ fn read_field<R: Read, E: PrimeField>(mut reader: R) -> Result<E> {
     }
 }
 
+/// the modulus of the scalar field, little-endian, as it is stored in file headers
+pub(crate) fn modulus_le<E: PrimeField>() -> Result<Vec<u8>> {
+    let modulus = BigUint::from_str_radix(E::MODULUS.trim_start_matches("0x"), 16)
+        .map_err(|e| Error::new(ErrorKind::InvalidData, e))?;
+    Ok(modulus.to_bytes_le())
+}
+
 const HEADER_TYPE: u32 = 1;
 const CONSTRAINT_TYPE: u32 = 2;
 const WIRE2LABEL_TYPE: u32 = 3;
@@ -241,6 +250,9 @@ pub fn from_reader<R: Read + Seek, E: PrimeField>(mut reader: R) -> Result<R1CSF
     {
         return Err(Error::new(ErrorKind::InvalidData, "This parser only supports bn256 or GL"));
     }
+    if header.prime_size != modulus_le::<E>()? {
+        return Err(Error::new(ErrorKind::InvalidData, "Different prime"));
+    }
     reader.seek(SeekFrom::Start(*section_offsets.get(&CONSTRAINT_TYPE).unwrap()))?;
     let constraints = read_constraints::<&mut R, E>(
         &mut reader,
diff --git a/algebraic-gpu/src/reader.rs b/algebraic-gpu/src/reader.rs
index 166c2c7..ef15d12 100644
--- a/algebraic-gpu/src/reader.rs
+++ b/algebraic-gpu/src/reader.rs
@@ -88,7 +88,7 @@ pub fn load_witness_from_bin_reader<E: PrimeField, R: Read>(mut reader: R) -> Re
     }
     let mut prime = vec![0u8; field_size as usize];
     reader.read_exact(&mut prime)?;
-    if prime != hex!("010000f093f5e1439170b97948e833285d588181b64550b829a031e1724e6430") {
+    if prime != crate::r1cs_file::modulus_le::<E>()? {
         bail!("invalid curve prime".to_string());
     }
     let witness_len = reader.read_u32::<LittleEndian>()?;
diff --git a/algebraic/src/r1cs_file.rs b/algebraic/src/r1cs_file.rs
index 22c10b9..e206088 100644
--- a/algebraic/src/r1cs_file.rs
+++ b/algebraic/src/r1cs_file.rs
@@ -41,6 +41,13 @@ fn read_field<R: Read, E: ScalarEngine>(mut reader: R) -> Result<E::Fr> {
     Ok(fr)
 }
 
+/// the modulus of the scalar field, little-endian, as it is stored in file headers
+pub(crate) fn modulus_le<E: ScalarEngine>() -> Result<Vec<u8>> {
+    let mut modulus = vec![];
+    E::Fr::char().write_le(&mut modulus)?;
+    Ok(modulus)
+}
+
 const HEADER_TYPE: u32 = 1;
 const CONSTRAINT_TYPE: u32 = 2;
 const WIRE2LABEL_TYPE: u32 = 3;
@@ -236,6 +243,9 @@ pub fn from_reader<R: Read + Seek, E: ScalarEngine>(mut reader: R) -> Result<R1C
     {
         return Err(Error::new(ErrorKind::InvalidData, "This parser only supports bn256 or GL"));
     }
+    if header.prime_size != modulus_le::<E>()? {
+        return Err(Error::new(ErrorKind::InvalidData, "Different prime"));
+    }
     reader.seek(SeekFrom::Start(*section_offsets.get(&CONSTRAINT_TYPE).unwrap()))?;
     let constraints = read_constraints::<&mut R, E>(
         &mut reader,
diff --git a/algebraic/src/reader.rs b/algebraic/src/reader.rs
index daf3879..06d753b 100644
--- a/algebraic/src/reader.rs
+++ b/algebraic/src/reader.rs
@@ -114,7 +114,7 @@ pub fn load_witness_from_bin_reader<E: ScalarEngine, R: Read>(mut reader: R) ->
     }
     let mut prime = vec![0u8; field_size as usize];
     reader.read_exact(&mut prime)?;
-    if prime != hex!("010000f093f5e1439170b97948e833285d588181b64550b829a031e1724e6430") {
+    if prime != crate::r1cs_file::modulus_le::<E>()? {
         bail!("invalid curve prime".to_string());
     }
     let witness_len = reader.read_u32::<LittleEndian>()?;
-- 
2.43.0


From d1cc8a5c2cdc4788a71a3bc6a42ec78dc9594192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:40 +0000
Subject: [PATCH 13/42] fix: report malformed constraint files as errors
 instead of panicking or looping

---
 algebraic-gpu/src/r1cs_file.rs | 58 ++++++++++++++++++----------------
 algebraic/src/r1cs_file.rs     | 58 ++++++++++++++++++----------------
 2 files changed, 62 insertions(+), 54 deletions(-)

diff --git a/algebraic-gpu/src/r1cs_file.rs b/algebraic-gpu/src/r1cs_file.rs
index b5c0c89..7a51626 100644
--- a/algebraic-gpu/src/r1cs_file.rs
+++ b/algebraic-gpu/src/r1cs_file.rs
@@ -61,6 +61,13 @@ const WIRE2LABEL_TYPE: u32 = 3;
 const CUSTOM_GATES_LIST: u32 = 4;
 const CUSTOM_GATES_USE: u32 = 5;
 
+/// the entry of a section that must be present
+fn section(sections: &BTreeMap<u32, u64>, section_type: u32) -> Result<u64> {
+    sections.get(&section_type).copied().ok_or_else(|| {
+        Error::new(ErrorKind::InvalidData, format!("Missing section {section_type}"))
+    })
+}
+
 fn read_header<R: Read>(mut reader: R, size: u64) -> Result<Header> {
     let field_size = reader.read_u32::<LittleEndian>()?;
     let mut prime_size = vec![0u8; field_size as usize];
@@ -124,25 +131,25 @@ fn read_map<R: Read>(mut reader: R, size: u64, header: &Header) -> Result<Vec<u6
     for _ in 0..header.n_wires {
         vec.push(reader.read_u64::<LittleEndian>()?);
     }
-    if vec[0] != 0 {
+    if vec.first() != Some(&0) {
         return Err(Error::new(ErrorKind::InvalidData, "Wire 0 should always be mapped to 0"));
     }
     Ok(vec)
 }
 
 // TODO: why does the `read_to_end` not work?
-fn read_to_string<R: Read>(mut reader: R) -> String {
+fn read_to_string<R: Read>(mut reader: R) -> Result<String> {
     let mut name_buf = vec![1u8; 1];
     let mut buf = vec![];
     loop {
-        let name_size_res = reader.read_exact(&mut name_buf);
+        reader.read_exact(&mut name_buf)?;
         if name_buf[0] != 0 {
             buf.push(name_buf[0]);
         } else {
             break;
         }
     }
-    String::from_utf8_lossy(&buf).to_string()
+    Ok(String::from_utf8_lossy(&buf).to_string())
 }
 
 fn read_custom_gates_list<R: Read, E: PrimeField>(
@@ -154,7 +161,7 @@ fn read_custom_gates_list<R: Read, E: PrimeField>(
     let mut custom_gates: Vec<CustomGates<E>> = vec![];
     for i in 0..num {
         let mut custom_gate =
-            CustomGates::<E> { template_name: read_to_string(&mut reader), parameters: vec![] };
+            CustomGates::<E> { template_name: read_to_string(&mut reader)?, parameters: vec![] };
         let num_parameters = reader.read_u32::<LittleEndian>()?;
         for _i in 0..num_parameters {
             custom_gate.parameters.push(read_field::<&mut R, E>(&mut reader)?);
@@ -171,24 +178,22 @@ fn read_custom_gates_uses_list<R: Read>(
 ) -> Result<Vec<CustomGatesUses>> {
     let mut custom_gates_uses: Vec<CustomGatesUses> = vec![];
 
-    let sz = size as usize / 4;
-    let mut b_r1cs32 = Vec::with_capacity(sz);
-    for _ in 0..sz {
-        b_r1cs32.push(reader.read_u32::<LittleEndian>()?);
-    }
+    let mut words_left = size / 4;
+    let mut next_word = || {
+        if words_left == 0 {
+            return Err(Error::new(ErrorKind::UnexpectedEof, "Truncated custom gates section"));
+        }
+        words_left -= 1;
+        reader.read_u32::<LittleEndian>()
+    };
 
-    let n_custom_gate_uses = b_r1cs32[0];
-    let mut b_r1cs_pos = 1;
+    let n_custom_gate_uses = next_word()?;
     for i in 0..n_custom_gate_uses {
-        let mut c = CustomGatesUses { id: b_r1cs32[b_r1cs_pos] as u64, ..Default::default() };
-        b_r1cs_pos += 1;
-        let num_signals = b_r1cs32[b_r1cs_pos];
-        b_r1cs_pos += 1;
+        let mut c = CustomGatesUses { id: next_word()? as u64, ..Default::default() };
+        let num_signals = next_word()?;
         for j in 0..num_signals {
-            let LSB = b_r1cs32[b_r1cs_pos] as u64;
-            b_r1cs_pos += 1;
-            let MSB = b_r1cs32[b_r1cs_pos] as u64;
-            b_r1cs_pos += 1;
+            let LSB = next_word()? as u64;
+            let MSB = next_word()? as u64;
             c.signals.push(MSB * 0x100000000u64 + LSB);
         }
         custom_gates_uses.push(c);
@@ -226,8 +231,8 @@ pub fn from_reader<R: Read + Seek, E: PrimeField>(mut reader: R) -> Result<R1CSF
         reader.seek(SeekFrom::Current(section_size as i64))?;
     }
 
-    reader.seek(SeekFrom::Start(*section_offsets.get(&HEADER_TYPE).unwrap()))?;
-    let mut header = read_header(&mut reader, *section_sizes.get(&HEADER_TYPE).unwrap())?;
+    reader.seek(SeekFrom::Start(section(&section_offsets, HEADER_TYPE)?))?;
+    let mut header = read_header(&mut reader, section(&section_sizes, HEADER_TYPE)?)?;
     if section_offsets.contains_key(&CUSTOM_GATES_USE)
         && section_offsets.contains_key(&CUSTOM_GATES_LIST)
     {
@@ -253,16 +258,15 @@ pub fn from_reader<R: Read + Seek, E: PrimeField>(mut reader: R) -> Result<R1CSF
     if header.prime_size != modulus_le::<E>()? {
         return Err(Error::new(ErrorKind::InvalidData, "Different prime"));
     }
-    reader.seek(SeekFrom::Start(*section_offsets.get(&CONSTRAINT_TYPE).unwrap()))?;
+    reader.seek(SeekFrom::Start(section(&section_offsets, CONSTRAINT_TYPE)?))?;
     let constraints = read_constraints::<&mut R, E>(
         &mut reader,
-        *section_sizes.get(&CONSTRAINT_TYPE).unwrap(),
+        section(&section_sizes, CONSTRAINT_TYPE)?,
         &header,
     )?;
 
-    reader.seek(SeekFrom::Start(*section_offsets.get(&WIRE2LABEL_TYPE).unwrap()))?;
-    let wire_mapping =
-        read_map(&mut reader, *section_sizes.get(&WIRE2LABEL_TYPE).unwrap(), &header)?;
+    reader.seek(SeekFrom::Start(section(&section_offsets, WIRE2LABEL_TYPE)?))?;
+    let wire_mapping = read_map(&mut reader, section(&section_sizes, WIRE2LABEL_TYPE)?, &header)?;
     let mut custom_gates: Vec<CustomGates<E>> = vec![];
     if section_offsets.contains_key(&CUSTOM_GATES_LIST) {
         reader.seek(SeekFrom::Start(*section_offsets.get(&CUSTOM_GATES_LIST).unwrap()))?;
diff --git a/algebraic/src/r1cs_file.rs b/algebraic/src/r1cs_file.rs
index e206088..f571296 100644
--- a/algebraic/src/r1cs_file.rs
+++ b/algebraic/src/r1cs_file.rs
@@ -54,6 +54,13 @@ const WIRE2LABEL_TYPE: u32 = 3;
 const CUSTOM_GATES_LIST: u32 = 4;
 const CUSTOM_GATES_USE: u32 = 5;
 
+/// the entry of a section that must be present
+fn section(sections: &BTreeMap<u32, u64>, section_type: u32) -> Result<u64> {
+    sections.get(&section_type).copied().ok_or_else(|| {
+        Error::new(ErrorKind::InvalidData, format!("Missing section {section_type}"))
+    })
+}
+
 fn read_header<R: Read>(mut reader: R, size: u64) -> Result<Header> {
     let field_size = reader.read_u32::<LittleEndian>()?;
     let mut prime_size = vec![0u8; field_size as usize];
@@ -117,25 +124,25 @@ fn read_map<R: Read>(mut reader: R, size: u64, header: &Header) -> Result<Vec<u6
     for _ in 0..header.n_wires {
         vec.push(reader.read_u64::<LittleEndian>()?);
     }
-    if vec[0] != 0 {
+    if vec.first() != Some(&0) {
         return Err(Error::new(ErrorKind::InvalidData, "Wire 0 should always be mapped to 0"));
     }
     Ok(vec)
 }
 
 // TODO: why does the `read_to_end` not work?
-fn read_to_string<R: Read>(mut reader: R) -> String {
+fn read_to_string<R: Read>(mut reader: R) -> Result<String> {
     let mut name_buf = vec![1u8; 1];
     let mut buf = vec![];
     loop {
-        let name_size_res = reader.read_exact(&mut name_buf);
+        reader.read_exact(&mut name_buf)?;
         if name_buf[0] != 0 {
             buf.push(name_buf[0]);
         } else {
             break;
         }
     }
-    String::from_utf8_lossy(&buf).to_string()
+    Ok(String::from_utf8_lossy(&buf).to_string())
 }
 
 fn read_custom_gates_list<R: Read, E: ScalarEngine>(
@@ -147,7 +154,7 @@ fn read_custom_gates_list<R: Read, E: ScalarEngine>(
     let mut custom_gates: Vec<CustomGates<E>> = vec![];
     for i in 0..num {
         let mut custom_gate =
-            CustomGates::<E> { template_name: read_to_string(&mut reader), parameters: vec![] };
+            CustomGates::<E> { template_name: read_to_string(&mut reader)?, parameters: vec![] };
         let num_parameters = reader.read_u32::<LittleEndian>()?;
         for _i in 0..num_parameters {
             custom_gate.parameters.push(read_field::<&mut R, E>(&mut reader)?);
@@ -164,24 +171,22 @@ fn read_custom_gates_uses_list<R: Read>(
 ) -> Result<Vec<CustomGatesUses>> {
     let mut custom_gates_uses: Vec<CustomGatesUses> = vec![];
 
-    let sz = size as usize / 4;
-    let mut b_r1cs32 = Vec::with_capacity(sz);
-    for _ in 0..sz {
-        b_r1cs32.push(reader.read_u32::<LittleEndian>()?);
-    }
+    let mut words_left = size / 4;
+    let mut next_word = || {
+        if words_left == 0 {
+            return Err(Error::new(ErrorKind::UnexpectedEof, "Truncated custom gates section"));
+        }
+        words_left -= 1;
+        reader.read_u32::<LittleEndian>()
+    };
 
-    let n_custom_gate_uses = b_r1cs32[0];
-    let mut b_r1cs_pos = 1;
+    let n_custom_gate_uses = next_word()?;
     for i in 0..n_custom_gate_uses {
-        let mut c = CustomGatesUses { id: b_r1cs32[b_r1cs_pos] as u64, ..Default::default() };
-        b_r1cs_pos += 1;
-        let num_signals = b_r1cs32[b_r1cs_pos];
-        b_r1cs_pos += 1;
+        let mut c = CustomGatesUses { id: next_word()? as u64, ..Default::default() };
+        let num_signals = next_word()?;
         for j in 0..num_signals {
-            let LSB = b_r1cs32[b_r1cs_pos] as u64;
-            b_r1cs_pos += 1;
-            let MSB = b_r1cs32[b_r1cs_pos] as u64;
-            b_r1cs_pos += 1;
+            let LSB = next_word()? as u64;
+            let MSB = next_word()? as u64;
             c.signals.push(MSB * 0x100000000u64 + LSB);
         }
         custom_gates_uses.push(c);
@@ -219,8 +224,8 @@ pub fn from_reader<R: Read + Seek, E: ScalarEngine>(mut reader: R) -> Result<R1C
         reader.seek(SeekFrom::Current(section_size as i64))?;
     }
 
-    reader.seek(SeekFrom::Start(*section_offsets.get(&HEADER_TYPE).unwrap()))?;
-    let mut header = read_header(&mut reader, *section_sizes.get(&HEADER_TYPE).unwrap())?;
+    reader.seek(SeekFrom::Start(section(&section_offsets, HEADER_TYPE)?))?;
+    let mut header = read_header(&mut reader, section(&section_sizes, HEADER_TYPE)?)?;
     if section_offsets.contains_key(&CUSTOM_GATES_USE)
         && section_offsets.contains_key(&CUSTOM_GATES_LIST)
     {
@@ -246,16 +251,15 @@ pub fn from_reader<R: Read + Seek, E: ScalarEngine>(mut reader: R) -> Result<R1C
     if header.prime_size != modulus_le::<E>()? {
         return Err(Error::new(ErrorKind::InvalidData, "Different prime"));
     }
-    reader.seek(SeekFrom::Start(*section_offsets.get(&CONSTRAINT_TYPE).unwrap()))?;
+    reader.seek(SeekFrom::Start(section(&section_offsets, CONSTRAINT_TYPE)?))?;
     let constraints = read_constraints::<&mut R, E>(
         &mut reader,
-        *section_sizes.get(&CONSTRAINT_TYPE).unwrap(),
+        section(&section_sizes, CONSTRAINT_TYPE)?,
         &header,
     )?;
 
-    reader.seek(SeekFrom::Start(*section_offsets.get(&WIRE2LABEL_TYPE).unwrap()))?;
-    let wire_mapping =
-        read_map(&mut reader, *section_sizes.get(&WIRE2LABEL_TYPE).unwrap(), &header)?;
+    reader.seek(SeekFrom::Start(section(&section_offsets, WIRE2LABEL_TYPE)?))?;
+    let wire_mapping = read_map(&mut reader, section(&section_sizes, WIRE2LABEL_TYPE)?, &header)?;
     let mut custom_gates: Vec<CustomGates<E>> = vec![];
     if section_offsets.contains_key(&CUSTOM_GATES_LIST) {
         reader.seek(SeekFrom::Start(*section_offsets.get(&CUSTOM_GATES_LIST).unwrap()))?;
-- 
2.43.0


From cd41135b17f8dc029d6571afba4940bec52d881f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:41 +0000
Subject: [PATCH 14/42] fix: do not reserve memory for counts announced by an
 untrusted file

---
 algebraic-gpu/src/r1cs_file.rs | 6 +++---
 algebraic-gpu/src/reader.rs    | 2 +-
 algebraic/src/r1cs_file.rs     | 6 +++---
 algebraic/src/reader.rs        | 2 +-
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/algebraic-gpu/src/r1cs_file.rs b/algebraic-gpu/src/r1cs_file.rs
index 7a51626..79cb4f3 100644
--- a/algebraic-gpu/src/r1cs_file.rs
+++ b/algebraic-gpu/src/r1cs_file.rs
@@ -94,7 +94,7 @@ fn read_constraint_vec<R: Read, E: PrimeField>(
     header: &Header,
 ) -> Result<Vec<(usize, E)>> {
     let n_vec = reader.read_u32::<LittleEndian>()? as usize;
-    let mut vec = Vec::with_capacity(n_vec);
+    let mut vec = vec![];
     for _ in 0..n_vec {
         vec.push((
             reader.read_u32::<LittleEndian>()? as usize,
@@ -112,7 +112,7 @@ fn read_constraints<R: Read, E: PrimeField>(
     header: &Header,
 ) -> Result<Vec<Constraint<E>>> {
     // todo check section size
-    let mut vec = Vec::with_capacity(header.n_constraints as usize);
+    let mut vec = vec![];
     for _ in 0..header.n_constraints {
         vec.push((
             read_constraint_vec::<&mut R, E>(&mut reader, header)?,
@@ -127,7 +127,7 @@ fn read_map<R: Read>(mut reader: R, size: u64, header: &Header) -> Result<Vec<u6
     if size != header.n_wires as u64 * 8 {
         return Err(Error::new(ErrorKind::InvalidData, "Invalid map section size"));
     }
-    let mut vec = Vec::with_capacity(header.n_wires as usize);
+    let mut vec = vec![];
     for _ in 0..header.n_wires {
         vec.push(reader.read_u64::<LittleEndian>()?);
     }
diff --git a/algebraic-gpu/src/reader.rs b/algebraic-gpu/src/reader.rs
index ef15d12..0b8e0c4 100644
--- a/algebraic-gpu/src/reader.rs
+++ b/algebraic-gpu/src/reader.rs
@@ -101,7 +101,7 @@ pub fn load_witness_from_bin_reader<E: PrimeField, R: Read>(mut reader: R) -> Re
     if sec_size != witness_len as u64 * field_size as u64 {
         bail!(format!("Invalid witness section size {}", sec_size));
     }
-    let mut result = Vec::with_capacity(witness_len as usize);
+    let mut result = vec![];
     for _ in 0..witness_len {
         let mut repr = E::default().to_repr();
         let repr_slice = repr.as_mut();
diff --git a/algebraic/src/r1cs_file.rs b/algebraic/src/r1cs_file.rs
index f571296..4ef721b 100644
--- a/algebraic/src/r1cs_file.rs
+++ b/algebraic/src/r1cs_file.rs
@@ -87,7 +87,7 @@ fn read_constraint_vec<R: Read, E: ScalarEngine>(
     header: &Header,
 ) -> Result<Vec<(usize, E::Fr)>> {
     let n_vec = reader.read_u32::<LittleEndian>()? as usize;
-    let mut vec = Vec::with_capacity(n_vec);
+    let mut vec = vec![];
     for _ in 0..n_vec {
         vec.push((
             reader.read_u32::<LittleEndian>()? as usize,
@@ -105,7 +105,7 @@ fn read_constraints<R: Read, E: ScalarEngine>(
     header: &Header,
 ) -> Result<Vec<Constraint<E>>> {
     // todo check section size
-    let mut vec = Vec::with_capacity(header.n_constraints as usize);
+    let mut vec = vec![];
     for _ in 0..header.n_constraints {
         vec.push((
             read_constraint_vec::<&mut R, E>(&mut reader, header)?,
@@ -120,7 +120,7 @@ fn read_map<R: Read>(mut reader: R, size: u64, header: &Header) -> Result<Vec<u6
     if size != header.n_wires as u64 * 8 {
         return Err(Error::new(ErrorKind::InvalidData, "Invalid map section size"));
     }
-    let mut vec = Vec::with_capacity(header.n_wires as usize);
+    let mut vec = vec![];
     for _ in 0..header.n_wires {
         vec.push(reader.read_u64::<LittleEndian>()?);
     }
diff --git a/algebraic/src/reader.rs b/algebraic/src/reader.rs
index 06d753b..d06466c 100644
--- a/algebraic/src/reader.rs
+++ b/algebraic/src/reader.rs
@@ -127,7 +127,7 @@ pub fn load_witness_from_bin_reader<E: ScalarEngine, R: Read>(mut reader: R) ->
     if sec_size != witness_len as u64 * field_size as u64 {
         bail!(format!("Invalid witness section size {}", sec_size));
     }
-    let mut result = Vec::with_capacity(witness_len as usize);
+    let mut result = vec![];
     for _ in 0..witness_len {
         let mut repr = E::Fr::zero().into_repr();
         repr.read_le(&mut reader)?;
-- 
2.43.0


From 2e8e6f22cb64d7f19fe45c9003cb8c1a1587452e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:23 +0000
Subject: [PATCH 15/42] fix: a constraint with a constant factor becomes k*B -
 C = 0, not k*B + C = 0

---
 recursion/src/r1cs2plonk.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/recursion/src/r1cs2plonk.rs b/recursion/src/r1cs2plonk.rs
index 7c22587..85f0e81 100644
--- a/recursion/src/r1cs2plonk.rs
+++ b/recursion/src/r1cs2plonk.rs
@@ -56,6 +56,7 @@ pub fn r1cs2plonk(r1cs: &R1CS<GL>) -> (Vec<PlonkGate>, Vec<PlonkAdd>) {
         lc.retain(|_, v| *v != FGL::ZERO);
     };
 
+    // k * lc1 - lc2
     let join =
         |lc1: &BTreeMap<usize, FGL>, k: &FGL, lc2: &BTreeMap<usize, FGL>| -> BTreeMap<usize, FGL> {
             let mut res: BTreeMap<usize, FGL> = BTreeMap::new();
@@ -70,10 +71,10 @@ pub fn r1cs2plonk(r1cs: &R1CS<GL>) -> (Vec<PlonkGate>, Vec<PlonkAdd>) {
 
             for (key, val) in lc2.iter() {
                 if !res.contains_key(key) {
-                    res.insert(*key, *val);
+                    res.insert(*key, val.neg());
                 } else {
                     let tmp = res[key];
-                    res.insert(*key, *val + tmp);
+                    res.insert(*key, tmp - *val);
                 }
             }
             normalize(&mut res);
-- 
2.43.0


From 6c07d12366126b60d5fa83025db5dd08c9df3000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:00 +0000
Subject: [PATCH 16/42] fix: the compressor exposes every public wire once,
 outputs were counted twice

---
 recursion/src/compressor12/plonk_setup.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/recursion/src/compressor12/plonk_setup.rs b/recursion/src/compressor12/plonk_setup.rs
index a2455d0..9a3946f 100644
--- a/recursion/src/compressor12/plonk_setup.rs
+++ b/recursion/src/compressor12/plonk_setup.rs
@@ -180,7 +180,8 @@ impl PlonkSetupRenderInfo {
         let custom_gates_info = CustomGateInfo::from_r1cs(r1cs);
 
         // 4. calculate columns,rows,constraints info.
-        let n_publics = r1cs.num_inputs + r1cs.num_outputs - 1;
+        // num_inputs counts the constant wire, the public outputs and the public inputs
+        let n_publics = r1cs.num_inputs - 1;
         let n_public_rows = (n_publics - 1) / 12 + 1;
 
         log::debug!("{n_publics} {n_public_rows} {} {:?}", plonk_info.N, custom_gates_info);
-- 
2.43.0


From 6ddce191f5b76d22d9cf2119552f6b1bb16ec376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:00 +0000
Subject: [PATCH 17/42] fix: reserve as many rows as the compressor's gate
 packing fills

---
 recursion/src/compressor12/plonk_setup.rs | 27 +++++++++++++++++------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/recursion/src/compressor12/plonk_setup.rs b/recursion/src/compressor12/plonk_setup.rs
index 9a3946f..c978f7e 100644
--- a/recursion/src/compressor12/plonk_setup.rs
+++ b/recursion/src/compressor12/plonk_setup.rs
@@ -53,7 +53,11 @@ pub(crate) struct NormalPlonkInfo {
 
 impl NormalPlonkInfo {
     pub(crate) fn new(plonk_constrains: &[PlonkGate]) -> Self {
-        let mut uses: BTreeMap<String, usize> = BTreeMap::new();
+        // Count the rows that plonk_setup_compressor fills: a row holds two gates of one kind in
+        // each half, and its second half is opened only after the first one is complete.
+        let mut partial: BTreeMap<String, usize> = BTreeMap::new();
+        let mut half_rows = 0;
+        let mut N = 0;
         let plonk_constrains_len = plonk_constrains.len();
         for (i, c) in plonk_constrains.iter().enumerate() {
             if (i % 10000) == 0 {
@@ -61,13 +65,22 @@ impl NormalPlonkInfo {
             }
             let k = c.str_key();
 
-            uses.entry(k.clone()).and_modify(|e| *e += 1).or_insert_with(|| 1);
+            if let Some(n_used) = partial.get_mut(&k) {
+                *n_used += 1;
+                if *n_used == 2 {
+                    half_rows += 1;
+                    partial.remove(&k);
+                } else if *n_used == 4 {
+                    partial.remove(&k);
+                }
+            } else if half_rows > 0 {
+                half_rows -= 1;
+                partial.insert(k, 3);
+            } else {
+                N += 1;
+                partial.insert(k, 1);
+            }
         }
-        let mut result = uses.values().collect::<Vec<_>>();
-        result.sort(); // sort by asc
-
-        let mut N = result.iter().fold(0, |acc, x| acc + (**x - 1) / 2 + 1);
-        N = (N - 1) / 2 + 1;
 
         Self {
             N,
-- 
2.43.0


From 5e5286f35fab2496e27419f2cfe6ef72ae3ada2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:00 +0000
Subject: [PATCH 18/42] fix: a custom gate that is absent does not claim gate
 number 0

---
 recursion/src/compressor12/plonk_setup.rs | 30 +++++++++++------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/recursion/src/compressor12/plonk_setup.rs b/recursion/src/compressor12/plonk_setup.rs
index c978f7e..3804c0b 100644
--- a/recursion/src/compressor12/plonk_setup.rs
+++ b/recursion/src/compressor12/plonk_setup.rs
@@ -93,10 +93,10 @@ impl NormalPlonkInfo {
 
 #[derive(Debug)]
 pub(crate) struct CustomGateInfo {
-    pub(crate) poseidon_id: u64,
-    pub(crate) c_mul_add_id: u64,
+    pub(crate) poseidon_id: Option<u64>,
+    pub(crate) c_mul_add_id: Option<u64>,
     pub(crate) fft_params: BTreeMap<usize, Vec<FGL>>,
-    pub(crate) ev_pol_id: u64,
+    pub(crate) ev_pol_id: Option<u64>,
 
     pub(crate) n_poseidon: u64,
     pub(crate) n_c_mul_add: u64,
@@ -113,24 +113,24 @@ impl CustomGateInfo {
     }
 
     fn from_r1cs(r1cs: &R1CS<GL>) -> Self {
-        let mut c_mul_add_id = 0;
-        let mut poseidon_id = 0;
-        let mut ev_pol_id = 0;
+        let mut c_mul_add_id = None;
+        let mut poseidon_id = None;
+        let mut ev_pol_id = None;
         // let mut fft_params = vec![vec![]; r1cs.custom_gates.len()];
         let mut fft_params: BTreeMap<usize, Vec<FGL>> = BTreeMap::new();
 
         for (i, c) in r1cs.custom_gates.iter().enumerate() {
             match c.template_name.as_str() {
                 "CMulAdd" => {
-                    c_mul_add_id = i as u64;
+                    c_mul_add_id = Some(i as u64);
                     assert!(c.parameters.is_empty());
                 }
                 "Poseidon12" => {
-                    poseidon_id = i as u64;
+                    poseidon_id = Some(i as u64);
                     assert!(c.parameters.is_empty());
                 }
                 "EvPol4" => {
-                    ev_pol_id = i as u64;
+                    ev_pol_id = Some(i as u64);
                     assert!(c.parameters.is_empty());
                 }
                 "FFT4" => {
@@ -145,13 +145,13 @@ impl CustomGateInfo {
         let mut n_fft = 0;
         let mut n_ev_pol = 0;
         for c in r1cs.custom_gates_uses.iter() {
-            if c.id == c_mul_add_id {
+            if Some(c.id) == c_mul_add_id {
                 n_c_mul_add += 1;
-            } else if c.id == poseidon_id {
+            } else if Some(c.id) == poseidon_id {
                 n_poseidon += 1;
             } else if Self::check_fft_param_defined(&fft_params, c.id) {
                 n_fft += 1;
-            } else if c.id == ev_pol_id {
+            } else if Some(c.id) == ev_pol_id {
                 n_ev_pol += 1;
             } else {
                 panic!("Custom gate not defined {}", c.id);
@@ -398,7 +398,7 @@ pub fn plonk_setup_compressor(
         if (i % 10000) == 0 {
             log::trace!("Processing custom gates... {}/{}", i, r1cs.custom_gates_uses.len());
         }
-        if cgu.id == custom_gates_info.poseidon_id {
+        if Some(cgu.id) == custom_gates_info.poseidon_id {
             assert_eq!(cgu.signals.len(), 31 * 12);
             for j in 0..31 {
                 let index = r + j;
@@ -443,7 +443,7 @@ pub fn plonk_setup_compressor(
                 );
             }
             r += 31;
-        } else if cgu.id == custom_gates_info.c_mul_add_id {
+        } else if Some(cgu.id) == custom_gates_info.c_mul_add_id {
             if r < n_used {
                 for (j, map) in s_map.iter_mut().enumerate().take(12) {
                     map[r] = cgu.signals[j];
@@ -604,7 +604,7 @@ pub fn plonk_setup_compressor(
                 );
             }
             r += 2;
-        } else if cgu.id == custom_gates_info.ev_pol_id {
+        } else if Some(cgu.id) == custom_gates_info.ev_pol_id {
             for (j, map) in s_map.iter_mut().enumerate().take(12) {
                 map[r] = cgu.signals[j];
                 const_pols.set_matrix(
-- 
2.43.0


From 9a4eee459d6f1b7fc9501b36794cd6aef6ab3ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:49 +0000
Subject: [PATCH 19/42] fix: a circuit without public wires takes no public
 rows, instead of underflowing

---
 recursion/src/compressor12/plonk_setup.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recursion/src/compressor12/plonk_setup.rs b/recursion/src/compressor12/plonk_setup.rs
index 3804c0b..bbc256a 100644
--- a/recursion/src/compressor12/plonk_setup.rs
+++ b/recursion/src/compressor12/plonk_setup.rs
@@ -195,7 +195,7 @@ impl PlonkSetupRenderInfo {
         // 4. calculate columns,rows,constraints info.
         // num_inputs counts the constant wire, the public outputs and the public inputs
         let n_publics = r1cs.num_inputs - 1;
-        let n_public_rows = (n_publics - 1) / 12 + 1;
+        let n_public_rows = n_publics.div_ceil(12);
 
         log::debug!("{n_publics} {n_public_rows} {} {:?}", plonk_info.N, custom_gates_info);
         let n_used = n_public_rows
@@ -232,7 +232,7 @@ pub fn plonk_setup_compressor(
 
     let n_used = plonk_setup_info.n_used;
     let n_publics = plonk_setup_info.n_publics;
-    let n_public_rows = (n_publics - 1) / 12 + 1;
+    let n_public_rows = n_publics.div_ceil(12);
 
     log::debug!("n_used {n_used}, n_publics {n_publics}, rows: {n_public_rows}");
     // 2. init sMap and construct it.
-- 
2.43.0


From 592d7dc9a5af317acb1cd77b142d583dffeddba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:37 +0000
Subject: [PATCH 20/42] fix: column files are read in full or refused, a
 truncated one made the reader spin

---
 starky/src/polsarray.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/starky/src/polsarray.rs b/starky/src/polsarray.rs
index 325496b..99536b6 100644
--- a/starky/src/polsarray.rs
+++ b/starky/src/polsarray.rs
@@ -150,23 +150,16 @@ impl PolsArray {
                 k / 1024 / 1024,
                 totalSize / 1024 / 1024
             );
-            let mut n = std::cmp::min(buff8.len() / 8, totalSize - k);
-            let rs = f.read(&mut buff8[..(n * 8)])?;
-            log::trace!(
-                "read size: read size = {}, n = {}, k = {}, totalSize = {}",
-                rs,
-                n,
-                k,
-                totalSize
-            );
+            let n = std::cmp::min(buff8.len() / 8, totalSize - k);
+            // a short read must neither split an element nor spin at the end of the file
+            f.read_exact(&mut buff8[..(n * 8)])?;
+            log::trace!("read: n = {}, k = {}, totalSize = {}", n, k, totalSize);
             let buff: &[u64] = unsafe {
                 std::slice::from_raw_parts(
                     buff8.as_ptr() as *const u64,
                     buff8.len() / std::mem::size_of::<u64>(),
                 )
             };
-            n = rs / 8;
-
             for l in 0..n {
                 self.array[i][j] = FGL::from(buff[l]);
                 i += 1;
-- 
2.43.0


From 59be784cddfb7c9f00369adaa741032c34c32252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:37 +0000
Subject: [PATCH 21/42] fix: the last block of a column file holds only the
 words that remain

---
 starky/src/polsarray.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starky/src/polsarray.rs b/starky/src/polsarray.rs
index 99536b6..db9c15e 100644
--- a/starky/src/polsarray.rs
+++ b/starky/src/polsarray.rs
@@ -201,7 +201,7 @@ impl PolsArray {
             let buff8: &[u8] = unsafe {
                 std::slice::from_raw_parts(
                     buff.as_ptr() as *const u8,
-                    buff.len() * std::mem::size_of::<u64>(),
+                    p * std::mem::size_of::<u64>(),
                 )
             };
             writer.write_all(buff8)?;
-- 
2.43.0


From ed99e7eb7ca249f02d5d8a171694746cec1276bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:15 +0000
Subject: [PATCH 22/42] fix: projective points off the curve are reported as
 errors, the constructor asserted before the checks

---
 recursion-gnark/ffi/src/traits.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/recursion-gnark/ffi/src/traits.rs b/recursion-gnark/ffi/src/traits.rs
index 1470584..cb8e0c3 100644
--- a/recursion-gnark/ffi/src/traits.rs
+++ b/recursion-gnark/ffi/src/traits.rs
@@ -160,7 +160,7 @@ mod $mod_name {
                 let x = parse_field(x)?;
                 let y = parse_field(y)?;
                 let z = parse_field(z)?;
-                let p = Self::G1Affine::from($curve::G1Projective::new(x, y, z));
+                let p = Self::G1Affine::from($curve::G1Projective::new_unchecked(x, y, z));
                 if p.is_zero() {
                     return Ok(p);
                 }
@@ -203,7 +203,7 @@ mod $mod_name {
                 let x = $curve::Fq2::new(x0, x1);
                 let y = $curve::Fq2::new(y0, y1);
                 let z = $curve::Fq2::new(z0, z1);
-                let p = $curve::G2Affine::from($curve::G2Projective::new(x, y, z));
+                let p = $curve::G2Affine::from($curve::G2Projective::new_unchecked(x, y, z));
                 if p.is_zero() {
                     return Ok(p);
                 }
@@ -486,8 +486,8 @@ where
                 z.len()
             )))
         } else {
-            Ok(P::g2_from_strings_projective(&x[0], &x[1], &y[0], &y[1], &z[0], &z[1], self.check)
-                .unwrap())
+            P::g2_from_strings_projective(&x[0], &x[1], &y[0], &y[1], &z[0], &z[1], self.check)
+                .map_err(|_| de::Error::custom("Invalid projective point on G2.".to_owned()))
         }
     }
 }
-- 
2.43.0


From 402f76efc529605a76a36e2ebe8718c5e06ffb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:15 +0000
Subject: [PATCH 23/42] fix: the point at infinity of G2 is written like that
 of G1, instead of panicking

---
 recursion-gnark/ffi/src/traits.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/recursion-gnark/ffi/src/traits.rs b/recursion-gnark/ffi/src/traits.rs
index cb8e0c3..4602ebb 100644
--- a/recursion-gnark/ffi/src/traits.rs
+++ b/recursion-gnark/ffi/src/traits.rs
@@ -219,8 +219,14 @@ mod $mod_name {
             }
 
             fn serialize_g2<S: Serializer>(p: &Self::G2Affine, ser: S) -> Result<S::Ok, S::Error> {
-                let (x, y) = p.xy().unwrap();
                 let mut x_seq = ser.serialize_seq(Some(3))?;
+                let Some((x, y)) = p.xy() else {
+                    //point at infinity
+                    x_seq.serialize_element(&vec!["0", "0"])?;
+                    x_seq.serialize_element(&vec!["1", "0"])?;
+                    x_seq.serialize_element(&vec!["0", "0"])?;
+                    return x_seq.end();
+                };
                 x_seq.serialize_element(&vec![x.c0.to_string(), x.c1.to_string()])?;
                 x_seq.serialize_element(&vec![y.c0.to_string(), y.c1.to_string()])?;
                 x_seq.serialize_element(&vec!["1", "0"])?;
-- 
2.43.0


From 8b839723df274b5344b8619252a368c49b18b77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:15 +0000
Subject: [PATCH 24/42] fix: a vector of points cut short is an error of the
 reader, not a panic

---
 recursion-gnark/ffi/src/traits.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recursion-gnark/ffi/src/traits.rs b/recursion-gnark/ffi/src/traits.rs
index 4602ebb..bafbf31 100644
--- a/recursion-gnark/ffi/src/traits.rs
+++ b/recursion-gnark/ffi/src/traits.rs
@@ -554,7 +554,7 @@ where
         check: CheckElement,
     ) -> IoResult<Vec<Self::G1Affine>> {
         let mut buf = vec![0u8; Self::G1_SERIALIZED_BYTE_SIZE_UNCOMPRESSED * num];
-        reader.read_exact(&mut buf).unwrap();
+        reader.read_exact(&mut buf)?;
         buf.par_chunks_exact(Self::G1_SERIALIZED_BYTE_SIZE_UNCOMPRESSED)
             .map(|chunk| Self::g1_from_bytes(chunk, check))
             .collect::<Result<Vec<_>, SerializationError>>()
@@ -567,7 +567,7 @@ where
         check: CheckElement,
     ) -> IoResult<Vec<Self::G2Affine>> {
         let mut buf = vec![0u8; Self::G2_SERIALIZED_BYTE_SIZE_UNCOMPRESSED * num];
-        reader.read_exact(&mut buf).unwrap();
+        reader.read_exact(&mut buf)?;
         buf.par_chunks_exact(Self::G2_SERIALIZED_BYTE_SIZE_UNCOMPRESSED)
             .map(|chunk| Self::g2_from_bytes(chunk, check))
             .collect::<Result<Vec<_>, SerializationError>>()
-- 
2.43.0


From c7849acab9721550cb5258d4095599718bc4f5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:34 +0000
Subject: [PATCH 25/42] fix: report a circuit's failing getVersion instead of
 assuming version 1

---
 algebraic-gpu/src/witness/witness_calculator.rs | 2 +-
 algebraic/src/witness/witness_calculator.rs     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/algebraic-gpu/src/witness/witness_calculator.rs b/algebraic-gpu/src/witness/witness_calculator.rs
index 3dec413..7303af5 100644
--- a/algebraic-gpu/src/witness/witness_calculator.rs
+++ b/algebraic-gpu/src/witness/witness_calculator.rs
@@ -84,7 +84,7 @@ impl WitnessCalculator {
             instance: Wasm,
             memory: Memory,
         ) -> Result<WitnessCalculator> {
-            let version = instance.get_version(store).unwrap_or(1);
+            let version = instance.get_version(store)?;
 
             let n32 = instance.get_field_num_len32(store)?;
             let mut safe_memory = SafeMemory::new(memory, n32 as usize, BigInt::zero());
diff --git a/algebraic/src/witness/witness_calculator.rs b/algebraic/src/witness/witness_calculator.rs
index a1a19d9..875035c 100644
--- a/algebraic/src/witness/witness_calculator.rs
+++ b/algebraic/src/witness/witness_calculator.rs
@@ -84,7 +84,7 @@ impl WitnessCalculator {
             instance: Wasm,
             memory: Memory,
         ) -> Result<WitnessCalculator> {
-            let version = instance.get_version(store).unwrap_or(1);
+            let version = instance.get_version(store)?;
 
             let n32 = instance.get_field_num_len32(store)?;
             let mut safe_memory = SafeMemory::new(memory, n32 as usize, BigInt::zero());
-- 
2.43.0


From 68fd2cdc3070bfe7a183dba750f1d8e65369dea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:34 +0000
Subject: [PATCH 26/42] fix: flush the witness writer so a failed last write is
 reported

---
 algebraic-gpu/src/witness/witness_calculator.rs | 1 +
 algebraic/src/witness/witness_calculator.rs     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/algebraic-gpu/src/witness/witness_calculator.rs b/algebraic-gpu/src/witness/witness_calculator.rs
index 7303af5..c7205f9 100644
--- a/algebraic-gpu/src/witness/witness_calculator.rs
+++ b/algebraic-gpu/src/witness/witness_calculator.rs
@@ -242,6 +242,7 @@ impl WitnessCalculator {
         for w in wtns {
             writer.write_u32::<LittleEndian>(*w)?;
         }
+        writer.flush()?;
         Ok(())
     }
 }
diff --git a/algebraic/src/witness/witness_calculator.rs b/algebraic/src/witness/witness_calculator.rs
index 875035c..a593cfe 100644
--- a/algebraic/src/witness/witness_calculator.rs
+++ b/algebraic/src/witness/witness_calculator.rs
@@ -242,6 +242,7 @@ impl WitnessCalculator {
         for w in wtns {
             writer.write_u32::<LittleEndian>(*w)?;
         }
+        writer.flush()?;
         Ok(())
     }
 }
-- 
2.43.0


From 2131d3ecd15ff9fc3c892d66459279115a38a325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:34 +0000
Subject: [PATCH 27/42] fix: fail the witness calculation when the circuit
 raises an exception

---
 algebraic-gpu/src/witness/witness_calculator.rs | 5 +++--
 algebraic/src/witness/witness_calculator.rs     | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/algebraic-gpu/src/witness/witness_calculator.rs b/algebraic-gpu/src/witness/witness_calculator.rs
index c7205f9..6cd1c29 100644
--- a/algebraic-gpu/src/witness/witness_calculator.rs
+++ b/algebraic-gpu/src/witness/witness_calculator.rs
@@ -315,8 +315,9 @@ mod runtime {
 
     // Circom 2.0
     pub fn exception_handler(store: &mut Store) -> Function {
-        #[allow(unused)]
-        fn func(a: i32) {}
+        fn func(code: i32) -> std::result::Result<(), wasmer::RuntimeError> {
+            Err(wasmer::RuntimeError::new(format!("circom exception, code {code}")))
+        }
         Function::new_typed(store, func)
     }
 
diff --git a/algebraic/src/witness/witness_calculator.rs b/algebraic/src/witness/witness_calculator.rs
index a593cfe..2a1582a 100644
--- a/algebraic/src/witness/witness_calculator.rs
+++ b/algebraic/src/witness/witness_calculator.rs
@@ -315,8 +315,9 @@ mod runtime {
 
     // Circom 2.0
     pub fn exception_handler(store: &mut Store) -> Function {
-        #[allow(unused)]
-        fn func(a: i32) {}
+        fn func(code: i32) -> std::result::Result<(), wasmer::RuntimeError> {
+            Err(wasmer::RuntimeError::new(format!("circom exception, code {code}")))
+        }
         Function::new_typed(store, func)
     }
 
-- 
2.43.0


From cf88bed2920035a2d6c63bf6dc2255d7b2800853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:34 +0000
Subject: [PATCH 28/42] fix: fail the compilation when circom's C++ or wasm
 output cannot be written

---
 dsl_compile/src/compilation_user.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/dsl_compile/src/compilation_user.rs b/dsl_compile/src/compilation_user.rs
index dbe1abb..406f504 100644
--- a/dsl_compile/src/compilation_user.rs
+++ b/dsl_compile/src/compilation_user.rs
@@ -48,7 +48,7 @@ pub fn compile(config: CompilerConfig) -> Result<()> {
         ) {
             Ok(()) => (),
 
-            _ => log::error!("compiler_interface::write_c"),
+            _ => bail!(DslError::CircomCompileError("compiler_interface::write_c error".to_string())),
         };
         log::trace!(
             "{} {} and {}",
@@ -81,7 +81,9 @@ pub fn compile(config: CompilerConfig) -> Result<()> {
             ) {
                 Ok(()) => (),
 
-                _ => log::error!("compiler_interface::run_compiler"),
+                _ => bail!(DslError::CircomCompileError(
+                    "compiler_interface::write_wasm error".to_string(),
+                )),
             };
             log::trace!("{} {}", Colour::Green.paint("Written successfully:"), config.wat_file);
             return wat_to_wasm(&config.wat_file, &config.wasm_file);
@@ -95,7 +97,9 @@ pub fn compile(config: CompilerConfig) -> Result<()> {
             ) {
                 Ok(()) => (),
 
-                _ => log::error!("compiler_interface::write_wasm error"),
+                _ => bail!(DslError::CircomCompileError(
+                    "compiler_interface::write_wasm error".to_string(),
+                )),
             };
             let result = wat_to_wasm(&config.wat_file, &config.wasm_file);
             std::fs::remove_file(&config.wat_file).unwrap();
@@ -109,7 +113,9 @@ pub fn compile(config: CompilerConfig) -> Result<()> {
                 &config.wat_file,
             ) {
                 Ok(()) => (),
-                _ => log::error!("compiler_interface::write_wasm error"),
+                _ => bail!(DslError::CircomCompileError(
+                    "compiler_interface::write_wasm error".to_string(),
+                )),
             };
             log::trace!("{} {}", Colour::Green.paint("Written successfully:"), config.wat_file);
         }
-- 
2.43.0


From 03475d0bee6f2557eaa34f0bf3358bef0bbc3fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:34 +0000
Subject: [PATCH 29/42] fix: stop on an unreadable verifying key or an invalid
 inner proof

---
 recursion-gnark/ffi/go/eigen/build.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/recursion-gnark/ffi/go/eigen/build.go b/recursion-gnark/ffi/go/eigen/build.go
index 33a94f7..94ab40e 100644
--- a/recursion-gnark/ffi/go/eigen/build.go
+++ b/recursion-gnark/ffi/go/eigen/build.go
@@ -41,7 +41,9 @@ func BuildGroth16(vk_path string, outputDir string, verifyCmdProof string, publi
 		panic(err)
 	}
 	vk := groth16.NewVerifyingKey(ecc.BN254)
-	vk.ReadFrom(vkFile)
+	if _, err := vk.ReadFrom(vkFile); err != nil {
+		panic(err)
+	}
 	vkBN254, ok := vk.(*groth16_bn254.VerifyingKey)
 	if !ok {
 		panic("failed to convert vk")
@@ -58,7 +60,7 @@ func BuildGroth16(vk_path string, outputDir string, verifyCmdProof string, publi
 	}
 
 	// Verify the proof outside a recursive circuit
-	groth16_bn254.Verify(proofBN254, vkBN254, publicInputs)
+	err = groth16_bn254.Verify(proofBN254, vkBN254, publicInputs)
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From 2dae22b8954849c0ae058c2fde7bfea622ba0c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:13 +0000
Subject: [PATCH 30/42] fix: do not call BR while holding the lock it takes

---
 starky/src/fft_p.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/starky/src/fft_p.rs b/starky/src/fft_p.rs
index 35a1a7a..6657d56 100644
--- a/starky/src/fft_p.rs
+++ b/starky/src/fft_p.rs
@@ -54,13 +54,7 @@ fn BRs(start: usize, end: usize, domain_pow: usize) -> Vec<usize> {
 
     // 2. get cache by domain_pow
     let map = BR_CACHE.lock().unwrap();
-    let cache = if map.contains_key(&domain_pow) {
-        map.get(&domain_pow).unwrap()
-    } else {
-        // double check
-        BR(end, domain_pow);
-        map.get(&domain_pow).unwrap()
-    };
+    let cache = map.get(&domain_pow).unwrap();
 
     (start..end).map(|i| cache[i]).collect()
 }
-- 
2.43.0


From ce8c75da748790b6888fcf707d0ae6c0c1f6f1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:13 +0000
Subject: [PATCH 31/42] fix: extend the bit-reversal cache to the index asked
 for

---
 starky/src/fft_p.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starky/src/fft_p.rs b/starky/src/fft_p.rs
index 6657d56..a3e2d73 100644
--- a/starky/src/fft_p.rs
+++ b/starky/src/fft_p.rs
@@ -33,7 +33,7 @@ pub fn BR(x: usize, domain_pow: usize) -> usize {
     // check if need append more to cache
     let cache_len = cache.len();
     let n = 1 << domain_pow;
-    if cache_len <= n || cache_len < x {
+    if cache_len <= n || cache_len <= x {
         let end = if n >= x { n } else { x };
         // todo parallel
         for i in cache_len..=end {
-- 
2.43.0


From 05521c0f79174ecb203bc28cdaf4158f17ec4c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:14 +0000
Subject: [PATCH 32/42] fix: do not give -s to both stark_struct and skip_main

---
 zkit/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zkit/src/main.rs b/zkit/src/main.rs
index e6854be..2a05ef2 100644
--- a/zkit/src/main.rs
+++ b/zkit/src/main.rs
@@ -103,7 +103,7 @@ struct StarkProveOpt {
     piljson: String,
     #[arg(short, long = "norm_stage", action= clap::ArgAction::SetTrue)]
     norm_stage: bool,
-    #[arg(short, long = "skip_main", action= clap::ArgAction::SetTrue)]
+    #[arg(long = "skip_main", action= clap::ArgAction::SetTrue)]
     skip_main: bool,
     #[arg(short, long = "agg_stage", action= clap::ArgAction::SetTrue)]
     agg_stage: bool,
-- 
2.43.0


From a6990fd35d2cf4267cb3b967d9752e8eb21f9692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:13 +0000
Subject: [PATCH 33/42] fix: compare the trace size with the degree of every
 referenced polynomial, not with an arbitrary one

---
 starky/src/starkinfo.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/starky/src/starkinfo.rs b/starky/src/starkinfo.rs
index 7ec82e9..b9f85dd 100644
--- a/starky/src/starkinfo.rs
+++ b/starky/src/starkinfo.rs
@@ -162,11 +162,9 @@ impl StarkInfo {
         stark_struct: &StarkStruct,
         global_l1: Option<String>,
     ) -> Result<(StarkInfo, Program)> {
-        let pil_deg = pil.references.values().next().unwrap().polDeg;
-
         let stark_deg = 2usize.pow(stark_struct.nBits as u32);
 
-        if stark_deg != pil_deg {
+        if pil.references.values().any(|r| r.polDeg != stark_deg) {
             bail!("stark_deg != pil_deg");
         }
 
-- 
2.43.0


From e3349193e156a6dc7adae77f4d5c937d38d9aec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:13 +0000
Subject: [PATCH 34/42] fix: serialise the evaluation index in key order

---
 starky/src/starkinfo_codegen.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/starky/src/starkinfo_codegen.rs b/starky/src/starkinfo_codegen.rs
index 635340f..631bc5b 100644
--- a/starky/src/starkinfo_codegen.rs
+++ b/starky/src/starkinfo_codegen.rs
@@ -241,14 +241,15 @@ pub struct EVIdx {
     pub const_: HashMap<(usize, usize), usize>,
 }
 
-fn serialize_map<S, K: Serialize, V: Serialize>(
+fn serialize_map<S, K: Ord + Serialize, V: Serialize>(
     value: &HashMap<K, V>,
     serializer: S,
 ) -> std::result::Result<S::Ok, S::Error>
 where
     S: serde::Serializer,
 {
-    let vec_map = value.iter().collect::<Vec<_>>();
+    let mut vec_map = value.iter().collect::<Vec<_>>();
+    vec_map.sort_by_key(|(key, _)| *key);
     let mut map = serializer.serialize_seq(Some(value.len()))?;
     for v in &vec_map {
         map.serialize_element(v)?;
-- 
2.43.0


From a6f01ef9dcb6dabf9515b8dd14b482190b2e285a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:22 +0000
Subject: [PATCH 35/42] fix: serialise the maps of StarkInfo in key order

---
 starky/src/starkinfo.rs | 3 +++
 starky/src/types.rs     | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/starky/src/starkinfo.rs b/starky/src/starkinfo.rs
index b9f85dd..4e1b196 100644
--- a/starky/src/starkinfo.rs
+++ b/starky/src/starkinfo.rs
@@ -58,10 +58,12 @@ pub struct StarkInfo {
     pub n_publics: usize,
     pub c_exp: usize,
 
+    #[serde(serialize_with = "crate::types::ordered_map")]
     pub im_exps: HashMap<usize, bool>,
     pub q_deg: usize,
     pub q_dim: usize,
     pub im_exps_list: Vec<usize>,
+    #[serde(serialize_with = "crate::types::ordered_map")]
     pub im_exp2cm: HashMap<usize, usize>,
 
     pub qs: Vec<usize>,
@@ -85,6 +87,7 @@ pub struct StarkInfo {
     pub map_offsets: Index,
     pub map_deg: Index,
     pub map_total_n: usize,
+    #[serde(serialize_with = "crate::types::ordered_map")]
     pub exp2pol: HashMap<usize, usize>,
 
     pub publics: Vec<Public>,
diff --git a/starky/src/types.rs b/starky/src/types.rs
index 5432b9f..f17c249 100644
--- a/starky/src/types.rs
+++ b/starky/src/types.rs
@@ -162,7 +162,7 @@ pub struct PIL {
 /// Sorted serialization of HashMap.
 ///
 /// For use with serde's [serialize_with] attribute.
-fn ordered_map<S, K: Ord + Serialize, V: Serialize>(
+pub(crate) fn ordered_map<S, K: Ord + Serialize, V: Serialize>(
     value: &HashMap<K, V>,
     serializer: S,
 ) -> std::result::Result<S::Ok, S::Error>
-- 
2.43.0


From 44be11930044d0a35d663efb8268fa925469a3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:39 +0000
Subject: [PATCH 36/42] fix: verify_group_proof rejects indices beyond the tree
 and levels with missing or extra siblings

---
 starky/src/merklehash.rs          | 7 +++++++
 starky/src/merklehash_bls12381.rs | 7 +++++++
 starky/src/merklehash_bn128.rs    | 7 +++++++
 starky/src/traits.rs              | 2 ++
 4 files changed, 23 insertions(+)

diff --git a/starky/src/merklehash.rs b/starky/src/merklehash.rs
index d924cb3..a3ad9cb 100644
--- a/starky/src/merklehash.rs
+++ b/starky/src/merklehash.rs
@@ -256,6 +256,7 @@ impl MerkleTree for MerkleTreeGL {
     type BaseField = FGL;
     type MTNode = ElementDigest<4, FGL>;
     type ExtendField = F3G;
+    const ARITY_BITS: usize = 1;
     fn new() -> Self {
         Self {
             nodes: Vec::new(),
@@ -452,6 +453,12 @@ impl MerkleTree for MerkleTreeGL {
         idx: usize,
         group_elements: &[FGL],
     ) -> Result<bool> {
+        // every level has all its siblings, and the path is as deep as the index is long
+        if mp.iter().any(|siblings| siblings.len() != 4)
+            || idx.checked_shr((mp.len() * Self::ARITY_BITS) as u32).unwrap_or(0) != 0
+        {
+            return Ok(false);
+        }
         let c_root = self.calculate_root_from_group_proof(mp, idx, group_elements)?;
         Ok(self.eq_root(root, &c_root))
     }
diff --git a/starky/src/merklehash_bls12381.rs b/starky/src/merklehash_bls12381.rs
index 8abaccf..89b5409 100644
--- a/starky/src/merklehash_bls12381.rs
+++ b/starky/src/merklehash_bls12381.rs
@@ -151,6 +151,7 @@ impl MerkleTree for MerkleTreeBLS12381 {
     type BaseField = Fr;
     type MTNode = ElementDigest<4, Fr>;
     type ExtendField = F3G;
+    const ARITY_BITS: usize = 4;
     fn new() -> Self {
         Self {
             nodes: Vec::new(),
@@ -261,6 +262,12 @@ impl MerkleTree for MerkleTreeBLS12381 {
         idx: usize,
         group_elements: &[FGL],
     ) -> Result<bool> {
+        // every level has all its siblings, and the path is as deep as the index is long
+        if mp.iter().any(|siblings| siblings.len() != 16)
+            || idx.checked_shr((mp.len() * Self::ARITY_BITS) as u32).unwrap_or(0) != 0
+        {
+            return Ok(false);
+        }
         let c_root = self.calculate_root_from_group_proof(mp, idx, group_elements)?;
         Ok(self.eq_root(root, &c_root))
     }
diff --git a/starky/src/merklehash_bn128.rs b/starky/src/merklehash_bn128.rs
index b20de3e..fdbdca5 100644
--- a/starky/src/merklehash_bn128.rs
+++ b/starky/src/merklehash_bn128.rs
@@ -150,6 +150,7 @@ impl MerkleTree for MerkleTreeBN128 {
     type BaseField = Fr;
     type MTNode = ElementDigest<4, Fr>;
     type ExtendField = F3G;
+    const ARITY_BITS: usize = 4;
 
     fn new() -> Self {
         Self {
@@ -257,6 +258,12 @@ impl MerkleTree for MerkleTreeBN128 {
         idx: usize,
         group_elements: &[FGL],
     ) -> Result<bool> {
+        // every level has all its siblings, and the path is as deep as the index is long
+        if mp.iter().any(|siblings| siblings.len() != 16)
+            || idx.checked_shr((mp.len() * Self::ARITY_BITS) as u32).unwrap_or(0) != 0
+        {
+            return Ok(false);
+        }
         let c_root = self.calculate_root_from_group_proof(mp, idx, group_elements)?;
         Ok(self.eq_root(root, &c_root))
     }
diff --git a/starky/src/traits.rs b/starky/src/traits.rs
index 027136a..f97ce1b 100644
--- a/starky/src/traits.rs
+++ b/starky/src/traits.rs
@@ -35,6 +35,8 @@ where
         + DeserializeOwned;
     type ExtendField: FieldExtension;
     type BaseField: Clone + Default + Debug + PartialEq + Serialize + DeserializeOwned;
+    /// Number of index bits consumed by one level of the tree
+    const ARITY_BITS: usize;
     fn new() -> Self;
     fn to_extend(&self, p_be: &mut Vec<Self::ExtendField>);
     fn to_basefield(node: &Self::MTNode) -> Vec<Self::BaseField>;
-- 
2.43.0


From 3474518c1a1f9feaba89c55d523d5790fa601b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:59 +0000
Subject: [PATCH 37/42] fix: stark_verify rejects proofs whose parts do not
 have the sizes of the circuit

---
 starky/src/fri.rs          | 32 ++++++++++++++++++++++++++++++++
 starky/src/stark_verify.rs | 19 +++++++++++++++++++
 2 files changed, 51 insertions(+)

diff --git a/starky/src/fri.rs b/starky/src/fri.rs
index 428c878..1e23222 100644
--- a/starky/src/fri.rs
+++ b/starky/src/fri.rs
@@ -183,6 +183,38 @@ impl FRI {
         Ok(proof)
     }
 
+    // The openings of the first step are those of the trees with the given widths, the ones of a
+    // later step are groups of the previous polynomial.
+    pub fn has_expected_shape<F: FieldExtension, M: MerkleTree<ExtendField = F>>(
+        &self,
+        proof: &FRIProof<F, M>,
+        widths: &[usize],
+    ) -> bool {
+        let is_opening = |(row, path): &(Vec<FGL>, Vec<Vec<M::BaseField>>),
+                          width: usize,
+                          nbits: usize|
+         -> bool {
+            row.len() == width && path.len() == (nbits + M::ARITY_BITS - 1) / M::ARITY_BITS
+        };
+        let has_step_shape = |si: usize, query: &Query<M::BaseField, M::MTNode>| -> bool {
+            let widths = match si {
+                0 => widths.to_vec(),
+                _ => vec![3 << (self.steps[si - 1].nBits - self.steps[si].nBits)],
+            };
+            query.pol_queries.len() == self.n_queries
+                && query.pol_queries.iter().all(|openings| {
+                    openings.len() == widths.len()
+                        && openings
+                            .iter()
+                            .zip(&widths)
+                            .all(|(o, width)| is_opening(o, *width, self.steps[si].nBits))
+                })
+        };
+        proof.queries.len() == self.steps.len()
+            && proof.last.len() == 1 << self.steps[self.steps.len() - 1].nBits
+            && proof.queries.iter().enumerate().all(|(si, query)| has_step_shape(si, query))
+    }
+
     #[time_profiler("fri_verify")]
     pub fn verify<F: FieldExtension, M: MerkleTree<ExtendField = F>, T: Transcript>(
         &self,
diff --git a/starky/src/stark_verify.rs b/starky/src/stark_verify.rs
index 172b954..7e11fa3 100644
--- a/starky/src/stark_verify.rs
+++ b/starky/src/stark_verify.rs
@@ -24,6 +24,11 @@ pub fn stark_verify<M: MerkleTree, T: Transcript>(
     stark_struct: &StarkStruct,
     program: &Program,
 ) -> Result<bool> {
+    if !has_expected_shape(proof, starkinfo, stark_struct) {
+        log::error!("The proof does not have the shape of the circuit");
+        return Ok(false);
+    }
+
     let mut transcript = T::new();
 
     let mut ctx = StarkContext::default();
@@ -135,6 +140,20 @@ pub fn stark_verify<M: MerkleTree, T: Transcript>(
     fri.verify(&mut transcript, &proof.fri_proof, check_query)
 }
 
+// The sizes of all parts of a proof follow from the circuit and the stark parameters.
+fn has_expected_shape<M: MerkleTree>(
+    proof: &StarkProof<M>,
+    starkinfo: &StarkInfo,
+    stark_struct: &StarkStruct,
+) -> bool {
+    let sections = &starkinfo.map_sectionsN;
+    let widths =
+        [sections.cm1_n, sections.cm2_n, sections.cm3_n, sections.cm4_2ns, starkinfo.n_constants];
+    proof.publics.len() == starkinfo.publics.len()
+        && proof.evals.len() == starkinfo.ev_map.len()
+        && FRI::new(stark_struct).has_expected_shape(&proof.fri_proof, &widths)
+}
+
 fn execute_code<F: FieldExtension>(ctx: &StarkContext<F>, code: &Vec<Section>) -> F {
     let mut tmp: HashMap<usize, F> = HashMap::new();
 
-- 
2.43.0


From cb033374318d28e77c19a0e9feb7d740651baf1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:34 +0000
Subject: [PATCH 38/42] fix: programs of calculated publics are found by the
 position of the public

---
 starky/src/starkinfo.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/starky/src/starkinfo.rs b/starky/src/starkinfo.rs
index 4e1b196..5afbac4 100644
--- a/starky/src/starkinfo.rs
+++ b/starky/src/starkinfo.rs
@@ -317,6 +317,9 @@ impl StarkInfo {
                 //    log::trace!("{}", pp);
                 //}
                 ctx.calculated.clear(); // TODO: useless
+            } else {
+                // the prover looks a program up by the position of its public
+                program.publics_code.push(Segment::default());
             }
         }
         Ok(())
-- 
2.43.0


From 6f61f19a24a12c9f8df134032b34f8a2c102c469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:01 +0000
Subject: [PATCH 39/42] fix: refuse a circuit whose constraints do not fit the
 quotient

---
 starky/src/starkinfo_cp_prover.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/starky/src/starkinfo_cp_prover.rs b/starky/src/starkinfo_cp_prover.rs
index 3fdfb6e..7dfeb7b 100644
--- a/starky/src/starkinfo_cp_prover.rs
+++ b/starky/src/starkinfo_cp_prover.rs
@@ -4,7 +4,7 @@ use crate::starkinfo_codegen::Section;
 use crate::starkinfo_codegen::{build_code, pil_code_gen, Context, Node};
 use crate::types::Expression;
 use crate::types::{StarkStruct, PIL};
-use anyhow::Result;
+use anyhow::{bail, Result};
 use std::collections::HashMap;
 
 impl StarkInfo {
@@ -34,6 +34,7 @@ impl StarkInfo {
             }
         }
         self.q_deg = 0;
+        let mut found = false;
         let max_deg = (1 << (stark_struct.nBitsExt - stark_struct.nBits)) + 1;
         for d in 2..=max_deg {
             let (im_exps, q_deg) = calculate_im_pols(pil, &c_exp, d)?;
@@ -42,11 +43,16 @@ impl StarkInfo {
                     || (im_exps.as_ref().unwrap().len() + (q_deg as usize)
                         < self.im_exps.len() + self.q_deg))
             {
+                found = true;
                 self.q_deg = q_deg as usize;
                 self.im_exps = im_exps.unwrap();
             }
         }
 
+        if !found {
+            bail!("the constraints can not be split into polynomials of degree {max_deg} or less");
+        }
+
         //log::trace!("im_exps: {:?} q_deg {}", self.im_exps, self.q_deg);
 
         for k in self.im_exps.keys() {
-- 
2.43.0


From ed2509552e47d3a30de86a62705782b11f3f1791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:49 +0000
Subject: [PATCH 40/42] fix: refuse to export a key of another curve into the
 BN128 contract

---
 groth16/src/api.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/groth16/src/api.rs b/groth16/src/api.rs
index f38f7c5..03ee58d 100644
--- a/groth16/src/api.rs
+++ b/groth16/src/api.rs
@@ -391,6 +391,10 @@ pub fn generate_verifier(vk_file_path: &str, sol_file_path: &str) -> Result<()>
     let json_data = std::fs::read_to_string(vk_file_path)?;
     let vk_file: VerifyingKeyFile =
         serde_json::from_str(&json_data).expect("Error during deserialization of the JSON data");
+    // The contract's precompiles work on BN128.
+    if vk_file.curve != "BN128" {
+        bail!("Unsupported curve type for a solidity verifier: {}", vk_file.curve);
+    }
 
     let vk_alpha = vk_file.alpha_g1.to_string();
     let vk_beta = vk_file.beta_g2.to_string();
-- 
2.43.0


From 33c4c53c13e4b0d03946957f60ffc554a0289b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:49 +0000
Subject: [PATCH 41/42] fix: refuse numbers that are not reduced field elements

---
 groth16/src/json_utils.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/groth16/src/json_utils.rs b/groth16/src/json_utils.rs
index 60d1538..d454bc0 100644
--- a/groth16/src/json_utils.rs
+++ b/groth16/src/json_utils.rs
@@ -135,6 +135,13 @@ pub fn render_str_to_scalar<F: PrimeField>(value: &str) -> F {
         true => BigUint::from_str_radix(&value[2..], 16).unwrap().to_str_radix(10),
         _ => value.to_string(),
     };
+    // from_str reduces its argument: x + modulus must not be taken for x.
+    let modulus = BigUint::from_str_radix(&repr_to_big(F::char()), 10).unwrap();
+    assert!(
+        BigUint::from_str_radix(&value, 10).unwrap() < modulus,
+        "{} is not a reduced field element",
+        value
+    );
     F::from_str(&value).unwrap()
 }
 
-- 
2.43.0


From 7939f5f2b3c4cf37997b14722e7ef44ab36b9a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:19 +0000
Subject: [PATCH 42/42] fix: reduce the opposite of zero in the packed
 Goldilocks fields

---
 fields/src/arch/x86_64/avx2_field_gl.rs   | 4 +++-
 fields/src/arch/x86_64/avx512_field_gl.rs | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/fields/src/arch/x86_64/avx2_field_gl.rs b/fields/src/arch/x86_64/avx2_field_gl.rs
index 28d0a2c..f76edba 100644
--- a/fields/src/arch/x86_64/avx2_field_gl.rs
+++ b/fields/src/arch/x86_64/avx2_field_gl.rs
@@ -352,7 +352,9 @@ unsafe fn sub(x: __m256i, y: __m256i) -> __m256i {
 #[inline]
 unsafe fn neg(y: __m256i) -> __m256i {
     let y_s = shift(y);
-    _mm256_sub_epi64(SHIFTED_FIELD_ORDER, canonicalize_s(y_s))
+    let res = _mm256_sub_epi64(SHIFTED_FIELD_ORDER, canonicalize_s(y_s));
+    // The opposite of zero is FIELD_ORDER at this point.
+    shift(canonicalize_s(shift(res)))
 }
 
 /// Full 64-bit by 64-bit multiplication. This emulated multiplication is 1.33x slower than the
diff --git a/fields/src/arch/x86_64/avx512_field_gl.rs b/fields/src/arch/x86_64/avx512_field_gl.rs
index c853b58..2fbeca1 100644
--- a/fields/src/arch/x86_64/avx512_field_gl.rs
+++ b/fields/src/arch/x86_64/avx512_field_gl.rs
@@ -291,7 +291,8 @@ unsafe fn sub(x: __m512i, y: __m512i) -> __m512i {
 
 #[inline]
 unsafe fn neg(y: __m512i) -> __m512i {
-    _mm512_sub_epi64(FIELD_ORDER, canonicalize(y))
+    // The opposite of zero is FIELD_ORDER before the reduction.
+    canonicalize(_mm512_sub_epi64(FIELD_ORDER, canonicalize(y)))
 }
 
 const LO_32_BITS_MASK: __mmask16 = unsafe { transmute(0b0101010101010101u16) };
-- 
2.43.0

