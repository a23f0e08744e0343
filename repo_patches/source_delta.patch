From 34b812d8001f40db11fbc79337cda622acf45a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:32 +0000
Subject: [PATCH 01/24] fix: kzg open/open_vector panic on the zero polynomial

---
 kzg/src/scheme.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/kzg/src/scheme.rs b/kzg/src/scheme.rs
index 92530e0..daa293b 100644
--- a/kzg/src/scheme.rs
+++ b/kzg/src/scheme.rs
@@ -109,8 +109,10 @@ impl KzgScheme {
         let z = z.into();
         let evaluation_at_z = polynomial.evaluate(&z);
         let mut new_poly = polynomial.clone();
-        let first = new_poly.coeffs.first_mut().expect("at least 1");
-        *first -= evaluation_at_z;
+        // the zero polynomial has no coefficients, and its evaluation is zero
+        if let Some(first) = new_poly.coeffs.first_mut() {
+            *first -= evaluation_at_z;
+        }
         let root = Poly::from_coefficients_slice(&[-z, 1.into()]);
         // quotient polynomial
         let quotient_poly = &new_poly / &root;
@@ -133,8 +135,10 @@ impl KzgScheme {
         let z = z.into();
         let mut polynomial = DensePolynomial::from_coefficients_vec(coeffs.into());
         let evaluation_at_z = polynomial.evaluate(&z);
-        let first = polynomial.coeffs.first_mut().expect("at least 1");
-        *first -= evaluation_at_z;
+        // the zero polynomial has no coefficients, and its evaluation is zero
+        if let Some(first) = polynomial.coeffs.first_mut() {
+            *first -= evaluation_at_z;
+        }
         let root = Poly::from_coefficients_slice(&[-z, 1.into()]);
         let quotient_poly = &polynomial / &root;
         let opening = self.evaluate_in_s(&quotient_poly);
-- 
2.43.0


From 158bf247dbb9959e5e0a7e72d4a4e2cd1aa26a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 02/24] fix: KzgOpening addition ignores the witness point of
 its right operand

---
 kzg/src/opening.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kzg/src/opening.rs b/kzg/src/opening.rs
index 4f93531..10bff1c 100644
--- a/kzg/src/opening.rs
+++ b/kzg/src/opening.rs
@@ -25,7 +25,7 @@ impl KzgOpening {
 impl Add for KzgOpening {
     type Output = Self;
 
-    /// Combines two openings by adding their evaluations and doubling the witness point.
+    /// Combines two openings at the same point by adding their evaluations and witness points.
     ///
     /// # Parameters
     ///
@@ -38,8 +38,8 @@ impl Add for KzgOpening {
     fn add(self, rhs: Self) -> Self::Output {
         // Add evaluations
         let eval = self.1 + rhs.1;
-        // Double the witness point
-        let witness = self.0 + self.0;
+        // Add witness points
+        let witness = self.0 + rhs.0;
         Self(witness.into(), eval)
     }
 }
-- 
2.43.0


From fdcebe832e81cad7d4515c1194dc02a5b46acb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 03/24] fix: compiling a circuit with a single gate panics

---
 plonk/src/circuit.rs                               | 4 +---
 plonk/src/common_preprocessed_input/cpi_circuit.rs | 3 +--
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/plonk/src/circuit.rs b/plonk/src/circuit.rs
index ee34994..b334028 100644
--- a/plonk/src/circuit.rs
+++ b/plonk/src/circuit.rs
@@ -147,9 +147,7 @@ impl Circuit {
     /// Pads the circuit with dummy gates to make its size a power of 2.
     fn pad_circuit(&mut self) {
         let len = self.gates.len();
-
-        let exponent = (len - 1).ilog2() + 1;
-        let new_len = 1 << exponent;
+        let new_len = len.next_power_of_two();
 
         for _ in len..new_len {
             self.add_dummy_gate();
diff --git a/plonk/src/common_preprocessed_input/cpi_circuit.rs b/plonk/src/common_preprocessed_input/cpi_circuit.rs
index 398cc9d..9328343 100644
--- a/plonk/src/common_preprocessed_input/cpi_circuit.rs
+++ b/plonk/src/common_preprocessed_input/cpi_circuit.rs
@@ -171,8 +171,7 @@ impl CPICircuit {
     /// Pads the circuit with dummy gates to make its size a power of 2.
     fn pad_circuit(mut self) -> Self {
         let len = self.gates.len();
-        let exponent = (len - 1).ilog2() + 1;
-        let new_len = 1 << exponent;
+        let new_len = len.next_power_of_two();
 
         for _ in len..new_len {
             self.add_dummy_gate();
-- 
2.43.0


From 20ea9dc8d8cfd7af6560604cc333667cd94321ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 04/24] fix: a dummy gate shifts the selectors of the CPI gates
 after it

---
 plonk/src/common_preprocessed_input/cpi_circuit.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/plonk/src/common_preprocessed_input/cpi_circuit.rs b/plonk/src/common_preprocessed_input/cpi_circuit.rs
index 9328343..7d853ee 100644
--- a/plonk/src/common_preprocessed_input/cpi_circuit.rs
+++ b/plonk/src/common_preprocessed_input/cpi_circuit.rs
@@ -97,9 +97,6 @@ impl CPICircuit {
         result.insert(Self::VEC_PI, vec![]);
 
         for gate in &self.gates {
-            if gate.is_dummy_gate() {
-                continue;
-            }
             result.get_mut(Self::VEC_QL).unwrap().push(gate.q_l);
             result.get_mut(Self::VEC_QR).unwrap().push(gate.q_r);
             result.get_mut(Self::VEC_QM).unwrap().push(gate.q_m);
-- 
2.43.0


From 30be81245f277741640a10b55f8a678f883f30d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 05/24] fix: the PLONK prover ignores the digest it is asked to
 use

---
 plonk/src/prover.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/plonk/src/prover.rs b/plonk/src/prover.rs
index fc5fcfb..37917cf 100644
--- a/plonk/src/prover.rs
+++ b/plonk/src/prover.rs
@@ -9,7 +9,6 @@ use ark_poly::{
 use ark_std::rand::rngs::StdRng;
 use ark_std::rand::SeedableRng;
 use digest::Digest;
-use sha2::Sha256;
 
 use kzg::commitment::KzgCommitment;
 use kzg::scheme::KzgScheme;
@@ -95,7 +94,7 @@ pub fn generate_proof<T: Digest + Default>(compiled_circuit: &CompiledCircuit, s
     #[cfg(test)]
     println!("ROUND 2");
 
-    let mut challenge = ChallengeGenerator::<Sha256>::default();
+    let mut challenge = ChallengeGenerator::<T>::default();
     challenge.feed(&a_commit);
     challenge.feed(&b_commit);
     challenge.feed(&c_commit);
-- 
2.43.0


From fd5c0c0700ac791b1418910b74eb640927f4fa4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:49 +0000
Subject: [PATCH 06/24] fix: PLONK challenges do not depend on the public
 inputs

---
 plonk/src/prover.rs   | 2 ++
 plonk/src/verifier.rs | 6 +++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/plonk/src/prover.rs b/plonk/src/prover.rs
index 37917cf..8d7de32 100644
--- a/plonk/src/prover.rs
+++ b/plonk/src/prover.rs
@@ -95,6 +95,8 @@ pub fn generate_proof<T: Digest + Default>(compiled_circuit: &CompiledCircuit, s
     println!("ROUND 2");
 
     let mut challenge = ChallengeGenerator::<T>::default();
+    // the challenges depend on the public inputs too
+    challenge.feed(&scheme.commit(compiled_circuit.gate_constraints().pi_x()));
     challenge.feed(&a_commit);
     challenge.feed(&b_commit);
     challenge.feed(&c_commit);
diff --git a/plonk/src/verifier.rs b/plonk/src/verifier.rs
index b087a3e..dbe77d4 100644
--- a/plonk/src/verifier.rs
+++ b/plonk/src/verifier.rs
@@ -33,7 +33,8 @@ pub fn verify<T: Digest + Default>(
 
     #[cfg(test)]
     println!("Verify challenges");
-    let (alpha, beta, gamma, evaluation_challenge, v, u) = verify_challenges::<T>(&proof, &scheme);
+    let (alpha, beta, gamma, evaluation_challenge, v, u) =
+        verify_challenges::<T>(&proof, compiled_circuit, &scheme);
 
     if u != proof.u {
         return Err(String::from("Verify: Challenge verification failed."));
@@ -187,9 +188,12 @@ fn get_circuit_commitment(
 /// Verifies Fiat-Shamir challenges.
 fn verify_challenges<T: Digest + Default>(
     proof: &Proof,
+    compiled_circuit: &CompiledCircuit,
     scheme: &KzgScheme,
 ) -> (Fr, Fr, Fr, Fr, Fr, Fr) {
     let commitments = [
+        // the challenges depend on the public inputs too
+        scheme.commit(compiled_circuit.gate_constraints().pi_x()),
         proof.a_commit.clone(),
         proof.b_commit.clone(),
         proof.c_commit.clone(),
-- 
2.43.0


From 6e24fbc328abc6cfcbf174c57bdd20e208ad14af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:53 +0000
Subject: [PATCH 07/24] fix: the PLONK verifier overflows on a proof with a
 huge degree

---
 plonk/src/verifier.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/plonk/src/verifier.rs b/plonk/src/verifier.rs
index dbe77d4..606604f 100644
--- a/plonk/src/verifier.rs
+++ b/plonk/src/verifier.rs
@@ -36,6 +36,11 @@ pub fn verify<T: Digest + Default>(
     let (alpha, beta, gamma, evaluation_challenge, v, u) =
         verify_challenges::<T>(&proof, compiled_circuit, &scheme);
 
+    // each part of an honest quotient polynomial has degree at most n + 1
+    if proof.degree > compiled_circuit.size + 1 {
+        return Err(String::from("Verify: Degree of the proof is out of range."));
+    }
+
     if u != proof.u {
         return Err(String::from("Verify: Challenge verification failed."));
     }
-- 
2.43.0


From 04150ef0bfdecc59bfa5506f1d9310e7aa3b7787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 08/24] fix: powers of numbers and of names longer than one
 character expand wrongly

---
 .../common_preprocessed_input/cpi_parser.rs   | 54 +++++++++++--------
 plonk/src/parser.rs                           | 54 +++++++++++--------
 2 files changed, 64 insertions(+), 44 deletions(-)

diff --git a/plonk/src/common_preprocessed_input/cpi_parser.rs b/plonk/src/common_preprocessed_input/cpi_parser.rs
index e178dfa..02df801 100644
--- a/plonk/src/common_preprocessed_input/cpi_parser.rs
+++ b/plonk/src/common_preprocessed_input/cpi_parser.rs
@@ -378,7 +378,8 @@ impl CPIGenerator {
     fn normalize(string: &str) -> String {
         let string = string.to_lowercase();
         let mut result = String::new();
-        let mut last_char = ' ';
+        // the factor a following ^ applies to
+        let mut base = String::new();
         let mut number_buffer = String::new();
         let mut flag = false;
         for char in string.chars() {
@@ -386,38 +387,47 @@ impl CPIGenerator {
                 continue;
             }
             if char == '^' {
+                if flag || base.is_empty() {
+                    panic!("can't parse polynomial")
+                }
                 flag = true;
-            } else if !char.is_numeric() {
+            } else if flag && char.is_numeric() {
+                number_buffer.push(char);
+            } else {
                 if flag {
-                    if !number_buffer.is_empty() {
-                        for _ in 0..number_buffer.parse::<i32>().unwrap() - 1 {
-                            result.push('*');
-                            result.push(last_char);
-                        }
-                        flag = false;
-                    } else {
+                    if !matches!(char, '+' | '*' | '=') {
                         panic!("can't parse polynomial")
                     }
+                    Self::push_power(&mut result, &base, &number_buffer);
+                    number_buffer = String::new();
+                    flag = false;
                 }
-                last_char = char;
-                result.push(char);
-                number_buffer = String::new();
-            } else {
-                number_buffer.push(char);
-                if !flag {
-                    last_char = char;
-                    result.push(char);
+                if matches!(char, '+' | '-' | '*' | '=') {
+                    base = String::new();
+                } else {
+                    base.push(char);
                 }
+                result.push(char);
             }
         }
-        if flag && !number_buffer.is_empty() {
-            for _ in 0..number_buffer.parse::<i32>().unwrap() - 1 {
-                result.push('*');
-                result.push(last_char);
-            }
+        if flag {
+            Self::push_power(&mut result, &base, &number_buffer);
         }
         result
     }
+
+    /// Multiply by [base] until it is raised to [exponent]
+    fn push_power(result: &mut String, base: &str, exponent: &str) {
+        match exponent.parse::<i32>() {
+            Ok(exponent) if exponent > 0 => {
+                for _ in 0..exponent - 1 {
+                    result.push('*');
+                    result.push_str(base);
+                }
+            }
+            _ => panic!("can't parse polynomial"),
+        }
+    }
 }
 
 #[cfg(test)]
diff --git a/plonk/src/parser.rs b/plonk/src/parser.rs
index 37c16b8..ce31bf4 100644
--- a/plonk/src/parser.rs
+++ b/plonk/src/parser.rs
@@ -373,7 +373,8 @@ impl Parser {
     fn parse_string(string: &str) -> String {
         let string = string.to_lowercase();
         let mut result = String::new();
-        let mut last_char = ' ';
+        // the factor a following ^ applies to
+        let mut base = String::new();
         let mut number_buffer = String::new();
         let mut flag = false;
         for char in string.chars() {
@@ -381,38 +382,47 @@ impl Parser {
                 continue;
             }
             if char == '^' {
+                if flag || base.is_empty() {
+                    panic!("can't parse polynomial")
+                }
                 flag = true;
-            } else if !char.is_numeric() {
+            } else if flag && char.is_numeric() {
+                number_buffer.push(char);
+            } else {
                 if flag {
-                    if !number_buffer.is_empty() {
-                        for _ in 0..number_buffer.parse::<i32>().unwrap() - 1 {
-                            result.push('*');
-                            result.push(last_char);
-                        }
-                        flag = false;
-                    } else {
+                    if !matches!(char, '+' | '*' | '=') {
                         panic!("can't parse polynomial")
                     }
+                    Self::push_power(&mut result, &base, &number_buffer);
+                    number_buffer = String::new();
+                    flag = false;
                 }
-                last_char = char;
-                result.push(char);
-                number_buffer = String::new();
-            } else {
-                number_buffer.push(char);
-                if !flag {
-                    last_char = char;
-                    result.push(char);
+                if matches!(char, '+' | '-' | '*' | '=') {
+                    base = String::new();
+                } else {
+                    base.push(char);
                 }
+                result.push(char);
             }
         }
-        if flag && !number_buffer.is_empty() {
-            for _ in 0..number_buffer.parse::<i32>().unwrap() - 1 {
-                result.push('*');
-                result.push(last_char);
-            }
+        if flag {
+            Self::push_power(&mut result, &base, &number_buffer);
         }
         result
     }
+
+    /// Multiply by [base] until it is raised to [exponent]
+    fn push_power(result: &mut String, base: &str, exponent: &str) {
+        match exponent.parse::<i32>() {
+            Ok(exponent) if exponent > 0 => {
+                for _ in 0..exponent - 1 {
+                    result.push('*');
+                    result.push_str(base);
+                }
+            }
+            _ => panic!("can't parse polynomial"),
+        }
+    }
 }
 
 //TODO: implement / operator
-- 
2.43.0


From 50ac7f0f36a4bfd9af0b533cd9ec0ceda84a37ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 09/24] fix: a negative right-hand side parses to a doubly
 negated wire

---
 plonk/src/common_preprocessed_input/cpi_parser.rs | 5 ++++-
 plonk/src/parser.rs                               | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/plonk/src/common_preprocessed_input/cpi_parser.rs b/plonk/src/common_preprocessed_input/cpi_parser.rs
index 02df801..f711f63 100644
--- a/plonk/src/common_preprocessed_input/cpi_parser.rs
+++ b/plonk/src/common_preprocessed_input/cpi_parser.rs
@@ -142,7 +142,10 @@ impl CPIGenerator {
         let result = result[1].clone();
 
         let mut split_list: Vec<String> = string.split('+').map(|s| s.to_string()).collect();
-        split_list.push("-".to_string() + result.as_str());
+        split_list.push(match result.strip_prefix('-') {
+            Some(result) => result.to_string(),
+            None => "-".to_string() + result.as_str(),
+        });
         split_list
             .into_iter()
             .map(|split_list| {
diff --git a/plonk/src/parser.rs b/plonk/src/parser.rs
index ce31bf4..ec3a0a7 100644
--- a/plonk/src/parser.rs
+++ b/plonk/src/parser.rs
@@ -109,7 +109,10 @@ impl Parser {
         let result = result[1].clone();
 
         let mut split_list: Vec<String> = string.split('+').map(|s| s.to_string()).collect();
-        split_list.push("-".to_string() + result.as_str());
+        split_list.push(match result.strip_prefix('-') {
+            Some(result) => result.to_string(),
+            None => "-".to_string() + result.as_str(),
+        });
         split_list
             .into_iter()
             .map(|split_list| {
-- 
2.43.0


From dc4ee85616e1716c370ef5b63a73ebf754538b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 10/24] fix: a constant with leading zeros is not tied to its
 constant gate

---
 plonk/src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plonk/src/parser.rs b/plonk/src/parser.rs
index ec3a0a7..31404de 100644
--- a/plonk/src/parser.rs
+++ b/plonk/src/parser.rs
@@ -330,11 +330,11 @@ impl Parser {
                 let constant = value.parse::<i32>().unwrap();
                 let wire = if is_negative {
                     Wire::new(
-                        "-".to_string() + constant.to_string().as_str(),
+                        "-".to_string() + value,
                         Fr::from(constant).neg(),
                     )
                 } else {
-                    Wire::new(constant.to_string(), Fr::from(constant))
+                    Wire::new(value.to_string(), Fr::from(constant))
                 };
                 #[cfg(test)]
                 println!("{:?} {}", wire, is_negative);
-- 
2.43.0


From 64751e8a99ed9f09bd47bd3dbbd4be053f2a3f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 11/24] fix: the negation of a variable is not tied to the
 variable in parsed circuits

---
 .../common_preprocessed_input/cpi_parser.rs   | 45 ++++++++++++++++++
 plonk/src/parser.rs                           | 46 ++++++++++++++++++-
 2 files changed, 90 insertions(+), 1 deletion(-)

diff --git a/plonk/src/common_preprocessed_input/cpi_parser.rs b/plonk/src/common_preprocessed_input/cpi_parser.rs
index f711f63..a7aea25 100644
--- a/plonk/src/common_preprocessed_input/cpi_parser.rs
+++ b/plonk/src/common_preprocessed_input/cpi_parser.rs
@@ -351,9 +351,54 @@ impl CPIGenerator {
     ) {
         if value.parse::<i32>().is_ok() {
             self.generate_constant_gate(gate_list, gate_set, position_map, ParserWire::new(value));
+        } else if let Some(variable) = value.strip_prefix('-') {
+            self.generate_negation_gate(
+                gate_list,
+                gate_set,
+                position_map,
+                ParserWire::new(variable.to_string()),
+                ParserWire::new(value.clone()),
+            );
         };
     }
 
+    /// Generate a negation gate, which ensures `value` and `negation` add up to zero
+    fn generate_negation_gate(
+        &self,
+        gate_list: &mut Vec<ParserGate>,
+        gate_set: &mut HashSet<ParserGate>,
+        position_map: &mut HashMap<String, Vec<(usize, usize)>>,
+        value: ParserWire,
+        negation: ParserWire,
+    ) {
+        let zero = ParserWire::new("0".to_string());
+        self.generate_constant_gate(gate_list, gate_set, position_map, zero.clone());
+
+        let gate_number = gate_list.len();
+        let gate = ParserGate::new(
+            value.clone(),
+            negation.clone(),
+            zero,
+            TypeOfCircuit::Addition,
+        );
+
+        if gate_set.get(&gate).is_some() {
+            return;
+        }
+
+        gate_list.push(gate.clone());
+        gate_set.insert(gate);
+
+        Self::push_into_position_map_or_insert(0, gate_number, position_map, &value.value_string);
+        Self::push_into_position_map_or_insert(
+            1,
+            gate_number,
+            position_map,
+            &negation.value_string,
+        );
+        Self::push_into_position_map_or_insert(2, gate_number, position_map, "0");
+    }
+
     /// Insert a wire position pair into the position map
     fn push_into_position_map_or_insert(
         wire_number: usize,
diff --git a/plonk/src/parser.rs b/plonk/src/parser.rs
index 31404de..f1fed3d 100644
--- a/plonk/src/parser.rs
+++ b/plonk/src/parser.rs
@@ -307,6 +307,39 @@ impl Parser {
         result
     }
 
+    /// Generate a negation gate
+    ///
+    /// Negation gate ensure `value` and `negation` add up to zero
+    fn generate_negation_gate(
+        &self,
+        gate_list: &mut Vec<Gate>,
+        gate_set: &mut HashSet<Gate>,
+        position_map: &mut HashMap<String, Vec<(usize, usize)>>,
+        value: Wire,
+        negation: Wire,
+    ) {
+        let zero = Wire::new("0".to_string(), Fr::zero());
+        self.generate_constant_gate(gate_list, gate_set, position_map, zero.clone());
+
+        let gate_number = gate_list.len();
+        let gate = Gate::new(value.clone(), negation.clone(), zero, Addition);
+        //if this gate already exist, skip this move
+        if gate_set.get(&gate).is_some() {
+            return;
+        }
+        gate_list.push(gate.clone());
+        gate_set.insert(gate);
+
+        Self::push_into_position_map_or_insert(0, gate_number, position_map, &value.value_string);
+        Self::push_into_position_map_or_insert(
+            1,
+            gate_number,
+            position_map,
+            &negation.value_string,
+        );
+        Self::push_into_position_map_or_insert(2, gate_number, position_map, "0");
+    }
+
     /// Get the value of `value` in Fr
     /// if value is a constant insert a constant gate
     fn get_witness_value(
@@ -323,7 +356,18 @@ impl Parser {
         }
         let result = match self.witnesses.get(value) {
             //Not a constant, search in map
-            Some(value) => *value,
+            Some(witness) => {
+                if is_negative {
+                    self.generate_negation_gate(
+                        gate_list,
+                        gate_set,
+                        position_map,
+                        Wire::new(value.to_string(), *witness),
+                        Wire::new("-".to_string() + value, witness.neg()),
+                    );
+                }
+                *witness
+            }
             //Value is a constant insert a constant gate
             None => {
                 eprintln!("value = {:#?}", value);
-- 
2.43.0


From 1c04791cb2200f66c93d86610d32b341ea8a8c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:30 +0000
Subject: [PATCH 12/24] fix: FRI prover panics on constant and zero polynomials

---
 fri/src/prover.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fri/src/prover.rs b/fri/src/prover.rs
index 29a601f..1d24bfb 100644
--- a/fri/src/prover.rs
+++ b/fri/src/prover.rs
@@ -50,7 +50,7 @@ fn folding_phase<T: Digest + Default, F: PrimeField>(
     mut domain_size: usize,
     number_layers: usize,
 ) -> (F, Transcript<T, F>, Vec<FriLayer<F>>) {
-    let mut fri_layers: Vec<FriLayer<F>> = Vec::with_capacity(number_layers.ilog2() as usize + 1);
+    let mut fri_layers: Vec<FriLayer<F>> = Vec::with_capacity(number_layers);
     let mut transcript = Transcript::new(F::ZERO);
 
     for _ in 0..number_layers {
@@ -67,7 +67,7 @@ fn folding_phase<T: Digest + Default, F: PrimeField>(
         domain_size /= 2;
     }
 
-    assert_eq!(poly.len(), 1);
+    assert_eq!(poly.degree(), 0);
     let constant = poly.evaluate(&F::ZERO);
     transcript.digest(constant);
 
-- 
2.43.0


From 70701914bb2c0f0d098bbcdcf25faecdb03c99f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 13/24] fix: Merkle tree of a number of leaves that is no power
 of two

---
 fri/src/merkle_tree.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fri/src/merkle_tree.rs b/fri/src/merkle_tree.rs
index 6a46f66..d57816c 100644
--- a/fri/src/merkle_tree.rs
+++ b/fri/src/merkle_tree.rs
@@ -43,6 +43,8 @@ impl<F: PrimeField> MerkleTree<F> {
         let new_len = evaluations.len().next_power_of_two();
         let depth = new_len.ilog2() as usize;
 
+        evaluations.resize(new_len, F::ZERO); // Fill the rest of the tree with 0
+
         let first_level = evaluations.iter().map(hash).collect::<Vec<_>>();
 
         let mut internal_nodes = vec![first_level];
@@ -52,8 +54,6 @@ impl<F: PrimeField> MerkleTree<F> {
             internal_nodes.push(next_level);
         }
 
-        evaluations.resize(new_len, F::ZERO); // Fill the rest of the tree with 0
-
         Self {
             internal_nodes,
             leaves: evaluations,
-- 
2.43.0


From c5dc775bfedea64dc392a479f3977f2835bebc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:39 +0000
Subject: [PATCH 14/24] fix: FRI verifier accepts unanchored and missing
 decommitments, and panics on malformed ones

---
 fri/src/merkle_tree.rs |  2 +-
 fri/src/verifier.rs    | 54 ++++++++++++++++++++++++++++++++++++++++--
 2 files changed, 53 insertions(+), 3 deletions(-)

diff --git a/fri/src/merkle_tree.rs b/fri/src/merkle_tree.rs
index d57816c..aacab5d 100644
--- a/fri/src/merkle_tree.rs
+++ b/fri/src/merkle_tree.rs
@@ -12,7 +12,7 @@ pub struct MerkleProof<F: PrimeField> {
     /// Hash values of the neighboring nodes.
     hash_proof: Vec<F>,
     /// Root value of the committed Merkle tree.
-    root: F,
+    pub(crate) root: F,
 }
 
 /// A Merkle tree structure that supports the creation of proofs and verification of membership.
diff --git a/fri/src/verifier.rs b/fri/src/verifier.rs
index ce3524a..4308e5b 100644
--- a/fri/src/verifier.rs
+++ b/fri/src/verifier.rs
@@ -12,13 +12,19 @@ use crate::prover::{Decommitment, Proof};
 ///
 /// This is the only method you should call for verifying
 pub fn verify<T: Digest + Default, F: PrimeField>(proof: Proof<F>) -> Result<(), String> {
+    check_shape(&proof)?;
+    // there is nothing to query without layers
+    if proof.layers_root.is_empty() {
+        return Ok(());
+    }
+
     // regenerate random_r list
     let merkle_roots = proof.layers_root;
     let mut transcript = Transcript::<T, F>::new(F::ZERO);
     let random_r_list = merkle_roots
-        .into_iter()
+        .iter()
         .map(|root| {
-            transcript.digest(root);
+            transcript.digest(*root);
             transcript.generate_a_challenge()
         })
         .collect::<Vec<_>>();
@@ -39,6 +45,7 @@ pub fn verify<T: Digest + Default, F: PrimeField>(proof: Proof<F>) -> Result<(),
         verify_query(
             &challenge,
             &decommitment,
+            &merkle_roots,
             &random_r_list,
             proof.domain_size,
             proof.const_val,
@@ -48,9 +55,48 @@ pub fn verify<T: Digest + Default, F: PrimeField>(proof: Proof<F>) -> Result<(),
     Ok(())
 }
 
+/// Check that `proof` has as many layers as its domain asks for, and as many decommitments,
+/// each of which covers all the layers, as there are queries
+fn check_shape<F: PrimeField>(proof: &Proof<F>) -> Result<(), String> {
+    if !proof.domain_size.is_power_of_two()
+        || <GeneralEvaluationDomain<F>>::new(proof.domain_size).is_none()
+    {
+        return Err(String::from("invalid domain size!"));
+    }
+    if proof.coset.is_zero() {
+        return Err(String::from("invalid coset!"));
+    }
+
+    let number_of_layers = proof.layers_root.len();
+    if number_of_layers != proof.domain_size.ilog2() as usize {
+        return Err(String::from("wrong number of layers!"));
+    }
+
+    let number_of_decommitments = if number_of_layers == 0 {
+        0
+    } else {
+        proof.number_of_queries
+    };
+    if proof.decommitment_list.len() != number_of_decommitments {
+        return Err(String::from("wrong number of decommitments!"));
+    }
+
+    for decommitment in &proof.decommitment_list {
+        if decommitment.evaluations.len() != number_of_layers
+            || decommitment.auth_paths.len() != number_of_layers
+            || decommitment.sym_evaluations.len() != number_of_layers
+            || decommitment.sym_auth_paths.len() != number_of_layers
+        {
+            return Err(String::from("wrong number of evaluations!"));
+        }
+    }
+    Ok(())
+}
+
 fn verify_query<F: PrimeField>(
     challenge: &usize,
     decommitment: &Decommitment<F>,
+    merkle_roots: &[F],
     random_r_list: &[F],
     domain_size: usize,
     const_val: F,
@@ -74,6 +120,10 @@ fn verify_query<F: PrimeField>(
         let cur_domain = <GeneralEvaluationDomain<F>>::new(cur_domain_size).unwrap();
 
         // verify path of merkle root
+        if path.root != merkle_roots[i] || sym_path.root != merkle_roots[i] {
+            return Err(String::from("wrong Merkle root!"));
+        }
+
         if index != path.index || sym_index != sym_path.index {
             return Err(String::from("wrong index!"));
         }
-- 
2.43.0


From 1b125c43caa9eddc91af4f2a41bde68e28e500b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 15/24] fix: the trivial instance-witness pair does not satisfy
 every R1CS

---
 nova/src/r1cs/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nova/src/r1cs/mod.rs b/nova/src/r1cs/mod.rs
index 4589083..57c38b9 100644
--- a/nova/src/r1cs/mod.rs
+++ b/nova/src/r1cs/mod.rs
@@ -79,7 +79,9 @@ pub fn create_trivial_pair(
 ) -> (FWitness, FInstance) {
     let trivial_x = vec![ScalarField::from(0); x_len];
     let trivial_witness = FWitness::new_trivial_witness(w_len);
-    let trivial_instance = trivial_witness.commit(scheme, &trivial_x);
+    let mut trivial_instance = trivial_witness.commit(scheme, &trivial_x);
+    // u must be zero for the pair to satisfy every R1CS
+    trivial_instance.u = ScalarField::zero();
     (trivial_witness, trivial_instance)
 }
 
-- 
2.43.0


From 2eb77fde5ce78b27b4542cdfaabbac6e99d7567e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 16/24] fix: folding witnesses drops error terms when their
 lengths differ

---
 nova/src/nifs/mod.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/nova/src/nifs/mod.rs b/nova/src/nifs/mod.rs
index 75e3553..7d2461c 100644
--- a/nova/src/nifs/mod.rs
+++ b/nova/src/nifs/mod.rs
@@ -67,12 +67,11 @@ impl<T: Digest + Default> NIFS<T> {
         t: &[ScalarField],
         // rT: ScalarField,
     ) -> FWitness {
-        let new_e = fw1
-            .e
-            .iter()
-            .zip(t.iter())
-            .zip(&fw2.e)
-            .map(|((e1, t), e2)| *e1 + r * *t + r * r * *e2)
+        // a vector shorter than the others stands for the same vector followed by zeros
+        let at = |v: &[ScalarField], i: usize| v.get(i).copied().unwrap_or_default();
+        let e_len = t.len().max(fw1.e.len()).max(fw2.e.len());
+        let new_e = (0..e_len)
+            .map(|i| at(&fw1.e, i) + r * at(t, i) + r * r * at(&fw2.e, i))
             .collect();
 
         let new_w = fw1.w.iter().zip(&fw2.w).map(|(a, b)| *a + *b * r).collect();
-- 
2.43.0


From c3959fb306d9ec7f4694e4584b48ff308816affe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 17/24] fix: is_r1cs_satisfied panics when E is not as long as
 the constraints

---
 nova/src/r1cs/mod.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/nova/src/r1cs/mod.rs b/nova/src/r1cs/mod.rs
index 57c38b9..4d7e89b 100644
--- a/nova/src/r1cs/mod.rs
+++ b/nova/src/r1cs/mod.rs
@@ -101,6 +101,16 @@ pub fn is_r1cs_satisfied(
         return Err(String::from("Instance does not match with matrices"));
     }
 
+    // E has one entry for each constraint, missing entries are zeros
+    let mut e = f_witness.e.clone();
+    while e.len() > r1cs.matrix_a.len() && e.last() == Some(&ScalarField::zero()) {
+        e.pop();
+    }
+    if e.len() > r1cs.matrix_a.len() {
+        return Err(String::from("Witness does not match with matrices"));
+    }
+    e.resize(r1cs.matrix_a.len(), ScalarField::zero());
+
     // check if: Az * Bz = u*Cz + E
     let mut z = f_witness.w.clone();
     z.append(&mut f_instance.x.clone());
@@ -112,7 +122,7 @@ pub fn is_r1cs_satisfied(
 
     let left_side = hadamard_product(&az, &bz);
     let ucz = vector_elem_product(&cz, f_instance.u);
-    let right_side = vec_add(&ucz, &f_witness.e);
+    let right_side = vec_add(&ucz, &e);
 
     let res_eq = vec_equal(&left_side, &right_side);
 
-- 
2.43.0


From a2d163dcfa258d5fd4f11dd704db084114336ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 18/24] fix: the IVC verifier panics on an instance without
 public IO

---
 nova/src/circuit.rs          | 3 +--
 nova/src/ivc/ivc_verifier.rs | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/nova/src/circuit.rs b/nova/src/circuit.rs
index a557352..4a927bd 100644
--- a/nova/src/circuit.rs
+++ b/nova/src/circuit.rs
@@ -84,9 +84,8 @@ impl<T: Digest + Default + ark_serialize::Write, FC: FCircuit> AugmentedCircuit<
             // be converted into a comparable type
             // Todo: Non-native field transform
 
-            let u_dot_x = u_i.x[0];
             let hash_fr = ScalarField::from_le_bytes_mod_order(&hash_x.into_bigint().to_bytes_le());
-            if u_dot_x != hash_fr {
+            if u_i.x.first() != Some(&hash_fr) {
                 return Err(String::from("Public IO is wrong "));
             }
 
diff --git a/nova/src/ivc/ivc_verifier.rs b/nova/src/ivc/ivc_verifier.rs
index 43e379f..722d842 100644
--- a/nova/src/ivc/ivc_verifier.rs
+++ b/nova/src/ivc/ivc_verifier.rs
@@ -46,7 +46,7 @@ impl<T: Digest + Default + ark_serialize::Write, FC: FCircuit> IVC<T, FC> {
             let hash_io = AugmentedCircuit::<T, FC>::hash_io(i, z_0, z_i, &big_u_i);
             let hash_fr =
                 ScalarField::from_le_bytes_mod_order(&hash_io.into_bigint().to_bytes_le());
-            if u_i.x[0] != hash_fr {
+            if u_i.x.first() != Some(&hash_fr) {
                 return Err(String::from("Verify failed: Public IO is wrong"));
             }
 
-- 
2.43.0


From 3a812c6c2946006c3a350bab13b5b6c0466ef079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:31 +0000
Subject: [PATCH 19/24] fix: the folding challenge does not depend on the
 folded commitments and public IO

---
 nova/src/circuit.rs            |  2 ++
 nova/src/nifs/mod.rs           | 10 ++++++++++
 nova/src/nifs/nifs_prover.rs   |  2 ++
 nova/src/nifs/nifs_verifier.rs |  4 +++-
 4 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/nova/src/circuit.rs b/nova/src/circuit.rs
index 4a927bd..175f7d8 100644
--- a/nova/src/circuit.rs
+++ b/nova/src/circuit.rs
@@ -100,6 +100,8 @@ impl<T: Digest + Default + ark_serialize::Write, FC: FCircuit> AugmentedCircuit<
 
             // 3. recreate challenge r
             let mut transcript = Transcript::<T>::default();
+            NIFS::<T>::feed_instance(u_i, &mut transcript);
+            NIFS::<T>::feed_instance(big_u_i.unwrap(), &mut transcript);
             transcript.feed_scalar_num(u_i.u);
             transcript.feed_scalar_num(big_u_i.unwrap().u);
             transcript.feed(com_t.unwrap());
diff --git a/nova/src/nifs/mod.rs b/nova/src/nifs/mod.rs
index 7d2461c..48c8c80 100644
--- a/nova/src/nifs/mod.rs
+++ b/nova/src/nifs/mod.rs
@@ -3,6 +3,7 @@ use std::marker::PhantomData;
 use std::ops::Mul;
 
 use crate::r1cs::{FInstance, FWitness, R1CS};
+use crate::transcript::Transcript;
 use crate::utils::{
     hadamard_product, matrix_vector_product, vec_add, vec_sub, vector_elem_product,
 };
@@ -29,6 +30,15 @@ pub struct NIFS<T: Digest + Default> {
 }
 
 impl<T: Digest + Default> NIFS<T> {
+    /// Feed the commitments and the public IO of an instance to the transcript
+    pub(crate) fn feed_instance(fi: &FInstance, transcript: &mut Transcript<T>) {
+        transcript.feed(&fi.com_e);
+        transcript.feed(&fi.com_w);
+        for x in &fi.x {
+            transcript.feed_scalar_num(*x);
+        }
+    }
+
     /// Compute the cross-term T
     /// T = AZ1 ◦ BZ2 + AZ2 ◦ BZ1 − u1 · CZ2 − u2 · CZ1.
     pub fn compute_t(
diff --git a/nova/src/nifs/nifs_prover.rs b/nova/src/nifs/nifs_prover.rs
index 764dbce..57a8111 100644
--- a/nova/src/nifs/nifs_prover.rs
+++ b/nova/src/nifs/nifs_prover.rs
@@ -29,6 +29,8 @@ impl<T: Digest + Default> NIFS<T> {
         let t = NIFS::<T>::compute_t(r1cs, fi1.u, fi2.u, &z1, &z2);
         let com_t = scheme.commit_vector(&t);
 
+        Self::feed_instance(fi1, transcript);
+        Self::feed_instance(fi2, transcript);
         transcript.feed_scalar_num(fi1.u);
         transcript.feed_scalar_num(fi2.u);
         transcript.feed(&com_t);
diff --git a/nova/src/nifs/nifs_verifier.rs b/nova/src/nifs/nifs_verifier.rs
index 03537c1..022b55a 100644
--- a/nova/src/nifs/nifs_verifier.rs
+++ b/nova/src/nifs/nifs_verifier.rs
@@ -29,7 +29,9 @@ impl<T: Digest + Default> NIFS<T> {
         scheme: &KzgScheme,
         transcript: &mut Transcript<T>,
     ) -> Result<(), String> {
-        // verify challenge.
+        // verify challenge, which depends on everything that is folded.
+        Self::feed_instance(fi1, transcript);
+        Self::feed_instance(fi2, transcript);
         let mut res = Self::verify_challenge(proof.r, fi1.u, fi2.u, com_t, transcript);
         res.as_ref()?;
 
-- 
2.43.0


From a54f72400b58470984563d8edaa4835363f6b19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:35 +0000
Subject: [PATCH 20/24] fix: NIFS verifier accepts any instance as the folded
 one

---
 nova/src/nifs/nifs_verifier.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/nova/src/nifs/nifs_verifier.rs b/nova/src/nifs/nifs_verifier.rs
index 022b55a..fbf9e9a 100644
--- a/nova/src/nifs/nifs_verifier.rs
+++ b/nova/src/nifs/nifs_verifier.rs
@@ -35,6 +35,16 @@ impl<T: Digest + Default> NIFS<T> {
         let mut res = Self::verify_challenge(proof.r, fi1.u, fi2.u, com_t, transcript);
         res.as_ref()?;
 
+        // verify that fi3 is the folded instance.
+        let folded = Self::verifier(proof.r, fi1, fi2, com_t);
+        if folded.com_e != fi3.com_e
+            || folded.u != fi3.u
+            || folded.com_w != fi3.com_w
+            || folded.x != fi3.x
+        {
+            return Err(String::from("Verify: Wrong folded instance"));
+        }
+
         // verify opening.
         res = Self::verify_opening(proof, fi3, scheme, transcript);
         res.as_ref()?;
-- 
2.43.0


From ee2ec7dc1431800211dac88c6edee355b4b19dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:11 +0000
Subject: [PATCH 21/24] verif: hook exposing the Merkle tree under --cfg
 zkp_verif

---
 fri/src/lib.rs         |  9 +++++++++
 fri/src/merkle_tree.rs | 18 ++++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/fri/src/lib.rs b/fri/src/lib.rs
index 1b9684c..f3a9136 100644
--- a/fri/src/lib.rs
+++ b/fri/src/lib.rs
@@ -1,3 +1,6 @@
+// `zkp_verif` is the flag of the verification harness
+#![allow(unexpected_cfgs)]
+
 pub mod fiat_shamir;
 pub mod fields;
 mod fri_layer;
@@ -5,3 +8,9 @@ mod hasher;
 mod merkle_tree;
 pub mod prover;
 pub mod verifier;
+
+/// What the verification harness needs of private items, in builds with `--cfg zkp_verif` only.
+#[cfg(zkp_verif)]
+pub mod verif_hooks {
+    pub use crate::merkle_tree::{verify_merkle_proof, MerkleProof, MerkleTree};
+}
diff --git a/fri/src/merkle_tree.rs b/fri/src/merkle_tree.rs
index aacab5d..e3f9d7b 100644
--- a/fri/src/merkle_tree.rs
+++ b/fri/src/merkle_tree.rs
@@ -103,6 +103,24 @@ impl<F: PrimeField> MerkleTree<F> {
     }
 }
 
+#[cfg(zkp_verif)]
+impl<F: PrimeField> MerkleProof<F> {
+    /// Builds a proof from its parts, for the verification harness.
+    pub fn from_parts(index: usize, leaf_val: F, hash_proof: Vec<F>, root: F) -> Self {
+        Self {
+            index,
+            leaf_val,
+            hash_proof,
+            root,
+        }
+    }
+
+    /// The neighbouring nodes and the root, for the verification harness.
+    pub fn path_and_root(&self) -> (&[F], F) {
+        (&self.hash_proof, self.root)
+    }
+}
+
 /// Verifies a Merkle proof against the root of the Merkle tree.
 ///
 /// # Arguments
-- 
2.43.0


From 538f7e63aeb8f0c0c6c37f3fc396e7c17e3f388b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:25 +0000
Subject: [PATCH 22/24] fix: a Merkle path verifies at positions beyond the
 tree

---
 fri/src/merkle_tree.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fri/src/merkle_tree.rs b/fri/src/merkle_tree.rs
index e3f9d7b..925e06c 100644
--- a/fri/src/merkle_tree.rs
+++ b/fri/src/merkle_tree.rs
@@ -146,7 +146,8 @@ pub fn verify_merkle_proof<F: PrimeField>(proof: &MerkleProof<F>) -> bool {
         }
         cur_index /= 2;
     }
-    cur_hash == proof.root
+    // an index beyond the tree is no position of it
+    cur_index == 0 && cur_hash == proof.root
 }
 
 #[cfg(test)]
-- 
2.43.0


From 7a8aae1066b08bcf2d9040447a1b665e9efa774c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:12 +0000
Subject: [PATCH 23/24] fix: folding drops public IO and witness entries when
 the lengths differ

A pair with more public IO (or witness) entries than the structure has
does not satisfy it, but folded into a satisfied pair the extra entries
were dropped, and the folded pair satisfied the structure.
---
 nova/src/nifs/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/nova/src/nifs/mod.rs b/nova/src/nifs/mod.rs
index 48c8c80..ec22ad3 100644
--- a/nova/src/nifs/mod.rs
+++ b/nova/src/nifs/mod.rs
@@ -84,11 +84,19 @@ impl<T: Digest + Default> NIFS<T> {
             .map(|i| at(&fw1.e, i) + r * at(t, i) + r * r * at(&fw2.e, i))
             .collect();
 
-        let new_w = fw1.w.iter().zip(&fw2.w).map(|(a, b)| *a + *b * r).collect();
+        let new_w = Self::fold_vector(r, &fw1.w, &fw2.w);
 
         FWitness { e: new_e, w: new_w }
     }
 
+    /// Compute v1 + r · v2 without dropping the entries that only one of them has
+    fn fold_vector(r: ScalarField, v1: &[ScalarField], v2: &[ScalarField]) -> Vec<ScalarField> {
+        let at = |v: &[ScalarField], i: usize| v.get(i).copied().unwrap_or_default();
+        (0..v1.len().max(v2.len()))
+            .map(|i| at(v1, i) + at(v2, i) * r)
+            .collect()
+    }
+
     /// Fold two instances into one.
     /// com_E ← com_E1 + r · com_T + r^2· com_E2
     /// u ← u1 + r · u2
@@ -105,7 +113,7 @@ impl<T: Digest + Default> NIFS<T> {
         let new_com_w = KzgCommitment((fi1.com_w.0 + fi2.com_w.0.mul(r)).into_affine());
 
         let new_u = fi1.u + fi2.u * r;
-        let new_x = fi1.x.iter().zip(&fi2.x).map(|(a, b)| *a + *b * r).collect();
+        let new_x = Self::fold_vector(r, &fi1.x, &fi2.x);
 
         FInstance {
             com_e: new_com_e,
-- 
2.43.0


From e5047072463b9a710ea824bd4e9a655754fa554a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:17 +0000
Subject: [PATCH 24/24] fix: the step circuit folds any running instance

run compared u.x with the stored hash only, so a running instance other
than the one that hash stands for was folded and hashed into the next
step.
---
 nova/src/circuit.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nova/src/circuit.rs b/nova/src/circuit.rs
index 175f7d8..2aa091f 100644
--- a/nova/src/circuit.rs
+++ b/nova/src/circuit.rs
@@ -79,7 +79,12 @@ impl<T: Digest + Default + ark_serialize::Write, FC: FCircuit> AugmentedCircuit<
             // get hash_x
             let hash_x = self.h_i.unwrap();
 
-            // 1. check that u.x =? hash_x
+            // 1. check that U_i is the running instance that hash_x stands for
+            if hash_x != Self::hash_io(self.i, &self.z_0, &self.z_i, big_u_i.unwrap()) {
+                return Err(String::from("Running instance is wrong"));
+            }
+
+            // check that u.x =? hash_x
             // Because u_i.x is in ScalarField while hash_x is in BaseField, they need to
             // be converted into a comparable type
             // Todo: Non-native field transform
-- 
2.43.0

