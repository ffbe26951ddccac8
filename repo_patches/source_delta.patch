From 485c07ff5282b3d2121a031e04c778b1e6822580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:06 +0000
Subject: [PATCH 01/20] fix: R1CS reader: do not trust counts and sizes from
 the file

A damaged .r1cs file could make the reader allocate memory for billions of
elements (section counts, field size) or seek backwards over a section size
above i64::MAX and read the wrong bytes as sections. Grow as data is actually
read and reject sections that leave the file.
---
 packages/zkenc-cli/src/r1cs.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/packages/zkenc-cli/src/r1cs.rs b/packages/zkenc-cli/src/r1cs.rs
index f4f739b..ab3140e 100644
--- a/packages/zkenc-cli/src/r1cs.rs
+++ b/packages/zkenc-cli/src/r1cs.rs
@@ -96,6 +96,7 @@ impl R1csFile {
     pub fn from_file<P: AsRef<Path>>(path: P) -> Result<Self> {
         let file = File::open(path.as_ref())
             .with_context(|| format!("Failed to open R1CS file: {:?}", path.as_ref()))?;
+        let file_size = file.metadata()?.len();
         let mut reader = BufReader::new(file);
 
         // Parse magic number "r1cs"
@@ -120,6 +121,9 @@ impl R1csFile {
             let section_type = read_u32(&mut reader)?;
             let section_size = read_u64(&mut reader)?;
             let section_pos = reader.stream_position()?;
+            if section_size > file_size.saturating_sub(section_pos) {
+                bail!("Invalid R1CS file: section extends past the end of the file");
+            }
             sections.push((section_type, section_size, section_pos));
             reader.seek_relative(section_size as i64)?;
         }
@@ -131,7 +135,7 @@ impl R1csFile {
                 .find(|(t, _, _)| *t == 0x01)
                 .context("Header section not found")?;
             reader.seek(std::io::SeekFrom::Start(header_section.2))?;
-            Self::parse_header(&mut reader)?
+            Self::parse_header(&mut reader, header_section.1)?
         };
 
         // Parse constraints section
@@ -172,8 +176,11 @@ impl R1csFile {
         })
     }
 
-    fn parse_header(reader: &mut BufReader<File>) -> Result<R1csHeader> {
+    fn parse_header(reader: &mut BufReader<File>, section_size: u64) -> Result<R1csHeader> {
         let field_size = read_u32(reader)?;
+        if field_size as u64 > section_size {
+            bail!("Invalid R1CS file: field size exceeds the header section");
+        }
         let mut prime = vec![0u8; field_size as usize];
         reader.read_exact(&mut prime)?;
 
@@ -201,7 +208,8 @@ impl R1csFile {
         n_constraints: usize,
         field_size: usize,
     ) -> Result<Vec<Constraint>> {
-        let mut constraints = Vec::with_capacity(n_constraints);
+        // n_constraints is not trusted: grow as constraints are actually read
+        let mut constraints = Vec::new();
 
         for _ in 0..n_constraints {
             let a = Self::parse_lc(reader, field_size)?;
@@ -216,7 +224,7 @@ impl R1csFile {
 
     fn parse_lc(reader: &mut BufReader<File>, field_size: usize) -> Result<LinearCombination> {
         let n_factors = read_u32(reader)?;
-        let mut factors = Vec::with_capacity(n_factors as usize);
+        let mut factors = Vec::new();
 
         for _ in 0..n_factors {
             let wire_id = read_u32(reader)?;
@@ -229,7 +237,7 @@ impl R1csFile {
     }
 
     fn parse_wire2label(reader: &mut BufReader<File>, n_wires: usize) -> Result<Vec<u64>> {
-        let mut wire2label = Vec::with_capacity(n_wires);
+        let mut wire2label = Vec::new();
         for _ in 0..n_wires {
             wire2label.push(read_u64(reader)?);
         }
-- 
2.43.0


From 0bc7d47a6351c80e3dc23306dc4289fb79a3453d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:14 +0000
Subject: [PATCH 02/20] fix: zkenc-js: retry WASM initialisation after a failed
 attempt

The rejected promise was kept, so one failed start made every later call fail.
---
 packages/zkenc-js/src/zkenc.ts | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/packages/zkenc-js/src/zkenc.ts b/packages/zkenc-js/src/zkenc.ts
index c0b384c..307f786 100644
--- a/packages/zkenc-js/src/zkenc.ts
+++ b/packages/zkenc-js/src/zkenc.ts
@@ -24,7 +24,16 @@ async function ensureWasmInit() {
         wasmInitialized = true;
       })();
     }
-    await wasmInitPromise;
+    const attempt = wasmInitPromise;
+    try {
+      await attempt;
+    } catch (error) {
+      // A failed attempt must not be remembered: later calls try again
+      if (wasmInitPromise === attempt) {
+        wasmInitPromise = null;
+      }
+      throw error;
+    }
   }
 }
 
-- 
2.43.0


From 717e911da408fe03c709440b44bdf9be318b4bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:14 +0000
Subject: [PATCH 03/20] fix: zkenc-js: encrypt uses its arguments as they were
 at the call

Message and public inputs were read after awaits, so a caller changing them
meanwhile got a package for other data, or one whose embedded inputs were not
the ones the ciphertext was made for.
---
 packages/zkenc-js/src/zkenc.ts | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/packages/zkenc-js/src/zkenc.ts b/packages/zkenc-js/src/zkenc.ts
index 307f786..e306f0a 100644
--- a/packages/zkenc-js/src/zkenc.ts
+++ b/packages/zkenc-js/src/zkenc.ts
@@ -91,8 +91,6 @@ export async function encap(
   circuitFiles: CircuitFilesForEncap,
   publicInputs: Record<string, any>
 ): Promise<EncapResult> {
-  await ensureWasmInit();
-
   // Parse symbol file to get signal name -> wire ID mapping
   const wireMap = parseSymFile(circuitFiles.symContent);
   const inputSignals = getInputSignals(wireMap);
@@ -121,6 +119,9 @@ export async function encap(
   // Serialize witness to snarkjs wtns format
   const witnessBytes = serializeWitnessSimple(witnessArray);
 
+  // Inputs have been read; from here on the caller may change them
+  await ensureWasmInit();
+
   // Call WASM encap function with witness
   const result = wasm_encap(circuitFiles.r1csBuffer, witnessBytes);
 
@@ -323,6 +324,16 @@ export async function encrypt(
 ): Promise<EncryptResult> {
   const { includePublicInput = true } = options;
 
+  // Take message and public inputs as they are now: the caller may change
+  // them while the steps below are in flight
+  const plaintext = new Uint8Array(message);
+  let publicInputBytes = new Uint8Array(0);
+  if (includePublicInput) {
+    const publicInputJson = JSON.stringify(publicInputs);
+    const encoder = new TextEncoder();
+    publicInputBytes = encoder.encode(publicInputJson);
+  }
+
   // Step 1: Generate witness-encrypted key
   const { ciphertext: witnessCiphertext, key } = await encap(
     circuitFiles,
@@ -331,17 +342,9 @@ export async function encrypt(
 
   // Step 2: Encrypt message with the key using AES-256-GCM
   const { aesGcmEncrypt } = await import("./crypto.js");
-  const encryptedMessage = await aesGcmEncrypt(key, message);
-
-  // Step 3: Prepare public input data (if includePublicInput is true)
-  let publicInputBytes = new Uint8Array(0);
-  if (includePublicInput) {
-    const publicInputJson = JSON.stringify(publicInputs);
-    const encoder = new TextEncoder();
-    publicInputBytes = encoder.encode(publicInputJson);
-  }
+  const encryptedMessage = await aesGcmEncrypt(key, plaintext);
 
-  // Step 4: Combine all parts
+  // Step 3: Combine all parts
   // Format: [1 byte flag][4 bytes witness ct length][witness ciphertext]
   //         [4 bytes public input length (if flag=1)][public input (if flag=1)]
   //         [encrypted message]
-- 
2.43.0


From 9bc72ef6872d6fd83700a799e61353b80ce752a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:14 +0000
Subject: [PATCH 04/20] fix: zkenc-js: reduce public inputs modulo the field
 prime

Negative values were written in 256-bit two's complement and values of more
than 256 bits were cut off, binding the ciphertext to another value than the
one the CLI and the circuit use for the same input.
---
 packages/zkenc-js/src/zkenc.ts | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/packages/zkenc-js/src/zkenc.ts b/packages/zkenc-js/src/zkenc.ts
index e306f0a..d4fceb4 100644
--- a/packages/zkenc-js/src/zkenc.ts
+++ b/packages/zkenc-js/src/zkenc.ts
@@ -12,6 +12,11 @@ import {
   mapInputsToWires,
 } from "./sym_parser.js";
 
+// BN254 scalar field prime
+const BN254_PRIME = BigInt(
+  "21888242871839275222246405745257275088548364400416034343698204186575808495617"
+);
+
 // Initialize WASM module
 let wasmInitialized = false;
 let wasmInitPromise: Promise<void> | null = null;
@@ -109,7 +114,9 @@ export async function encap(
     const value = wireValues.get(i);
     if (value !== undefined) {
       const valueStr = Array.isArray(value) ? value[0] : value;
-      witnessArray.push(BigInt(valueStr));
+      // Reduce into the field (negative numbers and numbers above the prime)
+      const reduced = BigInt(valueStr) % BN254_PRIME;
+      witnessArray.push(reduced < 0n ? reduced + BN254_PRIME : reduced);
     } else {
       // This wire is not a public input, stop here
       break;
@@ -150,11 +157,6 @@ export async function encap(
  *   - Witness values (32 bytes each, little-endian)
  */
 function serializeWitnessSimple(witness: bigint[]): Uint8Array {
-  // BN254 prime
-  const bn254Prime = BigInt(
-    "21888242871839275222246405745257275088548364400416034343698204186575808495617"
-  );
-
   // Calculate sizes
   const headerSize = 4 + 32 + 4; // field_size + prime + witness_count
   const witnessDataSize = witness.length * 32;
@@ -199,7 +201,7 @@ function serializeWitnessSimple(witness: bigint[]): Uint8Array {
   offset += 4;
 
   // Prime (32 bytes, little-endian)
-  const primeBytes = bigIntToLeBytes32(bn254Prime);
+  const primeBytes = bigIntToLeBytes32(BN254_PRIME);
   bytes.set(primeBytes, offset);
   offset += 32;
 
-- 
2.43.0


From ca15e67638adb181c16a228cd79ff13fcaef4623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:14 +0000
Subject: [PATCH 05/20] fix: zkenc-js: map nested input arrays to their wires

Elements of arrays of arrays were dropped, so circuits with such public inputs
could not be used, or were used without those inputs.
---
 packages/zkenc-js/src/sym_parser.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/zkenc-js/src/sym_parser.ts b/packages/zkenc-js/src/sym_parser.ts
index 01d6be3..dbccf6c 100644
--- a/packages/zkenc-js/src/sym_parser.ts
+++ b/packages/zkenc-js/src/sym_parser.ts
@@ -95,8 +95,12 @@ export function mapInputsToWires(
     const fullKey = prefix ? `${prefix}.${key}` : key;
 
     if (Array.isArray(value)) {
-      // Handle array inputs
+      // Handle array inputs (nested ones have one index per dimension)
       for (let i = 0; i < value.length; i++) {
+        if (Array.isArray(value[i])) {
+          flattenInput(`${key}[${i}]`, value[i], prefix);
+          continue;
+        }
         const arrayKey = `${fullKey}[${i}]`;
         const wireId = wireMap.get(arrayKey);
         if (wireId !== undefined) {
-- 
2.43.0


From def9f70a9ddd3380770d7404d25794d5a1a2bd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:52 +0000
Subject: [PATCH 06/20] fix: CLI: map values given for public outputs to their
 wires

Circom numbers public outputs before public inputs, so looking only at the
first n_pub_in wires dropped the last public values of every circuit that has
public outputs, and decap could never open what encap produced.
---
 packages/zkenc-cli/src/commands.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/zkenc-cli/src/commands.rs b/packages/zkenc-cli/src/commands.rs
index 4cb13e8..9c5a818 100644
--- a/packages/zkenc-cli/src/commands.rs
+++ b/packages/zkenc-cli/src/commands.rs
@@ -39,7 +39,7 @@ pub fn encap_command(
     let sym_content = fs::read_to_string(sym_path).context("Failed to read symbol file")?;
     let wire_map =
         super::sym_parser::parse_sym_file(&sym_content).context("Failed to parse symbol file")?;
-    let input_signals = super::sym_parser::get_input_signals(&wire_map, Some(r1cs.n_pub_in));
+    let input_signals = super::sym_parser::get_input_signals(&wire_map, Some(r1cs.n_public_inputs()));
 
     // Parse public inputs from JSON with key names
     println!("\n📋 Loading public inputs from JSON...");
@@ -176,7 +176,7 @@ pub fn encrypt_command(
     let sym_content = fs::read_to_string(sym_path).context("Failed to read symbol file")?;
     let wire_map =
         super::sym_parser::parse_sym_file(&sym_content).context("Failed to parse symbol file")?;
-    let input_signals = super::sym_parser::get_input_signals(&wire_map, Some(r1cs.n_pub_in));
+    let input_signals = super::sym_parser::get_input_signals(&wire_map, Some(r1cs.n_public_inputs()));
 
     // Parse public inputs from JSON with key names
     println!("\n📋 Loading public inputs from JSON...");
-- 
2.43.0


From a30e8391919bda9cac5adc03ed3469497f6990b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:52 +0000
Subject: [PATCH 07/20] fix: refuse to encapsulate when a public input has no
 value

With a public wire left out, encap bound the ciphertext to fewer public inputs
than the circuit has: nobody can open it, and no error was reported.
---
 packages/zkenc-cli/src/commands.rs | 14 ++++++++++++++
 packages/zkenc-js/src/lib.rs       |  9 ++++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/packages/zkenc-cli/src/commands.rs b/packages/zkenc-cli/src/commands.rs
index 9c5a818..05db5bc 100644
--- a/packages/zkenc-cli/src/commands.rs
+++ b/packages/zkenc-cli/src/commands.rs
@@ -62,6 +62,8 @@ pub fn encap_command(
     }
 
     println!("\n🔐 Running Encap...");
+    check_public_inputs(&r1cs, &witness)?;
+
     let mut circuit =
         CircomCircuit::from_r1cs(&circuit_path).context("Failed to create circuit")?;
     circuit.set_witness(witness);
@@ -198,6 +200,8 @@ pub fn encrypt_command(
         }
     }
 
+    check_public_inputs(&r1cs, &witness)?;
+
     let mut circuit =
         CircomCircuit::from_r1cs(&circuit_path).context("Failed to create circuit")?;
     circuit.set_witness(witness);
@@ -403,6 +407,16 @@ pub fn decrypt_command(
     Ok(())
 }
 
+/// Check that every public wire of the circuit has been given a value
+///
+/// Encapsulation would otherwise bind the ciphertext to an incomplete statement.
+fn check_public_inputs(r1cs: &R1csFile, witness: &HashMap<u32, Fr>) -> Result<()> {
+    if let Some(wire_id) = (1..=r1cs.n_public_inputs()).find(|id| !witness.contains_key(id)) {
+        anyhow::bail!("Missing value for public input (wire {})", wire_id);
+    }
+    Ok(())
+}
+
 /// Parse circuit inputs from JSON file
 /// Returns a vector of field elements in order (flattened if nested)
 fn parse_circuit_inputs(json_str: &str) -> Result<Vec<Fr>> {
diff --git a/packages/zkenc-js/src/lib.rs b/packages/zkenc-js/src/lib.rs
index 71be291..281fcb9 100644
--- a/packages/zkenc-js/src/lib.rs
+++ b/packages/zkenc-js/src/lib.rs
@@ -393,7 +393,14 @@ pub fn wasm_encap(r1cs_bytes: &[u8], witness_bytes: &[u8]) -> Result<EncapResult
     // Extract only public inputs from witness
     // Wire 0 = constant 1, Wires 1..n_pub = public inputs
     let n_pub = header.n_public_inputs() as usize;
-    
+    if witness_values.len() <= n_pub {
+        return Err(JsValue::from_str(&format!(
+            "Missing public inputs: expected {}, got {}",
+            n_pub,
+            witness_values.len().saturating_sub(1)
+        )));
+    }
+
     // Create witness map with constant and public inputs only
     let mut witness_map = HashMap::new();
     for i in 0..=(n_pub as u32) {
-- 
2.43.0


From fc78009ed8958afac03e88e360207109396f124f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:52 +0000
Subject: [PATCH 08/20] fix: CLI: negative JSON numbers are negative field
 elements

A negative number was taken as its 64-bit two's complement (2^64 - n), another
value than the circuit's and the JavaScript library's.
---
 packages/zkenc-cli/src/commands.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/zkenc-cli/src/commands.rs b/packages/zkenc-cli/src/commands.rs
index 05db5bc..c5d4d55 100644
--- a/packages/zkenc-cli/src/commands.rs
+++ b/packages/zkenc-cli/src/commands.rs
@@ -433,7 +433,7 @@ fn parse_circuit_inputs(json_str: &str) -> Result<Vec<Fr>> {
                 let num = if let Some(u) = n.as_u64() {
                     Fr::from(u)
                 } else if let Some(i) = n.as_i64() {
-                    Fr::from(i as u64)
+                    Fr::from(i)
                 } else {
                     anyhow::bail!("Unsupported number format");
                 };
@@ -485,7 +485,7 @@ fn parse_circuit_inputs_with_keys(json_str: &str) -> Result<HashMap<String, Fr>>
                 let num = if let Some(u) = n.as_u64() {
                     Fr::from(u)
                 } else if let Some(i) = n.as_i64() {
-                    Fr::from(i as u64)
+                    Fr::from(i)
                 } else {
                     anyhow::bail!("Unsupported number format");
                 };
-- 
2.43.0


From d475d5e18b8e15163598811015a3aa520410db12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:52 +0000
Subject: [PATCH 09/20] fix: CLI: witness reader does not trust sizes from the
 file

A damaged .wtns file could make the reader allocate memory for section and
field sizes far above the size of the file.
---
 packages/zkenc-cli/src/witness.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/packages/zkenc-cli/src/witness.rs b/packages/zkenc-cli/src/witness.rs
index d6ee093..b79f3cd 100644
--- a/packages/zkenc-cli/src/witness.rs
+++ b/packages/zkenc-cli/src/witness.rs
@@ -65,21 +65,21 @@ impl WitnessFile {
                     let field_size = read_u32_le(&mut reader)?;
 
                     // Read prime modulus
-                    prime = vec![0u8; field_size as usize];
-                    reader.read_exact(&mut prime)?;
+                    prime = read_bytes(&mut reader, field_size as u64)?;
 
                     // Read witness count
                     n_witness = read_u32_le(&mut reader)?;
                 }
                 2 => {
                     // Witness data section
-                    witness_data = vec![0u8; section_size as usize];
-                    reader.read_exact(&mut witness_data)?;
+                    witness_data = read_bytes(&mut reader, section_size)?;
                 }
                 _ => {
                     // Skip unknown sections
-                    let mut skip = vec![0u8; section_size as usize];
-                    reader.read_exact(&mut skip)?;
+                    let mut skipped = reader.by_ref().take(section_size);
+                    if std::io::copy(&mut skipped, &mut std::io::sink())? != section_size {
+                        bail!("Unexpected end of witness file");
+                    }
                 }
             }
         }
@@ -93,7 +93,7 @@ impl WitnessFile {
 
         // Parse witness data into assignments
         let field_size = prime.len();
-        let expected_size = n_witness as usize * field_size;
+        let expected_size = (n_witness as usize).saturating_mul(field_size);
         if witness_data.len() != expected_size {
             bail!(
                 "Witness data size mismatch: expected {} bytes ({} elements * {} bytes), got {}",
@@ -140,7 +140,16 @@ impl WitnessFile {
     }
 }
 
-// Helper functions for reading little-endian integers
+// Helper functions for reading bytes and little-endian integers
+
+/// Read exactly `len` bytes, growing the buffer only as data is actually read
+fn read_bytes<R: Read>(reader: &mut R, len: u64) -> Result<Vec<u8>> {
+    let mut bytes = Vec::new();
+    if reader.take(len).read_to_end(&mut bytes)? as u64 != len {
+        bail!("Unexpected end of witness file");
+    }
+    Ok(bytes)
+}
 
 fn read_u32_le<R: Read>(reader: &mut R) -> Result<u32> {
     let mut buf = [0u8; 4];
-- 
2.43.0


From f15e6b1de3fe2d5d36efa36df62ce9b5fb08996e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:18 +0000
Subject: [PATCH 10/20] fix: zkenc-js: check witness files instead of trusting
 their sizes

A truncated or damaged .wtns panicked, hung or was silently accepted with part
of its values; a file whose values section precedes its header did not
terminate.
---
 packages/zkenc-js/src/lib.rs | 84 ++++++++++++++++++++----------------
 1 file changed, 48 insertions(+), 36 deletions(-)

diff --git a/packages/zkenc-js/src/lib.rs b/packages/zkenc-js/src/lib.rs
index 281fcb9..7a4833e 100644
--- a/packages/zkenc-js/src/lib.rs
+++ b/packages/zkenc-js/src/lib.rs
@@ -240,57 +240,69 @@ fn parse_witness(data: &[u8]) -> Result<Vec<Fr>, String> {
     }
     pos += 4;
 
+    // Helper to take the next `len` bytes
+    let take = |pos: &mut usize, len: usize| -> Result<&[u8], String> {
+        if len > data.len() - *pos {
+            return Err("Unexpected end of witness data".to_string());
+        }
+        let bytes = &data[*pos..*pos + len];
+        *pos += len;
+        Ok(bytes)
+    };
+
+    // Helper to read u32
+    let read_u32 = |pos: &mut usize| -> Result<u32, String> {
+        let b = take(pos, 4)?;
+        Ok(u32::from_le_bytes([b[0], b[1], b[2], b[3]]))
+    };
+
     // Version
-    let version = u32::from_le_bytes([data[pos], data[pos + 1], data[pos + 2], data[pos + 3]]);
-    pos += 4;
+    let version = read_u32(&mut pos)?;
     if version != 2 {
         return Err(format!("Unsupported witness version: {}", version));
     }
 
     // Number of sections
-    let n_sections = u32::from_le_bytes([data[pos], data[pos + 1], data[pos + 2], data[pos + 3]]);
-    pos += 4;
+    let n_sections = read_u32(&mut pos)?;
 
-    let mut witness: Vec<Fr> = Vec::new();
-    let mut n8 = 0usize;
+    let mut header: Option<(usize, usize)> = None; // (field size, witness count)
+    let mut values: Option<&[u8]> = None;
 
     for _ in 0..n_sections {
-        let section_type =
-            u32::from_le_bytes([data[pos], data[pos + 1], data[pos + 2], data[pos + 3]]);
-        pos += 4;
-
-        let section_len = u64::from_le_bytes([
-            data[pos],
-            data[pos + 1],
-            data[pos + 2],
-            data[pos + 3],
-            data[pos + 4],
-            data[pos + 5],
-            data[pos + 6],
-            data[pos + 7],
-        ]) as usize;
-        pos += 8;
-
-        let section_end = pos + section_len;
+        let section_type = read_u32(&mut pos)?;
+        let b = take(&mut pos, 8)?;
+        let section_len = u64::from_le_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]]);
+        let section_len = usize::try_from(section_len)
+            .map_err(|_| "Unexpected end of witness data".to_string())?;
+        let section_start = pos;
+        let section = take(&mut pos, section_len)?;
 
         if section_type == 1 {
-            // Header section
-            n8 = u32::from_le_bytes([data[pos], data[pos + 1], data[pos + 2], data[pos + 3]])
-                as usize;
+            // Header section: field size, prime, witness count
+            let mut header_pos = section_start;
+            let n8 = read_u32(&mut header_pos)? as usize;
+            take(&mut header_pos, n8)?; // Skip prime bytes
+            let n_witness = read_u32(&mut header_pos)? as usize;
+            header = Some((n8, n_witness));
         } else if section_type == 2 {
             // Witness values section - contains raw witness data (field_size * n_witness bytes)
-            // Read all witness values directly
-            while pos + n8 <= section_end {
-                let mut bytes = vec![0u8; 32];
-                let copy_len = n8.min(32);
-                bytes[..copy_len].copy_from_slice(&data[pos..pos + copy_len]);
-
-                witness.push(Fr::from_le_bytes_mod_order(&bytes));
-                pos += n8;
-            }
+            values = Some(section);
         }
+    }
+
+    let (n8, n_witness) = header.ok_or("Missing header section in witness file")?;
+    let values = values.ok_or("Missing values section in witness file")?;
+    if n8 == 0 || n_witness.checked_mul(n8) != Some(values.len()) {
+        return Err("Witness data size mismatch".to_string());
+    }
+
+    let mut witness: Vec<Fr> = Vec::new();
+    for value in values.chunks_exact(n8) {
+        let mut bytes = [0u8; 32];
+        let copy_len = n8.min(32);
+        bytes[..copy_len].copy_from_slice(&value[..copy_len]);
 
-        pos = section_end;
+        witness.push(Fr::from_le_bytes_mod_order(&bytes));
     }
 
     Ok(witness)
-- 
2.43.0


From 6de76f91193357e3c38c5c89d9450563199993f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:18 +0000
Subject: [PATCH 11/20] fix: R1CS: no overflow on section lengths and counts
 from the file

A damaged .r1cs panicked the WASM module or gave a circuit with a wrapped-around
number of public inputs.
---
 packages/zkenc-cli/src/r1cs.rs | 2 +-
 packages/zkenc-js/src/lib.rs   | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/packages/zkenc-cli/src/r1cs.rs b/packages/zkenc-cli/src/r1cs.rs
index ab3140e..f622515 100644
--- a/packages/zkenc-cli/src/r1cs.rs
+++ b/packages/zkenc-cli/src/r1cs.rs
@@ -246,7 +246,7 @@ impl R1csFile {
 
     /// Get the number of public inputs (outputs + inputs)
     pub fn n_public_inputs(&self) -> u32 {
-        self.n_pub_out + self.n_pub_in
+        self.n_pub_out.saturating_add(self.n_pub_in)
     }
 }
 
diff --git a/packages/zkenc-js/src/lib.rs b/packages/zkenc-js/src/lib.rs
index 7a4833e..43ace9e 100644
--- a/packages/zkenc-js/src/lib.rs
+++ b/packages/zkenc-js/src/lib.rs
@@ -61,7 +61,7 @@ struct R1csHeader {
 
 impl R1csHeader {
     fn n_public_inputs(&self) -> u32 {
-        self.n_pub_out + self.n_pub_in
+        self.n_pub_out.saturating_add(self.n_pub_in)
     }
 }
 
@@ -124,6 +124,9 @@ fn parse_r1cs(data: &[u8]) -> Result<(R1csHeader, Vec<R1csConstraint>), String>
         let section_type = read_u32(&mut pos)?;
         let section_len = read_u64(&mut pos)? as usize;
         let section_start = pos;
+        if section_len > data.len() - section_start {
+            return Err("Section extends past the end of the data".to_string());
+        }
         sections.push((section_type, section_len, section_start));
         pos = section_start + section_len;
     }
-- 
2.43.0


From 7abe2493a030234b37fdbf4cde75e68174e2d9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:33 +0000
Subject: [PATCH 12/20] fix: CLI: encap and decap no longer declare -c twice

Both --circuit and --ciphertext claimed -c: debug builds panic on every
invocation of the program. --ciphertext is only documented in its long form.
---
 packages/zkenc-cli/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/zkenc-cli/src/main.rs b/packages/zkenc-cli/src/main.rs
index c6f711f..9d46532 100644
--- a/packages/zkenc-cli/src/main.rs
+++ b/packages/zkenc-cli/src/main.rs
@@ -33,7 +33,7 @@ enum Commands {
         #[arg(short, long)]
         input: String,
         /// Output ciphertext file path
-        #[arg(short, long)]
+        #[arg(long)]
         ciphertext: String,
         /// Output key file path
         #[arg(short, long)]
@@ -48,7 +48,7 @@ enum Commands {
         #[arg(short, long)]
         witness: String,
         /// Ciphertext file path
-        #[arg(short, long)]
+        #[arg(long)]
         ciphertext: String,
         /// Output key file path
         #[arg(short, long)]
-- 
2.43.0


From 4a06a18b97826d12f4fe8f72ee13cc74071497f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:06 +0000
Subject: [PATCH 13/20] fix: witness readers: the header lies within its
 section

A header section declared shorter than its fields was read on into the next
section, and one declared longer shifted the sections after it (CLI).
---
 packages/zkenc-cli/src/witness.rs | 8 +++++---
 packages/zkenc-js/src/lib.rs      | 4 ++++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/packages/zkenc-cli/src/witness.rs b/packages/zkenc-cli/src/witness.rs
index b79f3cd..f38a65d 100644
--- a/packages/zkenc-cli/src/witness.rs
+++ b/packages/zkenc-cli/src/witness.rs
@@ -62,13 +62,15 @@ impl WitnessFile {
             match section_type {
                 1 => {
                     // Header section
-                    let field_size = read_u32_le(&mut reader)?;
+                    let header_data = read_bytes(&mut reader, section_size)?;
+                    let mut header = &header_data[..];
+                    let field_size = read_u32_le(&mut header)?;
 
                     // Read prime modulus
-                    prime = read_bytes(&mut reader, field_size as u64)?;
+                    prime = read_bytes(&mut header, field_size as u64)?;
 
                     // Read witness count
-                    n_witness = read_u32_le(&mut reader)?;
+                    n_witness = read_u32_le(&mut header)?;
                 }
                 2 => {
                     // Witness data section
diff --git a/packages/zkenc-js/src/lib.rs b/packages/zkenc-js/src/lib.rs
index 43ace9e..c2d6ec2 100644
--- a/packages/zkenc-js/src/lib.rs
+++ b/packages/zkenc-js/src/lib.rs
@@ -279,6 +279,7 @@ fn parse_witness(data: &[u8]) -> Result<Vec<Fr>, String> {
             .map_err(|_| "Unexpected end of witness data".to_string())?;
         let section_start = pos;
         let section = take(&mut pos, section_len)?;
+        let section_end = pos;
 
         if section_type == 1 {
             // Header section: field size, prime, witness count
@@ -286,6 +287,9 @@ fn parse_witness(data: &[u8]) -> Result<Vec<Fr>, String> {
             let n8 = read_u32(&mut header_pos)? as usize;
             take(&mut header_pos, n8)?; // Skip prime bytes
             let n_witness = read_u32(&mut header_pos)? as usize;
+            if header_pos > section_end {
+                return Err("Invalid header section in witness file".to_string());
+            }
             header = Some((n8, n_witness));
         } else if section_type == 2 {
             // Witness values section - contains raw witness data (field_size * n_witness bytes)
-- 
2.43.0


From 10fde807e6f795ad342961b2834fe6dd52d22013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:46 +0000
Subject: [PATCH 14/20] fix: section and field sizes of .r1cs files beyond 32
 bits wrapped around in the WebAssembly module

---
 packages/zkenc-js/src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/packages/zkenc-js/src/lib.rs b/packages/zkenc-js/src/lib.rs
index c2d6ec2..3d25ce2 100644
--- a/packages/zkenc-js/src/lib.rs
+++ b/packages/zkenc-js/src/lib.rs
@@ -122,7 +122,8 @@ fn parse_r1cs(data: &[u8]) -> Result<(R1csHeader, Vec<R1csConstraint>), String>
     let mut sections = Vec::new();
     for _ in 0..n_sections {
         let section_type = read_u32(&mut pos)?;
-        let section_len = read_u64(&mut pos)? as usize;
+        let section_len = usize::try_from(read_u64(&mut pos)?)
+            .map_err(|_| "Section extends past the end of the data".to_string())?;
         let section_start = pos;
         if section_len > data.len() - section_start {
             return Err("Section extends past the end of the data".to_string());
@@ -141,7 +142,7 @@ fn parse_r1cs(data: &[u8]) -> Result<(R1csHeader, Vec<R1csConstraint>), String>
         let mut header_pos = header_section.2;
         let field_size = read_u32(&mut header_pos)?;
         let prime_len = field_size as usize;
-        if header_pos + prime_len > data.len() {
+        if prime_len > data.len() - header_pos {
             return Err("Invalid prime length".to_string());
         }
         header_pos += prime_len; // Skip prime bytes
@@ -218,7 +219,7 @@ fn parse_linear_combination(
         *pos += 4;
 
         let value_len = field_size as usize;
-        if *pos + value_len > data.len() {
+        if value_len > data.len() - *pos {
             return Err("Unexpected end of data reading factor value".to_string());
         }
         let value = data[*pos..*pos + value_len].to_vec();
-- 
2.43.0


From 4bf1b25fd57572d34d7177e4bc9091f3a6665baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:18 +0000
Subject: [PATCH 15/20] fix: encap accepts any number of public inputs

Math.max(...keys) throws RangeError once there are more wires than a
call takes arguments (about 120000), so encap and encrypt failed for
circuits with large public inputs. Find the maximum in a loop.
---
 packages/zkenc-js/src/zkenc.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/zkenc-js/src/zkenc.ts b/packages/zkenc-js/src/zkenc.ts
index d4fceb4..20c00b8 100644
--- a/packages/zkenc-js/src/zkenc.ts
+++ b/packages/zkenc-js/src/zkenc.ts
@@ -104,7 +104,11 @@ export async function encap(
   const wireValues = mapInputsToWires(publicInputs, inputSignals);
 
   // Find the maximum wire ID to determine public input range
-  const maxWireId = Math.max(...Array.from(wireValues.keys()));
+  // (no spread: there may be more wires than a call takes arguments)
+  let maxWireId = 0;
+  for (const wireId of wireValues.keys()) {
+    if (wireId > maxWireId) maxWireId = wireId;
+  }
 
   // Create witness array: wire 0 = 1 (constant), then public input wires
   const witnessArray: bigint[] = [1n]; // Wire 0 is always 1
-- 
2.43.0


From 4610970d74b8c4409a589cadc1d25fffa53d6ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:08 +0000
Subject: [PATCH 16/20] fix: give the playground's encryptions the circuit's
 symbol file

encrypt() needs symContent since 0.2.0; without it both tabs of the
playground failed with a TypeError.
---
 docs/src/components/PlaygroundClient.tsx | 59 +++++++++++++++++++++---
 1 file changed, 52 insertions(+), 7 deletions(-)

diff --git a/docs/src/components/PlaygroundClient.tsx b/docs/src/components/PlaygroundClient.tsx
index 0459b7e..0445c1a 100644
--- a/docs/src/components/PlaygroundClient.tsx
+++ b/docs/src/components/PlaygroundClient.tsx
@@ -54,12 +54,14 @@ export default function PlaygroundClient(): React.ReactElement {
   const [circuitFiles, setCircuitFiles] = useState<{
     r1csBuffer: Uint8Array;
     wasmBuffer: Uint8Array;
+    symContent: string;
   } | null>(null);
 
   // Custom circuit state
   const [customCircuitFiles, setCustomCircuitFiles] = useState<{
     r1csBuffer: Uint8Array;
     wasmBuffer: Uint8Array;
+    symContent: string;
   } | null>(null);
   const [customPublicInput, setCustomPublicInput] = useState("");
   const [customPrivateInput, setCustomPrivateInput] = useState("");
@@ -72,26 +74,29 @@ export default function PlaygroundClient(): React.ReactElement {
 
   const sudokuR1cs = useBaseUrl("/circuits/sudoku.r1cs");
   const sudokuWasm = useBaseUrl("/circuits/sudoku.wasm");
+  const sudokuSym = useBaseUrl("/circuits/sudoku.sym");
 
   // Load circuit files on mount
   useEffect(() => {
     async function loadCircuits() {
       try {
         console.log(sudokuR1cs);
-        const [r1csRes, wasmRes] = await Promise.all([
+        const [r1csRes, wasmRes, symRes] = await Promise.all([
           fetch(sudokuR1cs),
           fetch(sudokuWasm),
+          fetch(sudokuSym),
         ]);
 
-        if (!r1csRes.ok || !wasmRes.ok) {
+        if (!r1csRes.ok || !wasmRes.ok || !symRes.ok) {
           setError("Failed to load circuit files");
           return;
         }
 
         const r1csBuffer = new Uint8Array(await r1csRes.arrayBuffer());
         const wasmBuffer = new Uint8Array(await wasmRes.arrayBuffer());
+        const symContent = await symRes.text();
 
-        setCircuitFiles({ r1csBuffer, wasmBuffer });
+        setCircuitFiles({ r1csBuffer, wasmBuffer, symContent });
       } catch (err) {
         setError("Error loading circuits: " + (err as Error).message);
       }
@@ -287,6 +292,7 @@ export default function PlaygroundClient(): React.ReactElement {
       setCustomCircuitFiles((prev) => ({
         r1csBuffer,
         wasmBuffer: prev?.wasmBuffer || new Uint8Array(),
+        symContent: prev?.symContent || "",
       }));
       setError("");
     };
@@ -304,12 +310,30 @@ export default function PlaygroundClient(): React.ReactElement {
       setCustomCircuitFiles((prev) => ({
         r1csBuffer: prev?.r1csBuffer || new Uint8Array(),
         wasmBuffer,
+        symContent: prev?.symContent || "",
       }));
       setError("");
     };
     reader.readAsArrayBuffer(file);
   };
 
+  const handleCustomSymUpload = (e: React.ChangeEvent<HTMLInputElement>) => {
+    const file = e.target.files?.[0];
+    if (!file) return;
+
+    const reader = new FileReader();
+    reader.onload = () => {
+      const symContent = reader.result as string;
+      setCustomCircuitFiles((prev) => ({
+        r1csBuffer: prev?.r1csBuffer || new Uint8Array(),
+        wasmBuffer: prev?.wasmBuffer || new Uint8Array(),
+        symContent,
+      }));
+      setError("");
+    };
+    reader.readAsText(file);
+  };
+
   const handleCustomEncrypt = async () => {
     if (!customMessage) {
       setError("Please enter a message");
@@ -319,9 +343,10 @@ export default function PlaygroundClient(): React.ReactElement {
     if (
       !customCircuitFiles ||
       !customCircuitFiles.r1csBuffer.length ||
-      !customCircuitFiles.wasmBuffer.length
+      !customCircuitFiles.wasmBuffer.length ||
+      !customCircuitFiles.symContent
     ) {
-      setError("Please upload both R1CS and WASM files");
+      setError("Please upload the R1CS, WASM and SYM files");
       return;
     }
 
@@ -896,6 +921,26 @@ export default function PlaygroundClient(): React.ReactElement {
                       </p>
                     )}
                   </div>
+                  <div>
+                    <label className={styles.fileLabel}>
+                      <Translate id="playground.custom.encrypt.symLabel">
+                        🏷️ SYM File (.sym)
+                      </Translate>
+                      <input
+                        type="file"
+                        accept=".sym"
+                        onChange={handleCustomSymUpload}
+                        className={styles.fileInput}
+                      />
+                    </label>
+                    {customCircuitFiles?.symContent.length > 0 && (
+                      <p className={styles.fileSuccess}>
+                        <Translate id="playground.custom.encrypt.symLoaded">
+                          ✅ SYM loaded
+                        </Translate>
+                      </p>
+                    )}
+                  </div>
                 </div>
               </div>
 
@@ -1240,11 +1285,11 @@ export default function PlaygroundClient(): React.ReactElement {
                 <Translate id="playground.custom.info.compile">
                   📄 Compile your circuit with:
                 </Translate>{" "}
-                <code>circom circuit.circom --r1cs --wasm</code>
+                <code>circom circuit.circom --r1cs --wasm --sym</code>
               </li>
               <li>
                 <Translate id="playground.custom.info.upload">
-                  📦 Upload both .r1cs and .wasm files
+                  📦 Upload the .r1cs, .wasm and .sym files
                 </Translate>
               </li>
               <li>
-- 
2.43.0


From 6c52ea01a277e7ded86a4fffee96b2091b4b1695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:08 +0000
Subject: [PATCH 17/20] fix: merge the playground's public inputs into the
 private ones

The page says so below the field, but used the private inputs alone.
---
 docs/src/components/PlaygroundClient.tsx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/docs/src/components/PlaygroundClient.tsx b/docs/src/components/PlaygroundClient.tsx
index 0445c1a..5fd6c97 100644
--- a/docs/src/components/PlaygroundClient.tsx
+++ b/docs/src/components/PlaygroundClient.tsx
@@ -399,7 +399,10 @@ export default function PlaygroundClient(): React.ReactElement {
 
     let fullInputs;
     try {
-      fullInputs = JSON.parse(customPrivateInput || customPublicInput);
+      fullInputs = {
+        ...JSON.parse(customPublicInput || "{}"),
+        ...JSON.parse(customPrivateInput || "{}"),
+      };
     } catch (err) {
       setError("Invalid JSON input");
       return;
-- 
2.43.0


From d27a248c7670a2fac93e3f71bf9e0584547ca25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:08 +0000
Subject: [PATCH 18/20] fix: do not show an earlier message next to a
 decryption error

A decryption refused for its inputs left the message of an earlier one on
the page.
---
 docs/src/components/PlaygroundClient.tsx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/docs/src/components/PlaygroundClient.tsx b/docs/src/components/PlaygroundClient.tsx
index 5fd6c97..5a6dc98 100644
--- a/docs/src/components/PlaygroundClient.tsx
+++ b/docs/src/components/PlaygroundClient.tsx
@@ -186,6 +186,7 @@ export default function PlaygroundClient(): React.ReactElement {
 
   const handleDecrypt = async () => {
     const ciphertextToUse = uploadedCiphertext || ciphertext;
+    setDecrypted("");
 
     if (!ciphertextToUse) {
       setError("Please encrypt a message or upload a ciphertext first");
@@ -210,7 +211,6 @@ export default function PlaygroundClient(): React.ReactElement {
 
     setLoading(true);
     setError("");
-    setDecrypted("");
 
     try {
       const inputs = {
@@ -383,6 +383,8 @@ export default function PlaygroundClient(): React.ReactElement {
   };
 
   const handleCustomDecrypt = async () => {
+    setCustomDecrypted("");
+
     if (!customCiphertext) {
       setError("Please encrypt a message or upload a ciphertext first");
       return;
@@ -410,7 +412,6 @@ export default function PlaygroundClient(): React.ReactElement {
 
     setLoading(true);
     setError("");
-    setCustomDecrypted("");
 
     try {
       const decryptedBytes = await decrypt(
-- 
2.43.0


From 9f87491781d5e819c4f48954ea31121d7b4ab80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:55 +0000
Subject: [PATCH 19/20] fix: decrypt the ciphertext the playground has just
 made

An earlier uploaded ciphertext was decrypted in its place.
---
 docs/src/components/PlaygroundClient.tsx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/docs/src/components/PlaygroundClient.tsx b/docs/src/components/PlaygroundClient.tsx
index 5a6dc98..e3c4e8e 100644
--- a/docs/src/components/PlaygroundClient.tsx
+++ b/docs/src/components/PlaygroundClient.tsx
@@ -175,6 +175,7 @@ export default function PlaygroundClient(): React.ReactElement {
       );
 
       setCiphertext(encryptedData);
+      setUploadedCiphertext(null);
       setError("");
     } catch (err) {
       console.error(err);
-- 
2.43.0


From 3aa96f39251c082ef165f797bf774d98b3eb60d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:05 +0000
Subject: [PATCH 20/20] fix: fill in an uploaded package's puzzle however its
 numbers are spelled

Public inputs may spell numbers as strings and arrays in rows. Strings
locked every cell of the solution, rows and lists of another length left
a grid without 81 cells.
---
 docs/src/components/PlaygroundClient.tsx | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/docs/src/components/PlaygroundClient.tsx b/docs/src/components/PlaygroundClient.tsx
index e3c4e8e..89bc7fb 100644
--- a/docs/src/components/PlaygroundClient.tsx
+++ b/docs/src/components/PlaygroundClient.tsx
@@ -266,9 +266,16 @@ export default function PlaygroundClient(): React.ReactElement {
       // Try to extract public input (puzzle) from ciphertext
       try {
         const publicInputs = getPublicInput(ciphertextBytes);
-        if (publicInputs.puzzle && Array.isArray(publicInputs.puzzle)) {
-          setPuzzle(publicInputs.puzzle);
-          setSolution(publicInputs.puzzle); // Initialize solution with puzzle
+        // Inputs may spell numbers as strings and arrays in rows
+        const newPuzzle: number[] = Array.isArray(publicInputs.puzzle)
+          ? publicInputs.puzzle.flat(Infinity).map(Number)
+          : [];
+        if (
+          newPuzzle.length === 81 &&
+          newPuzzle.every((n) => Number.isInteger(n) && n >= 0 && n <= 9)
+        ) {
+          setPuzzle(newPuzzle);
+          setSolution(newPuzzle); // Initialize solution with puzzle
           setError("");
         }
       } catch (err) {
-- 
2.43.0

