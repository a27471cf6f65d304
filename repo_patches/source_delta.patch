From 5bfc1424825755f893c3858d528ddefc3741e0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:15 +0000
Subject: [PATCH 01/18] fix: do not allocate the announced list length before
 reading the items

---
 bitcoin-cash/src/bitcoin_code.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoin-cash/src/bitcoin_code.rs b/bitcoin-cash/src/bitcoin_code.rs
index 0b7ba91..fc5d9f4 100644
--- a/bitcoin-cash/src/bitcoin_code.rs
+++ b/bitcoin-cash/src/bitcoin_code.rs
@@ -64,7 +64,7 @@ impl<T: BitcoinCode> BitcoinCode for Vec<T> {
 
     fn deser_rest(data: ByteArray) -> Result<(Self, ByteArray)> {
         let (len, mut byte_array) = read_size(data)?;
-        let mut vec = Vec::with_capacity(len);
+        let mut vec = Vec::new();
         for _ in 0..len {
             let (item, rest) = T::deser_rest(byte_array)?;
             vec.push(item);
-- 
2.43.0


From 6cd5efc84ff0415dc4cc120e55b360860e68661f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:15 +0000
Subject: [PATCH 02/18] fix: decode script numbers beyond four bytes exactly or
 report overflow

---
 bitcoin-cash-base/src/encoding_utils.rs | 36 +++++++++++--------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/bitcoin-cash-base/src/encoding_utils.rs b/bitcoin-cash-base/src/encoding_utils.rs
index db3cc59..65ea3c0 100644
--- a/bitcoin-cash-base/src/encoding_utils.rs
+++ b/bitcoin-cash-base/src/encoding_utils.rs
@@ -93,28 +93,24 @@ pub fn encode_bool(b: bool) -> Vec<u8> {
     }
 }
 
-fn try_shl(a: InnerInteger, b: u32, vec: &[u8]) -> Result<InnerInteger, String> {
-    a.checked_shl(b)
-        .ok_or_else(|| format!("Overflow for {}", hex::encode(vec)))
-}
-
 pub fn vec_to_int(vec: &[u8]) -> Result<InnerInteger, String> {
-    if vec.is_empty() {
-        return Ok(0);
-    }
-    let mut shift = 0;
-    let mut int = 0;
-    let sign_bit = vec[vec.len() - 1] & 0x80;
-    for (i, value) in vec.iter().enumerate() {
-        if i == vec.len() - 1 && sign_bit != 0 {
-            int += try_shl((*value ^ sign_bit) as InnerInteger, shift, vec)?;
-            int *= -1;
-        } else {
-            if *value != 0 {
-                int += try_shl(*value as InnerInteger, shift, vec)?;
+    let overflow = || format!("Overflow for {}", hex::encode(vec));
+    let mut magnitude = 0i64;
+    for (i, &byte) in vec.iter().enumerate() {
+        let is_last = i == vec.len() - 1;
+        let value = if is_last { byte & 0x7f } else { byte };
+        if value != 0 {
+            if i >= 4 {
+                return Err(overflow());
             }
-            shift += 8;
+            magnitude |= (value as i64) << (8 * i);
         }
     }
-    Ok(int)
+    if magnitude > InnerInteger::max_value() as i64 {
+        return Err(overflow());
+    }
+    match vec.last() {
+        Some(last) if last & 0x80 != 0 => Ok(-magnitude as InnerInteger),
+        _ => Ok(magnitude as InnerInteger),
+    }
 }
-- 
2.43.0


From 7f2fe9eb3263f85bb334d7c93ab85b97b84952cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:15 +0000
Subject: [PATCH 03/18] fix: classify hash templates with a push of the wrong
 size as unknown

---
 bitcoin-cash/src/destination.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitcoin-cash/src/destination.rs b/bitcoin-cash/src/destination.rs
index 627595a..3e4096c 100644
--- a/bitcoin-cash/src/destination.rs
+++ b/bitcoin-cash/src/destination.rs
@@ -22,7 +22,7 @@ pub fn script_destination<'a>(addr_prefix: &'a str, script: &Script) -> Destinat
 
     use PatternOp::Array;
     match pattern_ops.as_slice() {
-        [OP_DUP, OP_HASH160, Array(hash), OP_EQUALVERIFY, OP_CHECKSIG] => {
+        [OP_DUP, OP_HASH160, Array(hash), OP_EQUALVERIFY, OP_CHECKSIG] if hash.len() == 20 => {
             Destination::Address(
                 Address::from_hash(
                     addr_prefix,
@@ -31,7 +31,7 @@ pub fn script_destination<'a>(addr_prefix: &'a str, script: &Script) -> Destinat
                 ),
             )
         }
-        [OP_HASH160, Array(hash), OP_EQUAL] => {
+        [OP_HASH160, Array(hash), OP_EQUAL] if hash.len() == 20 => {
             Destination::Address(
                 Address::from_hash(
                     addr_prefix,
-- 
2.43.0


From baaf7198a55ceff15ea2238788ee6c3d3835a585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:15 +0000
Subject: [PATCH 04/18] fix: reject CashAddr payloads of the wrong size or with
 non-zero padding

---
 bitcoin-cash/src/address.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bitcoin-cash/src/address.rs b/bitcoin-cash/src/address.rs
index 03a41ef..5c4ffb9 100644
--- a/bitcoin-cash/src/address.rs
+++ b/bitcoin-cash/src/address.rs
@@ -40,6 +40,8 @@ pub enum CashAddrError {
     InvalidChecksum,
     #[error("Invalid Base32 letter {1} at index {0}")]
     InvalidBase32Letter(usize, u8),
+    #[error("Invalid payload")]
+    InvalidPayload,
     #[error("Invalid address type {0}")]
     InvalidAddressType(u8),
 }
@@ -382,9 +384,14 @@ fn _from_cash_addr<'a>(
     if !_verify_checksum(&prefix, decoded.iter().cloned()) {
         return Err(CashAddrError::InvalidChecksum);
     }
-    let converted = _convert_bits(decoded.iter().cloned(), 5, 8, true).unwrap();
+    let payload_len = decoded.len().checked_sub(8).ok_or(CashAddrError::InvalidPayload)?;
+    let converted = _convert_bits(decoded[..payload_len].iter().cloned(), 5, 8, false)
+        .ok_or(CashAddrError::InvalidPayload)?;
     let mut addr = [0; 20];
-    addr.copy_from_slice(&converted[1..converted.len() - 6]);
+    if converted.len() != 1 + addr.len() {
+        return Err(CashAddrError::InvalidPayload);
+    }
+    addr.copy_from_slice(&converted[1..]);
     Ok((
         addr,
         match converted[0] {
-- 
2.43.0


From e7665ccc722201d7d8b343bf0d57fd0eae085663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:15 +0000
Subject: [PATCH 05/18] fix: report fixed byte arrays of the wrong length when
 deserialising

---
 bitcoin-cash-base/src/byte_array.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bitcoin-cash-base/src/byte_array.rs b/bitcoin-cash-base/src/byte_array.rs
index 1ddd85e..b5dfb58 100644
--- a/bitcoin-cash-base/src/byte_array.rs
+++ b/bitcoin-cash-base/src/byte_array.rs
@@ -724,6 +724,12 @@ where
                 data.reverse();
             }
             let mut array = T::default();
+            if array.as_ref().len() != data.len() {
+                return Err(serde::de::Error::custom(ByteArrayError::InvalidSlice {
+                    expected: array.as_ref().len(),
+                    actual: data.len(),
+                }));
+            }
             array.as_mut().copy_from_slice(&data);
             Ok(FixedByteArray::new_unnamed(array))
         } else {
-- 
2.43.0


From 6e8f1d62985e1d23757e80ea1942bae10b9092df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:15 +0000
Subject: [PATCH 06/18] fix: do not split the preimage of a function as if it
 were its parts

---
 bitcoin-cash-base/src/byte_array.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bitcoin-cash-base/src/byte_array.rs b/bitcoin-cash-base/src/byte_array.rs
index b5dfb58..22d3aee 100644
--- a/bitcoin-cash-base/src/byte_array.rs
+++ b/bitcoin-cash-base/src/byte_array.rs
@@ -320,7 +320,7 @@ impl ByteArray {
         let other = data.split_off(at);
         let mut function = Function::Plain;
         let (left_preimage, right_preimage) = match self.preimage {
-            Some(preimage) if !self.function.should_keep_intact() => {
+            Some(preimage) if self.function == Function::Plain => {
                 let mut left_preimage = Vec::new();
                 let mut right_preimage = Vec::new();
                 let mut is_left = true;
@@ -349,6 +349,7 @@ impl ByteArray {
                 }
                 (Some(left_preimage), Some(right_preimage))
             }
+            Some(_) if !self.function.should_keep_intact() => (None, None),
             Some(_) => {
                 function = Function::UnexpectedSplit;
                 (None, None)
-- 
2.43.0


From 19210e63ce7b575a49d9cac098c006110fc97185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:15 +0000
Subject: [PATCH 07/18] fix: do not overflow on large sizes in number to binary
 conversion

---
 bitcoin-cash-base/src/byte_array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoin-cash-base/src/byte_array.rs b/bitcoin-cash-base/src/byte_array.rs
index 22d3aee..bf866c6 100644
--- a/bitcoin-cash-base/src/byte_array.rs
+++ b/bitcoin-cash-base/src/byte_array.rs
@@ -430,7 +430,7 @@ impl ByteArray {
         if inner_n_bytes <= 0 {
             return Err(ByteArrayError::FromIntegerError { int, n_bytes });
         }
-        let max_bits = (inner_n_bytes * 8 - 1).min(31) as u128;
+        let max_bits = (inner_n_bytes.saturating_mul(8).min(32) - 1) as u128;
         let max_num: u128 = 1 << max_bits;
         let max_num = (max_num - 1) as InnerInteger;
         let min_num = -max_num;
-- 
2.43.0


From 2399918612959cdb061eed479ca86939709b5692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:15 +0000
Subject: [PATCH 08/18] fix: script code starts after the chosen code separator

---
 bitcoin-cash/src/script.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoin-cash/src/script.rs b/bitcoin-cash/src/script.rs
index 7cbc33d..bf2cc23 100644
--- a/bitcoin-cash/src/script.rs
+++ b/bitcoin-cash/src/script.rs
@@ -54,7 +54,7 @@ impl Script {
                     _ => continue,
                 }
             }
-            codesep_idx.expect("Couldn't find OP_CODESEPARATOR")
+            codesep_idx.expect("Couldn't find OP_CODESEPARATOR") + 1
         } else {
             0
         };
-- 
2.43.0


From 35b334b8ef7ff6da13f740e09da343c59b7ef215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:15 +0000
Subject: [PATCH 09/18] fix: do not allocate a push that exceeds the script

---
 bitcoin-cash/src/script.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bitcoin-cash/src/script.rs b/bitcoin-cash/src/script.rs
index bf2cc23..596cdba 100644
--- a/bitcoin-cash/src/script.rs
+++ b/bitcoin-cash/src/script.rs
@@ -214,6 +214,9 @@ pub fn deserialize_ops(bytes: &[u8]) -> error::Result<Vec<Op>> {
                 continue;
             }
         };
+        if push_len > bytes.len().saturating_sub(i) {
+            return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+        }
         let mut vec = vec![0; push_len];
         cur.read_exact(&mut vec)?;
         i += push_len;
-- 
2.43.0


From 112a8f3e2fd4eb1726ecb00c32d69027ec13af7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:15 +0000
Subject: [PATCH 10/18] fix: report invalid and circular byte array references
 in JSON

---
 bitcoin-cash/src/serialize_json.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/bitcoin-cash/src/serialize_json.rs b/bitcoin-cash/src/serialize_json.rs
index 3a6a2ab..50a96c5 100644
--- a/bitcoin-cash/src/serialize_json.rs
+++ b/bitcoin-cash/src/serialize_json.rs
@@ -95,6 +95,9 @@ pub enum JsonError {
     #[error("Invalid data_idx: {idx}")]
     InvalidStringIdx { idx: usize },
 
+    #[error("Invalid byte_array idx: {idx}")]
+    InvalidByteArrayIdx { idx: usize },
+
     #[error("Invalid hash")]
     InvalidHash,
 
@@ -347,13 +350,22 @@ impl JsonData {
     }
 
     fn get_byte_array(&mut self, byte_array_idx: usize) -> Result<ByteArray, JsonError> {
-        let preimage = self.byte_arrays[byte_array_idx]
+        let preimage = self
+            .byte_arrays
+            .get(byte_array_idx)
+            .ok_or(JsonError::InvalidByteArrayIdx { idx: byte_array_idx })?
             .preimage_indices
             .clone()
             .map(|preimage_indices| {
                 preimage_indices
                     .iter()
-                    .map(|&idx| self.get_byte_array(idx))
+                    .map(|&idx| {
+                        // preimages are always written before the arrays made from them
+                        if idx >= byte_array_idx {
+                            return Err(JsonError::InvalidByteArrayIdx { idx });
+                        }
+                        self.get_byte_array(idx)
+                    })
                     .collect::<Result<Vec<_>, _>>()
             })
             .map_or(Ok(None), |preimage| preimage.map(Some))?;
-- 
2.43.0


From f8e612ca435ed083f199fc5272bb61837e8e2990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:01 +0000
Subject: [PATCH 11/18] fix: decode the transaction and its id from the raw
 bytes of a hashed transaction

---
 bitcoin-cash/src/tx.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/bitcoin-cash/src/tx.rs b/bitcoin-cash/src/tx.rs
index a945abd..167d83c 100644
--- a/bitcoin-cash/src/tx.rs
+++ b/bitcoin-cash/src/tx.rs
@@ -1,5 +1,5 @@
 use crate::{
-    BitcoinCode, ByteArray, Hashed, Script, Sha256d, SigHashFlags, ToPreimages, TxPreimage,
+    error::Result, BitcoinCode, ByteArray, Hashed, Script, Sha256d, SigHashFlags, ToPreimages, TxPreimage,
 };
 use serde::{Deserialize, Serialize};
 
@@ -54,14 +54,11 @@ pub struct UnhashedTx {
     pub lock_time: u32,
 }
 
-#[bitcoin_code(crate = "crate")]
-#[derive(BitcoinCode, Deserialize, Serialize, PartialEq, Debug, Clone)]
+#[derive(Deserialize, Serialize, PartialEq, Debug, Clone)]
 #[serde(rename_all = "camelCase")]
 pub struct Tx {
-    #[bitcoin_code(skip)]
     unhashed_tx: UnhashedTx,
 
-    #[bitcoin_code(skip)]
     hash: Sha256d,
 
     raw: ByteArray,
@@ -138,6 +135,26 @@ impl Tx {
     }
 }
 
+impl BitcoinCode for Tx {
+    fn ser(&self) -> ByteArray {
+        self.raw.ser().named("raw")
+    }
+
+    fn deser_rest(data: ByteArray) -> Result<(Self, ByteArray)> {
+        let (raw, rest) = ByteArray::deser_rest(data)?;
+        let unhashed_tx = UnhashedTx::deser(raw.clone())?;
+        let hash = Sha256d::digest(raw.clone());
+        Ok((
+            Tx {
+                unhashed_tx,
+                hash,
+                raw,
+            },
+            rest,
+        ))
+    }
+}
+
 impl Default for UnhashedTx {
     fn default() -> Self {
         UnhashedTx {
-- 
2.43.0


From 31707ddac982eb47b5c580a7415224cb137f348b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:01 +0000
Subject: [PATCH 12/18] fix: compute amounts and fees without overflow when
 building a transaction

---
 bitcoin-cash/src/tx_builder.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/bitcoin-cash/src/tx_builder.rs b/bitcoin-cash/src/tx_builder.rs
index 5f4c6b6..c3aeb9c 100644
--- a/bitcoin-cash/src/tx_builder.rs
+++ b/bitcoin-cash/src/tx_builder.rs
@@ -339,11 +339,12 @@ impl<'b> TxBuilder<'b> {
     }
 
     pub fn build(self) -> Result<UnsignedTx<'b>> {
-        let known_output_amount = self.known_output_sum();
-        let total_input_amount = self.input_sum();
+        // sums and fees of arbitrary amounts can exceed 64 bits
+        let known_output_amount = self.outputs.iter().map(|output| output.get_value() as u128).sum::<u128>();
+        let total_input_amount = self.inputs.iter().map(|input| input.input.value as u128).sum::<u128>();
         if known_output_amount > total_input_amount {
             return Err(Error::InsufficientInputAmount {
-                amount: known_output_amount - total_input_amount,
+                amount: (known_output_amount - total_input_amount).min(std::u64::MAX as u128) as u64,
             });
         }
         let mut total_leftover = total_input_amount - known_output_amount;
@@ -366,21 +367,21 @@ impl<'b> TxBuilder<'b> {
                 ..
             } = self.outputs[idx]
             {
-                if total_leftover <= lower_bound {
+                if total_leftover <= lower_bound as u128 {
                     continue;
                 }
-                let max_leftover = total_leftover.min(upper_bound);
+                let max_leftover = total_leftover.min(upper_bound as u128) as u64;
                 leftover_amounts.insert(idx, max_leftover);
                 let new_size = self.estimate_size(self.make_outputs(&leftover_amounts));
-                let fee = new_size as u64 * self.fee_per_kb / 1000;
+                let fee = new_size as u128 * self.fee_per_kb as u128 / 1000;
                 if fee <= total_leftover {
-                    let leftover = (total_leftover - fee).min(upper_bound);
+                    let leftover = (total_leftover - fee).min(upper_bound as u128) as u64;
                     if leftover <= lower_bound {
                         leftover_amounts.remove(&idx);
                         continue;
                     }
                     leftover_amounts.insert(idx, leftover);
-                    total_leftover -= leftover;
+                    total_leftover -= leftover as u128;
                     estimated_size = Some(new_size);
                 } else {
                     leftover_amounts.remove(&idx);
-- 
2.43.0


From 7bf215b99aa3fce80417f83131e6de673e1fa767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:17 +0000
Subject: [PATCH 13/18] fix: attach statements after a nested OP_IF to the
 right branch

---
 bitcoin-cash-script-macro/src/parse.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/bitcoin-cash-script-macro/src/parse.rs b/bitcoin-cash-script-macro/src/parse.rs
index 60a8880..d836362 100644
--- a/bitcoin-cash-script-macro/src/parse.rs
+++ b/bitcoin-cash-script-macro/src/parse.rs
@@ -449,7 +449,6 @@ fn parse_opcode_inputs(
 fn parse_op_if(stmts: Vec<ir::TaggedStmt>) -> Result<Vec<ir::TaggedStmt>, syn::Error> {
     let mut new_stmts = Vec::new();
     let mut if_stack = Vec::new();
-    let mut is_then = true;
     struct If {
         if_opcode: ir::OpcodeStmt,
         if_token_stream: TokenStream,
@@ -473,11 +472,9 @@ fn parse_op_if(stmts: Vec<ir::TaggedStmt>) -> Result<Vec<ir::TaggedStmt>, syn::E
                         then_stmts: vec![],
                         else_stmts: vec![],
                     });
-                    is_then = true;
                     continue;
                 }
                 "OP_ELSE" => {
-                    is_then = false;
                     let top_if = if_stack.last_mut().ok_or_else(|| {
                         syn::Error::new(opcode.expr_span, "No previous OP_IF found.")
                     })?;
@@ -514,7 +511,7 @@ fn parse_op_if(stmts: Vec<ir::TaggedStmt>) -> Result<Vec<ir::TaggedStmt>, syn::E
             new_stmts.push(stmt);
         } else {
             let top_if = if_stack.last_mut().unwrap();
-            if is_then {
+            if top_if.else_opcode.is_none() {
                 top_if.then_stmts.push(stmt);
             } else {
                 top_if.else_stmts.push(stmt);
-- 
2.43.0


From f95e7ad8e0933be750ae9d99458ff7bc9cafc1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:17 +0000
Subject: [PATCH 14/18] fix: declared stack behaviour of OP_DEPTH and OP_NOTIF

---
 bitcoin-cash-base/src/opcode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitcoin-cash-base/src/opcode.rs b/bitcoin-cash-base/src/opcode.rs
index 9047872..84746c6 100644
--- a/bitcoin-cash-base/src/opcode.rs
+++ b/bitcoin-cash-base/src/opcode.rs
@@ -2920,7 +2920,7 @@ impl Opcode {
                 &[2, 3, 0, 1],
                 &[MovedIndirectly, MovedIndirectly, Moved, Moved],
             ),
-            OP_DEPTH => o(&[], &[Integer], &[0], &[Added]),
+            OP_DEPTH => u(&[], &[Integer], &[Added]),
             OP_DROP => o(&[T], &[], &[], &[]),
             OP_DUP => o(&[T], &[T, T], &[0, 0], &[Observed, Added]),
             OP_NIP => o(&[T, T], &[T], &[1], &[MovedIndirectly]),
@@ -3028,7 +3028,7 @@ impl Opcode {
             OP_0 | OP_1NEGATE | OP_1 | OP_2 | OP_3 | OP_4 | OP_5 | OP_6 | OP_7 | OP_8 | OP_9
             | OP_10 | OP_11 | OP_12 | OP_13 | OP_14 | OP_15 | OP_16 => u(&[], &[Integer], &[Added]),
 
-            OP_IF => u(&[T], &[], &[]),
+            OP_IF | OP_NOTIF => u(&[T], &[], &[]),
             OP_ELSE => u(&[], &[], &[]),
             OP_ENDIF => u(&[], &[], &[]),
 
-- 
2.43.0


From 7d30396ba9451f854ab08c3092cbac762e89e305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:42 +0000
Subject: [PATCH 15/18] fix: derived codecs no longer take other macros' field
 attributes for #[bitcoin_code(skip)]

---
 bitcoin-cash-code/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bitcoin-cash-code/src/lib.rs b/bitcoin-cash-code/src/lib.rs
index 93a412a..c03d62c 100644
--- a/bitcoin-cash-code/src/lib.rs
+++ b/bitcoin-cash-code/src/lib.rs
@@ -101,6 +101,10 @@ fn generate(item_struct: syn::ItemStruct) -> Result<TokenStream, syn::Error> {
     for field in fields.named.iter() {
         let mut is_skipped = false;
         for attr in &field.attrs {
+            // attributes of other macros (e.g. `#[serde(skip)]`) don't concern us
+            if !attr.path.is_ident("bitcoin_code") {
+                continue;
+            }
             match attr.parse_meta()? {
                 syn::Meta::Path(_) => {
                     return Err(syn::Error::new(attr.span(), "Invalid attribute"))
-- 
2.43.0


From e2215dac79feb025d7b556eb509179e9137da093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:40 +0000
Subject: [PATCH 16/18] fix: OP_PICK and OP_ROLL follow depths pushed as
 integer literals when tracking stack item names

---
 bitcoin-cash-script-macro/src/generate.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/bitcoin-cash-script-macro/src/generate.rs b/bitcoin-cash-script-macro/src/generate.rs
index 3891030..389a258 100644
--- a/bitcoin-cash-script-macro/src/generate.rs
+++ b/bitcoin-cash-script-macro/src/generate.rs
@@ -302,6 +302,7 @@ impl GenerateScript {
                 quote! { Some(#name.into()) }
             })
             .unwrap_or(quote! { None });
+        let integer = literal_integer(&push.expr);
         let ident = push
             .output_name
             .or_else(|| Some(self.make_ident(span)))
@@ -310,7 +311,7 @@ impl GenerateScript {
             ident: ident.clone(),
             name: ident.to_string(),
             has_generated_name,
-            integer: None, // TODO
+            integer,
         });
         let script_ident = &self.script_ident;
         let expr = push.expr;
@@ -918,6 +919,19 @@ impl GenerateScript {
     }
 }
 
+/// The value of an integer literal, so that e.g. `OP_PICK` knows which item it takes.
+fn literal_integer(expr: &syn::Expr) -> Option<Integer> {
+    match expr {
+        syn::Expr::Lit(syn::ExprLit {
+            lit: syn::Lit::Int(lit),
+            ..
+        }) => Integer::new(lit.base10_parse::<i32>().ok()?).ok(),
+        syn::Expr::Paren(paren) => literal_integer(&paren.expr),
+        syn::Expr::Group(group) => literal_integer(&group.expr),
+        _ => None,
+    }
+}
+
 fn error_opcode<D: std::fmt::Display>(msg: D, opcode: Opcode, span: Span) -> Error {
     Error::new(span, format!("{:?}: {}", opcode, msg))
 }
-- 
2.43.0


From 703001243f13a18b9c358b09d3a8df299d2ffea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:40 +0000
Subject: [PATCH 17/18] fix: items named by OP_PICK, OP_ROLL and the altstack
 opcodes are tagged with their names

---
 bitcoin-cash-script-macro/src/generate.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bitcoin-cash-script-macro/src/generate.rs b/bitcoin-cash-script-macro/src/generate.rs
index 389a258..5548f8b 100644
--- a/bitcoin-cash-script-macro/src/generate.rs
+++ b/bitcoin-cash-script-macro/src/generate.rs
@@ -851,6 +851,7 @@ impl GenerateScript {
                 ));
             }
             item.name = output_names[0].to_string();
+            item.has_generated_name = false;
         }
         Ok(())
     }
-- 
2.43.0


From 5c8a27c4ceb2f6468743d5346b0dbd0d8757047e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:40 +0000
Subject: [PATCH 18/18] fix: scripts can use OP_NOTIF, and variants follow the
 branch it executes

---
 bitcoin-cash-base/src/opcode.rs           | 2 ++
 bitcoin-cash-script-macro/src/generate.rs | 6 ++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/bitcoin-cash-base/src/opcode.rs b/bitcoin-cash-base/src/opcode.rs
index 84746c6..8c66e52 100644
--- a/bitcoin-cash-base/src/opcode.rs
+++ b/bitcoin-cash-base/src/opcode.rs
@@ -2543,6 +2543,8 @@ pub mod func {
     #[inline(always)]
     pub fn OP_IF<T>(stack_item: T) {}
     #[inline(always)]
+    pub fn OP_NOTIF<T>(stack_item: T) {}
+    #[inline(always)]
     pub fn OP_ELSE() {}
     #[inline(always)]
     pub fn OP_ENDIF() {}
diff --git a/bitcoin-cash-script-macro/src/generate.rs b/bitcoin-cash-script-macro/src/generate.rs
index 5548f8b..6f33344 100644
--- a/bitcoin-cash-script-macro/src/generate.rs
+++ b/bitcoin-cash-script-macro/src/generate.rs
@@ -742,12 +742,14 @@ impl GenerateScript {
                     "Must provide variable name to `OP_IF`",
                 )
             })?;
+        // OP_NOTIF executes its first branch if the predicate is false
+        let is_positive = script_if.if_opcode.ident != "OP_NOTIF";
         let stack_before = self.variant_states.clone();
         self.variant_states
             .predicate_atoms
             .push(ir::VariantPredicateAtom {
                 var_name: predicate_name.clone(),
-                is_positive: true,
+                is_positive,
             });
         let predicate_held_if = self.variant_states.predicate_atoms.clone();
 
@@ -763,7 +765,7 @@ impl GenerateScript {
             .predicate_atoms
             .push(ir::VariantPredicateAtom {
                 var_name: predicate_name,
-                is_positive: false,
+                is_positive: !is_positive,
             });
         let mut else_tokens = Vec::new();
         for stmt in script_if.else_stmts {
-- 
2.43.0

