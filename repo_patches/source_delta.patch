From 591d7ca0593aff2d598078580aad2fb96777a775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:18 +0000
Subject: [PATCH 01/16] fix: write the reference number of a
 SimulationIdentifier instead of zero

---
 src/common/data_types/simulation_id.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/data_types/simulation_id.rs b/src/common/data_types/simulation_id.rs
index 20347c5..e00fd05 100644
--- a/src/common/data_types/simulation_id.rs
+++ b/src/common/data_types/simulation_id.rs
@@ -28,7 +28,7 @@ impl SimulationIdentifier {
 
     pub fn serialize(&self, buf: &mut BytesMut) {
         self.simulation_address.serialize(buf);
-        buf.put_u16(0u16);
+        buf.put_u16(self.reference_number);
     }
 
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
-- 
2.43.0


From 81b4a00652e30be8cd2e6ae4f838f313fc86aeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:18 +0000
Subject: [PATCH 02/16] fix: write the other parameters of
 DeadReckoningParameters instead of zeros

---
 src/common/data_types/dead_reckoning_parameters.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/data_types/dead_reckoning_parameters.rs b/src/common/data_types/dead_reckoning_parameters.rs
index c13d7ac..ae85a96 100644
--- a/src/common/data_types/dead_reckoning_parameters.rs
+++ b/src/common/data_types/dead_reckoning_parameters.rs
@@ -42,7 +42,7 @@ impl DeadReckoningParameters {
 
     pub fn serialize(&self, buf: &mut BytesMut) {
         buf.put_u8(self.dead_reckoning_algorithm as u8);
-        buf.put_bytes(0u8, 15);
+        buf.put_slice(&self.dead_reckoning_other_parameters);
         self.entity_linear_acceleration.serialize(buf);
         self.entity_angular_velocity.serialize(buf);
     }
-- 
2.43.0


From b8f481e8b848e1b346630f6c5c414451a0fc2e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:18 +0000
Subject: [PATCH 03/16] fix: encode and decode the 11-octet string of an
 EntityMarking

---
 src/common/data_types/entity_marking.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/common/data_types/entity_marking.rs b/src/common/data_types/entity_marking.rs
index 90938f0..5f8fb23 100644
--- a/src/common/data_types/entity_marking.rs
+++ b/src/common/data_types/entity_marking.rs
@@ -11,6 +11,9 @@ pub struct EntityMarking {
 }
 
 impl EntityMarking {
+    /// Number of octets the marking string occupies on the wire
+    const STRING_LENGTH: usize = 11;
+
     #[must_use]
     pub const fn new(
         entity_marking_character_set: EntityMarkingCharacterSet,
@@ -24,14 +27,24 @@ impl EntityMarking {
 
     pub fn serialize(&self, buf: &mut BytesMut) {
         buf.put_u8(self.entity_marking_character_set as u8);
-        let marking = self.entity_marking_string.clone();
-        buf.put_slice(&marking.into_bytes()[..]);
+        // The marking is always 11 octets on the wire: truncated or zero-padded as needed
+        let marking = self.entity_marking_string.as_bytes();
+        let len = marking.len().min(Self::STRING_LENGTH);
+        buf.put_slice(&marking[..len]);
+        buf.put_bytes(0u8, Self::STRING_LENGTH - len);
     }
 
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
+        let entity_marking_character_set = EntityMarkingCharacterSet::deserialize(buf);
+        let mut marking = [0u8; Self::STRING_LENGTH];
+        buf.copy_to_slice(&mut marking);
+        let len = marking
+            .iter()
+            .position(|&octet| octet == 0)
+            .unwrap_or(Self::STRING_LENGTH);
         Self {
-            entity_marking_character_set: EntityMarkingCharacterSet::deserialize(buf),
-            entity_marking_string: buf.remaining().to_string(),
+            entity_marking_character_set,
+            entity_marking_string: String::from_utf8_lossy(&marking[..len]).into_owned(),
         }
     }
 }
-- 
2.43.0


From e53aea194d617d7a616bdb55b6fdd649f08c0e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:18 +0000
Subject: [PATCH 04/16] fix: decode VariableDatumRecord values once, consume
 and count their padding

---
 src/common/data_types/datum_records.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/common/data_types/datum_records.rs b/src/common/data_types/datum_records.rs
index e257812..19275e0 100644
--- a/src/common/data_types/datum_records.rs
+++ b/src/common/data_types/datum_records.rs
@@ -60,6 +60,11 @@ impl VariableDatumRecord {
         (length_bits as usize).div_ceil(8)
     }
 
+    // Octets that pad the value to a 64-bit boundary
+    const fn padding_bytes(length_bits: u32) -> usize {
+        (((64 - (length_bits % 64)) % 64) / 8) as usize
+    }
+
     pub fn serialize(&self, buf: &mut BytesMut) {
         buf.put_u32(self.datum_id);
         buf.put_u32(self.length_bits);
@@ -72,8 +77,7 @@ impl VariableDatumRecord {
             buf.put_u8(self.value[i]);
         }
 
-        let pad_bits = (64u32 - (self.length_bits % 64)) % 64;
-        let pad_bytes = (pad_bits / 8) as usize;
+        let pad_bytes = Self::padding_bytes(self.length_bits);
         if pad_bytes > 0 {
             let zeros = vec![0u8; pad_bytes];
             for z in zeros {
@@ -88,9 +92,8 @@ impl VariableDatumRecord {
         let value_bytes = Self::bytes_count(length_bits);
 
         let mut value = vec![0u8; value_bytes];
-        for _ in 0..value_bytes {
-            value.push(buf.get_u8());
-        }
+        buf.copy_to_slice(&mut value);
+        buf.advance(Self::padding_bytes(length_bits));
 
         Self {
             datum_id,
@@ -114,6 +117,9 @@ impl FieldDeserialize for VariableDatumRecord {
 
 impl FieldLen for VariableDatumRecord {
     fn field_len(&self) -> usize {
-        self.datum_id.field_len() + self.length_bits.field_len() + self.value.field_len()
+        self.datum_id.field_len()
+            + self.length_bits.field_len()
+            + self.value.field_len()
+            + Self::padding_bytes(self.length_bits)
     }
 }
-- 
2.43.0


From bebfc756808eddbb30a49077e060c2785023a609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:18 +0000
Subject: [PATCH 05/16] fix: no overflow or out-of-bounds access in
 RecordSpecificationElement

---
 src/common/data_types/record_specification_element.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/common/data_types/record_specification_element.rs b/src/common/data_types/record_specification_element.rs
index aa36fa8..fdde754 100644
--- a/src/common/data_types/record_specification_element.rs
+++ b/src/common/data_types/record_specification_element.rs
@@ -39,10 +39,7 @@ impl RecordSpecificationElement {
         buf.put_u32(self.record_set_serial_number);
         buf.put_u16(self.record_length);
         buf.put_u16(self.record_count);
-        let num_record_values: usize = (self.record_length * self.record_count).into();
-        for i in 0..num_record_values {
-            buf.put_u8(self.record_values[i]);
-        }
+        buf.put_slice(&self.record_values);
     }
 
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
@@ -50,7 +47,7 @@ impl RecordSpecificationElement {
         let record_set_serial_number = buf.get_u32();
         let record_length = buf.get_u16();
         let record_count = buf.get_u16();
-        let num_record_values = record_length * record_count;
+        let num_record_values = usize::from(record_length) * usize::from(record_count);
         let mut record_values: Vec<u8> = vec![];
         for _ in 0..num_record_values {
             record_values.push(buf.get_u8());
-- 
2.43.0


From 9f0a9fe1690f129391d513c48224feaff251329a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:18 +0000
Subject: [PATCH 06/16] fix: keep all bits of a decoded FrozenBehavior or
 ObjectStateAppearanceGeneral

---
 src/common/enums.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/enums.rs b/src/common/enums.rs
index 2b353bb..d8368b4 100644
--- a/src/common/enums.rs
+++ b/src/common/enums.rs
@@ -3682,7 +3682,7 @@ impl FieldSerialize for FrozenBehavior {
 impl FieldDeserialize for FrozenBehavior {
     fn deserialize_field<B: Buf>(buf: &mut B) -> Self {
         let bits = buf.get_u8();
-        Self::from_u8(bits).unwrap_or_default()
+        Self::from_bits_retain(bits)
     }
 }
 
@@ -9451,7 +9451,7 @@ impl FieldSerialize for ObjectStateAppearanceGeneral {
 impl FieldDeserialize for ObjectStateAppearanceGeneral {
     fn deserialize_field<B: Buf>(buf: &mut B) -> Self {
         let bits = buf.get_u16();
-        Self::from_bits(bits).unwrap_or_default()
+        Self::from_bits_retain(bits)
     }
 }
 
-- 
2.43.0


From 1c583b6deeaf1d2c2acdefb57e9355c358d0146b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:18 +0000
Subject: [PATCH 07/16] fix: read the clock once when computing a DIS timestamp

---
 src/common/live_entity_pdu_header.rs | 7 ++++---
 src/common/pdu_header.rs             | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/common/live_entity_pdu_header.rs b/src/common/live_entity_pdu_header.rs
index 5dad17b..f97fffe 100644
--- a/src/common/live_entity_pdu_header.rs
+++ b/src/common/live_entity_pdu_header.rs
@@ -124,9 +124,10 @@ impl LiveEntityPduHeader {
         clippy::cast_sign_loss
     )]
     pub fn calculate_dis_timestamp() -> u32 {
-        let minute_curr = u64::from((Utc::now().minute() * 60) * 1_000_000);
-        let second_curr = u64::from(Utc::now().second() * 1_000_000);
-        let nanosecond_curr = u64::from(Utc::now().nanosecond() / 1000);
+        let now = Utc::now();
+        let minute_curr = u64::from((now.minute() * 60) * 1_000_000);
+        let second_curr = u64::from(now.second() * 1_000_000);
+        let nanosecond_curr = u64::from(now.nanosecond() / 1000);
         let dis_time = (second_curr + minute_curr + nanosecond_curr) as f32 / 1.68;
         dis_time as u32
     }
diff --git a/src/common/pdu_header.rs b/src/common/pdu_header.rs
index 1df3098..1c532de 100644
--- a/src/common/pdu_header.rs
+++ b/src/common/pdu_header.rs
@@ -246,9 +246,10 @@ impl PduHeader {
         clippy::cast_sign_loss
     )]
     pub fn calculate_dis_timestamp() -> u32 {
-        let minute_curr = u64::from((Utc::now().minute() * 60) * 1_000_000);
-        let second_curr = u64::from(Utc::now().second() * 1_000_000);
-        let nanosecond_curr = u64::from(Utc::now().nanosecond() / 1000);
+        let now = Utc::now();
+        let minute_curr = u64::from((now.minute() * 60) * 1_000_000);
+        let second_curr = u64::from(now.second() * 1_000_000);
+        let nanosecond_curr = u64::from(now.nanosecond() / 1000);
         let dis_time = (second_curr + minute_curr + nanosecond_curr) as f32 / 1.68;
         dis_time as u32
     }
-- 
2.43.0


From 047f407f05aa6b5d5ef3d41d8fce305a6e04b4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:45 +0000
Subject: [PATCH 08/16] fix: reject PDUs larger than MAX_PDU_SIZE_OCTETS

---
 src/pdu_macro.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pdu_macro.rs b/src/pdu_macro.rs
index 48aa5cf..a3dba61 100644
--- a/src/pdu_macro.rs
+++ b/src/pdu_macro.rs
@@ -284,6 +284,13 @@ macro_rules! define_pdu {
                     len += <$ftype as $crate::pdu_macro::FieldLen>::field_len(&self.$field);
                 )*
 
+                if !$crate::common::constants::validate_pdu_size(len) {
+                    return Err($crate::common::dis_error::DISError::pdu_size_exceeded(
+                        len,
+                        $crate::common::constants::MAX_PDU_SIZE_OCTETS,
+                    ));
+                }
+
                 u16::try_from(len).map_err(|_| $crate::common::dis_error::DISError::PduSizeExceeded {
                     size: len,
                     max_size: $crate::common::constants::MAX_PDU_SIZE_OCTETS,
-- 
2.43.0


From 588bada41878c6a1331066d4293509b291f3ba57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:45 +0000
Subject: [PATCH 09/16] fix: report an error when a #[len] field cannot hold
 the length

---
 src/pdu_macro.rs | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/pdu_macro.rs b/src/pdu_macro.rs
index a3dba61..319ac30 100644
--- a/src/pdu_macro.rs
+++ b/src/pdu_macro.rs
@@ -10,6 +10,8 @@
 
 use bytes::{Buf, BufMut, BytesMut};
 
+use crate::common::dis_error::DISError;
+
 /// Serialize a single field into the buffer.
 pub trait FieldSerialize {
     fn serialize_field(&self, buf: &mut BytesMut);
@@ -47,23 +49,42 @@ where
     }
 }
 
+/// Convert the length of a field annotated with `#[len = ...]` to the type of its length field.
+///
+/// # Errors
+///
+/// Will return `DISError` if the length cannot be represented by the length field
+pub fn checked_field_len<T: TryFrom<usize>>(field: &str, len: usize) -> Result<T, DISError> {
+    T::try_from(len).map_err(|_| {
+        DISError::invalid_field(
+            field.to_string(),
+            len.to_string(),
+            "length does not fit in its length field".to_string(),
+        )
+    })
+}
+
 // Helper macros for generated code. These are kept private to the macro expansion
 // but exported so they can be used from the `define_pdu!` expansion.
 #[macro_export]
 macro_rules! __pdu_prep_serialize_field {
     // When the field has a length attribute, set the length field before length calculation.
     ( len = $len_field:ident ; $self:ident, $field:ident, Option<$inner:ty> ) => {
-        $self.$len_field = $self.$field.as_ref().map_or(0u8, |v| {
-            <$inner as $crate::pdu_macro::FieldLen>::field_len(v) as u8
-        });
+        $self.$len_field = $crate::pdu_macro::checked_field_len(
+            stringify!($field),
+            $self
+                .$field
+                .as_ref()
+                .map_or(0usize, <$inner as $crate::pdu_macro::FieldLen>::field_len),
+        )?;
     };
 
     ( len = $len_field:ident ; $self:ident, $field:ident, $t:ty ) => {
         // For non-option fields with length attribute, set the length from the inner value.
-        $self.$len_field = u8::try_from(<$t as $crate::pdu_macro::FieldLen>::field_len(
-            &$self.$field,
-        ))
-        .unwrap_or_default();
+        $self.$len_field = $crate::pdu_macro::checked_field_len(
+            stringify!($field),
+            <$t as $crate::pdu_macro::FieldLen>::field_len(&$self.$field),
+        )?;
     };
 
     // Default: no-op
-- 
2.43.0


From b75ed18a3ec9d40bc775806a4ffbd1b43ac68300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:45 +0000
Subject: [PATCH 10/16] fix: tie the antenna pattern of a Transmitter PDU to
 its length field

---
 src/radio_communications.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/radio_communications.rs b/src/radio_communications.rs
index dcc8251..158b81e 100644
--- a/src/radio_communications.rs
+++ b/src/radio_communications.rs
@@ -58,6 +58,7 @@ define_pdu! {
             padding2: u16,
             #[len = modulation_parameter_length]
             pub modulation_parameters: Option<ModulationParameters>,
+            #[len = antenna_pattern_length]
             pub antenna_pattern: Option<AntennaPattern>,
             pub variable_transmitter_parameters: Vec<VariableTransmitterParameters>,
         }
-- 
2.43.0


From 634b8e97ef1355374c481e7a47246cef0d46b1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:45 +0000
Subject: [PATCH 11/16] fix: return an error instead of panicking on truncated
 PDUs

---
 src/pdu_macro.rs | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/pdu_macro.rs b/src/pdu_macro.rs
index 319ac30..418db96 100644
--- a/src/pdu_macro.rs
+++ b/src/pdu_macro.rs
@@ -64,6 +64,18 @@ pub fn checked_field_len<T: TryFrom<usize>>(field: &str, len: usize) -> Result<T
     })
 }
 
+/// Check that at least `len` bytes are left in the buffer.
+///
+/// # Errors
+///
+/// Will return `DISError` if fewer than `len` bytes remain
+pub fn check_remaining<B: Buf>(buf: &B, len: usize) -> Result<(), DISError> {
+    if buf.remaining() < len {
+        return Err(DISError::buffer_underflow(len, buf.remaining()));
+    }
+    Ok(())
+}
+
 // Helper macros for generated code. These are kept private to the macro expansion
 // but exported so they can be used from the `define_pdu!` expansion.
 #[macro_export]
@@ -99,6 +111,7 @@ macro_rules! __pdu_deserialize_field {
     ( len = $len_field:ident ; $field:ident, Option<$inner:ty>, $buf:ident ) => {
         let $field: Option<$inner> = {
             let len_val = $len_field as usize;
+            $crate::pdu_macro::check_remaining($buf, len_val)?;
             if len_val == 0 {
                 None
             } else {
@@ -113,6 +126,7 @@ macro_rules! __pdu_deserialize_field {
 
     // T with length attribute (non-Option)
     ( len = $len_field:ident ; $field:ident, $t:ty, $buf:ident ) => {
+        $crate::pdu_macro::check_remaining($buf, $len_field as usize)?;
         let $field: $t = <$t as $crate::pdu_macro::FieldDeserializeWithLen>::deserialize_with_len(
             $buf,
             $len_field as usize,
@@ -275,7 +289,14 @@ macro_rules! define_pdu {
             /// Note: for variable-length arrays/strings the generated code will call
             /// `FieldDeserialize::deserialize_field()`, but for real variable-length fields
             /// you should write custom code in the manual body impl below or adapt the macro.
-            fn deserialize_body<B: bytes::Buf>(buf: &mut B) -> Self {
+            fn deserialize_body<B: bytes::Buf>(buf: &mut B) -> Result<Self, $crate::common::dis_error::DISError> {
+                // The fixed part of the body must be present before any of it is read
+                let mut fixed_len = 0usize;
+                $(
+                    fixed_len += <$ftype as $crate::pdu_macro::FieldLen>::field_len(&<$ftype>::default());
+                )*
+                $crate::pdu_macro::check_remaining(buf, fixed_len)?;
+
                 $(
                     // Each field can optionally be annotated with `#[len = name]`.
                     // The helper macro below will either call the plain `FieldDeserialize`
@@ -284,12 +305,12 @@ macro_rules! define_pdu {
                     $crate::__pdu_deserialize_field!( $( len = $len_field )? ; $field, $ftype, buf );
                 )*
 
-                Self {
+                Ok(Self {
                     header: <$header>::default(),
                     $(
                         $field,
                     )*
-                }
+                })
             }
         }
 
@@ -353,6 +374,8 @@ macro_rules! define_pdu {
 
             fn deserialize<B: bytes::Buf>(buf: &mut B) -> Result<Self, $crate::common::dis_error::DISError>
             where Self: Sized {
+                $crate::pdu_macro::check_remaining(buf, <$header>::LENGTH)?;
+
                 // deserialize header using its associated function
                 let header: Self::Header = <Self::Header as $crate::pdu_macro::FieldDeserialize>::deserialize_field(buf);
 
@@ -365,14 +388,14 @@ macro_rules! define_pdu {
                 }
 
                 // read body fields with the generated deserializer
-                let mut body = Self::deserialize_body(buf);
+                let mut body = Self::deserialize_body(buf)?;
                 body.header = header;
                 Ok(body)
             }
 
             fn deserialize_without_header<B: bytes::Buf>(buf: &mut B, header: Self::Header) -> Result<Self, $crate::common::dis_error::DISError>
             where Self: Sized {
-                let mut body = Self::deserialize_body(buf);
+                let mut body = Self::deserialize_body(buf)?;
                 body.header = header;
                 Ok(body)
             }
-- 
2.43.0


From 3124a0e862a3dbcbc5d739dc68917e3a70dd762e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:45 +0000
Subject: [PATCH 12/16] fix: reject a header of another PDU type in
 deserialize_without_header

---
 src/pdu_macro.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pdu_macro.rs b/src/pdu_macro.rs
index 418db96..95045c2 100644
--- a/src/pdu_macro.rs
+++ b/src/pdu_macro.rs
@@ -395,6 +395,13 @@ macro_rules! define_pdu {
 
             fn deserialize_without_header<B: bytes::Buf>(buf: &mut B, header: Self::Header) -> Result<Self, $crate::common::dis_error::DISError>
             where Self: Sized {
+                if header.pdu_type() != $pdu_type {
+                    return Err($crate::common::dis_error::DISError::invalid_header(
+                        format!("Expected PDU type {:?}, got {:?}", $pdu_type, header.pdu_type()),
+                        None,
+                    ));
+                }
+
                 let mut body = Self::deserialize_body(buf)?;
                 body.header = header;
                 Ok(body)
-- 
2.43.0


From 1d27a854dfdca239ab8c620472f298ad540331e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:31 +0000
Subject: [PATCH 13/16] fix: encode and decode the 16-bit sample type and data
 representation of a GridDataRecord

---
 src/common/enums.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/common/enums.rs b/src/common/enums.rs
index d8368b4..4064d12 100644
--- a/src/common/enums.rs
+++ b/src/common/enums.rs
@@ -9550,13 +9550,13 @@ pub enum GriddedDataSampleType {
 impl GriddedDataSampleType {
     #[must_use]
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
-        Self::from_u8(buf.get_u8()).unwrap_or_else(Self::default)
+        Self::from_u16(buf.get_u16()).unwrap_or_else(Self::default)
     }
 }
 
 impl FieldSerialize for GriddedDataSampleType {
     fn serialize_field(&self, buf: &mut BytesMut) {
-        buf.put_u8(*self as u8);
+        buf.put_u16(*self as u16);
     }
 }
 
@@ -9568,7 +9568,7 @@ impl FieldDeserialize for GriddedDataSampleType {
 
 impl FieldLen for GriddedDataSampleType {
     fn field_len(&self) -> usize {
-        1
+        2
     }
 }
 
@@ -9584,13 +9584,13 @@ pub enum GriddedDataDataRepresentation {
 impl GriddedDataDataRepresentation {
     #[must_use]
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
-        Self::from_u8(buf.get_u8()).unwrap_or_else(Self::default)
+        Self::from_u16(buf.get_u16()).unwrap_or_else(Self::default)
     }
 }
 
 impl FieldSerialize for GriddedDataDataRepresentation {
     fn serialize_field(&self, buf: &mut BytesMut) {
-        buf.put_u8(*self as u8);
+        buf.put_u16(*self as u16);
     }
 }
 
@@ -9602,7 +9602,7 @@ impl FieldDeserialize for GriddedDataDataRepresentation {
 
 impl FieldLen for GriddedDataDataRepresentation {
     fn field_len(&self) -> usize {
-        1
+        2
     }
 }
 
-- 
2.43.0


From 2a5b7ec18bc636339c88c7e43f9cddd5ef4f36da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:55 +0000
Subject: [PATCH 14/16] fix: decode the 32-bit record type of
 VariableTransmitterParameters

---
 src/common/data_types/variable_transmitter_parameters.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/data_types/variable_transmitter_parameters.rs b/src/common/data_types/variable_transmitter_parameters.rs
index f6764d2..dc1eeb3 100644
--- a/src/common/data_types/variable_transmitter_parameters.rs
+++ b/src/common/data_types/variable_transmitter_parameters.rs
@@ -3,6 +3,7 @@
 //
 //     Licensed under the BSD-2-Clause License
 use bytes::{Buf, BufMut, BytesMut};
+use num_traits::FromPrimitive;
 
 use crate::common::enums::VariableParameterRecordType;
 use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize};
@@ -47,7 +48,8 @@ impl VariableTransmitterParameters {
     }
 
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
-        let record_type = VariableParameterRecordType::deserialize(buf);
+        // record_type is 32 bits wide on the wire
+        let record_type = VariableParameterRecordType::from_u32(buf.get_u32()).unwrap_or_default();
         let record_length = buf.get_u16();
         let mut record_specific_fields: Vec<u8> = vec![];
         for _ in 0..record_length {
-- 
2.43.0


From 5ea7fc391dfa36225b750270acc6b314eda48e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:46 +0000
Subject: [PATCH 15/16] fix: return an error when a counted record exceeds the
 buffer

---
 src/common/data_types/record_specification.rs | 16 ++++++++++++-
 .../record_specification_element.rs           | 23 ++++++++++++++++++-
 .../data_types/standard_variable_records.rs   | 18 ++++++++++++++-
 .../standard_variable_specification.rs        | 16 ++++++++++++-
 src/pdu_macro.rs                              | 12 +++++++++-
 5 files changed, 80 insertions(+), 5 deletions(-)

diff --git a/src/common/data_types/record_specification.rs b/src/common/data_types/record_specification.rs
index ec3bb37..faddeff 100644
--- a/src/common/data_types/record_specification.rs
+++ b/src/common/data_types/record_specification.rs
@@ -5,7 +5,8 @@
 
 use bytes::{Buf, BufMut, BytesMut};
 
-use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize};
+use crate::common::dis_error::DISError;
+use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize, check_remaining};
 
 use super::record_specification_element::RecordSpecificationElement;
 
@@ -57,6 +58,19 @@ impl FieldDeserialize for RecordSpecification {
     fn deserialize_field<B: Buf>(buf: &mut B) -> Self {
         Self::deserialize(buf)
     }
+
+    fn try_deserialize_field<B: Buf>(buf: &mut B) -> Result<Self, DISError> {
+        check_remaining(buf, 4)?;
+        let number_of_record_sets = buf.get_u32();
+        let mut record_sets = vec![];
+        for _ in 0..number_of_record_sets {
+            record_sets.push(RecordSpecificationElement::try_deserialize_field(buf)?);
+        }
+        Ok(Self {
+            number_of_record_sets,
+            record_sets,
+        })
+    }
 }
 
 impl FieldLen for RecordSpecification {
diff --git a/src/common/data_types/record_specification_element.rs b/src/common/data_types/record_specification_element.rs
index fdde754..518d441 100644
--- a/src/common/data_types/record_specification_element.rs
+++ b/src/common/data_types/record_specification_element.rs
@@ -5,7 +5,8 @@
 
 use bytes::{Buf, BufMut, BytesMut};
 
-use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize};
+use crate::common::dis_error::DISError;
+use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize, check_remaining};
 
 #[derive(Clone, Debug)]
 pub struct RecordSpecificationElement {
@@ -73,6 +74,26 @@ impl FieldDeserialize for RecordSpecificationElement {
     fn deserialize_field<B: Buf>(buf: &mut B) -> Self {
         Self::deserialize(buf)
     }
+
+    fn try_deserialize_field<B: Buf>(buf: &mut B) -> Result<Self, DISError> {
+        check_remaining(buf, 12)?;
+        let record_id = buf.get_u32();
+        let record_set_serial_number = buf.get_u32();
+        let record_length = buf.get_u16();
+        let record_count = buf.get_u16();
+        let num_record_values = usize::from(record_length) * usize::from(record_count);
+        check_remaining(buf, num_record_values)?;
+        let mut record_values = vec![0; num_record_values];
+        buf.copy_to_slice(&mut record_values);
+
+        Ok(Self {
+            record_id,
+            record_set_serial_number,
+            record_length,
+            record_count,
+            record_values,
+        })
+    }
 }
 
 impl FieldLen for RecordSpecificationElement {
diff --git a/src/common/data_types/standard_variable_records.rs b/src/common/data_types/standard_variable_records.rs
index 6c92b8c..e5aa3f3 100644
--- a/src/common/data_types/standard_variable_records.rs
+++ b/src/common/data_types/standard_variable_records.rs
@@ -5,7 +5,8 @@
 
 use bytes::{Buf, BufMut, BytesMut};
 
-use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize};
+use crate::common::dis_error::DISError;
+use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize, check_remaining};
 
 #[derive(Clone, Debug, Default)]
 pub struct StandardVariableRecords {
@@ -61,6 +62,21 @@ impl FieldDeserialize for StandardVariableRecords {
     fn deserialize_field<B: Buf>(buf: &mut B) -> Self {
         Self::deserialize(buf)
     }
+
+    fn try_deserialize_field<B: Buf>(buf: &mut B) -> Result<Self, DISError> {
+        check_remaining(buf, 6)?;
+        let record_type = buf.get_u32();
+        let record_length = buf.get_u16();
+        check_remaining(buf, usize::from(record_length))?;
+        let mut record_specific_fields = vec![0; usize::from(record_length)];
+        buf.copy_to_slice(&mut record_specific_fields);
+
+        Ok(Self {
+            record_type,
+            record_length,
+            record_specific_fields,
+        })
+    }
 }
 
 impl FieldLen for StandardVariableRecords {
diff --git a/src/common/data_types/standard_variable_specification.rs b/src/common/data_types/standard_variable_specification.rs
index 9dde747..69f04b3 100644
--- a/src/common/data_types/standard_variable_specification.rs
+++ b/src/common/data_types/standard_variable_specification.rs
@@ -4,7 +4,8 @@
 //     Licensed under the BSD-2-Clause License
 
 use super::standard_variable_records::StandardVariableRecords;
-use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize};
+use crate::common::dis_error::DISError;
+use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize, check_remaining};
 use bytes::{Buf, BufMut, BytesMut};
 
 #[derive(Clone, Debug, Default)]
@@ -64,6 +65,19 @@ impl FieldDeserialize for StandardVariableSpecification {
             standard_variable_records: records,
         }
     }
+
+    fn try_deserialize_field<B: Buf>(buf: &mut B) -> Result<Self, DISError> {
+        check_remaining(buf, 2)?;
+        let number_of_standard_variable_records = buf.get_u16();
+        let mut standard_variable_records = vec![];
+        for _ in 0..number_of_standard_variable_records {
+            standard_variable_records.push(StandardVariableRecords::try_deserialize_field(buf)?);
+        }
+        Ok(Self {
+            number_of_standard_variable_records,
+            standard_variable_records,
+        })
+    }
 }
 
 impl FieldLen for StandardVariableSpecification {
diff --git a/src/pdu_macro.rs b/src/pdu_macro.rs
index 95045c2..848ba50 100644
--- a/src/pdu_macro.rs
+++ b/src/pdu_macro.rs
@@ -20,6 +20,16 @@ pub trait FieldSerialize {
 /// Deserialize a single field from the buffer.
 pub trait FieldDeserialize: Sized {
     fn deserialize_field<B: Buf>(buf: &mut B) -> Self;
+
+    /// Deserialize a field whose encoded size depends on its own content, such as records
+    /// holding a counted list, after checking that the buffer holds all of it.
+    ///
+    /// # Errors
+    ///
+    /// Will return `DISError` if the buffer is too short for the field
+    fn try_deserialize_field<B: Buf>(buf: &mut B) -> Result<Self, DISError> {
+        Ok(Self::deserialize_field(buf))
+    }
 }
 
 /// Return the serialized length of this field in bytes.
@@ -135,7 +145,7 @@ macro_rules! __pdu_deserialize_field {
 
     // Default: plain FieldDeserialize
     ( ; $field:ident, $t:ty, $buf:ident ) => {
-        let $field: $t = <$t as $crate::pdu_macro::FieldDeserialize>::deserialize_field($buf);
+        let $field: $t = <$t as $crate::pdu_macro::FieldDeserialize>::try_deserialize_field($buf)?;
     };
 }
 
-- 
2.43.0


From c0dc40c0a13083ff924102ed722aa016d774e6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:36 +0000
Subject: [PATCH 16/16] fix: no panic when the fields after a #[len] field are
 truncated

---
 src/pdu_macro.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pdu_macro.rs b/src/pdu_macro.rs
index 848ba50..c56ad87 100644
--- a/src/pdu_macro.rs
+++ b/src/pdu_macro.rs
@@ -145,6 +145,10 @@ macro_rules! __pdu_deserialize_field {
 
     // Default: plain FieldDeserialize
     ( ; $field:ident, $t:ty, $buf:ident ) => {
+        $crate::pdu_macro::check_remaining(
+            $buf,
+            <$t as $crate::pdu_macro::FieldLen>::field_len(&<$t>::default()),
+        )?;
         let $field: $t = <$t as $crate::pdu_macro::FieldDeserialize>::try_deserialize_field($buf)?;
     };
 }
-- 
2.43.0

