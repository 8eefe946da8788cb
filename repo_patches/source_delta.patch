From 2df787e49c122c1eac9e4da7986e3eefe9dc53bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 01/16] fix: link a tag sharing data to the earlier tag, not
 the earlier tag to itself

---
 src/types/profile.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/profile.rs b/src/types/profile.rs
index 2d96af6..8a6959d 100644
--- a/src/types/profile.rs
+++ b/src/types/profile.rs
@@ -192,7 +192,7 @@ impl Profile {
                 if self.tag_offsets[j] == tag.offset as usize
                     && self.tag_sizes[j] == tag.size as usize
                 {
-                    self.tag_linked[j] = Some(self.tag_names[j]);
+                    self.tag_linked[self.tag_count] = Some(self.tag_names[j]);
                 }
             }
 
-- 
2.43.0


From ecabdcf145596c5f9b7680f228923463811dead8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 02/16] fix: do not overflow on directory entries whose end
 exceeds 32 bits

---
 src/types/profile.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/types/profile.rs b/src/types/profile.rs
index 8a6959d..bcc1778 100644
--- a/src/types/profile.rs
+++ b/src/types/profile.rs
@@ -179,8 +179,9 @@ impl Profile {
             let tag = TagEntryConverter::from_bytes(buf);
 
             // Perform some sanity check. Offset + size should fall inside file.
-            if tag.offset + tag.size > header_size as u32 || tag.offset + tag.size < tag.offset {
-                continue;
+            match tag.offset.checked_add(tag.size) {
+                Some(end) if end as usize <= header_size => (),
+                _ => continue,
             }
 
             self.tag_names[self.tag_count] = tag.sig;
-- 
2.43.0


From beefb1fa01e7dafb24d7d93d84060d53379d7d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 03/16] fix: refuse profiles with an impossible creation date
 instead of panicking

---
 src/types/date_time_number.rs |  8 ++++++++
 src/types/profile.rs          | 11 ++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/types/date_time_number.rs b/src/types/date_time_number.rs
index 380f6b9..14c1e1f 100644
--- a/src/types/date_time_number.rs
+++ b/src/types/date_time_number.rs
@@ -12,6 +12,14 @@ pub struct DateTimeNumber {
     pub seconds: u16,
 }
 
+impl DateTimeNumber {
+    /// Converts to a calendar date and time, or `None` if there is no such date or time.
+    pub fn to_naive_date_time(&self) -> Option<chrono::NaiveDateTime> {
+        chrono::NaiveDate::from_ymd_opt(self.year as i32, self.month as u32, self.day as u32)?
+            .and_hms_opt(self.hours as u32, self.minutes as u32, self.seconds as u32)
+    }
+}
+
 impl From<DateTimeNumber> for chrono::NaiveDateTime {
     fn from(d: DateTimeNumber) -> Self {
         chrono::NaiveDate::from_ymd(d.year as i32, d.month as u32, d.day as u32).and_hms(
diff --git a/src/types/profile.rs b/src/types/profile.rs
index bcc1778..33e0c20 100644
--- a/src/types/profile.rs
+++ b/src/types/profile.rs
@@ -160,7 +160,16 @@ impl Profile {
         };
 
         // Get creation date/time
-        self.created = header.date.into();
+        self.created = match header.date.to_naive_date_time() {
+            Some(created) => created,
+            None => {
+                context.signal_error(
+                    ErrorCode::CorruptionDetected,
+                    "invalid creation date".to_string(),
+                );
+                return err;
+            }
+        };
 
         // The profile ID are 32 raw bytes
         self.profile_id = header.profile_id;
-- 
2.43.0


From 05a6fe33e392b086ddab99bed6eb7d2016c6b5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 04/16] fix: keep year 0 when converting a calendar date to an
 ICC date

---
 src/types/date_time_number.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/types/date_time_number.rs b/src/types/date_time_number.rs
index 14c1e1f..965250d 100644
--- a/src/types/date_time_number.rs
+++ b/src/types/date_time_number.rs
@@ -33,9 +33,8 @@ impl From<chrono::NaiveDateTime> for DateTimeNumber {
     fn from(d: chrono::NaiveDateTime) -> Self {
         let time = d.time();
 
-        let (_, year) = d.year_ce();
         Self {
-            year: year as u16,
+            year: d.year() as u16,
             month: d.month() as u16,
             day: d.day() as u16,
             hours: time.hour() as u16,
-- 
2.43.0


From 75e88b7c91f6abc52162b4247bef92f51b7d06fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 05/16] fix: get_tag_signature one past the end of a full
 directory

---
 src/types/profile.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/profile.rs b/src/types/profile.rs
index 33e0c20..8608810 100644
--- a/src/types/profile.rs
+++ b/src/types/profile.rs
@@ -48,7 +48,7 @@ impl Profile {
         self.tag_count
     }
     pub fn get_tag_signature(&self, n: usize) -> Signature {
-        if n > self.tag_count {
+        if n >= self.tag_count {
             Signature::default()
         } else {
             self.tag_names[n]
-- 
2.43.0


From cbfaf34cd4cd292e2d760c3e13004f707c24dc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 06/16] fix: opening a profile for writing must not try to read
 its header

---
 src/types/profile.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/types/profile.rs b/src/types/profile.rs
index 8608810..1e5efce 100644
--- a/src/types/profile.rs
+++ b/src/types/profile.rs
@@ -102,6 +102,9 @@ impl Profile {
         } else {
             profile.io = Some(Box::new(File::create(filename)?));
             profile.is_write = true;
+
+            // A profile being written has nothing to read yet
+            return Ok(profile);
         };
 
         profile.read_header_thr(context)?;
-- 
2.43.0


From b3c95501128a152eb25c762fd5223f2e1b226bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 07/16] fix: validate the last plug-in of a list too

---
 src/state/context.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/state/context.rs b/src/state/context.rs
index 416147d..2679866 100644
--- a/src/state/context.rs
+++ b/src/state/context.rs
@@ -66,8 +66,8 @@ impl Context {
             Err(text)
         };
 
-        let mut plugin = plugin;
-        while plugin.next.is_some() {
+        let mut next = Some(plugin);
+        while let Some(plugin) = next {
             if plugin.magic != signatures::plugin_type::MAGIC {
                 return signal_error(
                     self,
@@ -105,7 +105,7 @@ impl Context {
                 }
             };
 
-            plugin = plugin.next.as_ref().unwrap();
+            next = plugin.next.as_deref();
         }
 
         Ok(())
-- 
2.43.0


From 649c4a8d152c92d72a6b8a44b3513862f7ea18ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 08/16] fix: null stream seeks backwards without overflowing
 and reads zeros

---
 src/io/file_null.rs | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/io/file_null.rs b/src/io/file_null.rs
index 2119ab2..4c6e4ca 100644
--- a/src/io/file_null.rs
+++ b/src/io/file_null.rs
@@ -1,4 +1,4 @@
-use std::io::{Result, SeekFrom};
+use std::io::{Error, ErrorKind, Result, SeekFrom};
 
 use super::IOHandler;
 
@@ -44,6 +44,14 @@ impl FileNull {
     pub const fn new() -> FileNull {
         FileNull { pointer: 0, used_space: 0 }
     }
+
+    fn advance(&mut self, len: usize) -> Result<()> {
+        self.pointer = self
+            .pointer
+            .checked_add(len)
+            .ok_or_else(|| Error::from(ErrorKind::InvalidInput))?;
+        Ok(())
+    }
 }
 
 impl Default for FileNull {
@@ -54,24 +62,19 @@ impl Default for FileNull {
 
 impl IOHandler for FileNull {
     fn read(&mut self, buf: &mut [u8]) -> Result<()> {
-        let len = buf.len();
-        self.pointer += len;
+        self.advance(buf.len())?;
+        buf.fill(0);
 
         Ok(())
     }
 
     fn seek(&mut self, pos: SeekFrom) -> Result<()> {
-        match pos {
-            SeekFrom::Start(value) => {
-                self.pointer = value as usize;
-            },
-            SeekFrom::End(value) => {
-                self.pointer = self.used_space + value as usize;
-            },
-            SeekFrom::Current(value) => {
-                self.pointer += value as usize;
-            }
-        }
+        let pointer = match pos {
+            SeekFrom::Start(value) => Some(value as usize),
+            SeekFrom::End(value) => self.used_space.checked_add_signed(value as isize),
+            SeekFrom::Current(value) => self.pointer.checked_add_signed(value as isize),
+        };
+        self.pointer = pointer.ok_or_else(|| Error::from(ErrorKind::InvalidInput))?;
         Ok(())
     }
 
@@ -84,8 +87,7 @@ impl IOHandler for FileNull {
     }
 
     fn write(&mut self, buf: &[u8]) -> Result<()> {
-        let len = buf.len();
-        self.pointer += len;
+        self.advance(buf.len())?;
 
         if self.pointer > self.used_space {
             self.used_space = self.pointer
-- 
2.43.0


From 65581d0f6b4bfc9e396588636777047867724edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 09/16] fix: decode the most negative 15.16 value without
 overflowing

---
 src/io/io_handler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/io_handler.rs b/src/io/io_handler.rs
index 5d242bd..4fa334b 100644
--- a/src/io/io_handler.rs
+++ b/src/io/io_handler.rs
@@ -487,7 +487,7 @@ pub trait IOHandler: Debug {
 
 fn s15f16_to_f64(value: S15F16) -> f64 {
     let sign = if value < 0 { -1.0 } else { 1.0 };
-    let value = value.abs();
+    let value = value.unsigned_abs();
 
     let whole = ((value >> 16) & 0xFFFF) as u16;
     let frac_part = (value & 0xFFFF) as u16;
-- 
2.43.0


From b35db101238b65f8c5b2c556cf80f9f93424fb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 10/16] fix: a power curve passes negative input only for
 exponent 1

---
 src/plugins/para_curve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plugins/para_curve.rs b/src/plugins/para_curve.rs
index 025cf98..9d8e82f 100644
--- a/src/plugins/para_curve.rs
+++ b/src/plugins/para_curve.rs
@@ -97,7 +97,7 @@ pub fn default_eval_parametric_fn(r#type: i32, params: &[f64], r: f64) -> f64 {
             let gamma = params[0];
 
             if r < 0.0 {
-                if gamma.abs() - 1.0 < MATRIX_DET_TOLERANCE {
+                if (gamma - 1.0).abs() < MATRIX_DET_TOLERANCE {
                     r
                 } else {
                     0.0
-- 
2.43.0


From a0b06b2159dbb88634d9c228b46c3261b97a2554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 11/16] fix: inverse sigmoid uses the natural logarithm

---
 src/plugins/para_curve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plugins/para_curve.rs b/src/plugins/para_curve.rs
index 9d8e82f..7592d1f 100644
--- a/src/plugins/para_curve.rs
+++ b/src/plugins/para_curve.rs
@@ -451,7 +451,7 @@ fn sigmoid_base(k: f64, t: f64) -> f64 {
 }
 #[inline]
 fn inverted_sigmoid_base(k: f64, t: f64) -> f64 {
-    -((1.0 / (t + 0.5)) - 1.0).log10() / k
+    -((1.0 / (t + 0.5)) - 1.0).ln() / k
 }
 #[inline]
 fn sigmoid_factory(k: f64, t: f64) -> f64 {
-- 
2.43.0


From 0a983d6afe170a86b7e185c4f26c68c358f2d362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 12/16] fix: inverse of a falling logarithmic curve

---
 src/plugins/para_curve.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/plugins/para_curve.rs b/src/plugins/para_curve.rs
index 7592d1f..b301492 100644
--- a/src/plugins/para_curve.rs
+++ b/src/plugins/para_curve.rs
@@ -386,7 +386,9 @@ pub fn default_eval_parametric_fn(r#type: i32, params: &[f64], r: f64) -> f64 {
             let c = params[3];
             let d = params[4];
 
-            if gamma < MATRIX_DET_TOLERANCE || a < MATRIX_DET_TOLERANCE || b < MATRIX_DET_TOLERANCE
+            if gamma.abs() < MATRIX_DET_TOLERANCE
+                || a.abs() < MATRIX_DET_TOLERANCE
+                || b.abs() < MATRIX_DET_TOLERANCE
             {
                 0.0
             } else {
-- 
2.43.0


From c324524bbb8e265e3afff007c2f27d50e5e9bef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 13/16] fix: curve lookup of the most negative type number

---
 src/plugins/para_curve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plugins/para_curve.rs b/src/plugins/para_curve.rs
index b301492..4d02833 100644
--- a/src/plugins/para_curve.rs
+++ b/src/plugins/para_curve.rs
@@ -82,7 +82,7 @@ impl Default for ParametricCurves {
 impl ParametricCurves {
     pub fn is_in_set(&self, r#type: i32) -> Option<usize> {
         for i in 0..self.curves.len() {
-            if r#type.abs() == self.curves[i].function_curve_id {
+            if r#type.checked_abs() == Some(self.curves[i].function_curve_id) {
                 return Some(i);
             }
         }
-- 
2.43.0


From 0a524c61e410c89c7251d4fe8e6b52aff27d6405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:35 +0000
Subject: [PATCH 14/16] Verification hooks behind --cfg lcms2_verif

---
 src/state.rs         |  2 ++
 src/state/context.rs | 20 +++++++++++++
 src/types.rs         |  3 ++
 src/types/profile.rs | 71 ++++++++++++++++++++++++++++++++++++++++++++
 4 files changed, 96 insertions(+)

diff --git a/src/state.rs b/src/state.rs
index 0b2a2b9..6f92939 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -4,3 +4,5 @@ mod context;
 pub use chunks::error_handler::ErrorCode;
 pub use context::Context;
 pub(crate) use context::GLOBAL_CONTEXT;
+#[cfg(lcms2_verif)]
+pub use context::verif;
diff --git a/src/state/context.rs b/src/state/context.rs
index 2679866..6999afc 100644
--- a/src/state/context.rs
+++ b/src/state/context.rs
@@ -120,3 +120,23 @@ impl Context {
         eh(self, code, text.into())
     }
 }
+
+/// Verification hooks (built only with `--cfg lcms2_verif`).
+#[cfg(lcms2_verif)]
+pub mod verif {
+    use super::{Context, GLOBAL_CONTEXT};
+    use crate::state::chunks::error_handler::LogErrorHandlerFunction;
+
+    impl Context {
+        /// Installs an error handler on this context.
+        pub fn verif_set_error_handler(&mut self, handler: LogErrorHandlerFunction) {
+            self.error_handler.handler = handler;
+        }
+    }
+
+    /// Runs `f` on the shared default context, whether or not its mutex is poisoned.
+    pub fn with_global_context<R>(f: impl FnOnce(&mut Context) -> R) -> R {
+        let mut context = GLOBAL_CONTEXT.lock().unwrap_or_else(|e| e.into_inner());
+        f(&mut context)
+    }
+}
diff --git a/src/types.rs b/src/types.rs
index adc2bf3..f20f925 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -37,5 +37,8 @@ pub use tone_curve::ToneCurve;
 #[allow(missing_docs)]
 pub mod signatures;
 
+#[cfg(lcms2_verif)]
+pub use profile::verif;
+
 pub const MAX_TABLE_TAG: usize = 100;
 pub const MAX_CHANNELS: usize = 16;
diff --git a/src/types/profile.rs b/src/types/profile.rs
index 1e5efce..12ef3cb 100644
--- a/src/types/profile.rs
+++ b/src/types/profile.rs
@@ -268,6 +268,77 @@ impl PartialEq for Profile {
     }
 }
 
+/// Verification hooks (built only with `--cfg lcms2_verif`): read access to private state.
+#[cfg(lcms2_verif)]
+pub mod verif {
+    use super::*;
+
+    /// Everything a profile keeps from its file. Signatures are given as numbers.
+    pub struct ProfileView {
+        pub created: chrono::NaiveDateTime,
+        pub version: u32,
+        pub device_class: u32,
+        pub color_space: u32,
+        pub pcs: u32,
+        pub rendering_intent: u32,
+        pub flags: u32,
+        pub manufacturer: u32,
+        pub model: u32,
+        pub attributes: u64,
+        pub creator: u32,
+        pub profile_id: [u8; 16],
+        pub is_write: bool,
+        /// (signature, offset, size, link) of every tag
+        pub tags: Vec<(u32, usize, usize, Option<u32>)>,
+    }
+
+    impl Profile {
+        pub fn verif_view(&self) -> ProfileView {
+            ProfileView {
+                created: self.created,
+                version: self.version,
+                device_class: self.device_class.into(),
+                color_space: self.color_space.into(),
+                pcs: self.pcs.into(),
+                rendering_intent: self.rendering_intent,
+                flags: self.flags,
+                manufacturer: self.manufacturer,
+                model: self.model,
+                attributes: self.attributes,
+                creator: self.creator,
+                profile_id: unsafe { self.profile_id.id8 },
+                is_write: self.is_write,
+                tags: (0..self.tag_count)
+                    .map(|i| {
+                        (
+                            self.tag_names[i].into(),
+                            self.tag_offsets[i],
+                            self.tag_sizes[i],
+                            self.tag_linked[i].map(|x| x.into()),
+                        )
+                    })
+                    .collect(),
+            }
+        }
+        pub fn verif_search_tag(&self, sig: Signature, follow_links: bool) -> Option<usize> {
+            self.search_tag(sig, follow_links)
+        }
+    }
+
+    pub fn header_from_bytes(bytes: [u8; 128]) -> crate::types::ICCHeader {
+        ICCHeaderConverter::from_bytes(bytes)
+    }
+    pub fn header_to_bytes(value: crate::types::ICCHeader) -> [u8; 128] {
+        ICCHeaderConverter::to_bytes(value)
+    }
+    pub fn tag_entry_from_bytes(bytes: [u8; 12]) -> crate::types::TagEntry {
+        TagEntryConverter::from_bytes(bytes)
+    }
+    pub fn tag_entry_to_bytes(value: crate::types::TagEntry) -> [u8; 12] {
+        TagEntryConverter::to_bytes(value)
+    }
+}
+
 #[cfg(test)]
 mod test {
     use chrono::NaiveDate;
-- 
2.43.0


From d7a09207803f1d90b3033bdce1640b44ad701270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:21 +0000
Subject: [PATCH 15/16] Verification hooks: construct plug-in payloads (--cfg
 lcms2_verif)

---
 src/plugins/tag.rs      | 12 ++++++++++++
 src/plugins/tag_type.rs | 13 +++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/src/plugins/tag.rs b/src/plugins/tag.rs
index e159efb..97e3482 100644
--- a/src/plugins/tag.rs
+++ b/src/plugins/tag.rs
@@ -27,3 +27,15 @@ impl Debug for TagDescriptor {
             .finish()
     }
 }
+
+/// Verification hooks (built only with `--cfg lcms2_verif`).
+#[cfg(lcms2_verif)]
+impl TagDescriptor {
+    pub fn verif_new(
+        element_count: usize,
+        supported_types: Vec<Signature>,
+        decide_type: TagTypeDecoder,
+    ) -> Self {
+        Self { element_count, supported_types, decide_type }
+    }
+}
diff --git a/src/plugins/tag_type.rs b/src/plugins/tag_type.rs
index 4762172..3b85e48 100644
--- a/src/plugins/tag_type.rs
+++ b/src/plugins/tag_type.rs
@@ -38,3 +38,16 @@ impl Debug for TypeHandler {
             .finish()
     }
 }
+
+/// Verification hooks (built only with `--cfg lcms2_verif`).
+#[cfg(lcms2_verif)]
+impl TypeHandler {
+    pub fn verif_new(
+        signature: Signature,
+        icc_version: u32,
+        read: TagTypeReader,
+        write: TagTypeWriter,
+    ) -> Self {
+        Self { signature, icc_version, read, write }
+    }
+}
-- 
2.43.0


From 5c51fe7ad5aca087289436880799bcfde709defb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:05 +0000
Subject: [PATCH 16/16] fix: round values just below a tie down when writing
 15.16 numbers

---
 src/io/io_handler.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/io/io_handler.rs b/src/io/io_handler.rs
index 4fa334b..c0a78ae 100644
--- a/src/io/io_handler.rs
+++ b/src/io/io_handler.rs
@@ -499,5 +499,15 @@ fn s15f16_to_f64(value: S15F16) -> f64 {
 }
 
 fn f64_to_s15f16(value: f64) -> S15F16 {
-    ((value * 65536.0) + 0.5).floor() as S15F16
+    let scaled = value * 65536.0;
+    let floor = scaled.floor();
+
+    // Adding 0.5 before rounding down would itself round, up to the next value just below a tie
+    let nearest = if scaled - floor >= 0.5 {
+        floor + 1.0
+    } else {
+        floor
+    };
+
+    nearest as S15F16
 }
-- 
2.43.0

