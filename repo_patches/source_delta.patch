From 7412af40e0a7b4030b163f806b96d714bd978755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:47 +0000
Subject: [PATCH 01/14] fix: read no extra word in device corrections that fill
 their last word

---
 src/layout/correction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/layout/correction.rs b/src/layout/correction.rs
index 944959e..b6d8e8c 100644
--- a/src/layout/correction.rs
+++ b/src/layout/correction.rs
@@ -61,7 +61,7 @@ impl crate::value::Read for Device {
         }
         let count = (end_size - start_size) as usize + 1;
         let bit_count = (1 << format as usize) * count;
-        let short_count = (bit_count + 16 - bit_count % 16) >> 4;
+        let short_count = (bit_count + 15) >> 4;
         let deltas = tape.take_given(short_count)?;
         Ok(Device {
             start_size,
-- 
2.43.0


From 10c657849d04ecff776bf81149b87edf08e9d973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:47 +0000
Subject: [PATCH 02/14] fix: follow the offset of variations in glyph
 definitions

---
 src/tables/glyph_definition/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tables/glyph_definition/mod.rs b/src/tables/glyph_definition/mod.rs
index ae7c79d..1a9db68 100644
--- a/src/tables/glyph_definition/mod.rs
+++ b/src/tables/glyph_definition/mod.rs
@@ -74,7 +74,7 @@ table! {
             jump_take_maybe!(
                 tape,
                 position,
-                field!(this.header => mark_offset(0), Header::{Version13})
+                field!(this.header => variation_offset(0), Header::{Version13})
             )
         },
     }
-- 
2.43.0


From 092321068c79d77905d8cee8edc57682fdd7cae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:47 +0000
Subject: [PATCH 03/14] fix: recognize ligature carets by their 16-bit format

---
 src/tables/glyph_definition/element.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tables/glyph_definition/element.rs b/src/tables/glyph_definition/element.rs
index 4eb5990..3e2f77b 100644
--- a/src/tables/glyph_definition/element.rs
+++ b/src/tables/glyph_definition/element.rs
@@ -132,7 +132,7 @@ table! {
 
 impl crate::value::Read for Caret {
     fn read<T: crate::tape::Read>(tape: &mut T) -> Result<Self> {
-        Ok(match tape.peek::<u32>()? {
+        Ok(match tape.peek::<u16>()? {
             1 => Self::Format1(tape.take()?),
             2 => Self::Format2(tape.take()?),
             3 => Self::Format3(tape.take()?),
-- 
2.43.0


From 4f3eccb38378ebec71bbe38b0e9fc88893a9dcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:47 +0000
Subject: [PATCH 04/14] fix: size delta sets without overflow and with account
 of long words

---
 src/variations/item.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/variations/item.rs b/src/variations/item.rs
index 452679d..405ca03 100644
--- a/src/variations/item.rs
+++ b/src/variations/item.rs
@@ -30,8 +30,17 @@ table! {
         },
 
         deltas (Vec<u8>) |this, tape| { // deltaSets
-            let per_item_count = this.short_delta_count + this.region_count;
-            tape.take_given(this.item_count as usize * per_item_count as usize)
+            let long = this.short_delta_count & 0x8000 != 0;
+            let word_count = (this.short_delta_count & 0x7fff) as usize;
+            let mut per_item_count = word_count + this.region_count as usize;
+            if long {
+                per_item_count *= 2;
+            }
+            let mut deltas = Vec::new();
+            for _ in 0..this.item_count {
+                deltas.extend(tape.take_bytes(per_item_count)?);
+            }
+            Ok(deltas)
         },
     }
 }
-- 
2.43.0


From f3d88f57107707e5fe6eec8bdbb76922c066b470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:47 +0000
Subject: [PATCH 05/14] fix: leave out absent rule sets of contextual lookups
 in format 1

---
 src/layout/context.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/layout/context.rs b/src/layout/context.rs
index 9cd7279..5e29bc1 100644
--- a/src/layout/context.rs
+++ b/src/layout/context.rs
@@ -32,8 +32,8 @@ table! {
             jump_take!(tape, position, this.coverage_offset)
         },
 
-        records (Vec<Records>) |this, tape, position| {
-            jump_take!(tape, position, this.record_count, this.record_offsets)
+        records (Vec<Option<Records>>) |this, tape, position| {
+            jump_take_maybe!(tape, position, this.record_count, this.record_offsets)
         },
     }
 }
@@ -114,8 +114,8 @@ table! {
             jump_take!(tape, position, this.coverage_offset)
         },
 
-        records (Vec<ChainedRecords>) |this, tape, position| {
-            jump_take!(tape, position, this.record_count, this.record_offsets)
+        records (Vec<Option<ChainedRecords>>) |this, tape, position| {
+            jump_take_maybe!(tape, position, this.record_count, this.record_offsets)
         },
     }
 }
-- 
2.43.0


From 8bffb1a36dd87a9118c07262e71eb24418026b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:47 +0000
Subject: [PATCH 06/14] fix: refuse unknown formats of reverse chained
 contextual substitutions

---
 src/tables/glyph_substitution/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tables/glyph_substitution/mod.rs b/src/tables/glyph_substitution/mod.rs
index 77c06ff..45f4acd 100644
--- a/src/tables/glyph_substitution/mod.rs
+++ b/src/tables/glyph_substitution/mod.rs
@@ -147,7 +147,7 @@ table! {
     @position
     /// A reversed chained contextual substitution.
     pub ReverseChainedContextualSubstibution { // ReverseChainSingleSubstFormat1
-        format               (u16), // substFormat
+        format               (u16) = { 1 }, // substFormat
         coverage_offset      (u16), // coverageOffset
         backward_glyph_count (u16), // backtrackGlyphCount
 
-- 
2.43.0


From 14a171d47296840f628eda735ffef82a569fb191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:13 +0000
Subject: [PATCH 07/14] fix: refuse unknown versions of font variations

---
 src/tables/font_variations/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tables/font_variations/mod.rs b/src/tables/font_variations/mod.rs
index 8a2ae59..8d88db8 100644
--- a/src/tables/font_variations/mod.rs
+++ b/src/tables/font_variations/mod.rs
@@ -19,8 +19,8 @@ table! {
     /// The header of a font-variations table.
     #[derive(Copy)]
     pub Header {
-        major_version  (u16), // majorVersion
-        minor_version  (u16), // minorVersion
+        major_version  (u16) = { 1 }, // majorVersion
+        minor_version  (u16) = { 0 }, // minorVersion
         axis_offset    (u16), // axesArrayOffset
         reserved       (u16) = { 2 }, // reserved
         axis_count     (u16), // axisCount
-- 
2.43.0


From 9c76de60dff553aeea9d7813084a69ba634065f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:13 +0000
Subject: [PATCH 08/14] fix: read the PostScript name of an instance only when
 it is there

---
 src/tables/font_variations/mod.rs | 33 ++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/tables/font_variations/mod.rs b/src/tables/font_variations/mod.rs
index 8d88db8..be0dc69 100644
--- a/src/tables/font_variations/mod.rs
+++ b/src/tables/font_variations/mod.rs
@@ -47,10 +47,10 @@ table! {
     @define
     /// An instance record of a font-variations table.
     pub InstanceRecord { // InstanceRecord
-        subfamily_name_id  (NameID       ), // subfamilyNameID
-        flags              (InstanceFlags), // flags
-        coordinates        (Vec<q32>     ), // coordinates
-        postscript_name_id (NameID       ), // postScriptNameID
+        subfamily_name_id  (NameID        ), // subfamilyNameID
+        flags              (InstanceFlags ), // flags
+        coordinates        (Vec<q32>      ), // coordinates
+        postscript_name_id (Option<NameID>), // postScriptNameID
     }
 }
 
@@ -84,7 +84,7 @@ impl crate::value::Read for FontVariations {
         let instance_records = (0..header.instance_count as u64)
             .map(|i| {
                 tape.jump(position + i * header.instance_size as u64)?;
-                tape.take_given(header.axis_count)
+                tape.take_given((header.axis_count, header.instance_size))
             })
             .collect::<Result<Vec<_>>>()?;
         Ok(Self {
@@ -96,14 +96,25 @@ impl crate::value::Read for FontVariations {
 }
 
 impl crate::walue::Read<'static> for InstanceRecord {
-    type Parameter = u16;
+    type Parameter = (u16, u16);
 
-    fn read<T: crate::tape::Read>(tape: &mut T, axis_count: Self::Parameter) -> Result<Self> {
+    fn read<T: crate::tape::Read>(
+        tape: &mut T,
+        (axis_count, size): Self::Parameter,
+    ) -> Result<Self> {
+        let subfamily_name_id = tape.take()?;
+        let flags = tape.take()?;
+        let coordinates = tape.take_given(axis_count as usize)?;
+        let postscript_name_id = if size as usize >= 4 * axis_count as usize + 6 {
+            Some(tape.take()?)
+        } else {
+            None
+        };
         Ok(Self {
-            subfamily_name_id: tape.take()?,
-            flags: tape.take()?,
-            coordinates: tape.take_given(axis_count as usize)?,
-            postscript_name_id: tape.take()?,
+            subfamily_name_id,
+            flags,
+            coordinates,
+            postscript_name_id,
         })
     }
 }
-- 
2.43.0


From cd43f24dd4b2ae9c77715b5bfb209e7bd75706c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:13 +0000
Subject: [PATCH 09/14] fix: refuse records of font variations that overlap

---
 src/tables/font_variations/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tables/font_variations/mod.rs b/src/tables/font_variations/mod.rs
index be0dc69..b7622ad 100644
--- a/src/tables/font_variations/mod.rs
+++ b/src/tables/font_variations/mod.rs
@@ -73,6 +73,14 @@ impl crate::value::Read for FontVariations {
     fn read<T: crate::tape::Read>(tape: &mut T) -> Result<Self> {
         let mut position = tape.position()?;
         let header: Header = tape.take()?;
+        if header.axis_count > 0 && header.axis_size < 20 {
+            raise!("found a malformed axis record of the font-variations table");
+        }
+        if header.instance_count > 0
+            && (header.instance_size as usize) < 4 * header.axis_count as usize + 4
+        {
+            raise!("found a malformed instance record of the font-variations table");
+        }
         position += header.axis_offset as u64;
         let axis_records = (0..header.axis_count as u64)
             .map(|i| {
-- 
2.43.0


From 973d66214ce307f065d7c5e8f1e79d798b9fe137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:13 +0000
Subject: [PATCH 10/14] fix: refuse palettes that reach beyond the colors

---
 src/tables/color_palettes.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/tables/color_palettes.rs b/src/tables/color_palettes.rs
index 481456e..1a9a87b 100644
--- a/src/tables/color_palettes.rs
+++ b/src/tables/color_palettes.rs
@@ -91,10 +91,26 @@ impl crate::value::Read for ColorPalettes {
     fn read<T: crate::tape::Read>(tape: &mut T) -> Result<Self> {
         let position = tape.position()?;
         let header = tape.take()?;
-        let (offset, count) = match header {
-            Header::Version0(ref header) => (header.color_offset, header.color_count as usize),
-            Header::Version1(ref header) => (header.color_offset, header.color_count as usize),
+        let (entry_count, offset, count, color_indices) = match header {
+            Header::Version0(ref header) => (
+                header.entry_count as usize,
+                header.color_offset,
+                header.color_count as usize,
+                &header.color_indices,
+            ),
+            Header::Version1(ref header) => (
+                header.entry_count as usize,
+                header.color_offset,
+                header.color_count as usize,
+                &header.color_indices,
+            ),
         };
+        if color_indices
+            .iter()
+            .any(|index| *index as usize + entry_count > count)
+        {
+            raise!("found a malformed palette of the color-palette table");
+        }
         let colors = jump_take_given!(@unwrap tape, position, offset, count);
         Ok(Self { header, colors })
     }
-- 
2.43.0


From d6b8bbb57d016a5b2ea64329f6d745bb6d508d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:13 +0000
Subject: [PATCH 11/14] fix: refuse tables too large for a checksum

---
 src/font.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/font.rs b/src/font.rs
index 026ca17..15b0ca8 100644
--- a/src/font.rs
+++ b/src/font.rs
@@ -36,7 +36,7 @@ impl Font {
         for record in &self.offsets.records {
             if record.tag == tag {
                 #[cfg(not(feature = "ignore-invalid-checksums"))]
-                if record.checksum != record.checksum(tape)? {
+                if record.size > u32::MAX - 4 || record.checksum != record.checksum(tape)? {
                     raise!("found a malformed font table with {:?}", record.tag);
                 }
                 Read::jump(tape, record.offset as u64)?;
-- 
2.43.0


From 0d6e13359a09b2d8d11b98f1b1194db4301337b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:13 +0000
Subject: [PATCH 12/14] fix: tell Tulu and Tumbuka apart

---
 src/layout/language.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/layout/language.rs b/src/layout/language.rs
index 6ca167f..037e5ed 100644
--- a/src/layout/language.rs
+++ b/src/layout/language.rs
@@ -625,8 +625,8 @@ implement! {
     b"TRK " => "Turkish" => Turkish => "tur",
     b"TSG " => "Tsonga" => Tsonga => "tso",
     b"TUA " => "Turoyo Aramaic" => TuroyoAramaic => "tru",
-    b"TUM " => "Tulu" => Tulu => "tum",
-    b"TUL " => "Tumbuka" => Tumbuka => "tcy",
+    b"TUL " => "Tulu" => Tulu => "tcy",
+    b"TUM " => "Tumbuka" => Tumbuka => "tum",
     b"TUV " => "Tuvin" => Tuvin => "tyv",
     b"TVL " => "Tuvalu" => Tuvalu => "tvl",
     b"TWI " => "Twi" => Twi => "aka",
-- 
2.43.0


From cfaf662d21e4762640a728f5435bf32f100a139a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:13 +0000
Subject: [PATCH 13/14] fix: refuse marks without anchors unless told to ignore
 them

---
 src/tables/glyph_positioning/element.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tables/glyph_positioning/element.rs b/src/tables/glyph_positioning/element.rs
index d7de009..011cb05 100644
--- a/src/tables/glyph_positioning/element.rs
+++ b/src/tables/glyph_positioning/element.rs
@@ -331,6 +331,10 @@ impl crate::walue::Read<'static> for Mark1 {
         let class_id = tape.take()?;
         let anchor_offset = tape.take()?;
         #[cfg(not(feature = "ignore-incomplete-marks"))]
+        if anchor_offset == 0 {
+            raise!("found an incomplete mark");
+        }
+        #[cfg(not(feature = "ignore-incomplete-marks"))]
         let anchor = tape.stay(|tape| jump_take!(tape, position, anchor_offset))?;
         #[cfg(feature = "ignore-incomplete-marks")]
         let anchor = tape
-- 
2.43.0


From 15e610be523d0a393ebee711582c0fa619f770d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:13 +0000
Subject: [PATCH 14/14] fix: refuse incomplete directories unless told to
 ignore them

---
 src/layout/directory.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/layout/directory.rs b/src/layout/directory.rs
index 5158ee9..2b9e860 100644
--- a/src/layout/directory.rs
+++ b/src/layout/directory.rs
@@ -39,6 +39,10 @@ where
             _ => 0,
         };
         #[cfg(not(feature = "ignore-incomplete-directories"))]
+        if script_offset == 0 || feature_offset == 0 || lookup_offset == 0 {
+            raise!("found an incomplete directory table");
+        }
+        #[cfg(not(feature = "ignore-incomplete-directories"))]
         let (scripts, features, lookups) = (
             jump_take!(@unwrap tape, position, script_offset),
             jump_take!(@unwrap tape, position, feature_offset),
-- 
2.43.0

