From 303d08eeab0630eefe634b89ae295e984308a5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:18 +0000
Subject: [PATCH 01/25] fix: report truncated or impossible structure headers
 instead of reading past the buffer

The walk read the header and the formatted area without comparing them with
the buffer: a buffer shorter than the declared table length panicked or read
past its end, and a header length below four bytes panicked on slicing.
---
 src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4b6db4b..7903d48 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -527,10 +527,16 @@ impl<'buffer> Structures<'buffer> {
         }
 
         let working = &self.buffer[(self.idx as usize)..];
+        if working.len() < mem::size_of::<HeaderPacked>() {
+            return Some(Err(MalformedStructureError::BadSize(self.idx, working.len() as u8)));
+        }
         let_as_struct!(header, HeaderPacked, working);
 
         let strings_idx: u32 = self.idx + header.len as u32;
-        if strings_idx >= self.smbios_len {
+        if strings_idx >= self.smbios_len
+            || (header.len as usize) < mem::size_of::<HeaderPacked>()
+            || header.len as usize > working.len()
+        {
             return Some(Err(MalformedStructureError::BadSize(self.idx, header.len)));
         }
 
-- 
2.43.0


From 457c7734e48cfad9c8abc3d58d11712c009f2c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:33 +0000
Subject: [PATCH 02/25] fix: compare the entry point length with the whole
 remaining buffer

The remaining buffer length was truncated to eight bits before the
comparison, so an intact entry point was rejected as BadSize whenever 256*k
to 256*k+30 bytes were left from its anchor.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7903d48..acd843a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -225,7 +225,7 @@ impl EntryPoint {
                 );
 
                 lib_ensure!(
-                    sub_buffer.len() as u8 >= entry_point.len(),
+                    sub_buffer.len() >= entry_point.len() as usize,
                     InvalidEntryPointError::BadSize(sub_buffer.len() as u8)
                 );
 
-- 
2.43.0


From d4bfc52e908bb87d9af1632eceaff4be777a70aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:36 +0000
Subject: [PATCH 03/25] fix: never read a BIOS structure past its formatted
 area

The layout was chosen by version alone, so a structure shorter than its
version suggests took its last fields from the strings behind it or from
memory past the buffer. Use the largest layout that fits and reject a
structure that is shorter than the 2.0 layout.
---
 src/structures/000_bios.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/structures/000_bios.rs b/src/structures/000_bios.rs
index c566d60..2b4d666 100644
--- a/src/structures/000_bios.rs
+++ b/src/structures/000_bios.rs
@@ -3,9 +3,10 @@
 //! BIOS Information structure
 
 use core::fmt;
+use core::mem;
 
 use crate::bitfield::{BitField, FlagType, Layout};
-use crate::{MalformedStructureError, RawStructure};
+use crate::{InfoType, MalformedStructureError, RawStructure};
 
 /// BIOS Information
 #[derive(Copy, Clone, Debug, Eq, Hash, PartialEq, Default)]
@@ -126,7 +127,7 @@ impl<'buffer> Bios<'buffer> {
         }
 
         match structure.version {
-            v if v >= (3, 1).into() => {
+            v if v >= (3, 1).into() && structure.data.len() >= mem::size_of::<BiosPacked3_1>() => {
                 let_as_struct!(packed, BiosPacked3_1, structure.data);
                 Ok(Bios {
                     handle: structure.handle,
@@ -155,7 +156,7 @@ impl<'buffer> Bios<'buffer> {
                     }),
                 })
             }
-            v if v >= (2, 4).into() => {
+            v if v >= (2, 4).into() && structure.data.len() >= mem::size_of::<BiosPacked2_4>() => {
                 let_as_struct!(packed, BiosPacked2_4, structure.data);
                 Ok(Bios {
                     handle: structure.handle,
@@ -184,6 +185,14 @@ impl<'buffer> Bios<'buffer> {
                     }),
                 })
             }
+            _ if structure.data.len() < mem::size_of::<BiosPacked2_0>() => {
+                Err(MalformedStructureError::InvalidFormattedSectionLength(
+                    InfoType::Bios,
+                    structure.handle,
+                    "minimum of ",
+                    0x12,
+                ))
+            }
             _ => {
                 let_as_struct!(packed, BiosPacked2_0, structure.data);
                 Ok(Bios {
-- 
2.43.0


From 82cf64a205578d0ffe9c5ad7c716e44498e1207d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:00 +0000
Subject: [PATCH 04/25] fix: never read a System structure past its formatted
 area

Same defect as in the BIOS structure: a formatted area shorter than the
layout of the declared version was read past its end.
---
 src/structures/001_system.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/structures/001_system.rs b/src/structures/001_system.rs
index 603bc16..6e6ae64 100644
--- a/src/structures/001_system.rs
+++ b/src/structures/001_system.rs
@@ -5,7 +5,9 @@
 //! associated with a single system instance and contains one and only one System Information
 //! (Type 1) structure.
 
-use crate::{MalformedStructureError, RawStructure};
+use core::mem;
+
+use crate::{InfoType, MalformedStructureError, RawStructure};
 
 /// The wakeup type defined in the SMBIOS specification.
 #[allow(non_camel_case_types)]
@@ -107,7 +109,14 @@ impl<'buffer> System<'buffer> {
             family: u8,
         }
 
-        if structure.version < (2, 1).into() {
+        if structure.data.len() < mem::size_of::<SystemPacked2_0>() {
+            Err(MalformedStructureError::InvalidFormattedSectionLength(
+                InfoType::System,
+                structure.handle,
+                "minimum of ",
+                0x08,
+            ))
+        } else if structure.version < (2, 1).into() || structure.data.len() < mem::size_of::<SystemPacked2_1>() {
             let_as_struct!(packed, SystemPacked2_0, structure.data);
 
             Ok(System {
@@ -121,7 +130,7 @@ impl<'buffer> System<'buffer> {
                 sku: None,
                 family: None,
             })
-        } else if structure.version < (2, 4).into() {
+        } else if structure.version < (2, 4).into() || structure.data.len() < mem::size_of::<SystemPacked2_4>() {
             let_as_struct!(packed, SystemPacked2_1, structure.data);
 
             Ok(System {
-- 
2.43.0


From 6c116feb051f3beee62b191f23184fb22a95cb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:02 +0000
Subject: [PATCH 05/25] fix: never read a BaseBoard structure past its
 formatted area

The full layout was read whatever the length of the formatted area, and the
two-byte chassis handle was reported when only its first byte was there.
---
 src/structures/002_baseboard.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/structures/002_baseboard.rs b/src/structures/002_baseboard.rs
index df02bbd..8e071d5 100644
--- a/src/structures/002_baseboard.rs
+++ b/src/structures/002_baseboard.rs
@@ -3,10 +3,11 @@
 //! The information in this structure defines attributes of a system baseboard (for example, a
 //! motherboard, planar, server blade, or other standard system module).
 use core::fmt;
+use core::mem;
 
 use bitflags::bitflags;
 
-use crate::{MalformedStructureError, RawStructure};
+use crate::{InfoType, MalformedStructureError, RawStructure};
 
 /// The baseboard type defined in the SMBIOS specification.
 #[allow(non_camel_case_types)]
@@ -117,7 +118,20 @@ impl<'buffer> BaseBoard<'buffer> {
             board_type: u8,
         }
 
-        let_as_struct!(packed, BaseBoardPacked, structure.data);
+        // Only the first four fields are mandatory: absent ones are decoded from padding and ignored
+        if structure.data.len() < 4 {
+            return Err(MalformedStructureError::InvalidFormattedSectionLength(
+                InfoType::BaseBoard,
+                structure.handle,
+                "minimum of ",
+                0x08,
+            ));
+        }
+        let mut padded = [0u8; mem::size_of::<BaseBoardPacked>()];
+        for (dst, src) in padded.iter_mut().zip(structure.data) {
+            *dst = *src;
+        }
+        let_as_struct!(packed, BaseBoardPacked, padded);
 
         let asset = if structure.data.len() > 4 {
             Some(structure.find_string(packed.asset)?)
@@ -134,7 +148,7 @@ impl<'buffer> BaseBoard<'buffer> {
         } else {
             None
         };
-        let chassis_handle = if structure.data.len() > 7 {
+        let chassis_handle = if structure.data.len() > 8 {
             Some(packed.chassis_handle)
         } else {
             None
-- 
2.43.0


From 570e822c7a1ffb087e69cd54addce893ab076555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:15 +0000
Subject: [PATCH 06/25] fix: never read a Processor structure past its
 formatted area

Same defect as in the BIOS structure: a formatted area shorter than the
layout of the declared version was read past its end. Use the largest layout
that fits, reject a structure shorter than the 2.0 layout.
---
 src/structures/004_processor.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/structures/004_processor.rs b/src/structures/004_processor.rs
index 7489fd0..6ef1884 100644
--- a/src/structures/004_processor.rs
+++ b/src/structures/004_processor.rs
@@ -7,10 +7,11 @@
 //! describe the 80487 co1021 processor.
 
 use core::fmt;
+use core::mem;
 
 use bitflags::bitflags;
 
-use crate::{MalformedStructureError, RawStructure};
+use crate::{InfoType, MalformedStructureError, RawStructure};
 
 /// The processor types defined in the SMBIOS specification.
 #[allow(non_camel_case_types)]
@@ -615,7 +616,14 @@ impl<'buffer> Processor<'buffer> {
             thread_count_2: u16,
         }
 
-        if structure.version < (2, 1).into() {
+        if structure.data.len() < mem::size_of::<ProcessorPacked2_0>() {
+            Err(MalformedStructureError::InvalidFormattedSectionLength(
+                InfoType::Processor,
+                structure.handle,
+                "minimum of ",
+                0x1A,
+            ))
+        } else if structure.version < (2, 1).into() || structure.data.len() < mem::size_of::<ProcessorPacked2_1>() {
             let_as_struct!(packed, ProcessorPacked2_0, structure.data);
 
             Ok(Processor {
@@ -643,7 +651,7 @@ impl<'buffer> Processor<'buffer> {
                 thread_count: None,
                 processor_characteristics: None,
             })
-        } else if structure.version < (2, 3).into() {
+        } else if structure.version < (2, 3).into() || structure.data.len() < mem::size_of::<ProcessorPacked2_3>() {
             let_as_struct!(packed, ProcessorPacked2_1, structure.data);
 
             Ok(Processor {
@@ -671,7 +679,7 @@ impl<'buffer> Processor<'buffer> {
                 thread_count: None,
                 processor_characteristics: None,
             })
-        } else if structure.version < (2, 5).into() {
+        } else if structure.version < (2, 5).into() || structure.data.len() < mem::size_of::<ProcessorPacked2_5>() {
             let_as_struct!(packed, ProcessorPacked2_3, structure.data);
 
             Ok(Processor {
@@ -699,7 +707,7 @@ impl<'buffer> Processor<'buffer> {
                 thread_count: None,
                 processor_characteristics: None,
             })
-        } else if structure.version < (2, 6).into() {
+        } else if structure.version < (2, 6).into() || structure.data.len() < mem::size_of::<ProcessorPacked2_6>() {
             let_as_struct!(packed, ProcessorPacked2_5, structure.data);
 
             Ok(Processor {
@@ -727,7 +735,7 @@ impl<'buffer> Processor<'buffer> {
                 thread_count: Some(packed.thread_count as u16),
                 processor_characteristics: None,
             })
-        } else if structure.version < (3, 0).into() {
+        } else if structure.version < (3, 0).into() || structure.data.len() < mem::size_of::<ProcessorPacked3_0>() {
             let_as_struct!(packed, ProcessorPacked2_6, structure.data);
             // smbios spec specifies 0xFE as an indicator to obtain processor
             // family from the Processor Family 2 field.
-- 
2.43.0


From a5eba627520b9fcd1aa2f15b796bdb29a0fddbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:18 +0000
Subject: [PATCH 07/25] fix: report the processor characteristics of SMBIOS 2.5
 tables

The field is part of the 2.5 layout and was read, but reported as absent.
---
 src/structures/004_processor.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/structures/004_processor.rs b/src/structures/004_processor.rs
index 6ef1884..0454c4b 100644
--- a/src/structures/004_processor.rs
+++ b/src/structures/004_processor.rs
@@ -733,7 +733,9 @@ impl<'buffer> Processor<'buffer> {
                 core_count: Some(packed.core_count as u16),
                 core_enabled: Some(packed.core_enabled as u16),
                 thread_count: Some(packed.thread_count as u16),
-                processor_characteristics: None,
+                processor_characteristics: Some(ProcessorCharacteristics::from_bits_truncate(
+                    packed.processor_characteristics,
+                )),
             })
         } else if structure.version < (3, 0).into() || structure.data.len() < mem::size_of::<ProcessorPacked3_0>() {
             let_as_struct!(packed, ProcessorPacked2_6, structure.data);
-- 
2.43.0


From ad5c22143efa2d6f463c6c21c6711310f780304c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:41 +0000
Subject: [PATCH 08/25] fix: decode Cache structures of every version and
 length safely

Version 2.0 tables panicked in unreachable!(), 2.1 and 3.1 tables lost the
fields these versions introduced, and a formatted area shorter than the
layout of the declared version was read past its end.
---
 src/structures/007_cache.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/structures/007_cache.rs b/src/structures/007_cache.rs
index 7b1c8b7..f6623f6 100644
--- a/src/structures/007_cache.rs
+++ b/src/structures/007_cache.rs
@@ -6,10 +6,11 @@
 //! depending on the SMBIOS version.
 
 use core::fmt;
+use core::mem;
 
 use bitflags::bitflags;
 
-use crate::{MalformedStructureError, RawStructure};
+use crate::{InfoType, MalformedStructureError, RawStructure};
 
 /// The `Cache Information` table defined in the SMBIOS specification.
 ///
@@ -212,7 +213,7 @@ impl<'buffer> Cache<'buffer> {
         }
 
         match structure.version {
-            v if v > (3, 1).into() => {
+            v if v >= (3, 1).into() && structure.data.len() >= mem::size_of::<CachePacked3_1>() => {
                 let_as_struct!(packed, CachePacked3_1, structure.data);
                 Ok(Cache {
                     handle: structure.handle,
@@ -230,7 +231,7 @@ impl<'buffer> Cache<'buffer> {
                     installed_size_2: Some(packed.installed_size_2.into()),
                 })
             }
-            v if v > (2, 1).into() => {
+            v if v >= (2, 1).into() && structure.data.len() >= mem::size_of::<CachePacked2_1>() => {
                 let_as_struct!(packed, CachePacked2_1, structure.data);
                 Ok(Cache {
                     handle: structure.handle,
@@ -248,7 +249,7 @@ impl<'buffer> Cache<'buffer> {
                     installed_size_2: None,
                 })
             }
-            v if v > (2, 0).into() => {
+            _ if structure.data.len() >= mem::size_of::<CachePacked2_0>() => {
                 let_as_struct!(packed, CachePacked2_0, structure.data);
                 Ok(Cache {
                     handle: structure.handle,
@@ -266,7 +267,12 @@ impl<'buffer> Cache<'buffer> {
                     installed_size_2: None,
                 })
             }
-            _ => unreachable!(),
+            _ => Err(MalformedStructureError::InvalidFormattedSectionLength(
+                InfoType::Cache,
+                structure.handle,
+                "minimum of ",
+                0x0F,
+            )),
         }
     }
 }
-- 
2.43.0


From b81a72222590e11563611441d6c2f9495279c16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:43 +0000
Subject: [PATCH 09/25] fix: never read a PortConnector structure past its
 formatted area

---
 src/structures/008_port_connector.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/structures/008_port_connector.rs b/src/structures/008_port_connector.rs
index 07f2763..aaad514 100644
--- a/src/structures/008_port_connector.rs
+++ b/src/structures/008_port_connector.rs
@@ -5,9 +5,11 @@
 //! provided. One structure is present for each port provided by the system.
 
 use core::fmt;
+use core::mem;
 
 use crate::{
-    MalformedStructureError::{self},
+    InfoType,
+    MalformedStructureError::{self, InvalidFormattedSectionLength},
     RawStructure,
 };
 
@@ -136,6 +138,14 @@ impl<'a> PortConnector<'a> {
             external_connector_type: u8,
             port_type: u8,
         }
+        if structure.data.len() < mem::size_of::<PortConnectorPacked>() {
+            return Err(InvalidFormattedSectionLength(
+                InfoType::PortConnector,
+                structure.handle,
+                "minimum of ",
+                0x09,
+            ));
+        }
         let_as_struct!(packed, PortConnectorPacked, structure.data);
 
         Ok(PortConnector {
-- 
2.43.0


From cf130e0139c08da0315c73a0fa0364a9d7ef3974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:45 +0000
Subject: [PATCH 10/25] fix: never read a BiosLanguage structure past its
 formatted area

---
 src/structures/013_bios_language.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/structures/013_bios_language.rs b/src/structures/013_bios_language.rs
index 4879e47..5da8a2d 100644
--- a/src/structures/013_bios_language.rs
+++ b/src/structures/013_bios_language.rs
@@ -2,8 +2,10 @@
 //!
 //! The information in this structure defines the installable language attributes of the BIOS.
 
+use core::mem;
+
 use crate::bitfield::{BitField, FlagType, Layout};
-use crate::{MalformedStructureError, RawStructure};
+use crate::{InfoType, MalformedStructureError, RawStructure};
 
 /// The `BIOS Language Information` table defined in the SMBIOS specification.
 #[derive(Clone, Debug, Eq, Hash, PartialEq)]
@@ -48,6 +50,20 @@ impl<'a> BiosLanguage<'a> {
             current_language: u8,
         }
 
+        let minimum = if structure.version >= (2, 1).into() {
+            mem::size_of::<BiosLanguagePacked2_1>()
+        } else {
+            mem::size_of::<BiosLanguagePacked2_0>()
+        };
+        if structure.data.len() < minimum {
+            return Err(MalformedStructureError::InvalidFormattedSectionLength(
+                InfoType::BiosLanguage,
+                structure.handle,
+                "minimum of ",
+                minimum as u8 + 4,
+            ));
+        }
+
         match structure.version {
             v if v >= (2, 1).into() => {
                 let_as_struct!(packed, BiosLanguagePacked2_1, structure.data);
-- 
2.43.0


From fc2f3f4ee61d321c8834dcf7eca230d09a07d444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:47 +0000
Subject: [PATCH 11/25] fix: end the installable languages for good after the
 last string

The index kept advancing after the end: it overflowed after 255 calls, where
unchecked builds started over with an empty string and the list never ended,
and the list revived after a string that could not be read.
---
 src/structures/013_bios_language.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/structures/013_bios_language.rs b/src/structures/013_bios_language.rs
index 5da8a2d..9b2eac2 100644
--- a/src/structures/013_bios_language.rs
+++ b/src/structures/013_bios_language.rs
@@ -96,9 +96,13 @@ impl<'a> InstallableLanguages<'a> {
 impl<'a> Iterator for InstallableLanguages<'a> {
     type Item = &'a str;
     fn next(&mut self) -> Option<Self::Item> {
-        let index = self.index;
-        self.index += 1;
-        self.structure.find_string(index).ok()
+        // String numbers start at 1: the index wraps to 0 after the last possible string
+        if self.index == 0 {
+            return None;
+        }
+        let language = self.structure.find_string(self.index).ok()?;
+        self.index = self.index.wrapping_add(1);
+        Some(language)
     }
 }
 
-- 
2.43.0


From fe4307ffd2c3ff8e546feb1320aae516467dc1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:10 +0000
Subject: [PATCH 12/25] fix: resolve string references past unreadable text and
 end string lists for good

A string set with text that is not valid UTF-8 ended the string list once and
then resumed it, and made every string behind it unreachable by its number.
---
 src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index acd843a..2f79d9d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -630,8 +630,12 @@ impl<'buffer> RawStructure<'buffer> {
         if idx == 0 {
             Ok("")
         } else {
-            self.strings()
+            // Count every string, readable or not, so that unreadable text does not shift or hide the others
+            self.strings
+                .split(|elm| *elm == 0)
+                .take_while(|slice| !slice.is_empty())
                 .nth((idx - 1) as usize)
+                .and_then(|slice| str::from_utf8(slice).ok())
                 .ok_or(MalformedStructureError::InvalidStringIndex(self.info, self.handle, idx))
         }
     }
@@ -685,8 +689,9 @@ impl<'a> Iterator for StructureStrings<'a> {
             .split(|elm| *elm == 0)
             .nth(0)
             .filter(|slice| !slice.is_empty())?;
+        let string = str::from_utf8(slice).ok()?;
         self.start += slice.len() + 1;
-        str::from_utf8(slice).ok()
+        Some(string)
     }
 }
 
-- 
2.43.0


From fede101aa342e4882ac7cb93e28fa190450710ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:13 +0000
Subject: [PATCH 13/25] fix: report short physical memory arrays as errors and
 decode versions 2.1 and 2.7

A structure shorter than its fields panicked, and tables of version 2.1 or 2.7
lost all or the extended capacity, respectively.
---
 src/structures/016_physical_memory_array.rs | 32 +++++++++++----------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/structures/016_physical_memory_array.rs b/src/structures/016_physical_memory_array.rs
index c446863..d85a50f 100644
--- a/src/structures/016_physical_memory_array.rs
+++ b/src/structures/016_physical_memory_array.rs
@@ -196,23 +196,22 @@ pub struct PhysicalMemoryArray {
 
 impl PhysicalMemoryArray {
     pub(crate) fn try_from(structure: RawStructure) -> Result<Self, MalformedStructureError> {
-        let mut pma = PhysicalMemoryArray::default();
-        let mut mem_pointer = 0;
-        if structure.version > (2, 1).into() {
-            pma.handle = structure.handle;
-            pma.location = MemoryArrayLocation::from(structure.data[mem_pointer]);
-            mem_pointer += 1;
-            pma.r#use = MemoryArrayUse::from(structure.data[mem_pointer]);
-            mem_pointer += 1;
-            pma.memory_error_correction = MemoryArrayErrorCorrectionTypes::from(structure.data[mem_pointer]);
-            mem_pointer += 1;
+        let mut pma = PhysicalMemoryArray {
+            handle: structure.handle,
+            ..Default::default()
+        };
+        let mut mem_pointer = 3;
+        if structure.version >= (2, 1).into() {
+            pma.location = structure.get::<u8>(0x04)?.into();
+            pma.r#use = structure.get::<u8>(0x05)?.into();
+            pma.memory_error_correction = structure.get::<u8>(0x06)?.into();
             pma.maximum_capacity = get_optional_dword(&mut mem_pointer, structure.data, 0x80000000)?;
             pma.memory_error_information_handle = get_optional_word(&mut mem_pointer, structure.data, 0xFFFE)?;
             pma.number_of_memory_devices = get_word(&mut mem_pointer, structure.data)?;
         }
-        if structure.version > (2, 7).into() {
+        if structure.version >= (2, 7).into() {
             pma.extended_maximum_capacity = if pma.maximum_capacity.is_none() {
-                get_optional_qword(&mut mem_pointer, structure.data, 0)?
+                get_optional_qword(&mut mem_pointer, structure.data, 0).unwrap_or_default()
             } else {
                 None
             };
@@ -250,7 +249,8 @@ fn get_optional_word(pointer: &mut usize, data: &[u8], none_val: u16) -> Result<
 
 fn get_word(pointer: &mut usize, data: &[u8]) -> Result<u16, MalformedStructureError> {
     let word = u16::from_le_bytes(
-        data[*pointer..(*pointer + 2)]
+        data.get(*pointer..(*pointer + 2))
+            .unwrap_or(&[])
             .try_into()
             .map_err(MalformedStructureError::InvalidSlice)?,
     );
@@ -260,7 +260,8 @@ fn get_word(pointer: &mut usize, data: &[u8]) -> Result<u16, MalformedStructureE
 
 fn get_dword(pointer: &mut usize, data: &[u8]) -> Result<u32, MalformedStructureError> {
     let dword = u32::from_le_bytes(
-        data[*pointer..(*pointer + 4)]
+        data.get(*pointer..(*pointer + 4))
+            .unwrap_or(&[])
             .try_into()
             .map_err(MalformedStructureError::InvalidSlice)?,
     );
@@ -270,7 +271,8 @@ fn get_dword(pointer: &mut usize, data: &[u8]) -> Result<u32, MalformedStructure
 
 fn get_qword(pointer: &mut usize, data: &[u8]) -> Result<u64, MalformedStructureError> {
     let qword = u64::from_le_bytes(
-        data[*pointer..(*pointer + 8)]
+        data.get(*pointer..(*pointer + 8))
+            .unwrap_or(&[])
             .try_into()
             .map_err(MalformedStructureError::InvalidSlice)?,
     );
-- 
2.43.0


From 5ddc3cbf258e22ec90f7433459f4702b0407b46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:15 +0000
Subject: [PATCH 14/25] fix: reject a group associations structure without a
 group name instead of overflowing

---
 src/structures/014_group_associations.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/structures/014_group_associations.rs b/src/structures/014_group_associations.rs
index e78e9f7..a051cae 100644
--- a/src/structures/014_group_associations.rs
+++ b/src/structures/014_group_associations.rs
@@ -41,15 +41,15 @@ pub struct GroupItem {
 impl<'a> GroupAssociations<'a> {
     pub(crate) fn try_from(structure: RawStructure<'a>) -> Result<Self, MalformedStructureError> {
         let handle = structure.handle;
-        let slice =
-            structure
-                .get_slice(0x05, structure.length as usize - 0x05)
-                .ok_or(InvalidFormattedSectionLength(
-                    InfoType::GroupAssociations,
-                    handle,
-                    "",
-                    structure.length,
-                ))?;
+        let slice = (structure.length as usize)
+            .checked_sub(0x05)
+            .and_then(|size| structure.get_slice(0x05, size))
+            .ok_or(InvalidFormattedSectionLength(
+                InfoType::GroupAssociations,
+                handle,
+                "",
+                structure.length,
+            ))?;
         Ok(GroupAssociations {
             handle,
             group_name: structure.get_string(0x04)?,
-- 
2.43.0


From 92e351369034644357723a5593b8077e434b130a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:17 +0000
Subject: [PATCH 15/25] fix: accept an event log with descriptors of size zero
 instead of panicking

---
 src/structures/015_system_event_log/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/structures/015_system_event_log/mod.rs b/src/structures/015_system_event_log/mod.rs
index 0c8711b..0cfcb24 100644
--- a/src/structures/015_system_event_log/mod.rs
+++ b/src/structures/015_system_event_log/mod.rs
@@ -356,7 +356,8 @@ impl fmt::Display for LogHeaderFormat {
 
 impl<'a> SupportedEventLogTypeDescriptors<'a> {
     fn new(data: &'a [u8], size: usize) -> Self {
-        Self(data.chunks(size))
+        // A descriptor size of zero comes with no data
+        Self(data.chunks(size.max(1)))
     }
 }
 impl PartialEq for SupportedEventLogTypeDescriptors<'_> {
-- 
2.43.0


From 0ce32bf33a4f1649de83b9381413562407db34dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:21 +0000
Subject: [PATCH 16/25] fix: never read contained elements past their records

The total size overflowed its byte, and records shorter than three bytes were
read past their end.
---
 src/structures/003_enclosure.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/structures/003_enclosure.rs b/src/structures/003_enclosure.rs
index a50ede4..e35e832 100644
--- a/src/structures/003_enclosure.rs
+++ b/src/structures/003_enclosure.rs
@@ -421,7 +421,7 @@ impl<'buffer> ContainedElements<'buffer> {
             });
         }
 
-        let length = (count * record_length) as usize;
+        let length = count as usize * record_length as usize;
         let chunks = data.get(0..length)?.chunks(record_length as usize);
         *data = &data[length..];
         Some(Self {
@@ -455,10 +455,17 @@ impl Iterator for ContainedElements<'_> {
     type Item = ContainedElement;
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.chunks.next().map(|a| a.into())
+        self.chunks
+            .next()
+            .filter(|a| a.len() >= ContainedElement::SIZE)
+            .map(|a| a.into())
     }
 }
 
+impl ContainedElement {
+    /// Size in bytes of the part of a record that is defined by the specification
+    const SIZE: usize = 3;
+}
 impl From<&[u8]> for ContainedElement {
     fn from(data: &[u8]) -> ContainedElement {
         #[repr(C)]
@@ -468,6 +475,7 @@ impl From<&[u8]> for ContainedElement {
             minimum: u8,
             maximum: u8,
         }
+        assert!(data.len() >= ContainedElement::SIZE);
         let_as_struct!(packed, ContainedElement2_3, data);
         ContainedElement {
             type_: packed.type_.into(),
-- 
2.43.0


From 371294b1194d231515afd6c695dde92265831967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:23 +0000
Subject: [PATCH 17/25] fix: never read a peer device past its record

---
 src/structures/009_system_slots.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/structures/009_system_slots.rs b/src/structures/009_system_slots.rs
index 3e32189..b3bc9bd 100644
--- a/src/structures/009_system_slots.rs
+++ b/src/structures/009_system_slots.rs
@@ -797,6 +797,7 @@ impl From<u8> for SlotCharacteristics2 {
 
 impl<'a> From<&'a [u8]> for Device {
     fn from(data: &'a [u8]) -> Device {
+        assert!(data.len() >= core::mem::size_of::<DevicePacked>());
         let_as_struct!(packed, DevicePacked, data);
         Device {
             segment_group_number: packed.segment_group_number,
@@ -863,7 +864,10 @@ impl Iterator for PeerDevices<'_> {
     type Item = Device;
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.0.next().map(Into::into)
+        self.0
+            .next()
+            .filter(|chunk| chunk.len() >= core::mem::size_of::<DevicePacked>())
+            .map(Into::into)
     }
 }
 
-- 
2.43.0


From 0e7ae1b39ca268910fa0181c585db32d5121567a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:26 +0000
Subject: [PATCH 18/25] fix: convert every ROM size to a number instead of
 panicking

A size of 16 MiB or more without the extended size, or with a reserved unit,
aborted the caller. Both stand for at least 16 MiB.
---
 src/structures/000_bios.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/structures/000_bios.rs b/src/structures/000_bios.rs
index 2b4d666..466b49f 100644
--- a/src/structures/000_bios.rs
+++ b/src/structures/000_bios.rs
@@ -334,10 +334,11 @@ impl From<RomSize> for u64 {
             match unit {
                 0b00 => size << 20,
                 0b01 => size << 30,
-                _ => unimplemented!(),
+                // Reserved units: only the lower bound given by the basic size is known
+                _ => 16 << 20,
             }
         } else {
-            unreachable!();
+            16 << 20
         }
     }
 }
-- 
2.43.0


From 5d838471ba1d0c98794be066b0692711d4a98aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:28 +0000
Subject: [PATCH 19/25] fix: convert large battery capacities without overflow

---
 src/structures/022_portable_battery.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structures/022_portable_battery.rs b/src/structures/022_portable_battery.rs
index c1d4600..21676a5 100644
--- a/src/structures/022_portable_battery.rs
+++ b/src/structures/022_portable_battery.rs
@@ -236,7 +236,7 @@ impl From<DesignCapacity> for u64 {
     fn from(dc: DesignCapacity) -> Self {
         match dc {
             DesignCapacity::Unknown => 0,
-            DesignCapacity::Data { value, multiplier } => (value * multiplier as u16).into(),
+            DesignCapacity::Data { value, multiplier } => value as u64 * multiplier as u64,
         }
     }
 }
-- 
2.43.0


From 4f15c3ada63e94921a7894e6fbebf751771fabcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:43 +0000
Subject: [PATCH 20/25] fix: read the memory form factor codes as the
 specification numbers them

Codes 1 to 8 were reported as their successor (for example SIMM as SIP).
---
 src/structures/017_memory_device.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/structures/017_memory_device.rs b/src/structures/017_memory_device.rs
index 41cea72..1774b77 100644
--- a/src/structures/017_memory_device.rs
+++ b/src/structures/017_memory_device.rs
@@ -122,15 +122,14 @@ pub enum FormFactor {
 impl From<u8> for FormFactor {
     fn from(_type: u8) -> FormFactor {
         match _type {
-            0 => FormFactor::Other,
-            1 => FormFactor::Unknown,
-            2 => FormFactor::Simm,
-            3 => FormFactor::Sip,
-            4 => FormFactor::Chip,
-            5 => FormFactor::Dip,
-            6 => FormFactor::Zip,
-            7 => FormFactor::ProprietaryCard,
-            8 => FormFactor::Dimm,
+            1 => FormFactor::Other,
+            2 => FormFactor::Unknown,
+            3 => FormFactor::Simm,
+            4 => FormFactor::Sip,
+            5 => FormFactor::Chip,
+            6 => FormFactor::Dip,
+            7 => FormFactor::Zip,
+            8 => FormFactor::ProprietaryCard,
             9 => FormFactor::Dimm,
             10 => FormFactor::Tsop,
             11 => FormFactor::RowOfChips,
-- 
2.43.0


From c9e1d5c02510da2d07444d1a159fd513c2717e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:45 +0000
Subject: [PATCH 21/25] fix: read the PC-98 and CXL memory array locations from
 their specified codes

---
 src/structures/016_physical_memory_array.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/structures/016_physical_memory_array.rs b/src/structures/016_physical_memory_array.rs
index d85a50f..54916c4 100644
--- a/src/structures/016_physical_memory_array.rs
+++ b/src/structures/016_physical_memory_array.rs
@@ -42,11 +42,11 @@ impl From<u8> for MemoryArrayLocation {
             8 => Self::PcmciaAddOnCard,
             9 => Self::ProprietaryAddOnCard,
             10 => Self::NuBus,
-            11 => Self::Pc98c20AddOnCard,
-            12 => Self::Pc98c24AddOnCard,
-            13 => Self::Pc98eAddOnCard,
-            14 => Self::Pc98LocalBusAddOnCard,
-            15 => Self::CxlAddOnCard,
+            0xA0 => Self::Pc98c20AddOnCard,
+            0xA1 => Self::Pc98c24AddOnCard,
+            0xA2 => Self::Pc98eAddOnCard,
+            0xA3 => Self::Pc98LocalBusAddOnCard,
+            0xA4 => Self::CxlAddOnCard,
             t => Self::Undefined(t),
         }
     }
-- 
2.43.0


From 9b522f4225e06c66f46ad00c54e298e95e87cbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:47 +0000
Subject: [PATCH 22/25] fix: report U.2 slots as U.2 slots

---
 src/structures/009_system_slots.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/structures/009_system_slots.rs b/src/structures/009_system_slots.rs
index b3bc9bd..d784a2e 100644
--- a/src/structures/009_system_slots.rs
+++ b/src/structures/009_system_slots.rs
@@ -437,13 +437,13 @@ impl From<u8> for SlotType {
             0x1C => SlotType::MxmType4,
             0x1D => SlotType::Mxm3TypeA,
             0x1E => SlotType::Mxm3TypeB,
-            0x1F => SlotType::PciExpressGen2,
-            0x20 => SlotType::PciExpressGen3,
+            0x1F => SlotType::U2PciExpressGen2,
+            0x20 => SlotType::U2PciExpressGen3,
             0x21 => SlotType::PciExpressMini52pin1,
             0x22 => SlotType::PciExpressMini52pin2,
             0x23 => SlotType::PciExpressMini76pin,
-            0x24 => SlotType::PciExpressGen4,
-            0x25 => SlotType::PciExpressGen5,
+            0x24 => SlotType::U2PciExpressGen4,
+            0x25 => SlotType::U2PciExpressGen5,
             0x26 => SlotType::OcpNic3Small,
             0x27 => SlotType::OcpNic3Large,
             0x28 => SlotType::OcpNicPriorTo3,
-- 
2.43.0


From 3da9bb5438b2dddc1ab6f56c0832f1122be2dbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:33 +0000
Subject: [PATCH 23/25] fix: report one-bit reserved runs that follow another
 reserved run

The range of such a run ended at bit 0.
---
 src/bitfield.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bitfield.rs b/src/bitfield.rs
index 9272f3a..75fbaa9 100644
--- a/src/bitfield.rs
+++ b/src/bitfield.rs
@@ -291,7 +291,8 @@ impl<'a, T> Reserved<'a, T> {
 impl<'a, T: Into<u128> + Copy + fmt::Debug> Iterator for Reserved<'a, T> {
     type Item = ReservedRange<'a>;
     fn next(&mut self) -> Option<Self::Item> {
-        let mut end = 0;
+        // A run found by the previous call already reaches to its start
+        let mut end = self.start;
         for Flag {
             position: Position(p),
             type_,
-- 
2.43.0


From 9961308e1f4509f3ace35296f759842e9728e54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:51 +0000
Subject: [PATCH 24/25] fix: raw accessors report offsets outside the formatted
 area instead of overflowing

---
 src/lib.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2f79d9d..05240ae 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -651,15 +651,14 @@ impl<'buffer> RawStructure<'buffer> {
     /// section* it may be ignored to return [None] value of structure field. In this case *Formatted
     /// section* length automatically hide non-existing values
     pub fn get<T: TryFromBytes<'buffer, T>>(&self, offset: usize) -> Result<T, MalformedStructureError> {
-        // Ignore header
-        let start = offset - 4;
-        let size = core::mem::size_of::<T>();
-        let slice = self.data.get(start..(start + size)).unwrap_or(&[]);
+        let slice = self.get_slice(offset, core::mem::size_of::<T>()).unwrap_or(&[]);
         TryFromBytes::try_from_bytes(slice).map_err(MalformedStructureError::InvalidSlice)
     }
     /// Wrapper to self.data.get(..) with header offset correction
     pub fn get_slice(&self, offset: usize, size: usize) -> Option<&'buffer [u8]> {
-        self.data.get(offset - 4..offset - 4 + size)
+        // Ignore header
+        let start = offset.checked_sub(4)?;
+        self.data.get(start..start.checked_add(size)?)
     }
     /// Get *STRING* by offset declared in SMBIOS Reference Specification
     pub fn get_string(&self, offset: usize) -> Result<&'buffer str, MalformedStructureError> {
-- 
2.43.0


From 1eb00836183ee7c13fba6b14295fb63c3164630d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:55 +0000
Subject: [PATCH 25/25] fix: event log descriptors longer than two bytes are
 reported

The specification reserves longer descriptors for later additions and asks
readers not to assume their length; the iterator yielded nothing for them.
---
 src/structures/015_system_event_log/mod.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/structures/015_system_event_log/mod.rs b/src/structures/015_system_event_log/mod.rs
index 0cfcb24..5f4d4d5 100644
--- a/src/structures/015_system_event_log/mod.rs
+++ b/src/structures/015_system_event_log/mod.rs
@@ -10,7 +10,6 @@
 //! changed, the application can retrieve the entire event log and determine the changes since the
 //! last time it read the event log.
 
-use core::convert::TryInto;
 use core::fmt;
 use core::hash::{Hash, Hasher};
 use core::slice::Chunks;
@@ -375,11 +374,14 @@ impl Iterator for SupportedEventLogTypeDescriptors<'_> {
     type Item = EventLogTypeDescriptor;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let next = self.0.next()?;
-        next.try_into().ok().map(|a: [u8; 2]| EventLogTypeDescriptor {
-            log_type: a[0].into(),
-            variable_data_format_type: a[1].into(),
-        })
+        // A descriptor may be longer than the two bytes that are defined so far
+        match *self.0.next()? {
+            [log_type, variable_data_format_type, ..] => Some(EventLogTypeDescriptor {
+                log_type: log_type.into(),
+                variable_data_format_type: variable_data_format_type.into(),
+            }),
+            _ => None,
+        }
     }
 }
 
-- 
2.43.0

