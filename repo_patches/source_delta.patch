From 5c4d98c9f1c86fd656a35dc8457b63b5e5a4b17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:12 +0000
Subject: [PATCH 01/16] fix: masked fingerprints repeat after 256 distinct
 certificates

to_byte_vec shifted the wrong way, so only the low byte of the counter
reached the masked value.
---
 src/anonymizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/anonymizer.rs b/src/anonymizer.rs
index a3d4d50..ce23a43 100644
--- a/src/anonymizer.rs
+++ b/src/anonymizer.rs
@@ -22,7 +22,7 @@ impl ToBytesVec for u64 {
         let mut val = *self;
         for _ in 0..8 {
             bytes.push(val as u8);
-            val <<= 8;
+            val >>= 8;
         }
         bytes.reverse();
         bytes
-- 
2.43.0


From ebc79bd86d860ce2e3a7cac8612830e0a870402e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:15 +0000
Subject: [PATCH 02/16] fix: masked_clone of a session drops its media sections

---
 src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 967ab22..0c7cbda 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -391,6 +391,9 @@ impl AnonymizingClone for SdpSession {
         for i in &self.attribute {
             masked.attribute.push(i.masked_clone(anon));
         }
+        for m in &self.media {
+            masked.media.push(m.masked_clone(anon));
+        }
         masked
     }
 }
-- 
2.43.0


From e0651f193f0eccd28f535b47b93906b37712f2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:17 +0000
Subject: [PATCH 03/16] fix: masked_clone of a media section leaves its c=
 address unmasked

---
 src/media_type.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/media_type.rs b/src/media_type.rs
index 91a11c6..8103d94 100644
--- a/src/media_type.rs
+++ b/src/media_type.rs
@@ -300,7 +300,7 @@ impl AnonymizingClone for SdpMedia {
         let mut masked = SdpMedia {
             media: self.media.clone(),
             bandwidth: self.bandwidth.clone(),
-            connection: self.connection.clone(),
+            connection: self.connection.as_ref().map(|c| c.masked_clone(anon)),
             attribute: Vec::new(),
         };
         for i in &self.attribute {
-- 
2.43.0


From 5255df17f1059f40dd8c4a38e30a5c59cdc32e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:52 +0000
Subject: [PATCH 04/16] fix: masked_clone leaves the address of a=rtcp unmasked

---
 src/attribute_type.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index b3de496..bc4b074 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -463,6 +463,17 @@ impl fmt::Display for SdpAttributeRtcp {
     }
 }
 
+impl AnonymizingClone for SdpAttributeRtcp {
+    fn masked_clone(&self, anon: &mut StatefulSdpAnonymizer) -> Self {
+        let mut masked = self.clone();
+        masked.unicast_addr = self
+            .unicast_addr
+            .as_ref()
+            .map(|addr| anon.mask_typed_address(addr));
+        masked
+    }
+}
+
 #[derive(Clone)]
 #[cfg_attr(feature = "serialize", derive(Serialize))]
 #[cfg_attr(feature = "enhanced_debug", derive(Debug))]
@@ -1581,6 +1592,7 @@ impl AnonymizingClone for SdpAttribute {
             SdpAttribute::IcePwd(i) => SdpAttribute::IcePwd(anon.mask_ice_password(i)),
             SdpAttribute::IceUfrag(i) => SdpAttribute::IceUfrag(anon.mask_ice_user(i)),
             SdpAttribute::RemoteCandidate(i) => SdpAttribute::RemoteCandidate(i.masked_clone(anon)),
+            SdpAttribute::Rtcp(i) => SdpAttribute::Rtcp(i.masked_clone(anon)),
             SdpAttribute::Ssrc(i) => SdpAttribute::Ssrc(i.masked_clone(anon)),
             _ => self.clone(),
         }
-- 
2.43.0


From 60d241897ba7b496b535a58203da1435fb9062e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:55 +0000
Subject: [PATCH 05/16] fix: masked_clone leaves the ufrag of a candidate
 unmasked

---
 src/attribute_type.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index bc4b074..77c0e46 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -298,6 +298,10 @@ impl AnonymizingClone for SdpAttributeCandidate {
             .clone()
             .map(|addr| anonymizer.mask_address(&addr));
         masked.rport = self.rport.map(|port| anonymizer.mask_port(port));
+        masked.ufrag = self
+            .ufrag
+            .as_ref()
+            .map(|ufrag| anonymizer.mask_ice_user(ufrag));
         masked
     }
 }
-- 
2.43.0


From 77ff73e3e840834cb972def7e049f1d97ec21ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:58 +0000
Subject: [PATCH 06/16] fix: unknown fmtp parameters are joined by ',' instead
 of ';'

---
 src/attribute_type.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 77c0e46..b4215fa 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -715,7 +715,7 @@ impl fmt::Display for SdpAttributeFmtpParameters {
                 maybe_print_bool_param("stereo", self.stereo, false),
                 maybe_print_bool_param("useinbandfec", self.useinbandfec, false),
                 maybe_print_bool_param("cbr", self.cbr, false),
-                maybe_vector_to_string!("{}", self.unknown_tokens, ",")
+                maybe_vector_to_string!("{}", self.unknown_tokens, ";")
             ]
             .join(";")
         )
-- 
2.43.0


From 8ab8012da4a13552d9937549598b9f4cdc57a120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:02 +0000
Subject: [PATCH 07/16] fix: a list whose items all print as nothing renders an
 empty line

A section whose only attribute is an fmtp with default values was
rendered as "a=", which does not parse again.
---
 src/attribute_type.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index b4215fa..c21ff76 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -40,16 +40,14 @@ macro_rules! write_option_string {
 #[macro_export]
 macro_rules! maybe_vector_to_string {
     ($fmt_str:expr, $vec:expr, $sep:expr) => {
-        match $vec.len() {
-            0 => "".to_string(),
-            _ => format!(
-                $fmt_str,
-                $vec.iter()
-                    .map(ToString::to_string)
-                    .filter(|s| !s.is_empty())
-                    .collect::<Vec<String>>()
-                    .join($sep)
-            ),
+        match $vec
+            .iter()
+            .map(ToString::to_string)
+            .filter(|s| !s.is_empty())
+            .collect::<Vec<String>>()
+        {
+            strings if strings.is_empty() => "".to_string(),
+            strings => format!($fmt_str, strings.join($sep)),
         }
     };
 }
-- 
2.43.0


From feb4be4c1cc96a4f22f900be2c35253c0f7cbdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:04 +0000
Subject: [PATCH 08/16] fix: imageattr parsing copies the remaining tokens for
 every set

Memory traffic grew with the square of the line length.
---
 src/attribute_type.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index c21ff76..d57f16f 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -2680,7 +2680,7 @@ fn parse_image_attr_set_list<I>(
     tokens: &mut iter::Peekable<I>,
 ) -> Result<SdpAttributeImageAttrSetList, SdpParserInternalError>
 where
-    I: Iterator<Item = String> + Clone,
+    I: Iterator<Item = String>,
 {
     let parse_set = |set_token: &str| -> Result<SdpAttributeImageAttrSet, SdpParserInternalError> {
         parse_image_attr_set(parse_imagettr_braced_token(set_token).ok_or_else(|| {
@@ -2700,7 +2700,7 @@ where
         "*" => Ok(SdpAttributeImageAttrSetList::Wildcard),
         x => {
             let mut sets = vec![parse_set(x)?];
-            while let Some(set_str) = tokens.clone().peek() {
+            while let Some(set_str) = tokens.peek() {
                 if set_str.starts_with('[') {
                     sets.push(parse_set(&tokens.next().unwrap())?);
                 } else {
-- 
2.43.0


From 5122c5587f0712c7e87c36e7157f89ede42a7988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:06 +0000
Subject: [PATCH 09/16] fix: valid descriptions shorter than 51 bytes are
 rejected

This includes what the crate itself renders for a session without
media sections and with short origin fields.
---
 src/lib.rs | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0c7cbda..0786240 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -830,14 +830,6 @@ pub fn parse_sdp(sdp: &str, fail_on_warning: bool) -> Result<SdpSession, SdpPars
             line_number: 0,
         });
     }
-    // see test_parse_sdp_minimal_sdp_successfully
-    if sdp.len() < 51 {
-        return Err(SdpParserError::Line {
-            error: SdpParserInternalError::Generic("string too short to be valid SDP".to_string()),
-            line: sdp.to_string(),
-            line_number: 0,
-        });
-    }
     let lines = sdp.lines();
     let mut errors: Vec<SdpParserError> = Vec::new();
     let mut warnings: Vec<SdpParserError> = Vec::new();
-- 
2.43.0


From 6b5347113075a717dae754e869b365ec8d010a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:08 +0000
Subject: [PATCH 10/16] fix: only the first simulcast attribute of a section
 has its rids checked

---
 src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0786240..93ac416 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -743,8 +743,13 @@ fn sanity_check_sdp_session(session: &SdpSession) -> Result<(), SdpParserError>
             }
         }
 
-        if let Some(SdpAttribute::Simulcast(simulcast)) =
-            msection.get_attribute(SdpAttributeType::Simulcast)
+        for simulcast in msection
+            .get_attributes()
+            .iter()
+            .filter_map(|attr| match *attr {
+                SdpAttribute::Simulcast(ref simulcast) => Some(simulcast),
+                _ => None,
+            })
         {
             let check_defined_rids =
                 |simulcast_version_list: &Vec<SdpAttributeSimulcastVersion>,
-- 
2.43.0


From d2ad36c7ff837c3708f467beb7b412de3f470d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:11 +0000
Subject: [PATCH 11/16] fix: an fmtp with apt= renders without its other
 parameters

---
 src/attribute_type.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index d57f16f..bdab737 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -654,10 +654,6 @@ pub struct SdpAttributeFmtpParameters {
 
 impl fmt::Display for SdpAttributeFmtpParameters {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        if let Some(ref rtx) = self.rtx {
-            // rtx
-            return write!(f, "{rtx}");
-        }
         if !self.dtmf_tones.is_empty() {
             // telephone-event
             return write!(f, "{}", self.dtmf_tones);
@@ -675,6 +671,7 @@ impl fmt::Display for SdpAttributeFmtpParameters {
             f,
             "{}",
             non_empty_string_vec![
+                option_to_string!("{}", self.rtx),
                 maybe_print_param(
                     "profile-level-id=",
                     format!("{:06x}", self.profile_level_id),
-- 
2.43.0


From d2a6ddf29e3a282b80f13723a28ae5451b4dd553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:15 +0000
Subject: [PATCH 12/16] fix: a blank after ';' turns a known fmtp parameter
 into an unknown one

---
 src/attribute_type.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index bdab737..82ed53e 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -2161,6 +2161,7 @@ fn parse_fmtp(to_parse: &str) -> Result<SdpAttribute, SdpParserInternalError> {
             // Permit Leading/Trailing/Inner ';' by filtering out empty splits
             let parameter_tokens: Vec<&str> = parameter_token
                 .split(';')
+                .map(str::trim)
                 .filter(|token| !token.is_empty())
                 .collect();
             for parameter_token in parameter_tokens.iter() {
-- 
2.43.0


From c1e3e0d115efef306b29a3a78a19806e1ac27f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:00 +0000
Subject: [PATCH 13/16] fix: reading takes time quadratic in the number of
 lines

---
 src/lib.rs        | 3 +--
 src/media_type.rs | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 93ac416..2c43a17 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -304,8 +304,7 @@ impl SdpSession {
     }
 
     pub fn parse_session_vector(&mut self, lines: &mut Vec<SdpLine>) -> Result<(), SdpParserError> {
-        while !lines.is_empty() {
-            let line = lines.remove(0);
+        for line in lines.drain(..) {
             match line.sdp_type {
                 SdpType::Attribute(a) => {
                     let _line_number = line.line_number;
diff --git a/src/media_type.rs b/src/media_type.rs
index 8103d94..f2dd2f0 100644
--- a/src/media_type.rs
+++ b/src/media_type.rs
@@ -420,8 +420,7 @@ pub fn parse_media_vector(lines: &mut Vec<SdpLine>) -> Result<Vec<SdpMedia>, Sdp
         }
     };
 
-    while !lines.is_empty() {
-        let line = lines.remove(0);
+    for line in lines.drain(..) {
         let _line_number = line.line_number;
         match line.sdp_type {
             SdpType::Connection(c) => {
-- 
2.43.0


From ad0bcaff76f64202f568c3dc14edbed423e9b66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:09 +0000
Subject: [PATCH 14/16] fix: rid and simulcast checks compare every pair

---
 src/lib.rs | 39 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2c43a17..2702640 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -12,6 +12,7 @@ extern crate log;
 extern crate serde_derive;
 #[cfg(feature = "serialize")]
 extern crate serde;
+use std::collections::HashSet;
 use std::convert::TryFrom;
 use std::fmt;
 
@@ -708,14 +709,14 @@ fn sanity_check_sdp_session(session: &SdpSession) -> Result<(), SdpParserError>
                 _ => None,
             })
             .collect();
-        let recv_rids: Vec<&str> = rids
+        let recv_rids: HashSet<&str> = rids
             .iter()
             .filter_map(|rid| match rid.direction {
                 SdpSingleDirection::Recv => Some(rid.id.as_str()),
                 _ => None,
             })
             .collect();
-        let send_rids: Vec<&str> = rids
+        let send_rids: HashSet<&str> = rids
             .iter()
             .filter_map(|rid| match rid.direction {
                 SdpSingleDirection::Send => Some(rid.id.as_str()),
@@ -723,23 +724,21 @@ fn sanity_check_sdp_session(session: &SdpSession) -> Result<(), SdpParserError>
             })
             .collect();
 
-        for rid_format in rids.iter().flat_map(|rid| &rid.formats) {
-            match *msection.get_formats() {
-                SdpFormatList::Integers(ref int_fmt) => {
-                    if !int_fmt.contains(&(u32::from(*rid_format))) {
-                        return Err(make_seq_error(
-                            "Rid pts must be declared in the media section",
-                        ));
-                    }
-                }
-                SdpFormatList::Strings(ref str_fmt) => {
-                    if !str_fmt.contains(&rid_format.to_string()) {
-                        return Err(make_seq_error(
-                            "Rid pts must be declared in the media section",
-                        ));
-                    }
-                }
+        let mut rid_formats = rids.iter().flat_map(|rid| &rid.formats);
+        let all_declared = match *msection.get_formats() {
+            SdpFormatList::Integers(ref int_fmt) => {
+                let declared: HashSet<u32> = int_fmt.iter().copied().collect();
+                rid_formats.all(|fmt| declared.contains(&u32::from(*fmt)))
             }
+            SdpFormatList::Strings(ref str_fmt) => {
+                let declared: HashSet<&str> = str_fmt.iter().map(String::as_str).collect();
+                rid_formats.all(|fmt| declared.contains(fmt.to_string().as_str()))
+            }
+        };
+        if !all_declared {
+            return Err(make_seq_error(
+                "Rid pts must be declared in the media section",
+            ));
         }
 
         for simulcast in msection
@@ -752,10 +751,10 @@ fn sanity_check_sdp_session(session: &SdpSession) -> Result<(), SdpParserError>
         {
             let check_defined_rids =
                 |simulcast_version_list: &Vec<SdpAttributeSimulcastVersion>,
-                 rid_ids: &[&str]|
+                 rid_ids: &HashSet<&str>|
                  -> Result<(), SdpParserError> {
                     for simulcast_rid in simulcast_version_list.iter().flat_map(|x| &x.ids) {
-                        if !rid_ids.contains(&simulcast_rid.id.as_str()) {
+                        if !rid_ids.contains(simulcast_rid.id.as_str()) {
                             return Err(make_seq_error(
                                 "Simulcast RIDs must be defined in any rid attribute",
                             ));
-- 
2.43.0


From 7d3950f3539752b7288fd03afb07afb1b4f1d668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:07 +0000
Subject: [PATCH 15/16] fix: render simulcast lists that contain '=' so that
 they can be read again

---
 src/attribute_type.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 82ed53e..9e88ccd 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -426,12 +426,17 @@ pub struct SdpAttributeSimulcast {
 
 impl fmt::Display for SdpAttributeSimulcast {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        non_empty_string_vec![
-            maybe_vector_to_string!("send {}", self.send, ";"),
-            maybe_vector_to_string!("recv {}", self.receive, ";")
-        ]
-        .join(" ")
-        .fmt(f)
+        // A list with a '=' in it is only understood after an id type
+        let list = |direction: &str, versions: &[SdpAttributeSimulcastVersion]| {
+            match maybe_vector_to_string!("{}", versions, ";").as_str() {
+                "" => String::new(),
+                ids if ids.contains('=') => format!("{direction} rid={ids}"),
+                ids => format!("{direction} {ids}"),
+            }
+        };
+        non_empty_string_vec![list("send", &self.send), list("recv", &self.receive)]
+            .join(" ")
+            .fmt(f)
     }
 }
 
-- 
2.43.0


From a74283c8ae1cc142eeac1cd45ca5950f3ce40262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:07 +0000
Subject: [PATCH 16/16] fix: reject a rid pt parameter that is not first
 instead of keeping it as unknown

---
 src/attribute_type.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 9e88ccd..7d40b5f 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -2973,6 +2973,11 @@ fn parse_rid(to_parse: &str) -> Result<SdpAttribute, SdpParserInternalError> {
                 "depends" => {
                     depends.extend(param_value_pair[1].split(',').map(ToString::to_string));
                 }
+                "pt" => {
+                    return Err(SdpParserInternalError::Generic(
+                        "The 'pt' parameter must be the first rid parameter".to_string(),
+                    ));
+                }
                 _ => params.unknown.push(param.to_string()),
             }
         }
-- 
2.43.0

