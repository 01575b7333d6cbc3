From 53b08611815cc0c06da42c3e7140c6e3d9434e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:18 +0000
Subject: [PATCH 01/12] fix: parse the NAMESPACE capability as
 Capability::Namespace

---
 imap-types/src/response.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/imap-types/src/response.rs b/imap-types/src/response.rs
index 9517dd4..e36514b 100644
--- a/imap-types/src/response.rs
+++ b/imap-types/src/response.rs
@@ -1231,6 +1231,8 @@ impl<'a> From<Atom<'a>> for Capability<'a> {
             #[cfg(feature = "ext_condstore_qresync")]
             "qresync" => Self::QResync,
             "uidplus" => Self::UidPlus,
+            #[cfg(feature = "ext_namespace")]
+            "namespace" => Self::Namespace,
             #[cfg(feature = "ext_utf8")]
             "utf8=accept" => Self::Utf8(Utf8Kind::Accept),
             #[cfg(feature = "ext_utf8")]
-- 
2.43.0


From 3beef450076e601ea98692fdf7a628f712550b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:18 +0000
Subject: [PATCH 02/12] fix: require the RES- prefix and keep the resource name
 in QUOTA=RES-<name>

---
 imap-types/src/response.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/imap-types/src/response.rs b/imap-types/src/response.rs
index e36514b..e9759fb 100644
--- a/imap-types/src/response.rs
+++ b/imap-types/src/response.rs
@@ -1254,12 +1254,12 @@ impl<'a> From<Atom<'a>> for Capability<'a> {
                             }
                         }
                         "quota" => {
-                            if let Some((_, right)) =
-                                right.as_ref().to_ascii_lowercase().split_once("res-")
-                            {
-                                // TODO(efficiency)
-                                if let Ok(resource) = Resource::try_from(right.to_owned()) {
-                                    return Self::QuotaRes(resource);
+                            if let (Some(prefix), Some(name)) = (right.get(..4), right.get(4..)) {
+                                if prefix.eq_ignore_ascii_case("res-") {
+                                    // TODO(efficiency)
+                                    if let Ok(resource) = Resource::try_from(name.to_owned()) {
+                                        return Self::QuotaRes(resource);
+                                    }
                                 }
                             }
                         }
-- 
2.43.0


From 4bf318172f5f258d7d05cec22756d7ec7462c648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:18 +0000
Subject: [PATCH 03/12] fix: parse SCRAM-SHA3-512(-PLUS) as predefined
 mechanisms

---
 imap-types/src/auth.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/imap-types/src/auth.rs b/imap-types/src/auth.rs
index 3a7ed8a..1847b95 100644
--- a/imap-types/src/auth.rs
+++ b/imap-types/src/auth.rs
@@ -157,6 +157,8 @@ impl<'a> From<Atom<'a>> for AuthMechanism<'a> {
             "SCRAM-SHA-1-PLUS" => Self::ScramSha1Plus,
             "SCRAM-SHA-256" => Self::ScramSha256,
             "SCRAM-SHA-256-PLUS" => Self::ScramSha256Plus,
+            "SCRAM-SHA3-512" => Self::ScramSha3_512,
+            "SCRAM-SHA3-512-PLUS" => Self::ScramSha3_512Plus,
             _ => Self::Other(AuthMechanismOther(atom)),
         }
     }
-- 
2.43.0


From 6058c81865c70beefca6a90387de2a640d00ca72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:18 +0000
Subject: [PATCH 04/12] fix: keep the start of a Range<NonZeroU32> when
 converting to a Sequence

---
 imap-types/src/sequence.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/imap-types/src/sequence.rs b/imap-types/src/sequence.rs
index 73d70b0..e25fcf2 100644
--- a/imap-types/src/sequence.rs
+++ b/imap-types/src/sequence.rs
@@ -594,7 +594,7 @@ impl TryFrom<Range<NonZeroU32>> for Sequence {
 
     fn try_from(range: Range<NonZeroU32>) -> Result<Self, Self::Error> {
         Ok(Self::Range(
-            SeqOrUid::from(MIN),
+            SeqOrUid::from(range.start),
             SeqOrUid::try_from(range.end.get().saturating_sub(1))?,
         ))
     }
-- 
2.43.0


From f3afb6d4b092f1ad7904723f59498730ce5d3163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:18 +0000
Subject: [PATCH 05/12] fix: reject a leading plus sign in SeqOrUid::from_str

---
 imap-types/src/sequence.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/imap-types/src/sequence.rs b/imap-types/src/sequence.rs
index e25fcf2..d87980a 100644
--- a/imap-types/src/sequence.rs
+++ b/imap-types/src/sequence.rs
@@ -438,7 +438,8 @@ impl FromStr for SeqOrUid {
             // This is to align parsing here with the IMAP grammar:
             // Rust's `parse::<NonZeroU32>` function accepts numbers that start with 0.
             // For example, 00001, is interpreted as 1. But this is not allowed in IMAP.
-            if value.starts_with('0') {
+            // The same applies to a leading plus sign, e.g., +1.
+            if value.starts_with(['0', '+']) {
                 Err(ValidationError::new(ValidationErrorKind::Invalid))
             } else {
                 Ok(SeqOrUid::Value(NonZeroU32::from_str(value).map_err(
-- 
2.43.0


From a38ea38eee6327485c41318f681fa15dcf692e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:18 +0000
Subject: [PATCH 06/12] fix: encode the MODSEQ fetch item with parentheses (RFC
 7162)

---
 imap-codec/src/codec/encode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/imap-codec/src/codec/encode.rs b/imap-codec/src/codec/encode.rs
index 6433227..edbaddb 100644
--- a/imap-codec/src/codec/encode.rs
+++ b/imap-codec/src/codec/encode.rs
@@ -1777,7 +1777,7 @@ impl EncodeIntoContext for MessageDataItem<'_> {
                 size.encode_ctx(ctx)
             }
             #[cfg(feature = "ext_condstore_qresync")]
-            Self::ModSeq(value) => write!(ctx, "MODSEQ {value}"),
+            Self::ModSeq(value) => write!(ctx, "MODSEQ ({value})"),
         }
     }
 }
-- 
2.43.0


From 42d16ca4ecaa141b415a89430bf5a2febc1e1298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:56 +0000
Subject: [PATCH 07/12] fix: bound the recursion of nested message bodies in
 BODYSTRUCTURE

---
 imap-codec/src/body.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/imap-codec/src/body.rs b/imap-codec/src/body.rs
index b78f51c..666cf53 100644
--- a/imap-codec/src/body.rs
+++ b/imap-codec/src/body.rs
@@ -70,7 +70,7 @@ fn body_type_1part_limited(
         }));
     }
 
-    let body_type_msg = |input| body_type_msg_limited(input, 8);
+    let body_type_msg = |input| body_type_msg_limited(input, remaining_recursions);
 
     let mut parser = tuple((
         alt((body_type_msg, body_type_text, body_type_basic)),
@@ -127,7 +127,7 @@ fn body_type_msg_limited(
         }));
     }
 
-    let body = |input| body_limited(input, remaining_recursions.saturating_sub(1));
+    let body = |input| body_limited(input, remaining_recursions);
 
     let mut parser = tuple((
         media_message,
-- 
2.43.0


From dff9898fd3c9dbf20cdff83067923352f525c27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:56 +0000
Subject: [PATCH 08/12] fix: do not conflate 4294967294/4294967295 with * when
 normalizing sequence sets

---
 imap-types/src/sequence.rs | 44 ++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/imap-types/src/sequence.rs b/imap-types/src/sequence.rs
index d87980a..adb2cf1 100644
--- a/imap-types/src/sequence.rs
+++ b/imap-types/src/sequence.rs
@@ -37,6 +37,23 @@ pub struct SequenceSet(pub Vec1<Sequence>);
 
 impl SequenceSet {
     pub fn normalize(&mut self) -> &mut Self {
+        // `*` is larger than (and different from) every number. Thus, we need more than 32 bits.
+        const ASTERISK: u64 = u32::MAX as u64 + 1;
+
+        fn to_u64(id: &SeqOrUid) -> u64 {
+            match id {
+                SeqOrUid::Value(value) => u64::from(value.get()),
+                SeqOrUid::Asterisk => ASTERISK,
+            }
+        }
+
+        fn from_u64(id: u64) -> SeqOrUid {
+            match u32::try_from(id).ok().and_then(NonZeroU32::new) {
+                Some(value) => SeqOrUid::Value(value),
+                None => SeqOrUid::Asterisk,
+            }
+        }
+
         let mut singles = HashSet::with_capacity(self.0.0.len());
         let mut ranges = Vec::with_capacity(self.0.0.len());
 
@@ -44,13 +61,13 @@ impl SequenceSet {
         for seq in &mut self.0.0 {
             match seq.normalize() {
                 Sequence::Single(id) => {
-                    singles.insert(id.to_non_zero_u32());
+                    singles.insert(to_u64(id));
                     // Push a 1-lenth range so they can merge nicely
                     // later on
-                    ranges.push(id.to_non_zero_u32()..id.to_non_zero_u32().saturating_add(1));
+                    ranges.push(to_u64(id)..to_u64(id) + 1);
                 }
                 Sequence::Range(a, b) => {
-                    ranges.push(a.to_non_zero_u32()..b.to_non_zero_u32().saturating_add(1));
+                    ranges.push(to_u64(a)..to_u64(b) + 1);
                 }
             }
         }
@@ -58,10 +75,10 @@ impl SequenceSet {
         // TODO: Improve this loop, for eg. with a .retain().
         for single in singles.clone() {
             for range in &mut ranges {
-                if single.get() == range.start.get().max(2) - 1 {
+                if single == range.start.max(2) - 1 {
                     singles.remove(&single);
                     range.start = single;
-                } else if single.get() == range.end.get() {
+                } else if single == range.end {
                     singles.remove(&single);
                     range.end = single;
                 } else if range.contains(&single) {
@@ -76,16 +93,11 @@ impl SequenceSet {
             singles.retain(|single| !range.contains(single));
 
             match (range.start, range.end) {
-                (a, b) if a == b || a.saturating_add(1) == b => {
-                    let a = NonZeroU32::new(a.get()).unwrap();
-                    self.0.0.push(Sequence::Single(a.into()));
-                }
-                (a, NonZeroU32::MAX) => {
-                    self.0.0.push(Sequence::Range(a.into(), SeqOrUid::Asterisk))
+                (a, b) if a + 1 == b => {
+                    self.0.0.push(Sequence::Single(from_u64(a)));
                 }
                 (a, b) => {
-                    let b = NonZeroU32::new(b.get().max(2) - 1).unwrap();
-                    self.0.0.push(Sequence::Range(a.into(), b.into()));
+                    self.0.0.push(Sequence::Range(from_u64(a), from_u64(b - 1)));
                 }
             }
         }
@@ -93,13 +105,13 @@ impl SequenceSet {
         // Add remaining singles that don't belong to any range to the
         // sequence set
         for single in singles {
-            self.0.0.push(single.into());
+            self.0.0.push(Sequence::Single(from_u64(single)));
         }
 
         // Sort the merged sequence set
         self.0.0.sort_by_key(|seq| match seq {
-            Sequence::Single(a) => a.to_non_zero_u32(),
-            Sequence::Range(a, _) => a.to_non_zero_u32(),
+            Sequence::Single(a) => to_u64(a),
+            Sequence::Range(a, _) => to_u64(a),
         });
 
         self
-- 
2.43.0


From b5522bb6bb841d4610cc473fe385049a28660ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:53 +0000
Subject: [PATCH 09/12] fix: reject empty ranges when converting to a Sequence

---
 imap-types/src/sequence.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/imap-types/src/sequence.rs b/imap-types/src/sequence.rs
index adb2cf1..40a603b 100644
--- a/imap-types/src/sequence.rs
+++ b/imap-types/src/sequence.rs
@@ -545,6 +545,11 @@ macro_rules! impl_try_from_num_range {
             type Error = ValidationError;
 
             fn try_from(range: Range<$num>) -> Result<Self, Self::Error> {
+                // A sequence always denotes something. Thus, an empty range can't be represented.
+                if range.is_empty() {
+                    return Err(ValidationError::new(ValidationErrorKind::Invalid));
+                }
+
                 Ok(Self::Range(
                     SeqOrUid::try_from(range.start)?,
                     SeqOrUid::try_from(range.end.saturating_sub(1))?,
@@ -606,6 +611,10 @@ impl TryFrom<Range<NonZeroU32>> for Sequence {
     type Error = ValidationError;
 
     fn try_from(range: Range<NonZeroU32>) -> Result<Self, Self::Error> {
+        if range.is_empty() {
+            return Err(ValidationError::new(ValidationErrorKind::Invalid));
+        }
+
         Ok(Self::Range(
             SeqOrUid::from(range.start),
             SeqOrUid::try_from(range.end.get().saturating_sub(1))?,
-- 
2.43.0


From 5b13aa654d3b6c9a85818c2adcb77ae07a4a0648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:16 +0000
Subject: [PATCH 10/12] fix: don't deserialize known names as unknown items

The types of unknown items, e.g., `CapabilityOther`, guarantee that they can't
represent known items. Deserialization did not uphold this guarantee.
---
 imap-types/src/auth.rs                        |  5 +++-
 imap-types/src/core.rs                        | 23 +++++++++++++++++++
 .../src/extensions/condstore_qresync.rs       |  5 +++-
 imap-types/src/extensions/enable.rs           |  5 +++-
 imap-types/src/extensions/quota.rs            |  5 +++-
 imap-types/src/extensions/sort.rs             |  5 +++-
 imap-types/src/extensions/thread.rs           |  5 +++-
 imap-types/src/flag.rs                        | 10 ++++++--
 imap-types/src/response.rs                    |  5 +++-
 9 files changed, 59 insertions(+), 9 deletions(-)

diff --git a/imap-types/src/auth.rs b/imap-types/src/auth.rs
index 1847b95..3f0c6ee 100644
--- a/imap-types/src/auth.rs
+++ b/imap-types/src/auth.rs
@@ -199,10 +199,13 @@ impl FromStr for AuthMechanism<'static> {
 /// An (unknown) authentication mechanism.
 ///
 /// It's guaranteed that this type can't represent any mechanism from [`AuthMechanism`].
-#[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
+#[cfg_attr(feature = "serde", derive(Serialize))]
 #[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
 pub struct AuthMechanismOther<'a>(Atom<'a>);
 
+#[cfg(feature = "serde")]
+crate::core::impl_deserialize_unknown! { AuthMechanismOther, AuthMechanism::Other, AuthMechanism::from }
+
 /// Data line used, e.g., during AUTHENTICATE.
 ///
 /// Holds the raw binary data, i.e., a `Vec<u8>`, *not* the BASE64 string.
diff --git a/imap-types/src/core.rs b/imap-types/src/core.rs
index 0780dbe..eaebf3a 100644
--- a/imap-types/src/core.rs
+++ b/imap-types/src/core.rs
@@ -77,6 +77,29 @@ macro_rules! impl_try_from {
 
 pub(crate) use impl_try_from;
 
+/// Implements `Deserialize` for the type of an unknown item, i.e., rejects the names of known items.
+#[cfg(feature = "serde")]
+macro_rules! impl_deserialize_unknown {
+    ($unknown:ident, $item:ident::$variant:ident, $from_atom:path) => {
+        impl<'de> serde::Deserialize<'de> for $unknown<'_> {
+            fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+            where
+                D: serde::Deserializer<'de>,
+            {
+                match $from_atom(Atom::deserialize(deserializer)?) {
+                    $item::$variant(unknown) => Ok(unknown),
+                    known => Err(serde::de::Error::custom(format_args!(
+                        "{known} is not unknown"
+                    ))),
+                }
+            }
+        }
+    };
+}
+
+#[cfg(feature = "serde")]
+pub(crate) use impl_deserialize_unknown;
+
 use crate::{
     error::{ValidationError, ValidationErrorKind},
     extensions::binary::Literal8,
diff --git a/imap-types/src/extensions/condstore_qresync.rs b/imap-types/src/extensions/condstore_qresync.rs
index 5b963e9..23ad8a7 100644
--- a/imap-types/src/extensions/condstore_qresync.rs
+++ b/imap-types/src/extensions/condstore_qresync.rs
@@ -37,10 +37,13 @@ impl<'a> AttributeFlag<'a> {
         Self::Keyword(atom)
     }
 }
-#[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
+#[cfg_attr(feature = "serde", derive(Serialize))]
 #[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
 pub struct AttributeFlagExtension<'a>(Atom<'a>);
 
+#[cfg(feature = "serde")]
+crate::core::impl_deserialize_unknown! { AttributeFlagExtension, AttributeFlag::Extension, AttributeFlag::system }
+
 impl<'a> TryFrom<&'a str> for AttributeFlag<'a> {
     type Error = ValidationError;
 
diff --git a/imap-types/src/extensions/enable.rs b/imap-types/src/extensions/enable.rs
index b3321b0..c94271e 100644
--- a/imap-types/src/extensions/enable.rs
+++ b/imap-types/src/extensions/enable.rs
@@ -98,10 +98,13 @@ impl Display for CapabilityEnable<'_> {
 /// An (unknown) capability.
 ///
 /// It's guaranteed that this type can't represent any capability from [`CapabilityEnable`].
-#[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
+#[cfg_attr(feature = "serde", derive(Serialize))]
 #[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
 pub struct CapabilityEnableOther<'a>(Atom<'a>);
 
+#[cfg(feature = "serde")]
+crate::core::impl_deserialize_unknown! { CapabilityEnableOther, CapabilityEnable::Other, CapabilityEnable::from }
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/imap-types/src/extensions/quota.rs b/imap-types/src/extensions/quota.rs
index 6fd962b..e87b929 100644
--- a/imap-types/src/extensions/quota.rs
+++ b/imap-types/src/extensions/quota.rs
@@ -184,10 +184,13 @@ pub enum Resource<'a> {
 /// An (unknown) resource.
 ///
 /// It's guaranteed that this type can't represent any resource from [`Resource`].
-#[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
+#[cfg_attr(feature = "serde", derive(Serialize))]
 #[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
 pub struct ResourceOther<'a>(Atom<'a>);
 
+#[cfg(feature = "serde")]
+crate::core::impl_deserialize_unknown! { ResourceOther, Resource::Other, Resource::from }
+
 impl_try_from!(Atom<'a>, 'a, &'a [u8], Resource<'a>);
 impl_try_from!(Atom<'a>, 'a, Vec<u8>, Resource<'a>);
 impl_try_from!(Atom<'a>, 'a, &'a str, Resource<'a>);
diff --git a/imap-types/src/extensions/sort.rs b/imap-types/src/extensions/sort.rs
index 08cf155..9070370 100644
--- a/imap-types/src/extensions/sort.rs
+++ b/imap-types/src/extensions/sort.rs
@@ -39,10 +39,13 @@ impl Display for SortAlgorithm<'_> {
 #[cfg(feature = "arbitrary")]
 impl_arbitrary_try_from! { SortAlgorithm<'a>, Atom<'a> }
 
-#[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
+#[cfg_attr(feature = "serde", derive(Serialize))]
 #[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
 pub struct SortAlgorithmOther<'a>(Atom<'a>);
 
+#[cfg(feature = "serde")]
+crate::core::impl_deserialize_unknown! { SortAlgorithmOther, SortAlgorithm::Other, SortAlgorithm::from }
+
 impl AsRef<str> for SortAlgorithmOther<'_> {
     fn as_ref(&self) -> &str {
         self.0.as_ref()
diff --git a/imap-types/src/extensions/thread.rs b/imap-types/src/extensions/thread.rs
index af54d23..b34f92d 100644
--- a/imap-types/src/extensions/thread.rs
+++ b/imap-types/src/extensions/thread.rs
@@ -168,10 +168,13 @@ impl Display for ThreadingAlgorithm<'_> {
 #[cfg(feature = "arbitrary")]
 impl_arbitrary_try_from! { ThreadingAlgorithm<'a>, Atom<'a> }
 
-#[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
+#[cfg_attr(feature = "serde", derive(Serialize))]
 #[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
 pub struct ThreadingAlgorithmOther<'a>(Atom<'a>);
 
+#[cfg(feature = "serde")]
+crate::core::impl_deserialize_unknown! { ThreadingAlgorithmOther, ThreadingAlgorithm::Other, ThreadingAlgorithm::from }
+
 impl AsRef<str> for ThreadingAlgorithmOther<'_> {
     fn as_ref(&self) -> &str {
         self.0.as_ref()
diff --git a/imap-types/src/flag.rs b/imap-types/src/flag.rs
index fcf7b18..6cf1c0a 100644
--- a/imap-types/src/flag.rs
+++ b/imap-types/src/flag.rs
@@ -45,10 +45,13 @@ pub enum Flag<'a> {
 /// An (extension) flag.
 ///
 /// It's guaranteed that this type can't represent any flag from [`Flag`].
-#[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
+#[cfg_attr(feature = "serde", derive(Serialize))]
 #[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
 pub struct FlagExtension<'a>(Atom<'a>);
 
+#[cfg(feature = "serde")]
+crate::core::impl_deserialize_unknown! { FlagExtension, Flag::Extension, Flag::system }
+
 impl<'a> Flag<'a> {
     pub fn system(atom: Atom<'a>) -> Self {
         match atom.as_ref().to_ascii_lowercase().as_ref() {
@@ -165,10 +168,13 @@ impl<'a> From<FlagNameAttributeExtension<'a>> for FlagNameAttribute<'a> {
 }
 
 /// An extension flag.
-#[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
+#[cfg_attr(feature = "serde", derive(Serialize))]
 #[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
 pub struct FlagNameAttributeExtension<'a>(Atom<'a>);
 
+#[cfg(feature = "serde")]
+crate::core::impl_deserialize_unknown! { FlagNameAttributeExtension, FlagNameAttribute::Extension, FlagNameAttribute::from }
+
 impl FlagNameAttribute<'_> {
     pub fn is_selectability(&self) -> bool {
         matches!(
diff --git a/imap-types/src/response.rs b/imap-types/src/response.rs
index e9759fb..39ac557 100644
--- a/imap-types/src/response.rs
+++ b/imap-types/src/response.rs
@@ -1286,10 +1286,13 @@ impl<'a> From<Atom<'a>> for Capability<'a> {
 /// An (unknown) capability.
 ///
 /// It's guaranteed that this type can't represent any capability from [`Capability`].
-#[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
+#[cfg_attr(feature = "serde", derive(Serialize))]
 #[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
 pub struct CapabilityOther<'a>(Atom<'a>);
 
+#[cfg(feature = "serde")]
+crate::core::impl_deserialize_unknown! { CapabilityOther, Capability::Other, Capability::from }
+
 /// Error-related types.
 pub mod error {
     use thiserror::Error;
-- 
2.43.0


From 13fef8d0a3487d03fbc52158fbbd4718896236b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:02 +0000
Subject: [PATCH 11/12] fix: a quoted string with UTF-8 never spans lines

QUOTED-CHAR excludes CR and LF. An unterminated quoted string made the
decoder wait for more data past the end of the line.
---
 imap-codec/src/extensions/utf8.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/imap-codec/src/extensions/utf8.rs b/imap-codec/src/extensions/utf8.rs
index 604c804..16ef874 100644
--- a/imap-codec/src/extensions/utf8.rs
+++ b/imap-codec/src/extensions/utf8.rs
@@ -40,7 +40,8 @@ pub(crate) fn quoted_utf8(input: &[u8]) -> IMAPResult<&[u8], QuotedUtf8> {
         dquote,
         map_res(
             escaped(
-                take_while1(|c| !is_quoted_specials(c)),
+                // A quoted string never spans lines.
+                take_while1(|c| !is_quoted_specials(c) && c != b'\r' && c != b'\n'),
                 '\\',
                 one_of("\\\""),
             ),
-- 
2.43.0


From 349bef0525a3d7a31e82720738cebf51d796687b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:22 +0000
Subject: [PATCH 12/12] fix: a continuation request with a bare LF is refused,
 not waited for

The base64 alternative looked for CRLF without a limit, so a line such as
`+ go ahead<LF>` made the decoder ask for more data for ever.
---
 imap-codec/src/response.rs | 26 ++++----------------------
 1 file changed, 4 insertions(+), 22 deletions(-)

diff --git a/imap-codec/src/response.rs b/imap-codec/src/response.rs
index 0dd5e8a..c8101ae 100644
--- a/imap-codec/src/response.rs
+++ b/imap-codec/src/response.rs
@@ -3,7 +3,6 @@ use abnf_core::streaming::crlf;
 #[cfg(feature = "quirk_crlf_relaxed")]
 use abnf_core::streaming::crlf_relaxed as crlf;
 use abnf_core::streaming::sp;
-use base64::{Engine, engine::general_purpose::STANDARD as _base64};
 use imap_types::{
     core::{Text, Vec1},
     fetch::MessageDataItem,
@@ -12,12 +11,10 @@ use imap_types::{
         Response, Status, StatusBody, StatusKind, Tagged,
     },
 };
-#[cfg(feature = "quirk_missing_text")]
-use nom::combinator::peek;
 use nom::{
     branch::alt,
-    bytes::streaming::{tag, tag_no_case, take_until, take_while},
-    combinator::{map, map_res, opt, value},
+    bytes::streaming::{tag, tag_no_case, take_while},
+    combinator::{map, opt, peek, value},
     multi::separated_list1,
     sequence::{delimited, preceded, terminated, tuple},
 };
@@ -27,7 +24,7 @@ use crate::extensions::id::id_response;
 #[cfg(feature = "ext_metadata")]
 use crate::extensions::metadata::metadata_code;
 use crate::{
-    core::{atom, charset, nz_number, tag_imap, text},
+    core::{atom, base64, charset, nz_number, tag_imap, text},
     decode::IMAPResult,
     extensions::{
         enable::enable_data,
@@ -290,22 +287,7 @@ pub(crate) fn continue_req(input: &[u8]) -> IMAPResult<&[u8], CommandContinuatio
     let mut parser = tuple((
         tag(b"+ "),
         alt((
-            #[cfg(not(feature = "quirk_crlf_relaxed"))]
-            map(
-                map_res(take_until("\r\n"), |input| _base64.decode(input)),
-                Either::Base64,
-            ),
-            #[cfg(feature = "quirk_crlf_relaxed")]
-            map(
-                map_res(take_until("\n"), |input: &[u8]| {
-                    if !input.is_empty() && input[input.len().saturating_sub(1)] == b'\r' {
-                        _base64.decode(&input[..input.len().saturating_sub(1)])
-                    } else {
-                        _base64.decode(input)
-                    }
-                }),
-                Either::Base64,
-            ),
+            map(terminated(base64, peek(crlf)), Either::Base64),
             map(resp_text, Either::Basic),
         )),
         crlf,
-- 
2.43.0

