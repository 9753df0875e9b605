From bee040a43178e60535b2cdf56d386fb432498fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:36 +0000
Subject: [PATCH 01/13] hooks: wrappers for a verification harness, guarded by
 cfg(vp_hooks)

---
 src/lib.rs                             |  7 +++
 src/phonenumberutil/phonenumberutil.rs |  7 +++
 src/vp_hooks.rs                        | 76 ++++++++++++++++++++++++++
 3 files changed, 90 insertions(+)
 create mode 100644 src/vp_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index 6223688..552f592 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -13,6 +13,9 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
+// the `vp_hooks` cfg is not known to cargo
+#![allow(unexpected_cfgs)]
+
 mod interfaces;
 /// This module is automatically generated from /resources/*.proto
 mod generated;
@@ -40,3 +43,7 @@ pub use generated::proto::phonenumber::PhoneNumber;
 pub use generated::proto::phonenumber::phone_number::CountryCodeSource;
 pub use regexp_cache::InvalidRegexError;
 mod tests;
+
+/// Verification hooks: compiled only with `--cfg vp_hooks`.
+#[cfg(vp_hooks)]
+pub mod vp_hooks;
diff --git a/src/phonenumberutil/phonenumberutil.rs b/src/phonenumberutil/phonenumberutil.rs
index 7dce612..9e7845e 100644
--- a/src/phonenumberutil/phonenumberutil.rs
+++ b/src/phonenumberutil/phonenumberutil.rs
@@ -618,3 +618,10 @@ impl PhoneNumberUtil {
     }
 }
 
+#[cfg(vp_hooks)]
+impl PhoneNumberUtil {
+    /// Verification hook: the public API over the given metadata.
+    pub fn vp_for_metadata(metadata: crate::phonemetadata::PhoneMetadataCollection) -> Self {
+        Self { util_internal: PhoneNumberUtilInternal::new_for_metadata(metadata) }
+    }
+}
diff --git a/src/vp_hooks.rs b/src/vp_hooks.rs
new file mode 100644
index 0000000..a18df98
--- /dev/null
+++ b/src/vp_hooks.rs
@@ -0,0 +1,76 @@
+//! Verification hooks, compiled only with `--cfg vp_hooks`: thin wrappers that let a
+//! harness outside this crate call operations which are `pub(crate)`.
+
+use crate::phonemetadata::{NumberFormat, PhoneMetadataCollection};
+use crate::phonenumberutil::phonenumberutil_internal::PhoneNumberUtilInternal;
+use crate::{MatchType, NumberLengthType, ParseError, PhoneNumber, PhoneNumberFormat, PhoneNumberType, ValidationError};
+
+pub struct Internal(PhoneNumberUtilInternal);
+
+impl Internal {
+    pub fn bundled() -> Self {
+        Self(PhoneNumberUtilInternal::new().expect("bundled metadata"))
+    }
+
+    pub fn for_metadata(metadata: PhoneMetadataCollection) -> Self {
+        Self(PhoneNumberUtilInternal::new_for_metadata(metadata))
+    }
+
+    pub fn is_possible_number_for_type_with_reason(
+        &self, number: &PhoneNumber, number_type: PhoneNumberType,
+    ) -> Result<NumberLengthType, ValidationError> {
+        self.0.is_possible_number_for_type_with_reason(number, number_type)
+    }
+
+    pub fn is_possible_number_for_string(&self, number: &str, region: &str) -> bool {
+        self.0.is_possible_number_for_string(number, region)
+    }
+
+    pub fn is_number_match_with_two_strings(&self, first: &str, second: &str) -> Result<MatchType, ParseError> {
+        self.0.is_number_match_with_two_strings(first, second).map_err(|e| e.into_public().0)
+    }
+
+    pub fn is_number_match_with_one_string(&self, first: &PhoneNumber, second: &str) -> Result<MatchType, ParseError> {
+        self.0.is_number_match_with_one_string(first, second).map_err(|e| e.into_public().0)
+    }
+
+    pub fn format_by_pattern(
+        &self, number: &PhoneNumber, number_format: PhoneNumberFormat, formats: &[NumberFormat],
+    ) -> String {
+        self.0.format_by_pattern(number, number_format, formats).expect("valid regex")
+    }
+
+    pub fn format_national_number_with_preferred_carrier_code(&self, number: &PhoneNumber, fallback: &str) -> String {
+        self.0.format_national_number_with_preferred_carrier_code(number, fallback).expect("valid regex")
+    }
+
+    pub fn get_supported_types_for_region(&self, region: &str) -> Option<Vec<PhoneNumberType>> {
+        self.0.get_supported_types_for_region(region).map(|types| types.into_iter().collect())
+    }
+
+    pub fn get_supported_types_for_non_geo_entity(&self, code: i32) -> Option<Vec<PhoneNumberType>> {
+        self.0.get_supported_types_for_non_geo_entity(code).map(|types| types.into_iter().collect())
+    }
+
+    pub fn get_supported_calling_codes(&self) -> Vec<i32> {
+        self.0.get_supported_calling_codes().collect()
+    }
+
+    pub fn get_supported_global_network_calling_codes(&self) -> Vec<i32> {
+        self.0.get_supported_global_network_calling_codes().collect()
+    }
+
+    pub fn get_ndd_prefix_for_region(&self, region: &str, strip_non_digits: bool) -> Option<String> {
+        self.0.get_ndd_prefix_for_region(region, strip_non_digits)
+    }
+
+    pub fn get_example_number_for_type_and_region_code(
+        &self, region: &str, number_type: PhoneNumberType,
+    ) -> Option<PhoneNumber> {
+        self.0.get_example_number_for_type_and_region_code(region, number_type).ok()
+    }
+
+    pub fn get_example_number_for_non_geo_entity(&self, code: i32) -> Option<PhoneNumber> {
+        self.0.get_example_number_for_non_geo_entity(code).ok()
+    }
+}
-- 
2.43.0


From 9ab8cf5ce3991390bc1e8f958556dd4402670a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:23 +0000
Subject: [PATCH 02/13] fix: match national numbers against the whole pattern,
 not its first alternative

A number was rejected when an earlier, shorter alternative of a pattern matched
a prefix of it, e.g. +358 9 1234567 (FI) or the toll free +507 800 5033610 (PA).
---
 src/phonenumberutil/phonenumberutil_internal.rs | 4 ++--
 src/regex_based_matcher.rs                      | 8 ++++----
 src/regexp_cache.rs                             | 7 +++++++
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/phonenumberutil/phonenumberutil_internal.rs b/src/phonenumberutil/phonenumberutil_internal.rs
index adfdd40..6a18775 100644
--- a/src/phonenumberutil/phonenumberutil_internal.rs
+++ b/src/phonenumberutil/phonenumberutil_internal.rs
@@ -502,8 +502,8 @@ impl PhoneNumberUtilInternal {
             {
                 continue;
             }
-            let pattern_to_match = self.reg_exps.regexp_cache.get_regex(format.pattern())?;
-            if pattern_to_match.full_match(national_number) {
+            let pattern_to_match = self.reg_exps.regexp_cache.get_full_match_regex(format.pattern())?;
+            if pattern_to_match.is_match(national_number) {
                 return Ok(Some(format));
             }
         }
diff --git a/src/regex_based_matcher.rs b/src/regex_based_matcher.rs
index 8af26f2..090b33c 100644
--- a/src/regex_based_matcher.rs
+++ b/src/regex_based_matcher.rs
@@ -15,7 +15,7 @@
 
 
 use log::{error};
-use super::regex_util::{RegexFullMatch, RegexConsume};
+use super::regex_util::RegexConsume;
 
 use crate::{interfaces, generated::proto::phonemetadata::PhoneNumberDesc, regexp_cache::{InvalidRegexError, RegexCache}};
 
@@ -33,13 +33,13 @@ impl RegexBasedMatcher {
         number_pattern: &str,
         allow_prefix_match: bool
     ) -> Result<bool, InvalidRegexError> {
-        let regexp = self.cache.get_regex(number_pattern)?;
-
         // find first occurrence
         if allow_prefix_match {
+            let regexp = self.cache.get_regex(number_pattern)?;
             Ok(regexp.matches_start(phone_number))
         } else {
-            Ok(regexp.full_match(phone_number))
+            let regexp = self.cache.get_full_match_regex(number_pattern)?;
+            Ok(regexp.is_match(phone_number))
         }
     }
 }
diff --git a/src/regexp_cache.rs b/src/regexp_cache.rs
index d8f3cf1..ceba476 100644
--- a/src/regexp_cache.rs
+++ b/src/regexp_cache.rs
@@ -44,4 +44,11 @@ impl RegexCache {
             Ok(entry.value().clone())
         }
     }
+
+    /// A regex that matches only if the whole input matches `pattern`: the plain regex
+    /// can't tell that from its leftmost-first match, since that one may stop at an
+    /// earlier and shorter alternative.
+    pub fn get_full_match_regex(&self, pattern: &str) -> Result<Arc<regex::Regex>, InvalidRegexError> {
+        self.get_regex(&fast_cat::concat_str!("^(?:", pattern, ")$"))
+    }
 }
\ No newline at end of file
-- 
2.43.0


From 1184e505838216b8b811541f2ed729dbd7496e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:23 +0000
Subject: [PATCH 03/13] fix: do not panic on a "tel:" that follows the
 phone-context

e.g. parse("12345;phone-context=example.com;tel:", "US")
---
 src/phonenumberutil/phonenumberutil_internal.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/phonenumberutil/phonenumberutil_internal.rs b/src/phonenumberutil/phonenumberutil_internal.rs
index 6a18775..90bd5f7 100644
--- a/src/phonenumberutil/phonenumberutil_internal.rs
+++ b/src/phonenumberutil/phonenumberutil_internal.rs
@@ -1670,7 +1670,8 @@ impl PhoneNumberUtilInternal {
             // isdn-subaddress component. Note we also handle the case when "tel:" is
             // missing, as we have seen in some of the phone number inputs. In that
             // case, we append everything from the beginning.
-            let index_of_rfc_prefix = number_to_parse.find(RFC3966_PREFIX);
+            // Only what precedes the phone-context belongs to the number.
+            let index_of_rfc_prefix = number_to_parse[..index_of_phone_context].find(RFC3966_PREFIX);
             let index_of_national_number = index_of_rfc_prefix.map_or(0, |index_of_rfc_prefix| {
                 index_of_rfc_prefix + RFC3966_PREFIX.len()
             });
-- 
2.43.0


From 6de96131c144de21ca8125fdb55d47d6975dc382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:48 +0000
Subject: [PATCH 04/13] fix: keep the "+" when the calling region has no single
 international prefix

format_out_of_country_keeping_alpha_chars returned " 1 800 ..." when called
from a region with several international prefixes and no preferred one (e.g. BR).
---
 src/phonenumberutil/phonenumberutil_internal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/phonenumberutil/phonenumberutil_internal.rs b/src/phonenumberutil/phonenumberutil_internal.rs
index 90bd5f7..d74f77c 100644
--- a/src/phonenumberutil/phonenumberutil_internal.rs
+++ b/src/phonenumberutil/phonenumberutil_internal.rs
@@ -1566,7 +1566,7 @@ impl PhoneNumberUtilInternal {
             } else {
                 metadata.preferred_international_prefix()
             }
-        });
+        }).filter(|prefix| !prefix.is_empty());
         let formatted_number = if let Some(international_prefix_for_formatting) =
             international_prefix_for_formatting
         {
-- 
2.43.0


From fa03ad2a36cf5e9f3a7ff4020f222633d3ebc51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:48 +0000
Subject: [PATCH 05/13] fix: use the number without its national prefix after a
 calling code without "+"

maybe_extract_country_code computed it and then ignored it, so that a calling
code followed by a national prefix was not recognized as a calling code.
---
 src/phonenumberutil/phonenumberutil_internal.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/phonenumberutil/phonenumberutil_internal.rs b/src/phonenumberutil/phonenumberutil_internal.rs
index d74f77c..33343b5 100644
--- a/src/phonenumberutil/phonenumberutil_internal.rs
+++ b/src/phonenumberutil/phonenumberutil_internal.rs
@@ -2185,15 +2185,18 @@ impl PhoneNumberUtilInternal {
                 strip_cow_prefix(national_number.clone(), default_country_code_string)
             {
                 let general_num_desc = &default_region_metadata.general_desc;
-                let phone_number_and_carrier_code = self
+                // Don't need the carrier code.
+                let (stripped_national_number, _) = self
                     .maybe_strip_national_prefix_and_carrier_code(
                         default_region_metadata,
                         &potential_national_number,
                     )?;
+                let potential_national_number: Cow<'a, str> =
+                    Cow::Owned(stripped_national_number.into_owned());
 
                 trace!(
                     "Number without country calling code prefix: {:?}",
-                    phone_number_and_carrier_code
+                    potential_national_number
                 );
                 // If the number was not valid before but is valid now, or if it was too
                 // long before, we consider the number with the country code stripped to
-- 
2.43.0


From 6b9b49b64b15a5006a00e38425cc224f6786d4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:48 +0000
Subject: [PATCH 06/13] fix: do not take an empty extension for a difference
 between two numbers

is_number_match reported ShortNsnMatch for numbers that differ only in an empty
versus an absent extension.
---
 src/phonenumberutil/helper_functions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/phonenumberutil/helper_functions.rs b/src/phonenumberutil/helper_functions.rs
index ce9664a..4736ab2 100644
--- a/src/phonenumberutil/helper_functions.rs
+++ b/src/phonenumberutil/helper_functions.rs
@@ -459,7 +459,7 @@ pub(crate) fn copy_core_fields_only(from_number: &PhoneNumber) -> PhoneNumber {
     let mut to_number = PhoneNumber::new();
     to_number.set_country_code(from_number.country_code());
     to_number.set_national_number(from_number.national_number());
-    if let Some(extension) = &from_number.extension {
+    if let Some(extension) = from_number.extension.as_ref().filter(|e| !e.is_empty()) {
         to_number.set_extension(extension.clone());
     }
     if from_number.italian_leading_zero() {
-- 
2.43.0


From c74091c288d4bf19b3d3b25af6b63ed875271f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:48 +0000
Subject: [PATCH 07/13] fix: do not lose the raw input when formatting for
 mobile dialing

format borrows the raw input of a number whose national number is 0, and
format_number_for_mobile_dialing replaced a borrowed result with "".
---
 src/phonenumberutil/phonenumberutil_internal.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/phonenumberutil/phonenumberutil_internal.rs b/src/phonenumberutil/phonenumberutil_internal.rs
index 33343b5..a99579d 100644
--- a/src/phonenumberutil/phonenumberutil_internal.rs
+++ b/src/phonenumberutil/phonenumberutil_internal.rs
@@ -860,9 +860,7 @@ impl PhoneNumberUtilInternal {
                 } else {
                     PhoneNumberFormat::National
                 };
-                if let Cow::Owned(s) = self.format(&number_no_extension, format)? {
-                    formatted_number = s;
-                }
+                formatted_number = self.format(&number_no_extension, format)?.into_owned();
             } else {
                 // For non-geographical countries, and Mexican, Chilean and Uzbek fixed
                 // line and mobile numbers, we output international format for numbers
@@ -895,9 +893,7 @@ impl PhoneNumberUtilInternal {
                 } else {
                     PhoneNumberFormat::National
                 };
-                if let Cow::Owned(s) = self.format(&number_no_extension, format)? {
-                    formatted_number = s;
-                }
+                formatted_number = self.format(&number_no_extension, format)?.into_owned();
             }
         } else if is_valid_number && self.can_be_internationally_dialled(&number_no_extension)? {
             // We assume that short numbers are not diallable from outside their
@@ -908,10 +904,9 @@ impl PhoneNumberUtilInternal {
             } else {
                 PhoneNumberFormat::E164
             };
-            return Ok(Cow::Owned(owned_from_cow_or!(
-                self.format(&number_no_extension, format)?,
-                formatted_number
-            )));
+            return Ok(Cow::Owned(
+                self.format(&number_no_extension, format)?.into_owned(),
+            ));
         }
         if !with_formatting {
             Ok(Cow::Owned(
-- 
2.43.0


From e24ec3ab1d4a0cf8fe51d0081c31b34c9990716a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:48 +0000
Subject: [PATCH 08/13] fix: do not cut a raw input in
 format_in_original_format

For a number whose national number is 0, format returns the raw input. Its first
byte was cut off, and a raw input starting with a multi-byte character panicked.
---
 src/phonenumberutil/phonenumberutil_internal.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/phonenumberutil/phonenumberutil_internal.rs b/src/phonenumberutil/phonenumberutil_internal.rs
index a99579d..ed865a9 100644
--- a/src/phonenumberutil/phonenumberutil_internal.rs
+++ b/src/phonenumberutil/phonenumberutil_internal.rs
@@ -1278,9 +1278,14 @@ impl PhoneNumberUtilInternal {
             CountryCodeSource::FROM_NUMBER_WITH_IDD => {
                 self.format_out_of_country_calling_number(phone_number, region_calling_from)?
             }
-            CountryCodeSource::FROM_NUMBER_WITHOUT_PLUS_SIGN => Cow::Owned(
-                self.format(phone_number, PhoneNumberFormat::International)?[1..].to_string(),
-            ),
+            CountryCodeSource::FROM_NUMBER_WITHOUT_PLUS_SIGN => {
+                let formatted = self.format(phone_number, PhoneNumberFormat::International)?;
+                // There may be no plus sign: the raw input is returned as it is.
+                match formatted.strip_prefix(PLUS_SIGN) {
+                    Some(without_plus) => Cow::Owned(without_plus.to_string()),
+                    None => formatted,
+                }
+            }
             CountryCodeSource::FROM_DEFAULT_COUNTRY
             | CountryCodeSource::UNSPECIFIED => 'default_block: {
                 let format_national = || self.format(phone_number, PhoneNumberFormat::National);
-- 
2.43.0


From 5a4a041fd70f799363b8e826633725de98916b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:27 +0000
Subject: [PATCH 09/13] hooks: expose the plan the library uses (cfg vp_hooks)

---
 src/vp_hooks.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/vp_hooks.rs b/src/vp_hooks.rs
index a18df98..8409e56 100644
--- a/src/vp_hooks.rs
+++ b/src/vp_hooks.rs
@@ -1,7 +1,7 @@
 //! Verification hooks, compiled only with `--cfg vp_hooks`: thin wrappers that let a
 //! harness outside this crate call operations which are `pub(crate)`.
 
-use crate::phonemetadata::{NumberFormat, PhoneMetadataCollection};
+use crate::phonemetadata::{NumberFormat, PhoneMetadata, PhoneMetadataCollection};
 use crate::phonenumberutil::phonenumberutil_internal::PhoneNumberUtilInternal;
 use crate::{MatchType, NumberLengthType, ParseError, PhoneNumber, PhoneNumberFormat, PhoneNumberType, ValidationError};
 
@@ -73,4 +73,10 @@ impl Internal {
     pub fn get_example_number_for_non_geo_entity(&self, code: i32) -> Option<PhoneNumber> {
         self.0.get_example_number_for_non_geo_entity(code).ok()
     }
+
+    /// The plan the library uses for a region, or for the code of a
+    /// non-geographical entity when the region is "001".
+    pub fn get_metadata(&self, country_code: i32, region: &str) -> Option<PhoneMetadata> {
+        self.0.get_metadata_for_region_or_calling_code(country_code, region).cloned()
+    }
 }
-- 
2.43.0


From 9be3a0ce01f21224f8b41eda100ee8eb196b90cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:28 +0000
Subject: [PATCH 10/13] fix: compare a present but empty extension like an
 absent one

is_number_match reported NoMatch for a number with an extension and the same
number with an empty one, but ShortNsnMatch when the extension was absent.
---
 src/phonenumberutil/phonenumberutil_internal.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/phonenumberutil/phonenumberutil_internal.rs b/src/phonenumberutil/phonenumberutil_internal.rs
index ed865a9..3456f65 100644
--- a/src/phonenumberutil/phonenumberutil_internal.rs
+++ b/src/phonenumberutil/phonenumberutil_internal.rs
@@ -2823,19 +2823,19 @@ impl PhoneNumberUtilInternal {
         first_number_in: &PhoneNumber,
         second_number_in: &PhoneNumber,
     ) -> MatchType {
-        // Early exit if both had extensions and these are different.
-        if first_number_in.has_extension()
-            && second_number_in.has_extension()
-            && first_number_in.extension() != second_number_in.extension()
-        {
-            return MatchType::NoMatch;
-        }
-
         // We only are about the fields that uniquely define a number, so we copy
         // these across explicitly.
         let mut first_number = copy_core_fields_only(&first_number_in);
         let second_number = copy_core_fields_only(&second_number_in);
 
+        // Early exit if both had extensions and these are different.
+        if first_number.has_extension()
+            && second_number.has_extension()
+            && first_number.extension() != second_number.extension()
+        {
+            return MatchType::NoMatch;
+        }
+
         let first_number_country_code = first_number.country_code();
         let second_number_country_code = second_number.country_code();
         // Both had country calling code specified.
-- 
2.43.0


From 0e7ec78a155e62d924755dea9fff62d26021de32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:28 +0000
Subject: [PATCH 11/13] fix: count only ASCII digits for the length of the
 destination code

\d matches any decimal digit in Rust, and the length of a group was counted in
bytes: a number that is formatted as its raw input in another script reported
twice or more the length.
---
 src/phonenumberutil/phone_number_regexps_and_mappings.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/phonenumberutil/phone_number_regexps_and_mappings.rs b/src/phonenumberutil/phone_number_regexps_and_mappings.rs
index 57fa41c..1d30aee 100644
--- a/src/phonenumberutil/phone_number_regexps_and_mappings.rs
+++ b/src/phonenumberutil/phone_number_regexps_and_mappings.rs
@@ -317,7 +317,7 @@ impl PhoneNumberRegExpsAndMappings {
             single_international_prefix: Regex::new("[\\d]+(?:[~\u{2053}\u{223C}\u{FF5E}][\\d]+)?").unwrap(),
             digits_pattern: Regex::new(&format!("[{}]*", DIGITS)).unwrap(),
             capturing_digit_pattern: Regex::new(&format!("([{}])", DIGITS)).unwrap(),
-            capturing_ascii_digits_pattern: Regex::new("(\\d+)").unwrap(),
+            capturing_ascii_digits_pattern: Regex::new("([0-9]+)").unwrap(),
             valid_start_char_pattern: Regex::new(&format!("[{}{}]", PLUS_CHARS, DIGITS)).unwrap(),
             capture_up_to_second_number_start_pattern: Regex::new(CAPTURE_UP_TO_SECOND_NUMBER_START).unwrap(),
             unwanted_end_char_pattern: Regex::new("[^\\p{N}\\p{L}#]").unwrap(),
-- 
2.43.0


From 6d15530e773b2a907966da9586dc928e9eb67a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:44 +0000
Subject: [PATCH 12/13] hooks: scheduling points in the cache of patterns (cfg
 vp_hooks)

---
 src/regexp_cache.rs |  4 ++++
 src/vp_hooks.rs     | 31 +++++++++++++++++++++++++++++++
 2 files changed, 35 insertions(+)

diff --git a/src/regexp_cache.rs b/src/regexp_cache.rs
index ceba476..2a9a807 100644
--- a/src/regexp_cache.rs
+++ b/src/regexp_cache.rs
@@ -38,7 +38,11 @@ impl RegexCache {
         if let Some(regex) = self.cache.get(pattern) {
             Ok(regex.value().clone())
         } else {
+            #[cfg(vp_hooks)]
+            crate::vp_hooks::point("miss");
             let entry = self.cache.entry(pattern.to_string()).or_try_insert_with(|| {
+                #[cfg(vp_hooks)]
+                crate::vp_hooks::point("compile");
                 regex::Regex::new(pattern).map(Arc::new)
             })?;
             Ok(entry.value().clone())
diff --git a/src/vp_hooks.rs b/src/vp_hooks.rs
index 8409e56..9ea97a6 100644
--- a/src/vp_hooks.rs
+++ b/src/vp_hooks.rs
@@ -5,6 +5,37 @@ use crate::phonemetadata::{NumberFormat, PhoneMetadata, PhoneMetadataCollection}
 use crate::phonenumberutil::phonenumberutil_internal::PhoneNumberUtilInternal;
 use crate::{MatchType, NumberLengthType, ParseError, PhoneNumber, PhoneNumberFormat, PhoneNumberType, ValidationError};
 
+type PointFn = Box<dyn Fn(&str) + Send + Sync>;
+
+static POINT: std::sync::OnceLock<PointFn> = std::sync::OnceLock::new();
+
+/// Has `f` called at the scheduling points of the code shared between threads.
+pub fn set_point(f: PointFn) {
+    let _ = POINT.set(f);
+}
+
+pub(crate) fn point(name: &str) {
+    if let Some(f) = POINT.get() {
+        f(name)
+    }
+}
+
+/// The cache of compiled patterns by itself.
+pub struct Cache(crate::regexp_cache::RegexCache);
+
+impl Cache {
+    pub fn with_capacity(capacity: usize) -> Self {
+        Self(crate::regexp_cache::RegexCache::with_capacity(capacity))
+    }
+
+    /// Whether `pattern` (with `full`, all of the text) matches each of the texts; `None`
+    /// if the pattern does not compile.
+    pub fn matches(&self, pattern: &str, full: bool, texts: &[&str]) -> Option<Vec<bool>> {
+        let regex = if full { self.0.get_full_match_regex(pattern) } else { self.0.get_regex(pattern) };
+        regex.ok().map(|r| texts.iter().map(|t| r.is_match(t)).collect())
+    }
+}
+
 pub struct Internal(PhoneNumberUtilInternal);
 
 impl Internal {
-- 
2.43.0


From e94ce6945fe2d988559305ada3fce52e4f2dd86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:02 +0000
Subject: [PATCH 13/13] fix: use the plan of a non-geographical code with "001"
 as default region

---
 src/phonenumberutil/phonenumberutil_internal.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/phonenumberutil/phonenumberutil_internal.rs b/src/phonenumberutil/phonenumberutil_internal.rs
index 3456f65..625505e 100644
--- a/src/phonenumberutil/phonenumberutil_internal.rs
+++ b/src/phonenumberutil/phonenumberutil_internal.rs
@@ -1960,7 +1960,8 @@ impl PhoneNumberUtilInternal {
         let mut country_code = temp_number.country_code();
         if country_code != 0 {
             let phone_number_region = self.get_region_code_for_country_code(country_code);
-            if phone_number_region != default_region {
+            // No plan was looked up for "001", the region of all non-geographical codes.
+            if phone_number_region != default_region || country_metadata.is_none() {
                 country_metadata =
                     self.get_metadata_for_region_or_calling_code(country_code, phone_number_region);
             }
-- 
2.43.0

