From 35e16703fc5b1a2bebb346a6250a3a2b52269860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:13 +0000
Subject: [PATCH 01/11] fix: apply the modulus and the integer-only requirement
 of 'n % m' relations in the plural tables

'n % 100 = 3..10' was compiled to (3..=10).contains(&po.i), dropping the
modulus, and 'n % 10 = 1' ignored the fraction, so e.g. ar 103 was OTHER
instead of FEW and be 1.5 was ONE instead of OTHER.
---
 intl_pluralrules/src/rules.rs | 124 +++++++++++++++++++++-------------
 1 file changed, 76 insertions(+), 48 deletions(-)

diff --git a/intl_pluralrules/src/rules.rs b/intl_pluralrules/src/rules.rs
index 35984b6..b0ec840 100644
--- a/intl_pluralrules/src/rules.rs
+++ b/intl_pluralrules/src/rules.rs
@@ -57,9 +57,9 @@ pub const PRS_CARDINAL: &[(LanguageIdentifier, PluralRule)] = &[
     (
         langid!(subtags::Language::from_raw_unchecked(29281u64), None, None),
         |po| {
-            if ((3..=10).contains(&(po.i))) {
+            if ((3..=10).contains(&(po.i % 100)) && po.f == 0) {
                 PluralCategory::FEW
-            } else if ((11..=99).contains(&(po.i))) {
+            } else if ((11..=99).contains(&(po.i % 100)) && po.f == 0) {
                 PluralCategory::MANY
             } else if (po.n == 1.0) {
                 PluralCategory::ONE
@@ -79,9 +79,9 @@ pub const PRS_CARDINAL: &[(LanguageIdentifier, PluralRule)] = &[
             None
         ),
         |po| {
-            if ((3..=10).contains(&(po.i))) {
+            if ((3..=10).contains(&(po.i % 100)) && po.f == 0) {
                 PluralCategory::FEW
-            } else if ((11..=99).contains(&(po.i))) {
+            } else if ((11..=99).contains(&(po.i % 100)) && po.f == 0) {
                 PluralCategory::MANY
             } else if (po.n == 1.0) {
                 PluralCategory::ONE
@@ -145,14 +145,14 @@ pub const PRS_CARDINAL: &[(LanguageIdentifier, PluralRule)] = &[
     (
         langid!(subtags::Language::from_raw_unchecked(25954u64), None, None),
         |po| {
-            if ((2..=4).contains(&(po.i)) && !(12..=14).contains(&(po.i))) {
+            if ((2..=4).contains(&(po.i % 10)) && po.f == 0 && !(12..=14).contains(&(po.i % 100))) {
                 PluralCategory::FEW
-            } else if (po.i % 10 == 0)
-                || ((5..=9).contains(&(po.i)))
-                || ((11..=14).contains(&(po.i)))
+            } else if (po.i % 10 == 0 && po.f == 0)
+                || ((5..=9).contains(&(po.i % 10)) && po.f == 0)
+                || ((11..=14).contains(&(po.i % 100)) && po.f == 0)
             {
                 PluralCategory::MANY
-            } else if (po.i % 10 == 1 && po.i % 100 != 11) {
+            } else if (po.i % 10 == 1 && po.f == 0 && po.i % 100 != 11) {
                 PluralCategory::ONE
             } else {
                 PluralCategory::OTHER
@@ -232,17 +232,28 @@ pub const PRS_CARDINAL: &[(LanguageIdentifier, PluralRule)] = &[
     (
         langid!(subtags::Language::from_raw_unchecked(29282u64), None, None),
         |po| {
-            if ((po.i % 10 == 9 || (3..=4).contains(&(po.i)))
-                && !(10..=19).contains(&(po.i))
-                && !(70..=79).contains(&(po.i))
-                && !(90..=99).contains(&(po.i)))
+            if ((po.i % 10 == 9 || (3..=4).contains(&(po.i % 10)))
+                && po.f == 0
+                && !(10..=19).contains(&(po.i % 100))
+                && !(70..=79).contains(&(po.i % 100))
+                && !(90..=99).contains(&(po.i % 100)))
             {
                 PluralCategory::FEW
-            } else if (po.n != 0.0 && po.i % 1000000 == 0) {
+            } else if (po.n != 0.0 && po.i % 1000000 == 0 && po.f == 0) {
                 PluralCategory::MANY
-            } else if (po.i % 10 == 1 && po.i % 100 != 11 && po.i % 100 != 71 && po.i % 100 != 91) {
+            } else if (po.i % 10 == 1
+                && po.f == 0
+                && po.i % 100 != 11
+                && po.i % 100 != 71
+                && po.i % 100 != 91)
+            {
                 PluralCategory::ONE
-            } else if (po.i % 10 == 2 && po.i % 100 != 12 && po.i % 100 != 72 && po.i % 100 != 92) {
+            } else if (po.i % 10 == 2
+                && po.f == 0
+                && po.i % 100 != 12
+                && po.i % 100 != 72
+                && po.i % 100 != 92)
+            {
                 PluralCategory::TWO
             } else {
                 PluralCategory::OTHER
@@ -1119,11 +1130,12 @@ pub const PRS_CARDINAL: &[(LanguageIdentifier, PluralRule)] = &[
     (
         langid!(subtags::Language::from_raw_unchecked(30571u64), None, None),
         |po| {
-            if (po.i % 100 == 3
+            if ((po.i % 100 == 3
                 || po.i % 100 == 23
                 || po.i % 100 == 43
                 || po.i % 100 == 63
                 || po.i % 100 == 83)
+                && po.f == 0)
             {
                 PluralCategory::FEW
             } else if (po.n != 1.0
@@ -1131,22 +1143,26 @@ pub const PRS_CARDINAL: &[(LanguageIdentifier, PluralRule)] = &[
                     || po.i % 100 == 21
                     || po.i % 100 == 41
                     || po.i % 100 == 61
-                    || po.i % 100 == 81))
+                    || po.i % 100 == 81)
+                && po.f == 0)
             {
                 PluralCategory::MANY
             } else if (po.n == 1.0) {
                 PluralCategory::ONE
-            } else if (po.i % 100 == 2
+            } else if ((po.i % 100 == 2
                 || po.i % 100 == 22
                 || po.i % 100 == 42
                 || po.i % 100 == 62
                 || po.i % 100 == 82)
+                && po.f == 0)
                 || (po.i % 1000 == 0
+                    && po.f == 0
                     && (po.i % 100000 == 40000
                         || po.i % 100000 == 60000
                         || po.i % 100000 == 80000
-                        || (1000..=20000).contains(&(po.i))))
-                || (po.n != 0.0 && po.i % 1000000 == 100000)
+                        || (1000..=20000).contains(&(po.i % 100000)))
+                    && po.f == 0)
+                || (po.n != 0.0 && po.i % 1000000 == 100000 && po.f == 0)
             {
                 PluralCategory::TWO
             } else if (po.n == 0.0) {
@@ -1227,11 +1243,11 @@ pub const PRS_CARDINAL: &[(LanguageIdentifier, PluralRule)] = &[
     (
         langid!(subtags::Language::from_raw_unchecked(29804u64), None, None),
         |po| {
-            if ((2..=9).contains(&(po.i)) && !(11..=19).contains(&(po.i))) {
+            if ((2..=9).contains(&(po.i % 10)) && po.f == 0 && !(11..=19).contains(&(po.i % 100))) {
                 PluralCategory::FEW
             } else if (po.f != 0) {
                 PluralCategory::MANY
-            } else if (po.i % 10 == 1 && !(11..=19).contains(&(po.i))) {
+            } else if (po.i % 10 == 1 && po.f == 0 && !(11..=19).contains(&(po.i % 100))) {
                 PluralCategory::ONE
             } else {
                 PluralCategory::OTHER
@@ -1241,13 +1257,13 @@ pub const PRS_CARDINAL: &[(LanguageIdentifier, PluralRule)] = &[
     (
         langid!(subtags::Language::from_raw_unchecked(30316u64), None, None),
         |po| {
-            if (po.i % 10 == 1 && po.i % 100 != 11)
+            if (po.i % 10 == 1 && po.f == 0 && po.i % 100 != 11)
                 || (po.v == 2 && po.f % 10 == 1 && po.f % 100 != 11)
                 || (po.v != 2 && po.f % 10 == 1)
             {
                 PluralCategory::ONE
-            } else if (po.i % 10 == 0)
-                || ((11..=19).contains(&(po.i)))
+            } else if (po.i % 10 == 0 && po.f == 0)
+                || ((11..=19).contains(&(po.i % 100)) && po.f == 0)
                 || (po.v == 2 && (11..=19).contains(&(po.f % 100)))
             {
                 PluralCategory::ZERO
@@ -1329,7 +1345,7 @@ pub const PRS_CARDINAL: &[(LanguageIdentifier, PluralRule)] = &[
     (
         langid!(subtags::Language::from_raw_unchecked(28525u64), None, None),
         |po| {
-            if (po.v != 0) || (po.n == 0.0) || ((2..=19).contains(&(po.i))) {
+            if (po.v != 0) || (po.n == 0.0) || ((2..=19).contains(&(po.i % 100)) && po.f == 0) {
                 PluralCategory::FEW
             } else if (po.i == 1 && po.v == 0) {
                 PluralCategory::ONE
@@ -1355,9 +1371,9 @@ pub const PRS_CARDINAL: &[(LanguageIdentifier, PluralRule)] = &[
     (
         langid!(subtags::Language::from_raw_unchecked(29805u64), None, None),
         |po| {
-            if (po.n == 0.0) || ((2..=10).contains(&(po.i))) {
+            if (po.n == 0.0) || ((2..=10).contains(&(po.i % 100)) && po.f == 0) {
                 PluralCategory::FEW
-            } else if ((11..=19).contains(&(po.i))) {
+            } else if ((11..=19).contains(&(po.i % 100)) && po.f == 0) {
                 PluralCategory::MANY
             } else if (po.n == 1.0) {
                 PluralCategory::ONE
@@ -1630,13 +1646,13 @@ pub const PRS_CARDINAL: &[(LanguageIdentifier, PluralRule)] = &[
             None
         ),
         |po| {
-            if (po.i % 10 == 1 && po.i % 100 != 11)
+            if (po.i % 10 == 1 && po.f == 0 && po.i % 100 != 11)
                 || (po.v == 2 && po.f % 10 == 1 && po.f % 100 != 11)
                 || (po.v != 2 && po.f % 10 == 1)
             {
                 PluralCategory::ONE
-            } else if (po.i % 10 == 0)
-                || ((11..=19).contains(&(po.i)))
+            } else if (po.i % 10 == 0 && po.f == 0)
+                || ((11..=19).contains(&(po.i % 100)) && po.f == 0)
                 || (po.v == 2 && (11..=19).contains(&(po.f % 100)))
             {
                 PluralCategory::ZERO
@@ -1692,7 +1708,7 @@ pub const PRS_CARDINAL: &[(LanguageIdentifier, PluralRule)] = &[
     (
         langid!(subtags::Language::from_raw_unchecked(28530u64), None, None),
         |po| {
-            if (po.v != 0) || (po.n == 0.0) || ((2..=19).contains(&(po.i))) {
+            if (po.v != 0) || (po.n == 0.0) || ((2..=19).contains(&(po.i % 100)) && po.f == 0) {
                 PluralCategory::FEW
             } else if (po.i == 1 && po.v == 0) {
                 PluralCategory::ONE
@@ -2522,7 +2538,11 @@ pub const PRS_ORDINAL: &[(LanguageIdentifier, PluralRule)] = &[
     (
         langid!(subtags::Language::from_raw_unchecked(25954u64), None, None),
         |po| {
-            if ((po.i % 10 == 2 || po.i % 10 == 3) && po.i % 100 != 12 && po.i % 100 != 13) {
+            if ((po.i % 10 == 2 || po.i % 10 == 3)
+                && po.f == 0
+                && po.i % 100 != 12
+                && po.i % 100 != 13)
+            {
                 PluralCategory::FEW
             } else {
                 PluralCategory::OTHER
@@ -2622,11 +2642,11 @@ pub const PRS_ORDINAL: &[(LanguageIdentifier, PluralRule)] = &[
     (
         langid!(subtags::Language::from_raw_unchecked(28261u64), None, None),
         |po| {
-            if (po.i % 10 == 3 && po.i % 100 != 13) {
+            if (po.i % 10 == 3 && po.f == 0 && po.i % 100 != 13) {
                 PluralCategory::FEW
-            } else if (po.i % 10 == 1 && po.i % 100 != 11) {
+            } else if (po.i % 10 == 1 && po.f == 0 && po.i % 100 != 11) {
                 PluralCategory::ONE
-            } else if (po.i % 10 == 2 && po.i % 100 != 12) {
+            } else if (po.i % 10 == 2 && po.f == 0 && po.i % 100 != 12) {
                 PluralCategory::TWO
             } else {
                 PluralCategory::OTHER
@@ -2839,7 +2859,10 @@ pub const PRS_ORDINAL: &[(LanguageIdentifier, PluralRule)] = &[
     (
         langid!(subtags::Language::from_raw_unchecked(27499u64), None, None),
         |po| {
-            if (po.i % 10 == 6) || (po.i % 10 == 9) || (po.i % 10 == 0 && po.n != 0.0) {
+            if (po.i % 10 == 6 && po.f == 0)
+                || (po.i % 10 == 9 && po.f == 0)
+                || (po.i % 10 == 0 && po.f == 0 && po.n != 0.0)
+            {
                 PluralCategory::MANY
             } else {
                 PluralCategory::OTHER
@@ -2861,14 +2884,15 @@ pub const PRS_ORDINAL: &[(LanguageIdentifier, PluralRule)] = &[
     (
         langid!(subtags::Language::from_raw_unchecked(30571u64), None, None),
         |po| {
-            if (po.n == 5.0) || (po.i % 100 == 5) {
+            if (po.n == 5.0) || (po.i % 100 == 5 && po.f == 0) {
                 PluralCategory::MANY
             } else if ((1..=4).contains(&(po.i)) && po.f == 0)
-                || ((1..=4).contains(&(po.i))
-                    || (21..=24).contains(&(po.i))
-                    || (41..=44).contains(&(po.i))
-                    || (61..=64).contains(&(po.i))
-                    || (81..=84).contains(&(po.i)))
+                || (((1..=4).contains(&(po.i % 100))
+                    || (21..=24).contains(&(po.i % 100))
+                    || (41..=44).contains(&(po.i % 100))
+                    || (61..=64).contains(&(po.i % 100))
+                    || (81..=84).contains(&(po.i % 100)))
+                    && po.f == 0)
             {
                 PluralCategory::ONE
             } else {
@@ -3077,7 +3101,7 @@ pub const PRS_ORDINAL: &[(LanguageIdentifier, PluralRule)] = &[
     (
         langid!(subtags::Language::from_raw_unchecked(29043u64), None, None),
         |po| {
-            if (po.i % 10 == 4 && po.i % 100 != 14) {
+            if (po.i % 10 == 4 && po.f == 0 && po.i % 100 != 14) {
                 PluralCategory::MANY
             } else if (po.n == 1.0) {
                 PluralCategory::ONE
@@ -3093,7 +3117,11 @@ pub const PRS_ORDINAL: &[(LanguageIdentifier, PluralRule)] = &[
     (
         langid!(subtags::Language::from_raw_unchecked(30323u64), None, None),
         |po| {
-            if ((po.i % 10 == 1 || po.i % 10 == 2) && po.i % 100 != 11 && po.i % 100 != 12) {
+            if ((po.i % 10 == 1 || po.i % 10 == 2)
+                && po.f == 0
+                && po.i % 100 != 11
+                && po.i % 100 != 12)
+            {
                 PluralCategory::ONE
             } else {
                 PluralCategory::OTHER
@@ -3119,7 +3147,7 @@ pub const PRS_ORDINAL: &[(LanguageIdentifier, PluralRule)] = &[
     (
         langid!(subtags::Language::from_raw_unchecked(27508u64), None, None),
         |po| {
-            if (po.i % 10 == 6 || po.i % 10 == 9) || (po.n == 10.0) {
+            if ((po.i % 10 == 6 || po.i % 10 == 9) && po.f == 0) || (po.n == 10.0) {
                 PluralCategory::FEW
             } else {
                 PluralCategory::OTHER
@@ -3143,7 +3171,7 @@ pub const PRS_ORDINAL: &[(LanguageIdentifier, PluralRule)] = &[
     (
         langid!(subtags::Language::from_raw_unchecked(27509u64), None, None),
         |po| {
-            if (po.i % 10 == 3 && po.i % 100 != 13) {
+            if (po.i % 10 == 3 && po.f == 0 && po.i % 100 != 13) {
                 PluralCategory::FEW
             } else {
                 PluralCategory::OTHER
-- 
2.43.0


From 30f45555aae5acffc046145a80f63372f4676b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:10 +0000
Subject: [PATCH 02/11] fix: reject texts that are not a representable number
 when building operands

Integer texts above 2^53 lost precision, texts above u64::MAX saturated, and
'inf', 'nan', '--5' and '1e-1' were accepted with operands that do not
describe them.
---
 intl_pluralrules/src/operands.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/intl_pluralrules/src/operands.rs b/intl_pluralrules/src/operands.rs
index 102ae87..69b4147 100644
--- a/intl_pluralrules/src/operands.rs
+++ b/intl_pluralrules/src/operands.rs
@@ -103,7 +103,18 @@ impl<'a> TryFrom<&'a str> for PluralOperands {
                 u64::from_str(dec_str).map_err(|_| "Could not convert string to integer!")?;
             fraction_digits = u64::from_str(backtrace).unwrap_or(0);
         } else {
-            integer_digits = absolute_value as u64;
+            integer_digits = match u64::from_str(abs_str) {
+                Ok(digits) => digits,
+                // An integer in scientific notation, such as `1e3`.
+                Err(_)
+                    if absolute_value.is_sign_positive()
+                        && absolute_value.fract() == 0.0
+                        && absolute_value < 18446744073709551616.0 =>
+                {
+                    absolute_value as u64
+                }
+                Err(_) => return Err("Could not convert string to integer!"),
+            };
             num_fraction_digits0 = 0;
             num_fraction_digits = 0;
             fraction_digits0 = 0;
-- 
2.43.0


From 8103d5dc29bee873436483029eb2bca9a85ff7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:10 +0000
Subject: [PATCH 03/11] fix: parse the samples of a rule without a condition

A rule text starting with '@' was accepted whatever followed, and its samples
were dropped.
---
 cldr_pluralrules_parser/src/parser.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cldr_pluralrules_parser/src/parser.rs b/cldr_pluralrules_parser/src/parser.rs
index 324708f..c145151 100644
--- a/cldr_pluralrules_parser/src/parser.rs
+++ b/cldr_pluralrules_parser/src/parser.rs
@@ -148,11 +148,11 @@ fn samples(i: &str) -> IResult<&str, Option<Samples>> {
     map(
         tuple((
             opt(preceded(
-                tuple((space1, tag("@integer"), space1)),
+                tuple((space0, tag("@integer"), space1)),
                 sample_list,
             )),
             opt(preceded(
-                tuple((space1, tag("@decimal"), space1)),
+                tuple((space0, tag("@decimal"), space1)),
                 sample_list,
             )),
         )),
@@ -178,8 +178,8 @@ pub fn parse_condition(i: &str) -> IResult<&str, Condition> {
         return IResult::Ok(("", Condition(vec![])));
     }
 
-    if i.trim().starts_with("@") {
-        return IResult::Ok(("", Condition(vec![])));
+    if i.trim_start().starts_with('@') {
+        return IResult::Ok((i.trim_start(), Condition(vec![])));
     }
     map(
         separated_nonempty_list(tuple((space1, tag("or"), space1)), and_condition),
-- 
2.43.0


From 3121d781c5ee7cc6cccda3c26baaf23b562ef565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:10 +0000
Subject: [PATCH 04/11] fix: reject a relation without any value

'n =' parsed as a relation with an empty range list.
---
 cldr_pluralrules_parser/src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cldr_pluralrules_parser/src/parser.rs b/cldr_pluralrules_parser/src/parser.rs
index c145151..1b9ad4c 100644
--- a/cldr_pluralrules_parser/src/parser.rs
+++ b/cldr_pluralrules_parser/src/parser.rs
@@ -5,7 +5,7 @@ use nom::{
     bytes::complete::tag,
     character::complete::{digit1, one_of, space0, space1},
     combinator::{map, map_res, opt},
-    multi::{separated_list, separated_nonempty_list},
+    multi::separated_nonempty_list,
     sequence::{preceded, separated_pair, tuple},
     IResult,
 };
@@ -33,7 +33,7 @@ fn range_list_item(i: &str) -> IResult<&str, RangeListItem> {
 
 fn range_list(i: &str) -> IResult<&str, RangeList> {
     map(
-        separated_list(tuple((space0, tag(","), space0)), range_list_item),
+        separated_nonempty_list(tuple((space0, tag(","), space0)), range_list_item),
         RangeList,
     )(i)
 }
-- 
2.43.0


From efae520c7c13441d4c20714ae0162e772b450f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:30 +0000
Subject: [PATCH 05/11] fix: accept a modulus without a blank after the
 operator

---
 cldr_pluralrules_parser/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cldr_pluralrules_parser/src/parser.rs b/cldr_pluralrules_parser/src/parser.rs
index 1b9ad4c..3922cbf 100644
--- a/cldr_pluralrules_parser/src/parser.rs
+++ b/cldr_pluralrules_parser/src/parser.rs
@@ -52,7 +52,7 @@ fn operand(i: &str) -> IResult<&str, Operand> {
 
 fn mod_expression(i: &str) -> IResult<&str, Option<Modulo>> {
     opt(map(
-        preceded(tuple((space0, alt((tag("mod"), tag("%"))), space1)), value),
+        preceded(tuple((space0, alt((tag("mod"), tag("%"))), space0)), value),
         Modulo,
     ))(i)
 }
-- 
2.43.0


From 112f82ad8721e47d469878f0471f9fe80d60c6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:10 +0000
Subject: [PATCH 06/11] fix: take the modulus of the operand itself in
 generated 'within' relations

---
 make_pluralrules/src/parser/gen_pr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/make_pluralrules/src/parser/gen_pr.rs b/make_pluralrules/src/parser/gen_pr.rs
index c31936f..9c36312 100644
--- a/make_pluralrules/src/parser/gen_pr.rs
+++ b/make_pluralrules/src/parser/gen_pr.rs
@@ -101,7 +101,7 @@ fn create_relation(rel: Relation) -> TokenStream {
                 if !mod_check {
                     quote!(po.#l)
                 } else {
-                    quote!(po.i % #m)
+                    quote!(po.#l % #m)
                 },
             )
         };
-- 
2.43.0


From 8793c99e1a1caaf86f7ac8d66034f1e4e4ba0443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:42 +0000
Subject: [PATCH 07/11] fix: honour every item of the list of a generated
 'within' relation

---
 make_pluralrules/src/parser/gen_pr.rs | 50 +++++++++++++++------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/make_pluralrules/src/parser/gen_pr.rs b/make_pluralrules/src/parser/gen_pr.rs
index 9c36312..b701262 100644
--- a/make_pluralrules/src/parser/gen_pr.rs
+++ b/make_pluralrules/src/parser/gen_pr.rs
@@ -84,30 +84,33 @@ fn create_relation(rel: Relation) -> TokenStream {
 
     // If within type operator, use format x < po && po < y
     if operator == Operator::Within || operator == Operator::NotWithin {
-        let rfront = &(r1.1)[0].0;
-        let rback = &(r1.1)[0].1;
+        // A plain value is a range of one.
+        let values = r1.0.iter().map(|value| (value, value));
+        let ranges = r1.1.iter().map(|range| (&range.0, &range.1));
 
-        // Variants handled here
-        let (rfront, rback, whole_symbol) = if left.operand == Operand::N {
-            if !mod_check {
-                (quote!(#rfront.0), quote!(#rback.0), quote!(po.#l))
-            } else {
-                (quote!(#rfront), quote!(#rback), quote!(po.i % #m))
-            }
-        } else {
-            (
-                quote!(#rfront),
-                quote!(#rback),
+        for (rfront, rback) in values.chain(ranges) {
+            // Variants handled here
+            let (rfront, rback, whole_symbol) = if left.operand == Operand::N {
                 if !mod_check {
-                    quote!(po.#l)
+                    (quote!(#rfront.0), quote!(#rback.0), quote!(po.#l))
                 } else {
-                    quote!(po.#l % #m)
-                },
-            )
-        };
+                    (quote!(#rfront), quote!(#rback), quote!(po.i % #m))
+                }
+            } else {
+                (
+                    quote!(#rfront),
+                    quote!(#rback),
+                    if !mod_check {
+                        quote!(po.#l)
+                    } else {
+                        quote!(po.#l % #m)
+                    },
+                )
+            };
 
-        let rel_tokens = quote! { #rfront #o #whole_symbol && #whole_symbol #o #rback};
-        relations.push(rel_tokens);
+            let rel_tokens = quote! { #rfront #o #whole_symbol && #whole_symbol #o #rback};
+            relations.push(rel_tokens);
+        }
     // if not within type, use format po < x
     } else {
         // Recurisvely fold all values
@@ -173,15 +176,16 @@ fn create_relation(rel: Relation) -> TokenStream {
 
     // Unfold all expressions from folded expressions
     match operator {
-        Operator::In | Operator::Is | Operator::EQ => {
+        Operator::In | Operator::Is | Operator::EQ | Operator::Within => {
             if relations.len() > 1 {
                 quote! { ( #(#relations)||* ) }
             } else {
                 quote! { #(#relations)||* }
             }
         }
-        Operator::NotIn | Operator::NotEQ | Operator::IsNot => quote! { #(#relations)&&* },
-        Operator::Within | Operator::NotWithin => quote! { #(#relations)||* },
+        Operator::NotIn | Operator::NotEQ | Operator::IsNot | Operator::NotWithin => {
+            quote! { #(#relations)&&* }
+        }
     }
 }
 
-- 
2.43.0


From cb650309b6c3fc4357aa59df42f896ae23323c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:15 +0000
Subject: [PATCH 08/11] fix: refuse rules whose condition is only understood in
 part

---
 make_pluralrules/src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/make_pluralrules/src/lib.rs b/make_pluralrules/src/lib.rs
index d233385..d56a864 100644
--- a/make_pluralrules/src/lib.rs
+++ b/make_pluralrules/src/lib.rs
@@ -88,9 +88,14 @@ fn gen_type_rs(rules: BTreeMap<String, BTreeMap<String, String>>) -> Vec<TokenSt
             // cat_name is the simplified category name from the CLDR source file
             let cat_name = rule_name.split('-').collect::<Vec<_>>()[2];
 
+            // The samples are of no interest here, but the condition before them has to be read
+            // to its end: parse_plural_condition would ignore whatever it does not understand.
+            let condition = rule_line.split('@').next().unwrap_or("").trim();
+
             // representation is the
-            let representation = cldr_pluralrules_parser::parse_plural_condition(rule_line)
-                .expect("Parsing of a condition succeeded");
+            let representation = cldr_pluralrules_parser::parse_plural_rule(condition)
+                .expect("Parsing of a condition succeeded")
+                .condition;
 
             let cat = if cat_name == "zero" {
                 PluralCategory::ZERO
-- 
2.43.0


From a525f12e6129b8b17350a6a8b6a2b025c0295cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:15 +0000
Subject: [PATCH 09/11] fix: refuse relations without a value

---
 make_pluralrules/src/lib.rs           | 3 ++-
 make_pluralrules/src/parser/gen_pr.rs | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/make_pluralrules/src/lib.rs b/make_pluralrules/src/lib.rs
index d56a864..23027ba 100644
--- a/make_pluralrules/src/lib.rs
+++ b/make_pluralrules/src/lib.rs
@@ -111,9 +111,10 @@ fn gen_type_rs(rules: BTreeMap<String, BTreeMap<String, String>>) -> Vec<TokenSt
                 PluralCategory::OTHER
             };
 
+            let tokens = parser::gen_pr::gen_pr(representation);
+
             // Only allow rules that are not `OTHER` to be added. `OTHER` can have no rules and is added outside of the loop.
             if cat != PluralCategory::OTHER {
-                let tokens = parser::gen_pr::gen_pr(representation);
                 this_lang_rules.push((cat, tokens));
             }
         }
diff --git a/make_pluralrules/src/parser/gen_pr.rs b/make_pluralrules/src/parser/gen_pr.rs
index b701262..e07167c 100644
--- a/make_pluralrules/src/parser/gen_pr.rs
+++ b/make_pluralrules/src/parser/gen_pr.rs
@@ -51,6 +51,9 @@ fn create_relation(rel: Relation) -> TokenStream {
     let left = rel.expression;
     let operator = rel.operator;
     let right = rel.range_list;
+    if right.0.is_empty() {
+        panic!("A relation needs at least one value.");
+    }
 
     // All relations that need to be represented in the rust code are folded here. They are unfolded into one token steam later.
     let mut relations = Vec::<TokenStream>::new();
-- 
2.43.0


From e5a086d729f9c35184b97111709dc6b0d2cc4dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:50 +0000
Subject: [PATCH 10/11] fix: refuse a negative CLDR version

---
 make_pluralrules/src/parser/gen_rs.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/make_pluralrules/src/parser/gen_rs.rs b/make_pluralrules/src/parser/gen_rs.rs
index 66c6f6a..95625d9 100644
--- a/make_pluralrules/src/parser/gen_rs.rs
+++ b/make_pluralrules/src/parser/gen_rs.rs
@@ -37,8 +37,8 @@ pub fn gen_fn(streams: BTreeMap<String, Vec<TokenStream>>, vr: &str) -> TokenStr
         }
     };
     let plural_function = quote! { pub type PluralRule = fn(&PluralOperands) -> PluralCategory; };
-    let num: isize = vr.parse().unwrap();
-    let ver = Literal::u64_unsuffixed(num as u64);
+    let num: u64 = vr.parse().unwrap();
+    let ver = Literal::u64_unsuffixed(num);
     let version = quote! { pub static CLDR_VERSION: usize = #ver; };
     let head = quote! { #ignore_noncritical_errors #use_statements #plural_function #version #langid_macro };
     let mut tokens = Vec::<TokenStream>::new();
-- 
2.43.0


From c1e8de411eb320afbc978d396a171d9ac65c006b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:57 +0000
Subject: [PATCH 11/11] fix: refuse a rule without a condition for a category
 that needs one

---
 make_pluralrules/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/make_pluralrules/src/lib.rs b/make_pluralrules/src/lib.rs
index 23027ba..6e47d60 100644
--- a/make_pluralrules/src/lib.rs
+++ b/make_pluralrules/src/lib.rs
@@ -111,6 +111,10 @@ fn gen_type_rs(rules: BTreeMap<String, BTreeMap<String, String>>) -> Vec<TokenSt
                 PluralCategory::OTHER
             };
 
+            if cat != PluralCategory::OTHER && representation.0.is_empty() {
+                panic!("Only the category `other` can have a rule without a condition.");
+            }
+
             let tokens = parser::gen_pr::gen_pr(representation);
 
             // Only allow rules that are not `OTHER` to be added. `OTHER` can have no rules and is added outside of the loop.
-- 
2.43.0

