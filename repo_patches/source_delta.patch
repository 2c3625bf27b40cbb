From aff9264fe49daddfe3983de7b2c803f379d16092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:56 +0000
Subject: [PATCH 01/12] fix: keep every integer digit of numeric text above
 2^53

---
 intl_pluralrules/src/operands.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/intl_pluralrules/src/operands.rs b/intl_pluralrules/src/operands.rs
index 102ae87..95ef054 100644
--- a/intl_pluralrules/src/operands.rs
+++ b/intl_pluralrules/src/operands.rs
@@ -103,7 +103,8 @@ impl<'a> TryFrom<&'a str> for PluralOperands {
                 u64::from_str(dec_str).map_err(|_| "Could not convert string to integer!")?;
             fraction_digits = u64::from_str(backtrace).unwrap_or(0);
         } else {
-            integer_digits = absolute_value as u64;
+            // Past 2^53 the float has lost digits that the text still has.
+            integer_digits = u64::from_str(&abs_str).unwrap_or(absolute_value as u64);
             num_fraction_digits0 = 0;
             num_fraction_digits = 0;
             fraction_digits0 = 0;
-- 
2.43.0


From 6031f528543b76cdd132bfe0f56d52a1be3b47db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:57 +0000
Subject: [PATCH 02/12] fix: reject a second sign in numeric text

---
 intl_pluralrules/src/operands.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/intl_pluralrules/src/operands.rs b/intl_pluralrules/src/operands.rs
index 95ef054..3c87bff 100644
--- a/intl_pluralrules/src/operands.rs
+++ b/intl_pluralrules/src/operands.rs
@@ -80,6 +80,10 @@ impl<'a> TryFrom<&'a str> for PluralOperands {
             &input
         };
 
+        if input.starts_with('-') && abs_str.starts_with(|c| c == '-' || c == '+') {
+            return Err("Incorrect number passed!");
+        }
+
         let absolute_value = f64::from_str(&abs_str).map_err(|_| "Incorrect number passed!")?;
 
         let integer_digits;
-- 
2.43.0


From 946cc34e77d47fa1f145073638de1fdda4ad455a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:39 +0000
Subject: [PATCH 03/12] fix: parse a modulus without blank space after the
 operator

---
 cldr_pluralrules_parser/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cldr_pluralrules_parser/src/parser.rs b/cldr_pluralrules_parser/src/parser.rs
index 324708f..a813051 100644
--- a/cldr_pluralrules_parser/src/parser.rs
+++ b/cldr_pluralrules_parser/src/parser.rs
@@ -52,7 +52,7 @@ fn operand(i: &str) -> IResult<&str, Operand> {
 
 fn mod_expression(i: &str) -> IResult<&str, Option<Modulo>> {
     opt(map(
-        preceded(tuple((space0, alt((tag("mod"), tag("%"))), space1)), value),
+        preceded(tuple((space0, alt((tag("mod"), tag("%"))), space0)), value),
         Modulo,
     ))(i)
 }
-- 
2.43.0


From 14f09ee097820909567c801a787ead31b361b6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:40 +0000
Subject: [PATCH 04/12] fix: keep the samples of a rule without a condition

---
 cldr_pluralrules_parser/src/parser.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cldr_pluralrules_parser/src/parser.rs b/cldr_pluralrules_parser/src/parser.rs
index a813051..50769d9 100644
--- a/cldr_pluralrules_parser/src/parser.rs
+++ b/cldr_pluralrules_parser/src/parser.rs
@@ -148,11 +148,11 @@ fn samples(i: &str) -> IResult<&str, Option<Samples>> {
     map(
         tuple((
             opt(preceded(
-                tuple((space1, tag("@integer"), space1)),
+                tuple((space0, tag("@integer"), space1)),
                 sample_list,
             )),
             opt(preceded(
-                tuple((space1, tag("@decimal"), space1)),
+                tuple((space0, tag("@decimal"), space1)),
                 sample_list,
             )),
         )),
@@ -179,7 +179,7 @@ pub fn parse_condition(i: &str) -> IResult<&str, Condition> {
     }
 
     if i.trim().starts_with("@") {
-        return IResult::Ok(("", Condition(vec![])));
+        return IResult::Ok((i.trim(), Condition(vec![])));
     }
     map(
         separated_nonempty_list(tuple((space1, tag("or"), space1)), and_condition),
-- 
2.43.0


From 9b90b828708636e82a0a8603f182096acd9a2ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:42 +0000
Subject: [PATCH 05/12] fix: report the text a condition is cut short at

---
 cldr_pluralrules_parser/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cldr_pluralrules_parser/src/lib.rs b/cldr_pluralrules_parser/src/lib.rs
index c75f236..2d3318a 100644
--- a/cldr_pluralrules_parser/src/lib.rs
+++ b/cldr_pluralrules_parser/src/lib.rs
@@ -87,7 +87,8 @@ pub fn parse_plural_rule<S: AsRef<str>>(source: S) -> Result<ast::Rule, String>
 
 pub fn parse_plural_condition<S: AsRef<str>>(source: S) -> Result<ast::Condition, String> {
     match parser::parse_condition(source.as_ref()) {
-        Ok((_, rule)) => Ok(rule),
+        Ok((left, rule)) if left.trim().is_empty() || left.trim().starts_with('@') => Ok(rule),
+        Ok((left, _)) => Err(format!("Left string: {}", left)),
         _ => Err("Parser failed".to_string()),
     }
 }
-- 
2.43.0


From d3f8c9b7fbb88e16346b59535014cca677f3209d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:43 +0000
Subject: [PATCH 06/12] fix: a relation needs at least one value

---
 cldr_pluralrules_parser/src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cldr_pluralrules_parser/src/parser.rs b/cldr_pluralrules_parser/src/parser.rs
index 50769d9..3115efa 100644
--- a/cldr_pluralrules_parser/src/parser.rs
+++ b/cldr_pluralrules_parser/src/parser.rs
@@ -5,7 +5,7 @@ use nom::{
     bytes::complete::tag,
     character::complete::{digit1, one_of, space0, space1},
     combinator::{map, map_res, opt},
-    multi::{separated_list, separated_nonempty_list},
+    multi::separated_nonempty_list,
     sequence::{preceded, separated_pair, tuple},
     IResult,
 };
@@ -33,7 +33,7 @@ fn range_list_item(i: &str) -> IResult<&str, RangeListItem> {
 
 fn range_list(i: &str) -> IResult<&str, RangeList> {
     map(
-        separated_list(tuple((space0, tag(","), space0)), range_list_item),
+        separated_nonempty_list(tuple((space0, tag(","), space0)), range_list_item),
         RangeList,
     )(i)
 }
-- 
2.43.0


From 11418d4ae41fcde0d85c86977e711274f8828f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:26 +0000
Subject: [PATCH 07/12] fix: refuse conditions that are only parsed in part

---
 make_pluralrules/src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/make_pluralrules/src/lib.rs b/make_pluralrules/src/lib.rs
index d233385..b02e541 100644
--- a/make_pluralrules/src/lib.rs
+++ b/make_pluralrules/src/lib.rs
@@ -88,9 +88,11 @@ fn gen_type_rs(rules: BTreeMap<String, BTreeMap<String, String>>) -> Vec<TokenSt
             // cat_name is the simplified category name from the CLDR source file
             let cat_name = rule_name.split('-').collect::<Vec<_>>()[2];
 
-            // representation is the
-            let representation = cldr_pluralrules_parser::parse_plural_condition(rule_line)
-                .expect("Parsing of a condition succeeded");
+            // representation is the AST of the whole condition, which ends where the samples start
+            let condition = rule_line.split('@').next().unwrap_or_default().trim_end();
+            let representation = cldr_pluralrules_parser::parse_plural_rule(condition)
+                .expect("Parsing of a condition succeeded")
+                .condition;
 
             let cat = if cat_name == "zero" {
                 PluralCategory::ZERO
-- 
2.43.0


From 924c2dc0d75cd279440843364befea3f417536c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:39 +0000
Subject: [PATCH 08/12] fix: generate within relations with values, several
 ranges or a modulus of any operand

---
 make_pluralrules/src/parser/gen_pr.rs | 47 +++++++++++++--------------
 1 file changed, 23 insertions(+), 24 deletions(-)

diff --git a/make_pluralrules/src/parser/gen_pr.rs b/make_pluralrules/src/parser/gen_pr.rs
index c31936f..ad8a016 100644
--- a/make_pluralrules/src/parser/gen_pr.rs
+++ b/make_pluralrules/src/parser/gen_pr.rs
@@ -84,30 +84,28 @@ fn create_relation(rel: Relation) -> TokenStream {
 
     // If within type operator, use format x < po && po < y
     if operator == Operator::Within || operator == Operator::NotWithin {
-        let rfront = &(r1.1)[0].0;
-        let rback = &(r1.1)[0].1;
-
         // Variants handled here
-        let (rfront, rback, whole_symbol) = if left.operand == Operand::N {
-            if !mod_check {
-                (quote!(#rfront.0), quote!(#rback.0), quote!(po.#l))
-            } else {
-                (quote!(#rfront), quote!(#rback), quote!(po.i % #m))
-            }
-        } else {
-            (
-                quote!(#rfront),
-                quote!(#rback),
-                if !mod_check {
-                    quote!(po.#l)
-                } else {
-                    quote!(po.i % #m)
-                },
-            )
+        let float = left.operand == Operand::N && !mod_check;
+        let whole_symbol = match (&left.operand, mod_check) {
+            (_, false) => quote!(po.#l),
+            (Operand::N, true) => quote!(po.i % #m),
+            (_, true) => quote!(po.#l % #m),
         };
+        let with_type = |r: &Literal| if float { quote!(#r.0) } else { quote!(#r) };
 
-        let rel_tokens = quote! { #rfront #o #whole_symbol && #whole_symbol #o #rback};
-        relations.push(rel_tokens);
+        for r in &r1.0 {
+            let rval = with_type(r);
+            relations.push(if operator == Operator::Within {
+                quote! { #whole_symbol == #rval }
+            } else {
+                quote! { #whole_symbol != #rval }
+            });
+        }
+        for r in &r1.1 {
+            let rfront = with_type(&r.0);
+            let rback = with_type(&r.1);
+            relations.push(quote! { #rfront #o #whole_symbol && #whole_symbol #o #rback});
+        }
     // if not within type, use format po < x
     } else {
         // Recurisvely fold all values
@@ -173,15 +171,16 @@ fn create_relation(rel: Relation) -> TokenStream {
 
     // Unfold all expressions from folded expressions
     match operator {
-        Operator::In | Operator::Is | Operator::EQ => {
+        Operator::In | Operator::Is | Operator::EQ | Operator::Within => {
             if relations.len() > 1 {
                 quote! { ( #(#relations)||* ) }
             } else {
                 quote! { #(#relations)||* }
             }
         }
-        Operator::NotIn | Operator::NotEQ | Operator::IsNot => quote! { #(#relations)&&* },
-        Operator::Within | Operator::NotWithin => quote! { #(#relations)||* },
+        Operator::NotIn | Operator::NotEQ | Operator::IsNot | Operator::NotWithin => {
+            quote! { #(#relations)&&* }
+        }
     }
 }
 
-- 
2.43.0


From 7d6311f0111d574bd9981164a1d39fca6233662f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:40 +0000
Subject: [PATCH 09/12] fix: refuse relations without a value

---
 make_pluralrules/src/parser/gen_pr.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/make_pluralrules/src/parser/gen_pr.rs b/make_pluralrules/src/parser/gen_pr.rs
index ad8a016..cf8face 100644
--- a/make_pluralrules/src/parser/gen_pr.rs
+++ b/make_pluralrules/src/parser/gen_pr.rs
@@ -66,6 +66,9 @@ fn create_relation(rel: Relation) -> TokenStream {
     let l = Ident::new(l, Span::call_site());
     let o = get_operator_symbol(&operator);
     let r1 = convert_rangl(right);
+    if r1.0.is_empty() && r1.1.is_empty() {
+        panic!("A relation needs at least one value!");
+    }
 
     // If there is a modulus, convert to literal. If not, placehold literal
     let (mod_check, m) = if left.modulus != None {
-- 
2.43.0


From 0e875fc98f9bbc7daaac4e3f431fa40309ffb180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:57 +0000
Subject: [PATCH 10/12] fix: report when rustfmt cannot format the output

A failing rustfmt left raw code behind while the tool reported success, and an
output name starting with a dash was taken for an option of rustfmt.
---
 make_pluralrules/src/main.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/make_pluralrules/src/main.rs b/make_pluralrules/src/main.rs
index f8641a1..b0e6f05 100644
--- a/make_pluralrules/src/main.rs
+++ b/make_pluralrules/src/main.rs
@@ -29,10 +29,19 @@ fn main() -> std::io::Result<()> {
     file.write_all(complete_rs_code.as_bytes())?;
 
     if !matches.is_present("ugly") {
-        Command::new("rustfmt")
-            .args(&[output_path])
+        let formatted = Command::new("rustfmt")
+            .args(&["--", output_path])
             .output()
             .expect("Failed to format the output using `rustfmt`");
+        if !formatted.status.success() {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::Other,
+                format!(
+                    "`rustfmt` failed to format the output: {}",
+                    String::from_utf8_lossy(&formatted.stderr)
+                ),
+            ));
+        }
     }
 
     Ok(())
-- 
2.43.0


From dad96a5f9ca76a4556097680949e8325a70e41b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:26 +0000
Subject: [PATCH 11/12] fix: reject an incomplete condition of an `other` rule
 too

---
 make_pluralrules/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/make_pluralrules/src/lib.rs b/make_pluralrules/src/lib.rs
index b02e541..2fc3526 100644
--- a/make_pluralrules/src/lib.rs
+++ b/make_pluralrules/src/lib.rs
@@ -108,9 +108,11 @@ fn gen_type_rs(rules: BTreeMap<String, BTreeMap<String, String>>) -> Vec<TokenSt
                 PluralCategory::OTHER
             };
 
+            // Every condition has to be complete, also one that is not used.
+            let tokens = parser::gen_pr::gen_pr(representation);
+
             // Only allow rules that are not `OTHER` to be added. `OTHER` can have no rules and is added outside of the loop.
             if cat != PluralCategory::OTHER {
-                let tokens = parser::gen_pr::gen_pr(representation);
                 this_lang_rules.push((cat, tokens));
             }
         }
-- 
2.43.0


From ddf3d382cd68e5500821d694c92178d660387790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:16 +0000
Subject: [PATCH 12/12] fix: reject a negative CLDR version instead of wrapping
 it

---
 make_pluralrules/src/parser/gen_rs.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/make_pluralrules/src/parser/gen_rs.rs b/make_pluralrules/src/parser/gen_rs.rs
index 66c6f6a..95625d9 100644
--- a/make_pluralrules/src/parser/gen_rs.rs
+++ b/make_pluralrules/src/parser/gen_rs.rs
@@ -37,8 +37,8 @@ pub fn gen_fn(streams: BTreeMap<String, Vec<TokenStream>>, vr: &str) -> TokenStr
         }
     };
     let plural_function = quote! { pub type PluralRule = fn(&PluralOperands) -> PluralCategory; };
-    let num: isize = vr.parse().unwrap();
-    let ver = Literal::u64_unsuffixed(num as u64);
+    let num: u64 = vr.parse().unwrap();
+    let ver = Literal::u64_unsuffixed(num);
     let version = quote! { pub static CLDR_VERSION: usize = #ver; };
     let head = quote! { #ignore_noncritical_errors #use_statements #plural_function #version #langid_macro };
     let mut tokens = Vec::<TokenStream>::new();
-- 
2.43.0

