From 3afce300ff091276395f79c290a4f5a69eb9b41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:19 +0000
Subject: [PATCH 01/16] fix: report an invalid epoch as a parsing error instead
 of panicking

---
 core/src/version/parsers/conda.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/src/version/parsers/conda.rs b/core/src/version/parsers/conda.rs
index fd89175..72bb787 100644
--- a/core/src/version/parsers/conda.rs
+++ b/core/src/version/parsers/conda.rs
@@ -16,7 +16,12 @@ pub fn conda_parser(
     let epoch_split: Vec<&str> = version.split("!").collect();
     let post_epoch_split: &str = match epoch_split.len() {
         2 => {
-            parts.push(VersionPart::Epoch(epoch_split[0].parse().unwrap()));
+            match epoch_split[0].parse() {
+                Ok(epoch) => parts.push(VersionPart::Epoch(epoch)),
+                Err(_) => return Err(VersionParsingError::Message(format!(
+                    "invalid epoch in version string {}", version
+                )))
+            }
             epoch_split[1]
         },
         1 => {
-- 
2.43.0


From 6ec154e504d030ed7cd34e23f9fc88713d3bb442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:19 +0000
Subject: [PATCH 02/16] fix: compare every trailing part, not only the first
 one (1 == 1.0.1)

---
 core/src/version/version.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/src/version/version.rs b/core/src/version/version.rs
index 0ec9730..24e95a4 100644
--- a/core/src/version/version.rs
+++ b/core/src/version/version.rs
@@ -274,7 +274,6 @@ impl Version {
                 (Some(i), Some(j)) => match i.partial_cmp(j) {
                     Some(Ordering::Greater) => return CompOp::Gt,
                     Some(Ordering::Less) => return CompOp::Lt,
-                    // This is the only loop branch that continues
                     Some(Ordering::Equal) => Ordering::Equal,
                     _ => unreachable!("Ignoring ge, le, ne"),
                 },
@@ -284,13 +283,14 @@ impl Version {
                 (Some(i), None) => match i.partial_cmp(&&i.get_empty()) {
                     Some(Ordering::Less) => return CompOp::Lt,
                     Some(Ordering::Greater) => return CompOp::Gt,
-                    Some(Ordering::Equal) => return CompOp::Eq,
+                    // a later place may still differ from its "zero"
+                    Some(Ordering::Equal) => Ordering::Equal,
                     _ => unreachable!("Ignoring ge, le, ne"),
                 },
                 (None, Some(j)) => match &j.get_empty().partial_cmp(j) {
                     Some(Ordering::Less) => return CompOp::Lt,
                     Some(Ordering::Greater) => return CompOp::Gt,
-                    Some(Ordering::Equal) => return CompOp::Eq,
+                    Some(Ordering::Equal) => Ordering::Equal,
                     _ => unreachable!("Ignoring ge, le, ne"),
                 },
 
-- 
2.43.0


From ace35ae484caff9987cd05a28eb8839854f59cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:19 +0000
Subject: [PATCH 03/16] fix: compare_to_version answers "self operator other",
 as documented

---
 core/src/version/matching.rs |  2 +-
 core/src/version/version.rs  | 10 ++++------
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/core/src/version/matching.rs b/core/src/version/matching.rs
index c2ebf99..e7c4fe4 100644
--- a/core/src/version/matching.rs
+++ b/core/src/version/matching.rs
@@ -146,7 +146,7 @@ pub struct MatchOperator {
 }
 impl MatchFn for MatchOperator {
     fn test(&self, other: &Version) -> bool {
-        self.version.compare_to_version(other, &self.operator)
+        other.compare_to_version(&self.version, &self.operator)
     }
 }
 
diff --git a/core/src/version/version.rs b/core/src/version/version.rs
index 24e95a4..cad873f 100644
--- a/core/src/version/version.rs
+++ b/core/src/version/version.rs
@@ -208,10 +208,8 @@ impl Version {
 
     pub fn compare_to_version(&self, other: &Version, operator: &CompOp) -> bool {
         match operator {
-            // these look inverted. What we're saying when we have a.b.* (spec) and a.b.c (other version)
-            //     is that a.b.c starts with the spec (up until the star)
-            CompOp::StartsWith => other.startswith(self),
-            CompOp::NotStartsWith => !other.startswith(self),
+            CompOp::StartsWith => self.startswith(other),
+            CompOp::NotStartsWith => !self.startswith(other),
             CompOp::Compatible => unimplemented!(),
             CompOp::Incompatible => unimplemented!(),
             _ => match self.compare_version(other) {
@@ -220,11 +218,11 @@ impl Version {
                     _ => false,
                 },
                 CompOp::Lt => match operator {
-                    &CompOp::Ne | &CompOp::Gt | &CompOp::Ge => true,
+                    &CompOp::Ne | &CompOp::Lt | &CompOp::Le => true,
                     _ => false,
                 },
                 CompOp::Gt => match operator {
-                    &CompOp::Ne | &CompOp::Lt | &CompOp::Le => true,
+                    &CompOp::Ne | &CompOp::Gt | &CompOp::Ge => true,
                     _ => false,
                 },
                 _ => unreachable!(),
-- 
2.43.0


From 241508803bdc0bcf0496a847413193629670bdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:19 +0000
Subject: [PATCH 04/16] fix: report malformed version specs as errors instead
 of panicking

---
 core/src/version/matching.rs | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/core/src/version/matching.rs b/core/src/version/matching.rs
index e7c4fe4..a6754dd 100644
--- a/core/src/version/matching.rs
+++ b/core/src/version/matching.rs
@@ -34,14 +34,27 @@ pub(crate) fn create_match_enum_from_operator_str(
         }
         v_str = &v_str[..v_str.len() - 2];
     }
+    let operator = match CompOp::from_sign(operator_str) {
+        Ok(operator) => operator,
+        Err(_) => {
+            return Err(VersionParsingError::Message(format!(
+                "invalid operator in string {}",
+                input
+            )))
+        }
+    };
     let matcher = MatchOperator {
-        operator: CompOp::from_sign(operator_str).unwrap(),
-        version: v_str.into(),
+        operator,
+        version: v_str.parse()?,
     };
     let _is_exact = operator_str == "==";
     Ok((matcher.into(), _is_exact))
 }
 
+fn compile_regex(expression: &str) -> Result<Regex, VersionParsingError> {
+    Regex::new(expression).map_err(|e| VersionParsingError::Message(e.to_string()))
+}
+
 #[enum_dispatch]
 pub trait MatchFn {
     fn test(&self, other: &Version) -> bool;
@@ -81,10 +94,10 @@ pub fn get_matcher(input: &str) -> Result<(MatchEnum, bool), VersionParsingError
                 input
             )));
         }
-        let re = Regex::new(input).unwrap();
+        let re = compile_regex(input)?;
         matcher = MatchRegex { expression: re }.into();
         _is_exact = false;
-    } else if OPERATOR_START.contains(&input[..1]) {
+    } else if input.get(..1).map_or(false, |op| OPERATOR_START.contains(op)) {
         let res = create_match_enum_from_operator_str(input);
         match res {
             Ok((_m, _e)) => {
@@ -101,20 +114,20 @@ pub fn get_matcher(input: &str) -> Result<(MatchEnum, bool), VersionParsingError
             .replace(".", r"\.")
             .replace("+", r"\+")
             .replace("*", r".*");
-        let rx: Regex = Regex::new(&format!(r"^(?:{})$", rx)).unwrap();
+        let rx: Regex = compile_regex(&format!(r"^(?:{})$", rx))?;
         matcher = MatchRegex { expression: rx }.into();
         _is_exact = false;
     } else if input.ends_with("*") {
         matcher = MatchOperator {
             operator: CompOp::StartsWith,
-            version: input.trim_end_matches(|c| c == '*' || c == '.').into(),
+            version: input.trim_end_matches(|c| c == '*' || c == '.').parse()?,
         }
         .into();
         _is_exact = false;
     } else if !input.contains("@") {
         matcher = MatchOperator {
             operator: CompOp::Eq,
-            version: input.into(),
+            version: input.parse()?,
         }
         .into();
         _is_exact = true;
-- 
2.43.0


From 463e83628a48dc211b282da4196726ec960928e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:19 +0000
Subject: [PATCH 05/16] fix: match regex and glob specs against the version
 text instead of panicking

---
 core/src/version/matching.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/version/matching.rs b/core/src/version/matching.rs
index a6754dd..7848df0 100644
--- a/core/src/version/matching.rs
+++ b/core/src/version/matching.rs
@@ -146,8 +146,8 @@ pub struct MatchRegex {
     pub expression: Regex,
 }
 impl MatchFn for MatchRegex {
-    fn test(&self, _other: &Version) -> bool {
-        panic!("Not implemented")
+    fn test(&self, other: &Version) -> bool {
+        self.expression.is_match(&other.version)
     }
 }
 
-- 
2.43.0


From 8635e4e26b6f25fb3eedf9e034ec4ff75d7fe898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:19 +0000
Subject: [PATCH 06/16] fix: constraint tree construction returns the error of
 a malformed part instead of panicking

---
 core/src/version/spec_trees.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index ebe2142..9609724 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -84,7 +84,7 @@ impl ConstraintTree {
                     str_parts.push(match item {
                         VersionSpecOrConstraintTree::VersionSpec(s) => s.get_spec().to_string(),
                         VersionSpecOrConstraintTree::ConstraintTree(cj) => {
-                            cj.combine(self.combinator == Combinator::And, true).unwrap()
+                            cj.combine(self.combinator == Combinator::And, true)?
                         }
                     });
                 }
@@ -150,14 +150,14 @@ impl TryFrom<Vec<&str>> for ConstraintTree
 {
     type Error = VersionParsingError;
     fn try_from(input: Vec<&str>) -> Result<Self, Self::Error> {
-        let combinator = match input[0].borrow() {
-            "," => Combinator::And,
-            "|" => Combinator::Or,
+        let combinator = match input.first() {
+            Some(&",") => Combinator::And,
+            Some(&"|") => Combinator::Or,
             _ => return Err(VersionParsingError::Message(format!("Unknown first value in vec of str used as ConstraintTree")))
         };
         let tree = ConstraintTree {
             combinator,
-            parts: input[1..].iter().map(|x| VersionSpecOrConstraintTree::try_from(x.clone()).unwrap()).collect()
+            parts: input[1..].iter().map(|x| VersionSpecOrConstraintTree::try_from(x.clone())).collect::<Result<_, _>>()?
         };
         Ok(tree)
     }
@@ -297,7 +297,7 @@ fn _treeify(spec_str: String) -> Result<ConstraintTree, String> {
                         combinator: Combinator::None,
                         parts: vec![VersionSpecOrConstraintTree::ConstraintTree(output)]};
                 }
-                output.parts.push(VersionSpecOrConstraintTree::VersionSpec(VersionSpec::try_from(item).unwrap()))
+                output.parts.push(VersionSpecOrConstraintTree::VersionSpec(VersionSpec::try_from(item).map_err(|e| e.to_string())?))
             }
         }
     }
-- 
2.43.0


From e1d2763683905bc14529f78b124219263f25c12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:42 +0000
Subject: [PATCH 07/16] fix: constraint trees with different combinators or
 part counts are not equal

---
 core/src/version/spec_trees.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index 9609724..108a686 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -1,4 +1,3 @@
-use std::ops::Deref;
 use std::fmt;
 use regex::Regex;
 use std::borrow::Borrow;
@@ -139,10 +138,7 @@ impl fmt::Debug for VersionSpecOrConstraintTree {
 
 impl PartialEq for ConstraintTree {
     fn eq(&self, other: &Self) -> bool {
-        for (a, b) in self.parts.iter().zip(&other.parts) {
-            if a.deref() != b.deref() { return false }
-        }
-        return true
+        self.combinator == other.combinator && self.parts == other.parts
     }
 }
 
-- 
2.43.0


From 2771a34282f224cae394296a987e70099838481e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:42 +0000
Subject: [PATCH 08/16] fix: Debug of VersionSpecOrConstraintTree no longer
 recurses into itself forever

---
 core/src/version/spec_trees.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index 108a686..91c1ed3 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -132,7 +132,10 @@ impl PartialEq for VersionSpecOrConstraintTree {
 
 impl fmt::Debug for VersionSpecOrConstraintTree {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        write!(f, "{:#?}", self)
+        match self {
+            VersionSpecOrConstraintTree::VersionSpec(s) => fmt::Debug::fmt(&s.get_spec(), f),
+            VersionSpecOrConstraintTree::ConstraintTree(t) => fmt::Debug::fmt(t, f),
+        }
     }
 }
 
-- 
2.43.0


From 76145966ad0310d4c2d05003015240ae1ecd613d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:24 +0000
Subject: [PATCH 09/16] fix: get_spec (and Debug) of a constraint tree no
 longer panics on empty or single-subtree nodes

---
 core/src/version/spec_trees.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index 91c1ed3..d6e7fcd 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -40,7 +40,8 @@ pub struct ConstraintTree {
 // Not sure tw
 impl Spec for ConstraintTree{
     fn get_spec(&self) -> String {
-        untreeify(&VersionSpecOrConstraintTree::ConstraintTree(self.clone())).unwrap()
+        // only a tree without any spec can not be combined
+        untreeify(&VersionSpecOrConstraintTree::ConstraintTree(self.clone())).unwrap_or_default()
     }
     fn is_exact(&self) -> bool {
         return false
@@ -69,10 +70,9 @@ impl ConstraintTree {
     fn combine(&self, inand: bool, nested: bool) -> Result<String, String> {
         match self.parts.len() {
             1 => {
-                if let VersionSpecOrConstraintTree::VersionSpec(s) = self.parts[0].borrow() {
-                    Ok(s.get_spec().to_string())
-                } else {
-                    Err("Can't combine (stringify) single-element ConstraintTree that isn't just a string".to_string())
+                match &self.parts[0] {
+                    VersionSpecOrConstraintTree::VersionSpec(s) => Ok(s.get_spec().to_string()),
+                    VersionSpecOrConstraintTree::ConstraintTree(cj) => cj.combine(inand, nested)
                 }
             },
             0 => Err("Can't combine (stringify) a zero-element ConstraintTree".to_string()),
-- 
2.43.0


From 1949a3638439342add9d3ef0359eda5de74c8fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:24 +0000
Subject: [PATCH 10/16] fix: a constraint tree around a single spec matches
 what that spec matches

---
 core/src/version/spec_trees.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index d6e7fcd..c5a5681 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -54,7 +54,8 @@ impl Spec for ConstraintTree{
         return match self.combinator {
             Combinator::And => self.parts.iter().all(|x| x.borrow().test_match_version(other)),
             Combinator::Or => self.parts.iter().any(|x| x.borrow().test_match_version(other)),
-            Combinator::None => false,
+            // just a wrapper around a single spec
+            Combinator::None => self.parts.len() == 1 && self.parts[0].test_match_version(other),
         }
     }
 }
-- 
2.43.0


From 0f67051043e7c3e0ce0b8b5115ce8ebec5209d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:24 +0000
Subject: [PATCH 11/16] fix: treeify rejects expressions without a spec or with
 specs that no operator joins

---
 core/src/version/spec_trees.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index c5a5681..1a7c940 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -303,6 +303,9 @@ fn _treeify(spec_str: String) -> Result<ConstraintTree, String> {
     }
 
     if ! stack.is_empty() { return Err(format!("unable to convert ({}) to expression tree: {:#?}", spec_str, stack)); }
+    if output.combinator == Combinator::None && output.parts.len() != 1 {
+        return Err(format!("unable to convert ({}) to expression tree: missing spec or operator", spec_str));
+    }
     Ok(output)
 }
 
-- 
2.43.0


From 9afb6d39b00c20410dcc45db0ce4aea06923cc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:24 +0000
Subject: [PATCH 12/16] fix: parse compound specs into the constraint tree they
 denote

---
 core/src/version/spec_trees.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index 1a7c940..dda0997 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -105,12 +105,10 @@ impl ConstraintTree {
 impl TryFrom<&str> for VersionSpecOrConstraintTree {
     type Error = VersionParsingError;
     fn try_from (input: &str) -> Result<VersionSpecOrConstraintTree, Self::Error> {
-        lazy_static! { static ref REGEX_SPLIT_RE: Regex = Regex::new( r#".*[()|,^$]"# ).unwrap(); }
-        let split_input: Vec<&str> = REGEX_SPLIT_RE.split(input).collect();
-        if split_input.len() > 1 {
-            match ConstraintTree::try_from(split_input) {
+        if input.contains(|c| c == '(' || c == ')' || c == '|' || c == ',') {
+            match treeify(input) {
                 Ok(v) => Ok(VersionSpecOrConstraintTree::ConstraintTree(v)),
-                Err(e) => Err(e)
+                Err(e) => Err(VersionParsingError::Message(e))
             }
         } else {
             match VersionSpec::try_from(input) {
-- 
2.43.0


From 7bab38996aea198e234238258ec45a49d0cb1d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:24 +0000
Subject: [PATCH 13/16] fix: read_repodata returns an error for an unreadable
 file instead of panicking

---
 core/src/repodata/repodata.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/repodata/repodata.rs b/core/src/repodata/repodata.rs
index 434f1de..22c1390 100644
--- a/core/src/repodata/repodata.rs
+++ b/core/src/repodata/repodata.rs
@@ -47,7 +47,7 @@ pub struct Repodata {
 }
 
 pub fn read_repodata<'a, P: AsRef<Path>>(path: P) -> Result<Repodata, serde_json::error::Error> {
-    let file = std::fs::read_to_string(path).unwrap();
+    let file = std::fs::read_to_string(path).map_err(<serde_json::error::Error as de::Error>::custom)?;
     // Read the JSON contents of the file as an instance of `Repodata`.
     let r = serde_json::from_str(&file)?;
 
-- 
2.43.0


From 01363d69f8ee68579b5294c2dafac2bcb8ce9fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:24 +0000
Subject: [PATCH 14/16] fix: accept repodata versions whose JSON string
 contains escapes

---
 core/src/repodata/repodata.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/repodata/repodata.rs b/core/src/repodata/repodata.rs
index 22c1390..9b6afcd 100644
--- a/core/src/repodata/repodata.rs
+++ b/core/src/repodata/repodata.rs
@@ -24,8 +24,8 @@ fn deserialize_json_str_to_version<'de, D>(deserializer: D) -> Result<Version, D
     where
         D: de::Deserializer<'de>,
 {
-    let s: &str = Deserialize::deserialize(deserializer)?;
-    match Version::parse(s, &conda_parser) {
+    let s: String = Deserialize::deserialize(deserializer)?;
+    match Version::parse(&s, &conda_parser) {
         Ok(v) => Ok(v),
         Err(_e) => Err(de::Error::custom("Version parsing error"))
     }
-- 
2.43.0


From 8a131effd5d09bd98ba23423cf54aa151320db12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:24 +0000
Subject: [PATCH 15/16] fix: RustyVersion raises ValueError for an invalid
 version instead of panicking

---
 python/src/python_interface.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/src/python_interface.rs b/python/src/python_interface.rs
index 0a4cf28..2dfcec0 100644
--- a/python/src/python_interface.rs
+++ b/python/src/python_interface.rs
@@ -1,4 +1,4 @@
-use cpython::{PyResult, CompareOp, ToPyObject, PythonObject};
+use cpython::{exc, PyErr, PyResult, CompareOp, ToPyObject, PythonObject};
 use ronda::{Version, CompOp, read_repodata};
 
 fn py_cmp_to_ronda_cmp(other: CompareOp) -> CompOp {
@@ -26,7 +26,10 @@ py_module_initializer!(_ronda, init_ronda, PyInit__ronda, |py, m| {
 py_class!(class RustyVersion |py| {
     data rust_version: Version;
     def __new__(_cls, arg: &str) -> PyResult<RustyVersion> {
-        RustyVersion::create_instance(py, arg.into())
+        match arg.parse() {
+            Ok(version) => RustyVersion::create_instance(py, version),
+            Err(e) => Err(PyErr::new::<exc::ValueError, _>(py, e.to_string()))
+        }
     }
     def __richcmp__(&self, other: &RustyVersion, op: CompareOp) -> PyResult<bool> {
         Ok(self.rust_version(py).compare_to_version(other.rust_version(py), &py_cmp_to_ronda_cmp(op)))
-- 
2.43.0


From bf663c8d285942caa53be75e2ad3713d73b59965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:26 +0000
Subject: [PATCH 16/16] fix: reject compound specs with misplaced operators or
 parentheses

---
 core/src/version/spec_trees.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index dda0997..4545743 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -271,7 +271,14 @@ fn _treeify(spec_str: String) -> Result<ConstraintTree, String> {
     let spec_str_in_parens = format!("({})", spec_str);
     let tokens: Vec<&str> = VSPEC_TOKENS.find_iter(&spec_str_in_parens).map(|x| x.as_str().trim()).collect();
 
-    for item in tokens {
+    // an operator has to stand between two operands, and every parenthesis has its counterpart
+    let mut operand_next = true;
+    for (i, item) in tokens.into_iter().enumerate() {
+        let starts_operand = match item { "|" | "," | ")" => false, _ => true };
+        if starts_operand != operand_next || (i > 0 && stack.is_empty()) {
+            return Err(format!("unable to convert ({}) to expression tree: unexpected \"{}\"", spec_str, item));
+        }
+        operand_next = match item { "(" | "|" | "," => true, _ => false };
         match item {
             "(" => { stack.push("(") },
             "|" => {
-- 
2.43.0

