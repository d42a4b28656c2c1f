From e4f7fe1c0f92482747149c1834fc4dd3721e7453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:09 +0000
Subject: [PATCH 01/34] fix: unique::Search skips pending duplicates instead of
 ending the enumeration

---
 search/src/search.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/search/src/search.rs b/search/src/search.rs
index 726b78f..66c3bef 100644
--- a/search/src/search.rs
+++ b/search/src/search.rs
@@ -139,20 +139,18 @@ pub mod unique {
                 ref mut elements,
             } = self;
 
-            if let Some(item) = search.agenda.pop() {
+            while let Some(item) = search.agenda.pop() {
                 if elements.insert(item.clone()) {
                     search.agenda.extend(
                         (search.successors)(&item)
                             .into_iter()
                             .filter(|i| !elements.contains(i)),
                     );
-                    Some(item)
-                } else {
-                    None
+                    return Some(item);
                 }
-            } else {
-                None
             }
+
+            None
         }
     }
 }
-- 
2.43.0


From 0b79628f499f29c450a38032b7c4db9b950d1c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:15 +0000
Subject: [PATCH 02/34] fix: UniqueHeap::from(Vec) holds each element at most
 once

---
 unique-heap/src/lib.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/unique-heap/src/lib.rs b/unique-heap/src/lib.rs
index 427af98..5bdd4f9 100644
--- a/unique-heap/src/lib.rs
+++ b/unique-heap/src/lib.rs
@@ -134,11 +134,9 @@ where
     B: BuildHasher + Default,
 {
     fn from(vec: Vec<(W, I)>) -> Self {
-        let current_items = vec.iter().map(|(_, i)| i).cloned().collect();
-        UniqueHeap {
-            heap: vec.into(),
-            current_items,
-        }
+        vec.into_iter()
+            .map(|(weight, item)| (item, weight))
+            .collect()
     }
 }
 
-- 
2.43.0


From 6d5944b3ce65667f1a5e972540b2336e96b7eef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:15 +0000
Subject: [PATCH 03/34] fix: deserializing overlapping cells as a Partition is
 an error, not a panic

---
 src/util/partition.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/util/partition.rs b/src/util/partition.rs
index 17e8a6d..9292b97 100644
--- a/src/util/partition.rs
+++ b/src/util/partition.rs
@@ -3,7 +3,7 @@ use std::collections::{BTreeMap, BTreeSet};
 use std::ops::Deref;
 use std::rc::Rc;
 
-use serde::de::{Deserialize, Deserializer};
+use serde::de::{Deserialize, Deserializer, Error};
 use serde::ser::{Serialize, Serializer};
 
 /// A partition Π = {π₁, …, πₙ} of an alpbabet Σ, such that
@@ -76,7 +76,9 @@ impl<T: Serialize + Ord + Clone> Serialize for Partition<T> {
 impl<'de, T: Deserialize<'de> + Ord + Clone> Deserialize<'de> for Partition<T> {
     fn deserialize<D: Deserializer<'de>>(des: D) -> Result<Self, D::Error> {
         match Vec::deserialize(des) {
-            Ok(cells) => Ok(Partition::new(cells).unwrap()),
+            Ok(cells) => {
+                Partition::new(cells).ok_or_else(|| D::Error::custom("the cells are not disjoint"))
+            }
             Err(e) => Err(e),
         }
     }
-- 
2.43.0


From 056c1bbb399e49e10e359da3cb6e4412410d8dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:21 +0000
Subject: [PATCH 04/34] fix: grammar texts may contain whitespace-only lines
 and indented declarations of initials

---
 src/util/parsing.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/parsing.rs b/src/util/parsing.rs
index d0bbad6..ff8f9fb 100644
--- a/src/util/parsing.rs
+++ b/src/util/parsing.rs
@@ -130,7 +130,7 @@ where
 
     while let Some(l) = it.next() {
         if l.trim_start().starts_with("initial:") {
-            match parse_initials(l.as_bytes()) {
+            match parse_initials(l.trim().as_bytes()) {
                 IResult::Done(_, mut result) => initial.append(&mut result),
                 _ => {
                     return Err(format!(
@@ -139,7 +139,7 @@ where
                     ))
                 }
             }
-        } else if !l.is_empty() && !l.trim_start().starts_with("%") {
+        } else if !l.trim().is_empty() && !l.trim_start().starts_with("%") {
             rules.push(l.trim().parse()?);
         }
     }
-- 
2.43.0


From f29258f0f1bc3004e46ca9cad39b94571f205d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:08 +0000
Subject: [PATCH 05/34] fix: bare symbols may contain non-ASCII characters
 other than the arrow

---
 src/util/parsing.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/util/parsing.rs b/src/util/parsing.rs
index ff8f9fb..80c59d0 100644
--- a/src/util/parsing.rs
+++ b/src/util/parsing.rs
@@ -1,4 +1,4 @@
-use nom::{is_space, IResult};
+use nom::{is_space, ErrorKind, IResult};
 use std::fmt::Debug;
 use std::str::{from_utf8, FromStr};
 
@@ -20,7 +20,7 @@ where
                     tag!("\""),
                     escaped!(is_not!("\"\\"), '\\', one_of!("\\\"")),
                     tag!("\"")
-                ) | is_not!(" \\\"-→,;)]%#")
+                ) | call!(parse_bare_token)
             ),
             from_utf8
         )
@@ -32,6 +32,17 @@ where
     )
 }
 
+/// Consumes the longest non-empty prefix that contains none of the symbols that end a bare token.
+fn parse_bare_token(input: &[u8]) -> IResult<&[u8], &[u8]> {
+    let ends_at = |&i: &usize| {
+        b" \\\"-,;)]%#".contains(&input[i]) || input[i..].starts_with("→".as_bytes())
+    };
+    match (0..input.len()).find(ends_at).unwrap_or(input.len()) {
+        0 => IResult::Error(error_position!(ErrorKind::IsNot, input)),
+        end => IResult::Done(&input[end..], &input[..end]),
+    }
+}
+
 /// Parses the `input` into a `Vec<A>` given an `inner_parser` for type `A`, an `opening` delimiter, a `closing` delimiter, and a `separator`.
 /// The `inner_parser` must not consume the `separator`s or the `closing` delimiter of the given `input`.
 pub fn parse_vec<'a, A, P>(
-- 
2.43.0


From b3c97083e17e42ea64e35a186ea7379b9ac541cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:54 +0000
Subject: [PATCH 06/34] fix: a malformed weight of a PMCFG rule is an error,
 not a panic

---
 src/grammars/pmcfg/from_str.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/grammars/pmcfg/from_str.rs b/src/grammars/pmcfg/from_str.rs
index 274de4e..cf0c4c7 100644
--- a/src/grammars/pmcfg/from_str.rs
+++ b/src/grammars/pmcfg/from_str.rs
@@ -75,11 +75,11 @@ where
                     tag!("#")
                         >> take_while!(is_space)
                         >> weight_s: map_res!(is_not!(" "), from_utf8)
-                        >> (weight_s.parse().unwrap())
+                        >> weight: expr_res!(weight_s.parse())
+                        >> (weight)
                 )))
             >> take_while!(is_space)
-            >> many0!(tag!("%"))
-            >> take_while!(|_| true)
+            >> alt!(eof!() | preceded!(tag!("%"), take_while!(|_| true)))
             >> (PMCFGRule {
                 head: head,
                 tail: tail,
-- 
2.43.0


From 1f07d877d6257b7ed02a86afaa0c185a662ae222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:00 +0000
Subject: [PATCH 07/34] fix: an index of a variable that does not fit is an
 error, not a panic

---
 src/grammars/pmcfg/from_str.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/grammars/pmcfg/from_str.rs b/src/grammars/pmcfg/from_str.rs
index cf0c4c7..087597a 100644
--- a/src/grammars/pmcfg/from_str.rs
+++ b/src/grammars/pmcfg/from_str.rs
@@ -91,6 +91,14 @@ where
     )
 }
 
+/// Parses an index of a variable.
+fn parse_index(input: &[u8]) -> IResult<&[u8], usize> {
+    do_parse!(
+        input,
+        digits: map_res!(digit, from_utf8) >> index: expr_res!(digits.parse()) >> (index)
+    )
+}
+
 fn parse_var_t<T>(input: &[u8]) -> IResult<&[u8], VarT<T>>
 where
     T: FromStr,
@@ -103,13 +111,10 @@ where
                 do_parse!(
                     tag!("Var")
                         >> take_while!(is_space)
-                        >> i: digit
+                        >> i: parse_index
                         >> take_while!(is_space)
-                        >> j: digit
-                        >> (VarT::Var(
-                            from_utf8(i).unwrap().parse().unwrap(),
-                            from_utf8(j).unwrap().parse().unwrap(),
-                        ))
+                        >> j: parse_index
+                        >> (VarT::Var(i, j))
                 ) | do_parse!(
                     tag!("T") >> take_while!(is_space) >> token: parse_token >> (VarT::T(token))
                 )
-- 
2.43.0


From adc38daa0feec6399f07bbddb74fa91dda4d407e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:06 +0000
Subject: [PATCH 08/34] fix: the printed initial nonterminal of an LCFRS is
 quoted so that it reads back

---
 src/grammars/lcfrs/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammars/lcfrs/mod.rs b/src/grammars/lcfrs/mod.rs
index c0eeadd..37993ff 100644
--- a/src/grammars/lcfrs/mod.rs
+++ b/src/grammars/lcfrs/mod.rs
@@ -76,7 +76,7 @@ impl<N: Display, T: Display, W: Display> Display for Lcfrs<N, T, W> {
     fn fmt(&self, f: &mut Formatter) -> fmt::Result {
         let mut buffer = "".to_string();
 
-        buffer.push_str(format!("initial: [{}]\n\n", self.init).as_str());
+        buffer.push_str(format!("initial: [\"{}\"]\n\n", self.init).as_str());
 
         for r in &self.rules {
             buffer.push_str(format!("{}\n", r).as_str());
-- 
2.43.0


From 971c6b2e629131900df6cbd8a31d1cb6539f85a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:31 +0000
Subject: [PATCH 09/34] fix: separate_terminal_rules separates a leading
 terminal that is followed by variables

---
 src/grammars/pmcfg/mod.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/grammars/pmcfg/mod.rs b/src/grammars/pmcfg/mod.rs
index cfcb779..f78c629 100644
--- a/src/grammars/pmcfg/mod.rs
+++ b/src/grammars/pmcfg/mod.rs
@@ -469,8 +469,10 @@ where
         let mut terminal_child_num = HashMap::new();
         let mut terminal_children = Vec::new();
         let mut new_composition = Vec::new();
-        let mut first_variable = true;
-        let mut contains_only_one_terminal = false;
+        let contains_only_one_terminal = {
+            let mut symbols = composition.iter().flat_map(|component| component);
+            symbols.next().map_or(false, |symbol| symbol.is_t()) && symbols.next().is_none()
+        };
 
         for component in composition {
             let mut new_component = Vec::new();
@@ -481,8 +483,6 @@ where
                         new_component.push(VarT::Var(num_nonter, num_compon));
                     }
                     &VarT::T(ref terminal) => {
-                        contains_only_one_terminal = first_variable;
-
                         let child_num = if terminal_child_num.contains_key(terminal) {
                             *terminal_child_num.get(terminal).unwrap()
                         } else {
@@ -495,8 +495,6 @@ where
                         new_component.push(VarT::Var(child_num, 0));
                     }
                 }
-
-                first_variable = false;
             }
 
             new_composition.push(new_component);
-- 
2.43.0


From 1b122c70942376583ffd40f7d322d6d0f2cfa7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:10 +0000
Subject: [PATCH 10/34] fix: Lcfrs::new refuses rules with undefined successors
 instead of panicking

---
 src/grammars/lcfrs/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/grammars/lcfrs/mod.rs b/src/grammars/lcfrs/mod.rs
index 37993ff..aa79148 100644
--- a/src/grammars/lcfrs/mod.rs
+++ b/src/grammars/lcfrs/mod.rs
@@ -31,8 +31,11 @@ where
             // scope for lieftime of `fanouts` that borrows from rules
             let fanouts = read_fanouts(&rules)?;
             let check_fanouts = |rule: &PMCFGRule<N, T, W>| -> bool {
-                let fanouts: Vec<usize> = rule.tail.iter().map(|nt| fanouts[nt]).collect();
-                check_composition(&rule.composition.composition, &fanouts)
+                let tail_fanouts: Option<Vec<usize>> =
+                    rule.tail.iter().map(|nt| fanouts.get(nt).cloned()).collect();
+                tail_fanouts.map_or(false, |fanouts| {
+                    check_composition(&rule.composition.composition, &fanouts)
+                })
             };
 
             // check initial fanout
-- 
2.43.0


From 442818403ebeb7fb00e39f5c91348235ec827c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:17 +0000
Subject: [PATCH 11/34] fix: linearity check of LCFRS handles successors
 without components and large variable indices

---
 src/grammars/lcfrs/mod.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/grammars/lcfrs/mod.rs b/src/grammars/lcfrs/mod.rs
index aa79148..eca767c 100644
--- a/src/grammars/lcfrs/mod.rs
+++ b/src/grammars/lcfrs/mod.rs
@@ -113,9 +113,7 @@ where
 /// Checks a composition for linearity.
 /// Will return true if each variable occurs exactly once according to the given fanouts.
 fn check_composition<T>(composition: &[Vec<VarT<T>>], fanouts: &[usize]) -> bool {
-    use vecmultimap::VecMultiMapAdapter;
-
-    let mut variable_occurances: Vec<Vec<usize>> = Vec::new();
+    let mut variable_occurances: Vec<Vec<usize>> = vec![Vec::new(); fanouts.len()];
     for (i, j) in composition
         .iter()
         .flat_map(|component| component.iter())
@@ -124,18 +122,20 @@ fn check_composition<T>(composition: &[Vec<VarT<T>>], fanouts: &[usize]) -> bool
             _ => None,
         })
     {
-        VecMultiMapAdapter(&mut variable_occurances)[i].push(j);
+        match variable_occurances.get_mut(i) {
+            Some(js) => js.push(j),
+            None => return false,
+        }
     }
 
-    variable_occurances.len() == fanouts.len()
-        && variable_occurances
-            .into_iter()
-            .enumerate()
-            .all(|(i, mut js)| {
-                js.sort();
-                let js_: Vec<usize> = (0..fanouts[i]).collect();
-                js == js_
-            })
+    variable_occurances
+        .into_iter()
+        .enumerate()
+        .all(|(i, mut js)| {
+            js.sort();
+            let js_: Vec<usize> = (0..fanouts[i]).collect();
+            js == js_
+        })
 }
 
 #[cfg(test)]
-- 
2.43.0


From 67c8f8ee999ae657b52f2499cb80b4a57b82fc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:24 +0000
Subject: [PATCH 12/34] fix: MCFG to LCFRS conversion leaves out rules with
 undefined successors instead of panicking

---
 src/grammars/lcfrs/conversion.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/grammars/lcfrs/conversion.rs b/src/grammars/lcfrs/conversion.rs
index ef428e9..67ce190 100644
--- a/src/grammars/lcfrs/conversion.rs
+++ b/src/grammars/lcfrs/conversion.rs
@@ -69,7 +69,13 @@ where
         )
         .uniques()
         {
-            for rule in rulemap.get(a).unwrap_or(&Vec::new()) {
+            // rules with undefined successors derive nothing
+            for rule in rulemap
+                .get(a)
+                .unwrap_or(&Vec::new())
+                .iter()
+                .filter(|rule| rule.tail.iter().all(|nt| fanouts.contains_key(nt)))
+            {
                 rules.push(to_lcfrs_rule((*rule).clone(), deletions.clone(), &fanouts));
             }
         }
-- 
2.43.0


From 5ee099516961f9be08d8332c2bff7314cc27bd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:22 +0000
Subject: [PATCH 13/34] fix: discodop files that cannot be read to their end
 are errors

---
 src/grammars/lcfrs/from_discodop.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/grammars/lcfrs/from_discodop.rs b/src/grammars/lcfrs/from_discodop.rs
index 96a76ef..921c3ff 100644
--- a/src/grammars/lcfrs/from_discodop.rs
+++ b/src/grammars/lcfrs/from_discodop.rs
@@ -45,6 +45,21 @@ fn from_binary(s: &str) -> Option<u64> {
         })
 }
 
+/// Extracts the result of a parser that read everything but trailing whitespace.
+fn read_all<O>(result: IResult<&str, O>) -> Result<O, nom::Err<u32>> {
+    match result {
+        IResult::Done(rest, output) => {
+            if rest.trim().is_empty() {
+                Ok(output)
+            } else {
+                Err(ErrorKind::Eof)
+            }
+        }
+        IResult::Error(e) => Err(e),
+        IResult::Incomplete(_) => Err(ErrorKind::Complete),
+    }
+}
+
 impl<N> DiscoDeriv<N> {
     fn get_lhs(&self) -> &N {
         match *self {
@@ -169,8 +184,8 @@ where
                     } else {
                         (DiscoDeriv::Chain{lhs, rhs}, s_rhs_or_y, s_y_or_w)
                     };
-                    let ys = parse_yield(y).to_result().map_err(|_| ParseConsituentsError::Yield)?;
-                    let weight = parse_pseudocount(w).to_result().map_err(|_| ParseConsituentsError::Weight)?;
+                    let ys = read_all(parse_yield(y)).map_err(|_| ParseConsituentsError::Yield)?;
+                    let weight = read_all(parse_pseudocount(w)).map_err(|_| ParseConsituentsError::Weight)?;
                     Ok((deriv, ys, weight))
                 }
             )
@@ -332,7 +347,7 @@ where
     type Err = nom::Err<u32>;
     fn from_str(constituent_str: &str) -> Result<Self, Self::Err> {
         Ok(DiscoDopGrammar {
-            constituents: parse_discodop_constituents(constituent_str).to_result()?,
+            constituents: read_all(parse_discodop_constituents(constituent_str))?,
             lexer: None,
         })
     }
@@ -349,7 +364,7 @@ where
 {
     type Err = nom::Err<u32>;
     fn from_str(lexer_str: &str) -> Result<Self, Self::Err> {
-        parse_discodop_lexer(lexer_str).to_result()
+        read_all(parse_discodop_lexer(lexer_str))
     }
 }
 
-- 
2.43.0


From 40e980ce0cc91a6184820af632905c9acd7fb4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:29 +0000
Subject: [PATCH 14/34] fix: discodop yield functions that exceed the bitmask
 are errors

---
 src/grammars/lcfrs/from_discodop.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/grammars/lcfrs/from_discodop.rs b/src/grammars/lcfrs/from_discodop.rs
index 921c3ff..d69b8a3 100644
--- a/src/grammars/lcfrs/from_discodop.rs
+++ b/src/grammars/lcfrs/from_discodop.rs
@@ -79,6 +79,10 @@ named!(parse_yield<&str,DiscoYield>,
         map_opt!(
             take_while!(is_binary_digit),
             |bs: &str| -> Option<(u8, u64)> {
+                // the bitmask has 64 bits
+                if bs.len() > 64 {
+                    return None;
+                }
                 let payload = from_binary(bs)?;
                 Some((bs.len() as u8, payload))
             }
-- 
2.43.0


From d1fbc6614248e443499c629161b2b79236b703af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:57 +0000
Subject: [PATCH 15/34] fix: rparse clauses that cannot be read are errors
 instead of panics or dropped

---
 src/grammars/lcfrs/from_rparse.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/grammars/lcfrs/from_rparse.rs b/src/grammars/lcfrs/from_rparse.rs
index 3de68a4..ce8dc18 100644
--- a/src/grammars/lcfrs/from_rparse.rs
+++ b/src/grammars/lcfrs/from_rparse.rs
@@ -51,21 +51,26 @@ where
             tag!("\n"),
             do_parse!(
                 terminated!(digit, space)
-                    >> weight: take_while1!(|c| is_token(c) && c != ':')
+                    >> weight: map_res!(take_while1!(|c| is_token(c) && c != ':'), W::from_str)
                     >> tag!(":")
-                    >> lhs: take_while1!(is_token)
+                    >> lhs: map_res!(take_while1!(is_token), N::from_str)
                     >> delimited!(space, tag!("-->"), space)
-                    >> rhs1: take_while1!(is_token)
+                    >> rhs1: map_res!(take_while1!(is_token), N::from_str)
                     >> space
-                    >> o_rhs2: opt!(delimited!(not!(tag!("[[[")), take_while1!(is_token), space))
+                    >> o_rhs2:
+                        opt!(delimited!(
+                            not!(tag!("[[[")),
+                            map_res!(take_while1!(is_token), N::from_str),
+                            space
+                        ))
                     >> y: complete!(parse_rparse_yield)
                     >> (
-                        weight.parse().unwrap(),
-                        lhs.parse().unwrap(),
+                        weight,
+                        lhs,
                         if let Some(rhs2) = o_rhs2 {
-                            Rhs::Binary(rhs1.parse().unwrap(), rhs2.parse().unwrap())
+                            Rhs::Binary(rhs1, rhs2)
                         } else {
-                            Rhs::Chain(rhs1.parse().unwrap())
+                            Rhs::Chain(rhs1)
                         },
                         y
                     )
@@ -85,6 +90,7 @@ where
     type Err = ();
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         match parse_rparse_clauses(s) {
+            IResult::Done(rest, _) if !rest.trim().is_empty() => Err(()),
             IResult::Done(_, clauses) => Ok(clauses),
             _ => Err(()),
         }
-- 
2.43.0


From 747484458c4979f0531f2dac4be783546818611b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:05 +0000
Subject: [PATCH 16/34] hook: read rparse clauses under cfg(rustomata_verif)

---
 src/grammars/lcfrs/from_rparse.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/grammars/lcfrs/from_rparse.rs b/src/grammars/lcfrs/from_rparse.rs
index ce8dc18..6001f34 100644
--- a/src/grammars/lcfrs/from_rparse.rs
+++ b/src/grammars/lcfrs/from_rparse.rs
@@ -142,6 +142,18 @@ where
     }
 }
 
+/// Reads rparse clauses as a grammar (for verification only).
+#[cfg(rustomata_verif)]
+pub fn verif_read_rparse<N, W>(s: &str) -> Option<Lcfrs<N, (), W>>
+where
+    N: FromStr,
+    W: FromStr,
+    <N as FromStr>::Err: Debug,
+    <W as FromStr>::Err: Debug,
+{
+    s.parse::<RparseClauses<N, W>>().ok().map(|clauses| clauses.into())
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
-- 
2.43.0


From 74a87f12f4338bebb489795f79a93d0cff847c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:33 +0000
Subject: [PATCH 17/34] fix: lines with only whitespace are ignored in
 equivalence relations

---
 src/approximation/equivalence_classes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/approximation/equivalence_classes.rs b/src/approximation/equivalence_classes.rs
index a3e3eb7..a59c430 100644
--- a/src/approximation/equivalence_classes.rs
+++ b/src/approximation/equivalence_classes.rs
@@ -140,7 +140,7 @@ where
         let mut default = None;
 
         for l in s.lines() {
-            if !l.is_empty() {
+            if !l.trim().is_empty() {
                 match l.trim().parse()? {
                     EquivalenceClass {
                         label,
-- 
2.43.0


From 460133163171b1fbdfe7cc781c37d8b68f7f5103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:40 +0000
Subject: [PATCH 18/34] fix: repeated declarations in an equivalence relation
 are errors instead of replacing each other

---
 src/approximation/equivalence_classes.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/approximation/equivalence_classes.rs b/src/approximation/equivalence_classes.rs
index a59c430..287ac3b 100644
--- a/src/approximation/equivalence_classes.rs
+++ b/src/approximation/equivalence_classes.rs
@@ -146,9 +146,14 @@ where
                         label,
                         set: Some(elements),
                     } => {
-                        map.insert(label, elements);
+                        if map.insert(label, elements).is_some() {
+                            return Err(format!("Class declared twice: {}", l));
+                        }
                     }
                     EquivalenceClass { label, set: None } => {
+                        if default.is_some() {
+                            return Err(format!("Default class declared twice: {}", l));
+                        }
                         default = Some(label);
                     }
                 }
-- 
2.43.0


From 6ac2d539160c7a57e626de7aa7f3d41a0cb91975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 19/34] fix: build a tree stack automaton from a PMCFG that
 uses a nonterminal without rules

---
 src/automata/tree_stack_automaton/from_pmcfg.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/automata/tree_stack_automaton/from_pmcfg.rs b/src/automata/tree_stack_automaton/from_pmcfg.rs
index 005b2e9..e839b72 100644
--- a/src/automata/tree_stack_automaton/from_pmcfg.rs
+++ b/src/automata/tree_stack_automaton/from_pmcfg.rs
@@ -125,7 +125,10 @@ impl<
         for r in g.rules {
             agenda.push((
                 r.clone(),
-                r.tail.iter().map(|n| rule_map[n].clone()).collect(),
+                r.tail
+                    .iter()
+                    .map(|n| rule_map.get(n).cloned().unwrap_or_default())
+                    .collect(),
             ));
         }
 
-- 
2.43.0


From ba6f8af17bcaafb3eb7eb762426f94c8c8ed07e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 20/34] fix: a tree stack automaton accepts the empty word only
 by a run

---
 src/automata/tree_stack_automaton/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/automata/tree_stack_automaton/mod.rs b/src/automata/tree_stack_automaton/mod.rs
index d9ad20a..4884dbf 100644
--- a/src/automata/tree_stack_automaton/mod.rs
+++ b/src/automata/tree_stack_automaton/mod.rs
@@ -163,7 +163,9 @@ where
     }
 
     fn is_terminal(&self, c: &Configuration<TreeStack<usize>, usize, W>) -> bool {
-        c.word.is_empty() && c.storage.is_at_bottom()
+        // The initial storage is at the bottom, too. It never occurs again, since every run starts
+        // with a push and no node is ever removed.
+        c.word.is_empty() && c.storage.is_at_bottom() && c.storage != self.initial
     }
 
     fn transitions<'a>(
-- 
2.43.0


From 2ab158e501985a469babcda64d960e1fc96e83dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 21/34] fix: coarse-to-fine recognition refines all coarse
 parses, not only the first

---
 src/recognisable/coarse_to_fine.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/recognisable/coarse_to_fine.rs b/src/recognisable/coarse_to_fine.rs
index 5f24832..da5f24e 100644
--- a/src/recognisable/coarse_to_fine.rs
+++ b/src/recognisable/coarse_to_fine.rs
@@ -70,10 +70,7 @@ where
         if self.input_buffer.is_none() {
             self.input_buffer = Some(self.sublevel_parses.next());
         }
-        match self.input_buffer {
-            Some(ref mut x) => x.take(),
-            _ => unreachable!(),
-        }
+        self.input_buffer.take().unwrap_or(None)
     }
 }
 
-- 
2.43.0


From d6046c6b62bf165bc19296f76066ca743b2ad282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 22/34] fix: unapproximate transitions whose weights were added
 up

---
 src/approximation/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/approximation/mod.rs b/src/approximation/mod.rs
index 7087d92..45aba2c 100644
--- a/src/approximation/mod.rs
+++ b/src/approximation/mod.rs
@@ -54,7 +54,7 @@ where
     W: Clone + MulAssign + One + Ord,
 {
     reverse_transition_map:
-        BTreeMap<Transition<Strategy::I2, T, W>, Vec<Transition<Strategy::I1, T, W>>>,
+        BTreeMap<(Vec<T>, Strategy::I2), Vec<Transition<Strategy::I1, T, W>>>,
     strategy: Strategy,
 }
 
@@ -95,7 +95,7 @@ where
             weight: t1.weight.clone(),
         };
         self.reverse_transition_map
-            .entry(t2.clone())
+            .entry((t2.word.clone(), t2.instruction.clone()))
             .or_insert(Vec::new())
             .push(t1);
         t2
@@ -105,7 +105,9 @@ where
         &self,
         t2: &Transition<Strategy::I2, T, W>,
     ) -> Vec<Transition<Strategy::I1, T, W>> {
-        match self.reverse_transition_map.get(t2) {
+        // the weights are left out, since an automaton may add up the weights of equal transitions
+        let key = (t2.word.clone(), t2.instruction.clone());
+        match self.reverse_transition_map.get(&key) {
             None => Vec::new(),
             Some(v) => v.clone(),
         }
-- 
2.43.0


From 4ce81c734fa13e98c1b34169d99cc2e7ae453e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 23/34] fix: coarse-to-fine recognition yields only runs the
 fine automaton accepts

---
 src/automata/tree_stack_automaton/mod.rs | 4 ++++
 src/recognisable/automaton.rs            | 5 +++++
 src/recognisable/coarse_to_fine.rs       | 4 +++-
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/automata/tree_stack_automaton/mod.rs b/src/automata/tree_stack_automaton/mod.rs
index 4884dbf..a84a5f9 100644
--- a/src/automata/tree_stack_automaton/mod.rs
+++ b/src/automata/tree_stack_automaton/mod.rs
@@ -168,6 +168,10 @@ where
         c.word.is_empty() && c.storage.is_at_bottom() && c.storage != self.initial
     }
 
+    fn is_terminal_storage(&self, storage: &TreeStack<A>) -> bool {
+        storage.is_at_bottom() && *storage != Automaton::initial(self)
+    }
+
     fn transitions<'a>(
         &'a self,
     ) -> Box<dyn Iterator<Item = Transition<TreeStackInstruction<A>, T, W>> + 'a> {
diff --git a/src/recognisable/automaton.rs b/src/recognisable/automaton.rs
index 6b187a1..42e5e78 100644
--- a/src/recognisable/automaton.rs
+++ b/src/recognisable/automaton.rs
@@ -74,6 +74,11 @@ where
         c: &Configuration<<Self::IInt as Instruction>::Storage, Self::TInt, W>,
     ) -> bool;
 
+    /// Returns whether the `Automaton` may stop and accept in the given storage configuration once the word is read.
+    fn is_terminal_storage(&self, _: &<Self::I as Instruction>::Storage) -> bool {
+        true
+    }
+
     /// Returns a `Map` from `Self::Key` to the matching `Transition`s (in their internal representation).
     fn transition_map(&self) -> Rc<TransitionMap<Self::Key, Self::IInt, Self::TInt, W>>;
 
diff --git a/src/recognisable/coarse_to_fine.rs b/src/recognisable/coarse_to_fine.rs
index da5f24e..feb743b 100644
--- a/src/recognisable/coarse_to_fine.rs
+++ b/src/recognisable/coarse_to_fine.rs
@@ -95,7 +95,9 @@ where
                 let r1s = self.approximation_instance.unapproximate_run(r2);
                 for r1 in r1s {
                     for i1 in self.recogniser.check_run(r1) {
-                        self.output_buffer.push(i1);
+                        if self.recogniser.is_terminal_storage(&i1.0.storage) {
+                            self.output_buffer.push(i1);
+                        }
                     }
                 }
             } else {
-- 
2.43.0


From a05a33f95ccfcd00c59f4b03d4255bca45d487f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:56 +0000
Subject: [PATCH 24/34] fix: a tree stack automaton reads all terminals after
 the last variable of a component, and no others

---
 src/automata/tree_stack_automaton/from_pmcfg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/automata/tree_stack_automaton/from_pmcfg.rs b/src/automata/tree_stack_automaton/from_pmcfg.rs
index e839b72..02feda7 100644
--- a/src/automata/tree_stack_automaton/from_pmcfg.rs
+++ b/src/automata/tree_stack_automaton/from_pmcfg.rs
@@ -77,8 +77,8 @@ impl<
             let mut down_buffer: Vec<T> = Vec::new();
             for component in &r.composition.composition {
                 i = 0;
+                down_buffer.clear();
                 for ntt in component {
-                    down_buffer.clear();
                     match *ntt {
                         VarT::Var(_, _) => {
                             i += 1;
-- 
2.43.0


From ad60f6b3684c59aa22be488a7e901e468b107b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:10 +0000
Subject: [PATCH 25/34] fix: malformed instructions, weights and trailing text
 of a transition are errors

---
 src/recognisable/from_str.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/recognisable/from_str.rs b/src/recognisable/from_str.rs
index bc21893..68308ce 100644
--- a/src/recognisable/from_str.rs
+++ b/src/recognisable/from_str.rs
@@ -5,7 +5,7 @@ use std::str::{from_utf8, FromStr};
 use std::vec::Vec;
 
 use crate::recognisable::{Instruction, Transition};
-use crate::util::parsing::{parse_comment, parse_token, parse_vec};
+use crate::util::parsing::{parse_token, parse_vec};
 
 impl<I: Instruction + FromStr, T: FromStr, W: FromStr> FromStr for Transition<I, T, W>
 where
@@ -46,20 +46,22 @@ where
                     delimited!(tag!("("), take_until!(")"), tag!(")")),
                     from_utf8
                 )
+            >> instruction: expr_res!(instruction.parse())
             >> take_while!(is_space)
             >> weight_o:
                 opt!(complete!(do_parse!(
                     tag!("#")
                         >> take_while!(is_space)
                         >> weight_s: map_res!(is_not!(" "), from_utf8)
-                        >> (weight_s.parse().unwrap())
+                        >> weight: expr_res!(weight_s.parse())
+                        >> (weight)
                 )))
             >> take_while!(is_space)
-            >> opt!(complete!(parse_comment))
+            >> alt!(eof!() | preceded!(tag!("%"), take_while!(|_| true)))
             >> (Transition {
                 word: word,
                 weight: weight_o.unwrap_or(W::one()),
-                instruction: instruction.parse().unwrap(),
+                instruction: instruction,
             })
     )
 }
-- 
2.43.0


From f64cd9274d479c25fef0111651e1bb65a283f63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:10 +0000
Subject: [PATCH 26/34] fix: an empty tree stack instruction is an error

---
 src/automata/tree_stack_automaton/from_str.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/automata/tree_stack_automaton/from_str.rs b/src/automata/tree_stack_automaton/from_str.rs
index 3150cc4..210344c 100644
--- a/src/automata/tree_stack_automaton/from_str.rs
+++ b/src/automata/tree_stack_automaton/from_str.rs
@@ -53,7 +53,7 @@ impl<A: FromStr> FromStr for TreeStackInstruction<A> {
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let v: Vec<&str> = s.split_whitespace().collect();
         let e: String = "Malformed node label.".to_string();
-        match v[0] {
+        match v.first().copied().unwrap_or("") {
             "Up" if v.len() == 5 => {
                 let n: usize = v[1].parse().map_err(|e: ParseIntError| e.to_string())?;
                 let cur_val: A = v[2].parse().map_err(|_| e.clone())?;
-- 
2.43.0


From 1ff29da5c38185543dad0c4c5ebc54ecfd895209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:10 +0000
Subject: [PATCH 27/34] fix: lines with only whitespace are ignored in automata

---
 src/automata/finite_state_automaton/from_str.rs | 2 +-
 src/automata/tree_stack_automaton/from_str.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/automata/finite_state_automaton/from_str.rs b/src/automata/finite_state_automaton/from_str.rs
index ff542cd..1ea58a8 100644
--- a/src/automata/finite_state_automaton/from_str.rs
+++ b/src/automata/finite_state_automaton/from_str.rs
@@ -41,7 +41,7 @@ where
                     }
                     _ => return Err(format!("Malformed final declaration: {}", l)),
                 }
-            } else if !l.is_empty() && !l.trim_start().starts_with("%") {
+            } else if !l.trim().is_empty() && !l.trim_start().starts_with("%") {
                 transitions.push(l.trim().parse()?);
             }
         }
diff --git a/src/automata/tree_stack_automaton/from_str.rs b/src/automata/tree_stack_automaton/from_str.rs
index 210344c..fe7b51d 100644
--- a/src/automata/tree_stack_automaton/from_str.rs
+++ b/src/automata/tree_stack_automaton/from_str.rs
@@ -35,7 +35,7 @@ where
                     }
                     _ => return Err(format!("Malformed initial declaration: {}", l)),
                 }
-            } else if !l.is_empty() && !l.trim_start().starts_with("%") {
+            } else if !l.trim().is_empty() && !l.trim_start().starts_with("%") {
                 transitions.push(l.trim().parse()?);
             }
         }
-- 
2.43.0


From 1f3d0c332600f90830eb93d499d1b992c9a3ef88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:31 +0000
Subject: [PATCH 28/34] fix: print finite state automata with their states, in
 the format that is read

---
 src/automata/finite_state_automaton/mod.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/automata/finite_state_automaton/mod.rs b/src/automata/finite_state_automaton/mod.rs
index ffa771a..bbb34eb 100644
--- a/src/automata/finite_state_automaton/mod.rs
+++ b/src/automata/finite_state_automaton/mod.rs
@@ -210,7 +210,7 @@ where
     Q: Display,
 {
     fn fmt(&self, f: &mut Formatter) -> fmt::Result {
-        write!(f, "{} → {}", self.source_state, self.target_state)
+        write!(f, "({} → {})", self.source_state, self.target_state)
     }
 }
 
@@ -222,18 +222,17 @@ where
 {
     fn fmt(&self, f: &mut Formatter) -> fmt::Result {
         let mut buffer = "".to_string();
-        buffer.push_str(&format!("initial: {}\n", self.initial_state));
+        let state = |i| self.q_integeriser.find_value(i).unwrap();
+        buffer.push_str(&format!("initial: {}\n", state(self.initial_state)));
 
         buffer.push_str("final: [");
         let mut first = true;
-        for i in 0..self.final_states.len() {
-            if self.final_states.contains(i) {
-                if first {
-                    buffer.push_str(", ");
-                    first = false;
-                }
-                buffer.push_str(&format!("\"{}\"", i));
+        for i in self.final_states.iter() {
+            if !first {
+                buffer.push_str(", ");
             }
+            first = false;
+            buffer.push_str(&format!("\"{}\"", state(i)));
         }
         buffer.push_str("]\n\n");
         for t in self.list_transitions() {
-- 
2.43.0


From 0c32518bee18e0b70bfece4b59f8474d5c221c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:24 +0000
Subject: [PATCH 29/34] fix: print the initial symbol of a tree stack
 automaton, not its number

---
 src/automata/tree_stack_automaton/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/automata/tree_stack_automaton/mod.rs b/src/automata/tree_stack_automaton/mod.rs
index a84a5f9..73a6205 100644
--- a/src/automata/tree_stack_automaton/mod.rs
+++ b/src/automata/tree_stack_automaton/mod.rs
@@ -252,7 +252,7 @@ where
         write!(
             f,
             "initial: {}\n\n{}",
-            self.initial.current_symbol(),
+            self.initial().current_symbol(),
             formatted_transitions
         )
     }
-- 
2.43.0


From b1d93478733114d2399229fe79a1136f557a039b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:09 +0000
Subject: [PATCH 30/34] fix: k-best parses used terminal rules for other
 symbols

---
 src/grammars/lcfrs/csparsing/automaton/chart.rs    | 14 +++++++++++++-
 .../lcfrs/csparsing/automaton/kbest/mod.rs         |  3 +--
 src/grammars/lcfrs/csparsing/automaton/mod.rs      |  4 ++++
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/grammars/lcfrs/csparsing/automaton/chart.rs b/src/grammars/lcfrs/csparsing/automaton/chart.rs
index 3adacc0..cb7ef44 100644
--- a/src/grammars/lcfrs/csparsing/automaton/chart.rs
+++ b/src/grammars/lcfrs/csparsing/automaton/chart.rs
@@ -1,4 +1,4 @@
-use super::{RangeT, StateT};
+use super::{RangeT, RuleIdT, StateT};
 use num_traits::Zero;
 use std::ops::AddAssign;
 
@@ -11,6 +11,7 @@ pub struct DenseChart<W>(
     usize,            // n
     usize,            // states
     u16,              // max no. of constituents per span
+    Vec<Vec<RuleIdT>>, // terminal rules that match the word per position
 );
 
 pub fn chart_size(n: usize) -> usize {
@@ -44,6 +45,7 @@ impl<W: Copy> DenseChart<W> {
             n,
             states,
             bt_per_cell as u16,
+            vec![ Vec::new(); n ],
         )
     }
 
@@ -58,6 +60,16 @@ impl<W: Copy> DenseChart<W> {
         }
     }
 
+    /// Stores the terminal rules that match the symbol at a position.
+    pub fn set_terminal_rules(&mut self, i: RangeT, rules: Vec<RuleIdT>) {
+        self.6[i as usize] = rules;
+    }
+
+    /// Checks if a terminal rule matches the symbol at a position.
+    pub fn is_terminal_rule(&self, i: RangeT, rule: RuleIdT) -> bool {
+        self.6[i as usize].contains(&rule)
+    }
+
     /// Gets weight for specific constituent and span.
     pub fn get_weight(&self, i: RangeT, j: RangeT, q: StateT) -> Option<W>
     where
diff --git a/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs b/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs
index c0d476d..f96702a 100644
--- a/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs
+++ b/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs
@@ -126,9 +126,8 @@ where
         if j - i == 1 {
             for &(r, w) in nullaries[q as usize]
                 .iter()
-                .filter(|&(r, _)| filter[*r as usize])
+                .filter(|&(r, _)| filter[*r as usize] && chart.is_terminal_rule(i, *r))
             {
-                // is is not correct in general, but ok for terminal-seperated rules
                 heap.push(IndexedBacktrace::Nullary(r, w), w);
             }
         }
diff --git a/src/grammars/lcfrs/csparsing/automaton/mod.rs b/src/grammars/lcfrs/csparsing/automaton/mod.rs
index 13f33b7..dffcb0b 100644
--- a/src/grammars/lcfrs/csparsing/automaton/mod.rs
+++ b/src/grammars/lcfrs/csparsing/automaton/mod.rs
@@ -290,6 +290,10 @@ impl<T: Eq + Hash, W: Ord + Mul<Output = W> + Copy + Zero + One> Automaton<T, W>
                 // initial predictions for each position in word
                 if range == 1 {
                     if let Some(initials) = self.2.get(&word[l]) {
+                        chart.set_terminal_rules(
+                            l as u8,
+                            initials.iter().map(|&(rid, _)| rid).collect(),
+                        );
                         heap_of_nonterminals.extend(initials.iter().filter_map(|&(rid, (w, q))| {
                             if !rule_filter[rid as usize] {
                                 return None;
-- 
2.43.0


From 42c7c48eb1965114ab4c281f4d96bd4de4b5b010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:11 +0000
Subject: [PATCH 31/34] fix: a beam of 0 or beyond 65535 made csparsing panic

---
 src/grammars/lcfrs/csparsing/automaton/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/grammars/lcfrs/csparsing/automaton/mod.rs b/src/grammars/lcfrs/csparsing/automaton/mod.rs
index dffcb0b..f9da7ff 100644
--- a/src/grammars/lcfrs/csparsing/automaton/mod.rs
+++ b/src/grammars/lcfrs/csparsing/automaton/mod.rs
@@ -276,6 +276,8 @@ impl<T: Eq + Hash, W: Ord + Mul<Output = W> + Copy + Zero + One> Automaton<T, W>
     ) -> DenseChart<W> {
         let n = word.len();
         let nonterminals = self.0.len();
+        // there are no more constituents than nonterminals
+        let beam = beam.min(nonterminals);
 
         // contains the constituents ordered by weight
         let mut heap_of_nonterminals: BinaryHeap<(W, StateT)> = BinaryHeap::with_capacity(beam);
@@ -335,6 +337,9 @@ impl<T: Eq + Hash, W: Ord + Mul<Output = W> + Copy + Zero + One> Automaton<T, W>
                     if replace(&mut skip[q as usize], true) {
                         continue;
                     }
+                    if i == 0 {
+                        break;
+                    }
                     chart.add_entry(l as u8, r as u8, q, w);
                     heap_of_nonterminals.extend(self.1[q as usize].iter().filter_map(
                         |&(rid, (rw, q))| {
@@ -346,7 +351,7 @@ impl<T: Eq + Hash, W: Ord + Mul<Output = W> + Copy + Zero + One> Automaton<T, W>
                         },
                     ));
                     i -= 1;
-                    if i == 0 || w < worst_weight {
+                    if w < worst_weight {
                         break;
                     }
                 }
-- 
2.43.0


From 0134383b321c022b344be29094bb5d52f8e62213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:52 +0000
Subject: [PATCH 32/34] fix: csparsing of words longer than 255

---
 src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs |  4 ++--
 src/grammars/lcfrs/csparsing/automaton/mod.rs       | 10 +++++-----
 src/grammars/lcfrs/csparsing/mod.rs                 |  2 +-
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs b/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs
index f96702a..977fea0 100644
--- a/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs
+++ b/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs
@@ -283,8 +283,8 @@ impl<'a, W: Ord + Copy + Mul<Output = W> + Zero> Iterator for ChartIterator<'a,
         let &mut ChartIterator { initial, n, k, .. } = self;
         self.k += 1;
 
-        self.kth(0u8, n as u8, initial, k)
-            .map(|(backtrace, _)| self.read(0u8, n as u8, &backtrace))
+        self.kth(0, n as RangeT, initial, k)
+            .map(|(backtrace, _)| self.read(0, n as RangeT, &backtrace))
     }
 }
 
diff --git a/src/grammars/lcfrs/csparsing/automaton/mod.rs b/src/grammars/lcfrs/csparsing/automaton/mod.rs
index f9da7ff..3e7c862 100644
--- a/src/grammars/lcfrs/csparsing/automaton/mod.rs
+++ b/src/grammars/lcfrs/csparsing/automaton/mod.rs
@@ -22,7 +22,7 @@ pub use self::rulemask::RuleMaskBuilder;
 
 pub type RuleIdT = u32;
 pub type StateT = u32;
-pub type RangeT = u8;
+pub type RangeT = u16;
 
 /// stores a lhs state and weight of a rule
 pub type BuRule<W> = (W, StateT);
@@ -293,7 +293,7 @@ impl<T: Eq + Hash, W: Ord + Mul<Output = W> + Copy + Zero + One> Automaton<T, W>
                 if range == 1 {
                     if let Some(initials) = self.2.get(&word[l]) {
                         chart.set_terminal_rules(
-                            l as u8,
+                            l as RangeT,
                             initials.iter().map(|&(rid, _)| rid).collect(),
                         );
                         heap_of_nonterminals.extend(initials.iter().filter_map(|&(rid, (w, q))| {
@@ -308,7 +308,7 @@ impl<T: Eq + Hash, W: Ord + Mul<Output = W> + Copy + Zero + One> Automaton<T, W>
 
                 // binary step
                 for mid in l + 1..r {
-                    for &(lnt, lew) in chart.iterate_nont(l as u8, mid as u8) {
+                    for &(lnt, lew) in chart.iterate_nont(l as RangeT, mid as RangeT) {
                         let available_rules = &self.0[lnt as usize];
                         let cache = (NOSTATE, None);
                         heap_of_nonterminals.extend(available_rules.iter().filter_map(
@@ -319,7 +319,7 @@ impl<T: Eq + Hash, W: Ord + Mul<Output = W> + Copy + Zero + One> Automaton<T, W>
                                 let riw = if cache.0 == rnt {
                                     cache.1
                                 } else {
-                                    chart.get_weight(mid as u8, r as u8, rnt)
+                                    chart.get_weight(mid as RangeT, r as RangeT, rnt)
                                 }?;
                                 let _ = outsides.get(lhs, l, r, n)?;
                                 Some((lew * ruw * riw, lhs))
@@ -340,7 +340,7 @@ impl<T: Eq + Hash, W: Ord + Mul<Output = W> + Copy + Zero + One> Automaton<T, W>
                     if i == 0 {
                         break;
                     }
-                    chart.add_entry(l as u8, r as u8, q, w);
+                    chart.add_entry(l as RangeT, r as RangeT, q, w);
                     heap_of_nonterminals.extend(self.1[q as usize].iter().filter_map(
                         |&(rid, (rw, q))| {
                             if !rule_filter[rid as usize] {
diff --git a/src/grammars/lcfrs/csparsing/mod.rs b/src/grammars/lcfrs/csparsing/mod.rs
index 29a3cd8..9e8c98c 100644
--- a/src/grammars/lcfrs/csparsing/mod.rs
+++ b/src/grammars/lcfrs/csparsing/mod.rs
@@ -220,7 +220,7 @@ where
             Automaton::from_grammar(rules_with_id, initial.clone())
         };
         let rulemaskbuilder = RuleMaskBuilder::new(rules.iter(), &initial);
-        let estimates = SxOutside::from_automaton(&generator, estimates_max_width as u8);
+        let estimates = SxOutside::from_automaton(&generator, estimates_max_width as u16);
 
         CSRepresentation {
             generator,
-- 
2.43.0


From 47a5f08c23193542de0c99002a7469a0c338dd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:16 +0000
Subject: [PATCH 33/34] fix: build a unique heap from an iterator whose upper
 bound is far too large

---
 unique-heap/src/lib.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/unique-heap/src/lib.rs b/unique-heap/src/lib.rs
index 5bdd4f9..5442fc7 100644
--- a/unique-heap/src/lib.rs
+++ b/unique-heap/src/lib.rs
@@ -107,10 +107,8 @@ where
         T: IntoIterator<Item = (I, W)>,
     {
         let iter = iter.into_iter();
-        let n = match iter.size_hint() {
-            (_, Some(upper)) => upper,
-            (lower, None) => lower,
-        };
+        // the upper bound may exceed the number of items by far
+        let (n, _) = iter.size_hint();
         let mut heap = BinaryHeap::with_capacity(n);
         let mut current_items = HashSet::with_capacity_and_hasher(n, Default::default());
 
-- 
2.43.0


From 9426d48a0007bc07aaa7bd56e5bb7b258416b72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:16 +0000
Subject: [PATCH 34/34] fix: a limited heap of large capacity panicked or ran
 out of memory

---
 search/src/agenda/limited_heap.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/search/src/agenda/limited_heap.rs b/search/src/agenda/limited_heap.rs
index ced5878..e9e913f 100644
--- a/search/src/agenda/limited_heap.rs
+++ b/search/src/agenda/limited_heap.rs
@@ -17,7 +17,8 @@ where
 impl<I, W: Ord> LimitedHeap<I, W> {
     pub fn with_capacity(capacity: usize) -> Self {
         LimitedHeap {
-            heap: MinMaxHeap::with_capacity(capacity),
+            // grows with its items, so that every capacity is possible
+            heap: MinMaxHeap::new(),
             capacity,
         }
     }
-- 
2.43.0

