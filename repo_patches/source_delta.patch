From e1f884dd3718a49c7464bbfb19e5c4f4769be7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:10 +0000
Subject: [PATCH 01/11] fix: tokenize digit-led word segments holding non-ascii
 characters instead of panicking

---
 src/create_tokens.rs | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/create_tokens.rs b/src/create_tokens.rs
index 3bcf5ed..000876f 100644
--- a/src/create_tokens.rs
+++ b/src/create_tokens.rs
@@ -103,13 +103,6 @@ where
             // http://www.unicode.org/reports/tr29/#Word_Boundaries
             // if \d+[,\.a-zA-Z]\d+ or more repeats (3 is minimum)
             if unicode_word.chars().next().unwrap().is_ascii_digit() {
-                // make assumtions about the length of every char being 1
-                assert!(
-                    unicode_word.is_ascii(),
-                    "Unexpected non-ascii digit word boundary: {}",
-                    unicode_word
-                );
-
                 let mut collected_digits = String::new();
                 let mut collected_letters = String::new();
 
@@ -139,19 +132,25 @@ where
                     };
                 }
 
-                for ch in unicode_word.chars() {
-                    if ch.is_ascii_digit() {
+                // The segment may hold non-ascii pieces such as "10µm", "1’000", "1\u{202f}000" or the keycap "1️⃣",
+                // so go grapheme by grapheme to never cut inside of a user-perceived character.
+                for grapheme in unicode_word.graphemes(true) {
+                    if grapheme.chars().all(|ch| ch.is_ascii_digit()) {
                         insert_collected_letters!();
-                        collected_digits.push(ch);
-                    } else if ch.is_alphabetic() {
+                        collected_digits.push_str(grapheme);
+                    } else if grapheme.chars().all(char::is_alphabetic) {
                         insert_collected_digits!();
-                        collected_letters.push(ch);
+                        collected_letters.push_str(grapheme);
                     } else {
                         insert_collected_letters!();
                         insert_collected_digits!();
-                        let text = String::from(ch);
-                        let size = get_text_size(&text);
-                        ltokens.push((LToken::Text(text, TextTag::PUNC), size));
+                        let tag = if grapheme.is_ascii() {
+                            TextTag::PUNC
+                        } else {
+                            get_word_tag::get_unicode_word_tag(grapheme)
+                        };
+                        let size = get_text_size(grapheme);
+                        ltokens.push((LToken::Text(grapheme.to_string(), tag), size));
                     }
                 }
 
-- 
2.43.0


From 52c047bf5fe8fdaa57b32069827d117cbdcdade6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:10 +0000
Subject: [PATCH 02/11] fix: token_has_any no longer panics on a token without
 any attributes

---
 src/ll_line/x.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ll_line/x.rs b/src/ll_line/x.rs
index 1bd4048..167d413 100644
--- a/src/ll_line/x.rs
+++ b/src/ll_line/x.rs
@@ -143,8 +143,7 @@ impl<'l> XDirection<'l> for XForwards {
             .attrs
             .values
             .get(&(self.from_idx, self.from_idx))
-            .expect("Huh... match_forwards was at the end")
-            .get::<T>()
+            .map_or(&[][..], |type_bucket| type_bucket.get::<T>())
             .iter()
             .filter_map(|value| {
                 if set.contains(value) {
-- 
2.43.0


From d1e3685d26e8eeae86c4e0ae5b3723ceb6fb586c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:10 +0000
Subject: [PATCH 03/11] fix: token_has_any matches a single token backwards
 too, as it does forwards

---
 src/ll_line/x.rs | 29 +++++++++--------------------
 1 file changed, 9 insertions(+), 20 deletions(-)

diff --git a/src/ll_line/x.rs b/src/ll_line/x.rs
index 167d413..1661734 100644
--- a/src/ll_line/x.rs
+++ b/src/ll_line/x.rs
@@ -247,29 +247,18 @@ impl<'l> XDirection<'l> for XBackwards {
     ) -> Vec<(&'l T, ToIdx)> {
         //        [ ... ] - Current Selection
         // [ ... ] - Trying to match Attr
-        //   [...] - Trying to match Attr
         ll_line
             .attrs
-            .ends_at
-            .get(self.from_idx)
-            .expect("Huh... Backwards::next_attr was at the start")
-            .get::<T>()
+            .values
+            .get(&(self.from_idx, self.from_idx))
+            .map_or(&[][..], |type_bucket| type_bucket.get::<T>())
             .iter()
-            .flat_map(|range| {
-                ll_line
-                    .attrs
-                    .values
-                    .get(range)
-                    .unwrap()
-                    .get::<T>()
-                    .iter()
-                    .filter_map(move |val| {
-                        if set.contains(val) {
-                            Some((val, ToIdx(range.0)))
-                        } else {
-                            None
-                        }
-                    })
+            .filter_map(|value| {
+                if set.contains(value) {
+                    Some((value, ToIdx(self.from_idx)))
+                } else {
+                    None
+                }
             })
             .collect()
     }
-- 
2.43.0


From e65344d40b20c38574f5a2e49b428c1a47b24acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:10 +0000
Subject: [PATCH 04/11] fix: trim_end returns None when the match reaches the
 start of the line

---
 src/ll_line/ll_selection.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/ll_line/ll_selection.rs b/src/ll_line/ll_selection.rs
index 251fb73..2731a0d 100644
--- a/src/ll_line/ll_selection.rs
+++ b/src/ll_line/ll_selection.rs
@@ -339,10 +339,8 @@ impl LLSelection {
                 )
                 .first()
             {
-                new_end = (first_match.1)
-                    .0
-                    .checked_sub(1)
-                    .unwrap_or((first_match.1).0);
+                // nothing is left when the match reaches the start of the line
+                new_end = (first_match.1).0.checked_sub(1)?;
             }
         }
 
-- 
2.43.0


From 81e770be12234f4f44c11c1ed83b4781c9037e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:10 +0000
Subject: [PATCH 05/11] fix: LLSelection::after is None exactly when nothing
 follows the selection

---
 src/ll_line/ll_selection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ll_line/ll_selection.rs b/src/ll_line/ll_selection.rs
index 2731a0d..27c8855 100644
--- a/src/ll_line/ll_selection.rs
+++ b/src/ll_line/ll_selection.rs
@@ -257,7 +257,7 @@ impl LLSelection {
     pub fn after(&self) -> Option<LLSelection> {
         let ll_line_end = self.ll_line.ll_tokens.len() - 1;
 
-        if self.start_idx + 1 == ll_line_end {
+        if self.end_idx == ll_line_end {
             None
         } else {
             Some(LLSelection {
-- 
2.43.0


From 21f67f25a29a38528cb3cbc3e0c3bb236dcf707d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:10 +0000
Subject: [PATCH 06/11] fix: split_by pieces never include a token covered by
 one of overlapping matches

---
 src/ll_line/ll_selection.rs | 37 +++++++++++--------------------------
 1 file changed, 11 insertions(+), 26 deletions(-)

diff --git a/src/ll_line/ll_selection.rs b/src/ll_line/ll_selection.rs
index 27c8855..49c728b 100644
--- a/src/ll_line/ll_selection.rs
+++ b/src/ll_line/ll_selection.rs
@@ -72,34 +72,19 @@ impl LLSelection {
             return vec![self.clone()];
         }
 
-        if matches.len() == 1 {
-            return matches[0]
-                .0
-                .start_idx
-                .checked_sub(1)
-                .and_then(|end_idx| self.selection_from(self.start_idx, end_idx))
-                .into_iter()
-                .chain(self.selection_from(matches[0].0.end_idx + 1, self.end_idx))
-                .collect();
+        // Matches are ordered by where they start, but they may overlap or be nested,
+        // so keep track of how far the matches seen so far reach.
+        let mut pieces = Vec::new();
+        let mut next_start_idx = self.start_idx;
+        for (matched, _) in matches {
+            if let Some(end_idx) = matched.start_idx.checked_sub(1) {
+                pieces.extend(self.selection_from(next_start_idx, end_idx));
+            }
+            next_start_idx = next_start_idx.max(matched.end_idx + 1);
         }
+        pieces.extend(self.selection_from(next_start_idx, self.end_idx));
 
-        let start_opt = matches[0]
-            .0
-            .start_idx
-            .checked_sub(1)
-            .and_then(|end_idx| self.selection_from(self.start_idx, end_idx));
-
-        let end_opt = self.selection_from(matches.last().unwrap().0.end_idx + 1, self.end_idx);
-        start_opt
-            .into_iter()
-            .chain(matches.windows(2).into_iter().filter_map(|m| {
-                m[1].0
-                    .start_idx
-                    .checked_sub(1)
-                    .and_then(|end_idx| self.selection_from(m[0].0.end_idx + 1, end_idx))
-            }))
-            .chain(end_opt)
-            .collect()
+        pieces
     }
 
     pub fn find_by<'a, M: XMatch<'a>>(&'a self, matcher: &M) -> Vec<(LLSelection, M::Out)> {
-- 
2.43.0


From a64d4a2261f815d60cbf902af45bfe2273e6c303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:10 +0000
Subject: [PATCH 07/11] fix: AmountResolver skips numbers too large for Decimal
 instead of panicking

---
 layered-amount/src/amounts.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/layered-amount/src/amounts.rs b/layered-amount/src/amounts.rs
index 49e835b..0164df8 100644
--- a/layered-amount/src/amounts.rs
+++ b/layered-amount/src/amounts.rs
@@ -109,11 +109,14 @@ impl Resolver for AmountResolver {
                 }
             }
 
-            attrs.push(
-                last_valid_selection
-                    .unwrap_or_else(|| selection.clone())
-                    .finish_with_attr(Amount(number_string.parse::<Decimal>().unwrap())),
-            );
+            // Numbers which are too large for a [Decimal] have no amount
+            if let Ok(decimal) = number_string.parse::<Decimal>() {
+                attrs.push(
+                    last_valid_selection
+                        .unwrap_or_else(|| selection.clone())
+                        .finish_with_attr(Amount(decimal)),
+                );
+            }
 
             if let [_, Some(right_sel)] = search_range_sel.split_with(&selection) {
                 search_range_sel = right_sel;
-- 
2.43.0


From f7b5e960082bfe8f374e57ea5b2d58bdd210b41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:10 +0000
Subject: [PATCH 08/11] fix: AmountResolver::french uses the documented comma
 decimal point

---
 layered-amount/src/amounts.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layered-amount/src/amounts.rs b/layered-amount/src/amounts.rs
index 0164df8..41d1cc8 100644
--- a/layered-amount/src/amounts.rs
+++ b/layered-amount/src/amounts.rs
@@ -51,7 +51,7 @@ impl AmountResolver {
     pub fn french() -> Self {
         Self {
             delimiters: vec![' ', '.', '\''],
-            decimal: '.',
+            decimal: ',',
         }
     }
 }
-- 
2.43.0


From 9fe039bde4c2d6d9f5acb590ddf173f6b0b5d78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:10 +0000
Subject: [PATCH 09/11] fix: case insensitive text lookup keeps the values of
 keys which only differ by case

---
 src/resolvers/text_match.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/resolvers/text_match.rs b/src/resolvers/text_match.rs
index 2fbc603..9c62941 100644
--- a/src/resolvers/text_match.rs
+++ b/src/resolvers/text_match.rs
@@ -20,21 +20,33 @@ impl<T: Debug + Clone + 'static> TextMatchAssignResolver<T> {
         }
     }
     pub fn new_case_insensitive(lookup: HashMap<String, Vec<T>>) -> Self {
+        // keys which only differ by case share their lowercase entry
+        let mut lowercase_lookup: HashMap<String, Vec<T>> = HashMap::new();
+        for (key, values) in lookup {
+            lowercase_lookup
+                .entry(key.to_lowercase())
+                .or_default()
+                .extend(values);
+        }
+
         TextMatchAssignResolver {
             case_sensitive: false,
-            lookup: lookup
-                .into_iter()
-                .map(|(key, val)| (key.to_lowercase(), val))
-                .collect(),
+            lookup: lowercase_lookup,
         }
     }
     pub fn new_case_insensitive_str_arr<const N: usize>(lookup: [(&'static str, T); N]) -> Self {
+        // keys which only differ by case share their lowercase entry
+        let mut lowercase_lookup: HashMap<String, Vec<T>> = HashMap::new();
+        for (key, value) in lookup.iter() {
+            lowercase_lookup
+                .entry(key.to_lowercase())
+                .or_default()
+                .push(value.clone());
+        }
+
         TextMatchAssignResolver {
             case_sensitive: false,
-            lookup: lookup
-                .iter()
-                .map(|(key, val)| (key.to_lowercase(), vec![val.clone()]))
-                .collect(),
+            lookup: lowercase_lookup,
         }
     }
 }
-- 
2.43.0


From 71e2d30388b727d17bffe49102fa1219fa367d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:25 +0000
Subject: [PATCH 10/11] fix: AmountResolver only absorbs a number after the
 decimal point when there is one

Two directly adjacent number tokens (possible across input tokens) were glued
together into a single amount without any delimiter or decimal point.
---
 layered-amount/src/amounts.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/layered-amount/src/amounts.rs b/layered-amount/src/amounts.rs
index 41d1cc8..671a373 100644
--- a/layered-amount/src/amounts.rs
+++ b/layered-amount/src/amounts.rs
@@ -98,14 +98,14 @@ impl Resolver for AmountResolver {
                     last_valid_selection = Some(selection);
                     number_string.push('.');
                     selection = with_decimal_sel;
-                }
 
-                if let Some((following_decimal_sel, ((), text))) = selection
-                    .match_first_forwards(&x::all((x::attr_eq(&TextTag::NATN), x::token_text())))
-                {
-                    number_string.push_str(text);
-                    last_valid_selection = None;
-                    selection = following_decimal_sel;
+                    if let Some((following_decimal_sel, ((), text))) = selection
+                        .match_first_forwards(&x::all((x::attr_eq(&TextTag::NATN), x::token_text())))
+                    {
+                        number_string.push_str(text);
+                        last_valid_selection = None;
+                        selection = following_decimal_sel;
+                    }
                 }
             }
 
-- 
2.43.0


From 196cf85047df65f25a358e01bc5505c894a6f672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:33 +0000
Subject: [PATCH 11/11] fix: case insensitive text lookup gives values of
 coinciding keys in a deterministic order

---
 src/resolvers/text_match.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/resolvers/text_match.rs b/src/resolvers/text_match.rs
index 9c62941..1acd8d4 100644
--- a/src/resolvers/text_match.rs
+++ b/src/resolvers/text_match.rs
@@ -20,9 +20,13 @@ impl<T: Debug + Clone + 'static> TextMatchAssignResolver<T> {
         }
     }
     pub fn new_case_insensitive(lookup: HashMap<String, Vec<T>>) -> Self {
-        // keys which only differ by case share their lowercase entry
+        // keys which only differ by case share their lowercase entry,
+        // in key order so that the result does not depend on the order of the hash map
+        let mut entries: Vec<(String, Vec<T>)> = lookup.into_iter().collect();
+        entries.sort_by(|(a, _), (b, _)| a.cmp(b));
+
         let mut lowercase_lookup: HashMap<String, Vec<T>> = HashMap::new();
-        for (key, values) in lookup {
+        for (key, values) in entries {
             lowercase_lookup
                 .entry(key.to_lowercase())
                 .or_default()
-- 
2.43.0

