From 901c7f883e426139ef5ff3f70b95ebab65577244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:49 +0000
Subject: [PATCH 01/78] fix: CHECK-EMPTY looks at the line after the one the
 cursor is on, within its block

---
 filecheck/src/rules/empty.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/filecheck/src/rules/empty.rs b/filecheck/src/rules/empty.rs
index ebd4af2..e4919f6 100644
--- a/filecheck/src/rules/empty.rs
+++ b/filecheck/src/rules/empty.rs
@@ -30,7 +30,10 @@ impl Rule for CheckEmpty {
             .next_newline_from(next_line_start)
             .unwrap_or_else(|| cursor.end_of_file());
         let next_line = next_line_start..next_eol;
-        if cursor.at_end_of_line() && next_line.is_empty() {
+        // There is no next line when the current one is the last of the input, or of the block
+        let has_next_line =
+            cursor.next_newline_from(cursor.start()).is_some_and(|eol| eol < cursor.end());
+        if has_next_line && next_line.is_empty() {
             let span =
                 SourceSpan::from_range_unchecked(cursor.source_id, next_line_start..next_eol);
             // Move to the end of the empty line
@@ -42,8 +45,7 @@ impl Rule for CheckEmpty {
             .into())
         } else {
             // Report the line we required to be empty, so the failure shows what was there
-            // instead. When the cursor is mid-line, that line is included as well, since
-            // that is why we never got to consider the next one.
+            // instead.
             let searched = core::cmp::min(cursor.start(), next_line_start)..next_eol;
             Ok(MatchResult {
                 ty: MatchType::Failed(
-- 
2.43.0


From 9392dc3e0c8617eec0589da7a7ac1583a495774a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:49 +0000
Subject: [PATCH 02/78] fix: an empty CHECK-SAME match at the end of the line
 is not a panic

---
 filecheck/src/rules/same.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filecheck/src/rules/same.rs b/filecheck/src/rules/same.rs
index b8ef922..8cc2ca2 100644
--- a/filecheck/src/rules/same.rs
+++ b/filecheck/src/rules/same.rs
@@ -40,7 +40,7 @@ where
                 info: Some(info),
             } if ty.is_ok() => {
                 let cursor = context.cursor_mut();
-                assert!(info.span.start().to_usize() < cursor.end_of_line());
+                assert!(info.span.start().to_usize() <= cursor.end_of_line());
                 cursor.set_start(info.span.end().to_usize());
                 Ok(MatchResult::new(ty, Some(info)).into())
             }
-- 
2.43.0


From 3c23ef20d3345e63c39b35eb87afbfbfc82aec1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:49 +0000
Subject: [PATCH 03/78] fix: a failing CHECK-NEXT on the last line of a block
 reports an empty region

---
 filecheck/src/rules/next.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filecheck/src/rules/next.rs b/filecheck/src/rules/next.rs
index c8c4ff0..ebfc35d 100644
--- a/filecheck/src/rules/next.rs
+++ b/filecheck/src/rules/next.rs
@@ -42,7 +42,7 @@ where
             let at_eof = cursor.end_of_file() == block_end;
             let mut error = CheckFailedError::match_none(
                 self.pattern.span(),
-                &context.search_range(start..block_end),
+                &context.search_range(core::cmp::min(start, block_end)..block_end),
                 context,
             );
             if !at_eof {
-- 
2.43.0


From b4414e9f331a601a09a29696c9297450acf2f285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:39 +0000
Subject: [PATCH 04/78] fix: each CHECK-DAG claims the leftmost free match of
 its whole pattern

CHECK-DAG patterns were searched as a set: matches were cut short or found too late,
equal patterns were collapsed into one, case-insensitivity was ignored, and the cursor was
not moved behind the group when it contained variables. A match that ends right where the
following CHECK begins was rejected as if they overlapped.
---
 filecheck/src/check/mod.rs                    | 35 +++++++++++--
 filecheck/src/check/program.rs                |  2 +-
 filecheck/src/pattern/matcher/matchers/all.rs | 52 +++++++++++++++----
 filecheck/src/pattern/matcher/matchers/any.rs | 12 ++++-
 filecheck/src/pattern/mod.rs                  |  2 +-
 filecheck/src/rules/dag.rs                    | 48 +++++++++++++++++
 filecheck/src/test/result.rs                  |  7 +++
 7 files changed, 141 insertions(+), 17 deletions(-)

diff --git a/filecheck/src/check/mod.rs b/filecheck/src/check/mod.rs
index 8912203..5222530 100644
--- a/filecheck/src/check/mod.rs
+++ b/filecheck/src/check/mod.rs
@@ -484,8 +484,32 @@ pub fn check_group<'section, 'input, 'a: 'input>(
             left: check_dag,
             right,
         } => {
+            let dag_start = context.cursor().position();
             let initial_result = check_dag.apply(context);
-            match check_group(right, test_result, context) {
+            let mut right_test_result = TestResult::new(context);
+            let mut right_result = check_group(right, &mut right_test_result, context);
+            if let Ok(left_matches) = &initial_result
+                && left_matches.is_ok()
+                && let Some(left_range) = left_matches.range()
+                && !(matches!(right_result, Ok(Ok(_))) && right_test_result.is_ok())
+            {
+                // The following CHECK does not match behind the CHECK-DAG matches; see if that is
+                // because one of them was found past it
+                let right_end = context.cursor().position();
+                context.move_to(dag_start);
+                let mut retry_test_result = TestResult::new(context);
+                let retry_result = check_group(right, &mut retry_test_result, context);
+                if let Ok(Ok(matches)) = &retry_result
+                    && matches[0].range().is_some_and(|r| r.start < left_range.end)
+                {
+                    right_result = retry_result;
+                    right_test_result = retry_test_result;
+                } else {
+                    context.move_to(right_end);
+                }
+            }
+            test_result.extend(right_test_result);
+            match right_result {
                 Ok(Ok(mut right_matches)) => {
                     let right_range = right_matches[0]
                         .range()
@@ -493,8 +517,7 @@ pub fn check_group<'section, 'input, 'a: 'input>(
                     match initial_result {
                         Ok(mut left_matches) => {
                             if let Some(left_range) = left_matches.range()
-                                && (left_range.start >= right_range.start
-                                    || left_range.end >= right_range.start)
+                                && left_range.end > right_range.start
                             {
                                 // At least one matching CHECK-DAG overlaps following CHECK,
                                 // so visit each match result and rewrite overlapping matches
@@ -735,7 +758,8 @@ fn check_tree<'input, 'a: 'input>(
                                 .min()
                                 .unwrap();
                             // Ensure none of the CHECK-NOT patterns match in the exclusion region
-                            let exclusion = context.search_range(left_end..right_start);
+                            let exclusion = context
+                                .search_range(left_end..core::cmp::max(left_end, right_start));
                             match check_not(root, exclusion, context) {
                                 Ok(Ok(num_passed)) => {
                                     (0..num_passed).for_each(|_| test_result.passed());
@@ -813,7 +837,8 @@ fn check_tree<'input, 'a: 'input>(
                                 .min()
                                 .unwrap();
                             // Ensure none of the CHECK-NOT patterns match in the exclusion region
-                            let exclusion = context.search_range(left_end..right_start);
+                            let exclusion = context
+                                .search_range(left_end..core::cmp::max(left_end, right_start));
                             match check_not(root, exclusion, context) {
                                 Ok(Ok(num_passed)) => {
                                     (0..num_passed).for_each(|_| test_result.passed());
diff --git a/filecheck/src/check/program.rs b/filecheck/src/check/program.rs
index ccbb644..3b956ee 100644
--- a/filecheck/src/check/program.rs
+++ b/filecheck/src/check/program.rs
@@ -331,7 +331,7 @@ impl<'a> CheckProgram<'a> {
                                 break;
                             }
                         }
-                        let matcher = MatchAny::from(MatchAll::compile(nots, config)?);
+                        let matcher = MatchAny::from(MatchAll::compile_set(nots, config)?);
                         if body.is_empty() {
                             match groups.pop() {
                                 Some(CheckGroup::Tree(left)) => groups.push(CheckGroup::Tree(
diff --git a/filecheck/src/pattern/matcher/matchers/all.rs b/filecheck/src/pattern/matcher/matchers/all.rs
index dbce0e7..74fb76f 100644
--- a/filecheck/src/pattern/matcher/matchers/all.rs
+++ b/filecheck/src/pattern/matcher/matchers/all.rs
@@ -8,6 +8,8 @@ use super::{RegexSetMatcher, SubstringSetMatcher};
 
 #[derive(Debug)]
 pub enum MatchAll<'a> {
+    /// Every pattern is matched on its own, in the order they were written
+    Each(Vec<Pattern<'a>>),
     /// A matcher for a set of literal strings
     Literal(SubstringSetMatcher<'a>),
     /// A matcher for a set of regular expressions
@@ -39,7 +41,20 @@ pub enum MatchAll<'a> {
 }
 
 impl<'a> MatchAll<'a> {
-    pub fn compile(mut unordered: Vec<CheckLine<'a>>, config: &Config) -> DiagResult<Self> {
+    /// Compile `unordered` such that each of the patterns must be matched
+    pub fn compile(unordered: Vec<CheckLine<'a>>, config: &Config) -> DiagResult<Self> {
+        let mut patterns = Vec::with_capacity(unordered.len());
+        for line in unordered {
+            if let CheckPattern::Empty(span) = line.pattern {
+                return Err(empty_pattern_error(span));
+            }
+            patterns.push(Pattern::compile(line.pattern, config)?);
+        }
+        Ok(Self::Each(patterns))
+    }
+
+    /// Compile `unordered` as a set, of which we are only interested in the first match
+    pub fn compile_set(mut unordered: Vec<CheckLine<'a>>, config: &Config) -> DiagResult<Self> {
         use std::collections::BTreeMap;
 
         let raw_prefixes = unordered
@@ -83,14 +98,7 @@ impl<'a> MatchAll<'a> {
                     id,
                     prefix: prefix.clone(),
                 },
-                Prefix::Empty(span) => {
-                    let diag = Diag::new(
-                        "unexpected empty pattern encountered during pattern compilation",
-                    )
-                    .with_label(Label::new(*span, "pattern defined here"))
-                    .with_help("empty patterns are only valid in CHECK-NOT directives");
-                    return Err(Report::from(diag));
-                }
+                Prefix::Empty(span) => return Err(empty_pattern_error(*span)),
             };
             unique_prefixes.insert(prefix.clone(), id);
             prefixes.push(pattern_prefix);
@@ -196,9 +204,18 @@ impl<'a> MatchAll<'a> {
         })
     }
 }
+
+fn empty_pattern_error(span: SourceSpan) -> Report {
+    let diag = Diag::new("unexpected empty pattern encountered during pattern compilation")
+        .with_label(Label::new(span, "pattern defined here"))
+        .with_help("empty patterns are only valid in CHECK-NOT directives");
+    Report::from(diag)
+}
+
 impl<'a> MatchAll<'a> {
     pub fn pattern_len(&self) -> usize {
         match self {
+            Self::Each(patterns) => patterns.len(),
             Self::Literal(matcher) => matcher.pattern_len(),
             Self::Regex(matcher) => matcher.patterns_len(),
             Self::AnyPrefix { suffixes, .. }
@@ -209,6 +226,15 @@ impl<'a> MatchAll<'a> {
 
     pub fn first_pattern(&self) -> Span<usize> {
         match self {
+            Self::Each(patterns) => {
+                let (index, span) = patterns
+                    .iter()
+                    .enumerate()
+                    .map(|(i, p)| (i, p.span()))
+                    .min_by_key(|&(_, s)| s.start())
+                    .unwrap();
+                Span::new(span, index)
+            }
             Self::Literal(matcher) => matcher.first_pattern(),
             Self::Regex(matcher) => matcher.first_pattern(),
             Self::AnyPrefix { prefixes, suffixes } => {
@@ -276,6 +302,14 @@ impl<'a> MatchAll<'a> {
 impl<'a> Spanned for MatchAll<'a> {
     fn span(&self) -> SourceSpan {
         match self {
+            Self::Each(patterns) => {
+                let start = patterns.iter().map(|p| p.span()).min_by_key(|s| s.start()).unwrap();
+                let end = patterns.iter().map(|p| p.span()).max_by_key(|s| s.end()).unwrap();
+                SourceSpan::from_range_unchecked(
+                    start.source_id(),
+                    start.start().to_usize()..end.end().to_usize(),
+                )
+            }
             Self::Literal(matcher) => matcher.span(),
             Self::Regex(matcher) => matcher.span(),
             Self::AnyPrefix { prefixes, suffixes } => {
diff --git a/filecheck/src/pattern/matcher/matchers/any.rs b/filecheck/src/pattern/matcher/matchers/any.rs
index f679b7d..99a0b3f 100644
--- a/filecheck/src/pattern/matcher/matchers/any.rs
+++ b/filecheck/src/pattern/matcher/matchers/any.rs
@@ -1,6 +1,6 @@
 use crate::common::*;
 
-use super::{MatchAll, RegexSetMatcher, SubstringSetMatcher};
+use super::{AlwaysMatch, MatchAll, RegexSetMatcher, SubstringSetMatcher};
 
 #[derive(Debug)]
 pub enum MatchAny<'a> {
@@ -36,6 +36,16 @@ pub enum MatchAny<'a> {
 impl<'a> From<MatchAll<'a>> for MatchAny<'a> {
     fn from(match_all: MatchAll<'a>) -> Self {
         match match_all {
+            MatchAll::Each(patterns) => {
+                let suffixes = patterns
+                    .iter()
+                    .map(|p| vec![Pattern::Empty(AlwaysMatch::new(p.span()))])
+                    .collect();
+                Self::AnyPrefix {
+                    prefixes: patterns,
+                    suffixes,
+                }
+            }
             MatchAll::Literal(lit) => Self::Literal(lit),
             MatchAll::Regex(re) => Self::Regex(re),
             MatchAll::AnyPrefix { prefixes, suffixes } => Self::AnyPrefix { prefixes, suffixes },
diff --git a/filecheck/src/pattern/mod.rs b/filecheck/src/pattern/mod.rs
index 684968b..97134f3 100644
--- a/filecheck/src/pattern/mod.rs
+++ b/filecheck/src/pattern/mod.rs
@@ -169,7 +169,7 @@ impl<'a> MatcherMut for Pattern<'a> {
     {
         match self {
             Self::Substring(matcher) => matcher.try_match(input, context),
-            Self::Regex(matcher) => matcher.try_match(input, context),
+            Self::Regex(matcher) => matcher.try_match_mut(input, context),
             Self::Smart(matcher) => matcher.try_match_mut(input, context),
             Self::Whitespace(matcher) => matcher.try_match(input, context),
             Self::Empty(matcher) => matcher.try_match(input, context),
diff --git a/filecheck/src/rules/dag.rs b/filecheck/src/rules/dag.rs
index 339a0aa..c0a06a7 100644
--- a/filecheck/src/rules/dag.rs
+++ b/filecheck/src/rules/dag.rs
@@ -34,6 +34,7 @@ impl<'check> Rule for CheckDag<'check> {
         let mut guard = context.protect();
         let input = guard.search_block();
         let result = match self.patterns {
+            MatchAll::Each(ref patterns) => match_each(patterns, &mut guard),
             MatchAll::Literal(ref matcher) => {
                 let mut searcher = matcher.search(input)?;
                 let mut visitor = StaticPatternSetVisitor::new(&mut searcher);
@@ -80,6 +81,53 @@ impl<'check> Rule for CheckDag<'check> {
     }
 }
 
+/// Match each of `patterns` in turn, at the leftmost place of the unvisited portion of the current
+/// block which does not overlap with what the patterns before it have matched.
+///
+/// If all of them match, the cursor is moved behind the last of the matches.
+fn match_each<'input>(
+    patterns: &[Pattern<'_>],
+    context: &mut ContextGuard<'_, 'input, '_>,
+) -> DiagResult<Matches<'input>> {
+    let region = context.cursor().range();
+    let mut claimed = Vec::<core::ops::Range<usize>>::with_capacity(patterns.len());
+    let mut matches = Matches::with_capacity(patterns.len());
+    for pattern in patterns {
+        let mut start = region.start;
+        let result = loop {
+            let mut attempt = context.protect();
+            let input = attempt.search_range(start..region.end);
+            let result = pattern.try_match_mut(input, &mut attempt)?;
+            let Some(range) = result.matched_range() else {
+                break result;
+            };
+            let overlaps = claimed.iter().any(|c| {
+                c.start == range.start || (c.start < range.end && range.start < c.end)
+            });
+            if !overlaps {
+                attempt.save();
+                claimed.push(range.into());
+                break result;
+            }
+            if range.start >= region.end {
+                break MatchResult::failed(CheckFailedError::match_none(
+                    pattern.span(),
+                    &attempt.search_range(region),
+                    &attempt,
+                ));
+            }
+            start = range.start + 1;
+        };
+        matches.push(result);
+    }
+    if matches.is_ok()
+        && let Some(end) = claimed.iter().map(|c| c.end).max()
+    {
+        context.cursor_mut().set_start(end);
+    }
+    Ok(matches)
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/filecheck/src/test/result.rs b/filecheck/src/test/result.rs
index 69f9f13..4a94c78 100644
--- a/filecheck/src/test/result.rs
+++ b/filecheck/src/test/result.rs
@@ -49,6 +49,13 @@ impl TestResult {
         }
     }
 
+    /// Add everything recorded in `other` to this result
+    pub fn extend(&mut self, other: Self) {
+        self.matches.extend(other.matches);
+        self.passed += other.passed;
+        self.error.errors.extend(other.error.errors);
+    }
+
     pub fn matched(&mut self, matched: MatchInfo<'_>) {
         self.matches.push(matched.into_static());
         self.passed += 1;
-- 
2.43.0


From 6bc424354d05666675cc96938fc2f3dad455063f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:49 +0000
Subject: [PATCH 05/78] fix: the value of a substituted variable is matched
 literally, not as a regular expression

---
 filecheck/src/pattern/matcher/matchers/smart/searcher.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
index d84fb7b..dede351 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
@@ -9,7 +9,7 @@ use crate::{
     errors::{InvalidNumericCastError, UndefinedVariableError},
     expr::ValueType,
     pattern::{
-        matcher::{SubstringMatcher, regex},
+        matcher::{SubstringMatcher, regex as regex_matcher},
         search::Input as _,
     },
 };
@@ -568,6 +568,8 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
             }),
             Right(s) => s,
         };
+        // The value stands for itself, whatever characters it contains
+        let pattern_source = regex::escape(&pattern_source);
         log::trace!(target: "smart:searcher", "resolved substitution expression to pattern: '{pattern_source}'");
         let pattern = Regex::builder()
             .syntax(
@@ -580,8 +582,8 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
                     .match_kind(regex_automata::MatchKind::LeftmostFirst),
             )
             .build(&pattern_source)
-            .map_err(|error| regex::build_error_to_diagnostic(error, 1, |_| span))?;
-        self.match_regex(span, &pattern, Some(pattern_source.as_ref()), context)
+            .map_err(|error| regex_matcher::build_error_to_diagnostic(error, 1, |_| span))?;
+        self.match_regex(span, &pattern, Some(pattern_source.as_str()), context)
     }
 
     #[inline]
-- 
2.43.0


From ce576483f5023ad4d4dd0d0d5245c6bdb4032399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:06 +0000
Subject: [PATCH 06/78] fix: a numeric constraint that does not hold is not a
 match

---
 .../src/pattern/matcher/matchers/smart/searcher.rs   | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
index dede351..3923a31 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
@@ -516,6 +516,18 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
                 let lhs = lhs.as_numeric(span, rhs.format, context)?;
                 if lhs.value != rhs.value {
                     self.captures.set_pattern(None);
+                    return Ok(MatchResult::failed(
+                        CheckFailedError::MatchFoundConstraintFailed {
+                            span: lhs.span(),
+                            input_file: context.input_file(),
+                            pattern: Some(RelatedCheckError {
+                                span,
+                                match_file: context.source_file(span.source_id()).unwrap(),
+                            }),
+                            error: None,
+                            help: Some(format!("expected a value equal to {rhs}")),
+                        },
+                    ));
                 }
 
                 log::trace!(target: "smart:searcher", "constraint was applied successfully");
-- 
2.43.0


From 0c90999aa97f2a57eee2e6f12afb315b621fe76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 07/78] fix: a variable pattern is retried right behind its
 failed start, up to the end of the input

---
 .../matcher/matchers/smart/searcher.rs        | 23 +++++++------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
index 3923a31..21d514f 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
@@ -110,10 +110,14 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
                 self.match_end,
                 result.ty
             );
-            // Reset the searcher, but start the next search where the cursor left off, but ensure
-            // that we advance the cursor at least one byte to avoid looping indefinitely
-            let search_stopped_at = self.match_end;
-            self.reset(core::cmp::max(search_stopped_at, search_started_at + 1));
+            // Reset the searcher, but start the next search right behind the start of the failed
+            // match attempt, unless there is nothing left to search
+            let next_start = self.match_start + 1;
+            if next_start > self.input.end() {
+                self.captures.set_pattern(None);
+                return ControlFlow::Break(Ok(()));
+            }
+            self.reset(next_start);
             if anchored {
                 self.captures.set_pattern(None);
                 return ControlFlow::Break(Ok(()));
@@ -133,17 +137,6 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
         context: &mut ContextGuard<'_, 'input, 'context>,
     ) -> DiagResult<MatchResult<'input>> {
         for part in parts.iter() {
-            if self.cursor.is_empty() {
-                log::trace!(target: "smart:searcher", "no more input to consume: cannot match");
-                // No match possible
-                self.captures.set_pattern(None);
-                return Ok(MatchResult::failed(CheckFailedError::match_none(
-                    self.span,
-                    &self.input,
-                    context,
-                )));
-            }
-
             match part {
                 MatchOp::Constraint {
                     span,
-- 
2.43.0


From 746812770a20966c4a576ad186c935c11718fc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:00 +0000
Subject: [PATCH 08/78] fix: an alternation in braces does not extend to the
 text around it

---
 filecheck/src/ast/pattern.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/filecheck/src/ast/pattern.rs b/filecheck/src/ast/pattern.rs
index 351be77..bc59e80 100644
--- a/filecheck/src/ast/pattern.rs
+++ b/filecheck/src/ast/pattern.rs
@@ -465,7 +465,14 @@ impl<'a> CheckPattern<'a> {
                                 is_literal_mode = false;
                                 convert_to_regex(&mut pattern, part.len())
                             }
-                            pattern.push_str(part.as_ref());
+                            // An alternation must not extend to what precedes or follows it
+                            if part.contains('|') {
+                                pattern.push_str("(?:");
+                                pattern.push_str(part.as_ref());
+                                pattern.push(')');
+                            } else {
+                                pattern.push_str(part.as_ref());
+                            }
                         }
                         CheckPatternPart::Match(Match::Substitution {
                             pattern: Some(part),
-- 
2.43.0


From c8762ce9d745744b8318f70ba6e0cc578317bacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 09/78] fix: overflow and division by zero in a numeric
 expression fail the check instead of panicking

---
 .../matcher/matchers/smart/searcher.rs        | 34 ++++++++++++-------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
index 21d514f..542654c 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
@@ -675,20 +675,28 @@ fn evaluate_expr<'input>(
                 (Left(l), Left(r)) => {
                     if let Some(format) = l.infer_expression_format(&r).or(explicit_format) {
                         let result = match op {
-                            BinaryOp::Add => l.value + r.value,
-                            BinaryOp::Sub => l.value - r.value,
-                            BinaryOp::Mul => l.value * r.value,
-                            BinaryOp::Div => l.value / r.value,
-                            BinaryOp::Min => core::cmp::min(l.value, r.value),
-                            BinaryOp::Max => core::cmp::max(l.value, r.value),
-                            BinaryOp::Eq => {
-                                if l.value == r.value {
-                                    1
-                                } else {
-                                    0
-                                }
-                            }
+                            BinaryOp::Add => l.value.checked_add(r.value),
+                            BinaryOp::Sub => l.value.checked_sub(r.value),
+                            BinaryOp::Mul => l.value.checked_mul(r.value),
+                            BinaryOp::Div => l.value.checked_div(r.value),
+                            BinaryOp::Min => Some(core::cmp::min(l.value, r.value)),
+                            BinaryOp::Max => Some(core::cmp::max(l.value, r.value)),
+                            BinaryOp::Eq => Some((l.value == r.value) as i128),
                         };
+                        // Overflow, or a division by zero
+                        let result = result.ok_or_else(|| {
+                            let kind = if matches!(op, BinaryOp::Div) && r.value == 0 {
+                                std::num::IntErrorKind::Zero
+                            } else {
+                                std::num::IntErrorKind::PosOverflow
+                            };
+                            InvalidNumericCastError {
+                                span: Some(op_span),
+                                kind,
+                                specific_span: Some(expr.span()),
+                                match_file: context.source_file(op_span.source_id()).unwrap(),
+                            }
+                        })?;
                         let format = if l.format.is_none()
                             && r.format.is_none()
                             && explicit_format.is_none()
-- 
2.43.0


From 4b5b9ee9ae82d99e349beb539d111aa52070485c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:17 +0000
Subject: [PATCH 10/78] fix: a captured number is read in its own format
 wherever the capture stands

---
 .../pattern/matcher/matchers/smart/operand.rs | 127 ++----------------
 1 file changed, 14 insertions(+), 113 deletions(-)

diff --git a/filecheck/src/pattern/matcher/matchers/smart/operand.rs b/filecheck/src/pattern/matcher/matchers/smart/operand.rs
index 6bb5da5..48ec1d0 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/operand.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/operand.rs
@@ -1,4 +1,4 @@
-use crate::{common::*, errors::InvalidNumericCastError};
+use crate::{common::*, errors::InvalidNumericCastError, expr::ParseNumberError};
 
 /// A value on the match context operand stack
 #[derive(Debug)]
@@ -33,121 +33,22 @@ impl<'input> Operand<'input> {
                 specific_span: None,
                 match_file: context.source_file(span.source_id()).unwrap(),
             }),
-            Value::Str(value) => {
-                let value = match format.unwrap_or_default() {
-                    NumberFormat::Unsigned { precision } => {
-                        parse_number(
-                            span,
-                            value.trim(),
-                            precision,
-                            /*signed=*/ false,
-                            context,
-                        )?
-                    }
-                    NumberFormat::Signed { precision } => {
-                        parse_number(
-                            span,
-                            value.trim(),
-                            precision,
-                            /*signed=*/ true,
-                            context,
-                        )?
-                    }
-                    NumberFormat::Hex {
-                        require_prefix,
-                        precision,
-                        casing: _,
-                    } => {
-                        let value = if require_prefix {
-                            if let Some(stripped) = value.trim().strip_prefix("0x") {
-                                stripped
-                            } else {
-                                return Err(InvalidNumericCastError {
-                                    span: Some(span),
-                                    kind: std::num::IntErrorKind::InvalidDigit,
-                                    specific_span: None,
-                                    match_file: context.source_file(span.source_id()).unwrap(),
-                                });
-                            }
-                        } else {
-                            value.trim()
-                        };
-                        if value.len() > precision as usize {
-                            return Err(InvalidNumericCastError {
-                                span: Some(span),
-                                kind: std::num::IntErrorKind::PosOverflow,
-                                specific_span: None,
-                                match_file: context.source_file(span.source_id()).unwrap(),
-                            });
-                        }
-
-                        let trimmed = value.trim_start_matches('0');
-                        if trimmed.is_empty() {
-                            0
-                        } else {
-                            i128::from_str_radix(trimmed, 16).map_err(|err| {
-                                InvalidNumericCastError {
-                                    span: Some(span),
-                                    kind: *err.kind(),
-                                    specific_span: None,
-                                    match_file: context.source_file(span.source_id()).unwrap(),
-                                }
-                            })?
-                        }
-                    }
-                };
-                Ok(Number {
-                    span,
-                    format,
-                    value,
-                })
-            }
-            Value::Num(Expr::Num(num)) => Ok(num.clone()),
-            Value::Num(_) => unreachable!(),
-        }
-    }
-}
-
-fn parse_number(
-    span: SourceSpan,
-    value: &str,
-    precision: u8,
-    signed: bool,
-    context: &dyn Context<'_, '_>,
-) -> Result<i128, InvalidNumericCastError> {
-    let precision = precision as usize;
-    let value = if precision > 0 {
-        if value.len() > precision {
-            return Err(InvalidNumericCastError {
+            Value::Str(value) => Number::parse_with_format(
+                Span::new(span, value.trim()),
+                format.unwrap_or_default(),
+            )
+            .map(|num| Number { format, ..num })
+            .map_err(|err| InvalidNumericCastError {
                 span: Some(span),
-                kind: std::num::IntErrorKind::PosOverflow,
+                kind: match err {
+                    ParseNumberError::InvalidFormat { reason, .. } => reason,
+                    _ => std::num::IntErrorKind::InvalidDigit,
+                },
                 specific_span: None,
                 match_file: context.source_file(span.source_id()).unwrap(),
-            });
-        }
-        let value = value.trim_start_matches('0');
-        if value.is_empty() {
-            return Ok(0);
+            }),
+            Value::Num(Expr::Num(num)) => Ok(num.clone()),
+            Value::Num(_) => unreachable!(),
         }
-        value
-    } else {
-        value
-    };
-    let value = value
-        .parse::<i128>()
-        .map_err(|err| InvalidNumericCastError {
-            span: Some(span),
-            kind: *err.kind(),
-            specific_span: None,
-            match_file: context.source_file(span.source_id()).unwrap(),
-        })?;
-    if !signed && value < 0 {
-        return Err(InvalidNumericCastError {
-            span: Some(span),
-            kind: std::num::IntErrorKind::NegOverflow,
-            specific_span: None,
-            match_file: context.source_file(span.source_id()).unwrap(),
-        });
     }
-    Ok(value)
 }
-- 
2.43.0


From 7d5b65cc56b6b4a5a934d258d418df0f0c3d3ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:02 +0000
Subject: [PATCH 11/78] fix: sums and differences in a numeric expression
 associate to the left

---
 filecheck/src/ast/mod.rs            | 18 +++++++
 filecheck/src/parse/grammar.lalrpop | 73 +++++++++++------------------
 2 files changed, 46 insertions(+), 45 deletions(-)

diff --git a/filecheck/src/ast/mod.rs b/filecheck/src/ast/mod.rs
index 78def52..4655b8f 100644
--- a/filecheck/src/ast/mod.rs
+++ b/filecheck/src/ast/mod.rs
@@ -10,6 +10,8 @@ pub use self::pattern::{
     Capture, CheckPattern, CheckPatternPart, Constraint, Match, Prefix, RegexPattern,
 };
 
+use litcheck::diagnostics::SourceSpan;
+
 use crate::expr::{BinaryOp, Expr, VariableName};
 
 pub(crate) struct ConstraintExpr {
@@ -22,6 +24,22 @@ pub(crate) struct BinaryOpAndOperand {
     pub operand: Box<Expr>,
 }
 
+/// Applies `operands` to `first` from left to right; `span` covers them all
+pub(crate) fn apply_operands(
+    span: SourceSpan,
+    first: Expr,
+    operands: Vec<BinaryOpAndOperand>,
+) -> Expr {
+    operands
+        .into_iter()
+        .fold(first, |lhs, BinaryOpAndOperand { op, operand: rhs }| Expr::Binary {
+            span,
+            op,
+            lhs: Box::new(lhs),
+            rhs,
+        })
+}
+
 pub(crate) struct CaptureNumeric {
     pub name: Option<VariableName>,
     pub constraint: Constraint,
diff --git a/filecheck/src/parse/grammar.lalrpop b/filecheck/src/parse/grammar.lalrpop
index b4b946a..254364c 100644
--- a/filecheck/src/parse/grammar.lalrpop
+++ b/filecheck/src/parse/grammar.lalrpop
@@ -72,23 +72,17 @@ Comma<T>: Vec<T> = {
 
 pub Match: Match<'input> = {
     <l:@L> "[[" <name:LineVar> <expr:CaptureExprRest> "]]" <r:@R> => {
-        match expr {
-            Some(BinaryOpAndOperand { op, operand: rhs }) => {
-                let span = span!(source_id, l, r);
-                Match::Numeric {
-                    span,
-                    format: None,
-                    capture: None,
-                    constraint: Constraint::Eq,
-                    expr: Some(Expr::Binary {
-                        span,
-                        op,
-                        lhs: Box::new(Expr::Var(name)),
-                        rhs,
-                    }),
-                }
+        if expr.is_empty() {
+            Match::Substitution { span: span!(source_id, l, r), name, pattern: None }
+        } else {
+            let span = span!(source_id, l, r);
+            Match::Numeric {
+                span,
+                format: None,
+                capture: None,
+                constraint: Constraint::Eq,
+                expr: Some(apply_operands(span, Expr::Var(name), expr)),
             }
-            None => Match::Substitution { span: span!(source_id, l, r), name, pattern: None },
         }
     },
 
@@ -125,7 +119,7 @@ pub Match: Match<'input> = {
 }
 
 CaptureNumericOrExpr: CaptureNumericOrExpr = {
-    <l:@L> <var:PatternOrLineVar> <ty:EitherCaptureOrExpr> => {
+    <l:@L> <var:PatternOrLineVar> <r:@R> <ty:EitherCaptureOrExpr> => {
         match ty {
             Left(None) => CaptureNumericOrExpr::Capture(CaptureNumeric {
                 name: Some(var),
@@ -137,16 +131,9 @@ CaptureNumericOrExpr: CaptureNumericOrExpr = {
                 constraint: constraint.constraint,
                 expr: Some(constraint.expr)
             }),
-            Right(None) => CaptureNumericOrExpr::Expr(Expr::Var(var)),
-            Right(Some(BinaryOpAndOperand { op, operand: rhs })) => {
-                let rhs_span = rhs.span();
-                let end = rhs_span.end().to_usize();
-                CaptureNumericOrExpr::Expr(Expr::Binary {
-                    span: span!(source_id, l, end),
-                    op,
-                    lhs: Box::new(Expr::Var(var)),
-                    rhs,
-                })
+            Right(operands) => {
+                let end = operands.last().map(|o| o.operand.span().end().to_usize()).unwrap_or(r);
+                CaptureNumericOrExpr::Expr(apply_operands(span!(source_id, l, end), Expr::Var(var), operands))
             }
         }
     },
@@ -162,29 +149,25 @@ CaptureNumericOrExpr: CaptureNumericOrExpr = {
     Builtin => CaptureNumericOrExpr::Expr(<>),
 
     <l:@L> "(" <lhs:Expr> ")" <rhs:CaptureExprRest> <r:@R> => {
-        match rhs {
-            None => CaptureNumericOrExpr::Expr(lhs),
-            Some(BinaryOpAndOperand { op, operand }) => {
-                CaptureNumericOrExpr::Expr(
-                    Expr::Binary {
-                        span: span!(source_id, l, r),
-                        op,
-                        lhs: Box::new(lhs),
-                        rhs: operand,
-                    }
-                )
-            }
-        }
+        CaptureNumericOrExpr::Expr(apply_operands(span!(source_id, l, r), lhs, rhs))
     }
 }
 
-CaptureExprRest: Option<BinaryOpAndOperand> = {
-    "+" <expr:Expr> => Some(BinaryOpAndOperand { op: BinaryOp::Add, operand: Box::new(expr) }),
-    "-" <expr:Expr> => Some(BinaryOpAndOperand { op: BinaryOp::Sub, operand: Box::new(expr) }),
-    => None,
+// The operands of a sum or difference, which associate to the left
+CaptureExprRest: Vec<BinaryOpAndOperand> = {
+    <mut rest:CaptureExprRest> <op:AddOrSub> <expr:Subexpr> => {
+        rest.push(BinaryOpAndOperand { op, operand: Box::new(expr) });
+        rest
+    },
+    => vec![],
+}
+
+AddOrSub: BinaryOp = {
+    "+" => BinaryOp::Add,
+    "-" => BinaryOp::Sub,
 }
 
-EitherCaptureOrExpr: Either<Option<ConstraintExpr>, Option<BinaryOpAndOperand>> = {
+EitherCaptureOrExpr: Either<Option<ConstraintExpr>, Vec<BinaryOpAndOperand>> = {
     ":" <constraint:Constraint?> => Left(constraint),
     <CaptureExprRest> => Right(<>),
 }
-- 
2.43.0


From ea335fe79e06126645a42f0e064ec339fe02d7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:06 +0000
Subject: [PATCH 12/78] fix: a difference in a numeric definition on the
 command line is not a syntax error

---
 filecheck/src/expr/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filecheck/src/expr/parser.rs b/filecheck/src/expr/parser.rs
index 090bd57..c36645f 100644
--- a/filecheck/src/expr/parser.rs
+++ b/filecheck/src/expr/parser.rs
@@ -116,7 +116,7 @@ pub enum Token<'input> {
     Max,
     #[regex(r"[A-Za-z_][A-Za-z0-9_]*", |lex| lex.slice())]
     Ident(&'input str),
-    #[regex(r"-?[0-9]+", parse_int)]
+    #[regex(r"[0-9]+", parse_int)]
     Num(i128),
 }
 impl<'input> Eq for Token<'input> {}
-- 
2.43.0


From f0681eeb229d6a531128f1a6ff537c9443e1f643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:19 +0000
Subject: [PATCH 13/78] fix: a numeric definition on the command line keeps its
 format

---
 filecheck/src/expr/grammar.lalrpop | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filecheck/src/expr/grammar.lalrpop b/filecheck/src/expr/grammar.lalrpop
index 271fd7c..2453aa3 100644
--- a/filecheck/src/expr/grammar.lalrpop
+++ b/filecheck/src/expr/grammar.lalrpop
@@ -54,6 +54,10 @@ Comma<T>: Vec<T> = {
 
 pub NumericVar: Variable<'input> = {
     "#" <format:NumberFormat> <name:("," <Var>)> <value:("=" <Expr>)> => {
+        let value = match value {
+            Expr::Num(number) => Expr::Num(Number { format: Some(format), ..number }),
+            value => value,
+        };
         Variable { name, value: Value::Num(value) }
     },
 
-- 
2.43.0


From b3de45624f85c4695dfeeb658b35ec423214bc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:31 +0000
Subject: [PATCH 14/78] fix: a substituted number is written with all its
 digits, and only %d writes a negative one

---
 filecheck/src/expr/num.rs                     | 12 +++++----
 .../matcher/matchers/smart/searcher.rs        | 26 +++++++++++--------
 2 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/filecheck/src/expr/num.rs b/filecheck/src/expr/num.rs
index ab6a725..a41398a 100644
--- a/filecheck/src/expr/num.rs
+++ b/filecheck/src/expr/num.rs
@@ -104,7 +104,11 @@ impl Number {
                 Some(NumberFormat::Hex {
                     precision,
                     require_prefix: lprefixed,
-                    casing: lcasing,
+                    casing: if lcasing == CasingStyle::Any {
+                        rcasing
+                    } else {
+                        lcasing
+                    },
                 })
             }
             (
@@ -293,10 +297,8 @@ impl fmt::Display for Number {
             }
         }
         match format {
-            NumberFormat::Unsigned { precision: 0 } => write!(f, "{}", value as u64),
-            NumberFormat::Unsigned { .. } => {
-                write!(f, "{:0padding$}", value as u64)
-            }
+            NumberFormat::Unsigned { precision: 0 } => write!(f, "{value}"),
+            NumberFormat::Unsigned { .. } => write!(f, "{value:0padding$}"),
             NumberFormat::Signed { precision: 0 } => write!(f, "{value}"),
             NumberFormat::Signed { .. } => write!(f, "{value:0padding$}"),
             NumberFormat::Hex {
diff --git a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
index 542654c..580da5e 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
@@ -559,18 +559,22 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
         log::trace!(target: "smart:searcher", "attempting to match substitution: '{expr}'");
         let span = expr.span();
         let pattern_source = match evaluate_expr(span, expr, ty, context)? {
-            Left(num) => Cow::Owned(match ty {
-                Some(ValueType::Number(Some(format))) => {
-                    format!(
-                        "{}",
-                        Number {
-                            format: Some(format),
-                            ..num
-                        }
-                    )
+            Left(num) => {
+                let format = match ty {
+                    Some(ValueType::Number(Some(format))) => Some(format),
+                    _ => num.format,
+                };
+                // Only the signed format can represent a negative value
+                if num.value.is_negative() && !format.unwrap_or_default().is_signed() {
+                    return Err(Report::new(InvalidNumericCastError {
+                        span: Some(span),
+                        kind: std::num::IntErrorKind::NegOverflow,
+                        specific_span: None,
+                        match_file: context.source_file(span.source_id()).unwrap(),
+                    }));
                 }
-                _ => format!("{num}"),
-            }),
+                Cow::Owned(format!("{}", Number { format, ..num }))
+            }
             Right(s) => s,
         };
         // The value stands for itself, whatever characters it contains
-- 
2.43.0


From 68c2c226e5d4a2a778eaf436a9cd41d58cb48676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:52 +0000
Subject: [PATCH 15/78] fix: an explicit format settles a format conflict in a
 numeric constraint

---
 filecheck/src/pattern/matcher/matchers/smart/builder.rs   | 2 ++
 .../src/pattern/matcher/matchers/smart/instruction.rs     | 2 ++
 filecheck/src/pattern/matcher/matchers/smart/searcher.rs  | 8 ++++++--
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/filecheck/src/pattern/matcher/matchers/smart/builder.rs b/filecheck/src/pattern/matcher/matchers/smart/builder.rs
index 5005eeb..62d18be 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/builder.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/builder.rs
@@ -190,6 +190,7 @@ impl<'a, 'config> SmartMatcherBuilder<'a, 'config> {
         self.parts.push(MatchOp::Constraint {
             span,
             constraint,
+            format,
             expr,
         });
         self.parts.push(MatchOp::Drop);
@@ -302,6 +303,7 @@ impl<'a, 'config> SmartMatcherBuilder<'a, 'config> {
         self.parts.push(MatchOp::Constraint {
             span: expr_span,
             constraint,
+            format,
             expr,
         });
         self.parts.push(MatchOp::Bind {
diff --git a/filecheck/src/pattern/matcher/matchers/smart/instruction.rs b/filecheck/src/pattern/matcher/matchers/smart/instruction.rs
index ee10b2e..a09a839 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/instruction.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/instruction.rs
@@ -65,6 +65,8 @@ pub enum MatchOp<'a> {
         span: SourceSpan,
         /// The constraint type
         constraint: Constraint,
+        /// The format explicitly given for the constrained value
+        format: Option<NumberFormat>,
         /// The constraint
         expr: Expr,
     },
diff --git a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
index 580da5e..7ff5612 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
@@ -141,9 +141,11 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
                 MatchOp::Constraint {
                     span,
                     constraint,
+                    format,
                     expr,
                 } => {
-                    let result = self.evaluate_constraint(*span, *constraint, expr, context)?;
+                    let result =
+                        self.evaluate_constraint(*span, *constraint, *format, expr, context)?;
                     if !result.is_ok() {
                         return Ok(result);
                     }
@@ -498,13 +500,15 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
         &mut self,
         span: SourceSpan,
         constraint: Constraint,
+        format: Option<NumberFormat>,
         expr: &Expr,
         context: &ContextGuard<'_, 'input, 'context>,
     ) -> DiagResult<MatchResult<'input>> {
         log::trace!(target: "smart:searcher", "evaluating constraint: '{constraint} {expr}'");
         assert_eq!(constraint, Constraint::Eq);
         let lhs = self.stack.last().expect("expected operand on stack");
-        match evaluate_expr(span, expr, None, context)? {
+        let ty = format.map(|format| ValueType::Number(Some(format)));
+        match evaluate_expr(span, expr, ty, context)? {
             Left(rhs) => {
                 let lhs = lhs.as_numeric(span, rhs.format, context)?;
                 if lhs.value != rhs.value {
-- 
2.43.0


From f3bdc32e947884b2244f3f06d2e07ff6088c05cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:37 +0000
Subject: [PATCH 16/78] fix: --implicit-check-not takes check patterns and
 applies in label blocks, outside of CHECK-DAG groups

---
 filecheck/src/check/program.rs | 121 +++++++++++++++++++--------------
 1 file changed, 70 insertions(+), 51 deletions(-)

diff --git a/filecheck/src/check/program.rs b/filecheck/src/check/program.rs
index 3b956ee..9ec42dd 100644
--- a/filecheck/src/check/program.rs
+++ b/filecheck/src/check/program.rs
@@ -1,9 +1,11 @@
 use std::collections::VecDeque;
 
 use crate::{
+    Options,
     ast::*,
     common::*,
     errors::InvalidCheckFileError,
+    parse::CheckFileParser,
     pattern::matcher::{MatchAll, MatchAny, SimpleMatcher},
     rules::*,
 };
@@ -208,43 +210,14 @@ impl<'a> CheckProgram<'a> {
         let mut block = vec![];
         let mut blocks: VecDeque<(Option<CheckLine<'a>>, Vec<CheckLine<'a>>)> = VecDeque::default();
 
-        // If --implicit-check-not was set, construct a CheckLine that will be inserted at the start
-        // of the file, as well as between all positive checks.
-        let implicit_check_not_pattern = if config.options.implicit_check_not.is_empty() {
-            None
-        } else {
-            // We construct a single check line representing the conjunction of all the
-            // --implicit-check-not patterns to avoid scanning the same portions of the file over
-            // and over again. We create a pseudo-source file containing the constructed pattern to
-            // be used in diagnostics.
-            let mut pattern = String::new();
-            for (i, implicit_check_not_pattern) in
-                config.options.implicit_check_not.iter().enumerate()
-            {
-                if i > 0 {
-                    pattern.push('|');
-                }
-                pattern.push('(');
-                pattern.push_str(implicit_check_not_pattern.as_str());
-                pattern.push(')');
-            }
-            let source = config
-                .source_manager()
-                .load_argument("--implicit-check-not", pattern.clone());
-            let span = source.source_span();
-            Some(CheckLine::new(
-                span,
-                CheckType::new(span, Check::Not),
-                CheckPattern::Regex(RegexPattern::new(Span::new(span, pattern.into()))),
-            ))
-        };
+        // If --implicit-check-not was set, these lines will be inserted at the start of every block,
+        // as well as between all positive checks.
+        let implicit_check_nots = parse_implicit_check_nots(config)?;
 
-        // Insert the --implicit-check-not pattern at the start of the file, to ensure that at least
+        // Insert the --implicit-check-not patterns at the start of the file, to ensure that at least
         // one instance appears between the start of the file and the first positive check, and so
         // at a minimum an otherwise empty check file will contain at least this one check.
-        if let Some(implicit_check_not_pattern) = implicit_check_not_pattern.as_ref() {
-            block.push(implicit_check_not_pattern.clone());
-        }
+        block.extend_from_slice(&implicit_check_nots);
 
         while let Some(next) = iter.peek() {
             match next.kind() {
@@ -253,22 +226,10 @@ impl<'a> CheckProgram<'a> {
                     // so flush whenever one is pending, not just when the body is non-empty.
                     if label.is_some() || !block.is_empty() {
                         blocks.push_back((label.take(), core::mem::take(&mut block)));
-                        // Insert the --implicit-check-not pattern at the start of any new block
-                        if let Some(implicit_check_not) = implicit_check_not_pattern.as_ref() {
-                            block.push(implicit_check_not.clone());
-                        }
                     }
                     label = iter.next();
-                    while let Some(next) = iter.peek() {
-                        match next.kind() {
-                            Check::Label => {
-                                break;
-                            }
-                            _ => {
-                                block.push(iter.next().unwrap());
-                            }
-                        }
-                    }
+                    // Insert the --implicit-check-not patterns at the start of any new block
+                    block.extend_from_slice(&implicit_check_nots);
                 }
                 Check::Empty | Check::Same | Check::Next
                     if !can_insert_dependent_positive_check(&block, label.as_ref()) =>
@@ -284,11 +245,17 @@ impl<'a> CheckProgram<'a> {
                 | Check::Same
                 | Check::Dag
                 | Check::Empty => {
+                    let is_dag = matches!(next.kind(), Check::Dag);
                     block.push(iter.next().unwrap());
 
-                    // Insert the --implicit-check-not pattern after every positive check
-                    if let Some(implicit_check_not) = implicit_check_not_pattern.as_ref() {
-                        block.push(implicit_check_not.clone());
+                    // Insert the --implicit-check-not patterns after every positive check, other
+                    // than between the members of a CHECK-DAG group, which have no order
+                    if !(is_dag
+                        && iter
+                            .peek()
+                            .is_some_and(|next| matches!(next.kind(), Check::Dag)))
+                    {
+                        block.extend_from_slice(&implicit_check_nots);
                     }
                 }
                 Check::Not => {
@@ -544,6 +511,58 @@ impl<'a> CheckProgram<'a> {
     }
 }
 
+/// Parse the --implicit-check-not patterns as if each was written in a CHECK-NOT directive
+///
+/// We create a pseudo-source file containing the patterns, to be used in diagnostics.
+fn parse_implicit_check_nots<'a>(config: &Config) -> DiagResult<Vec<CheckLine<'a>>> {
+    let patterns = &config.options.implicit_check_not;
+    if patterns.is_empty() {
+        return Ok(vec![]);
+    }
+    let shown = patterns
+        .iter()
+        .map(|pattern| format!("({pattern})"))
+        .collect::<Vec<_>>();
+    let shown_source = config
+        .source_manager()
+        .load_argument("--implicit-check-not", shown.join("|"));
+    let directives = patterns
+        .iter()
+        .map(|pattern| format!("CHECK-NOT: {pattern}\n"))
+        .collect::<String>();
+    let source = config
+        .source_manager()
+        .load_argument("--implicit-check-not directives", directives.clone());
+    let config = Config {
+        source_manager: config.source_manager.clone(),
+        options: Options {
+            strict_whitespace: config.options.strict_whitespace,
+            ..Default::default()
+        },
+    };
+    let mut lines = CheckFileParser::new(&config)
+        .parse(source.id(), Symbol::intern(directives).as_str())
+        .map(|file| file.into_lines())
+        .map_err(|err| Report::new(err).with_source_code(source))?;
+
+    let mut offset = 0;
+    for (line, shown) in lines.iter_mut().zip(shown) {
+        let range = offset..offset + shown.len();
+        offset = range.end + 1;
+        let span = SourceSpan::from_range_unchecked(shown_source.id(), range);
+        match &mut line.pattern {
+            CheckPattern::Literal(pattern) => {
+                *pattern = Span::new(span, core::mem::take(&mut **pattern));
+            }
+            CheckPattern::Regex(regex) => {
+                regex.pattern = Span::new(span, core::mem::take(&mut *regex.pattern));
+            }
+            CheckPattern::Match(_) | CheckPattern::Empty(_) => (),
+        }
+    }
+    Ok(lines)
+}
+
 /// Returns true if we can insert a dependent positive check (i.e. CHECK-EMPTY, CHECK-SAME, or
 /// CHECK-NEXT) into the current block (with optional label).
 ///
-- 
2.43.0


From c061500bcdb5309c42fb553fc389a532ec3df23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:58 +0000
Subject: [PATCH 17/78] fix: the patterns of neighbouring CHECK-NOT directives
 are matched one by one as a whole

---
 filecheck/src/check/program.rs                |  2 +-
 filecheck/src/pattern/matcher/matchers/any.rs | 55 +++++++++++++++----
 2 files changed, 45 insertions(+), 12 deletions(-)

diff --git a/filecheck/src/check/program.rs b/filecheck/src/check/program.rs
index 9ec42dd..61bf4d1 100644
--- a/filecheck/src/check/program.rs
+++ b/filecheck/src/check/program.rs
@@ -298,7 +298,7 @@ impl<'a> CheckProgram<'a> {
                                 break;
                             }
                         }
-                        let matcher = MatchAny::from(MatchAll::compile_set(nots, config)?);
+                        let matcher = MatchAny::from(MatchAll::compile(nots, config)?);
                         if body.is_empty() {
                             match groups.pop() {
                                 Some(CheckGroup::Tree(left)) => groups.push(CheckGroup::Tree(
diff --git a/filecheck/src/pattern/matcher/matchers/any.rs b/filecheck/src/pattern/matcher/matchers/any.rs
index 99a0b3f..5b742af 100644
--- a/filecheck/src/pattern/matcher/matchers/any.rs
+++ b/filecheck/src/pattern/matcher/matchers/any.rs
@@ -1,9 +1,11 @@
 use crate::common::*;
 
-use super::{AlwaysMatch, MatchAll, RegexSetMatcher, SubstringSetMatcher};
+use super::{MatchAll, RegexSetMatcher, SubstringSetMatcher};
 
 #[derive(Debug)]
 pub enum MatchAny<'a> {
+    /// Every pattern is matched on its own, the leftmost match wins
+    Each(Vec<Pattern<'a>>),
     /// Match a set of literal strings
     Literal(SubstringSetMatcher<'a>),
     /// Match a set of static regex patterns
@@ -36,16 +38,7 @@ pub enum MatchAny<'a> {
 impl<'a> From<MatchAll<'a>> for MatchAny<'a> {
     fn from(match_all: MatchAll<'a>) -> Self {
         match match_all {
-            MatchAll::Each(patterns) => {
-                let suffixes = patterns
-                    .iter()
-                    .map(|p| vec![Pattern::Empty(AlwaysMatch::new(p.span()))])
-                    .collect();
-                Self::AnyPrefix {
-                    prefixes: patterns,
-                    suffixes,
-                }
-            }
+            MatchAll::Each(patterns) => Self::Each(patterns),
             MatchAll::Literal(lit) => Self::Literal(lit),
             MatchAll::Regex(re) => Self::Regex(re),
             MatchAll::AnyPrefix { prefixes, suffixes } => Self::AnyPrefix { prefixes, suffixes },
@@ -61,6 +54,7 @@ impl<'a> From<MatchAll<'a>> for MatchAny<'a> {
 impl<'a> MatchAny<'a> {
     pub fn pattern_len(&self) -> usize {
         match self {
+            Self::Each(patterns) => patterns.len(),
             Self::Literal(matcher) => matcher.pattern_len(),
             Self::Regex(matcher) => matcher.patterns_len(),
             Self::AnyPrefix { suffixes, .. }
@@ -71,6 +65,12 @@ impl<'a> MatchAny<'a> {
 
     pub fn first_pattern(&self) -> Span<usize> {
         match self {
+            Self::Each(patterns) => patterns
+                .iter()
+                .enumerate()
+                .map(|(i, p)| Span::new(p.span(), i))
+                .min_by_key(|p| p.span().start())
+                .unwrap(),
             Self::Literal(matcher) => matcher.first_pattern(),
             Self::Regex(matcher) => matcher.first_pattern(),
             Self::AnyPrefix { prefixes, suffixes } => {
@@ -138,6 +138,12 @@ impl<'a> MatchAny<'a> {
 impl<'a> Spanned for MatchAny<'a> {
     fn span(&self) -> SourceSpan {
         match self {
+            Self::Each(patterns) => {
+                let spans = patterns.iter().map(|p| p.span());
+                let start = spans.clone().min_by_key(|span| span.start()).unwrap();
+                let end = spans.map(|span| span.end()).max().unwrap();
+                SourceSpan::new(start.source_id(), Range::new(start.start(), end))
+            }
             Self::Literal(matcher) => matcher.span(),
             Self::Regex(matcher) => matcher.span(),
             Self::AnyPrefix { prefixes, suffixes } => {
@@ -218,6 +224,33 @@ impl<'a> MatcherMut for MatchAny<'a> {
         use crate::pattern::search::PatternSetSearcher;
 
         match self {
+            Self::Each(patterns) => {
+                let mut leftmost: Option<MatchInfo<'input>> = None;
+                for (pattern_id, pattern) in patterns.iter().enumerate() {
+                    // Bindings made by the match are discarded along with the guard
+                    let mut guard = context.protect();
+                    let result = pattern.try_match_mut(input, &mut guard)?;
+                    if !result.is_ok() {
+                        continue;
+                    }
+                    if let Some(mut info) = result.info
+                        && leftmost
+                            .as_ref()
+                            .is_none_or(|best| info.span.start() < best.span.start())
+                    {
+                        info.pattern_id = pattern_id;
+                        leftmost = Some(info);
+                    }
+                }
+                Ok(match leftmost {
+                    Some(info) => MatchResult::ok(info),
+                    None => MatchResult::failed(CheckFailedError::match_none(
+                        self.span(),
+                        &input,
+                        context,
+                    )),
+                })
+            }
             Self::Literal(matcher) => matcher.try_match_mut(input, context),
             Self::Regex(matcher) => matcher.try_match_mut(input, context),
             Self::AnyPrefix { prefixes, suffixes } => {
-- 
2.43.0


From bf3749b97b6909e9a49ca93a17e2a825cb86a4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:38 +0000
Subject: [PATCH 18/78] fix: the exclusions before a sequence of checks use the
 bindings in force at its first match

---
 filecheck/src/check/program.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/filecheck/src/check/program.rs b/filecheck/src/check/program.rs
index 61bf4d1..b67cf54 100644
--- a/filecheck/src/check/program.rs
+++ b/filecheck/src/check/program.rs
@@ -444,6 +444,13 @@ impl<'a> CheckProgram<'a> {
                                 }
                             }
                         }
+                        // The exclusions before this group are evaluated when its first check has
+                        // matched: the bindings of the ones behind it are not in force yet
+                        let rest = if pending_tree.is_some() {
+                            rules.split_off(1)
+                        } else {
+                            vec![]
+                        };
                         let group = CheckGroup::Ordered(rules);
                         if let Some((maybe_left, root)) = pending_tree.take() {
                             match maybe_left {
@@ -468,6 +475,9 @@ impl<'a> CheckProgram<'a> {
                         } else {
                             groups.push(group);
                         }
+                        if !rest.is_empty() {
+                            groups.push(CheckGroup::Ordered(rest));
+                        }
                     }
                 }
             }
-- 
2.43.0


From 1af6808fa108da5117c974842a6bec8f05974941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:04 +0000
Subject: [PATCH 19/78] fix: an unusable expression fails an exclusion whether
 or not the text before it is found

---
 .../matcher/matchers/smart/searcher.rs        | 80 ++++++++++++++-----
 1 file changed, 61 insertions(+), 19 deletions(-)

diff --git a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
index 7ff5612..3b04bb0 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
@@ -63,6 +63,7 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
         C: Context<'input, 'context> + ?Sized,
     {
         let (prefix, rest) = ops.split_first().expect("expected at least one match op");
+        check_expressions(ops, &context.protect())?;
         loop {
             let guard = context.protect();
             match self.search_captures_guarded(prefix, rest, guard) {
@@ -562,25 +563,7 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
     ) -> DiagResult<MatchResult<'input>> {
         log::trace!(target: "smart:searcher", "attempting to match substitution: '{expr}'");
         let span = expr.span();
-        let pattern_source = match evaluate_expr(span, expr, ty, context)? {
-            Left(num) => {
-                let format = match ty {
-                    Some(ValueType::Number(Some(format))) => Some(format),
-                    _ => num.format,
-                };
-                // Only the signed format can represent a negative value
-                if num.value.is_negative() && !format.unwrap_or_default().is_signed() {
-                    return Err(Report::new(InvalidNumericCastError {
-                        span: Some(span),
-                        kind: std::num::IntErrorKind::NegOverflow,
-                        specific_span: None,
-                        match_file: context.source_file(span.source_id()).unwrap(),
-                    }));
-                }
-                Cow::Owned(format!("{}", Number { format, ..num }))
-            }
-            Right(s) => s,
-        };
+        let pattern_source = evaluate_substitution(ty, expr, context)?;
         // The value stands for itself, whatever characters it contains
         let pattern_source = regex::escape(&pattern_source);
         log::trace!(target: "smart:searcher", "resolved substitution expression to pattern: '{pattern_source}'");
@@ -613,6 +596,65 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
     }
 }
 
+/// Evaluate the expressions which do not depend on what this pattern binds itself, so that an
+/// undefined variable, or a value that cannot be computed, is an error whether or not the parts of
+/// the pattern that come before it are found.
+fn check_expressions(ops: &[MatchOp<'_>], context: &ContextGuard<'_, '_, '_>) -> DiagResult<()> {
+    let mut bound = vec![];
+    for op in ops {
+        match op {
+            MatchOp::Bind { name, .. } => bound.push(*name),
+            MatchOp::Substitution { expr, ty } if !uses_any(expr, &bound) => {
+                evaluate_substitution(*ty, expr, context)?;
+            }
+            MatchOp::Constraint {
+                span, expr, format, ..
+            } if !uses_any(expr, &bound) => {
+                let ty = format.map(|format| ValueType::Number(Some(format)));
+                evaluate_expr(*span, expr, ty, context)?;
+            }
+            _ => (),
+        }
+    }
+    Ok(())
+}
+
+fn uses_any(expr: &Expr, names: &[VariableName]) -> bool {
+    match expr {
+        Expr::Num(_) => false,
+        Expr::Var(var) => names.contains(var),
+        Expr::Binary { lhs, rhs, .. } => uses_any(lhs, names) || uses_any(rhs, names),
+    }
+}
+
+/// Evaluate a substituted expression to the text it stands for
+fn evaluate_substitution<'input>(
+    ty: Option<ValueType>,
+    expr: &Expr,
+    context: &ContextGuard<'_, 'input, '_>,
+) -> DiagResult<Cow<'input, str>> {
+    let span = expr.span();
+    match evaluate_expr(span, expr, ty, context)? {
+        Left(num) => {
+            let format = match ty {
+                Some(ValueType::Number(Some(format))) => Some(format),
+                _ => num.format,
+            };
+            // Only the signed format can represent a negative value
+            if num.value.is_negative() && !format.unwrap_or_default().is_signed() {
+                return Err(Report::new(InvalidNumericCastError {
+                    span: Some(span),
+                    kind: std::num::IntErrorKind::NegOverflow,
+                    specific_span: None,
+                    match_file: context.source_file(span.source_id()).unwrap(),
+                }));
+            }
+            Ok(Cow::Owned(format!("{}", Number { format, ..num })))
+        }
+        Right(s) => Ok(s),
+    }
+}
+
 fn evaluate_expr<'input>(
     span: SourceSpan,
     expr: &Expr,
-- 
2.43.0


From 12cdb844692019e779c94d479c8b64cae4679528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:04 +0000
Subject: [PATCH 20/78] fix: a label matched at the end of the previous label's
 line leaves an empty region, not a panic

---
 filecheck/src/check/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/filecheck/src/check/mod.rs b/filecheck/src/check/mod.rs
index 5222530..a49a3b0 100644
--- a/filecheck/src/check/mod.rs
+++ b/filecheck/src/check/mod.rs
@@ -140,7 +140,10 @@ pub fn discover_blocks<'input, 'context: 'input>(
                                 .rev()
                                 .find(|bi| bi.start.is_some())
                             {
-                                prev_block.end = Some(prev_block_end);
+                                // The label may match right at the end of the previous label's line,
+                                // in which case there is nothing between them
+                                prev_block.end =
+                                    Some(core::cmp::max(prev_block_end, prev_block.start.unwrap()));
                             }
                         }
                         None => {
-- 
2.43.0


From 27948a652bd5ee249517dc69d8f669cc9722f19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:43 +0000
Subject: [PATCH 21/78] fix: CHECK-SAME does not search past the end of its
 block

---
 filecheck/src/cursor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filecheck/src/cursor.rs b/filecheck/src/cursor.rs
index c3cc4ee..3b11b06 100644
--- a/filecheck/src/cursor.rs
+++ b/filecheck/src/cursor.rs
@@ -227,7 +227,7 @@ impl<'a> Cursor<'a> {
     /// Get an [Input] that can be used to search the unvisited portion of the current line
     pub fn search_line(&self) -> Input<'a> {
         Input::new(self.source_id, self.buffer, self.is_crlf())
-            .bounded(self.block.start..self.end_of_line())
+            .bounded(self.block.start..core::cmp::min(self.end_of_line(), self.block.end))
     }
 
     /// Returns true if the current position is at end of input
-- 
2.43.0


From 767242c67922dc95a2230aa580290fd191b49f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:27 +0000
Subject: [PATCH 22/78] fix: a captured number without a format is an unsigned
 one wherever the capture stands

---
 .../pattern/matcher/matchers/smart/operand.rs | 26 +++++++++----------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/filecheck/src/pattern/matcher/matchers/smart/operand.rs b/filecheck/src/pattern/matcher/matchers/smart/operand.rs
index 48ec1d0..fee97ba 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/operand.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/operand.rs
@@ -33,20 +33,18 @@ impl<'input> Operand<'input> {
                 specific_span: None,
                 match_file: context.source_file(span.source_id()).unwrap(),
             }),
-            Value::Str(value) => Number::parse_with_format(
-                Span::new(span, value.trim()),
-                format.unwrap_or_default(),
-            )
-            .map(|num| Number { format, ..num })
-            .map_err(|err| InvalidNumericCastError {
-                span: Some(span),
-                kind: match err {
-                    ParseNumberError::InvalidFormat { reason, .. } => reason,
-                    _ => std::num::IntErrorKind::InvalidDigit,
-                },
-                specific_span: None,
-                match_file: context.source_file(span.source_id()).unwrap(),
-            }),
+            Value::Str(value) => {
+                Number::parse_with_format(Span::new(span, value.trim()), format.unwrap_or_default())
+                    .map_err(|err| InvalidNumericCastError {
+                        span: Some(span),
+                        kind: match err {
+                            ParseNumberError::InvalidFormat { reason, .. } => reason,
+                            _ => std::num::IntErrorKind::InvalidDigit,
+                        },
+                        specific_span: None,
+                        match_file: context.source_file(span.source_id()).unwrap(),
+                    })
+            }
             Value::Num(Expr::Num(num)) => Ok(num.clone()),
             Value::Num(_) => unreachable!(),
         }
-- 
2.43.0


From 7ce9451a12083fd8394c7c7e6689f5bf2e9b8921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:07 +0000
Subject: [PATCH 23/78] fix: an undefined variable beside one bound by the
 pattern itself is an error too

---
 .../matcher/matchers/smart/searcher.rs        | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
index 3b04bb0..0699f62 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
@@ -613,12 +613,33 @@ fn check_expressions(ops: &[MatchOp<'_>], context: &ContextGuard<'_, '_, '_>) ->
                 let ty = format.map(|format| ValueType::Number(Some(format)));
                 evaluate_expr(*span, expr, ty, context)?;
             }
+            MatchOp::Substitution { expr, .. } | MatchOp::Constraint { expr, .. } => {
+                check_variables(expr, &bound, context)?;
+            }
             _ => (),
         }
     }
     Ok(())
 }
 
+/// Check that the variables of an expression which the pattern itself does not bind are defined
+fn check_variables(
+    expr: &Expr,
+    bound: &[VariableName],
+    context: &ContextGuard<'_, '_, '_>,
+) -> DiagResult<()> {
+    match expr {
+        Expr::Var(var) if !bound.contains(var) => {
+            evaluate_expr(var.span(), expr, None, context).map(|_| ())
+        }
+        Expr::Num(_) | Expr::Var(_) => Ok(()),
+        Expr::Binary { lhs, rhs, .. } => {
+            check_variables(lhs, bound, context)?;
+            check_variables(rhs, bound, context)
+        }
+    }
+}
+
 fn uses_any(expr: &Expr, names: &[VariableName]) -> bool {
     match expr {
         Expr::Num(_) => false,
-- 
2.43.0


From 844a5a0133776f86b7531c7077b82a386e451f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:46 +0000
Subject: [PATCH 24/78] fix: keep the CHECK-DAG repair out of test/result.rs

---
 filecheck/src/check/mod.rs   | 6 +++++-
 filecheck/src/test/result.rs | 7 -------
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/filecheck/src/check/mod.rs b/filecheck/src/check/mod.rs
index a49a3b0..ea0fc4f 100644
--- a/filecheck/src/check/mod.rs
+++ b/filecheck/src/check/mod.rs
@@ -511,7 +511,11 @@ pub fn check_group<'section, 'input, 'a: 'input>(
                     context.move_to(right_end);
                 }
             }
-            test_result.extend(right_test_result);
+            if right_test_result.is_failed() {
+                for error in right_test_result.unwrap_err().errors {
+                    test_result.failed(error);
+                }
+            }
             match right_result {
                 Ok(Ok(mut right_matches)) => {
                     let right_range = right_matches[0]
diff --git a/filecheck/src/test/result.rs b/filecheck/src/test/result.rs
index 4a94c78..69f9f13 100644
--- a/filecheck/src/test/result.rs
+++ b/filecheck/src/test/result.rs
@@ -49,13 +49,6 @@ impl TestResult {
         }
     }
 
-    /// Add everything recorded in `other` to this result
-    pub fn extend(&mut self, other: Self) {
-        self.matches.extend(other.matches);
-        self.passed += other.passed;
-        self.error.errors.extend(other.error.errors);
-    }
-
     pub fn matched(&mut self, matched: MatchInfo<'_>) {
         self.matches.push(matched.into_static());
         self.passed += 1;
-- 
2.43.0


From a576e789311191c65e62f7fd628880549df747d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:00 +0000
Subject: [PATCH 25/78] fix: recognise check lines that follow nothing but
 blanks

---
 filecheck/src/parse/lexer/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/filecheck/src/parse/lexer/mod.rs b/filecheck/src/parse/lexer/mod.rs
index 1a2e308..c9081af 100644
--- a/filecheck/src/parse/lexer/mod.rs
+++ b/filecheck/src/parse/lexer/mod.rs
@@ -192,7 +192,8 @@ impl<'input> Lexer<'input> {
             word_boundary += 1;
         }
         if start < word_boundary {
-            self.input.set_start(word_boundary);
+            // Stay on the last of the skipped blanks, it is the boundary in front of a prefix
+            self.input.set_start(word_boundary - 1);
         }
 
         // Force the searcher forward if necessary to ensure it is caught up to our view of the input
-- 
2.43.0


From edfcbd62833f19e37427c5bc1a5636d9f6aa0d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:47 +0000
Subject: [PATCH 26/78] fix: reject literal checks without text instead of
 crashing on them

---
 filecheck/src/parse/lexer/mod.rs |  7 ++--
 filecheck/src/parse/parser.rs    | 57 +++++++++++++-------------------
 2 files changed, 28 insertions(+), 36 deletions(-)

diff --git a/filecheck/src/parse/lexer/mod.rs b/filecheck/src/parse/lexer/mod.rs
index c9081af..3f42091 100644
--- a/filecheck/src/parse/lexer/mod.rs
+++ b/filecheck/src/parse/lexer/mod.rs
@@ -365,8 +365,11 @@ impl<'input> Lexer<'input> {
                 raw.trim_start()
             };
             let shift = raw.len().abs_diff(stripped.len());
-            self.buffer
-                .push_back(Ok((start + shift, Token::Raw(stripped), eol)));
+            // Without any text there is no pattern, which is up to the parser to reject
+            if !stripped.is_empty() {
+                self.buffer
+                    .push_back(Ok((start + shift, Token::Raw(stripped), eol)));
+            }
             self.input.set_start(eol);
             return;
         } else if self.strict_whitespace || self.match_full_lines {
diff --git a/filecheck/src/parse/parser.rs b/filecheck/src/parse/parser.rs
index f908ea1..940137e 100644
--- a/filecheck/src/parse/parser.rs
+++ b/filecheck/src/parse/parser.rs
@@ -196,42 +196,31 @@ impl<'config> CheckFileParser<'config> {
 
         // CheckPattern
         if modifiers.contains(CheckModifier::LITERAL) {
-            match expect!(lexer, Token::Raw(_) | Token::Lf) {
-                (start, Token::Raw(pattern), end) => {
-                    if matches!(ty.kind, Check::Empty) {
-                        // Expected an empty pattern
-                        return Err(ParserError::ExpectedEmptyPattern {
-                            span: SourceSpan::from_range_unchecked(
-                                span.source_id(),
-                                line_start..end,
-                            ),
-                        });
-                    }
-                    let pattern = Span::new(
-                        SourceSpan::from_range_unchecked(span.source_id(), start..end),
-                        pattern,
-                    );
-                    Ok(CheckLine::new(
-                        SourceSpan::from_range_unchecked(span.source_id(), line_start..end),
-                        ty,
-                        CheckPattern::Literal(pattern.map(Cow::Borrowed)),
-                    ))
-                }
-                (_, Token::Lf, end) if matches!(ty.kind, Check::Empty) => Ok(CheckLine::new(
-                    SourceSpan::from_range_unchecked(span.source_id(), line_start..end),
-                    ty,
-                    CheckPattern::Empty(SourceSpan::from_range_unchecked(
-                        span.source_id(),
-                        line_start..end,
-                    )),
-                )),
-                (_, _, end) => {
+            if matches!(lexer.peek(), None | Some(Token::Lf)) {
+                let _ = lex!(lexer);
+                let span =
+                    SourceSpan::from_range_unchecked(span.source_id(), line_start..check_end);
+                return if matches!(ty.kind, Check::Empty) {
+                    Ok(CheckLine::new(span, ty, CheckPattern::Empty(span)))
+                } else {
                     // Expected a non-empty pattern
-                    Err(ParserError::EmptyPattern {
-                        span: SourceSpan::from_range_unchecked(span.source_id(), line_start..end),
-                    })
-                }
+                    Err(ParserError::EmptyPattern { span })
+                };
+            }
+            let pattern = expect_literal!(lexer);
+            let span = SourceSpan::from_range_unchecked(
+                span.source_id(),
+                line_start..pattern.span().end().to_usize(),
+            );
+            if matches!(ty.kind, Check::Empty) {
+                // Expected an empty pattern
+                return Err(ParserError::ExpectedEmptyPattern { span });
             }
+            Ok(CheckLine::new(
+                span,
+                ty,
+                CheckPattern::Literal(pattern.map(Cow::Borrowed)),
+            ))
         } else {
             let mut parts = vec![];
             loop {
-- 
2.43.0


From f40c7b99afd1ad5b4aaff0a17c63d74b539f9e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:57 +0000
Subject: [PATCH 27/78] fix: leave blanks at the end of a check line out of its
 pattern

---
 filecheck/src/parse/lexer/mod.rs | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/filecheck/src/parse/lexer/mod.rs b/filecheck/src/parse/lexer/mod.rs
index 3f42091..dcb90fc 100644
--- a/filecheck/src/parse/lexer/mod.rs
+++ b/filecheck/src/parse/lexer/mod.rs
@@ -356,9 +356,15 @@ impl<'input> Lexer<'input> {
     fn tokenize_check_pattern(&mut self, literal: bool) {
         let mut start = self.input.start();
         let eol = self.input.next_newline().unwrap_or(self.input.end());
+        // Blanks at the end of the line are not part of the pattern
+        let end = if self.strict_whitespace || self.match_full_lines {
+            eol
+        } else {
+            start + self.input.as_str(start..eol).trim_end().len()
+        };
 
         if literal {
-            let raw = self.input.as_str(start..eol);
+            let raw = self.input.as_str(start..end);
             let stripped = if self.strict_whitespace || self.match_full_lines {
                 raw.strip_prefix(' ').unwrap_or(raw)
             } else {
@@ -368,21 +374,21 @@ impl<'input> Lexer<'input> {
             // Without any text there is no pattern, which is up to the parser to reject
             if !stripped.is_empty() {
                 self.buffer
-                    .push_back(Ok((start + shift, Token::Raw(stripped), eol)));
+                    .push_back(Ok((start + shift, Token::Raw(stripped), end)));
             }
             self.input.set_start(eol);
             return;
         } else if self.strict_whitespace || self.match_full_lines {
             // If --strict-whitespace/--match-full-lines are in use, do not remove excess leading
             // whitespace
-            let raw = self.input.as_str(start..eol);
+            let raw = self.input.as_str(start..end);
             let stripped = raw.strip_prefix(' ').unwrap_or(raw);
             let shift = raw.len().abs_diff(stripped.len());
             start += shift;
             self.input.set_start(start);
         } else {
             // Otherwise, remove all leading space separating prefix and pattern
-            let raw = self.input.as_str(start..eol);
+            let raw = self.input.as_str(start..end);
             let stripped = raw.trim_ascii_start();
             let shift = raw.len().abs_diff(stripped.len());
             start += shift;
@@ -393,7 +399,7 @@ impl<'input> Lexer<'input> {
         let mut in_regex: Option<Span<Delimiter>> = None;
 
         let mut last_delimiter_end = start;
-        self.delimiter_searcher.set_range(start..eol);
+        self.delimiter_searcher.set_range(start..end);
         let mut is_first = true;
         while let Some(matched) = self
             .delimiter_searcher
@@ -413,7 +419,7 @@ impl<'input> Lexer<'input> {
                         && let Some(b'[') = self.input.buffer().get(delim_range.end)
                     {
                         self.delimiter_searcher
-                            .set_range((delim_range.start + 1)..eol);
+                            .set_range((delim_range.start + 1)..end);
                         continue;
                     }
 
@@ -513,7 +519,7 @@ impl<'input> Lexer<'input> {
                     ) {
                         in_match = Some(match_start);
                         self.delimiter_searcher
-                            .set_range((delim_range.start + 1)..eol);
+                            .set_range((delim_range.start + 1)..end);
                         continue;
                     }
 
@@ -553,8 +559,8 @@ impl<'input> Lexer<'input> {
         }
 
         // The line has been sliced up in delimited parts, but we have to handle any trailing content
-        if last_delimiter_end < eol && in_match.is_none() && in_regex.is_none() {
-            let line = self.input.as_str(last_delimiter_end..eol);
+        if last_delimiter_end < end && in_match.is_none() && in_regex.is_none() {
+            let line = self.input.as_str(last_delimiter_end..end);
             if !line.trim().is_empty() {
                 let line = if is_first {
                     line.strip_prefix(' ').unwrap_or(line)
@@ -562,12 +568,11 @@ impl<'input> Lexer<'input> {
                     line
                 };
                 self.buffer
-                    .push_back(Ok((last_delimiter_end, Token::Raw(line), eol)));
+                    .push_back(Ok((last_delimiter_end, Token::Raw(line), end)));
             }
-            self.input.set_start(eol);
-            self.searcher.set_last_match_end(eol);
-            self.delimiter_searcher.set_last_match_end(eol);
         }
+        self.input.set_start(eol);
+        self.searcher.set_last_match_end(eol);
 
         // Handle unclosed delimiters
         match (in_match, in_regex) {
-- 
2.43.0


From 33b0a5e5d2a07731bddadd1bf21872c6e1dacbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:04 +0000
Subject: [PATCH 28/78] fix: strip a single blank before a pattern under
 --strict-whitespace

---
 filecheck/src/parse/lexer/mod.rs | 48 ++++++++------------------------
 1 file changed, 12 insertions(+), 36 deletions(-)

diff --git a/filecheck/src/parse/lexer/mod.rs b/filecheck/src/parse/lexer/mod.rs
index dcb90fc..be3cd0a 100644
--- a/filecheck/src/parse/lexer/mod.rs
+++ b/filecheck/src/parse/lexer/mod.rs
@@ -400,7 +400,6 @@ impl<'input> Lexer<'input> {
 
         let mut last_delimiter_end = start;
         self.delimiter_searcher.set_range(start..end);
-        let mut is_first = true;
         while let Some(matched) = self
             .delimiter_searcher
             .advance(|input| Ok(self.delimiter_patterns.find(input.clone())))
@@ -431,20 +430,12 @@ impl<'input> Lexer<'input> {
                         delim,
                     ));
                     if delim_range.start > last_delimiter_end {
-                        let raw = &self.input.buffer()[last_delimiter_end..delim_range.start];
-                        if !raw.iter().all(u8::is_ascii_whitespace) || !is_first {
-                            let content = self.input.as_str(last_delimiter_end..delim_range.start);
-                            let content = if is_first {
-                                content.strip_prefix(' ').unwrap_or(content)
-                            } else {
-                                content
-                            };
-                            self.buffer.push_back(Ok((
-                                last_delimiter_end,
-                                Token::Raw(content),
-                                delim_range.start,
-                            )));
-                        }
+                        let content = self.input.as_str(last_delimiter_end..delim_range.start);
+                        self.buffer.push_back(Ok((
+                            last_delimiter_end,
+                            Token::Raw(content),
+                            delim_range.start,
+                        )));
                     }
                     if matches!(delim, Delimiter::NumericMatchStart) {
                         self.buffer.push_back(Ok((
@@ -464,7 +455,6 @@ impl<'input> Lexer<'input> {
                             delim_range.end,
                         )));
                     }
-                    is_first = false;
                 }
                 Delimiter::RegexStart if in_match.is_none() && in_regex.is_none() => {
                     in_regex = Some(Span::new(
@@ -475,27 +465,18 @@ impl<'input> Lexer<'input> {
                         Delimiter::RegexStart,
                     ));
                     if delim_range.start > last_delimiter_end {
-                        let raw = &self.input.buffer()[last_delimiter_end..delim_range.start];
-                        if !raw.iter().all(u8::is_ascii_whitespace) || !is_first {
-                            let content = self.input.as_str(last_delimiter_end..delim_range.start);
-                            let content = if is_first {
-                                content.strip_prefix(' ').unwrap_or(content)
-                            } else {
-                                content
-                            };
-                            self.buffer.push_back(Ok((
-                                last_delimiter_end,
-                                Token::Raw(content),
-                                delim_range.start,
-                            )));
-                        }
+                        let content = self.input.as_str(last_delimiter_end..delim_range.start);
+                        self.buffer.push_back(Ok((
+                            last_delimiter_end,
+                            Token::Raw(content),
+                            delim_range.start,
+                        )));
                     }
                     self.buffer.push_back(Ok((
                         delim_range.start,
                         Token::RegexStart,
                         delim_range.end,
                     )));
-                    is_first = false;
                 }
                 Delimiter::MatchEnd if in_match.is_some() => {
                     // Check if this closing delimiter might be part of the underlying pattern;
@@ -562,11 +543,6 @@ impl<'input> Lexer<'input> {
         if last_delimiter_end < end && in_match.is_none() && in_regex.is_none() {
             let line = self.input.as_str(last_delimiter_end..end);
             if !line.trim().is_empty() {
-                let line = if is_first {
-                    line.strip_prefix(' ').unwrap_or(line)
-                } else {
-                    line
-                };
                 self.buffer
                     .push_back(Ok((last_delimiter_end, Token::Raw(line), end)));
             }
-- 
2.43.0


From 84adfdacadea355eb387b538bff18fbcadb494be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:09 +0000
Subject: [PATCH 29/78] fix: canonicalize tabs in the input and in regular
 expressions as in literals

---
 core/src/text/mod.rs       | 22 +++++-----------------
 filecheck/src/check/mod.rs |  7 ++++++-
 filecheck/src/test/mod.rs  |  6 +++++-
 3 files changed, 16 insertions(+), 19 deletions(-)

diff --git a/core/src/text/mod.rs b/core/src/text/mod.rs
index d4538d4..523b4a0 100644
--- a/core/src/text/mod.rs
+++ b/core/src/text/mod.rs
@@ -175,6 +175,9 @@ pub fn is_char_boundary(buffer: &[u8], offset: usize) -> bool {
     }
 }
 
+/// Replace tabs with spaces, unless `strict_whitespace` is set
+///
+/// The length of `s`, and the offsets of what it contains, stay the same.
 pub fn canonicalize_horizontal_whitespace(
     s: Cow<'_, str>,
     strict_whitespace: bool,
@@ -183,24 +186,9 @@ pub fn canonicalize_horizontal_whitespace(
         return s;
     }
 
-    if s.contains(is_non_canonical_horizontal_whitespace) {
-        Cow::Owned(s.replace(is_non_canonical_horizontal_whitespace, " "))
+    if s.contains('\t') {
+        Cow::Owned(s.replace('\t', " "))
     } else {
         s
     }
 }
-
-#[inline]
-fn is_non_canonical_horizontal_whitespace(c: char) -> bool {
-    match c {
-        '\t' => true,
-        // Unicode Space_Separator category, sans space (which we are canonicalizing to)
-        '\u{00A0}'
-        | '\u{1680}'
-        | '\u{2000}'..='\u{200A}'
-        | '\u{202F}'
-        | '\u{205F}'
-        | '\u{3000}' => true,
-        _ => false,
-    }
-}
diff --git a/filecheck/src/check/mod.rs b/filecheck/src/check/mod.rs
index ea0fc4f..f24fcc5 100644
--- a/filecheck/src/check/mod.rs
+++ b/filecheck/src/check/mod.rs
@@ -38,7 +38,12 @@ impl<'a> Checker<'a> {
 
     /// Check `source` against the rules in this [Checker]
     pub fn check_input(&mut self, source: Arc<SourceFile>) -> TestResult {
-        let buffer = source.as_bytes();
+        // Canonicalization keeps every offset, so that spans still refer to the source file
+        let text = text::canonicalize_horizontal_whitespace(
+            Cow::Borrowed(source.as_str()),
+            self.config.options.strict_whitespace,
+        );
+        let buffer = text.as_bytes();
         let mut context =
             MatchContext::new(self.config, self.match_file.clone(), source.clone(), buffer);
 
diff --git a/filecheck/src/test/mod.rs b/filecheck/src/test/mod.rs
index faf12b6..91850de 100644
--- a/filecheck/src/test/mod.rs
+++ b/filecheck/src/test/mod.rs
@@ -97,8 +97,12 @@ impl<'a> Test<'a> {
         // Parse the check file
         let mut parser = parse::CheckFileParser::new(self.config);
 
+        let checks = text::canonicalize_horizontal_whitespace(
+            Cow::Borrowed(self.match_file.as_str()),
+            self.config.options.strict_whitespace,
+        );
         let match_file = parser
-            .parse(self.match_file.id(), self.match_file.as_str())
+            .parse(self.match_file.id(), &checks)
             .map_err(|err| Report::new(err).with_source_code(self.match_file.clone()))?;
 
         // Compile the check rules, and raise an error if any are invalid
-- 
2.43.0


From 25016d5f275b2466afedb31f7406b9f803c02606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:27 +0000
Subject: [PATCH 30/78] fix: find the end of a substitution block behind
 character classes

---
 filecheck/src/parse/lexer/mod.rs | 75 +++++++++++++++++---------------
 1 file changed, 41 insertions(+), 34 deletions(-)

diff --git a/filecheck/src/parse/lexer/mod.rs b/filecheck/src/parse/lexer/mod.rs
index be3cd0a..7fcfaec 100644
--- a/filecheck/src/parse/lexer/mod.rs
+++ b/filecheck/src/parse/lexer/mod.rs
@@ -21,31 +21,40 @@ pub type Lexed<'input> = Result<(usize, Token<'input>, usize), ParserError>;
 use self::delimiter::Delimiter;
 use self::patterns::{Check, Pattern};
 
-/// Used to recognize false MatchEnd delimiters (i.e. ']]') that occur when searching for the end
-/// of a match pattern that may contain brackets.
-static FALSE_MATCH_END_PATTERN: std::sync::LazyLock<Regex> = std::sync::LazyLock::new(|| {
-    // This pattern matches false ends due to character classes in capture patterns, e.g.:
-    //
-    // [[REG:r[[:digit:]]]]
-    // ^- match start  ^ ^- match end
-    //                 `- false end
-    //
-    // [[REG:r[0-9]]]
-    // ^- match start
-    //            ^^- match end
-    //            `- false end
-    //
-    // The haystack for the search starts immediately after the opening `[[` and includes all
-    // content up to (and including) the closing `]]` we're looking at.
-    //
-    // 1. From the start of the haystack
-    // 2. Match any char until we hit an opening `[`, which must be a nested character class
-    // 3. Either:
-    //   * Expect a named ASCII character class, e.g. `:space:`
-    //   * Expect any character other than an unescaped `]`
-    // 4. Repeat 2-3 until we reach a closing `]` at the end of the haystack
-    Regex::new(r"\A.*\[(\[:[a-z]+:\]|([^\]\\]|\\.)+\])\]\z").unwrap()
-});
+/// Recognizes false MatchEnd delimiters (i.e. ']]') that occur when searching for the end of a match
+/// pattern that may contain brackets.
+///
+/// This is the case when `content`, i.e. what stands between the opening `[[` and the `]]` we're
+/// looking at, ends in the middle of a character class, or with the start of an escape, e.g.:
+///
+/// ```text
+/// [[REG:r[[:digit:]]]]
+/// ^- match start  ^ ^- match end
+///                 `- false end
+///
+/// [[REG:r[0-9]]]
+/// ^- match start
+///            ^^- match end
+///            `- false end
+/// ```
+fn is_false_match_end(content: &str) -> bool {
+    let mut depth = 0usize;
+    let mut chars = content.chars().peekable();
+    while let Some(c) = chars.next() {
+        match c {
+            '\\' if chars.next().is_none() => return true,
+            '[' => {
+                depth += 1;
+                // A closing bracket in the first position of a class belongs to the class
+                chars.next_if_eq(&'^');
+                chars.next_if_eq(&']');
+            }
+            ']' => depth = depth.saturating_sub(1),
+            _ => (),
+        }
+    }
+    depth > 0
+}
 
 /// The lexer that is used to tokenize a check file
 pub struct Lexer<'input> {
@@ -486,17 +495,15 @@ impl<'input> Lexer<'input> {
                     //
                     // In both cases, the match end delimiter we're looking for is incorrectly
                     // identified and includes all or part of the character class delimiter. We
-                    // check if this is the case by matching the content after the match start
-                    // delimiter up to and including the current match end delimiter. If the
-                    // following regex matches that content, we ignore this match and shift the
-                    // delimiter searcher back by one character, forcing it to re-attempt the search
-                    // while including part of the false match end delimiter, so that we properly
-                    // handle the case where the delimiter overlapped the false one and the real
-                    // one.
+                    // check if this is the case by looking at the content between the two
+                    // delimiters. If it is, we ignore this match and shift the delimiter searcher
+                    // back by one character, forcing it to re-attempt the search while including
+                    // part of the false match end delimiter, so that we properly handle the case
+                    // where the delimiter overlapped the false one and the real one.
                     let match_start = in_match.take().unwrap();
-                    if FALSE_MATCH_END_PATTERN.is_match(
+                    if is_false_match_end(
                         self.input
-                            .as_str(match_start.span().end().to_usize()..delim_range.end),
+                            .as_str(match_start.span().end().to_usize()..delim_range.start),
                     ) {
                         in_match = Some(match_start);
                         self.delimiter_searcher
-- 
2.43.0


From cf556c5163cc0fb59bff51a6796589d5a4775a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:52 +0000
Subject: [PATCH 31/78] fix: a regular expression in a pattern stands for
 itself, whatever precedes it

---
 filecheck/src/ast/pattern.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/filecheck/src/ast/pattern.rs b/filecheck/src/ast/pattern.rs
index bc59e80..b566b60 100644
--- a/filecheck/src/ast/pattern.rs
+++ b/filecheck/src/ast/pattern.rs
@@ -465,14 +465,10 @@ impl<'a> CheckPattern<'a> {
                                 is_literal_mode = false;
                                 convert_to_regex(&mut pattern, part.len())
                             }
-                            // An alternation must not extend to what precedes or follows it
-                            if part.contains('|') {
-                                pattern.push_str("(?:");
-                                pattern.push_str(part.as_ref());
-                                pattern.push(')');
-                            } else {
-                                pattern.push_str(part.as_ref());
-                            }
+                            // What it contains must not extend to what precedes or follows it
+                            pattern.push_str("(?:");
+                            pattern.push_str(part.as_ref());
+                            pattern.push(')');
                         }
                         CheckPatternPart::Match(Match::Substitution {
                             pattern: Some(part),
-- 
2.43.0


From 85e31da08da90d51384bab453071166d708def2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:04 +0000
Subject: [PATCH 32/78] fix: locate offsets inside of a character instead of
 crashing on them

---
 core/src/diagnostics/source_file.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/core/src/diagnostics/source_file.rs b/core/src/diagnostics/source_file.rs
index d82bafa..7eb0585 100644
--- a/core/src/diagnostics/source_file.rs
+++ b/core/src/diagnostics/source_file.rs
@@ -679,13 +679,17 @@ impl SourceContent {
     }
 
     /// Get a [FileLineCol] corresponding to the line/column in this file at which `byte_index`
-    /// occurs
+    /// occurs, i.e. that of the character `byte_index` belongs to.
+    ///
+    /// Returns `None` if the given index is out of bounds
     pub fn location(&self, byte_index: ByteIndex) -> Option<FileLineCol> {
         let line_index = self.line_index(byte_index);
         let line_start_index = self.line_start(line_index)?;
-        let line_src = self
-            .content
-            .get(line_start_index.to_usize()..byte_index.to_usize())?;
+        let mut char_start = byte_index.to_usize();
+        while char_start < self.len() && !self.content.is_char_boundary(char_start) {
+            char_start -= 1;
+        }
+        let line_src = self.content.get(line_start_index.to_usize()..char_start)?;
         let column_index = ColumnIndex::from(line_src.chars().count() as u32);
         Some(FileLineCol {
             uri: self.uri.clone(),
-- 
2.43.0


From f5e8b2f7f90d60fbc4c80a3105131d6faac1f974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:40 +0000
Subject: [PATCH 33/78] fix: canonicalize the tabs of check patterns where they
 are parsed

---
 filecheck/src/parse/parser.rs | 33 +++++++++++++++++++++++++++------
 filecheck/src/test/mod.rs     |  6 +-----
 2 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/filecheck/src/parse/parser.rs b/filecheck/src/parse/parser.rs
index 940137e..461dea3 100644
--- a/filecheck/src/parse/parser.rs
+++ b/filecheck/src/parse/parser.rs
@@ -14,7 +14,10 @@ lalrpop_util::lalrpop_mod!(
     "/parse/grammar.rs"
 );
 
-use litcheck::diagnostics::{SourceId, SourceSpan, Span, Spanned};
+use litcheck::{
+    diagnostics::{SourceId, SourceSpan, Span, Spanned},
+    text,
+};
 use std::borrow::Cow;
 
 use super::{Lexed, Lexer, ParseError, ParseResult, ParserError, Token};
@@ -219,7 +222,7 @@ impl<'config> CheckFileParser<'config> {
             Ok(CheckLine::new(
                 span,
                 ty,
-                CheckPattern::Literal(pattern.map(Cow::Borrowed)),
+                CheckPattern::Literal(self.pattern_text(pattern)),
             ))
         } else {
             let mut parts = vec![];
@@ -233,13 +236,13 @@ impl<'config> CheckFileParser<'config> {
                         expect_ignore!(lexer, Token::RegexStart);
                         let pattern = expect_literal!(lexer);
                         parts.push(CheckPatternPart::Regex(RegexPattern::new(
-                            pattern.map(Cow::Borrowed),
+                            self.pattern_text(pattern),
                         )));
                         expect_ignore!(lexer, Token::RegexEnd);
                     }
                     Some(Token::Raw(_)) => {
                         let pattern = expect_literal!(lexer);
-                        parts.push(CheckPatternPart::Literal(pattern.map(Cow::Borrowed)));
+                        parts.push(CheckPatternPart::Literal(self.pattern_text(pattern)));
                     }
                     Some(Token::Lf) => {
                         expect_ignore!(lexer, Token::Lf);
@@ -378,9 +381,27 @@ impl<'config> CheckFileParser<'config> {
         tokens: Vec<Lexed<'a>>,
     ) -> ParseResult<Match<'a>> {
         let lexer = tokens.into_iter();
-        grammar::MatchParser::new()
+        let mut parsed = grammar::MatchParser::new()
             .parse(source_id, source, lexer)
-            .map_err(|err| handle_parse_error(source_id, err))
+            .map_err(|err| handle_parse_error(source_id, err))?;
+        if let Match::Substitution {
+            pattern: Some(pattern),
+            ..
+        } = &mut parsed
+        {
+            *pattern = self.canonicalize(pattern.clone());
+        }
+        Ok(parsed)
+    }
+
+    /// The text of a pattern, with horizontal whitespace as it is in the input
+    fn pattern_text<'a>(&self, text: Span<&'a str>) -> Span<Cow<'a, str>> {
+        self.canonicalize(text.map(Cow::Borrowed))
+    }
+
+    fn canonicalize<'a>(&self, text: Span<Cow<'a, str>>) -> Span<Cow<'a, str>> {
+        let strict_whitespace = self.config.options.strict_whitespace;
+        text.map(|text| text::canonicalize_horizontal_whitespace(text, strict_whitespace))
     }
 }
 
diff --git a/filecheck/src/test/mod.rs b/filecheck/src/test/mod.rs
index 91850de..faf12b6 100644
--- a/filecheck/src/test/mod.rs
+++ b/filecheck/src/test/mod.rs
@@ -97,12 +97,8 @@ impl<'a> Test<'a> {
         // Parse the check file
         let mut parser = parse::CheckFileParser::new(self.config);
 
-        let checks = text::canonicalize_horizontal_whitespace(
-            Cow::Borrowed(self.match_file.as_str()),
-            self.config.options.strict_whitespace,
-        );
         let match_file = parser
-            .parse(self.match_file.id(), &checks)
+            .parse(self.match_file.id(), self.match_file.as_str())
             .map_err(|err| Report::new(err).with_source_code(self.match_file.clone()))?;
 
         // Compile the check rules, and raise an error if any are invalid
-- 
2.43.0


From 5df6cef5ee33a1c9c42722c2332efb9b1baaa551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:01 +0000
Subject: [PATCH 34/78] fix: keep blanks that end a pattern under
 --strict-whitespace behind a block, too

---
 filecheck/src/parse/lexer/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/filecheck/src/parse/lexer/mod.rs b/filecheck/src/parse/lexer/mod.rs
index 7fcfaec..05f68bc 100644
--- a/filecheck/src/parse/lexer/mod.rs
+++ b/filecheck/src/parse/lexer/mod.rs
@@ -549,7 +549,8 @@ impl<'input> Lexer<'input> {
         // The line has been sliced up in delimited parts, but we have to handle any trailing content
         if last_delimiter_end < end && in_match.is_none() && in_regex.is_none() {
             let line = self.input.as_str(last_delimiter_end..end);
-            if !line.trim().is_empty() {
+            // Blanks alone are no pattern, but they belong to one that has begun
+            if last_delimiter_end > start || !line.trim().is_empty() {
                 self.buffer
                     .push_back(Ok((last_delimiter_end, Token::Raw(line), end)));
             }
-- 
2.43.0


From b0ee8f1c3e795e35203d94969d5381b321996041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:01 +0000
Subject: [PATCH 35/78] fix: blanks at the ends of a regular expression are
 part of it

---
 filecheck/src/parse/lexer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filecheck/src/parse/lexer/mod.rs b/filecheck/src/parse/lexer/mod.rs
index 05f68bc..593a6e0 100644
--- a/filecheck/src/parse/lexer/mod.rs
+++ b/filecheck/src/parse/lexer/mod.rs
@@ -530,7 +530,7 @@ impl<'input> Lexer<'input> {
                     last_delimiter_end = delim_range.end;
                     let regex_start = in_regex.take().unwrap();
                     let pattern_start = regex_start.span().end().to_usize();
-                    let raw = self.input.as_str(pattern_start..delim_range.start).trim();
+                    let raw = self.input.as_str(pattern_start..delim_range.start);
                     self.buffer
                         .push_back(Ok((pattern_start, Token::Raw(raw), delim_range.start)));
                     self.buffer.push_back(Ok((
-- 
2.43.0


From e3ccd4f1415023e2983a49b7b2b7b5faf175be2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:32 +0000
Subject: [PATCH 36/78] fix: canonicalize CRLF newlines to LF, as
 --strict-whitespace documents

---
 filecheck/src/check/mod.rs       | 12 ++++++++++++
 filecheck/src/parse/lexer/mod.rs |  5 +++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/filecheck/src/check/mod.rs b/filecheck/src/check/mod.rs
index f24fcc5..84b7741 100644
--- a/filecheck/src/check/mod.rs
+++ b/filecheck/src/check/mod.rs
@@ -38,6 +38,7 @@ impl<'a> Checker<'a> {
 
     /// Check `source` against the rules in this [Checker]
     pub fn check_input(&mut self, source: Arc<SourceFile>) -> TestResult {
+        let source = self.canonicalize_newlines(source);
         // Canonicalization keeps every offset, so that spans still refer to the source file
         let text = text::canonicalize_horizontal_whitespace(
             Cow::Borrowed(source.as_str()),
@@ -61,6 +62,17 @@ impl<'a> Checker<'a> {
         result.attach_input_dump(&context);
         result
     }
+
+    /// Get `source` with all of its newlines as LF
+    fn canonicalize_newlines(&self, source: Arc<SourceFile>) -> Arc<SourceFile> {
+        if !source.as_str().contains("\r\n") {
+            return source;
+        }
+        let code = source.as_str().replace("\r\n", "\n");
+        self.config
+            .source_manager
+            .load(SourceLanguage::Unknown, source.uri().clone(), code)
+    }
 }
 
 /// Analyze the input to identify regions of input corresponding to
diff --git a/filecheck/src/parse/lexer/mod.rs b/filecheck/src/parse/lexer/mod.rs
index 593a6e0..e603e8a 100644
--- a/filecheck/src/parse/lexer/mod.rs
+++ b/filecheck/src/parse/lexer/mod.rs
@@ -365,9 +365,10 @@ impl<'input> Lexer<'input> {
     fn tokenize_check_pattern(&mut self, literal: bool) {
         let mut start = self.input.start();
         let eol = self.input.next_newline().unwrap_or(self.input.end());
-        // Blanks at the end of the line are not part of the pattern
+        // Neither the newline nor blanks at the end of the line are part of the pattern
         let end = if self.strict_whitespace || self.match_full_lines {
-            eol
+            let line = self.input.as_str(start..eol);
+            start + line.strip_suffix('\r').unwrap_or(line).len()
         } else {
             start + self.input.as_str(start..eol).trim_end().len()
         };
-- 
2.43.0


From 7f73c97c6773d883b03f1901c3078e4b653edb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:56 +0000
Subject: [PATCH 37/78] fix: reject a part of a pattern that is no regular
 expression on its own

---
 filecheck/src/parse/mod.rs    |  7 +++++++
 filecheck/src/parse/parser.rs | 15 +++++++++++++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/filecheck/src/parse/mod.rs b/filecheck/src/parse/mod.rs
index 4c810f0..6e16d1b 100644
--- a/filecheck/src/parse/mod.rs
+++ b/filecheck/src/parse/mod.rs
@@ -90,6 +90,13 @@ pub enum ParserError {
         #[label("no closing '}}' found for this block")]
         span: SourceSpan,
     },
+    #[error("invalid regular expression")]
+    #[diagnostic(help("{error}"))]
+    InvalidRegex {
+        #[label("this is not a valid regular expression")]
+        span: SourceSpan,
+        error: String,
+    },
     #[error("no check strings found with prefix(es) {}", text::DisplayCommaSeparated(.0.as_slice()))]
     #[diagnostic()]
     UnusedCheckPrefixes(Vec<Symbol>),
diff --git a/filecheck/src/parse/parser.rs b/filecheck/src/parse/parser.rs
index 461dea3..c427341 100644
--- a/filecheck/src/parse/parser.rs
+++ b/filecheck/src/parse/parser.rs
@@ -236,7 +236,7 @@ impl<'config> CheckFileParser<'config> {
                         expect_ignore!(lexer, Token::RegexStart);
                         let pattern = expect_literal!(lexer);
                         parts.push(CheckPatternPart::Regex(RegexPattern::new(
-                            self.pattern_text(pattern),
+                            self.regex_text(self.pattern_text(pattern))?,
                         )));
                         expect_ignore!(lexer, Token::RegexEnd);
                     }
@@ -389,7 +389,7 @@ impl<'config> CheckFileParser<'config> {
             ..
         } = &mut parsed
         {
-            *pattern = self.canonicalize(pattern.clone());
+            *pattern = self.regex_text(self.canonicalize(pattern.clone()))?;
         }
         Ok(parsed)
     }
@@ -399,6 +399,17 @@ impl<'config> CheckFileParser<'config> {
         self.canonicalize(text.map(Cow::Borrowed))
     }
 
+    /// Require that `text` is a regular expression on its own, whatever it will be combined with
+    fn regex_text<'a>(&self, text: Span<Cow<'a, str>>) -> ParseResult<Span<Cow<'a, str>>> {
+        match regex_syntax::parse(text.inner()) {
+            Ok(_) => Ok(text),
+            Err(err) => Err(ParserError::InvalidRegex {
+                span: text.span(),
+                error: err.to_string(),
+            }),
+        }
+    }
+
     fn canonicalize<'a>(&self, text: Span<Cow<'a, str>>) -> Span<Cow<'a, str>> {
         let strict_whitespace = self.config.options.strict_whitespace;
         text.map(|text| text::canonicalize_horizontal_whitespace(text, strict_whitespace))
-- 
2.43.0


From c3c1b9df719bcb6a96386d6ebd49d8f1a8b54837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:25 +0000
Subject: [PATCH 38/78] fix: ranges give each of their elements once, up to the
 maximum of their type

---
 core/src/range.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/core/src/range.rs b/core/src/range.rs
index 706339c..580636a 100644
--- a/core/src/range.rs
+++ b/core/src/range.rs
@@ -17,7 +17,7 @@ macro_rules! numeric_bound_impl {
     ($type:ty) => {
         impl NumericRangeBound for $type {
             const ZERO: Self = 0;
-            const ONE: Self = 0;
+            const ONE: Self = 1;
 
             #[inline(always)]
             fn saturating_sub(self, rhs: Self) -> Self {
@@ -100,13 +100,12 @@ impl<T: NumericRangeBound> Range<T> {
     /// Shrink the length of this range by one element from the front, returning the first item in the range.
     #[inline]
     pub fn pop_front(&mut self) -> Option<T> {
-        let item = self.start;
-        let next = item + <T as NumericRangeBound>::ONE;
-        if next <= self.end {
-            self.start = next;
-            Some(item)
-        } else {
+        if self.start == self.end {
             None
+        } else {
+            let item = self.start;
+            self.start = item + <T as NumericRangeBound>::ONE;
+            Some(item)
         }
     }
 
@@ -127,7 +126,11 @@ impl<T: NumericRangeBound> Range<T> {
     /// NOTE: This function will saturate to `self.end` to ensure the range remains valid.
     #[inline]
     pub fn shrink_front(&mut self, n: T) {
-        self.start = core::cmp::min(self.start + n, self.end);
+        self.start = if n < self.len() {
+            self.start + n
+        } else {
+            self.end
+        };
     }
 
     /// Truncate this range such that it's length is `new_len`, i.e. `start..(start + new_len)`
@@ -137,7 +140,7 @@ impl<T: NumericRangeBound> Range<T> {
     /// NOTE: This function will panic if `new_len` is greater than the current length
     #[inline]
     pub fn truncate(&mut self, new_len: T) {
-        assert!(self.len() > new_len);
+        assert!(new_len <= self.len());
         self.end = self.start + new_len;
     }
 }
-- 
2.43.0


From 3b70968e9725d4b65a237453c3a899f35f413fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:25 +0000
Subject: [PATCH 39/78] fix: a bound behind the highest offset is refused, not
 wrapped around

---
 core/src/range.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/core/src/range.rs b/core/src/range.rs
index 580636a..b4ecfd7 100644
--- a/core/src/range.rs
+++ b/core/src/range.rs
@@ -223,19 +223,23 @@ pub fn range_from_bounds<R: RangeBounds<usize>>(
     allowed: Range<usize>,
 ) -> Result<Range<usize>, core::ops::Range<usize>> {
     let start = match range.start_bound() {
-        Bound::Included(&i) => i,
-        Bound::Excluded(&i) => i + 1,
-        Bound::Unbounded => allowed.start,
+        Bound::Included(&i) => Some(i),
+        Bound::Excluded(&i) => i.checked_add(1),
+        Bound::Unbounded => Some(allowed.start),
     };
     let end = match range.end_bound() {
-        Bound::Included(&i) => i + 1,
-        Bound::Excluded(&i) => i,
-        Bound::Unbounded => allowed.end,
+        Bound::Included(&i) => i.checked_add(1),
+        Bound::Excluded(&i) => Some(i),
+        Bound::Unbounded => Some(allowed.end),
     };
-    if start > end || start < allowed.start || end > allowed.end {
-        Err(start..end)
-    } else {
-        Ok(Range::new(start, end))
+    match (start, end) {
+        (Some(start), Some(end))
+            if start <= end && start >= allowed.start && end <= allowed.end =>
+        {
+            Ok(Range::new(start, end))
+        }
+        // A bound which cannot be represented is out of any range
+        (start, end) => Err(start.unwrap_or(usize::MAX)..end.unwrap_or(usize::MAX)),
     }
 }
 
@@ -246,11 +250,11 @@ pub fn range_from_bounds_with_defaults<R: RangeBounds<usize>>(
 ) -> Range<usize> {
     let start = match range.start_bound() {
         Bound::Included(&i) => i,
-        Bound::Excluded(&i) => i + 1,
+        Bound::Excluded(&i) => i.checked_add(1).expect("range bound overflow"),
         Bound::Unbounded => default_start,
     };
     let end = match range.end_bound() {
-        Bound::Included(&i) => i + 1,
+        Bound::Included(&i) => i.checked_add(1).expect("range bound overflow"),
         Bound::Excluded(&i) => i,
         Bound::Unbounded => default_end,
     };
-- 
2.43.0


From 14f459041ca554f6cca7a2ad1988eadbf2fef566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:54 +0000
Subject: [PATCH 40/78] fix: columns count characters both ways, and end where
 their line does

---
 core/src/diagnostics/source_file.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/core/src/diagnostics/source_file.rs b/core/src/diagnostics/source_file.rs
index 7eb0585..c68ad7e 100644
--- a/core/src/diagnostics/source_file.rs
+++ b/core/src/diagnostics/source_file.rs
@@ -670,12 +670,14 @@ impl SourceContent {
             .content
             .get(line_span.start.to_usize()..line_span.end.to_usize())
             .expect("invalid line boundaries: invalid utf-8");
-        if line_src.len() < column_index {
-            return None;
-        }
-        let (pre, _) = line_src.split_at(column_index);
-        let start = line_span.start;
-        Some(start + ByteOffset::from_str_len(pre))
+        // Columns count characters. What follows the line ending is part of the next line
+        let line_src = line_src.strip_suffix('\n').unwrap_or(line_src);
+        let offset = line_src
+            .char_indices()
+            .map(|(offset, _)| offset)
+            .chain([line_src.len()])
+            .nth(column_index)?;
+        Some(line_span.start + offset as u32)
     }
 
     /// Get a [FileLineCol] corresponding to the line/column in this file at which `byte_index`
-- 
2.43.0


From 600623113c5a9e641171630614d6b7f5d24dc264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:54 +0000
Subject: [PATCH 41/78] fix: an edit of a selection given end first is done
 rather than panicking

---
 core/src/diagnostics/source_file.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/src/diagnostics/source_file.rs b/core/src/diagnostics/source_file.rs
index c68ad7e..dff59d1 100644
--- a/core/src/diagnostics/source_file.rs
+++ b/core/src/diagnostics/source_file.rs
@@ -713,7 +713,9 @@ impl SourceContent {
         version: i32,
     ) -> Result<(), SourceContentUpdateError> {
         match range {
-            Some(range) => {
+            Some(mut range) => {
+                range.canonicalize();
+
                 let start = self
                     .line_column_to_offset(range.start.line, range.start.character)
                     .ok_or(SourceContentUpdateError::InvalidSelectionStart(range.start))?
-- 
2.43.0


From 49ec6e807118db7c70f4c9085fa1cae9a712669b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:09 +0000
Subject: [PATCH 42/78] fix: spans ending before they start, and offsets out of
 range, are refused

---
 core/src/diagnostics/source_file.rs | 6 ++++--
 core/src/diagnostics/span.rs        | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/core/src/diagnostics/source_file.rs b/core/src/diagnostics/source_file.rs
index dff59d1..3cd1776 100644
--- a/core/src/diagnostics/source_file.rs
+++ b/core/src/diagnostics/source_file.rs
@@ -839,7 +839,8 @@ impl core::ops::Add<ByteOffset> for ByteIndex {
     type Output = ByteIndex;
 
     fn add(self, rhs: ByteOffset) -> Self {
-        Self((self.0 as i64 + rhs.0) as u32)
+        let index = u32::try_from(self.0 as i64 + rhs.0);
+        Self(index.expect("byte index out of range"))
     }
 }
 
@@ -867,7 +868,8 @@ impl core::ops::Sub<ByteOffset> for ByteIndex {
     type Output = ByteIndex;
 
     fn sub(self, rhs: ByteOffset) -> Self {
-        Self((self.0 as i64 - rhs.0) as u32)
+        let index = u32::try_from(self.0 as i64 - rhs.0);
+        Self(index.expect("byte index out of range"))
     }
 }
 
diff --git a/core/src/diagnostics/span.rs b/core/src/diagnostics/span.rs
index b040b32..f535992 100644
--- a/core/src/diagnostics/span.rs
+++ b/core/src/diagnostics/span.rs
@@ -375,7 +375,7 @@ impl SourceSpan {
         range: core::ops::Range<usize>,
     ) -> Result<Self, InvalidByteIndexRange> {
         const MAX: usize = u32::MAX as usize;
-        if range.start > MAX || range.end > MAX {
+        if range.start > range.end || range.end > MAX {
             return Err(InvalidByteIndexRange);
         }
 
-- 
2.43.0


From 6cc32590e4d336f1223a9630d1a2663a22c7f5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:09 +0000
Subject: [PATCH 43/78] fix: the source manager refuses unknown files and
 places out of bounds

---
 core/src/diagnostics/source_manager.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/core/src/diagnostics/source_manager.rs b/core/src/diagnostics/source_manager.rs
index e205456..f34de68 100644
--- a/core/src/diagnostics/source_manager.rs
+++ b/core/src/diagnostics/source_manager.rs
@@ -453,7 +453,10 @@ impl DefaultSourceManagerImpl {
     }
 
     fn file_line_col(&self, span: SourceSpan) -> Result<FileLineCol, SourceManagerError> {
-        self.get(span.source_id()).map(|file| file.location(span))
+        let file = self.get(span.source_id())?;
+        file.content()
+            .location(span.start())
+            .ok_or(SourceManagerError::InvalidBounds)
     }
 
     fn location_to_span(&self, loc: Location) -> Option<SourceSpan> {
@@ -464,7 +467,7 @@ impl DefaultSourceManagerImpl {
             .and_then(|id| self.get(id).ok())?;
 
         let max_len = ByteIndex::from(file.as_str().len() as u32);
-        if loc.start >= max_len || loc.end > max_len {
+        if loc.start > loc.end || loc.end > max_len {
             return None;
         }
 
@@ -472,8 +475,11 @@ impl DefaultSourceManagerImpl {
     }
 
     fn location(&self, span: SourceSpan) -> Result<Location, SourceManagerError> {
-        self.get(span.source_id())
-            .map(|file| Location::new(file.uri().clone(), span.start(), span.end()))
+        let file = self.get(span.source_id())?;
+        if span.end().to_usize() > file.len() {
+            return Err(SourceManagerError::InvalidBounds);
+        }
+        Ok(Location::new(file.uri().clone(), span.start(), span.end()))
     }
 }
 
@@ -498,7 +504,10 @@ impl SourceManager for DefaultSourceManager {
         let mut manager = self.0.write();
         match id.group() {
             SourceGroup::File => {
-                let source_file = &mut manager.files[id.to_index()];
+                let source_file = manager
+                    .files
+                    .get_mut(id.to_index())
+                    .ok_or(SourceManagerError::InvalidSourceId)?;
                 let source_file_cloned = Arc::make_mut(source_file);
                 source_file_cloned
                     .content_mut()
@@ -506,7 +515,10 @@ impl SourceManager for DefaultSourceManager {
                     .map_err(SourceManagerError::InvalidContentUpdate)
             }
             SourceGroup::Argument => {
-                let source_file = &mut manager.arguments[id.to_index()];
+                let source_file = manager
+                    .arguments
+                    .get_mut(id.to_index())
+                    .ok_or(SourceManagerError::InvalidSourceId)?;
                 let source_file_cloned = Arc::make_mut(source_file);
                 source_file_cloned
                     .content_mut()
-- 
2.43.0


From 54b9e6edc41533b610d5a467cd8bba0ea96b568a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:23 +0000
Subject: [PATCH 44/78] fix: the path tree lists directories without children,
 and none of them as files

---
 core/src/fs/path_tree.rs | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/core/src/fs/path_tree.rs b/core/src/fs/path_tree.rs
index 2164926..e7370d5 100644
--- a/core/src/fs/path_tree.rs
+++ b/core/src/fs/path_tree.rs
@@ -1023,25 +1023,23 @@ impl<'a> DfsVisitor<'a> {
                     }
                     let suffix = self.strip_prefix(component);
                     let prefix = self.prefix.join(suffix);
-                    if !children.is_empty() {
-                        match data {
-                            // We have to emit the branch node first, so save the descent
-                            // information for the next time `next` is called
-                            Some(data) => {
-                                self.queued =
-                                    Some((prefix.clone(), relative_depth, children.as_slice()));
-                                break Some(Left((prefix, *data)));
-                            }
-                            // We don't need to emit the branch node, so return a new visitor
-                            // to start descending into the children
-                            None => {
-                                break Some(Right(DfsVisitor::new(
-                                    prefix,
-                                    children.as_slice(),
-                                    relative_depth,
-                                    self.only_leaves,
-                                )));
-                            }
+                    match data {
+                        // We have to emit the branch node first, so save the descent
+                        // information for the next time `next` is called
+                        Some(data) if !self.only_leaves => {
+                            self.queued =
+                                Some((prefix.clone(), relative_depth, children.as_slice()));
+                            break Some(Left((prefix, *data)));
+                        }
+                        // We don't need to emit the branch node, so return a new visitor
+                        // to start descending into the children
+                        _ => {
+                            break Some(Right(DfsVisitor::new(
+                                prefix,
+                                children.as_slice(),
+                                relative_depth,
+                                self.only_leaves,
+                            )));
                         }
                     }
                 }
-- 
2.43.0


From 6bc61e160887b36fe717e16d3ed6d2286127fa7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:23 +0000
Subject: [PATCH 45/78] fix: a span is not shrunk to end before it starts

---
 core/src/diagnostics/span.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/src/diagnostics/span.rs b/core/src/diagnostics/span.rs
index f535992..0e772c8 100644
--- a/core/src/diagnostics/span.rs
+++ b/core/src/diagnostics/span.rs
@@ -199,7 +199,9 @@ impl<T> Span<T> {
     /// Extends the end of the span by `count` units.
     #[inline]
     pub fn extend(&mut self, count: ByteOffset) {
-        self.span.end += count;
+        let end = self.span.end + count;
+        assert!(self.span.start <= end, "a span cannot end before it starts");
+        self.span.end = end;
     }
 
     /// Consumes this span, returning the component parts, i.e. the [SourceSpan] and value of type
-- 
2.43.0


From 493a25280d3cb533549df92c74a67036c6bf09c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:41 +0000
Subject: [PATCH 46/78] fix: inserting a path above others, or a second time,
 is no conflict of types

---
 core/src/fs/path_tree.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/src/fs/path_tree.rs b/core/src/fs/path_tree.rs
index e7370d5..35ac852 100644
--- a/core/src/fs/path_tree.rs
+++ b/core/src/fs/path_tree.rs
@@ -767,8 +767,8 @@ impl Node {
                 }
             },
             Self::Branch { .. } => match ty {
-                PathType::Dir => (),
-                PathType::Unknown | PathType::File => return Err(TryInsertError::PathTypeConflict),
+                PathType::Dir | PathType::Unknown => (),
+                PathType::File => return Err(TryInsertError::PathTypeConflict),
             },
         }
 
@@ -932,6 +932,10 @@ fn insert_into_prefix(
                         }
                     }
                 }
+                // `path` has descendants, so it can be anything but a file
+                Prefix::Ancestor if ty == PathType::File => {
+                    break Err(TryInsertError::PathTypeConflict);
+                }
                 Prefix::Ancestor => {
                     node.split_at(path.to_path_buf());
                     node.set_data(data);
-- 
2.43.0


From ae3bb33e81053df3127e7b0e779ca2f3fd62b885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:42 +0000
Subject: [PATCH 47/78] fix: the nearest ancestor of a path can be one that
 nothing is stored below

---
 core/src/fs/path_tree.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/core/src/fs/path_tree.rs b/core/src/fs/path_tree.rs
index 35ac852..ee1c1d3 100644
--- a/core/src/fs/path_tree.rs
+++ b/core/src/fs/path_tree.rs
@@ -700,9 +700,20 @@ impl Node {
                         return candidates.pop();
                     }
                 }
-                // Leaf nodes by definition cannot be the nearest ancestor, so use
-                // the most recent candidate, if we have one
-                Self::Leaf { .. } => return candidates.pop(),
+                // A leaf node has no descendants in the tree, but is the nearest
+                // ancestor of a path not in the tree which would be one. Otherwise,
+                // use the most recent candidate, if we have one
+                Self::Leaf {
+                    component, data, ..
+                } => match path.strip_prefix(component) {
+                    Ok(rest) if rest != Path::new("") => {
+                        ancestor.push(component);
+                        return data
+                            .map(|data| (ancestor, data))
+                            .or_else(|| candidates.pop());
+                    }
+                    _ => return candidates.pop(),
+                },
             }
         }
 
-- 
2.43.0


From 45d8c8e238df77c109c82480a546c14425103e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:42 +0000
Subject: [PATCH 48/78] fix: a relative path of one component is a root of its
 own

---
 core/src/fs/path_tree.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/core/src/fs/path_tree.rs b/core/src/fs/path_tree.rs
index ee1c1d3..a5006d6 100644
--- a/core/src/fs/path_tree.rs
+++ b/core/src/fs/path_tree.rs
@@ -286,10 +286,14 @@ impl PrefixTree {
                     data: Some(data),
                 };
                 path.pop();
-                Node::Branch {
-                    component: path,
-                    children: vec![child],
-                    data: None,
+                if path == Path::new("") {
+                    child
+                } else {
+                    Node::Branch {
+                        component: path,
+                        children: vec![child],
+                        data: None,
+                    }
                 }
             }
         };
-- 
2.43.0


From 68aace843564fb7c1c8e9b74ee36dd41ffc08c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:42 +0000
Subject: [PATCH 49/78] fix: the parent of the root directory is the root
 directory

---
 core/src/fs/path_tree.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/fs/path_tree.rs b/core/src/fs/path_tree.rs
index a5006d6..ad468d0 100644
--- a/core/src/fs/path_tree.rs
+++ b/core/src/fs/path_tree.rs
@@ -392,6 +392,9 @@ fn canonicalize_and_type<'a>(path: &'a Path) -> (Cow<'a, Path>, PathType) {
                     size_in_bytes += component.as_os_str().len() + PATH_SEPARATOR_SIZE;
                     components.push(component);
                 }
+                Some(Component::RootDir) => {
+                    canonical = false;
+                }
                 Some(_) => {
                     canonical = false;
                     let component = unsafe { components.pop().unwrap_unchecked() };
-- 
2.43.0


From c7d08aa46db38a682756d1a158e1eba5feafb50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:42 +0000
Subject: [PATCH 50/78] fix: descendants are those of the canonical path, and
 their depth counts from there

---
 core/src/fs/path_tree.rs | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/core/src/fs/path_tree.rs b/core/src/fs/path_tree.rs
index ad468d0..bfc941d 100644
--- a/core/src/fs/path_tree.rs
+++ b/core/src/fs/path_tree.rs
@@ -1023,8 +1023,7 @@ impl<'a> DfsVisitor<'a> {
                     if self.exceeds_max_depth(component, max_depth) {
                         continue;
                     }
-                    let suffix = self.strip_prefix(component);
-                    let prefix = self.prefix.join(suffix);
+                    let prefix = self.join_prefix(component);
                     break Some(Left((prefix, *data)));
                 }
                 (
@@ -1043,8 +1042,7 @@ impl<'a> DfsVisitor<'a> {
                     {
                         continue;
                     }
-                    let suffix = self.strip_prefix(component);
-                    let prefix = self.prefix.join(suffix);
+                    let prefix = self.join_prefix(component);
                     match data {
                         // We have to emit the branch node first, so save the descent
                         // information for the next time `next` is called
@@ -1091,6 +1089,15 @@ impl<'a> DfsVisitor<'a> {
         }
     }
 
+    fn join_prefix(&self, path: &Path) -> PathBuf {
+        let suffix = self.strip_prefix(path);
+        if suffix == Path::new("") {
+            self.prefix.clone()
+        } else {
+            self.prefix.join(suffix)
+        }
+    }
+
     #[inline]
     fn strip_prefix<'p>(&self, path: &'p Path) -> &'p Path {
         if self.component_prefix == Path::new("") {
@@ -1131,6 +1138,9 @@ impl<'a, V> Dfs<'a, V> {
         only_leaves: bool,
         max_depth: Option<usize>,
     ) -> Self {
+        let (path, _) = canonicalize_and_type(path);
+        let path = path.as_ref();
+
         // Traverse tree until we find our initial working set
         match tree
             .tree
@@ -1152,12 +1162,15 @@ impl<'a, V> Dfs<'a, V> {
                             break Self {
                                 data: tree.data.as_slice(),
                                 stack: vec![],
-                                current: DfsVisitor::new(
-                                    prefix,
-                                    core::slice::from_ref(node),
-                                    0,
-                                    only_leaves,
-                                ),
+                                current: DfsVisitor {
+                                    component_prefix: PathBuf::from(input_path),
+                                    ..DfsVisitor::new(
+                                        prefix.join(input_path),
+                                        core::slice::from_ref(node),
+                                        0,
+                                        only_leaves,
+                                    )
+                                },
                                 max_depth,
                             };
                         }
-- 
2.43.0


From ee4543db78024b353fae74cd5be1192a35b3b86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:04 +0000
Subject: [PATCH 51/78] fix: a NUL character does not end a feature expression

---
 lit/src/config/expr/boolean.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lit/src/config/expr/boolean.rs b/lit/src/config/expr/boolean.rs
index 510f651..e55c9c3 100644
--- a/lit/src/config/expr/boolean.rs
+++ b/lit/src/config/expr/boolean.rs
@@ -562,7 +562,7 @@ impl<'a> Tokenizer<'a> {
     fn advance(&mut self) {
         let (pos, c) = self.read();
 
-        if c == '\0' {
+        if c == '\0' && pos >= self.input.len() {
             self.eof = true;
             return;
         }
@@ -717,7 +717,7 @@ impl<'a> Tokenizer<'a> {
                     }),
                 }
             }
-            '\0' => Ok(Token::Eof),
+            '\0' if pos >= self.input.len() => Ok(Token::Eof),
             c => Err(InvalidBooleanExprError::UnexpectedChar {
                 span: SourceSpan::at(self.source_id, pos as u32),
                 c,
-- 
2.43.0


From 0edf57a65fa2e82a45651ad2a345d9d8239f07ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:22 +0000
Subject: [PATCH 52/78] fix: a pattern in a feature expression begins with two
 braces

---
 lit/src/config/expr/boolean.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lit/src/config/expr/boolean.rs b/lit/src/config/expr/boolean.rs
index e55c9c3..23fa10e 100644
--- a/lit/src/config/expr/boolean.rs
+++ b/lit/src/config/expr/boolean.rs
@@ -683,7 +683,8 @@ impl<'a> Tokenizer<'a> {
                 Ok(Token::Ident(self.slice()))
             }
             '{' => {
-                if self.peek() == '{' {
+                let is_pattern = self.peek() == '{';
+                if is_pattern {
                     self.skip();
                     self.skip();
                 }
@@ -693,7 +694,7 @@ impl<'a> Tokenizer<'a> {
                 let next = self.peek();
                 match self.read() {
                     // Can only happen if there is nothing in the braces
-                    (_, '}') if next == '}' => {
+                    (_, '}') if is_pattern && next == '}' => {
                         self.pop();
                         self.pop();
                         let pattern = self.span_slice(start..end);
-- 
2.43.0


From 72fc62297c28206cb415be9d3afe6f867c3ba68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:00 +0000
Subject: [PATCH 53/78] fix: the substitutions of a test are applied literally,
 once, and may refer to others

---
 lit/src/config/substitutions.rs         | 109 +++++++++++++++++-------
 lit/src/formats/sh/script/directives.rs |   4 +-
 2 files changed, 78 insertions(+), 35 deletions(-)

diff --git a/lit/src/config/substitutions.rs b/lit/src/config/substitutions.rs
index 5140d09..3caab7f 100644
--- a/lit/src/config/substitutions.rs
+++ b/lit/src/config/substitutions.rs
@@ -22,18 +22,24 @@ pub struct InvalidSubstitutionPatternError {
 pub struct ScopedSubstitutionSet<'a> {
     parent: &'a SubstitutionSet,
     set: SubstitutionSet,
+    /// Those defined by the test itself, in order of definition.
+    ///
+    /// These are applied first, latest definition first, so that their values may refer to any
+    /// of the other substitutions in scope.
+    defined: SubstitutionSet,
 }
 impl<'scope> ScopedSubstitutionSet<'scope> {
     pub fn new(parent: &'scope SubstitutionSet) -> Self {
         Self {
             parent,
             set: SubstitutionSet::default(),
+            defined: SubstitutionSet::default(),
         }
     }
 
     #[allow(unused)]
     pub fn is_empty(&self) -> bool {
-        self.set.is_empty() && self.parent.is_empty()
+        self.defined.is_empty() && self.set.is_empty() && self.parent.is_empty()
     }
 
     #[allow(unused)]
@@ -42,7 +48,10 @@ impl<'scope> ScopedSubstitutionSet<'scope> {
         StaticCow<str>: Borrow<Q>,
         Q: Hash + Eq + ?Sized,
     {
-        self.set.get(pattern).or_else(|| self.parent.get(pattern))
+        self.defined
+            .get(pattern)
+            .or_else(|| self.set.get(pattern))
+            .or_else(|| self.parent.get(pattern))
     }
 
     pub fn contains<Q>(&self, pattern: &Q) -> bool
@@ -50,15 +59,22 @@ impl<'scope> ScopedSubstitutionSet<'scope> {
         StaticCow<str>: Borrow<Q>,
         Q: Hash + Eq + ?Sized,
     {
-        self.set.contains(pattern) || self.parent.contains(pattern)
+        self.defined.contains(pattern)
+            || self.set.contains(pattern)
+            || self.parent.contains(pattern)
     }
 
     #[inline]
     pub fn iter(&self) -> impl Iterator<Item = (&StaticCow<str>, &StaticCow<str>)> + '_ {
+        self.substitutions()
+    }
+
+    fn substitutions(&self) -> SubstitutionsIter<'_> {
         SubstitutionsIter {
-            set: &self.set,
-            iter: self.parent.iter(),
-            filter: true,
+            scope: self,
+            defined: self.defined.iter().rev(),
+            parent: self.parent.iter(),
+            set: self.set.iter(),
         }
     }
 
@@ -73,11 +89,7 @@ impl<'scope> ScopedSubstitutionSet<'scope> {
             (true, false) => Matches::Exact(pattern),
             (true, true) => Matches::Fuzzy {
                 exact: pattern,
-                keys: SubstitutionsIter {
-                    set: &self.set,
-                    iter: self.parent.iter(),
-                    filter: true,
-                },
+                keys: self.substitutions(),
             },
         }
     }
@@ -103,6 +115,17 @@ impl<'scope> ScopedSubstitutionSet<'scope> {
             .insert(StaticCow::from(pattern), StaticCow::from(replacement));
     }
 
+    /// Define `pattern` for the test itself, or replace its value if it is already in scope.
+    pub fn define(&mut self, pattern: String, replacement: String) {
+        let is_inherited =
+            self.set.contains(pattern.as_str()) || self.parent.contains(pattern.as_str());
+        if is_inherited {
+            self.set.insert(pattern, replacement);
+        } else {
+            self.defined.insert(pattern, replacement);
+        }
+    }
+
     pub fn apply<'a>(
         &self,
         input: Span<&'a str>,
@@ -124,13 +147,25 @@ impl<'scope> ScopedSubstitutionSet<'scope> {
                     needs_escaping = false;
                 }
             }
-            let re =
-                regex::Regex::new(pattern).map_err(|error| InvalidSubstitutionPatternError {
-                    span,
-                    error,
-                    pattern: pattern.clone().into_owned(),
-                })?;
-            if let Cow::Owned(replaced) = re.replace_all(&buffer, replacement) {
+            // A name in braces stands for itself, it is not a (malformed) repetition
+            let re = if is_braced_name(pattern) {
+                regex::Regex::new(&regex::escape(pattern))
+            } else {
+                regex::Regex::new(pattern)
+            };
+            let re = re.map_err(|error| InvalidSubstitutionPatternError {
+                span,
+                error,
+                pattern: pattern.clone().into_owned(),
+            })?;
+            // References to groups are only meaningful if the pattern has any, otherwise the
+            // replacement is plain text, e.g. a command which refers to a shell variable
+            let replaced = if re.captures_len() > 1 {
+                re.replace_all(&buffer, replacement.as_ref())
+            } else {
+                re.replace_all(&buffer, regex::NoExpand(replacement))
+            };
+            if let Cow::Owned(replaced) = replaced {
                 buffer = Cow::Owned(replaced);
                 needs_escaping = true;
             }
@@ -147,28 +182,36 @@ impl<'scope> ScopedSubstitutionSet<'scope> {
     }
 }
 
+/// Returns true if `pattern` has the form required of names in DEFINE directives
+pub fn is_braced_name(pattern: &str) -> bool {
+    thread_local! {
+        static BRACED_NAME_RE: regex::Regex = regex::Regex::new(r"^%\{[_a-zA-Z][-_:0-9a-zA-Z]*\}$").unwrap();
+    }
+
+    BRACED_NAME_RE.with(|re| re.is_match(pattern))
+}
+
+/// Visits each substitution in scope once, in the order in which they are applied
 pub struct SubstitutionsIter<'a> {
-    set: &'a SubstitutionSet,
-    iter: indexmap::map::Iter<'a, StaticCow<str>, StaticCow<str>>,
-    filter: bool,
+    scope: &'a ScopedSubstitutionSet<'a>,
+    defined: std::iter::Rev<indexmap::map::Iter<'a, StaticCow<str>, StaticCow<str>>>,
+    parent: indexmap::map::Iter<'a, StaticCow<str>, StaticCow<str>>,
+    set: indexmap::map::Iter<'a, StaticCow<str>, StaticCow<str>>,
 }
 impl<'a> Iterator for SubstitutionsIter<'a> {
     type Item = (&'a StaticCow<str>, &'a StaticCow<str>);
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.filter {
-            let result = self
-                .iter
-                .next()
-                .and_then(|item @ (k, _)| self.set.get(k).map(|v| (k, v)).or(Some(item)));
-            if result.is_none() {
-                self.iter = self.set.iter();
-                self.filter = false;
-            } else {
-                return result;
-            }
+        if let Some(item) = self.defined.next() {
+            return Some(item);
+        }
+        if let Some((k, v)) = self.parent.next() {
+            return Some((k, self.scope.set.get(k).unwrap_or(v)));
         }
-        self.iter.next()
+        // Overrides of the parent were visited in its place
+        self.set
+            .by_ref()
+            .find(|(k, _)| !self.scope.parent.contains(*k))
     }
 }
 
diff --git a/lit/src/formats/sh/script/directives.rs b/lit/src/formats/sh/script/directives.rs
index 27dbe61..ae0313f 100644
--- a/lit/src/formats/sh/script/directives.rs
+++ b/lit/src/formats/sh/script/directives.rs
@@ -246,7 +246,7 @@ impl Substitution {
 
         match substitutions.find_matching(&self.key) {
             Matches::Empty if !self.replace => {
-                substitutions.insert(self.key.clone(), self.value.clone());
+                substitutions.define(self.key.clone(), self.value.clone());
                 Ok(())
             }
             Matches::Empty => Err(InvalidSubstitutionError::NotDefined {
@@ -254,7 +254,7 @@ impl Substitution {
                 key: self.key.clone(),
             }),
             Matches::Exact(_) if self.replace => {
-                substitutions.insert(self.key.clone(), self.value.clone());
+                substitutions.define(self.key.clone(), self.value.clone());
                 Ok(())
             }
             Matches::Exact(_) => Err(InvalidSubstitutionError::AlreadyExists {
-- 
2.43.0


From b8e945ca72fdb630d58f8461ef1df4fc0de547e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:00 +0000
Subject: [PATCH 54/78] fix: the last line of a test counts even if no newline
 ends it

---
 lit/src/formats/sh/script/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lit/src/formats/sh/script/parser.rs b/lit/src/formats/sh/script/parser.rs
index 3f09d8a..b0579ee 100644
--- a/lit/src/formats/sh/script/parser.rs
+++ b/lit/src/formats/sh/script/parser.rs
@@ -398,7 +398,7 @@ impl<'a> Iterator for Lines<'a> {
             .strip_suffix('\n')
             .map(|line| (1, line))
             .unwrap_or((0, line));
-        self.current_line += stripped;
+        self.current_line += 1;
         let (stripped, line) = line
             .strip_suffix('\r')
             .map(|line| (stripped + 1, line))
-- 
2.43.0


From b71f0045184c86f1b952e2c547f836f659faf851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:05 +0000
Subject: [PATCH 55/78] fix: a test which cannot be run is unresolved, and does
 not end the run

---
 lit/src/formats/sh/engine.rs | 10 ++++++----
 lit/src/formats/sh/mod.rs    | 25 +++++++++++++++++--------
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/lit/src/formats/sh/engine.rs b/lit/src/formats/sh/engine.rs
index 6728e6d..28a6094 100644
--- a/lit/src/formats/sh/engine.rs
+++ b/lit/src/formats/sh/engine.rs
@@ -44,7 +44,7 @@ fn run_once(
     lit: &Config,
     config: &ShTest,
 ) -> DiagResult<TestResult> {
-    let script_bytes = write_script(script, config.pipefail);
+    let script_bytes = write_script(script, config.pipefail)?;
     let mut command = crate::utils::ShellCommand::new(config.shell());
     command
         .current_dir(test.suite.working_dir())
@@ -60,7 +60,7 @@ fn run_once(
     ))
 }
 
-fn write_script(script: &TestScript, pipefail: bool) -> Vec<u8> {
+fn write_script(script: &TestScript, pipefail: bool) -> DiagResult<Vec<u8>> {
     use std::fmt::Write;
 
     let mut buf = String::with_capacity(1024);
@@ -81,7 +81,9 @@ fn write_script(script: &TestScript, pipefail: bool) -> Vec<u8> {
             buf.push_str(" && ");
         }
         buf.push_str("{\n  ");
-        let quoted = shlex::try_quote(&test.command).expect("bad shell command");
+        let quoted = shlex::try_quote(&test.command)
+            .into_diagnostic()
+            .wrap_err("bad shell command")?;
         buf.push_str("{ set +x; } 2>/dev/null && ");
         write!(
             &mut buf,
@@ -96,5 +98,5 @@ fn write_script(script: &TestScript, pipefail: bool) -> Vec<u8> {
     }
     buf.push('\n');
     log::trace!(target: "lit:shtest", "generated shell script:\n{buf}");
-    buf.into_bytes()
+    Ok(buf.into_bytes())
 }
diff --git a/lit/src/formats/sh/mod.rs b/lit/src/formats/sh/mod.rs
index ef80b00..caae5bb 100644
--- a/lit/src/formats/sh/mod.rs
+++ b/lit/src/formats/sh/mod.rs
@@ -62,6 +62,16 @@ impl TestFormat for ShTest {
     }
 
     fn execute(&self, test: &Test, config: &Config) -> DiagResult<TestResult> {
+        // A test which cannot be run, e.g. because it cannot be read, or because it uses an
+        // invalid substitution, has no bearing on the other tests
+        Ok(self.try_execute(test, config).unwrap_or_else(|err| {
+            let buf = format!("{}", PrintDiagnostic::new(err));
+            TestResult::new(TestStatus::Unresolved).with_stderr(buf.into_bytes())
+        }))
+    }
+}
+impl ShTest {
+    fn try_execute(&self, test: &Test, config: &Config) -> DiagResult<TestResult> {
         let script_source = Input::from(test.source_path())
             .into_source(false, config.source_manager())
             .into_diagnostic()
@@ -99,17 +109,16 @@ impl TestFormat for ShTest {
         let test_dir = test.path.parent().unwrap_or_else(|| Path::new(""));
         // Generate a temporary directory for this test, relative to the suite working directory
         let test_temp_dir = test.suite.working_dir().join(test_dir);
-        let test_name = test_filename.to_str().unwrap();
+        let test_name = test_filename.to_string_lossy();
         let temp = std::fs::create_dir_all(&test_temp_dir)
-            .and_then(|_| tempdir::TempDir::new_in(&test_temp_dir, test_name))
-            .expect("failed to create temporary directory");
+            .and_then(|_| tempdir::TempDir::new_in(&test_temp_dir, &test_name))
+            .into_diagnostic()
+            .wrap_err("failed to create temporary directory")?;
         // Generate a temporary filename for this test, by appending .tmp to the source filename
         let temp_dir = temp.path();
-        let base_temp_file = temp_dir.join(test_filename);
-        let temp_file = base_temp_file.with_extension(format!(
-            "{}.tmp",
-            base_temp_file.extension().unwrap().to_str().unwrap()
-        ));
+        let mut temp_filename = test_filename.to_os_string();
+        temp_filename.push(".tmp");
+        let temp_file = temp_dir.join(temp_filename);
 
         // Construct substitutions
         let mut substitutions = ScopedSubstitutionSet::new(&test.config.substitutions);
-- 
2.43.0


From 07c81249ec09cf9a5a232189f16552bb05047dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:05 +0000
Subject: [PATCH 56/78] fix: a test whose error ends the run is accounted for

---
 litcheck/src/commands/lit.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/litcheck/src/commands/lit.rs b/litcheck/src/commands/lit.rs
index 69e1035..56d5cda 100644
--- a/litcheck/src/commands/lit.rs
+++ b/litcheck/src/commands/lit.rs
@@ -385,7 +385,15 @@ impl TestRunner {
     pub fn run(&mut self, test: Arc<Test>, config: &Config) -> DiagResult<()> {
         self.progress.set_message(test.name().to_string());
 
-        let result = test.suite.config.format.execute(&test, config)?;
+        let result = match test.suite.config.format.execute(&test, config) {
+            Ok(result) => result,
+            Err(err) => {
+                // The run is aborted, but this test must still be accounted for
+                let result = TestResult::new(TestStatus::Unresolved);
+                self.report(test, result)?;
+                return Err(err);
+            }
+        };
         if result.is_failure() {
             self.progress.suspend(|| {
                 println!(
-- 
2.43.0


From d91a8bd4d8d0696891a67e2f3a35a4082217658f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:19 +0000
Subject: [PATCH 57/78] fix: a test that exceeds its time limit is stopped, and
 executables run

---
 lit/src/utils.rs | 199 +++++++++++++++++++++++++++++++----------------
 1 file changed, 134 insertions(+), 65 deletions(-)

diff --git a/lit/src/utils.rs b/lit/src/utils.rs
index 95cb573..e493990 100644
--- a/lit/src/utils.rs
+++ b/lit/src/utils.rs
@@ -2,9 +2,11 @@ use std::borrow::Cow;
 use std::ffi::OsStr;
 use std::io::Write;
 use std::path::Path;
+use std::sync::Arc;
 use std::time::{Duration, Instant};
 
 use litcheck::diagnostics::{DiagResult, IntoDiagnostic};
+use parking_lot::Mutex;
 
 use super::{TestResult, TestStatus};
 
@@ -67,59 +69,40 @@ impl ShellCommand {
         self.command
             .stdout(std::process::Stdio::piped())
             .stderr(std::process::Stdio::piped());
+        if self.pipe_stdin.is_none() {
+            self.command.stdin(std::process::Stdio::null());
+        }
+        // Whatever the test starts has to be stopped with it, so we keep it all in one group
+        #[cfg(unix)]
+        if !timeout.is_zero() {
+            use std::os::unix::process::CommandExt;
+            self.command.process_group(0);
+        }
         let started_at = Instant::now();
         match self.command.spawn() {
             Ok(mut child) => {
-                let pipe_stdin = self.pipe_stdin.take();
-                let mut stdin = child.stdin.take().unwrap();
-                let _ = std::thread::scope(move |scope| {
-                    scope
-                        .spawn(move || {
-                            if let Some(bytes) = pipe_stdin {
-                                stdin.write_all(&bytes)
-                            } else {
-                                Ok(())
-                            }
-                        })
-                        .join()
-                });
-                let stdout_handle = child.stdout.take().map(read);
-                let stderr_handle = child.stderr.take().map(read);
+                // The input is written while the output is being read, as the child may do
+                // either first
+                if let Some((mut stdin, bytes)) = child.stdin.take().zip(self.pipe_stdin.take()) {
+                    std::thread::spawn(move || stdin.write_all(&bytes));
+                }
+                let mut output = ChildOutput::new(&mut child);
 
+                let mut exited = None;
                 loop {
-                    match child.try_wait() {
-                        Ok(None) => {
-                            let elapsed = started_at.elapsed();
-                            if timeout.is_zero() || elapsed < timeout {
-                                continue;
-                            }
-                            let stdout = stdout_handle
-                                .and_then(|t| t.join().ok())
-                                .unwrap_or_default();
-                            let stderr = stderr_handle
-                                .and_then(|t| t.join().ok())
-                                .unwrap_or_default();
-                            let _ = child.kill();
-                            let status = child.try_wait().transpose();
-                            let result = TestResult::new(TestStatus::Timeout)
-                                .with_stdout(stdout)
-                                .with_stderr(stderr)
-                                .with_start(started_at)
-                                .with_elapsed(elapsed);
-                            if let Some(Ok(status)) = status {
-                                break result.with_exit_status(status);
-                            } else {
-                                break result;
+                    let waited = match exited {
+                        Some(status) => Ok(Some(status)),
+                        None => child.try_wait(),
+                    };
+                    let elapsed = started_at.elapsed();
+                    let is_expired = !timeout.is_zero() && elapsed >= timeout;
+                    match waited {
+                        // Once the child has exited, wait for all of its output
+                        Ok(Some(status)) if is_expired || output.is_complete() => {
+                            if is_expired {
+                                kill(&mut child, timeout);
                             }
-                        }
-                        Ok(Some(status)) => {
-                            let elapsed = started_at.elapsed();
-                            let stdout = stdout_handle
-                                .and_then(|t| t.join().ok())
-                                .unwrap_or_default();
-                            let stderr = stderr_handle
-                                .and_then(|t| t.join().ok())
-                                .unwrap_or_default();
+                            let (stdout, stderr) = output.take();
                             break TestResult::from(std::process::Output {
                                 status,
                                 stdout,
@@ -128,19 +111,34 @@ impl ShellCommand {
                             .with_start(started_at)
                             .with_elapsed(elapsed);
                         }
+                        Ok(None) if is_expired => {
+                            kill(&mut child, timeout);
+                            let status = child.wait();
+                            let (stdout, stderr) = output.take();
+                            let result = TestResult::new(TestStatus::Timeout)
+                                .with_stdout(stdout)
+                                .with_stderr(stderr)
+                                .with_start(started_at)
+                                .with_elapsed(elapsed);
+                            break match status {
+                                Ok(status) => result.with_exit_status(status),
+                                Err(_) => result,
+                            };
+                        }
+                        Ok(status) => {
+                            exited = status;
+                            std::thread::sleep(Duration::from_millis(1));
+                        }
                         Err(wait_err) => {
-                            let elapsed = started_at.elapsed();
-                            let stdout = stdout_handle
-                                .and_then(|t| t.join().ok())
-                                .unwrap_or_default();
-                            let mut stderr = stderr_handle
-                                .and_then(|t| t.join().ok())
-                                .unwrap_or_default();
-                            if stderr.is_empty() {
-                                write!(&mut stderr, "Unexpected error occurred waiting on child process: {wait_err}").unwrap();
-                            } else {
-                                write!(&mut stderr, "\n\nUnexpected error occurred waiting on child process: {wait_err}").unwrap();
+                            let (stdout, mut stderr) = output.take();
+                            if !stderr.is_empty() {
+                                stderr.extend_from_slice(b"\n\n");
                             }
+                            write!(
+                                &mut stderr,
+                                "Unexpected error occurred waiting on child process: {wait_err}"
+                            )
+                            .unwrap();
                             break TestResult::new(TestStatus::Unresolved)
                                 .with_start(started_at)
                                 .with_elapsed(elapsed)
@@ -161,12 +159,83 @@ impl ShellCommand {
     }
 }
 
-fn read<R: std::io::Read + Send + 'static>(mut input: R) -> std::thread::JoinHandle<Vec<u8>> {
-    std::thread::spawn(move || {
-        let mut buffer = vec![];
-        match input.read_to_end(&mut buffer) {
-            Ok(_) => buffer,
-            Err(_) => buffer,
+/// Kill `child`, and everything it started if it is subject to a timeout
+fn kill(child: &mut std::process::Child, timeout: Duration) {
+    #[cfg(unix)]
+    if !timeout.is_zero() {
+        const SIGKILL: i32 = 9;
+
+        extern "C" {
+            fn kill(pid: i32, signal: i32) -> i32;
         }
-    })
+
+        // SAFETY: `kill` has no preconditions, and the group is that of `child`
+        unsafe {
+            kill(-(child.id() as i32), SIGKILL);
+        }
+    }
+    let _ = (child.kill(), timeout);
+}
+
+/// The output of a child process, collected as it is produced
+struct ChildOutput {
+    stdout: Reader,
+    stderr: Reader,
+}
+impl ChildOutput {
+    fn new(child: &mut std::process::Child) -> Self {
+        Self {
+            stdout: Reader::new(child.stdout.take()),
+            stderr: Reader::new(child.stderr.take()),
+        }
+    }
+
+    fn is_complete(&self) -> bool {
+        self.stdout.is_complete() && self.stderr.is_complete()
+    }
+
+    /// Get all of the output so far
+    ///
+    /// The end of the output is not necessarily reached when the child is killed, as a process
+    /// which left its group may hold on to it, so we give up on the rest after some time.
+    fn take(&mut self) -> (Vec<u8>, Vec<u8>) {
+        let started_at = Instant::now();
+        while !self.is_complete() && started_at.elapsed() < Duration::from_secs(1) {
+            std::thread::sleep(Duration::from_millis(1));
+        }
+        (self.stdout.take(), self.stderr.take())
+    }
+}
+
+struct Reader {
+    buffer: Arc<Mutex<Vec<u8>>>,
+    thread: Option<std::thread::JoinHandle<()>>,
+}
+impl Reader {
+    fn new<R: std::io::Read + Send + 'static>(input: Option<R>) -> Self {
+        let buffer = Arc::<Mutex<Vec<u8>>>::default();
+        let thread = input.map(|mut input| {
+            let buffer = buffer.clone();
+            std::thread::spawn(move || {
+                let mut chunk = [0; 8192];
+                loop {
+                    match input.read(&mut chunk) {
+                        Ok(0) => break,
+                        Ok(len) => buffer.lock().extend_from_slice(&chunk[..len]),
+                        Err(err) if err.kind() == std::io::ErrorKind::Interrupted => continue,
+                        Err(_) => break,
+                    }
+                }
+            })
+        });
+        Self { buffer, thread }
+    }
+
+    fn is_complete(&self) -> bool {
+        self.thread.as_ref().is_none_or(|t| t.is_finished())
+    }
+
+    fn take(&self) -> Vec<u8> {
+        core::mem::take(&mut *self.buffer.lock())
+    }
 }
-- 
2.43.0


From b4885015db0e4def80b821ae00c549faad5d5a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:19 +0000
Subject: [PATCH 58/78] fix: a test is run in the format of its own
 configuration

---
 litcheck/src/commands/lit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/litcheck/src/commands/lit.rs b/litcheck/src/commands/lit.rs
index 56d5cda..4ea70ec 100644
--- a/litcheck/src/commands/lit.rs
+++ b/litcheck/src/commands/lit.rs
@@ -385,7 +385,7 @@ impl TestRunner {
     pub fn run(&mut self, test: Arc<Test>, config: &Config) -> DiagResult<()> {
         self.progress.set_message(test.name().to_string());
 
-        let result = match test.suite.config.format.execute(&test, config) {
+        let result = match test.config.format.execute(&test, config) {
             Ok(result) => result,
             Err(err) => {
                 // The run is aborted, but this test must still be accounted for
-- 
2.43.0


From babbaafccd061354ea04e3a2c273439956b36245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:01 +0000
Subject: [PATCH 59/78] fix: discovery finds the tests of every given path
 once, under their own names and settings

---
 lit/src/suite/registry/default.rs | 251 +++++++++++++-----------------
 1 file changed, 106 insertions(+), 145 deletions(-)

diff --git a/lit/src/suite/registry/default.rs b/lit/src/suite/registry/default.rs
index 3a82aab..44d551c 100644
--- a/lit/src/suite/registry/default.rs
+++ b/lit/src/suite/registry/default.rs
@@ -1,4 +1,8 @@
-use std::{collections::BTreeMap, path::Path, sync::Arc};
+use std::{
+    collections::{BTreeMap, BTreeSet},
+    path::{Path, PathBuf},
+    sync::Arc,
+};
 
 use litcheck::{
     diagnostics::{DiagResult, IntoDiagnostic, Report, WrapErr},
@@ -47,53 +51,72 @@ impl DefaultTestSuiteRegistry {
         }
 
         // If we have no specific selections, select everything
-        let search_paths = {
-            let mut lock = suite.search_paths();
-            core::mem::take(&mut *lock)
-        };
+        let mut search_paths = suite.search_paths().clone();
         if search_paths.is_empty() {
             log::debug!(
                 target: "lit:suite:registry",
                 "no search paths given, searching entire suite source directory for tests"
             );
-            let found = suite
-                .config
-                .format
-                .registry()
-                .all(suite.clone(), config, self)?;
-            log::debug!(target: "lit:suite:registry", "found {} tests", found.len());
+            search_paths.insert(PathBuf::new());
+        }
+
+        // The search paths may overlap, so gather the files we find first. Each is identified
+        // by its path relative to the source directory, no matter which search path led to it.
+        let source_dir = suite.source_dir();
+        let mut files = BTreeSet::default();
+        let mut nested = BTreeSet::default();
+        for path in search_paths.iter() {
+            log::debug!(target: "lit:suite:registry", "searching {} for tests..", path.display());
+            let search_path = source_dir.join(path);
+            if !search_path.is_dir() {
+                files.insert(path.clone());
+                continue;
+            }
+            let searcher = fs::Searcher::new(&search_path, true, |entry| {
+                let path = entry.path();
+                // Do not recurse into directories which contain a `lit.suite.toml`
+                let is_nested = entry.file_type().is_dir()
+                    && path != search_path
+                    && path != source_dir
+                    && path.join("lit.suite.toml").exists();
+                if is_nested {
+                    nested.insert(path.to_path_buf());
+                }
+                !is_nested
+            });
+            for entry in searcher {
+                let entry = entry.into_diagnostic()?;
+                let path_in_suite = entry
+                    .path()
+                    .strip_prefix(source_dir)
+                    .expect("expected path relative to source directory");
+                files.insert(path_in_suite.to_path_buf());
+            }
+        }
+
+        self.local_config_cache.clear();
+        for path in files {
+            // Look for local configuration that applies to this file,
+            // using the suite config if no local config is present
+            let local_config =
+                get_local_config(&suite, &path, config, &mut self.local_config_cache)?;
+            let found = local_config.format.registry().find(
+                &path,
+                suite.clone(),
+                config,
+                local_config.clone(),
+                self,
+            )?;
             self.tests_by_suite
                 .get_mut(&suite.id())
                 .expect("invalid test suite key")
                 .append(found);
-        } else {
-            log::debug!(
-                target: "lit:suite:registry",
-                "{} search paths were given, searching just those paths for tests",
-                search_paths.len()
-            );
-            for path in search_paths.iter() {
-                log::debug!(target: "lit:suite:registry", "searching {} for tests..", path.display());
-                // Look for local configuration that applies to these tests,
-                // using the suite config if no local config is present
-                let local_config =
-                    get_local_config(&suite, path, config, &mut self.local_config_cache)?;
-                let found = local_config.format.registry().find(
-                    path,
-                    suite.clone(),
-                    config,
-                    local_config.clone(),
-                    self,
-                )?;
-                log::debug!(target: "lit:suite:registry", "found {} tests", found.len());
-                self.tests_by_suite
-                    .get_mut(&suite.id())
-                    .expect("invalid test suite key")
-                    .append(found);
-            }
         }
 
-        *suite.search_paths() = search_paths;
+        // Visit any nested suites that were found
+        for nested in nested {
+            self.load_from_path(&nested, config)?;
+        }
 
         log::debug!(target: "lit:suite:registry", "loading complete!");
 
@@ -140,17 +163,16 @@ impl TestSuiteRegistry for DefaultTestSuiteRegistry {
         if let Some(suite) = self.find_nearest_suite(&input_path, search_root, config)? {
             log::debug!("resolved input {} to {}", input.display(), suite.id());
             let suite_source_dir = suite.source_dir();
-            let filter_path = input_path.strip_prefix(suite_source_dir).expect(
-                "test suite source directory should have been an ancestor of the input path",
+            // The directory of a suite's config stands for all of the suite, wherever its tests are
+            let filter_path = input_path
+                .strip_prefix(suite_source_dir)
+                .unwrap_or(Path::new(""));
+            log::debug!(
+                "filtering suite '{}' by path: '{}'",
+                suite.id(),
+                filter_path.display()
             );
-            if filter_path != Path::new("") {
-                log::debug!(
-                    "filtering suite '{}' by path: '{}'",
-                    suite.id(),
-                    filter_path.display()
-                );
-                suite.filter_by_path(filter_path);
-            }
+            suite.filter_by_path(filter_path);
             self.load_tests_for_suite(suite, &cwd, config)?;
         } else {
             log::warn!("unable to locate test suite for {}", input.display());
@@ -243,75 +265,39 @@ impl DefaultTestSuiteRegistry {
     ) -> DiagResult<Option<Arc<TestSuite>>> {
         let path = path.as_ref();
         log::debug!(target: "lit:suite:registry", "finding nearest suite to {}", path.display());
-        // If the path is a directory, we need to check the cache for an exact
-        // match, and failing that, check the directory itself for a lit.suite.toml.
-        // If successful, we're done; otherwise, we fallback to the same search
-        // used for file paths
-        if path.is_dir() {
-            if let Some(cache_key) = self.config_cache.get(path) {
-                log::debug!(target: "lit:suite:registry", "found in cache: '{}'", cache_key.name());
-                return Ok(Some(self.get(cache_key)));
-            }
-
-            let mut found =
-                fs::search_directory(path, false, |entry| entry.file_name() == "lit.suite.toml");
-
-            if let Some(entry) = found.next() {
-                let entry = entry
-                    .into_diagnostic()
-                    .wrap_err("found test suite config, but it could not be read")?;
-                log::debug!(target: "lit:suite:registry", "found lit.suite.toml at {}", entry.path().display());
-                return self.load_without_cache(entry.path(), config).map(Some);
-            }
-        }
-
-        self.find_nearest_suite_containing(path, cwd, config)
-    }
-
-    fn find_nearest_suite_containing(
-        &mut self,
-        path: &Path,
-        cwd: &Path,
-        config: &Config,
-    ) -> DiagResult<Option<Arc<TestSuite>>> {
-        log::debug!(target: "lit:suite:registry", "finding nearest suite containing {}", path.display());
-        // If `dir` is not explicitly represented in `config_paths`, then it hasn't
-        // been visited to check for a `lit.suite.toml` file yet, and we can't rely
-        // on the nearest ancestor to be correct. Otherwise, the nearest ancestor
-        // refers to the nearest path in `config_paths`
-        if let Some(cache_key) = self.config_cache.nearest_ancestor(path) {
-            log::debug!(target: "lit:suite:registry", "found nearest ancestor suite in cache: '{}'", cache_key.data.name());
-            return Ok(Some(self.get(cache_key.into_value())));
-        }
-
         let dir = if path.is_dir() {
             path
         } else {
             path.parent().expect("expected canonical file path")
         };
 
-        // Search the ancestors of `path` until we find a `lit.suite.toml` whose source
-        // directory contains `path`.
+        // Search `dir` and its ancestors until we find a `lit.suite.toml` whose source directory
+        // contains `path`, or which is in `path` itself.
         log::debug!(target: "lit:suite:registry", "searching ancestors of {}", dir.display());
         for ancestor in dir.ancestors() {
-            let is_cwd = ancestor == cwd;
-            let mut found = fs::search_directory(ancestor, false, |entry| {
-                entry.file_name() == "lit.suite.toml"
-            });
-            if let Some(entry) = found.next() {
-                let entry = entry.into_diagnostic()?;
-                log::debug!(target: "lit:suite:registry", "found possible ancestor at {}", entry.path().display());
-                let suite = self.load_without_cache(entry.path(), config)?;
+            let config_path = ancestor.join("lit.suite.toml");
+            if config_path.is_file() {
+                log::debug!(target: "lit:suite:registry", "found possible ancestor at {}", config_path.display());
+                let suite = match self.get_by_path(&config_path) {
+                    Some(suite) => suite,
+                    None => self.load_without_cache(&config_path, config)?,
+                };
                 // If the test suite source directory contains `dir`, we've found a match;
                 // otherwise, we must continue searching upwards.
-                if dir.starts_with(suite.source_dir()) {
+                if ancestor == path || dir.starts_with(suite.source_dir()) {
                     log::debug!(target: "lit:suite:registry", "ancestor is a match!");
                     return Ok(Some(suite));
                 }
             }
 
+            // The sources of a suite we have already loaded may be apart from its config
+            if let Some(suite) = self.get_by_path(ancestor) {
+                log::debug!(target: "lit:suite:registry", "found in cache: '{}'", suite.name());
+                return Ok(Some(suite));
+            }
+
             // If we've reached the current working directory, ascend no further
-            if is_cwd {
+            if ancestor == cwd {
                 log::debug!(target: "lit:suite:registry", "terminating search as we've reached the current working directory");
                 break;
             }
@@ -403,53 +389,28 @@ fn get_local_config(
     lit: &Config,
     local_config_cache: &mut PathPrefixTree<Arc<TestConfig>>,
 ) -> DiagResult<Arc<TestConfig>> {
-    let source_dir = suite.source_dir();
-    let path = source_dir.join(path_in_suite);
-    let path = if path.is_dir() {
-        path
-    } else {
-        path.parent().unwrap().to_path_buf()
-    };
-
-    // If we already have a cache entry for the given path, we're done
-    if let Some(config) = local_config_cache.get(&path) {
-        return Ok(config.clone());
-    }
-
-    // Otherwise, we are going to reify a config for each level in the directory tree
-    // between the nearest ancestor for which we have already computed a configuration -
-    // using the suite config and source directory as a fallback - and `path_in_suite`.
-    // We start at that point and descend to `path_in_suite`, computing the effective
-    // configuration at each step if we encounter a `lit.local.toml` at that level.
-    let (mut config, search_root_in_suite) =
-        if let Some(entry) = local_config_cache.nearest_ancestor(&path) {
-            (
-                entry.data.clone(),
-                entry.path.strip_prefix(source_dir).unwrap().to_path_buf(),
-            )
-        } else {
-            (suite.config.clone(), path_in_suite.to_path_buf())
-        };
-
-    let mut path = source_dir.to_path_buf();
-    for component in search_root_in_suite.components() {
-        path.push(AsRef::<Path>::as_ref(&component));
-
-        let mut found =
-            fs::search_directory(&path, false, |entry| entry.file_name() == "lit.local.toml");
-        if let Some(entry) = found.next() {
-            let entry = entry.into_diagnostic()?;
-            let mut cfg = TestConfig::parse(entry.path(), lit)?;
-            cfg.inherit(&config);
-            cfg.set_default_substitutions(lit, suite, &path);
-            cfg.set_default_features(lit);
-            let cfg = Arc::<TestConfig>::from(cfg);
-            local_config_cache.insert(&path, cfg.clone());
-            config = cfg;
+    let dir_in_suite = path_in_suite.parent().unwrap_or(Path::new(""));
+
+    // We are going to reify a config for each level in the directory tree between the source
+    // directory of the suite and the given file, inclusive, unless we did so already. We start
+    // with the suite config and descend, computing the effective configuration at each step if
+    // we encounter a `lit.local.toml` at that level. Defaults are inherited from the suite.
+    let mut config = suite.config.clone();
+    let mut path = suite.source_dir().to_path_buf();
+    for component in std::iter::once(None).chain(dir_in_suite.components().map(Some)) {
+        path.extend(component);
+        if let Some(cached) = local_config_cache.get(&path) {
+            config = cached.clone();
+            continue;
+        }
+        let local_config_path = path.join("lit.local.toml");
+        if local_config_path.is_file() {
+            let mut local_config = TestConfig::parse(local_config_path, lit)?;
+            local_config.inherit(&config);
+            config = Arc::from(local_config);
         }
+        local_config_cache.insert(&path, config.clone());
     }
 
-    // Return the constructed configuration, or fallback to cloning the suite config
-    local_config_cache.insert(&path, config.clone());
     Ok(config)
 }
-- 
2.43.0


From 20486648aeb63bb402e930eaa8cd69a5688e8916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:49 +0000
Subject: [PATCH 60/78] fix: listing the tests heeds the filters it is given

---
 litcheck/src/commands/lit.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/litcheck/src/commands/lit.rs b/litcheck/src/commands/lit.rs
index 4ea70ec..8f59027 100644
--- a/litcheck/src/commands/lit.rs
+++ b/litcheck/src/commands/lit.rs
@@ -138,7 +138,7 @@ impl Command for Lit {
         }
 
         if show_tests {
-            self::show_tests(&registry);
+            self::show_tests(&registry, &config);
             return Ok(ExitCode::SUCCESS);
         }
 
@@ -187,12 +187,15 @@ where
 }
 
 /// Show the available tests, and then exit
-pub fn show_tests<R>(registry: &R)
+pub fn show_tests<R>(registry: &R, config: &Config)
 where
     R: TestSuiteRegistryExt,
 {
     println!("-- Available Tests --");
-    for test in registry.tests() {
+    for test in registry
+        .tests()
+        .filter(|test| config.is_selected(test.name()))
+    {
         println!(
             "  {}::{} (format={})",
             test.suite.name(),
-- 
2.43.0


From d92265e9b09d336cd07966d2e96648726e02ff82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:49 +0000
Subject: [PATCH 61/78] fix: the suite of a path does not depend on the suites
 loaded before

---
 lit/src/suite/registry/default.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/lit/src/suite/registry/default.rs b/lit/src/suite/registry/default.rs
index 44d551c..0f6664f 100644
--- a/lit/src/suite/registry/default.rs
+++ b/lit/src/suite/registry/default.rs
@@ -272,7 +272,8 @@ impl DefaultTestSuiteRegistry {
         };
 
         // Search `dir` and its ancestors until we find a `lit.suite.toml` whose source directory
-        // contains `path`, or which is in `path` itself.
+        // contains `path`, or which is in `path` itself. What we find does not depend on which
+        // suites were loaded before.
         log::debug!(target: "lit:suite:registry", "searching ancestors of {}", dir.display());
         for ancestor in dir.ancestors() {
             let config_path = ancestor.join("lit.suite.toml");
@@ -290,12 +291,6 @@ impl DefaultTestSuiteRegistry {
                 }
             }
 
-            // The sources of a suite we have already loaded may be apart from its config
-            if let Some(suite) = self.get_by_path(ancestor) {
-                log::debug!(target: "lit:suite:registry", "found in cache: '{}'", suite.name());
-                return Ok(Some(suite));
-            }
-
             // If we've reached the current working directory, ascend no further
             if ancestor == cwd {
                 log::debug!(target: "lit:suite:registry", "terminating search as we've reached the current working directory");
@@ -313,8 +308,6 @@ impl DefaultTestSuiteRegistry {
         self.tests_by_suite.insert(suite.id(), TestList::default());
         // Make lookups for the config path easy
         self.config_cache.insert(path, suite.id());
-        // Ensure we can look up test suites from test sources
-        self.config_cache.insert(suite.source_dir(), suite.id());
 
         Ok(suite)
     }
-- 
2.43.0


From 1452e6a38824f6c7d20024a3b88a76a4edb21267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:08 +0000
Subject: [PATCH 62/78] fix: as many tests run at a time as there are CPUs, not
 all of them

---
 litcheck/src/commands/lit.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/litcheck/src/commands/lit.rs b/litcheck/src/commands/lit.rs
index 8f59027..b64725f 100644
--- a/litcheck/src/commands/lit.rs
+++ b/litcheck/src/commands/lit.rs
@@ -212,10 +212,10 @@ where
     <R as IntoIterator>::IntoIter: Send,
 {
     let num_tests = registry.num_tests();
-    let num_workers = core::cmp::max(
-        core::cmp::min(config.options.workers.unwrap_or(usize::MAX), num_tests),
-        0,
-    );
+    let num_workers = config.options.workers.unwrap_or_else(|| {
+        std::thread::available_parallelism().map_or(1, core::num::NonZeroUsize::get)
+    });
+    let num_workers = core::cmp::min(num_workers, num_tests);
 
     rayon::ThreadPoolBuilder::new()
         .num_threads(num_workers)
-- 
2.43.0


From c8b87f3a6f067aacd035bba90575563a23784daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:05 +0000
Subject: [PATCH 63/78] fix: FILECHECK_OPTS adds to the options given on the
 command line

Reading it replaced every option it does not mention by its default.
---
 litcheck/src/commands/filecheck.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/litcheck/src/commands/filecheck.rs b/litcheck/src/commands/filecheck.rs
index c5e1674..6316b1a 100644
--- a/litcheck/src/commands/filecheck.rs
+++ b/litcheck/src/commands/filecheck.rs
@@ -1,6 +1,6 @@
 use std::process::ExitCode;
 
-use clap::Parser;
+use clap::{CommandFactory, FromArgMatches, Parser, parser::ValueSource};
 use filecheck::{Config, Test};
 use litcheck::{
     Input,
@@ -38,7 +38,7 @@ impl Command for FileCheck {
         if let Some(filecheck_opts) = std::env::var("FILECHECK_OPTS").ok()
             && let Some(extra_args) = shlex::split(&filecheck_opts)
         {
-            <filecheck::Options as clap::Parser>::update_from(&mut self.options, extra_args);
+            update_options(&mut self.options, extra_args);
         }
 
         let mut options = self.options;
@@ -71,3 +71,25 @@ impl Command for FileCheck {
         test.verify(input_file).map(|_| ExitCode::SUCCESS)
     }
 }
+
+/// Update `options` with those given in `args`, leaving alone what `args` does not mention.
+fn update_options(options: &mut filecheck::Options, args: Vec<String>) {
+    let mut cmd = filecheck::Options::command_for_update();
+    let mut matches = cmd
+        .try_get_matches_from_mut(args)
+        .unwrap_or_else(|err| err.exit());
+
+    // Defaults count as present, and would replace the options we were given
+    let defaulted = cmd
+        .get_arguments()
+        .map(|arg| arg.get_id().clone())
+        .filter(|id| matches.value_source(id.as_str()) == Some(ValueSource::DefaultValue))
+        .collect::<Vec<_>>();
+    for id in defaulted {
+        let _ = matches.try_clear_id(id.as_str());
+    }
+
+    options
+        .update_from_arg_matches_mut(&mut matches)
+        .unwrap_or_else(|err| err.format(&mut cmd).exit());
+}
-- 
2.43.0


From 0259698c0eb28cef396ba60fffc0185658d22179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:26 +0000
Subject: [PATCH 64/78] fix: FileCheck, check and NOT are names the tool can be
 called by

The README installs a link called FileCheck, and the code expects these names.
---
 litcheck/src/commands/filecheck.rs | 2 +-
 litcheck/src/commands/not.rs       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/litcheck/src/commands/filecheck.rs b/litcheck/src/commands/filecheck.rs
index 6316b1a..d2bf9fb 100644
--- a/litcheck/src/commands/filecheck.rs
+++ b/litcheck/src/commands/filecheck.rs
@@ -10,7 +10,7 @@ use litcheck::{
 use super::Command;
 
 #[derive(Debug, Parser)]
-#[command(name = "filecheck")]
+#[command(name = "filecheck", aliases = ["FileCheck", "check"])]
 pub struct FileCheck {
     /// The path to the file containing patterns, e.g. `CHECK`, to
     /// match against the `input_file`.
diff --git a/litcheck/src/commands/not.rs b/litcheck/src/commands/not.rs
index 86d165e..6d02d87 100644
--- a/litcheck/src/commands/not.rs
+++ b/litcheck/src/commands/not.rs
@@ -19,7 +19,7 @@ use super::Command;
 /// If the program failed to execute for some reason, `not` will
 /// exit with code 127 (not found) or 126 (some other error).
 #[derive(Debug, Parser)]
-#[command(name = "not", arg_required_else_help(true))]
+#[command(name = "not", alias = "NOT", arg_required_else_help(true))]
 pub struct Not {
     /// If set, returns true if the given command crashes, otherwise false
     #[arg(long("crash"), required(false), default_value_t = false)]
-- 
2.43.0


From 72ac0afc50cb3f58665941408306475423987062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:19 +0000
Subject: [PATCH 65/78] fix: listing the files of a directory ends, and gives
 each once

---
 core/src/input.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/core/src/input.rs b/core/src/input.rs
index df20352..df9812e 100644
--- a/core/src/input.rs
+++ b/core/src/input.rs
@@ -69,11 +69,9 @@ impl Input {
         let mut inputs = vec![];
         let walker = WalkDir::new(&self.0).into_iter();
         for entry in walker.filter_entry(|e| is_matching_file_type_or_dir(e, file_types)) {
+            // The walker descends into directories by itself
             let input = Self(entry?.into_path());
-            if input.is_directory() {
-                let mut children = input.get_file_types(file_types)?;
-                inputs.append(&mut children);
-            } else {
+            if !input.is_directory() {
                 inputs.push(input);
             }
         }
@@ -108,11 +106,9 @@ impl Input {
         let mut inputs = vec![];
         let walker = WalkDir::new(&self.0).into_iter();
         for entry in walker.filter_entry(|e| is_dir_or_pattern_match(e, pattern)) {
+            // The walker descends into directories by itself
             let input = Self(entry?.into_path());
-            if input.is_directory() {
-                let mut children = input.glob_pattern(pattern)?;
-                inputs.append(&mut children);
-            } else {
+            if !input.is_directory() {
                 inputs.push(input);
             }
         }
-- 
2.43.0


From 60490c24fa1f0e348f1e6b9a11fcb23cee55ea82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:19 +0000
Subject: [PATCH 66/78] fix: a hash map keyed by symbols can be asked by their
 text

Borrow<str> requires a symbol to hash like the string it is borrowed as.
---
 core/src/symbol/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/src/symbol/mod.rs b/core/src/symbol/mod.rs
index e2baa33..e1edbce 100644
--- a/core/src/symbol/mod.rs
+++ b/core/src/symbol/mod.rs
@@ -16,9 +16,16 @@ struct SymbolTable {
 }
 
 /// A symbol is an interned string.
-#[derive(Clone, Copy, PartialEq, Eq, Hash)]
+#[derive(Clone, Copy, PartialEq, Eq)]
 pub struct Symbol(SymbolIndex);
 
+/// Hashes like the string it stands for, as [core::borrow::Borrow] requires.
+impl core::hash::Hash for Symbol {
+    fn hash<H: core::hash::Hasher>(&self, state: &mut H) {
+        self.as_str().hash(state);
+    }
+}
+
 impl serde::Serialize for Symbol {
     fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
     where
-- 
2.43.0


From 70230bdf74f24daa51b4ce293ce9c49915de01d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:35 +0000
Subject: [PATCH 67/78] fix: options of lit may be given behind the paths, as
 the README does

---
 lit/src/config/mod.rs        | 2 +-
 litcheck/src/commands/lit.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lit/src/config/mod.rs b/lit/src/config/mod.rs
index ec1c494..2ba4bca 100644
--- a/lit/src/config/mod.rs
+++ b/lit/src/config/mod.rs
@@ -91,7 +91,7 @@ impl fmt::Debug for Config {
 #[derive(Debug, Args)]
 pub struct Options {
     /// The test files or directories to search for tests
-    #[arg(value_name = "TESTS", required(true), trailing_var_arg(true))]
+    #[arg(value_name = "TESTS", required(true))]
     pub tests: Vec<String>,
     /// Run `N` tests in parallel
     ///
diff --git a/litcheck/src/commands/lit.rs b/litcheck/src/commands/lit.rs
index b64725f..db3a8cb 100644
--- a/litcheck/src/commands/lit.rs
+++ b/litcheck/src/commands/lit.rs
@@ -49,7 +49,7 @@ pub enum Lit {
     #[command(name = "show-suites")]
     Suites {
         /// The test files or directories to search for tests
-        #[arg(value_name = "PATH", required(true), trailing_var_arg(true))]
+        #[arg(value_name = "PATH", required(true))]
         tests: Vec<String>,
         /// Run only those tests whose name matches the given regular expression.
         #[arg(long, env = "LIT_FILTER", help_heading = "Selection Options")]
@@ -63,7 +63,7 @@ pub enum Lit {
     #[command(name = "show-tests")]
     Tests {
         /// The test files or directories to search for tests
-        #[arg(value_name = "PATH", required(true), trailing_var_arg(true))]
+        #[arg(value_name = "PATH", required(true))]
         tests: Vec<String>,
         /// Run only those tests whose name matches the given regular expression.
         #[arg(long, env = "LIT_FILTER", help_heading = "Test Selection")]
-- 
2.43.0


From 93a3416b39b911170cf40c499bc1f3dc63c9035d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:35 +0000
Subject: [PATCH 68/78] fix: lit runs the tests when no command is given, as
 its help says

---
 litcheck/src/commands/lit.rs | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/litcheck/src/commands/lit.rs b/litcheck/src/commands/lit.rs
index db3a8cb..0441820 100644
--- a/litcheck/src/commands/lit.rs
+++ b/litcheck/src/commands/lit.rs
@@ -7,7 +7,7 @@ use std::{
     },
 };
 
-use clap::Parser;
+use clap::{Parser, Subcommand};
 use indicatif::{ParallelProgressIterator, ProgressBar, ProgressStyle};
 use lit::{
     Config, DefaultTestSuiteRegistry, LitError, Test, TestFormat, TestResult, TestStatus,
@@ -38,8 +38,21 @@ use super::Command;
 /// summary information on the number of tests which passed or failed. lit will exit with
 /// a non-zero status code if any tests fail.
 #[derive(Debug, Parser)]
-#[command(name = "lit")]
-pub enum Lit {
+#[command(
+    name = "lit",
+    arg_required_else_help = true,
+    args_conflicts_with_subcommands = true,
+    subcommand_negates_reqs = true
+)]
+pub struct Lit {
+    #[command(subcommand)]
+    command: Option<LitCommand>,
+    #[command(flatten)]
+    options: Option<lit::Options>,
+}
+
+#[derive(Debug, Subcommand)]
+enum LitCommand {
     /// Run all discovered test suites
     ///
     /// If no command is given, this is the default
@@ -83,8 +96,12 @@ impl Command for Lit {
         let config;
         let show_suites;
         let show_tests;
-        match self {
-            Self::Run(options) => {
+        let command = self
+            .command
+            .or(self.options.map(LitCommand::Run))
+            .expect("expected clap to require tests when no command is given");
+        match command {
+            LitCommand::Run(options) => {
                 config = Arc::new(lit::Config {
                     options,
                     ..Default::default()
@@ -92,7 +109,7 @@ impl Command for Lit {
                 show_suites = false;
                 show_tests = false;
             }
-            Self::Suites {
+            LitCommand::Suites {
                 tests,
                 filter,
                 filter_out,
@@ -104,7 +121,7 @@ impl Command for Lit {
                 show_suites = true;
                 show_tests = false;
             }
-            Self::Tests {
+            LitCommand::Tests {
                 tests,
                 filter,
                 filter_out,
-- 
2.43.0


From 322d10f54575a53292b4e1c0c1d99bf8438c754f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:44 +0000
Subject: [PATCH 69/78] fix: the error for a misplaced or empty check shows
 where it is in the check file

---
 filecheck/src/check/program.rs |  8 +++++---
 filecheck/src/errors.rs        | 10 ++++++++++
 filecheck/src/pattern/mod.rs   |  5 ++---
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/filecheck/src/check/program.rs b/filecheck/src/check/program.rs
index b67cf54..d2633e1 100644
--- a/filecheck/src/check/program.rs
+++ b/filecheck/src/check/program.rs
@@ -234,10 +234,12 @@ impl<'a> CheckProgram<'a> {
                 Check::Empty | Check::Same | Check::Next
                     if !can_insert_dependent_positive_check(&block, label.as_ref()) =>
                 {
-                    return Err(Report::from(InvalidCheckFileError::InvalidFirstCheck {
+                    let line = next.span();
+                    return Err(InvalidCheckFileError::InvalidFirstCheck {
                         kind: next.kind(),
-                        line: next.span(),
-                    }));
+                        line,
+                    }
+                    .into_report(line, config));
                 }
                 Check::Plain
                 | Check::Count(_)
diff --git a/filecheck/src/errors.rs b/filecheck/src/errors.rs
index 550c669..e8c8a37 100644
--- a/filecheck/src/errors.rs
+++ b/filecheck/src/errors.rs
@@ -108,6 +108,16 @@ pub enum InvalidCheckFileError {
     #[diagnostic()]
     EmptyPattern(#[label("expected a non-empty pattern here")] SourceSpan),
 }
+impl InvalidCheckFileError {
+    /// Converts this error to a [Report] which shows the source code found at `span`
+    pub(crate) fn into_report(self, span: SourceSpan, config: &Config) -> Report {
+        let report = Report::from(self);
+        match config.source_manager().get(span.source_id()) {
+            Ok(source) => report.with_source_code(source),
+            Err(_) => report,
+        }
+    }
+}
 
 #[derive(Debug, Diagnostic, thiserror::Error)]
 #[diagnostic()]
diff --git a/filecheck/src/pattern/mod.rs b/filecheck/src/pattern/mod.rs
index 97134f3..e0042e2 100644
--- a/filecheck/src/pattern/mod.rs
+++ b/filecheck/src/pattern/mod.rs
@@ -47,9 +47,8 @@ impl<'a> Pattern<'a> {
         match prefix {
             PatternPrefix::Literal { prefix, .. } | PatternPrefix::Substring { prefix, .. } => {
                 if prefix.is_empty() {
-                    return Err(Report::from(InvalidCheckFileError::EmptyPattern(
-                        prefix.span(),
-                    )));
+                    let span = prefix.span();
+                    return Err(InvalidCheckFileError::EmptyPattern(span).into_report(span, config));
                 }
                 if prefix.trim().is_empty() {
                     if prefix.chars().all(|c| c.is_ascii_whitespace()) {
-- 
2.43.0


From eb00d6e4cbd5b05fd2e879dcd7d16d6295ae1460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:52 +0000
Subject: [PATCH 70/78] fix: PATH in the environment of a suite is no longer
 overridden by that of lit

---
 lit/src/utils.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lit/src/utils.rs b/lit/src/utils.rs
index e493990..1eec482 100644
--- a/lit/src/utils.rs
+++ b/lit/src/utils.rs
@@ -22,8 +22,16 @@ impl ShellCommand {
         }
     }
 
+    /// Search for programs in `extra_paths`, before those of the PATH set with [Self::envs], or if
+    /// there is none, of the environment.
     pub fn paths<S: AsRef<Path>>(&mut self, extra_paths: &[S]) -> DiagResult<&mut Self> {
-        let env_paths = std::env::var_os("PATH").unwrap_or_default();
+        let env_paths = self
+            .command
+            .get_envs()
+            .find_map(|(name, value)| (name == "PATH").then_some(value).flatten())
+            .map(|value| value.to_os_string())
+            .or_else(|| std::env::var_os("PATH"))
+            .unwrap_or_default();
         let path = std::env::join_paths(
             extra_paths
                 .iter()
-- 
2.43.0


From 648b5f079bd0c630977816973ca96d532a9a6006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:32 +0000
Subject: [PATCH 71/78] fix: the announcement of a run line shows the command
 as it is, whatever the echo of the shell does to backslashes

---
 lit/src/formats/sh/engine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lit/src/formats/sh/engine.rs b/lit/src/formats/sh/engine.rs
index 28a6094..02f34c5 100644
--- a/lit/src/formats/sh/engine.rs
+++ b/lit/src/formats/sh/engine.rs
@@ -87,7 +87,7 @@ fn write_script(script: &TestScript, pipefail: bool) -> DiagResult<Vec<u8>> {
         buf.push_str("{ set +x; } 2>/dev/null && ");
         write!(
             &mut buf,
-            "echo 'RUN at line {}': {} >&2 && ",
+            "printf '%s\\n' 'RUN at line {}: '{} >&2 && ",
             test.line(),
             quoted
         )
-- 
2.43.0


From a386d02b58d0825a71eec7cc9b19dcbf1e1595d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:32 +0000
Subject: [PATCH 72/78] fix: the error for an absolute working directory that
 does not exist shows where it is given

---
 lit/src/suite/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lit/src/suite/mod.rs b/lit/src/suite/mod.rs
index 6875edc..12bc3f2 100644
--- a/lit/src/suite/mod.rs
+++ b/lit/src/suite/mod.rs
@@ -204,6 +204,7 @@ impl TestSuite {
                     path: suite.working_dir.get_ref().to_path_buf(),
                     cause: err,
                 })
+                .with_source_code(source.clone())
             })?;
             if suite.working_dir() != working_dir.as_path() {
                 *suite.working_dir.get_mut() = Cow::Owned(working_dir);
-- 
2.43.0


From b69d86ba36dbc8ae74b32150a2c8dfef79636949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:59 +0000
Subject: [PATCH 73/78] fix: a numeric block may hold any expression, not only
 those that begin with a variable

---
 filecheck/src/parse/grammar.lalrpop | 37 ++++++-----------------------
 1 file changed, 7 insertions(+), 30 deletions(-)

diff --git a/filecheck/src/parse/grammar.lalrpop b/filecheck/src/parse/grammar.lalrpop
index 254364c..e9c3e7c 100644
--- a/filecheck/src/parse/grammar.lalrpop
+++ b/filecheck/src/parse/grammar.lalrpop
@@ -1,8 +1,5 @@
 use std::borrow::Cow;
 
-use either::Either;
-use either::Either::*;
-
 use crate::common::{Spanned, Span, Symbol, SourceId, symbols};
 use crate::ast::*;
 use crate::expr::*;
@@ -119,23 +116,12 @@ pub Match: Match<'input> = {
 }
 
 CaptureNumericOrExpr: CaptureNumericOrExpr = {
-    <l:@L> <var:PatternOrLineVar> <r:@R> <ty:EitherCaptureOrExpr> => {
-        match ty {
-            Left(None) => CaptureNumericOrExpr::Capture(CaptureNumeric {
-                name: Some(var),
-                constraint: Constraint::Eq,
-                expr: None
-            }),
-            Left(Some(constraint)) => CaptureNumericOrExpr::Capture(CaptureNumeric {
-                name: Some(var),
-                constraint: constraint.constraint,
-                expr: Some(constraint.expr)
-            }),
-            Right(operands) => {
-                let end = operands.last().map(|o| o.operand.span().end().to_usize()).unwrap_or(r);
-                CaptureNumericOrExpr::Expr(apply_operands(span!(source_id, l, end), Expr::Var(var), operands))
-            }
-        }
+    <var:PatternOrLineVar> ":" <constraint:Constraint?> => {
+        let (constraint, expr) = match constraint {
+            None => (Constraint::Eq, None),
+            Some(ConstraintExpr { constraint, expr }) => (constraint, Some(expr)),
+        };
+        CaptureNumericOrExpr::Capture(CaptureNumeric { name: Some(var), constraint, expr })
     },
 
     "==" <expr:Expr> => {
@@ -146,11 +132,7 @@ CaptureNumericOrExpr: CaptureNumericOrExpr = {
         })
     },
 
-    Builtin => CaptureNumericOrExpr::Expr(<>),
-
-    <l:@L> "(" <lhs:Expr> ")" <rhs:CaptureExprRest> <r:@R> => {
-        CaptureNumericOrExpr::Expr(apply_operands(span!(source_id, l, r), lhs, rhs))
-    }
+    Expr => CaptureNumericOrExpr::Expr(<>),
 }
 
 // The operands of a sum or difference, which associate to the left
@@ -167,11 +149,6 @@ AddOrSub: BinaryOp = {
     "-" => BinaryOp::Sub,
 }
 
-EitherCaptureOrExpr: Either<Option<ConstraintExpr>, Vec<BinaryOpAndOperand>> = {
-    ":" <constraint:Constraint?> => Left(constraint),
-    <CaptureExprRest> => Right(<>),
-}
-
 Constraint: ConstraintExpr = {
     "==" <expr:Expr> => ConstraintExpr { constraint: Constraint::Eq, expr },
     <expr:Expr> => ConstraintExpr { constraint: Constraint::Eq, expr },
-- 
2.43.0


From efed889dfcbe6fc0350d1cba8478d8d6a720b2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:03 +0000
Subject: [PATCH 74/78] fix: a variable may be called like a function (min,
 max, ..) or a keyword

---
 filecheck/src/expr/grammar.lalrpop  | 15 +++++++++++++--
 filecheck/src/parse/grammar.lalrpop | 19 ++++++++++++++++---
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/filecheck/src/expr/grammar.lalrpop b/filecheck/src/expr/grammar.lalrpop
index 2453aa3..e9a7680 100644
--- a/filecheck/src/expr/grammar.lalrpop
+++ b/filecheck/src/expr/grammar.lalrpop
@@ -126,7 +126,7 @@ PatternVar: VariableName = {
 }
 
 GlobalVar: VariableName = {
-    <l:@L> "$" <name:Ident> <r:@R> => VariableName::Global(Span::new(span!(source_id, l, r), name)),
+    <l:@L> "$" <name:Name> <r:@R> => VariableName::Global(Span::new(span!(source_id, l, r), name)),
 }
 
 PseudoVar: VariableName = {
@@ -134,7 +134,7 @@ PseudoVar: VariableName = {
 }
 
 Var: VariableName = {
-    <l:@L> <name:Ident> <r:@R> => VariableName::User(Span::new(span!(source_id, l, r), name)),
+    <l:@L> <name:Name> <r:@R> => VariableName::User(Span::new(span!(source_id, l, r), name)),
 }
 
 Callee: Span<Symbol> = {
@@ -185,3 +185,14 @@ Precision: u8 = {
 Ident: Symbol = {
     ident => Symbol::intern(<>),
 }
+
+// What variables are called: the names of functions are not taken
+Name: Symbol = {
+    Ident,
+    "add" => Symbol::intern("add"),
+    "sub" => Symbol::intern("sub"),
+    "mul" => Symbol::intern("mul"),
+    "div" => Symbol::intern("div"),
+    "min" => Symbol::intern("min"),
+    "max" => Symbol::intern("max"),
+}
diff --git a/filecheck/src/parse/grammar.lalrpop b/filecheck/src/parse/grammar.lalrpop
index e9c3e7c..85e1e36 100644
--- a/filecheck/src/parse/grammar.lalrpop
+++ b/filecheck/src/parse/grammar.lalrpop
@@ -232,11 +232,11 @@ PatternOrLineVar: VariableName = {
 }
 
 GlobalVar: VariableName = {
-    <l:@L> "$" <name:Ident> <r:@R> => VariableName::Global(Span::new(span!(source_id, l, r), name)),
+    <l:@L> "$" <name:Name> <r:@R> => VariableName::Global(Span::new(span!(source_id, l, r), name)),
 }
 
 MaybeGlobalVar: VariableName = {
-    <l:@L> "$" <name:Ident> <r:@R> => VariableName::Global(Span::new(span!(source_id, l, r), name)),
+    <l:@L> "$" <name:Name> <r:@R> => VariableName::Global(Span::new(span!(source_id, l, r), name)),
     Var,
 }
 
@@ -249,7 +249,7 @@ LineVar: VariableName = {
 }
 
 Var: VariableName = {
-    <l:@L> <name:Ident> <r:@R> => VariableName::User(Span::new(span!(source_id, l, r), name)),
+    <l:@L> <name:Name> <r:@R> => VariableName::User(Span::new(span!(source_id, l, r), name)),
 }
 
 Callee: Span<Symbol> = {
@@ -303,6 +303,19 @@ Ident: Symbol = {
     ident => Symbol::intern(<>),
 }
 
+// What variables are called: the words which have a meaning elsewhere are not taken
+Name: Symbol = {
+    Ident,
+    "LITERAL" => Symbol::intern("LITERAL"),
+    "LINE" => Symbol::intern("LINE"),
+    "add" => Symbol::intern("add"),
+    "sub" => Symbol::intern("sub"),
+    "mul" => Symbol::intern("mul"),
+    "div" => Symbol::intern("div"),
+    "min" => Symbol::intern("min"),
+    "max" => Symbol::intern("max"),
+}
+
 String: Span<&'input str> = {
     <l:@L> <raw:raw> <r:@R> => Span::new(span!(source_id, l, r), raw),
 }
-- 
2.43.0


From 3d78e06f803e2aa0a985cb30e6bc6c1a64aa3f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:24 +0000
Subject: [PATCH 75/78] fix: a blank may stand behind the comma of a format
 that is % alone

---
 filecheck/src/parse/lexer/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/filecheck/src/parse/lexer/mod.rs b/filecheck/src/parse/lexer/mod.rs
index e603e8a..d7b68f5 100644
--- a/filecheck/src/parse/lexer/mod.rs
+++ b/filecheck/src/parse/lexer/mod.rs
@@ -599,6 +599,7 @@ impl<'input> Lexer<'input> {
                     self.buffer.push_back(Ok((offset, Token::Dot, next_offset)));
                 }
                 ',' => {
+                    strip_whitespace = true;
                     self.buffer
                         .push_back(Ok((offset, Token::Comma, next_offset)));
                 }
-- 
2.43.0


From 346562776e1354aa4646fc2c4ac8c9789bb2e2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:06 +0000
Subject: [PATCH 76/78] fix: a format may ask for more digits than a number can
 have

---
 filecheck/src/expr/num.rs | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/filecheck/src/expr/num.rs b/filecheck/src/expr/num.rs
index a41398a..ba00b05 100644
--- a/filecheck/src/expr/num.rs
+++ b/filecheck/src/expr/num.rs
@@ -452,15 +452,17 @@ impl NumberFormat {
     pub fn pattern_nocapture(&self) -> Cow<'static, str> {
         // NOTE: The patterns below with precision 0 have their range capped at 39, which is the
         // maximum number of digits in i128::MAX, or the largest possible number that could be
-        // represented in decimal form
+        // represented in decimal form. More digits than that are only written if asked for.
+        let digits = self.precision().max(39);
+        let hex_digits = self.precision().max(32);
         match self {
             NumberFormat::Signed { precision: 0 } => Cow::Borrowed(r"(?:[-+]?[0-9]{1,39})"),
             NumberFormat::Signed { precision } => {
-                Cow::Owned(format!("(?:[-+]?[0-9]{{{precision},39}})"))
+                Cow::Owned(format!("(?:[-+]?[0-9]{{{precision},{digits}}})"))
             }
             NumberFormat::Unsigned { precision: 0 } => Cow::Borrowed(r"(?:[0-9]{1,39})"),
             NumberFormat::Unsigned { precision } => {
-                Cow::Owned(format!("(?:[0-9]{{{precision},39}})"))
+                Cow::Owned(format!("(?:[0-9]{{{precision},{digits}}})"))
             }
             // The hex value for i128::MAX is 7fffffffffffffffffffffffffffffff or 32 digits
             NumberFormat::Hex {
@@ -472,7 +474,10 @@ impl NumberFormat {
                 require_prefix: true,
                 precision,
                 casing,
-            } => Cow::Owned(format!("(?:0x{}{{{precision},32}})", casing.as_hex_class())),
+            } => Cow::Owned(format!(
+                "(?:0x{}{{{precision},{hex_digits}}})",
+                casing.as_hex_class()
+            )),
             NumberFormat::Hex {
                 require_prefix: false,
                 precision: 0,
@@ -482,7 +487,10 @@ impl NumberFormat {
                 require_prefix: false,
                 precision,
                 casing,
-            } => Cow::Owned(format!("(?:{}{{{precision},32}})", casing.as_hex_class())),
+            } => Cow::Owned(format!(
+                "(?:{}{{{precision},{hex_digits}}})",
+                casing.as_hex_class()
+            )),
         }
     }
 
@@ -491,20 +499,22 @@ impl NumberFormat {
         // maximum number of digits in i128::MAX, or the largest possible number that could be
         // represented in decimal form
         let group_name = group_name_override.unwrap_or("digits");
+        let digits = self.precision().max(39);
+        let hex_digits = self.precision().max(32);
         match self {
             NumberFormat::Signed { precision: 0 } => match group_name_override {
                 None => Cow::Borrowed(r"(?P<digits>[-+]?[0-9]{1,39})"),
                 Some(group_name) => Cow::Owned(format!("(?P<{group_name}>[-+]?[0-9]{{1,39}})")),
             },
-            NumberFormat::Signed { precision } => {
-                Cow::Owned(format!("(?P<{group_name}>[-+]?[0-9]{{{precision},39}})"))
-            }
+            NumberFormat::Signed { precision } => Cow::Owned(format!(
+                "(?P<{group_name}>[-+]?[0-9]{{{precision},{digits}}})"
+            )),
             NumberFormat::Unsigned { precision: 0 } => match group_name_override {
                 None => Cow::Borrowed(r"(?P<digits>[0-9]{1,39})"),
                 Some(group_name) => Cow::Owned(format!("(?P<{group_name}>[0-9]{{1,39}})")),
             },
             NumberFormat::Unsigned { precision } => {
-                Cow::Owned(format!("(?P<{group_name}>[0-9]{{{precision},39}})"))
+                Cow::Owned(format!("(?P<{group_name}>[0-9]{{{precision},{digits}}})"))
             }
             // The hex value for i128::MAX is 7fffffffffffffffffffffffffffffff or 32 digits
             NumberFormat::Hex {
@@ -520,7 +530,7 @@ impl NumberFormat {
                 precision,
                 casing,
             } => Cow::Owned(format!(
-                "(?P<{group_name}>0x{}{{{precision},32}})",
+                "(?P<{group_name}>0x{}{{{precision},{hex_digits}}})",
                 casing.as_hex_class()
             )),
             NumberFormat::Hex {
@@ -536,7 +546,7 @@ impl NumberFormat {
                 precision,
                 casing,
             } => Cow::Owned(format!(
-                "(?P<{group_name}>{}{{{precision},32}})",
+                "(?P<{group_name}>{}{{{precision},{hex_digits}}})",
                 casing.as_hex_class()
             )),
         }
-- 
2.43.0


From fd37644da1137b19a34c113fe99e2926077f8f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:17 +0000
Subject: [PATCH 77/78] fix: the error for a pattern that cannot be compiled
 shows where it is (a variable in CHECK-LABEL, a regular expression too large)

---
 filecheck/src/check/program.rs                | 14 +++++++++-----
 filecheck/src/errors.rs                       | 14 +++++++++-----
 filecheck/src/pattern/matcher/matchers/all.rs |  7 ++++++-
 3 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/filecheck/src/check/program.rs b/filecheck/src/check/program.rs
index d2633e1..37456f5 100644
--- a/filecheck/src/check/program.rs
+++ b/filecheck/src/check/program.rs
@@ -4,7 +4,7 @@ use crate::{
     Options,
     ast::*,
     common::*,
-    errors::InvalidCheckFileError,
+    errors::{InvalidCheckFileError, with_source_at},
     parse::CheckFileParser,
     pattern::matcher::{MatchAll, MatchAny, SimpleMatcher},
     rules::*,
@@ -485,7 +485,9 @@ impl<'a> CheckProgram<'a> {
             }
             assert!(pending_tree.is_none());
             if let Some(label) = maybe_label {
-                let label = Pattern::compile_static(label.span, label.pattern, config)?;
+                let span = label.pattern.span();
+                let label = Pattern::compile_static(label.span, label.pattern, config)
+                    .map_err(|err| with_source_at(err, span, config))?;
                 self.sections.push(CheckSection::Block {
                     label,
                     body: core::mem::take(&mut groups),
@@ -506,11 +508,13 @@ impl<'a> CheckProgram<'a> {
         pattern: CheckPattern<'a>,
         config: &Config,
     ) -> DiagResult<Box<dyn DynRule + 'a>> {
+        let span = pattern.span();
         let pattern = if ty.is_literal_match() {
-            Pattern::compile_literal(pattern, config)?
+            Pattern::compile_literal(pattern, config)
         } else {
-            Pattern::compile(pattern, config)?
-        };
+            Pattern::compile(pattern, config)
+        }
+        .map_err(|err| with_source_at(err, span, config))?;
 
         match ty.kind {
             Check::Plain | Check::Count(_) => {
diff --git a/filecheck/src/errors.rs b/filecheck/src/errors.rs
index e8c8a37..74f83d3 100644
--- a/filecheck/src/errors.rs
+++ b/filecheck/src/errors.rs
@@ -111,11 +111,15 @@ pub enum InvalidCheckFileError {
 impl InvalidCheckFileError {
     /// Converts this error to a [Report] which shows the source code found at `span`
     pub(crate) fn into_report(self, span: SourceSpan, config: &Config) -> Report {
-        let report = Report::from(self);
-        match config.source_manager().get(span.source_id()) {
-            Ok(source) => report.with_source_code(source),
-            Err(_) => report,
-        }
+        with_source_at(Report::from(self), span, config)
+    }
+}
+
+/// Have `report` show the source code found at `span`, unless it shows some already
+pub(crate) fn with_source_at(report: Report, span: SourceSpan, config: &Config) -> Report {
+    match config.source_manager().get(span.source_id()) {
+        Ok(source) => report.with_source_code(source),
+        Err(_) => report,
     }
 }
 
diff --git a/filecheck/src/pattern/matcher/matchers/all.rs b/filecheck/src/pattern/matcher/matchers/all.rs
index 74fb76f..fd13ab0 100644
--- a/filecheck/src/pattern/matcher/matchers/all.rs
+++ b/filecheck/src/pattern/matcher/matchers/all.rs
@@ -1,6 +1,7 @@
 use crate::{
     ast::{CheckLine, CheckPattern, Prefix},
     common::*,
+    errors::with_source_at,
     pattern::{PatternPrefix, matcher::AlwaysMatch},
 };
 
@@ -48,7 +49,11 @@ impl<'a> MatchAll<'a> {
             if let CheckPattern::Empty(span) = line.pattern {
                 return Err(empty_pattern_error(span));
             }
-            patterns.push(Pattern::compile(line.pattern, config)?);
+            let span = line.pattern.span();
+            patterns.push(
+                Pattern::compile(line.pattern, config)
+                    .map_err(|err| with_source_at(err, span, config))?,
+            );
         }
         Ok(Self::Each(patterns))
     }
-- 
2.43.0


From 5c50451ff5c6eb67e5c660d739fa6ff0fbb21256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:58 +0000
Subject: [PATCH 78/78] fix: a NUL byte at the beginning of a line no longer
 ends the check file

---
 filecheck/src/parse/lexer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filecheck/src/parse/lexer/mod.rs b/filecheck/src/parse/lexer/mod.rs
index d7b68f5..1e28336 100644
--- a/filecheck/src/parse/lexer/mod.rs
+++ b/filecheck/src/parse/lexer/mod.rs
@@ -181,7 +181,7 @@ impl<'input> Lexer<'input> {
 
     fn tokenize(&mut self) {
         match self.input.peek_byte() {
-            (_, b'\0') => {
+            (_, b'\0') if self.input.is_empty() => {
                 self.eof = true;
                 return;
             }
-- 
2.43.0

