From ba187e735d23131cf109086e4a2fb402459f6d60 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 12:12:37 +0000
Subject: [PATCH 01/30] fix: close literal patterns and literal command
 parameters

The literal text state compared the closing backtick with itself instead of
with the token after it, so no literal pattern ever ended, and the closing
brace moved the current node out of the string.
---
 crates/localiser/src/tree.rs | 38 ++++++++++++++----------------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/crates/localiser/src/tree.rs b/crates/localiser/src/tree.rs
index 07e2716..12e6521 100644
--- a/crates/localiser/src/tree.rs
+++ b/crates/localiser/src/tree.rs
@@ -164,7 +164,9 @@ impl Tree {
         let mut patterns = HashMap::<String, usize>::new();
 
         // Process the tokens
-        let mut lexer = LexerIterator::try_new(string, grammar, icu_data_provider)?.enumerate();
+        let mut lexer = LexerIterator::try_new(string, grammar, icu_data_provider)?
+            .enumerate()
+            .peekable();
         while let Some((current, token)) = lexer.next() {
             if token.token_type == TokenType::Grammar {
                 has_grammar = true;
@@ -385,16 +387,14 @@ impl Tree {
                     if tokens[current].token_type == TokenType::Grammar
                         && tokens[current].string.as_str() == "`"
                     {
-                        // Skip over 1st ` token.
-                        let Some((next, token)) = lexer.next() else {
-                            return Err(TreeError::EndedAbruptly);
-                        };
-                        Tree::push_token(&mut tokens, &mut lengths, token);
-                        if tokens[current].string.as_str() == "`" {
-                            // Literal 2nd ` found.
-                            Tree::add_token(&mut nodes, &mut parser, NodeType::Text, &next);
-                        } else {
-                            Tree::end_nested_state(&mut nodes, &mut parser);
+                        // Skip over 1st ` token, and check whether it is followed by 2nd ` token.
+                        match lexer.next_if(|(_, token)| token.string.as_str() == "`") {
+                            Some((next, token)) => {
+                                // Literal 2nd ` found.
+                                Tree::push_token(&mut tokens, &mut lengths, token);
+                                Tree::add_token(&mut nodes, &mut parser, NodeType::Text, &next);
+                            }
+                            None => Tree::end_nested_state(&mut nodes, &mut parser),
                         }
                         continue;
                     }
@@ -408,7 +408,8 @@ impl Tree {
                     if tokens[current].token_type == TokenType::Grammar
                         && tokens[current].string.as_str() == "}"
                     {
-                        Tree::end_nested_state(&mut nodes, &mut parser);
+                        // Current node is already the container of the literal's Text node.
+                        parser.state = parser.nested_states.pop().unwrap_or(ParserState::String);
                         continue;
                     }
                     return Err(TreeError::InvalidToken(
@@ -444,17 +445,8 @@ impl Tree {
                             }
                             Tree::end_nested_state(&mut nodes, &mut parser);
                         } else if token_str == "`" {
-                            // Skip over ` token as next token is a literal.
-                            let Some((next, token)) = lexer.next() else {
-                                return Err(TreeError::EndedAbruptly);
-                            };
-                            Tree::push_token(&mut tokens, &mut lengths, token);
-                            Tree::create_node_add_token(
-                                &mut nodes,
-                                &mut parser,
-                                NodeType::Text,
-                                &next,
-                            );
+                            // Skip over ` token as it marks start of literal text, which may be empty.
+                            Tree::create_node(&mut nodes, &mut parser, NodeType::Text);
                             parser.nested_states.push(ParserState::Command);
                             parser.state = ParserState::LiteralText;
                         } else if token_str == "#" {
-- 
2.43.0


From 4fe591bc3d2ff891e516867307578bc47c67e5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:12 +0000
Subject: [PATCH 02/30] fix: accept every legal start of a named substring

---
 crates/localiser/src/tree.rs | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/crates/localiser/src/tree.rs b/crates/localiser/src/tree.rs
index 12e6521..7416dde 100644
--- a/crates/localiser/src/tree.rs
+++ b/crates/localiser/src/tree.rs
@@ -566,21 +566,21 @@ impl Tree {
                                     tokens[current].string.to_string(),
                                 ));
                             }
-                            let Some((_currrent, token)) = lexer.next() else {
-                                // Skip the next token
+                            // Skip over { token as it marks start of pattern.
+                            let Some((next, token)) = lexer.next() else {
                                 return Err(TreeError::EndedAbruptly);
                             };
                             Tree::push_token(&mut tokens, &mut lengths, token);
-                            match Tree::pattern_start(
+                            Tree::create_node(&mut nodes, &mut parser, NodeType::String);
+                            parser.nested_states.push(ParserState::NamedString);
+                            parser.state = ParserState::SubString;
+                            Tree::pattern_start(
                                 &mut nodes,
                                 &mut parser,
                                 &mut tokens,
-                                &current,
+                                &next,
                                 &mut patterns,
-                            ) {
-                                Ok(_) => {}
-                                Err(error) => return Err(error),
-                            };
+                            )?;
                         } else if token_str == "`" {
                             // ` may only appear after Identifier node indicating start of SubString.
                             let children =
@@ -604,6 +604,21 @@ impl Tree {
                                 NodeType::Text,
                                 &current,
                             );
+                            parser.state = ParserState::SubString;
+                        } else if token_str == "}" {
+                            // Substring is empty, thus } may only appear after Identifier node.
+                            let children =
+                                nodes[parser.current.unwrap()].children.as_ref().unwrap();
+                            if children.len() != 1 {
+                                return Err(TreeError::InvalidToken(
+                                    parser.state,
+                                    tokens[current].start_grapheme,
+                                    tokens[current].string.to_string(),
+                                ));
+                            }
+                            Tree::create_node(&mut nodes, &mut parser, NodeType::String);
+                            parser.current = nodes[parser.current.unwrap()].parent;
+                            Tree::end_nested_state(&mut nodes, &mut parser);
                         } else {
                             return Err(TreeError::InvalidToken(
                                 parser.state,
@@ -629,6 +644,7 @@ impl Tree {
                             NodeType::Text,
                             &current,
                         );
+                        parser.state = ParserState::SubString;
                     } else if tokens[current].token_type == TokenType::WhiteSpace {
                         // Valid WhiteSpace is only a separator between Identifier and Substring.
                         let children = nodes[parser.current.unwrap()].children.as_ref().unwrap();
-- 
2.43.0


From 49b16e49d96c3527b993b7ef6ae6e968c0dcb753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:12 +0000
Subject: [PATCH 03/30] fix: reject stray grammar tokens among pattern keywords

---
 crates/localiser/src/tree.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/localiser/src/tree.rs b/crates/localiser/src/tree.rs
index 7416dde..aa12bec 100644
--- a/crates/localiser/src/tree.rs
+++ b/crates/localiser/src/tree.rs
@@ -368,9 +368,14 @@ impl Tree {
                         parser.current = nodes.get(parser.current.take().unwrap()).unwrap().parent;
                     } else if tokens[current].token_type == TokenType::WhiteSpace {
                     } else if tokens[current].token_type == TokenType::Grammar {
-                        if tokens[current].string.as_str() == "}" {
-                            Tree::end_nested_state(&mut nodes, &mut parser);
+                        if tokens[current].string.as_str() != "}" {
+                            return Err(TreeError::InvalidToken(
+                                parser.state,
+                                tokens[current].start_grapheme,
+                                tokens[current].string.to_string(),
+                            ));
                         }
+                        Tree::end_nested_state(&mut nodes, &mut parser);
                     } else {
                         return Err(TreeError::InvalidToken(
                             parser.state,
-- 
2.43.0


From e2ca9e0ce3f8645a6a2bed25c375ed17875323b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:12 +0000
Subject: [PATCH 04/30] fix: close a delayed command that has no parameters

---
 crates/localiser/src/tree.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/localiser/src/tree.rs b/crates/localiser/src/tree.rs
index aa12bec..497e7d3 100644
--- a/crates/localiser/src/tree.rs
+++ b/crates/localiser/src/tree.rs
@@ -471,6 +471,7 @@ impl Tree {
                                 NodeType::NumberSign,
                                 &current,
                             );
+                            Tree::move_to_container(&mut nodes, &mut parser);
                         } else {
                             return Err(TreeError::InvalidToken(
                                 parser.state,
-- 
2.43.0


From 8e808e5202551317ea66ff098f06cd6c4bf5466b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:19 +0000
Subject: [PATCH 05/30] fix: take the branch or value of a selector from its
 second identifier

---
 crates/localiser/src/formatter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index bf3c916..b312a0a 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -1347,7 +1347,7 @@ fn pattern_selectors(
             return Err(FormatterError::NodeNotFound(NodeType::Identifier));
         }
         let first_token = tree.token(&tree.tokens(first).unwrap()[0]);
-        let last = tree.first(selector).unwrap();
+        let last = tree.last(selector).unwrap();
         if tree.node_type(last) != &NodeType::Identifier {
             return Err(FormatterError::NodeNotFound(NodeType::Identifier));
         }
-- 
2.43.0


From f66d02c50dd688ec8d6d7224bb20b001d69f61f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:20 +0000
Subject: [PATCH 06/30] fix: do not let a selector name the main string

---
 crates/localiser/src/formatter.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index b312a0a..bbaead7 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -77,7 +77,6 @@ impl Formatter {
         }
         let icu_language = localiser.language_tag_registry().icu_language(language_tag);
         let mut patterns = HashMap::<String, Vec<PatternPart>>::new();
-        patterns.insert("_".to_string(), Vec::<PatternPart>::new()); // Insert empty main pattern.
         let mut numbers = Vec::<String>::new();
         let mut selectors = Vec::<HashMap<String, String>>::new();
         let option_selectors = OptionSelectors {
@@ -112,7 +111,10 @@ impl Formatter {
 
                 // Two children: Identifier, String
                 let identifier_token = tree.token(&tree.tokens(identifier).unwrap()[0]);
-                if patterns.contains_key(identifier_token.string.as_str()) {
+                if identifier_token.string.as_str() == "_"
+                    || patterns.contains_key(identifier_token.string.as_str())
+                {
+                    // Identifier `_` is reserved for the main string.
                     return Err(FormatterError::NamedStringIdentifier(
                         identifier_token.string.as_str().to_string(),
                     ));
-- 
2.43.0


From 3c5881552db6ab9fdfa15f4afd7a3eb9ec395322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:20 +0000
Subject: [PATCH 07/30] fix: fall back to the other selector when a category or
 value is not listed

---
 crates/localiser/src/formatter.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index bbaead7..87d910f 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -602,7 +602,7 @@ impl Formatter {
             let Some(selectors) = self.selectors.get(selectors_index) else {
                 return Err(FormatterError::SelectorsIndex(selectors_index));
             };
-            let Some(named) = selectors.get(&category) else {
+            let Some(named) = selectors.get(&category).or_else(|| selectors.get("other")) else {
                 return Err(FormatterError::SelectorsIndexNamed(
                     category,
                     selectors_index,
@@ -650,7 +650,10 @@ impl Formatter {
         let Some(selectors) = self.selectors.get(selectors_index) else {
             return Err(FormatterError::SelectorsIndex(selectors_index));
         };
-        let Some(named) = selectors.get(string_value) else {
+        let Some(named) = selectors
+            .get(string_value)
+            .or_else(|| selectors.get("other"))
+        else {
             return Err(FormatterError::SelectorsIndexNamed(
                 string_value.to_string(),
                 selectors_index,
-- 
2.43.0


From fc95098b11bbf9e70f6f40b821f66f2876cf3de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:00 +0000
Subject: [PATCH 08/30] fix: do not leak the number of one pattern into a
 select sharing its branch

---
 crates/localiser/src/formatter.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index 87d910f..295fed7 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -659,7 +659,19 @@ impl Formatter {
                 selectors_index,
             ));
         };
-        let part_string = self.format_pattern(localiser, values, &named.to_string())?;
+        let named = named.to_string();
+
+        // No number applies to a selected string, thus drop any number left by another pattern using the string.
+        if let Some(pattern) = self.patterns.get(&named) {
+            for part in pattern.iter() {
+                if let PatternPart::NumberSign(index) = part {
+                    if let Some(number_string) = self.numbers.get_mut(*index) {
+                        number_string.clear();
+                    }
+                }
+            }
+        }
+        let part_string = self.format_pattern(localiser, values, &named)?;
         string.push_str(part_string.as_str());
         Ok(())
     }
-- 
2.43.0


From cb5a61c088bcc94704a1ced68423b80a6a8b90d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:00 +0000
Subject: [PATCH 09/30] fix: read the whole year of an expanded ISO 8601 year

---
 crates/localiser/src/formatter.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index 295fed7..0f37254 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -923,7 +923,10 @@ pub fn decompose_iso_date(string: &str) -> Result<Date<Iso>, FormatterError> {
     if parts.len() == 1 {
         // YYYYMMDD or YYYY. ISO 8601 may re-add YYYYMM in the future, once most historical data has been
         // converted from YYMMDD.
-        if let Some(slice) = parts[0].get(..4) {
+        if string.starts_with('+') {
+            // +YYYYY
+            year = i32::from_str(parts[0])?;
+        } else if let Some(slice) = parts[0].get(..4) {
             year = i32::from_str(slice)?;
 
             // try month
-- 
2.43.0


From 7b46fbe3d212f19baaa2c746b235b05887cac8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:00 +0000
Subject: [PATCH 10/30] fix: accept ISO 8601 times without fraction and with
 the UTC designator

---
 crates/localiser/src/formatter.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index 0f37254..d588747 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -999,6 +999,7 @@ pub fn decompose_iso_time(string: &str) -> Result<Time, FormatterError> {
         None => no_plus,
         Some(pos) => &no_plus[..pos],
     };
+    let trimmed = trimmed.trim_end_matches('Z');
     if trimmed.is_empty() {
         return Ok(Time::new(
             IsoHour::zero(),
@@ -1029,7 +1030,9 @@ pub fn decompose_iso_time(string: &str) -> Result<Time, FormatterError> {
                 // try nanosecond
                 let mut no_second = &no_minute[2..];
                 no_second = no_second.trim_start_matches('.');
-                nano = NanoSecond::from_str(no_second)?;
+                if !no_second.is_empty() {
+                    nano = NanoSecond::from_str(no_second)?;
+                }
             }
         }
     }
-- 
2.43.0


From 345a3bb8f0db6f525323dd09d7c391688773be11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:01 +0000
Subject: [PATCH 11/30] fix: cache plain strings under the requested language

---
 crates/localiser/src/localiser.rs | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/crates/localiser/src/localiser.rs b/crates/localiser/src/localiser.rs
index c96ac04..3758db2 100644
--- a/crates/localiser/src/localiser.rs
+++ b/crates/localiser/src/localiser.rs
@@ -1036,7 +1036,13 @@ impl Localiser {
         if localised.0.is_empty() {
             let string = RefCount::new(localised.0);
             if caching {
-                self.add_string_to_cache(_language_entry, combined, &string, &localised.1);
+                self.add_string_to_cache(
+                    _language_entry,
+                    language_tag,
+                    combined,
+                    &string,
+                    &localised.1,
+                );
                 return Ok((string, localised.1));
             }
             return Ok((string, localised.1));
@@ -1048,7 +1054,13 @@ impl Localiser {
                     // No grammar syntax was found, thus a literal string.
                     let string = RefCount::new(localised.0);
                     if caching {
-                        self.add_string_to_cache(_language_entry, combined, &string, &localised.1);
+                        self.add_string_to_cache(
+                            _language_entry,
+                            language_tag,
+                            combined,
+                            &string,
+                            &localised.1,
+                        );
                         return Ok((string, localised.1));
                     }
                     return Ok((string, localised.1));
@@ -1207,7 +1219,13 @@ impl Localiser {
         // Since pattern string is treated as literal, simply cache (if allowed) and return the string.
         let string = RefCount::new(localised.0);
         if caching {
-            self.add_string_to_cache(_language_entry, combined, &string, &localised.1);
+            self.add_string_to_cache(
+                _language_entry,
+                language_tag,
+                combined,
+                &string,
+                &localised.1,
+            );
         }
         Ok((string, RefCount::clone(&localised.1)))
     }
@@ -1262,6 +1280,7 @@ impl Localiser {
     fn add_string_to_cache(
         &self,
         language_exists: bool,
+        language_tag: &RefCount<LanguageTag>, // requested language, may differ from the language of the string.
         combined: String,
         string: &RefCount<String>,
         tag: &RefCount<LanguageTag>,
@@ -1280,13 +1299,13 @@ impl Localiser {
             #[cfg(not(feature = "sync"))]
             self.cache
                 .borrow_mut()
-                .insert(RefCount::clone(tag), data_entry);
+                .insert(RefCount::clone(language_tag), data_entry);
 
             #[cfg(feature = "sync")]
             self.cache
                 .write()
                 .unwrap()
-                .insert(RefCount::clone(tag), data_entry);
+                .insert(RefCount::clone(language_tag), data_entry);
         } else {
             // Language tag does exist in cache
             #[cfg(not(feature = "sync"))]
@@ -1295,7 +1314,7 @@ impl Localiser {
             #[cfg(feature = "sync")]
             let mut binding = self.cache.write().unwrap();
 
-            let data_entry = binding.get_mut(tag);
+            let data_entry = binding.get_mut(language_tag);
             data_entry.unwrap().insert(
                 combined,
                 CacheData::Localised(RefCount::clone(string), RefCount::clone(tag)),
-- 
2.43.0


From 17efdffc5d1d2b8b9707da33894365cb5e1c9c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:01 +0000
Subject: [PATCH 12/30] fix: keep cache entries of different requests apart

---
 crates/localiser/src/localiser.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/localiser/src/localiser.rs b/crates/localiser/src/localiser.rs
index 3758db2..6cb44ab 100644
--- a/crates/localiser/src/localiser.rs
+++ b/crates/localiser/src/localiser.rs
@@ -947,7 +947,9 @@ impl Localiser {
         fallback: bool, // true = fallback to default language.
         caching: bool, // true = cache the resultant Formatter for repeating use with different values.
     ) -> Result<(RefCount<String>, RefCount<LanguageTag>), LocaliserError> {
-        let mut combined = component.to_string();
+        // The result depends on `fallback`, and neither component nor identifier is restricted in characters.
+        let mut combined = format!("{}/{}/", fallback, component.len());
+        combined.push_str(component);
         combined.push('/');
         combined.push_str(identifier.as_ref());
         let mut _language_entry = false;
@@ -1150,7 +1152,9 @@ impl Localiser {
         fallback: bool, // true = fallback to default language, None = use the Localiser default.
         caching: bool, // true = cache the resultant Formatter for repeating use with different values.
     ) -> Result<(RefCount<String>, RefCount<LanguageTag>), LocaliserError> {
-        let mut combined = component.to_string();
+        // The result depends on `fallback`, and neither component nor identifier is restricted in characters.
+        let mut combined = format!("{}/{}/", fallback, component.len());
+        combined.push_str(component);
         combined.push('/');
         combined.push_str(identifier);
         let mut _language_entry = false;
-- 
2.43.0


From f46a407679cd505d21ae0c291efe3e632c4fb3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:01 +0000
Subject: [PATCH 13/30] fix: do not cache unformatted patterns as plain strings

---
 crates/localiser/src/localiser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/localiser/src/localiser.rs b/crates/localiser/src/localiser.rs
index 6cb44ab..06976bb 100644
--- a/crates/localiser/src/localiser.rs
+++ b/crates/localiser/src/localiser.rs
@@ -1221,8 +1221,9 @@ impl Localiser {
             };
 
         // Since pattern string is treated as literal, simply cache (if allowed) and return the string.
+        // Strings having grammar syntax characters are not cached, as those need a formatter when being formatted.
         let string = RefCount::new(localised.0);
-        if caching {
+        if caching && !string.contains(|c| self.grammar.contains(c)) {
             self.add_string_to_cache(
                 _language_entry,
                 language_tag,
-- 
2.43.0


From 9b086dc04ffe242dc902a4927b6d0084707ee3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:27 +0000
Subject: [PATCH 14/30] fix: built-in commands no longer panic on empty
 parameters

---
 crates/localiser/src/command.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/localiser/src/command.rs b/crates/localiser/src/command.rs
index 9b0291f..6815beb 100644
--- a/crates/localiser/src/command.rs
+++ b/crates/localiser/src/command.rs
@@ -177,8 +177,8 @@ impl Default for CommandRegistry {
 /// Requires 1 parameter having type of [`PlaceholderValue`]`::String`.
 /// Additional parameters are simply ignored.
 pub fn file_path(parameters: Vec<PlaceholderValue>) -> Result<String, CommandError> {
-    let command = match &parameters[0] {
-        PlaceholderValue::String(string) => string,
+    let command = match parameters.first() {
+        Some(PlaceholderValue::String(string)) => string,
 
         // When called from within the `Formatter` methods, this branch is never reached.
         _ => {
@@ -203,8 +203,8 @@ pub fn file_path(parameters: Vec<PlaceholderValue>) -> Result<String, CommandErr
 /// Requires 1 parameter having type of [`PlaceholderValue`]`::String`.
 /// Additional parameters are simply ignored.
 pub fn english_a_or_an(parameters: Vec<PlaceholderValue>) -> Result<String, CommandError> {
-    let command = match &parameters[0] {
-        PlaceholderValue::String(string) => string,
+    let command = match parameters.first() {
+        Some(PlaceholderValue::String(string)) => string,
 
         // When called from within the `Formatter` methods, this branch is never reached.
         _ => {
@@ -222,8 +222,8 @@ pub fn english_a_or_an(parameters: Vec<PlaceholderValue>) -> Result<String, Comm
         _ => return Err(CommandError::InvalidType(command.clone(), 1)),
     };
     let mut chars = string.chars();
-    match chars.next().unwrap() {
-        'a' | 'e' | 'i' | 'o' | 'u' => Ok("an".to_string()),
+    match chars.next() {
+        Some('a' | 'e' | 'i' | 'o' | 'u') => Ok("an".to_string()),
         _ => Ok("a".to_string()),
     }
 }
-- 
2.43.0


From 3759c2ac199946e4d3679fda7cad1c6a6d89f953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:39 +0000
Subject: [PATCH 15/30] fix: an exact match never returns a string of a shorter
 tag

---
 crates/provider/sqlite3/src/provider.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index 539671c..5f7a273 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -451,6 +451,9 @@ impl LocalisationProviderSqlite3 {
 
                 return Ok(strings);
             }
+            if exact {
+                break;
+            }
             tag = match tag.rsplit_once('-') {
                 None => String::new(),
                 Some(value) => value.0.to_owned(),
-- 
2.43.0


From 518cbf47d4e5de7c0baaffadc795aadaaf03a8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:39 +0000
Subject: [PATCH 16/30] fix: do not match languages that only share their first
 letters

---
 crates/provider/sqlite3/src/provider.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index 5f7a273..180dd39 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -407,9 +407,6 @@ impl LocalisationProviderSqlite3 {
         let mut strings = Vec::<(String, RefCount<LanguageTag>)>::new();
         let mut tag = language_tag.as_str().to_string();
         while !tag.is_empty() {
-            if !exact {
-                tag.push('%');
-            }
             let mut rows = match statement.query([identifier, tag.as_str(), component]) {
                 Ok(value) => value,
                 Err(error) => {
@@ -2162,15 +2159,15 @@ fn columns_check(
 fn query_pattern(schema_version: &str, only_one: bool, exact: bool) -> String {
     match schema_version {
         "1.0" => {
-            let mut query = "SELECT string, languageTag FROM pattern WHERE identifier = ?1 AND \
-            languageTag "
+            let mut query = "SELECT string, languageTag FROM pattern WHERE identifier = ?1 AND "
                 .to_string();
             if exact {
-                query.push_str("= ?2")
+                query.push_str("languageTag = ?2")
             } else {
-                query.push_str("LIKE ?2")
+                // Either the tag itself or the tag followed by further subtags, never just a common prefix.
+                query.push_str("(languageTag LIKE ?2 OR languageTag LIKE ?2 || '-%')")
             }
-            query.push_str(" AND component = ?3");
+            query.push_str(" AND component = ?3 ORDER BY languageTag");
             if only_one {
                 query.push_str(" LIMIT 1")
             }
-- 
2.43.0


From 74fb2fb537d66d858c58d858e7f5ea6c483f71fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:39 +0000
Subject: [PATCH 17/30] fix: identifier details cover both databases of a
 component

---
 crates/provider/sqlite3/src/provider.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index 180dd39..ea8b116 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -1435,8 +1435,13 @@ impl LocalisationProviderTrait for LocalisationProviderSqlite3 {
             None => Err(ProviderError::ComponentNotFound(component.to_string())),
             Some(component_details) => {
                 let mut languages = self.identifier_languages(component, identifier, true)?;
-                if languages.is_empty() {
-                    languages = self.identifier_languages(component, identifier, false)?;
+                if self.components.get(component) == Some(&(true, true)) {
+                    // Strings may also be in the component's own <component>.sqlite3 file.
+                    for language in self.identifier_languages(component, identifier, false)? {
+                        if !languages.contains(&language) {
+                            languages.push(language);
+                        }
+                    }
                 }
                 Ok(IdentifierDetails {
                     languages,
-- 
2.43.0


From 400608d175f7beca175421b3f2309e2804f593ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:39 +0000
Subject: [PATCH 18/30] fix: do not panic on paths that are not UTF-8

---
 crates/provider/sqlite3/src/provider.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index ea8b116..6acb50b 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -139,7 +139,7 @@ impl LocalisationProviderSqlite3 {
             if let Some(extension) = entry_data.path().extension() {
                 if extension == "sqlite3" {
                     let path = entry_data.path();
-                    let component = path.file_stem().unwrap().to_str().unwrap().to_string();
+                    let component = path.file_stem().unwrap().to_string_lossy().to_string();
 
                     #[cfg(logging)]
                     trace!("Sqlite3 file: {}", component);
@@ -1912,7 +1912,7 @@ pub fn verify_schema(connection: &Connection) -> Result<String, SchemaError> {
         }
         _ => {
             return Err(SchemaError::Version(
-                connection.path().unwrap().to_string(),
+                connection.path().unwrap_or_default().to_string(),
                 "1.0".to_string(),
             ))
         }
-- 
2.43.0


From 9652c493060d90ed8c781ae1cea4ee4da5dedff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:39 +0000
Subject: [PATCH 19/30] fix: report required columns missing at the end of a
 table

---
 crates/provider/sqlite3/src/provider.rs | 63 +++++++++++++++++++++++++
 1 file changed, 63 insertions(+)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index 6acb50b..5403744 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -1587,6 +1587,49 @@ pub fn verify_schema(connection: &Connection) -> Result<String, SchemaError> {
             table_exists(&table_list, "languageData")?;
 
             // Check required columns exists
+            columns_exist(
+                connection,
+                "contributor",
+                &[
+                    "rowID",
+                    "component",
+                    "languageTag",
+                    "contributor",
+                    "substituteFor",
+                    "comment",
+                    "verified",
+                ],
+            )?;
+            columns_exist(
+                connection,
+                "language",
+                &["rowID", "tag", "englishName", "added"],
+            )?;
+            columns_exist(
+                connection,
+                "pattern",
+                &[
+                    "rowID",
+                    "component",
+                    "identifier",
+                    "languageTag",
+                    "string",
+                    "comment",
+                    "verified",
+                ],
+            )?;
+            columns_exist(
+                connection,
+                "component",
+                &["rowID", "identifier", "languageTag", "comment", "added"],
+            )?;
+            columns_exist(
+                connection,
+                "languageData",
+                &["rowID", "component", "languageTag", "count", "ratio"],
+            )?;
+
+            // Check properties of the required columns
             // Table: contributor
             let mut statement =
                 connection.prepare("SELECT * FROM pragma_table_info('contributor');")?;
@@ -1936,6 +1979,26 @@ fn table_exists(table_list: &Vec<String>, name: &str) -> Result<(), SchemaError>
     Ok(())
 }
 
+/// Check all the columns exist in the table.
+fn columns_exist(
+    connection: &Connection,
+    table: &str,
+    columns: &[&str],
+) -> Result<(), SchemaError> {
+    let mut statement =
+        connection.prepare("SELECT count( * ) FROM pragma_table_info(?1) WHERE name = ?2;")?;
+    for column in columns {
+        let count: usize = statement.query_row([table, *column], |row| row.get(0))?;
+        if count == 0 {
+            return Err(SchemaError::MissingColumn(
+                table.to_string(),
+                column.to_string(),
+            ));
+        }
+    }
+    Ok(())
+}
+
 /// Holds the default value of the column.
 #[allow(dead_code)]
 enum DefaultValue {
-- 
2.43.0


From b843494b29061c7a0bdf1aeb4db74f2610de3965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:40 +0000
Subject: [PATCH 20/30] fix: writing direction and use of Armenian, Ethiopic,
 Kannada, Khojki, Kaithi and Todhri

---
 crates/localiser/src/script.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/localiser/src/script.rs b/crates/localiser/src/script.rs
index cbc06da..af74839 100644
--- a/crates/localiser/src/script.rs
+++ b/crates/localiser/src/script.rs
@@ -55,7 +55,7 @@ impl DataProvider {
             "Armn".to_string(),
             ScriptData {
                 category: Category::Alphabetic,
-                directions: vec![ScriptDirection::TopToBottomRightToLeft],
+                directions: vec![ScriptDirection::TopToBottomLeftToRight],
                 historic: false,
             },
         );
@@ -321,7 +321,7 @@ impl DataProvider {
             ScriptData {
                 category: Category::Abugida,
                 directions: vec![ScriptDirection::TopToBottomLeftToRight],
-                historic: true,
+                historic: false,
             },
         );
         data.insert(
@@ -655,7 +655,7 @@ impl DataProvider {
             "Khoj".to_string(),
             ScriptData {
                 category: Category::Abugida,
-                directions: vec![ScriptDirection::TopToBottomRightToLeft],
+                directions: vec![ScriptDirection::TopToBottomLeftToRight],
                 historic: true,
             },
         );
@@ -671,8 +671,8 @@ impl DataProvider {
             "Knda".to_string(),
             ScriptData {
                 category: Category::Abugida,
-                directions: vec![ScriptDirection::TopToBottomRightToLeft],
-                historic: true,
+                directions: vec![ScriptDirection::TopToBottomLeftToRight],
+                historic: false,
             },
         );
         data.insert(
@@ -699,7 +699,7 @@ impl DataProvider {
             "Kthi".to_string(),
             ScriptData {
                 category: Category::Abugida,
-                directions: vec![ScriptDirection::TopToBottomRightToLeft],
+                directions: vec![ScriptDirection::TopToBottomLeftToRight],
                 historic: true,
             },
         );
@@ -1484,7 +1484,7 @@ impl DataProvider {
             "Todr".to_string(),
             ScriptData {
                 category: Category::Alphabetic,
-                directions: vec![ScriptDirection::TopToBottomRightToLeft],
+                directions: vec![ScriptDirection::TopToBottomLeftToRight],
                 historic: false,
             },
         );
-- 
2.43.0


From dc2bebaf09b8ac32b552ced56189b78836da6185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:40 +0000
Subject: [PATCH 21/30] fix: script codes of Yi, Zanabazar Square, Gurung Khema
 and Japanese syllabaries

---
 crates/localiser/src/script.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/localiser/src/script.rs b/crates/localiser/src/script.rs
index af74839..16d2b56 100644
--- a/crates/localiser/src/script.rs
+++ b/crates/localiser/src/script.rs
@@ -408,7 +408,7 @@ impl DataProvider {
             },
         );
         data.insert(
-            "Gukn".to_string(),
+            "Gukh".to_string(),
             ScriptData {
                 category: Category::Abugida,
                 directions: vec![ScriptDirection::TopToBottomLeftToRight],
@@ -549,7 +549,7 @@ impl DataProvider {
             },
         );
         data.insert(
-            "Hikt".to_string(),
+            "Hrkt".to_string(),
             ScriptData {
                 category: Category::Syllabic,
                 directions: vec![
@@ -1569,15 +1569,15 @@ impl DataProvider {
             },
         );
         data.insert(
-            "Yezi".to_string(),
+            "Yiii".to_string(),
             ScriptData {
                 category: Category::Syllabic,
-                directions: vec![ScriptDirection::TopToBottomRightToLeft],
+                directions: vec![ScriptDirection::TopToBottomLeftToRight],
                 historic: false,
             },
         );
         data.insert(
-            "Zand".to_string(),
+            "Zanb".to_string(),
             ScriptData {
                 category: Category::Abugida,
                 directions: vec![ScriptDirection::TopToBottomLeftToRight],
-- 
2.43.0


From 4c013bf6dc93134b4261a5fb7fa92ac73ac3f8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:23 +0000
Subject: [PATCH 22/30] fix: concurrent first requests of a tag share one
 instance

---
 crates/utility/src/language.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/utility/src/language.rs b/crates/utility/src/language.rs
index e2a3033..d7b6cc4 100644
--- a/crates/utility/src/language.rs
+++ b/crates/utility/src/language.rs
@@ -203,6 +203,17 @@ impl LanguageTagRegistry {
         // Requested tag is not in tags or deprecated, add to registry and return reference counted
         // tag.
         let rc_new_tag = RefCount::new(LanguageTag { tag: new_tag });
+
+        // Another thread may have just registered the same tag, thus only the first instance is kept.
+        #[cfg(feature = "sync")]
+        let rc_new_tag = RefCount::clone(
+            self.tags
+                .lock()
+                .unwrap()
+                .entry(rc_new_tag.as_str().to_string())
+                .or_insert(rc_new_tag),
+        );
+
         if language_tag != rc_new_tag.as_str() {
             #[cfg(not(feature = "sync"))]
             self.deprecated
@@ -222,12 +233,6 @@ impl LanguageTagRegistry {
             RefCount::clone(&rc_new_tag),
         );
 
-        #[cfg(feature = "sync")]
-        self.tags.lock().unwrap().insert(
-            rc_new_tag.as_str().to_string(),
-            RefCount::clone(&rc_new_tag),
-        );
-
         Ok(RefCount::clone(&rc_new_tag))
     }
 
-- 
2.43.0


From 2a9dd132137f4d46e47ee65dc2b804ffb07425f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:28 +0000
Subject: [PATCH 23/30] fix: name the component and identifier that hold the
 error messages

---
 crates/lexer/src/error.rs     |  8 ++++----
 crates/localiser/src/error.rs | 18 +++++++++---------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/crates/lexer/src/error.rs b/crates/lexer/src/error.rs
index 370003c..99a50cf 100644
--- a/crates/lexer/src/error.rs
+++ b/crates/lexer/src/error.rs
@@ -125,7 +125,7 @@ impl LocalisationTrait for IcuError {
 
             IcuError::Grapheme => {
                 let message = LocalisationData {
-                    component: "i18n_icu".to_string(),
+                    component: "i18n_lexer".to_string(),
                     identifier: "grapheme".to_string(),
                     values: None,
                 };
@@ -147,7 +147,7 @@ impl LocalisationTrait for IcuError {
             }
             IcuError::Syntax => {
                 let message = LocalisationData {
-                    component: "i18n_icu".to_string(),
+                    component: "i18n_lexer".to_string(),
                     identifier: "syntax".to_string(),
                     values: None,
                 };
@@ -169,7 +169,7 @@ impl LocalisationTrait for IcuError {
             }
             IcuError::WhiteSpace => {
                 let message = LocalisationData {
-                    component: "i18n_icu".to_string(),
+                    component: "i18n_lexer".to_string(),
                     identifier: "white_space".to_string(),
                     values: None,
                 };
@@ -272,7 +272,7 @@ impl LocalisationTrait for LexerError {
             LexerError::NoGrammar => {
                 let message = LocalisationData {
                     component: "i18n_lexer".to_string(),
-                    identifier: "no_grammar_syntax".to_string(),
+                    identifier: "no_grammar".to_string(),
                     values: None,
                 };
                 let mut values = HashMap::<String, PlaceholderValue>::new();
diff --git a/crates/localiser/src/error.rs b/crates/localiser/src/error.rs
index eb598b1..b229981 100644
--- a/crates/localiser/src/error.rs
+++ b/crates/localiser/src/error.rs
@@ -77,7 +77,7 @@ impl LocalisationTrait for TreeError {
             }
             TreeError::EndedAbruptly => {
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "string_ended_abruptly".to_string(),
                     values: None,
                 };
@@ -109,7 +109,7 @@ impl LocalisationTrait for TreeError {
                 );
                 message_values.insert("token".to_string(), PlaceholderValue::String(token.clone()));
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "invalid_token".to_string(),
                     values: Some(message_values),
                 };
@@ -136,7 +136,7 @@ impl LocalisationTrait for TreeError {
                     PlaceholderValue::String(identifier.clone()),
                 );
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "unique_pattern".to_string(),
                     values: Some(message_values),
                 };
@@ -163,7 +163,7 @@ impl LocalisationTrait for TreeError {
                     PlaceholderValue::Unsigned(*position as u128),
                 );
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "multi_number_sign".to_string(),
                     values: Some(message_values),
                 };
@@ -190,7 +190,7 @@ impl LocalisationTrait for TreeError {
                     PlaceholderValue::String(identifier.clone()),
                 );
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "unique_named".to_string(),
                     values: Some(message_values),
                 };
@@ -309,7 +309,7 @@ impl LocalisationTrait for CommandError {
                     PlaceholderValue::String(command.to_string()),
                 );
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "already_exists".to_string(),
                     values: Some(message_values),
                 };
@@ -336,7 +336,7 @@ impl LocalisationTrait for CommandError {
                     PlaceholderValue::String(command.to_string()),
                 );
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "command_not_found".to_string(),
                     values: Some(message_values),
                 };
@@ -367,7 +367,7 @@ impl LocalisationTrait for CommandError {
                     PlaceholderValue::Unsigned(*index as u128),
                 );
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "parameter_missing".to_string(),
                     values: Some(message_values),
                 };
@@ -398,7 +398,7 @@ impl LocalisationTrait for CommandError {
                     PlaceholderValue::Unsigned(*index as u128),
                 );
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "invalid_type".to_string(),
                     values: Some(message_values),
                 };
-- 
2.43.0


From 3a8b29d6fda43a346cc9d14b9a3640f3e52fe86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:28 +0000
Subject: [PATCH 24/30] fix: supply numbers of error messages as strings for
 plain placeholders

---
 crates/localiser/src/error.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/localiser/src/error.rs b/crates/localiser/src/error.rs
index b229981..127b6d5 100644
--- a/crates/localiser/src/error.rs
+++ b/crates/localiser/src/error.rs
@@ -105,7 +105,7 @@ impl LocalisationTrait for TreeError {
                 );
                 message_values.insert(
                     "position".to_string(),
-                    PlaceholderValue::Unsigned(*position as u128),
+                    PlaceholderValue::String(position.to_string()),
                 );
                 message_values.insert("token".to_string(), PlaceholderValue::String(token.clone()));
                 let message = LocalisationData {
@@ -160,7 +160,7 @@ impl LocalisationTrait for TreeError {
                 let mut message_values = HashMap::<String, PlaceholderValue>::new();
                 message_values.insert(
                     "position".to_string(),
-                    PlaceholderValue::Unsigned(*position as u128),
+                    PlaceholderValue::String(position.to_string()),
                 );
                 let message = LocalisationData {
                     component: "i18n_localiser".to_string(),
@@ -364,7 +364,7 @@ impl LocalisationTrait for CommandError {
                 );
                 message_values.insert(
                     "index".to_string(),
-                    PlaceholderValue::Unsigned(*index as u128),
+                    PlaceholderValue::String(index.to_string()),
                 );
                 let message = LocalisationData {
                     component: "i18n_localiser".to_string(),
@@ -395,7 +395,7 @@ impl LocalisationTrait for CommandError {
                 );
                 message_values.insert(
                     "index".to_string(),
-                    PlaceholderValue::Unsigned(*index as u128),
+                    PlaceholderValue::String(index.to_string()),
                 );
                 let message = LocalisationData {
                     component: "i18n_localiser".to_string(),
@@ -1258,7 +1258,7 @@ impl LocalisationTrait for FormatterError {
                 );
                 message_values.insert(
                     "index".to_string(),
-                    PlaceholderValue::Unsigned(*index as u128),
+                    PlaceholderValue::String(index.to_string()),
                 );
                 let message = LocalisationData {
                     component: "i18n_localiser".to_string(),
@@ -1514,7 +1514,7 @@ impl LocalisationTrait for FormatterError {
                 let mut message_values = HashMap::<String, PlaceholderValue>::new();
                 message_values.insert(
                     "index".to_string(),
-                    PlaceholderValue::Unsigned(*index as u128),
+                    PlaceholderValue::String(index.to_string()),
                 );
                 let message = LocalisationData {
                     component: "i18n_localiser".to_string(),
@@ -1541,7 +1541,7 @@ impl LocalisationTrait for FormatterError {
                 let mut message_values = HashMap::<String, PlaceholderValue>::new();
                 message_values.insert(
                     "index".to_string(),
-                    PlaceholderValue::Unsigned(*index as u128),
+                    PlaceholderValue::String(index.to_string()),
                 );
                 let message = LocalisationData {
                     component: "i18n_localiser".to_string(),
@@ -1572,7 +1572,7 @@ impl LocalisationTrait for FormatterError {
                 );
                 message_values.insert(
                     "index".to_string(),
-                    PlaceholderValue::Unsigned(*index as u128),
+                    PlaceholderValue::String(index.to_string()),
                 );
                 let message = LocalisationData {
                     component: "i18n_localiser".to_string(),
-- 
2.43.0


From 236bbcd62f057bb1d5006752ab98189cb25da3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:28 +0000
Subject: [PATCH 25/30] fix: match the placeholder names of error messages with
 their values

---
 crates/localiser/l10n/i18n_localiser.sqlite3 | Bin 73728 -> 73728 bytes
 crates/localiser/src/error.rs                |  22 +++++++++----------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/crates/localiser/l10n/i18n_localiser.sqlite3 b/crates/localiser/l10n/i18n_localiser.sqlite3
index 631fa164db468629e47c614e5d5f0a7b958ff301..7cf83f9f42e15d84346763655328f420eda0968e 100644
GIT binary patch
delta 146
zcmZoTz|wGlWr8##`$QRMR(1xxvd)bui{CS{Z07jD!N{p>z{#MgE7+Jj`QS&1$%a78
z^M!Xh6Cb1K<lK*5ObiU0w|`v6!{sLlQYPLQpFRB`FQfS6wtq^KJr40s-u|xvsAjVH
w{|k(aTR9llGIExC09EP>HVRMQ$H*8o{QwiAIES&Wfw``M3Bz`MCdP}h0JXL)+5i9m

delta 153
zcmZoTz|wGlWr8##+e8^>RyGE`v{xHb7Qbg?*v#>PgOO9!fRjN}SFo{g^1+W1lMR8G
z^Bn)=u#fSZw|`v6!xbP2k``}F&Ypgdmr;Cj+drkr>}UBWZ~fOW+5G<nMux2%jB6P=
zD?EV8^aUG5r|)BA43e+P%+E`$RY*zA$w^cwE-A{)OHb4@GB7gMH89sTFxjrp#CTB_
E04#nqR{#J2

diff --git a/crates/localiser/src/error.rs b/crates/localiser/src/error.rs
index 127b6d5..b92c86c 100644
--- a/crates/localiser/src/error.rs
+++ b/crates/localiser/src/error.rs
@@ -305,7 +305,7 @@ impl LocalisationTrait for CommandError {
             CommandError::AlreadyExists(command) => {
                 let mut message_values = HashMap::<String, PlaceholderValue>::new();
                 message_values.insert(
-                    "command".to_string(),
+                    "identifier".to_string(),
                     PlaceholderValue::String(command.to_string()),
                 );
                 let message = LocalisationData {
@@ -332,7 +332,7 @@ impl LocalisationTrait for CommandError {
             CommandError::NotFound(command) => {
                 let mut message_values = HashMap::<String, PlaceholderValue>::new();
                 message_values.insert(
-                    "command".to_string(),
+                    "identifier".to_string(),
                     PlaceholderValue::String(command.to_string()),
                 );
                 let message = LocalisationData {
@@ -359,11 +359,11 @@ impl LocalisationTrait for CommandError {
             CommandError::ParameterMissing(command, index) => {
                 let mut message_values = HashMap::<String, PlaceholderValue>::new();
                 message_values.insert(
-                    "command".to_string(),
+                    "identifier".to_string(),
                     PlaceholderValue::String(command.to_string()),
                 );
                 message_values.insert(
-                    "index".to_string(),
+                    "parameter".to_string(),
                     PlaceholderValue::String(index.to_string()),
                 );
                 let message = LocalisationData {
@@ -390,11 +390,11 @@ impl LocalisationTrait for CommandError {
             CommandError::InvalidType(command, index) => {
                 let mut message_values = HashMap::<String, PlaceholderValue>::new();
                 message_values.insert(
-                    "command".to_string(),
+                    "identifier".to_string(),
                     PlaceholderValue::String(command.to_string()),
                 );
                 message_values.insert(
-                    "index".to_string(),
+                    "parameter".to_string(),
                     PlaceholderValue::String(index.to_string()),
                 );
                 let message = LocalisationData {
@@ -1323,7 +1323,7 @@ impl LocalisationTrait for FormatterError {
                     PlaceholderValue::String(keyword.to_string()),
                 );
                 message_values.insert(
-                    "placeholder".to_string(),
+                    "identifier".to_string(),
                     PlaceholderValue::String(placeholder.to_string()),
                 );
                 let message = LocalisationData {
@@ -1389,7 +1389,7 @@ impl LocalisationTrait for FormatterError {
                     PlaceholderValue::String(keyword.to_string()),
                 );
                 message_values.insert(
-                    "placeholder".to_string(),
+                    "identifier".to_string(),
                     PlaceholderValue::String(placeholder.to_string()),
                 );
                 let message = LocalisationData {
@@ -1451,7 +1451,7 @@ impl LocalisationTrait for FormatterError {
                     PlaceholderValue::String(keyword.to_string()),
                 );
                 message_values.insert(
-                    "placeholder".to_string(),
+                    "identifier".to_string(),
                     PlaceholderValue::String(placeholder.to_string()),
                 );
                 let message = LocalisationData {
@@ -1478,7 +1478,7 @@ impl LocalisationTrait for FormatterError {
             FormatterError::InvalidSelector(option, keyword, placeholder) => {
                 let mut message_values = HashMap::<String, PlaceholderValue>::new();
                 message_values.insert(
-                    "option".to_string(),
+                    "selector".to_string(),
                     PlaceholderValue::String(option.to_string()),
                 );
                 message_values.insert(
@@ -1486,7 +1486,7 @@ impl LocalisationTrait for FormatterError {
                     PlaceholderValue::String(keyword.to_string()),
                 );
                 message_values.insert(
-                    "placeholder".to_string(),
+                    "identifier".to_string(),
                     PlaceholderValue::String(placeholder.to_string()),
                 );
                 let message = LocalisationData {
-- 
2.43.0


From 0c5c2098580f6534f839c40d154b0f682f03974c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:07 +0000
Subject: [PATCH 26/30] fix: component name in the localisation repository of
 the lexer

---
 crates/lexer/l10n/i18n_lexer.sqlite3 | Bin 57344 -> 57344 bytes
 1 file changed, 0 insertions(+), 0 deletions(-)

diff --git a/crates/lexer/l10n/i18n_lexer.sqlite3 b/crates/lexer/l10n/i18n_lexer.sqlite3
index 624a48a3165869a6e5610ccba24c16fc99d7c62a..fc57b914ba34c6ecba04aef4e82e47f07ada1639 100644
GIT binary patch
delta 265
zcmZoTz}#?vd4e<}`$QRMR(1xxvd)bu@$!s$n~%tw3IM5J`ZIvM$&>x{8S@q&_6G`0
zJ`%44lz1M0!yiZ;Sg#EdJFs44(}7dmK-PnMB9rf*wgR&L-xHr~c*YaRsy>qrBp;v2
z0g?e{bAjZ(v&npU@j0m#sYU5Ui3J&{xswyl8cdEqXAG3wa9?cl%5xyaV&_YNcJ!PN
z<_B^f+>-;6|L-XRNyYmzK+^6$$Zc`=Wr1YPeF+&<6H_xwSQJ<lmBkq|4J|;XDgc#T
Pye}<+rYtp2H_8zJQl4yQ

delta 265
zcmZoTz}#?vd4e<}+e8^>RyGE`v{xHb;^i5WHXo5U6#!Dd^k)EhlPCM@GbSxQ><<*0
zd?a28DDgc0hCh%xuwEM^c3{28rUR$AfvgAjL?+)qZ3Sfgzb8J~@Qf#rRedHMNIpK3
z10(~^<^sumXOsDo;&W0fQj5}y5(_d?b0;U9HJBWK&KM}U;l9}9mFGZ;#m<)k?dUll
z%n#%|xF-iB|KC#tl8X0bfTZ1hklW(!%L2)o`w}v!CZ=YVuqd!9DvL8_8d`u%RRAix
PcwbrsO<8K5Zj>Vc>*H%?

-- 
2.43.0


From 38e86bc9b4a943cd8a8150a7b58998586f4e6527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:07 +0000
Subject: [PATCH 27/30] fix: report the type and variant of the error that
 occurred

---
 crates/lexer/src/error.rs     | 4 ++--
 crates/localiser/src/error.rs | 4 ++--
 crates/utility/src/error.rs   | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/lexer/src/error.rs b/crates/lexer/src/error.rs
index 99a50cf..b03fb42 100644
--- a/crates/lexer/src/error.rs
+++ b/crates/lexer/src/error.rs
@@ -155,7 +155,7 @@ impl LocalisationTrait for IcuError {
                 values.insert("type".to_string(), type_string);
                 values.insert(
                     "variant".to_string(),
-                    PlaceholderValue::String("Grapheme".to_string()),
+                    PlaceholderValue::String("Syntax".to_string()),
                 );
                 values.insert(
                     "message".to_string(),
@@ -177,7 +177,7 @@ impl LocalisationTrait for IcuError {
                 values.insert("type".to_string(), type_string);
                 values.insert(
                     "variant".to_string(),
-                    PlaceholderValue::String("Grapheme".to_string()),
+                    PlaceholderValue::String("WhiteSpace".to_string()),
                 );
                 values.insert(
                     "message".to_string(),
diff --git a/crates/localiser/src/error.rs b/crates/localiser/src/error.rs
index b92c86c..192e959 100644
--- a/crates/localiser/src/error.rs
+++ b/crates/localiser/src/error.rs
@@ -63,7 +63,7 @@ impl LocalisationTrait for TreeError {
                 values.insert("type".to_string(), type_string);
                 values.insert(
                     "variant".to_string(),
-                    PlaceholderValue::String("LexerError".to_string()),
+                    PlaceholderValue::String("Lexer".to_string()),
                 );
                 values.insert(
                     "error".to_string(),
@@ -290,7 +290,7 @@ impl LocalisationTrait for CommandError {
                 values.insert("type".to_string(), type_string);
                 values.insert(
                     "variant".to_string(),
-                    PlaceholderValue::String("Registry".to_string()),
+                    PlaceholderValue::String("Custom".to_string()),
                 );
                 values.insert(
                     "error".to_string(),
diff --git a/crates/utility/src/error.rs b/crates/utility/src/error.rs
index e9afd00..70d251c 100644
--- a/crates/utility/src/error.rs
+++ b/crates/utility/src/error.rs
@@ -31,7 +31,7 @@ impl LocalisationErrorTrait for RegistryError {}
 
 impl LocalisationTrait for RegistryError {
     fn localisation_data(&self) -> LocalisationData {
-        let type_string = PlaceholderValue::String("IcuError".to_string());
+        let type_string = PlaceholderValue::String("RegistryError".to_string());
         match self {
             #[cfg(not(feature = "extend"))]
             RegistryError::LanguageIdentifier(error) => {
-- 
2.43.0


From e699772a21f3123e8b9a1de3139402643a33f0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:52 +0000
Subject: [PATCH 28/30] fix: day 00 of an ISO date string is an error

---
 crates/localiser/src/formatter.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index d588747..8f77ad7 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -12,7 +12,7 @@ use i18n_lexer::{DataProvider, IcuDataProvider, Token, TokenType};
 use i18n_utility::{LanguageTag, PlaceholderValue};
 use icu_calendar::{
     types::{IsoHour, IsoMinute, IsoSecond, NanoSecond, Time},
-    Date, DateTime, Iso,
+    CalendarError, Date, DateTime, Iso,
 };
 use icu_datetime::{
     options::length::{Bag, Date as DateLength, Time as TimeLength},
@@ -962,6 +962,13 @@ pub fn decompose_iso_date(string: &str) -> Result<Date<Iso>, FormatterError> {
             }
         }
     }
+    if day == 0 {
+        // `Date::try_new_iso_date` only checks the maximum.
+        return Err(FormatterError::Calendar(CalendarError::Underflow {
+            field: "day",
+            min: 1,
+        }));
+    }
     let result = Date::try_new_iso_date(year, month, day)?;
     Ok(result)
 }
-- 
2.43.0


From 52b10e3e50dd2142e793ada96a3035b2e9d5ace3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:41 +0000
Subject: [PATCH 29/30] fix: format the literals of error messages that have no
 placeholders

---
 crates/localiser/src/error.rs        | 4 ++--
 crates/provider/sqlite3/src/error.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/localiser/src/error.rs b/crates/localiser/src/error.rs
index 192e959..3fae11c 100644
--- a/crates/localiser/src/error.rs
+++ b/crates/localiser/src/error.rs
@@ -994,7 +994,7 @@ impl LocalisationTrait for FormatterError {
                 let message = LocalisationData {
                     component: "i18n_localiser".to_string(),
                     identifier: "invalid_root".to_string(),
-                    values: None,
+                    values: Some(HashMap::new()),
                 };
                 let mut values = HashMap::<String, PlaceholderValue>::new();
                 values.insert("type".to_string(), type_string);
@@ -1684,7 +1684,7 @@ impl LocalisationTrait for FormatterError {
                 let message = LocalisationData {
                     component: "i18n_localiser".to_string(),
                     identifier: "no_icu_provider".to_string(),
-                    values: None,
+                    values: Some(HashMap::new()),
                 };
                 let mut values = HashMap::<String, PlaceholderValue>::new();
                 values.insert("type".to_string(), type_string);
diff --git a/crates/provider/sqlite3/src/error.rs b/crates/provider/sqlite3/src/error.rs
index 906833e..6a7b7ac 100644
--- a/crates/provider/sqlite3/src/error.rs
+++ b/crates/provider/sqlite3/src/error.rs
@@ -146,7 +146,7 @@ impl LocalisationTrait for ProviderSqlite3Error {
                 let message = LocalisationData {
                     component: "i18n_provider_sqlite3".to_string(),
                     identifier: "path_conversion".to_string(),
-                    values: None,
+                    values: Some(HashMap::new()),
                 };
                 let mut values = HashMap::<String, PlaceholderValue>::new();
                 values.insert("type".to_string(), type_string);
-- 
2.43.0


From 260bf7a9602d89ea54b3547046d735666d4f34af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:24 +0000
Subject: [PATCH 30/30] fix: never record a canonical tag as deprecated when
 threads register it at once

---
 crates/utility/src/language.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/utility/src/language.rs b/crates/utility/src/language.rs
index d7b6cc4..e22a22e 100644
--- a/crates/utility/src/language.rs
+++ b/crates/utility/src/language.rs
@@ -192,10 +192,13 @@ impl LanguageTagRegistry {
 
             #[cfg(feature = "sync")]
             if let Some(result) = self.tags.lock().unwrap().get(&new_tag) {
-                self.deprecated
-                    .lock()
-                    .unwrap()
-                    .insert(language_tag.to_string(), RefCount::clone(result));
+                // Another thread may have just registered the requested tag itself.
+                if language_tag != result.as_str() {
+                    self.deprecated
+                        .lock()
+                        .unwrap()
+                        .insert(language_tag.to_string(), RefCount::clone(result));
+                }
                 return Ok(RefCount::clone(result));
             }
         }
-- 
2.43.0

