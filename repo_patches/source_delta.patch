From 7066f79f6ddc4bbda4d4a7c7f6c5cf083334852d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:06 +0000
Subject: [PATCH 01/64] fix: detect duplicate and reopened keys at the document
 root

Keys closed at the root were not remembered, and path segments were compared by
a display string that drops tag payloads, so `a 1; b 2; a 3` was accepted and
`@env"A" 1; @env"B" 2` was rejected. Compare keys by value and remember
closed root keys.
---
 crates/styx-parse/src/parser/mod.rs | 156 +++++++++++-----------------
 1 file changed, 59 insertions(+), 97 deletions(-)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index 7fd353a..ff3b56e 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -493,8 +493,7 @@ impl<'src> Parser<'src> {
 
         if let ParserState::DocumentRoot { path_state, .. } = &mut self.state {
             // Check path state - this handles duplicates for us
-            let key_text = key_value.to_key_string();
-            let path = vec![key_text];
+            let path = vec![key_value];
             let value_kind = if atoms.len() >= 2 {
                 match &atoms[1].content {
                     AtomContent::Object { .. } | AtomContent::Attributes(_) => {
@@ -1040,7 +1039,10 @@ impl<'src> Parser<'src> {
             let first_key_value = KeyValue::Scalar(segments[0].to_string());
             seen_keys.entry(first_key_value).or_insert(path_span);
 
-            let path: Vec<String> = segments.iter().map(|s| s.to_string()).collect();
+            let path: Vec<KeyValue> = segments
+                .iter()
+                .map(|s| KeyValue::Scalar(s.to_string()))
+                .collect();
             let value_kind = if atoms.len() >= 2 {
                 match &atoms[1].content {
                     AtomContent::Object { .. } | AtomContent::Attributes(_) => {
@@ -1649,32 +1651,34 @@ enum PathError {
 /// - Which child keys have been "closed" (can't be reopened)
 #[derive(Debug, Clone)]
 struct PathSegment {
-    key: String,
+    key: KeyValue,
     span: Span,
     value_kind: PathValueKind,
     /// Keys that have been closed at this level. When we move from a.b.c to a.b.d,
     /// we add "c" to the closed_children of the "b" segment. This is O(siblings at this level)
     /// rather than O(all paths ever seen).
-    closed_children: HashMap<String, Span>,
+    closed_children: HashMap<KeyValue, Span>,
 }
 
-/// Path state tracker with O(depth) memory usage.
+/// Path state tracker with O(siblings) memory usage.
 ///
 /// Instead of tracking all paths ever seen (O(total paths)), we only track:
 /// - The current path as a stack of segments
-/// - At each segment, which sibling keys have been closed
+/// - At the root and at each segment, which sibling keys have been closed
 ///
 /// This works because we can never go back to a previous sibling in the file order.
 #[derive(Default, Clone)]
 struct PathState {
     /// The current path, as a stack of segments. Length is O(max depth).
     segments: Vec<PathSegment>,
+    /// Keys that have been closed at the root.
+    closed_roots: HashMap<KeyValue, Span>,
 }
 
 impl PathState {
     fn check_and_update(
         &mut self,
-        path: &[String],
+        path: &[KeyValue],
         span: Span,
         value_kind: PathValueKind,
     ) -> Result<(), PathError> {
@@ -1690,107 +1694,65 @@ impl PathState {
             .take_while(|(seg, key)| seg.key == **key)
             .count();
 
-        // Special case: if the entire path matches, check for duplicate
-        // This happens when we see `a 1` then `a 2` - the path ["a"] fully matches
-        if common_len == path.len()
-            && common_len == self.segments.len()
-            && !self.segments.is_empty()
-        {
-            // Exact same path - this is a duplicate
+        // The whole path is already open: its last key has been defined before,
+        // either with a value (`a 1` then `a 2`) or as a prefix (`a.b 1` then `a 2`).
+        if common_len == path.len() {
             return Err(PathError::Duplicate {
-                original: self.segments.last().unwrap().span,
+                original: self.segments[common_len - 1].span,
             });
         }
 
-        // Close segments beyond common prefix and check for reopening
-        // We iterate from deepest to shallowest
-        while self.segments.len() > common_len {
-            let closed_segment = self.segments.pop().unwrap();
-
-            // Add this key to parent's closed_children (if there is a parent)
-            if let Some(parent) = self.segments.last_mut() {
-                parent
-                    .closed_children
-                    .insert(closed_segment.key, closed_segment.span);
-            }
+        // Can't nest into a terminal value
+        if common_len > 0 && self.segments[common_len - 1].value_kind == PathValueKind::Terminal {
+            return Err(PathError::NestIntoTerminal {
+                terminal_path: path[..common_len]
+                    .iter()
+                    .map(KeyValue::to_key_string)
+                    .collect(),
+            });
         }
 
-        // Now process each new segment of the path
-        for (i, key) in path.iter().enumerate().skip(common_len) {
-            let is_last = i == path.len() - 1;
-            let segment_value_kind = if is_last {
-                value_kind
-            } else {
-                PathValueKind::Object
+        // Close segments beyond common prefix, from deepest to shallowest
+        while self.segments.len() > common_len {
+            let closed_segment = self.segments.pop().unwrap();
+            let closed_siblings = match self.segments.last_mut() {
+                Some(parent) => &mut parent.closed_children,
+                None => &mut self.closed_roots,
             };
+            closed_siblings.insert(closed_segment.key, closed_segment.span);
+        }
 
-            if i == common_len && common_len < self.segments.len() {
-                // This case shouldn't happen after the while loop above, but handle defensively
-                unreachable!("segments should have been truncated");
-            }
-
-            if i < self.segments.len() {
-                // We're on the same path segment - check for exact duplicate
-                let existing = &self.segments[i];
-                if existing.key == *key && is_last {
-                    return Err(PathError::Duplicate {
-                        original: existing.span,
-                    });
-                }
-            } else if i == 0 {
-                // Root level - no parent to check
-                // Check if we already have a root segment with this key
-                if !self.segments.is_empty() && self.segments[0].key == *key {
-                    if is_last {
-                        return Err(PathError::Duplicate {
-                            original: self.segments[0].span,
-                        });
-                    }
-                    // Continue using existing segment
-                    continue;
-                }
-                // New root segment
-                self.segments.push(PathSegment {
-                    key: key.clone(),
-                    span,
-                    value_kind: segment_value_kind,
-                    closed_children: HashMap::new(),
-                });
+        // The first new segment may not have been closed at this level
+        let closed_siblings = match self.segments.last() {
+            Some(parent) => &parent.closed_children,
+            None => &self.closed_roots,
+        };
+        if let Some(&original) = closed_siblings.get(&path[common_len]) {
+            return Err(if path.len() == 1 {
+                PathError::Duplicate { original }
             } else {
-                // Check parent's closed_children for reopening
-                let parent = &self.segments[i - 1];
-
-                // Check if parent is terminal (can't nest into it)
-                if parent.value_kind == PathValueKind::Terminal {
-                    return Err(PathError::NestIntoTerminal {
-                        terminal_path: self.segments.iter().map(|s| s.key.clone()).collect(),
-                    });
+                PathError::Reopened {
+                    closed_path: path[..=common_len]
+                        .iter()
+                        .map(KeyValue::to_key_string)
+                        .collect(),
                 }
-
-                // Check if this key was already closed at this level
-                if parent.closed_children.contains_key(key) {
-                    return Err(PathError::Reopened {
-                        closed_path: self.segments[..i]
-                            .iter()
-                            .map(|s| s.key.clone())
-                            .chain(std::iter::once(key.clone()))
-                            .collect(),
-                    });
-                }
-
-                // Add new segment
-                self.segments.push(PathSegment {
-                    key: key.clone(),
-                    span,
-                    value_kind: segment_value_kind,
-                    closed_children: HashMap::new(),
-                });
-            }
+            });
         }
 
-        // Update the value_kind of the last segment to match what was passed in
-        if let Some(last) = self.segments.last_mut() {
-            last.value_kind = value_kind;
+        // Open the new segments
+        for (i, key) in path.iter().enumerate().skip(common_len) {
+            let is_last = i == path.len() - 1;
+            self.segments.push(PathSegment {
+                key: key.clone(),
+                span,
+                value_kind: if is_last {
+                    value_kind
+                } else {
+                    PathValueKind::Object
+                },
+                closed_children: HashMap::new(),
+            });
         }
 
         Ok(())
-- 
2.43.0


From f7cfbcd8a54079fdfd6da61ce37aa3a4f521c5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:57 +0000
Subject: [PATCH 02/64] fix: apply the dotted path rules inside braced objects

Entries of `{...}` objects skipped path checking (`x {a.b 1, a.b 2}` was
accepted), entries of nested objects did not expand dotted keys at all, and
heredoc keys were accepted there. Use one code path for every object.
---
 crates/styx-parse/src/parser/mod.rs | 290 +++++++++-------------------
 1 file changed, 92 insertions(+), 198 deletions(-)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index ff3b56e..3fe95ff 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -60,7 +60,6 @@ enum ParserState {
 
     /// At implicit document root.
     DocumentRoot {
-        seen_keys: HashMap<KeyValue, Span>,
         pending_doc_comment: Option<Span>,
         path_state: PathState,
         /// Whether we've emitted ObjectStart for the implicit root object.
@@ -70,7 +69,7 @@ enum ParserState {
     /// Inside explicit object { ... }.
     InObject {
         start_span: Span,
-        seen_keys: HashMap<KeyValue, Span>,
+        path_state: PathState,
         pending_doc_comment: Option<Span>,
         /// Parent state to restore when we pop.
         parent: Box<ParserState>,
@@ -139,7 +138,6 @@ impl<'src> Parser<'src> {
         match &self.state {
             ParserState::BeforeDocument => {
                 self.state = ParserState::DocumentRoot {
-                    seen_keys: HashMap::new(),
                     pending_doc_comment: None,
                     path_state: PathState::default(),
                     emitted_object_start: false,
@@ -284,7 +282,7 @@ impl<'src> Parser<'src> {
                     // Explicit root object - after it closes, document is done
                     self.state = ParserState::InObject {
                         start_span: span,
-                        seen_keys: HashMap::new(),
+                        path_state: PathState::default(),
                         pending_doc_comment: None,
                         parent: Box::new(ParserState::AfterDocument),
                     };
@@ -312,7 +310,7 @@ impl<'src> Parser<'src> {
                     }
                     let atoms = self.collect_entry_atoms(lexeme);
                     if !atoms.is_empty() {
-                        self.emit_entry_at_root(&atoms);
+                        self.emit_entry(&atoms);
                     }
                     return self.event_queue.pop_front();
                 }
@@ -433,7 +431,7 @@ impl<'src> Parser<'src> {
                     }
                     let atoms = self.collect_entry_atoms(lexeme);
                     if !atoms.is_empty() {
-                        self.emit_entry_in_object(&atoms);
+                        self.emit_entry(&atoms);
                     }
                     return self.event_queue.pop_front();
                 }
@@ -452,29 +450,31 @@ impl<'src> Parser<'src> {
         self.state = parent;
     }
 
-    /// Emit entry at document root (with path state).
-    fn emit_entry_at_root(&mut self, atoms: &[Atom<'src>]) {
-        if atoms.is_empty() {
+    /// Emit an entry of the root object, implicit or explicit.
+    fn emit_entry(&mut self, atoms: &[Atom<'src>]) {
+        let Some(key_atom) = atoms.first() else {
             return;
-        }
-
-        let key_atom = &atoms[0];
+        };
 
-        // Check for invalid key types
-        if let AtomContent::Scalar {
-            kind: ScalarKind::Heredoc,
-            ..
-        } = &key_atom.content
-        {
-            // For heredocs, point at just the opening marker (<<TAG), not the whole content
-            let error_span = self.heredoc_start_span(key_atom.span);
+        let path_state = match &mut self.state {
+            ParserState::DocumentRoot { path_state, .. }
+            | ParserState::InObject { path_state, .. } => path_state,
+            _ => return,
+        };
+        let error = check_entry_key(path_state, key_atom, atoms.get(1));
+        if let Some((span, kind)) = error {
             self.event_queue.push_back(Event {
-                span: error_span,
-                kind: EventKind::Error {
-                    kind: ParseErrorKind::InvalidKey,
-                },
+                span,
+                kind: EventKind::Error { kind },
             });
         }
+        self.emit_entry_atoms(atoms);
+    }
+
+    /// Emit the events of one entry.
+    fn emit_entry_atoms(&mut self, atoms: &[Atom<'src>]) {
+        let key_atom = &atoms[0];
+        self.check_heredoc_key(key_atom);
 
         // Check for dotted path
         if let AtomContent::Scalar {
@@ -483,88 +483,30 @@ impl<'src> Parser<'src> {
         } = &key_atom.content
             && value.contains('.')
         {
-            self.emit_dotted_path_entry(value.clone(), key_atom.span, atoms, true);
+            let path = value.clone();
+            self.emit_dotted_path_entry(path, key_atom.span, atoms);
             return;
         }
 
-        // Simple key - use path state for duplicate detection at root level
-        // (path_state handles both simple and dotted paths uniformly)
-        let key_value = KeyValue::from_atom(key_atom);
-
-        if let ParserState::DocumentRoot { path_state, .. } = &mut self.state {
-            // Check path state - this handles duplicates for us
-            let path = vec![key_value];
-            let value_kind = if atoms.len() >= 2 {
-                match &atoms[1].content {
-                    AtomContent::Object { .. } | AtomContent::Attributes(_) => {
-                        PathValueKind::Object
-                    }
-                    _ => PathValueKind::Terminal,
-                }
-            } else {
-                PathValueKind::Terminal
-            };
-
-            if let Err(err) = path_state.check_and_update(&path, key_atom.span, value_kind) {
-                self.emit_path_error(err, key_atom.span);
-            }
-        }
-
         self.emit_simple_entry(atoms);
     }
 
-    /// Emit entry inside an object (no path state).
-    fn emit_entry_in_object(&mut self, atoms: &[Atom<'src>]) {
-        if atoms.is_empty() {
-            return;
-        }
-
-        let key_atom = &atoms[0];
-
-        // Check for invalid key types
+    /// Heredocs are not valid keys.
+    fn check_heredoc_key(&mut self, key_atom: &Atom<'src>) {
         if let AtomContent::Scalar {
             kind: ScalarKind::Heredoc,
             ..
         } = &key_atom.content
         {
+            // For heredocs, point at just the opening marker (<<TAG), not the whole content
+            let error_span = self.heredoc_start_span(key_atom.span);
             self.event_queue.push_back(Event {
-                span: key_atom.span,
+                span: error_span,
                 kind: EventKind::Error {
                     kind: ParseErrorKind::InvalidKey,
                 },
             });
         }
-
-        // Check for dotted path (still allowed in nested objects)
-        if let AtomContent::Scalar {
-            value,
-            kind: ScalarKind::Bare,
-        } = &key_atom.content
-            && value.contains('.')
-        {
-            self.emit_dotted_path_entry(value.clone(), key_atom.span, atoms, false);
-            return;
-        }
-
-        // Simple key - check for duplicates
-        let key_value = KeyValue::from_atom(key_atom);
-
-        if let ParserState::InObject { seen_keys, .. } = &mut self.state {
-            if let Some(&original_span) = seen_keys.get(&key_value) {
-                self.event_queue.push_back(Event {
-                    span: key_atom.span,
-                    kind: EventKind::Error {
-                        kind: ParseErrorKind::DuplicateKey {
-                            original: original_span,
-                        },
-                    },
-                });
-            } else {
-                seen_keys.insert(key_value, key_atom.span);
-            }
-        }
-
-        self.emit_simple_entry(atoms);
     }
 
     /// Emit a simple (non-dotted) entry.
@@ -818,8 +760,8 @@ impl<'src> Parser<'src> {
     /// Parse an object atom.
     fn parse_object_atom(&mut self, start_span: Span) -> Atom<'src> {
         let mut entries: Vec<ObjectEntry<'src>> = Vec::new();
-        let mut seen_keys: HashMap<KeyValue, Span> = HashMap::new();
-        let mut duplicate_key_spans: Vec<(Span, Span)> = Vec::new();
+        let mut path_state = PathState::default();
+        let mut key_errors: Vec<(Span, ParseErrorKind)> = Vec::new();
         let mut dangling_doc_comment_spans: Vec<Span> = Vec::new();
         let mut pending_doc_comments: Vec<(Span, &'src str)> = Vec::new();
         let mut unclosed = false;
@@ -870,34 +812,14 @@ impl<'src> Parser<'src> {
                     let entry_atoms = self.collect_entry_atoms(lexeme);
 
                     if !entry_atoms.is_empty() {
-                        let key = entry_atoms[0].clone();
-                        let key_value = KeyValue::from_atom(&key);
-
-                        if let Some(&original_span) = seen_keys.get(&key_value) {
-                            duplicate_key_spans.push((original_span, key.span));
-                        } else {
-                            seen_keys.insert(key_value, key.span);
-                        }
-
-                        let (value, too_many_atoms_span) = if entry_atoms.len() == 1 {
-                            (
-                                Atom {
-                                    span: key.span,
-                                    content: AtomContent::Unit,
-                                },
-                                None,
-                            )
-                        } else if entry_atoms.len() == 2 {
-                            (entry_atoms[1].clone(), None)
-                        } else {
-                            (entry_atoms[1].clone(), Some(entry_atoms[2].span))
-                        };
-
+                        key_errors.extend(check_entry_key(
+                            &mut path_state,
+                            &entry_atoms[0],
+                            entry_atoms.get(1),
+                        ));
                         entries.push(ObjectEntry {
-                            key,
-                            value,
+                            atoms: entry_atoms,
                             doc_comment,
-                            too_many_atoms_span,
                         });
                     }
                 }
@@ -908,7 +830,7 @@ impl<'src> Parser<'src> {
             span: Span::new(start_span.start, end_span.end),
             content: AtomContent::Object {
                 entries,
-                duplicate_key_spans,
+                key_errors,
                 dangling_doc_comment_spans,
                 unclosed,
             },
@@ -1006,7 +928,6 @@ impl<'src> Parser<'src> {
         path_text: Cow<'src, str>,
         path_span: Span,
         atoms: &[Atom<'src>],
-        check_path_state: bool,
     ) {
         let segments: Vec<&str> = path_text.split('.').collect();
 
@@ -1028,37 +949,6 @@ impl<'src> Parser<'src> {
             return;
         }
 
-        // Check path state at root
-        if check_path_state
-            && let ParserState::DocumentRoot {
-                seen_keys,
-                path_state,
-                ..
-            } = &mut self.state
-        {
-            let first_key_value = KeyValue::Scalar(segments[0].to_string());
-            seen_keys.entry(first_key_value).or_insert(path_span);
-
-            let path: Vec<KeyValue> = segments
-                .iter()
-                .map(|s| KeyValue::Scalar(s.to_string()))
-                .collect();
-            let value_kind = if atoms.len() >= 2 {
-                match &atoms[1].content {
-                    AtomContent::Object { .. } | AtomContent::Attributes(_) => {
-                        PathValueKind::Object
-                    }
-                    _ => PathValueKind::Terminal,
-                }
-            } else {
-                PathValueKind::Terminal
-            };
-
-            if let Err(err) = path_state.check_and_update(&path, path_span, value_kind) {
-                self.emit_path_error(err, path_span);
-            }
-        }
-
         // Emit nested structure
         let depth = segments.len();
         let mut current_offset = path_span.start;
@@ -1124,21 +1014,6 @@ impl<'src> Parser<'src> {
         }
     }
 
-    /// Emit path error.
-    fn emit_path_error(&mut self, err: PathError, span: Span) {
-        let kind = match err {
-            PathError::Duplicate { original } => ParseErrorKind::DuplicateKey { original },
-            PathError::Reopened { closed_path } => ParseErrorKind::ReopenedPath { closed_path },
-            PathError::NestIntoTerminal { terminal_path } => {
-                ParseErrorKind::NestIntoTerminal { terminal_path }
-            }
-        };
-        self.event_queue.push_back(Event {
-            span,
-            kind: EventKind::Error { kind },
-        });
-    }
-
     /// Get the span of just the heredoc opening marker (<<TAG\n).
     fn heredoc_start_span(&self, heredoc_span: Span) -> Span {
         let text = &self.input[heredoc_span.start as usize..heredoc_span.end as usize];
@@ -1323,7 +1198,7 @@ impl<'src> Parser<'src> {
             }
             AtomContent::Object {
                 entries,
-                duplicate_key_spans,
+                key_errors,
                 dangling_doc_comment_spans,
                 unclosed,
             } => {
@@ -1341,14 +1216,10 @@ impl<'src> Parser<'src> {
                     });
                 }
 
-                for (original, dup) in duplicate_key_spans {
+                for (span, kind) in key_errors {
                     self.event_queue.push_back(Event {
-                        span: *dup,
-                        kind: EventKind::Error {
-                            kind: ParseErrorKind::DuplicateKey {
-                                original: *original,
-                            },
-                        },
+                        span: *span,
+                        kind: EventKind::Error { kind: kind.clone() },
                     });
                 }
 
@@ -1370,27 +1241,7 @@ impl<'src> Parser<'src> {
                             },
                         });
                     }
-                    self.event_queue.push_back(Event {
-                        span: entry.key.span,
-                        kind: EventKind::EntryStart,
-                    });
-                    self.emit_atom_as_key(&entry.key);
-                    self.emit_atom_as_value(&entry.value);
-
-                    let mut end_span = entry.value.span;
-                    if let Some(span) = entry.too_many_atoms_span {
-                        self.event_queue.push_back(Event {
-                            span,
-                            kind: EventKind::Error {
-                                kind: ParseErrorKind::TooManyAtoms,
-                            },
-                        });
-                        end_span = span;
-                    }
-                    self.event_queue.push_back(Event {
-                        span: end_span,
-                        kind: EventKind::EntryEnd,
-                    });
+                    self.emit_entry_atoms(&entry.atoms);
                 }
 
                 self.event_queue.push_back(Event {
@@ -1547,7 +1398,7 @@ enum AtomContent<'src> {
     },
     Object {
         entries: Vec<ObjectEntry<'src>>,
-        duplicate_key_spans: Vec<(Span, Span)>,
+        key_errors: Vec<(Span, ParseErrorKind)>,
         dangling_doc_comment_spans: Vec<Span>,
         unclosed: bool,
     },
@@ -1570,10 +1421,9 @@ enum AtomContent<'src> {
 
 #[derive(Debug, Clone)]
 struct ObjectEntry<'src> {
-    key: Atom<'src>,
-    value: Atom<'src>,
+    /// Key, value and any excess atoms; never empty.
+    atoms: Vec<Atom<'src>>,
     doc_comment: Option<(Span, Vec<&'src str>)>,
-    too_many_atoms_span: Option<Span>,
 }
 
 #[derive(Debug, Clone)]
@@ -1643,6 +1493,50 @@ enum PathError {
     NestIntoTerminal { terminal_path: Vec<String> },
 }
 
+impl From<PathError> for ParseErrorKind {
+    fn from(err: PathError) -> Self {
+        match err {
+            PathError::Duplicate { original } => ParseErrorKind::DuplicateKey { original },
+            PathError::Reopened { closed_path } => ParseErrorKind::ReopenedPath { closed_path },
+            PathError::NestIntoTerminal { terminal_path } => {
+                ParseErrorKind::NestIntoTerminal { terminal_path }
+            }
+        }
+    }
+}
+
+/// Check an entry's key against the keys that precede it in the same object.
+fn check_entry_key(
+    path_state: &mut PathState,
+    key: &Atom<'_>,
+    value: Option<&Atom<'_>>,
+) -> Option<(Span, ParseErrorKind)> {
+    let path = match &key.content {
+        AtomContent::Scalar {
+            value,
+            kind: ScalarKind::Bare,
+        } if value.contains('.') => {
+            if value.split('.').any(|s| s.is_empty()) {
+                // Not a path: reported as an invalid key when the entry is emitted
+                return None;
+            }
+            value
+                .split('.')
+                .map(|s| KeyValue::Scalar(s.to_string()))
+                .collect()
+        }
+        _ => vec![KeyValue::from_atom(key)],
+    };
+    let value_kind = match value.map(|v| &v.content) {
+        Some(AtomContent::Object { .. } | AtomContent::Attributes(_)) => PathValueKind::Object,
+        _ => PathValueKind::Terminal,
+    };
+    path_state
+        .check_and_update(&path, key.span, value_kind)
+        .err()
+        .map(|err| (key.span, err.into()))
+}
+
 /// A single segment in the current path.
 ///
 /// Each segment tracks:
-- 
2.43.0


From edd05ca1843dad31f66dc1073d890c246b606b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:44 +0000
Subject: [PATCH 03/64] fix: reject an object in key position after the first
 root entry

`a 1` followed by `{b 2}` restarted the document as an explicit root object
and produced an unbalanced event stream.
---
 crates/styx-parse/src/parser/mod.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index 3fe95ff..98e5d79 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -278,7 +278,8 @@ impl<'src> Parser<'src> {
                     });
                     return self.event_queue.pop_front();
                 }
-                Lexeme::ObjectStart { span } => {
+                // Only at the start of the document: further down, `{` cannot start an entry
+                Lexeme::ObjectStart { span } if !self.implicit_root_started() => {
                     // Explicit root object - after it closes, document is done
                     self.state = ParserState::InObject {
                         start_span: span,
@@ -318,6 +319,17 @@ impl<'src> Parser<'src> {
         }
     }
 
+    /// Whether content of an implicit root object has been emitted.
+    fn implicit_root_started(&self) -> bool {
+        matches!(
+            self.state,
+            ParserState::DocumentRoot {
+                emitted_object_start: true,
+                ..
+            }
+        )
+    }
+
     /// Advance when in InObject state.
     fn advance_in_object(&mut self) -> Option<Event<'src>> {
         let start = if let ParserState::InObject { start_span, .. } = &self.state {
-- 
2.43.0


From ffe50de275e59b851ff29db34c8adafc78eef743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:13 +0000
Subject: [PATCH 04/64] fix: report duplicate keys in attribute objects

---
 crates/styx-parse/src/parser/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index 98e5d79..3d5dc8c 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -1304,7 +1304,18 @@ impl<'src> Parser<'src> {
                     kind: EventKind::ObjectStart,
                 });
 
+                let mut seen_keys: HashMap<&str, Span> = HashMap::new();
                 for attr in attrs {
+                    if let Some(&original) = seen_keys.get(attr.key) {
+                        self.event_queue.push_back(Event {
+                            span: attr.key_span,
+                            kind: EventKind::Error {
+                                kind: ParseErrorKind::DuplicateKey { original },
+                            },
+                        });
+                    } else {
+                        seen_keys.insert(attr.key, attr.key_span);
+                    }
                     self.event_queue.push_back(Event {
                         span: attr.key_span,
                         kind: EventKind::EntryStart,
-- 
2.43.0


From 8dc0bb0302a50748b720011241abaedea50b46b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:36 +0000
Subject: [PATCH 05/64] fix: do not validate escapes of tagged keys twice

The payload has already been unescaped, so `@env"a\\\\b" 1` was rejected with
an invalid escape error.
---
 crates/styx-parse/src/parser/mod.rs | 17 -----------------
 1 file changed, 17 deletions(-)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index 3d5dc8c..b9b0b5a 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -1085,9 +1085,6 @@ impl<'src> Parser<'src> {
                     }
                     Some(inner) => match &inner.content {
                         AtomContent::Scalar { value, kind } => {
-                            if *kind == ScalarKind::Quoted {
-                                self.emit_escape_errors(value, inner.span);
-                            }
                             self.event_queue.push_back(Event {
                                 span: atom.span,
                                 kind: EventKind::Key {
@@ -1378,20 +1375,6 @@ impl<'src> Parser<'src> {
             }
         }
     }
-
-    /// Emit escape errors.
-    fn emit_escape_errors(&mut self, text: &str, span: Span) {
-        for (offset, seq) in validate_escapes(text) {
-            let error_start = span.start + offset as u32;
-            let error_span = Span::new(error_start, error_start + seq.len() as u32);
-            self.event_queue.push_back(Event {
-                span: error_span,
-                kind: EventKind::Error {
-                    kind: ParseErrorKind::InvalidEscape(seq),
-                },
-            });
-        }
-    }
 }
 
 // ============================================================================
-- 
2.43.0


From 2de15409bd3643c99204a7049fa590f8f8dc26db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:23 +0000
Subject: [PATCH 06/64] fix: cut malformed unicode escapes in errors at a
 character boundary

`\u{` followed by multibyte text panicked while building the error.
---
 crates/styx-parse/src/parser/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index b9b0b5a..682d620 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -1817,7 +1817,8 @@ fn validate_escapes(text: &str) -> Vec<(usize, String)> {
                         }
                         if !found_close || !valid {
                             let end = chars.peek().map(|(i, _)| *i).unwrap_or(text.len());
-                            let seq = &text[escape_start..end.min(escape_start + 12)];
+                            let seq = &text
+                                [escape_start..text.floor_char_boundary(end.min(escape_start + 12))];
                             errors.push((escape_start, seq.to_string()));
                         }
                     }
-- 
2.43.0


From e675152ddf12ff12207dcdc704514f76f9afe473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:01 +0000
Subject: [PATCH 07/64] fix: reject empty and oversized unicode escapes

`\u{}` and `\u{FFFFFFFFF}` fail in the lexer but were not recognised when the
error was built, so the scalar was silently accepted.
---
 crates/styx-parse/src/parser/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index 682d620..f82de06 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -1804,17 +1804,17 @@ fn validate_escapes(text: &str) -> Vec<(usize, String)> {
                 Some((_, 'u')) => match chars.peek() {
                     Some((_, '{')) => {
                         chars.next();
-                        let mut valid = true;
+                        let mut hex = String::new();
                         let mut found_close = false;
                         for (_, c) in chars.by_ref() {
                             if c == '}' {
                                 found_close = true;
                                 break;
                             }
-                            if !c.is_ascii_hexdigit() {
-                                valid = false;
-                            }
+                            hex.push(c);
                         }
+                        let valid = hex.chars().all(|c| c.is_ascii_hexdigit())
+                            && u32::from_str_radix(&hex, 16).is_ok();
                         if !found_close || !valid {
                             let end = chars.peek().map(|(i, _)| *i).unwrap_or(text.len());
                             let seq = &text
-- 
2.43.0


From e12ddcd5bb29eaf7c3c8549a8ac898341b2af211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:01 +0000
Subject: [PATCH 08/64] fix: accept a heredoc as tag payload

---
 crates/styx-parse/src/lexer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/styx-parse/src/lexer.rs b/crates/styx-parse/src/lexer.rs
index ecc01e0..a1c2b97 100644
--- a/crates/styx-parse/src/lexer.rs
+++ b/crates/styx-parse/src/lexer.rs
@@ -192,7 +192,7 @@ impl<'src> Lexer<'src> {
                 let is_chained = name.contains("/@");
 
                 // Check if payload follows immediately (no whitespace)
-                // Payload can be: { ( " r#" @ or Tag
+                // Payload can be: { ( " r#" << @ or Tag
                 let payload_tok = self.peek_token();
                 let is_adjacent = payload_tok.span.start == tok.span.end;
                 let is_valid_payload = matches!(
@@ -201,6 +201,7 @@ impl<'src> Lexer<'src> {
                         | TokenKind::LParen
                         | TokenKind::QuotedScalar
                         | TokenKind::RawScalar
+                        | TokenKind::HeredocStart
                         | TokenKind::At
                         | TokenKind::Tag
                 );
-- 
2.43.0


From af3a931c6de0a95e05f79f4ef1534af6110cef9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:27 +0000
Subject: [PATCH 09/64] fix: count the hashes of raw scalars without saturating

With 256 or more hashes the tokenizer closed the scalar early while the lexer
counted them all, which sliced out of bounds.
---
 crates/styx-tokenizer/src/tokenizer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/styx-tokenizer/src/tokenizer.rs b/crates/styx-tokenizer/src/tokenizer.rs
index 5f1cdac..3972063 100644
--- a/crates/styx-tokenizer/src/tokenizer.rs
+++ b/crates/styx-tokenizer/src/tokenizer.rs
@@ -533,9 +533,9 @@ impl<'src> Tokenizer<'src> {
         self.advance();
 
         // Count and consume `#` marks
-        let mut hash_count: u8 = 0;
+        let mut hash_count: usize = 0;
         while self.peek() == Some('#') {
-            hash_count = hash_count.saturating_add(1);
+            hash_count += 1;
             self.advance();
         }
 
@@ -556,7 +556,7 @@ impl<'src> Tokenizer<'src> {
                 }
                 Some('"') => {
                     // Check for closing sequence
-                    let mut matched_hashes = 0u8;
+                    let mut matched_hashes = 0;
                     let mut lookahead = 1;
                     while matched_hashes < hash_count {
                         if self.peek_nth(lookahead) == Some('#') {
-- 
2.43.0


From 7e8ee5ef9339615602136e4390211727142aee09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:53 +0000
Subject: [PATCH 10/64] fix: treat @tag and @tag@ as the same key

---
 crates/styx-parse/src/parser/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index f82de06..96d10b1 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -1460,7 +1460,11 @@ impl KeyValue {
             AtomContent::Unit => KeyValue::Unit,
             AtomContent::Tag { name, payload, .. } => KeyValue::Tagged {
                 name: (*name).to_string(),
-                payload: payload.as_ref().map(|p| Box::new(KeyValue::from_atom(p))),
+                // `@tag` and `@tag@` are the same key: a missing payload is unit
+                payload: payload
+                    .as_ref()
+                    .map(|p| Box::new(KeyValue::from_atom(p)))
+                    .filter(|p| **p != KeyValue::Unit),
             },
             AtomContent::Object { .. } => KeyValue::Scalar("{}".into()),
             AtomContent::Sequence { .. } => KeyValue::Scalar("()".into()),
-- 
2.43.0


From 017045abc7e05e27040eff87a2d20aed6fe34274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:55 +0000
Subject: [PATCH 11/64] fix: reject \uXXX escapes that are one digit short

The digit counter of the error path started at one, so an escape with three
digits failed in the lexer but no error was reported.
---
 crates/styx-parse/src/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index 96d10b1..ff9d421 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -1827,7 +1827,7 @@ fn validate_escapes(text: &str) -> Vec<(usize, String)> {
                         }
                     }
                     Some((_, c)) if c.is_ascii_hexdigit() => {
-                        let mut count = 1;
+                        let mut count = 0;
                         while count < 4 {
                             match chars.peek() {
                                 Some((_, c)) if c.is_ascii_hexdigit() => {
-- 
2.43.0


From 156ccd934d00fe39308c3ba971fce3aec7ff63cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:35 +0000
Subject: [PATCH 12/64] fix: read repeated separators and attributes in
 sequences into the syntax tree

---
 crates/styx-cst/src/parser.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/styx-cst/src/parser.rs b/crates/styx-cst/src/parser.rs
index c8cc148..fd42683 100644
--- a/crates/styx-cst/src/parser.rs
+++ b/crates/styx-cst/src/parser.rs
@@ -219,7 +219,12 @@ impl<'src> CstParser<'src> {
     /// Parse entries (at document level or inside an object).
     fn parse_entries(&mut self, closing: Option<TokenKind>) {
         loop {
+            // Separators may be repeated, mixed, and lead or trail the entries
             self.skip_trivia();
+            while self.peek() == TokenKind::Comma {
+                self.bump();
+                self.skip_trivia();
+            }
 
             // Check for doc comments - they attach to the next entry
             while self.peek() == TokenKind::DocComment {
@@ -431,7 +436,11 @@ impl<'src> CstParser<'src> {
             // In sequences, each element is wrapped in an ENTRY with just a KEY
             self.builder.start_node(SyntaxKind::ENTRY.into());
             self.builder.start_node(SyntaxKind::KEY.into());
-            self.parse_atom();
+            if self.at_attribute() {
+                self.parse_attributes(Some(TokenKind::RParen));
+            } else {
+                self.parse_atom();
+            }
             self.builder.finish_node();
             self.builder.finish_node();
 
-- 
2.43.0


From 0b46ca43cdc64f41075184c8aeade8b281ee6198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:59 +0000
Subject: [PATCH 13/64] fix: read raw scalars and unicode escapes of the syntax
 tree like the parser

---
 crates/styx-cst/src/ast.rs | 47 +++++++++++++++++++++++++++++++++++---
 1 file changed, 44 insertions(+), 3 deletions(-)

diff --git a/crates/styx-cst/src/ast.rs b/crates/styx-cst/src/ast.rs
index d42af1a..f3c1c8c 100644
--- a/crates/styx-cst/src/ast.rs
+++ b/crates/styx-cst/src/ast.rs
@@ -157,7 +157,7 @@ impl Key {
                     return match token.kind() {
                         SyntaxKind::BARE_SCALAR => token.text().to_string(),
                         SyntaxKind::QUOTED_SCALAR => unescape_quoted(token.text()),
-                        SyntaxKind::RAW_SCALAR => token.text().to_string(),
+                        SyntaxKind::RAW_SCALAR => strip_raw(token.text()),
                         _ => continue,
                     };
                 }
@@ -295,6 +295,7 @@ impl Sequence {
                                     | SyntaxKind::UNIT
                                     | SyntaxKind::TAG
                                     | SyntaxKind::HEREDOC
+                                    | SyntaxKind::ATTRIBUTES
                             )
                         })
                     })
@@ -367,7 +368,7 @@ impl Scalar {
             return match token.kind() {
                 SyntaxKind::BARE_SCALAR => token.text().to_string(),
                 SyntaxKind::QUOTED_SCALAR => unescape_quoted(token.text()),
-                SyntaxKind::RAW_SCALAR => token.text().to_string(),
+                SyntaxKind::RAW_SCALAR => strip_raw(token.text()),
                 _ => continue,
             };
         }
@@ -457,6 +458,36 @@ impl Heredoc {
 
 // === Helpers ===
 
+/// The character a unicode escape stands for and the length of the escape, given the text after `\u`.
+fn unescape_unicode(rest: &str) -> Option<(char, usize)> {
+    let (digits, len) = match rest.strip_prefix('{') {
+        Some(inner) => {
+            let end = inner.find('}')?;
+            (&inner[..end], end + 2)
+        }
+        None => (rest.get(..4)?, 4),
+    };
+    if digits.len() > 6 || !digits.bytes().all(|b| b.is_ascii_hexdigit()) {
+        return None;
+    }
+    let c = char::from_u32(u32::from_str_radix(digits, 16).ok()?)?;
+    Some((c, len))
+}
+
+/// The content of a raw scalar, without `r`, hashes and quotes.
+fn strip_raw(text: &str) -> String {
+    let inner = text
+        .strip_prefix('r')
+        .unwrap_or(text)
+        .trim_start_matches('#');
+    let hashes = (text.len() - inner.len()).saturating_sub(1);
+    inner
+        .strip_prefix('"')
+        .and_then(|s| s.get(..s.len().checked_sub(hashes + 1)?))
+        .unwrap_or(text)
+        .to_string()
+}
+
 /// Process escape sequences in a quoted string.
 fn unescape_quoted(text: &str) -> String {
     // Remove surrounding quotes
@@ -466,7 +497,7 @@ fn unescape_quoted(text: &str) -> String {
         .unwrap_or(text);
 
     let mut result = String::with_capacity(inner.len());
-    let mut chars = inner.chars().peekable();
+    let mut chars = inner.chars();
 
     while let Some(c) = chars.next() {
         if c == '\\' {
@@ -476,6 +507,16 @@ fn unescape_quoted(text: &str) -> String {
                 Some('t') => result.push('\t'),
                 Some('\\') => result.push('\\'),
                 Some('"') => result.push('"'),
+                Some('u') => {
+                    let rest = chars.as_str();
+                    match unescape_unicode(rest) {
+                        Some((c, len)) => {
+                            result.push(c);
+                            chars = rest[len..].chars();
+                        }
+                        None => result.push_str("\\u"),
+                    }
+                }
                 Some(c) => {
                     // Unknown escape, keep as-is
                     result.push('\\');
-- 
2.43.0


From bb3e58eca94a562ba3d57fd3270dc71ca1cc4081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:16 +0000
Subject: [PATCH 14/64] fix: no entry without key for a separator or line
 comment after doc comments

---
 crates/styx-cst/src/ast.rs    | 2 ++
 crates/styx-cst/src/parser.rs | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/crates/styx-cst/src/ast.rs b/crates/styx-cst/src/ast.rs
index f3c1c8c..60706d9 100644
--- a/crates/styx-cst/src/ast.rs
+++ b/crates/styx-cst/src/ast.rs
@@ -138,6 +138,8 @@ impl Entry {
             .take_while(|el| {
                 el.kind() == SyntaxKind::WHITESPACE
                     || el.kind() == SyntaxKind::NEWLINE
+                    || el.kind() == SyntaxKind::COMMA
+                    || el.kind() == SyntaxKind::LINE_COMMENT
                     || el.kind() == SyntaxKind::DOC_COMMENT
             })
             .filter_map(|el| el.into_token())
diff --git a/crates/styx-cst/src/parser.rs b/crates/styx-cst/src/parser.rs
index fd42683..24f54bb 100644
--- a/crates/styx-cst/src/parser.rs
+++ b/crates/styx-cst/src/parser.rs
@@ -235,6 +235,11 @@ impl<'src> CstParser<'src> {
                 }
             }
 
+            // A separator or a line comment after doc comments
+            if matches!(self.peek(), TokenKind::Comma | TokenKind::LineComment) {
+                continue;
+            }
+
             // Check for closing or EOF
             if self.at_eof() {
                 break;
-- 
2.43.0


From b7d7801bdac10adb93446b201d0a8e41c0003608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:16 +0000
Subject: [PATCH 15/64] fix: keep attributes in key position when formatting

---
 crates/styx-format/src/cst_format.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/styx-format/src/cst_format.rs b/crates/styx-format/src/cst_format.rs
index 541307a..ce15d2c 100644
--- a/crates/styx-format/src/cst_format.rs
+++ b/crates/styx-format/src/cst_format.rs
@@ -251,6 +251,14 @@ impl CstFormatter {
     fn format_entry(&mut self, node: &SyntaxNode) {
         let entry = Entry::cast(node.clone()).unwrap();
 
+        // An entry that starts with attributes has no key
+        for attributes in node
+            .children()
+            .filter(|n| n.kind() == SyntaxKind::ATTRIBUTES)
+        {
+            self.format_node(&attributes);
+        }
+
         if let Some(key) = entry.key() {
             self.format_node(key.syntax());
         }
-- 
2.43.0


From 289c2db3418b5b72eba58e3d46f4404d719ada7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:16 +0000
Subject: [PATCH 16/64] fix: keep the line break after a heredoc that is the
 only sequence element

---
 crates/styx-format/src/cst_format.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/styx-format/src/cst_format.rs b/crates/styx-format/src/cst_format.rs
index ce15d2c..b1ca9a1 100644
--- a/crates/styx-format/src/cst_format.rs
+++ b/crates/styx-format/src/cst_format.rs
@@ -392,8 +392,11 @@ impl CstFormatter {
 
         // Determine if we need multiline format
         // But collapse trivial sequences: single simple element should be inline
-        let should_collapse =
-            !has_comments && entries.len() == 1 && !contains_block_object(entries[0].syntax());
+        // (a heredoc must be followed by a line break, so it is not simple)
+        let should_collapse = !has_comments
+            && entries.len() == 1
+            && !contains_block_object(entries[0].syntax())
+            && !ends_with_heredoc(entries[0].syntax());
 
         // Special case: single entry that is a tag with block payload - format inline with paren
         // e.g., @optional(@object{...}) should format as (@object{\n...\n}) not (\n@object{...}\n)
@@ -674,6 +677,12 @@ fn contains_block_object(node: &SyntaxNode) -> bool {
     false
 }
 
+/// Check if the last token of a node ends a heredoc.
+fn ends_with_heredoc(node: &SyntaxNode) -> bool {
+    node.last_token()
+        .is_some_and(|token| token.kind() == SyntaxKind::HEREDOC_END)
+}
+
 /// Check if an entry is a schema declaration (@schema tag as key).
 fn is_schema_declaration(entry: &Entry) -> bool {
     if let Some(key) = entry.key() {
-- 
2.43.0


From 8fd56fe43b57f01ede0b32e6cdb3cb94d392552b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:16 +0000
Subject: [PATCH 17/64] fix: format sequences with an empty multi-line object
 idempotently

---
 crates/styx-format/src/cst_format.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/styx-format/src/cst_format.rs b/crates/styx-format/src/cst_format.rs
index b1ca9a1..8aebdef 100644
--- a/crates/styx-format/src/cst_format.rs
+++ b/crates/styx-format/src/cst_format.rs
@@ -655,7 +655,12 @@ fn contains_block_object(node: &SyntaxNode) -> bool {
         && let Some(obj) = Object::cast(node.clone())
     {
         let sep = obj.separator();
-        if matches!(sep, Separator::Newline | Separator::Mixed) {
+        // An object without entries or comments is written as `{}`
+        let is_empty = obj.entries().next().is_none()
+            && !node
+                .children_with_tokens()
+                .any(|el| el.kind() == SyntaxKind::LINE_COMMENT);
+        if matches!(sep, Separator::Newline | Separator::Mixed) && !is_empty {
             return true;
         }
         // Also check if the object contains doc comments
-- 
2.43.0


From 3f090e15f19ff5e59189b5123f57549f0fb830ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:03 +0000
Subject: [PATCH 18/64] fix: separate units and payload-less tags from their
 neighbours when writing values

---
 crates/styx-format/src/value_format.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/styx-format/src/value_format.rs b/crates/styx-format/src/value_format.rs
index f4240ae..3e2eef0 100644
--- a/crates/styx-format/src/value_format.rs
+++ b/crates/styx-format/src/value_format.rs
@@ -79,9 +79,12 @@ impl ValueFormatter {
             None => {
                 // No payload - if no tag either, this is unit (@)
                 if !has_tag {
-                    self.writer.write_str("@");
+                    self.writer.write_null();
+                } else {
+                    // If there's a tag but no payload, tag was already written;
+                    // what follows is not its payload
+                    self.writer.clear_skip_before_value();
                 }
-                // If there's a tag but no payload, tag was already written
             }
             Some(Payload::Scalar(s)) => {
                 // If tagged, wrap scalar in parens: @tag(scalar)
-- 
2.43.0


From b5f7a379fa12dd76798167cdaa145651118d0f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:03 +0000
Subject: [PATCH 19/64] fix: quote keys and values that would not read back as
 one bare scalar

---
 crates/styx-format/src/scalar.rs       | 11 +++++++++--
 crates/styx-format/src/value_format.rs |  3 ++-
 crates/styx-format/src/writer.rs       |  6 +++---
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/crates/styx-format/src/scalar.rs b/crates/styx-format/src/scalar.rs
index 0fb0a1a..0fe302d 100644
--- a/crates/styx-format/src/scalar.rs
+++ b/crates/styx-format/src/scalar.rs
@@ -10,7 +10,7 @@ use std::borrow::Cow;
 /// A bare scalar is valid when:
 /// 1. It's not empty
 /// 2. It doesn't start with characters that look like other syntax (`//`, `r#`, `<<`)
-/// 3. It doesn't contain special characters: `{}(),"=@` or whitespace
+/// 3. It doesn't contain special characters: `{}(),"=@>` or whitespace
 pub fn can_be_bare(s: &str) -> bool {
     if s.is_empty() {
         return false;
@@ -21,7 +21,14 @@ pub fn can_be_bare(s: &str) -> bool {
     }
     // Cannot contain special characters
     !s.chars()
-        .any(|c| matches!(c, '{' | '}' | '(' | ')' | ',' | '"' | '=' | '@') || c.is_whitespace())
+        .any(|c| matches!(c, '{' | '}' | '(' | ')' | ',' | '"' | '=' | '@' | '>') || c.is_whitespace())
+}
+
+/// Check if a string can be written as a bare key.
+///
+/// Dots in bare keys separate path segments, so keys that contain one must be quoted.
+pub fn can_be_bare_key(s: &str) -> bool {
+    can_be_bare(s) && !s.contains('.')
 }
 
 /// Count escape sequences needed for a quoted string.
diff --git a/crates/styx-format/src/value_format.rs b/crates/styx-format/src/value_format.rs
index 3e2eef0..799d63e 100644
--- a/crates/styx-format/src/value_format.rs
+++ b/crates/styx-format/src/value_format.rs
@@ -190,7 +190,8 @@ impl ValueFormatter {
             }
             Some(Payload::Scalar(s)) => {
                 // Always check if the text can be bare, regardless of original ScalarKind
-                if crate::scalar::can_be_bare(&s.text) {
+                // (a payload directly after a tag never is)
+                if key.tag.is_none() && crate::scalar::can_be_bare_key(&s.text) {
                     result.push_str(&s.text);
                 } else {
                     result.push('"');
diff --git a/crates/styx-format/src/writer.rs b/crates/styx-format/src/writer.rs
index 23cab09..ed3fd41 100644
--- a/crates/styx-format/src/writer.rs
+++ b/crates/styx-format/src/writer.rs
@@ -4,7 +4,7 @@
 //! independent of any serialization framework.
 
 use crate::options::{ForceStyle, FormatOptions};
-use crate::scalar::{can_be_bare, count_escapes, count_newlines, escape_quoted};
+use crate::scalar::{can_be_bare, can_be_bare_key, count_escapes, count_newlines, escape_quoted};
 
 /// Context for tracking serialization state.
 #[derive(Debug, Clone)]
@@ -356,7 +356,7 @@ impl StyxWriter {
         }
 
         // Write the key - keys are typically bare identifiers
-        if can_be_bare(key) {
+        if can_be_bare_key(key) {
             self.out.extend_from_slice(key.as_bytes());
         } else {
             self.write_quoted_string(key);
@@ -614,7 +614,7 @@ impl StyxWriter {
         }
 
         // Write the key
-        if can_be_bare(key) {
+        if can_be_bare_key(key) {
             self.out.extend_from_slice(key.as_bytes());
         } else {
             self.write_quoted_string(key);
-- 
2.43.0


From 6d363b2ae8861200beb4c26dff103ae6ed4959af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:03 +0000
Subject: [PATCH 20/64] fix: keep empty lines at the ends of written doc
 comments

---
 crates/styx-format/src/writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/styx-format/src/writer.rs b/crates/styx-format/src/writer.rs
index ed3fd41..d55423a 100644
--- a/crates/styx-format/src/writer.rs
+++ b/crates/styx-format/src/writer.rs
@@ -598,7 +598,7 @@ impl StyxWriter {
         // For non-first fields, or non-root structs, add newline before doc
         let need_leading_newline = !is_first || !is_root;
 
-        for (i, line) in doc.lines().enumerate() {
+        for (i, line) in doc.split('\n').enumerate() {
             if i > 0 || need_leading_newline {
                 self.write_newline_indent();
             }
@@ -658,7 +658,7 @@ impl StyxWriter {
         // For non-first fields, or non-root structs, add newline before doc
         let need_leading_newline = !is_first || !is_root;
 
-        for (i, line) in doc.lines().enumerate() {
+        for (i, line) in doc.split('\n').enumerate() {
             if i > 0 || need_leading_newline {
                 self.write_newline_indent();
             }
-- 
2.43.0


From 00237290d9ea8976ec884a843bfd55b5d5cd0f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:03 +0000
Subject: [PATCH 21/64] fix: write heredocs only where they read back as the
 same text

---
 crates/styx-format/src/writer.rs | 41 ++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/crates/styx-format/src/writer.rs b/crates/styx-format/src/writer.rs
index d55423a..e7cf6d8 100644
--- a/crates/styx-format/src/writer.rs
+++ b/crates/styx-format/src/writer.rs
@@ -885,8 +885,13 @@ impl StyxWriter {
         let escape_count = count_escapes(s);
 
         // Rule 3: Use heredocs for multi-line text
-        if newline_count >= self.options.heredoc_line_threshold {
-            self.write_heredoc(s);
+        // (a heredoc always ends with a line break)
+        if newline_count >= self.options.heredoc_line_threshold
+            && s.ends_with('\n')
+            && self.line_break_follows()
+            && let Some(delimiter) = heredoc_delimiter(s)
+        {
+            self.write_heredoc(s, delimiter);
             return;
         }
 
@@ -930,26 +935,36 @@ impl StyxWriter {
         }
     }
 
-    /// Write a heredoc string.
-    fn write_heredoc(&mut self, s: &str) {
-        // Find a delimiter that doesn't appear in the string
-        let delimiters = ["TEXT", "END", "HEREDOC", "DOC", "STR", "CONTENT"];
-        let delimiter = delimiters
-            .iter()
-            .find(|d| !s.contains(*d))
-            .unwrap_or(&"TEXT");
+    /// Whether the next thing written after a value starts on a new line.
+    fn line_break_follows(&self) -> bool {
+        match self.stack.last() {
+            None => true,
+            Some(Context::Struct {
+                is_root,
+                inline_start,
+                force_multiline,
+                ..
+            }) => *is_root || !((*inline_start && !*force_multiline) || self.should_inline()),
+            Some(Context::Seq { .. }) => false,
+        }
+    }
 
+    /// Write a heredoc string.
+    fn write_heredoc(&mut self, s: &str, delimiter: &str) {
         self.out.extend_from_slice(b"<<");
         self.out.extend_from_slice(delimiter.as_bytes());
         self.out.push(b'\n');
         self.out.extend_from_slice(s.as_bytes());
-        if !s.ends_with('\n') {
-            self.out.push(b'\n');
-        }
         self.out.extend_from_slice(delimiter.as_bytes());
     }
 }
 
+/// Find a heredoc delimiter that doesn't appear in the string.
+fn heredoc_delimiter(s: &str) -> Option<&'static str> {
+    let delimiters = ["TEXT", "END", "HEREDOC", "DOC", "STR", "CONTENT"];
+    delimiters.into_iter().find(|d| !s.contains(*d))
+}
+
 impl Default for StyxWriter {
     fn default() -> Self {
         Self::new()
-- 
2.43.0


From df80c17358252e9794d1f855782a5993481bd217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:21 +0000
Subject: [PATCH 22/64] fix: count characters for string lengths and require
 JSON number syntax for floats in schemas

---
 crates/facet-styx/src/schema_validate.rs | 42 ++++++++++++++++++++----
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/crates/facet-styx/src/schema_validate.rs b/crates/facet-styx/src/schema_validate.rs
index fca8df7..00cd2b3 100644
--- a/crates/facet-styx/src/schema_validate.rs
+++ b/crates/facet-styx/src/schema_validate.rs
@@ -184,14 +184,15 @@ impl<'a> Validator<'a> {
 
         // Apply constraints if present
         if let Some(c) = constraints {
+            let len = text.chars().count();
             if let Some(min) = c.min_len
-                && text.len() < min
+                && len < min
             {
                 result.error(
                     ValidationError::new(
                         path,
                         ValidationErrorKind::InvalidValue {
-                            reason: format!("string length {} < minimum {}", text.len(), min),
+                            reason: format!("string length {} < minimum {}", len, min),
                         },
                         format!("string too short (min length: {})", min),
                     )
@@ -199,13 +200,13 @@ impl<'a> Validator<'a> {
                 );
             }
             if let Some(max) = c.max_len
-                && text.len() > max
+                && len > max
             {
                 result.error(
                     ValidationError::new(
                         path,
                         ValidationErrorKind::InvalidValue {
-                            reason: format!("string length {} > maximum {}", text.len(), max),
+                            reason: format!("string length {} > maximum {}", len, max),
                         },
                         format!("string too long (max length: {})", max),
                     )
@@ -320,8 +321,8 @@ impl<'a> Validator<'a> {
         };
 
         let parsed = match text.parse::<f64>() {
-            Ok(n) => n,
-            Err(_) => {
+            Ok(n) if n.is_finite() && is_json_number(text) => n,
+            _ => {
                 result.error(
                     ValidationError::new(
                         path,
@@ -1082,6 +1083,35 @@ impl<'a> Validator<'a> {
     }
 }
 
+/// Check that a text uses JSON number syntax (no `NaN`, `inf`, `+1`, `.5` or `01`).
+fn is_json_number(text: &str) -> bool {
+    fn digits(s: &str) -> Option<&str> {
+        let rest = s.trim_start_matches(|c: char| c.is_ascii_digit());
+        (rest.len() < s.len()).then_some(rest)
+    }
+
+    let text = text.strip_prefix('-').unwrap_or(text);
+    let Some(mut rest) = digits(text) else {
+        return false;
+    };
+    if text.starts_with('0') && text.len() - rest.len() > 1 {
+        return false;
+    }
+    if let Some(fraction) = rest.strip_prefix('.') {
+        match digits(fraction) {
+            Some(r) => rest = r,
+            None => return false,
+        }
+    }
+    if let Some(exponent) = rest.strip_prefix(['e', 'E']) {
+        match digits(exponent.strip_prefix(['+', '-']).unwrap_or(exponent)) {
+            Some(r) => rest = r,
+            None => return false,
+        }
+    }
+    rest.is_empty()
+}
+
 /// Get a human-readable name for a value type.
 fn value_type_name(value: &Value) -> &'static str {
     if value.is_unit() {
-- 
2.43.0


From 85aadca487a49563f947745ced0d32f33d32cb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:21 +0000
Subject: [PATCH 23/64] fix: keep warnings of matching variants and compare
 one-of values by content

---
 crates/facet-styx/src/schema_validate.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/crates/facet-styx/src/schema_validate.rs b/crates/facet-styx/src/schema_validate.rs
index 00cd2b3..0351b51 100644
--- a/crates/facet-styx/src/schema_validate.rs
+++ b/crates/facet-styx/src/schema_validate.rs
@@ -725,7 +725,8 @@ impl<'a> Validator<'a> {
         for variant in &schema.0 {
             let variant_result = self.validate_value(value, &variant.value, path);
             if variant_result.is_valid() {
-                return ValidationResult::ok();
+                // Keep the warnings (e.g. deprecation) of the variant that matched
+                return variant_result;
             }
             tried.push(schema_type_name(&variant.value));
         }
@@ -883,13 +884,11 @@ impl<'a> Validator<'a> {
     }
 
     fn validate_one_of(&self, value: &Value, schema: &OneOfSchema, path: &str) -> ValidationResult {
-        let mut result = ValidationResult::ok();
-
         // First validate against the base type
         let base_type = &schema.0.0.value;
-        let base_result = self.validate_value(value, base_type, path);
-        if !base_result.is_valid() {
-            return base_result;
+        let mut result = self.validate_value(value, base_type, path);
+        if !result.is_valid() {
+            return result;
         }
 
         // Then check if the value matches one of the allowed values
@@ -920,11 +919,14 @@ impl<'a> Validator<'a> {
         };
 
         // Check if the value is in the allowed list
-        let allowed_strings: Vec<&str> = allowed_values.iter().map(|v| v.as_str()).collect();
-        if !allowed_strings.contains(&value_text) {
+        // (allowed values are raw Styx: compare with what they denote, not how they are written)
+        let allowed_strings: Vec<String> = allowed_values
+            .iter()
+            .map(|v| crate::from_str_expr(v.as_str()).unwrap_or_else(|_| v.0.clone()))
+            .collect();
+        if !allowed_strings.iter().any(|v| v == value_text) {
             // Try to find a similar value for suggestions
-            let allowed_owned: Vec<String> = allowed_values.iter().map(|v| v.0.clone()).collect();
-            let suggestion = suggest_similar(value_text, &allowed_owned).map(String::from);
+            let suggestion = suggest_similar(value_text, &allowed_strings).map(String::from);
 
             result.error(
                 ValidationError::new(
-- 
2.43.0


From f9a1370e8d8935d601bc5c7002bc42d5c56ef4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:21 +0000
Subject: [PATCH 24/64] fix: let enum variants accept a missing payload as unit
 and pick fallback variants deterministically

---
 crates/facet-styx/src/schema_validate.rs | 93 ++++++++++++++----------
 1 file changed, 54 insertions(+), 39 deletions(-)

diff --git a/crates/facet-styx/src/schema_validate.rs b/crates/facet-styx/src/schema_validate.rs
index 0351b51..8ed9393 100644
--- a/crates/facet-styx/src/schema_validate.rs
+++ b/crates/facet-styx/src/schema_validate.rs
@@ -773,9 +773,8 @@ impl<'a> Validator<'a> {
             Some(t) => t.name.as_str(),
             None => {
                 // No tag - try to find a fallback variant that accepts this value type
-                if let Some(fallback_schema) = self.find_enum_fallback(value, schema) {
-                    // Validate against the fallback variant's schema
-                    return self.validate_value(value, fallback_schema, path);
+                if let Some(fallback_result) = self.validate_enum_fallback(value, schema, path) {
+                    return fallback_result;
                 }
                 result.error(
                     ValidationError::new(
@@ -799,21 +798,14 @@ impl<'a> Validator<'a> {
             span: None,
         });
 
-        let expected_variants: Vec<String> = schema.0.keys().map(|k| k.value.clone()).collect();
+        let mut expected_variants: Vec<String> =
+            schema.0.keys().map(|k| k.value.clone()).collect();
+        expected_variants.sort();
 
         match schema.0.get(&Documented::new(tag.to_string())) {
             Some(variant_schema) => {
-                match (&payload_value, variant_schema) {
-                    (None, Schema::Unit) => {
-                        // @variant with unit schema - OK
-                    }
-                    (None, Schema::Type { name: Some(n) }) if n == "unit" => {
-                        // @variant with @unit type ref - OK
-                    }
-                    (None, Schema::Type { name: None }) => {
-                        // @variant with @ schema - OK (unit)
-                    }
-                    (Some(p), _) => {
+                match &payload_value {
+                    Some(p) => {
                         let variant_path = if path.is_empty() {
                             tag.to_string()
                         } else {
@@ -821,18 +813,25 @@ impl<'a> Validator<'a> {
                         };
                         result.merge(self.validate_value(p, variant_schema, &variant_path));
                     }
-                    (None, _) => {
-                        result.error(
-                            ValidationError::new(
-                                path,
-                                ValidationErrorKind::TypeMismatch {
-                                    expected: schema_type_name(variant_schema),
-                                    got: "unit".into(),
-                                },
-                                format!("variant '{tag}' requires a payload"),
-                            )
-                            .with_span(value.span),
-                        );
+                    // A missing payload is unit, which the variant may accept (`@`, `@unit`,
+                    // `@optional(...)`, `@any`, ...)
+                    None => {
+                        let unit_result = self.validate_value(&Value::unit(), variant_schema, path);
+                        if unit_result.is_valid() {
+                            result.merge(unit_result);
+                        } else {
+                            result.error(
+                                ValidationError::new(
+                                    path,
+                                    ValidationErrorKind::TypeMismatch {
+                                        expected: schema_type_name(variant_schema),
+                                        got: "unit".into(),
+                                    },
+                                    format!("variant '{tag}' requires a payload"),
+                                )
+                                .with_span(value.span),
+                            );
+                        }
                     }
                 }
             }
@@ -857,30 +856,46 @@ impl<'a> Validator<'a> {
         result
     }
 
-    /// Find a fallback variant in an enum that can accept an untagged value.
+    /// Validate an untagged value against the fallback variants of an enum.
     ///
     /// For example, if the enum has `eq @string` variant and the value is a bare string,
-    /// this returns the `@string` schema so the value can be validated against it.
-    fn find_enum_fallback<'s>(&self, value: &Value, schema: &'s EnumSchema) -> Option<&'s Schema> {
+    /// the value is validated against the `@string` schema. The result is that of the first
+    /// variant (by name) that accepts the value or, if none does, of the first one that could.
+    fn validate_enum_fallback(
+        &self,
+        value: &Value,
+        schema: &EnumSchema,
+        path: &str,
+    ) -> Option<ValidationResult> {
         // Only scalars can fall back
         let text = value.scalar_text()?;
 
-        // Look for a variant whose schema matches this value
-        for variant_schema in schema.0.values() {
-            match variant_schema {
+        let mut variants: Vec<_> = schema.0.iter().collect();
+        variants.sort_by(|(a, _), (b, _)| a.value.cmp(&b.value));
+
+        let mut first_failure = None;
+        for (_, variant_schema) in variants {
+            let candidate = match variant_schema {
                 // @string accepts any scalar
-                Schema::String(_) => return Some(variant_schema),
+                Schema::String(_) => true,
                 // @int accepts scalars that parse as integers
-                Schema::Int(_) if text.parse::<i64>().is_ok() => return Some(variant_schema),
+                Schema::Int(_) => text.parse::<i64>().is_ok(),
                 // @float accepts scalars that parse as floats
-                Schema::Float(_) if text.parse::<f64>().is_ok() => return Some(variant_schema),
+                Schema::Float(_) => text.parse::<f64>().is_ok(),
                 // @bool accepts "true" or "false"
-                Schema::Bool if text == "true" || text == "false" => return Some(variant_schema),
-                _ => continue,
+                Schema::Bool => text == "true" || text == "false",
+                _ => false,
+            };
+            if candidate {
+                let result = self.validate_value(value, variant_schema, path);
+                if result.is_valid() {
+                    return Some(result);
+                }
+                first_failure.get_or_insert(result);
             }
         }
 
-        None
+        first_failure
     }
 
     fn validate_one_of(&self, value: &Value, schema: &OneOfSchema, path: &str) -> ValidationResult {
-- 
2.43.0


From 2695da30029ab5691687edc6465bfebdf10cd4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:40 +0000
Subject: [PATCH 25/64] fix: inline flattened fields, unit keys and nested
 optional fields when validating objects

---
 crates/facet-styx/src/schema_validate.rs | 143 +++++++++++++++++++----
 1 file changed, 119 insertions(+), 24 deletions(-)

diff --git a/crates/facet-styx/src/schema_validate.rs b/crates/facet-styx/src/schema_validate.rs
index 8ed9393..11b427f 100644
--- a/crates/facet-styx/src/schema_validate.rs
+++ b/crates/facet-styx/src/schema_validate.rs
@@ -2,7 +2,7 @@
 //!
 //! Validates `styx_tree::Value` instances against `Schema` definitions.
 
-use std::collections::HashSet;
+use std::collections::{BTreeMap, HashSet};
 
 use styx_tree::{Payload, Value};
 
@@ -60,10 +60,19 @@ use crate::schema_error::{
 };
 use crate::schema_types::{
     DefaultSchema, DeprecatedSchema, Documented, EnumSchema, FlattenSchema, FloatConstraints,
-    IntConstraints, MapSchema, ObjectKey, ObjectSchema, OneOfSchema, OptionalSchema, Schema,
-    SchemaFile, SeqSchema, StringConstraints, TupleSchema, UnionSchema,
+    IntConstraints, MapSchema, ObjectSchema, OneOfSchema, OptionalSchema, Schema, SchemaFile,
+    SeqSchema, StringConstraints, TupleSchema, UnionSchema,
 };
 
+/// The fields of an object schema, with flattened types inlined.
+#[derive(Default)]
+struct ObjectFields<'s> {
+    /// Fields by name.
+    named: BTreeMap<&'s str, &'s Schema>,
+    /// Catch-alls by the tag of their key (empty for unit).
+    additional: BTreeMap<&'s str, &'s Schema>,
+}
+
 /// Validator for Styx documents.
 pub struct Validator<'a> {
     /// The schema file containing type definitions.
@@ -451,12 +460,30 @@ impl<'a> Validator<'a> {
             }
         };
 
+        let fields = match self.object_fields(schema) {
+            Ok(fields) => fields,
+            Err(reason) => {
+                result.error(
+                    ValidationError::new(
+                        path,
+                        ValidationErrorKind::SchemaError {
+                            reason: reason.clone(),
+                        },
+                        format!("invalid object schema: {reason}"),
+                    )
+                    .with_span(value.span),
+                );
+                return result;
+            }
+        };
+
         let mut seen_fields: HashSet<Option<&str>> = HashSet::new();
-        // Look up catch-all schema - find any key that is a typed pattern or unit
-        let additional_schema = schema
-            .0
+        // Catch-all schema: a typed pattern if there is one, else unit
+        let additional_schema = fields
+            .additional
             .iter()
-            .find_map(|(k, v)| if k.value.tag.is_some() { Some(v) } else { None });
+            .min_by_key(|(tag, _)| (tag.is_empty(), **tag))
+            .map(|(_, v)| *v);
 
         for entry in &obj.entries {
             let key_opt: Option<&str> = if entry.key.is_unit() {
@@ -486,19 +513,15 @@ impl<'a> Validator<'a> {
 
             seen_fields.insert(key_opt);
 
-            // Look up by Documented<ObjectKey> - for named fields
-            let lookup_key = Documented::new(ObjectKey::named(key_opt.unwrap_or("")));
-            if let Some(field_schema) = schema.0.get(&lookup_key) {
+            // Unit keys are never named fields
+            if let Some(field_schema) = key_opt.and_then(|key| fields.named.get(key)) {
                 result.merge(self.validate_value(&entry.value, field_schema, &field_path));
             } else if let Some(add_schema) = additional_schema {
                 result.merge(self.validate_value(&entry.value, add_schema, &field_path));
             } else {
                 // Collect valid field names for error message
-                let valid_fields: Vec<String> = schema
-                    .0
-                    .keys()
-                    .filter_map(|k| k.value.name().map(|s| s.to_string()))
-                    .collect();
+                let valid_fields: Vec<String> =
+                    fields.named.keys().map(|k| k.to_string()).collect();
 
                 // Try to find a similar field name (typo detection)
                 let suggestion = suggest_similar(key_display, &valid_fields).map(String::from);
@@ -519,15 +542,10 @@ impl<'a> Validator<'a> {
         }
 
         // Check for missing required fields
-        for (field_name_doc, field_schema) in &schema.0 {
-            // Skip catch-all fields (typed patterns like @string)
-            let Some(name) = field_name_doc.value.name() else {
-                continue;
-            };
-
+        for (&name, &field_schema) in &fields.named {
             if !seen_fields.contains(&Some(name)) {
                 // Optional and Default fields are not required
-                if !matches!(field_schema, Schema::Optional(_) | Schema::Default(_)) {
+                if !self.accepts_absence(field_schema) {
                     let field_path = if path.is_empty() {
                         name.to_string()
                     } else {
@@ -550,6 +568,84 @@ impl<'a> Validator<'a> {
         result
     }
 
+    /// Collect the fields of an object schema, including those of flattened types.
+    fn object_fields<'s>(&'s self, schema: &'s ObjectSchema) -> Result<ObjectFields<'s>, String> {
+        let mut fields = ObjectFields::default();
+        self.collect_fields(schema, &mut fields, &mut Vec::new())?;
+        Ok(fields)
+    }
+
+    fn collect_fields<'s>(
+        &'s self,
+        schema: &'s ObjectSchema,
+        fields: &mut ObjectFields<'s>,
+        flattening: &mut Vec<&'s str>,
+    ) -> Result<(), String> {
+        // In a fixed order, so that problems are reported in a fixed order
+        let mut entries: Vec<_> = schema.0.iter().collect();
+        entries.sort_by_key(|(key, _)| (&key.value.value, &key.value.tag));
+
+        for (key, field_schema) in entries {
+            if let Schema::Flatten(flatten) = field_schema {
+                // Inline the fields of the named type
+                let mut inner = &*flatten.0.0.value;
+                let depth = flattening.len();
+                let object = loop {
+                    match inner {
+                        Schema::Object(object) if flattening.len() > depth => break object,
+                        Schema::Type { name: Some(name) } => {
+                            if flattening.contains(&name.as_str()) {
+                                return Err(format!("type '{name}' flattens itself"));
+                            }
+                            flattening.push(name);
+                            inner = self
+                                .schema_file
+                                .schema
+                                .get(&Some(name.clone()))
+                                .ok_or_else(|| format!("unknown type '{name}'"))?;
+                        }
+                        other => {
+                            return Err(format!(
+                                "cannot flatten {}: not a named object type",
+                                schema_type_name(other)
+                            ));
+                        }
+                    }
+                };
+                self.collect_fields(object, fields, flattening)?;
+                flattening.truncate(depth);
+            } else if let Some(name) = key.value.name() {
+                if fields.named.insert(name, field_schema).is_some() {
+                    return Err(format!("field '{name}' is defined more than once"));
+                }
+            } else if let Some(tag) = key.value.tag.as_deref() {
+                // Typed pattern (like `@string`) or unit
+                fields.additional.entry(tag).or_insert(field_schema);
+            }
+        }
+        Ok(())
+    }
+
+    /// Whether a field of this type may be left out.
+    fn accepts_absence(&self, schema: &Schema) -> bool {
+        let mut schema = schema;
+        let mut aliases: Vec<&str> = Vec::new();
+        loop {
+            match schema {
+                Schema::Optional(_) | Schema::Default(_) => return true,
+                Schema::Deprecated(deprecated) => schema = &deprecated.0.1.value,
+                Schema::Type { name: Some(name) } if !aliases.contains(&name.as_str()) => {
+                    aliases.push(name);
+                    match self.schema_file.schema.get(&Some(name.clone())) {
+                        Some(inner) => schema = inner,
+                        None => return false,
+                    }
+                }
+                _ => return false,
+            }
+        }
+    }
+
     fn validate_seq(&self, value: &Value, schema: &SeqSchema, path: &str) -> ValidationResult {
         let mut result = ValidationResult::ok();
 
@@ -798,8 +894,7 @@ impl<'a> Validator<'a> {
             span: None,
         });
 
-        let mut expected_variants: Vec<String> =
-            schema.0.keys().map(|k| k.value.clone()).collect();
+        let mut expected_variants: Vec<String> = schema.0.keys().map(|k| k.value.clone()).collect();
         expected_variants.sort();
 
         match schema.0.get(&Documented::new(tag.to_string())) {
-- 
2.43.0


From 4fadddbdcb604ac9efa90f99c2add3ee809cdee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:01 +0000
Subject: [PATCH 26/64] fix: validation against a type that is only defined by
 itself ends

---
 crates/facet-styx/src/schema_validate.rs | 51 +++++++++++++++++++++++-
 1 file changed, 50 insertions(+), 1 deletion(-)

diff --git a/crates/facet-styx/src/schema_validate.rs b/crates/facet-styx/src/schema_validate.rs
index 11b427f..e18a6b9 100644
--- a/crates/facet-styx/src/schema_validate.rs
+++ b/crates/facet-styx/src/schema_validate.rs
@@ -2,6 +2,7 @@
 //!
 //! Validates `styx_tree::Value` instances against `Schema` definitions.
 
+use std::cell::RefCell;
 use std::collections::{BTreeMap, HashSet};
 
 use styx_tree::{Payload, Value};
@@ -73,6 +74,38 @@ struct ObjectFields<'s> {
     additional: BTreeMap<&'s str, &'s Schema>,
 }
 
+thread_local! {
+    /// The values being validated, each with the named type it is validated against.
+    static ACTIVE_TYPE_REFS: RefCell<Vec<(*const Value, *const Schema)>> =
+        const { RefCell::new(Vec::new()) };
+}
+
+/// Marks a value as being validated against a named type.
+///
+/// Types may refer to themselves, but not without going down into the value: `A @A` or
+/// `A @optional(@A)` would recurse forever.
+struct ActiveTypeRef;
+
+impl ActiveTypeRef {
+    /// Returns `None` if the value is already being validated against this type.
+    fn enter(value: &Value, schema: &Schema) -> Option<Self> {
+        let entry = (value as *const Value, schema as *const Schema);
+        ACTIVE_TYPE_REFS.with_borrow_mut(|active| {
+            if active.contains(&entry) {
+                return None;
+            }
+            active.push(entry);
+            Some(ActiveTypeRef)
+        })
+    }
+}
+
+impl Drop for ActiveTypeRef {
+    fn drop(&mut self) {
+        ACTIVE_TYPE_REFS.with_borrow_mut(|active| active.pop());
+    }
+}
+
 /// Validator for Styx documents.
 pub struct Validator<'a> {
     /// The schema file containing type definitions.
@@ -1177,7 +1210,23 @@ impl<'a> Validator<'a> {
             Some(name) => {
                 // Named type reference - look up in schema
                 if let Some(type_schema) = self.schema_file.schema.get(&Some(name.to_string())) {
-                    result.merge(self.validate_value(value, type_schema, path));
+                    match ActiveTypeRef::enter(value, type_schema) {
+                        Some(_active) => {
+                            result.merge(self.validate_value(value, type_schema, path));
+                        }
+                        None => {
+                            result.error(
+                                ValidationError::new(
+                                    path,
+                                    ValidationErrorKind::SchemaError {
+                                        reason: format!("type '{name}' is defined by itself"),
+                                    },
+                                    format!("type '{name}' is defined by itself"),
+                                )
+                                .with_span(value.span),
+                            );
+                        }
+                    }
                 } else {
                     result.error(
                         ValidationError::new(
-- 
2.43.0


From d091b6c38fec05463ad3bf9239d77b4814f4827a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:01 +0000
Subject: [PATCH 27/64] fix: read a bare @ into Option and other non-enum types
 in facet-styx

---
 crates/facet-styx/src/lib.rs    |  6 +++---
 crates/facet-styx/src/parser.rs | 15 ++++++++++++++-
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/crates/facet-styx/src/lib.rs b/crates/facet-styx/src/lib.rs
index fe37dd3..aeeec7b 100644
--- a/crates/facet-styx/src/lib.rs
+++ b/crates/facet-styx/src/lib.rs
@@ -106,7 +106,7 @@ where
     T: facet_core::Facet<'static>,
 {
     use facet_format::FormatDeserializer;
-    let mut parser = StyxParser::new(input);
+    let mut parser = StyxParser::new(input).with_plain_units();
     let mut de = FormatDeserializer::new_owned(&mut parser);
     de.deserialize_root()
 }
@@ -139,7 +139,7 @@ where
     'input: 'facet,
 {
     use facet_format::FormatDeserializer;
-    let mut parser = StyxParser::new(input);
+    let mut parser = StyxParser::new(input).with_plain_units();
     let mut de = FormatDeserializer::new(&mut parser);
     de.deserialize_root()
 }
@@ -172,7 +172,7 @@ where
     T: facet_core::Facet<'static>,
 {
     use facet_format::FormatDeserializer;
-    let mut parser = StyxParser::new_expr(input);
+    let mut parser = StyxParser::new_expr(input).with_plain_units();
     let mut de = FormatDeserializer::new_owned(&mut parser);
     de.deserialize_root()
 }
diff --git a/crates/facet-styx/src/parser.rs b/crates/facet-styx/src/parser.rs
index 9837d33..d1a6e48 100644
--- a/crates/facet-styx/src/parser.rs
+++ b/crates/facet-styx/src/parser.rs
@@ -112,6 +112,8 @@ pub struct StyxParser<'de> {
     tag_has_payload_stack: Vec<bool>,
     /// Hint for the next scalar type expected by the deserializer.
     scalar_type_hint: Option<ScalarTypeHint>,
+    /// Whether a bare `@` is reported as a plain unit scalar instead of a nameless tag.
+    plain_units: bool,
 }
 
 impl<'de> StyxParser<'de> {
@@ -124,6 +126,7 @@ impl<'de> StyxParser<'de> {
             complete: false,
             tag_has_payload_stack: Vec::new(),
             scalar_type_hint: None,
+            plain_units: false,
             pending_doc: Vec::new(),
             saved_state: None,
             at_implicit_root: true,
@@ -143,6 +146,7 @@ impl<'de> StyxParser<'de> {
             complete: false,
             tag_has_payload_stack: Vec::new(),
             scalar_type_hint: None,
+            plain_units: false,
             pending_doc: Vec::new(),
             saved_state: None,
             at_implicit_root: false, // Expression mode doesn't have implicit root
@@ -150,6 +154,15 @@ impl<'de> StyxParser<'de> {
         }
     }
 
+    /// Report a bare `@` as a plain unit scalar.
+    ///
+    /// The deserializer only understands a nameless tag where it expects an enum; everywhere
+    /// else (`Option`, `()`, ...) `@` has to look like the unit value it is.
+    pub(crate) fn with_plain_units(mut self) -> Self {
+        self.plain_units = true;
+        self
+    }
+
     /// Convert a Styx span to a facet_reflect span.
     fn to_reflect_span(&self, span: Span) -> ReflectSpan {
         ReflectSpan::new(span.start as usize, (span.end - span.start) as usize)
@@ -388,7 +401,7 @@ impl<'de> StyxParser<'de> {
                 // vs an implicit unit (key with no value).
                 let is_at_token = self.span_text(span) == "@";
 
-                if is_at_token && self.tag_has_payload_stack.is_empty() {
+                if is_at_token && !self.plain_units && self.tag_has_payload_stack.is_empty() {
                     // Standalone @ is a unit tag - emit VariantTag(None) + Scalar(Unit)
                     trace!("convert_event: Unit (@) -> VariantTag(None) + Scalar(Unit)");
                     self.peeked_events
-- 
2.43.0


From 515dec1d6a1f393b1d6744c514711b3c863f0c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:01 +0000
Subject: [PATCH 28/64] fix: attach numbers, booleans, sequences and maps to
 the variant tag they are the payload of

---
 crates/facet-styx/src/serializer.rs | 24 ++++++++++++++++--------
 crates/styx-format/src/writer.rs    | 22 ++++++++++------------
 2 files changed, 26 insertions(+), 20 deletions(-)

diff --git a/crates/facet-styx/src/serializer.rs b/crates/facet-styx/src/serializer.rs
index bd7c684..18a700f 100644
--- a/crates/facet-styx/src/serializer.rs
+++ b/crates/facet-styx/src/serializer.rs
@@ -225,9 +225,11 @@ impl FormatSerializer for StyxSerializer {
     fn begin_struct(&mut self) -> Result<(), Self::Error> {
         let is_root = self.at_root;
         trace!(is_root, "begin_struct");
+        if self.just_wrote_tag {
+            // The struct is the payload of the tag
+            return self.begin_struct_after_tag();
+        }
         self.at_root = false;
-        self.just_wrote_tag = false;
-        self.writer.clear_skip_before_value();
         self.writer.begin_struct(is_root);
         Ok(())
     }
@@ -323,9 +325,11 @@ impl FormatSerializer for StyxSerializer {
 
     fn begin_seq(&mut self) -> Result<(), Self::Error> {
         trace!("begin_seq");
+        if self.just_wrote_tag {
+            // The sequence is the payload of the tag
+            return self.begin_seq_after_tag();
+        }
         self.at_root = false;
-        self.just_wrote_tag = false;
-        self.writer.clear_skip_before_value();
         self.writer.begin_seq();
         Ok(())
     }
@@ -658,9 +662,11 @@ impl FormatSerializer for CompactStyxSerializer {
     type Error = StyxSerializeError;
 
     fn begin_struct(&mut self) -> Result<(), Self::Error> {
+        if self.just_wrote_tag {
+            // The struct is the payload of the tag
+            return self.begin_struct_after_tag();
+        }
         // Never treat as root in compact mode
-        self.just_wrote_tag = false;
-        self.writer.clear_skip_before_value();
         self.writer.begin_struct(false);
         Ok(())
     }
@@ -676,8 +682,10 @@ impl FormatSerializer for CompactStyxSerializer {
     }
 
     fn begin_seq(&mut self) -> Result<(), Self::Error> {
-        self.just_wrote_tag = false;
-        self.writer.clear_skip_before_value();
+        if self.just_wrote_tag {
+            // The sequence is the payload of the tag
+            return self.begin_seq_after_tag();
+        }
         self.writer.begin_seq();
         Ok(())
     }
diff --git a/crates/styx-format/src/writer.rs b/crates/styx-format/src/writer.rs
index e7cf6d8..52247b7 100644
--- a/crates/styx-format/src/writer.rs
+++ b/crates/styx-format/src/writer.rs
@@ -225,7 +225,8 @@ impl StyxWriter {
     /// Begin a struct directly after a tag (no space before the brace).
     pub fn begin_struct_after_tag(&mut self, force_multiline: bool) {
         // Don't call before_value() - we want no space after the tag
-        // Clear the force_quote flag since the tag's payload is a struct, not a scalar
+        // Clear the tag's flags since its payload is a struct, not a scalar
+        self.skip_next_before_value = false;
         self.force_quote_next_scalar = false;
         self.out.push(b'{');
         let open_pos = self.out.len(); // Position right after '{'
@@ -449,41 +450,37 @@ impl StyxWriter {
     /// Write a boolean value.
     pub fn write_bool(&mut self, v: bool) {
         self.before_value();
-        if v {
-            self.out.extend_from_slice(b"true");
-        } else {
-            self.out.extend_from_slice(b"false");
-        }
+        self.write_scalar_string(if v { "true" } else { "false" });
     }
 
     /// Write an i64 value.
     pub fn write_i64(&mut self, v: i64) {
         self.before_value();
-        self.out.extend_from_slice(v.to_string().as_bytes());
+        self.write_scalar_string(&v.to_string());
     }
 
     /// Write a u64 value.
     pub fn write_u64(&mut self, v: u64) {
         self.before_value();
-        self.out.extend_from_slice(v.to_string().as_bytes());
+        self.write_scalar_string(&v.to_string());
     }
 
     /// Write an i128 value.
     pub fn write_i128(&mut self, v: i128) {
         self.before_value();
-        self.out.extend_from_slice(v.to_string().as_bytes());
+        self.write_scalar_string(&v.to_string());
     }
 
     /// Write a u128 value.
     pub fn write_u128(&mut self, v: u128) {
         self.before_value();
-        self.out.extend_from_slice(v.to_string().as_bytes());
+        self.write_scalar_string(&v.to_string());
     }
 
     /// Write an f64 value.
     pub fn write_f64(&mut self, v: f64) {
         self.before_value();
-        self.out.extend_from_slice(v.to_string().as_bytes());
+        self.write_scalar_string(&v.to_string());
     }
 
     /// Write a string value with appropriate quoting.
@@ -552,7 +549,8 @@ impl StyxWriter {
 
     /// Begin a sequence directly after a tag (no space before the paren).
     pub fn begin_seq_after_tag(&mut self) {
-        // Clear the force_quote flag since the tag's payload is a sequence, not a scalar
+        // Clear the tag's flags since its payload is a sequence, not a scalar
+        self.skip_next_before_value = false;
         self.force_quote_next_scalar = false;
         self.out.push(b'(');
         // Sequences after tags always start inline
-- 
2.43.0


From c7e5e8e2b52d2748db14b803114ebecc2f247906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:37 +0000
Subject: [PATCH 29/64] fix: keep the recorded separator positions right when a
 doc comment breaks lines in the writer

---
 crates/styx-format/src/writer.rs | 163 +++++++++----------------------
 1 file changed, 48 insertions(+), 115 deletions(-)

diff --git a/crates/styx-format/src/writer.rs b/crates/styx-format/src/writer.rs
index 52247b7..8818304 100644
--- a/crates/styx-format/src/writer.rs
+++ b/crates/styx-format/src/writer.rs
@@ -683,120 +683,41 @@ impl StyxWriter {
     /// Propagate multiline formatting up to all parent structs that started inline.
     /// This is called when doc comments force the current struct to be multiline.
     fn propagate_multiline_to_parents(&mut self) {
-        // First, collect all comma positions from parent structs that will go multiline
-        // We need to fix these before inserting newlines
-        let mut all_comma_positions: Vec<usize> = Vec::new();
-        let mut structs_to_fix: Vec<usize> = Vec::new(); // indices in stack
+        // (position, number of bytes to replace, depth of the line to start there)
+        let mut breaks: Vec<(usize, usize, usize)> = Vec::new();
 
-        for (idx, ctx) in self.stack.iter().enumerate() {
-            if let Context::Struct {
-                inline_start,
-                force_multiline,
-                is_root,
-                comma_positions,
-                ..
-            } = ctx
-                && !*is_root
-                && *inline_start
-                && !*force_multiline
-            {
-                structs_to_fix.push(idx);
-                all_comma_positions.extend(comma_positions.iter().copied());
-            }
-        }
-
-        // Fix all comma separators first (before we insert newlines which would shift positions)
-        if !all_comma_positions.is_empty() {
-            // Sort and process from end to start
-            all_comma_positions.sort_unstable();
-            for &comma_pos in all_comma_positions.iter().rev() {
-                // Replace ", " with newline + appropriate indent
-                if comma_pos + 2 <= self.out.len()
-                    && self.out[comma_pos] == b','
-                    && self.out[comma_pos + 1] == b' '
-                {
-                    // Calculate indent for this position
-                    let indent = self.options.indent.repeat(self.indent_depth());
-                    let newline_indent = format!("\n{}", indent);
-                    self.out.drain(comma_pos..comma_pos + 2);
-                    let bytes = newline_indent.as_bytes();
-                    for (i, &b) in bytes.iter().enumerate() {
-                        self.out.insert(comma_pos + i, b);
-                    }
-                }
-            }
-        }
-
-        // Clear comma positions from structs we're fixing
-        for &idx in &structs_to_fix {
-            if let Some(Context::Struct {
-                comma_positions, ..
-            }) = self.stack.get_mut(idx)
-            {
-                comma_positions.clear();
-            }
-        }
-
-        // Now collect positions and effective depths of structs that need newline after brace
-        let mut fixes: Vec<(usize, usize)> = Vec::new(); // (open_brace_pos, effective_depth)
-
-        let mut effective_depth = 0;
+        let mut depth = 0;
         for ctx in self.stack.iter_mut() {
             if let Context::Struct {
                 inline_start,
                 force_multiline,
                 is_root,
-                open_brace_pos: Some(pos),
+                comma_positions,
+                open_brace_pos,
                 ..
             } = ctx
             {
                 // Root doesn't add depth
-                if !*is_root {
-                    // If this struct started inline but hasn't been fixed yet
-                    if *inline_start && !*force_multiline {
-                        *force_multiline = true;
-                        // Content inside this struct should be at effective_depth + 1
-                        fixes.push((*pos, effective_depth + 1));
-                    }
-                    // After forcing multiline, this struct now contributes to depth
-                    effective_depth += 1;
+                if *is_root {
+                    continue;
                 }
-            }
-        }
-
-        // Apply fixes from end to start (so positions stay valid)
-        for (pos, indent_depth) in fixes.into_iter().rev() {
-            // Insert newline + indent after the opening brace
-            let indent = self.options.indent.repeat(indent_depth);
-            let insert = format!("\n{}", indent);
-            for (i, b) in insert.bytes().enumerate() {
-                self.out.insert(pos + i, b);
-            }
-
-            // Update all positions in the stack that come after this insertion
-            for ctx in self.stack.iter_mut() {
-                if let Context::Struct {
-                    open_brace_pos: Some(p),
-                    comma_positions,
-                    ..
-                } = ctx
-                {
-                    if *p > pos {
-                        *p += insert.len();
-                    }
-                    for cp in comma_positions.iter_mut() {
-                        if *cp >= pos {
-                            *cp += insert.len();
-                        }
-                    }
+                depth += 1;
+                // If this struct started inline but hasn't been fixed yet
+                if *inline_start && !*force_multiline {
+                    *force_multiline = true;
+                    breaks.extend(open_brace_pos.map(|pos| (pos, 0, depth)));
+                    breaks.extend(comma_positions.drain(..).map(|pos| (pos, 2, depth)));
                 }
             }
         }
+
+        self.insert_line_breaks(breaks);
     }
 
     /// Fix any comma separators in the current struct by replacing them with newlines.
     /// Call this when switching from inline to multiline formatting mid-struct.
     fn fix_comma_separators(&mut self) {
+        let depth = self.indent_depth();
         // Extract comma positions from current struct context
         let comma_positions = match self.stack.last_mut() {
             Some(Context::Struct {
@@ -805,27 +726,39 @@ impl StyxWriter {
             _ => return,
         };
 
-        if comma_positions.is_empty() {
-            return;
-        }
+        self.insert_line_breaks(
+            comma_positions
+                .into_iter()
+                .map(|pos| (pos, 2, depth))
+                .collect(),
+        );
+    }
 
-        // Calculate the indentation string for this struct
-        let indent = self.options.indent.repeat(self.indent_depth());
-        let newline_indent = format!("\n{}", indent);
-
-        // Process comma positions from end to start (so earlier positions stay valid)
-        for &comma_pos in comma_positions.iter().rev() {
-            // Replace ", " (2 bytes) with "\n" + indent
-            // First, verify this position has ", " (sanity check)
-            if comma_pos + 2 <= self.out.len()
-                && self.out[comma_pos] == b','
-                && self.out[comma_pos + 1] == b' '
-            {
-                // Remove ", " and insert newline+indent
-                self.out.drain(comma_pos..comma_pos + 2);
-                let bytes = newline_indent.as_bytes();
-                for (i, &b) in bytes.iter().enumerate() {
-                    self.out.insert(comma_pos + i, b);
+    /// Replace text that was already written by line breaks, given as the position, the
+    /// number of bytes to replace and the depth to indent the new line to.
+    ///
+    /// Keeps the positions recorded in the stack in step with the output.
+    fn insert_line_breaks(&mut self, mut breaks: Vec<(usize, usize, usize)>) {
+        // Apply from end to start (so positions stay valid)
+        breaks.sort_unstable();
+        for (pos, len, depth) in breaks.into_iter().rev() {
+            let line_break = format!("\n{}", self.options.indent.repeat(depth));
+            self.out.splice(pos..pos + len, line_break.bytes());
+
+            let shift = |p: &mut usize| {
+                if *p > pos {
+                    *p = *p + line_break.len() - len;
+                }
+            };
+            for ctx in self.stack.iter_mut() {
+                if let Context::Struct {
+                    open_brace_pos,
+                    comma_positions,
+                    ..
+                } = ctx
+                {
+                    open_brace_pos.iter_mut().for_each(shift);
+                    comma_positions.iter_mut().for_each(shift);
                 }
             }
         }
-- 
2.43.0


From bf12d7431054e7e31e50bfa7d9c788e0044545c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:54 +0000
Subject: [PATCH 30/64] fix: refuse to write variant names that are not tag
 names in facet-styx

---
 crates/facet-styx/src/serializer.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/crates/facet-styx/src/serializer.rs b/crates/facet-styx/src/serializer.rs
index 18a700f..038add4 100644
--- a/crates/facet-styx/src/serializer.rs
+++ b/crates/facet-styx/src/serializer.rs
@@ -163,6 +163,20 @@ fn extract_name_and_tag<'mem, 'facet>(
     (None, None)
 }
 
+/// Reject names that cannot be written as a tag. The empty name is the bare `@`.
+fn check_tag_name(name: &str) -> Result<(), StyxSerializeError> {
+    let valid = name.chars().enumerate().all(|(i, c)| {
+        c.is_ascii_alphabetic() || c == '_' || (i > 0 && (c.is_ascii_digit() || c == '-'))
+    });
+    if valid {
+        Ok(())
+    } else {
+        Err(StyxSerializeError::new(format!(
+            "{name:?} cannot be written as a tag"
+        )))
+    }
+}
+
 /// Error type for Styx serialization.
 #[derive(Debug)]
 pub struct StyxSerializeError {
@@ -387,6 +401,7 @@ impl FormatSerializer for StyxSerializer {
 
     fn write_variant_tag(&mut self, variant_name: &str) -> Result<bool, Self::Error> {
         trace!(variant_name, "write_variant_tag");
+        check_tag_name(variant_name)?;
         self.at_root = false;
         if self.just_wrote_tag {
             self.writer.write_tag_chain_segment(variant_name);
@@ -734,6 +749,7 @@ impl FormatSerializer for CompactStyxSerializer {
     }
 
     fn write_variant_tag(&mut self, variant_name: &str) -> Result<bool, Self::Error> {
+        check_tag_name(variant_name)?;
         if self.just_wrote_tag {
             self.writer.write_tag_chain_segment(variant_name);
         } else {
-- 
2.43.0


From 96d86ae560e6603d2f09ed29c71725c4151b3526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:01 +0000
Subject: [PATCH 31/64] fix: escape the names of tagged keys and write metadata
 keys in compact facet-styx output

---
 crates/facet-styx/src/serializer.rs | 167 +++++++++++++++-------------
 1 file changed, 88 insertions(+), 79 deletions(-)

diff --git a/crates/facet-styx/src/serializer.rs b/crates/facet-styx/src/serializer.rs
index 038add4..45b3e31 100644
--- a/crates/facet-styx/src/serializer.rs
+++ b/crates/facet-styx/src/serializer.rs
@@ -8,7 +8,7 @@ use facet_format::{
     FieldKey, FieldLocationHint, FormatSerializer, ScalarValue, SerializeError, serialize_root,
 };
 use facet_reflect::{HasFields, Peek};
-use styx_format::{FormatOptions, StyxWriter};
+use styx_format::{FormatOptions, StyxWriter, escape_quoted};
 
 // Re-export FormatOptions as SerializeOptions for backwards compatibility
 pub use styx_format::FormatOptions as SerializeOptions;
@@ -163,6 +163,31 @@ fn extract_name_and_tag<'mem, 'facet>(
     (None, None)
 }
 
+/// The tag carried by a metadata container, if it has one.
+fn container_tag(container: &facet_reflect::PeekStruct<'_, '_>) -> Option<String> {
+    let (_, tag) = container
+        .fields()
+        .find(|(f, _)| f.metadata_kind() == Some("tag"))?;
+    let inner = tag.into_option().ok()?.value()?;
+    inner.as_str().map(String::from)
+}
+
+/// The text of a key that has a tag or no name at all: `@`, `@tag` or `@tag"name"`.
+///
+/// Returns `None` for a key that is just a name.
+fn raw_field_key(key: &FieldKey<'_>) -> Result<Option<String>, StyxSerializeError> {
+    let tag = key.tag().map(|c| c.as_ref());
+    let name = key.name().map(|c| c.as_ref());
+    check_tag_name(tag.unwrap_or_default())?;
+    Ok(match (tag, name) {
+        (Some(tag), Some(name)) => Some(format!("@{tag}\"{}\"", escape_quoted(name))),
+        (Some(tag), None) => Some(format!("@{tag}")),
+        (None, Some(_)) => None,
+        // Shouldn't happen, but fall back to @
+        (None, None) => Some("@".to_string()),
+    })
+}
+
 /// Reject names that cannot be written as a tag. The empty name is the bare `@`.
 fn check_tag_name(name: &str) -> Result<(), StyxSerializeError> {
     let valid = name.chars().enumerate().all(|(i, c)| {
@@ -255,77 +280,29 @@ impl FormatSerializer for StyxSerializer {
         self.writer.field_key(key).map_err(StyxSerializeError::new)
     }
 
-    fn emit_field_key(&mut self, key: &facet_format::FieldKey<'_>) -> Result<(), Self::Error> {
+    fn emit_field_key(&mut self, key: &FieldKey<'_>) -> Result<(), Self::Error> {
         trace!(?key, "emit_field_key");
         self.just_wrote_tag = false;
         self.writer.clear_skip_before_value();
 
-        let doc_lines: Vec<&str> = key
+        let doc = key
             .doc()
-            .map(|d| d.iter().map(|s| s.as_ref()).collect())
-            .unwrap_or_default();
-
-        // Build the key based on tag and name:
-        // - `@` → tag=Some(""), name=None
-        // - `@tag` → tag=Some("tag"), name=None
-        // - `name` → tag=None, name=Some("name")
-        // - `@tag"name"` → tag=Some("tag"), name=Some("name")
-        match (
-            key.tag().map(|c| c.as_ref()),
-            key.name().map(|c| c.as_ref()),
-        ) {
-            (Some(tag), Some(name)) => {
-                // @tag"name" - tagged with value
-                let key_str = if tag.is_empty() {
-                    format!("@\"{}\"", name)
-                } else {
-                    format!("@{}\"{}\"", tag, name)
-                };
-                if !doc_lines.is_empty() {
-                    self.writer
-                        .write_doc_comment_and_key_raw(&doc_lines.join("\n"), &key_str);
-                } else {
-                    self.writer
-                        .field_key_raw(&key_str)
-                        .map_err(StyxSerializeError::new)?;
-                }
-            }
-            (Some(tag), None) => {
-                // @tag or @ - typed catch-all or unit
-                let key_str = if tag.is_empty() {
-                    "@".to_string()
-                } else {
-                    format!("@{}", tag)
-                };
-                if !doc_lines.is_empty() {
-                    self.writer
-                        .write_doc_comment_and_key_raw(&doc_lines.join("\n"), &key_str);
-                } else {
-                    self.writer
-                        .field_key_raw(&key_str)
-                        .map_err(StyxSerializeError::new)?;
-                }
-            }
-            (None, Some(name)) => {
-                // name - regular named field
-                if !doc_lines.is_empty() {
-                    self.writer
-                        .write_doc_comment_and_key(&doc_lines.join("\n"), name);
-                } else {
-                    self.writer
+            .filter(|lines| !lines.is_empty())
+            .map(|lines| lines.join("\n"));
+        match (raw_field_key(key)?, doc) {
+            (Some(raw), Some(doc)) => self.writer.write_doc_comment_and_key_raw(&doc, &raw),
+            (Some(raw), None) => self
+                .writer
+                .field_key_raw(&raw)
+                .map_err(StyxSerializeError::new)?,
+            (None, doc) => {
+                let name = key.name().map(|c| c.as_ref()).unwrap_or_default();
+                match doc {
+                    Some(doc) => self.writer.write_doc_comment_and_key(&doc, name),
+                    None => self
+                        .writer
                         .field_key(name)
-                        .map_err(StyxSerializeError::new)?;
-                }
-            }
-            (None, None) => {
-                // Shouldn't happen, but fall back to @
-                if !doc_lines.is_empty() {
-                    self.writer
-                        .write_doc_comment_and_key_raw(&doc_lines.join("\n"), "@");
-                } else {
-                    self.writer
-                        .field_key_raw("@")
-                        .map_err(StyxSerializeError::new)?;
+                        .map_err(StyxSerializeError::new)?,
                 }
             }
         }
@@ -470,19 +447,9 @@ impl FormatSerializer for StyxSerializer {
     ) -> Result<bool, Self::Error> {
         trace!("serialize_metadata_container");
 
-        // Extract tag from the metadata container
-        for (f, field_value) in container.fields() {
-            if f.metadata_kind() == Some("tag") {
-                // Extract tag value
-                if let Ok(opt) = field_value.into_option()
-                    && let Some(inner) = opt.value()
-                    && let Some(s) = inner.as_str()
-                {
-                    // Emit the tag before the value
-                    self.write_variant_tag(s)?;
-                }
-                break;
-            }
+        if let Some(tag) = container_tag(container) {
+            // Emit the tag before the value
+            self.write_variant_tag(&tag)?;
         }
 
         // Return false to let the caller serialize the value field
@@ -692,6 +659,19 @@ impl FormatSerializer for CompactStyxSerializer {
         self.writer.field_key(key).map_err(StyxSerializeError::new)
     }
 
+    fn emit_field_key(&mut self, key: &FieldKey<'_>) -> Result<(), Self::Error> {
+        self.just_wrote_tag = false;
+        self.writer.clear_skip_before_value();
+        // A single line has no room for doc comments: they are left out
+        match raw_field_key(key)? {
+            Some(raw) => self.writer.field_key_raw(&raw),
+            None => self
+                .writer
+                .field_key(key.name().map(|c| c.as_ref()).unwrap_or_default()),
+        }
+        .map_err(StyxSerializeError::new)
+    }
+
     fn end_struct(&mut self) -> Result<(), Self::Error> {
         self.writer.end_struct().map_err(StyxSerializeError::new)
     }
@@ -776,6 +756,35 @@ impl FormatSerializer for CompactStyxSerializer {
         self.writer.clear_skip_before_value();
         Ok(())
     }
+
+    fn raw_serialize_shape(&self) -> Option<&'static facet_core::Shape> {
+        Some(crate::RawStyx::SHAPE)
+    }
+
+    fn raw_scalar(&mut self, content: &str) -> Result<(), Self::Error> {
+        self.just_wrote_tag = false;
+        self.writer.before_value();
+        self.writer.write_str(content);
+        Ok(())
+    }
+
+    fn serialize_map_key(&mut self, key: Peek<'_, '_>) -> Result<bool, Self::Error> {
+        let Some(field_key) = extract_field_key(key) else {
+            return Ok(false);
+        };
+        self.emit_field_key(&field_key)?;
+        Ok(true)
+    }
+
+    fn serialize_metadata_container(
+        &mut self,
+        container: &facet_reflect::PeekStruct<'_, '_>,
+    ) -> Result<bool, Self::Error> {
+        if let Some(tag) = container_tag(container) {
+            self.write_variant_tag(&tag)?;
+        }
+        Ok(false)
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 1a531b90a2c433785d22162f2fba702af8910e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:20 +0000
Subject: [PATCH 32/64] fix: deserialize serde_styx values from parser events
 (tags, heredocs, dotted paths, nested objects, trailing input)

---
 crates/serde_styx/src/de.rs | 841 +++++++++++++++---------------------
 1 file changed, 360 insertions(+), 481 deletions(-)

diff --git a/crates/serde_styx/src/de.rs b/crates/serde_styx/src/de.rs
index 8527351..12e665f 100644
--- a/crates/serde_styx/src/de.rs
+++ b/crates/serde_styx/src/de.rs
@@ -1,316 +1,271 @@
 //! Serde deserializer for Styx.
 
-use serde::de::{self, Visitor};
-use styx_parse::{ScalarKind, Span, Token, TokenKind, Tokenizer};
+use std::borrow::Cow;
+
+use serde::de::{self, IntoDeserializer, Visitor};
+use styx_parse::{Event, EventKind, Parser, ScalarKind};
 
 use crate::error::{Error, Result};
 
 /// Styx deserializer implementing serde::Deserializer.
+///
+/// A document is read as an object; anything that cannot be read from an object (sequences,
+/// scalars, tags...) is read from a source that holds just that value.
 pub struct Deserializer<'de> {
-    lexer: Tokenizer<'de>,
-    /// Peeked token (if any).
-    peeked_token: Option<Token<'de>>,
-    /// Current span for error reporting.
-    current_span: Option<Span>,
-    /// Whether we've started the implicit root struct.
-    root_started: bool,
+    source: &'de str,
 }
 
 impl<'de> Deserializer<'de> {
     /// Create a new deserializer for the given source.
     pub fn new(source: &'de str) -> Self {
-        Self {
-            lexer: Tokenizer::new(source),
-            peeked_token: None,
-            current_span: None,
-            root_started: false,
-        }
+        Self { source }
     }
 
-    /// Peek at the next token without consuming it.
-    fn peek_token(&mut self) -> Option<&Token<'de>> {
-        if self.peeked_token.is_none() {
-            loop {
-                let token = self.lexer.next_token();
-                match token.kind {
-                    TokenKind::Whitespace | TokenKind::LineComment | TokenKind::Newline => continue,
-                    TokenKind::Eof => {
-                        self.peeked_token = Some(token);
-                        break;
-                    }
-                    _ => {
-                        self.peeked_token = Some(token);
-                        break;
-                    }
-                }
-            }
+    /// The source as a document.
+    fn document(&self) -> Result<Value<'de>> {
+        let mut value = Builder::build(Parser::new(self.source))?;
+        if let Value::Object(entries) = &mut value {
+            // The schema declaration is not part of the data
+            entries.retain(|(key, _)| key.tag != Some("schema") || key.name.is_some());
         }
-        self.peeked_token.as_ref()
+        Ok(value)
     }
 
-    /// Consume the next token.
-    fn next_token(&mut self) -> Token<'de> {
-        if let Some(token) = self.peeked_token.take() {
-            self.current_span = Some(token.span);
-            return token;
-        }
-        loop {
-            let token = self.lexer.next_token();
-            match token.kind {
-                TokenKind::Whitespace | TokenKind::LineComment | TokenKind::Newline => continue,
-                _ => {
-                    self.current_span = Some(token.span);
-                    return token;
-                }
-            }
-        }
+    /// The source as a single value.
+    fn value(&self) -> Result<Value<'de>> {
+        Builder::build(Parser::new_expr(self.source))
     }
+}
 
-    /// Skip commas between entries.
-    fn skip_comma(&mut self) {
-        if let Some(token) = self.peek_token()
-            && token.kind == TokenKind::Comma
-        {
-            self.next_token();
+/// A parsed value.
+enum Value<'de> {
+    Unit,
+    Scalar {
+        text: Cow<'de, str>,
+        kind: ScalarKind,
+    },
+    Tag {
+        name: &'de str,
+        payload: Option<Box<Value<'de>>>,
+    },
+    Seq(Vec<Value<'de>>),
+    Object(Vec<(Key<'de>, Value<'de>)>),
+}
+
+/// The key of an entry: `name`, `@`, `@tag` or `@tag"name"`.
+#[derive(PartialEq)]
+struct Key<'de> {
+    tag: Option<&'de str>,
+    name: Option<Cow<'de, str>>,
+}
+
+/// Builds values from parser events.
+struct Builder<'de> {
+    parser: Parser<'de>,
+}
+
+impl<'de> Builder<'de> {
+    fn build(parser: Parser<'de>) -> Result<Value<'de>> {
+        let mut builder = Self { parser };
+        let value = match builder.next()? {
+            Some(event) => builder.value(event)?,
+            None => return Err(Error::new("unexpected end of input")),
+        };
+        match builder.next()? {
+            Some(event) => Err(unexpected(event.kind)),
+            None => Ok(value),
         }
     }
 
-    /// Parse a scalar value.
-    fn parse_scalar(&self, text: &'de str, kind: ScalarKind) -> ScalarValue<'de> {
-        match kind {
-            ScalarKind::Bare => {
-                if text == "true" {
-                    ScalarValue::Bool(true)
-                } else if text == "false" {
-                    ScalarValue::Bool(false)
-                } else if text == "null" {
-                    ScalarValue::Null
-                } else if let Ok(n) = text.parse::<i64>() {
-                    ScalarValue::I64(n)
-                } else if let Ok(n) = text.parse::<u64>() {
-                    ScalarValue::U64(n)
-                } else if let Ok(n) = text.parse::<f64>() {
-                    ScalarValue::F64(n)
-                } else {
-                    ScalarValue::Str(text)
-                }
-            }
-            ScalarKind::Quoted => {
-                let inner = self.unescape_quoted(text);
-                ScalarValue::String(inner)
+    /// The next event that carries data.
+    fn next(&mut self) -> Result<Option<Event<'de>>> {
+        while let Some(event) = self.parser.next_event() {
+            match event.kind {
+                EventKind::Error { kind } => return Err(Error::custom(kind)),
+                EventKind::DocumentStart
+                | EventKind::DocumentEnd
+                | EventKind::Comment { .. }
+                | EventKind::DocComment { .. } => {}
+                _ => return Ok(Some(event)),
             }
-            ScalarKind::Raw | ScalarKind::Heredoc => ScalarValue::Str(text),
         }
+        Ok(None)
     }
 
-    /// Unescape a quoted string.
-    fn unescape_quoted(&self, text: &'de str) -> String {
-        // Remove surrounding quotes
-        let inner = if text.starts_with('"') && text.ends_with('"') && text.len() >= 2 {
-            &text[1..text.len() - 1]
-        } else {
-            text
-        };
-
-        styx_format::unescape_quoted(inner).into_owned()
-    }
-
-    fn error(&self, msg: impl Into<String>) -> Error {
-        Error::new(msg)
+    fn expect_next(&mut self) -> Result<Event<'de>> {
+        self.next()?
+            .ok_or_else(|| Error::new("unexpected end of input"))
     }
-}
-
-/// Internal scalar value representation.
-enum ScalarValue<'de> {
-    Null,
-    Bool(bool),
-    I64(i64),
-    U64(u64),
-    F64(f64),
-    Str(&'de str),
-    String(String),
-}
-
-impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
-    type Error = Error;
 
-    fn deserialize_any<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        let token = self.peek_token().cloned();
-        match token {
-            Some(token) => match token.kind {
-                TokenKind::LBrace => self.deserialize_map(visitor),
-                TokenKind::LParen => self.deserialize_seq(visitor),
-                TokenKind::At => {
-                    self.next_token();
-                    // Check if it's a tag or unit
-                    if let Some(next) = self.peek_token() {
-                        if next.kind == TokenKind::BareScalar && next.span.start == token.span.end {
-                            // It's a tag - treat as enum
-                            let name_token = self.next_token();
-                            visitor.visit_enum(EnumAccess {
-                                de: self,
-                                variant: name_token.text,
-                            })
-                        } else {
-                            visitor.visit_unit()
-                        }
-                    } else {
-                        visitor.visit_unit()
+    /// The value that starts with the given event.
+    fn value(&mut self, event: Event<'de>) -> Result<Value<'de>> {
+        match event.kind {
+            EventKind::Unit => Ok(Value::Unit),
+            EventKind::Scalar { value, kind } => Ok(Value::Scalar { text: value, kind }),
+            EventKind::TagStart { name } => {
+                let mut payload = None;
+                loop {
+                    match self.expect_next()? {
+                        event if matches!(event.kind, EventKind::TagEnd) => break,
+                        event => payload = Some(Box::new(self.value(event)?)),
                     }
                 }
-                TokenKind::BareScalar => {
-                    let token = self.next_token();
-                    match self.parse_scalar(token.text, ScalarKind::Bare) {
-                        ScalarValue::Null => visitor.visit_unit(),
-                        ScalarValue::Bool(v) => visitor.visit_bool(v),
-                        ScalarValue::I64(v) => visitor.visit_i64(v),
-                        ScalarValue::U64(v) => visitor.visit_u64(v),
-                        ScalarValue::F64(v) => visitor.visit_f64(v),
-                        ScalarValue::Str(s) => visitor.visit_borrowed_str(s),
-                        ScalarValue::String(s) => visitor.visit_string(s),
+                Ok(Value::Tag { name, payload })
+            }
+            EventKind::SequenceStart => {
+                let mut items = Vec::new();
+                loop {
+                    match self.expect_next()? {
+                        event if matches!(event.kind, EventKind::SequenceEnd) => break,
+                        event => items.push(self.value(event)?),
                     }
                 }
-                TokenKind::QuotedScalar => {
-                    let token = self.next_token();
-                    let s = self.unescape_quoted(token.text);
-                    visitor.visit_string(s)
-                }
-                TokenKind::RawScalar => {
-                    let token = self.next_token();
-                    // Extract content from r#"..."#
-                    let text = token.text;
-                    let start = text.find('"').map(|i| i + 1).unwrap_or(0);
-                    let end = text.rfind('"').unwrap_or(text.len());
-                    visitor.visit_borrowed_str(&text[start..end])
-                }
-                TokenKind::HeredocStart => {
-                    self.next_token();
-                    let mut content = String::new();
-                    loop {
-                        let next = self.next_token();
-                        match next.kind {
-                            TokenKind::HeredocContent => content.push_str(next.text),
-                            TokenKind::HeredocEnd => break,
-                            _ => break,
+                Ok(Value::Seq(items))
+            }
+            EventKind::ObjectStart => {
+                let mut entries = Vec::new();
+                loop {
+                    let event = self.expect_next()?;
+                    match event.kind {
+                        EventKind::ObjectEnd => break,
+                        EventKind::EntryStart | EventKind::EntryEnd => {}
+                        EventKind::Key { tag, payload, .. } => {
+                            let key = Key { tag, name: payload };
+                            let event = self.expect_next()?;
+                            let value = self.value(event)?;
+                            insert(&mut entries, key, value);
                         }
+                        kind => return Err(unexpected(kind)),
                     }
-                    visitor.visit_string(content)
                 }
-                TokenKind::Eof => {
-                    // At EOF, try to deserialize as empty struct if at root
-                    if !self.root_started {
-                        self.root_started = true;
-                        visitor.visit_map(MapAccess { de: self })
-                    } else {
-                        Err(self.error("unexpected end of input"))
-                    }
-                }
-                _ => {
-                    // At root level, start implicit struct
-                    if !self.root_started {
-                        self.root_started = true;
-                        visitor.visit_map(MapAccess { de: self })
-                    } else {
-                        Err(self.error(format!("unexpected token: {:?}", token.kind)))
-                    }
-                }
-            },
-            None => Err(self.error("unexpected end of input")),
+                Ok(Value::Object(entries))
+            }
+            kind => Err(unexpected(kind)),
         }
     }
+}
 
-    fn deserialize_bool<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        let token = self.next_token();
-        match token.text {
-            "true" => visitor.visit_bool(true),
-            "false" => visitor.visit_bool(false),
-            _ => Err(self.error(format!("expected bool, got {:?}", token.text))),
+/// Add an entry to an object.
+///
+/// The parser rejects duplicate keys, so a key that comes again belongs to a dotted path
+/// with the same first segments, like `a.c` in `a.b 1, a.c 2`.
+fn insert<'de>(entries: &mut Vec<(Key<'de>, Value<'de>)>, key: Key<'de>, value: Value<'de>) {
+    let Some((_, existing)) = entries.iter_mut().find(|(k, _)| *k == key) else {
+        entries.push((key, value));
+        return;
+    };
+    match (existing, value) {
+        (Value::Object(existing), Value::Object(new)) => {
+            for (key, value) in new {
+                insert(existing, key, value);
+            }
         }
+        (existing, value) => *existing = value,
     }
+}
 
-    fn deserialize_i8<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        self.deserialize_i64(visitor)
-    }
-
-    fn deserialize_i16<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        self.deserialize_i64(visitor)
-    }
-
-    fn deserialize_i32<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        self.deserialize_i64(visitor)
-    }
+fn unexpected(kind: EventKind<'_>) -> Error {
+    Error::new(format!("unexpected {kind:?}"))
+}
 
-    fn deserialize_i64<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        let token = self.next_token();
-        let n: i64 = token
-            .text
-            .parse()
-            .map_err(|_| self.error(format!("expected integer, got {:?}", token.text)))?;
-        visitor.visit_i64(n)
+impl<'de> Value<'de> {
+    /// What this value is, for error messages.
+    fn describe(&self) -> String {
+        match self {
+            Value::Unit => "unit (@)".into(),
+            Value::Scalar { text, .. } => format!("{text:?}"),
+            Value::Tag { name, .. } => format!("tag @{name}"),
+            Value::Seq(_) => "a sequence".into(),
+            Value::Object(_) => "an object".into(),
+        }
     }
 
-    fn deserialize_u8<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        self.deserialize_u64(visitor)
+    fn expected(&self, what: &str) -> Error {
+        Error::new(format!("expected {what}, got {}", self.describe()))
     }
 
-    fn deserialize_u16<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        self.deserialize_u64(visitor)
+    /// Parse a scalar value.
+    fn parse<T: std::str::FromStr>(&self, what: &str) -> Result<T> {
+        match self {
+            Value::Scalar { text, .. } => text.parse().map_err(|_| self.expected(what)),
+            _ => Err(self.expected(what)),
+        }
     }
+}
 
-    fn deserialize_u32<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        self.deserialize_u64(visitor)
+fn visit_text<'de, V: Visitor<'de>>(text: Cow<'de, str>, visitor: V) -> Result<V::Value> {
+    match text {
+        Cow::Borrowed(s) => visitor.visit_borrowed_str(s),
+        Cow::Owned(s) => visitor.visit_string(s),
     }
+}
 
-    fn deserialize_u64<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        let token = self.next_token();
-        let n: u64 = token
-            .text
-            .parse()
-            .map_err(|_| self.error(format!("expected unsigned integer, got {:?}", token.text)))?;
-        visitor.visit_u64(n)
-    }
+/// Methods that parse a scalar and hand it to the visitor.
+macro_rules! scalars {
+    ($($method:ident => $visit:ident, $what:literal;)*) => {$(
+        fn $method<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
+            visitor.$visit(self.parse($what)?)
+        }
+    )*};
+}
 
-    fn deserialize_f32<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        self.deserialize_f64(visitor)
-    }
+impl<'de> de::Deserializer<'de> for Value<'de> {
+    type Error = Error;
 
-    fn deserialize_f64<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        let token = self.next_token();
-        let n: f64 = token
-            .text
-            .parse()
-            .map_err(|_| self.error(format!("expected float, got {:?}", token.text)))?;
-        visitor.visit_f64(n)
+    fn deserialize_any<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
+        match self {
+            Value::Unit => visitor.visit_unit(),
+            Value::Scalar {
+                text,
+                kind: ScalarKind::Bare,
+            } => {
+                if text == "true" {
+                    visitor.visit_bool(true)
+                } else if text == "false" {
+                    visitor.visit_bool(false)
+                } else if text == "null" {
+                    visitor.visit_unit()
+                } else if let Ok(n) = text.parse::<i64>() {
+                    visitor.visit_i64(n)
+                } else if let Ok(n) = text.parse::<u64>() {
+                    visitor.visit_u64(n)
+                } else if let Ok(n) = text.parse::<f64>() {
+                    visitor.visit_f64(n)
+                } else {
+                    visit_text(text, visitor)
+                }
+            }
+            Value::Scalar { text, .. } => visit_text(text, visitor),
+            Value::Tag { name, payload } => visitor.visit_enum(EnumAccess {
+                name: name.into(),
+                payload: payload.map(|p| *p),
+            }),
+            Value::Seq(_) => self.deserialize_seq(visitor),
+            Value::Object(_) => self.deserialize_map(visitor),
+        }
     }
 
-    fn deserialize_char<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        let token = self.next_token();
-        let s = if token.kind == TokenKind::QuotedScalar {
-            self.unescape_quoted(token.text)
-        } else {
-            token.text.to_string()
-        };
-        let c = s
-            .chars()
-            .next()
-            .ok_or_else(|| self.error("expected char"))?;
-        visitor.visit_char(c)
+    scalars! {
+        deserialize_bool => visit_bool, "bool";
+        deserialize_i8 => visit_i8, "integer";
+        deserialize_i16 => visit_i16, "integer";
+        deserialize_i32 => visit_i32, "integer";
+        deserialize_i64 => visit_i64, "integer";
+        deserialize_i128 => visit_i128, "integer";
+        deserialize_u8 => visit_u8, "unsigned integer";
+        deserialize_u16 => visit_u16, "unsigned integer";
+        deserialize_u32 => visit_u32, "unsigned integer";
+        deserialize_u64 => visit_u64, "unsigned integer";
+        deserialize_u128 => visit_u128, "unsigned integer";
+        deserialize_f32 => visit_f32, "float";
+        deserialize_f64 => visit_f64, "float";
+        deserialize_char => visit_char, "char";
     }
 
     fn deserialize_str<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        let token = self.next_token();
-        match token.kind {
-            TokenKind::QuotedScalar => {
-                let s = self.unescape_quoted(token.text);
-                visitor.visit_string(s)
-            }
-            TokenKind::RawScalar => {
-                let text = token.text;
-                let start = text.find('"').map(|i| i + 1).unwrap_or(0);
-                let end = text.rfind('"').unwrap_or(text.len());
-                visitor.visit_borrowed_str(&text[start..end])
-            }
-            _ => visitor.visit_borrowed_str(token.text),
+        match self {
+            Value::Scalar { text, .. } => visit_text(text, visitor),
+            _ => Err(self.expected("string")),
         }
     }
 
@@ -320,21 +275,24 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
 
     fn deserialize_bytes<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
         // Decode hex string
-        let token = self.next_token();
-        let text = if token.kind == TokenKind::QuotedScalar {
-            &token.text[1..token.text.len() - 1]
-        } else {
-            token.text
+        let Value::Scalar { text, .. } = &self else {
+            return Err(self.expected("bytes"));
         };
-
-        let mut bytes = Vec::with_capacity(text.len() / 2);
-        let mut chars = text.chars();
-        while let (Some(a), Some(b)) = (chars.next(), chars.next()) {
-            let byte = u8::from_str_radix(&format!("{}{}", a, b), 16)
-                .map_err(|_| self.error("invalid hex in bytes"))?;
-            bytes.push(byte);
+        let bytes: Option<Vec<u8>> = text
+            .as_bytes()
+            .chunks(2)
+            .map(|pair| match pair {
+                [a, b] => {
+                    let digit = |c: u8| (c as char).to_digit(16);
+                    Some((digit(*a)? * 16 + digit(*b)?) as u8)
+                }
+                _ => None,
+            })
+            .collect();
+        match bytes {
+            Some(bytes) => visitor.visit_byte_buf(bytes),
+            None => Err(Error::new("invalid hex in bytes")),
         }
-        visitor.visit_bytes(&bytes)
     }
 
     fn deserialize_byte_buf<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
@@ -342,34 +300,16 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
     }
 
     fn deserialize_option<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        if let Some(token) = self.peek_token()
-            && token.kind == TokenKind::At
-        {
-            // Check if it's just @ (unit/none) or @tag
-            let token = self.next_token();
-            if let Some(next) = self.peek_token()
-                && next.kind == TokenKind::BareScalar
-                && next.span.start == token.span.end
-            {
-                // It's a tag - put back and deserialize as Some
-                self.peeked_token = Some(Token {
-                    kind: TokenKind::At,
-                    text: "@",
-                    span: token.span,
-                });
-                return visitor.visit_some(self);
-            }
-            return visitor.visit_none();
+        match self {
+            Value::Unit => visitor.visit_none(),
+            _ => visitor.visit_some(self),
         }
-        visitor.visit_some(self)
     }
 
     fn deserialize_unit<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        let token = self.next_token();
-        if token.kind == TokenKind::At {
-            visitor.visit_unit()
-        } else {
-            Err(self.error("expected unit (@)"))
+        match self {
+            Value::Unit => visitor.visit_unit(),
+            _ => Err(self.expected("unit (@)")),
         }
     }
 
@@ -390,11 +330,15 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
     }
 
     fn deserialize_seq<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        let token = self.next_token();
-        if token.kind != TokenKind::LParen {
-            return Err(self.error("expected sequence ("));
+        match self {
+            Value::Seq(items) => {
+                let mut access = de::value::SeqDeserializer::new(items.into_iter());
+                let value = visitor.visit_seq(&mut access)?;
+                access.end()?;
+                Ok(value)
+            }
+            _ => Err(self.expected("sequence")),
         }
-        visitor.visit_seq(SeqAccess { de: self })
     }
 
     fn deserialize_tuple<V: Visitor<'de>>(self, _len: usize, visitor: V) -> Result<V::Value> {
@@ -411,12 +355,15 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
     }
 
     fn deserialize_map<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        if let Some(token) = self.peek_token()
-            && token.kind == TokenKind::LBrace
-        {
-            self.next_token();
+        match self {
+            Value::Object(entries) => {
+                let mut access = de::value::MapDeserializer::new(entries.into_iter());
+                let value = visitor.visit_map(&mut access)?;
+                access.end()?;
+                Ok(value)
+            }
+            _ => Err(self.expected("object")),
         }
-        visitor.visit_map(MapAccess { de: self })
     }
 
     fn deserialize_struct<V: Visitor<'de>>(
@@ -425,19 +372,7 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
         _fields: &'static [&'static str],
         visitor: V,
     ) -> Result<V::Value> {
-        // Check if we're at root level (no braces) or explicit struct
-        if let Some(token) = self.peek_token()
-            && token.kind == TokenKind::LBrace
-        {
-            self.next_token();
-            return visitor.visit_map(MapAccess { de: self });
-        }
-
-        // Implicit root struct
-        if !self.root_started {
-            self.root_started = true;
-        }
-        visitor.visit_map(MapAccess { de: self })
+        self.deserialize_map(visitor)
     }
 
     fn deserialize_enum<V: Visitor<'de>>(
@@ -446,227 +381,171 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
         _variants: &'static [&'static str],
         visitor: V,
     ) -> Result<V::Value> {
-        let token = self.next_token();
-        if token.kind == TokenKind::At {
-            // Tagged enum
-            let name_token = self.next_token();
-            if name_token.kind != TokenKind::BareScalar {
-                return Err(self.error("expected variant name after @"));
-            }
-            visitor.visit_enum(EnumAccess {
-                de: self,
-                variant: name_token.text,
-            })
-        } else if token.kind == TokenKind::BareScalar {
+        match self {
+            Value::Tag { name, payload } => visitor.visit_enum(EnumAccess {
+                name: name.into(),
+                payload: payload.map(|p| *p),
+            }),
             // Untagged string variant
-            visitor.visit_enum(EnumAccess {
-                de: self,
-                variant: token.text,
-            })
-        } else {
-            Err(self.error("expected enum variant"))
+            Value::Scalar { text, .. } => visitor.visit_enum(EnumAccess {
+                name: text,
+                payload: None,
+            }),
+            _ => Err(self.expected("enum variant")),
         }
     }
 
     fn deserialize_identifier<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        let token = self.next_token();
-        match token.kind {
-            TokenKind::BareScalar => visitor.visit_borrowed_str(token.text),
-            TokenKind::QuotedScalar => {
-                let s = self.unescape_quoted(token.text);
-                visitor.visit_string(s)
-            }
-            _ => Err(self.error("expected identifier")),
-        }
+        self.deserialize_str(visitor)
     }
 
     fn deserialize_ignored_any<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        // Skip the next value
-        self.skip_value()?;
         visitor.visit_unit()
     }
 }
 
-impl<'de> Deserializer<'de> {
-    fn skip_value(&mut self) -> Result<()> {
-        let token = self.next_token();
-        match token.kind {
-            TokenKind::LBrace => {
-                let mut depth = 1;
-                while depth > 0 {
-                    let t = self.next_token();
-                    match t.kind {
-                        TokenKind::LBrace => depth += 1,
-                        TokenKind::RBrace => depth -= 1,
-                        TokenKind::Eof => break,
-                        _ => {}
-                    }
-                }
-            }
-            TokenKind::LParen => {
-                let mut depth = 1;
-                while depth > 0 {
-                    let t = self.next_token();
-                    match t.kind {
-                        TokenKind::LParen => depth += 1,
-                        TokenKind::RParen => depth -= 1,
-                        TokenKind::Eof => break,
-                        _ => {}
-                    }
-                }
-            }
-            TokenKind::At => {
-                // Could be unit or tag with value
-                if let Some(next) = self.peek_token()
-                    && next.kind == TokenKind::BareScalar
-                {
-                    self.next_token();
-                    // Check for payload
-                    if let Some(next) = self.peek_token()
-                        && !matches!(
-                            next.kind,
-                            TokenKind::RBrace
-                                | TokenKind::RParen
-                                | TokenKind::Comma
-                                | TokenKind::Eof
-                        )
-                    {
-                        self.skip_value()?;
-                    }
-                }
-            }
-            _ => {
-                // Scalar - already consumed
-            }
-        }
-        Ok(())
-    }
-}
-
-/// Sequence access for serde.
-struct SeqAccess<'a, 'de> {
-    de: &'a mut Deserializer<'de>,
-}
-
-impl<'a, 'de> de::SeqAccess<'de> for SeqAccess<'a, 'de> {
-    type Error = Error;
-
-    fn next_element_seed<T>(&mut self, seed: T) -> Result<Option<T::Value>>
-    where
-        T: de::DeserializeSeed<'de>,
-    {
-        self.de.skip_comma();
-
-        if let Some(token) = self.de.peek_token() {
-            if token.kind == TokenKind::RParen {
-                self.de.next_token();
-                return Ok(None);
-            }
-            if token.kind == TokenKind::Eof {
-                return Err(self.de.error("unexpected end of sequence"));
-            }
-        }
+impl<'de> IntoDeserializer<'de, Error> for Value<'de> {
+    type Deserializer = Self;
 
-        seed.deserialize(&mut *self.de).map(Some)
+    fn into_deserializer(self) -> Self {
+        self
     }
 }
 
-/// Map access for serde.
-struct MapAccess<'a, 'de> {
-    de: &'a mut Deserializer<'de>,
-}
-
-impl<'a, 'de> de::MapAccess<'de> for MapAccess<'a, 'de> {
-    type Error = Error;
-
-    fn next_key_seed<K>(&mut self, seed: K) -> Result<Option<K::Value>>
-    where
-        K: de::DeserializeSeed<'de>,
-    {
-        self.de.skip_comma();
-
-        let token_kind = self.de.peek_token().map(|t| t.kind);
-        match token_kind {
-            Some(TokenKind::RBrace) => {
-                self.de.next_token();
-                return Ok(None);
-            }
-            Some(TokenKind::Eof) | None => {
-                return Ok(None);
-            }
-            Some(TokenKind::BareScalar) | Some(TokenKind::QuotedScalar) => {
-                // This is a key
-            }
-            Some(TokenKind::DocComment) => {
-                // Skip doc comments
-                self.de.next_token();
-                return self.next_key_seed(seed);
-            }
-            Some(kind) => {
-                return Err(self.de.error(format!("expected key, got {:?}", kind)));
-            }
+impl<'de> IntoDeserializer<'de, Error> for Key<'de> {
+    type Deserializer = Value<'de>;
+
+    fn into_deserializer(self) -> Value<'de> {
+        let name = self.name.map(|text| Value::Scalar {
+            text,
+            // Keys are names, whatever they look like
+            kind: ScalarKind::Quoted,
+        });
+        match self.tag {
+            Some(tag) => Value::Tag {
+                name: tag,
+                payload: name.map(Box::new),
+            },
+            None => name.unwrap_or(Value::Unit),
         }
-
-        seed.deserialize(&mut *self.de).map(Some)
-    }
-
-    fn next_value_seed<V>(&mut self, seed: V) -> Result<V::Value>
-    where
-        V: de::DeserializeSeed<'de>,
-    {
-        seed.deserialize(&mut *self.de)
     }
 }
 
 /// Enum access for serde.
-struct EnumAccess<'a, 'de> {
-    de: &'a mut Deserializer<'de>,
-    variant: &'de str,
+struct EnumAccess<'de> {
+    name: Cow<'de, str>,
+    payload: Option<Value<'de>>,
 }
 
-impl<'a, 'de> de::EnumAccess<'de> for EnumAccess<'a, 'de> {
+impl<'de> de::EnumAccess<'de> for EnumAccess<'de> {
     type Error = Error;
-    type Variant = VariantAccess<'a, 'de>;
+    type Variant = VariantAccess<'de>;
 
     fn variant_seed<V>(self, seed: V) -> Result<(V::Value, Self::Variant)>
     where
         V: de::DeserializeSeed<'de>,
     {
-        let variant = seed.deserialize(de::value::BorrowedStrDeserializer::new(self.variant))?;
-        Ok((variant, VariantAccess { de: self.de }))
+        let variant = seed.deserialize(Value::Scalar {
+            text: self.name,
+            kind: ScalarKind::Quoted,
+        })?;
+        let payload = self.payload.unwrap_or(Value::Unit);
+        Ok((variant, VariantAccess { payload }))
     }
 }
 
 /// Variant access for serde.
-struct VariantAccess<'a, 'de> {
-    de: &'a mut Deserializer<'de>,
+struct VariantAccess<'de> {
+    payload: Value<'de>,
 }
 
-impl<'a, 'de> de::VariantAccess<'de> for VariantAccess<'a, 'de> {
+impl<'de> de::VariantAccess<'de> for VariantAccess<'de> {
     type Error = Error;
 
     fn unit_variant(self) -> Result<()> {
-        Ok(())
+        de::Deserialize::deserialize(self.payload)
     }
 
     fn newtype_variant_seed<T>(self, seed: T) -> Result<T::Value>
     where
         T: de::DeserializeSeed<'de>,
     {
-        seed.deserialize(self.de)
+        seed.deserialize(self.payload)
     }
 
     fn tuple_variant<V>(self, _len: usize, visitor: V) -> Result<V::Value>
     where
         V: Visitor<'de>,
     {
-        de::Deserializer::deserialize_seq(self.de, visitor)
+        de::Deserializer::deserialize_seq(self.payload, visitor)
     }
 
     fn struct_variant<V>(self, _fields: &'static [&'static str], visitor: V) -> Result<V::Value>
     where
         V: Visitor<'de>,
     {
-        de::Deserializer::deserialize_map(self.de, visitor)
+        de::Deserializer::deserialize_map(self.payload, visitor)
+    }
+}
+
+/// Methods that read the source as a document, or as a value.
+macro_rules! forward {
+    ($($source:ident: $($method:ident($($arg:ident: $ty:ty),*))*;)*) => {$($(
+        fn $method<V: Visitor<'de>>(self, $($arg: $ty,)* visitor: V) -> Result<V::Value> {
+            self.$source()?.$method($($arg,)* visitor)
+        }
+    )*)*};
+}
+
+impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
+    type Error = Error;
+
+    forward! {
+        document:
+            deserialize_any()
+            deserialize_map()
+            deserialize_struct(name: &'static str, fields: &'static [&'static str])
+            deserialize_ignored_any();
+        value:
+            deserialize_bool()
+            deserialize_i8()
+            deserialize_i16()
+            deserialize_i32()
+            deserialize_i64()
+            deserialize_i128()
+            deserialize_u8()
+            deserialize_u16()
+            deserialize_u32()
+            deserialize_u64()
+            deserialize_u128()
+            deserialize_f32()
+            deserialize_f64()
+            deserialize_char()
+            deserialize_str()
+            deserialize_string()
+            deserialize_bytes()
+            deserialize_byte_buf()
+            deserialize_unit()
+            deserialize_unit_struct(name: &'static str)
+            deserialize_seq()
+            deserialize_tuple(len: usize)
+            deserialize_tuple_struct(name: &'static str, len: usize)
+            deserialize_enum(name: &'static str, variants: &'static [&'static str])
+            deserialize_identifier();
+    }
+
+    fn deserialize_option<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
+        match self.value() {
+            Ok(Value::Unit) => visitor.visit_none(),
+            _ => visitor.visit_some(self),
+        }
+    }
+
+    fn deserialize_newtype_struct<V: Visitor<'de>>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> Result<V::Value> {
+        visitor.visit_newtype_struct(self)
     }
 }
-- 
2.43.0


From 1eed37d855777412fba2f1cd0162bb84b83b23e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:20 +0000
Subject: [PATCH 33/64] fix: attach payloads to variant tags and leave out unit
 payloads in serde_styx output

---
 crates/serde_styx/src/lib.rs |   2 +-
 crates/serde_styx/src/ser.rs | 464 ++++++++---------------------------
 2 files changed, 104 insertions(+), 362 deletions(-)

diff --git a/crates/serde_styx/src/lib.rs b/crates/serde_styx/src/lib.rs
index a73e871..db33924 100644
--- a/crates/serde_styx/src/lib.rs
+++ b/crates/serde_styx/src/lib.rs
@@ -121,7 +121,7 @@ where
     T: serde::ser::Serialize + ?Sized,
 {
     let options = FormatOptions::default().inline();
-    let mut serializer = ser::CompactSerializer::with_options(options);
+    let mut serializer = Serializer::compact(options);
     value.serialize(&mut serializer)?;
     Ok(serializer.finish())
 }
diff --git a/crates/serde_styx/src/ser.rs b/crates/serde_styx/src/ser.rs
index 1e4af34..263c5f5 100644
--- a/crates/serde_styx/src/ser.rs
+++ b/crates/serde_styx/src/ser.rs
@@ -9,6 +9,8 @@ use crate::error::{Error, Result};
 pub struct Serializer {
     writer: StyxWriter,
     at_root: bool,
+    /// Whether a variant tag was just written, so that the next value is its payload.
+    after_tag: bool,
 }
 
 impl Serializer {
@@ -22,6 +24,68 @@ impl Serializer {
         Self {
             writer: StyxWriter::with_options(options),
             at_root: true,
+            after_tag: false,
+        }
+    }
+
+    /// Create a new serializer that always wraps structs and maps in braces.
+    pub(crate) fn compact(options: FormatOptions) -> Self {
+        Self {
+            at_root: false,
+            ..Self::with_options(options)
+        }
+    }
+
+    /// Call before writing a value; tells if it is an implicit root object.
+    fn begin_value(&mut self) -> bool {
+        self.after_tag = false;
+        std::mem::replace(&mut self.at_root, false)
+    }
+
+    /// Write a unit value, which is left out as the payload of a tag.
+    fn write_unit(&mut self) {
+        let after_tag = self.after_tag;
+        self.begin_value();
+        if after_tag {
+            self.writer.clear_skip_before_value();
+        } else {
+            self.writer.write_null();
+        }
+    }
+
+    /// Write a variant tag. The next value is its payload.
+    fn write_tag(&mut self, name: &str) -> Result<()> {
+        if !is_tag_name(name) {
+            return Err(Error::new(format!("{name:?} cannot be written as a tag")));
+        }
+        let after_tag = self.after_tag;
+        self.begin_value();
+        if after_tag {
+            self.writer.write_tag_chain_segment(name);
+        } else {
+            self.writer.write_variant_tag(name);
+        }
+        self.after_tag = true;
+        Ok(())
+    }
+
+    fn begin_seq(&mut self) {
+        let after_tag = self.after_tag;
+        self.begin_value();
+        if after_tag {
+            self.writer.begin_seq_after_tag();
+        } else {
+            self.writer.begin_seq();
+        }
+    }
+
+    fn begin_struct(&mut self) {
+        let after_tag = self.after_tag;
+        let is_root = self.begin_value();
+        if after_tag {
+            self.writer.begin_struct_after_tag(false);
+        } else {
+            self.writer.begin_struct(is_root);
         }
     }
 
@@ -37,6 +101,14 @@ impl Default for Serializer {
     }
 }
 
+fn is_tag_name(name: &str) -> bool {
+    let mut chars = name.chars();
+    chars
+        .next()
+        .is_some_and(|c| c.is_ascii_alphabetic() || c == '_')
+        && chars.all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '-')
+}
+
 impl<'a> ser::Serializer for &'a mut Serializer {
     type Ok = ();
     type Error = Error;
@@ -50,7 +122,7 @@ impl<'a> ser::Serializer for &'a mut Serializer {
     type SerializeStructVariant = StructSerializer<'a>;
 
     fn serialize_bool(self, v: bool) -> Result<()> {
-        self.at_root = false;
+        self.begin_value();
         self.writer.write_bool(v);
         Ok(())
     }
@@ -68,13 +140,13 @@ impl<'a> ser::Serializer for &'a mut Serializer {
     }
 
     fn serialize_i64(self, v: i64) -> Result<()> {
-        self.at_root = false;
+        self.begin_value();
         self.writer.write_i64(v);
         Ok(())
     }
 
     fn serialize_i128(self, v: i128) -> Result<()> {
-        self.at_root = false;
+        self.begin_value();
         self.writer.write_i128(v);
         Ok(())
     }
@@ -92,13 +164,13 @@ impl<'a> ser::Serializer for &'a mut Serializer {
     }
 
     fn serialize_u64(self, v: u64) -> Result<()> {
-        self.at_root = false;
+        self.begin_value();
         self.writer.write_u64(v);
         Ok(())
     }
 
     fn serialize_u128(self, v: u128) -> Result<()> {
-        self.at_root = false;
+        self.begin_value();
         self.writer.write_u128(v);
         Ok(())
     }
@@ -108,32 +180,31 @@ impl<'a> ser::Serializer for &'a mut Serializer {
     }
 
     fn serialize_f64(self, v: f64) -> Result<()> {
-        self.at_root = false;
+        self.begin_value();
         self.writer.write_f64(v);
         Ok(())
     }
 
     fn serialize_char(self, v: char) -> Result<()> {
-        self.at_root = false;
+        self.begin_value();
         self.writer.write_char(v);
         Ok(())
     }
 
     fn serialize_str(self, v: &str) -> Result<()> {
-        self.at_root = false;
+        self.begin_value();
         self.writer.write_string(v);
         Ok(())
     }
 
     fn serialize_bytes(self, v: &[u8]) -> Result<()> {
-        self.at_root = false;
+        self.begin_value();
         self.writer.write_bytes(v);
         Ok(())
     }
 
     fn serialize_none(self) -> Result<()> {
-        self.at_root = false;
-        self.writer.write_null();
+        self.write_unit();
         Ok(())
     }
 
@@ -142,8 +213,7 @@ impl<'a> ser::Serializer for &'a mut Serializer {
     }
 
     fn serialize_unit(self) -> Result<()> {
-        self.at_root = false;
-        self.writer.write_null();
+        self.write_unit();
         Ok(())
     }
 
@@ -157,8 +227,8 @@ impl<'a> ser::Serializer for &'a mut Serializer {
         _variant_index: u32,
         variant: &'static str,
     ) -> Result<()> {
-        self.at_root = false;
-        self.writer.write_variant_tag(variant);
+        self.write_tag(variant)?;
+        self.write_unit();
         Ok(())
     }
 
@@ -177,15 +247,12 @@ impl<'a> ser::Serializer for &'a mut Serializer {
         variant: &'static str,
         value: &T,
     ) -> Result<()> {
-        self.at_root = false;
-        self.writer.write_variant_tag(variant);
-        self.writer.write_byte(b' ');
+        self.write_tag(variant)?;
         value.serialize(&mut *self)
     }
 
     fn serialize_seq(self, _len: Option<usize>) -> Result<Self::SerializeSeq> {
-        self.at_root = false;
-        self.writer.begin_seq();
+        self.begin_seq();
         Ok(SeqSerializer { ser: self })
     }
 
@@ -208,23 +275,18 @@ impl<'a> ser::Serializer for &'a mut Serializer {
         variant: &'static str,
         _len: usize,
     ) -> Result<Self::SerializeTupleVariant> {
-        self.at_root = false;
-        self.writer.write_variant_tag(variant);
-        self.writer.begin_seq();
+        self.write_tag(variant)?;
+        self.begin_seq();
         Ok(SeqSerializer { ser: self })
     }
 
     fn serialize_map(self, _len: Option<usize>) -> Result<Self::SerializeMap> {
-        let is_root = self.at_root;
-        self.at_root = false;
-        self.writer.begin_struct(is_root);
+        self.begin_struct();
         Ok(MapSerializer { ser: self })
     }
 
     fn serialize_struct(self, _name: &'static str, _len: usize) -> Result<Self::SerializeStruct> {
-        let is_root = self.at_root;
-        self.at_root = false;
-        self.writer.begin_struct(is_root);
+        self.begin_struct();
         Ok(StructSerializer { ser: self })
     }
 
@@ -235,9 +297,8 @@ impl<'a> ser::Serializer for &'a mut Serializer {
         variant: &'static str,
         _len: usize,
     ) -> Result<Self::SerializeStructVariant> {
-        self.at_root = false;
-        self.writer.write_variant_tag(variant);
-        self.writer.begin_struct(false);
+        self.write_tag(variant)?;
+        self.begin_struct();
         Ok(StructSerializer { ser: self })
     }
 }
@@ -414,6 +475,16 @@ impl ser::Serializer for &mut KeySerializer {
         Ok(())
     }
 
+    fn serialize_i128(self, v: i128) -> Result<()> {
+        self.key = v.to_string();
+        Ok(())
+    }
+
+    fn serialize_u128(self, v: u128) -> Result<()> {
+        self.key = v.to_string();
+        Ok(())
+    }
+
     fn serialize_u8(self, v: u8) -> Result<()> {
         self.key = v.to_string();
         Ok(())
@@ -546,332 +617,3 @@ impl ser::Serializer for &mut KeySerializer {
         Err(Error::new("struct variant cannot be used as map key"))
     }
 }
-
-// ─────────────────────────────────────────────────────────────────────────────
-// Compact serializer (always uses braces, never unwraps root)
-// ─────────────────────────────────────────────────────────────────────────────
-
-/// Compact serializer that always wraps structs in braces.
-pub struct CompactSerializer {
-    writer: StyxWriter,
-}
-
-impl CompactSerializer {
-    /// Create a new compact serializer with the given options.
-    pub fn with_options(options: FormatOptions) -> Self {
-        Self {
-            writer: StyxWriter::with_options(options),
-        }
-    }
-
-    /// Consume the serializer and return the output as a string.
-    pub fn finish(self) -> String {
-        self.writer.finish_string()
-    }
-}
-
-impl<'a> ser::Serializer for &'a mut CompactSerializer {
-    type Ok = ();
-    type Error = Error;
-
-    type SerializeSeq = CompactSeqSerializer<'a>;
-    type SerializeTuple = CompactSeqSerializer<'a>;
-    type SerializeTupleStruct = CompactSeqSerializer<'a>;
-    type SerializeTupleVariant = CompactSeqSerializer<'a>;
-    type SerializeMap = CompactMapSerializer<'a>;
-    type SerializeStruct = CompactStructSerializer<'a>;
-    type SerializeStructVariant = CompactStructSerializer<'a>;
-
-    fn serialize_bool(self, v: bool) -> Result<()> {
-        self.writer.write_bool(v);
-        Ok(())
-    }
-
-    fn serialize_i8(self, v: i8) -> Result<()> {
-        self.serialize_i64(v as i64)
-    }
-
-    fn serialize_i16(self, v: i16) -> Result<()> {
-        self.serialize_i64(v as i64)
-    }
-
-    fn serialize_i32(self, v: i32) -> Result<()> {
-        self.serialize_i64(v as i64)
-    }
-
-    fn serialize_i64(self, v: i64) -> Result<()> {
-        self.writer.write_i64(v);
-        Ok(())
-    }
-
-    fn serialize_i128(self, v: i128) -> Result<()> {
-        self.writer.write_i128(v);
-        Ok(())
-    }
-
-    fn serialize_u8(self, v: u8) -> Result<()> {
-        self.serialize_u64(v as u64)
-    }
-
-    fn serialize_u16(self, v: u16) -> Result<()> {
-        self.serialize_u64(v as u64)
-    }
-
-    fn serialize_u32(self, v: u32) -> Result<()> {
-        self.serialize_u64(v as u64)
-    }
-
-    fn serialize_u64(self, v: u64) -> Result<()> {
-        self.writer.write_u64(v);
-        Ok(())
-    }
-
-    fn serialize_u128(self, v: u128) -> Result<()> {
-        self.writer.write_u128(v);
-        Ok(())
-    }
-
-    fn serialize_f32(self, v: f32) -> Result<()> {
-        self.serialize_f64(v as f64)
-    }
-
-    fn serialize_f64(self, v: f64) -> Result<()> {
-        self.writer.write_f64(v);
-        Ok(())
-    }
-
-    fn serialize_char(self, v: char) -> Result<()> {
-        self.writer.write_char(v);
-        Ok(())
-    }
-
-    fn serialize_str(self, v: &str) -> Result<()> {
-        self.writer.write_string(v);
-        Ok(())
-    }
-
-    fn serialize_bytes(self, v: &[u8]) -> Result<()> {
-        self.writer.write_bytes(v);
-        Ok(())
-    }
-
-    fn serialize_none(self) -> Result<()> {
-        self.writer.write_null();
-        Ok(())
-    }
-
-    fn serialize_some<T: ?Sized + Serialize>(self, value: &T) -> Result<()> {
-        value.serialize(self)
-    }
-
-    fn serialize_unit(self) -> Result<()> {
-        self.writer.write_null();
-        Ok(())
-    }
-
-    fn serialize_unit_struct(self, _name: &'static str) -> Result<()> {
-        self.serialize_unit()
-    }
-
-    fn serialize_unit_variant(
-        self,
-        _name: &'static str,
-        _variant_index: u32,
-        variant: &'static str,
-    ) -> Result<()> {
-        self.writer.write_variant_tag(variant);
-        Ok(())
-    }
-
-    fn serialize_newtype_struct<T: ?Sized + Serialize>(
-        self,
-        _name: &'static str,
-        value: &T,
-    ) -> Result<()> {
-        value.serialize(self)
-    }
-
-    fn serialize_newtype_variant<T: ?Sized + Serialize>(
-        self,
-        _name: &'static str,
-        _variant_index: u32,
-        variant: &'static str,
-        value: &T,
-    ) -> Result<()> {
-        self.writer.write_variant_tag(variant);
-        self.writer.write_byte(b' ');
-        value.serialize(&mut *self)
-    }
-
-    fn serialize_seq(self, _len: Option<usize>) -> Result<Self::SerializeSeq> {
-        self.writer.begin_seq();
-        Ok(CompactSeqSerializer { ser: self })
-    }
-
-    fn serialize_tuple(self, len: usize) -> Result<Self::SerializeTuple> {
-        self.serialize_seq(Some(len))
-    }
-
-    fn serialize_tuple_struct(
-        self,
-        _name: &'static str,
-        len: usize,
-    ) -> Result<Self::SerializeTupleStruct> {
-        self.serialize_seq(Some(len))
-    }
-
-    fn serialize_tuple_variant(
-        self,
-        _name: &'static str,
-        _variant_index: u32,
-        variant: &'static str,
-        _len: usize,
-    ) -> Result<Self::SerializeTupleVariant> {
-        self.writer.write_variant_tag(variant);
-        self.writer.begin_seq();
-        Ok(CompactSeqSerializer { ser: self })
-    }
-
-    fn serialize_map(self, _len: Option<usize>) -> Result<Self::SerializeMap> {
-        self.writer.begin_struct(false); // Never root in compact mode
-        Ok(CompactMapSerializer { ser: self })
-    }
-
-    fn serialize_struct(self, _name: &'static str, _len: usize) -> Result<Self::SerializeStruct> {
-        self.writer.begin_struct(false); // Never root in compact mode
-        Ok(CompactStructSerializer { ser: self })
-    }
-
-    fn serialize_struct_variant(
-        self,
-        _name: &'static str,
-        _variant_index: u32,
-        variant: &'static str,
-        _len: usize,
-    ) -> Result<Self::SerializeStructVariant> {
-        self.writer.write_variant_tag(variant);
-        self.writer.begin_struct(false);
-        Ok(CompactStructSerializer { ser: self })
-    }
-}
-
-/// Compact sequence serializer.
-pub struct CompactSeqSerializer<'a> {
-    ser: &'a mut CompactSerializer,
-}
-
-impl<'a> ser::SerializeSeq for CompactSeqSerializer<'a> {
-    type Ok = ();
-    type Error = Error;
-
-    fn serialize_element<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<()> {
-        value.serialize(&mut *self.ser)
-    }
-
-    fn end(self) -> Result<()> {
-        self.ser.writer.end_seq().map_err(Error::new)
-    }
-}
-
-impl<'a> ser::SerializeTuple for CompactSeqSerializer<'a> {
-    type Ok = ();
-    type Error = Error;
-
-    fn serialize_element<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<()> {
-        value.serialize(&mut *self.ser)
-    }
-
-    fn end(self) -> Result<()> {
-        self.ser.writer.end_seq().map_err(Error::new)
-    }
-}
-
-impl<'a> ser::SerializeTupleStruct for CompactSeqSerializer<'a> {
-    type Ok = ();
-    type Error = Error;
-
-    fn serialize_field<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<()> {
-        value.serialize(&mut *self.ser)
-    }
-
-    fn end(self) -> Result<()> {
-        self.ser.writer.end_seq().map_err(Error::new)
-    }
-}
-
-impl<'a> ser::SerializeTupleVariant for CompactSeqSerializer<'a> {
-    type Ok = ();
-    type Error = Error;
-
-    fn serialize_field<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<()> {
-        value.serialize(&mut *self.ser)
-    }
-
-    fn end(self) -> Result<()> {
-        self.ser.writer.end_seq().map_err(Error::new)
-    }
-}
-
-/// Compact map serializer.
-pub struct CompactMapSerializer<'a> {
-    ser: &'a mut CompactSerializer,
-}
-
-impl<'a> ser::SerializeMap for CompactMapSerializer<'a> {
-    type Ok = ();
-    type Error = Error;
-
-    fn serialize_key<T: ?Sized + Serialize>(&mut self, key: &T) -> Result<()> {
-        let key_str = KeySerializer::serialize(key)?;
-        self.ser.writer.field_key(&key_str).map_err(Error::new)
-    }
-
-    fn serialize_value<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<()> {
-        value.serialize(&mut *self.ser)
-    }
-
-    fn end(self) -> Result<()> {
-        self.ser.writer.end_struct().map_err(Error::new)
-    }
-}
-
-/// Compact struct serializer.
-pub struct CompactStructSerializer<'a> {
-    ser: &'a mut CompactSerializer,
-}
-
-impl<'a> ser::SerializeStruct for CompactStructSerializer<'a> {
-    type Ok = ();
-    type Error = Error;
-
-    fn serialize_field<T: ?Sized + Serialize>(
-        &mut self,
-        key: &'static str,
-        value: &T,
-    ) -> Result<()> {
-        self.ser.writer.field_key(key).map_err(Error::new)?;
-        value.serialize(&mut *self.ser)
-    }
-
-    fn end(self) -> Result<()> {
-        self.ser.writer.end_struct().map_err(Error::new)
-    }
-}
-
-impl<'a> ser::SerializeStructVariant for CompactStructSerializer<'a> {
-    type Ok = ();
-    type Error = Error;
-
-    fn serialize_field<T: ?Sized + Serialize>(
-        &mut self,
-        key: &'static str,
-        value: &T,
-    ) -> Result<()> {
-        self.ser.writer.field_key(key).map_err(Error::new)?;
-        value.serialize(&mut *self.ser)
-    }
-
-    fn end(self) -> Result<()> {
-        self.ser.writer.end_struct().map_err(Error::new)
-    }
-}
-- 
2.43.0


From c5c4d8141cd870b7b9d45fb478230a8aca0323fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:53 +0000
Subject: [PATCH 34/64] fix: check sizes before decompressing embedded schemas
 and survive damaged object files

---
 crates/styx-embed/src/lib.rs | 68 +++++++++++++++++++++---------------
 1 file changed, 39 insertions(+), 29 deletions(-)

diff --git a/crates/styx-embed/src/lib.rs b/crates/styx-embed/src/lib.rs
index 70969f8..abbde9a 100644
--- a/crates/styx-embed/src/lib.rs
+++ b/crates/styx-embed/src/lib.rs
@@ -212,13 +212,7 @@ fn try_extract_v2_at(data: &[u8], magic_pos: usize) -> Result<String, ExtractErr
     let compressed = &data[pos..pos + compressed_len];
 
     // Decompress
-    let decompressed = lz4_flex::decompress_size_prepended(compressed)
-        .map_err(|_| ExtractError::DecompressFailed)?;
-
-    // Verify length
-    if decompressed.len() != decompressed_len {
-        return Err(ExtractError::DecompressFailed);
-    }
+    let decompressed = decompress(compressed, decompressed_len)?;
 
     // Verify hash
     let actual_hash = blake3::hash(&decompressed);
@@ -230,6 +224,25 @@ fn try_extract_v2_at(data: &[u8], magic_pos: usize) -> Result<String, ExtractErr
     String::from_utf8(decompressed).map_err(|_| ExtractError::InvalidUtf8)
 }
 
+/// Decompress LZ4 data that must expand to the given length.
+///
+/// The lengths come from data that may only look like a blob, so they are checked before
+/// anything is allocated: LZ4 cannot expand data more than 255 times.
+fn decompress(compressed: &[u8], decompressed_len: usize) -> Result<Vec<u8>, ExtractError> {
+    let (size, _) = lz4_flex::block::uncompressed_size(compressed)
+        .map_err(|_| ExtractError::DecompressFailed)?;
+    if size != decompressed_len || size / 255 > compressed.len() {
+        return Err(ExtractError::DecompressFailed);
+    }
+
+    let decompressed = lz4_flex::decompress_size_prepended(compressed)
+        .map_err(|_| ExtractError::DecompressFailed)?;
+    if decompressed.len() != decompressed_len {
+        return Err(ExtractError::DecompressFailed);
+    }
+    Ok(decompressed)
+}
+
 /// Try to extract schemas from legacy V1 format at a specific position.
 fn try_extract_v1_at(data: &[u8], magic_pos: usize) -> Result<Vec<String>, ExtractError> {
     let mut pos = magic_pos + MAGIC_V1.len();
@@ -270,13 +283,7 @@ fn try_extract_v1_at(data: &[u8], magic_pos: usize) -> Result<Vec<String>, Extra
         pos += compressed_len;
 
         // Decompress
-        let decompressed = lz4_flex::decompress_size_prepended(compressed)
-            .map_err(|_| ExtractError::DecompressFailed)?;
-
-        // Verify length
-        if decompressed.len() != decompressed_len {
-            return Err(ExtractError::DecompressFailed);
-        }
+        let decompressed = decompress(compressed, decompressed_len)?;
 
         // Verify hash
         let actual_hash = blake3::hash(&decompressed);
@@ -347,6 +354,11 @@ fn find_schema_section<'a>(object: &goblin::Object, data: &'a [u8]) -> Option<&'
     }
 }
 
+/// The given part of the data, if it is there (offset and size come from the data).
+fn slice(data: &[u8], start: usize, size: usize) -> Option<&[u8]> {
+    data.get(start..start.checked_add(size)?)
+}
+
 /// Find the .styx_schemas section in an ELF binary.
 fn find_elf_section<'a>(elf: &goblin::elf::Elf, data: &'a [u8]) -> Option<&'a [u8]> {
     for section in &elf.section_headers {
@@ -355,8 +367,8 @@ fn find_elf_section<'a>(elf: &goblin::elf::Elf, data: &'a [u8]) -> Option<&'a [u
         {
             let start = section.sh_offset as usize;
             let size = section.sh_size as usize;
-            if start + size <= data.len() {
-                return Some(&data[start..start + size]);
+            if let Some(section) = slice(data, start, size) {
+                return Some(section);
             }
         }
     }
@@ -370,18 +382,16 @@ fn find_macho_section<'a>(mach: &goblin::mach::Mach, data: &'a [u8]) -> Option<&
     match mach {
         Mach::Binary(macho) => find_macho_section_in_binary(macho, data),
         Mach::Fat(fat) => {
-            // For fat binaries, try each architecture
-            for arch in fat.iter_arches().flatten() {
+            // For fat binaries, try each architecture (a damaged header may claim any number)
+            for arch in fat.iter_arches().map_while(Result::ok) {
                 let start = arch.offset as usize;
                 let size = arch.size as usize;
-                if start + size <= data.len() {
-                    let arch_data = &data[start..start + size];
-                    if let Ok(goblin::Object::Mach(Mach::Binary(macho))) =
+                if let Some(arch_data) = slice(data, start, size)
+                    && let Ok(goblin::Object::Mach(Mach::Binary(macho))) =
                         goblin::Object::parse(arch_data)
-                        && let Some(section) = find_macho_section_in_binary(&macho, arch_data)
-                    {
-                        return Some(section);
-                    }
+                    && let Some(section) = find_macho_section_in_binary(&macho, arch_data)
+                {
+                    return Some(section);
                 }
             }
             None
@@ -404,8 +414,8 @@ fn find_macho_section_in_binary<'a>(
                 {
                     let start = section.offset as usize;
                     let size = section.size as usize;
-                    if start + size <= data.len() {
-                        return Some(&data[start..start + size]);
+                    if let Some(section) = slice(data, start, size) {
+                        return Some(section);
                     }
                 }
             }
@@ -422,8 +432,8 @@ fn find_pe_section<'a>(pe: &goblin::pe::PE, data: &'a [u8]) -> Option<&'a [u8]>
         {
             let start = section.pointer_to_raw_data as usize;
             let size = section.size_of_raw_data as usize;
-            if start + size <= data.len() {
-                return Some(&data[start..start + size]);
+            if let Some(section) = slice(data, start, size) {
+                return Some(section);
             }
         }
     }
-- 
2.43.0


From 4b701592a7c417fcabaab0232dbe83f11632f34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:53 +0000
Subject: [PATCH 35/64] fix: understand every escape of string literals in the
 embed macros

---
 crates/styx-embed-macros/src/lib.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/crates/styx-embed-macros/src/lib.rs b/crates/styx-embed-macros/src/lib.rs
index 7fee368..dc05de3 100644
--- a/crates/styx-embed-macros/src/lib.rs
+++ b/crates/styx-embed-macros/src/lib.rs
@@ -121,7 +121,7 @@ fn parse_string_literal(lit: &unsynn::Literal) -> Option<String> {
     // Regular string: "..."
     if s.starts_with('"') && s.ends_with('"') && s.len() >= 2 {
         let inner = &s[1..s.len() - 1];
-        // Handle basic escapes
+        // Handle escapes
         let mut result = String::new();
         let mut chars = inner.chars().peekable();
         while let Some(c) = chars.next() {
@@ -132,7 +132,23 @@ fn parse_string_literal(lit: &unsynn::Literal) -> Option<String> {
                     Some('t') => result.push('\t'),
                     Some('\\') => result.push('\\'),
                     Some('"') => result.push('"'),
+                    Some('\'') => result.push('\''),
                     Some('0') => result.push('\0'),
+                    Some('x') => {
+                        let digits: String = chars.by_ref().take(2).collect();
+                        result.push(char::from(u8::from_str_radix(&digits, 16).ok()?));
+                    }
+                    Some('u') => {
+                        let digits: String = chars
+                            .by_ref()
+                            .skip(1)
+                            .take_while(|&c| c != '}')
+                            .filter(|&c| c != '_')
+                            .collect();
+                        result.push(char::from_u32(u32::from_str_radix(&digits, 16).ok()?)?);
+                    }
+                    // A line continuation: the line break and the white space after it
+                    Some('\n') => while chars.next_if(|c| " \t\r\n".contains(*c)).is_some() {},
                     Some(other) => {
                         result.push('\\');
                         result.push(other);
-- 
2.43.0


From a6324001426ebaca9229a25ad2c8047942060e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:53 +0000
Subject: [PATCH 36/64] fix: read empty documents as empty objects, and join
 sibling dotted paths in facet-styx

---
 crates/facet-styx/src/parser.rs | 167 ++++++++++++++++++++++++++++++--
 crates/serde_styx/src/de.rs     |   3 +-
 2 files changed, 160 insertions(+), 10 deletions(-)

diff --git a/crates/facet-styx/src/parser.rs b/crates/facet-styx/src/parser.rs
index d1a6e48..6070e1a 100644
--- a/crates/facet-styx/src/parser.rs
+++ b/crates/facet-styx/src/parser.rs
@@ -6,6 +6,8 @@
 //! is applied before deserialization.
 
 use std::borrow::Cow;
+use std::collections::HashSet;
+use std::rc::Rc;
 
 use crate::trace;
 use facet_core::Facet;
@@ -25,21 +27,32 @@ mod inner {
     /// across multiple match arms.
     #[derive(Clone)]
     pub struct InnerParser<'de> {
-        inner: Parser<'de>,
+        events: Rc<[Event<'de>]>,
+        position: usize,
         input: &'de str,
     }
 
     impl<'de> InnerParser<'de> {
         pub fn new(input: &'de str) -> Self {
-            Self {
-                inner: Parser::new(input),
-                input,
-            }
+            Self::from_parser(Parser::new(input), input)
         }
 
         pub fn new_expr(input: &'de str) -> Self {
+            Self::from_parser(Parser::new_expr(input), input)
+        }
+
+        fn from_parser(mut parser: Parser<'de>, input: &'de str) -> Self {
+            let mut events = Vec::new();
+            while let Some(event) = parser.next_event() {
+                let failed = matches!(event.kind, EventKind::Error { .. });
+                events.push(event);
+                if failed {
+                    break;
+                }
+            }
             Self {
-                inner: Parser::new_expr(input),
+                events: join_sibling_paths(events).into(),
+                position: 0,
                 input,
             }
         }
@@ -63,7 +76,8 @@ mod inner {
         }
 
         pub fn next_event(&mut self) -> Result<Option<Event<'de>>, ParseError> {
-            let next_ev = self.inner.next_event();
+            let next_ev = self.events.get(self.position).cloned();
+            self.position += 1;
             trace!(?next_ev, "inner_wrapper");
 
             match next_ev {
@@ -80,6 +94,135 @@ mod inner {
 
 use inner::InnerParser;
 
+/// The tag and the name of a key.
+type KeyId<'a, 'de> = (Option<&'de str>, Option<&'a str>);
+
+/// Join the entries of dotted paths that share their first segments into one object.
+///
+/// The parser reports `a.b 1, a.c 2` as two entries `a`, but they describe a single object.
+fn join_sibling_paths(events: Vec<Event<'_>>) -> Vec<Event<'_>> {
+    if matches!(events.last(), Some(e) if matches!(e.kind, EventKind::Error { .. }))
+        || !has_sibling_paths(&events)
+    {
+        return events;
+    }
+    let mut joined = Vec::with_capacity(events.len());
+    join_into(events, &mut joined);
+    joined
+}
+
+/// Whether any object has the same key twice (the parser only allows this in dotted paths).
+fn has_sibling_paths(events: &[Event<'_>]) -> bool {
+    let mut objects: Vec<HashSet<KeyId>> = Vec::new();
+    for event in events {
+        match &event.kind {
+            EventKind::ObjectStart => objects.push(HashSet::new()),
+            EventKind::ObjectEnd => {
+                objects.pop();
+            }
+            EventKind::Key { tag, payload, .. } => {
+                if let Some(keys) = objects.last_mut()
+                    && !keys.insert((*tag, payload.as_deref()))
+                {
+                    return true;
+                }
+            }
+            _ => {}
+        }
+    }
+    false
+}
+
+/// One entry of an object: the events up to its key, and those of its value.
+struct EntryEvents<'de> {
+    head: Vec<Event<'de>>,
+    value: Vec<Event<'de>>,
+    end: Option<Event<'de>>,
+}
+
+impl<'de> EntryEvents<'de> {
+    fn key(&self) -> Option<KeyId<'_, 'de>> {
+        match &self.head.last()?.kind {
+            EventKind::Key { tag, payload, .. } => Some((*tag, payload.as_deref())),
+            _ => None,
+        }
+    }
+
+    fn is_object(&self) -> bool {
+        matches!(self.value.first(), Some(e) if matches!(e.kind, EventKind::ObjectStart))
+    }
+
+    /// Add the contents of another entry for the same key.
+    fn join(&mut self, mut other: Self) {
+        let docs = other.head.into_iter();
+        let docs = docs.filter(|e| matches!(e.kind, EventKind::DocComment { .. }));
+        self.head.splice(0..0, docs);
+        self.value.pop(); // ObjectEnd
+        self.value.extend(other.value.drain(1..));
+    }
+}
+
+fn join_into<'de>(events: Vec<Event<'de>>, joined: &mut Vec<Event<'de>>) {
+    let mut events = events.into_iter();
+    while let Some(event) = events.next() {
+        let is_object = matches!(event.kind, EventKind::ObjectStart);
+        joined.push(event);
+        if !is_object {
+            continue;
+        }
+
+        // Split the object into its entries
+        let mut entries: Vec<EntryEvents<'de>> = Vec::new();
+        let mut head = Vec::new();
+        let mut end = None;
+        while let Some(event) = events.next() {
+            match event.kind {
+                EventKind::ObjectEnd => {
+                    end = Some(event);
+                    break;
+                }
+                EventKind::Key { .. } => {
+                    head.push(event);
+                    let mut entry = EntryEvents {
+                        head: std::mem::take(&mut head),
+                        value: Vec::new(),
+                        end: None,
+                    };
+                    let mut depth = 0;
+                    for event in events.by_ref() {
+                        match event.kind {
+                            EventKind::EntryStart => depth += 1,
+                            EventKind::EntryEnd if depth == 0 => {
+                                entry.end = Some(event);
+                                break;
+                            }
+                            EventKind::EntryEnd => depth -= 1,
+                            _ => {}
+                        }
+                        entry.value.push(event);
+                    }
+                    let existing = entries.iter_mut().find(|e| e.key() == entry.key());
+                    match existing {
+                        Some(existing) if existing.is_object() && entry.is_object() => {
+                            existing.join(entry);
+                        }
+                        _ => entries.push(entry),
+                    }
+                }
+                _ => head.push(event),
+            }
+        }
+
+        for entry in entries {
+            joined.extend(entry.head);
+            join_into(entry.value, joined);
+            joined.extend(entry.end);
+        }
+        joined.extend(head);
+        joined.extend(end);
+    }
+}
+
 /// Streaming Styx parser implementing FormatParser.
 ///
 /// This parser wraps `styx-parse::Parser2` which performs full validation
@@ -283,9 +426,15 @@ impl<'de> StyxParser<'de> {
 
             EventKind::DocumentEnd => {
                 if self.at_implicit_root {
-                    Ok(None)
+                    // A document without entries is an empty object
+                    self.at_implicit_root = false;
+                    self.peeked_events
+                        .push(self.event(ParseEventKind::StructEnd));
+                    Ok(Some(
+                        self.event(ParseEventKind::StructStart(ContainerKind::Object)),
+                    ))
                 } else {
-                    // Expression mode - no implicit root, skip DocumentEnd
+                    // Nothing left to close
                     Ok(None)
                 }
             }
diff --git a/crates/serde_styx/src/de.rs b/crates/serde_styx/src/de.rs
index 12e665f..5110ddc 100644
--- a/crates/serde_styx/src/de.rs
+++ b/crates/serde_styx/src/de.rs
@@ -69,7 +69,8 @@ impl<'de> Builder<'de> {
         let mut builder = Self { parser };
         let value = match builder.next()? {
             Some(event) => builder.value(event)?,
-            None => return Err(Error::new("unexpected end of input")),
+            // A document without entries is an empty object
+            None => Value::Object(Vec::new()),
         };
         match builder.next()? {
             Some(event) => Err(unexpected(event.kind)),
-- 
2.43.0


From edc6a2c0d06afbd4faa2d29bd487a2f71c67df73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:13 +0000
Subject: [PATCH 37/64] fix: treat sibling dotted paths as one object in path
 lookups, validation and JSON output

---
 crates/facet-styx/src/schema_validate.rs |  2 +
 crates/styx-cli/src/main.rs              |  2 +-
 crates/styx-tree/src/lib.rs              | 12 ++--
 crates/styx-tree/src/value.rs            | 89 ++++++++++++++++++++----
 4 files changed, 84 insertions(+), 21 deletions(-)

diff --git a/crates/facet-styx/src/schema_validate.rs b/crates/facet-styx/src/schema_validate.rs
index e18a6b9..d93cae7 100644
--- a/crates/facet-styx/src/schema_validate.rs
+++ b/crates/facet-styx/src/schema_validate.rs
@@ -120,6 +120,7 @@ impl<'a> Validator<'a> {
 
     /// Validate a document against the schema's root type.
     pub fn validate_document(&self, doc: &Value) -> ValidationResult {
+        let doc = &*doc.with_joined_paths();
         // Look up the root schema (key None = unit/@)
         match self.schema_file.schema.get(&None) {
             Some(root_schema) => self.validate_value(doc, root_schema, ""),
@@ -142,6 +143,7 @@ impl<'a> Validator<'a> {
 
     /// Validate a value against a specific named type.
     pub fn validate_as_type(&self, value: &Value, type_name: &str) -> ValidationResult {
+        let value = &*value.with_joined_paths();
         match self.schema_file.schema.get(&Some(type_name.to_string())) {
             Some(schema) => self.validate_value(value, schema, ""),
             None => {
diff --git a/crates/styx-cli/src/main.rs b/crates/styx-cli/src/main.rs
index bb47ebf..8263c4d 100644
--- a/crates/styx-cli/src/main.rs
+++ b/crates/styx-cli/src/main.rs
@@ -381,7 +381,7 @@ fn run_file_mode(args: &[String]) -> Result<(), CliError> {
     // Determine output format and destination
     if let Some(ref json_path) = opts.json_out {
         // JSON output
-        let json = value_to_json(&value);
+        let json = value_to_json(&value.with_joined_paths());
         let output =
             serde_json::to_string_pretty(&json).map_err(|e| CliError::Io(io::Error::other(e)))?;
         write_output(json_path, &output)?;
diff --git a/crates/styx-tree/src/lib.rs b/crates/styx-tree/src/lib.rs
index 69fb624..4ad5db4 100644
--- a/crates/styx-tree/src/lib.rs
+++ b/crates/styx-tree/src/lib.rs
@@ -54,12 +54,12 @@ impl Document {
         }
 
         let (segment, rest) = split_path(path);
-        let value = self.root.get(segment)?;
-        if rest.is_empty() {
-            Some(value)
-        } else {
-            value.get(rest)
-        }
+        // `a.b 1, a.c 2` has two entries `a`
+        self.root
+            .entries
+            .iter()
+            .filter(|e| e.key.as_str() == Some(segment))
+            .find_map(|e| e.value.get(rest))
     }
 }
 
diff --git a/crates/styx-tree/src/value.rs b/crates/styx-tree/src/value.rs
index edcb540..b7478a9 100644
--- a/crates/styx-tree/src/value.rs
+++ b/crates/styx-tree/src/value.rs
@@ -11,6 +11,9 @@
 //! - `@seq(a b)` is `Value { tag: Some("seq"), payload: Some(Payload::Sequence(...)) }`
 //! - `@object{...}` is `Value { tag: Some("object"), payload: Some(Payload::Object(...)) }`
 
+use std::borrow::Cow;
+use std::collections::HashSet;
+
 use styx_parse::{ScalarKind, Span};
 
 /// A Styx value: optional tag + optional payload.
@@ -254,6 +257,68 @@ impl Value {
         self
     }
 
+    /// This value with the entries of dotted paths joined.
+    ///
+    /// `a.b 1, a.c 2` is parsed into two entries `a`, as written, but describes one object.
+    pub fn with_joined_paths(&self) -> Cow<'_, Value> {
+        if self.has_split_objects() {
+            let mut joined = self.clone();
+            joined.join_paths();
+            Cow::Owned(joined)
+        } else {
+            Cow::Borrowed(self)
+        }
+    }
+
+    fn has_split_objects(&self) -> bool {
+        match &self.payload {
+            Some(Payload::Sequence(seq)) => seq.items.iter().any(Value::has_split_objects),
+            Some(Payload::Object(obj)) => {
+                let mut keys = HashSet::new();
+                obj.entries.iter().any(|e| {
+                    e.key.as_str().is_some_and(|key| !keys.insert(key))
+                        || e.value.has_split_objects()
+                })
+            }
+            _ => false,
+        }
+    }
+
+    fn join_paths(&mut self) {
+        match &mut self.payload {
+            Some(Payload::Sequence(seq)) => seq.items.iter_mut().for_each(Value::join_paths),
+            Some(Payload::Object(obj)) => {
+                let mut joined: Vec<Entry> = Vec::with_capacity(obj.entries.len());
+                for entry in obj.entries.drain(..) {
+                    let existing = joined
+                        .iter_mut()
+                        .find(|e| e.key.as_str().is_some() && e.key.as_str() == entry.key.as_str());
+                    if let Some(existing) = existing
+                        && let Some(object) = existing.value.untagged_object_mut()
+                        && entry.value.tag.is_none()
+                        && let Some(Payload::Object(more)) = &entry.value.payload
+                    {
+                        object.entries.extend(more.entries.iter().cloned());
+                    } else {
+                        joined.push(entry);
+                    }
+                }
+                obj.entries = joined;
+                for entry in &mut obj.entries {
+                    entry.value.join_paths();
+                }
+            }
+            _ => {}
+        }
+    }
+
+    fn untagged_object_mut(&mut self) -> Option<&mut Object> {
+        if self.tag.is_some() {
+            return None;
+        }
+        self.as_object_mut()
+    }
+
     /// Get a value by path.
     ///
     /// Path segments are separated by `.`.
@@ -267,12 +332,11 @@ impl Value {
 
         match &self.payload {
             Some(Payload::Object(obj)) => {
-                let value = obj.get(segment)?;
-                if rest.is_empty() {
-                    Some(value)
-                } else {
-                    value.get(rest)
-                }
+                // `a.b 1, a.c 2` has two entries `a`
+                obj.entries
+                    .iter()
+                    .filter(|e| e.key.as_str() == Some(segment))
+                    .find_map(|e| e.value.get(rest))
             }
             Some(Payload::Sequence(seq)) => {
                 // Handle [n] indexing
@@ -301,14 +365,11 @@ impl Value {
         let (segment, rest) = split_path(path);
 
         match &mut self.payload {
-            Some(Payload::Object(obj)) => {
-                let value = obj.get_mut(segment)?;
-                if rest.is_empty() {
-                    Some(value)
-                } else {
-                    value.get_mut(rest)
-                }
-            }
+            Some(Payload::Object(obj)) => obj
+                .entries
+                .iter_mut()
+                .filter(|e| e.key.as_str() == Some(segment))
+                .find_map(|e| e.value.get_mut(rest)),
             Some(Payload::Sequence(seq)) => {
                 if segment.starts_with('[') && segment.ends_with(']') {
                     let idx: usize = segment[1..segment.len() - 1].parse().ok()?;
-- 
2.43.0


From a19080bdb572aa815f2f17c80c4d3fb258cfefbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:56 +0000
Subject: [PATCH 38/64] fix: writing and updating values whose objects come
 from sibling dotted paths

---
 crates/styx-format/src/value_format.rs | 13 +++++++------
 crates/styx-tree/src/value.rs          | 23 ++++++++++++++++-------
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/crates/styx-format/src/value_format.rs b/crates/styx-format/src/value_format.rs
index 799d63e..5c95818 100644
--- a/crates/styx-format/src/value_format.rs
+++ b/crates/styx-format/src/value_format.rs
@@ -10,7 +10,7 @@ use crate::{FormatOptions, StyxWriter};
 /// it will be formatted without braces (implicit root object).
 pub fn format_value(value: &Value, options: FormatOptions) -> String {
     let mut formatter = ValueFormatter::new(options);
-    formatter.format_root(value);
+    formatter.format_root(&value.with_joined_paths());
     formatter.finish_document()
 }
 
@@ -24,8 +24,13 @@ pub fn format_value_default(value: &Value) -> String {
 /// This is useful for code actions that need to format a single object
 /// while respecting its separator style.
 pub fn format_object_braced(obj: &Object, options: FormatOptions) -> String {
+    let value = Value {
+        tag: None,
+        payload: Some(Payload::Object(obj.clone())),
+        span: None,
+    };
     let mut formatter = ValueFormatter::new(options);
-    formatter.format_object(obj);
+    formatter.format_value(&value.with_joined_paths());
     formatter.finish()
 }
 
@@ -119,10 +124,6 @@ impl ValueFormatter {
         self.writer.end_seq().ok();
     }
 
-    fn format_object(&mut self, obj: &Object) {
-        self.format_object_inner(obj, false);
-    }
-
     fn format_object_inner(&mut self, obj: &Object, after_tag: bool) {
         // Use heuristics: multiline if more than 2 entries or any entry has nested structure
         let force_multiline = obj.entries.len() > 2
diff --git a/crates/styx-tree/src/value.rs b/crates/styx-tree/src/value.rs
index b7478a9..9c3588e 100644
--- a/crates/styx-tree/src/value.rs
+++ b/crates/styx-tree/src/value.rs
@@ -449,13 +449,22 @@ impl Object {
     /// Insert or update an entry with a string key.
     pub fn insert(&mut self, key: impl Into<String>, value: Value) {
         let key_str = key.into();
-        if let Some(entry) = self
-            .entries
-            .iter_mut()
-            .find(|e| e.key.as_str() == Some(&key_str))
-        {
-            entry.value = value;
-        } else {
+        // sibling dotted paths (`a.b 1, a.c 2`) have one entry `a` each: the first takes the
+        // value, the others go
+        let mut value = Some(value);
+        self.entries.retain_mut(|entry| {
+            if entry.key.as_str() != Some(&key_str) {
+                return true;
+            }
+            match value.take() {
+                Some(value) => {
+                    entry.value = value;
+                    true
+                }
+                None => false,
+            }
+        });
+        if let Some(value) = value {
             self.entries.push(Entry {
                 key: Value::scalar(key_str),
                 value,
-- 
2.43.0


From b06240dd523dff539033ca1293a8db8cfd995c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:56 +0000
Subject: [PATCH 39/64] fix: an interrupted or failed --in-place write keeps
 the old file

---
 crates/styx-cli/src/main.rs | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/crates/styx-cli/src/main.rs b/crates/styx-cli/src/main.rs
index 8263c4d..ec59d97 100644
--- a/crates/styx-cli/src/main.rs
+++ b/crates/styx-cli/src/main.rs
@@ -395,7 +395,7 @@ fn run_file_mode(args: &[String]) -> Result<(), CliError> {
         let output = format_source(&source, format_opts);
 
         if opts.in_place {
-            std::fs::write(&opts.input, &output)?;
+            write_in_place(&opts.input, &output)?;
         } else if let Some(ref out_path) = opts.output {
             write_output(out_path, &output)?;
         } else {
@@ -1002,6 +1002,39 @@ fn write_output(path: &str, content: &str) -> Result<(), io::Error> {
     }
 }
 
+/// Replaces a file's content in one step, so that an interrupted or failed
+/// write leaves the old content.
+fn write_in_place(path: &str, content: &str) -> Result<(), io::Error> {
+    // Through a symlink, it is the file it points to that changes.
+    let path = std::fs::canonicalize(path)?;
+    let metadata = std::fs::metadata(&path)?;
+    if !metadata.is_file() {
+        // A pipe or device has no old content to keep.
+        return std::fs::write(&path, content);
+    }
+    let name = path.file_name().unwrap_or_default().to_string_lossy();
+    let temp = path.with_file_name(format!(".{name}.styx-{}", std::process::id()));
+    let file = std::fs::OpenOptions::new()
+        .write(true)
+        .create_new(true)
+        .open(&temp);
+    let mut file = match file {
+        // A writable file in a directory that is not can only be overwritten.
+        Err(e) if e.kind() == io::ErrorKind::PermissionDenied => {
+            return std::fs::write(&path, content);
+        }
+        file => file?,
+    };
+    let result = io::Write::write_all(&mut file, content.as_bytes())
+        .and_then(|()| file.set_permissions(metadata.permissions()))
+        .and_then(|()| file.sync_all())
+        .and_then(|()| std::fs::rename(&temp, &path));
+    if result.is_err() {
+        let _ = std::fs::remove_file(&temp);
+    }
+    result
+}
+
 // ============================================================================
 // Semantic highlighting for terminal output
 // ============================================================================
-- 
2.43.0


From 8115d8503b62162f0bf16aa4ebc4575fb2580f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:18 +0000
Subject: [PATCH 40/64] fix: report a failure to write standard output instead
 of panicking

---
 crates/styx-cli/src/main.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/crates/styx-cli/src/main.rs b/crates/styx-cli/src/main.rs
index ec59d97..9d59e98 100644
--- a/crates/styx-cli/src/main.rs
+++ b/crates/styx-cli/src/main.rs
@@ -399,7 +399,7 @@ fn run_file_mode(args: &[String]) -> Result<(), CliError> {
         } else if let Some(ref out_path) = opts.output {
             write_output(out_path, &output)?;
         } else {
-            print_styx(&output);
+            print_styx(&output)?;
         }
     }
 
@@ -613,7 +613,7 @@ fn run_extract(binary: &str) -> Result<(), CliError> {
         if schemas.len() > 1 {
             eprintln!("--- schema {} ---", i + 1);
         }
-        print_styx(schema);
+        print_styx(schema)?;
         // Ensure newline after schema (print_styx doesn't add one)
         if !schema.ends_with('\n') {
             println!();
@@ -995,8 +995,7 @@ fn read_input(file: Option<&str>) -> Result<String, io::Error> {
 
 fn write_output(path: &str, content: &str) -> Result<(), io::Error> {
     if path == "-" {
-        print!("{content}");
-        Ok(())
+        print_all(content)
     } else {
         std::fs::write(path, content)
     }
@@ -1106,14 +1105,21 @@ fn highlight_styx(source: &str) -> String {
 }
 
 /// Print Styx source with highlighting if stdout is a TTY
-fn print_styx(source: &str) {
+fn print_styx(source: &str) -> Result<(), io::Error> {
     if std::io::stdout().is_terminal() {
-        print!("{}", highlight_styx(source));
+        print_all(&highlight_styx(source))
     } else {
-        print!("{source}");
+        print_all(source)
     }
 }
 
+/// Print to stdout, reporting a failure (where `print!` would panic).
+fn print_all(text: &str) -> Result<(), io::Error> {
+    let mut stdout = io::stdout().lock();
+    io::Write::write_all(&mut stdout, text.as_bytes())?;
+    io::Write::flush(&mut stdout)
+}
+
 fn is_same_file(a: &str, b: &str) -> bool {
     match (std::fs::canonicalize(a), std::fs::canonicalize(b)) {
         (Ok(a), Ok(b)) => a == b,
-- 
2.43.0


From 61947316b3951911ca4362cd0086ce89ed7f3e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:03 +0000
Subject: [PATCH 41/64] fix: a tag name ending in r keeps its last letter
 before a quoted payload

---
 crates/styx-format/src/writer.rs       | 9 +++++----
 crates/styx-tokenizer/src/tokenizer.rs | 6 ++++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/styx-format/src/writer.rs b/crates/styx-format/src/writer.rs
index 8818304..ac4c940 100644
--- a/crates/styx-format/src/writer.rs
+++ b/crates/styx-format/src/writer.rs
@@ -846,12 +846,13 @@ impl StyxWriter {
 
     /// Write a raw string (r#"..."#).
     fn write_raw_string(&mut self, s: &str) {
-        // Find the minimum number of # needed
-        let mut hashes = 0;
-        let mut check = String::from("\"");
+        // Find the minimum number of # needed; at least one, since after a tag
+        // `r"` would continue its name
+        let mut hashes = 1;
+        let mut check = String::from("\"#");
         while s.contains(&check) {
             hashes += 1;
-            check = format!("\"{}#", "#".repeat(hashes - 1));
+            check.push('#');
         }
 
         self.out.push(b'r');
diff --git a/crates/styx-tokenizer/src/tokenizer.rs b/crates/styx-tokenizer/src/tokenizer.rs
index 3972063..38b566c 100644
--- a/crates/styx-tokenizer/src/tokenizer.rs
+++ b/crates/styx-tokenizer/src/tokenizer.rs
@@ -252,10 +252,12 @@ impl<'src> Tokenizer<'src> {
     /// Consume one tag name segment after the leading `@`.
     fn consume_tag_segment(&mut self) {
         // Tag name: consume [A-Za-z0-9_-]*
-        // But stop before `r#` or `r"` which starts a raw string payload.
+        // But stop before `r#`, which starts a raw string payload. (`r"` does not:
+        // in `@error"..."` the `r` is the last letter of the name and the payload
+        // is a quoted string.)
         self.advance();
         while let Some(c) = self.peek() {
-            if c == 'r' && matches!(self.peek_nth(1), Some('#' | '"')) {
+            if c == 'r' && self.peek_nth(1) == Some('#') {
                 break;
             }
             if c.is_ascii_alphanumeric() || c == '_' || c == '-' {
-- 
2.43.0


From cbb36675c17da7d2c5ce9d28cdf6a406bc4693e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:39 +0000
Subject: [PATCH 42/64] fix: generated schemas name every type once, describe
 tuples, unit and flattened structs, and admit all integers

---
 crates/facet-styx/src/schema_gen.rs      | 98 ++++++++++++++----------
 crates/facet-styx/src/schema_validate.rs |  2 +
 2 files changed, 61 insertions(+), 39 deletions(-)

diff --git a/crates/facet-styx/src/schema_gen.rs b/crates/facet-styx/src/schema_gen.rs
index 48cc54e..7cbab8b 100644
--- a/crates/facet-styx/src/schema_gen.rs
+++ b/crates/facet-styx/src/schema_gen.rs
@@ -4,8 +4,8 @@
 //! that implement `Facet`.
 
 use facet_core::{
-    Def, DefaultSource, Facet, Field, NumericType, PrimitiveType, PtrConst, PtrMut, PtrUninit,
-    Shape, ShapeLayout, Type, UserType,
+    ConstTypeId, Def, DefaultSource, Facet, Field, NumericType, PrimitiveType, PtrConst, PtrMut,
+    PtrUninit, Shape, ShapeLayout, StructKind, Type, UserType,
 };
 use facet_reflect::Peek;
 use std::collections::{HashMap, HashSet};
@@ -238,9 +238,12 @@ fn generate_schema_file_inner<T: facet_core::Facet<'static>>(
 
     // Generate the root schema - inline it directly at @ (None key)
     // Use generate_type_definition to inline the root, while nested types get references
-    let root_schema = generator
-        .generate_type_definition(shape)
-        .unwrap_or_else(|| generator.shape_to_schema(shape));
+    let root_schema = match shape.def {
+        Def::Undefined => generator.generate_type_definition(shape),
+        // Options and the like are described by what they contain
+        _ => None,
+    }
+    .unwrap_or_else(|| generator.shape_to_schema(shape));
 
     // Build the schema map with root and all named type definitions
     let mut schema_map: HashMap<Option<String>, Schema> = HashMap::new();
@@ -253,7 +256,7 @@ fn generate_schema_file_inner<T: facet_core::Facet<'static>>(
             continue;
         }
 
-        let type_name = pending_shape.type_identifier.to_string();
+        let type_name = generator.type_name(pending_shape);
         // Only add if not already defined
         if !schema_map.contains_key(&Some(type_name.clone()))
             && let Some(type_schema) = generator.generate_type_definition(pending_shape)
@@ -316,10 +319,11 @@ fn schema_to_tag_name(schema: &Schema) -> String {
 
 /// Internal schema generator that builds typed Schema structs.
 struct SchemaGenerator {
-    /// Types currently being generated (for cycle detection)
-    generating: HashSet<&'static str>,
+    /// The names types are defined under. Different types may share an identifier
+    /// (generics, or types in different modules).
+    names: HashMap<ConstTypeId, String>,
     /// Types that have been queued for definition
-    queued_types: HashSet<&'static str>,
+    queued_types: HashSet<ConstTypeId>,
     /// Types pending generation (shapes to process)
     pending_types: Vec<&'static Shape>,
 }
@@ -327,7 +331,7 @@ struct SchemaGenerator {
 impl SchemaGenerator {
     fn new() -> Self {
         Self {
-            generating: HashSet::new(),
+            names: HashMap::new(),
             queued_types: HashSet::new(),
             pending_types: Vec::new(),
         }
@@ -340,13 +344,27 @@ impl SchemaGenerator {
             return;
         }
 
-        let type_id = shape.type_identifier;
-        if !self.queued_types.contains(type_id) {
-            self.queued_types.insert(type_id);
+        if self.queued_types.insert(shape.id) {
             self.pending_types.push(shape);
         }
     }
 
+    /// The name a type is defined under: its identifier, numbered if another type has it.
+    fn type_name(&mut self, shape: &'static Shape) -> String {
+        if let Some(name) = self.names.get(&shape.id) {
+            return name.clone();
+        }
+        let base = shape.type_identifier;
+        let mut name = base.to_string();
+        let mut n = 2;
+        while name == "Schema" || self.names.values().any(|taken| *taken == name) {
+            name = format!("{base}{n}");
+            n += 1;
+        }
+        self.names.insert(shape.id, name.clone());
+        name
+    }
+
     /// Take the next pending type to generate, if any.
     fn take_pending(&mut self) -> Option<&'static Shape> {
         self.pending_types.pop()
@@ -356,17 +374,15 @@ impl SchemaGenerator {
     /// This is used when generating named type definitions.
     fn generate_type_definition(&mut self, shape: &'static Shape) -> Option<Schema> {
         match &shape.ty {
-            Type::User(user) => {
-                let type_id = shape.type_identifier;
-                self.generating.insert(type_id);
-                let result = match user {
-                    UserType::Struct(struct_type) => Some(self.struct_to_schema(struct_type)),
-                    UserType::Enum(enum_type) => Some(self.enum_to_schema(enum_type)),
-                    _ => None,
-                };
-                self.generating.remove(type_id);
-                result
+            Type::User(UserType::Struct(struct_type)) => Some(self.struct_to_schema(struct_type)),
+            // Enums that are not written as tags (internally or adjacently tagged,
+            // untagged or numeric ones) are not described by @enum.
+            Type::User(UserType::Enum(_))
+                if shape.tag.is_some() || shape.is_untagged() || shape.is_numeric() =>
+            {
+                Some(Schema::Any)
             }
+            Type::User(UserType::Enum(enum_type)) => Some(self.enum_to_schema(enum_type)),
             _ => None,
         }
     }
@@ -471,6 +487,10 @@ impl SchemaGenerator {
                     },
                 }
             }
+            // `()`
+            Type::User(UserType::Struct(struct_type)) if struct_type.fields.is_empty() => {
+                Schema::Unit
+            }
             _ => Schema::Any,
         }
     }
@@ -502,21 +522,17 @@ impl SchemaGenerator {
             };
         }
 
-        // Cycle detection - if we're already generating this type, return a reference
-        if self.generating.contains(type_id) {
-            self.queue_type(shape);
-            return Schema::Type {
-                name: Some(type_id.to_string()),
-            };
-        }
-
         match user {
+            // Tuples have no name; describe them where they stand
+            UserType::Struct(struct_type) if struct_type.kind == StructKind::Tuple => {
+                self.struct_to_schema(struct_type)
+            }
             // For structs and enums, always emit a type reference and queue for definition
             // This gives all complex types their own named definitions
             UserType::Struct(_) | UserType::Enum(_) => {
                 self.queue_type(shape);
                 Schema::Type {
-                    name: Some(type_id.to_string()),
+                    name: Some(self.type_name(shape)),
                 }
             }
             UserType::Union(_) => Schema::Any,
@@ -535,12 +551,12 @@ impl SchemaGenerator {
     }
 
     fn struct_to_schema(&mut self, struct_type: &facet_core::StructType) -> Schema {
-        use facet_core::StructKind;
-
         match struct_type.kind {
-            StructKind::Unit => Schema::Unit,
+            // A unit struct is written as an empty object
+            StructKind::Unit => Schema::Object(ObjectSchema(HashMap::new())),
+            StructKind::Tuple if struct_type.fields.is_empty() => Schema::Unit,
             StructKind::Tuple | StructKind::TupleStruct => {
-                if struct_type.fields.len() == 1 {
+                if struct_type.kind == StructKind::TupleStruct && struct_type.fields.len() == 1 {
                     // Newtype - unwrap
                     self.shape_to_schema(struct_type.fields[0].shape())
                 } else {
@@ -558,7 +574,13 @@ impl SchemaGenerator {
 
                 for field in struct_type.fields {
                     let field_name = field.effective_name();
-                    let field_schema = self.shape_to_schema(field.shape());
+                    // A flattened struct has its fields here, where others are referred to
+                    let field_schema = match field.shape().ty {
+                        Type::User(UserType::Struct(_)) if field.is_flattened() => self
+                            .generate_type_definition(field.shape())
+                            .unwrap_or(Schema::Any),
+                        _ => self.shape_to_schema(field.shape()),
+                    };
 
                     // Extract doc comments from field
                     let doc = if field.doc.is_empty() {
@@ -652,8 +674,6 @@ impl SchemaGenerator {
     }
 
     fn enum_to_schema(&mut self, enum_type: &facet_core::EnumType) -> Schema {
-        use facet_core::StructKind;
-
         // If any variant has #[facet(other)], this enum accepts any tag,
         // so emit @any instead of trying to enumerate variants
         if enum_type.variants.iter().any(|v| v.is_other()) {
diff --git a/crates/facet-styx/src/schema_validate.rs b/crates/facet-styx/src/schema_validate.rs
index d93cae7..f2adbfd 100644
--- a/crates/facet-styx/src/schema_validate.rs
+++ b/crates/facet-styx/src/schema_validate.rs
@@ -289,8 +289,10 @@ impl<'a> Validator<'a> {
             }
         };
 
+        // (numbers beyond i128, which no constraint can name, compare like the largest one)
         let parsed = match text.parse::<i128>() {
             Ok(n) => n,
+            Err(_) if text.parse::<u128>().is_ok() => i128::MAX,
             Err(_) => {
                 result.error(
                     ValidationError::new(
-- 
2.43.0


From ef5b23b6731653c5a916176048fcca3ea8d592d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:45 +0000
Subject: [PATCH 43/64] fix: the language server answers from the newest text,
 and a closed document stays closed

---
 crates/styx-lsp/src/server.rs | 188 +++++++++++++---------------------
 1 file changed, 71 insertions(+), 117 deletions(-)

diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index dee83b1..5bef2ad 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -21,6 +21,7 @@ use crate::semantic_tokens::{compute_semantic_tokens, semantic_token_legend};
 use styx_lsp_ext as ext;
 
 /// Document state tracked by the server
+#[derive(Clone)]
 pub struct DocumentState {
     /// Document content
     pub content: String,
@@ -97,19 +98,53 @@ impl StyxLanguageServer {
         }
     }
 
-    /// Publish diagnostics for a document
-    #[allow(clippy::too_many_arguments)]
+    /// Store a document's new text and publish its diagnostics.
+    async fn update_document(&self, uri: Url, content: String, version: i32) {
+        // Parse the document (CST)
+        let parsed = parse(&content);
+
+        // Parse into tree for schema validation
+        let (tree, tree_error) = match styx_tree::parse(&content) {
+            Ok(tree) => (Some(tree), None),
+            Err(e) => (None, Some(e)),
+        };
+
+        // Store it before waiting for anything: requests that follow must see this text, and
+        // what arrives while we wait (a newer version, a close) must not be overwritten.
+        let document = DocumentState {
+            content,
+            parse: parsed,
+            tree,
+            version,
+        };
+        self.documents
+            .write()
+            .await
+            .insert(uri.clone(), document.clone());
+
+        // Check for LSP extension in schema (might have changed)
+        let blocked_extension = if let Some(ref tree) = document.tree {
+            self.check_for_extension(tree, &uri).await
+        } else {
+            None
+        };
+
+        self.publish_diagnostics(uri, &document, tree_error.as_ref(), blocked_extension)
+            .await;
+    }
+
+    /// Publish diagnostics for a document, unless it changed or was closed meanwhile
     async fn publish_diagnostics(
         &self,
         uri: Url,
-        content: &str,
-        parsed: &Parse,
-        tree: Option<&Value>,
+        document: &DocumentState,
         tree_error: Option<&styx_tree::BuildError>,
-        version: i32,
         blocked_extension: Option<BlockedExtensionInfo>,
     ) {
-        let mut diagnostics = self.compute_diagnostics(&uri, content, parsed, tree, tree_error);
+        let content = document.content.as_str();
+        let tree = document.tree.as_ref();
+        let mut diagnostics =
+            self.compute_diagnostics(&uri, content, &document.parse, tree, tree_error);
 
         // Add diagnostic for blocked extension if applicable
         if let Some(blocked) = blocked_extension
@@ -184,8 +219,18 @@ impl StyxLanguageServer {
             }
         }
 
+        let current = self
+            .documents
+            .read()
+            .await
+            .get(&uri)
+            .is_some_and(|now| now.version == document.version && now.content == content);
+        if !current {
+            return;
+        }
+
         self.client
-            .publish_diagnostics(uri, diagnostics, Some(version))
+            .publish_diagnostics(uri, diagnostics, Some(document.version))
             .await;
     }
 
@@ -493,102 +538,17 @@ impl LanguageServer for StyxLanguageServer {
     }
 
     async fn did_open(&self, params: DidOpenTextDocumentParams) {
-        let uri = params.text_document.uri;
-        let content = params.text_document.text;
-        let version = params.text_document.version;
-
-        // Parse the document (CST)
-        let parsed = parse(&content);
-
-        // Parse into tree for schema validation
-        let (tree, tree_error) = match styx_tree::parse(&content) {
-            Ok(tree) => (Some(tree), None),
-            Err(e) => (None, Some(e)),
-        };
-
-        // Check for LSP extension in schema
-        let blocked_extension = if let Some(ref tree) = tree {
-            self.check_for_extension(tree, &uri).await
-        } else {
-            None
-        };
-
-        // Publish diagnostics
-        self.publish_diagnostics(
-            uri.clone(),
-            &content,
-            &parsed,
-            tree.as_ref(),
-            tree_error.as_ref(),
-            version,
-            blocked_extension,
-        )
-        .await;
-
-        // Store document
-        {
-            let mut docs = self.documents.write().await;
-            docs.insert(
-                uri,
-                DocumentState {
-                    content,
-                    parse: parsed,
-                    tree,
-                    version,
-                },
-            );
-        }
+        let document = params.text_document;
+        self.update_document(document.uri, document.text, document.version)
+            .await;
     }
 
     async fn did_change(&self, params: DidChangeTextDocumentParams) {
-        let uri = params.text_document.uri;
-        let version = params.text_document.version;
-
-        // With FULL sync, we get the entire document content
-        if let Some(change) = params.content_changes.into_iter().next() {
-            let content = change.text;
-
-            // Parse the document (CST)
-            let parsed = parse(&content);
-
-            // Parse into tree for schema validation
-            let (tree, tree_error) = match styx_tree::parse(&content) {
-                Ok(tree) => (Some(tree), None),
-                Err(e) => (None, Some(e)),
-            };
-
-            // Check for LSP extension in schema (might have changed)
-            let blocked_extension = if let Some(ref tree) = tree {
-                self.check_for_extension(tree, &uri).await
-            } else {
-                None
-            };
-
-            // Publish diagnostics
-            self.publish_diagnostics(
-                uri.clone(),
-                &content,
-                &parsed,
-                tree.as_ref(),
-                tree_error.as_ref(),
-                version,
-                blocked_extension,
-            )
-            .await;
-
-            // Update stored document
-            {
-                let mut docs = self.documents.write().await;
-                docs.insert(
-                    uri,
-                    DocumentState {
-                        content,
-                        parse: parsed,
-                        tree,
-                        version,
-                    },
-                );
-            }
+        // With FULL sync every change is the entire document content, so the last one counts
+        if let Some(change) = params.content_changes.into_iter().next_back() {
+            let document = params.text_document;
+            self.update_document(document.uri, change.text, document.version)
+                .await;
         }
     }
 
@@ -1605,23 +1565,17 @@ impl LanguageServer for StyxLanguageServer {
 
                     // Re-publish diagnostics for all open documents to clear the warning
                     // and trigger extension spawning
-                    let docs = self.documents.read().await;
-                    for (uri, doc) in docs.iter() {
-                        let blocked_extension = if let Some(ref tree) = doc.tree {
-                            self.check_for_extension(tree, uri).await
-                        } else {
-                            None
+                    let docs: Vec<(Url, DocumentState)> = {
+                        let docs = self.documents.read().await;
+                        docs.iter().map(|(u, d)| (u.clone(), d.clone())).collect()
+                    };
+                    for (uri, doc) in docs {
+                        let (blocked_extension, tree_error) = match &doc.tree {
+                            Some(tree) => (self.check_for_extension(tree, &uri).await, None),
+                            None => (None, styx_tree::parse(&doc.content).err()),
                         };
-                        self.publish_diagnostics(
-                            uri.clone(),
-                            &doc.content,
-                            &doc.parse,
-                            doc.tree.as_ref(),
-                            None, // tree_error already reported on initial load
-                            doc.version,
-                            blocked_extension,
-                        )
-                        .await;
+                        self.publish_diagnostics(uri, &doc, tree_error.as_ref(), blocked_extension)
+                            .await;
                     }
 
                     // Request inlay hint refresh so hints appear immediately
-- 
2.43.0


From 47a327512076b164409dbbb6c19db0a9a9dfea11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:45 +0000
Subject: [PATCH 44/64] fix: no document lock is held while an extension
 answers

---
 crates/styx-lsp/src/server.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index 5bef2ad..cbb28ca 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -133,6 +133,12 @@ impl StyxLanguageServer {
             .await;
     }
 
+    /// A copy of an open document, so that no lock is held while waiting for an extension
+    /// (which may ask for the document itself).
+    async fn document(&self, uri: &Url) -> Option<DocumentState> {
+        self.documents.read().await.get(uri).cloned()
+    }
+
     /// Publish diagnostics for a document, unless it changed or was closed meanwhile
     async fn publish_diagnostics(
         &self,
@@ -620,8 +626,7 @@ impl LanguageServer for StyxLanguageServer {
         let uri = params.text_document_position_params.text_document.uri;
         let position = params.text_document_position_params.position;
 
-        let docs = self.documents.read().await;
-        let Some(doc) = docs.get(&uri) else {
+        let Some(doc) = self.document(&uri).await else {
             return Ok(None);
         };
 
@@ -663,6 +668,7 @@ impl LanguageServer for StyxLanguageServer {
             && let Some(field_name) = find_field_key_at_offset(tree, offset)
         {
             // Search open documents for one that uses this schema
+            let docs = self.documents.read().await;
             for (doc_uri, doc_state) in docs.iter() {
                 if doc_uri == &uri {
                     continue; // Skip the schema file itself
@@ -715,6 +721,7 @@ impl LanguageServer for StyxLanguageServer {
                 match client.definition(ext_params).await {
                     Ok(locations) if !locations.is_empty() => {
                         tracing::debug!(count = locations.len(), "Extension returned definitions");
+                        let docs = self.documents.read().await;
                         let lsp_locations: Vec<Location> = locations
                             .into_iter()
                             .filter_map(|loc| {
@@ -769,8 +776,7 @@ impl LanguageServer for StyxLanguageServer {
         let uri = params.text_document_position_params.text_document.uri;
         let position = params.text_document_position_params.position;
 
-        let docs = self.documents.read().await;
-        let Some(doc) = docs.get(&uri) else {
+        let Some(doc) = self.document(&uri).await else {
             return Ok(None);
         };
 
@@ -903,8 +909,7 @@ impl LanguageServer for StyxLanguageServer {
         let uri = params.text_document_position.text_document.uri;
         let position = params.text_document_position.position;
 
-        let docs = self.documents.read().await;
-        let Some(doc) = docs.get(&uri) else {
+        let Some(doc) = self.document(&uri).await else {
             return Ok(None);
         };
 
@@ -1252,8 +1257,8 @@ impl LanguageServer for StyxLanguageServer {
         }
 
         // Try to get code actions from extension
-        let docs = self.documents.read().await;
-        if let Some(doc) = docs.get(&uri)
+        let document = self.document(&uri).await;
+        if let Some(doc) = &document
             && let Some(ref tree) = doc.tree
             && let Ok(schema_file) = load_document_schema(tree, &uri)
         {
@@ -1304,6 +1309,7 @@ impl LanguageServer for StyxLanguageServer {
                             count = ext_actions.len(),
                             "Got code actions from extension"
                         );
+                        let docs = self.documents.read().await;
                         for action in ext_actions {
                             let kind = action.kind.map(|k| match k {
                                 ext::CodeActionKind::QuickFix => CodeActionKind::QUICKFIX,
@@ -1371,11 +1377,9 @@ impl LanguageServer for StyxLanguageServer {
                 }
             }
         }
-        drop(docs);
 
         // Add schema-based refactoring actions
-        let docs = self.documents.read().await;
-        if let Some(doc) = docs.get(&uri)
+        if let Some(doc) = &document
             && let Some(ref tree) = doc.tree
         {
             // Try to load the schema
-- 
2.43.0


From 9890d21b565f88f834b70a371b025b35ce975e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:54 +0000
Subject: [PATCH 45/64] fix: cached schemas are whole, of the asked content,
 and inside the cache directory

---
 crates/styx-lsp/src/cache.rs | 55 ++++++++++++++++++++++++++++--------
 1 file changed, 43 insertions(+), 12 deletions(-)

diff --git a/crates/styx-lsp/src/cache.rs b/crates/styx-lsp/src/cache.rs
index a4c9d7c..eea0d87 100644
--- a/crates/styx-lsp/src/cache.rs
+++ b/crates/styx-lsp/src/cache.rs
@@ -6,7 +6,7 @@
 use sha2::{Digest, Sha256};
 use std::fs;
 use std::io::Write;
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 
 /// Get the schema cache directory.
 ///
@@ -18,14 +18,18 @@ pub fn cache_dir() -> Option<PathBuf> {
 
 /// Get the cache path for an embedded schema.
 ///
-/// Returns `embedded/<cli-name>/<content-hash>.styx`
+/// Returns `embedded/<cli-name>/<content-hash>.styx`. The name comes from a document, so whatever
+/// would lead out of the cache directory (`..`, an absolute path) is replaced by `_`.
 pub fn embedded_cache_path(cli_name: &str, content: &str) -> Option<PathBuf> {
     let hash = content_hash(content);
-    cache_dir().map(|d| {
-        d.join("embedded")
-            .join(cli_name)
-            .join(format!("{}.styx", hash))
-    })
+    let mut path = cache_dir()?.join("embedded");
+    for part in cli_name.split(['/', '\\']) {
+        path.push(match part {
+            "" | "." | ".." => "_",
+            part => part,
+        });
+    }
+    Some(path.join(format!("{}.styx", hash)))
 }
 
 /// Compute a content hash for cache invalidation.
@@ -40,12 +44,12 @@ fn content_hash(content: &str) -> String {
 
 /// Cache an embedded schema and return the cache file path.
 ///
-/// If the file already exists (same hash), returns the existing path.
+/// If the file already exists with this content, returns the existing path.
 pub fn cache_embedded_schema(cli_name: &str, content: &str) -> Option<PathBuf> {
     let path = embedded_cache_path(cli_name, content)?;
 
-    // Already cached?
-    if path.exists() {
+    // Already cached? (A file cut short by a crash is not.)
+    if fs::read(&path).is_ok_and(|cached| cached == content.as_bytes()) {
         return Some(path);
     }
 
@@ -55,12 +59,39 @@ pub fn cache_embedded_schema(cli_name: &str, content: &str) -> Option<PathBuf> {
     }
 
     // Write content
-    let mut file = fs::File::create(&path).ok()?;
-    file.write_all(content.as_bytes()).ok()?;
+    write_atomically(&path, content.as_bytes()).ok()?;
 
     Some(path)
 }
 
+/// Replace a file's content so that nobody ever sees, and no crash ever leaves, part of it.
+pub(crate) fn write_atomically(path: &Path, content: &[u8]) -> std::io::Result<()> {
+    // Keep a symlink a symlink
+    let path = fs::canonicalize(path).unwrap_or_else(|_| path.to_path_buf());
+    let mut attempt = 0u32;
+    let (temporary, mut file) = loop {
+        let temporary = path.with_extension(format!("{}-{}.tmp", std::process::id(), attempt));
+        match fs::File::create_new(&temporary) {
+            Ok(file) => break (temporary, file),
+            Err(e) if e.kind() == std::io::ErrorKind::AlreadyExists && attempt < 1000 => {
+                attempt += 1;
+            }
+            Err(e) => return Err(e),
+        }
+    };
+    let result = (|| {
+        file.write_all(content)?;
+        if let Ok(existing) = fs::metadata(&path) {
+            fs::set_permissions(&temporary, existing.permissions())?;
+        }
+        fs::rename(&temporary, &path)
+    })();
+    if result.is_err() {
+        let _ = fs::remove_file(&temporary);
+    }
+    result
+}
+
 /// Get cache statistics.
 pub struct CacheStats {
     pub embedded_count: usize,
-- 
2.43.0


From 8223c8f29c5e10cec0fcb7d110090ea14325e789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:54 +0000
Subject: [PATCH 46/64] fix: allowing an extension never loses what the user's
 config already allows

---
 crates/styx-lsp/src/config.rs     | 33 ++++++++++++++++++++++++++++++-
 crates/styx-lsp/src/extensions.rs |  7 ++-----
 2 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/crates/styx-lsp/src/config.rs b/crates/styx-lsp/src/config.rs
index 8473db8..b263b91 100644
--- a/crates/styx-lsp/src/config.rs
+++ b/crates/styx-lsp/src/config.rs
@@ -94,7 +94,8 @@ pub fn save_config(config: &StyxUserConfig) -> Result<(), SaveConfigError> {
         })?
     );
 
-    std::fs::write(&path, &content).map_err(|e| SaveConfigError::Io {
+    // A crash must not leave half a config: it would lose what the user allowed
+    crate::cache::write_atomically(&path, content.as_bytes()).map_err(|e| SaveConfigError::Io {
         path: path.clone(),
         error: e,
     })?;
@@ -103,6 +104,36 @@ pub fn save_config(config: &StyxUserConfig) -> Result<(), SaveConfigError> {
     Ok(())
 }
 
+/// Add a command to the allowed extensions on disk, keeping what is already there.
+///
+/// Another server (a second editor) may have changed the file since we loaded it, or be doing
+/// so right now. A config that can't be read is left alone.
+pub fn allow_extension(command: &str) -> Result<(), SaveConfigError> {
+    let Some(path) = config_path() else {
+        warn!("No config directory available, cannot save config");
+        return Err(SaveConfigError::NoConfigDir);
+    };
+    let io_error = |error| SaveConfigError::Io {
+        path: path.clone(),
+        error,
+    };
+
+    if let Some(parent) = path.parent() {
+        std::fs::create_dir_all(parent).map_err(io_error)?;
+    }
+    let lock = std::fs::File::create(path.with_extension("lock")).map_err(io_error)?;
+    lock.lock().map_err(io_error)?;
+
+    let mut config = load_config()
+        .map_err(|e| io_error(std::io::Error::other(e.to_string())))?
+        .unwrap_or_default();
+    if !config.allowed_extensions.iter().any(|c| c == command) {
+        config.allowed_extensions.push(command.to_string());
+        save_config(&config)?;
+    }
+    Ok(())
+}
+
 /// Error loading the user config.
 #[derive(Debug)]
 pub enum LoadConfigError {
diff --git a/crates/styx-lsp/src/extensions.rs b/crates/styx-lsp/src/extensions.rs
index 6d46ff3..00768cd 100644
--- a/crates/styx-lsp/src/extensions.rs
+++ b/crates/styx-lsp/src/extensions.rs
@@ -37,7 +37,7 @@ use tower_lsp::lsp_types::Url;
 use tracing::{debug, info, warn};
 use vox_stream::StreamLink;
 
-use crate::config::{self, StyxUserConfig};
+use crate::config;
 use crate::schema_validation::resolve_schema;
 use crate::server::DocumentMap;
 
@@ -139,10 +139,7 @@ impl ExtensionManager {
             allowlist.push(command.clone());
 
             // Persist to user config
-            let config = StyxUserConfig {
-                allowed_extensions: allowlist.clone(),
-            };
-            if let Err(e) = config::save_config(&config) {
+            if let Err(e) = config::allow_extension(&command) {
                 warn!(error = %e, "Failed to save user config");
             }
         }
-- 
2.43.0


From eb6bb12b759878a8df7dc0a1c0fb635ed10e0a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:54 +0000
Subject: [PATCH 47/64] fix: an extension runs only when exactly its command is
 allowed, and only once

---
 crates/styx-lsp/src/extensions.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/styx-lsp/src/extensions.rs b/crates/styx-lsp/src/extensions.rs
index 00768cd..9376351 100644
--- a/crates/styx-lsp/src/extensions.rs
+++ b/crates/styx-lsp/src/extensions.rs
@@ -32,7 +32,7 @@ use styx_lsp_ext::{
 use styx_tree::Value;
 use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
 use tokio::process::{Child, ChildStdin, ChildStdout, Command};
-use tokio::sync::RwLock;
+use tokio::sync::{Mutex, RwLock};
 use tower_lsp::lsp_types::Url;
 use tracing::{debug, info, warn};
 use vox_stream::StreamLink;
@@ -91,6 +91,8 @@ pub struct ExtensionManager {
     allowlist: RwLock<Vec<String>>,
     /// Shared document state for host callbacks.
     documents: DocumentMap,
+    /// Held while looking for an extension and spawning it, so that each runs once.
+    spawning: Mutex<()>,
 }
 
 /// A spawned extension process with vox connection.
@@ -122,14 +124,14 @@ impl ExtensionManager {
             extensions: RwLock::new(HashMap::new()),
             allowlist: RwLock::new(allowlist),
             documents,
+            spawning: Mutex::new(()),
         }
     }
 
     /// Check if an extension is allowed.
     pub async fn is_allowed(&self, command: &str) -> bool {
         let allowlist = self.allowlist.read().await;
-        // For now, allow if the first component of the command is in the allowlist
-        allowlist.iter().any(|allowed| command.starts_with(allowed))
+        allowlist.iter().any(|allowed| command == allowed)
     }
 
     /// Add a command to the allowlist and persist to user config.
@@ -155,6 +157,8 @@ impl ExtensionManager {
         config: &LspExtensionConfig,
         document_uri: &str,
     ) -> ExtensionResult {
+        let _spawning = self.spawning.lock().await;
+
         // Check if already spawned
         {
             let extensions = self.extensions.read().await;
-- 
2.43.0


From 6786db1906fe6384aaa6818375153a96155c8c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:16 +0000
Subject: [PATCH 48/64] fix: give up on an extension that does not start

A program that never answers the handshake kept didOpen/didChange waiting
forever, and with it every later document; it also kept running after a
failed handshake.
---
 crates/styx-lsp/src/extensions.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/crates/styx-lsp/src/extensions.rs b/crates/styx-lsp/src/extensions.rs
index 9376351..0c6d052 100644
--- a/crates/styx-lsp/src/extensions.rs
+++ b/crates/styx-lsp/src/extensions.rs
@@ -17,11 +17,12 @@ pub enum ExtensionResult {
     Failed,
 }
 
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::io;
 use std::pin::Pin;
 use std::process::Stdio;
 use std::task::{Context, Poll};
+use std::time::Duration;
 
 use facet_styx::LspExtensionConfig;
 pub use styx_lsp_ext::StyxLspExtensionClient;
@@ -83,6 +84,9 @@ impl AsyncWrite for ChildStdio {
     }
 }
 
+/// How long an extension may take to start and answer `initialize`.
+const STARTUP_TIMEOUT: Duration = Duration::from_secs(5);
+
 /// Manages LSP extension processes.
 pub struct ExtensionManager {
     /// Spawned extensions, keyed by schema ID.
@@ -92,7 +96,8 @@ pub struct ExtensionManager {
     /// Shared document state for host callbacks.
     documents: DocumentMap,
     /// Held while looking for an extension and spawning it, so that each runs once.
-    spawning: Mutex<()>,
+    /// Contains the schemas whose extension did not start in time: we don't wait for it again.
+    spawning: Mutex<HashSet<String>>,
 }
 
 /// A spawned extension process with vox connection.
@@ -124,7 +129,7 @@ impl ExtensionManager {
             extensions: RwLock::new(HashMap::new()),
             allowlist: RwLock::new(allowlist),
             documents,
-            spawning: Mutex::new(()),
+            spawning: Mutex::new(HashSet::new()),
         }
     }
 
@@ -157,7 +162,10 @@ impl ExtensionManager {
         config: &LspExtensionConfig,
         document_uri: &str,
     ) -> ExtensionResult {
-        let _spawning = self.spawning.lock().await;
+        let mut spawning = self.spawning.lock().await;
+        if spawning.contains(schema_id) {
+            return ExtensionResult::Failed;
+        }
 
         // Check if already spawned
         {
@@ -178,8 +186,16 @@ impl ExtensionManager {
             };
         }
 
-        // Spawn the extension
-        let Some(extension) = self.spawn_extension(schema_id, config, document_uri).await else {
+        // Spawn the extension; one that never answers must not hold up the document
+        let spawned = tokio::time::timeout(
+            STARTUP_TIMEOUT,
+            self.spawn_extension(schema_id, config, document_uri),
+        );
+        let Some(extension) = spawned.await.unwrap_or_else(|_| {
+            warn!(schema_id, command, "Extension did not start in time");
+            spawning.insert(schema_id.to_string());
+            None
+        }) else {
             return ExtensionResult::Failed;
         };
 
@@ -221,6 +237,8 @@ impl ExtensionManager {
             .stdin(Stdio::piped())
             .stdout(Stdio::piped())
             .stderr(Stdio::inherit())
+            // an extension we give up on must not linger
+            .kill_on_drop(true)
             .spawn()
             .map_err(|e| {
                 warn!(command, error = %e, "Failed to spawn extension");
-- 
2.43.0


From 87a7b635be1dd4708ef92cbc41594ac002596015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:41 +0000
Subject: [PATCH 49/64] fix: a config that cannot be looked at is not treated
 as missing

Allowing an extension then replaced it, losing what was allowed before.
---
 crates/styx-lsp/src/config.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/crates/styx-lsp/src/config.rs b/crates/styx-lsp/src/config.rs
index b263b91..7ba664c 100644
--- a/crates/styx-lsp/src/config.rs
+++ b/crates/styx-lsp/src/config.rs
@@ -45,15 +45,15 @@ pub fn load_config() -> Result<Option<StyxUserConfig>, LoadConfigError> {
         return Ok(None);
     };
 
-    if !path.exists() {
-        debug!(?path, "Config file does not exist yet");
-        return Ok(None);
-    }
-
-    let content = std::fs::read_to_string(&path).map_err(|e| LoadConfigError::Io {
-        path: path.clone(),
-        error: e,
-    })?;
+    // Only a missing file means "no config": one that can't be looked at must not be replaced
+    let content = match std::fs::read_to_string(&path) {
+        Ok(content) => content,
+        Err(e) if e.kind() == std::io::ErrorKind::NotFound => {
+            debug!(?path, "Config file does not exist yet");
+            return Ok(None);
+        }
+        Err(error) => return Err(LoadConfigError::Io { path, error }),
+    };
 
     let config: StyxUserConfig =
         facet_styx::from_str(&content).map_err(|e| LoadConfigError::Parse {
-- 
2.43.0


From b2de8b68fd6d8124f6ce8c871377df5011714bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:45 +0000
Subject: [PATCH 50/64] fix: count language server positions in UTF-16 code
 units and protocol lines

Positions counted characters (and, for extensions, bytes), so every range after a
non-BMP character was wrong, `\r` line ends were not seen, and multi-line tokens
were reported as one token that runs over the end of its line.
---
 crates/styx-lsp-ext/src/lib.rs         | 26 ++++++++-------
 crates/styx-lsp/src/extensions.rs      | 37 ++++++----------------
 crates/styx-lsp/src/semantic_tokens.rs | 44 +++++++++-----------------
 crates/styx-lsp/src/server.rs          | 38 ++++++++++++++--------
 4 files changed, 63 insertions(+), 82 deletions(-)

diff --git a/crates/styx-lsp-ext/src/lib.rs b/crates/styx-lsp-ext/src/lib.rs
index b8d03b9..ef64119 100644
--- a/crates/styx-lsp-ext/src/lib.rs
+++ b/crates/styx-lsp-ext/src/lib.rs
@@ -135,6 +135,8 @@ pub enum Capability {
 // =============================================================================
 
 /// A position in a document (0-indexed line and character).
+///
+/// Characters are UTF-16 code units, as in the language server protocol.
 #[derive(Debug, Clone, Copy, PartialEq, Eq, Facet)]
 pub struct Position {
     pub line: u32,
@@ -153,19 +155,21 @@ impl Position {
     /// the document content, allowing offset→position conversion without
     /// an RPC call back to the host.
     pub fn from_offset(content: &str, offset: u32) -> Self {
-        let offset = offset as usize;
-        if offset > content.len() {
-            // Past end of content - return last position
-            let line = content.chars().filter(|&c| c == '\n').count() as u32;
-            let last_newline = content.rfind('\n').map(|i| i + 1).unwrap_or(0);
-            let character = (content.len() - last_newline) as u32;
-            return Self { line, character };
+        let mut line = 0;
+        let mut character = 0;
+        let mut chars = content.char_indices().peekable();
+
+        // Lines end with `\n`, `\r\n` or `\r`, as in the language server protocol
+        while let Some((_, c)) = chars.next_if(|(i, _)| *i < offset as usize) {
+            let crlf = c == '\r' && chars.peek().is_some_and(|(_, next)| *next == '\n');
+            if c == '\n' || (c == '\r' && !crlf) {
+                line += 1;
+                character = 0;
+            } else if !crlf {
+                character += c.len_utf16() as u32;
+            }
         }
 
-        let before = &content[..offset];
-        let line = before.chars().filter(|&c| c == '\n').count() as u32;
-        let last_newline = before.rfind('\n').map(|i| i + 1).unwrap_or(0);
-        let character = (offset - last_newline) as u32;
         Self { line, character }
     }
 }
diff --git a/crates/styx-lsp/src/extensions.rs b/crates/styx-lsp/src/extensions.rs
index 0c6d052..c895049 100644
--- a/crates/styx-lsp/src/extensions.rs
+++ b/crates/styx-lsp/src/extensions.rs
@@ -34,13 +34,13 @@ use styx_tree::Value;
 use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
 use tokio::process::{Child, ChildStdin, ChildStdout, Command};
 use tokio::sync::{Mutex, RwLock};
-use tower_lsp::lsp_types::Url;
+use tower_lsp::lsp_types::{Position, Url};
 use tracing::{debug, info, warn};
 use vox_stream::StreamLink;
 
 use crate::config;
 use crate::schema_validation::resolve_schema;
-use crate::server::DocumentMap;
+use crate::server::{self, DocumentMap};
 
 /// A duplex stream combining a child process's stdin and stdout.
 ///
@@ -403,11 +403,7 @@ impl StyxLspHost for StyxLspHostImpl {
             return None;
         }
 
-        let content = &doc.content[..offset];
-        let line = content.chars().filter(|&c| c == '\n').count() as u32;
-        let last_newline = content.rfind('\n').map(|i| i + 1).unwrap_or(0);
-        let character = (offset - last_newline) as u32;
-
+        let Position { line, character } = server::offset_to_position(&doc.content, offset);
         Some(styx_lsp_ext::Position { line, character })
     }
 
@@ -416,28 +412,13 @@ impl StyxLspHost for StyxLspHostImpl {
         let docs = self.documents.read().await;
         let doc = docs.get(&uri)?;
 
-        let mut offset = 0;
-        let mut current_line = 0;
-
-        for ch in doc.content.chars() {
-            if current_line == params.position.line {
-                for (char_offset, c) in doc.content[offset..].chars().enumerate() {
-                    if char_offset == params.position.character as usize {
-                        return Some(offset as u32);
-                    }
-                    if c == '\n' {
-                        break;
-                    }
-                    offset += c.len_utf8();
-                }
-                return Some(offset as u32);
-            }
-            if ch == '\n' {
-                current_line += 1;
-            }
-            offset += ch.len_utf8();
+        let styx_lsp_ext::Position { line, character } = params.position;
+        let end = server::offset_to_position(&doc.content, doc.content.len());
+        if line > end.line {
+            return None;
         }
 
-        None
+        let offset = server::position_to_offset(&doc.content, Position { line, character });
+        Some(offset as u32)
     }
 }
diff --git a/crates/styx-lsp/src/semantic_tokens.rs b/crates/styx-lsp/src/semantic_tokens.rs
index c062977..b048548 100644
--- a/crates/styx-lsp/src/semantic_tokens.rs
+++ b/crates/styx-lsp/src/semantic_tokens.rs
@@ -3,6 +3,8 @@
 use styx_cst::{Parse, SyntaxKind, SyntaxNode, SyntaxToken};
 use tower_lsp::lsp_types::*;
 
+use crate::server::offset_to_position;
+
 /// Semantic token types we support
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 #[repr(u32)]
@@ -571,38 +573,22 @@ fn add_token_from_syntax(
     token_type: TokenType,
     modifiers: u32,
 ) {
-    let start: usize = token.text_range().start().into();
-    let end: usize = token.text_range().end().into();
-    let (line, start_char) = offset_to_line_col(content, start);
-    let length = (end - start) as u32;
-
-    tokens.push(RawToken {
-        line,
-        start_char,
-        length,
-        token_type,
-        modifiers,
-    });
-}
+    let mut start: usize = token.text_range().start().into();
 
-/// Convert byte offset to (line, column)
-fn offset_to_line_col(content: &str, offset: usize) -> (u32, u32) {
-    let mut line = 0u32;
-    let mut col = 0u32;
-
-    for (i, ch) in content.char_indices() {
-        if i >= offset {
-            break;
-        }
-        if ch == '\n' {
-            line += 1;
-            col = 0;
-        } else {
-            col += 1;
+    // Clients expect lengths in UTF-16 code units and tokens that don't span lines
+    for text in token.text().split(['\r', '\n']) {
+        let Position { line, character } = offset_to_position(content, start);
+        if !text.is_empty() {
+            tokens.push(RawToken {
+                line,
+                start_char: character,
+                length: text.encode_utf16().count() as u32,
+                token_type,
+                modifiers,
+            });
         }
+        start += text.len() + 1;
     }
-
-    (line, col)
 }
 
 /// Encode raw tokens as LSP semantic tokens (delta-encoded)
diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index cbb28ca..9248436 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -2103,44 +2103,53 @@ fn find_schema_declaration_range(tree: &Value, content: &str) -> Option<Range> {
     None
 }
 
-/// Convert byte offset to LSP Position
-fn offset_to_position(content: &str, offset: usize) -> Position {
+/// Convert byte offset to LSP Position (lines and UTF-16 code units).
+pub(crate) fn offset_to_position(content: &str, offset: usize) -> Position {
     let mut line = 0u32;
     let mut col = 0u32;
+    let mut chars = content.char_indices().peekable();
 
-    for (i, ch) in content.char_indices() {
+    while let Some((i, ch)) = chars.next() {
         if i >= offset {
             break;
         }
-        if ch == '\n' {
+        // `\r\n` is one line ending, and ends at the `\n`
+        let crlf = ch == '\r' && chars.peek().is_some_and(|(_, next)| *next == '\n');
+        if ch == '\n' || (ch == '\r' && !crlf) {
             line += 1;
             col = 0;
-        } else {
-            col += 1;
+        } else if !crlf {
+            col += ch.len_utf16() as u32;
         }
     }
 
     Position::new(line, col)
 }
 
-/// Convert LSP Position to byte offset
-fn position_to_offset(content: &str, position: Position) -> usize {
+/// Convert LSP Position to byte offset.
+///
+/// A position past the end of its line means the end of the line.
+pub(crate) fn position_to_offset(content: &str, position: Position) -> usize {
     let mut current_line = 0u32;
     let mut current_col = 0u32;
+    let mut chars = content.char_indices().peekable();
 
-    for (i, ch) in content.char_indices() {
-        if current_line == position.line && current_col == position.character {
+    while let Some((i, ch)) = chars.next() {
+        if current_line == position.line && current_col >= position.character {
             return i;
         }
-        if ch == '\n' {
+        if ch == '\n' || ch == '\r' {
             if current_line == position.line {
                 // Position is past end of line
                 return i;
             }
+            if ch == '\r' {
+                chars.next_if(|(_, next)| *next == '\n');
+            }
             current_line += 1;
             current_col = 0;
         } else {
-            current_col += 1;
+            current_col += ch.len_utf16() as u32;
         }
     }
 
@@ -2949,8 +2958,9 @@ fn get_word_range_at_position(content: &str, position: Position) -> Option<(Stri
     // Find the start of the current word by scanning backwards
     let before = &content[..offset];
     let word_start = before
-        .rfind(|c: char| c.is_whitespace() || c == '{' || c == '}')
-        .map(|i| i + 1)
+        .char_indices()
+        .rfind(|(_, c)| c.is_whitespace() || *c == '{' || *c == '}')
+        .map(|(i, c)| i + c.len_utf8())
         .unwrap_or(0);
 
     let word = &before[word_start..];
-- 
2.43.0


From 847a3d2de90684ff84ba3c9599f795cd83025ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:45 +0000
Subject: [PATCH 51/64] fix: highlight explicit roots, tagged keys, attribute
 keys and comments in sequences

---
 crates/styx-lsp/src/semantic_tokens.rs | 46 +++++++++++++++++++++++---
 1 file changed, 42 insertions(+), 4 deletions(-)

diff --git a/crates/styx-lsp/src/semantic_tokens.rs b/crates/styx-lsp/src/semantic_tokens.rs
index b048548..52b9dfd 100644
--- a/crates/styx-lsp/src/semantic_tokens.rs
+++ b/crates/styx-lsp/src/semantic_tokens.rs
@@ -175,6 +175,14 @@ fn walk_node_for_spans(node: &SyntaxNode, spans: &mut Vec<HighlightSpan>, ctx: W
             for child in node.children_with_tokens() {
                 if let Some(child_node) = child.as_node() {
                     walk_node_for_spans(child_node, spans, seq_ctx);
+                } else if let Some(token) = child.as_token()
+                    && matches!(
+                        token.kind(),
+                        SyntaxKind::LINE_COMMENT | SyntaxKind::DOC_COMMENT
+                    )
+                {
+                    let is_doc_comment = token.kind() == SyntaxKind::DOC_COMMENT;
+                    add_span_from_syntax(spans, token, TokenType::Comment, is_doc_comment);
                 }
             }
         }
@@ -214,8 +222,14 @@ fn walk_node_for_spans(node: &SyntaxNode, spans: &mut Vec<HighlightSpan>, ctx: W
         SyntaxKind::ATTRIBUTE => {
             for child in node.children_with_tokens() {
                 if let Some(token) = child.as_token() {
-                    if token.kind() == SyntaxKind::GT {
-                        add_span_from_syntax(spans, token, TokenType::Operator, false);
+                    match token.kind() {
+                        SyntaxKind::GT => {
+                            add_span_from_syntax(spans, token, TokenType::Operator, false);
+                        }
+                        kind if is_scalar_token(kind) => {
+                            add_span_from_syntax(spans, token, TokenType::Property, false);
+                        }
+                        _ => {}
                     }
                 } else if let Some(child_node) = child.as_node() {
                     if child_node.kind() == SyntaxKind::KEY {
@@ -268,9 +282,15 @@ fn collect_key_spans(node: &SyntaxNode, spans: &mut Vec<HighlightSpan>) {
                             && token.kind() == SyntaxKind::TAG_TOKEN
                         {
                             add_span_from_syntax(spans, token, TokenType::Property, false);
+                        } else if let Some(payload) = t.as_node() {
+                            collect_key_spans(payload, spans);
                         }
                     }
                 }
+                SyntaxKind::OBJECT | SyntaxKind::SEQUENCE | SyntaxKind::HEREDOC => {
+                    // The root may be a value of its own
+                    walk_node_for_spans(child_node, spans, WalkContext::default());
+                }
                 SyntaxKind::UNIT => {
                     for t in child_node.children_with_tokens() {
                         if let Some(token) = t.as_token()
@@ -320,7 +340,8 @@ fn collect_key_spans_as_values(node: &SyntaxNode, spans: &mut Vec<HighlightSpan>
                 SyntaxKind::OBJECT => {
                     walk_node_for_spans(child_node, spans, WalkContext::default());
                 }
-                _ => {}
+                // Heredocs and attributes look the same anywhere
+                _ => walk_node_for_spans(child_node, spans, WalkContext::default()),
             }
         }
     }
@@ -378,6 +399,16 @@ fn walk_node(node: &SyntaxNode, content: &str, tokens: &mut Vec<RawToken>, ctx:
             for child in node.children_with_tokens() {
                 if let Some(child_node) = child.as_node() {
                     walk_node(child_node, content, tokens, seq_ctx);
+                } else if let Some(token) = child.as_token()
+                    && matches!(
+                        token.kind(),
+                        SyntaxKind::LINE_COMMENT | SyntaxKind::DOC_COMMENT
+                    )
+                {
+                    let is_doc_comment = token.kind() == SyntaxKind::DOC_COMMENT;
+                    let modifiers =
+                        u32::from(is_doc_comment) << TokenModifier::Documentation as u32;
+                    add_token_from_syntax(tokens, content, token, TokenType::Comment, modifiers);
                 }
             }
         }
@@ -495,9 +526,15 @@ fn collect_key_tokens(node: &SyntaxNode, content: &str, tokens: &mut Vec<RawToke
                             && token.kind() == SyntaxKind::TAG_TOKEN
                         {
                             add_token_from_syntax(tokens, content, token, TokenType::Property, 0);
+                        } else if let Some(payload) = tag_child.as_node() {
+                            collect_key_tokens(payload, content, tokens);
                         }
                     }
                 }
+                SyntaxKind::OBJECT | SyntaxKind::SEQUENCE | SyntaxKind::HEREDOC => {
+                    // The root may be a value of its own
+                    walk_node(child_node, content, tokens, WalkContext::default());
+                }
                 _ => {}
             }
         }
@@ -551,7 +588,8 @@ fn collect_key_tokens_as_values(node: &SyntaxNode, content: &str, tokens: &mut V
                     // Objects should use regular object context (keys are properties)
                     walk_node(child_node, content, tokens, WalkContext::default());
                 }
-                _ => {}
+                // Units, heredocs and attributes look the same anywhere
+                _ => walk_node(child_node, content, tokens, WalkContext::default()),
             }
         }
     }
-- 
2.43.0


From 411e1f03cb2da0a126a9f152f9925225a6af51e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:45 +0000
Subject: [PATCH 52/64] fix: make language server formatting edits cover and
 keep the document

Formatting replaced the text up to the last line's byte length, so a trailing
newline was doubled; indenting a new line added to the indentation the line has
and changed the content of heredocs and multi-line strings. Symbol names may not
be empty.
---
 crates/styx-lsp/src/server.rs | 131 +++++++++++++++-------------------
 1 file changed, 58 insertions(+), 73 deletions(-)

diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index 9248436..67573a8 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -1849,20 +1849,10 @@ impl LanguageServer for StyxLanguageServer {
         }
 
         // Replace the entire document
-        let lines: Vec<&str> = doc.content.lines().collect();
-        let last_line = lines.len().saturating_sub(1);
-        let last_char = lines.last().map(|l| l.len()).unwrap_or(0);
-
         Ok(Some(vec![TextEdit {
             range: Range {
-                start: Position {
-                    line: 0,
-                    character: 0,
-                },
-                end: Position {
-                    line: last_line as u32,
-                    character: last_char as u32,
-                },
+                start: Position::new(0, 0),
+                end: offset_to_position(&doc.content, doc.content.len()),
             },
             new_text: formatted,
         }]))
@@ -1925,81 +1915,71 @@ impl LanguageServer for StyxLanguageServer {
         // Build the indentation string based on nesting depth
         let indent_str = indent_unit.repeat(depth);
 
-        // Insert indentation at the start of the current line
+        // Replace whatever indentation the editor already gave the current line
+        let line_start = position_to_offset(&doc.content, Position::new(position.line, 0));
+        if is_inside_token(&doc.parse, line_start) {
+            // Whitespace here is content
+            return Ok(None);
+        }
+        let line = &doc.content[line_start..];
+        let existing = line.len() - line.trim_start_matches([' ', '\t']).len();
+        if line[..existing] == indent_str {
+            return Ok(None);
+        }
         Ok(Some(vec![TextEdit {
             range: Range {
-                start: Position {
-                    line: position.line,
-                    character: 0,
-                },
-                end: Position {
-                    line: position.line,
-                    character: 0,
-                },
+                start: offset_to_position(&doc.content, line_start),
+                end: offset_to_position(&doc.content, line_start + existing),
             },
             new_text: indent_str,
         }]))
     }
 }
 
+/// Whether a line starting at this offset continues a multi-line scalar (or heredoc).
+fn is_inside_token(parse: &styx_cst::Parse, offset: usize) -> bool {
+    use styx_cst::{SyntaxKind, TextSize};
+
+    let offset = TextSize::new(offset as u32);
+    parse
+        .syntax()
+        .descendants_with_tokens()
+        .any(|element| match element.kind() {
+            // up to and including the closing delimiter, whose indentation counts too
+            SyntaxKind::HEREDOC => {
+                let range = element.text_range();
+                range.start() < offset && offset < range.end()
+            }
+            SyntaxKind::QUOTED_SCALAR | SyntaxKind::RAW_SCALAR | SyntaxKind::ERROR => {
+                let range = element.text_range();
+                range.start() < offset && offset < range.end()
+            }
+            _ => false,
+        })
+}
+
 /// Find the nesting depth (number of objects/sequences) containing the given offset.
 ///
 /// Uses the CST for accurate position information. Counts OBJECT and SEQUENCE
 /// nodes in the ancestor chain from the given offset.
 fn find_nesting_depth_cst(parse: &styx_cst::Parse, offset: usize) -> usize {
-    use styx_cst::{SyntaxKind, TextSize, TokenAtOffset};
+    use styx_cst::{SyntaxKind, TextSize};
 
-    let root = parse.syntax();
     let offset = TextSize::new(offset as u32);
-
-    // Find the token at this offset
-    let token = match root.token_at_offset(offset) {
-        TokenAtOffset::None => return 0,
-        TokenAtOffset::Single(t) => {
-            // If we're exactly at the end of a closing delimiter, we're semantically outside
-            if matches!(t.kind(), SyntaxKind::R_BRACE | SyntaxKind::R_PAREN)
-                && t.text_range().end() == offset
-            {
-                // We're at the end of a closing brace - count depth excluding this container
-                let mut depth: usize = 0;
-                let mut node = t.parent();
-                while let Some(n) = node {
-                    if matches!(n.kind(), SyntaxKind::OBJECT | SyntaxKind::SEQUENCE) {
-                        depth += 1;
-                    }
-                    node = n.parent();
-                }
-                // Subtract 1 because we're outside the innermost container
-                return depth.saturating_sub(1);
-            }
-            t
-        }
-        TokenAtOffset::Between(left, right) => {
-            // When between two tokens, choose based on what makes semantic sense:
-            // - If left is a closing delimiter (} or )), cursor is OUTSIDE, prefer right
-            // - Otherwise prefer left (e.g., after newline inside a block)
-            match left.kind() {
-                SyntaxKind::R_BRACE | SyntaxKind::R_PAREN => right,
-                _ => left,
-            }
-        }
-    };
-
-    // Walk up the ancestor chain, counting OBJECT and SEQUENCE nodes
-    let mut depth = 0;
-    let mut node = token.parent();
-
-    while let Some(n) = node {
-        match n.kind() {
-            SyntaxKind::OBJECT | SyntaxKind::SEQUENCE => {
-                depth += 1;
-            }
-            _ => {}
-        }
-        node = n.parent();
-    }
-
-    depth
+    parse
+        .syntax()
+        .descendants()
+        .filter(|node| matches!(node.kind(), SyntaxKind::OBJECT | SyntaxKind::SEQUENCE))
+        .filter(|node| {
+            // Before the opening and after the closing delimiter, we're outside
+            let range = node.text_range();
+            let closed = node.last_token().is_some_and(|token| {
+                matches!(token.kind(), SyntaxKind::R_BRACE | SyntaxKind::R_PAREN)
+                    && token.parent().as_ref() == Some(node)
+            });
+            range.start() < offset && (offset < range.end() || (!closed && offset == range.end()))
+        })
+        .count()
 }
 
 /// Collect document symbols recursively from a value tree
@@ -2068,7 +2048,12 @@ fn collect_document_symbols(value: &Value, content: &str) -> Vec<DocumentSymbol>
 
         #[allow(deprecated)]
         symbols.push(DocumentSymbol {
-            name: name.to_string(),
+            // Symbol names may not be empty
+            name: if name.is_empty() {
+                "\"\"".to_string()
+            } else {
+                name.to_string()
+            },
             detail,
             kind,
             tags: None,
-- 
2.43.0


From 256839c36a423eec516d3a89c3d7cffa0a25833b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:45 +0000
Subject: [PATCH 53/64] fix: make the language server's code actions produce
 the documents they promise

Filled fields were put at the last line of the object whatever it holds, names
and values that need quotes were written bare, reordering dropped comments and
commas and followed the order of a hash map, a field could be renamed to one
that exists, and a schema declaration was put in front of a root with braces.
---
 crates/styx-lsp/src/schema_validation.rs |  15 +-
 crates/styx-lsp/src/server.rs            | 528 +++++++++++++++--------
 2 files changed, 370 insertions(+), 173 deletions(-)

diff --git a/crates/styx-lsp/src/schema_validation.rs b/crates/styx-lsp/src/schema_validation.rs
index 90edee3..4788dd9 100644
--- a/crates/styx-lsp/src/schema_validation.rs
+++ b/crates/styx-lsp/src/schema_validation.rs
@@ -420,7 +420,7 @@ pub fn generate_placeholder(schema: &Schema) -> String {
         Schema::Bool => "false".to_string(),
         Schema::Unit => "@".to_string(),
         Schema::Any => "@".to_string(),
-        Schema::Seq(_) => "[]".to_string(),
+        Schema::Seq(_) => "()".to_string(),
         Schema::Map(_) => "{}".to_string(),
         Schema::Object(_) => "{}".to_string(),
         Schema::Optional(opt) => generate_placeholder(&opt.0.0.value),
@@ -441,11 +441,11 @@ pub fn generate_placeholder(schema: &Schema) -> String {
             // Use first allowed value if available, otherwise generate from base type
             o.0.1
                 .first()
-                .map(|v| v.0.clone())
+                .map(|v| write_scalar(&v.0))
                 .unwrap_or_else(|| generate_placeholder(&o.0.0.value))
         }
         Schema::Flatten(f) => generate_placeholder(&f.0.0.value),
-        Schema::Literal(lit) => lit.clone(),
+        Schema::Literal(lit) => write_scalar(lit),
         Schema::Type { name } => name
             .as_ref()
             .map(|n| format!("@{}", n))
@@ -458,6 +458,15 @@ pub fn generate_placeholder(schema: &Schema) -> String {
     }
 }
 
+/// Write a scalar so that it reads back as that text.
+pub(crate) fn write_scalar(text: &str) -> String {
+    if styx_format::can_be_bare(text) {
+        text.to_string()
+    } else {
+        format!("\"{}\"", styx_format::escape_quoted(text))
+    }
+}
+
 /// Load schema for a document and return the SchemaFile.
 pub fn load_document_schema(value: &Value, document_uri: &Url) -> Result<SchemaFile, String> {
     let schema_ref =
diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index 67573a8..d643e41 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -13,9 +13,10 @@ use tower_lsp::{Client, LanguageServer, LspService, Server};
 use crate::extensions::{ExtensionManager, ExtensionResult, get_extension_info};
 use crate::schema_hints::find_matching_hint;
 use crate::schema_validation::{
-    find_object_at_offset, find_schema_declaration, find_tagged_context_at_offset,
-    get_document_fields, get_error_span, get_schema_fields, get_schema_fields_at_path,
-    load_document_schema, resolve_schema, validate_against_schema,
+    ObjectContext, SchemaField, find_object_at_offset, find_schema_declaration,
+    find_tagged_context_at_offset, get_document_fields, get_error_span, get_schema_fields,
+    get_schema_fields_at_path, load_document_schema, resolve_schema, validate_against_schema,
+    write_scalar,
 };
 use crate::semantic_tokens::{compute_semantic_tokens, semantic_token_legend};
 use styx_lsp_ext as ext;
@@ -431,6 +432,7 @@ impl StyxLanguageServer {
         // If no schema declaration but file matches a known pattern, suggest adding one
         if let Some(tree) = tree
             && find_schema_declaration(tree).is_none()
+            && find_schema_declaration_range(tree, content).is_none()
             && let Some(hint_match) = find_matching_hint(uri)
         {
             // Create data for the code action
@@ -933,7 +935,8 @@ impl LanguageServer for StyxLanguageServer {
         let schema_fields: Vec<(String, String)> = if let Ok(schema_file) =
             facet_styx::from_str::<facet_styx::SchemaFile>(&schema.source)
         {
-            let fields = get_schema_fields_at_path(&schema_file, path);
+            let mut fields = get_schema_fields_at_path(&schema_file, path);
+            sort_fields_by_source(&mut fields, &schema.source);
             tracing::debug!(
                 count = fields.len(),
                 ?path,
@@ -1068,7 +1071,7 @@ impl LanguageServer for StyxLanguageServer {
                     detail: Some(type_str),
                     text_edit: Some(CompletionTextEdit::Edit(TextEdit {
                         range: edit_range,
-                        new_text: format!("{} ", name),
+                        new_text: format!("{} ", write_field_name(&name)),
                     })),
                     filter_text: Some(name.clone()),
                     sort_text: Some(if is_optional {
@@ -1123,6 +1126,7 @@ impl LanguageServer for StyxLanguageServer {
     async fn code_action(&self, params: CodeActionParams) -> Result<Option<CodeActionResponse>> {
         let uri = params.text_document.uri;
         let mut actions = Vec::new();
+        let document = self.document(&uri).await;
 
         // Process each diagnostic to generate code actions (quickfixes)
         for diag in &params.context.diagnostics {
@@ -1138,14 +1142,24 @@ impl LanguageServer for StyxLanguageServer {
                         .and_then(|v| v.as_str())
                         .unwrap_or("schema");
 
+                    // If the root object has braces, the declaration goes inside
+                    let brace = document
+                        .as_ref()
+                        .and_then(|doc| Some((doc, explicit_root(&doc.parse)?)));
+                    let position = brace.as_ref().map_or(Position::new(0, 0), |(doc, root)| {
+                        let start = usize::from(root.text_range().start());
+                        offset_to_position(&doc.content, start + 1)
+                    });
+                    let before = if brace.is_some() { "\n" } else { "" };
+
                     // Action 1: Add the suggested schema declaration
                     {
                         let edit = TextEdit {
                             range: Range {
-                                start: Position::new(0, 0),
-                                end: Position::new(0, 0),
+                                start: position,
+                                end: position,
                             },
-                            new_text: format!("{}\n\n", declaration),
+                            new_text: format!("{}{}\n\n", before, declaration),
                         };
 
                         let mut changes = std::collections::HashMap::new();
@@ -1168,10 +1182,10 @@ impl LanguageServer for StyxLanguageServer {
                     {
                         let edit = TextEdit {
                             range: Range {
-                                start: Position::new(0, 0),
-                                end: Position::new(0, 0),
+                                start: position,
+                                end: position,
                             },
-                            new_text: "@schema @\n\n".to_string(),
+                            new_text: format!("{}@schema @\n\n", before),
                         };
 
                         let mut changes = std::collections::HashMap::new();
@@ -1236,9 +1250,20 @@ impl LanguageServer for StyxLanguageServer {
                 // Create a text edit to rename the field
                 let edit = TextEdit {
                     range: diag.range,
-                    new_text: to.to_string(),
+                    new_text: write_field_name(to),
                 };
 
+                // The object may have the other field already
+                if let Some(doc) = &document {
+                    let mut renamed = doc.content.clone();
+                    let start = position_to_offset(&doc.content, edit.range.start);
+                    let end = position_to_offset(&doc.content, edit.range.end).max(start);
+                    renamed.replace_range(start..end, &edit.new_text);
+                    if doc.tree.is_some() && styx_tree::parse(&renamed).is_err() {
+                        continue;
+                    }
+                }
+
                 let mut changes = std::collections::HashMap::new();
                 changes.insert(uri.clone(), vec![edit]);
 
@@ -1257,7 +1282,6 @@ impl LanguageServer for StyxLanguageServer {
         }
 
         // Try to get code actions from extension
-        let document = self.document(&uri).await;
         if let Some(doc) = &document
             && let Some(ref tree) = doc.tree
             && let Ok(schema_file) = load_document_schema(tree, &uri)
@@ -1383,13 +1407,15 @@ impl LanguageServer for StyxLanguageServer {
             && let Some(ref tree) = doc.tree
         {
             // Try to load the schema
-            if let Ok(schema_file) = load_document_schema(tree, &uri) {
+            if let Ok(schema_file) = load_document_schema(tree, &uri)
+                && let Ok(schema) = resolve_schema(tree, &uri)
+            {
                 // Find the object at cursor position
                 let cursor_offset = position_to_offset(&doc.content, params.range.start);
                 let object_ctx = find_object_at_offset(tree, cursor_offset);
 
                 // Get schema fields for the current context (root or nested)
-                let (schema_fields, existing_fields, context_name) =
+                let (mut schema_fields, existing_fields, context_name) =
                     if let Some(ref ctx) = object_ctx {
                         let fields = get_schema_fields_at_path(&schema_file, &ctx.path);
                         let existing: Vec<String> = ctx
@@ -1410,6 +1436,8 @@ impl LanguageServer for StyxLanguageServer {
                         (fields, existing, String::new())
                     };
 
+                sort_fields_by_source(&mut schema_fields, &schema.source);
+
                 // Find missing fields
                 let missing_required: Vec<_> = schema_fields
                     .iter()
@@ -1421,43 +1449,24 @@ impl LanguageServer for StyxLanguageServer {
                     .filter(|f| f.optional && !existing_fields.contains(&f.name))
                     .collect();
 
-                // Find insert position and indentation within the current object
-                let insert_info = if let Some(ref ctx) = object_ctx {
-                    if let Some(span) = ctx.span {
-                        // Find insertion point within this object
-                        let obj_content = &doc.content[span.start as usize..span.end as usize];
-                        let obj_insert = find_field_insert_position(obj_content);
-                        // Adjust position to be relative to document start
-                        let obj_start_pos = offset_to_position(&doc.content, span.start as usize);
-                        InsertPosition {
-                            position: Position {
-                                line: obj_start_pos.line + obj_insert.position.line,
-                                character: if obj_insert.position.line == 0 {
-                                    obj_start_pos.character + obj_insert.position.character
-                                } else {
-                                    obj_insert.position.character
-                                },
-                            },
-                            indent: obj_insert.indent,
-                        }
-                    } else {
-                        find_field_insert_position(&doc.content)
-                    }
-                } else {
-                    find_field_insert_position(&doc.content)
-                };
-
-                // Action: Fill required fields
-                if !missing_required.is_empty() {
-                    let new_text = generate_fields_text(&missing_required, &insert_info.indent);
-                    let edit = TextEdit {
+                // Find where new fields go within the current object
+                let insertion = find_field_insertion(&doc.parse, &doc.content, object_ctx.as_ref());
+                let fill = |fields: &[&SchemaField]| {
+                    let insertion = insertion.as_ref()?;
+                    let position = offset_to_position(&doc.content, insertion.offset);
+                    Some(TextEdit {
                         range: Range {
-                            start: insert_info.position,
-                            end: insert_info.position,
+                            start: position,
+                            end: position,
                         },
-                        new_text,
-                    };
+                        new_text: generate_fields_text(fields, insertion),
+                    })
+                };
 
+                // Action: Fill required fields
+                if !missing_required.is_empty()
+                    && let Some(edit) = fill(&missing_required)
+                {
                     let mut changes = std::collections::HashMap::new();
                     changes.insert(uri.clone(), vec![edit]);
 
@@ -1483,16 +1492,9 @@ impl LanguageServer for StyxLanguageServer {
                     .filter(|f| !existing_fields.contains(&f.name))
                     .collect();
 
-                if !all_missing.is_empty() && !missing_optional.is_empty() {
-                    let new_text = generate_fields_text(&all_missing, &insert_info.indent);
-                    let edit = TextEdit {
-                        range: Range {
-                            start: insert_info.position,
-                            end: insert_info.position,
-                        },
-                        new_text,
-                    };
-
+                if !missing_optional.is_empty()
+                    && let Some(edit) = fill(&all_missing)
+                {
                     let mut changes = std::collections::HashMap::new();
                     changes.insert(uri.clone(), vec![edit]);
 
@@ -1518,9 +1520,10 @@ impl LanguageServer for StyxLanguageServer {
                     .map(|c| c.path.is_empty())
                     .unwrap_or(true)
                 {
-                    let root_fields = get_schema_fields(&schema_file);
+                    let mut root_fields = get_schema_fields(&schema_file);
+                    sort_fields_by_source(&mut root_fields, &schema.source);
                     if let Some(reorder_edit) =
-                        generate_reorder_edit(tree, &root_fields, &doc.content)
+                        generate_reorder_edit(tree, &root_fields, &doc.parse, &doc.content)
                     {
                         let mut changes = std::collections::HashMap::new();
                         changes.insert(uri.clone(), vec![reorder_edit]);
@@ -2917,6 +2920,46 @@ fn collect_fields_from_object(value: &Value, source: &str, fields: &mut Vec<(Str
     }
 }
 
+/// Put schema fields into the order the schema source lists them in.
+fn sort_fields_by_source(fields: &mut [SchemaField], schema_source: &str) {
+    fn collect<'a>(value: &'a Value, objects: &mut Vec<Vec<&'a str>>) {
+        match &value.payload {
+            Some(styx_tree::Payload::Object(obj)) => {
+                let keys = obj.entries.iter().filter_map(|e| e.key.as_str());
+                objects.push(keys.collect());
+                for entry in &obj.entries {
+                    collect(&entry.value, objects);
+                }
+            }
+            Some(styx_tree::Payload::Sequence(seq)) => {
+                for item in &seq.items {
+                    collect(item, objects);
+                }
+            }
+            _ => {}
+        }
+    }
+
+    let tree = styx_tree::parse(schema_source).ok();
+    let mut objects = Vec::new();
+    if let Some(tree) = &tree {
+        collect(tree, &mut objects);
+    }
+    // Fields may come from several objects; start with the one that has most of them
+    let known = |keys: &Vec<&str>| {
+        fields
+            .iter()
+            .filter(|f| keys.contains(&f.name.as_str()))
+            .count()
+    };
+    objects.sort_by_cached_key(|keys| std::cmp::Reverse(known(keys)));
+    let order: Vec<&str> = objects.into_iter().flatten().collect();
+    fields.sort_by_cached_key(|field| {
+        let index = order.iter().position(|key| *key == field.name);
+        (index.unwrap_or(order.len()), field.name.clone())
+    });
+}
+
 /// Get existing field names in a document
 fn get_existing_fields(tree: &Value) -> Vec<String> {
     let mut fields = Vec::new();
@@ -3171,72 +3214,219 @@ fn find_field_in_doc(tree: &Value, field_name: &str, content: &str) -> Option<Ra
     None
 }
 
-/// Info about where to insert new fields
-struct InsertPosition {
-    position: Position,
-    indent: String,
+/// Where and how new fields are added to an object.
+struct FieldInsertion {
+    offset: usize,
+    /// Text before the first field.
+    before: String,
+    /// Text between fields.
+    between: String,
+    /// Text after the last field.
+    after: String,
 }
 
-/// Find the position where new fields should be inserted and the indentation to use.
-fn find_field_insert_position(content: &str) -> InsertPosition {
-    let lines: Vec<&str> = content.lines().collect();
-
-    // Find the last non-empty, non-comment line
-    for (i, line) in lines.iter().enumerate().rev() {
-        let trimmed = line.trim();
-        if !trimmed.is_empty() && !trimmed.starts_with("//") && !trimmed.starts_with('#') {
-            // Detect indentation from this line
-            let indent_len = line.len() - line.trim_start().len();
-            let indent = line[..indent_len].to_string();
-
-            return InsertPosition {
-                position: Position {
-                    line: i as u32,
-                    character: line.len() as u32,
-                },
-                indent,
+/// The CST node of an object: the innermost `{…}` that ends where the object does, or the root.
+fn find_object_node(
+    parse: &styx_cst::Parse,
+    content: &str,
+    span: Option<styx_tree::Span>,
+    is_root: bool,
+) -> Option<styx_cst::SyntaxNode> {
+    use styx_cst::SyntaxKind;
+
+    let root = parse.syntax();
+    let braced = span.and_then(|span| {
+        let range = span.start as usize..span.end as usize;
+        if !content.get(range.clone())?.ends_with('}') {
+            return None;
+        }
+        root.descendants().find(|node| {
+            node.kind() == SyntaxKind::OBJECT
+                && usize::from(node.text_range().start()) >= range.start
+                && usize::from(node.text_range().end()) == range.end
+        })
+    });
+    // An object without braces below the root comes from a dotted key or attributes
+    braced.or_else(|| is_root.then(|| explicit_root(parse).unwrap_or(root)))
+}
+
+/// The root object, if it has braces.
+fn explicit_root(parse: &styx_cst::Parse) -> Option<styx_cst::SyntaxNode> {
+    use styx_cst::SyntaxKind;
+
+    let root = parse.syntax();
+    let first = root
+        .descendants_with_tokens()
+        .filter_map(|element| element.into_token())
+        .find(|token| {
+            !token.kind().is_trivia()
+                && !matches!(token.kind(), SyntaxKind::DOC_COMMENT | SyntaxKind::COMMA)
+        })?;
+    first
+        .parent()
+        .filter(|node| first.kind() == SyntaxKind::L_BRACE && node.kind() == SyntaxKind::OBJECT)
+}
+
+/// The entries of an object node, without the comments and whitespace around them.
+fn entry_ranges(object: &styx_cst::SyntaxNode) -> Vec<std::ops::Range<usize>> {
+    use styx_cst::SyntaxKind;
+
+    let mut ranges = Vec::new();
+    for entry in object
+        .children()
+        .filter(|node| node.kind() == SyntaxKind::ENTRY)
+    {
+        let mut tokens = entry
+            .descendants_with_tokens()
+            .filter_map(|element| element.into_token())
+            .filter(|token| {
+                !matches!(
+                    token.kind(),
+                    SyntaxKind::WHITESPACE
+                        | SyntaxKind::NEWLINE
+                        | SyntaxKind::LINE_COMMENT
+                        | SyntaxKind::DOC_COMMENT
+                )
+            });
+        if let Some(first) = tokens.next() {
+            let last = tokens.last().unwrap_or_else(|| first.clone());
+            ranges.push(first.text_range().start().into()..last.text_range().end().into());
+        }
+    }
+    ranges
+}
+
+/// Find where new fields should be added to an object (`None`: the root), and how.
+///
+/// Returns `None` if the object has no place of its own in the source.
+fn find_field_insertion(
+    parse: &styx_cst::Parse,
+    content: &str,
+    object: Option<&ObjectContext>,
+) -> Option<FieldInsertion> {
+    use styx_cst::SyntaxKind;
+
+    let span = object.and_then(|ctx| ctx.span);
+    let is_root = object.is_none_or(|ctx| ctx.path.is_empty());
+    let node = find_object_node(parse, content, span, is_root)?;
+    let braced = node.kind() == SyntaxKind::OBJECT;
+    let has_commas = node
+        .children_with_tokens()
+        .any(|child| child.kind() == SyntaxKind::COMMA);
+    let start = usize::from(node.text_range().start());
+    let end = usize::from(node.text_range().end());
+    let multiline = !braced || content[start..end].contains('\n');
+
+    let line_start = |offset: usize| content[..offset].rfind('\n').map_or(0, |i| i + 1);
+    let indent_at = |offset: usize| {
+        let line = &content[line_start(offset)..offset];
+        &line[..line.len() - line.trim_start().len()]
+    };
+
+    let Some(last) = entry_ranges(&node).pop() else {
+        // No fields yet: right before the closing brace, or at the end
+        if !braced {
+            let newline = if content.is_empty() || content.ends_with('\n') {
+                ""
+            } else {
+                "\n"
             };
+            return Some(FieldInsertion {
+                offset: end,
+                before: newline.to_string(),
+                between: "\n".to_string(),
+                after: "\n".to_string(),
+            });
         }
+        let (between, after) = if multiline {
+            (
+                format!("\n{}    ", indent_at(end - 1)),
+                format!("\n{}", indent_at(end - 1)),
+            )
+        } else {
+            (", ".to_string(), String::new())
+        };
+        return Some(FieldInsertion {
+            offset: end - 1,
+            before: if multiline { "    " } else { "" }.to_string(),
+            between,
+            after,
+        });
+    };
+
+    // The closing delimiter of a heredoc stands alone on its line
+    let heredoc = node.descendants_with_tokens().any(|element| {
+        element.kind() == SyntaxKind::HEREDOC_END
+            && usize::from(element.text_range().end()) == last.end
+    });
+    let comma = if has_commas && !heredoc { "," } else { "" };
+    if !multiline {
+        return Some(FieldInsertion {
+            offset: last.end,
+            before: ", ".to_string(),
+            between: ", ".to_string(),
+            after: String::new(),
+        });
     }
+    let own_line = content[line_start(last.start)..last.start]
+        .trim()
+        .is_empty();
+    let extra = if own_line || !braced { "" } else { "    " };
+    let between = format!("{comma}\n{}{extra}", indent_at(last.start));
+    // A comment after the last field stays there
+    let rest = content[last.end..].lines().next().unwrap_or("");
+    let offset = if !has_commas && rest.trim_start().starts_with("//") {
+        last.end + rest.len()
+    } else {
+        last.end
+    };
+    Some(FieldInsertion {
+        offset,
+        before: between.clone(),
+        between,
+        after: String::new(),
+    })
+}
 
-    // Fallback: end of document, no indentation
-    InsertPosition {
-        position: Position {
-            line: lines.len().saturating_sub(1) as u32,
-            character: lines.last().map(|l| l.len()).unwrap_or(0) as u32,
-        },
-        indent: String::new(),
+/// Write a field name so that it reads back as that name.
+fn write_field_name(name: &str) -> String {
+    if name.contains('.') {
+        format!("\"{}\"", styx_format::escape_quoted(name))
+    } else {
+        write_scalar(name)
     }
 }
 
 /// Generate text for inserting missing fields.
-fn generate_fields_text(fields: &[&crate::schema_validation::SchemaField], indent: &str) -> String {
+fn generate_fields_text(fields: &[&SchemaField], insertion: &FieldInsertion) -> String {
     use crate::schema_validation::generate_placeholder;
 
-    let mut result = String::new();
-
-    for field in fields {
-        result.push('\n');
-        result.push_str(indent);
-        result.push_str(&field.name);
-        result.push(' ');
-
-        // Use default value if available, otherwise generate placeholder
-        let value = field
-            .default_value
-            .clone()
-            .unwrap_or_else(|| generate_placeholder(&field.schema));
-        result.push_str(&value);
-    }
+    let fields: Vec<String> = fields
+        .iter()
+        .map(|field| {
+            // Use default value if available, otherwise generate placeholder
+            let value = field
+                .default_value
+                .clone()
+                .unwrap_or_else(|| generate_placeholder(&field.schema));
+            format!("{} {}", write_field_name(&field.name), value)
+        })
+        .collect();
 
-    result
+    format!(
+        "{}{}{}",
+        insertion.before,
+        fields.join(&insertion.between),
+        insertion.after
+    )
 }
 
 /// Generate a text edit to reorder fields to match schema order.
 /// Returns None if the fields are already in order or can't be reordered.
 fn generate_reorder_edit(
     tree: &Value,
-    schema_fields: &[crate::schema_validation::SchemaField],
+    schema_fields: &[SchemaField],
+    parse: &styx_cst::Parse,
     content: &str,
 ) -> Option<TextEdit> {
     let obj = tree.as_object()?;
@@ -3248,80 +3438,78 @@ fn generate_reorder_edit(
         .map(|(i, f)| (f.name.as_str(), i))
         .collect();
 
-    // Collect document entries with their positions
-    let mut doc_entries: Vec<(Option<usize>, &styx_tree::Entry)> = obj
-        .entries
-        .iter()
-        .map(|e| {
-            let order = e
-                .key
-                .as_str()
-                .and_then(|name| schema_order.get(name).copied());
-            (order, e)
-        })
-        .collect();
-
-    // Check if already in order
-    let current_order: Vec<Option<usize>> = doc_entries.iter().map(|(o, _)| *o).collect();
-    let mut sorted_order = current_order.clone();
-    sorted_order.sort_by(|a, b| match (a, b) {
-        (Some(x), Some(y)) => x.cmp(y),
-        (Some(_), None) => std::cmp::Ordering::Less,
-        (None, Some(_)) => std::cmp::Ordering::Greater,
-        (None, None) => std::cmp::Ordering::Equal,
-    });
-
-    if current_order == sorted_order {
+    // The @ or @schema declaration first, then by schema order, unknown fields last
+    let rank = |entry: &styx_tree::Entry| {
+        if entry.key.is_unit() || entry.key.is_schema_tag() {
+            return (0, 0);
+        }
+        match entry.key.as_str().and_then(|name| schema_order.get(name)) {
+            Some(order) => (1, *order),
+            None => (2, 0),
+        }
+    };
+    let mut order: Vec<usize> = (0..obj.entries.len()).collect();
+    order.sort_by_key(|i| rank(&obj.entries[*i]));
+    if order.is_sorted() {
         return None; // Already in order
     }
 
-    // Sort entries by schema order (keep @ declaration first, unknowns last)
-    doc_entries.sort_by(|(a_order, a_entry), (b_order, b_entry)| {
-        // @ declaration always first
-        if a_entry.key.is_unit() {
-            return std::cmp::Ordering::Less;
-        }
-        if b_entry.key.is_unit() {
-            return std::cmp::Ordering::Greater;
-        }
-        // Then by schema order
-        match (a_order, b_order) {
-            (Some(x), Some(y)) => x.cmp(y),
-            (Some(_), None) => std::cmp::Ordering::Less,
-            (None, Some(_)) => std::cmp::Ordering::Greater,
-            (None, None) => std::cmp::Ordering::Equal,
-        }
+    // Each field moves together with its line(s) and the comments above and behind it
+    let node = find_object_node(parse, content, obj.span, true)?;
+    let ranges = entry_ranges(&node);
+    if ranges.len() != obj.entries.len() {
+        return None;
+    }
+    let braced = node.kind() == styx_cst::SyntaxKind::OBJECT;
+    let node_range = node.text_range();
+    let inner_start = usize::from(node_range.start()) + usize::from(braced);
+    let inner_end = usize::from(node_range.end()) - usize::from(braced);
+    let next_line = |gap: std::ops::Range<usize>| {
+        let newline = content[gap.clone()].find('\n')?;
+        Some(gap.start + newline + 1)
+    };
+
+    // Where the lines of each field start, and where the last one's end
+    let mut bounds = Vec::new();
+    let mut leading = inner_start..ranges.first()?.start;
+    if braced {
+        leading.start = next_line(leading.clone())?;
+    }
+    // Comments separated from the first field by an empty line belong to the document
+    let lead = &content[leading.clone()];
+    let header = ["\n\n", "\n\r\n"]
+        .iter()
+        .filter_map(|blank| lead.rfind(blank).map(|i| i + blank.len()))
+        .max()
+        .filter(|end| !lead[..*end].contains("///"))
+        .unwrap_or(0);
+    bounds.push(leading.start + header);
+    for pair in ranges.windows(2) {
+        bounds.push(next_line(pair[0].end..pair[1].start)?);
+    }
+    let last_end = ranges.last()?.end;
+    bounds.push(match next_line(last_end..inner_end) {
+        Some(end) => end,
+        None if braced => return None,
+        None => inner_end,
     });
 
-    // Regenerate the document content, preserving original entry text
     let mut new_content = String::new();
-
-    for (i, (_, entry)) in doc_entries.iter().enumerate() {
-        if i > 0 {
+    for i in order {
+        new_content.push_str(&content[bounds[i]..bounds[i + 1]]);
+        if !new_content.ends_with('\n') {
             new_content.push('\n');
         }
-
-        // Get the full entry text from the original source (key + value)
-        // by using the key's start and value's end
-        if let (Some(key_span), Some(val_span)) = (entry.key.span, entry.value.span) {
-            // Find the start of the line to preserve indentation
-            let key_start = key_span.start as usize;
-            let line_start = content[..key_start].rfind('\n').map(|i| i + 1).unwrap_or(0);
-            let indent = &content[line_start..key_start];
-
-            new_content.push_str(indent);
-            new_content.push_str(&content[key_start..val_span.end as usize]);
-        }
     }
-
-    // Find the range of the entire document content (excluding leading/trailing whitespace)
-    let start_offset = obj.span?.start as usize;
-    let end_offset = obj.span?.end as usize;
+    let (start, end) = (bounds[0], *bounds.last()?);
+    if !content[start..end].ends_with('\n') {
+        new_content.truncate(new_content.trim_end_matches(['\r', '\n']).len());
+    }
 
     Some(TextEdit {
         range: Range {
-            start: offset_to_position(content, start_offset),
-            end: offset_to_position(content, end_offset),
+            start: offset_to_position(content, start),
+            end: offset_to_position(content, end),
         },
         new_text: new_content,
     })
-- 
2.43.0


From 2a52a5f95700c270a1d61680bd4f1ac86b8de1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:52 +0000
Subject: [PATCH 54/64] fix: point parse error reports at the right characters,
 and respect NO_COLOR

---
 crates/styx-tree/src/diagnostic.rs | 49 +++++++++++++++++++++++++++---
 1 file changed, 45 insertions(+), 4 deletions(-)

diff --git a/crates/styx-tree/src/diagnostic.rs b/crates/styx-tree/src/diagnostic.rs
index 84d93da..8230714 100644
--- a/crates/styx-tree/src/diagnostic.rs
+++ b/crates/styx-tree/src/diagnostic.rs
@@ -1,8 +1,29 @@
 //! Diagnostic rendering for parser errors.
 
-use ariadne::{Color, Label, Report, ReportKind, Source};
+use ariadne::{Color, Config, Label, Report, ReportKind, Source};
 use styx_parse::{ParseErrorKind, Span};
 
+/// Get ariadne config, respecting NO_COLOR env var.
+fn ariadne_config() -> Config {
+    let no_color = std::env::var("NO_COLOR").is_ok();
+    if no_color {
+        Config::default().with_color(false)
+    } else {
+        Config::default()
+    }
+}
+
+/// Convert a span (in bytes) to the range of characters ariadne counts in.
+fn char_range(source: &str, span: Span) -> std::ops::Range<usize> {
+    let chars = |offset: u32| {
+        source
+            .char_indices()
+            .take_while(|(at, _)| *at < offset as usize)
+            .count()
+    };
+    chars(span.start)..chars(span.end)
+}
+
 /// A parser error with source location.
 #[derive(Debug, Clone)]
 pub struct ParseError {
@@ -29,7 +50,7 @@ impl ParseError {
 
     /// Write the error report to a writer.
     pub fn write_report<W: std::io::Write>(&self, filename: &str, source: &str, writer: W) {
-        let report = self.build_report(filename);
+        let report = self.build_report(filename, source);
         let _ = report
             .finish()
             .write((filename, Source::from(source)), writer);
@@ -38,14 +59,18 @@ impl ParseError {
     fn build_report<'a>(
         &self,
         filename: &'a str,
+        source: &str,
     ) -> ariadne::ReportBuilder<'static, (&'a str, std::ops::Range<usize>)> {
-        let range = self.span.start as usize..self.span.end as usize;
+        let range = char_range(source, self.span);
+        // The config must be applied before adding labels: they take their color from it.
+        let config = ariadne_config();
 
         match &self.kind {
             // diag[impl diagnostic.parser.duplicate-key]
             ParseErrorKind::DuplicateKey { original } => {
-                let original_range = original.start as usize..original.end as usize;
+                let original_range = char_range(source, *original);
                 Report::build(ReportKind::Error, (filename, range.clone()))
+                    .with_config(config)
                     .with_message("duplicate key")
                     .with_label(
                         Label::new((filename, original_range))
@@ -62,6 +87,7 @@ impl ParseError {
 
             // diag[impl diagnostic.parser.unclosed]
             ParseErrorKind::UnclosedObject => Report::build(ReportKind::Error, (filename, range.clone()))
+                .with_config(config)
                 .with_message("unclosed object")
                 .with_label(
                     Label::new((filename, range))
@@ -72,6 +98,7 @@ impl ParseError {
 
             // diag[impl diagnostic.parser.unclosed]
             ParseErrorKind::UnclosedSequence => Report::build(ReportKind::Error, (filename, range.clone()))
+                .with_config(config)
                 .with_message("unclosed sequence")
                 .with_label(
                     Label::new((filename, range))
@@ -82,6 +109,7 @@ impl ParseError {
 
             // diag[impl diagnostic.parser.escape]
             ParseErrorKind::InvalidEscape(seq) => Report::build(ReportKind::Error, (filename, range.clone()))
+                .with_config(config)
                 .with_message(format!("invalid escape sequence '{}'", seq))
                 .with_label(
                     Label::new((filename, range))
@@ -92,6 +120,7 @@ impl ParseError {
 
             // diag[impl diagnostic.parser.unexpected]
             ParseErrorKind::UnexpectedToken => Report::build(ReportKind::Error, (filename, range.clone()))
+                .with_config(config)
                 .with_message("unexpected token")
                 .with_label(
                     Label::new((filename, range))
@@ -100,6 +129,7 @@ impl ParseError {
                 ),
 
             ParseErrorKind::ExpectedKey => Report::build(ReportKind::Error, (filename, range.clone()))
+                .with_config(config)
                 .with_message("expected key")
                 .with_label(
                     Label::new((filename, range))
@@ -108,6 +138,7 @@ impl ParseError {
                 ),
 
             ParseErrorKind::ExpectedValue => Report::build(ReportKind::Error, (filename, range.clone()))
+                .with_config(config)
                 .with_message("expected value")
                 .with_label(
                     Label::new((filename, range))
@@ -116,6 +147,7 @@ impl ParseError {
                 ),
 
             ParseErrorKind::UnexpectedEof => Report::build(ReportKind::Error, (filename, range.clone()))
+                .with_config(config)
                 .with_message("unexpected end of input")
                 .with_label(
                     Label::new((filename, range))
@@ -124,6 +156,7 @@ impl ParseError {
                 ),
 
             ParseErrorKind::InvalidTagName => Report::build(ReportKind::Error, (filename, range.clone()))
+                .with_config(config)
                 .with_message("invalid tag name")
                 .with_label(
                     Label::new((filename, range))
@@ -133,6 +166,7 @@ impl ParseError {
                 .with_help("tag names must match @[A-Za-z_][A-Za-z0-9_.-]*"),
 
             ParseErrorKind::InvalidKey => Report::build(ReportKind::Error, (filename, range.clone()))
+                .with_config(config)
                 .with_message("invalid key")
                 .with_label(
                     Label::new((filename, range))
@@ -142,6 +176,7 @@ impl ParseError {
                 .with_help("keys must be scalars or unit, optionally tagged (no objects, sequences, or heredocs)"),
 
             ParseErrorKind::DanglingDocComment => Report::build(ReportKind::Error, (filename, range.clone()))
+                .with_config(config)
                 .with_message("dangling doc comment")
                 .with_label(
                     Label::new((filename, range))
@@ -152,6 +187,7 @@ impl ParseError {
 
             // diag[impl diagnostic.parser.toomany]
             ParseErrorKind::TooManyAtoms => Report::build(ReportKind::Error, (filename, range.clone()))
+                .with_config(config)
                 .with_message("unexpected atom after value")
                 .with_label(
                     Label::new((filename, range))
@@ -164,6 +200,7 @@ impl ParseError {
             ParseErrorKind::ReopenedPath { closed_path } => {
                 let path_str = closed_path.join(".");
                 Report::build(ReportKind::Error, (filename, range.clone()))
+                    .with_config(config)
                     .with_message(format!("cannot reopen path `{}`", path_str))
                     .with_label(
                         Label::new((filename, range))
@@ -177,6 +214,7 @@ impl ParseError {
             ParseErrorKind::NestIntoTerminal { terminal_path } => {
                 let path_str = terminal_path.join(".");
                 Report::build(ReportKind::Error, (filename, range.clone()))
+                    .with_config(config)
                     .with_message(format!("cannot nest into `{}`", path_str))
                     .with_label(
                         Label::new((filename, range))
@@ -188,6 +226,7 @@ impl ParseError {
 
             // diag[impl diagnostic.parser.sequence-comma]
             ParseErrorKind::CommaInSequence => Report::build(ReportKind::Error, (filename, range.clone()))
+                .with_config(config)
                 .with_message("unexpected comma in sequence")
                 .with_label(
                     Label::new((filename, range))
@@ -198,6 +237,7 @@ impl ParseError {
 
             // diag[impl diagnostic.parser.missing-whitespace]
             ParseErrorKind::MissingWhitespaceBeforeBlock => Report::build(ReportKind::Error, (filename, range.clone()))
+                .with_config(config)
                 .with_message("missing whitespace before block")
                 .with_label(
                     Label::new((filename, range))
@@ -207,6 +247,7 @@ impl ParseError {
                 .with_help("bare keys must be separated from `{` or `(` by whitespace (to distinguish from tags like `@tag{}`)"),
 
             ParseErrorKind::TrailingContent => Report::build(ReportKind::Error, (filename, range.clone()))
+                .with_config(config)
                 .with_message("trailing content after explicit root object")
                 .with_label(
                     Label::new((filename, range))
-- 
2.43.0


From 0851e94e0393d59806d9555009c08504ac8a5b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:52 +0000
Subject: [PATCH 55/64] fix: point deserialization and validation reports at
 the right characters, and keep them plain under NO_COLOR

---
 crates/facet-styx/src/error.rs        | 19 +++++++++++---
 crates/facet-styx/src/schema_error.rs | 38 ++++++++++++++++++---------
 2 files changed, 41 insertions(+), 16 deletions(-)

diff --git a/crates/facet-styx/src/error.rs b/crates/facet-styx/src/error.rs
index 97bd380..417c257 100644
--- a/crates/facet-styx/src/error.rs
+++ b/crates/facet-styx/src/error.rs
@@ -4,7 +4,7 @@ use ariadne::{Color, Config, Label, Report, ReportKind, Source};
 use facet_format::{DeserializeError, DeserializeErrorKind};
 
 /// Get ariadne config, respecting NO_COLOR env var.
-fn ariadne_config() -> Config {
+pub(crate) fn ariadne_config() -> Config {
     let no_color = std::env::var("NO_COLOR").is_ok();
     if no_color {
         Config::default().with_color(false)
@@ -13,6 +13,17 @@ fn ariadne_config() -> Config {
     }
 }
 
+/// Convert a range of bytes to the range of characters ariadne counts in.
+pub(crate) fn char_range(source: &str, bytes: std::ops::Range<usize>) -> std::ops::Range<usize> {
+    let chars = |offset: usize| {
+        source
+            .char_indices()
+            .take_while(|(at, _)| *at < offset)
+            .count()
+    };
+    chars(bytes.start)..chars(bytes.end)
+}
+
 /// Convert a facet_reflect::Span to a Range<usize>.
 fn reflect_span_to_range(span: &facet_reflect::Span) -> std::ops::Range<usize> {
     let start = span.offset as usize;
@@ -63,7 +74,8 @@ fn build_deserialize_error_report<'a>(
         .span
         .as_ref()
         .map(reflect_span_to_range)
-        .unwrap_or(0..source.len().max(1));
+        .unwrap_or(0..source.len());
+    let range = char_range(source, range);
 
     match &err.kind {
         // Missing field from facet-format
@@ -126,7 +138,8 @@ fn build_deserialize_error_report<'a>(
 
         // Unexpected EOF
         DeserializeErrorKind::UnexpectedEof { expected } => {
-            let eof_range = source.len().saturating_sub(1)..source.len().max(1);
+            let eof_range = char_range(source, source.len()..source.len());
+            let eof_range = eof_range.start.saturating_sub(1)..eof_range.end;
             Report::build(ReportKind::Error, (filename, eof_range.clone()))
                 .with_config(config)
                 .with_message("unexpected end of input")
diff --git a/crates/facet-styx/src/schema_error.rs b/crates/facet-styx/src/schema_error.rs
index e81aaf9..2b37f09 100644
--- a/crates/facet-styx/src/schema_error.rs
+++ b/crates/facet-styx/src/schema_error.rs
@@ -1,17 +1,9 @@
 //! Validation error types.
 
-use ariadne::{Color, Config, Label, Report, ReportKind, Source};
+use ariadne::{Color, Label, Report, ReportKind, Source};
 use styx_parse::Span;
 
-/// Get ariadne config, respecting NO_COLOR env var.
-fn ariadne_config() -> Config {
-    let no_color = std::env::var("NO_COLOR").is_ok();
-    if no_color {
-        Config::default().with_color(false)
-    } else {
-        Config::default()
-    }
-}
+use crate::error::{ariadne_config, char_range};
 
 /// Result of validating a document against a schema.
 #[derive(Debug, Clone)]
@@ -163,9 +155,8 @@ impl ValidationError {
 
     /// Write the error report to a writer.
     pub fn write_report<W: std::io::Write>(&self, filename: &str, source: &str, writer: W) {
-        let report = self.build_report(filename);
+        let report = self.build_report(filename, source);
         let _ = report
-            .with_config(ariadne_config())
             .finish()
             .write((filename, Source::from(source)), writer);
     }
@@ -174,11 +165,15 @@ impl ValidationError {
     fn build_report<'a>(
         &self,
         filename: &'a str,
+        source: &str,
     ) -> ariadne::ReportBuilder<'static, (&'a str, std::ops::Range<usize>)> {
         let range = self
             .span
             .map(|s| s.start as usize..s.end as usize)
             .unwrap_or(0..1);
+        let range = char_range(source, range);
+        // The config must be applied before adding labels: they take their color from it.
+        let config = ariadne_config();
 
         let path_info = if self.path.is_empty() {
             String::new()
@@ -189,6 +184,7 @@ impl ValidationError {
         match &self.kind {
             ValidationErrorKind::MissingField { field } => {
                 Report::build(ReportKind::Error, (filename, range.clone()))
+                    .with_config(config)
                     .with_message(format!("missing required field '{}'", field))
                     .with_label(
                         Label::new((filename, range))
@@ -204,6 +200,7 @@ impl ValidationError {
                 suggestion,
             } => {
                 let mut builder = Report::build(ReportKind::Error, (filename, range.clone()))
+                    .with_config(config)
                     .with_message(format!("unknown field '{}'", field))
                     .with_label(
                         Label::new((filename, range.clone()))
@@ -225,6 +222,7 @@ impl ValidationError {
 
             ValidationErrorKind::TypeMismatch { expected, got } => {
                 Report::build(ReportKind::Error, (filename, range.clone()))
+                    .with_config(config)
                     .with_message(format!("type mismatch{}", path_info))
                     .with_label(
                         Label::new((filename, range))
@@ -235,6 +233,7 @@ impl ValidationError {
 
             ValidationErrorKind::InvalidValue { reason } => {
                 Report::build(ReportKind::Error, (filename, range.clone()))
+                    .with_config(config)
                     .with_message(format!("invalid value{}", path_info))
                     .with_label(
                         Label::new((filename, range))
@@ -245,6 +244,7 @@ impl ValidationError {
 
             ValidationErrorKind::UnknownType { name } => {
                 Report::build(ReportKind::Error, (filename, range.clone()))
+                    .with_config(config)
                     .with_message(format!("unknown type '{}'", name))
                     .with_label(
                         Label::new((filename, range))
@@ -256,6 +256,7 @@ impl ValidationError {
             ValidationErrorKind::InvalidVariant { expected, got } => {
                 let expected_list = expected.join(", ");
                 Report::build(ReportKind::Error, (filename, range.clone()))
+                    .with_config(config)
                     .with_message(format!("invalid enum variant '@{}'", got))
                     .with_label(
                         Label::new((filename, range))
@@ -267,6 +268,7 @@ impl ValidationError {
             ValidationErrorKind::UnionMismatch { tried } => {
                 let tried_list = tried.join(", ");
                 Report::build(ReportKind::Error, (filename, range.clone()))
+                    .with_config(config)
                     .with_message(format!(
                         "value doesn't match any union variant{}",
                         path_info
@@ -280,6 +282,7 @@ impl ValidationError {
 
             ValidationErrorKind::ExpectedObject => {
                 Report::build(ReportKind::Error, (filename, range.clone()))
+                    .with_config(config)
                     .with_message(format!("expected object{}", path_info))
                     .with_label(
                         Label::new((filename, range))
@@ -290,6 +293,7 @@ impl ValidationError {
 
             ValidationErrorKind::ExpectedSequence => {
                 Report::build(ReportKind::Error, (filename, range.clone()))
+                    .with_config(config)
                     .with_message(format!("expected sequence{}", path_info))
                     .with_label(
                         Label::new((filename, range))
@@ -300,6 +304,7 @@ impl ValidationError {
 
             ValidationErrorKind::ExpectedScalar => {
                 Report::build(ReportKind::Error, (filename, range.clone()))
+                    .with_config(config)
                     .with_message(format!("expected scalar value{}", path_info))
                     .with_label(
                         Label::new((filename, range))
@@ -310,6 +315,7 @@ impl ValidationError {
 
             ValidationErrorKind::ExpectedTagged => {
                 Report::build(ReportKind::Error, (filename, range.clone()))
+                    .with_config(config)
                     .with_message(format!("expected tagged value{}", path_info))
                     .with_label(
                         Label::new((filename, range))
@@ -320,6 +326,7 @@ impl ValidationError {
 
             ValidationErrorKind::WrongTag { expected, got } => {
                 Report::build(ReportKind::Error, (filename, range.clone()))
+                    .with_config(config)
                     .with_message(format!("wrong tag{}", path_info))
                     .with_label(
                         Label::new((filename, range))
@@ -330,6 +337,7 @@ impl ValidationError {
 
             ValidationErrorKind::SchemaError { reason } => {
                 Report::build(ReportKind::Error, (filename, range.clone()))
+                    .with_config(config)
                     .with_message("schema error")
                     .with_label(
                         Label::new((filename, range))
@@ -428,10 +436,14 @@ impl ValidationWarning {
             .span
             .map(|s| s.start as usize..s.end as usize)
             .unwrap_or(0..1);
+        let range = char_range(source, range);
+        // The config must be applied before adding labels: they take their color from it.
+        let config = ariadne_config();
 
         let report = match &self.kind {
             ValidationWarningKind::Deprecated { reason } => {
                 Report::build(ReportKind::Warning, (filename, range.clone()))
+                    .with_config(config)
                     .with_message("deprecated")
                     .with_label(
                         Label::new((filename, range))
@@ -441,6 +453,7 @@ impl ValidationWarning {
             }
             ValidationWarningKind::IgnoredField { field } => {
                 Report::build(ReportKind::Warning, (filename, range.clone()))
+                    .with_config(config)
                     .with_message(format!("field '{}' will be ignored", field))
                     .with_label(
                         Label::new((filename, range))
@@ -451,7 +464,6 @@ impl ValidationWarning {
         };
 
         let _ = report
-            .with_config(ariadne_config())
             .finish()
             .write((filename, Source::from(source)), writer);
     }
-- 
2.43.0


From a59e3fe4d9eb37c878ffc8cb3387c390cab2ed09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:04 +0000
Subject: [PATCH 56/64] fix: report invalid variants and payloads where they
 are

---
 crates/facet-styx/src/schema_validate.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/facet-styx/src/schema_validate.rs b/crates/facet-styx/src/schema_validate.rs
index f2adbfd..a0eaa30 100644
--- a/crates/facet-styx/src/schema_validate.rs
+++ b/crates/facet-styx/src/schema_validate.rs
@@ -928,7 +928,7 @@ impl<'a> Validator<'a> {
         let payload_value = value.payload.as_ref().map(|p| Value {
             tag: None,
             payload: Some(p.clone()),
-            span: None,
+            span: value.span,
         });
 
         let mut expected_variants: Vec<String> = schema.0.keys().map(|k| k.value.clone()).collect();
@@ -980,7 +980,7 @@ impl<'a> Validator<'a> {
                             expected_variants.join(", ")
                         ),
                     )
-                    .with_span(value.span),
+                    .with_span(value.tag.as_ref().and_then(|t| t.span).or(value.span)),
                 );
             }
         }
-- 
2.43.0


From 6cc2c4f34f6ec21ea9fb97729c724015f99054dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:09 +0000
Subject: [PATCH 57/64] fix: generate Go that compiles, the same for the same
 schema

Definitions and references use the same Go name, named types that are not
objects are defined, names become unique valid exported identifiers, strings
and tags are quoted, @map(@V) has @V as its values, @deprecated is looked
through, integer bounds fit int64, and nothing depends on the order of a hash
map.
---
 crates/styx-gen-go/src/lib.rs   | 117 +++++++++++---------
 crates/styx-gen-go/src/types.rs | 187 ++++++++++++++++++++++++--------
 2 files changed, 208 insertions(+), 96 deletions(-)

diff --git a/crates/styx-gen-go/src/lib.rs b/crates/styx-gen-go/src/lib.rs
index 9cc1eca..416662e 100644
--- a/crates/styx-gen-go/src/lib.rs
+++ b/crates/styx-gen-go/src/lib.rs
@@ -15,13 +15,16 @@ use types::{GoType, TypeMapper};
 pub fn generate(schema: &SchemaFile, package_name: &str, output_dir: &str) -> Result<(), GenError> {
     let mut mapper = TypeMapper::new();
 
-    // Collect all type definitions from the schema
-    for (name_opt, schema_type) in &schema.schema {
-        let type_name = match name_opt {
-            Some(name) => name.clone(),
-            None => "Root".to_string(), // Root type gets default name
-        };
-        mapper.register_type(&type_name, schema_type)?;
+    // Collect all type definitions from the schema; it is unordered, the code is not
+    let mut schema_types: Vec<_> = schema.schema.iter().collect();
+    schema_types.sort_by(|(a, _), (b, _)| a.cmp(b));
+    for (name, _) in &schema_types {
+        if let Some(name) = name {
+            mapper.declare_type(name);
+        }
+    }
+    for (name, schema_type) in schema_types {
+        mapper.register_type(name.as_deref(), schema_type)?;
     }
 
     // Generate the main types file
@@ -87,13 +90,22 @@ fn generate_type_definition(
                         writeln!(out, "\t// {}", line)?;
                     }
                 }
-                let tags = format!(
-                    "`json:\"{}{}\" styx:\"{}{}\"`",
+                let json = format!(
+                    "{}{}",
                     field.json_name,
-                    if field.optional { ",omitempty" } else { "" },
+                    if field.optional { ",omitempty" } else { "" }
+                );
+                let styx = format!(
+                    "{}{}",
                     field.styx_name,
                     if field.optional { ",optional" } else { "" }
                 );
+                let tags = format!("json:{} styx:{}", go_string(&json), go_string(&styx));
+                let tags = if tags.contains('`') {
+                    go_string(&tags)
+                } else {
+                    format!("`{tags}`")
+                };
                 writeln!(out, "\t{} {} {}", field.go_name, field.type_name, tags)?;
             }
             writeln!(out, "}}")?;
@@ -108,17 +120,22 @@ fn generate_type_definition(
             writeln!(out)?;
             writeln!(out, "const (")?;
             for variant in variants {
-                let const_name = format!("{}{}", name, to_pascal_case(&variant.name));
                 if let Some(doc) = &variant.doc {
                     for line in doc.lines() {
                         writeln!(out, "\t// {}", line)?;
                     }
                 }
-                writeln!(out, "\t{} {} = \"{}\"", const_name, name, variant.name)?;
+                writeln!(
+                    out,
+                    "\t{} {} = {}",
+                    variant.go_name,
+                    name,
+                    go_string(&variant.name)
+                )?;
             }
             writeln!(out, ")")?;
         }
-        _ => {}
+        GoType::Primitive(definition) => writeln!(out, "type {} {}", name, definition)?,
     }
     Ok(())
 }
@@ -357,39 +374,31 @@ fn generate_parse_file(
     writeln!(out)?;
     writeln!(out, "package {}", package_name)?;
     writeln!(out)?;
-    writeln!(out, "import (")?;
-    writeln!(out, "\t\"os\"")?;
-    writeln!(out)?;
-    writeln!(
-        out,
-        "\tstyx \"github.com/bearcove/styx/implementations/styx-go\""
-    )?;
-    writeln!(out, ")")?;
-    writeln!(out)?;
-
     // Find the root type - should be "Root" which is the default name for the @ type
-    let root_type = mapper
-        .types()
-        .get("Root")
-        .and_then(|go_type| {
-            if matches!(go_type, GoType::Struct { .. }) {
-                Some("Root")
-            } else {
-                None
+    let mut root_type = Some("Root");
+    let mut steps = 0;
+    while let Some(name) = root_type {
+        root_type = match mapper.types().get(name) {
+            Some(GoType::Struct { .. }) => break,
+            // The root is another type
+            Some(GoType::Primitive(definition)) if steps < mapper.types().len() => {
+                Some(definition.as_str())
             }
-        })
-        .or_else(|| {
-            // Fallback: find any struct type if "Root" doesn't exist
-            mapper.types().iter().find_map(|(name, go_type)| {
-                if matches!(go_type, GoType::Struct { .. }) {
-                    Some(name.as_str())
-                } else {
-                    None
-                }
-            })
-        });
+            _ => None,
+        };
+        steps += 1;
+    }
 
     if let Some(root_type) = root_type {
+        writeln!(out, "import (")?;
+        writeln!(out, "\t\"os\"")?;
+        writeln!(out)?;
+        writeln!(
+            out,
+            "\tstyx \"github.com/bearcove/styx/implementations/styx-go\""
+        )?;
+        writeln!(out, ")")?;
+        writeln!(out)?;
         // LoadFromFile helper
         writeln!(
             out,
@@ -441,17 +450,19 @@ fn generate_parse_file(
     Ok(out)
 }
 
-fn to_pascal_case(s: &str) -> String {
-    s.split(['_', '-'])
-        .filter(|s| !s.is_empty())
-        .map(|word| {
-            let mut chars = word.chars();
-            match chars.next() {
-                None => String::new(),
-                Some(first) => first.to_uppercase().chain(chars).collect(),
-            }
-        })
-        .collect()
+/// A Go string literal.
+fn go_string(s: &str) -> String {
+    let mut out = String::from("\"");
+    for c in s.chars() {
+        match c {
+            '"' => out.push_str("\\\""),
+            '\\' => out.push_str("\\\\"),
+            c if c.is_control() || c == '\u{feff}' => out.push_str(&format!("\\u{:04x}", c as u32)),
+            c => out.push(c),
+        }
+    }
+    out.push('"');
+    out
 }
 
 impl From<std::fmt::Error> for GenError {
diff --git a/crates/styx-gen-go/src/types.rs b/crates/styx-gen-go/src/types.rs
index 8466740..9a5d495 100644
--- a/crates/styx-gen-go/src/types.rs
+++ b/crates/styx-gen-go/src/types.rs
@@ -2,7 +2,7 @@
 
 use crate::error::GenError;
 use facet_styx::Schema;
-use std::collections::HashMap;
+use std::collections::{BTreeMap, BTreeSet};
 
 /// A Go type representation.
 #[derive(Debug, Clone)]
@@ -55,6 +55,8 @@ pub struct FieldConstraints {
 /// An enum variant.
 #[derive(Debug, Clone)]
 pub struct EnumVariant {
+    /// Name of the Go constant
+    pub go_name: String,
     /// Variant name
     pub name: String,
     /// Variant documentation
@@ -63,25 +65,56 @@ pub struct EnumVariant {
 
 /// Maps Styx schema types to Go types.
 pub struct TypeMapper {
-    types: HashMap<String, GoType>,
+    types: BTreeMap<String, GoType>,
+    /// Go names of the types of the schema
+    names: BTreeMap<String, String>,
+    /// Top-level names that are taken
+    taken: BTreeSet<String>,
 }
 
 impl TypeMapper {
     pub fn new() -> Self {
+        let helpers = [
+            "ValidationError",
+            "ValidationErrors",
+            "LoadFromFile",
+            "Parse",
+            "Root",
+        ];
         Self {
-            types: HashMap::new(),
+            types: BTreeMap::new(),
+            names: BTreeMap::new(),
+            taken: helpers.map(String::from).into(),
         }
     }
 
-    /// Register a named type from the schema.
-    pub fn register_type(&mut self, name: &str, schema: &Schema) -> Result<(), GenError> {
-        let go_type = self.map_schema_type(Some(name), schema)?;
-        self.types.insert(name.to_string(), go_type);
+    /// Choose the Go name of a named type of the schema, before any type refers to it.
+    pub fn declare_type(&mut self, name: &str) {
+        let go_name = unique_name(to_pascal_case(name), &mut self.taken);
+        self.names.insert(name.to_string(), go_name);
+    }
+
+    /// Register a type from the schema; the root type has no name.
+    pub fn register_type(&mut self, name: Option<&str>, schema: &Schema) -> Result<(), GenError> {
+        let go_name = match name {
+            Some(name) => self.go_type_name(name),
+            None => "Root".to_string(), // Root type gets default name
+        };
+        let go_type = self.map_schema_type(Some(&go_name), schema)?;
+        self.types.insert(go_name, go_type);
         Ok(())
     }
 
+    /// The Go name of a named type of the schema.
+    fn go_type_name(&self, name: &str) -> String {
+        match self.names.get(name) {
+            Some(go_name) => go_name.clone(),
+            None => to_pascal_case(name),
+        }
+    }
+
     /// Get all registered types.
-    pub fn types(&self) -> &HashMap<String, GoType> {
+    pub fn types(&self) -> &BTreeMap<String, GoType> {
         &self.types
     }
 
@@ -100,7 +133,11 @@ impl TypeMapper {
             Schema::Any => Ok(GoType::Primitive("interface{}".to_string())),
             Schema::Object(obj_schema) => {
                 let mut struct_fields = Vec::new();
-                for (documented_key, field_schema) in &obj_schema.0 {
+                let mut taken = BTreeSet::from(["Validate".to_string()]);
+                // The fields of a schema are unordered: keep the generated code stable
+                let mut fields: Vec<_> = obj_schema.0.iter().collect();
+                fields.sort_by(|(a, _), (b, _)| a.value().value.cmp(&b.value().value));
+                for (documented_key, field_schema) in fields {
                     let key = documented_key.value();
                     if let Some(field_name) = &key.value {
                         let field_doc = documented_key.doc.as_ref().map(|lines| {
@@ -110,8 +147,9 @@ impl TypeMapper {
                                 .collect::<Vec<_>>()
                                 .join(" ")
                         });
-                        let field =
+                        let mut field =
                             self.map_field(parent_name, field_name, field_schema, field_doc)?;
+                        field.go_name = unique_name(field.go_name, &mut taken);
                         struct_fields.push(field);
                     }
                 }
@@ -135,15 +173,19 @@ impl TypeMapper {
             }
             Schema::Map(map_schema) => {
                 let schemas = &map_schema.0;
-                let key_type = if schemas.is_empty() {
-                    "string".to_string()
-                } else {
-                    self.type_name(parent_name, schemas[0].value())?
+                // @map(@V) is short for @map(@string @V)
+                let (key, value) = match schemas.as_slice() {
+                    [] => (None, None),
+                    [value] => (None, Some(value)),
+                    [key, value, ..] => (Some(key), Some(value)),
                 };
-                let value_type = if schemas.len() < 2 {
-                    "interface{}".to_string()
-                } else {
-                    self.type_name(parent_name, schemas[1].value())?
+                let key_type = match key {
+                    Some(key) => self.type_name(parent_name, key.value())?,
+                    None => "string".to_string(),
+                };
+                let value_type = match value {
+                    Some(value) => self.type_name(parent_name, value.value())?,
+                    None => "interface{}".to_string(),
                 };
                 Ok(GoType::Primitive(format!(
                     "map[{}]{}",
@@ -151,10 +193,19 @@ impl TypeMapper {
                 )))
             }
             Schema::Enum(enum_schema) => {
-                let enum_variants = enum_schema
-                    .0
-                    .keys()
+                let mut documented_names: Vec<_> = enum_schema.0.keys().collect();
+                documented_names.sort_by(|a, b| a.value().cmp(b.value()));
+                let enum_variants = documented_names
+                    .into_iter()
                     .map(|documented_name| EnumVariant {
+                        go_name: unique_name(
+                            format!(
+                                "{}{}",
+                                parent_name.unwrap_or_default(),
+                                pascal_words(documented_name.value())
+                            ),
+                            &mut self.taken,
+                        ),
                         name: documented_name.value().clone(),
                         doc: documented_name.doc().map(|lines| {
                             lines
@@ -191,7 +242,7 @@ impl TypeMapper {
             Schema::Literal(_) => Ok(GoType::Primitive("string".to_string())),
             Schema::Type { name } => {
                 if let Some(n) = name {
-                    Ok(GoType::Primitive(to_pascal_case(n)))
+                    Ok(GoType::Primitive(self.go_type_name(n)))
                 } else {
                     Ok(GoType::Primitive("interface{}".to_string()))
                 }
@@ -207,7 +258,7 @@ impl TypeMapper {
         schema: &Schema,
         doc: Option<String>,
     ) -> Result<StructField, GenError> {
-        // Unwrap Default and Optional wrappers to find the core type
+        // Unwrap Default, Deprecated and Optional wrappers to find the core type
         let mut current = schema;
         let mut is_optional = false;
 
@@ -216,6 +267,9 @@ impl TypeMapper {
                 Schema::Default(default_schema) => {
                     current = default_schema.0.1.value();
                 }
+                Schema::Deprecated(depr_schema) => {
+                    current = depr_schema.0.1.value();
+                }
                 Schema::Optional(opt_schema) => {
                     is_optional = true;
                     current = opt_schema.0.0.value();
@@ -230,16 +284,14 @@ impl TypeMapper {
         let type_name = if matches!(inner_schema, Schema::Object(_)) {
             // Generate a type name for the nested object
             let nested_type_name = if let Some(parent) = parent_name {
-                format!("{}{}", parent, to_pascal_case(field_name))
+                format!("{}{}", parent, pascal_words(field_name))
             } else {
                 to_pascal_case(field_name)
             };
 
-            // Register the nested type if it doesn't exist yet
-            if !self.types.contains_key(&nested_type_name) {
-                let nested_type = self.map_schema_type(Some(&nested_type_name), inner_schema)?;
-                self.types.insert(nested_type_name.clone(), nested_type);
-            }
+            let nested_type_name = unique_name(nested_type_name, &mut self.taken);
+            let nested_type = self.map_schema_type(Some(&nested_type_name), inner_schema)?;
+            self.types.insert(nested_type_name.clone(), nested_type);
 
             nested_type_name
         } else {
@@ -278,8 +330,8 @@ impl TypeMapper {
                 ..Default::default()
             }),
             Schema::Int(constraints_opt) => constraints_opt.as_ref().map(|c| FieldConstraints {
-                min_int: c.min.map(|v| v as i64),
-                max_int: c.max.map(|v| v as i64),
+                min_int: c.min.map(clamp_to_i64),
+                max_int: c.max.map(clamp_to_i64),
                 ..Default::default()
             }),
             Schema::Float(constraints_opt) => constraints_opt.as_ref().map(|c| FieldConstraints {
@@ -315,15 +367,19 @@ impl TypeMapper {
             }
             Schema::Map(map_schema) => {
                 let schemas = &map_schema.0;
-                let key_type = if schemas.is_empty() {
-                    "string".to_string()
-                } else {
-                    self.type_name(_parent_name, schemas[0].value())?
+                // @map(@V) is short for @map(@string @V)
+                let (key, value) = match schemas.as_slice() {
+                    [] => (None, None),
+                    [value] => (None, Some(value)),
+                    [key, value, ..] => (Some(key), Some(value)),
                 };
-                let value_type = if schemas.len() < 2 {
-                    "interface{}".to_string()
-                } else {
-                    self.type_name(_parent_name, schemas[1].value())?
+                let key_type = match key {
+                    Some(key) => self.type_name(_parent_name, key.value())?,
+                    None => "string".to_string(),
+                };
+                let value_type = match value {
+                    Some(value) => self.type_name(_parent_name, value.value())?,
+                    None => "interface{}".to_string(),
                 };
                 Ok(format!("map[{}]{}", key_type, value_type))
             }
@@ -352,7 +408,7 @@ impl TypeMapper {
             Schema::Literal(_) => Ok("string".to_string()),
             Schema::Type { name } => {
                 if let Some(n) = name {
-                    Ok(to_pascal_case(n))
+                    Ok(self.go_type_name(n))
                 } else {
                     Ok("interface{}".to_string())
                 }
@@ -361,15 +417,60 @@ impl TypeMapper {
     }
 }
 
-fn to_pascal_case(s: &str) -> String {
-    s.split(['_', '-'])
+/// The value itself, or the nearest one Go's int64 has.
+fn clamp_to_i64(v: i128) -> i64 {
+    v.clamp(i64::MIN.into(), i64::MAX.into()) as i64
+}
+
+/// Whether a character surely is a letter or digit for Go; not all alphabetic ones are.
+fn fits_identifier(c: char) -> bool {
+    match c {
+        'a'..='z' | 'A'..='Z' | '0'..='9' => true,
+        // Latin, Greek, Cyrillic, kana, CJK and Hangul
+        '\u{c0}'..='\u{2af}'
+        | '\u{370}'..='\u{481}'
+        | '\u{3041}'..='\u{30fa}'
+        | '\u{4e00}'..='\u{9fef}'
+        | '\u{ac00}'..='\u{d7a3}' => c.is_alphabetic(),
+        _ => false,
+    }
+}
+
+/// The words of a name, each with a capital first letter.
+fn pascal_words(s: &str) -> String {
+    s.split(|c| !fits_identifier(c))
         .filter(|s| !s.is_empty())
         .map(|word| {
             let mut chars = word.chars();
             match chars.next() {
                 None => String::new(),
-                Some(first) => first.to_uppercase().chain(chars).collect(),
+                Some(first) => first
+                    .to_uppercase()
+                    .filter(|c| fits_identifier(*c))
+                    .chain(chars)
+                    .collect(),
             }
         })
         .collect()
 }
+
+/// An exported Go identifier for a name.
+pub(crate) fn to_pascal_case(s: &str) -> String {
+    let name = pascal_words(s);
+    if name.starts_with(char::is_uppercase) {
+        name
+    } else {
+        format!("X{name}")
+    }
+}
+
+/// The name, with a number if it is taken; takes it.
+fn unique_name(name: String, taken: &mut BTreeSet<String>) -> String {
+    let mut unique = name.clone();
+    let mut n = 2;
+    while !taken.insert(unique.clone()) {
+        unique = format!("{name}{n}");
+        n += 1;
+    }
+    unique
+}
-- 
2.43.0


From 33365f255968ce824fc992988fcdddac27019cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:09 +0000
Subject: [PATCH 58/64] fix: generated Go validation counts characters and
 reports what failed

Lengths are in characters as in the schema validator, messages no longer end
in %!(EXTRA ...), field names are quoted, and bounds that are not finite are
not emitted.
---
 crates/styx-gen-go/src/lib.rs | 74 +++++++++++++++++------------------
 1 file changed, 37 insertions(+), 37 deletions(-)

diff --git a/crates/styx-gen-go/src/lib.rs b/crates/styx-gen-go/src/lib.rs
index 416662e..952b842 100644
--- a/crates/styx-gen-go/src/lib.rs
+++ b/crates/styx-gen-go/src/lib.rs
@@ -150,6 +150,9 @@ fn generate_validation_file(mapper: &TypeMapper, package_name: &str) -> Result<S
     writeln!(out, "import (")?;
     writeln!(out, "\t\"fmt\"")?;
     writeln!(out, "\t\"strings\"")?;
+    if has_length_constraints(mapper) {
+        writeln!(out, "\t\"unicode/utf8\"")?;
+    }
     writeln!(out, ")")?;
     writeln!(out)?;
 
@@ -201,6 +204,19 @@ fn generate_validation_file(mapper: &TypeMapper, package_name: &str) -> Result<S
     Ok(out)
 }
 
+/// Whether any field has a constraint on its length.
+fn has_length_constraints(mapper: &TypeMapper) -> bool {
+    mapper.types().values().any(|go_type| match go_type {
+        GoType::Struct { fields, .. } => fields.iter().any(|field| {
+            field
+                .constraints
+                .as_ref()
+                .is_some_and(|c| c.min_length.is_some() || c.max_length.is_some())
+        }),
+        _ => false,
+    })
+}
+
 fn generate_validation_function(
     out: &mut String,
     type_name: &str,
@@ -216,7 +232,7 @@ fn generate_validation_function(
         if !field.optional && field.type_name.starts_with('*') {
             writeln!(out, "\tif v.{} == nil {{", field.go_name)?;
             writeln!(out, "\t\terrs = append(errs, &ValidationError{{")?;
-            writeln!(out, "\t\t\tField:   \"{}\",", field.styx_name)?;
+            writeln!(out, "\t\t\tField:   {},", go_string(&field.styx_name))?;
             writeln!(out, "\t\t\tMessage: \"required field is missing\",")?;
             writeln!(out, "\t\t}})")?;
             writeln!(out, "\t}}")?;
@@ -237,15 +253,15 @@ fn generate_validation_function(
                 };
                 writeln!(
                     out,
-                    "\t\tif len({}v.{}) < {} {{",
+                    "\t\tif utf8.RuneCountInString({}v.{}) < {} {{",
                     deref, field.go_name, min_len
                 )?;
                 writeln!(out, "\t\t\terrs = append(errs, &ValidationError{{")?;
-                writeln!(out, "\t\t\t\tField:   \"{}\",", field.styx_name)?;
+                writeln!(out, "\t\t\t\tField:   {},", go_string(&field.styx_name))?;
                 writeln!(
                     out,
-                    "\t\t\t\tMessage: fmt.Sprintf(\"length must be at least {}\", {}),",
-                    min_len, min_len
+                    "\t\t\t\tMessage: \"length must be at least {}\",",
+                    min_len
                 )?;
                 writeln!(out, "\t\t\t}})")?;
                 writeln!(out, "\t\t}}")?;
@@ -259,15 +275,15 @@ fn generate_validation_function(
                 };
                 writeln!(
                     out,
-                    "\t\tif len({}v.{}) > {} {{",
+                    "\t\tif utf8.RuneCountInString({}v.{}) > {} {{",
                     deref, field.go_name, max_len
                 )?;
                 writeln!(out, "\t\t\terrs = append(errs, &ValidationError{{")?;
-                writeln!(out, "\t\t\t\tField:   \"{}\",", field.styx_name)?;
+                writeln!(out, "\t\t\t\tField:   {},", go_string(&field.styx_name))?;
                 writeln!(
                     out,
-                    "\t\t\t\tMessage: fmt.Sprintf(\"length must be at most {}\", {}),",
-                    max_len, max_len
+                    "\t\t\t\tMessage: \"length must be at most {}\",",
+                    max_len
                 )?;
                 writeln!(out, "\t\t\t}})")?;
                 writeln!(out, "\t\t}}")?;
@@ -282,12 +298,8 @@ fn generate_validation_function(
                 };
                 writeln!(out, "\t\tif {}v.{} < {} {{", deref, field.go_name, min)?;
                 writeln!(out, "\t\t\terrs = append(errs, &ValidationError{{")?;
-                writeln!(out, "\t\t\t\tField:   \"{}\",", field.styx_name)?;
-                writeln!(
-                    out,
-                    "\t\t\t\tMessage: fmt.Sprintf(\"must be at least {}\", {}),",
-                    min, min
-                )?;
+                writeln!(out, "\t\t\t\tField:   {},", go_string(&field.styx_name))?;
+                writeln!(out, "\t\t\t\tMessage: \"must be at least {}\",", min)?;
                 writeln!(out, "\t\t\t}})")?;
                 writeln!(out, "\t\t}}")?;
             }
@@ -300,49 +312,37 @@ fn generate_validation_function(
                 };
                 writeln!(out, "\t\tif {}v.{} > {} {{", deref, field.go_name, max)?;
                 writeln!(out, "\t\t\terrs = append(errs, &ValidationError{{")?;
-                writeln!(out, "\t\t\t\tField:   \"{}\",", field.styx_name)?;
-                writeln!(
-                    out,
-                    "\t\t\t\tMessage: fmt.Sprintf(\"must be at most {}\", {}),",
-                    max, max
-                )?;
+                writeln!(out, "\t\t\t\tField:   {},", go_string(&field.styx_name))?;
+                writeln!(out, "\t\t\t\tMessage: \"must be at most {}\",", max)?;
                 writeln!(out, "\t\t\t}})")?;
                 writeln!(out, "\t\t}}")?;
             }
 
             // Float constraints
-            if let Some(min) = constraints.min_float {
+            if let Some(min) = constraints.min_float.filter(|v| v.is_finite()) {
                 let deref = if field.type_name.starts_with('*') {
                     "*"
                 } else {
                     ""
                 };
-                writeln!(out, "\t\tif {}v.{} < {} {{", deref, field.go_name, min)?;
+                writeln!(out, "\t\tif {}v.{} < {:?} {{", deref, field.go_name, min)?;
                 writeln!(out, "\t\t\terrs = append(errs, &ValidationError{{")?;
-                writeln!(out, "\t\t\t\tField:   \"{}\",", field.styx_name)?;
-                writeln!(
-                    out,
-                    "\t\t\t\tMessage: fmt.Sprintf(\"must be at least {}\", {}),",
-                    min, min
-                )?;
+                writeln!(out, "\t\t\t\tField:   {},", go_string(&field.styx_name))?;
+                writeln!(out, "\t\t\t\tMessage: \"must be at least {}\",", min)?;
                 writeln!(out, "\t\t\t}})")?;
                 writeln!(out, "\t\t}}")?;
             }
 
-            if let Some(max) = constraints.max_float {
+            if let Some(max) = constraints.max_float.filter(|v| v.is_finite()) {
                 let deref = if field.type_name.starts_with('*') {
                     "*"
                 } else {
                     ""
                 };
-                writeln!(out, "\t\tif {}v.{} > {} {{", deref, field.go_name, max)?;
+                writeln!(out, "\t\tif {}v.{} > {:?} {{", deref, field.go_name, max)?;
                 writeln!(out, "\t\t\terrs = append(errs, &ValidationError{{")?;
-                writeln!(out, "\t\t\t\tField:   \"{}\",", field.styx_name)?;
-                writeln!(
-                    out,
-                    "\t\t\t\tMessage: fmt.Sprintf(\"must be at most {}\", {}),",
-                    max, max
-                )?;
+                writeln!(out, "\t\t\t\tField:   {},", go_string(&field.styx_name))?;
+                writeln!(out, "\t\t\t\tMessage: \"must be at most {}\",", max)?;
                 writeln!(out, "\t\t\t}})")?;
                 writeln!(out, "\t\t}}")?;
             }
-- 
2.43.0


From bd579729a5d1bf5c14dd1cb00c433285edc5eaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:48 +0000
Subject: [PATCH 59/64] fix: styx-js reads documents as the reference
 implementation does

Nested objects expand dotted keys and check paths as the root does, an entry is a key
and at most one value, a key alone before a comma has the unit value, an explicit root's
entries are the document's, keys of any form can be duplicates, attributes nest and are
unique, a unit may stand directly before another value, and quoted strings may span lines.
A stray `}`, a dangling doc comment, a block right after a bare key, white space after an
attribute's `>`, other white space, a leading `=`, malformed unicode escapes, raw string and
heredoc openings are errors; a CRLF may follow a heredoc.
---
 implementations/styx-js/src/lexer.ts  |  91 ++++---
 implementations/styx-js/src/parser.ts | 355 +++++++-------------------
 2 files changed, 153 insertions(+), 293 deletions(-)

diff --git a/implementations/styx-js/src/lexer.ts b/implementations/styx-js/src/lexer.ts
index 1f8ac6a..234d4f9 100644
--- a/implementations/styx-js/src/lexer.ts
+++ b/implementations/styx-js/src/lexer.ts
@@ -24,15 +24,22 @@ export interface Token {
   hadWhitespaceBefore: boolean;
   /** True if there was a newline before this token */
   hadNewlineBefore: boolean;
+  /** The last doc comment (`///`) before this token */
+  docCommentBefore?: Span;
+  /** True if that doc comment is on a line of its own */
+  docCommentOnOwnLine?: boolean;
 }
 
-const SPECIAL_CHARS = new Set(["{", "}", "(", ")", ",", '"', ">", " ", "\t", "\n", "\r"]);
+/** What ends a bare scalar: any white space, and characters with a meaning of their own */
+const SPECIAL_CHAR = /[{}(),">\p{White_Space}]/u;
 
 export class Lexer {
   private pos = 0; // character position
   private bytePos = 0; // byte position for spans
   private line = 1;
   private col = 1;
+  private docComment?: Span; // the last doc comment skipped
+  private docCommentOnOwnLine = false;
 
   constructor(private source: string) {}
 
@@ -91,9 +98,15 @@ export class Lexer {
       } else if (ch === "/" && this.peek(1) === "/") {
         // Line comment - skip to end of line
         hadWhitespace = true;
+        const start = this.bytePos;
+        const isDoc = this.peek(2) === "/";
         while (this.pos < this.source.length && this.peek() !== "\n") {
           this.advance();
         }
+        if (isDoc) {
+          this.docComment = { start, end: this.bytePos };
+          this.docCommentOnOwnLine = hadNewline;
+        }
       } else {
         break;
       }
@@ -102,6 +115,14 @@ export class Lexer {
   }
 
   nextToken(): Token {
+    this.docComment = undefined;
+    const token = this.readToken();
+    token.docCommentBefore = this.docComment;
+    token.docCommentOnOwnLine = this.docCommentOnOwnLine;
+    return token;
+  }
+
+  private readToken(): Token {
     const { hadWhitespace, hadNewline } = this.skipWhitespaceAndComments();
 
     if (this.pos >= this.source.length) {
@@ -183,9 +204,11 @@ export class Lexer {
     if (ch === "@") {
       this.advance();
       // Check if it's a tag name
-      if (this.isTagStart(this.peek())) {
+      // `r#` starts a raw string, also in a name
+      const atRaw = () => this.peek() === "r" && this.peek(1) === "#";
+      if (this.isTagStart(this.peek()) && !atRaw()) {
         const nameStart = this.pos;
-        while (this.isTagChar(this.peek())) {
+        while (this.isTagChar(this.peek()) && !atRaw()) {
           this.advance();
         }
         const name = this.source.slice(nameStart, this.pos);
@@ -233,7 +256,11 @@ export class Lexer {
       throw new ParseError("unexpected token", { start, end: errorEnd });
     }
 
-    // Bare scalar
+    // Bare scalar - cannot start with = or other white space
+    if (ch === "=" || SPECIAL_CHAR.test(ch)) {
+      this.advance();
+      throw new ParseError("unexpected token", { start, end: this.bytePos });
+    }
     return this.readBareScalar(start, hadWhitespace, hadNewline);
   }
 
@@ -283,7 +310,7 @@ export class Lexer {
             text += '"';
             break;
           case "u":
-            text += this.readUnicodeEscape();
+            text += this.readUnicodeEscape(escapeStart);
             break;
           default:
             // Unknown escape - this is a parse error
@@ -292,13 +319,6 @@ export class Lexer {
               end: this.bytePos,
             });
         }
-      } else if (ch === "\n" || ch === "\r") {
-        // Unterminated string - include the newline in the span
-        this.advance();
-        if (ch === "\r" && this.peek() === "\n") {
-          this.advance();
-        }
-        throw new ParseError("unexpected token", { start, end: this.bytePos });
       } else {
         text += this.advance();
       }
@@ -308,25 +328,22 @@ export class Lexer {
     throw new ParseError("unexpected token", { start, end: this.bytePos });
   }
 
-  private readUnicodeEscape(): string {
-    if (this.peek() === "{") {
-      this.advance(); // {
-      let hex = "";
-      while (this.peek() !== "}" && this.pos < this.source.length) {
-        hex += this.advance();
-      }
-      this.advance(); // }
-      const codePoint = parseInt(hex, 16);
-      return String.fromCodePoint(codePoint);
-    } else {
-      // \uXXXX format
-      let hex = "";
-      for (let i = 0; i < 4; i++) {
-        hex += this.advance();
-      }
-      const codePoint = parseInt(hex, 16);
-      return String.fromCodePoint(codePoint);
+  private readUnicodeEscape(escapeStart: number): string {
+    // \u{X...} or \uXXXX
+    const rest = this.source.slice(this.pos);
+    const match = /^(?:\{([0-9A-Fa-f]+)\}|([0-9A-Fa-f]{4}))/.exec(rest);
+    const codePoint = match ? parseInt(match[1] ?? match[2], 16) : -1;
+    const valid = (codePoint >= 0 && codePoint < 0xd800) || (codePoint > 0xdfff && codePoint <= 0x10ffff);
+    if (!match || !valid) {
+      throw new ParseError("invalid escape sequence: \\u", {
+        start: escapeStart,
+        end: this.bytePos,
+      });
+    }
+    for (let i = 0; i < match[0].length; i++) {
+      this.advance();
     }
+    return String.fromCodePoint(codePoint);
   }
 
   private readRawString(start: number, hadWhitespace: boolean, hadNewline: boolean): Token {
@@ -336,6 +353,9 @@ export class Lexer {
       this.advance();
       hashes++;
     }
+    if (this.peek() !== '"') {
+      throw new ParseError("unexpected token", { start, end: this.bytePos });
+    }
     this.advance(); // opening "
 
     let text = "";
@@ -370,6 +390,10 @@ export class Lexer {
     while (this.pos < this.source.length && this.peek() !== "\n") {
       delimiter += this.advance();
     }
+    delimiter = delimiter.replace(/\r$/, "");
+    if (!/^[A-Z][A-Z0-9_]{0,15}(?:,.*)?$/.test(delimiter)) {
+      throw new ParseError("unexpected token", { start, end: this.bytePos });
+    }
     if (this.pos < this.source.length) {
       this.advance(); // newline
     }
@@ -380,11 +404,16 @@ export class Lexer {
     // Read content until delimiter on its own line
     let text = "";
     const bareDelimiter = delimiter.split(",")[0];
+    const isDelimiter = (line: string) => line.replace(/^[ \t]+/, "") === bareDelimiter;
 
     while (this.pos < this.source.length) {
       // Read a line
       let line = "";
       while (this.pos < this.source.length && this.peek() !== "\n") {
+        // The line may end in CRLF
+        if (this.peek() === "\r" && this.peek(1) === "\n" && isDelimiter(line)) {
+          break;
+        }
         line += this.advance();
       }
 
@@ -453,7 +482,7 @@ export class Lexer {
     let text = "";
     while (this.pos < this.source.length) {
       const ch = this.peek();
-      if (SPECIAL_CHARS.has(ch)) {
+      if (SPECIAL_CHAR.test(ch)) {
         break;
       }
       text += this.advance();
diff --git a/implementations/styx-js/src/parser.ts b/implementations/styx-js/src/parser.ts
index 0f867dd..ed42b1b 100644
--- a/implementations/styx-js/src/parser.ts
+++ b/implementations/styx-js/src/parser.ts
@@ -61,24 +61,14 @@ export class Parser {
 
     // Check for explicit root object: { ... } at document start
     // Skip any leading commas first (just like parseEntryWithPathCheck does)
-    while (this.check("comma")) {
-      this.advance();
-    }
+    this.skipCommas();
 
-    if (this.check("lbrace")) {
-      // Explicit root object - parse it and check for trailing content
+    if (this.check("lbrace") && !this.current.docCommentBefore) {
+      // Explicit root object - its entries are the document's
       const obj = this.parseObject();
-      const objValue: Value = { payload: obj, span: obj.span };
-      const unitKey: Value = { span: { start: -1, end: -1 } };
-      entries.push({ key: unitKey, value: objValue });
 
       // After explicit root object, only whitespace/comments/EOF are allowed
-      // Skip commas (they don't count as "content")
-      while (this.check("comma")) {
-        this.advance();
-      }
-
-      if (!this.check("eof")) {
+      if (!this.check("eof") || this.current.docCommentBefore) {
         // Find the span of trailing content
         const trailingStart = this.current.span.start;
         // Consume tokens to find the end of all trailing content
@@ -94,7 +84,7 @@ export class Parser {
       }
 
       return {
-        entries,
+        entries: obj.entries,
         span: { start, end: this.current.span.end },
       };
     }
@@ -103,8 +93,12 @@ export class Parser {
       const entry = this.parseEntryWithPathCheck(pathState);
       if (entry) {
         entries.push(entry);
+      } else if (this.check("rbrace")) {
+        // There is no object to close here
+        throw new ParseError("unexpected token", this.current.span);
       }
     }
+    this.refuseDanglingDocComment();
 
     return {
       entries,
@@ -112,10 +106,27 @@ export class Parser {
     };
   }
 
-  private parseEntryWithPathCheck(pathState: PathState): Entry | null {
+  /** Skip commas between entries; a doc comment before one belongs to what follows it. */
+  private skipCommas(): void {
     while (this.check("comma")) {
-      this.advance();
+      const doc = this.advance().docCommentBefore;
+      this.current.docCommentBefore ??= doc;
+    }
+  }
+
+  /** A doc comment at the end of an object documents nothing. */
+  private refuseDanglingDocComment(): void {
+    if (this.current.docCommentBefore) {
+      throw new ParseError("doc comment not followed by an entry", this.current.docCommentBefore);
     }
+  }
+
+  private atEntryEnd(): boolean {
+    return this.current.hadNewlineBefore || this.check("eof", "rbrace", "comma");
+  }
+
+  private parseEntryWithPathCheck(pathState: PathState): Entry | null {
+    this.skipCommas();
 
     // Trailing > without a value is a parse error
     if (this.check("gt")) {
@@ -127,44 +138,54 @@ export class Parser {
     }
 
     // Parse the key
+    const keyStart = this.current.span.start;
     const key = this.parseValue();
+    if (key.tag) {
+      // The span of a tagged key covers its payload
+      key.span = { start: keyStart, end: key.span.end };
+    }
 
-    // Special case: object in key position gets implicit unit key
-    if (key.payload?.type === "object") {
-      if (!this.current.hadNewlineBefore && !this.check("eof", "rbrace", "comma")) {
-        this.parseValue(); // Drop trailing value
-      }
-      const unitKey: Value = { span: { start: -1, end: -1 } };
-      return { key: unitKey, value: key };
+    // Validate key
+    this.validateKey(key);
+
+    // A bare key directly followed by a block looks like a tag
+    if (
+      key.payload?.type === "scalar" &&
+      key.payload.kind === "bare" &&
+      this.check("lbrace", "lparen") &&
+      !this.current.hadWhitespaceBefore
+    ) {
+      throw new ParseError(
+        "missing whitespace before `{` or `(` (required after bare scalar to distinguish from tag syntax like `@tag{}`)",
+        this.current.span,
+      );
+    }
+
+    // Parse the value; a key alone has the unit value
+    const value: Value = this.atEntryEnd() ? { span: key.span } : this.parseValue();
+
+    if (!this.atEntryEnd()) {
+      throw new ParseError(
+        "unexpected atom after value (entry has too many atoms)",
+        this.current.span,
+      );
+    }
+
+    // A doc comment after an entry on its line documents nothing, but is not dangling
+    if (!this.current.docCommentOnOwnLine) {
+      this.current.docCommentBefore = undefined;
     }
 
     // Check for dotted path in bare scalar key
     if (key.payload?.type === "scalar" && key.payload.kind === "bare") {
       const text = key.payload.text;
       if (text.includes(".")) {
-        return this.expandDottedPathWithState(text, key.span, pathState);
+        return this.expandDottedPathWithState(text, key.span, value, pathState);
       }
     }
 
-    // Get key text for path state
-    const keyText = this.getKeyText(key);
-
-    // Validate key
-    this.validateKey(key);
-
-    // Check for implicit unit (key followed by newline, EOF, or closing brace)
-    if (this.current.hadNewlineBefore || this.check("eof", "rbrace")) {
-      if (keyText !== null) {
-        pathState.checkAndUpdate([keyText], key.span, "terminal");
-      }
-      const unitValue: Value = { span: key.span };
-      return { key, value: unitValue };
-    }
-
-    // Parse the value
-    const value = this.parseValue();
-
     // Determine kind from actual value
+    const keyText = this.getKeyText(key);
     if (keyText !== null) {
       const kind: PathValueKind = value.payload?.type === "object" ? "object" : "terminal";
       pathState.checkAndUpdate([keyText], key.span, kind);
@@ -173,7 +194,12 @@ export class Parser {
     return { key, value };
   }
 
-  private expandDottedPathWithState(pathText: string, span: Span, pathState: PathState): Entry {
+  private expandDottedPathWithState(
+    pathText: string,
+    span: Span,
+    value: Value,
+    pathState: PathState,
+  ): Entry {
     const segments = pathText.split(".");
 
     if (segments.some((s) => s === "")) {
@@ -189,8 +215,6 @@ export class Parser {
       offset += segmentBytes + 1; // +1 for the dot
     }
 
-    const value = this.parseValue();
-
     // Determine value kind
     const kind: PathValueKind = value.payload?.type === "object" ? "object" : "terminal";
 
@@ -239,86 +263,23 @@ export class Parser {
     return { key: outerKey, value: result };
   }
 
-  private parseEntryWithDupCheck(seenKeys: Map<string, Span>): Entry | null {
-    while (this.check("comma")) {
-      this.advance();
-    }
-
-    // Trailing > without a value is a parse error
-    if (this.check("gt")) {
-      throw new ParseError("expected a value", this.current.span);
-    }
-
-    if (this.check("eof", "rbrace")) {
-      return null;
-    }
-
-    // Parse the key
-    const key = this.parseValue();
-
-    // Special case: object in key position gets implicit unit key
-    // The parsed "value" is dropped (matches Rust styx_tree behavior)
-    if (key.payload?.type === "object") {
-      // Skip any trailing value on the same line
-      if (!this.current.hadNewlineBefore && !this.check("eof", "rbrace", "comma")) {
-        this.parseValue(); // Drop it
-      }
-      const unitKey: Value = { span: { start: -1, end: -1 } };
-      return { key: unitKey, value: key };
-    }
-
-    // Check for dotted path in bare scalar key
-    if (key.payload?.type === "scalar" && key.payload.kind === "bare") {
-      const text = key.payload.text;
-      if (text.includes(".")) {
-        return this.expandDottedPath(text, key.span, seenKeys);
-      }
-    }
-
-    // Check for duplicate key
-    const keyText = this.getKeyText(key);
-    if (keyText !== null) {
-      const existing = seenKeys.get(keyText);
-      if (existing) {
-        throw new ParseError(`duplicate key`, key.span);
-      }
-      seenKeys.set(keyText, key.span);
-    }
-
-    // Validate key
-    this.validateKey(key);
-
-    // Check for implicit unit (key followed by newline, EOF, or closing brace)
-    if (this.current.hadNewlineBefore || this.check("eof", "rbrace")) {
-      // Implicit unit - no value provided
-      const unitValue: Value = { span: key.span };
-      return { key, value: unitValue };
-    }
-
-    // Parse the value
-    const value = this.parseValue();
-
-    return { key, value };
-  }
-
+  /** What makes a key the same as another. A tag is not part of a scalar's text. */
   private getKeyText(key: Value): string | null {
+    const tag = key.tag ? `\0@${key.tag.name}\0` : "";
     if (key.payload?.type === "scalar") {
-      return key.payload.text;
+      return tag + key.payload.text;
     }
-    if (key.tag && !key.payload) {
-      return `@${key.tag.name}`;
-    }
-    return null;
+    return key.payload ? null : tag || "\0@";
   }
 
   private validateKey(key: Value): void {
     if (key.payload) {
-      // Sequences cannot be used as keys
-      if (key.payload.type === "sequence") {
+      // Sequences, objects and attributes cannot be used as keys
+      if (key.payload.type !== "scalar") {
         throw new ParseError(`invalid key`, key.span);
       }
       // Heredocs cannot be used as keys
-      if (key.payload.type === "scalar" && key.payload.kind === "heredoc") {
+      if (key.payload.kind === "heredoc" && !key.tag) {
         // Point at just the opening marker (<<TAG), not the whole content
         const errorSpan = this.heredocStartSpan(key.payload.span);
         throw new ParseError(`invalid key`, errorSpan);
@@ -334,88 +295,6 @@ export class Parser {
     return { start: heredocSpan.start, end: heredocSpan.start + endOffset };
   }
 
-  private expandDottedPath(pathText: string, span: Span, seenKeys: Map<string, Span>): Entry {
-    const segments = pathText.split(".");
-
-    if (segments.some((s) => s === "")) {
-      throw new ParseError(`invalid key`, span);
-    }
-
-    const firstSegment = segments[0];
-    const existing = seenKeys.get(firstSegment);
-    if (existing) {
-      throw new ParseError(`duplicate key`, span);
-    }
-    seenKeys.set(firstSegment, span);
-
-    // Calculate byte offsets for each segment
-    const segmentSpans: Span[] = [];
-    let offset = span.start;
-    for (let i = 0; i < segments.length; i++) {
-      const segmentBytes = new TextEncoder().encode(segments[i]).length;
-      segmentSpans.push({ start: offset, end: offset + segmentBytes });
-      offset += segmentBytes + 1; // +1 for the dot
-    }
-
-    const value = this.parseValue();
-
-    // Build nested structure from inside out
-    let result: Value = value;
-    for (let i = segments.length - 1; i >= 1; i--) {
-      const segSpan = segmentSpans[i];
-      const segmentKey: Value = {
-        payload: {
-          type: "scalar",
-          text: segments[i],
-          kind: "bare",
-          span: segSpan,
-        },
-        span: segSpan,
-      };
-      result = {
-        payload: {
-          type: "object",
-          entries: [{ key: segmentKey, value: result }],
-          span,
-        },
-        span,
-      };
-    }
-
-    const firstSpan = segmentSpans[0];
-    const outerKey: Value = {
-      payload: {
-        type: "scalar",
-        text: firstSegment,
-        kind: "bare",
-        span: firstSpan,
-      },
-      span: firstSpan,
-    };
-
-    return { key: outerKey, value: result };
-  }
-
-  private parseAttributeValue(): Value {
-    if (this.check("lbrace")) {
-      const obj = this.parseObject();
-      return { payload: obj, span: obj.span };
-    }
-    if (this.check("lparen")) {
-      const seq = this.parseSequence();
-      return { payload: seq, span: seq.span };
-    }
-    if (this.check("tag")) {
-      return this.parseTagValue();
-    }
-    if (this.check("at")) {
-      const atToken = this.advance();
-      return { span: atToken.span };
-    }
-    const scalar = this.parseScalar();
-    return { payload: scalar, span: scalar.span };
-  }
-
   private parseTagValue(): Value {
     const start = this.current.span.start;
     const tagToken = this.advance();
@@ -443,6 +322,9 @@ export class Parser {
       }
       if (this.check("at")) {
         const atToken = this.advance();
+        if (this.check("scalar") && !this.current.hadWhitespaceBefore) {
+          throw new ParseError("invalid tag name", { start, end: this.current.span.end });
+        }
         // For explicit unit (@tag@), the span is just the trailing @
         return { tag, span: atToken.span };
       }
@@ -457,7 +339,7 @@ export class Parser {
       // Check for invalid tag name: @ followed immediately by non-tag-start character
       if (
         !this.current.hadWhitespaceBefore &&
-        !this.check("eof", "rbrace", "rparen", "comma", "lbrace", "lparen")
+        !this.check("eof", "rbrace", "rparen", "comma", "lbrace", "lparen", "quoted", "heredoc", "at", "tag")
       ) {
         // This looks like @123 or @-foo - invalid tag name
         // Error span includes the @ (it's part of the tag)
@@ -492,7 +374,7 @@ export class Parser {
         // Attribute syntax: key>value
         this.advance(); // consume >
         const afterGT = this.current;
-        if (afterGT.hadNewlineBefore || this.check("eof", "rbrace", "rparen")) {
+        if (afterGT.hadWhitespaceBefore || this.check("eof", "rbrace", "rparen", "comma")) {
           // Trailing > without a value is a parse error
           throw new ParseError("expected a value", nextToken.span);
         }
@@ -515,11 +397,10 @@ export class Parser {
     return { payload: scalar, span: scalar.span };
   }
 
-  private parseAttributesStartingWith(firstKeyToken: Token): Value {
+  private parseAttributesAfterGT(firstKeyToken: Token): Value {
     const attrs: Entry[] = [];
     const startSpan = firstKeyToken.span;
 
-    this.expect("gt");
     const firstKey: Value = {
       payload: {
         type: "scalar",
@@ -529,7 +410,7 @@ export class Parser {
       },
       span: firstKeyToken.span,
     };
-    const firstValue = this.parseAttributeValue();
+    const firstValue = this.parseValue();
     attrs.push({ key: firstKey, value: firstValue });
 
     let endSpan = firstValue.span;
@@ -543,59 +424,13 @@ export class Parser {
 
       this.advance();
       this.advance();
-
-      const attrKey: Value = {
-        payload: {
-          type: "scalar",
-          text: keyToken.text,
-          kind: "bare",
-          span: keyToken.span,
-        },
-        span: keyToken.span,
-      };
-
-      const attrValue = this.parseAttributeValue();
-      attrs.push({ key: attrKey, value: attrValue });
-      endSpan = attrValue.span;
-    }
-
-    const obj: StyxObject = {
-      type: "object",
-      entries: attrs,
-      span: { start: startSpan.start, end: endSpan.end },
-    };
-
-    return { payload: obj, span: obj.span };
-  }
-
-  private parseAttributesAfterGT(firstKeyToken: Token): Value {
-    // Same as parseAttributesStartingWith but > was already consumed
-    const attrs: Entry[] = [];
-    const startSpan = firstKeyToken.span;
-
-    const firstKey: Value = {
-      payload: {
-        type: "scalar",
-        text: firstKeyToken.text,
-        kind: "bare",
-        span: firstKeyToken.span,
-      },
-      span: firstKeyToken.span,
-    };
-    const firstValue = this.parseAttributeValue();
-    attrs.push({ key: firstKey, value: firstValue });
-
-    let endSpan = firstValue.span;
-
-    while (this.check("scalar") && !this.current.hadNewlineBefore) {
-      const keyToken = this.current;
-      const nextToken = this.peek();
-      if (nextToken.type !== "gt" || nextToken.hadWhitespaceBefore) {
-        break;
+      if (this.current.hadWhitespaceBefore || this.check("eof", "rbrace", "rparen", "comma")) {
+        throw new ParseError("expected a value", nextToken.span);
       }
 
-      this.advance();
-      this.advance();
+      if (attrs.some((a) => this.getKeyText(a.key) === keyToken.text)) {
+        throw new ParseError("duplicate key", keyToken.span);
+      }
 
       const attrKey: Value = {
         payload: {
@@ -607,7 +442,7 @@ export class Parser {
         span: keyToken.span,
       };
 
-      const attrValue = this.parseAttributeValue();
+      const attrValue = this.parseValue();
       attrs.push({ key: attrKey, value: attrValue });
       endSpan = attrValue.span;
     }
@@ -655,23 +490,19 @@ export class Parser {
     const openBrace = this.expect("lbrace");
     const start = openBrace.span.start;
     const entries: Entry[] = [];
-    const seenKeys = new Map<string, Span>();
+    const pathState = new PathState();
 
     while (!this.check("rbrace", "eof")) {
-      const entry = this.parseEntryWithDupCheck(seenKeys);
+      const entry = this.parseEntryWithPathCheck(pathState);
       if (entry) {
         entries.push(entry);
       }
-
-      // Skip commas (mixed separators now allowed)
-      if (this.check("comma")) {
-        this.advance();
-      }
     }
 
     if (this.check("eof")) {
       throw new ParseError("unclosed object (missing `}`)", openBrace.span);
     }
+    this.refuseDanglingDocComment();
 
     const end = this.expect("rbrace").span.end;
     return {
-- 
2.43.0


From 9ba308c561a18a1b7475eb997156fbf3cdff5193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:48 +0000
Subject: [PATCH 60/64] fix: styx-py reads documents as the reference
 implementation does

Nested objects expand dotted keys and check paths as the root does, an entry is a key
and at most one value, a key alone before a comma has the unit value, an explicit root's
entries are the document's, keys of any form can be duplicates, attributes nest and are
unique, a unit may stand directly before another value, and quoted strings may span lines.
A stray `}`, a dangling doc comment, a block right after a bare key, white space after an
attribute's `>`, other white space, a leading `=`, malformed unicode escapes, raw string and
heredoc openings are errors; a CRLF may follow a heredoc.
---
 implementations/styx-py/styx/lexer.py  |  81 ++++---
 implementations/styx-py/styx/parser.py | 285 +++++++++----------------
 2 files changed, 155 insertions(+), 211 deletions(-)

diff --git a/implementations/styx-py/styx/lexer.py b/implementations/styx-py/styx/lexer.py
index ce97622..50bac69 100644
--- a/implementations/styx-py/styx/lexer.py
+++ b/implementations/styx-py/styx/lexer.py
@@ -37,25 +37,34 @@ class Token:
     span: Span
     had_whitespace_before: bool
     had_newline_before: bool
+    doc_comment_before: Span | None = None  # the last doc comment (`///`) before this token
+    doc_comment_on_own_line: bool = False
 
 
+# What ends a bare scalar: any white space, and characters with a meaning of their own
 SPECIAL_CHARS: Final[frozenset[str]] = frozenset(
-    ["{", "}", "(", ")", ",", '"', ">", " ", "\t", "\n", "\r"]
+    '{}(),">\t\n\v\f\r \x85\xa0\u1680'
+    "\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a"
+    "\u2028\u2029\u202f\u205f\u3000"
 )
 
 TAG_START_RE: Final[re.Pattern[str]] = re.compile(r"[A-Za-z_]")
 TAG_CHAR_RE: Final[re.Pattern[str]] = re.compile(r"[A-Za-z0-9_\-]")
+UNICODE_ESCAPE_RE: Final[re.Pattern[str]] = re.compile(r"\{([0-9A-Fa-f]+)\}|([0-9A-Fa-f]{4})")
+HEREDOC_DELIMITER_RE: Final[re.Pattern[str]] = re.compile(r"[A-Z][A-Z0-9_]{0,15}(?:,.*)?")
 
 
 class Lexer:
     """Tokenizer for Styx source code."""
 
-    __slots__ = ("byte_pos", "pos", "source")
+    __slots__ = ("byte_pos", "doc_comment", "doc_comment_on_own_line", "pos", "source")
 
     def __init__(self, source: str) -> None:
         self.source = source
         self.pos = 0  # character position
         self.byte_pos = 0  # byte position for spans
+        self.doc_comment: Span | None = None  # the last doc comment skipped
+        self.doc_comment_on_own_line = False
 
     def _peek(self, offset: int = 0) -> str:
         """Look ahead in the source."""
@@ -89,8 +98,13 @@ class Lexer:
                 self._advance()
             elif ch == "/" and self._peek(1) == "/":
                 had_whitespace = True
+                start = self.byte_pos
+                is_doc = self._peek(2) == "/"
                 while self.pos < len(self.source) and self._peek() != "\n":
                     self._advance()
+                if is_doc:
+                    self.doc_comment = Span(start, self.byte_pos)
+                    self.doc_comment_on_own_line = had_newline
             else:
                 break
 
@@ -106,6 +120,14 @@ class Lexer:
 
     def next_token(self) -> Token:
         """Return the next token."""
+        self.doc_comment = None
+        token = self._read_token()
+        token.doc_comment_before = self.doc_comment
+        token.doc_comment_on_own_line = self.doc_comment_on_own_line
+        return token
+
+    def _read_token(self) -> Token:
+        """Read the next token."""
         had_whitespace, had_newline = self._skip_whitespace_and_comments()
 
         if self.pos >= len(self.source):
@@ -156,9 +178,12 @@ class Lexer:
         # @ - either unit or tag
         if ch == "@":
             self._advance()
-            if self._is_tag_start(self._peek()):
+            # `r#` starts a raw string, also in a name
+            if self._is_tag_start(self._peek()) and not self.source.startswith("r#", self.pos):
                 name_start = self.pos
-                while self._is_tag_char(self._peek()):
+                while self._is_tag_char(self._peek()) and not self.source.startswith(
+                    "r#", self.pos
+                ):
                     self._advance()
                 name = self.source[name_start : self.pos]
                 return Token(
@@ -177,7 +202,7 @@ class Lexer:
         # Heredoc - only if << is followed by uppercase letter
         if ch == "<" and self._peek(1) == "<":
             after_lt_lt = self._peek(2)
-            if after_lt_lt.isupper():
+            if "A" <= after_lt_lt <= "Z":
                 return self._read_heredoc(start, had_whitespace, had_newline)
             # << not followed by uppercase - return error at just <<
             self._advance()  # <
@@ -188,7 +213,10 @@ class Lexer:
                 self._advance()
             raise ParseError("unexpected token", Span(start, error_end))
 
-        # Bare scalar
+        # Bare scalar - cannot start with = or other white space
+        if ch == "=" or ch in SPECIAL_CHARS:
+            self._advance()
+            raise ParseError("unexpected token", Span(start, self.byte_pos))
         return self._read_bare_scalar(start, had_whitespace, had_newline)
 
     def _read_quoted_string(self, start: int, had_whitespace: bool, had_newline: bool) -> Token:
@@ -219,38 +247,27 @@ class Lexer:
                     case '"':
                         text += '"'
                     case "u":
-                        text += self._read_unicode_escape()
+                        text += self._read_unicode_escape(escape_start)
                     case _:
                         raise ParseError(
                             f"invalid escape sequence: \\{escaped}",
                             Span(escape_start, self.byte_pos),
                         )
-            elif ch in ("\n", "\r"):
-                # Unterminated string - include the newline in the span
-                self._advance()
-                if ch == "\r" and self._peek() == "\n":
-                    self._advance()
-                raise ParseError("unexpected token", Span(start, self.byte_pos))
             else:
                 text += self._advance()
 
         # EOF without closing quote - error
         raise ParseError("unexpected token", Span(start, self.byte_pos))
 
-    def _read_unicode_escape(self) -> str:
-        """Read a unicode escape sequence."""
-        if self._peek() == "{":
+    def _read_unicode_escape(self, escape_start: int) -> str:
+        """Read a unicode escape sequence: `\\u{X...}` or `\\uXXXX`."""
+        match = UNICODE_ESCAPE_RE.match(self.source, self.pos)
+        code_point = int(match[1] or match[2], 16) if match else -1
+        if not match or not (0 <= code_point < 0xD800 or 0xDFFF < code_point <= 0x10FFFF):
+            raise ParseError("invalid escape sequence: \\u", Span(escape_start, self.byte_pos))
+        for _ in match[0]:
             self._advance()
-            hex_str = ""
-            while self._peek() != "}" and self.pos < len(self.source):
-                hex_str += self._advance()
-            self._advance()
-            return chr(int(hex_str, 16))
-        else:
-            hex_str = ""
-            for _ in range(4):
-                hex_str += self._advance()
-            return chr(int(hex_str, 16))
+        return chr(code_point)
 
     def _read_raw_string(self, start: int, had_whitespace: bool, had_newline: bool) -> Token:
         """Read a raw string."""
@@ -259,6 +276,8 @@ class Lexer:
         while self._peek() == "#":
             self._advance()
             hashes += 1
+        if self._peek() != '"':
+            raise ParseError("unexpected token", Span(start, self.byte_pos))
         self._advance()  # opening "
 
         text = ""
@@ -283,6 +302,9 @@ class Lexer:
         delimiter = ""
         while self.pos < len(self.source) and self._peek() != "\n":
             delimiter += self._advance()
+        delimiter = delimiter.removesuffix("\r")
+        if not HEREDOC_DELIMITER_RE.fullmatch(delimiter):
+            raise ParseError("unexpected token", Span(start, self.byte_pos))
         if self.pos < len(self.source):
             self._advance()  # newline
 
@@ -295,6 +317,13 @@ class Lexer:
         while self.pos < len(self.source):
             line = ""
             while self.pos < len(self.source) and self._peek() != "\n":
+                # The line may end in CRLF
+                if (
+                    self._peek() == "\r"
+                    and self._peek(1) == "\n"
+                    and line.lstrip(" \t") == bare_delimiter
+                ):
+                    break
                 line += self._advance()
 
             # Check for exact match (no indentation)
diff --git a/implementations/styx-py/styx/parser.py b/implementations/styx-py/styx/parser.py
index ba451a9..2329897 100644
--- a/implementations/styx-py/styx/parser.py
+++ b/implementations/styx-py/styx/parser.py
@@ -123,23 +123,15 @@ class Parser:
         path_state = PathState()
 
         # Skip any leading commas
-        while self._check(TokenType.COMMA):
-            self._advance()
+        self._skip_commas()
 
         # Check for explicit root object: { ... } at document start
-        if self._check(TokenType.LBRACE):
-            # Explicit root object - parse it and check for trailing content
+        if self._check(TokenType.LBRACE) and self.current.doc_comment_before is None:
+            # Explicit root object - its entries are the document's
             obj = self._parse_object()
-            obj_value = Value(span=obj.span, payload=obj)
-            unit_key = Value(span=Span(-1, -1))
-            entries.append(Entry(key=unit_key, value=obj_value))
 
             # After explicit root object, only whitespace/comments/EOF are allowed
-            # Skip commas (they don't count as "content")
-            while self._check(TokenType.COMMA):
-                self._advance()
-
-            if not self._check(TokenType.EOF):
+            if not self._check(TokenType.EOF) or self.current.doc_comment_before is not None:
                 # Find the span of trailing content
                 trailing_start = self.current.span.start
                 # Consume tokens to find the end of all trailing content
@@ -153,7 +145,7 @@ class Parser:
                 )
 
             return Document(
-                entries=entries,
+                entries=obj.entries,
                 span=Span(start, self.current.span.end),
             )
 
@@ -161,16 +153,39 @@ class Parser:
             entry = self._parse_entry_with_path_check(path_state)
             if entry:
                 entries.append(entry)
+            elif self._check(TokenType.RBRACE):
+                # There is no object to close here
+                raise ParseError("unexpected token", self.current.span)
+        self._refuse_dangling_doc_comment()
 
         return Document(
             entries=entries,
             span=Span(start, self.current.span.end),
         )
 
-    def _parse_entry_with_path_check(self, path_state: PathState) -> Entry | None:
-        """Parse an entry at document level with path state checking."""
+    def _skip_commas(self) -> None:
+        """Skip commas between entries; a doc comment before one belongs to what follows it."""
         while self._check(TokenType.COMMA):
-            self._advance()
+            doc_comment = self._advance().doc_comment_before
+            if self.current.doc_comment_before is None:
+                self.current.doc_comment_before = doc_comment
+
+    def _refuse_dangling_doc_comment(self) -> None:
+        """A doc comment at the end of an object documents nothing."""
+        if self.current.doc_comment_before is not None:
+            raise ParseError(
+                "doc comment not followed by an entry", self.current.doc_comment_before
+            )
+
+    def _at_entry_end(self) -> bool:
+        """Check if the current entry ends before the current token."""
+        return self.current.had_newline_before or self._check(
+            TokenType.EOF, TokenType.RBRACE, TokenType.COMMA
+        )
+
+    def _parse_entry_with_path_check(self, path_state: PathState) -> Entry | None:
+        """Parse an entry of a document or object with path state checking."""
+        self._skip_commas()
 
         # Stray > tokens without a value are an error
         if self._check(TokenType.GT):
@@ -179,113 +194,68 @@ class Parser:
         if self._check(TokenType.EOF, TokenType.RBRACE):
             return None
 
+        key_start = self.current.span.start
         key = self._parse_value()
+        if key.tag is not None:
+            # The span of a tagged key covers its payload
+            key.span = Span(key_start, key.span.end)
 
-        # Special case: object in key position gets implicit unit key
-        if key.payload is not None and isinstance(key.payload, StyxObject):
-            if not self.current.had_newline_before and not self._check(
-                TokenType.EOF, TokenType.RBRACE, TokenType.COMMA
-            ):
-                self._parse_value()  # Drop trailing value
-            unit_key = Value(span=Span(-1, -1))
-            return Entry(key=unit_key, value=key)
+        self._validate_key(key)
 
-        # Check for dotted path in bare scalar key
+        # A bare key directly followed by a block looks like a tag
+        bare = isinstance(key.payload, Scalar) and key.payload.kind == ScalarKind.BARE
         if (
-            key.payload is not None
-            and isinstance(key.payload, Scalar)
-            and key.payload.kind == ScalarKind.BARE
+            bare
+            and self._check(TokenType.LBRACE, TokenType.LPAREN)
+            and not self.current.had_whitespace_before
         ):
-            text = key.payload.text
-            if "." in text:
-                return self._expand_dotted_path_with_state(text, key.span, path_state)
-
-        # Check key validity with path state
-        key_text = self._get_key_text(key)
-
-        self._validate_key(key)
-
-        # Check for implicit unit
-        if self.current.had_newline_before or self._check(TokenType.EOF, TokenType.RBRACE):
-            if key_text is not None:
-                path_state.check_and_update([key_text], key.span, PathValueKind.TERMINAL)
-            return Entry(key=key, value=Value(span=key.span))
-
-        value = self._parse_value()
-
-        # Determine kind from actual value
-        if key_text is not None:
-            if value.payload is not None and isinstance(value.payload, StyxObject):
-                kind = PathValueKind.OBJECT
-            else:
-                kind = PathValueKind.TERMINAL
-            path_state.check_and_update([key_text], key.span, kind)
-
-        return Entry(key=key, value=value)
-
-    def _parse_entry_with_dup_check(self, seen_keys: dict[str, Span]) -> Entry | None:
-        """Parse an entry with duplicate key checking."""
-        while self._check(TokenType.COMMA):
-            self._advance()
+            raise ParseError(
+                "missing whitespace before `{` or `(` (required after bare scalar "
+                "to distinguish from tag syntax like `@tag{}`)",
+                self.current.span,
+            )
 
-        # Stray > tokens without a value are an error
-        if self._check(TokenType.GT):
-            raise ParseError("expected a value", self.current.span)
+        # Parse the value; a key alone has the unit value
+        value = Value(span=key.span) if self._at_entry_end() else self._parse_value()
 
-        if self._check(TokenType.EOF, TokenType.RBRACE):
-            return None
+        if not self._at_entry_end():
+            raise ParseError(
+                "unexpected atom after value (entry has too many atoms)", self.current.span
+            )
 
-        key = self._parse_value()
-
-        # Special case: object in key position gets implicit unit key
-        if key.payload is not None and isinstance(key.payload, StyxObject):
-            if not self.current.had_newline_before and not self._check(
-                TokenType.EOF, TokenType.RBRACE, TokenType.COMMA
-            ):
-                self._parse_value()  # Drop trailing value
-            unit_key = Value(span=Span(-1, -1))
-            return Entry(key=unit_key, value=key)
+        # A doc comment after an entry on its line documents nothing, but is not dangling
+        if not self.current.doc_comment_on_own_line:
+            self.current.doc_comment_before = None
 
         # Check for dotted path in bare scalar key
-        if (
-            key.payload is not None
-            and isinstance(key.payload, Scalar)
-            and key.payload.kind == ScalarKind.BARE
-        ):
-            text = key.payload.text
-            if "." in text:
-                return self._expand_dotted_path(text, key.span, seen_keys)
+        if bare and "." in key.payload.text:
+            return self._expand_dotted_path_with_state(
+                key.payload.text, key.span, value, path_state
+            )
 
-        # Check for duplicate key
+        # Determine kind from actual value
         key_text = self._get_key_text(key)
-        if key_text is not None:
-            if key_text in seen_keys:
-                raise ParseError("duplicate key", key.span)
-            seen_keys[key_text] = key.span
-
-        self._validate_key(key)
-
-        # Check for implicit unit
-        if self.current.had_newline_before or self._check(TokenType.EOF, TokenType.RBRACE):
-            return Entry(key=key, value=Value(span=key.span))
+        if isinstance(value.payload, StyxObject):
+            kind = PathValueKind.OBJECT
+        else:
+            kind = PathValueKind.TERMINAL
+        path_state.check_and_update([key_text], key.span, kind)
 
-        value = self._parse_value()
         return Entry(key=key, value=value)
 
-    def _get_key_text(self, key: Value) -> str | None:
-        """Get the text representation of a key for duplicate checking."""
-        if key.payload is not None and isinstance(key.payload, Scalar):
-            return key.payload.text
-        if key.tag is not None and key.payload is None:
-            return f"@{key.tag.name}"
-        return None
+    def _get_key_text(self, key: Value) -> str:
+        """What makes a key the same as another. A tag is not part of a scalar's text."""
+        tag = f"\0@{key.tag.name}\0" if key.tag is not None else ""
+        if isinstance(key.payload, Scalar):
+            return tag + key.payload.text
+        return tag or "\0@"
 
     def _validate_key(self, key: Value) -> None:
         """Validate that a value can be used as a key."""
         if key.payload is not None:
-            if isinstance(key.payload, Sequence):
+            if not isinstance(key.payload, Scalar):
                 raise ParseError("invalid key", key.span)
-            if isinstance(key.payload, Scalar) and key.payload.kind == ScalarKind.HEREDOC:
+            if key.payload.kind == ScalarKind.HEREDOC and key.tag is None:
                 # Point at just the opening marker (<<TAG), not the whole content
                 error_span = self._heredoc_start_span(key.payload.span)
                 raise ParseError("invalid key", error_span)
@@ -298,7 +268,7 @@ class Parser:
         return Span(heredoc_span.start, heredoc_span.start + end_offset)
 
     def _expand_dotted_path_with_state(
-        self, path_text: str, span: Span, path_state: PathState
+        self, path_text: str, span: Span, value: Value, path_state: PathState
     ) -> Entry:
         """Expand a dotted path into nested objects with path state validation."""
         segments = path_text.split(".")
@@ -314,9 +284,6 @@ class Parser:
             segment_spans.append(Span(offset, offset + segment_bytes))
             offset += segment_bytes + 1  # +1 for the dot
 
-        # Parse the value
-        value = self._parse_value()
-
         # Determine value kind
         if value.payload is not None and isinstance(value.payload, StyxObject):
             kind = PathValueKind.OBJECT
@@ -355,66 +322,6 @@ class Parser:
 
         return Entry(key=outer_key, value=result)
 
-    def _expand_dotted_path(self, path_text: str, span: Span, seen_keys: dict[str, Span]) -> Entry:
-        """Expand a dotted path into nested objects."""
-        segments = path_text.split(".")
-
-        if any(s == "" for s in segments):
-            raise ParseError("invalid key", span)
-
-        first_segment = segments[0]
-        if first_segment in seen_keys:
-            raise ParseError("duplicate key", span)
-        seen_keys[first_segment] = span
-
-        segment_spans: list[Span] = []
-        offset = span.start
-        for segment in segments:
-            segment_bytes = len(segment.encode("utf-8"))
-            segment_spans.append(Span(offset, offset + segment_bytes))
-            offset += segment_bytes + 1
-
-        value = self._parse_value()
-
-        result = value
-        for i in range(len(segments) - 1, 0, -1):
-            seg_span = segment_spans[i]
-            segment_key = Value(
-                span=seg_span,
-                payload=Scalar(text=segments[i], kind=ScalarKind.BARE, span=seg_span),
-            )
-            result = Value(
-                span=span,
-                payload=StyxObject(
-                    entries=[Entry(key=segment_key, value=result)],
-                    span=span,
-                ),
-            )
-
-        first_span = segment_spans[0]
-        outer_key = Value(
-            span=first_span,
-            payload=Scalar(text=first_segment, kind=ScalarKind.BARE, span=first_span),
-        )
-
-        return Entry(key=outer_key, value=result)
-
-    def _parse_attribute_value(self) -> Value:
-        """Parse a value in attribute context."""
-        if self._check(TokenType.LBRACE):
-            obj = self._parse_object()
-            return Value(span=obj.span, payload=obj)
-        if self._check(TokenType.LPAREN):
-            seq = self._parse_sequence()
-            return Value(span=seq.span, payload=seq)
-        if self._check(TokenType.TAG):
-            return self._parse_tag_value()
-        if self._check(TokenType.AT):
-            at_token = self._advance()
-            return Value(span=at_token.span)
-        scalar = self._parse_scalar()
-        return Value(span=scalar.span, payload=scalar)
-
     def _parse_tag_value(self) -> Value:
         """Parse a tag with optional payload."""
         start = self.current.span.start
@@ -433,6 +340,8 @@ class Parser:
                 return Value(span=scalar.span, tag=tag, payload=scalar)
             if self._check(TokenType.AT):
                 at_token = self._advance()
+                if self._check(TokenType.SCALAR) and not self.current.had_whitespace_before:
+                    raise ParseError("invalid tag name", Span(start, self.current.span.end))
                 return Value(span=at_token.span, tag=tag)
             # If there's something else immediately after the tag (like /package),
             # it's an invalid tag name. Span starts at the @.
@@ -457,6 +366,10 @@ class Parser:
                 TokenType.COMMA,
                 TokenType.LBRACE,
                 TokenType.LPAREN,
+                TokenType.QUOTED,
+                TokenType.HEREDOC,
+                TokenType.AT,
+                TokenType.TAG,
             ):
                 # Error span includes the @ (it's part of the tag)
                 raise ParseError(
@@ -479,14 +392,8 @@ class Parser:
             scalar_token = self._advance()
             next_token = self.current
 
-            # Attribute syntax: scalar>value - but only if there's actually a value after >
-            # If > is at EOF or followed by newline, just treat scalar as the value
-            if (
-                next_token.type == TokenType.GT
-                and not next_token.had_whitespace_before
-                and not self._peek().had_newline_before
-                and self._peek().type != TokenType.EOF
-            ):
+            # Attribute syntax: scalar>value
+            if next_token.type == TokenType.GT and not next_token.had_whitespace_before:
                 return self._parse_attributes_starting_with(scalar_token)
 
             return Value(
@@ -501,12 +408,20 @@ class Parser:
         scalar = self._parse_scalar()
         return Value(span=scalar.span, payload=scalar)
 
+    def _expect_attribute_gt(self) -> None:
+        """Expect the `>` of an attribute, directly followed by its value."""
+        gt_token = self._expect(TokenType.GT)
+        if self.current.had_whitespace_before or self._check(
+            TokenType.EOF, TokenType.RBRACE, TokenType.RPAREN, TokenType.COMMA
+        ):
+            raise ParseError("expected a value", gt_token.span)
+
     def _parse_attributes_starting_with(self, first_key_token: Token) -> Value:
         """Parse attribute syntax (key>value key>value ...)."""
         attrs: list[Entry] = []
         start_span = first_key_token.span
 
-        self._expect(TokenType.GT)
+        self._expect_attribute_gt()
         first_key = Value(
             span=first_key_token.span,
             payload=Scalar(
@@ -515,7 +430,7 @@ class Parser:
                 span=first_key_token.span,
             ),
         )
-        first_value = self._parse_attribute_value()
+        first_value = self._parse_value()
         attrs.append(Entry(key=first_key, value=first_value))
 
         end_span = first_value.span
@@ -527,7 +442,10 @@ class Parser:
                 break
 
             self._advance()
-            self._advance()
+            self._expect_attribute_gt()
+
+            if any(self._get_key_text(attr.key) == key_token.text for attr in attrs):
+                raise ParseError("duplicate key", key_token.span)
 
             attr_key = Value(
                 span=key_token.span,
@@ -538,7 +456,7 @@ class Parser:
                 ),
             )
 
-            attr_value = self._parse_attribute_value()
+            attr_value = self._parse_value()
             attrs.append(Entry(key=attr_key, value=attr_value))
             end_span = attr_value.span
 
@@ -573,20 +491,17 @@ class Parser:
         open_brace = self._expect(TokenType.LBRACE)
         start = open_brace.span.start
         entries: list[Entry] = []
-        seen_keys: dict[str, Span] = {}
+        path_state = PathState()
 
         while not self._check(TokenType.RBRACE, TokenType.EOF):
-            entry = self._parse_entry_with_dup_check(seen_keys)
+            entry = self._parse_entry_with_path_check(path_state)
             if entry:
                 entries.append(entry)
 
-            # Skip commas (mixed separators now allowed)
-            if self._check(TokenType.COMMA):
-                self._advance()
-
         if self._check(TokenType.EOF):
             raise ParseError("unclosed object (missing `}`)", open_brace.span)
 
+        self._refuse_dangling_doc_comment()
         end = self._expect(TokenType.RBRACE).span.end
         return StyxObject(entries=entries, span=Span(start, end))
 
-- 
2.43.0


From 6da531a18bbcbbb02401470926966eb4bb3cb02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:48 +0000
Subject: [PATCH 61/64] fix: styx-go reads documents as the reference
 implementation does

Nested objects expand dotted keys and check paths as the root does, an entry is a key
and at most one value, a key alone before a comma has the unit value, an explicit root's
entries are the document's, keys of any form can be duplicates, attributes nest and are
unique, a unit may stand directly before another value, and quoted strings may span lines.
A stray `}`, a dangling doc comment, a block right after a bare key, white space after an
attribute's `>`, other white space, a leading `=`, malformed unicode escapes, raw string and
heredoc openings are errors; a CRLF may follow a heredoc.
---
 implementations/styx-go/lexer.go  | 164 +++++++++++--------
 implementations/styx-go/parser.go | 252 ++++++++++++------------------
 2 files changed, 202 insertions(+), 214 deletions(-)

diff --git a/implementations/styx-go/lexer.go b/implementations/styx-go/lexer.go
index 41be29a..45cc383 100644
--- a/implementations/styx-go/lexer.go
+++ b/implementations/styx-go/lexer.go
@@ -1,7 +1,9 @@
 package styx
 
 import (
+	"strconv"
 	"strings"
+	"unicode"
 	"unicode/utf8"
 )
 
@@ -64,6 +66,8 @@ type Token struct {
 	Span                Span
 	HadWhitespaceBefore bool
 	HadNewlineBefore    bool
+	DocCommentBefore    *Span // the last doc comment (`///`) before this token
+	DocCommentOnOwnLine bool
 }
 
 // Lexer tokenizes Styx source code.
@@ -71,6 +75,9 @@ type Lexer struct {
 	source  string
 	pos     int // character position
 	bytePos int // byte position for spans
+
+	docComment          *Span // the last doc comment skipped
+	docCommentOnOwnLine bool
 }
 
 func newLexer(source string) *Lexer {
@@ -110,9 +117,14 @@ func (l *Lexer) skipWhitespaceAndComments() (hadWhitespace, hadNewline bool) {
 		case '/':
 			if l.peek(1) == '/' {
 				hadWhitespace = true
+				start, isDoc := l.bytePos, l.peek(2) == '/'
 				for l.pos < len(l.source) && l.peek(0) != '\n' {
 					l.advance()
 				}
+				if isDoc {
+					l.docComment = &Span{start, l.bytePos}
+					l.docCommentOnOwnLine = hadNewline
+				}
 			} else {
 				return
 			}
@@ -133,13 +145,23 @@ func isTagChar(ch rune) bool {
 
 func isSpecialChar(ch rune) bool {
 	switch ch {
-	case '{', '}', '(', ')', ',', '"', '>', ' ', '\t', '\n', '\r':
+	case '{', '}', '(', ')', ',', '"', '>':
 		return true
 	}
-	return false
+	return unicode.IsSpace(ch)
 }
 
 func (l *Lexer) nextToken() (*Token, error) {
+	l.docComment = nil
+	tok, err := l.readToken()
+	if tok != nil {
+		tok.DocCommentBefore = l.docComment
+		tok.DocCommentOnOwnLine = l.docCommentOnOwnLine
+	}
+	return tok, err
+}
+
+func (l *Lexer) readToken() (*Token, error) {
 	hadWhitespace, hadNewline := l.skipWhitespaceAndComments()
 
 	if l.pos >= len(l.source) {
@@ -159,36 +181,37 @@ func (l *Lexer) nextToken() (*Token, error) {
 	switch ch {
 	case '{':
 		l.advance()
-		return &Token{TokenLBrace, "{", Span{start, l.bytePos}, hadWhitespace, hadNewline}, nil
+		return &Token{TokenLBrace, "{", Span{start, l.bytePos}, hadWhitespace, hadNewline, nil, false}, nil
 	case '}':
 		l.advance()
-		return &Token{TokenRBrace, "}", Span{start, l.bytePos}, hadWhitespace, hadNewline}, nil
+		return &Token{TokenRBrace, "}", Span{start, l.bytePos}, hadWhitespace, hadNewline, nil, false}, nil
 	case '(':
 		l.advance()
-		return &Token{TokenLParen, "(", Span{start, l.bytePos}, hadWhitespace, hadNewline}, nil
+		return &Token{TokenLParen, "(", Span{start, l.bytePos}, hadWhitespace, hadNewline, nil, false}, nil
 	case ')':
 		l.advance()
-		return &Token{TokenRParen, ")", Span{start, l.bytePos}, hadWhitespace, hadNewline}, nil
+		return &Token{TokenRParen, ")", Span{start, l.bytePos}, hadWhitespace, hadNewline, nil, false}, nil
 	case ',':
 		l.advance()
-		return &Token{TokenComma, ",", Span{start, l.bytePos}, hadWhitespace, hadNewline}, nil
+		return &Token{TokenComma, ",", Span{start, l.bytePos}, hadWhitespace, hadNewline, nil, false}, nil
 	case '>':
 		l.advance()
-		return &Token{TokenGT, ">", Span{start, l.bytePos}, hadWhitespace, hadNewline}, nil
+		return &Token{TokenGT, ">", Span{start, l.bytePos}, hadWhitespace, hadNewline, nil, false}, nil
 	}
 
 	// @ - either unit or tag
 	if ch == '@' {
 		l.advance()
-		if isTagStart(l.peek(0)) {
+		// `r#` starts a raw string, also in a name
+		if isTagStart(l.peek(0)) && !strings.HasPrefix(l.source[l.pos:], "r#") {
 			nameStart := l.pos
-			for isTagChar(l.peek(0)) {
+			for isTagChar(l.peek(0)) && !strings.HasPrefix(l.source[l.pos:], "r#") {
 				l.advance()
 			}
 			name := l.source[nameStart:l.pos]
-			return &Token{TokenTag, name, Span{start, l.bytePos}, hadWhitespace, hadNewline}, nil
+			return &Token{TokenTag, name, Span{start, l.bytePos}, hadWhitespace, hadNewline, nil, false}, nil
 		}
-		return &Token{TokenAt, "@", Span{start, l.bytePos}, hadWhitespace, hadNewline}, nil
+		return &Token{TokenAt, "@", Span{start, l.bytePos}, hadWhitespace, hadNewline, nil, false}, nil
 	}
 
 	// Quoted string
@@ -221,7 +244,14 @@ func (l *Lexer) nextToken() (*Token, error) {
 		}
 	}
 
-	// Bare scalar
+	// Bare scalar - cannot start with = or other white space
+	if ch == '=' || isSpecialChar(ch) {
+		l.advance()
+		return nil, &ParseError{
+			Message: "unexpected token",
+			Span:    Span{start, l.bytePos},
+		}
+	}
 	return l.readBareScalar(start, hadWhitespace, hadNewline)
 }
 
@@ -233,7 +263,7 @@ func (l *Lexer) readQuotedString(start int, hadWhitespace, hadNewline bool) (*To
 		ch := l.peek(0)
 		if ch == '"' {
 			l.advance()
-			return &Token{TokenQuoted, text.String(), Span{start, l.bytePos}, hadWhitespace, hadNewline}, nil
+			return &Token{TokenQuoted, text.String(), Span{start, l.bytePos}, hadWhitespace, hadNewline, nil, false}, nil
 		}
 		if ch == '\\' {
 			escapeStart := l.bytePos
@@ -251,7 +281,7 @@ func (l *Lexer) readQuotedString(start int, hadWhitespace, hadNewline bool) (*To
 			case '"':
 				text.WriteByte('"')
 			case 'u':
-				r, err := l.readUnicodeEscape()
+				r, err := l.readUnicodeEscape(escapeStart)
 				if err != nil {
 					return nil, err
 				}
@@ -262,13 +292,6 @@ func (l *Lexer) readQuotedString(start int, hadWhitespace, hadNewline bool) (*To
 					Span:    Span{escapeStart, l.bytePos},
 				}
 			}
-		} else if ch == '\n' || ch == '\r' {
-			// Unterminated string - include the newline in the span
-			l.advance()
-			return nil, &ParseError{
-				Message: "unexpected token",
-				Span:    Span{start, l.bytePos},
-			}
 		} else {
 			text.WriteRune(l.advance())
 		}
@@ -281,49 +304,27 @@ func (l *Lexer) readQuotedString(start int, hadWhitespace, hadNewline bool) (*To
 	}
 }
 
-func (l *Lexer) readUnicodeEscape() (rune, error) {
-	if l.peek(0) == '{' {
-		l.advance()
-		var hexStr strings.Builder
-		for l.peek(0) != '}' && l.pos < len(l.source) {
-			hexStr.WriteRune(l.advance())
-		}
-		l.advance() // }
-		var r rune
-		_, err := parseHex(hexStr.String(), &r)
-		if err != nil {
-			return 0, err
+// readUnicodeEscape reads the rest of `\u{X...}` or `\uXXXX`.
+func (l *Lexer) readUnicodeEscape(escapeStart int) (rune, error) {
+	rest := l.source[l.pos:]
+	digits, size := "", 0
+	if strings.HasPrefix(rest, "{") {
+		if end := strings.IndexByte(rest, '}'); end > 0 {
+			digits, size = rest[1:end], end+1
 		}
-		return r, nil
+	} else if len(rest) >= 4 {
+		digits, size = rest[:4], 4
 	}
-
-	var hexStr strings.Builder
-	for i := 0; i < 4; i++ {
-		hexStr.WriteRune(l.advance())
-	}
-	var r rune
-	_, err := parseHex(hexStr.String(), &r)
-	if err != nil {
-		return 0, err
-	}
-	return r, nil
-}
-
-func parseHex(s string, r *rune) (int, error) {
-	var val rune
-	for _, ch := range s {
-		val *= 16
-		switch {
-		case ch >= '0' && ch <= '9':
-			val += ch - '0'
-		case ch >= 'a' && ch <= 'f':
-			val += ch - 'a' + 10
-		case ch >= 'A' && ch <= 'F':
-			val += ch - 'A' + 10
+	val, err := strconv.ParseUint(digits, 16, 32)
+	if err != nil || !utf8.ValidRune(rune(val)) {
+		return 0, &ParseError{
+			Message: "invalid escape sequence: \\u",
+			Span:    Span{escapeStart, l.bytePos},
 		}
 	}
-	*r = val
-	return len(s), nil
+	l.pos += size
+	l.bytePos += size
+	return rune(val), nil
 }
 
 func (l *Lexer) readRawString(start int, hadWhitespace, hadNewline bool) (*Token, error) {
@@ -333,6 +334,12 @@ func (l *Lexer) readRawString(start int, hadWhitespace, hadNewline bool) (*Token
 		l.advance()
 		hashes++
 	}
+	if l.peek(0) != '"' {
+		return nil, &ParseError{
+			Message: "unexpected token",
+			Span:    Span{start, l.bytePos},
+		}
+	}
 	l.advance() // opening "
 
 	var text strings.Builder
@@ -343,7 +350,7 @@ func (l *Lexer) readRawString(start int, hadWhitespace, hadNewline bool) (*Token
 			for i := 0; i < len(closePattern); i++ {
 				l.advance()
 			}
-			return &Token{TokenRaw, text.String(), Span{start, l.bytePos}, hadWhitespace, hadNewline}, nil
+			return &Token{TokenRaw, text.String(), Span{start, l.bytePos}, hadWhitespace, hadNewline, nil, false}, nil
 		}
 		text.WriteRune(l.advance())
 	}
@@ -362,6 +369,12 @@ func (l *Lexer) readHeredoc(start int, hadWhitespace, hadNewline bool) (*Token,
 	for l.pos < len(l.source) && l.peek(0) != '\n' {
 		delimiter.WriteRune(l.advance())
 	}
+	if !isHeredocDelimiter(strings.TrimSuffix(delimiter.String(), "\r")) {
+		return nil, &ParseError{
+			Message: "unexpected token",
+			Span:    Span{start, l.bytePos},
+		}
+	}
 	if l.pos < len(l.source) {
 		l.advance() // newline
 	}
@@ -370,12 +383,16 @@ func (l *Lexer) readHeredoc(start int, hadWhitespace, hadNewline bool) (*Token,
 	contentStart := l.bytePos
 
 	var text strings.Builder
-	delimStr := delimiter.String()
+	delimStr := strings.TrimSuffix(delimiter.String(), "\r")
 	bareDelimiter := strings.SplitN(delimStr, ",", 2)[0]
 
 	for l.pos < len(l.source) {
 		var line strings.Builder
 		for l.pos < len(l.source) && l.peek(0) != '\n' {
+			// The line may end in CRLF
+			if strings.HasPrefix(l.source[l.pos:], "\r\n") && strings.TrimLeft(line.String(), " \t") == bareDelimiter {
+				break
+			}
 			line.WriteRune(l.advance())
 		}
 
@@ -384,7 +401,7 @@ func (l *Lexer) readHeredoc(start int, hadWhitespace, hadNewline bool) (*Token,
 		// Check for exact match (no indentation)
 		if lineStr == bareDelimiter {
 			result := text.String()
-			return &Token{TokenHeredoc, result, Span{start, l.bytePos}, hadWhitespace, hadNewline}, nil
+			return &Token{TokenHeredoc, result, Span{start, l.bytePos}, hadWhitespace, hadNewline, nil, false}, nil
 		}
 
 		// Check for indented closing delimiter
@@ -393,7 +410,7 @@ func (l *Lexer) readHeredoc(start int, hadWhitespace, hadNewline bool) (*Token,
 			indentLen := len(lineStr) - len(stripped)
 			// Dedent the content by stripping up to indentLen from each line
 			result := dedentHeredoc(text.String(), indentLen)
-			return &Token{TokenHeredoc, result, Span{start, l.bytePos}, hadWhitespace, hadNewline}, nil
+			return &Token{TokenHeredoc, result, Span{start, l.bytePos}, hadWhitespace, hadNewline, nil, false}, nil
 		}
 
 		text.WriteString(lineStr)
@@ -410,6 +427,21 @@ func (l *Lexer) readHeredoc(start int, hadWhitespace, hadNewline bool) (*Token,
 	}
 }
 
+// isHeredocDelimiter checks a delimiter, which a language hint may follow.
+func isHeredocDelimiter(s string) bool {
+	name, _, _ := strings.Cut(s, ",")
+	if len(name) > 16 {
+		return false
+	}
+	for i, ch := range name {
+		isUpper := ch >= 'A' && ch <= 'Z'
+		if !isUpper && (i == 0 || (ch != '_' && (ch < '0' || ch > '9'))) {
+			return false
+		}
+	}
+	return name != ""
+}
+
 // dedentHeredoc strips up to indentLen whitespace characters from the start of each line.
 func dedentHeredoc(content string, indentLen int) string {
 	lines := strings.Split(content, "\n")
@@ -440,5 +472,5 @@ func (l *Lexer) readBareScalar(start int, hadWhitespace, hadNewline bool) (*Toke
 		}
 		text.WriteRune(l.advance())
 	}
-	return &Token{TokenScalar, text.String(), Span{start, l.bytePos}, hadWhitespace, hadNewline}, nil
+	return &Token{TokenScalar, text.String(), Span{start, l.bytePos}, hadWhitespace, hadNewline, nil, false}, nil
 }
diff --git a/implementations/styx-go/parser.go b/implementations/styx-go/parser.go
index dd1d29a..114e059 100644
--- a/implementations/styx-go/parser.go
+++ b/implementations/styx-go/parser.go
@@ -181,28 +181,21 @@ func (p *parser) parse() (*Document, error) {
 	ps := newPathState()
 
 	// Skip any leading commas
-	for p.check(TokenComma) {
-		p.advance()
-	}
+	p.skipCommas()
 
 	// Check for explicit root object: { ... } at document start
-	if p.check(TokenLBrace) {
-		// Explicit root object - parse it and check for trailing content
+	if p.check(TokenLBrace) && p.current.DocCommentBefore == nil {
+		// Explicit root object - its entries are the document's
 		obj, err := p.parseObject()
 		if err != nil {
 			return nil, err
 		}
-		objValue := &Value{Span: obj.Span, PayloadKind: PayloadObject, Object: obj}
-		unitKey := &Value{Span: Span{-1, -1}}
-		entries = append(entries, &Entry{Key: unitKey, Value: objValue})
 
 		// After explicit root object, only whitespace/comments/EOF are allowed
-		// Skip commas (they don't count as "content")
-		for p.check(TokenComma) {
-			p.advance()
+		if p.err != nil {
+			return nil, p.err
 		}
-
-		if !p.check(TokenEOF) {
+		if !p.check(TokenEOF) || p.current.DocCommentBefore != nil {
 			// Find the span of trailing content
 			trailingStart := p.current.Span.Start
 			// Consume tokens to find the end of all trailing content
@@ -218,7 +211,7 @@ func (p *parser) parse() (*Document, error) {
 		}
 
 		return &Document{
-			Entries: entries,
+			Entries: obj.Entries,
 			Span:    Span{start, p.current.Span.End},
 		}, nil
 	}
@@ -233,8 +226,17 @@ func (p *parser) parse() (*Document, error) {
 		}
 		if entry != nil {
 			entries = append(entries, entry)
+		} else if p.check(TokenRBrace) {
+			// There is no object to close here
+			return nil, &ParseError{Message: "unexpected token", Span: p.current.Span}
 		}
 	}
+	if p.err != nil {
+		return nil, p.err
+	}
+	if err := p.refuseDanglingDocComment(); err != nil {
+		return nil, err
+	}
 
 	return &Document{
 		Entries: entries,
@@ -242,10 +244,33 @@ func (p *parser) parse() (*Document, error) {
 	}, nil
 }
 
-func (p *parser) parseEntryWithPathCheck(ps *pathState) (*Entry, error) {
+// skipCommas skips commas between entries; a doc comment before one belongs to what follows it.
+func (p *parser) skipCommas() {
 	for p.check(TokenComma) {
-		p.advance()
+		doc := p.advance().DocCommentBefore
+		if p.current.DocCommentBefore == nil {
+			p.current.DocCommentBefore = doc
+		}
+	}
+}
+
+// refuseDanglingDocComment: a doc comment at the end of an object documents nothing.
+func (p *parser) refuseDanglingDocComment() error {
+	if p.current.DocCommentBefore != nil {
+		return &ParseError{
+			Message: "doc comment not followed by an entry",
+			Span:    *p.current.DocCommentBefore,
+		}
 	}
+	return nil
+}
+
+func (p *parser) atEntryEnd() bool {
+	return p.current.HadNewlineBefore || p.check(TokenEOF, TokenRBrace, TokenComma)
+}
+
+func (p *parser) parseEntryWithPathCheck(ps *pathState) (*Entry, error) {
+	p.skipCommas()
 
 	if p.err != nil {
 		return nil, p.err
@@ -255,6 +280,7 @@ func (p *parser) parseEntryWithPathCheck(ps *pathState) (*Entry, error) {
 		return nil, nil
 	}
 
+	keyStart := p.current.Span.Start
 	key, err := p.parseValue()
 	if err != nil {
 		return nil, err
@@ -262,131 +288,84 @@ func (p *parser) parseEntryWithPathCheck(ps *pathState) (*Entry, error) {
 	if p.err != nil {
 		return nil, p.err
 	}
-
-	// Special case: object in key position gets implicit unit key
-	if key.PayloadKind == PayloadObject {
-		if !p.current.HadNewlineBefore && !p.check(TokenEOF, TokenRBrace, TokenComma) {
-			p.parseValue() // Drop trailing value
-		}
-		unitKey := &Value{Span: Span{-1, -1}}
-		return &Entry{Key: unitKey, Value: key}, nil
-	}
-
-	// Check for dotted path in bare scalar key
-	if key.PayloadKind == PayloadScalar && key.Scalar.Kind == ScalarBare {
-		text := key.Scalar.Text
-		if strings.Contains(text, ".") {
-			return p.expandDottedPathWithState(text, key.Span, ps)
-		}
+	if key.Tag != nil {
+		// The span of a tagged key covers its payload
+		key.Span = Span{keyStart, key.Span.End}
 	}
 
 	if err := p.validateKey(key); err != nil {
 		return nil, err
 	}
 
-	// Get key text for path tracking
-	keyText := p.getKeyText(key)
-
-	// Check for implicit unit
-	if p.current.HadNewlineBefore || p.check(TokenEOF, TokenRBrace) {
-		// Validate path
-		if keyText != "" {
-			if err := ps.checkAndUpdate([]string{keyText}, key.Span, pathValueTerminal); err != nil {
-				return nil, err
-			}
+	// A bare key directly followed by a block looks like a tag
+	isBare := key.PayloadKind == PayloadScalar && key.Scalar.Kind == ScalarBare
+	if isBare && p.check(TokenLBrace, TokenLParen) && !p.current.HadWhitespaceBefore {
+		return nil, &ParseError{
+			Message: "missing whitespace before `{` or `(` (required after bare scalar to distinguish from tag syntax like `@tag{}`)",
+			Span:    p.current.Span,
 		}
-		return &Entry{Key: key, Value: &Value{Span: key.Span}}, nil
-	}
-
-	value, err := p.parseValue()
-	if err != nil {
-		return nil, err
 	}
 
-	// Determine value kind and validate path
-	if keyText != "" {
-		kind := pathValueTerminal
-		if value.PayloadKind == PayloadObject {
-			kind = pathValueObject
-		}
-		if err := ps.checkAndUpdate([]string{keyText}, key.Span, kind); err != nil {
+	// Parse the value; a key alone has the unit value
+	value := &Value{Span: key.Span}
+	if !p.atEntryEnd() {
+		if value, err = p.parseValue(); err != nil {
 			return nil, err
 		}
 	}
-
-	return &Entry{Key: key, Value: value}, nil
-}
-
-func (p *parser) parseEntryWithDupCheck(seenKeys map[string]Span) (*Entry, error) {
-	for p.check(TokenComma) {
-		p.advance()
-	}
-
-	if p.err != nil {
-		return nil, p.err
-	}
-
-	if p.check(TokenEOF, TokenRBrace) {
-		return nil, nil
-	}
-
-	key, err := p.parseValue()
-	if err != nil {
-		return nil, err
-	}
 	if p.err != nil {
 		return nil, p.err
 	}
 
-	// Special case: object in key position gets implicit unit key
-	if key.PayloadKind == PayloadObject {
-		if !p.current.HadNewlineBefore && !p.check(TokenEOF, TokenRBrace, TokenComma) {
-			p.parseValue() // Drop trailing value
+	if !p.atEntryEnd() {
+		return nil, &ParseError{
+			Message: "unexpected atom after value (entry has too many atoms)",
+			Span:    p.current.Span,
 		}
-		unitKey := &Value{Span: Span{-1, -1}}
-		return &Entry{Key: unitKey, Value: key}, nil
 	}
 
-	// Check for duplicate key
-	keyText := p.getKeyText(key)
-	if keyText != "" {
-		if _, exists := seenKeys[keyText]; exists {
-			return nil, &ParseError{Message: "duplicate key", Span: key.Span}
-		}
-		seenKeys[keyText] = key.Span
+	// A doc comment after an entry on its line documents nothing, but is not dangling
+	if !p.current.DocCommentOnOwnLine {
+		p.current.DocCommentBefore = nil
 	}
 
-	if err := p.validateKey(key); err != nil {
-		return nil, err
+	// Check for dotted path in bare scalar key
+	if isBare && strings.Contains(key.Scalar.Text, ".") {
+		return p.expandDottedPathWithState(key.Scalar.Text, key.Span, value, ps)
 	}
 
-	// Check for implicit unit
-	if p.current.HadNewlineBefore || p.check(TokenEOF, TokenRBrace) {
-		return &Entry{Key: key, Value: &Value{Span: key.Span}}, nil
+	// Determine value kind and validate path
+	kind := pathValueTerminal
+	if value.PayloadKind == PayloadObject {
+		kind = pathValueObject
 	}
-
-	value, err := p.parseValue()
-	if err != nil {
+	if err := ps.checkAndUpdate([]string{p.getKeyText(key)}, key.Span, kind); err != nil {
 		return nil, err
 	}
+
 	return &Entry{Key: key, Value: value}, nil
 }
 
+// getKeyText returns what makes a key the same as another. A tag is not part of a scalar's text.
 func (p *parser) getKeyText(key *Value) string {
+	tag := ""
+	if key.Tag != nil {
+		tag = "\x00@" + key.Tag.Name + "\x00"
+	}
 	if key.PayloadKind == PayloadScalar {
-		return key.Scalar.Text
+		return tag + key.Scalar.Text
 	}
-	if key.Tag != nil && key.PayloadKind == PayloadNone {
-		return "@" + key.Tag.Name
+	if tag == "" {
+		return "\x00@"
 	}
-	return ""
+	return tag
 }
 
 func (p *parser) validateKey(key *Value) error {
-	if key.PayloadKind == PayloadSequence {
+	if key.PayloadKind == PayloadSequence || key.PayloadKind == PayloadObject {
 		return &ParseError{Message: "invalid key", Span: key.Span}
 	}
-	if key.PayloadKind == PayloadScalar && key.Scalar.Kind == ScalarHeredoc {
+	if key.PayloadKind == PayloadScalar && key.Scalar.Kind == ScalarHeredoc && key.Tag == nil {
 		// Point at just the opening marker (<<TAG), not the whole content
 		errorSpan := p.heredocStartSpan(key.Scalar.Span)
 		return &ParseError{Message: "invalid key", Span: errorSpan}
@@ -405,7 +384,7 @@ func (p *parser) heredocStartSpan(heredocSpan Span) Span {
 	return Span{Start: heredocSpan.Start, End: heredocSpan.Start + endOffset}
 }
 
-func (p *parser) expandDottedPathWithState(pathText string, span Span, ps *pathState) (*Entry, error) {
+func (p *parser) expandDottedPathWithState(pathText string, span Span, value *Value, ps *pathState) (*Entry, error) {
 	segments := strings.Split(pathText, ".")
 
 	for _, s := range segments {
@@ -423,11 +402,6 @@ func (p *parser) expandDottedPathWithState(pathText string, span Span, ps *pathS
 		offset += segmentBytes + 1 // +1 for the dot
 	}
 
-	value, err := p.parseValue()
-	if err != nil {
-		return nil, err
-	}
-
 	// Determine value kind for path tracking
 	kind := pathValueTerminal
 	if value.PayloadKind == PayloadObject {
@@ -473,35 +447,6 @@ func (p *parser) expandDottedPathWithState(pathText string, span Span, ps *pathS
 	return &Entry{Key: outerKey, Value: result}, nil
 }
 
-func (p *parser) parseAttributeValue() (*Value, error) {
-	if p.check(TokenLBrace) {
-		obj, err := p.parseObject()
-		if err != nil {
-			return nil, err
-		}
-		return &Value{Span: obj.Span, PayloadKind: PayloadObject, Object: obj}, nil
-	}
-	if p.check(TokenLParen) {
-		seq, err := p.parseSequence()
-		if err != nil {
-			return nil, err
-		}
-		return &Value{Span: seq.Span, PayloadKind: PayloadSequence, Sequence: seq}, nil
-	}
-	if p.check(TokenTag) {
-		return p.parseTagValue()
-	}
-	if p.check(TokenAt) {
-		atToken := p.advance()
-		return &Value{Span: atToken.Span}, nil
-	}
-	scalar, err := p.parseScalar()
-	if err != nil {
-		return nil, err
-	}
-	return &Value{Span: scalar.Span, PayloadKind: PayloadScalar, Scalar: scalar}, nil
-}
-
 func (p *parser) parseTagValue() (*Value, error) {
 	start := p.current.Span.Start
 	tagToken := p.advance()
@@ -541,6 +486,12 @@ func (p *parser) parseTagValue() (*Value, error) {
 		}
 		if p.check(TokenAt) {
 			atToken := p.advance()
+			if p.check(TokenScalar) && !p.current.HadWhitespaceBefore {
+				return nil, &ParseError{
+					Message: "invalid tag name",
+					Span:    Span{start, p.current.Span.End},
+				}
+			}
 			return &Value{Span: atToken.Span, Tag: tag}, nil
 		}
 	}
@@ -555,7 +506,7 @@ func (p *parser) parseValue() (*Value, error) {
 
 	if p.check(TokenAt) {
 		atToken := p.advance()
-		if !p.current.HadWhitespaceBefore && !p.check(TokenEOF, TokenRBrace, TokenRParen, TokenComma, TokenLBrace, TokenLParen) {
+		if !p.current.HadWhitespaceBefore && !p.check(TokenEOF, TokenRBrace, TokenRParen, TokenComma, TokenLBrace, TokenLParen, TokenQuoted, TokenHeredoc, TokenAt, TokenTag) {
 			// Error span includes the @ (it's part of the tag)
 			return nil, &ParseError{Message: "invalid tag name", Span: Span{atToken.Span.Start, p.current.Span.End}}
 		}
@@ -634,7 +585,7 @@ func (p *parser) parseAttributesAfterGT(firstKeyToken *Token) (*Value, error) {
 			Span: firstKeyToken.Span,
 		},
 	}
-	firstValue, err := p.parseAttributeValue()
+	firstValue, err := p.parseValue()
 	if err != nil {
 		return nil, err
 	}
@@ -661,6 +612,12 @@ func (p *parser) parseAttributesAfterGT(firstKeyToken *Token) (*Value, error) {
 			}
 		}
 
+		for _, attr := range attrs {
+			if p.getKeyText(attr.Key) == keyToken.Text {
+				return nil, &ParseError{Message: "duplicate key", Span: keyToken.Span}
+			}
+		}
+
 		attrKey := &Value{
 			Span:        keyToken.Span,
 			PayloadKind: PayloadScalar,
@@ -671,7 +628,7 @@ func (p *parser) parseAttributesAfterGT(firstKeyToken *Token) (*Value, error) {
 			},
 		}
 
-		attrValue, err := p.parseAttributeValue()
+		attrValue, err := p.parseValue()
 		if err != nil {
 			return nil, err
 		}
@@ -718,21 +675,16 @@ func (p *parser) parseObject() (*Object, error) {
 	}
 	start := openBrace.Span.Start
 	entries := []*Entry{}
-	seenKeys := make(map[string]Span)
+	ps := newPathState()
 
 	for !p.check(TokenRBrace, TokenEOF) {
-		entry, err := p.parseEntryWithDupCheck(seenKeys)
+		entry, err := p.parseEntryWithPathCheck(ps)
 		if err != nil {
 			return nil, err
 		}
 		if entry != nil {
 			entries = append(entries, entry)
 		}
-
-		// Skip commas (mixed separators are allowed)
-		if p.check(TokenComma) {
-			p.advance()
-		}
 	}
 
 	if p.check(TokenEOF) {
@@ -742,6 +694,10 @@ func (p *parser) parseObject() (*Object, error) {
 		}
 	}
 
+	if err := p.refuseDanglingDocComment(); err != nil {
+		return nil, err
+	}
+
 	closeBrace, err := p.expect(TokenRBrace)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From b04deb520fee1a8c2307e66e69877a8ea7e25808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:26 +0000
Subject: [PATCH 62/64] fix: hover, definition and completion follow the
 schema's types

Hover and goto definition found a field by its last name anywhere, and types were followed
through objects and references only. They now follow optional, default, deprecated, map, seq,
tuple, enum (by the tag of the document), union, flatten and catch-all types. Completion offers the
fields of objects in sequences and of flattened types instead of the name of the flattened entry,
and types that refer to themselves no longer overflow the stack.
---
 crates/styx-lsp/src/lib.rs               |   1 +
 crates/styx-lsp/src/schema_lookup.rs     | 198 +++++++++++++++
 crates/styx-lsp/src/schema_validation.rs | 178 ++++++++-----
 crates/styx-lsp/src/server.rs            | 306 +++--------------------
 4 files changed, 350 insertions(+), 333 deletions(-)
 create mode 100644 crates/styx-lsp/src/schema_lookup.rs

diff --git a/crates/styx-lsp/src/lib.rs b/crates/styx-lsp/src/lib.rs
index 12db026..29c9bba 100644
--- a/crates/styx-lsp/src/lib.rs
+++ b/crates/styx-lsp/src/lib.rs
@@ -12,6 +12,7 @@ pub mod cache;
 pub mod config;
 pub mod extensions;
 pub mod schema_hints;
+mod schema_lookup;
 mod schema_validation;
 pub mod semantic_tokens;
 mod server;
diff --git a/crates/styx-lsp/src/schema_lookup.rs b/crates/styx-lsp/src/schema_lookup.rs
new file mode 100644
index 0000000..183be76
--- /dev/null
+++ b/crates/styx-lsp/src/schema_lookup.rs
@@ -0,0 +1,198 @@
+//! What a schema says about a place in a document.
+//!
+//! Works on the schema's tree, so that what is found has a span and a doc comment.
+
+use styx_tree::{Entry, Object, Value};
+
+/// What a schema says about a field.
+#[derive(Clone, Copy)]
+pub struct FieldSchema<'a> {
+    /// The schema's entry for the field; `None` for a key of a map or a catch-all.
+    pub entry: Option<&'a Entry>,
+    /// The type of the field.
+    pub ty: &'a Value,
+}
+
+/// Look up the field at `path` (field names and sequence indices) of a document.
+///
+/// `document` is the value the path starts from; its tags select the variants of enums. Without
+/// it, all variants are searched.
+pub fn find_field<'a>(
+    schema: &'a Value,
+    document: Option<&Value>,
+    path: &[&str],
+) -> Option<FieldSchema<'a>> {
+    let defs = schema.as_object()?.get("schema")?.as_object()?;
+    let document: Vec<&Value> = document.into_iter().collect();
+    find_in_type(defs, defs.get_unit()?, &document, path)
+}
+
+fn find_in_type<'a>(
+    defs: &'a Object,
+    ty: &'a Value,
+    document: &[&Value],
+    path: &[&str],
+) -> Option<FieldSchema<'a>> {
+    let (segment, rest) = path.split_first()?;
+    // Dotted paths with the same prefix are separate entries
+    let mut children = Vec::new();
+    for value in document {
+        if let Some(obj) = value.as_object() {
+            let entries = obj.entries.iter();
+            let entries = entries.filter(|entry| entry.key.as_str() == Some(segment));
+            children.extend(entries.map(|entry| &entry.value));
+        } else if let Some(seq) = value.as_sequence()
+            && let Ok(index) = segment.parse::<usize>()
+        {
+            children.extend(seq.items.get(index));
+        }
+    }
+
+    let tag = match document.first() {
+        None => Tag::Unknown,
+        Some(value) => value.tag_name().map_or(Tag::None, Tag::Named),
+    };
+    let mut types = Vec::new();
+    expand(defs, ty, tag, &mut Vec::new(), &mut types);
+    types.into_iter().find_map(|ty| {
+        let found = step(defs, ty, segment)?;
+        if rest.is_empty() {
+            Some(found)
+        } else {
+            find_in_type(defs, found.ty, &children, rest)
+        }
+    })
+}
+
+/// The tag of a value in a document.
+#[derive(Clone, Copy)]
+enum Tag<'t> {
+    Unknown,
+    None,
+    Named(&'t str),
+}
+
+/// Collect the types a value may have, without wrappers (`@optional`), references and enums.
+fn expand<'a>(
+    defs: &'a Object,
+    ty: &'a Value,
+    tag: Tag<'_>,
+    seen: &mut Vec<*const Value>,
+    types: &mut Vec<&'a Value>,
+) {
+    // A type may refer to itself
+    if seen.contains(&(ty as *const Value)) {
+        return;
+    }
+    seen.push(ty);
+
+    let items = || ty.as_sequence().map_or(&[][..], |seq| &seq.items[..]);
+    match ty.tag_name() {
+        Some("optional" | "flatten" | "one-of") => {
+            if let Some(inner) = items().first() {
+                expand(defs, inner, tag, seen, types);
+            }
+        }
+        Some("default" | "deprecated") => {
+            if let Some(inner) = items().last() {
+                expand(defs, inner, tag, seen, types);
+            }
+        }
+        Some("union") => {
+            for inner in items() {
+                expand(defs, inner, tag, seen, types);
+            }
+        }
+        Some("enum") => {
+            for entry in ty.as_object().map_or(&[][..], |obj| &obj.entries[..]) {
+                match tag {
+                    Tag::Named(name) if entry.key.as_str() == Some(name) => {
+                        expand(defs, &entry.value, Tag::None, seen, types);
+                    }
+                    Tag::Named(_) => {}
+                    // An untagged value may belong to any variant
+                    tag => expand(defs, &entry.value, tag, seen, types),
+                }
+            }
+        }
+        Some(name) if ty.payload.is_none() => {
+            if let Some(definition) = defs.get(name) {
+                expand(defs, definition, tag, seen, types);
+            }
+        }
+        _ => types.push(ty),
+    }
+    seen.pop();
+}
+
+/// Look up a key or an index in a type that has them.
+fn step<'a>(defs: &'a Object, ty: &'a Value, segment: &str) -> Option<FieldSchema<'a>> {
+    let inner = |ty| FieldSchema { entry: None, ty };
+    match ty.tag_name() {
+        Some("seq") => {
+            segment.parse::<usize>().ok()?;
+            ty.as_sequence()?.items.first().map(inner)
+        }
+        Some("tuple") => {
+            let index = segment.parse::<usize>().ok()?;
+            ty.as_sequence()?.items.get(index).map(inner)
+        }
+        // @map(@V) or @map(@K @V)
+        Some("map") => ty.as_sequence()?.items.last().map(inner),
+        Some("object") | None => find_in_object(defs, ty.as_object()?, segment, &mut Vec::new()),
+        _ => None,
+    }
+}
+
+fn find_in_object<'a>(
+    defs: &'a Object,
+    obj: &'a Object,
+    name: &str,
+    seen: &mut Vec<*const Object>,
+) -> Option<FieldSchema<'a>> {
+    if seen.contains(&(obj as *const Object)) {
+        return None;
+    }
+    seen.push(obj);
+
+    let is_flatten = |entry: &&Entry| entry.value.tag_name() == Some("flatten");
+    let named = obj
+        .entries
+        .iter()
+        .filter(|entry| !is_flatten(entry))
+        .find(|entry| entry.key.as_str() == Some(name));
+    if let Some(entry) = named {
+        return Some(FieldSchema {
+            entry: Some(entry),
+            ty: &entry.value,
+        });
+    }
+
+    let mut catch_all = None;
+    for entry in obj.entries.iter().filter(is_flatten) {
+        let mut types = Vec::new();
+        expand(
+            defs,
+            &entry.value,
+            Tag::Unknown,
+            &mut Vec::new(),
+            &mut types,
+        );
+        for obj in types.into_iter().filter_map(Value::as_object) {
+            match find_in_object(defs, obj, name, seen) {
+                Some(found) if found.entry.is_some() => return Some(found),
+                found => catch_all = catch_all.or(found),
+            }
+        }
+    }
+
+    // A catch-all like `@string @Value` or `@ @Value`
+    obj.entries
+        .iter()
+        .find(|entry| entry.key.payload.is_none())
+        .map(|entry| FieldSchema {
+            entry: None,
+            ty: &entry.value,
+        })
+        .or(catch_all)
+}
diff --git a/crates/styx-lsp/src/schema_validation.rs b/crates/styx-lsp/src/schema_validation.rs
index 4788dd9..6b46dde 100644
--- a/crates/styx-lsp/src/schema_validation.rs
+++ b/crates/styx-lsp/src/schema_validation.rs
@@ -355,18 +355,35 @@ pub fn get_schema_fields(schema_file: &SchemaFile) -> Vec<SchemaField> {
         return fields;
     };
 
-    collect_object_fields(root_schema, schema_file, &mut fields);
+    collect_object_fields(root_schema, schema_file, &mut Vec::new(), &mut fields);
     fields
 }
 
-/// Recursively collect fields from a schema, handling wrappers like @object.
-fn collect_object_fields(schema: &Schema, schema_file: &SchemaFile, fields: &mut Vec<SchemaField>) {
+/// Recursively collect fields from a schema, handling wrappers like @optional.
+///
+/// `seen` are the types being collected: a type may refer to itself.
+fn collect_object_fields(
+    schema: &Schema,
+    schema_file: &SchemaFile,
+    seen: &mut Vec<String>,
+    fields: &mut Vec<SchemaField>,
+) {
     match schema {
         Schema::Object(obj) => {
             for (key, field_schema) in &obj.0 {
                 // Skip the catch-all @ field (those with no name)
                 let Some(name) = key.name() else { continue };
 
+                // The fields of a flattened type are fields of this object
+                if let Schema::Flatten(_) = field_schema {
+                    collect_object_fields(field_schema, schema_file, seen, fields);
+                    continue;
+                }
+
+                if fields.iter().any(|field| field.name == name) {
+                    continue;
+                }
+
                 let (optional, default_value, inner_schema) =
                     unwrap_field_modifiers(field_schema.clone());
 
@@ -379,15 +396,26 @@ fn collect_object_fields(schema: &Schema, schema_file: &SchemaFile, fields: &mut
             }
         }
         Schema::Flatten(flatten) => {
-            collect_object_fields(&flatten.0.0, schema_file, fields);
+            collect_object_fields(&flatten.0.0, schema_file, seen, fields);
+        }
+        Schema::Optional(opt) => collect_object_fields(&opt.0.0, schema_file, seen, fields),
+        Schema::Default(def) => collect_object_fields(&def.0.1, schema_file, seen, fields),
+        Schema::Deprecated(dep) => collect_object_fields(&dep.0.1, schema_file, seen, fields),
+        Schema::Union(union) => {
+            for variant in &union.0 {
+                collect_object_fields(variant, schema_file, seen, fields);
+            }
         }
         Schema::Type {
             name: Some(type_name),
         } => {
             // Resolve the type reference and collect its fields
-            if let Some(type_schema) = schema_file.schema.get(&Some(type_name.clone())) {
-                let resolved = resolve_type_reference(type_schema, schema_file);
-                collect_object_fields(&resolved, schema_file, fields);
+            if !seen.contains(type_name)
+                && let Some(type_schema) = schema_file.schema.get(&Some(type_name.clone()))
+            {
+                seen.push(type_name.clone());
+                collect_object_fields(type_schema, schema_file, seen, fields);
+                seen.pop();
             }
         }
         _ => {}
@@ -570,39 +598,41 @@ fn find_object_at_offset_recursive(
     offset: usize,
     path: Vec<String>,
 ) -> Option<ObjectContext> {
+    let contains = |span: Option<styx_tree::Span>| {
+        span.is_some_and(|span| offset >= span.start as usize && offset <= span.end as usize)
+    };
+
+    if let Some(seq) = value.as_sequence() {
+        return seq.items.iter().enumerate().find_map(|(index, item)| {
+            if !contains(item.span) {
+                return None;
+            }
+            let item_path = extend_path(&path, Some(&index.to_string()), item);
+            find_object_at_offset_recursive(item, offset, item_path)
+        });
+    }
+
     let obj = value.as_object()?;
 
-    if let Some(span) = obj.span
-        && (offset < span.start as usize || offset > span.end as usize)
-    {
+    if obj.span.is_some() && !contains(obj.span) {
         return None;
     }
 
     for entry in &obj.entries {
-        if let Some(val_span) = entry.value.span
-            && offset >= val_span.start as usize
-            && offset <= val_span.end as usize
-            && let Some(nested_obj) = entry.value.as_object()
-        {
-            let mut nested_path = path.clone();
-            if let Some(key) = entry.key.as_str() {
-                nested_path.push(key.to_string());
-            }
-            // If the value has a tag (like @query), add it to the path
-            // This allows schema navigation to find enum variants
-            if let Some(tag) = entry.value.tag_name() {
-                nested_path.push(format!("@{}", tag));
-            }
+        if contains(entry.value.span) {
+            let nested_path = extend_path(&path, entry.key.as_str(), &entry.value);
             if let Some(deeper) =
                 find_object_at_offset_recursive(&entry.value, offset, nested_path.clone())
             {
                 return Some(deeper);
             }
-            return Some(ObjectContext {
-                path: nested_path,
-                object: nested_obj.clone(),
-                span: entry.value.span,
-            });
+            if let Some(nested_obj) = entry.value.as_object() {
+                return Some(ObjectContext {
+                    path: nested_path,
+                    object: nested_obj.clone(),
+                    span: entry.value.span,
+                });
+            }
         }
     }
 
@@ -613,16 +643,28 @@ fn find_object_at_offset_recursive(
     })
 }
 
+/// The path of a nested value: of a field (or an item of a sequence), then its tag, if any.
+fn extend_path(path: &[String], segment: Option<&str>, value: &Value) -> Vec<String> {
+    let mut path = path.to_vec();
+    path.extend(segment.map(str::to_string));
+    // If the value has a tag (like @query), add it to the path
+    // This allows schema navigation to find enum variants
+    path.extend(value.tag_name().map(|tag| format!("@{}", tag)));
+    path
+}
+
 /// Get the schema for a given path within a schema file.
 pub fn get_schema_at_path(schema_file: &SchemaFile, path: &[String]) -> Option<Schema> {
     let root_schema = schema_file.schema.get(&None)?;
-    get_schema_at_path_recursive(root_schema, path, schema_file)
+    get_schema_at_path_recursive(root_schema, path, schema_file, &mut Vec::new())
 }
 
+/// `seen` are the types looked into since the last segment: a type may refer to itself.
 fn get_schema_at_path_recursive(
     schema: &Schema,
     path: &[String],
     schema_file: &SchemaFile,
+    seen: &mut Vec<String>,
 ) -> Option<Schema> {
     if path.is_empty() {
         return Some(schema.clone());
@@ -630,6 +672,8 @@ fn get_schema_at_path_recursive(
 
     let field_name = &path[0];
     let rest = &path[1..];
+    let descend =
+        |inner: &Schema| get_schema_at_path_recursive(inner, rest, schema_file, &mut Vec::new());
 
     match schema {
         Schema::Object(obj) => {
@@ -637,8 +681,19 @@ fn get_schema_at_path_recursive(
             if let Some(field_schema) = obj
                 .0
                 .get(&Documented::new(ObjectKey::named(field_name.clone())))
+                && !matches!(field_schema, Schema::Flatten(_))
             {
-                return get_schema_at_path_recursive(field_schema, rest, schema_file);
+                return descend(field_schema);
+            }
+
+            // The fields of flattened types
+            for field_schema in obj.0.values() {
+                if let Schema::Flatten(flatten) = field_schema
+                    && let Some(found) =
+                        get_schema_at_path_recursive(&flatten.0.0, path, schema_file, seen)
+                {
+                    return Some(found);
+                }
             }
 
             // Try catch-all keys (like @string or @)
@@ -647,7 +702,7 @@ fn get_schema_at_path_recursive(
                 // or unit catch-all @ (tag = Some(""), value = None)
                 // key is Documented<ObjectKey>, so key.value is the ObjectKey
                 if key.value.value.is_none() && key.value.tag.is_some() {
-                    return get_schema_at_path_recursive(field_schema, rest, schema_file);
+                    return descend(field_schema);
                 }
             }
 
@@ -661,7 +716,7 @@ fn get_schema_at_path_recursive(
                     .0
                     .get(&Documented::new(variant_name.to_string()))
                 {
-                    return get_schema_at_path_recursive(variant_schema, rest, schema_file);
+                    return descend(variant_schema);
                 }
             }
             None
@@ -670,21 +725,37 @@ fn get_schema_at_path_recursive(
             // For @map(@V) or @map(@K @V), any key navigates to the value type.
             // If 1 element: that's the value type (key defaults to @string).
             // If 2 elements: first is key type, second is value type.
-            let value_schema = if map_schema.0.len() == 1 {
-                &map_schema.0[0].value
-            } else {
-                &map_schema.0[1].value
-            };
-            get_schema_at_path_recursive(value_schema, rest, schema_file)
+            descend(map_schema.0.last()?)
+        }
+        Schema::Seq(seq) => {
+            field_name.parse::<usize>().ok()?;
+            descend(&seq.0.0)
         }
-        Schema::Optional(opt) => get_schema_at_path_recursive(&opt.0.0, path, schema_file),
-        Schema::Default(def) => get_schema_at_path_recursive(&def.0.1, path, schema_file),
-        Schema::Deprecated(dep) => get_schema_at_path_recursive(&dep.0.1, path, schema_file),
+        Schema::Tuple(tuple) => {
+            let index = field_name.parse::<usize>().ok()?;
+            descend(tuple.0.get(index)?)
+        }
+        Schema::Union(union) => union
+            .0
+            .iter()
+            .find_map(|variant| get_schema_at_path_recursive(variant, path, schema_file, seen)),
+        Schema::Flatten(flatten) => {
+            get_schema_at_path_recursive(&flatten.0.0, path, schema_file, seen)
+        }
+        Schema::Optional(opt) => get_schema_at_path_recursive(&opt.0.0, path, schema_file, seen),
+        Schema::Default(def) => get_schema_at_path_recursive(&def.0.1, path, schema_file, seen),
+        Schema::Deprecated(dep) => get_schema_at_path_recursive(&dep.0.1, path, schema_file, seen),
         Schema::Type {
             name: Some(type_name),
         } => {
+            if seen.contains(type_name) {
+                return None;
+            }
             let type_schema = schema_file.schema.get(&Some(type_name.clone()))?;
-            get_schema_at_path_recursive(type_schema, path, schema_file)
+            seen.push(type_name.clone());
+            let found = get_schema_at_path_recursive(type_schema, path, schema_file, seen);
+            seen.pop();
+            found
         }
         _ => None,
     }
@@ -696,30 +767,11 @@ pub fn get_schema_fields_at_path(schema_file: &SchemaFile, path: &[String]) -> V
         return Vec::new();
     };
 
-    // Resolve type references to get the actual schema
-    let resolved = resolve_type_reference(&schema, schema_file);
-
     let mut fields = Vec::new();
-    collect_object_fields(&resolved, schema_file, &mut fields);
+    collect_object_fields(&schema, schema_file, &mut Vec::new(), &mut fields);
     fields
 }
 
-/// Resolve a type reference to its actual schema definition.
-fn resolve_type_reference(schema: &Schema, schema_file: &SchemaFile) -> Schema {
-    match schema {
-        Schema::Type {
-            name: Some(type_name),
-        } => {
-            if let Some(type_schema) = schema_file.schema.get(&Some(type_name.clone())) {
-                resolve_type_reference(type_schema, schema_file)
-            } else {
-                schema.clone()
-            }
-        }
-        other => other.clone(),
-    }
-}
-
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index d643e41..fa585bb 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -12,6 +12,7 @@ use tower_lsp::{Client, LanguageServer, LspService, Server};
 
 use crate::extensions::{ExtensionManager, ExtensionResult, get_extension_info};
 use crate::schema_hints::find_matching_hint;
+use crate::schema_lookup::{FieldSchema, find_field};
 use crate::schema_validation::{
     ObjectContext, SchemaField, find_object_at_offset, find_schema_declaration,
     find_tagged_context_at_offset, get_document_fields, get_error_span, get_schema_fields,
@@ -654,9 +655,9 @@ impl LanguageServer for StyxLanguageServer {
         }
 
         // Case 2: On a field name in a doc - jump to schema definition
-        if let Some(field_name) = find_field_key_at_offset(tree, offset)
+        if let Some(field_path) = find_field_path_at_offset(tree, offset)
             && let Some(ref schema) = resolved
-            && let Some(field_range) = find_field_in_schema_source(&schema.source, &field_name)
+            && let Some(field_range) = find_field_in_schema(&schema.source, Some(tree), &field_path)
         {
             return Ok(Some(GotoDefinitionResponse::Scalar(Location {
                 uri: schema.uri.clone(),
@@ -871,13 +872,14 @@ impl LanguageServer for StyxLanguageServer {
         // Case 3: Fallback to schema-based field hover
         if let Some(field_path) = find_field_path_at_offset(tree, offset)
             && let Some(ref schema) = resolved
+            && let Ok(schema_tree) = styx_tree::parse(&schema.source)
         {
             let path_refs: Vec<&str> = field_path.iter().map(|s| s.as_str()).collect();
 
-            if let Some(field_info) = get_field_info_from_schema(&schema.source, &path_refs) {
+            if let Some(field) = find_field(&schema_tree, Some(tree), &path_refs) {
                 // Create a link to the field in the schema
-                let field_name = field_path.last().map(|s| s.as_str()).unwrap_or("");
-                let field_range = find_field_in_schema_source(&schema.source, field_name);
+                let field_range = field_range(&field, &schema.source);
+                let field_info = FieldInfo::from(field);
                 let schema_link = {
                     let mut link_uri = schema.uri.clone();
                     if let Some(range) = field_range {
@@ -2237,6 +2239,26 @@ fn find_path_in_value(value: &Value, offset: usize) -> Option<Vec<PathSegment>>
     None
 }
 
+/// Find the definition of a field in a schema, by the field's path in a document
+fn find_field_in_schema(
+    schema_source: &str,
+    document: Option<&Value>,
+    field_path: &[String],
+) -> Option<Range> {
+    let schema = styx_tree::parse(schema_source).ok()?;
+    let path: Vec<&str> = field_path.iter().map(|s| s.as_str()).collect();
+    field_range(&find_field(&schema, document, &path)?, schema_source)
+}
+
+/// The range of a field's name in the schema that defines it
+fn field_range(field: &FieldSchema<'_>, schema_source: &str) -> Option<Range> {
+    let span = field.entry?.key.span?;
+    Some(Range {
+        start: offset_to_position(schema_source, span.start as usize),
+        end: offset_to_position(schema_source, span.end as usize),
+    })
+}
+
 /// Find a field definition in schema source by field name
 fn find_field_in_schema_source(schema_source: &str, field_name: &str) -> Option<Range> {
     // Parse the schema file
@@ -2373,276 +2395,20 @@ struct FieldInfo {
     doc_comment: Option<String>,
 }
 
+#[cfg(test)]
 fn get_field_info_from_schema(schema_source: &str, field_path: &[&str]) -> Option<FieldInfo> {
-    let tree = styx_tree::parse(schema_source).ok()?;
-    let obj = tree.as_object()?;
-
-    // Find the schema block
-    let schema_value = obj
-        .entries
-        .iter()
-        .find(|e| e.key.as_str() == Some("schema"))
-        .map(|e| &e.value)?;
-
-    get_field_info_in_schema(schema_value, field_path)
-}
-
-/// Recursively get field info from a schema value, following a path.
-/// The schema_block is the full "schema { ... }" block for resolving type references.
-fn get_field_info_in_schema(schema_block: &Value, path: &[&str]) -> Option<FieldInfo> {
-    let schema_obj = schema_block.as_object()?;
-
-    // Find the root schema (@ entry)
-    let root = schema_obj
-        .entries
-        .iter()
-        .find(|e| e.key.is_unit())
-        .map(|e| &e.value)?;
-
-    get_field_info_in_type(root, path, schema_obj)
-}
-
-/// Recursively get field info from a type value, following a path.
-/// schema_defs contains all type definitions for resolving references like @Hint.
-fn get_field_info_in_type(
-    value: &Value,
-    path: &[&str],
-    schema_defs: &styx_tree::Object,
-) -> Option<FieldInfo> {
-    if path.is_empty() {
-        return None;
-    }
-
-    let field_name = path[0];
-    let remaining_path = &path[1..];
-
-    // Check if value is a @seq type - if so, skip numeric indices and recurse into element type
-    if let Some(seq_element_type) = extract_seq_element_type(value) {
-        // If the path segment is a numeric index, skip it and continue into the element type
-        if field_name.parse::<usize>().is_ok() {
-            // Resolve type reference if needed (e.g., @seq(@Spec) -> look up Spec)
-            let resolved = resolve_type_reference(seq_element_type, schema_defs);
-            return get_field_info_in_type(resolved, remaining_path, schema_defs);
-        }
-    }
-
-    // Check if value is a @map type - if so, any key is valid and returns the value type
-    if let Some(map_value_type) = extract_map_value_type(value) {
-        if remaining_path.is_empty() {
-            // We're hovering on a map key - return the value type
-            return Some(FieldInfo {
-                type_str: format_type_concise(map_value_type),
-                doc_comment: None, // Map keys don't have individual doc comments
-            });
-        } else {
-            // Need to go deeper into the map value type
-            // If it's a type reference like @Hint, resolve it first
-            let resolved = resolve_type_reference(map_value_type, schema_defs);
-            return get_field_info_in_type(resolved, remaining_path, schema_defs);
-        }
-    }
-
-    // Check if value is an @object{@KeyType @ValueType} (catch-all pattern)
-    // This handles schemas like `@ @object{@string @Decl}` where any string key is valid
-    if let Some(catchall_value_type) = extract_object_catchall_value_type(value) {
-        if remaining_path.is_empty() {
-            // We're hovering on a catch-all key - return the value type
-            return Some(FieldInfo {
-                type_str: format_type_concise(catchall_value_type),
-                doc_comment: None, // Catch-all keys don't have individual doc comments
-            });
-        } else {
-            // Need to go deeper into the catch-all value type
-            let resolved = resolve_type_reference(catchall_value_type, schema_defs);
-            return get_field_info_in_type(resolved, remaining_path, schema_defs);
-        }
-    }
-
-    // Check if value is an @enum type - if so, search all variants for the field
-    // This handles cases like `Decl @enum{query @Query}` where we need to look
-    // inside variant types (like @Query) to find nested fields (like `from`)
-    if let Some(enum_obj) = extract_enum_object(value) {
-        // Search all enum variants for the field
-        for entry in &enum_obj.entries {
-            // Resolve the variant's value type and recurse
-            let resolved = resolve_type_reference(&entry.value, schema_defs);
-            if let Some(info) = get_field_info_in_type(resolved, path, schema_defs) {
-                return Some(info);
-            }
-        }
-        return None;
-    }
-
-    // Try to get the object - handle various wrappings (also resolves type refs)
-    let obj = extract_object_from_value_with_defs(value, schema_defs)?;
-
-    for entry in &obj.entries {
-        if entry.key.as_str() == Some(field_name) {
-            if remaining_path.is_empty() {
-                // This is the target field
-                return Some(FieldInfo {
-                    type_str: format_type_concise(&entry.value),
-                    doc_comment: entry.doc_comment.clone(),
-                });
-            } else {
-                // Need to go deeper - unwrap wrappers like @optional
-                return get_field_info_in_type(&entry.value, remaining_path, schema_defs);
-            }
-        }
-
-        // Check unit key entries (root schema)
-        if entry.key.is_unit()
-            && let Some(found) = get_field_info_in_type(&entry.value, path, schema_defs)
-        {
-            return Some(found);
-        }
-    }
-
-    None
-}
-
-/// Resolve a type reference like @Hint to its definition in the schema.
-/// Returns the original value if it's not a type reference.
-fn resolve_type_reference<'a>(value: &'a Value, schema_defs: &'a styx_tree::Object) -> &'a Value {
-    // Check if this is a type reference (tag with no payload or unit payload)
-    if let Some(tag) = &value.tag {
-        let is_type_ref = match &value.payload {
-            None => true,
-            Some(styx_tree::Payload::Scalar(s)) if s.text.is_empty() => true,
-            _ => false,
-        };
-
-        if is_type_ref {
-            // Look for a definition with this name in schema_defs
-            for entry in &schema_defs.entries {
-                if entry.key.as_str() == Some(&tag.name) {
-                    return &entry.value;
-                }
-            }
-        }
-    }
-    value
-}
-
-/// Extract the element type from a @seq type.
-/// For @seq(@Spec), returns @Spec.
-/// Also handles @optional(@seq(@T)) by unwrapping the optional first.
-fn extract_seq_element_type(value: &Value) -> Option<&Value> {
-    let tag = value.tag.as_ref()?;
-
-    // Direct @seq(@T)
-    if tag.name == "seq" {
-        let seq = value.as_sequence()?;
-        return seq.items.first();
-    }
-
-    // Handle @optional(@seq(@T)) - unwrap the optional and check inside
-    if (tag.name == "optional" || tag.name == "default")
-        && let Some(seq) = value.as_sequence()
-    {
-        for item in &seq.items {
-            if let Some(element_type) = extract_seq_element_type(item) {
-                return Some(element_type);
-            }
-        }
-    }
-
-    None
-}
-
-/// Extract the value type from a @map type.
-/// For @map(@string @Hint), returns the @Hint value.
-/// For @map(@V), returns @V (single-arg map uses value as both key and value).
-fn extract_map_value_type(value: &Value) -> Option<&Value> {
-    let tag = value.tag.as_ref()?;
-    if tag.name != "map" {
-        return None;
-    }
-
-    // @map has a sequence payload: @map(@K @V) or @map(@V)
-    let seq = value.as_sequence()?;
-    match seq.items.len() {
-        1 => Some(&seq.items[0]), // @map(@V) - single type used as value
-        2 => Some(&seq.items[1]), // @map(@K @V) - second is value type
-        _ => None,
-    }
-}
-
-/// Extract the inner object from an `@enum{...}` type.
-///
-/// In Styx schemas, `@enum{variant1 @Type1, variant2 @Type2}` defines an enum
-/// with named variants. Each entry in the object is a variant name -> type mapping.
-///
-/// Returns Some(object) if the value is an @enum with object payload, None otherwise.
-fn extract_enum_object(value: &Value) -> Option<&styx_tree::Object> {
-    let tag = value.tag.as_ref()?;
-    if tag.name != "enum" {
-        return None;
-    }
-    value.as_object()
+    let schema = styx_tree::parse(schema_source).ok()?;
+    find_field(&schema, None, field_path).map(FieldInfo::from)
 }
 
-/// Extract the catch-all value type from an `@object{@KeyType @ValueType}` pattern.
-///
-/// In Styx schemas, `@object{@string @Decl}` means "an object where any string key
-/// maps to a value of type @Decl". The key entry has a tagged key (like `@string`)
-/// rather than a scalar key.
-///
-/// Returns Some(value_type) if the object has exactly one entry with a tagged key
-/// (indicating a catch-all pattern), None otherwise.
-fn extract_object_catchall_value_type(value: &Value) -> Option<&Value> {
-    // Must be @object{...}
-    let tag = value.tag.as_ref()?;
-    if tag.name != "object" {
-        return None;
-    }
-
-    let obj = value.as_object()?;
-
-    // Catch-all pattern: exactly one entry with a tagged key (like @string)
-    if obj.entries.len() == 1 {
-        let entry = &obj.entries[0];
-        // Key must be tagged (e.g., @string), not a scalar
-        if entry.key.tag.is_some() && entry.key.payload.is_none() {
-            return Some(&entry.value);
+impl From<FieldSchema<'_>> for FieldInfo {
+    fn from(field: FieldSchema<'_>) -> Self {
+        FieldInfo {
+            type_str: format_type_concise(field.ty),
+            // Keys of maps and catch-alls don't have individual doc comments
+            doc_comment: field.entry.and_then(|entry| entry.doc_comment.clone()),
         }
     }
-
-    None
-}
-
-/// Extract an object from a value, unwrapping wrappers like @optional, @default, etc.
-/// Also resolves type references using schema_defs.
-fn extract_object_from_value_with_defs<'a>(
-    value: &'a Value,
-    schema_defs: &'a styx_tree::Object,
-) -> Option<&'a styx_tree::Object> {
-    // First resolve if it's a type reference
-    let resolved = resolve_type_reference(value, schema_defs);
-
-    // Direct object
-    if let Some(obj) = resolved.as_object() {
-        return Some(obj);
-    }
-
-    // Tagged object like @object{...}
-    if resolved.tag.is_some() {
-        match &resolved.payload {
-            Some(styx_tree::Payload::Object(obj)) => return Some(obj),
-            // Handle @optional(@object{...}) or @optional(@TypeRef) - tag with sequence payload
-            Some(styx_tree::Payload::Sequence(seq)) => {
-                // Look for object inside the sequence (recursively resolving type refs)
-                for item in &seq.items {
-                    if let Some(obj) = extract_object_from_value_with_defs(item, schema_defs) {
-                        return Some(obj);
-                    }
-                }
-            }
-            _ => {}
-        }
-    }
-
-    None
 }
 
 /// Extract an object from a value, unwrapping wrappers like @optional, @default, etc.
-- 
2.43.0


From c1e0405ff7171c313d98b6d58029b1174ad3accb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:26 +0000
Subject: [PATCH 63/64] fix: the schema of a Result describes what is written
 and read

Result values are written and read as {Ok value} and {Err value}; the generated schema asked for
tags @ok and @err, which cannot be read.
---
 crates/facet-styx/src/schema_gen.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/facet-styx/src/schema_gen.rs b/crates/facet-styx/src/schema_gen.rs
index 7cbab8b..7fba72a 100644
--- a/crates/facet-styx/src/schema_gen.rs
+++ b/crates/facet-styx/src/schema_gen.rs
@@ -16,7 +16,7 @@ use std::ptr::NonNull;
 use crate::peek_to_string_expr;
 use crate::schema_types::{
     DefaultSchema, Documented, EnumSchema, LspExtensionConfig, MapSchema, Meta, ObjectKey,
-    ObjectSchema, OptionalSchema, RawStyx, Schema, SchemaFile, SeqSchema, TupleSchema,
+    ObjectSchema, OptionalSchema, RawStyx, Schema, SchemaFile, SeqSchema, TupleSchema, UnionSchema,
 };
 
 /// Strip exactly one leading space from a doc line if present.
@@ -423,10 +423,12 @@ impl SchemaGenerator {
             Def::Result(result_def) => {
                 let ok = self.shape_to_schema(result_def.t);
                 let err = self.shape_to_schema(result_def.e);
-                let mut variants = HashMap::new();
-                variants.insert(Documented::new("ok".to_string()), ok);
-                variants.insert(Documented::new("err".to_string()), err);
-                Schema::Enum(EnumSchema(variants))
+                // Written and read as `{Ok value}` or `{Err value}`
+                let variant = |name: &str, inner: Schema| {
+                    let key = Documented::new(ObjectKey::named(name.to_string()));
+                    Documented::new(Schema::Object(ObjectSchema(HashMap::from([(key, inner)]))))
+                };
+                Schema::Union(UnionSchema(vec![variant("Ok", ok), variant("Err", err)]))
             }
             Def::Pointer(ptr_def) => {
                 if let Some(pointee) = ptr_def.pointee {
-- 
2.43.0


From 16582376da34a5504bc8bd8b7bca3bd3ab93e5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:43 +0000
Subject: [PATCH 64/64] fix: the language server finds places inside the value
 of a dotted path

The span of an object that a dotted path stands for ends with the path, so hover and completion
inside `a.b {}` answered for the outer object, and the outline's range of `a` did not contain that
of `b`.
---
 crates/styx-lsp/src/schema_validation.rs | 28 +++++++++++++++++++-----
 crates/styx-lsp/src/server.rs            |  6 ++---
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/crates/styx-lsp/src/schema_validation.rs b/crates/styx-lsp/src/schema_validation.rs
index 6b46dde..ceb6430 100644
--- a/crates/styx-lsp/src/schema_validation.rs
+++ b/crates/styx-lsp/src/schema_validation.rs
@@ -527,6 +527,21 @@ pub struct ObjectContext {
     pub span: Option<styx_tree::Span>,
 }
 
+/// The span of a value with everything in it.
+///
+/// The span of an object that a dotted path stands for is that of the rest of the path, without
+/// the value at its end.
+pub fn value_extent(value: &Value) -> Option<styx_tree::Span> {
+    let mut span = value.span?;
+    if let Some(obj) = value.as_object()
+        && let Some(last) = obj.entries.last()
+        && let Some(nested) = value_extent(&last.value)
+    {
+        span.end = span.end.max(nested.end);
+    }
+    Some(span)
+}
+
 /// Find the innermost object containing the given offset.
 pub fn find_object_at_offset(value: &Value, offset: usize) -> Option<ObjectContext> {
     find_object_at_offset_recursive(value, offset, Vec::new())
@@ -544,7 +559,7 @@ fn find_tagged_context_recursive(
     current_tagged: Option<&Value>,
 ) -> Option<Value> {
     // Check if this value's span contains the offset
-    let in_span = if let Some(span) = value.span {
+    let in_span = if let Some(span) = value_extent(value) {
         offset >= span.start as usize && offset <= span.end as usize
     } else {
         // Root value might not have a span, assume it contains everything
@@ -598,13 +613,14 @@ fn find_object_at_offset_recursive(
     offset: usize,
     path: Vec<String>,
 ) -> Option<ObjectContext> {
-    let contains = |span: Option<styx_tree::Span>| {
-        span.is_some_and(|span| offset >= span.start as usize && offset <= span.end as usize)
+    let contains = |value: &Value| {
+        value_extent(value)
+            .is_some_and(|span| offset >= span.start as usize && offset <= span.end as usize)
     };
 
     if let Some(seq) = value.as_sequence() {
         return seq.items.iter().enumerate().find_map(|(index, item)| {
-            if !contains(item.span) {
+            if !contains(item) {
                 return None;
             }
             let item_path = extend_path(&path, Some(&index.to_string()), item);
@@ -614,12 +630,12 @@ fn find_object_at_offset_recursive(
 
     let obj = value.as_object()?;
 
-    if obj.span.is_some() && !contains(obj.span) {
+    if obj.span.is_some() && !contains(value) {
         return None;
     }
 
     for entry in &obj.entries {
-        if contains(entry.value.span) {
+        if contains(&entry.value) {
             let nested_path = extend_path(&path, entry.key.as_str(), &entry.value);
             if let Some(deeper) =
                 find_object_at_offset_recursive(&entry.value, offset, nested_path.clone())
diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index fa585bb..cf37b59 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -17,7 +17,7 @@ use crate::schema_validation::{
     ObjectContext, SchemaField, find_object_at_offset, find_schema_declaration,
     find_tagged_context_at_offset, get_document_fields, get_error_span, get_schema_fields,
     get_schema_fields_at_path, load_document_schema, resolve_schema, validate_against_schema,
-    write_scalar,
+    value_extent, write_scalar,
 };
 use crate::semantic_tokens::{compute_semantic_tokens, semantic_token_legend};
 use styx_lsp_ext as ext;
@@ -2009,7 +2009,7 @@ fn collect_document_symbols(value: &Value, content: &str) -> Vec<DocumentSymbol>
             continue;
         };
 
-        let Some(val_span) = entry.value.span else {
+        let Some(val_span) = value_extent(&entry.value) else {
             continue;
         };
 
@@ -2196,7 +2196,7 @@ fn find_path_in_value(value: &Value, offset: usize) -> Option<Vec<PathSegment>>
                 }
             }
             // Check if cursor is within this entry's value
-            if let Some(span) = entry.value.span {
+            if let Some(span) = value_extent(&entry.value) {
                 let start = span.start as usize;
                 let end = span.end as usize;
                 if offset >= start && offset < end {
-- 
2.43.0

