From ed250f0a05fac56f3bff307ba4d9c8f5c4fe7c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:11 +0000
Subject: [PATCH 1/8] fix: parse chains of signs in a loop so that they can't
 overflow the stack

---
 src/parse/mod.rs    | 10 +++++++++
 src/parse/parser.rs | 49 +++++++++++++++++++--------------------------
 2 files changed, 31 insertions(+), 28 deletions(-)

diff --git a/src/parse/mod.rs b/src/parse/mod.rs
index 9f90a30..a8348c5 100644
--- a/src/parse/mod.rs
+++ b/src/parse/mod.rs
@@ -31,6 +31,16 @@ pub enum UnaryOp {
     Minus,
 }
 
+impl UnaryOp {
+    pub fn get_op(ch: char) -> Option<Self> {
+        Some(match ch {
+            '+' => Self::Plus,
+            '-' => Self::Minus,
+            _ => return None,
+        })
+    }
+}
+
 impl fmt::Display for UnaryOp {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         write!(
diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index 2b223a7..539c05f 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -550,24 +550,9 @@ fn parse_value(
             &mut included,
             depth + 1,
         )?,
-        '+' => parse_unary_op(
-            &mut stream,
-            obj_pairs,
-            globals,
-            included,
-            depth,
-            cur_brace,
-            UnaryOp::Plus,
-        )?,
-        '-' => parse_unary_op(
-            &mut stream,
-            obj_pairs,
-            globals,
-            included,
-            depth,
-            cur_brace,
-            UnaryOp::Minus,
-        )?,
+        '+' | '-' => {
+            parse_unary_op(&mut stream, obj_pairs, globals, included, depth, cur_brace)?
+        }
         ch if is_numeric_char(ch) => parse_numeric(&mut stream, line, col)?,
         ch if Obj::is_valid_field_char(ch, true) || ch == '@' => parse_variable(
             &mut stream,
@@ -654,17 +639,19 @@ fn parse_unary_op(
     mut included: &mut IncludedMap,
     depth: usize,
     cur_brace: Option<char>,
-    op: UnaryOp,
 ) -> ParseResult<Value> {
-    let next = stream.next();
-    assert!(
-        (next == Some('-') && op == UnaryOp::Minus) || (next == Some('+') && op == UnaryOp::Plus)
-    );
+    // Collect the whole chain of signs, with the positions of their operands. This is a loop so that
+    // a long chain of signs doesn't use up the stack.
+    let mut ops: Vec<(UnaryOp, usize, usize)> = Vec::new();
+
+    while let Some(op) = stream.peek().and_then(UnaryOp::get_op) {
+        let _ = stream.next();
+        ops.push((op, stream.line(), stream.col()));
+    }
 
-    let line = stream.line();
-    let col = stream.col();
+    let (line, col) = (stream.line(), stream.col());
 
-    let res = match stream.peek() {
+    let mut res = match stream.peek() {
         Some(_) => parse_value(
             &mut stream,
             obj_pairs,
@@ -672,13 +659,19 @@ fn parse_unary_op(
             &mut included,
             line,
             col,
-            depth + 1,
+            depth,
             cur_brace,
             false,
         )?,
         None => return parse_err(stream.file(), UnexpectedEnd(line)),
     };
-    unary_op_on_value(stream, res, op, line, col)
+
+    // The innermost sign is applied first.
+    while let Some((op, line, col)) = ops.pop() {
+        res = unary_op_on_value(stream, res, op, line, col)?;
+    }
+
+    Ok(res)
 }
 
 // Gets the next numeric (either Int or Frac) in the character stream.
-- 
2.43.0


From c982b5a1c5ee926886e5ef258ea0580ffaaa3efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:11 +0000
Subject: [PATCH 2/8] fix: limit the depth of dot chains so that they can't
 overflow the stack

---
 src/parse/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index 539c05f..442fcfe 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -771,6 +771,11 @@ fn parse_variable(
     depth: usize,
     cur_brace: Option<char>,
 ) -> ParseResult<Value> {
+    // Check depth. Each dot counts as one level.
+    if depth > MAX_DEPTH {
+        return parse_err(stream.file(), MaxDepth(stream.line(), stream.col()));
+    }
+
     let mut var = String::new();
     let mut is_global = false;
     let mut dot = false;
-- 
2.43.0


From a5812e283d17e6465a80fcaf435cd6d8c860562a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:11 +0000
Subject: [PATCH 3/8] fix: keep includes of one file with different types apart

---
 src/parse/parser.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index 442fcfe..bff9be5 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -27,7 +27,16 @@ use std::{
 
 type Pairs = Vec<Pair>;
 type GlobalMap = HashMap<String, Value>;
-type IncludedMap = (HashMap<String, Value>, HashSet<String>);
+// Values of already parsed includes, and the files currently being parsed.
+type IncludedMap = (HashMap<(IncludeType, String), Value>, HashSet<String>);
+
+#[derive(Clone, Copy, Eq, Hash, PartialEq)]
+enum IncludeType {
+    Obj,
+    Str,
+    Arr,
+    Tup,
+}
 
 lazy_static! {
     // Objs that signify that an include keyword was encountered.
@@ -993,13 +1002,6 @@ fn parse_include(
     mut included: &mut IncludedMap,
     depth: usize,
 ) -> ParseResult<Value> {
-    enum IncludeType {
-        Obj,
-        Str,
-        Arr,
-        Tup,
-    }
-
     // Check depth.
     if depth > MAX_DEPTH {
         return parse_err(stream.file(), MaxDepth(stream.line(), stream.col()));
@@ -1130,8 +1132,9 @@ fn parse_include(
     }
 
     // Get either the tracked value or parse it if it's our first time seeing the include.
-    let value = if included.0.contains_key(full_path_str) {
-        let value = &included.0[full_path_str];
+    // The same file may be included with different types, so the type is part of the key.
+    let key = (include_type, String::from(full_path_str));
+    let value = if let Some(value) = included.0.get(&key) {
         value.clone()
     } else {
         let value: Value = match include_type {
@@ -1140,8 +1143,7 @@ fn parse_include(
             IncludeType::Arr => parse_arr_file(path_str, included)?.into(),
             IncludeType::Tup => parse_tup_file(path_str, included)?.into(),
         };
-        // Use full path as included key.
-        included.0.insert(full_path_str.into(), value.clone());
+        included.0.insert(key, value.clone());
         value
     };
 
-- 
2.43.0


From 7b163536d71580e0b8fb9ff203a46ada2d582382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:11 +0000
Subject: [PATCH 4/8] fix: return an error if the path of the including file
 can't be resolved

---
 src/parse/parser.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index bff9be5..351a214 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -1121,7 +1121,13 @@ fn parse_include(
 
     // Prevent cyclic includes by temporarily storing the current file path.
     let storing = if let Some(file) = stream.file() {
-        let full_file = String::from(Path::new(&file).canonicalize().unwrap().to_str().unwrap());
+        let full_file = match Path::new(&file).canonicalize() {
+            Ok(path) => match path.to_str() {
+                Some(path) => String::from(path),
+                None => return parse_err(Some(file), InvalidIncludePath(include_file, line, col)),
+            },
+            Err(_) => return parse_err(Some(file), InvalidIncludePath(include_file, line, col)),
+        };
         included.1.insert(full_file.clone());
         Some(full_file)
     } else {
-- 
2.43.0


From d5cbe82d8df42aeae03c4e441452dd101b7fac7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:11 +0000
Subject: [PATCH 5/8] fix: find inherited fields with dot notation

---
 src/parse/parser.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index 351a214..64d20fa 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -931,9 +931,17 @@ fn parse_variable(
                     return parse_err(stream.file(), InvalidValueChar('@', line, col));
                 }
 
+                // Inherited fields can be accessed as well; the nearest definition comes first.
+                let mut pairs = obj.pairs_ref().clone();
+                let mut parent = obj.get_parent();
+                while let Some(obj) = parent {
+                    pairs.extend_from_slice(obj.pairs_ref());
+                    parent = obj.get_parent();
+                }
+
                 parse_variable(
                     &mut stream,
-                    obj.pairs_ref(),
+                    &pairs,
                     globals,
                     included,
                     line,
-- 
2.43.0


From d37703432aaf2c10d72914754615cff9a76b7184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:11 +0000
Subject: [PATCH 6/8] fix: reject empty field names and '^' when creating an
 Obj

---
 src/obj.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/obj.rs b/src/obj.rs
index f689bb4..e72f6e9 100644
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -262,20 +262,16 @@ impl Obj {
     /// The first character must be alphabetic or '_'. Subsequent characters are allowed to be
     /// alphabetic, digits, or '_'.
     pub fn is_valid_field(field: &str) -> bool {
-        let mut first = true;
+        let mut chars = field.chars();
 
-        for ch in field.chars() {
-            if first {
-                if !Self::is_valid_field_char(ch, true) {
-                    return false;
-                }
-                first = false;
-            } else if !Self::is_valid_field_char(ch, false) {
-                return false;
-            }
+        match chars.next() {
+            // '^' is only used to define the parent of an `Obj`.
+            Some('^') | None => return false,
+            Some(ch) if !Self::is_valid_field_char(ch, true) => return false,
+            Some(_) => (),
         }
 
-        true
+        chars.all(|ch| Self::is_valid_field_char(ch, false))
     }
 
     /// Returns true if the given char is valid for a field, depending on whether it is the first
-- 
2.43.0


From 46aa21a77372f639106e4a7fb489cb76e49a3dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:23 +0000
Subject: [PATCH 7/8] fix: reject a global that its own value has already
 defined

---
 src/parse/parser.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index 64d20fa..83e1c96 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -213,6 +213,13 @@ fn parse_field_value_pair(
     // Add value either to the globals map or to the current Obj.
     match field_type {
         FieldType::Global => {
+            // The value may itself have defined this global, in a sub-Obj.
+            if globals.contains_key(&field_name) {
+                return parse_err(
+                    stream.file(),
+                    DuplicateGlobal(field_name, field_line, field_col),
+                );
+            }
             let _ = globals.insert(field_name, value);
         }
         FieldType::Parent => {
-- 
2.43.0


From b08ed94da2fa61b3f841a11dd4e3b558fc9504f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:50 +0000
Subject: [PATCH 8/8] fix: reject the include keywords as values outside of an
 include

---
 src/parse/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index 83e1c96..e4a560e 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -842,6 +842,11 @@ fn parse_variable(
         "true" => Value::Bool(true),
         "false" => Value::Bool(false),
 
+        // Outside of an include these keywords are not values.
+        var @ "Obj" | var @ "Str" | var @ "Arr" | var @ "Tup" if cur_brace != Some('>') => {
+            return parse_err(stream.file(), InvalidValue(var.into(), line, col));
+        }
+
         // If we're being called by `parse_include`, signify that one of these keywords was found.
         "Obj" => Value::Obj(OBJ_SENTINEL.clone()),
         "Str" => Value::Obj(STR_SENTINEL.clone()),
-- 
2.43.0

