From 78dc33cc1d6c2610a648b67a2da4cf3604cfe553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:43 +0000
Subject: [PATCH 01/63] fix: brackets and braces inside strings no longer break
 array/object parsing

parse_array and parse_object counted '[', ']', '{' and '}' as nesting even
inside a string, so documents such as ["]"] were rejected.
---
 src/lib.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d379543..54bdc5b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -433,19 +433,19 @@ impl Json {
                     }
                     inner.push('\"');
                 }
-                Some('[') => {
+                Some('[') if j == 0 => {
                     i += 1;
                     inner.push('[');
                 }
-                Some(']') => {
+                Some(']') if j == 0 => {
                     i -= 1;
                     inner.push(']');
                 }
-                Some('{') => {
+                Some('{') if j == 0 => {
                     i += 1;
                     inner.push('{');
                 }
-                Some('}') => {
+                Some('}') if j == 0 => {
                     i -= 1;
                     inner.push('}');
                 }
@@ -527,7 +527,7 @@ impl Json {
                         v.push('\"');
                     }
                 }
-                Some('[') => {
+                Some('[') if j == 0 => {
                     i += 1;
                     if on_key {
                         k.push('[');
@@ -535,7 +535,7 @@ impl Json {
                         v.push('[');
                     }
                 }
-                Some(']') => {
+                Some(']') if j == 0 => {
                     i -= 1;
                     if on_key {
                         k.push(']');
@@ -543,7 +543,7 @@ impl Json {
                         v.push(']');
                     }
                 }
-                Some('{') => {
+                Some('{') if j == 0 => {
                     i += 1;
                     if on_key {
                         k.push('{');
@@ -551,7 +551,7 @@ impl Json {
                         v.push('{');
                     }
                 }
-                Some('}') => {
+                Some('}') if j == 0 => {
                     i -= 1;
                     if on_key {
                         k.push('}');
-- 
2.43.0


From 5fa3f6663d2c64f74bb61b2416d28f3c4d1dbf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:09 +0000
Subject: [PATCH 02/63] fix: whitespace inside a token no longer disappears in
 arrays and objects

Whitespace between the characters of an element was dropped before the
element was parsed, so [1 2] was read as [12] and [tr ue] as [true]. Keep it
and trim only around each element.
---
 src/lib.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 54bdc5b..56a1ffa 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -404,7 +404,7 @@ impl Json {
         loop {
             match iter.next() {
                 Some(']') if i == 0 && j == 0 => {
-                    array.push(Json::_parse(&inner)?);
+                    array.push(Json::parse(&inner)?);
                     loop {
                         match iter.next() {
                             Some(ch) if is_whitespace(ch) => (),
@@ -422,7 +422,7 @@ impl Json {
                     if let Some(']') = iter.peek() {
                         return Err(Error::new(ParseArrayError, "invalid trailing comma.".to_string()));
                     }
-                    array.push(Json::_parse(&inner)?);
+                    array.push(Json::parse(&inner)?);
                     inner.clear();
                 }
                 Some('\"') => {
@@ -457,7 +457,6 @@ impl Json {
                                                    "missing escaped character.".to_string()))
                     }
                 }
-                Some(ch) if i == 0 && j == 0 && is_whitespace(ch) => (),
                 Some(ch) => {
                     inner.push(ch);
                 }
@@ -481,8 +480,8 @@ impl Json {
         loop {
             match iter.next() {
                 Some('}') if i == 0 && j == 0 && !on_key => {
-                    if let Ok(Json::String(key)) = Json::_parse(&k) {
-                        object_insert(&mut object, key, Json::_parse(&v)?);
+                    if let Ok(Json::String(key)) = Json::parse(&k) {
+                        object_insert(&mut object, key, Json::parse(&v)?);
                         loop {
                             match iter.next() {
                                 Some(ch) if is_whitespace(ch) => (),
@@ -503,8 +502,8 @@ impl Json {
                     if let Some('}') = iter.peek() {
                         return Err(Error::new(ParseObjectError, "invalid trailing comma.".to_string()));
                     }
-                    if let Ok(Json::String(key)) = Json::_parse(&k) {
-                        object_insert(&mut object, key, Json::_parse(&v)?);
+                    if let Ok(Json::String(key)) = Json::parse(&k) {
+                        object_insert(&mut object, key, Json::parse(&v)?);
                         k.clear();
                         v.clear();
                         on_key = true;
@@ -577,7 +576,6 @@ impl Json {
                                                    "missing escaped character.".to_string()))
                     }
                 }
-                Some(ch) if i == 0 && j == 0 && is_whitespace(ch) => (),
                 Some(ch) => {
                     if on_key {
                         k.push(ch);
-- 
2.43.0


From 62d2439a2df8bb46558b18d59bc36a08d1943b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:09 +0000
Subject: [PATCH 03/63] fix: reject a second ':' in an object member

{"a"::1} and {"a":1:2} were accepted, the latter as {"a": 12}.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 56a1ffa..e2578d4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -511,7 +511,7 @@ impl Json {
                         return Err(Error::new(ParseObjectError, "error parsing key string.".to_string()));
                     }
                 }
-                Some(':') if i == 0 && j == 0 => {
+                Some(':') if i == 0 && j == 0 && on_key => {
                     on_key = false;
                 }
                 Some('\"') => {
-- 
2.43.0


From 2c1dd7f2c2e0d0d7c6018c2c8e9af4611cf9c524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 04/63] fix: accept whitespace in empty arrays/objects, reject
 what follows them

[ ] and { } were rejected, while []x and {}x were accepted because the empty
case returned without looking at the rest of the text.
---
 src/lib.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index e2578d4..b7c2ec7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -394,17 +394,16 @@ impl Json {
     fn parse_array(json: &str) -> Result<Json, Error> {
         let mut array = Vec::new();
         let mut iter = json.chars().skip(1).peekable();
-        if let Some(']') = iter.peek() {
-            return Ok(Json::Array(array));
-        }
-
         let mut i = 0;
         let mut j = 0;
         let mut inner = String::new();
         loop {
             match iter.next() {
                 Some(']') if i == 0 && j == 0 => {
-                    array.push(Json::parse(&inner)?);
+                    // nothing but whitespace between the brackets is an empty array
+                    if !array.is_empty() || !inner.chars().all(is_whitespace) {
+                        array.push(Json::parse(&inner)?);
+                    }
                     loop {
                         match iter.next() {
                             Some(ch) if is_whitespace(ch) => (),
@@ -468,10 +467,6 @@ impl Json {
     fn parse_object(json: &str) -> Result<Json, Error> {
         let mut object = HashMap::new();
         let mut iter = json.chars().skip(1).peekable();
-        if let Some('}') = iter.peek() {
-            return Ok(Json::Object(object));
-        }
-
         let mut i = 0;
         let mut j = 0;
         let mut k = String::new();
@@ -479,6 +474,18 @@ impl Json {
         let mut on_key = true;
         loop {
             match iter.next() {
+                // nothing but whitespace between the braces is an empty object
+                Some('}') if i == 0 && j == 0 && object.is_empty() && k.chars().all(is_whitespace) && on_key => {
+                    loop {
+                        match iter.next() {
+                            Some(ch) if is_whitespace(ch) => (),
+                            Some(ch) => return Err(Error::new(ParseObjectError,
+                                                              format!("invalid trailing character: {}.", ch))),
+                            None => break
+                        }
+                    }
+                    return Ok(Json::Object(object));
+                }
                 Some('}') if i == 0 && j == 0 && !on_key => {
                     if let Ok(Json::String(key)) = Json::parse(&k) {
                         object_insert(&mut object, key, Json::parse(&v)?);
-- 
2.43.0


From 7a0c7d2352a8950acdb0fd974b73b1c5ca5a07c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:11 +0000
Subject: [PATCH 05/63] fix: reject numbers with a superfluous leading zero

The number grammar check did not look at what follows the part it accepts, so
012, -01 and 00 were read as numbers.
---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index b7c2ec7..09c35c3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -752,7 +752,8 @@ fn valid_number(num: &str) -> bool {
         _ => ()
     }
 
-    true
+    // e.g. no digits after a leading zero
+    iter.peek().is_none()
 }
 
 #[inline]
-- 
2.43.0


From 376ed34bbf0d947925d1936d4b213e187a534a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:11 +0000
Subject: [PATCH 06/63] fix: Json::remove returns IndexOutOfRange instead of
 panicking

---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 09c35c3..5f2d6c1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -218,6 +218,10 @@ impl Json {
     pub fn remove(&mut self, i: usize) -> Result<(), Error> {
         match self {
             Json::Array(vec) => {
+                if i >= vec.len() {
+                    return Err(Error::new(IndexOutOfRange,
+                                          format!("index {} out of range.", i)));
+                }
                 vec.remove(i);
                 Ok(())
             }
-- 
2.43.0


From 1b23cac3fd9edc6bae57b61891c26d59ee42af17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 07/63] fix: render NaN and infinities as null

They were rendered as NaN, inf and -inf, which is not json and cannot be
parsed back.
---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 5f2d6c1..574e4d1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -140,6 +140,8 @@ impl ToString for Json {
                             .join(", "))
             }
             Json::String(s) => escape(s),
+            // json has no NaN or infinity
+            Json::Number(f) if !f.is_finite() => "null".to_string(),
             Json::Number(f) => (*f).to_string(),
             Json::Boolean(b) => (*b).to_string(),
             Json::Null => "null".to_string(),
-- 
2.43.0


From 87c972e4e89503c73027f802d7ce0c53053519cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 08/63] fix: setting an index no array can hold returns
 IndexOutOfRange

Padding the array overflowed its capacity and panicked, e.g. for
set("[]", "#18446744073709551615", 1).
---
 src/lib.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 574e4d1..98c284f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1075,6 +1075,20 @@ impl Path {
         }
     }
 
+    // whether arrays holding every index of this path can exist at all
+    fn check_index(&self) -> Result<(), Error> {
+        match self.finder {
+            Finder::Index(i) if i >= isize::max_value() as usize / mem::size_of::<Json>() => {
+                Err(Error::new(IndexOutOfRange,
+                               format!("index {} out of range.", i)))
+            }
+            _ => match &self.next {
+                Some(path) => path.check_index(),
+                None => Ok(()),
+            }
+        }
+    }
+
     fn update<'a, V: ToJson>(&self, json: &'a mut Json, v: V) -> Result<&'a mut Json, Error> {
         match &self.next {
             Some(path) => {
@@ -1105,7 +1119,9 @@ impl Json {
     }
 
     pub fn update<I: Into<Path>, V: ToJson>(&mut self, path: I, v: V) -> Result<&mut Json, Error> {
-        path.into().update(self, v)
+        let path = path.into();
+        path.check_index()?;
+        path.update(self, v)
     }
 
     pub fn get(&self, s: &str) -> Result<&Json, Error> {
@@ -1126,7 +1142,9 @@ impl Json {
         if s.is_empty() {
             return Err(Error::new(PathSyntaxError, "invalid syntax: empty path.".to_string()));
         }
-        parse_path(s)?.update(self, v)
+        let path = parse_path(s)?;
+        path.check_index()?;
+        path.update(self, v)
     }
 }
 
-- 
2.43.0


From 18ce1480002d105e3982ac4b75100010eff9caf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 09/63] fix: reject documents nested too deep instead of
 overflowing the stack

A document of a few kilobytes such as 2000 opening and closing brackets
aborted the process (less than 1000 levels are enough on a 2 MiB stack in a
debug build). Arrays and objects may now be nested 512 levels deep.
---
 src/lib.rs | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 98c284f..5ea9b49 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -268,20 +268,30 @@ impl Json {
     }
 }
 
+// arrays/objects nested deeper than this are rejected, parsing them would overflow the stack
+const MAX_DEPTH: usize = 512;
+
 impl Json {
     pub fn parse(json: &str) -> Result<Json, Error> {
+        Json::parse_nested(json, 0)
+    }
+
+    fn parse_nested(json: &str, depth: usize) -> Result<Json, Error> {
         let json = json.trim_matches(is_whitespace);
-        Json::_parse(json)
+        Json::_parse(json, depth)
     }
 
-    fn _parse(json: &str) -> Result<Json, Error> {
+    fn _parse(json: &str, depth: usize) -> Result<Json, Error> {
         match json.chars().peekable().peek() {
+            Some('[') | Some('{') if depth == MAX_DEPTH => {
+                Err(Error::new(InvalidJson, format!("nested deeper than {} levels.", MAX_DEPTH)))
+            }
             Some('n') => Json::parse_null(json),
             Some('t') | Some('f') => Json::parse_boolean(json),
             Some('-') | Some('0'..='9') => Json::parse_number(json),
             Some('\"') => Json::parse_string(json),
-            Some('[') => Json::parse_array(json),
-            Some('{') => Json::parse_object(json),
+            Some('[') => Json::parse_array(json, depth),
+            Some('{') => Json::parse_object(json, depth),
             _ => Err(Error::new(InvalidJson, "invalid json.".to_string()))
         }
     }
@@ -397,7 +407,7 @@ impl Json {
         }
     }
 
-    fn parse_array(json: &str) -> Result<Json, Error> {
+    fn parse_array(json: &str, depth: usize) -> Result<Json, Error> {
         let mut array = Vec::new();
         let mut iter = json.chars().skip(1).peekable();
         let mut i = 0;
@@ -408,7 +418,7 @@ impl Json {
                 Some(']') if i == 0 && j == 0 => {
                     // nothing but whitespace between the brackets is an empty array
                     if !array.is_empty() || !inner.chars().all(is_whitespace) {
-                        array.push(Json::parse(&inner)?);
+                        array.push(Json::parse_nested(&inner, depth + 1)?);
                     }
                     loop {
                         match iter.next() {
@@ -427,7 +437,7 @@ impl Json {
                     if let Some(']') = iter.peek() {
                         return Err(Error::new(ParseArrayError, "invalid trailing comma.".to_string()));
                     }
-                    array.push(Json::parse(&inner)?);
+                    array.push(Json::parse_nested(&inner, depth + 1)?);
                     inner.clear();
                 }
                 Some('\"') => {
@@ -470,7 +480,7 @@ impl Json {
         }
     }
 
-    fn parse_object(json: &str) -> Result<Json, Error> {
+    fn parse_object(json: &str, depth: usize) -> Result<Json, Error> {
         let mut object = HashMap::new();
         let mut iter = json.chars().skip(1).peekable();
         let mut i = 0;
@@ -493,8 +503,8 @@ impl Json {
                     return Ok(Json::Object(object));
                 }
                 Some('}') if i == 0 && j == 0 && !on_key => {
-                    if let Ok(Json::String(key)) = Json::parse(&k) {
-                        object_insert(&mut object, key, Json::parse(&v)?);
+                    if let Ok(Json::String(key)) = Json::parse_nested(&k, depth + 1) {
+                        object_insert(&mut object, key, Json::parse_nested(&v, depth + 1)?);
                         loop {
                             match iter.next() {
                                 Some(ch) if is_whitespace(ch) => (),
@@ -515,8 +525,8 @@ impl Json {
                     if let Some('}') = iter.peek() {
                         return Err(Error::new(ParseObjectError, "invalid trailing comma.".to_string()));
                     }
-                    if let Ok(Json::String(key)) = Json::parse(&k) {
-                        object_insert(&mut object, key, Json::parse(&v)?);
+                    if let Ok(Json::String(key)) = Json::parse_nested(&k, depth + 1) {
+                        object_insert(&mut object, key, Json::parse_nested(&v, depth + 1)?);
                         k.clear();
                         v.clear();
                         on_key = true;
-- 
2.43.0


From bc3b867076766a92c8a091d6f894f167126de4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 10/63] fix: reject string paths longer than any parsable
 document

Following, or rendering a document created by, a path of some thousand
levels overflowed the stack, e.g. set("{}", &"a.".repeat(5000), 1).
---
 src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 5ea9b49..782e29b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1205,6 +1205,11 @@ fn parse_path(s: &str) -> Result<Path, Error> {
         }
     }
 
+    if vec.len() > MAX_DEPTH {
+        return Err(Error::new(PathSyntaxError,
+                              format!("path longer than {} levels.", MAX_DEPTH)));
+    }
+
     let mut iter = vec.into_iter();
     let mut path = Path::new(
         iter.next().ok_or(Error::new(PathSyntaxError, "invalid syntax: empty path.".to_string()))?
-- 
2.43.0


From 5cc6de02fbfa094a9b63b962a0c2c13fcf152049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:17 +0000
Subject: [PATCH 11/63] fix: #[ignore] compiles again: as a helper attribute it
 is ambiguous with the built-in one

---
 json_derive/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json_derive/src/lib.rs b/json_derive/src/lib.rs
index 2ff7c10..9cc2d60 100644
--- a/json_derive/src/lib.rs
+++ b/json_derive/src/lib.rs
@@ -5,7 +5,7 @@ use json_quote::quote;
 use json_parse::Item;
 use json_parse::field::Fields;
 
-#[proc_macro_derive(JsonEncode, attributes(key, ignore))]
+#[proc_macro_derive(JsonEncode, attributes(key))]
 pub fn json_encode(input: TokenStream) -> TokenStream {
     let item: Item = json_parse::parse(input).expect("error parsing item");
     match item {
@@ -57,7 +57,7 @@ pub fn json_encode(input: TokenStream) -> TokenStream {
     }
 }
 
-#[proc_macro_derive(JsonDecode, attributes(key, ignore))]
+#[proc_macro_derive(JsonDecode, attributes(key))]
 pub fn json_decode(input: TokenStream) -> TokenStream {
     let item: Item = json_parse::parse(input).expect("error parsing item");
     match item {
-- 
2.43.0


From 3788176d40cea96078d320e6dbdbd34c28d63574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:26 +0000
Subject: [PATCH 12/63] fix: nothing to split gives no element, so empty
 structs, enums and parameter lists parse

---
 json_derive/parse/src/utils.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/json_derive/parse/src/utils.rs b/json_derive/parse/src/utils.rs
index 1b02187..0c66b03 100644
--- a/json_derive/parse/src/utils.rs
+++ b/json_derive/parse/src/utils.rs
@@ -32,6 +32,11 @@ pub fn split_tokens_by(input: TokenStream, sep: &str) -> Vec<TokenStream> {
         .peekable();
     let mut n = 0;
 
+    // nothing to split, so there is no element
+    if iter.peek().is_none() {
+        return tokens;
+    }
+
     // the outer loop is for collecting all the tokens in generic,
     // split by sep, look the same as slice.split, but it handles
     // sep inside a generic("<...>"), which was not treated as a
-- 
2.43.0


From f92a00dbec35f43ca5e0febd2d0e15eea2e2e85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:00 +0000
Subject: [PATCH 13/63] fix: attributes named by a path (#[rustfmt::skip],
 #[allow(clippy::all)]) parse

---
 json_derive/parse/src/meta.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/json_derive/parse/src/meta.rs b/json_derive/parse/src/meta.rs
index 6ec8067..efe5b15 100644
--- a/json_derive/parse/src/meta.rs
+++ b/json_derive/parse/src/meta.rs
@@ -513,6 +513,26 @@ impl Parse for MetaItem {
             into_iter().
             collect::<Vec<TokenTree>>();
 
+        // a path names an item the same way an ident does: #[path::name ...]
+        let mut n = 0;
+        while let (Some(TokenTree::Ident(_)), true, true) = (meta.get(n),
+                                                             meta.get(n + 1).map_or(false, utils::punct_eq(':')),
+                                                             meta.get(n + 2).map_or(false, utils::punct_eq(':'))) {
+            n += 3;
+        }
+        if n > 0 {
+            let prefix = meta[..n]
+                .iter()
+                .map(|x| x.to_string())
+                .collect::<String>();
+            return match MetaItem::parse(TokenStream::from_iter(meta[n..].to_vec()))? {
+                MetaItem::Ident(ident) => Ok(MetaItem::Ident(prefix + &ident)),
+                MetaItem::Pair { key, lit, eq } => Ok(MetaItem::Pair { key: prefix + &key, lit, eq }),
+                MetaItem::Group { ident, inner } => Ok(MetaItem::Group { ident: prefix + &ident, inner }),
+                MetaItem::Literal(_) => Err(Error::new(format!("expect path, got: {}.", input))),
+            };
+        }
+
         // for different case
         match meta.len() {
             // ident or literal
-- 
2.43.0


From 73b07166b79b5a086deba3d86a5ecffc4f54fbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:00 +0000
Subject: [PATCH 14/63] fix: an attribute with an empty group (#[allow()])
 parses

---
 json_derive/parse/src/meta.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/json_derive/parse/src/meta.rs b/json_derive/parse/src/meta.rs
index efe5b15..ddfe449 100644
--- a/json_derive/parse/src/meta.rs
+++ b/json_derive/parse/src/meta.rs
@@ -406,11 +406,6 @@ impl ToString for NestedMeta {
 
 impl Parse for NestedMeta {
     fn parse(input: TokenStream) -> Result<NestedMeta> {
-        // handle empty input
-        if input.is_empty() {
-            return Err(Error::new("got empty input when parsing nested meta item."));
-        }
-
         // convert single TokenStream to Vec<MetaItem> split by ','
         let items: Vec<MetaItem> = input
             // into iterator
-- 
2.43.0


From 8bc1a2a15d4350992cd696994851985f7d23f215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:29 +0000
Subject: [PATCH 15/63] fix: negative literals in attributes keep their sign
 when printed

---
 json_derive/parse/src/meta.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/json_derive/parse/src/meta.rs b/json_derive/parse/src/meta.rs
index ddfe449..8f29c21 100644
--- a/json_derive/parse/src/meta.rs
+++ b/json_derive/parse/src/meta.rs
@@ -560,8 +560,8 @@ impl Parse for MetaItem {
                 // parse negative value
                 if utils::punct_eq('-')(&meta[0]) {
                     match Lit::parse(meta[1].clone().into())? {
-                        Lit::Integer { integer, raw } => return Ok(MetaItem::Literal(Lit::Integer { integer: -integer, raw })),
-                        Lit::Float { float, raw } => return Ok(MetaItem::Literal(Lit::Float { float: -float, raw })),
+                        Lit::Integer { integer, raw } => return Ok(MetaItem::Literal(Lit::Integer { integer: -integer, raw: format!("-{}", raw) })),
+                        Lit::Float { float, raw } => return Ok(MetaItem::Literal(Lit::Float { float: -float, raw: format!("-{}", raw) })),
                         _ => return Err(Error::new(format!("error parsing negative literal: {}.", input)))
                     }
                 }
@@ -632,8 +632,8 @@ impl Parse for MetaItem {
                 // match negative value literal
                 if utils::punct_eq('-')(&meta[2]) {
                     match Lit::parse(meta[3].clone().into())? {
-                        Lit::Integer { integer, raw } => { lit = Lit::Integer { integer: -integer, raw }; }
-                        Lit::Float { float, raw } => { lit = Lit::Float { float: -float, raw }; }
+                        Lit::Integer { integer, raw } => { lit = Lit::Integer { integer: -integer, raw: format!("-{}", raw) }; }
+                        Lit::Float { float, raw } => { lit = Lit::Float { float: -float, raw: format!("-{}", raw) }; }
                         _ => return Err(Error::new(format!("error parsing negative literal: - {}.", &meta[3])))
                     }
                 } else {
-- 
2.43.0


From 58c151bc1d0d7605a090ccd7f0edc5944ae297a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:48 +0000
Subject: [PATCH 16/63] fix: string literals in attributes have the value they
 are written for Escapes, raw strings and contents ending with the delimiter
 were misread, so some #[key = ...] attributes did not compile or renamed the
 field wrongly.

---
 json_derive/parse/src/meta.rs | 92 ++++++++++++++++++++---------------
 json_derive/src/lib.rs        |  4 +-
 2 files changed, 56 insertions(+), 40 deletions(-)

diff --git a/json_derive/parse/src/meta.rs b/json_derive/parse/src/meta.rs
index 8f29c21..c92748d 100644
--- a/json_derive/parse/src/meta.rs
+++ b/json_derive/parse/src/meta.rs
@@ -275,37 +275,52 @@ macro_rules! fix_suffix {
     }};
 }
 
-macro_rules! fix_bytes {
-    ( $ident:ident => ( $(( $prefix:literal, $suffix:literal )),+ ) ) => {
-        $(if $ident.starts_with($prefix) && $ident.ends_with($suffix) {
-            return Ok(
-                Lit::Bytes {
-                    bytes: $ident
-                        .trim_start_matches($prefix)
-                        .trim_end_matches($suffix)
-                        .as_bytes()
-                        .to_vec(),
-                    raw: $ident,
-                }
-            );
-        })+
-    };
-}
+// content of a string literal: what is between its quotes, with
+// every escape replaced by what it stands for unless it is a raw one.
+fn unquote(raw: &str) -> Option<Vec<u8>> {
+    let quote = if raw.starts_with("b\'") { '\'' } else { '"' };
+    let start = raw.find(quote)? + 1;
+    let content = raw.get(start..raw.rfind(quote)?)?;
+    if raw[..start].contains('r') {
+        return Some(content.as_bytes().to_vec());
+    }
 
-macro_rules! fix_string {
-    ( $ident:ident => ( $(( $prefix:literal, $suffix:literal )),+ ) ) => {
-        $(if $ident.starts_with($prefix) && $ident.ends_with($suffix) {
-            return Ok(
-                Lit::String {
-                    string: $ident
-                        .trim_start_matches($prefix)
-                        .trim_end_matches($suffix)
-                        .to_string(),
-                    raw: $ident,
+    let mut bytes = Vec::with_capacity(content.len());
+    let mut chars = content.chars();
+    while let Some(c) = chars.next() {
+        let c = if c != '\\' { c } else {
+            match chars.next()? {
+                'n' => '\n',
+                'r' => '\r',
+                't' => '\t',
+                '0' => '\0',
+                // two hex digits
+                'x' => {
+                    let hex = chars.as_str().get(..2)?;
+                    chars.nth(1);
+                    bytes.push(u8::from_str_radix(hex, 16).ok()?);
+                    continue;
                 }
-            );
-        })+
-    };
+                // hex digits in braces
+                'u' => {
+                    let hex = chars.as_str().strip_prefix('{')?;
+                    let hex = &hex[..hex.find('}')?];
+                    chars.nth(hex.len() + 1);
+                    std::char::from_u32(u32::from_str_radix(&hex.replace('_', ""), 16).ok()?)?
+                }
+                // line continuation
+                '\n' => {
+                    chars = chars.as_str().trim_start_matches(&[' ', '\n', '\r', '\t'][..]).chars();
+                    continue;
+                }
+                // \\, \' and \"
+                other => other
+            }
+        };
+        bytes.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes());
+    }
+
+    Some(bytes)
 }
 
 impl Parse for Lit {
@@ -334,17 +349,18 @@ impl Parse for Lit {
                 let raw = lit.to_string();
 
                 // parse bytes
-                fix_bytes!(raw => (("b\'", "\'"),
-                                   ("b\"", "\""),
-                                   ("br\"", "\""),
-                                   ("br#\"", "\"#"),
-                                   ("br##\"", "\"##")));
+                if ["b\'", "b\"", "br\"", "br#"].iter().any(|&x| raw.starts_with(x)) {
+                    if let Some(bytes) = unquote(&raw) {
+                        return Ok(Lit::Bytes { bytes, raw });
+                    }
+                }
 
                 // parse string
-                fix_string!(raw => (("\"", "\""),
-                                    ("r\"", "\""),
-                                    ("r#\"", "\"#"),
-                                    ("r##\"", "\"##")));
+                if ["\"", "r\"", "r#"].iter().any(|&x| raw.starts_with(x)) {
+                    if let Some(Ok(string)) = unquote(&raw).map(String::from_utf8) {
+                        return Ok(Lit::String { string, raw });
+                    }
+                }
 
                 // parse int
                 if let Ok(integer) = fix_suffix!(raw: i32 => (
diff --git a/json_derive/src/lib.rs b/json_derive/src/lib.rs
index 9cc2d60..5d37d3c 100644
--- a/json_derive/src/lib.rs
+++ b/json_derive/src/lib.rs
@@ -29,7 +29,7 @@ pub fn json_encode(input: TokenStream) -> TokenStream {
                             } else {
                                 x.ident.clone()
                             };
-                            (format!("\"{}\".to_string()", k), x.ident.clone())
+                            (format!("{:?}.to_string()", k), x.ident.clone())
                         })
                         .collect();
                     quote! {
@@ -81,7 +81,7 @@ pub fn json_decode(input: TokenStream) -> TokenStream {
                             } else {
                                 x.ident.clone()
                             };
-                            (format!("\"{}\"", k), x.ident.clone(), x.ty.used_ty())
+                            (format!("{:?}", k), x.ident.clone(), x.ty.used_ty())
                         })
                         .collect();
                     quote! {
-- 
2.43.0


From 600c1ead02317df6e90834f6ba66a68e6c3da4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:49 +0000
Subject: [PATCH 17/63] fix: the key of a field with a raw identifier is the
 field's name

---
 json_derive/src/lib.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/json_derive/src/lib.rs b/json_derive/src/lib.rs
index 5d37d3c..8123886 100644
--- a/json_derive/src/lib.rs
+++ b/json_derive/src/lib.rs
@@ -5,6 +5,11 @@ use json_quote::quote;
 use json_parse::Item;
 use json_parse::field::Fields;
 
+// key of a field, r#type is the raw spelling of the name type
+fn field_key(ident: &str) -> String {
+    ident.trim_start_matches("r#").to_string()
+}
+
 #[proc_macro_derive(JsonEncode, attributes(key))]
 pub fn json_encode(input: TokenStream) -> TokenStream {
     let item: Item = json_parse::parse(input).expect("error parsing item");
@@ -24,10 +29,10 @@ pub fn json_encode(input: TokenStream) -> TokenStream {
                                 if let Some(key) = meta.get("key") {
                                     key.string().expect("key attribute should be string").to_string()
                                 } else {
-                                    x.ident.clone()
+                                    field_key(&x.ident)
                                 }
                             } else {
-                                x.ident.clone()
+                                field_key(&x.ident)
                             };
                             (format!("{:?}.to_string()", k), x.ident.clone())
                         })
@@ -76,10 +81,10 @@ pub fn json_decode(input: TokenStream) -> TokenStream {
                                 if let Some(key) = meta.get("key") {
                                     key.string().expect("key attribute should be string").to_string()
                                 } else {
-                                    x.ident.clone()
+                                    field_key(&x.ident)
                                 }
                             } else {
-                                x.ident.clone()
+                                field_key(&x.ident)
                             };
                             (format!("{:?}", k), x.ident.clone(), x.ty.used_ty())
                         })
-- 
2.43.0


From 99f84d626839e40ba879893ae7b8691756a80837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:50 +0000
Subject: [PATCH 18/63] fix: JsonDecode works where Result is an alias

---
 json_derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_derive/src/lib.rs b/json_derive/src/lib.rs
index 8123886..0260765 100644
--- a/json_derive/src/lib.rs
+++ b/json_derive/src/lib.rs
@@ -93,7 +93,7 @@ pub fn json_decode(input: TokenStream) -> TokenStream {
                         impl#(#(&s.generics))? json::FromJson for #(s.ident)#(#(&s.generics):x #(x.only_idents()))?
                         #(#(&s.where_clause))?
                         {
-                            fn from_json(json: &json::Json) -> Result<Self, json::Error> {
+                            fn from_json(json: &json::Json) -> std::result::Result<Self, json::Error> {
                                 match json {
                                     json::Json::Object(obj) => {
                                         Ok(
-- 
2.43.0


From 9b3e9876fd110cb233510ccac5e37e9aa333ff8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:15 +0000
Subject: [PATCH 19/63] fix: const generic parameters and arguments parse and
 print as written

---
 json_derive/parse/src/generic.rs | 14 ++++++++++++--
 json_derive/parse/src/name.rs    |  8 ++++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/json_derive/parse/src/generic.rs b/json_derive/parse/src/generic.rs
index 9cefbf0..839179a 100644
--- a/json_derive/parse/src/generic.rs
+++ b/json_derive/parse/src/generic.rs
@@ -160,6 +160,10 @@ impl Parse for Generics {
 #[derive(Debug)]
 pub struct GenericItem {
     pub ident: String,
+
+    // const N: usize
+    pub constness: bool,
+
     pub traits: Vec<Name>,
     pub lifetimes: Vec<Name>,
     pub sized: bool,
@@ -180,7 +184,11 @@ impl GenericItem {
 
 impl ToString for GenericItem {
     fn to_string(&self) -> String {
-        let mut gen = self.ident.clone();
+        let mut gen = if self.constness {
+            format!("const {}", self.ident)
+        } else {
+            self.ident.clone()
+        };
 
         let mut buf = self.traits
             .iter()
@@ -226,6 +234,7 @@ impl Parse for GenericItem {
         // preload generic item
         let mut item = GenericItem {
             ident: String::default(),
+            constness: false,
             traits: Vec::default(),
             lifetimes: Vec::default(),
             sized: true,
@@ -302,7 +311,8 @@ impl Parse for GenericItem {
                     }
                     TokenTree::Ident(ident) if &ident.to_string() == "const" => {
                         if let TokenTree::Ident(name) = &ident_tokens[1] {
-                            format!("'{}", name.to_string())
+                            item.constness = true;
+                            name.to_string()
                         } else {
                             return Err(Error::new(format!("const generic name should be an Ident, got {}.", &ident_tokens[1])));
                         }
diff --git a/json_derive/parse/src/name.rs b/json_derive/parse/src/name.rs
index afbd19c..db60f7e 100644
--- a/json_derive/parse/src/name.rs
+++ b/json_derive/parse/src/name.rs
@@ -155,6 +155,14 @@ impl Parse for Name {
                         Ok(Name { prefixes, ident: group.to_string(), generics: Vec::new() })
                     }
 
+                    // const argument
+                    TokenTree::Group(group) if group.delimiter() == Delimiter::Brace => {
+                        Ok(Name { prefixes, ident: group.to_string(), generics: Vec::new() })
+                    }
+                    TokenTree::Literal(lit) => {
+                        Ok(Name { prefixes, ident: lit.to_string(), generics: Vec::new() })
+                    }
+
                     _ => Err(Error::new(format!("single identifier should be Ident, got {}.", input)))
                 }
             }
-- 
2.43.0


From d40c9af651cd848f3915634aa6dba9ee1ffcd762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:39 +0000
Subject: [PATCH 20/63] fix: derives leave default values of type parameters
 out of the impl

---
 json_derive/parse/src/generic.rs | 27 ++++++++++++++++++++++++---
 json_derive/src/lib.rs           |  4 ++--
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/json_derive/parse/src/generic.rs b/json_derive/parse/src/generic.rs
index 839179a..8214b55 100644
--- a/json_derive/parse/src/generic.rs
+++ b/json_derive/parse/src/generic.rs
@@ -28,6 +28,20 @@ impl Generics {
         self.n + 2
     }
 
+    // parameters as declared but without default values, which are
+    // not allowed in impl
+    pub fn no_defaults(&self) -> String {
+        if !self.items.is_empty() {
+            format!("<{}>", self.items
+                .iter()
+                .map(|x| x.declaration())
+                .collect::<Vec<String>>()
+                .join(", "))
+        } else {
+            String::default()
+        }
+    }
+
     pub fn only_idents(&self) -> String {
         if !self.items.is_empty() {
             format!("<{}>", self.items
@@ -180,10 +194,9 @@ impl GenericItem {
     pub fn is_static(&self) -> bool {
         &self.ident == "'static"
     }
-}
 
-impl ToString for GenericItem {
-    fn to_string(&self) -> String {
+    // ident and bounds
+    fn declaration(&self) -> String {
         let mut gen = if self.constness {
             format!("const {}", self.ident)
         } else {
@@ -207,6 +220,14 @@ impl ToString for GenericItem {
             gen.push_str(&buf.join(" + "));
         }
 
+        gen
+    }
+}
+
+impl ToString for GenericItem {
+    fn to_string(&self) -> String {
+        let mut gen = self.declaration();
+
         if let Some(ref default) = self.default {
             gen.push_str(" = ");
             gen.push_str(&default.to_string());
diff --git a/json_derive/src/lib.rs b/json_derive/src/lib.rs
index 0260765..933d50d 100644
--- a/json_derive/src/lib.rs
+++ b/json_derive/src/lib.rs
@@ -38,7 +38,7 @@ pub fn json_encode(input: TokenStream) -> TokenStream {
                         })
                         .collect();
                     quote! {
-                        impl#(#(&s.generics))? json::ToJson for #(s.ident)#(#(&s.generics):x #(x.only_idents()))?
+                        impl#(#(&s.generics):x #(x.no_defaults()))? json::ToJson for #(s.ident)#(#(&s.generics):x #(x.only_idents()))?
                         #(#(&s.where_clause))?
                         {
                             fn to_json(&self) -> json::Json {
@@ -90,7 +90,7 @@ pub fn json_decode(input: TokenStream) -> TokenStream {
                         })
                         .collect();
                     quote! {
-                        impl#(#(&s.generics))? json::FromJson for #(s.ident)#(#(&s.generics):x #(x.only_idents()))?
+                        impl#(#(&s.generics):x #(x.no_defaults()))? json::FromJson for #(s.ident)#(#(&s.generics):x #(x.only_idents()))?
                         #(#(&s.where_clause))?
                         {
                             fn from_json(json: &json::Json) -> std::result::Result<Self, json::Error> {
-- 
2.43.0


From c9bf49c683f3a6caa8fbb4f0084cf9ac107c1023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:56 +0000
Subject: [PATCH 21/63] fix: where clauses may bound any type, not only a
 single identifier

---
 json_derive/parse/src/generic.rs | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/json_derive/parse/src/generic.rs b/json_derive/parse/src/generic.rs
index 8214b55..18806b7 100644
--- a/json_derive/parse/src/generic.rs
+++ b/json_derive/parse/src/generic.rs
@@ -279,8 +279,14 @@ impl Parse for GenericItem {
         let mut generic: Vec<TokenStream> = Vec::with_capacity(2);
         let mut token = TokenStream::new();
         let mut hit_colon = false;
-        for e in tokens[0].clone() {
-            if hit_colon {
+        let mut iter = tokens[0].clone().into_iter().peekable();
+        while let Some(e) = iter.next() {
+            // "::" belongs to a path
+            let path = utils::punct_eq(':')(&e) && iter.peek().map_or(false, utils::punct_eq(':'));
+            if path && !hit_colon {
+                token.extend(Some(e));
+                token.extend(iter.next());
+            } else if hit_colon {
                 token.extend(Some(e));
             } else {
                 match e {
@@ -312,10 +318,14 @@ impl Parse for GenericItem {
         item.ident = match ident_tokens.len() {
             // T
             1 => {
-                if let TokenTree::Ident(name) = &ident_tokens[0] {
-                    name.to_string()
-                } else {
-                    return Err(Error::new(format!("generic name should be an Ident, got {}.", &ident_tokens[0])));
+                match &ident_tokens[0] {
+                    TokenTree::Ident(name) => name.to_string(),
+                    // where (T, U): ...
+                    // where [T]: ...
+                    TokenTree::Group(group) if generic.len() > 1 => group.to_string(),
+                    other => {
+                        return Err(Error::new(format!("generic name should be an Ident, got {}.", other)));
+                    }
                 }
             }
 
@@ -338,12 +348,18 @@ impl Parse for GenericItem {
                             return Err(Error::new(format!("const generic name should be an Ident, got {}.", &ident_tokens[1])));
                         }
                     }
+                    // where &T: ...
+                    _ if generic.len() > 1 => generic[0].to_string(),
                     _ => {
                         return Err(Error::new(format!("unexpected generic: {}.", ident_tokens.into_iter().collect::<TokenStream>())));
                     }
                 }
             }
 
+            // where Vec<T>: ...
+            // where T::Item: ...
+            n if n > 2 && generic.len() > 1 => generic[0].to_string(),
+
             // malformed
             _ => {
                 return Err(Error::new(format!(
-- 
2.43.0


From c23db9243b4af853a572d7d8972921a4fccd78bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:57 +0000
Subject: [PATCH 22/63] fix: a reference type prints its lifetime apart from
 the type

---
 json_derive/parse/src/name.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/json_derive/parse/src/name.rs b/json_derive/parse/src/name.rs
index db60f7e..1577533 100644
--- a/json_derive/parse/src/name.rs
+++ b/json_derive/parse/src/name.rs
@@ -303,10 +303,11 @@ impl ToString for Type {
 
             if let Some(lifetime) = &self.lifetime {
                 ty.push_str(&lifetime.to_string());
+                ty.push(' ');
             }
 
             if self.is_mut {
-                ty.push_str(" mut ");
+                ty.push_str("mut ");
             }
         }
 
-- 
2.43.0


From 11bd1abfa97d2c0c7052c525519c28598edcb819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:58 +0000
Subject: [PATCH 23/63] fix: fn items skip the tokens of their return type as
 many as there are Counting them again from the parsed type goes wrong for Fn
 types and paths.

---
 json_derive/parse/src/lib.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/json_derive/parse/src/lib.rs b/json_derive/parse/src/lib.rs
index e9b0d01..a064607 100644
--- a/json_derive/parse/src/lib.rs
+++ b/json_derive/parse/src/lib.rs
@@ -706,7 +706,7 @@ impl Parse for FnItem {
                 match peek.peek() {
                     Some(TokenTree::Punct(punct)) if punct.as_char() == '>' => {
                         peek.next();
-                        let return_ty = Type::parse(peek.clone()
+                        let tokens = peek.clone()
                             .take_while(|x| {
                                 match x {
                                     TokenTree::Group(group) => group.delimiter() != Delimiter::Brace,
@@ -714,8 +714,11 @@ impl Parse for FnItem {
                                     _ => true
                                 }
                             })
-                            .collect())?;
-                        peek.nth(return_ty.__token_num() - 1);
+                            .collect::<Vec<_>>();
+                        let n = tokens.len();
+                        let return_ty = Type::parse(tokens.into_iter().collect())?;
+                        // skip return type tokens, if there were none it is not parsed
+                        peek.nth(n - 1);
                         Some(return_ty)
                     }
                     _ => {
-- 
2.43.0


From c930d4263c76a3e82e3ba0ac31066a1b724125eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:28 +0000
Subject: [PATCH 24/63] fix: parameters with a path in their type or a mut
 binding parse as written

---
 json_derive/parse/src/param.rs | 39 ++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/json_derive/parse/src/param.rs b/json_derive/parse/src/param.rs
index 726510b..4b3c646 100644
--- a/json_derive/parse/src/param.rs
+++ b/json_derive/parse/src/param.rs
@@ -53,6 +53,9 @@ impl Parse for Params {
 
 #[derive(Debug)]
 pub struct ParamItem {
+    // mut x: ...
+    pub mutability: bool,
+
     // an ident is optional because when it is self,
     // the ident can be omitted.
     pub ident: Option<String>,
@@ -63,6 +66,10 @@ impl ToString for ParamItem {
     fn to_string(&self) -> String {
         let mut s = String::new();
 
+        if self.mutability {
+            s.push_str("mut ");
+        }
+
         if let Some(ident) = &self.ident {
             s.push_str(&ident);
             s.push_str(": ");
@@ -81,23 +88,37 @@ impl Parse for ParamItem {
             return Err(Error::new("got empty input when parsing param item."));
         }
 
-        // split ident and type by ':'
-        let mut tokens = utils::split_tokens_by(input.clone(), ":");
-
-        // validate
-        if ![1, 2].contains(&tokens.len()) {
-            return Err(Error::new(format!("malformed field: {}.", input)));
+        // split ident and type by the first ':', "::" belongs to a type
+        let mut tokens = vec![Vec::new()];
+        let mut iter = input.clone().into_iter().peekable();
+        while let Some(next) = iter.next() {
+            if utils::punct_eq(':')(&next) && tokens.len() == 1 {
+                if !iter.peek().map_or(false, utils::punct_eq(':')) {
+                    tokens.push(Vec::new());
+                    continue;
+                }
+                tokens[0].push(next);
+                tokens[0].extend(iter.next());
+                continue;
+            }
+            tokens.last_mut().unwrap().push(next);
         }
 
         // parse type
         let ty = match tokens.pop() {
-            Some(token) => Type::parse(token)?,
+            Some(token) => Type::parse(token.into_iter().collect())?,
             _ => return Err(Error::new(format!("malformed field: {}.", input)))
         };
 
+        // parse mut
+        let mutability = match tokens.last().and_then(|x| x.first()) {
+            Some(TokenTree::Ident(ident)) => &ident.to_string() == "mut",
+            _ => false,
+        };
+
         // parse name
         let ident = match tokens.pop() {
-            Some(token) => match token.into_iter().next() {
+            Some(token) => match token.into_iter().skip(mutability as usize).next() {
                 Some(TokenTree::Ident(ident)) => Some(ident.to_string()),
                 Some(other) => return Err(Error::new(format!("field name should be an ident, got {}.", other))),
                 _ => None,
@@ -106,6 +127,6 @@ impl Parse for ParamItem {
         };
 
         // return
-        Ok(ParamItem { ident, ty })
+        Ok(ParamItem { mutability, ident, ty })
     }
 }
\ No newline at end of file
-- 
2.43.0


From b1e5024d4872dd4adae4f780d50fd996afd24247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:58 +0000
Subject: [PATCH 25/63] fix: extern fn without an ABI stays extern (it is
 extern "C")

---
 json_derive/parse/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/json_derive/parse/src/lib.rs b/json_derive/parse/src/lib.rs
index a064607..d1c9e6e 100644
--- a/json_derive/parse/src/lib.rs
+++ b/json_derive/parse/src/lib.rs
@@ -648,7 +648,8 @@ impl Parse for FnItem {
                         peek.next();
                         extern_abi
                     }
-                    _ => None
+                    // extern alone means extern "C"
+                    _ => Some(Literal::string("C"))
                 }
             }
             _ => None
-- 
2.43.0


From 3124b9992c8c60755adbe11ab31414434b28d5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:59 +0000
Subject: [PATCH 26/63] fix: references to dyn and impl types parse (&dyn Read)

---
 json_derive/parse/src/name.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/json_derive/parse/src/name.rs b/json_derive/parse/src/name.rs
index 1577533..d469d5a 100644
--- a/json_derive/parse/src/name.rs
+++ b/json_derive/parse/src/name.rs
@@ -425,9 +425,7 @@ impl Parse for Type {
 
         // validate
         if peek.peek().is_none()
-            || (is_ref && (is_dyn || is_imp))
-            || (is_dyn && (is_ref || is_imp))
-            || (is_imp && (is_ref || is_dyn)) {
+            || (is_dyn && is_imp) {
             return Err(Error::new(format!("malformed type: {}.", input)));
         }
 
-- 
2.43.0


From 0ee607416113d2e1fa8a8e625f520d4f3cf6b688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:38 +0000
Subject: [PATCH 27/63] fix: pointers, for<'a> bounds, unsafe/extern fn types
 and empty argument lists parse

---
 json_derive/parse/src/name.rs | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/json_derive/parse/src/name.rs b/json_derive/parse/src/name.rs
index d469d5a..d31c415 100644
--- a/json_derive/parse/src/name.rs
+++ b/json_derive/parse/src/name.rs
@@ -35,11 +35,8 @@ impl Name {
 
         let n = self.prefixes.len() * 3;
 
-        // Fn/FnMut/FnOnce/fn case
-        if self.ident.starts_with("Fn (")
-            || self.ident.starts_with("FnMut (")
-            || self.ident.starts_with("FnOnce (")
-            || self.ident.starts_with("fn (") {
+        // an ident, or a type kept as it is
+        if self.generics.is_empty() {
             return n + self.ident
                 .parse::<TokenStream>()
                 .unwrap()
@@ -47,11 +44,6 @@ impl Name {
                 .count();
         }
 
-        // a simple ident token
-        if self.generics.is_empty() {
-            return n + 1;
-        }
-
         // each generic parameter contains its own token_num and
         // an extra comma, so we should add the comma count for
         // each generic. And because the last generic doesn't have
@@ -140,6 +132,23 @@ impl Parse for Name {
             }
         }
 
+        // pointers, references to references, for<'a> ..., unsafe/extern fn
+        // have no name of their own, they are kept as they are
+        let nameless = match stream.get(0) {
+            Some(TokenTree::Punct(punct)) => ['*', '&', '!'].contains(&punct.as_char()),
+            Some(TokenTree::Ident(ident)) => {
+                ["for", "unsafe", "extern"].contains(&ident.to_string().as_str())
+            }
+            _ => false
+        };
+        if nameless {
+            return Ok(Name {
+                prefixes,
+                ident: TokenStream::from_iter(stream).to_string(),
+                generics: Vec::new(),
+            });
+        }
+
         match stream.len() {
             1 => {
                 match &stream[0] {
@@ -187,7 +196,7 @@ impl Parse for Name {
                 }
             }
 
-            n if n > 3 => {
+            n if n > 2 => {
                 match (&stream[0], &stream[1], &stream[stream.len() - 1]) {
                     (TokenTree::Ident(ident),
                         TokenTree::Punct(left),
-- 
2.43.0


From 33377b45850fca1bdf271c0fe06d10800d73ba41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:05 +0000
Subject: [PATCH 28/63] fix: integers of any base and digits with underscores
 in attributes are read

---
 json_derive/parse/src/meta.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/json_derive/parse/src/meta.rs b/json_derive/parse/src/meta.rs
index c92748d..b0595ff 100644
--- a/json_derive/parse/src/meta.rs
+++ b/json_derive/parse/src/meta.rs
@@ -323,6 +323,24 @@ fn unquote(raw: &str) -> Option<Vec<u8>> {
     Some(bytes)
 }
 
+// value of an integer literal in any base, None when it is not
+// an integer or i32 can't hold it.
+fn parse_int(raw: &str) -> Option<i32> {
+    let digits = raw.replace('_', "");
+    let (digits, radix) = match digits.get(..2) {
+        Some("0x") => (&digits[2..], 16),
+        Some("0o") => (&digits[2..], 8),
+        Some("0b") => (&digits[2..], 2),
+        _ => (&digits[..], 10)
+    };
+    let digits = ["u8", "u16", "u32", "u64", "u128", "usize",
+        "i8", "i16", "i32", "i64", "i128", "isize"]
+        .iter()
+        .find(|&x| digits.ends_with(x))
+        .map_or(digits, |x| &digits[..digits.len() - x.len()]);
+    i32::from_str_radix(digits, radix).ok()
+}
+
 impl Parse for Lit {
     fn parse(input: TokenStream) -> Result<Lit> {
         // handle emtpy token
@@ -363,15 +381,13 @@ impl Parse for Lit {
                 }
 
                 // parse int
-                if let Ok(integer) = fix_suffix!(raw: i32 => (
-                                            "u8", "u16", "u32", "u64",
-                                            "u128", "usize", "i8", "i16",
-                                            "i32", "i64", "i128", "isize")) {
+                if let Some(integer) = parse_int(&raw) {
                     return Ok(Lit::Integer { integer, raw });
                 }
 
                 // parse float
-                if let Ok(float) = fix_suffix!(raw: f64 => ("f32", "f64")) {
+                let digits = raw.replace('_', "");
+                if let Ok(float) = fix_suffix!(digits: f64 => ("f32", "f64")) {
                     return Ok(Lit::Float { float, raw });
                 }
             }
-- 
2.43.0


From fa99ccff59b87be13c22588397587ca3c09e8cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:27 +0000
Subject: [PATCH 29/63] fix: structures built by macro_rules fragments ($t:ty,
 $v:vis) parse

---
 json_derive/parse/src/lib.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/json_derive/parse/src/lib.rs b/json_derive/parse/src/lib.rs
index d1c9e6e..9fd821c 100644
--- a/json_derive/parse/src/lib.rs
+++ b/json_derive/parse/src/lib.rs
@@ -45,7 +45,29 @@ pub trait Parse: Sized {
 
 // a general function to parse Item
 pub fn parse<T: Parse>(input: TokenStream) -> Result<T> {
-    T::parse(input)
+    T::parse(ungroup(input))
+}
+
+// tokens coming from a macro_rules fragment like $t:ty are in an
+// invisible group, parsers expect them without it.
+fn ungroup(input: TokenStream) -> TokenStream {
+    input
+        .into_iter()
+        .flat_map(|x| {
+            match x {
+                TokenTree::Group(group) => {
+                    let stream = ungroup(group.stream());
+                    if group.delimiter() == Delimiter::None {
+                        return stream;
+                    }
+                    let mut inner = Group::new(group.delimiter(), stream);
+                    inner.set_span(group.span());
+                    TokenTree::from(inner).into()
+                }
+                other => other.into()
+            }
+        })
+        .collect()
 }
 
 // Item represents rust item
-- 
2.43.0


From 2dc2e9a76c1c4f14d66a1c528833b7e63e76b180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:33 +0000
Subject: [PATCH 30/63] fix: a bound may start with :: (T: ::json::ToJson)

---
 json_derive/parse/src/generic.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/json_derive/parse/src/generic.rs b/json_derive/parse/src/generic.rs
index 18806b7..270659f 100644
--- a/json_derive/parse/src/generic.rs
+++ b/json_derive/parse/src/generic.rs
@@ -1,6 +1,6 @@
 // ...
 
-use proc_macro::{TokenStream, TokenTree, Delimiter};
+use proc_macro::{TokenStream, TokenTree, Delimiter, Spacing};
 use std::ops::Deref;
 use std::iter::FromIterator;
 use crate::utils;
@@ -281,8 +281,11 @@ impl Parse for GenericItem {
         let mut hit_colon = false;
         let mut iter = tokens[0].clone().into_iter().peekable();
         while let Some(e) = iter.next() {
-            // "::" belongs to a path
-            let path = utils::punct_eq(':')(&e) && iter.peek().map_or(false, utils::punct_eq(':'));
+            // "::" belongs to a path, ": ::" begins the bounds
+            let path = match &e {
+                TokenTree::Punct(punct) => punct.as_char() == ':' && punct.spacing() == Spacing::Joint,
+                _ => false
+            } && iter.peek().map_or(false, utils::punct_eq(':'));
             if path && !hit_colon {
                 token.extend(Some(e));
                 token.extend(iter.next());
-- 
2.43.0


From 984a1ce0f5a1e102342d8d36701d001fa33fd48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:34 +0000
Subject: [PATCH 31/63] fix: a where predicate without bounds (where T:) prints
 its colon

---
 json_derive/parse/src/generic.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/json_derive/parse/src/generic.rs b/json_derive/parse/src/generic.rs
index 270659f..d8200a1 100644
--- a/json_derive/parse/src/generic.rs
+++ b/json_derive/parse/src/generic.rs
@@ -441,7 +441,14 @@ impl ToString for WhereClause {
         if !self.items.is_empty() {
             format!("where {}", self.items
                 .iter()
-                .map(|x| x.to_string())
+                .map(|x| {
+                    // a predicate has a colon even without bounds
+                    if x.traits.is_empty() && x.lifetimes.is_empty() && x.sized {
+                        format!("{}:", x.ident)
+                    } else {
+                        x.to_string()
+                    }
+                })
                 .collect::<Vec<String>>()
                 .join(", "))
         } else {
-- 
2.43.0


From 9c4f5042e5d27aec5c624a12ecb8f04c1b46ed07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:47 +0000
Subject: [PATCH 32/63] fix: names in attributes may start with ::
 (#[derive(::json::JsonDecode)])

---
 json_derive/parse/src/meta.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/json_derive/parse/src/meta.rs b/json_derive/parse/src/meta.rs
index b0595ff..29b9d6b 100644
--- a/json_derive/parse/src/meta.rs
+++ b/json_derive/parse/src/meta.rs
@@ -541,7 +541,11 @@ impl Parse for MetaItem {
             collect::<Vec<TokenTree>>();
 
         // a path names an item the same way an ident does: #[path::name ...]
-        let mut n = 0;
+        // or #[::path::name ...]
+        let mut n = match meta.get(0..2) {
+            Some(first) if first.iter().all(utils::punct_eq(':')) => 2,
+            _ => 0
+        };
         while let (Some(TokenTree::Ident(_)), true, true) = (meta.get(n),
                                                              meta.get(n + 1).map_or(false, utils::punct_eq(':')),
                                                              meta.get(n + 2).map_or(false, utils::punct_eq(':'))) {
-- 
2.43.0


From 5bfa30a5644a60c8a0f16f3bb1a33c2b45be3f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:18 +0000
Subject: [PATCH 33/63] fix: the smallest i32 in an attribute is read as an
 integer, not as a float

---
 json_derive/parse/src/meta.rs | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/json_derive/parse/src/meta.rs b/json_derive/parse/src/meta.rs
index 29b9d6b..a2479ed 100644
--- a/json_derive/parse/src/meta.rs
+++ b/json_derive/parse/src/meta.rs
@@ -324,8 +324,8 @@ fn unquote(raw: &str) -> Option<Vec<u8>> {
 }
 
 // value of an integer literal in any base, None when it is not
-// an integer or i32 can't hold it.
-fn parse_int(raw: &str) -> Option<i32> {
+// an integer or i32 can't hold it. sign is "-" or "".
+fn parse_int(sign: &str, raw: &str) -> Option<i32> {
     let digits = raw.replace('_', "");
     let (digits, radix) = match digits.get(..2) {
         Some("0x") => (&digits[2..], 16),
@@ -338,7 +338,20 @@ fn parse_int(raw: &str) -> Option<i32> {
         .iter()
         .find(|&x| digits.ends_with(x))
         .map_or(digits, |x| &digits[..digits.len() - x.len()]);
-    i32::from_str_radix(digits, radix).ok()
+    i32::from_str_radix(&format!("{}{}", sign, digits), radix).ok()
+}
+
+// a literal following a '-', it must be a number
+fn parse_negative(token: &TokenTree) -> Result<Lit> {
+    if let TokenTree::Literal(lit) = token {
+        if let Some(integer) = parse_int("-", &lit.to_string()) {
+            return Ok(Lit::Integer { integer, raw: format!("-{}", lit) });
+        }
+    }
+    match Lit::parse(token.clone().into())? {
+        Lit::Float { float, raw } => Ok(Lit::Float { float: -float, raw: format!("-{}", raw) }),
+        _ => Err(Error::new(format!("error parsing negative literal: - {}.", token)))
+    }
 }
 
 impl Parse for Lit {
@@ -381,7 +394,7 @@ impl Parse for Lit {
                 }
 
                 // parse int
-                if let Some(integer) = parse_int(&raw) {
+                if let Some(integer) = parse_int("", &raw) {
                     return Ok(Lit::Integer { integer, raw });
                 }
 
@@ -595,11 +608,7 @@ impl Parse for MetaItem {
             2 => {
                 // parse negative value
                 if utils::punct_eq('-')(&meta[0]) {
-                    match Lit::parse(meta[1].clone().into())? {
-                        Lit::Integer { integer, raw } => return Ok(MetaItem::Literal(Lit::Integer { integer: -integer, raw: format!("-{}", raw) })),
-                        Lit::Float { float, raw } => return Ok(MetaItem::Literal(Lit::Float { float: -float, raw: format!("-{}", raw) })),
-                        _ => return Err(Error::new(format!("error parsing negative literal: {}.", input)))
-                    }
+                    return Ok(MetaItem::Literal(parse_negative(&meta[1])?));
                 }
 
                 // parse name(...)
@@ -667,11 +676,7 @@ impl Parse for MetaItem {
 
                 // match negative value literal
                 if utils::punct_eq('-')(&meta[2]) {
-                    match Lit::parse(meta[3].clone().into())? {
-                        Lit::Integer { integer, raw } => { lit = Lit::Integer { integer: -integer, raw: format!("-{}", raw) }; }
-                        Lit::Float { float, raw } => { lit = Lit::Float { float: -float, raw: format!("-{}", raw) }; }
-                        _ => return Err(Error::new(format!("error parsing negative literal: - {}.", &meta[3])))
-                    }
+                    lit = parse_negative(&meta[3])?;
                 } else {
                     return Err(Error::new(format!("negative value should starts with a '-' punct, got {}.", &meta[2])));
                 }
-- 
2.43.0


From fb5faafeefe7c8b3e4fe4aa99f58a98853f79d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:10 +0000
Subject: [PATCH 34/63] fix: a unit struct prints its where clause

StructItem::to_string dropped the where clause of a struct without fields, so
that the printed item was a different one.
---
 json_derive/parse/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/json_derive/parse/src/lib.rs b/json_derive/parse/src/lib.rs
index 9fd821c..3c7c4c1 100644
--- a/json_derive/parse/src/lib.rs
+++ b/json_derive/parse/src/lib.rs
@@ -217,6 +217,9 @@ impl ToString for StructItem {
 
         match &self.fields {
             Fields::NoFields => {
+                if let Some(where_clause) = &self.where_clause {
+                    s.push_str(&where_clause.to_string());
+                }
                 s.push(';');
             }
             fields @ Fields::TupleFields(_) => {
-- 
2.43.0


From 4548c4433cf6525a61af97cdc7ce9b8eb375f621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:23 +0000
Subject: [PATCH 35/63] fix: enum discriminants in any spelling of an integer

enum E { A = 0x10 } and 1_000 or 7isize were refused because only a plain
decimal number was parsed. They are read the way integers in attributes are.
---
 json_derive/parse/src/enum_value.rs | 10 +++++++---
 json_derive/parse/src/meta.rs       | 22 ++--------------------
 json_derive/parse/src/utils.rs      | 21 ++++++++++++++++++++-
 3 files changed, 29 insertions(+), 24 deletions(-)

diff --git a/json_derive/parse/src/enum_value.rs b/json_derive/parse/src/enum_value.rs
index 3d79369..b957043 100644
--- a/json_derive/parse/src/enum_value.rs
+++ b/json_derive/parse/src/enum_value.rs
@@ -101,9 +101,13 @@ impl Parse for EnumValueItem {
         let tokens = utils::split_tokens_by(input.clone(), "=");
         let disc = if tokens.len() >= 2 {
             let s = tokens[1].to_string();
-            match s.parse::<isize>() {
-                Ok(n) => Some(n),
-                _ => {
+            let (sign, digits) = match s.strip_prefix('-') {
+                Some(digits) => ("-", digits.trim_start()),
+                None => ("", s.as_str())
+            };
+            match utils::parse_int(sign, digits) {
+                Some(n) => Some(n),
+                None => {
                     return Err(Error::new(format!("enum discrimination expects isize, got {}.", s)));
                 }
             }
diff --git a/json_derive/parse/src/meta.rs b/json_derive/parse/src/meta.rs
index a2479ed..60dea26 100644
--- a/json_derive/parse/src/meta.rs
+++ b/json_derive/parse/src/meta.rs
@@ -323,28 +323,10 @@ fn unquote(raw: &str) -> Option<Vec<u8>> {
     Some(bytes)
 }
 
-// value of an integer literal in any base, None when it is not
-// an integer or i32 can't hold it. sign is "-" or "".
-fn parse_int(sign: &str, raw: &str) -> Option<i32> {
-    let digits = raw.replace('_', "");
-    let (digits, radix) = match digits.get(..2) {
-        Some("0x") => (&digits[2..], 16),
-        Some("0o") => (&digits[2..], 8),
-        Some("0b") => (&digits[2..], 2),
-        _ => (&digits[..], 10)
-    };
-    let digits = ["u8", "u16", "u32", "u64", "u128", "usize",
-        "i8", "i16", "i32", "i64", "i128", "isize"]
-        .iter()
-        .find(|&x| digits.ends_with(x))
-        .map_or(digits, |x| &digits[..digits.len() - x.len()]);
-    i32::from_str_radix(&format!("{}{}", sign, digits), radix).ok()
-}
-
 // a literal following a '-', it must be a number
 fn parse_negative(token: &TokenTree) -> Result<Lit> {
     if let TokenTree::Literal(lit) = token {
-        if let Some(integer) = parse_int("-", &lit.to_string()) {
+        if let Some(integer) = utils::parse_int("-", &lit.to_string()) {
             return Ok(Lit::Integer { integer, raw: format!("-{}", lit) });
         }
     }
@@ -394,7 +376,7 @@ impl Parse for Lit {
                 }
 
                 // parse int
-                if let Some(integer) = parse_int("", &raw) {
+                if let Some(integer) = utils::parse_int("", &raw) {
                     return Ok(Lit::Integer { integer, raw });
                 }
 
diff --git a/json_derive/parse/src/utils.rs b/json_derive/parse/src/utils.rs
index 0c66b03..b355cee 100644
--- a/json_derive/parse/src/utils.rs
+++ b/json_derive/parse/src/utils.rs
@@ -1,4 +1,5 @@
 use std::iter::FromIterator;
+use std::convert::TryFrom;
 use proc_macro::{TokenTree, TokenStream};
 
 // punct_eq generate a closure to judge whether a TokenTree is
@@ -122,4 +123,22 @@ pub fn split_tokens_by(input: TokenStream, sep: &str) -> Vec<TokenStream> {
 
     // return valid tokens
     tokens
-}
\ No newline at end of file
+}
+
+// value of an integer literal in any base, None when it is not
+// an integer or T can't hold it. sign is "-" or "".
+pub fn parse_int<T: TryFrom<i128>>(sign: &str, raw: &str) -> Option<T> {
+    let digits = raw.replace('_', "");
+    let (digits, radix) = match digits.get(..2) {
+        Some("0x") => (&digits[2..], 16),
+        Some("0o") => (&digits[2..], 8),
+        Some("0b") => (&digits[2..], 2),
+        _ => (&digits[..], 10)
+    };
+    let digits = ["u8", "u16", "u32", "u64", "u128", "usize",
+        "i8", "i16", "i32", "i64", "i128", "isize"]
+        .iter()
+        .find(|&x| digits.ends_with(x))
+        .map_or(digits, |x| &digits[..digits.len() - x.len()]);
+    T::try_from(i128::from_str_radix(&format!("{}{}", sign, digits), radix).ok()?).ok()
+}
-- 
2.43.0


From 622ef3a5983d0aa5b67fb14de59e8cdff02f76d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:39 +0000
Subject: [PATCH 36/63] fix: a public tuple field of a tuple type is read

struct S(pub (u8, u8)); was refused: the type was taken for a restriction of
the visibility like pub(crate).
---
 json_derive/parse/src/field.rs |  3 ++-
 json_derive/parse/src/utils.rs | 13 ++++++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/json_derive/parse/src/field.rs b/json_derive/parse/src/field.rs
index d211a28..b682512 100644
--- a/json_derive/parse/src/field.rs
+++ b/json_derive/parse/src/field.rs
@@ -198,7 +198,8 @@ impl Parse for TupleFieldItem {
             Some(TokenTree::Ident(ident)) if &ident.to_string() == "pub" => {
                 peek.next();
                 match peek.peek() {
-                    Some(TokenTree::Group(group)) if group.delimiter() == Delimiter::Parenthesis => {
+                    // "pub (A, B)" is a public field of a tuple type
+                    Some(TokenTree::Group(group)) if utils::is_restriction(group) => {
                         let path = Some(group.stream().to_string());
                         peek.next();
                         Some(path)
diff --git a/json_derive/parse/src/utils.rs b/json_derive/parse/src/utils.rs
index b355cee..b6a7bb9 100644
--- a/json_derive/parse/src/utils.rs
+++ b/json_derive/parse/src/utils.rs
@@ -1,6 +1,6 @@
 use std::iter::FromIterator;
 use std::convert::TryFrom;
-use proc_macro::{TokenTree, TokenStream};
+use proc_macro::{TokenTree, TokenStream, Delimiter, Group};
 
 // punct_eq generate a closure to judge whether a TokenTree is
 // the given punct, which usually use in iter.filter() method.
@@ -142,3 +142,14 @@ pub fn parse_int<T: TryFrom<i128>>(sign: &str, raw: &str) -> Option<T> {
         .map_or(digits, |x| &digits[..digits.len() - x.len()]);
     T::try_from(i128::from_str_radix(&format!("{}{}", sign, digits), radix).ok()?).ok()
 }
+
+// judge whether a group following "pub" restricts the visibility:
+// (crate), (self), (super) or (in ...).
+pub fn is_restriction(group: &Group) -> bool {
+    let mut iter = group.stream().into_iter().map(|x| x.to_string());
+    group.delimiter() == Delimiter::Parenthesis && match (iter.next(), iter.next()) {
+        (Some(first), None) => ["crate", "self", "super"].contains(&first.as_str()),
+        (Some(first), _) => first == "in",
+        _ => false
+    }
+}
-- 
2.43.0


From 6fee4cb0c176921c145167a0f3edeabbb586dd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:48 +0000
Subject: [PATCH 37/63] fix: a parameter whose type begins with :: keeps its
 name

fn f(x: ::std::string::String) was read as a parameter without a name, because
": ::" was taken for a "::" of a path.
---
 json_derive/parse/src/param.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/json_derive/parse/src/param.rs b/json_derive/parse/src/param.rs
index 4b3c646..14be59f 100644
--- a/json_derive/parse/src/param.rs
+++ b/json_derive/parse/src/param.rs
@@ -1,6 +1,6 @@
 // ...
 
-use proc_macro::{TokenStream, TokenTree, Delimiter};
+use proc_macro::{TokenStream, TokenTree, Delimiter, Spacing};
 use crate::{Error, Result, Parse};
 use crate::name::Type;
 use crate::utils;
@@ -89,11 +89,16 @@ impl Parse for ParamItem {
         }
 
         // split ident and type by the first ':', "::" belongs to a type
+        // but ": ::" begins one
         let mut tokens = vec![Vec::new()];
         let mut iter = input.clone().into_iter().peekable();
         while let Some(next) = iter.next() {
             if utils::punct_eq(':')(&next) && tokens.len() == 1 {
-                if !iter.peek().map_or(false, utils::punct_eq(':')) {
+                let path = match &next {
+                    TokenTree::Punct(punct) => punct.spacing() == Spacing::Joint,
+                    _ => false
+                } && iter.peek().map_or(false, utils::punct_eq(':'));
+                if !path {
                     tokens.push(Vec::new());
                     continue;
                 }
-- 
2.43.0


From a14ca64186066246fa4d473d7ef78db8d7bdf823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:58 +0000
Subject: [PATCH 38/63] fix: an associated type bound to a reference prints in
 order

Iterator<Item = &T> printed as Iterator<&Item = T>.
---
 json_derive/parse/src/name.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/json_derive/parse/src/name.rs b/json_derive/parse/src/name.rs
index d31c415..4c1d979 100644
--- a/json_derive/parse/src/name.rs
+++ b/json_derive/parse/src/name.rs
@@ -307,6 +307,11 @@ impl ToString for Type {
     fn to_string(&self) -> String {
         let mut ty = String::new();
 
+        if let Some(ident) = &self.ident {
+            ty.push_str(ident);
+            ty.push_str(" = ");
+        }
+
         if self.is_ref {
             ty.push('&');
 
@@ -328,11 +333,6 @@ impl ToString for Type {
             ty.push_str("impl ");
         }
 
-        if let Some(ident) = &self.ident {
-            ty.push_str(ident);
-            ty.push_str(" = ");
-        }
-
         ty.push_str(&self.names
             .iter()
             .map(|x| x.to_string())
-- 
2.43.0


From 6f8241ab537851cf4ba327cedd0a4b50c5d33d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:10 +0000
Subject: [PATCH 39/63] fix: a character as a const argument is not a lifetime

Name::is_lifetime said so of the 'c' in A<'c'>.
---
 json_derive/parse/src/name.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/json_derive/parse/src/name.rs b/json_derive/parse/src/name.rs
index 4c1d979..de374ff 100644
--- a/json_derive/parse/src/name.rs
+++ b/json_derive/parse/src/name.rs
@@ -60,8 +60,9 @@ impl Name {
 
     // provide a shortcut to judge whether this name value
     // is a lifetime, which should starts with a '\'' punct.
+    // A character like 'c' as a const argument is not.
     pub fn is_lifetime(&self) -> bool {
-        self.ident.starts_with('\'')
+        self.ident.starts_with('\'') && !self.ident.ends_with('\'')
     }
 }
 
-- 
2.43.0


From 86bb5d16d776d03f97d1b61e9d01538b2856b80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:20 +0000
Subject: [PATCH 40/63] fix: mut self is read as a parameter

fn f(mut self) was refused: without a type of its own, mut was taken for the
beginning of one.
---
 json_derive/parse/src/param.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/json_derive/parse/src/param.rs b/json_derive/parse/src/param.rs
index 14be59f..260e0f1 100644
--- a/json_derive/parse/src/param.rs
+++ b/json_derive/parse/src/param.rs
@@ -109,21 +109,24 @@ impl Parse for ParamItem {
             tokens.last_mut().unwrap().push(next);
         }
 
+        // parse mut, as in "mut x: ..." and "mut self"
+        let mutability = match tokens[0].first() {
+            Some(TokenTree::Ident(ident)) => &ident.to_string() == "mut",
+            _ => false,
+        };
+        if mutability {
+            tokens[0].remove(0);
+        }
+
         // parse type
         let ty = match tokens.pop() {
             Some(token) => Type::parse(token.into_iter().collect())?,
             _ => return Err(Error::new(format!("malformed field: {}.", input)))
         };
 
-        // parse mut
-        let mutability = match tokens.last().and_then(|x| x.first()) {
-            Some(TokenTree::Ident(ident)) => &ident.to_string() == "mut",
-            _ => false,
-        };
-
         // parse name
         let ident = match tokens.pop() {
-            Some(token) => match token.into_iter().skip(mutability as usize).next() {
+            Some(token) => match token.into_iter().next() {
                 Some(TokenTree::Ident(ident)) => Some(ident.to_string()),
                 Some(other) => return Err(Error::new(format!("field name should be an ident, got {}.", other))),
                 _ => None,
-- 
2.43.0


From b864d9412441b67d04ad0af6d4d5e3face17f965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:47 +0000
Subject: [PATCH 41/63] fix: negative const arguments are read

A<-1> as a type or a default was refused.
---
 json_derive/parse/src/name.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/json_derive/parse/src/name.rs b/json_derive/parse/src/name.rs
index de374ff..b72d5ec 100644
--- a/json_derive/parse/src/name.rs
+++ b/json_derive/parse/src/name.rs
@@ -134,9 +134,10 @@ impl Parse for Name {
         }
 
         // pointers, references to references, for<'a> ..., unsafe/extern fn
-        // have no name of their own, they are kept as they are
+        // and negative const arguments have no name of their own, they are
+        // kept as they are
         let nameless = match stream.get(0) {
-            Some(TokenTree::Punct(punct)) => ['*', '&', '!'].contains(&punct.as_char()),
+            Some(TokenTree::Punct(punct)) => ['*', '&', '!', '-'].contains(&punct.as_char()),
             Some(TokenTree::Ident(ident)) => {
                 ["for", "unsafe", "extern"].contains(&ident.to_string().as_str())
             }
-- 
2.43.0


From d043712d96edf4b18f7c93fb66e8904a793a5e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:35 +0000
Subject: [PATCH 42/63] fix: #foreach(expr) in a @scope no longer needs
 TokenStream in scope

The count-only form named TokenStream without a path, so a caller which had
not imported proc_macro::TokenStream could not use it.
---
 json_derive/quote/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_derive/quote/src/lib.rs b/json_derive/quote/src/lib.rs
index 5326a1b..df3ffb6 100644
--- a/json_derive/quote/src/lib.rs
+++ b/json_derive/quote/src/lib.rs
@@ -299,7 +299,7 @@ macro_rules! __scope_command {
             e.expect("unexpected nested #foreach.");
         }
         let mut _sized_vec = Vec::with_capacity($expr.into_iter().count());
-        _sized_vec.resize(_sized_vec.capacity(), TokenStream::new());
+        _sized_vec.resize(_sized_vec.capacity(), $crate::__pm::TokenStream::new());
         $iter.0 = Some(_sized_vec);
         $iter.1 = "_";
     };
-- 
2.43.0


From e842f25cd6fa44e7ed455098ddb7e59f670e84fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:52 +0000
Subject: [PATCH 43/63] fix: at most one branch of an #if chain in a @scope is
 emitted

#elif and #else looked only at the condition before them, so a chain whose
first branch was taken could emit a later #elif or #else branch as well.
---
 json_derive/quote/src/lib.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/json_derive/quote/src/lib.rs b/json_derive/quote/src/lib.rs
index df3ffb6..1c716e9 100644
--- a/json_derive/quote/src/lib.rs
+++ b/json_derive/quote/src/lib.rs
@@ -237,40 +237,41 @@ macro_rules! __scope_command {
             let e: Option<()> = None;
             e.expect("unexpected #ifdef in #foreach scope.");
         }
-        $flag.1 = Some(());
         $flag.0 = $hashmap.contains_key(__stringify!($param));
+        $flag.1 = Some($flag.0);
     };
     ( $token:ident $span:ident $flag:ident $iter:ident $hashmap:ident ifndef($param:ident) ) => {
         if $iter.0.is_some() {
             let e: Option<()> = None;
             e.expect("unexpected #ifndef in #foreach scope.");
         }
-        $flag.1 = Some(());
         $flag.0 = !$hashmap.contains_key(__stringify!($param));
+        $flag.1 = Some($flag.0);
     };
     ( $token:ident $span:ident $flag:ident $iter:ident $hashmap:ident if($expr:expr) ) => {
         if $iter.0.is_some() {
             let e: Option<()> = None;
             e.expect("unexpected #if in #foreach scope.");
         }
-        $flag.1 = Some(());
         $flag.0 = $expr;
+        $flag.1 = Some($flag.0);
     };
     ( $token:ident $span:ident $flag:ident $iter:ident $hashmap:ident elif($expr:expr) ) => {
         if $iter.0.is_some() {
             let e: Option<()> = None;
             e.expect("unexpected #elif in #foreach scope.");
         }
-        $flag.1.expect("expect #if before #elif.");
-        $flag.0 = $expr;
+        let _taken = $flag.1.expect("expect #if before #elif.");
+        $flag.0 = !_taken && $expr;
+        $flag.1 = Some(_taken || $flag.0);
     };
     ( $token:ident $span:ident $flag:ident $iter:ident $hashmap:ident else ) => {
         if $iter.0.is_some() {
             let e: Option<()> = None;
             e.expect("unexpected #else in #foreach scope.");
         }
-        $flag.1.expect("expect #if before #else.");
-        $flag.0 = !$flag.0;
+        $flag.0 = !$flag.1.expect("expect #if before #else.");
+        $flag.1 = Some(true);
     };
     ( $token:ident $span:ident $flag:ident $iter:ident $hashmap:ident endif ) => {
         if $iter.0.is_some() {
@@ -364,7 +365,8 @@ macro_rules! __append_to_token {
       $($rest:tt)* ) =>
     {{
         $($token.extend($crate::__parse(__stringify!($ident), $span));)*
-        struct _Flag(bool, Option<()>);
+        // (emitting, Some(whether a branch of the open #if was taken))
+        struct _Flag(bool, Option<bool>);
         struct _Iter(Option<Vec<$crate::__pm::TokenStream>>, &'static str);
         let mut _flag = _Flag(true, None);
         let mut _iter = _Iter(None, "");
-- 
2.43.0


From a06d48cfc8182c7c43cf7ddc741163c833b61c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:52 +0000
Subject: [PATCH 44/63] fix: a parameter of @params is not visible after its
 group

The binding made for #(@params(x = expr): ...) stayed in scope, so a later
#x in the same template expanded to the parameter instead of the variable.
---
 json_derive/quote/src/lib.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/json_derive/quote/src/lib.rs b/json_derive/quote/src/lib.rs
index 1c716e9..b1e5715 100644
--- a/json_derive/quote/src/lib.rs
+++ b/json_derive/quote/src/lib.rs
@@ -332,13 +332,15 @@ macro_rules! __append_to_token {
     // @params modifier uses the given variable's value as token
     ( $token:ident $span:ident $($ident:ident)* # ( @ params($($param:ident$(=$expr:expr)?),+$(,)?) : $($tt:tt)+ ) $($rest:tt)* ) => {{
         $($token.extend($crate::__parse(__stringify!($ident), $span));)*
-        let mut _hashmap = std::collections::HashMap::new();
-        $(
-        $(let $param = $expr;)?
-        _hashmap.insert(__stringify!($param).to_string(), $crate::__parse(&$param.to_string(), $span));
-        )+
-        let _input = $crate::__parse(__stringify!($($tt)+), $span);
-        $token.extend($crate::__translate(_input, $span, &_hashmap));
+        {
+            let mut _hashmap = std::collections::HashMap::new();
+            $(
+            $(let $param = $expr;)?
+            _hashmap.insert(__stringify!($param).to_string(), $crate::__parse(&$param.to_string(), $span));
+            )+
+            let _input = $crate::__parse(__stringify!($($tt)+), $span);
+            $token.extend($crate::__translate(_input, $span, &_hashmap));
+        }
         __append_to_token!($token $span $($rest)*);
     }};
     // @scope modifier create an isolated scope, which include some useful behaviours
-- 
2.43.0


From 1ebc0d84d7ef5aca94242135e9954e25fbd659cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:52 +0000
Subject: [PATCH 45/63] fix: #ifdef, #ifndef and #undef see names defined as
 macros

#define(m(x), ...) stores its body and parameters under "m+" and "m-",
which the three commands did not look at.
---
 json_derive/quote/src/lib.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/json_derive/quote/src/lib.rs b/json_derive/quote/src/lib.rs
index b1e5715..f9cecc1 100644
--- a/json_derive/quote/src/lib.rs
+++ b/json_derive/quote/src/lib.rs
@@ -229,7 +229,7 @@ macro_rules! __scope_command {
             e.expect("unexpected #undef in #foreach scope.");
         }
         if $flag.0 {
-            $hashmap.remove(__stringify!($param));
+            $crate::__undefine(&mut $hashmap, __stringify!($param));
         }
     };
     ( $token:ident $span:ident $flag:ident $iter:ident $hashmap:ident ifdef($param:ident) ) => {
@@ -237,7 +237,7 @@ macro_rules! __scope_command {
             let e: Option<()> = None;
             e.expect("unexpected #ifdef in #foreach scope.");
         }
-        $flag.0 = $hashmap.contains_key(__stringify!($param));
+        $flag.0 = $crate::__is_defined(&$hashmap, __stringify!($param));
         $flag.1 = Some($flag.0);
     };
     ( $token:ident $span:ident $flag:ident $iter:ident $hashmap:ident ifndef($param:ident) ) => {
@@ -245,7 +245,7 @@ macro_rules! __scope_command {
             let e: Option<()> = None;
             e.expect("unexpected #ifndef in #foreach scope.");
         }
-        $flag.0 = !$hashmap.contains_key(__stringify!($param));
+        $flag.0 = !$crate::__is_defined(&$hashmap, __stringify!($param));
         $flag.1 = Some($flag.0);
     };
     ( $token:ident $span:ident $flag:ident $iter:ident $hashmap:ident if($expr:expr) ) => {
@@ -1118,6 +1118,17 @@ pub fn __parse(s: &str, span: Span) -> TokenStream {
     }
 }
 
+// a macro `m(..)` is stored as "m+" (its body) and "m-" (its parameters)
+pub fn __is_defined(map: &HashMap<String, TokenStream>, name: &str) -> bool {
+    map.contains_key(name) || map.contains_key(&format!("{}+", name))
+}
+
+pub fn __undefine(map: &mut HashMap<String, TokenStream>, name: &str) {
+    map.remove(name);
+    map.remove(&format!("{}+", name));
+    map.remove(&format!("{}-", name));
+}
+
 pub fn __translate(input: TokenStream, span: Span, map: &HashMap<String, TokenStream>) -> TokenStream {
     let mut tokens: Vec<TokenTree> = Vec::new();
     let mut iter = input.into_iter().peekable();
-- 
2.43.0


From efe40bc80f505822c2682dc1a6f5fbbcf1c82c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:23 +0000
Subject: [PATCH 46/63] fix: => in a macro argument of a @scope does not close
 a generic

The '>' of '=>' was counted as the end of a generic list, so the commas after
it no longer separated the arguments.
---
 json_derive/quote/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_derive/quote/src/lib.rs b/json_derive/quote/src/lib.rs
index f9cecc1..b8ce4a3 100644
--- a/json_derive/quote/src/lib.rs
+++ b/json_derive/quote/src/lib.rs
@@ -1229,7 +1229,7 @@ fn split_tokens_by(input: TokenStream, sep: &str) -> Vec<TokenStream> {
             match iter.next() {
                 Some(next) => {
                     match &next {
-                        TokenTree::Punct(punct) if punct.as_char() == '-' => {
+                        TokenTree::Punct(punct) if punct.as_char() == '-' || punct.as_char() == '=' => {
                             match iter.peek() {
                                 Some(TokenTree::Punct(peek)) if peek.as_char() == '>' => {
                                     inner.push(next);
-- 
2.43.0


From 73896fc46fa1566e72c67cfac0808da22a26340b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:23 +0000
Subject: [PATCH 47/63] fix: an argument of a @scope macro is not joint to what
 follows

A punctuation mark before the separating comma kept its joint spacing, so
that m(=, x) with the body '#a #a' made '=='.
---
 json_derive/quote/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/json_derive/quote/src/lib.rs b/json_derive/quote/src/lib.rs
index b8ce4a3..5fb8a95 100644
--- a/json_derive/quote/src/lib.rs
+++ b/json_derive/quote/src/lib.rs
@@ -1276,6 +1276,13 @@ fn split_tokens_by(input: TokenStream, sep: &str) -> Vec<TokenStream> {
             }
         }
 
+        // the last token was joint to the separator, which is gone
+        if let Some(TokenTree::Punct(last)) = inner.last_mut() {
+            let mut punct = Punct::new(last.as_char(), Spacing::Alone);
+            punct.set_span(last.span());
+            *last = punct;
+        }
+
         tokens.push(inner.into_iter().collect::<TokenStream>());
 
         if iter.peek().is_none() {
-- 
2.43.0


From d59ae7b12347d5a7c605a15e0a776db8a286b022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:27 +0000
Subject: [PATCH 48/63] fix: object! and array! did not compile where String,
 Vec or std name something else

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 782e29b..b5dca5f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1014,7 +1014,7 @@ impl<T: FromJson> FromJson for Option<T> {
 #[macro_export]
 macro_rules! object {
     ( $( $k:expr => $v:expr ),* $(,)?) => {{
-        let _obj: std::collections::HashMap<String, ($crate::Json, std::collections::LinkedList<$crate::Json>)> = std::collections::HashMap::new();
+        let _obj: ::std::collections::HashMap<::std::string::String, ($crate::Json, ::std::collections::LinkedList<$crate::Json>)> = ::std::collections::HashMap::new();
         let mut _json = $crate::Json::Object(_obj);
         $(let _ = _json.append($k, $v);)*
         _json
@@ -1024,7 +1024,7 @@ macro_rules! object {
 #[macro_export]
 macro_rules! array {
     ( $( $e:expr ),* $(,)?) => {{
-        let mut _vec: Vec<$crate::Json> = Vec::new();
+        let mut _vec: ::std::vec::Vec<$crate::Json> = ::std::vec::Vec::new();
         $(_vec.push($crate::ToJson::to_json(&$e));)*
         $crate::Json::Array(_vec)
     }};
-- 
2.43.0


From a62362ad4e08c60a46086f47cf1e1fa23bd1c5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:32 +0000
Subject: [PATCH 49/63] fix: a bracket group before an attribute panicked when
 parsing the attributes

The capacity of the vector was compared with its length, and a group that is
no attribute ([a] #[b]) leaves the two apart.
---
 json_derive/parse/src/meta.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/json_derive/parse/src/meta.rs b/json_derive/parse/src/meta.rs
index 60dea26..13650f6 100644
--- a/json_derive/parse/src/meta.rs
+++ b/json_derive/parse/src/meta.rs
@@ -157,9 +157,6 @@ impl Parse for Meta {
             }
         }
 
-        // ...
-        debug_assert_eq!(items.len(), items.capacity());
-
         // build meta
         Ok(Meta { items })
     }
-- 
2.43.0


From 0520b51817a7ec10343566fe6de759f057e90dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:01 +0000
Subject: [PATCH 50/63] fix: a bound on a trait of one's own named Sized was
 left out of the impl

---
 json_derive/parse/src/generic.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/json_derive/parse/src/generic.rs b/json_derive/parse/src/generic.rs
index d8200a1..3a114ab 100644
--- a/json_derive/parse/src/generic.rs
+++ b/json_derive/parse/src/generic.rs
@@ -211,7 +211,7 @@ impl GenericItem {
                 .map(|x| x.to_string()))
             .collect::<Vec<String>>();
 
-        if !self.sized {
+        if !self.sized && !buf.iter().any(|x| x.starts_with('?')) {
             buf.push("?Sized".to_string());
         }
 
@@ -389,12 +389,12 @@ impl Parse for GenericItem {
                     (Some(TokenTree::Punct(punct)), Some(TokenTree::Ident(ident)))
                     if punct.as_char() == '?' && &ident.to_string() == "Sized" => {
                         item.sized = false;
-                        continue;
-                    }
-                    (Some(TokenTree::Ident(ident1)), Some(TokenTree::Ident(ident2)))
-                    if &ident1.to_string() == "Sized" && &ident2.to_string() == "Sized" => {
-                        item.sized = true;
-                        continue;
+
+                        // ?core::marker::Sized is kept as it is written,
+                        // because Sized may be another trait here
+                        if bound_tokens.len() == 2 {
+                            continue;
+                        }
                     }
                     _ => ()
                 }
-- 
2.43.0


From f8568a15ca9603f2f8ce6e26319c2e7b2d1e4eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:19 +0000
Subject: [PATCH 51/63] fix: bounds of an associated type (Iterator<Item:
 Clone>) made the derives panic

---
 json_derive/parse/src/name.rs | 44 ++++++++++++++++++++++++++++++++++-
 1 file changed, 43 insertions(+), 1 deletion(-)

diff --git a/json_derive/parse/src/name.rs b/json_derive/parse/src/name.rs
index b72d5ec..b6f69ae 100644
--- a/json_derive/parse/src/name.rs
+++ b/json_derive/parse/src/name.rs
@@ -1,6 +1,6 @@
 // ...
 
-use proc_macro::{TokenStream, TokenTree, Delimiter};
+use proc_macro::{TokenStream, TokenTree, Delimiter, Spacing};
 use std::iter::FromIterator;
 use std::ops::{Sub, Add};
 use crate::{Error, Result, Parse};
@@ -345,6 +345,32 @@ impl ToString for Type {
     }
 }
 
+// whether there is a ':' which belongs to no "::" outside of any "<...>"
+fn has_bounds(input: TokenStream) -> bool {
+    let mut iter = input.into_iter().peekable();
+    let mut prev = ' ';
+    let mut n = 0;
+    while let Some(token) = iter.next() {
+        let punct = match token {
+            TokenTree::Punct(punct) => punct,
+            _ => {
+                prev = ' ';
+                continue;
+            }
+        };
+        match punct.as_char() {
+            ':' if punct.spacing() == Spacing::Joint
+                && iter.peek().map_or(false, utils::punct_eq(':')) => { iter.next(); }
+            ':' if n == 0 => return true,
+            '<' => n += 1,
+            '>' if prev != '-' => n -= 1,
+            _ => ()
+        }
+        prev = punct.as_char();
+    }
+    false
+}
+
 impl Parse for Type {
     fn parse(input: TokenStream) -> Result<Self> {
         // handle empty input
@@ -352,6 +378,22 @@ impl Parse for Type {
             return Err(Error::new("got empty input when parsing type."));
         }
 
+        // the bounds of an associated type are kept as they are, look
+        // like: Iterator<Item: Clone>
+        //                ^^^^^^^^^^^
+        if has_bounds(input.clone()) {
+            let name = Name { prefixes: Vec::new(), ident: input.to_string(), generics: Vec::new() };
+            return Ok(Type {
+                ident: None,
+                names: vec![name],
+                is_ref: false,
+                lifetime: None,
+                is_mut: false,
+                is_dyn: false,
+                is_imp: false,
+            });
+        }
+
         // split by '='
         let mut tokens = utils::split_tokens_by(input.clone(), "=");
 
-- 
2.43.0


From 1695550772c64cae1c5fd564c31963a5c7bc0991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:30 +0000
Subject: [PATCH 52/63] fix: a const argument in braces ended a where clause or
 a return type

---
 json_derive/parse/src/generic.rs | 35 ++++++++++++++------------------
 json_derive/parse/src/lib.rs     | 16 +++++++--------
 json_derive/parse/src/utils.rs   | 27 ++++++++++++++++++++++++
 3 files changed, 49 insertions(+), 29 deletions(-)

diff --git a/json_derive/parse/src/generic.rs b/json_derive/parse/src/generic.rs
index 3a114ab..7cd7959 100644
--- a/json_derive/parse/src/generic.rs
+++ b/json_derive/parse/src/generic.rs
@@ -464,11 +464,8 @@ impl Parse for WhereClause {
             return Err(Error::new("got empty input when parsing where clauses."));
         }
 
-        // n represents tokens num
-        let mut n = 0;
-
         // build stream from input
-        let stream = input
+        let tokens = input
             .clone()
             .into_iter()
             // here we skip tokens before "where"
@@ -479,24 +476,22 @@ impl Parse for WhereClause {
                 }
             })
             // skip the "where" token
-            .skip(1)
-            // then we retain tokens before "{}" or ";"
-            .take_while(|x| {
-                match x {
-                    TokenTree::Punct(punct) => punct.as_char() != ';',
-                    TokenTree::Group(group) => group.delimiter() != Delimiter::Brace,
-                    _ => true
-                }
-            })
-            // count num of tokens
-            .map(|x| {
-                n += 1;
-                x
-            })
-            .collect();
+            .skip(1);
+
+        // then we retain tokens before "{}" or ";"
+        let stream = utils::take_before(tokens, |x| {
+            match x {
+                TokenTree::Punct(punct) => punct.as_char() == ';',
+                TokenTree::Group(group) => group.delimiter() == Delimiter::Brace,
+                _ => false
+            }
+        });
+
+        // n represents tokens num
+        let n = stream.len();
 
         // inner items
-        let items: Vec<GenericItem> = utils::split_tokens_by(stream, ",")
+        let items: Vec<GenericItem> = utils::split_tokens_by(TokenStream::from_iter(stream), ",")
             .into_iter()
             // remove empty token
             .filter(|x| !x.is_empty())
diff --git a/json_derive/parse/src/lib.rs b/json_derive/parse/src/lib.rs
index 3c7c4c1..258f405 100644
--- a/json_derive/parse/src/lib.rs
+++ b/json_derive/parse/src/lib.rs
@@ -732,15 +732,13 @@ impl Parse for FnItem {
                 match peek.peek() {
                     Some(TokenTree::Punct(punct)) if punct.as_char() == '>' => {
                         peek.next();
-                        let tokens = peek.clone()
-                            .take_while(|x| {
-                                match x {
-                                    TokenTree::Group(group) => group.delimiter() != Delimiter::Brace,
-                                    TokenTree::Ident(ident) => &ident.to_string() != "where",
-                                    _ => true
-                                }
-                            })
-                            .collect::<Vec<_>>();
+                        let tokens = utils::take_before(peek.clone(), |x| {
+                            match x {
+                                TokenTree::Group(group) => group.delimiter() == Delimiter::Brace,
+                                TokenTree::Ident(ident) => &ident.to_string() == "where",
+                                _ => false
+                            }
+                        });
                         let n = tokens.len();
                         let return_ty = Type::parse(tokens.into_iter().collect())?;
                         // skip return type tokens, if there were none it is not parsed
diff --git a/json_derive/parse/src/utils.rs b/json_derive/parse/src/utils.rs
index b6a7bb9..77f5683 100644
--- a/json_derive/parse/src/utils.rs
+++ b/json_derive/parse/src/utils.rs
@@ -13,6 +13,33 @@ pub fn punct_eq(c: char) -> impl FnMut(&TokenTree) -> bool {
     }
 }
 
+// take the tokens before the first one, outside of any "<...>", that is an end,
+// because a const argument in braces ("Array<{ 1 + 2 }>") ends neither a where
+// clause nor a type.
+pub fn take_before(input: impl Iterator<Item=TokenTree>, end: impl Fn(&TokenTree) -> bool) -> Vec<TokenTree> {
+    let mut prev = ' ';
+    let mut n = 0;
+    input
+        .take_while(|x| {
+            if n <= 0 && end(x) {
+                return false;
+            }
+            let c = match x {
+                TokenTree::Punct(punct) => punct.as_char(),
+                _ => ' '
+            };
+            match c {
+                '<' => n += 1,
+                // HINT: '>' after '-' is a "->"
+                '>' if prev != '-' => n -= 1,
+                _ => ()
+            }
+            prev = c;
+            true
+        })
+        .collect()
+}
+
 // split the given TokenStream to a Vec<TokenStream> by char, usually
 // use to split generic parameters because rust does not treated angle
 // bracket as a valid group delimiter. It is preferred to use split_tokens_by
-- 
2.43.0


From cec6ccd2a553fd1138f161f2ce4311ea7d40626b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:33 +0000
Subject: [PATCH 53/63] fix: types like Vec::<T> and macro calls as types made
 the derives panic

---
 json_derive/parse/src/name.rs  | 12 +++++++++---
 json_derive/parse/src/utils.rs | 36 +++++++++++++++++-----------------
 2 files changed, 27 insertions(+), 21 deletions(-)

diff --git a/json_derive/parse/src/name.rs b/json_derive/parse/src/name.rs
index b6f69ae..5e91bd6 100644
--- a/json_derive/parse/src/name.rs
+++ b/json_derive/parse/src/name.rs
@@ -133,13 +133,19 @@ impl Parse for Name {
             }
         }
 
-        // pointers, references to references, for<'a> ..., unsafe/extern fn
-        // and negative const arguments have no name of their own, they are
-        // kept as they are
+        // pointers, references to references, for<'a> ..., unsafe/extern fn,
+        // negative const arguments, macro calls and what follows the "::" of
+        // Vec::<T> or Fn::(T) -> U have no name of their own, they are kept
+        // as they are
         let nameless = match stream.get(0) {
+            Some(TokenTree::Punct(punct)) if punct.as_char() == '<' => !prefixes.is_empty(),
             Some(TokenTree::Punct(punct)) => ['*', '&', '!', '-'].contains(&punct.as_char()),
             Some(TokenTree::Ident(ident)) => {
                 ["for", "unsafe", "extern"].contains(&ident.to_string().as_str())
+                    || stream.len() == 3 && stream.get(1).map_or(false, utils::punct_eq('!'))
+            }
+            Some(TokenTree::Group(group)) => {
+                group.delimiter() == Delimiter::Parenthesis && !prefixes.is_empty()
             }
             _ => false
         };
diff --git a/json_derive/parse/src/utils.rs b/json_derive/parse/src/utils.rs
index 77f5683..823cfd0 100644
--- a/json_derive/parse/src/utils.rs
+++ b/json_derive/parse/src/utils.rs
@@ -14,30 +14,30 @@ pub fn punct_eq(c: char) -> impl FnMut(&TokenTree) -> bool {
 }
 
 // take the tokens before the first one, outside of any "<...>", that is an end,
-// because a const argument in braces ("Array<{ 1 + 2 }>") ends neither a where
-// clause nor a type.
+// because braces of a const argument ("Array<{ 1 + 2 }>") or of a macro call
+// ("ty! { i32 }") end neither a where clause nor a type.
 pub fn take_before(input: impl Iterator<Item=TokenTree>, end: impl Fn(&TokenTree) -> bool) -> Vec<TokenTree> {
-    let mut prev = ' ';
+    let mut tokens: Vec<TokenTree> = Vec::new();
     let mut n = 0;
-    input
-        .take_while(|x| {
-            if n <= 0 && end(x) {
-                return false;
-            }
-            let c = match x {
-                TokenTree::Punct(punct) => punct.as_char(),
-                _ => ' '
-            };
-            match c {
+    for x in input {
+        let call = match tokens.as_slice() {
+            [.., TokenTree::Ident(_), TokenTree::Punct(punct)] => punct.as_char() == '!',
+            _ => false
+        };
+        if n <= 0 && !call && end(&x) {
+            break;
+        }
+        if let TokenTree::Punct(punct) = &x {
+            match punct.as_char() {
                 '<' => n += 1,
                 // HINT: '>' after '-' is a "->"
-                '>' if prev != '-' => n -= 1,
+                '>' if !tokens.last().map_or(false, punct_eq('-')) => n -= 1,
                 _ => ()
             }
-            prev = c;
-            true
-        })
-        .collect()
+        }
+        tokens.push(x);
+    }
+    tokens
 }
 
 // split the given TokenStream to a Vec<TokenStream> by char, usually
-- 
2.43.0


From 71b5a7f06583a6e4c6aefbc6df1e12e148706d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:59 +0000
Subject: [PATCH 54/63] fix: attributes of type parameters made the derives
 panic

---
 json_derive/parse/src/generic.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/json_derive/parse/src/generic.rs b/json_derive/parse/src/generic.rs
index 7cd7959..99745c1 100644
--- a/json_derive/parse/src/generic.rs
+++ b/json_derive/parse/src/generic.rs
@@ -244,8 +244,14 @@ impl Parse for GenericItem {
             return Err(Error::new("got empty input when parsing generic items."));
         }
 
+        // leave out the attributes: #[...] T
+        let mut bare = input.clone().into_iter().peekable();
+        while bare.peek().map_or(false, utils::punct_eq('#')) {
+            bare.nth(1);
+        }
+
         // first handle default value, split by '='
-        let tokens = utils::split_tokens_by(input.clone(), "=");
+        let tokens = utils::split_tokens_by(bare.collect(), "=");
 
         // malformed generic
         if tokens.len() != 1 && tokens.len() != 2 {
-- 
2.43.0


From f34a678639836d0c5898a63232cfe2490d59cb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:33 +0000
Subject: [PATCH 55/63] fix: derived code did not compile where Ok, format, std
 or v name something else

---
 json_derive/src/lib.rs | 37 ++++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/json_derive/src/lib.rs b/json_derive/src/lib.rs
index 933d50d..0fe5564 100644
--- a/json_derive/src/lib.rs
+++ b/json_derive/src/lib.rs
@@ -34,7 +34,7 @@ pub fn json_encode(input: TokenStream) -> TokenStream {
                             } else {
                                 field_key(&x.ident)
                             };
-                            (format!("{:?}.to_string()", k), x.ident.clone())
+                            (format!("{:?}", k), x.ident.clone())
                         })
                         .collect();
                     quote! {
@@ -42,15 +42,14 @@ pub fn json_encode(input: TokenStream) -> TokenStream {
                         #(#(&s.where_clause))?
                         {
                             fn to_json(&self) -> json::Json {
-                                let map = std::collections::HashMap::with_capacity(#(v.len()));
-                                let mut js = json::Json::Object(map);
+                                let mut __js = json::Json::Object(::std::collections::HashMap::with_capacity(#(v.len())));
                                 #(#v:x
-                                    match js.add_option(#(x.0), json::ToJson::to_json(&self.#(x.1)), true) {
-                                        Ok(_) => (),
-                                        Err(_) => unreachable!()
+                                    match json::Json::add_option(&mut __js, ::std::string::String::from(#(x.0)), json::ToJson::to_json(&self.#(x.1)), true) {
+                                        ::std::result::Result::Ok(_) => (),
+                                        ::std::result::Result::Err(_) => ::std::unreachable!()
                                     };
                                 )*
-                                js
+                                __js
                             }
                         }
                     }
@@ -93,30 +92,30 @@ pub fn json_decode(input: TokenStream) -> TokenStream {
                         impl#(#(&s.generics):x #(x.no_defaults()))? json::FromJson for #(s.ident)#(#(&s.generics):x #(x.only_idents()))?
                         #(#(&s.where_clause))?
                         {
-                            fn from_json(json: &json::Json) -> std::result::Result<Self, json::Error> {
-                                match json {
-                                    json::Json::Object(obj) => {
-                                        Ok(
+                            fn from_json(__js: &json::Json) -> ::std::result::Result<Self, json::Error> {
+                                match __js {
+                                    json::Json::Object(__obj) => {
+                                        ::std::result::Result::Ok(
                                             #(s.ident) {
                                                 #(#v:x
                                                     #(x.1): {
-                                                        if let Some((v, _)) = obj.get(#(x.0)) {
-                                                            <#(x.2) as json::FromJson>::from_json(v)?
+                                                        if let ::std::option::Option::Some((__v, _)) = __obj.get(#(x.0)) {
+                                                            <#(x.2) as json::FromJson>::from_json(__v)?
                                                         } else {
-                                                            return Err(json::Error::new(json::ErrorKind::MissingKey,
-                                                                                        format!("missing key \"{}\".", #(x.0))));
+                                                            return ::std::result::Result::Err(json::Error::new(json::ErrorKind::MissingKey,
+                                                                                        ::std::format!("missing key \"{}\".", #(x.0))));
                                                         }
                                                     },
                                                 )*
                                                 #(#ig:x
-                                                    #(x.ident): std::default::Default::default(),
+                                                    #(x.ident): ::std::default::Default::default(),
                                                 )*
                                             }
                                         )
                                     }
-                                    other => Err(json::Error::new(json::ErrorKind::ConvertError,
-                                                                  format!("cannot convert {} to {}.",
-                                                                          other._kind(), stringify!(#(s.ident))))),
+                                    __other => ::std::result::Result::Err(json::Error::new(json::ErrorKind::ConvertError,
+                                                                  ::std::format!("cannot convert {} to {}.",
+                                                                          __other._kind(), ::std::stringify!(#(s.ident))))),
                                 }
                             }
                         }
-- 
2.43.0


From 87d882bef733678aa5727652efe62b74aa47fcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:50 +0000
Subject: [PATCH 56/63] fix: raw lifetimes made the derives give unparsable
 code

---
 json_derive/src/lib.rs | 40 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/json_derive/src/lib.rs b/json_derive/src/lib.rs
index 0fe5564..bdbc285 100644
--- a/json_derive/src/lib.rs
+++ b/json_derive/src/lib.rs
@@ -1,6 +1,6 @@
 extern crate proc_macro;
 
-use proc_macro::TokenStream;
+use proc_macro::{TokenStream, TokenTree, Group, Ident};
 use json_quote::quote;
 use json_parse::Item;
 use json_parse::field::Fields;
@@ -10,6 +10,36 @@ fn field_key(ident: &str) -> String {
     ident.trim_start_matches("r#").to_string()
 }
 
+// the lifetime 'r#a is 'r, '#' and a when it is parsed from a string
+fn raw_lifetimes(input: TokenStream) -> TokenStream {
+    let mut tokens: Vec<TokenTree> = Vec::new();
+    for token in input {
+        let token = match token {
+            TokenTree::Group(group) => {
+                let mut new = Group::new(group.delimiter(), raw_lifetimes(group.stream()));
+                new.set_span(group.span());
+                new.into()
+            }
+            token => token
+        };
+        let ident = match (tokens.as_slice(), &token) {
+            ([.., TokenTree::Punct(quote), TokenTree::Ident(r), TokenTree::Punct(hash)], TokenTree::Ident(ident))
+            if quote.as_char() == '\'' && r.to_string() == "r" && hash.as_char() == '#' => {
+                Some(Ident::new_raw(&ident.to_string(), ident.span()))
+            }
+            _ => None
+        };
+        match ident {
+            Some(ident) => {
+                tokens.truncate(tokens.len() - 2);
+                tokens.push(ident.into());
+            }
+            None => tokens.push(token)
+        }
+    }
+    tokens.into_iter().collect()
+}
+
 #[proc_macro_derive(JsonEncode, attributes(key))]
 pub fn json_encode(input: TokenStream) -> TokenStream {
     let item: Item = json_parse::parse(input).expect("error parsing item");
@@ -37,7 +67,7 @@ pub fn json_encode(input: TokenStream) -> TokenStream {
                             (format!("{:?}", k), x.ident.clone())
                         })
                         .collect();
-                    quote! {
+                    raw_lifetimes(quote! {
                         impl#(#(&s.generics):x #(x.no_defaults()))? json::ToJson for #(s.ident)#(#(&s.generics):x #(x.only_idents()))?
                         #(#(&s.where_clause))?
                         {
@@ -52,7 +82,7 @@ pub fn json_encode(input: TokenStream) -> TokenStream {
                                 __js
                             }
                         }
-                    }
+                    })
                 }
                 _ => panic!("JsonEncode derive only supports struct-fields.")
             }
@@ -88,7 +118,7 @@ pub fn json_decode(input: TokenStream) -> TokenStream {
                             (format!("{:?}", k), x.ident.clone(), x.ty.used_ty())
                         })
                         .collect();
-                    quote! {
+                    raw_lifetimes(quote! {
                         impl#(#(&s.generics):x #(x.no_defaults()))? json::FromJson for #(s.ident)#(#(&s.generics):x #(x.only_idents()))?
                         #(#(&s.where_clause))?
                         {
@@ -119,7 +149,7 @@ pub fn json_decode(input: TokenStream) -> TokenStream {
                                 }
                             }
                         }
-                    }
+                    })
                 }
                 _ => panic!("JsonDecode derive only supports struct-fields.")
             }
-- 
2.43.0


From 88c6b577aa5355b8f5ae65ae0252d8cc46590b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:09 +0000
Subject: [PATCH 57/63] fix: bounds like AsyncFn(T) or an alias of Fn made the
 derives panic, Vec::<T> is parsed as Vec<T>

---
 json_derive/parse/src/name.rs | 44 +++++++++++++++++------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/json_derive/parse/src/name.rs b/json_derive/parse/src/name.rs
index 5e91bd6..5880e18 100644
--- a/json_derive/parse/src/name.rs
+++ b/json_derive/parse/src/name.rs
@@ -98,30 +98,35 @@ impl Parse for Name {
         }
 
         // split tokens
-        let splits = utils::split_tokens_by(input.clone(), "::");
-        if splits.is_empty() {
-            return Err(Error::new(format!("malformed name: {}.", input)));
+        let mut splits = utils::split_tokens_by(input.clone(), "::");
+
+        let mut stream = match splits.pop() {
+            Some(last) => last.into_iter().collect::<Vec<_>>(),
+            None => return Err(Error::new(format!("malformed name: {}.", input)))
+        };
+
+        // Vec::<T> is Vec<T> and Fn::(T) is Fn(T)
+        let arguments = match stream.get(0) {
+            Some(TokenTree::Punct(punct)) => punct.as_char() == '<',
+            Some(TokenTree::Group(group)) => group.delimiter() == Delimiter::Parenthesis,
+            _ => false
+        };
+        if arguments {
+            if let Some(head) = splits.pop() {
+                stream = head.into_iter().chain(stream).collect();
+            }
         }
 
         // handle prefixes
         let prefixes = splits.iter()
-            .take(splits.len() - 1)
             .map(|x| x.to_string())
             .collect::<Vec<_>>();
 
-        let stream = splits
-            .into_iter()
-            .last()
-            .unwrap()
-            .into_iter()
-            .collect::<Vec<_>>();
-
-        // HINT: specially case for Fn/FnMut/FnOnce
+        // HINT: specially case for Fn/FnMut/FnOnce, which may have another name
         if stream.len() >= 2 {
             match (&stream[0], &stream[1]) {
-                (TokenTree::Ident(f), TokenTree::Group(g)) => {
-                    if ["Fn", "FnMut", "FnOnce", "fn"].contains(&f.to_string().as_str())
-                        && g.delimiter() == Delimiter::Parenthesis {
+                (TokenTree::Ident(_), TokenTree::Group(g)) => {
+                    if g.delimiter() == Delimiter::Parenthesis {
                         return Ok(Name {
                             prefixes,
                             ident: TokenStream::from_iter(stream).to_string(),
@@ -134,19 +139,14 @@ impl Parse for Name {
         }
 
         // pointers, references to references, for<'a> ..., unsafe/extern fn,
-        // negative const arguments, macro calls and what follows the "::" of
-        // Vec::<T> or Fn::(T) -> U have no name of their own, they are kept
-        // as they are
+        // negative const arguments and macro calls have no name of their own,
+        // they are kept as they are
         let nameless = match stream.get(0) {
-            Some(TokenTree::Punct(punct)) if punct.as_char() == '<' => !prefixes.is_empty(),
             Some(TokenTree::Punct(punct)) => ['*', '&', '!', '-'].contains(&punct.as_char()),
             Some(TokenTree::Ident(ident)) => {
                 ["for", "unsafe", "extern"].contains(&ident.to_string().as_str())
                     || stream.len() == 3 && stream.get(1).map_or(false, utils::punct_eq('!'))
             }
-            Some(TokenTree::Group(group)) => {
-                group.delimiter() == Delimiter::Parenthesis && !prefixes.is_empty()
-            }
             _ => false
         };
         if nameless {
-- 
2.43.0


From 7e12a9f4123637d99d361a1bc88f55a766529c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:33 +0000
Subject: [PATCH 58/63] fix: Fn::() -> Vec::<T> and the never type before a
 body were not parsed

---
 json_derive/parse/src/name.rs  | 21 +++++++++++++--------
 json_derive/parse/src/utils.rs |  6 +++++-
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/json_derive/parse/src/name.rs b/json_derive/parse/src/name.rs
index 5880e18..0b76d8b 100644
--- a/json_derive/parse/src/name.rs
+++ b/json_derive/parse/src/name.rs
@@ -106,14 +106,19 @@ impl Parse for Name {
         };
 
         // Vec::<T> is Vec<T> and Fn::(T) is Fn(T)
-        let arguments = match stream.get(0) {
-            Some(TokenTree::Punct(punct)) => punct.as_char() == '<',
-            Some(TokenTree::Group(group)) => group.delimiter() == Delimiter::Parenthesis,
-            _ => false
-        };
-        if arguments {
-            if let Some(head) = splits.pop() {
-                stream = head.into_iter().chain(stream).collect();
+        loop {
+            let arguments = match stream.get(0) {
+                Some(TokenTree::Punct(punct)) => punct.as_char() == '<',
+                Some(TokenTree::Group(group)) => group.delimiter() == Delimiter::Parenthesis,
+                _ => false
+            };
+            match splits.pop() {
+                Some(head) if arguments => stream = head.into_iter().chain(stream).collect(),
+                Some(head) => {
+                    splits.push(head);
+                    break;
+                }
+                None => break
             }
         }
 
diff --git a/json_derive/parse/src/utils.rs b/json_derive/parse/src/utils.rs
index 823cfd0..e131b94 100644
--- a/json_derive/parse/src/utils.rs
+++ b/json_derive/parse/src/utils.rs
@@ -20,8 +20,12 @@ pub fn take_before(input: impl Iterator<Item=TokenTree>, end: impl Fn(&TokenTree
     let mut tokens: Vec<TokenTree> = Vec::new();
     let mut n = 0;
     for x in input {
+        // HINT: "*mut !", "*const !" and "&'a !" end in the never type
         let call = match tokens.as_slice() {
-            [.., TokenTree::Ident(_), TokenTree::Punct(punct)] => punct.as_char() == '!',
+            [.., TokenTree::Punct(quote), TokenTree::Ident(_), TokenTree::Punct(_)] if quote.as_char() == '\'' => false,
+            [.., TokenTree::Ident(ident), TokenTree::Punct(punct)] => {
+                punct.as_char() == '!' && !["mut", "const"].contains(&ident.to_string().as_str())
+            }
             _ => false
         };
         if n <= 0 && !call && end(&x) {
-- 
2.43.0


From 95eef0ffc6325157c4807f8be34e2ad63b202111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:06 +0000
Subject: [PATCH 59/63] fix: a field of type &mut T did not compile with
 JsonDecode

---
 json_derive/parse/src/name.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/json_derive/parse/src/name.rs b/json_derive/parse/src/name.rs
index 0b76d8b..c304e43 100644
--- a/json_derive/parse/src/name.rs
+++ b/json_derive/parse/src/name.rs
@@ -304,6 +304,9 @@ impl Type {
         if self.is_ref {
             ty.push('&');
         }
+        if self.is_mut {
+            ty.push_str("mut ");
+        }
         if self.is_dyn {
             ty.push_str("dyn ");
         }
-- 
2.43.0


From 16bb772d5d89ff99e16d64d938cad3ea36ae160e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:04 +0000
Subject: [PATCH 60/63] fix: quote! did not compile where Some, Vec or std name
 something else

---
 json_derive/quote/src/lib.rs | 128 +++++++++++++++++------------------
 1 file changed, 64 insertions(+), 64 deletions(-)

diff --git a/json_derive/quote/src/lib.rs b/json_derive/quote/src/lib.rs
index 5fb8a95..cf33941 100644
--- a/json_derive/quote/src/lib.rs
+++ b/json_derive/quote/src/lib.rs
@@ -142,14 +142,14 @@ macro_rules! __scope_command {
     ( $token:ident $span:ident $flag:ident $iter:ident $hashmap:ident {$($tt:tt)*} ) => {
         if $flag.0 {
             let input = $crate::__parse(__stringify!($($tt)*), $span);
-            if let Some(ref vec) = $iter.0 {
+            if let ::std::option::Option::Some(ref vec) = $iter.0 {
                 let tmp_v = $hashmap.remove($iter.1);
                 let k = $iter.1.to_string();
                 for e in vec {
                     $hashmap.insert(k.clone(), e.clone());
                     $token.extend($crate::__translate(input.clone(), $span, &$hashmap));
                 }
-                if let Some(v) = tmp_v {
+                if let ::std::option::Option::Some(v) = tmp_v {
                     $hashmap.insert(k.clone(), v);
                 } else {
                     $hashmap.remove($iter.1);
@@ -161,7 +161,7 @@ macro_rules! __scope_command {
     };
     ( $token:ident $span:ident $flag:ident $iter:ident $hashmap:ident define($param:ident($($arg:ident),*), $($quote:tt)+) ) => {
         if $iter.0.is_some() {
-            let e: Option<()> = None;
+            let e: ::std::option::Option<()> = ::std::option::Option::None;
             e.expect("unexpected #define in #foreach scope.");
         }
         if $flag.0 {
@@ -179,7 +179,7 @@ macro_rules! __scope_command {
     };
     ( $token:ident $span:ident $flag:ident $iter:ident $hashmap:ident define($param:ident, $($quote:tt)+) ) => {
         if $iter.0.is_some() {
-            let e: Option<()> = None;
+            let e: ::std::option::Option<()> = ::std::option::Option::None;
             e.expect("unexpected #define in #foreach scope.");
         }
         if $flag.0 {
@@ -189,7 +189,7 @@ macro_rules! __scope_command {
     };
     ( $token:ident $span:ident $flag:ident $iter:ident $hashmap:ident define($param:ident) ) => {
         if $iter.0.is_some() {
-            let e: Option<()> = None;
+            let e: ::std::option::Option<()> = ::std::option::Option::None;
             e.expect("unexpected #define in #foreach scope.");
         }
         if $flag.0 {
@@ -198,7 +198,7 @@ macro_rules! __scope_command {
     };
     ( $token:ident $span:ident $flag:ident $iter:ident $hashmap:ident include($expr:expr) ) => {
         if $iter.0.is_some() {
-            let e: Option<()> = None;
+            let e: ::std::option::Option<()> = ::std::option::Option::None;
             e.expect("unexpected #include in #foreach scope.");
         }
         if $flag.0 {
@@ -207,7 +207,7 @@ macro_rules! __scope_command {
     };
     ( $token:ident $span:ident $flag:ident $iter:ident $hashmap:ident quote($($tt:tt)*) ) => {
         if $iter.0.is_some() {
-            let e: Option<()> = None;
+            let e: ::std::option::Option<()> = ::std::option::Option::None;
             e.expect("unexpected #quote in #foreach scope.");
         }
         if $flag.0 {
@@ -216,7 +216,7 @@ macro_rules! __scope_command {
     };
     ( $token:ident $span:ident $flag:ident $iter:ident $hashmap:ident execute($stmt:stmt) ) => {
         if $iter.0.is_some() {
-            let e: Option<()> = None;
+            let e: ::std::option::Option<()> = ::std::option::Option::None;
             e.expect("unexpected #execute in #foreach scope.");
         }
         if $flag.0 {
@@ -225,7 +225,7 @@ macro_rules! __scope_command {
     };
     ( $token:ident $span:ident $flag:ident $iter:ident $hashmap:ident undef($param:ident) ) => {
         if $iter.0.is_some() {
-            let e: Option<()> = None;
+            let e: ::std::option::Option<()> = ::std::option::Option::None;
             e.expect("unexpected #undef in #foreach scope.");
         }
         if $flag.0 {
@@ -234,85 +234,85 @@ macro_rules! __scope_command {
     };
     ( $token:ident $span:ident $flag:ident $iter:ident $hashmap:ident ifdef($param:ident) ) => {
         if $iter.0.is_some() {
-            let e: Option<()> = None;
+            let e: ::std::option::Option<()> = ::std::option::Option::None;
             e.expect("unexpected #ifdef in #foreach scope.");
         }
         $flag.0 = $crate::__is_defined(&$hashmap, __stringify!($param));
-        $flag.1 = Some($flag.0);
+        $flag.1 = ::std::option::Option::Some($flag.0);
     };
     ( $token:ident $span:ident $flag:ident $iter:ident $hashmap:ident ifndef($param:ident) ) => {
         if $iter.0.is_some() {
-            let e: Option<()> = None;
+            let e: ::std::option::Option<()> = ::std::option::Option::None;
             e.expect("unexpected #ifndef in #foreach scope.");
         }
         $flag.0 = !$crate::__is_defined(&$hashmap, __stringify!($param));
-        $flag.1 = Some($flag.0);
+        $flag.1 = ::std::option::Option::Some($flag.0);
     };
     ( $token:ident $span:ident $flag:ident $iter:ident $hashmap:ident if($expr:expr) ) => {
         if $iter.0.is_some() {
-            let e: Option<()> = None;
+            let e: ::std::option::Option<()> = ::std::option::Option::None;
             e.expect("unexpected #if in #foreach scope.");
         }
         $flag.0 = $expr;
-        $flag.1 = Some($flag.0);
+        $flag.1 = ::std::option::Option::Some($flag.0);
     };
     ( $token:ident $span:ident $flag:ident $iter:ident $hashmap:ident elif($expr:expr) ) => {
         if $iter.0.is_some() {
-            let e: Option<()> = None;
+            let e: ::std::option::Option<()> = ::std::option::Option::None;
             e.expect("unexpected #elif in #foreach scope.");
         }
         let _taken = $flag.1.expect("expect #if before #elif.");
         $flag.0 = !_taken && $expr;
-        $flag.1 = Some(_taken || $flag.0);
+        $flag.1 = ::std::option::Option::Some(_taken || $flag.0);
     };
     ( $token:ident $span:ident $flag:ident $iter:ident $hashmap:ident else ) => {
         if $iter.0.is_some() {
-            let e: Option<()> = None;
+            let e: ::std::option::Option<()> = ::std::option::Option::None;
             e.expect("unexpected #else in #foreach scope.");
         }
         $flag.0 = !$flag.1.expect("expect #if before #else.");
-        $flag.1 = Some(true);
+        $flag.1 = ::std::option::Option::Some(true);
     };
     ( $token:ident $span:ident $flag:ident $iter:ident $hashmap:ident endif ) => {
         if $iter.0.is_some() {
-            let e: Option<()> = None;
+            let e: ::std::option::Option<()> = ::std::option::Option::None;
             e.expect("unexpected #endif in #foreach scope.");
         }
         $flag.1.expect("expect #if before #endif.");
-        $flag.1 = None;
+        $flag.1 = ::std::option::Option::None;
         $flag.0 = true;
     };
     ( $token:ident $span:ident $flag:ident $iter:ident $hashmap:ident foreach($expr:expr, $x:ident) ) => {
         if $iter.0.is_some() {
-            let e: Option<()> = None;
+            let e: ::std::option::Option<()> = ::std::option::Option::None;
             e.expect("unexpected nested #foreach.");
         }
-        $iter.0 = Some(
+        $iter.0 = ::std::option::Option::Some(
             $expr.into_iter()
                 .map(|x| $crate::__parse(&x.to_string(), $span))
-                .collect::<Vec<$crate::__pm::TokenStream>>()
+                .collect::<::std::vec::Vec<$crate::__pm::TokenStream>>()
         );
         $iter.1 = __stringify!($x);
     };
     ( $token:ident $span:ident $flag:ident $iter:ident $hashmap:ident foreach($expr:expr) ) => {
         if $iter.0.is_some() {
-            let e: Option<()> = None;
+            let e: ::std::option::Option<()> = ::std::option::Option::None;
             e.expect("unexpected nested #foreach.");
         }
-        let mut _sized_vec = Vec::with_capacity($expr.into_iter().count());
+        let mut _sized_vec = ::std::vec::Vec::with_capacity($expr.into_iter().count());
         _sized_vec.resize(_sized_vec.capacity(), $crate::__pm::TokenStream::new());
-        $iter.0 = Some(_sized_vec);
+        $iter.0 = ::std::option::Option::Some(_sized_vec);
         $iter.1 = "_";
     };
     ( $token:ident $span:ident $flag:ident $iter:ident $hashmap:ident endfor ) => {
         $iter.0.expect("expect #foreach before #endfor.");
-        $iter.0 = None;
+        $iter.0 = ::std::option::Option::None;
         $iter.1 = "";
     };
     ( $token:ident $span:ident $flag:ident $iter:ident $hashmap:ident end ) => {
-        drop($hashmap);
-        drop($iter);
-        drop($flag);
+        ::std::mem::drop($hashmap);
+        ::std::mem::drop($iter);
+        ::std::mem::drop($flag);
     };
 }
 
@@ -333,7 +333,7 @@ macro_rules! __append_to_token {
     ( $token:ident $span:ident $($ident:ident)* # ( @ params($($param:ident$(=$expr:expr)?),+$(,)?) : $($tt:tt)+ ) $($rest:tt)* ) => {{
         $($token.extend($crate::__parse(__stringify!($ident), $span));)*
         {
-            let mut _hashmap = std::collections::HashMap::new();
+            let mut _hashmap = ::std::collections::HashMap::new();
             $(
             $(let $param = $expr;)?
             _hashmap.insert(__stringify!($param).to_string(), $crate::__parse(&$param.to_string(), $span));
@@ -368,11 +368,11 @@ macro_rules! __append_to_token {
     {{
         $($token.extend($crate::__parse(__stringify!($ident), $span));)*
         // (emitting, Some(whether a branch of the open #if was taken))
-        struct _Flag(bool, Option<bool>);
-        struct _Iter(Option<Vec<$crate::__pm::TokenStream>>, &'static str);
-        let mut _flag = _Flag(true, None);
-        let mut _iter = _Iter(None, "");
-        let mut _hashmap = std::collections::HashMap::new();
+        struct _Flag(bool, ::std::option::Option<bool>);
+        struct _Iter(::std::option::Option<::std::vec::Vec<$crate::__pm::TokenStream>>, &'static str);
+        let mut _flag = _Flag(true, ::std::option::Option::None);
+        let mut _iter = _Iter(::std::option::Option::None, "");
+        let mut _hashmap = ::std::collections::HashMap::new();
         $(__scope_command!($token $span _flag _iter _hashmap $prefix_options$(($($prefix_params)*))?);)*
         $(
         __scope_command!($token $span _flag _iter _hashmap {$($tt)*});
@@ -419,16 +419,16 @@ macro_rules! __append_to_token {
     ( $token:ident $span:ident $($ident:ident)* # ( # $tag:ident ) ? $($rest:tt)* ) => {{
         $($token.extend($crate::__parse(__stringify!($ident), $span));)*
         match $tag {
-            Some(s) => $token.extend($crate::__parse(&s.to_string(), $span)),
-            None => ()
+            ::std::option::Option::Some(s) => $token.extend($crate::__parse(&s.to_string(), $span)),
+            ::std::option::Option::None => ()
         }
         __append_to_token!($token $span $($rest)*);
     }};
     ( $token:ident $span:ident $($ident:ident)* # ( # ($expr:expr) ) ? $($rest:tt)* ) => {{
         $($token.extend($crate::__parse(__stringify!($ident), $span));)*
         match $expr {
-            Some(s) => $token.extend($crate::__parse(&s.to_string(), $span)),
-            None => ()
+            ::std::option::Option::Some(s) => $token.extend($crate::__parse(&s.to_string(), $span)),
+            ::std::option::Option::None => ()
         }
         __append_to_token!($token $span $($rest)*);
     }};
@@ -436,32 +436,32 @@ macro_rules! __append_to_token {
     ( $token:ident $span:ident $($ident:ident)* # ( # $tag:ident:$x:ident $($tt:tt)+ ) ? $($rest:tt)* ) => {{
         $($token.extend($crate::__parse(__stringify!($ident), $span));)*
         match $tag {
-            Some($x) => __append_to_token!($token $span $($tt)+),
-            None => ()
+            ::std::option::Option::Some($x) => __append_to_token!($token $span $($tt)+),
+            ::std::option::Option::None => ()
         }
         __append_to_token!($token $span $($rest)*);
     }};
     ( $token:ident $span:ident $($ident:ident)* # ( # ($expr:expr):$x:ident $($tt:tt)+ ) ? $($rest:tt)* ) => {{
         $($token.extend($crate::__parse(__stringify!($ident), $span));)*
         match $expr {
-            Some($x) => __append_to_token!($token $span $($tt)+),
-            None => ()
+            ::std::option::Option::Some($x) => __append_to_token!($token $span $($tt)+),
+            ::std::option::Option::None => ()
         }
         __append_to_token!($token $span $($rest)*);
     }};
     ( $token:ident $span:ident $($ident:ident)* # ( # $tag:ident:_ $($tt:tt)+ ) ? $($rest:tt)* ) => {{
         $($token.extend($crate::__parse(__stringify!($ident), $span));)*
         match $tag {
-            Some(_) => __append_to_token!($token $span $($tt)+),
-            None => ()
+            ::std::option::Option::Some(_) => __append_to_token!($token $span $($tt)+),
+            ::std::option::Option::None => ()
         }
         __append_to_token!($token $span $($rest)*);
     }};
     ( $token:ident $span:ident $($ident:ident)* # ( # ($expr:expr):_ $($tt:tt)+ ) ? $($rest:tt)* ) => {{
         $($token.extend($crate::__parse(__stringify!($ident), $span));)*
         match $expr {
-            Some(_) => __append_to_token!($token $span $($tt)+),
-            None => ()
+            ::std::option::Option::Some(_) => __append_to_token!($token $span $($tt)+),
+            ::std::option::Option::None => ()
         }
         __append_to_token!($token $span $($rest)*);
     }};
@@ -632,7 +632,7 @@ macro_rules! __append_to_token {
                 $crate::__pm::Delimiter::Bracket,
                 quote!(@span($span): $($tt)*));
             _g.set_span($span);
-            Some($crate::__pm::TokenTree::from(_g))
+            ::std::option::Option::Some($crate::__pm::TokenTree::from(_g))
         });
         __append_to_token!($token $span $($rest)*);
     }};
@@ -644,7 +644,7 @@ macro_rules! __append_to_token {
                 $crate::__pm::Delimiter::Bracket,
                 quote!(@span($span): $($tt)*));
             _g.set_span($span);
-            Some($crate::__pm::TokenTree::from(_g))
+            ::std::option::Option::Some($crate::__pm::TokenTree::from(_g))
         });
         __append_to_token!($token $span $($rest)*);
     }};
@@ -657,7 +657,7 @@ macro_rules! __append_to_token {
                 $crate::__pm::Delimiter::Parenthesis,
                 quote!(@span($span): $($tt)*));
             _g.set_span($span);
-            Some($crate::__pm::TokenTree::from(_g))
+            ::std::option::Option::Some($crate::__pm::TokenTree::from(_g))
         });
         $token.extend($crate::__gen_punct(';', $span));
         __append_to_token!($token $span $($rest)*);
@@ -670,7 +670,7 @@ macro_rules! __append_to_token {
                 $crate::__pm::Delimiter::Brace,
                 quote!(@span($span): $($tt)*));
             _g.set_span($span);
-            Some($crate::__pm::TokenTree::from(_g))
+            ::std::option::Option::Some($crate::__pm::TokenTree::from(_g))
         });
         $token.extend($crate::__gen_punct(';', $span));
         __append_to_token!($token $span $($rest)*);
@@ -683,7 +683,7 @@ macro_rules! __append_to_token {
                 $crate::__pm::Delimiter::Bracket,
                 quote!(@span($span): $($tt)*));
             _g.set_span($span);
-            Some($crate::__pm::TokenTree::from(_g))
+            ::std::option::Option::Some($crate::__pm::TokenTree::from(_g))
         });
         $token.extend($crate::__gen_punct(';', $span));
         __append_to_token!($token $span $($rest)*);
@@ -697,7 +697,7 @@ macro_rules! __append_to_token {
                 $crate::__pm::Delimiter::Parenthesis,
                 quote!(@span($span): $($tt)*));
             _g.set_span($span);
-            Some($crate::__pm::TokenTree::from(_g))
+            ::std::option::Option::Some($crate::__pm::TokenTree::from(_g))
         });
         __append_to_token!($token $span $($rest)*);
     }};
@@ -709,7 +709,7 @@ macro_rules! __append_to_token {
                 $crate::__pm::Delimiter::Brace,
                 quote!(@span($span): $($tt)*));
             _g.set_span($span);
-            Some($crate::__pm::TokenTree::from(_g))
+            ::std::option::Option::Some($crate::__pm::TokenTree::from(_g))
         });
         __append_to_token!($token $span $($rest)*);
     }};
@@ -721,7 +721,7 @@ macro_rules! __append_to_token {
                 $crate::__pm::Delimiter::Bracket,
                 quote!(@span($span): $($tt)*));
             _g.set_span($span);
-            Some($crate::__pm::TokenTree::from(_g))
+            ::std::option::Option::Some($crate::__pm::TokenTree::from(_g))
         });
         __append_to_token!($token $span $($rest)*);
     }};
@@ -733,7 +733,7 @@ macro_rules! __append_to_token {
                 $crate::__pm::Delimiter::Parenthesis,
                 quote!(@span($span): $($tt)*));
             _g.set_span($span);
-            Some($crate::__pm::TokenTree::from(_g))
+            ::std::option::Option::Some($crate::__pm::TokenTree::from(_g))
         });
         $token.extend($crate::__gen_punct(';', $span));
         __append_to_token!($token $span $($rest)*);
@@ -745,7 +745,7 @@ macro_rules! __append_to_token {
                 $crate::__pm::Delimiter::Brace,
                 quote!(@span($span): $($tt)*));
             _g.set_span($span);
-            Some($crate::__pm::TokenTree::from(_g))
+            ::std::option::Option::Some($crate::__pm::TokenTree::from(_g))
         });
         $token.extend($crate::__gen_punct(';', $span));
         __append_to_token!($token $span $($rest)*);
@@ -757,7 +757,7 @@ macro_rules! __append_to_token {
                 $crate::__pm::Delimiter::Bracket,
                 quote!(@span($span): $($tt)*));
             _g.set_span($span);
-            Some($crate::__pm::TokenTree::from(_g))
+            ::std::option::Option::Some($crate::__pm::TokenTree::from(_g))
         });
         $token.extend($crate::__gen_punct(';', $span));
         __append_to_token!($token $span $($rest)*);
@@ -770,7 +770,7 @@ macro_rules! __append_to_token {
                 $crate::__pm::Delimiter::Parenthesis,
                 quote!(@span($span): $($tt)*));
             _g.set_span($span);
-            Some($crate::__pm::TokenTree::from(_g))
+            ::std::option::Option::Some($crate::__pm::TokenTree::from(_g))
         });
         __append_to_token!($token $span $($rest)*);
     }};
@@ -781,7 +781,7 @@ macro_rules! __append_to_token {
                 $crate::__pm::Delimiter::Brace,
                 quote!(@span($span): $($tt)*));
             _g.set_span($span);
-            Some($crate::__pm::TokenTree::from(_g))
+            ::std::option::Option::Some($crate::__pm::TokenTree::from(_g))
         });
         __append_to_token!($token $span $($rest)*);
     }};
@@ -792,7 +792,7 @@ macro_rules! __append_to_token {
                 $crate::__pm::Delimiter::Bracket,
                 quote!(@span($span): $($tt)*));
             _g.set_span($span);
-            Some($crate::__pm::TokenTree::from(_g))
+            ::std::option::Option::Some($crate::__pm::TokenTree::from(_g))
         });
         __append_to_token!($token $span $($rest)*);
     }};
@@ -1036,7 +1036,7 @@ macro_rules! __append_to_token {
 #[doc(hidden)]
 macro_rules! __stringify {
     ( $($tt:tt)* ) => {
-        stringify!($($tt)*)
+        ::std::stringify!($($tt)*)
     };
 }
 
-- 
2.43.0


From 90ada3ff2083e68484e4a18e315432ccdd8b2f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:36 +0000
Subject: [PATCH 61/63] fix: split_tokens_by never split at a separator
 starting with -

---
 json_derive/parse/src/utils.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/json_derive/parse/src/utils.rs b/json_derive/parse/src/utils.rs
index e131b94..8b0cc7a 100644
--- a/json_derive/parse/src/utils.rs
+++ b/json_derive/parse/src/utils.rs
@@ -86,15 +86,10 @@ pub fn split_tokens_by(input: TokenStream, sep: &str) -> Vec<TokenStream> {
                     // case #2: '>' -> n--
                     match &next {
                         // HINT: '>' after '-' is not case #2
-                        TokenTree::Punct(punct) if punct.as_char() == '-' => {
-                            match iter.peek() {
-                                Some(TokenTree::Punct(peek)) if peek.as_char() == '>' => {
-                                    inner.push(next);
-                                    inner.push(iter.next().unwrap());
-                                    continue;
-                                }
-                                _ => ()
-                            }
+                        TokenTree::Punct(punct) if punct.as_char() == '-' && iter.peek().map_or(false, punct_eq('>')) && (n != 0 || sep != "->") => {
+                            inner.push(next);
+                            inner.push(iter.next().unwrap());
+                            continue;
                         }
 
                         // case #1
-- 
2.43.0


From 0e210130ed00aedae577b043257675e0f427c0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:37 +0000
Subject: [PATCH 62/63] fix: split_tokens_by took the first part of a separator
 at the end for all of it

---
 json_derive/parse/src/utils.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/json_derive/parse/src/utils.rs b/json_derive/parse/src/utils.rs
index 8b0cc7a..dfb7f02 100644
--- a/json_derive/parse/src/utils.rs
+++ b/json_derive/parse/src/utils.rs
@@ -110,14 +110,9 @@ pub fn split_tokens_by(input: TokenStream, sep: &str) -> Vec<TokenStream> {
                             // check if current punct match the first sep char
                             if punct.as_char() == chars.next().unwrap() {
                                 // hit represents if left sep matched
+                                let mut rest = iter.clone();
                                 let hit = chars
-                                    .zip(iter.clone())
-                                    .all(|(c, x)| {
-                                        match x {
-                                            TokenTree::Punct(ref punct) if punct.as_char() == c => true,
-                                            _ => false
-                                        }
-                                    });
+                                    .all(|c| rest.next().map_or(false, |x| punct_eq(c)(&x)));
                                 if hit {
                                     // because the first punct is already consume, so
                                     // we should only skip length of sep - 1 steps. It
-- 
2.43.0


From 80ed0fc63ee60edaa4400e97dafb2af3aa2da186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:17 +0000
Subject: [PATCH 63/63] fix: JsonEncode did not compile for #[repr(packed)]
 structs

---
 json_derive/src/lib.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/json_derive/src/lib.rs b/json_derive/src/lib.rs
index bdbc285..67abb5c 100644
--- a/json_derive/src/lib.rs
+++ b/json_derive/src/lib.rs
@@ -4,6 +4,7 @@ use proc_macro::{TokenStream, TokenTree, Group, Ident};
 use json_quote::quote;
 use json_parse::Item;
 use json_parse::field::Fields;
+use json_parse::meta::Meta;
 
 // key of a field, r#type is the raw spelling of the name type
 fn field_key(ident: &str) -> String {
@@ -40,6 +41,25 @@ fn raw_lifetimes(input: TokenStream) -> TokenStream {
     tokens.into_iter().collect()
 }
 
+// fields of a #[repr(packed)] struct may be unaligned, they cannot be borrowed
+fn is_packed(meta: &Option<Meta>) -> bool {
+    let reprs = meta.iter()
+        .flat_map(|x| x.items.iter())
+        .filter_map(|x| x.group())
+        .filter(|(name, _)| *name == "repr");
+    for (_, repr) in reprs {
+        for item in &repr.items {
+            match (item.ident(), item.group()) {
+                (Some("packed"), _) => return true,
+                // everything is aligned enough at 8, but for 128 bit integers
+                (_, Some(("packed", n))) => return n.literals().iter().all(|x| x.integer().map_or(true, |n| n < 8)),
+                _ => ()
+            }
+        }
+    }
+    false
+}
+
 #[proc_macro_derive(JsonEncode, attributes(key))]
 pub fn json_encode(input: TokenStream) -> TokenStream {
     let item: Item = json_parse::parse(input).expect("error parsing item");
@@ -47,6 +67,7 @@ pub fn json_encode(input: TokenStream) -> TokenStream {
         Item::Struct(s) => {
             match s.fields {
                 Fields::StructFields(v) => {
+                    let packed = is_packed(&s.meta);
                     let v: Vec<(String, String)> = v.iter()
                         .filter(|x| {
                             if let Some(meta) = &x.meta {
@@ -64,7 +85,8 @@ pub fn json_encode(input: TokenStream) -> TokenStream {
                             } else {
                                 field_key(&x.ident)
                             };
-                            (format!("{:?}", k), x.ident.clone())
+                            let field = if packed { format!("{{self.{}}}", x.ident) } else { format!("self.{}", x.ident) };
+                            (format!("{:?}", k), field)
                         })
                         .collect();
                     raw_lifetimes(quote! {
@@ -74,7 +96,7 @@ pub fn json_encode(input: TokenStream) -> TokenStream {
                             fn to_json(&self) -> json::Json {
                                 let mut __js = json::Json::Object(::std::collections::HashMap::with_capacity(#(v.len())));
                                 #(#v:x
-                                    match json::Json::add_option(&mut __js, ::std::string::String::from(#(x.0)), json::ToJson::to_json(&self.#(x.1)), true) {
+                                    match json::Json::add_option(&mut __js, ::std::string::String::from(#(x.0)), json::ToJson::to_json(&#(x.1)), true) {
                                         ::std::result::Result::Ok(_) => (),
                                         ::std::result::Result::Err(_) => ::std::unreachable!()
                                     };
-- 
2.43.0

