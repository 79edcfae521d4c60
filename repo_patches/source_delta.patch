From 0b2cbea53a28c5992bac09a1df12e52b5b54888f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:23 +0000
Subject: [PATCH 01/10] fix: keep every error already chained when chaining
 another

`Error::chain()` overwrote the `prev` of the error it chained onto, so a
third failing provider made `Figment` forget the second one.
---
 src/error.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 75168e0..79a37ef 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -234,7 +234,11 @@ impl Error {
     /// assert_eq!(unchained, vec!["1", "2", "3"]);
     /// ```
     pub fn chain(self, mut error: Error) -> Self {
-        error.prev = Some(Box::new(self));
+        error.prev = Some(Box::new(match error.prev.take() {
+            Some(prev) => self.chain(*prev),
+            None => self,
+        }));
+
         error
     }
 
-- 
2.43.0


From 481d7c180d541e9df07d4447197c332a55923c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:23 +0000
Subject: [PATCH 02/10] fix: slice escaped strings at byte offsets

A character count was used as a byte index: a quoted environment value
with a non-ASCII character before its first escape panicked or lost data.
---
 src/value/escape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/value/escape.rs b/src/value/escape.rs
index 5a32f63..ae5ee4a 100644
--- a/src/value/escape.rs
+++ b/src/value/escape.rs
@@ -19,7 +19,7 @@ pub enum Error {
 }
 
 pub fn escape(string: &str) -> Result<Cow<'_, str>, Error> {
-    let mut chars = string.chars().enumerate();
+    let mut chars = string.char_indices();
     let mut output = Cow::from(string);
     while let Some((i, ch)) = chars.next() {
         match ch {
-- 
2.43.0


From 7a21ed86c3cd31f65a7b296cd54ff420445157bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:23 +0000
Subject: [PATCH 03/10] fix: keep the `lowercase` setting when adding a filter
 or map to `Env`

---
 src/providers/env.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/providers/env.rs b/src/providers/env.rs
index 64c8965..4005dd6 100644
--- a/src/providers/env.rs
+++ b/src/providers/env.rs
@@ -136,7 +136,7 @@ impl Env {
             filter_map: Box::new(move |key| f(filter_map(key))),
             profile: self.profile,
             prefix: self.prefix,
-            lowercase: true,
+            lowercase: self.lowercase,
         }
     }
 
-- 
2.43.0


From 403466d0f27fe23e62c3a058f63a6c04c81bb834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:23 +0000
Subject: [PATCH 04/10] fix: put the looked-up path before the path of a nested
 error

`extract_inner()` and `extract_inner_lossy()` appended the path of the
extracted value, reporting `c.a.b` for a failure in `a.b.c`.
---
 src/error.rs   | 7 +++++++
 src/figment.rs | 4 ++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 79a37ef..1d4c267 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -146,6 +146,13 @@ impl Error {
         self
     }
 
+    pub(crate) fn nested_in(mut self, path: &str) -> Self {
+        let nested = std::mem::take(&mut self.path);
+        self = self.with_path(path);
+        self.path.extend(nested);
+        self
+    }
+
     pub(crate) fn retagged(mut self, tag: Tag) -> Self {
         if self.tag.is_default() {
             self.tag = tag;
diff --git a/src/figment.rs b/src/figment.rs
index 76d0277..3b63fd3 100644
--- a/src/figment.rs
+++ b/src/figment.rs
@@ -569,7 +569,7 @@ impl Figment {
     pub fn extract_inner<'a, T: Deserialize<'a>>(&self, path: &str) -> Result<T> {
         let value = self.find_value(path)?;
         let de = ConfiguredValueDe::<'_, DefaultInterpreter>::from(self, &value);
-        T::deserialize(de).map_err(|e| e.with_path(path))
+        T::deserialize(de).map_err(|e| e.nested_in(path))
     }
 
     /// As [`extract`](Figment::extract_lossy), but interpret numbers and
@@ -603,7 +603,7 @@ impl Figment {
     pub fn extract_inner_lossy<'a, T: Deserialize<'a>>(&self, path: &str) -> Result<T> {
         let value = self.find_value(path)?;
         let de = ConfiguredValueDe::<'_, LossyInterpreter>::from(self, &value);
-        T::deserialize(de).map_err(|e| e.with_path(path))
+        T::deserialize(de).map_err(|e| e.nested_in(path))
     }
 
     /// Returns an iterator over the metadata for all of the collected values in
-- 
2.43.0


From 6ccc458c5bccc4e84a1bc661b751f999dd27ab4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:23 +0000
Subject: [PATCH 05/10] fix: deserialize stored 128-bit integers

None of the deserializers implemented `deserialize_u128()` or
`deserialize_i128()`, so extracting a `u128` or `i128` always failed.
---
 src/value/de.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/value/de.rs b/src/value/de.rs
index b4ceb6f..711be77 100644
--- a/src/value/de.rs
+++ b/src/value/de.rs
@@ -167,7 +167,9 @@ impl<'de: 'c, 'c, I: Interpreter> Deserializer<'de> for ConfiguredValueDe<'c, I>
             |de| I::interpret_as_bool(de.value),
             |e| e.retagged(de.value.tag()).resolved(de.config),
         deserialize_u8, deserialize_u16, deserialize_u32, deserialize_u64,
+        deserialize_u128,
         deserialize_i8, deserialize_i16, deserialize_i32, deserialize_i64,
+        deserialize_i128,
         deserialize_f32, deserialize_f64 =>
             |de| I::interpret_as_num(de.value),
             |e| e.retagged(de.value.tag()).resolved(de.config),
@@ -323,7 +325,7 @@ impl<'de> Deserializer<'de> for &Value {
     }
 
     serde::forward_to_deserialize_any! {
-        bool u8 u16 u32 u64 i8 i16 i32 i64 f32 f64 char str
+        bool u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 f32 f64 char str
         string seq bytes byte_buf map unit struct
         ignored_any unit_struct tuple_struct tuple identifier
     }
@@ -374,7 +376,7 @@ impl<'de> Deserializer<'de> for Num {
     }
 
     serde::forward_to_deserialize_any! {
-        bool u8 u16 u32 u64 i8 i16 i32 i64 f32 f64 char str string seq enum
+        bool u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 f32 f64 char str string seq enum
         bytes byte_buf map struct unit newtype_struct
         ignored_any unit_struct tuple_struct tuple option identifier
     }
@@ -393,7 +395,7 @@ impl<'de> Deserializer<'de> for Empty {
     }
 
     serde::forward_to_deserialize_any! {
-        bool u8 u16 u32 u64 i8 i16 i32 i64 f32 f64 char str string seq enum
+        bool u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 f32 f64 char str string seq enum
         bytes byte_buf map struct unit newtype_struct
         ignored_any unit_struct tuple_struct tuple option identifier
     }
-- 
2.43.0


From 5d0b6329d1600a137590cb20cb7f3a77a768e35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:10 +0000
Subject: [PATCH 06/10] fix: parse floating-point strings at full precision

---
 src/value/value.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/value/value.rs b/src/value/value.rs
index 3d95af8..162d4bb 100644
--- a/src/value/value.rs
+++ b/src/value/value.rs
@@ -515,11 +515,7 @@ impl FromStr for Num {
     fn from_str(string: &str) -> Result<Self, Self::Err> {
         let string = string.trim();
         if string.contains('.') {
-            if string.len() <= (f32::DIGITS as usize + 1) {
-                Ok(string.parse::<f32>().map_err(Either::Right)?.into())
-            } else {
-                Ok(string.parse::<f64>().map_err(Either::Right)?.into())
-            }
+            Ok(string.parse::<f64>().map_err(Either::Right)?.into())
         } else if string.starts_with('-') {
             let int = string.parse::<i128>().map_err(Either::Left)?;
             try_convert![int => i8, i16, i32, i64];
-- 
2.43.0


From ac7b340e3c9f6a71e2f29f828746429b22342ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:37 +0000
Subject: [PATCH 07/10] fix: attribute an array element's error to the
 element's provider

---
 src/value/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/value/de.rs b/src/value/de.rs
index 711be77..06ba58c 100644
--- a/src/value/de.rs
+++ b/src/value/de.rs
@@ -250,7 +250,7 @@ impl<'v, 'de, D, F> de::SeqAccess<'de> for SeqDe<'v, D, F>
             // item.map_tag(|metadata| metadata.path.push(self.count.to_string()));
             self.len -= 1;
             seed.deserialize((self.make_deserializer)(item))
-                .map_err(|e: Error| e.prefixed(&i.to_string()))
+                .map_err(|e: Error| e.prefixed(&i.to_string()).retagged(item.tag()))
                 .map(Some)
         } else {
             Ok(None)
-- 
2.43.0


From 5b6038fd601646f8b6b056a2205a08eabc0839ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:37 +0000
Subject: [PATCH 08/10] fix: attribute custom errors from extracting an inner
 value

---
 src/figment.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/figment.rs b/src/figment.rs
index 3b63fd3..2257117 100644
--- a/src/figment.rs
+++ b/src/figment.rs
@@ -569,7 +569,8 @@ impl Figment {
     pub fn extract_inner<'a, T: Deserialize<'a>>(&self, path: &str) -> Result<T> {
         let value = self.find_value(path)?;
         let de = ConfiguredValueDe::<'_, DefaultInterpreter>::from(self, &value);
-        T::deserialize(de).map_err(|e| e.nested_in(path))
+        T::deserialize(de)
+            .map_err(|e| e.retagged(value.tag()).resolved(self).nested_in(path))
     }
 
     /// As [`extract`](Figment::extract_lossy), but interpret numbers and
@@ -603,7 +604,8 @@ impl Figment {
     pub fn extract_inner_lossy<'a, T: Deserialize<'a>>(&self, path: &str) -> Result<T> {
         let value = self.find_value(path)?;
         let de = ConfiguredValueDe::<'_, LossyInterpreter>::from(self, &value);
-        T::deserialize(de).map_err(|e| e.nested_in(path))
+        T::deserialize(de)
+            .map_err(|e| e.retagged(value.tag()).resolved(self).nested_in(path))
     }
 
     /// Returns an iterator over the metadata for all of the collected values in
-- 
2.43.0


From ecf5f7af89936ad10c64347a589fa7dd8df33e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:53 +0000
Subject: [PATCH 09/10] fix: keep internal field names out of error paths

---
 src/error.rs    | 9 +++++++++
 src/value/de.rs | 9 ++++++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 1d4c267..a524902 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -153,6 +153,15 @@ impl Error {
         self
     }
 
+    /// Removes the leading path component if it is one of the internal `keys`.
+    pub(crate) fn unprefixed(mut self, keys: &[&str]) -> Self {
+        if self.path.first().map_or(false, |first| keys.contains(&first.as_str())) {
+            self.path.remove(0);
+        }
+
+        self
+    }
+
     pub(crate) fn retagged(mut self, tag: Tag) -> Self {
         if self.tag.is_default() {
             self.tag = tag;
diff --git a/src/value/de.rs b/src/value/de.rs
index 06ba58c..462906a 100644
--- a/src/value/de.rs
+++ b/src/value/de.rs
@@ -112,9 +112,12 @@ impl<'de: 'c, 'c, I: Interpreter> Deserializer<'de> for ConfiguredValueDe<'c, I>
 
         let (config, tag) = (self.config, self.value.tag());
         let result = match name {
-            Value::NAME => Value::deserialize_from(self, visitor),
-            RelativePathBuf::NAME => RelativePathBuf::deserialize_from(self, visitor),
-            Tagged::<()>::NAME => Tagged::<()>::deserialize_from(self, visitor),
+            Value::NAME => Value::deserialize_from(self, visitor)
+                .map_err(|e| e.unprefixed(Value::FIELDS)),
+            RelativePathBuf::NAME => RelativePathBuf::deserialize_from(self, visitor)
+                .map_err(|e| e.unprefixed(RelativePathBuf::FIELDS)),
+            Tagged::<()>::NAME => Tagged::<()>::deserialize_from(self, visitor)
+                .map_err(|e| e.unprefixed(Tagged::<()>::FIELDS)),
             // SelectedProfile::NAME => SelectedProfile::deserialize_from(self, visitor),
             _ => self.deserialize_any(visitor)
         };
-- 
2.43.0


From 8af99da60b23fcdbc47d0092ae53a3a67f9819f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:46 +0000
Subject: [PATCH 10/10] fix: account for dots in the base of a relative path

---
 src/util.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 13b0930..a25ba15 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -71,8 +71,8 @@ pub fn diff_paths<P, B>(path: P, base: B) -> Option<PathBuf>
         return None;
     }
 
-    let mut ita = path.components();
-    let mut itb = base.components();
+    let mut ita = path.components().filter(|c| *c != Component::CurDir);
+    let mut itb = base.components().filter(|c| *c != Component::CurDir);
     let mut comps: Vec<Component> = vec![];
     loop {
         match (ita.next(), itb.next()) {
@@ -82,13 +82,16 @@ pub fn diff_paths<P, B>(path: P, base: B) -> Option<PathBuf>
                 comps.extend(ita.by_ref());
                 break;
             }
-            (None, _) => comps.push(Component::ParentDir),
             (Some(a), Some(b)) if comps.is_empty() && a == b => (),
-            (Some(a), Some(Component::CurDir)) => comps.push(a),
-            (Some(_), Some(Component::ParentDir)) => return None,
+            (_, Some(Component::ParentDir)) => return None,
+            (None, _) => comps.push(Component::ParentDir),
             (Some(a), Some(_)) => {
                 comps.push(Component::ParentDir);
-                for _ in itb {
+                for b in itb {
+                    if b == Component::ParentDir {
+                        return None;
+                    }
+
                     comps.push(Component::ParentDir);
                 }
                 comps.push(a);
-- 
2.43.0

