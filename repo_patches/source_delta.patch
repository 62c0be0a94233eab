From 9abc00c1ae1c27eaeb0ceba5e26ecb00d1e5729c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:26 +0000
Subject: [PATCH 1/6] fix: sum modulo-10 check digits in u32 so long ITF data
 cannot overflow

---
 src/sym/helpers.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sym/helpers.rs b/src/sym/helpers.rs
index 677ef57..a678e8a 100644
--- a/src/sym/helpers.rs
+++ b/src/sym/helpers.rs
@@ -23,13 +23,13 @@ where
 
 /// Calculates the checksum digit using a modulo-10 weighting algorithm.
 pub fn modulo_10_checksum(data: &[u8], even_start: bool) -> u8 {
-    let mut odds = 0;
-    let mut evens = 0;
+    let mut odds: u32 = 0;
+    let mut evens: u32 = 0;
 
     for (i, d) in data.iter().enumerate() {
         match i % 2 {
-            1 => odds += *d,
-            _ => evens += *d,
+            1 => odds += u32::from(*d),
+            _ => evens += u32::from(*d),
         }
     }
 
@@ -43,6 +43,6 @@ pub fn modulo_10_checksum(data: &[u8], even_start: bool) -> u8 {
 
     match 10 - ((odds + evens) % 10) {
         10 => 0,
-        n => n,
+        n => n as u8,
     }
 }
-- 
2.43.0


From 96bf7dedc5b75e8889b0bbd9c718cb8241d01e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:26 +0000
Subject: [PATCH 2/6] fix: reduce the Code128 checksum modulo 103 as it is
 summed

---
 src/sym/code128.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sym/code128.rs b/src/sym/code128.rs
index a1b0081..5b5b18c 100644
--- a/src/sym/code128.rs
+++ b/src/sym/code128.rs
@@ -345,13 +345,13 @@ impl Code128 {
 
     /// Calculates the checksum index using a modulo-103 algorithm.
     fn checksum_value(&self) -> u8 {
-        let sum: i32 = self
+        let sum = self
             .0
             .iter()
-            .zip(0..self.0.len() as i32)
-            .fold(0, |t, (u, i)| t + (u.index() as i32 * cmp::max(1, i)));
+            .enumerate()
+            .fold(0, |t, (i, u)| (t + u.index() * (cmp::max(1, i) % 103)) % 103);
 
-        (sum % 103) as u8
+        sum as u8
     }
 
     fn checksum_encoding(&self) -> Encoding {
-- 
2.43.0


From 7d840e2c1b61f64d92a62e2635ece905af6e0746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:26 +0000
Subject: [PATCH 3/6] fix: compare data lengths as usize instead of truncating
 to u32

---
 src/sym.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sym.rs b/src/sym.rs
index f1d3efa..f759a6a 100644
--- a/src/sym.rs
+++ b/src/sym.rs
@@ -38,9 +38,9 @@ trait Parse {
     fn parse(data: &str) -> Result<&str, Error> {
         let valid_chars = Self::valid_chars();
         let valid_len = Self::valid_len();
-        let data_len = data.len() as u32;
+        let data_len = data.len();
 
-        if data_len < valid_len.start || data_len > valid_len.end {
+        if data_len < valid_len.start as usize || data_len > valid_len.end as usize {
             return Err(Error::Length);
         }
 
-- 
2.43.0


From a9d697e3b0e2fed0272856f6b7c4f5a1c7d18230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:26 +0000
Subject: [PATCH 4/6] fix: reject a Code128 set C digit pair split by a
 function character

---
 src/sym/code128.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sym/code128.rs b/src/sym/code128.rs
index 5b5b18c..dc91510 100644
--- a/src/sym/code128.rs
+++ b/src/sym/code128.rs
@@ -330,6 +330,8 @@ impl Code128 {
                         carry = None;
                     }
                 },
+                // A pending digit of a set C pair may not be separated from its partner.
+                _ if carry.is_some() => return Err(Error::Character),
                 _ => {
                     let u = char_set.lookup(&ch.to_string())?;
                     units.push(u);
-- 
2.43.0


From 7859dec471675e1c2d2a5c2dd08b20d1ead70387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:26 +0000
Subject: [PATCH 5/6] fix: count characters, not bytes, for the Code128 minimum
 length

---
 src/sym/code128.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sym/code128.rs b/src/sym/code128.rs
index dc91510..8bc180d 100644
--- a/src/sym/code128.rs
+++ b/src/sym/code128.rs
@@ -289,7 +289,7 @@ impl Code128 {
     /// Returns Result<Code128, Error> indicating parse success.
     pub fn new<T: AsRef<str>>(data: T) -> Result<Code128> {
         let data = data.as_ref();
-        if data.len() < 2 {
+        if data.chars().count() < 2 {
             return Err(Error::Length);
         }
 
-- 
2.43.0


From f9dcfb16e80b441c7f95b29db7fe69c53eaffc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:24 +0000
Subject: [PATCH 6/6] fix: escape the xmlns value when writing the SVG
 attribute

---
 src/generators/svg.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/generators/svg.rs b/src/generators/svg.rs
index 344f2e0..22a239e 100644
--- a/src/generators/svg.rs
+++ b/src/generators/svg.rs
@@ -165,6 +165,14 @@ impl SVG {
         )
     }
 
+    // Escapes the characters which cannot appear literally in an attribute value.
+    fn escape_attribute(value: &str) -> String {
+        value
+            .replace('&', "&amp;")
+            .replace('<', "&lt;")
+            .replace('"', "&quot;")
+    }
+
     /// Generates the given barcode. Returns a `Result<String, Error>` of the SVG data or an
     /// error message.
     pub fn generate<T: AsRef<[u8]>>(&self, barcode: T) -> Result<String> {
@@ -178,7 +186,7 @@ impl SVG {
             .collect();
 
         let xmlns = match &self.xmlns {
-            Some(xmlns) => format!("xmlns=\"{xmlns}\" "),
+            Some(xmlns) => format!("xmlns=\"{}\" ", Self::escape_attribute(xmlns)),
             None => "".to_string() 
         };
 
-- 
2.43.0

