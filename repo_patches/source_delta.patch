From c4335d605ffa44b73e83f6a8583177d39dfb1c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:38 +0000
Subject: [PATCH 1/2] fix: keep the maximum in place when inserting below the
 minimum

Inserting a key smaller than the minimum into a tree of two or more
elements compared max against the old min the wrong way round, so the
old min replaced the max and the real max was pushed into the children:
max_val, successor and predecessor then gave wrong answers.
---
 src/tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tree.rs b/src/tree.rs
index 34f9c07..393041e 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -523,7 +523,7 @@ where
             }
             (Ordering::Less, Some(data)) => {
                 let (k, v) = replace(&mut self.min, (k, v));
-                let (k, v) = match data.max.0.cmp(&k) {
+                let (k, v) = match k.cmp(&data.max.0) {
                     Ordering::Equal => return Some(replace(&mut data.max, (k, v))),
                     Ordering::Greater => replace(&mut data.max, (k, v)),
                     Ordering::Less => (k, v),
-- 
2.43.0


From 22faef5e64dc766d335f0aaa9b057e1bfb0fa87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:38 +0000
Subject: [PATCH 2/2] fix: index of signed keys stays within the cardinality

index() computed wrapping_sub(MIN) in the signed type, so keys >= 0
were still negative when cast to usize and sign-extended to a huge
index: array collections with i8, i16 or i32 high halves panicked.
---
 src/key.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/key.rs b/src/key.rs
index 3d08078..c32ffe3 100644
--- a/src/key.rs
+++ b/src/key.rs
@@ -288,7 +288,7 @@ impl SizedVebKey for i32 {
     type Cardinality = op!(U1 << U32);
     #[inline(always)]
     fn index(&self) -> usize {
-        self.wrapping_sub(Self::MIN) as usize
+        self.abs_diff(Self::MIN) as usize
     }
 }
 
@@ -345,7 +345,7 @@ impl SizedVebKey for i16 {
     type Cardinality = op!(U1 << U16);
     #[inline(always)]
     fn index(&self) -> usize {
-        self.wrapping_sub(Self::MIN) as usize
+        self.abs_diff(Self::MIN) as usize
     }
 }
 
@@ -390,7 +390,7 @@ impl SizedVebKey for i8 {
     type Cardinality = op!(U1 << U8);
     #[inline(always)]
     fn index(&self) -> usize {
-        self.wrapping_sub(Self::MIN) as usize
+        self.abs_diff(Self::MIN) as usize
     }
 }
 
-- 
2.43.0

