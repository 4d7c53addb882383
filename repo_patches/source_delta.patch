From ad94ec98aa23af49b46c8edd43f01efc1b16eb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:41 +0000
Subject: [PATCH 1/5] fix: treat a negated zero enum discriminant as zero

`enum E { A = -0, B }` made the generator subtract from a zero magnitude
when numbering B (panic, or wraparound without overflow checks).
---
 syntax/discriminant.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/syntax/discriminant.rs b/syntax/discriminant.rs
index a8400aa..27fa965 100644
--- a/syntax/discriminant.rs
+++ b/syntax/discriminant.rs
@@ -117,6 +117,8 @@ fn expr_to_discriminant(expr: &Expr) -> Result<(Discriminant, Option<Atom>)> {
             if let UnOp::Neg(_) = unary.op {
                 let (mut discriminant, repr) = expr_to_discriminant(&unary.expr)?;
                 discriminant.sign = match discriminant.sign {
+                    // There is no negative zero.
+                    _ if discriminant.magnitude == 0 => Sign::Positive,
                     Sign::Positive => Sign::Negative,
                     Sign::Negative => Sign::Positive,
                 };
@@ -232,6 +234,7 @@ impl FromStr for Discriminant {
             Sign::Positive
         };
         match s.parse::<u64>() {
+            Ok(0) => Ok(Discriminant::zero()),
             Ok(magnitude) => Ok(Discriminant { sign, magnitude }),
             Err(_) => Err(Error::new(
                 Span::call_site(),
-- 
2.43.0


From 8547c4efd4e56c96202d61625e48c05fe5fd1e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:41 +0000
Subject: [PATCH 2/5] fix: order and cycle-check structs contained in
 fixed-size arrays

A struct holding `[B; N]` could be emitted before B, and one holding an
array of itself overflowed the generator's stack instead of being rejected.
---
 syntax/toposort.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/syntax/toposort.rs b/syntax/toposort.rs
index 9c97eb1..2942f0a 100644
--- a/syntax/toposort.rs
+++ b/syntax/toposort.rs
@@ -36,7 +36,11 @@ fn visit<'a>(
     }
     let mut result = Ok(());
     for field in &strct.fields {
-        if let Type::Ident(ident) = &field.ty {
+        let mut ty = &field.ty;
+        while let Type::Array(array) = ty {
+            ty = &array.inner;
+        }
+        if let Type::Ident(ident) = ty {
             if let Some(inner) = types.structs.get(&ident.rust) {
                 if visit(cx, inner, sorted, marks, types).is_err() {
                     cx.error(field, "unsupported cyclic data structure");
-- 
2.43.0


From 6fd0ab9740dd48199b36a815fc41f2a0784bc195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:41 +0000
Subject: [PATCH 3/5] fix: compare pointer and array types for equality

Type::Ptr and Type::Array were never equal, not even to themselves, although
they hash, so identical types were collected and diagnosed repeatedly.
---
 syntax/impls.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/syntax/impls.rs b/syntax/impls.rs
index 36e1f32..542bf9f 100644
--- a/syntax/impls.rs
+++ b/syntax/impls.rs
@@ -72,11 +72,13 @@ impl PartialEq for Type {
             (Type::SharedPtr(lhs), Type::SharedPtr(rhs)) => lhs == rhs,
             (Type::WeakPtr(lhs), Type::WeakPtr(rhs)) => lhs == rhs,
             (Type::Ref(lhs), Type::Ref(rhs)) => lhs == rhs,
+            (Type::Ptr(lhs), Type::Ptr(rhs)) => lhs == rhs,
             (Type::Str(lhs), Type::Str(rhs)) => lhs == rhs,
             (Type::RustVec(lhs), Type::RustVec(rhs)) => lhs == rhs,
             (Type::CxxVector(lhs), Type::CxxVector(rhs)) => lhs == rhs,
             (Type::Fn(lhs), Type::Fn(rhs)) => lhs == rhs,
             (Type::SliceRef(lhs), Type::SliceRef(rhs)) => lhs == rhs,
+            (Type::Array(lhs), Type::Array(rhs)) => lhs == rhs,
             (Type::Void(_), Type::Void(_)) => true,
             (_, _) => false,
         }
-- 
2.43.0


From 3984ce7373b51fe0ea5773d6287a25510637902d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:37 +0000
Subject: [PATCH 4/5] fix: order rust::Str and rust::String by unsigned bytes,
 as Rust does

---
 src/cxx.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cxx.cc b/src/cxx.cc
index 45d9aac..f3cd8d8 100644
--- a/src/cxx.cc
+++ b/src/cxx.cc
@@ -356,9 +356,14 @@ bool Str::operator==(const Str &rhs) const noexcept {
 
 bool Str::operator!=(const Str &rhs) const noexcept { return !(*this == rhs); }
 
+// Rust orders strings by their bytes, which are unsigned; char may be signed.
+static bool byteLess(char lhs, char rhs) noexcept {
+  return static_cast<unsigned char>(lhs) < static_cast<unsigned char>(rhs);
+}
+
 bool Str::operator<(const Str &rhs) const noexcept {
   return std::lexicographical_compare(this->begin(), this->end(), rhs.begin(),
-                                      rhs.end());
+                                      rhs.end(), byteLess);
 }
 
 bool Str::operator<=(const Str &rhs) const noexcept {
@@ -374,7 +379,7 @@ bool Str::operator<=(const Str &rhs) const noexcept {
   } else if (riter == rend) {
     return false; // rhs is a prefix of *this
   } else {
-    return *liter <= *riter;
+    return byteLess(*liter, *riter);
   }
 }
 
-- 
2.43.0


From 1d299a847f420e9f2add8043a44be545396e80ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:21 +0000
Subject: [PATCH 5/5] fix: keep rust::Vec valid when copy assignment throws

---
 include/cxx.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/cxx.h b/include/cxx.h
index 4e261a3..974af5b 100644
--- a/include/cxx.h
+++ b/include/cxx.h
@@ -898,8 +898,7 @@ Vec<T> &Vec<T>::operator=(Vec &&other) & noexcept {
 template <typename T>
 Vec<T> &Vec<T>::operator=(const Vec &other) & {
   if (this != &other) {
-    this->drop();
-    new (this) Vec(other);
+    *this = Vec(other);
   }
   return *this;
 }
-- 
2.43.0

