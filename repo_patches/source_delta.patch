From b28a3a42a51659d7ed387df040f3c7f9d8a2f8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:09 +0000
Subject: [PATCH 01/55] fix: inplace_row_swap swaps rows, not columns

---
 gmatlib/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gmatlib/src/lib.rs b/gmatlib/src/lib.rs
index 455146a..bf129a9 100644
--- a/gmatlib/src/lib.rs
+++ b/gmatlib/src/lib.rs
@@ -252,9 +252,9 @@ where T: Element<T>
         let mut storage: T;
         for i in 0..self.cols
         {
-            storage       = self[(i, r1)];
-            self[(i, r1)] = self[(i, r2)];
-            self[(i, r2)] = storage;
+            storage       = self[(r1, i)];
+            self[(r1, i)] = self[(r2, i)];
+            self[(r2, i)] = storage;
         } 
     }
 
-- 
2.43.0


From 64c348f748d4017906decb9a9ae708a4883588a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:09 +0000
Subject: [PATCH 02/55] fix: writing to a column outside the matrix panics
 instead of hitting another row

---
 gmatlib/src/trait_impls.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gmatlib/src/trait_impls.rs b/gmatlib/src/trait_impls.rs
index d5999b4..9f11a11 100644
--- a/gmatlib/src/trait_impls.rs
+++ b/gmatlib/src/trait_impls.rs
@@ -805,6 +805,10 @@ where T: Element<T>
     #[inline]
     fn index_mut(&mut self, index: (usize, usize)) -> &mut T 
     {
+        if index.0 >= self.rows || index.1 >= self.cols 
+        {
+            panic!("index out of bounds: the matrix has {} rows and {} cols but the index was [({}, {})]", self.rows, self.cols, index.0, index.1)
+        }
         &mut (self.vals[index.0 * self.cols + index.1])
     }
 }
-- 
2.43.0


From e861460cb551cfdaa77fe2cf4bda031541ffc188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:09 +0000
Subject: [PATCH 03/55] fix: from_vec with zero columns is an error instead of
 a division by zero

---
 gmatlib/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gmatlib/src/lib.rs b/gmatlib/src/lib.rs
index bf129a9..cd14e6f 100644
--- a/gmatlib/src/lib.rs
+++ b/gmatlib/src/lib.rs
@@ -114,7 +114,7 @@ where T: Element<T>
     /// ```
     pub fn from_vec(cols: usize, vec: Vec<T>) -> Result<Matrix<T>>
     {
-        if vec.len() % cols != 0
+        if cols == 0 || vec.len() % cols != 0
         {
             return Err(MatrixFromVecError.into())
         }
-- 
2.43.0


From a595c8b36e9a691c3b8f0359c7dfc758c9345607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:09 +0000
Subject: [PATCH 04/55] fix: 3x3 inversion returned the transpose of the
 inverse

---
 gmatlib/src/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gmatlib/src/lib.rs b/gmatlib/src/lib.rs
index cd14e6f..d2e3a0f 100644
--- a/gmatlib/src/lib.rs
+++ b/gmatlib/src/lib.rs
@@ -593,13 +593,13 @@ where T: Element<T>
     fn try_inplace_invert_3(&mut self) -> Result<()>
     {
         let a11 = self[(0, 0)];
-        let a12 = self[(1, 0)];
-        let a13 = self[(2, 0)];
-        let a21 = self[(0, 1)];
+        let a12 = self[(0, 1)];
+        let a13 = self[(0, 2)];
+        let a21 = self[(1, 0)];
         let a22 = self[(1, 1)];
-        let a23 = self[(2, 1)];
-        let a31 = self[(0, 2)];
-        let a32 = self[(1, 2)];
+        let a23 = self[(1, 2)];
+        let a31 = self[(2, 0)];
+        let a32 = self[(2, 1)];
         let a33 = self[(2, 2)];
 
         let det  = a11*a22*a33 + a21*a32*a13 + a31*a12*a23 
-- 
2.43.0


From a1a7d9511dc6a148e72d43ec85fbc272154b8ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:09 +0000
Subject: [PATCH 05/55] fix: wrong term in the determinant used by 4x4
 inversion

---
 gmatlib/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gmatlib/src/lib.rs b/gmatlib/src/lib.rs
index d2e3a0f..c8e47b1 100644
--- a/gmatlib/src/lib.rs
+++ b/gmatlib/src/lib.rs
@@ -646,7 +646,7 @@ where T: Element<T>
         let det  = a11*a22*a33*a44 + a11*a23*a34*a42 + a11*a24*a32*a43 +
                    a12*a21*a34*a43 + a12*a23*a31*a44 + a12*a24*a33*a41 + 
                    a13*a21*a32*a44 + a13*a22*a34*a41 + a13*a24*a31*a42 + 
-                   a14*a21*a33*a42 + a14*a22*a34*a43 + a14*a23*a32*a41 -
+                   a14*a21*a33*a42 + a14*a22*a31*a43 + a14*a23*a32*a41 -
                    a11*a22*a34*a43 - a11*a23*a32*a44 - a11*a24*a33*a42 -
                    a12*a21*a33*a44 - a12*a23*a34*a41 - a12*a24*a31*a43 -
                    a13*a21*a34*a42 - a13*a22*a31*a44 - a13*a24*a32*a41 -
-- 
2.43.0


From bba624ad17b4717f0e58c35286697b468c86615d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:09 +0000
Subject: [PATCH 06/55] fix: inversion of 5x5 and larger matrices handles zero
 pivots and keeps the matrix on failure

---
 gmatlib/src/lib.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/gmatlib/src/lib.rs b/gmatlib/src/lib.rs
index c8e47b1..b0433f1 100644
--- a/gmatlib/src/lib.rs
+++ b/gmatlib/src/lib.rs
@@ -684,8 +684,23 @@ where T: Element<T>
         let n = self.rows;
         let mut inv: Matrix<T> = Matrix::new_identity(n);
 
+        // work on a copy so that `self` keeps its values if inversion fails
+        let mut a = self.clone();
+
         for j in 0..n
         {
+            // bring a row with a nonzero pivot into place
+            match (j..n).find(|&i| a[(i, j)] != T::zero())
+            {
+                Some(i) if i != j =>
+                {
+                    a.inplace_row_swap(i, j);
+                    inv.inplace_row_swap(i, j);
+                }
+                Some(_) => {}
+                None => return Err(MatrixInversionError::ZeroDuringInversion.into())
+            }
+
             for i in 0..n
             {
                 if i == j
@@ -694,12 +709,8 @@ where T: Element<T>
                 }
                 else
                 {
-                    if self[(j, j)] == T::zero()
-                    {
-                        return Err(MatrixInversionError::ZeroDuringInversion.into())
-                    }
-                    let scalar = self[(i, j)] / self[(j, j)];
-                    self.inplace_scaled_row_add(i, j, -scalar);
+                    let scalar = a[(i, j)] / a[(j, j)];
+                    a.inplace_scaled_row_add(i, j, -scalar);
                     inv.inplace_scaled_row_add(i, j, -scalar);
                 }
             }
@@ -707,8 +718,7 @@ where T: Element<T>
 
         for i in 0..n
         {
-            let scalar: T = T::one() / self[(i, i)];
-            self.inplace_row_scale(i, scalar);
+            let scalar: T = T::one() / a[(i, i)];
             inv.inplace_row_scale(i, scalar);
         }
 
-- 
2.43.0


From fc76413379723f7f2a3a5c7c4b2d06c4d71e3d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:09 +0000
Subject: [PATCH 07/55] fix: subset with reversed corners panics in release
 builds too

---
 gmatlib/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gmatlib/src/lib.rs b/gmatlib/src/lib.rs
index b0433f1..3e21a50 100644
--- a/gmatlib/src/lib.rs
+++ b/gmatlib/src/lib.rs
@@ -478,6 +478,11 @@ where T: Element<T>
     /// ```
     pub fn subset(&self, r1: usize, c1: usize, r2: usize, c2: usize) -> Matrix<T>
     {
+        if r2 < r1 || c2 < c1
+        {
+            panic!("{}", MatrixSubsetError)
+        }
+
         let mut b = Matrix::new(r2 - r1 + 1, c2 - c1 + 1);
 
         for i in r1..r2+1
-- 
2.43.0


From 48aa3da3ff099e335fa1534b3a6f263db36b3a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:31 +0000
Subject: [PATCH 08/55] fix: C interface borrows matrix handles so that
 failures no longer free them

---
 gmatlib/src/ffi.rs | 69 ++++++++++++++--------------------------------
 1 file changed, 20 insertions(+), 49 deletions(-)

diff --git a/gmatlib/src/ffi.rs b/gmatlib/src/ffi.rs
index 16ed4e1..e31da16 100644
--- a/gmatlib/src/ffi.rs
+++ b/gmatlib/src/ffi.rs
@@ -1,5 +1,4 @@
 use std::ffi::{c_double, c_uint, c_void};
-use std::mem;
 use std::panic::catch_unwind;
 use std::ptr::null_mut;
 use crate::{Matrix, MatrixInversionError};
@@ -39,10 +38,8 @@ pub extern "C" fn new_double_identity_matrix(n: c_uint) -> *mut c_void
 pub extern "C" fn inplace_row_swap(ptr: *mut c_void, r1: c_uint, r2: c_uint) -> c_uint
 {
     let res = catch_unwind(|| {
-        let mut a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &mut *(ptr as *mut Matrix<c_double>) };
         a.inplace_row_swap(r1 as usize, r2 as usize);
-        
-        mem::forget(a); // Prevent drop that would deallocate the matrix data
     });
 
     match res
@@ -56,10 +53,8 @@ pub extern "C" fn inplace_row_swap(ptr: *mut c_void, r1: c_uint, r2: c_uint) ->
 pub extern "C" fn inplace_row_scale(ptr: *mut c_void, row: c_uint, scalar: c_double) -> c_uint
 {
     let res = catch_unwind(|| {
-        let mut a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &mut *(ptr as *mut Matrix<c_double>) };
         a.inplace_row_scale(row as usize, scalar);
-
-        mem::forget(a); // Prevent drop that would deallocate the matrix data
     });
 
     match res
@@ -73,10 +68,8 @@ pub extern "C" fn inplace_row_scale(ptr: *mut c_void, row: c_uint, scalar: c_dou
 pub extern "C" fn inplace_scale(ptr: *mut c_void, scalar: c_double) -> c_uint
 {
     let res = catch_unwind(|| {
-        let mut a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &mut *(ptr as *mut Matrix<c_double>) };
         a.inplace_scale(scalar);
-
-        mem::forget(a); // Prevent drop that would deallocate the matrix data
     });
 
     match res
@@ -90,10 +83,8 @@ pub extern "C" fn inplace_scale(ptr: *mut c_void, scalar: c_double) -> c_uint
 pub extern "C" fn inplace_row_add(ptr: *mut c_void, r1: c_uint, r2: c_uint) -> c_uint
 {
     let res = catch_unwind(|| {
-        let mut a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &mut *(ptr as *mut Matrix<c_double>) };
         a.inplace_row_add(r1 as usize, r2 as usize);
-
-        mem::forget(a); // Prevent drop that would deallocate the matrix data
     });
 
     match res
@@ -107,10 +98,8 @@ pub extern "C" fn inplace_row_add(ptr: *mut c_void, r1: c_uint, r2: c_uint) -> c
 pub extern "C" fn inplace_scaled_row_add(ptr: *mut c_void, r1: c_uint, r2: c_uint, scalar: c_double) -> c_uint
 {
     let res = catch_unwind(|| {
-        let mut a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &mut *(ptr as *mut Matrix<c_double>) };
         a.inplace_scaled_row_add(r1 as usize, r2 as usize, scalar);
-
-        mem::forget(a); // Prevent drop that would deallocate the matrix data
     });
 
     match res
@@ -126,19 +115,16 @@ pub extern "C" fn multiply_matrix(ptr_a: *mut c_void, ptr_b: *mut c_void) -> *mu
     let res = catch_unwind(|| {
         let (a, b) = unsafe 
         {(
-            Box::from_raw(ptr_a as *mut Matrix<c_double>),
-            Box::from_raw(ptr_b as *mut Matrix<c_double>),
+            &*(ptr_a as *const Matrix<c_double>),
+            &*(ptr_b as *const Matrix<c_double>),
         )};
     
-        let ab = match a.multiply_matrix(&b) 
+        let ab = match a.multiply_matrix(b) 
         {
             Ok(x)  => Box::new(x),
             Err(_) => return null_mut(), // return early and indicate failure via NULL
         };
     
-        mem::forget(a); // Prevent drop that would deallocate matrix data. We don't inform the
-        mem::forget(b); // caller that a or b will be deallocated, so we shouldn't do it here.
-    
         Box::into_raw(ab) as *mut c_void
     });
 
@@ -155,19 +141,16 @@ pub extern "C" fn augment_with(ptr_a: *mut c_void, ptr_b: *mut c_void) -> *mut c
     let res = catch_unwind(|| {
         let (a, b) = unsafe 
         {(
-            Box::from_raw(ptr_a as *mut Matrix<c_double>),
-            Box::from_raw(ptr_b as *mut Matrix<c_double>),
+            &*(ptr_a as *const Matrix<c_double>),
+            &*(ptr_b as *const Matrix<c_double>),
         )};
     
-        let ab = match a.augment_with(&b) 
+        let ab = match a.augment_with(b) 
         {
             Ok(x)  => Box::new(x),
             Err(_) => return null_mut(), // return early and indicate failure via NULL
         };
     
-        mem::forget(a); // Prevent drop that would deallocate matrix data. We don't inform the
-        mem::forget(b); // caller that a or b will be deallocated, so we shouldn't do it here.
-    
         Box::into_raw(ab) as *mut c_void
     });
     
@@ -182,9 +165,8 @@ pub extern "C" fn augment_with(ptr_a: *mut c_void, ptr_b: *mut c_void) -> *mut c
 pub extern "C" fn subset(ptr: *mut c_void, r1: c_uint, c1: c_uint, r2: c_uint, c2: c_uint) -> *mut c_void
 {
     let res = catch_unwind(|| {
-        let a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &*(ptr as *const Matrix<c_double>) };
         let b = Box::new(a.subset(r1 as usize, c1 as usize, r2 as usize, c2 as usize));
-        mem::forget(a); // Prevent drop that would deallocate matrix data.
         Box::into_raw(b) as *mut c_void
     });
 
@@ -199,15 +181,13 @@ pub extern "C" fn subset(ptr: *mut c_void, r1: c_uint, c1: c_uint, r2: c_uint, c
 pub extern "C" fn trace(ptr: *mut c_void) -> c_double
 {
     let res = catch_unwind(|| {
-        let a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &*(ptr as *const Matrix<c_double>) };
         let trace = match a.trace()
         {
             Ok(t) => t,
             Err(_) => c_double::NAN
         };
 
-        mem::forget(a); // Prevent drop that would deallocate the matrix data
-
         trace
     });
 
@@ -222,10 +202,8 @@ pub extern "C" fn trace(ptr: *mut c_void) -> c_double
 pub extern "C" fn transpose(ptr: *mut c_void) -> *mut c_void
 {
     let res = catch_unwind(|| {
-        let a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &*(ptr as *const Matrix<c_double>) };
         let b = Box::new(a.transpose());
-        mem::forget(a);
-
         Box::into_raw(b) as *mut c_void
     });
 
@@ -240,7 +218,7 @@ pub extern "C" fn transpose(ptr: *mut c_void) -> *mut c_void
 pub extern "C" fn try_inplace_invert(ptr: *mut c_void) -> c_uint
 {
     let res = catch_unwind(|| {
-        let mut a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &mut *(ptr as *mut Matrix<c_double>) };
         let status = match a.try_inplace_invert()
         {
             Ok(_)  => c_uint::MAX,
@@ -255,8 +233,6 @@ pub extern "C" fn try_inplace_invert(ptr: *mut c_void) -> c_uint
                 }
             }
         };
-    
-        mem::forget(a);
         status
     });
     
@@ -267,10 +243,8 @@ pub extern "C" fn try_inplace_invert(ptr: *mut c_void) -> c_uint
 pub extern "C" fn index_mut_double_matrix(ptr: *mut c_void, i: c_uint, j: c_uint, value: c_double) -> c_uint
 {
     let res = catch_unwind(|| {
-        let mut a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &mut *(ptr as *mut Matrix<c_double>) };
         a[(i as usize, j as usize)] = value;
-
-        mem::forget(a);
     });
 
     match res
@@ -284,9 +258,8 @@ pub extern "C" fn index_mut_double_matrix(ptr: *mut c_void, i: c_uint, j: c_uint
 pub extern "C" fn index_double_matrix(ptr: *mut c_void, i: c_uint, j: c_uint) -> c_double
 {
     let res = catch_unwind(|| {
-        let a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &*(ptr as *const Matrix<c_double>) };
         let value = a[(i as usize, j as usize)];
-        mem::forget(a);
         value
     });
 
@@ -305,12 +278,10 @@ pub extern "C" fn clone_double_matrix(ptr: *mut c_void) -> *mut c_void
 {
     let res = catch_unwind(|| {
         // Get the actual matrix instance
-        let a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &*(ptr as *const Matrix<c_double>) };
 
-        // Use clone to allocate a new instance and mem::forget it AND the old instance
-        let b = a.clone();
-        mem::forget(a);
-    
+        // Use clone to allocate a new instance
+        let b = Box::new(a.clone());
         Box::into_raw(b) as *mut c_void
     });
     
-- 
2.43.0


From 1e4849e7962b9ce4d1c838a61eae94151ee8bc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:17 +0000
Subject: [PATCH 09/55] fix: subset checks its corners before allocating the
 result

---
 gmatlib/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gmatlib/src/lib.rs b/gmatlib/src/lib.rs
index 3e21a50..4fe12db 100644
--- a/gmatlib/src/lib.rs
+++ b/gmatlib/src/lib.rs
@@ -478,7 +478,7 @@ where T: Element<T>
     /// ```
     pub fn subset(&self, r1: usize, c1: usize, r2: usize, c2: usize) -> Matrix<T>
     {
-        if r2 < r1 || c2 < c1
+        if r2 < r1 || c2 < c1 || r2 >= self.rows || c2 >= self.cols
         {
             panic!("{}", MatrixSubsetError)
         }
-- 
2.43.0


From a2c431688bd5d289534993c1e800e79e78383fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:53 +0000
Subject: [PATCH 10/55] fix: a function takes only its parenthesised arguments,
 not what follows them

---
 geqslib/src/shunting.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/geqslib/src/shunting.rs b/geqslib/src/shunting.rs
index ddcb1c5..5bc44da 100644
--- a/geqslib/src/shunting.rs
+++ b/geqslib/src/shunting.rs
@@ -174,6 +174,11 @@ fn rpnify(expr: &str, context: &ContextHashMap) -> anyhow::Result<Vec<Token>>
                         return Err(ShuntingYardError::UnclosedParenthesis.into())
                     }
                 }
+                // the parenthesis closed a call if a function name preceded it
+                if stack.last().is_some_and(|f| matches!(context.get(*f), Some(Token::Func(_, _))))
+                {
+                    queue.push(tokenize_with_context(stack.pop().unwrap(), context)?);
+                }
                 unary_minus = false;
             },
 
-- 
2.43.0


From b54db04eba9f4a3a87f2f22d79b1f1f7823be596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:17 +0000
Subject: [PATCH 11/55] fix: malformed expressions are errors instead of being
 given some value

---
 geqslib/src/shunting.rs | 73 +++++++++++++++++++++++++++++++++--------
 1 file changed, 60 insertions(+), 13 deletions(-)

diff --git a/geqslib/src/shunting.rs b/geqslib/src/shunting.rs
index 5bc44da..6208a56 100644
--- a/geqslib/src/shunting.rs
+++ b/geqslib/src/shunting.rs
@@ -131,13 +131,30 @@ fn rpnify(expr: &str, context: &ContextHashMap) -> anyhow::Result<Vec<Token>>
 
     let mut stack: Vec<&str> = Vec::new();
     let mut queue: Vec<Token> = Vec::new();
-    let mut unary_minus = true; // Indicator for whether the next '-' token is a unary operator
+    let mut unary_minus = true; // Indicator for whether the next '-' token is a unary operator, i.e. an operand is due
+    let mut callee: Option<usize> = None; // Argument count of the function whose '(' is due
+    let mut calls: Vec<Option<(usize, usize)>> = Vec::new(); // (expected, found) arguments per open parenthesis of a call
+    let mut prev = "";
 
     for word in words 
     {
+        if callee.is_some() && word != "("
+        {
+            return Err(ShuntingYardError::ExpectedArg.into());
+        }
+
         match word 
         {
             "," => {
+                if unary_minus
+                {
+                    return Err(ShuntingYardError::ExpectedArg.into());
+                }
+                match calls.last_mut()
+                {
+                    Some(Some((_, found))) => *found += 1,
+                    _ => return Err(ShuntingYardError::LeftoverToken.into()),
+                }
                 while let Some(op) = stack.pop() 
                 {
                     if op != "(" 
@@ -154,30 +171,43 @@ fn rpnify(expr: &str, context: &ContextHashMap) -> anyhow::Result<Vec<Token>>
             },
 
             "(" => {
+                if !unary_minus
+                {
+                    return Err(ShuntingYardError::LeftoverToken.into());
+                }
+                calls.push(callee.take().map(|args| (args, 1)));
                 stack.push(word);
                 unary_minus = true;
             },
 
             ")" => {
+                let call = match calls.pop()
+                {
+                    // a call without arguments
+                    Some(Some((0, 1))) if prev == "(" => Some((0, 0)),
+                    Some(_) if unary_minus => return Err(ShuntingYardError::ExpectedArg.into()),
+                    Some(call) => call,
+                    None => return Err(ShuntingYardError::UnclosedParenthesis.into()),
+                };
                 while let Some(op) = stack.pop() 
                 {
-                    if op != "(" 
-                    {
-                        queue.push(tokenize_with_context(op, context)?);
-                    } 
-                    else if op == "(" 
+                    if op == "(" 
                     {
                         break;
                     } 
-                    else 
-                    {
-                        return Err(ShuntingYardError::UnclosedParenthesis.into())
-                    }
+                    queue.push(tokenize_with_context(op, context)?);
                 }
                 // the parenthesis closed a call if a function name preceded it
-                if stack.last().is_some_and(|f| matches!(context.get(*f), Some(Token::Func(_, _))))
+                if let Some((expected, found)) = call
                 {
-                    queue.push(tokenize_with_context(stack.pop().unwrap(), context)?);
+                    if expected != found
+                    {
+                        return Err(ShuntingYardError::ExpectedArg.into());
+                    }
+                    if let Some(func) = stack.pop()
+                    {
+                        queue.push(tokenize_with_context(func, context)?);
+                    }
                 }
                 unary_minus = false;
             },
@@ -192,6 +222,10 @@ fn rpnify(expr: &str, context: &ContextHashMap) -> anyhow::Result<Vec<Token>>
                     stack.push("*");
                     unary_minus = true;
                 } 
+                else if unary_minus
+                {
+                    return Err(ShuntingYardError::ExpectedArg.into());
+                }
                 else 
                 {
                     while let Some(o2) = stack.pop() 
@@ -213,6 +247,11 @@ fn rpnify(expr: &str, context: &ContextHashMap) -> anyhow::Result<Vec<Token>>
 
             other => {
 
+                if !unary_minus
+                {
+                    return Err(ShuntingYardError::LeftoverToken.into());
+                }
+
                 if let Ok(num) = other.parse::<f64>() 
                 {
                     queue.push(Token::Num(num));
@@ -231,7 +270,8 @@ fn rpnify(expr: &str, context: &ContextHashMap) -> anyhow::Result<Vec<Token>>
                             queue.push(Token::Var(Rc::clone(val)));
                             unary_minus = false;
                         }
-                        Token::Func(_, _) => {
+                        Token::Func(args, _) => {
+                            callee = Some(*args);
                             stack.push(word);
                             unary_minus = true;
                         },
@@ -244,6 +284,13 @@ fn rpnify(expr: &str, context: &ContextHashMap) -> anyhow::Result<Vec<Token>>
                 }
             },
         }   
+        prev = word;
+    }
+
+    // The last operand or the '(' of a call is missing
+    if callee.is_some() || (unary_minus && !queue.is_empty())
+    {
+        return Err(ShuntingYardError::ExpectedArg.into());
     }
     
     while let Some(tok) = stack.pop() 
-- 
2.43.0


From d8db5176451cccb79a51a9cda763f3949f47c451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:17 +0000
Subject: [PATCH 12/55] fix: tabs and line breaks separate the parts of an
 expression like blanks do

---
 geqslib/src/shunting.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geqslib/src/shunting.rs b/geqslib/src/shunting.rs
index 6208a56..ed0f1c4 100644
--- a/geqslib/src/shunting.rs
+++ b/geqslib/src/shunting.rs
@@ -127,7 +127,7 @@ fn tokenize_with_context(tok: &str, context: &ContextHashMap) -> anyhow::Result<
 fn rpnify(expr: &str, context: &ContextHashMap) -> anyhow::Result<Vec<Token>> 
 {
     let punctuated = punctuate(expr);
-    let words = punctuated.split(' ').filter(|c| !c.is_empty());
+    let words = punctuated.split_whitespace();
 
     let mut stack: Vec<&str> = Vec::new();
     let mut queue: Vec<Token> = Vec::new();
-- 
2.43.0


From 3eb6368ee304fadd597a35710c0cc38fbfad2d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:17 +0000
Subject: [PATCH 13/55] fix: both sides of an equation must be complete
 expressions

---
 geqslib/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geqslib/src/lib.rs b/geqslib/src/lib.rs
index 5e58539..061e952 100644
--- a/geqslib/src/lib.rs
+++ b/geqslib/src/lib.rs
@@ -35,7 +35,7 @@ pub (in crate) fn compile_equation_to_fn(equation: &str, ctx: &ContextHashMap) -
         _ => return Err(EquationSolverError::FoundMultipleEquations.into()),
     }
     
-    compile_to_fn(&format!("{} - ({})", sides[0], sides[1]), ctx)
+    compile_to_fn(&format!("({}) - ({})", sides[0], sides[1]), ctx)
 }
 
 /// An internal function for formatting an equation to an expression prior to tokenization 
@@ -61,7 +61,7 @@ pub (in crate) fn compile_equation_to_fn_of_hashmap(equation: &str, ctx: &mut Co
         ctx.add_var_with_domain_to_ctx(&var, 1.0, f64::NEG_INFINITY, f64::INFINITY);
     }
 
-    compile_to_fn_of_hashmap(&format!("{} - ({})", sides[0], sides[1]), ctx)
+    compile_to_fn_of_hashmap(&format!("({}) - ({})", sides[0], sides[1]), ctx)
 }
 
 /// Solves an equation given as a string for the SINGLE
-- 
2.43.0


From 6bbf769900f15d87cbbf8454d2ca2a70daf00888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:17 +0000
Subject: [PATCH 14/55] fix: names such as inf and nan are not numeric literals

---
 geqslib/src/shunting.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/geqslib/src/shunting.rs b/geqslib/src/shunting.rs
index ed0f1c4..ec30839 100644
--- a/geqslib/src/shunting.rs
+++ b/geqslib/src/shunting.rs
@@ -79,6 +79,16 @@ fn punctuate(expr: &str) -> String
     output.trim().to_owned()
 }
 
+/// Parses a numeric literal. Words that merely spell a float, like `inf` or `nan`, are names.
+fn parse_number(word: &str) -> Option<f64>
+{
+    if word.starts_with(|c: char| c.is_ascii_digit() || c == '.')
+    {
+        return word.parse::<f64>().ok();
+    }
+    None
+}
+
 /// Converts a substring to a `Token` enum for use in 
 /// a postfix evaluator algorithm.
 fn tokenize(tok: &str) -> anyhow::Result<Token> 
@@ -92,10 +102,10 @@ fn tokenize(tok: &str) -> anyhow::Result<Token>
         "+" => Token::Plus,
         "," => Token::Comma,
         "(" => Token::LeftParenthesis,
-        maybe_num => match maybe_num.parse::<f64>() 
+        maybe_num => match parse_number(maybe_num) 
         {
-            Ok(num) => Token::Num(num),
-            Err(_) => return Err(ShuntingYardError::UnknownToken.into()),
+            Some(num) => Token::Num(num),
+            None => return Err(ShuntingYardError::UnknownToken.into()),
         }
     };
     Ok(token)
@@ -252,7 +262,7 @@ fn rpnify(expr: &str, context: &ContextHashMap) -> anyhow::Result<Vec<Token>>
                     return Err(ShuntingYardError::LeftoverToken.into());
                 }
 
-                if let Ok(num) = other.parse::<f64>() 
+                if let Some(num) = parse_number(other) 
                 {
                     queue.push(Token::Num(num));
                     unary_minus = false;
-- 
2.43.0


From 4186e174d61bc8e7687b4b56d0667bff5e730d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:31 +0000
Subject: [PATCH 15/55] fix: numbers in scientific notation are read as one
 number

---
 geqslib/src/shunting.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/geqslib/src/shunting.rs b/geqslib/src/shunting.rs
index ec30839..e70a7e7 100644
--- a/geqslib/src/shunting.rs
+++ b/geqslib/src/shunting.rs
@@ -30,7 +30,7 @@ pub fn get_legal_variables_iter(text: &str) -> impl Iterator<Item = &str>
 {
     lazy_static! 
     {
-        static ref RE: Regex = Regex::new(r"(?i)[a-z][a-z0-9_]*").unwrap();
+        static ref RE: Regex = Regex::new(r"(?i)\b[a-z][a-z0-9_]*").unwrap();
     }
     RE.find_iter(text).map(|i| i.as_str())
 }
@@ -60,6 +60,17 @@ fn prec_check(o1: &str, o2: &str) -> bool
     check1 && (check2 || check3)
 }
 
+/// Whether `text` ends in the first part of a number in scientific notation, like `1.5e`.
+fn ends_in_exponent(text: &str) -> bool
+{
+    let word = text.rsplit(char::is_whitespace).next().unwrap_or("");
+    match word.strip_suffix(['e', 'E'])
+    {
+        Some(mantissa) => parse_number(mantissa).is_some(),
+        None => false,
+    }
+}
+
 /// Adds whitespace to help delimit tokens in an expression given as 
 /// a `&str`. 
 fn punctuate(expr: &str) -> String 
@@ -67,7 +78,11 @@ fn punctuate(expr: &str) -> String
     let mut output = String::new();
     for c in expr.chars() 
     {
-        if _OPERATORS_.contains(c) || c == ','
+        if (c == '-' || c == '+') && ends_in_exponent(&output)
+        {
+            output.push(c); // the sign belongs to a number like 1e-5
+        }
+        else if _OPERATORS_.contains(c) || c == ','
         {
             output += &format!(" {c} ");
         }
-- 
2.43.0


From 164d38cb36239d7ac36f9f672858327f69ff100e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:12 +0000
Subject: [PATCH 16/55] fix: newton_raphson accepted guesses whose next step is
 large and negative

---
 geqslib/src/newton.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geqslib/src/newton.rs b/geqslib/src/newton.rs
index 195bbae..8655159 100644
--- a/geqslib/src/newton.rs
+++ b/geqslib/src/newton.rs
@@ -48,7 +48,7 @@ where anyhow::Error: From<E>
     let delta = y / y_prime;
 
     // Check if we are sufficiently close to the solution:
-    if y.abs() <= margin && delta <= margin // ...in both the y AND x directions...
+    if y.abs() <= margin && delta.abs() <= margin // ...in both the y AND x directions...
     {
         return Ok(guess); // ...if so, exit early
     }
-- 
2.43.0


From b174dfe4b323335c9d4056941ed76a460646a928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:12 +0000
Subject: [PATCH 17/55] fix: multivariate_newton_raphson compared the squared
 error with the margin

---
 geqslib/src/newton.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geqslib/src/newton.rs b/geqslib/src/newton.rs
index 8655159..5f9737d 100644
--- a/geqslib/src/newton.rs
+++ b/geqslib/src/newton.rs
@@ -165,7 +165,8 @@ where
     }
     let error = y.iter()
         .map(|v| v.powi(2))
-        .sum::<f64>();
+        .sum::<f64>()
+        .sqrt();
 
     // Calculate change vector and its magnitude
     let deltas = jacobian * Matrix::from_col_vec(y);
-- 
2.43.0


From 8ccea16a3fe6abff283db8855dc447df38589820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:21 +0000
Subject: [PATCH 18/55] fix: solve_equation_with_context starts from the
 caller's guess

---
 geqslib/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geqslib/src/lib.rs b/geqslib/src/lib.rs
index 061e952..3595d9f 100644
--- a/geqslib/src/lib.rs
+++ b/geqslib/src/lib.rs
@@ -102,7 +102,7 @@ pub fn solve_equation_with_context(equation: &str, ctx: &mut ContextHashMap, gue
     ctx.add_var_with_domain_to_ctx(unknowns[0], guess, min, max);
     let f = compile_equation_to_fn(equation, ctx)?;
 
-    Ok((unknowns[0].to_owned(), newton_raphson(f, 1.0, margin, limit)?))
+    Ok((unknowns[0].to_owned(), newton_raphson(f, guess, margin, limit)?))
 }
 
 /// Solves an equation given as a string for a SINGLE unknown variable.
-- 
2.43.0


From 3ea3af67efdd6fc7a8512fe8d35a5351b610b75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:21 +0000
Subject: [PATCH 19/55] fix: solve_equation_with_context reports a value inside
 the declared domain

---
 geqslib/src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/geqslib/src/lib.rs b/geqslib/src/lib.rs
index 3595d9f..d0dfc27 100644
--- a/geqslib/src/lib.rs
+++ b/geqslib/src/lib.rs
@@ -22,6 +22,7 @@ use errors::EquationSolverError;
 use newton::newton_raphson;
 use shunting::{ContextHashMap, compile_to_fn, compile_to_fn_of_hashmap, get_legal_variables_iter, new_context};
 use system::get_equation_unknowns;
+use variable::Variable;
 
 /// An internal function for formatting a single-unknown equation to an expression prior to tokenization 
 pub (in crate) fn compile_equation_to_fn(equation: &str, ctx: &ContextHashMap) -> anyhow::Result<impl Fn(f64) -> anyhow::Result<f64>>
@@ -102,7 +103,13 @@ pub fn solve_equation_with_context(equation: &str, ctx: &mut ContextHashMap, gue
     ctx.add_var_with_domain_to_ctx(unknowns[0], guess, min, max);
     let f = compile_equation_to_fn(equation, ctx)?;
 
-    Ok((unknowns[0].to_owned(), newton_raphson(f, guess, margin, limit)?))
+    let root = newton_raphson(f, guess, margin, limit)?;
+
+    // The equation was evaluated with the root limited to the variable's domain
+    let mut soln = Variable::new(root, min, max);
+    soln.set(root);
+
+    Ok((unknowns[0].to_owned(), soln.into()))
 }
 
 /// Solves an equation given as a string for a SINGLE unknown variable.
-- 
2.43.0


From eea8ab0014ed6e6e4a1f8a2061fbb122158aa0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:21 +0000
Subject: [PATCH 20/55] fix: an equation that fails to compile leaves the
 system's context unchanged

---
 geqslib/src/system.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/geqslib/src/system.rs b/geqslib/src/system.rs
index 1e41440..4ccdbf5 100644
--- a/geqslib/src/system.rs
+++ b/geqslib/src/system.rs
@@ -136,9 +136,12 @@ impl SystemBuilder
         }        
 
         // Add the equation to the system, updating the context with any newly-added variables
+        // only once the equation is known to be valid
+        let mut context = self.context.clone();
         self.system_equations.push(
-            Box::new(compile_equation_to_fn_of_hashmap(equation, &mut self.context)?) 
+            Box::new(compile_equation_to_fn_of_hashmap(equation, &mut context)?) 
         );
+        self.context = context;
 
         // Add possible newly-found variable to the system
         if let Some(new_var) = unknowns.pop()
-- 
2.43.0


From f24d835c45b73e66e68027d0be0d10d48c373c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:21 +0000
Subject: [PATCH 21/55] fix: known variables of the context are not solved for
 by a system

---
 geqslib/src/system.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geqslib/src/system.rs b/geqslib/src/system.rs
index 4ccdbf5..74950ac 100644
--- a/geqslib/src/system.rs
+++ b/geqslib/src/system.rs
@@ -340,11 +340,11 @@ impl System
     pub fn solve(self, margin: f64, limit: usize) -> anyhow::Result<HashMap<String, f64>>
     {
         let mut guess = HashMap::new();
-        for (key, var) in self.context
+        for key in &self.system_vars
         {
-            match var
+            match &self.context[key]
             {
-                Token::Var(x) => guess.insert(key, (*x.borrow()).into()),
+                Token::Var(x) => guess.insert(key.to_owned(), (*x.borrow()).into()),
                 _ => continue,
             };
         }
-- 
2.43.0


From b8e9af8425d9117dd2890c2e2779449f33178155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:34 +0000
Subject: [PATCH 22/55] fix: System::solve reports values inside the declared
 domains

---
 geqslib/src/system.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/geqslib/src/system.rs b/geqslib/src/system.rs
index 74950ac..0a97f0b 100644
--- a/geqslib/src/system.rs
+++ b/geqslib/src/system.rs
@@ -356,7 +356,18 @@ impl System
             limit
         )?;
 
-        Ok(res.clone())
+        // The equations were evaluated with the variables limited to their domains
+        let mut soln = res.clone();
+        for (key, val) in soln.iter_mut()
+        {
+            if let Token::Var(x) = &self.context[key]
+            {
+                x.borrow_mut().set(*val);
+                *val = (*x.borrow()).into();
+            }
+        }
+
+        Ok(soln)
     }
 }
 
-- 
2.43.0


From 78f5c3f57024cf9439217ed1f2444103784fb000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:34 +0000
Subject: [PATCH 23/55] fix: a system can be solved when a later equation
 introduced a variable

---
 geqslib/src/lib.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/geqslib/src/lib.rs b/geqslib/src/lib.rs
index d0dfc27..771a045 100644
--- a/geqslib/src/lib.rs
+++ b/geqslib/src/lib.rs
@@ -62,7 +62,17 @@ pub (in crate) fn compile_equation_to_fn_of_hashmap(equation: &str, ctx: &mut Co
         ctx.add_var_with_domain_to_ctx(&var, 1.0, f64::NEG_INFINITY, f64::INFINITY);
     }
 
-    compile_to_fn_of_hashmap(&format!("({}) - ({})", sides[0], sides[1]), ctx)
+    let f = compile_to_fn_of_hashmap(&format!("({}) - ({})", sides[0], sides[1]), ctx)?;
+    let known = ctx.clone();
+
+    // Equations added to a system later may introduce variables that this one does not know
+    Ok(move |x: &HashMap<String, f64>| {
+        let args = x.iter()
+            .filter(|(var, _)| known.contains_key(*var))
+            .map(|(var, val)| (var.to_owned(), *val))
+            .collect();
+        f(&args)
+    })
 }
 
 /// Solves an equation given as a string for the SINGLE
-- 
2.43.0


From 3057980fbcae59e6ad8ba7ed4a2565a98739c773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:02 +0000
Subject: [PATCH 24/55] fix: solve_equation of the C interface freed the
 caller's context

---
 geqslib/src/ffi.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/geqslib/src/ffi.rs b/geqslib/src/ffi.rs
index 40e3d88..c8d0b03 100644
--- a/geqslib/src/ffi.rs
+++ b/geqslib/src/ffi.rs
@@ -1,6 +1,6 @@
 use std::ffi::{c_char, c_int, c_void, c_double, c_uint, CStr, CString};
 use std::panic::catch_unwind;
-use std::ptr::{null, copy_nonoverlapping};
+use std::ptr::null;
 
 use crate::shunting::{ContextHashMap, new_context, ContextLike};
 use crate::solve_equation_with_context;
@@ -57,8 +57,7 @@ pub extern "C" fn solve_equation(equation: *const c_char, context: *const c_void
     let res = catch_unwind(|| {
         let equation_str = unsafe { new_owned_string(equation) };
 
-        let mut ctx = ContextHashMap::new();
-        unsafe { copy_nonoverlapping(context as *const ContextHashMap, &mut ctx, 1) };
+        let mut ctx = unsafe { (*(context as *const ContextHashMap)).clone() };
 
         let (var, val) = match solve_equation_with_context(&equation_str, &mut ctx, guess, min, max, margin, limit as usize)
         {
-- 
2.43.0


From f0be1f0e5278268306ffe2ffd64ec0ad968ca1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:02 +0000
Subject: [PATCH 25/55] fix: specify_variable of the C interface reports
 unknown variables

---
 geqslib/src/ffi.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geqslib/src/ffi.rs b/geqslib/src/ffi.rs
index c8d0b03..cfa4067 100644
--- a/geqslib/src/ffi.rs
+++ b/geqslib/src/ffi.rs
@@ -192,14 +192,14 @@ pub extern "C" fn specify_variable(p_system: *mut c_void, var: *const c_char, gu
         unsafe
         {    
             let var_str = new_owned_string(var);
-            (*(p_system as *mut System)).specify_variable(&var_str, guess, min, max);
+            (*(p_system as *mut System)).specify_variable(&var_str, guess, min, max)
         }
     });
 
     match res
     {
-        Ok(_) => 1,
-        Err(_) => -1,
+        Ok(true) => 1,
+        _ => -1,
     }
 }
 
-- 
2.43.0


From cd90c2be9e1c17ed149b542f918b5d50f8b2233d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:02 +0000
Subject: [PATCH 26/55] fix: build_system of the C interface keeps the builder
 when there is nothing to build yet

---
 geqslib/src/ffi.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/geqslib/src/ffi.rs b/geqslib/src/ffi.rs
index cfa4067..2edc3f3 100644
--- a/geqslib/src/ffi.rs
+++ b/geqslib/src/ffi.rs
@@ -156,6 +156,12 @@ pub extern "C" fn is_fully_constrained(p_builder: *mut c_void) -> c_int
 pub extern "C" fn build_system(p_builder: *mut c_void) -> *const c_void
 {
     let res = catch_unwind(|| {
+        // Only take ownership of the builder if it can be turned into a system
+        if unsafe { !(*(p_builder as *mut SystemBuilder)).is_fully_constrained() }
+        {
+            return null();
+        }
+
         let builder = unsafe { Box::from_raw(p_builder as *mut SystemBuilder) };
         let system = match builder.build_system()
         {
-- 
2.43.0


From 375e752e2b243b4b9023b2454d9536ec54e0a58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:23 +0000
Subject: [PATCH 27/55] fix: a side of an equation cannot close the parentheses
 of the equation's own expression

---
 geqslib/src/lib.rs      |  7 +++++--
 geqslib/src/shunting.rs | 11 +++++++++++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/geqslib/src/lib.rs b/geqslib/src/lib.rs
index 771a045..b978dda 100644
--- a/geqslib/src/lib.rs
+++ b/geqslib/src/lib.rs
@@ -20,7 +20,7 @@ use std::collections::{HashMap, HashSet};
 use context::ContextLike;
 use errors::EquationSolverError;
 use newton::newton_raphson;
-use shunting::{ContextHashMap, compile_to_fn, compile_to_fn_of_hashmap, get_legal_variables_iter, new_context};
+use shunting::{ContextHashMap, check_expressions, compile_to_fn, compile_to_fn_of_hashmap, get_legal_variables_iter, new_context};
 use system::get_equation_unknowns;
 use variable::Variable;
 
@@ -36,7 +36,9 @@ pub (in crate) fn compile_equation_to_fn(equation: &str, ctx: &ContextHashMap) -
         _ => return Err(EquationSolverError::FoundMultipleEquations.into()),
     }
     
-    compile_to_fn(&format!("({}) - ({})", sides[0], sides[1]), ctx)
+    let f = compile_to_fn(&format!("({}) - ({})", sides[0], sides[1]), ctx)?;
+    check_expressions(&sides, ctx)?;
+    Ok(f)
 }
 
 /// An internal function for formatting an equation to an expression prior to tokenization 
@@ -63,6 +65,7 @@ pub (in crate) fn compile_equation_to_fn_of_hashmap(equation: &str, ctx: &mut Co
     }
 
     let f = compile_to_fn_of_hashmap(&format!("({}) - ({})", sides[0], sides[1]), ctx)?;
+    check_expressions(&sides, ctx)?;
     let known = ctx.clone();
 
     // Equations added to a system later may introduce variables that this one does not know
diff --git a/geqslib/src/shunting.rs b/geqslib/src/shunting.rs
index e70a7e7..f617546 100644
--- a/geqslib/src/shunting.rs
+++ b/geqslib/src/shunting.rs
@@ -330,6 +330,17 @@ fn rpnify(expr: &str, context: &ContextHashMap) -> anyhow::Result<Vec<Token>>
     Ok(queue)
 }
 
+/// Checks that each of the given strings is an expression by itself, so that no parenthesis
+/// of one is closed by another when they are put together.
+pub (in crate) fn check_expressions(exprs: &[&str], context: &ContextHashMap) -> anyhow::Result<()>
+{
+    for expr in exprs
+    {
+        rpnify(expr, context)?;
+    }
+    Ok(())
+}
+
 /// 'Compiles' a `&str` expression to a function that takes a hashmap as an argument.
 /// 
 /// Under the hood, this rearranges the string expression to a token stack **once** 
-- 
2.43.0


From 62cda36f935111dabdf9436eafea91c6440a68dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:53 +0000
Subject: [PATCH 28/55] fix: cubes of length units have the cube of the unit's
 size

---
 nexsys/src/units/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nexsys/src/units/mod.rs b/nexsys/src/units/mod.rs
index ddbc04e..b09636b 100644
--- a/nexsys/src/units/mod.rs
+++ b/nexsys/src/units/mod.rs
@@ -61,7 +61,7 @@ fn generate_volume_units(mut data:HashMap<String, HashMap<String, f64>>) -> Hash
     let mut temp = HashMap::new();
     
     for i in &data[&"LENGTH".to_string()] {
-        temp.insert( format!("{}^3", i.0), *i.1 * *i.1);    
+        temp.insert( format!("{}^3", i.0), *i.1 * *i.1 * *i.1);    
     }
 
     if let Some(d) = data.get_mut("VOLUME") {
-- 
2.43.0


From 1dcafd1571f6c406be5225c169722ad1adcc2c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:53 +0000
Subject: [PATCH 29/55] fix: basic_solve can solve a second equation in one
 unknown

---
 nexsys/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nexsys/src/lib.rs b/nexsys/src/lib.rs
index dfcd9a8..4a35d1f 100644
--- a/nexsys/src/lib.rs
+++ b/nexsys/src/lib.rs
@@ -38,7 +38,8 @@ fn try_solve_single_unknown_eqn(eqn_pool: &mut Vec<String>, ctx: &mut ContextHas
         }
 
         let soln = solve_equation_with_context(equation, ctx, var_info[0], var_info[1], var_info[2], margin, limit)?;
-        ctx.add_var_with_domain_to_ctx(&soln.0, soln.1, var_info[1], var_info[2]);
+        // Solved variables are known from here on (an equation can only be solved with one variable in the context)
+        ctx.add_const_to_ctx(&soln.0, soln.1);
         *log_step = format!(
             "Var: {:#?} \nEquation: {}", 
             soln.0, equation
-- 
2.43.0


From 6f0a5a424bbd718986674e60e0ab86df3768c446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:53 +0000
Subject: [PATCH 30/55] fix: equations in one unknown are found wherever they
 are in the system

---
 nexsys/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nexsys/src/lib.rs b/nexsys/src/lib.rs
index 4a35d1f..8f99eff 100644
--- a/nexsys/src/lib.rs
+++ b/nexsys/src/lib.rs
@@ -24,7 +24,7 @@ fn try_solve_single_unknown_eqn(eqn_pool: &mut Vec<String>, ctx: &mut ContextHas
         let unknowns: Vec<&str> = get_equation_unknowns(&equation, ctx).collect();
         if unknowns.len() != 1
         {
-            return Ok(false);
+            continue;
         }
 
         let var_info: [f64; 3];
-- 
2.43.0


From 5b3af8690f26ab20979c204406c12885592b9e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:53 +0000
Subject: [PATCH 31/55] fix: subsystems are found in whichever order their
 equations are given

---
 nexsys/src/lib.rs | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/nexsys/src/lib.rs b/nexsys/src/lib.rs
index 8f99eff..8c0b390 100644
--- a/nexsys/src/lib.rs
+++ b/nexsys/src/lib.rs
@@ -57,25 +57,32 @@ fn try_solve_subsystem_of_equations(eqn_pool: &mut Vec<String>, ctx: &mut Contex
         let mut builder = SystemBuilder::new(equation, ctx.clone())?;
         let mut eqn_strings = vec![equation.to_owned()];
 
-        for (j, equation) in eqn_pool.iter().enumerate()
+        // An equation may only become useful once later ones have been added
+        let mut still_learning = true;
+        while still_learning
         {
-            // Skip the current equation we're building a system with 
-            // OR an equation that we've already added to the system
-            if j == i || eqn_strings.contains(equation)
+            still_learning = false;
+            for (j, equation) in eqn_pool.iter().enumerate()
             {
-                continue;
-            }
-
-            // println!("Constraint status: {}", builder.is_fully_constrained());
-
-            match builder.try_constrain_with(equation)?
-            {
-                ConstrainResult::WillConstrain => {
-                    eqn_strings.push(equation.to_owned());
-                    // println!("constrained with: {}", equation);
-                },
-                ConstrainResult::WillOverConstrain => break,
-                _ => {}
+                // Skip the current equation we're building a system with 
+                // OR an equation that we've already added to the system
+                if j == i || eqn_strings.contains(equation)
+                {
+                    continue;
+                }
+
+                // println!("Constraint status: {}", builder.is_fully_constrained());
+
+                match builder.try_constrain_with(equation)?
+                {
+                    ConstrainResult::WillConstrain => {
+                        eqn_strings.push(equation.to_owned());
+                        still_learning = true;
+                        // println!("constrained with: {}", equation);
+                    },
+                    ConstrainResult::WillOverConstrain => break,
+                    _ => {}
+                }
             }
         }
             
-- 
2.43.0


From 3086e6f6d12f947362c9a190b55f3fc629183cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:23 +0000
Subject: [PATCH 32/55] fix: a short comment no longer removes the comment
 marker of longer ones

---
 nexsys/src/parsing/mod.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/nexsys/src/parsing/mod.rs b/nexsys/src/parsing/mod.rs
index a8087d9..114fd9d 100644
--- a/nexsys/src/parsing/mod.rs
+++ b/nexsys/src/parsing/mod.rs
@@ -74,14 +74,7 @@ pub fn comments(text: &str) -> String
     {
         static ref RE: Regex = nexsys_regex(r"//[^\n]*");
     }
-    let mut output = text.to_string();
-
-    for f in RE.find_iter(text).map(|i| i.as_str()) 
-    {
-        output = output.replace(f, "");
-    }
-
-    output
+    RE.replace_all(text, "").into_owned()
 }
 
 /// Identifies and replaces any unit conversion tokens in a Nexsys-legal string.
-- 
2.43.0


From 658355056a0d4f2bfaeb1413d3013fdae4d46be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:23 +0000
Subject: [PATCH 33/55] fix: constants are replaced by their whole name, which
 may contain digits

---
 nexsys/src/parsing/mod.rs | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/nexsys/src/parsing/mod.rs b/nexsys/src/parsing/mod.rs
index 114fd9d..4399072 100644
--- a/nexsys/src/parsing/mod.rs
+++ b/nexsys/src/parsing/mod.rs
@@ -3,7 +3,7 @@ mod conditionals;
 
 use geqslib::shunting::{eval_str, ContextHashMap, ContextLike};
 use lazy_static::lazy_static;
-use regex::Regex;
+use regex::{Captures, Regex};
 use std::collections::HashMap;
 use crate::{units::{convert, const_data}, errors::ConstFormatError};
 
@@ -107,24 +107,15 @@ pub fn consts(text: &str) -> anyhow::Result<String>
 {
     lazy_static! 
     {
-        static ref RE: Regex = nexsys_regex(r"(?i)#[a-z_]+");
+        static ref RE: Regex = nexsys_regex(r"(?i)#[a-z_][a-z0-9_]*");
         static ref CONSTS: HashMap<String, f64> = const_data();
     }
 
-    let mut output = text.to_string();
-
-    for m in RE.find_iter(text).map(|i| i.as_str()) 
+    if RE.find_iter(text).any(|m| !CONSTS.contains_key(m.as_str()))
     {
-        if let Some(c) = CONSTS.get(&m.to_string()) 
-        {
-            output = output.replace(m, &c.to_string());
-        } 
-        else 
-        {
-            return Err(ConstFormatError.into())
-        }
+        return Err(ConstFormatError.into())
     }
-    Ok(output)
+    Ok(RE.replace_all(text, |m: &Captures| CONSTS[&m[0]].to_string()).into_owned())
 }
 
 pub fn const_values(text: &str) -> anyhow::Result<(String, HashMap<String, f64>)>
-- 
2.43.0


From 5010d0b906b248969f45cfa29ba6e68daa3f630f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:23 +0000
Subject: [PATCH 34/55] fix: declarations may have a blank after the sign and
 are removed without touching longer ones

---
 nexsys/src/parsing/mod.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/nexsys/src/parsing/mod.rs b/nexsys/src/parsing/mod.rs
index 4399072..d36fcce 100644
--- a/nexsys/src/parsing/mod.rs
+++ b/nexsys/src/parsing/mod.rs
@@ -28,15 +28,14 @@ pub fn guess_values(text: &str) -> (String, HashMap<String, f64>)
     {
         static ref RE: Regex = nexsys_regex(r"(?i)guess +(@N) +for +(@V)");
     }
-    let mut res = (text.to_owned(), HashMap::new());
+    let mut res = (RE.replace_all(text, "").into_owned(), HashMap::new());
     let guesses = RE.captures_iter(text);
 
     for g in guesses 
     {
-        res.0 = res.0.replace(g.get(0).unwrap().as_str(), "");
         res.1.insert(
             g.get(2).unwrap().as_str().to_owned(), 
-            g.get(1).unwrap().as_str().parse()
+            g.get(1).unwrap().as_str().replace(' ', "").parse()
                 .expect("failed to parse number in guess declaration")
         );
     }
@@ -50,17 +49,16 @@ pub fn domains(text: &str) -> (String, HashMap<String, [f64; 2]>)
     {
         static ref RE: Regex = nexsys_regex(r"(?i)keep +(@V) +on +\[ *(@N), *(@N) *\]");
     }
-    let mut res = (text.to_owned(), HashMap::new());
+    let mut res = (RE.replace_all(text, "").into_owned(), HashMap::new());
     let domains = RE.captures_iter(text);
 
     for d in domains 
     {
-        res.0 = res.0.replace(d.get(0).unwrap().as_str(), "");
         res.1.insert(
             d.get(1).unwrap().as_str().to_owned(),
-            [d.get(2).unwrap().as_str().parse()
+            [d.get(2).unwrap().as_str().replace(' ', "").parse()
                 .expect("failed to parse first number in domain declaration"),
-            d.get(3).unwrap().as_str().parse()
+            d.get(3).unwrap().as_str().replace(' ', "").parse()
                 .expect("failed to parse second number in domain declaration")]
         );
     }
@@ -124,12 +122,11 @@ pub fn const_values(text: &str) -> anyhow::Result<(String, HashMap<String, f64>)
     {
         static ref RE: Regex = nexsys_regex(r"(?i)const +(@V) *= *(@N)");
     }
-    let mut res = (text.to_owned(), HashMap::new());
+    let mut res = (RE.replace_all(text, "").into_owned(), HashMap::new());
     let const_vals = RE.captures_iter(text);
 
     for c in const_vals
     {
-        res.0 = res.0.replace(c.get(0).unwrap().as_str(), "");
         res.1.insert(
             c.get(1).unwrap().as_str().to_owned(), 
             eval_str(c.get(2).unwrap().as_str())?
-- 
2.43.0


From 4d162ef007e969c60123f2338485838bdfa15b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:23 +0000
Subject: [PATCH 35/55] fix: constants are declared with all of the value that
 is written

---
 nexsys/src/parsing/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nexsys/src/parsing/mod.rs b/nexsys/src/parsing/mod.rs
index d36fcce..a8d8efb 100644
--- a/nexsys/src/parsing/mod.rs
+++ b/nexsys/src/parsing/mod.rs
@@ -10,7 +10,7 @@ use crate::{units::{convert, const_data}, errors::ConstFormatError};
 pub use conditionals::*;
 
 const LEGAL_VAR_PATTERN: &str = r"[a-z][a-z0-9_]*";
-const LEGAL_NUM_PATTERN: &str = r"-? ?[0-9]+\.?[0-9]*";
+const LEGAL_NUM_PATTERN: &str = r"-? ?[0-9]+\.?[0-9]*(?:e[+-]?[0-9]+)?";
 
 /// Replaces `"@N"` and `"@V"` literals with the nexsys-legal number and variable patterns, respectively.
 fn nexsys_regex(pattern: &str) -> Regex
@@ -120,7 +120,7 @@ pub fn const_values(text: &str) -> anyhow::Result<(String, HashMap<String, f64>)
 {
     lazy_static!
     {
-        static ref RE: Regex = nexsys_regex(r"(?i)const +(@V) *= *(@N)");
+        static ref RE: Regex = nexsys_regex(r"(?i)const +(@V) *= *([^\n]+)");
     }
     let mut res = (RE.replace_all(text, "").into_owned(), HashMap::new());
     let const_vals = RE.captures_iter(text);
-- 
2.43.0


From ccd400823e51d53bf0669692f006ba73e7722b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:30 +0000
Subject: [PATCH 36/55] fix: conditional statements keep names that contain if,
 else or end and reject unknown comparisons

---
 nexsys/src/parsing/conditionals.rs | 65 +++++++++++++++---------------
 1 file changed, 32 insertions(+), 33 deletions(-)

diff --git a/nexsys/src/parsing/conditionals.rs b/nexsys/src/parsing/conditionals.rs
index 95fd7ba..f2872c8 100644
--- a/nexsys/src/parsing/conditionals.rs
+++ b/nexsys/src/parsing/conditionals.rs
@@ -13,42 +13,38 @@ macro_rules! contains_any {
 /// This function returns an `Err` if an invalid conditional operator is found in `cndl`.
 pub (in crate) fn format_conditional(cndl: &str) -> anyhow::Result<String> {
 
-    let mut args = cndl.replace("if ",  "if(")  // make start of function call
-    .replace([' ', '\n'], "")   // strip whitespace
-    .replace(':',   ",")        // delimit arguments
-    .replace("else", "")        // (ditto)
-    .replace("end", ")");       // close function call
-
-    //if(a<b,a-b=1,b-a=1)
-    // println!("SUBBED TOKENS: {}", args);
-
-    if !(contains_any!(args, "==", "<=", ">=", "<", ">", "!=")) {
+    // The rows are the condition, the first branch, `else:`, the second branch and `end`
+    let rows: Vec<String> = cndl.split('\n')
+        .map(|row| row.replace([' ', '\t', '\r'], "")) // strip whitespace
+        .collect();
+
+    let cond = match (rows.len(), rows[0].strip_prefix("if").and_then(|row| row.strip_suffix(':')))
+    {
+        (5, Some(cond)) => cond,
+        _ => return Err(ConditionFormatError::ConditionalSyntax.into()),
+    };
+
+    if !(contains_any!(cond, "==", "<=", ">=", "<", ">", "!=")) {
         return Err(ConditionFormatError::ConditionalSyntax.into())
     }
 
     // replace conditional sign with f64 code number
-    if args.contains("==") {args = args.replace("==", ",1.0,");} 
-    if args.contains("<=") {args = args.replace("<=", ",2.0,");} 
-    if args.contains(">=") {args = args.replace(">=", ",3.0,");} 
-    if args.contains('<') {
-
-        if args.contains("=<") {
-            return Err(ConditionFormatError::Comparator.into())
-        }
-
-        args = args.replace('<',  ",4.0,");
-        
-    } 
-    if args.contains('>') {
-        
-        if args.contains("=>") {
-            return Err(ConditionFormatError::Comparator.into())
-        }
-
-        args = args.replace('>',  ",5.0,");
-                
-    } 
-    if args.contains("!=") {args = args.replace("!=", ",6.0,");}
+    let is_sign = |c: char| "<>=!".contains(c);
+    let start = cond.find(is_sign).unwrap();
+    let end = start + cond[start..].find(|c| !is_sign(c)).unwrap_or(cond.len() - start);
+    let code = match &cond[start..end]
+    {
+        "==" => "1.0",
+        "<=" => "2.0",
+        ">=" => "3.0",
+        "<"  => "4.0",
+        ">"  => "5.0",
+        "!=" => "6.0",
+        _    => return Err(ConditionFormatError::Comparator.into()),
+    };
+
+    //if(a,4.0,b,a-b,b-a)
+    let args = format!("if({},{},{},{},{})", &cond[..start], code, &cond[end..], rows[1], rows[3]);
 
     // println!("FINAL: {}", args);
     // Conditional statement reformatted as function call
@@ -60,7 +56,7 @@ pub (in crate) fn format_conditional(cndl: &str) -> anyhow::Result<String> {
 pub fn conditionals(text: &str) -> anyhow::Result<String> {
     lazy_static!{
         static ref RE: Regex = nexsys_regex(            
-r#"(?m)^[ \t]*if [^<>=]+[<>=]{1,2}[^<>=]+:$
+r#"(?m)^[ \t]*if [^<>=\n]+[<>=]{1,2}[^<>=\n]+:$
 ^.*$
 ^[ \t]*else:$
 ^.*$
@@ -87,6 +83,9 @@ r#"(?m)^[ \t]*if [^<>=]+[<>=]{1,2}[^<>=]+:$
             for r in [1,3] {
                 if rows[r].contains('=') {
                     let terms = rows[r].split('=').collect::<Vec<&str>>();
+                    if terms.len() != 2 {
+                        return Err(ConditionFormatError::ConditionalSyntax.into())
+                    }
                     if terms[1].replace(' ',"") == 0.to_string() {
                         rows[r] = terms[0].to_string();
                     } else {
-- 
2.43.0


From c795221c14ce1efd4e1cef8542d9e341c8533d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:30 +0000
Subject: [PATCH 37/55] hook: nexsys feature verif_hooks lets a harness supply
 the unit tables

---
 nexsys/Cargo.toml       |  1 +
 nexsys/src/units/mod.rs | 15 +++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/nexsys/Cargo.toml b/nexsys/Cargo.toml
index 45dcf2d..89a298f 100644
--- a/nexsys/Cargo.toml
+++ b/nexsys/Cargo.toml
@@ -13,6 +13,7 @@ name = "parsers"
 path = "tests/parsers.rs"
 
 [features]
+verif_hooks = [] # lets a verification harness replace the tables of units
 
 [[bin]]
 name = "nxc"
diff --git a/nexsys/src/units/mod.rs b/nexsys/src/units/mod.rs
index b09636b..93c9da4 100644
--- a/nexsys/src/units/mod.rs
+++ b/nexsys/src/units/mod.rs
@@ -71,9 +71,24 @@ fn generate_volume_units(mut data:HashMap<String, HashMap<String, f64>>) -> Hash
     data
 }
 
+/// Verification hook: lets a harness supply the tables of base units.
+#[cfg(feature = "verif_hooks")]
+pub mod verif_hooks {
+    use std::{cell::RefCell, collections::HashMap};
+
+    thread_local! {
+        pub static RAW_UNITS: RefCell<Option<HashMap<String, HashMap<String, f64>>>> = RefCell::new(None);
+    }
+}
+
 /// Returns the data contained in units.json as a `HashMap`, allowing for easier access to this data in Rust.
 pub fn raw_unit_data() -> HashMap<String, HashMap<String, f64>> {
 
+    #[cfg(feature = "verif_hooks")]
+    if let Some(data) = verif_hooks::RAW_UNITS.with(|units| units.borrow().clone()) {
+        return data;
+    }
+
     let raw_text = include_str!("units.json");
     let err = "failed to parse json... is the formatting of 'units.json' correct?";
     
-- 
2.43.0


From 274fbfdd2c178e3097bd0b1e299d45a50195b1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 38/55] fix: a source that drives its input puts it below its
 output

---
 neapolitan/src/dc_circuits.rs   | 2 +-
 neapolitan/src/heat_transfer.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/neapolitan/src/dc_circuits.rs b/neapolitan/src/dc_circuits.rs
index 25c65a5..d31ad85 100644
--- a/neapolitan/src/dc_circuits.rs
+++ b/neapolitan/src/dc_circuits.rs
@@ -54,7 +54,7 @@ pub fn voltage_source(
     else // driving input_node node:
     {
         lock_node(&input_node)?;
-        set_node_potential(&input_node, (get_node_potential(&output_node)? + col_vec![voltage[0]]).into())?;
+        set_node_potential(&input_node, (get_node_potential(&output_node)? - col_vec![voltage[0]]).into())?;
     }
 
     // If we're driving the output node, we need to make the input node aware of this element.
diff --git a/neapolitan/src/heat_transfer.rs b/neapolitan/src/heat_transfer.rs
index c7a811a..91fe3bf 100644
--- a/neapolitan/src/heat_transfer.rs
+++ b/neapolitan/src/heat_transfer.rs
@@ -115,7 +115,7 @@ pub fn temperature_delta(
     else // driving input_node node:
     {
         lock_node(&input_node)?;
-        set_node_potential(&input_node, (get_node_potential(&output_node)? + col_vec![temp_delta[0]]).into())?;
+        set_node_potential(&input_node, (get_node_potential(&output_node)? - col_vec![temp_delta[0]]).into())?;
     }
 
     // If we're driving the output node, we need to make the input node aware of this element.
-- 
2.43.0


From 742ab55da8af21587f2403d471fa175c8df31d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 39/55] fix: the flux of a source that drives its input
 balances that node

---
 neapolitan/src/flux_formulas.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neapolitan/src/flux_formulas.rs b/neapolitan/src/flux_formulas.rs
index 3ac3fe8..e0b06dc 100644
--- a/neapolitan/src/flux_formulas.rs
+++ b/neapolitan/src/flux_formulas.rs
@@ -55,7 +55,11 @@ pub fn observe_flux(
     let mut discrepancy = sub_ref.try_borrow()?
         .get_flux_discrepancy()?;
 
-    discrepancy.inplace_scale(-1.0);
+    // The flux enters the output node, but leaves the input node
+    if drives_output
+    {
+        discrepancy.inplace_scale(-1.0);
+    }
 
     Ok(discrepancy)
 }
-- 
2.43.0


From 86d08d88439792625effecf0bc5c9d124cacefb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:09 +0000
Subject: [PATCH 40/55] fix: potentials of driven nodes follow the nodes that
 drive them, loops of sources are refused

---
 neapolitan/src/dc_circuits.rs    |  8 ++---
 neapolitan/src/heat_transfer.rs  |  8 ++---
 neapolitan/src/lib.rs            | 52 +++++++++++++++++++++++++++++++-
 neapolitan/src/modelling/node.rs |  5 ++-
 4 files changed, 61 insertions(+), 12 deletions(-)

diff --git a/neapolitan/src/dc_circuits.rs b/neapolitan/src/dc_circuits.rs
index d31ad85..4b2ef53 100644
--- a/neapolitan/src/dc_circuits.rs
+++ b/neapolitan/src/dc_circuits.rs
@@ -7,7 +7,7 @@ use gmatlib::{col_vec, Matrix};
 
 // Local modules
 use crate::errors::ElementCreationError;
-use crate::{flux_formulas::*, get_node_potential, is_locked, lock_node, set_node_potential};
+use crate::{flux_formulas::*, drive_node, is_locked};
 use crate::{GenericElement, GenericNode};
 
 pub const DC_CIRCUIT: &str = "dc_circuit";
@@ -48,13 +48,11 @@ pub fn voltage_source(
     // Remove the appropriate DOF
     if drives_output
     {
-        lock_node(&output_node)?;
-        set_node_potential(&output_node, (get_node_potential(&input_node)? + col_vec![voltage[0]]).into())?;
+        drive_node(&output_node, &input_node, col_vec![voltage[0]])?;
     }
     else // driving input_node node:
     {
-        lock_node(&input_node)?;
-        set_node_potential(&input_node, (get_node_potential(&output_node)? - col_vec![voltage[0]]).into())?;
+        drive_node(&input_node, &output_node, col_vec![-voltage[0]])?;
     }
 
     // If we're driving the output node, we need to make the input node aware of this element.
diff --git a/neapolitan/src/heat_transfer.rs b/neapolitan/src/heat_transfer.rs
index 91fe3bf..c5dee5a 100644
--- a/neapolitan/src/heat_transfer.rs
+++ b/neapolitan/src/heat_transfer.rs
@@ -8,7 +8,7 @@ use thiserror::Error;
 
 use crate::errors::ElementCreationError;
 // Local modules
-use crate::{flux_formulas::*, get_node_potential, is_locked, lock_node, set_node_potential};
+use crate::{flux_formulas::*, drive_node, is_locked};
 use crate::{GenericElement, GenericNode};
 
 #[derive(Debug, Error)]
@@ -109,13 +109,11 @@ pub fn temperature_delta(
     // Remove the appropriate DOF
     if drives_output
     {
-        lock_node(&output_node)?;
-        set_node_potential(&output_node, (get_node_potential(&input_node)? + col_vec![temp_delta[0]]).into())?;
+        drive_node(&output_node, &input_node, col_vec![temp_delta[0]])?;
     }
     else // driving input_node node:
     {
-        lock_node(&input_node)?;
-        set_node_potential(&input_node, (get_node_potential(&output_node)? - col_vec![temp_delta[0]]).into())?;
+        drive_node(&input_node, &output_node, col_vec![-temp_delta[0]])?;
     }
 
     // If we're driving the output node, we need to make the input node aware of this element.
diff --git a/neapolitan/src/lib.rs b/neapolitan/src/lib.rs
index 222c295..aaadad4 100644
--- a/neapolitan/src/lib.rs
+++ b/neapolitan/src/lib.rs
@@ -37,7 +37,7 @@ use geqslib::newton::multivariate_newton_raphson;
 pub type Matrix<T> = gmatlib::Matrix<T>;
 
 // Local modules
-use errors::{DroppedNodeError, NodalAnalysisConfigurationError, NodalAnalysisModellingError};
+use errors::{DroppedNodeError, ElementCreationError, NodalAnalysisConfigurationError, NodalAnalysisModellingError};
 use modelling::element::{ElementConstructor, GenericElement};
 use modelling::node::GenericNode;
 use serde_json::to_string_pretty;
@@ -246,6 +246,7 @@ impl NodalAnalysisStudyBuilder
                     inputs: vec![],
                     outputs: vec![],
                     is_locked: false,
+                    driver: None,
                     _metadata: None,
                 }))
             );
@@ -296,6 +297,11 @@ impl NodalAnalysisStudyBuilder
                             .potential[(component as usize, 0)] = val;
                     }
 
+                    for node in &local_nodes
+                    {
+                        follow_driver(node)?;
+                    }
+
                     let flux_discrepancy = local_nodes[node_idx]
                         .try_borrow()?
                         .get_flux_discrepancy()?;
@@ -314,6 +320,11 @@ impl NodalAnalysisStudyBuilder
             node.potential[(idx.component as usize, 0)] = *component;
         }
 
+        for node in &nodes
+        {
+            follow_driver(node)?;
+        }
+
         // Step 6 - gather results
         let mut result = NodalAnalysisStudyResult 
         { 
@@ -407,3 +418,42 @@ pub fn set_node_potential(node_ref: &Weak<RefCell<GenericNode>>, potential: Vec<
         Err(DroppedNodeError.into())
     }
 }
+
+/// Locks a node and makes its potential follow that of the driving node, which it exceeds by `delta`.
+pub (in crate) fn drive_node(node_ref: &Weak<RefCell<GenericNode>>, driver_ref: &Weak<RefCell<GenericNode>>, delta: Matrix<f64>) -> anyhow::Result<()>
+{
+    let node = node_ref.upgrade().ok_or(DroppedNodeError)?;
+
+    // A node cannot determine its own potential, whether at once or by way of other driven nodes
+    let mut next = Some(Weak::clone(driver_ref));
+    while let Some(driver_ref) = next
+    {
+        let driver = driver_ref.upgrade().ok_or(DroppedNodeError)?;
+        if Rc::ptr_eq(&driver, &node)
+        {
+            return Err(ElementCreationError.into());
+        }
+        next = driver.try_borrow()?
+            .driver
+            .as_ref()
+            .map(|(driver_ref, _)| Weak::clone(driver_ref));
+    }
+
+    node.try_borrow_mut()?.driver = Some((Weak::clone(driver_ref), delta));
+    lock_node(node_ref)?;
+    follow_driver(&node)
+}
+
+/// Brings the potential of a driven node up to date with that of the node that drives it.
+fn follow_driver(node: &Rc<RefCell<GenericNode>>) -> anyhow::Result<()>
+{
+    let driver = node.try_borrow()?.driver.clone();
+    if let Some((driver_ref, delta)) = driver
+    {
+        let driver = driver_ref.upgrade().ok_or(DroppedNodeError)?;
+        follow_driver(&driver)?;
+        let potential = &(driver.try_borrow()?.potential) + &delta;
+        node.try_borrow_mut()?.potential = potential;
+    }
+    Ok(())
+}
diff --git a/neapolitan/src/modelling/node.rs b/neapolitan/src/modelling/node.rs
index 3294503..d953347 100644
--- a/neapolitan/src/modelling/node.rs
+++ b/neapolitan/src/modelling/node.rs
@@ -1,7 +1,7 @@
 /// Std modules
 use std::cell::RefCell;
 use std::collections::HashMap;
-use std::rc::Rc;
+use std::rc::{Rc, Weak};
 
 /// 3rd party modules
 use gmatlib::col_vec;
@@ -34,6 +34,8 @@ pub struct GenericNode
     pub (in crate) inputs: Vec<Rc<GenericElement>>,
     pub (in crate) outputs: Vec<Rc<GenericElement>>,
     pub (in crate) is_locked: bool,
+    /// The node whose potential determines that of this one, and how far this one is above it
+    pub (in crate) driver: Option<(Weak<RefCell<GenericNode>>, Matrix<f64>)>,
     pub (in crate) _metadata: Option<HashMap<String, f64>>, 
 }
 impl GenericNode
@@ -47,6 +49,7 @@ impl GenericNode
             inputs: vec![],
             outputs: vec![],
             is_locked: false,
+            driver: None,
             _metadata: None,
         }))
     }
-- 
2.43.0


From 581898f694cb247be942ec3b597b70a1cd1c281b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:57 +0000
Subject: [PATCH 41/55] fix: studies of invalid models are errors instead of
 panics

---
 neapolitan/src/dc_circuits.rs   | 25 +++++++++++++++++-----
 neapolitan/src/errors.rs        |  8 +++++++
 neapolitan/src/heat_transfer.rs | 20 +++++++++++++-----
 neapolitan/src/lib.rs           | 37 ++++++++++++++++++++++++---------
 4 files changed, 70 insertions(+), 20 deletions(-)

diff --git a/neapolitan/src/dc_circuits.rs b/neapolitan/src/dc_circuits.rs
index 4b2ef53..69a95f3 100644
--- a/neapolitan/src/dc_circuits.rs
+++ b/neapolitan/src/dc_circuits.rs
@@ -3,11 +3,11 @@ use std::rc::{Rc, Weak};
 use std::cell::RefCell;
 
 // 3rd party modules
-use gmatlib::{col_vec, Matrix};
+use gmatlib::Matrix;
 
 // Local modules
-use crate::errors::ElementCreationError;
-use crate::{flux_formulas::*, drive_node, is_locked};
+use crate::errors::{ElementCreationError, ElementGainError};
+use crate::{flux_formulas::*, drive_node, get_node_potential, is_locked};
 use crate::{GenericElement, GenericNode};
 
 pub const DC_CIRCUIT: &str = "dc_circuit";
@@ -21,6 +21,11 @@ pub fn resistor(
     resistance: Vec<f64>,
 ) -> anyhow::Result<Rc<GenericElement>>
 {
+    if resistance.is_empty()
+    {
+        return Err(ElementGainError.into());
+    }
+
     GenericElement::try_new(
         vec![1.0 / resistance[0]],  // Conductance (gain) is reciprocal of resistance in ohms
         input_node, output_node,    // Input and output_node nodes
@@ -36,6 +41,11 @@ pub fn voltage_source(
     voltage: Vec<f64>,
 ) -> anyhow::Result<Rc<GenericElement>>
 {
+    if voltage.len() != get_node_potential(&input_node)?.get_rows()
+    {
+        return Err(ElementGainError.into());
+    }
+
     // Abort if we cannot remove a DOF from the problem
     if is_locked(&output_node)? && is_locked(&input_node)?
     {
@@ -48,11 +58,11 @@ pub fn voltage_source(
     // Remove the appropriate DOF
     if drives_output
     {
-        drive_node(&output_node, &input_node, col_vec![voltage[0]])?;
+        drive_node(&output_node, &input_node, Matrix::from_col_vec(voltage.clone()))?;
     }
     else // driving input_node node:
     {
-        drive_node(&input_node, &output_node, col_vec![-voltage[0]])?;
+        drive_node(&input_node, &output_node, Matrix::from_col_vec(voltage.iter().map(|v| -v).collect()))?;
     }
 
     // If we're driving the output node, we need to make the input node aware of this element.
@@ -77,6 +87,11 @@ pub fn current_source(
     current: Vec<f64>,
 ) -> anyhow::Result<Rc<GenericElement>>
 {
+    if current.len() != get_node_potential(&input_node)?.get_rows()
+    {
+        return Err(ElementGainError.into());
+    }
+
     GenericElement::try_new(
         current,
         input_node, output_node,
diff --git a/neapolitan/src/errors.rs b/neapolitan/src/errors.rs
index 6e6f2dd..6ba745a 100644
--- a/neapolitan/src/errors.rs
+++ b/neapolitan/src/errors.rs
@@ -5,6 +5,10 @@ use thiserror::Error;
 #[error("the element could not be created because both its input and output nodes were already locked.")]
 pub struct ElementCreationError;
 
+#[derive(Debug, Error)]
+#[error("the element could not be created because its gain does not have the number of components that it needs")]
+pub struct ElementGainError;
+
 #[derive(Debug, Error)]
 pub enum EquationGenerationError
 {
@@ -41,4 +45,8 @@ pub enum NodalAnalysisModellingError
     NodeDoesNotExist,
     #[error("could not find desired model type in the given or default configurators")]
     ModelTypeNotFound,
+    #[error("could not find element type in the configurator of the model's type")]
+    ElementTypeNotFound,
+    #[error("the potential of a node does not have the number of components that the model's type needs")]
+    PotentialDimension,
 }
\ No newline at end of file
diff --git a/neapolitan/src/heat_transfer.rs b/neapolitan/src/heat_transfer.rs
index c5dee5a..3eed153 100644
--- a/neapolitan/src/heat_transfer.rs
+++ b/neapolitan/src/heat_transfer.rs
@@ -3,12 +3,12 @@ use std::rc::{Rc, Weak};
 use std::cell::RefCell;
 
 // 3rd party modules
-use gmatlib::{col_vec, Matrix};
+use gmatlib::Matrix;
 use thiserror::Error;
 
-use crate::errors::ElementCreationError;
+use crate::errors::{ElementCreationError, ElementGainError};
 // Local modules
-use crate::{flux_formulas::*, drive_node, is_locked};
+use crate::{flux_formulas::*, drive_node, get_node_potential, is_locked};
 use crate::{GenericElement, GenericNode};
 
 #[derive(Debug, Error)]
@@ -97,6 +97,11 @@ pub fn temperature_delta(
     temp_delta: Vec<f64>,
 ) -> anyhow::Result<Rc<GenericElement>>
 {
+    if temp_delta.len() != get_node_potential(&input_node)?.get_rows()
+    {
+        return Err(ElementGainError.into());
+    }
+
     // Abort if we cannot remove a DOF from the problem
     if is_locked(&output_node)? && is_locked(&input_node)?
     {
@@ -109,11 +114,11 @@ pub fn temperature_delta(
     // Remove the appropriate DOF
     if drives_output
     {
-        drive_node(&output_node, &input_node, col_vec![temp_delta[0]])?;
+        drive_node(&output_node, &input_node, Matrix::from_col_vec(temp_delta.clone()))?;
     }
     else // driving input_node node:
     {
-        drive_node(&input_node, &output_node, col_vec![-temp_delta[0]])?;
+        drive_node(&input_node, &output_node, Matrix::from_col_vec(temp_delta.iter().map(|v| -v).collect()))?;
     }
 
     // If we're driving the output node, we need to make the input node aware of this element.
@@ -138,6 +143,11 @@ pub fn heat_flux(
     flux: Vec<f64>,
 ) -> anyhow::Result<Rc<GenericElement>>
 {
+    if flux.len() != get_node_potential(&input_node)?.get_rows()
+    {
+        return Err(ElementGainError.into());
+    }
+
     GenericElement::try_new(
         flux, 
         input_node, output_node, 
diff --git a/neapolitan/src/lib.rs b/neapolitan/src/lib.rs
index aaadad4..aaf52e0 100644
--- a/neapolitan/src/lib.rs
+++ b/neapolitan/src/lib.rs
@@ -183,16 +183,22 @@ impl NodalAnalysisStudyBuilder
         }
     }
 
-    fn get_element_constructor(&self, elem: &str) -> ElementConstructor
+    fn get_configurator(&self) -> anyhow::Result<&NodalAnalysisStudyConfigurator>
     {
-        let configurator = &self.configurator[&self.model.model_type];
-        configurator.elements[elem]
+        Ok(self.configurator.get(&self.model.model_type)
+            .ok_or(NodalAnalysisModellingError::ModelTypeNotFound)?)
     }
 
-    fn get_dimension(&self) -> usize
+    fn get_element_constructor(&self, elem: &str) -> anyhow::Result<ElementConstructor>
     {
-        let configurator = &self.configurator[&self.model.model_type];
-        configurator.dimension
+        Ok(*self.get_configurator()?
+            .elements.get(elem)
+            .ok_or(NodalAnalysisModellingError::ElementTypeNotFound)?)
+    }
+
+    fn get_dimension(&self) -> anyhow::Result<usize>
+    {
+        Ok(self.get_configurator()?.dimension)
     }
 
     pub fn add_nodes(mut self, n: usize) -> NodalAnalysisStudyBuilder
@@ -232,7 +238,7 @@ impl NodalAnalysisStudyBuilder
 
     pub fn run_study(self, margin: f64, limit: usize) -> anyhow::Result<NodalAnalysisStudyResult>
     {
-        let n = self.get_dimension();
+        let n = self.get_dimension()?;
         let mut nodes = vec![];
         let mut elements = vec![];
 
@@ -255,7 +261,14 @@ impl NodalAnalysisStudyBuilder
         // Step 2 - set nodal metadata if it is given
         for (&i, node_data) in &self.model.configuration
         {
-            let mut node = nodes[i].borrow_mut();
+            if node_data.potential.len() != n
+            {
+                return Err(NodalAnalysisModellingError::PotentialDimension.into());
+            }
+
+            let mut node = nodes.get(i)
+                .ok_or(NodalAnalysisModellingError::NodeDoesNotExist)?
+                .borrow_mut();
             node.potential = Matrix::from_col_vec(node_data.potential.to_vec());
             node.is_locked = node_data.is_locked;
             node._metadata = node_data.metadata.clone();
@@ -265,7 +278,11 @@ impl NodalAnalysisStudyBuilder
         for element_data in &self.model.elements
         {
             let NodalAnalysisElement { element_type, input, output, gain } = element_data;
-            let constructor = self.get_element_constructor(element_type);
+            let constructor = self.get_element_constructor(element_type)?;
+            if *input >= nodes.len() || *output >= nodes.len()
+            {
+                return Err(NodalAnalysisModellingError::NodeDoesNotExist.into());
+            }
             elements.push(constructor(
                 Rc::downgrade(&nodes[*input]), 
                 Rc::downgrade(&nodes[*output]), 
@@ -278,7 +295,7 @@ impl NodalAnalysisStudyBuilder
         let mut guess = HashMap::new();
         for (node_idx, _) in nodes.iter().enumerate().filter(|(_, x)| !x.borrow().is_locked)
         {
-            for comp_idx in 0..self.get_dimension()
+            for comp_idx in 0..n
             {
                 let idx = ComponentIndex 
                 { 
-- 
2.43.0


From 6d5c5f84d3b251b7f90472b4123abc702862f979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:00 +0000
Subject: [PATCH 42/55] fix: a study without unknown potentials has a result

---
 neapolitan/src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/neapolitan/src/lib.rs b/neapolitan/src/lib.rs
index aaf52e0..bfcfe04 100644
--- a/neapolitan/src/lib.rs
+++ b/neapolitan/src/lib.rs
@@ -328,10 +328,14 @@ impl NodalAnalysisStudyBuilder
             }
         }
 
-        let soln = multivariate_newton_raphson(partials, &mut guess, margin, limit)?;
+        // There may be nothing left to solve for
+        if !partials.is_empty()
+        {
+            multivariate_newton_raphson(partials, &mut guess, margin, limit)?;
+        }
 
         // Step 5 - Set model state to solution
-        for (idx, component) in soln
+        for (idx, component) in &guess
         {
             let mut node = nodes[idx.node as usize].try_borrow_mut()?;
             node.potential[(idx.component as usize, 0)] = *component;
-- 
2.43.0


From 9f961a4ec6b3b6da91e1d2fa6676748b557d2f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 43/55] fix: empty text does not compile to a function

---
 geqslib/src/shunting.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geqslib/src/shunting.rs b/geqslib/src/shunting.rs
index f617546..1143bee 100644
--- a/geqslib/src/shunting.rs
+++ b/geqslib/src/shunting.rs
@@ -313,7 +313,7 @@ fn rpnify(expr: &str, context: &ContextHashMap) -> anyhow::Result<Vec<Token>>
     }
 
     // The last operand or the '(' of a call is missing
-    if callee.is_some() || (unary_minus && !queue.is_empty())
+    if callee.is_some() || unary_minus
     {
         return Err(ShuntingYardError::ExpectedArg.into());
     }
-- 
2.43.0


From e8cf1bcd6f519126cc9d57df62dc52af80159085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:00 +0000
Subject: [PATCH 44/55] fix: the exponent after a bare decimal point is not a
 name

---
 geqslib/src/shunting.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/geqslib/src/shunting.rs b/geqslib/src/shunting.rs
index 1143bee..68f3feb 100644
--- a/geqslib/src/shunting.rs
+++ b/geqslib/src/shunting.rs
@@ -32,7 +32,10 @@ pub fn get_legal_variables_iter(text: &str) -> impl Iterator<Item = &str>
     {
         static ref RE: Regex = Regex::new(r"(?i)\b[a-z][a-z0-9_]*").unwrap();
     }
-    RE.find_iter(text).map(|i| i.as_str())
+    // What follows a decimal point is the exponent of a number
+    RE.find_iter(text)
+        .filter(|i| !text[..i.start()].ends_with('.'))
+        .map(|i| i.as_str())
 }
 
 const _OPERATORS_: &str = "()^*/+-";
-- 
2.43.0


From 5338a5b9fc8ceb713bbb74d5beb71c203dac2a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:08 +0000
Subject: [PATCH 45/55] fix: a matrix without elements can be printed

---
 gmatlib/src/trait_impls.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gmatlib/src/trait_impls.rs b/gmatlib/src/trait_impls.rs
index 9f11a11..b1ba2f6 100644
--- a/gmatlib/src/trait_impls.rs
+++ b/gmatlib/src/trait_impls.rs
@@ -8,6 +8,12 @@ where T: Element<T>
 {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         
+        // There is nothing to show in a matrix without elements
+        if self.vals.is_empty()
+        {
+            return write!(f, "[]");
+        }
+
         let mut output = "[".to_string();
         let r = self.rows - 1;
         let c = self.cols - 1;
-- 
2.43.0


From 8f546b4cf5c0bc3c52d9d55cfbf09b13e8421c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:55 +0000
Subject: [PATCH 46/55] fix: a saved model can be parsed from its text

---
 neapolitan/src/modelling/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neapolitan/src/modelling/mod.rs b/neapolitan/src/modelling/mod.rs
index 42fce1f..2cb9012 100644
--- a/neapolitan/src/modelling/mod.rs
+++ b/neapolitan/src/modelling/mod.rs
@@ -5,7 +5,7 @@ pub mod node;
 use std::{collections::HashMap, str::FromStr, usize};
 
 /// 3rd party modules
-use serde::de::{Deserialize, IntoDeserializer, value};
+use serde::de::{Error, value};
 
 /// Local modules
 pub use element::GenericElement;
@@ -55,6 +55,6 @@ impl FromStr for NodalAnalysisModel
 
     fn from_str(s: &str) -> Result<Self, Self::Err> 
     {
-        Self::deserialize(s.into_deserializer())
+        serde_json::from_str(s).map_err(value::Error::custom)
     }
 }
\ No newline at end of file
-- 
2.43.0


From ad2bb7ee8c2db33b1c473a9b1555381dc74aab57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:48 +0000
Subject: [PATCH 47/55] fix: reading a node's potential does not borrow it
 mutably

---
 neapolitan/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neapolitan/src/lib.rs b/neapolitan/src/lib.rs
index bfcfe04..18c8411 100644
--- a/neapolitan/src/lib.rs
+++ b/neapolitan/src/lib.rs
@@ -419,7 +419,7 @@ pub fn get_node_potential(node_ref: &Weak<RefCell<GenericNode>>) -> anyhow::Resu
 {
     if let Some(node) = node_ref.upgrade()
     {
-        Ok(node.try_borrow_mut()?.potential.clone())
+        Ok(node.try_borrow()?.potential.clone())
     }
     else
     {
-- 
2.43.0


From 71671805d6ac7ca6bb1eca6d35d3dcfcf99f2723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:14 +0000
Subject: [PATCH 48/55] fix: nxc reports a missing option value instead of
 panicking

---
 nexsys/src/main.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/nexsys/src/main.rs b/nexsys/src/main.rs
index 62f9350..cd0cfc1 100644
--- a/nexsys/src/main.rs
+++ b/nexsys/src/main.rs
@@ -35,24 +35,24 @@ OPTIONS:
 
     for i in 0..args.len() {
         if args[i] == *"--margin" || args[i] == *"-tol" {
-            match args[i+1].parse::<f64>() {
-                Ok(o) => {
+            match args.get(i+1).and_then(|v| v.parse::<f64>().ok()) {
+                Some(o) => {
                     println!("[nxc].....margin set to {o}");
                     margin = o;
                 },
-                Err(_) => {
+                None => {
                     println!("[nxc].....ERR: margin is not a valid float value");
                     process::exit(1);
                 }
             }
         }
         if args[i] == *"--max-iterations" || args[i] == *"-max" {
-            match args[i+1].parse::<usize>() {
-                Ok(o) => {
+            match args.get(i+1).and_then(|v| v.parse::<usize>().ok()) {
+                Some(o) => {
                     println!("[nxc].....iteration limit set to: {o}");
                     limit = o;
                 },
-                Err(_) => {
+                None => {
                     println!("[nxc].....ERR: iteration limit is not a valid integer value");
                     process::exit(1);
                 }
-- 
2.43.0


From 9e4df97a5c3b791a3195ad90f70e5b17b3efcd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:14 +0000
Subject: [PATCH 49/55] fix: nxc --verbose prints the compiled code and reports
 code that does not compile

---
 nexsys/src/main.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/nexsys/src/main.rs b/nexsys/src/main.rs
index cd0cfc1..2662906 100644
--- a/nexsys/src/main.rs
+++ b/nexsys/src/main.rs
@@ -1,6 +1,7 @@
-use std::{env, process};
+use std::{collections::HashMap, env, process};
 use std::fs::{read_to_string, write};
-use nexsys::{solve_with_preprocessors, parsing::{conditionals, conversions, consts}};
+use geqslib::shunting::new_context;
+use nexsys::{solve_with_preprocessors, parsing::compile};
 
 fn main() {
     let args: Vec<String> = env::args().collect();
@@ -61,11 +62,14 @@ OPTIONS:
         if args[i] == *"--verbose" || args[i] == *"-v" {
             println!("[nxc].....Printing compiled code...");
 
-            let mut preprocess = conversions(&system).unwrap();
-            preprocess = consts(&preprocess).unwrap();
-            preprocess = conditionals(&preprocess).unwrap();
-            
-            println!("\n{preprocess}\n");
+            match compile(&system, &mut new_context(), &mut HashMap::new()) {
+                Ok(compiled) => println!("\n{compiled}\n"),
+                Err(e) => {
+                    println!("[nxc].....ERR: nxc could not compile the system");
+                    println!("[nxc].....{e}");
+                    process::exit(1);
+                }
+            }
         }
         if args[i] == *"--to-file" || args[i] == *"-o" {
             println!("[nxc].....Writing to file...");
-- 
2.43.0


From 16b2ff9925b9bece88872674d5c2656564d2b221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:14 +0000
Subject: [PATCH 50/55] fix: nxc knows --output-file, as its usage text says

---
 nexsys/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nexsys/src/main.rs b/nexsys/src/main.rs
index 2662906..947d240 100644
--- a/nexsys/src/main.rs
+++ b/nexsys/src/main.rs
@@ -71,7 +71,7 @@ OPTIONS:
                 }
             }
         }
-        if args[i] == *"--to-file" || args[i] == *"-o" {
+        if args[i] == *"--output-file" || args[i] == *"--to-file" || args[i] == *"-o" {
             println!("[nxc].....Writing to file...");
             output_file = true;
         }
-- 
2.43.0


From ce73dd347dc3fdf633831c375b830744ce954427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:14 +0000
Subject: [PATCH 51/55] fix: nxc never writes its results over its input

---
 nexsys/src/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nexsys/src/main.rs b/nexsys/src/main.rs
index 947d240..c2dca53 100644
--- a/nexsys/src/main.rs
+++ b/nexsys/src/main.rs
@@ -96,7 +96,9 @@ OPTIONS:
     );
 
     if output_file {
-        match write(args[1].replace(".nxs", ".txt"), output) {
+        // Only the extension is exchanged, so the system itself is never overwritten
+        let path = args[1].strip_suffix(".nxs").unwrap_or(&args[1]);
+        match write(format!("{path}.txt"), output) {
             Ok(_) => process::exit(0),
             Err(_) => {
                 println!("[nxc].....ERR: nxc could not write to the output file");
-- 
2.43.0


From 307e02d855ae140ecf090ad7815c1f69fb707ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:35 +0000
Subject: [PATCH 52/55] fix: neapolitan reports a missing model file or option
 value instead of panicking

---
 neapolitan/src/main.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/neapolitan/src/main.rs b/neapolitan/src/main.rs
index ff50a91..8a173ce 100644
--- a/neapolitan/src/main.rs
+++ b/neapolitan/src/main.rs
@@ -10,6 +10,12 @@ fn main()
     let mut precision: Option<f64> = None;
     let mut iteration_limit: Option<usize> = None;
 
+    if args.len() < 2
+    {
+        println!("[neapolitan].....ERR: no model file was given!");
+        process::exit(1);
+    }
+
     let model_json = match read_to_string(&args[1]) 
     {
         Ok(o) => o,
@@ -29,7 +35,7 @@ fn main()
         if arg == "--precision" ||
            arg == "-p"
         {
-            precision = match args[i + 1].parse()
+            precision = match args.get(i + 1).map_or("", |v| v).parse()
             {
                 Ok(o) => 
                 {
@@ -50,7 +56,7 @@ fn main()
         else if arg == "--iterations" ||
                 arg == "-i"
         {
-            iteration_limit = match args[i + 1].parse()
+            iteration_limit = match args.get(i + 1).map_or("", |v| v).parse()
             {
                 Ok(o) => 
                 {
-- 
2.43.0


From 1a375cf1223b3ebd8d05632467c3ced7d3562d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:35 +0000
Subject: [PATCH 53/55] fix: neapolitan never writes its results over its input

---
 neapolitan/src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neapolitan/src/main.rs b/neapolitan/src/main.rs
index 8a173ce..2d534dd 100644
--- a/neapolitan/src/main.rs
+++ b/neapolitan/src/main.rs
@@ -111,7 +111,8 @@ fn main()
         }
     };
 
-    let solution_file = args[1].replace(".json", ".soln.json");
+    // Only the extension is exchanged, so the model itself is never overwritten
+    let solution_file = format!("{}.soln.json", args[1].strip_suffix(".json").unwrap_or(&args[1]));
     match write(solution_file, solution_json) 
     {
         Ok(_) => process::exit(0),
-- 
2.43.0


From 3c2e56123ab77ed15c17283f24b814777607372c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:57 +0000
Subject: [PATCH 54/55] fix: recognize conditional blocks with carriage returns
 or blanks at the ends of lines

---
 nexsys/src/parsing/conditionals.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nexsys/src/parsing/conditionals.rs b/nexsys/src/parsing/conditionals.rs
index f2872c8..479e520 100644
--- a/nexsys/src/parsing/conditionals.rs
+++ b/nexsys/src/parsing/conditionals.rs
@@ -56,9 +56,9 @@ pub (in crate) fn format_conditional(cndl: &str) -> anyhow::Result<String> {
 pub fn conditionals(text: &str) -> anyhow::Result<String> {
     lazy_static!{
         static ref RE: Regex = nexsys_regex(            
-r#"(?m)^[ \t]*if [^<>=\n]+[<>=]{1,2}[^<>=\n]+:$
+r#"(?m)^[ \t]*if [^<>=\n]+[<>=]{1,2}[^<>=\n]+:[ \t\r]*$
 ^.*$
-^[ \t]*else:$
+^[ \t]*else:[ \t\r]*$
 ^.*$
 ^[ \t]*end"#
         );
-- 
2.43.0


From 71387e2abf9653f4d07d26f54454894d242a5b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:25 +0000
Subject: [PATCH 55/55] fix: separate the variables in the solution that
 solve_with_preprocessors returns to C

---
 nexsys/src/ffi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nexsys/src/ffi.rs b/nexsys/src/ffi.rs
index f34680f..ad30eae 100644
--- a/nexsys/src/ffi.rs
+++ b/nexsys/src/ffi.rs
@@ -96,7 +96,7 @@ pub unsafe extern "C" fn solve_with_preprocessors(system: *const c_char, margin:
                 let steps_str = log.join("\n");
                 let soln_str = soln.iter()
                     .fold(String::new(), |mut acc, (x, y)| {
-                        acc.push_str(&format!("{} {:#?}", x, y));
+                        acc.push_str(&format!("{}: {:#?}, ", x, y));
                         acc
                     });
                 CString::new(format!("{{ log: {:#?}, \nsoln: {:#?} }}", steps_str, soln_str))
-- 
2.43.0

