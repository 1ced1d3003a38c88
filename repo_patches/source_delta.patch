From e4751e46c29f00c21712ce12ae5a88c5c9ff23f5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:09 +0000
Subject: [PATCH 01/87] fix: symbolic -, * and / on expressions built a sum

---
 doctor-syn/src/expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doctor-syn/src/expression.rs b/doctor-syn/src/expression.rs
index 32a8bc8..bfd70d6 100644
--- a/doctor-syn/src/expression.rs
+++ b/doctor-syn/src/expression.rs
@@ -206,7 +206,7 @@ macro_rules! make_op {
             } else {
                 let lhs = lhs.as_ref();
                 let rhs = rhs.as_ref();
-                let res : Expr = parse_quote!((#lhs) + (#rhs));
+                let res : Expr = parse_quote!((#lhs) $op (#rhs));
                 res.into()
             }
         }
-- 
2.43.0


From 9bc474f2576b7814935f8134b64f20efd109cf93 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:09 +0000
Subject: [PATCH 02/87] fix: 64 bit hex literals were written as f32::from_bits

---
 doctor-syn/src/transformation/use_number_type.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doctor-syn/src/transformation/use_number_type.rs b/doctor-syn/src/transformation/use_number_type.rs
index ee59430..31ea71f 100644
--- a/doctor-syn/src/transformation/use_number_type.rs
+++ b/doctor-syn/src/transformation/use_number_type.rs
@@ -23,7 +23,7 @@ impl<'a> Visitor for UseNumberType<'a> {
                     ("decimal", 32) => parse_quote!(#float32),
                     ("decimal", 64) => parse_quote!(#float64),
                     ("hex", 32) => parse_quote!(f32::from_bits(#bits32)),
-                    ("hex", 64) => parse_quote!(f32::from_bits(#bits64)),
+                    ("hex", 64) => parse_quote!(f64::from_bits(#bits64)),
                     _ => expr.clone().into(),
                 };
                 Ok(e)
@@ -38,7 +38,7 @@ impl<'a> Visitor for UseNumberType<'a> {
                     ("decimal", 32) => parse_quote!(#float32),
                     ("decimal", 64) => parse_quote!(#float64),
                     ("hex", 32) => parse_quote!(f32::from_bits(#bits32)),
-                    ("hex", 64) => parse_quote!(f32::from_bits(#bits64)),
+                    ("hex", 64) => parse_quote!(f64::from_bits(#bits64)),
                     _ => expr.clone().into(),
                 };
                 Ok(e)
-- 
2.43.0


From 765aa8e1e69124f037cfc99959fd607149a1f9e8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:10 +0000
Subject: [PATCH 03/87] fix: paren() printed a debug line on stdout

---
 doctor-syn/src/transformation/paren.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/doctor-syn/src/transformation/paren.rs b/doctor-syn/src/transformation/paren.rs
index 4d9ef23..9e7ccdc 100644
--- a/doctor-syn/src/transformation/paren.rs
+++ b/doctor-syn/src/transformation/paren.rs
@@ -26,7 +26,6 @@ impl Visitor for Paren {
                 make_binary(left, op, right)
             }
             Expr::Unary(ExprUnary { op, expr, .. }) => {
-                println!("HERE");
                 let expr = parenthesise_op(*expr.clone());
                 make_unary(op, expr)
             }
-- 
2.43.0


From 0460ba033ac3633f7694fed8506ad1ed0a65d140 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:10 +0000
Subject: [PATCH 04/87] fix: the list of ignored functions was mixed into the
 code on stdout

---
 libmgen/src/functions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmgen/src/functions.rs b/libmgen/src/functions.rs
index 0d5d848..7d8bb48 100644
--- a/libmgen/src/functions.rs
+++ b/libmgen/src/functions.rs
@@ -28,7 +28,7 @@ pub fn get_functions_and_deps<'a>(names: &'a Vec<String>, exclude: &'a Vec<Strin
     while !stack.is_empty() {
         let name = stack.pop().unwrap();
         if exclude.contains(&name) {
-            println!("ignoring {}", name);
+            eprintln!("ignoring {}", name);
             continue;
         }
         if let Some(f) = FUNCTIONS.iter()
-- 
2.43.0


From 56527589bb5f8606bc62bd1f9423759207237b0f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:35 +0000
Subject: [PATCH 05/87] fix: substituted expressions lost their grouping when
 printed

---
 doctor-syn/src/transformation/subst.rs |  5 +++--
 doctor-syn/src/transformation/tools.rs | 22 ++++++++++++++++++++++
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/doctor-syn/src/transformation/subst.rs b/doctor-syn/src/transformation/subst.rs
index 65178e9..438edf6 100644
--- a/doctor-syn/src/transformation/subst.rs
+++ b/doctor-syn/src/transformation/subst.rs
@@ -1,3 +1,4 @@
+use super::tools::make_operand;
 use crate::error::Result;
 use crate::visitor::Visitor;
 use crate::{Name, VariableList};
@@ -14,8 +15,8 @@ impl Visitor for Subst {
         //println!("visit_path {:?}", self);
         let name: Name = exprpath.path.clone().into();
         if let Some(res) = self.variables.find(&name) {
-            // Substitute.
-            Ok(res.into())
+            // Substitute, keeping the result as one operand when printed.
+            Ok(make_operand(res.into()))
         } else {
             // Clone.
             Ok(exprpath.clone().into())
diff --git a/doctor-syn/src/transformation/tools.rs b/doctor-syn/src/transformation/tools.rs
index a24eb7c..04a91ef 100644
--- a/doctor-syn/src/transformation/tools.rs
+++ b/doctor-syn/src/transformation/tools.rs
@@ -81,6 +81,28 @@ pub fn make_paren(expr: Expr) -> Expr {
     .into()
 }
 
+// Parenthesise an expression which would not print as a single operand.
+pub fn make_operand(expr: Expr) -> Expr {
+    match &expr {
+        // eg. a literal made from a negative number.
+        Expr::Lit(lit) => {
+            if quote::quote!(#lit).to_string().starts_with('-') {
+                make_paren(expr)
+            } else {
+                expr
+            }
+        }
+        Expr::Path(_)
+        | Expr::Paren(_)
+        | Expr::MethodCall(_)
+        | Expr::Field(_)
+        | Expr::Call(_)
+        | Expr::Index(_)
+        | Expr::Macro(_) => expr,
+        _ => make_paren(expr),
+    }
+}
+
 pub fn make_binary(left: Expr, op: BinOp, right: Expr) -> Expr {
     ExprBinary {
         attrs: vec![],
-- 
2.43.0


From 47777520aebba9fc4cbf69ae189e54d666f8c006 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:58 +0000
Subject: [PATCH 06/87] fix: expand() dropped parentheses that %, shifts and
 other operators need

---
 doctor-syn/src/transformation/expand.rs | 29 ++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/doctor-syn/src/transformation/expand.rs b/doctor-syn/src/transformation/expand.rs
index ca441e5..36cbda2 100644
--- a/doctor-syn/src/transformation/expand.rs
+++ b/doctor-syn/src/transformation/expand.rs
@@ -7,10 +7,21 @@ use syn::{BinOp, Expr, ExprBinary, ExprUnary, UnOp};
 #[derive(Debug)]
 pub struct Expand {}
 
+// Group anything that would otherwise bind to the rest of the product when printed.
+fn make_factor(expr: &Expr) -> Expr {
+    match expr {
+        Expr::Unary(_)
+        | Expr::Binary(ExprBinary {
+            op: BinOp::Mul(_), ..
+        }) => expr.clone(),
+        _ => make_operand(expr.clone()),
+    }
+}
+
 // Get a series of additions/subtractions.
 fn match_sum(expr: &Expr, sum: &mut Vec<Expr>, is_negated: bool) -> Result<()> {
-    let expr = deparen(expr);
-    match expr {
+    let inner = deparen(expr);
+    match inner {
         Expr::Binary(ExprBinary {
             left, op, right, ..
         }) => match op {
@@ -31,7 +42,7 @@ fn match_sum(expr: &Expr, sum: &mut Vec<Expr>, is_negated: bool) -> Result<()> {
                 match_sum(right, &mut right_sum, false)?;
                 for lhs in left_sum.iter() {
                     for rhs in right_sum.iter() {
-                        sum.push(make_binary(lhs.clone(), op.clone(), rhs.clone()));
+                        sum.push(make_binary(make_factor(lhs), op.clone(), make_factor(rhs)));
                     }
                 }
                 return Ok(());
@@ -40,10 +51,16 @@ fn match_sum(expr: &Expr, sum: &mut Vec<Expr>, is_negated: bool) -> Result<()> {
         },
         _ => {}
     }
+    // Anything else is kept as one operand.
+    let operand = match inner {
+        Expr::Unary(_) => inner.clone(),
+        _ if is_negated || !std::ptr::eq(inner, expr) => make_operand(inner.clone()),
+        _ => inner.clone(),
+    };
     if is_negated {
-        sum.push(negate(&expr));
+        sum.push(negate(&operand));
     } else {
-        sum.push(expr.clone());
+        sum.push(operand);
     }
     Ok(())
 }
@@ -55,7 +72,7 @@ impl Visitor for Expand {
             UnOp::Not(_) => Err(Error::UnsupportedExpr(exprunary.span())),
             UnOp::Neg(_) => {
                 let mut sum = Vec::new();
-                match_sum(deparen(&exprunary.expr), &mut sum, true)?;
+                match_sum(&exprunary.expr, &mut sum, true)?;
                 Ok(make_sum(&*sum))
             }
         }
-- 
2.43.0


From 81fbbc85e3775e052cc00eddbf90fad680901d51 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:00 +0000
Subject: [PATCH 07/87] fix: eval panicked on division by zero and outside the
 domain of functions

---
 doctor-syn/src/bdmath.rs              |  6 +++++-
 doctor-syn/src/transformation/eval.rs | 14 +++++++-------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/doctor-syn/src/bdmath.rs b/doctor-syn/src/bdmath.rs
index 05924e9..f1b2e3a 100644
--- a/doctor-syn/src/bdmath.rs
+++ b/doctor-syn/src/bdmath.rs
@@ -285,7 +285,11 @@ pub fn ln(mut x: BigDecimal, num_digits: i64) -> Option<BigDecimal> {
 
 pub fn log(x: BigDecimal, base: BigDecimal, num_digits: i64) -> Option<BigDecimal> {
     if let (Some(lnx), Some(lnbase)) = (ln(x, num_digits), ln(base, num_digits)) {
-        Some(lnx / lnbase)
+        if lnbase.is_zero() {
+            None
+        } else {
+            Some(lnx / lnbase)
+        }
     } else {
         None
     }
diff --git a/doctor-syn/src/transformation/eval.rs b/doctor-syn/src/transformation/eval.rs
index dd98933..f8f9a1f 100644
--- a/doctor-syn/src/transformation/eval.rs
+++ b/doctor-syn/src/transformation/eval.rs
@@ -70,7 +70,7 @@ impl Visitor for Eval {
             //     .try_into()?
 
             //     .into()),
-            ("recip", x, 0) => Ok(Expression::from(x.inverse()).into()),
+            ("recip", x, 0) if !x.is_zero() => Ok(Expression::from(x.inverse()).into()),
 
             ("powi", x, 1) => {
                 Ok(Expression::from(pow(x, arg0(), self.num_digits).ok_or_else(errfn)?).into())
@@ -125,9 +125,9 @@ impl Visitor for Eval {
 
             ("tan", x, 0) => Ok(Expression::from(tan(x, self.num_digits)).into()),
 
-            ("asin", x, 0) => Ok(Expression::from(asin(x, self.num_digits)).into()),
+            ("asin", x, 0) if x.abs() <= one() => Ok(Expression::from(asin(x, self.num_digits)).into()),
 
-            ("acos", x, 0) => Ok(Expression::from(acos(x, self.num_digits)).into()),
+            ("acos", x, 0) if x.abs() <= one() => Ok(Expression::from(acos(x, self.num_digits)).into()),
 
             ("atan", x, 0) => Ok(Expression::from(atan(x, self.num_digits)).into()),
 
@@ -135,15 +135,15 @@ impl Visitor for Eval {
 
             ("erfc", x, 0) => Ok(Expression::from(erfc(x, self.num_digits)).into()),
 
-            ("dnorm", x, 2) => {
+            ("dnorm", x, 2) if !args[1].is_zero() => {
                 Ok(Expression::from(dnorm(x, arg0(), arg1(), self.num_digits)).into())
             }
 
-            ("pnorm", x, 2) => {
+            ("pnorm", x, 2) if !args[1].is_zero() => {
                 Ok(Expression::from(pnorm(x, arg0(), arg1(), self.num_digits)).into())
             }
 
-            ("qnorm", x, 2) => Ok(Expression::from(
+            ("qnorm", x, 2) if !args[1].is_zero() => Ok(Expression::from(
                 qnorm(x, arg0(), arg1(), self.num_digits).ok_or_else(errfn)?,
             )
             .into()),
@@ -182,7 +182,7 @@ impl Visitor for Eval {
                 BinOp::Mul(_) => {
                     Ok(Expression::from(round(left * right, self.num_digits as i64)).into())
                 }
-                BinOp::Div(_) => {
+                BinOp::Div(_) if !right.is_zero() => {
                     Ok(Expression::from(round(left / right, self.num_digits as i64)).into())
                 }
                 BinOp::Lt(_) => Ok(Expression::from(left < right).into()),
-- 
2.43.0


From 9a0e405ac61434a56c20e66b183f75bdb046a94a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:21 +0000
Subject: [PATCH 08/87] fix: qnorm diverged for a non-standard mean or
 deviation and panicked at 1

---
 doctor-syn/src/bdmath.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/doctor-syn/src/bdmath.rs b/doctor-syn/src/bdmath.rs
index f1b2e3a..72fdff6 100644
--- a/doctor-syn/src/bdmath.rs
+++ b/doctor-syn/src/bdmath.rs
@@ -374,6 +374,9 @@ pub fn qnorm(
     sd: BigDecimal,
     num_digits: i64,
 ) -> Option<BigDecimal> {
+    if !x.is_positive() || x >= one() {
+        return None;
+    }
     // println!("x={}", x);
     if let Some(_logit) = ln(&x / (one() - &x), num_digits) {
         // let mut guess = logit * bigdf(0.6);
@@ -384,15 +387,16 @@ pub fn qnorm(
         let mut guess = bigdf(0.0);
         loop {
             // println!("guess={}", guess);
-            let pnorm = pnorm(guess.clone(), mean.clone(), sd.clone(), num_digits);
+            // Solve for the standard distribution: the starting guess is its mean.
+            let pnorm = pnorm(guess.clone(), zero(), one(), num_digits);
             let err = pnorm - &x;
             if round(err.abs(), num_digits).is_zero() {
                 break;
             }
-            let dnorm = dnorm(guess.clone(), mean.clone(), sd.clone(), num_digits);
+            let dnorm = dnorm(guess.clone(), zero(), one(), num_digits);
             guess -= err / dnorm;
         }
-        Some(round(guess, num_digits))
+        Some(round(guess * sd + mean, num_digits))
     } else {
         None
     }
-- 
2.43.0


From db81771be25bfc774be02f2a3a1d5f01ad531b37 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:09 +0000
Subject: [PATCH 09/87] fix: functions did not list everything their code uses
 as a dependency

---
 libmgen/src/functions.rs | 82 ++++++++++++++++++++--------------------
 1 file changed, 41 insertions(+), 41 deletions(-)

diff --git a/libmgen/src/functions.rs b/libmgen/src/functions.rs
index 7d8bb48..cd7b46c 100644
--- a/libmgen/src/functions.rs
+++ b/libmgen/src/functions.rs
@@ -94,189 +94,189 @@ pub static FUNCTIONS: &[Function] = &[
     // },
     Function {
         name: "LOG2_SHIFT",
-        deps: &[],
+        deps: &["ity"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_LOG2_SHIFT),
         test_specs: &[],
     },
     Function {
         name: "LOG2_OFFSET",
-        deps: &[],
+        deps: &["ity"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_LOG2_OFFSET),
         test_specs: &[],
     },
     Function {
         name: "NAN",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_NAN),
         test_specs: &[],
     },
     Function {
         name: "INFINITY",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_INF),
         test_specs: &[],
     },
     Function {
         name: "MIN_POSITIVE",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_MIN_POSITIVE),
         test_specs: &[],
     },
     Function {
         name: "ONE_MASK",
-        deps: &[],
+        deps: &["uty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_ONE_MASK),
         test_specs: &[],
     },
     Function {
         name: "ONE_BITS",
-        deps: &[],
+        deps: &["uty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_ONE_BITS),
         test_specs: &[],
     },
     Function {
         name: "EXP2_ONE",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_EXP2_ONE),
         test_specs: &[],
     },
     Function {
         name: "EXP2_SCALE",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_EXP2_SCALE),
         test_specs: &[],
     },
     Function {
         name: "EXP2_MIN",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_EXP2_MIN),
         test_specs: &[],
     },
     Function {
         name: "EXP2_MAX",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_EXP2_MAX),
         test_specs: &[],
     },
     Function {
         name: "ONE_THIRD",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_ONE_THIRD),
         test_specs: &[],
     },
     Function {
         name: "TWO_THIRDS",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_TWO_THIRDS),
         test_specs: &[],
     },
     Function {
         name: "PI",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_PI),
         test_specs: &[],
     },
     Function {
         name: "PI_BY_2",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_PI_BY_2),
         test_specs: &[],
     },
     Function {
         name: "TAN_PI_BY_8",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_TAN_PI_BY_8),
         test_specs: &[],
     },
     Function {
         name: "PI_BY_8",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_PI_BY_8),
         test_specs: &[],
     },
     Function {
         name: "LOG2_E",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_LOG2_E),
         test_specs: &[],
     },
     Function {
         name: "RECIP_LOG2_E",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_RECIP_LOG2_E),
         test_specs: &[],
     },
     Function {
         name: "RECIP_LOG2_10",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_RECIP_LOG2_10),
         test_specs: &[],
     },
     Function {
         name: "RECIP_PI",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_RECIP_PI),
         test_specs: &[],
     },
     Function {
         name: "RECIP_2PI",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_RECIP_2PI),
         test_specs: &[],
     },
     Function {
         name: "SQRT_RECIP_2PI",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_SQRT_RECIP_2PI),
         test_specs: &[],
     },
     Function {
         name: "negate_on_odd",
-        deps: &["fty"],
+        deps: &["fty", "ity", "uty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_negate_on_odd),
         test_specs: &[],
     },
     Function {
         name: "recip_approx",
-        deps: &["fty"],
+        deps: &["fty", "uty", "EXP2_ONE"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_recip_approx),
         test_specs: &[],
     },
     Function {
         name: "sqrt_approx",
-        deps: &["fty", "uty"],
+        deps: &["fty", "uty", "EXP2_ONE"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_sqrt_approx),
         test_specs: &[],
     },
     Function {
         name: "cbrt_approx",
-        deps: &["fty"],
+        deps: &["fty", "uty", "EXP2_ONE"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_cbrt_approx),
         test_specs: &[],
@@ -295,21 +295,21 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "sinh",
-        deps: &["fty"],
+        deps: &["fty", "exp2", "LOG2_E"],
         num_terms: [16, 24],
         gen: Some(crate::hyperbolic::gen_sinh),
         test_specs: &[],
     },
     Function {
         name: "cosh",
-        deps: &["fty"],
+        deps: &["fty", "exp2", "LOG2_E"],
         num_terms: [16, 24],
         gen: Some(crate::hyperbolic::gen_cosh),
         test_specs: &[],
     },
     Function {
         name: "tanh",
-        deps: &["fty"],
+        deps: &["fty", "exp2", "LOG2_E"],
         num_terms: [16, 24],
         gen: Some(crate::hyperbolic::gen_tanh),
         test_specs: &[],
@@ -323,7 +323,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "acosh",
-        deps: &["fty", "NAN", "ln"],
+        deps: &["fty", "ln", "NAN"],
         num_terms: [16, 24],
         gen: Some(crate::hyperbolic::gen_acosh),
         test_specs: &[],
@@ -377,21 +377,21 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "atan",
-        deps: &["fty"],
+        deps: &["fty", "PI_BY_2"],
         num_terms: [16, 36],
         gen: Some(crate::inv_trig::gen_atan),
         test_specs: &[],
     },
     Function {
         name: "atan2",
-        deps: &["fty", "PI_BY_8", "PI_BY_2", "TAN_PI_BY_8"],
+        deps: &["fty", "PI_BY_8", "PI_BY_2", "PI", "TAN_PI_BY_8"],
         num_terms: [16, 36],
         gen: Some(crate::inv_trig::gen_atan2),
         test_specs: &[],
     },
     Function {
         name: "exp2",
-        deps: &["fty", "ity", "uty", "EXP2_SCALE", "EXP2_ONE", "EXP2_MIN", "EXP2_MAX"],
+        deps: &["fty", "ity", "uty", "round", "EXP2_SCALE", "EXP2_ONE", "EXP2_MIN", "EXP2_MAX", "INFINITY"],
         num_terms: [8, 12],
         gen: Some(crate::log_exp::gen_exp2),
         test_specs: &[
@@ -437,7 +437,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "exp_m1",
-        deps: &["fty", "exp2"],
+        deps: &["fty", "uty", "round", "exp2", "EXP2_SCALE", "EXP2_ONE", "LOG2_E"],
         num_terms: [8, 12],
         gen: Some(crate::log_exp::gen_exp_m1),
         test_specs: &[
@@ -457,7 +457,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "log2",
-        deps: &["fty", "LOG2_SHIFT", "LOG2_OFFSET", "ONE_MASK", "ONE_BITS", "MIN_POSITIVE", "NAN", "INFINITY"],
+        deps: &["fty", "ity", "uty", "LOG2_SHIFT", "LOG2_OFFSET", "ONE_MASK", "ONE_BITS", "MIN_POSITIVE", "NAN", "INFINITY"],
         num_terms: [10, 20],
         gen: Some(crate::log_exp::gen_log2),
         test_specs: &[
@@ -558,7 +558,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "powi",
-        deps: &["fty", "log2", "exp2"],
+        deps: &["fty", "ity", "powf", "log2", "exp2"],
         num_terms: [16, 24],
         gen: Some(crate::log_exp::gen_powi),
         test_specs: &[],
@@ -572,7 +572,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "cbrt",
-        deps: &["fty", "ONE_THIRD", "TWO_THIRDS"],
+        deps: &["fty", "uty", "EXP2_ONE", "ONE_THIRD", "TWO_THIRDS"],
         num_terms: [16, 24],
         gen: Some(crate::recip_sqrt::gen_cbrt),
         test_specs: &[],
@@ -586,14 +586,14 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "hypot",
-        deps: &["fty"],
+        deps: &["fty", "MIN_POSITIVE"],
         num_terms: [16, 24],
         gen: Some(crate::recip_sqrt::gen_hypot),
         test_specs: &[],
     },
     Function {
         name: "runif",
-        deps: &["fty"],
+        deps: &["fty", "uty", "ONE_BITS"],
         num_terms: [0, 0],
         gen: Some(crate::stats_random::gen_runif),
         test_specs: &[
@@ -726,7 +726,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "tan",
-        deps: &["fty", "RECIP_PI"],
+        deps: &["fty", "round", "RECIP_PI"],
         num_terms: [12, 24],
         gen: Some(crate::trig::gen_tan),
         test_specs: &[
-- 
2.43.0


From 03e63537966936c7934dac1305130ad75da09e6f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:09 +0000
Subject: [PATCH 10/87] fix: ONE_BITS and ONE_MASK are integers, not floating
 point

---
 libmgen/src/auxfuncs.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libmgen/src/auxfuncs.rs b/libmgen/src/auxfuncs.rs
index 551f127..640d3a6 100644
--- a/libmgen/src/auxfuncs.rs
+++ b/libmgen/src/auxfuncs.rs
@@ -49,12 +49,12 @@ pub fn gen_INF(_terms: usize, config: &Config) -> TokenStream {
 pub fn gen_ONE_BITS(_terms: usize, config: &Config) -> TokenStream {
     if config.num_bits() == 32 {
         quote!(
-            const ONE_BITS: fty = 0x3f800000_u32;
+            const ONE_BITS: uty = 0x3f800000_u32;
         )
     
     } else {
         quote!(
-            const ONE_BITS: fty = 0x3ff0000000000000_u64;
+            const ONE_BITS: uty = 0x3ff0000000000000_u64;
         )
     }
 }
@@ -63,12 +63,12 @@ pub fn gen_ONE_BITS(_terms: usize, config: &Config) -> TokenStream {
 pub fn gen_ONE_MASK(_terms: usize, config: &Config) -> TokenStream {
     if config.num_bits() == 32 {
         quote!(
-            const ONE_MASK: fty = 0x007fffff_u32;
+            const ONE_MASK: uty = 0x007fffff_u32;
         )
     
     } else {
         quote!(
-            const ONE_MASK: fty = 0x000fffffffffffff_u64;
+            const ONE_MASK: uty = 0x000fffffffffffff_u64;
         )
     }
 }
-- 
2.43.0


From 004a5ab4941a62fd84a5ed78ce00de378c577ff4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:30 +0000
Subject: [PATCH 11/87] fix: runif did not compile at 32 bits

---
 libmgen/src/stats_random.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libmgen/src/stats_random.rs b/libmgen/src/stats_random.rs
index 815c695..9b271aa 100644
--- a/libmgen/src/stats_random.rs
+++ b/libmgen/src/stats_random.rs
@@ -7,10 +7,10 @@ pub fn gen_runif(num_terms: usize, config: &Config) -> TokenStream {
         /// See https://xorshift.di.unimi.it/splitmix64.c
         /// Returns half-close range 0-1
         pub fn runif(index: usize, min: fty, max: fty) -> fty {
-            let z : uty = (index as u64 + 1).wrapping_mul(0x9e3779b97f4a7c15);
-            let z1 : uty = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
-            let z2 : uty = (z1 ^ (z1 >> 27)).wrapping_mul(0x94d049bb133111eb);
-            let z3 : uty = z2 ^ (z2 >> 31);
+            let z : u64 = (index as u64 + 1).wrapping_mul(0x9e3779b97f4a7c15);
+            let z1 : u64 = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
+            let z2 : u64 = (z1 ^ (z1 >> 27)).wrapping_mul(0x94d049bb133111eb);
+            let z3 : u64 = z2 ^ (z2 >> 31);
             let x : fty = fty::from_bits((z3 as uty >> 2) | ONE_BITS) - 1.0;
             (x * (max - min)) + min
         }
-- 
2.43.0


From b80a6704b1e9fe2e672c01ac1d5c0401ffab529d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:34 +0000
Subject: [PATCH 12/87] fix: let without a type became an undeclared variable
 in C

---
 doctor-syn/src/codegen/c.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index b36b0e7..478942b 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -969,7 +969,12 @@ impl<'ast> Visit<'ast> for CVisitor {
         if let Some(it) = &node.init {
             self.visit_expr(&*(it).1);
             let expr = self.tos();
-            ret!(self, "{} = {}", pat, expr);
+            if let Pat::Type(_) = &node.pat {
+                ret!(self, "{} = {}", pat, expr);
+            } else {
+                // No type given, use the type of the value.
+                ret!(self, "__auto_type {} = {}", pat, expr);
+            }
         } else {
             ret!(self, "{}", pat);
         }
-- 
2.43.0


From 3d3fec754befd03523c3a07fd3684b9a9af2640b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:34 +0000
Subject: [PATCH 13/87] fix: C functions were called before they were declared

---
 doctor-syn/src/codegen/c.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index 478942b..10e58b0 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -651,7 +651,21 @@ impl<'ast> Visit<'ast> for CVisitor {
 
         let mut items = Vec::new();
         items.push("#include <math.h>".to_string());
+        let mut declared = false;
         for it in &node.items {
+            if let Item::Fn(_) = it {
+                // Declare every function first as C needs this to call it.
+                if !declared {
+                    for it in &node.items {
+                        if let Item::Fn(f) = it {
+                            self.visit_signature(&f.sig);
+                            let sig = self.tos();
+                            items.push(format!("{};", sig));
+                        }
+                    }
+                    declared = true;
+                }
+            }
             self.visit_item(it);
             items.push(self.tos());
         }
-- 
2.43.0


From 3c000f6069f7f50bc0e7a8e92fa1d5d4a14c0529 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:34 +0000
Subject: [PATCH 14/87] fix: NAN, INFINITY and MIN_POSITIVE did not compile in
 C

---
 doctor-syn/src/codegen/c.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index 10e58b0..8cd887e 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -793,7 +793,11 @@ impl<'ast> Visit<'ast> for CVisitor {
         self.visit_expr(&*node.expr);
         let expr = self.tos();
         // tokens_helper(v, &node.semi_token.spans);
-        ret!(self, "const {} {} = {};", ty, ident, expr);
+        match ident.as_str() {
+            // These are macros in math.h
+            "NAN" | "INFINITY" => ret!(self, "#undef {}\nconst {} {} = {};", ident, ty, ident, expr),
+            _ => ret!(self, "const {} {} = {};", ty, ident, expr),
+        }
     }
 
     fn visit_item_enum(&mut self, node: &'ast ItemEnum) {
@@ -1156,7 +1160,13 @@ impl<'ast> Visit<'ast> for CVisitor {
         self.log("visit_path");
         use quote::ToTokens;
         let path = node.to_token_stream().to_string().replace(" :: ", "_");
-        self.push(path);
+        self.push(match path.as_str() {
+            "f32_NAN" | "f64_NAN" => "__builtin_nan(\"\")".to_string(),
+            "f32_INFINITY" | "f64_INFINITY" => "__builtin_inf()".to_string(),
+            "f32_MIN_POSITIVE" => "1.17549435e-38f".to_string(),
+            "f64_MIN_POSITIVE" => "2.2250738585072014e-308".to_string(),
+            _ => path,
+        });
     }
 
     fn visit_path_arguments(&mut self, node: &'ast PathArguments) {
-- 
2.43.0


From a3c9b5854ded27fd74af46af37a63ae8b0e70c26 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:34 +0000
Subject: [PATCH 15/87] fix: C output changed the grouping of conditionals,
 bitwise and unary operators

---
 doctor-syn/src/codegen/c.rs | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index 8cd887e..2a99045 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -322,11 +322,11 @@ impl<'ast> Visit<'ast> for CVisitor {
         //     self.visit_attribute(it);
         // }
         self.visit_expr(&*node.left);
-        let lhs = self.tos();
+        let lhs = c_operand(&*node.left, self.tos());
         self.visit_bin_op(&node.op);
         let op = self.tos();
         self.visit_expr(&*node.right);
-        let rhs = self.tos();
+        let rhs = c_operand(&*node.right, self.tos());
         ret!(self, "{} {} {}", lhs, op, rhs);
     }
 
@@ -430,7 +430,7 @@ impl<'ast> Visit<'ast> for CVisitor {
         if let Some(it) = &node.else_branch {
             self.visit_expr(&*(it).1);
             let f = self.tos();
-            ret!(self, "({}) ? ({}) : ({})", cond, t, f);
+            ret!(self, "(({}) ? ({}) : ({}))", cond, t, f);
         } else {
             ret!(self, "<<if requires an else>>")
         };
@@ -584,7 +584,12 @@ impl<'ast> Visit<'ast> for CVisitor {
         let op = self.tos();
         self.visit_expr(&*node.expr);
         let expr = self.tos();
-        ret!(self, "{}{}", op, expr);
+        if let Expr::Unary(_) = &*node.expr {
+            // eg. "- -x" must not become "--x"
+            ret!(self, "{}({})", op, expr);
+        } else {
+            ret!(self, "{}{}", op, expr);
+        }
     }
 
     fn visit_expr_unsafe(&mut self, node: &'ast ExprUnsafe) {
@@ -1538,6 +1543,22 @@ impl<'ast> Visit<'ast> for CVisitor {
     }
 }
 
+// The bitwise operators have a lower precedence in C than in Rust.
+fn c_operand(expr: &Expr, text: String) -> String {
+    match expr {
+        Expr::Binary(ExprBinary {
+            op: BinOp::BitAnd(_), ..
+        })
+        | Expr::Binary(ExprBinary {
+            op: BinOp::BitXor(_), ..
+        })
+        | Expr::Binary(ExprBinary {
+            op: BinOp::BitOr(_), ..
+        }) => format!("({})", text),
+        _ => text,
+    }
+}
+
 fn translate_basic_types(name: String) -> String {
     match name.as_str() {
         "bool" => "int".to_string(),
-- 
2.43.0


From 9c1abff0cd9e06997d69c705fa4f971b05bf655f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:34 +0000
Subject: [PATCH 16/87] fix: C output called abs, ln, to_bits and other methods
 which are not in math.h

---
 doctor-syn/src/codegen/c.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index 2a99045..54039de 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -498,6 +498,12 @@ impl<'ast> Visit<'ast> for CVisitor {
 
         self.push(match ident.as_str() {
             "round" => format!("{}{}({})", ident, self.options.float_suffix, args.join(", ")),
+            "abs" => format!("fabs{}({})", self.options.float_suffix, args.join(", ")),
+            "ln" => format!("log{}({})", self.options.float_suffix, args.join(", ")),
+            "powf" => format!("pow{}({})", self.options.float_suffix, args.join(", ")),
+            "min" | "max" => format!("f{}{}({})", ident, self.options.float_suffix, args.join(", ")),
+            "recip" => format!("(1 / ({}))", args[0]),
+            "to_bits" => format!("({{ union {{ fty f; uty u; }} u; u.f = ({}); u.u; }})", args[0]),
             "mul_add" => format!("(({}\n) * ({}) + ({}))", args[0], args[1], args[2]),
             _ => format!("{}({})", ident, args.join(", ")),
         })
-- 
2.43.0


From 60d80f07c1f946024c7f221d4cc10c5b1e940895 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:34 +0000
Subject: [PATCH 17/87] fix: nextafter needs uty in C

---
 libmgen/src/functions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmgen/src/functions.rs b/libmgen/src/functions.rs
index cd7b46c..33fb97e 100644
--- a/libmgen/src/functions.rs
+++ b/libmgen/src/functions.rs
@@ -283,7 +283,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "nextafter",
-        deps: &["fty"],
+        deps: &["fty", "uty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_nextafter),
         test_specs: &[TestSpec {
-- 
2.43.0


From b08db05a335c1c3a6768e94ee990428c7681f991 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:14 +0000
Subject: [PATCH 18/87] fix: cbrt declared the same variable five times in C

---
 libmgen/src/recip_sqrt.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libmgen/src/recip_sqrt.rs b/libmgen/src/recip_sqrt.rs
index bc91859..39ddeab 100644
--- a/libmgen/src/recip_sqrt.rs
+++ b/libmgen/src/recip_sqrt.rs
@@ -45,11 +45,11 @@ pub fn gen_cbrt(_num_terms: usize, _config: &Config) -> TokenStream {
             );
 
             // Newton-Raphson step.
-            let r: fty = r + (x.abs() - r * r * r) / (3.0 * r * r);
-            let r: fty = r + (x.abs() - r * r * r) / (3.0 * r * r);
-            let r: fty = r + (x.abs() - r * r * r) / (3.0 * r * r);
-            let r: fty = r + (x.abs() - r * r * r) / (3.0 * r * r);
-            r.copysign(x)
+            let r1: fty = r + (x.abs() - r * r * r) / (3.0 * r * r);
+            let r2: fty = r1 + (x.abs() - r1 * r1 * r1) / (3.0 * r1 * r1);
+            let r3: fty = r2 + (x.abs() - r2 * r2 * r2) / (3.0 * r2 * r2);
+            let r4: fty = r3 + (x.abs() - r3 * r3 * r3) / (3.0 * r3 * r3);
+            r4.copysign(x)
         }
     )
 }
-- 
2.43.0


From 183d5ac8694468b55484a259327d4e4e972f0354 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:14 +0000
Subject: [PATCH 19/87] fix: usize and wrapping_mul did not compile in C

---
 doctor-syn/src/codegen/c.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index 54039de..6459595 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -502,6 +502,7 @@ impl<'ast> Visit<'ast> for CVisitor {
             "ln" => format!("log{}({})", self.options.float_suffix, args.join(", ")),
             "powf" => format!("pow{}({})", self.options.float_suffix, args.join(", ")),
             "min" | "max" => format!("f{}{}({})", ident, self.options.float_suffix, args.join(", ")),
+            "wrapping_mul" => format!("(({}) * ({}))", args[0], args[1]),
             "recip" => format!("(1 / ({}))", args[0]),
             "to_bits" => format!("({{ union {{ fty f; uty u; }} u; u.f = ({}); u.u; }})", args[0]),
             "mul_add" => format!("(({}\n) * ({}) + ({}))", args[0], args[1], args[2]),
@@ -1572,6 +1573,7 @@ fn translate_basic_types(name: String) -> String {
         "i64" => "long long".to_string(),
         "u32" => "unsigned int".to_string(),
         "u64" => "unsigned long long".to_string(),
+        "usize" => "unsigned long".to_string(),
         "f32" => "float".to_string(),
         "f64" => "double".to_string(),
         _ => name,
-- 
2.43.0


From ffd9656ef6c8c57305a31afba8ec63b166d31085 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:51 +0000
Subject: [PATCH 20/87] fix: from_bits in C captured a variable called u

---
 doctor-syn/src/codegen/c.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index 6459595..3f799ae 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -369,7 +369,7 @@ impl<'ast> Visit<'ast> for CVisitor {
 
         self.push(match expr.as_str() {
             "fty_from_bits" => {
-                format!("({{ union {{ fty f; uty u; }} u; u.u = ({}); u.f; }})", args)
+                format!("({{ union {{ fty f; uty u; }} ds_bits; ds_bits.u = ({}); ds_bits.f; }})", args)
             }
             _ => {
                 format!("{}{}({})", self.options.prefix, expr, args)
@@ -504,7 +504,7 @@ impl<'ast> Visit<'ast> for CVisitor {
             "min" | "max" => format!("f{}{}({})", ident, self.options.float_suffix, args.join(", ")),
             "wrapping_mul" => format!("(({}) * ({}))", args[0], args[1]),
             "recip" => format!("(1 / ({}))", args[0]),
-            "to_bits" => format!("({{ union {{ fty f; uty u; }} u; u.f = ({}); u.u; }})", args[0]),
+            "to_bits" => format!("({{ union {{ fty f; uty u; }} ds_bits; ds_bits.f = ({}); ds_bits.u; }})", args[0]),
             "mul_add" => format!("(({}\n) * ({}) + ({}))", args[0], args[1], args[2]),
             _ => format!("{}({})", ident, args.join(", ")),
         })
-- 
2.43.0


From 5390be4fb92520dcb80c40513091a77ef99ed090 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:51 +0000
Subject: [PATCH 21/87] hooks: print the function table and resolve requests
 (cfg verif_hooks)

---
 libmgen/src/main.rs        |  7 +++++++
 libmgen/src/verif_hooks.rs | 33 +++++++++++++++++++++++++++++++++
 2 files changed, 40 insertions(+)
 create mode 100644 libmgen/src/verif_hooks.rs

diff --git a/libmgen/src/main.rs b/libmgen/src/main.rs
index 173e777..4cefe73 100644
--- a/libmgen/src/main.rs
+++ b/libmgen/src/main.rs
@@ -41,6 +41,8 @@ mod stats_norm;
 mod stats_random;
 mod test;
 mod trig;
+#[cfg(verif_hooks)]
+mod verif_hooks;
 
 use config::Config;
 use std::path::PathBuf;
@@ -363,6 +365,11 @@ fn main() {
         return;
     }
 
+    #[cfg(verif_hooks)]
+    if verif_hooks::run(&opt.functions) {
+        return;
+    }
+
     let names = opt
         .functions
         .split(',')
diff --git a/libmgen/src/verif_hooks.rs b/libmgen/src/verif_hooks.rs
new file mode 100644
index 0000000..cc009a4
--- /dev/null
+++ b/libmgen/src/verif_hooks.rs
@@ -0,0 +1,33 @@
+//! Hooks for the verification machinery, only built with --cfg verif_hooks.
+use crate::functions;
+use std::io::BufRead;
+
+/// Run a hook command given instead of a list of functions.
+pub fn run(command: &str) -> bool {
+    match command {
+        // Print the function table.
+        "verif-table" => {
+            for f in functions::FUNCTIONS {
+                println!("{}|{}|{}", f.name, f.gen.is_some(), f.deps.join(","));
+            }
+            true
+        }
+        // Resolve lines of "requested names|excluded names".
+        "verif-resolve" => {
+            for line in std::io::stdin().lock().lines() {
+                let line = line.unwrap();
+                let mut parts = line.split('|');
+                let mut names = || {
+                    let names = parts.next().unwrap().split(',');
+                    names.map(str::to_string).collect::<Vec<_>>()
+                };
+                let (names, exclude) = (names(), names());
+                let funcs = functions::get_functions_and_deps(&names, &exclude);
+                let funcs = funcs.iter().map(|f| f.name).collect::<Vec<_>>();
+                println!("{}", funcs.join(","));
+            }
+            true
+        }
+        _ => false,
+    }
+}
-- 
2.43.0


From e17f1f75e9c102681db8d82e4b5ba125795427e7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:25 +0000
Subject: [PATCH 22/87] fix: expand() stopped at doubled parentheses

---
 doctor-syn/src/transformation/tools.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doctor-syn/src/transformation/tools.rs b/doctor-syn/src/transformation/tools.rs
index 04a91ef..c08ca27 100644
--- a/doctor-syn/src/transformation/tools.rs
+++ b/doctor-syn/src/transformation/tools.rs
@@ -22,7 +22,7 @@ pub fn negate(expr: &Expr) -> Expr {
 // Strip parentheses.
 pub fn deparen(expr: &Expr) -> &Expr {
     match expr {
-        Expr::Paren(ExprParen { expr, .. }) => &*expr,
+        Expr::Paren(ExprParen { expr, .. }) => deparen(expr),
         _ => expr,
     }
 }
-- 
2.43.0


From 81f923e9019c4e66272c4771c51150857c0651b3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:50 +0000
Subject: [PATCH 23/87] fix: expand() left a sum under a negation inside a sum
 or product

---
 doctor-syn/src/transformation/expand.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/doctor-syn/src/transformation/expand.rs b/doctor-syn/src/transformation/expand.rs
index 36cbda2..6635aa4 100644
--- a/doctor-syn/src/transformation/expand.rs
+++ b/doctor-syn/src/transformation/expand.rs
@@ -49,6 +49,11 @@ fn match_sum(expr: &Expr, sum: &mut Vec<Expr>, is_negated: bool) -> Result<()> {
             }
             _ => {}
         },
+        Expr::Unary(ExprUnary {
+            op: UnOp::Neg(_),
+            expr,
+            ..
+        }) => return match_sum(expr, sum, !is_negated),
         _ => {}
     }
     // Anything else is kept as one operand.
-- 
2.43.0


From ec39a4531fdcd9dc56c1712526ecb7d6441bed94 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:14 +0000
Subject: [PATCH 24/87] fix: the normal functions accepted a negative deviation

---
 doctor-syn/src/transformation/eval.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/doctor-syn/src/transformation/eval.rs b/doctor-syn/src/transformation/eval.rs
index f8f9a1f..a307229 100644
--- a/doctor-syn/src/transformation/eval.rs
+++ b/doctor-syn/src/transformation/eval.rs
@@ -135,15 +135,15 @@ impl Visitor for Eval {
 
             ("erfc", x, 0) => Ok(Expression::from(erfc(x, self.num_digits)).into()),
 
-            ("dnorm", x, 2) if !args[1].is_zero() => {
+            ("dnorm", x, 2) if args[1].is_positive() => {
                 Ok(Expression::from(dnorm(x, arg0(), arg1(), self.num_digits)).into())
             }
 
-            ("pnorm", x, 2) if !args[1].is_zero() => {
+            ("pnorm", x, 2) if args[1].is_positive() => {
                 Ok(Expression::from(pnorm(x, arg0(), arg1(), self.num_digits)).into())
             }
 
-            ("qnorm", x, 2) if !args[1].is_zero() => Ok(Expression::from(
+            ("qnorm", x, 2) if args[1].is_positive() => Ok(Expression::from(
                 qnorm(x, arg0(), arg1(), self.num_digits).ok_or_else(errfn)?,
             )
             .into()),
-- 
2.43.0


From 68e4037487ffcc2c2a888bb05dab7b56285a4ea8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:23 +0000
Subject: [PATCH 25/87] fix: eval() accepted a field of a number as its value

---
 doctor-syn/src/transformation/eval.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/doctor-syn/src/transformation/eval.rs b/doctor-syn/src/transformation/eval.rs
index a307229..784b8aa 100644
--- a/doctor-syn/src/transformation/eval.rs
+++ b/doctor-syn/src/transformation/eval.rs
@@ -9,7 +9,7 @@ use crate::visitor::Visitor;
 use crate::Expression;
 
 use std::convert::TryInto;
-use syn::{BinOp, Expr, ExprBinary, ExprMethodCall, ExprParen, ExprPath, ExprUnary, UnOp};
+use syn::{BinOp, Expr, ExprBinary, ExprField, ExprMethodCall, ExprParen, ExprPath, ExprUnary, UnOp};
 
 use crate::bdmath::*;
 
@@ -213,6 +213,11 @@ impl Visitor for Eval {
         }
     }
 
+    // eg. "x.y"
+    fn visit_field(&self, exprfield: &ExprField) -> Result<Expr> {
+        Err(eval_err(exprfield.clone().into()))
+    }
+
     // eg. "x" or "f64::const::PI"
     fn visit_path(&self, exprpath: &ExprPath) -> Result<Expr> {
         if let Some(name) = exprpath.path.get_ident() {
-- 
2.43.0


From 628ab17c806f7400aa0db59bf40dec21ab62eadf Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:57 +0000
Subject: [PATCH 26/87] fix: sin, cos, exp and erf lost their digits, or
 panicked, for large arguments

---
 doctor-syn/src/bdmath.rs              | 47 ++++++++++++++++++++++-----
 doctor-syn/src/transformation/eval.rs |  4 +--
 2 files changed, 41 insertions(+), 10 deletions(-)

diff --git a/doctor-syn/src/bdmath.rs b/doctor-syn/src/bdmath.rs
index 72fdff6..2ff830c 100644
--- a/doctor-syn/src/bdmath.rs
+++ b/doctor-syn/src/bdmath.rs
@@ -132,11 +132,14 @@ fn maclaurin<F: FnMut(i32, &BigDecimal, &BigDecimal, &BigDecimal) -> Option<BigD
     let mut i = 0;
     // let imax = x.digits() as i32 * 10;
     let imax = 30000;
+    // The terms grow to exp(|x|) before they shrink: carry that many digits more.
+    let grow = (x.abs() * bigdf(0.45)).to_i64().unwrap_or(0);
+    let work_digits = num_digits * 2 + grow;
     loop {
         let new_tot = f(i, &tot, &power, &factorial);
 
         if let Some(new_tot) = new_tot {
-            let new_tot = round(new_tot, num_digits as i64 * 2);
+            let new_tot = round(new_tot, work_digits);
             // println!(
             //     "new_tot={} power={} factorial={}",
             //     new_tot, power, factorial
@@ -153,14 +156,26 @@ fn maclaurin<F: FnMut(i32, &BigDecimal, &BigDecimal, &BigDecimal) -> Option<BigD
         power *= &x;
         i += 1;
         factorial *= bigd(i);
-        power = round(power, num_digits as i64 * 2);
+        power = round(power, work_digits);
     }
 
     round(tot, num_digits as i64 + 1).normalized()
 }
 
+/// Take whole turns from a large angle.
+fn reduce_angle(x: BigDecimal, num_digits: i64) -> BigDecimal {
+    if x.abs() <= bigd(4) {
+        return x;
+    }
+    let (digits, scale) = x.as_bigint_and_exponent();
+    let whole_digits = (digits.to_string().len() as i64 - scale).max(0);
+    let turn = pi(num_digits * 2 + whole_digits) * two();
+    let turns = round(&x / &turn, 0);
+    x - turns * turn
+}
+
 pub fn sin(x: BigDecimal, num_digits: i64) -> BigDecimal {
-    maclaurin(x, num_digits, |i, tot, power, factorial| match i & 3 {
+    maclaurin(reduce_angle(x, num_digits), num_digits, |i, tot, power, factorial| match i & 3 {
         1 => Some(tot + power / factorial),
         3 => Some(tot - power / factorial),
         _ => None,
@@ -168,14 +183,26 @@ pub fn sin(x: BigDecimal, num_digits: i64) -> BigDecimal {
 }
 
 pub fn cos(x: BigDecimal, num_digits: i64) -> BigDecimal {
-    maclaurin(x, num_digits, |i, tot, power, factorial| match i & 3 {
+    maclaurin(reduce_angle(x, num_digits), num_digits, |i, tot, power, factorial| match i & 3 {
         0 => Some(tot + power / factorial),
         2 => Some(tot - power / factorial),
         _ => None,
     })
 }
 
+/// The largest argument for which the series of exp is practical.
+pub fn max_exponent() -> BigDecimal {
+    bigd(5000)
+}
+
 pub fn exp(x: BigDecimal, num_digits: i64) -> BigDecimal {
+    if x < bigd(-10 - 3 * num_digits as i32) {
+        return zero();
+    }
+    if x < bigd(-4) {
+        // The alternating series cancels.
+        return round(one() / exp(-x, num_digits), num_digits + 1).normalized();
+    }
     maclaurin(x, num_digits, |_i, tot, power, factorial| {
         Some(tot + power / factorial)
     })
@@ -296,11 +323,11 @@ pub fn log(x: BigDecimal, base: BigDecimal, num_digits: i64) -> Option<BigDecima
 }
 
 pub fn pow(x: BigDecimal, y: BigDecimal, num_digits: i64) -> Option<BigDecimal> {
-    if let Some(lnx) = ln(x, num_digits) {
-        Some(exp(y * lnx, num_digits))
-    } else {
-        None
+    let exponent = y * ln(x, num_digits)?;
+    if exponent > max_exponent() {
+        return None;
     }
+    Some(exp(exponent, num_digits))
 }
 
 /// erf(x) = 2*pnorm(sqrt(2)*x) - 1
@@ -308,6 +335,10 @@ pub fn pow(x: BigDecimal, y: BigDecimal, num_digits: i64) -> Option<BigDecimal>
 /// 1       -3        10      -42      216
 /// 1 * 1!  -3 * 1!   5 * 2!  -7 * 3!  9 * 4!
 pub fn erf(x: BigDecimal, num_digits: i64) -> BigDecimal {
+    if &x * &x > bigd(num_digits as i32 * 3 + 10) {
+        // The complement is below exp(-x*x).
+        return x.signum();
+    }
     two() / sqrt(pi(num_digits), num_digits).unwrap()
         * &x
         * maclaurin(&x * &x, num_digits, |i, tot, power, factorial| {
diff --git a/doctor-syn/src/transformation/eval.rs b/doctor-syn/src/transformation/eval.rs
index 784b8aa..a32c0cf 100644
--- a/doctor-syn/src/transformation/eval.rs
+++ b/doctor-syn/src/transformation/eval.rs
@@ -82,7 +82,7 @@ impl Visitor for Eval {
 
             ("sqrt", x, 0) => Ok(Expression::from(x.sqrt().ok_or_else(errfn)?).into()),
 
-            ("exp", x, 0) => Ok(Expression::from(exp(x, self.num_digits)).into()),
+            ("exp", x, 0) if x <= max_exponent() => Ok(Expression::from(exp(x, self.num_digits)).into()),
 
             ("exp2", x, 0) => {
                 Ok(Expression::from(pow(two(), x, self.num_digits).ok_or_else(errfn)?).into())
@@ -123,7 +123,7 @@ impl Visitor for Eval {
 
             ("cos", x, 0) => Ok(Expression::from(cos(x, self.num_digits)).into()),
 
-            ("tan", x, 0) => Ok(Expression::from(tan(x, self.num_digits)).into()),
+            ("tan", x, 0) if !cos(x.clone(), self.num_digits).is_zero() => Ok(Expression::from(tan(x, self.num_digits)).into()),
 
             ("asin", x, 0) if x.abs() <= one() => Ok(Expression::from(asin(x, self.num_digits)).into()),
 
-- 
2.43.0


From 198b0eccc22bf23bb531efa37c82db8218711152 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:26 +0000
Subject: [PATCH 27/87] fix: number types rounded badly for large and tiny
 literals and panicked on overflow

---
 .../src/transformation/use_number_type.rs     | 27 ++++++++++---------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/doctor-syn/src/transformation/use_number_type.rs b/doctor-syn/src/transformation/use_number_type.rs
index 31ea71f..3b2c474 100644
--- a/doctor-syn/src/transformation/use_number_type.rs
+++ b/doctor-syn/src/transformation/use_number_type.rs
@@ -1,6 +1,5 @@
-use crate::error::Result;
+use crate::error::{Error, Result};
 use crate::visitor::Visitor;
-use bigdecimal::*;
 use syn::{parse_quote, Expr, ExprLit, Lit};
 
 #[derive(Debug)]
@@ -14,12 +13,14 @@ impl<'a> Visitor for UseNumberType<'a> {
     fn visit_lit(&self, expr: &ExprLit) -> Result<Expr> {
         match &expr.lit {
             Lit::Float(lit) => {
-                let bd: BigDecimal = lit.base10_digits().parse().unwrap();
-                let float32 = bd.to_f32().unwrap();
-                let float64 = bd.to_f64().unwrap();
-                let bits32 = bd.to_f32().unwrap().to_bits();
-                let bits64 = bd.to_f64().unwrap().to_bits();
+                // Parsing rounds to nearest, BigDecimal::to_f64 does not.
+                let float32: f32 = lit.base10_digits().parse().unwrap();
+                let float64: f64 = lit.base10_digits().parse().unwrap();
+                let bits32 = float32.to_bits();
+                let bits64 = float64.to_bits();
                 let e: Expr = match (self.number_type, self.num_bits) {
+                    ("decimal" | "hex", 32) if float32.is_infinite() => return Err(Error::Overflow),
+                    ("decimal" | "hex", 64) if float64.is_infinite() => return Err(Error::Overflow),
                     ("decimal", 32) => parse_quote!(#float32),
                     ("decimal", 64) => parse_quote!(#float64),
                     ("hex", 32) => parse_quote!(f32::from_bits(#bits32)),
@@ -29,12 +30,14 @@ impl<'a> Visitor for UseNumberType<'a> {
                 Ok(e)
             }
             Lit::Int(lit) => {
-                let bd: BigDecimal = lit.base10_digits().parse().unwrap();
-                let float32 = bd.to_f32().unwrap();
-                let float64 = bd.to_f64().unwrap();
-                let bits32 = bd.to_f32().unwrap().to_bits();
-                let bits64 = bd.to_f64().unwrap().to_bits();
+                // Parsing rounds to nearest, BigDecimal::to_f64 does not.
+                let float32: f32 = lit.base10_digits().parse().unwrap();
+                let float64: f64 = lit.base10_digits().parse().unwrap();
+                let bits32 = float32.to_bits();
+                let bits64 = float64.to_bits();
                 let e: Expr = match (self.number_type, self.num_bits) {
+                    ("decimal" | "hex", 32) if float32.is_infinite() => return Err(Error::Overflow),
+                    ("decimal" | "hex", 64) if float64.is_infinite() => return Err(Error::Overflow),
                     ("decimal", 32) => parse_quote!(#float32),
                     ("decimal", 64) => parse_quote!(#float64),
                     ("hex", 32) => parse_quote!(f32::from_bits(#bits32)),
-- 
2.43.0


From 500a87d6157d38e06903922925095b12df0eaf2d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:05 +0000
Subject: [PATCH 28/87] fix: approx() panicked for fewer than two terms and for
 an empty interval

---
 doctor-syn/src/transformation/approx.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/doctor-syn/src/transformation/approx.rs b/doctor-syn/src/transformation/approx.rs
index f229652..864125f 100644
--- a/doctor-syn/src/transformation/approx.rs
+++ b/doctor-syn/src/transformation/approx.rs
@@ -77,6 +77,16 @@ pub fn approx(
     parity: Parity,
     num_digits: i64,
 ) -> Result<Expression> {
+    // Both ends of the interval are nodes and no two nodes may coincide.
+    if num_terms < 2 {
+        return Err(Error::WrongNumberOfTerms(expr.span()));
+    }
+    if !xmin.is_finite() || !xmax.is_finite() || xmin == xmax {
+        return Err(Error::CouldNotEvaulate(format!(
+            "an approximation from {} to {}",
+            xmin, xmax
+        )));
+    }
     let xmin = bigdf(xmin);
     let xmax = bigdf(xmax);
 
-- 
2.43.0


From 9084a510d4bba746216ba3f04bcab24f8e81e5bf Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:29 +0000
Subject: [PATCH 29/87] fix: formatting glued separate tokens together and
 panicked on deep nesting

---
 doctor-syn/src/codegen/rust.rs | 42 +++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/doctor-syn/src/codegen/rust.rs b/doctor-syn/src/codegen/rust.rs
index 261d6e6..d358142 100644
--- a/doctor-syn/src/codegen/rust.rs
+++ b/doctor-syn/src/codegen/rust.rs
@@ -1,11 +1,27 @@
-use proc_macro2::{Delimiter, TokenStream, TokenTree};
+use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
 
-fn indent(depth: usize) -> &'static str {
-    let i = "                                                            ";
-    &i[0..depth * 2]
+fn indent(depth: usize) -> String {
+    "  ".repeat(depth)
 }
 
-fn append_token(text: &mut String, tt: &TokenTree, depth: usize) {
+/// True if the tokens would be read as something else without a space between them.
+fn need_space(prev: Option<&TokenTree>, tt: &TokenTree) -> bool {
+    use TokenTree::*;
+    match (prev, tt) {
+        (None, _) => false,
+        (Some(Group(g)), _) if g.delimiter() == Delimiter::None => true,
+        (_, Group(g)) => g.delimiter() == Delimiter::None,
+        (Some(Punct(p)), Punct(_)) => p.spacing() == Spacing::Alone,
+        (Some(Literal(_)), Ident(_)) | (Some(Literal(_)), Literal(_)) => true,
+        (Some(Literal(_)), Punct(p)) => p.as_char() == '.',
+        _ => false,
+    }
+}
+
+fn append_token(text: &mut String, prev: Option<&TokenTree>, tt: &TokenTree, depth: usize) {
+    if need_space(prev, tt) {
+        text.push(' ');
+    }
     if let TokenTree::Group(g) = &tt {
         match g.delimiter() {
             Delimiter::Parenthesis => {
@@ -14,9 +30,7 @@ fn append_token(text: &mut String, tt: &TokenTree, depth: usize) {
             Delimiter::Brace => {
                 text.extend("{\n".chars());
                 text.extend(indent(depth + 1).chars());
-                for tt in g.stream() {
-                    append_token(text, &tt, depth + 1);
-                }
+                append_tokens(text, g.stream(), depth + 1);
                 text.extend("\n".chars());
                 text.extend(indent(depth).chars());
                 text.extend("}".chars());
@@ -62,11 +76,17 @@ fn append_token(text: &mut String, tt: &TokenTree, depth: usize) {
     }
 }
 
+fn append_tokens(text: &mut String, tokens: TokenStream, depth: usize) {
+    let mut prev = None;
+    for tt in tokens {
+        append_token(text, prev.as_ref(), &tt, depth);
+        prev = Some(tt);
+    }
+}
+
 /// Pretty (ish) print a token stream.
 pub fn format_token_stream(tokens: TokenStream) -> String {
     let mut text = String::new();
-    for tt in tokens {
-        append_token(&mut text, &tt, 0);
-    }
+    append_tokens(&mut text, tokens, 0);
     text
 }
-- 
2.43.0


From fa275fb8c1c81474828f474582482caa1986ff95 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:37 +0000
Subject: [PATCH 30/87] fix: the C translation dropped the types of literals

---
 doctor-syn/src/codegen/c.rs | 105 +++++++++++++++++++++++++++++++-----
 1 file changed, 92 insertions(+), 13 deletions(-)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index 3f799ae..8ed6ed0 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -20,12 +20,20 @@ impl Default for Options {
 
 struct CVisitor {
     options: Options,
+    // The suffixes of literals that have none in Rust.
+    float_suffix: String,
+    int_suffix: String,
+    // The C types of type aliases.
+    aliases: Vec<(String, String)>,
     stack: Vec<String>,
 }
 
 impl CVisitor {
     fn new(options: Options) -> Self {
         CVisitor {
+            float_suffix: options.float_suffix.clone(),
+            int_suffix: String::new(),
+            aliases: Vec::new(),
             options,
             stack: Vec::new(),
         }
@@ -45,6 +53,52 @@ impl CVisitor {
     }
 }
 
+impl CVisitor {
+    // Translate an expression that is expected to have a certain type.
+    fn expr_of_type(&mut self, expr: &Expr, ty: &str) -> String {
+        let ty = self.aliases.iter().find(|a| a.0 == ty).map_or(ty, |a| &a.1);
+        let float_suffix = match ty {
+            "float" => "f".to_string(),
+            "double" => "".to_string(),
+            _ => self.float_suffix.clone(),
+        };
+        let int_suffix = match ty {
+            "unsigned int" if is_literal(expr) => "u",
+            "unsigned long" if is_literal(expr) => "ul",
+            "unsigned long long" if is_literal(expr) => "ull",
+            "long long" if is_literal(expr) => "ll",
+            _ => "",
+        };
+        let float_suffix = std::mem::replace(&mut self.float_suffix, float_suffix);
+        let int_suffix = std::mem::replace(&mut self.int_suffix, int_suffix.to_string());
+        self.visit_expr(expr);
+        self.float_suffix = float_suffix;
+        self.int_suffix = int_suffix;
+        self.tos()
+    }
+}
+
+// Does the expression consist of literals and operators only?
+fn is_literal(expr: &Expr) -> bool {
+    match expr {
+        Expr::Lit(_) => true,
+        Expr::Unary(e) => is_literal(&*e.expr),
+        Expr::Paren(e) => is_literal(&*e.expr),
+        Expr::Binary(e) => is_literal(&*e.left) && is_literal(&*e.right),
+        _ => false,
+    }
+}
+
+// "1.0" and "-1.0" take the type they are cast to.
+fn is_float_literal(expr: &Expr) -> bool {
+    match expr {
+        Expr::Lit(ExprLit { lit: Lit::Float(_), .. }) => true,
+        Expr::Unary(e) => is_float_literal(&*e.expr),
+        Expr::Paren(e) => is_float_literal(&*e.expr),
+        _ => false,
+    }
+}
+
 macro_rules! ret {
     ($self: expr, $($args:tt)*) => {
         $self.push(format!($($args)*))
@@ -382,11 +436,15 @@ impl<'ast> Visit<'ast> for CVisitor {
         self.log("visit_expr_cast");
         // self.push("<<expr_cast>>".to_string());
         // visit_expr_cast(self, node);
-        self.visit_expr(&*node.expr);
-        let expr = self.tos();
-        // tokens_helper(v, &node.as_token.span);
         self.visit_type(&*node.ty);
         let ty = self.tos();
+        // tokens_helper(v, &node.as_token.span);
+        let expr = if is_float_literal(&*node.expr) {
+            self.expr_of_type(&*node.expr, &ty)
+        } else {
+            self.visit_expr(&*node.expr);
+            self.tos()
+        };
         ret!(self, "({}){}", ty, expr);
     }
 
@@ -802,8 +860,7 @@ impl<'ast> Visit<'ast> for CVisitor {
         self.visit_type(&*node.ty);
         let ty = self.tos();
         // tokens_helper(v, &node.eq_token.spans);
-        self.visit_expr(&*node.expr);
-        let expr = self.tos();
+        let expr = self.expr_of_type(&*node.expr, &ty);
         // tokens_helper(v, &node.semi_token.spans);
         match ident.as_str() {
             // These are macros in math.h
@@ -907,6 +964,8 @@ impl<'ast> Visit<'ast> for CVisitor {
         self.visit_type(&*node.ty);
         let ty = self.tos();
 
+        let target = self.aliases.iter().find(|a| a.0 == ty).map_or(ty.clone(), |a| a.1.clone());
+        self.aliases.push((name.clone(), target));
         ret!(self, "typedef {} {};", ty, name);
     }
 
@@ -965,9 +1024,17 @@ impl<'ast> Visit<'ast> for CVisitor {
     }
     fn visit_lit_float(&mut self, node: &'ast LitFloat) {
         self.log("visit_lit_float");
-        let suffix = node.suffix();
-        match suffix {
-            _ => ret!(self, "{}", node.base10_digits())
+        let suffix = match node.suffix() {
+            "f32" => "f",
+            "f64" => "",
+            _ => self.float_suffix.as_str(),
+        };
+        let digits = node.base10_digits();
+        if digits.contains(|c: char| c == '.' || c == 'e' || c == 'E') {
+            ret!(self, "{}{}", digits, suffix)
+        } else {
+            // eg. "1f32"
+            ret!(self, "{}.0{}", digits, suffix)
         }
     }
 
@@ -975,9 +1042,16 @@ impl<'ast> Visit<'ast> for CVisitor {
         self.log("visit_lit_int");
         // self.push("<<lit_int>>".to_string());
         // visit_lit_int(self, node);
-        let suffix = node.suffix();
-        match suffix {
-            _ => ret!(self, "{}", node.base10_digits())
+        let digits = node.base10_digits();
+        match node.suffix() {
+            "u32" => ret!(self, "{}u", digits),
+            "i64" => ret!(self, "{}ll", digits),
+            "u64" => ret!(self, "{}ull", digits),
+            "usize" => ret!(self, "{}ul", digits),
+            "f32" => ret!(self, "{}.0f", digits),
+            "f64" => ret!(self, "{}.0", digits),
+            "" => ret!(self, "{}{}", digits, self.int_suffix),
+            _ => ret!(self, "{}", digits),
         }
     }
     fn visit_lit_str(&mut self, node: &'ast LitStr) {
@@ -997,8 +1071,13 @@ impl<'ast> Visit<'ast> for CVisitor {
         self.visit_pat(&node.pat);
         let pat = self.tos();
         if let Some(it) = &node.init {
-            self.visit_expr(&*(it).1);
-            let expr = self.tos();
+            let ty = if let Pat::Type(pat) = &node.pat {
+                self.visit_type(&*pat.ty);
+                self.tos()
+            } else {
+                String::new()
+            };
+            let expr = self.expr_of_type(&*(it).1, &ty);
             if let Pat::Type(_) = &node.pat {
                 ret!(self, "{} = {}", pat, expr);
             } else {
-- 
2.43.0


From bd167584c4243de79b6b139faec50f6a99d75c78 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:38 +0000
Subject: [PATCH 31/87] fix: the C translation called double precision
 functions in 32 bits

---
 doctor-syn/src/codegen/c.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index 8ed6ed0..03f1efa 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -564,6 +564,15 @@ impl<'ast> Visit<'ast> for CVisitor {
             "recip" => format!("(1 / ({}))", args[0]),
             "to_bits" => format!("({{ union {{ fty f; uty u; }} ds_bits; ds_bits.f = ({}); ds_bits.u; }})", args[0]),
             "mul_add" => format!("(({}\n) * ({}) + ({}))", args[0], args[1], args[2]),
+            // These have the same name in the C library.
+            "sqrt" | "cbrt" | "hypot" | "floor" | "ceil" | "trunc" | "copysign"
+            | "exp" | "exp2" | "log2" | "log10"
+            | "sin" | "cos" | "tan" | "asin" | "acos" | "atan" | "atan2"
+            | "sinh" | "cosh" | "tanh" | "asinh" | "acosh" | "atanh" => {
+                format!("{}{}({})", ident, self.options.float_suffix, args.join(", "))
+            }
+            "exp_m1" => format!("expm1{}({})", self.options.float_suffix, args.join(", ")),
+            "ln_1p" => format!("log1p{}({})", self.options.float_suffix, args.join(", ")),
             _ => format!("{}({})", ident, args.join(", ")),
         })
     }
-- 
2.43.0


From 7f52ec2171f256adb5ae9970dea038f3cfffa7bf Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:40 +0000
Subject: [PATCH 32/87] fix: the C translation knew no truth values and no
 assignment operators

---
 doctor-syn/src/codegen/c.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index 03f1efa..c3e2be1 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -346,7 +346,6 @@ impl<'ast> Visit<'ast> for CVisitor {
 
     fn visit_expr_assign_op(&mut self, node: &'ast ExprAssignOp) {
         self.log("visit_expr_assign_op");
-        self.push("<<expr_assign_op>>".to_string());
         // visit_expr_assign_op(self, node);
         self.visit_expr(&*node.left);
         let left = self.tos();
@@ -1013,7 +1012,7 @@ impl<'ast> Visit<'ast> for CVisitor {
     }
     fn visit_lit_bool(&mut self, node: &'ast LitBool) {
         self.log("visit_lit_bool");
-        self.push("<<lit_bool>>".to_string());
+        ret!(self, "{}", node.value as u32);
         //visit_lit_bool(self, node);
     }
     fn visit_lit_byte(&mut self, node: &'ast LitByte) {
-- 
2.43.0


From 4a551a07ebe72629da052931abfec39f761c390d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:42 +0000
Subject: [PATCH 33/87] fix: the C translation of conditionals in constants did
 not compile

---
 doctor-syn/src/codegen/c.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index c3e2be1..e26ed05 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -76,6 +76,16 @@ impl CVisitor {
         self.int_suffix = int_suffix;
         self.tos()
     }
+
+    // Translate a block that has a value.
+    fn block_value(&mut self, block: &Block) -> String {
+        match block.stmts.as_slice() {
+            // Constants may not have statements in C.
+            [Stmt::Expr(expr)] => self.visit_expr(expr),
+            _ => self.visit_block(block),
+        }
+        self.tos()
+    }
 }
 
 // Does the expression consist of literals and operators only?
@@ -389,8 +399,7 @@ impl<'ast> Visit<'ast> for CVisitor {
         // if let Some(it) = &node.label {
         //     v.visit_label(it);
         // };
-        self.visit_block(&node.block);
-        let block = self.tos();
+        let block = self.block_value(&node.block);
         ret!(self, "({})", block);
     }
 
@@ -482,8 +491,7 @@ impl<'ast> Visit<'ast> for CVisitor {
         // self.push("<<expr_if>>".to_string());
         self.visit_expr(&*node.cond);
         let cond = self.tos();
-        self.visit_block(&node.then_branch);
-        let t = self.tos();
+        let t = self.block_value(&node.then_branch);
         if let Some(it) = &node.else_branch {
             self.visit_expr(&*(it).1);
             let f = self.tos();
-- 
2.43.0


From 3a5cf944d671ff80a4bdbefac47d837ffde125cb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:35 +0000
Subject: [PATCH 34/87] fix: the C translation of from_bits() of a literal type
 did not link

---
 doctor-syn/src/codegen/c.rs | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index e26ed05..9365c16 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -429,8 +429,27 @@ impl<'ast> Visit<'ast> for CVisitor {
         }
         let args = args.join(", ");
 
-        self.push(match expr.as_str() {
-            "fty_from_bits" => {
+        let literal = match node.args.first() {
+            Some(Expr::Lit(ExprLit { lit: Lit::Int(it), .. })) => it.base10_parse::<u64>().ok(),
+            _ => None,
+        };
+
+        self.push(match (expr.as_str(), literal) {
+            ("f32_from_bits", Some(bits)) if bits <= u32::MAX as u64 => {
+                let value = f32::from_bits(bits as u32);
+                c_float(value as f64, format!("{:e}f", value))
+            }
+            ("f64_from_bits", Some(bits)) => {
+                let value = f64::from_bits(bits);
+                c_float(value, format!("{:e}", value))
+            }
+            ("f32_from_bits", _) => {
+                format!("({{ union {{ float f; unsigned int u; }} ds_bits; ds_bits.u = ({}); ds_bits.f; }})", args)
+            }
+            ("f64_from_bits", _) => {
+                format!("({{ union {{ double f; unsigned long long u; }} ds_bits; ds_bits.u = ({}); ds_bits.f; }})", args)
+            }
+            ("fty_from_bits", _) => {
                 format!("({{ union {{ fty f; uty u; }} ds_bits; ds_bits.u = ({}); ds_bits.f; }})", args)
             }
             _ => {
@@ -1645,6 +1664,17 @@ impl<'ast> Visit<'ast> for CVisitor {
     }
 }
 
+// A literal for a floating point number, which is formatted as a Rust literal.
+fn c_float(value: f64, text: String) -> String {
+    if value.is_nan() {
+        "__builtin_nan(\"\")".to_string()
+    } else if value.is_infinite() {
+        format!("({}__builtin_inf())", if value < 0.0 { "-" } else { "" })
+    } else {
+        format!("({})", text)
+    }
+}
+
 // The bitwise operators have a lower precedence in C than in Rust.
 fn c_operand(expr: &Expr, text: String) -> String {
     match expr {
-- 
2.43.0


From 51550e0a592bfe8342c9660d121846cf4402861d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:28 +0000
Subject: [PATCH 35/87] fix: variables that replace others or have names of C
 became other variables in C

---
 doctor-syn/src/codegen/c.rs | 83 ++++++++++++++++++++++++++++++++++---
 1 file changed, 78 insertions(+), 5 deletions(-)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index 9365c16..1feb2f1 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -25,6 +25,12 @@ struct CVisitor {
     int_suffix: String,
     // The C types of type aliases.
     aliases: Vec<(String, String)>,
+    // The names of items in C.
+    globals: Vec<String>,
+    // The names of variables in Rust and in C, for every block.
+    scopes: Vec<Vec<(String, String)>>,
+    // The names of all variables of the function in C.
+    used: Vec<String>,
     stack: Vec<String>,
 }
 
@@ -34,6 +40,9 @@ impl CVisitor {
             float_suffix: options.float_suffix.clone(),
             int_suffix: String::new(),
             aliases: Vec::new(),
+            globals: Vec::new(),
+            scopes: Vec::new(),
+            used: Vec::new(),
             options,
             stack: Vec::new(),
         }
@@ -77,6 +86,29 @@ impl CVisitor {
         self.tos()
     }
 
+    // Make a variable. Unlike in Rust, the value of a variable can not use
+    // the variable that it replaces in C and some names are taken.
+    fn declare(&mut self, name: String) -> String {
+        let base = name.trim_start_matches("r#").to_string();
+        let mut c_name = base.clone();
+        let mut n = 1;
+        while is_reserved(&c_name) || self.globals.contains(&c_name) || self.used.contains(&c_name) {
+            c_name = format!("{}_{}", base, n);
+            n += 1;
+        }
+        self.used.push(c_name.clone());
+        if let Some(scope) = self.scopes.last_mut() {
+            scope.push((name, c_name.clone()));
+        }
+        c_name
+    }
+
+    // Find the name of a variable in C.
+    fn lookup(&self, name: &Ident) -> Option<String> {
+        let mut variables = self.scopes.iter().rev().flat_map(|s| s.iter().rev());
+        variables.find(|v| name == v.0.as_str()).map(|v| v.1.clone())
+    }
+
     // Translate a block that has a value.
     fn block_value(&mut self, block: &Block) -> String {
         match block.stmts.as_slice() {
@@ -270,11 +302,13 @@ impl<'ast> Visit<'ast> for CVisitor {
     fn visit_block(&mut self, node: &'ast Block) {
         self.log("visit_block");
 
+        self.scopes.push(Vec::new());
         let mut stmts = Vec::new();
         for it in &node.stmts {
             self.visit_stmt(it);
             stmts.push(self.tos());
         }
+        self.scopes.pop();
         ret!(self, "{{\n{}\n}}", stmts.join(";\n"));
     }
 
@@ -621,6 +655,10 @@ impl<'ast> Visit<'ast> for CVisitor {
             self.visit_qself(it);
             return;
         };
+        if let Some(name) = node.path.get_ident().and_then(|name| self.lookup(name)) {
+            self.push(name);
+            return;
+        }
         self.visit_path(&node.path);
     }
 
@@ -756,6 +794,14 @@ impl<'ast> Visit<'ast> for CVisitor {
 
         let mut items = Vec::new();
         items.push("#include <math.h>".to_string());
+        for it in &node.items {
+            match it {
+                Item::Const(it) => self.globals.push(it.ident.to_string()),
+                Item::Type(it) => self.globals.push(it.ident.to_string()),
+                Item::Fn(it) => self.globals.push(format!("{}{}", self.options.prefix, it.sig.ident)),
+                _ => (),
+            }
+        }
         let mut declared = false;
         for it in &node.items {
             if let Item::Fn(_) = it {
@@ -1103,16 +1149,21 @@ impl<'ast> Visit<'ast> for CVisitor {
         // }
         // tokens_helper(v, &node.let_token.span);
 
-        self.visit_pat(&node.pat);
-        let pat = self.tos();
-        if let Some(it) = &node.init {
+        // The value must not see the new variable.
+        let init = if let Some(it) = &node.init {
             let ty = if let Pat::Type(pat) = &node.pat {
                 self.visit_type(&*pat.ty);
                 self.tos()
             } else {
                 String::new()
             };
-            let expr = self.expr_of_type(&*(it).1, &ty);
+            Some(self.expr_of_type(&*(it).1, &ty))
+        } else {
+            None
+        };
+        self.visit_pat(&node.pat);
+        let pat = self.tos();
+        if let Some(expr) = init {
             if let Pat::Type(_) = &node.pat {
                 ret!(self, "{} = {}", pat, expr);
             } else {
@@ -1193,7 +1244,8 @@ impl<'ast> Visit<'ast> for CVisitor {
         self.log("visit_pat_ident");
         // visit_pat_ident(self, node);
 
-        self.visit_ident(&node.ident);
+        let name = self.declare(node.ident.to_string());
+        self.push(name);
     }
 
     fn visit_pat_lit(&mut self, node: &'ast PatLit) {
@@ -1374,6 +1426,8 @@ impl<'ast> Visit<'ast> for CVisitor {
         self.visit_ident(&node.ident);
         let ident = self.tos();
         let ident = format!("{}{}", self.options.prefix, ident);
+        self.scopes = vec![Vec::new()];
+        self.used.clear();
 
         // self.visit_generics(&node.generics);
         // tokens_helper(v, &node.paren_token.span);
@@ -1664,6 +1718,25 @@ impl<'ast> Visit<'ast> for CVisitor {
     }
 }
 
+// Names that mean something else in C or that the translation uses.
+fn is_reserved(name: &str) -> bool {
+    const KEYWORDS: &[&str] = &[
+        "auto", "break", "case", "char", "const", "continue", "default", "do", "double", "else",
+        "enum", "extern", "float", "for", "goto", "if", "inline", "int", "long", "register",
+        "restrict", "return", "short", "signed", "sizeof", "static", "struct", "switch", "typedef",
+        "typeof", "union", "unsigned", "void", "volatile", "while", "asm", "linux", "unix",
+        "ds_bits",
+    ];
+    const FUNCTIONS: &[&str] = &[
+        "round", "fabs", "log", "pow", "fmin", "fmax", "sqrt", "cbrt", "hypot", "floor", "ceil",
+        "trunc", "copysign", "exp", "exp2", "log2", "log10", "sin", "cos", "tan", "asin", "acos",
+        "atan", "atan2", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "expm1", "log1p",
+    ];
+    KEYWORDS.contains(&name)
+        || FUNCTIONS.contains(&name)
+        || name.strip_suffix('f').map_or(false, |name| FUNCTIONS.contains(&name))
+}
+
 // A literal for a floating point number, which is formatted as a Rust literal.
 fn c_float(value: f64, text: String) -> String {
     if value.is_nan() {
-- 
2.43.0


From 09ec02cdb5944a19fd7214dea92c308df384b2f5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:05 +0000
Subject: [PATCH 36/87] fix: the C translation of ! made integers truth values

---
 doctor-syn/src/codegen/c.rs | 117 +++++++++++++++++++++++++++++++++---
 1 file changed, 110 insertions(+), 7 deletions(-)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index 1feb2f1..4a0cf85 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -18,6 +18,12 @@ impl Default for Options {
     }
 }
 
+struct Variable {
+    name: String,
+    c_name: String,
+    is_bool: bool,
+}
+
 struct CVisitor {
     options: Options,
     // The suffixes of literals that have none in Rust.
@@ -27,10 +33,12 @@ struct CVisitor {
     aliases: Vec<(String, String)>,
     // The names of items in C.
     globals: Vec<String>,
-    // The names of variables in Rust and in C, for every block.
-    scopes: Vec<Vec<(String, String)>>,
+    // The variables of every block.
+    scopes: Vec<Vec<Variable>>,
     // The names of all variables of the function in C.
     used: Vec<String>,
+    // Items that are truth values.
+    bools: Vec<String>,
     stack: Vec<String>,
 }
 
@@ -43,6 +51,7 @@ impl CVisitor {
             globals: Vec::new(),
             scopes: Vec::new(),
             used: Vec::new(),
+            bools: Vec::new(),
             options,
             stack: Vec::new(),
         }
@@ -98,15 +107,78 @@ impl CVisitor {
         }
         self.used.push(c_name.clone());
         if let Some(scope) = self.scopes.last_mut() {
-            scope.push((name, c_name.clone()));
+            scope.push(Variable { name, c_name: c_name.clone(), is_bool: false });
         }
         c_name
     }
 
-    // Find the name of a variable in C.
-    fn lookup(&self, name: &Ident) -> Option<String> {
+    // Find a variable.
+    fn lookup(&self, name: &Ident) -> Option<&Variable> {
         let mut variables = self.scopes.iter().rev().flat_map(|s| s.iter().rev());
-        variables.find(|v| name == v.0.as_str()).map(|v| v.1.clone())
+        variables.find(|v| name == v.name.as_str())
+    }
+
+    // The variable that was made last is a truth value.
+    fn set_bool(&mut self, is_bool: bool) {
+        if let Some(variable) = self.scopes.last_mut().and_then(|s| s.last_mut()) {
+            variable.is_bool = is_bool;
+        }
+    }
+
+    // Is an expression a truth value? These are numbers in C.
+    // Locals are variables of blocks that are not translated yet.
+    fn is_bool(&self, expr: &Expr, locals: &mut Vec<(String, bool)>) -> bool {
+        match expr {
+            Expr::Lit(ExprLit { lit: Lit::Bool(_), .. }) => true,
+            Expr::Paren(e) => self.is_bool(&*e.expr, locals),
+            Expr::Unary(ExprUnary { op: UnOp::Not(_), expr, .. }) => self.is_bool(&*expr, locals),
+            Expr::Binary(e) => match e.op {
+                BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_)
+                | BinOp::Ge(_) | BinOp::And(_) | BinOp::Or(_) => true,
+                BinOp::BitAnd(_) | BinOp::BitOr(_) | BinOp::BitXor(_) => self.is_bool(&*e.left, locals),
+                _ => false,
+            },
+            Expr::Cast(e) => is_bool_type(&*e.ty),
+            Expr::If(e) => self.is_bool_block(&e.then_branch, locals),
+            Expr::Block(e) => self.is_bool_block(&e.block, locals),
+            Expr::Call(e) => match &*e.func {
+                Expr::Path(f) => f.path.get_ident().map_or(false, |f| self.bools.iter().any(|b| f == b.as_str())),
+                _ => false,
+            },
+            Expr::Path(e) => e.path.get_ident().map_or(false, |name| {
+                if let Some(local) = locals.iter().rev().find(|l| name == l.0.as_str()) {
+                    local.1
+                } else if let Some(variable) = self.lookup(name) {
+                    variable.is_bool
+                } else {
+                    self.bools.iter().any(|b| name == b.as_str())
+                }
+            }),
+            _ => false,
+        }
+    }
+
+    fn is_bool_block(&self, block: &Block, locals: &mut Vec<(String, bool)>) -> bool {
+        let outer = locals.len();
+        for stmt in &block.stmts {
+            if let Stmt::Local(Local { pat, init, .. }) = stmt {
+                let is_bool = match (pat, init) {
+                    (Pat::Type(p), _) => is_bool_type(&*p.ty),
+                    (_, Some(init)) => self.is_bool(&*init.1, locals),
+                    _ => false,
+                };
+                let pat = if let Pat::Type(p) = pat { &*p.pat } else { pat };
+                if let Pat::Ident(p) = pat {
+                    locals.push((p.ident.to_string(), is_bool));
+                }
+            }
+        }
+        let res = match block.stmts.last() {
+            Some(Stmt::Expr(e)) => self.is_bool(e, locals),
+            _ => false,
+        };
+        locals.truncate(outer);
+        res
     }
 
     // Translate a block that has a value.
@@ -656,6 +728,7 @@ impl<'ast> Visit<'ast> for CVisitor {
             return;
         };
         if let Some(name) = node.path.get_ident().and_then(|name| self.lookup(name)) {
+            let name = name.c_name.clone();
             self.push(name);
             return;
         }
@@ -719,7 +792,10 @@ impl<'ast> Visit<'ast> for CVisitor {
     fn visit_expr_unary(&mut self, node: &'ast ExprUnary) {
         self.log("visit_expr_unary");
         self.visit_un_op(&node.op);
-        let op = self.tos();
+        let mut op = self.tos();
+        if op == "!" && !self.is_bool(&*node.expr, &mut Vec::new()) {
+            op = "~".to_string();
+        }
         self.visit_expr(&*node.expr);
         let expr = self.tos();
         if let Expr::Unary(_) = &*node.expr {
@@ -802,6 +878,19 @@ impl<'ast> Visit<'ast> for CVisitor {
                 _ => (),
             }
         }
+        for it in &node.items {
+            match it {
+                Item::Const(it) if is_bool_type(&*it.ty) => self.bools.push(it.ident.to_string()),
+                Item::Fn(it) => {
+                    if let ReturnType::Type(_, ty) = &it.sig.output {
+                        if is_bool_type(&**ty) {
+                            self.bools.push(it.sig.ident.to_string());
+                        }
+                    }
+                }
+                _ => (),
+            }
+        }
         let mut declared = false;
         for it in &node.items {
             if let Item::Fn(_) = it {
@@ -1161,7 +1250,13 @@ impl<'ast> Visit<'ast> for CVisitor {
         } else {
             None
         };
+        let is_bool = match (&node.pat, &node.init) {
+            (Pat::Type(p), _) => is_bool_type(&*p.ty),
+            (_, Some(init)) => self.is_bool(&*init.1, &mut Vec::new()),
+            _ => false,
+        };
         self.visit_pat(&node.pat);
+        self.set_bool(is_bool);
         let pat = self.tos();
         if let Some(expr) = init {
             if let Pat::Type(_) = &node.pat {
@@ -1322,6 +1417,7 @@ impl<'ast> Visit<'ast> for CVisitor {
         // }
 
         self.visit_pat(&*node.pat);
+        self.set_bool(is_bool_type(&*node.ty));
         let pat = self.tos();
         self.visit_type(&*node.ty);
         let ty = self.tos();
@@ -1718,6 +1814,13 @@ impl<'ast> Visit<'ast> for CVisitor {
     }
 }
 
+fn is_bool_type(ty: &Type) -> bool {
+    match ty {
+        Type::Path(ty) => ty.path.is_ident("bool"),
+        _ => false,
+    }
+}
+
 // Names that mean something else in C or that the translation uses.
 fn is_reserved(name: &str) -> bool {
     const KEYWORDS: &[&str] = &[
-- 
2.43.0


From ed04fa286fad90bd0d85b8e23c67e58f61b1cb19 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:44 +0000
Subject: [PATCH 37/87] fix: the C translation of assignments was no C

---
 doctor-syn/src/codegen/c.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index 4a0cf85..0e5e2dc 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -1561,6 +1561,8 @@ impl<'ast> Visit<'ast> for CVisitor {
             self.visit_expr(e);
             let expr = self.tos();
             ret!(self, "{};", expr);
+        } else if let Stmt::Semi(e, _) = node {
+            self.visit_expr(e);
         } else {
             visit_stmt(self, node);
         }
-- 
2.43.0


From 275605c377b074cf79abd32c3776f2972d77013e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:01 +0000
Subject: [PATCH 38/87] fix: the C translation took raw names for other
 variables

---
 doctor-syn/src/codegen/c.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index 0e5e2dc..1120e30 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -98,11 +98,10 @@ impl CVisitor {
     // Make a variable. Unlike in Rust, the value of a variable can not use
     // the variable that it replaces in C and some names are taken.
     fn declare(&mut self, name: String) -> String {
-        let base = name.trim_start_matches("r#").to_string();
-        let mut c_name = base.clone();
+        let mut c_name = name.clone();
         let mut n = 1;
         while is_reserved(&c_name) || self.globals.contains(&c_name) || self.used.contains(&c_name) {
-            c_name = format!("{}_{}", base, n);
+            c_name = format!("{}_{}", name, n);
             n += 1;
         }
         self.used.push(c_name.clone());
@@ -115,7 +114,8 @@ impl CVisitor {
     // Find a variable.
     fn lookup(&self, name: &Ident) -> Option<&Variable> {
         let mut variables = self.scopes.iter().rev().flat_map(|s| s.iter().rev());
-        variables.find(|v| name == v.name.as_str())
+        let name = plain(name);
+        variables.find(|v| v.name == name)
     }
 
     // The variable that was made last is a truth value.
@@ -146,7 +146,7 @@ impl CVisitor {
                 _ => false,
             },
             Expr::Path(e) => e.path.get_ident().map_or(false, |name| {
-                if let Some(local) = locals.iter().rev().find(|l| name == l.0.as_str()) {
+                if let Some(local) = locals.iter().rev().find(|l| plain(name) == l.0) {
                     local.1
                 } else if let Some(variable) = self.lookup(name) {
                     variable.is_bool
@@ -169,7 +169,7 @@ impl CVisitor {
                 };
                 let pat = if let Pat::Type(p) = pat { &*p.pat } else { pat };
                 if let Pat::Ident(p) = pat {
-                    locals.push((p.ident.to_string(), is_bool));
+                    locals.push((plain(&p.ident), is_bool));
                 }
             }
         }
@@ -1339,7 +1339,7 @@ impl<'ast> Visit<'ast> for CVisitor {
         self.log("visit_pat_ident");
         // visit_pat_ident(self, node);
 
-        let name = self.declare(node.ident.to_string());
+        let name = self.declare(plain(&node.ident));
         self.push(name);
     }
 
@@ -1816,6 +1816,11 @@ impl<'ast> Visit<'ast> for CVisitor {
     }
 }
 
+// A name without "r#".
+fn plain(name: &Ident) -> String {
+    name.to_string().trim_start_matches("r#").to_string()
+}
+
 fn is_bool_type(ty: &Type) -> bool {
     match ty {
         Type::Path(ty) => ty.path.is_ident("bool"),
-- 
2.43.0


From 86556c19b4317672f2a9db9b3992fd752b73ee5e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:54 +0000
Subject: [PATCH 39/87] fix: the generated sqrt and recip did not converge

Their estimates were corrected by a constant, not in proportion, and sqrt took
a single step.
---
 libmgen/src/auxfuncs.rs   |  8 ++++----
 libmgen/src/functions.rs  |  2 +-
 libmgen/src/recip_sqrt.rs | 10 +++++++---
 3 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/libmgen/src/auxfuncs.rs b/libmgen/src/auxfuncs.rs
index 640d3a6..ff9a930 100644
--- a/libmgen/src/auxfuncs.rs
+++ b/libmgen/src/auxfuncs.rs
@@ -351,7 +351,7 @@ fn gen_power_scale(
     offset: TokenStream,
     correction: TokenStream,
 ) -> TokenStream {
-    // A very approximate x.recip() used for estimates +/- 0.1
+    // A very approximate power used for estimates, within 7% of it.
     quote!(
         pub fn #name(x: fty) -> fty {
             let y  : fty = fty::from_bits(
@@ -365,21 +365,21 @@ fn gen_power_scale(
 pub fn gen_recip_approx(_terms: usize, config: &Config) -> TokenStream {
     let scale = quote!(-1.0);
     let offset = quote!(2.0);
-    let correction = quote!((y - 0.08).copysign(x));
+    let correction = quote!((y * 0.94).copysign(x));
     gen_power_scale(config, quote!(recip_approx), scale, offset, correction)
 }
 
 pub fn gen_sqrt_approx(_terms: usize, config: &Config) -> TokenStream {
     let scale = quote!(0.5);
     let offset = quote!(0.5);
-    let correction = quote!(y - 0.08);
+    let correction = quote!(y * 0.97);
     gen_power_scale(config, quote!(sqrt_approx), scale, offset, correction)
 }
 
 pub fn gen_cbrt_approx(_terms: usize, config: &Config) -> TokenStream {
     let scale = quote!(1.0 / 3.0);
     let offset = quote!(2.0 / 3.0);
-    let correction = quote!((y - 0.08).copysign(x));
+    let correction = quote!((y * 0.97).copysign(x));
     gen_power_scale(config, quote!(cbrt_approx), scale, offset, correction)
 }
 
diff --git a/libmgen/src/functions.rs b/libmgen/src/functions.rs
index 33fb97e..197ae1f 100644
--- a/libmgen/src/functions.rs
+++ b/libmgen/src/functions.rs
@@ -565,7 +565,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "sqrt",
-        deps: &["fty", "sqrt_approx"],
+        deps: &["fty", "sqrt_approx", "NAN", "MIN_POSITIVE"],
         num_terms: [16, 24],
         gen: Some(crate::recip_sqrt::gen_sqrt),
         test_specs: &[],
diff --git a/libmgen/src/recip_sqrt.rs b/libmgen/src/recip_sqrt.rs
index 39ddeab..92b9f9c 100644
--- a/libmgen/src/recip_sqrt.rs
+++ b/libmgen/src/recip_sqrt.rs
@@ -20,8 +20,11 @@ pub fn gen_sqrt(_num_terms: usize, _config: &Config) -> TokenStream {
     quote!(
         pub fn sqrt(x: fty) -> fty {
             let r: fty = sqrt_approx(x);
-            let y: fty = r + (x - r * r) / (2.0 * r);
-            y
+            let r1: fty = r + (x - r * r) / (2.0 * r);
+            let r2: fty = r1 + (x - r1 * r1) / (2.0 * r1);
+            let r3: fty = r2 + (x - r2 * r2) / (2.0 * r2);
+            let r4: fty = r3 + (x - r3 * r3) / (2.0 * r3);
+            if x < 0.0 { NAN } else if x < MIN_POSITIVE { 0.0 } else { r4 }
         }
     )
 }
@@ -70,7 +73,8 @@ pub fn gen_recip(_num_terms: usize, _config: &Config) -> TokenStream {
             let r1: fty = r * (2.0 - x * r);
             let r2: fty = r1 * (2.0 - x * r1);
             let r3: fty = r2 * (2.0 - x * r2);
-            r3
+            let r4: fty = r3 * (2.0 - x * r3);
+            r4
         }
     )
 }
-- 
2.43.0


From 3f1dd0dd757c930479b6ea01d9e0188991e001f8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:54 +0000
Subject: [PATCH 40/87] fix: the generated asinh lost all digits of large
 negative arguments

---
 libmgen/src/hyperbolic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmgen/src/hyperbolic.rs b/libmgen/src/hyperbolic.rs
index 498f0f1..fc0802f 100644
--- a/libmgen/src/hyperbolic.rs
+++ b/libmgen/src/hyperbolic.rs
@@ -38,7 +38,7 @@ pub fn gen_tanh(_num_terms: usize, _config: &Config) -> TokenStream {
 pub fn gen_asinh(_num_terms: usize, _config: &Config) -> TokenStream {
     quote!(
         pub fn asinh(x: fty) -> fty {
-            ln(x + (x * x + 1.0).sqrt())
+            ln(x.abs() + (x * x + 1.0).sqrt()).copysign(x)
         }
     )
 }
-- 
2.43.0


From c5e93b06e0cebece991731bc42295057cbaf1894 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:54 +0000
Subject: [PATCH 41/87] fix: the generated tanh was NaN for large arguments

---
 libmgen/src/hyperbolic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmgen/src/hyperbolic.rs b/libmgen/src/hyperbolic.rs
index fc0802f..3b281f2 100644
--- a/libmgen/src/hyperbolic.rs
+++ b/libmgen/src/hyperbolic.rs
@@ -29,7 +29,7 @@ pub fn gen_tanh(_num_terms: usize, _config: &Config) -> TokenStream {
     quote!(
         pub fn tanh(x: fty) -> fty {
             let exp2x: fty = exp2(x * (LOG2_E * 2.0));
-            (exp2x - 1.0) / (exp2x + 1.0)
+            1.0 - 2.0 / (exp2x + 1.0)
         }
     )
 }
-- 
2.43.0


From f4a0d1bcaf542ce5671dfd372685898a6e85629a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:55 +0000
Subject: [PATCH 42/87] fix: the generated hypot was negative for a tiny
 negative argument

---
 libmgen/src/recip_sqrt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmgen/src/recip_sqrt.rs b/libmgen/src/recip_sqrt.rs
index 92b9f9c..55940e2 100644
--- a/libmgen/src/recip_sqrt.rs
+++ b/libmgen/src/recip_sqrt.rs
@@ -87,7 +87,7 @@ pub fn gen_hypot(_num_terms: usize, _config: &Config) -> TokenStream {
             let xgty: bool = x.abs() > y.abs();
             let x2: fty = if xgty { x } else { y };
             let y2: fty = if xgty { y } else { x };
-            if x2.abs() <= MIN_POSITIVE { x2 } else { x2.abs() * (1.0 + (y2 / x2) * (y2 / x2)).sqrt() }
+            if x2.abs() <= MIN_POSITIVE { x2.abs() } else { x2.abs() * (1.0 + (y2 / x2) * (y2 / x2)).sqrt() }
         }
     )
 }
-- 
2.43.0


From b46af5cce46a3b88a5ef0852475481934c4822d6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:24 +0000
Subject: [PATCH 43/87] fix: the generated logarithms of infinity and NaN were
 ordinary numbers

---
 libmgen/src/log_exp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmgen/src/log_exp.rs b/libmgen/src/log_exp.rs
index 4476b5a..c773521 100644
--- a/libmgen/src/log_exp.rs
+++ b/libmgen/src/log_exp.rs
@@ -141,7 +141,7 @@ pub fn gen_log2(num_terms: usize, config: &Config) -> TokenStream {
             if arg < 0.0 {
                 -NAN
             } else {
-                if arg < MIN_POSITIVE { -INFINITY } else { y + (exponent as fty) }
+                if arg < MIN_POSITIVE { -INFINITY } else if arg < INFINITY { y + (exponent as fty) } else { arg }
             }
         }
     )
-- 
2.43.0


From 71320a698c1d6a7991a198f766d5c4243483b7d6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:24 +0000
Subject: [PATCH 44/87] fix: the generated exp_m1 was -1 or NaN for large
 arguments

---
 libmgen/src/functions.rs | 2 +-
 libmgen/src/log_exp.rs   | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/libmgen/src/functions.rs b/libmgen/src/functions.rs
index 197ae1f..3040e27 100644
--- a/libmgen/src/functions.rs
+++ b/libmgen/src/functions.rs
@@ -437,7 +437,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "exp_m1",
-        deps: &["fty", "uty", "round", "exp2", "EXP2_SCALE", "EXP2_ONE", "LOG2_E"],
+        deps: &["fty", "uty", "round", "exp2", "EXP2_SCALE", "EXP2_ONE", "EXP2_MIN", "EXP2_MAX", "INFINITY", "LOG2_E"],
         num_terms: [8, 12],
         gen: Some(crate::log_exp::gen_exp_m1),
         test_specs: &[
diff --git a/libmgen/src/log_exp.rs b/libmgen/src/log_exp.rs
index c773521..d9645fc 100644
--- a/libmgen/src/log_exp.rs
+++ b/libmgen/src/log_exp.rs
@@ -69,7 +69,9 @@ pub fn gen_exp_m1(num_terms: usize, config: &Config) -> TokenStream {
             let r : fty = round(scaled);
             let mul : fty = fty::from_bits((r.mul_add(EXP2_SCALE, EXP2_ONE)) as uty);
             let x : fty = scaled - r;
-            #approx * mul + (mul - 1.0)
+            let y : fty = #approx * mul + (mul - 1.0);
+            let y1 : fty = if scaled > EXP2_MAX { INFINITY } else { y };
+            if r < EXP2_MIN { -1.0 } else { y1 }
         }
     )
 }
-- 
2.43.0


From 7893faaf4c2a2c2deabd2b71543b22f64854db84 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:24 +0000
Subject: [PATCH 45/87] fix: the generated powi was NaN for negative bases

---
 libmgen/src/log_exp.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmgen/src/log_exp.rs b/libmgen/src/log_exp.rs
index d9645fc..f8fae13 100644
--- a/libmgen/src/log_exp.rs
+++ b/libmgen/src/log_exp.rs
@@ -201,7 +201,8 @@ pub fn gen_powi(_num_terms: usize, _config: &Config) -> TokenStream {
 
             // // negative powers are reciprocals.
             // if y < 0 { b4.recip() } else { b4 }
-            powf(x, y as fty)
+            let p: fty = powf(x.abs(), y as fty);
+            if (y & 1) == 0 { p } else { p.copysign(x) }
         }
     )
 }
-- 
2.43.0


From 8d4540fbf0edd5ba6221ab6c072849579f3a86f8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:24 +0000
Subject: [PATCH 46/87] fix: the generated test of rnorm did not compile in 32
 bits

---
 libmgen/src/test.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmgen/src/test.rs b/libmgen/src/test.rs
index b02762c..45f711b 100644
--- a/libmgen/src/test.rs
+++ b/libmgen/src/test.rs
@@ -118,7 +118,7 @@ fn gen_histogram(
             let dx = (#tmax - #tmin) as f64 / (#nbuckets) as f64;
             let mut max_err : f64 = 0.0;
             for i in 0..#nbuckets {
-                let x = ((i as f64 + 0.5) / #nbuckets as f64) * (#tmax - #tmin) + #tmin;
+                let x = (((i as f64 + 0.5) / #nbuckets as f64) * (#tmax - #tmin) + #tmin) as fty;
                 let pdf_est = h[i] as f64 / ((#niter) as f64 * dx);
                 let pdf_ref = (#refexpr) as f64;
                 println!("{} {} {}", x, pdf_est, pdf_ref);
-- 
2.43.0


From 3eaace3908903dc5ef4dd4e268f751b012784ad1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:26 +0000
Subject: [PATCH 47/87] fix: the generated sqrt, cbrt and recip of zero and
 infinity were other numbers

---
 libmgen/src/functions.rs  | 6 +++---
 libmgen/src/recip_sqrt.rs | 9 ++++++---
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/libmgen/src/functions.rs b/libmgen/src/functions.rs
index 3040e27..3c12b52 100644
--- a/libmgen/src/functions.rs
+++ b/libmgen/src/functions.rs
@@ -565,21 +565,21 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "sqrt",
-        deps: &["fty", "sqrt_approx", "NAN", "MIN_POSITIVE"],
+        deps: &["fty", "sqrt_approx", "NAN", "INFINITY", "MIN_POSITIVE"],
         num_terms: [16, 24],
         gen: Some(crate::recip_sqrt::gen_sqrt),
         test_specs: &[],
     },
     Function {
         name: "cbrt",
-        deps: &["fty", "uty", "EXP2_ONE", "ONE_THIRD", "TWO_THIRDS"],
+        deps: &["fty", "uty", "EXP2_ONE", "ONE_THIRD", "TWO_THIRDS", "INFINITY", "MIN_POSITIVE"],
         num_terms: [16, 24],
         gen: Some(crate::recip_sqrt::gen_cbrt),
         test_specs: &[],
     },
     Function {
         name: "recip",
-        deps: &["fty", "recip_approx"],
+        deps: &["fty", "recip_approx", "INFINITY", "MIN_POSITIVE"],
         num_terms: [16, 24],
         gen: Some(crate::recip_sqrt::gen_recip),
         test_specs: &[],
diff --git a/libmgen/src/recip_sqrt.rs b/libmgen/src/recip_sqrt.rs
index 55940e2..8f5e4cd 100644
--- a/libmgen/src/recip_sqrt.rs
+++ b/libmgen/src/recip_sqrt.rs
@@ -24,7 +24,7 @@ pub fn gen_sqrt(_num_terms: usize, _config: &Config) -> TokenStream {
             let r2: fty = r1 + (x - r1 * r1) / (2.0 * r1);
             let r3: fty = r2 + (x - r2 * r2) / (2.0 * r2);
             let r4: fty = r3 + (x - r3 * r3) / (2.0 * r3);
-            if x < 0.0 { NAN } else if x < MIN_POSITIVE { 0.0 } else { r4 }
+            if x < 0.0 { NAN } else if x < MIN_POSITIVE { 0.0 } else if x < INFINITY { r4 } else { x }
         }
     )
 }
@@ -52,7 +52,8 @@ pub fn gen_cbrt(_num_terms: usize, _config: &Config) -> TokenStream {
             let r2: fty = r1 + (x.abs() - r1 * r1 * r1) / (3.0 * r1 * r1);
             let r3: fty = r2 + (x.abs() - r2 * r2 * r2) / (3.0 * r2 * r2);
             let r4: fty = r3 + (x.abs() - r3 * r3 * r3) / (3.0 * r3 * r3);
-            r4.copysign(x)
+            let a: fty = x.abs();
+            if a < MIN_POSITIVE { x } else if a < INFINITY { r4.copysign(x) } else { x }
         }
     )
 }
@@ -74,7 +75,9 @@ pub fn gen_recip(_num_terms: usize, _config: &Config) -> TokenStream {
             let r2: fty = r1 * (2.0 - x * r1);
             let r3: fty = r2 * (2.0 - x * r2);
             let r4: fty = r3 * (2.0 - x * r3);
-            r4
+            let a: fty = x.abs();
+            let y: fty = if a < MIN_POSITIVE { INFINITY } else if a == INFINITY { 0.0 } else { r4 };
+            y.copysign(x)
         }
     )
 }
-- 
2.43.0


From a6662feb4e2c32668a09be4ccf66a3720d51293d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:10 +0000
Subject: [PATCH 48/87] fix: round_ieee kept 16 or 7 digits of the rounded
 number

---
 doctor-syn/src/bdmath.rs                | 17 +++++++++++++----
 doctor-syn/src/transformation/approx.rs |  5 +++--
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/doctor-syn/src/bdmath.rs b/doctor-syn/src/bdmath.rs
index 2ff830c..4202b3e 100644
--- a/doctor-syn/src/bdmath.rs
+++ b/doctor-syn/src/bdmath.rs
@@ -86,12 +86,19 @@ pub fn bigd(i: i32) -> BigDecimal {
     BigDecimal::from_i32(i).unwrap()
 }
 
+/// The exact value of a number, which has at most 1074 decimal places.
+fn exact(i: f64) -> Option<BigDecimal> {
+    let digits = format!("{:.1074}", i);
+    // Keep one decimal place: the number stays a floating point literal.
+    (digits.trim_end_matches('0').to_string() + "0").parse().ok()
+}
+
 pub fn bigdf(i: f64) -> BigDecimal {
-    BigDecimal::from_f64(i).unwrap()
+    exact(i).unwrap()
 }
 
 pub fn bigdf32(i: f32) -> BigDecimal {
-    BigDecimal::from_f32(i).unwrap()
+    exact(i as f64).unwrap()
 }
 
 pub fn zero() -> BigDecimal {
@@ -371,10 +378,12 @@ pub fn dnorm(x: BigDecimal, mean: BigDecimal, sd: BigDecimal, num_digits: i64) -
 pub fn round_ieee(x: BigDecimal, bits: BigDecimal, _num_digits: i64) -> Result<BigDecimal> {
     match bits.to_i32() {
         Some(32) => {
-            Ok(BigDecimal::from_f32(x.to_f32().ok_or(Error::Overflow)?).ok_or(Error::Overflow)?)
+            let x: f32 = x.to_string().parse().map_err(|_| Error::Overflow)?;
+            exact(x as f64).ok_or(Error::Overflow)
         }
         Some(64) => {
-            Ok(BigDecimal::from_f64(x.to_f64().ok_or(Error::Overflow)?).ok_or(Error::Overflow)?)
+            let x: f64 = x.to_string().parse().map_err(|_| Error::Overflow)?;
+            exact(x).ok_or(Error::Overflow)
         }
         _ => Err(Error::Expected32or64bits),
     }
diff --git a/doctor-syn/src/transformation/approx.rs b/doctor-syn/src/transformation/approx.rs
index 864125f..4e403f8 100644
--- a/doctor-syn/src/transformation/approx.rs
+++ b/doctor-syn/src/transformation/approx.rs
@@ -87,8 +87,9 @@ pub fn approx(
             xmin, xmax
         )));
     }
-    let xmin = bigdf(xmin);
-    let xmax = bigdf(xmax);
+    // The decimals that were written.
+    let xmin = BigDecimal::from_f64(xmin).unwrap();
+    let xmax = BigDecimal::from_f64(xmax).unwrap();
 
     // let err_fn = || Error::CouldNotEvaulate(expr.span());
     let a = (&xmax + &xmin) * half();
-- 
2.43.0


From 285cfe93850ea0daf33f03e54b8f26ffc69c1913 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:13 +0000
Subject: [PATCH 49/87] fix: the generated asin and acos lost digits near 1

---
 libmgen/src/inv_trig.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libmgen/src/inv_trig.rs b/libmgen/src/inv_trig.rs
index 1ec8397..372aef9 100644
--- a/libmgen/src/inv_trig.rs
+++ b/libmgen/src/inv_trig.rs
@@ -103,8 +103,8 @@ pub fn gen_asin(num_terms: usize, config: &Config) -> TokenStream {
             let c : fty = if arg < 0.0 { -PI_BY_2 } else { PI_BY_2 };
             let s : fty = if arg < 0.0 { -1.0 } else { 1.0  };
 
-            // Use arg in the middle and (1.0-arg*arg).sqrt() at the edges.
-            let x : fty = if arg * arg < LIM * LIM { arg } else { (1.0-arg*arg).sqrt() };
+            // Use arg in the middle and ((1.0-arg)*(1.0+arg)).sqrt() at the edges.
+            let x : fty = if arg * arg < LIM * LIM { arg } else { ((1.0-arg)*(1.0+arg)).sqrt() };
             let y : fty = #approx ;
             if arg*arg < LIM * LIM { y } else { c - y * s }
         }
@@ -133,7 +133,7 @@ pub fn gen_acos(num_terms: usize, config: &Config) -> TokenStream {
             let LIM : fty = #lim;
             let c : fty = if arg < 0.0 { PI } else { 0.0 };
             let s : fty = if arg < 0.0 { 1.0 } else { -1.0  };
-            let x : fty = if arg * arg < LIM * LIM { arg } else { (1.0-arg*arg).sqrt() };
+            let x : fty = if arg * arg < LIM * LIM { arg } else { ((1.0-arg)*(1.0+arg)).sqrt() };
             let y : fty = #approx ;
             if arg*arg < LIM * LIM { PI_BY_2 - y } else { c - y * s }
         }
-- 
2.43.0


From cd315cc2ed77c29159335ff104043b060b26933f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:54 +0000
Subject: [PATCH 50/87] fix: the generated round cut numbers that fit no
 integer

---
 libmgen/src/auxfuncs.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libmgen/src/auxfuncs.rs b/libmgen/src/auxfuncs.rs
index ff9a930..4122538 100644
--- a/libmgen/src/auxfuncs.rs
+++ b/libmgen/src/auxfuncs.rs
@@ -321,10 +321,16 @@ pub fn _gen_negate_on_odd_test(_config: &Config) -> TokenStream {
 // In practice on sse4+ vrndscalepd $3 is much better
 // but hard to get from many compilers.
 pub fn gen_round(_terms: usize, config: &Config) -> TokenStream {
+    let limit = if config.num_bits() == 32 {
+        quote!(8388608.0)
+    } else {
+        quote!(4503599627370496.0)
+    };
     quote!(
         fn round(x: fty) -> fty {
             let half = (0.5) as fty;
-            (x + half.copysign(x)) as ity as fty
+            // Larger numbers are whole and may not fit an integer.
+            if x.abs() < #limit { (x + half.copysign(x)) as ity as fty } else { x }
         }
     )
 }
-- 
2.43.0


From cbc8524b8910c07361169623a49fca1d6e130100 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:36 +0000
Subject: [PATCH 51/87] fix: the generated powf of 0 to the power of 0 was NaN

---
 libmgen/src/log_exp.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmgen/src/log_exp.rs b/libmgen/src/log_exp.rs
index f8fae13..70e77b4 100644
--- a/libmgen/src/log_exp.rs
+++ b/libmgen/src/log_exp.rs
@@ -176,7 +176,8 @@ pub fn gen_log(_num_terms: usize, _config: &Config) -> TokenStream {
 pub fn gen_powf(_num_terms: usize, _config: &Config) -> TokenStream {
     quote!(
         pub fn powf(arg: fty, y: fty) -> fty {
-            exp2(log2(arg) * y)
+            // The logarithm may be infinite where the power is one.
+            if arg == 1.0 || y == 0.0 { 1.0 } else { exp2(log2(arg) * y) }
         }
     )
 }
-- 
2.43.0


From ecbde580f66bc903168f3d84b3b9773d0314a13f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:44 +0000
Subject: [PATCH 52/87] fix: the generated qnorm of 0 and 1 had the wrong sign,
 and other numbers a value

---
 libmgen/src/functions.rs  | 2 +-
 libmgen/src/stats_norm.rs | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/libmgen/src/functions.rs b/libmgen/src/functions.rs
index 3c12b52..e0890ec 100644
--- a/libmgen/src/functions.rs
+++ b/libmgen/src/functions.rs
@@ -628,7 +628,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "qnorm",
-        deps: &["fty", "sqrt", "log2"],
+        deps: &["fty", "NAN", "sqrt", "log2"],
         num_terms: [16, 32],
         gen: Some(crate::stats_norm::gen_qnorm),
         test_specs: &[
diff --git a/libmgen/src/stats_norm.rs b/libmgen/src/stats_norm.rs
index 3b5e85a..8273c84 100644
--- a/libmgen/src/stats_norm.rs
+++ b/libmgen/src/stats_norm.rs
@@ -61,14 +61,14 @@ pub fn gen_qnorm(num_terms: usize, config: &Config) -> TokenStream {
             let scaled : fty = arg - 0.5;
             let x = scaled;
 
-            // Pole elimination
-            let recip : fty = sigma / (x * x - 0.5 * 0.5);
+            // Pole elimination: the divisor is zero or positive.
+            let recip : fty = -sigma / (0.5 * 0.5 - x * x);
 
             // Polynomial approximation
             let y : fty = #approx ;
 
             // Reassembly.
-            y * recip + mean
+            if x.abs() > 0.5 { NAN } else { y * recip + mean }
         }
     )
 }
-- 
2.43.0


From c5aa8d705145869f1904d6eca00c704af766a7fb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:21 +0000
Subject: [PATCH 53/87] fix: the generated atan2 of zeros and of infinite
 arguments was NaN

---
 libmgen/src/functions.rs |  2 +-
 libmgen/src/inv_trig.rs  | 10 +++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/libmgen/src/functions.rs b/libmgen/src/functions.rs
index e0890ec..8eb9c3d 100644
--- a/libmgen/src/functions.rs
+++ b/libmgen/src/functions.rs
@@ -384,7 +384,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "atan2",
-        deps: &["fty", "PI_BY_8", "PI_BY_2", "PI", "TAN_PI_BY_8"],
+        deps: &["fty", "PI_BY_8", "PI_BY_2", "PI", "TAN_PI_BY_8", "INFINITY"],
         num_terms: [16, 36],
         gen: Some(crate::inv_trig::gen_atan2),
         test_specs: &[],
diff --git a/libmgen/src/inv_trig.rs b/libmgen/src/inv_trig.rs
index 372aef9..75252d4 100644
--- a/libmgen/src/inv_trig.rs
+++ b/libmgen/src/inv_trig.rs
@@ -40,8 +40,12 @@ pub fn gen_atan2(num_terms: usize, config: &Config) -> TokenStream {
             let y1 = y.abs();
 
             // x > y by swapping.
-            let x2 = if x1 > y1 { x1 } else { y1 };
-            let y2 = if x1 > y1 { y1 } else { x1 };
+            let x2 = if x1 >= y1 { x1 } else { y1 };
+            let y2 = if x1 >= y1 { y1 } else { x1 };
+
+            // Keep the ratio of zeros and infinities.
+            let y2 = if x2 == INFINITY { if y2 == INFINITY { 1.0 } else { y2 * 0.0 } } else { y2 };
+            let x2 = if x2 == INFINITY || x2 == 0.0 { 1.0 } else { x2 };
 
             // rotate by PI/8 to get -pi/8 <= atan(z) <= pi/8 (0.3741967)
             // Note sin(pi/8)/cos(pi/8) = tan(pi/8)
@@ -57,7 +61,7 @@ pub fn gen_atan2(num_terms: usize, config: &Config) -> TokenStream {
             // panic!("x={:?} y={:?} x3={:?} y3={:?} z={:?} a={:?}", x, y, x3, y3, z, a);
 
             // Reverse reflections.
-            let q1 : fty = if x1 > y1 { a } else { PI_BY_2 - a };
+            let q1 : fty = if x1 >= y1 { a } else { PI_BY_2 - a };
             let q12 : fty = if x >= 0.0 { q1 } else { PI - q1 };
             if y >= 0.0 { q12 } else { -q12 }
 
-- 
2.43.0


From 2f1e51f628ddc91f00762bd28a89a7950e9a136b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:21 +0000
Subject: [PATCH 54/87] fix: the generated hypot of NaN and 0 was 0

---
 libmgen/src/recip_sqrt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmgen/src/recip_sqrt.rs b/libmgen/src/recip_sqrt.rs
index 8f5e4cd..ccbd083 100644
--- a/libmgen/src/recip_sqrt.rs
+++ b/libmgen/src/recip_sqrt.rs
@@ -90,7 +90,7 @@ pub fn gen_hypot(_num_terms: usize, _config: &Config) -> TokenStream {
             let xgty: bool = x.abs() > y.abs();
             let x2: fty = if xgty { x } else { y };
             let y2: fty = if xgty { y } else { x };
-            if x2.abs() <= MIN_POSITIVE { x2.abs() } else { x2.abs() * (1.0 + (y2 / x2) * (y2 / x2)).sqrt() }
+            if x2.abs() <= MIN_POSITIVE { x2.abs() + y2 * 0.0 } else { x2.abs() * (1.0 + (y2 / x2) * (y2 / x2)).sqrt() }
         }
     )
 }
-- 
2.43.0


From c9e490de3fdd8983d8cc39dd64122cafcff68052 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:54 +0000
Subject: [PATCH 55/87] fix: the generated cbrt of the largest numbers was NaN

---
 libmgen/src/recip_sqrt.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libmgen/src/recip_sqrt.rs b/libmgen/src/recip_sqrt.rs
index ccbd083..73762bc 100644
--- a/libmgen/src/recip_sqrt.rs
+++ b/libmgen/src/recip_sqrt.rs
@@ -48,10 +48,10 @@ pub fn gen_cbrt(_num_terms: usize, _config: &Config) -> TokenStream {
             );
 
             // Newton-Raphson step.
-            let r1: fty = r + (x.abs() - r * r * r) / (3.0 * r * r);
-            let r2: fty = r1 + (x.abs() - r1 * r1 * r1) / (3.0 * r1 * r1);
-            let r3: fty = r2 + (x.abs() - r2 * r2 * r2) / (3.0 * r2 * r2);
-            let r4: fty = r3 + (x.abs() - r3 * r3 * r3) / (3.0 * r3 * r3);
+            let r1: fty = r + (x.abs() / (r * r) - r) / 3.0;
+            let r2: fty = r1 + (x.abs() / (r1 * r1) - r1) / 3.0;
+            let r3: fty = r2 + (x.abs() / (r2 * r2) - r2) / 3.0;
+            let r4: fty = r3 + (x.abs() / (r3 * r3) - r3) / 3.0;
             let a: fty = x.abs();
             if a < MIN_POSITIVE { x } else if a < INFINITY { r4.copysign(x) } else { x }
         }
-- 
2.43.0


From 5ea4fb76f7193d326df64a26c7204b1dfe2fbc57 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:27 +0000
Subject: [PATCH 56/87] fix: the generated recip of the largest numbers was NaN
 in C

---
 libmgen/src/recip_sqrt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmgen/src/recip_sqrt.rs b/libmgen/src/recip_sqrt.rs
index 73762bc..751dc68 100644
--- a/libmgen/src/recip_sqrt.rs
+++ b/libmgen/src/recip_sqrt.rs
@@ -76,7 +76,7 @@ pub fn gen_recip(_num_terms: usize, _config: &Config) -> TokenStream {
             let r3: fty = r2 * (2.0 - x * r2);
             let r4: fty = r3 * (2.0 - x * r3);
             let a: fty = x.abs();
-            let y: fty = if a < MIN_POSITIVE { INFINITY } else if a == INFINITY { 0.0 } else { r4 };
+            let y: fty = if a < MIN_POSITIVE { INFINITY } else if a * MIN_POSITIVE >= 2.0 { 0.0 } else { r4 };
             y.copysign(x)
         }
     )
-- 
2.43.0


From 1587179f16625c2949d5ce62bdf065544a372427 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:07 +0000
Subject: [PATCH 57/87] fix: the generated sqrt of the largest numbers was NaN

---
 libmgen/src/recip_sqrt.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libmgen/src/recip_sqrt.rs b/libmgen/src/recip_sqrt.rs
index 751dc68..9ce68b0 100644
--- a/libmgen/src/recip_sqrt.rs
+++ b/libmgen/src/recip_sqrt.rs
@@ -20,10 +20,10 @@ pub fn gen_sqrt(_num_terms: usize, _config: &Config) -> TokenStream {
     quote!(
         pub fn sqrt(x: fty) -> fty {
             let r: fty = sqrt_approx(x);
-            let r1: fty = r + (x - r * r) / (2.0 * r);
-            let r2: fty = r1 + (x - r1 * r1) / (2.0 * r1);
-            let r3: fty = r2 + (x - r2 * r2) / (2.0 * r2);
-            let r4: fty = r3 + (x - r3 * r3) / (2.0 * r3);
+            let r1: fty = r + (x / r - r) * 0.5;
+            let r2: fty = r1 + (x / r1 - r1) * 0.5;
+            let r3: fty = r2 + (x / r2 - r2) * 0.5;
+            let r4: fty = r3 + (x / r3 - r3) * 0.5;
             if x < 0.0 { NAN } else if x < MIN_POSITIVE { 0.0 } else if x < INFINITY { r4 } else { x }
         }
     )
-- 
2.43.0


From f6ca4413b5a60dec78b3e2800e36641edda033c1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:47 +0000
Subject: [PATCH 58/87] fix: generated tests passed functions whose results are
 NaN

---
 libmgen/src/auxfuncs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmgen/src/auxfuncs.rs b/libmgen/src/auxfuncs.rs
index 4122538..0c46625 100644
--- a/libmgen/src/auxfuncs.rs
+++ b/libmgen/src/auxfuncs.rs
@@ -456,7 +456,7 @@ pub fn gen_test_function(_terms: usize, config: &Config) -> TokenStream {
             for &(x , yref, yerr) in accurate_values {
                 let ycalc = f(x);
                 let eref = (ycalc - yref - yerr). abs ();
-                if eref > max_ref_error {
+                if eref > max_ref_error || eref.is_nan() {
                     max_ref_error = eref;
                     bad_ycalc = ycalc;
                     bad_yref = yref;
-- 
2.43.0


From 146c3090bfcd3ca5e4adf7b6d036590d655d95ad Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:47 +0000
Subject: [PATCH 59/87] hooks: print the tests with reference values (cfg
 verif_hooks)

---
 libmgen/src/verif_hooks.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libmgen/src/verif_hooks.rs b/libmgen/src/verif_hooks.rs
index cc009a4..989925b 100644
--- a/libmgen/src/verif_hooks.rs
+++ b/libmgen/src/verif_hooks.rs
@@ -12,6 +12,15 @@ pub fn run(command: &str) -> bool {
             }
             true
         }
+        // Print the tests with reference values.
+        "verif-tests" => {
+            for t in functions::FUNCTIONS.iter().flat_map(|f| f.test_specs) {
+                if let functions::TestType::MaxAbs(min, max, bits32, bits64, n) = t.test {
+                    println!("{}|{}|{}|{}|{}|{}|{}", t.test_name, t.rust_expr, min, max, bits32, bits64, n);
+                }
+            }
+            true
+        }
         // Resolve lines of "requested names|excluded names".
         "verif-resolve" => {
             for line in std::io::stdin().lock().lines() {
-- 
2.43.0


From 709610e2c95abdd0aca44c69537c8ef093f7cfd6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:18 +0000
Subject: [PATCH 60/87] fix: SIMD functions call the functions of their file as
 methods

---
 doctor-syn/src/codegen/portable_simd.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/doctor-syn/src/codegen/portable_simd.rs b/doctor-syn/src/codegen/portable_simd.rs
index 402534b..35b8a19 100644
--- a/doctor-syn/src/codegen/portable_simd.rs
+++ b/doctor-syn/src/codegen/portable_simd.rs
@@ -20,6 +20,7 @@ impl Default for Options {
 pub struct SimdVisitor {
     options: Options,
     consts: Vec<ItemConst>,
+    functions: Vec<Ident>,
     idents_used: Vec<Ident>,
 }
 
@@ -30,6 +31,7 @@ impl SimdVisitor {
         SimdVisitor {
             options,
             consts,
+            functions: Vec::new(),
             idents_used,
         }
     }
@@ -100,7 +102,7 @@ impl VisitMut for SimdVisitor {
                 *expr = convert_binary(binary)
             }
             syn::Expr::Call(call) => {
-                *expr = convert_call(call);
+                *expr = convert_call(call, &self.functions);
             }
             syn::Expr::Lit(syn::ExprLit { lit, ..} ) => {
                 match lit {
@@ -181,7 +183,16 @@ fn convert_binary(binary: &syn::ExprBinary) -> Expr {
     }
 }
 
-fn convert_call(call: &syn::ExprCall) -> Expr {
+fn convert_call(call: &syn::ExprCall, functions: &[Ident]) -> Expr {
+    // The functions of the file are methods of the trait. Other traits
+    // and the vectors themselves have methods of the same names.
+    if let Expr::Path(path) = &*call.func {
+        if path.path.get_ident().map_or(false, |name| functions.contains(name)) {
+            let (func, args) = (&call.func, &call.args);
+            return parse_quote! { StdLibm::#func(#args) };
+        }
+    }
+
     let mut args = call.args.iter();
     let arg0 = args.next().unwrap();
     match call.func.to_token_stream().to_string().as_str() {
@@ -246,6 +257,11 @@ pub fn to_simd(file: &syn::File, options: Options) -> syn::File {
     let uty = if options.num_bits == 32 { quote!(u32) } else { quote!(u64) };
 
     let mut cv = SimdVisitor::new(options);
+    for it in &file.items {
+        if let Item::Fn(item) = it {
+            cv.functions.push(item.sig.ident.clone());
+        }
+    }
 
     for it in &file.items {
         cv.idents_used.clear();
-- 
2.43.0


From 7f82f50b866ac118df8800880f84775dff0e4b9e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:18 +0000
Subject: [PATCH 61/87] fix: SIMD casts apply to the whole expression

---
 doctor-syn/src/codegen/portable_simd.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/doctor-syn/src/codegen/portable_simd.rs b/doctor-syn/src/codegen/portable_simd.rs
index 35b8a19..071e7a2 100644
--- a/doctor-syn/src/codegen/portable_simd.rs
+++ b/doctor-syn/src/codegen/portable_simd.rs
@@ -156,9 +156,9 @@ fn convert_cast(cast: &syn::ExprCast, num_bits: usize) -> Expr {
         (quote!(u64), quote!(i64), quote!(f64))
     };
     match ty.to_token_stream().to_string().as_str() {
-        "uty" | "Self :: UintType" => parse_quote!{ #expr.cast::<#uty>() },
-        "ity" | "Self :: IntType" => parse_quote!{ #expr.cast::<#ity>() },
-        "fty" | "Self" => parse_quote!{ #expr.cast::<#fty>() },
+        "uty" | "Self :: UintType" => parse_quote!{ (#expr).cast::<#uty>() },
+        "ity" | "Self :: IntType" => parse_quote!{ (#expr).cast::<#ity>() },
+        "fty" | "Self" => parse_quote!{ (#expr).cast::<#fty>() },
         _ => cast.clone().into()
     }
 }
-- 
2.43.0


From 7f950f5502c4b02500e66678eb83b49f8fd32aae Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:18 +0000
Subject: [PATCH 62/87] fix: SIMD translation of types that are named without
 an alias

---
 doctor-syn/src/codegen/portable_simd.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/doctor-syn/src/codegen/portable_simd.rs b/doctor-syn/src/codegen/portable_simd.rs
index 071e7a2..5e35781 100644
--- a/doctor-syn/src/codegen/portable_simd.rs
+++ b/doctor-syn/src/codegen/portable_simd.rs
@@ -77,14 +77,13 @@ impl VisitMut for SimdVisitor {
         // Patch the first argument to self
         let arg0 = sig.inputs.iter_mut().next().unwrap();
         *arg0 = parse_quote! {self};
-        sig.output = parse_quote! {-> Self};
     }
 
     fn visit_type_path_mut(&mut self, type_path: &mut syn::TypePath) {
-        match type_path.to_token_stream().to_string().as_str() {
-            "uty" => *type_path = parse_quote!(Self::UintType),
-            "ity" => *type_path = parse_quote!(Self::IntType),
-            "fty" => *type_path = parse_quote!(Self),
+        match (type_path.to_token_stream().to_string().as_str(), self.options.num_bits) {
+            ("uty", _) | ("u32", 32) | ("u64", 64) => *type_path = parse_quote!(Self::UintType),
+            ("ity", _) | ("i32", 32) | ("i64", 64) => *type_path = parse_quote!(Self::IntType),
+            ("fty", _) | ("f32", 32) | ("f64", 64) => *type_path = parse_quote!(Self),
             _ => {},
         }
     }
-- 
2.43.0


From aff069abf05b0c6f1041b6a546f5a311f9f3db82 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:18 +0000
Subject: [PATCH 63/87] fix: SIMD functions use constants that are defined in
 terms of others, or later

---
 doctor-syn/src/codegen/portable_simd.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/doctor-syn/src/codegen/portable_simd.rs b/doctor-syn/src/codegen/portable_simd.rs
index 5e35781..65a3937 100644
--- a/doctor-syn/src/codegen/portable_simd.rs
+++ b/doctor-syn/src/codegen/portable_simd.rs
@@ -257,8 +257,10 @@ pub fn to_simd(file: &syn::File, options: Options) -> syn::File {
 
     let mut cv = SimdVisitor::new(options);
     for it in &file.items {
-        if let Item::Fn(item) = it {
-            cv.functions.push(item.sig.ident.clone());
+        match it {
+            Item::Const(item) => cv.consts.push(item.clone()),
+            Item::Fn(item) => cv.functions.push(item.sig.ident.clone()),
+            _ => {}
         }
     }
 
@@ -266,9 +268,7 @@ pub fn to_simd(file: &syn::File, options: Options) -> syn::File {
         cv.idents_used.clear();
         use Item::*;
         match it {
-            Const(item) => {
-                cv.consts.push(item.clone());
-            }
+            Const(_item) => {}
             Fn(item) => {
                 let mut new_sig = item.sig.clone();
                 visit_signature_mut(&mut cv, &mut new_sig);
@@ -285,7 +285,8 @@ pub fn to_simd(file: &syn::File, options: Options) -> syn::File {
                 let mut new_block = (*item.block).clone();
                 new_block.stmts.insert(0, parse_quote! {let #ident = self;});
                 cv.visit_block_mut(&mut new_block);
-                for c in cv.consts.clone() {
+                // A constant may use the constants before it.
+                for c in cv.consts.clone().iter().rev() {
                     let ident = &c.ident;
                     if cv.idents_used.contains(ident) {
                         let mut expr = (&*c.expr).clone();
-- 
2.43.0


From 3c74aa28d909a715da5f01ed5f81ec0f2f75fc5c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:18 +0000
Subject: [PATCH 64/87] fix: SIMD conditions with && and ||

---
 doctor-syn/src/codegen/portable_simd.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/doctor-syn/src/codegen/portable_simd.rs b/doctor-syn/src/codegen/portable_simd.rs
index 65a3937..7421726 100644
--- a/doctor-syn/src/codegen/portable_simd.rs
+++ b/doctor-syn/src/codegen/portable_simd.rs
@@ -164,6 +164,8 @@ fn convert_cast(cast: &syn::ExprCast, num_bits: usize) -> Expr {
 
 fn convert_binary(binary: &syn::ExprBinary) -> Expr {
     use syn::BinOp::*;
+    let lhs = &binary.left;
+    let rhs = &binary.right;
     if let Some(op) = match binary.op {
         Eq(_) => Some("lanes_eq"),
         Lt(_) => Some("lanes_lt"),
@@ -174,11 +176,13 @@ fn convert_binary(binary: &syn::ExprBinary) -> Expr {
         _ => None,
     } {
         let id = format_ident!("{}", op);
-        let lhs = binary.left.clone();
-        let rhs = binary.right.clone();
         parse_quote! { (#lhs).#id(#rhs) }
     } else {
-        binary.clone().into()
+        match binary.op {
+            And(_) => parse_quote! { (#lhs) & (#rhs) },
+            Or(_) => parse_quote! { (#lhs) | (#rhs) },
+            _ => binary.clone().into(),
+        }
     }
 }
 
-- 
2.43.0


From dffea96c51cf5369ddf8f27b5c608982e9cab516 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:18 +0000
Subject: [PATCH 65/87] fix: SIMD translation of conditionals with statements
 in the first branch

---
 doctor-syn/src/codegen/portable_simd.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/doctor-syn/src/codegen/portable_simd.rs b/doctor-syn/src/codegen/portable_simd.rs
index 7421726..e67dcbf 100644
--- a/doctor-syn/src/codegen/portable_simd.rs
+++ b/doctor-syn/src/codegen/portable_simd.rs
@@ -37,13 +37,13 @@ impl SimdVisitor {
     }
 }
 
-fn deblock1(block: &syn::Block) -> &Expr {
+fn deblock1(block: &syn::Block) -> Expr {
     if block.stmts.len() == 1 {
         if let syn::Stmt::Expr(expr) = &block.stmts[0] {
-            return expr;
+            return expr.clone();
         }
     }
-    unreachable!();
+    parse_quote! { #block }
 }
 
 fn deblock2(expr: &Expr) -> &Expr {
-- 
2.43.0


From b1ca4c86cb49788b5074fd805c58fe838d0f8cfb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:18 +0000
Subject: [PATCH 66/87] fix: SIMD literals without a suffix are integers

---
 doctor-syn/src/codegen/portable_simd.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/doctor-syn/src/codegen/portable_simd.rs b/doctor-syn/src/codegen/portable_simd.rs
index e67dcbf..e05e77f 100644
--- a/doctor-syn/src/codegen/portable_simd.rs
+++ b/doctor-syn/src/codegen/portable_simd.rs
@@ -231,9 +231,13 @@ fn convert_lit_int(f: &syn::LitInt) -> Expr {
         "i32" | "i64" => {
             parse_quote! { Self::IntType::splat(#f) }
         }
-        "f32" | "f64" | _ => {
+        "f32" | "f64" => {
             parse_quote! { Self::splat(#f) }
         }
+        // An integer of the type of the other operand.
+        _ => {
+            parse_quote! { Simd::splat(#f) }
+        }
     }
 }
 
-- 
2.43.0


From 65ac85884bde8499efd7f18ff493d71d01bd4daa Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:18 +0000
Subject: [PATCH 67/87] fix: SIMD translation of numbers given by their bits

---
 doctor-syn/src/codegen/portable_simd.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/doctor-syn/src/codegen/portable_simd.rs b/doctor-syn/src/codegen/portable_simd.rs
index e05e77f..75508b3 100644
--- a/doctor-syn/src/codegen/portable_simd.rs
+++ b/doctor-syn/src/codegen/portable_simd.rs
@@ -199,6 +199,8 @@ fn convert_call(call: &syn::ExprCall, functions: &[Ident]) -> Expr {
     let mut args = call.args.iter();
     let arg0 = args.next().unwrap();
     match call.func.to_token_stream().to_string().as_str() {
+        "f32 :: from_bits" | "f64 :: from_bits" => parse_quote! { Self::from_bits(#arg0) },
+
         "sin" | "cos" | "tan" | "exp2" | "powf" | "log2" | "ln" => {
             let func = &*call.func;
             let rest = args.cloned().collect::<Punctuated<Expr, Token![,]>>();
-- 
2.43.0


From 8ed27cd10b81e5866614e387896cabea863cf45b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:46 +0000
Subject: [PATCH 68/87] fix: SIMD shifts by literals of any integer type

---
 doctor-syn/src/codegen/portable_simd.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/doctor-syn/src/codegen/portable_simd.rs b/doctor-syn/src/codegen/portable_simd.rs
index 75508b3..8f4ff54 100644
--- a/doctor-syn/src/codegen/portable_simd.rs
+++ b/doctor-syn/src/codegen/portable_simd.rs
@@ -91,6 +91,14 @@ impl VisitMut for SimdVisitor {
     // Convert `lit as f32` etc. to splats.
     fn visit_expr_mut(&mut self, expr: &mut syn::Expr) {
         // println!("{} {:?}", expr.to_token_stream(), expr);
+        if let syn::Expr::Binary(binary) = expr {
+            if let syn::BinOp::Shl(_) | syn::BinOp::Shr(_) = binary.op {
+                // The distance may have another type than the number.
+                if let Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(f), .. }) = &mut *binary.right {
+                    *f = syn::LitInt::new(f.base10_digits(), f.span());
+                }
+            }
+        }
         visit_expr_mut(self, expr);
 
         match &*expr {
-- 
2.43.0


From 28ffd10b3e319d6fc0b8d79289aab971d9a28f5a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:46 +0000
Subject: [PATCH 69/87] fix: SIMD functions may change their first parameter

---
 doctor-syn/src/codegen/portable_simd.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/doctor-syn/src/codegen/portable_simd.rs b/doctor-syn/src/codegen/portable_simd.rs
index 8f4ff54..b874a5e 100644
--- a/doctor-syn/src/codegen/portable_simd.rs
+++ b/doctor-syn/src/codegen/portable_simd.rs
@@ -295,13 +295,13 @@ pub fn to_simd(file: &syn::File, options: Options) -> syn::File {
                     syn::FnArg::Typed(syn::PatType{pat, ..}) => pat,
                     _ => unreachable!("expected typed arg"),
                 };
-                let ident = match pat {
-                    syn::Pat::Ident(id) => &id.ident,
+                match pat {
+                    syn::Pat::Ident(_) => {}
                     _ => unreachable!("expected identifier"),
                 };
                 cv.visit_signature_mut(&mut new_sig);
                 let mut new_block = (*item.block).clone();
-                new_block.stmts.insert(0, parse_quote! {let #ident = self;});
+                new_block.stmts.insert(0, parse_quote! {let #pat = self;});
                 cv.visit_block_mut(&mut new_block);
                 // A constant may use the constants before it.
                 for c in cv.consts.clone().iter().rev() {
-- 
2.43.0


From a15580ee69e9d175865a04b47d41b15c8ce7098e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:21 +0000
Subject: [PATCH 70/87] fix: tests were generated without the type they use

---
 libmgen/src/auxfuncs.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/libmgen/src/auxfuncs.rs b/libmgen/src/auxfuncs.rs
index 0c46625..31708d2 100644
--- a/libmgen/src/auxfuncs.rs
+++ b/libmgen/src/auxfuncs.rs
@@ -430,9 +430,12 @@ pub fn gen_nextafter(_terms: usize, _config: &Config) -> TokenStream {
 //     )
 // }
 pub fn gen_test_function(_terms: usize, config: &Config) -> TokenStream {
+    // The functions asked for need not include fty.
+    let fty = format_ident!("f{}", config.num_bits());
+
     let plot_function = if config.generate_plots() {
         quote!{
-            fn plot_function<F : Fn(fty) -> fty>(test_name: &str, accurate_values: &[(fty, fty, fty)], f: F) {
+            fn plot_function<F : Fn(#fty) -> #fty>(test_name: &str, accurate_values: &[(#fty, #fty, #fty)], f: F) {
                 use std::io::Write;
                 let mut csv = std::fs::File::create(format!("{}.csv", test_name)).unwrap();
                 writeln!(csv, "x, yref, ycalc, eref").unwrap();
@@ -448,11 +451,11 @@ pub fn gen_test_function(_terms: usize, config: &Config) -> TokenStream {
     };
 
     quote! {
-        fn test_function<F : Fn(fty) -> fty>(test_name: &str, accurate_values: &[(fty, fty, fty)], limit: fty, f: F) {
-            let mut max_ref_error : fty = 0.0;
-            let mut bad_ycalc : fty = 0.0;
-            let mut bad_yref : fty = 0.0;
-            let mut bad_x : fty = 0.0;
+        fn test_function<F : Fn(#fty) -> #fty>(test_name: &str, accurate_values: &[(#fty, #fty, #fty)], limit: #fty, f: F) {
+            let mut max_ref_error : #fty = 0.0;
+            let mut bad_ycalc : #fty = 0.0;
+            let mut bad_yref : #fty = 0.0;
+            let mut bad_x : #fty = 0.0;
             for &(x , yref, yerr) in accurate_values {
                 let ycalc = f(x);
                 let eref = (ycalc - yref - yerr). abs ();
@@ -465,8 +468,8 @@ pub fn gen_test_function(_terms: usize, config: &Config) -> TokenStream {
             }
             println!("{}:", test_name);
             println!("max_ref_error          = {:25.20}", max_ref_error);
-            println!("max_ref_error x 2^53   = {:7.2}", max_ref_error * (2.0 as fty).powi(53));
-            println!("limit         x 2^53   = {:7.2}", limit * (2.0 as fty).powi(53));
+            println!("max_ref_error x 2^53   = {:7.2}", max_ref_error * (2.0 as #fty).powi(53));
+            println!("limit         x 2^53   = {:7.2}", limit * (2.0 as #fty).powi(53));
             // println!("max_ref_error x 2^23   = {:25.2}", max_ref_error * 2.0_f64.powi(23));
             println!("x    ={:016x}            {:25.20}", bad_x.to_bits(), bad_x);
             println!("ycalc={:016x}            {:25.20}", bad_ycalc.to_bits(), bad_ycalc);
-- 
2.43.0


From 671dab9096f00c1092309ff546e435b50ad84680 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:21 +0000
Subject: [PATCH 71/87] fix: the test of rnorm used dnorm, which need not be in
 the library

---
 libmgen/src/functions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmgen/src/functions.rs b/libmgen/src/functions.rs
index 8eb9c3d..12930a1 100644
--- a/libmgen/src/functions.rs
+++ b/libmgen/src/functions.rs
@@ -660,7 +660,7 @@ pub static FUNCTIONS: &[Function] = &[
         test_specs: &[
             TestSpec {
                 test_name: "test_rnorm",
-                ref_expr: "dnorm(x, 0.0, 1.0)",
+                ref_expr: "(-0.5 * x * x).exp() * 0.3989422804014327",
                 rust_expr: "rnorm(i, 0.0, 1.0)",
                 test: TestType::Histogram("-2.0", "2.0"),
             },
-- 
2.43.0


From 6366fecd9956cdc32c1ae4097bf263c6695adad8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:27 +0000
Subject: [PATCH 72/87] fix: C translation of let _

---
 doctor-syn/src/codegen/c.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index 1120e30..2072c95 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -1255,6 +1255,15 @@ impl<'ast> Visit<'ast> for CVisitor {
             (_, Some(init)) => self.is_bool(&*init.1, &mut Vec::new()),
             _ => false,
         };
+        let bare_pat = match &node.pat {
+            Pat::Type(p) => &*p.pat,
+            p => p,
+        };
+        if let (Pat::Wild(_), Some(expr)) = (bare_pat, &init) {
+            // "let _" drops the value and declares nothing.
+            ret!(self, "(void)({})", expr);
+            return;
+        }
         self.visit_pat(&node.pat);
         self.set_bool(is_bool);
         let pat = self.tos();
-- 
2.43.0


From 823618a3796492042e81a91a8c17fd680c74752d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:56 +0000
Subject: [PATCH 73/87] fix: SIMD translation of let _

---
 doctor-syn/src/codegen/portable_simd.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/doctor-syn/src/codegen/portable_simd.rs b/doctor-syn/src/codegen/portable_simd.rs
index b874a5e..64f09fa 100644
--- a/doctor-syn/src/codegen/portable_simd.rs
+++ b/doctor-syn/src/codegen/portable_simd.rs
@@ -3,7 +3,7 @@
 
 use quote::{quote, format_ident, ToTokens};
 use syn::punctuated::Punctuated;
-use syn::visit_mut::{visit_expr_mut, visit_ident_mut, VisitMut, visit_signature_mut, visit_local_mut};
+use syn::visit_mut::{visit_expr_mut, visit_ident_mut, VisitMut, visit_signature_mut, visit_local_mut, visit_block_mut};
 use syn::{parse_quote, Expr, Ident, Item, ItemConst, Token, Visibility};
 
 pub struct Options {
@@ -146,6 +146,16 @@ impl VisitMut for SimdVisitor {
         }
     }
 
+    fn visit_block_mut(&mut self, block: &mut syn::Block) {
+        // "let _" drops its value, and a literal there would be of no type.
+        block.stmts.retain(|stmt| match stmt {
+            syn::Stmt::Local(syn::Local { pat: syn::Pat::Type(p), .. }) => !is_wild(&p.pat),
+            syn::Stmt::Local(local) => !is_wild(&local.pat),
+            _ => true,
+        });
+        visit_block_mut(self, block);
+    }
+
     fn visit_local_mut(&mut self, local: &mut syn::Local) {
         visit_local_mut(self, local);
         if let syn::Pat::Type(pat_type) = &local.pat {
@@ -154,6 +164,10 @@ impl VisitMut for SimdVisitor {
     }
 }
 
+fn is_wild(pat: &syn::Pat) -> bool {
+    matches!(pat, syn::Pat::Wild(_))
+}
+
 fn convert_cast(cast: &syn::ExprCast, num_bits: usize) -> Expr {
     let expr = &*cast.expr;
     let ty = &*cast.ty;
-- 
2.43.0


From 0d7c5f27051252f81cffb57c36b47408c5c1ff5b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:17 +0000
Subject: [PATCH 74/87] fix: SIMD translation of constants inside functions

They stayed constants, of type Self, which no method can have.
---
 doctor-syn/src/codegen/portable_simd.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/doctor-syn/src/codegen/portable_simd.rs b/doctor-syn/src/codegen/portable_simd.rs
index 64f09fa..70453e1 100644
--- a/doctor-syn/src/codegen/portable_simd.rs
+++ b/doctor-syn/src/codegen/portable_simd.rs
@@ -153,6 +153,17 @@ impl VisitMut for SimdVisitor {
             syn::Stmt::Local(local) => !is_wild(&local.pat),
             _ => true,
         });
+        // A constant can't be of type Self, and is known in all of its block.
+        let mut consts = Vec::new();
+        block.stmts.retain(|stmt| match stmt {
+            syn::Stmt::Item(Item::Const(c)) => {
+                let (ident, expr) = (&c.ident, &*c.expr);
+                consts.push(parse_quote! {let #ident = #expr;});
+                false
+            }
+            _ => true,
+        });
+        block.stmts.splice(0..0, consts);
         visit_block_mut(self, block);
     }
 
-- 
2.43.0


From 734e6bc4a164bd6cba89ef855d0b292cecb7df07 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:37 +0000
Subject: [PATCH 75/87] fix: quotients of more than 100 digits

Division keeps 100 significant digits, so 1.0 / 3.0 evaluated to 150 places, or
1e60 / 7 to 50, was not the nearest number of that many places.
---
 doctor-syn/src/bdmath.rs              | 16 ++++++++++++++++
 doctor-syn/src/transformation/eval.rs |  2 +-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/doctor-syn/src/bdmath.rs b/doctor-syn/src/bdmath.rs
index 4202b3e..3aa2b02 100644
--- a/doctor-syn/src/bdmath.rs
+++ b/doctor-syn/src/bdmath.rs
@@ -51,6 +51,22 @@ fn test_round() {
     );
 }
 
+/// The quotient, rounded once. BigDecimal divides to 100 digits.
+pub fn quotient(x: BigDecimal, y: BigDecimal, num_digits: i64) -> BigDecimal {
+    let q = &x / &y;
+    if num_digits < 0 || &q * &y == x {
+        return round(q, num_digits);
+    }
+    let is_negative = x.is_negative() != y.is_negative();
+    let (x, x_digits) = x.abs().into_bigint_and_exponent();
+    let (y, y_digits) = y.abs().into_bigint_and_exponent();
+    let shift = num_digits + y_digits - x_digits;
+    let power = BigInt::from(10).pow(shift.abs() as u32);
+    let (x, y) = if shift > 0 { (x * power, y) } else { (x, y * power) };
+    let q: BigInt = (x * 2 + &y) / (y * 2);
+    BigDecimal::new(if is_negative { -q } else { q }, num_digits)
+}
+
 pub fn pi(num_digits: i64) -> BigDecimal {
     if num_digits < 100 {
         let x : BigDecimal = "3.141592653589793238462643383279502884197169399375105820974944592307816406286208998628034825342117067982148086513282306647093844609550582231725359408128481".parse().unwrap();
diff --git a/doctor-syn/src/transformation/eval.rs b/doctor-syn/src/transformation/eval.rs
index a32c0cf..b386f8a 100644
--- a/doctor-syn/src/transformation/eval.rs
+++ b/doctor-syn/src/transformation/eval.rs
@@ -183,7 +183,7 @@ impl Visitor for Eval {
                     Ok(Expression::from(round(left * right, self.num_digits as i64)).into())
                 }
                 BinOp::Div(_) if !right.is_zero() => {
-                    Ok(Expression::from(round(left / right, self.num_digits as i64)).into())
+                    Ok(Expression::from(quotient(left, right, self.num_digits as i64)).into())
                 }
                 BinOp::Lt(_) => Ok(Expression::from(left < right).into()),
                 BinOp::Gt(_) => Ok(Expression::from(left > right).into()),
-- 
2.43.0


From b3d4c87f4434a30ceddd520ac538d4016261ce5f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:36 +0000
Subject: [PATCH 76/87] fix: square roots and reciprocals of more than 100
 digits

(1e40).sqrt() had 79 places and (3e-60).recip() 40, however many were asked for.
---
 doctor-syn/src/bdmath.rs              | 26 +++++++++++++++++++++++---
 doctor-syn/src/transformation/eval.rs |  4 ++--
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/doctor-syn/src/bdmath.rs b/doctor-syn/src/bdmath.rs
index 3aa2b02..ace7a57 100644
--- a/doctor-syn/src/bdmath.rs
+++ b/doctor-syn/src/bdmath.rs
@@ -93,9 +93,29 @@ fn test_bdmath_one_over_root_two_pi() {
     assert_eq!(c.to_f64().unwrap(), 0.3989422804014326);
 }
 
-pub fn sqrt(x: BigDecimal, _num_digits: i64) -> Option<BigDecimal> {
-    // TODO: make our own sqrt as this has a fixed num_digits of 100.
-    x.sqrt()
+pub fn sqrt(x: BigDecimal, num_digits: i64) -> Option<BigDecimal> {
+    // This has a fixed num_digits of 100.
+    let root = x.sqrt()?;
+    let (_, root_digits) = root.as_bigint_and_exponent();
+    if root_digits > num_digits || &root * &root == x {
+        return Some(root);
+    }
+    let (x, x_digits) = x.into_bigint_and_exponent();
+    let root_digits = num_digits + 1;
+    let shift = 2 * root_digits - x_digits;
+    let power = BigInt::from(10).pow(shift.abs() as u32);
+    let x: BigInt = if shift > 0 { x * power } else { x / power };
+    Some(BigDecimal::new(x.sqrt(), root_digits))
+}
+
+pub fn recip(x: BigDecimal, num_digits: i64) -> BigDecimal {
+    // This has 100 digits too.
+    let inverse = x.inverse();
+    let (_, digits) = inverse.as_bigint_and_exponent();
+    if digits > num_digits || &inverse * &x == one() {
+        return inverse;
+    }
+    quotient(one(), x, num_digits + 1)
 }
 
 pub fn bigd(i: i32) -> BigDecimal {
diff --git a/doctor-syn/src/transformation/eval.rs b/doctor-syn/src/transformation/eval.rs
index b386f8a..47aee30 100644
--- a/doctor-syn/src/transformation/eval.rs
+++ b/doctor-syn/src/transformation/eval.rs
@@ -70,7 +70,7 @@ impl Visitor for Eval {
             //     .try_into()?
 
             //     .into()),
-            ("recip", x, 0) if !x.is_zero() => Ok(Expression::from(x.inverse()).into()),
+            ("recip", x, 0) if !x.is_zero() => Ok(Expression::from(recip(x, self.num_digits)).into()),
 
             ("powi", x, 1) => {
                 Ok(Expression::from(pow(x, arg0(), self.num_digits).ok_or_else(errfn)?).into())
@@ -80,7 +80,7 @@ impl Visitor for Eval {
                 Ok(Expression::from(pow(x, arg0(), self.num_digits).ok_or_else(errfn)?).into())
             }
 
-            ("sqrt", x, 0) => Ok(Expression::from(x.sqrt().ok_or_else(errfn)?).into()),
+            ("sqrt", x, 0) => Ok(Expression::from(sqrt(x, self.num_digits).ok_or_else(errfn)?).into()),
 
             ("exp", x, 0) if x <= max_exponent() => Ok(Expression::from(exp(x, self.num_digits)).into()),
 
-- 
2.43.0


From 06e517ae1c36a3059112ef9e0c6a04f815a577f2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:10 +0000
Subject: [PATCH 77/87] fix: generated histogram tests look at every bucket

The loop kept only the last bucket's error, and the limit was below the
deviation that a million numbers have, so the test of rnorm failed.
---
 libmgen/src/test.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libmgen/src/test.rs b/libmgen/src/test.rs
index 45f711b..7874cd1 100644
--- a/libmgen/src/test.rs
+++ b/libmgen/src/test.rs
@@ -122,10 +122,11 @@ fn gen_histogram(
                 let pdf_est = h[i] as f64 / ((#niter) as f64 * dx);
                 let pdf_ref = (#refexpr) as f64;
                 println!("{} {} {}", x, pdf_est, pdf_ref);
-                max_err = (pdf_est - pdf_ref).abs();
+                max_err = max_err.max((pdf_est - pdf_ref).abs());
             }
             println!("max err = {}", max_err);
-            assert!(max_err < 0.001);
+            // A million numbers in 32 buckets differ by up to three deviations of 0.006.
+            assert!(max_err < 0.02);
         }
     )
 }
-- 
2.43.0


From 3409a0bb4e2226e0e0ecdd98a7f393837915444f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:41 +0000
Subject: [PATCH 78/87] fix: C translation of negated aliases of bool

---
 doctor-syn/src/codegen/c.rs | 38 ++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index 2072c95..d9496d4 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -39,6 +39,8 @@ struct CVisitor {
     used: Vec<String>,
     // Items that are truth values.
     bools: Vec<String>,
+    // Type aliases of truth values.
+    bool_types: Vec<String>,
     stack: Vec<String>,
 }
 
@@ -52,6 +54,7 @@ impl CVisitor {
             scopes: Vec::new(),
             used: Vec::new(),
             bools: Vec::new(),
+            bool_types: Vec::new(),
             options,
             stack: Vec::new(),
         }
@@ -138,7 +141,7 @@ impl CVisitor {
                 BinOp::BitAnd(_) | BinOp::BitOr(_) | BinOp::BitXor(_) => self.is_bool(&*e.left, locals),
                 _ => false,
             },
-            Expr::Cast(e) => is_bool_type(&*e.ty),
+            Expr::Cast(e) => self.is_bool_type(&*e.ty),
             Expr::If(e) => self.is_bool_block(&e.then_branch, locals),
             Expr::Block(e) => self.is_bool_block(&e.block, locals),
             Expr::Call(e) => match &*e.func {
@@ -158,12 +161,21 @@ impl CVisitor {
         }
     }
 
+    fn is_bool_type(&self, ty: &Type) -> bool {
+        match ty {
+            Type::Path(ty) => ty.path.get_ident().map_or(false, |name| {
+                name == "bool" || self.bool_types.iter().any(|b| name == b.as_str())
+            }),
+            _ => false,
+        }
+    }
+
     fn is_bool_block(&self, block: &Block, locals: &mut Vec<(String, bool)>) -> bool {
         let outer = locals.len();
         for stmt in &block.stmts {
             if let Stmt::Local(Local { pat, init, .. }) = stmt {
                 let is_bool = match (pat, init) {
-                    (Pat::Type(p), _) => is_bool_type(&*p.ty),
+                    (Pat::Type(p), _) => self.is_bool_type(&*p.ty),
                     (_, Some(init)) => self.is_bool(&*init.1, locals),
                     _ => false,
                 };
@@ -878,12 +890,19 @@ impl<'ast> Visit<'ast> for CVisitor {
                 _ => (),
             }
         }
+        for it in &node.items {
+            if let Item::Type(it) = it {
+                if self.is_bool_type(&*it.ty) {
+                    self.bool_types.push(it.ident.to_string());
+                }
+            }
+        }
         for it in &node.items {
             match it {
-                Item::Const(it) if is_bool_type(&*it.ty) => self.bools.push(it.ident.to_string()),
+                Item::Const(it) if self.is_bool_type(&*it.ty) => self.bools.push(it.ident.to_string()),
                 Item::Fn(it) => {
                     if let ReturnType::Type(_, ty) = &it.sig.output {
-                        if is_bool_type(&**ty) {
+                        if self.is_bool_type(&**ty) {
                             self.bools.push(it.sig.ident.to_string());
                         }
                     }
@@ -1251,7 +1270,7 @@ impl<'ast> Visit<'ast> for CVisitor {
             None
         };
         let is_bool = match (&node.pat, &node.init) {
-            (Pat::Type(p), _) => is_bool_type(&*p.ty),
+            (Pat::Type(p), _) => self.is_bool_type(&*p.ty),
             (_, Some(init)) => self.is_bool(&*init.1, &mut Vec::new()),
             _ => false,
         };
@@ -1426,7 +1445,7 @@ impl<'ast> Visit<'ast> for CVisitor {
         // }
 
         self.visit_pat(&*node.pat);
-        self.set_bool(is_bool_type(&*node.ty));
+        self.set_bool(self.is_bool_type(&*node.ty));
         let pat = self.tos();
         self.visit_type(&*node.ty);
         let ty = self.tos();
@@ -1830,13 +1849,6 @@ fn plain(name: &Ident) -> String {
     name.to_string().trim_start_matches("r#").to_string()
 }
 
-fn is_bool_type(ty: &Type) -> bool {
-    match ty {
-        Type::Path(ty) => ty.path.is_ident("bool"),
-        _ => false,
-    }
-}
-
 // Names that mean something else in C or that the translation uses.
 fn is_reserved(name: &str) -> bool {
     const KEYWORDS: &[&str] = &[
-- 
2.43.0


From f51f00b3f502c8676674945c88a0c9cfe5956344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:57 +0000
Subject: [PATCH 79/87] fix: C translation of negated constants inside
 functions

---
 doctor-syn/src/codegen/c.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index d9496d4..6a7a8dc 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -173,6 +173,9 @@ impl CVisitor {
     fn is_bool_block(&self, block: &Block, locals: &mut Vec<(String, bool)>) -> bool {
         let outer = locals.len();
         for stmt in &block.stmts {
+            if let Stmt::Item(Item::Const(it)) = stmt {
+                locals.push((plain(&it.ident), self.is_bool_type(&*it.ty)));
+            }
             if let Stmt::Local(Local { pat, init, .. }) = stmt {
                 let is_bool = match (pat, init) {
                     (Pat::Type(p), _) => self.is_bool_type(&*p.ty),
@@ -919,6 +922,7 @@ impl<'ast> Visit<'ast> for CVisitor {
                         if let Item::Fn(f) = it {
                             self.visit_signature(&f.sig);
                             let sig = self.tos();
+                            self.scopes.clear();
                             items.push(format!("{};", sig));
                         }
                     }
@@ -1051,6 +1055,13 @@ impl<'ast> Visit<'ast> for CVisitor {
         // tokens_helper(v, &node.eq_token.spans);
         let expr = self.expr_of_type(&*node.expr, &ty);
         // tokens_helper(v, &node.semi_token.spans);
+        if !self.scopes.is_empty() {
+            // The constants of a function are names of its blocks.
+            let name = self.declare(plain(&node.ident));
+            self.set_bool(self.is_bool_type(&*node.ty));
+            ret!(self, "const {} {} = {};", ty, name, expr);
+            return;
+        }
         match ident.as_str() {
             // These are macros in math.h
             "NAN" | "INFINITY" => ret!(self, "#undef {}\nconst {} {} = {};", ident, ty, ident, expr),
@@ -1081,6 +1092,7 @@ impl<'ast> Visit<'ast> for CVisitor {
     
         self.visit_block(&*node.block);
         let block = self.tos();
+        self.scopes.clear();
     
         ret!(self, "{} {{ return ({}); }}", sig, block);
     }
-- 
2.43.0


From 905e2c0128c62362b1e9446cfa1ab9d9356432e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:51 +0000
Subject: [PATCH 80/87] fix: C types of unsuffixed unsigned literals

---
 doctor-syn/src/codegen/c.rs | 71 ++++++++++++++++++++++++++++++++-----
 1 file changed, 62 insertions(+), 9 deletions(-)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index 6a7a8dc..5a93042 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -98,6 +98,18 @@ impl CVisitor {
         self.tos()
     }
 
+    // Translate an expression that has the type of another one.
+    fn expr_like(&mut self, expr: &Expr, other: &Expr) -> String {
+        let int_suffix = match unsigned_suffix(expr) {
+            Some(suffix) if !is_untyped(other) => suffix.to_string(),
+            _ => self.int_suffix.clone(),
+        };
+        let int_suffix = std::mem::replace(&mut self.int_suffix, int_suffix);
+        self.visit_expr(expr);
+        self.int_suffix = int_suffix;
+        self.tos()
+    }
+
     // Make a variable. Unlike in Rust, the value of a variable can not use
     // the variable that it replaces in C and some names are taken.
     fn declare(&mut self, name: String) -> String {
@@ -218,6 +230,40 @@ fn is_literal(expr: &Expr) -> bool {
     }
 }
 
+// Does the expression consist of operators and literals without suffixes only?
+fn is_untyped(expr: &Expr) -> bool {
+    match expr {
+        Expr::Lit(ExprLit { lit: Lit::Int(n), .. }) => n.suffix().is_empty(),
+        Expr::Unary(e) => is_untyped(&*e.expr),
+        Expr::Paren(e) => is_untyped(&*e.expr),
+        Expr::Binary(e) => is_untyped(&*e.left) && is_untyped(&*e.right),
+        _ => false,
+    }
+}
+
+// The expression of a block that has nothing else.
+fn single(block: &Block) -> Option<&Expr> {
+    match block.stmts.as_slice() {
+        [Stmt::Expr(expr)] => Some(expr),
+        _ => None,
+    }
+}
+
+// Some literals that may be unsigned have a larger type in C.
+fn unsigned_suffix(expr: &Expr) -> Option<&'static str> {
+    match expr {
+        Expr::Lit(ExprLit { lit: Lit::Int(n), .. }) if n.suffix().is_empty() => {
+            match n.base10_parse::<u64>() {
+                Ok(n) if n > i64::MAX as u64 => Some("ull"),
+                Ok(n) if n > i32::MAX as u64 && n <= u32::MAX as u64 => Some("u"),
+                _ => None,
+            }
+        }
+        Expr::Paren(e) => unsigned_suffix(&*e.expr),
+        _ => None,
+    }
+}
+
 // "1.0" and "-1.0" take the type they are cast to.
 fn is_float_literal(expr: &Expr) -> bool {
     match expr {
@@ -505,12 +551,12 @@ impl<'ast> Visit<'ast> for CVisitor {
         // for it in &node.attrs {
         //     self.visit_attribute(it);
         // }
-        self.visit_expr(&*node.left);
-        let lhs = c_operand(&*node.left, self.tos());
+        let lhs = self.expr_like(&*node.left, &*node.right);
+        let lhs = c_operand(&*node.left, lhs);
         self.visit_bin_op(&node.op);
         let op = self.tos();
-        self.visit_expr(&*node.right);
-        let rhs = c_operand(&*node.right, self.tos());
+        let rhs = self.expr_like(&*node.right, &*node.left);
+        let rhs = c_operand(&*node.right, rhs);
         ret!(self, "{} {} {}", lhs, op, rhs);
     }
 
@@ -631,10 +677,18 @@ impl<'ast> Visit<'ast> for CVisitor {
         // self.push("<<expr_if>>".to_string());
         self.visit_expr(&*node.cond);
         let cond = self.tos();
-        let t = self.block_value(&node.then_branch);
         if let Some(it) = &node.else_branch {
-            self.visit_expr(&*(it).1);
-            let f = self.tos();
+            let (t, f) = match (single(&node.then_branch), &*(it).1) {
+                (Some(t), Expr::Block(ExprBlock { block, .. })) if single(block).is_some() => {
+                    let f = single(block).unwrap();
+                    (self.expr_like(t, f), self.expr_like(f, t))
+                }
+                _ => {
+                    let t = self.block_value(&node.then_branch);
+                    self.visit_expr(&*(it).1);
+                    (t, self.tos())
+                }
+            };
             ret!(self, "(({}) ? ({}) : ({}))", cond, t, f);
         } else {
             ret!(self, "<<if requires an else>>")
@@ -697,8 +751,7 @@ impl<'ast> Visit<'ast> for CVisitor {
 
         for el in Punctuated::pairs(&node.args) {
             let (it, _) = el.into_tuple();
-            self.visit_expr(it);
-            args.push(self.tos());
+            args.push(self.expr_like(it, &*node.receiver));
         }
 
         self.push(match ident.as_str() {
-- 
2.43.0


From e937f9d8a0849b0bcb07c7c80391ddab1597360e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:58 +0000
Subject: [PATCH 81/87] fix: divided differences of more than 100 digits

---
 doctor-syn/src/polynomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doctor-syn/src/polynomial.rs b/doctor-syn/src/polynomial.rs
index bebe9c8..f4f342e 100644
--- a/doctor-syn/src/polynomial.rs
+++ b/doctor-syn/src/polynomial.rs
@@ -12,7 +12,7 @@ pub(crate) fn divided_differences(x: &[BigDecimal], y: &mut [BigDecimal], num_di
     let k = y.len();
     for i in 0..k - 1 {
         for j in (i..k - 1).rev() {
-            y[j + 1] = round((&y[j + 1] - &y[j]) / (&x[j + 1] - &x[j - i]), num_digits);
+            y[j + 1] = quotient(&y[j + 1] - &y[j], &x[j + 1] - &x[j - i], num_digits);
         }
     }
 }
-- 
2.43.0


From 5ecb08cf700bb9e62ab7d98daa5ffc041cea5b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:32 +0000
Subject: [PATCH 82/87] fix: C types of f32::NAN and f32::INFINITY

---
 doctor-syn/src/codegen/c.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index 5a93042..59da21e 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -1528,8 +1528,10 @@ impl<'ast> Visit<'ast> for CVisitor {
         use quote::ToTokens;
         let path = node.to_token_stream().to_string().replace(" :: ", "_");
         self.push(match path.as_str() {
-            "f32_NAN" | "f64_NAN" => "__builtin_nan(\"\")".to_string(),
-            "f32_INFINITY" | "f64_INFINITY" => "__builtin_inf()".to_string(),
+            "f32_NAN" => "__builtin_nanf(\"\")".to_string(),
+            "f64_NAN" => "__builtin_nan(\"\")".to_string(),
+            "f32_INFINITY" => "__builtin_inff()".to_string(),
+            "f64_INFINITY" => "__builtin_inf()".to_string(),
             "f32_MIN_POSITIVE" => "1.17549435e-38f".to_string(),
             "f64_MIN_POSITIVE" => "2.2250738585072014e-308".to_string(),
             _ => path,
-- 
2.43.0


From 44bbf1fb090a1bb08d6e1870fc2422ba2764a7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:32 +0000
Subject: [PATCH 83/87] fix: C translation of constants and functions of type
 aliases

---
 doctor-syn/src/codegen/c.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index 59da21e..440e65b 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -1526,7 +1526,15 @@ impl<'ast> Visit<'ast> for CVisitor {
     fn visit_path(&mut self, node: &'ast Path) {
         self.log("visit_path");
         use quote::ToTokens;
-        let path = node.to_token_stream().to_string().replace(" :: ", "_");
+        let mut path = node.to_token_stream().to_string().replace(" :: ", "_");
+        if let (2, Some(first), Some(last)) = (node.segments.len(), node.segments.first(), node.segments.last()) {
+            // A type alias has the constants and functions of its type.
+            match self.aliases.iter().find(|a| first.ident == a.0).map(|a| a.1.as_str()) {
+                Some("float") => path = format!("f32_{}", last.ident),
+                Some("double") => path = format!("f64_{}", last.ident),
+                _ => {}
+            }
+        }
         self.push(match path.as_str() {
             "f32_NAN" => "__builtin_nanf(\"\")".to_string(),
             "f64_NAN" => "__builtin_nan(\"\")".to_string(),
-- 
2.43.0


From 545f0d66ae484fdde291d5e580612863d41a62d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:32 +0000
Subject: [PATCH 84/87] fix: SIMD translation of type aliases

---
 doctor-syn/src/codegen/portable_simd.rs | 28 ++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/doctor-syn/src/codegen/portable_simd.rs b/doctor-syn/src/codegen/portable_simd.rs
index 70453e1..960d197 100644
--- a/doctor-syn/src/codegen/portable_simd.rs
+++ b/doctor-syn/src/codegen/portable_simd.rs
@@ -4,7 +4,7 @@
 use quote::{quote, format_ident, ToTokens};
 use syn::punctuated::Punctuated;
 use syn::visit_mut::{visit_expr_mut, visit_ident_mut, VisitMut, visit_signature_mut, visit_local_mut, visit_block_mut};
-use syn::{parse_quote, Expr, Ident, Item, ItemConst, Token, Visibility};
+use syn::{parse_quote, Expr, Ident, Item, ItemConst, ItemType, Token, Visibility};
 
 pub struct Options {
     pub num_bits: usize,
@@ -20,6 +20,7 @@ impl Default for Options {
 pub struct SimdVisitor {
     options: Options,
     consts: Vec<ItemConst>,
+    aliases: Vec<ItemType>,
     functions: Vec<Ident>,
     idents_used: Vec<Ident>,
 }
@@ -31,10 +32,19 @@ impl SimdVisitor {
         SimdVisitor {
             options,
             consts,
+            aliases: Vec::new(),
             functions: Vec::new(),
             idents_used,
         }
     }
+
+    // The type that a type alias of the file stands for.
+    fn resolve(&self, name: String) -> String {
+        match self.aliases.iter().find(|item| item.ident == name) {
+            Some(item) => self.resolve(item.ty.to_token_stream().to_string()),
+            None => name,
+        }
+    }
 }
 
 fn deblock1(block: &syn::Block) -> Expr {
@@ -80,7 +90,7 @@ impl VisitMut for SimdVisitor {
     }
 
     fn visit_type_path_mut(&mut self, type_path: &mut syn::TypePath) {
-        match (type_path.to_token_stream().to_string().as_str(), self.options.num_bits) {
+        match (self.resolve(type_path.to_token_stream().to_string()).as_str(), self.options.num_bits) {
             ("uty", _) | ("u32", 32) | ("u64", 64) => *type_path = parse_quote!(Self::UintType),
             ("ity", _) | ("i32", 32) | ("i64", 64) => *type_path = parse_quote!(Self::IntType),
             ("fty", _) | ("f32", 32) | ("f64", 64) => *type_path = parse_quote!(Self),
@@ -99,6 +109,14 @@ impl VisitMut for SimdVisitor {
                 }
             }
         }
+        if let syn::Expr::Path(exprpath) = expr {
+            if exprpath.path.segments.len() == 2 {
+                let ident = &mut exprpath.path.segments[0].ident;
+                if let Ok(target) = syn::parse_str(&self.resolve(ident.to_string())) {
+                    *ident = target;
+                }
+            }
+        }
         visit_expr_mut(self, expr);
 
         match &*expr {
@@ -132,7 +150,8 @@ impl VisitMut for SimdVisitor {
             },
             syn::Expr::Path(exprpath) => {
                 // println!("HERE: {}", exprpath.to_token_stream().to_string().as_str())
-                match exprpath.to_token_stream().to_string().as_str() {
+                let path = exprpath.to_token_stream().to_string();
+                match path.replace("Self ::", if self.options.num_bits == 32 { "f32 ::" } else { "f64 ::" }).as_str() {
                     "f32 :: NAN" => *expr = parse_quote! { Self::splat(f32::NAN) },
                     "f64 :: NAN" => *expr = parse_quote! { Self::splat(f64::NAN) },
                     "f32 :: INFINITY" => *expr = parse_quote! { Self::splat(f32::INFINITY) },
@@ -303,6 +322,9 @@ pub fn to_simd(file: &syn::File, options: Options) -> syn::File {
         match it {
             Item::Const(item) => cv.consts.push(item.clone()),
             Item::Fn(item) => cv.functions.push(item.sig.ident.clone()),
+            // These are known.
+            Item::Type(item) if item.ident == "fty" || item.ident == "uty" || item.ident == "ity" => {}
+            Item::Type(item) => cv.aliases.push(item.clone()),
             _ => {}
         }
     }
-- 
2.43.0


From 72f456d6578a30a49848aaafd23730bf3f8d3898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:57 +0000
Subject: [PATCH 85/87] fix: C translation of conditional statements

---
 doctor-syn/src/codegen/c.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index 440e65b..a7451ea 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -442,7 +442,9 @@ impl<'ast> Visit<'ast> for CVisitor {
             stmts.push(self.tos());
         }
         self.scopes.pop();
-        ret!(self, "{{\n{}\n}}", stmts.join(";\n"));
+        // A value has its semicolon.
+        let end = if let Some(Stmt::Semi(..)) | Some(Stmt::Local(..)) = node.stmts.last() { ";" } else { "" };
+        ret!(self, "{{\n{}{}\n}}", stmts.join(";\n"), end);
     }
 
     fn visit_bound_lifetimes(&mut self, node: &'ast BoundLifetimes) {
@@ -691,7 +693,8 @@ impl<'ast> Visit<'ast> for CVisitor {
             };
             ret!(self, "(({}) ? ({}) : ({}))", cond, t, f);
         } else {
-            ret!(self, "<<if requires an else>>")
+            let t = self.block_value(&node.then_branch);
+            ret!(self, "(({}) ? (void)({}) : (void)0)", cond, t);
         };
     }
 
-- 
2.43.0


From a218e94efda258fb3fe3e5ea81201c1808f0de54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:55 +0000
Subject: [PATCH 86/87] fix: substitution for members of types

---
 doctor-syn/src/transformation/subst.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/doctor-syn/src/transformation/subst.rs b/doctor-syn/src/transformation/subst.rs
index 438edf6..f038cea 100644
--- a/doctor-syn/src/transformation/subst.rs
+++ b/doctor-syn/src/transformation/subst.rs
@@ -14,6 +14,10 @@ impl Visitor for Subst {
     fn visit_path(&self, exprpath: &ExprPath) -> Result<Expr> {
         //println!("visit_path {:?}", self);
         let name: Name = exprpath.path.clone().into();
+        if exprpath.qself.is_some() {
+            // A member of a type, eg. "<f64>::x".
+            return Ok(exprpath.clone().into());
+        }
         if let Some(res) = self.variables.find(&name) {
             // Substitute, keeping the result as one operand when printed.
             Ok(make_operand(res.into()))
-- 
2.43.0


From 3591c9b512078d5b22c07bd6246fff481e7aec41 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:29 +0000
Subject: [PATCH 87/87] fix: constants used before they are written in SIMD

---
 doctor-syn/src/codegen/portable_simd.rs | 29 +++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/doctor-syn/src/codegen/portable_simd.rs b/doctor-syn/src/codegen/portable_simd.rs
index 960d197..eb56ae1 100644
--- a/doctor-syn/src/codegen/portable_simd.rs
+++ b/doctor-syn/src/codegen/portable_simd.rs
@@ -1,6 +1,7 @@
 //! Convert a file of functions into a set of methods
 //! suitable for rust-lang/portable-simd
 
+use proc_macro2::{TokenStream, TokenTree};
 use quote::{quote, format_ident, ToTokens};
 use syn::punctuated::Punctuated;
 use syn::visit_mut::{visit_expr_mut, visit_ident_mut, VisitMut, visit_signature_mut, visit_local_mut, visit_block_mut};
@@ -176,12 +177,15 @@ impl VisitMut for SimdVisitor {
         let mut consts = Vec::new();
         block.stmts.retain(|stmt| match stmt {
             syn::Stmt::Item(Item::Const(c)) => {
-                let (ident, expr) = (&c.ident, &*c.expr);
-                consts.push(parse_quote! {let #ident = #expr;});
+                consts.push(c.clone());
                 false
             }
             _ => true,
         });
+        let consts = in_order_of_use(consts).into_iter().map(|c| {
+            let (ident, expr) = (&c.ident, &*c.expr);
+            parse_quote! {let #ident = #expr;}
+        }).collect::<Vec<syn::Stmt>>();
         block.stmts.splice(0..0, consts);
         visit_block_mut(self, block);
     }
@@ -194,6 +198,26 @@ impl VisitMut for SimdVisitor {
     }
 }
 
+fn uses(tokens: TokenStream, ident: &Ident) -> bool {
+    tokens.into_iter().any(|t| match t {
+        TokenTree::Ident(i) => i == *ident,
+        TokenTree::Group(g) => uses(g.stream(), ident),
+        _ => false,
+    })
+}
+
+// A constant may be used before it is written, a variable may not.
+fn in_order_of_use(mut consts: Vec<ItemConst>) -> Vec<ItemConst> {
+    let mut res = Vec::new();
+    while !consts.is_empty() {
+        let first = (0..consts.len())
+            .find(|&i| !consts.iter().any(|c| uses(consts[i].expr.to_token_stream(), &c.ident)))
+            .unwrap_or(0);
+        res.push(consts.remove(first));
+    }
+    res
+}
+
 fn is_wild(pat: &syn::Pat) -> bool {
     matches!(pat, syn::Pat::Wild(_))
 }
@@ -328,6 +352,7 @@ pub fn to_simd(file: &syn::File, options: Options) -> syn::File {
             _ => {}
         }
     }
+    cv.consts = in_order_of_use(std::mem::take(&mut cv.consts));
 
     for it in &file.items {
         cv.idents_used.clear();
-- 
2.43.0

