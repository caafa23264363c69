From 715b23193e97d720878e4c8bf934cce2b01c4e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:29 +0000
Subject: [PATCH 01/20] fix: cos(pi) evaluates to -1

---
 src/compute/num_aggregate/rules/cos.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/compute/num_aggregate/rules/cos.rs b/src/compute/num_aggregate/rules/cos.rs
index 567f2c1..a27f4c7 100644
--- a/src/compute/num_aggregate/rules/cos.rs
+++ b/src/compute/num_aggregate/rules/cos.rs
@@ -6,8 +6,10 @@ pub(crate) fn cos_eval_rule(mut child: Vec<Expression>) -> Expression {
     let sub = child.pop().unwrap().num_aggregate();
     match &sub.root {
         AstNode::Operand(operand) => {
-            if operand.is_zero() || operand.is_pi() {
+            if operand.is_zero() {
                 Expression::from(1_i64)
+            } else if operand.is_pi() {
+                Expression::from(-1_i64)
             } else {
                 sub.cos()
             }
-- 
2.43.0


From bef96a239b49e83e28bc246bb026f3a125de1025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:31 +0000
Subject: [PATCH 02/20] fix: apply the power identities to the exponent instead
 of the base

---
 src/compute/num_aggregate/rules/pow.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/compute/num_aggregate/rules/pow.rs b/src/compute/num_aggregate/rules/pow.rs
index acd3e5b..1eab633 100644
--- a/src/compute/num_aggregate/rules/pow.rs
+++ b/src/compute/num_aggregate/rules/pow.rs
@@ -1,28 +1,24 @@
 use crate::ast::op::operand::AstOperand;
-use crate::ast::op::operator::OperatorType;
 use crate::ast::tree::{AstNode, Expression};
 use crate::compute::num_aggregate::NumAggregate;
 use crate::math_op::pow::Pow;
 
 pub(crate) fn pow_eval_rule(mut child: Vec<Expression>) -> Expression {
     let r = child.pop().unwrap().num_aggregate();
-    let mut sub = child.pop().unwrap().num_aggregate();
-    match &sub.root {
+    let sub = child.pop().unwrap().num_aggregate();
+    match &r.root {
         AstNode::Operand(operand) => match operand {
             AstOperand::Variable(_) => sub.pow(r),
             AstOperand::Num(v) => {
                 if v.is_zero() {
                     Expression::from(1_i64)
                 } else if v.is_one() {
-                    r
+                    sub
                 } else {
                     sub.pow(r)
                 }
             }
         },
-        AstNode::Operator(operator) => match operator.descriptor {
-            OperatorType::Ln => sub.child.pop().unwrap(),
-            _ => sub.pow(r),
-        },
+        AstNode::Operator(_) => sub.pow(r),
     }
 }
-- 
2.43.0


From 33d59bca4e25d8509182774b80e17fa5c7ac2e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:34 +0000
Subject: [PATCH 03/20] fix: detect overflow of cross products in rational
 addition and subtraction

---
 src/smart_num/rational.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/smart_num/rational.rs b/src/smart_num/rational.rs
index 438aa11..b158f4a 100644
--- a/src/smart_num/rational.rs
+++ b/src/smart_num/rational.rs
@@ -94,8 +94,8 @@ impl Add for RationalNum {
     type Output = RationalNum;
 
     fn add(self, rhs: Self) -> Self::Output {
-        let a = ((self.nominator * rhs.denominator) as i64) * self.sign;
-        let b = ((self.denominator * rhs.nominator) as i64) * rhs.sign;
+        let a = i64::try_from(self.nominator * rhs.denominator).expect("overflow") * self.sign;
+        let b = i64::try_from(self.denominator * rhs.nominator).expect("overflow") * rhs.sign;
         let s = a + b;
         let sign = s.signum();
         let nominator = s.abs() as u64;
@@ -113,8 +113,8 @@ impl Sub for RationalNum {
     type Output = RationalNum;
 
     fn sub(self, rhs: Self) -> Self::Output {
-        let a = ((self.nominator * rhs.denominator) as i64) * self.sign;
-        let b = ((self.denominator * rhs.nominator) as i64) * rhs.sign;
+        let a = i64::try_from(self.nominator * rhs.denominator).expect("overflow") * self.sign;
+        let b = i64::try_from(self.denominator * rhs.nominator).expect("overflow") * rhs.sign;
         let s = a - b;
         let sign = s.signum();
         let nominator = s.abs() as u64;
-- 
2.43.0


From fa5670edd3dd72975b056cac57c92b283e02fa10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:37 +0000
Subject: [PATCH 04/20] fix: a zero sum of rationals keeps a valid sign

---
 src/smart_num/rational.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/smart_num/rational.rs b/src/smart_num/rational.rs
index b158f4a..3c22fe9 100644
--- a/src/smart_num/rational.rs
+++ b/src/smart_num/rational.rs
@@ -97,7 +97,7 @@ impl Add for RationalNum {
         let a = i64::try_from(self.nominator * rhs.denominator).expect("overflow") * self.sign;
         let b = i64::try_from(self.denominator * rhs.nominator).expect("overflow") * rhs.sign;
         let s = a + b;
-        let sign = s.signum();
+        let sign = if s == 0 { 1_i64 } else { s.signum() };
         let nominator = s.abs() as u64;
         let denominator = self.denominator * rhs.denominator;
         let res = RationalNum {
@@ -116,7 +116,7 @@ impl Sub for RationalNum {
         let a = i64::try_from(self.nominator * rhs.denominator).expect("overflow") * self.sign;
         let b = i64::try_from(self.denominator * rhs.nominator).expect("overflow") * rhs.sign;
         let s = a - b;
-        let sign = s.signum();
+        let sign = if s == 0 { 1_i64 } else { s.signum() };
         let nominator = s.abs() as u64;
         let denominator = self.denominator * rhs.denominator;
         let res = RationalNum {
-- 
2.43.0


From 7ee08b3471d5e1d5db06c8e97f3e231bb73882ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:39 +0000
Subject: [PATCH 05/20] fix: convert i64::MIN to a rational without overflow

---
 src/smart_num/rational.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smart_num/rational.rs b/src/smart_num/rational.rs
index 3c22fe9..d16a5ed 100644
--- a/src/smart_num/rational.rs
+++ b/src/smart_num/rational.rs
@@ -174,7 +174,7 @@ impl From<i64> for RationalNum {
     fn from(v: i64) -> Self {
         RationalNum {
             sign: if v == 0 { 1_i64 } else { v.signum() },
-            nominator: v.abs() as u64,
+            nominator: v.unsigned_abs(),
             denominator: 1,
         }
     }
-- 
2.43.0


From edbd4827d58b2357ae4f11a603546972ee02dcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:42 +0000
Subject: [PATCH 06/20] fix: keep the value of u64 numbers above i64::MAX

---
 src/smart_num/val_holder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/smart_num/val_holder.rs b/src/smart_num/val_holder.rs
index 6514344..372d3fb 100644
--- a/src/smart_num/val_holder.rs
+++ b/src/smart_num/val_holder.rs
@@ -194,7 +194,10 @@ impl From<i32> for SmartNumVal {
 
 impl From<u64> for SmartNumVal {
     fn from(v: u64) -> Self {
-        SmartNumVal::Integer(v as i64)
+        match i64::try_from(v) {
+            Ok(i) => SmartNumVal::Integer(i),
+            Err(_) => SmartNumVal::Rational(RationalNum::from(v)),
+        }
     }
 }
 
-- 
2.43.0


From 1ffffe68208000857a01cb0c982e064301e7c386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:44 +0000
Subject: [PATCH 07/20] fix: the sign of a zero rational or real number is 0

---
 src/smart_num/mod.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/smart_num/mod.rs b/src/smart_num/mod.rs
index cc06b70..2ae5ea7 100644
--- a/src/smart_num/mod.rs
+++ b/src/smart_num/mod.rs
@@ -99,8 +99,20 @@ impl SmartNum {
     pub fn sign(&self) -> i64 {
         match self.value {
             SmartNumVal::Integer(v) => v.signum(),
-            SmartNumVal::Rational(v) => v.sign,
-            SmartNumVal::Real(v) => v.signum() as i64,
+            SmartNumVal::Rational(v) => {
+                if v.nominator == 0 {
+                    0
+                } else {
+                    v.sign
+                }
+            }
+            SmartNumVal::Real(v) => {
+                if v == 0.0 {
+                    0
+                } else {
+                    v.signum() as i64
+                }
+            }
         }
     }
 }
-- 
2.43.0


From 3571ac2c7d6faf672b68b9fb900688417d6fee28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:13 +0000
Subject: [PATCH 08/20] fix: differentiate powers with a numeric exponent by
 the power rule

---
 src/compute/derivative/rules/pow.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/compute/derivative/rules/pow.rs b/src/compute/derivative/rules/pow.rs
index 79c7870..2b75d65 100644
--- a/src/compute/derivative/rules/pow.rs
+++ b/src/compute/derivative/rules/pow.rs
@@ -11,6 +11,11 @@ pub(crate) fn pow_derivative_rule(
     // (u^r)' = (exp(r*ln(u)))' = (r*ln(u))' * exp(r*ln(u)) = u^r * (r' * ln(u) + r * u' / u)
     let r = child.pop().unwrap();
     let u = child.pop().unwrap();
+    if r.is_num() {
+        // (u^r)' = r * u^(r-1) * u', which also holds where ln(u) is undefined
+        let u_d = u.clone().derivative(to)?;
+        return Ok(r.clone() * u.pow(r - Expression::one()) * u_d);
+    }
     let r_d = r.clone().derivative(to)?;
     let u_d = u.clone().derivative(to)?;
     let ln_u = u.clone().ln();
-- 
2.43.0


From ad087ec791712b6a6a936d53107cfe26382acbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:16 +0000
Subject: [PATCH 09/20] fix: a limit over something that is not a variable is
 an error, not a panic

---
 src/compute/limit/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compute/limit/mod.rs b/src/compute/limit/mod.rs
index f555e5d..3221728 100644
--- a/src/compute/limit/mod.rs
+++ b/src/compute/limit/mod.rs
@@ -77,7 +77,7 @@ impl LimitTry<Expression, Expression> for Expression {
 
     fn limit(self, of_: Expression, to: Expression, order_try: u64) -> Self::Output {
         let of_raw: Option<Variable> = of_.into();
-        let of = of_raw.unwrap();
+        let of = of_raw.ok_or(NoValidLimitFound {})?;
         self.limit(&of, to, order_try)
     }
 }
-- 
2.43.0


From c40cad6be02661af98b3667a6047b20c285b717e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:19 +0000
Subject: [PATCH 10/20] fix: the limit of a negation is computed from the limit
 of its operand

---
 src/compute/limit/mod.rs       | 2 +-
 src/compute/limit/rules/neg.rs | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/compute/limit/mod.rs b/src/compute/limit/mod.rs
index 3221728..0937bf7 100644
--- a/src/compute/limit/mod.rs
+++ b/src/compute/limit/mod.rs
@@ -45,7 +45,7 @@ impl<'a> LimitTry<&'a Variable, Expression> for Expression {
                 }
             },
             AstNode::Operator(operator) => match operator.descriptor {
-                OperatorType::Neg => Ok(self.neg_limit_expr_rule(of, to, order_try)),
+                OperatorType::Neg => self.neg_limit_expr_rule(of, to, order_try),
                 OperatorType::Add => self.add_limit_expr_rule(of, to, order_try),
                 OperatorType::Sub => self.sub_limit_expr_rule(of, to, order_try),
                 OperatorType::Mul => self.mul_limit_expr_rule(of, to, order_try),
diff --git a/src/compute/limit/rules/neg.rs b/src/compute/limit/rules/neg.rs
index c254f46..006f000 100644
--- a/src/compute/limit/rules/neg.rs
+++ b/src/compute/limit/rules/neg.rs
@@ -1,6 +1,9 @@
 use crate::{
     ast::{op::operand::Variable, tree::Expression},
-    compute::limit::limit_expression::LimitExpression,
+    compute::limit::{
+        limit_expression::{LimitExpression, NoValidLimitFound},
+        LimitTry,
+    },
 };
 
 pub(crate) trait NegLimitExprRule {
@@ -9,10 +12,10 @@ pub(crate) trait NegLimitExprRule {
 }
 
 impl NegLimitExprRule for Expression {
-    type Output = LimitExpression;
+    type Output = Result<LimitExpression, NoValidLimitFound>;
 
     fn neg_limit_expr_rule(mut self, of: &Variable, to: Expression, order_try: u64) -> Self::Output {
         let sub = self.child.pop().unwrap();
-        -sub.neg_limit_expr_rule(of, to, order_try)
+        Ok(-sub.limit(of, to, order_try)?)
     }
 }
-- 
2.43.0


From 55a8200497d0e497a39d0d9d1f7eeb8954fe9400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:21 +0000
Subject: [PATCH 11/20] fix: unsupported limits of exp, ln and pow are errors,
 not panics

---
 src/compute/limit/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/compute/limit/mod.rs b/src/compute/limit/mod.rs
index 0937bf7..3df8c60 100644
--- a/src/compute/limit/mod.rs
+++ b/src/compute/limit/mod.rs
@@ -52,9 +52,9 @@ impl<'a> LimitTry<&'a Variable, Expression> for Expression {
                 OperatorType::Div => self.div_limit_expr_rule(of, to, order_try),
                 OperatorType::Sin => self.sin_limit_expr_rule(of, to, order_try),
                 OperatorType::Cos => self.cos_limit_expr_rule(of, to, order_try),
-                OperatorType::Exp => todo!(),
-                OperatorType::Ln => todo!(),
-                OperatorType::Pow => todo!(),
+                OperatorType::Exp => Err(NoValidLimitFound {}),
+                OperatorType::Ln => Err(NoValidLimitFound {}),
+                OperatorType::Pow => Err(NoValidLimitFound {}),
             },
         }?;
         let flag = match &z {
-- 
2.43.0


From 6d0b2cdf3f971c55a35d70405487c3c372c3dd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:24 +0000
Subject: [PATCH 12/20] fix: a limit that is the number zero is infinitesimal

---
 src/compute/limit/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/compute/limit/mod.rs b/src/compute/limit/mod.rs
index 3df8c60..152db3b 100644
--- a/src/compute/limit/mod.rs
+++ b/src/compute/limit/mod.rs
@@ -63,7 +63,14 @@ impl<'a> LimitTry<&'a Variable, Expression> for Expression {
         };
         return if flag {
             match z {
-                LimitExpression::Normal(expr) => Ok(LimitExpression::Normal(expr.num_aggregate())),
+                LimitExpression::Normal(expr) => {
+                    let expr = expr.num_aggregate();
+                    if expr.is_zero() {
+                        Ok(LimitExpression::Infinitesimal)
+                    } else {
+                        Ok(LimitExpression::Normal(expr))
+                    }
+                }
                 _ => Err(NoValidLimitFound {}), // Unreachable
             }
         } else {
-- 
2.43.0


From 4943093fd40db23d125d82599991f7a7fb7d7b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:27 +0000
Subject: [PATCH 13/20] fix: limits of sin and cos follow the limit of their
 argument

---
 src/compute/limit/rules/cos.rs | 32 +++++++++++++++++---------------
 src/compute/limit/rules/div.rs | 11 ++++++++---
 src/compute/limit/rules/sin.rs | 34 ++++++++++++++++------------------
 3 files changed, 41 insertions(+), 36 deletions(-)

diff --git a/src/compute/limit/rules/cos.rs b/src/compute/limit/rules/cos.rs
index 0f920b5..10d6bdd 100644
--- a/src/compute/limit/rules/cos.rs
+++ b/src/compute/limit/rules/cos.rs
@@ -1,10 +1,10 @@
 use crate::{
     ast::{op::operand::Variable, tree::Expression},
-    compute::{
-        limit::limit_expression::{LimitExpression, NoValidLimitFound},
-        num_aggregate::NumAggregate,
-        substitute::Substitute,
+    compute::limit::{
+        limit_expression::{LimitExpression, NoValidLimitFound},
+        LimitTry,
     },
+    math_op::cos::Cos,
 };
 
 pub(crate) trait CosLimitExprRule {
@@ -17,16 +17,18 @@ pub(crate) trait CosLimitExprRule {
 impl CosLimitExprRule for Expression {
     type Output = Result<LimitExpression, NoValidLimitFound>;
 
-    fn cos_limit_expr_rule(self, of: &Variable, to: Expression, _order_try: u64) -> Self::Output {
-        self.substitute(of, &to)
-            .map_err(|_| NoValidLimitFound {})
-            .map(|expr| {
-                let z = expr.num_aggregate();
-                if z.is_zero() {
-                    LimitExpression::Infinitesimal
-                } else {
-                    LimitExpression::Normal(z)
-                }
-            })
+    fn cos_limit_expr_rule(
+        mut self,
+        of: &Variable,
+        to: Expression,
+        order_try: u64,
+    ) -> Self::Output {
+        let sub = self.child.pop().unwrap();
+        match sub.limit(of, to, order_try)? {
+            LimitExpression::Infinitesimal => Ok(LimitExpression::Normal(Expression::one())),
+            LimitExpression::Infinity => Ok(LimitExpression::BoundedFluctuation),
+            LimitExpression::BoundedFluctuation => Ok(LimitExpression::BoundedFluctuation),
+            LimitExpression::Normal(r) => Ok(LimitExpression::Normal(r.cos())),
+        }
     }
 }
diff --git a/src/compute/limit/rules/div.rs b/src/compute/limit/rules/div.rs
index 0fde3d5..675a730 100644
--- a/src/compute/limit/rules/div.rs
+++ b/src/compute/limit/rules/div.rs
@@ -29,9 +29,14 @@ impl DivLimitExprRule for Expression {
         for _ in 0..=order_try {
             let a = l.clone().limit(of, to.clone(), order_try)?;
             let b = r.clone().limit(of, to.clone(), order_try)?;
-            let z = a / b;
-            if z.is_ok() {
-                return Ok(z.unwrap());
+            // only 0/0 and infinity/infinity may be resolved by derivatives
+            let indeterminate = match (&a, &b) {
+                (LimitExpression::Infinitesimal, LimitExpression::Infinitesimal) => true,
+                (LimitExpression::Infinity, LimitExpression::Infinity) => true,
+                _ => false,
+            };
+            if !indeterminate {
+                return a / b;
             }
             l = l.derivative(of).map_err(|_| NoValidLimitFound {})?;
             r = r.derivative(of).map_err(|_| NoValidLimitFound {})?;
diff --git a/src/compute/limit/rules/sin.rs b/src/compute/limit/rules/sin.rs
index 9f877e1..8b6af63 100644
--- a/src/compute/limit/rules/sin.rs
+++ b/src/compute/limit/rules/sin.rs
@@ -1,10 +1,10 @@
 use crate::{
     ast::{op::operand::Variable, tree::Expression},
-    compute::{
-        limit::limit_expression::{LimitExpression, NoValidLimitFound},
-        num_aggregate::NumAggregate,
-        substitute::Substitute,
+    compute::limit::{
+        limit_expression::{LimitExpression, NoValidLimitFound},
+        LimitTry,
     },
+    math_op::sin::Sin,
 };
 
 pub(crate) trait SinLimitExprRule {
@@ -17,20 +17,18 @@ pub(crate) trait SinLimitExprRule {
 impl SinLimitExprRule for Expression {
     type Output = Result<LimitExpression, NoValidLimitFound>;
 
-    fn sin_limit_expr_rule(self, of: &Variable, to: Expression, _order_try: u64) -> Self::Output {
-        if to.is_zero() {
-            Ok(LimitExpression::Infinitesimal)
-        } else {
-            self.substitute(of, &to)
-                .map_err(|_| NoValidLimitFound {})
-                .map(|expr| {
-                    let z = expr.num_aggregate();
-                    if z.is_zero() {
-                        LimitExpression::Infinitesimal
-                    } else {
-                        LimitExpression::Normal(z)
-                    }
-                })
+    fn sin_limit_expr_rule(
+        mut self,
+        of: &Variable,
+        to: Expression,
+        order_try: u64,
+    ) -> Self::Output {
+        let sub = self.child.pop().unwrap();
+        match sub.limit(of, to, order_try)? {
+            LimitExpression::Infinitesimal => Ok(LimitExpression::Infinitesimal),
+            LimitExpression::Infinity => Ok(LimitExpression::BoundedFluctuation),
+            LimitExpression::BoundedFluctuation => Ok(LimitExpression::BoundedFluctuation),
+            LimitExpression::Normal(r) => Ok(LimitExpression::Normal(r.sin())),
         }
     }
 }
-- 
2.43.0


From 6c08cd18be8fc99724a7c1c5388a498ab3d3486d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:29 +0000
Subject: [PATCH 14/20] fix: parenthesise operands whose grouping would be lost
 in the rendered text

---
 src/ast/tree.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/ast/tree.rs b/src/ast/tree.rs
index e598fa5..91b3c37 100644
--- a/src/ast/tree.rs
+++ b/src/ast/tree.rs
@@ -2,7 +2,7 @@
 
 use super::op::{
     operand::{AstOperand, Variable},
-    operator::AstOperator,
+    operator::{AstOperator, OperatorType},
 };
 use crate::smart_num::{
     rational::{RationalNum, ToRational},
@@ -81,12 +81,17 @@ impl Expression {
             AstNode::Operand(v) => v.to_string(),
             AstNode::Operator(op) => {
                 let me = if self.child.len() == 2 {
-                    // binary operator
+                    // binary operator, grouped to the left except for pow
+                    let left_priority = if op.descriptor == OperatorType::Pow {
+                        op.priority + 1
+                    } else {
+                        op.priority
+                    };
                     format!(
                         "{} {} {}",
-                        self.child[0].to_string_raw(op.priority),
+                        self.child[0].to_string_raw(left_priority),
                         op,
-                        self.child[1].to_string_raw(op.priority),
+                        self.child[1].to_string_raw(op.priority + 1),
                     )
                 } else {
                     // unary operator
-- 
2.43.0


From 6a99fb2d8133657dbd5dee1c942be3e20828734b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 15/20] fix: 0/0 is undefined, not zero

---
 src/smart_num/val_holder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smart_num/val_holder.rs b/src/smart_num/val_holder.rs
index 372d3fb..1888763 100644
--- a/src/smart_num/val_holder.rs
+++ b/src/smart_num/val_holder.rs
@@ -281,7 +281,7 @@ impl Div for SmartNumVal {
     type Output = SmartNumVal;
 
     fn div(self, rhs: Self) -> Self::Output {
-        if self.is_zero() {
+        if self.is_zero() && !rhs.is_zero() {
             SmartNumVal::Integer(0_i64)
         } else {
             match self {
-- 
2.43.0


From d6f4406df4d4747910d10b68eacc21297fd8f751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:34 +0000
Subject: [PATCH 16/20] fix: parenthesise negative numbers and fractions inside
 a larger rendered expression

---
 src/ast/tree.rs      |  7 ++++++-
 src/smart_num/mod.rs | 12 ++++++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/ast/tree.rs b/src/ast/tree.rs
index 91b3c37..9f2ce1b 100644
--- a/src/ast/tree.rs
+++ b/src/ast/tree.rs
@@ -78,7 +78,12 @@ impl Expression {
 
     fn to_string_raw(&self, upper_priority: u32) -> String {
         match &self.root {
-            AstNode::Operand(v) => v.to_string(),
+            AstNode::Operand(v) => match v {
+                AstOperand::Num(num) if num.priority() < upper_priority => {
+                    format!("({})", v.to_string())
+                }
+                _ => v.to_string(),
+            },
             AstNode::Operator(op) => {
                 let me = if self.child.len() == 2 {
                     // binary operator, grouped to the left except for pow
diff --git a/src/smart_num/mod.rs b/src/smart_num/mod.rs
index 2ae5ea7..b256401 100644
--- a/src/smart_num/mod.rs
+++ b/src/smart_num/mod.rs
@@ -96,6 +96,18 @@ impl SmartNum {
         self.tag == ConstType::E
     }
 
+    /// How tightly the printed number binds: a minus sign and a fraction bar
+    /// read like the operators they look like.
+    pub fn priority(&self) -> u32 {
+        if self.sign() < 0 {
+            1
+        } else if self.tag == ConstType::Nothing && self.value.is_rational() {
+            4
+        } else {
+            u32::MAX
+        }
+    }
+
     pub fn sign(&self) -> i64 {
         match self.value {
             SmartNumVal::Integer(v) => v.signum(),
-- 
2.43.0


From 28574ba05b4bd5e7312ff940b9bfa351077e5009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:56 +0000
Subject: [PATCH 17/20] fix: parenthesise a sum under a leading minus in the
 rendered text

---
 src/ast/tree.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ast/tree.rs b/src/ast/tree.rs
index 9f2ce1b..58e9509 100644
--- a/src/ast/tree.rs
+++ b/src/ast/tree.rs
@@ -99,8 +99,13 @@ impl Expression {
                         self.child[1].to_string_raw(op.priority + 1),
                     )
                 } else {
-                    // unary operator
-                    format!("{}{}", op, self.child[0].to_string_raw(op.priority),)
+                    // unary operator, a leading minus reaches over products but not over sums
+                    let child_priority = if op.descriptor == OperatorType::Neg {
+                        op.priority + 2
+                    } else {
+                        op.priority
+                    };
+                    format!("{}{}", op, self.child[0].to_string_raw(child_priority),)
                 };
                 if op.priority < upper_priority {
                     format!("({})", me)
-- 
2.43.0


From 5421148eaff16c0038bbcb244af3dd9fe525cfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:59 +0000
Subject: [PATCH 18/20] fix: parenthesise the coefficients of a printed Taylor
 expansion

---
 src/compute/taylor_expansion/partial_expansion.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/compute/taylor_expansion/partial_expansion.rs b/src/compute/taylor_expansion/partial_expansion.rs
index 3bddce5..d746645 100644
--- a/src/compute/taylor_expansion/partial_expansion.rs
+++ b/src/compute/taylor_expansion/partial_expansion.rs
@@ -26,8 +26,7 @@ impl Display for PartialExpansion {
             if term.is_zero() {
                 continue;
             }
-            content.push_str(format!("{} * ", term).as_str());
-            content.push_str(format!("{}", b.clone().pow(idx as i64)).as_str());
+            content.push_str(format!("{}", term.clone() * b.clone().pow(idx as i64)).as_str());
             content.push_str(" + ")
         }
         content.push_str(format!("O({})", b.clone().pow(self.order + 1),).as_str());
-- 
2.43.0


From ab68d9e837b0c5e81832fd97c30bb233be079732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:16 +0000
Subject: [PATCH 19/20] fix: an infinitesimal plus infinity is infinity, as
 infinity plus an infinitesimal

---
 src/compute/limit/limit_expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compute/limit/limit_expression.rs b/src/compute/limit/limit_expression.rs
index 76bdce6..2c0bc39 100644
--- a/src/compute/limit/limit_expression.rs
+++ b/src/compute/limit/limit_expression.rs
@@ -53,7 +53,7 @@ impl Add for LimitExpression {
         match self {
             LimitExpression::Infinitesimal => match rhs {
                 LimitExpression::Infinitesimal => Ok(LimitExpression::Infinitesimal),
-                LimitExpression::Infinity => Err(NoValidLimitFound {}),
+                LimitExpression::Infinity => Ok(LimitExpression::Infinity),
                 LimitExpression::BoundedFluctuation => Ok(LimitExpression::BoundedFluctuation),
                 LimitExpression::Normal(r) => Ok(LimitExpression::Normal(r)),
             },
-- 
2.43.0


From fe260fe9c092af237da4c8724649a38b0abc304d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:27 +0000
Subject: [PATCH 20/20] fix: simplifying zero minus a negation left a double
 negation

---
 src/compute/num_aggregate/rules/neg.rs | 6 +++++-
 src/compute/num_aggregate/rules/sub.rs | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/compute/num_aggregate/rules/neg.rs b/src/compute/num_aggregate/rules/neg.rs
index 28f616e..5d1862b 100644
--- a/src/compute/num_aggregate/rules/neg.rs
+++ b/src/compute/num_aggregate/rules/neg.rs
@@ -4,7 +4,11 @@ use crate::compute::num_aggregate::NumAggregate;
 use crate::smart_num::ToSmartNum;
 
 pub(crate) fn neg_eval_rule(mut child: Vec<Expression>) -> Expression {
-    let mut sub = child.pop().unwrap().num_aggregate();
+    negate(child.pop().unwrap().num_aggregate())
+}
+
+/// The negation of an expression that is already simplified.
+pub(crate) fn negate(mut sub: Expression) -> Expression {
     if sub.is_num() {
         Expression::from(-sub.to_smart_num().unwrap())
     } else {
diff --git a/src/compute/num_aggregate/rules/sub.rs b/src/compute/num_aggregate/rules/sub.rs
index 2d8e783..6e80383 100644
--- a/src/compute/num_aggregate/rules/sub.rs
+++ b/src/compute/num_aggregate/rules/sub.rs
@@ -1,3 +1,4 @@
+use super::neg::negate;
 use crate::ast::tree::Expression;
 use crate::compute::num_aggregate::NumAggregate;
 use crate::smart_num::ToSmartNum;
@@ -8,7 +9,7 @@ pub(crate) fn sub_eval_rule(mut child: Vec<Expression>) -> Expression {
     if l.is_num() && r.is_num() {
         Expression::from(l.to_smart_num().unwrap() - r.to_smart_num().unwrap())
     } else if l.is_zero() {
-        -r
+        negate(r)
     } else if r.is_zero() {
         l
     } else {
-- 
2.43.0

