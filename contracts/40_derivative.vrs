//@ raw
// ===== derivatives: the rules of calculus as the oracle =====================
/// may the power u^r be differentiated at this point?  With a literal exponent wherever u^(r-1) is meaningful, otherwise for positive bases.
pub open spec fn pow_dfy(r: G, u: real, rv: real) -> bool { u > 0real || (r is Num && is_whole(rv) && (u != 0real || rv >= 1real)) }
/// is g differentiable with respect to x at env (by the rules of calculus)?
pub open spec fn dfy(g: G, x: Seq<char>, env: Env) -> bool
    decreases g
{
    match g {
        G::Num(n) => ndef(n),
        G::Var(y) => true,
        G::Un(op, a) => dfd(g, env) && dfy(*a, x, env),
        G::Bin(op, a, b) => dfd(g, env) && dfy(*a, x, env) && dfy(*b, x, env) && (op == OperatorType::Pow ==> float_ideal() && pow_dfy(*b, val(*a, env), val(*b, env))),
        G::Bad => false,
    }
}
/// the partial derivative of g with respect to x at env
pub open spec fn dval(g: G, x: Seq<char>, env: Env) -> real
    decreases g
{
    match g {
        G::Num(n) => 0real,
        G::Var(y) => if y == x { 1real } else { 0real },
        G::Un(op, a) => dun(op, val(*a, env), dval(*a, x, env)),
        G::Bin(op, a, b) => dbin(op, *b is Num, val(*a, env), val(*b, env), dval(*a, x, env), dval(*b, x, env)),
        G::Bad => 0real,
    }
}
pub open spec fn dun(op: OperatorType, u: real, du: real) -> real {
    match op {
        OperatorType::Neg => -du,
        OperatorType::Sin => rcos(u) * du,
        OperatorType::Cos => (-rsin(u)) * du,
        OperatorType::Exp => du * rexp(u),
        OperatorType::Ln => du / u,
        _ => 0real,
    }
}
pub open spec fn dbin(op: OperatorType, lit: bool, u: real, v: real, du: real, dv: real) -> real {
    match op {
        OperatorType::Add => du + dv,
        OperatorType::Sub => du - dv,
        OperatorType::Mul => du * v + u * dv,
        OperatorType::Div => (du * v - u * dv) / (v * v),
        OperatorType::Pow => if lit { (v * rpow(u, v - 1real)) * du } else { rpow(u, v) * (dv * rln(u) + (v * du) / u) },
        _ => 0real,
    }
}
/// d is the derivative of g wherever g is differentiable
pub open spec fn deriv_ok(g: G, x: Seq<char>, d: G) -> bool {
    forall|env: Env| #[trigger] dfy(g, x, env) ==> dfd(d, env) && val(d, env) == dval(g, x, env)
}
pub open spec fn deriv_of(g: G, x: Seq<char>, r: Result<Expression, DerivativeError<Expression>>) -> bool {
    r matches Ok(o) && deriv_ok(g, x, gview(o))
}
pub open spec fn deriv_wf(g: G, r: Result<Expression, DerivativeError<Expression>>) -> bool {
    r matches Ok(o) ==> wf(o) && vars(gview(o)).subset_of(vars(g))
}
pub broadcast proof fn lemma_dfy_un(op: OperatorType, a: G, x: Seq<char>, env: Env)
    ensures #[trigger] dfy(un(op, a), x, env) == (dfd(un(op, a), env) && dfy(a, x, env)) { }
pub broadcast proof fn lemma_dfy_bin(op: OperatorType, a: G, b: G, x: Seq<char>, env: Env)
    ensures #[trigger] dfy(bin(op, a, b), x, env) == (dfd(bin(op, a, b), env) && dfy(a, x, env) && dfy(b, x, env)
        && (op == OperatorType::Pow ==> float_ideal() && pow_dfy(b, val(a, env), val(b, env)))) { }
pub broadcast proof fn lemma_dval_un(op: OperatorType, a: G, x: Seq<char>, env: Env)
    ensures #[trigger] dval(un(op, a), x, env) == dun(op, val(a, env), dval(a, x, env)) { }
pub broadcast proof fn lemma_dval_bin(op: OperatorType, a: G, b: G, x: Seq<char>, env: Env)
    ensures #[trigger] dval(bin(op, a, b), x, env) == dbin(op, b is Num, val(a, env), val(b, env), dval(a, x, env), dval(b, x, env)) { }
pub broadcast proof fn lemma_mul_nz(x: real, y: real)
    ensures x != 0real && y != 0real ==> #[trigger] bin_val(OperatorType::Mul, x, y) != 0real
{ assert(x != 0real && y != 0real ==> x * y != 0real) by (nonlinear_arith); }
pub broadcast proof fn lemma_whole_pred(r: real, s: real)
    ensures is_whole(r) && s == 1real ==> is_whole(#[trigger] bin_val(OperatorType::Sub, r, s))
{ if is_whole(r) && s == 1real { lemma_whole_is(r); lemma_int_pred(r.floor()); lemma_whole_of(r.floor() - 1, r - s); } }
/// an expression that may replace a derivative is a derivative
pub broadcast proof fn lemma_deriv_refine(g: G, x: Seq<char>, d: G, e: G)
    requires #[trigger] refines(d, e), deriv_ok(g, x, d),
    ensures #[trigger] deriv_ok(g, x, e),
{ assert forall|env: Env| #[trigger] dfy(g, x, env) implies dfd(e, env) && val(e, env) == dval(g, x, env) by { assert(dfd(d, env)); } }
pub broadcast group calculus { lemma_deriv_refine, lemma_dfy_un, lemma_dfy_bin, lemma_dval_un, lemma_dval_bin, lemma_mul_nz, lemma_whole_pred }

//@ in trait Derivative
    spec fn der_req(self, to: T) -> bool;
    spec fn der_ens(self, to: T, r: Self::Output) -> bool;
    spec fn der_wf(self, r: Self::Output) -> bool;
//@ fn trait Derivative::derivative -> r
    requires self.der_req(to),
    ensures self.der_ens(to, r), self.der_wf(r),
//@ in impl <Expression as Derivative<&Variable>>
    open spec fn der_req(self, to: &Variable) -> bool { wf(self) }
    open spec fn der_wf(self, r: Self::Output) -> bool { deriv_wf(gview(self), r) }
    open spec fn der_ens(self, to: &Variable, r: Self::Output) -> bool { deriv_of(gview(self), to.name@, r) }
//@ fn <Expression as Derivative<&Variable>>::derivative -> r
    decreases esize(self), 1nat,
//@ entry
    broadcast use { real_functions, meaning, calculus };
//@ in impl <Expression as Derivative<&Expression>>
    open spec fn der_req(self, to: &Expression) -> bool { wf(self) && wf(*to) }
    open spec fn der_wf(self, r: Self::Output) -> bool { deriv_wf(gview(self), r) }
    open spec fn der_ens(self, to: &Expression, r: Self::Output) -> bool {
        match gview(*to) { G::Var(x) => deriv_of(gview(self), x, r), _ => r is Err }
    }
//@ fn <Expression as Derivative<&Expression>>::derivative -> r
//@ in impl <Expression as Derivative<Expression>>
    open spec fn der_req(self, to: Expression) -> bool { wf(self) && wf(to) }
    open spec fn der_wf(self, r: Self::Output) -> bool { deriv_wf(gview(self), r) }
    open spec fn der_ens(self, to: Expression, r: Self::Output) -> bool {
        match gview(to) { G::Var(x) => deriv_of(gview(self), x, r), _ => r is Err }
    }
//@ fn <Expression as Derivative<Expression>>::derivative -> r
//@ fn neg_derivative_rule (child: Vec<Expression>, to: &Variable) -> r: Result<Expression, DerivativeError<Expression>>
    requires child@.len() == 1, wf(child@[0]),
    ensures deriv_of(un(OperatorType::Neg, gview(child@[0])), to.name@, r), deriv_wf(un(OperatorType::Neg, gview(child@[0])), r),
    decreases 1 + esize(child@[0]), 0nat,
//@ attr
#[verifier::rlimit(60)]
//@ entry
    broadcast use { real_functions, meaning, calculus };
//@ fn sin_derivative_rule (child: Vec<Expression>, to: &Variable) -> r: Result<Expression, DerivativeError<Expression>>
    requires child@.len() == 1, wf(child@[0]),
    ensures deriv_of(un(OperatorType::Sin, gview(child@[0])), to.name@, r), deriv_wf(un(OperatorType::Sin, gview(child@[0])), r),
    decreases 1 + esize(child@[0]), 0nat,
//@ attr
#[verifier::rlimit(60)]
//@ entry
    broadcast use { real_functions, meaning, calculus };
//@ fn cos_derivative_rule (child: Vec<Expression>, to: &Variable) -> r: Result<Expression, DerivativeError<Expression>>
    requires child@.len() == 1, wf(child@[0]),
    ensures deriv_of(un(OperatorType::Cos, gview(child@[0])), to.name@, r), deriv_wf(un(OperatorType::Cos, gview(child@[0])), r),
    decreases 1 + esize(child@[0]), 0nat,
//@ attr
#[verifier::rlimit(60)]
//@ entry
    broadcast use { real_functions, meaning, calculus };
//@ fn exp_derivative_rule (child: Vec<Expression>, to: &Variable) -> r: Result<Expression, DerivativeError<Expression>>
    requires child@.len() == 1, wf(child@[0]),
    ensures deriv_of(un(OperatorType::Exp, gview(child@[0])), to.name@, r), deriv_wf(un(OperatorType::Exp, gview(child@[0])), r),
    decreases 1 + esize(child@[0]), 0nat,
//@ attr
#[verifier::rlimit(60)]
//@ entry
    broadcast use { real_functions, meaning, calculus };
//@ fn ln_derivative_rule (child: Vec<Expression>, to: &Variable) -> r: Result<Expression, DerivativeError<Expression>>
    requires child@.len() == 1, wf(child@[0]),
    ensures deriv_of(un(OperatorType::Ln, gview(child@[0])), to.name@, r), deriv_wf(un(OperatorType::Ln, gview(child@[0])), r),
    decreases 1 + esize(child@[0]), 0nat,
//@ attr
#[verifier::rlimit(60)]
//@ entry
    broadcast use { real_functions, meaning, calculus };
//@ fn add_derivative_rule (child: Vec<Expression>, to: &Variable) -> r: Result<Expression, DerivativeError<Expression>>
    requires child@.len() == 2, wf(child@[0]), wf(child@[1]),
    ensures deriv_of(bin(OperatorType::Add, gview(child@[0]), gview(child@[1])), to.name@, r), deriv_wf(bin(OperatorType::Add, gview(child@[0]), gview(child@[1])), r),
    decreases 1 + esize(child@[0]) + esize(child@[1]), 0nat,
//@ attr
#[verifier::rlimit(60)]
//@ entry
    broadcast use { real_functions, meaning, calculus };
//@ fn sub_derivative_rule (child: Vec<Expression>, to: &Variable) -> r: Result<Expression, DerivativeError<Expression>>
    requires child@.len() == 2, wf(child@[0]), wf(child@[1]),
    ensures deriv_of(bin(OperatorType::Sub, gview(child@[0]), gview(child@[1])), to.name@, r), deriv_wf(bin(OperatorType::Sub, gview(child@[0]), gview(child@[1])), r),
    decreases 1 + esize(child@[0]) + esize(child@[1]), 0nat,
//@ attr
#[verifier::rlimit(60)]
//@ entry
    broadcast use { real_functions, meaning, calculus };
//@ fn mul_derivative_rule (child: Vec<Expression>, to: &Variable) -> r: Result<Expression, DerivativeError<Expression>>
    requires child@.len() == 2, wf(child@[0]), wf(child@[1]),
    ensures deriv_of(bin(OperatorType::Mul, gview(child@[0]), gview(child@[1])), to.name@, r), deriv_wf(bin(OperatorType::Mul, gview(child@[0]), gview(child@[1])), r),
    decreases 1 + esize(child@[0]) + esize(child@[1]), 0nat,
//@ attr
#[verifier::rlimit(60)]
//@ entry
    broadcast use { real_functions, meaning, calculus };
//@ fn div_derivative_rule (child: Vec<Expression>, to: &Variable) -> r: Result<Expression, DerivativeError<Expression>>
    requires child@.len() == 2, wf(child@[0]), wf(child@[1]),
    ensures deriv_of(bin(OperatorType::Div, gview(child@[0]), gview(child@[1])), to.name@, r), deriv_wf(bin(OperatorType::Div, gview(child@[0]), gview(child@[1])), r),
    decreases 1 + esize(child@[0]) + esize(child@[1]), 0nat,
//@ attr
#[verifier::rlimit(60)]
//@ entry
    broadcast use { real_functions, meaning, calculus };
//@ fn pow_derivative_rule (child: Vec<Expression>, to: &Variable) -> r: Result<Expression, DerivativeError<Expression>>
    requires child@.len() == 2, wf(child@[0]), wf(child@[1]),
    ensures deriv_of(bin(OperatorType::Pow, gview(child@[0]), gview(child@[1])), to.name@, r), deriv_wf(bin(OperatorType::Pow, gview(child@[0]), gview(child@[1])), r),
    decreases 1 + esize(child@[0]) + esize(child@[1]), 0nat,
//@ attr
#[verifier::rlimit(60)]
//@ entry
    broadcast use { real_functions, meaning, calculus };
