//@ raw vp_analysis
// ===== the rules of calculus are right ==========================================
pub open spec fn all_reals() -> Dom { |t: real| true }
pub open spec fn positive_reals() -> Dom { |t: real| t > 0real }
pub open spec fn fn_sin() -> RF { |t: real| rsin(t) }
pub open spec fn fn_cos() -> RF { |t: real| rcos(t) }
pub open spec fn fn_exp() -> RF { |t: real| rexp(t) }
pub open spec fn fn_ln() -> RF { |t: real| rln(t) }
/// the mathematics assumed: the derivatives of sin, cos, exp
pub axiom fn ax_diff_sin(l: real) ensures diff_at(fn_sin(), all_reals(), l, rcos(l));
pub axiom fn ax_diff_cos(l: real) ensures diff_at(fn_cos(), all_reals(), l, -rsin(l));
pub axiom fn ax_diff_exp(l: real) ensures diff_at(fn_exp(), all_reals(), l, rexp(l));

/// g as a function of the variable x
pub open spec fn fn_of(g: G, x: Seq<char>, env: Env) -> RF { |t: real| val(g, upd(env, x, t)) }
pub open spec fn dom_of(g: G, x: Seq<char>, env: Env) -> Dom { |t: real| dfd(g, upd(env, x, t)) }
proof fn lemma_env(g: G, x: Seq<char>, env: Env)
    ensures val(g, upd(env, x, env(x))) == val(g, env), dfd(g, upd(env, x, env(x))) == dfd(g, env),
    decreases g
{
    match g {
        G::Un(op, a) => { lemma_env(*a, x, env); }
        G::Bin(op, a, b) => { lemma_env(*a, x, env); lemma_env(*b, x, env); }
        _ => {}
    }
}
// ----- whole powers --------------------------------------------------------------------
proof fn lemma_exp_neg(y: real)
    ensures rexp(-y) == 1real / rexp(y), rexp(y) > 0real,
{
    broadcast use real_functions;
    lemma_exp_add(y, -y);
    assert(rexp(0real) == 1real);
    let p = rexp(y); let q = rexp(-y);
    assert(q == 1real / p) by (nonlinear_arith) requires p * q == 1real, p > 0real;
}
proof fn lemma_exp_nat(u: real, k: nat)
    requires u > 0real,
    ensures rexp((k as int as real) * rln(u)) == npow(u, k),
    decreases k
{
    broadcast use real_functions;
    let y = rln(u);
    if k == 0 {
        assert(0real * y == 0real) by (nonlinear_arith);
    } else {
        lemma_exp_nat(u, (k - 1) as nat);
        let j = (k - 1) as int as real;
        assert(k as int as real == j + 1real);
        assert((j + 1real) * y == j * y + y) by (nonlinear_arith);
        lemma_exp_add(j * y, y);
        let p = rexp(j * y);
        assert(p * u == u * p) by (nonlinear_arith);
    }
}
proof fn lemma_npow_nz(u: real, k: nat)
    requires u != 0real,
    ensures npow(u, k) != 0real,
    decreases k
{
    if k > 0 {
        lemma_npow_nz(u, (k - 1) as nat);
        let p = npow(u, (k - 1) as nat);
        assert(u * p != 0real) by (nonlinear_arith) requires u != 0real, p != 0real;
    }
}
proof fn lemma_npow_zero(k: nat)
    requires k > 0,
    ensures npow(0real, k) == 0real,
{ let p = npow(0real, (k - 1) as nat); assert(0real * p == 0real) by (nonlinear_arith); }
proof fn lemma_rpow_nat(u: real, r: real)
    requires is_whole(r), r >= 0real,
    ensures rpow(u, r) == npow(u, r.floor() as nat), r.floor() >= 0,
{
    lemma_whole_is(r);
    let k = r.floor() as nat;
    if u > 0real { lemma_exp_nat(u, k); }
    else if r != 0real && u == 0real { lemma_npow_zero(k); }
}
proof fn lemma_rpow_neg(u: real, r: real)
    requires is_whole(r), r < 0real, u != 0real,
    ensures rpow(u, r) == 1real / npow(u, (-r.floor()) as nat), r.floor() < 0,
{
    lemma_whole_is(r);
    let k = -r.floor();
    assert(-r == k as real);
    assert((-r).floor() == k);
    if u > 0real {
        lemma_exp_nat(u, k as nat);
        let y = rln(u);
        assert(r * y == -((k as real) * y)) by (nonlinear_arith) requires r == -(k as real);
        lemma_exp_neg((k as real) * y);
    }
}
pub open spec fn fn_npow(f: RF, k: nat) -> RF { |t: real| npow(f(t), k) }
proof fn lemma_diff_npow(f: RF, df: Dom, m: real, k: nat, a: real)
    requires diff_at(f, df, a, m),
    ensures diff_at(fn_npow(f, k), df, a, if k == 0 { 0real } else { ((k as int as real) * npow(f(a), (k - 1) as nat)) * m }),
    decreases k
{
    let h = fn_npow(f, k);
    if k == 0 { an_diff_const(h, df, a); }
    else {
        let j = (k - 1) as nat;
        let g = fn_npow(f, j);
        lemma_diff_npow(f, df, m, j, a);
        let n = if j == 0 { 0real } else { ((j as int as real) * npow(f(a), (j - 1) as nat)) * m };
        assert forall|t: real| #[trigger] df(t) implies h(t) == f(t) * g(t) by { }
        an_diff_prod(f, df, m, g, df, n, h, df, a);
        let u = f(a); let q = npow(u, j); let kk = k as int as real; let jj = j as int as real;
        assert(kk == jj + 1real);
        if j == 0 {
            assert(q == 1real && kk == 1real); assert(u * 0real == 0real) by (nonlinear_arith); assert(m * 1real == m && 1real * 1real == 1real && 1real * m == m) by (nonlinear_arith);
        } else {
            let p = npow(u, (j - 1) as nat);
            assert(q == u * p);
            assert(m * (u * p) + u * ((jj * p) * m) == ((jj + 1real) * (u * p)) * m) by (nonlinear_arith);
        }
    }
}
// ----- one step of each rule --------------------------------------------------------------
proof fn lemma_diff_neg(f: RF, df: Dom, m: real, h: RF, dh: Dom, a: real)
    requires diff_at(f, df, a, m), inside(dh, a), forall|t: real| #[trigger] dh(t) ==> df(t) && h(t) == -f(t),
    ensures diff_at(h, dh, a, -m),
{
    let z: RF = |t: real| 0real;
    an_inside_all(all_reals(), a);
    an_diff_const(z, all_reals(), a);
    an_diff_sum(-1real, f, df, m, 1real, z, all_reals(), 0real, h, dh, a);
}
proof fn lemma_diff_quot(f: RF, df: Dom, m: real, g: RF, dg: Dom, n: real, h: RF, dh: Dom, a: real)
    requires diff_at(f, df, a, m), diff_at(g, dg, a, n), inside(dh, a), forall|t: real| #[trigger] dh(t) ==> df(t) && dg(t) && g(t) != 0real && h(t) == f(t) / g(t),
    ensures diff_at(h, dh, a, (m * g(a) - f(a) * n) / (g(a) * g(a))),
{
    let r: RF = |t: real| 1real / g(t);
    let i = inside_at(dh, a); assert(dh(a));
    an_diff_recip(g, dg, n, r, dh, a);
    let y = g(a); let u = f(a);
    assert forall|t: real| #[trigger] dh(t) implies h(t) == f(t) * r(t) by { let p = f(t); let q = g(t); assert(p / q == p * (1real / q)) by (nonlinear_arith) requires q != 0real; }
    an_diff_prod(f, df, m, r, dh, (-n) / (y * y), h, dh, a);
    assert(y * y != 0real) by (nonlinear_arith) requires y != 0real;
    let s = (-n) / (y * y); let k = 1real / y; let w = (m * y - u * n) / (y * y);
    lemma_div_cancel(-n, y * y); lemma_div_cancel(1real, y); lemma_div_cancel(m * y - u * n, y * y);
    let v = m * k + u * s;
    assert(v * (y * y) == m * y - u * n) by (nonlinear_arith) requires v == m * k + u * s, s * (y * y) == -n, k * y == 1real;
    assert(v == w) by (nonlinear_arith) requires v * (y * y) == m * y - u * n, w * (y * y) == m * y - u * n, y * y != 0real;
}
proof fn lemma_near_sign(f: RF, df: Dom, m: real, a: real, dom: Dom)
    requires diff_at(f, df, a, m), f(a) != 0real, forall|t: real| df(t) && ((f(a) > 0real && f(t) > 0real) || (f(a) < 0real && f(t) < 0real)) ==> #[trigger] dom(t),
    ensures inside(dom, a),
{
    an_diff_cont(f, df, a, m);
    an_inside_close(f, df, a, rabs(f(a)), dom);
}
proof fn lemma_diff_pow_pos(f: RF, df: Dom, m: real, g: RF, dg: Dom, n: real, h: RF, dh: Dom, a: real)
    requires diff_at(f, df, a, m), diff_at(g, dg, a, n), f(a) > 0real,
        forall|t: real| df(t) && dg(t) && f(t) > 0real ==> #[trigger] dh(t), forall|t: real| #[trigger] dh(t) ==> df(t) && dg(t) && h(t) == rpow(f(t), g(t)),
    ensures diff_at(h, dh, a, rpow(f(a), g(a)) * (n * rln(f(a)) + (g(a) * m) / f(a))),
{
    let pos1: Dom = |t: real| df(t) && f(t) > 0real;
    lemma_near_sign(f, df, m, a, pos1);
    let pos2: Dom = |t: real| pos1(t) && dg(t);
    an_inside_and(pos1, dg, pos2, a);
    an_inside_and(pos1, dg, dh, a);
    let lf: RF = |t: real| rln(f(t));
    lemma_diff_ln(f(a));
    an_diff_chain(fn_ln(), positive_reals(), 1real / f(a), f, df, m, lf, pos2, a);
    let w: RF = |t: real| g(t) * lf(t);
    let u = f(a); let v = g(a);
    let lm = (1real / u) * m;
    an_diff_prod(g, dg, n, lf, pos2, lm, w, pos2, a);
    let e: RF = |t: real| rexp(w(t));
    ax_diff_exp(w(a));
    let wm = n * rln(u) + v * lm;
    an_diff_chain(fn_exp(), all_reals(), rexp(w(a)), w, pos2, wm, e, pos2, a);
    assert forall|t: real| #[trigger] pos2(t) && dh(t) implies h(t) == e(t) by { }
    an_diff_local(e, pos2, h, dh, pos2, a, rexp(w(a)) * wm);
    assert(v * ((1real / u) * m) == (v * m) / u) by (nonlinear_arith) requires u != 0real;
}
proof fn lemma_lit_pow(u: real, v: real, m: real)
    requires u > 0real,
    ensures rpow(u, v) * (0real * rln(u) + (v * m) / u) == (v * rpow(u, v - 1real)) * m,
{
    broadcast use real_functions;
    let y = rln(u);
    assert((v - 1real) * y == v * y + (-y)) by (nonlinear_arith);
    lemma_exp_add(v * y, -y);
    lemma_exp_neg(y);
    let p = rexp(v * y); let q = 1real / u;
    assert(rpow(u, v - 1real) == p * q);
    assert(p * (0real * y + (v * m) / u) == (v * (p * q)) * m) by (nonlinear_arith) requires q == 1real / u, u != 0real;
}
proof fn lemma_diff_pow_whole(f: RF, df: Dom, m: real, r: real, h: RF, dh: Dom, a: real)
    requires diff_at(f, df, a, m), is_whole(r), f(a) < 0real || (f(a) == 0real && r >= 1real),
        forall|t: real| df(t) && (f(t) != 0real || r >= 0real) ==> #[trigger] dh(t), forall|t: real| #[trigger] dh(t) ==> df(t) && h(t) == rpow(f(t), r),
    ensures diff_at(h, dh, a, (r * rpow(f(a), r - 1real)) * m),
{
    let u = f(a);
    lemma_whole_is(r);
    let k = r.floor();
    lemma_whole_of(k - 1, r - 1real);
    if r >= 0real {
        an_inside_and(df, df, dh, a);
        let e = fn_npow(f, k as nat);
        lemma_diff_npow(f, df, m, k as nat, a);
        assert forall|t: real| #[trigger] df(t) && dh(t) implies h(t) == e(t) by { lemma_rpow_nat(f(t), r); }
        let d = if k == 0 { 0real } else { ((k as real) * npow(u, (k - 1) as nat)) * m };
        an_diff_local(e, df, h, dh, df, a, d);
        if k == 0 {
            let p = rpow(u, r - 1real);
            assert((0real * p) * m == 0real) by (nonlinear_arith);
        } else { lemma_rpow_nat(u, r - 1real); assert((r - 1real).floor() == k - 1); }
    } else {
        let kk = (-k) as nat;
        let neg: Dom = |t: real| df(t) && f(t) < 0real;
        lemma_near_sign(f, df, m, a, neg);
        an_inside_and(neg, neg, dh, a);
        let e = fn_npow(f, kk);
        lemma_diff_npow(f, df, m, kk, a);
        let n = ((kk as int as real) * npow(u, (kk - 1) as nat)) * m;
        let z: RF = |t: real| 1real / e(t);
        assert forall|t: real| #[trigger] neg(t) implies e(t) != 0real by { lemma_npow_nz(f(t), kk); }
        an_diff_recip(e, df, n, z, neg, a);
        assert forall|t: real| #[trigger] neg(t) && dh(t) implies h(t) == z(t) by { lemma_rpow_neg(f(t), r); }
        let big = npow(u, kk);
        an_diff_local(z, neg, h, dh, neg, a, (-n) / (big * big));
        lemma_rpow_neg(u, r - 1real);
        assert((r - 1real).floor() == k - 1);
        let p = npow(u, (kk - 1) as nat); let c = kk as int as real;
        assert(npow(u, (kk + 1) as nat) == u * big && big == u * p);
        lemma_npow_nz(u, kk); lemma_npow_nz(u, (kk - 1) as nat); lemma_npow_nz(u, (kk + 1) as nat);
        let t1 = npow(u, (kk + 1) as nat);
        assert(big * big != 0real) by (nonlinear_arith) requires big != 0real;
        let s = (-n) / (big * big); let q = 1real / t1;
        lemma_div_cancel(-n, big * big); lemma_div_cancel(1real, t1);
        assert(big * big == p * t1) by (nonlinear_arith) requires t1 == u * big, big == u * p;
        let x = (r * q) * m;
        assert(x * (p * t1) == -n) by (nonlinear_arith) requires x == (r * q) * m, q * t1 == 1real, n == (c * p) * m, r == -c;
        assert(s == x) by (nonlinear_arith) requires s * (big * big) == -n, x * (p * t1) == -n, big * big == p * t1, big * big != 0real;
    }
}
/// dval is the derivative: the difference quotients tend to it, in a neighbourhood where g is defined
pub proof fn theorem_derivative(g: G, x: Seq<char>, env: Env)
    requires dfy(g, x, env),
    ensures diff_at(fn_of(g, x, env), dom_of(g, x, env), env(x), dval(g, x, env)),
    decreases g
{
    let h = fn_of(g, x, env); let dh = dom_of(g, x, env); let p = env(x);
    lemma_env(g, x, env);
    match g {
        G::Num(n) => { an_inside_all(dh, p); an_diff_const(h, dh, p); }
        G::Var(y) => { an_inside_all(dh, p); if y == x { an_diff_id(h, dh, p); } else { an_diff_const(h, dh, p); } }
        G::Un(op, a) => {
            let f = fn_of(*a, x, env); let df = dom_of(*a, x, env); let m = dval(*a, x, env);
            theorem_derivative(*a, x, env);
            lemma_env(*a, x, env);
            lemma_diff_un(op, *a, x, env);
        }
        G::Bin(op, a, b) => {
            theorem_derivative(*a, x, env); theorem_derivative(*b, x, env);
            lemma_env(*a, x, env); lemma_env(*b, x, env);
            lemma_diff_bin(op, *a, *b, x, env);
        }
        G::Bad => {}
    }
}
proof fn lemma_diff_un(op: OperatorType, a: G, x: Seq<char>, env: Env)
    requires dfy(un(op, a), x, env), diff_at(fn_of(a, x, env), dom_of(a, x, env), env(x), dval(a, x, env)),
        val(a, upd(env, x, env(x))) == val(a, env),
    ensures diff_at(fn_of(un(op, a), x, env), dom_of(un(op, a), x, env), env(x), dval(un(op, a), x, env)),
{
    broadcast use meaning;
    let g = un(op, a);
    let h = fn_of(g, x, env); let dh = dom_of(g, x, env); let p = env(x);
    let f = fn_of(a, x, env); let df = dom_of(a, x, env); let m = dval(a, x, env);
    let u = f(p);
    if op == OperatorType::Ln { lemma_near_sign(f, df, m, p, dh); } else { an_inside_and(df, df, dh, p); }
    match op {
        OperatorType::Neg => { lemma_diff_neg(f, df, m, h, dh, p); }
        OperatorType::Sin => { ax_diff_sin(u); an_diff_chain(fn_sin(), all_reals(), rcos(u), f, df, m, h, dh, p); }
        OperatorType::Cos => { ax_diff_cos(u); an_diff_chain(fn_cos(), all_reals(), -rsin(u), f, df, m, h, dh, p); }
        OperatorType::Exp => { ax_diff_exp(u); an_diff_chain(fn_exp(), all_reals(), rexp(u), f, df, m, h, dh, p); let e = rexp(u); assert(e * m == m * e) by (nonlinear_arith); }
        OperatorType::Ln => { lemma_diff_ln(u); an_diff_chain(fn_ln(), positive_reals(), 1real / u, f, df, m, h, dh, p); assert((1real / u) * m == m / u) by (nonlinear_arith) requires u != 0real; }
        _ => { an_diff_const(h, dh, p); }
    }
}
proof fn lemma_diff_bin(op: OperatorType, a: G, b: G, x: Seq<char>, env: Env)
    requires dfy(bin(op, a, b), x, env),
        diff_at(fn_of(a, x, env), dom_of(a, x, env), env(x), dval(a, x, env)), diff_at(fn_of(b, x, env), dom_of(b, x, env), env(x), dval(b, x, env)),
        val(a, upd(env, x, env(x))) == val(a, env), val(b, upd(env, x, env(x))) == val(b, env),
    ensures diff_at(fn_of(bin(op, a, b), x, env), dom_of(bin(op, a, b), x, env), env(x), dval(bin(op, a, b), x, env)),
{
    broadcast use meaning;
    let c = bin(op, a, b);
    let h = fn_of(c, x, env); let dh = dom_of(c, x, env); let p = env(x);
    let f = fn_of(a, x, env); let df = dom_of(a, x, env); let m = dval(a, x, env);
    let g = fn_of(b, x, env); let dg = dom_of(b, x, env); let n = dval(b, x, env);
    match op {
        OperatorType::Add => { an_inside_and(df, dg, dh, p); an_diff_sum(1real, f, df, m, 1real, g, dg, n, h, dh, p); }
        OperatorType::Sub => { an_inside_and(df, dg, dh, p); an_diff_sum(1real, f, df, m, -1real, g, dg, n, h, dh, p); }
        OperatorType::Mul => { an_inside_and(df, dg, dh, p); an_diff_prod(f, df, m, g, dg, n, h, dh, p); }
        OperatorType::Div => {
            let nz: Dom = |t: real| dg(t) && g(t) != 0real;
            lemma_near_sign(g, dg, n, p, nz);
            an_inside_and(df, nz, dh, p);
            lemma_diff_quot(f, df, m, g, dg, n, h, dh, p);
        }
        OperatorType::Pow => {
            if val(a, env) > 0real {
                lemma_diff_pow_pos(f, df, m, g, dg, n, h, dh, p);
                if b is Num { lemma_lit_pow(val(a, env), val(b, env), m); }
            } else {
                lemma_diff_pow_whole(f, df, m, val(b, env), h, dh, p);
            }
        }
        _ => { an_inside_and(df, dg, dh, p); an_diff_const(h, dh, p); }
    }
}
/// what the contract of differentiation says of the real functions
pub proof fn theorem_derivative_expression(g: G, x: Seq<char>, d: G, env: Env)
    requires deriv_ok(g, x, d), dfy(g, x, env),
    ensures dfd(d, env), diff_at(fn_of(g, x, env), dom_of(g, x, env), env(x), val(d, env)),
{ theorem_derivative(g, x, env); }
