//@ raw vp_analysis
// ===== what a derivation of a limit says of the real functions ===================
/// f (with domain dom) behaves like c when t approaches a
pub open spec fn behaves(f: RF, dom: Dom, a: real, c: LC, env: Env) -> bool {
    match c { LC::Zero => tends(f, dom, a, 0real), LC::Inf => blows(f, dom, a), LC::Bdd => stays(f, dom, a), LC::Val(v) => tends(f, dom, a, val(v, env)) }
}
/// L'Hopital's rule, for the four ways to behave
proof fn lemma_hopital(f: RF, df: Dom, f2: RF, g: RF, dg: Dom, g2: RF, q: RF, dq: Dom, h: RF, dh: Dom, a: real, d: real, c: LC, env: Env)
    requires hop_setting(f, df, f2, g, dg, g2, q, dq, h, dh, a, d), behaves(q, dq, a, c, env),
    ensures behaves(h, dh, a, c, env),
{
    match c {
        LC::Zero => an_hopital_tends(f, df, f2, g, dg, g2, q, dq, h, dh, a, d, 0real),
        LC::Inf => an_hopital_blows(f, df, f2, g, dg, g2, q, dq, h, dh, a, d),
        LC::Bdd => an_hopital_stays(f, df, f2, g, dg, g2, q, dq, h, dh, a, d),
        LC::Val(v) => an_hopital_tends(f, df, f2, g, dg, g2, q, dq, h, dh, a, d, val(v, env)),
    }
}

// ----- the laws, one by one ---------------------------------------------------------
/// a value is not the number zero unless it is written 0
pub open spec fn nz_label(c: LC, env: Env) -> bool { c matches LC::Val(v) ==> zero_lit(v) || val(v, env) != 0real }
/// a limit that is a value has one here
pub open spec fn label(c: LC, env: Env) -> bool { c matches LC::Val(v) ==> dfd(v, env) }
proof fn lemma_behaves_stays(f: RF, dom: Dom, a: real, c: LC, env: Env)
    requires behaves(f, dom, a, c, env), bounded(c),
    ensures stays(f, dom, a),
{ match c { LC::Zero => an_tends_stays(f, dom, a, 0real), LC::Val(v) => an_tends_stays(f, dom, a, val(v, env)), _ => {} } }
proof fn lemma_behaves_apart(f: RF, dom: Dom, a: real, c: LC, env: Env)
    requires behaves(f, dom, a, c, env), nz_label(c, env), c is Inf || nzv(c),
    ensures apart(f, dom, a),
{ match c { LC::Inf => an_blows_apart(f, dom, a), LC::Val(v) => an_tends_apart(f, dom, a, val(v, env)), _ => {} } }
proof fn lemma_sum_sound(p: real, f: RF, df: Dom, q: real, g: RF, dg: Dom, h: RF, dh: Dom, x: real, a: LC, b: LC, c: LC, env: Env)
    requires behaves(f, df, x, a, env), behaves(g, dg, x, b, env), p == 1real, sum_on(p, f, df, q, g, dg, h, dh, x),
        (q == 1real && sum_law(a, b, c)) || (q == -1real && diff_law(a, b, c)),
    ensures behaves(h, dh, x, c, env),
{
    broadcast use meaning;
    if bounded(a) { lemma_behaves_stays(f, df, x, a, env); }
    if bounded(b) { lemma_behaves_stays(g, dg, x, b, env); }
    if bounded(a) && bounded(b) { an_sum_stays(p, f, df, q, g, dg, h, dh, x); }
    if bounded(a) != bounded(b) { an_sum_blows(p, f, df, q, g, dg, h, dh, x); }
    let l = match a { LC::Val(v) => val(v, env), _ => 0real };
    let m = match b { LC::Val(v) => val(v, env), _ => 0real };
    if (a is Zero || a is Val) && (b is Zero || b is Val) { an_sum_tends(p, f, df, l, q, g, dg, m, h, dh, x); }
}
proof fn lemma_neg_sound(f: RF, df: Dom, h: RF, dh: Dom, x: real, a: LC, c: LC, env: Env)
    requires behaves(f, df, x, a, env), forall|t: real| #[trigger] dh(t) ==> df(t) && h(t) == -f(t), neg_law(a, c),
    ensures behaves(h, dh, x, c, env),
{
    broadcast use meaning;
    let z: RF = |t: real| 0real;
    an_tends_const(z, all_reals(), x, 0real);
    an_tends_stays(z, all_reals(), x, 0real);
    if bounded(a) { lemma_behaves_stays(f, df, x, a, env); an_sum_stays(-1real, f, df, 1real, z, all_reals(), h, dh, x); }
    else { an_sum_blows(-1real, f, df, 1real, z, all_reals(), h, dh, x); }
    match a {
        LC::Zero => an_sum_tends(-1real, f, df, 0real, 1real, z, all_reals(), 0real, h, dh, x),
        LC::Val(v) => an_sum_tends(-1real, f, df, val(v, env), 1real, z, all_reals(), 0real, h, dh, x),
        _ => {}
    }
}
proof fn lemma_prod_sound(f: RF, df: Dom, g: RF, dg: Dom, h: RF, dh: Dom, x: real, a: LC, b: LC, c: LC, env: Env)
    requires behaves(f, df, x, a, env), behaves(g, dg, x, b, env), prod_on(f, df, g, dg, h, dh, x), prod_law(a, b, c), nz_label(a, env), nz_label(b, env),
    ensures behaves(h, dh, x, c, env),
{
    broadcast use meaning;
    if bounded(a) { lemma_behaves_stays(f, df, x, a, env); }
    if bounded(b) { lemma_behaves_stays(g, dg, x, b, env); }
    if a is Zero && bounded(b) { an_prod_zero(f, df, g, dg, h, dh, x); an_tends_stays(h, dh, x, 0real); }
    if bounded(a) && b is Zero { an_prod_zero(g, dg, f, df, h, dh, x); an_tends_stays(h, dh, x, 0real); }
    if a is Inf && (b is Inf || nzv(b)) { lemma_behaves_apart(g, dg, x, b, env); an_prod_blows(f, df, g, dg, h, dh, x); }
    if (a is Inf || nzv(a)) && b is Inf { lemma_behaves_apart(f, df, x, a, env); an_prod_blows(g, dg, f, df, h, dh, x); }
    if bounded(a) && bounded(b) { an_prod_stays(f, df, g, dg, h, dh, x); }
    if a is Val && b is Val { an_prod_tends(f, df, val(a->Val_0, env), g, dg, val(b->Val_0, env), h, dh, x); }
}
proof fn lemma_quot_sound(f: RF, df: Dom, g: RF, dg: Dom, h: RF, dh: Dom, x: real, a: LC, b: LC, c: LC, env: Env)
    requires behaves(f, df, x, a, env), behaves(g, dg, x, b, env), quot_is(f, df, g, dg, h, dh), quot_law(a, b, c), nz_label(a, env), nz_label(b, env),
    ensures behaves(h, dh, x, c, env),
{
    broadcast use meaning;
    let r: RF = |t: real| 1real / g(t);
    assert forall|t: real| #[trigger] dh(t) && t != x implies df(t) && dh(t) && h(t) == f(t) * r(t) by { let p = f(t); let q = g(t); assert(p / q == p * (1real / q)) by (nonlinear_arith) requires q != 0real; }
    assert(prod_on(f, df, r, dh, h, dh, x));
    assert(recip_on(g, dg, r, dh, x));
    if bounded(a) { lemma_behaves_stays(f, df, x, a, env); }
    if b is Inf {
        an_recip_zero(g, dg, r, dh, x);
        an_prod_zero(r, dh, f, df, h, dh, x);
    } else if b is Zero {
        an_recip_blows(g, dg, r, dh, x);
        lemma_behaves_apart(f, df, x, a, env);
        an_prod_blows(r, dh, f, df, h, dh, x);
    } else {
        let m = val(b->Val_0, env);
        an_recip_tends(g, dg, m, r, dh, x);
        an_tends_stays(r, dh, x, 1real / m);
        lemma_div_cancel(1real, m);
        assert(1real / m != 0real) by (nonlinear_arith) requires (1real / m) * m == 1real;
        an_tends_apart(r, dh, x, 1real / m);
        if a is Inf { an_prod_blows(f, df, r, dh, h, dh, x); }
        else {
            an_prod_stays(f, df, r, dh, h, dh, x);
            if a is Zero { an_prod_zero(f, df, r, dh, h, dh, x); }
            if a is Val {
                let l = val(a->Val_0, env);
                an_prod_tends(f, df, l, r, dh, 1real / m, h, dh, x);
                assert(l * (1real / m) == l / m) by (nonlinear_arith) requires m != 0real;
            }
        }
    }
}
/// a function with a derivative at l carries a limit l over
proof fn lemma_cont_tends(p: RF, dp: Dom, m: real, f: RF, df: Dom, l: real, h: RF, dh: Dom, a: real)
    requires diff_at(p, dp, l, m), tends(f, df, a, l), forall|t: real| #[trigger] dh(t) && t != a ==> df(t) && h(t) == p(f(t)),
    ensures tends(h, dh, a, p(l)),
{
    an_diff_cont(p, dp, l, m);
    assert(cont_at(p, l)) by {
        assert forall|e: real| #[trigger] pos(e) implies exists|d: real| #[trigger] cont_within(p, l, e, d) by {
            let d1 = tends_at(p, dp, l, p(l), e); let d2 = inside_at(dp, l);
            let d = rmin(d1, d2);
            assert forall|y: real| rabs(y - l) < d implies rabs(#[trigger] p(y) - p(l)) < e by { assert(dp(y)); }
            assert(cont_within(p, l, e, d));
        }
    }
    an_cont(p, f, df, l, h, dh, a);
}
proof fn lemma_circle_bound(t: real)
    ensures rabs(rsin(t)) <= 1real, rabs(rcos(t)) <= 1real,
{
    lemma_circle(t);
    let s = rsin(t); let c = rcos(t);
    assert(s * s >= 0real && c * c >= 0real) by (nonlinear_arith);
    assert(-1real <= s <= 1real) by (nonlinear_arith) requires s * s <= 1real;
    assert(-1real <= c <= 1real) by (nonlinear_arith) requires c * c <= 1real;
}
proof fn lemma_fun_sound(op: OperatorType, g: G, x: Seq<char>, env: Env, p: real, a: LC, c: LC)
    requires behaves(fn_of(g, x, env), dom_of(g, x, env), p, a, env), fun_law(op, a, c), label(c, env),
    ensures behaves(fn_of(un(op, g), x, env), dom_of(un(op, g), x, env), p, c, env),
{
    broadcast use { meaning, real_functions };
    let f = fn_of(g, x, env); let df = dom_of(g, x, env); let h = fn_of(un(op, g), x, env); let dh = dom_of(un(op, g), x, env);
    if c is Bdd {
        assert forall|t: real| #[trigger] dh(t) && an_near(p, 1real, t) implies rabs(h(t)) <= 1real by { lemma_circle_bound(f(t)); }
        assert(an_small(h, dh, p, 1real, 1real));
        reveal(stays);
    } else {
        let l = match a { LC::Val(v) => val(v, env), _ => 0real };
        if c is Val { assert(dfd(c->Val_0, env)); }
        match op {
            OperatorType::Neg => { lemma_neg_sound(f, df, h, dh, p, a, c, env); }
            OperatorType::Sin => { ax_diff_sin(l); lemma_cont_tends(fn_sin(), all_reals(), rcos(l), f, df, l, h, dh, p); }
            OperatorType::Cos => { ax_diff_cos(l); lemma_cont_tends(fn_cos(), all_reals(), -rsin(l), f, df, l, h, dh, p); }
            OperatorType::Exp => { ax_diff_exp(l); lemma_cont_tends(fn_exp(), all_reals(), rexp(l), f, df, l, h, dh, p); }
            OperatorType::Ln => { lemma_diff_ln(l); lemma_cont_tends(fn_ln(), positive_reals(), 1real / l, f, df, l, h, dh, p); }
            _ => {}
        }
    }
}
// ----- derivations ---------------------------------------------------------------------
pub open spec fn nonzero_near(s: G, x: Seq<char>, a: real, env: Env, d: real) -> bool { d > 0real && forall|t: real| an_near(a, d, t) && #[trigger] dfd(s, upd(env, x, t)) ==> val(s, upd(env, x, t)) != 0real }
pub open spec fn smooth_at(l: G, r: G, r2: G, x: Seq<char>, env: Env) -> bool { dfy(l, x, env) && dfy(r, x, env) && val(r2, env) != 0real }
pub open spec fn smooth_near(l: G, r: G, r2: G, x: Seq<char>, a: real, env: Env, d: real) -> bool {
    d > 0real && forall|t: real| an_near(a, d, t) ==> #[trigger] smooth_at(l, r, r2, x, upd(env, x, t))
}
/// the side conditions of the laws used: values used as non-zero are not zero, values exist, L'Hopital's functions are differentiable near the point with a non-zero denominator
pub open spec fn sides(d: Dv, g: G, x: Seq<char>, to: G, c: LC, env: Env) -> bool
    decreases d
{
    match d {
        Dv::Leaf => true,
        Dv::Refine(v, w, e) => sides(*e, g, x, to, LC::Val(v), env) && dfd(v, env),
        Dv::Neg(c1, e) => g matches G::Un(op, a) && sides(*e, *a, x, to, c1, env),
        Dv::Bin(c1, e1, c2, e2) => (g matches G::Bin(op, a, b) && sides(*e1, *a, x, to, c1, env) && sides(*e2, *b, x, to, c2, env)) && nz_label(c1, env) && nz_label(c2, env),
        Dv::Fun(c1, e) => (g matches G::Un(op, a) && sides(*e, *a, x, to, c1, env)) && label(c, env),
        Dv::Rewrite(g0, e, s, cs, es) => sides(*e, g0, x, to, c, env) && sides(*es, s, x, to, cs, env) && nz_label(cs, env)
            && (cs is Bdd ==> exists|d: real| #[trigger] nonzero_near(s, x, val(to, env), env, d)),
        Dv::Hopital(l2, r2, cc, el, er, eq) => g matches G::Bin(op, l, r) && sides(*el, *l, x, to, cc, env) && sides(*er, *r, x, to, cc, env)
            && sides(*eq, bin(OperatorType::Div, l2, r2), x, to, c, env) && exists|d: real| #[trigger] smooth_near(*l, *r, r2, x, val(to, env), env, d),
    }
}
proof fn lemma_near_apart(s: G, x: Seq<char>, env: Env, a: real)
    requires apart(fn_of(s, x, env), dom_of(s, x, env), a),
    ensures exists|d: real| #[trigger] nonzero_near(s, x, a, env, d),
{
    let f = fn_of(s, x, env); let df = dom_of(s, x, env);
    let (m, d) = apart_at(f, df, a);
    assert forall|t: real| an_near(a, d, t) && #[trigger] dfd(s, upd(env, x, t)) implies val(s, upd(env, x, t)) != 0real by { assert(df(t)); assert(f(t) == val(s, upd(env, x, t))); }
    assert(nonzero_near(s, x, a, env, d));
}
/// the same values on the points of dh that lie within d of a
proof fn lemma_behaves_local(f: RF, df: Dom, h: RF, dh: Dom, a: real, d: real, c: LC, env: Env)
    requires behaves(f, df, a, c, env), d > 0real, forall|t: real| an_near(a, d, t) && #[trigger] dh(t) ==> df(t) && h(t) == f(t),
    ensures behaves(h, dh, a, c, env),
{
    match c {
        LC::Inf => {
            assert forall|m: real| #[trigger] pos(m) implies exists|e: real| #[trigger] an_large(h, dh, a, m, e) by { let e = blows_at(f, df, a, m); assert(an_large(h, dh, a, m, rmin(d, e))); }
            reveal(blows);
        }
        LC::Bdd => { let (m, e) = stays_at(f, df, a); assert(an_small(h, dh, a, m, rmin(d, e))); reveal(stays); }
        _ => {
            let l = match c { LC::Val(v) => val(v, env), _ => 0real };
            assert forall|e: real| #[trigger] pos(e) implies exists|k: real| #[trigger] an_close(h, dh, a, l, e, k) by { let k = tends_at(f, df, a, l, e); assert(an_close(h, dh, a, l, e, rmin(d, k))); }
            reveal(tends);
        }
    }
}
proof fn lemma_rewrite_sound(g0: G, g: G, s: G, x: Seq<char>, env: Env, a: real, d: real, c: LC)
    requires behaves(fn_of(g0, x, env), dom_of(g0, x, env), a, c, env), agree(g0, g, s), nonzero_near(s, x, a, env, d),
    ensures behaves(fn_of(g, x, env), dom_of(g, x, env), a, c, env),
{
    let f = fn_of(g0, x, env); let df = dom_of(g0, x, env); let h = fn_of(g, x, env); let dh = dom_of(g, x, env);
    assert forall|t: real| an_near(a, d, t) && #[trigger] dh(t) implies df(t) && h(t) == f(t) by { assert(dfd(g, upd(env, x, t))); assert(dfd(s, upd(env, x, t))); }
    lemma_behaves_local(f, df, h, dh, a, d, c, env);
}
proof fn lemma_leaf_sound(g: G, x: Seq<char>, to: G, c: LC, env: Env)
    requires leaf_law(g, x, to, c),
    ensures behaves(fn_of(g, x, env), dom_of(g, x, env), val(to, env), c, env),
{
    broadcast use meaning;
    let f = fn_of(g, x, env); let df = dom_of(g, x, env); let a = val(to, env);
    match g {
        G::Var(y) => { if y == x { an_tends_id(f, df, a); } else { an_tends_const(f, df, a, env(y)); } }
        _ => { an_tends_const(f, df, a, val(g, env)); }
    }
}
proof fn lemma_bin_sound(op: OperatorType, l: G, r: G, x: Seq<char>, a: real, c1: LC, c2: LC, c: LC, env: Env)
    requires behaves(fn_of(l, x, env), dom_of(l, x, env), a, c1, env), behaves(fn_of(r, x, env), dom_of(r, x, env), a, c2, env), bin_law(op, c1, c2, c), nz_label(c1, env), nz_label(c2, env),
    ensures behaves(fn_of(bin(op, l, r), x, env), dom_of(bin(op, l, r), x, env), a, c, env),
{
    broadcast use meaning;
    let f = fn_of(l, x, env); let df = dom_of(l, x, env); let g = fn_of(r, x, env); let dg = dom_of(r, x, env);
    let h = fn_of(bin(op, l, r), x, env); let dh = dom_of(bin(op, l, r), x, env);
    match op {
        OperatorType::Add => { lemma_sum_sound(1real, f, df, 1real, g, dg, h, dh, a, c1, c2, c, env); }
        OperatorType::Sub => { lemma_sum_sound(1real, f, df, -1real, g, dg, h, dh, a, c1, c2, c, env); }
        OperatorType::Mul => { lemma_prod_sound(f, df, g, dg, h, dh, a, c1, c2, c, env); }
        OperatorType::Div => { lemma_quot_sound(f, df, g, dg, h, dh, a, c1, c2, c, env); }
        _ => {}
    }
}
/// a derivative found near a (not only at the point a) gives L'Hopital's premises
proof fn lemma_hopital_sound(l: G, r: G, l2: G, r2: G, x: Seq<char>, a: real, d: real, cc: LC, c: LC, env: Env)
    requires cc is Zero || cc is Inf, behaves(fn_of(l, x, env), dom_of(l, x, env), a, cc, env), behaves(fn_of(r, x, env), dom_of(r, x, env), a, cc, env),
        deriv_ok(l, x, l2), deriv_ok(r, x, r2), smooth_near(l, r, r2, x, a, env, d),
        behaves(fn_of(bin(OperatorType::Div, l2, r2), x, env), dom_of(bin(OperatorType::Div, l2, r2), x, env), a, c, env),
    ensures behaves(fn_of(bin(OperatorType::Div, l, r), x, env), dom_of(bin(OperatorType::Div, l, r), x, env), a, c, env),
{
    broadcast use meaning;
    let f = fn_of(l, x, env); let df = dom_of(l, x, env); let g = fn_of(r, x, env); let dg = dom_of(r, x, env);
    let f2 = fn_of(l2, x, env); let g2 = fn_of(r2, x, env);
    let q0 = bin(OperatorType::Div, l2, r2); let h0 = bin(OperatorType::Div, l, r);
    let q = fn_of(q0, x, env); let dq = dom_of(q0, x, env); let h = fn_of(h0, x, env); let dh = dom_of(h0, x, env);
    assert forall|t: real| an_near(a, d, t) implies #[trigger] hop_at(f, df, f2, g, dg, g2, t) by {
        let e = upd(env, x, t);
        assert(smooth_at(l, r, r2, x, upd(env, x, t)));
        lemma_derivative_along(l, x, env, t); lemma_derivative_along(r, x, env, t);
        assert(val(l2, e) == dval(l, x, e) && val(r2, e) == dval(r, x, e));
    }
    assert forall|t: real| an_near(a, d, t) implies #[trigger] dq(t) && q(t) == f2(t) / g2(t) by {
        let e = upd(env, x, t);
        assert(smooth_at(l, r, r2, x, upd(env, x, t)));
        assert(dfd(l2, e) && dfd(r2, e));
        assert(dfd(q0, e));
    }
    lemma_hopital(f, df, f2, g, dg, g2, q, dq, h, dh, a, d, c, env);
}
/// theorem_derivative at the point t of the line through env
proof fn lemma_derivative_along(g: G, x: Seq<char>, env: Env, t: real)
    requires dfy(g, x, upd(env, x, t)),
    ensures diff_at(fn_of(g, x, env), dom_of(g, x, env), t, dval(g, x, upd(env, x, t))),
{
    let e = upd(env, x, t);
    theorem_derivative(g, x, e);
    assert forall|s: real| #[trigger] upd(e, x, s) == upd(env, x, s) by { assert(upd(e, x, s) =~= upd(env, x, s)); }
    assert(fn_of(g, x, e) =~= fn_of(g, x, env));
    assert(dom_of(g, x, e) =~= dom_of(g, x, env));
}
/// a derivation whose side conditions hold is right: g, as a function of x, behaves like c (within its domain) when x approaches the value of `to`
pub proof fn theorem_limit(d: Dv, g: G, x: Seq<char>, to: G, c: LC, env: Env)
    requires valid(d, g, x, to, c), sides(d, g, x, to, c, env),
    ensures behaves(fn_of(g, x, env), dom_of(g, x, env), val(to, env), c, env),
    decreases d
{
    let f = fn_of(g, x, env); let df = dom_of(g, x, env); let a = val(to, env);
    match d {
        Dv::Leaf => { lemma_leaf_sound(g, x, to, c, env); }
        Dv::Refine(v, w, e) => { theorem_limit(*e, g, x, to, LC::Val(v), env); assert(val(w, env) == val(v, env)); }
        Dv::Neg(c1, e) => {
            let b = *(g->Un_1);
            theorem_limit(*e, b, x, to, c1, env);
            lemma_neg_sound(fn_of(b, x, env), dom_of(b, x, env), f, df, a, c1, c, env);
        }
        Dv::Bin(c1, e1, c2, e2) => {
            let l = *(g->Bin_1); let r = *(g->Bin_2);
            theorem_limit(*e1, l, x, to, c1, env); theorem_limit(*e2, r, x, to, c2, env);
            lemma_bin_sound(g->Bin_0, l, r, x, a, c1, c2, c, env);
        }
        Dv::Fun(c1, e) => {
            let b = *(g->Un_1);
            theorem_limit(*e, b, x, to, c1, env);
            lemma_fun_sound(g->Un_0, b, x, env, a, c1, c);
        }
        Dv::Rewrite(g0, e, s, cs, es) => {
            theorem_limit(*e, g0, x, to, c, env); theorem_limit(*es, s, x, to, cs, env);
            if !(cs is Bdd) { lemma_behaves_apart(fn_of(s, x, env), dom_of(s, x, env), a, cs, env); lemma_near_apart(s, x, env, a); }
            let d = choose|d: real| #[trigger] nonzero_near(s, x, a, env, d);
            lemma_rewrite_sound(g0, g, s, x, env, a, d, c);
        }
        Dv::Hopital(l2, r2, cc, el, er, eq) => {
            let l = *(g->Bin_1); let r = *(g->Bin_2);
            theorem_limit(*el, l, x, to, cc, env); theorem_limit(*er, r, x, to, cc, env);
            theorem_limit(*eq, bin(OperatorType::Div, l2, r2), x, to, c, env);
            let d = choose|d: real| #[trigger] smooth_near(l, r, r2, x, a, env, d);
            lemma_hopital_sound(l, r, l2, r2, x, a, d, cc, c, env);
        }
    }
}
