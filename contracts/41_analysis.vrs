//@ raw vp_analysis
// ===== real analysis: behaviour of a function near a point ======================
pub open spec fn pos(x: real) -> bool { x > 0real }
pub type RF = spec_fn(real) -> real;
pub type Dom = spec_fn(real) -> bool;
pub open spec fn an_near(a: real, d: real, t: real) -> bool { t != a && rabs(t - a) < d }
pub open spec fn an_close(f: RF, dom: Dom, a: real, l: real, e: real, d: real) -> bool { d > 0real && forall|t: real| #[trigger] dom(t) && an_near(a, d, t) ==> rabs(f(t) - l) < e }
pub open spec fn an_large(f: RF, dom: Dom, a: real, m: real, d: real) -> bool { d > 0real && forall|t: real| #[trigger] dom(t) && an_near(a, d, t) ==> rabs(f(t)) > m }
pub open spec fn an_small(f: RF, dom: Dom, a: real, m: real, d: real) -> bool { d > 0real && forall|t: real| #[trigger] dom(t) && an_near(a, d, t) ==> rabs(f(t)) <= m }
/// f tends to l, is unbounded, stays bounded, stays away from zero, when t approaches a within dom
#[verifier::opaque]
pub open spec fn tends(f: RF, dom: Dom, a: real, l: real) -> bool { forall|e: real| #[trigger] pos(e) ==> exists|d: real| #[trigger] an_close(f, dom, a, l, e, d) }
#[verifier::opaque]
pub open spec fn blows(f: RF, dom: Dom, a: real) -> bool { forall|m: real| #[trigger] pos(m) ==> exists|d: real| #[trigger] an_large(f, dom, a, m, d) }
#[verifier::opaque]
pub open spec fn stays(f: RF, dom: Dom, a: real) -> bool { exists|m: real, d: real| m > 0real && #[trigger] an_small(f, dom, a, m, d) }
#[verifier::opaque]
pub open spec fn apart(f: RF, dom: Dom, a: real) -> bool { exists|m: real, d: real| m > 0real && #[trigger] an_large(f, dom, a, m, d) }

proof fn tends_at(f: RF, dom: Dom, a: real, l: real, e: real) -> (d: real)
    requires tends(f, dom, a, l), e > 0real,
    ensures an_close(f, dom, a, l, e, d),
{ reveal(tends); assert(pos(e)); choose|d: real| #[trigger] an_close(f, dom, a, l, e, d) }
proof fn blows_at(f: RF, dom: Dom, a: real, m: real) -> (d: real)
    requires blows(f, dom, a), m > 0real,
    ensures an_large(f, dom, a, m, d),
{ reveal(blows); assert(pos(m)); choose|d: real| #[trigger] an_large(f, dom, a, m, d) }
proof fn stays_at(f: RF, dom: Dom, a: real) -> (r: (real, real))
    requires stays(f, dom, a),
    ensures r.0 > 0real, an_small(f, dom, a, r.0, r.1),
{ reveal(stays); choose|m: real, d: real| m > 0real && #[trigger] an_small(f, dom, a, m, d) }
proof fn apart_at(f: RF, dom: Dom, a: real) -> (r: (real, real))
    requires apart(f, dom, a),
    ensures r.0 > 0real, an_large(f, dom, a, r.0, r.1),
{ reveal(apart); choose|m: real, d: real| m > 0real && #[trigger] an_large(f, dom, a, m, d) }
pub open spec fn rmin(x: real, y: real) -> real { if x < y { x } else { y } }

// ----- from one behaviour to another; fewer points; another name for the same values -----
pub open spec fn same_on(f: RF, dom: Dom, h: RF, dom2: Dom, a: real) -> bool { forall|t: real| #[trigger] dom2(t) && t != a ==> dom(t) && h(t) == f(t) }
proof fn an_tends_same(f: RF, dom: Dom, h: RF, dom2: Dom, a: real, l: real)
    requires tends(f, dom, a, l), same_on(f, dom, h, dom2, a),
    ensures tends(h, dom2, a, l),
{
    assert forall|e: real| #[trigger] pos(e) implies exists|d: real| #[trigger] an_close(h, dom2, a, l, e, d) by { let d = tends_at(f, dom, a, l, e); assert(an_close(h, dom2, a, l, e, d)); }
    reveal(tends);
}
proof fn an_tends_const(f: RF, dom: Dom, a: real, l: real)
    requires forall|t: real| #[trigger] dom(t) && t != a ==> f(t) == l,
    ensures tends(f, dom, a, l),
{
    assert forall|e: real| #[trigger] pos(e) implies exists|d: real| #[trigger] an_close(f, dom, a, l, e, d) by { assert(an_close(f, dom, a, l, e, 1real)); }
    reveal(tends);
}
proof fn an_tends_id(f: RF, dom: Dom, a: real)
    requires forall|t: real| #[trigger] dom(t) && t != a ==> f(t) == t,
    ensures tends(f, dom, a, a),
{
    assert forall|e: real| #[trigger] pos(e) implies exists|d: real| #[trigger] an_close(f, dom, a, a, e, d) by { assert(an_close(f, dom, a, a, e, e)); }
    reveal(tends);
}
proof fn an_tends_stays(f: RF, dom: Dom, a: real, l: real)
    requires tends(f, dom, a, l),
    ensures stays(f, dom, a),
{
    let d = tends_at(f, dom, a, l, 1real);
    assert(an_small(f, dom, a, rabs(l) + 1real, d));
    reveal(stays);
}
proof fn an_tends_apart(f: RF, dom: Dom, a: real, l: real)
    requires tends(f, dom, a, l), l != 0real,
    ensures apart(f, dom, a),
{
    let e = rabs(l) / 2real;
    let d = tends_at(f, dom, a, l, e);
    assert(an_large(f, dom, a, e, d));
    reveal(apart);
}
proof fn an_blows_apart(f: RF, dom: Dom, a: real)
    requires blows(f, dom, a),
    ensures apart(f, dom, a),
{
    let d = blows_at(f, dom, a, 1real);
    reveal(apart);
}
// ----- sums: h = p f + q g with p, q = 1 or -1 -------------------------------------
pub open spec fn an_unit(p: real) -> bool { p == 1real || p == -1real }
pub open spec fn sum_on(p: real, f: RF, df: Dom, q: real, g: RF, dg: Dom, h: RF, dh: Dom, a: real) -> bool {
    an_unit(p) && an_unit(q) && forall|t: real| #[trigger] dh(t) && t != a ==> df(t) && dg(t) && h(t) == (if p == 1real { f(t) } else { -f(t) }) + (if q == 1real { g(t) } else { -g(t) })
}
pub open spec fn psgn(p: real, x: real) -> real { if p == 1real { x } else { -x } }
proof fn an_sum_tends(p: real, f: RF, df: Dom, l: real, q: real, g: RF, dg: Dom, m: real, h: RF, dh: Dom, a: real)
    requires sum_on(p, f, df, q, g, dg, h, dh, a), tends(f, df, a, l), tends(g, dg, a, m),
    ensures tends(h, dh, a, psgn(p, l) + psgn(q, m)),
{
    let s = psgn(p, l) + psgn(q, m);
    assert forall|e: real| #[trigger] pos(e) implies exists|d: real| #[trigger] an_close(h, dh, a, s, e, d) by {
        let d1 = tends_at(f, df, a, l, e / 2real); let d2 = tends_at(g, dg, a, m, e / 2real);
        assert(an_close(h, dh, a, s, e, rmin(d1, d2)));
    }
    reveal(tends);
}
proof fn an_sum_blows(p: real, f: RF, df: Dom, q: real, g: RF, dg: Dom, h: RF, dh: Dom, a: real)
    requires sum_on(p, f, df, q, g, dg, h, dh, a), (blows(f, df, a) && stays(g, dg, a)) || (stays(f, df, a) && blows(g, dg, a)),
    ensures blows(h, dh, a),
{
    assert forall|m: real| #[trigger] pos(m) implies exists|d: real| #[trigger] an_large(h, dh, a, m, d) by {
        if blows(f, df, a) && stays(g, dg, a) {
            let (k, d1) = stays_at(g, dg, a); let d2 = blows_at(f, df, a, m + k);
            assert(an_large(h, dh, a, m, rmin(d1, d2)));
        } else {
            let (k, d1) = stays_at(f, df, a); let d2 = blows_at(g, dg, a, m + k);
            assert(an_large(h, dh, a, m, rmin(d1, d2)));
        }
    }
    reveal(blows);
}
proof fn an_sum_stays(p: real, f: RF, df: Dom, q: real, g: RF, dg: Dom, h: RF, dh: Dom, a: real)
    requires sum_on(p, f, df, q, g, dg, h, dh, a), stays(f, df, a), stays(g, dg, a),
    ensures stays(h, dh, a),
{
    let (k1, d1) = stays_at(f, df, a); let (k2, d2) = stays_at(g, dg, a);
    assert(an_small(h, dh, a, k1 + k2, rmin(d1, d2)));
    reveal(stays);
}
// ----- products ------------------------------------------------------------------
pub open spec fn prod_on(f: RF, df: Dom, g: RF, dg: Dom, h: RF, dh: Dom, a: real) -> bool { forall|t: real| #[trigger] dh(t) && t != a ==> df(t) && dg(t) && h(t) == f(t) * g(t) }
proof fn lemma_abs_mul(x: real, y: real)
    ensures rabs(x * y) == rabs(x) * rabs(y),
{
    assert(x < 0real && y < 0real ==> (-x) * (-y) == x * y && x * y >= 0real) by (nonlinear_arith);
    assert(x >= 0real && y >= 0real ==> x * y >= 0real) by (nonlinear_arith);
    assert(x < 0real && y >= 0real ==> (-x) * y == -(x * y) && x * y <= 0real) by (nonlinear_arith);
    assert(x >= 0real && y < 0real ==> x * (-y) == -(x * y) && x * y <= 0real) by (nonlinear_arith);
}
proof fn an_prod_zero(f: RF, df: Dom, g: RF, dg: Dom, h: RF, dh: Dom, a: real)
    requires prod_on(f, df, g, dg, h, dh, a) || prod_on(g, dg, f, df, h, dh, a), tends(f, df, a, 0real), stays(g, dg, a),
    ensures tends(h, dh, a, 0real),
{
    assert forall|e: real| #[trigger] pos(e) implies exists|d: real| #[trigger] an_close(h, dh, a, 0real, e, d) by {
        let (k, d1) = stays_at(g, dg, a);
        let e2 = e / k;
        assert(e2 > 0real && e2 * k == e) by (nonlinear_arith) requires e > 0real, k > 0real, e2 == e / k;
        let d2 = tends_at(f, df, a, 0real, e2);
        let d = rmin(d1, d2);
        assert forall|t: real| #[trigger] dh(t) && an_near(a, d, t) implies rabs(h(t) - 0real) < e by {
            let x = rabs(f(t)); let y = rabs(g(t));
            lemma_abs_mul(f(t), g(t)); lemma_abs_mul(g(t), f(t));
            assert(f(t) * g(t) == g(t) * f(t)) by (nonlinear_arith);
            assert(df(t) && dg(t));
            assert(x < e2 && y <= k && x >= 0real && y >= 0real);
            assert(x * y < e) by (nonlinear_arith) requires 0real <= x < e2, 0real <= y <= k, k > 0real, e2 * k == e;
        }
        assert(an_close(h, dh, a, 0real, e, d));
    }
    reveal(tends);
}
proof fn an_prod_stays(f: RF, df: Dom, g: RF, dg: Dom, h: RF, dh: Dom, a: real)
    requires prod_on(f, df, g, dg, h, dh, a), stays(f, df, a), stays(g, dg, a),
    ensures stays(h, dh, a),
{
    let (k1, d1) = stays_at(f, df, a); let (k2, d2) = stays_at(g, dg, a);
    assert(k1 * k2 > 0real) by (nonlinear_arith) requires k1 > 0real, k2 > 0real;
    let d = rmin(d1, d2);
    assert forall|t: real| #[trigger] dh(t) && an_near(a, d, t) implies rabs(h(t)) <= k1 * k2 by {
        let x = rabs(f(t)); let y = rabs(g(t));
        lemma_abs_mul(f(t), g(t));
        assert(df(t) && dg(t));
        assert(x * y <= k1 * k2) by (nonlinear_arith) requires 0real <= x <= k1, 0real <= y <= k2;
    }
    assert(an_small(h, dh, a, k1 * k2, d));
    reveal(stays);
}
proof fn an_prod_blows(f: RF, df: Dom, g: RF, dg: Dom, h: RF, dh: Dom, a: real)
    requires prod_on(f, df, g, dg, h, dh, a) || prod_on(g, dg, f, df, h, dh, a), blows(f, df, a), apart(g, dg, a),
    ensures blows(h, dh, a),
{
    assert forall|m: real| #[trigger] pos(m) implies exists|d: real| #[trigger] an_large(h, dh, a, m, d) by {
        let (k, d1) = apart_at(g, dg, a);
        let m2 = m / k;
        assert(m2 > 0real && m2 * k == m) by (nonlinear_arith) requires m > 0real, k > 0real, m2 == m / k;
        let d2 = blows_at(f, df, a, m2);
        let d = rmin(d1, d2);
        assert forall|t: real| #[trigger] dh(t) && an_near(a, d, t) implies rabs(h(t)) > m by {
            let x = rabs(f(t)); let y = rabs(g(t));
            lemma_abs_mul(f(t), g(t)); lemma_abs_mul(g(t), f(t));
            assert(f(t) * g(t) == g(t) * f(t)) by (nonlinear_arith);
            assert(df(t) && dg(t));
            assert(x * y > m) by (nonlinear_arith) requires x > m2, y > k, k > 0real, m2 > 0real, m2 * k == m;
        }
        assert(an_large(h, dh, a, m, d));
    }
    reveal(blows);
}
proof fn an_prod_tends(f: RF, df: Dom, l: real, g: RF, dg: Dom, m: real, h: RF, dh: Dom, a: real)
    requires prod_on(f, df, g, dg, h, dh, a), tends(f, df, a, l), tends(g, dg, a, m),
    ensures tends(h, dh, a, l * m),
{
    // h - lm = f (g - m) + m (f - l)
    an_tends_stays(f, df, a, l);
    let none: Dom = dg;
    let g0: RF = |t: real| g(t) - m;
    let c1: RF = |t: real| -m;
    let dall: Dom = |t: real| true;
    an_tends_const(c1, dall, a, -m);
    an_sum_tends(1real, g, dg, m, 1real, c1, dall, -m, g0, dg, a);
    let c2: RF = |t: real| -l;
    let f0: RF = |t: real| f(t) - l;
    an_tends_const(c2, dall, a, -l);
    an_sum_tends(1real, f, df, l, 1real, c2, dall, -l, f0, df, a);
    let u: RF = |t: real| f(t) * g0(t);
    an_prod_zero(g0, dg, f, df, u, dh, a);
    let c3: RF = |t: real| m;
    an_tends_const(c3, dall, a, m);
    an_tends_stays(c3, dall, a, m);
    let v: RF = |t: real| f0(t) * m;
    an_prod_zero(f0, df, c3, dall, v, dh, a);
    let w: RF = |t: real| u(t) + v(t);
    an_sum_tends(1real, u, dh, 0real, 1real, v, dh, 0real, w, dh, a);
    let c4: RF = |t: real| l * m;
    an_tends_const(c4, dall, a, l * m);
    assert forall|t: real| #[trigger] dh(t) && t != a implies h(t) == w(t) + c4(t) by {
        let x = f(t); let y = g(t);
        assert(x * y == x * (y - m) + (x - l) * m + l * m) by (nonlinear_arith);
    }
    an_sum_tends(1real, w, dh, 0real, 1real, c4, dall, l * m, h, dh, a);
}
// ----- reciprocals ----------------------------------------------------------------
pub open spec fn recip_on(g: RF, dg: Dom, h: RF, dh: Dom, a: real) -> bool { forall|t: real| #[trigger] dh(t) && t != a ==> dg(t) && g(t) != 0real && h(t) == 1real / g(t) }
proof fn lemma_abs_recip(x: real)
    requires x != 0real,
    ensures rabs(1real / x) == 1real / rabs(x), rabs(x) > 0real,
{
    assert(x > 0real ==> 1real / x > 0real) by (nonlinear_arith);
    assert(x < 0real ==> 1real / x < 0real && 1real / (-x) == -(1real / x)) by (nonlinear_arith);
}
proof fn an_recip_zero(g: RF, dg: Dom, h: RF, dh: Dom, a: real)
    requires recip_on(g, dg, h, dh, a), blows(g, dg, a),
    ensures tends(h, dh, a, 0real),
{
    assert forall|e: real| #[trigger] pos(e) implies exists|d: real| #[trigger] an_close(h, dh, a, 0real, e, d) by {
        let m = 1real / e;
        assert(m > 0real && m * e == 1real) by (nonlinear_arith) requires e > 0real, m == 1real / e;
        let d = blows_at(g, dg, a, m);
        assert forall|t: real| #[trigger] dh(t) && an_near(a, d, t) implies rabs(h(t) - 0real) < e by {
            assert(dg(t)); lemma_abs_recip(g(t));
            let y = rabs(g(t));
            assert(1real / y < e) by (nonlinear_arith) requires y > m, m > 0real, e > 0real, m * e == 1real;
        }
        assert(an_close(h, dh, a, 0real, e, d));
    }
    reveal(tends);
}
proof fn an_recip_blows(g: RF, dg: Dom, h: RF, dh: Dom, a: real)
    requires recip_on(g, dg, h, dh, a), tends(g, dg, a, 0real),
    ensures blows(h, dh, a),
{
    assert forall|m: real| #[trigger] pos(m) implies exists|d: real| #[trigger] an_large(h, dh, a, m, d) by {
        let e = 1real / m;
        assert(e > 0real && m * e == 1real) by (nonlinear_arith) requires m > 0real, e == 1real / m;
        let d = tends_at(g, dg, a, 0real, e);
        assert forall|t: real| #[trigger] dh(t) && an_near(a, d, t) implies rabs(h(t)) > m by {
            assert(dg(t)); lemma_abs_recip(g(t));
            let y = rabs(g(t));
            assert(y < e);
            assert(1real / y > m) by (nonlinear_arith) requires 0real < y < e, m > 0real, m * e == 1real;
        }
        assert(an_large(h, dh, a, m, d));
    }
    reveal(blows);
}
proof fn an_recip_stays(g: RF, dg: Dom, h: RF, dh: Dom, a: real)
    requires recip_on(g, dg, h, dh, a), apart(g, dg, a),
    ensures stays(h, dh, a),
{
    let (k, d) = apart_at(g, dg, a);
    let m = 1real / k;
    assert(m > 0real && m * k == 1real) by (nonlinear_arith) requires k > 0real, m == 1real / k;
    assert forall|t: real| #[trigger] dh(t) && an_near(a, d, t) implies rabs(h(t)) <= m by {
        assert(dg(t)); lemma_abs_recip(g(t));
        let y = rabs(g(t));
        assert(1real / y <= m) by (nonlinear_arith) requires y > k, k > 0real, m * k == 1real;
    }
    assert(an_small(h, dh, a, m, d));
    reveal(stays);
}
proof fn an_recip_apart(g: RF, dg: Dom, h: RF, dh: Dom, a: real)
    requires recip_on(g, dg, h, dh, a), stays(g, dg, a),
    ensures apart(h, dh, a),
{
    let (k, d) = stays_at(g, dg, a);
    let m = 1real / (2real * k);
    assert(m > 0real && m * (2real * k) == 1real) by (nonlinear_arith) requires k > 0real, m == 1real / (2real * k);
    assert forall|t: real| #[trigger] dh(t) && an_near(a, d, t) implies rabs(h(t)) > m by {
        assert(dg(t)); lemma_abs_recip(g(t));
        let y = rabs(g(t));
        assert(1real / y > m) by (nonlinear_arith) requires 0real < y <= k, m > 0real, m * (2real * k) == 1real;
    }
    assert(an_large(h, dh, a, m, d));
    reveal(apart);
}
proof fn an_recip_tends(g: RF, dg: Dom, m: real, h: RF, dh: Dom, a: real)
    requires recip_on(g, dg, h, dh, a), tends(g, dg, a, m), m != 0real,
    ensures tends(h, dh, a, 1real / m),
{
    // 1/g - 1/m = (g - m) (-1/m) (1/g)
    an_tends_apart(g, dg, a, m);
    an_recip_stays(g, dg, h, dh, a);
    let dall: Dom = |t: real| true;
    let c1: RF = |t: real| -m;
    an_tends_const(c1, dall, a, -m);
    let g0: RF = |t: real| g(t) - m;
    an_sum_tends(1real, g, dg, m, 1real, c1, dall, -m, g0, dg, a);
    let u: RF = |t: real| g0(t) * h(t);
    an_prod_zero(g0, dg, h, dh, u, dh, a);
    let k = -(1real / m);
    let c2: RF = |t: real| k;
    an_tends_const(c2, dall, a, k);
    an_tends_stays(c2, dall, a, k);
    let v: RF = |t: real| u(t) * k;
    an_prod_zero(u, dh, c2, dall, v, dh, a);
    let c3: RF = |t: real| 1real / m;
    an_tends_const(c3, dall, a, 1real / m);
    assert forall|t: real| #[trigger] dh(t) && t != a implies h(t) == v(t) + c3(t) by {
        let y = g(t); let r = 1real / y; let n = 1real / m;
        assert(y * r == 1real && m * n == 1real) by (nonlinear_arith) requires y != 0real, m != 0real, r == 1real / y, n == 1real / m;
        assert(r == ((y - m) * r) * (-n) + n) by (nonlinear_arith) requires y * r == 1real, m * n == 1real;
    }
    an_sum_tends(1real, v, dh, 0real, 1real, c3, dall, 1real / m, h, dh, a);
}
// ----- continuous functions ---------------------------------------------------------
pub open spec fn cont_at(p: RF, l: real) -> bool { forall|e: real| #[trigger] pos(e) ==> exists|d: real| #[trigger] cont_within(p, l, e, d) }
pub open spec fn cont_within(p: RF, l: real, e: real, d: real) -> bool { d > 0real && forall|y: real| rabs(y - l) < d ==> rabs(#[trigger] p(y) - p(l)) < e }
proof fn an_cont(p: RF, f: RF, df: Dom, l: real, h: RF, dh: Dom, a: real)
    requires cont_at(p, l), tends(f, df, a, l), forall|t: real| #[trigger] dh(t) && t != a ==> df(t) && h(t) == p(f(t)),
    ensures tends(h, dh, a, p(l)),
{
    assert forall|e: real| #[trigger] pos(e) implies exists|d: real| #[trigger] an_close(h, dh, a, p(l), e, d) by {
        assert(pos(e)); let e2 = choose|d: real| #[trigger] cont_within(p, l, e, d);
        assert(cont_within(p, l, e, e2));
        let d = tends_at(f, df, a, l, e2);
        assert(an_close(h, dh, a, p(l), e, d));
    }
    reveal(tends);
}
// ----- derivatives ------------------------------------------------------------------
pub open spec fn holds_within(dom: Dom, a: real, d: real) -> bool { d > 0real && forall|t: real| rabs(t - a) < d ==> #[trigger] dom(t) }
/// dom contains every point near a
#[verifier::opaque]
pub open spec fn inside(dom: Dom, a: real) -> bool { exists|d: real| #[trigger] holds_within(dom, a, d) }
pub open spec fn slope(f: RF, a: real) -> RF { |t: real| (f(t) - f(a)) / (t - a) }
/// f is defined near a, and has the derivative m there
pub open spec fn diff_at(f: RF, dom: Dom, a: real, m: real) -> bool { inside(dom, a) && tends(slope(f, a), dom, a, m) }
proof fn inside_at(dom: Dom, a: real) -> (d: real)
    requires inside(dom, a),
    ensures holds_within(dom, a, d),
{ reveal(inside); choose|d: real| #[trigger] holds_within(dom, a, d) }
proof fn an_inside_and(d1: Dom, d2: Dom, d3: Dom, a: real)
    requires inside(d1, a), inside(d2, a), forall|t: real| d1(t) && d2(t) ==> #[trigger] d3(t),
    ensures inside(d3, a),
{
    let x = inside_at(d1, a); let y = inside_at(d2, a);
    assert(holds_within(d3, a, rmin(x, y)));
    reveal(inside);
}
proof fn an_inside_all(dom: Dom, a: real)
    requires forall|t: real| #[trigger] dom(t),
    ensures inside(dom, a),
{ assert(holds_within(dom, a, 1real)); reveal(inside); }
/// a function that tends to its own value v there satisfies |f - v| < e near a
proof fn an_inside_close(f: RF, df: Dom, a: real, e: real, dom: Dom)
    requires inside(df, a), tends(f, df, a, f(a)), e > 0real, forall|t: real| df(t) && rabs(f(t) - f(a)) < e ==> #[trigger] dom(t),
    ensures inside(dom, a),
{
    let x = inside_at(df, a); let y = tends_at(f, df, a, f(a), e);
    assert forall|t: real| rabs(t - a) < rmin(x, y) implies #[trigger] dom(t) by { assert(df(t)); if t == a { assert(rabs(f(a) - f(a)) < e); } }
    assert(holds_within(dom, a, rmin(x, y)));
    reveal(inside);
}
/// the same function near a
proof fn an_diff_local(f: RF, df: Dom, h: RF, dh: Dom, near_: Dom, a: real, m: real)
    requires diff_at(f, df, a, m), inside(dh, a), inside(near_, a), forall|t: real| #[trigger] near_(t) && dh(t) ==> h(t) == f(t),
    ensures diff_at(h, dh, a, m),
{
    let x = inside_at(df, a); let y = inside_at(near_, a); let z = inside_at(dh, a);
    assert(near_(a) && dh(a));
    assert forall|e: real| #[trigger] pos(e) implies exists|d: real| #[trigger] an_close(slope(h, a), dh, a, m, e, d) by {
        let w = tends_at(slope(f, a), df, a, m, e);
        let d = rmin(rmin(x, y), w);
        assert forall|t: real| #[trigger] dh(t) && an_near(a, d, t) implies rabs(slope(h, a)(t) - m) < e by { assert(df(t)); assert(near_(t)); }
        assert(an_close(slope(h, a), dh, a, m, e, d));
    }
    reveal(tends);
}
proof fn lemma_div_cancel(x: real, y: real)
    requires y != 0real,
    ensures (x / y) * y == x,
{ assert((x / y) * y == x) by (nonlinear_arith) requires y != 0real; }
proof fn an_diff_cont(f: RF, df: Dom, a: real, m: real)
    requires diff_at(f, df, a, m),
    ensures tends(f, df, a, f(a)),
{
    let dall: Dom = |t: real| true;
    let id: RF = |t: real| t;
    an_tends_id(id, dall, a);
    let ca: RF = |t: real| -a;
    an_tends_const(ca, dall, a, -a);
    let x0: RF = |t: real| t - a;
    an_sum_tends(1real, id, dall, a, 1real, ca, dall, -a, x0, dall, a);
    let u: RF = |t: real| slope(f, a)(t) * x0(t);
    an_prod_tends(slope(f, a), df, m, x0, dall, 0real, u, df, a);
    assert(m * 0real == 0real) by (nonlinear_arith);
    let c: RF = |t: real| f(a);
    an_tends_const(c, dall, a, f(a));
    assert forall|t: real| #[trigger] df(t) && t != a implies f(t) == u(t) + c(t) by { lemma_div_cancel(f(t) - f(a), t - a); }
    an_sum_tends(1real, u, df, 0real, 1real, c, dall, f(a), f, df, a);
}
proof fn an_diff_const(f: RF, dom: Dom, a: real)
    requires inside(dom, a), forall|t: real| #[trigger] dom(t) ==> f(t) == f(a),
    ensures diff_at(f, dom, a, 0real),
{
    assert forall|t: real| #[trigger] dom(t) && t != a implies slope(f, a)(t) == 0real by { assert(0real / (t - a) == 0real) by (nonlinear_arith) requires t != a; }
    an_tends_const(slope(f, a), dom, a, 0real);
}
proof fn an_diff_id(f: RF, dom: Dom, a: real)
    requires inside(dom, a), forall|t: real| #[trigger] dom(t) ==> f(t) == t,
    ensures diff_at(f, dom, a, 1real),
{
    let x = inside_at(dom, a); assert(dom(a));
    assert forall|t: real| #[trigger] dom(t) && t != a implies slope(f, a)(t) == 1real by { assert((t - a) / (t - a) == 1real) by (nonlinear_arith) requires t != a; }
    an_tends_const(slope(f, a), dom, a, 1real);
}
pub open spec fn sum_all(p: real, f: RF, df: Dom, q: real, g: RF, dg: Dom, h: RF, dh: Dom) -> bool {
    an_unit(p) && an_unit(q) && forall|t: real| #[trigger] dh(t) ==> df(t) && dg(t) && h(t) == psgn(p, f(t)) + psgn(q, g(t))
}
proof fn an_diff_sum(p: real, f: RF, df: Dom, m: real, q: real, g: RF, dg: Dom, n: real, h: RF, dh: Dom, a: real)
    requires sum_all(p, f, df, q, g, dg, h, dh), diff_at(f, df, a, m), diff_at(g, dg, a, n), inside(dh, a),
    ensures diff_at(h, dh, a, psgn(p, m) + psgn(q, n)),
{
    let x = inside_at(dh, a); assert(dh(a));
    assert forall|t: real| #[trigger] dh(t) && t != a implies slope(h, a)(t) == psgn(p, slope(f, a)(t)) + psgn(q, slope(g, a)(t)) by {
        let u = f(t) - f(a); let v = g(t) - g(a); let w = t - a;
        assert((u + v) / w == u / w + v / w && (u - v) / w == u / w - v / w && (-u + v) / w == -(u / w) + v / w && (-u - v) / w == -(u / w) - v / w) by (nonlinear_arith) requires w != 0real;
        assert(h(t) - h(a) == psgn(p, u) + psgn(q, v));
    }
    an_sum_tends(p, slope(f, a), df, m, q, slope(g, a), dg, n, slope(h, a), dh, a);
}
pub open spec fn prod_all(f: RF, df: Dom, g: RF, dg: Dom, h: RF, dh: Dom) -> bool { forall|t: real| #[trigger] dh(t) ==> df(t) && dg(t) && h(t) == f(t) * g(t) }
proof fn an_diff_prod(f: RF, df: Dom, m: real, g: RF, dg: Dom, n: real, h: RF, dh: Dom, a: real)
    requires prod_all(f, df, g, dg, h, dh), diff_at(f, df, a, m), diff_at(g, dg, a, n), inside(dh, a),
    ensures diff_at(h, dh, a, m * g(a) + f(a) * n),
{
    // (fg - f0 g0)/(t-a) = slope f * g + f0 * slope g
    let x = inside_at(dh, a); assert(dh(a));
    an_diff_cont(g, dg, a, n);
    let dall: Dom = |t: real| true;
    let u: RF = |t: real| slope(f, a)(t) * g(t);
    an_prod_tends(slope(f, a), df, m, g, dg, g(a), u, dh, a);
    let c: RF = |t: real| f(a);
    an_tends_const(c, dall, a, f(a));
    let v: RF = |t: real| c(t) * slope(g, a)(t);
    an_prod_tends(c, dall, f(a), slope(g, a), dg, n, v, dh, a);
    assert forall|t: real| #[trigger] dh(t) && t != a implies slope(h, a)(t) == u(t) + v(t) by {
        let f1 = f(t); let f0 = f(a); let g1 = g(t); let g0 = g(a); let w = t - a;
        let p = (f1 - f0) / w; let q = (g1 - g0) / w; let r = (f1 * g1 - f0 * g0) / w;
        lemma_div_cancel(f1 - f0, w); lemma_div_cancel(g1 - g0, w); lemma_div_cancel(f1 * g1 - f0 * g0, w);
        assert(r == p * g1 + f0 * q) by (nonlinear_arith) requires w != 0real, p * w == f1 - f0, q * w == g1 - g0, r * w == f1 * g1 - f0 * g0;
    }
    an_sum_tends(1real, u, dh, m * g(a), 1real, v, dh, f(a) * n, slope(h, a), dh, a);
}
proof fn an_diff_recip(g: RF, dg: Dom, n: real, h: RF, dh: Dom, a: real)
    requires forall|t: real| #[trigger] dh(t) ==> dg(t) && g(t) != 0real && h(t) == 1real / g(t), diff_at(g, dg, a, n), inside(dh, a),
    ensures diff_at(h, dh, a, (-n) / (g(a) * g(a))),
{
    let x = inside_at(dh, a); assert(dh(a));
    an_diff_cont(g, dg, a, n);
    an_recip_tends(g, dg, g(a), h, dh, a);
    let dall: Dom = |t: real| true;
    let k = 1real / g(a);
    let c: RF = |t: real| -k;
    an_tends_const(c, dall, a, -k);
    let u: RF = |t: real| slope(g, a)(t) * h(t);
    an_prod_tends(slope(g, a), dg, n, h, dh, k, u, dh, a);
    assert forall|t: real| #[trigger] dh(t) && t != a implies slope(h, a)(t) == u(t) * c(t) by {
        let g1 = g(t); let g0 = g(a); let w = t - a; let h1 = h(t);
        let q = (g1 - g0) / w; let r = (h1 - k) / w;
        lemma_div_cancel(g1 - g0, w); lemma_div_cancel(h1 - k, w); lemma_div_cancel(1real, g1); lemma_div_cancel(1real, g0);
        assert(r * w == h1 - k);
        let s = (q * h1) * (-k);
        assert(s * w == (q * w) * h1 * (-k)) by (nonlinear_arith) requires s == (q * h1) * (-k);
        assert((g1 - g0) * h1 * (-k) == (h1 * g1) * (-k) + (k * g0) * h1) by (nonlinear_arith);
        assert(1real * (-k) + 1real * h1 == h1 - k) by (nonlinear_arith);
        assert(r == s) by (nonlinear_arith) requires r * w == h1 - k, s * w == h1 - k, w != 0real;
    }
    an_prod_tends(u, dh, n * k, c, dall, -k, slope(h, a), dh, a);
    let g0 = g(a);
    lemma_div_cancel(1real, g0);
    assert(g0 * g0 != 0real) by (nonlinear_arith) requires g0 != 0real;
    lemma_div_cancel(-n, g0 * g0);
    let s = (-n) / (g0 * g0);
    let z = (n * k) * (-k);
    assert(z * (g0 * g0) == -(n * ((k * g0) * (k * g0)))) by (nonlinear_arith) requires z == (n * k) * (-k);
    assert(n * (1real * 1real) == n) by (nonlinear_arith);
    assert(z == s) by (nonlinear_arith) requires z * (g0 * g0) == -n, s * (g0 * g0) == -n, g0 * g0 != 0real;
}
proof fn an_diff_chain(p: RF, dp: Dom, p1: real, f: RF, df: Dom, m: real, h: RF, dh: Dom, a: real)
    requires forall|t: real| #[trigger] dh(t) ==> df(t) && h(t) == p(f(t)), diff_at(p, dp, f(a), p1), diff_at(f, df, a, m), inside(dh, a),
    ensures diff_at(h, dh, a, p1 * m),
{
    let x = inside_at(dh, a); assert(dh(a));
    let l = f(a);
    an_diff_cont(f, df, a, m);
    let phi: RF = |y: real| if y == l { p1 } else { slope(p, l)(y) };
    assert(cont_at(phi, l)) by {
        assert forall|e: real| #[trigger] pos(e) implies exists|d: real| #[trigger] cont_within(phi, l, e, d) by {
            let d1 = tends_at(slope(p, l), dp, l, p1, e); let d2 = inside_at(dp, l);
            let d = rmin(d1, d2);
            assert forall|y: real| rabs(y - l) < d implies rabs(#[trigger] phi(y) - phi(l)) < e by { assert(dp(y)); }
            assert(cont_within(phi, l, e, d));
        }
    }
    let u: RF = |t: real| phi(f(t));
    an_cont(phi, f, df, l, u, df, a);
    assert forall|t: real| #[trigger] dh(t) && t != a implies slope(h, a)(t) == u(t) * slope(f, a)(t) by {
        let w = t - a; let y = f(t);
        lemma_div_cancel(h(t) - h(a), w); lemma_div_cancel(y - l, w);
        let r = (h(t) - h(a)) / w; let q = (y - l) / w;
        if y == l {
            assert(r == 0real) by (nonlinear_arith) requires r * w == 0real, w != 0real;
            assert(q == 0real) by (nonlinear_arith) requires q * w == 0real, w != 0real;
            assert(p1 * q == 0real) by (nonlinear_arith) requires q == 0real;
        } else {
            lemma_div_cancel(p(y) - p(l), y - l);
            let s = (p(y) - p(l)) / (y - l);
            assert(r == s * q) by (nonlinear_arith) requires r * w == h(t) - h(a), q * w == y - l, s * (y - l) == h(t) - h(a), w != 0real;
        }
    }
    an_prod_tends(u, df, p1, slope(f, a), df, m, slope(h, a), dh, a);
}
