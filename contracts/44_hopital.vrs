//@ raw vp_analysis
// ===== L'Hopital's rule ============================================================
/// at t: f and g are differentiable with the derivatives f2 and g2, and g2 is not zero; the same within d of a, a itself left out
pub open spec fn hop_at(f: RF, df: Dom, f2: RF, g: RF, dg: Dom, g2: RF, t: real) -> bool { diff_at(f, df, t, f2(t)) && diff_at(g, dg, t, g2(t)) && g2(t) != 0real }
pub open spec fn hop_near(f: RF, df: Dom, f2: RF, g: RF, dg: Dom, g2: RF, a: real, d: real) -> bool { d > 0real && forall|t: real| an_near(a, d, t) ==> #[trigger] hop_at(f, df, f2, g, dg, g2, t) }
/// f is l times g up to e times g
pub open spec fn ratio_ok(x: real, y: real, l: real, e: real) -> bool { rabs(x - l * y) <= e * rabs(y) }
pub open spec fn ratio_at(f: RF, g: RF, l: real, e: real, t: real) -> bool { ratio_ok(f(t), g(t), l, e) }
pub open spec fn ratio_near(f: RF, g: RF, l: real, e: real, a: real, d: real) -> bool { d > 0real && forall|t: real| an_near(a, d, t) ==> #[trigger] ratio_at(f, g, l, e, t) }
proof fn lemma_ratio_carry(u: real, v: real, x: real, y: real, l: real, e: real)
    requires u * y == v * x, ratio_ok(x, y, l, e), y != 0real,
    ensures ratio_ok(u, v, l, e),
{
    let w = u - l * v; let z = x - l * y;
    assert(w * y == v * z) by (nonlinear_arith) requires u * y == v * x, w == u - l * v, z == x - l * y;
    lemma_abs_mul(w, y); lemma_abs_mul(v, z);
    let aw = rabs(w); let ay = rabs(y); let av = rabs(v); let az = rabs(z);
    assert(aw <= e * av) by (nonlinear_arith) requires aw * ay == av * az, az <= e * ay, ay > 0real, av >= 0real;
}
/// the increments between two points on the same side of a
proof fn an_increments(f: RF, df: Dom, f2: RF, g: RF, dg: Dom, g2: RF, l: real, e: real, a: real, d: real, p: real, q: real)
    requires hop_near(f, df, f2, g, dg, g2, a, d), ratio_near(f2, g2, l, e, a, d), an_near(a, d, p), an_near(a, d, q), (p < a) == (q < a), p != q,
    ensures ratio_ok(f(q) - f(p), g(q) - g(p), l, e),
{
    let lo = if p < q { p } else { q }; let hi = if p < q { q } else { p };
    assert forall|t: real| in_seg(lo, hi, t) implies diff_at(f, df, t, #[trigger] f2(t)) by { assert(hop_at(f, df, f2, g, dg, g2, t)); }
    assert forall|t: real| in_seg(lo, hi, t) implies diff_at(g, dg, t, #[trigger] g2(t)) by { assert(hop_at(f, df, f2, g, dg, g2, t)); }
    let c = an_cauchy(f, df, f2, g, dg, g2, lo, hi);
    assert(an_near(a, d, c));
    assert(hop_at(f, df, f2, g, dg, g2, c)); assert(ratio_at(f2, g2, l, e, c));
    lemma_ratio_carry(f(hi) - f(lo), g(hi) - g(lo), f2(c), g2(c), l, e);
    let u = f(hi) - f(lo); let v = g(hi) - g(lo);
    assert((-u) - l * (-v) == -(u - l * v)) by (nonlinear_arith);
}
proof fn lemma_ratio_split(x: real, y: real, u: real, v: real, l: real, e: real)
    requires ratio_ok(x - u, y - v, l, e), e > 0real,
    ensures rabs(x - l * y) <= e * rabs(y) + (rabs(u) + (rabs(l) + e) * rabs(v)),
{
    assert(x - l * y == ((x - u) - l * (y - v)) + (u - l * v)) by (nonlinear_arith);
    lemma_abs_mul(l, v);
    let al = rabs(l); let av = rabs(v); let ay = rabs(y); let w = rabs(y - v);
    assert(e * w <= e * ay + e * av) by (nonlinear_arith) requires w <= ay + av, e > 0real;
    assert((al + e) * av == al * av + e * av) by (nonlinear_arith);
}
/// 0/0
proof fn an_hop_zero(f: RF, df: Dom, f2: RF, g: RF, dg: Dom, g2: RF, l: real, e: real, a: real, d: real)
    requires hop_near(f, df, f2, g, dg, g2, a, d), ratio_near(f2, g2, l, e, a, d), e > 0real, tends(f, df, a, 0real), tends(g, dg, a, 0real),
    ensures ratio_near(f, g, l, e, a, d),
{
    assert forall|t: real| an_near(a, d, t) implies #[trigger] ratio_at(f, g, l, e, t) by {
        if !ratio_at(f, g, l, e, t) {
            let k = rabs(f(t) - l * g(t)) - e * rabs(g(t)); let w = 1real + rabs(l) + e;
            let n = k / w;
            lemma_div_cancel(k, w);
            assert(n > 0real) by (nonlinear_arith) requires n * w == k, k > 0real, w > 0real;
            let d1 = tends_at(f, df, a, 0real, n); let d2 = tends_at(g, dg, a, 0real, n);
            let r = rmin(rmin(d1, d2), rmin(d, rabs(t - a))) / 2real;
            let s = if t < a { a - r } else { a + r };
            assert(an_near(a, d, s) && an_near(a, d1, s) && an_near(a, d2, s));
            assert(hop_at(f, df, f2, g, dg, g2, s));
            let x1 = inside_at(df, s); let x2 = inside_at(dg, s);
            assert(df(s) && dg(s));
            an_increments(f, df, f2, g, dg, g2, l, e, a, d, s, t);
            lemma_ratio_split(f(t), g(t), f(s), g(s), l, e);
            let al = rabs(l); let au = rabs(f(s)); let av = rabs(g(s));
            assert((al + e) * av <= (al + e) * n) by (nonlinear_arith) requires al + e > 0real, av <= n;
            assert(n * w == n + (al + e) * n) by (nonlinear_arith) requires w == 1real + al + e;
        }
    }
}
/// infinity over infinity
proof fn an_hop_inf(f: RF, df: Dom, f2: RF, g: RF, dg: Dom, g2: RF, l: real, e: real, a: real, d: real) -> (r: real)
    requires hop_near(f, df, f2, g, dg, g2, a, d), ratio_near(f2, g2, l, e, a, d), e > 0real, blows(g, dg, a),
    ensures ratio_near(f, g, l, 2real * e, a, r),
{
    let s1 = a - d / 2real; let s2 = a + d / 2real;
    let c1 = rabs(f(s1)) + (rabs(l) + e) * rabs(g(s1)); let c2 = rabs(f(s2)) + (rabs(l) + e) * rabs(g(s2));
    let al = rabs(l); let g1 = rabs(g(s1)); let g3 = rabs(g(s2));
    assert((al + e) * g1 >= 0real && (al + e) * g3 >= 0real) by (nonlinear_arith) requires al >= 0real, e > 0real, g1 >= 0real, g3 >= 0real;
    let c = c1 + c2; let m = c / e + 1real;
    lemma_div_cancel(c, e);
    let y = c / e;
    assert(y >= 0real) by (nonlinear_arith) requires y * e == c, c >= 0real, e > 0real;
    let d1 = blows_at(g, dg, a, m);
    let r = rmin(d1, d / 2real);
    assert forall|t: real| an_near(a, r, t) implies #[trigger] ratio_at(f, g, l, 2real * e, t) by {
        let s = if t < a { s1 } else { s2 };
        assert(an_near(a, d, t) && an_near(a, d1, t) && an_near(a, d, s));
        assert(hop_at(f, df, f2, g, dg, g2, t));
        let x2 = inside_at(dg, t); assert(dg(t));
        an_increments(f, df, f2, g, dg, g2, l, e, a, d, s, t);
        lemma_ratio_split(f(t), g(t), f(s), g(s), l, e);
        let gt = rabs(g(t));
        assert(c <= e * gt) by (nonlinear_arith) requires y * e == c, gt > y + 1real, e > 0real;
        assert((2real * e) * gt == e * gt + e * gt) by (nonlinear_arith);
    }
    r
}
pub open spec fn hop_kind(f: RF, df: Dom, g: RF, dg: Dom, a: real) -> bool { (tends(f, df, a, 0real) && tends(g, dg, a, 0real)) || (blows(f, df, a) && blows(g, dg, a)) }
proof fn an_hop(f: RF, df: Dom, f2: RF, g: RF, dg: Dom, g2: RF, l: real, e: real, a: real, d: real) -> (r: real)
    requires hop_near(f, df, f2, g, dg, g2, a, d), ratio_near(f2, g2, l, e, a, d), e > 0real, hop_kind(f, df, g, dg, a),
    ensures ratio_near(f, g, l, 2real * e, a, r),
{
    if blows(g, dg, a) { an_hop_inf(f, df, f2, g, dg, g2, l, e, a, d) }
    else {
        an_hop_zero(f, df, f2, g, dg, g2, l, e, a, d);
        assert forall|t: real| an_near(a, d, t) implies #[trigger] ratio_at(f, g, l, 2real * e, t) by {
            assert(ratio_at(f, g, l, e, t));
            let y = rabs(g(t));
            assert((2real * e) * y >= e * y) by (nonlinear_arith) requires e > 0real, y >= 0real;
        }
        d
    }
}
proof fn an_hop_fewer(f: RF, df: Dom, f2: RF, g: RF, dg: Dom, g2: RF, a: real, d: real, e: real)
    requires hop_near(f, df, f2, g, dg, g2, a, d), 0real < e <= d,
    ensures hop_near(f, df, f2, g, dg, g2, a, e),
{ assert forall|t: real| an_near(a, e, t) implies #[trigger] hop_at(f, df, f2, g, dg, g2, t) by { assert(an_near(a, d, t)); } }
/// the quotient x / y, compared with l
proof fn lemma_ratio_quot(x: real, y: real, l: real, e: real)
    requires y != 0real,
    ensures rabs(x / y - l) <= e <==> ratio_ok(x, y, l, e),
{
    let s = x / y;
    lemma_div_cancel(x, y);
    assert((s - l) * y == x - l * y) by (nonlinear_arith) requires s * y == x;
    lemma_abs_mul(s - l, y);
    let u = rabs(s - l); let v = rabs(y);
    assert(u <= e <==> u * v <= e * v) by (nonlinear_arith) requires v > 0real;
}
pub open spec fn quot_is(f: RF, df: Dom, g: RF, dg: Dom, h: RF, dh: Dom) -> bool { forall|t: real| #[trigger] dh(t) ==> df(t) && dg(t) && g(t) != 0real && h(t) == f(t) / g(t) }
pub open spec fn quot_near(f: RF, g: RF, h: RF, dh: Dom, a: real, d: real) -> bool { forall|t: real| an_near(a, d, t) ==> #[trigger] dh(t) && h(t) == f(t) / g(t) }
pub open spec fn hop_setting(f: RF, df: Dom, f2: RF, g: RF, dg: Dom, g2: RF, q: RF, dq: Dom, h: RF, dh: Dom, a: real, d: real) -> bool {
    hop_near(f, df, f2, g, dg, g2, a, d) && quot_near(f2, g2, q, dq, a, d) && quot_is(f, df, g, dg, h, dh) && hop_kind(f, df, g, dg, a)
}
/// if |f2/g2 - l| <= e near a, then |f/g - l| <= 2e near a
proof fn an_hop_quot(f: RF, df: Dom, f2: RF, g: RF, dg: Dom, g2: RF, q: RF, dq: Dom, h: RF, dh: Dom, a: real, d: real, l: real, e: real, d1: real) -> (r: real)
    requires hop_setting(f, df, f2, g, dg, g2, q, dq, h, dh, a, d), d1 > 0real, e > 0real, forall|t: real| #[trigger] dq(t) && an_near(a, d1, t) ==> rabs(q(t) - l) <= e,
    ensures r > 0real, forall|t: real| #[trigger] dh(t) && an_near(a, r, t) ==> rabs(h(t) - l) <= 2real * e,
{
    let d2 = rmin(d, d1);
    an_hop_fewer(f, df, f2, g, dg, g2, a, d, d2);
    assert forall|t: real| an_near(a, d2, t) implies #[trigger] ratio_at(f2, g2, l, e, t) by {
        assert(an_near(a, d, t) && an_near(a, d1, t)); assert(hop_at(f, df, f2, g, dg, g2, t)); assert(dq(t));
        lemma_ratio_quot(f2(t), g2(t), l, e);
    }
    let r = an_hop(f, df, f2, g, dg, g2, l, e, a, d2);
    assert forall|t: real| #[trigger] dh(t) && an_near(a, r, t) implies rabs(h(t) - l) <= 2real * e by { assert(ratio_at(f, g, l, 2real * e, t)); lemma_ratio_quot(f(t), g(t), l, 2real * e); }
    r
}
proof fn an_hopital_tends(f: RF, df: Dom, f2: RF, g: RF, dg: Dom, g2: RF, q: RF, dq: Dom, h: RF, dh: Dom, a: real, d: real, l: real)
    requires hop_setting(f, df, f2, g, dg, g2, q, dq, h, dh, a, d), tends(q, dq, a, l),
    ensures tends(h, dh, a, l),
{
    assert forall|e: real| #[trigger] pos(e) implies exists|k: real| #[trigger] an_close(h, dh, a, l, e, k) by {
        let d1 = tends_at(q, dq, a, l, e / 4real);
        let r = an_hop_quot(f, df, f2, g, dg, g2, q, dq, h, dh, a, d, l, e / 4real, d1);
        assert(an_close(h, dh, a, l, e, r));
    }
    reveal(tends);
}
proof fn an_hopital_stays(f: RF, df: Dom, f2: RF, g: RF, dg: Dom, g2: RF, q: RF, dq: Dom, h: RF, dh: Dom, a: real, d: real)
    requires hop_setting(f, df, f2, g, dg, g2, q, dq, h, dh, a, d), stays(q, dq, a),
    ensures stays(h, dh, a),
{
    let (m, d1) = stays_at(q, dq, a);
    let r = an_hop_quot(f, df, f2, g, dg, g2, q, dq, h, dh, a, d, 0real, m, d1);
    assert(an_small(h, dh, a, 2real * m, r));
    reveal(stays);
}
/// |x / y| > m, turned over
proof fn lemma_over(x: real, y: real, m: real)
    requires y != 0real, m > 0real, rabs(x / y) > m,
    ensures x != 0real, ratio_ok(y, x, 0real, 1real / m),
{
    let s = x / y; let w = 1real / m;
    lemma_div_cancel(x, y); lemma_div_cancel(1real, m);
    lemma_abs_mul(s, y);
    let au = rabs(s); let ay = rabs(y); let ax = rabs(x);
    assert(w > 0real) by (nonlinear_arith) requires w * m == 1real, m > 0real;
    assert(ax > m * ay) by (nonlinear_arith) requires ax == au * ay, au > m, ay > 0real;
    assert(m * ay > 0real) by (nonlinear_arith) requires m > 0real, ay > 0real;
    assert(w * ax > ay) by (nonlinear_arith) requires ax > m * ay, w * m == 1real, w > 0real;
    assert(0real * x == 0real) by (nonlinear_arith);
}
proof fn lemma_back(x: real, y: real, m: real)
    requires y != 0real, m > 0real, ratio_ok(y, x, 0real, 2real * (1real / (4real * m))),
    ensures rabs(x / y) > m,
{
    let k = 4real * m; let w = 1real / k; let s = x / y;
    lemma_div_cancel(1real, k); lemma_div_cancel(x, y);
    lemma_abs_mul(s, y);
    let au = rabs(s); let ay = rabs(y); let ax = rabs(x);
    assert(0real * x == 0real) by (nonlinear_arith);
    assert(ay <= (2real * w) * ax);
    assert(w > 0real && w * m == 1real / 4real) by (nonlinear_arith) requires w * k == 1real, k == 4real * m, m > 0real;
    if au <= m {
        assert(ax <= m * ay) by (nonlinear_arith) requires ax == au * ay, au <= m, ay > 0real;
        assert((2real * w) * ax <= (2real * w) * (m * ay)) by (nonlinear_arith) requires ax <= m * ay, w > 0real;
        assert((2real * w) * (m * ay) == ay / 2real) by (nonlinear_arith) requires w * m == 1real / 4real;
    }
}
proof fn an_hopital_blows(f: RF, df: Dom, f2: RF, g: RF, dg: Dom, g2: RF, q: RF, dq: Dom, h: RF, dh: Dom, a: real, d: real)
    requires hop_setting(f, df, f2, g, dg, g2, q, dq, h, dh, a, d), blows(q, dq, a),
    ensures blows(h, dh, a),
{
    assert forall|m: real| #[trigger] pos(m) implies exists|k: real| #[trigger] an_large(h, dh, a, m, k) by {
        let k = 4real * m; let e = 1real / k;
        let d1 = blows_at(q, dq, a, k);
        let d2 = rmin(d, d1);
        assert forall|t: real| an_near(a, d2, t) implies #[trigger] ratio_at(g2, f2, 0real, e, t) && f2(t) != 0real by {
            assert(an_near(a, d, t) && an_near(a, d1, t)); assert(hop_at(f, df, f2, g, dg, g2, t)); assert(dq(t));
            lemma_over(f2(t), g2(t), k);
        }
        assert forall|t: real| an_near(a, d2, t) implies #[trigger] hop_at(g, dg, g2, f, df, f2, t) by {
            assert(an_near(a, d, t)); assert(hop_at(f, df, f2, g, dg, g2, t)); assert(ratio_at(g2, f2, 0real, e, t));
        }
        lemma_div_cancel(1real, k);
        assert(e > 0real) by (nonlinear_arith) requires e * k == 1real, k > 0real;
        let r = an_hop(g, dg, g2, f, df, f2, 0real, e, a, d2);
        assert forall|t: real| #[trigger] dh(t) && an_near(a, r, t) implies rabs(h(t)) > m by { assert(ratio_at(g, f, 0real, 2real * e, t)); lemma_back(f(t), g(t), m); }
        assert(an_large(h, dh, a, m, r));
    }
    reveal(blows);
}
