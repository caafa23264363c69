//@ raw vp_analysis
// ===== the mean value theorem =====================================================
/// the mathematics assumed: a set of reals with an upper bound has a least one (completeness)
pub open spec fn upper(p: Dom, s: real) -> bool { forall|t: real| #[trigger] p(t) ==> t <= s }
pub axiom fn ax_complete(p: Dom, lo: real, hi: real) -> (s: real)
    requires p(lo), upper(p, hi),
    ensures upper(p, s), forall|u: real| #[trigger] upper(p, u) ==> s <= u;
pub open spec fn in_seg(p: real, q: real, t: real) -> bool { p <= t <= q }
pub open spec fn top(h: RF, p: real, q: real, y: real) -> bool { in_seg(p, q, y) && forall|t: real| in_seg(p, q, t) ==> #[trigger] h(t) <= h(y) }
pub open spec fn below_to(h: RF, p: real, q: real, t: real, y: real) -> bool { in_seg(p, q, y) && forall|r: real| in_seg(p, t, r) ==> #[trigger] h(r) < h(y) }
pub open spec fn climbs(h: RF, p: real, q: real) -> Dom { |t: real| in_seg(p, q, t) && exists|y: real| #[trigger] below_to(h, p, q, t, y) }
/// h tends to its own value at every point of the segment
pub open spec fn cont_on(h: RF, dh: Dom, p: real, q: real) -> bool { forall|t: real| in_seg(p, q, t) ==> #[trigger] inside(dh, t) && tends(h, dh, t, h(t)) }
/// the extreme value theorem
proof fn an_max(h: RF, dh: Dom, p: real, q: real) -> (y: real)
    requires p <= q, cont_on(h, dh, p, q),
    ensures top(h, p, q, y),
{
    let a = climbs(h, p, q);
    if !a(p) {
        assert forall|t: real| in_seg(p, q, t) implies #[trigger] h(t) <= h(p) by { if h(t) > h(p) { assert(below_to(h, p, q, p, t)); } }
        p
    } else {
        let s = ax_complete(a, p, q);
        assert(a(p)); assert(p <= s);
        assert(upper(a, q));
        if exists|y: real| in_seg(p, q, y) && h(s) < #[trigger] h(y) {
            let y = choose|y: real| in_seg(p, q, y) && h(s) < #[trigger] h(y);
            let e = h(y) - h(s);
            assert(inside(dh, s));
            let d1 = tends_at(h, dh, s, h(s), e); let d2 = inside_at(dh, s);
            let d = rmin(d1, d2);
            assert forall|r: real| rabs(r - s) < d implies #[trigger] h(r) < h(y) by { assert(dh(r)); if r != s { assert(an_near(s, d1, r)); } }
            // an element of the set within d of s
            let u = s - d;
            if forall|t: real| #[trigger] a(t) ==> t <= u { assert(upper(a, u)); assert(false); }
            let t = choose|t: real| #[trigger] a(t) && !(t <= u);
            let yt = choose|yt: real| #[trigger] below_to(h, p, q, t, yt);
            let best = if h(yt) < h(y) { y } else { yt };
            let v = if s + d / 2real < q { s + d / 2real } else { q };
            assert forall|r: real| in_seg(p, v, r) implies #[trigger] h(r) < h(best) by {
                if r <= t { assert(in_seg(p, t, r)); } else { assert(rabs(r - s) < d); }
            }
            assert(below_to(h, p, q, v, best));
            assert(a(v));
            assert(v <= s);
            assert(v == q);
            assert(h(best) < h(best));
        }
        s
    }
}
/// a function with a derivative k > 0 at y is larger just after y and smaller just before
pub open spec fn rises(h: RF, y: real, d: real) -> bool { d > 0real && forall|r: real| an_near(y, d, r) ==> (if r > y { #[trigger] h(r) > h(y) } else { h(r) < h(y) }) }
pub open spec fn falls(h: RF, y: real, d: real) -> bool { d > 0real && forall|r: real| an_near(y, d, r) ==> (if r > y { #[trigger] h(r) < h(y) } else { h(r) > h(y) }) }
proof fn lemma_quot_sign(x: real, w: real)
    requires w != 0real,
    ensures x / w > 0real ==> (x > 0real) == (w > 0real) && x != 0real, x / w < 0real ==> (x > 0real) == (w < 0real) && x != 0real,
{
    let s = x / w;
    lemma_div_cancel(x, w);
    assert(s > 0real && w > 0real ==> s * w > 0real) by (nonlinear_arith);
    assert(s > 0real && w < 0real ==> s * w < 0real) by (nonlinear_arith);
    assert(s < 0real && w > 0real ==> s * w < 0real) by (nonlinear_arith);
    assert(s < 0real && w < 0real ==> s * w > 0real) by (nonlinear_arith);
}
proof fn an_slope_sign(h: RF, dh: Dom, y: real, k: real) -> (d: real)
    requires diff_at(h, dh, y, k), k != 0real,
    ensures k > 0real ==> rises(h, y, d), k < 0real ==> falls(h, y, d),
{
    let d1 = tends_at(slope(h, y), dh, y, k, rabs(k)); let d2 = inside_at(dh, y);
    let d = rmin(d1, d2);
    assert forall|r: real| an_near(y, d, r) implies (if k > 0real { if r > y { #[trigger] h(r) > h(y) } else { h(r) < h(y) } } else { if r > y { h(r) < h(y) } else { h(r) > h(y) } }) by {
        assert(dh(r)); assert(an_near(y, d1, r));
        assert(rabs(slope(h, y)(r) - k) < rabs(k));
        lemma_quot_sign(h(r) - h(y), r - y);
    }
    d
}
/// at the largest value inside the segment the derivative is zero
proof fn an_top_ends(h: RF, dh: Dom, p: real, q: real, y: real, k: real)
    requires top(h, p, q, y), diff_at(h, dh, y, k), k != 0real,
    ensures k > 0real ==> y == q, k < 0real ==> y == p,
{
    let d = an_slope_sign(h, dh, y, k);
    if k > 0real && y < q {
        let r = if y + d / 2real < q { y + d / 2real } else { q };
        assert(an_near(y, d, r)); assert(in_seg(p, q, r)); assert(h(r) > h(y));
    }
    if k < 0real && y > p {
        let r = if y - d / 2real > p { y - d / 2real } else { p };
        assert(an_near(y, d, r)); assert(in_seg(p, q, r)); assert(h(r) > h(y));
    }
}
pub open spec fn diff_on(h: RF, dh: Dom, h2: RF, p: real, q: real) -> bool { forall|t: real| in_seg(p, q, t) ==> diff_at(h, dh, t, #[trigger] h2(t)) }
/// Rolle's theorem
proof fn an_rolle(h: RF, dh: Dom, h2: RF, p: real, q: real) -> (c: real)
    requires p < q, diff_on(h, dh, h2, p, q), h(p) == h(q),
    ensures in_seg(p, q, c), h2(c) == 0real,
{
    if forall|t: real| in_seg(p, q, t) ==> #[trigger] h2(t) != 0real {
        let n: RF = |t: real| -h(t); let n2: RF = |t: real| -h2(t);
        assert forall|t: real| in_seg(p, q, t) implies #[trigger] inside(dh, t) && tends(h, dh, t, h(t)) by { assert(h2(t) != 0real); an_diff_cont(h, dh, t, h2(t)); }
        assert forall|t: real| in_seg(p, q, t) implies diff_at(n, dh, t, #[trigger] n2(t)) by { assert(h2(t) != 0real); lemma_diff_neg(h, dh, h2(t), n, dh, t); }
        assert forall|t: real| in_seg(p, q, t) implies #[trigger] inside(dh, t) && tends(n, dh, t, n(t)) by { assert(n2(t) == -h2(t)); an_diff_cont(n, dh, t, n2(t)); }
        let y = an_max(h, dh, p, q); let z = an_max(n, dh, p, q);
        assert(h2(y) != 0real && h2(z) != 0real);
        an_top_ends(h, dh, p, q, y, h2(y));
        assert(n2(z) == -h2(z));
        an_top_ends(n, dh, p, q, z, n2(z));
        let m = (p + q) / 2real;
        assert(h2(m) != 0real);
        assert(h(y) == h(p) && n(z) == -h(p));
        assert forall|t: real| in_seg(p, q, t) implies #[trigger] h(t) <= h(m) by { assert(n(m) <= n(z)); assert(h(m) >= h(p)); assert(h(t) <= h(y)); }
        assert(top(h, p, q, m));
        an_top_ends(h, dh, p, q, m, h2(m));
        assert(false);
    }
    choose|t: real| in_seg(p, q, t) && #[trigger] h2(t) == 0real
}
/// the mean value theorem for two functions (Cauchy)
proof fn an_cauchy(f: RF, df: Dom, f2: RF, g: RF, dg: Dom, g2: RF, p: real, q: real) -> (c: real)
    requires p < q, diff_on(f, df, f2, p, q), diff_on(g, dg, g2, p, q),
    ensures in_seg(p, q, c), (f(q) - f(p)) * g2(c) == (g(q) - g(p)) * f2(c),
{
    let u = f(q) - f(p); let v = g(q) - g(p);
    let dh: Dom = |t: real| df(t) && dg(t);
    let cu: RF = |t: real| u; let cv: RF = |t: real| v;
    let gu: RF = |t: real| u * g(t); let fv: RF = |t: real| v * f(t);
    let h: RF = |t: real| gu(t) - fv(t);
    let h2: RF = |t: real| u * g2(t) - v * f2(t);
    assert forall|t: real| in_seg(p, q, t) implies diff_at(h, dh, t, #[trigger] h2(t)) by {
        assert(diff_at(f, df, t, f2(t)) && diff_at(g, dg, t, g2(t)));
        an_inside_all(all_reals(), t);
        an_diff_const(cu, all_reals(), t); an_diff_const(cv, all_reals(), t);
        an_inside_and(df, df, df, t); an_inside_and(dg, dg, dg, t);
        an_diff_prod(cu, all_reals(), 0real, g, dg, g2(t), gu, dg, t);
        an_diff_prod(cv, all_reals(), 0real, f, df, f2(t), fv, df, t);
        an_inside_and(df, dg, dh, t);
        an_diff_sum(1real, gu, dg, 0real * g(t) + u * g2(t), -1real, fv, df, 0real * f(t) + v * f2(t), h, dh, t);
        let x = g(t); let y = f(t);
        assert(0real * x == 0real && 0real * y == 0real) by (nonlinear_arith);
    }
    let fq = f(q); let fp = f(p); let gq = g(q); let gp = g(p);
    assert((fq - fp) * gp - (gq - gp) * fp == (fq - fp) * gq - (gq - gp) * fq) by (nonlinear_arith);
    assert(h(p) == h(q));
    let c = an_rolle(h, dh, h2, p, q);
    assert(h2(c) == 0real);
    c
}
