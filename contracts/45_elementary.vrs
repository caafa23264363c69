//@ raw vp_analysis
// ===== what follows from the derivatives of sin, cos, exp =========================
/// the increment is the derivative at a point in between, times the step
proof fn an_lagrange(h: RF, dh: Dom, h2: RF, p: real, q: real) -> (c: real)
    requires p < q, diff_on(h, dh, h2, p, q),
    ensures in_seg(p, q, c), h(q) - h(p) == (q - p) * h2(c),
{
    let g: RF = |t: real| t; let g2: RF = |t: real| 1real;
    assert forall|t: real| in_seg(p, q, t) implies diff_at(g, all_reals(), t, #[trigger] g2(t)) by { an_inside_all(all_reals(), t); an_diff_id(g, all_reals(), t); }
    let c = an_cauchy(h, dh, h2, g, all_reals(), g2, p, q);
    let u = h(q) - h(p);
    assert(u * 1real == u) by (nonlinear_arith);
    c
}
proof fn an_constant(h: RF, dh: Dom, h2: RF, p: real, q: real)
    requires forall|t: real| diff_at(h, dh, t, #[trigger] h2(t)) && h2(t) == 0real,
    ensures h(p) == h(q),
{
    if p < q { let c = an_lagrange(h, dh, h2, p, q); assert((q - p) * 0real == 0real) by (nonlinear_arith); assert(h2(c) == 0real); }
    if q < p { let c = an_lagrange(h, dh, h2, q, p); assert((p - q) * 0real == 0real) by (nonlinear_arith); assert(h2(c) == 0real); }
}
/// Pythagoras
proof fn lemma_circle(t: real)
    ensures rsin(t) * rsin(t) + rcos(t) * rcos(t) == 1real,
{
    broadcast use real_functions;
    let s2: RF = |t: real| rsin(t) * rsin(t); let c2: RF = |t: real| rcos(t) * rcos(t);
    let h: RF = |t: real| s2(t) + c2(t);
    let h2: RF = |t: real| (rcos(t) * rsin(t) + rsin(t) * rcos(t)) + ((-rsin(t)) * rcos(t) + rcos(t) * (-rsin(t)));
    assert forall|t: real| diff_at(h, all_reals(), t, #[trigger] h2(t)) && h2(t) == 0real by {
        ax_diff_sin(t); ax_diff_cos(t); an_inside_all(all_reals(), t);
        an_diff_prod(fn_sin(), all_reals(), rcos(t), fn_sin(), all_reals(), rcos(t), s2, all_reals(), t);
        an_diff_prod(fn_cos(), all_reals(), -rsin(t), fn_cos(), all_reals(), -rsin(t), c2, all_reals(), t);
        an_diff_sum(1real, s2, all_reals(), rcos(t) * rsin(t) + rsin(t) * rcos(t), 1real, c2, all_reals(), (-rsin(t)) * rcos(t) + rcos(t) * (-rsin(t)), h, all_reals(), t);
        let s = rsin(t); let c = rcos(t);
        assert((c * s + s * c) + ((-s) * c + c * (-s)) == 0real) by (nonlinear_arith);
    }
    an_constant(h, all_reals(), h2, 0real, t);
    assert(h(0real) == 1real) by { let s = rsin(0real); let c = rcos(0real); assert(s * s + c * c == 1real) by (nonlinear_arith) requires s == 0real, c == 1real; }
    assert(h(t) == rsin(t) * rsin(t) + rcos(t) * rcos(t));
}
/// the law of exponents
proof fn lemma_exp_add(x: real, y: real)
    ensures rexp(x + y) == rexp(x) * rexp(y),
{
    broadcast use real_functions;
    let s = x + y;
    let cs: RF = |t: real| s; let id: RF = |t: real| t; let r: RF = |t: real| s - t; let er: RF = |t: real| rexp(s - t);
    let h: RF = |t: real| rexp(t) * rexp(s - t);
    let h2: RF = |t: real| rexp(t) * rexp(s - t) + rexp(t) * (rexp(s - t) * (0real - 1real));
    assert forall|t: real| diff_at(h, all_reals(), t, #[trigger] h2(t)) && h2(t) == 0real by {
        an_inside_all(all_reals(), t);
        an_diff_const(cs, all_reals(), t); an_diff_id(id, all_reals(), t);
        an_diff_sum(1real, cs, all_reals(), 0real, -1real, id, all_reals(), 1real, r, all_reals(), t);
        ax_diff_exp(r(t)); ax_diff_exp(t);
        assert(0real - 1real == 0real + -1real);
        an_diff_chain(fn_exp(), all_reals(), rexp(s - t), r, all_reals(), 0real - 1real, er, all_reals(), t);
        an_diff_prod(fn_exp(), all_reals(), rexp(t), er, all_reals(), rexp(s - t) * (0real - 1real), h, all_reals(), t);
        let p = rexp(t); let q = rexp(s - t);
        assert(p * q + p * (q * (0real - 1real)) == 0real) by (nonlinear_arith);
    }
    an_constant(h, all_reals(), h2, x, s);
    let e = rexp(s);
    assert(s - s == 0real && s - x == y);
    assert(e * 1real == e) by (nonlinear_arith);
    assert(h(s) == rexp(s) * rexp(s - s)); assert(h(x) == rexp(x) * rexp(s - x));
}
proof fn lemma_exp_rises(p: real, q: real)
    requires p < q,
    ensures rexp(p) < rexp(q),
{
    broadcast use real_functions;
    let h2: RF = |t: real| rexp(t);
    assert forall|t: real| in_seg(p, q, t) implies diff_at(fn_exp(), all_reals(), t, #[trigger] h2(t)) by { ax_diff_exp(t); }
    let c = an_lagrange(fn_exp(), all_reals(), h2, p, q);
    let d = q - p; let e = rexp(c);
    assert(d * e > 0real) by (nonlinear_arith) requires d > 0real, e > 0real;
}
/// the derivative of the inverse of exp
proof fn lemma_diff_ln(l: real)
    requires l > 0real,
    ensures diff_at(fn_ln(), positive_reals(), l, 1real / l),
{
    broadcast use real_functions;
    let m = rln(l); let pr = positive_reals();
    assert(rexp(m) == l);
    let s = slope(fn_exp(), m); let g: RF = |t: real| s(rln(t));
    assert forall|e: real| #[trigger] pos(e) implies exists|d: real| #[trigger] an_close(g, pr, l, l, e, d) by {
        ax_diff_exp(m);
        let k = tends_at(s, all_reals(), m, l, e);
        lemma_exp_rises(m, m + k); lemma_exp_rises(m - k, m);
        let d = rmin(rexp(m + k) - l, l - rexp(m - k));
        assert forall|t: real| #[trigger] pr(t) && an_near(l, d, t) implies rabs(g(t) - l) < e by {
            let u = rln(t);
            assert(rexp(u) == t);
            if u >= m + k { if u > m + k { lemma_exp_rises(m + k, u); } }
            if u <= m - k { if u < m - k { lemma_exp_rises(u, m - k); } }
            assert(u != m);
            assert(an_near(m, k, u)); assert(all_reals()(u));
        }
        assert(an_close(g, pr, l, l, e, d));
    }
    assert(tends(g, pr, l, l)) by { reveal(tends); }
    let h = slope(fn_ln(), l);
    assert forall|t: real| #[trigger] pr(t) && t != l implies pr(t) && g(t) != 0real && h(t) == 1real / g(t) by {
        let u = rln(t);
        assert(rexp(u) == t);
        assert(u != m);
        let x = t - l; let y = u - m; let z = x / y;
        assert(g(t) == z);
        lemma_div_cancel(x, y);
        assert(z != 0real) by (nonlinear_arith) requires z * y == x, x != 0real;
        assert(y / x == 1real / z) by (nonlinear_arith) requires z * y == x, x != 0real, z != 0real;
        assert(h(t) == y / x);
    }
    assert(recip_on(g, pr, h, pr, l));
    an_recip_tends(g, pr, l, h, pr, l);
    assert(holds_within(pr, l, l));
    assert(inside(pr, l)) by { reveal(inside); }
}
