//@ raw
// ===== rationals: mathematical meaning and number theory ===================
/// the real number n/d
pub open spec fn rat(n: int, d: int) -> real { n as real / d as real }

/// greatest common divisor (Euclid), and the facts that make it one
pub open spec fn gcd_spec(a: nat, b: nat) -> nat
    decreases b
{
    if b == 0 { a } else { gcd_spec(b, (a % b) as nat) }
}
pub open spec fn divides(d: nat, n: nat) -> bool { exists|k: nat| #[trigger] (d * k) == n }

pub open spec fn qwf(q: RationalNum) -> bool { q.sign == 1 || q.sign == -1 }
pub open spec fn qdef(q: RationalNum) -> bool { q.denominator != 0 }
pub open spec fn qnum(q: RationalNum) -> int { q.sign * q.nominator }
pub open spec fn qval(q: RationalNum) -> real { rat(q.sign * q.nominator, q.denominator as int) }
/// lowest terms
pub open spec fn qred(q: RationalNum) -> bool { gcd_spec(q.nominator as nat, q.denominator as nat) == 1 }

pub proof fn lemma_mulcast(a: int, b: int)
    by (nonlinear_arith)
    ensures (a * b) as real == (a as real) * (b as real)
{}

pub proof fn lemma_rat_eq(n1: int, d1: int, n2: int, d2: int)
    requires d1 != 0, d2 != 0,
    ensures (n1 * d2 == n2 * d1) <==> rat(n1, d1) == rat(n2, d2),
{
    lemma_mulcast(n1, d2); lemma_mulcast(n2, d1);
    let a = n1 as real; let b = d1 as real; let c = n2 as real; let d = d2 as real;
    if n1 * d2 == n2 * d1 {
        assert(a / b == c / d) by (nonlinear_arith) requires b != 0real, d != 0real, a * d == c * b;
    }
    if rat(n1, d1) == rat(n2, d2) {
        assert(a * d == c * b) by (nonlinear_arith) requires b != 0real, d != 0real, a / b == c / d;
    }
}
pub proof fn lemma_rat_scale(k: int, n: int, d: int)
    requires k != 0, d != 0,
    ensures rat(k * n, k * d) == rat(n, d),
{
    assert(k * d != 0) by (nonlinear_arith) requires k != 0, d != 0;
    assert((k * n) * d == n * (k * d)) by (nonlinear_arith);
    lemma_rat_eq(k * n, k * d, n, d);
}
pub proof fn lemma_rat_add(n1: int, d1: int, n2: int, d2: int)
    requires d1 != 0, d2 != 0,
    ensures d1 * d2 != 0,
        rat(n1, d1) + rat(n2, d2) == rat(n1 * d2 + d1 * n2, d1 * d2),
        rat(n1, d1) - rat(n2, d2) == rat(n1 * d2 - d1 * n2, d1 * d2),
{
    lemma_mulcast(n1, d2); lemma_mulcast(d1, n2); lemma_mulcast(d1, d2);
    assert(d1 * d2 != 0) by (nonlinear_arith) requires d1 != 0, d2 != 0;
    let a = n1 as real; let b = d1 as real; let c = n2 as real; let d = d2 as real;
    assert((n1 * d2 + d1 * n2) as real == a * d + b * c);
    assert((n1 * d2 - d1 * n2) as real == a * d - b * c);
    assert(a / b + c / d == (a * d + b * c) / (b * d)) by (nonlinear_arith) requires b != 0real, d != 0real;
    assert(a / b - c / d == (a * d - b * c) / (b * d)) by (nonlinear_arith) requires b != 0real, d != 0real;
}
pub proof fn lemma_rat_mul(n1: int, d1: int, n2: int, d2: int)
    requires d1 != 0, d2 != 0,
    ensures d1 * d2 != 0, rat(n1, d1) * rat(n2, d2) == rat(n1 * n2, d1 * d2),
{
    lemma_mulcast(n1, n2); lemma_mulcast(d1, d2);
    assert(d1 * d2 != 0) by (nonlinear_arith) requires d1 != 0, d2 != 0;
    let a = n1 as real; let b = d1 as real; let c = n2 as real; let d = d2 as real;
    assert((a / b) * (c / d) == (a * c) / (b * d)) by (nonlinear_arith) requires b != 0real, d != 0real;
}
pub proof fn lemma_rat_div(n1: int, d1: int, n2: int, d2: int)
    requires d1 != 0, d2 != 0, n2 != 0,
    ensures d1 * n2 != 0, rat(n2, d2) != 0real, rat(n1, d1) / rat(n2, d2) == rat(n1 * d2, d1 * n2),
{
    lemma_mulcast(n1, d2); lemma_mulcast(d1, n2);
    assert(d1 * n2 != 0) by (nonlinear_arith) requires d1 != 0, n2 != 0;
    let a = n1 as real; let b = d1 as real; let c = n2 as real; let d = d2 as real;
    assert((a / b) / (c / d) == (a * d) / (b * c)) by (nonlinear_arith) requires b != 0real, d != 0real, c != 0real;
    assert(c / d != 0real) by (nonlinear_arith) requires c != 0real, d != 0real;
}
pub proof fn lemma_rat_sign(n: int, d: int)
    requires d > 0,
    ensures (rat(n, d) == 0real) <==> n == 0, (rat(n, d) > 0real) <==> n > 0, (rat(n, d) < 0real) <==> n < 0,
        (rat(n, d) == 1real) <==> n == d,
{
    let a = n as real; let b = d as real;
    assert((a / b == 0real) <==> a == 0real) by (nonlinear_arith) requires b > 0real;
    assert((a / b > 0real) <==> a > 0real) by (nonlinear_arith) requires b > 0real;
    assert((a / b < 0real) <==> a < 0real) by (nonlinear_arith) requires b > 0real;
    assert((a / b == 1real) <==> a == b) by (nonlinear_arith) requires b > 0real;
}
pub proof fn lemma_rat_neg(s: int, n: int, d: int)
    requires d != 0,
    ensures rat((-s) * n, d) == -rat(s * n, d),
{
    assert((-s) * n == -(s * n)) by (nonlinear_arith);
    let x = (s * n) as real; let b = d as real;
    assert((-(s * n)) as real == -x);
    assert((-x) / b == -(x / b)) by (nonlinear_arith) requires b != 0real;
}
pub proof fn lemma_rat_one(n: int)
    ensures rat(n, 1) == n as real,
{
    let a = n as real;
    assert(a / 1real == a) by (nonlinear_arith);
}

// ----- gcd ------------------------------------------------------------------
pub proof fn lemma_gcd_pos(a: nat, b: nat)
    ensures gcd_spec(a, b) == 0 <==> (a == 0 && b == 0),
    decreases b
{
    if b != 0 { lemma_gcd_pos(b, (a % b) as nat); }
}
pub proof fn lemma_gcd_sym(a: nat, b: nat)
    ensures gcd_spec(a, b) == gcd_spec(b, a),
{
    if a < b { vstd::arithmetic::div_mod::lemma_small_mod(a, b); } else if b < a { vstd::arithmetic::div_mod::lemma_small_mod(b, a); }
}
pub proof fn lemma_gcd_scale(k: nat, a: nat, b: nat)
    ensures gcd_spec(k * a, k * b) == k * gcd_spec(a, b),
    decreases b
{
    if k == 0 {
        assert(k * a == 0 && k * b == 0 && k * gcd_spec(a, b) == 0) by (nonlinear_arith) requires k == 0;
    } else if b == 0 {
        assert(k * b == 0) by (nonlinear_arith) requires b == 0;
    } else {
        let q = (a as int) / (b as int);
        let m = (a as int) % (b as int);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a as int, b as int);
        vstd::arithmetic::div_mod::lemma_mod_bound(a as int, b as int);
        assert(k * a == q * (k * b) + k * m) by (nonlinear_arith) requires a as int == (b as int) * q + m;
        assert(0 <= k * m < k * b) by (nonlinear_arith) requires 0 <= m < b, k > 0;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse((k * a) as int, (k * b) as int, q, k * m);
        lemma_gcd_scale(k, b, m as nat);
        assert((k * a) % (k * b) == k * m);
    }
}
/// gcd_spec(a, b) divides both arguments
pub proof fn lemma_gcd_divides(a: nat, b: nat)
    requires a != 0 || b != 0,
    ensures
        gcd_spec(a, b) > 0,
        a as int == gcd_spec(a, b) * (a as int / gcd_spec(a, b) as int),
        b as int == gcd_spec(a, b) * (b as int / gcd_spec(a, b) as int),
    decreases b
{
    lemma_gcd_pos(a, b);
    let g = gcd_spec(a, b) as int;
    if b == 0 {
        assert(a as int / a as int == 1) by (nonlinear_arith) requires a != 0;
        assert(0int / g == 0) by (nonlinear_arith) requires g != 0;
        assert(a as int == g * 1 && g * 0 == 0);
    } else {
        let m = (a as int) % (b as int);
        let q = (a as int) / (b as int);
        lemma_gcd_divides(b, m as nat);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a as int, b as int);
        let bb = (b as int) / g;
        let mm = m / g;
        assert(a as int == g * (bb * q + mm)) by (nonlinear_arith)
            requires a as int == (b as int) * q + m, b as int == g * bb, m == g * mm;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(a as int, g, bb * q + mm, 0);
    }
}
/// ... and is the greatest such number
pub proof fn lemma_gcd_greatest(a: nat, b: nat, d: nat)
    requires divides(d, a), divides(d, b),
    ensures divides(d, gcd_spec(a, b)),
{
    let x = choose|k: nat| #[trigger] (d * k) == a;
    let y = choose|k: nat| #[trigger] (d * k) == b;
    lemma_gcd_scale(d, x, y);
    assert(d * gcd_spec(x, y) == gcd_spec(a, b));
}
/// dividing by the gcd leaves a fraction in lowest terms of the same value
pub proof fn lemma_reduced(a: nat, b: nat)
    requires a != 0 || b != 0,
    ensures
        gcd_spec(a, b) > 0,
        gcd_spec((a as int / gcd_spec(a, b) as int) as nat, (b as int / gcd_spec(a, b) as int) as nat) == 1,
        (b as int / gcd_spec(a, b) as int) == 0 <==> b == 0,
        (a as int / gcd_spec(a, b) as int) == 0 <==> a == 0,
        b != 0 ==> forall|s: int| rat(s * (a as int / gcd_spec(a, b) as int), b as int / gcd_spec(a, b) as int) == #[trigger] rat(s * a, b as int),
{
    lemma_gcd_divides(a, b);
    let g = gcd_spec(a, b) as int;
    let x = a as int / g;
    let y = b as int / g;
    assert(x >= 0 && y >= 0) by (nonlinear_arith) requires g > 0, x == a as int / g, y == b as int / g, a >= 0, b >= 0;
    lemma_gcd_scale(g as nat, x as nat, y as nat);
    assert(gcd_spec(x as nat, y as nat) == 1) by (nonlinear_arith) requires g == g * gcd_spec(x as nat, y as nat), g > 0;
    assert(y == 0 ==> b == 0) by (nonlinear_arith) requires b as int == g * y;
    assert(b == 0 ==> y == 0) by (nonlinear_arith) requires g > 0, y == b as int / g;
    assert(x == 0 ==> a == 0) by (nonlinear_arith) requires a as int == g * x;
    assert(a == 0 ==> x == 0) by (nonlinear_arith) requires g > 0, x == a as int / g;
    if b != 0 {
        assert forall|s: int| rat(s * x, y) == #[trigger] rat(s * a, b as int) by {
            lemma_rat_scale(g, s * x, y);
            assert(g * (s * x) == s * a) by (nonlinear_arith) requires a as int == g * x;
        }
    }
}
/// two fractions in lowest terms with the same value are the same fraction
pub proof fn lemma_reduced_unique(n1: nat, d1: nat, n2: nat, d2: nat)
    requires gcd_spec(n1, d1) == 1, gcd_spec(n2, d2) == 1, n1 * d2 == n2 * d1, d1 > 0, d2 > 0,
    ensures n1 == n2, d1 == d2,
{
    lemma_gcd_scale(d2, n1, d1);
    lemma_gcd_scale(d1, n2, d2);
    assert(d2 * n1 == d1 * n2 && d2 * d1 == d1 * d2) by (nonlinear_arith) requires n1 * d2 == n2 * d1;
    assert(d2 == d1);
    assert(n1 == n2) by (nonlinear_arith) requires n1 * d2 == n2 * d1, d1 == d2, d1 > 0;
}

/// a fraction in lowest terms whose value is whole has denominator one
pub open spec fn whole(q: RationalNum, k: int) -> bool { q.denominator == 1 && q.sign * q.nominator == k && q.nominator == iabs(k) && (k != 0 ==> q.sign == sgn(k)) }
pub proof fn lemma_whole(q: RationalNum, k: int)
    requires qwf(q), qdef(q), qred(q), qval(q) == k as real,
    ensures whole(q, k),
{
    let n = q.nominator as int; let d = q.denominator as int; let sn = q.sign * n;
    let x = sn as real; let y = d as real; let z = k as real;
    assert(x == z * y) by (nonlinear_arith) requires x / y == z, y > 0real;
    assert(sn == k * d) by (nonlinear_arith) requires sn as real == (k as real) * (d as real);
    let m = iabs(k);
    assert(n == m * d && n * 1 == m * d) by (nonlinear_arith) requires q.sign * n == k * d, q.sign == 1 || q.sign == -1, n >= 0, d > 0, m == iabs(k);
    reveal_with_fuel(gcd_spec, 3);
    assert(gcd_spec(m as nat, 1) == 1);
    lemma_reduced_unique(q.nominator as nat, q.denominator as nat, m as nat, 1);
    assert(q.sign * n == k) by (nonlinear_arith) requires q.sign * n == k * d, d == 1;
    assert(k != 0 ==> q.sign == sgn(k)) by (nonlinear_arith) requires q.sign * n == k, n >= 0, q.sign == 1 || q.sign == -1;
}
pub proof fn lemma_whole_back(q: RationalNum, k: int)
    requires q.denominator == 1, q.nominator == iabs(k), q.sign == 1 || q.sign == -1, k != 0 ==> q.sign == sgn(k),
    ensures qred(q), qval(q) == k as real,
{
    reveal_with_fuel(gcd_spec, 3);
    assert(q.sign * q.nominator == k) by (nonlinear_arith) requires q.nominator == iabs(k), q.sign == 1 || q.sign == -1, k != 0 ==> q.sign == sgn(k);
    lemma_rat_one(k);
}
/// whole fractions in lowest terms, both ways
pub open spec fn whole_at(q: RationalNum, k: int) -> bool { q.denominator == 1 && q.nominator == iabs(k) && (k != 0 ==> q.sign == sgn(k)) }
pub proof fn lemma_wholes(k: int)
    ensures forall|q: RationalNum| #![trigger qred(q)] #![trigger qval(q)] (q.sign == 1 || q.sign == -1) ==> (qred(q) && qdef(q) && qval(q) == k as real <==> whole_at(q, k)),
{
    assert forall|q: RationalNum| #![trigger qred(q)] #![trigger qval(q)] (q.sign == 1 || q.sign == -1) implies (qred(q) && qdef(q) && qval(q) == k as real <==> whole_at(q, k)) by {
        if qred(q) && qdef(q) && qval(q) == k as real { lemma_whole(q, k); }
        if whole_at(q, k) { lemma_whole_back(q, k); }
    }
}

// ----- facts about the four operations, stated on the operands --------------
pub proof fn lemma_q_ops(a: RationalNum, b: RationalNum)
    requires qwf(a), qwf(b),
    ensures ({
        let an = a.nominator as int; let ad = a.denominator as int; let bn = b.nominator as int; let bd = b.denominator as int;
        let s = (an * bd) * a.sign + (ad * bn) * b.sign;
        let t = (an * bd) * a.sign - (ad * bn) * b.sign;
        &&& (ad * bd == 0 <==> ad == 0 || bd == 0)
        &&& (ad * bn == 0 <==> ad == 0 || bn == 0)
        &&& ad * bd >= 0 &&& an * bn >= 0 &&& an * bd >= 0 &&& ad * bn >= 0
        &&& (a.sign * b.sign == 1 || a.sign * b.sign == -1)
        &&& sgn(s) * iabs(s) == s && 1 * iabs(0) == 0
        &&& sgn(t) * iabs(t) == t
        &&& (qdef(a) && qdef(b) ==> qval(a) + qval(b) == rat(s, ad * bd) && qval(a) - qval(b) == rat(t, ad * bd)
            && qval(a) * qval(b) == rat((a.sign * b.sign) * (an * bn), ad * bd)
            && (bn != 0 ==> qval(b) != 0real && qval(a) / qval(b) == rat((a.sign * b.sign) * (an * bd), ad * bn)))
        &&& (qdef(b) && bn == 0 ==> qval(b) == 0real)
    }),
{
    let an = a.nominator as int; let ad = a.denominator as int; let bn = b.nominator as int; let bd = b.denominator as int;
    let sa = a.sign as int; let sb = b.sign as int;
    assert(ad * bd == 0 <==> ad == 0 || bd == 0) by (nonlinear_arith);
    assert(ad * bn == 0 <==> ad == 0 || bn == 0) by (nonlinear_arith);
    assert(ad * bd >= 0 && an * bn >= 0 && an * bd >= 0 && ad * bn >= 0) by (nonlinear_arith) requires ad >= 0, bd >= 0, an >= 0, bn >= 0;
    assert(sa * sb == 1 || sa * sb == -1) by (nonlinear_arith) requires sa == 1 || sa == -1, sb == 1 || sb == -1;
    let s = (an * bd) * sa + (ad * bn) * sb;
    let t = (an * bd) * sa - (ad * bn) * sb;
    assert(sgn(s) * iabs(s) == s) by (nonlinear_arith);
    assert(sgn(t) * iabs(t) == t) by (nonlinear_arith);
    if qdef(a) && qdef(b) {
        lemma_rat_add(sa * an, ad, sb * bn, bd);
        assert((sa * an) * bd == (an * bd) * sa) by (nonlinear_arith);
        assert(ad * (sb * bn) == (ad * bn) * sb) by (nonlinear_arith);
        lemma_rat_mul(sa * an, ad, sb * bn, bd);
        assert((sa * an) * (sb * bn) == (sa * sb) * (an * bn)) by (nonlinear_arith);
        if bn != 0 {
            assert(sb * bn != 0) by (nonlinear_arith) requires sb == 1 || sb == -1, bn != 0;
            lemma_rat_div(sa * an, ad, sb * bn, bd);
            // move the sign of the denominator into the numerator
            lemma_rat_scale(sb, (sa * an) * bd, ad * (sb * bn));
            assert(sb * ((sa * an) * bd) == (sa * sb) * (an * bd)) by (nonlinear_arith);
            assert(sb * (ad * (sb * bn)) == ad * bn) by (nonlinear_arith) requires sb == 1 || sb == -1;
        }
    }
    if qdef(b) && bn == 0 {
        assert(sb * bn == 0) by (nonlinear_arith) requires bn == 0;
        lemma_rat_sign(0, bd);
    }
}
/// sign and zero-ness of a valid rational
pub proof fn lemma_q_sign(q: RationalNum)
    requires qwf(q), qdef(q),
    ensures
        qval(q) == 0real <==> q.nominator == 0,
        qval(q) > 0real <==> (q.nominator != 0 && q.sign == 1),
        qval(q) < 0real <==> (q.nominator != 0 && q.sign == -1),
        qval(q) == 1real <==> (q.sign == 1 && q.nominator == q.denominator),
        qnum(q) == q.nominator || qnum(q) == -q.nominator,
{
    let s = q.sign as int; let n = q.nominator as int;
    assert(s == 1 ==> s * n == n) by (nonlinear_arith);
    assert(s == -1 ==> s * n == -n) by (nonlinear_arith);
    lemma_rat_sign(s * n, q.denominator as int);
}

//@ fn gcd (a: u64, b: u64) -> r: u64
    ensures r as nat == gcd_spec(a as nat, b as nat),
    decreases b,
//@ role X = arg rem.0
//@ role Y = arg rem.1
//@ entry
    let ghost a0 = a; let ghost b0 = b;
    proof { reveal_with_fuel(gcd_spec, 3); lemma_gcd_sym(a as nat, b as nat); }
//@ loop 0 any?
    invariant gcd_spec(${X} as nat, ${Y} as nat) == gcd_spec(a0 as nat, b0 as nat),
    decreases ${Y},

//@ fn RationalNum::reduce (self: & Self) -> r: Self
    ensures qdef(r) == qdef(*self), r.sign == self.sign,
        (r.nominator == 0) == (self.nominator == 0),
        qdef(*self) ==> qred(r) && qval(r) == qval(*self),
//@ entry
    proof {
        if self.nominator != 0 || self.denominator != 0 { lemma_reduced(self.nominator as nat, self.denominator as nat); }
        lemma_gcd_pos(self.nominator as nat, self.denominator as nat);
        if qdef(*self) { assert(rat(self.sign * self.nominator, self.denominator as int) == qval(*self)); }
    }

//@ fn RationalNum::new (sign: i64, nominator: u64, denominator: u64) -> r: Option<RationalNum>
    ensures
        r.is_some() <==> ((sign == 1 || sign == -1) && denominator != 0),
        r matches Some(q) ==> qwf(q) && qdef(q) && qval(q) == rat(sign * nominator, denominator as int),

//@ fn RationalNum::new_positive (nominator: u64, denominator: u64) -> r: Option<RationalNum>
    ensures
        r.is_some() <==> denominator != 0,
        r matches Some(q) ==> qwf(q) && qdef(q) && qval(q) == rat(nominator as int, denominator as int),

//@ fn RationalNum::new_negative (nominator: u64, denominator: u64) -> r: Option<RationalNum>
    ensures
        r.is_some() <==> denominator != 0,
        r matches Some(q) ==> qwf(q) && qdef(q) && qval(q) == rat(-nominator, denominator as int),

//@ fn RationalNum::to_f64 (self: & Self) -> r: f64
    ensures float_ideal() && qdef(*self) ==> fr(r) == qval(*self),
//@ entry
    proof {
        lemma_mulcast(self.sign as int, self.nominator as int);
    }

//@ raw
/// equality is specified by its own contract below, not as structural equality
impl vstd::std_specs::cmp::PartialEqSpecImpl for RationalNum {
    open spec fn obeys_eq_spec() -> bool { false }
    open spec fn eq_spec(&self, other: &Self) -> bool { true }
}
/// same value, both in lowest terms: same fraction
pub proof fn lemma_q_eq(a: RationalNum, b: RationalNum)
    requires qwf(a), qwf(b), qdef(a), qdef(b), qred(a), qred(b),
    ensures (qval(a) == qval(b)) <==> ((a.sign == b.sign && a.nominator == b.nominator && a.denominator == b.denominator) || (a.nominator == 0 && b.nominator == 0)),
{
    lemma_q_sign(a); lemma_q_sign(b);
    if qval(a) == qval(b) && a.nominator != 0 {
        lemma_rat_eq(a.sign * a.nominator, a.denominator as int, b.sign * b.nominator, b.denominator as int);
        assert(a.nominator * b.denominator == b.nominator * a.denominator) by (nonlinear_arith)
            requires (a.sign * a.nominator) * b.denominator == (b.sign * b.nominator) * a.denominator, a.sign == b.sign, a.sign == 1 || a.sign == -1;
        lemma_reduced_unique(a.nominator as nat, a.denominator as nat, b.nominator as nat, b.denominator as nat);
    }
}

//@ fn <RationalNum as PartialEq>::eq (self: & Self, other: & Self) -> r: bool
    ensures qwf(*self) && qwf(*other) && qdef(*self) && qdef(*other) ==> r == (qval(*self) == qval(*other)),
//@ entry
    proof {
        assert forall|a: RationalNum, b: RationalNum| #![trigger qred(a), qred(b)] qwf(a) && qwf(b) && qdef(a) && qdef(b) && qred(a) && qred(b) implies
            ((qval(a) == qval(b)) <==> ((a.sign == b.sign && a.nominator == b.nominator && a.denominator == b.denominator) || (a.nominator == 0 && b.nominator == 0)))
        by { lemma_q_eq(a, b); }
    }

//@ in impl <RationalNum as Neg>
    open spec fn neg_ok(self) -> bool { qwf(self) }
//@ fn <RationalNum as Neg>::neg (self: Self) -> r: RationalNum
    ensures qwf(r), qdef(r) == qdef(self), r.nominator == self.nominator,
        qdef(self) ==> qval(r) == -qval(self) && (qred(self) ==> qred(r)),
//@ entry
    proof { if qdef(self) { lemma_rat_neg(self.sign as int, self.nominator as int, self.denominator as int); } }

//@ in impl <RationalNum as Add>
    open spec fn add_ok(self, r: Self) -> bool { qwf(self) && qwf(r) }
//@ fn <RationalNum as Add>::add (self: Self, rhs: Self) -> o: RationalNum
    ensures qwf(o), qdef(o) == (qdef(self) && qdef(rhs)),
        qdef(o) ==> qred(o) && qval(o) == qval(self) + qval(rhs),
//@ entry
    proof { lemma_q_ops(self, rhs); }

//@ in impl <RationalNum as Sub>
    open spec fn sub_ok(self, r: Self) -> bool { qwf(self) && qwf(r) }
//@ fn <RationalNum as Sub>::sub (self: Self, rhs: Self) -> o: RationalNum
    ensures qwf(o), qdef(o) == (qdef(self) && qdef(rhs)),
        qdef(o) ==> qred(o) && qval(o) == qval(self) - qval(rhs),
//@ entry
    proof { lemma_q_ops(self, rhs); }

//@ in impl <RationalNum as Mul>
    open spec fn mul_ok(self, r: Self) -> bool { qwf(self) && qwf(r) }
//@ fn <RationalNum as Mul>::mul (self: Self, rhs: Self) -> o: RationalNum
    ensures qwf(o), qdef(o) == (qdef(self) && qdef(rhs)),
        qdef(o) ==> qred(o) && qval(o) == qval(self) * qval(rhs),
//@ entry
    proof { lemma_q_ops(self, rhs); }

//@ in impl <RationalNum as Div>
    open spec fn div_ok(self, r: Self) -> bool { qwf(self) && qwf(r) }
//@ fn <RationalNum as Div>::div (self: Self, rhs: Self) -> o: RationalNum
    ensures qwf(o), qdef(self) && qdef(rhs) ==> qdef(o) == (qval(rhs) != 0real),
        qdef(self) && qdef(rhs) && qdef(o) ==> qred(o) && qval(o) == qval(self) / qval(rhs),
//@ entry
    proof { lemma_q_ops(self, rhs); }

//@ in impl <RationalNum as From<u64>>
    open spec fn from_ens(v: u64, r: Self) -> bool { qwf(r) && qdef(r) && qval(r) == v as int as real && qred(r) }
//@ fn <RationalNum as From<u64>>::from (v: u64) -> r: Self
//@ entry
    proof { lemma_wholes(v as int); lemma_wholes(1); }

//@ in impl <RationalNum as From<i64>>
    open spec fn from_ens(v: i64, r: Self) -> bool { qwf(r) && qdef(r) && qval(r) == v as int as real && qred(r) }
//@ fn <RationalNum as From<i64>>::from (v: i64) -> r: Self
//@ entry
    proof {
        lemma_wholes(v as int); lemma_wholes(iabs(v as int)); lemma_wholes(1);
    }
