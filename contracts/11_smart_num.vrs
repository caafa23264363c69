//@ raw
// ===== SmartNumVal / SmartNum: values and the classification invariant =====
pub open spec fn exact(v: SmartNumVal) -> bool { !(v is Real) }
pub open spec fn vwf(v: SmartNumVal) -> bool {
    match v { SmartNumVal::Rational(q) => qwf(q), _ => true }
}
/// does the number denote a real number? (a float does so only under the float hypothesis)
pub open spec fn vdef(v: SmartNumVal) -> bool {
    match v { SmartNumVal::Integer(_) => true, SmartNumVal::Rational(q) => qdef(q), SmartNumVal::Real(_) => float_ideal() }
}
pub open spec fn vval(v: SmartNumVal) -> real {
    match v { SmartNumVal::Integer(i) => i as int as real, SmartNumVal::Rational(q) => qval(q), SmartNumVal::Real(f) => fr(f) }
}
pub open spec fn vzero(v: SmartNumVal) -> bool { exact(v) && vdef(v) && vval(v) == 0real }
pub open spec fn vone(v: SmartNumVal) -> bool { exact(v) && vdef(v) && vval(v) == 1real }

pub open spec fn ndef(n: SmartNum) -> bool { vdef(n.value) }
pub open spec fn nval(n: SmartNum) -> real { vval(n.value) }
/// the tag always agrees with the value
pub open spec fn nwf(n: SmartNum) -> bool {
    &&& vwf(n.value)
    &&& (n.tag == ConstType::Zero <==> vzero(n.value))
    &&& (n.tag == ConstType::One <==> vone(n.value))
    &&& (n.tag == ConstType::Pi ==> n.value == SmartNumVal::Real(f64_pi_spec()) && (float_ideal() ==> nval(n) == real_pi()))
    &&& (n.tag == ConstType::E ==> n.value == SmartNumVal::Real(f64_e_spec()) && (float_ideal() ==> nval(n) == real_e()))
}
/// `r` is the number object for the plain value `v`
pub open spec fn num_of(v: SmartNumVal, r: SmartNum) -> bool { r.value == v && (vwf(v) ==> nwf(r)) }
/// same number up to representation
pub open spec fn vsame(a: SmartNumVal, b: SmartNumVal) -> bool { vwf(b) && (exact(a) ==> exact(b)) && vdef(a) == vdef(b) && (vdef(a) ==> vval(a) == vval(b)) }
pub open spec fn real_sgn(x: real) -> int { if x > 0real { 1 } else if x < 0real { -1 } else { 0 } }

/// result of an operation on numbers: exact operands give an exact result, defined ones a defined result `x`
pub open spec fn vres(a: SmartNumVal, b: SmartNumVal, o: SmartNumVal, ok: bool, x: real) -> bool {
    &&& vwf(o)
    &&& (exact(a) && exact(b) ==> exact(o))
    &&& (vdef(a) && vdef(b) && ok ==> vdef(o) && vval(o) == x)
}
/// real arithmetic facts used by the shortcuts of the operations
pub proof fn lemma_real_units(x: real)
    ensures 0real + x == x, x + 0real == x, x - 0real == x, 0real - x == -x, x * 0real == 0real, 0real * x == 0real,
        x * 1real == x, 1real * x == x, x / 1real == x, x != 0real ==> 0real / x == 0real, -(-x) == x,
{
    assert(x * 0real == 0real && 0real * x == 0real && x * 1real == x && 1real * x == x && x / 1real == x) by (nonlinear_arith);
    assert(x != 0real ==> 0real / x == 0real) by (nonlinear_arith);
}
pub proof fn lemma_int_ops(i: int, j: int)
    ensures (i + j) as real == i as real + j as real, (i - j) as real == i as real - j as real, (i * j) as real == i as real * j as real,
        (-i) as real == -(i as real), (i as real == 0real) <==> i == 0, (i as real == 1real) <==> i == 1,
{ lemma_mulcast(i, j); }
pub proof fn lemma_vsign(v: SmartNumVal)
    requires vwf(v),
    ensures
        v matches SmartNumVal::Rational(q) ==> (qdef(q) ==> (qval(q) == 0real <==> q.nominator == 0)
            && (qval(q) == 1real <==> (q.sign == 1 && q.nominator == q.denominator))
            && (qval(q) > 0real <==> (q.nominator != 0 && q.sign == 1)) && (qval(q) < 0real <==> (q.nominator != 0 && q.sign == -1))),
{
    if let SmartNumVal::Rational(q) = v { if qdef(q) { lemma_q_sign(q); } }
}
pub proof fn lemma_vops(a: SmartNumVal, b: SmartNumVal)
    requires vwf(a), vwf(b),
    ensures true,
{ }

//@ fn SmartNumVal::is_zero (self: &Self) -> r: bool
    ensures vwf(*self) ==> r == vzero(*self),
//@ entry
    proof { if vwf(*self) { lemma_vsign(*self); } }

//@ fn SmartNumVal::is_one (self: &Self) -> r: bool
    ensures vwf(*self) ==> r == vone(*self),
//@ entry
    proof { if vwf(*self) { lemma_vsign(*self); } }

//@ fn SmartNumVal::to_i64 (self: &Self) -> r: Option<i64>
    ensures
        r.is_some() <==> self is Integer,
        r matches Some(i) ==> vval(*self) == i as int as real,

//@ fn SmartNumVal::to_f64 (self: &Self) -> r: f64
    ensures
        float_ideal() && vdef(*self) ==> fr(r) == vval(*self),
        *self matches SmartNumVal::Real(f) ==> r == f,

//@ fn SmartNumVal::new_rational (sign: i64, nominator: u64, denominator: u64) -> r: Option<SmartNumVal>
    ensures
        r.is_some() <==> ((sign == 1 || sign == -1) && denominator != 0),
        r matches Some(v) ==> vwf(v) && exact(v) && vdef(v) && vval(v) == rat(sign * nominator, denominator as int),

//@ in impl <SmartNumVal as From<i64>>
    open spec fn from_ens(v: i64, r: Self) -> bool { r == SmartNumVal::Integer(v) }
//@ in impl <SmartNumVal as From<f64>>
    open spec fn from_ens(v: f64, r: Self) -> bool { r == SmartNumVal::Real(v) }
//@ in impl <SmartNumVal as From<f32>>
    open spec fn from_ens(v: f32, r: Self) -> bool { r == SmartNumVal::Real(f32_to_f64(v)) }
//@ in impl <SmartNumVal as From<u8>>
    open spec fn from_ens(v: u8, r: Self) -> bool { r == SmartNumVal::Integer(v as i64) }
//@ in impl <SmartNumVal as From<i8>>
    open spec fn from_ens(v: i8, r: Self) -> bool { r == SmartNumVal::Integer(v as i64) }
//@ in impl <SmartNumVal as From<u16>>
    open spec fn from_ens(v: u16, r: Self) -> bool { r == SmartNumVal::Integer(v as i64) }
//@ in impl <SmartNumVal as From<i16>>
    open spec fn from_ens(v: i16, r: Self) -> bool { r == SmartNumVal::Integer(v as i64) }
//@ in impl <SmartNumVal as From<u32>>
    open spec fn from_ens(v: u32, r: Self) -> bool { r == SmartNumVal::Integer(v as i64) }
//@ in impl <SmartNumVal as From<i32>>
    open spec fn from_ens(v: i32, r: Self) -> bool { r == SmartNumVal::Integer(v as i64) }
//@ in impl <SmartNumVal as From<u64>>
    open spec fn from_ens(v: u64, r: Self) -> bool { vwf(r) && exact(r) && vdef(r) && vval(r) == v as int as real && (v <= i64::MAX ==> r is Integer) }

//@ in impl <SmartNumVal as Add>
    open spec fn add_ok(self, r: Self) -> bool { vwf(self) && vwf(r) }
//@ fn <SmartNumVal as Add>::add (self: Self, rhs: Self) -> o: SmartNumVal
    ensures vres(self, rhs, o, true, vval(self) + vval(rhs)), self is Integer && rhs is Integer ==> o is Integer,
//@ in impl <SmartNumVal as Sub>
    open spec fn sub_ok(self, r: Self) -> bool { vwf(self) && vwf(r) }
//@ fn <SmartNumVal as Sub>::sub (self: Self, rhs: Self) -> o: SmartNumVal
    ensures vres(self, rhs, o, true, vval(self) - vval(rhs)), self is Integer && rhs is Integer ==> o is Integer,
//@ in impl <SmartNumVal as Mul>
    open spec fn mul_ok(self, r: Self) -> bool { vwf(self) && vwf(r) }
//@ fn <SmartNumVal as Mul>::mul (self: Self, rhs: Self) -> o: SmartNumVal
    ensures vres(self, rhs, o, true, vval(self) * vval(rhs)), self is Integer && rhs is Integer ==> o is Integer,
//@ entry
    proof {
        lemma_real_units(vval(self)); lemma_real_units(vval(rhs));
        if let SmartNumVal::Integer(i) = self { if let SmartNumVal::Integer(j) = rhs { lemma_int_ops(i as int, j as int); } }
    }
//@ in impl <SmartNumVal as Div>
    open spec fn div_ok(self, r: Self) -> bool { vwf(self) && vwf(r) }
//@ fn <SmartNumVal as Div>::div (self: Self, rhs: Self) -> o: SmartNumVal
    ensures vres(self, rhs, o, vval(rhs) != 0real, vval(self) / vval(rhs)),
        exact(self) && exact(rhs) && vdef(self) && vdef(rhs) && vval(rhs) == 0real ==> !vdef(o),
//@ entry
    proof { lemma_real_units(vval(rhs)); }
//@ in impl <SmartNumVal as Neg>
    open spec fn neg_ok(self) -> bool { vwf(self) }
//@ fn <SmartNumVal as Neg>::neg (self: Self) -> o: SmartNumVal
    ensures vres(self, self, o, true, -vval(self)), self is Integer ==> o is Integer,
//@ in impl <&SmartNumVal as Neg>
    open spec fn neg_ok(self) -> bool { vwf(*self) }
//@ fn <&SmartNumVal as Neg>::neg (self: Self) -> o: SmartNumVal
    ensures vres(*self, *self, o, true, -vval(*self)), *self is Integer ==> o is Integer,

//@ fn <SmartNumVal as ToRational>::to_rational -> r
    ensures r matches Some(q) ==> vwf(self) ==> exact(self) && qwf(q) && (qdef(q) == vdef(self)) && (vdef(self) ==> qval(q) == vval(self)),
        self is Rational ==> r is Some, self is Real ==> r is None,
//@ fn <&SmartNumVal as ToRational>::to_rational -> r
    ensures r matches Some(q) ==> vwf(*self) ==> exact(*self) && qwf(*q) && (qdef(*q) == vdef(*self)) && (vdef(*self) ==> qval(*q) == vval(*self)),
        *self is Rational ==> r is Some, *self is Real ==> r is None,

//@ fn <SmartNumVal as IsClose<SmartNumVal>>::is_close (rhs, eps) -> r
    ensures float_ideal() && vdef(self) && vdef(rhs) ==> r == (rabs(vval(self) - vval(rhs)) < fr(eps)),
//@ fn <&SmartNumVal as IsClose<&SmartNumVal>>::is_close (rhs, eps) -> r
    ensures float_ideal() && vdef(*self) && vdef(*rhs) ==> r == (rabs(vval(*self) - vval(*rhs)) < fr(eps)),

// ---------------------------------------------------------------- SmartNum
//@ fn SmartNum::to_i64 (self: &Self) -> r: Option<i64>
    ensures
        r.is_some() <==> self.value is Integer,
        r matches Some(i) ==> nval(*self) == i as int as real,
//@ fn SmartNum::to_f64 (self: &Self) -> r: f64
    ensures
        float_ideal() && ndef(*self) ==> fr(r) == nval(*self),
        self.value matches SmartNumVal::Real(f) ==> r == f,
//@ fn SmartNum::new_rational (sign: i64, nominator: u64, denominator: u64) -> r: Option<SmartNum>
    ensures
        r.is_some() <==> ((sign == 1 || sign == -1) && denominator != 0),
        r matches Some(v) ==> nwf(v) && exact(v.value) && ndef(v) && nval(v) == rat(sign * nominator, denominator as int),
//@ fn SmartNum::one () -> r: SmartNum
    ensures nwf(r), vone(r.value), r.value is Integer,
//@ fn SmartNum::zero () -> r: SmartNum
    ensures nwf(r), vzero(r.value), r.value is Integer,
//@ fn SmartNum::pi () -> r: SmartNum
    ensures nwf(r), r.tag == ConstType::Pi, float_ideal() ==> nval(r) == real_pi(),
//@ fn SmartNum::e () -> r: SmartNum
    ensures nwf(r), r.tag == ConstType::E, float_ideal() ==> nval(r) == real_e(),
//@ fn SmartNum::is_one (self: &Self) -> r: bool
    ensures nwf(*self) ==> r == vone(self.value),
//@ fn SmartNum::is_zero (self: &Self) -> r: bool
    ensures nwf(*self) ==> r == vzero(self.value),
//@ fn SmartNum::is_pi (self: &Self) -> r: bool
    ensures r == (self.tag == ConstType::Pi),
//@ fn SmartNum::is_e (self: &Self) -> r: bool
    ensures r == (self.tag == ConstType::E),
//@ fn SmartNumVal::zero () -> r: SmartNumVal
    ensures vwf(r), exact(r), vdef(r), vval(r) == 0real,
//@ fn SmartNumVal::one () -> r: SmartNumVal
    ensures vwf(r), exact(r), vdef(r), vval(r) == 1real,
//@ fn SmartNum::sign (self: &Self) -> r: i64
    ensures
        nwf(*self) && ndef(*self) ==> r as int == real_sgn(nval(*self)),
        nwf(*self) && self.value is Rational ==> (r < 0 <==> self.value->Rational_0.nominator != 0 && self.value->Rational_0.sign == -1),
//@ entry
    proof { if nwf(*self) { lemma_vsign(self.value); } }

//@ fn <SmartNum as ToRational>::to_rational -> r
    ensures
        r.is_some() <==> exact(self.value),
        r matches Some(q) ==> nwf(self) ==> qwf(q) && (qdef(q) == ndef(self)) && (ndef(self) ==> qval(q) == nval(self)),
//@ fn <&SmartNum as ToRational>::to_rational -> r
    ensures
        r.is_some() <==> exact(self.value),
        r matches Some(q) ==> nwf(*self) ==> qwf(q) && (qdef(q) == ndef(*self)) && (ndef(*self) ==> qval(q) == nval(*self)),

//@ fn <SmartNum as IsClose<SmartNum>>::is_close (other, eps) -> r
    ensures float_ideal() && ndef(self) && ndef(other) ==> r == (rabs(nval(self) - nval(other)) < fr(eps)),
//@ fn <&SmartNum as IsClose<&SmartNum>>::is_close (other, eps) -> r
    ensures float_ideal() && ndef(*self) && ndef(*other) ==> r == (rabs(nval(*self) - nval(*other)) < fr(eps)),

//@ in impl <SmartNum as From<T>>
    open spec fn from_ens(v: T, r: Self) -> bool { exists|x: SmartNumVal| #[trigger] v.into_ens(x) && num_of(x, r) }

//@ fn wrap_val (value: SmartNumVal) -> r: SmartNum
    requires vwf(value),
    ensures nwf(r), vsame(value, r.value), value is Integer ==> r.value is Integer,

//@ in impl <SmartNum as Neg>
    open spec fn neg_ok(self) -> bool { nwf(self) }
//@ fn <SmartNum as Neg>::neg (self: Self) -> o: SmartNum
    ensures nwf(o), vres(self.value, self.value, o.value, true, -nval(self)), self.value is Integer ==> o.value is Integer,
//@ in impl <SmartNum as Add>
    open spec fn add_ok(self, r: Self) -> bool { nwf(self) && nwf(r) }
//@ fn <SmartNum as Add>::add (self: Self, rhs: Self) -> o: SmartNum
    ensures nwf(o), vres(self.value, rhs.value, o.value, true, nval(self) + nval(rhs)), self.value is Integer && rhs.value is Integer ==> o.value is Integer,
//@ entry
    proof { lemma_real_units(nval(self)); lemma_real_units(nval(rhs)); }
//@ in impl <SmartNum as Sub>
    open spec fn sub_ok(self, r: Self) -> bool { nwf(self) && nwf(r) }
//@ fn <SmartNum as Sub>::sub (self: Self, rhs: Self) -> o: SmartNum
    ensures nwf(o), vres(self.value, rhs.value, o.value, true, nval(self) - nval(rhs)), self.value is Integer && rhs.value is Integer ==> o.value is Integer,
//@ entry
    proof { lemma_real_units(nval(self)); lemma_real_units(nval(rhs)); }
//@ in impl <SmartNum as Mul>
    open spec fn mul_ok(self, r: Self) -> bool { nwf(self) && nwf(r) }
//@ fn <SmartNum as Mul>::mul (self: Self, rhs: Self) -> o: SmartNum
    ensures nwf(o), vres(self.value, rhs.value, o.value, true, nval(self) * nval(rhs)), self.value is Integer && rhs.value is Integer ==> o.value is Integer,
//@ entry
    proof { lemma_real_units(nval(self)); lemma_real_units(nval(rhs)); }
//@ in impl <SmartNum as Div>
    open spec fn div_ok(self, r: Self) -> bool { nwf(self) && nwf(r) }
//@ fn <SmartNum as Div>::div (self: Self, rhs: Self) -> o: SmartNum
    ensures nwf(o), vres(self.value, rhs.value, o.value, nval(rhs) != 0real, nval(self) / nval(rhs)),
        exact(self.value) && exact(rhs.value) && ndef(self) && ndef(rhs) && nval(rhs) == 0real ==> !ndef(o),
//@ entry
    proof { lemma_real_units(nval(self)); lemma_real_units(nval(rhs)); }
