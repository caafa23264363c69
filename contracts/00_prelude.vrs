//@ prelude
// Trusted run-time prelude (generated once by gen_prelude.py; reviewed text).
// Every item here that is external_body is an assumption about Rust itself or std.

/// `a + b` in the source is printed as `Add::add(a, b)` of these traits (same shape as std::ops).

impl core::fmt::Debug for DynErr { #[verifier::external_body] fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
// ---- reals behind floats ------------------------------------------------
/// real number denoted by a float
pub uninterp spec fn fr(x: f64) -> real;
/// "machine float arithmetic behaves like real arithmetic": never assumed true,
/// only used as a hypothesis for statements about values held as floats
pub uninterp spec fn float_ideal() -> bool;
pub uninterp spec fn f32_to_f64(x: f32) -> f64;
pub uninterp spec fn real_pi() -> real;
pub uninterp spec fn real_e() -> real;

#[verifier::external_body]
pub fn f64_PI() -> (r: f64) ensures r == f64_pi_spec(), float_ideal() ==> fr(r) == real_pi(), { std::f64::consts::PI }
#[verifier::external_body]
pub fn f64_E() -> (r: f64) ensures r == f64_e_spec(), float_ideal() ==> fr(r) == real_e(), { std::f64::consts::E }
pub uninterp spec fn f64_pi_spec() -> f64;
pub uninterp spec fn f64_e_spec() -> f64;

pub open spec fn rabs(x: real) -> real { if x < 0real { -x } else { x } }
/// real number cut towards zero
pub open spec fn rtrunc(x: real) -> int { if x >= 0real { x.floor() } else { -((-x).floor()) } }
/// nearest whole number, halves away from zero
pub open spec fn rround(x: real) -> int { if x >= 0real { (x + 0.5real).floor() } else { -((-x + 0.5real).floor()) } }
pub open spec fn sgn(x: int) -> int { if x > 0 { 1 } else if x < 0 { -1 } else { 0 } }
pub open spec fn iabs(x: int) -> int { if x < 0 { -x } else { x } }

pub assume_specification[ i64::signum ](x: i64) -> (r: i64) ensures r as int == sgn(x as int);
pub assume_specification[ i64::unsigned_abs ](x: i64) -> (r: u64) ensures r as int == iabs(x as int);
pub assume_specification[ i128::signum ](x: i128) -> (r: i128) ensures r as int == sgn(x as int);
pub assume_specification[ i128::unsigned_abs ](x: i128) -> (r: u128) ensures r as int == iabs(x as int);
pub assume_specification[ f64::abs ](x: f64) -> (r: f64) ensures float_ideal() ==> fr(r) == rabs(fr(x)), r == f64_abs(x);
pub uninterp spec fn f64_abs(x: f64) -> f64;
pub assume_specification[ f64::signum ](x: f64) -> (r: f64) ensures float_ideal() ==> ((fr(x) > 0real ==> fr(r) == 1real) && (fr(x) < 0real ==> fr(r) == -1real));
pub assume_specification[ f64::trunc ](x: f64) -> (r: f64) ensures float_ideal() ==> (fr(r) == rtrunc(fr(x)) as real);
pub assume_specification[ f64::floor ](x: f64) -> (r: f64) ensures float_ideal() ==> (fr(r) == fr(x).floor() as real);
pub assume_specification[ f64::ceil ](x: f64) -> (r: f64) ensures float_ideal() ==> (fr(r) == (-((-fr(x)).floor())) as real);
pub assume_specification[ f64::round ](x: f64) -> (r: f64) ensures float_ideal() ==> (fr(r) == rround(fr(x)) as real);
pub assume_specification[ f64::fract ](x: f64) -> (r: f64) ensures float_ideal() ==> (fr(r) == fr(x) - rtrunc(fr(x)) as real);
pub assume_specification[ f64::recip ](x: f64) -> (r: f64) ensures float_ideal() ==> (fr(x) != 0real ==> fr(r) * fr(x) == 1real);
pub assume_specification[ f64::mul_add ](x: f64, a: f64, b: f64) -> (r: f64) ensures float_ideal() ==> (fr(r) == fr(x) * fr(a) + fr(b));
pub assume_specification[ f64::max ](x: f64, y: f64) -> (r: f64) ensures float_ideal() ==> (fr(r) == (if fr(x) >= fr(y) { fr(x) } else { fr(y) }));
pub assume_specification[ f64::min ](x: f64, y: f64) -> (r: f64) ensures float_ideal() ==> (fr(r) == (if fr(x) <= fr(y) { fr(x) } else { fr(y) }));
pub assume_specification[ f64::is_sign_positive ](x: f64) -> (r: bool) ensures float_ideal() ==> ((fr(x) > 0real ==> r) && (fr(x) < 0real ==> !r));
pub assume_specification[ f64::is_sign_negative ](x: f64) -> (r: bool) ensures float_ideal() ==> ((fr(x) > 0real ==> !r) && (fr(x) < 0real ==> r));
pub assume_specification[ f64::is_nan ](x: f64) -> (r: bool) ensures float_ideal() ==> (r == false);
pub assume_specification[ f64::is_finite ](x: f64) -> (r: bool) ensures float_ideal() ==> (r == true);
pub assume_specification[ f64::is_infinite ](x: f64) -> (r: bool) ensures float_ideal() ==> (r == false);

/// truncated division and remainder of machine integers
pub open spec fn tdiv(a: int, b: int) -> int { if a >= 0 { if b > 0 { a / b } else { -(a / (-b)) } } else { if b > 0 { -((-a) / b) } else { (-a) / (-b) } } }
pub open spec fn trem(a: int, b: int) -> int { a - tdiv(a, b) * b }

proof fn lemma_euclid(x: int, b: int)
    requires b != 0,
    ensures (x / b) * b + x % b == x, b < 0 ==> x / b == -(x / (-b)) && x % b == x % (-b),
{
    let q = x / (-b); let p = x / b; let r = x % b; let s = x % (-b);
    assert(p * b + r == x && 0 <= r < (if b < 0 { -b } else { b })) by (nonlinear_arith) requires p == x / b, r == x % b, b != 0;
    if b < 0 {
        assert(q * (-b) + s == x && 0 <= s < -b) by (nonlinear_arith) requires q == x / (-b), s == x % (-b), b < 0;
        assert((p + q) * b == s - r) by (nonlinear_arith) requires p * b + r == x, q * (-b) + s == x;
        assert(p + q == 0) by (nonlinear_arith) requires (p + q) * b == s - r, -b > s - r, s - r > b, b < 0;
        assert(p * b == q * (-b)) by (nonlinear_arith) requires p == -q;
    }
}
/// division by cases of the signs is Rust's
proof fn lemma_trunc(a: int, b: int)
    requires b != 0,
    ensures tdiv(a, b) == (if a >= 0 { a / b } else { -((-a) / b) }), trem(a, b) == (if a >= 0 { a % b } else { -((-a) % b) }),
{
    lemma_euclid(a, b); lemma_euclid(-a, b);
    let q = (-a) / b;
    assert((-q) * b == -(q * b)) by (nonlinear_arith);
}
/// an operation that would overflow does not return
#[verifier::external_body]
pub fn overflow<T>() -> (r: T) ensures false, { panic!() }
/// an explicit panic: its being reachable is a failed obligation
#[verifier::external_body]
pub fn rt_panic<T>() -> (r: T) requires false, { panic!() }

// ---- conversions (same shape as std::convert) ----------------------------
pub trait From<T>: Sized {
    spec fn from_ens(v: T, r: Self) -> bool;
    fn from(v: T) -> (r: Self) ensures Self::from_ens(v, r);
}
pub trait Into<U>: Sized {
    spec fn into_ens(self, r: U) -> bool;
    fn into(self) -> (r: U) ensures self.into_ens(r);
}
impl<T, U: From<T>> Into<U> for T {
    open spec fn into_ens(self, r: U) -> bool { U::from_ens(self, r) }
    fn into(self) -> (r: U) { U::from(self) }
}
impl<T> From<T> for T {
    open spec fn from_ens(v: T, r: T) -> bool { r == v }
    fn from(v: T) -> (r: T) { v }
}
impl<T> From<T> for Option<T> {
    open spec fn from_ens(v: T, r: Option<T>) -> bool { r == Some(v) }
    fn from(v: T) -> (r: Option<T>) { Some(v) }
}
impl From<&str> for String {
    open spec fn from_ens(v: &str, r: String) -> bool { r@ == v@ }
    fn from(v: &str) -> (r: String) { v.to_owned() }
}

pub struct DynErr {}
#[verifier::external_body]
pub fn erase<A, B>(a: A) -> (b: B) { unimplemented!() }

// ---- text -----------------------------------------------------------------
pub open spec fn digit(d: int) -> char {
    if d == 0 { '0' } else if d == 1 { '1' } else if d == 2 { '2' } else if d == 3 { '3' } else if d == 4 { '4' }
    else if d == 5 { '5' } else if d == 6 { '6' } else if d == 7 { '7' } else if d == 8 { '8' } else { '9' }
}
/// decimal digits, as Display prints them
#[verifier::opaque]
pub open spec fn show_nat(n: nat) -> Seq<char>
    decreases n
{
    if n < 10 { seq![digit(n as int)] } else { show_nat(n / 10).push(digit((n % 10) as int)) }
}
#[verifier::opaque]
pub open spec fn show_int(x: int) -> Seq<char> { if x < 0 { "-"@ + show_nat((-x) as nat) } else { show_nat(x as nat) } }
pub uninterp spec fn show_f64(x: f64, fmt: Seq<char>) -> Seq<char>;
pub trait VShow {
    spec fn show_req(&self) -> bool;
    spec fn show_ens(&self, s: Seq<char>) -> bool;
    fn vshow(&self) -> (r: String) requires self.show_req(), ensures self.show_ens(r@);
}
pub trait VToString: VShow {
    fn to_string(&self) -> (r: String) requires self.show_req(), ensures self.show_ens(r@);
}
pub trait VShowFmt { fn vshow_fmt(&self, f: &str) -> String; }
impl VShowFmt for f64 {
    #[verifier::external_body]
    fn vshow_fmt(&self, f: &str) -> (r: String) ensures r@ == show_f64(*self, f@) { unimplemented!() }
}
impl VShow for String {
    open spec fn show_req(&self) -> bool { true }
    open spec fn show_ens(&self, s: Seq<char>) -> bool { s == self@ }
    fn vshow(&self) -> (r: String) { self.clone() }
}
impl VShow for str {
    open spec fn show_req(&self) -> bool { true }
    open spec fn show_ens(&self, s: Seq<char>) -> bool { s == self@ }
    fn vshow(&self) -> (r: String) { self.to_owned() }
}
impl<T: VShow + ?Sized> VShow for &T {
    open spec fn show_req(&self) -> bool { (**self).show_req() }
    open spec fn show_ens(&self, s: Seq<char>) -> bool { (**self).show_ens(s) }
    fn vshow(&self) -> (r: String) { (**self).vshow() }
}
/// std: String::to_string returns the same text
/// (of Vec) a vector is its sequence of elements, as far as programs can tell
pub axiom fn ax_vec_ext<T>(a: Vec<T>, b: Vec<T>) ensures a@ == b@ ==> a == b;
pub axiom fn ax_deque_ext<T>(a: std::collections::VecDeque<T>, b: std::collections::VecDeque<T>) ensures a@ == b@ ==> a == b;
pub broadcast axiom fn string_to_string(s: &String, r: String)
    requires #[trigger] vstd::string::to_string_from_display_ensures::<String>(s, r),
    ensures r@ == s@;
pub fn sempty() -> (r: String) ensures r@ == ""@, r@ =~= Seq::<char>::empty(), { proof { reveal_strlit(""); } slit("") }
pub fn slit(s: &str) -> (r: String) ensures r@ == s@, { s.to_owned() }
impl Add<&str> for String {
    type Output = String;
    open spec fn add_ok(self, r: &str) -> bool { true }
    fn add(self, r: &str) -> (o: String) ensures o@ == self@ + r@ { let mut c = self; c.append(r); c }
}
impl Add<&String> for String {
    type Output = String;
    open spec fn add_ok(self, r: &String) -> bool { true }
    fn add(self, r: &String) -> (o: String) ensures o@ == self@ + r@ { let mut c = self; c.append(r.as_str()); c }
}
pub fn scat(a: String, b: String) -> (r: String) ensures r@ == a@ + b@, { let mut c = a; c.append(b.as_str()); c }
#[verifier::external_body]
pub fn any_string() -> (r: String) { String::new() }
pub trait Add<Rhs = Self>: Sized {
    type Output;
    spec fn add_ok(self, r: Rhs) -> bool;
    fn add(self, r: Rhs) -> (o: Self::Output) requires self.add_ok(r);
}
pub trait Sub<Rhs = Self>: Sized {
    type Output;
    spec fn sub_ok(self, r: Rhs) -> bool;
    fn sub(self, r: Rhs) -> (o: Self::Output) requires self.sub_ok(r);
}
pub trait Mul<Rhs = Self>: Sized {
    type Output;
    spec fn mul_ok(self, r: Rhs) -> bool;
    fn mul(self, r: Rhs) -> (o: Self::Output) requires self.mul_ok(r);
}
pub trait Div<Rhs = Self>: Sized {
    type Output;
    spec fn div_ok(self, r: Rhs) -> bool;
    fn div(self, r: Rhs) -> (o: Self::Output) requires self.div_ok(r);
}
pub trait Rem<Rhs = Self>: Sized {
    type Output;
    spec fn rem_ok(self, r: Rhs) -> bool;
    fn rem(self, r: Rhs) -> (o: Self::Output) requires self.rem_ok(r);
}
pub trait Neg: Sized {
    type Output;
    spec fn neg_ok(self) -> bool;
    fn neg(self) -> (o: Self::Output) requires self.neg_ok();
}
pub trait As_f64: Sized { fn as_f64_(self) -> f64; }
impl As_f64 for i64 { #[verifier::external_body] fn as_f64_(self) -> (o: f64) ensures float_ideal() ==> fr(o) == self as int as real, { self as f64 } }
impl As_f64 for u64 { #[verifier::external_body] fn as_f64_(self) -> (o: f64) ensures float_ideal() ==> fr(o) == self as int as real, { self as f64 } }
impl As_f64 for i128 { #[verifier::external_body] fn as_f64_(self) -> (o: f64) ensures float_ideal() ==> fr(o) == self as int as real, { self as f64 } }
impl As_f64 for u128 { #[verifier::external_body] fn as_f64_(self) -> (o: f64) ensures float_ideal() ==> fr(o) == self as int as real, { self as f64 } }
impl As_f64 for usize { #[verifier::external_body] fn as_f64_(self) -> (o: f64) ensures float_ideal() ==> fr(o) == self as int as real, { self as f64 } }
impl As_f64 for u32 { #[verifier::external_body] fn as_f64_(self) -> (o: f64) ensures float_ideal() ==> fr(o) == self as int as real, { self as f64 } }
impl As_f64 for i32 { #[verifier::external_body] fn as_f64_(self) -> (o: f64) ensures float_ideal() ==> fr(o) == self as int as real, { self as f64 } }
impl As_f64 for u8 { #[verifier::external_body] fn as_f64_(self) -> (o: f64) ensures float_ideal() ==> fr(o) == self as int as real, { self as f64 } }
impl As_f64 for i8 { #[verifier::external_body] fn as_f64_(self) -> (o: f64) ensures float_ideal() ==> fr(o) == self as int as real, { self as f64 } }
impl As_f64 for u16 { #[verifier::external_body] fn as_f64_(self) -> (o: f64) ensures float_ideal() ==> fr(o) == self as int as real, { self as f64 } }
impl As_f64 for i16 { #[verifier::external_body] fn as_f64_(self) -> (o: f64) ensures float_ideal() ==> fr(o) == self as int as real, { self as f64 } }
impl As_f64 for f64 { #[verifier::external_body] fn as_f64_(self) -> (o: f64) ensures o == self, { self as f64 } }
impl As_f64 for f32 { #[verifier::external_body] fn as_f64_(self) -> (o: f64) ensures o == f32_to_f64(self), { self as f64 } }
pub trait As_i64: Sized { fn as_i64_(self) -> i64; }
pub open spec fn cast_i64_i64(x: i64) -> i64 { x as i64 }
impl As_i64 for i64 { #[verifier::truncate] fn as_i64_(self) -> (o: i64) ensures (i64::MIN <= self as int <= i64::MAX) ==> o as int == self as int, o == cast_i64_i64(self), { self as i64 } }
pub open spec fn cast_u64_i64(x: u64) -> i64 { x as i64 }
impl As_i64 for u64 { #[verifier::truncate] fn as_i64_(self) -> (o: i64) ensures (i64::MIN <= self as int <= i64::MAX) ==> o as int == self as int, o == cast_u64_i64(self), { self as i64 } }
pub open spec fn cast_i128_i64(x: i128) -> i64 { x as i64 }
impl As_i64 for i128 { #[verifier::truncate] fn as_i64_(self) -> (o: i64) ensures (i64::MIN <= self as int <= i64::MAX) ==> o as int == self as int, o == cast_i128_i64(self), { self as i64 } }
pub open spec fn cast_u128_i64(x: u128) -> i64 { x as i64 }
impl As_i64 for u128 { #[verifier::truncate] fn as_i64_(self) -> (o: i64) ensures (i64::MIN <= self as int <= i64::MAX) ==> o as int == self as int, o == cast_u128_i64(self), { self as i64 } }
pub open spec fn cast_usize_i64(x: usize) -> i64 { x as i64 }
impl As_i64 for usize { #[verifier::truncate] fn as_i64_(self) -> (o: i64) ensures (i64::MIN <= self as int <= i64::MAX) ==> o as int == self as int, o == cast_usize_i64(self), { self as i64 } }
pub open spec fn cast_u32_i64(x: u32) -> i64 { x as i64 }
impl As_i64 for u32 { #[verifier::truncate] fn as_i64_(self) -> (o: i64) ensures (i64::MIN <= self as int <= i64::MAX) ==> o as int == self as int, o == cast_u32_i64(self), { self as i64 } }
pub open spec fn cast_i32_i64(x: i32) -> i64 { x as i64 }
impl As_i64 for i32 { #[verifier::truncate] fn as_i64_(self) -> (o: i64) ensures (i64::MIN <= self as int <= i64::MAX) ==> o as int == self as int, o == cast_i32_i64(self), { self as i64 } }
pub open spec fn cast_u8_i64(x: u8) -> i64 { x as i64 }
impl As_i64 for u8 { #[verifier::truncate] fn as_i64_(self) -> (o: i64) ensures (i64::MIN <= self as int <= i64::MAX) ==> o as int == self as int, o == cast_u8_i64(self), { self as i64 } }
pub open spec fn cast_i8_i64(x: i8) -> i64 { x as i64 }
impl As_i64 for i8 { #[verifier::truncate] fn as_i64_(self) -> (o: i64) ensures (i64::MIN <= self as int <= i64::MAX) ==> o as int == self as int, o == cast_i8_i64(self), { self as i64 } }
pub open spec fn cast_u16_i64(x: u16) -> i64 { x as i64 }
impl As_i64 for u16 { #[verifier::truncate] fn as_i64_(self) -> (o: i64) ensures (i64::MIN <= self as int <= i64::MAX) ==> o as int == self as int, o == cast_u16_i64(self), { self as i64 } }
pub open spec fn cast_i16_i64(x: i16) -> i64 { x as i64 }
impl As_i64 for i16 { #[verifier::truncate] fn as_i64_(self) -> (o: i64) ensures (i64::MIN <= self as int <= i64::MAX) ==> o as int == self as int, o == cast_i16_i64(self), { self as i64 } }
impl As_i64 for f64 { #[verifier::external_body] fn as_i64_(self) -> (o: i64) ensures float_ideal() && i64::MIN <= rtrunc(fr(self)) <= i64::MAX ==> o as int == rtrunc(fr(self)), { self as i64 } }
impl As_i64 for f32 { #[verifier::external_body] fn as_i64_(self) -> (o: i64) ensures true, { self as i64 } }
pub trait As_u64: Sized { fn as_u64_(self) -> u64; }
pub open spec fn cast_i64_u64(x: i64) -> u64 { x as u64 }
impl As_u64 for i64 { #[verifier::truncate] fn as_u64_(self) -> (o: u64) ensures (u64::MIN <= self as int <= u64::MAX) ==> o as int == self as int, o == cast_i64_u64(self), { self as u64 } }
pub open spec fn cast_u64_u64(x: u64) -> u64 { x as u64 }
impl As_u64 for u64 { #[verifier::truncate] fn as_u64_(self) -> (o: u64) ensures (u64::MIN <= self as int <= u64::MAX) ==> o as int == self as int, o == cast_u64_u64(self), { self as u64 } }
pub open spec fn cast_i128_u64(x: i128) -> u64 { x as u64 }
impl As_u64 for i128 { #[verifier::truncate] fn as_u64_(self) -> (o: u64) ensures (u64::MIN <= self as int <= u64::MAX) ==> o as int == self as int, o == cast_i128_u64(self), { self as u64 } }
pub open spec fn cast_u128_u64(x: u128) -> u64 { x as u64 }
impl As_u64 for u128 { #[verifier::truncate] fn as_u64_(self) -> (o: u64) ensures (u64::MIN <= self as int <= u64::MAX) ==> o as int == self as int, o == cast_u128_u64(self), { self as u64 } }
pub open spec fn cast_usize_u64(x: usize) -> u64 { x as u64 }
impl As_u64 for usize { #[verifier::truncate] fn as_u64_(self) -> (o: u64) ensures (u64::MIN <= self as int <= u64::MAX) ==> o as int == self as int, o == cast_usize_u64(self), { self as u64 } }
pub open spec fn cast_u32_u64(x: u32) -> u64 { x as u64 }
impl As_u64 for u32 { #[verifier::truncate] fn as_u64_(self) -> (o: u64) ensures (u64::MIN <= self as int <= u64::MAX) ==> o as int == self as int, o == cast_u32_u64(self), { self as u64 } }
pub open spec fn cast_i32_u64(x: i32) -> u64 { x as u64 }
impl As_u64 for i32 { #[verifier::truncate] fn as_u64_(self) -> (o: u64) ensures (u64::MIN <= self as int <= u64::MAX) ==> o as int == self as int, o == cast_i32_u64(self), { self as u64 } }
pub open spec fn cast_u8_u64(x: u8) -> u64 { x as u64 }
impl As_u64 for u8 { #[verifier::truncate] fn as_u64_(self) -> (o: u64) ensures (u64::MIN <= self as int <= u64::MAX) ==> o as int == self as int, o == cast_u8_u64(self), { self as u64 } }
pub open spec fn cast_i8_u64(x: i8) -> u64 { x as u64 }
impl As_u64 for i8 { #[verifier::truncate] fn as_u64_(self) -> (o: u64) ensures (u64::MIN <= self as int <= u64::MAX) ==> o as int == self as int, o == cast_i8_u64(self), { self as u64 } }
pub open spec fn cast_u16_u64(x: u16) -> u64 { x as u64 }
impl As_u64 for u16 { #[verifier::truncate] fn as_u64_(self) -> (o: u64) ensures (u64::MIN <= self as int <= u64::MAX) ==> o as int == self as int, o == cast_u16_u64(self), { self as u64 } }
pub open spec fn cast_i16_u64(x: i16) -> u64 { x as u64 }
impl As_u64 for i16 { #[verifier::truncate] fn as_u64_(self) -> (o: u64) ensures (u64::MIN <= self as int <= u64::MAX) ==> o as int == self as int, o == cast_i16_u64(self), { self as u64 } }
impl As_u64 for f64 { #[verifier::external_body] fn as_u64_(self) -> (o: u64) ensures float_ideal() && u64::MIN <= rtrunc(fr(self)) <= u64::MAX ==> o as int == rtrunc(fr(self)), { self as u64 } }
impl As_u64 for f32 { #[verifier::external_body] fn as_u64_(self) -> (o: u64) ensures true, { self as u64 } }
pub trait As_i128: Sized { fn as_i128_(self) -> i128; }
pub open spec fn cast_i64_i128(x: i64) -> i128 { x as i128 }
impl As_i128 for i64 { #[verifier::truncate] fn as_i128_(self) -> (o: i128) ensures (i128::MIN <= self as int <= i128::MAX) ==> o as int == self as int, o == cast_i64_i128(self), { self as i128 } }
pub open spec fn cast_u64_i128(x: u64) -> i128 { x as i128 }
impl As_i128 for u64 { #[verifier::truncate] fn as_i128_(self) -> (o: i128) ensures (i128::MIN <= self as int <= i128::MAX) ==> o as int == self as int, o == cast_u64_i128(self), { self as i128 } }
pub open spec fn cast_i128_i128(x: i128) -> i128 { x as i128 }
impl As_i128 for i128 { #[verifier::truncate] fn as_i128_(self) -> (o: i128) ensures (i128::MIN <= self as int <= i128::MAX) ==> o as int == self as int, o == cast_i128_i128(self), { self as i128 } }
pub open spec fn cast_u128_i128(x: u128) -> i128 { x as i128 }
impl As_i128 for u128 { #[verifier::truncate] fn as_i128_(self) -> (o: i128) ensures (i128::MIN <= self as int <= i128::MAX) ==> o as int == self as int, o == cast_u128_i128(self), { self as i128 } }
pub open spec fn cast_usize_i128(x: usize) -> i128 { x as i128 }
impl As_i128 for usize { #[verifier::truncate] fn as_i128_(self) -> (o: i128) ensures (i128::MIN <= self as int <= i128::MAX) ==> o as int == self as int, o == cast_usize_i128(self), { self as i128 } }
pub open spec fn cast_u32_i128(x: u32) -> i128 { x as i128 }
impl As_i128 for u32 { #[verifier::truncate] fn as_i128_(self) -> (o: i128) ensures (i128::MIN <= self as int <= i128::MAX) ==> o as int == self as int, o == cast_u32_i128(self), { self as i128 } }
pub open spec fn cast_i32_i128(x: i32) -> i128 { x as i128 }
impl As_i128 for i32 { #[verifier::truncate] fn as_i128_(self) -> (o: i128) ensures (i128::MIN <= self as int <= i128::MAX) ==> o as int == self as int, o == cast_i32_i128(self), { self as i128 } }
pub open spec fn cast_u8_i128(x: u8) -> i128 { x as i128 }
impl As_i128 for u8 { #[verifier::truncate] fn as_i128_(self) -> (o: i128) ensures (i128::MIN <= self as int <= i128::MAX) ==> o as int == self as int, o == cast_u8_i128(self), { self as i128 } }
pub open spec fn cast_i8_i128(x: i8) -> i128 { x as i128 }
impl As_i128 for i8 { #[verifier::truncate] fn as_i128_(self) -> (o: i128) ensures (i128::MIN <= self as int <= i128::MAX) ==> o as int == self as int, o == cast_i8_i128(self), { self as i128 } }
pub open spec fn cast_u16_i128(x: u16) -> i128 { x as i128 }
impl As_i128 for u16 { #[verifier::truncate] fn as_i128_(self) -> (o: i128) ensures (i128::MIN <= self as int <= i128::MAX) ==> o as int == self as int, o == cast_u16_i128(self), { self as i128 } }
pub open spec fn cast_i16_i128(x: i16) -> i128 { x as i128 }
impl As_i128 for i16 { #[verifier::truncate] fn as_i128_(self) -> (o: i128) ensures (i128::MIN <= self as int <= i128::MAX) ==> o as int == self as int, o == cast_i16_i128(self), { self as i128 } }
impl As_i128 for f64 { #[verifier::external_body] fn as_i128_(self) -> (o: i128) ensures float_ideal() && i128::MIN <= rtrunc(fr(self)) <= i128::MAX ==> o as int == rtrunc(fr(self)), { self as i128 } }
impl As_i128 for f32 { #[verifier::external_body] fn as_i128_(self) -> (o: i128) ensures true, { self as i128 } }
pub trait As_u128: Sized { fn as_u128_(self) -> u128; }
pub open spec fn cast_i64_u128(x: i64) -> u128 { x as u128 }
impl As_u128 for i64 { #[verifier::truncate] fn as_u128_(self) -> (o: u128) ensures (u128::MIN <= self as int <= u128::MAX) ==> o as int == self as int, o == cast_i64_u128(self), { self as u128 } }
pub open spec fn cast_u64_u128(x: u64) -> u128 { x as u128 }
impl As_u128 for u64 { #[verifier::truncate] fn as_u128_(self) -> (o: u128) ensures (u128::MIN <= self as int <= u128::MAX) ==> o as int == self as int, o == cast_u64_u128(self), { self as u128 } }
pub open spec fn cast_i128_u128(x: i128) -> u128 { x as u128 }
impl As_u128 for i128 { #[verifier::truncate] fn as_u128_(self) -> (o: u128) ensures (u128::MIN <= self as int <= u128::MAX) ==> o as int == self as int, o == cast_i128_u128(self), { self as u128 } }
pub open spec fn cast_u128_u128(x: u128) -> u128 { x as u128 }
impl As_u128 for u128 { #[verifier::truncate] fn as_u128_(self) -> (o: u128) ensures (u128::MIN <= self as int <= u128::MAX) ==> o as int == self as int, o == cast_u128_u128(self), { self as u128 } }
pub open spec fn cast_usize_u128(x: usize) -> u128 { x as u128 }
impl As_u128 for usize { #[verifier::truncate] fn as_u128_(self) -> (o: u128) ensures (u128::MIN <= self as int <= u128::MAX) ==> o as int == self as int, o == cast_usize_u128(self), { self as u128 } }
pub open spec fn cast_u32_u128(x: u32) -> u128 { x as u128 }
impl As_u128 for u32 { #[verifier::truncate] fn as_u128_(self) -> (o: u128) ensures (u128::MIN <= self as int <= u128::MAX) ==> o as int == self as int, o == cast_u32_u128(self), { self as u128 } }
pub open spec fn cast_i32_u128(x: i32) -> u128 { x as u128 }
impl As_u128 for i32 { #[verifier::truncate] fn as_u128_(self) -> (o: u128) ensures (u128::MIN <= self as int <= u128::MAX) ==> o as int == self as int, o == cast_i32_u128(self), { self as u128 } }
pub open spec fn cast_u8_u128(x: u8) -> u128 { x as u128 }
impl As_u128 for u8 { #[verifier::truncate] fn as_u128_(self) -> (o: u128) ensures (u128::MIN <= self as int <= u128::MAX) ==> o as int == self as int, o == cast_u8_u128(self), { self as u128 } }
pub open spec fn cast_i8_u128(x: i8) -> u128 { x as u128 }
impl As_u128 for i8 { #[verifier::truncate] fn as_u128_(self) -> (o: u128) ensures (u128::MIN <= self as int <= u128::MAX) ==> o as int == self as int, o == cast_i8_u128(self), { self as u128 } }
pub open spec fn cast_u16_u128(x: u16) -> u128 { x as u128 }
impl As_u128 for u16 { #[verifier::truncate] fn as_u128_(self) -> (o: u128) ensures (u128::MIN <= self as int <= u128::MAX) ==> o as int == self as int, o == cast_u16_u128(self), { self as u128 } }
pub open spec fn cast_i16_u128(x: i16) -> u128 { x as u128 }
impl As_u128 for i16 { #[verifier::truncate] fn as_u128_(self) -> (o: u128) ensures (u128::MIN <= self as int <= u128::MAX) ==> o as int == self as int, o == cast_i16_u128(self), { self as u128 } }
impl As_u128 for f64 { #[verifier::external_body] fn as_u128_(self) -> (o: u128) ensures float_ideal() && u128::MIN <= rtrunc(fr(self)) <= u128::MAX ==> o as int == rtrunc(fr(self)), { self as u128 } }
impl As_u128 for f32 { #[verifier::external_body] fn as_u128_(self) -> (o: u128) ensures true, { self as u128 } }
pub trait As_usize: Sized { fn as_usize_(self) -> usize; }
pub open spec fn cast_i64_usize(x: i64) -> usize { x as usize }
impl As_usize for i64 { #[verifier::truncate] fn as_usize_(self) -> (o: usize) ensures (usize::MIN <= self as int <= usize::MAX) ==> o as int == self as int, o == cast_i64_usize(self), { self as usize } }
pub open spec fn cast_u64_usize(x: u64) -> usize { x as usize }
impl As_usize for u64 { #[verifier::truncate] fn as_usize_(self) -> (o: usize) ensures (usize::MIN <= self as int <= usize::MAX) ==> o as int == self as int, o == cast_u64_usize(self), { self as usize } }
pub open spec fn cast_i128_usize(x: i128) -> usize { x as usize }
impl As_usize for i128 { #[verifier::truncate] fn as_usize_(self) -> (o: usize) ensures (usize::MIN <= self as int <= usize::MAX) ==> o as int == self as int, o == cast_i128_usize(self), { self as usize } }
pub open spec fn cast_u128_usize(x: u128) -> usize { x as usize }
impl As_usize for u128 { #[verifier::truncate] fn as_usize_(self) -> (o: usize) ensures (usize::MIN <= self as int <= usize::MAX) ==> o as int == self as int, o == cast_u128_usize(self), { self as usize } }
pub open spec fn cast_usize_usize(x: usize) -> usize { x as usize }
impl As_usize for usize { #[verifier::truncate] fn as_usize_(self) -> (o: usize) ensures (usize::MIN <= self as int <= usize::MAX) ==> o as int == self as int, o == cast_usize_usize(self), { self as usize } }
pub open spec fn cast_u32_usize(x: u32) -> usize { x as usize }
impl As_usize for u32 { #[verifier::truncate] fn as_usize_(self) -> (o: usize) ensures (usize::MIN <= self as int <= usize::MAX) ==> o as int == self as int, o == cast_u32_usize(self), { self as usize } }
pub open spec fn cast_i32_usize(x: i32) -> usize { x as usize }
impl As_usize for i32 { #[verifier::truncate] fn as_usize_(self) -> (o: usize) ensures (usize::MIN <= self as int <= usize::MAX) ==> o as int == self as int, o == cast_i32_usize(self), { self as usize } }
pub open spec fn cast_u8_usize(x: u8) -> usize { x as usize }
impl As_usize for u8 { #[verifier::truncate] fn as_usize_(self) -> (o: usize) ensures (usize::MIN <= self as int <= usize::MAX) ==> o as int == self as int, o == cast_u8_usize(self), { self as usize } }
pub open spec fn cast_i8_usize(x: i8) -> usize { x as usize }
impl As_usize for i8 { #[verifier::truncate] fn as_usize_(self) -> (o: usize) ensures (usize::MIN <= self as int <= usize::MAX) ==> o as int == self as int, o == cast_i8_usize(self), { self as usize } }
pub open spec fn cast_u16_usize(x: u16) -> usize { x as usize }
impl As_usize for u16 { #[verifier::truncate] fn as_usize_(self) -> (o: usize) ensures (usize::MIN <= self as int <= usize::MAX) ==> o as int == self as int, o == cast_u16_usize(self), { self as usize } }
pub open spec fn cast_i16_usize(x: i16) -> usize { x as usize }
impl As_usize for i16 { #[verifier::truncate] fn as_usize_(self) -> (o: usize) ensures (usize::MIN <= self as int <= usize::MAX) ==> o as int == self as int, o == cast_i16_usize(self), { self as usize } }
impl As_usize for f64 { #[verifier::external_body] fn as_usize_(self) -> (o: usize) ensures float_ideal() && usize::MIN <= rtrunc(fr(self)) <= usize::MAX ==> o as int == rtrunc(fr(self)), { self as usize } }
impl As_usize for f32 { #[verifier::external_body] fn as_usize_(self) -> (o: usize) ensures true, { self as usize } }
pub trait As_u32: Sized { fn as_u32_(self) -> u32; }
pub open spec fn cast_i64_u32(x: i64) -> u32 { x as u32 }
impl As_u32 for i64 { #[verifier::truncate] fn as_u32_(self) -> (o: u32) ensures (u32::MIN <= self as int <= u32::MAX) ==> o as int == self as int, o == cast_i64_u32(self), { self as u32 } }
pub open spec fn cast_u64_u32(x: u64) -> u32 { x as u32 }
impl As_u32 for u64 { #[verifier::truncate] fn as_u32_(self) -> (o: u32) ensures (u32::MIN <= self as int <= u32::MAX) ==> o as int == self as int, o == cast_u64_u32(self), { self as u32 } }
pub open spec fn cast_i128_u32(x: i128) -> u32 { x as u32 }
impl As_u32 for i128 { #[verifier::truncate] fn as_u32_(self) -> (o: u32) ensures (u32::MIN <= self as int <= u32::MAX) ==> o as int == self as int, o == cast_i128_u32(self), { self as u32 } }
pub open spec fn cast_u128_u32(x: u128) -> u32 { x as u32 }
impl As_u32 for u128 { #[verifier::truncate] fn as_u32_(self) -> (o: u32) ensures (u32::MIN <= self as int <= u32::MAX) ==> o as int == self as int, o == cast_u128_u32(self), { self as u32 } }
pub open spec fn cast_usize_u32(x: usize) -> u32 { x as u32 }
impl As_u32 for usize { #[verifier::truncate] fn as_u32_(self) -> (o: u32) ensures (u32::MIN <= self as int <= u32::MAX) ==> o as int == self as int, o == cast_usize_u32(self), { self as u32 } }
pub open spec fn cast_u32_u32(x: u32) -> u32 { x as u32 }
impl As_u32 for u32 { #[verifier::truncate] fn as_u32_(self) -> (o: u32) ensures (u32::MIN <= self as int <= u32::MAX) ==> o as int == self as int, o == cast_u32_u32(self), { self as u32 } }
pub open spec fn cast_i32_u32(x: i32) -> u32 { x as u32 }
impl As_u32 for i32 { #[verifier::truncate] fn as_u32_(self) -> (o: u32) ensures (u32::MIN <= self as int <= u32::MAX) ==> o as int == self as int, o == cast_i32_u32(self), { self as u32 } }
pub open spec fn cast_u8_u32(x: u8) -> u32 { x as u32 }
impl As_u32 for u8 { #[verifier::truncate] fn as_u32_(self) -> (o: u32) ensures (u32::MIN <= self as int <= u32::MAX) ==> o as int == self as int, o == cast_u8_u32(self), { self as u32 } }
pub open spec fn cast_i8_u32(x: i8) -> u32 { x as u32 }
impl As_u32 for i8 { #[verifier::truncate] fn as_u32_(self) -> (o: u32) ensures (u32::MIN <= self as int <= u32::MAX) ==> o as int == self as int, o == cast_i8_u32(self), { self as u32 } }
pub open spec fn cast_u16_u32(x: u16) -> u32 { x as u32 }
impl As_u32 for u16 { #[verifier::truncate] fn as_u32_(self) -> (o: u32) ensures (u32::MIN <= self as int <= u32::MAX) ==> o as int == self as int, o == cast_u16_u32(self), { self as u32 } }
pub open spec fn cast_i16_u32(x: i16) -> u32 { x as u32 }
impl As_u32 for i16 { #[verifier::truncate] fn as_u32_(self) -> (o: u32) ensures (u32::MIN <= self as int <= u32::MAX) ==> o as int == self as int, o == cast_i16_u32(self), { self as u32 } }
impl As_u32 for f64 { #[verifier::external_body] fn as_u32_(self) -> (o: u32) ensures float_ideal() && u32::MIN <= rtrunc(fr(self)) <= u32::MAX ==> o as int == rtrunc(fr(self)), { self as u32 } }
impl As_u32 for f32 { #[verifier::external_body] fn as_u32_(self) -> (o: u32) ensures true, { self as u32 } }
pub trait As_i32: Sized { fn as_i32_(self) -> i32; }
pub open spec fn cast_i64_i32(x: i64) -> i32 { x as i32 }
impl As_i32 for i64 { #[verifier::truncate] fn as_i32_(self) -> (o: i32) ensures (i32::MIN <= self as int <= i32::MAX) ==> o as int == self as int, o == cast_i64_i32(self), { self as i32 } }
pub open spec fn cast_u64_i32(x: u64) -> i32 { x as i32 }
impl As_i32 for u64 { #[verifier::truncate] fn as_i32_(self) -> (o: i32) ensures (i32::MIN <= self as int <= i32::MAX) ==> o as int == self as int, o == cast_u64_i32(self), { self as i32 } }
pub open spec fn cast_i128_i32(x: i128) -> i32 { x as i32 }
impl As_i32 for i128 { #[verifier::truncate] fn as_i32_(self) -> (o: i32) ensures (i32::MIN <= self as int <= i32::MAX) ==> o as int == self as int, o == cast_i128_i32(self), { self as i32 } }
pub open spec fn cast_u128_i32(x: u128) -> i32 { x as i32 }
impl As_i32 for u128 { #[verifier::truncate] fn as_i32_(self) -> (o: i32) ensures (i32::MIN <= self as int <= i32::MAX) ==> o as int == self as int, o == cast_u128_i32(self), { self as i32 } }
pub open spec fn cast_usize_i32(x: usize) -> i32 { x as i32 }
impl As_i32 for usize { #[verifier::truncate] fn as_i32_(self) -> (o: i32) ensures (i32::MIN <= self as int <= i32::MAX) ==> o as int == self as int, o == cast_usize_i32(self), { self as i32 } }
pub open spec fn cast_u32_i32(x: u32) -> i32 { x as i32 }
impl As_i32 for u32 { #[verifier::truncate] fn as_i32_(self) -> (o: i32) ensures (i32::MIN <= self as int <= i32::MAX) ==> o as int == self as int, o == cast_u32_i32(self), { self as i32 } }
pub open spec fn cast_i32_i32(x: i32) -> i32 { x as i32 }
impl As_i32 for i32 { #[verifier::truncate] fn as_i32_(self) -> (o: i32) ensures (i32::MIN <= self as int <= i32::MAX) ==> o as int == self as int, o == cast_i32_i32(self), { self as i32 } }
pub open spec fn cast_u8_i32(x: u8) -> i32 { x as i32 }
impl As_i32 for u8 { #[verifier::truncate] fn as_i32_(self) -> (o: i32) ensures (i32::MIN <= self as int <= i32::MAX) ==> o as int == self as int, o == cast_u8_i32(self), { self as i32 } }
pub open spec fn cast_i8_i32(x: i8) -> i32 { x as i32 }
impl As_i32 for i8 { #[verifier::truncate] fn as_i32_(self) -> (o: i32) ensures (i32::MIN <= self as int <= i32::MAX) ==> o as int == self as int, o == cast_i8_i32(self), { self as i32 } }
pub open spec fn cast_u16_i32(x: u16) -> i32 { x as i32 }
impl As_i32 for u16 { #[verifier::truncate] fn as_i32_(self) -> (o: i32) ensures (i32::MIN <= self as int <= i32::MAX) ==> o as int == self as int, o == cast_u16_i32(self), { self as i32 } }
pub open spec fn cast_i16_i32(x: i16) -> i32 { x as i32 }
impl As_i32 for i16 { #[verifier::truncate] fn as_i32_(self) -> (o: i32) ensures (i32::MIN <= self as int <= i32::MAX) ==> o as int == self as int, o == cast_i16_i32(self), { self as i32 } }
impl As_i32 for f64 { #[verifier::external_body] fn as_i32_(self) -> (o: i32) ensures float_ideal() && i32::MIN <= rtrunc(fr(self)) <= i32::MAX ==> o as int == rtrunc(fr(self)), { self as i32 } }
impl As_i32 for f32 { #[verifier::external_body] fn as_i32_(self) -> (o: i32) ensures true, { self as i32 } }
impl Add<f64> for f64 { type Output = f64; open spec fn add_ok(self, r: f64) -> bool { true } #[verifier::external_body] fn add(self, r: f64) -> (o: f64) ensures float_ideal() ==> fr(o) == fr(self) + fr(r), o == f64_add(self, r), { self + r } }
impl Add<&f64> for f64 { type Output = f64; open spec fn add_ok(self, r: &f64) -> bool { true } #[verifier::external_body] fn add(self, r: &f64) -> (o: f64) ensures float_ideal() ==> fr(o) == fr(self) + fr(*r), o == f64_add(self, *r), { self + *r } }
pub uninterp spec fn f64_add(a: f64, b: f64) -> f64;
impl Sub<f64> for f64 { type Output = f64; open spec fn sub_ok(self, r: f64) -> bool { true } #[verifier::external_body] fn sub(self, r: f64) -> (o: f64) ensures float_ideal() ==> fr(o) == fr(self) - fr(r), o == f64_sub(self, r), { self - r } }
impl Sub<&f64> for f64 { type Output = f64; open spec fn sub_ok(self, r: &f64) -> bool { true } #[verifier::external_body] fn sub(self, r: &f64) -> (o: f64) ensures float_ideal() ==> fr(o) == fr(self) - fr(*r), o == f64_sub(self, *r), { self - *r } }
pub uninterp spec fn f64_sub(a: f64, b: f64) -> f64;
impl Mul<f64> for f64 { type Output = f64; open spec fn mul_ok(self, r: f64) -> bool { true } #[verifier::external_body] fn mul(self, r: f64) -> (o: f64) ensures float_ideal() ==> fr(o) == fr(self) * fr(r), o == f64_mul(self, r), { self * r } }
impl Mul<&f64> for f64 { type Output = f64; open spec fn mul_ok(self, r: &f64) -> bool { true } #[verifier::external_body] fn mul(self, r: &f64) -> (o: f64) ensures float_ideal() ==> fr(o) == fr(self) * fr(*r), o == f64_mul(self, *r), { self * *r } }
pub uninterp spec fn f64_mul(a: f64, b: f64) -> f64;
impl Div<f64> for f64 { type Output = f64; open spec fn div_ok(self, r: f64) -> bool { true } #[verifier::external_body] fn div(self, r: f64) -> (o: f64) ensures float_ideal() && fr(r) != 0real ==> fr(o) == fr(self) / fr(r), o == f64_div(self, r), { self / r } }
impl Div<&f64> for f64 { type Output = f64; open spec fn div_ok(self, r: &f64) -> bool { true } #[verifier::external_body] fn div(self, r: &f64) -> (o: f64) ensures float_ideal() && fr(*r) != 0real ==> fr(o) == fr(self) / fr(*r), o == f64_div(self, *r), { self / *r } }
pub uninterp spec fn f64_div(a: f64, b: f64) -> f64;
pub uninterp spec fn f64_neg(a: f64) -> f64;
impl Neg for f64 { type Output = f64; open spec fn neg_ok(self) -> bool { true } #[verifier::external_body] fn neg(self) -> (o: f64) ensures float_ideal() ==> fr(o) == -fr(self), o == f64_neg(self), { -self } }
pub trait Cmp: Sized {
    spec fn cv(self) -> real;
    spec fn cok() -> bool;
    fn lt_(self, r: Self) -> (b: bool) ensures Self::cok() ==> b == (self.cv() < r.cv());
    fn le_(self, r: Self) -> (b: bool) ensures Self::cok() ==> b == (self.cv() <= r.cv());
    fn gt_(self, r: Self) -> (b: bool) ensures Self::cok() ==> b == (self.cv() > r.cv());
    fn ge_(self, r: Self) -> (b: bool) ensures Self::cok() ==> b == (self.cv() >= r.cv());
    fn eq_(self, r: Self) -> (b: bool) ensures Self::cok() ==> b == (self.cv() == r.cv());
    fn ne_(self, r: Self) -> (b: bool) ensures Self::cok() ==> b == (self.cv() != r.cv());
}
impl Cmp for i64 { open spec fn cv(self) -> real { (self) as int as real } open spec fn cok() -> bool { true } fn lt_(self, r: i64) -> (b: bool) ensures b == ((self) < (r)), { self < r } fn le_(self, r: i64) -> (b: bool) ensures b == ((self) <= (r)), { self <= r } fn gt_(self, r: i64) -> (b: bool) ensures b == ((self) > (r)), { self > r } fn ge_(self, r: i64) -> (b: bool) ensures b == ((self) >= (r)), { self >= r } fn eq_(self, r: i64) -> (b: bool) ensures b == ((self) == (r)), { self == r } fn ne_(self, r: i64) -> (b: bool) ensures b == ((self) != (r)), { self != r } }
impl Cmp for &i64 { open spec fn cv(self) -> real { (*self) as int as real } open spec fn cok() -> bool { true } fn lt_(self, r: &i64) -> (b: bool) ensures b == ((*self) < (*r)), { *self < *r } fn le_(self, r: &i64) -> (b: bool) ensures b == ((*self) <= (*r)), { *self <= *r } fn gt_(self, r: &i64) -> (b: bool) ensures b == ((*self) > (*r)), { *self > *r } fn ge_(self, r: &i64) -> (b: bool) ensures b == ((*self) >= (*r)), { *self >= *r } fn eq_(self, r: &i64) -> (b: bool) ensures b == ((*self) == (*r)), { *self == *r } fn ne_(self, r: &i64) -> (b: bool) ensures b == ((*self) != (*r)), { *self != *r } }
impl Cmp for u64 { open spec fn cv(self) -> real { (self) as int as real } open spec fn cok() -> bool { true } fn lt_(self, r: u64) -> (b: bool) ensures b == ((self) < (r)), { self < r } fn le_(self, r: u64) -> (b: bool) ensures b == ((self) <= (r)), { self <= r } fn gt_(self, r: u64) -> (b: bool) ensures b == ((self) > (r)), { self > r } fn ge_(self, r: u64) -> (b: bool) ensures b == ((self) >= (r)), { self >= r } fn eq_(self, r: u64) -> (b: bool) ensures b == ((self) == (r)), { self == r } fn ne_(self, r: u64) -> (b: bool) ensures b == ((self) != (r)), { self != r } }
impl Cmp for &u64 { open spec fn cv(self) -> real { (*self) as int as real } open spec fn cok() -> bool { true } fn lt_(self, r: &u64) -> (b: bool) ensures b == ((*self) < (*r)), { *self < *r } fn le_(self, r: &u64) -> (b: bool) ensures b == ((*self) <= (*r)), { *self <= *r } fn gt_(self, r: &u64) -> (b: bool) ensures b == ((*self) > (*r)), { *self > *r } fn ge_(self, r: &u64) -> (b: bool) ensures b == ((*self) >= (*r)), { *self >= *r } fn eq_(self, r: &u64) -> (b: bool) ensures b == ((*self) == (*r)), { *self == *r } fn ne_(self, r: &u64) -> (b: bool) ensures b == ((*self) != (*r)), { *self != *r } }
impl Cmp for i128 { open spec fn cv(self) -> real { (self) as int as real } open spec fn cok() -> bool { true } fn lt_(self, r: i128) -> (b: bool) ensures b == ((self) < (r)), { self < r } fn le_(self, r: i128) -> (b: bool) ensures b == ((self) <= (r)), { self <= r } fn gt_(self, r: i128) -> (b: bool) ensures b == ((self) > (r)), { self > r } fn ge_(self, r: i128) -> (b: bool) ensures b == ((self) >= (r)), { self >= r } fn eq_(self, r: i128) -> (b: bool) ensures b == ((self) == (r)), { self == r } fn ne_(self, r: i128) -> (b: bool) ensures b == ((self) != (r)), { self != r } }
impl Cmp for &i128 { open spec fn cv(self) -> real { (*self) as int as real } open spec fn cok() -> bool { true } fn lt_(self, r: &i128) -> (b: bool) ensures b == ((*self) < (*r)), { *self < *r } fn le_(self, r: &i128) -> (b: bool) ensures b == ((*self) <= (*r)), { *self <= *r } fn gt_(self, r: &i128) -> (b: bool) ensures b == ((*self) > (*r)), { *self > *r } fn ge_(self, r: &i128) -> (b: bool) ensures b == ((*self) >= (*r)), { *self >= *r } fn eq_(self, r: &i128) -> (b: bool) ensures b == ((*self) == (*r)), { *self == *r } fn ne_(self, r: &i128) -> (b: bool) ensures b == ((*self) != (*r)), { *self != *r } }
impl Cmp for u128 { open spec fn cv(self) -> real { (self) as int as real } open spec fn cok() -> bool { true } fn lt_(self, r: u128) -> (b: bool) ensures b == ((self) < (r)), { self < r } fn le_(self, r: u128) -> (b: bool) ensures b == ((self) <= (r)), { self <= r } fn gt_(self, r: u128) -> (b: bool) ensures b == ((self) > (r)), { self > r } fn ge_(self, r: u128) -> (b: bool) ensures b == ((self) >= (r)), { self >= r } fn eq_(self, r: u128) -> (b: bool) ensures b == ((self) == (r)), { self == r } fn ne_(self, r: u128) -> (b: bool) ensures b == ((self) != (r)), { self != r } }
impl Cmp for &u128 { open spec fn cv(self) -> real { (*self) as int as real } open spec fn cok() -> bool { true } fn lt_(self, r: &u128) -> (b: bool) ensures b == ((*self) < (*r)), { *self < *r } fn le_(self, r: &u128) -> (b: bool) ensures b == ((*self) <= (*r)), { *self <= *r } fn gt_(self, r: &u128) -> (b: bool) ensures b == ((*self) > (*r)), { *self > *r } fn ge_(self, r: &u128) -> (b: bool) ensures b == ((*self) >= (*r)), { *self >= *r } fn eq_(self, r: &u128) -> (b: bool) ensures b == ((*self) == (*r)), { *self == *r } fn ne_(self, r: &u128) -> (b: bool) ensures b == ((*self) != (*r)), { *self != *r } }
impl Cmp for usize { open spec fn cv(self) -> real { (self) as int as real } open spec fn cok() -> bool { true } fn lt_(self, r: usize) -> (b: bool) ensures b == ((self) < (r)), { self < r } fn le_(self, r: usize) -> (b: bool) ensures b == ((self) <= (r)), { self <= r } fn gt_(self, r: usize) -> (b: bool) ensures b == ((self) > (r)), { self > r } fn ge_(self, r: usize) -> (b: bool) ensures b == ((self) >= (r)), { self >= r } fn eq_(self, r: usize) -> (b: bool) ensures b == ((self) == (r)), { self == r } fn ne_(self, r: usize) -> (b: bool) ensures b == ((self) != (r)), { self != r } }
impl Cmp for &usize { open spec fn cv(self) -> real { (*self) as int as real } open spec fn cok() -> bool { true } fn lt_(self, r: &usize) -> (b: bool) ensures b == ((*self) < (*r)), { *self < *r } fn le_(self, r: &usize) -> (b: bool) ensures b == ((*self) <= (*r)), { *self <= *r } fn gt_(self, r: &usize) -> (b: bool) ensures b == ((*self) > (*r)), { *self > *r } fn ge_(self, r: &usize) -> (b: bool) ensures b == ((*self) >= (*r)), { *self >= *r } fn eq_(self, r: &usize) -> (b: bool) ensures b == ((*self) == (*r)), { *self == *r } fn ne_(self, r: &usize) -> (b: bool) ensures b == ((*self) != (*r)), { *self != *r } }
impl Cmp for u32 { open spec fn cv(self) -> real { (self) as int as real } open spec fn cok() -> bool { true } fn lt_(self, r: u32) -> (b: bool) ensures b == ((self) < (r)), { self < r } fn le_(self, r: u32) -> (b: bool) ensures b == ((self) <= (r)), { self <= r } fn gt_(self, r: u32) -> (b: bool) ensures b == ((self) > (r)), { self > r } fn ge_(self, r: u32) -> (b: bool) ensures b == ((self) >= (r)), { self >= r } fn eq_(self, r: u32) -> (b: bool) ensures b == ((self) == (r)), { self == r } fn ne_(self, r: u32) -> (b: bool) ensures b == ((self) != (r)), { self != r } }
impl Cmp for &u32 { open spec fn cv(self) -> real { (*self) as int as real } open spec fn cok() -> bool { true } fn lt_(self, r: &u32) -> (b: bool) ensures b == ((*self) < (*r)), { *self < *r } fn le_(self, r: &u32) -> (b: bool) ensures b == ((*self) <= (*r)), { *self <= *r } fn gt_(self, r: &u32) -> (b: bool) ensures b == ((*self) > (*r)), { *self > *r } fn ge_(self, r: &u32) -> (b: bool) ensures b == ((*self) >= (*r)), { *self >= *r } fn eq_(self, r: &u32) -> (b: bool) ensures b == ((*self) == (*r)), { *self == *r } fn ne_(self, r: &u32) -> (b: bool) ensures b == ((*self) != (*r)), { *self != *r } }
impl Cmp for i32 { open spec fn cv(self) -> real { (self) as int as real } open spec fn cok() -> bool { true } fn lt_(self, r: i32) -> (b: bool) ensures b == ((self) < (r)), { self < r } fn le_(self, r: i32) -> (b: bool) ensures b == ((self) <= (r)), { self <= r } fn gt_(self, r: i32) -> (b: bool) ensures b == ((self) > (r)), { self > r } fn ge_(self, r: i32) -> (b: bool) ensures b == ((self) >= (r)), { self >= r } fn eq_(self, r: i32) -> (b: bool) ensures b == ((self) == (r)), { self == r } fn ne_(self, r: i32) -> (b: bool) ensures b == ((self) != (r)), { self != r } }
impl Cmp for &i32 { open spec fn cv(self) -> real { (*self) as int as real } open spec fn cok() -> bool { true } fn lt_(self, r: &i32) -> (b: bool) ensures b == ((*self) < (*r)), { *self < *r } fn le_(self, r: &i32) -> (b: bool) ensures b == ((*self) <= (*r)), { *self <= *r } fn gt_(self, r: &i32) -> (b: bool) ensures b == ((*self) > (*r)), { *self > *r } fn ge_(self, r: &i32) -> (b: bool) ensures b == ((*self) >= (*r)), { *self >= *r } fn eq_(self, r: &i32) -> (b: bool) ensures b == ((*self) == (*r)), { *self == *r } fn ne_(self, r: &i32) -> (b: bool) ensures b == ((*self) != (*r)), { *self != *r } }
impl Cmp for u8 { open spec fn cv(self) -> real { (self) as int as real } open spec fn cok() -> bool { true } fn lt_(self, r: u8) -> (b: bool) ensures b == ((self) < (r)), { self < r } fn le_(self, r: u8) -> (b: bool) ensures b == ((self) <= (r)), { self <= r } fn gt_(self, r: u8) -> (b: bool) ensures b == ((self) > (r)), { self > r } fn ge_(self, r: u8) -> (b: bool) ensures b == ((self) >= (r)), { self >= r } fn eq_(self, r: u8) -> (b: bool) ensures b == ((self) == (r)), { self == r } fn ne_(self, r: u8) -> (b: bool) ensures b == ((self) != (r)), { self != r } }
impl Cmp for &u8 { open spec fn cv(self) -> real { (*self) as int as real } open spec fn cok() -> bool { true } fn lt_(self, r: &u8) -> (b: bool) ensures b == ((*self) < (*r)), { *self < *r } fn le_(self, r: &u8) -> (b: bool) ensures b == ((*self) <= (*r)), { *self <= *r } fn gt_(self, r: &u8) -> (b: bool) ensures b == ((*self) > (*r)), { *self > *r } fn ge_(self, r: &u8) -> (b: bool) ensures b == ((*self) >= (*r)), { *self >= *r } fn eq_(self, r: &u8) -> (b: bool) ensures b == ((*self) == (*r)), { *self == *r } fn ne_(self, r: &u8) -> (b: bool) ensures b == ((*self) != (*r)), { *self != *r } }
impl Cmp for i8 { open spec fn cv(self) -> real { (self) as int as real } open spec fn cok() -> bool { true } fn lt_(self, r: i8) -> (b: bool) ensures b == ((self) < (r)), { self < r } fn le_(self, r: i8) -> (b: bool) ensures b == ((self) <= (r)), { self <= r } fn gt_(self, r: i8) -> (b: bool) ensures b == ((self) > (r)), { self > r } fn ge_(self, r: i8) -> (b: bool) ensures b == ((self) >= (r)), { self >= r } fn eq_(self, r: i8) -> (b: bool) ensures b == ((self) == (r)), { self == r } fn ne_(self, r: i8) -> (b: bool) ensures b == ((self) != (r)), { self != r } }
impl Cmp for &i8 { open spec fn cv(self) -> real { (*self) as int as real } open spec fn cok() -> bool { true } fn lt_(self, r: &i8) -> (b: bool) ensures b == ((*self) < (*r)), { *self < *r } fn le_(self, r: &i8) -> (b: bool) ensures b == ((*self) <= (*r)), { *self <= *r } fn gt_(self, r: &i8) -> (b: bool) ensures b == ((*self) > (*r)), { *self > *r } fn ge_(self, r: &i8) -> (b: bool) ensures b == ((*self) >= (*r)), { *self >= *r } fn eq_(self, r: &i8) -> (b: bool) ensures b == ((*self) == (*r)), { *self == *r } fn ne_(self, r: &i8) -> (b: bool) ensures b == ((*self) != (*r)), { *self != *r } }
impl Cmp for u16 { open spec fn cv(self) -> real { (self) as int as real } open spec fn cok() -> bool { true } fn lt_(self, r: u16) -> (b: bool) ensures b == ((self) < (r)), { self < r } fn le_(self, r: u16) -> (b: bool) ensures b == ((self) <= (r)), { self <= r } fn gt_(self, r: u16) -> (b: bool) ensures b == ((self) > (r)), { self > r } fn ge_(self, r: u16) -> (b: bool) ensures b == ((self) >= (r)), { self >= r } fn eq_(self, r: u16) -> (b: bool) ensures b == ((self) == (r)), { self == r } fn ne_(self, r: u16) -> (b: bool) ensures b == ((self) != (r)), { self != r } }
impl Cmp for &u16 { open spec fn cv(self) -> real { (*self) as int as real } open spec fn cok() -> bool { true } fn lt_(self, r: &u16) -> (b: bool) ensures b == ((*self) < (*r)), { *self < *r } fn le_(self, r: &u16) -> (b: bool) ensures b == ((*self) <= (*r)), { *self <= *r } fn gt_(self, r: &u16) -> (b: bool) ensures b == ((*self) > (*r)), { *self > *r } fn ge_(self, r: &u16) -> (b: bool) ensures b == ((*self) >= (*r)), { *self >= *r } fn eq_(self, r: &u16) -> (b: bool) ensures b == ((*self) == (*r)), { *self == *r } fn ne_(self, r: &u16) -> (b: bool) ensures b == ((*self) != (*r)), { *self != *r } }
impl Cmp for i16 { open spec fn cv(self) -> real { (self) as int as real } open spec fn cok() -> bool { true } fn lt_(self, r: i16) -> (b: bool) ensures b == ((self) < (r)), { self < r } fn le_(self, r: i16) -> (b: bool) ensures b == ((self) <= (r)), { self <= r } fn gt_(self, r: i16) -> (b: bool) ensures b == ((self) > (r)), { self > r } fn ge_(self, r: i16) -> (b: bool) ensures b == ((self) >= (r)), { self >= r } fn eq_(self, r: i16) -> (b: bool) ensures b == ((self) == (r)), { self == r } fn ne_(self, r: i16) -> (b: bool) ensures b == ((self) != (r)), { self != r } }
impl Cmp for &i16 { open spec fn cv(self) -> real { (*self) as int as real } open spec fn cok() -> bool { true } fn lt_(self, r: &i16) -> (b: bool) ensures b == ((*self) < (*r)), { *self < *r } fn le_(self, r: &i16) -> (b: bool) ensures b == ((*self) <= (*r)), { *self <= *r } fn gt_(self, r: &i16) -> (b: bool) ensures b == ((*self) > (*r)), { *self > *r } fn ge_(self, r: &i16) -> (b: bool) ensures b == ((*self) >= (*r)), { *self >= *r } fn eq_(self, r: &i16) -> (b: bool) ensures b == ((*self) == (*r)), { *self == *r } fn ne_(self, r: &i16) -> (b: bool) ensures b == ((*self) != (*r)), { *self != *r } }
impl Cmp for f64 { open spec fn cv(self) -> real { fr(self) } open spec fn cok() -> bool { float_ideal() } #[verifier::external_body] fn lt_(self, r: f64) -> (b: bool)  { unimplemented!() } #[verifier::external_body] fn le_(self, r: f64) -> (b: bool)  { unimplemented!() } #[verifier::external_body] fn gt_(self, r: f64) -> (b: bool)  { unimplemented!() } #[verifier::external_body] fn ge_(self, r: f64) -> (b: bool)  { unimplemented!() } #[verifier::external_body] fn eq_(self, r: f64) -> (b: bool)  { unimplemented!() } #[verifier::external_body] fn ne_(self, r: f64) -> (b: bool)  { unimplemented!() } }
impl Cmp for &f64 { open spec fn cv(self) -> real { fr(*self) } open spec fn cok() -> bool { float_ideal() } #[verifier::external_body] fn lt_(self, r: &f64) -> (b: bool)  { unimplemented!() } #[verifier::external_body] fn le_(self, r: &f64) -> (b: bool)  { unimplemented!() } #[verifier::external_body] fn gt_(self, r: &f64) -> (b: bool)  { unimplemented!() } #[verifier::external_body] fn ge_(self, r: &f64) -> (b: bool)  { unimplemented!() } #[verifier::external_body] fn eq_(self, r: &f64) -> (b: bool)  { unimplemented!() } #[verifier::external_body] fn ne_(self, r: &f64) -> (b: bool)  { unimplemented!() } }
#[verifier::external_body] pub fn f64_int_lit(i: i64) -> (o: f64) ensures float_ideal() ==> fr(o) == i as int as real, { i as f64 }
pub trait TryFrom<T>: Sized { type Error; spec fn try_ens(v: T, r: Result<Self, Self::Error>) -> bool; fn try_from(v: T) -> (r: Result<Self, Self::Error>) ensures Self::try_ens(v, r); }
#[derive(Debug)] pub struct TryErr {}
impl TryFrom<u64> for i64 { type Error = TryErr; open spec fn try_ens(v: u64, r: Result<i64, TryErr>) -> bool { if i64::MIN <= v as int <= i64::MAX { r matches Ok(x) && x as int == v as int } else { r is Err } } #[verifier::truncate] fn try_from(v: u64) -> (r: Result<i64, TryErr>) { if v as u128 <= i64::MAX as u128 { Ok(v as i64) } else { Err(TryErr {}) } } }
impl TryFrom<i128> for i64 { type Error = TryErr; open spec fn try_ens(v: i128, r: Result<i64, TryErr>) -> bool { if i64::MIN <= v as int <= i64::MAX { r matches Ok(x) && x as int == v as int } else { r is Err } } #[verifier::truncate] fn try_from(v: i128) -> (r: Result<i64, TryErr>) { if i64::MIN as i128 <= v && (v < 0 || v as u128 <= i64::MAX as u128) { Ok(v as i64) } else { Err(TryErr {}) } } }
impl TryFrom<u128> for i64 { type Error = TryErr; open spec fn try_ens(v: u128, r: Result<i64, TryErr>) -> bool { if i64::MIN <= v as int <= i64::MAX { r matches Ok(x) && x as int == v as int } else { r is Err } } #[verifier::truncate] fn try_from(v: u128) -> (r: Result<i64, TryErr>) { if v as u128 <= i64::MAX as u128 { Ok(v as i64) } else { Err(TryErr {}) } } }
impl TryFrom<usize> for i64 { type Error = TryErr; open spec fn try_ens(v: usize, r: Result<i64, TryErr>) -> bool { if i64::MIN <= v as int <= i64::MAX { r matches Ok(x) && x as int == v as int } else { r is Err } } #[verifier::truncate] fn try_from(v: usize) -> (r: Result<i64, TryErr>) { if v as u128 <= i64::MAX as u128 { Ok(v as i64) } else { Err(TryErr {}) } } }
impl TryFrom<u32> for i64 { type Error = TryErr; open spec fn try_ens(v: u32, r: Result<i64, TryErr>) -> bool { if i64::MIN <= v as int <= i64::MAX { r matches Ok(x) && x as int == v as int } else { r is Err } } #[verifier::truncate] fn try_from(v: u32) -> (r: Result<i64, TryErr>) { Ok(v as i64) } }
impl TryFrom<i32> for i64 { type Error = TryErr; open spec fn try_ens(v: i32, r: Result<i64, TryErr>) -> bool { if i64::MIN <= v as int <= i64::MAX { r matches Ok(x) && x as int == v as int } else { r is Err } } #[verifier::truncate] fn try_from(v: i32) -> (r: Result<i64, TryErr>) { Ok(v as i64) } }
impl TryFrom<i64> for u64 { type Error = TryErr; open spec fn try_ens(v: i64, r: Result<u64, TryErr>) -> bool { if u64::MIN <= v as int <= u64::MAX { r matches Ok(x) && x as int == v as int } else { r is Err } } #[verifier::truncate] fn try_from(v: i64) -> (r: Result<u64, TryErr>) { if 0 <= v { Ok(v as u64) } else { Err(TryErr {}) } } }
impl TryFrom<i128> for u64 { type Error = TryErr; open spec fn try_ens(v: i128, r: Result<u64, TryErr>) -> bool { if u64::MIN <= v as int <= u64::MAX { r matches Ok(x) && x as int == v as int } else { r is Err } } #[verifier::truncate] fn try_from(v: i128) -> (r: Result<u64, TryErr>) { if 0 <= v && (v < 0 || v as u128 <= u64::MAX as u128) { Ok(v as u64) } else { Err(TryErr {}) } } }
impl TryFrom<u128> for u64 { type Error = TryErr; open spec fn try_ens(v: u128, r: Result<u64, TryErr>) -> bool { if u64::MIN <= v as int <= u64::MAX { r matches Ok(x) && x as int == v as int } else { r is Err } } #[verifier::truncate] fn try_from(v: u128) -> (r: Result<u64, TryErr>) { if v as u128 <= u64::MAX as u128 { Ok(v as u64) } else { Err(TryErr {}) } } }
impl TryFrom<usize> for u64 { type Error = TryErr; open spec fn try_ens(v: usize, r: Result<u64, TryErr>) -> bool { if u64::MIN <= v as int <= u64::MAX { r matches Ok(x) && x as int == v as int } else { r is Err } } #[verifier::truncate] fn try_from(v: usize) -> (r: Result<u64, TryErr>) { if v as u128 <= u64::MAX as u128 { Ok(v as u64) } else { Err(TryErr {}) } } }
impl TryFrom<u32> for u64 { type Error = TryErr; open spec fn try_ens(v: u32, r: Result<u64, TryErr>) -> bool { if u64::MIN <= v as int <= u64::MAX { r matches Ok(x) && x as int == v as int } else { r is Err } } #[verifier::truncate] fn try_from(v: u32) -> (r: Result<u64, TryErr>) { Ok(v as u64) } }
impl TryFrom<i32> for u64 { type Error = TryErr; open spec fn try_ens(v: i32, r: Result<u64, TryErr>) -> bool { if u64::MIN <= v as int <= u64::MAX { r matches Ok(x) && x as int == v as int } else { r is Err } } #[verifier::truncate] fn try_from(v: i32) -> (r: Result<u64, TryErr>) { if 0 <= v { Ok(v as u64) } else { Err(TryErr {}) } } }
impl TryFrom<i64> for i128 { type Error = TryErr; open spec fn try_ens(v: i64, r: Result<i128, TryErr>) -> bool { if i128::MIN <= v as int <= i128::MAX { r matches Ok(x) && x as int == v as int } else { r is Err } } #[verifier::truncate] fn try_from(v: i64) -> (r: Result<i128, TryErr>) { Ok(v as i128) } }
impl TryFrom<u64> for i128 { type Error = TryErr; open spec fn try_ens(v: u64, r: Result<i128, TryErr>) -> bool { if i128::MIN <= v as int <= i128::MAX { r matches Ok(x) && x as int == v as int } else { r is Err } } #[verifier::truncate] fn try_from(v: u64) -> (r: Result<i128, TryErr>) { Ok(v as i128) } }
impl TryFrom<u128> for i128 { type Error = TryErr; open spec fn try_ens(v: u128, r: Result<i128, TryErr>) -> bool { if i128::MIN <= v as int <= i128::MAX { r matches Ok(x) && x as int == v as int } else { r is Err } } #[verifier::truncate] fn try_from(v: u128) -> (r: Result<i128, TryErr>) { if v as u128 <= i128::MAX as u128 { Ok(v as i128) } else { Err(TryErr {}) } } }
impl TryFrom<usize> for i128 { type Error = TryErr; open spec fn try_ens(v: usize, r: Result<i128, TryErr>) -> bool { if i128::MIN <= v as int <= i128::MAX { r matches Ok(x) && x as int == v as int } else { r is Err } } #[verifier::truncate] fn try_from(v: usize) -> (r: Result<i128, TryErr>) { if v as u128 <= i128::MAX as u128 { Ok(v as i128) } else { Err(TryErr {}) } } }
impl TryFrom<u32> for i128 { type Error = TryErr; open spec fn try_ens(v: u32, r: Result<i128, TryErr>) -> bool { if i128::MIN <= v as int <= i128::MAX { r matches Ok(x) && x as int == v as int } else { r is Err } } #[verifier::truncate] fn try_from(v: u32) -> (r: Result<i128, TryErr>) { Ok(v as i128) } }
impl TryFrom<i32> for i128 { type Error = TryErr; open spec fn try_ens(v: i32, r: Result<i128, TryErr>) -> bool { if i128::MIN <= v as int <= i128::MAX { r matches Ok(x) && x as int == v as int } else { r is Err } } #[verifier::truncate] fn try_from(v: i32) -> (r: Result<i128, TryErr>) { Ok(v as i128) } }
impl TryFrom<i64> for u128 { type Error = TryErr; open spec fn try_ens(v: i64, r: Result<u128, TryErr>) -> bool { if u128::MIN <= v as int <= u128::MAX { r matches Ok(x) && x as int == v as int } else { r is Err } } #[verifier::truncate] fn try_from(v: i64) -> (r: Result<u128, TryErr>) { if 0 <= v { Ok(v as u128) } else { Err(TryErr {}) } } }
impl TryFrom<u64> for u128 { type Error = TryErr; open spec fn try_ens(v: u64, r: Result<u128, TryErr>) -> bool { if u128::MIN <= v as int <= u128::MAX { r matches Ok(x) && x as int == v as int } else { r is Err } } #[verifier::truncate] fn try_from(v: u64) -> (r: Result<u128, TryErr>) { Ok(v as u128) } }
impl TryFrom<i128> for u128 { type Error = TryErr; open spec fn try_ens(v: i128, r: Result<u128, TryErr>) -> bool { if u128::MIN <= v as int <= u128::MAX { r matches Ok(x) && x as int == v as int } else { r is Err } } #[verifier::truncate] fn try_from(v: i128) -> (r: Result<u128, TryErr>) { if 0 <= v { Ok(v as u128) } else { Err(TryErr {}) } } }
impl TryFrom<usize> for u128 { type Error = TryErr; open spec fn try_ens(v: usize, r: Result<u128, TryErr>) -> bool { if u128::MIN <= v as int <= u128::MAX { r matches Ok(x) && x as int == v as int } else { r is Err } } #[verifier::truncate] fn try_from(v: usize) -> (r: Result<u128, TryErr>) { if v as u128 <= u128::MAX as u128 { Ok(v as u128) } else { Err(TryErr {}) } } }
impl TryFrom<u32> for u128 { type Error = TryErr; open spec fn try_ens(v: u32, r: Result<u128, TryErr>) -> bool { if u128::MIN <= v as int <= u128::MAX { r matches Ok(x) && x as int == v as int } else { r is Err } } #[verifier::truncate] fn try_from(v: u32) -> (r: Result<u128, TryErr>) { Ok(v as u128) } }
impl TryFrom<i32> for u128 { type Error = TryErr; open spec fn try_ens(v: i32, r: Result<u128, TryErr>) -> bool { if u128::MIN <= v as int <= u128::MAX { r matches Ok(x) && x as int == v as int } else { r is Err } } #[verifier::truncate] fn try_from(v: i32) -> (r: Result<u128, TryErr>) { if 0 <= v { Ok(v as u128) } else { Err(TryErr {}) } } }
impl TryFrom<i64> for usize { type Error = TryErr; open spec fn try_ens(v: i64, r: Result<usize, TryErr>) -> bool { if usize::MIN <= v as int <= usize::MAX { r matches Ok(x) && x as int == v as int } else { r is Err } } #[verifier::truncate] fn try_from(v: i64) -> (r: Result<usize, TryErr>) { if 0 <= v && (v < 0 || v as u128 <= usize::MAX as u128) { Ok(v as usize) } else { Err(TryErr {}) } } }
impl TryFrom<u64> for usize { type Error = TryErr; open spec fn try_ens(v: u64, r: Result<usize, TryErr>) -> bool { if usize::MIN <= v as int <= usize::MAX { r matches Ok(x) && x as int == v as int } else { r is Err } } #[verifier::truncate] fn try_from(v: u64) -> (r: Result<usize, TryErr>) { if v as u128 <= usize::MAX as u128 { Ok(v as usize) } else { Err(TryErr {}) } } }
impl TryFrom<i128> for usize { type Error = TryErr; open spec fn try_ens(v: i128, r: Result<usize, TryErr>) -> bool { if usize::MIN <= v as int <= usize::MAX { r matches Ok(x) && x as int == v as int } else { r is Err } } #[verifier::truncate] fn try_from(v: i128) -> (r: Result<usize, TryErr>) { if 0 <= v && (v < 0 || v as u128 <= usize::MAX as u128) { Ok(v as usize) } else { Err(TryErr {}) } } }
impl TryFrom<u128> for usize { type Error = TryErr; open spec fn try_ens(v: u128, r: Result<usize, TryErr>) -> bool { if usize::MIN <= v as int <= usize::MAX { r matches Ok(x) && x as int == v as int } else { r is Err } } #[verifier::truncate] fn try_from(v: u128) -> (r: Result<usize, TryErr>) { if v as u128 <= usize::MAX as u128 { Ok(v as usize) } else { Err(TryErr {}) } } }
impl TryFrom<u32> for usize { type Error = TryErr; open spec fn try_ens(v: u32, r: Result<usize, TryErr>) -> bool { if usize::MIN <= v as int <= usize::MAX { r matches Ok(x) && x as int == v as int } else { r is Err } } #[verifier::truncate] fn try_from(v: u32) -> (r: Result<usize, TryErr>) { if v as u128 <= usize::MAX as u128 { Ok(v as usize) } else { Err(TryErr {}) } } }
impl TryFrom<i32> for usize { type Error = TryErr; open spec fn try_ens(v: i32, r: Result<usize, TryErr>) -> bool { if usize::MIN <= v as int <= usize::MAX { r matches Ok(x) && x as int == v as int } else { r is Err } } #[verifier::truncate] fn try_from(v: i32) -> (r: Result<usize, TryErr>) { if 0 <= v && (v < 0 || v as u128 <= usize::MAX as u128) { Ok(v as usize) } else { Err(TryErr {}) } } }
impl TryFrom<i64> for u32 { type Error = TryErr; open spec fn try_ens(v: i64, r: Result<u32, TryErr>) -> bool { if u32::MIN <= v as int <= u32::MAX { r matches Ok(x) && x as int == v as int } else { r is Err } } #[verifier::truncate] fn try_from(v: i64) -> (r: Result<u32, TryErr>) { if 0 <= v && (v < 0 || v as u128 <= u32::MAX as u128) { Ok(v as u32) } else { Err(TryErr {}) } } }
impl TryFrom<u64> for u32 { type Error = TryErr; open spec fn try_ens(v: u64, r: Result<u32, TryErr>) -> bool { if u32::MIN <= v as int <= u32::MAX { r matches Ok(x) && x as int == v as int } else { r is Err } } #[verifier::truncate] fn try_from(v: u64) -> (r: Result<u32, TryErr>) { if v as u128 <= u32::MAX as u128 { Ok(v as u32) } else { Err(TryErr {}) } } }
impl TryFrom<i128> for u32 { type Error = TryErr; open spec fn try_ens(v: i128, r: Result<u32, TryErr>) -> bool { if u32::MIN <= v as int <= u32::MAX { r matches Ok(x) && x as int == v as int } else { r is Err } } #[verifier::truncate] fn try_from(v: i128) -> (r: Result<u32, TryErr>) { if 0 <= v && (v < 0 || v as u128 <= u32::MAX as u128) { Ok(v as u32) } else { Err(TryErr {}) } } }
impl TryFrom<u128> for u32 { type Error = TryErr; open spec fn try_ens(v: u128, r: Result<u32, TryErr>) -> bool { if u32::MIN <= v as int <= u32::MAX { r matches Ok(x) && x as int == v as int } else { r is Err } } #[verifier::truncate] fn try_from(v: u128) -> (r: Result<u32, TryErr>) { if v as u128 <= u32::MAX as u128 { Ok(v as u32) } else { Err(TryErr {}) } } }
impl TryFrom<usize> for u32 { type Error = TryErr; open spec fn try_ens(v: usize, r: Result<u32, TryErr>) -> bool { if u32::MIN <= v as int <= u32::MAX { r matches Ok(x) && x as int == v as int } else { r is Err } } #[verifier::truncate] fn try_from(v: usize) -> (r: Result<u32, TryErr>) { if v as u128 <= u32::MAX as u128 { Ok(v as u32) } else { Err(TryErr {}) } } }
impl TryFrom<i32> for u32 { type Error = TryErr; open spec fn try_ens(v: i32, r: Result<u32, TryErr>) -> bool { if u32::MIN <= v as int <= u32::MAX { r matches Ok(x) && x as int == v as int } else { r is Err } } #[verifier::truncate] fn try_from(v: i32) -> (r: Result<u32, TryErr>) { if 0 <= v { Ok(v as u32) } else { Err(TryErr {}) } } }
impl TryFrom<i64> for i32 { type Error = TryErr; open spec fn try_ens(v: i64, r: Result<i32, TryErr>) -> bool { if i32::MIN <= v as int <= i32::MAX { r matches Ok(x) && x as int == v as int } else { r is Err } } #[verifier::truncate] fn try_from(v: i64) -> (r: Result<i32, TryErr>) { if i32::MIN as i64 <= v && (v < 0 || v as u128 <= i32::MAX as u128) { Ok(v as i32) } else { Err(TryErr {}) } } }
impl TryFrom<u64> for i32 { type Error = TryErr; open spec fn try_ens(v: u64, r: Result<i32, TryErr>) -> bool { if i32::MIN <= v as int <= i32::MAX { r matches Ok(x) && x as int == v as int } else { r is Err } } #[verifier::truncate] fn try_from(v: u64) -> (r: Result<i32, TryErr>) { if v as u128 <= i32::MAX as u128 { Ok(v as i32) } else { Err(TryErr {}) } } }
impl TryFrom<i128> for i32 { type Error = TryErr; open spec fn try_ens(v: i128, r: Result<i32, TryErr>) -> bool { if i32::MIN <= v as int <= i32::MAX { r matches Ok(x) && x as int == v as int } else { r is Err } } #[verifier::truncate] fn try_from(v: i128) -> (r: Result<i32, TryErr>) { if i32::MIN as i128 <= v && (v < 0 || v as u128 <= i32::MAX as u128) { Ok(v as i32) } else { Err(TryErr {}) } } }
impl TryFrom<u128> for i32 { type Error = TryErr; open spec fn try_ens(v: u128, r: Result<i32, TryErr>) -> bool { if i32::MIN <= v as int <= i32::MAX { r matches Ok(x) && x as int == v as int } else { r is Err } } #[verifier::truncate] fn try_from(v: u128) -> (r: Result<i32, TryErr>) { if v as u128 <= i32::MAX as u128 { Ok(v as i32) } else { Err(TryErr {}) } } }
impl TryFrom<usize> for i32 { type Error = TryErr; open spec fn try_ens(v: usize, r: Result<i32, TryErr>) -> bool { if i32::MIN <= v as int <= i32::MAX { r matches Ok(x) && x as int == v as int } else { r is Err } } #[verifier::truncate] fn try_from(v: usize) -> (r: Result<i32, TryErr>) { if v as u128 <= i32::MAX as u128 { Ok(v as i32) } else { Err(TryErr {}) } } }
impl TryFrom<u32> for i32 { type Error = TryErr; open spec fn try_ens(v: u32, r: Result<i32, TryErr>) -> bool { if i32::MIN <= v as int <= i32::MAX { r matches Ok(x) && x as int == v as int } else { r is Err } } #[verifier::truncate] fn try_from(v: u32) -> (r: Result<i32, TryErr>) { if v as u128 <= i32::MAX as u128 { Ok(v as i32) } else { Err(TryErr {}) } } }
/// an integer as sign and magnitude
pub trait ToI: Sized { spec fn toi(self) -> int; fn split(self) -> (r: (bool, u128)) ensures self.toi() == (if r.0 { -(r.1 as int) } else { r.1 as int }); }
impl ToI for i64 { open spec fn toi(self) -> int { self as int } fn split(self) -> (r: (bool, u128)) { if self >= 0 { (false, self as u128) } else if self == i64::MIN { (true, i64::MAX as u128 + 1) } else { (true, (-self) as u128) } } }
impl ToI for u64 { open spec fn toi(self) -> int { self as int } fn split(self) -> (r: (bool, u128)) { (false, self as u128) } }
impl ToI for i128 { open spec fn toi(self) -> int { self as int } fn split(self) -> (r: (bool, u128)) { if self >= 0 { (false, self as u128) } else if self == i128::MIN { (true, i128::MAX as u128 + 1) } else { (true, (-self) as u128) } } }
impl ToI for u128 { open spec fn toi(self) -> int { self as int } fn split(self) -> (r: (bool, u128)) { (false, self as u128) } }
impl ToI for usize { open spec fn toi(self) -> int { self as int } fn split(self) -> (r: (bool, u128)) { (false, self as u128) } }
impl ToI for u32 { open spec fn toi(self) -> int { self as int } fn split(self) -> (r: (bool, u128)) { (false, self as u128) } }
impl ToI for i32 { open spec fn toi(self) -> int { self as int } fn split(self) -> (r: (bool, u128)) { if self >= 0 { (false, self as u128) } else if self == i32::MIN { (true, i32::MAX as u128 + 1) } else { (true, (-self) as u128) } } }
impl ToI for u8 { open spec fn toi(self) -> int { self as int } fn split(self) -> (r: (bool, u128)) { (false, self as u128) } }
impl ToI for i8 { open spec fn toi(self) -> int { self as int } fn split(self) -> (r: (bool, u128)) { if self >= 0 { (false, self as u128) } else if self == i8::MIN { (true, i8::MAX as u128 + 1) } else { (true, (-self) as u128) } } }
impl ToI for u16 { open spec fn toi(self) -> int { self as int } fn split(self) -> (r: (bool, u128)) { (false, self as u128) } }
impl ToI for i16 { open spec fn toi(self) -> int { self as int } fn split(self) -> (r: (bool, u128)) { if self >= 0 { (false, self as u128) } else if self == i16::MIN { (true, i16::MAX as u128 + 1) } else { (true, (-self) as u128) } } }
pub fn vec0<T>() -> (v: Vec<T>) ensures v@ == Seq::<T>::empty(), { Vec::new() }
pub fn vec1<T>(a0: T) -> (v: Vec<T>) ensures v@ == seq![a0], v@.len() == 1, v@[0] == a0, { let mut v = Vec::new(); v.push(a0); proof { assert(v@ =~= seq![a0]); } v }
pub fn vec2<T>(a0: T, a1: T) -> (v: Vec<T>) ensures v@ == seq![a0, a1], v@.len() == 2, v@[0] == a0, v@[1] == a1, { let mut v = Vec::new(); v.push(a0); v.push(a1); proof { assert(v@ =~= seq![a0, a1]); } v }
pub fn vec3<T>(a0: T, a1: T, a2: T) -> (v: Vec<T>) ensures v@ == seq![a0, a1, a2], v@.len() == 3, v@[0] == a0, v@[1] == a1, v@[2] == a2, { let mut v = Vec::new(); v.push(a0); v.push(a1); v.push(a2); proof { assert(v@ =~= seq![a0, a1, a2]); } v }
pub fn vec4<T>(a0: T, a1: T, a2: T, a3: T) -> (v: Vec<T>) ensures v@ == seq![a0, a1, a2, a3], v@.len() == 4, v@[0] == a0, v@[1] == a1, v@[2] == a2, v@[3] == a3, { let mut v = Vec::new(); v.push(a0); v.push(a1); v.push(a2); v.push(a3); proof { assert(v@ =~= seq![a0, a1, a2, a3]); } v }
pub fn vec5<T>(a0: T, a1: T, a2: T, a3: T, a4: T) -> (v: Vec<T>) ensures v@ == seq![a0, a1, a2, a3, a4], v@.len() == 5, v@[0] == a0, v@[1] == a1, v@[2] == a2, v@[3] == a3, v@[4] == a4, { let mut v = Vec::new(); v.push(a0); v.push(a1); v.push(a2); v.push(a3); v.push(a4); proof { assert(v@ =~= seq![a0, a1, a2, a3, a4]); } v }
pub fn vec6<T>(a0: T, a1: T, a2: T, a3: T, a4: T, a5: T) -> (v: Vec<T>) ensures v@ == seq![a0, a1, a2, a3, a4, a5], v@.len() == 6, v@[0] == a0, v@[1] == a1, v@[2] == a2, v@[3] == a3, v@[4] == a4, v@[5] == a5, { let mut v = Vec::new(); v.push(a0); v.push(a1); v.push(a2); v.push(a3); v.push(a4); v.push(a5); proof { assert(v@ =~= seq![a0, a1, a2, a3, a4, a5]); } v }
impl From<u8> for i64 { open spec fn from_ens(v: u8, r: i64) -> bool { r as int == v as int } fn from(v: u8) -> (r: i64) { v as i64 } }
impl From<i8> for i64 { open spec fn from_ens(v: i8, r: i64) -> bool { r as int == v as int } fn from(v: i8) -> (r: i64) { v as i64 } }
impl From<u16> for i64 { open spec fn from_ens(v: u16, r: i64) -> bool { r as int == v as int } fn from(v: u16) -> (r: i64) { v as i64 } }
impl From<i16> for i64 { open spec fn from_ens(v: i16, r: i64) -> bool { r as int == v as int } fn from(v: i16) -> (r: i64) { v as i64 } }
impl From<u32> for i64 { open spec fn from_ens(v: u32, r: i64) -> bool { r as int == v as int } fn from(v: u32) -> (r: i64) { v as i64 } }
impl From<i32> for i64 { open spec fn from_ens(v: i32, r: i64) -> bool { r as int == v as int } fn from(v: i32) -> (r: i64) { v as i64 } }
impl From<u8> for u64 { open spec fn from_ens(v: u8, r: u64) -> bool { r as int == v as int } fn from(v: u8) -> (r: u64) { v as u64 } }
impl From<u16> for u64 { open spec fn from_ens(v: u16, r: u64) -> bool { r as int == v as int } fn from(v: u16) -> (r: u64) { v as u64 } }
impl From<u32> for u64 { open spec fn from_ens(v: u32, r: u64) -> bool { r as int == v as int } fn from(v: u32) -> (r: u64) { v as u64 } }
impl From<i64> for i128 { open spec fn from_ens(v: i64, r: i128) -> bool { r as int == v as int } fn from(v: i64) -> (r: i128) { v as i128 } }
impl From<u64> for i128 { open spec fn from_ens(v: u64, r: i128) -> bool { r as int == v as int } fn from(v: u64) -> (r: i128) { v as i128 } }
impl From<u64> for u128 { open spec fn from_ens(v: u64, r: u128) -> bool { r as int == v as int } fn from(v: u64) -> (r: u128) { v as u128 } }
impl From<u32> for u128 { open spec fn from_ens(v: u32, r: u128) -> bool { r as int == v as int } fn from(v: u32) -> (r: u128) { v as u128 } }
impl From<i32> for i128 { open spec fn from_ens(v: i32, r: i128) -> bool { r as int == v as int } fn from(v: i32) -> (r: i128) { v as i128 } }
impl VShow for i64 { open spec fn show_req(&self) -> bool { true } open spec fn show_ens(&self, s: Seq<char>) -> bool { s == show_int(*self as int) } #[verifier::external_body] fn vshow(&self) -> (r: String) { format!("{}", self) } }
impl VShow for u64 { open spec fn show_req(&self) -> bool { true } open spec fn show_ens(&self, s: Seq<char>) -> bool { s == show_int(*self as int) } #[verifier::external_body] fn vshow(&self) -> (r: String) { format!("{}", self) } }
impl VShow for i128 { open spec fn show_req(&self) -> bool { true } open spec fn show_ens(&self, s: Seq<char>) -> bool { s == show_int(*self as int) } #[verifier::external_body] fn vshow(&self) -> (r: String) { format!("{}", self) } }
impl VShow for u128 { open spec fn show_req(&self) -> bool { true } open spec fn show_ens(&self, s: Seq<char>) -> bool { s == show_int(*self as int) } #[verifier::external_body] fn vshow(&self) -> (r: String) { format!("{}", self) } }
impl VShow for usize { open spec fn show_req(&self) -> bool { true } open spec fn show_ens(&self, s: Seq<char>) -> bool { s == show_int(*self as int) } #[verifier::external_body] fn vshow(&self) -> (r: String) { format!("{}", self) } }
impl VShow for u32 { open spec fn show_req(&self) -> bool { true } open spec fn show_ens(&self, s: Seq<char>) -> bool { s == show_int(*self as int) } #[verifier::external_body] fn vshow(&self) -> (r: String) { format!("{}", self) } }
impl VShow for i32 { open spec fn show_req(&self) -> bool { true } open spec fn show_ens(&self, s: Seq<char>) -> bool { s == show_int(*self as int) } #[verifier::external_body] fn vshow(&self) -> (r: String) { format!("{}", self) } }
//@ prelude partial
// Overflow panics (overflow checks on); no result is returned then, so results are exact.
impl Add<i64> for i64 { type Output = i64; open spec fn add_ok(self, r: i64) -> bool { true } fn add(self, r: i64) -> (o: i64) ensures o as int == (self as int + r as int), { match self.checked_add(r) { Some(o) => o, None => overflow() } } }
impl Add<&i64> for i64 { type Output = i64; open spec fn add_ok(self, r: &i64) -> bool { true } fn add(self, r: &i64) -> (o: i64) ensures o as int == (self as int + *r as int), { match self.checked_add(*r) { Some(o) => o, None => overflow() } } }
impl Sub<i64> for i64 { type Output = i64; open spec fn sub_ok(self, r: i64) -> bool { true } fn sub(self, r: i64) -> (o: i64) ensures o as int == (self as int - r as int), { match self.checked_sub(r) { Some(o) => o, None => overflow() } } }
impl Sub<&i64> for i64 { type Output = i64; open spec fn sub_ok(self, r: &i64) -> bool { true } fn sub(self, r: &i64) -> (o: i64) ensures o as int == (self as int - *r as int), { match self.checked_sub(*r) { Some(o) => o, None => overflow() } } }
impl Mul<i64> for i64 { type Output = i64; open spec fn mul_ok(self, r: i64) -> bool { true } fn mul(self, r: i64) -> (o: i64) ensures o as int == (self as int * r as int), { match self.checked_mul(r) { Some(o) => o, None => overflow() } } }
impl Mul<&i64> for i64 { type Output = i64; open spec fn mul_ok(self, r: &i64) -> bool { true } fn mul(self, r: &i64) -> (o: i64) ensures o as int == (self as int * *r as int), { match self.checked_mul(*r) { Some(o) => o, None => overflow() } } }
impl Div<i64> for i64 { type Output = i64; open spec fn div_ok(self, r: i64) -> bool { r != 0 } fn div(self, r: i64) -> (o: i64) ensures o as int == tdiv(self as int, r as int), { proof { lemma_trunc(self as int, r as int); } match self.checked_div(r) { Some(o) => o, None => overflow() } } }
impl Div<&i64> for i64 { type Output = i64; open spec fn div_ok(self, r: &i64) -> bool { *r != 0 } fn div(self, r: &i64) -> (o: i64) ensures o as int == tdiv(self as int, *r as int), { proof { lemma_trunc(self as int, *r as int); } match self.checked_div(*r) { Some(o) => o, None => overflow() } } }
impl Rem<i64> for i64 { type Output = i64; open spec fn rem_ok(self, r: i64) -> bool { r != 0 } fn rem(self, r: i64) -> (o: i64) ensures o as int == trem(self as int, r as int), { proof { lemma_trunc(self as int, r as int); } match self.checked_rem(r) { Some(o) => o, None => overflow() } } }
impl Rem<&i64> for i64 { type Output = i64; open spec fn rem_ok(self, r: &i64) -> bool { *r != 0 } fn rem(self, r: &i64) -> (o: i64) ensures o as int == trem(self as int, *r as int), { proof { lemma_trunc(self as int, *r as int); } match self.checked_rem(*r) { Some(o) => o, None => overflow() } } }
impl Neg for i64 { type Output = i64; open spec fn neg_ok(self) -> bool { true } fn neg(self) -> (o: i64) ensures o as int == -(self as int), { if self == i64::MIN { overflow() } else { -self } } }
impl Add<u64> for u64 { type Output = u64; open spec fn add_ok(self, r: u64) -> bool { true } fn add(self, r: u64) -> (o: u64) ensures o as int == (self as int + r as int), { match self.checked_add(r) { Some(o) => o, None => overflow() } } }
impl Add<&u64> for u64 { type Output = u64; open spec fn add_ok(self, r: &u64) -> bool { true } fn add(self, r: &u64) -> (o: u64) ensures o as int == (self as int + *r as int), { match self.checked_add(*r) { Some(o) => o, None => overflow() } } }
impl Sub<u64> for u64 { type Output = u64; open spec fn sub_ok(self, r: u64) -> bool { true } fn sub(self, r: u64) -> (o: u64) ensures o as int == (self as int - r as int), { match self.checked_sub(r) { Some(o) => o, None => overflow() } } }
impl Sub<&u64> for u64 { type Output = u64; open spec fn sub_ok(self, r: &u64) -> bool { true } fn sub(self, r: &u64) -> (o: u64) ensures o as int == (self as int - *r as int), { match self.checked_sub(*r) { Some(o) => o, None => overflow() } } }
impl Mul<u64> for u64 { type Output = u64; open spec fn mul_ok(self, r: u64) -> bool { true } fn mul(self, r: u64) -> (o: u64) ensures o as int == (self as int * r as int), { match self.checked_mul(r) { Some(o) => o, None => overflow() } } }
impl Mul<&u64> for u64 { type Output = u64; open spec fn mul_ok(self, r: &u64) -> bool { true } fn mul(self, r: &u64) -> (o: u64) ensures o as int == (self as int * *r as int), { match self.checked_mul(*r) { Some(o) => o, None => overflow() } } }
impl Div<u64> for u64 { type Output = u64; open spec fn div_ok(self, r: u64) -> bool { r != 0 } fn div(self, r: u64) -> (o: u64) ensures o as int == self as int / r as int, { self / r } }
impl Div<&u64> for u64 { type Output = u64; open spec fn div_ok(self, r: &u64) -> bool { *r != 0 } fn div(self, r: &u64) -> (o: u64) ensures o as int == self as int / *r as int, { self / *r } }
impl Rem<u64> for u64 { type Output = u64; open spec fn rem_ok(self, r: u64) -> bool { r != 0 } fn rem(self, r: u64) -> (o: u64) ensures o as int == self as int % r as int, { self % r } }
impl Rem<&u64> for u64 { type Output = u64; open spec fn rem_ok(self, r: &u64) -> bool { *r != 0 } fn rem(self, r: &u64) -> (o: u64) ensures o as int == self as int % *r as int, { self % *r } }
impl Add<i128> for i128 { type Output = i128; open spec fn add_ok(self, r: i128) -> bool { true } fn add(self, r: i128) -> (o: i128) ensures o as int == (self as int + r as int), { match self.checked_add(r) { Some(o) => o, None => overflow() } } }
impl Sub<i128> for i128 { type Output = i128; open spec fn sub_ok(self, r: i128) -> bool { true } fn sub(self, r: i128) -> (o: i128) ensures o as int == (self as int - r as int), { match self.checked_sub(r) { Some(o) => o, None => overflow() } } }
impl Mul<i128> for i128 { type Output = i128; open spec fn mul_ok(self, r: i128) -> bool { true } fn mul(self, r: i128) -> (o: i128) ensures o as int == (self as int * r as int), { match self.checked_mul(r) { Some(o) => o, None => overflow() } } }
impl Div<i128> for i128 { type Output = i128; open spec fn div_ok(self, r: i128) -> bool { r != 0 } fn div(self, r: i128) -> (o: i128) ensures o as int == tdiv(self as int, r as int), { proof { lemma_trunc(self as int, r as int); } match self.checked_div(r) { Some(o) => o, None => overflow() } } }
impl Rem<i128> for i128 { type Output = i128; open spec fn rem_ok(self, r: i128) -> bool { r != 0 } fn rem(self, r: i128) -> (o: i128) ensures o as int == trem(self as int, r as int), { proof { lemma_trunc(self as int, r as int); } match self.checked_rem(r) { Some(o) => o, None => overflow() } } }
impl Neg for i128 { type Output = i128; open spec fn neg_ok(self) -> bool { true } fn neg(self) -> (o: i128) ensures o as int == -(self as int), { if self == i128::MIN { overflow() } else { -self } } }
impl Add<u128> for u128 { type Output = u128; open spec fn add_ok(self, r: u128) -> bool { true } fn add(self, r: u128) -> (o: u128) ensures o as int == (self as int + r as int), { match self.checked_add(r) { Some(o) => o, None => overflow() } } }
impl Sub<u128> for u128 { type Output = u128; open spec fn sub_ok(self, r: u128) -> bool { true } fn sub(self, r: u128) -> (o: u128) ensures o as int == (self as int - r as int), { match self.checked_sub(r) { Some(o) => o, None => overflow() } } }
impl Mul<u128> for u128 { type Output = u128; open spec fn mul_ok(self, r: u128) -> bool { true } fn mul(self, r: u128) -> (o: u128) ensures o as int == (self as int * r as int), { match self.checked_mul(r) { Some(o) => o, None => overflow() } } }
impl Div<u128> for u128 { type Output = u128; open spec fn div_ok(self, r: u128) -> bool { r != 0 } fn div(self, r: u128) -> (o: u128) ensures o as int == self as int / r as int, { self / r } }
impl Rem<u128> for u128 { type Output = u128; open spec fn rem_ok(self, r: u128) -> bool { r != 0 } fn rem(self, r: u128) -> (o: u128) ensures o as int == self as int % r as int, { self % r } }
impl Add<usize> for usize { type Output = usize; open spec fn add_ok(self, r: usize) -> bool { true } fn add(self, r: usize) -> (o: usize) ensures o as int == (self as int + r as int), { match self.checked_add(r) { Some(o) => o, None => overflow() } } }
impl Sub<usize> for usize { type Output = usize; open spec fn sub_ok(self, r: usize) -> bool { true } fn sub(self, r: usize) -> (o: usize) ensures o as int == (self as int - r as int), { match self.checked_sub(r) { Some(o) => o, None => overflow() } } }
impl Mul<usize> for usize { type Output = usize; open spec fn mul_ok(self, r: usize) -> bool { true } fn mul(self, r: usize) -> (o: usize) ensures o as int == (self as int * r as int), { match self.checked_mul(r) { Some(o) => o, None => overflow() } } }
impl Div<usize> for usize { type Output = usize; open spec fn div_ok(self, r: usize) -> bool { r != 0 } fn div(self, r: usize) -> (o: usize) ensures o as int == self as int / r as int, { self / r } }
impl Rem<usize> for usize { type Output = usize; open spec fn rem_ok(self, r: usize) -> bool { r != 0 } fn rem(self, r: usize) -> (o: usize) ensures o as int == self as int % r as int, { self % r } }
impl Add<u32> for u32 { type Output = u32; open spec fn add_ok(self, r: u32) -> bool { true } fn add(self, r: u32) -> (o: u32) ensures o as int == (self as int + r as int), { match self.checked_add(r) { Some(o) => o, None => overflow() } } }
impl Sub<u32> for u32 { type Output = u32; open spec fn sub_ok(self, r: u32) -> bool { true } fn sub(self, r: u32) -> (o: u32) ensures o as int == (self as int - r as int), { match self.checked_sub(r) { Some(o) => o, None => overflow() } } }
impl Mul<u32> for u32 { type Output = u32; open spec fn mul_ok(self, r: u32) -> bool { true } fn mul(self, r: u32) -> (o: u32) ensures o as int == (self as int * r as int), { match self.checked_mul(r) { Some(o) => o, None => overflow() } } }
impl Div<u32> for u32 { type Output = u32; open spec fn div_ok(self, r: u32) -> bool { r != 0 } fn div(self, r: u32) -> (o: u32) ensures o as int == self as int / r as int, { self / r } }
impl Rem<u32> for u32 { type Output = u32; open spec fn rem_ok(self, r: u32) -> bool { r != 0 } fn rem(self, r: u32) -> (o: u32) ensures o as int == self as int % r as int, { self % r } }
impl Add<i32> for i32 { type Output = i32; open spec fn add_ok(self, r: i32) -> bool { true } fn add(self, r: i32) -> (o: i32) ensures o as int == (self as int + r as int), { match self.checked_add(r) { Some(o) => o, None => overflow() } } }
impl Sub<i32> for i32 { type Output = i32; open spec fn sub_ok(self, r: i32) -> bool { true } fn sub(self, r: i32) -> (o: i32) ensures o as int == (self as int - r as int), { match self.checked_sub(r) { Some(o) => o, None => overflow() } } }
impl Mul<i32> for i32 { type Output = i32; open spec fn mul_ok(self, r: i32) -> bool { true } fn mul(self, r: i32) -> (o: i32) ensures o as int == (self as int * r as int), { match self.checked_mul(r) { Some(o) => o, None => overflow() } } }
impl Div<i32> for i32 { type Output = i32; open spec fn div_ok(self, r: i32) -> bool { r != 0 } fn div(self, r: i32) -> (o: i32) ensures o as int == tdiv(self as int, r as int), { proof { lemma_trunc(self as int, r as int); } match self.checked_div(r) { Some(o) => o, None => overflow() } } }
impl Rem<i32> for i32 { type Output = i32; open spec fn rem_ok(self, r: i32) -> bool { r != 0 } fn rem(self, r: i32) -> (o: i32) ensures o as int == trem(self as int, r as int), { proof { lemma_trunc(self as int, r as int); } match self.checked_rem(r) { Some(o) => o, None => overflow() } } }
impl Neg for i32 { type Output = i32; open spec fn neg_ok(self) -> bool { true } fn neg(self) -> (o: i32) ensures o as int == -(self as int), { if self == i32::MIN { overflow() } else { -self } } }
pub fn checked_as_i64<T: ToI>(x: T) -> (o: i64)  ensures o as int == x.toi(), { let (n, m) = x.split(); if n { if m <= i64::MAX as u128 { -(m as i64) } else if m == i64::MAX as u128 + 1 { i64::MIN } else { overflow() } } else if m <= i64::MAX as u128 { m as i64 } else { overflow() } }
pub fn checked_as_u64<T: ToI>(x: T) -> (o: u64)  ensures o as int == x.toi(), { let (n, m) = x.split(); if n { if m == 0 { 0 } else { overflow() } } else if m <= u64::MAX as u128 { m as u64 } else { overflow() } }
pub fn checked_as_i128<T: ToI>(x: T) -> (o: i128)  ensures o as int == x.toi(), { let (n, m) = x.split(); if n { if m <= i128::MAX as u128 { -(m as i128) } else if m == i128::MAX as u128 + 1 { i128::MIN } else { overflow() } } else if m <= i128::MAX as u128 { m as i128 } else { overflow() } }
pub fn checked_as_u128<T: ToI>(x: T) -> (o: u128)  ensures o as int == x.toi(), { let (n, m) = x.split(); if n { if m == 0 { 0 } else { overflow() } } else if m <= u128::MAX as u128 { m as u128 } else { overflow() } }
pub fn checked_as_usize<T: ToI>(x: T) -> (o: usize)  ensures o as int == x.toi(), { let (n, m) = x.split(); if n { if m == 0 { 0 } else { overflow() } } else if m <= usize::MAX as u128 { m as usize } else { overflow() } }
pub fn checked_as_u32<T: ToI>(x: T) -> (o: u32)  ensures o as int == x.toi(), { let (n, m) = x.split(); if n { if m == 0 { 0 } else { overflow() } } else if m <= u32::MAX as u128 { m as u32 } else { overflow() } }
pub fn checked_as_i32<T: ToI>(x: T) -> (o: i32)  ensures o as int == x.toi(), { let (n, m) = x.split(); if n { if m <= i32::MAX as u128 { -(m as i32) } else if m == i32::MAX as u128 + 1 { i32::MIN } else { overflow() } } else if m <= i32::MAX as u128 { m as i32 } else { overflow() } }
pub assume_specification[ i64::abs ](x: i64) -> (r: i64) ensures r as int == iabs(x as int);
pub assume_specification[ i128::abs ](x: i128) -> (r: i128) ensures r as int == iabs(x as int);
//@ prelude strict
// Overflow is an obligation.
impl Add<i64> for i64 { type Output = i64; open spec fn add_ok(self, r: i64) -> bool { i64::MIN <= (self as int + r as int) <= i64::MAX } fn add(self, r: i64) -> (o: i64) ensures o as int == (self as int + r as int), { self + r } }
impl Add<&i64> for i64 { type Output = i64; open spec fn add_ok(self, r: &i64) -> bool { i64::MIN <= (self as int + *r as int) <= i64::MAX } fn add(self, r: &i64) -> (o: i64) ensures o as int == (self as int + *r as int), { self + *r } }
impl Sub<i64> for i64 { type Output = i64; open spec fn sub_ok(self, r: i64) -> bool { i64::MIN <= (self as int - r as int) <= i64::MAX } fn sub(self, r: i64) -> (o: i64) ensures o as int == (self as int - r as int), { self - r } }
impl Sub<&i64> for i64 { type Output = i64; open spec fn sub_ok(self, r: &i64) -> bool { i64::MIN <= (self as int - *r as int) <= i64::MAX } fn sub(self, r: &i64) -> (o: i64) ensures o as int == (self as int - *r as int), { self - *r } }
impl Mul<i64> for i64 { type Output = i64; open spec fn mul_ok(self, r: i64) -> bool { i64::MIN <= (self as int * r as int) <= i64::MAX } fn mul(self, r: i64) -> (o: i64) ensures o as int == (self as int * r as int), { self * r } }
impl Mul<&i64> for i64 { type Output = i64; open spec fn mul_ok(self, r: &i64) -> bool { i64::MIN <= (self as int * *r as int) <= i64::MAX } fn mul(self, r: &i64) -> (o: i64) ensures o as int == (self as int * *r as int), { self * *r } }
impl Div<i64> for i64 { type Output = i64; open spec fn div_ok(self, r: i64) -> bool { r != 0 && !(self == i64::MIN && r == -1) } fn div(self, r: i64) -> (o: i64) ensures o as int == tdiv(self as int, r as int), { proof { lemma_trunc(self as int, r as int); } self / r } }
impl Div<&i64> for i64 { type Output = i64; open spec fn div_ok(self, r: &i64) -> bool { *r != 0 && !(self == i64::MIN && *r == -1) } fn div(self, r: &i64) -> (o: i64) ensures o as int == tdiv(self as int, *r as int), { proof { lemma_trunc(self as int, *r as int); } self / *r } }
impl Rem<i64> for i64 { type Output = i64; open spec fn rem_ok(self, r: i64) -> bool { r != 0 && !(self == i64::MIN && r == -1) } fn rem(self, r: i64) -> (o: i64) ensures o as int == trem(self as int, r as int), { proof { lemma_trunc(self as int, r as int); } self % r } }
impl Rem<&i64> for i64 { type Output = i64; open spec fn rem_ok(self, r: &i64) -> bool { *r != 0 && !(self == i64::MIN && *r == -1) } fn rem(self, r: &i64) -> (o: i64) ensures o as int == trem(self as int, *r as int), { proof { lemma_trunc(self as int, *r as int); } self % *r } }
impl Neg for i64 { type Output = i64; open spec fn neg_ok(self) -> bool { self != i64::MIN } fn neg(self) -> (o: i64) ensures o as int == -(self as int), { -self } }
impl Add<u64> for u64 { type Output = u64; open spec fn add_ok(self, r: u64) -> bool { u64::MIN <= (self as int + r as int) <= u64::MAX } fn add(self, r: u64) -> (o: u64) ensures o as int == (self as int + r as int), { self + r } }
impl Add<&u64> for u64 { type Output = u64; open spec fn add_ok(self, r: &u64) -> bool { u64::MIN <= (self as int + *r as int) <= u64::MAX } fn add(self, r: &u64) -> (o: u64) ensures o as int == (self as int + *r as int), { self + *r } }
impl Sub<u64> for u64 { type Output = u64; open spec fn sub_ok(self, r: u64) -> bool { u64::MIN <= (self as int - r as int) <= u64::MAX } fn sub(self, r: u64) -> (o: u64) ensures o as int == (self as int - r as int), { self - r } }
impl Sub<&u64> for u64 { type Output = u64; open spec fn sub_ok(self, r: &u64) -> bool { u64::MIN <= (self as int - *r as int) <= u64::MAX } fn sub(self, r: &u64) -> (o: u64) ensures o as int == (self as int - *r as int), { self - *r } }
impl Mul<u64> for u64 { type Output = u64; open spec fn mul_ok(self, r: u64) -> bool { u64::MIN <= (self as int * r as int) <= u64::MAX } fn mul(self, r: u64) -> (o: u64) ensures o as int == (self as int * r as int), { self * r } }
impl Mul<&u64> for u64 { type Output = u64; open spec fn mul_ok(self, r: &u64) -> bool { u64::MIN <= (self as int * *r as int) <= u64::MAX } fn mul(self, r: &u64) -> (o: u64) ensures o as int == (self as int * *r as int), { self * *r } }
impl Div<u64> for u64 { type Output = u64; open spec fn div_ok(self, r: u64) -> bool { r != 0 } fn div(self, r: u64) -> (o: u64) ensures o as int == self as int / r as int, { self / r } }
impl Div<&u64> for u64 { type Output = u64; open spec fn div_ok(self, r: &u64) -> bool { *r != 0 } fn div(self, r: &u64) -> (o: u64) ensures o as int == self as int / *r as int, { self / *r } }
impl Rem<u64> for u64 { type Output = u64; open spec fn rem_ok(self, r: u64) -> bool { r != 0 } fn rem(self, r: u64) -> (o: u64) ensures o as int == self as int % r as int, { self % r } }
impl Rem<&u64> for u64 { type Output = u64; open spec fn rem_ok(self, r: &u64) -> bool { *r != 0 } fn rem(self, r: &u64) -> (o: u64) ensures o as int == self as int % *r as int, { self % *r } }
impl Add<i128> for i128 { type Output = i128; open spec fn add_ok(self, r: i128) -> bool { i128::MIN <= (self as int + r as int) <= i128::MAX } fn add(self, r: i128) -> (o: i128) ensures o as int == (self as int + r as int), { self + r } }
impl Sub<i128> for i128 { type Output = i128; open spec fn sub_ok(self, r: i128) -> bool { i128::MIN <= (self as int - r as int) <= i128::MAX } fn sub(self, r: i128) -> (o: i128) ensures o as int == (self as int - r as int), { self - r } }
impl Mul<i128> for i128 { type Output = i128; open spec fn mul_ok(self, r: i128) -> bool { i128::MIN <= (self as int * r as int) <= i128::MAX } fn mul(self, r: i128) -> (o: i128) ensures o as int == (self as int * r as int), { self * r } }
impl Div<i128> for i128 { type Output = i128; open spec fn div_ok(self, r: i128) -> bool { r != 0 && !(self == i128::MIN && r == -1) } fn div(self, r: i128) -> (o: i128) ensures o as int == tdiv(self as int, r as int), { proof { lemma_trunc(self as int, r as int); } self / r } }
impl Rem<i128> for i128 { type Output = i128; open spec fn rem_ok(self, r: i128) -> bool { r != 0 && !(self == i128::MIN && r == -1) } fn rem(self, r: i128) -> (o: i128) ensures o as int == trem(self as int, r as int), { proof { lemma_trunc(self as int, r as int); } self % r } }
impl Neg for i128 { type Output = i128; open spec fn neg_ok(self) -> bool { self != i128::MIN } fn neg(self) -> (o: i128) ensures o as int == -(self as int), { -self } }
impl Add<u128> for u128 { type Output = u128; open spec fn add_ok(self, r: u128) -> bool { u128::MIN <= (self as int + r as int) <= u128::MAX } fn add(self, r: u128) -> (o: u128) ensures o as int == (self as int + r as int), { self + r } }
impl Sub<u128> for u128 { type Output = u128; open spec fn sub_ok(self, r: u128) -> bool { u128::MIN <= (self as int - r as int) <= u128::MAX } fn sub(self, r: u128) -> (o: u128) ensures o as int == (self as int - r as int), { self - r } }
impl Mul<u128> for u128 { type Output = u128; open spec fn mul_ok(self, r: u128) -> bool { u128::MIN <= (self as int * r as int) <= u128::MAX } fn mul(self, r: u128) -> (o: u128) ensures o as int == (self as int * r as int), { self * r } }
impl Div<u128> for u128 { type Output = u128; open spec fn div_ok(self, r: u128) -> bool { r != 0 } fn div(self, r: u128) -> (o: u128) ensures o as int == self as int / r as int, { self / r } }
impl Rem<u128> for u128 { type Output = u128; open spec fn rem_ok(self, r: u128) -> bool { r != 0 } fn rem(self, r: u128) -> (o: u128) ensures o as int == self as int % r as int, { self % r } }
impl Add<usize> for usize { type Output = usize; open spec fn add_ok(self, r: usize) -> bool { usize::MIN <= (self as int + r as int) <= usize::MAX } fn add(self, r: usize) -> (o: usize) ensures o as int == (self as int + r as int), { self + r } }
impl Sub<usize> for usize { type Output = usize; open spec fn sub_ok(self, r: usize) -> bool { usize::MIN <= (self as int - r as int) <= usize::MAX } fn sub(self, r: usize) -> (o: usize) ensures o as int == (self as int - r as int), { self - r } }
impl Mul<usize> for usize { type Output = usize; open spec fn mul_ok(self, r: usize) -> bool { usize::MIN <= (self as int * r as int) <= usize::MAX } fn mul(self, r: usize) -> (o: usize) ensures o as int == (self as int * r as int), { self * r } }
impl Div<usize> for usize { type Output = usize; open spec fn div_ok(self, r: usize) -> bool { r != 0 } fn div(self, r: usize) -> (o: usize) ensures o as int == self as int / r as int, { self / r } }
impl Rem<usize> for usize { type Output = usize; open spec fn rem_ok(self, r: usize) -> bool { r != 0 } fn rem(self, r: usize) -> (o: usize) ensures o as int == self as int % r as int, { self % r } }
impl Add<u32> for u32 { type Output = u32; open spec fn add_ok(self, r: u32) -> bool { u32::MIN <= (self as int + r as int) <= u32::MAX } fn add(self, r: u32) -> (o: u32) ensures o as int == (self as int + r as int), { self + r } }
impl Sub<u32> for u32 { type Output = u32; open spec fn sub_ok(self, r: u32) -> bool { u32::MIN <= (self as int - r as int) <= u32::MAX } fn sub(self, r: u32) -> (o: u32) ensures o as int == (self as int - r as int), { self - r } }
impl Mul<u32> for u32 { type Output = u32; open spec fn mul_ok(self, r: u32) -> bool { u32::MIN <= (self as int * r as int) <= u32::MAX } fn mul(self, r: u32) -> (o: u32) ensures o as int == (self as int * r as int), { self * r } }
impl Div<u32> for u32 { type Output = u32; open spec fn div_ok(self, r: u32) -> bool { r != 0 } fn div(self, r: u32) -> (o: u32) ensures o as int == self as int / r as int, { self / r } }
impl Rem<u32> for u32 { type Output = u32; open spec fn rem_ok(self, r: u32) -> bool { r != 0 } fn rem(self, r: u32) -> (o: u32) ensures o as int == self as int % r as int, { self % r } }
impl Add<i32> for i32 { type Output = i32; open spec fn add_ok(self, r: i32) -> bool { i32::MIN <= (self as int + r as int) <= i32::MAX } fn add(self, r: i32) -> (o: i32) ensures o as int == (self as int + r as int), { self + r } }
impl Sub<i32> for i32 { type Output = i32; open spec fn sub_ok(self, r: i32) -> bool { i32::MIN <= (self as int - r as int) <= i32::MAX } fn sub(self, r: i32) -> (o: i32) ensures o as int == (self as int - r as int), { self - r } }
impl Mul<i32> for i32 { type Output = i32; open spec fn mul_ok(self, r: i32) -> bool { i32::MIN <= (self as int * r as int) <= i32::MAX } fn mul(self, r: i32) -> (o: i32) ensures o as int == (self as int * r as int), { self * r } }
impl Div<i32> for i32 { type Output = i32; open spec fn div_ok(self, r: i32) -> bool { r != 0 && !(self == i32::MIN && r == -1) } fn div(self, r: i32) -> (o: i32) ensures o as int == tdiv(self as int, r as int), { proof { lemma_trunc(self as int, r as int); } self / r } }
impl Rem<i32> for i32 { type Output = i32; open spec fn rem_ok(self, r: i32) -> bool { r != 0 && !(self == i32::MIN && r == -1) } fn rem(self, r: i32) -> (o: i32) ensures o as int == trem(self as int, r as int), { proof { lemma_trunc(self as int, r as int); } self % r } }
impl Neg for i32 { type Output = i32; open spec fn neg_ok(self) -> bool { self != i32::MIN } fn neg(self) -> (o: i32) ensures o as int == -(self as int), { -self } }
pub fn checked_as_i64<T: ToI>(x: T) -> (o: i64) requires i64::MIN <= x.toi() <= i64::MAX, ensures o as int == x.toi(), { let (n, m) = x.split(); if n { if m <= i64::MAX as u128 { -(m as i64) } else if m == i64::MAX as u128 + 1 { i64::MIN } else { assert(false); 0 as i64 } } else if m <= i64::MAX as u128 { m as i64 } else { assert(false); 0 as i64 } }
pub fn checked_as_u64<T: ToI>(x: T) -> (o: u64) requires u64::MIN <= x.toi() <= u64::MAX, ensures o as int == x.toi(), { let (n, m) = x.split(); if n { if m == 0 { 0 } else { assert(false); 0 as u64 } } else if m <= u64::MAX as u128 { m as u64 } else { assert(false); 0 as u64 } }
pub fn checked_as_i128<T: ToI>(x: T) -> (o: i128) requires i128::MIN <= x.toi() <= i128::MAX, ensures o as int == x.toi(), { let (n, m) = x.split(); if n { if m <= i128::MAX as u128 { -(m as i128) } else if m == i128::MAX as u128 + 1 { i128::MIN } else { assert(false); 0 as i128 } } else if m <= i128::MAX as u128 { m as i128 } else { assert(false); 0 as i128 } }
pub fn checked_as_u128<T: ToI>(x: T) -> (o: u128) requires u128::MIN <= x.toi() <= u128::MAX, ensures o as int == x.toi(), { let (n, m) = x.split(); if n { if m == 0 { 0 } else { assert(false); 0 as u128 } } else if m <= u128::MAX as u128 { m as u128 } else { assert(false); 0 as u128 } }
pub fn checked_as_usize<T: ToI>(x: T) -> (o: usize) requires usize::MIN <= x.toi() <= usize::MAX, ensures o as int == x.toi(), { let (n, m) = x.split(); if n { if m == 0 { 0 } else { assert(false); 0 as usize } } else if m <= usize::MAX as u128 { m as usize } else { assert(false); 0 as usize } }
pub fn checked_as_u32<T: ToI>(x: T) -> (o: u32) requires u32::MIN <= x.toi() <= u32::MAX, ensures o as int == x.toi(), { let (n, m) = x.split(); if n { if m == 0 { 0 } else { assert(false); 0 as u32 } } else if m <= u32::MAX as u128 { m as u32 } else { assert(false); 0 as u32 } }
pub fn checked_as_i32<T: ToI>(x: T) -> (o: i32) requires i32::MIN <= x.toi() <= i32::MAX, ensures o as int == x.toi(), { let (n, m) = x.split(); if n { if m <= i32::MAX as u128 { -(m as i32) } else if m == i32::MAX as u128 + 1 { i32::MIN } else { assert(false); 0 as i32 } } else if m <= i32::MAX as u128 { m as i32 } else { assert(false); 0 as i32 } }
pub assume_specification[ i64::abs ](x: i64) -> (r: i64) requires x != i64::MIN, ensures r as int == iabs(x as int);
pub assume_specification[ i128::abs ](x: i128) -> (r: i128) requires x != i128::MIN, ensures r as int == iabs(x as int);
