OPS=[("Add","add","+"),("Sub","sub","-"),("Mul","mul","*"),("Div","div","/"),("Rem","rem","%")]
INTS=["i64","u64","i128","u128","usize","u32","i32"]
def ops(strict):
    o=[]
    for t in INTS:
        signed=t[0]=='i'
        for (T,m,op) in OPS:
            for rt,der in ((t,"r"),("&"+t,"*r")):
                if rt!=t and t not in("i64","u64"): continue
                e=f"(self as int {op} {der} as int)" if m in("add","sub","mul") else None
                if m in("add","sub","mul"):
                    ok=f"{t}::MIN <= {e} <= {t}::MAX" if strict else "true"
                    ens=f"o as int == {e}"
                else:
                    ok=f"{der} != 0"
                    if strict and signed: ok+=f" && !(self == {t}::MIN && {der} == -1)"
                    f="tdiv" if m=="div" else "trem"
                    if signed: ens=f"o as int == {f}(self as int, {der} as int)"
                    else: ens=f"o as int == self as int {op} {der} as int"
                pf=f"proof {{ lemma_trunc(self as int, {der} as int); }} " if m in ("div","rem") and signed else ""
                body=f"self {op} {der}" if strict or (m in("div","rem") and not signed) else f"match self.checked_{m}({der}) {{ Some(o) => o, None => overflow() }}"
                o.append(f"impl {T}<{rt}> for {t} {{ type Output = {t}; open spec fn {m}_ok(self, r: {rt}) -> bool {{ {ok} }} fn {m}(self, r: {rt}) -> (o: {t}) ensures {ens}, {{ {pf}{body} }} }}")
        if signed:
            nb="-self" if strict else f"if self == {t}::MIN {{ overflow() }} else {{ -self }}"
            ok=f"self != {t}::MIN" if strict else "true"
            o.append(f"impl Neg for {t} {{ type Output = {t}; open spec fn neg_ok(self) -> bool {{ {ok} }} fn neg(self) -> (o: {t}) ensures o as int == -(self as int), {{ {nb} }} }}")
            # |self|
    for t in INTS:
        rq=f"requires {t}::MIN <= x.toi() <= {t}::MAX," if strict else ""
        ov=f"{{ assert(false); 0 as {t} }}" if strict else "{ overflow() }"
        neg=(f"if m <= {t}::MAX as u128 {{ -(m as {t}) }} else if m == {t}::MAX as u128 + 1 {{ {t}::MIN }} else {ov}" if t[0]=="i" else f"if m == 0 {{ 0 }} else {ov}")
        o.append(f"pub fn checked_as_{t}<T: ToI>(x: T) -> (o: {t}) {rq} ensures o as int == x.toi(), {{ let (n, m) = x.split(); if n {{ {neg} }} else if m <= {t}::MAX as u128 {{ m as {t} }} else {ov} }}")
    return "\n".join(o)
BITS={"i64":64,"u64":64,"i128":128,"u128":128,"usize":64,"u32":32,"i32":32}
def try_body(s,d):
    # compare in a type that holds both ranges
    conds=[]
    if s[0]=="i" and d[0]!="i": conds.append("0 <= v")
    elif s[0]=="i" and (BITS[s]>BITS[d]): conds.append(f"{d}::MIN as {s} <= v")
    bs=BITS[s]-(1 if s[0]=="i" else 0); bd=BITS[d]-(1 if d[0]=="i" else 0)
    if bs>bd or "usize" in (s,d): 
        w="u128"
        if s[0]=="i": conds.append(f"(v < 0 || v as u128 <= {d}::MAX as u128)")
        else: conds.append(f"v as u128 <= {d}::MAX as u128")
    ok=f"Ok(v as {d})"
    return f"if {' && '.join(conds)} {{ {ok} }} else {{ Err(TryErr {{}}) }}" if conds else ok
def base():
    o=[]
    for (T,m,op) in OPS:
        o.append(f"""pub trait {T}<Rhs = Self>: Sized {{
    type Output;
    spec fn {m}_ok(self, r: Rhs) -> bool;
    fn {m}(self, r: Rhs) -> (o: Self::Output) requires self.{m}_ok(r);
}}""")
    o.append("""pub trait Neg: Sized {
    type Output;
    spec fn neg_ok(self) -> bool;
    fn neg(self) -> (o: Self::Output) requires self.neg_ok();
}""")
    # casts
    for d in ["f64","i64","u64","i128","u128","usize","u32","i32"]:
        o.append(f"pub trait As_{d}: Sized {{ fn as_{d}_(self) -> {d}; }}")
        for s in INTS+["u8","i8","u16","i16"]:
            if d=="f64": ens="float_ideal() ==> fr(o) == self as int as real"
            else: ens=f"({d}::MIN <= self as int <= {d}::MAX) ==> o as int == self as int, o == cast_{s}_{d}(self)"
            if d!="f64": o.append(f"pub open spec fn cast_{s}_{d}(x: {s}) -> {d} {{ x as {d} }}")
            at="#[verifier::external_body]" if d=="f64" else "#[verifier::truncate]"
            o.append(f"impl As_{d} for {s} {{ {at} fn as_{d}_(self) -> (o: {d}) ensures {ens}, {{ self as {d} }} }}")
        for s in ["f64","f32"]:
            if d=="f64":
                ens = "o == self" if s=="f64" else "o == f32_to_f64(self)"
            elif s=="f64": ens=f"float_ideal() && {d}::MIN <= rtrunc(fr(self)) <= {d}::MAX ==> o as int == rtrunc(fr(self))"
            else: ens="true"
            o.append(f"impl As_{d} for {s} {{ #[verifier::external_body] fn as_{d}_(self) -> (o: {d}) ensures {ens}, {{ self as {d} }} }}")
    # float ops
    for (T,m,op) in OPS[:4]:
        cond="float_ideal()" + (" && fr(r) != 0real" if m=="div" else "")
        for rt,der in (("f64","r"),("&f64","*r")):
            c=cond.replace("fr(r)",f"fr({der})")
            o.append(f"impl {T}<{rt}> for f64 {{ type Output = f64; open spec fn {m}_ok(self, r: {rt}) -> bool {{ true }} #[verifier::external_body] fn {m}(self, r: {rt}) -> (o: f64) ensures {c} ==> fr(o) == fr(self) {op} fr({der}), o == f64_{m}(self, {der}), {{ self {op} {der} }} }}")
        o.append(f"pub uninterp spec fn f64_{m}(a: f64, b: f64) -> f64;")
    o.append("pub uninterp spec fn f64_neg(a: f64) -> f64;")
    o.append("impl Neg for f64 { type Output = f64; open spec fn neg_ok(self) -> bool { true } #[verifier::external_body] fn neg(self) -> (o: f64) ensures float_ideal() ==> fr(o) == -fr(self), o == f64_neg(self), { -self } }")
    o.append("""pub trait Cmp: Sized {
    spec fn cv(self) -> real;
    spec fn cok() -> bool;
    fn lt_(self, r: Self) -> (b: bool) ensures Self::cok() ==> b == (self.cv() < r.cv());
    fn le_(self, r: Self) -> (b: bool) ensures Self::cok() ==> b == (self.cv() <= r.cv());
    fn gt_(self, r: Self) -> (b: bool) ensures Self::cok() ==> b == (self.cv() > r.cv());
    fn ge_(self, r: Self) -> (b: bool) ensures Self::cok() ==> b == (self.cv() >= r.cv());
    fn eq_(self, r: Self) -> (b: bool) ensures Self::cok() ==> b == (self.cv() == r.cv());
    fn ne_(self, r: Self) -> (b: bool) ensures Self::cok() ==> b == (self.cv() != r.cv());
}""")
    for t in INTS+["u8","i8","u16","i16","f64"]:
        for ref in ("","&"):
            d="*self" if ref else "self"
            cv=f"fr({d})" if t=="f64" else f"({d}) as int as real"
            cok="float_ideal()" if t=="f64" else "true"
            fs=""
            for m,op in (("lt_","<"),("le_","<="),("gt_",">"),("ge_",">="),("eq_","=="),("ne_","!=")):
                extra=""
                if t!="f64": extra=f"ensures b == (({d}) {op} ({d.replace('self','r')})),"
                if t=="f64": fs+=f" #[verifier::external_body] fn {m}(self, r: {ref}{t}) -> (b: bool) {extra} {{ unimplemented!() }}"
                else: fs+=f" fn {m}(self, r: {ref}{t}) -> (b: bool) {extra} {{ {d} {op} {d.replace('self','r')} }}"
            o.append(f"impl Cmp for {ref}{t} {{ open spec fn cv(self) -> real {{ {cv} }} open spec fn cok() -> bool {{ {cok} }}{fs} }}")
    o.append("#[verifier::external_body] pub fn f64_int_lit(i: i64) -> (o: f64) ensures float_ideal() ==> fr(o) == i as int as real, { i as f64 }")
    # TryFrom
    o.append("pub trait TryFrom<T>: Sized { type Error; spec fn try_ens(v: T, r: Result<Self, Self::Error>) -> bool; fn try_from(v: T) -> (r: Result<Self, Self::Error>) ensures Self::try_ens(v, r); }\n#[derive(Debug)] pub struct TryErr {}")
    for d in INTS:
        for s in INTS:
            if s!=d:
                fits=try_body(s,d)
                o.append(f"impl TryFrom<{s}> for {d} {{ type Error = TryErr; open spec fn try_ens(v: {s}, r: Result<{d}, TryErr>) -> bool {{ if {d}::MIN <= v as int <= {d}::MAX {{ r matches Ok(x) && x as int == v as int }} else {{ r is Err }} }} #[verifier::truncate] fn try_from(v: {s}) -> (r: Result<{d}, TryErr>) {{ {fits} }} }}")
    o.append("""/// an integer as sign and magnitude
pub trait ToI: Sized { spec fn toi(self) -> int; fn split(self) -> (r: (bool, u128)) ensures self.toi() == (if r.0 { -(r.1 as int) } else { r.1 as int }); }""")
    for t in INTS+["u8","i8","u16","i16"]: 
        b="(false, self as u128)" if t[0]=="u" else "if self >= 0 { (false, self as u128) } else if self == "+t+"::MIN { (true, "+t+"::MAX as u128 + 1) } else { (true, (-self) as u128) }"
        o.append(f"impl ToI for {t} {{ open spec fn toi(self) -> int {{ self as int }} fn split(self) -> (r: (bool, u128)) {{ {b} }} }}")
    # vec
    for n in range(0,7):
        if n==0:
            o.append("pub fn vec0<T>() -> (v: Vec<T>) ensures v@ == Seq::<T>::empty(), { Vec::new() }"); continue
        ps=", ".join(f"a{i}: T" for i in range(n)); names=", ".join(f"a{i}" for i in range(n))
        pushes=" ".join(f"v.push(a{i});" for i in range(n))
        o.append(f"pub fn vec{n}<T>({ps}) -> (v: Vec<T>) ensures v@ == seq![{names}], v@.len() == {n}, " + ", ".join(f"v@[{i}] == a{i}" for i in range(n)) + f", {{ let mut v = Vec::new(); {pushes} proof {{ assert(v@ =~= seq![{names}]); }} v }}")
    # lossless std From
    for s,d in [("u8","i64"),("i8","i64"),("u16","i64"),("i16","i64"),("u32","i64"),("i32","i64"),("u8","u64"),("u16","u64"),("u32","u64"),("i64","i128"),("u64","i128"),("u64","u128"),("u32","u128"),("i32","i128")]:
        o.append(f"impl From<{s}> for {d} {{ open spec fn from_ens(v: {s}, r: {d}) -> bool {{ r as int == v as int }} fn from(v: {s}) -> (r: {d}) {{ v as {d} }} }}")
    for t in INTS:
        o.append(f"impl VShow for {t} {{ open spec fn show_req(&self) -> bool {{ true }} open spec fn show_ens(&self, s: Seq<char>) -> bool {{ s == show_int(*self as int) }} #[verifier::external_body] fn vshow(&self) -> (r: String) {{ format!(\"{{}}\", self) }} }}")
    return "\n".join(o)
HEAD=r"""// Trusted run-time prelude (generated once by gen_prelude.py; reviewed text).
// Every item here that is external_body is an assumption about Rust itself or std.

/// `a + b` in the source is printed as `Add::add(a, b)` of these traits (same shape as std::ops).
"""
MID=r"""
impl core::fmt::Debug for DynErr { #[verifier::external_body] fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
// ---- reals behind floats ------------------------------------------------
/// real number denoted by a float
pub uninterp spec fn fr(x: f64) -> real;
/// "machine float arithmetic behaves like real arithmetic": never assumed true,
/// only used as a hypothesis for statements about values held as floats
pub uninterp spec fn float_ideal() -> bool;
pub uninterp spec fn f32_to_f64(x: f32) -> f64;
pub uninterp spec fn real_pi() -> real;
pub uninterp spec fn real_e() -> real;

#[verifier::external_body]
pub fn f64_PI() -> (r: f64) ensures r == f64_pi_spec(), float_ideal() ==> fr(r) == real_pi(), { std::f64::consts::PI }
#[verifier::external_body]
pub fn f64_E() -> (r: f64) ensures r == f64_e_spec(), float_ideal() ==> fr(r) == real_e(), { std::f64::consts::E }
pub uninterp spec fn f64_pi_spec() -> f64;
pub uninterp spec fn f64_e_spec() -> f64;

pub open spec fn rabs(x: real) -> real { if x < 0real { -x } else { x } }
/// real number cut towards zero
pub open spec fn rtrunc(x: real) -> int { if x >= 0real { x.floor() } else { -((-x).floor()) } }
/// nearest whole number, halves away from zero
pub open spec fn rround(x: real) -> int { if x >= 0real { (x + 0.5real).floor() } else { -((-x + 0.5real).floor()) } }
pub open spec fn sgn(x: int) -> int { if x > 0 { 1 } else if x < 0 { -1 } else { 0 } }
pub open spec fn iabs(x: int) -> int { if x < 0 { -x } else { x } }

pub assume_specification[ i64::signum ](x: i64) -> (r: i64) ensures r as int == sgn(x as int);
pub assume_specification[ i64::unsigned_abs ](x: i64) -> (r: u64) ensures r as int == iabs(x as int);
pub assume_specification[ i128::signum ](x: i128) -> (r: i128) ensures r as int == sgn(x as int);
pub assume_specification[ i128::unsigned_abs ](x: i128) -> (r: u128) ensures r as int == iabs(x as int);
pub assume_specification[ f64::abs ](x: f64) -> (r: f64) ensures float_ideal() ==> fr(r) == rabs(fr(x)), r == f64_abs(x);
pub uninterp spec fn f64_abs(x: f64) -> f64;
pub assume_specification[ f64::signum ](x: f64) -> (r: f64) ensures float_ideal() ==> ((fr(x) > 0real ==> fr(r) == 1real) && (fr(x) < 0real ==> fr(r) == -1real));
pub assume_specification[ f64::trunc ](x: f64) -> (r: f64) ensures float_ideal() ==> (fr(r) == rtrunc(fr(x)) as real);
pub assume_specification[ f64::floor ](x: f64) -> (r: f64) ensures float_ideal() ==> (fr(r) == fr(x).floor() as real);
pub assume_specification[ f64::ceil ](x: f64) -> (r: f64) ensures float_ideal() ==> (fr(r) == (-((-fr(x)).floor())) as real);
pub assume_specification[ f64::round ](x: f64) -> (r: f64) ensures float_ideal() ==> (fr(r) == rround(fr(x)) as real);
pub assume_specification[ f64::fract ](x: f64) -> (r: f64) ensures float_ideal() ==> (fr(r) == fr(x) - rtrunc(fr(x)) as real);
pub assume_specification[ f64::recip ](x: f64) -> (r: f64) ensures float_ideal() ==> (fr(x) != 0real ==> fr(r) * fr(x) == 1real);
pub assume_specification[ f64::mul_add ](x: f64, a: f64, b: f64) -> (r: f64) ensures float_ideal() ==> (fr(r) == fr(x) * fr(a) + fr(b));
pub assume_specification[ f64::max ](x: f64, y: f64) -> (r: f64) ensures float_ideal() ==> (fr(r) == (if fr(x) >= fr(y) { fr(x) } else { fr(y) }));
pub assume_specification[ f64::min ](x: f64, y: f64) -> (r: f64) ensures float_ideal() ==> (fr(r) == (if fr(x) <= fr(y) { fr(x) } else { fr(y) }));
pub assume_specification[ f64::is_sign_positive ](x: f64) -> (r: bool) ensures float_ideal() ==> ((fr(x) > 0real ==> r) && (fr(x) < 0real ==> !r));
pub assume_specification[ f64::is_sign_negative ](x: f64) -> (r: bool) ensures float_ideal() ==> ((fr(x) > 0real ==> !r) && (fr(x) < 0real ==> r));
pub assume_specification[ f64::is_nan ](x: f64) -> (r: bool) ensures float_ideal() ==> (r == false);
pub assume_specification[ f64::is_finite ](x: f64) -> (r: bool) ensures float_ideal() ==> (r == true);
pub assume_specification[ f64::is_infinite ](x: f64) -> (r: bool) ensures float_ideal() ==> (r == false);

/// truncated division and remainder of machine integers
pub open spec fn tdiv(a: int, b: int) -> int { if a >= 0 { if b > 0 { a / b } else { -(a / (-b)) } } else { if b > 0 { -((-a) / b) } else { (-a) / (-b) } } }
pub open spec fn trem(a: int, b: int) -> int { a - tdiv(a, b) * b }

proof fn lemma_euclid(x: int, b: int)
    requires b != 0,
    ensures (x / b) * b + x % b == x, b < 0 ==> x / b == -(x / (-b)) && x % b == x % (-b),
{
    let q = x / (-b); let p = x / b; let r = x % b; let s = x % (-b);
    assert(p * b + r == x && 0 <= r < (if b < 0 { -b } else { b })) by (nonlinear_arith) requires p == x / b, r == x % b, b != 0;
    if b < 0 {
        assert(q * (-b) + s == x && 0 <= s < -b) by (nonlinear_arith) requires q == x / (-b), s == x % (-b), b < 0;
        assert((p + q) * b == s - r) by (nonlinear_arith) requires p * b + r == x, q * (-b) + s == x;
        assert(p + q == 0) by (nonlinear_arith) requires (p + q) * b == s - r, -b > s - r, s - r > b, b < 0;
        assert(p * b == q * (-b)) by (nonlinear_arith) requires p == -q;
    }
}
/// division by cases of the signs is Rust's
proof fn lemma_trunc(a: int, b: int)
    requires b != 0,
    ensures tdiv(a, b) == (if a >= 0 { a / b } else { -((-a) / b) }), trem(a, b) == (if a >= 0 { a % b } else { -((-a) % b) }),
{
    lemma_euclid(a, b); lemma_euclid(-a, b);
    let q = (-a) / b;
    assert((-q) * b == -(q * b)) by (nonlinear_arith);
}
/// an operation that would overflow does not return
#[verifier::external_body]
pub fn overflow<T>() -> (r: T) ensures false, { panic!() }
/// an explicit panic: its being reachable is a failed obligation
#[verifier::external_body]
pub fn rt_panic<T>() -> (r: T) requires false, { panic!() }

// ---- conversions (same shape as std::convert) ----------------------------
pub trait From<T>: Sized {
    spec fn from_ens(v: T, r: Self) -> bool;
    fn from(v: T) -> (r: Self) ensures Self::from_ens(v, r);
}
pub trait Into<U>: Sized {
    spec fn into_ens(self, r: U) -> bool;
    fn into(self) -> (r: U) ensures self.into_ens(r);
}
impl<T, U: From<T>> Into<U> for T {
    open spec fn into_ens(self, r: U) -> bool { U::from_ens(self, r) }
    fn into(self) -> (r: U) { U::from(self) }
}
impl<T> From<T> for T {
    open spec fn from_ens(v: T, r: T) -> bool { r == v }
    fn from(v: T) -> (r: T) { v }
}
impl<T> From<T> for Option<T> {
    open spec fn from_ens(v: T, r: Option<T>) -> bool { r == Some(v) }
    fn from(v: T) -> (r: Option<T>) { Some(v) }
}
impl From<&str> for String {
    open spec fn from_ens(v: &str, r: String) -> bool { r@ == v@ }
    fn from(v: &str) -> (r: String) { v.to_owned() }
}

pub struct DynErr {}
#[verifier::external_body]
pub fn erase<A, B>(a: A) -> (b: B) { unimplemented!() }

// ---- text -----------------------------------------------------------------
pub open spec fn digit(d: int) -> char {
    if d == 0 { '0' } else if d == 1 { '1' } else if d == 2 { '2' } else if d == 3 { '3' } else if d == 4 { '4' }
    else if d == 5 { '5' } else if d == 6 { '6' } else if d == 7 { '7' } else if d == 8 { '8' } else { '9' }
}
/// decimal digits, as Display prints them
#[verifier::opaque]
pub open spec fn show_nat(n: nat) -> Seq<char>
    decreases n
{
    if n < 10 { seq![digit(n as int)] } else { show_nat(n / 10).push(digit((n % 10) as int)) }
}
#[verifier::opaque]
pub open spec fn show_int(x: int) -> Seq<char> { if x < 0 { "-"@ + show_nat((-x) as nat) } else { show_nat(x as nat) } }
pub uninterp spec fn show_f64(x: f64, fmt: Seq<char>) -> Seq<char>;
pub trait VShow {
    spec fn show_req(&self) -> bool;
    spec fn show_ens(&self, s: Seq<char>) -> bool;
    fn vshow(&self) -> (r: String) requires self.show_req(), ensures self.show_ens(r@);
}
pub trait VToString: VShow {
    fn to_string(&self) -> (r: String) requires self.show_req(), ensures self.show_ens(r@);
}
pub trait VShowFmt { fn vshow_fmt(&self, f: &str) -> String; }
impl VShowFmt for f64 {
    #[verifier::external_body]
    fn vshow_fmt(&self, f: &str) -> (r: String) ensures r@ == show_f64(*self, f@) { unimplemented!() }
}
impl VShow for String {
    open spec fn show_req(&self) -> bool { true }
    open spec fn show_ens(&self, s: Seq<char>) -> bool { s == self@ }
    fn vshow(&self) -> (r: String) { self.clone() }
}
impl VShow for str {
    open spec fn show_req(&self) -> bool { true }
    open spec fn show_ens(&self, s: Seq<char>) -> bool { s == self@ }
    fn vshow(&self) -> (r: String) { self.to_owned() }
}
impl<T: VShow + ?Sized> VShow for &T {
    open spec fn show_req(&self) -> bool { (**self).show_req() }
    open spec fn show_ens(&self, s: Seq<char>) -> bool { (**self).show_ens(s) }
    fn vshow(&self) -> (r: String) { (**self).vshow() }
}
/// std: String::to_string returns the same text
/// (of Vec) a vector is its sequence of elements, as far as programs can tell
pub axiom fn ax_vec_ext<T>(a: Vec<T>, b: Vec<T>) ensures a@ == b@ ==> a == b;
pub axiom fn ax_deque_ext<T>(a: std::collections::VecDeque<T>, b: std::collections::VecDeque<T>) ensures a@ == b@ ==> a == b;
pub broadcast axiom fn string_to_string(s: &String, r: String)
    requires #[trigger] vstd::string::to_string_from_display_ensures::<String>(s, r),
    ensures r@ == s@;
pub fn sempty() -> (r: String) ensures r@ == ""@, r@ =~= Seq::<char>::empty(), { proof { reveal_strlit(""); } slit("") }
pub fn slit(s: &str) -> (r: String) ensures r@ == s@, { s.to_owned() }
impl Add<&str> for String {
    type Output = String;
    open spec fn add_ok(self, r: &str) -> bool { true }
    fn add(self, r: &str) -> (o: String) ensures o@ == self@ + r@ { let mut c = self; c.append(r); c }
}
impl Add<&String> for String {
    type Output = String;
    open spec fn add_ok(self, r: &String) -> bool { true }
    fn add(self, r: &String) -> (o: String) ensures o@ == self@ + r@ { let mut c = self; c.append(r.as_str()); c }
}
pub fn scat(a: String, b: String) -> (r: String) ensures r@ == a@ + b@, { let mut c = a; c.append(b.as_str()); c }
#[verifier::external_body]
pub fn any_string() -> (r: String) { String::new() }
"""
with open("/verif/contracts/00_prelude.vrs","w") as f:
    f.write("//@ prelude\n"+HEAD+MID+base()+"\n")
    f.write("pub assume_specification[ i64::abs ](x: i64) -> (r: i64) ensures r as int == iabs(x as int);\n".join(["",""]) if False else "")
    f.write("//@ prelude partial\n// Overflow panics (overflow checks on); no result is returned then, so results are exact.\n"+ops(False)+"\n")
    f.write("pub assume_specification[ i64::abs ](x: i64) -> (r: i64) ensures r as int == iabs(x as int);\npub assume_specification[ i128::abs ](x: i128) -> (r: i128) ensures r as int == iabs(x as int);\n")
    f.write("//@ prelude strict\n// Overflow is an obligation.\n"+ops(True)+"\n")
    f.write("pub assume_specification[ i64::abs ](x: i64) -> (r: i64) requires x != i64::MIN, ensures r as int == iabs(x as int);\npub assume_specification[ i128::abs ](x: i128) -> (r: i128) requires x != i128::MIN, ensures r as int == iabs(x as int);\n")
