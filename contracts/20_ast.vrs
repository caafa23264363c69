//@ raw
// ===== expressions: ghost view, meaning, well-formedness ===================
/// the mathematical expression behind an Expression object
pub enum G {
    Num(SmartNum),
    Var(Seq<char>),
    Un(OperatorType, Box<G>),
    Bin(OperatorType, Box<G>, Box<G>),
    Bad,
}
pub type Env = spec_fn(Seq<char>) -> real;

pub open spec fn is_un(op: OperatorType) -> bool {
    op == OperatorType::Neg || op == OperatorType::Sin || op == OperatorType::Cos || op == OperatorType::Exp || op == OperatorType::Ln
}
pub open spec fn is_bin(op: OperatorType) -> bool { !is_un(op) }
pub open spec fn un(op: OperatorType, a: G) -> G { G::Un(op, Box::new(a)) }
pub open spec fn bin(op: OperatorType, a: G, b: G) -> G { G::Bin(op, Box::new(a), Box::new(b)) }

pub open spec fn gview(e: Expression) -> G
    decreases e
{
    match e.root {
        AstNode::Operand(AstOperand::Num(n)) => G::Num(n),
        AstNode::Operand(AstOperand::Variable(v)) => G::Var(v.name@),
        AstNode::Operator(op) =>
            if is_un(op.descriptor) {
                if e.child.len() == 1 { un(op.descriptor, gview(e.child[0])) } else { G::Bad }
            } else {
                if e.child.len() == 2 { bin(op.descriptor, gview(e.child[0]), gview(e.child[1])) } else { G::Bad }
            },
    }
}
/// symbol and binding strength of every operator
pub open spec fn op_symbol(d: OperatorType) -> Seq<char> {
    match d {
        OperatorType::Neg => "-"@, OperatorType::Add => "+"@, OperatorType::Sub => "-"@, OperatorType::Mul => "*"@, OperatorType::Div => "/"@,
        OperatorType::Pow => "^"@, OperatorType::Sin => "sin"@, OperatorType::Cos => "cos"@, OperatorType::Exp => "exp"@, OperatorType::Ln => "ln"@,
    }
}
pub open spec fn op_priority(d: OperatorType) -> u32 {
    match d {
        OperatorType::Neg => 1, OperatorType::Add => 2, OperatorType::Sub => 2, OperatorType::Mul => 3, OperatorType::Div => 4, OperatorType::Pow => 4,
        OperatorType::Sin => 5, OperatorType::Cos => 5, OperatorType::Exp => 5, OperatorType::Ln => 5,
    }
}
pub open spec fn op_ok(op: AstOperator) -> bool { op.symbol@ == op_symbol(op.descriptor) && op.priority == op_priority(op.descriptor) }
/// well-formed: right number of operands, canonical operator data, valid numbers
pub open spec fn wf(e: Expression) -> bool
    decreases e
{
    match e.root {
        AstNode::Operand(AstOperand::Num(n)) => nwf(n) && e.child.len() == 0,
        AstNode::Operand(AstOperand::Variable(v)) => e.child.len() == 0,
        AstNode::Operator(op) =>
            op_ok(op) && if is_un(op.descriptor) { e.child.len() == 1 && wf(e.child[0]) } else { e.child.len() == 2 && wf(e.child[0]) && wf(e.child[1]) },
    }
}
pub open spec fn vars(g: G) -> Set<Seq<char>>
    decreases g
{
    match g {
        G::Var(x) => set![x],
        G::Un(op, a) => vars(*a),
        G::Bin(op, a, b) => vars(*a).union(vars(*b)),
        _ => Set::empty(),
    }
}

/// number of nodes: the measure that decreases in every recursion over expressions
pub open spec fn gsize(g: G) -> nat
    decreases g
{
    match g { G::Un(_, a) => 1 + gsize(*a), G::Bin(_, a, b) => 1 + gsize(*a) + gsize(*b), _ => 1 }
}
pub open spec fn esize(e: Expression) -> nat { gsize(gview(e)) }
// ----- real functions -------------------------------------------------------
pub uninterp spec fn rsin(x: real) -> real;
pub uninterp spec fn rcos(x: real) -> real;
pub uninterp spec fn rexp(x: real) -> real;
pub uninterp spec fn rln(x: real) -> real;
/// the mathematics assumed about sin, cos, exp, ln
pub broadcast axiom fn ax_sin0(x: real) ensures x == 0real ==> #[trigger] rsin(x) == 0real;
pub broadcast axiom fn ax_sinpi(x: real) ensures x == real_pi() ==> #[trigger] rsin(x) == 0real;
pub broadcast axiom fn ax_cos0(x: real) ensures x == 0real ==> #[trigger] rcos(x) == 1real;
pub broadcast axiom fn ax_cospi(x: real) ensures x == real_pi() ==> #[trigger] rcos(x) == -1real;
pub broadcast axiom fn ax_exp(x: real) ensures #[trigger] rexp(x) > 0real, x == 0real ==> rexp(x) == 1real, x == 1real ==> rexp(x) == real_e(), rln(rexp(x)) == x;
pub broadcast axiom fn ax_ln(x: real) ensures x > 0real ==> rexp(#[trigger] rln(x)) == x;
pub broadcast proof fn lemma_ln_values(x: real) ensures x == 1real ==> #[trigger] rln(x) == 0real, x == real_e() ==> rln(x) == 1real { ax_exp(0real); ax_exp(1real); }
pub broadcast group real_functions { ax_sin0, ax_sinpi, ax_cos0, ax_cospi, ax_exp, ax_ln, lemma_ln_values }

/// u^k for whole exponents
pub open spec fn npow(u: real, k: nat) -> real
    decreases k
{
    if k == 0 { 1real } else { u * npow(u, (k - 1) as nat) }
}
#[verifier::opaque]
pub open spec fn is_whole(r: real) -> bool { r == r.floor() as real }
pub proof fn lemma_whole_of(k: int, r: real)
    requires r == k as real,
    ensures is_whole(r), r.floor() == k,
{ assert(r.floor() == k); reveal(is_whole); }
pub proof fn lemma_whole_is(r: real)
    requires is_whole(r),
    ensures r == r.floor() as real,
{ reveal(is_whole); }
pub proof fn lemma_int_pred(k: int)
    ensures (k - 1) as real == k as real - 1real,
{ }
/// u^r: where it is defined, and its value (0^0 = 1)
pub open spec fn powdef(u: real, r: real) -> bool { u > 0real || (is_whole(r) && (u != 0real || r >= 0real)) || (u == 0real && r > 0real) }
pub open spec fn rpow(u: real, r: real) -> real {
    if u > 0real { rexp(r * rln(u)) }
    else if r == 0real { 1real }
    else if u == 0real { 0real }
    else if r > 0real { npow(u, r.floor() as nat) }
    else { 1real / npow(u, (-r).floor() as nat) }
}
pub broadcast proof fn lemma_rpow_units(u: real, r: real)
    ensures
        r == 0real ==> #[trigger] rpow(u, r) == 1real,
        r == 1real ==> rpow(u, r) == u,
        u == 1real ==> rpow(u, r) == 1real,
        u == 0real && r > 0real ==> rpow(u, r) == 0real,
{
    broadcast use real_functions;
    assert(0real * rln(u) == 0real) by (nonlinear_arith);
    assert(1real * rln(u) == rln(u)) by (nonlinear_arith);
    assert(r * 0real == 0real) by (nonlinear_arith);
    reveal_with_fuel(npow, 3);
    assert(u * 1real == u) by (nonlinear_arith);
    assert(rln(u) == rln(u));
}

// ----- meaning --------------------------------------------------------------
/// is the expression defined for these values of the variables?
pub open spec fn dfd(g: G, env: Env) -> bool
    decreases g
{
    match g {
        G::Num(n) => ndef(n),
        G::Var(x) => true,
        // (sin, cos, exp, ln: only under the hypothesis that floating-point constants are exact)
        G::Un(op, a) => dfd(*a, env) && (op == OperatorType::Ln ==> val(*a, env) > 0real) && (op != OperatorType::Neg ==> float_ideal()),
        G::Bin(op, a, b) => dfd(*a, env) && dfd(*b, env) && (op == OperatorType::Div ==> val(*b, env) != 0real)
            && (op == OperatorType::Pow ==> powdef(val(*a, env), val(*b, env))),
        G::Bad => false,
    }
}
pub open spec fn un_val(op: OperatorType, x: real) -> real {
    match op {
        OperatorType::Neg => -x, OperatorType::Sin => rsin(x), OperatorType::Cos => rcos(x), OperatorType::Exp => rexp(x), OperatorType::Ln => rln(x),
        _ => 0real,
    }
}
pub open spec fn bin_val(op: OperatorType, x: real, y: real) -> real {
    match op {
        OperatorType::Add => x + y, OperatorType::Sub => x - y, OperatorType::Mul => x * y, OperatorType::Div => x / y, OperatorType::Pow => rpow(x, y),
        _ => 0real,
    }
}
pub open spec fn val(g: G, env: Env) -> real
    decreases g
{
    match g {
        G::Num(n) => nval(n),
        G::Var(x) => env(x),
        G::Un(op, a) => un_val(op, val(*a, env)),
        G::Bin(op, a, b) => bin_val(op, val(*a, env), val(*b, env)),
        G::Bad => 0real,
    }
}
/// b may replace a: wherever a is defined, so is b, with the same value
pub open spec fn refines(a: G, b: G) -> bool {
    forall|env: Env| #[trigger] dfd(a, env) ==> dfd(b, env) && val(b, env) == val(a, env)
}
/// exact arithmetic without variables
pub open spec fn arith(g: G) -> bool
    decreases g
{
    match g {
        G::Num(n) => exact(n.value),
        G::Un(op, a) => op == OperatorType::Neg && arith(*a),
        G::Bin(op, a, b) => op != OperatorType::Pow && arith(*a) && arith(*b),
        _ => false,
    }
}
/// every closed exact arithmetic expression that is defined has become one exact number
pub open spec fn folded(a: G, b: G) -> bool {
    forall|env: Env| arith(a) && #[trigger] dfd(a, env) ==> (b matches G::Num(n) && exact(n.value))
}

// the definitions again, one level at a time (these give the solver the nested terms)
pub broadcast proof fn lemma_dfd_un(op: OperatorType, a: G, env: Env)
    ensures #[trigger] dfd(un(op, a), env) == (dfd(a, env) && (op == OperatorType::Ln ==> val(a, env) > 0real) && (op != OperatorType::Neg ==> float_ideal())) { }
pub broadcast proof fn lemma_dfd_bin(op: OperatorType, a: G, b: G, env: Env)
    ensures #[trigger] dfd(bin(op, a, b), env) == (dfd(a, env) && dfd(b, env) && (op == OperatorType::Div ==> val(b, env) != 0real)
            && (op == OperatorType::Pow ==> powdef(val(a, env), val(b, env)))) { }
pub broadcast proof fn lemma_val_un(op: OperatorType, a: G, env: Env)
    ensures #[trigger] val(un(op, a), env) == un_val(op, val(a, env)) { }
pub broadcast proof fn lemma_val_bin(op: OperatorType, a: G, b: G, env: Env)
    ensures #[trigger] val(bin(op, a, b), env) == bin_val(op, val(a, env), val(b, env)) { }
pub broadcast proof fn lemma_vars_un(op: OperatorType, a: G)
    ensures #[trigger] vars(un(op, a)) == vars(a) { }
pub broadcast proof fn lemma_vars_bin(op: OperatorType, a: G, b: G)
    ensures #[trigger] vars(bin(op, a, b)) == vars(a).union(vars(b)) { }
pub broadcast proof fn lemma_arith_un(op: OperatorType, a: G)
    ensures #[trigger] arith(un(op, a)) == (op == OperatorType::Neg && arith(a)) { }
pub broadcast proof fn lemma_arith_bin(op: OperatorType, a: G, b: G)
    ensures #[trigger] arith(bin(op, a, b)) == (op != OperatorType::Pow && arith(a) && arith(b)) { }
pub broadcast group meaning { lemma_dfd_un, lemma_dfd_bin, lemma_val_un, lemma_val_bin, lemma_vars_un, lemma_vars_bin, lemma_arith_un, lemma_arith_bin }

/// neutral and absorbing elements of the binary operations
pub broadcast proof fn lemma_bin_units(op: OperatorType, x: real, y: real)
    ensures
        op == OperatorType::Add && x == 0real ==> #[trigger] bin_val(op, x, y) == y,
        op == OperatorType::Add && y == 0real ==> bin_val(op, x, y) == x,
        op == OperatorType::Sub && y == 0real ==> bin_val(op, x, y) == x,
        op == OperatorType::Sub && x == 0real ==> bin_val(op, x, y) == -y,
        op == OperatorType::Mul && x == 0real ==> bin_val(op, x, y) == 0real,
        op == OperatorType::Mul && y == 0real ==> bin_val(op, x, y) == 0real,
        op == OperatorType::Mul && x == 1real ==> bin_val(op, x, y) == y,
        op == OperatorType::Mul && y == 1real ==> bin_val(op, x, y) == x,
        op == OperatorType::Div && x == 0real && y != 0real ==> bin_val(op, x, y) == 0real,
        op == OperatorType::Div && y == 1real ==> bin_val(op, x, y) == x,
        op == OperatorType::Pow && y == 0real ==> bin_val(op, x, y) == 1real,
        op == OperatorType::Pow && y == 1real ==> bin_val(op, x, y) == x,
        op == OperatorType::Pow && x == 1real ==> bin_val(op, x, y) == 1real,
        op == OperatorType::Pow && x == 0real && y > 0real ==> bin_val(op, x, y) == 0real,
{
    lemma_real_units(x); lemma_real_units(y); lemma_rpow_units(x, y);
}
/// a leaf number is well-formed
pub open spec fn leaf(g: G) -> bool { g is Num || g is Var }

// ------------------------------------------------------------ constructors
//@ fn gen_op_neg () -> r: AstOperator
    ensures op_ok(r), r.descriptor == OperatorType::Neg,
//@ fn gen_op_add () -> r: AstOperator
    ensures op_ok(r), r.descriptor == OperatorType::Add,
//@ fn gen_op_sub () -> r: AstOperator
    ensures op_ok(r), r.descriptor == OperatorType::Sub,
//@ fn gen_op_mul () -> r: AstOperator
    ensures op_ok(r), r.descriptor == OperatorType::Mul,
//@ fn gen_op_div () -> r: AstOperator
    ensures op_ok(r), r.descriptor == OperatorType::Div,
//@ fn gen_op_pow () -> r: AstOperator
    ensures op_ok(r), r.descriptor == OperatorType::Pow,
//@ fn gen_sin_op () -> r: AstOperator
    ensures op_ok(r), r.descriptor == OperatorType::Sin,
//@ fn gen_cos_op () -> r: AstOperator
    ensures op_ok(r), r.descriptor == OperatorType::Cos,
//@ fn gen_op_exp () -> r: AstOperator
    ensures op_ok(r), r.descriptor == OperatorType::Exp,
//@ fn gen_op_ln () -> r: AstOperator
    ensures op_ok(r), r.descriptor == OperatorType::Ln,

//@ in impl <Expression as Neg>
    open spec fn neg_ok(self) -> bool { true }
//@ fn <Expression as Neg>::neg -> r
    ensures wf(self) ==> wf(r), gview(r) == un(OperatorType::Neg, gview(self)),
//@ in impl <Expression as Add>
    open spec fn add_ok(self, r: Self) -> bool { true }
//@ fn <Expression as Add>::add (rhs) -> r
    ensures wf(self) && wf(rhs) ==> wf(r), gview(r) == bin(OperatorType::Add, gview(self), gview(rhs)),
//@ in impl <Expression as Sub>
    open spec fn sub_ok(self, r: Self) -> bool { true }
//@ fn <Expression as Sub>::sub (rhs) -> r
    ensures wf(self) && wf(rhs) ==> wf(r), gview(r) == bin(OperatorType::Sub, gview(self), gview(rhs)),
//@ in impl <Expression as Mul>
    open spec fn mul_ok(self, r: Self) -> bool { true }
//@ fn <Expression as Mul>::mul (rhs) -> r
    ensures wf(self) && wf(rhs) ==> wf(r), gview(r) == bin(OperatorType::Mul, gview(self), gview(rhs)),
//@ in impl <Expression as Div>
    open spec fn div_ok(self, r: Self) -> bool { true }
//@ fn <Expression as Div>::div (rhs) -> r
    ensures wf(self) && wf(rhs) ==> wf(r), gview(r) == bin(OperatorType::Div, gview(self), gview(rhs)),
//@ fn <Expression as Sin>::sin -> r
    ensures wf(self) ==> wf(r), gview(r) == un(OperatorType::Sin, gview(self)),
//@ fn <&Expression as Sin>::sin -> r
    ensures wf(*self) ==> wf(r), gview(r) == un(OperatorType::Sin, gview(*self)),
//@ fn <Expression as Cos>::cos -> r
    ensures wf(self) ==> wf(r), gview(r) == un(OperatorType::Cos, gview(self)),
//@ fn <&Expression as Cos>::cos -> r
    ensures wf(*self) ==> wf(r), gview(r) == un(OperatorType::Cos, gview(*self)),
//@ fn <Expression as Exp>::exp -> r
    ensures wf(self) ==> wf(r), gview(r) == un(OperatorType::Exp, gview(self)),
//@ fn <Expression as Ln>::ln -> r
    ensures wf(self) ==> wf(r), gview(r) == un(OperatorType::Ln, gview(self)),
//@ fn <Expression as Pow<T>>::pow (ex) -> r
    ensures exists|e: Expression| #[trigger] ex.into_ens(e) && (wf(self) && wf(e) ==> wf(r)) && gview(r) == bin(OperatorType::Pow, gview(self), gview(e)),
//@ fn sin (x: T) -> r: Expression
    ensures exists|e: Expression| #[trigger] x.into_ens(e) && (wf(e) ==> wf(r)) && gview(r) == un(OperatorType::Sin, gview(e)),
//@ fn cos (x: T) -> r: Expression
    ensures exists|e: Expression| #[trigger] x.into_ens(e) && (wf(e) ==> wf(r)) && gview(r) == un(OperatorType::Cos, gview(e)),
//@ fn exp (x: Expression) -> r: Expression
    ensures wf(x) ==> wf(r), gview(r) == un(OperatorType::Exp, gview(x)),
//@ fn ln (x: Expression) -> r: Expression
    ensures wf(x) ==> wf(r), gview(r) == un(OperatorType::Ln, gview(x)),

//@ raw
impl vstd::std_specs::cmp::PartialEqSpecImpl for AstOperator {
    open spec fn obeys_eq_spec() -> bool { false }
    open spec fn eq_spec(&self, other: &Self) -> bool { true }
}
//@ fn <AstOperator as PartialEq>::eq (self: & Self, other: & Self) -> r: bool
    ensures op_ok(*self) && op_ok(*other) ==> r == (self.descriptor == other.descriptor),
//@ in impl <AstOperand as From<T>>
    open spec fn from_ens(v: T, r: Self) -> bool { exists|n: SmartNum| #[trigger] v.into_ens(n) && r == AstOperand::Num(n) }
//@ in impl <AstNode as From<T>>
    open spec fn from_ens(v: T, r: Self) -> bool { exists|n: SmartNum| #[trigger] v.into_ens(n) && r == AstNode::Operand(AstOperand::Num(n)) }
//@ in impl <Expression as From<T>>
    open spec fn from_ens(v: T, r: Self) -> bool { exists|n: SmartNum| #[trigger] v.into_ens(n) && gview(r) == G::Num(n) && (nwf(n) ==> wf(r)) }
//@ in impl <Expression as From<Variable>>
    open spec fn from_ens(v: Variable, r: Self) -> bool { gview(r) == G::Var(v.name@) && wf(r) }
//@ in impl <Expression as From<AstOperand>>
    open spec fn from_ens(v: AstOperand, r: Self) -> bool {
        match v { AstOperand::Num(n) => gview(r) == G::Num(n) && (nwf(n) ==> wf(r)), AstOperand::Variable(x) => gview(r) == G::Var(x.name@) && wf(r) }
    }
//@ in impl <Option<&Variable> as From<&Expression>>
    open spec fn from_ens(v: &'a Expression, r: Self) -> bool {
        match gview(*v) { G::Var(x) => (r matches Some(y) && y.name@ == x), _ => r is None }
    }
//@ in impl <Option<Variable> as From<Expression>>
    open spec fn from_ens(v: Expression, r: Self) -> bool {
        match gview(v) { G::Var(x) => (r matches Some(y) && y.name@ == x), _ => r is None }
    }
//@ in impl <Option<&Variable> as From<&AstOperand>>
    open spec fn from_ens(v: &'a AstOperand, r: Self) -> bool { match *v { AstOperand::Num(n) => r is None, AstOperand::Variable(x) => r == Some(&x) } }
//@ in impl <Option<Variable> as From<AstOperand>>
    open spec fn from_ens(v: AstOperand, r: Self) -> bool { match v { AstOperand::Num(n) => r is None, AstOperand::Variable(x) => r == Some(x) } }

//@ fn Variable::new_variable (name: &str) -> r: Variable
    ensures r.name@ == name@,
//@ fn AstOperand::new_variable (name: &str) -> r: AstOperand
    ensures r matches AstOperand::Variable(v) && v.name@ == name@,
//@ fn Expression::new_variable (name: &str) -> r: Expression
    ensures gview(r) == G::Var(name@), wf(r),
//@ fn Expression::one () -> r: Expression
    ensures wf(r), gview(r) matches G::Num(n) && vone(n.value),
//@ fn Expression::zero () -> r: Expression
    ensures wf(r), gview(r) matches G::Num(n) && vzero(n.value),
//@ fn Expression::pi () -> r: Expression
    ensures wf(r), gview(r) matches G::Num(n) && n.tag == ConstType::Pi && (float_ideal() ==> nval(n) == real_pi()),
//@ fn Expression::e () -> r: Expression
    ensures wf(r), gview(r) matches G::Num(n) && n.tag == ConstType::E && (float_ideal() ==> nval(n) == real_e()),

//@ fn AstOperand::is_num (self: &Self) -> r: bool
    ensures r == (self is Num),
//@ fn AstOperand::is_zero (self: &Self) -> r: bool
    ensures (*self matches AstOperand::Num(n) ==> nwf(n)) ==> r == (*self matches AstOperand::Num(n) && vzero(n.value)),
//@ fn AstOperand::is_one (self: &Self) -> r: bool
    ensures (*self matches AstOperand::Num(n) ==> nwf(n)) ==> r == (*self matches AstOperand::Num(n) && vone(n.value)),
//@ fn AstOperand::is_pi (self: &Self) -> r: bool
    ensures r == (*self matches AstOperand::Num(n) && n.tag == ConstType::Pi),
//@ fn AstOperand::is_e (self: &Self) -> r: bool
    ensures r == (*self matches AstOperand::Num(n) && n.tag == ConstType::E),
//@ fn <AstOperand as ToSmartNum>::to_smart_num -> r
    ensures match self { AstOperand::Num(n) => r == Ok::<SmartNum, _>(n), _ => r is Err },
//@ fn <&AstOperand as ToSmartNum>::to_smart_num -> r
    ensures match *self { AstOperand::Num(n) => (r matches Ok(m) && *m == n), _ => r is Err },

//@ fn Expression::is_num (self: &Self) -> r: bool
    ensures r == (gview(*self) is Num),
//@ fn Expression::is_operator (self: &Self) -> r: bool
    ensures r == (self.root is Operator),
//@ fn Expression::is_operand (self: &Self) -> r: bool
    ensures r == (self.root is Operand),
//@ fn Expression::is_zero (self: &Self) -> r: bool
    ensures wf(*self) ==> r == (gview(*self) matches G::Num(n) && vzero(n.value)),
//@ fn Expression::is_one (self: &Self) -> r: bool
    ensures wf(*self) ==> r == (gview(*self) matches G::Num(n) && vone(n.value)),
//@ fn Expression::is_pi (self: &Self) -> r: bool
    ensures r == (gview(*self) matches G::Num(n) && n.tag == ConstType::Pi),
//@ fn Expression::is_e (self: &Self) -> r: bool
    ensures r == (gview(*self) matches G::Num(n) && n.tag == ConstType::E),
//@ fn <Expression as ToSmartNum>::to_smart_num -> r
    ensures match gview(self) { G::Num(n) => r == Ok::<SmartNum, ExprIsNotNumError>(n), _ => r is Err },
//@ fn <&Expression as ToSmartNum>::to_smart_num -> r
    ensures match gview(*self) { G::Num(n) => (r matches Ok(m) && *m == n), _ => r is Err },
//@ fn <Expression as ToRational>::to_rational -> r
    ensures
        r is Some ==> (gview(self) matches G::Num(n) && exact(n.value)),
        gview(self) matches G::Num(n) ==> ((r is Some) == exact(n.value)) && (r matches Some(q) ==> nwf(n) ==> qwf(q) && qdef(q) == ndef(n) && (ndef(n) ==> qval(q) == nval(n))),
//@ fn <&Expression as ToRational>::to_rational -> r
    ensures
        r is Some ==> (gview(*self) matches G::Num(n) && exact(n.value)),
        gview(*self) matches G::Num(n) ==> ((r is Some) == exact(n.value)) && (r matches Some(q) ==> nwf(n) ==> qwf(q) && qdef(q) == ndef(n) && (ndef(n) ==> qval(q) == nval(n))),
//@ fn Expression::near (another: &Expression, eps: f64) -> r
    requires wf(*self), wf(*another),
    ensures
        r.is_ok() == (gview(*self) is Num && gview(*another) is Num),
        r matches Ok(b) ==> (float_ideal() && ndef(gview(*self)->Num_0) && ndef(gview(*another)->Num_0) ==> b == (rabs(nval(gview(*self)->Num_0) - nval(gview(*another)->Num_0)) < fr(eps))),
