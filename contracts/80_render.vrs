//@ raw
// ===== rendering =============================================================
/// text of a number
pub open spec fn val_text(v: SmartNumVal) -> Seq<char> {
    match v {
        SmartNumVal::Integer(i) => show_int(i as int),
        SmartNumVal::Rational(q) => (if q.sign == 1 { ""@ } else { "-"@ }) + show_int(q.nominator as int) + "/"@ + show_int(q.denominator as int),
        SmartNumVal::Real(f) => show_f64(f, ".3"@),
    }
}
pub open spec fn tag_text(t: ConstType) -> Seq<char> {
    match t { ConstType::Zero => "0"@, ConstType::One => "1"@, ConstType::Pi => "pi"@, ConstType::E => "e"@, ConstType::Nothing => ""@ }
}
pub open spec fn num_text(n: SmartNum) -> Seq<char> { if n.tag == ConstType::Nothing { val_text(n.value) } else { tag_text(n.tag) } }
/// how tightly the printed number binds: "-3" like a minus sign, "1/2" like a quotient
pub open spec fn num_priority(n: SmartNum) -> u32 {
    if num_negative(n.value) { 1 } else if n.tag == ConstType::Nothing && n.value is Rational { 4 } else { u32::MAX }
}
pub open spec fn num_negative(v: SmartNumVal) -> bool {
    match v { SmartNumVal::Integer(i) => i < 0, SmartNumVal::Rational(q) => q.nominator != 0 && q.sign == -1, SmartNumVal::Real(f) => fr(f) < 0real }
}
/// the sign of a machine float is only known under the float idealisation
pub open spec fn printable(g: G) -> bool
    decreases g
{
    match g { G::Num(n) => exact(n.value) || float_ideal(), G::Un(_, a) => printable(*a), G::Bin(_, a, b) => printable(*a) && printable(*b), _ => true }
}

pub open spec fn paren(yes: bool, s: Seq<char>) -> Seq<char> { if yes { "("@ + s + ")"@ } else { s } }
/// the text of an expression where only operators at least as tight as `up` may stand without parentheses
pub open spec fn render(g: G, up: u32) -> Seq<char>
    decreases g
{
    match g {
        G::Num(n) => paren(num_priority(n) < up, num_text(n)),
        G::Var(x) => x,
        G::Un(op, a) => paren(op_priority(op) < up, op_symbol(op) + render(*a, if op == OperatorType::Neg { (op_priority(op) + 2) as u32 } else { op_priority(op) })),
        G::Bin(op, a, b) => paren(op_priority(op) < up,
            render(*a, if op == OperatorType::Pow { (op_priority(op) + 1) as u32 } else { op_priority(op) }) + " "@ + op_symbol(op) + " "@ + render(*b, (op_priority(op) + 1) as u32)),
        G::Bad => ""@,
    }
}

/// s is the text of g
pub open spec fn prints(g: G, s: Seq<char>) -> bool { printable(g) ==> s =~= render(g, 0) }
//@ in impl <ConstType as VShow>
    open spec fn show_req(&self) -> bool { *self != ConstType::Nothing }
    open spec fn show_ens(&self, s: Seq<char>) -> bool { s =~= tag_text(*self) }
//@ in impl <RationalNum as VShow>
    open spec fn show_req(&self) -> bool { true }
    open spec fn show_ens(&self, s: Seq<char>) -> bool { s =~= val_text(SmartNumVal::Rational(*self)) }
//@ in impl <SmartNumVal as VShow>
    open spec fn show_req(&self) -> bool { true }
    open spec fn show_ens(&self, s: Seq<char>) -> bool { s =~= val_text(*self) }
//@ in impl <SmartNum as VShow>
    open spec fn show_req(&self) -> bool { true }
    open spec fn show_ens(&self, s: Seq<char>) -> bool { s =~= num_text(*self) }
//@ in impl <Variable as VShow>
    open spec fn show_req(&self) -> bool { true }
    open spec fn show_ens(&self, s: Seq<char>) -> bool { s =~= self.name@ }
//@ in impl <AstOperator as VShow>
    open spec fn show_req(&self) -> bool { true }
    open spec fn show_ens(&self, s: Seq<char>) -> bool { s =~= self.symbol@ }
//@ in impl <AstOperand as VShow>
    open spec fn show_req(&self) -> bool { true }
    open spec fn show_ens(&self, s: Seq<char>) -> bool { s =~= operand_text(*self) }
//@ raw
pub open spec fn operand_text(o: AstOperand) -> Seq<char> { match o { AstOperand::Num(n) => num_text(n), AstOperand::Variable(v) => v.name@ } }
//@ in impl <Expression as VShow>
    open spec fn show_req(&self) -> bool { wf(*self) }
    open spec fn show_ens(&self, s: Seq<char>) -> bool { prints(gview(*self), s) && (printable(gview(*self)) && has_values(gview(*self)) ==> reads_as(s, gview(*self))) }
//@ fn <Expression as VShow>::vshow
//@ entry
    proof { theorem_reading(*self); }
//@ fn SmartNumVal::is_rational (self: &Self) -> r: bool
    ensures r == (*self is Rational),
//@ fn SmartNumVal::is_int (self: &Self) -> r: bool
    ensures r == (*self is Integer),
//@ fn SmartNumVal::is_real (self: &Self) -> r: bool
    ensures r == (*self is Real),
//@ fn SmartNum::priority (self: &Self) -> r: u32
    ensures nwf(*self) && (exact(self.value) || float_ideal()) ==> r == num_priority(*self),
//@ fn AstOperand::to_string (self: &Self) -> r: String
    ensures r@ =~= operand_text(*self),
//@ fn Expression::to_string_raw (self: &Self, upper_priority: u32) -> r: String
    requires wf(*self),
    ensures printable(gview(*self)) ==> r@ =~= render(gview(*self), upper_priority),
    decreases esize(*self),
//@ attr
#[verifier::rlimit(60)]
//@ in impl <LimitExpression as VShow>
    open spec fn show_req(&self) -> bool { *self matches LimitExpression::Normal(e) ==> wf(e) }
    open spec fn show_ens(&self, s: Seq<char>) -> bool {
        match *self {
            LimitExpression::Infinitesimal => s =~= "0"@,
            LimitExpression::Infinity => s =~= "infinity"@,
            LimitExpression::BoundedFluctuation => s =~= "~"@,
            LimitExpression::Normal(e) => prints(gview(e), s) && (printable(gview(e)) && has_values(gview(e)) ==> reads_as(s, gview(e))),
        }
    }
