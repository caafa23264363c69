//@ raw
// ===== reading a printed expression =============================================
pub open spec fn digit_value(c: char) -> int { c as int - '0' as int }
pub open spec fn all_digits(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> '0' <= #[trigger] s[i] <= '9' }
/// the number written with these decimal digits
pub open spec fn read_nat(s: Seq<char>) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else { 10 * read_nat(s.drop_last()) + digit_value(s.last()) }
}
proof fn lemma_show_nat(n: nat)
    ensures show_nat(n).len() > 0, all_digits(show_nat(n)), read_nat(show_nat(n)) == n,
    decreases n
{
    reveal(show_nat);
    reveal_with_fuel(read_nat, 2);
    if n < 10 {
        assert(show_nat(n).drop_last() =~= Seq::<char>::empty());
    } else {
        lemma_show_nat(n / 10);
        assert(show_nat(n).drop_last() =~= show_nat(n / 10));
    }
}
proof fn lemma_show_int(x: int)
    ensures x < 0 ==> show_int(x) == "-"@ + show_nat((-x) as nat), x >= 0 ==> show_int(x) == show_nat(x as nat),
{ reveal(show_int); }
/// a parse tree of the usual notation
pub enum Ph {
    Nat(Seq<char>), Real(f64), Const(ConstType), Name(Seq<char>),
    Par(Box<Ph>),
    Fun(OperatorType, Box<Ph>),
    Neg(Box<Ph>),
    /// (written without spaces?, left, right)
    Bin(OperatorType, bool, Box<Ph>, Box<Ph>),
}
/// binding strength: sums and minus loosest, then products and quotients, then powers, then functions
pub open spec fn plevel(t: Ph) -> int {
    match t {
        Ph::Real(f) => if fr(f) < 0real { 2 } else { 6 },
        Ph::Fun(_, _) => 5,
        Ph::Neg(_) => 2,
        Ph::Bin(op, _, _, _) => if op == OperatorType::Pow { 4 } else if op == OperatorType::Mul || op == OperatorType::Div { 3 } else { 2 },
        _ => 6,
    }
}
/// a correct parse: every operand binds tightly enough; sums, products and quotients group to the left
pub open spec fn pok(t: Ph) -> bool
    decreases t
{
    match t {
        Ph::Nat(s) => s.len() > 0 && all_digits(s),
        Ph::Const(c) => c != ConstType::Nothing,
        Ph::Par(a) => pok(*a),
        Ph::Fun(op, a) => is_un(op) && op != OperatorType::Neg && pok(*a) && plevel(*a) >= 5,
        Ph::Neg(a) => pok(*a) && plevel(*a) >= 3,
        Ph::Bin(op, _, l, r) => is_bin(op) && pok(*l) && pok(*r) && (match op {
            OperatorType::Pow => plevel(*l) >= 5 && plevel(*r) >= 5,
            OperatorType::Mul | OperatorType::Div => plevel(*l) >= 3 && plevel(*r) >= 4,
            _ => plevel(*l) >= 2 && plevel(*r) >= 3,
        }),
        _ => true,
    }
}
pub open spec fn sep(op: OperatorType, tight: bool) -> Seq<char> { if tight { op_symbol(op) } else { " "@ + op_symbol(op) + " "@ } }
/// the text a parse tree covers
pub open spec fn ptext(t: Ph) -> Seq<char>
    decreases t
{
    match t {
        Ph::Nat(s) => s, Ph::Real(f) => show_f64(f, ".3"@), Ph::Const(c) => tag_text(c), Ph::Name(x) => x,
        Ph::Par(a) => "("@ + ptext(*a) + ")"@,
        Ph::Fun(op, a) => op_symbol(op) + ptext(*a),
        Ph::Neg(a) => "-"@ + ptext(*a),
        Ph::Bin(op, tight, l, r) => ptext(*l) + sep(op, tight) + ptext(*r),
    }
}
pub open spec fn const_val(c: ConstType) -> real {
    match c { ConstType::One => 1real, ConstType::Pi => real_pi(), ConstType::E => real_e(), _ => 0real }
}
/// what a parse tree means
pub open spec fn pval(t: Ph, env: Env) -> real
    decreases t
{
    match t {
        Ph::Nat(s) => read_nat(s) as int as real, Ph::Real(f) => fr(f), Ph::Const(c) => const_val(c), Ph::Name(x) => env(x),
        Ph::Par(a) => pval(*a, env),
        Ph::Fun(op, a) => un_val(op, pval(*a, env)),
        Ph::Neg(a) => -pval(*a, env),
        Ph::Bin(op, _, l, r) => bin_val(op, pval(*l, env), pval(*r, env)),
    }
}
pub open spec fn pdfd(t: Ph, env: Env) -> bool
    decreases t
{
    match t {
        Ph::Real(f) => float_ideal(),
        Ph::Par(a) => pdfd(*a, env),
        Ph::Fun(op, a) => pdfd(*a, env) && (op == OperatorType::Ln ==> pval(*a, env) > 0real) && float_ideal(),
        Ph::Neg(a) => pdfd(*a, env),
        Ph::Bin(op, _, l, r) => pdfd(*l, env) && pdfd(*r, env) && (op == OperatorType::Div ==> pval(*r, env) != 0real)
            && (op == OperatorType::Pow ==> powdef(pval(*l, env), pval(*r, env))),
        _ => true,
    }
}
/// t and g mean the same for every assignment
pub open spec fn means_at(t: Ph, g: G, env: Env) -> bool { pdfd(t, env) == dfd(g, env) && (dfd(g, env) ==> pval(t, env) == val(g, env)) }
pub open spec fn means(t: Ph, g: G) -> bool { forall|env: Env| #[trigger] means_at(t, g, env) }
/// the text s can be read in the usual way, and so read means g
pub open spec fn reads_as(s: Seq<char>, g: G) -> bool {
    exists|t: Ph| #[trigger] ptext(t) == s && pok(t) && means(t, g)
}
/// valid numbers, and the right kind of operator everywhere (what wf says of the expression behind g)
pub open spec fn gwf(g: G) -> bool
    decreases g
{
    match g { G::Num(n) => nwf(n) && ndef(n), G::Var(x) => true, G::Un(op, a) => is_un(op) && gwf(*a), G::Bin(op, a, b) => is_bin(op) && gwf(*a) && gwf(*b), G::Bad => false }
}
/// every number in g has a value
pub open spec fn has_values(g: G) -> bool
    decreases g
{
    match g { G::Num(n) => ndef(n), G::Un(op, a) => has_values(*a), G::Bin(op, a, b) => has_values(*a) && has_values(*b), _ => true }
}

// one level at a time
pub broadcast proof fn lemma_pbin(op: OperatorType, tight: bool, l: Ph, r: Ph, env: Env)
    ensures #[trigger] pdfd(Ph::Bin(op, tight, Box::new(l), Box::new(r)), env) == (pdfd(l, env) && pdfd(r, env) && (op == OperatorType::Div ==> pval(r, env) != 0real)
            && (op == OperatorType::Pow ==> powdef(pval(l, env), pval(r, env)))) { }
pub broadcast proof fn lemma_pbinv(op: OperatorType, tight: bool, l: Ph, r: Ph, env: Env)
    ensures #[trigger] pval(Ph::Bin(op, tight, Box::new(l), Box::new(r)), env) == bin_val(op, pval(l, env), pval(r, env)) { }

pub proof fn lemma_ptext(op: OperatorType, tight: bool, l: Ph, r: Ph)
    ensures ptext(Ph::Bin(op, tight, Box::new(l), Box::new(r))) == ptext(l) + sep(op, tight) + ptext(r) { }
pub proof fn lemma_ppar(yes: bool, t: Ph)
    ensures ptext(ppar(yes, t)) == paren(yes, ptext(t)), pok(ppar(yes, t)) == pok(t), yes ==> plevel(ppar(yes, t)) == 6 && chain(ppar(yes, t)),
        forall|g: G| means(t, g) ==> #[trigger] means(ppar(yes, t), g),
{
    assert forall|g: G| means(t, g) implies #[trigger] means(ppar(yes, t), g) by {
        assert forall|env: Env| #[trigger] means_at(ppar(yes, t), g, env) by {
            assert(means_at(t, g, env));
        }
    }
}

// ----- the tree behind the printed text ---------------------------------------
/// the right operand of a product: a quotient may stand there without parentheses, and is then read from the left
pub open spec fn chain(t: Ph) -> bool
    decreases t
{
    plevel(t) >= 4 || (t matches Ph::Bin(op, _, l, r) && op == OperatorType::Div && chain(*l))
}
/// a * t, read from the left
pub open spec fn times(a: Ph, t: Ph) -> Ph
    decreases t
{
    match t {
        Ph::Bin(op, tight, l, r) => if op == OperatorType::Div { Ph::Bin(op, tight, Box::new(times(a, *l)), r) } else { Ph::Bin(OperatorType::Mul, false, Box::new(a), Box::new(t)) },
        _ => Ph::Bin(OperatorType::Mul, false, Box::new(a), Box::new(t)),
    }
}
pub open spec fn ppar(yes: bool, t: Ph) -> Ph { if yes { Ph::Par(Box::new(t)) } else { t } }
pub open spec fn pabs(v: SmartNumVal) -> Ph {
    match v {
        SmartNumVal::Integer(i) => Ph::Nat(show_nat(if i < 0 { (-i) as nat } else { i as nat })),
        SmartNumVal::Rational(q) => Ph::Bin(OperatorType::Div, true, Box::new(Ph::Nat(show_nat(q.nominator as nat))), Box::new(Ph::Nat(show_nat(q.denominator as nat)))),
        SmartNumVal::Real(f) => Ph::Real(f),
    }
}
pub open spec fn pnum(n: SmartNum) -> Ph {
    if n.tag != ConstType::Nothing { Ph::Const(n.tag) } else if exact(n.value) && num_negative(n.value) { Ph::Neg(Box::new(pabs(n.value))) } else { pabs(n.value) }
}
pub open spec fn ptree(g: G, up: u32) -> Ph
    decreases g
{
    match g {
        G::Num(n) => ppar(num_priority(n) < up, pnum(n)),
        G::Var(x) => Ph::Name(x),
        G::Un(op, a) => ppar(op_priority(op) < up, if op == OperatorType::Neg { Ph::Neg(Box::new(ptree(*a, 3))) } else { Ph::Fun(op, Box::new(ptree(*a, 5))) }),
        G::Bin(op, a, b) => {
            let l = ptree(*a, if op == OperatorType::Pow { 5 } else { op_priority(op) });
            let r = ptree(*b, (op_priority(op) + 1) as u32);
            ppar(op_priority(op) < up, if op == OperatorType::Mul { times(l, r) } else { Ph::Bin(op, false, Box::new(l), Box::new(r)) })
        },
        G::Bad => Ph::Name(""@),
    }
}
/// strong enough to stand where `up` is asked for
pub open spec fn fits(t: Ph, up: u32) -> bool {
    if up <= 2 { plevel(t) >= 2 } else if up == 3 { plevel(t) >= 3 } else if up == 4 { chain(t) } else { plevel(t) >= 5 }
}
proof fn lemma_chain(t: Ph)
    requires chain(t),
    ensures plevel(t) >= 3,
{ }
proof fn lemma_times(a: Ph, t: Ph)
    requires pok(a), pok(t), plevel(a) >= 3, chain(t),
    ensures
        pok(times(a, t)), plevel(times(a, t)) == 3,
        ptext(times(a, t)) =~= ptext(a) + sep(OperatorType::Mul, false) + ptext(t),
    decreases t
{
    match t {
        Ph::Bin(op, tight, l, r) => {
            if op == OperatorType::Div { lemma_times(a, *l); }
        }
        _ => {}
    }
}
proof fn lemma_mul_assoc_div(x: real, y: real, z: real)
    ensures z != 0real ==> (x * y) / z == x * (y / z),
{
    assert(z != 0real ==> (x * y) / z == x * (y / z)) by (nonlinear_arith);
}
proof fn lemma_times_means(a: Ph, t: Ph, env: Env)
    requires chain(t),
    ensures
        pdfd(times(a, t), env) == (pdfd(a, env) && pdfd(t, env)),
        pdfd(times(a, t), env) ==> pval(times(a, t), env) == pval(a, env) * pval(t, env),
    decreases t
{
    match t {
        Ph::Bin(op, tight, l, r) => {
            if op == OperatorType::Div { lemma_times_means(a, *l, env); lemma_mul_assoc_div(pval(a, env), pval(*l, env), pval(*r, env)); }
        }
        _ => {}
    }
}
proof fn lemma_rat_parts(s: int, n: int, d: int)
    requires s == 1 || s == -1, d != 0,
    ensures rat(s * n, d) == (if s == 1 { (n as real) / (d as real) } else { -((n as real) / (d as real)) }),
{
    let x = n as real; let y = d as real;
    if s == 1 { assert(s * n == n); } else { assert(s * n == -n); assert((-n) as real == -x); assert(y != 0real ==> (-x) / y == -(x / y)) by (nonlinear_arith); }
}
proof fn lemma_pabs(v: SmartNumVal, env: Env)
    requires vwf(v), vdef(v), exact(v) || float_ideal(),
    ensures
        pok(pabs(v)), pdfd(pabs(v), env),
        pval(pabs(v), env) == (if exact(v) && num_negative(v) { -vval(v) } else { vval(v) }),
        (if exact(v) && num_negative(v) { "-"@ } else { ""@ }) + ptext(pabs(v)) =~= val_text(v) || (v matches SmartNumVal::Rational(q) && q.nominator == 0),
        plevel(pabs(v)) == (match v { SmartNumVal::Integer(_) => 6int, SmartNumVal::Rational(_) => 3, SmartNumVal::Real(f) => if fr(f) < 0real { 2 } else { 6 } }),
        v is Rational ==> chain(pabs(v)),
{
    reveal_strlit("");
    match v {
        SmartNumVal::Integer(i) => { lemma_show_int(i as int); lemma_show_nat(if i < 0 { (-i) as nat } else { i as nat }); }
        SmartNumVal::Rational(q) => {
            let n = q.nominator as int; let d = q.denominator as int;
            lemma_show_int(n); lemma_show_int(d); lemma_show_nat(n as nat); lemma_show_nat(d as nat);
            lemma_rat_parts(q.sign as int, n, d);
            let l = Ph::Nat(show_nat(n as nat)); let r = Ph::Nat(show_nat(d as nat));
            lemma_pbin(OperatorType::Div, true, l, r, env); lemma_pbinv(OperatorType::Div, true, l, r, env);
            assert(pok(l) && pok(r) && chain(l));
            assert(pval(l, env) == n as real && pval(r, env) == d as real);
            lemma_ptext(OperatorType::Div, true, l, r);
            assert(ptext(pabs(v)) == show_nat(n as nat) + "/"@ + show_nat(d as nat));
            if n == 0 { assert(0real / (d as real) == 0real) by (nonlinear_arith) requires d as real != 0real; }
        }
        SmartNumVal::Real(f) => { }
    }
}
proof fn lemma_pnum(n: SmartNum)
    requires nwf(n), ndef(n), exact(n.value) || float_ideal(),
    ensures
        pok(pnum(n)), ptext(pnum(n)) =~= num_text(n), means(pnum(n), G::Num(n)),
        plevel(pnum(n)) >= 2, num_priority(n) >= 4 ==> chain(pnum(n)), num_priority(n) >= 5 ==> plevel(pnum(n)) == 6,
{
    reveal_strlit("");
    let v = n.value;
    if n.tag == ConstType::Nothing {
        assert forall|env: Env| #[trigger] pdfd(pnum(n), env) == dfd(G::Num(n), env) && (dfd(G::Num(n), env) ==> pval(pnum(n), env) == val(G::Num(n), env)) by { lemma_pabs(v, env); }
        lemma_pabs(v, |x: Seq<char>| 0real);
        if v is Rational && v->Rational_0.nominator == 0 {
            let q = v->Rational_0;
            lemma_rat_parts(q.sign as int, 0, q.denominator as int);
            assert(0real / (q.denominator as real) == 0real) by (nonlinear_arith) requires q.denominator as real != 0real;
            assert(vzero(v));
        }
    } else {
        assert(plevel(pnum(n)) == 6);
    }
}
proof fn lemma_tree_un(op: OperatorType, a: G, up: u32)
    requires is_un(op), gwf(a), printable(a), up <= 5,
        ({ let k = if op == OperatorType::Neg { 3u32 } else { 5u32 }; pok(ptree(a, k)) && ptext(ptree(a, k)) =~= render(a, k) && fits(ptree(a, k), k) && means(ptree(a, k), a) }),
    ensures pok(ptree(un(op, a), up)), ptext(ptree(un(op, a), up)) =~= render(un(op, a), up), fits(ptree(un(op, a), up), up), means(ptree(un(op, a), up), un(op, a)),
{
    broadcast use meaning;
    let g = un(op, a);
    let k = if op == OperatorType::Neg { 3u32 } else { 5u32 };
    let u = ptree(a, k);
    let t = if op == OperatorType::Neg { Ph::Neg(Box::new(u)) } else { Ph::Fun(op, Box::new(u)) };
    let yes = op_priority(op) < up;
    lemma_ppar(yes, t);
    assert(ptree(g, up) == ppar(yes, t));
    assert(pok(t));
    assert(ptext(t) == op_symbol(op) + ptext(u));
    assert(render(g, up) == paren(yes, op_symbol(op) + render(a, k)));
    lemma_means_un(op, u, a, t);
}
proof fn lemma_means_un(op: OperatorType, u: Ph, a: G, t: Ph)
    requires means(u, a), is_un(op), t == (if op == OperatorType::Neg { Ph::Neg(Box::new(u)) } else { Ph::Fun(op, Box::new(u)) }),
    ensures means(t, un(op, a)),
{
    broadcast use meaning;
    assert forall|env: Env| #[trigger] means_at(t, un(op, a), env) by {
        assert(means_at(u, a, env));
        if op == OperatorType::Neg { assert(pval(t, env) == -pval(u, env)); } else { assert(pval(t, env) == un_val(op, pval(u, env))); }
    }
}
proof fn lemma_tree_bin(op: OperatorType, a: G, b: G, ul: u32, ur: u32, up: u32)
    requires is_bin(op), gwf(a), gwf(b), printable(a), printable(b), up <= 5,
        ul == (if op == OperatorType::Pow { 5u32 } else { op_priority(op) }), ur == op_priority(op) + 1,
        pok(ptree(a, ul)) && ptext(ptree(a, ul)) =~= render(a, ul) && fits(ptree(a, ul), ul) && means(ptree(a, ul), a),
        pok(ptree(b, ur)) && ptext(ptree(b, ur)) =~= render(b, ur) && fits(ptree(b, ur), ur) && means(ptree(b, ur), b),
    ensures pok(ptree(bin(op, a, b), up)), ptext(ptree(bin(op, a, b), up)) =~= render(bin(op, a, b), up), fits(ptree(bin(op, a, b), up), up), means(ptree(bin(op, a, b), up), bin(op, a, b)),
{
    broadcast use meaning;
    let g = bin(op, a, b);
    let l = ptree(a, ul); let r = ptree(b, ur);
    let t = if op == OperatorType::Mul { times(l, r) } else { Ph::Bin(op, false, Box::new(l), Box::new(r)) };
    let yes = op_priority(op) < up;
    lemma_ppar(yes, t);
    assert(ptree(g, up) == ppar(yes, t));
    if op == OperatorType::Mul { lemma_times(l, r); } else { lemma_ptext(op, false, l, r); if ul == 4 { lemma_chain(l); } }
    assert(pok(t));
    assert(ptext(t) =~= ptext(l) + sep(op, false) + ptext(r));
    assert(render(g, up) == paren(yes, render(a, ul) + " "@ + op_symbol(op) + " "@ + render(b, ur)));
    assert(render(a, ul) + " "@ + op_symbol(op) + " "@ + render(b, ur) =~= ptext(t));
    lemma_means_bin(op, l, r, a, b, t);
}
proof fn lemma_means_bin(op: OperatorType, l: Ph, r: Ph, a: G, b: G, t: Ph)
    requires means(l, a), means(r, b), op == OperatorType::Mul ==> chain(r) && t == times(l, r), op != OperatorType::Mul ==> t == Ph::Bin(op, false, Box::new(l), Box::new(r)),
    ensures means(t, bin(op, a, b)),
{
    if op == OperatorType::Mul { lemma_means_times(l, r, a, b); } else { lemma_means_plain(op, l, r, a, b); }
}
proof fn lemma_means_times(l: Ph, r: Ph, a: G, b: G)
    requires means(l, a), means(r, b), chain(r),
    ensures means(times(l, r), bin(OperatorType::Mul, a, b)),
{
    broadcast use meaning;
    let t = times(l, r); let g = bin(OperatorType::Mul, a, b);
    assert forall|env: Env| #[trigger] means_at(t, g, env) by {
        assert(means_at(l, a, env) && means_at(r, b, env));
        lemma_times_means(l, r, env);
    }
}
proof fn lemma_means_plain(op: OperatorType, l: Ph, r: Ph, a: G, b: G)
    requires means(l, a), means(r, b),
    ensures means(Ph::Bin(op, false, Box::new(l), Box::new(r)), bin(op, a, b)),
{
    let t = Ph::Bin(op, false, Box::new(l), Box::new(r)); let g = bin(op, a, b);
    assert forall|env: Env| means_at(t, g, env) by {
        broadcast use meaning;
        assert(means_at(l, a, env) && means_at(r, b, env));
        lemma_pbin(op, false, l, r, env); lemma_pbinv(op, false, l, r, env);
    }
}
/// the printed text of g, parsed
pub proof fn lemma_tree(g: G, up: u32)
    requires gwf(g), printable(g), up <= 5,
    ensures pok(ptree(g, up)), ptext(ptree(g, up)) =~= render(g, up), fits(ptree(g, up), up), means(ptree(g, up), g),
    decreases g
{
    match g {
        G::Num(n) => { lemma_pnum(n); lemma_ppar(num_priority(n) < up, pnum(n)); }
        G::Var(x) => { }
        G::Un(op, a) => {
            lemma_tree(*a, if op == OperatorType::Neg { 3 } else { 5 });
            lemma_tree_un(op, *a, up);
        }
        G::Bin(op, a, b) => {
            let ul = if op == OperatorType::Pow { 5u32 } else { op_priority(op) };
            let ur = (op_priority(op) + 1) as u32;
            lemma_tree(*a, ul); lemma_tree(*b, ur);
            lemma_tree_bin(op, *a, *b, ul, ur, up);
        }
        G::Bad => {}
    }
}
pub proof fn lemma_gwf(e: Expression)
    requires wf(e), has_values(gview(e)),
    ensures gwf(gview(e)),
    decreases e
{
    match e.root {
        AstNode::Operator(op) => {
            if is_un(op.descriptor) { lemma_gwf(e.child[0]); } else { lemma_gwf(e.child[0]); lemma_gwf(e.child[1]); }
        }
        _ => {}
    }
}
/// printing, then reading, preserves the meaning
pub proof fn theorem_reading(e: Expression)
    ensures wf(e) && has_values(gview(e)) && printable(gview(e)) ==> reads_as(render(gview(e), 0), gview(e)),
{
    if wf(e) && has_values(gview(e)) && printable(gview(e)) {
        lemma_gwf(e);
        lemma_tree(gview(e), 0);
        assert(ptext(ptree(gview(e), 0)) == render(gview(e), 0));
    }
}
