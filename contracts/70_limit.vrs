//@ raw
// ===== limits ================================================================
/// the possible behaviours of an expression near a point
pub enum LC { Zero, Inf, Bdd, Val(G) }
pub open spec fn lc(l: LimitExpression) -> LC {
    match l {
        LimitExpression::Infinitesimal => LC::Zero,
        LimitExpression::Infinity => LC::Inf,
        LimitExpression::BoundedFluctuation => LC::Bdd,
        LimitExpression::Normal(e) => LC::Val(gview(e)),
    }
}
/// a Normal limit is a valid expression that is not the number zero
pub open spec fn lwf(l: LimitExpression) -> bool { l matches LimitExpression::Normal(e) ==> wf(e) && !zero_lit(gview(e)) }
pub open spec fn lvars(c: LC) -> Set<Seq<char>> { match c { LC::Val(v) => vars(v), _ => Set::empty() } }
pub open spec fn bounded(c: LC) -> bool { !(c is Inf) }
pub open spec fn zero_lit(g: G) -> bool { g matches G::Num(n) && vzero(n.value) }
/// a value other than the number zero
pub open spec fn nzv(c: LC) -> bool { c matches LC::Val(v) && !zero_lit(v) }
pub open spec fn one_lit(g: G) -> bool { g matches G::Num(n) && vone(n.value) }

// ----- the laws of limits on behaviours (a Val stands for a non-zero value) ---
pub open spec fn neg_law(a: LC, c: LC) -> bool {
    match a { LC::Val(v) => c == LC::Val(un(OperatorType::Neg, v)) || c is Bdd, LC::Inf => c is Inf, LC::Zero => c is Zero || c is Bdd, LC::Bdd => c is Bdd }
}
pub open spec fn sum_law(a: LC, b: LC, c: LC) -> bool {
    ||| a is Zero && (c == b)
    ||| b is Zero && (c == a)
    ||| a is Inf && bounded(b) && c is Inf
    ||| bounded(a) && b is Inf && c is Inf
    ||| bounded(a) && bounded(b) && c is Bdd
    ||| a is Val && b is Val && c == LC::Val(bin(OperatorType::Add, a->Val_0, b->Val_0))
}
pub open spec fn diff_law(a: LC, b: LC, c: LC) -> bool {
    ||| b is Zero && (c == a)
    ||| a is Zero && neg_law(b, c)
    ||| a is Inf && bounded(b) && c is Inf
    ||| bounded(a) && b is Inf && c is Inf
    ||| bounded(a) && bounded(b) && c is Bdd
    ||| a is Val && b is Val && c == LC::Val(bin(OperatorType::Sub, a->Val_0, b->Val_0))
    ||| a is Val && b is Val && c == LC::Val(bin(OperatorType::Add, a->Val_0, un(OperatorType::Neg, b->Val_0)))
}
pub open spec fn prod_law(a: LC, b: LC, c: LC) -> bool {
    ||| a is Zero && bounded(b) && c is Zero
    ||| bounded(a) && b is Zero && c is Zero
    ||| a is Inf && (b is Inf || nzv(b)) && c is Inf
    ||| (a is Inf || nzv(a)) && b is Inf && c is Inf
    ||| bounded(a) && bounded(b) && c is Bdd
    ||| a is Val && b is Val && c == LC::Val(bin(OperatorType::Mul, a->Val_0, b->Val_0))
}
pub open spec fn quot_law(a: LC, b: LC, c: LC) -> bool {
    ||| bounded(a) && b is Inf && c is Zero
    ||| a is Zero && nzv(b) && c is Zero
    ||| a is Inf && (b is Zero || nzv(b)) && c is Inf
    ||| nzv(a) && b is Zero && c is Inf
    ||| bounded(a) && nzv(b) && c is Bdd
    ||| a is Val && nzv(b) && c == LC::Val(bin(OperatorType::Div, a->Val_0, b->Val_0))
}
// ----- limits that must be found ------------------------------------------------
/// tends to zero or to a value
pub open spec fn settled(c: LC) -> bool { c is Zero || c is Val }
pub open spec fn found(r: Result<LimitExpression, NoValidLimitFound>) -> bool { r matches Ok(c) && settled(lc(c)) }
/// continuous everywhere: numbers and variables under negation, sum, difference, product, sin, cos and division by a number other than zero
pub open spec fn cont(g: G) -> bool
    decreases g
{
    match g {
        G::Un(op, a) => (op == OperatorType::Neg || op == OperatorType::Sin || op == OperatorType::Cos) && cont(*a),
        G::Bin(op, a, b) => match op {
            OperatorType::Add | OperatorType::Sub | OperatorType::Mul => cont(*a) && cont(*b),
            OperatorType::Div => cont(*a) && (*b is Num) && !zero_lit(*b),
            _ => false,
        },
        _ => true,
    }
}
pub broadcast proof fn lemma_cont_un(op: OperatorType, a: G)
    ensures #[trigger] cont(un(op, a)) == ((op == OperatorType::Neg || op == OperatorType::Sin || op == OperatorType::Cos) && cont(a)) { }
pub broadcast proof fn lemma_cont_bin(op: OperatorType, a: G, b: G)
    ensures #[trigger] cont(bin(op, a, b)) == (match op {
            OperatorType::Add | OperatorType::Sub | OperatorType::Mul => cont(a) && cont(b),
            OperatorType::Div => cont(a) && (b is Num) && !zero_lit(b),
            _ => false,
        }) { }
pub broadcast proof fn lemma_cont_leaf(g: G)
    ensures #[trigger] cont(g) || !(g is Num || g is Var) { }
pub broadcast group continuity { lemma_cont_un, lemma_cont_bin, lemma_cont_leaf }
/// the limit of such an expression is found, and a number is its own limit
pub open spec fn limit_found(g: G, r: Result<LimitExpression, NoValidLimitFound>) -> bool {
    (cont(g) ==> found(r)) && (g is Num && !zero_lit(g) ==> (r matches Ok(c) && lc(c) is Val))
}
// ----- when no law settles the result -----------------------------------------
pub open spec fn sum_open(a: LC, b: LC) -> bool { a is Inf && b is Inf }
pub open spec fn prod_open(a: LC, b: LC) -> bool { (a is Inf && (b is Zero || b is Bdd)) || ((a is Zero || a is Bdd) && b is Inf) }
pub open spec fn quot_open(a: LC, b: LC) -> bool { (a is Zero && b is Zero) || (a is Inf && b is Inf) || b is Bdd || (a is Bdd && b is Zero) || (a is Val && !nzv(a)) || (b is Val && !nzv(b)) }

//@ in impl <LimitExpression as Neg>
    open spec fn neg_ok(self) -> bool { true }
//@ fn <LimitExpression as Neg>::neg -> r
    ensures neg_law(lc(self), lc(r)), lwf(self) ==> lwf(r), lvars(lc(r)).subset_of(lvars(lc(self))),
        settled(lc(self)) ==> settled(lc(r)),
//@ entry
    broadcast use meaning;
//@ in impl <LimitExpression as Add>
    open spec fn add_ok(self, r: Self) -> bool { lwf(self) && lwf(r) }
//@ fn <LimitExpression as Add>::add (rhs) -> r
    ensures r matches Ok(c) ==> sum_law(lc(self), lc(rhs), lc(c)),
        r matches Ok(c) ==> lwf(c) && lvars(lc(c)).subset_of(lvars(lc(self)).union(lvars(lc(rhs)))),
        r is Err ==> sum_open(lc(self), lc(rhs)),
        settled(lc(self)) && settled(lc(rhs)) ==> found(r),
//@ entry
    broadcast use meaning;
//@ in impl <LimitExpression as Sub>
    open spec fn sub_ok(self, r: Self) -> bool { lwf(self) && lwf(r) }
//@ fn <LimitExpression as Sub>::sub (rhs) -> r
    ensures r matches Ok(c) ==> diff_law(lc(self), lc(rhs), lc(c)),
        r matches Ok(c) ==> lwf(c) && lvars(lc(c)).subset_of(lvars(lc(self)).union(lvars(lc(rhs)))),
        r is Err ==> sum_open(lc(self), lc(rhs)),
        settled(lc(self)) && settled(lc(rhs)) ==> found(r),
//@ entry
    broadcast use meaning;
//@ in impl <LimitExpression as Mul>
    open spec fn mul_ok(self, r: Self) -> bool { lwf(self) && lwf(r) }
//@ fn <LimitExpression as Mul>::mul (rhs) -> r
    ensures r matches Ok(c) ==> prod_law(lc(self), lc(rhs), lc(c)),
        r matches Ok(c) ==> lwf(c) && lvars(lc(c)).subset_of(lvars(lc(self)).union(lvars(lc(rhs)))),
        r is Err ==> prod_open(lc(self), lc(rhs)),
        settled(lc(self)) && settled(lc(rhs)) ==> found(r),
//@ entry
    broadcast use meaning;
//@ in impl <LimitExpression as Div>
    open spec fn div_ok(self, r: Self) -> bool { lwf(self) && lwf(r) }
//@ fn <LimitExpression as Div>::div (rhs) -> r
    ensures r matches Ok(c) ==> quot_law(lc(self), lc(rhs), lc(c)),
        r matches Ok(c) ==> lwf(c) && lvars(lc(c)).subset_of(lvars(lc(self)).union(lvars(lc(rhs)))),
        r is Err ==> quot_open(lc(self), lc(rhs)),
        settled(lc(self)) && nzv(lc(rhs)) && !quot_open(lc(self), lc(rhs)) ==> found(r),
//@ entry
    broadcast use meaning;

//@ raw
// ----- the limit calculus ---------------------------------------------------------
/// numbers and other variables are constant, x itself tends to the value of `to`
pub open spec fn leaf_law(g: G, x: Seq<char>, to: G, c: LC) -> bool {
    let v = match g { G::Var(y) => if y == x { to } else { g }, _ => g };
    (g is Num || g is Var) && (c == LC::Val(v) || (c is Zero && zero_lit(v)))
}
/// sin and cos are bounded and continuous, exp and ln are continuous
pub open spec fn fun_law(op: OperatorType, a: LC, c: LC) -> bool {
    ||| (op == OperatorType::Sin || op == OperatorType::Cos) && c is Bdd
    ||| op == OperatorType::Sin && a is Zero && c is Zero
    ||| (op == OperatorType::Cos || op == OperatorType::Exp) && a is Zero && (c matches LC::Val(v) && one_lit(v))
    ||| is_un(op) && (a matches LC::Val(v) && c == LC::Val(un(op, v)))
}
pub open spec fn bin_law(op: OperatorType, a: LC, b: LC, c: LC) -> bool {
    match op {
        OperatorType::Add => sum_law(a, b, c), OperatorType::Sub => diff_law(a, b, c), OperatorType::Mul => prod_law(a, b, c), OperatorType::Div => quot_law(a, b, c),
        _ => false,
    }
}
/// wherever h is defined so is s, and where s is not zero g is defined and has the value of h
pub open spec fn agree(g: G, h: G, s: G) -> bool {
    forall|env: Env| #[trigger] dfd(h, env) ==> dfd(s, env) && (val(s, env) != 0real ==> dfd(g, env) && val(g, env) == val(h, env))
}
/// not known to tend to zero
pub open spec fn away(c: LC) -> bool { !(c is Zero) && (c is Val ==> nzv(c)) }
/// a derivation of "g behaves like c when x approaches the value of `to`"
pub enum Dv {
    Leaf,
    /// an equal value replaces the limit; a limit with the value zero is infinitesimal
    Refine(G, G, Box<Dv>),
    Neg(LC, Box<Dv>),
    Bin(LC, Box<Dv>, LC, Box<Dv>),
    Fun(LC, Box<Dv>),
    /// the expression is rewritten into this one where the second one is not zero
    Rewrite(G, Box<Dv>, G, LC, Box<Dv>),
    /// L'Hopital's rule: the derivatives, and the derivations for numerator, denominator (both like this), quotient of the derivatives
    Hopital(G, G, LC, Box<Dv>, Box<Dv>, Box<Dv>),
}
pub open spec fn valid(d: Dv, g: G, x: Seq<char>, to: G, c: LC) -> bool
    decreases d
{
    match d {
        Dv::Leaf => leaf_law(g, x, to, c),
        Dv::Refine(v, w, e) => valid(*e, g, x, to, LC::Val(v)) && refines(v, w) && (c == LC::Val(w) || (c is Zero && zero_lit(w))),
        Dv::Neg(c1, e) => (g matches G::Un(op, a) && op == OperatorType::Neg && valid(*e, *a, x, to, c1)) && neg_law(c1, c),
        Dv::Bin(c1, e1, c2, e2) => (g matches G::Bin(op, a, b) && valid(*e1, *a, x, to, c1) && valid(*e2, *b, x, to, c2) && bin_law(op, c1, c2, c)),
        Dv::Fun(c1, e) => (g matches G::Un(op, a) && valid(*e, *a, x, to, c1) && fun_law(op, c1, c)),
        Dv::Rewrite(g0, e, s, cs, es) => valid(*e, g0, x, to, c) && agree(g0, g, s) && valid(*es, s, x, to, cs) && away(cs),
        Dv::Hopital(l2, r2, cc, el, er, eq) => (g matches G::Bin(op, l, r) && op == OperatorType::Div && (cc is Zero || cc is Inf) && valid(*el, *l, x, to, cc) && valid(*er, *r, x, to, cc)
            && deriv_ok(*l, x, l2) && deriv_ok(*r, x, r2) && valid(*eq, bin(OperatorType::Div, l2, r2), x, to, c)),
    }
}
/// g behaves like c when x approaches the value of `to` (what this says of the real functions: theorem_limit)
#[verifier::opaque]
pub open spec fn has_limit(g: G, x: Seq<char>, to: G, c: LC) -> bool { exists|d: Dv| #[trigger] valid(d, g, x, to, c) }

pub broadcast proof fn lim_leaf(g: G, x: Seq<char>, to: G, c: LC)
    requires leaf_law(g, x, to, c),
    ensures #[trigger] has_limit(g, x, to, c),
{ reveal(has_limit); assert(valid(Dv::Leaf, g, x, to, c)); }
pub broadcast proof fn lim_refine(g: G, x: Seq<char>, to: G, v: G, w: G, c: LC)
    requires has_limit(g, x, to, LC::Val(v)), #[trigger] refines(v, w), c == LC::Val(w) || (c is Zero && zero_lit(w)),
    ensures #[trigger] has_limit(g, x, to, c),
{
    reveal(has_limit);
    let d = choose|d: Dv| #[trigger] valid(d, g, x, to, LC::Val(v));
    assert(valid(Dv::Refine(v, w, Box::new(d)), g, x, to, c));
}
pub broadcast proof fn lim_neg(a: G, x: Seq<char>, to: G, c1: LC, c: LC)
    requires #[trigger] has_limit(a, x, to, c1), #[trigger] neg_law(c1, c),
    ensures has_limit(un(OperatorType::Neg, a), x, to, c),
{
    reveal(has_limit);
    let d = choose|d: Dv| #[trigger] valid(d, a, x, to, c1);
    assert(valid(Dv::Neg(c1, Box::new(d)), un(OperatorType::Neg, a), x, to, c));
}
proof fn lemma_lim_bin(op: OperatorType, a: G, b: G, x: Seq<char>, to: G, c1: LC, c2: LC, c: LC)
    requires has_limit(a, x, to, c1), has_limit(b, x, to, c2), bin_law(op, c1, c2, c),
    ensures has_limit(bin(op, a, b), x, to, c),
{
    reveal(has_limit);
    let d1 = choose|d: Dv| #[trigger] valid(d, a, x, to, c1);
    let d2 = choose|d: Dv| #[trigger] valid(d, b, x, to, c2);
    assert(valid(Dv::Bin(c1, Box::new(d1), c2, Box::new(d2)), bin(op, a, b), x, to, c));
}
pub broadcast proof fn lim_sum(a: G, b: G, x: Seq<char>, to: G, c1: LC, c2: LC, c: LC)
    requires #[trigger] has_limit(a, x, to, c1), #[trigger] has_limit(b, x, to, c2), #[trigger] sum_law(c1, c2, c),
    ensures has_limit(bin(OperatorType::Add, a, b), x, to, c),
{ lemma_lim_bin(OperatorType::Add, a, b, x, to, c1, c2, c); }
pub broadcast proof fn lim_diff(a: G, b: G, x: Seq<char>, to: G, c1: LC, c2: LC, c: LC)
    requires #[trigger] has_limit(a, x, to, c1), #[trigger] has_limit(b, x, to, c2), #[trigger] diff_law(c1, c2, c),
    ensures has_limit(bin(OperatorType::Sub, a, b), x, to, c),
{ lemma_lim_bin(OperatorType::Sub, a, b, x, to, c1, c2, c); }
pub broadcast proof fn lim_prod(a: G, b: G, x: Seq<char>, to: G, c1: LC, c2: LC, c: LC)
    requires #[trigger] has_limit(a, x, to, c1), #[trigger] has_limit(b, x, to, c2), #[trigger] prod_law(c1, c2, c),
    ensures has_limit(bin(OperatorType::Mul, a, b), x, to, c),
{ lemma_lim_bin(OperatorType::Mul, a, b, x, to, c1, c2, c); }
pub broadcast proof fn lim_quot(a: G, b: G, x: Seq<char>, to: G, c1: LC, c2: LC, c: LC)
    requires #[trigger] has_limit(a, x, to, c1), #[trigger] has_limit(b, x, to, c2), #[trigger] quot_law(c1, c2, c),
    ensures has_limit(bin(OperatorType::Div, a, b), x, to, c),
{ lemma_lim_bin(OperatorType::Div, a, b, x, to, c1, c2, c); }
pub broadcast proof fn lim_fun(op: OperatorType, a: G, x: Seq<char>, to: G, c1: LC, c: LC)
    requires #[trigger] has_limit(a, x, to, c1), fun_law(op, c1, c),
    ensures #[trigger] has_limit(un(op, a), x, to, c),
{
    reveal(has_limit);
    let d = choose|d: Dv| #[trigger] valid(d, a, x, to, c1);
    assert(valid(Dv::Fun(c1, Box::new(d)), un(op, a), x, to, c));
}
/// an expression may be rewritten where s does not vanish (s does not tend to 0)
pub proof fn lim_rewrite(g: G, h: G, s: G, x: Seq<char>, to: G, cs: LC, c: LC)
    requires has_limit(g, x, to, c), agree(g, h, s), has_limit(s, x, to, cs), away(cs),
    ensures has_limit(h, x, to, c),
{
    reveal(has_limit);
    let d1 = choose|d: Dv| #[trigger] valid(d, g, x, to, c);
    let d2 = choose|d: Dv| #[trigger] valid(d, s, x, to, cs);
    assert(valid(Dv::Rewrite(g, Box::new(d1), s, cs, Box::new(d2)), h, x, to, c));
}
/// L'Hopital's rule
pub open spec fn hopital(l: G, r: G, x: Seq<char>, to: G) -> bool {
    (has_limit(l, x, to, LC::Zero) && has_limit(r, x, to, LC::Zero)) || (has_limit(l, x, to, LC::Inf) && has_limit(r, x, to, LC::Inf))
}
pub broadcast proof fn lim_hopital(l: G, r: G, l2: G, r2: G, x: Seq<char>, to: G, c: LC)
    requires hopital(l, r, x, to), #[trigger] deriv_ok(l, x, l2), #[trigger] deriv_ok(r, x, r2), #[trigger] has_limit(bin(OperatorType::Div, l2, r2), x, to, c),
    ensures has_limit(bin(OperatorType::Div, l, r), x, to, c),
{
    let cc = if has_limit(l, x, to, LC::Zero) && has_limit(r, x, to, LC::Zero) { LC::Zero } else { LC::Inf };
    reveal(has_limit);
    let d1 = choose|d: Dv| #[trigger] valid(d, l, x, to, cc);
    let d2 = choose|d: Dv| #[trigger] valid(d, r, x, to, cc);
    let d3 = choose|d: Dv| #[trigger] valid(d, bin(OperatorType::Div, l2, r2), x, to, c);
    assert(valid(Dv::Hopital(l2, r2, cc, Box::new(d1), Box::new(d2), Box::new(d3)), bin(OperatorType::Div, l, r), x, to, c));
}

// ----- the rewritings used by the rules, proved ---------------------------------
pub broadcast proof fn lemma_lim_sub(l: G, r: G, x: Seq<char>, to: G, c: LC)
    requires #[trigger] has_limit(bin(OperatorType::Add, l, un(OperatorType::Neg, r)), x, to, c),
    ensures has_limit(bin(OperatorType::Sub, l, r), x, to, c),
{
    broadcast use meaning;
    let one = SmartNum { value: SmartNumVal::Integer(1), tag: ConstType::One };
    lim_leaf(G::Num(one), x, to, LC::Val(G::Num(one)));
    lim_rewrite(bin(OperatorType::Add, l, un(OperatorType::Neg, r)), bin(OperatorType::Sub, l, r), G::Num(one), x, to, LC::Val(G::Num(one)), c);
}
proof fn lemma_real_rewrites(l: real, r: real)
    ensures r != 0real ==> (l / r + 1real) / (1real / r) == l + r && l / (1real / r) == l * r && r / (1real / l) == (if l != 0real { l * r } else { r / (1real / l) }) && 1real / r != 0real,
        r != 0real ==> l / (1real / r) == r * l,
{
    assert(r != 0real ==> 1real / r != 0real) by (nonlinear_arith);
    assert(r != 0real ==> l / (1real / r) == l * r && l / (1real / r) == r * l) by (nonlinear_arith);
    assert(l != 0real ==> r / (1real / l) == l * r) by (nonlinear_arith);
    assert(r != 0real ==> (l / r + 1real) / (1real / r) == l + r) by (nonlinear_arith);
}
pub broadcast proof fn lemma_lim_sum_rewrite(l: G, r: G, p: G, q: G, x: Seq<char>, to: G, cr: LC, c: LC)
    requires #[trigger] has_limit(bin(OperatorType::Div, bin(OperatorType::Add, bin(OperatorType::Div, l, r), p), bin(OperatorType::Div, q, r)), x, to, c),
        #[trigger] has_limit(r, x, to, cr), away(cr), one_lit(p), one_lit(q),
    ensures has_limit(bin(OperatorType::Add, l, r), x, to, c),
{
    broadcast use meaning;
    let g = bin(OperatorType::Div, bin(OperatorType::Add, bin(OperatorType::Div, l, r), p), bin(OperatorType::Div, q, r));
    let h = bin(OperatorType::Add, l, r);
    assert forall|env: Env| #[trigger] dfd(h, env) && dfd(r, env) && val(r, env) != 0real implies dfd(g, env) && val(g, env) == val(h, env) by {
        lemma_real_rewrites(val(l, env), val(r, env));
    }
    lim_rewrite(g, h, r, x, to, cr, c);
}
/// l / (1/r) is l * r, and r * l
pub broadcast proof fn lemma_lim_prod_rewrite(l: G, r: G, q: G, x: Seq<char>, to: G, cr: LC, c: LC)
    requires #[trigger] has_limit(bin(OperatorType::Div, l, bin(OperatorType::Div, q, r)), x, to, c),
        #[trigger] has_limit(r, x, to, cr), away(cr), one_lit(q),
    ensures has_limit(bin(OperatorType::Mul, l, r), x, to, c), has_limit(bin(OperatorType::Mul, r, l), x, to, c),
{
    broadcast use meaning;
    let g = bin(OperatorType::Div, l, bin(OperatorType::Div, q, r));
    assert forall|env: Env| #[trigger] dfd(bin(OperatorType::Mul, l, r), env) && dfd(r, env) && val(r, env) != 0real implies dfd(g, env) && val(g, env) == val(bin(OperatorType::Mul, l, r), env) by {
        lemma_real_rewrites(val(l, env), val(r, env));
    }
    assert forall|env: Env| #[trigger] dfd(bin(OperatorType::Mul, r, l), env) && dfd(r, env) && val(r, env) != 0real implies dfd(g, env) && val(g, env) == val(bin(OperatorType::Mul, r, l), env) by {
        lemma_real_rewrites(val(l, env), val(r, env));
    }
    lim_rewrite(g, bin(OperatorType::Mul, l, r), r, x, to, cr, c);
    lim_rewrite(g, bin(OperatorType::Mul, r, l), r, x, to, cr, c);
}
pub broadcast group limit_laws {
    lim_leaf, lim_refine, lim_neg, lim_sum, lim_diff, lim_prod, lim_quot, lim_fun, lim_hopital,
    lemma_lim_sub, lemma_lim_sum_rewrite, lemma_lim_prod_rewrite,
}
/// the result of a limit computation
pub open spec fn limit_ok(g: G, x: Seq<char>, to: G, r: Result<LimitExpression, NoValidLimitFound>) -> bool {
    r matches Ok(c) ==> has_limit(g, x, to, lc(c))
}
pub open spec fn limit_wf(g: G, to: G, r: Result<LimitExpression, NoValidLimitFound>) -> bool {
    r matches Ok(c) ==> lwf(c) && lvars(lc(c)).subset_of(vars(g).union(vars(to)))
}
pub open spec fn root_is(e: Expression, op: OperatorType) -> bool { e.root matches AstNode::Operator(o) && o.descriptor == op }

//@ in trait LimitTry
    spec fn lim_req(self, of: T, to: U) -> bool;
    spec fn lim_ens(self, of: T, to: U, r: Self::Output) -> bool;
    spec fn lim_wf(self, to: U, r: Self::Output) -> bool;
    spec fn lim_found(self, of: T, r: Self::Output) -> bool;
//@ fn trait LimitTry::limit (of, to, order_try) -> r
    requires self.lim_req(of, to),
    ensures self.lim_ens(of, to, r), self.lim_wf(to, r), self.lim_found(of, r),
//@ in impl <Expression as LimitTry<&Variable,Expression>>
    open spec fn lim_req(self, of: &'a Variable, to: Expression) -> bool { wf(self) && wf(to) }
    open spec fn lim_found(self, of: &'a Variable, r: Self::Output) -> bool { limit_found(gview(self), r) }
    open spec fn lim_wf(self, to: Expression, r: Self::Output) -> bool { limit_wf(gview(self), gview(to), r) }
    open spec fn lim_ens(self, of: &'a Variable, to: Expression, r: Self::Output) -> bool { limit_ok(gview(self), of.name@, gview(to), r) }
//@ fn <Expression as LimitTry<&Variable,Expression>>::limit -> r
//@ attr
#[verifier::exec_allows_no_decreases_clause]
//@ entry
    broadcast use { limit_laws, continuity };
//@ in impl <Expression as LimitTry<Expression,Expression>>
    open spec fn lim_req(self, of: Expression, to: Expression) -> bool { wf(self) && wf(of) && wf(to) }
    open spec fn lim_found(self, of: Expression, r: Self::Output) -> bool { gview(of) is Var ==> limit_found(gview(self), r) }
    open spec fn lim_wf(self, to: Expression, r: Self::Output) -> bool { limit_wf(gview(self), gview(to), r) }
    open spec fn lim_ens(self, of: Expression, to: Expression, r: Self::Output) -> bool {
        match gview(of) { G::Var(x) => limit_ok(gview(self), x, gview(to), r), _ => r is Err }
    }
//@ fn <Expression as LimitTry<Expression,Expression>>::limit -> r
//@ in trait NegLimitExprRule
    spec fn rule_req(self, to: Expression) -> bool;
    spec fn rule_ens(self, of: &Variable, to: Expression, r: Self::Output) -> bool;
    spec fn rule_wf(self, to: Expression, r: Self::Output) -> bool;
    spec fn rule_found(self, r: Self::Output) -> bool;
//@ fn trait NegLimitExprRule::neg_limit_expr_rule (of, to, order_try) -> r
    requires self.rule_req(to),
    ensures self.rule_ens(of, to, r), self.rule_wf(to, r), self.rule_found(r),
//@ in impl <Expression as NegLimitExprRule>
    open spec fn rule_req(self, to: Expression) -> bool { wf(self) && wf(to) && root_is(self, OperatorType::Neg) }
    open spec fn rule_wf(self, to: Expression, r: Self::Output) -> bool { limit_wf(gview(self), gview(to), r) }
    open spec fn rule_found(self, r: Self::Output) -> bool { limit_found(gview(self), r) }
    open spec fn rule_ens(self, of: &Variable, to: Expression, r: Self::Output) -> bool { limit_ok(gview(self), of.name@, gview(to), r) }
//@ fn <Expression as NegLimitExprRule>::neg_limit_expr_rule (of, to, order_try) -> r
//@ attr
#[verifier::exec_allows_no_decreases_clause]
//@ entry
    broadcast use { meaning, limit_laws, continuity };
//@ in trait AddLimitExprRule
    spec fn rule_req(self, to: Expression) -> bool;
    spec fn rule_ens(self, of: &Variable, to: Expression, r: Self::Output) -> bool;
    spec fn rule_wf(self, to: Expression, r: Self::Output) -> bool;
    spec fn rule_found(self, r: Self::Output) -> bool;
//@ fn trait AddLimitExprRule::add_limit_expr_rule (of, to, order_try) -> r
    requires self.rule_req(to),
    ensures self.rule_ens(of, to, r), self.rule_wf(to, r), self.rule_found(r),
//@ in impl <Expression as AddLimitExprRule>
    open spec fn rule_req(self, to: Expression) -> bool { wf(self) && wf(to) && root_is(self, OperatorType::Add) }
    open spec fn rule_wf(self, to: Expression, r: Self::Output) -> bool { limit_wf(gview(self), gview(to), r) }
    open spec fn rule_found(self, r: Self::Output) -> bool { limit_found(gview(self), r) }
    open spec fn rule_ens(self, of: &Variable, to: Expression, r: Self::Output) -> bool { limit_ok(gview(self), of.name@, gview(to), r) }
//@ fn <Expression as AddLimitExprRule>::add_limit_expr_rule (of, to, order_try) -> r
//@ attr
#[verifier::exec_allows_no_decreases_clause]
//@ entry
    broadcast use { meaning, limit_laws, continuity };
//@ in trait SubLimitExprRule
    spec fn rule_req(self, to: Expression) -> bool;
    spec fn rule_ens(self, of: &Variable, to: Expression, r: Self::Output) -> bool;
    spec fn rule_wf(self, to: Expression, r: Self::Output) -> bool;
    spec fn rule_found(self, r: Self::Output) -> bool;
//@ fn trait SubLimitExprRule::sub_limit_expr_rule (of, to, order_try) -> r
    requires self.rule_req(to),
    ensures self.rule_ens(of, to, r), self.rule_wf(to, r), self.rule_found(r),
//@ in impl <Expression as SubLimitExprRule>
    open spec fn rule_req(self, to: Expression) -> bool { wf(self) && wf(to) && root_is(self, OperatorType::Sub) }
    open spec fn rule_wf(self, to: Expression, r: Self::Output) -> bool { limit_wf(gview(self), gview(to), r) }
    open spec fn rule_found(self, r: Self::Output) -> bool { limit_found(gview(self), r) }
    open spec fn rule_ens(self, of: &Variable, to: Expression, r: Self::Output) -> bool { limit_ok(gview(self), of.name@, gview(to), r) }
//@ fn <Expression as SubLimitExprRule>::sub_limit_expr_rule (of, to, order_try) -> r
//@ attr
#[verifier::exec_allows_no_decreases_clause]
//@ entry
    broadcast use { meaning, limit_laws, continuity };
//@ in trait MulLimitExprRule
    spec fn rule_req(self, to: Expression) -> bool;
    spec fn rule_ens(self, of: &Variable, to: Expression, r: Self::Output) -> bool;
    spec fn rule_wf(self, to: Expression, r: Self::Output) -> bool;
    spec fn rule_found(self, r: Self::Output) -> bool;
//@ fn trait MulLimitExprRule::mul_limit_expr_rule (of, to, order_try) -> r
    requires self.rule_req(to),
    ensures self.rule_ens(of, to, r), self.rule_wf(to, r), self.rule_found(r),
//@ in impl <Expression as MulLimitExprRule>
    open spec fn rule_req(self, to: Expression) -> bool { wf(self) && wf(to) && root_is(self, OperatorType::Mul) }
    open spec fn rule_wf(self, to: Expression, r: Self::Output) -> bool { limit_wf(gview(self), gview(to), r) }
    open spec fn rule_found(self, r: Self::Output) -> bool { limit_found(gview(self), r) }
    open spec fn rule_ens(self, of: &Variable, to: Expression, r: Self::Output) -> bool { limit_ok(gview(self), of.name@, gview(to), r) }
//@ fn <Expression as MulLimitExprRule>::mul_limit_expr_rule (of, to, order_try) -> r
//@ attr
#[verifier::exec_allows_no_decreases_clause]
//@ entry
    broadcast use { meaning, limit_laws, continuity };
//@ in trait DivLimitExprRule
    spec fn rule_req(self, to: Expression) -> bool;
    spec fn rule_ens(self, of: &Variable, to: Expression, r: Self::Output) -> bool;
    spec fn rule_wf(self, to: Expression, r: Self::Output) -> bool;
    spec fn rule_found(self, r: Self::Output) -> bool;
//@ fn trait DivLimitExprRule::div_limit_expr_rule (of, to, order_try) -> r
    requires self.rule_req(to),
    ensures self.rule_ens(of, to, r), self.rule_wf(to, r), self.rule_found(r),
//@ in impl <Expression as DivLimitExprRule>
    open spec fn rule_req(self, to: Expression) -> bool { wf(self) && wf(to) && root_is(self, OperatorType::Div) }
    open spec fn rule_wf(self, to: Expression, r: Self::Output) -> bool { limit_wf(gview(self), gview(to), r) }
    open spec fn rule_found(self, r: Self::Output) -> bool { limit_found(gview(self), r) }
    open spec fn rule_ens(self, of: &Variable, to: Expression, r: Self::Output) -> bool { limit_ok(gview(self), of.name@, gview(to), r) }
//@ fn <Expression as DivLimitExprRule>::div_limit_expr_rule (of, to, order_try) -> r
//@ attr
#[verifier::exec_allows_no_decreases_clause]
//@ role R = letinit pop() @1
//@ role L = letinit pop() @2
//@ role K? = counter
//@ entry
    broadcast use { meaning, limit_laws, continuity };
    let ghost __s = gview(self);
//@ loop 0 for
    invariant
        wf(${L}), wf(${R}), vars(gview(${L})).subset_of(vars(__s)), vars(gview(${R})).subset_of(vars(__s)),
        forall|c: LC| has_limit(bin(OperatorType::Div, gview(${L}), gview(${R})), of.name@, gview(to), c) ==> #[trigger] has_limit(__s, of.name@, gview(to), c),
        cont(__s) ==> gview(${L}) == *__s->Bin_1 && gview(${R}) == *__s->Bin_2,
        cont(__s) ==> $it.index() == 0, $it.seq().len() > 0,
//@ loop 0 loop
    invariant
        wf(${L}), wf(${R}), vars(gview(${L})).subset_of(vars(__s)), vars(gview(${R})).subset_of(vars(__s)),
        forall|c: LC| has_limit(bin(OperatorType::Div, gview(${L}), gview(${R})), of.name@, gview(to), c) ==> #[trigger] has_limit(__s, of.name@, gview(to), c),
        cont(__s) ==> gview(${L}) == *__s->Bin_1 && gview(${R}) == *__s->Bin_2,
//@ loop 0 while
    invariant
        wf(${L}), wf(${R}), vars(gview(${L})).subset_of(vars(__s)), vars(gview(${R})).subset_of(vars(__s)),
        forall|c: LC| has_limit(bin(OperatorType::Div, gview(${L}), gview(${R})), of.name@, gview(to), c) ==> #[trigger] has_limit(__s, of.name@, gview(to), c),
        cont(__s) ==> gview(${L}) == *__s->Bin_1 && gview(${R}) == *__s->Bin_2,
        cont(__s) ==> ${K} == 0,
//@ in trait SinLimitExprRule
    spec fn rule_req(self, to: Expression) -> bool;
    spec fn rule_ens(self, of: &Variable, to: Expression, r: Self::Output) -> bool;
    spec fn rule_wf(self, to: Expression, r: Self::Output) -> bool;
    spec fn rule_found(self, r: Self::Output) -> bool;
//@ fn trait SinLimitExprRule::sin_limit_expr_rule (of, to, order_try) -> r
    requires self.rule_req(to),
    ensures self.rule_ens(of, to, r), self.rule_wf(to, r), self.rule_found(r),
//@ in impl <Expression as SinLimitExprRule>
    open spec fn rule_req(self, to: Expression) -> bool { wf(self) && wf(to) && root_is(self, OperatorType::Sin) }
    open spec fn rule_wf(self, to: Expression, r: Self::Output) -> bool { limit_wf(gview(self), gview(to), r) }
    open spec fn rule_found(self, r: Self::Output) -> bool { limit_found(gview(self), r) }
    open spec fn rule_ens(self, of: &Variable, to: Expression, r: Self::Output) -> bool { limit_ok(gview(self), of.name@, gview(to), r) }
//@ fn <Expression as SinLimitExprRule>::sin_limit_expr_rule (of, to, order_try) -> r
//@ attr
#[verifier::exec_allows_no_decreases_clause]
//@ entry
    broadcast use { meaning, limit_laws, continuity };
//@ in trait CosLimitExprRule
    spec fn rule_req(self, to: Expression) -> bool;
    spec fn rule_ens(self, of: &Variable, to: Expression, r: Self::Output) -> bool;
    spec fn rule_wf(self, to: Expression, r: Self::Output) -> bool;
    spec fn rule_found(self, r: Self::Output) -> bool;
//@ fn trait CosLimitExprRule::cos_limit_expr_rule (of, to, order_try) -> r
    requires self.rule_req(to),
    ensures self.rule_ens(of, to, r), self.rule_wf(to, r), self.rule_found(r),
//@ in impl <Expression as CosLimitExprRule>
    open spec fn rule_req(self, to: Expression) -> bool { wf(self) && wf(to) && root_is(self, OperatorType::Cos) }
    open spec fn rule_wf(self, to: Expression, r: Self::Output) -> bool { limit_wf(gview(self), gview(to), r) }
    open spec fn rule_found(self, r: Self::Output) -> bool { limit_found(gview(self), r) }
    open spec fn rule_ens(self, of: &Variable, to: Expression, r: Self::Output) -> bool { limit_ok(gview(self), of.name@, gview(to), r) }
//@ fn <Expression as CosLimitExprRule>::cos_limit_expr_rule (of, to, order_try) -> r
//@ attr
#[verifier::exec_allows_no_decreases_clause]
//@ entry
    broadcast use { meaning, limit_laws, continuity };
