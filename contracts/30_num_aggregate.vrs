//@ raw
// ===== normal form ============================================================
pub open spec fn gnum(g: G) -> bool { g is Num }
pub open spec fn gzero(g: G) -> bool { g matches G::Num(n) && vzero(n.value) }
pub open spec fn gone(g: G) -> bool { g matches G::Num(n) && vone(n.value) }
pub open spec fn gtag(g: G, t: ConstType) -> bool { g matches G::Num(n) && n.tag == t }
pub open spec fn gtop(g: G, op: OperatorType) -> bool { g matches G::Un(o, _) && o == op }
/// no identity of the simplifier applies to the operation
pub open spec fn stuck1(op: OperatorType, a: G) -> bool {
    match op {
        OperatorType::Neg => !gnum(a) && !gtop(a, OperatorType::Neg),
        OperatorType::Sin => !gzero(a) && !gtag(a, ConstType::Pi),
        OperatorType::Cos => !gzero(a) && !gtag(a, ConstType::Pi),
        OperatorType::Exp => !gzero(a) && !gone(a) && !gtop(a, OperatorType::Ln),
        OperatorType::Ln => !gone(a) && !gtag(a, ConstType::E) && !gtop(a, OperatorType::Exp),
        _ => false,
    }
}
pub open spec fn stuck2(op: OperatorType, a: G, b: G) -> bool {
    match op {
        OperatorType::Add | OperatorType::Sub => !(gnum(a) && gnum(b)) && !gzero(a) && !gzero(b),
        OperatorType::Mul => !(gnum(a) && gnum(b)) && !gzero(a) && !gzero(b) && !gone(a) && !gone(b),
        OperatorType::Div => !(gnum(a) && gnum(b)) && !gzero(a),
        OperatorType::Pow => !gzero(b) && !gone(b),
        _ => false,
    }
}
/// no operation in the expression can be simplified
pub open spec fn nf(g: G) -> bool
    decreases g
{
    match g {
        G::Un(op, a) => nf(*a) && stuck1(op, *a),
        G::Bin(op, a, b) => nf(*a) && nf(*b) && stuck2(op, *a, *b),
        _ => true,
    }
}
/// b is a normal form of a: it cannot be simplified, and it is a itself if a could not
/// (and never larger than a)
pub open spec fn normal(a: G, b: G) -> bool { nf(b) && (nf(a) ==> a == b) && gsize(b) <= gsize(a) }
pub broadcast proof fn lemma_nf_un(op: OperatorType, a: G)
    ensures #[trigger] nf(un(op, a)) == (nf(a) && stuck1(op, a)) { }
pub broadcast proof fn lemma_nf_bin(op: OperatorType, a: G, b: G)
    ensures #[trigger] nf(bin(op, a, b)) == (nf(a) && nf(b) && stuck2(op, a, b)) { }
pub broadcast proof fn lemma_gsize_un(op: OperatorType, a: G)
    ensures #[trigger] gsize(un(op, a)) == 1 + gsize(a) { }
pub broadcast proof fn lemma_gsize_bin(op: OperatorType, a: G, b: G)
    ensures #[trigger] gsize(bin(op, a, b)) == 1 + gsize(a) + gsize(b) { }
pub broadcast proof fn lemma_gsize_pos(a: G)
    ensures #[trigger] gsize(a) >= 1 { }
/// (for the solver) what an operation means where its operands have a value
pub broadcast proof fn lemma_up_un(op: OperatorType, a: G, env: Env)
    ensures #![trigger un(op, a), dfd(a, env)] dfd(un(op, a), env) == (dfd(a, env) && (op == OperatorType::Ln ==> val(a, env) > 0real) && (op != OperatorType::Neg ==> float_ideal())) { }
pub broadcast proof fn lemma_up_bin(op: OperatorType, a: G, b: G, env: Env)
    ensures #![trigger bin(op, a, b), dfd(a, env), dfd(b, env)] dfd(bin(op, a, b), env) == (dfd(a, env) && dfd(b, env) && (op == OperatorType::Div ==> val(b, env) != 0real)
            && (op == OperatorType::Pow ==> powdef(val(a, env), val(b, env)))) { }
pub broadcast group normal_form { lemma_up_un, lemma_up_bin, lemma_nf_un, lemma_nf_bin, lemma_gsize_un, lemma_gsize_bin, lemma_gsize_pos }
/// an expression in normal form without variables and functions is a number
pub broadcast proof fn lemma_nf_arith(g: G)
    ensures #[trigger] nf(g) && #[trigger] arith(g) ==> (g matches G::Num(n) && exact(n.value)),
    decreases g
{
    match g {
        G::Un(op, a) => { lemma_nf_arith(*a); }
        G::Bin(op, a, b) => { lemma_nf_arith(*a); lemma_nf_arith(*b); }
        _ => {}
    }
}
/// b means -a wherever a is defined
pub open spec fn refines_neg(a: G, b: G) -> bool { forall|env: Env| #[trigger] dfd(a, env) ==> dfd(b, env) && val(b, env) == -val(a, env) }
pub open spec fn folded_neg(a: G, b: G) -> bool { arith(a) ==> (b matches G::Num(n) && exact(n.value)) }
/// simplifying twice is simplifying once
pub proof fn theorem_idempotent(a: G, b: G, c: G)
    requires normal(a, b), normal(b, c),
    ensures c == b,
{ }

//@ in trait NumAggregate
    spec fn agg_req(self) -> bool;
    spec fn agg_ens(self, r: Self) -> bool;
    spec fn agg_fold(self, r: Self) -> bool;
    spec fn agg_wf(self, r: Self) -> bool;
    spec fn agg_norm(self, r: Self) -> bool;
//@ fn trait NumAggregate::num_aggregate -> r
    requires self.agg_req(),
    ensures self.agg_ens(r), self.agg_fold(r), self.agg_wf(r), self.agg_norm(r),
//@ in impl <Expression as NumAggregate>
    open spec fn agg_req(self) -> bool { wf(self) }
    open spec fn agg_ens(self, r: Self) -> bool { refines(gview(self), gview(r)) }
    open spec fn agg_fold(self, r: Self) -> bool { folded(gview(self), gview(r)) }
    open spec fn agg_wf(self, r: Self) -> bool { wf(r) && vars(gview(r)).subset_of(vars(gview(self))) }
    open spec fn agg_norm(self, r: Self) -> bool { normal(gview(self), gview(r)) }
//@ fn <Expression as NumAggregate>::num_aggregate -> r
    decreases esize(self), 1nat,
//@ attr
#[verifier::rlimit(60)]
//@ entry
    broadcast use { real_functions, meaning, lemma_bin_units, normal_form };

//@ fn neg_eval_rule (child: Vec<Expression>) -> r: Expression
    requires child@.len() == 1, wf(child@[0]),
    ensures wf(r), refines(un(OperatorType::Neg, gview(child@[0])), gview(r)), folded(un(OperatorType::Neg, gview(child@[0])), gview(r)),
        vars(gview(r)).subset_of(vars(un(OperatorType::Neg, gview(child@[0])))),
        normal(un(OperatorType::Neg, gview(child@[0])), gview(r)),
    decreases 1 + esize(child@[0]), 0nat,
//@ attr
#[verifier::rlimit(60)]
//@ entry
    broadcast use { real_functions, meaning, lemma_bin_units, normal_form };

//@ fn negate (sub: Expression) -> r: Expression
    requires wf(sub), nf(gview(sub)),
    ensures wf(r), refines_neg(gview(sub), gview(r)), folded_neg(gview(sub), gview(r)),
        vars(gview(r)).subset_of(vars(un(OperatorType::Neg, gview(sub)))),
        normal(un(OperatorType::Neg, gview(sub)), gview(r)),
//@ attr
#[verifier::rlimit(60)]
//@ entry
    broadcast use { real_functions, meaning, lemma_bin_units, normal_form, lemma_nf_arith };

//@ fn sin_eval_rule (child: Vec<Expression>) -> r: Expression
    requires child@.len() == 1, wf(child@[0]),
    ensures wf(r), refines(un(OperatorType::Sin, gview(child@[0])), gview(r)), folded(un(OperatorType::Sin, gview(child@[0])), gview(r)),
        vars(gview(r)).subset_of(vars(un(OperatorType::Sin, gview(child@[0])))),
        normal(un(OperatorType::Sin, gview(child@[0])), gview(r)),
    decreases 1 + esize(child@[0]), 0nat,
//@ attr
#[verifier::rlimit(60)]
//@ entry
    broadcast use { real_functions, meaning, lemma_bin_units, normal_form };

//@ fn cos_eval_rule (child: Vec<Expression>) -> r: Expression
    requires child@.len() == 1, wf(child@[0]),
    ensures wf(r), refines(un(OperatorType::Cos, gview(child@[0])), gview(r)), folded(un(OperatorType::Cos, gview(child@[0])), gview(r)),
        vars(gview(r)).subset_of(vars(un(OperatorType::Cos, gview(child@[0])))),
        normal(un(OperatorType::Cos, gview(child@[0])), gview(r)),
    decreases 1 + esize(child@[0]), 0nat,
//@ attr
#[verifier::rlimit(60)]
//@ entry
    broadcast use { real_functions, meaning, lemma_bin_units, normal_form };

//@ fn exp_eval_rule (child: Vec<Expression>) -> r: Expression
    requires child@.len() == 1, wf(child@[0]),
    ensures wf(r), refines(un(OperatorType::Exp, gview(child@[0])), gview(r)), folded(un(OperatorType::Exp, gview(child@[0])), gview(r)),
        vars(gview(r)).subset_of(vars(un(OperatorType::Exp, gview(child@[0])))),
        normal(un(OperatorType::Exp, gview(child@[0])), gview(r)),
    decreases 1 + esize(child@[0]), 0nat,
//@ attr
#[verifier::rlimit(60)]
//@ entry
    broadcast use { real_functions, meaning, lemma_bin_units, normal_form };

//@ fn ln_eval_rule (child: Vec<Expression>) -> r: Expression
    requires child@.len() == 1, wf(child@[0]),
    ensures wf(r), refines(un(OperatorType::Ln, gview(child@[0])), gview(r)), folded(un(OperatorType::Ln, gview(child@[0])), gview(r)),
        vars(gview(r)).subset_of(vars(un(OperatorType::Ln, gview(child@[0])))),
        normal(un(OperatorType::Ln, gview(child@[0])), gview(r)),
    decreases 1 + esize(child@[0]), 0nat,
//@ attr
#[verifier::rlimit(60)]
//@ entry
    broadcast use { real_functions, meaning, lemma_bin_units, normal_form };

//@ fn add_eval_rule (child: Vec<Expression>) -> r: Expression
    requires child@.len() == 2, wf(child@[0]), wf(child@[1]),
    ensures wf(r), refines(bin(OperatorType::Add, gview(child@[0]), gview(child@[1])), gview(r)), folded(bin(OperatorType::Add, gview(child@[0]), gview(child@[1])), gview(r)),
        vars(gview(r)).subset_of(vars(bin(OperatorType::Add, gview(child@[0]), gview(child@[1])))),
        normal(bin(OperatorType::Add, gview(child@[0]), gview(child@[1])), gview(r)),
    decreases 1 + esize(child@[0]) + esize(child@[1]), 0nat,
//@ attr
#[verifier::rlimit(60)]
//@ entry
    broadcast use { real_functions, meaning, lemma_bin_units, normal_form };

//@ fn sub_eval_rule (child: Vec<Expression>) -> r: Expression
    requires child@.len() == 2, wf(child@[0]), wf(child@[1]),
    ensures wf(r), refines(bin(OperatorType::Sub, gview(child@[0]), gview(child@[1])), gview(r)), folded(bin(OperatorType::Sub, gview(child@[0]), gview(child@[1])), gview(r)),
        vars(gview(r)).subset_of(vars(bin(OperatorType::Sub, gview(child@[0]), gview(child@[1])))),
        normal(bin(OperatorType::Sub, gview(child@[0]), gview(child@[1])), gview(r)),
    decreases 1 + esize(child@[0]) + esize(child@[1]), 0nat,
//@ attr
#[verifier::rlimit(60)]
//@ entry
    broadcast use { real_functions, meaning, lemma_bin_units, normal_form };

//@ fn mul_eval_rule (child: Vec<Expression>) -> r: Expression
    requires child@.len() == 2, wf(child@[0]), wf(child@[1]),
    ensures wf(r), refines(bin(OperatorType::Mul, gview(child@[0]), gview(child@[1])), gview(r)), folded(bin(OperatorType::Mul, gview(child@[0]), gview(child@[1])), gview(r)),
        vars(gview(r)).subset_of(vars(bin(OperatorType::Mul, gview(child@[0]), gview(child@[1])))),
        normal(bin(OperatorType::Mul, gview(child@[0]), gview(child@[1])), gview(r)),
    decreases 1 + esize(child@[0]) + esize(child@[1]), 0nat,
//@ attr
#[verifier::rlimit(60)]
//@ entry
    broadcast use { real_functions, meaning, lemma_bin_units, normal_form };

//@ fn div_eval_rule (child: Vec<Expression>) -> r: Expression
    requires child@.len() == 2, wf(child@[0]), wf(child@[1]),
    ensures wf(r), refines(bin(OperatorType::Div, gview(child@[0]), gview(child@[1])), gview(r)), folded(bin(OperatorType::Div, gview(child@[0]), gview(child@[1])), gview(r)),
        vars(gview(r)).subset_of(vars(bin(OperatorType::Div, gview(child@[0]), gview(child@[1])))),
        normal(bin(OperatorType::Div, gview(child@[0]), gview(child@[1])), gview(r)),
    decreases 1 + esize(child@[0]) + esize(child@[1]), 0nat,
//@ attr
#[verifier::rlimit(60)]
//@ entry
    broadcast use { real_functions, meaning, lemma_bin_units, normal_form };

//@ fn pow_eval_rule (child: Vec<Expression>) -> r: Expression
    requires child@.len() == 2, wf(child@[0]), wf(child@[1]),
    ensures wf(r), refines(bin(OperatorType::Pow, gview(child@[0]), gview(child@[1])), gview(r)), folded(bin(OperatorType::Pow, gview(child@[0]), gview(child@[1])), gview(r)),
        vars(gview(r)).subset_of(vars(bin(OperatorType::Pow, gview(child@[0]), gview(child@[1])))),
        normal(bin(OperatorType::Pow, gview(child@[0]), gview(child@[1])), gview(r)),
    decreases 1 + esize(child@[0]) + esize(child@[1]), 0nat,
//@ attr
#[verifier::rlimit(60)]
//@ entry
    broadcast use { real_functions, meaning, lemma_bin_units, normal_form };

