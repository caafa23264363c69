//@ raw
// ===== Taylor expansion ======================================================
pub open spec fn fact(k: nat) -> nat
    decreases k
{ if k == 0 { 1 } else { k * fact((k - 1) as nat) } }
/// c is the k-th Taylor coefficient, where d is the k-th derivative: the value of d at the expansion point, over k!
pub open spec fn coef_ok(d: G, x: Seq<char>, at: G, k: nat, c: G) -> bool {
    forall|env: Env| #[trigger] dfd(gsubst(d, x, at), env) ==> dfd(c, env) && val(c, env) == val(gsubst(d, x, at), env) / (fact(k) as int as real)
}
/// each element is the derivative of the one before
pub open spec fn deriv_chain(rs: Seq<G>, x: Seq<char>) -> bool {
    forall|i: int| 0 <= i < rs.len() - 1 ==> #[trigger] deriv_ok(rs[i], x, rs[i + 1])
}
pub open spec fn taylor_ok(f: G, x: Seq<char>, at: G, order: u64, p: PartialExpansion) -> bool {
    &&& p.order == order && gview(p.of) == G::Var(x) && gview(p.at) == at
    &&& p.coefficient@.len() == order + 1
    &&& exists|rs: Seq<G>| #[trigger] deriv_chain(rs, x) && taylor_with(rs, f, x, at, order, p)
}
pub open spec fn taylor_with(rs: Seq<G>, f: G, x: Seq<char>, at: G, order: u64, p: PartialExpansion) -> bool {
    &&& rs.len() == order + 2 && rs[0] == f && rs[order + 1] == gview(p.residual)
    &&& forall|k: int| 0 <= k <= order ==> coef_ok(rs[k], x, at, k as nat, gview(#[trigger] p.coefficient@[k]))
}
pub open spec fn taylor_wf(f: G, x: Seq<char>, at: G, p: PartialExpansion) -> bool {
    &&& wf(p.of) && wf(p.at) && wf(p.residual) && vars(gview(p.residual)).subset_of(vars(f))
    &&& forall|k: int| 0 <= k < p.coefficient@.len() ==> wf(#[trigger] p.coefficient@[k]) && vars(gview(p.coefficient@[k])).subset_of(vars(f).remove(x).union(vars(at)))
}
pub open spec fn fact_before(k: int) -> real { if k <= 0 { 1real } else { fact((k - 1) as nat) as int as real } }
pub broadcast proof fn lemma_fact_step(k: int)
    requires k >= 0,
    ensures (if k >= 1 { bin_val(OperatorType::Mul, #[trigger] fact_before(k), k as real) } else { 1real }) == fact(k as nat) as int as real,
        fact(k as nat) >= 1,
    decreases k
{
    if k >= 1 {
        lemma_fact_step(k - 1);
        lemma_mulcast(fact((k - 1) as nat) as int, k);
        assert(k * fact((k - 1) as nat) == fact((k - 1) as nat) * k && k * fact((k - 1) as nat) >= 1) by (nonlinear_arith) requires fact((k - 1) as nat) >= 1, k >= 1;
        assert(fact(k as nat) == k * fact((k - 1) as nat));
    } else {
        assert(fact(0) == 1) by { reveal_with_fuel(fact, 2); }
    }
}
/// the evaluated quotient is the coefficient
pub broadcast proof fn lemma_coef(d: G, x: Seq<char>, at: G, k: nat, s: G, n: SmartNum, c: G)
    requires #[trigger] refines(gsubst(d, x, at), s), #[trigger] refines(bin(OperatorType::Div, s, G::Num(n)), c), ndef(n), nval(n) == fact(k) as int as real,
    ensures #[trigger] coef_ok(d, x, at, k, c),
{
    broadcast use meaning;
    lemma_fact_step(k as int);
    assert forall|env: Env| #[trigger] dfd(gsubst(d, x, at), env) implies dfd(c, env) && val(c, env) == val(gsubst(d, x, at), env) / (fact(k) as int as real) by {
        assert(dfd(s, env));
        assert(dfd(bin(OperatorType::Div, s, G::Num(n)), env));
    }
}

//@ in trait TaylorExpansion
    spec fn tay_req(self, of: T, at: U, order: u64) -> bool;
    spec fn tay_ens(self, of: T, at: U, order: u64, r: Self::Output) -> bool;
    spec fn tay_wf(self, of: T, at: U, r: Self::Output) -> bool;
//@ fn trait TaylorExpansion::taylor_expansion -> r
    requires self.tay_req(of, at, order),
    ensures self.tay_ens(of, at, order, r), self.tay_wf(of, at, r),
//@ in impl <Expression as TaylorExpansion<&Variable,&Expression>>
    open spec fn tay_req(self, of: &Variable, at: &Expression, order: u64) -> bool { wf(self) && wf(*at) }
    open spec fn tay_wf(self, of: &Variable, at: &Expression, r: Self::Output) -> bool { r matches Ok(p) ==> taylor_wf(gview(self), of.name@, gview(*at), p) }
    open spec fn tay_ens(self, of: &Variable, at: &Expression, order: u64, r: Self::Output) -> bool { r matches Ok(p) && taylor_ok(gview(self), of.name@, gview(*at), order, p) }
//@ fn <Expression as TaylorExpansion<&Variable,&Expression>>::taylor_expansion (of, at, order) -> r
//@ role RES = assign derivative
//@ role FACT = assign factorial
//@ role COEF = recv push_back
//@ role K? = counter
//@ attr
#[verifier::rlimit(60)]
//@ entry
    broadcast use { meaning, lemma_coef, lemma_subst_vars };
    let ghost __f = gview(self);
    let ghost mut __rs: Seq<G> = seq![gview(self)];
//@ loop 0 for
    invariant
        $it.seq().len() == order + 1,
        forall|i: int| 0 <= i <= order ==> $it.seq()[i] == i,
        __rs.len() == $it.index() + 1, __rs[0] == __f, deriv_chain(__rs, of.name@),
        forall|i: int| 0 <= i < __rs.len() ==> #[trigger] vars(__rs[i]).subset_of(vars(__f)),
        wf(${RES}), gview(${RES}) == __rs[$it.index()],
        nwf(${FACT}), ndef(${FACT}), nval(${FACT}) == fact_before($it.index() as int),
        ${COEF}@.len() == $it.index(),
        forall|i: int| 0 <= i < $it.index() ==> wf(#[trigger] ${COEF}@[i]) && vars(gview(${COEF}@[i])).subset_of(vars(__f).remove(of.name@).union(vars(gview(*at)))) && coef_ok(__rs[i], of.name@, gview(*at), i as nat, gview(${COEF}@[i])),
//@ loopbody 0 for
    let ghost __k = $it.index() as int;
    proof { lemma_fact_step(__k); }
//@ loopend 0 for
    proof { assert(vars(__rs[__k]).subset_of(vars(__f))); __rs = __rs.push(gview(${RES})); }
//@ loop 0 while
    invariant
        0 <= ${K} <= order + 1,
        __rs.len() == ${K} + 1, __rs[0] == __f, deriv_chain(__rs, of.name@),
        forall|i: int| 0 <= i < __rs.len() ==> #[trigger] vars(__rs[i]).subset_of(vars(__f)),
        wf(${RES}), gview(${RES}) == __rs[${K} as int],
        nwf(${FACT}), ndef(${FACT}), nval(${FACT}) == fact_before(${K} as int),
        ${COEF}@.len() == ${K},
        forall|i: int| 0 <= i < ${K} ==> wf(#[trigger] ${COEF}@[i]) && vars(gview(${COEF}@[i])).subset_of(vars(__f).remove(of.name@).union(vars(gview(*at)))) && coef_ok(__rs[i], of.name@, gview(*at), i as nat, gview(${COEF}@[i])),
    decreases order + 1 - ${K},
//@ loopbody 0 while
    let ghost __k = ${K} as int;
    proof { lemma_fact_step(__k); }
//@ loopend 0 while
    proof { assert(vars(__rs[__k]).subset_of(vars(__f))); __rs = __rs.push(gview(${RES})); }
//@ in impl <Expression as TaylorExpansion<Expression,Expression>>
    open spec fn tay_req(self, of: Expression, at: Expression, order: u64) -> bool { wf(self) && wf(of) && wf(at) }
    open spec fn tay_wf(self, of: Expression, at: Expression, r: Self::Output) -> bool { gview(of) matches G::Var(x) ==> (r matches Ok(p) ==> taylor_wf(gview(self), x, gview(at), p)) }
    open spec fn tay_ens(self, of: Expression, at: Expression, order: u64, r: Self::Output) -> bool {
        match gview(of) { G::Var(x) => (r matches Ok(p) && taylor_ok(gview(self), x, gview(at), order, p)), _ => r is Err }
    }
//@ fn <Expression as TaylorExpansion<Expression,Expression>>::taylor_expansion -> r
//@ raw
// ----- the printed expansion -------------------------------------------------
/// g has the value of c * (of - at)^k
pub open spec fn power_term(c: G, of: G, at: G, k: int, g: G) -> bool {
    forall|env: Env| #[trigger] dfd(c, env) && dfd(of, env) && dfd(at, env) && powdef(val(of, env) - val(at, env), k as real)
        ==> dfd(g, env) && val(g, env) == bin_val(OperatorType::Mul, val(c, env), rpow(val(of, env) - val(at, env), k as real))
}
/// g has the value of (of - at)^k
pub open spec fn order_term(of: G, at: G, k: int, g: G) -> bool {
    forall|env: Env| #[trigger] dfd(of, env) && dfd(at, env) && powdef(val(of, env) - val(at, env), k as real)
        ==> dfd(g, env) && val(g, env) == rpow(val(of, env) - val(at, env), k as real)
}
/// what is printed for the k-th coefficient: a term of the right value, or nothing for a zero
pub open spec fn piece(c: G, of: G, at: G, k: int, s: Seq<char>) -> bool {
    ||| (c matches G::Num(n) && vzero(n.value)) && s.len() == 0
    ||| exists|g: G, t: Seq<char>| #[trigger] prints(g, t) && power_term(c, of, at, k, g) && s == t + " + "@
}
pub open spec fn joined(ss: Seq<Seq<char>>, n: int) -> Seq<char>
    decreases n
{ if n <= 0 { Seq::empty() } else { joined(ss, n - 1) + ss[n - 1] } }
pub proof fn lemma_joined(ss: Seq<Seq<char>>, s: Seq<char>, n: int)
    requires 0 <= n <= ss.len(),
    ensures joined(ss.push(s), n) == joined(ss, n),
    decreases n
{ if n > 0 { lemma_joined(ss, s, n - 1); } }
pub proof fn lemma_joined_push(ss: Seq<Seq<char>>, s: Seq<char>)
    ensures joined(ss.push(s), (ss.len() + 1) as int) == joined(ss, ss.len() as int) + s,
{ lemma_joined(ss, s, ss.len() as int); }
pub open spec fn pieces(p: PartialExpansion, ss: Seq<Seq<char>>, n: int) -> bool {
    ss.len() == n && forall|k: int| 0 <= k < n ==> piece(gview(p.coefficient@[k]), gview(p.of), gview(p.at), k, #[trigger] ss[k])
}
pub open spec fn expansion_text(p: PartialExpansion, s: Seq<char>) -> bool {
    exists|ss: Seq<Seq<char>>, g: G, t: Seq<char>| #[trigger] pieces(p, ss, p.coefficient@.len() as int) && #[trigger] prints(g, t) && order_term(gview(p.of), gview(p.at), p.order + 1, g)
        && s == joined(ss, ss.len() as int) + "O("@ + t + ")"@
}
pub broadcast proof fn lemma_text_added(a: Seq<char>, b: Seq<char>)
    ensures #[trigger] (a + b).skip(a.len() as int) == b, a + (a + b).skip(a.len() as int) == a + b,
{ assert((a + b).skip(a.len() as int) =~= b); }
pub broadcast proof fn lemma_text_assoc(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures #[trigger] ((a + b) + c) == a + (b + c),
{ assert(((a + b) + c) =~= a + (b + c)); }
pub broadcast proof fn lemma_power_term(c: G, of: G, at: G, b: G, n: SmartNum, k: int)
    requires #[trigger] refines(bin(OperatorType::Sub, of, at), b), ndef(n), nval(n) == k as real,
    ensures #[trigger] power_term(c, of, at, k, bin(OperatorType::Mul, c, bin(OperatorType::Pow, b, G::Num(n)))),
{
    broadcast use meaning;
    let g = bin(OperatorType::Mul, c, bin(OperatorType::Pow, b, G::Num(n)));
    assert forall|env: Env| #[trigger] dfd(c, env) && dfd(of, env) && dfd(at, env) && powdef(val(of, env) - val(at, env), k as real)
        implies dfd(g, env) && val(g, env) == bin_val(OperatorType::Mul, val(c, env), rpow(val(of, env) - val(at, env), k as real)) by {
        assert(dfd(bin(OperatorType::Sub, of, at), env));
    }
}
pub broadcast proof fn lemma_order_term(of: G, at: G, b: G, n: SmartNum, k: int)
    requires #[trigger] refines(bin(OperatorType::Sub, of, at), b), ndef(n), nval(n) == k as real,
    ensures #[trigger] order_term(of, at, k, bin(OperatorType::Pow, b, G::Num(n))),
{
    broadcast use meaning;
    let g = bin(OperatorType::Pow, b, G::Num(n));
    assert forall|env: Env| #[trigger] dfd(of, env) && dfd(at, env) && powdef(val(of, env) - val(at, env), k as real)
        implies dfd(g, env) && val(g, env) == rpow(val(of, env) - val(at, env), k as real) by {
        assert(dfd(bin(OperatorType::Sub, of, at), env));
    }
}
//@ in impl <PartialExpansion as VShow>
    open spec fn show_req(&self) -> bool {
        wf(self.of) && wf(self.at) && self.coefficient@.len() <= i64::MAX && forall|k: int| 0 <= k < self.coefficient@.len() ==> wf(#[trigger] self.coefficient@[k])
    }
    open spec fn show_ens(&self, s: Seq<char>) -> bool { expansion_text(*self, s) }
//@ fn <PartialExpansion as VShow>::vshow () -> res
//@ role TEXT = recv push_str || assign scat(
//@ role BASE = letinit num_aggregate
//@ entry
    broadcast use { meaning, lemma_power_term, lemma_order_term, lemma_text_added, lemma_text_assoc };
    proof { reveal_strlit(""); }
    let ghost mut __ss: Seq<Seq<char>> = Seq::empty();
//@ loop 0 for
    invariant
        wf(${BASE}), refines(bin(OperatorType::Sub, gview(self.of), gview(self.at)), gview(${BASE})),
        $it.seq().len() == self.coefficient@.len(),
        forall|i: int| 0 <= i < $it.seq().len() ==> $it.seq()[i] == i,
        pieces(*self, __ss, $it.index() as int),
        ${TEXT}@ =~= joined(__ss, __ss.len() as int),
//@ loopbody 0 for
    let ghost __t0 = ${TEXT}@;
//@ loopend 0 for
    proof {
        let ghost __p = ${TEXT}@.skip(__t0.len() as int);
        assert(piece(gview(self.coefficient@[$it.index() as int]), gview(self.of), gview(self.at), $it.index() as int, __p));
        lemma_joined_push(__ss, __p);
        __ss = __ss.push(__p);
    }
