//@ raw
// ===== substitution ==========================================================
/// g with every x replaced by h
pub open spec fn gsubst(g: G, x: Seq<char>, h: G) -> G
    decreases g
{
    match g {
        G::Var(y) => if y == x { h } else { g },
        G::Un(op, a) => un(op, gsubst(*a, x, h)),
        G::Bin(op, a, b) => bin(op, gsubst(*a, x, h), gsubst(*b, x, h)),
        _ => g,
    }
}
pub open spec fn upd(env: Env, x: Seq<char>, v: real) -> Env { |y: Seq<char>| if y == x { v } else { env(y) } }
/// what the replaced expression means: the original one with x set to the value of h
pub proof fn lemma_subst_val(g: G, x: Seq<char>, h: G, env: Env)
    ensures
        val(gsubst(g, x, h), env) == val(g, upd(env, x, val(h, env))),
        dfd(gsubst(g, x, h), env) ==> dfd(g, upd(env, x, val(h, env))),
        dfd(g, upd(env, x, val(h, env))) && dfd(h, env) ==> dfd(gsubst(g, x, h), env),
    decreases g
{
    match g {
        G::Un(op, a) => { lemma_subst_val(*a, x, h, env); }
        G::Bin(op, a, b) => { lemma_subst_val(*a, x, h, env); lemma_subst_val(*b, x, h, env); }
        _ => {}
    }
}
pub broadcast proof fn lemma_subst_vars(g: G, x: Seq<char>, h: G)
    ensures vars(#[trigger] gsubst(g, x, h)).subset_of(vars(g).remove(x).union(vars(h))),
    decreases g
{
    match g {
        G::Un(op, a) => { lemma_subst_vars(*a, x, h); }
        G::Bin(op, a, b) => { lemma_subst_vars(*a, x, h); lemma_subst_vars(*b, x, h); }
        _ => {}
    }
}
pub proof fn lemma_subst_absent(g: G, x: Seq<char>, h: G)
    requires !vars(g).contains(x),
    ensures gsubst(g, x, h) == g,
    decreases g
{
    match g {
        G::Un(op, a) => { lemma_subst_absent(*a, x, h); }
        G::Bin(op, a, b) => { lemma_subst_absent(*a, x, h); lemma_subst_absent(*b, x, h); }
        _ => {}
    }
}
pub open spec fn subst_of(e: Expression, x: Seq<char>, v: Expression, o: Expression) -> bool { gview(o) == gsubst(gview(e), x, gview(v)) && wf(o) }

//@ in trait Substitute
    spec fn sub_req(self, u: T, v: U) -> bool;
    spec fn sub_ens(self, u: T, v: U, r: Self::Output) -> bool;
//@ fn trait Substitute::substitute -> r
    requires self.sub_req(u, v),
    ensures self.sub_ens(u, v, r),
//@ in impl <Expression as Substitute<&Variable,&Expression>>
    open spec fn sub_req(self, u: &'a Variable, v: &'a Expression) -> bool { wf(self) && wf(*v) }
    open spec fn sub_ens(self, u: &'a Variable, v: &'a Expression, r: Self::Output) -> bool { r matches Ok(o) && subst_of(self, u.name@, *v, o) }
//@ fn <Expression as Substitute<&Variable,&Expression>>::substitute (u, v) -> r
    decreases esize(self),
//@ role C = recv push
//@ role K? = counter
//@ entry
    let ghost __s = self;

//@ loop 0 for
    invariant
        $it.seq() == __s.child@,
        ${C}@.len() == $it.index(),
        forall|i: int| 0 <= i < ${C}@.len() ==> subst_of(__s.child@[i], u.name@, *v, #[trigger] ${C}@[i]),
//@ loop 0 while
    invariant
        0 <= ${K} <= __s.child@.len(),
        ${C}@.len() == ${K},
        forall|i: int| 0 <= i < ${C}@.len() ==> subst_of(__s.child@[i], u.name@, *v, #[trigger] ${C}@[i]),
    decreases __s.child@.len() - ${K},
//@ in impl <Expression as Substitute<Expression,Expression>>
    open spec fn sub_req(self, u: Expression, v: Expression) -> bool { wf(self) && wf(u) && wf(v) }
    open spec fn sub_ens(self, u: Expression, v: Expression, r: Self::Output) -> bool {
        match gview(u) { G::Var(x) => (r matches Ok(o) && subst_of(self, x, v, o)), _ => r is Err }
    }
//@ fn <Expression as Substitute<Expression,Expression>>::substitute -> r
//@ in impl <Expression as Substitute<&Expression,&Expression>>
    open spec fn sub_req(self, u: &Expression, v: &Expression) -> bool { wf(self) && wf(*u) && wf(*v) }
    open spec fn sub_ens(self, u: &Expression, v: &Expression, r: Self::Output) -> bool {
        match gview(*u) { G::Var(x) => (r matches Ok(o) && subst_of(self, x, *v, o)), _ => r is Err }
    }
//@ fn <Expression as Substitute<&Expression,&Expression>>::substitute -> r