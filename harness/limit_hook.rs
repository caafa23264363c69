
/// appended to the scratch copy only: gives the executor access to the private limit trait
pub mod vp_hook {
    use super::*;
    pub fn own(e: Expression, of: Expression, to: Expression, n: u64) -> Result<LimitExpression, NoValidLimitFound> { <Expression as LimitTry<Expression, Expression>>::limit(e, of, to, n) }
    pub fn var(e: Expression, of: &Variable, to: Expression, n: u64) -> Result<LimitExpression, NoValidLimitFound> { <Expression as LimitTry<&Variable, Expression>>::limit(e, of, to, n) }
}
