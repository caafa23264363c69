//! The contracts which the prelude assumes of the integer functions of std, proved by Kani from std's own source for
//! every value of the type (loop-free code, so there is no bound).
#[cfg(kani)]
mod std_contracts {
    macro_rules! signed { ($m:ident, $t:ty, $u:ty) => { mod $m {
        #[kani::proof] fn signum() { let x: $t = kani::any(); assert!(x.signum() == if x > 0 { 1 } else if x < 0 { -1 } else { 0 }); }
        #[kani::proof] fn unsigned_abs() {
            let x: $t = kani::any(); let r: $u = x.unsigned_abs();
            if x >= 0 { assert!(r == x as $u); } else if x == <$t>::MIN { assert!(r == (<$t>::MAX as $u) + 1); } else { assert!(r == (-x) as $u); }
        }
        #[kani::proof] fn abs() { let x: $t = kani::any(); kani::assume(x != <$t>::MIN); assert!(x.abs() == if x >= 0 { x } else { -x }); }
        // overflow aborts (overflow checks on): no value comes back
        #[kani::proof] #[kani::should_panic] fn abs_min() { let x = <$t>::MIN; kani::cover!(x.abs() == x); }
    } } }
    signed!(i64_, i64, u64);
    signed!(i128_, i128, u128);
}
