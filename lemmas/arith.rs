//! The laws that shim/mf/src/num.rs assumes of products and quotients, proved of the mathematical ones.
use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
verus! {
proof fn mul_zero(a: nat, b: nat) ensures 0 * b == 0, a * 0 == 0 {}
proof fn mul_one(a: nat, b: nat) ensures 1 * b == b, a * 1 == a {}
proof fn mul_bounds(a: nat, b: nat, m: nat) requires 1 <= a <= m, 1 <= b <= m ensures a * b >= a, a * b >= b, a * b <= m * m {
    lemma_mul_inequality(1, b as int, a as int); lemma_mul_inequality(1, a as int, b as int);
    lemma_mul_is_commutative(a as int, b as int);
    lemma_mul_inequality(a as int, m as int, b as int); lemma_mul_inequality(b as int, m as int, m as int);
    lemma_mul_is_commutative(m as int, b as int);
}
proof fn mul_monotone(a: nat, y: nat, b: nat) requires y < b ensures a * y + a <= a * b {
    lemma_mul_is_distributive_add(a as int, y as int, 1);
    lemma_mul_inequality(y as int + 1, b as int, a as int);
    lemma_mul_is_commutative(a as int, y as int + 1); lemma_mul_is_commutative(a as int, b as int);
}
proof fn div_small(e: nat, p: nat) requires e < p ensures e / p == 0 { lemma_basic_div(e as int, p as int); }
proof fn div_one(e: nat) ensures e / 1 == e {}
proof fn div_mul(e: nat, p: nat, b: nat) requires p >= 1 ensures (e / p >= b) == (e >= p * b) {
    let q = e / p;
    lemma_fundamental_div_mod(e as int, p as int);
    lemma_mod_bound(e as int, p as int);
    if q >= b { lemma_mul_inequality(b as int, q as int, p as int); lemma_mul_is_commutative(b as int, p as int); lemma_mul_is_commutative(q as int, p as int); }
    else { mul_monotone(p, q, b); }
}
proof fn div_bounds(e: nat, p: nat) requires 1 <= p <= e ensures 1 <= e / p <= e {
    div_mul(e, p, 1); div_mul(e, p, e + 1); lemma_mul_inequality(1, p as int, (e + 1) as int);
}
proof fn div_monotone(x: nat, e: nat, p: nat) requires p >= 1, x <= e ensures x / p <= e / p { lemma_div_is_ordered(x as int, e as int, p as int); }
fn main() {}
}
