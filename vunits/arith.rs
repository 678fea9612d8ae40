pub mod arith {
use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
pub open spec fn fits(n: int) -> bool {
    -0x8000_0000 < n < 0x8000_0000
}
/// what truncated division means for exact quotients (the verifier's `/` and `%` on machine integers are truncated)
pub open spec fn trem(a: int, n: int) -> int { if a == 0 { 0 } else if a > 0 { a % n } else { -((-a) % n) } }
pub open spec fn tdiv(a: int, n: int) -> int { if a == 0 { 0 } else if a > 0 { a / n } else { -((-a) / n) } }
pub proof fn lemma_division(a: int, n: int)
    requires n != 0,
    ensures
        trem(a, n) == 0 <==> a % n == 0,
        a % n == 0 ==> tdiv(a, n) * n == a,
        a % n == 0 ==> (12 * tdiv(a, n)) * n == 12 * a && (7 * tdiv(a, n)) * n == 7 * a,
        fits(a) ==> fits(tdiv(a, n)),
{
    lemma_neg(a, n);
    assert(0int % n == 0) by (nonlinear_arith) requires n != 0;
    lemma_fundamental_div_mod(a, n);
    lemma_fundamental_div_mod(-a, n);
    assert(n * (a / n) == (a / n) * n) by (nonlinear_arith);
    assert((-((-a) / n)) * n == -(n * ((-a) / n))) by (nonlinear_arith);
    lemma_quot_bound(a, n);
    lemma_quot_bound(-a, n);
    let q = tdiv(a, n);
    if a % n == 0 {
        assert((12 * q) * n == 12 * (q * n)) by (nonlinear_arith);
        assert((7 * q) * n == 7 * (q * n)) by (nonlinear_arith);
    }
}
proof fn lemma_exact_mod(a: int, n: int, q: int)
    requires n != 0, a == n * q,
    ensures a % n == 0,
{
    let r = a % n;
    let k = q - a / n;
    lemma_fundamental_div_mod(a, n);
    assert(n * k == r) by (nonlinear_arith) requires a == n * q, a == n * (a / n) + r, k == q - a / n;
    assert(0 <= r && (n > 0 ==> r < n) && (n < 0 ==> r < -n)) by { lemma_mod_range(a, n); }
    if n > 0 {
        if k >= 1 { assert(n * k >= n) by (nonlinear_arith) requires n > 0, k >= 1; }
        if k <= -1 { assert(n * k <= -n) by (nonlinear_arith) requires n > 0, k <= -1; }
    } else {
        if k >= 1 { assert(n * k <= n) by (nonlinear_arith) requires n < 0, k >= 1; }
        if k <= -1 { assert(n * k >= -n) by (nonlinear_arith) requires n < 0, k <= -1; }
    }
    if k == 0 { assert(n * k == 0) by (nonlinear_arith) requires k == 0; }
}
proof fn lemma_mod_range(a: int, n: int)
    requires n != 0,
    ensures 0 <= a % n, n > 0 ==> a % n < n, n < 0 ==> a % n < -n,
{
    assert(0 <= a % n && (n > 0 ==> a % n < n) && (n < 0 ==> a % n < -n)) by (nonlinear_arith) requires n != 0;
}
proof fn lemma_neg(a: int, n: int)
    requires n != 0,
    ensures ((-a) % n == 0) == (a % n == 0),
{
    lemma_fundamental_div_mod(a, n);
    lemma_fundamental_div_mod(-a, n);
    if a % n == 0 {
        let q = a / n;
        assert(-a == n * (-q)) by (nonlinear_arith) requires a == n * q;
        lemma_exact_mod(-a, n, -q);
    }
    if (-a) % n == 0 {
        let q = (-a) / n;
        assert(a == n * (-q)) by (nonlinear_arith) requires -a == n * q;
        lemma_exact_mod(a, n, -q);
    }
}
pub proof fn lemma_twelve(x: int)
    ensures
        0 < x <= 12 ==> (12int % x == 0 <==> (x == 1 || x == 2 || x == 3 || x == 4 || x == 6 || x == 12)),
        x == 1 ==> 12int / x == 12, x == 2 ==> 12int / x == 6, x == 3 ==> 12int / x == 4, x == 4 ==> 12int / x == 3,
        x == 6 ==> 12int / x == 2, x == 12 ==> 12int / x == 1,
{
    assert(12int % 1 == 0 && 12int % 2 == 0 && 12int % 3 == 0 && 12int % 4 == 0 && 12int % 5 == 2 && 12int % 6 == 0);
    assert(12int % 7 == 5 && 12int % 8 == 4 && 12int % 9 == 3 && 12int % 10 == 2 && 12int % 11 == 1 && 12int % 12 == 0);
    assert(12int / 1 == 12 && 12int / 2 == 6 && 12int / 3 == 4 && 12int / 4 == 3 && 12int / 6 == 2 && 12int / 12 == 1);
    if x == 1 {} else if x == 2 {} else if x == 3 {} else if x == 4 {} else if x == 5 {} else if x == 6 {}
    else if x == 7 {} else if x == 8 {} else if x == 9 {} else if x == 10 {} else if x == 11 {} else if x == 12 {}
}
proof fn lemma_quot_bound(a: int, n: int)
    requires n != 0,
    ensures a >= 0 ==> -a <= a / n <= a,
            a < 0 ==> a <= a / n <= -a,
{
    let q = a / n;
    let r = a % n;
    lemma_fundamental_div_mod(a, n);
    lemma_mod_range(a, n);
    if n > 0 {
        if q >= 0 { assert(n * q >= q) by (nonlinear_arith) requires n > 0, q >= 0; }
        if q < 0 {
            assert(n * q <= -n) by (nonlinear_arith) requires n > 0, q < 0;
            assert(n * (q + 1) <= q + 1) by (nonlinear_arith) requires n > 0, q + 1 <= 0;
            assert(n * (q + 1) == n * q + n) by (nonlinear_arith);
        }
    } else {
        if q <= 0 { assert(n * q >= -q) by (nonlinear_arith) requires n < 0, q <= 0; }
        if q > 0 {
            assert(n * q <= n) by (nonlinear_arith) requires n < 0, q > 0;
            assert(n * (q - 1) <= -(q - 1)) by (nonlinear_arith) requires n < 0, q - 1 >= 0;
            assert(n * (q - 1) == n * q - n) by (nonlinear_arith);
        }
    }
}
}
