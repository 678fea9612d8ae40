use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
use core::ops::*;
use core::cmp::Ordering;

verus! {

pub type Integer = i32;
pub type Size = usize;
pub type Decimal = Real;

//@include real.rs

impl Real {
    #[verifier::external_body]
    pub fn fract(self) -> (r: Real)
        ensures r.v() == if self.v() < 0real { self.v() + ((-self.v()).floor() as real) } else { self.v() - (self.v().floor() as real) },
    { unimplemented!() }
    /// a power of ten
    #[verifier::external_body]
    pub fn powf(self, p: Real) -> (r: Real)
        ensures r.v() == rpow(self.v(), p.v()), self.v() > 0real ==> r.v() > 0real,
    { unimplemented!() }
}
pub uninterp spec fn rpow(b: real, e: real) -> real;

//@include closeness.rs
//@fn src/maths/comparison.rs "" close_n
//@real
//@ret r
//@sub "Real::EPSILON" => "Real::epsilon()"
    ensures r == near(x.v(), y.v(), n as int, true),
//@end
//@fn src/maths/comparison.rs "" close_enough
//@real
//@ret r
//@sub "Real::EPSILON" => "Real::epsilon()"
    ensures r == near(x.v(), y.v(), 42, false),
//@end

// --- rounding
//@type src/maths/rounding.rs struct RoundingData derive(Clone)
//@type src/maths/rounding.rs struct NoRounding derive(Clone)
//@type src/maths/rounding.rs struct UpRounding derive(Clone)
//@type src/maths/rounding.rs struct DownRounding derive(Clone)
//@type src/maths/rounding.rs struct ClosestRounding derive(Clone)
//@type src/maths/rounding.rs struct CeilingTruncation derive(Clone)
//@type src/maths/rounding.rs struct FloorTruncation derive(Clone)
//@type src/maths/rounding.rs enum Rounding derive(Clone)

/// the magnitude in steps; a value within two machine epsilons of a multiple is that multiple
pub open spec fn snapped(l: real) -> real {
    if near(l, rround(l) as real, 2, true) { rround(l) as real } else { l }
}
/// whether the part f past the precision moves the magnitude to the next step
pub open spec fn steps_up(f: real, rule: Rounding, digit: int, negative: bool) -> bool {
    let past = f >= digit as real / 10real;
    match rule {
        Rounding::NoRounding(_) => false,
        Rounding::UpRounding(_) => f != 0real,
        Rounding::DownRounding(_) => false,
        Rounding::ClosestRounding(_) => past,
        Rounding::CeilingTruncation(_) => past && negative,
        Rounding::FloorTruncation(_) => past && !negative,
    }
}
/// rounded magnitude in steps
pub open spec fn rounded(l: real, rule: Rounding, digit: int, negative: bool) -> int {
    if steps_up(l - l.floor() as real, rule, digit, negative) { l.floor() + 1 } else { l.floor() }
}
pub open spec fn apply(value: real, rule: Rounding, precision: int, digit: int) -> real {
    let m = rpow(10real, precision as real);
    let r = rounded(snapped(rabs(value) * m), rule, digit, value < 0real) as real / m;
    if value < 0real { -r } else { r }
}
/// the adjacent multiples, nothing further
proof fn lemma_adjacent(value: real, rule: Rounding, precision: int, digit: int)
    requires rpow(10real, precision as real) > 0real,
    ensures ({
        let l = snapped(rabs(value) * rpow(10real, precision as real));
        let k = rounded(l, rule, digit, value < 0real);
        &&& k == l.floor() || k == l.floor() + 1
        &&& k as real - l <= 1real && l - (k as real) < 1real
    }),
{
}
proof fn lemma_whole(k: int)
    ensures (k as real).floor() == k, rround(k as real) == k, (k as real) - ((k as real).floor() as real) == 0real,
{
}
/// a multiple of the step is left alone by every rule with a positive rounding digit
proof fn lemma_snapped_whole(k: int)
    ensures snapped(k as real) == k as real,
{
    lemma_whole(k);
    assert(near(k as real, rround(k as real) as real, 2, true));
}
proof fn lemma_nothing_past(rule: Rounding, digit: int, negative: bool)
    requires digit > 0,
    ensures !steps_up(0real, rule, digit, negative),
{
    assert(digit as real / 10real > 0real) by (nonlinear_arith) requires digit > 0;
}
proof fn lemma_rounded_whole(k: int, rule: Rounding, digit: int, negative: bool)
    requires digit > 0,
    ensures rounded(k as real, rule, digit, negative) == k,
{
    hide(rround); hide(steps_up);
    lemma_whole(k);
    lemma_nothing_past(rule, digit, negative);
}
proof fn lemma_multiples_stay(k: int, rule: Rounding, digit: int, negative: bool)
    requires k >= 0, digit > 0,
    ensures snapped(k as real) == k as real, rounded(k as real, rule, digit, negative) == k,
{
    hide(rounded); hide(snapped);
    lemma_snapped_whole(k);
    lemma_rounded_whole(k, rule, digit, negative);
}
/// so rounding is idempotent
proof fn lemma_idempotent(value: real, rule: Rounding, precision: int, digit: int)
    requires rpow(10real, precision as real) > 0real, digit > 0, !(rule is NoRounding),
    ensures apply(apply(value, rule, precision, digit), rule, precision, digit) == apply(value, rule, precision, digit),
{
    let m = rpow(10real, precision as real);
    let l = rabs(value) * m;
    assert(l >= 0real) by (nonlinear_arith) requires l == rabs(value) * m, rabs(value) >= 0real, m > 0real;
    let k = rounded(snapped(l), rule, digit, value < 0real);
    assert(k >= 0);
    let q = k as real / m;
    assert(q * m == k as real) by (nonlinear_arith) requires q == k as real / m, m > 0real;
    assert(q >= 0real) by (nonlinear_arith) requires q * m == k as real, k >= 0, m > 0real;
    let r = apply(value, rule, precision, digit);
    assert(rabs(r) == q);
    assert(rabs(r) * m == k as real);
    lemma_multiples_stay(k, rule, digit, r < 0real);
    lemma_multiples_stay(k, rule, digit, value < 0real);
    if value < 0real && !(r < 0real) { assert(q == 0real); assert(k as real == 0real) by (nonlinear_arith) requires q * m == k as real, q == 0real; }
}
/// and odd where the sign plays no part
proof fn lemma_odd(value: real, rule: Rounding, precision: int, digit: int)
    requires rpow(10real, precision as real) > 0real, digit > 0, (rule is UpRounding) || (rule is DownRounding) || (rule is ClosestRounding),
    ensures apply(-value, rule, precision, digit) == -apply(value, rule, precision, digit),
{
    let m = rpow(10real, precision as real);
    if value == 0real {
        assert(rabs(value) * m == 0real) by (nonlinear_arith) requires rabs(value) == 0real;
        assert(rabs(-value) * m == 0real) by (nonlinear_arith) requires rabs(-value) == 0real;
        lemma_multiples_stay(0, rule, digit, false);
        assert(0real / m == 0real) by (nonlinear_arith) requires m > 0real;
    }
}
impl RoundingData {
//@fn src/maths/rounding.rs "impl RoundingData" new
//@ret r
    ensures r.precision == precision, r.digit == digit,
//@end
//@fn src/maths/rounding.rs "impl RoundingData" round
//@real
//@ret r
    requires rpow(10real, self.precision as real) > 0real, self.digit > 0,
    ensures !(*rounding is NoRounding) ==> r.v() == apply(value.v(), *rounding, self.precision as int, self.digit as int),
//@after "let mut lvalue = value.abs() * mult;"
        proof { assert(lvalue.v() >= 0real) by (nonlinear_arith) requires lvalue.v() == rabs(value.v()) * mult.v(), rabs(value.v()) >= 0real, mult.v() > 0real; }
//@end
}
pub open spec fn data_of(r: Rounding) -> RoundingData {
    match r {
        Rounding::NoRounding(_) => RoundingData { precision: 0, digit: 1 },
        Rounding::UpRounding(x) => x.data,
        Rounding::DownRounding(x) => x.data,
        Rounding::ClosestRounding(x) => x.data,
        Rounding::CeilingTruncation(x) => x.data,
        Rounding::FloorTruncation(x) => x.data,
    }
}
impl Rounding {
//@fn src/maths/rounding.rs "impl Rounding" round
//@real
//@ret r
    requires rpow(10real, data_of(*self).precision as real) > 0real, data_of(*self).digit > 0,
    ensures r.v() == if *self is NoRounding { value.v() } else { apply(value.v(), *self, data_of(*self).precision as int, data_of(*self).digit as int) },
//@end
//@fn src/maths/rounding.rs "impl Rounding" none
//@ret r
    ensures r is NoRounding,
//@end
//@fn src/maths/rounding.rs "impl Rounding" up
//@ret r
    ensures r is UpRounding, data_of(r).precision == precision, data_of(r).digit == digit,
//@end
//@fn src/maths/rounding.rs "impl Rounding" down
//@ret r
    ensures r is DownRounding, data_of(r).precision == precision, data_of(r).digit == digit,
//@end
//@fn src/maths/rounding.rs "impl Rounding" closest
//@ret r
    ensures r is ClosestRounding, data_of(r).precision == precision, data_of(r).digit == digit,
//@end
//@fn src/maths/rounding.rs "impl Rounding" ceiling
//@ret r
    ensures r is CeilingTruncation, data_of(r).precision == precision, data_of(r).digit == digit,
//@end
//@fn src/maths/rounding.rs "impl Rounding" floor
//@ret r
    ensures r is FloorTruncation, data_of(r).precision == precision, data_of(r).digit == digit,
//@end
}
fn main() {}
}
