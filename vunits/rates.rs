use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
use core::ops::*;
use core::cmp::Ordering;

verus! {

//@include caldate.rs
use caldate::*;

pub type Integer = i32;
pub type Size = usize;
pub type Day = u32;
pub type Year = i32;
pub type Time = Real;
pub type Rate = Real;
pub type DiscountFactor = Real;

//@include real.rs
//@type src/datetime/timeunit.rs enum TimeUnit derive(Clone, Copy, Debug, PartialEq, Eq, Structural)
//@include date_base.rs

//@include rates_base.rs
proof fn lemma_compounded(c: real, n: real, t: real)
    requires c > 0real, n > 0real, t > 0real,
    ensures n * t != 0real, compounded((rpow(c, 1real / (n * t)) - 1real) * n, n, t) == c,
{
    assert(n * t > 0real) by (nonlinear_arith) requires n > 0real, t > 0real;
    let e = 1real / (n * t);
    let p = rpow(c, e);
    let r = (p - 1real) * n;
    assert(r / n == p - 1real) by (nonlinear_arith) requires r == (p - 1real) * n, n > 0real;
    assert(e * (n * t) == 1real) by (nonlinear_arith) requires e == 1real / (n * t), n * t > 0real;
    axiom_pow_pow(c, e, n * t);
}
proof fn lemma_simple(c: real, t: real)
    requires t > 0real,
    ensures simple((c - 1real) / t, t) == c,
{
    let r = (c - 1real) / t;
    assert(r * t == c - 1real) by (nonlinear_arith) requires r == (c - 1real) / t, t > 0real;
}
proof fn lemma_continuous(c: real, t: real)
    requires t > 0real, c > 0real,
    ensures rexp(rln(c) / t * t) == c,
{
    let (l, r) = (rln(c), rln(c) / t);
    assert(r * t == l) by (nonlinear_arith) requires r == l / t, t > 0real;
    axiom_exp_ln(c);
}
proof fn lemma_nothing(c: Compounding, n: real, t: real)
    requires compounds(c) ==> n > 0real,
    ensures factor(c, n, 0real, t) == 1real,
{
    axiom_exp_ln(1real);
    axiom_pow_pow(1real, n * t, 1real);
    assert(0real * t == 0real) by (nonlinear_arith);
    if n > 0real { assert(0real / n == 0real) by (nonlinear_arith) requires n > 0real; }
}
impl InterestRate {
//@fn src/rates/interestrate.rs "impl InterestRate" new
//@real
//@partial
//@ret r
    ensures
        r.valid(), r.rate.v() == rate.v(), r.daycounter == daycounter, r.compounding == compounding,
        compounds(compounding) ==> r.frequency.v() == per_year(frequency) as real && frequency != Frequency::Once && frequency != Frequency::NoFrequency,
//@end
//@fn src/rates/interestrate.rs "impl InterestRate" compound_factor
//@real
//@partial
//@ret r
    requires self.valid(),
    ensures t.v() >= 0real, r.v() == self.at(t.v()),
//@end
//@fn src/rates/interestrate.rs "impl InterestRate" discount_factor
//@real
//@partial
//@ret r
    requires self.valid(), t.v() >= 0real ==> self.at(t.v()) != 0real,
    ensures t.v() >= 0real, r.v() == 1real / self.at(t.v()), r.v() * self.at(t.v()) == 1real,
//@top
        proof { let a = self.at(t.v()); if a != 0real { assert(1real / a * a == 1real) by (nonlinear_arith) requires a != 0real; } }
//@end
//@fn src/rates/interestrate.rs "impl InterestRate" compound_factor_between_dates
//@real
//@partial
//@ret r
    requires self.valid(), wf(*d1), wf(*d2),
    ensures d1.s() <= d2.s(), r.v() == self.at(fraction(self.daycounter, d1.s(), d2.s(), ref_start.s(), ref_end.s())),
//@end
//@fn src/rates/interestrate.rs "impl InterestRate" discount_factor_between_dates
//@real
//@partial
//@ret r
    requires self.valid(), wf(*d1), wf(*d2), self.at(fraction(self.daycounter, d1.s(), d2.s(), ref_start.s(), ref_end.s())) != 0real,
    ensures d1.s() <= d2.s(), r.v() == 1real / self.at(fraction(self.daycounter, d1.s(), d2.s(), ref_start.s(), ref_end.s())),
//@end
//@fn src/rates/interestrate.rs "impl InterestRate" frequency
//@sub "self.frequency as Integer" => "self.frequency.to_i32()"
//@ret r
    requires self.valid(),
    ensures if compounds(self.compounding) { per_year(r) as real == self.frequency.v() } else { r == Frequency::NoFrequency },
//@end
//@fn src/rates/interestrate.rs "impl InterestRate" implied_rate
//@real
//@partial
//@ret r
    requires compounds(*compounding) ==> per_year(frequency) > 0,
    ensures
        compound.v() > 0real, t.v() > 0real || (t.v() == 0real && compound.v() == 1real),
        r.valid(), r.daycounter == *result_dc, r.compounding == *compounding, compounds(*compounding) ==> r.frequency.v() == per_year(frequency) as real,
        // the compound factor comes back
        r.at(t.v()) == compound.v(),
//@top
        proof {
            let (c, n, tt) = (compound.v(), per_year(frequency) as real, t.v());
            if compounds(*compounding) { lemma_nothing(*compounding, n, tt); } else { lemma_nothing(*compounding, 0real, tt); }
            if tt > 0real {
                lemma_simple(c, tt);
                if c > 0real {
                    lemma_continuous(c, tt);
                    if n > 0real { lemma_compounded(c, n, tt); }
                }
            }
        }
//@end
//@fn src/rates/interestrate.rs "impl InterestRate" implied_rate_between_dates
//@real
//@partial
//@ret r
    requires compounds(*compounding) ==> per_year(frequency) > 0, wf(*d1), wf(*d2),
    ensures
        d1.s() <= d2.s(), compound.v() > 0real, r.valid(), r.daycounter == *result_dc, r.compounding == *compounding,
        r.at(fraction(*result_dc, d1.s(), d2.s(), ref_start.s(), ref_end.s())) == compound.v(),
//@end
//@fn src/rates/interestrate.rs "impl InterestRate" equivalent_rate
//@real
//@partial
//@ret r
    requires self.valid(), compounds(*compounding) ==> per_year(frequency) > 0,
    ensures
        t.v() >= 0real, r.valid(), r.daycounter == self.daycounter, r.compounding == *compounding,
        r.at(t.v()) == self.at(t.v()),
//@end
//@fn src/rates/interestrate.rs "impl InterestRate" equivalent_rate_between_dates
//@real
//@partial
//@ret r
    requires self.valid(), compounds(*compounding) ==> per_year(frequency) > 0, wf(*d1), wf(*d2),
    ensures
        d1.s() <= d2.s(), r.valid(), r.daycounter == *result_dc, r.compounding == *compounding,
        r.at(fraction(*result_dc, d1.s(), d2.s(), ref_start.s(), ref_end.s())) == self.at(fraction(self.daycounter, d1.s(), d2.s(), ref_start.s(), ref_end.s())),
//@end
}
fn main() {}
}
