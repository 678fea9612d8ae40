use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use core::ops::*;
use core::cmp::Ordering;

verus! {

pub type Integer = i32;
pub type Real = f64;

//@type src/datetime/timeunit.rs enum TimeUnit derive(Clone, Copy, Debug, PartialEq, Eq, Structural)
//@type src/datetime/frequency.rs enum Frequency derive(Clone, Copy, Debug, PartialEq, Eq, Structural)
//@type src/datetime/period.rs struct Period derive(Clone, Copy, Debug)

use TimeUnit::*;
use Frequency::*;

//@include period_spec.rs

// ------------------------------------------------------------------ truncated division
//@include arith.rs
use arith::*;
// ------------------------------------------------------------------ the code
impl NegSpecImpl for Period {
    open spec fn obeys_neg_spec() -> bool { false }
    open spec fn neg_req(self) -> bool { self.length > i32::MIN }
    open spec fn neg_spec(self) -> Period { self }
}
impl Neg for Period {
    type Output = Self;
//@fn src/datetime/period.rs "impl Neg for Period" neg
//@ret r
    ensures r.length == -self.length, r.unit == self.unit,
//@end
}

impl AddAssignSpecImpl<Period> for Period {
    open spec fn obeys_add_assign_spec() -> bool { false }
    open spec fn add_assign_req(&self, rhs: Period) -> bool { addable(*self, rhs) }
    open spec fn add_assign_spec(&self, rhs: Period) -> &Period { self }
}
impl AddAssign for Period {
//@fn src/datetime/period.rs "impl AddAssign for Period" add_assign
    ensures
        months_of(*final(self)) == months_of(*old(self)) + months_of(rhs),
        days_of(*final(self)) == days_of(*old(self)) + days_of(rhs),
        calendar_unit(final(self).unit),
//@end
}
impl SubAssignSpecImpl<Period> for Period {
    open spec fn obeys_sub_assign_spec() -> bool { false }
    open spec fn sub_assign_req(&self, rhs: Period) -> bool {
        rhs.length > i32::MIN && addable(*self, Period { length: (-rhs.length) as i32, unit: rhs.unit })
    }
    open spec fn sub_assign_spec(&self, rhs: Period) -> &Period { self }
}
impl SubAssign for Period {
//@fn src/datetime/period.rs "impl SubAssign for Period" sub_assign
    ensures
        months_of(*final(self)) == months_of(*old(self)) - months_of(rhs),
        days_of(*final(self)) == days_of(*old(self)) - days_of(rhs),
        calendar_unit(final(self).unit),
//@end
}

/// a period with the n-th part of the span can be written down
pub open spec fn divisible(p: Period, n: int) -> bool {
    &&& n != 0 && wide(p) && fits(n)
    &&& p.length as int % n == 0 || (p.unit == TimeUnit::Years && (p.length * 12) % n == 0)
            || (p.unit == TimeUnit::Weeks && (p.length * 7) % n == 0)
}
impl DivAssignSpecImpl<Integer> for Period {
    open spec fn obeys_div_assign_spec() -> bool { false }
    open spec fn div_assign_req(&self, n: Integer) -> bool { divisible(*self, n as int) }
    open spec fn div_assign_spec(&self, n: Integer) -> &Period { self }
}
impl DivAssign<Integer> for Period {
//@fn src/datetime/period.rs "impl DivAssign<Integer> for Period" div_assign
//@compound
    ensures
        months_of(*final(self)) * n == months_of(*old(self)),
        days_of(*final(self)) * n == days_of(*old(self)),
        calendar_unit(final(self).unit),
//@top
        proof {
            lemma_division(self.length as int, n as int);
            lemma_division(self.length * 12, n as int);
            lemma_division(self.length * 7, n as int);
        }
//@end
}
impl DivSpecImpl<Integer> for Period {
    open spec fn obeys_div_spec() -> bool { false }
    open spec fn div_req(self, n: Integer) -> bool { divisible(self, n as int) }
    open spec fn div_spec(self, n: Integer) -> Period { self }
}
impl Div<Integer> for Period {
    type Output = Self;
//@fn src/datetime/period.rs "impl Div<Integer> for Period" div
//@ret r
    ensures
        months_of(r) * n == months_of(self),
        days_of(r) * n == days_of(self),
        calendar_unit(r.unit),
//@end
}
impl MulSpecImpl<Integer> for Period {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, n: Integer) -> bool { fits(n * self.length) }
    open spec fn mul_spec(self, n: Integer) -> Period { self }
}
impl Mul<Integer> for Period {
    type Output = Self;
//@fn src/datetime/period.rs "impl Mul<Integer> for Period" mul
//@ret r
    ensures r.length == rhs * self.length, r.unit == self.unit,
//@end
}

/// the product spans n times as much (a lemma over the contract of mul)
proof fn lemma_product_span(p: Period, r: Period, n: int)
    requires r.length == n * p.length, r.unit == p.unit,
    ensures months_of(r) == n * months_of(p), days_of(r) == n * days_of(p),
{
    assert(12 * (n * p.length) == n * (12 * p.length)) by (nonlinear_arith);
    assert(7 * (n * p.length) == n * (7 * p.length)) by (nonlinear_arith);
}

impl Period {
//@fn src/datetime/period.rs "impl Period" new
//@ret r
    ensures r.length == length, r.unit == unit,
//@end

//@fn src/datetime/period.rs "impl Period" normalise
//@compound
    requires calendar_unit(old(self).unit) || old(self).length == 0,
    ensures
        months_of(*final(self)) == months_of(*old(self)),
        days_of(*final(self)) == days_of(*old(self)),
        calendar_unit(final(self).unit),
        final(self).length == 0 ==> final(self).unit == TimeUnit::Days,
        final(self).unit == TimeUnit::Months ==> final(self).length % 12 != 0,
        final(self).unit == TimeUnit::Days && final(self).length != 0 ==> final(self).length % 7 != 0,
        // in normal form already: left alone
        (old(self).length == 0 && old(self).unit == TimeUnit::Days)
            || (old(self).length != 0 && (old(self).unit == TimeUnit::Years || old(self).unit == TimeUnit::Weeks
                || (old(self).unit == TimeUnit::Months && old(self).length % 12 != 0)
                || (old(self).unit == TimeUnit::Days && old(self).length % 7 != 0)))
            ==> *final(self) == *old(self),
//@end

//@fn src/datetime/period.rs "impl Period" normalised
//@ret r
    requires calendar_unit(self.unit) || self.length == 0,
    ensures
        months_of(r) == months_of(*self), days_of(r) == days_of(*self), calendar_unit(r.unit),
        r.length == 0 ==> r.unit == TimeUnit::Days,
        r.unit == TimeUnit::Months ==> r.length % 12 != 0,
        r.unit == TimeUnit::Days && r.length != 0 ==> r.length % 7 != 0,
//@end

//@fn src/datetime/period.rs "impl Period" days_min_max
//@ret r
    requires calendar_unit(self.unit), fits(366 * self.length),
    ensures
        r.0 == (match self.unit { TimeUnit::Days => self.length as int, TimeUnit::Weeks => 7 * self.length,
                                  TimeUnit::Months => 28 * self.length, _ => 365 * self.length }),
        r.1 == (match self.unit { TimeUnit::Days => self.length as int, TimeUnit::Weeks => 7 * self.length,
                                  TimeUnit::Months => 31 * self.length, _ => 366 * self.length }),
//@end

//@fn src/datetime/period.rs "impl Period" frequency
//@ret r
    requires calendar_unit(self.unit) || self.length == 0,
    ensures
        r == frequency_of(*self),
//@top
        proof { lemma_twelve(self.length as int); }
//@end
}

pub open spec fn per_year(f: Frequency) -> int {
    match f {
        Frequency::Annual => 1, Frequency::Semiannual => 2, Frequency::EveryFourthMonth => 3, Frequency::Quarterly => 4,
        Frequency::Bimonthly => 6, Frequency::Monthly => 12, Frequency::EveryFourthWeek => 13, Frequency::Biweekly => 26,
        Frequency::Weekly => 52, Frequency::Daily => 365, Frequency::Once => 0, Frequency::NoFrequency => -1, _ => 999,
    }
}
pub open spec fn frequency_of(p: Period) -> Frequency {
    if p.length == 0 { if p.unit == TimeUnit::Years { Frequency::Once } else { Frequency::NoFrequency } }
    else if p.unit == TimeUnit::Days { if p.length == 1 { Frequency::Daily } else { Frequency::OtherFrequency } }
    else if p.unit == TimeUnit::Weeks {
        if p.length == 1 { Frequency::Weekly } else if p.length == 2 { Frequency::Biweekly } else if p.length == 4 { Frequency::EveryFourthWeek }
        else { Frequency::OtherFrequency } }
    else if p.unit == TimeUnit::Years { if p.length == 1 { Frequency::Annual } else { Frequency::OtherFrequency } }
    else {
        if p.length == 1 { Frequency::Monthly } else if p.length == 2 { Frequency::Bimonthly } else if p.length == 3 { Frequency::Quarterly }
        else if p.length == 4 { Frequency::EveryFourthMonth } else if p.length == 6 { Frequency::Semiannual }
        else if p.length == 12 { Frequency::Annual } else { Frequency::OtherFrequency }
    }
}

impl Frequency {
//@fn src/datetime/frequency.rs "impl From<Integer> for Frequency" from
//@ret r
    requires n == -1 || n == 0 || n == 999 || n == 1 || n == 2 || n == 3 || n == 4 || n == 6 || n == 12 || n == 13 || n == 26 || n == 52 || n == 365,
    ensures per_year(r) == n,
//@end
}

fn main() {}
}
