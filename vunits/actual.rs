use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
use core::ops::*;
use core::cmp::Ordering;

verus! {

//@include caldate.rs
use caldate::*;

pub type Integer = i32;
pub type Size = usize;
pub type Day = u32;
pub type Year = i32;
pub type Time = Real;

//@include real.rs

//@type src/datetime/timeunit.rs enum TimeUnit derive(Clone, Copy, Debug, PartialEq, Eq, Structural)

//@type src/datetime/period.rs struct Period derive(Clone, Copy, Debug)
impl Period {
    #[verifier::external_body]
    pub fn new(length: Integer, unit: TimeUnit) -> (r: Period)
        ensures r.length == length, r.unit == unit,
    { unimplemented!() }
}
//@include date_base.rs
//@include date_period_ops.rs
//@include date_methods.rs
//@include date_tables.rs
use Month::*;
use TimeUnit::*;

impl Date {
    #[verifier::external_body]
    pub fn days_between(d1: &Date, d2: &Date) -> (r: Time)
        requires wf(*d1), wf(*d2),
        ensures r.v() == (d2.s() - d1.s()) as real,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_end_of_month(&self) -> (r: bool)
        requires wf(*self),
        ensures r == (self.s() == last_of(mi(self.s()))),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Date)
        ensures r.s() == MIN(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn min_date() -> (r: Date)
        ensures r.s() == MIN(),
    { unimplemented!() }
}

// --- Actual/360, Actual/366, 1/1
//@type src/datetime/daycounters/actual360.rs struct Actual360 derive(Clone, Copy)
//@type src/datetime/daycounters/actual366.rs struct Actual366 derive(Clone, Copy)
//@type src/datetime/daycounters/one.rs struct One derive(Clone, Copy)

pub open spec fn days(d1: Date, d2: Date, include_last_day: bool) -> int { d2.s() - d1.s() + if include_last_day { 1int } else { 0int } }

impl Actual360 {
//@fn src/datetime/daycounters/actual360.rs "impl Actual360" day_count
//@ret r
    requires wf(*d1), wf(*d2),
    ensures r == days(*d1, *d2, self.include_last_day),
//@end
//@fn src/datetime/daycounters/actual360.rs "impl Actual360" year_fraction
//@real
//@ret r
    requires wf(*d1), wf(*d2),
    ensures r.v() == days(*d1, *d2, self.include_last_day) as real / 360real,
//@end
}
impl Actual366 {
//@fn src/datetime/daycounters/actual366.rs "impl Actual366" day_count
//@ret r
    requires wf(*d1), wf(*d2),
    ensures r == days(*d1, *d2, self.include_last_day),
//@end
//@fn src/datetime/daycounters/actual366.rs "impl Actual366" year_fraction
//@real
//@ret r
    requires wf(*d1), wf(*d2),
    ensures r.v() == days(*d1, *d2, self.include_last_day) as real / 366real,
//@end
}
impl One {
//@fn src/datetime/daycounters/one.rs "impl One" day_count
//@ret r
    requires wf(*d1), wf(*d2),
    ensures r == if d2.s() >= d1.s() { 1int } else { -1int },
//@end
//@fn src/datetime/daycounters/one.rs "impl One" year_fraction
//@real
//@ret r
    requires wf(*d1), wf(*d2),
    ensures r.v() == if d2.s() >= d1.s() { 1real } else { -1real },
//@end
}

// --- Actual/Actual ISDA
pub open spec fn year_days(y: int) -> int { if leap(y) { 366 } else { 365 } }
/// years up to a day, counted from the year 0: whole years, and the days of the last one over its length
pub open spec fn years_to(s: int) -> real {
    year_of(s) as real + ((s - first(12 * year_of(s))) as real) / (year_days(year_of(s)) as real)
}
/// every day counts one over the length of the year it lies in: with this the fraction below is additive and antisymmetric
proof fn lemma_a_day_counts_in_its_year(s: int)
    requires MIN() <= s < MAX(),
    ensures years_to(s + 1) - years_to(s) == 1real / (year_days(year_of(s)) as real),
{
    lemma_year(s);
    lemma_year(s + 1);
    let y = year_of(s);
    lemma_order(s, s + 1);
    let l = year_days(y) as real;
    let a = (s - first(12 * y)) as real;
    if year_of(s + 1) == y {
        assert((a + 1real) / l == a / l + 1real / l) by (nonlinear_arith) requires l > 0real;
    } else {
        assert(s + 1 == first(12 * (y + 1)));
        assert(a == l - 1real);
        assert((l - 1real) / l + 1real / l == 1real) by (nonlinear_arith) requires l > 0real;
        assert(0real / (year_days(y + 1) as real) == 0real) by (nonlinear_arith) requires year_days(y + 1) as real > 0real;
    }
}
proof fn lemma_month_of_year(k: int, j: int)
    requires k >= K0(), k % 12 == 0, 0 <= j <= 12,
    ensures 28 * j <= first(k + j) - first(k) <= 31 * j,
    decreases j,
{
    if j > 0 { lemma_month_of_year(k, j - 1); lemma_step(k + j - 1); }
}
proof fn lemma_year_step(y: int)
    requires y >= 1900,
    ensures first(12 * (y + 1)) == first(12 * y) + year_days(y),
        first(12 * y) == ser(y, 1, 1), first(12 * y + 11) + 30 == ser(y, 12, 31), ser(y, 12, 31) + 1 == first(12 * y + 12),
{
    assert((12 * y) / 12 == y && (12 * y) % 12 == 0);
    assert((12 * (y + 1)) / 12 == y + 1 && (12 * (y + 1)) % 12 == 0);
    assert((12 * y + 11) / 12 == y && (12 * y + 11) % 12 == 11);
    assert((y % 4 == 0) ==> y / 4 == (y - 1) / 4 + 1);
    assert((y % 4 != 0) ==> y / 4 == (y - 1) / 4);
    assert((y % 100 == 0) ==> y / 100 == (y - 1) / 100 + 1);
    assert((y % 100 != 0) ==> y / 100 == (y - 1) / 100);
    assert((y % 400 == 0) ==> y / 400 == (y - 1) / 400 + 1);
    assert((y % 400 != 0) ==> y / 400 == (y - 1) / 400);
    assert(y % 400 == 0 ==> y % 100 == 0);
    assert(y % 100 == 0 ==> y % 4 == 0);
}
/// the year of a day
proof fn lemma_year(s: int)
    requires MIN() <= s <= MAX(),
    ensures 1900 <= year_of(s) < 2200, first(12 * year_of(s)) <= s < first(12 * year_of(s) + 12),
        first(12 * year_of(s) + 12) == first(12 * year_of(s)) + year_days(year_of(s)),
        MIN() <= first(12 * year_of(s)), first(12 * year_of(s) + 12) - 1 <= MAX(),
        1 <= month_of(s) <= 12, mi(s) == 12 * year_of(s) + month_of(s) - 1,
        first(12 * year_of(s)) == ser(year_of(s), 1, 1), first(12 * year_of(s) + 12) - 1 == ser(year_of(s), 12, 31),
{
    hide(ser);
    hide(mlen);
    hide(mi);
    lemma_mi(s);
    let y = year_of(s);
    lemma_year_step(y);
    lemma_first_month();
    if 12 * y < mi(s) { lemma_mono(12 * y, mi(s)); }
    if mi(s) + 1 < 12 * y + 12 { lemma_mono(mi(s) + 1, 12 * y + 12); }
    lemma_step(mi(s));
    if K0() < 12 * y { lemma_mono(K0(), 12 * y); }
    if 12 * y + 12 < 26400 { lemma_mono(12 * y + 12, 26400); }
}

//@type src/datetime/daycounters/actualactual.rs struct ISDA derive(Clone, Copy)
impl ISDA {
//@fn src/datetime/daycounters/actualactual.rs "impl ISDA" day_count
//@ret r
    requires wf(*d1), wf(*d2),
    ensures r == d2.s() - d1.s(),
//@end
//@fn src/datetime/daycounters/actualactual.rs "impl ISDA" year_fraction
//@real
//@ret r
    requires wf(*d1), wf(*d2),
    ensures r.v() == years_to(d2.s()) - years_to(d1.s()),
    decreases (if d1.s() > d2.s() { 1int } else { 0int }),
//@top
        hide(ser); hide(mi); hide(first);
        proof {
            lemma_year(d1.s());
            lemma_year(d2.s());
            let y = year_of(d1.s());
            let l = year_days(y) as real;
            let a = (d1.s() - first(12 * y)) as real;
            assert((l - a) / l == 1real - a / l) by (nonlinear_arith) requires l > 0real;
        }
//@end
}

// --- Actual/Actual AFB
pub open spec fn back_one(s: int) -> int {
    let t = plus(s, -1, TimeUnit::Years);
    if dom_of(t) == 28 && month_of(t) == 2 && leap(year_of(t)) { t + 1 } else { t }
}
/// whole years back from a date
pub open spec fn back(s: int, n: int) -> int
    decreases n,
{
    if n <= 0 { s } else { back_one(back(s, n - 1)) }
}
pub open spec fn has_feb_29(a: int, b: int) -> bool {
    exists|y: int| 1900 <= y < 2200 && leap(y) && a <= #[trigger] ser(y, 2, 29) < b
}
pub open spec fn afb(a: int, b: int, r: real) -> bool {
    exists|n: int| n >= 0 && {
        let e = #[trigger] back(b, n);
        &&& a <= e && (e == a || year_of(e) == 1900 || back_one(e) < a)
        &&& r == n as real + ((e - a) as real) / (if has_feb_29(a, e) { 366real } else { 365real })
    }
}
proof fn lemma_back_one(s: int)
    requires MIN() <= s <= MAX(), year_of(s) > 1900,
    ensures MIN() <= back_one(s) < s, year_of(back_one(s)) == year_of(s) - 1,
        movable(s, -1, TimeUnit::Years), wf(day(plus(s, -1, TimeUnit::Years))), plus(s, -1, TimeUnit::Years) < MAX(),
{
    hide(ser);
    hide(mlen);
    hide(mi);
    hide(first);
    lemma_mi(s);
    let k = mi(s) - 12;
    let t = plus(s, -1, TimeUnit::Years);
    lemma_step(k);
    lemma_first_month();
    assert(first(k) >= 2) by { if k > K0() { lemma_mono(K0(), k); } }
    lemma_unique(t, k);
    lemma_mono(k, mi(s));
    lemma_mi(t);
    if back_one(s) != t {
        assert(len(k) == 29) by { reveal(mlen); }
        lemma_unique(t + 1, k);
    }
}
proof fn lemma_feb_29(y: int)
    requires 1900 <= y < 2200, leap(y),
    ensures MIN() <= ser(y, 2, 29) <= MAX(), year_of(ser(y, 2, 29)) == y, mlen(y, 2) == 29,
{
    hide(mi);
    let k = 12 * y + 1;
    assert(k / 12 == y && k % 12 + 1 == 2);
    lemma_first_month();
    lemma_step(k);
    lemma_mono(K0(), k);
    lemma_mono(k, 26399);
    lemma_unique(ser(y, 2, 29), k);
}
proof fn lemma_first_year()
    ensures year_of(MIN()) == 1900, mi(MIN()) == K0(),
{
    hide(mi);
    lemma_first_month();
    lemma_step(K0());
    lemma_unique(2, K0());
}
proof fn lemma_denominator(a: int, e: int)
    requires MIN() <= a <= e <= MAX(), e == a || year_of(e) == 1900 || back_one(e) < a,
    ensures ({
        let (y1, y2) = (year_of(a), year_of(e));
        &&& 1900 <= y1 < 2200 && 1900 <= y2 < 2200
        &&& leap(y2) ==> has_feb_29(a, e) == (a <= ser(y2, 2, 29) < e) && MIN() <= ser(y2, 2, 29) <= MAX() && mlen(y2, 2) == 29
        &&& !leap(y2) && leap(y1) ==> has_feb_29(a, e) == (a <= ser(y1, 2, 29) < e) && MIN() <= ser(y1, 2, 29) <= MAX() && mlen(y1, 2) == 29
        &&& !leap(y2) && !leap(y1) ==> !has_feb_29(a, e)
    }),
{
    hide(ser);
    hide(mlen);
    hide(mi);
    hide(first);
    let (y1, y2) = (year_of(a), year_of(e));
    lemma_mi(a);
    lemma_mi(e);
    lemma_order(a, e);
    if year_of(e) > 1900 && e != a {
        lemma_back_one(e);
        lemma_order(back_one(e), a);
        lemma_mi(back_one(e));
    }
    assert(y1 <= y2 <= y1 + 1);
    if leap(y1) { lemma_feb_29(y1); }
    if leap(y2) { lemma_feb_29(y2); }
    assert(leap(y1) && leap(y2) ==> y1 == y2);
    if has_feb_29(a, e) {
        let y = choose|y: int| 1900 <= y < 2200 && leap(y) && a <= #[trigger] ser(y, 2, 29) < e;
        lemma_feb_29(y);
        lemma_order(a, ser(y, 2, 29));
        lemma_order(ser(y, 2, 29), e);
        lemma_mi(ser(y, 2, 29));
        assert(y1 <= y <= y2);
    }
}
//@type src/datetime/daycounters/actualactual.rs struct AFB derive(Clone, Copy)
impl AFB {
//@fn src/datetime/daycounters/actualactual.rs "impl AFB" day_count
//@ret r
    requires wf(*d1), wf(*d2),
    ensures r == d2.s() - d1.s(),
//@end
//@fn src/datetime/daycounters/actualactual.rs "impl AFB" year_fraction
//@real
//@ret r
    requires wf(*d1), wf(*d2),
    ensures d1.s() <= d2.s() ==> afb(d1.s(), d2.s(), r.v()), d1.s() > d2.s() ==> afb(d2.s(), d1.s(), -r.v()),
    decreases (if d1.s() > d2.s() { 1int } else { 0int }),
//@top
        hide(ser); hide(mi); hide(mlen); hide(first); hide(back_one);
        proof {
            lemma_mi(d1.s());
            lemma_mi(d2.s());
            lemma_first_year();
            if d1 == d2 {
                assert(back(d2.s(), 0) == d2.s());
                assert(0real / 366real == 0real && 0real / 365real == 0real);
                assert(afb(d1.s(), d2.s(), 0real));
            }
        }
        let ghost mut n: int = 0;
//@loop 0
            invariant
                year_of(MIN()) == 1900, wf(*d1), wf(*d2), wf(new_d2), wf(temp), n >= 0, sum.v() == n as real, new_d2.s() == back(d2.s(), n), d1.s() <= new_d2.s(),
                temp == new_d2 || (temp.s() < d1.s() && temp.s() == back_one(new_d2.s())),
            decreases temp.s(),
//@loopbody 0
            proof {
                lemma_mi(new_d2.s());
                assert(year_of(new_d2.s()) > 1900);
                lemma_back_one(new_d2.s());
                reveal(back_one);
                lemma_mi(plus(new_d2.s(), -1, TimeUnit::Years));
            }
//@loopend 0
            proof {
                if temp.s() >= d1.s() { n = n + 1; assert(back(d2.s(), n) == back_one(back(d2.s(), n - 1))); }
            }
//@before "let mut den = 365.0;"
        proof {
            lemma_mi(new_d2.s());
            lemma_denominator(d1.s(), new_d2.s());
        }
        let ghost e = new_d2.s();
//@end
}
fn main() {}
}
