use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
use core::ops::*;
use core::cmp::Ordering;

verus! {

//@include caldate.rs
use caldate::*;

pub type Integer = i32;
pub type Size = usize;
pub type Day = u32;
pub type Year = i32;

//@type src/datetime/timeunit.rs enum TimeUnit derive(Clone, Copy, Debug, PartialEq, Eq, Structural)
//@type src/datetime/period.rs struct Period derive(Clone, Copy, Debug)
//@type src/datetime/dategenerationrule.rs enum DateGenerationRule derive(Clone, Copy, Debug, PartialEq, Eq, Structural)
use TimeUnit::*;

//@include date_base.rs
//@include date_methods.rs
use Weekday::*;
use Month::*;

//@include date_partial.rs
impl AddSpecImpl<Period> for Date {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, p: Period) -> bool { wf(self) }
    open spec fn add_spec(self, p: Period) -> Date { self }
}
impl Add<Period> for Date {
    type Output = Date;
    #[verifier::external_body]
    fn add(self, p: Period) -> (r: Date)
        ensures shiftable(self.s(), p.length as int, p.unit), wf(r), r.s() == shifted(self.s(), p.length as int, p.unit),
    { unimplemented!() }
}
/// the contract of C15, for periods of months and years
impl PartialEqSpecImpl for Period {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Period) -> bool {
        if long(*self) && long(*o) { months(*self) == months(*o) } else { arbitrary() }
    }
}
impl PartialEq for Period {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> bool { unimplemented!() }
}
pub open spec fn long(p: Period) -> bool { p.unit == TimeUnit::Months || p.unit == TimeUnit::Years }
pub open spec fn months(p: Period) -> int { if p.unit == TimeUnit::Years { 12 * p.length } else { p.length as int } }

//@include twentieth.rs

// ------------------------------------------------------------------ the roll dates
/// months whose 20th trades roll on: quarterly, and for CDS2015 March and September
pub open spec fn rolls_in(k: int, r: DateGenerationRule) -> bool {
    if r == DateGenerationRule::CDS2015 { (k + 1) % 6 == 3 } else { (k + 1) % 3 == 0 }
}
/// the month of the latest roll up to a date
pub open spec fn rolled(s: int, r: DateGenerationRule) -> int {
    let k = if dom_of(s) < 20 { mi(s) - 1 } else { mi(s) };
    if r == DateGenerationRule::CDS2015 { k - (k + 4) % 6 } else { k - (k + 1) % 3 }
}
proof fn the_roll_is_the_latest(s: int, r: DateGenerationRule)
    requires MIN() <= s <= MAX(), rolled(s, r) >= K0(),
    ensures
        rolls_in(rolled(s, r), r), first(rolled(s, r)) + 19 <= s,
        forall|x: int| first(rolled(s, r)) + 19 < x <= s ==> !(#[trigger] dom_of(x) == 20 && rolls_in(mi(x), r)),
{
    hide(ser); hide(mlen); hide(mi); hide(caldate::leap); hide(first);
    lemma_mi(s);
    let k = rolled(s, r);
    assert(k < 26400) by { lemma_first_month(); if mi(s) >= 26400 { if mi(s) > 26400 { lemma_mono(26400, mi(s)); } } }
    lemma_twentieth(k);
    let n = first(k) + 19;
    assert(n <= s) by { if s < n { lemma_order(s, n); lemma_mi(n); } }
    assert forall|x: int| n < x <= s implies !(#[trigger] dom_of(x) == 20 && rolls_in(mi(x), r)) by {
        lemma_mi(x);
        lemma_order(n, x);
        lemma_order(x, s);
        if dom_of(x) == 20 && rolls_in(mi(x), r) {
            if mi(x) == mi(s) { assert(dom_of(x) <= dom_of(s)); }
            if mi(x) == k { assert(dom_of(x) - dom_of(n) == x - n); }
        }
    }
}
/// the 20th three months after the roll and a tenor later
pub open spec fn matures(s: int, n: int, r: DateGenerationRule) -> int { first(rolled(s, r) + n + 3) + 19 }

proof fn lemma_move_years(k: int, n: int)
    requires K0() <= k < 26400,
    ensures K0() <= k + 12 * n < 26400 ==> plus(first(k) + 19, n, TimeUnit::Years) == first(k + 12 * n) + 19,
{
    hide(ser); hide(mlen); hide(mi); hide(caldate::leap); hide(first);
    lemma_twentieth(k);
    if K0() <= k + 12 * n < 26400 { lemma_step(k + 12 * n); }
}
/// a 20th is the 20th of its year's month m exactly when it lies in that month
proof fn lemma_the_twentieth_of(s: int, m: int)
    requires MIN() <= s <= MAX(), dom_of(s) == 20, 1 <= m <= 12,
    ensures (s == ser(year_of(s), m, 20)) == (month_of(s) == m), 28 <= mlen(year_of(s), m), 1900 <= year_of(s) < 2200,
{
    hide(mi);
    lemma_this_month(s);
    let k = 12 * year_of(s) + m - 1;
    lemma_first_month();
    lemma_step(k);
    if k >= K0() { lemma_twentieth(k); }
}

//@fn src/instruments/creditdefaultswap.rs "" cds_maturity
//@partial
//@ret r
    requires wf(*trade_date),
    ensures
        rule == DateGenerationRule::CDS2015 || rule == DateGenerationRule::CDS || rule == DateGenerationRule::OldCDS,
        long(tenor), months(tenor) % 3 == 0,
        rule == DateGenerationRule::OldCDS ==> months(tenor) != 0,
        wf(r),
        // the null date: nothing left of the roll period
        r.s() == null() || (r.s() == matures(trade_date.s(), months(tenor), rule) && r.s() > trade_date.s()),
        r.s() == null() ==> rule == DateGenerationRule::CDS2015 && months(tenor) == 0 && matures(trade_date.s(), 0, rule) <= trade_date.s(),
//@top
        hide(ser); hide(mlen); hide(mi); hide(caldate::leap); hide(first);
        reveal(last_roll); reveal(month_until); reveal(shifted); reveal(shiftable);
        proof {
            let s = trade_date.s();
            lemma_this_month(s);
            let k = month_until(s, rule);
            if quarterly(rule) && k >= K0() {
                the_last_roll_is_the_latest(s, rule);
                lemma_twentieth(k);
                lemma_this_month(first(k) + 19);
                lemma_the_twentieth_of(first(k) + 19, 12);
                lemma_the_twentieth_of(first(k) + 19, 6);
                let n = months(tenor);
                let b = rolled(s, rule);
                assert(b == k || b == k - 3);
                assert(b == k - 3 <==> rule == DateGenerationRule::CDS2015 && (k + 1) % 6 == 0);
                if b >= K0() {
                    if b < k { lemma_move_twentieth(k, -3); lemma_twentieth(b); }
                    if K0() <= b + n < 26400 {
                        lemma_move_twentieth(b, n);
                        lemma_move_years(b, tenor.length as int);
                        lemma_twentieth(b + n);
                        if b + n + 3 < 26400 { lemma_move_twentieth(b + n, 3); lemma_twentieth(b + n + 3); }
                    }
                }
            }
        }
//@end
fn main() {}
}
