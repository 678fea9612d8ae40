use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
use core::ops::*;
use core::cmp::Ordering;

verus! {

//@include caldate.rs
use caldate::*;

pub type Integer = i32;
pub type Size = usize;
pub type Day = u32;
pub type Year = i32;
pub type Time = Real;

//@include real.rs

//@type src/datetime/timeunit.rs enum TimeUnit derive(Clone, Copy, Debug, PartialEq, Eq, Structural)

//@include date_base.rs
//@include date_methods.rs
//@include date_tables.rs
use Month::*;

impl Date {
    #[verifier::external_body]
    pub fn is_end_of_month(&self) -> (r: bool)
        requires wf(*self),
        ensures r == (self.s() == last_of(mi(self.s()))),
    { unimplemented!() }
}

pub open spec fn last_of_february(d: int, m: int, y: int) -> bool { m == 2 && d == mlen(y, 2) }
/// what a start and an end count as; a 31st that stays one counts like the 1st of the month that follows
pub open spec fn thirty(y1: int, m1: int, d1: int, y2: int, m2: int, d2: int) -> int { 360 * (y2 - y1) + 30 * (m2 - m1) + d2 - d1 }
pub open spec fn cap(d: int) -> int { if d == 31 { 30 } else { d } }
pub enum Rule { Us, Isma, Eu, It, Isda, Nasd, Plain }
pub open spec fn published(rule: Rule, a: int, b: int, termination: int) -> int {
    let (y1, m1, e1) = (year_of(a), month_of(a), dom_of(a));
    let (y2, m2, e2) = (year_of(b), month_of(b), dom_of(b));
    let (f1, f2) = (last_of_february(e1, m1, y1), last_of_february(e2, m2, y2));
    match rule {
        Rule::Us => thirty(y1, m1, if f1 { 30 } else { cap(e1) }, y2, m2, if (e2 == 31 && e1 >= 30) || (f1 && f2) { 30 } else { e2 }),
        Rule::Isma => thirty(y1, m1, cap(e1), y2, m2, if e1 >= 30 { cap(e2) } else { e2 }),
        Rule::Eu => thirty(y1, m1, cap(e1), y2, m2, cap(e2)),
        Rule::It => thirty(y1, m1, if m1 == 2 && e1 > 27 { 30 } else { cap(e1) }, y2, m2, if m2 == 2 && e2 > 27 { 30 } else { cap(e2) }),
        Rule::Isda => thirty(y1, m1, if f1 { 30 } else { cap(e1) }, y2, m2, if f2 && b != termination { 30 } else { cap(e2) }),
        Rule::Nasd => thirty(y1, m1, cap(e1), y2, m2, if e1 >= 30 { cap(e2) } else { e2 }),
        Rule::Plain => thirty(y1, m1, e1, y2, m2, e2),
    }
}
proof fn lemma_pair(a: int, b: int)
    requires MIN() <= a <= MAX(), MIN() <= b <= MAX(),
    ensures 1900 <= year_of(a) < 2200, 1900 <= year_of(b) < 2200, 1 <= month_of(a) <= 12, 1 <= month_of(b) <= 12,
        1 <= dom_of(a) <= 31, 1 <= dom_of(b) <= 31, month_of(a) == 2 ==> dom_of(a) <= 29, month_of(b) == 2 ==> dom_of(b) <= 29,
        28 <= mlen(year_of(a), 2) <= 29, 28 <= mlen(year_of(b), 2) <= 29,
        mlen(year_of(a), 2) == (if leap(year_of(a)) { 29int } else { 28 }), mlen(year_of(b), 2) == (if leap(year_of(b)) { 29int } else { 28 }),
{
    hide(ser);
    hide(mi);
    hide(first);
    lemma_mi(a);
    lemma_mi(b);
}

//@fn src/datetime/daycounters/thirty360.rs "" is_last_of_february
//@ret r
    requires 1900 <= y < 2200,
    ensures r == last_of_february(d as int, month_number(m), y as int),
//@end

//@type src/datetime/daycounters/thirty360.rs struct US derive(Clone, Copy)
impl US {
//@fn src/datetime/daycounters/thirty360.rs "impl US" day_count
//@ret r
    requires wf(*d1), wf(*d2),
    ensures r == published(Rule::Us, d1.s(), d2.s(), 0),
//@top
        hide(ser); hide(mi); hide(first); hide(mlen); hide(caldate::leap);
        proof { lemma_pair(d1.s(), d2.s()); }
//@end
//@fn src/datetime/daycounters/thirty360.rs "impl US" year_fraction
//@real
//@ret r
    requires wf(*d1), wf(*d2),
    ensures r.v() == published(Rule::Us, d1.s(), d2.s(), 0) as real / 360real,
//@top
        hide(published);
//@end
}
//@type src/datetime/daycounters/thirty360.rs struct ISMA derive(Clone, Copy)
impl ISMA {
//@fn src/datetime/daycounters/thirty360.rs "impl ISMA" day_count
//@ret r
    requires wf(*d1), wf(*d2),
    ensures r == published(Rule::Isma, d1.s(), d2.s(), 0),
//@top
        hide(ser); hide(mi); hide(first); hide(mlen); hide(caldate::leap);
        proof { lemma_pair(d1.s(), d2.s()); }
//@end
//@fn src/datetime/daycounters/thirty360.rs "impl ISMA" year_fraction
//@real
//@ret r
    requires wf(*d1), wf(*d2),
    ensures r.v() == published(Rule::Isma, d1.s(), d2.s(), 0) as real / 360real,
//@top
        hide(published);
//@end
}
//@type src/datetime/daycounters/thirty360.rs struct EU derive(Clone, Copy)
impl EU {
//@fn src/datetime/daycounters/thirty360.rs "impl EU" day_count
//@ret r
    requires wf(*d1), wf(*d2),
    ensures r == published(Rule::Eu, d1.s(), d2.s(), 0),
//@top
        hide(ser); hide(mi); hide(first); hide(mlen); hide(caldate::leap);
        proof { lemma_pair(d1.s(), d2.s()); }
//@end
//@fn src/datetime/daycounters/thirty360.rs "impl EU" year_fraction
//@real
//@ret r
    requires wf(*d1), wf(*d2),
    ensures r.v() == published(Rule::Eu, d1.s(), d2.s(), 0) as real / 360real,
//@top
        hide(published);
//@end
}
//@type src/datetime/daycounters/thirty360.rs struct IT derive(Clone, Copy)
impl IT {
//@fn src/datetime/daycounters/thirty360.rs "impl IT" day_count
//@ret r
    requires wf(*d1), wf(*d2),
    ensures r == published(Rule::It, d1.s(), d2.s(), 0),
//@top
        hide(ser); hide(mi); hide(first); hide(mlen); hide(caldate::leap);
        proof { lemma_pair(d1.s(), d2.s()); }
//@end
//@fn src/datetime/daycounters/thirty360.rs "impl IT" year_fraction
//@real
//@ret r
    requires wf(*d1), wf(*d2),
    ensures r.v() == published(Rule::It, d1.s(), d2.s(), 0) as real / 360real,
//@top
        hide(published);
//@end
}
//@type src/datetime/daycounters/thirty360.rs struct ISDA derive(Clone, Copy)
impl ISDA {
//@fn src/datetime/daycounters/thirty360.rs "impl ISDA" day_count
//@ret r
    requires wf(*d1), wf(*d2),
    ensures r == published(Rule::Isda, d1.s(), d2.s(), self.termination_date.s()),
//@top
        hide(ser); hide(mi); hide(first); hide(mlen); hide(caldate::leap);
        proof { lemma_pair(d1.s(), d2.s()); }
//@end
//@fn src/datetime/daycounters/thirty360.rs "impl ISDA" year_fraction
//@real
//@ret r
    requires wf(*d1), wf(*d2),
    ensures r.v() == published(Rule::Isda, d1.s(), d2.s(), self.termination_date.s()) as real / 360real,
//@top
        hide(published);
//@end
}
//@type src/datetime/daycounters/thirty360.rs struct NASD derive(Clone, Copy)
impl NASD {
//@fn src/datetime/daycounters/thirty360.rs "impl NASD" day_count
//@ret r
    requires wf(*d1), wf(*d2),
    ensures r == published(Rule::Nasd, d1.s(), d2.s(), 0),
//@top
        hide(ser); hide(mi); hide(first); hide(mlen); hide(caldate::leap);
        proof { lemma_pair(d1.s(), d2.s()); }
//@end
//@fn src/datetime/daycounters/thirty360.rs "impl NASD" year_fraction
//@real
//@ret r
    requires wf(*d1), wf(*d2),
    ensures r.v() == published(Rule::Nasd, d1.s(), d2.s(), 0) as real / 360real,
//@top
        hide(published);
//@end
}
//@type src/datetime/daycounters/thirty365.rs struct Thirty365 derive(Clone, Copy)
impl Thirty365 {
//@fn src/datetime/daycounters/thirty365.rs "impl Thirty365" day_count
//@ret r
    requires wf(*d1), wf(*d2),
    ensures r == published(Rule::Plain, d1.s(), d2.s(), 0),
//@top
        hide(ser); hide(mi); hide(first); hide(mlen); hide(caldate::leap);
        proof { lemma_pair(d1.s(), d2.s()); }
//@end
//@fn src/datetime/daycounters/thirty365.rs "impl Thirty365" year_fraction
//@real
//@ret r
    requires wf(*d1), wf(*d2),
    ensures r.v() == published(Rule::Plain, d1.s(), d2.s(), 0) as real / 365real,
//@top
        hide(published);
//@end
}

//@type src/datetime/daycounters/thirty360.rs enum Thiry360Convention derive(Clone, Copy)
//@type src/datetime/daycounters/thirty360.rs struct Thirty360 derive(Clone, Copy)
pub open spec fn rule_of(c: Thirty360) -> Rule {
    match c.convention {
        Thiry360Convention::US(_) => Rule::Us,
        Thiry360Convention::ISMA(_) => Rule::Isma,
        Thiry360Convention::EU(_) => Rule::Eu,
        Thiry360Convention::IT(_) => Rule::It,
        Thiry360Convention::ISDA(_) => Rule::Isda,
        Thiry360Convention::NASD(_) => Rule::Nasd,
    }
}
pub open spec fn termination_of(c: Thirty360) -> int {
    match c.convention { Thiry360Convention::ISDA(i) => i.termination_date.s(), _ => 0 }
}
impl Thirty360 {
//@fn src/datetime/daycounters/thirty360.rs "impl Thirty360" day_count
//@ret r
    requires wf(*d1), wf(*d2),
    ensures r == published(rule_of(*self), d1.s(), d2.s(), termination_of(*self)),
//@top
        hide(ser); hide(mi); hide(first); hide(mlen); hide(caldate::leap);
//@end
//@fn src/datetime/daycounters/thirty360.rs "impl Thirty360" year_fraction
//@real
//@ret r
    requires wf(*d1), wf(*d2),
    ensures r.v() == published(rule_of(*self), d1.s(), d2.s(), termination_of(*self)) as real / 360real,
//@top
        hide(ser); hide(mi); hide(first); hide(mlen); hide(caldate::leap);
//@end
}

// --- the simple counter: exact for whole months, otherwise 30/360 Bond Basis
//@type src/datetime/daycounters/simple.rs struct Simple derive(Clone, Copy)
pub open spec fn whole_months(a: int, b: int) -> bool {
    dom_of(a) == dom_of(b) || (dom_of(a) > dom_of(b) && b == last_of(mi(b))) || (dom_of(a) < dom_of(b) && a == last_of(mi(a)))
}
impl Simple {
//@fn src/datetime/daycounters/simple.rs "impl Simple" new
//@ret r
    ensures rule_of(r.fallback) == Rule::Isma,
//@end
//@fn src/datetime/daycounters/simple.rs "impl Simple" day_count
//@ret r
    requires wf(*d1), wf(*d2), rule_of(self.fallback) == Rule::Isma,
    ensures r == published(Rule::Isma, d1.s(), d2.s(), 0),
//@top
        hide(ser); hide(mi); hide(first); hide(mlen); hide(caldate::leap);
//@end
//@fn src/datetime/daycounters/simple.rs "impl Simple" year_fraction
//@real
//@ret r
    requires wf(*d1), wf(*d2), rule_of(self.fallback) == Rule::Isma,
    ensures r.v() == if whole_months(d1.s(), d2.s()) { (mi(d2.s()) - mi(d1.s())) as real / 12real } else { published(Rule::Isma, d1.s(), d2.s(), 0) as real / 360real },
//@top
        hide(ser); hide(mi); hide(first); hide(mlen); hide(caldate::leap); hide(published);
        proof { lemma_mi(d1.s()); lemma_mi(d2.s()); }
//@end
}
fn main() {}
}
