use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
use core::ops::*;
use core::cmp::Ordering;

verus! {

//@include caldate.rs
use caldate::*;

pub type Integer = i32;
pub type Size = usize;
pub type Day = u32;
pub type Year = i32;

//@type src/datetime/timeunit.rs enum TimeUnit derive(Clone, Copy, Debug, PartialEq, Eq, Structural)
//@type src/datetime/period.rs struct Period derive(Clone, Copy, Debug)
//@type src/datetime/businessdayconvention.rs enum BusinessDayConvention derive(Clone, Copy, Debug, PartialEq, Eq, Structural)
//@type src/datetime/dategenerationrule.rs enum DateGenerationRule derive(Clone, Copy, Debug, PartialEq, Eq, Structural)
use TimeUnit::*;

//@include date_base.rs
//@include date_methods.rs
use Weekday::*;

//@include date_partial.rs
impl MulSpecImpl<i32> for Period {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, n: i32) -> bool { i32::MIN <= self.length * n <= i32::MAX }
    open spec fn mul_spec(self, n: i32) -> Period { Period { length: (self.length * n) as i32, unit: self.unit } }
}
impl Mul<i32> for Period {
    type Output = Period;
    #[verifier::external_body]
    fn mul(self, n: i32) -> Period { unimplemented!() }
}
// --- calendars: the contracts of C07
#[verifier::external_body]
pub struct Calendar { _p: u8 }
/// the date a convention defines
pub uninterp spec fn adjusted(c: Calendar, s: int, conv: BusinessDayConvention) -> int;
/// no business day of the month comes after s
pub uninterp spec fn at_end_of_month(c: Calendar, s: int) -> bool;
/// the last business day up to the end of the month
pub uninterp spec fn last_business_day(c: Calendar, s: int) -> int;
/// the calendar on which every day is a business day (unit `calendar`: the_open_calendar_moves_dates_alone)
pub uninterp spec fn open_calendar() -> Calendar;
#[verifier::opaque]
pub open spec fn moved(s: int, n: int, u: TimeUnit, eom: bool) -> int {
    if n == 0 { s }
    else if eom && (u == TimeUnit::Months || u == TimeUnit::Years) && s == last_of(mi(s)) { last_of(mi(plus(s, n, u))) }
    else { plus(s, n, u) }
}
pub struct NilHoliday { }
impl NilHoliday {
    #[verifier::external_body]
    pub fn new() -> (r: Calendar)
        ensures r == open_calendar(),
    { unimplemented!() }
}
impl NilHoliday {
//@fn src/datetime/holidays/nilholiday.rs "impl NilHoliday" is_business_day
//@ret r
    ensures r,
//@end
}
impl Calendar {
    #[verifier::external_body]
    pub fn adjust(&self, date: Date, convention: BusinessDayConvention) -> (r: Date)
        requires wf(date),
        ensures wf(r), r.s() == adjusted(*self, date.s(), convention),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_end_of_month(&self, date: &Date) -> (r: bool)
        requires wf(*date),
        ensures r == at_end_of_month(*self, date.s()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn end_of_month(&self, date: &Date) -> (r: Date)
        requires wf(*date),
        ensures wf(r), r.s() == last_business_day(*self, date.s()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn advance_by_period(&self, date: Date, period: Period, convention: BusinessDayConvention, end_of_month: bool) -> (r: Date)
        requires wf(date), period.length > i32::MIN, period.length != 0,
        ensures
            wf(r),
            *self == open_calendar() ==> shiftable(date.s(), period.length as int, period.unit) && r.s() == moved(date.s(), period.length as int, period.unit, end_of_month),
    { unimplemented!() }
}
// --- IMM dates: the contract of C11
//@type src/context/pricing_context.rs struct PricingContext derive(Clone, Copy, Debug)
/// third Wednesdays, of a quarter month for the main cycle
#[verifier::opaque]
pub open spec fn imm(s: int, main_cycle: bool) -> bool {
    weekday_at(s) == Weekday::Wednesday && 15 <= dom_of(s) <= 21 && (main_cycle ==> month_of(s) % 3 == 0)
}
pub struct IMM { pub pricing_context: PricingContext }
impl IMM {
    #[verifier::external_body]
    pub fn new(pricing_context: PricingContext) -> (r: IMM) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_imm_date(&self, date: &Date, main_cycle: bool) -> (r: bool)
        requires wf(*date),
        ensures r == imm(date.s(), main_cycle),
    { unimplemented!() }
}

//@include twentieth.rs
// ------------------------------------------------------------------ what the terms of a schedule stand for
/// the terms: dates as serial numbers, the null date for a stub that was not asked for
pub struct Terms {
    pub e: int, pub t: int, pub n: int, pub u: TimeUnit, pub cal: Calendar, pub conv: BusinessDayConvention, pub tconv: BusinessDayConvention,
    pub rule: DateGenerationRule, pub eom: bool, pub first: int, pub last: int,
}
/// dates in order, and a flag for each period between two of them
pub struct Raw { pub d: Seq<Date>, pub f: Seq<bool> }
impl Raw {
    pub open spec fn front(self, x: int, flag: bool) -> Raw { Raw { d: self.d.insert(0, day(x)), f: self.f.insert(0, flag) } }
    pub open spec fn back(self, x: int, flag: bool) -> Raw { Raw { d: self.d.push(day(x)), f: self.f.push(flag) } }
    pub open spec fn a(self) -> int { self.d[0].s() }
    pub open spec fn b(self) -> int { self.d[self.d.len() - 1].s() }
    /// a flag per period
    pub open spec fn ok(self) -> bool { self.d.len() >= 1 && self.f.len() == self.d.len() - 1 && forall|i: int| 0 <= i < self.d.len() ==> wf(#[trigger] self.d[i]) }
}
impl Terms {
    /// k tenors from the anchor
    pub open spec fn step(self, anchor: int, k: int) -> int { moved(anchor, self.n * k, self.u, self.eom) }
    pub open spec fn adj(self, s: int) -> int { adjusted(self.cal, s, self.conv) }
    pub open spec fn tadj(self, s: int) -> int { adjusted(self.cal, s, self.tconv) }
    /// the steps from the k-th on back to the floor, a step that adjusts to the same date as the one after it being left out
    /// (no schedule has 200000 periods)
    #[verifier::opaque]
pub open spec fn behind(self, anchor: int, floor: int, k: int, r: Raw) -> Raw
        decreases 200000 - k,
    {
        let x = self.step(anchor, -k);
        if x < floor || k >= 200000 { r }
        else if self.adj(r.a()) != self.adj(x) { self.behind(anchor, floor, k + 1, r.front(x, true)) }
        else { self.behind(anchor, floor, k + 1, r) }
    }
    #[verifier::opaque]
pub open spec fn ahead(self, anchor: int, ceiling: int, k: int, r: Raw) -> Raw
        decreases 200000 - k,
    {
        let x = self.step(anchor, k);
        if x > ceiling || k >= 200000 { r }
        else if self.adj(r.b()) != self.adj(x) { self.ahead(anchor, ceiling, k + 1, r.back(x, true)) }
        else { self.ahead(anchor, ceiling, k + 1, r) }
    }
    #[verifier::opaque]
    pub open spec fn the_end(self) -> Raw {
        let r = Raw { d: seq![day(self.t)], f: seq![] };
        if self.last != null() { r.front(self.last, self.step(self.t, -1) == self.last) } else { r }
    }
    /// the dates of a backward schedule before adjustment: the termination date, the next to last date, steps from there, the first date, the effective date
    #[verifier::opaque]
    pub open spec fn from_the_end(self) -> Raw {
        let r = self.behind(if self.last != null() { self.last } else { self.t }, if self.first != null() { self.first } else { self.e }, 1, self.the_end());
        let r = if self.first != null() && self.adj(r.a()) != self.adj(self.first) { r.front(self.first, false) } else { r };
        if self.adj(r.a()) != self.adj(self.e) { r.front(self.e, false) } else { r }
    }
    /// where a schedule on the 20ths starts stepping
    pub open spec fn roll(self) -> int {
        let x = next_roll(self.e, self.rule);
        if self.rule == DateGenerationRule::OldCDS && x - self.e < 30 { next_roll(x + 1, self.rule) } else { x }
    }
    #[verifier::opaque]
    pub open spec fn opening(self) -> Raw {
        let p = last_roll(self.e, self.rule);
        if cds(self.rule) {
            if self.adj(p) > self.e { Raw { d: seq![day(shifted(p, -3, TimeUnit::Months)), day(p)], f: seq![true] } } else { Raw { d: seq![day(p)], f: seq![] } }
        } else { Raw { d: seq![day(self.e)], f: seq![] } }
    }
    #[verifier::opaque]
    pub open spec fn rolls(self) -> bool { self.first == null() && on_the_twentieth(self.rule) && self.roll() != self.e }
    #[verifier::opaque]
    pub open spec fn anchor(self) -> int {
        if self.rule == DateGenerationRule::Zero { null() }
        else if self.rule == DateGenerationRule::Backward { if self.last != null() { self.last } else { self.t } }
        else if self.first != null() { self.first } else if self.rolls() { self.roll() } else { self.opening().b() }
    }
    #[verifier::opaque]
    pub open spec fn the_start(self) -> Raw {
        let r = self.opening();
        if self.first != null() { r.back(self.first, self.step(r.b(), 1) == self.first) }
        else if self.rolls() { r.back(self.roll(), cds(self.rule)) }
        else { r }
    }
    #[verifier::opaque]
    pub open spec fn from_the_start(self) -> Raw {
        let r = self.ahead(self.anchor(), if self.last != null() { self.last } else { self.t }, 1, self.the_start());
        let r = if self.last != null() && self.adj(r.b()) != self.adj(self.last) { r.back(self.last, false) } else { r };
        if self.tadj(r.b()) == self.tadj(self.t) { r }
        else if on_the_twentieth(self.rule) { r.back(next_roll(self.t, self.rule), true) }
        else { r.back(self.t, false) }
    }
    /// the dates before adjustment
    #[verifier::opaque]
    pub open spec fn raw(self) -> Raw {
        if self.rule == DateGenerationRule::Zero { Raw { d: seq![day(self.e), day(self.t)], f: seq![true] } }
        else if self.rule == DateGenerationRule::Backward { self.from_the_end() }
        else { self.from_the_start() }
    }
    /// third Wednesdays
    #[verifier::opaque]
    pub open spec fn wednesdays(self, d: Seq<Date>) -> Seq<Date> {
        Seq::new(d.len(), |i: int|
            if self.rule == DateGenerationRule::ThirdWednesdayInclusive || (self.rule == DateGenerationRule::ThirdWednesday && 0 < i < d.len() - 1) { day(third_wednesday(d[i].s())) }
            else { d[i] })
    }
    pub open spec fn at_month_ends(self) -> bool { self.eom && at_end_of_month(self.cal, self.anchor()) }
    pub open spec fn month_end(self, s: int, c: BusinessDayConvention) -> int {
        if c == BusinessDayConvention::Unadjusted { last_of(mi(s)) } else { last_business_day(self.cal, s) }
    }
    /// the ends of a month-end schedule: without an adjustment of the termination date only the end it steps from moves
    pub open spec fn opens(self, s: int) -> int { if self.tconv == BusinessDayConvention::Unadjusted && self.rule == DateGenerationRule::Backward { s } else { self.month_end(s, self.tconv) } }
    pub open spec fn closes(self, s: int) -> int { if self.tconv == BusinessDayConvention::Unadjusted && self.rule != DateGenerationRule::Backward { s } else { self.month_end(s, self.tconv) } }
    #[verifier::opaque]
    pub open spec fn placed(self, d: Seq<Date>) -> Seq<Date> {
        let w = self.wednesdays(d);
        let n = d.len() - 1;
        if self.at_month_ends() {
            let (a, b) = (self.opens(w[0].s()), self.closes(w[n].s()));
            Seq::new(d.len(), |i: int|
                if i == 0 { if a != b { day(a) } else { w[i] } } else if i == n { if a != b { day(b) } else { w[i] } }
                else { day(self.month_end(w[i].s(), self.conv)) })
        } else {
            Seq::new(d.len(), |i: int|
                if i == n { if self.tconv == BusinessDayConvention::Unadjusted || cds(self.rule) { w[i] } else { day(self.tadj(w[i].s())) } }
                else if i == 0 && self.rule == DateGenerationRule::OldCDS { w[i] }
                else { day(self.adj(w[i].s())) })
        }
    }
    pub open spec fn stepping(self) -> bool { self.rule == DateGenerationRule::Backward || self.rule == DateGenerationRule::Forward }
    /// the terms are consistent
    pub open spec fn sound(self) -> bool { self.ordered() && (self.eom ==> self.stepping() || self.rule == DateGenerationRule::Zero) }
    pub open spec fn ordered(self) -> bool {
        let stepping = self.stepping();
        &&& self.t != null() && self.e < self.t && self.n >= 0 && (self.n == 0 ==> self.rule == DateGenerationRule::Zero)
        &&& self.first != null() ==> (stepping && self.e < self.first <= self.t) || (self.rule == DateGenerationRule::ThirdWednesday && imm(self.first, false))
        &&& self.last != null() ==> (stepping && self.e <= self.last < self.t) || (self.rule == DateGenerationRule::ThirdWednesday && imm(self.last, false))
        &&& self.first != null() && self.last != null() ==> self.first <= self.last
    }
}
/// truncated division
pub open spec fn quot(a: int, b: int) -> int { if a >= 0 { a / b } else { -((-a) / b) } }
/// the day from 15 to 21 of the month that is a Wednesday
#[verifier::opaque]
pub open spec fn third_wednesday(s: int) -> int {
    let f = first(mi(s)) + 14;
    f + (4 + 7 - f % 7) % 7
}
proof fn lemma_third_wednesday(s: int, r: int)
    requires s >= 2, r >= 2, mi(r) == mi(s), 15 <= dom_of(r) <= 21, weekday_at(r) == Weekday::Wednesday,
    ensures r == third_wednesday(s),
{
    hide(ser); hide(mlen); hide(mi); hide(caldate::leap); hide(first); reveal(third_wednesday);
    let f = first(mi(s)) + 14;
    assert(f <= r <= f + 6);
    assert(r % 7 == 4);
}
/// the terms of a call: an effective date left out of a backward schedule is whole years back from the end, before the evaluation date
pub open spec fn effective(eval: int, e: int, t: int, rule: DateGenerationRule, first: int, last: int) -> int {
    if e == null() && first == null() && rule == DateGenerationRule::Backward {
        let x = if last != null() { last } else { t };
        shifted(x, -(quot(x - eval, 366) + 1), TimeUnit::Years)
    } else { e }
}
pub open spec fn terms(eval: int, e: int, t: int, tenor: Period, cal: Calendar, conv: BusinessDayConvention, tconv: BusinessDayConvention, rule: DateGenerationRule, eom: bool, first: int, last: int) -> Terms {
    Terms {
        e: effective(eval, e, t, rule, first, last), t: t, n: tenor.length as int, u: tenor.unit, cal: cal, conv: conv, tconv: tconv,
        rule: if tenor.length == 0 { DateGenerationRule::Zero } else { rule },
        eom: eom && (tenor.unit == TimeUnit::Months || tenor.unit == TimeUnit::Years) && tenor.length >= 1,
        first: if first == e { null() } else { first }, last: if last == t { null() } else { last },
    }
}
pub open spec fn increasing(x: Seq<Date>) -> bool { forall |i: int, j: int| 0 <= i < j < x.len() ==> (#[trigger] x[i]).s() < (#[trigger] x[j]).s() }
/// n steps move by at least n days
proof fn lemma_steps(s: int, n: int, u: TimeUnit, eom: bool)
    requires MIN() <= s <= MAX(), n > 0,
    ensures shiftable(s, -n, u) ==> moved(s, -n, u, eom) <= s - n, shiftable(s, n, u) ==> moved(s, n, u, eom) >= s + n,
{
    hide(ser); hide(mlen); hide(mi); hide(caldate::leap); hide(first); reveal(moved); reveal(shiftable);
    let m = if u == TimeUnit::Years { 12 * n } else { n };
    if u == TimeUnit::Months || u == TimeUnit::Years {
        lemma_months(s, m, eom);
    }
}
proof fn lemma_months(s: int, m: int, eom: bool)
    requires MIN() <= s <= MAX(), m > 0,
    ensures
        mi(s) - m >= K0() ==> in_that_month(mi(s) - m, dom_of(s)) <= s - m && last_of(mi(in_that_month(mi(s) - m, dom_of(s)))) <= s - m,
        mi(s) + m < 26400 ==> in_that_month(mi(s) + m, dom_of(s)) >= s + m && last_of(mi(in_that_month(mi(s) + m, dom_of(s)))) >= s + m,
{
    hide(ser); hide(mlen); hide(mi); hide(caldate::leap); hide(first);
    lemma_this_month(s);
    let k = mi(s);
    let d = dom_of(s);
    lemma_mi(s);
    lemma_step(k);
    if k - m >= K0() {
        lemma_step(k - m);
        lemma_first_month();
        if k - m > K0() { lemma_mono(K0(), k - m); }
        lemma_unique(in_that_month(k - m, d), k - m);
        if m > 1 { lemma_mono(k - m + 1, k); }
    }
    if k + m < 26400 {
        lemma_step(k + m);
        lemma_first_month();
        lemma_mono(k, k + m);
        lemma_unique(in_that_month(k + m, d), k + m);
        if m > 1 { lemma_mono(k + 1, k + m); }
    }
}
pub open spec fn in_that_month(k: int, d: int) -> int { first(k) + (if d < len(k) { d } else { len(k) }) - 1 }

// ------------------------------------------------------------------ the generator
//@type src/datetime/schedule.rs struct Schedule
//@include period_spec.rs
pub open spec fn fits(n: int) -> bool { -0x8000_0000 < n < 0x8000_0000 }
pub open spec fn small(p: Period) -> bool { calendar_unit(p.unit) && fits(366 * p.length) }
pub uninterp spec fn compared(p: Period, q: Period) -> Option<Ordering>;
pub open spec fn period_order(p: Period, q: Period) -> Option<Ordering> {
    if small(p) && small(q) && !dayish(p.unit) && !dayish(q.unit) {
        if months_of(p) < months_of(q) { Some(Ordering::Less) } else if months_of(p) == months_of(q) { Some(Ordering::Equal) } else { Some(Ordering::Greater) }
    } else { compared(p, q) }
}
// the contract of C14 (unit period_order) for periods in months and years, whose lengths in days can be written down
impl PartialEqSpecImpl for Period {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Period) -> bool { period_order(*self, *o) == Some(Ordering::Equal) }
}
impl PartialEq for Period {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> bool { unimplemented!() }
}
impl PartialOrdSpecImpl for Period {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Period) -> Option<Ordering> { period_order(*self, *o) }
}
impl PartialOrd for Period {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> { unimplemented!() }
}
//@fn src/datetime/schedule.rs "" allows_end_of_month
//@ret r
    requires small(*tenor),
    ensures r == ((tenor.unit == TimeUnit::Months || tenor.unit == TimeUnit::Years) && tenor.length >= 1),
//@end
pub open spec fn well_formed(d: Seq<Date>) -> bool { forall|i: int| 0 <= i < d.len() ==> wf(#[trigger] d[i]) }
pub open spec fn no_later(x: Seq<Date>) -> bool { forall |i: int, j: int| 0 <= i < j < x.len() ==> (#[trigger] x[i]).s() <= (#[trigger] x[j]).s() }
/// the dates strictly between the ends are in order up to the n-th
pub open spec fn ordered(x: Seq<Date>, a: int, b: int) -> bool { forall |i: int, j: int| a <= i < j < b ==> (#[trigger] x[i]).s() < (#[trigger] x[j]).s() }
pub open spec fn among(x: Seq<Date>, p: Seq<Date>) -> bool { forall|i: int| 0 <= i < x.len() ==> p.contains(#[trigger] x[i]) }
/// what is left of placed dates p (with flags f) once dates that coincide or have changed places are merged
#[verifier::opaque]
pub open spec fn merging(p: Seq<Date>, f: Seq<bool>, x: Seq<Date>, g: Seq<bool>) -> bool {
    &&& 1 <= x.len() <= p.len() && g.len() == x.len() - 1
    &&& among(x, p)
    &&& x.len() >= 2 ==> x[0] == p[0] && x[x.len() - 1] == p[p.len() - 1]
    &&& increasing(p) ==> x == p && g == f
    &&& no_later(p) ==> no_later(x) && among(p, x)
}
proof fn lemma_removed(x: Seq<Date>, i: int, p: Seq<Date>)
    requires 0 <= i < x.len(), among(x, p),
    ensures among(x.remove(i), p), no_later(x) ==> no_later(x.remove(i)),
{
    let y = x.remove(i);
    assert forall|k: int| 0 <= k < y.len() implies p.contains(#[trigger] y[k]) by {
        if k < i { assert(y[k] == x[k]); } else { assert(y[k] == x[k + 1]); }
    }
    if no_later(x) {
        assert forall|a: int, b: int| 0 <= a < b < y.len() implies (#[trigger] y[a]).s() <= (#[trigger] y[b]).s() by {
            assert(y[a] == x[if a < i { a } else { a + 1 }] && y[b] == x[if b < i { b } else { b + 1 }]);
        }
    }
}
proof fn lemma_still_there(x: Seq<Date>, i: int, p: Seq<Date>)
    requires 0 <= i < x.len(), among(p, x), (i > 0 && x[i] == x[i - 1]) || (i + 1 < x.len() && x[i] == x[i + 1]),
    ensures among(p, x.remove(i)),
{
    let y = x.remove(i);
    assert forall|k: int| 0 <= k < p.len() implies y.contains(#[trigger] p[k]) by {
        let d = p[k];
        assert(x.contains(d));
        let m = choose|m: int| 0 <= m < x.len() && x[m] == d;
        if m < i { assert(y[m] == d); }
        else if m > i { assert(y[m - 1] == d); }
        else if i > 0 && x[i] == x[i - 1] { assert(y[i - 1] == d); }
        else { assert(y[i] == x[i + 1]); }
    }
}
/// a date that is not after its neighbour on the left, or not before the one on the right, is left out
proof fn lemma_merge(p: Seq<Date>, f: Seq<bool>, x: Seq<Date>, g: Seq<bool>, i: int, x2: Seq<Date>, g2: Seq<bool>)
    requires
        merging(p, f, x, g), x.len() >= 2, 0 <= i < x.len(), x.len() == 2 || 0 < i < x.len() - 1,
        (i > 0 && x[i].s() <= x[i - 1].s()) || (i + 1 < x.len() && x[i].s() >= x[i + 1].s()),
        x2 == x.remove(i), g2.len() == g.len() - 1,
    ensures merging(p, f, x2, g2),
{
    reveal(merging);
    lemma_removed(x, i, p);
    assert(!increasing(x)) by {
        if increasing(x) {
            if i > 0 && x[i].s() <= x[i - 1].s() { assert(x[i - 1].s() < x[i].s()); } else { assert(x[i].s() < x[i + 1].s()); }
        }
    }
    if no_later(p) {
        if i > 0 { assert(x[i - 1].s() <= x[i].s()); }
        if i + 1 < x.len() { assert(x[i].s() <= x[i + 1].s()); }
        lemma_still_there(x, i, p);
    }
    if x2.len() >= 2 {
        assert(x2[0] == x[0]);
        assert(x2[x2.len() - 1] == x[x.len() - 1]);
    }
}
pub open spec fn raw(s: Schedule) -> Raw { Raw { d: s.dates@, f: s.is_regular@ } }
/// what a schedule keeps of its terms
pub open spec fn keeps(s: Schedule, g: Terms, tenor: Period, context: PricingContext) -> bool {
    keeps_terms(s, g, context) && s.tenor == (if g.rule == DateGenerationRule::Zero { Period { length: 0, unit: TimeUnit::Years } } else { tenor })
}
pub open spec fn keeps_terms(s: Schedule, g: Terms, context: PricingContext) -> bool {
    &&& s.pricing_context == context && s.calendar == g.cal && s.convention == g.conv && s.termination_date_convention == g.tconv
    &&& s.rule == g.rule && s.end_of_month == g.eom && s.first_date.s() == g.first && s.next_to_last_date.s() == g.last
}
/// the terms as the generator holds them
pub open spec fn held(g: Terms, tenor: Period, conv: BusinessDayConvention, none: Calendar) -> bool {
    small(tenor) && tenor.length > 0 && g.n == tenor.length && g.u == tenor.unit && conv == g.conv && none == open_calendar()
        && in_range(g.first) && in_range(g.last) && g.rule != DateGenerationRule::Zero
}
proof fn lemma_times(n: int, k: int)
    ensures n * k == n * (k - 1) + n, n * (-k) == -(n * k), n >= 1 && k >= 1 ==> n * k >= k, n * (-1) == -n, n * 1 == n,
{
    assert(n * k == n * (k - 1) + n && n * (-k) == -(n * k)) by (nonlinear_arith);
    if n >= 1 && k >= 1 { assert(n * k >= k) by (nonlinear_arith) requires n >= 1, k >= 1; }
}
pub open spec fn in_range(s: int) -> bool { MIN() <= s <= MAX() }

/// C16: what a generated schedule is.  A call with other terms than sound ones does not return.
pub open spec fn generated(r: Schedule, context: PricingContext, e: int, t: int, tenor: Period, cal: Calendar, conv: BusinessDayConvention, tconv: BusinessDayConvention,
        rule: DateGenerationRule, eom: bool, first: int, last: int) -> bool {
    let goal = terms(context.eval_date.s(), e, t, tenor, cal, conv, tconv, rule, eom, first, last);
    &&& goal.sound() && keeps(r, goal, tenor, context)
    &&& e != null() || (first == null() && rule == DateGenerationRule::Backward && context.eval_date.s() < t)
    // from the adjusted effective date to the adjusted termination date by tenor steps from the anchor, in order,
    // with a flag per period; where adjustment makes dates coincide they are merged
    &&& r.dates.len() >= 2 && increasing(r.dates@)
    &&& merging(goal.placed(goal.raw().d), goal.raw().f, r.dates@, r.is_regular@)
}
impl Schedule {
//@fn src/datetime/schedule.rs "impl Schedule" new
//@partial
//@indexed
//@attr #[verifier::rlimit(40)] #[verifier::spinoff_prover]
//@sub "*result.dates.first().unwrap()" => "result.dates[0]"
//@sub "for i in 1..result.dates.len() - 1" => "let the_end = result.dates.len() - 1; for i in 1..the_end"
//@sub "for d_i in 0..result.dates.len()" => "let the_end = result.dates.len(); for d_i in 0..the_end"
//@ret r
    requires
        wf(pricing_context.eval_date), wf(effective_date), wf(termination_date), wf(first), wf(next_to_last), small(tenor),
    ensures generated(r, pricing_context, effective_date.s(), termination_date.s(), tenor, calendar, convention, termination_date_convention, date_generation_rule, eom, first.s(), next_to_last.s()),
//@top
        let ghost goal = terms(pricing_context.eval_date.s(), effective_date.s(), termination_date.s(), tenor, calendar, convention, termination_date_convention, date_generation_rule, eom, first.s(), next_to_last.s());
//@before "let nil_holiday"
        assert(effective_date.s() == goal.e);
        assert(goal.ordered());
        assert(keeps_terms(result, goal, pricing_context));
//@before "match result.rule { DateGenerationRule::Zero => { result.tenor"
        // (a block wrapped in a loop that runs once is an obligation of its own)
        loop
            invariant_except_break
                periods == 1, result.dates.len() == 0, result.is_regular.len() == 0, result.tenor == tenor, seed.s() == null(),
            invariant
                keeps_terms(result, goal, pricing_context), goal.ordered(), goal.n == tenor.length, goal.u == tenor.unit, small(tenor), nil_holiday == open_calendar(),
                wf(effective_date), wf(termination_date), effective_date.s() == goal.e, termination_date.s() == goal.t,
                wf(result.first_date), wf(result.next_to_last_date), convention == goal.conv,
            ensures
                goal.sound(), keeps(result, goal, tenor, pricing_context), raw(result) == goal.raw(), raw(result).ok(), wf(seed), seed.s() == goal.anchor(),
            decreases 1int,
        {
        proof { lemma_times(tenor.length as int, 1); }
//@before "exit_date = effective_date;"
        assert(raw(result) == goal.the_end()) by { reveal(Terms::the_end); assert(result.is_regular@ =~= goal.the_end().f); assert(result.dates@ =~= goal.the_end().d); }
        assert(seed.s() == goal.anchor() && wf(seed)) by { reveal(Terms::anchor); }
//@after "exit_date = effective_date;"
        let ghost start = raw(result);
        proof { assert(start.ok()); }
        let ghost floor = if goal.first != null() { goal.first } else { goal.e };
        let ghost walk = goal.behind(seed.s(), floor, 1, start);
//@loop 0 "loop"
            invariant_except_break
                goal.behind(seed.s(), floor, periods as int, raw(result)) == walk,
            invariant
                held(goal, tenor, convention, nil_holiday), keeps(result, goal, tenor, pricing_context), goal.rule == DateGenerationRule::Backward,
                wf(seed), wf(exit_date), exit_date.s() == floor, seed.s() == goal.anchor(),
                1 <= periods <= 150000, goal.n * (periods - 1) <= MAX(),
                raw(result).ok(),
            ensures
                raw(result) == (if goal.first != null() && goal.adj(walk.a()) != goal.adj(goal.first) { walk.front(goal.first, false) } else { walk }),
            decreases 200000 - periods,
//@loopbody 0
        reveal(moved); reveal_with_fuel(Terms::behind, 1);
        let ghost was = raw(result);
        proof { lemma_times(goal.n, periods as int); }
//@loopend 0
        proof {
            let k = periods - 1;
            lemma_times(goal.n, k);
            lemma_steps(seed.s(), goal.n * k, goal.u, goal.eom);
            assert(temp.s() == goal.step(seed.s(), -k));
            assert(goal.n * k <= MAX());
        }
//@before "seed = result.dates[result.dates.len() - 1];"
        assert(raw(result).ok());
        assert(raw(result) == goal.opening()) by { reveal(Terms::opening); assert(result.is_regular@ =~= goal.opening().f); assert(result.dates@ =~= goal.opening().d); }
//@before "exit_date = termination_date;"
        assert(raw(result).ok());
        assert(raw(result) == goal.the_start()) by { reveal(Terms::the_start); reveal(Terms::rolls); assert(result.is_regular@ =~= goal.the_start().f); assert(result.dates@ =~= goal.the_start().d); }
        assert(seed.s() == goal.anchor() && wf(seed)) by { reveal(Terms::anchor); reveal(Terms::rolls); }
//@after "exit_date = termination_date;"
        let ghost start = raw(result);
        let ghost ceiling = if goal.last != null() { goal.last } else { goal.t };
        let ghost walk = goal.ahead(seed.s(), ceiling, 1, start);
//@loop 1 "loop"
            invariant_except_break
                goal.ahead(seed.s(), ceiling, periods as int, raw(result)) == walk,
            invariant
                held(goal, tenor, convention, nil_holiday), keeps(result, goal, tenor, pricing_context), goal.rule != DateGenerationRule::Backward,
                wf(seed), wf(exit_date), exit_date.s() == ceiling, seed.s() == goal.anchor(),
                1 <= periods <= 150000, goal.n * (periods - 1) <= MAX(),
                raw(result).ok(),
            ensures
                raw(result) == (if goal.last != null() && goal.adj(walk.b()) != goal.adj(goal.last) { walk.back(goal.last, false) } else { walk }),
            decreases 200000 - periods,
//@loopbody 1
        reveal(moved); reveal_with_fuel(Terms::ahead, 1);
        let ghost was = raw(result);
        proof { lemma_times(goal.n, periods as int); }
//@loopend 1
        proof {
            let k = periods - 1;
            lemma_times(goal.n, k);
            lemma_steps(seed.s(), goal.n * k, goal.u, goal.eom);
            assert(temp.s() == goal.step(seed.s(), k));
            assert(goal.n * k <= MAX());
        }
//@past "result.dates.push(termination_date); result.is_regular.push(true);"
        assert(raw(result) == goal.raw() && raw(result).ok()) by { reveal(Terms::raw); assert(result.dates@ =~= seq![day(goal.e), day(goal.t)]); assert(result.is_regular@ =~= seq![true]); }
        assert(seed.s() == goal.anchor() && wf(seed)) by { reveal(Terms::anchor); }
//@past "result.dates.insert(0, effective_date); result.is_regular.insert(0, false); }"
        assert(raw(result) == goal.raw() && raw(result).ok()) by { reveal(Terms::raw); reveal(Terms::from_the_end); }
//@past "result.dates.push(termination_date); result.is_regular.push(false); } }"
        assert(raw(result) == goal.raw() && raw(result).ok()) by { reveal(Terms::raw); reveal(Terms::from_the_start); }
//@past "result.dates[len - 1] = d2; }"
        assert(made.d.len() >= 2 ==> result.dates@ =~= placed) by { reveal(Terms::placed); }
//@past "adjust(result.dates[len - 1], termination_date_convention); }"
        assert(made.d.len() >= 2 ==> result.dates@ =~= placed) by { reveal(Terms::placed); }
//@before "if result.rule == DateGenerationRule::ThirdWednesday {"
        break;
        }
        let ghost made = goal.raw();
        let ghost w = goal.wednesdays(made.d);
        let ghost placed = goal.placed(made.d);
        loop
            invariant_except_break
                raw(result) == made,
            invariant
                made.ok(), w == goal.wednesdays(made.d), keeps(result, goal, tenor, pricing_context),
            ensures
                result.dates@ == w, w.len() == made.d.len(), result.is_regular@ == made.f, well_formed(w),
            decreases 1int,
        {
        assert(w.len() == made.d.len()) by { reveal(Terms::wednesdays); }
//@loop 2 "for i in 1..result.dates.len() - 1"
            invariant
                the_end == made.d.len() - 1,
                keeps(result, goal, tenor, pricing_context), goal.rule == DateGenerationRule::ThirdWednesday, made.ok(), w == goal.wednesdays(made.d),
                result.is_regular@ == made.f, result.dates.len() == made.d.len(), well_formed(result.dates@),
                forall|j: int| 0 <= j < made.d.len() ==> #[trigger] result.dates[j] == (if 1 <= j < i { w[j] } else { made.d[j] }),
//@loopbody 2
        proof { reveal(Terms::wednesdays); lemma_this_month(made.d[i as int].s()); }
//@loopend 2
        proof { lemma_third_wednesday(made.d[i as int].s(), result.dates[i as int].s()); }
//@loop 3 "for d_i in 0..result.dates.len()"
            invariant
                the_end == made.d.len(),
                keeps(result, goal, tenor, pricing_context), goal.rule == DateGenerationRule::ThirdWednesdayInclusive, made.ok(), w == goal.wednesdays(made.d),
                result.is_regular@ == made.f, result.dates.len() == made.d.len(), well_formed(result.dates@),
                forall|j: int| 0 <= j < made.d.len() ==> #[trigger] result.dates[j] == (if j < d_i { w[j] } else { made.d[j] }),
//@loopbody 3
        proof { reveal(Terms::wednesdays); lemma_this_month(made.d[d_i as int].s()); }
//@loopend 3
        proof { lemma_third_wednesday(made.d[d_i as int].s(), result.dates[d_i as int].s()); }
//@before "if result.end_of_month && result.calendar.is_end_of_month"
        assert(result.dates@ =~= w) by { reveal(Terms::wednesdays); }
        assert(well_formed(w));
        break;
        }
        loop
            invariant_except_break
                result.dates@ == w, 
            invariant
                made.ok(), w == goal.wednesdays(made.d), w.len() == made.d.len(), keeps(result, goal, tenor, pricing_context), result.is_regular@ == made.f, well_formed(w),
                wf(seed), seed.s() == goal.anchor(), convention == goal.conv, termination_date_convention == goal.tconv, placed == goal.placed(made.d),
            ensures
                result.dates.len() == made.d.len(), made.d.len() >= 2 ==> result.dates@ == placed,
            decreases 1int,
        {
//@past "if result.end_of_month && result.calendar.is_end_of_month(&seed) {"
        assert(goal.at_month_ends());
//@past "d1 = result.dates[0].end_of_month(); } }"
        let ghost n = made.d.len() - 1;
        proof { lemma_last(w[0].s()); lemma_last(w[n].s()); }
        assert(result.dates@[0] == w[0]);
        assert(result.dates@[n] == w[n]);
        assert(wf(d1) && wf(d2) && (n >= 1 ==> d1.s() == goal.opens(w[0].s()) && d2.s() == goal.closes(w[n].s())));
//@loop 4 "for i in 1..result.dates.len() - 1"
            invariant
                the_end == made.d.len() - 1,
                keeps(result, goal, tenor, pricing_context), made.ok(), goal.conv == BusinessDayConvention::Unadjusted, well_formed(w),
                result.is_regular@ == made.f, result.dates.len() == w.len(), w.len() == made.d.len(),
                forall|j: int| 0 <= j < w.len() ==> #[trigger] result.dates[j] == (if 1 <= j < i { day(goal.month_end(w[j].s(), goal.conv)) } else { w[j] }),
//@loop 5 "for i in 1..result.dates.len() - 1"
            invariant
                the_end == made.d.len() - 1,
                keeps(result, goal, tenor, pricing_context), made.ok(), goal.conv != BusinessDayConvention::Unadjusted, well_formed(w),
                result.is_regular@ == made.f, result.dates.len() == w.len(), w.len() == made.d.len(),
                forall|j: int| 0 <= j < w.len() ==> #[trigger] result.dates[j] == (if 1 <= j < i { day(goal.month_end(w[j].s(), goal.conv)) } else { w[j] }),
//@loop 6 "for i in 1..result.dates.len() - 1"
            invariant
                the_end == made.d.len() - 1,
                keeps(result, goal, tenor, pricing_context), made.ok(), convention == goal.conv, well_formed(w), result.dates.len() >= 1,
                result.is_regular@ == made.f, result.dates.len() == w.len(), w.len() == made.d.len(),
                wf(result.dates[0]), result.dates[0] == (if goal.rule == DateGenerationRule::OldCDS { w[0] } else { day(goal.adj(w[0].s())) }),
                forall|j: int| 1 <= j < w.len() ==> #[trigger] result.dates[j] == (if j < i { day(goal.adj(w[j].s())) } else { w[j] }),
//@before "let mut i = 2;"
        break;
        }
        reveal(merging);
        assert(made.d.len() >= 2 ==> merging(placed, made.f, result.dates@, result.is_regular@)) by {
            reveal(merging);
            assert(among(placed, placed)) by { assert forall|k: int| 0 <= k < placed.len() implies placed.contains(#[trigger] placed[k]) by { } }
        }
//@loop 7 "while i + 1 < result.dates.len()"
            invariant
                keeps(result, goal, tenor, pricing_context), i >= 2, i == 2 || i + 1 <= result.dates.len(),
                made.d.len() < 2 ==> result.dates.len() == 1,
                made.d.len() >= 2 ==> result.dates.len() >= 2 && merging(placed, made.f, result.dates@, result.is_regular@) && ordered(result.dates@, 1, i as int),
            decreases result.dates.len() - i,
//@loopbody 7
        reveal(merging);
        let ghost (x, g) = (result.dates@, result.is_regular@);
        proof { if x[i as int].s() <= x[i - 1].s() { lemma_merge(placed, made.f, x, g, i as int, x.remove(i as int), g.remove(i - 1)); } }
//@loop 8 "while result.dates.len() >= 2 && result.dates[result.dates.len() - 2] >= result.dates[result.dates.len() - 1]"
            invariant
                keeps(result, goal, tenor, pricing_context),
                made.d.len() < 2 ==> result.dates.len() == 1,
                made.d.len() >= 2 ==> merging(placed, made.f, result.dates@, result.is_regular@) && ordered(result.dates@, 1, result.dates.len() - 1),
            decreases result.dates.len(),
//@loopbody 8
        reveal(merging);
        let ghost (x, g) = (result.dates@, result.is_regular@);
        proof {
            let n = x.len() as int;
            lemma_merge(placed, made.f, x, g, n - 2, x.remove(n - 2), g.drop_last());
            assert(x.update(n - 2, x[n - 1]).drop_last() =~= x.remove(n - 2));
        }
//@loop 9 "while result.dates.len() >= 2 && result.dates[1] <= result.dates[0]"
            invariant
                keeps(result, goal, tenor, pricing_context),
                made.d.len() < 2 ==> result.dates.len() == 1,
                made.d.len() >= 2 ==> merging(placed, made.f, result.dates@, result.is_regular@) && ordered(result.dates@, 1, result.dates.len() as int),
            decreases result.dates.len(),
//@loopbody 9
        reveal(merging);
        let ghost (x, g) = (result.dates@, result.is_regular@);
        proof {
            lemma_merge(placed, made.f, x, g, 1, x.remove(1), g.remove(0));
            assert(x.update(1, x[0]).remove(0) =~= x.remove(1));
        }
//@end
}
// the trait method, stated as a method of the type so that the range of the index can be a precondition
impl Schedule {
//@fn src/datetime/schedule.rs "impl Index<Size> for Schedule" index
//@sub "&Self::Output" => "&Date"
//@ret r
    requires index < self.dates.len(),
    ensures *r == self.dates[index as int],
//@end
}
// ------------------------------------------------------------------ the builder
//@type src/datetime/schedulebuilder.rs struct ScheduleBuilder
impl ScheduleBuilder {
//@fn src/datetime/schedulebuilder.rs "impl ScheduleBuilder" new
//@ret r
    ensures
        r.pricing_context == pricing_context, r.effective_date == effective_date, r.termination_date == termination_date, r.tenor == tenor, r.calendar == calendar,
        r.convention is None, r.termination_date_convention is None, r.date_generation_rule is None, !r.end_of_month,
        r.first_date.s() == null(), r.next_to_last_date.s() == null(),
//@end
//@fn src/datetime/schedulebuilder.rs "impl ScheduleBuilder" with_convention
//@owned
//@ret r
    ensures r == (ScheduleBuilder { convention: Some(convention), ..self }),
//@end
//@fn src/datetime/schedulebuilder.rs "impl ScheduleBuilder" with_termination_convention
//@owned
//@ret r
    ensures r == (ScheduleBuilder { termination_date_convention: Some(termination_date_convention), ..self }),
//@end
//@fn src/datetime/schedulebuilder.rs "impl ScheduleBuilder" with_rule
//@owned
//@ret r
    ensures r == (ScheduleBuilder { date_generation_rule: Some(rule), ..self }),
//@end
//@fn src/datetime/schedulebuilder.rs "impl ScheduleBuilder" forwards
//@owned
//@ret r
    ensures r == (ScheduleBuilder { date_generation_rule: Some(DateGenerationRule::Forward), ..self }),
//@end
//@fn src/datetime/schedulebuilder.rs "impl ScheduleBuilder" backwards
//@owned
//@ret r
    ensures r == (ScheduleBuilder { date_generation_rule: Some(DateGenerationRule::Backward), ..self }),
//@end
//@fn src/datetime/schedulebuilder.rs "impl ScheduleBuilder" with_end_of_month
//@owned
//@ret r
    ensures r == (ScheduleBuilder { end_of_month: end_of_month, ..self }),
//@end
//@fn src/datetime/schedulebuilder.rs "impl ScheduleBuilder" with_first_date
//@owned
//@ret r
    ensures r == (ScheduleBuilder { first_date: first_date, ..self }),
//@end
//@fn src/datetime/schedulebuilder.rs "impl ScheduleBuilder" with_next_to_last_date
//@owned
//@ret r
    ensures r == (ScheduleBuilder { next_to_last_date: next_to_last_date, ..self }),
//@end
//@fn src/datetime/schedulebuilder.rs "impl ScheduleBuilder" build
//@ret r
    requires
        wf(self.pricing_context.eval_date), wf(self.effective_date), wf(self.termination_date), wf(self.first_date), wf(self.next_to_last_date), small(self.tenor),
    ensures ({
        let conv = if self.convention is Some { self.convention->0 } else { BusinessDayConvention::Following };
        generated(r, self.pricing_context, self.effective_date.s(), self.termination_date.s(), self.tenor, self.calendar, conv,
            if self.termination_date_convention is Some { self.termination_date_convention->0 } else { conv },
            if self.date_generation_rule is Some { self.date_generation_rule->0 } else { DateGenerationRule::Backward },
            self.end_of_month, self.first_date.s(), self.next_to_last_date.s())
    }),
//@end
}
fn main() {}
}
