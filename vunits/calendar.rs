use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::hash::*;
use core::ops::*;
use core::cmp::Ordering;
use std::collections::HashSet;

verus! {

//@include caldate.rs
use caldate::*;

pub type Integer = i32;

//@type src/datetime/timeunit.rs enum TimeUnit derive(Clone, Copy, Debug, PartialEq, Eq, Structural)
//@type src/datetime/period.rs struct Period derive(Clone, Copy, Debug)
//@type src/datetime/businessdayconvention.rs enum BusinessDayConvention derive(Clone, Copy, Debug, PartialEq, Eq, Structural)
use TimeUnit::*;

//@include date_contract.rs

impl Period {
//@fn src/datetime/period.rs "impl Period" new
//@ret r
    ensures r.length == length, r.unit == unit,
//@end
}

/// the market rule: any predicate on days and any weekend
#[verifier::external_body]
pub struct Holiday { _p: u8 }
impl Holiday {
    pub uninterp spec fn rule(self, s: int) -> bool;
    pub uninterp spec fn weekend(self, w: Weekday) -> bool;
    #[verifier::external_body]
    pub fn is_business_day(&self, date: &Date) -> (r: bool)
        ensures r == self.rule(date.s()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_weekend(&self, weekday: Weekday) -> (r: bool)
        ensures r == self.weekend(weekday),
    { unimplemented!() }
}
mod keys {
    use super::*;
    /// Eq and Hash of Date agree (C02 proves it for the real Date)
    pub broadcast axiom fn axiom_date_is_a_key()
        ensures #[trigger] obeys_key_model::<Date>();
}

//@type src/datetime/calendar.rs struct Calendar

broadcast use {vstd::std_specs::hash::group_hash_axioms, keys::axiom_date_is_a_key};

impl Calendar {
    /// the calendar calls this day a business day
    pub open spec fn biz(self, s: int) -> bool {
        !self.added_holidays@.contains(day(s)) && (self.removed_holidays@.contains(day(s)) || self.holiday.rule(s))
    }
}
pub proof fn lemma_day(d: Date)
    ensures day(d.s()) == d,
{
}

// ------------------------------------------------------------------ nearest business days
pub open spec fn no_biz(c: Calendar, a: int, b: int) -> bool { forall|x: int| a <= x <= b ==> !c.biz(x) }
pub open spec fn is_next(c: Calendar, s: int, r: int) -> bool { s <= r <= MAX() && c.biz(r) && no_biz(c, s, r - 1) }
pub open spec fn is_prev(c: Calendar, s: int, r: int) -> bool { MIN() <= r <= s && c.biz(r) && no_biz(c, r + 1, s) }
/// the nearest business day from s on forwards (backwards)
pub open spec fn next_biz(c: Calendar, s: int) -> int { choose|r: int| is_next(c, s, r) }
pub open spec fn prev_biz(c: Calendar, s: int) -> int { choose|r: int| is_prev(c, s, r) }
/// a business day is within reach forwards (backwards)
pub open spec fn reach_next(c: Calendar, s: int) -> bool { exists|b: int| s <= b <= s + 250 && b <= MAX() && c.biz(b) }
pub open spec fn reach_prev(c: Calendar, s: int) -> bool { exists|b: int| s - 250 <= b <= s && MIN() <= b && c.biz(b) }
pub proof fn lemma_next(c: Calendar, s: int)
    requires reach_next(c, s),
    ensures is_next(c, s, next_biz(c, s)), next_biz(c, s) <= s + 250,
        forall|r: int| is_next(c, s, r) ==> r == next_biz(c, s),
{
    let b = choose|b: int| s <= b <= s + 250 && b <= MAX() && c.biz(b);
    lemma_first_biz(c, s, b);
    assert forall|r: int| is_next(c, s, r) implies r == next_biz(c, s) by {
        let q = next_biz(c, s);
        if r < q { assert(!c.biz(r)); }
        if q < r { assert(!c.biz(q)); }
    }
    if next_biz(c, s) > b { assert(!c.biz(b)); }
}
proof fn lemma_first_biz(c: Calendar, s: int, b: int)
    requires s <= b <= MAX(), c.biz(b),
    ensures exists|r: int| is_next(c, s, r),
    decreases b - s,
{
    if c.biz(s) {
        assert(is_next(c, s, s));
    } else {
        lemma_first_biz(c, s + 1, b);
        let t = s + 1;
        let r = choose|r: int| is_next(c, t, r);
        assert(is_next(c, s, r));
    }
}
pub proof fn lemma_prev(c: Calendar, s: int)
    requires reach_prev(c, s),
    ensures is_prev(c, s, prev_biz(c, s)), prev_biz(c, s) >= s - 250,
        forall|r: int| is_prev(c, s, r) ==> r == prev_biz(c, s),
{
    let b = choose|b: int| s - 250 <= b <= s && MIN() <= b && c.biz(b);
    lemma_last_biz(c, s, b);
    assert forall|r: int| is_prev(c, s, r) implies r == prev_biz(c, s) by {
        let q = prev_biz(c, s);
        if r > q { assert(!c.biz(r)); }
        if q > r { assert(!c.biz(q)); }
    }
    if prev_biz(c, s) < b { assert(!c.biz(b)); }
}
proof fn lemma_last_biz(c: Calendar, s: int, b: int)
    requires MIN() <= b <= s, c.biz(b),
    ensures exists|r: int| is_prev(c, s, r),
    decreases s - b,
{
    if c.biz(s) {
        assert(is_prev(c, s, s));
    } else {
        lemma_last_biz(c, s - 1, b);
        let t = s - 1;
        let r = choose|r: int| is_prev(c, t, r);
        assert(is_prev(c, s, r));
    }
}
/// the date a convention defines
pub open spec fn adjusted(c: Calendar, s: int, conv: BusinessDayConvention) -> int {
    let n = next_biz(c, s);
    let p = prev_biz(c, s);
    match conv {
        BusinessDayConvention::Unadjusted => s,
        BusinessDayConvention::Following => n,
        BusinessDayConvention::Preceding => p,
        BusinessDayConvention::ModifiedFollowing => if mi(n) == mi(s) { n } else { p },
        BusinessDayConvention::ModifiedPreceding => if mi(p) == mi(s) { p } else { n },
        BusinessDayConvention::HalfMonthModifiedFollowing =>
            if mi(n) == mi(s) && (dom_of(s) <= 15 ==> dom_of(n) <= 15) { n } else { p },
        BusinessDayConvention::Nearest => if n - s <= s - p { n } else { p },
    }
}
/// the business days the convention may need are within reach
pub open spec fn reach(c: Calendar, s: int, conv: BusinessDayConvention) -> bool {
    match conv {
        BusinessDayConvention::Unadjusted => true,
        BusinessDayConvention::Following => reach_next(c, s),
        BusinessDayConvention::Preceding => reach_prev(c, s),
        _ => reach_next(c, s) && reach_prev(c, s),
    }
}
/// a business day is left where it is under every convention
proof fn a_business_day_stays(c: Calendar, s: int, conv: BusinessDayConvention)
    requires MIN() <= s <= MAX(), c.biz(s),
    ensures adjusted(c, s, conv) == s,
{
    assert(reach_next(c, s) && reach_prev(c, s));
    lemma_next(c, s);
    lemma_prev(c, s);
    assert(is_next(c, s, s) && is_prev(c, s, s));
}
/// the adjusted date is a business day, and nothing nearer in its direction is
proof fn the_adjusted_date_is_a_business_day(c: Calendar, s: int, conv: BusinessDayConvention)
    requires MIN() <= s <= MAX(), reach_next(c, s), reach_prev(c, s), conv != BusinessDayConvention::Unadjusted,
    ensures c.biz(adjusted(c, s, conv)), MIN() <= adjusted(c, s, conv) <= MAX(),
        is_next(c, s, adjusted(c, s, conv)) || is_prev(c, s, adjusted(c, s, conv)),
        conv == BusinessDayConvention::Nearest ==> forall|x: int| #![trigger c.biz(x)] c.biz(x) && MIN() <= x <= MAX() ==>
            (if x >= s { x - s } else { s - x }) >= (if adjusted(c, s, conv) >= s { adjusted(c, s, conv) - s } else { s - adjusted(c, s, conv) }),
{
    lemma_next(c, s);
    lemma_prev(c, s);
}
proof fn modified_following_stays_in_the_month(c: Calendar, s: int, b: int)
    requires MIN() <= s <= MAX(), reach_next(c, s), reach_prev(c, s), MIN() <= b <= MAX(), mi(b) == mi(s), c.biz(b),
    ensures mi(adjusted(c, s, BusinessDayConvention::ModifiedFollowing)) == mi(s),
        mi(adjusted(c, s, BusinessDayConvention::ModifiedPreceding)) == mi(s),
{
    lemma_next(c, s);
    lemma_prev(c, s);
    let n = next_biz(c, s);
    let p = prev_biz(c, s);
    if b >= s { if b < n { assert(!c.biz(b)); } lemma_order(s, n); lemma_order(n, b); }
    if b <= s { if b > p { assert(!c.biz(b)); } lemma_order(p, s); lemma_order(b, p); }
}

// ------------------------------------------------------------------ counting
/// the number of business days in (a, b]
pub open spec fn count(c: Calendar, a: int, b: int) -> int
    decreases b - a,
{
    if b <= a { 0 } else { count(c, a, b - 1) + (if c.biz(b) { 1int } else { 0 }) }
}
pub proof fn lemma_count_gap(c: Calendar, a: int, b: int, e: int)
    requires a <= b <= e, no_biz(c, b + 1, e),
    ensures count(c, a, e) == count(c, a, b),
    decreases e - b,
{
    if e > b { lemma_count_gap(c, a, b, e - 1); }
}
pub proof fn lemma_count_mono(c: Calendar, a: int, b: int, e: int)
    requires a <= b <= e,
    ensures count(c, a, b) <= count(c, a, e), count(c, a, e) == count(c, a, b) + count(c, b, e), 0 <= count(c, a, b) <= b - a,
    decreases e - a,
{
    if e > b { lemma_count_mono(c, a, b, e - 1); }
    else if b > a { lemma_count_mono(c, a, b - 1, b - 1); lemma_count_mono(c, a, a, b - 1); }
}
/// r is n business days after s (n > 0) or -n before it
pub open spec fn is_nth(c: Calendar, s: int, n: int, r: int) -> bool {
    if n > 0 { s < r <= MAX() && c.biz(r) && count(c, s, r) == n }
    else { MIN() <= r < s && c.biz(r) && count(c, r - 1, s - 1) == -n }
}
pub open spec fn has_nth(c: Calendar, s: int, n: int) -> bool {
    if n > 0 { exists|e: int| s <= e <= MAX() && #[trigger] count(c, s, e) >= n }
    else { exists|e: int| MIN() - 1 <= e <= s - 1 && #[trigger] count(c, e, s - 1) >= -n }
}
proof fn the_nth_business_day_is_unique(c: Calendar, s: int, n: int, r: int, q: int)
    requires n != 0, is_nth(c, s, n, r), is_nth(c, s, n, q),
    ensures r == q,
{
    if n > 0 {
        if r < q { lemma_count_mono(c, s, r, q - 1); }
        if q < r { lemma_count_mono(c, s, q, r - 1); }
    } else {
        if r < q { lemma_count_mono(c, r - 1, q - 1, s - 1); lemma_count_split(c, r - 1, r, q - 1); }
        if q < r { lemma_count_mono(c, q - 1, r - 1, s - 1); lemma_count_split(c, q - 1, q, r - 1); }
    }
}
proof fn lemma_count_split(c: Calendar, a: int, b: int, e: int)
    requires a < b <= e, c.biz(b), b == a + 1,
    ensures count(c, a, e) >= 1,
{
    lemma_count_mono(c, a, b, e);
    lemma_count_one(c, a);
}
pub proof fn lemma_count_one(c: Calendar, a: int)
    ensures count(c, a, a + 1) == (if c.biz(a + 1) { 1int } else { 0 }),
{
    assert(count(c, a, a) == 0);
}
pub proof fn lemma_count_front(c: Calendar, a: int, e: int)
    requires a < e,
    ensures count(c, a, e) == count(c, a + 1, e) + (if c.biz(a + 1) { 1int } else { 0 }),
{
    lemma_count_mono(c, a, a + 1, e);
    lemma_count_one(c, a);
}

/// the date advance() defines
pub open spec fn advanced(c: Calendar, s: int, n: int, u: TimeUnit, conv: BusinessDayConvention, eom: bool, r: int) -> bool {
    if n == 0 { r == adjusted(c, s, conv) }
    else if u == TimeUnit::Days { is_nth(c, s, n, r) }
    else if (u == TimeUnit::Months || u == TimeUnit::Years) && eom && at_end_of_month(c, s) { is_prev(c, last_of(mi(plus(s, n, u))), r) }
    else { r == adjusted(c, plus(s, n, u), conv) }
}
/// no business day of the month comes after s
pub open spec fn at_end_of_month(c: Calendar, s: int) -> bool { mi(next_biz(c, s + 1)) != mi(s) }
pub open spec fn advanceable(c: Calendar, s: int, n: int, u: TimeUnit, conv: BusinessDayConvention, eom: bool) -> bool {
    if n == 0 { reach(c, s, conv) }
    else if u == TimeUnit::Days { has_nth(c, s, n) }
    else {
        &&& movable(s, n, u)
        &&& reach(c, plus(s, n, u), conv)
        &&& (u != TimeUnit::Weeks && eom) ==> s < MAX() && reach_next(c, s + 1) && reach_prev(c, last_of(mi(plus(s, n, u))))
    }
}
//@include plus.rs

proof fn lemma_end_of_month_test(c: Calendar, s: int)
    requires MIN() <= s < MAX(), reach_next(c, s + 1),
    ensures (month_of(next_biz(c, s + 1)) == month_of(s)) == (mi(next_biz(c, s + 1)) == mi(s)),
{
    lemma_next(c, s + 1);
    let t = next_biz(c, s + 1);
    lemma_mi(s);
    lemma_mi(t);
    lemma_order(s, t);
}
/// the month-end test: no business day of the month comes later
proof fn the_month_end_test_is_right(c: Calendar, s: int)
    requires MIN() <= s < MAX(), reach_next(c, s + 1),
    ensures at_end_of_month(c, s) <==> no_biz(c, s + 1, last_of(mi(s))),
{
    lemma_next(c, s + 1);
    lemma_last(s);
    let t = next_biz(c, s + 1);
    lemma_order(s, t);
    lemma_mi(s);
    lemma_mi(t);
    if mi(t) == mi(s) { assert(c.biz(t)); assert(t <= last_of(mi(s))); }
    if !no_biz(c, s + 1, last_of(mi(s))) {
        let x = choose|x: int| s + 1 <= x <= last_of(mi(s)) && c.biz(x);
        assert(t <= x);
        lemma_order(t, x);
        lemma_unique(x, mi(s));
    }
}

/// on a calendar without holidays a date moves as if there were no calendar; from a month end to a month end where asked for
/// (what the unit `generate` rests on)
proof fn the_open_calendar_moves_dates_alone(c: Calendar, s: int, n: int, u: TimeUnit, conv: BusinessDayConvention, eom: bool, r: int)
    requires
        forall|x: int| #[trigger] c.biz(x), MIN() <= s <= MAX(), movable(s, n, u), n != 0, (eom && (u == TimeUnit::Months || u == TimeUnit::Years)) ==> s < MAX(),
        advanced(c, s, n, u, conv, eom, r),
    ensures r == (if eom && (u == TimeUnit::Months || u == TimeUnit::Years) && s == last_of(mi(s)) { last_of(mi(plus(s, n, u))) } else { plus(s, n, u) }),
{
    lemma_plus(s, n, u);
    let t = plus(s, n, u);
    if u == TimeUnit::Days {
        if n > 0 { lemma_count_all(c, s, r); } else { lemma_count_all(c, r - 1, s - 1); }
    } else if (u == TimeUnit::Months || u == TimeUnit::Years) && eom {
        let next = s + 1;
        assert(c.biz(next));
        assert(reach_next(c, next));
        lemma_next(c, next);
        assert(is_next(c, next, next));
        lemma_last(s);
        lemma_last(t);
        lemma_order(s, next);
        lemma_mi(next);
        if s < last_of(mi(s)) { lemma_unique(next, mi(s)); }
        if at_end_of_month(c, s) {
            let l = last_of(mi(t));
            assert(c.biz(l));
            if r < l { assert(!c.biz(l)); }
        } else {
            a_business_day_stays(c, t, conv);
        }
    } else {
        a_business_day_stays(c, t, conv);
    }
}
proof fn lemma_count_all(c: Calendar, a: int, b: int)
    requires forall|x: int| #[trigger] c.biz(x), a <= b,
    ensures count(c, a, b) == b - a,
    decreases b - a,
{
    if a < b { lemma_count_all(c, a, b - 1); }
}

// ------------------------------------------------------------------ lists
pub open spec fn listed(c: Calendar, s: int, holidays: bool, weekends: bool) -> bool {
    if holidays { !c.biz(s) && (weekends || !c.holiday.weekend(weekday_at(s))) } else { c.biz(s) }
}
/// the listed days of [a, b] in order
pub open spec fn days(c: Calendar, a: int, b: int, holidays: bool, weekends: bool) -> Seq<Date>
    decreases b - a + 1,
{
    if b < a { Seq::empty() }
    else if listed(c, b, holidays, weekends) { days(c, a, b - 1, holidays, weekends).push(day(b)) }
    else { days(c, a, b - 1, holidays, weekends) }
}
/// such a list holds exactly the listed days, in increasing order
proof fn the_list_is_exact(c: Calendar, a: int, b: int, h: bool, w: bool)
    requires MIN() <= a, b <= MAX(),
    ensures
        forall|i: int| 0 <= i < days(c, a, b, h, w).len() ==> a <= (#[trigger] days(c, a, b, h, w)[i]).s() <= b && listed(c, days(c, a, b, h, w)[i].s(), h, w),
        forall|i: int, j: int| 0 <= i < j < days(c, a, b, h, w).len() ==> days(c, a, b, h, w)[i].s() < days(c, a, b, h, w)[j].s(),
        forall|x: int| a <= x <= b && #[trigger] listed(c, x, h, w) ==> days(c, a, b, h, w).contains(day(x)),
    decreases b - a + 1,
{
    if b >= a {
        the_list_is_exact(c, a, b - 1, h, w);
        let l0 = days(c, a, b - 1, h, w);
        let l = days(c, a, b, h, w);
        assert forall|x: int| a <= x <= b && #[trigger] listed(c, x, h, w) implies l.contains(day(x)) by {
            if x == b { assert(l[l.len() - 1] == day(b)); }
            else {
                assert(l0.contains(day(x)));
                let i = choose|i: int| 0 <= i < l0.len() && l0[i] == day(x);
                assert(l[i] == day(x));
            }
        }
    }
}

/// the signed count business_days_between() defines
pub open spec fn one_if(b: bool) -> int { if b { 1 } else { 0 } }
pub open spec fn between(c: Calendar, from: int, to: int, first_in: bool, last_in: bool) -> int {
    if from == to { one_if(first_in && last_in && c.biz(from)) }
    else if from < to { count(c, from, to - 1) + one_if(first_in && c.biz(from)) + one_if(last_in && c.biz(to)) }
    else { -(count(c, to, from - 1) + one_if(first_in && c.biz(from)) + one_if(last_in && c.biz(to))) }
}
/// reversing the dates (and the flags) reverses the sign
proof fn reversing_reverses_the_sign(c: Calendar, a: int, b: int, x: bool, y: bool)
    ensures a != b ==> between(c, a, b, x, y) == -between(c, b, a, y, x),
{
}
/// adjacent intervals add up
proof fn counts_add_up(c: Calendar, a: int, m: int, b: int)
    requires a < m < b,
    ensures between(c, a, m, true, false) + between(c, m, b, true, false) == between(c, a, b, true, false),
{
    lemma_count_mono(c, a, m - 1, b - 1);
    lemma_count_front(c, m - 1, b - 1);
}

// ------------------------------------------------------------------ histories of edits
pub enum Edit { Add(int), Remove(int), Reset }
pub open spec fn apply(rule: spec_fn(int) -> bool, edits: Seq<Edit>, s: int) -> bool
    decreases edits.len(),
{
    if edits.len() == 0 { rule(s) }
    else {
        match edits.last() {
            Edit::Reset => rule(s),
            Edit::Add(x) => if x == s { false } else { apply(rule, edits.drop_last(), s) },
            Edit::Remove(x) => if x == s { true } else { apply(rule, edits.drop_last(), s) },
        }
    }
}
/// what the contracts of the three editing operations say about one step
pub open spec fn step(c0: Calendar, e: Edit, c1: Calendar) -> bool {
    &&& c1.holiday == c0.holiday
    &&& match e {
        Edit::Add(x) => forall|s: int| MIN() <= s <= MAX() ==> #[trigger] c1.biz(s) == (if s == x { false } else { c0.biz(s) }),
        Edit::Remove(x) => forall|s: int| MIN() <= s <= MAX() ==> #[trigger] c1.biz(s) == (if s == x { true } else { c0.biz(s) }),
        Edit::Reset => forall|s: int| MIN() <= s <= MAX() ==> #[trigger] c1.biz(s) == c0.holiday.rule(s),
    }
}
/// after any history a day is a business day exactly when the last edit of it says so, or else the rule
proof fn every_history_of_edits(cs: Seq<Calendar>, es: Seq<Edit>, s: int)
    requires cs.len() == es.len() + 1, MIN() <= s <= MAX(), forall|x: int| MIN() <= x <= MAX() ==> cs[0].biz(x) == cs[0].holiday.rule(x),
        forall|i: int| 0 <= i < es.len() ==> step(#[trigger] cs[i], es[i], cs[i + 1]),
    ensures cs.last().biz(s) == apply(|x: int| cs[0].holiday.rule(x), es, s), cs.last().holiday == cs[0].holiday,
    decreases es.len(),
{
    if es.len() > 0 {
        let es0 = es.drop_last();
        let cs0 = cs.drop_last();
        assert forall|i: int| 0 <= i < es0.len() implies step(#[trigger] cs0[i], es0[i], cs0[i + 1]) by {
            assert(step(cs[i], es[i], cs[i + 1]));
        }
        every_history_of_edits(cs0, es0, s);
        assert(step(cs[es.len() - 1], es[es.len() - 1], cs[es.len() as int]));
        assert(cs0.last() == cs[es.len() - 1]);
    }
}

// ------------------------------------------------------------------ the code
impl Calendar {
//@fn src/datetime/calendar.rs "impl Calendar" new
//@ret r
    ensures forall|s: int| MIN() <= s <= MAX() ==> #[trigger] r.biz(s) == holiday.rule(s), r.holiday == holiday,
//@end

//@fn src/datetime/calendar.rs "impl Calendar" reset_added_and_removed_holidays
    ensures step(*old(self), Edit::Reset, *final(self)),
//@end

//@fn src/datetime/calendar.rs "impl Calendar" is_business_day
//@ret r
    ensures r == self.biz(date.s()),
//@top
        proof { lemma_day(*date); }
//@end

//@fn src/datetime/calendar.rs "impl Calendar" is_holiday
//@ret r
    ensures r == !self.biz(date.s()),
//@end

//@fn src/datetime/calendar.rs "impl Calendar" is_weekend
//@ret r
    ensures r == self.holiday.weekend(weekday),
//@end

//@fn src/datetime/calendar.rs "impl Calendar" add_holiday
    requires wf(date),
    ensures step(*old(self), Edit::Add(date.s()), *final(self)),
//@top
        proof { lemma_day(date); }
//@end

//@fn src/datetime/calendar.rs "impl Calendar" remove_holiday
    requires wf(date),
    ensures step(*old(self), Edit::Remove(date.s()), *final(self)),
//@top
        proof { lemma_day(date); }
//@end

//@fn src/datetime/calendar.rs "impl Calendar" adjust
//@attr #[verifier::loop_isolation(false)]
//@ret r
    requires wf(date), reach(*self, date.s(), convention),
    ensures wf(r), r.s() == adjusted(*self, date.s(), convention),
    decreases (if convention == BusinessDayConvention::Following || convention == BusinessDayConvention::Preceding { 0int } else { 1int }),
//@top
        proof {
            let ghost s = date.s();
            if reach_next(*self, s) { lemma_next(*self, s); lemma_same_month(s, next_biz(*self, s)); lemma_mi(next_biz(*self, s)); }
            if reach_prev(*self, s) { lemma_prev(*self, s); lemma_same_month(s, prev_biz(*self, s)); lemma_mi(prev_biz(*self, s)); }
            lemma_mi(s);
        }
//@loop 0 "while self.is_holiday(&d1)"
            invariant date.s() <= d1.s() <= next_biz(*self, date.s()), no_biz(*self, date.s(), d1.s() - 1),
            decreases next_biz(*self, date.s()) - d1.s(),
//@loop 1 "while self.is_holiday(&d1)"
            invariant prev_biz(*self, date.s()) <= d1.s() <= date.s(), no_biz(*self, d1.s() + 1, date.s()),
            decreases d1.s() - prev_biz(*self, date.s()),
//@loop 2 "while self.is_holiday(&d1) && self.is_holiday(&d2)"
            invariant
                d1.s() - date.s() == date.s() - d2.s(),
                date.s() <= d1.s() <= next_biz(*self, date.s()), no_biz(*self, date.s(), d1.s() - 1),
                prev_biz(*self, date.s()) <= d2.s() <= date.s(), no_biz(*self, d2.s() + 1, date.s()),
            decreases next_biz(*self, date.s()) - d1.s(),
//@end

//@fn src/datetime/calendar.rs "impl Calendar" adjust_with_following
//@ret r
    requires wf(date), reach_next(*self, date.s()),
    ensures wf(r), r.s() == next_biz(*self, date.s()),
//@end

//@fn src/datetime/calendar.rs "impl Calendar" is_end_of_month
//@ret r
    requires wf(*date), date.s() < MAX(), reach_next(*self, date.s() + 1),
    ensures r == at_end_of_month(*self, date.s()),
//@top
        proof {
            lemma_next(*self, date.s() + 1);
            lemma_end_of_month_test(*self, date.s());
        }
//@end

//@fn src/datetime/calendar.rs "impl Calendar" end_of_month
//@ret r
    requires wf(*date), reach_prev(*self, last_of(mi(date.s()))),
    ensures wf(r), is_prev(*self, last_of(mi(date.s())), r.s()),
//@top
        proof { lemma_last(date.s()); lemma_prev(*self, last_of(mi(date.s()))); }
//@end

//@fn src/datetime/calendar.rs "impl Calendar" advance_by_days
//@attr #[verifier::loop_isolation(false)]
//@ret r
    requires wf(date), advanceable(*self, date.s(), n as int, unit, convention, end_of_month), n > i32::MIN,
    ensures wf(r), advanced(*self, date.s(), n as int, unit, convention, end_of_month, r.s()),
//@top
        let ghost n0 = n as int;
        let ghost s = date.s();
        let ghost e = if n0 > 0 { choose|e: int| s <= e <= MAX() && #[trigger] count(*self, s, e) >= n0 }
                      else { choose|e: int| MIN() - 1 <= e <= s - 1 && #[trigger] count(*self, e, s - 1) >= -n0 };
        proof {
            if n0 != 0 && unit != TimeUnit::Days { lemma_plus(s, n0, unit); lemma_last(plus(s, n0, unit)); }
            if n0 != 0 && unit != TimeUnit::Days && reach_prev(*self, last_of(mi(plus(s, n0, unit)))) { lemma_prev(*self, last_of(mi(plus(s, n0, unit)))); }
            if reach_next(*self, s + 1) { lemma_next(*self, s + 1); }
        }
//@loop 0 "while n > 0"
            invariant
                0 <= n <= n0, s <= d1.s() <= e, count(*self, s, d1.s()) == n0 - n, n < n0 ==> s < d1.s() && self.biz(d1.s()),
            decreases n,
//@loopbody 0
                let ghost d0 = d1.s();
                proof { if d0 == e { assert(false); } lemma_count_mono(*self, s, d0, e); lemma_count_front(*self, d0, e); }
//@loop 1 "while self.is_holiday(&d1)"
                invariant d0 < d1.s() <= e, no_biz(*self, d0 + 1, d1.s() - 1), count(*self, d0, e) > 0, count(*self, s, d0) == n0 - n,
                decreases e - d1.s(),
//@loopbody 1
                    proof { lemma_count_gap(*self, d0, d0, d1.s()); if d1.s() == e { assert(false); } }
//@loopend 0
                proof { lemma_count_mono(*self, s, d0, d1.s()); lemma_count_gap(*self, d0, d0, d1.s() - 1); }
//@loop 2 "while n < 0"
            invariant
                n0 <= n <= 0, e + 1 <= d1.s() <= s, count(*self, d1.s() - 1, s - 1) == n - n0, n > n0 ==> d1.s() < s && self.biz(d1.s()),
            decreases -n,
//@loopbody 2
                let ghost d0 = d1.s();
                proof { if d0 == e + 1 { assert(false); } lemma_count_mono(*self, e, d0 - 1, s - 1); }
//@loop 3 "while self.is_holiday(&d1)"
                invariant e < d1.s() < d0, no_biz(*self, d1.s() + 1, d0 - 1), count(*self, e, d0 - 1) > 0,
                decreases d1.s() - e,
//@loopbody 3
                    proof { lemma_count_gap(*self, e, d1.s() - 1, d0 - 1); if d1.s() == e + 1 { assert(count(*self, e, e) == 0); assert(false); } }
//@loopend 2
                proof { lemma_count_mono(*self, d1.s() - 1, d0 - 1, s - 1); lemma_count_front(*self, d1.s() - 1, d0 - 1); lemma_count_gap(*self, d1.s(), d1.s(), d0 - 1); }
//@end

//@fn src/datetime/calendar.rs "impl Calendar" advance_by_days_with_following
//@ret r
    requires wf(date), advanceable(*self, date.s(), n as int, unit, BusinessDayConvention::Following, end_of_month), n > i32::MIN,
    ensures wf(r), advanced(*self, date.s(), n as int, unit, BusinessDayConvention::Following, end_of_month, r.s()),
//@end

//@fn src/datetime/calendar.rs "impl Calendar" advance_by_period
//@ret r
    requires wf(date), advanceable(*self, date.s(), period.length as int, period.unit, convention, end_of_month), period.length > i32::MIN,
    ensures wf(r), advanced(*self, date.s(), period.length as int, period.unit, convention, end_of_month, r.s()),
//@end

//@fn src/datetime/calendar.rs "impl Calendar" advance_by_period_with_following
//@ret r
    requires wf(date), advanceable(*self, date.s(), period.length as int, period.unit, BusinessDayConvention::Following, end_of_month), period.length > i32::MIN,
    ensures wf(r), advanced(*self, date.s(), period.length as int, period.unit, BusinessDayConvention::Following, end_of_month, r.s()),
//@end

//@fn src/datetime/calendar.rs "impl Calendar" holiday_list
//@ret r
    requires wf(from), wf(to), from.s() <= to.s(),
    ensures r@ == days(*self, from.s(), to.s(), true, include_weekends),
//@loop 0 "while d <= to"
            invariant_except_break from.s() <= d.s() <= to.s(), result@ == days(*self, from.s(), d.s() - 1, true, include_weekends),
            invariant wf(from), wf(to), from.s() <= to.s(),
            ensures result@ == days(*self, from.s(), to.s(), true, include_weekends),
            decreases to.s() - d.s() + 1,
//@end

//@fn src/datetime/calendar.rs "impl Calendar" business_day_list
//@ret r
    requires wf(from), wf(to), from.s() <= to.s(),
    ensures r@ == days(*self, from.s(), to.s(), false, false),
//@loop 0 "while d <= to"
            invariant_except_break from.s() <= d.s() <= to.s(), result@ == days(*self, from.s(), d.s() - 1, false, false),
            invariant wf(from), wf(to), from.s() <= to.s(),
            ensures result@ == days(*self, from.s(), to.s(), false, false),
            decreases to.s() - d.s() + 1,
//@end

//@fn src/datetime/calendar.rs "impl Calendar" business_days_between
//@attr #[verifier::loop_isolation(false)]
//@ret r
    requires wf(from), wf(to),
    ensures r == between(*self, from.s(), to.s(), include_first, include_last),
//@top
        let ghost a = if from.s() <= to.s() { from.s() } else { to.s() };
        let ghost b = if from.s() <= to.s() { to.s() } else { from.s() };
        proof { if a < b { lemma_count_front(*self, a - 1, b - 1); lemma_count_mono(*self, a, b - 1, b); } }
//@loop 0 "while d < to"
                    invariant a <= d.s() <= b, wd == count(*self, a - 1, d.s() - 1), 0 <= wd <= d.s() - a,
                    decreases b - d.s(),
//@loopend 0
                    proof { lemma_count_mono(*self, a - 1, d.s() - 1, d.s() - 1); }
//@loop 1 "while d < from"
                    invariant a <= d.s() <= b, wd == count(*self, a - 1, d.s() - 1), 0 <= wd <= d.s() - a,
                    decreases b - d.s(),
//@loopend 1
                    proof { lemma_count_mono(*self, a - 1, d.s() - 1, d.s() - 1); }
//@end
}

fn main() {}
}
