use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
use core::ops::*;
use core::cmp::Ordering;

verus! {

//@include caldate.rs
use caldate::*;

pub type Integer = i32;
pub type Size = usize;
pub type Day = u32;
pub type Year = i32;

//@type src/datetime/timeunit.rs enum TimeUnit derive(Clone, Copy, Debug, PartialEq, Eq, Structural)

//@include date_base.rs
//@include date_methods.rs
//@include date_tables.rs
use Month::*;
use Weekday::*;

impl Date {
    // C04: the nth given weekday of a month
    #[verifier::external_body]
    pub fn nth_weekday(nth: Size, day_of_week: Weekday, m: Month, y: Year) -> (r: Date)
        requires 1900 <= y < 2200, 1 <= nth <= 4,
        ensures wf(r), mi(r.s()) == 12 * y + month_number(m) - 1, 7 * (nth - 1) < dom_of(r.s()) <= 7 * nth, weekday_at(r.s()) == day_of_week,
    { unimplemented!() }
    // the null date
    #[verifier::external_body]
    pub fn default() -> (r: Date)
        ensures r.s() == MIN(),
    { unimplemented!() }
}

//@type src/context/pricing_context.rs struct PricingContext derive(Clone, Copy, Debug)
//@type src/datetime/imm.rs struct IMM

/// third Wednesdays, of a quarter month for the main cycle
pub open spec fn imm(s: int, main_cycle: bool) -> bool {
    weekday_at(s) == Weekday::Wednesday && 15 <= dom_of(s) <= 21 && (main_cycle ==> month_of(s) % 3 == 0)
}
/// the earliest one strictly later
pub open spec fn next_imm(s: int, main_cycle: bool, r: int) -> bool {
    r > s && imm(r, main_cycle) && forall|x: int| s < x < r ==> !#[trigger] imm(x, main_cycle)
}
proof fn lemma_one_per_month(a: int, b: int)
    requires a >= 2, b >= 2, imm(a, false), imm(b, false), mi(a) == mi(b),
    ensures a == b,
{
    hide(ser);
    hide(mlen);
    hide(mi);
    hide(caldate::leap);
    hide(first);
    if a <= b { lemma_order(a, b); } else { lemma_order(b, a); }
    assert(-6 <= a - b <= 6);
    assert(a % 7 == 4 && b % 7 == 4);
}

/// the month the code starts from: the first of the cycle, not after its third Wednesday
pub open spec fn start_month(s: int, main_cycle: bool) -> int {
    let k = mi(s);
    let offset: int = if main_cycle { 3 } else { 1 };
    let skip = offset - (k + 1) % offset;
    if skip != offset || dom_of(s) > 21 { k + skip } else { k }
}
proof fn lemma_later_month(s: int, main_cycle: bool, r: int)
    requires s >= 2, r > s, imm(r, main_cycle), mi(r) == start_month(s, main_cycle),
    ensures next_imm(s, main_cycle, r),
{
    hide(ser);
    hide(mlen);
    hide(mi);
    hide(caldate::leap);
    hide(first);
    lemma_mi(s);
    lemma_mi(r);
    assert forall|x: int| s < x < r implies !#[trigger] imm(x, main_cycle) by {
        lemma_mi(x);
        lemma_order(s, x);
        lemma_order(x, r);
        if imm(x, main_cycle) {
            if mi(x) == mi(r) { lemma_one_per_month(x, r); }
            assert((mi(x) + 1) % 3 == month_of(x) % 3) by { assert(month_of(x) == mi(x) % 12 + 1); }
            if mi(x) == mi(s) { assert(dom_of(x) >= dom_of(s)); }
        }
    }
}
proof fn lemma_same_month_again(s: int, main_cycle: bool, q: int, t: int, r: int)
    requires s >= 2, q >= 2, q <= s, imm(q, false), mi(q) == mi(s), t > s, mi(t) == mi(s), next_imm(t, main_cycle, r), dom_of(t) == 22,
    ensures next_imm(s, main_cycle, r),
{
    hide(ser);
    hide(mlen);
    hide(mi);
    hide(caldate::leap);
    hide(first);
    assert forall|x: int| s < x < r implies !#[trigger] imm(x, main_cycle) by {
        lemma_mi(x);
        lemma_order(s, x);
        if x < t {
            lemma_order(x, t);
            if imm(x, main_cycle) { lemma_one_per_month(x, q); }
        }
        if x == t { assert(!imm(x, main_cycle)); }
    }
}
/// what next_date needs of the calendar
proof fn lemma_month(s: int, k: int, t: int)
    requires MIN() <= s <= MAX(), K0() <= k < 26400, t == first(k) + 21,
    ensures
        1 <= month_of(s) <= 12, mi(s) == 12 * year_of(s) + month_of(s) - 1, 1900 <= year_of(s) < 2200, 1 <= dom_of(s) <= 31, mi(s) >= K0(),
        MIN() < t <= MAX(), mi(t) == k, dom_of(t) == 22,
        k == mi(s) && dom_of(s) <= 21 ==> t > s,
        forall|y: int, m: int, d: int| 12 * y + m - 1 == k && 1 <= m <= 12 ==> #[trigger] ser(y, m, d) == first(k) + d - 1,
        forall|y: int, m: int| 12 * y + m - 1 == k && 1 <= m <= 12 ==> 28 <= #[trigger] mlen(y, m) <= 31,
{
    hide(mi);
    hide(caldate::leap);
    lemma_mi(s);
    lemma_first_month();
    lemma_step(k);
    if k > K0() { lemma_mono(K0(), k); }
    if k < 26399 { lemma_mono(k, 26399); }
    lemma_unique(t, k);
    assert forall|y: int, m: int, d: int| 12 * y + m - 1 == k && 1 <= m <= 12 implies #[trigger] ser(y, m, d) == first(k) + d - 1 by {
        assert(k / 12 == y && k % 12 + 1 == m);
    }
    assert forall|y: int, m: int| 12 * y + m - 1 == k && 1 <= m <= 12 implies 28 <= #[trigger] mlen(y, m) <= 31 by {
        assert(k / 12 == y && k % 12 + 1 == m);
    }
}
proof fn lemma_start(s: int, main_cycle: bool)
    requires MIN() <= s <= MAX(), mi(s) <= 26396,
    ensures mi(s) <= start_month(s, main_cycle) <= mi(s) + 3, K0() <= start_month(s, main_cycle) < 26400,
        main_cycle ==> (start_month(s, main_cycle) + 1) % 3 == 0,
        start_month(s, main_cycle) == mi(s) ==> dom_of(s) <= 21,
{
    hide(ser);
    hide(mlen);
    hide(mi);
    hide(caldate::leap);
    hide(first);
    lemma_mi(s);
}
/// the third Wednesday r of the month the search starts from
proof fn lemma_search(s: int, main_cycle: bool, k: int, t: int, r: int)
    requires MIN() <= s <= MAX(), mi(s) <= 26396, k == start_month(s, main_cycle), t == first(k) + 21,
        MIN() <= r <= MAX(), mi(r) == k, weekday_at(r) == Weekday::Wednesday, 15 <= dom_of(r) <= 21,
    ensures
        r > s ==> next_imm(s, main_cycle, r),
        r <= s ==> k == mi(s) && dom_of(s) <= 21,
        r <= s ==> forall|q: int| next_imm(t, main_cycle, q) ==> #[trigger] next_imm(s, main_cycle, q),
{
    hide(ser);
    hide(mlen);
    hide(mi);
    hide(caldate::leap);
    hide(first);
    lemma_start(s, main_cycle);
    lemma_month(s, k, t);
    assert((k + 1) % 3 == (k % 12 + 1) % 3);
    assert(imm(r, main_cycle) && imm(r, false));
    if r > s {
        lemma_later_month(s, main_cycle, r);
    } else {
        lemma_order(r, s);
        assert forall|q: int| next_imm(t, main_cycle, q) implies #[trigger] next_imm(s, main_cycle, q) by {
            lemma_same_month_again(s, main_cycle, r, t, q);
        }
    }
}
pub open spec fn from(i: IMM, date: Date) -> int {
    if date.s() == MIN() { i.pricing_context.eval_date.s() } else { date.s() }
}

impl IMM {
//@fn src/datetime/imm.rs "impl IMM" next_date
//@ret r
    requires wf(*date), wf(self.pricing_context.eval_date), self.pricing_context.eval_date.s() > MIN(),
        mi(from(*self, *date)) <= 26396,
    ensures wf(r), next_imm(from(*self, *date), main_cycle, r.s()),
    decreases (if dom_of(from(*self, *date)) > 21 { 0int } else { 1int }),
//@top
        hide(ser); hide(mlen); hide(mi); hide(caldate::leap); hide(first); hide(next_imm);
        let ghost s = from(*self, *date);
        let ghost k = start_month(s, main_cycle);
        let ghost t = first(k) + 21;
        proof {
            lemma_start(s, main_cycle);
            lemma_month(s, k, t);
        }
//@after "let mut result = Date::nth_weekday(3, Wednesday, m, y);"
        proof { lemma_search(s, main_cycle, k, t, result.s()); }
//@end
}
fn main() {}
}
