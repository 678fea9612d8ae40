use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
use core::ops::*;
use core::cmp::Ordering;

verus! {

//@include caldate.rs
use caldate::*;

pub type Integer = i32;
pub type Day = u32;
pub type Year = i32;

//@type src/datetime/timeunit.rs enum TimeUnit derive(Clone, Copy, Debug, PartialEq, Eq, Structural)
//@type src/datetime/period.rs struct Period derive(Clone, Copy, Debug)

//@include date_base.rs
//@include date_methods.rs

//@include date_tables.rs

pub open spec fn adv_req(s: int, n: int, u: TimeUnit) -> bool {
    MIN() <= s <= MAX() && movable(s, n, u)
}
proof fn lemma_target(s: int, k: int)
    requires MIN() <= s <= MAX(), K0() <= k < 26400,
    ensures 1900 <= k / 12 < 2200, 28 <= len(k) <= 31, len(k) == mlen(k / 12, k % 12 + 1), MIN() <= first(k) <= MAX() - 27,
        forall|d: int| 1 <= d <= len(k) ==> #[trigger] ser(k / 12, k % 12 + 1, d) == first(k) + d - 1,
        forall|y: int, m: int| 12 * y + m - 1 == k && 1 <= m <= 12 ==> #[trigger] mlen(y, m) == len(k),
        forall|y: int, m: int, d: int| 12 * y + m - 1 == k && 1 <= m <= 12 ==> #[trigger] ser(y, m, d) == first(k) + d - 1,
{
    assert forall|y: int, m: int| 12 * y + m - 1 == k && 1 <= m <= 12 implies #[trigger] mlen(y, m) == len(k) by {
        assert(k / 12 == y && k % 12 + 1 == m);
    }
    assert forall|y: int, m: int, d: int| 12 * y + m - 1 == k && 1 <= m <= 12 implies #[trigger] ser(y, m, d) == first(k) + d - 1 by {
        assert(k / 12 == y && k % 12 + 1 == m);
    }
    lemma_first_month();
    lemma_step(k);
    if k > K0() { lemma_mono(K0(), k); }
    if k < 26399 { lemma_mono(k, 26399); }
}
/// moving by months keeps the day of the month unless the target is shorter
proof fn month_arithmetic_clamps(s: int, n: int)
    requires MIN() <= s <= MAX(), movable(s, n, TimeUnit::Months),
    ensures ({
        let r = plus(s, n, TimeUnit::Months);
        &&& MIN() <= r <= MAX() && mi(r) == mi(s) + n
        &&& dom_of(r) == (if dom_of(s) <= len(mi(r)) { dom_of(s) } else { len(mi(r)) })
        &&& (dom_of(s) <= 28 ==> dom_of(r) == dom_of(s) && plus(r, -n, TimeUnit::Months) == s)
        &&& (n == 0 ==> r == s) && (n > 0 ==> r > s) && (n < 0 ==> r < s)
    }),
{
    let k = mi(s) + n;
    lemma_mi(s);
    lemma_target(s, k);
    let r = plus(s, n, TimeUnit::Months);
    lemma_unique(r, k);
    lemma_step(mi(s));
    if n > 0 { lemma_mono(mi(s), k); }
    if n < 0 { lemma_mono(k, mi(s)); }
}
/// n years are 12 n months
proof fn years_are_twelve_months(s: int, n: int)
    ensures plus(s, n, TimeUnit::Years) == plus(s, 12 * n, TimeUnit::Months), movable(s, n, TimeUnit::Years) == movable(s, 12 * n, TimeUnit::Months),
{
}

impl Date {
//@fn src/datetime/date.rs "impl Date" advance
//@attr #[verifier::loop_isolation(false)]
//@ret r
    requires adv_req(self.s(), n as int, unit),
    ensures r.s() == plus(self.s(), n as int, unit), wf(r),
//@top
        let ghost s = self.s();
        let ghost k = if unit == TimeUnit::Years { mi(s) + 12 * n } else { mi(s) + n };
        proof {
            lemma_mi(s);
            lemma_step(mi(s));
            if unit == TimeUnit::Months || unit == TimeUnit::Years { lemma_target(s, k); }
            assert(mi(s) == 12 * year_of(s) + month_of(s) - 1);
        }
//@loop 0 "while m > 12"
                    invariant 12 * y + m - 1 == k, m <= 12 + n || m <= 12, m >= 1 || m >= 1 + n, 1800 <= y <= 2400, -2_000_000_100 <= m <= 2_000_000_100, 1 <= d <= 31, d == dom_of(s),
                        m < 1 ==> y == year_of(s),
                    decreases m,
//@loop 1 "while m < 1"
                    invariant 12 * y + m - 1 == k, m <= 12, 1800 <= y <= 2400, -2_000_000_100 <= m, 1 <= d <= 31, d == dom_of(s),
                    decreases 12 - m,
//@end
}
impl AddSpecImpl<Period> for Date {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, p: Period) -> bool { wf(self) && movable(self.s(), p.length as int, p.unit) && p.length != i32::MIN }
    open spec fn add_spec(self, p: Period) -> Date { day(plus(self.s(), p.length as int, p.unit)) }
}
impl Add<Period> for Date {
    type Output = Date;
//@fn src/datetime/date.rs "impl Add<Period> for Date" add
//@end
}
impl<'a> AddSpecImpl<&'a Period> for &'a Date {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, p: &'a Period) -> bool { wf(*self) && movable(self.s(), p.length as int, p.unit) && p.length != i32::MIN }
    open spec fn add_spec(self, p: &'a Period) -> Date { day(plus(self.s(), p.length as int, p.unit)) }
}
impl<'a> Add<&'a Period> for &'a Date {
    type Output = Date;
//@fn src/datetime/date.rs "impl<'a> Add<&'a Period> for &'a Date" add
//@end
}
impl<'a> AddSpecImpl<Period> for &'a Date {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, p: Period) -> bool { wf(*self) && movable(self.s(), p.length as int, p.unit) && p.length != i32::MIN }
    open spec fn add_spec(self, p: Period) -> Date { day(plus(self.s(), p.length as int, p.unit)) }
}
impl<'a> Add<Period> for &'a Date {
    type Output = Date;
//@fn src/datetime/date.rs "impl<'a> Add<Period> for &'a Date" add
//@end
}
impl AddAssignSpecImpl<Period> for Date {
    open spec fn obeys_add_assign_spec() -> bool { true }
    open spec fn add_assign_req(&self, p: Period) -> bool { wf(*self) && movable(self.s(), p.length as int, p.unit) && p.length != i32::MIN }
    open spec fn add_assign_spec(&self, p: Period) -> &Date { &day(plus(self.s(), p.length as int, p.unit)) }
}
impl AddAssign<Period> for Date {
//@fn src/datetime/date.rs "impl AddAssign<Period> for Date" add_assign
//@end
}
impl SubSpecImpl<Period> for Date {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, p: Period) -> bool { wf(self) && movable(self.s(), -(p.length as int), p.unit) && p.length != i32::MIN }
    open spec fn sub_spec(self, p: Period) -> Date { day(plus(self.s(), -(p.length as int), p.unit)) }
}
impl Sub<Period> for Date {
    type Output = Date;
//@fn src/datetime/date.rs "impl Sub<Period> for Date" sub
//@end
}
impl<'a> SubSpecImpl<Period> for &'a Date {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, p: Period) -> bool { wf(*self) && movable(self.s(), -(p.length as int), p.unit) && p.length != i32::MIN }
    open spec fn sub_spec(self, p: Period) -> Date { day(plus(self.s(), -(p.length as int), p.unit)) }
}
impl<'a> Sub<Period> for &'a Date {
    type Output = Date;
//@fn src/datetime/date.rs "impl<'a> Sub<Period> for &'a Date" sub
//@end
}
impl SubAssignSpecImpl<Period> for Date {
    open spec fn obeys_sub_assign_spec() -> bool { true }
    open spec fn sub_assign_req(&self, p: Period) -> bool { wf(*self) && movable(self.s(), -(p.length as int), p.unit) && p.length != i32::MIN }
    open spec fn sub_assign_spec(&self, p: Period) -> &Date { &day(plus(self.s(), -(p.length as int), p.unit)) }
}
impl SubAssign<Period> for Date {
//@fn src/datetime/date.rs "impl SubAssign<Period> for Date" sub_assign
//@end
}
fn main() {}
}
