use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use core::ops::*;
use core::cmp::Ordering;

verus! {

//@include caldate.rs
use caldate::*;

pub type Integer = i32;
pub type Size = usize;

//@type src/datetime/timeunit.rs enum TimeUnit derive(Clone, Copy, Debug, PartialEq, Eq, Structural)
//@type src/datetime/period.rs struct Period derive(Clone, Copy, Debug)
//@type src/datetime/businessdayconvention.rs enum BusinessDayConvention derive(Clone, Copy, Debug, PartialEq, Eq, Structural)
//@type src/datetime/dategenerationrule.rs enum DateGenerationRule derive(Clone, Copy, Debug, PartialEq, Eq, Structural)
use TimeUnit::*;

//@include date_base.rs
//@include date_methods.rs
impl Date {
    // the null date
    #[verifier::external_body]
    pub fn default() -> (r: Date)
        ensures r.s() == MIN(),
    { unimplemented!() }
}
/// assert! fails by a panic: the call does not return
#[verifier::external_body]
pub fn reject_unless(b: bool)
    ensures b,
{ unimplemented!() }

//@type src/context/pricing_context.rs struct PricingContext derive(Clone, Copy, Debug)
#[verifier::external_body]
pub struct Calendar { _p: u8 }
//@type src/datetime/schedule.rs struct Schedule
impl Clone for Schedule {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}

pub open spec fn increasing(x: Seq<Date>) -> bool { forall |i: int, j: int| 0 <= i < j < x.len() ==> (#[trigger] x[i]).s() < (#[trigger] x[j]).s() }
impl Schedule {
    /// what C16 says of a generated schedule: a flag per period, dates in order
    pub open spec fn ok(self) -> bool {
        self.dates.len() >= 2 && self.is_regular.len() == self.dates.len() - 1 && increasing(self.dates@)
    }
}
/// i is the number of dates before s
pub open spec fn before(x: Seq<Date>, s: int, i: int) -> bool {
    0 <= i <= x.len() && (forall |k: int| 0 <= k < i ==> (#[trigger] x[k]).s() < s) && (forall |k: int| i <= k < x.len() ==> (#[trigger] x[k]).s() >= s)
}
/// the date list of a schedule truncated after s
pub open spec fn kept_after(x: Seq<Date>, s: int, k: int) -> Seq<Date> {
    if x[k].s() == s { x.subrange(k, x.len() as int) } else { seq![day(s)] + x.subrange(k, x.len() as int) }
}
pub open spec fn flags_after(x: Seq<Date>, f: Seq<bool>, s: int, k: int) -> Seq<bool> {
    if x[k].s() == s { f.subrange(k, f.len() as int) } else { seq![false] + f.subrange(k, f.len() as int) }
}
/// ... and until s, which k dates precede
pub open spec fn kept_until(x: Seq<Date>, s: int, k: int) -> Seq<Date> { x.subrange(0, k).push(day(s)) }
pub open spec fn flags_until(x: Seq<Date>, f: Seq<bool>, s: int, k: int) -> Seq<bool> {
    if x[k].s() == s { f.subrange(0, k) } else { f.subrange(0, k - 1).push(false) }
}
proof fn the_count_is_unique(x: Seq<Date>, s: int, i: int, j: int)
    requires before(x, s, i), before(x, s, j),
    ensures i == j,
{
    if i < j { assert(x[i].s() < s); }
    if j < i { assert(x[j].s() < s); }
}

pub open spec fn at_least<T: PartialOrd>(a: T, b: T) -> bool { a.partial_cmp_spec(&b) == Some(Ordering::Greater) || a.partial_cmp_spec(&b) == Some(Ordering::Equal) }
//@fn src/maths/bounds.rs "" lower_bound
//@indexed
//@ret r
    requires T::obeys_partial_cmp_spec(),
    ensures r <= xs.len(), forall |k: int| 0 <= k < r ==> !at_least(#[trigger] xs[k], value), r < xs.len() ==> at_least(xs[r as int], value), r > 0 ==> !at_least(xs[r - 1], value),
//@loop 0 "for i in 0..xs.len()"
        invariant T::obeys_partial_cmp_spec(), forall |k: int| 0 <= k < i ==> !at_least(#[trigger] xs[k], value),
//@end

/// the reference date, the evaluation date standing in for the null one
pub open spec fn reference(c: Schedule, d: Date) -> int { if d.s() == MIN() { c.pricing_context.eval_date.s() } else { d.s() } }

impl Schedule {
//@fn src/datetime/schedule.rs "impl Schedule" lower_bound
//@ret r
    requires self.ok(),
    ensures before(self.dates@, reference(*self, *ref_date), r as int),
//@end
//@fn src/datetime/schedule.rs "impl Schedule" next_date
//@ret r
    requires self.ok(),
    ensures ({
        let s = reference(*self, *ref_date);
        if exists |k: int| 0 <= k < self.dates.len() && self.dates[k].s() >= s {
            self.dates@.contains(r) && r.s() >= s && forall |k: int| 0 <= k < self.dates.len() && (#[trigger] self.dates[k]).s() >= s ==> r.s() <= self.dates[k].s()
        } else { r.s() == MIN() }
    }),
//@end
//@fn src/datetime/schedule.rs "impl Schedule" previous_date
//@ret r
    requires self.ok(),
    ensures ({
        let s = reference(*self, *ref_date);
        if exists |k: int| 0 <= k < self.dates.len() && self.dates[k].s() < s {
            self.dates@.contains(r) && r.s() < s && forall |k: int| 0 <= k < self.dates.len() && (#[trigger] self.dates[k]).s() < s ==> r.s() >= self.dates[k].s()
        } else { r.s() == MIN() }
    }),
//@end
//@fn src/datetime/schedule.rs "impl Schedule" start_date
//@ret r
    requires self.ok(),
    ensures *r == self.dates[0],
//@end
//@fn src/datetime/schedule.rs "impl Schedule" end_date
//@ret r
    requires self.ok(),
    ensures *r == self.dates[self.dates.len() - 1],
//@end
//@fn src/datetime/schedule.rs "impl Schedule" size
//@ret r
    ensures r == self.dates.len(),
//@end
//@fn src/datetime/schedule.rs "impl Schedule" dates
//@ret r
    ensures r@ =~= self.dates@,
//@end
//@fn src/datetime/schedule.rs "impl Schedule" empty
//@ret r
    ensures r == (self.dates.len() == 0),
//@end
//@fn src/datetime/schedule.rs "impl Schedule" has_is_regular
//@ret r
    ensures r == (self.is_regular.len() > 0),
//@end
//@fn src/datetime/schedule.rs "impl Schedule" is_regular
//@partial
//@ret r
    // an index outside [1, n] does not return
    ensures 1 <= i <= self.is_regular.len(), r == self.is_regular[i - 1],
//@end
//@fn src/datetime/schedule.rs "impl Schedule" after
//@partial
//@ret r
    requires self.ok(),
    ensures r.ok(), truncation_date.s() < self.dates[self.dates.len() - 1].s(),
        truncation_date.s() <= self.dates[0].s() ==> r.dates@ == self.dates@ && r.is_regular@ == self.is_regular@,
        truncation_date.s() > self.dates[0].s() ==> exists |k: int| #![trigger before(self.dates@, truncation_date.s(), k)] before(self.dates@, truncation_date.s(), k)
            && r.dates@ == kept_after(self.dates@, truncation_date.s(), k) && r.is_regular@ == flags_after(self.dates@, self.is_regular@, truncation_date.s(), k),
        r.tenor == self.tenor, r.rule == self.rule, r.convention == self.convention, r.calendar == self.calendar, r.end_of_month == self.end_of_month,
//@loop 0 "while &result.dates[0] < truncation_date"
                invariant
                    self.ok(),
                    truncation_date.s() < self.dates[self.dates.len() - 1].s(),
                    1 <= result.dates.len() <= self.dates.len(),
                    result.dates@ == self.dates@.subrange(self.dates.len() - result.dates.len(), self.dates.len() as int),
                    result.is_regular@ == self.is_regular@.subrange(self.dates.len() - result.dates.len(), self.is_regular.len() as int),
                    forall |k: int| 0 <= k < self.dates.len() - result.dates.len() ==> (#[trigger] self.dates[k]).s() < truncation_date.s(),
                    result == (Schedule { dates: result.dates, is_regular: result.is_regular, ..*self }),
                decreases result.dates.len(),
//@before "if *truncation_date != result.dates[0]"
            let ghost k: int = self.dates.len() - result.dates.len();
            proof {
                assert(self.dates[k].s() == result.dates[0].s());
                assert(before(self.dates@, truncation_date.s(), k)) by {
                    assert forall |j: int| k <= j < self.dates.len() implies (#[trigger] self.dates[j]).s() >= truncation_date.s() by {
                        if j > k { assert(self.dates[k].s() < self.dates[j].s()); }
                    }
                }
            }
//@before "if &result.next_to_last_date <= truncation_date"
            proof {
                assert(result.dates@ =~= kept_after(self.dates@, truncation_date.s(), k));
                assert(result.is_regular@ =~= flags_after(self.dates@, self.is_regular@, truncation_date.s(), k));
            }
//@end
//@fn src/datetime/schedule.rs "impl Schedule" until
//@partial
//@ret r
    requires self.ok(),
    ensures r.ok(), truncation_date.s() > self.dates[0].s(),
        truncation_date.s() >= self.dates[self.dates.len() - 1].s() ==> r.dates@ == self.dates@ && r.is_regular@ == self.is_regular@,
        truncation_date.s() < self.dates[self.dates.len() - 1].s() ==> exists |k: int| #![trigger before(self.dates@, truncation_date.s(), k)] before(self.dates@, truncation_date.s(), k)
            && r.dates@ == kept_until(self.dates@, truncation_date.s(), k) && r.is_regular@ == flags_until(self.dates@, self.is_regular@, truncation_date.s(), k),
        r.tenor == self.tenor, r.rule == self.rule, r.convention == self.convention, r.calendar == self.calendar, r.end_of_month == self.end_of_month,
//@loop 0 "while &result.dates[idx] > truncation_date"
                invariant
                    self.ok(),
                    self.dates[0].s() < truncation_date.s(),
                    1 <= result.dates.len() <= self.dates.len(),
                    idx == result.dates.len() - 1,
                    result.dates@ == self.dates@.subrange(0, result.dates.len() as int),
                    result.is_regular@ == self.is_regular@.subrange(0, result.dates.len() - 1),
                    forall |k: int| result.dates.len() <= k < self.dates.len() ==> (#[trigger] self.dates[k]).s() > truncation_date.s(),
                    result == (Schedule { dates: result.dates, is_regular: result.is_regular, ..*self }),
                decreases result.dates.len(),
//@before "if truncation_date != &result.dates[result.dates.len() - 1]"
            let ghost n = result.dates.len();
            let ghost k: int = if self.dates[n - 1].s() == truncation_date.s() { n - 1 } else { n as int };
            proof {
                assert(self.dates[n - 1].s() == result.dates[n - 1].s());
                assert(before(self.dates@, truncation_date.s(), k)) by {
                    assert forall |j: int| 0 <= j < k implies (#[trigger] self.dates[j]).s() < truncation_date.s() by {
                        if j < n - 1 { assert(self.dates[j].s() < self.dates[n - 1].s()); }
                    }
                }
            }
//@before "if &result.next_to_last_date >= truncation_date"
            proof {
                assert(result.dates@ =~= kept_until(self.dates@, truncation_date.s(), k));
                assert(result.is_regular@ =~= flags_until(self.dates@, self.is_regular@, truncation_date.s(), k));
            }
//@end
}
fn main() {}
}
