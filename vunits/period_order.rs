use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use core::ops::*;
use core::cmp::Ordering;

verus! {

pub type Integer = i32;

//@type src/datetime/timeunit.rs enum TimeUnit derive(Clone, Copy, Debug, PartialEq, Eq, Structural)
//@type src/datetime/period.rs struct Period derive(Clone, Copy, Debug)

use TimeUnit::*;

pub open spec fn fits(n: int) -> bool {
    -0x8000_0000 < n < 0x8000_0000
}
//@include period_spec.rs

/// the span in days can be written down
pub open spec fn small(p: Period) -> bool {
    calendar_unit(p.unit) && fits(366 * p.length)
}
pub open spec fn least(p: Period) -> int {
    match p.unit {
        TimeUnit::Days => p.length as int,
        TimeUnit::Weeks => 7 * p.length,
        TimeUnit::Months => if p.length >= 0 { 28 * p.length } else { 31 * p.length },
        _ => if p.length >= 0 { 365 * p.length } else { 366 * p.length },
    }
}
pub open spec fn most(p: Period) -> int {
    match p.unit {
        TimeUnit::Days => p.length as int,
        TimeUnit::Weeks => 7 * p.length,
        TimeUnit::Months => if p.length >= 0 { 31 * p.length } else { 28 * p.length },
        _ => if p.length >= 0 { 366 * p.length } else { 365 * p.length },
    }
}
pub open spec fn order(x: int, y: int) -> Option<Ordering> {
    Some(if x < y { Ordering::Less } else if x == y { Ordering::Equal } else { Ordering::Greater })
}
pub open spec fn period_order(p: Period, q: Period) -> Option<Ordering> {
    if p.length == 0 || q.length == 0 || dayish(p.unit) == dayish(q.unit) {
        order(months_of(p) + days_of(p), months_of(q) + days_of(q))
    } else if most(p) < least(q) {
        Some(Ordering::Less)
    } else if least(p) > most(q) {
        Some(Ordering::Greater)
    } else {
        None
    }
}

impl Period {
//@fn src/datetime/period.rs "impl Period" days_min_max
//@ret r
    requires small(*self),
    ensures
        r.0 == (match self.unit { TimeUnit::Days => self.length as int, TimeUnit::Weeks => 7 * self.length,
                                  TimeUnit::Months => 28 * self.length, _ => 365 * self.length }),
        r.1 == (match self.unit { TimeUnit::Days => self.length as int, TimeUnit::Weeks => 7 * self.length,
                                  TimeUnit::Months => 31 * self.length, _ => 366 * self.length }),
//@end
}

/// std: comparing two orderings with == compares the values
mod std_axioms {
    use vstd::prelude::*;
    use vstd::std_specs::cmp::*;
    use core::cmp::Ordering;
    pub broadcast axiom fn axiom_ordering_eq(a: Ordering, b: Ordering)
        ensures <Ordering as PartialEqSpec<Ordering>>::obeys_eq_spec(), #[trigger] a.eq_spec(&b) <==> a == b;
}

// the two trait methods, stated as methods of the type so that the range of lengths can be a precondition
impl Period {
//@fn src/datetime/period.rs "impl PartialEq for Period" eq
//@ret r
    requires small(*self), small(*other),
    ensures r == (period_order(*self, *other) == Some(Ordering::Equal)),
//@top
        proof { assert forall|a: Ordering, b: Ordering| true implies #[trigger] a.eq_spec(&b) == (a == b) by { std_axioms::axiom_ordering_eq(a, b); }
                std_axioms::axiom_ordering_eq(Ordering::Equal, Ordering::Equal); }
//@end

//@fn src/datetime/period.rs "impl PartialOrd for Period" partial_cmp
//@ret r
    requires small(*self), small(*other),
    ensures r == period_order(*self, *other),
//@end
}

// ------------------------------------------------------------------ lemmas over the contract
proof fn swapping_the_arguments_swaps_the_answer(p: Period, q: Period)
    requires small(p), small(q),
    ensures
        period_order(p, q) == Some(Ordering::Less) <==> period_order(q, p) == Some(Ordering::Greater),
        period_order(p, q) == Some(Ordering::Equal) <==> period_order(q, p) == Some(Ordering::Equal),
        period_order(p, p) == Some(Ordering::Equal),
{
}
pub open spec fn can_be(p: Period, days: int) -> bool { least(p) <= days <= most(p) }
proof fn comparison_is_sound(p: Period, q: Period)
    requires small(p), small(q), p.length != 0 && q.length != 0 && dayish(p.unit) != dayish(q.unit),
    ensures
        period_order(p, q) == Some(Ordering::Less) <==> forall|x: int, y: int| can_be(p, x) && can_be(q, y) ==> x < y,
        period_order(p, q) == Some(Ordering::Greater) <==> forall|x: int, y: int| can_be(p, x) && can_be(q, y) ==> x > y,
{
    assert(can_be(p, least(p)) && can_be(p, most(p)) && can_be(q, least(q)) && can_be(q, most(q)));
}

fn main() {}
}
