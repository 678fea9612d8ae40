use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
use core::ops::*;
use core::cmp::Ordering;

verus! {

//@include caldate.rs
use caldate::*;

pub type Integer = i32;
pub type Size = usize;
pub type Day = u32;
pub type Year = i32;
pub type Time = Real;

//@include real.rs

//@type src/datetime/timeunit.rs enum TimeUnit derive(Clone, Copy, Debug, PartialEq, Eq, Structural)

//@type src/datetime/period.rs struct Period derive(Clone, Copy, Debug)
impl Period {
    #[verifier::external_body]
    pub fn new(length: Integer, unit: TimeUnit) -> (r: Period)
        ensures r.length == length, r.unit == unit,
    { unimplemented!() }
}
//@include date_base.rs
use TimeUnit::*;

/// Dates moved by periods, for callers that rely on the rejection of moves out of the range (C02, C03: rejected in every
/// spelling): a move that returns was possible.
impl AddSpecImpl<Period> for Date {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, p: Period) -> bool { wf(self) }
    open spec fn add_spec(self, p: Period) -> Date { day(plus(self.s(), p.length as int, p.unit)) }
}
impl Add<Period> for Date {
    type Output = Date;
    #[verifier::external_body]
    fn add(self, p: Period) -> (r: Date)
        ensures movable(self.s(), p.length as int, p.unit),
    { unimplemented!() }
}
impl<'a> AddSpecImpl<Period> for &'a Date {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, p: Period) -> bool { wf(*self) }
    open spec fn add_spec(self, p: Period) -> Date { day(plus(self.s(), p.length as int, p.unit)) }
}
impl<'a> Add<Period> for &'a Date {
    type Output = Date;
    #[verifier::external_body]
    fn add(self, p: Period) -> (r: Date)
        ensures movable(self.s(), p.length as int, p.unit),
    { unimplemented!() }
}
impl SubSpecImpl<Period> for Date {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, p: Period) -> bool { wf(self) && p.length > i32::MIN }
    open spec fn sub_spec(self, p: Period) -> Date { day(plus(self.s(), -p.length as int, p.unit)) }
}
impl Sub<Period> for Date {
    type Output = Date;
    #[verifier::external_body]
    fn sub(self, p: Period) -> (r: Date)
        ensures movable(self.s(), -p.length as int, p.unit),
    { unimplemented!() }
}
impl Date {
    #[verifier::external_body]
    pub fn days_between(d1: &Date, d2: &Date) -> (r: Time)
        requires wf(*d1), wf(*d2),
        ensures r.v() == (d2.s() - d1.s()) as real,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Date)
        ensures r.s() == MIN(),
    { unimplemented!() }
}

// --- Actual/Actual (ISMA) without a schedule
pub open spec fn product(a: int, b: int) -> int { a * b }
/// the product of two integers, kept from the solver's nonlinear arithmetic
pub fn times(a: i32, b: i32) -> (r: i32)
    requires i32::MIN <= product(a as int, b as int) <= i32::MAX,
    ensures r == product(a as int, b as int),
{
    a * b
}
/// the number of months a reference period stands for
pub open spec fn months_of(s: int, e: int) -> int { rround(12real * ((e - s) as real) / 365real) }
/// days over the days of the reference period they lie in, times its length
pub open spec fn part(a: int, b: int, s: int, e: int) -> real {
    (months_of(s, e) as real) / 12real * ((b - a) as real) / ((e - s) as real)
}
pub open spec fn months_later(s: int, n: int) -> int { plus(s, n, TimeUnit::Months) }
/// the reference period in use: the dates themselves where none is given, and the year from the first date for a
/// period that stands for no month
pub open spec fn reference(a: int, b: int, rs: int, re: int) -> (int, int) {
    let s = if rs == MIN() { a } else { rs };
    let e = if re == MIN() { b } else { re };
    if months_of(s, e) == 0 { (a, plus(a, 1, TimeUnit::Years)) } else { (s, e) }
}
/// the fraction from a to b: over the reference period; before it, over the notional periods that precede it; after it,
/// over the notional periods that follow
pub open spec fn old_isma(a: int, b: int, rs: int, re: int, r: real) -> bool
    decreases (if reference(a, b, rs, re).0 > a { reference(a, b, rs, re).0 - a } else { 0 }),
{
    let (s, e) = reference(a, b, rs, re);
    let m = months_of(s, e);
    if b <= e && a >= s {
        r == part(a, b, s, e)
    } else if b <= e {
        let p = months_later(s, -m);
        let b0 = if b > s { s } else { b };
        let rest = if b > s { part(s, b, s, e) } else { 0real };
        if reference(a, b0, p, s).0 < s { old_isma(a, b0, p, s, r - rest) } else { false }
    } else {
        exists|k: int| k >= 0 && {
            let q = #[trigger] months_later(e, product(m, k));
            let q1 = months_later(e, product(m, k + 1));
            q <= b < q1 && r == part(a, e, s, e) + k as real * (m as real / 12real) + part(q, b, q, q1)
        }
    }
}
proof fn lemma_later(s: int, n: int)
    requires MIN() <= s <= MAX(), movable(s, n, TimeUnit::Months),
    ensures MIN() <= months_later(s, n) <= MAX(), n == 0 ==> months_later(s, n) == s, n > 0 ==> months_later(s, n) > s,
        mi(months_later(s, n)) == mi(s) + n, dom_of(months_later(s, n)) <= dom_of(s),
        dom_of(months_later(s, n)) == dom_of(s) || dom_of(months_later(s, n)) == len(mi(s) + n),
        months_later(s, n) == first(mi(s) + n) + dom_of(months_later(s, n)) - 1,
{
    hide(ser); hide(mi); hide(mlen); hide(first); hide(len);
    lemma_mi(s);
    let k = mi(s) + n;
    let t = months_later(s, n);
    lemma_first_month();
    lemma_step(k);
    if k > K0() { lemma_mono(K0(), k); }
    if k < 26399 { lemma_mono(k, 26399); }
    assert(len(26399) == 31) by (compute);
    lemma_unique(t, k);
    if n > 0 { lemma_mono(mi(s), k); }
}
/// two dates whole months from a third are at least 25 days apart
proof fn lemma_apart(s: int, i: int, j: int)
    requires MIN() <= s <= MAX(), movable(s, i, TimeUnit::Months), movable(s, j, TimeUnit::Months), i < j,
    ensures months_later(s, j) - months_later(s, i) >= 25, i == 0 || j == 0 ==> months_later(s, j) - months_later(s, i) >= 28 - 3,
{
    hide(ser); hide(mi); hide(mlen); hide(first); hide(len); hide(months_later);
    lemma_mi(s);
    lemma_later(s, i);
    lemma_later(s, j);
    lemma_step(mi(s) + j);
    lemma_step(mi(s) + i);
    lemma_mono(mi(s) + i, mi(s) + j);
    assert(dom_of(s) <= 31) by { reveal(mlen); }
}
proof fn lemma_months(s: int, e: int)
    requires MIN() <= s <= e <= MAX(),
    ensures months_of(s, e) >= 0, e - s >= 16 ==> months_of(s, e) >= 1, months_of(s, e) <= 3603,
{
    let x = 12real * ((e - s) as real) / 365real;
    assert(x >= 0real && x <= 3603real && (e - s >= 16 ==> x >= 0.5real)) by (nonlinear_arith)
        requires x == 12real * ((e - s) as real) / 365real, 0 <= e - s <= 109572;
    assert(rround(x) == (x + 0.5real).floor());
}
proof fn lemma_one_year(a: int)
    requires MIN() <= a <= MAX(),
    ensures a + 364 <= plus(a, 1, TimeUnit::Years) <= a + 366, months_of(a, plus(a, 1, TimeUnit::Years)) == 12,
        movable(a, 1, TimeUnit::Years) ==> plus(a, 1, TimeUnit::Years) <= MAX(),
{
    hide(ser); hide(mi); hide(mlen);
    lemma_mi(a);
    let e = plus(a, 1, TimeUnit::Years);
    lemma_year_long(mi(a));
    let x = 12real * ((e - a) as real) / 365real;
    assert(len(mi(a) + 12) >= len(mi(a)) - 1) by {
        reveal(mlen);
        assert((mi(a) + 12) / 12 == mi(a) / 12 + 1 && (mi(a) + 12) % 12 == mi(a) % 12);
    }
    assert(dom_of(a) <= len(mi(a)));
    assert(x >= 11.6real && x < 12.4real) by (nonlinear_arith)
        requires x == 12real * ((e - a) as real) / 365real, 364 <= e - a <= 366;
    if movable(a, 1, TimeUnit::Years) { lemma_later(a, 12); }
}
/// a reference period before a date
proof fn lemma_preceding(a: int, b: int, s: int, m: int)
    requires MIN() <= a < s <= MAX(), 1 <= m <= 3603, movable(s, -m, TimeUnit::Months), a < b <= s,
    ensures ({
        let p = months_later(s, -m);
        let (x, y) = reference(a, b, p, s);
        MIN() <= p < s && x < s && b <= y && (x == p || x == a)
    }),
{
    hide(ser); hide(mi); hide(mlen); hide(first); hide(len); hide(months_of); hide(months_later); hide(plus);
    let p = months_later(s, -m);
    lemma_top(s);
    lemma_later(s, -m);
    lemma_later(s, 0);
    lemma_apart(s, -m, 0);
    lemma_months(p, s);
    lemma_months(a, s);
    lemma_one_year(a);
}
proof fn lemma_nothing(a: int, s: int, e: int)
    requires s < e,
    ensures part(a, a, s, e) == 0real,
{
    let m = months_of(s, e) as real / 12real;
    assert(m * ((a - a) as real) == 0real) by (nonlinear_arith);
    assert(0real / ((e - s) as real) == 0real) by (nonlinear_arith) requires s < e;
}
proof fn lemma_inside(a: int, b: int, rs: int, re: int)
    requires ({ let (s, e) = reference(a, b, rs, re); b <= e && a >= s }),
    ensures ({ let (s, e) = reference(a, b, rs, re); old_isma(a, b, rs, re, part(a, b, s, e)) }),
        forall|r: real| #[trigger] old_isma(a, b, rs, re, r) ==> ({ let (s, e) = reference(a, b, rs, re); r == part(a, b, s, e) }),
{
}
proof fn lemma_long_first(a: int, b: int, rs: int, re: int, r0: real)
    requires MIN() <= a <= b <= MAX(), ({
        let (s, e) = reference(a, b, rs, re);
        let m = months_of(s, e);
        let b0 = if b > s { s } else { b };
        &&& b <= e && a < s <= MAX() && 1 <= m <= 3603 && a < b && movable(s, -m, TimeUnit::Months)
        &&& old_isma(a, b0, months_later(s, -m), s, r0)
    }),
    ensures ({
        let (s, e) = reference(a, b, rs, re);
        old_isma(a, b, rs, re, r0 + if b > s { part(s, b, s, e) } else { 0real })
    }),
{
    hide(reference); hide(part); hide(months_of); hide(months_later); hide(movable);
    let (s, e) = reference(a, b, rs, re);
    let m = months_of(s, e);
    let b0 = if b > s { s } else { b };
    lemma_preceding(a, b0, s, m);
    let rest = if b > s { part(s, b, s, e) } else { 0real };
    assert(r0 + rest - rest == r0);
}
proof fn lemma_long_last(a: int, b: int, rs: int, re: int, k: int, r: real)
    requires k >= 0, ({
        let (s, e) = reference(a, b, rs, re);
        let m = months_of(s, e);
        let q = months_later(e, product(m, k));
        let q1 = months_later(e, product(m, k + 1));
        e < b && q <= b < q1 && r == part(a, e, s, e) + k as real * (m as real / 12real) + part(q, b, q, q1)
    }),
    ensures old_isma(a, b, rs, re, r),
{
    hide(reference); hide(part); hide(months_of); hide(months_later); hide(product);
}
proof fn lemma_year_long(k: int)
    requires K0() <= k,
    ensures 365 <= first(k + 12) - first(k) <= 366,
{
}

proof fn lemma_none(m: int)
    ensures product(m, 0) == 0,
{
    assert(m * 0 == 0) by (nonlinear_arith);
}
proof fn lemma_top(s: int)
    requires MIN() <= s <= MAX(),
    ensures K0() <= mi(s) < 26400,
{
    hide(ser); hide(mi); hide(mlen);
    lemma_mi(s);
    lemma_first_month();
    if mi(s) > 26400 { lemma_mono(26400, mi(s)); }
    lemma_step(26400);
}
/// the notional periods that follow stay inside the range
proof fn lemma_bound(e: int, m: int, i: int)
    requires MIN() <= e <= MAX(), movable(e, product(m, i as int), TimeUnit::Months), 1 <= m <= 3603, i >= 0,
    ensures 0 <= product(m, i as int) <= 3600, 0 <= product(m, i + 1) <= 7203, i <= 3600, product(m, i + 1) == product(m, i as int) + m,
{
    lemma_top(e);
    assert(0 <= m * i && i <= m * i && m * (i + 1) == m * i + m) by (nonlinear_arith) requires 1 <= m, i >= 0;
}
//@type src/datetime/daycounters/actualactual.rs struct OldISMA derive(Clone, Copy)
impl OldISMA {
//@fn src/datetime/daycounters/actualactual.rs "impl OldISMA" day_count
//@ret r
    requires wf(*d1), wf(*d2),
    ensures r == d2.s() - d1.s(),
//@end
//@fn src/datetime/daycounters/actualactual.rs "impl OldISMA" year_fraction
//@attr #[verifier::spinoff_prover]
//@attr #[verifier::rlimit(150)]
//@real
//@partial
//@sub "months * i," => "times(months, i),"
//@sub "months * (i + 1)" => "times(months, i + 1)"
//@ret r
    requires wf(*d1), wf(*d2), wf(*ref_period_start), wf(*ref_period_end),
    ensures
        d1 == d2 ==> r.v() == 0real,
        d1.s() < d2.s() ==> old_isma(d1.s(), d2.s(), ref_period_start.s(), ref_period_end.s(), r.v()),
        d1.s() > d2.s() ==> old_isma(d2.s(), d1.s(), ref_period_start.s(), ref_period_end.s(), -r.v()),
    decreases
        (if d1.s() > d2.s() { 1int } else { 0 }),
        ({
            let (s, e) = reference(d1.s(), d2.s(), ref_period_start.s(), ref_period_end.s());
            if d2.s() > e { 2int } else if d1.s() < s { 1 } else { 0 }
        }),
        ({
            let (s, e) = reference(d1.s(), d2.s(), ref_period_start.s(), ref_period_end.s());
            if d1.s() < s { s - d1.s() } else { 0 }
        }),
//@top
        hide(ser); hide(mi); hide(mlen); hide(first); hide(movable); hide(len); hide(months_of); hide(months_later);
        hide(old_isma); hide(part); hide(plus); hide(rround); hide(product);
        let ghost rs = ref_period_start.s();
        let ghost re = ref_period_end.s();
        proof {
            assert(d1.s() == d2.s() ==> d1 == d2);
        }
//@before "let mut months = (12.0 *"
        let ghost s0 = ref_period_start.s();
        let ghost e0 = ref_period_end.s();
        proof {
            lemma_months(s0, e0);
            reveal(months_of);
        }
//@after "let mut months = (12.0 *"
        proof { assert(months == months_of(s0, e0)); lemma_one_year(d1.s()); }
//@before "let period = "
        let ghost s = ref_period_start.s();
        let ghost e = ref_period_end.s();
        let ghost m = months as int;
        proof {
            assert((s, e) == reference(d1.s(), d2.s(), rs, re));
            assert(m == months_of(s, e) && 1 <= m <= 3603);
        }
//@before "period * Date::days_between(d1, d2)"
                proof { lemma_inside(d1.s(), d2.s(), rs, re); reveal(part); }
//@loop 0
            invariant
                i >= 0, wf(*d2), wf(ref_period_end), ref_period_end.s() == e, 1 <= months <= 3603, months == m, period.v() == m as real / 12real,
                movable(e, product(m, i as int), TimeUnit::Months), months_later(e, product(m, i as int)) <= d2.s(), e < d2.s(),
                sum.v() == part(d1.s(), e, s, e) + i as real * (m as real / 12real),
            ensures
                day(months_later(e, product(m, i as int))) == new_ref_start, day(months_later(e, product(m, i + 1))) == new_ref_end,
                movable(e, product(m, i + 1), TimeUnit::Months), months_later(e, product(m, i as int)) <= d2.s() < months_later(e, product(m, i + 1)),
            decreases MAX() - months_later(e, product(m, i as int)),
//@loopbody 0
            proof {
                lemma_bound(e, m, i as int);
                lemma_bound(e, m, i as int);
                assert((i + 1) as real * (m as real / 12real) == i as real * (m as real / 12real) + m as real / 12real) by (nonlinear_arith);
                lemma_later(e, product(m, i as int));
            }
//@after "new_ref_start ="
            proof { assert(day(months_later(e, product(m, i as int))) == new_ref_start) by { reveal(months_later); } }
//@after "new_ref_end ="
            proof {
                assert(movable(e, product(m, i + 1), TimeUnit::Months));
                assert(day(months_later(e, product(m, i + 1))) == new_ref_end) by { reveal(months_later); }
                lemma_later(e, product(m, i + 1));
                assert(new_ref_end.s() == months_later(e, product(m, i + 1)));
                lemma_apart(e, product(m, i as int), product(m, i + 1));
            }
//@before "sum += self.year_fraction(&new_ref_start"
            proof {
                lemma_bound(e, m, i as int);
                lemma_later(e, product(m, i as int));
                lemma_later(e, product(m, i + 1));
                lemma_apart(e, product(m, i as int), product(m, i + 1));
                lemma_months(new_ref_start.s(), new_ref_end.s());
                assert(reference(new_ref_start.s(), d2.s(), new_ref_start.s(), new_ref_end.s()) == (new_ref_start.s(), new_ref_end.s()));
                lemma_inside(new_ref_start.s(), d2.s(), new_ref_start.s(), new_ref_end.s());
                assert(new_ref_start.s() == d2.s() ==> part(new_ref_start.s(), d2.s(), new_ref_start.s(), new_ref_end.s()) == 0real) by {
                    reveal(part);
                    lemma_nothing(new_ref_start.s(), new_ref_start.s(), new_ref_end.s());
                }
            }
//@after "sum += self.year_fraction(&new_ref_start"
            proof { lemma_long_last(d1.s(), d2.s(), rs, re, i as int, sum.v()); }
//@before "let mut sum ="
            proof {
                assert(reference(d1.s(), e, s, e) == (s, e));
                lemma_inside(d1.s(), e, s, e);
            }
//@before "loop {"
            proof {
                assert(movable(e, product(m, 0), TimeUnit::Months)) by { reveal(movable); lemma_mi(e); lemma_none(m); lemma_top(e); }
                lemma_none(m); lemma_later(e, 0);
                assert(0real * (m as real / 12real) == 0real) by (nonlinear_arith);
                lemma_none(m);
            }
//@after "let previous_ref ="
                proof {
                    let b0 = if d2.s() > s { s } else { d2.s() };
                    assert(day(months_later(s, -m)) == previous_ref) by { reveal(months_later); }
                    lemma_preceding(d1.s(), b0, s, m);
                    assert(previous_ref.s() == months_later(s, -m));
                    assert forall|r0: real| #[trigger] old_isma(d1.s(), b0, previous_ref.s(), s, r0) implies
                        old_isma(d1.s(), d2.s(), rs, re, r0 + if d2.s() > s { part(s, d2.s(), s, e) } else { 0real }) by {
                        lemma_long_first(d1.s(), d2.s(), rs, re, r0);
                    }
                    assert(reference(s, d2.s(), s, e) == (s, e));
                    if d2.s() > s { lemma_inside(s, d2.s(), s, e); }
                    assert forall|r0: real| #[trigger] old_isma(d1.s(), d2.s(), rs, re, r0 + 0real) implies old_isma(d1.s(), d2.s(), rs, re, r0) by { assert(r0 + 0real == r0); }
                }
//@end
}

// --- Actual/Actual (ISMA) over a schedule
//@type src/datetime/businessdayconvention.rs enum BusinessDayConvention derive(Clone, Copy, Debug, PartialEq, Eq, Structural)
//@type src/datetime/dategenerationrule.rs enum DateGenerationRule derive(Clone, Copy, Debug, PartialEq, Eq, Structural)
//@type src/context/pricing_context.rs struct PricingContext derive(Clone, Copy, Debug)
#[verifier::external_body]
pub struct Calendar { _p: u8 }
/// what advance() makes of its arguments (C06)
pub uninterp spec fn moved(c: Calendar, s: int, p: Period, conv: BusinessDayConvention, eom: bool) -> int;
impl Calendar {
    /// a move out of the range is rejected (C03)
    #[verifier::external_body]
    pub fn advance_by_period(&self, date: Date, period: Period, convention: BusinessDayConvention, end_of_month: bool) -> (r: Date)
        requires wf(date), period.length > i32::MIN,
        ensures wf(r), r.s() == moved(*self, date.s(), period, convention, end_of_month),
    { unimplemented!() }
}
impl NegSpecImpl for Period {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { self.length > i32::MIN }
    open spec fn neg_spec(self) -> Period { Period { length: (-self.length) as i32, unit: self.unit } }
}
impl Neg for Period {
    type Output = Self;
    #[verifier::external_body]
    fn neg(self) -> Self::Output { unimplemented!() }
}
//@type src/datetime/schedule.rs struct Schedule
impl Schedule {
    /// what C16 and C17 say of a schedule, whether or not it carries flags
    pub open spec fn ok(self) -> bool {
        self.dates.len() >= 2 && (self.is_regular.len() == 0 || self.is_regular.len() == self.dates.len() - 1) && self.tenor.length > i32::MIN
            && forall|i: int| 0 <= i < self.dates.len() ==> wf(#[trigger] self.dates[i])
    }
    pub open spec fn at(self, i: int) -> int { self.dates[i].s() }
    pub open spec fn forward(self, s: int) -> int { moved(self.calendar, s, self.tenor, self.convention, self.end_of_month) }
    pub open spec fn backward(self, s: int) -> int { moved(self.calendar, s, Period { length: (-self.tenor.length) as i32, unit: self.tenor.unit }, self.convention, self.end_of_month) }
    /// the dates, with the notional payment dates of an irregular end period in the place of its outer end
    pub open spec fn fronted(self) -> Seq<Date> {
        let f = self.backward(self.at(1));
        if self.is_regular.len() > 0 && self.is_regular[0] { self.dates@ }
        else if f > self.at(0) { seq![day(self.backward(f)), day(f)] + self.dates@.subrange(1, self.dates.len() as int) }
        else { seq![day(f)] + self.dates@.subrange(1, self.dates.len() as int) }
    }
    pub open spec fn quasi(self) -> Seq<Date> {
        let x = self.fronted();
        let n = self.dates.len() as int;
        let l = self.forward(self.at(n - 2));
        if self.is_regular.len() > 0 && self.is_regular[n - 2] { x }
        else if l < self.at(n - 1) { x.drop_last().push(day(l)).push(day(self.forward(l))) }
        else { x.drop_last().push(day(l)) }
    }
//@fn src/datetime/schedule.rs "impl Schedule" calendar
//@ret r
    ensures *r == self.calendar,
//@end
//@fn src/datetime/schedule.rs "impl Schedule" tenor
//@ret r
    ensures r == self.tenor,
//@end
//@fn src/datetime/schedule.rs "impl Schedule" business_day_convention
//@ret r
    ensures r == self.convention,
//@end
//@fn src/datetime/schedule.rs "impl Schedule" end_of_month
//@ret r
    ensures r == self.end_of_month,
//@end
//@fn src/datetime/schedule.rs "impl Schedule" size
//@ret r
    ensures r == self.dates.len(),
//@end
//@fn src/datetime/schedule.rs "impl Schedule" dates
//@ret r
    ensures r@ =~= self.dates@,
//@end
//@fn src/datetime/schedule.rs "impl Schedule" end_date
//@ret r
    requires self.dates.len() > 0,
    ensures *r == self.dates[self.dates.len() - 1],
//@end
//@fn src/datetime/schedule.rs "impl Schedule" has_is_regular
//@ret r
    ensures r == (self.is_regular.len() > 0),
//@end
//@fn src/datetime/schedule.rs "impl Schedule" is_regular
//@partial
//@ret r
    ensures 1 <= i <= self.is_regular.len(), r == self.is_regular[i - 1],
//@end
}
// std: the smallest and the largest of a list, and of two
#[verifier::external_body]
pub fn smallest(x: &Vec<Date>) -> (r: Option<&Date>)
    ensures match r { Some(d) => (exists|i: int| 0 <= i < x.len() && *d == x[i]) && forall|i: int| 0 <= i < x.len() ==> d.s() <= (#[trigger] x[i]).s(), None => x.len() == 0 },
{ unimplemented!() }
#[verifier::external_body]
pub fn largest(x: &Vec<Date>) -> (r: Option<&Date>)
    ensures match r { Some(d) => (exists|i: int| 0 <= i < x.len() && *d == x[i]) && forall|i: int| 0 <= i < x.len() ==> d.s() >= (#[trigger] x[i]).s(), None => x.len() == 0 },
{ unimplemented!() }
#[verifier::external_body]
pub fn later_of<'a>(a: &'a Date, b: &'a Date) -> (r: &'a Date)
    ensures *r == if a.s() > b.s() { *a } else { *b },
{ unimplemented!() }
#[verifier::external_body]
pub fn earlier_of<'a>(a: &'a Date, b: &'a Date) -> (r: &'a Date)
    ensures *r == if a.s() <= b.s() { *a } else { *b },
{ unimplemented!() }

/// how many reference periods make a year
pub open spec fn per_year(s: int, e: int) -> int { rround(12real / (months_of(s, e) as real)) }
/// days from a to b over the days of a year of such periods; a period of about half a month at most counts as a year
pub open spec fn weighed(a: int, b: int, s: int, e: int) -> real {
    if e - s < 16 { ((b - a) as real) / ((plus(a, 1, TimeUnit::Years) - a) as real) }
    else { ((b - a) as real) / (product(e - s, per_year(s, e)) as real) }
}
/// the part of a to b that lies in a period
pub open spec fn within(a: int, b: int, s: int, e: int) -> real {
    if a < e && b > s { weighed(if a > s { a } else { s }, if b <= e { b } else { e }, s, e) } else { 0real }
}
/// ... in the first n periods of a list of dates
pub open spec fn over(a: int, b: int, x: Seq<Date>, n: int) -> real
    decreases n,
{
    if n <= 0 { 0real } else { over(a, b, x, n - 1) + within(a, b, x[n - 1].s(), x[n].s()) }
}
/// consecutive dates are in order, and no more than two years apart
pub open spec fn paced(x: Seq<Date>) -> bool {
    forall|i: int| 0 < i < x.len() ==> (#[trigger] x[i]).s() > x[i - 1].s() && x[i].s() - x[i - 1].s() <= 731
}

proof fn lemma_per_year(s: int, e: int)
    requires 16 <= e - s <= 731,
    ensures 1 <= months_of(s, e) <= 24, 1 <= per_year(s, e) <= 12,
{
    let x = 12real * ((e - s) as real) / 365real;
    assert(0.5real <= x < 24.5real) by (nonlinear_arith) requires x == 12real * ((e - s) as real) / 365real, 16 <= e - s <= 731;
    let m = months_of(s, e) as real;
    let y = 12real / m;
    assert(0.5real <= y <= 12real) by (nonlinear_arith) requires y == 12real / m, 1real <= m <= 24real;
}
proof fn lemma_product(a: int, b: int)
    requires 1 <= a <= 731, 1 <= b <= 12,
    ensures 1 <= product(a, b) <= 8772, b == 1 ==> product(a, b) == a,
{
    assert(1 <= a * b <= 8772) by (nonlinear_arith) requires 1 <= a <= 731, 1 <= b <= 12;
}
proof fn lemma_over(a: int, b: int, x: Seq<Date>, i: int)
    requires 0 <= i < x.len() - 1, a < b, paced(x),
    ensures x[i].s() < x[i + 1].s(), x[i + 1].s() - x[i].s() <= 731, ({
        let (s, e) = (x[i].s(), x[i + 1].s());
        let (a1, b1) = (if a > s { a } else { s }, if b <= e { b } else { e });
        over(a, b, x, i + 1) == if a < e && b > s { over(a, b, x, i) + weighed(a1, b1, s, e) } else { over(a, b, x, i) }
    }),
{
    hide(weighed);
    assert(x[i + 1].s() > x[i].s());
}
proof fn lemma_in_order(x: Seq<Date>)
    requires paced(x),
    ensures forall|i: int, j: int| 0 <= i <= j < x.len() ==> (#[trigger] x[i]).s() <= (#[trigger] x[j]).s(),
{
    assert forall|i: int, j: int| 0 <= i <= j < x.len() implies (#[trigger] x[i]).s() <= (#[trigger] x[j]).s() by { lemma_in_order_from(x, i, j); }
}
proof fn lemma_in_order_from(x: Seq<Date>, i: int, j: int)
    requires paced(x), 0 <= i <= j < x.len(),
    ensures x[i].s() <= x[j].s(),
    decreases j - i,
{
    if i < j { lemma_in_order_from(x, i, j - 1); }
}
//@type src/datetime/daycounters/actualactual.rs struct ISMA
impl ISMA {
//@fn src/datetime/daycounters/actualactual.rs "impl ISMA" day_count
//@ret r
    requires wf(*d1), wf(*d2),
    ensures r == d2.s() - d1.s(),
//@end
//@fn src/datetime/daycounters/actualactual.rs "impl ISMA" find_coupons_per_year
//@real
//@ret r
    requires wf(*ref_start), wf(*ref_end), 16 <= ref_end.s() - ref_start.s() <= 731,
    ensures r == per_year(ref_start.s(), ref_end.s()), 1 <= r <= 12,
//@top
        proof {
            lemma_per_year(ref_start.s(), ref_end.s());
            let days = (ref_end.s() - ref_start.s()) as real;
            assert(12real * (days / 365real) == 12real * days / 365real) by (nonlinear_arith);
        }
//@after "let months = "
        proof { assert(months == months_of(ref_start.s(), ref_end.s())); }
//@end
//@fn src/datetime/daycounters/actualactual.rs "impl ISMA" year_fraction_with_reference_dates
//@attr #[verifier::spinoff_prover]
//@attr #[verifier::rlimit(150)]
//@real
//@partial
//@sub "(reference_day_count * coupons_per_year)" => "times(reference_day_count, coupons_per_year)"
//@ret r
    requires wf(*d1), wf(*d2), wf(*d3), wf(*d4), d4.s() - d3.s() <= 731,
    ensures d1.s() <= d2.s(), r.v() == weighed(d1.s(), d2.s(), d3.s(), d4.s()),
//@top
        hide(ser); hide(mi); hide(mlen); hide(first); hide(len); hide(plus); hide(months_of); hide(per_year); hide(product); hide(movable);
        proof { lemma_one_year(d1.s()); }
//@before "self.day_count(d1, d2) as f64"
        proof {
            lemma_product(reference_day_count as int, coupons_per_year as int);
        }
//@end
//@fn src/datetime/daycounters/actualactual.rs "impl ISMA" get_list_of_period_dates_including_quasi_payments
//@sub "self.schedule[" => "self.schedule.dates["
//@ret r
    requires self.schedule.ok(),
    ensures r@ =~= self.schedule.quasi(), r.len() >= 2, forall|i: int| 0 <= i < r.len() ==> wf(#[trigger] r[i]),
//@end
//@fn src/datetime/daycounters/actualactual.rs "impl ISMA" year_fraction
//@attr #[verifier::spinoff_prover]
//@attr #[verifier::rlimit(150)]
//@real
//@partial
//@sub "coupon_dates .iter() .min()" => "smallest(&coupon_dates)"
//@sub "coupon_dates .iter() .max()" => "largest(&coupon_dates)"
//@sub "d1.max(" => "later_of(d1, "
//@sub "d2.min(" => "earlier_of(d2, "
//@ret r
    requires wf(*d1), wf(*d2), self.schedule.ok(), paced(self.schedule.quasi()),
    ensures
        d1 == d2 ==> r.v() == 0real,
        d1.s() < d2.s() ==> r.v() == over(d1.s(), d2.s(), self.schedule.quasi(), self.schedule.quasi().len() - 1)
            && self.schedule.quasi()[0].s() <= d1.s() && d2.s() <= self.schedule.quasi().last().s(),
        d2.s() < d1.s() ==> r.v() == -over(d2.s(), d1.s(), self.schedule.quasi(), self.schedule.quasi().len() - 1)
            && self.schedule.quasi()[0].s() <= d2.s() && d1.s() <= self.schedule.quasi().last().s(),
    decreases (if d1.s() > d2.s() { 1int } else { 0 }),
//@top
        hide(ser); hide(mi); hide(mlen); hide(first); hide(len); hide(plus); hide(months_of); hide(per_year); hide(weighed); hide(Schedule::quasi);
        hide(over); hide(within); hide(paced);
        proof { assert(d1.s() == d2.s() ==> d1 == d2); }
//@before "let mut year_fraction_sum"
        proof { reveal(over); }
        let ghost x = coupon_dates@;
        proof {
            lemma_in_order(x);
            assert(first_date.s() == x[0].s());
            assert(last_date.s() == x[x.len() - 1].s());
        }
//@loop 0
            invariant
                wf(*d1), wf(*d2), d1.s() < d2.s(), coupon_dates@ == x, x.len() >= 2, paced(x), forall|j: int| 0 <= j < x.len() ==> wf(#[trigger] x[j]),
                year_fraction_sum.v() == over(d1.s(), d2.s(), x, i as int),
//@loopbody 0
                proof { lemma_over(d1.s(), d2.s(), x, i as int); }
//@end
}
fn main() {}
}
