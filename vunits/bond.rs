use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
use core::ops::*;
use core::cmp::Ordering;
use std::rc::Rc;

verus! {

//@include cashflow_base.rs
//@include leg_base.rs
//@include cashflow_legs.rs
//@include solvers_base.rs
//@include solvers_newton.rs
//@include yield_base.rs
pub mod cashflow { pub use super::{npv, bond_yield, modified_duration, accrued_amount, accrued_days, accrued_period, maturity_date, next_cashflow}; }

pub open spec fn at_least<T: PartialOrd>(a: T, b: T) -> bool { a.partial_cmp_spec(&b) == Some(Ordering::Greater) || a.partial_cmp_spec(&b) == Some(Ordering::Equal) }
//@fn src/maths/bounds.rs "" lower_bound
//@indexed
//@ret r
    requires T::obeys_partial_cmp_spec(),
    ensures r <= xs.len(), forall |k: int| 0 <= k < r ==> !at_least(#[trigger] xs[k], value), r < xs.len() ==> at_least(xs[r as int], value), r > 0 ==> !at_least(xs[r - 1], value),
//@loop 0 "for i in 0..xs.len()"
        invariant T::obeys_partial_cmp_spec(), forall |k: int| 0 <= k < i ==> !at_least(#[trigger] xs[k], value),
//@end

// --- flows of any kind
/// the shared flow is x
pub open spec fn like<T: CashFlow + ?Sized>(r: Rc<dyn CashFlow>, x: &T) -> bool {
    &&& r.ok() == x.ok() && r.on() == x.on() && r.pays() == x.pays() && r.ex() == x.ex()
    &&& r.acc_start() == x.acc_start() && r.acc_end() == x.acc_end() && r.ref_start() == x.ref_start() && r.ref_end() == x.ref_end()
    &&& forall|d: int| #[trigger] r.accrued(d) == x.accrued(d)
}
/// the coercion of a shared flow to a flow of any kind leaves the flow as it is
#[verifier::external_body]
pub fn erased<T: CashFlow + 'static>(x: Rc<T>) -> (r: Rc<dyn CashFlow>)
    ensures like(r, &*x),
{ x }
pub type CashFlowLeg = Vec<Rc<dyn CashFlow>>;
impl FixedRateCoupon {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: FixedRateCoupon)
        ensures r == *self,
    { unimplemented!() }
}
impl Schedule {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Schedule)
        ensures r == *self,
    { unimplemented!() }
//@fn src/datetime/schedule.rs "impl Schedule" end_date
//@ret r
    requires self.ok(),
    ensures *r == self.dates[self.dates.len() - 1],
//@end
}
/// an amount paid on a date: nothing accrues, nothing trades ex
pub open spec fn payment(c: Rc<dyn CashFlow>, amount: real, on: int) -> bool {
    &&& c.ok() && c.pays() == amount && c.on() == on && c.ex() == null()
    &&& c.acc_start() == null() && c.acc_end() == null() && c.ref_start() == null() && c.ref_end() == null()
    &&& forall|d: int| #[trigger] c.accrued(d) == 0real
}

proof fn lemma_all_ok<T: CashFlow>(s: Seq<T>)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).ok(),
    ensures all_ok(s),
{}
// --- the library's stable sort, by the payment date
pub open spec fn reorders<T>(p: Seq<int>, n: int) -> bool {
    p.len() == n && (forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n) && (forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] p[i] != #[trigger] p[j])
        && (forall|j: int| 0 <= j < n ==> #[trigger] p.contains(j))
}
pub open spec fn sorted_by<T: CashFlow>(a: Seq<T>, b: Seq<T>, p: Seq<int>) -> bool {
    &&& a.len() == b.len() && reorders::<T>(p, a.len() as int)
    &&& forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[p[i]]
    &&& forall|i: int, j: int| 0 <= i < j < a.len() ==> (#[trigger] b[i]).on() <= (#[trigger] b[j]).on()
    &&& forall|i: int, j: int| 0 <= i < j < a.len() && b[i].on() == b[j].on() ==> #[trigger] p[i] < #[trigger] p[j]
}
pub open spec fn sorted<T: CashFlow>(a: Seq<T>, b: Seq<T>) -> bool { exists|p: Seq<int>| #[trigger] sorted_by(a, b, p) }
#[verifier::external_body]
pub fn sort_by_date(c: &mut CashFlowLeg)
    requires all_ok(old(c)@),
    ensures sorted(old(c)@, final(c)@), all_ok(final(c)@),
{ unimplemented!() }
pub open spec fn in_order<T: CashFlow>(a: Seq<T>) -> bool { forall|i: int, j: int| 0 <= i < j < a.len() ==> (#[trigger] a[i]).on() <= (#[trigger] a[j]).on() }
proof fn lemma_climbs(p: Seq<int>, i: int)
    requires 0 <= i < p.len(), forall|i: int, j: int| 0 <= i < j < p.len() ==> #[trigger] p[i] < #[trigger] p[j], p[0] >= 0,
    ensures p[i] >= i,
    decreases i,
{
    if i > 0 { lemma_climbs(p, i - 1); assert(p[i - 1] < p[i]); }
}
proof fn lemma_falls(p: Seq<int>, i: int)
    requires 0 <= i < p.len(), forall|i: int, j: int| 0 <= i < j < p.len() ==> #[trigger] p[i] < #[trigger] p[j], p[p.len() - 1] < p.len(),
    ensures p[i] <= i,
    decreases p.len() - i,
{
    if i < p.len() - 1 { lemma_falls(p, i + 1); assert(p[i] < p[i + 1]); }
}
/// what is in order stays as it is
proof fn lemma_sorted_already<T: CashFlow>(a: Seq<T>, b: Seq<T>)
    requires sorted(a, b), in_order(a),
    ensures a =~= b,
{
    let p = choose|p: Seq<int>| #[trigger] sorted_by(a, b, p);
    assert forall|i: int, j: int| 0 <= i < j < p.len() implies #[trigger] p[i] < #[trigger] p[j] by {
        assert(b[i] == a[p[i]] && b[j] == a[p[j]] && b[i].on() <= b[j].on());
        if p[i] > p[j] { assert(a[p[j]].on() <= a[p[i]].on()); }
        assert(p[i] != p[j]);
    }
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
        assert(b[i] == a[p[i]]);
        assert(0 <= p[0]); assert(p[p.len() - 1] < p.len());
        lemma_climbs(p, i); lemma_falls(p, i);
    }
}
/// what the yield's solver was asked
pub uninterp spec fn asked(leg: Seq<Rc<dyn CashFlow>>, price: real, dc: DayCounter, c: Compounding, f: Frequency, include: bool, s: int, npv_date: int, accuracy: real, evals: int, guess: real, r: real) -> bool;
/// the duration is not zero where the leg is worth the price
pub open spec fn sloped(leg: Seq<Rc<dyn CashFlow>>, price: real, dc: DayCounter, c: Compounding, f: Frequency, include: bool, s: int, npv_date: int) -> bool {
    forall|y: real| excess(leg, price, dc, c, f, include, s, npv_date)(y) == 0real ==> #[trigger] duration_in(leg, dc, c, f, include, s, npv_date)(y) != 0real
}
/// a yield of the leg at the price: by the contract of cashflow::bond_yield (C19), under its preconditions
pub open spec fn irr(leg: Seq<Rc<dyn CashFlow>>, price: real, dc: DayCounter, c: Compounding, f: Frequency, include: bool, s: int, npv_date: int, accuracy: real, evals: int, guess: real, r: real) -> bool {
    &&& asked(leg, price, dc, c, f, include, s, npv_date, accuracy, evals, guess, r)
    &&& dated(leg) && leg.len() < 0x7fff_ffff && guess > 0real && evals < usize::MAX - 4 && sloped(leg, price, dc, c, f, include, s, npv_date) ==>
        accuracy > 0real && explained(leg, price, s, include)
        && exists|n: NewtonSafe| !n.lo_on() && !n.up_on() && n.evals() == evals && #[trigger] yields(n, leg, price, dc, c, f, include, s, npv_date, at_least_epsilon(accuracy), r)
}
#[verifier::external_body]
pub fn bond_yield(solver: &NewtonSafe, cashflows: &CashFlowLeg, npv: Real, daycounter: DayCounter, compounding: Compounding, frequency: Frequency, include_settlement_date_flows: bool,
    settlement_date: Date, npv_date: Date, accuracy: Real, guess: Rate) -> (r: Rate)
    requires all_ok(cashflows@), wf(settlement_date), wf(npv_date),
    ensures
        asked(cashflows@, npv.v(), daycounter, compounding, frequency, include_settlement_date_flows, settlement_date.s(), npv_date.s(), accuracy.v(), solver.evals() as int, guess.v(), r.v()),
        dated(cashflows@) && cashflows@.len() < 0x7fff_ffff && consistent(*solver) && solver.evals() < usize::MAX - 4 && inside(*solver, guess.v()) && guess.v() > 0real
            && (forall|a: Graph, b: Graph| within(a, excess(cashflows@, npv.v(), daycounter, compounding, frequency, include_settlement_date_flows, settlement_date.s(), npv_date.s()))
                && within(b, duration_in(cashflows@, daycounter, compounding, frequency, include_settlement_date_flows, settlement_date.s(), npv_date.s())) ==> #[trigger] solver.solvable(a, b)) ==>
            accuracy.v() > 0real && inside(*solver, r.v()) && explained(cashflows@, npv.v(), settlement_date.s(), include_settlement_date_flows)
            && yields(*solver, cashflows@, npv.v(), daycounter, compounding, frequency, include_settlement_date_flows, settlement_date.s(), npv_date.s(), at_least_epsilon(accuracy.v()), r.v()),
{ unimplemented!() }

pub mod bondfunctions {
use super::*;
//@fn src/pricingengines/bond/bondfunctions.rs "" bond_yield
//@ret r
    requires all_ok(cashflows@), wf(settlement_date),
    // flows of the settlement date go to the seller, and the price is of that date
    ensures irr(cashflows@, price.v(), daycounter, compounding, frequency, false, settlement_date.s(), settlement_date.s(), accuracy.v(), max_evaluations as int, guess.v(), r.v()),
//@end
//@fn src/pricingengines/bond/bondfunctions.rs "" accrued_amount
//@real
//@ret r
    requires all_ok(cashflows@), wf(date), notional.v() != 0real,
    ensures has_accrued(cashflows@, date.s(), notional.v(), r.v()),
//@end
//@fn src/pricingengines/bond/bondfunctions.rs "" accrued_days
//@ret r
    requires all_ok(coupons@), wf(date),
    ensures exists|n: Option<usize>| #[trigger] is_next(coupons@, date.s(), false, n) && r == match n {
        Some(i) => days_accrued(dates(coupons@[i as int]), coupons@[i as int].counter(), date.s()),
        None => 0int,
    },
//@end
//@fn src/pricingengines/bond/bondfunctions.rs "" accrued_period
//@ret r
    requires all_ok(coupons@), wf(date),
    ensures exists|n: Option<usize>| #[trigger] is_next(coupons@, date.s(), false, n) && r.v() == match n {
        Some(i) => period_accrued(dates(coupons@[i as int]), coupons@[i as int].counter(), date.s()),
        None => 0real,
    },
//@end
//@fn src/pricingengines/bond/bondfunctions.rs "" dirty_price
//@real
//@ret r
    requires all_ok(cashflows@), dated(cashflows@), wf(settlement_date), y.valid(), forall|t: real| t >= 0real ==> #[trigger] y.at(t) != 0real, notional.v() != 0real,
    ensures r.v() == value(cashflows@, *y, settlement_date.s(), false, settlement_date.s(), cashflows@.len() as int) * 100real / notional.v(),
//@end
//@fn src/pricingengines/bond/bondfunctions.rs "" maturity_date
//@partial
//@ret r
    requires all_ok(cashflows@),
    ensures
        cashflows@.len() > 0,
        r.s() == if latest_end(cashflows@, cashflows@.len() as int) != null() { latest_end(cashflows@, cashflows@.len() as int) } else { latest_payment(cashflows@, cashflows@.len() as int) },
//@end
}
/// what the flows paid with the next one have accrued, per hundred of the notional
pub open spec fn has_accrued<T: CashFlow>(leg: Seq<T>, at: int, notional: real, r: real) -> bool {
    exists|n: Option<usize>| #[trigger] is_next(leg, at, false, n) && r == (match n {
        Some(i) => accrued_on(leg, leg[i as int].on(), at, leg.len() as int),
        None => 0real,
    }) * 100real / notional
}

// --- bonds
pub open spec fn first_from(steps: Seq<Date>, d: int, k: int) -> int
    decreases steps.len() - k,
{
    if k >= steps.len() { steps.len() as int } else if steps[k].s() >= d { k } else { first_from(steps, d, k + 1) }
}
/// the notional left on a date, a redemption on the date itself having been made
pub open spec fn outstanding(steps: Seq<Date>, left: Seq<Real>, d: int) -> real {
    if d > steps[steps.len() - 1].s() { 0real }
    else { let i = first_from(steps, d, 0); if d < steps[i].s() { left[i - 1].v() } else { left[i].v() } }
}
proof fn lemma_first_from(steps: Seq<Date>, d: int, k: int, i: int)
    requires 0 <= k <= i <= steps.len(), forall|j: int| k <= j < i ==> (#[trigger] steps[j]).s() < d, i < steps.len() ==> steps[i].s() >= d,
    ensures first_from(steps, d, k) == i,
    decreases i - k,
{
    if k < i { assert(steps[k].s() < d); lemma_first_from(steps, d, k + 1, i); }
}
/// the full amount before the redemption, nothing from it on
proof fn lemma_redeemed_at_once(steps: Seq<Date>, left: Seq<Real>, d: int)
    requires steps.len() == 2, left.len() == 2, steps[0].s() == null(), left[1].v() == 0real, null() <= d, null() < steps[1].s(),
    ensures outstanding(steps, left, d) == if d < steps[1].s() { left[0].v() } else { 0real },
{
    reveal_with_fuel(first_from, 3);
}
pub open spec fn good(flows: Seq<Rc<dyn CashFlow>>, steps: Seq<Date>, left: Seq<Real>, days: int, issued: int) -> bool {
    &&& all_ok(flows) && steps.len() > 0 && left.len() == steps.len() && steps[0].s() == null() && i32::MIN < days && MIN() <= issued <= MAX()
    &&& forall|i: int| 0 <= i < steps.len() ==> wf(#[trigger] steps[i])
}
impl Calendar {
    #[verifier::external_body]
    pub fn advance_by_days_with_following(&self, date: Date, n: Integer, unit: TimeUnit, end_of_month: bool) -> (r: Date)
        requires wf(date), advanceable(*self, date.s(), n as int, unit, BusinessDayConvention::Following, end_of_month), n > i32::MIN,
        ensures wf(r), advanced(*self, date.s(), n as int, unit, BusinessDayConvention::Following, end_of_month, r.s()),
    { unimplemented!() }
}
pub trait Bond {
    spec fn days(&self) -> int;
    spec fn trades_on(&self) -> Calendar;
    spec fn issued(&self) -> int;
    spec fn flows(&self) -> Seq<Rc<dyn CashFlow>>;
    spec fn steps(&self) -> Seq<Date>;
    spec fn left(&self) -> Seq<Real>;
    spec fn matures(&self, d: int) -> bool;
    fn calendar(&self) -> (r: &Calendar)
        requires good(self.flows(), self.steps(), self.left(), self.days(), self.issued()),
        ensures *r == self.trades_on(),
    ;
    fn cashflows(&self) -> (r: &CashFlowLeg)
        requires good(self.flows(), self.steps(), self.left(), self.days(), self.issued()),
        ensures r@ == self.flows(),
    ;
    fn issue_date(&self) -> (r: Date)
        requires good(self.flows(), self.steps(), self.left(), self.days(), self.issued()),
        ensures r.s() == self.issued(), wf(r),
    ;
    fn maturity_date(&self) -> (r: Date)
        requires good(self.flows(), self.steps(), self.left(), self.days(), self.issued()),
        ensures self.matures(r.s()),
    ;
    fn notional_schedule(&self) -> (r: &Vec<Date>)
        requires good(self.flows(), self.steps(), self.left(), self.days(), self.issued()),
        ensures r@ == self.steps(),
    ;
    fn notionals(&self) -> (r: &Vec<Real>)
        requires good(self.flows(), self.steps(), self.left(), self.days(), self.issued()),
        ensures r@ == self.left(),
    ;
    fn settlement_days(&self) -> (r: Integer)
        requires good(self.flows(), self.steps(), self.left(), self.days(), self.issued()),
        ensures r == self.days(),
    ;
//@fn src/instruments/bond.rs "pub trait Bond" notional
//@real
//@ret r
    requires good(self.flows(), self.steps(), self.left(), self.days(), self.issued()), wf(date),
    ensures r.v() == outstanding(self.steps(), self.left(), date.s()),
//@after "let i = lower_bound"
        proof {
            assert forall|j: int| 0 <= j < i implies (#[trigger] notional_schedule@[j]).s() < date.s() by { assert(!at_least(notional_schedule@[j], date)); }
            if i == notional_schedule.len() { assert(!at_least(notional_schedule@[i - 1], date)); }
            lemma_first_from(notional_schedule@, date.s(), 0, i as int);
        }
//@end
//@fn src/instruments/bond.rs "pub trait Bond" is_tradeable
//@real
//@ret r
    requires good(self.flows(), self.steps(), self.left(), self.days(), self.issued()), wf(settlement_date),
    ensures r == (outstanding(self.steps(), self.left(), settlement_date.s()) != 0real),
//@end
//@fn src/instruments/bond.rs "pub trait Bond" settlement_date
//@ret r
    requires good(self.flows(), self.steps(), self.left(), self.days(), self.issued()), wf(date), advanceable(self.trades_on(), date.s(), self.days(), Days, Following, false),
    ensures
        wf(r),
        // so many business days on, and not before the issue, if that is given
        exists|s: int| #[trigger] advanced(self.trades_on(), date.s(), self.days(), Days, Following, false, s)
            && r.s() == if self.issued() != null() && self.issued() > s { self.issued() } else { s },
//@end
//@fn src/instruments/bond.rs "pub trait Bond" accrued_amount
//@real
//@ret r
    requires good(self.flows(), self.steps(), self.left(), self.days(), self.issued()), wf(date),
    ensures
        outstanding(self.steps(), self.left(), date.s()) == 0real ==> r.v() == 0real,
        outstanding(self.steps(), self.left(), date.s()) != 0real ==> has_accrued(self.flows(), date.s(), outstanding(self.steps(), self.left(), date.s()), r.v()),
//@end
//@fn src/instruments/bond.rs "pub trait Bond" dirty_price_from_yield
//@real
//@partial
//@ret r
    requires
        good(self.flows(), self.steps(), self.left(), self.days(), self.issued()), wf(settlement_date), dated(self.flows()),
        forall|q: InterestRate, t: real| #[trigger] quoted(daycounter, compounding, frequency, y.v(), q) && t >= 0real ==> #[trigger] q.at(t) != 0real,
    ensures
        outstanding(self.steps(), self.left(), settlement_date.s()) != 0real,
        exists|q: InterestRate| #[trigger] quoted(daycounter, compounding, frequency, y.v(), q)
            && r.v() == value(self.flows(), q, settlement_date.s(), false, settlement_date.s(), self.flows().len() as int) * 100real / outstanding(self.steps(), self.left(), settlement_date.s()),
//@top
        let ghost (dc, rate) = (daycounter, y.v());
//@before "bondfunctions::dirty_price"
        proof { assert(quoted(dc, compounding, frequency, rate, y)); }
//@end
//@fn src/instruments/bond.rs "pub trait Bond" clean_price_from_yield
//@real
//@ret r
    requires
        good(self.flows(), self.steps(), self.left(), self.days(), self.issued()), wf(settlement_date), dated(self.flows()),
        forall|q: InterestRate, t: real| #[trigger] quoted(daycounter, compounding, frequency, y.v(), q) && t >= 0real ==> #[trigger] q.at(t) != 0real,
    ensures
        // the value of what is still to come, less what has accrued, per hundred of the notional
        outstanding(self.steps(), self.left(), settlement_date.s()) != 0real,
        exists|q: InterestRate, a: real| #[trigger] quoted(daycounter, compounding, frequency, y.v(), q) && #[trigger] has_accrued(self.flows(), settlement_date.s(), outstanding(self.steps(), self.left(), settlement_date.s()), a)
            && r.v() == value(self.flows(), q, settlement_date.s(), false, settlement_date.s(), self.flows().len() as int) * 100real / outstanding(self.steps(), self.left(), settlement_date.s()) - a,
//@end
//@fn src/instruments/bond.rs "pub trait Bond" bond_yield_with_options
//@real
//@partial
//@ret r
    requires good(self.flows(), self.steps(), self.left(), self.days(), self.issued()), wf(settlement_date),
    ensures
        outstanding(self.steps(), self.left(), settlement_date.s()) != 0real,
        // the yield at which the leg is worth the quoted price and what has accrued, in money
        exists|a: real| #[trigger] has_accrued(self.flows(), settlement_date.s(), outstanding(self.steps(), self.left(), settlement_date.s()), a)
            && irr(self.flows(), (clean_price.v() + a) / (100real / outstanding(self.steps(), self.left(), settlement_date.s())), daycounter, compounding, frequency, false,
                settlement_date.s(), settlement_date.s(), match accuracy { Some(x) => x.v(), None => 1real / 100_000_000real },
                match max_evaluations { Some(n) => n as int, None => 100 }, match guess { Some(x) => x.v(), None => 5real / 100real }, r.v()),
//@top
        let ghost (most, n0) = (max_evaluations, outstanding(self.steps(), self.left(), settlement_date.s()));
        proof { assert(n0 != 0real ==> 100real / n0 != 0real) by (nonlinear_arith); }
//@end
//@fn src/instruments/bond.rs "pub trait Bond" bond_yield
//@real
//@partial
//@ret r
    requires good(self.flows(), self.steps(), self.left(), self.days(), self.issued()), wf(settlement_date),
    ensures
        outstanding(self.steps(), self.left(), settlement_date.s()) != 0real,
        exists|a: real| #[trigger] has_accrued(self.flows(), settlement_date.s(), outstanding(self.steps(), self.left(), settlement_date.s()), a)
            && irr(self.flows(), (clean_price.v() + a) / (100real / outstanding(self.steps(), self.left(), settlement_date.s())), daycounter, compounding, frequency, false,
                settlement_date.s(), settlement_date.s(), 1real / 100_000_000real, 100, 5real / 100real, r.v()),
//@end
//@fn src/instruments/bond.rs "pub trait Bond" dirty_price
//@real
//@partial
//@ret r
    requires good(self.flows(), self.steps(), self.left(), self.days(), self.issued()), wf(pricing_date), advanceable(self.trades_on(), pricing_date.s(), self.days(), Days, Following, false),
    // only a redeemed bond has a price without an engine
    ensures r.v() == 0real, exists|d: int| #[trigger] outstanding(self.steps(), self.left(), d) == 0real,
//@end
}

// --- zero coupon bonds
//@type src/instruments/zerocouponbond.rs struct ZeroCouponBond
impl Calendar {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Calendar)
        ensures r == *self,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn adjust(&self, date: Date, convention: BusinessDayConvention) -> (r: Date)
        requires wf(date), adjustable(*self, date.s(), convention),
        ensures wf(r), adjusted(*self, date.s(), convention, r.s()),
    { unimplemented!() }
}
pub uninterp spec fn adjusted(c: Calendar, s: int, conv: BusinessDayConvention, r: int) -> bool;
pub uninterp spec fn adjustable(c: Calendar, s: int, conv: BusinessDayConvention) -> bool;
impl ZeroCouponBond {
    /// one payment of the redemption on the adjusted maturity date, when the notional goes
    pub open spec fn made(self, days: int, cal: Calendar, face: real, maturity: int, conv: BusinessDayConvention, redemption: real, issue: int) -> bool {
        &&& self.settlement_days == days && self.calendar == cal && self.face_amount.v() == face && self.maturity_date.s() == maturity
        &&& self.payment_convention == conv && self.redemption.v() == redemption && self.issue_date.s() == issue && wf(self.issue_date) && wf(self.maturity_date)
        &&& self.notional_schedule.len() == 2 && self.notional_schedule[0].s() == null() && wf(self.notional_schedule[1])
        &&& adjusted(cal, maturity, conv, self.notional_schedule[1].s())
        &&& self.notionals.len() == 2 && self.notionals[0].v() == face && self.notionals[1].v() == 0real
        &&& self.cashflows.len() == 1 && self.redemptions.len() == 1
        &&& payment(self.cashflows[0], face * redemption / 100real, self.notional_schedule[1].s())
        &&& payment(self.redemptions[0], face * redemption / 100real, self.notional_schedule[1].s())
    }
//@fn src/instruments/zerocouponbond.rs "impl ZeroCouponBond" new
//@real
//@ret r
    requires wf(maturity_date), adjustable(*calendar, maturity_date.s(), Following),
    ensures r.made(settlement_days as int, *calendar, face_amount.v(), maturity_date.s(), Following, 100real, null()),
//@end
//@fn src/instruments/zerocouponbond.rs "impl ZeroCouponBond" new_with_options
//@real
//@sub "issue_date.unwrap_or_default()" => "issue_date.or_default()"
//@sub "vec![rcf.clone()]" => "vec![erased(rcf.clone())]"
//@sub "vec![rcf]" => "vec![erased(rcf)]"
//@ret r
    requires wf(maturity_date), adjustable(*calendar, maturity_date.s(), match payment_convention { Some(c) => c, None => Following }), issue_date is Some ==> wf(issue_date->0),
    ensures r.made(settlement_days as int, *calendar, face_amount.v(), maturity_date.s(), match payment_convention { Some(c) => c, None => Following },
        match redemption { Some(x) => x.v(), None => 100real }, issue_date.or_null()),
//@end
//@fn src/instruments/zerocouponbond.rs "impl ZeroCouponBond" price_from_discount_yield
//@real
//@ret r
    requires wf(self.maturity_date), wf(settlement_date), good(self.flows(), self.steps(), self.left(), self.days(), self.issued()),
    ensures r.v() == 100real - 100real * discount_yield.v() * ((self.maturity_date.s() - settlement_date.s()) as real) / 360real,
//@end
//@fn src/instruments/zerocouponbond.rs "impl ZeroCouponBond" period
//@real
//@ret r
    requires wf(self.maturity_date), wf(date),
    ensures r.unit == TimeUnit::Months, r.length == rround(((self.maturity_date.s() - date.s()) as real) / 30real),
//@end
}
impl Bond for ZeroCouponBond {
    open spec fn days(&self) -> int { self.settlement_days as int }
    open spec fn trades_on(&self) -> Calendar { self.calendar }
    open spec fn issued(&self) -> int { self.issue_date.s() }
    open spec fn flows(&self) -> Seq<Rc<dyn CashFlow>> { self.cashflows@ }
    open spec fn steps(&self) -> Seq<Date> { self.notional_schedule@ }
    open spec fn left(&self) -> Seq<Real> { self.notionals@ }
    open spec fn matures(&self, d: int) -> bool { d == self.maturity_date.s() }
//@fn src/instruments/zerocouponbond.rs "impl Bond for ZeroCouponBond" calendar
//@end
//@fn src/instruments/zerocouponbond.rs "impl Bond for ZeroCouponBond" cashflows
//@end
//@fn src/instruments/zerocouponbond.rs "impl Bond for ZeroCouponBond" issue_date
//@end
//@fn src/instruments/zerocouponbond.rs "impl Bond for ZeroCouponBond" maturity_date
//@end
//@fn src/instruments/zerocouponbond.rs "impl Bond for ZeroCouponBond" notional_schedule
//@end
//@fn src/instruments/zerocouponbond.rs "impl Bond for ZeroCouponBond" notionals
//@end
//@fn src/instruments/zerocouponbond.rs "impl Bond for ZeroCouponBond" settlement_days
//@end
}
proof fn lemma_one_payment<T: CashFlow>(c: Seq<T>, d: int, face: real, a: real)
    requires c.len() == 1, c[0].accrued(d) == 0real, face != 0real, has_accrued(c, d, face, a),
    ensures a == 0real,
{
    reveal_with_fuel(accrued_on, 3);
    let n = choose|n: Option<usize>| #[trigger] is_next(c, d, false, n) && a == (match n { Some(i) => accrued_on(c, c[i as int].on(), d, c.len() as int), None => 0real }) * 100real / face;
    assert(0real * 100real / face == 0real) by (nonlinear_arith) requires face != 0real;
    if n is Some { assert(c.len() == 1 && n->0 == 0); assert(accrued_on(c, c[0].on(), d, 0) == 0real); assert(accrued_on(c, c[0].on(), d, 1) == 0real); }
}
/// in full before it is redeemed, nothing from then on; nothing accrues
proof fn lemma_zero_coupon(b: ZeroCouponBond, days: int, cal: Calendar, face: real, maturity: int, conv: BusinessDayConvention, redemption: real, issue: int, d: int, a: real)
    requires b.made(days, cal, face, maturity, conv, redemption, issue), null() <= d, null() < b.notional_schedule[1].s(), i32::MIN < days,
    ensures
        good(b.flows(), b.steps(), b.left(), b.days(), b.issued()),
        outstanding(b.steps(), b.left(), d) == if d < b.notional_schedule[1].s() { face } else { 0real },
        face != 0real && has_accrued(b.flows(), d, face, a) ==> a == 0real,
{
    lemma_redeemed_at_once(b.steps(), b.left(), d);
    if face != 0real && has_accrued(b.flows(), d, face, a) {
        lemma_one_payment(b.flows(), d, face, a);
    }
}

// --- fixed rate bonds
/// the notionals and the payment dates after which they change, over the first k coupons
pub open spec fn levels<T: Coupon>(c: Seq<T>, k: int) -> (Seq<real>, Seq<int>)
    decreases k,
{
    if k <= 0 { (seq![], seq![null()]) }
    else if k == 1 { (seq![c[0].notional()], seq![null()]) }
    else {
        let p = levels(c, k - 1);
        if near(c[k - 1].notional(), p.0[p.0.len() - 1], 42, true) { p } else { (p.0.push(c[k - 1].notional()), p.1.push(c[k - 2].on())) }
    }
}
pub open spec fn amounts(x: Seq<Real>) -> Seq<real> { Seq::new(x.len(), |i: int| x[i].v()) }
pub open spec fn days_of(x: Seq<Date>) -> Seq<int> { Seq::new(x.len(), |i: int| x[i].s()) }
pub open spec fn all_wf(x: Seq<Date>) -> bool { forall|i: int| 0 <= i < x.len() ==> wf(#[trigger] x[i]) }
proof fn lemma_levels<T: Coupon>(c: Seq<T>, k: int)
    requires k >= 1,
    ensures levels(c, k).0.len() == levels(c, k).1.len() >= 1,
    decreases k,
{
    if k > 1 { lemma_levels(c, k - 1); }
}
/// one level of notional
proof fn lemma_level<T: Coupon>(c: Seq<T>, face: real, k: int)
    requires 1 <= k <= c.len(), forall|i: int| 0 <= i < k ==> (#[trigger] c[i]).notional() == face,
    ensures levels(c, k) == (seq![face], seq![null()]),
    decreases k,
{
    assert(c[k - 1].notional() == face);
    if k > 1 { lemma_level(c, face, k - 1); }
}
pub open spec fn or(x: Option<Real>, d: real) -> real { match x { Some(v) => v.v(), None => d } }
//@type src/instruments/fixedratebond.rs struct FixedRateBond
/// the leg the bond is made of
pub open spec fn leg_of(l: FixedRateLeg, schedule: Schedule, face: real, coupons: Seq<Real>, dc: DayCounter, conv: Option<BusinessDayConvention>, cal: Option<Calendar>,
    ex: Option<(Period, Calendar, BusinessDayConvention, bool)>, first: Option<DayCounter>) -> bool {
    &&& l.schedule == schedule && l.notionals.len() == 1 && l.notionals[0].v() == face
    &&& l.coupon_rates.len() == coupons.len()
    &&& forall|i: int| #![trigger l.coupon_rates[i]] 0 <= i < coupons.len() ==> {
        let r = l.coupon_rates[i];
        r.valid() && r.rate.v() == coupons[i].v() && r.daycounter == dc && r.compounding == Compounding::Simple
    }
    &&& l.payment_adjustment == Some(match conv { Some(c) => c, None => Following })
    &&& l.payment_calendar == Some(match cal { Some(c) => c, None => schedule.calendar })
    &&& l.payment_lag is None && l.first_period_dc == first && l.last_period_dc is None
    &&& match ex {
        Some((p, c, v, e)) => l.ex_coupon_period == Some(p) && l.ex_coupon_calendar == Some(c) && l.ex_coupon_adjustment == Some(v) && l.ex_coupon_end_of_month == Some(e),
        None => l.ex_coupon_period is None,
    }
}
/// ex-coupon terms count when all are given
pub open spec fn ex_terms(p: Option<Period>, c: Option<Calendar>, v: Option<BusinessDayConvention>, e: Option<bool>) -> Option<(Period, Calendar, BusinessDayConvention, bool)> {
    if p is Some && c is Some && v is Some && e is Some { Some((p->0, c->0, v->0, e->0)) } else { None }
}
pub ghost struct Parts { pub days: int, pub cal: Calendar, pub issue: int, pub maturity: int, pub notionals: Seq<Real>, pub steps: Seq<Date>, pub flows: Seq<Rc<dyn CashFlow>>, pub redemptions: Seq<Rc<dyn CashFlow>> }
/// the leg's coupons and the redemption of the notional with the last of them, by date of payment
pub open spec fn made(b: Parts, l: FixedRateLeg, days: int, face: real, redemption: real, issue: int, coupons: Seq<FixedRateCoupon>, all: Seq<Rc<dyn CashFlow>>) -> bool {
        let n = l.n() - 1;
        &&& b.days == days && b.cal == l.calendar() && b.issue == issue && MIN() <= issue <= MAX() && b.maturity == l.schedule.at(n)
        &&& coupons.len() == n && n >= 1 && forall|i: int| 1 <= i <= n ==> #[trigger] l.pays(i, coupons[i - 1])
        &&& all.len() == n + 1 && (forall|i: int| 0 <= i < n ==> like(#[trigger] all[i], &coupons[i]))
        &&& payment(all[n], redemption / 100real * face, coupons[n - 1].on())
        &&& sorted(all, b.flows) && all_ok(b.flows)
        &&& b.notionals.len() == 2 && b.notionals[0].v() == face && b.notionals[1].v() == 0real
        &&& b.steps.len() == 2 && all_wf(b.steps) && b.steps[0].s() == null() && b.steps[1].s() == coupons[n - 1].on()
        &&& b.redemptions.len() == 1 && payment(b.redemptions[0], redemption / 100real * face, coupons[n - 1].on())
    }
impl FixedRateBond {
    pub open spec fn parts(self) -> Parts {
        Parts { days: self.settlement_days as int, cal: self.calendar, issue: self.issue_date.s(), maturity: self.maturity_date.s(), notionals: self.notionals@, steps: self.notional_schedule@,
            flows: self.cashflows@, redemptions: self.redemptions@ }
    }
//@fn src/instruments/fixedratebond.rs "impl FixedRateBond" calculate_notionals_from_cashflows
//@walked
//@real
//@partial
//@ret r
    requires all_ok(coupons@),
    ensures
        coupons.len() > 0,
        amounts(r.0@) =~= levels(coupons@, coupons.len() as int).0.push(0real), days_of(r.1@) =~= levels(coupons@, coupons.len() as int).1.push(coupons[coupons.len() - 1].on()),
        all_wf(r.1@), r.0.len() == r.1.len() >= 2,
//@loop 0 "while cf_i < coupons.len()"
            invariant
                all_ok(coupons@), cf_i <= coupons.len(), wf(last_payment_date), all_wf(notional_schedule@),
                amounts(notionals@) =~= levels(coupons@, cf_i as int).0, days_of(notional_schedule@) =~= levels(coupons@, cf_i as int).1,
                cf_i == 0 <==> notionals.len() == 0,
                cf_i > 0 ==> last_payment_date.s() == coupons[cf_i - 1].on() && notionals.len() == notional_schedule.len(),
            decreases coupons.len() - cf_i,
//@loopbody 0
            proof { if cf_i >= 1 { lemma_levels(coupons@, cf_i as int); } }
//@end
//@fn src/instruments/fixedratebond.rs "impl FixedRateBond" calculate_redemptions
//@real
//@sub "Rc::new(AmortizingPayment::new(amount, notional_schedule[i]))" => "erased(Rc::new(AmortizingPayment::new(amount, notional_schedule[i])))"
//@sub "Rc::new(Redemption::new(amount, notional_schedule[i]))" => "erased(Rc::new(Redemption::new(amount, notional_schedule[i])))"
//@ret r
    requires notionals.len() == notional_schedule.len() >= 1, all_wf(notional_schedule@),
    ensures
        r.len() == notionals.len() - 1,
        // each fall of the notional is paid, at its percentage, when it happens
        forall|i: int| 0 <= i < r.len() ==> payment(#[trigger] r[i], per_cent(redemption_values@, i + 1) / 100real * (notionals[i].v() - notionals[i + 1].v()), notional_schedule[i + 1].s()),
//@loop 0 "for i in 1..notional_schedule.len()"
            invariant
                notionals.len() == notional_schedule.len(), all_wf(notional_schedule@), redemptions.len() == i - 1,
                forall|k: int| 0 <= k < redemptions.len() ==> payment(#[trigger] redemptions[k], per_cent(redemption_values@, k + 1) / 100real * (notionals[k].v() - notionals[k + 1].v()), notional_schedule[k + 1].s()),
//@end
//@fn src/instruments/fixedratebond.rs "impl FixedRateBond" new_with_options
//@matched
//@taken c
//@walked
//@real
//@partial
//@sub "let mut coupon_rates = vec![];" => "let mut coupon_rates: Vec<InterestRate> = vec![];"
//@sub "cashflows.push(Rc::new(c.clone()))" => "cashflows.push(erased(Rc::new(c.clone())))"
//@sub "cashflows.sort_by_key(|a| a.date())" => "sort_by_date(&mut cashflows)"
//@sub "issue_date.unwrap_or_default()" => "issue_date.or_default()"
//@ret r
    requires
        schedule.ok(), issue_date is Some ==> wf(issue_date->0),
        forall|l: FixedRateLeg| #[trigger] leg_of(l, schedule, face_amount.v(), coupons@, accrual_daycounter, payment_convention, payment_calendar,
            ex_terms(ex_coupon_period, ex_coupon_calendar, ex_coupon_convention, ex_coupon_end_of_month), first_period_daycounter) ==> l.dated(),
    ensures
        exists|l: FixedRateLeg, c: Seq<FixedRateCoupon>, all: Seq<Rc<dyn CashFlow>>| #[trigger] leg_of(l, schedule, face_amount.v(), coupons@, accrual_daycounter, payment_convention, payment_calendar,
                ex_terms(ex_coupon_period, ex_coupon_calendar, ex_coupon_convention, ex_coupon_end_of_month), first_period_daycounter)
            && #[trigger] made(r.parts(), l, settlement_days as int, face_amount.v(), or(redemption, 100real), issue_date.or_null(), c, all),
//@top
        let ghost rates = coupons@;
        let ghost x = ex_terms(ex_coupon_period, ex_coupon_calendar, ex_coupon_convention, ex_coupon_end_of_month);
        let ghost (the_schedule, dc, cal, first) = (schedule, accrual_daycounter, payment_calendar, first_period_daycounter);
//@loop 0 "while c_i < coupons.len()"
            invariant
                c_i <= coupons.len(), coupon_rates.len() == c_i,
                forall|i: int| #![trigger coupon_rates[i]] 0 <= i < c_i ==> coupon_rates[i].valid() && coupon_rates[i].rate.v() == coupons[i].v() && coupon_rates[i].daycounter == accrual_daycounter
                    && coupon_rates[i].compounding == Compounding::Simple,
            decreases coupons.len() - c_i,
//@before "let coupons = fixed_rate_coupon_builder"
        let ghost l = fixed_rate_coupon_builder;
        proof {
            assert(leg_of(l, the_schedule, face_amount.v(), rates, dc, payment_convention, cal, x, first));
            assert(l.dated());
        }
//@result "Self {"
        proof {
            assert(made(the_result.parts(), l, settlement_days as int, face_amount.v(), or(redemption, 100real), issue_date.or_null(), coupons@, all));
        }
//@before "Self {"
        proof {
            assert(coupons.len() == l.n() - 1);
            let pc = or(redemption, 100real);
            assert(face_amount.v() - 0real == face_amount.v());
            assert(notional_schedule[1].s() == coupons[coupons.len() - 1].on());
            assert(payment(redemptions[0], pc / 100real * face_amount.v(), coupons[coupons.len() - 1].on()));
            assert(all[coupons.len() as int] == redemptions[0]);
            assert(forall|i: int| 1 <= i <= coupons.len() ==> #[trigger] l.pays(i, coupons@[i - 1]));
            assert(forall|i: int| 0 <= i < coupons.len() ==> like(#[trigger] all[i], &coupons@[i]));
            assert(sorted(all, cashflows@) && all_ok(cashflows@) && all_wf(notional_schedule@));
            assert(*calendar == l.calendar());
            let b = Parts { days: settlement_days as int, cal: *calendar, issue: issue_date.or_null(), maturity: schedule.at(schedule.dates.len() - 1), notionals: notionals@, steps: notional_schedule@, flows: cashflows@, redemptions: redemptions@ };
            assert(made(b, l, settlement_days as int, face_amount.v(), pc, issue_date.or_null(), coupons@, all));
        }
//@after "let coupons = fixed_rate_coupon_builder"
        proof {
            assert forall|i: int| 1 <= i <= coupons.len() implies #[trigger] l.pays(i, coupons[i - 1]) by {}
            assert forall|i: int| 0 <= i < coupons.len() implies (#[trigger] coupons@[i]).ok() && coupons@[i].notional() == face_amount.v() by { assert(l.pays(i + 1, coupons[(i + 1) - 1])); }
            lemma_level(coupons@, face_amount.v(), coupons.len() as int);
        }
//@loop 1 "while c_i < coupons.len()"
            invariant
                c_i <= coupons.len(), cashflows.len() == c_i, forall|i: int| 0 <= i < c_i ==> like(#[trigger] cashflows[i], &coupons[i]),
            decreases coupons.len() - c_i,
//@loop 2 "while r_i < redemptions.len()"
            invariant
                r_i <= redemptions.len(), cashflows.len() == coupons.len() + r_i, forall|i: int| 0 <= i < coupons.len() ==> like(#[trigger] cashflows[i], &coupons[i]),
                forall|i: int| 0 <= i < r_i ==> #[trigger] cashflows[coupons.len() + i] == redemptions[i],
            decreases redemptions.len() - r_i,
//@before "cashflows.sort_by_key"
        let ghost all = cashflows@;
        proof {
            assert(amounts(notionals@) =~= seq![face_amount.v(), 0real]);
            assert(amounts(notionals@)[0] == notionals[0].v() && amounts(notionals@)[1] == notionals[1].v());
            assert(days_of(notional_schedule@)[0] == notional_schedule[0].s() && days_of(notional_schedule@)[1] == notional_schedule[1].s());
            assert(redemptions.len() == 1);
            let pc = or(redemption, 100real);
            assert(payment(redemptions[0], pc / 100real * (face_amount.v() - 0real), notional_schedule[1].s()));
            assert(all[coupons.len() as int + 0] == redemptions[0]);
            assert(all.len() == coupons.len() + 1);
            assert forall|i: int| 0 <= i < all.len() implies (#[trigger] all[i]).ok() by {
                if i < coupons.len() { assert(coupons@[i].ok()); assert(like(all[i], &coupons[i])); }
                else { assert(all[coupons.len() as int + (i - coupons.len())] == redemptions[i - coupons.len()]); }
            }
            lemma_all_ok(all);
        }
//@end
}
pub open spec fn per_cent(x: Seq<Real>, i: int) -> real { if i < x.len() { x[i].v() } else if x.len() > 0 { x[x.len() - 1].v() } else { 100real } }

impl FixedRateBond {
//@fn src/instruments/fixedratebond.rs "impl FixedRateBond" new
//@ret r
    requires
        schedule.ok(),
        forall|l: FixedRateLeg| #[trigger] leg_of(l, schedule, face_amount.v(), coupons@, accrual_daycounter, None, None, None, None) ==> l.dated(),
    ensures
        exists|l: FixedRateLeg, c: Seq<FixedRateCoupon>, all: Seq<Rc<dyn CashFlow>>| #[trigger] leg_of(l, schedule, face_amount.v(), coupons@, accrual_daycounter, None, None, None, None)
            && #[trigger] made(r.parts(), l, settlement_days as int, face_amount.v(), 100real, null(), c, all),
//@end
}
impl Bond for FixedRateBond {
    open spec fn days(&self) -> int { self.settlement_days as int }
    open spec fn trades_on(&self) -> Calendar { self.calendar }
    open spec fn issued(&self) -> int { self.issue_date.s() }
    open spec fn flows(&self) -> Seq<Rc<dyn CashFlow>> { self.cashflows@ }
    open spec fn steps(&self) -> Seq<Date> { self.notional_schedule@ }
    open spec fn left(&self) -> Seq<Real> { self.notionals@ }
    open spec fn matures(&self, d: int) -> bool {
        d == if latest_end(self.cashflows@, self.cashflows@.len() as int) != null() { latest_end(self.cashflows@, self.cashflows@.len() as int) } else { latest_payment(self.cashflows@, self.cashflows@.len() as int) }
    }
//@fn src/instruments/fixedratebond.rs "impl Bond for FixedRateBond" calendar
//@end
//@fn src/instruments/fixedratebond.rs "impl Bond for FixedRateBond" cashflows
//@end
//@fn src/instruments/fixedratebond.rs "impl Bond for FixedRateBond" issue_date
//@end
//@fn src/instruments/fixedratebond.rs "impl Bond for FixedRateBond" maturity_date
//@partial
//@end
//@fn src/instruments/fixedratebond.rs "impl Bond for FixedRateBond" notional_schedule
//@end
//@fn src/instruments/fixedratebond.rs "impl Bond for FixedRateBond" notionals
//@end
//@fn src/instruments/fixedratebond.rs "impl Bond for FixedRateBond" settlement_days
//@end
}
proof fn lemma_latest<T: CashFlow>(leg: Seq<T>, k: int)
    requires 0 <= k <= leg.len(),
    ensures
        forall|i: int| 0 <= i < k ==> (#[trigger] leg[i]).acc_end() <= latest_end(leg, k), latest_end(leg, k) >= null(),
        latest_end(leg, k) == null() || exists|i: int| 0 <= i < k && (#[trigger] leg[i]).acc_end() == latest_end(leg, k),
    decreases k,
{
    if k > 0 { lemma_latest(leg, k - 1); assert(leg[k - 1].acc_end() <= latest_end(leg, k)); }
}
proof fn lemma_latest_of<T: CashFlow>(a: Seq<T>, b: Seq<T>, m: int, at: int)
    requires sorted(a, b), 0 <= at < a.len(), a[at].acc_end() == m, m > null(), forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).acc_end() <= m,
    ensures latest_end(b, b.len() as int) == m,
{
    let p = choose|p: Seq<int>| #[trigger] sorted_by(a, b, p);
    assert(p.contains(at));
    let k = choose|k: int| 0 <= k < p.len() && p[k] == at;
    assert(b[k] == a[p[k]]);
    lemma_latest(b, b.len() as int);
    let e = latest_end(b, b.len() as int);
    assert(b[k].acc_end() <= e);
    let j = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).acc_end() == e;
    assert(b[j] == a[p[j]]);
}
/// in full before the redemption, nothing from then on
proof fn lemma_fixed_rate_notional(b: FixedRateBond, l: FixedRateLeg, days: int, face: real, redemption: real, issue: int, c: Seq<FixedRateCoupon>, all: Seq<Rc<dyn CashFlow>>, d: int)
    requires made(b.parts(), l, days, face, redemption, issue, c, all), null() <= d, i32::MIN < days, null() < c[c.len() - 1].on(),
    ensures
        good(b.flows(), b.steps(), b.left(), b.days(), b.issued()),
        outstanding(b.steps(), b.left(), d) == if d < c[c.len() - 1].on() { face } else { 0real },
{
    lemma_redeemed_at_once(b.steps(), b.left(), d);
}
/// the coupons, then the redemption, where the coupons are paid in order
proof fn lemma_fixed_rate_flows(b: FixedRateBond, l: FixedRateLeg, days: int, face: real, redemption: real, issue: int, c: Seq<FixedRateCoupon>, all: Seq<Rc<dyn CashFlow>>)
    requires made(b.parts(), l, days, face, redemption, issue, c, all), in_order(c),
    ensures b.flows() =~= all,
{
    let n = l.n() - 1;
    assert forall|i: int, j: int| 0 <= i < j < all.len() implies (#[trigger] all[i]).on() <= (#[trigger] all[j]).on() by {
        lemma_flow(b, l, days, face, redemption, issue, c, all, i);
        if j < n { lemma_flow(b, l, days, face, redemption, issue, c, all, j); }
        lemma_two(c, i, n - 1);
        if j < n { lemma_two(c, i, j); }
    }
    lemma_in_order(all);
    lemma_sorted_already(all, b.flows());
}
proof fn lemma_two<T: CashFlow>(c: Seq<T>, i: int, j: int)
    requires in_order(c), 0 <= i <= j < c.len(),
    ensures c[i].on() <= c[j].on(),
{}
proof fn lemma_flow(b: FixedRateBond, l: FixedRateLeg, days: int, face: real, redemption: real, issue: int, c: Seq<FixedRateCoupon>, all: Seq<Rc<dyn CashFlow>>, i: int)
    requires made(b.parts(), l, days, face, redemption, issue, c, all), 0 <= i < l.n() - 1,
    ensures all[i].on() == c[i].on(), all[i].acc_end() == l.schedule.at(i + 1),
{
    assert(like(all[i], &c[i]));
    assert(l.pays(i + 1, c[(i + 1) - 1]));
}
/// it matures when the schedule ends
proof fn lemma_fixed_rate_maturity(b: FixedRateBond, l: FixedRateLeg, days: int, face: real, redemption: real, issue: int, c: Seq<FixedRateCoupon>, all: Seq<Rc<dyn CashFlow>>, d: int)
    requires
        made(b.parts(), l, days, face, redemption, issue, c, all), null() < l.schedule.at(l.n() - 1),
        forall|i: int| 0 <= i < l.n() ==> (#[trigger] l.schedule.dates[i]).s() <= l.schedule.at(l.n() - 1),
    ensures b.matures(d) ==> d == l.schedule.at(l.n() - 1),
{
    let n = l.n() - 1;
    assert forall|i: int| 0 <= i < all.len() implies (#[trigger] all[i]).acc_end() <= l.schedule.at(n) by {
        if i < n { lemma_flow(b, l, days, face, redemption, issue, c, all, i); assert(l.schedule.dates[i + 1].s() <= l.schedule.at(n)); }
    }
    lemma_flow(b, l, days, face, redemption, issue, c, all, n - 1);
    lemma_latest_of(all, b.flows(), l.schedule.at(n), n - 1);
}
proof fn lemma_in_order<T: CashFlow>(a: Seq<T>)
    requires forall|i: int, j: int| 0 <= i < j < a.len() ==> (#[trigger] a[i]).on() <= (#[trigger] a[j]).on(),
    ensures in_order(a),
{}

fn main() {}
}
