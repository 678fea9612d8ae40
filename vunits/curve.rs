use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
use core::ops::*;
use core::cmp::Ordering;
use std::sync::Arc;

verus! {

//@include caldate.rs
use caldate::*;

pub type Integer = i32;
pub type Size = usize;
pub type Day = u32;
pub type Year = i32;
pub type Time = Real;
pub type Rate = Real;
pub type DiscountFactor = Real;

//@include real.rs
//@type src/datetime/timeunit.rs enum TimeUnit derive(Clone, Copy, Debug, PartialEq, Eq, Structural)
//@type src/datetime/period.rs struct Period derive(Clone, Copy, Debug)
//@include date_base.rs
//@include date_period_ops.rs
//@include plus.rs
impl Date {
    #[verifier::external_body]
    pub fn default() -> (r: Date)
        ensures r.s() == MIN(), wf(r),
    { unimplemented!() }
}
//@include rates_base.rs

// ------------------------------------------------------------------ curves
pub trait TermStructure {
    /// the time the structure assigns to a date
    spec fn time_of(&self, date: int) -> real;
    fn time_from_references(&self, date: &Date) -> (r: Time)
        requires wf(*date),
        ensures r.v() == self.time_of(date.s()),
    ;
}
pub trait YieldTermStructure: TermStructure {
    spec fn discount_at(&self, t: real, extrapolate: bool) -> real;
    spec fn forward(&self, d1: int, d2: int, dc: DayCounter, c: Compounding, f: Frequency, extrapolate: bool) -> InterestRate;
    fn discount_frome_time(&self, time: Time, extrapolate: bool) -> (r: DiscountFactor)
        ensures r.v() == self.discount_at(time.v(), extrapolate),
    ;
    fn forward_rate_from_dates(&self, d1: &Date, d2: &Date, result_day_counter: &DayCounter, compounding: Compounding, frequency: Frequency, extrapolate: bool) -> (r: InterestRate)
        requires wf(*d1), wf(*d2),
        ensures r == self.forward(d1.s(), d2.s(), *result_day_counter, compounding, frequency, extrapolate),
    ;
//@fn src/termstructures/yieldtermstructure.rs "pub trait YieldTermStructure: TermStructure" discount_from_date
//@ret r
        requires wf(*date),
        ensures r.v() == self.discount_at(self.time_of(date.s()), extrapolate),
//@end
//@fn src/termstructures/yieldtermstructure.rs "pub trait YieldTermStructure: TermStructure" forward_rate_from_date_period
//@sub "&(d1 + p)" => "&(*d1 + *p)"
//@ret r
        requires wf(*d1), movable(d1.s(), p.length as int, p.unit),
        ensures r == self.forward(d1.s(), plus(d1.s(), p.length as int, p.unit), *result_day_counter, compounding, frequency, extrapolate),
//@top
        proof { lemma_plus(d1.s(), p.length as int, p.unit); }
//@end
}
pub trait ZeroYieldStructure {
    spec fn yield_at(&self, t: real) -> real;
    fn zero_yield(&self, time: Time) -> (r: Rate)
        ensures r.v() == self.yield_at(time.v()),
    ;
//@fn src/termstructures/zeroyieldstructure.rs "pub trait ZeroYieldStructure" discount
//@real
//@ret r
        ensures
            time.v() == 0real ==> r.v() == 1real,
            time.v() != 0real ==> r.v() == rexp(-self.yield_at(time.v()) * time.v()),
            r.v() > 0real,
//@top
        proof { axiom_exp_ln(-self.yield_at(time.v()) * time.v()); }
//@end
}

// ------------------------------------------------------------------ quotes and instruments
pub trait Quote {
    spec fn quoted(&self) -> real;
    fn value(&self) -> (r: Real)
        ensures r.v() == self.quoted(),
    ;
    fn is_valid(&self) -> bool;
}
//@type src/quotes/simplequote.rs struct SimpleQuote
impl SimpleQuote {
//@fn src/quotes/simplequote.rs "impl SimpleQuote" new
//@ret r
    ensures r.value == value,
//@end
}
impl Quote for SimpleQuote {
    open spec fn quoted(&self) -> real { self.value.v() }
//@fn src/quotes/simplequote.rs "impl Quote for SimpleQuote" value
//@ret r
    ensures r == self.value,
//@end
//@fn src/quotes/simplequote.rs "impl Quote for SimpleQuote" is_valid
//@ret r
    ensures r,
//@end
}
//@type src/instruments/instrument.rs struct InstrumentResults
pub trait Instrument {
    spec fn worth(&self) -> InstrumentResults;
    fn perform_calculations(&self) -> (r: InstrumentResults)
        ensures r.npv.v() == self.worth().npv.v(), r.error_estimate.v() == self.worth().error_estimate.v(), r.valuation_date.s() == self.worth().valuation_date.s(),
    ;
//@fn src/instruments/instrument.rs "pub trait Instrument" calculate
//@ret r
        ensures r.npv.v() == self.worth().npv.v(), r.error_estimate.v() == self.worth().error_estimate.v(), r.valuation_date.s() == self.worth().valuation_date.s(),
//@end
//@fn src/instruments/instrument.rs "pub trait Instrument" npv
//@ret r
        ensures r.v() == self.worth().npv.v(),
//@end
}
//@type src/instruments/stock.rs struct Stock
impl Stock {
//@fn src/instruments/stock.rs "impl Stock" new
//@ret r
    ensures r.quote == quote,
//@end
}
impl Instrument for Stock {
    open spec fn worth(&self) -> InstrumentResults { InstrumentResults { npv: rl(self.quote.quoted()), error_estimate: rl(0real), valuation_date: day(MIN()) } }
//@fn src/instruments/stock.rs "impl Instrument for Stock" perform_calculations
//@end
}

} // verus!
fn main() {}
