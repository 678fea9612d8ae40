//! C27: curves, quotes and instruments
use crate::obl::*;
use rust_quantlib::{
    datetime::{date::Date, daycounter::DayCounter, frequency::Frequency, period::Period, timeunit::TimeUnit},
    instruments::{
        instrument::{Instrument, InstrumentResults},
        stock::Stock,
    },
    quotes::{quote::Quote, simplequote::SimpleQuote},
    rates::{compounding::Compounding, interestrate::InterestRate},
    termstructures::{termstructure::TermStructure, yieldtermstructure::YieldTermStructure, zeroyieldstructure::ZeroYieldStructure},
};
use std::sync::Arc;

/// yields a + b t, and what a rate between two dates was asked for
struct Curve {
    a: f64,
    b: f64,
    from: i32,
    slower: f64,
}
impl ZeroYieldStructure for Curve {
    fn zero_yield(&self, time: f64) -> f64 {
        self.a + self.b * time
    }
}
impl TermStructure for Curve {
    fn time_from_references(&self, date: &Date) -> f64 {
        (ymd_of(date).serial() - self.from) as f64 / self.slower
    }
    fn max_date(&self) -> Date {
        Date::max_date()
    }
    fn max_time(&self) -> f64 {
        self.time_from_references(&Date::max_date())
    }
    fn reference_date(&self) -> Date {
        Date::from_serial(self.from)
    }
    fn settlement_days(&self) -> u32 {
        2
    }
}
impl YieldTermStructure for Curve {
    fn discount_frome_time(&self, time: f64, extrapolate: bool) -> f64 {
        self.a + 3.0 * time + if extrapolate { 1000.0 } else { 0.0 }
    }
    fn zero_rate_from_date(&self, _: &Date, _: &DayCounter, _: Compounding, _: Frequency, _: bool) -> InterestRate {
        unreachable!()
    }
    fn zero_rate_from_time(&self, _: f64, _: Compounding, _: Frequency, _: bool) -> InterestRate {
        unreachable!()
    }
    fn forward_rate_from_dates(&self, d1: &Date, d2: &Date, dc: &DayCounter, c: Compounding, f: Frequency, extrapolate: bool) -> InterestRate {
        let code = ymd_of(d1).serial() as f64 * 1e6 + ymd_of(d2).serial() as f64 + if extrapolate { 0.5 } else { 0.0 };
        InterestRate::new(code, dc.clone(), c, f)
    }
    fn forward_rate_from_times(&self, _: f64, _: f64, _: Compounding, _: Frequency, _: bool) -> InterestRate {
        unreachable!()
    }
    fn jump_dates(&self) -> Vec<Date> {
        vec![]
    }
    fn jump_times(&self) -> Vec<f64> {
        vec![]
    }
}
fn curve<S: Src>(s: &mut S) -> Curve {
    Curve { a: s.real(-0.05, 0.2), b: s.real(-0.01, 0.01), from: s.int(30000, 60000), slower: [360.0, 365.0, 1.0][s.int(0, 2) as usize] }
}

//@ native
pub fn a_discount_is_e_to_minus_yield_times_time<S: Src>(s: &mut S) {
    let c = curve(s);
    let t = match s.int(0, 5) {
        0 => 0.0,
        1 => -0.0,
        2 => s.real(-1e-9, 1e-9),
        3 => s.real(-2.0, 0.0),
        _ => s.real(0.0, 40.0),
    };
    let want = if t == 0.0 { 1.0 } else { (-(c.a + c.b * t) * t).exp() };
    let got = c.discount(t);
    ensures!(s, got > 0.0 && (got - want).abs() <= 1e-12 * want, "continuously compounded at the yield of the time");
    struct Undefined;
    impl ZeroYieldStructure for Undefined {
        fn zero_yield(&self, time: f64) -> f64 {
            1.0 / time
        }
    }
    if t == 0.0 {
        ensures!(s, Undefined.discount(t) == 1.0, "one at the reference, whatever the yield there");
    }
}

//@ native
pub fn discounts_and_forwards_over_dates<S: Src>(s: &mut S) {
    let c = curve(s);
    let d = s.int(MIN, MAX);
    let extrapolate = s.boolean();
    let date = Date::from_serial(d);
    let got = c.discount_from_date(&date, extrapolate);
    ensures!(s, got == c.discount_frome_time((d - c.from) as f64 / c.slower, extrapolate), "that of the time of the date");
    let x = ymd_of(&date);
    let n = s.int(-200, 200);
    let (p, end) = match s.int(0, 3) {
        0 => (Period::new(n, TimeUnit::Days), Some(d + n)),
        1 => (Period::new(n, TimeUnit::Weeks), Some(d + 7 * n)),
        k => {
            let m = if k == 2 { n } else { 12 * n };
            let i = month_index(x.y, x.m) + m;
            let (y, month) = (i.div_euclid(12), i.rem_euclid(12) + 1);
            let end = if y < 1900 || y > 2199 { None } else { Some(serial(y, month, clamp_day(y, month, x.d))) };
            (Period::new(n, if k == 2 { TimeUnit::Months } else { TimeUnit::Years }), end)
        }
    };
    requires!(s, end.is_some_and(|e| e >= MIN && e <= MAX));
    let (c1, f) = [
        (Compounding::Simple, Frequency::Annual),
        (Compounding::Continuous, Frequency::NoFrequency),
        (Compounding::Compounded, Frequency::Quarterly),
        (Compounding::SimpleThenCompounded, Frequency::Semiannual),
    ][s.int(0, 3) as usize]
        .clone();
    let dc = if s.boolean() { DayCounter::actual360() } else { DayCounter::usa() };
    let got = c.forward_rate_from_date_period(&date, &p, &dc, c1.clone(), f, extrapolate);
    let want = c.forward_rate_from_dates(&date, &Date::from_serial(end.unwrap()), &dc, c1.clone(), f, extrapolate);
    ensures!(s, got.rate == want.rate, "between the date and the date moved by the period");
    ensures!(s, got.compounding == c1 && got.frequency == want.frequency && got.daycounter.name() == dc.name(), "in the rule asked for");
}

//@ native
pub fn an_instrument_is_worth_what_its_calculation_says<S: Src>(s: &mut S) {
    let v = s.real(-1e6, 1e6);
    let stock = Stock::new(Arc::new(SimpleQuote::new(v)));
    ensures!(s, stock.npv() == v && stock.calculate().npv == v, "a stock is worth its quote");
    ensures!(s, stock.quote.value() == v && stock.quote.is_valid(), "a quote is its value");
    struct Any(f64, i32);
    impl Instrument for Any {
        fn perform_calculations(&self) -> InstrumentResults {
            InstrumentResults { npv: self.0, error_estimate: 0.25, valuation_date: Date::from_serial(self.1) }
        }
    }
    let d = s.int(MIN, MAX);
    let r = Any(v, d).calculate();
    ensures!(s, Any(v, d).npv() == v && r.npv == v && r.error_estimate == 0.25 && ymd_of(&r.valuation_date).serial() == d, "the calculation's results");
}
