//! C18: interest rates
use crate::obl::*;
use rust_quantlib::{
    datetime::{
        date::Date,
        daycounter::DayCounter,
        daycounters::{actual366::Actual366, one::One, thirty365::Thirty365},
        frequency::Frequency,
    },
    rates::{compounding::Compounding, interestrate::InterestRate},
};

const COUNTERS: i32 = 12;
fn counter(k: i32) -> DayCounter {
    match k {
        0 => DayCounter::actual360(),
        1 => DayCounter::actual_actual_isda(),
        2 => DayCounter::actual_actual_afb(),
        3 => DayCounter::simple(),
        4 => DayCounter::usa(),
        5 => DayCounter::isma(),
        6 => DayCounter::european(),
        7 => DayCounter::italian(),
        8 => DayCounter::nasd(),
        9 => DayCounter::Actual366(Actual366::new()),
        10 => DayCounter::One(One::new()),
        11 => DayCounter::actual_actual_old_isma(),
        _ => DayCounter::Thirty365(Thirty365::new()),
    }
}
fn compounding(k: i32) -> Compounding {
    match k {
        0 => Compounding::Simple,
        1 => Compounding::Compounded,
        2 => Compounding::Continuous,
        3 => Compounding::SimpleThenCompounded,
        _ => Compounding::CompoundedThenSimple,
    }
}
fn frequency(k: i32) -> Frequency {
    match k {
        0 => Frequency::Annual,
        1 => Frequency::Semiannual,
        2 => Frequency::EveryFourthMonth,
        3 => Frequency::Quarterly,
        4 => Frequency::Bimonthly,
        5 => Frequency::Monthly,
        6 => Frequency::EveryFourthWeek,
        7 => Frequency::Biweekly,
        8 => Frequency::Weekly,
        9 => Frequency::Daily,
        _ => Frequency::OtherFrequency,
    }
}
/// times a year
fn times(k: i32) -> f64 {
    [1.0, 2.0, 3.0, 4.0, 6.0, 12.0, 13.0, 26.0, 52.0, 365.0, 999.0][k as usize]
}
/// the rule's formula
fn factor(c: i32, n: f64, r: f64, t: f64) -> f64 {
    let simple = 1.0 + r * t;
    let compounded = (n * t * (r / n).ln_1p()).exp();
    match c {
        0 => simple,
        1 => compounded,
        2 => (r * t).exp(),
        3 if t <= 1.0 / n => simple,
        3 => compounded,
        _ if t <= 1.0 / n => compounded,
        _ => simple,
    }
}
fn same(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-10 * (a.abs().max(b.abs()))
}
/// near a total loss within one period the compounded rate is nearly minus the frequency, and no f64
/// holds enough digits of it for the factor to come back
fn representable(c: i32, n: f64, factor: f64, t: f64) -> bool {
    matches!(c, 0 | 2) || (factor.ln() / (n * t)).abs() < 4.0
}
/// a rate, compounded by rule c at frequency f
struct Quote {
    c: i32,
    f: i32,
    rate: f64,
    dc: i32,
}
impl Quote {
    fn any<S: Src>(s: &mut S) -> Self {
        let rate = match s.int(0, 3) {
            0 => s.int(-50, 300) as f64 / 1000.0,
            1 => s.real(-0.05, 0.3),
            2 => s.real(-1e-6, 1e-6),
            _ => s.real(0.3, 2.0),
        };
        Self { c: s.int(0, 4), f: s.int(0, 10), rate, dc: s.int(0, COUNTERS) }
    }
    fn build(&self) -> InterestRate {
        InterestRate::new(self.rate, counter(self.dc), compounding(self.c), frequency(self.f))
    }
    fn factor(&self, t: f64) -> f64 {
        factor(self.c, times(self.f), self.rate, t)
    }
}
/// times around the first period and beyond
fn time<S: Src>(s: &mut S, n: f64) -> f64 {
    match s.int(0, 4) {
        0 => 0.0,
        1 => 1.0 / n,
        2 => s.int(1, 19) as f64 / (10.0 * n),
        3 => s.int(1, 400) as f64 / 10.0,
        _ => s.real(0.0, 5.0),
    }
}

//@ native
pub fn the_compound_factor_is_the_formula<S: Src>(s: &mut S) {
    let q = Quote::any(s);
    let t = time(s, times(q.f));
    let want = q.factor(t);
    requires!(s, want > 1e-6);
    let r = q.build();
    ensures!(s, same(r.compound_factor(t), want), "the rule's formula");
    ensures!(s, same(r.discount_factor(t), 1.0 / want), "its reciprocal");
    ensures!(s, same(r.discount_factor(t) * r.compound_factor(t), 1.0), "reciprocals");
    ensures!(s, r.rate == q.rate && r.compounding == compounding(q.c), "the quoted rate");
    let f = if q.c == 0 || q.c == 2 { Frequency::NoFrequency } else { frequency(q.f) };
    ensures!(s, r.frequency() == f, "the quoted frequency, where it plays a part");
}

fn dates<S: Src>(s: &mut S) -> (Date, Date) {
    let a = ymd_between(s, 1990, 2060);
    let n = if s.boolean() { s.int(0, 800) } else { s.int(0, 12000) };
    let d1 = to_date(a);
    let d2 = d1 + n;
    (d1, d2)
}

//@ native
pub fn factors_between_dates_use_the_day_counter<S: Src>(s: &mut S) {
    let q = Quote::any(s);
    let (d1, d2) = dates(s);
    let (r1, r2) = if s.boolean() { (d1, d2) } else { (d1 - s.int(0, 90), d2 + s.int(0, 90)) };
    let dc = counter(q.dc);
    let t = dc.year_fraction(&d1, &d2, &r1, &r2);
    requires!(s, t >= 0.0);
    let want = q.factor(t);
    requires!(s, want > 1e-6 && want < 1e100);
    let r = q.build();
    ensures!(s, same(r.compound_factor_between_dates(&d1, &d2, &r1, &r2), want), "the factor over the year fraction");
    ensures!(s, same(r.discount_factor_between_dates(&d1, &d2, &r1, &r2), 1.0 / want), "the discount over the year fraction");
}

//@ native
pub fn an_implied_rate_reproduces_the_factor<S: Src>(s: &mut S) {
    let q = Quote::any(s);
    let (c, f, dc) = (s.int(0, 4), s.int(0, 10), s.int(0, COUNTERS));
    let t = time(s, times(f));
    requires!(s, t > 0.0);
    let factor = if s.int(0, 9) == 0 { 1.0 } else { s.real(0.2, 8.0) };
    requires!(s, representable(c, times(f), factor, t));
    let r = q.build().implied_rate(factor, &counter(dc), &compounding(c), frequency(f), t);
    ensures!(s, r.daycounter == counter(dc) && r.compounding == compounding(c), "in the requested convention");
    ensures!(s, r.frequency() == if c == 0 || c == 2 { Frequency::NoFrequency } else { frequency(f) }, "at the requested frequency");
    ensures!(s, same(self::factor(c, times(f), r.rate, t), factor), "the factor comes back by the formula");
    ensures!(s, same(r.compound_factor(t), factor), "the factor comes back");
    let r = q.build().implied_rate(1.0, &counter(dc), &compounding(c), frequency(f), 0.0);
    ensures!(s, r.rate == 0.0, "nothing over no time");
}

//@ native
pub fn an_implied_rate_between_dates_reproduces_the_factor<S: Src>(s: &mut S) {
    let q = Quote::any(s);
    let (c, f, dc) = (s.int(0, 4), s.int(0, 10), s.int(0, COUNTERS));
    let (d1, d2) = dates(s);
    let t = counter(dc).year_fraction(&d1, &d2, &d1, &d2);
    requires!(s, t > 0.002);
    let factor = s.real(0.5, 3.0);
    requires!(s, representable(c, times(f), factor, t));
    let r = q.build().implied_rate_between_dates(factor, &counter(dc), &compounding(c), frequency(f), &d1, &d2, &d1, &d2);
    ensures!(s, r.daycounter == counter(dc) && r.compounding == compounding(c), "in the requested convention");
    ensures!(s, same(r.compound_factor_between_dates(&d1, &d2, &d1, &d2), factor), "the factor comes back");
    ensures!(s, same(self::factor(c, times(f), r.rate, t), factor), "over the requested day counter's year fraction");
}

//@ native
pub fn an_equivalent_rate_gives_the_same_factor<S: Src>(s: &mut S) {
    let q = Quote::any(s);
    let (c, f) = (s.int(0, 4), s.int(0, 10));
    let t = time(s, times(f));
    let want = q.factor(t);
    requires!(s, t > 0.0 && want > 0.2 && want < 8.0);
    requires!(s, representable(c, times(f), want, t));
    let r = q.build();
    let e = r.equivalent_rate(&compounding(c), frequency(f), t);
    ensures!(s, e.daycounter == r.daycounter && e.compounding == compounding(c), "the same day counter, the requested rule");
    ensures!(s, same(e.compound_factor(t), want), "the same factor");
    ensures!(s, same(factor(c, times(f), e.rate, t), want), "by the formula");
    // and back
    let b = e.equivalent_rate(&compounding(q.c), frequency(q.f), t);
    ensures!(s, same(b.compound_factor(t), want), "and back");
}

//@ native
pub fn an_equivalent_rate_between_dates_gives_the_same_factor<S: Src>(s: &mut S) {
    let q = Quote::any(s);
    let (c, f, dc) = (s.int(0, 4), s.int(0, 10), s.int(0, COUNTERS));
    let (d1, d2) = dates(s);
    let (r1, r2) = if s.boolean() { (d1, d2) } else { (d1 - s.int(0, 90), d2 + s.int(0, 90)) };
    let t1 = counter(q.dc).year_fraction(&d1, &d2, &r1, &r2);
    let t2 = counter(dc).year_fraction(&d1, &d2, &r1, &r2);
    requires!(s, t1 >= 0.0 && t2 > 0.002);
    let want = q.factor(t1);
    requires!(s, want > 0.2 && want < 8.0);
    requires!(s, representable(c, times(f), want, t2));
    let e = q.build().equivalent_rate_between_dates(&counter(dc), &compounding(c), frequency(f), &d1, &d2, &r1, &r2);
    ensures!(s, e.daycounter == counter(dc) && e.compounding == compounding(c), "the requested day counter and rule");
    ensures!(s, same(e.compound_factor_between_dates(&d1, &d2, &r1, &r2), want), "the same factor");
    ensures!(s, same(factor(c, times(f), e.rate, t2), want), "by the formula");
}

//@ native reject
pub fn impossible_inputs_are_rejected<S: Src>(s: &mut S) {
    let q = Quote::any(s);
    let (c, f) = (s.int(0, 4), s.int(0, 10));
    let t = s.real(1e-6, 5.0);
    let positive = s.real(0.1, 4.0);
    requires!(s, positive != 1.0);
    let (d1, d2) = dates(s);
    let which = s.int(0, 9);
    let r = q.build();
    let dc = counter(q.dc);
    let late = d2 + s.int(1, 400);
    rejects!(s, {
        match which {
            0 => r.compound_factor(-t),
            1 => r.discount_factor(-t),
            2 => r.compound_factor_between_dates(&late, &d1, &d1, &late),
            3 => r.discount_factor_between_dates(&late, &d1, &d1, &late),
            4 => r.implied_rate(-positive, &dc, &compounding(c), frequency(f), t).rate,
            5 => r.implied_rate(0.0, &dc, &compounding(c), frequency(f), t).rate,
            6 => r.implied_rate(positive, &dc, &compounding(c), frequency(f), -t).rate,
            7 => r.implied_rate(positive, &dc, &compounding(c), frequency(f), 0.0).rate,
            8 => r.implied_rate_between_dates(positive, &dc, &compounding(c), frequency(f), &late, &d1, &d1, &late).rate,
            _ => r.equivalent_rate_between_dates(&dc, &compounding(c), frequency(f), &late, &d1, &d1, &late).rate,
        }
    }, "no such rate");
}

//@ native reject
pub fn compounding_without_a_frequency_is_rejected<S: Src>(s: &mut S) {
    let q = Quote::any(s);
    let c = [1, 3, 4][s.int(0, 2) as usize];
    let f = if s.boolean() { Frequency::Once } else { Frequency::NoFrequency };
    let which = s.boolean();
    rejects!(s, {
        if which {
            InterestRate::new(q.rate, counter(q.dc), compounding(c), f)
        } else {
            q.build().equivalent_rate(&compounding(c), f, 1.5)
        }
    }, "no frequency to compound at");
}
