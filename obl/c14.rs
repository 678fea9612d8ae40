//! C14: period arithmetic, normalisation, frequency and unit conversion
use crate::obl::*;
use rust_quantlib::datetime::{frequency::Frequency, frequency::Frequency::*, period::Period, timeunit::TimeUnit, timeunit::TimeUnit::*};

pub const L: i32 = i32::MAX;

pub fn unit<S: Src>(s: &mut S) -> TimeUnit {
    match s.int(0, 3) {
        0 => Days,
        1 => Weeks,
        2 => Months,
        _ => Years,
    }
}
pub fn intraday<S: Src>(s: &mut S) -> TimeUnit {
    match s.int(0, 4) {
        0 => Hours,
        1 => Minutes,
        2 => Seconds,
        3 => Milliseconds,
        _ => Microseconds,
    }
}
pub fn dayish(u: TimeUnit) -> bool {
    u == Days || u == Weeks
}
/// the span of a period as (months, days)
pub fn span(p: &Period) -> (i64, i64) {
    let n = p.length as i64;
    match p.unit {
        Days => (0, n),
        Weeks => (0, 7 * n),
        Months => (n, 0),
        Years => (12 * n, 0),
        _ => (i64::MAX, i64::MAX),
    }
}
fn fits(n: i64) -> bool {
    n >= -(L as i64) && n <= L as i64
}
/// the sum can be written in the finer of the two units
fn sum_fits(a: &Period, b: &Period) -> bool {
    let (x, y) = (span(a), span(b));
    fits(x.0 + y.0) && fits(x.1 + y.1) && fits(x.0) && fits(x.1) && fits(y.0) && fits(y.1)
}

//@ kani unwind=2
pub fn negation_reverses_the_span<S: Src>(s: &mut S) {
    let p = Period::new(s.int(-L, L), unit(s));
    let q = -p;
    ensures!(s, span(&q) == (-span(&p).0, -span(&p).1) && q.unit == p.unit, "negation");
    let r = -q;
    ensures!(s, r.length == p.length && r.unit == p.unit, "double negation");
}

fn addition<S: Src>(s: &mut S, l: i32) {
    let a = Period::new(s.int(-l, l), unit(s));
    let b = Period::new(s.int(-l, l), unit(s));
    requires!(s, dayish(a.unit) == dayish(b.unit) || a.length == 0 || b.length == 0);
    requires!(s, sum_fits(&a, &b));
    let mut c = a;
    c += b;
    let (x, y) = (span(&a), span(&b));
    ensures!(s, span(&c) == (x.0 + y.0, x.1 + y.1), "period += period");
}

//@ kani unwind=2 bounded="|length| <= 1000"
pub fn addition_adds_the_spans<S: Src>(s: &mut S) {
    addition(s, 1000)
}
//@ native
pub fn addition_adds_the_spans_at_any_length<S: Src>(s: &mut S) {
    addition(s, L)
}

fn subtraction<S: Src>(s: &mut S, l: i32) {
    let a = Period::new(s.int(-l, l), unit(s));
    let b = Period::new(s.int(-l, l), unit(s));
    requires!(s, dayish(a.unit) == dayish(b.unit) || a.length == 0 || b.length == 0);
    requires!(s, sum_fits(&a, &Period::new(-b.length, b.unit)));
    let mut c = a;
    c -= b;
    let (x, y) = (span(&a), span(&b));
    ensures!(s, span(&c) == (x.0 - y.0, x.1 - y.1), "period -= period");
}

//@ kani unwind=2 bounded="|length| <= 1000"
pub fn subtraction_subtracts_the_spans<S: Src>(s: &mut S) {
    subtraction(s, 1000)
}
//@ native
pub fn subtraction_subtracts_the_spans_at_any_length<S: Src>(s: &mut S) {
    subtraction(s, L)
}

//@ kani unwind=2 reject
pub fn sums_without_exact_answer_are_rejected<S: Src>(s: &mut S) {
    let a = Period::new(s.int(-L, L), unit(s));
    let b = Period::new(s.int(-L, L), unit(s));
    requires!(s, dayish(a.unit) != dayish(b.unit) && a.length != 0 && b.length != 0);
    let minus = s.boolean();
    let mut c = a;
    rejects!(s, if minus { c -= b } else { c += b }, "months and days do not add");
}

//@ kani unwind=2 reject
pub fn sums_with_other_intraday_units_are_rejected<S: Src>(s: &mut S) {
    let a = Period::new(s.int(-L, L), unit(s));
    let b = Period::new(s.int(-L, L), intraday(s));
    requires!(s, a.length != 0 && b.length != 0);
    let swap = s.boolean();
    let (mut c, d) = if swap { (b, a) } else { (a, b) };
    rejects!(s, c += d, "intraday units do not add to days, weeks, months or years");
}

//@ native
pub fn multiplication_multiplies_the_span<S: Src>(s: &mut S) {
    let p = Period::new(s.int(-L, L), unit(s));
    let n = s.int(-L, L);
    let w = p.length as i64 * n as i64;
    requires!(s, fits(w));
    let q = p * n;
    ensures!(s, q.length as i64 == w && q.unit == p.unit, "period * n");
}

fn has_quotient(p: &Period, n: i32) -> bool {
    p.length % n == 0
        || match p.unit {
            Years => (p.length as i64 * 12) % n as i64 == 0,
            Weeks => (p.length as i64 * 7) % n as i64 == 0,
            _ => false,
        }
}
fn quotient<S: Src>(s: &mut S, lo: i32, hi: i32, nlo: i32, nhi: i32) {
    let p = Period::new(s.int(lo, hi), unit(s));
    let n = s.int(nlo, nhi);
    requires!(s, n != 0 && has_quotient(&p, n));
    let q = p / n;
    let (x, y) = (span(&p), span(&q));
    ensures!(s, y.0 * n as i64 == x.0 && y.1 * n as i64 == x.1, "period / n");
    let mut r = p;
    r /= n;
    ensures!(s, r.length == q.length && r.unit == q.unit, "period /= n");
}

//@ native
pub fn division_divides_large_spans<S: Src>(s: &mut S) {
    quotient(s, -100_000_000, 100_000_000, -1000, 1000)
}
//@ kani unwind=2 reject bounded="|length| <= 2000, |n| <= 400"
pub fn quotients_without_exact_answer_are_rejected<S: Src>(s: &mut S) {
    let p = Period::new(s.int(-2000, 2000), unit(s));
    let n = s.int(-400, 400);
    requires!(s, n == 0 || !has_quotient(&p, n));
    rejects!(s, p / n, "no exact quotient");
}

//@ kani unwind=2
pub fn normalising_keeps_the_span<S: Src>(s: &mut S) {
    let p = Period::new(s.int(-L, L), unit(s));
    let q = p.normalised();
    ensures!(s, span(&q) == span(&p), "normalised period spans the same");
    ensures!(s, q.length != 0 || q.unit == Days, "zero is zero days");
    ensures!(s, !(q.unit == Months && q.length % 12 == 0), "whole years are written as years");
    ensures!(s, !(q.unit == Days && q.length % 7 == 0 && q.length != 0), "whole weeks are written as weeks");
    let r = q.normalised();
    ensures!(s, r.length == q.length && r.unit == q.unit, "normalisation is idempotent");
    let mut t = p;
    t.normalise();
    ensures!(s, t.length == q.length && t.unit == q.unit, "normalise in place");
}

pub fn any_frequency<S: Src>(s: &mut S) -> Frequency {
    match s.int(0, 11) {
        0 => NoFrequency,
        1 => Once,
        2 => Annual,
        3 => Semiannual,
        4 => EveryFourthMonth,
        5 => Quarterly,
        6 => Bimonthly,
        7 => Monthly,
        8 => EveryFourthWeek,
        9 => Biweekly,
        10 => Weekly,
        _ => Daily,
    }
}

//@ kani unwind=2
pub fn frequency_and_period_convert_into_each_other<S: Src>(s: &mut S) {
    let f = any_frequency(s);
    let p = Period::from(f);
    ensures!(s, p.frequency() == f, "frequency of the period of a frequency");
    let n: i32 = f.into();
    let (m, d) = span(&p);
    match f {
        NoFrequency | Once => ensures!(s, m == 0 && d == 0, "no period"),
        Daily => ensures!(s, m == 0 && d == 1, "one day"),
        EveryFourthWeek | Biweekly | Weekly => ensures!(s, m == 0 && d * n as i64 == 364, "n periods are 52 weeks"),
        _ => ensures!(s, d == 0 && m * n as i64 == 12, "n periods are a year"),
    }
    let x: f64 = f.into();
    ensures!(s, x == n as f64, "frequency as a real");
}

//@ kani unwind=2
pub fn frequency_of_any_period<S: Src>(s: &mut S) {
    let p = Period::new(s.int(-L, L), unit(s));
    let f = p.frequency();
    if f != OtherFrequency {
        let q = Period::from(f);
        ensures!(s, span(&q) == span(&p), "a period with a frequency spans what the frequency spans");
    } else {
        let (m, d) = span(&p);
        ensures!(s, m != 12 && m != 6 && m != 4 && m != 3 && m != 2 && m != 1 && d != 1, "a regular period has its frequency");
    }
}

//@ kani unwind=2
pub fn frequency_from_integer<S: Src>(s: &mut S) {
    let f = if s.boolean() { OtherFrequency } else { any_frequency(s) };
    let n: i32 = f.into();
    ensures!(s, Frequency::from(n) == f, "a frequency survives the conversion to an integer");
}

//@ kani reject unwind=2
pub fn unknown_frequencies_are_rejected<S: Src>(s: &mut S) {
    let n = s.int(-L, L);
    requires!(s, !(n == 1 || n == 2 || n == 3 || n == 4 || n == 6 || n == 12 || n == 13 || n == 26 || n == 52 || n == 365));
    requires!(s, n != 0 && n != -1 && n != 999);
    rejects!(s, Frequency::from(n), "not a frequency");
}

//@ kani unwind=2
pub fn conversions_are_exact<S: Src>(s: &mut S) {
    let n = s.int(-L, L);
    let x = n as f64;
    ensures!(s, Period::new(n, Days).days() == x, "days in days");
    ensures!(s, Period::new(n, Weeks).days() == 7.0 * x, "weeks in days");
    ensures!(s, Period::new(n, Weeks).weeks() == x, "weeks in weeks");
    ensures!(s, Period::new(n, Months).months() == x, "months in months");
    ensures!(s, Period::new(n, Years).months() == 12.0 * x, "years in months");
    ensures!(s, Period::new(n, Years).years() == x, "years in years");
}

//@ kani unwind=2
pub fn conversions_to_the_coarser_unit<S: Src>(s: &mut S) {
    let n = s.int(-L, L);
    let x = n as f64;
    ensures!(s, Period::new(n, Days).weeks() == x / 7.0, "days in weeks");
    ensures!(s, Period::new(n, Months).years() == x / 12.0, "months in years");
}

//@ kani unwind=2
pub fn a_zero_period_is_zero_in_every_unit<S: Src>(s: &mut S) {
    let p = Period::new(0, unit(s));
    ensures!(s, p.days() == 0.0 && p.weeks() == 0.0 && p.months() == 0.0 && p.years() == 0.0, "zero in any unit");
}

//@ kani unwind=2 reject
pub fn inexact_conversions_are_rejected<S: Src>(s: &mut S) {
    let n = s.int(-L, L);
    requires!(s, n != 0);
    let k = s.int(0, 7);
    rejects!(
        s,
        match k {
            0 => Period::new(n, Days).months(),
            1 => Period::new(n, Days).years(),
            2 => Period::new(n, Weeks).months(),
            3 => Period::new(n, Weeks).years(),
            4 => Period::new(n, Months).days(),
            5 => Period::new(n, Months).weeks(),
            6 => Period::new(n, Years).days(),
            _ => Period::new(n, Years).weeks(),
        },
        "days and months do not convert into each other"
    );
}
