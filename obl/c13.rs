//! C13: actual day counters
use crate::obl::*;
use rust_quantlib::context::pricing_context::PricingContext;
use rust_quantlib::datetime::{
    businessdayconvention::BusinessDayConvention::*, date::Date, daycounter::DayCounter,
    daycounters::{actual360::Actual360, actual366::Actual366, one::One, simple::Simple},
    holidays::nilholiday::NilHoliday, period::Period, schedulebuilder::ScheduleBuilder, timeunit::TimeUnit,
};

fn null() -> Date {
    Date::from_serial(MIN)
}
fn day(n: i32) -> Date {
    Date::from_serial(n)
}
fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9
}
/// the counters that count actual days, and what they add
fn actual(k: i32) -> (DayCounter, i32) {
    match k {
        0 => (DayCounter::actual360(), 0),
        1 => (DayCounter::Actual360(Actual360::with_last_day(true)), 1),
        2 => (DayCounter::Actual366(Actual366::new()), 0),
        3 => (DayCounter::Actual366(Actual366::with_last_day(true)), 1),
        4 => (DayCounter::actual_actual_isda(), 0),
        5 => (DayCounter::actual_actual_afb(), 0),
        6 => (DayCounter::actual_actual_old_isma(), 0),
        _ => (DayCounter::Actual360(Actual360::with_last_day(false)), 0),
    }
}

//@ kani
pub fn counts_are_actual_days<S: Src>(s: &mut S) {
    let a = any_ymd(s);
    let b = any_ymd(s);
    let (c, extra) = actual(s.int(0, 7));
    ensures!(s, c.day_count(&to_date(a), &to_date(b)) == b.serial() - a.serial() + extra, "the number of days, plus one where the last day is included");
}
//@ kani
pub fn one_counts_the_sign<S: Src>(s: &mut S) {
    let a = any_ymd(s);
    let b = any_ymd(s);
    let (da, db) = (to_date(a), to_date(b));
    let c = DayCounter::One(One::new());
    let want = if b.serial() >= a.serial() { 1 } else { -1 };
    ensures!(s, c.day_count(&da, &db) == want, "1/1 counts one");
    ensures!(s, c.year_fraction(&da, &db, &da, &db) == want as f64, "1/1 is one year");
}
/// 30/360 ISMA (Bond Basis), the fallback of the simple counter
fn bond_basis(a: Ymd, b: Ymd) -> i32 {
    let d1 = if a.d == 31 { 30 } else { a.d };
    let d2 = if b.d == 31 && d1 == 30 { 30 } else { b.d };
    360 * (b.y - a.y) + 30 * (b.m - a.m) + (d2 - d1)
}
fn is_last(x: Ymd) -> bool {
    x.d == mlen(x.y, x.m)
}
//@ kani
pub fn simple_counts_like_bond_basis<S: Src>(s: &mut S) {
    let a = any_ymd(s);
    let b = any_ymd(s);
    ensures!(s, DayCounter::simple().day_count(&to_date(a), &to_date(b)) == bond_basis(a, b), "30/360 Bond Basis count");
    ensures!(s, DayCounter::Simple(Simple::new()).day_count(&to_date(a), &to_date(b)) == bond_basis(a, b), "30/360 Bond Basis count");
}

/// any date, mostly around turns of month and year
pub fn some_day<S: Src>(s: &mut S) -> Ymd {
    let y = match s.int(0, 4) {
        0 => s.int(1900, 2199),
        1 => 1900 + 4 * s.int(0, 74),
        2 => 1900 + 100 * s.int(0, 2) + s.int(0, 1),
        3 => 2199 - s.int(0, 5),
        _ => s.int(2000, 2005),
    };
    let m = match s.int(0, 3) {
        0 => 2,
        1 => 1 + 11 * s.int(0, 1),
        _ => s.int(1, 12),
    };
    let l = mlen(y, m);
    let d = match s.int(0, 3) {
        0 => l - s.int(0, 2),
        1 => s.int(1, 2),
        _ => s.int(1, l),
    };
    Ymd { y, m, d }
}
fn civil(n: i32) -> Ymd {
    ymd_of(&day(n))
}
/// a second date: the same, near, some whole months away, or any
fn other_day<S: Src>(s: &mut S, a: Ymd) -> Ymd {
    match s.int(0, 5) {
        0 => a,
        1 => civil((a.serial() + s.int(-40, 40)).clamp(MIN, MAX)),
        2 => civil((a.serial() + s.int(-800, 800)).clamp(MIN, MAX)),
        3 => {
            let k = (month_index(a.y, a.m) + s.int(-30, 30)).clamp(22800, 26399);
            let (y, m) = (k / 12, k % 12 + 1);
            Ymd { y, m, d: clamp_day(y, m, a.d + s.int(-1, 1)).max(1) }
        }
        _ => some_day(s),
    }
}

//@ native
pub fn basis<S: Src>(s: &mut S) {
    let n = s.int(MIN, MAX);
    let a = civil(n);
    let b = other_day(s, a);
    let k = s.int(0, 3);
    let (c, extra) = actual(k);
    let base = if k < 2 { 360.0 } else { 366.0 };
    let (r1, r2) = (to_date(some_day(s)), to_date(some_day(s)));
    ensures!(s, c.day_count(&to_date(a), &to_date(b)) == b.serial() - n + extra, "the number of days");
    for (r1, r2) in [(null(), null()), (r1, r2)] {
        let f = c.year_fraction(&to_date(a), &to_date(b), &r1, &r2);
        ensures!(s, near(f, (b.serial() - n + extra) as f64 / base), "the count over the basis");
    }
}

//@ native
pub fn one_is_one_year<S: Src>(s: &mut S) {
    let n = s.int(MIN, MAX);
    let a = civil(n);
    let b = other_day(s, a);
    let want = if b.serial() >= n { 1 } else { -1 };
    let c = DayCounter::One(One::new());
    let r = to_date(some_day(s));
    ensures!(s, c.day_count(&to_date(a), &to_date(b)) == want && c.year_fraction(&to_date(a), &to_date(b), &r, &null()) == want as f64, "1/1");
}

//@ native
pub fn simple_is_exact_on_whole_months<S: Src>(s: &mut S) {
    let n = s.int(MIN, MAX);
    let a = civil(n);
    let b = other_day(s, a);
    let months = month_index(b.y, b.m) - month_index(a.y, a.m);
    let whole = a.d == b.d || (a.d > b.d && is_last(b)) || (a.d < b.d && is_last(a));
    let want = if whole { months as f64 / 12.0 } else { bond_basis(a, b) as f64 / 360.0 };
    let f = DayCounter::simple().year_fraction(&to_date(a), &to_date(b), &null(), &null());
    ensures!(s, near(f, want), "whole months exactly, otherwise 30/360 Bond Basis");
}

/// days of the year up to the day, over the length of the year, counted from the year 0
fn years_to(x: Ymd) -> f64 {
    let l = if leap(x.y) { 366.0 } else { 365.0 };
    x.y as f64 + (x.doy() - 1) as f64 / l
}

//@ native
pub fn isda_splits_over_leap_years<S: Src>(s: &mut S) {
    let n = s.int(MIN, MAX);
    let a = civil(n);
    let b = other_day(s, a);
    let c = DayCounter::actual_actual_isda();
    let (da, db) = (to_date(a), to_date(b));
    let f = c.year_fraction(&da, &db, &null(), &null());
    ensures!(s, near(f, years_to(b) - years_to(a)), "days in leap years over 366 plus the others over 365");
    ensures!(s, near(c.year_fraction(&db, &da, &null(), &null()), -f), "antisymmetric");
    let x = other_day(s, a);
    let dx = to_date(x);
    ensures!(s, near(c.year_fraction(&da, &dx, &null(), &null()) + c.year_fraction(&dx, &db, &null(), &null()), f), "additive");
    let r = to_date(some_day(s));
    ensures!(s, near(c.year_fraction(&da, &db, &r, &dx), f), "the reference period does not matter");
}

/// k whole years before the date; the 28th of February goes to the end of the month
fn years_back(b: Ymd, first: i32) -> Option<Ymd> {
    if b.y <= first {
        return None;
    }
    let y = b.y - 1;
    let d = clamp_day(y, b.m, b.d);
    let d = if b.m == 2 && d == 28 { mlen(y, 2) } else { d };
    Some(Ymd { y, m: b.m, d })
}

//@ native
pub fn afb_counts_whole_years_back<S: Src>(s: &mut S) {
    let n = s.int(MIN, MAX);
    let a = civil(n);
    let b = other_day(s, a);
    let (lo, hi) = if a.serial() <= b.serial() { (a, b) } else { (b, a) };
    let mut stub = hi;
    let mut years = 0;
    while let Some(p) = years_back(stub, 1900) {
        if p.serial() < lo.serial() {
            break;
        }
        stub = p;
        years += 1;
        if p.serial() == lo.serial() {
            break;
        }
    }
    let has_29 = (lo.y..=stub.y).any(|y| leap(y) && serial(y, 2, 29) >= lo.serial() && serial(y, 2, 29) < stub.serial());
    let want = years as f64 + (stub.serial() - lo.serial()) as f64 / if has_29 { 366.0 } else { 365.0 };
    let c = DayCounter::actual_actual_afb();
    let f = c.year_fraction(&to_date(lo), &to_date(hi), &null(), &null());
    ensures!(s, near(f, want), "whole years back from the end plus the rest over 365, or 366 with a 29 February in it");
    ensures!(s, near(c.year_fraction(&to_date(hi), &to_date(lo), &null(), &null()), -f), "antisymmetric");
}

fn tenor_months(k: i32) -> i32 {
    [1, 2, 3, 4, 6, 12][k as usize]
}
/// a date moved by months, with the day clamped
fn by_months(x: Ymd, n: i32) -> Option<Ymd> {
    let k = month_index(x.y, x.m) + n;
    if k < 22800 || k > 26399 {
        return None;
    }
    let (y, m) = (k / 12, k % 12 + 1);
    Some(Ymd { y, m, d: clamp_day(y, m, x.d) })
}

//@ native
pub fn isma_inside_a_reference_period<S: Src>(s: &mut S) {
    let n = s.int(MIN, MAX);
    let m = tenor_months(s.int(0, 5));
    let r1 = civil(n);
    let r2 = by_months(r1, m);
    requires!(s, r2.is_some());
    let r2 = r2.unwrap();
    let len = r2.serial() - n;
    let x = s.int(0, len);
    let y = s.int(0, len);
    requires!(s, n > MIN);
    let c = DayCounter::actual_actual_old_isma();
    let (lo, hi) = (x.min(y), x.max(y));
    requires!(s, lo < len);
    let (d1, d2) = (day(n + lo), day(n + hi));
    let want = (hi - lo) as f64 / len as f64 * m as f64 / 12.0;
    let f = c.year_fraction(&d1, &d2, &to_date(r1), &to_date(r2));
    ensures!(s, near(f, want), "days over the days of the period, times the length of the period");
    ensures!(s, near(c.year_fraction(&d2, &d1, &to_date(r1), &to_date(r2)), -f), "antisymmetric");
    ensures!(s, c.year_fraction(&d1, &d1, &to_date(r1), &to_date(r2)) == 0.0, "nothing on equal dates");
    if lo < hi {
        // without a reference period the dates themselves are one
        let months = (12.0 * (hi - lo) as f64 / 365.0).round() as i32;
        if months > 0 {
            let g = c.year_fraction(&d1, &d2, &null(), &null());
            ensures!(s, near(g, months as f64 / 12.0), "the whole reference period");
        }
    }
}

//@ native
pub fn isma_splits_long_periods<S: Src>(s: &mut S) {
    let n = s.int(MIN + 400, MAX);
    let m = tenor_months(s.int(0, 5));
    let r1 = civil(n);
    let r2 = by_months(r1, m);
    requires!(s, r2.is_some());
    let r2 = r2.unwrap();
    let r0 = by_months(r1, -m);
    requires!(s, r0.is_some());
    let r0 = r0.unwrap();
    let c = DayCounter::actual_actual_old_isma();
    let len = r2.serial() - n;
    let before = n - r0.serial();
    if s.boolean() {
        // starting before the reference period
        let b = s.int(1, before);
        let e = s.int(1, len);
        let f = c.year_fraction(&day(n - b), &day(n + e), &to_date(r1), &to_date(r2));
        let want = (b as f64 / before as f64 + e as f64 / len as f64) * m as f64 / 12.0;
        ensures!(s, near(f, want), "the part before counts over the previous period");
    } else {
        // ending after the reference period
        let k = s.int(0, 7);
        let r3 = by_months(r2, m * k);
        let r4 = by_months(r2, m * (k + 1));
        requires!(s, r3.is_some() && r4.is_some());
        let (r3, r4) = (r3.unwrap().serial(), r4.unwrap().serial());
        let b = s.int(0, len - 1);
        let e = s.int(1, 400);
        requires!(s, e < r4 - r3);
        let f = c.year_fraction(&day(n + b), &day(r3 + e), &to_date(r1), &to_date(r2));
        let want = ((len - b) as f64 / len as f64 + k as f64 + e as f64 / (r4 - r3) as f64) * m as f64 / 12.0;
        ensures!(s, near(f, want), "the parts after count over the periods that follow");
    }
}

// a reference period of about half a month at most stands for no number of months: a year from the first date is taken
//@ native
pub fn isma_over_short_reference_periods<S: Src>(s: &mut S) {
    let n = s.int(MIN + 1, MAX - 1000);
    let year = |a: i32| by_months(civil(a), 12).unwrap().serial() - a;
    let w = s.int(1, 15);
    let (x, y) = (s.int(0, w - 1), s.int(0, w));
    requires!(s, x < y);
    let c = DayCounter::actual_actual_old_isma();
    let f = c.year_fraction(&day(n + x), &day(n + y), &day(n), &day(n + w));
    ensures!(s, near(f, (y - x) as f64 / year(n + x) as f64), "days over the days of the year from the first date");
    let weeks = s.int(1, 2);
    let count = s.int(1, 10);
    let schedule = ScheduleBuilder::new(PricingContext::new(day(40000)), day(n), day(n + 7 * weeks * count), Period::new(weeks, TimeUnit::Weeks), NilHoliday::new())
        .with_convention(Unadjusted)
        .forwards()
        .build();
    let c = DayCounter::actual_actual_isma(schedule);
    let a = n + s.int(0, 7 * weeks * count);
    let b = n + s.int(0, 7 * weeks * count);
    requires!(s, a < b);
    let mut want = 0.0;
    for j in 0..count {
        let (p, q) = (a.max(n + 7 * weeks * j), b.min(n + 7 * weeks * (j + 1)));
        if p < q {
            want += (q - p) as f64 / year(p) as f64;
        }
    }
    ensures!(s, near(c.year_fraction(&day(a), &day(b), &null(), &null()), want), "and so over each period of a schedule");
}

//@ native
pub fn isma_over_a_schedule<S: Src>(s: &mut S) {
    let n = s.int(MIN + 1, MAX);
    let m = tenor_months(s.int(0, 5));
    let count = s.int(1, 12);
    let start = civil(n);
    requires!(s, start.d <= 28);
    let end = by_months(start, m * count);
    requires!(s, end.is_some() && by_months(start, m * (count + 1)).is_some());
    let end = end.unwrap();
    let schedule = ScheduleBuilder::new(PricingContext::new(day(40000)), to_date(start), to_date(end), Period::new(m, TimeUnit::Months), NilHoliday::new())
        .with_convention(Unadjusted)
        .forwards()
        .build();
    let at = |j: i32| by_months(start, m * j).unwrap().serial();
    let c = DayCounter::actual_actual_isma(schedule);
    let x = s.int(n, end.serial());
    let y = s.int(n, end.serial());
    let (lo, hi) = (x.min(y), x.max(y));
    let mut want = 0.0;
    for j in 0..count {
        let (p, q) = (at(j), at(j + 1));
        let days = hi.min(q) - lo.max(p);
        if days > 0 {
            want += days as f64 / (q - p) as f64 * m as f64 / 12.0;
        }
    }
    ensures!(s, c.day_count(&day(x), &day(y)) == y - x, "actual days");
    let f = c.year_fraction(&day(lo), &day(hi), &null(), &null());
    ensures!(s, near(f, want), "days over the days of each period, times its length");
    ensures!(s, near(c.year_fraction(&day(hi), &day(lo), &null(), &null()), -f), "antisymmetric");
    let (i, j) = (s.int(0, count), s.int(0, count));
    ensures!(s, near(c.year_fraction(&day(at(i)), &day(at(j)), &null(), &null()), ((j - i) * m) as f64 / 12.0), "whole periods");
}

//@ native
pub fn isma_over_a_schedule_with_stubs<S: Src>(s: &mut S) {
    let n = s.int(MIN + 400, MAX);
    let m = tenor_months(s.int(0, 5));
    let count = s.int(2, 8);
    let first = civil(n);
    requires!(s, first.d <= 28);
    let last = by_months(first, m * count);
    let (b0, b1) = (by_months(first, -m), by_months(first, -2 * m));
    requires!(s, last.is_some() && b1.is_some());
    let (last, b0, b1) = (last.unwrap(), b0.unwrap(), b1.unwrap());
    let next = [by_months(last, m), by_months(last, 2 * m)];
    requires!(s, next[1].is_some() && by_months(last, 3 * m).is_some());
    let front = s.int(0, 2);
    let back = s.int(0, 2);
    // none, short or long stubs at either end
    let start = match front {
        0 => n,
        1 => n - s.int(1, n - b0.serial() - 1),
        _ => b0.serial() - s.int(1, b0.serial() - b1.serial() - 1),
    };
    let (e1, e2) = (next[0].unwrap().serial(), next[1].unwrap().serial());
    let end = match back {
        0 => last.serial(),
        1 => last.serial() + s.int(1, e1 - last.serial() - 1),
        _ => e1 + s.int(1, e2 - e1 - 1),
    };
    requires!(s, front == 0 || by_months(civil(start), m) != Some(first));
    let mut builder = ScheduleBuilder::new(PricingContext::new(day(40000)), day(start), day(end), Period::new(m, TimeUnit::Months), NilHoliday::new())
        .with_convention(Unadjusted)
        .forwards();
    if front != 0 {
        builder = builder.with_first_date(to_date(first));
    }
    if back != 0 {
        builder = builder.with_next_to_last_date(to_date(last));
    }
    let c = DayCounter::actual_actual_isma(builder.build());
    let x = s.int(start, end);
    let y = s.int(start, end);
    let (lo, hi) = (x.min(y), x.max(y));
    let mut want = 0.0;
    for j in -2..count + 2 {
        let (p, q) = (by_months(first, m * j).unwrap().serial(), by_months(first, m * (j + 1)).unwrap().serial());
        let days = hi.min(q) - lo.max(p);
        if days > 0 {
            want += days as f64 / (q - p) as f64 * m as f64 / 12.0;
        }
    }
    let f = c.year_fraction(&day(lo), &day(hi), &null(), &null());
    ensures!(s, near(f, want), "stubs count over the notional periods they lie in");
}
