//! C03: month, year and week arithmetic
use crate::obl::*;
use rust_quantlib::datetime::{date::Date, months::Month, period::Period, timeunit::TimeUnit};

/// date + n months lands in the month n months away, on the same day clamped to the month length
fn months<S: Src>(s: &mut S, lo: i32, hi: i32) {
    let x = any_ymd(s);
    let ty = s.int(1900, 2199);
    let tm = s.int(1, 12);
    let n = month_index(ty, tm) - month_index(x.y, x.m);
    requires!(s, n >= lo && n <= hi);
    let want = Ymd { y: ty, m: tm, d: clamp_day(ty, tm, x.d) };
    let r = to_date(x) + Period::new(n, TimeUnit::Months);
    ensures!(s, want.is(&r) && r.serial_number() == want.serial(), "date + n months");
}

//@ kani unwind=8
pub fn add_months_within_five_years<S: Src>(s: &mut S) {
    months(s, -60, 60)
}
//@ kani unwind=23 thorough bounded="|n| <= 252 months"
pub fn add_months_within_twenty_years<S: Src>(s: &mut S) {
    months(s, -252, 252)
}
//@ native
pub fn add_months_any<S: Src>(s: &mut S) {
    months(s, -4000, 4000)
}

//@ native
pub fn every_spelling_of_month_arithmetic_agrees<S: Src>(s: &mut S) {
    let x = any_ymd(s);
    let ty = s.int(1900, 2199);
    let tm = s.int(1, 12);
    let n = month_index(ty, tm) - month_index(x.y, x.m);
    let want = Ymd { y: ty, m: tm, d: clamp_day(ty, tm, x.d) }.serial();
    let d = to_date(x);
    let p = Period::new(n, TimeUnit::Months);
    let q = Period::new(-n, TimeUnit::Months);
    ensures!(s, is_day(&(&d + &p), want), "&date + &period");
    ensures!(s, is_day(&(&d + p), want), "&date + period");
    ensures!(s, is_day(&(d - q), want), "date - period");
    ensures!(s, is_day(&(&d - q), want), "&date - period");
    let mut e = d;
    e += p;
    ensures!(s, is_day(&e, want), "date += period");
    let mut e = d;
    e -= q;
    ensures!(s, is_day(&e, want), "date -= period");
}

//@ kani
pub fn add_years<S: Src>(s: &mut S) {
    let x = any_ymd(s);
    let ty = s.int(1900, 2199);
    let want = Ymd { y: ty, m: x.m, d: clamp_day(ty, x.m, x.d) };
    let r = to_date(x) + Period::new(ty - x.y, TimeUnit::Years);
    ensures!(s, want.is(&r) && r.serial_number() == want.serial(), "date + n years");
}

//@ kani
pub fn subtract_years<S: Src>(s: &mut S) {
    let x = any_ymd(s);
    let ty = s.int(1900, 2199);
    let want = Ymd { y: ty, m: x.m, d: clamp_day(ty, x.m, x.d) };
    let r = to_date(x) - Period::new(x.y - ty, TimeUnit::Years);
    ensures!(s, want.is(&r) && r.serial_number() == want.serial(), "date - n years");
}

//@ kani
pub fn years_in_place_and_by_reference<S: Src>(s: &mut S) {
    let x = any_ymd(s);
    let ty = s.int(1900, 2199);
    let want = Ymd { y: ty, m: x.m, d: clamp_day(ty, x.m, x.d) };
    let d = to_date(x);
    let p = Period::new(ty - x.y, TimeUnit::Years);
    let q = Period::new(x.y - ty, TimeUnit::Years);
    ensures!(s, want.is(&(&d + &p)), "&date + &period");
    ensures!(s, want.is(&(&d + p)), "&date + period");
    ensures!(s, want.is(&(&d - q)), "&date - period");
    let mut e = d;
    e += p;
    ensures!(s, want.is(&e), "date += period");
    let mut e = d;
    e -= q;
    ensures!(s, want.is(&e), "date -= period");
}

//@ kani
pub fn add_weeks_is_seven_days<S: Src>(s: &mut S) {
    let a = s.int(MIN, MAX);
    let w = s.int(-15653, 15653);
    requires!(s, a + 7 * w >= MIN && a + 7 * w <= MAX);
    let d = Date::from_serial(a);
    ensures!(s, is_day(&(d + Period::new(w, TimeUnit::Weeks)), a + 7 * w), "date + n weeks");
    ensures!(s, is_day(&(d - Period::new(-w, TimeUnit::Weeks)), a + 7 * w), "date - n weeks");
}

//@ kani unwind=8 reject
pub fn months_leaving_the_range_are_rejected<S: Src>(s: &mut S) {
    let x = any_ymd(s);
    let n = s.int(-60, 60);
    let t = month_index(x.y, x.m) + n;
    requires!(s, t < 1900 * 12 || t >= 2200 * 12);
    rejects!(s, to_date(x) + Period::new(n, TimeUnit::Months), "months out of range");
}

//@ kani reject
pub fn years_leaving_the_range_are_rejected<S: Src>(s: &mut S) {
    let x = any_ymd(s);
    let n = s.int(-1_000_000, 1_000_000);
    requires!(s, x.y + n < 1900 || x.y + n > 2199);
    rejects!(s, to_date(x) + Period::new(n, TimeUnit::Years), "years out of range");
}

//@ kani reject unwind=2
pub fn intraday_units_are_rejected<S: Src>(s: &mut S) {
    let x = any_ymd(s);
    let n = s.int(-1000, 1000);
    let u = match s.int(0, 4) {
        0 => TimeUnit::Hours,
        1 => TimeUnit::Minutes,
        2 => TimeUnit::Seconds,
        3 => TimeUnit::Milliseconds,
        _ => TimeUnit::Microseconds,
    };
    rejects!(s, to_date(x) + Period::new(n, u), "intraday unit");
}

//@ native
pub fn clamped_arithmetic_laws<S: Src>(s: &mut S) {
    let x = any_ymd(s);
    let n = s.int(-3600, 3600);
    let t = month_index(x.y, x.m) + n;
    requires!(s, t >= 1900 * 12 && t < 2200 * 12);
    let d = to_date(x);
    let r = d + Period::new(n, TimeUnit::Months);
    ensures!(s, r.day_of_month() <= d.day_of_month(), "the day of month is never increased");
    if x.d <= 28 {
        ensures!(s, r - Period::new(n, TimeUnit::Months) == d, "undone by the opposite period");
        ensures!(s, r.day_of_month() as i32 == x.d, "the day of month is kept");
    }
    if n % 12 == 0 {
        ensures!(s, d + Period::new(n / 12, TimeUnit::Years) == r, "12 months are a year");
    }
    if n > 0 {
        ensures!(s, r > d, "later");
    } else if n < 0 {
        ensures!(s, r < d, "earlier");
    } else {
        ensures!(s, r == d, "zero months");
    }
}
