//! C06: advancing over a calendar
use crate::cal::*;
use crate::obl::*;
use rust_quantlib::datetime::businessdayconvention::BusinessDayConvention::Following;
use rust_quantlib::datetime::{date::Date, period::Period, timeunit::TimeUnit::*};

//@ native
pub fn advance_by_days_counts_business_days<S: Src>(s: &mut S) {
    let d = s.int(MIN, MAX);
    let n = s.int(-40, 40);
    let e = any_edited(s, d + n);
    let c = convention(s);
    let eom = s.boolean();
    let want = e.advanced(d, n, Days, c, eom);
    requires!(s, want.is_some());
    let r = e.cal.advance_by_days(Date::from_serial(d), n, Days, c, eom);
    ensures!(s, is_day(&r, want.unwrap()), "advance by business days");
}

//@ native
pub fn advance_by_many_days<S: Src>(s: &mut S) {
    let d = s.int(MIN, MAX);
    let n = s.int(-1500, 1500);
    let e = any_edited(s, d + n);
    let want = e.advanced(d, n, Days, Following, false);
    requires!(s, want.is_some());
    let r = e.cal.advance_by_days(Date::from_serial(d), n, Days, Following, false);
    ensures!(s, is_day(&r, want.unwrap()), "advance by many business days");
}

//@ native
pub fn advance_by_weeks_months_years<S: Src>(s: &mut S) {
    let d = s.int(MIN, MAX);
    let u = match s.int(0, 2) {
        0 => Weeks,
        1 => Months,
        _ => Years,
    };
    let n = s.int(-60, 60);
    let t = moved(d, n, u);
    requires!(s, t.is_some());
    let t = t.unwrap();
    let mut e = any_edited(s, t);
    if s.boolean() {
        disturb(s, &mut e, d);
    }
    if s.boolean() {
        disturb(s, &mut e, month_end(t));
    }
    let c = convention(s);
    let eom = s.boolean();
    let want = e.advanced(d, n, u, c, eom);
    requires!(s, want.is_some());
    let r = e.cal.advance_by_days(Date::from_serial(d), n, u, c, eom);
    ensures!(s, is_day(&r, want.unwrap()), "advance by a period");
}

/// starts on and around the last business day of the month
//@ native
pub fn end_of_month_advance<S: Src>(s: &mut S) {
    let y = s.int(1900, 2199);
    let m = s.int(1, 12);
    let d = serial(y, m, mlen(y, m)) + s.int(-5, 1);
    requires!(s, d >= MIN && d <= MAX);
    let (u, n) = if s.boolean() { (Months, s.int(-40, 40)) } else { (Years, s.int(-12, 12)) };
    let t = moved(d, n, u);
    requires!(s, t.is_some());
    let mut e = any_edited(s, d);
    if s.boolean() {
        disturb(s, &mut e, month_end(t.unwrap()));
    }
    let c = convention(s);
    let eom = s.boolean();
    let want = e.advanced(d, n, u, c, eom);
    requires!(s, want.is_some());
    let r = e.cal.advance_by_period(Date::from_serial(d), Period::new(n, u), c, eom);
    ensures!(s, is_day(&r, want.unwrap()), "advance from a month end");
}

//@ native
pub fn all_spellings_of_advance_agree<S: Src>(s: &mut S) {
    let d = s.int(MIN, MAX);
    let u = match s.int(0, 3) {
        0 => Days,
        1 => Weeks,
        2 => Months,
        _ => Years,
    };
    let n = s.int(-30, 30);
    let e = any_edited(s, d);
    let c = convention(s);
    let eom = s.boolean();
    let want = e.advanced(d, n, u, c, eom);
    let f = e.advanced(d, n, u, Following, eom);
    let date = Date::from_serial(d);
    let p = Period::new(n, u);
    if let Some(w) = want {
        ensures!(s, is_day(&e.cal.advance_by_period(date, p, c, eom), w), "advance_by_period");
        ensures!(s, is_day(&e.cal.advance_by_days(date, n, u, c, eom), w), "advance_by_days");
    }
    if let Some(w) = f {
        ensures!(s, is_day(&e.cal.advance_by_period_with_following(date, p, eom), w), "advance_by_period_with_following");
        ensures!(s, is_day(&e.cal.advance_by_days_with_following(date, n, u, eom), w), "advance_by_days_with_following");
    }
}
