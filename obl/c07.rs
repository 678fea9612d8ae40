//! C07: counts, lists and month ends
use crate::cal::*;
use crate::obl::*;
use rust_quantlib::datetime::date::Date;

fn between(e: &Edited, a: i32, b: i32, first: bool, last: bool) -> i32 {
    if a == b {
        return (first && last && e.biz(a)) as i32;
    }
    let (lo, hi) = (a.min(b), a.max(b));
    let inside = (lo + 1..hi).filter(|x| e.biz(*x)).count() as i32;
    let n = inside + (first && e.biz(a)) as i32 + (last && e.biz(b)) as i32;
    if a < b {
        n
    } else {
        -n
    }
}

//@ native
pub fn business_days_between_counts_the_interval<S: Src>(s: &mut S) {
    let a = s.int(MIN, MAX);
    let b = a + s.int(-45, 45);
    requires!(s, b >= MIN && b <= MAX);
    let mut e = any_edited(s, a);
    if s.boolean() {
        disturb(s, &mut e, b);
    }
    let (da, db) = (Date::from_serial(a), Date::from_serial(b));
    for (f, l) in [(true, true), (true, false), (false, true), (false, false)] {
        ensures!(s, e.cal.business_days_between(da, db, f, l) == between(&e, a, b, f, l), "business days between");
    }
}

//@ native
pub fn long_intervals<S: Src>(s: &mut S) {
    let a = s.int(MIN, MAX);
    let b = a + s.int(-3000, 3000);
    requires!(s, b >= MIN && b <= MAX);
    let e = any_edited(s, b);
    let (f, l) = (s.boolean(), s.boolean());
    ensures!(s, e.cal.business_days_between(Date::from_serial(a), Date::from_serial(b), f, l) == between(&e, a, b, f, l), "long interval");
}

//@ native
pub fn the_lists_are_the_days_of_the_test<S: Src>(s: &mut S) {
    let a = s.int(MIN, MAX);
    let b = a + s.int(0, 60);
    requires!(s, b <= MAX);
    let e = any_edited(s, a + (b - a) / 2);
    let (da, db) = (Date::from_serial(a), Date::from_serial(b));
    let biz: Vec<i32> = (a..=b).filter(|x| e.biz(*x)).collect();
    let list: Vec<i32> = e.cal.business_day_list(da, db).iter().map(|d| d.serial_number()).collect();
    ensures!(s, list == biz, "business_day_list");
    let hol: Vec<i32> = (a..=b).filter(|x| !e.biz(*x)).collect();
    let list: Vec<i32> = e.cal.holiday_list(da, db, true).iter().map(|d| d.serial_number()).collect();
    ensures!(s, list == hol, "holiday_list with weekends");
    let hol: Vec<i32> = hol.into_iter().filter(|x| !e.cal.is_weekend(weekday_of(wday(*x)))).collect();
    let list: Vec<i32> = e.cal.holiday_list(da, db, false).iter().map(|d| d.serial_number()).collect();
    ensures!(s, list == hol, "holiday_list without weekends");
}

//@ native
pub fn reversed_lists_are_rejected<S: Src>(s: &mut S) {
    let a = s.int(MIN + 1, MAX);
    let b = s.int(MIN, MAX);
    requires!(s, b < a);
    let c = market(s.int(0, MARKETS - 1));
    let (da, db) = (Date::from_serial(a), Date::from_serial(b));
    let r = std::panic::catch_unwind(|| market(1).business_day_list(da, db));
    ensures!(s, r.is_err(), "business_day_list of a reversed interval");
    rejects!(s, c.holiday_list(da, db, true), "holiday_list of a reversed interval");
}

//@ native
pub fn month_ends_follow_the_day_test<S: Src>(s: &mut S) {
    let y = s.int(1900, 2199);
    let m = s.int(1, 12);
    let d = serial(y, m, s.int(1, 28)).max(serial(y, m, mlen(y, m)) - s.int(0, 27));
    requires!(s, d < MAX);
    let e = any_edited(s, month_end(d));
    let date = Date::from_serial(d);
    if e.next(d + 1).is_some() {
        ensures!(s, e.cal.is_end_of_month(&date) == e.at_end_of_month(d), "is_end_of_month");
    }
    if let Some(w) = e.prev(month_end(d)) {
        ensures!(s, is_day(&e.cal.end_of_month(&date), w), "end_of_month");
    }
}
