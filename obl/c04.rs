//! C04: weekdays, nth weekday, month ends, leap years
use crate::obl::*;
use rust_quantlib::datetime::{date::Date, months::Month, weekday::Weekday};

//@ kani
pub fn weekday_follows_the_seven_day_cycle<S: Src>(s: &mut S) {
    let x = any_ymd(s);
    let d = to_date(x);
    ensures!(s, d.weekday() as i32 == x.wday(), "weekday of the civil date");
}

//@ kani
pub fn weekday_of_a_date_from_its_serial<S: Src>(s: &mut S) {
    let n = s.int(MIN, MAX);
    ensures!(s, Date::from_serial(n).weekday() as i32 == wday(n), "weekday");
}

//@ kani
pub fn leap_years_are_gregorian<S: Src>(s: &mut S) {
    let y = s.int(1900, 2199);
    ensures!(s, Date::is_leap(y) == leap(y), "Gregorian rule");
}

//@ kani reject
pub fn leap_year_out_of_range_is_rejected<S: Src>(s: &mut S) {
    let y = s.int(i32::MIN, i32::MAX);
    requires!(s, y < 1900 || y > 2199);
    rejects!(s, Date::is_leap(y), "year out of range");
}

//@ kani
pub fn end_of_month_is_the_last_day<S: Src>(s: &mut S) {
    let x = any_ymd(s);
    let d = to_date(x);
    let e = d.end_of_month();
    let l = mlen(x.y, x.m);
    ensures!(s, is_day(&e, serial(x.y, x.m, l)), "last day of the same month");
    ensures!(s, d.is_end_of_month() == (x.d == l), "is end of month");
    ensures!(s, e.is_end_of_month(), "the end of the month is an end of month");
}

fn nth_args<S: Src>(s: &mut S) -> (i32, i32, i32, i32, i32) {
    let y = s.int(1900, 2199);
    let m = s.int(1, 12);
    let w = s.int(1, 7);
    let nth = s.int(1, 5);
    // weekday of the first of the month (C04: it is the weekday of the civil date)
    let first = Date::new(1, Month::from(m), y).weekday() as i32;
    let day = 1 + (if w >= first { w - first } else { w - first + 7 }) + 7 * (nth - 1);
    requires!(s, day <= mlen(y, m));
    (y, m, w, nth, day)
}

//@ kani
pub fn nth_weekday_is_the_nth<S: Src>(s: &mut S) {
    let (y, m, w, nth, day) = nth_args(s);
    let d = Date::nth_weekday(nth as usize, weekday_of(w), Month::from(m), y);
    ensures!(s, d.year() == y && d.month() as i32 == m, "in the asked month");
    ensures!(s, d.day_of_month() as i32 == day, "day of month");
    ensures!(s, (day - 1) / 7 == nth - 1, "in the nth week of the month");
}

//@ kani thorough timeout=900
pub fn nth_weekday_has_the_weekday<S: Src>(s: &mut S) {
    let (y, m, w, nth, day) = nth_args(s);
    let d = Date::nth_weekday(nth as usize, weekday_of(w), Month::from(m), y);
    ensures!(s, d.serial_number() == serial(y, m, day), "serial number of the nth weekday");
    ensures!(s, d.weekday() == weekday_of(w), "asked weekday");
}

//@ native
pub fn nth_weekday_any<S: Src>(s: &mut S) {
    let (y, m, w, nth, day) = nth_args(s);
    let d = Date::nth_weekday(nth as usize, weekday_of(w), Month::from(m), y);
    ensures!(s, is_day(&d, serial(y, m, day)), "nth weekday of the month");
    ensures!(s, d.weekday() == weekday_of(w), "asked weekday");
}

//@ kani reject
pub fn nth_weekday_rejects_a_fifth_that_does_not_exist<S: Src>(s: &mut S) {
    let y = s.int(1900, 2199);
    let m = s.int(1, 12);
    let w = s.int(1, 7);
    let first = wday(serial(y, m, 1));
    let day = 1 + (if w >= first { w - first } else { w - first + 7 }) + 28;
    requires!(s, day > mlen(y, m));
    rejects!(s, Date::nth_weekday(5, weekday_of(w), Month::from(m), y), "no fifth such weekday");
}

//@ kani reject
pub fn nth_weekday_rejects_other_ordinals<S: Src>(s: &mut S) {
    let y = s.int(1900, 2199);
    let m = s.int(1, 12);
    let w = s.int(1, 7);
    let nth = s.int(0, i32::MAX);
    requires!(s, nth == 0 || nth > 5);
    rejects!(s, Date::nth_weekday(nth as usize, weekday_of(w), Month::from(m), y), "ordinal out of range");
}

//@ kani
pub fn weekday_numbers<S: Src>(s: &mut S) {
    let n = s.int(1, 7);
    let w = Weekday::from(n);
    ensures!(s, w == weekday_of(n), "number to weekday");
    ensures!(s, i32::from(w) == n, "weekday to number");
    ensures!(s, Weekday::from(0) == Weekday::Saturday, "zero is Saturday");
}

//@ kani
pub fn month_numbers<S: Src>(s: &mut S) {
    let n = s.int(1, 12);
    let m = Month::from(n);
    ensures!(s, i32::from(m) == n && u32::from(m) == n as u32 && usize::from(m) == n as usize, "month number");
    ensures!(s, Month::from(n as u32) == m, "unsigned month number");
}

//@ kani reject
pub fn month_numbers_out_of_range_are_rejected<S: Src>(s: &mut S) {
    let n = s.int(i32::MIN, i32::MAX);
    requires!(s, n < 1 || n > 12);
    rejects!(s, Month::from(n), "month number out of range");
}
