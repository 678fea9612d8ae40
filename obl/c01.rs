//! C01: dates and serial numbers
use crate::obl::*;
use rust_quantlib::datetime::{date::Date, months::Month};

//@ kani
pub fn new_yields_the_civil_date<S: Src>(s: &mut S) {
    let x = any_ymd(s);
    let d = to_date(x);
    ensures!(s, d.serial_number() == x.serial(), "serial number of the civil date");
    ensures!(s, d.year() == x.y, "year");
    ensures!(s, d.month() as i32 == x.m, "month");
    ensures!(s, d.day_of_month() as i32 == x.d, "day of month");
    ensures!(s, d.day_of_year() as i32 == x.doy(), "day of year");
    ensures!(s, d.serial_number() >= MIN && d.serial_number() <= MAX, "within range");
}

//@ kani reject
pub fn new_rejects_a_day_outside_the_month<S: Src>(s: &mut S) {
    let y = s.int(1900, 2199);
    let m = s.int(1, 12);
    let d = s.int(i32::MIN, i32::MAX);
    requires!(s, d <= 0 || d > mlen(y, m));
    rejects!(s, Date::new(d as u32, Month::from(m), y), "no such day");
}

//@ kani reject
pub fn new_rejects_a_year_outside_the_range<S: Src>(s: &mut S) {
    let y = s.int(i32::MIN, i32::MAX);
    let m = s.int(1, 12);
    let d = s.int(1, 31);
    requires!(s, y < 1900 || y > 2199);
    rejects!(s, Date::new(d as u32, Month::from(m), y), "no such year");
}

//@ kani
pub fn from_serial_yields_the_civil_date<S: Src>(s: &mut S) {
    let n = s.int(MIN, MAX);
    let d = Date::from_serial(n);
    ensures!(s, is_day(&d, n), "civil date of the serial number");
    ensures!(s, d.day_of_year() as i32 == doy(d.year(), d.month() as i32, d.day_of_month() as i32), "day of year");
}

//@ kani reject
pub fn from_serial_rejects_out_of_range<S: Src>(s: &mut S) {
    let n = s.int(i32::MIN, i32::MAX);
    requires!(s, n < MIN || n > MAX);
    rejects!(s, Date::from_serial(n), "serial number out of range");
}

//@ kani
pub fn serial_roundtrip<S: Src>(s: &mut S) {
    let n = s.int(MIN, MAX);
    let d = Date::from_serial(n);
    let e = Date::new(d.day_of_month(), d.month(), d.year());
    ensures!(s, e.serial_number() == n, "new(from_serial(n)) has serial number n");
    ensures!(s, e == d, "same date");
}

//@ kani
pub fn civil_roundtrip<S: Src>(s: &mut S) {
    let x = any_ymd(s);
    let d = Date::from_serial(to_date(x).serial_number());
    ensures!(s, x.is(&d), "from_serial(new(x)) is x");
}

//@ kani
pub fn range_limits<S: Src>(s: &mut S) {
    ensures!(s, is_day(&Date::min_date(), MIN) && Date::min_date().year() == 1900, "min date");
    ensures!(s, is_day(&Date::max_date(), MAX) && Date::max_date().year() == 2199, "max date");
    ensures!(s, is_day(&Date::default(), MIN), "default date");
}

//@ kani
pub fn today_is_a_valid_date<S: Src>(s: &mut S) {
    let t = Date::todays_date();
    ensures!(s, is_day(&t, t.serial_number()), "well formed");
    ensures!(s, t >= Date::min_date() && t <= Date::max_date(), "within range");
}
