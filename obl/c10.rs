//! C10: Easter
use crate::obl::*;
use crate::rules;
use rust_quantlib::datetime::{calendar, holiday};

//@ kani
pub fn western_easter_monday_of_calendars<S: Src>(s: &mut S) {
    let y = s.int(1900, 2199);
    ensures!(s, calendar::easter_monday(y) as i32 == rules::western_day_of_year(y) + 1, "the day after the Gregorian Easter Sunday");
}
//@ kani
pub fn western_easter_monday_of_holidays<S: Src>(s: &mut S) {
    let y = s.int(1900, 2199);
    ensures!(s, holiday::easter_monday(y) as i32 == rules::western_day_of_year(y) + 1, "the day after the Gregorian Easter Sunday");
}
//@ kani
pub fn orthodox_easter_monday_of_calendars<S: Src>(s: &mut S) {
    let y = s.int(1900, 2199);
    ensures!(s, calendar::easter_monday_orthodox(y) as i32 == rules::orthodox(y) + 1, "the day after the Julian Easter Sunday");
}
//@ kani
pub fn orthodox_easter_monday_of_holidays<S: Src>(s: &mut S) {
    let y = s.int(1900, 2199);
    ensures!(s, holiday::easter_monday_orthodox(y) as i32 == rules::orthodox(y) + 1, "the day after the Julian Easter Sunday");
}
/// the statement the tables rest on: the computus formulas give Sundays, the Western one between 22 March and 25 April
//@ kani
pub fn the_computus_gives_sundays<S: Src>(s: &mut S) {
    let y = s.int(1900, 2199);
    let w = rules::western(y);
    ensures!(s, w >= 322 && w <= 425, "between 22 March and 25 April");
    ensures!(s, wday(serial(y, 1, 1) + rules::western_day_of_year(y) - 1) == 1, "a Sunday");
    ensures!(s, wday(serial(y, 1, 1) + rules::orthodox(y) - 1) == 1, "an Orthodox Sunday");
}
//@ kani reject
pub fn years_out_of_range_are_rejected<S: Src>(s: &mut S) {
    let y = s.int(i32::MIN, i32::MAX);
    requires!(s, y < 1900 || y > 2199);
    match s.int(0, 3) {
        0 => rejects!(s, calendar::easter_monday(y), "out of range"),
        1 => rejects!(s, calendar::easter_monday_orthodox(y), "out of range"),
        2 => rejects!(s, holiday::easter_monday(y), "out of range"),
        _ => rejects!(s, holiday::easter_monday_orthodox(y), "out of range"),
    }
}
