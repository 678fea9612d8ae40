//! C08: every history of edits
use crate::cal::*;
use crate::obl::*;
use rust_quantlib::datetime::businessdayconvention::BusinessDayConvention::*;
use rust_quantlib::datetime::{calendar::Calendar, date::Date, timeunit::TimeUnit::*};

/// a random history of additions, removals and resets on a few days around c, some of them many times
fn history<S: Src>(s: &mut S, e: &mut Edited, c: i32) {
    let w = s.int(0, 8);
    for _ in 0..s.int(1, 14) {
        match s.int(0, 11) {
            0 => {
                e.cal.reset_added_and_removed_holidays();
                e.edits.clear();
            }
            k => {
                let x = c + s.int(-w, w);
                e.edit(x, k % 2 == 0)
            }
        }
    }
}

//@ native
pub fn the_last_edit_of_a_day_decides<S: Src>(s: &mut S) {
    let c = s.int(MIN, MAX);
    let mut e = Edited::of(s.int(0, MARKETS - 1));
    for _ in 0..s.int(1, 3) {
        history(s, &mut e, c);
        for x in (c - 12).max(MIN)..=(c + 12).min(MAX) {
            let d = Date::from_serial(x);
            ensures!(s, e.cal.is_holiday(&d) == !e.biz(x), "is_holiday after a history of edits");
        }
    }
    let far = s.int(MIN, MAX);
    ensures!(s, e.cal.is_holiday(&Date::from_serial(far)) == !e.biz(far), "a day that was not edited");
}

//@ native
pub fn every_operation_sees_the_edits<S: Src>(s: &mut S) {
    let c = s.int(MIN + 30, MAX - 30);
    let mut e = Edited::of(s.int(0, MARKETS - 1));
    history(s, &mut e, c);
    let d = Date::from_serial(c);
    let (a, b) = (c - s.int(0, 10), c + s.int(0, 10));
    let (da, db) = (Date::from_serial(a), Date::from_serial(b));
    let biz: Vec<i32> = (a..=b).filter(|x| e.biz(*x)).collect();
    ensures!(s, e.cal.business_days_between(da, db, true, true) == biz.len() as i32, "the count sees the edits");
    ensures!(s, e.cal.business_day_list(da, db).iter().map(|d| d.serial_number()).collect::<Vec<_>>() == biz, "the list sees the edits");
    ensures!(s, e.cal.holiday_list(da, db, true).len() as i32 == b - a + 1 - biz.len() as i32, "the holiday list sees the edits");
    if let Some(w) = e.adjusted(c, Following) {
        ensures!(s, is_day(&e.cal.adjust(d, Following), w), "adjustment sees the edits");
    }
    if let Some(w) = e.adjusted(c, Preceding) {
        ensures!(s, is_day(&e.cal.adjust(d, Preceding), w), "backward adjustment sees the edits");
    }
    let n = s.int(-5, 5);
    if let Some(w) = e.advanced(c, n, Days, Following, false) {
        ensures!(s, is_day(&e.cal.advance_by_days(d, n, Days, Following, false), w), "advancing sees the edits");
    }
    if let Some(w) = e.prev(month_end(c)) {
        ensures!(s, is_day(&e.cal.end_of_month(&d), w), "the month end sees the edits");
    }
    if c < MAX && e.next(c + 1).is_some() {
        ensures!(s, e.cal.is_end_of_month(&d) == e.at_end_of_month(c), "the month-end test sees the edits");
    }
}

//@ native
pub fn a_calendar_without_a_market_has_only_the_edits<S: Src>(s: &mut S) {
    let c = s.int(MIN, MAX);
    let mut e = Edited::of(0);
    history(s, &mut e, c);
    for x in (c - 12).max(MIN)..=(c + 12).min(MAX) {
        let last = e.edits.iter().rev().find(|t| t.0 == x);
        ensures!(s, e.cal.is_holiday(&Date::from_serial(x)) == matches!(last, Some((_, true))), "only the edits are holidays");
    }
}

//@ native
pub fn a_clone_is_edited_independently<S: Src>(s: &mut S) {
    let c = s.int(MIN, MAX);
    let mut e = Edited::of(s.int(0, MARKETS - 1));
    history(s, &mut e, c);
    let copy: Calendar = e.cal.clone();
    let was: Vec<bool> = (c.max(MIN + 9) - 9..c.min(MAX - 9) + 9).map(|x| e.biz(x)).collect();
    history(s, &mut e, c);
    let now: Vec<bool> = (c.max(MIN + 9) - 9..c.min(MAX - 9) + 9).map(|x| !copy.is_holiday(&Date::from_serial(x))).collect();
    ensures!(s, was == now, "the copy keeps its own edits");
}

//@ native
pub fn resetting_restores_the_market<S: Src>(s: &mut S) {
    let c = s.int(MIN, MAX);
    let mut e = Edited::of(s.int(0, MARKETS - 1));
    history(s, &mut e, c);
    e.cal.reset_added_and_removed_holidays();
    for x in (c - 10).max(MIN)..=(c + 10).min(MAX) {
        let d = Date::from_serial(x);
        ensures!(s, e.cal.is_holiday(&d) == e.base.is_holiday(&d), "after a reset the market decides");
    }
    ensures!(s, e.cal.added_holidays().is_empty() && e.cal.removed_holidays().is_empty(), "no edits are left");
}
