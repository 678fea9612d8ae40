//! C05: adjustment of dates under every convention, on every calendar
use crate::cal::*;
use crate::obl::*;
use rust_quantlib::datetime::businessdayconvention::BusinessDayConvention::*;
use rust_quantlib::datetime::date::Date;

//@ native
pub fn adjust_yields_the_date_of_the_convention<S: Src>(s: &mut S) {
    let d = s.int(MIN, MAX);
    let e = any_edited(s, d);
    let c = convention(s);
    let want = e.adjusted(d, c);
    requires!(s, want.is_some());
    let r = e.cal.adjust(Date::from_serial(d), c);
    ensures!(s, is_day(&r, want.unwrap()), "adjust");
}

//@ native
pub fn adjust_with_following_is_the_following_convention<S: Src>(s: &mut S) {
    let d = s.int(MIN, MAX);
    let e = any_edited(s, d);
    let want = e.next(d);
    requires!(s, want.is_some());
    let r = e.cal.adjust_with_following(Date::from_serial(d));
    ensures!(s, is_day(&r, want.unwrap()), "adjust_with_following");
}

//@ native
pub fn a_business_day_is_left_where_it_is<S: Src>(s: &mut S) {
    let d = s.int(MIN, MAX);
    let e = any_edited(s, d);
    requires!(s, e.biz(d));
    for c in [Following, ModifiedFollowing, Preceding, ModifiedPreceding, Unadjusted, HalfMonthModifiedFollowing, Nearest] {
        ensures!(s, is_day(&e.cal.adjust(Date::from_serial(d), c), d), "a business day is not moved");
    }
}

/// month ends, mid-months and year ends are where the conventions differ
//@ native
pub fn adjust_around_month_ends_and_mid_months<S: Src>(s: &mut S) {
    let y = s.int(1900, 2199);
    let m = s.int(1, 12);
    let at = match s.int(0, 2) {
        0 => serial(y, m, 1),
        1 => serial(y, m, 15),
        _ => serial(y, m, mlen(y, m)),
    };
    let d = at + s.int(-6, 6);
    requires!(s, d >= MIN && d <= MAX);
    let e = any_edited(s, at);
    for c in [Following, ModifiedFollowing, Preceding, ModifiedPreceding, Unadjusted, HalfMonthModifiedFollowing, Nearest] {
        let want = e.adjusted(d, c);
        if let Some(w) = want {
            ensures!(s, is_day(&e.cal.adjust(Date::from_serial(d), c), w), "adjust near a month end or mid-month");
        }
    }
}
