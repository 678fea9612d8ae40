//! C09: every market closes exactly on its documented holidays
use crate::cal::*;
use crate::obl::*;
use crate::rules;
use rust_quantlib::datetime::{
    date::Date,
    weekday::Weekday,
    weekend::{OrthodoxWeekend, Weekend},
};

fn closes_as_documented<S: Src>(s: &mut S, k: i32) {
    let x = any_ymd(s);
    closes(s, k, x)
}
fn closes<S: Src>(s: &mut S, k: i32, x: Ymd) {
    let open = !market(k).is_holiday(&to_date(x));
    let open_by_rule = !rules::closed(k, &rules::Day::of(x));
    ensures!(s, !open_by_rule || open, "open on every day that is neither a weekend day nor a documented holiday");
    ensures!(s, open_by_rule || !open, "closed on every weekend day and documented holiday");
}
/// all days of the range, natively
fn every_day<S: Src>(s: &mut S, k: i32) {
    let n = s.int(MIN, MAX);
    let x = civil(n);
    ensures!(s, market(k).is_holiday(&Date::from_serial(n)) == rules::closed(k, &rules::Day::of(x)), "closed exactly on the documented days");
}

//@ kani cal
pub fn null<S: Src>(s: &mut S) {
    closes_as_documented(s, 0)
}
//@ native
pub fn null_day_by_day<S: Src>(s: &mut S) {
    every_day(s, 0)
}

//@ kani cal
pub fn weekends_only<S: Src>(s: &mut S) {
    closes_as_documented(s, 1)
}
//@ native
pub fn weekends_only_day_by_day<S: Src>(s: &mut S) {
    every_day(s, 1)
}

//@ kani cal
pub fn target<S: Src>(s: &mut S) {
    closes_as_documented(s, 2)
}
//@ native
pub fn target_day_by_day<S: Src>(s: &mut S) {
    every_day(s, 2)
}

//@ kani cal
pub fn united_kingdom_settlement<S: Src>(s: &mut S) {
    closes_as_documented(s, 3)
}
//@ native
pub fn united_kingdom_settlement_day_by_day<S: Src>(s: &mut S) {
    every_day(s, 3)
}

//@ kani cal
pub fn united_kingdom_exchange<S: Src>(s: &mut S) {
    closes_as_documented(s, 4)
}
//@ native
pub fn united_kingdom_exchange_day_by_day<S: Src>(s: &mut S) {
    every_day(s, 4)
}

//@ kani cal
pub fn united_kingdom_metals<S: Src>(s: &mut S) {
    closes_as_documented(s, 5)
}
//@ native
pub fn united_kingdom_metals_day_by_day<S: Src>(s: &mut S) {
    every_day(s, 5)
}

//@ kani cal
pub fn us_settlement<S: Src>(s: &mut S) {
    closes_as_documented(s, 6)
}
//@ native
pub fn us_settlement_day_by_day<S: Src>(s: &mut S) {
    every_day(s, 6)
}

//@ kani cal
pub fn us_libor_impact<S: Src>(s: &mut S) {
    closes_as_documented(s, 7)
}
//@ native
pub fn us_libor_impact_day_by_day<S: Src>(s: &mut S) {
    every_day(s, 7)
}

//@ kani cal
pub fn us_nyse<S: Src>(s: &mut S) {
    closes_as_documented(s, 8)
}
//@ native
pub fn us_nyse_day_by_day<S: Src>(s: &mut S) {
    every_day(s, 8)
}

//@ kani cal
pub fn us_government_bond<S: Src>(s: &mut S) {
    closes_as_documented(s, 9)
}
//@ native
pub fn us_government_bond_day_by_day<S: Src>(s: &mut S) {
    every_day(s, 9)
}

//@ kani cal
pub fn us_nerc<S: Src>(s: &mut S) {
    closes_as_documented(s, 10)
}
//@ native
pub fn us_nerc_day_by_day<S: Src>(s: &mut S) {
    every_day(s, 10)
}

//@ kani cal
pub fn us_federal_reserve<S: Src>(s: &mut S) {
    closes_as_documented(s, 11)
}
//@ native
pub fn us_federal_reserve_day_by_day<S: Src>(s: &mut S) {
    every_day(s, 11)
}

//@ kani cal
pub fn italy_settlement<S: Src>(s: &mut S) {
    closes_as_documented(s, 12)
}
//@ native
pub fn italy_settlement_day_by_day<S: Src>(s: &mut S) {
    every_day(s, 12)
}

//@ kani cal
pub fn italy_exchange<S: Src>(s: &mut S) {
    closes_as_documented(s, 13)
}
//@ native
pub fn italy_exchange_day_by_day<S: Src>(s: &mut S) {
    every_day(s, 13)
}

//@ kani cal
pub fn switzerland<S: Src>(s: &mut S) {
    closes_as_documented(s, 14)
}
//@ native
pub fn switzerland_day_by_day<S: Src>(s: &mut S) {
    every_day(s, 14)
}

//@ kani cal
pub fn brazil_settlement<S: Src>(s: &mut S) {
    closes_as_documented(s, 15)
}
//@ native
pub fn brazil_settlement_day_by_day<S: Src>(s: &mut S) {
    every_day(s, 15)
}

//@ kani cal
pub fn brazil_exchange<S: Src>(s: &mut S) {
    closes_as_documented(s, 16)
}
//@ native
pub fn brazil_exchange_day_by_day<S: Src>(s: &mut S) {
    every_day(s, 16)
}

// Japan by months, the equinoxes apart: the three together are every day
//@ kani cal timeout=300
pub fn japan_vernal_equinox<S: Src>(s: &mut S) {
    let x = any_ymd(s);
    requires!(s, x.m == 3);
    closes(s, 17, x)
}
//@ kani cal timeout=300
pub fn japan_autumnal_equinox<S: Src>(s: &mut S) {
    let x = any_ymd(s);
    requires!(s, x.m == 9);
    closes(s, 17, x)
}
//@ kani cal timeout=300
pub fn japan_other_months<S: Src>(s: &mut S) {
    let x = any_ymd(s);
    requires!(s, x.m != 3 && x.m != 9);
    closes(s, 17, x)
}
//@ native
pub fn japan_day_by_day<S: Src>(s: &mut S) {
    every_day(s, 17)
}

//@ native
pub fn weekends<S: Src>(s: &mut S) {
    let k = s.int(0, MARKETS - 1);
    for w in 1..=7 {
        ensures!(s, market(k).is_weekend(weekday_of(w)) == (k != 0 && (w == 1 || w == 7)), "Saturday and Sunday, or none for the null calendar");
        ensures!(s, Weekend::OrthodoxWeekend(OrthodoxWeekend {}).is_weekend(weekday_of(w)) == (w == 1 || w == 7), "Saturday and Sunday on the Orthodox weekend too");
    }
}
