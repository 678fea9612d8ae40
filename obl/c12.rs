//! C12: the 30/360 family
use crate::obl::*;
use rust_quantlib::datetime::{
    date::Date,
    daycounter::DayCounter,
    daycounters::thirty365::Thirty365,
};

fn last_of_february(x: Ymd) -> bool {
    x.m == 2 && x.d == mlen(x.y, 2)
}
/// the published rules: the days the two dates count as; a day of 31 that survives is the 1st of the next month,
/// which counts the same
pub fn count(rule: i32, a: Ymd, b: Ymd, b_is_termination: bool) -> i32 {
    let (mut da, mut db) = (a.d, b.d);
    match rule {
        // US (NASD-like end of February)
        0 => {
            if a.d == 31 || last_of_february(a) {
                da = 30;
            }
            if b.d == 31 && a.d >= 30 {
                db = 30;
            }
            if last_of_february(a) && last_of_february(b) {
                db = 30;
            }
        }
        // ISMA, Bond Basis
        1 => {
            if a.d == 31 {
                da = 30;
            }
            if b.d == 31 && a.d >= 30 {
                db = 30;
            }
        }
        // European, Eurobond Basis
        2 => {
            da = da.min(30);
            db = db.min(30);
        }
        // Italian
        3 => {
            da = if a.m == 2 && a.d > 27 { 30 } else { da.min(30) };
            db = if b.m == 2 && b.d > 27 { 30 } else { db.min(30) };
        }
        // ISDA, German
        4 => {
            if a.d == 31 || last_of_february(a) {
                da = 30;
            }
            if b.d == 31 || (last_of_february(b) && !b_is_termination) {
                db = 30;
            }
        }
        // NASD: the 31st after an earlier start is the first of the next month
        5 => {
            if a.d == 31 {
                da = 30;
            }
            if b.d == 31 {
                db = if a.d >= 30 { 30 } else { 31 };
            }
        }
        // 30/365 counts without adjustment
        _ => {}
    }
    360 * (b.y - a.y) + 30 * (b.m - a.m) + db - da
}
fn null() -> Date {
    Date::from_serial(MIN)
}

fn counts_by_the_rule<S: Src>(s: &mut S, rule: i32) {
    let a = any_ymd(s);
    let b = any_ymd(s);
    let dc = match rule {
        0 => DayCounter::usa(),
        1 => DayCounter::isma(),
        2 => DayCounter::european(),
        3 => DayCounter::italian(),
        5 => DayCounter::nasd(),
        _ => DayCounter::Thirty365(Thirty365::new()),
    };
    ensures!(s, dc.day_count(&to_date(a), &to_date(b)) == count(rule, a, b, false), "the published day count");
}
//@ kani
pub fn usa<S: Src>(s: &mut S) {
    counts_by_the_rule(s, 0)
}
//@ kani
pub fn isma<S: Src>(s: &mut S) {
    counts_by_the_rule(s, 1)
}
//@ kani
pub fn european<S: Src>(s: &mut S) {
    counts_by_the_rule(s, 2)
}
//@ kani
pub fn italian<S: Src>(s: &mut S) {
    counts_by_the_rule(s, 3)
}
//@ kani
pub fn nasd<S: Src>(s: &mut S) {
    counts_by_the_rule(s, 5)
}
//@ kani
pub fn thirty_365<S: Src>(s: &mut S) {
    counts_by_the_rule(s, 6)
}
//@ kani
pub fn isda<S: Src>(s: &mut S) {
    let a = any_ymd(s);
    let b = any_ymd(s);
    let at_end = s.boolean();
    let t = if at_end { b } else { any_ymd(s) };
    let dc = DayCounter::isda(to_date(t));
    ensures!(s, dc.day_count(&to_date(a), &to_date(b)) == count(4, a, b, t == b), "the published day count");
}
//@ kani
pub fn the_other_names<S: Src>(s: &mut S) {
    let a = any_ymd(s);
    let b = any_ymd(s);
    let (da, db) = (to_date(a), to_date(b));
    ensures!(s, DayCounter::bond_basis().day_count(&da, &db) == count(1, a, b, false), "Bond Basis is ISMA");
    ensures!(s, DayCounter::euro_bond_basis().day_count(&da, &db) == count(2, a, b, false), "Eurobond Basis is European");
    ensures!(s, DayCounter::german(db).day_count(&da, &db) == count(4, a, b, true), "German is ISDA");
}

fn counter<S: Src>(k: i32, t: Date) -> DayCounter {
    match k {
        0 => DayCounter::usa(),
        1 => DayCounter::isma(),
        2 => DayCounter::european(),
        3 => DayCounter::italian(),
        4 => DayCounter::isda(t),
        5 => DayCounter::nasd(),
        6 => DayCounter::Thirty365(Thirty365::new()),
        7 => DayCounter::bond_basis(),
        8 => DayCounter::euro_bond_basis(),
        _ => DayCounter::german(t),
    }
}
/// any date, mostly at the ends of months
fn some_day<S: Src>(s: &mut S) -> Ymd {
    let y = match s.int(0, 3) {
        0 => s.int(1900, 2199),
        1 => 1900 + 4 * s.int(0, 74),
        2 => 1900 + 100 * s.int(0, 2),
        _ => s.int(2000, 2005),
    };
    let m = if s.boolean() { 2 } else { s.int(1, 12) };
    let l = mlen(y, m);
    let d = if s.boolean() { l - s.int(0, 3) } else { s.int(1, l) };
    Ymd { y, m, d }
}

//@ native
pub fn fractions_and_counts<S: Src>(s: &mut S) {
    let a = some_day(s);
    let b = match s.int(0, 4) {
        0 => a,
        _ => some_day(s),
    };
    let (da, db) = (to_date(a), to_date(b));
    let k = s.int(0, 9);
    let t = if s.boolean() { b } else { some_day(s) };
    let dc = counter::<S>(k, to_date(t));
    let rule = match k {
        7 => 1,
        8 => 2,
        9 => 4,
        k => k,
    };
    let n = count(rule, a, b, t == b);
    ensures!(s, dc.day_count(&da, &db) == n, "the published day count");
    let base = if k == 6 { 365.0 } else { 360.0 };
    let f = dc.year_fraction(&da, &db, &null(), &null());
    ensures!(s, (f * base - n as f64).abs() < 1e-6, "the year fraction is the count over 360 or 365");
    let f = dc.year_fraction(&da, &db, &to_date(some_day(s)), &to_date(some_day(s)));
    ensures!(s, (f * base - n as f64).abs() < 1e-6, "the reference period does not matter");
    // antisymmetry where the rule treats both dates alike
    if rule == 2 || rule == 3 || rule == 6 || (rule == 4 && t != a && t != b) {
        ensures!(s, dc.day_count(&db, &da) == -n, "antisymmetric");
    }
    if k != 4 && k != 9 {
        ensures!(s, dc.day_count(&da, &da) == count(rule, a, a, false), "on equal dates");
    }
}

//@ kani
pub fn antisymmetric_rules<S: Src>(s: &mut S) {
    let a = any_ymd(s);
    let b = any_ymd(s);
    let (da, db) = (to_date(a), to_date(b));
    match s.int(0, 2) {
        0 => {
            let c = DayCounter::european();
            ensures!(s, c.day_count(&da, &db) == -c.day_count(&db, &da), "European");
        }
        1 => {
            let c = DayCounter::italian();
            ensures!(s, c.day_count(&da, &db) == -c.day_count(&db, &da), "Italian");
        }
        _ => {
            let c = DayCounter::Thirty365(Thirty365::new());
            ensures!(s, c.day_count(&da, &db) == -c.day_count(&db, &da), "30/365");
        }
    }
}

//@ native
pub fn fraction_is_count_over_360<S: Src>(s: &mut S) {
    let a = any_ymd(s);
    let b = any_ymd(s);
    let (da, db) = (to_date(a), to_date(b));
    let c = DayCounter::european();
    ensures!(s, c.year_fraction(&da, &db, &da, &db) == c.day_count(&da, &db) as f64 / 360.0, "count over 360");
}
