//! Calendars for the obligations: any market, any history of edits, and what the calendar must then say of each day.
use crate::obl::*;
use rust_quantlib::datetime::{
    businessdayconvention::BusinessDayConvention::{self, *},
    calendar::Calendar,
    date::Date,
    holidays::{
        brazil::Brazil, italy::Italy, japan::Japan, nilholiday::NilHoliday, switzerland::Switzerland, target::Target,
        unitedkingdom::UnitedKingdom, unitedstates::UnitedStates, weekendsonly::WeekendsOnly,
    },
    timeunit::TimeUnit::{self, *},
};

pub const MARKETS: i32 = 18;
pub fn market(k: i32) -> Calendar {
    match k {
        0 => NilHoliday::new(),
        1 => WeekendsOnly::new(),
        2 => Target::new(),
        3 => UnitedKingdom::new(),
        4 => UnitedKingdom::exchange(),
        5 => UnitedKingdom::metals(),
        6 => UnitedStates::settlement(),
        7 => UnitedStates::libor_impact(),
        8 => UnitedStates::nyse(),
        9 => UnitedStates::government_bond(),
        10 => UnitedStates::nerc(),
        11 => UnitedStates::federal_reserve(),
        12 => Italy::new(),
        13 => Italy::exchange(),
        14 => Switzerland::new(),
        15 => Brazil::new(),
        16 => Brazil::exchange(),
        _ => Japan::new(),
    }
}
/// a calendar and the edits made to it
pub struct Edited {
    pub cal: Calendar,
    pub base: Calendar,
    /// (day, true = added as a holiday)
    pub edits: Vec<(i32, bool)>,
}
impl Edited {
    pub fn of(k: i32) -> Edited {
        Edited { cal: market(k), base: market(k), edits: vec![] }
    }
    pub fn edit(&mut self, day: i32, add: bool) {
        if day < MIN || day > MAX {
            return;
        }
        if add {
            self.cal.add_holiday(Date::from_serial(day));
        } else {
            self.cal.remove_holiday(Date::from_serial(day));
        }
        self.edits.push((day, add));
    }
    /// the last edit of the day decides, or else the market
    pub fn biz(&self, day: i32) -> bool {
        match self.edits.iter().rev().find(|e| e.0 == day) {
            Some(e) => !e.1,
            None => !self.base.is_holiday(&Date::from_serial(day)),
        }
    }
    pub fn next(&self, s: i32) -> Option<i32> {
        (s..=MAX.min(s + 250)).find(|x| self.biz(*x))
    }
    pub fn prev(&self, s: i32) -> Option<i32> {
        (MIN.max(s - 250)..=s).rev().find(|x| self.biz(*x))
    }
    pub fn adjusted(&self, s: i32, c: BusinessDayConvention) -> Option<i32> {
        match c {
            Unadjusted => return Some(s),
            Following => return self.next(s),
            Preceding => return self.prev(s),
            _ => {}
        }
        let (n, p) = (self.next(s)?, self.prev(s)?);
        let (dn, dp, d) = (civil(n), civil(p), civil(s));
        let month = |x: &Ymd| month_index(x.y, x.m);
        Some(match c {
            ModifiedFollowing => {
                if month(&dn) == month(&d) {
                    n
                } else {
                    p
                }
            }
            ModifiedPreceding => {
                if month(&dp) == month(&d) {
                    p
                } else {
                    n
                }
            }
            HalfMonthModifiedFollowing => {
                if month(&dn) == month(&d) && (d.d > 15 || dn.d <= 15) {
                    n
                } else {
                    p
                }
            }
            _ => {
                if n - s <= s - p {
                    n
                } else {
                    p
                }
            }
        })
    }
    /// n business days on
    pub fn walked(&self, s: i32, n: i32) -> Option<i32> {
        let mut d = s;
        let mut k = n.abs();
        while k > 0 {
            d = if n > 0 { self.next(d + 1)? } else { self.prev(d - 1)? };
            k -= 1;
        }
        Some(d)
    }
    /// no business day of the month comes after s
    pub fn at_end_of_month(&self, s: i32) -> bool {
        !(s + 1..=month_end(s)).any(|x| self.biz(x))
    }
    pub fn advanced(&self, s: i32, n: i32, u: TimeUnit, c: BusinessDayConvention, eom: bool) -> Option<i32> {
        if n == 0 {
            return self.adjusted(s, c);
        }
        if u == Days {
            return self.walked(s, n);
        }
        let t = moved(s, n, u)?;
        if eom && u != Weeks {
            if s == MAX || self.next(s + 1).is_none() {
                return None;
            }
            if self.at_end_of_month(s) {
                return self.prev(month_end(t));
            }
        }
        self.adjusted(t, c)
    }
}
pub fn civil(s: i32) -> Ymd {
    // the year by estimate and correction, then the month
    let mut y = 1900 + (s - 2) / 366;
    while serial(y + 1, 1, 1) <= s {
        y += 1;
    }
    let mut m = 1;
    while m < 12 && serial(y, m + 1, 1) <= s {
        m += 1;
    }
    Ymd { y, m, d: s - serial(y, m, 1) + 1 }
}
pub fn month_end(s: i32) -> i32 {
    let x = civil(s);
    serial(x.y, x.m, mlen(x.y, x.m))
}
/// calendar-free date arithmetic
pub fn moved(s: i32, n: i32, u: TimeUnit) -> Option<i32> {
    let r = match u {
        Days => s as i64 + n as i64,
        Weeks => s as i64 + 7 * n as i64,
        _ => {
            let x = civil(s);
            let k = month_index(x.y, x.m) as i64 + n as i64 * if u == Years { 12 } else { 1 };
            if k < 1900 * 12 || k >= 2200 * 12 {
                return None;
            }
            let (y, m) = ((k / 12) as i32, (k % 12) as i32 + 1);
            serial(y, m, clamp_day(y, m, x.d)) as i64
        }
    };
    if r < MIN as i64 || r > MAX as i64 {
        None
    } else {
        Some(r as i32)
    }
}
pub fn convention<S: Src>(s: &mut S) -> BusinessDayConvention {
    match s.int(0, 6) {
        0 => Following,
        1 => ModifiedFollowing,
        2 => Preceding,
        3 => ModifiedPreceding,
        4 => Unadjusted,
        5 => HalfMonthModifiedFollowing,
        _ => Nearest,
    }
}
/// any calendar, edited around the day c: single days added or removed, and runs of closed days
pub fn any_edited<S: Src>(s: &mut S, c: i32) -> Edited {
    let k = s.int(0, MARKETS - 1);
    let mut e = Edited::of(k);
    disturb(s, &mut e, c);
    e
}
pub fn disturb<S: Src>(s: &mut S, e: &mut Edited, c: i32) {
    let mode = s.int(0, 3);
    if mode == 1 || mode == 3 {
        let a = c - s.int(0, 12);
        let b = c + s.int(0, 12);
        for x in a..=b {
            e.edit(x, true);
        }
    }
    if mode >= 2 {
        for _ in 0..s.int(1, 8) {
            let x = c + s.int(-16, 16);
            e.edit(x, s.boolean());
        }
    }
}
