//! The holiday rules of every market, stated from its documentation in terms of nominal days and observances.
//! Independent of the code: no day-of-month windows, no tables of the library.
use crate::obl::*;

pub const SUN: i32 = 1;
pub const MON: i32 = 2;
pub const TUE: i32 = 3;
pub const WED: i32 = 4;
pub const THU: i32 = 5;
pub const FRI: i32 = 6;
pub const SAT: i32 = 7;

/// a day of the calendar: civil date, serial number, weekday (Sunday = 1), days from the Sunday of Easter
#[derive(Clone, Copy)]
pub struct Day {
    pub y: i32,
    pub m: i32,
    pub d: i32,
    pub n: i32,
    pub w: i32,
    pub e: i32,
}

/// month * 100 + day of the Western Easter Sunday (Gregorian computus, Meeus/Jones/Butcher)
pub const fn western(y: i32) -> i32 {
    let a = y % 19;
    let b = y / 100;
    let c = y % 100;
    let d = b / 4;
    let e = b % 4;
    let f = (b + 8) / 25;
    let g = (b - f + 1) / 3;
    let h = (19 * a + b - d - g + 15) % 30;
    let i = c / 4;
    let k = c % 4;
    let l = (32 + 2 * e + 2 * i - h - k) % 7;
    let m = (a + 11 * h + 22 * l) / 451;
    let n = h + l - 7 * m + 114;
    n / 31 * 100 + n % 31 + 1
}
/// day of the year of the Orthodox Easter Sunday in the Gregorian calendar (Julian computus, Meeus)
pub const fn orthodox(y: i32) -> i32 {
    let a = y % 4;
    let b = y % 7;
    let c = y % 19;
    let d = (19 * c + 15) % 30;
    let e = (2 * a + 4 * b - d + 34) % 7;
    let n = d + e + 114;
    let (month, day) = (n / 31, n % 31 + 1);
    // Julian to Gregorian: 13 days from March 1900, 14 from March 2100
    let shift = y / 100 - y / 400 - 2;
    let before = if month == 3 { 59 } else { 90 };
    before + day + shift + gregorian_leap(y)
}
const fn gregorian_leap(y: i32) -> i32 {
    if y % 400 == 0 || (y % 4 == 0 && y % 100 != 0) {
        1
    } else {
        0
    }
}
pub const fn western_day_of_year(y: i32) -> i32 {
    let x = western(y);
    (if x / 100 == 3 { 59 } else { 90 }) + x % 100 + gregorian_leap(y)
}
const fn tabulate() -> [i32; 300] {
    let mut t = [0; 300];
    let mut i = 0;
    while i < 300 {
        t[i] = western_day_of_year(1900 + i as i32);
        i += 1;
    }
    t
}
const WESTERN: [i32; 300] = tabulate();

impl Day {
    pub fn of(x: Ymd) -> Day {
        let n = x.serial();
        Day { y: x.y, m: x.m, d: x.d, n, w: wday(n), e: x.doy() - WESTERN[(x.y - 1900) as usize] }
    }
    fn weekend(&self) -> bool {
        self.w == SAT || self.w == SUN
    }
    fn weekday_of(&self, m: i32, d: i32) -> i32 {
        wday(serial(self.y, m, d))
    }
    fn on(&self, m: i32, d: i32) -> bool {
        self.m == m && self.d == d
    }
    /// one day of one year
    fn at(&self, y: i32, m: i32, d: i32) -> bool {
        self.y == y && self.on(m, d)
    }
    /// the day m/d, observed on the Monday if it is a Sunday
    fn or_monday(&self, m: i32, d: i32) -> bool {
        self.m == m && (self.d == d || (self.d == d + 1 && self.weekday_of(m, d) == SUN))
    }
    /// the day m/d, observed on the Monday if it is a Sunday and on the Friday if it is a Saturday
    fn or_nearest(&self, m: i32, d: i32) -> bool {
        self.or_monday(m, d) || (self.m == m && self.d == d - 1 && self.weekday_of(m, d) == SAT)
    }
    /// the k-th weekday w of month m
    fn nth(&self, m: i32, w: i32, k: i32) -> bool {
        self.m == m && self.w == w && (self.d + 6) / 7 == k
    }
    /// the last weekday w of month m
    fn last(&self, m: i32, w: i32) -> bool {
        self.m == m && self.w == w && self.d + 7 > mlen(self.y, m)
    }
    /// k days after Easter Sunday
    fn easter(&self, k: i32) -> bool {
        self.e == k
    }
}

pub fn target(x: &Day) -> bool {
    x.on(1, 1)
        || x.on(12, 25)
        || x.y >= 2000 && (x.easter(-2) || x.easter(1) || x.on(5, 1) || x.on(12, 26))
        || x.at(1998, 12, 31)
        || x.at(1999, 12, 31)
        || x.at(2001, 12, 31)
}

pub fn united_kingdom(x: &Day) -> bool {
    // New Year's Day, moved to the Monday from a weekend
    let new_year = x.weekday_of(1, 1);
    if x.on(1, 1) || (new_year == SUN && x.on(1, 2)) || (new_year == SAT && x.on(1, 3)) {
        return true;
    }
    if x.easter(-2) || x.easter(1) {
        return true;
    }
    // Early May bank holiday, on V.E. day in 1995 and 2020
    if x.y == 1995 || x.y == 2020 {
        if x.on(5, 8) {
            return true;
        }
    } else if x.nth(5, MON, 1) {
        return true;
    }
    // Spring bank holiday, in the jubilee years next to the jubilee's day
    match x.y {
        2002 => {
            if x.on(6, 3) || x.on(6, 4) {
                return true;
            }
        }
        2012 => {
            if x.on(6, 4) || x.on(6, 5) {
                return true;
            }
        }
        2022 => {
            if x.on(6, 2) || x.on(6, 3) {
                return true;
            }
        }
        _ => {
            if x.last(5, MON) {
                return true;
            }
        }
    }
    // Summer bank holiday
    if x.last(8, MON) {
        return true;
    }
    // Christmas and Boxing Day; one at a weekend is made up two days later
    for d in [25, 26] {
        let w = x.weekday_of(12, d);
        if x.on(12, d) || ((w == SAT || w == SUN) && x.on(12, d + 2)) {
            return true;
        }
    }
    x.at(1999, 12, 31) || x.at(2011, 4, 29) || x.at(2022, 9, 19) || x.at(2023, 5, 8)
}

fn new_year_us(x: &Day) -> bool {
    x.or_monday(1, 1)
}
fn martin_luther_king(x: &Day) -> bool {
    x.nth(1, MON, 3)
}
fn washington(x: &Day) -> bool {
    if x.y >= 1971 {
        x.nth(2, MON, 3)
    } else {
        x.or_nearest(2, 22)
    }
}
fn memorial(x: &Day) -> bool {
    if x.y >= 1971 {
        x.last(5, MON)
    } else {
        x.or_nearest(5, 30)
    }
}
fn juneteenth(x: &Day) -> bool {
    x.y >= 2022 && x.or_nearest(6, 19)
}
fn labor(x: &Day) -> bool {
    x.nth(9, MON, 1)
}
fn columbus(x: &Day) -> bool {
    x.y >= 1971 && x.nth(10, MON, 2)
}
fn veterans(x: &Day, saturday: bool) -> bool {
    if x.y > 1970 && x.y < 1978 {
        x.nth(10, MON, 4)
    } else if saturday {
        x.or_nearest(11, 11)
    } else {
        x.or_monday(11, 11)
    }
}
fn thanksgiving(x: &Day) -> bool {
    x.nth(11, THU, 4)
}
fn without_independence_day(x: &Day) -> bool {
    new_year_us(x)
        // New Year's Day of the next year, moved back from a Saturday
        || (x.on(12, 31) && wday(x.n + 1) == SAT)
        || (x.y >= 1983 && martin_luther_king(x))
        || washington(x)
        || memorial(x)
        || juneteenth(x)
        || labor(x)
        || columbus(x)
        || veterans(x, true)
        || thanksgiving(x)
        || x.or_nearest(12, 25)
}
pub fn us_settlement(x: &Day) -> bool {
    without_independence_day(x) || x.or_nearest(7, 4)
}
pub fn us_libor(x: &Day) -> bool {
    without_independence_day(x) || if x.y >= 2015 { x.on(7, 4) } else { x.or_nearest(7, 4) }
}
pub fn us_nyse(x: &Day) -> bool {
    // election day: the Tuesday after the first Monday of November
    let election = x.m == 11 && x.w == TUE && x.d >= 2 && x.d <= 8;
    new_year_us(x)
        || (x.y >= 1998 && martin_luther_king(x))
        || washington(x)
        || x.easter(-2)
        || memorial(x)
        || juneteenth(x)
        || x.or_nearest(7, 4)
        || labor(x)
        || (election && (x.y <= 1968 || (x.y <= 1980 && x.y % 4 == 0)))
        || thanksgiving(x)
        || x.or_nearest(12, 25)
        || us_nyse_special(x)
}
fn us_nyse_special(x: &Day) -> bool {
    // the paperwork crisis: closed on Wednesdays from 12 June 1968 to the end of the year
    if x.y == 1968 && x.w == WED && (x.m > 6 || (x.m == 6 && x.d >= 12)) {
        return true;
    }
    let special = [
        (2018, 12, 5),
        (2012, 10, 29),
        (2012, 10, 30),
        (2007, 1, 2),
        (2004, 6, 11),
        (2001, 9, 11),
        (2001, 9, 12),
        (2001, 9, 13),
        (2001, 9, 14),
        (1994, 4, 27),
        (1985, 9, 27),
        (1977, 7, 14),
        (1973, 1, 25),
        (1972, 12, 28),
        (1969, 7, 21),
        (1969, 3, 31),
        (1969, 2, 10),
        (1968, 7, 5),
        (1968, 4, 9),
        (1963, 11, 25),
        (1961, 5, 29),
        (1958, 12, 26),
        (1954, 12, 24),
        (1956, 12, 24),
        (1965, 12, 24),
    ];
    let mut i = 0;
    while i < special.len() {
        let (y, m, d) = special[i];
        if x.at(y, m, d) {
            return true;
        }
        i += 1;
    }
    false
}
pub fn us_government_bond(x: &Day) -> bool {
    new_year_us(x)
        || (x.y >= 1983 && martin_luther_king(x))
        || washington(x)
        || (x.easter(-2) && x.y != 2015)
        || memorial(x)
        || juneteenth(x)
        || x.or_nearest(7, 4)
        || labor(x)
        || columbus(x)
        || veterans(x, false)
        || thanksgiving(x)
        || x.or_nearest(12, 25)
        || x.at(2018, 12, 5)
        || x.at(2012, 10, 30)
        || x.at(2004, 6, 11)
}
pub fn us_nerc(x: &Day) -> bool {
    new_year_us(x) || memorial(x) || x.or_monday(7, 4) || labor(x) || thanksgiving(x) || x.or_monday(12, 25)
}
pub fn us_federal_reserve(x: &Day) -> bool {
    us_nerc(x)
        || (x.y >= 1983 && martin_luther_king(x))
        || washington(x)
        || juneteenth(x)
        || columbus(x)
        || veterans(x, false)
}

pub fn italy(x: &Day) -> bool {
    x.on(1, 1)
        || x.on(1, 6)
        || x.easter(1)
        || x.on(4, 25)
        || x.on(5, 1)
        || (x.y >= 2000 && x.on(6, 2))
        || x.on(8, 15)
        || x.on(11, 1)
        || x.on(12, 8)
        || x.on(12, 25)
        || x.on(12, 26)
        || x.at(1999, 12, 31)
}
pub fn italy_exchange(x: &Day) -> bool {
    x.on(1, 1)
        || x.easter(-2)
        || x.easter(1)
        || x.on(5, 1)
        || x.on(8, 15)
        || x.on(12, 24)
        || x.on(12, 25)
        || x.on(12, 26)
        || x.on(12, 31)
}
pub fn switzerland(x: &Day) -> bool {
    x.on(1, 1)
        || x.on(1, 2)
        || x.easter(-2)
        || x.easter(1)
        || x.easter(39)
        || x.easter(50)
        || x.on(5, 1)
        || x.on(8, 1)
        || x.on(12, 25)
        || x.on(12, 26)
}
pub fn brazil(x: &Day) -> bool {
    x.on(1, 1)
        || x.on(4, 21)
        || x.on(5, 1)
        || x.on(9, 7)
        || x.on(10, 12)
        || x.on(11, 2)
        || x.on(11, 15)
        || x.on(12, 25)
        || x.easter(-2)
        || x.easter(-48)
        || x.easter(-47)
        || x.easter(60)
}
pub fn brazil_exchange(x: &Day) -> bool {
    // the last weekday of the year
    let last = x.m == 12 && !x.weekend() && (x.d == 31 || (x.w == FRI && x.d >= 29));
    brazil(x) || x.on(1, 25) || x.on(7, 9) || (x.y >= 2007 && x.on(11, 20)) || x.on(12, 24) || last
}

/// day of the month of the vernal (autumnal) equinox, in units of a millionth of a day
const fn equinox(y: i32, at_2000: i32) -> i32 {
    let k = y - 2000;
    let leaps = k.div_euclid(4) - k.div_euclid(100) + k.div_euclid(400);
    (at_2000 + 242_194 * k - 1_000_000 * leaps).div_euclid(1_000_000)
}
const fn equinoxes(at_2000: i32) -> [i32; 300] {
    let mut t = [0; 300];
    let mut i = 0;
    while i < 300 {
        t[i] = equinox(1900 + i as i32, at_2000);
        i += 1;
    }
    t
}
const VERNAL: [i32; 300] = equinoxes(20_691_150);
const AUTUMNAL: [i32; 300] = equinoxes(23_090_000);
pub fn japan(x: &Day) -> bool {
    let vernal = VERNAL[(x.y - 1900) as usize];
    let autumnal = AUTUMNAL[(x.y - 1900) as usize];
    let olympics = x.y == 2020 || x.y == 2021;
    // New Year
    if x.on(1, 1) || x.on(1, 2) || x.on(1, 3) || x.on(12, 31) {
        return true;
    }
    // Coming of Age Day
    if if x.y >= 2000 { x.nth(1, MON, 2) } else { x.or_monday(1, 15) } {
        return true;
    }
    // National Foundation Day, Emperor's Birthday (Naruhito, Akihito)
    if x.or_monday(2, 11) || (x.y >= 2020 && x.or_monday(2, 23)) || (x.y >= 1989 && x.y <= 2018 && x.or_monday(12, 23)) {
        return true;
    }
    // Vernal Equinox, Greenery Day
    if x.or_monday(3, vernal) || x.or_monday(4, 29) {
        return true;
    }
    // 3 to 5 May; one of them on a Sunday is made up on the 6th
    if x.on(5, 3) || x.on(5, 4) || x.on(5, 5) {
        return true;
    }
    if x.on(5, 6) && (x.weekday_of(5, 3) == SUN || x.weekday_of(5, 4) == SUN || x.weekday_of(5, 5) == SUN) {
        return true;
    }
    // Marine Day
    if x.y >= 2003 && !olympics && x.nth(7, MON, 3) || (x.y >= 1996 && x.y < 2003 && x.or_monday(7, 20)) {
        return true;
    }
    // Mountain Day
    if x.y >= 2016 && !olympics && x.or_monday(8, 11) {
        return true;
    }
    // Respect for the Aged Day
    if if x.y >= 2003 { x.nth(9, MON, 3) } else { x.or_monday(9, 15) } {
        return true;
    }
    // Autumnal Equinox, and the day between it and Respect for the Aged Day
    if x.or_monday(9, autumnal) {
        return true;
    }
    if x.y >= 2003 && x.on(9, autumnal - 1) && x.w == TUE && (x.d - 1 + 6) / 7 == 3 {
        return true;
    }
    // Health and Sports Day
    if x.y >= 2000 && !olympics && x.nth(10, MON, 2) || (x.y < 2000 && x.or_monday(10, 10)) {
        return true;
    }
    // the Olympic games
    if x.at(2020, 7, 23) || x.at(2020, 7, 24) || x.at(2020, 8, 10) || x.at(2021, 7, 22) || x.at(2021, 7, 23) || x.at(2021, 8, 9) {
        return true;
    }
    // Culture Day, Labor Thanksgiving Day
    if x.or_monday(11, 3) || x.or_monday(11, 23) {
        return true;
    }
    // one-shot holidays
    x.at(1959, 4, 10)
        || x.at(1989, 2, 24)
        || x.at(1990, 11, 12)
        || x.at(1993, 6, 9)
        || x.at(2019, 4, 30)
        || x.at(2019, 5, 1)
        || x.at(2019, 5, 2)
        || x.at(2019, 10, 22)
}

/// the market with number k (see cal::market) is closed on the day
pub fn closed(k: i32, x: &Day) -> bool {
    if k == 0 {
        return false;
    }
    x.weekend()
        || match k {
            1 => false,
            2 => target(x),
            3 | 4 | 5 => united_kingdom(x),
            6 => us_settlement(x),
            7 => us_libor(x),
            8 => us_nyse(x),
            9 => us_government_bond(x),
            10 => us_nerc(x),
            11 => us_federal_reserve(x),
            12 => italy(x),
            13 => italy_exchange(x),
            14 => switzerland(x),
            15 => brazil(x),
            16 => brazil_exchange(x),
            _ => japan(x),
        }
}
