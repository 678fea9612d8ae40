//! Contract of the part of `chrono` that the date type relies on, used in place of chrono under
//! the verifier only (never by the native builds).  Each operation is replaced by its contract:
//! midnight UTC instants are identified with a day number (1900-01-01 is day 2) together with the
//! proleptic Gregorian civil date of that day.  `x + days` havocs a civil date and assumes it is
//! THE valid civil date of the resulting day number (the map is injective, see `day_number`).
//! Every check that uses this file also compares the contract with the real chrono over the whole
//! supported range (obl/shim.rs), natively.
use std::marker::PhantomData;
use std::ops::{Add, AddAssign, Sub, SubAssign};

pub const fn leap(y: i32) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}
pub const fn month_len(y: i32, m: u32) -> u32 {
    match m {
        2 => if leap(y) { 29 } else { 28 },
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}
pub fn ordinal0(y: i32, m: u32, d: u32) -> u32 {
    const C: [u32; 12] = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334];
    let mut r = C[((m - 1) & 15) as usize] + d - 1;
    if m > 2 && leap(y) {
        r += 1;
    }
    r
}
pub fn day_number(y: i32, m: u32, d: u32) -> i32 {
    let n = y - 1;
    365 * (y - 1900) + (n / 4 - 1899 / 4) - (n / 100 - 1899 / 100) + (n / 400 - 1899 / 400)
        + ordinal0(y, m, d) as i32 + 2
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub struct Utc;
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub struct DateTime<T> {
    days: i32,
    y: i32,
    m: u32,
    d: u32,
    _p: PhantomData<T>,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub struct TimeDelta {
    days: i64,
}
pub type Duration = TimeDelta;
impl TimeDelta {
    pub fn days(n: i64) -> Self {
        TimeDelta { days: n }
    }
    pub fn num_days(&self) -> i64 {
        self.days
    }
}
pub enum LocalResult<T> {
    None,
    Single(T),
}
impl<T> LocalResult<T> {
    pub fn unwrap(self) -> T {
        match self {
            Self::Single(t) => t,
            _ => panic!("no such local time"),
        }
    }
    pub fn single(self) -> Option<T> {
        match self {
            Self::Single(t) => Some(t),
            _ => None,
        }
    }
}
pub trait TimeZone: Sized {
    fn with_ymd_and_hms(&self, y: i32, m: u32, d: u32, h: u32, mi: u32, s: u32) -> LocalResult<DateTime<Self>> {
        assert!(h == 0 && mi == 0 && s == 0, "chrono contract: midnight only");
        assert!(y >= 1801 && y <= 2300, "chrono contract: year out of the modelled range");
        if m < 1 || m > 12 || d < 1 || d > month_len(y, m) {
            return LocalResult::None;
        }
        LocalResult::Single(DateTime { days: day_number(y, m, d), y, m, d, _p: PhantomData })
    }
}
impl TimeZone for Utc {}
impl Utc {
    pub fn now() -> DateTime<Utc> {
        #[cfg(kani)]
        {
            let days: i32 = kani::any();
            kani::assume(days >= 2 && days <= 109574);
            mk(days)
        }
        #[cfg(not(kani))]
        unreachable!()
    }
}
impl<T> DateTime<T> {
    pub fn to_rfc3339(&self) -> String {
        String::new()
    }
    pub fn signed_duration_since(self, r: DateTime<T>) -> TimeDelta {
        TimeDelta { days: self.days as i64 - r.days as i64 }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Weekday { Mon, Tue, Wed, Thu, Fri, Sat, Sun }
impl Weekday {
    pub fn num_days_from_sunday(&self) -> u32 { (*self as u32 + 1) % 7 }
    pub fn number_from_sunday(&self) -> u32 { self.num_days_from_sunday() + 1 }
    pub fn num_days_from_monday(&self) -> u32 { *self as u32 }
    pub fn number_from_monday(&self) -> u32 { *self as u32 + 1 }
}
pub trait Datelike {
    fn civil(&self) -> (i32, u32, u32, i32);
    fn year(&self) -> i32 { self.civil().0 }
    fn month(&self) -> u32 { self.civil().1 }
    fn month0(&self) -> u32 { self.civil().1 - 1 }
    fn day(&self) -> u32 { self.civil().2 }
    fn day0(&self) -> u32 { self.civil().2 - 1 }
    fn ordinal(&self) -> u32 {
        let (y, m, d, _) = self.civil();
        ordinal0(y, m, d) + 1
    }
    fn ordinal0(&self) -> u32 {
        let (y, m, d, _) = self.civil();
        ordinal0(y, m, d)
    }
    fn weekday(&self) -> Weekday {
        // day 2 (1900-01-01) was a Monday
        match (self.civil().3 + 700_000 - 2) % 7 {
            0 => Weekday::Mon, 1 => Weekday::Tue, 2 => Weekday::Wed, 3 => Weekday::Thu,
            4 => Weekday::Fri, 5 => Weekday::Sat, _ => Weekday::Sun,
        }
    }
}
impl<T> Datelike for DateTime<T> {
    fn civil(&self) -> (i32, u32, u32, i32) {
        (self.y, self.m, self.d, self.days)
    }
}
fn mk<T>(days: i32) -> DateTime<T> {
    #[cfg(kani)]
    {
        assert!(days >= -36000 && days <= 146000, "chrono contract: day out of the modelled range");
        let y: i32 = kani::any();
        let m: u32 = kani::any();
        let d: u32 = kani::any();
        kani::assume(y >= 1801 && y <= 2300 && m >= 1 && m <= 12 && d >= 1 && d <= month_len(y, m)
            && day_number(y, m, d) == days);
        DateTime { days, y, m, d, _p: PhantomData }
    }
    #[cfg(not(kani))]
    {
        let _ = days;
        unreachable!()
    }
}
impl<T> Add<TimeDelta> for DateTime<T> {
    type Output = Self;
    fn add(self, r: TimeDelta) -> Self {
        assert!(r.days >= -1_000_000_000 && r.days <= 1_000_000_000, "chrono contract: duration range");
        mk(self.days.checked_add(r.days as i32).unwrap())
    }
}
impl<T> Sub<TimeDelta> for DateTime<T> {
    type Output = Self;
    fn sub(self, r: TimeDelta) -> Self {
        self + TimeDelta { days: -r.days }
    }
}
impl<T> Sub for DateTime<T> {
    type Output = TimeDelta;
    fn sub(self, r: Self) -> TimeDelta {
        self.signed_duration_since(r)
    }
}
impl<T: Copy> AddAssign<TimeDelta> for DateTime<T> {
    fn add_assign(&mut self, r: TimeDelta) {
        *self = *self + r;
    }
}
impl<T: Copy> SubAssign<TimeDelta> for DateTime<T> {
    fn sub_assign(&mut self, r: TimeDelta) {
        *self = *self - r;
    }
}
