//! The obligation language.  An obligation is a function over a source of inputs; it states the
//! preconditions (`requires!`), calls the real code through its public interface and states the
//! postconditions (`ensures!`), or that the call must be rejected (`rejects!`).
//! The same text is (1) proved by Kani for all inputs, (2) replayed on a counterexample against
//! the real build, (3) searched natively.
#![allow(dead_code, unused_macros, unused_imports)]

use rust_quantlib::datetime::{date::Date, months::Month, weekday::Weekday};

pub trait Src {
    /// any integer in lo..=hi
    fn int(&mut self, lo: i32, hi: i32) -> i32;
    /// any finite real in lo..=hi
    fn real(&mut self, lo: f64, hi: f64) -> f64;
    fn boolean(&mut self) -> bool {
        self.int(0, 1) == 1
    }
    /// a stopped search case (precondition not met); never returns natively
    fn skip(&mut self);
    fn note(&mut self, _what: &'static str) {}
}

#[cfg(kani)]
pub struct KaniSrc;
#[cfg(kani)]
impl Src for KaniSrc {
    fn int(&mut self, lo: i32, hi: i32) -> i32 {
        // drawn as 16 bytes so that the values can be told apart in a concrete playback
        let r: u128 = kani::any();
        let r = r as i32;
        kani::assume(r >= lo && r <= hi);
        r
    }
    fn real(&mut self, lo: f64, hi: f64) -> f64 {
        let r: u128 = kani::any();
        let r = f64::from_bits(r as u64);
        kani::assume(r >= lo && r <= hi);
        r
    }
    fn skip(&mut self) {
        kani::assume(false);
    }
}

#[cfg(not(kani))]
pub struct Failed(pub &'static str);
#[cfg(not(kani))]
pub struct Skipped;

#[macro_export]
macro_rules! requires {
    ($s:expr, $c:expr) => {
        if !$c {
            $s.skip();
        }
    };
}

#[macro_export]
macro_rules! ensures {
    ($s:expr, $c:expr, $n:literal) => {{
        let c: bool = $c;
        #[cfg(kani)]
        kani::assert(c, concat!("ensures:", $n));
        #[cfg(not(kani))]
        {
            let _ = &$s;
            if !c {
                std::panic::panic_any($crate::obl::Failed($n));
            }
        }
    }};
}

/// the call must not return normally; must be the last statement of an obligation marked `reject`
#[macro_export]
macro_rules! rejects {
    ($s:expr, $e:expr, $n:literal) => {{
        #[cfg(kani)]
        {
            let r = $e;
            kani::assert(false, concat!("rejects:", $n));
            let _ = r;
        }
        #[cfg(not(kani))]
        {
            let _ = &$s;
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let _r = $e;
            }));
            match r {
                Ok(()) => std::panic::panic_any($crate::obl::Failed($n)),
                Err(p) => {
                    if p.is::<$crate::obl::Skipped>() || p.is::<$crate::obl::Failed>() {
                        std::panic::resume_unwind(p)
                    }
                }
            }
        }
    }};
}

// ---------------------------------------------------------------------------------------------
// specification functions (independent of the code under test)

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Ymd {
    pub y: i32,
    pub m: i32,
    pub d: i32,
}

pub fn leap(y: i32) -> bool {
    y % 400 == 0 || (y % 4 == 0 && y % 100 != 0)
}
pub fn mlen(y: i32, m: i32) -> i32 {
    match m {
        2 => {
            if leap(y) {
                29
            } else {
                28
            }
        }
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}
/// day of the year, 1-based
pub fn doy(y: i32, m: i32, d: i32) -> i32 {
    let before = match m {
        1 => 0,
        2 => 31,
        3 => 59,
        4 => 90,
        5 => 120,
        6 => 151,
        7 => 181,
        8 => 212,
        9 => 243,
        10 => 273,
        11 => 304,
        _ => 334,
    };
    before + d + if m > 2 && leap(y) { 1 } else { 0 }
}
/// serial number: days since 1899-12-30 in the proleptic Gregorian calendar (1900-01-01 is 2)
pub fn serial(y: i32, m: i32, d: i32) -> i32 {
    let n = y - 1;
    365 * (y - 1900) + (n / 4 - 474) - (n / 100 - 18) + (n / 400 - 4) + doy(y, m, d) + 1
}
pub fn valid(y: i32, m: i32, d: i32) -> bool {
    y >= 1900 && y <= 2199 && m >= 1 && m <= 12 && d >= 1 && d <= mlen(y, m)
}
/// weekday number, Sunday = 1 .. Saturday = 7 (serial 2, 1900-01-01, was a Monday)
pub fn wday(serial: i32) -> i32 {
    let r = serial % 7;
    if r == 0 {
        7
    } else {
        r
    }
}
/// month arithmetic with a clamped day
pub fn month_index(y: i32, m: i32) -> i32 {
    y * 12 + (m - 1)
}
pub fn clamp_day(y: i32, m: i32, d: i32) -> i32 {
    let l = mlen(y, m);
    if d < l {
        d
    } else {
        l
    }
}

pub const MIN: i32 = 2;
pub const MAX: i32 = 109574;

/// any civil date of the supported range
pub fn any_ymd<S: Src>(s: &mut S) -> Ymd {
    ymd_between(s, 1900, 2199)
}
pub fn ymd_between<S: Src>(s: &mut S, y0: i32, y1: i32) -> Ymd {
    let y = s.int(y0, y1);
    let m = s.int(1, 12);
    let d = s.int(1, 31);
    if d > mlen(y, m) {
        s.skip();
    }
    Ymd { y, m, d }
}
pub fn to_date(x: Ymd) -> Date {
    Date::new(x.d as u32, Month::from(x.m), x.y)
}
pub fn ymd_of(d: &Date) -> Ymd {
    Ymd { y: d.year(), m: d.month() as i32, d: d.day_of_month() as i32 }
}
impl Ymd {
    pub fn serial(&self) -> i32 {
        serial(self.y, self.m, self.d)
    }
    pub fn wday(&self) -> i32 {
        wday(self.serial())
    }
    pub fn doy(&self) -> i32 {
        doy(self.y, self.m, self.d)
    }
    pub fn is(&self, d: &Date) -> bool {
        d.year() == self.y && d.month() as i32 == self.m && d.day_of_month() as i32 == self.d
    }
}
/// the date `d` is a well formed value and stands for the day with this serial number
pub fn is_day(d: &Date, serial_number: i32) -> bool {
    d.serial_number() == serial_number
        && valid(d.year(), d.month() as i32, d.day_of_month() as i32)
        && serial(d.year(), d.month() as i32, d.day_of_month() as i32) == serial_number
}
pub fn any_month<S: Src>(s: &mut S) -> Month {
    Month::from(s.int(1, 12))
}
pub fn weekday_of(n: i32) -> Weekday {
    match n {
        1 => Weekday::Sunday,
        2 => Weekday::Monday,
        3 => Weekday::Tuesday,
        4 => Weekday::Wednesday,
        5 => Weekday::Thursday,
        6 => Weekday::Friday,
        _ => Weekday::Saturday,
    }
}

#[cfg(kani)]
pub fn fixed_random_state() -> std::hash::RandomState {
    unsafe { std::mem::transmute([0u64; 2]) }
}
