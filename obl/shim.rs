//! The contract assumed of chrono (chrono_shim) compared with the real chrono, natively.
use crate::obl::*;
use chrono::{DateTime, Datelike, Duration, TimeZone, Utc};

//@ native sweep
pub fn chrono_add_days_is_civil<S: Src>(s: &mut S) {
    let n = s.int(-36000, 146000);
    let min: DateTime<Utc> = Utc.with_ymd_and_hms(1900, 1, 1, 0, 0, 0).unwrap();
    let t = min + Duration::days(n as i64 - 2);
    let (y, m, d) = (t.year(), t.month() as i32, t.day() as i32);
    ensures!(s, y >= 1801 && y <= 2300 && m >= 1 && m <= 12 && d >= 1 && d <= mlen(y, m), "valid civil date");
    ensures!(s, serial(y, m, d) == n, "day number of the civil date");
    ensures!(s, t.ordinal() as i32 == doy(y, m, d), "ordinal");
    ensures!(s, t == Utc.with_ymd_and_hms(y, m as u32, d as u32, 0, 0, 0).unwrap(), "same instant");
    ensures!(s, t.weekday().num_days_from_sunday() as i32 + 1 == wday(n + 70_000), "weekday");
}

//@ native sweep
pub fn chrono_with_ymd_accepts_exactly_valid<S: Src>(s: &mut S) {
    let y = s.int(1801, 2300);
    for m in 0..14 {
        for d in 0..33 {
            let ok = Utc.with_ymd_and_hms(y, m, d, 0, 0, 0).single().is_some();
            let v = m >= 1 && m <= 12 && d >= 1 && d as i32 <= mlen(y, m as i32);
            ensures!(s, ok == v, "accepts exactly the valid dates");
        }
    }
}
