//! C02: day arithmetic, differences, order, equality and hashing of dates
use crate::obl::*;
use rust_quantlib::datetime::{date::Date, period::Period, timeunit::TimeUnit};
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

//@ kani
pub fn add_days<S: Src>(s: &mut S) {
    let a = s.int(MIN, MAX);
    let b = s.int(MIN, MAX);
    let d = Date::from_serial(a);
    let r = d + (b - a);
    ensures!(s, is_day(&r, b), "date + n is n days later");
    ensures!(s, r - d == b - a, "(date + n) - date == n");
}

//@ kani
pub fn add_days_to_a_reference<S: Src>(s: &mut S) {
    let a = s.int(MIN, MAX);
    let b = s.int(MIN, MAX);
    let d = Date::from_serial(a);
    let r = &d + (b - a);
    ensures!(s, is_day(&r, b), "&date + n is n days later");
    ensures!(s, &r - &d == b - a, "difference of references");
}

//@ kani
pub fn subtract_days<S: Src>(s: &mut S) {
    let a = s.int(MIN, MAX);
    let b = s.int(MIN, MAX);
    let d = Date::from_serial(a);
    let r = d - (a - b);
    ensures!(s, is_day(&r, b), "date - n is n days earlier");
}

//@ kani
pub fn subtract_days_from_a_reference<S: Src>(s: &mut S) {
    let a = s.int(MIN, MAX);
    let b = s.int(MIN, MAX);
    let d = Date::from_serial(a);
    let r = &d - (a - b);
    ensures!(s, is_day(&r, b), "&date - n is n days earlier");
}

//@ kani
pub fn add_assign_days<S: Src>(s: &mut S) {
    let a = s.int(MIN, MAX);
    let b = s.int(MIN, MAX);
    let mut d = Date::from_serial(a);
    d += b - a;
    ensures!(s, is_day(&d, b), "date += n is n days later, in both representations");
}

//@ kani
pub fn subtract_assign_days<S: Src>(s: &mut S) {
    let a = s.int(MIN, MAX);
    let b = s.int(MIN, MAX);
    let mut d = Date::from_serial(a);
    d -= a - b;
    ensures!(s, is_day(&d, b), "date -= n is n days earlier, in both representations");
}

//@ kani
pub fn add_days_period<S: Src>(s: &mut S) {
    let a = s.int(MIN, MAX);
    let b = s.int(MIN, MAX);
    let d = Date::from_serial(a);
    ensures!(s, is_day(&(d + Period::new(b - a, TimeUnit::Days)), b), "date + days period");
}
//@ kani
pub fn subtract_days_period<S: Src>(s: &mut S) {
    let a = s.int(MIN, MAX);
    let b = s.int(MIN, MAX);
    let d = Date::from_serial(a);
    ensures!(s, is_day(&(d - Period::new(a - b, TimeUnit::Days)), b), "date - days period");
}

fn out_of_range<S: Src>(s: &mut S) -> (Date, i32) {
    let a = s.int(MIN, MAX);
    let n = s.int(-1_000_000, 1_000_000);
    requires!(s, a + n < MIN || a + n > MAX);
    (Date::from_serial(a), n)
}

//@ kani reject
pub fn add_rejects_leaving_the_range<S: Src>(s: &mut S) {
    let (d, n) = out_of_range(s);
    rejects!(s, d + n, "date + n out of range");
}
//@ kani reject
pub fn ref_add_rejects_leaving_the_range<S: Src>(s: &mut S) {
    let (d, n) = out_of_range(s);
    rejects!(s, &d + n, "&date + n out of range");
}
//@ kani reject
pub fn sub_rejects_leaving_the_range<S: Src>(s: &mut S) {
    let (d, n) = out_of_range(s);
    rejects!(s, d - (-n), "date - n out of range");
}
//@ kani reject
pub fn ref_sub_rejects_leaving_the_range<S: Src>(s: &mut S) {
    let (d, n) = out_of_range(s);
    rejects!(s, &d - (-n), "&date - n out of range");
}
//@ kani reject
pub fn add_assign_rejects_leaving_the_range<S: Src>(s: &mut S) {
    let (d, n) = out_of_range(s);
    rejects!(s, { let mut e = d; e += n; e }, "date += n out of range");
}
//@ kani reject
pub fn sub_assign_rejects_leaving_the_range<S: Src>(s: &mut S) {
    let (d, n) = out_of_range(s);
    rejects!(s, { let mut e = d; e -= -n; e }, "date -= n out of range");
}

//@ kani
pub fn difference_in_days<S: Src>(s: &mut S) {
    let a = s.int(MIN, MAX);
    let b = s.int(MIN, MAX);
    let (d, e) = (Date::from_serial(a), Date::from_serial(b));
    ensures!(s, e - d == b - a && &e - &d == b - a, "difference in days");
    ensures!(s, Date::days_between(&d, &e) == (b - a) as f64, "days between");
}

//@ kani
pub fn order_and_equality<S: Src>(s: &mut S) {
    let a = s.int(MIN, MAX);
    let b = s.int(MIN, MAX);
    let (d, e) = (Date::from_serial(a), Date::from_serial(b));
    ensures!(s, (d == e) == (a == b) && (d != e) == (a != b), "equality");
    ensures!(s, (d < e) == (a < b) && (d <= e) == (a <= b), "less than");
    ensures!(s, (d > e) == (a > b) && (d >= e) == (a >= b), "greater than");
    ensures!(s, d.cmp(&e) == a.cmp(&b) && d.partial_cmp(&e) == Some(a.cmp(&b)), "total order");
    let (hi, lo) = (d.max(e), d.min(e));
    ensures!(s, hi.serial_number() == a.max(b) && lo.serial_number() == a.min(b), "min and max");
}

//@ kani
pub fn order_is_chronological<S: Src>(s: &mut S) {
    let x = any_ymd(s);
    let z = any_ymd(s);
    let (d, e) = (to_date(x), to_date(z));
    let chrono = x.y < z.y || (x.y == z.y && (x.m < z.m || (x.m == z.m && x.d < z.d)));
    ensures!(s, (d < e) == chrono, "chronological order");
    ensures!(s, (d == e) == (x == z), "equal exactly when day, month and year are");
}

struct Rec(u64, u32);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        let mut i = 0;
        while i < b.len() {
            self.0 = (self.0 << 8) ^ (self.0 >> 56) ^ b[i] as u64;
            self.1 += 1;
            i += 1;
        }
    }
    fn write_i32(&mut self, x: i32) {
        self.0 = self.0.rotate_left(32) ^ x as u32 as u64;
        self.1 += 4;
    }
    fn write_i64(&mut self, x: i64) {
        self.0 = self.0.rotate_left(32) ^ x as u64;
        self.1 += 8;
    }
    fn write_u32(&mut self, x: u32) {
        self.0 = self.0.rotate_left(32) ^ x as u64;
        self.1 += 4;
    }
}
fn h(d: &Date) -> (u64, u32) {
    let mut r = Rec(0, 0);
    d.hash(&mut r);
    (r.0, r.1)
}

//@ kani unwind=20
pub fn equal_dates_hash_equally_however_obtained<S: Src>(s: &mut S) {
    let a = s.int(MIN, MAX);
    let b = s.int(MIN, MAX);
    let d = Date::from_serial(b);
    let e = Date::from_serial(a) + (b - a);
    ensures!(s, d == e, "the same day compares equal however it was obtained");
    ensures!(s, h(&d) == h(&e), "equal dates hash equally");
    let f = to_date(ymd_of(&d));
    ensures!(s, f == d && h(&f) == h(&d), "same for a date made from day, month and year");
}
