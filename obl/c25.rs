//! C25: maturities of credit default swaps
use crate::obl::*;
use rust_quantlib::datetime::{
    date::Date,
    dategenerationrule::DateGenerationRule::{self, *},
    period::Period,
    schedule::previous_twentieth,
    timeunit::TimeUnit::{self, *},
};
use rust_quantlib::instruments::creditdefaultswap::cds_maturity;

const RULES: [DateGenerationRule; 3] = [CDS, OldCDS, CDS2015];

fn rule<S: Src>(s: &mut S) -> (usize, DateGenerationRule) {
    let i = s.int(0, 2) as usize;
    (i, RULES[i])
}
fn twentieth(k: i32) -> i32 {
    serial(k / 12, k % 12 + 1, 20)
}
/// the month index of the latest roll up to a day: quarterly, and half-yearly in March and September for CDS2015
fn last_roll(x: Ymd, half_yearly: bool) -> i32 {
    let mut k = month_index(x.y, x.m);
    loop {
        let m = k % 12 + 1;
        let rolls = if half_yearly { m == 3 || m == 9 } else { m == 3 || m == 6 || m == 9 || m == 12 };
        if rolls && twentieth(k) <= x.serial() {
            return k;
        }
        k -= 1;
    }
}
fn in_range(k: i32) -> bool {
    k >= 12 * 1900 && k < 12 * 2200
}
/// a tenor of whole quarters, in months or years
fn tenor<S: Src>(s: &mut S) -> (i32, Period) {
    let years = s.boolean();
    let big = s.int(0, 9) == 0;
    let n = if big { s.int(-400, 1200) } else { s.int(-2, 44) };
    if years {
        (12 * n, Period::new(n, Years))
    } else {
        (3 * n, Period::new(3 * n, Months))
    }
}

//@ native
pub fn the_maturity_is_a_tenor_after_the_roll<S: Src>(s: &mut S) {
    let x = any_ymd(s);
    let (i, r) = rule(s);
    let (n, p) = tenor(s);
    requires!(s, x.serial() > serial(1901, 1, 1));
    requires!(s, r != OldCDS || n != 0);
    let roll = last_roll(x, i == 2);
    let k = roll + n + 3;
    // every date on the way is a date of the range
    requires!(s, in_range(k) && in_range(roll + n));
    let want = twentieth(k);
    // the quarter before a half-yearly roll ends with it
    let zero = i == 2 && n == 0 && twentieth(roll + 3) <= x.serial();
    requires!(s, zero || want > x.serial());
    let m = cds_maturity(&to_date(x), p, r);
    if zero {
        ensures!(s, m == Date::default(), "no maturity is left");
    } else {
        ensures!(s, m.serial_number() == want, "the twentieth a tenor after the end of the quarter of the roll");
        ensures!(s, m > to_date(x), "after the trade date");
    }
}

//@ native reject
pub fn a_maturity_in_the_past_is_rejected<S: Src>(s: &mut S) {
    let x = any_ymd(s);
    let (i, r) = rule(s);
    let (n, p) = tenor(s);
    requires!(s, x.serial() > serial(1902, 1, 1) && n != 0);
    let roll = last_roll(x, i == 2);
    requires!(s, in_range(roll + n) && in_range(roll + n + 3) && twentieth(roll + n + 3) <= x.serial());
    rejects!(s, cds_maturity(&to_date(x), p, r), "a maturity not after the trade date");
}

//@ native reject
pub fn tenors_of_other_lengths_are_rejected<S: Src>(s: &mut S) {
    let x = ymd_between(s, 1950, 2100);
    let (_, r) = rule(s);
    let unit: TimeUnit = [Days, Weeks, Months][s.int(0, 2) as usize];
    let n = s.int(1, 100);
    requires!(s, unit != Months || n % 3 != 0);
    rejects!(s, cds_maturity(&to_date(x), Period::new(n, unit), r), "not a tenor of whole quarters");
}

//@ native reject
pub fn other_rules_are_rejected<S: Src>(s: &mut S) {
    let x = ymd_between(s, 1950, 2100);
    let r = [Backward, Forward, Zero, ThirdWednesday, Twentieth, TwentiethIMM][s.int(0, 5) as usize];
    let n = s.int(1, 40);
    rejects!(s, cds_maturity(&to_date(x), Period::new(n, Years), r), "not a rule of credit default swaps");
}

//@ native reject
pub fn a_zero_tenor_is_rejected_under_the_old_rule<S: Src>(s: &mut S) {
    let x = ymd_between(s, 1950, 2100);
    let u = if s.boolean() { Years } else { Months };
    rejects!(s, cds_maturity(&to_date(x), Period::new(0, u), OldCDS), "a zero tenor");
}

//@ native
pub fn the_previous_twentieth_is_the_latest<S: Src>(s: &mut S) {
    let x = any_ymd(s);
    let r = [Twentieth, TwentiethIMM, OldCDS, CDS, CDS2015][s.int(0, 4) as usize];
    requires!(s, x.serial() > serial(1900, 4, 20));
    let got = previous_twentieth(&to_date(x), r).serial_number();
    let mut k = month_index(x.y, x.m);
    while twentieth(k) > x.serial() || (r != Twentieth && (k + 1) % 3 != 0) {
        k -= 1;
    }
    ensures!(s, got == twentieth(k), "the latest twentieth of its months up to the day");
}
