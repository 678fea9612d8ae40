//! C24: rounding and closeness
use crate::obl::*;
use rust_quantlib::maths::{
    comparison::{close, close_enough, close_n},
    rounding::Rounding,
};

const RULES: i32 = 5;
fn rounding(rule: i32, precision: i32, digit: i32) -> Rounding {
    match rule {
        0 => Rounding::up(precision, digit),
        1 => Rounding::down(precision, digit),
        2 => Rounding::closest(precision, digit),
        3 => Rounding::floor(precision, digit),
        4 => Rounding::ceiling(precision, digit),
        _ => Rounding::none(),
    }
}
/// how many steps the magnitude `k + f` (0 <= f < 1 is the part past the precision) of a number is rounded to
fn steps(rule: i32, digit: i32, negative: bool, k: i64, f: f64) -> i64 {
    let past = f >= digit as f64 / 10.0;
    let up = match rule {
        0 => f > 0.0,
        1 => false,
        2 => past,
        3 => past && !negative,
        _ => past && negative,
    };
    k + up as i64
}
fn pow10(p: i32) -> f64 {
    10f64.powi(p)
}
/// k multiples of ten to the minus p
fn multiple(k: i64, p: i32) -> f64 {
    if p >= 0 {
        k as f64 / pow10(p)
    } else {
        k as f64 * pow10(-p)
    }
}
fn same(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-12 * a.abs().max(b.abs())
}

//@ native
pub fn the_rule_selects_the_adjacent_multiple<S: Src>(s: &mut S) {
    let k = s.int(0, 300_000) as i64;
    let k = if s.boolean() { k } else { k * 1000 + s.int(0, 999) as i64 };
    let p = s.int(-3, 8);
    let digit = s.int(1, 9);
    // the part past the precision, in thousandths
    let f = s.int(0, 999);
    let rule = s.int(0, RULES - 1);
    let negative = s.boolean();
    // at the rounding digit itself machine numbers lie on either side, unless they are exact
    requires!(s, f != 100 * digit || (digit == 5 && p == 0));
    let v = multiple(k, p) + multiple(f as i64, p + 3);
    let v = if negative { -v } else { v };
    let r = rounding(rule, p, digit);
    let want = multiple(steps(rule, digit, v < 0.0, k, f as f64 / 1000.0), p);
    let want = if negative { -want } else { want };
    let got = r.round(v);
    ensures!(s, same(got, want), "the adjacent multiple of the step that rule and digit select");
    ensures!(s, same(r.round(got), got), "idempotent");
    ensures!(s, rounding(5, p, digit).round(v) == v, "no rounding leaves the value alone");
    if rule <= 2 {
        ensures!(s, r.round(-v) == -r.round(v), "odd");
    } else {
        // floor and ceiling are each other's mirror image
        requires!(s, v != 0.0);
        ensures!(s, rounding(7 - rule, p, digit).round(-v) == -r.round(v), "mirrored");
    }
}

//@ native
pub fn multiples_stay_where_they_are<S: Src>(s: &mut S) {
    let k = s.int(-200_000, 199_999) as i64;
    let k = if s.boolean() { k } else { k * 10_000 + s.int(0, 9999) as i64 };
    let p = s.int(-3, 8);
    let v = multiple(k, p);
    for rule in 0..RULES {
        let digit = s.int(1, 9);
        ensures!(s, same(rounding(rule, p, digit).round(v), v), "a multiple of the step is left alone");
    }
}

//@ native
pub fn any_value_goes_to_a_neighbour<S: Src>(s: &mut S) {
    let v = s.real(-1e9, 1e9);
    let p = s.int(-2, 5);
    let rule = s.int(0, RULES - 1);
    let digit = s.int(1, 9);
    let r = rounding(rule, p, digit);
    let step = multiple(1, p);
    let got = r.round(v);
    let slack = 1e-14 * v.abs();
    ensures!(s, (got - v).abs() <= step + slack, "within one step");
    let k = got / step;
    ensures!(s, (k - k.round()).abs() <= 1e-9 * k.abs().max(1.0), "a multiple of the step");
    match rule {
        0 => ensures!(s, got.abs() >= v.abs() - slack, "up goes away from zero"),
        1 => ensures!(s, got.abs() <= v.abs() + slack, "down goes towards zero"),
        2 if digit == 5 => ensures!(s, (got - v).abs() <= step / 2.0 + slack, "closest is closest"),
        _ => {}
    }
    ensures!(s, same(r.round(got), got), "idempotent");
}

const EPS: f64 = f64::EPSILON;
fn within(x: f64, y: f64, n: f64, both: bool) -> bool {
    let d = (x - y).abs();
    let t = n * EPS;
    if x == y {
        return true;
    }
    if x == 0.0 || y == 0.0 {
        return d < t * t;
    }
    if both {
        d <= t * x.abs() && d <= t * y.abs()
    } else {
        d <= t * x.abs() || d <= t * y.abs()
    }
}
/// a pair of numbers some machine epsilons apart
fn pair<S: Src>(s: &mut S) -> (f64, f64) {
    let x = match s.int(0, 5) {
        0 => 0.0,
        1 => s.int(-10, 10) as f64,
        2 => s.real(-1e-12, 1e-12),
        3 => s.real(-1e300, 1e300),
        4 => s.int(-100, 100) as f64 * EPS * EPS,
        _ => s.real(-10.0, 10.0),
    };
    let y = match s.int(0, 4) {
        0 => x,
        1 => -x,
        2 => x + s.int(-100, 100) as f64 * EPS * x,
        3 => x * (1.0 + s.int(-100, 100) as f64 * EPS),
        _ => s.real(-10.0, 10.0),
    };
    if s.boolean() {
        (x, y)
    } else {
        (y, x)
    }
}

//@ native
pub fn closeness_is_a_distance_in_machine_epsilons<S: Src>(s: &mut S) {
    let n = s.int(0, 100);
    let (x, y) = pair(s);
    ensures!(s, close(x, y) == within(x, y, 42.0, true), "close: within 42 epsilons of both");
    ensures!(s, close_enough(x, y) == within(x, y, 42.0, false), "close enough: within 42 epsilons of either");
    ensures!(s, close_n(x, y, n as usize) == within(x, y, n as f64, true), "close by n");
    ensures!(s, close(x, y) == close(y, x) && close_enough(x, y) == close_enough(y, x) && close_n(x, y, n as usize) == close_n(y, x, n as usize), "symmetric");
    ensures!(s, close(x, x) && close_enough(x, x) && close_n(x, x, 0), "reflexive");
    ensures!(s, !close(x, y) || close_enough(x, y), "close numbers are close enough");
}

//@ native
pub fn closeness_of_infinities<S: Src>(s: &mut S) {
    let x = if s.boolean() { f64::INFINITY } else { f64::NEG_INFINITY };
    ensures!(s, close(x, x) && close_enough(x, x) && close_n(x, x, 3), "equal values");
}
