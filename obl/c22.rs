//! C22: binary searches and interpolation
use crate::obl::*;
use rust_quantlib::maths::{
    bounds::{lower_bound, upper_bound},
    interpolations::{interpolation::Interpolation, lagrangeinterpolation::LagrangeInterpolation, linearinterpolation::LinearInterpolation},
};

fn sorted_list<S: Src>(s: &mut S) -> Vec<i32> {
    let n = s.int(0, 12);
    let mut v = Vec::new();
    let mut at = s.int(-20, 20);
    for _ in 0..n {
        v.push(at);
        at += s.int(0, 4) * s.int(0, 1);
    }
    v
}

//@ native
pub fn searches_return_the_first_position<S: Src>(s: &mut S) {
    let v = sorted_list(s);
    let x = s.int(-25, 75);
    let below = v.iter().filter(|y| **y < x).count();
    let upto = v.iter().filter(|y| **y <= x).count();
    ensures!(s, lower_bound(&v, x) == below, "first position not less");
    ensures!(s, upper_bound(&v, x) == upto, "first position greater");
    let w: Vec<f64> = v.iter().map(|y| *y as f64 / 8.0).collect();
    let z = x as f64 / 8.0;
    ensures!(s, lower_bound(&w, z) == below, "first position not less, reals");
    ensures!(s, upper_bound(&w, z) == upto, "first position greater, reals");
}

/// a strictly increasing grid of n nodes, in quarters so that node arithmetic is exact
fn grid<S: Src>(s: &mut S, n: i32) -> Vec<f64> {
    let mut at = s.int(-40, 40);
    let mut v = Vec::new();
    for _ in 0..n {
        v.push(at as f64 / 4.0);
        at += s.int(1, 12);
    }
    v
}
fn values<S: Src>(s: &mut S, n: i32) -> Vec<f64> {
    (0..n).map(|_| if s.boolean() { s.int(-50, 50) as f64 } else { s.real(-1e3, 1e3) }).collect()
}
fn same(a: f64, b: f64, scale: f64) -> bool {
    (a - b).abs() <= 1e-10 * scale
}
fn scale(v: &[f64]) -> f64 {
    v.iter().fold(1.0, |a, b| if b.abs() > a { b.abs() } else { a })
}

//@ native
pub fn linear_interpolation_returns_the_nodes<S: Src>(s: &mut S) {
    let n = s.int(2, 9);
    let x = grid(s, n);
    let y = values(s, n);
    let l = LinearInterpolation::new(&x, &y);
    for i in 0..n as usize {
        ensures!(s, same(l.value(x[i]), y[i], scale(&y)), "the value at a node");
        ensures!(s, same(l.value_with_extrapolation(x[i], true), y[i], scale(&y)), "the value at a node");
    }
    ensures!(s, l.xmin() == x[0] && l.xmax() == x[n as usize - 1], "the ends of the grid");
}

//@ native
pub fn linear_interpolation_lies_on_the_chord<S: Src>(s: &mut S) {
    let n = s.int(2, 9);
    let x = grid(s, n);
    let y = values(s, n);
    let l = LinearInterpolation::new(&x, &y);
    let i = s.int(0, n - 2) as usize;
    let t = s.int(1, 999) as f64 / 1000.0;
    let at = x[i] + t * (x[i + 1] - x[i]);
    let slope = (y[i + 1] - y[i]) / (x[i + 1] - x[i]);
    let sc = scale(&y);
    ensures!(s, l.is_in_range(at), "inside the grid");
    ensures!(s, same(l.value(at), (1.0 - t) * y[i] + t * y[i + 1], sc), "on the chord");
    ensures!(s, same(l.derivative(at), slope, 4.0 * sc), "its slope");
    ensures!(s, l.second_derivative(at) == 0.0, "straight");
    let mut area = 0.0;
    for k in 0..i {
        area += (x[k + 1] - x[k]) * (y[k + 1] + y[k]) / 2.0;
    }
    area += (at - x[i]) * (y[i] + l.value(at)) / 2.0;
    ensures!(s, same(l.primitive(at), area, 100.0 * sc), "the area under it");
    // a node belongs to the segment on its right, the last one to the last segment
    let k = s.int(0, n - 1) as usize;
    let r = if k == n as usize - 1 { k - 1 } else { k };
    ensures!(s, same(l.derivative(x[k]), (y[r + 1] - y[r]) / (x[r + 1] - x[r]), 4.0 * sc), "the slope at a node");
}

//@ native
pub fn linear_interpolation_extends_the_end_segments<S: Src>(s: &mut S) {
    let n = s.int(2, 9);
    let x = grid(s, n);
    let y = values(s, n);
    let l = LinearInterpolation::new(&x, &y);
    let m = n as usize;
    let h = s.int(1, 400) as f64 / 16.0;
    let sc = scale(&y) * (1.0 + 4.0 * h);
    let (a, b) = ((y[1] - y[0]) / (x[1] - x[0]), (y[m - 1] - y[m - 2]) / (x[m - 1] - x[m - 2]));
    ensures!(s, same(l.value_with_extrapolation(x[0] - h, true), y[0] - h * a, sc), "before the grid");
    ensures!(s, same(l.value_with_extrapolation(x[m - 1] + h, true), y[m - 1] + h * b, sc), "after the grid");
    ensures!(s, same(l.derivative_with_extrapolation(x[0] - h, true), a, sc), "slope before the grid");
    ensures!(s, same(l.derivative_with_extrapolation(x[m - 1] + h, true), b, sc), "slope after the grid");
    ensures!(s, !l.is_in_range(x[0] - h) && !l.is_in_range(x[m - 1] + h), "outside");
}

fn outside<S: Src>(s: &mut S, x: &[f64]) -> f64 {
    let h = if s.boolean() { s.int(1, 400) as f64 / 16.0 } else { 1e-9 * s.int(1, 1000) as f64 };
    if s.boolean() {
        x[0] - h
    } else {
        x[x.len() - 1] + h
    }
}
//@ native reject
pub fn linear_interpolation_rejects_arguments_outside<S: Src>(s: &mut S) {
    let n = s.int(2, 6);
    let x = grid(s, n);
    let y = values(s, n);
    let l = LinearInterpolation::new(&x, &y);
    let at = outside(s, &x);
    let which = s.int(0, 6);
    rejects!(s, match which {
        0 => l.value(at),
        1 => l.derivative(at),
        2 => l.primitive(at),
        3 => l.second_derivative(at),
        4 => l.derivative_with_extrapolation(at, false),
        5 => l.primitive_with_extrapolation(at, false),
        _ => l.value_with_extrapolation(at, false),
    }, "outside the grid");
}

//@ native
pub fn lagrange_interpolation_returns_the_nodes<S: Src>(s: &mut S) {
    let n = s.int(2, 9);
    let x = grid(s, n);
    let y = values(s, n);
    let l = LagrangeInterpolation::new(&x, &y);
    for i in 0..n as usize {
        ensures!(s, l.value(x[i]) == y[i], "the value at a node");
        ensures!(s, l.value_with_extrapolation(x[i], true) == y[i], "the value at a node");
    }
}

//@ native
pub fn lagrange_interpolation_reproduces_polynomials<S: Src>(s: &mut S) {
    let n = s.int(2, 6);
    let x = grid(s, n);
    let c: Vec<f64> = (0..s.int(1, n)).map(|_| s.int(-9, 9) as f64).collect();
    let p = |t: f64| c.iter().rev().fold(0.0, |a, b| a * t + b);
    let dp = |t: f64| c.iter().enumerate().skip(1).rev().fold(0.0, |a, (k, b)| a * t + k as f64 * b);
    let y: Vec<f64> = x.iter().map(|t| p(*t)).collect();
    let l = LagrangeInterpolation::new(&x, &y);
    let i = s.int(0, n - 2) as usize;
    let t = s.int(1, 999) as f64 / 1000.0;
    let at = x[i] + t * (x[i + 1] - x[i]);
    // rounding is amplified by the spread of the nodes
    let sc = 1e4 * scale(&y);
    ensures!(s, same(l.value(at), p(at), sc), "the polynomial through the nodes");
    ensures!(s, same(l.derivative(at), dp(at), 1e2 * sc), "its derivative");
    let k = s.int(0, n - 1) as usize;
    ensures!(s, same(l.derivative(x[k]), dp(x[k]), 1e2 * sc), "its derivative at a node");
    let h = s.int(1, 16) as f64 / 16.0;
    let out = if s.boolean() { x[0] - h } else { x[n as usize - 1] + h };
    let sc = 1e5 * scale(&y).max(p(out).abs());
    ensures!(s, same(l.value_with_extrapolation(out, true), p(out), sc), "outside the grid");
}

//@ native reject
pub fn lagrange_interpolation_rejects_arguments_outside<S: Src>(s: &mut S) {
    let n = s.int(2, 6);
    let x = grid(s, n);
    let y = values(s, n);
    let l = LagrangeInterpolation::new(&x, &y);
    let at = outside(s, &x);
    let which = s.int(0, 2);
    rejects!(s, match which {
        0 => l.value(at),
        1 => l.derivative(at),
        _ => l.value_with_extrapolation(at, false),
    }, "outside the grid");
}
