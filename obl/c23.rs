//! C23: one-dimensional solvers
use crate::obl::*;
use rust_quantlib::maths::solvers1d::{brent::Brent, finitedifferencenewtonsafe::FiniteDifferenceNewtonSafe, newtonsafe::NewtonSafe, solver1d::Solver1D};
use std::cell::Cell;

#[derive(Clone, Copy)]
struct Bounds {
    lo: f64,
    up: f64,
    lo_on: bool,
    up_on: bool,
}
const FREE: Bounds = Bounds { lo: 0.0, up: 0.0, lo_on: false, up_on: false };
impl Bounds {
    fn inside(&self, x: f64) -> bool {
        (!self.lo_on || x >= self.lo) && (!self.up_on || x <= self.up)
    }
}
/// a call of one of the solvers
#[derive(Clone, Copy)]
enum Call {
    Bracketed { guess: f64, xmin: f64, xmax: f64 },
    Scan { guess: f64, step: f64 },
}
fn call<T: Solver1D>(solver: T, f: &dyn Fn(f64) -> f64, g: &dyn Fn(f64) -> f64, accuracy: f64, c: Call) -> f64 {
    match c {
        Call::Bracketed { guess, xmin, xmax } => solver.solve_bracketed(f, g, accuracy, guess, xmin, xmax),
        Call::Scan { guess, step } => solver.solve(f, g, accuracy, guess, step),
    }
}
fn solve(which: i32, b: Bounds, max: usize, f: &dyn Fn(f64) -> f64, g: &dyn Fn(f64) -> f64, accuracy: f64, c: Call) -> f64 {
    match which {
        0 => call(Brent::new(b.lo, b.up, b.lo_on, b.up_on), f, g, accuracy, c),
        1 => call(FiniteDifferenceNewtonSafe::new(b.lo, b.up, b.lo_on, b.up_on), f, g, accuracy, c),
        2 => call(NewtonSafe::new(b.lo, b.up, b.lo_on, b.up_on, max), f, g, accuracy, c),
        _ => call(NewtonSafe::with_max_evaluations(max), f, g, accuracy, c),
    }
}

/// increasing functions of a distance, their zero at zero, with derivative
fn shape(kind: i32, k: f64, t: f64) -> (f64, f64) {
    match kind {
        0 => (t, 1.0),
        1 => ((k * t).exp() - 1.0, k * (k * t).exp()),
        2 => (1.0 - (-k * t).exp(), k * (-k * t).exp()),
        3 => (t + k * t * t * t, 1.0 + 3.0 * k * t * t),
        4 => ((k * t).atan(), k / (1.0 + k * k * t * t)),
        5 => (t * t * t, 3.0 * t * t),
        6 => (t * t.abs(), 2.0 * t.abs()),
        _ => (t.cbrt(), if t == 0.0 { 1e9 } else { 1.0 / (3.0 * t.cbrt() * t.cbrt()) }),
    }
}
struct Problem {
    kind: i32,
    k: f64,
    sign: f64,
    root: f64,
}
impl Problem {
    fn at(&self, x: f64) -> f64 {
        self.sign * shape(self.kind, self.k, x - self.root).0
    }
    fn slope(&self, x: f64) -> f64 {
        self.sign * shape(self.kind, self.k, x - self.root).1
    }
    /// the slope varies by less than a factor of two over the interval
    fn tame(&self, a: f64, b: f64) -> bool {
        self.steepness(a, b) < 1.8
    }
    /// the largest slope over the smallest
    fn steepness(&self, a: f64, b: f64) -> f64 {
        let mut lo = f64::INFINITY;
        let mut hi = 0.0;
        for i in 0..=16 {
            let d = self.slope(a + (b - a) * i as f64 / 16.0).abs();
            lo = d.min(lo);
            hi = d.max(hi);
        }
        let d = self.slope(self.root).abs();
        hi.max(d) / lo.min(d)
    }
}
fn problem<S: Src>(s: &mut S, kinds: i32) -> Problem {
    Problem {
        kind: s.int(0, kinds),
        k: s.int(1, 40) as f64 / 10.0,
        sign: if s.boolean() { 1.0 } else { -1.0 },
        root: if s.boolean() { s.int(-40, 40) as f64 / 8.0 } else { s.real(-10.0, 10.0) },
    }
}
fn accuracy<S: Src>(s: &mut S) -> f64 {
    10f64.powi(-s.int(1, 14))
}
fn near(x: f64, root: f64, accuracy: f64) -> bool {
    (x - root).abs() <= accuracy.max(f64::EPSILON) * 1.000001 + 8.0 * f64::EPSILON * (x.abs() + root.abs() + 1.0)
}
/// what `answers` may panic with
fn answer(f: impl FnOnce() -> f64) -> Option<f64> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}

//@ native
pub fn brent_is_within_the_accuracy_of_the_crossing<S: Src>(s: &mut S) {
    let p = problem(s, 7);
    let (l, r) = (s.int(1, 300) as f64 / 64.0, s.int(1, 300) as f64 / 64.0);
    let (xmin, xmax) = (p.root - l, p.root + r);
    let guess = xmin + (xmax - xmin) * s.int(1, 255) as f64 / 256.0;
    let acc = accuracy(s);
    let f = |x: f64| p.at(x);
    let g = |x: f64| p.slope(x);
    if let Some(x) = answer(|| solve(0, FREE, 100, &f, &g, acc, Call::Bracketed { guess, xmin, xmax })) {
        ensures!(s, x >= xmin && x <= xmax, "inside the bracket");
        ensures!(s, near(x, p.root, acc) || p.at(x).abs() < 1e-28, "within the accuracy of the crossing");
    } else {
        ensures!(s, p.kind > 4, "an answer for a simple zero");
    }
}

//@ native
pub fn safe_newton_is_within_the_accuracy_on_tame_functions<S: Src>(s: &mut S) {
    let p = problem(s, 4);
    let (l, r) = (s.int(1, 100) as f64 / 64.0, s.int(1, 100) as f64 / 64.0);
    let (xmin, xmax) = (p.root - l, p.root + r);
    requires!(s, p.tame(xmin, xmax));
    let guess = xmin + (xmax - xmin) * s.int(1, 255) as f64 / 256.0;
    let acc = accuracy(s);
    let which = s.int(1, 3);
    let f = |x: f64| p.at(x);
    let g = |x: f64| p.slope(x);
    let x = answer(|| solve(which, FREE, 100, &f, &g, acc, Call::Bracketed { guess, xmin, xmax }));
    ensures!(s, x.is_some(), "an answer");
    let x = x.unwrap();
    ensures!(s, x >= xmin - 1e-12 && x <= xmax + 1e-12, "inside the bracket");
    ensures!(s, near(x, p.root, acc), "within the accuracy of the crossing");
}

//@ native
pub fn any_answer_is_in_the_bracket_and_near_a_crossing<S: Src>(s: &mut S) {
    let p = problem(s, 7);
    let (l, r) = (s.int(1, 300) as f64 / 64.0, s.int(1, 300) as f64 / 64.0);
    let (xmin, xmax) = (p.root - l, p.root + r);
    let guess = xmin + (xmax - xmin) * s.int(1, 255) as f64 / 256.0;
    let acc = accuracy(s);
    let which = s.int(0, 3);
    let max = s.int(3, 100) as usize;
    let b = Bounds { lo: xmin - s.int(0, 2) as f64, up: xmax + s.int(0, 2) as f64, lo_on: s.boolean(), up_on: s.boolean() };
    let evaluations = Cell::new(0usize);
    let f = |x: f64| {
        evaluations.set(evaluations.get() + 1);
        if evaluations.get() > 2000 {
            // the solver does not stop
            std::panic::panic_any(Failed("the evaluation limit"));
        }
        p.at(x)
    };
    let g = |x: f64| p.slope(x);
    let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| solve(which, b, max, &f, &g, acc, Call::Bracketed { guess, xmin, xmax })));
    let limit = if which < 2 { 100 } else { max };
    match got {
        Ok(x) => {
            ensures!(s, x >= xmin - 1e-12 && x <= xmax + 1e-12 && (b.inside(x) || b.inside(x - 1e-12) || b.inside(x + 1e-12)), "inside the bracket and bounds");
            // the last step of a safe Newton method is short: the crossing is as near as the slopes tell
            let slack = if which == 0 { 1.0 } else { 2.0 * p.steepness(xmin, xmax) };
            ensures!(s, (which > 0 && p.kind > 4) || near(x, p.root, acc * slack) || p.at(x).abs() < 1e-28, "near the crossing");
            ensures!(s, evaluations.get() <= 2 * limit + 5, "within the evaluation limit");
        }
        Err(e) => {
            if e.is::<Failed>() {
                std::panic::resume_unwind(e);
            }
            ensures!(s, evaluations.get() <= 2 * limit + 5, "stops at the evaluation limit");
        }
    }
}

//@ native
pub fn scanning_finds_a_bracket_within_the_bounds<S: Src>(s: &mut S) {
    let p = problem(s, 3);
    let guess = p.root + s.int(-200, 200) as f64 / 64.0;
    let step = s.int(1, 128) as f64 / 64.0;
    let acc = accuracy(s);
    let which = s.int(0, 3);
    let room = s.int(0, 400) as f64 / 64.0;
    let b = Bounds { lo: p.root.min(guess) - room, up: p.root.max(guess) + s.int(0, 400) as f64 / 64.0, lo_on: s.boolean(), up_on: s.boolean() };
    let b = if which == 3 { FREE } else { b };
    let seen = Cell::new((guess, guess));
    let f = |x: f64| {
        seen.set((x.min(seen.get().0), x.max(seen.get().1)));
        p.at(x)
    };
    let g = |x: f64| p.slope(x);
    if let Some(x) = answer(|| solve(which, b, 100, &f, &g, acc, Call::Scan { guess, step })) {
        ensures!(s, b.inside(x), "inside the enforced bounds");
        let slack = if which == 0 { 1.0 } else { 2.0 * p.steepness(seen.get().0, seen.get().1) };
        ensures!(s, near(x, p.root, acc * slack) || p.at(x).abs() < 1e-28, "near the crossing");
    } else {
        // an end point held by a bound, and slopes which differ too much, can keep the scan from reaching the zero
        ensures!(s, p.kind != 0 || b.lo_on || b.up_on, "a straight line is always crossed");
    }
}

//@ native
pub fn scanning_from_a_flat_stretch_stays_within_the_bounds<S: Src>(s: &mut S) {
    // level around the guess, then straight down (or up) through zero
    let level = s.int(1, 80) as f64 / 8.0;
    let level = if s.boolean() { level } else { -level };
    let left = s.boolean();
    let guess = s.int(-80, 80) as f64 / 8.0;
    let (edge, slope) = (s.int(0, 160) as f64 / 8.0, s.int(1, 64) as f64 / 8.0);
    let f = |x: f64| {
        let d = if left { guess - x } else { x - guess };
        level - level.signum() * slope * (d - edge).max(0.0)
    };
    let root = level.abs() / slope + edge;
    let root = if left { guess - root } else { guess + root };
    let b = Bounds { lo: guess - s.int(0, 240) as f64 / 8.0, up: guess + s.int(0, 240) as f64 / 8.0, lo_on: s.boolean(), up_on: s.boolean() };
    let acc = accuracy(s);
    let c = Call::Scan { guess, step: s.int(1, 64) as f64 / 8.0 };
    if let Some(x) = answer(|| solve(0, b, 100, &f, &|_| 0.0, acc, c)) {
        ensures!(s, b.inside(x), "inside the enforced bounds");
        ensures!(s, near(x, root, acc), "near the crossing");
    }
}

//@ native
pub fn a_zero_at_an_end_point_is_returned<S: Src>(s: &mut S) {
    let p = problem(s, 4);
    let w = s.int(1, 300) as f64 / 64.0;
    let left = s.boolean();
    let root = (p.root * 64.0).round() / 64.0;
    let p = Problem { root, ..p };
    let (xmin, xmax) = if left { (root, root + w) } else { (root - w, root) };
    let f = |x: f64| p.at(x);
    let g = |x: f64| p.slope(x);
    let which = s.int(0, 3);
    let x = solve(which, FREE, 100, &f, &g, accuracy(s), Call::Bracketed { guess: (xmin + xmax) / 2.0, xmin, xmax });
    ensures!(s, x == root, "the end point");
    let x = solve(which, FREE, 100, &f, &g, accuracy(s), Call::Scan { guess: root, step: w });
    ensures!(s, x == root, "the guess");
}

//@ native
pub fn functions_which_cross_several_times<S: Src>(s: &mut S) {
    let which = s.int(0, 1);
    let phase = s.real(-3.0, 3.0);
    let (xmin, w) = (s.int(-100, 100) as f64 / 16.0, s.int(1, 300) as f64 / 16.0);
    let xmax = xmin + w;
    let f = |x: f64| (x + phase).sin();
    let g = |x: f64| (x + phase).cos();
    requires!(s, f(xmin) * f(xmax) < 0.0);
    let guess = xmin + w * s.int(1, 255) as f64 / 256.0;
    let acc = accuracy(s);
    if let Some(x) = answer(|| solve(which * 2, FREE, 100, &f, &g, acc, Call::Bracketed { guess, xmin, xmax })) {
        ensures!(s, x >= xmin - 1e-12 && x <= xmax + 1e-12, "inside the bracket");
        let root = ((x + phase) / std::f64::consts::PI).round() * std::f64::consts::PI - phase;
        ensures!(s, near(x, root, acc * if which == 0 { 1.0 } else { 10.0 }), "near a crossing");
    }
}

fn refused<S: Src>(s: &mut S, p: &Problem, b: Bounds, acc: f64, c: Call) {
    let which = s.int(0, 2);
    let f = |x: f64| p.at(x);
    let g = |x: f64| p.slope(x);
    rejects!(s, solve(which, b, 100, &f, &g, acc, c), "no answer");
}
//@ native reject
pub fn an_interval_without_a_crossing_is_rejected<S: Src>(s: &mut S) {
    let p = problem(s, 7);
    let a = s.int(1, 300) as f64 / 64.0;
    let w = s.int(1, 300) as f64 / 64.0;
    let (xmin, xmax) = if s.boolean() { (p.root + a, p.root + a + w) } else { (p.root - a - w, p.root - a) };
    let acc = accuracy(s);
    refused(s, &p, FREE, acc, Call::Bracketed { guess: xmin + w / 2.0, xmin, xmax });
}
//@ native reject
pub fn inconsistent_arguments_are_rejected<S: Src>(s: &mut S) {
    let p = problem(s, 4);
    let (l, r) = (s.int(1, 300) as f64 / 64.0, s.int(1, 300) as f64 / 64.0);
    let (xmin, xmax) = (p.root - l, p.root + r);
    let off = s.int(0, 20) as f64 / 64.0;
    let acc = accuracy(s);
    let mid = (xmin + xmax) / 2.0;
    match s.int(0, 6) {
        0 => refused(s, &p, FREE, -off, Call::Bracketed { guess: mid, xmin, xmax }),
        1 => refused(s, &p, FREE, -off, Call::Scan { guess: mid, step: 1.0 }),
        2 => refused(s, &p, FREE, acc, Call::Bracketed { guess: mid, xmin: xmax, xmax: xmin }),
        3 => refused(s, &p, Bounds { lo: xmin + off + 1e-9, up: 0.0, lo_on: true, up_on: false }, acc, Call::Bracketed { guess: mid, xmin, xmax }),
        4 => refused(s, &p, Bounds { lo: 0.0, up: xmax - off - 1e-9, lo_on: false, up_on: true }, acc, Call::Bracketed { guess: mid, xmin, xmax }),
        5 => refused(s, &p, FREE, acc, Call::Bracketed { guess: xmin - off, xmin, xmax }),
        _ => refused(s, &p, FREE, acc, Call::Bracketed { guess: xmax + off, xmin, xmax }),
    }
}
//@ native reject
pub fn a_function_without_zero_is_rejected<S: Src>(s: &mut S) {
    let up = if s.boolean() { 1.0 } else { -1.0 };
    let k = s.int(1, 40) as f64;
    let guess = s.int(-100, 100) as f64 / 16.0;
    let step = s.int(1, 64) as f64 / 16.0;
    let which = s.int(0, 3);
    let acc = accuracy(s);
    let max = s.int(0, 100) as usize;
    let f = |x: f64| up * (x * x + k / 16.0);
    let g = |x: f64| up * 2.0 * x;
    rejects!(s, solve(which, FREE, max, &f, &g, acc, Call::Scan { guess, step }), "no answer");
}
//@ native reject
pub fn an_exceeded_evaluation_limit_is_rejected<S: Src>(s: &mut S) {
    // the zero is further than the permitted number of halvings or steps can bring the solver
    let max = s.int(0, 6) as usize;
    let root = s.int(1, 100) as f64 / 128.0;
    let f = |x: f64| (x - root).signum() * (x - root).abs().powf(0.1);
    let g = |_x: f64| 1e-9;
    rejects!(s, solve(2, FREE, max, &f, &g, 1e-12, Call::Bracketed { guess: 0.7153, xmin: -1.0, xmax: 1.3 }), "no answer");
}
