//! C26: arrays
use crate::obl::*;
use rust_quantlib::maths::array::Array;

fn value<S: Src>(s: &mut S) -> f64 {
    match s.int(0, 5) {
        0 => s.int(-3, 3) as f64,
        1 => s.real(-1e-6, 1e-6),
        2 => s.real(-1e12, 1e12),
        _ => s.real(-10.0, 10.0),
    }
}
fn values<S: Src>(s: &mut S, n: usize) -> Vec<f64> {
    (0..n).map(|_| value(s)).collect()
}
fn same(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 1e-13 * a.abs().max(b.abs())
}
fn is(r: &Array, want: Vec<f64>) -> bool {
    r.size() == want.len() && r.data.len() == want.len() && (0..want.len()).all(|i| same(r[i], want[i]))
}

//@ native
pub fn operations_of_two_arrays_act_on_each_position<S: Src>(s: &mut S) {
    let n = s.int(0, 12) as usize;
    let (a, b) = (values(s, n), values(s, n));
    let op = s.int(0, 3);
    let (x, y) = (Array::new(a.clone()), Array::new(b.clone()));
    let f = |g: fn(f64, f64) -> f64| -> Vec<f64> { (0..n).map(|i| g(a[i], b[i])).collect() };
    let (r, want) = match op {
        0 => (x + y, f(|p, q| p + q)),
        1 => (x - y, f(|p, q| p - q)),
        2 => (x * y, f(|p, q| p * q)),
        _ => (x / y, f(|p, q| p / q)),
    };
    ensures!(s, is(&r, want), "position by position");
}

//@ native
pub fn operations_with_a_number_act_on_each_position<S: Src>(s: &mut S) {
    let n = s.int(0, 12) as usize;
    let a = values(s, n);
    let c = value(s);
    let op = s.int(0, 3);
    let x = Array::new(a.clone());
    let f = |g: fn(f64, f64) -> f64| -> Vec<f64> { (0..n).map(|i| g(a[i], c)).collect() };
    let (r, want) = match op {
        0 => (x + c, f(|p, q| p + q)),
        1 => (x - c, f(|p, q| p - q)),
        2 => (x * c, f(|p, q| p * q)),
        _ => (x / c, f(|p, q| p / q)),
    };
    ensures!(s, is(&r, want), "position by position");
}

//@ native
pub fn functions_act_on_each_position<S: Src>(s: &mut S) {
    let n = s.int(0, 12) as usize;
    let a = values(s, n);
    let x = Array::new(a.clone());
    let p = [2.0, 0.5, -1.0, 3.0, 0.0, 1.7][s.int(0, 5) as usize];
    let f = |g: &dyn Fn(f64) -> f64| -> Vec<f64> { a.iter().map(|v| g(*v)).collect() };
    ensures!(s, is(&x.abs(), f(&|v| v.abs())), "absolute values");
    ensures!(s, is(&x.sqrt(), f(&|v| v.sqrt())), "square roots");
    ensures!(s, is(&x.exp(), f(&|v| v.exp())), "exponentials");
    ensures!(s, is(&x.pow(p), f(&|v| v.powf(p))), "powers");
    let l = x.log();
    ensures!(
        s,
        l.size() == n && (0..n).all(|i| (l[i] - a[i].ln()).abs() <= 1e-12 * a[i].ln().abs().max(1.0) || same(l[i], a[i].ln())),
        "natural logarithms"
    );
    ensures!(s, is(&x, a.clone()), "the array itself is left as it was");
    ensures!(s, x.empty() == (n == 0), "empty without elements");
    ensures!(s, is(&-x, f(&|v| -v)), "negatives");
}

//@ native
pub fn the_dot_product_sums_the_products<S: Src>(s: &mut S) {
    let n = s.int(0, 12) as usize;
    let (a, b) = (values(s, n), values(s, n));
    let (x, y) = (Array::new(a.clone()), Array::new(b.clone()));
    let size: f64 = (0..n).map(|i| (a[i] * b[i]).abs()).sum();
    let want: f64 = (0..n).map(|i| a[i] * b[i]).sum();
    ensures!(s, (x.dot_product(&y) - want).abs() <= 1e-13 * size, "the sum of the products");
    ensures!(s, (y.dot_product(&x) - want).abs() <= 1e-13 * size, "in either order");
    let sq: f64 = a.iter().map(|v| v * v).sum();
    ensures!(s, (x.norm2() - sq.sqrt()).abs() <= 1e-13 * sq.sqrt(), "the norm is the root of the product with itself");
}

//@ native
pub fn swapping_and_indexing<S: Src>(s: &mut S) {
    let (n, m) = (s.int(1, 8) as usize, s.int(0, 8) as usize);
    let (a, b) = (values(s, n), values(s, m));
    let i = s.int(0, 7) as usize;
    requires!(s, i < n);
    let v = value(s);
    let (mut x, mut y) = (Array::new(a.clone()), Array::new(b.clone()));
    x[i] = v;
    let mut a2 = a;
    a2[i] = v;
    ensures!(s, is(&x, a2.clone()), "one position is written");
    x.swap(&mut y);
    ensures!(s, is(&x, b) && is(&y, a2), "the contents change places");
}

//@ native reject
pub fn arrays_of_different_sizes_are_rejected<S: Src>(s: &mut S) {
    let (n, m) = (s.int(0, 6) as usize, s.int(0, 6) as usize);
    requires!(s, n != m);
    let (x, y) = (Array::new(values(s, n)), Array::new(values(s, m)));
    match s.int(0, 4) {
        0 => rejects!(s, x + y, "a sum"),
        1 => rejects!(s, x - y, "a difference"),
        2 => rejects!(s, x * y, "a product"),
        3 => rejects!(s, x / y, "a quotient"),
        _ => rejects!(s, x.dot_product(&y), "a dot product"),
    }
}
