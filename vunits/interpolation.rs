use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
use core::ops::*;
use core::cmp::Ordering;

verus! {

pub type Integer = i32;
pub type Size = usize;

//@include real.rs

impl Real {
    /// 2^-52
    #[verifier::external_body]
    pub fn epsilon() -> (r: Real)
        ensures r.v() == EPS(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Real)
        ensures r.v() == 0real,
    { unimplemented!() }
}
pub open spec fn EPS() -> real { 1real / 4503599627370496real }
pub open spec fn near(x: real, y: real, n: int, both: bool) -> bool {
    let d = rabs(x - y);
    let t = n as real * EPS();
    if x == y { true }
    else if x == 0real || y == 0real { d < t * t }
    else if both { d <= t * rabs(x) && d <= t * rabs(y) }
    else { d <= t * rabs(x) || d <= t * rabs(y) }
}
//@fn src/maths/comparison.rs "" close
//@real
//@ret r
//@sub "Real::EPSILON" => "Real::epsilon()"
    ensures r == near(x.v(), y.v(), 42, true),
//@end

// --- binary searches, for any ordered type
pub open spec fn at_least<T: PartialOrd>(a: T, b: T) -> bool { a.partial_cmp_spec(&b) == Some(Ordering::Greater) || a.partial_cmp_spec(&b) == Some(Ordering::Equal) }
pub open spec fn above<T: PartialOrd>(a: T, b: T) -> bool { a.partial_cmp_spec(&b) == Some(Ordering::Greater) }
//@fn src/maths/bounds.rs "" lower_bound
//@indexed
//@ret r
    requires T::obeys_partial_cmp_spec(),
    ensures r <= xs.len(), forall |k: int| 0 <= k < r ==> !at_least(#[trigger] xs[k], value), r < xs.len() ==> at_least(xs[r as int], value), r > 0 ==> !at_least(xs[r - 1], value),
//@loop 0 "for i in 0..xs.len()"
        invariant T::obeys_partial_cmp_spec(), forall |k: int| 0 <= k < i ==> !at_least(#[trigger] xs[k], value),
//@end
//@fn src/maths/bounds.rs "" upper_bound
//@indexed
//@ret r
    requires T::obeys_partial_cmp_spec(),
    ensures r <= xs.len(), forall |k: int| 0 <= k < r ==> !above(#[trigger] xs[k], value), r < xs.len() ==> above(xs[r as int], value), r > 0 ==> !above(xs[r - 1], value),
//@loop 0 "for i in 0..xs.len()"
        invariant T::obeys_partial_cmp_spec(), forall |k: int| 0 <= k < i ==> !above(#[trigger] xs[k], value),
//@end

// --- linear interpolation
//@type src/maths/interpolations/linearinterpolation.rs struct LinearInterpolation

pub open spec fn increasing(x: Seq<Real>) -> bool { forall |i: int, j: int| 0 <= i < j < x.len() ==> (#[trigger] x[i]).v() < (#[trigger] x[j]).v() }
pub open spec fn grid(x: Seq<Real>, y: Seq<Real>) -> bool { x.len() >= 2 && x.len() == y.len() && increasing(x) }
pub open spec fn slope(x: Seq<Real>, y: Seq<Real>, i: int) -> real { (y[i + 1].v() - y[i].v()) / (x[i + 1].v() - x[i].v()) }
/// the line through the i-th and the next node
pub open spec fn chord(x: Seq<Real>, y: Seq<Real>, i: int, at: real) -> real { y[i].v() + (at - x[i].v()) * slope(x, y, i) }
/// the area under that line from its first node
pub open spec fn area(x: Seq<Real>, y: Seq<Real>, i: int, at: real) -> real {
    let dx = at - x[i].v();
    dx * (y[i].v() + (1int as real / 2int as real) * dx * slope(x, y, i))
}
/// the area under the first k lines
pub open spec fn area_to(x: Seq<Real>, y: Seq<Real>, k: int) -> real
    decreases k,
{
    if k <= 0 { 0real } else { area_to(x, y, k - 1) + area(x, y, k - 1, x[k].v()) }
}
/// the segment whose nodes bracket the argument, the end ones extended
pub open spec fn segment(x: Seq<Real>, i: int, at: real) -> bool {
    &&& 0 <= i <= x.len() - 2
    &&& i > 0 ==> x[i].v() <= at
    &&& i < x.len() - 2 ==> at < x[i + 1].v()
}
pub open spec fn in_range(x: Seq<Real>, at: real) -> bool {
    let (a, b) = (x[0].v(), x[x.len() - 1].v());
    (a <= at && at <= b) || near(at, a, 42, true) || near(at, b, 42, true)
}
proof fn lemma_one_segment(x: Seq<Real>, i: int, j: int, at: real)
    requires increasing(x), segment(x, i, at), segment(x, j, at),
    ensures i == j,
{
    if i < j { assert(x[i + 1].v() <= x[j].v()); }
    if j < i { assert(x[j + 1].v() <= x[i].v()); }
}
proof fn lemma_chord_ends(x: Seq<Real>, y: Seq<Real>, i: int)
    requires grid(x, y), 0 <= i <= x.len() - 2,
    ensures chord(x, y, i, x[i].v()) == y[i].v(), chord(x, y, i, x[i + 1].v()) == y[i + 1].v(),
{
    let dx = x[i + 1].v() - x[i].v();
    let dy = y[i + 1].v() - y[i].v();
    let s = slope(x, y, i);
    assert(dx > 0real);
    assert(dx * s == dy) by (nonlinear_arith) requires s == dy / dx, dx > 0real;
    assert((x[i].v() - x[i].v()) * s == 0real) by (nonlinear_arith);
}
/// in between the value lies between those of the two nodes
proof fn lemma_chord_between(x: Seq<Real>, y: Seq<Real>, i: int, at: real)
    requires grid(x, y), 0 <= i <= x.len() - 2, x[i].v() <= at <= x[i + 1].v(),
    ensures
        y[i].v() <= y[i + 1].v() ==> y[i].v() <= chord(x, y, i, at) <= y[i + 1].v(),
        y[i + 1].v() <= y[i].v() ==> y[i + 1].v() <= chord(x, y, i, at) <= y[i].v(),
{
    let (h, dx) = (at - x[i].v(), x[i + 1].v() - x[i].v());
    let dy = y[i + 1].v() - y[i].v();
    let s = slope(x, y, i);
    assert(dx > 0real);
    assert(dx * s == dy) by (nonlinear_arith) requires s == dy / dx, dx > 0real;
    if dy >= 0real {
        assert(s >= 0real) by (nonlinear_arith) requires dx * s == dy, dx > 0real, dy >= 0real;
        assert(0real <= h * s <= dx * s) by (nonlinear_arith) requires 0real <= h <= dx, s >= 0real;
    }
    if dy <= 0real {
        assert(s <= 0real) by (nonlinear_arith) requires dx * s == dy, dx > 0real, dy <= 0real;
        assert(0real >= h * s >= dx * s) by (nonlinear_arith) requires 0real <= h <= dx, s <= 0real;
    }
}
impl<'a> LinearInterpolation<'a> {
    pub open spec fn valid(&self) -> bool {
        let (x, y) = (self.x@, self.y@);
        &&& grid(x, y)
        &&& self.s.len() == x.len() && self.primitive_const.len() == x.len()
        &&& forall |i: int| 0 <= i < x.len() - 1 ==> (#[trigger] self.s[i]).v() == slope(x, y, i)
        &&& forall |i: int| 0 <= i < x.len() ==> (#[trigger] self.primitive_const[i]).v() == area_to(x, y, i)
    }
//@fn src/maths/interpolations/linearinterpolation.rs "impl<'a> LinearInterpolation<'a>" new
//@real
//@ret r
    requires grid(x@, y@),
    ensures r.valid(), r.x@ == x@, r.y@ == y@,
//@end
//@fn src/maths/interpolations/linearinterpolation.rs "impl<'a> Interpolation for LinearInterpolation<'a>" update
//@real
    requires grid(old(self).x@, old(self).y@), old(self).s.len() == old(self).x.len(), old(self).primitive_const.len() == old(self).x.len(),
    ensures final(self).valid(), final(self).x@ == old(self).x@, final(self).y@ == old(self).y@,
//@loop 0 "for i in 1..self.x.len()"
        invariant
            self.x@ == old(self).x@, self.y@ == old(self).y@, grid(self.x@, self.y@),
            self.s.len() == self.x.len(), self.primitive_const.len() == self.x.len(),
            forall |k: int| 0 <= k < i - 1 ==> (#[trigger] self.s[k]).v() == slope(self.x@, self.y@, k),
            forall |k: int| 0 <= k < i ==> (#[trigger] self.primitive_const[k]).v() == area_to(self.x@, self.y@, k),
//@end
//@fn src/maths/interpolations/linearinterpolation.rs "impl<'a> Interpolation for LinearInterpolation<'a>" xmin
//@ret r
    requires grid(self.x@, self.y@),
    ensures r.v() == self.x[0].v(),
//@end
//@fn src/maths/interpolations/linearinterpolation.rs "impl<'a> Interpolation for LinearInterpolation<'a>" xmax
//@ret r
    requires grid(self.x@, self.y@),
    ensures r.v() == self.x[self.x.len() - 1].v(),
//@end
//@fn src/maths/interpolations/linearinterpolation.rs "impl<'a> Interpolation for LinearInterpolation<'a>" is_in_range
//@ret r
    requires grid(self.x@, self.y@),
    ensures r == in_range(self.x@, x.v()),
//@end
//@fn src/maths/interpolations/interpolation.rs "pub trait Interpolation" check_range
//@partial
    requires grid(self.x@, self.y@),
    ensures allow_extrapolation || in_range(self.x@, x.v()),
//@end
//@fn src/maths/interpolations/linearinterpolation.rs "impl<'a> Interpolation for LinearInterpolation<'a>" locate
//@ret r
    requires grid(self.x@, self.y@),
    ensures segment(self.x@, r as int, x.v()),
//@top
        proof { assert(self.x[self.x.len() - 2].v() < self.x[self.x.len() - 1].v()); }
//@end
//@fn src/maths/interpolations/linearinterpolation.rs "impl<'a> Interpolation for LinearInterpolation<'a>" value_with_extrapolation
//@real
//@ret r
    requires self.valid(),
    ensures
        allow_extrapolation || in_range(self.x@, x.v()),
        forall |i: int| #[trigger] segment(self.x@, i, x.v()) ==> r.v() == chord(self.x@, self.y@, i, x.v()),
        forall |k: int| 0 <= k < self.x.len() && x.v() == (#[trigger] self.x[k]).v() ==> r.v() == self.y[k].v(),
//@after "let i = self.locate(x);"
        proof {
            let (xs, ys) = (self.x@, self.y@);
            assert forall |j: int| #[trigger] segment(xs, j, x.v()) implies j == i by { lemma_one_segment(xs, i as int, j, x.v()); }
            lemma_chord_ends(xs, ys, i as int);
            assert forall |k: int| 0 <= k < xs.len() && x.v() == (#[trigger] xs[k]).v() implies k == i || k == i + 1 by {
                if k < i { assert(xs[k].v() < xs[i as int].v()); }
                if k > i + 1 { assert(xs[i + 1].v() < xs[k].v()); }
            }
        }
//@end
//@fn src/maths/interpolations/linearinterpolation.rs "impl<'a> Interpolation for LinearInterpolation<'a>" derivative_with_extrapolation
//@real
//@ret r
    requires self.valid(),
    ensures
        allow_extrapolation || in_range(self.x@, x.v()),
        forall |i: int| #[trigger] segment(self.x@, i, x.v()) ==> r.v() == slope(self.x@, self.y@, i),
//@after "let i = self.locate(x);"
        proof {
            let (xs, ys) = (self.x@, self.y@);
            assert forall |j: int| #[trigger] segment(xs, j, x.v()) implies j == i by { lemma_one_segment(xs, i as int, j, x.v()); }
        }
//@end
//@fn src/maths/interpolations/linearinterpolation.rs "impl<'a> Interpolation for LinearInterpolation<'a>" second_derivative_with_extrapolation
//@real
//@ret r
    requires self.valid(),
    ensures allow_extrapolation || in_range(self.x@, x.v()), r.v() == 0real,
//@end
//@fn src/maths/interpolations/linearinterpolation.rs "impl<'a> Interpolation for LinearInterpolation<'a>" primitive_with_extrapolation
//@real
//@ret r
    requires self.valid(),
    ensures
        allow_extrapolation || in_range(self.x@, x.v()),
        forall |i: int| #[trigger] segment(self.x@, i, x.v()) ==> r.v() == area_to(self.x@, self.y@, i) + area(self.x@, self.y@, i, x.v()),
//@after "let i = self.locate(x);"
        proof {
            let (xs, ys) = (self.x@, self.y@);
            assert forall |j: int| #[trigger] segment(xs, j, x.v()) implies j == i by { lemma_one_segment(xs, i as int, j, x.v()); }
        }
//@end
//@fn src/maths/interpolations/interpolation.rs "pub trait Interpolation" value
//@ret r
    requires self.valid(),
    ensures
        in_range(self.x@, x.v()),
        forall |i: int| #[trigger] segment(self.x@, i, x.v()) ==> r.v() == chord(self.x@, self.y@, i, x.v()),
        forall |k: int| 0 <= k < self.x.len() && x.v() == (#[trigger] self.x[k]).v() ==> r.v() == self.y[k].v(),
//@end
//@fn src/maths/interpolations/interpolation.rs "pub trait Interpolation" derivative
//@ret r
    requires self.valid(),
    ensures
        in_range(self.x@, x.v()),
        forall |i: int| #[trigger] segment(self.x@, i, x.v()) ==> r.v() == slope(self.x@, self.y@, i),
//@end
//@fn src/maths/interpolations/interpolation.rs "pub trait Interpolation" primitive
//@ret r
    requires self.valid(),
    ensures
        in_range(self.x@, x.v()),
        forall |i: int| #[trigger] segment(self.x@, i, x.v()) ==> r.v() == area_to(self.x@, self.y@, i) + area(self.x@, self.y@, i, x.v()),
//@end
}

// --- Lagrange interpolation, in barycentric form
//@type src/maths/array.rs struct Array
impl Array {
//@fn src/maths/array.rs "impl Array" new
//@ret r
    ensures r.data@ == data@,
//@end
}
//@type src/maths/interpolations/lagrangeinterpolation.rs struct LagrangeInterpolation
pub open spec fn lgrid(x: Seq<Real>, y: Seq<Real>) -> bool { x.len() >= 2 && x.len() == y.len() && increasing(x) }
/// the product of c (x_i - x_j) over the j < k other than i
pub open spec fn product(x: Seq<Real>, c: real, i: int, k: int) -> real
    decreases k,
{
    if k <= 0 { 1real } else if k - 1 == i { product(x, c, i, k - 1) } else { product(x, c, i, k - 1) * (c * (x[i].v() - x[k - 1].v())) }
}
pub open spec fn weight(x: Seq<Real>, i: int) -> real { 1real / product(x, 4real / (x[x.len() - 1].v() - x[0].v()), i, x.len() as int) }
/// the sum of w_i y_i / (at - x_i) (of w_i / (at - x_i)) over i < k
pub open spec fn weighted(x: Seq<Real>, y: Seq<Real>, at: real, k: int) -> real
    decreases k,
{
    if k <= 0 { 0real } else { weighted(x, y, at, k - 1) + weight(x, k - 1) / (at - x[k - 1].v()) * y[k - 1].v() }
}
pub open spec fn weights(x: Seq<Real>, at: real, k: int) -> real
    decreases k,
{
    if k <= 0 { 0real } else { weights(x, at, k - 1) + weight(x, k - 1) / (at - x[k - 1].v()) }
}
proof fn lemma_product_nonzero(x: Seq<Real>, c: real, i: int, k: int)
    requires increasing(x), c > 0real, 0 <= i < x.len(), 0 <= k <= x.len(),
    ensures product(x, c, i, k) != 0real,
    decreases k,
{
    if k > 0 {
        lemma_product_nonzero(x, c, i, k - 1);
        if k - 1 != i {
            if k - 1 < i { assert(x[k - 1].v() < x[i].v()); } else { assert(x[i].v() < x[k - 1].v()); }
            let d = x[i].v() - x[k - 1].v();
            let p = product(x, c, i, k - 1);
            assert(c * d != 0real) by (nonlinear_arith) requires c > 0real, d != 0real;
            assert(p * (c * d) != 0real) by (nonlinear_arith) requires p != 0real, c * d != 0real;
        }
    }
}
/// The basis polynomials of a grid of distinct nodes add up to one (classical), so their barycentric denominators do not vanish off the nodes.
#[verifier::external_body]
proof fn axiom_basis_adds_up(x: Seq<Real>, at: real)
    requires increasing(x), x.len() >= 2, forall |k: int| 0 <= k < x.len() ==> (#[trigger] x[k]).v() != at,
    ensures weights(x, at, x.len() as int) != 0real,
{}
/// ten machine epsilons of the argument
pub open spec fn hair(at: real) -> real { 10real * EPS() * rabs(at) }

impl<'a> LagrangeInterpolation<'a> {
    pub open spec fn valid(&self) -> bool {
        let x = self.x@;
        &&& lgrid(x, self.y@)
        &&& self.lambda.data.len() == x.len()
        &&& forall |i: int| 0 <= i < x.len() ==> (#[trigger] self.lambda.data[i]).v() == weight(x, i)
    }
//@fn src/maths/interpolations/lagrangeinterpolation.rs "impl<'a> LagrangeInterpolation<'a>" new
//@real
//@ret r
    requires lgrid(x@, y@),
    ensures r.valid(), r.x@ == x@, r.y@ == y@,
//@end
//@fn src/maths/interpolations/lagrangeinterpolation.rs "impl<'a> Interpolation for LagrangeInterpolation<'a>" update
//@real
//@sub "self.lambda[" => "self.lambda.data["
    requires lgrid(old(self).x@, old(self).y@), old(self).lambda.data.len() == old(self).x.len(),
    ensures final(self).valid(), final(self).x@ == old(self).x@, final(self).y@ == old(self).y@,
//@top
        proof { assert(self.x[0].v() < self.x[self.x.len() - 1].v()); }
//@after "let cm1 = 4.0 / (self.x[self.x.len() - 1] - self.x[0]);"
        proof {
            let w = self.x[self.x.len() - 1].v() - self.x[0].v();
            assert(cm1.v() > 0real) by (nonlinear_arith) requires cm1.v() == 4real / w, w > 0real;
        }
//@before "self.lambda[i] = 1.0 / self.lambda[i];"
            proof { lemma_product_nonzero(self.x@, cm1.v(), i as int, self.x.len() as int); }
//@loop 0 "for i in 0..self.x.len()"
        invariant
            cm1.v() > 0real,
            self.x@ == old(self).x@, self.y@ == old(self).y@, lgrid(self.x@, self.y@), self.lambda.data.len() == self.x.len(),
            cm1.v() == 4real / (self.x[self.x.len() - 1].v() - self.x[0].v()),
            forall |k: int| 0 <= k < i ==> (#[trigger] self.lambda.data[k]).v() == weight(self.x@, k),
//@loop 1 "for j in 0..self.x.len()"
        invariant
            cm1.v() > 0real,
            self.x@ == old(self).x@, self.y@ == old(self).y@, lgrid(self.x@, self.y@), self.lambda.data.len() == self.x.len(),
            cm1.v() == 4real / (self.x[self.x.len() - 1].v() - self.x[0].v()),
            0 <= i < self.x.len(), x_i.v() == self.x[i as int].v(),
            self.lambda.data[i as int].v() == product(self.x@, cm1.v(), i as int, j as int),
            forall |k: int| 0 <= k < i ==> (#[trigger] self.lambda.data[k]).v() == weight(self.x@, k),
//@end
//@fn src/maths/interpolations/lagrangeinterpolation.rs "impl<'a> Interpolation for LagrangeInterpolation<'a>" xmin
//@ret r
    requires lgrid(self.x@, self.y@),
    ensures r.v() == self.x[0].v(),
//@end
//@fn src/maths/interpolations/lagrangeinterpolation.rs "impl<'a> Interpolation for LagrangeInterpolation<'a>" xmax
//@ret r
    requires lgrid(self.x@, self.y@),
    ensures r.v() == self.x[self.x.len() - 1].v(),
//@end
//@fn src/maths/interpolations/lagrangeinterpolation.rs "impl<'a> Interpolation for LagrangeInterpolation<'a>" is_in_range
//@ret r
    requires lgrid(self.x@, self.y@),
    ensures r == in_range(self.x@, x.v()),
//@end
//@fn src/maths/interpolations/interpolation.rs "pub trait Interpolation" check_range
//@partial
    requires lgrid(self.x@, self.y@),
    ensures allow_extrapolation || in_range(self.x@, x.v()),
//@end
//@fn src/maths/interpolations/lagrangeinterpolation.rs "impl<'a> Interpolation for LagrangeInterpolation<'a>" value_with_extrapolation
//@real
//@ret r
//@sub "Real::EPSILON" => "Real::epsilon()"
//@sub "self.lambda[" => "self.lambda.data["
    requires self.valid(),
    ensures
        allow_extrapolation || in_range(self.x@, x.v()),
        // a node, when its neighbours are further than a hair away
        forall |k: int| 0 <= k < self.x.len() && x.v() == (#[trigger] self.x[k]).v() && (k > 0 ==> x.v() - self.x[k - 1].v() > hair(x.v())) ==> r.v() == self.y[k].v(),
        // the barycentric formula further than a hair away from every node
        (forall |k: int| 0 <= k < self.x.len() ==> rabs((#[trigger] self.x[k]).v() - x.v()) > hair(x.v()))
            ==> r.v() == weighted(self.x@, self.y@, x.v(), self.x.len() as int) / weights(self.x@, x.v(), self.x.len() as int),
//@loop 0 "for i in 0..self.x.len()"
        invariant
            self.valid(), forall |k: int| 0 <= k < self.x.len() ==> (#[trigger] self.x[k]).v() != x.v(), n.v() == weighted(self.x@, self.y@, x.v(), i as int), d.v() == weights(self.x@, x.v(), i as int),
//@before "let mut n = 0.0;"
        proof {
            assert forall |k: int| 0 <= k < self.x.len() implies (#[trigger] self.x[k]).v() != x.v() by {
                if k < lb { assert(!at_least(self.x[k], rl(x.v() - eps.v()))); }
                if lb < k { assert(self.x[lb as int].v() < self.x[k].v()); }
            }
        }
//@before "n / d"
        proof { axiom_basis_adds_up(self.x@, x.v()); }
//@after "let lb = lower_bound(self.x, x - eps);"
        proof {
            assert(eps.v() == hair(x.v()));
            assert(hair(x.v()) >= 0real) by (nonlinear_arith) requires hair(x.v()) == 10real * EPS() * rabs(x.v()), EPS() > 0real, rabs(x.v()) >= 0real;
            assert forall |k: int| 0 <= k < self.x.len() && x.v() == (#[trigger] self.x[k]).v() && (k > 0 ==> x.v() - self.x[k - 1].v() > hair(x.v())) implies lb == k by {
                if k < lb { assert(!at_least(self.x[k], rl(x.v() - eps.v()))); }
                if lb < k { assert(self.x[lb as int].v() <= self.x[k - 1].v()); }
            }
        }
//@end
//@fn src/maths/interpolations/lagrangeinterpolation.rs "impl<'a> Interpolation for LagrangeInterpolation<'a>" locate
//@ret r
    requires lgrid(self.x@, self.y@), self.x.len() >= 2, x.v() < self.x[self.x.len() - 1].v() || x.v() > self.x[self.x.len() - 1].v(),
    ensures segment(self.x@, r as int, x.v()),
//@top
        proof { assert(self.x[self.x.len() - 2].v() < self.x[self.x.len() - 1].v()); }
//@end
}
fn main() {}
}
