use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
use core::ops::*;
use core::cmp::Ordering;

verus! {

pub type Integer = i32;
pub type Size = usize;

//@include real.rs
pub uninterp spec fn rpow(b: real, e: real) -> real;
pub uninterp spec fn rexp(x: real) -> real;
pub uninterp spec fn rln(x: real) -> real;
/// the non-negative root
pub uninterp spec fn rsqrt(x: real) -> real;
/// the base of natural logarithms
#[derive(Clone, Copy)]
pub struct Euler;
pub mod e { pub const E: super::Euler = super::Euler; }
impl Real {
    #[verifier::external_body]
    pub fn powf(self, p: Real) -> (r: Real)
        ensures r.v() == rpow(self.v(), p.v()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn exp(self) -> (r: Real)
        ensures r.v() == rexp(self.v()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn log(self, base: Euler) -> (r: Real)
        ensures r.v() == rln(self.v()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn ln(self) -> (r: Real)
        ensures r.v() == rln(self.v()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn sqrt(self) -> (r: Real)
        ensures r.v() == rsqrt(self.v()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Real)
        ensures r.v() == 0real,
    { unimplemented!() }
}

//@type src/maths/array.rs struct Array
impl Array {
    pub open spec fn n(self) -> nat { self.data@.len() }
    pub open spec fn at(self, i: int) -> real { self.data@[i].v() }
}
/// the sum of the products of the first n elements
pub open spec fn dot(a: Array, b: Array, n: nat) -> real
    decreases n,
{ if n == 0 { 0real } else { dot(a, b, (n - 1) as nat) + a.at(n - 1) * b.at(n - 1) } }

impl Array {
//@fn src/maths/array.rs "impl Array" new
//@real
//@ret r
    ensures r.data == data,
//@end
//@fn src/maths/array.rs "impl Array" size
//@ret r
    ensures r == self.n(),
//@end
//@fn src/maths/array.rs "impl Array" empty
//@ret r
    ensures r == (self.n() == 0),
//@end
}
impl NegSpecImpl for Array {
    open spec fn obeys_neg_spec() -> bool { false }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> Array { self }
}
impl Neg for Array {
    type Output = Self;
//@fn src/maths/array.rs "impl Neg for Array" neg
//@real
//@mapped
//@ret r
    ensures r.n() == self.n(), forall|i: int| 0 <= i < self.n() ==> #[trigger] r.at(i) == -self.at(i),
//@loop 0 "while mapped_i < self . data . len ( )"
            invariant
                mapped_i <= self.n(), mapped@.len() == mapped_i,
                forall|i: int| 0 <= i < mapped_i ==> (#[trigger] mapped@[i]).v() == -self.at(i),
            decreases self.n() - mapped_i,
//@end
}
impl AddSpecImpl<Array> for Array {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, rhs: Array) -> bool { true }
    open spec fn add_spec(self, rhs: Array) -> Array { self }
}
impl Add for Array {
    type Output = Self;
//@fn src/maths/array.rs "impl Add for Array" add
//@partial
//@real
//@mapped
//@ret r
    ensures self.n() == rhs.n(), r.n() == self.n(), forall|i: int| 0 <= i < self.n() ==> #[trigger] r.at(i) == self.at(i) + rhs.at(i),
//@loop 0 "while mapped_i < self . data . len ( ) && mapped_i < rhs . data . len ( )"
            invariant
                mapped_i <= self.n(), mapped@.len() == mapped_i, rhs.n() == self.n(),
                forall|i: int| 0 <= i < mapped_i ==> (#[trigger] mapped@[i]).v() == self.at(i) + rhs.at(i),
            decreases self.n() - mapped_i,
//@end
}
impl AddSpecImpl<Real> for Array {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, rhs: Real) -> bool { true }
    open spec fn add_spec(self, rhs: Real) -> Array { self }
}
impl Add<Real> for Array {
    type Output = Self;
//@fn src/maths/array.rs "impl Add<Real> for Array" add
//@real
//@mapped
//@ret r
    ensures r.n() == self.n(), forall|i: int| 0 <= i < self.n() ==> #[trigger] r.at(i) == self.at(i) + rhs.v(),
//@loop 0 "while mapped_i < self . data . len ( )"
            invariant
                mapped_i <= self.n(), mapped@.len() == mapped_i,
                forall|i: int| 0 <= i < mapped_i ==> (#[trigger] mapped@[i]).v() == self.at(i) + rhs.v(),
            decreases self.n() - mapped_i,
//@end
}
impl SubSpecImpl<Array> for Array {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, rhs: Array) -> bool { true }
    open spec fn sub_spec(self, rhs: Array) -> Array { self }
}
impl Sub for Array {
    type Output = Self;
//@fn src/maths/array.rs "impl Sub for Array" sub
//@partial
//@real
//@mapped
//@ret r
    ensures self.n() == rhs.n(), r.n() == self.n(), forall|i: int| 0 <= i < self.n() ==> #[trigger] r.at(i) == self.at(i) - rhs.at(i),
//@loop 0 "while mapped_i < self . data . len ( ) && mapped_i < rhs . data . len ( )"
            invariant
                mapped_i <= self.n(), mapped@.len() == mapped_i, rhs.n() == self.n(),
                forall|i: int| 0 <= i < mapped_i ==> (#[trigger] mapped@[i]).v() == self.at(i) - rhs.at(i),
            decreases self.n() - mapped_i,
//@end
}
impl SubSpecImpl<Real> for Array {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, rhs: Real) -> bool { true }
    open spec fn sub_spec(self, rhs: Real) -> Array { self }
}
impl Sub<Real> for Array {
    type Output = Self;
//@fn src/maths/array.rs "impl Sub<Real> for Array" sub
//@real
//@mapped
//@ret r
    ensures r.n() == self.n(), forall|i: int| 0 <= i < self.n() ==> #[trigger] r.at(i) == self.at(i) - rhs.v(),
//@loop 0 "while mapped_i < self . data . len ( )"
            invariant
                mapped_i <= self.n(), mapped@.len() == mapped_i,
                forall|i: int| 0 <= i < mapped_i ==> (#[trigger] mapped@[i]).v() == self.at(i) - rhs.v(),
            decreases self.n() - mapped_i,
//@end
}
impl MulSpecImpl<Array> for Array {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, rhs: Array) -> bool { true }
    open spec fn mul_spec(self, rhs: Array) -> Array { self }
}
impl Mul for Array {
    type Output = Self;
//@fn src/maths/array.rs "impl Mul for Array" mul
//@partial
//@real
//@mapped
//@ret r
    ensures self.n() == rhs.n(), r.n() == self.n(), forall|i: int| 0 <= i < self.n() ==> #[trigger] r.at(i) == self.at(i) * rhs.at(i),
//@loop 0 "while mapped_i < self . data . len ( ) && mapped_i < rhs . data . len ( )"
            invariant
                mapped_i <= self.n(), mapped@.len() == mapped_i, rhs.n() == self.n(),
                forall|i: int| 0 <= i < mapped_i ==> (#[trigger] mapped@[i]).v() == self.at(i) * rhs.at(i),
            decreases self.n() - mapped_i,
//@end
}
impl MulSpecImpl<Real> for Array {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, rhs: Real) -> bool { true }
    open spec fn mul_spec(self, rhs: Real) -> Array { self }
}
impl Mul<Real> for Array {
    type Output = Self;
//@fn src/maths/array.rs "impl Mul<Real> for Array" mul
//@real
//@mapped
//@ret r
    ensures r.n() == self.n(), forall|i: int| 0 <= i < self.n() ==> #[trigger] r.at(i) == self.at(i) * rhs.v(),
//@loop 0 "while mapped_i < self . data . len ( )"
            invariant
                mapped_i <= self.n(), mapped@.len() == mapped_i,
                forall|i: int| 0 <= i < mapped_i ==> (#[trigger] mapped@[i]).v() == self.at(i) * rhs.v(),
            decreases self.n() - mapped_i,
//@end
}
impl DivSpecImpl<Array> for Array {
    open spec fn obeys_div_spec() -> bool { false }
    open spec fn div_req(self, rhs: Array) -> bool { forall|i: int| 0 <= i < rhs.n() ==> #[trigger] rhs.at(i) != 0real }
    open spec fn div_spec(self, rhs: Array) -> Array { self }
}
impl Div for Array {
    type Output = Self;
//@fn src/maths/array.rs "impl Div for Array" div
//@partial
//@real
//@mapped
//@ret r
    ensures self.n() == rhs.n(), r.n() == self.n(), forall|i: int| 0 <= i < self.n() ==> #[trigger] r.at(i) == self.at(i) / rhs.at(i),
//@loop 0 "while mapped_i < self . data . len ( ) && mapped_i < rhs . data . len ( )"
            invariant
                mapped_i <= self.n(), mapped@.len() == mapped_i, rhs.n() == self.n(),
                forall|i: int| 0 <= i < rhs.n() ==> #[trigger] rhs.at(i) != 0real,
                forall|i: int| 0 <= i < mapped_i ==> (#[trigger] mapped@[i]).v() == self.at(i) / rhs.at(i),
            decreases self.n() - mapped_i,
//@loopbody 0
                proof { assert(rhs.at(mapped_i as int) != 0real); }
//@end
}
impl DivSpecImpl<Real> for Array {
    open spec fn obeys_div_spec() -> bool { false }
    open spec fn div_req(self, rhs: Real) -> bool { rhs.v() != 0real }
    open spec fn div_spec(self, rhs: Real) -> Array { self }
}
impl Div<Real> for Array {
    type Output = Self;
//@fn src/maths/array.rs "impl Div<Real> for Array" div
//@real
//@mapped
//@ret r
    ensures r.n() == self.n(), forall|i: int| 0 <= i < self.n() ==> #[trigger] r.at(i) == self.at(i) / rhs.v(),
//@loop 0 "while mapped_i < self . data . len ( )"
            invariant
                mapped_i <= self.n(), mapped@.len() == mapped_i, rhs.v() != 0real,
                forall|i: int| 0 <= i < mapped_i ==> (#[trigger] mapped@[i]).v() == self.at(i) / rhs.v(),
            decreases self.n() - mapped_i,
//@end
}
impl Array {
//@fn src/maths/array.rs "impl Array" dot_product
//@partial
//@real
//@mapped
//@ret r
    ensures self.n() == rhs.n(), r.v() == dot(*self, *rhs, self.n()),
//@loop 0 "while mapped_i < self . data . len ( ) && mapped_i < rhs . data . len ( )"
            invariant
                mapped_i <= self.n(), rhs.n() == self.n(), mapped.v() == dot(*self, *rhs, mapped_i as nat),
            decreases self.n() - mapped_i,
//@end
//@fn src/maths/array.rs "impl Array" norm2
//@real
//@ret r
    ensures r.v() == rsqrt(dot(*self, *self, self.n())),
//@end
//@fn src/maths/array.rs "impl Array" abs
//@real
//@mapped
//@ret r
    ensures r.n() == self.n(), forall|i: int| 0 <= i < self.n() ==> #[trigger] r.at(i) == rabs(self.at(i)),
//@loop 0 "while mapped_i < self . data . len ( )"
            invariant
                mapped_i <= self.n(), mapped@.len() == mapped_i,
                forall|i: int| 0 <= i < mapped_i ==> (#[trigger] mapped@[i]).v() == rabs(self.at(i)),
            decreases self.n() - mapped_i,
//@end
//@fn src/maths/array.rs "impl Array" sqrt
//@real
//@mapped
//@ret r
    ensures r.n() == self.n(), forall|i: int| 0 <= i < self.n() ==> #[trigger] r.at(i) == rsqrt(self.at(i)),
//@loop 0 "while mapped_i < self . data . len ( )"
            invariant
                mapped_i <= self.n(), mapped@.len() == mapped_i,
                forall|i: int| 0 <= i < mapped_i ==> (#[trigger] mapped@[i]).v() == rsqrt(self.at(i)),
            decreases self.n() - mapped_i,
//@end
//@fn src/maths/array.rs "impl Array" log
//@real
//@mapped
//@sub "std::Real::consts::E" => "e::E"
//@ret r
    ensures r.n() == self.n(), forall|i: int| 0 <= i < self.n() ==> #[trigger] r.at(i) == rln(self.at(i)),
//@loop 0 "while mapped_i < self . data . len ( )"
            invariant
                mapped_i <= self.n(), mapped@.len() == mapped_i,
                forall|i: int| 0 <= i < mapped_i ==> (#[trigger] mapped@[i]).v() == rln(self.at(i)),
            decreases self.n() - mapped_i,
//@end
//@fn src/maths/array.rs "impl Array" exp
//@real
//@mapped
//@ret r
    ensures r.n() == self.n(), forall|i: int| 0 <= i < self.n() ==> #[trigger] r.at(i) == rexp(self.at(i)),
//@loop 0 "while mapped_i < self . data . len ( )"
            invariant
                mapped_i <= self.n(), mapped@.len() == mapped_i,
                forall|i: int| 0 <= i < mapped_i ==> (#[trigger] mapped@[i]).v() == rexp(self.at(i)),
            decreases self.n() - mapped_i,
//@end
//@fn src/maths/array.rs "impl Array" pow
//@real
//@mapped
//@ret r
    ensures r.n() == self.n(), forall|i: int| 0 <= i < self.n() ==> #[trigger] r.at(i) == rpow(self.at(i), alpha.v()),
//@loop 0 "while mapped_i < self . data . len ( )"
            invariant
                mapped_i <= self.n(), mapped@.len() == mapped_i,
                forall|i: int| 0 <= i < mapped_i ==> (#[trigger] mapped@[i]).v() == rpow(self.at(i), alpha.v()),
            decreases self.n() - mapped_i,
//@end
//@fn src/maths/array.rs "impl Array" swap
//@real
    ensures final(self).data == old(rhs).data, final(rhs).data == old(self).data,
//@end
}
fn main() {}
}
