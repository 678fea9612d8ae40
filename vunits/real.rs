/// Machine floats read as mathematical reals: every operation is exact, there is no overflow and no NaN.
#[derive(Clone, Copy)]
pub struct Real { pub g: Ghost<real> }
impl Real { pub open spec fn v(self) -> real { self.g@ } }
pub open spec fn rl(x: real) -> Real { Real { g: Ghost(x) } }
pub open spec fn rabs(x: real) -> real { if x < 0real { -x } else { x } }
/// to the nearest integer, halves away from zero
pub open spec fn rround(x: real) -> int { if x < 0real { -((0.5real - x).floor()) } else { (x + 0.5real).floor() } }

#[verifier::external_body]
pub fn lit(n: i128, d: i128) -> (r: Real)
    requires d > 0,
    ensures r.v() == (n as real) / (d as real), d == 1 ==> r.v() == n as real,
{ unimplemented!() }
#[verifier::external_body]
pub fn int_to_real(n: i128) -> (r: Real)
    ensures r.v() == n as real,
{ unimplemented!() }
#[verifier::external_body]
pub fn reject_unless(c: bool)
    ensures c,
{ unimplemented!() }
#[verifier::external_body]
pub fn reject() -> !
    ensures false,
{ unimplemented!() }

impl AddSpecImpl<Real> for Real {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: Real) -> bool { true }
    open spec fn add_spec(self, o: Real) -> Real { rl(self.v() + o.v()) }
}
impl Add<Real> for Real {
    type Output = Real;
    #[verifier::external_body]
    fn add(self, o: Real) -> Real { unimplemented!() }
}
impl SubSpecImpl<Real> for Real {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: Real) -> bool { true }
    open spec fn sub_spec(self, o: Real) -> Real { rl(self.v() - o.v()) }
}
impl Sub<Real> for Real {
    type Output = Real;
    #[verifier::external_body]
    fn sub(self, o: Real) -> Real { unimplemented!() }
}
impl MulSpecImpl<Real> for Real {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: Real) -> bool { true }
    open spec fn mul_spec(self, o: Real) -> Real { rl(self.v() * o.v()) }
}
impl Mul<Real> for Real {
    type Output = Real;
    #[verifier::external_body]
    fn mul(self, o: Real) -> Real { unimplemented!() }
}
impl DivSpecImpl<Real> for Real {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: Real) -> bool { o.v() != 0real }
    open spec fn div_spec(self, o: Real) -> Real { rl(self.v() / o.v()) }
}
impl Div<Real> for Real {
    type Output = Real;
    #[verifier::external_body]
    fn div(self, o: Real) -> Real { unimplemented!() }
}
impl NegSpecImpl for Real {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> Real { rl(-self.v()) }
}
impl Neg for Real {
    type Output = Real;
    #[verifier::external_body]
    fn neg(self) -> Real { unimplemented!() }
}
impl AddAssignSpecImpl<Real> for Real {
    open spec fn obeys_add_assign_spec() -> bool { true }
    open spec fn add_assign_req(&self, o: Real) -> bool { true }
    open spec fn add_assign_spec(&self, o: Real) -> &Real { &rl(self.v() + o.v()) }
}
impl AddAssign<Real> for Real {
    #[verifier::external_body]
    fn add_assign(&mut self, o: Real) { unimplemented!() }
}
impl SubAssignSpecImpl<Real> for Real {
    open spec fn obeys_sub_assign_spec() -> bool { true }
    open spec fn sub_assign_req(&self, o: Real) -> bool { true }
    open spec fn sub_assign_spec(&self, o: Real) -> &Real { &rl(self.v() - o.v()) }
}
impl SubAssign<Real> for Real {
    #[verifier::external_body]
    fn sub_assign(&mut self, o: Real) { unimplemented!() }
}
impl MulAssignSpecImpl<Real> for Real {
    open spec fn obeys_mul_assign_spec() -> bool { true }
    open spec fn mul_assign_req(&self, o: Real) -> bool { true }
    open spec fn mul_assign_spec(&self, o: Real) -> &Real { &rl(self.v() * o.v()) }
}
impl MulAssign<Real> for Real {
    #[verifier::external_body]
    fn mul_assign(&mut self, o: Real) { unimplemented!() }
}
impl DivAssignSpecImpl<Real> for Real {
    open spec fn obeys_div_assign_spec() -> bool { true }
    open spec fn div_assign_req(&self, o: Real) -> bool { o.v() != 0real }
    open spec fn div_assign_spec(&self, o: Real) -> &Real { &rl(self.v() / o.v()) }
}
impl DivAssign<Real> for Real {
    #[verifier::external_body]
    fn div_assign(&mut self, o: Real) { unimplemented!() }
}
impl PartialEqSpecImpl for Real {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Real) -> bool { self.v() == o.v() }
}
impl PartialEq for Real {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> bool { unimplemented!() }
}
impl PartialOrdSpecImpl for Real {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Real) -> Option<Ordering> {
        if self.v() < o.v() { Some(Ordering::Less) } else if self.v() == o.v() { Some(Ordering::Equal) } else { Some(Ordering::Greater) }
    }
}
impl PartialOrd for Real {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> { unimplemented!() }
}
impl FromSpecImpl<i32> for Real {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(n: i32) -> Real { rl(n as real) }
}
impl From<i32> for Real {
    #[verifier::external_body]
    fn from(n: i32) -> Real { unimplemented!() }
}
impl Real {
    #[verifier::external_body]
    pub fn abs(self) -> (r: Real)
        ensures r.v() == rabs(self.v()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn min(self, o: Real) -> (r: Real)
        ensures r.v() == if self.v() <= o.v() { self.v() } else { o.v() },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn max(self, o: Real) -> (r: Real)
        ensures r.v() == if self.v() >= o.v() { self.v() } else { o.v() },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn floor(self) -> (r: Real)
        ensures r.v() == self.v().floor() as real,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn ceil(self) -> (r: Real)
        ensures r.v() == -((-self.v()).floor()) as real,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn round(self) -> (r: Real)
        ensures r.v() == rround(self.v()) as real,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_i32(self) -> (r: i32)
        requires i32::MIN as real <= self.v() <= i32::MAX as real,
        ensures r as int == self.v().floor(),
    { unimplemented!() }
}
