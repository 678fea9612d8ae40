// --- closeness
pub open spec fn EPS() -> real { 1real / 4503599627370496real }
impl Real {
    /// 2^-52
    #[verifier::external_body]
    pub fn epsilon() -> (r: Real)
        ensures r.v() == EPS(),
    { unimplemented!() }
}
pub open spec fn near(x: real, y: real, n: int, both: bool) -> bool {
    let d = rabs(x - y);
    let t = n as real * EPS();
    if x == y { true }
    else if x == 0real || y == 0real { d < t * t }
    else if both { d <= t * rabs(x) && d <= t * rabs(y) }
    else { d <= t * rabs(x) || d <= t * rabs(y) }
}
proof fn lemma_near_is_symmetric(x: real, y: real, n: int, both: bool)
    ensures near(x, y, n, both) == near(y, x, n, both), near(x, x, n, both),
{
}
//@fn src/maths/comparison.rs "" close
//@real
//@ret r
//@sub "Real::EPSILON" => "Real::epsilon()"
    ensures r == near(x.v(), y.v(), 42, true),
//@end
