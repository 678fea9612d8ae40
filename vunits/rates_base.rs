//@type src/datetime/frequency.rs enum Frequency derive(Clone, Copy, Debug, PartialEq, Eq, Structural)
//@type src/rates/compounding.rs enum Compounding derive(Clone, Copy, Debug, PartialEq, Eq, Structural)

// --- powers, exponentials and logarithms
pub uninterp spec fn rpow(b: real, e: real) -> real;
pub uninterp spec fn rexp(x: real) -> real;
pub uninterp spec fn rln(x: real) -> real;
#[verifier::external_body]
proof fn axiom_pow_pow(b: real, x: real, y: real)
    requires b > 0real,
    ensures rpow(b, x) > 0real, rpow(rpow(b, x), y) == rpow(b, x * y), rpow(b, 1real) == b, rpow(1real, x) == 1real,
{}
#[verifier::external_body]
proof fn axiom_exp_ln(x: real)
    ensures rexp(x) > 0real, rexp(0real) == 1real, x > 0real ==> rexp(rln(x)) == x,
{}
/// the base of natural logarithms
pub struct Euler;
pub const E: Euler = Euler;
impl Real {
    #[verifier::external_body]
    pub fn powf(self, p: Real) -> (r: Real)
        ensures r.v() == rpow(self.v(), p.v()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn exp(self) -> (r: Real)
        ensures r.v() == rexp(self.v()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn ln(self) -> (r: Real)
        ensures r.v() == rln(self.v()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn log(self, base: Euler) -> (r: Real)
        ensures r.v() == rln(self.v()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Real)
        ensures r.v() == 0real,
    { unimplemented!() }
}

// --- frequencies as numbers
pub open spec fn per_year(f: Frequency) -> int {
    match f {
        Frequency::Annual => 1, Frequency::Semiannual => 2, Frequency::EveryFourthMonth => 3, Frequency::Quarterly => 4,
        Frequency::Bimonthly => 6, Frequency::Monthly => 12, Frequency::EveryFourthWeek => 13, Frequency::Biweekly => 26,
        Frequency::Weekly => 52, Frequency::Daily => 365, Frequency::Once => 0, Frequency::NoFrequency => -1, _ => 999,
    }
}
impl FromSpecImpl<Frequency> for Real {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(f: Frequency) -> Real { rl(per_year(f) as real) }
}
impl From<Frequency> for Real {
//@fn src/datetime/frequency.rs "impl From<Frequency> for Real" from
//@real
//@end
}
impl Frequency {
//@fn src/datetime/frequency.rs "impl From<Integer> for Frequency" from
//@ret r
    requires n == -1 || n == 0 || n == 999 || n == 1 || n == 2 || n == 3 || n == 4 || n == 6 || n == 12 || n == 13 || n == 26 || n == 52 || n == 365,
    ensures per_year(r) == n,
//@end
}

// --- the day counter is any function of two dates and a reference period
#[verifier::external_body]
pub struct DayCounter;
pub uninterp spec fn fraction(dc: DayCounter, d1: int, d2: int, r1: int, r2: int) -> real;
impl DayCounter {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: DayCounter)
        ensures r == *self,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn year_fraction(&self, d1: &Date, d2: &Date, ref_start: &Date, ref_end: &Date) -> (r: Time)
        ensures r.v() == fraction(*self, d1.s(), d2.s(), ref_start.s(), ref_end.s()),
    { unimplemented!() }
}

// --- interest rates
//@type src/rates/interestrate.rs struct InterestRate
pub open spec fn compounds(c: Compounding) -> bool { c == Compounding::Compounded || c == Compounding::SimpleThenCompounded || c == Compounding::CompoundedThenSimple }
pub open spec fn simple(rate: real, t: real) -> real { 1real + rate * t }
pub open spec fn compounded(rate: real, n: real, t: real) -> real { rpow(1real + rate / n, n * t) }
/// the compound factor of a rate compounded n times a year
pub open spec fn factor(c: Compounding, n: real, rate: real, t: real) -> real {
    match c {
        Compounding::Simple => simple(rate, t),
        Compounding::Compounded => compounded(rate, n, t),
        Compounding::Continuous => rexp(rate * t),
        Compounding::SimpleThenCompounded => if t <= 1real / n { simple(rate, t) } else { compounded(rate, n, t) },
        Compounding::CompoundedThenSimple => if t <= 1real / n { compounded(rate, n, t) } else { simple(rate, t) },
    }
}
impl InterestRate {
    pub open spec fn valid(&self) -> bool {
        &&& self.frequency_makes_sense == compounds(self.compounding)
        &&& compounds(self.compounding) ==> exists |f: Frequency| #[trigger] per_year(f) as real == self.frequency.v() && per_year(f) > 0
    }
    pub open spec fn at(&self, t: real) -> real { factor(self.compounding, self.frequency.v(), self.rate.v(), t) }
}
