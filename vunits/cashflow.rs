use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
use core::ops::*;
use core::cmp::Ordering;
use std::rc::Rc;

verus! {

//@include cashflow_base.rs
//@include cashflow_legs.rs


// --- the function whose zero is the yield
/// a division by zero, or a rate that does not discount, is read as a computation that does not return
#[verifier::external_body]
pub fn defined(b: Ghost<bool>)
    ensures b@,
{ unimplemented!() }
pub mod cashflow {
    use super::*;
    pub fn npv<T: CashFlow>(cashflows: &[T], interestrate: &InterestRate, include_settlement_date_flows: bool, settlement_date: Date, npv_date: Date) -> (r: Real)
        requires all_ok(cashflows@), dated(cashflows@), wf(settlement_date), wf(npv_date), interestrate.valid(),
        ensures r.v() == value(cashflows@, *interestrate, settlement_date.s(), include_settlement_date_flows, start(settlement_date.s(), npv_date.s()), cashflows@.len() as int),
    {
        let ghost ok = forall|t: real| t >= 0real ==> #[trigger] interestrate.at(t) != 0real;
        defined(Ghost(ok));
        super::npv(cashflows, interestrate, include_settlement_date_flows, settlement_date, npv_date)
    }
    pub fn modified_duration<T: CashFlow>(cashflows: &[T], y: &InterestRate, include_settlement_date_flows: bool, settlement_date: Date, npv_date: Date) -> (r: Real)
        requires all_ok(cashflows@), dated(cashflows@), wf(settlement_date), wf(npv_date), y.valid(),
        ensures r.v() == duration(cashflows@, *y, settlement_date.s(), include_settlement_date_flows, start(settlement_date.s(), npv_date.s()), cashflows@.len() as int),
    {
        let ghost ok = (forall|t: real| t >= 0real ==> #[trigger] y.at(t) != 0real) && (compounds(y.compounding) ==> y.frequency.v() > 0real && 1real + y.rate.v() / y.frequency.v() != 0real);
        defined(Ghost(ok));
        super::modified_duration(cashflows, y, include_settlement_date_flows, settlement_date, npv_date)
    }
}
/// rates of the same conventions and yield value a leg alike
proof fn lemma_same_rate<T: CashFlow>(leg: Seq<T>, a: InterestRate, b: InterestRate, s: int, include: bool, from: int, k: int)
    requires 0 <= k <= leg.len(), a.compounding == b.compounding, a.daycounter == b.daycounter, a.rate.v() == b.rate.v(), compounds(a.compounding) ==> a.frequency.v() == b.frequency.v(),
    ensures
        discounted(leg, a, s, include, from, k) == discounted(leg, b, s, include, from, k), value(leg, a, s, include, from, k) == value(leg, b, s, include, from, k),
        value_at(leg, a, s, include, from, k) == value_at(leg, b, s, include, from, k), slope_at(leg, a, s, include, from, k) == slope_at(leg, b, s, include, from, k),
    decreases k,
{
    assert forall|t: real| #[trigger] a.at(t) == b.at(t) by {}
    if k > 0 { lemma_same_rate(leg, a, b, s, include, from, k - 1); }
}
//@include solvers_base.rs
//@include yield_base.rs
impl Real {
    /// the sign of a zero is either
    #[verifier::external_body]
    pub fn signum(self) -> (r: Real)
        ensures r.v() == 1real || r.v() == -1real, self.v() > 0real ==> r.v() == 1real, self.v() < 0real ==> r.v() == -1real,
    { unimplemented!() }
}
//@type src/cashflows/irrfinder.rs struct IrrFinder
impl<'a, T: CashFlow> IrrFinder<'a, T> {
//@fn src/cashflows/irrfinder.rs "impl<'a, T: CashFlow> IrrFinder<'a, T>" new
//@ret r
        requires all_ok(cashflows@), wf(settlement_date), cashflows@.len() < 0x7fff_ffff,
        ensures
            r.cashflows == cashflows, r.npv == npv, r.daycounter == daycounter, r.compounding == compounding, r.frequency == frequency,
            r.include_settlement_date_flows == include_settlement_date_flows, r.settlement_date == settlement_date, r.npv_date == npv_date,
            explained(cashflows@, npv.v(), settlement_date.s(), include_settlement_date_flows),
//@end
//@fn src/cashflows/irrfinder.rs "impl<'a, T: CashFlow> IrrFinder<'a, T>" at
//@sub "self.compounding.clone()" => "self.compounding"
//@ret r
        requires
            all_ok(self.cashflows@), dated(self.cashflows@), wf(self.settlement_date), wf(self.npv_date),
        ensures r.v() == excess(self.cashflows@, self.npv.v(), self.daycounter, self.compounding, self.frequency, self.include_settlement_date_flows, self.settlement_date.s(), self.npv_date.s())(y.v()),
//@before "let _npv"
        proof {
            assert(quoted(self.daycounter, self.compounding, self.frequency, y.v(), bond_yield));
            lemma_same_rate(self.cashflows@, bond_yield, the_rate(self.daycounter, self.compounding, self.frequency, y.v()), self.settlement_date.s(), self.include_settlement_date_flows,
                start(self.settlement_date.s(), self.npv_date.s()), self.cashflows@.len() as int);
        }
//@end
//@fn src/cashflows/irrfinder.rs "impl<'a, T: CashFlow> IrrFinder<'a, T>" derivative
//@sub "self.compounding.clone()" => "self.compounding"
//@ret r
        requires all_ok(self.cashflows@), dated(self.cashflows@), wf(self.settlement_date), wf(self.npv_date),
        ensures r.v() == duration_in(self.cashflows@, self.daycounter, self.compounding, self.frequency, self.include_settlement_date_flows, self.settlement_date.s(), self.npv_date.s())(y.v()),
//@before "cashflow::modified_duration"
        proof {
            assert(quoted(self.daycounter, self.compounding, self.frequency, y.v(), bond_yield));
            lemma_same_rate(self.cashflows@, bond_yield, the_rate(self.daycounter, self.compounding, self.frequency, y.v()), self.settlement_date.s(), self.include_settlement_date_flows,
                start(self.settlement_date.s(), self.npv_date.s()), self.cashflows@.len() as int);
        }
//@end
//@fn src/cashflows/irrfinder.rs "impl<'a, T: CashFlow> IrrFinder<'a, T>" check_sign
//@walked
//@real
//@partial
        requires all_ok(cashflows@), wf(settlement_date), cashflows@.len() < 0x7fff_ffff,
        ensures explained(cashflows@, npv.v(), settlement_date.s(), include_settlement_date_flows),
//@loop 0 "while cf_i < cashflows.len()"
            invariant
                all_ok(cashflows@), wf(settlement_date), cf_i <= cashflows@.len(), 0 <= sign_changes <= cf_i, cashflows@.len() < 0x7fff_ffff,
                npv.v() > 0real || npv.v() < 0real ==> sign_changes == 0 ==>
                    last_sign.v() == (if npv.v() > 0real { -1real } else { 1real }) || explained_by(cashflows@, npv.v(), settlement_date.s(), include_settlement_date_flows, cf_i as int),
                last_sign.v() == 1real || last_sign.v() == -1real,
                sign_changes > 0 && npv.v() != 0real ==> explained_by(cashflows@, npv.v(), settlement_date.s(), include_settlement_date_flows, cf_i as int),
            decreases cashflows@.len() - cf_i,
//@end
}
// --- the yield
//@fn src/cashflows/cashflow.rs "" bond_yield
//@real
//@partial
//@ret r
    requires
        all_ok(cashflows@), dated(cashflows@), wf(settlement_date), wf(npv_date), cashflows@.len() < 0x7fff_ffff,
        consistent(*solver), solver.evals() < usize::MAX - 4, inside(*solver, guess.v()), guess.v() > 0real,
        forall|a: Graph, b: Graph| within(a, excess(cashflows@, npv.v(), daycounter, compounding, frequency, include_settlement_date_flows, settlement_date.s(), npv_date.s()))
            && within(b, duration_in(cashflows@, daycounter, compounding, frequency, include_settlement_date_flows, settlement_date.s(), npv_date.s())) ==> #[trigger] solver.solvable(a, b),
    ensures
        accuracy.v() > 0real, inside(*solver, r.v()), explained(cashflows@, npv.v(), settlement_date.s(), include_settlement_date_flows),
        yields(*solver, cashflows@, npv.v(), daycounter, compounding, frequency, include_settlement_date_flows, settlement_date.s(), npv_date.s(), at_least_epsilon(accuracy.v()), r.v()),
//@closure Real -> Real
    requires true,
    ensures the_value.v() == m(ARG.v()),
//@closure Real -> Real
    requires true,
    ensures the_value.v() == n(ARG.v()),
//@before "solver.solve"
        let ghost m = excess(cashflows@, npv.v(), daycounter, compounding, frequency, include_settlement_date_flows, settlement_date.s(), npv_date.s());
        let ghost n = duration_in(cashflows@, daycounter, compounding, frequency, include_settlement_date_flows, settlement_date.s(), npv_date.s());
        LIFTED_CLOSURES;
        proof {
            lemma_function(closure_0, m);
            lemma_function(closure_1, n);
            let g10 = guess.v() / 10real;
            assert(g10 > 0real) by (nonlinear_arith) requires g10 == guess.v() / 10real, guess.v() > 0real;
        }
//@end

// --- the chained discount factors are those of each payment date, where the day counter adds up and the rate compounds
#[verifier::external_body]
proof fn axiom_sums(b: real, x: real, y: real)
    ensures
        rexp(x + y) == rexp(x) * rexp(y), rexp(x) > 0real, rexp(y) > 0real, rexp(0real) == 1real,
        b > 0real ==> rpow(b, x + y) == rpow(b, x) * rpow(b, y) && rpow(b, x) > 0real && rpow(b, y) > 0real && rpow(b, 0real) == 1real,
{}
pub open spec fn frac(dc: DayCounter, a: int, b: int) -> real { fraction(dc, a, b, 0, 0) }
pub open spec fn additive(dc: DayCounter) -> bool {
    &&& forall|a: int, b: int, r1: int, r2: int| #[trigger] fraction(dc, a, b, r1, r2) == frac(dc, a, b)
    &&& forall|a: int, b: int, c: int| #[trigger] frac(dc, a, b) + #[trigger] frac(dc, b, c) == frac(dc, a, c)
}
pub open spec fn exponential(y: InterestRate) -> bool {
    y.compounding == Compounding::Continuous || (y.compounding == Compounding::Compounded && y.frequency.v() > 0real && 1real + y.rate.v() / y.frequency.v() > 0real)
}
proof fn lemma_factors(y: InterestRate, t: real, u: real)
    requires exponential(y),
    ensures y.at(t) > 0real, y.at(u) > 0real, y.at(t + u) == y.at(t) * y.at(u), y.at(0real) == 1real,
{
    let (n, r) = (y.frequency.v(), y.rate.v());
    assert(n * (t + u) == n * t + n * u && r * (t + u) == r * t + r * u && n * 0real == 0real && r * 0real == 0real) by (nonlinear_arith);
    axiom_sums(1real + r / n, n * t, n * u);
    axiom_sums(1real + r / n, r * t, r * u);
}
#[verifier::spinoff_prover]
proof fn lemma_each_from_its_own_date<T: CashFlow>(leg: Seq<T>, y: InterestRate, s: int, include: bool, from: int, k: int)
    requires 0 <= k <= leg.len(), additive(y.daycounter), exponential(y),
    ensures
        time(leg, y.daycounter, s, include, from, k) == frac(y.daycounter, from, last(leg, s, include, from, k)),
        discounted(leg, y, s, include, from, k) == 1real / y.at(frac(y.daycounter, from, last(leg, s, include, from, k))),
        value(leg, y, s, include, from, k) == value_at(leg, y, s, include, from, k),
    decreases k,
{
    let dc = y.daycounter;
    assert(frac(dc, from, from) + frac(dc, from, from) == frac(dc, from, from));
    lemma_factors(y, 0real, 0real);
    assert(frac(dc, from, from) == 0real);
    assert(y.at(frac(dc, from, from)) == 1real);
    if k > 0 {
        lemma_each_from_its_own_date(leg, y, s, include, from, k - 1);
        if !paid(leg[k - 1].on(), s, include) {
            let l = last(leg, s, include, from, k - 1);
            let c = dates(leg[k - 1]);
            assert(frac(dc, c.acc_start, l) + frac(dc, l, c.on) == frac(dc, c.acc_start, c.on));
            assert(step(leg, dc, s, include, from, k - 1) == frac(dc, l, c.on));
            assert(frac(dc, from, l) + frac(dc, l, c.on) == frac(dc, from, c.on));
            let (t, u) = (frac(dc, from, l), frac(dc, l, c.on));
            lemma_factors(y, t, u);
            let (p, q) = (y.at(t), y.at(u));
            assert((1real / p) * (1real / q) == 1real / (p * q)) by (nonlinear_arith) requires p > 0real, q > 0real;
            assert(last(leg, s, include, from, k) == c.on);
            assert(p == y.at(frac(dc, from, l)));
            assert(discounted(leg, y, s, include, from, k - 1) == 1real / p);
            assert(1real / y.at(step(leg, dc, s, include, from, k - 1)) == 1real / q);
            assert(discounted(leg, y, s, include, from, k) == (1real / p) * (1real / q));
            assert(t + u == frac(dc, from, c.on));
            assert(y.at(frac(dc, from, c.on)) == p * q);
            assert(last(leg, s, include, from, k) == c.on);
            assert(discounted(leg, y, s, include, from, k) == 1real / y.at(frac(dc, from, last(leg, s, include, from, k))));
            assert(time(leg, dc, s, include, from, k) == t + u);
            assert(due(leg[k - 1], s) * discounted(leg, y, s, include, from, k) == due(leg[k - 1], s) * (1real / y.at(time(leg, dc, s, include, from, k))));
        } else {
            assert(last(leg, s, include, from, k) == last(leg, s, include, from, k - 1));
            assert(discounted(leg, y, s, include, from, k) == discounted(leg, y, s, include, from, k - 1));
        }
    } else {
        let one = y.at(frac(dc, from, from));
        assert(1real / one == 1real) by (nonlinear_arith) requires one == 1real;
        assert(k == 0 && last(leg, s, include, from, k) == from);
        assert(discounted(leg, y, s, include, from, k) == 1real);
    }
}
fn main() {}
}
