use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
use core::ops::*;
use core::cmp::Ordering;

verus! {

pub type Integer = i32;
pub type Size = usize;

//@include real.rs

//@include solvers_base.rs
//@fn src/maths/comparison.rs "" close_n
//@real
//@ret r
//@sub "Real::EPSILON" => "Real::epsilon()"
    ensures r == near(x.v(), y.v(), n as int, true),
//@end

// --- Brent
//@type src/maths/solvers1d/brent.rs struct Brent
//@fn src/maths/solvers1d/brent.rs "" sign
//@real
//@ret r
    ensures r.v() == if b.v() >= 0real { rabs(a.v()) } else { -rabs(a.v()) },
//@end
proof fn lemma_interpolated_step(xmid: real, p: real, q: real, xacc: real, e: real)
    requires p >= 0real, 2real * p < 3real * xmid * q - rabs(xacc * q), 2real * p < rabs(e * q),
    ensures q != 0real, between(p / q, 0real, 2real * xmid),
{
    if q == 0real { assert(e * q == 0real) by (nonlinear_arith) requires q == 0real; }
    let d = p / q;
    assert(d * q == p) by (nonlinear_arith) requires d == p / q, q != 0real;
    assert(3real * xmid * q > 2real * d * q) by (nonlinear_arith) requires d * q == p, 2real * p < 3real * xmid * q;
    if q > 0real {
        assert(d >= 0real) by (nonlinear_arith) requires d * q == p, p >= 0real, q > 0real;
        assert(2real * d < 3real * xmid) by (nonlinear_arith) requires 3real * xmid * q > 2real * d * q, q > 0real;
    } else {
        assert(d <= 0real) by (nonlinear_arith) requires d * q == p, p >= 0real, q < 0real;
        assert(2real * d > 3real * xmid) by (nonlinear_arith) requires 3real * xmid * q > 2real * d * q, q < 0real;
    }
}
impl SolverDetail for Brent {
    open spec fn lo(&self) -> real { self.lower_bound.v() }
    open spec fn up(&self) -> real { self.upper_bound.v() }
    open spec fn lo_on(&self) -> bool { self.lower_bound_enforced }
    open spec fn up_on(&self) -> bool { self.upper_bound_enforced }
    open spec fn evals(&self) -> usize { MAX_FUNCTION_EVALUATIONS }
    open spec fn solvable(&self, f: Graph, g: Graph) -> bool { true }
    /// the function crosses zero within the accuracy (and four epsilons of the answer) of the answer
    open spec fn answer(&self, f: Graph, g: Graph, accuracy: real, r: real, a: real, b: real) -> bool {
        (on(f, r) && zero(val(f, r))) || exists |z: real| between(z, a, b) && #[trigger] crosses(f, r, z) && rabs(z - r) <= accuracy + 4real * EPS() * rabs(r)
    }
//@fn src/maths/solvers1d/solver1d.rs "pub(crate) mod private" max_evaluations
//@end
//@fn src/maths/solvers1d/brent.rs "impl private::SolverDetail for Brent" lower_bound
//@end
//@fn src/maths/solvers1d/brent.rs "impl private::SolverDetail for Brent" upper_bound
//@end
//@fn src/maths/solvers1d/brent.rs "impl private::SolverDetail for Brent" lower_bound_enforced
//@end
//@fn src/maths/solvers1d/brent.rs "impl private::SolverDetail for Brent" upper_bound_enforced
//@end
//@fn src/maths/solvers1d/brent.rs "impl private::SolverDetail for Brent" solve_impl
//@real
//@partial
//@ret answer
//@sub "Real::EPSILON" => "Real::epsilon()"
//@top
        let ghost (a, b) = (sd.xmin.v(), sd.xmax.v());
//@before "if f_root * sd.fx_min < 0.0"
        proof { lemma_opposite(f_root.v(), sd.fx_min.v()); }
//@loop 0 "while sd.evaluation_number < self.max_evaluations()"
            invariant
                function(f), accuracy.v() > 0real, a == old(sd).xmin.v(), b == old(sd).xmax.v(),
                between(sd.root.v(), a, b), between(sd.xmin.v(), a, b), between(sd.xmax.v(), a, b),
                is(graph(f), sd.root.v(), f_root.v()), is(graph(f), sd.xmin.v(), sd.fx_min.v()), is(graph(f), sd.xmax.v(), sd.fx_max.v()),
                !zero(sd.fx_min.v()), !zero(sd.fx_max.v()),
                // a sign change between the end point and the guess or the last guess
                crosses(graph(f), sd.xmax.v(), sd.root.v()) || crosses(graph(f), sd.xmax.v(), sd.xmin.v()),
                2 <= sd.evaluation_number, sd.evaluation_number <= self.evals() + 1 || sd.evaluation_number < usize::MAX - 2,
            decreases usize::MAX - sd.evaluation_number,
//@after "let xmid = (sd.xmax - sd.root) / 2.0;"
            assert(crosses(graph(f), sd.root.v(), sd.xmax.v()));
//@before "if 2.0 * p < min1.min(min2)"
                let ghost (pp, qq, ee) = (p.v(), q.v(), e.v());
//@after "d = p / q;"
                    proof { lemma_interpolated_step(xmid.v(), pp, qq, xacc1.v(), ee); }
//@end
}
impl Solver1D for Brent {}

//@include solvers_newton.rs

//@type src/maths/solvers1d/finitedifferencenewtonsafe.rs struct FiniteDifferenceNewtonSafe
/// the slope of the line through two points of the function's graph
pub open spec fn secant(f: Graph, x0: real, x1: real) -> real { (val(f, x1) - val(f, x0)) / (x1 - x0) }
impl SolverDetail for FiniteDifferenceNewtonSafe {
    open spec fn lo(&self) -> real { self.lower_bound.v() }
    open spec fn up(&self) -> real { self.upper_bound.v() }
    open spec fn lo_on(&self) -> bool { self.lower_bound_enforced }
    open spec fn up_on(&self) -> bool { self.upper_bound_enforced }
    open spec fn evals(&self) -> usize { MAX_FUNCTION_EVALUATIONS }
    open spec fn solvable(&self, f: Graph, g: Graph) -> bool { true }
    open spec fn answer(&self, f: Graph, g: Graph, accuracy: real, r: real, a: real, b: real) -> bool {
        exists |xl: real, xh: real, x0: real, x1: real| between(xl, a, b) && between(xh, a, b) && between(x1, a, b) && on(f, x1) && crosses(f, xl, xh) && between(r, xl, xh)
            && #[trigger] last_step(f, accuracy, r, xl, xh, x0, secant(f, x0, x1))
    }
//@fn src/maths/solvers1d/solver1d.rs "pub(crate) mod private" max_evaluations
//@end
//@fn src/maths/solvers1d/finitedifferencenewtonsafe.rs "impl private::SolverDetail for FiniteDifferenceNewtonSafe" lower_bound
//@end
//@fn src/maths/solvers1d/finitedifferencenewtonsafe.rs "impl private::SolverDetail for FiniteDifferenceNewtonSafe" upper_bound
//@end
//@fn src/maths/solvers1d/finitedifferencenewtonsafe.rs "impl private::SolverDetail for FiniteDifferenceNewtonSafe" lower_bound_enforced
//@end
//@fn src/maths/solvers1d/finitedifferencenewtonsafe.rs "impl private::SolverDetail for FiniteDifferenceNewtonSafe" upper_bound_enforced
//@end
//@fn src/maths/solvers1d/finitedifferencenewtonsafe.rs "impl private::SolverDetail for FiniteDifferenceNewtonSafe" solve_impl
//@real
//@partial
//@ret answer
//@top
        let ghost (a, b) = (sd.xmin.v(), sd.xmax.v());
//@before "let mut dx = sd.xmax - sd.xmin;"
        let ghost mut x1 = if sd.xmax.v() - sd.root.v() < sd.root.v() - sd.xmin.v() { sd.xmax.v() } else { sd.xmin.v() };
        proof { lemma_secant_zero(graph(f), sd.root.v(), x1); }
//@loop 0 "while sd.evaluation_number <= self.max_evaluations()"
            invariant
                function(f), accuracy.v() > 0real,
                a == old(sd).xmin.v(), b == old(sd).xmax.v(),
                between(xl.v(), a, b), between(xh.v(), a, b), between(sd.root.v(), xl.v(), xh.v()), between(x1, a, b),
                is(graph(f), sd.root.v(), f_root.v()),
                on(graph(f), xl.v()), on(graph(f), xh.v()), on(graph(f), x1), val(graph(f), xl.v()) < 0real, 0real <= val(graph(f), xh.v()),
                val(graph(f), xh.v()) == 0real ==> f_root.v() == 0real,
                x1 != sd.root.v(), df_root.v() == secant(graph(f), sd.root.v(), x1), f_root.v() == 0real ==> df_root.v() != 0real,
            decreases usize::MAX - sd.evaluation_number,
//@loopbody 0
            let ghost (x0, f0, d0) = (sd.root.v(), f_root.v(), df_root.v());
            proof {
                let p = ((x0 - xh.v()) * d0 - f0) * ((x0 - xl.v()) * d0 - f0);
                if p <= 0real {
                    if d0 == 0real { lemma_no_slope(x0, xl.v(), xh.v(), d0, f0); } else { lemma_newton_in_range(x0, xl.v(), xh.v(), d0, f0); }
                }
                if f0 == 0real { lemma_at_a_zero(x0, xl.v(), xh.v(), d0); }
                if f0 == 0real && d0 != 0real { assert(f0 / d0 == 0real) by (nonlinear_arith) requires f0 == 0real, d0 != 0real; }
                if f0 != 0real && d0 != 0real { assert(f0 / d0 != 0real) by (nonlinear_arith) requires f0 != 0real, d0 != 0real; }
            }
            let ghost x1_before = x1;
//@before "if dx.abs() < accuracy"
            proof { if rabs(dx.v()) < accuracy.v() { assert(last_step(graph(f), accuracy.v(), sd.root.v(), xl.v(), xh.v(), x0, secant(graph(f), x0, x1_before))); } }
//@after "df_root = (f_root_old - f_root) / (root_old - sd.root);"
            proof { x1 = root_old.v(); lemma_secant_zero(graph(f), sd.root.v(), x1); }
//@end
}
impl Solver1D for FiniteDifferenceNewtonSafe {}
proof fn lemma_secant_zero(f: Graph, x0: real, x1: real)
    requires x0 != x1,
    ensures val(f, x0) == 0real && val(f, x1) != 0real ==> secant(f, x0, x1) != 0real,
{
    let (n, d) = (val(f, x1) - val(f, x0), x1 - x0);
    assert(n != 0real ==> n / d != 0real) by (nonlinear_arith) requires d != 0real;
}
proof fn lemma_at_a_zero(root: real, xl: real, xh: real, df: real)
    requires between(root, xl, xh),
    ensures ((root - xh) * df - 0real) * ((root - xl) * df - 0real) <= 0real,
{
    let (u, w) = (root - xh, root - xl);
    lemma_opposite(u, w);
    assert((u * df) * (w * df) == (u * w) * (df * df)) by (nonlinear_arith);
    assert(df * df >= 0real) by (nonlinear_arith);
    assert((u * w) * (df * df) <= 0real) by (nonlinear_arith) requires u * w <= 0real, df * df >= 0real;
}
impl Brent {
//@fn src/maths/solvers1d/brent.rs "impl Brent" new
//@ret r
    ensures r.lo() == lower_bound.v(), r.up() == upper_bound.v(), r.lo_on() == lower_bound_enforced, r.up_on() == upper_bound_enforced,
//@end
}
impl FiniteDifferenceNewtonSafe {
//@fn src/maths/solvers1d/finitedifferencenewtonsafe.rs "impl FiniteDifferenceNewtonSafe" new
//@ret r
    ensures r.lo() == lower_bound.v(), r.up() == upper_bound.v(), r.lo_on() == lower_bound_enforced, r.up_on() == upper_bound_enforced,
//@end
}
fn main() {}
}
