// --- safe Newton
/// the answer is a bracket's middle, or one step of less than the accuracy from a point of the bracket, along a line of the given slope
pub open spec fn last_step(f: Graph, accuracy: real, r: real, xl: real, xh: real, x0: real, slope: real) -> bool {
    ||| 2real * r == xl + xh && rabs(xh - xl) < 2real * accuracy
    ||| on(f, x0) && between(x0, xl, xh) && slope != 0real && r == x0 - val(f, x0) / slope && rabs(val(f, x0) / slope) < accuracy
}
/// a Newton step whose line does not leave the bracket
proof fn lemma_newton_in_range(root: real, xl: real, xh: real, df: real, f: real)
    requires ((root - xh) * df - f) * ((root - xl) * df - f) <= 0real, df != 0real,
    ensures between(root - f / df, xl, xh),
{
    let q = f / df;
    assert(q * df == f) by (nonlinear_arith) requires q == f / df, df != 0real;
    let (u, w) = (root - q - xh, root - q - xl);
    assert((root - xh) * df - f == u * df) by (nonlinear_arith) requires q * df == f, u == root - q - xh;
    assert((root - xl) * df - f == w * df) by (nonlinear_arith) requires q * df == f, w == root - q - xl;
    assert((u * df) * (w * df) == (u * w) * (df * df)) by (nonlinear_arith);
    assert(df * df > 0real) by (nonlinear_arith) requires df != 0real;
    assert(u * w <= 0real) by (nonlinear_arith) requires (u * w) * (df * df) <= 0real, df * df > 0real;
    lemma_opposite(u, w);
}
/// without a slope the step is refused, except at a zero
proof fn lemma_no_slope(root: real, xl: real, xh: real, df: real, f: real)
    requires ((root - xh) * df - f) * ((root - xl) * df - f) <= 0real, df == 0real,
    ensures f == 0real,
{
    assert((root - xh) * df == 0real) by (nonlinear_arith) requires df == 0real;
    assert((root - xl) * df == 0real) by (nonlinear_arith) requires df == 0real;
    assert((0real - f) * (0real - f) <= 0real);
    assert(f == 0real) by (nonlinear_arith) requires (0real - f) * (0real - f) <= 0real;
}
//@type src/maths/solvers1d/newtonsafe.rs struct NewtonSafe
impl SolverDetail for NewtonSafe {
    open spec fn lo(&self) -> real { self.lower_bound.v() }
    open spec fn up(&self) -> real { self.upper_bound.v() }
    open spec fn lo_on(&self) -> bool { self.lower_bound_enforced }
    open spec fn up_on(&self) -> bool { self.upper_bound_enforced }
    open spec fn evals(&self) -> usize { self.max_evaluations }
    /// only simple zeros
    open spec fn solvable(&self, f: Graph, g: Graph) -> bool { forall |x: real| on(f, x) && on(g, x) && val(f, x) == 0real ==> #[trigger] val(g, x) != 0real }
    open spec fn answer(&self, f: Graph, g: Graph, accuracy: real, r: real, a: real, b: real) -> bool {
        exists |xl: real, xh: real, x0: real| between(xl, a, b) && between(xh, a, b) && crosses(f, xl, xh) && between(r, xl, xh) && (on(f, x0) ==> on(g, x0)) && #[trigger] last_step(f, accuracy, r, xl, xh, x0, val(g, x0))
    }
//@fn src/maths/solvers1d/newtonsafe.rs "impl private::SolverDetail for NewtonSafe" max_evaluations
//@end
//@fn src/maths/solvers1d/newtonsafe.rs "impl private::SolverDetail for NewtonSafe" lower_bound
//@end
//@fn src/maths/solvers1d/newtonsafe.rs "impl private::SolverDetail for NewtonSafe" upper_bound
//@end
//@fn src/maths/solvers1d/newtonsafe.rs "impl private::SolverDetail for NewtonSafe" lower_bound_enforced
//@end
//@fn src/maths/solvers1d/newtonsafe.rs "impl private::SolverDetail for NewtonSafe" upper_bound_enforced
//@end
//@fn src/maths/solvers1d/newtonsafe.rs "impl private::SolverDetail for NewtonSafe" solve_impl
//@real
//@partial
//@ret answer
//@top
        let ghost (a, b) = (sd.xmin.v(), sd.xmax.v());
//@loop 0 "while sd.evaluation_number <= self.max_evaluations()"
            invariant
                function(f), function(derivative), self.solvable(graph(f), graph(derivative)), accuracy.v() > 0real, self.evals() < usize::MAX - 3,
                a == old(sd).xmin.v(), b == old(sd).xmax.v(),
                between(xl.v(), a, b), between(xh.v(), a, b), between(sd.root.v(), xl.v(), xh.v()),
                is(graph(f), sd.root.v(), froot.v()), is(graph(derivative), sd.root.v(), dfroot.v()),
                on(graph(f), xl.v()), on(graph(f), xh.v()), val(graph(f), xl.v()) <= 0real, 0real <= val(graph(f), xh.v()),
            decreases usize::MAX - sd.evaluation_number,
//@loopbody 0
            let ghost (x0, f0, d0) = (sd.root.v(), froot.v(), dfroot.v());
            proof {
                if ((x0 - xh.v()) * d0 - f0) * ((x0 - xl.v()) * d0 - f0) <= 0real {
                    if d0 == 0real { lemma_no_slope(x0, xl.v(), xh.v(), d0, f0); } else { lemma_newton_in_range(x0, xl.v(), xh.v(), d0, f0); }
                }
            }
//@before "if dx.abs() < accuracy"
            proof { if rabs(dx.v()) < accuracy.v() { assert(last_step(graph(f), accuracy.v(), sd.root.v(), xl.v(), xh.v(), x0, val(graph(derivative), x0))); } }
//@end
}
impl Solver1D for NewtonSafe {}

impl NewtonSafe {
//@fn src/maths/solvers1d/newtonsafe.rs "impl NewtonSafe" new
//@ret r
    ensures r.lo() == lower_bound.v(), r.up() == upper_bound.v(), r.lo_on() == lower_bound_enforced, r.up_on() == upper_bound_enforced, r.evals() == max_evaluations,
//@end
//@fn src/maths/solvers1d/newtonsafe.rs "impl NewtonSafe" with_max_evaluations
//@ret r
//@sub "..Default::default()" => "..NewtonSafe::default()"
//@sub "impl Solver1D" => "NewtonSafe"
    ensures !r.lo_on(), !r.up_on(), r.evals() == max_evaluations,
//@end
}
impl NewtonSafe {
    /// derived
    #[verifier::external_body]
    pub fn default() -> (r: Self)
        ensures !r.lower_bound_enforced, !r.upper_bound_enforced, r.max_evaluations == 0,
    { unimplemented!() }
}
