//@include closeness.rs
// --- functions of a real variable
/// the values of a function where it has any
pub type Graph = spec_fn(real) -> Option<real>;
/// f may answer y at x
pub open spec fn answers<F: Fn(Real) -> Real>(f: F, x: real, y: real) -> bool { exists |a: Real, b: Real| a.v() == x && b.v() == y && #[trigger] f.ensures((a,), b) }
pub open spec fn graph<F: Fn(Real) -> Real>(f: F) -> Graph {
    |x: real| if exists |y: real| #[trigger] answers(f, x, y) { Some(choose |y: real| #[trigger] answers(f, x, y)) } else { None }
}
pub open spec fn on(f: Graph, x: real) -> bool { f(x) is Some }
pub open spec fn val(f: Graph, x: real) -> real { f(x)->0 }
pub open spec fn is(f: Graph, x: real, y: real) -> bool { f(x) == Some(y) }
/// the functions solved may be called anywhere, and answer the same at the same place
pub open spec fn function<F: Fn(Real) -> Real>(f: F) -> bool {
    &&& forall |x: Real| #[trigger] f.requires((x,))
    &&& forall |x: Real, y: Real| #[trigger] f.ensures((x,), y) ==> is(graph(f), x.v(), y.v())
}
/// part of m
pub open spec fn within(f: Graph, m: spec_fn(real) -> real) -> bool { forall |x: real| #[trigger] on(f, x) ==> val(f, x) == m(x) }
/// such is every closure that computes a function of the reals
pub proof fn lemma_function<F: Fn(Real) -> Real>(f: F, m: spec_fn(real) -> real)
    requires
        forall |x: Real| #[trigger] f.requires((x,)),
        forall |x: Real, y: Real| #[trigger] f.ensures((x,), y) ==> y.v() == m(x.v()),
    ensures
        function(f), within(graph(f), m),
{
    assert forall |x: real| #[trigger] on(graph(f), x) implies val(graph(f), x) == m(x) by { assert(answers(f, x, val(graph(f), x))); }
    assert forall |x: Real, y: Real| #[trigger] f.ensures((x,), y) implies is(graph(f), x.v(), y.v()) by { assert(answers(f, x.v(), y.v())); assert(on(graph(f), x.v())); }
}
pub open spec fn zero(y: real) -> bool { near(y, 0real, 42, true) }
pub open spec fn between(x: real, a: real, b: real) -> bool { (a <= x && x <= b) || (b <= x && x <= a) }
/// the function changes sign from a to b
pub open spec fn crosses(f: Graph, a: real, b: real) -> bool {
    on(f, a) && on(f, b) && ((val(f, a) <= 0real && 0real <= val(f, b)) || (val(f, b) <= 0real && 0real <= val(f, a)))
}

//@type src/maths/solvers1d/solver1d.rs struct SolverData derive(Clone, Copy)
impl SolverData {
    #[verifier::external_body]
    pub fn default() -> (r: Self) { unimplemented!() }
    /// the end points of the bracket and the guess inside, with the function's values
    pub open spec fn bracket(&self, f: Graph) -> bool {
        let (a, b) = (self.xmin.v(), self.xmax.v());
        &&& a < self.root.v() < b
        &&& is(f, a, self.fx_min.v()) && is(f, b, self.fx_max.v())
        &&& !zero(self.fx_min.v()) && !zero(self.fx_max.v())
        &&& crosses(f, a, b)
        &&& 2 <= self.evaluation_number
    }
}
pub mod private { pub use super::SolverData; }
//@const src/maths/solvers1d/solver1d.rs MAX_FUNCTION_EVALUATIONS

pub open spec fn consistent<S: SolverDetail>(s: S) -> bool { s.lo_on() && s.up_on() ==> s.lo() <= s.up() }
/// inside the enforced bounds
pub open spec fn inside<S: SolverDetail>(s: S, x: real) -> bool { within_bounds(s.lo_on(), s.lo(), s.up_on(), s.up(), x) }
pub open spec fn within_bounds(lo_on: bool, lo: real, up_on: bool, up: real, x: real) -> bool { (lo_on ==> lo <= x) && (up_on ==> x <= up) }
pub trait SolverDetail: Sized {
    spec fn lo(&self) -> real;
    spec fn up(&self) -> real;
    spec fn lo_on(&self) -> bool;
    spec fn up_on(&self) -> bool;
    spec fn evals(&self) -> usize;
    /// what the function and derivative must meet for this solver
    spec fn solvable(&self, f: Graph, g: Graph) -> bool;
    /// what an answer of this solver, for a bracket, means
    spec fn answer(&self, f: Graph, g: Graph, accuracy: real, r: real, a: real, b: real) -> bool;

    fn solve_impl<F: Fn(Real) -> Real, G: Fn(Real) -> Real>(&self, f: F, derivative: G, accuracy: Real, solver_data: &mut SolverData) -> (r: Real)
        requires
            function(f), function(derivative), self.solvable(graph(f), graph(derivative)), accuracy.v() > 0real,
            old(solver_data).bracket(graph(f)), self.evals() < usize::MAX - 3, old(solver_data).evaluation_number < usize::MAX - 3,
        ensures
            between(r.v(), old(solver_data).xmin.v(), old(solver_data).xmax.v()),
            self.answer(graph(f), graph(derivative), accuracy.v(), r.v(), old(solver_data).xmin.v(), old(solver_data).xmax.v()),
    ;
    fn max_evaluations(&self) -> (r: Size)
        ensures r == self.evals(),
    ;
    fn lower_bound(&self) -> (r: Real)
        ensures r.v() == self.lo(),
    ;
    fn upper_bound(&self) -> (r: Real)
        ensures r.v() == self.up(),
    ;
    fn lower_bound_enforced(&self) -> (r: bool)
        ensures r == self.lo_on(),
    ;
    fn upper_bound_enforced(&self) -> (r: bool)
        ensures r == self.up_on(),
    ;
//@fn src/maths/solvers1d/solver1d.rs "pub(crate) mod private" enforce_bounds
//@ret r
    ensures
        (self.lo_on() && self.up_on() ==> self.lo() <= self.up()) ==> within_bounds(self.lo_on(), self.lo(), self.up_on(), self.up(), r.v()),
        r.v() == x.v() || (self.lo_on() && r.v() == self.lo() && x.v() < r.v()) || (self.up_on() && r.v() == self.up() && r.v() < x.v()),
//@end
}

proof fn lemma_opposite(x: real, y: real)
    ensures
        x * y <= 0real <==> (x <= 0real && 0real <= y) || (y <= 0real && 0real <= x),
        x * y < 0real <==> (x < 0real && 0real < y) || (y < 0real && 0real < x),
{
    if x > 0real && y > 0real { assert(x * y > 0real) by (nonlinear_arith) requires x > 0real, y > 0real; }
    if x < 0real && y < 0real { assert(x * y > 0real) by (nonlinear_arith) requires x < 0real, y < 0real; }
    if x > 0real && y < 0real { assert(x * y < 0real) by (nonlinear_arith) requires x > 0real, y < 0real; }
    if x < 0real && y > 0real { assert(x * y < 0real) by (nonlinear_arith) requires x < 0real, y > 0real; }
    if x == 0real || y == 0real { assert(x * y == 0real) by (nonlinear_arith) requires x == 0real || y == 0real; }
}
/// an end point of the scan moves outwards, as far as the bounds let it
pub open spec fn found<S: SolverDetail>(s: S, f: Graph, g: Graph, accuracy: real, r: real) -> bool {
    (on(f, r) && zero(val(f, r))) || exists |a: real, b: real| inside(s, a) && inside(s, b) && crosses(f, a, b) && between(r, a, b) && #[trigger] s.answer(f, g, accuracy, r, a, b)
}
pub open spec fn at_least_epsilon(accuracy: real) -> real { if accuracy < EPS() { EPS() } else { accuracy } }

pub trait Solver1D: SolverDetail {
//@fn src/maths/solvers1d/solver1d.rs "pub trait Solver1D: private::SolverDetail" solve
//@attr #[verifier::loop_isolation(false)]
//@real
//@partial
//@sub "Real::EPSILON" => "Real::epsilon()"
//@ret r
        requires
            function(f), function(derivative), self.solvable(graph(f), graph(derivative)), consistent(*self), self.evals() < usize::MAX - 4,
            inside(*self, guess.v()), step.v() > 0real,
        ensures
            accuracy.v() > 0real,
            inside(*self, r.v()),
            found(*self, graph(f), graph(derivative), at_least_epsilon(accuracy.v()), r.v()),
//@top
        let ghost asked = accuracy.v();
//@loop 0 "while sd.evaluation_number < self.max_evaluations()"
            invariant
                asked > 0real, accuracy.v() == at_least_epsilon(asked),
                function(f), function(derivative), self.solvable(graph(f), graph(derivative)), consistent(*self), self.evals() < usize::MAX - 4,
                growth_factor.v() == 16real / 10real, accuracy.v() > 0real,
                sd.xmin.v() <= sd.xmax.v(), inside(*self, sd.xmin.v()), inside(*self, sd.xmax.v()),
                is(graph(f), sd.xmin.v(), sd.fx_min.v()), is(graph(f), sd.xmax.v(), sd.fx_max.v()),
                2 <= sd.evaluation_number <= self.evals() + 3,
            decreases self.evals() + 3 - sd.evaluation_number,
//@loopbody 0
            proof { lemma_opposite(sd.fx_min.v(), sd.fx_max.v()); }
//@end
//@fn src/maths/solvers1d/solver1d.rs "pub trait Solver1D: private::SolverDetail" solve_bracketed
//@real
//@partial
//@sub "Real::EPSILON" => "Real::epsilon()"
//@sub "..Default::default()" => "..SolverData::default()"
//@ret r
        requires
            function(f), function(derivative), self.solvable(graph(f), graph(derivative)), self.evals() < usize::MAX - 4,
        ensures
            accuracy.v() > 0real, xmin.v() < xmax.v(),
            self.lo_on() ==> self.lo() <= xmin.v(), self.up_on() ==> xmax.v() <= self.up(),
            between(r.v(), xmin.v(), xmax.v()), inside(*self, r.v()),
            (on(graph(f), r.v()) && zero(val(graph(f), r.v()))) || (crosses(graph(f), xmin.v(), xmax.v()) && xmin.v() < guess.v() < xmax.v()
                && self.answer(graph(f), graph(derivative), at_least_epsilon(accuracy.v()), r.v(), xmin.v(), xmax.v())),
//@after "sd.fx_max = f(sd.xmax);"
        proof { lemma_opposite(sd.fx_min.v(), sd.fx_max.v()); }
//@end
}

