pub open spec fn duration<T: CashFlow>(leg: Seq<T>, y: InterestRate, s: int, include: bool, from: int, k: int) -> real {
    let p = value_at(leg, y, s, include, from, k);
    if p == 0real { 0real } else { -slope_at(leg, y, s, include, from, k) / p }
}
pub open spec fn quoted(dc: DayCounter, c: Compounding, f: Frequency, y: real, r: InterestRate) -> bool {
    r.valid() && r.rate.v() == y && r.daycounter == dc && r.compounding == c && (compounds(c) ==> r.frequency.v() == per_year(f) as real)
}
/// the rate y under the conventions
pub open spec fn the_rate(dc: DayCounter, c: Compounding, f: Frequency, y: real) -> InterestRate { choose|r: InterestRate| #[trigger] quoted(dc, c, f, y, r) }
/// the price above the value of the leg, as a function of the yield
pub open spec fn excess<T: CashFlow>(leg: Seq<T>, price: real, dc: DayCounter, c: Compounding, f: Frequency, include: bool, s: int, npv_date: int) -> spec_fn(real) -> real {
    |y: real| price - value(leg, the_rate(dc, c, f, y), s, include, start(s, npv_date), leg.len() as int)
}
/// the modified duration, as a function of the yield
pub open spec fn duration_in<T: CashFlow>(leg: Seq<T>, dc: DayCounter, c: Compounding, f: Frequency, include: bool, s: int, npv_date: int) -> spec_fn(real) -> real {
    |y: real| duration(leg, the_rate(dc, c, f, y), s, include, start(s, npv_date), leg.len() as int)
}
/// some amount due does not have the sign opposite to the price's
pub open spec fn explained_by<T: CashFlow>(leg: Seq<T>, price: real, s: int, include: bool, k: int) -> bool {
    exists|i: int| 0 <= i < k && !paid((#[trigger] leg[i]).on(), s, include) && !(leg[i].ex() != null() && leg[i].ex() <= s)
        && (if price > 0real { leg[i].pays() >= 0real } else { leg[i].pays() <= 0real })
}
pub open spec fn explained<T: CashFlow>(leg: Seq<T>, price: real, s: int, include: bool) -> bool { price != 0real ==> explained_by(leg, price, s, include, leg.len() as int) }
/// the leg is worth the price at the rate r, in the sense of the solver
pub open spec fn yields<T: CashFlow, S: Solver1D>(solver: S, leg: Seq<T>, price: real, dc: DayCounter, c: Compounding, f: Frequency, include: bool, s: int, npv_date: int, accuracy: real, r: real) -> bool {
    exists|a: Graph, b: Graph| within(a, excess(leg, price, dc, c, f, include, s, npv_date)) && within(b, duration_in(leg, dc, c, f, include, s, npv_date)) && #[trigger] found(solver, a, b, accuracy, r)
}
