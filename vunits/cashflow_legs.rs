// --- legs
pub open spec fn dates<T: CashFlow>(c: T) -> Dates { Dates { on: c.on(), acc_start: c.acc_start(), acc_end: c.acc_end(), ref_start: c.ref_start(), ref_end: c.ref_end(), ex: c.ex() } }
pub open spec fn all_ok<T: CashFlow>(leg: Seq<T>) -> bool { forall|i: int| 0 <= i < leg.len() ==> (#[trigger] leg[i]).ok() }
/// the first flow not paid
pub open spec fn is_next<T: CashFlow>(leg: Seq<T>, s: int, include: bool, r: Option<usize>) -> bool {
    match r {
        Some(i) => i < leg.len() && !paid(leg[i as int].on(), s, include) && forall|j: int| 0 <= j < i ==> paid((#[trigger] leg[j]).on(), s, include),
        None => forall|j: int| 0 <= j < leg.len() ==> paid((#[trigger] leg[j]).on(), s, include),
    }
}
//@fn src/cashflows/cashflow.rs "" next_cashflow
//@indexed
//@ret r
    requires all_ok(leg@), wf(settlement_date),
    ensures is_next(leg@, settlement_date.s(), include_settlement_date_flows, r),
//@loop 0 "for index in 0..leg.len()"
        invariant all_ok(leg@), wf(settlement_date), forall|j: int| 0 <= j < index ==> paid((#[trigger] leg@[j]).on(), settlement_date.s(), include_settlement_date_flows),
//@end
/// what the first k flows paid on the day have accrued
pub open spec fn accrued_on<T: CashFlow>(leg: Seq<T>, day: int, at: int, k: int) -> real
    decreases k,
{
    if k <= 0 { 0real } else { accrued_on(leg, day, at, k - 1) + if leg[k - 1].on() == day { leg[k - 1].accrued(at) } else { 0real } }
}
proof fn lemma_none_on<T: CashFlow>(leg: Seq<T>, day: int, at: int, k: int)
    requires 0 <= k <= leg.len(), forall|j: int| 0 <= j < k ==> (#[trigger] leg[j]).on() != day,
    ensures accrued_on(leg, day, at, k) == 0real,
    decreases k,
{
    if k > 0 { lemma_none_on(leg, day, at, k - 1); assert(leg[k - 1].on() != day); }
}
//@fn src/cashflows/cashflow.rs "" accrued_amount
//@real
//@ret r
    requires all_ok(leg@), wf(date),
    ensures exists|n: Option<usize>| #[trigger] is_next(leg@, date.s(), include_settlement_date_flows, n) && r.v() == match n {
        Some(i) => accrued_on(leg@, leg@[i as int].on(), date.s(), leg@.len() as int),
        None => 0real,
    },
//@before "while i < leg.len()"
        let ghost first = i;
        proof { lemma_none_on(leg@, leg@[first as int].on(), date.s(), first as int); }
//@loop 0 "while i < leg.len()"
            invariant
                all_ok(leg@), wf(date), first < leg@.len(), first <= i <= leg@.len(), payment_date.s() == leg@[first as int].on(), wf(payment_date),
                result.v() == accrued_on(leg@, leg@[first as int].on(), date.s(), i as int),
            decreases leg@.len() - i,
//@end
//@fn src/cashflows/cashflow.rs "" accrued_days
//@ret r
    requires all_ok(leg@), wf(date),
    ensures exists|n: Option<usize>| #[trigger] is_next(leg@, date.s(), include_settlement_date_flows, n) && r == match n {
        Some(i) => days_accrued(dates(leg@[i as int]), leg@[i as int].counter(), date.s()),
        None => 0int,
    },
//@before "while i < leg.len()"
        let ghost first = i;
//@loop 0 "while i < leg.len()"
            invariant all_ok(leg@), wf(date), first < leg@.len(), i == first, payment_date.s() == leg@[first as int].on(), wf(payment_date), is_next(leg@, date.s(), include_settlement_date_flows, Some(first)),
            ensures false,
            decreases leg@.len() - i,
//@end
//@fn src/cashflows/cashflow.rs "" accrued_period
//@real
//@ret r
    requires all_ok(leg@), wf(date),
    ensures exists|n: Option<usize>| #[trigger] is_next(leg@, date.s(), include_settlement_date_flows, n) && r.v() == match n {
        Some(i) => period_accrued(dates(leg@[i as int]), leg@[i as int].counter(), date.s()),
        None => 0real,
    },
//@before "while i < leg.len()"
        let ghost first = i;
//@loop 0 "while i < leg.len()"
            invariant all_ok(leg@), wf(date), first < leg@.len(), i == first, payment_date.s() == leg@[first as int].on(), wf(payment_date), is_next(leg@, date.s(), include_settlement_date_flows, Some(first)),
            ensures false,
            decreases leg@.len() - i,
//@end
pub open spec fn latest_end<T: CashFlow>(leg: Seq<T>, k: int) -> int
    decreases k,
{
    if k <= 0 { null() } else { let m = latest_end(leg, k - 1); if m <= leg[k - 1].acc_end() { leg[k - 1].acc_end() } else { m } }
}
pub open spec fn latest_payment<T: CashFlow>(leg: Seq<T>, k: int) -> int
    decreases k,
{
    if k <= 0 { null() } else { let m = latest_payment(leg, k - 1); if m <= leg[k - 1].on() { leg[k - 1].on() } else { m } }
}
//@fn src/cashflows/cashflow.rs "" maturity_date
//@walked
//@partial
//@ret r
    requires all_ok(cashflows@),
    ensures
        cashflows@.len() > 0,
        r.s() == if latest_end(cashflows@, cashflows@.len() as int) != null() { latest_end(cashflows@, cashflows@.len() as int) } else { latest_payment(cashflows@, cashflows@.len() as int) },
//@loop 0 "while cf_i < cashflows.len()"
        invariant all_ok(cashflows@), cf_i <= cashflows@.len(), d.s() == latest_end(cashflows@, cf_i as int),
        decreases cashflows@.len() - cf_i,
//@loop 1 "while cf_i < cashflows.len()"
        invariant all_ok(cashflows@), cf_i <= cashflows@.len(), d.s() == latest_payment(cashflows@, cf_i as int),
        decreases cashflows@.len() - cf_i,
//@end

// --- present value
pub open spec fn due<T: CashFlow>(c: T, s: int) -> real { if c.ex() != null() && c.ex() <= s { 0real } else { c.pays() } }
/// the date of the last flow still to be paid among the first k, or the valuation date
pub open spec fn last<T: CashFlow>(leg: Seq<T>, s: int, include: bool, from: int, k: int) -> int
    decreases k,
{
    if k <= 0 { from } else if paid(leg[k - 1].on(), s, include) { last(leg, s, include, from, k - 1) } else { leg[k - 1].on() }
}
/// the time from the previous such flow to flow k
pub open spec fn step<T: CashFlow>(leg: Seq<T>, dc: DayCounter, s: int, include: bool, from: int, k: int) -> real {
    step_time(dates(leg[k]), dc, from, last(leg, s, include, from, k))
}
/// the discount factor reached after the first k flows
pub open spec fn discounted<T: CashFlow>(leg: Seq<T>, y: InterestRate, s: int, include: bool, from: int, k: int) -> real
    decreases k,
{
    if k <= 0 { 1real } else if paid(leg[k - 1].on(), s, include) { discounted(leg, y, s, include, from, k - 1) }
    else { discounted(leg, y, s, include, from, k - 1) * (1real / y.at(step(leg, y.daycounter, s, include, from, k - 1))) }
}
pub open spec fn value<T: CashFlow>(leg: Seq<T>, y: InterestRate, s: int, include: bool, from: int, k: int) -> real
    decreases k,
{
    if k <= 0 { 0real } else if paid(leg[k - 1].on(), s, include) { value(leg, y, s, include, from, k - 1) }
    else { value(leg, y, s, include, from, k - 1) + due(leg[k - 1], s) * discounted(leg, y, s, include, from, k) }
}
pub open spec fn start(s: int, npv_date: int) -> int { if npv_date == null() { s } else { npv_date } }
pub open spec fn dated<T: CashFlow>(leg: Seq<T>) -> bool { forall|i: int| 0 <= i < leg.len() ==> movable((#[trigger] leg[i]).on(), -1, TimeUnit::Years) }
//@fn src/cashflows/cashflow.rs "" npv
//@walked
//@real
//@ret r
    requires all_ok(cashflows@), dated(cashflows@), wf(settlement_date), wf(npv_date), interestrate.valid(), forall|t: real| t >= 0real ==> #[trigger] interestrate.at(t) != 0real,
    ensures r.v() == value(cashflows@, *interestrate, settlement_date.s(), include_settlement_date_flows, start(settlement_date.s(), npv_date.s()), cashflows@.len() as int),
//@loop 0 "while cf_i < cashflows.len()"
        invariant
            all_ok(cashflows@), dated(cashflows@), wf(settlement_date), wf(npv_date), interestrate.valid(), forall|t: real| t >= 0real ==> #[trigger] interestrate.at(t) != 0real,
            *daycounter == interestrate.daycounter, cf_i <= cashflows@.len(), wf(last_date),
            last_date.s() == last(cashflows@, settlement_date.s(), include_settlement_date_flows, npv_date.s(), cf_i as int),
            discount.v() == discounted(cashflows@, *interestrate, settlement_date.s(), include_settlement_date_flows, npv_date.s(), cf_i as int),
            npv.v() == value(cashflows@, *interestrate, settlement_date.s(), include_settlement_date_flows, npv_date.s(), cf_i as int),
        decreases cashflows@.len() - cf_i,
//@end

// --- modified duration
/// the time from the valuation date to flow k
pub open spec fn time<T: CashFlow>(leg: Seq<T>, dc: DayCounter, s: int, include: bool, from: int, k: int) -> real
    decreases k,
{
    if k <= 0 { 0real } else if paid(leg[k - 1].on(), s, include) { time(leg, dc, s, include, from, k - 1) }
    else { time(leg, dc, s, include, from, k - 1) + step(leg, dc, s, include, from, k - 1) }
}
/// the derivative in the rate of a discount factor 1 / factor(t)
pub open spec fn slope(y: InterestRate, t: real) -> real {
    let b = 1real / y.at(t);
    let (n, r) = (y.frequency.v(), y.rate.v());
    let simple = -(t * b * b);
    let exponential = -(t * b / (1real + r / n));
    match y.compounding {
        Compounding::Simple => simple,
        Compounding::Compounded => exponential,
        Compounding::Continuous => -(t * b),
        Compounding::SimpleThenCompounded => if t <= 1real / n { simple } else { exponential },
        Compounding::CompoundedThenSimple => if t <= 1real / n { exponential } else { simple },
    }
}
pub open spec fn value_at<T: CashFlow>(leg: Seq<T>, y: InterestRate, s: int, include: bool, from: int, k: int) -> real
    decreases k,
{
    if k <= 0 { 0real } else if paid(leg[k - 1].on(), s, include) { value_at(leg, y, s, include, from, k - 1) }
    else { value_at(leg, y, s, include, from, k - 1) + due(leg[k - 1], s) * (1real / y.at(time(leg, y.daycounter, s, include, from, k))) }
}
pub open spec fn slope_at<T: CashFlow>(leg: Seq<T>, y: InterestRate, s: int, include: bool, from: int, k: int) -> real
    decreases k,
{
    if k <= 0 { 0real } else if paid(leg[k - 1].on(), s, include) { slope_at(leg, y, s, include, from, k - 1) }
    else { slope_at(leg, y, s, include, from, k - 1) + due(leg[k - 1], s) * slope(y, time(leg, y.daycounter, s, include, from, k)) }
}
proof fn lemma_slopes(c: real, b: real, t: real, d: real)
    requires d != 0real,
    ensures c * b * b * t == -(c * -(t * b * b)), c * t * b / d == -(c * -(t * b / d)), c * b * t == -(c * -(t * b)),
{
    assert(c * b * b * t == c * (t * b * b)) by (nonlinear_arith);
    assert(c * b * t == c * (t * b)) by (nonlinear_arith);
    assert(c * t * b == c * (t * b)) by (nonlinear_arith);
    let q = t * b / d;
    assert(q * d == t * b) by (nonlinear_arith) requires q == t * b / d, d != 0real;
    assert(c * (t * b) == (c * q) * d) by (nonlinear_arith) requires q * d == t * b;
    assert((c * (t * b)) / d == c * q) by (nonlinear_arith) requires c * (t * b) == (c * q) * d, d != 0real;
    assert(c * -(t * b * b) == -(c * (t * b * b))) by (nonlinear_arith);
    assert(c * -(t * b) == -(c * (t * b))) by (nonlinear_arith);
    assert(c * -q == -(c * q)) by (nonlinear_arith);
}
//@fn src/cashflows/cashflow.rs "" modified_duration
//@walked
//@real
//@ret r
    requires
        all_ok(cashflows@), dated(cashflows@), wf(settlement_date), wf(npv_date), y.valid(), forall|t: real| t >= 0real ==> #[trigger] y.at(t) != 0real,
        compounds(y.compounding) ==> y.frequency.v() > 0real && 1real + y.rate.v() / y.frequency.v() != 0real,
    ensures ({
        let p = value_at(cashflows@, *y, settlement_date.s(), include_settlement_date_flows, start(settlement_date.s(), npv_date.s()), cashflows@.len() as int);
        r.v() == if p == 0real { 0real } else { -slope_at(cashflows@, *y, settlement_date.s(), include_settlement_date_flows, start(settlement_date.s(), npv_date.s()), cashflows@.len() as int) / p }
    }),
//@loop 0 "while cf_i < cashflows.len()"
        invariant
            all_ok(cashflows@), dated(cashflows@), wf(settlement_date), wf(npv_date), y.valid(), forall|t: real| t >= 0real ==> #[trigger] y.at(t) != 0real,
            compounds(y.compounding) ==> y.frequency.v() > 0real && 1real + y.rate.v() / y.frequency.v() != 0real, n == y.frequency, r == y.rate,
            *daycounter == y.daycounter, cf_i <= cashflows@.len(), wf(last_date),
            last_date.s() == last(cashflows@, settlement_date.s(), include_settlement_date_flows, npv_date.s(), cf_i as int),
            t.v() == time(cashflows@, y.daycounter, settlement_date.s(), include_settlement_date_flows, npv_date.s(), cf_i as int),
            p.v() == value_at(cashflows@, *y, settlement_date.s(), include_settlement_date_flows, npv_date.s(), cf_i as int),
            dpdy.v() == slope_at(cashflows@, *y, settlement_date.s(), include_settlement_date_flows, npv_date.s(), cf_i as int),
        decreases cashflows@.len() - cf_i,
//@after "let discount_factor"
            proof {
                lemma_slopes(c.v(), discount_factor.v(), t.v(), if compounds(y.compounding) { 1real + y.rate.v() / y.frequency.v() } else { 1real });
                assert(discount_factor.v() == 1real / y.at(t.v()));
            }
//@end
