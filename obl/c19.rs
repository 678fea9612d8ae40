//! C19: cash-flow analysis
use crate::cal::*;
use crate::obl::*;
use rust_quantlib::{
    cashflows::{
        cashflow::{self, CashFlow, CashFlowLeg},
        coupon::Coupon,
        fixedratecoupon::FixedRateCoupon,
        simplecashflow::{AmortizingPayment, Redemption, SimpleCashFlow},
    },
    datetime::{
        date::Date,
        daycounter::DayCounter,
        daycounters::{actual366::Actual366, one::One},
        frequency::Frequency,
    },
    maths::solvers1d::{brent::Brent, newtonsafe::NewtonSafe},
    rates::{compounding::Compounding, interestrate::InterestRate},
};
use std::rc::Rc;

fn day(n: i32) -> Date {
    Date::from_serial(n)
}
fn num(d: &Date) -> i32 {
    ymd_of(d).serial()
}
fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs()))
}
/// a payment, with what it accrues (None: a plain payment)
#[derive(Clone, Copy)]
struct Flow {
    date: i32,
    amount: f64,
    ex: Option<i32>,
    accrual: Option<(i32, i32)>,
    accrued: f64,
}
impl CashFlow for Flow {
    fn accrual_start_date(&self) -> Date {
        self.accrual.map_or(Date::default(), |a| day(a.0))
    }
    fn accrual_end_date(&self) -> Date {
        self.accrual.map_or(Date::default(), |a| day(a.1))
    }
    fn accrued_amount(&self, date: Date) -> f64 {
        self.accrued + num(&date) as f64
    }
    fn amount(&self) -> f64 {
        self.amount
    }
    fn date(&self) -> Date {
        day(self.date)
    }
    fn ex_coupon_date(&self) -> Date {
        self.ex.map_or(Date::default(), day)
    }
    fn reference_period_start(&self) -> Date {
        self.accrual_start_date()
    }
    fn reference_period_end(&self) -> Date {
        self.accrual_end_date()
    }
}
impl Flow {
    fn occurred(&self, s: i32, include: bool) -> bool {
        self.date < s || (self.date == s && !include)
    }
    fn due(&self, s: i32) -> f64 {
        if self.ex.is_some_and(|e| e <= s) {
            0.0
        } else {
            self.amount
        }
    }
}
const AT: i32 = 40000;
/// flows around the day AT, in order of payment
fn leg<S: Src>(s: &mut S, n: i32) -> Vec<Flow> {
    let mut v = vec![];
    for _ in 0..n {
        let date = if s.int(0, 3) == 0 { AT + s.int(-1, 1) } else { AT + s.int(-400, 2000) };
        let accrual = if s.boolean() {
            let a = date - s.int(1, 400);
            Some((a, date - s.int(0, 20).min(date - a - 1)))
        } else {
            None
        };
        let ex = match s.int(0, 3) {
            0 => Some(date - s.int(0, 30)),
            1 => Some(AT + s.int(-1, 1)),
            _ => None,
        };
        v.push(Flow { date, amount: s.int(-30, 120) as f64 / 4.0, ex, accrual, accrued: s.int(-5, 9) as f64 });
    }
    v.sort_by_key(|f| f.date);
    v
}
fn shared(v: &[Flow]) -> CashFlowLeg {
    v.iter().map(|f| Rc::new(*f) as Rc<dyn CashFlow>).collect()
}

//@ kani
pub fn a_payment_has_occurred_before_its_date_or_on_it<S: Src>(s: &mut S) {
    let a = any_ymd(s);
    let b = any_ymd(s);
    let include = s.boolean();
    let f = SimpleCashFlow::new(1.0, to_date(a));
    let before = a.serial() < b.serial();
    ensures!(s, f.has_occurred(&to_date(b), include) == (before || (a == b && !include)), "paid before, or on the day when that is excluded");
}

//@ native
pub fn occurrence_and_ex_coupon_of_every_kind_of_flow<S: Src>(s: &mut S) {
    let d = AT + s.int(-3000, 3000);
    let x = d + s.int(-40, 40);
    let include = s.boolean();
    let e = if s.boolean() { Some(d - s.int(0, 30)) } else { None };
    let flows: Vec<Rc<dyn CashFlow>> = vec![
        Rc::new(SimpleCashFlow::new(2.0, day(d))),
        Rc::new(Redemption::new(2.0, day(d))),
        Rc::new(AmortizingPayment::new(2.0, day(d))),
        Rc::new(FixedRateCoupon::new(day(d), 100.0, 0.05, DayCounter::actual360(), day(d - 100), day(d), None, None, e.map(day))),
        Rc::new(Flow { date: d, amount: 2.0, ex: e, accrual: None, accrued: 0.0 }),
    ];
    for (i, f) in flows.iter().enumerate() {
        let occurred = d < x || (d == x && !include);
        ensures!(s, f.has_occurred(&day(x), include) == occurred, "paid before, or on the day when that is excluded");
        ensures!(s, Rc::new(f.clone()).has_occurred(&day(x), include) == occurred, "shared flows too");
        let ex = i >= 3 && e.is_some_and(|e| e <= x);
        ensures!(s, f.trading_ex_coupon(day(x)) == ex, "ex-coupon from its ex-coupon date on");
        ensures!(s, num(&f.date()) == d, "paid on its date");
        ensures!(s, f.amount() == 2.0 || i == 3, "its amount");
        let accrues = i == 3;
        ensures!(s, accrues || (num(&f.accrual_start_date()) == MIN && num(&f.accrual_end_date()) == MIN && num(&f.reference_period_start()) == MIN && num(&f.reference_period_end()) == MIN), "a plain payment accrues nothing");
        ensures!(s, accrues || i == 4 || f.accrued_amount(day(x)) == 0.0, "no accrued amount");
    }
}

//@ native
pub fn the_next_payment_is_the_first_not_occurred<S: Src>(s: &mut S) {
    let n = s.int(0, 8);
    let v = leg(s, n);
    let x = AT + s.int(-3, 3);
    let include = s.boolean();
    let want = v.iter().position(|f| !f.occurred(x, include));
    ensures!(s, cashflow::next_cashflow(&v, include, day(x)) == want, "the first not occurred");
    let rc = shared(&v);
    ensures!(s, cashflow::next_cashflow(&rc, include, day(x)) == want, "of shared flows too");
    let mut due = 0.0;
    if let Some(i) = want {
        for f in v.iter().filter(|f| f.date == v[i].date) {
            due += f.accrued + x as f64;
        }
    }
    ensures!(s, near(cashflow::accrued_amount(&v, include, day(x)), due), "accruals due on that date are summed");
    ensures!(s, near(cashflow::accrued_amount(&rc, include, day(x)), due), "of shared flows too");
    if !v.is_empty() {
        let ends = v.iter().filter_map(|f| f.accrual).map(|a| a.1).max();
        let want = ends.unwrap_or_else(|| v.iter().map(|f| f.date).max().unwrap());
        ensures!(s, num(&cashflow::maturity_date(&v)) == want, "the latest accrual end, or payment if nothing accrues");
    }
}

fn coupon<S: Src>(s: &mut S, date: i32, dc: i32) -> FixedRateCoupon {
    let a = date - s.int(30, 400);
    let b = date - s.int(0, 5);
    let ex = if s.int(0, 2) == 0 { Some(day(date - s.int(1, 20))) } else { None };
    FixedRateCoupon::new(day(date), 100.0, 0.04, additive(dc), day(a), day(b), Some(day(a)), Some(day(b)), ex)
}
/// counters whose year fractions of adjacent periods add up
fn additive(k: i32) -> DayCounter {
    match k {
        0 => DayCounter::actual360(),
        _ => DayCounter::Actual366(Actual366::new()),
    }
}
fn per_day(k: i32) -> f64 {
    if k == 0 {
        1.0 / 360.0
    } else {
        1.0 / 366.0
    }
}

//@ native
pub fn accrued_days_are_those_of_the_next_coupon<S: Src>(s: &mut S) {
    let dc = s.int(0, 1);
    let n = s.int(0, 5);
    let mut v = vec![];
    let mut d = AT - s.int(-200, 300);
    for _ in 0..n {
        v.push(coupon(s, d, dc));
        d += s.int(0, 200);
    }
    let x = AT + s.int(-3, 3);
    let include = s.boolean();
    let next = v.iter().find(|c| !(num(&c.payment_date) < x || (num(&c.payment_date) == x && !include)));
    let (days, period) = match next {
        None => (0, 0.0),
        Some(c) => (c.accrued_days(day(x)), c.accrued_period(day(x))),
    };
    ensures!(s, cashflow::accrued_days(&v, include, day(x)) == days, "its accrued days");
    ensures!(s, cashflow::accrued_period(&v, include, day(x)) == period, "its accrued period");
}

fn rate<S: Src>(s: &mut S, dc: i32) -> (InterestRate, i32) {
    let c = s.int(0, 2);
    let y = s.real(-0.02, 0.2);
    let f = [Frequency::Annual, Frequency::Semiannual, Frequency::Quarterly, Frequency::Monthly][s.int(0, 3) as usize];
    (InterestRate::new(y, additive(dc), [Compounding::Simple, Compounding::Compounded, Compounding::Continuous][c as usize].clone(), f), c)
}

//@ native
pub fn present_value_sums_the_discounted_future_amounts<S: Src>(s: &mut S) {
    let n = s.int(0, 8);
    let v = leg(s, n);
    let dc = s.int(0, 1);
    let (y, c) = rate(s, dc);
    let x = AT + s.int(-2, 2);
    let include = s.boolean();
    let npv_date = match s.int(0, 2) {
        0 => None,
        1 => Some(x),
        _ => Some(x - s.int(1, 100)),
    };
    let start = npv_date.unwrap_or(x);
    let mut want = 0.0;
    let mut discount = 1.0;
    let mut last = start;
    for f in v.iter().filter(|f| !f.occurred(x, include)) {
        let t = (f.date - last) as f64 * per_day(dc);
        requires!(s, t >= 0.0);
        discount *= if c == 0 {
            1.0 / (1.0 + y.rate * t)
        } else if c == 1 {
            (1.0 + y.rate / y.frequency).powf(-y.frequency * t)
        } else {
            (-y.rate * t).exp()
        };
        last = f.date;
        want += f.due(x) * discount;
    }
    let at = npv_date.map_or(Date::default(), day);
    ensures!(s, near(cashflow::npv(&v, &y, include, day(x), at), want), "amounts still due times their discount factors");
    ensures!(s, near(cashflow::npv(&shared(&v), &y, include, day(x), at), want), "of shared flows too");
    if c != 0 {
        // each from its own date
        let mut direct = 0.0;
        for f in v.iter().filter(|f| !f.occurred(x, include)) {
            direct += f.due(x) * y.discount_factor((f.date - start) as f64 * per_day(dc));
        }
        ensures!(s, near(cashflow::npv(&v, &y, include, day(x), at), direct), "discounted from each payment date");
    }
}

// a counter that reads the reference period: each step is measured over the flow's own, from its start of
// accrual, and over the year before payment (or since the last payment) where the flow has none
//@ native
pub fn steps_are_measured_over_the_flows_reference_period<S: Src>(s: &mut S) {
    let x = AT;
    let mut v = vec![];
    let mut d = x + s.int(1, 500);
    for _ in 0..s.int(1, 4) {
        let accrual = if s.boolean() { Some((d - s.int(20, 400), d)) } else { None };
        v.push(Flow { date: d, amount: s.int(1, 100) as f64, ex: None, accrual, accrued: 0.0 });
        d += s.int(0, 1) * s.int(1, 500);
    }
    let dc = DayCounter::actual_actual_old_isma();
    let rate = s.real(-0.02, 0.2);
    let y = InterestRate::new(rate, dc.clone(), Compounding::Continuous, Frequency::Annual);
    let want = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let (mut last, mut t, mut sum) = (x, 0.0, 0.0);
        for f in &v {
            let (rs, re) = match f.accrual {
                Some(a) => (day(a.0), day(a.1)),
                None if last == x => {
                    let c = ymd_of(&day(f.date));
                    (day(serial(c.y - 1, c.m, c.d.min(mlen(c.y - 1, c.m)))), day(f.date))
                }
                None => (day(last), day(f.date)),
            };
            let f0 = |a: i32, b: i32| dc.year_fraction(&day(a), &day(b), &rs, &re);
            t += match f.accrual {
                Some(a) if a.0 != last => f0(a.0, f.date) - f0(a.0, last),
                _ => f0(last, f.date),
            };
            sum += f.amount * (-rate * t).exp();
            last = f.date;
        }
        sum
    }));
    requires!(s, want.is_ok());
    ensures!(s, near(cashflow::npv(&v, &y, false, day(x), day(x)), want.unwrap()), "each flow over its reference period");
}

//@ native
pub fn modified_duration_is_the_relative_slope_of_the_value<S: Src>(s: &mut S) {
    let n = s.int(0, 8);
    let v = leg(s, n);
    let dc = s.int(0, 1);
    let (y, c) = rate(s, dc);
    let x = AT + s.int(-2, 2);
    let include = s.boolean();
    let start = if s.boolean() { x } else { x - s.int(1, 50) };
    let (mut p, mut slope, mut size) = (0.0, 0.0, 0.0);
    for f in v.iter().filter(|f| !f.occurred(x, include)) {
        let t = (f.date - start) as f64 * per_day(dc);
        let b = y.discount_factor(t);
        p += f.due(x) * b;
        size += f.due(x).abs() * b;
        slope += f.due(x) * t * match c {
            0 => b * b,
            1 => b / (1.0 + y.rate / y.frequency),
            _ => b,
        };
    }
    requires!(s, p == 0.0 || p.abs() > 0.01 * size);
    let want = if p == 0.0 { 0.0 } else { slope / p };
    let got = cashflow::modified_duration(&v, &y, include, day(x), day(start));
    ensures!(s, (got - want).abs() <= 1e-6 * (1.0 + want.abs()), "minus the relative slope");
    if start == x {
        let got = cashflow::modified_duration(&v, &y, include, day(x), Date::default());
        ensures!(s, (got - want).abs() <= 1e-6 * (1.0 + want.abs()), "from the settlement date where none is given");
    }
}

//@ native
pub fn the_implied_yield_reprices_the_leg<S: Src>(s: &mut S) {
    let dc = s.int(0, 1);
    let n = s.int(1, 8);
    let x = AT;
    let include = s.boolean();
    let mut v = vec![];
    let mut d = AT - s.int(0, 60);
    let unit = [1.0, 1e-6, 1e4][s.int(0, 2) as usize];
    for _ in 0..n {
        d += s.int(20, 300);
        v.push(Flow { date: d, amount: unit * s.int(1, 40) as f64, ex: None, accrual: None, accrued: 0.0 });
    }
    v.push(Flow { date: d, amount: unit * 100.0, ex: None, accrual: None, accrued: 0.0 });
    requires!(s, d > AT + 60);
    let y0 = s.real(0.005, 0.15);
    let c = [Compounding::Compounded, Compounding::Continuous][s.int(0, 1) as usize].clone();
    let f = [Frequency::Annual, Frequency::Semiannual, Frequency::Quarterly][s.int(0, 2) as usize];
    let price = cashflow::npv(&v, &InterestRate::new(y0, additive(dc), c.clone(), f), include, day(x), day(x));
    let brent = s.boolean();
    // the safe Newton method is given the duration for the slope, which stops it early on a leg
    // worth much less than one (a known finding, below)
    let y = if brent || unit < 1.0 {
        cashflow::bond_yield(&Brent::default(), &v, price, additive(dc), c.clone(), f, include, day(x), day(x), 1e-10, 0.05)
    } else {
        cashflow::bond_yield(&NewtonSafe::with_max_evaluations(100), &v, price, additive(dc), c.clone(), f, include, day(x), day(x), 1e-10, 0.05)
    };
    ensures!(s, (y - y0).abs() < 1e-7, "the yield the price came from");
}

//@ native
pub fn the_newton_yield_of_a_leg_worth_a_millionth<S: Src>(s: &mut S) {
    let v = vec![Flow { date: AT + 1000, amount: 1e-6, ex: None, accrual: None, accrued: 0.0 }];
    let y0 = 0.08;
    let (c, f) = (Compounding::Continuous, Frequency::Annual);
    let price = cashflow::npv(&v, &InterestRate::new(y0, additive(0), c.clone(), f), false, day(AT), day(AT));
    let y = cashflow::bond_yield(&NewtonSafe::with_max_evaluations(100), &v, price, additive(0), c, f, false, day(AT), day(AT), 1e-8, 0.05);
    ensures!(s, (y - y0).abs() < 1e-6, "Newton yield of one payment of 1e-6 in 1000 days priced at 8% is found from a guess of 5% (IrrFinder::derivative is the duration, not the slope)");
}

//@ native reject
pub fn prices_no_yield_can_explain_are_rejected<S: Src>(s: &mut S) {
    let n = s.int(0, 6);
    let mut v = leg(s, n);
    for f in v.iter_mut() {
        f.amount = f.amount.abs() + 1.0;
    }
    let negative = s.boolean();
    if negative {
        for f in v.iter_mut() {
            f.amount = -f.amount;
        }
    }
    let price = s.real(1.0, 100.0) * if negative { 1.0 } else { -1.0 };
    let which = s.int(0, 1);
    let none: Vec<Flow> = vec![];
    rejects!(s, {
        if which == 0 {
            cashflow::bond_yield(&Brent::default(), &v, price, DayCounter::actual360(), Compounding::Continuous, Frequency::Annual, false, day(AT), day(AT), 1e-8, 0.05);
        } else {
            cashflow::maturity_date(&none);
        }
    }, "all flows have the sign of the price");
}
