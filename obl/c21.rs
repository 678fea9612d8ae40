//! C21: bonds
use crate::cal::*;
use crate::obl::*;
use crate::sched::*;
use rust_quantlib::{
    cashflows::{
        cashflow::{self, CashFlow},
        fixedrateleg::FixedRateLeg,
    },
    datetime::{
        businessdayconvention::BusinessDayConvention::{self, *},
        date::Date,
        daycounter::DayCounter,
        frequency::Frequency,
        period::Period,
        schedule::Schedule,
        timeunit::TimeUnit::*,
    },
    instruments::{bond::Bond, fixedratebond::FixedRateBond, zerocouponbond::ZeroCouponBond},
    rates::{compounding::Compounding, interestrate::InterestRate},
};

fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs()))
}
fn zero_coupon<S: Src>(s: &mut S) -> (ZeroCouponBond, Edited, i32, i32, f64, f64, Option<i32>) {
    let maturity = 40000 + s.int(-9000, 9000);
    let cal = any_edited(s, maturity);
    let face = s.int(1, 400) as f64 * 2.5;
    let settlement_days = s.int(0, 5);
    if s.boolean() {
        let b = ZeroCouponBond::new(settlement_days, &cal.cal, face, day(maturity));
        let paid = cal.adjusted(maturity, Following).unwrap();
        return (b, cal, paid, settlement_days, face, face, None);
    }
    let conv = if s.boolean() { Some(convention(s)) } else { None };
    let redemption = if s.boolean() { Some(s.int(1, 30) as f64 * 5.0) } else { None };
    let issue = if s.boolean() { Some(maturity - s.int(1, 500)) } else { None };
    let b = ZeroCouponBond::new_with_options(settlement_days, &cal.cal, face, day(maturity), conv, redemption, issue.map(day));
    let paid = cal.adjusted(maturity, conv.unwrap_or(Following)).unwrap();
    (b, cal, paid, settlement_days, face, face * redemption.unwrap_or(100.0) / 100.0, issue)
}

//@ native
pub fn a_zero_coupon_bond_pays_its_redemption<S: Src>(s: &mut S) {
    let (b, cal, paid, lag, face, amount, issue) = zero_coupon(s);
    let maturity = num(&b.maturity_date);
    ensures!(s, b.cashflows().len() == 1, "one flow");
    ensures!(s, num(&b.cashflows()[0].date()) == paid && near(b.cashflows()[0].amount(), amount), "the redemption on the adjusted maturity date");
    ensures!(s, num(&b.maturity_date()) == maturity, "the maturity date");
    ensures!(s, num(&cashflow::maturity_date(b.cashflows())) == paid, "its leg matures when it is redeemed");
    notional(s, &b, face, paid);
    settlement(s, &b, &cal, lag, issue);
    let x = day(paid - s.int(1, 900));
    ensures!(s, b.accrued_amount(x) == 0.0, "nothing accrues");
    let y = s.real(-0.05, 0.3);
    let d = maturity - s.int(-20, 900);
    ensures!(s, near(b.price_from_discount_yield(y, day(d)), 100.0 - 100.0 * y * (maturity - d) as f64 / 360.0), "the bank discount price");
    let (days, p) = ((maturity - d) as f64, b.period(day(d)));
    ensures!(s, p.unit == Months && (p.length as f64 - days / 30.0).abs() <= 0.5 + 1e-9, "its period in months");
}
fn notional<S: Src, B: Bond>(s: &mut S, b: &B, face: f64, paid: i32) {
    let x = paid + match s.int(0, 2) {
        0 => s.int(-1, 1),
        1 => s.int(-2000, 0),
        _ => s.int(-40, 3000),
    };
    let left = if x < paid { face } else { 0.0 };
    ensures!(s, b.notional(day(x)) == left, "in full before redemption, nothing from it on");
    ensures!(s, b.is_tradeable(day(x)) == (x < paid), "tradeable while notional remains");
    if x >= paid {
        ensures!(s, b.accrued_amount(day(x)) == 0.0, "nothing accrues any more");
    }
}
fn settlement<S: Src, B: Bond>(s: &mut S, b: &B, cal: &Edited, lag: i32, issue: Option<i32>) {
    let x = num(&b.maturity_date()) + if s.boolean() { s.int(-600, 3) } else { s.int(-8, 3) };
    let t = cal.advanced(x, lag, Days, Following, false).unwrap();
    let want = issue.map_or(t, |i| t.max(i));
    ensures!(s, num(&b.settlement_date(day(x))) == want, "so many business days on, not before issue");
    ensures!(s, b.settlement_days() == lag, "its settlement days");
}

struct Fixed {
    bond: FixedRateBond,
    t: Terms,
    r: Schedule,
    cal: Edited,
    face: f64,
    rates: Vec<f64>,
    lag: i32,
    redemption: f64,
    issue: Option<i32>,
    leg: FixedRateLeg,
}
fn copy(e: &Edited) -> Edited {
    Edited { cal: e.cal.clone(), base: e.base.clone(), edits: e.edits.clone() }
}
fn fixed_rate<S: Src>(s: &mut S, plain: bool) -> Fixed {
    let mut t = terms(s, &[0, 1]);
    if !plain && s.boolean() {
        stubs(s, &mut t);
    }
    requires!(s, t.ordered() && t.expected().is_some());
    let r = t.build();
    let face = s.int(1, 400) as f64 * 2.5;
    let rates: Vec<f64> = (0..s.int(1, 4)).map(|_| s.int(0, 40) as f64 / 400.0).collect();
    let dc = [DayCounter::actual360(), DayCounter::european(), DayCounter::actual_actual_isda()][s.int(0, 2) as usize].clone();
    let lag = s.int(0, 5);
    let quotes = rates.iter().map(|x| InterestRate::new(*x, dc.clone(), Compounding::Simple, Frequency::Annual)).collect();
    let mut leg = FixedRateLeg::new(r.clone(), vec![face], quotes);
    let mut cal = copy(&t.cal);
    if s.boolean() {
        leg = leg.with_payment_calendar(cal.cal.clone());
        let bond = FixedRateBond::new(lag, face, r.clone(), rates.clone(), dc);
        return Fixed { bond, t, r, cal, face, rates, lag, redemption: 100.0, issue: None, leg };
    }
    let conv = if s.boolean() { Some(convention(s)) } else { None };
    let redemption = if s.boolean() { Some(s.int(1, 30) as f64 * 5.0) } else { None };
    let issue = if s.boolean() { Some(t.effective + s.int(-30, 30)) } else { None };
    let pay = s.boolean();
    if pay {
        cal = any_edited(s, t.termination);
    }
    let ex = if !plain && s.boolean() { Some((Period::new(s.int(1, 20), Days), convention(s), s.boolean())) } else { None };
    let first = if s.int(0, 3) == 0 { Some(DayCounter::actual360()) } else { None };
    leg = leg.with_payment_calendar(cal.cal.clone());
    if let Some(c) = conv {
        leg = leg.with_payment_adjustment(c);
    }
    if let Some((p, c, e)) = ex {
        leg = leg.with_ex_coupon_period(p, cal.cal.clone(), c, e);
    }
    if let Some(d) = &first {
        leg = leg.with_first_period_daycounter(d.clone());
    }
    let bond = FixedRateBond::new_with_options(
        lag,
        face,
        r.clone(),
        rates.clone(),
        dc,
        conv,
        redemption,
        issue.map(day),
        if pay { Some(cal.cal.clone()) } else { None },
        ex.map(|x| x.0),
        ex.map(|_| cal.cal.clone()),
        ex.map(|x| x.1),
        ex.map(|x| x.2),
        first,
    );
    Fixed { bond, t, r, cal, face, rates, lag, redemption: redemption.unwrap_or(100.0), issue, leg }
}

//@ native
pub fn a_fixed_rate_bond_pays_its_coupons_and_redemption<S: Src>(s: &mut S) {
    let f = fixed_rate(s, false);
    let n = f.r.size();
    let coupons = f.leg.build();
    let flows = f.bond.cashflows();
    // payments in order: closures may have moved them on to each other, not past each other
    let paid = num(&coupons[n - 2].payment_date);
    ensures!(s, flows.len() == n, "its coupons and a redemption");
    for i in 0..n - 1 {
        let (a, b) = (&flows[i], &coupons[i]);
        ensures!(s, num(&a.date()) == num(&b.date()) && near(a.amount(), b.amount()), "the coupons of the leg, in order");
        ensures!(s, num(&a.ex_coupon_date()) == num(&b.ex_coupon_date()), "with their ex-coupon dates");
        ensures!(s, num(&a.accrual_start_date()) == num(&f.r[i]) && num(&a.accrual_end_date()) == num(&f.r[i + 1]), "and accrual periods");
    }
    let last = &flows[n - 1];
    ensures!(s, num(&last.date()) == paid && near(last.amount(), f.face * f.redemption / 100.0), "then the redemption with the last coupon");
    ensures!(s, num(&f.bond.maturity_date()) == num(f.r.end_date()), "the maturity date ends the schedule");
    notional(s, &f.bond, f.face, paid);
    settlement(s, &f.bond, &f.cal, f.lag, f.issue);
}

//@ native
pub fn accrued_amounts_are_the_running_coupons_per_hundred<S: Src>(s: &mut S) {
    let f = fixed_rate(s, false);
    let coupons = f.leg.build();
    let paid = num(&coupons[coupons.len() - 1].payment_date);
    let k = s.int(0, f.r.size() as i32 - 1) as usize;
    let d = num(&f.r[k]);
    let x = if s.boolean() { d + s.int(-2, 2) } else { s.int(f.t.effective - 5, paid + 5) };
    let mut want = 0.0;
    if x < paid {
        if let Some(c) = coupons.iter().find(|c| num(&c.payment_date) > x) {
            for e in coupons.iter().filter(|e| e.payment_date == c.payment_date) {
                want += e.accrued_amount(day(x));
            }
        }
    }
    ensures!(s, near(f.bond.accrued_amount(day(x)), want * 100.0 / f.face), "per hundred of notional");
}

//@ native
pub fn the_yield_of_a_price_gives_the_price<S: Src>(s: &mut S) {
    let f = fixed_rate(s, true);
    let x = f.t.effective + s.int(0, (f.t.termination - f.t.effective) * 2 / 3);
    requires!(s, f.t.termination - x > 60 && f.t.termination - x < 11000 && f.rates.iter().all(|r| *r >= 0.0) && f.redemption >= 50.0);
    let y = s.real(0.005, 0.12);
    let dc = if s.boolean() { DayCounter::actual360() } else { DayCounter::actual_actual_isda() };
    let (c, q) = ([Compounding::Compounded, Compounding::Continuous][s.int(0, 1) as usize].clone(), [Frequency::Annual, Frequency::Semiannual][s.int(0, 1) as usize]);
    let dirty = f.bond.dirty_price_from_yield(y, dc.clone(), c.clone(), q, day(x));
    let rate = InterestRate::new(y, dc.clone(), c.clone(), q);
    let value = cashflow::npv(f.bond.cashflows(), &rate, false, day(x), day(x));
    ensures!(s, near(dirty, value * 100.0 / f.face), "the dirty price is the value per hundred");
    let clean = f.bond.clean_price_from_yield(y, dc.clone(), c.clone(), q, day(x));
    ensures!(s, near(clean, dirty - f.bond.accrued_amount(day(x))), "the clean price leaves the accrued amount out");
    let got = f.bond.bond_yield(clean, dc.clone(), c.clone(), q, day(x));
    ensures!(s, (got - y).abs() < 1e-5, "the yield comes back");
    let got = f.bond.bond_yield_with_options(clean, dc, c, q, day(x), Some(1e-10), Some(200), Some(0.03));
    ensures!(s, (got - y).abs() < 1e-7, "as closely as asked");
}

//@ native reject
pub fn redeemed_bonds_have_no_price_or_yield<S: Src>(s: &mut S) {
    let f = fixed_rate(s, true);
    let x = num(&f.bond.cashflows()[f.r.size() - 1].date()) + s.int(0, 50);
    let price = s.boolean();
    rejects!(s, {
        if price {
            f.bond.dirty_price_from_yield(0.05, DayCounter::actual360(), Compounding::Continuous, Frequency::Annual, day(x));
        } else {
            f.bond.bond_yield(99.0, DayCounter::actual360(), Compounding::Continuous, Frequency::Annual, day(x));
        }
    }, "not tradeable any more");
}
