//! C20: fixed-rate legs
use crate::cal::*;
use crate::obl::*;
use crate::sched::*;
use rust_quantlib::{
    cashflows::{cashflow::CashFlow, coupon::Coupon, fixedratecoupon::FixedRateCoupon, fixedrateleg::FixedRateLeg},
    datetime::{
        businessdayconvention::BusinessDayConvention::{self, *},
        date::Date,
        daycounter::DayCounter,
        frequency::Frequency,
        period::Period,
        schedule::Schedule,
        timeunit::TimeUnit::{self, *},
    },
    rates::{compounding::Compounding, interestrate::InterestRate},
};

fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs()))
}
fn counter(k: i32) -> DayCounter {
    match k {
        0 => DayCounter::actual360(),
        1 => DayCounter::european(),
        2 => DayCounter::actual_actual_old_isma(),
        _ => DayCounter::actual_actual_isda(),
    }
}
#[derive(Clone, Copy)]
struct Quote {
    rate: f64,
    dc: i32,
    c: i32,
    f: Frequency,
}
fn compounding(c: i32) -> Compounding {
    [Compounding::Simple, Compounding::Compounded, Compounding::Continuous][c as usize].clone()
}
impl Quote {
    fn any<S: Src>(s: &mut S) -> Quote {
        Quote { rate: s.int(-4, 60) as f64 / 400.0, dc: s.int(0, 3), c: s.int(0, 2), f: [Frequency::Annual, Frequency::Semiannual, Frequency::Quarterly][s.int(0, 2) as usize] }
    }
    fn real(&self) -> InterestRate {
        InterestRate::new(self.rate, counter(self.dc), compounding(self.c), self.f)
    }
    fn factor(&self, t: f64) -> f64 {
        match self.c {
            0 => 1.0 + self.rate * t,
            1 => {
                let n = match self.f {
                    Frequency::Annual => 1.0,
                    Frequency::Semiannual => 2.0,
                    _ => 4.0,
                };
                (1.0 + self.rate / n).powf(n * t)
            }
            _ => (self.rate * t).exp(),
        }
    }
}
/// an ordered schedule with or without stubs, far from the ends of the range
fn any_schedule<S: Src>(s: &mut S) -> (Terms, Schedule) {
    let mut t = terms(s, &[0, 1, 2, 3]);
    t.eom = t.rule < 2 && t.eom;
    if t.rule < 2 && s.boolean() {
        stubs(s, &mut t);
    }
    requires!(s, t.ordered() && t.expected().is_some());
    let mut r = t.build();
    // a truncated schedule is a schedule too
    if s.int(0, 5) == 0 {
        let (a, b) = (num(r.start_date()), num(r.end_date()));
        let x = s.int(a, b);
        if x < b && s.boolean() {
            r = r.after(&day(x));
        } else if x > a {
            r = r.until(&day(x));
        }
    }
    (t, r)
}
struct Leg {
    leg: FixedRateLeg,
    notionals: Vec<f64>,
    quotes: Vec<Quote>,
    first: Option<i32>,
    last: Option<i32>,
    /// the calendar that payments follow
    pay: Edited,
    conv: BusinessDayConvention,
    lag: i32,
    ex: Option<(i32, TimeUnit, Edited, BusinessDayConvention, bool)>,
}
fn leg<S: Src>(s: &mut S, t: &Terms, r: &Schedule) -> Leg {
    let notionals: Vec<f64> = (0..s.int(1, 5)).map(|_| s.int(1, 40) as f64 * 25.0).collect();
    let quotes: Vec<Quote> = (0..s.int(1, 5)).map(|_| Quote::any(s)).collect();
    let mut l = FixedRateLeg::new(r.clone(), notionals.clone(), quotes.iter().map(|q| q.real()).collect());
    let first = if s.int(0, 2) == 0 { Some(s.int(0, 3)) } else { None };
    let last = if s.int(0, 2) == 0 { Some(s.int(0, 3)) } else { None };
    if let Some(k) = first {
        l = l.with_first_period_daycounter(counter(k));
    }
    if let Some(k) = last {
        l = l.with_last_period_daycounter(counter(k));
    }
    let mut pay = Edited { cal: t.cal.cal.clone(), base: t.cal.base.clone(), edits: t.cal.edits.clone() };
    if s.boolean() {
        let d = num(&r[s.int(0, r.size() as i32 - 1) as usize]);
        pay = any_edited(s, d);
        l = l.with_payment_calendar(pay.cal.clone());
    }
    let mut conv = Following;
    if s.boolean() {
        conv = convention(s);
        l = l.with_payment_adjustment(conv);
    }
    let mut lag = 0;
    if s.boolean() {
        lag = s.int(0, 8);
        l = l.with_payment_lag(lag);
    }
    let mut ex = None;
    if s.boolean() {
        let u = [Days, Weeks, Months][s.int(0, 2) as usize];
        let n = s.int(1, 10);
        let c = any_edited(s, num(&r[1]));
        let k = convention(s);
        let e = s.boolean();
        l = l.with_ex_coupon_period(Period::new(n, u), c.cal.clone(), k, e);
        ex = Some((n, u, c, k, e));
    }
    Leg { leg: l, notionals, quotes, first, last, pay, conv, lag, ex }
}
fn pick<T: Copy>(v: &[T], i: usize) -> T {
    v[i.min(v.len() - 1)]
}

//@ native
pub fn one_coupon_per_period_with_its_terms<S: Src>(s: &mut S) {
    let (t, r) = any_schedule(s);
    let l = leg(s, &t, &r);
    let n = r.size();
    let d: Vec<i32> = (0..n).map(|i| num(&r[i])).collect();
    let coupons = l.leg.build();
    ensures!(s, coupons.len() == n - 1, "one coupon per period");
    for i in 1..n {
        let c = &coupons[i - 1];
        ensures!(s, num(&c.accrual_start_date()) == d[i - 1] && num(&c.accrual_end_date()) == d[i], "accrual tiles the schedule");
        let pay = l.pay.advanced(d[i], l.lag, Days, l.conv, false).unwrap();
        ensures!(s, num(&c.date()) == pay, "paid on the adjusted and lagged period end");
        ensures!(s, c.nominal() == pick(&l.notionals, i - 1), "the notional of its position");
        let q = pick(&l.quotes, i - 1);
        ensures!(s, c.rate() == q.rate, "the rate of its position");
        // reference periods
        let regular = r.is_regular(i);
        let (mut a, mut b) = (d[i - 1], d[i]);
        if i == 1 && !regular {
            a = t.cal.advanced(d[1], -t.n, t.unit, t.conv, t.eom).unwrap();
        } else if i == n - 1 && !regular {
            b = t.cal.advanced(d[i - 1], t.n, t.unit, t.conv, t.eom).unwrap();
        }
        if t.rule != 2 {
            ensures!(s, num(&c.reference_period_start()) == a && num(&c.reference_period_end()) == b, "the period itself, or one tenor for an irregular end period");
        }
        let ex = match &l.ex {
            None => MIN,
            Some((k, u, cal, conv, eom)) => cal.advanced(pay, -k, *u, *conv, *eom).unwrap(),
        };
        ensures!(s, num(&c.ex_coupon_date()) == ex, "ex-coupon the requested period before payment");
        let mut dc = q.dc;
        if i == 1 && l.first.is_some() {
            dc = l.first.unwrap();
        } else if i > 1 && i == n - 1 && l.last.is_some() {
            dc = l.last.unwrap();
        }
        let ra = c.reference_period_start();
        let rb = c.reference_period_end();
        if dc != 2 || ra < rb {
            let f = counter(dc).year_fraction(&day(d[i - 1]), &day(d[i]), &ra, &rb);
            if f >= 0.0 {
                ensures!(s, near(c.amount(), c.nominal() * (q.factor(f) - 1.0)), "notional times the compounded rate over the period");
                ensures!(s, c.day_counter().day_count(&day(d[i - 1]), &day(d[i])) == counter(dc).day_count(&day(d[i - 1]), &day(d[i])), "its day counter");
            }
        }
    }
}

//@ native
pub fn accrual_grows_from_nothing_to_the_amount<S: Src>(s: &mut S) {
    let q = Quote::any(s);
    let a = 40000 + s.int(-3000, 3000);
    let b = a + s.int(1, 400);
    let pay = b + s.int(0, 12);
    let ex = if s.boolean() { Some(pay - s.int(0, 40)) } else { None };
    let nominal = s.int(1, 400) as f64;
    let c = if s.boolean() {
        FixedRateCoupon::with_interest_rate(day(pay), nominal, q.real(), day(a), day(b), Some(day(a)), Some(day(b)), ex.map(day))
    } else {
        requires!(s, q.c == 0);
        FixedRateCoupon::new(day(pay), nominal, q.rate, counter(q.dc), day(a), day(b), Some(day(a)), Some(day(b)), ex.map(day))
    };
    let dc = counter(q.dc);
    let part = |x: i32, y: i32| dc.year_fraction(&day(x), &day(y), &day(a), &day(b));
    let interest = |x: i32, y: i32| nominal * (q.factor(part(x, y)) - 1.0);
    ensures!(s, near(c.amount(), interest(a, b)), "the interest over the period");
    ensures!(s, c.accrual_days() == dc.day_count(&day(a), &day(b)) && near(c.accrual_period(), part(a, b)), "its accrual period");
    ensures!(s, c.accrued_amount(day(a)) == 0.0, "nothing at the start");
    ensures!(s, ex.is_some() || near(c.accrued_amount(day(b)), c.amount()), "the amount at the end");
    let x = match s.int(0, 3) {
        0 => pay + s.int(-1, 1),
        1 => b + s.int(-1, 1),
        2 => ex.unwrap_or(a) + s.int(-1, 1),
        _ => s.int(a - 5, pay + 5),
    };
    let alive = x > a && x <= pay;
    let cut = ex.is_some_and(|e| e <= x);
    let want = if !alive {
        0.0
    } else if cut {
        -interest(x, x.max(b))
    } else {
        interest(a, x.min(b))
    };
    ensures!(s, near(c.accrued_amount(day(x)), want), "what has accrued, or less what is still to accrue when ex-coupon");
    let want = if !alive {
        0.0
    } else if cut {
        -part(x, x.max(b))
    } else {
        part(a, x.min(b))
    };
    ensures!(s, near(c.accrued_period(day(x)), want), "as a period");
    ensures!(s, c.accrued_days(day(x)) == if alive { dc.day_count(&day(a), &day(x.min(b))) } else { 0 }, "as days");
}

//@ native
pub fn later_settings_replace_earlier_ones<S: Src>(s: &mut S) {
    let (_, r) = any_schedule(s);
    let old = Quote::any(s);
    let qs: Vec<Quote> = (0..s.int(1, 3)).map(|_| Quote { dc: 0, c: 0, f: Frequency::Annual, ..Quote::any(s) }).collect();
    let ns: Vec<f64> = (0..s.int(1, 3)).map(|_| s.int(1, 99) as f64).collect();
    let mut l = FixedRateLeg::new(r.clone(), vec![7.0, 8.0], vec![old.real(), old.real()]);
    let which = s.int(0, 5);
    let (mut wn, mut wq) = (vec![7.0, 8.0], vec![old.rate, old.rate]);
    l = match which {
        0 => {
            wn = vec![ns[0]];
            l.with_notional(ns[0])
        }
        1 => {
            wn = ns.clone();
            l.with_notionals(ns.clone())
        }
        2 => {
            wq = vec![qs[0].rate];
            l.with_coupon_rate(qs[0].rate, counter(0), Compounding::Simple, Frequency::Annual)
        }
        3 => {
            wq = qs.iter().map(|q| q.rate).collect();
            l.with_coupon_rates(wq.clone(), counter(0), Compounding::Simple, Frequency::Annual)
        }
        4 => {
            wq = vec![qs[0].rate];
            l.with_interest_rate(qs[0].real())
        }
        _ => {
            wq = qs.iter().map(|q| q.rate).collect();
            l.with_interest_rates(qs.iter().map(|q| q.real()).collect())
        }
    };
    let c = l.build();
    for i in 0..c.len() {
        ensures!(s, c[i].nominal() == pick(&wn, i) && c[i].rate() == pick(&wq, i), "the values given last");
    }
}

//@ native reject
pub fn legs_without_rates_or_notionals_are_rejected<S: Src>(s: &mut S) {
    let (_, r) = any_schedule(s);
    let none = s.boolean();
    let q = Quote::any(s);
    rejects!(s, {
        if none {
            FixedRateLeg::new(r, vec![], vec![q.real()]).build();
        } else {
            FixedRateLeg::new(r, vec![1.0], vec![]).build();
        }
    }, "a leg needs a rate and a notional");
}
