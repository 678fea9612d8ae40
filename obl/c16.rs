//! C16: schedule generation
use crate::cal::*;
use crate::obl::*;
use crate::sched::*;
use rust_quantlib::context::pricing_context::PricingContext;
use rust_quantlib::datetime::{
    businessdayconvention::BusinessDayConvention::*, period::Period, schedule::Schedule, schedulebuilder::ScheduleBuilder, timeunit::TimeUnit::*,
};

fn dates(r: &Schedule) -> Vec<i32> {
    r.dates().iter().map(num).collect()
}
fn flags(r: &Schedule) -> Vec<bool> {
    (1..r.size()).map(|i| r.is_regular(i)).collect()
}
fn show(t: &Terms, got: &[i32], want: &[i32]) {
    if std::env::var("SHOW").is_ok() {
        eprintln!("{} {:?} {:?}\n got {:?}\nwant {:?}", t.rule, (t.n, t.unit), (t.conv, t.tconv), got.iter().map(|x| civil(*x)).map(|x| (x.y, x.m, x.d)).collect::<Vec<_>>(), want.iter().map(|x| civil(*x)).map(|x| (x.y, x.m, x.d)).collect::<Vec<_>>());
    }
}
fn check<S: Src>(s: &mut S, t: &Terms) {
    let e = match t.expected() {
        Some(e) => e,
        None => {
            // the ends fall together: at most one date is left, or the terms are rejected
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.build())) {
                Ok(r) => {
                    let d = dates(&r);
                    ensures!(s, d.windows(2).all(|w| w[0] < w[1]), "dates strictly increase");
                }
                Err(_) => s.skip(),
            }
            return;
        }
    };
    let r = t.build();
    let d = dates(&r);
    let f = flags(&r);
    show(t, &d, &e.dates);
    ensures!(s, d.windows(2).all(|w| w[0] < w[1]), "dates strictly increase");
    ensures!(s, d.first() == e.dates.first(), "from the effective date");
    ensures!(s, d.last() == e.dates.last(), "to the termination date");
    ensures!(s, d == e.dates, "by tenor steps from the anchor, adjusted");
    ensures!(s, f.len() + 1 == d.len() && r.has_is_regular(), "a flag per period");
    ensures!(s, f.iter().zip(e.flags.iter()).all(|(a, b)| b.is_none() || *b == Some(*a)), "a period is regular when it spans one tenor");
}

//@ native
pub fn plain_schedules_step_from_their_anchor<S: Src>(s: &mut S) {
    let mut t = terms(s, &[0, 1]);
    t.eom = false;
    check(s, &t);
}

//@ native
pub fn schedules_with_stub_dates<S: Src>(s: &mut S) {
    let mut t = terms(s, &[0, 1]);
    t.eom = false;
    stubs(s, &mut t);
    requires!(s, t.ordered());
    check(s, &t);
}

//@ native
pub fn month_end_schedules<S: Src>(s: &mut S) {
    let mut t = terms(s, &[0, 1]);
    t.eom = true;
    if s.boolean() {
        stubs(s, &mut t);
    }
    requires!(s, t.ordered());
    check(s, &t);
}

//@ native
pub fn third_wednesday_schedules<S: Src>(s: &mut S) {
    let mut t = terms(s, &[3, 4]);
    t.eom = false;
    if s.int(0, 3) == 0 {
        let which = s.int(0, 2);
        let f = third_wednesday(t.effective + s.int(1, 200));
        let l = third_wednesday(t.termination - s.int(1, 200));
        if t.rule == 3 && which != 1 {
            t.first = Some(f);
        }
        if t.rule == 3 && which != 0 {
            t.last = Some(l);
        }
    }
    requires!(s, t.ordered());
    check(s, &t);
}

//@ native
pub fn schedules_on_the_twentieth<S: Src>(s: &mut S) {
    let mut t = terms(s, &[5, 6, 7]);
    t.eom = false;
    check(s, &t);
}

//@ native
pub fn credit_default_swap_schedules<S: Src>(s: &mut S) {
    let mut t = terms(s, &[8, 9]);
    t.eom = false;
    check(s, &t);
}

//@ native
pub fn schedules_without_steps<S: Src>(s: &mut S) {
    let mut t = terms(s, &[2]);
    let zero = s.boolean();
    if zero {
        t.n = 0;
        t.rule = s.int(0, 9);
    }
    let (a, b) = (t.adj(t.effective), t.tadj(t.termination));
    requires!(s, a < b);
    let r = t.build();
    ensures!(s, dates(&r) == vec![a, b], "the effective and the termination date");
    ensures!(s, flags(&r) == vec![true], "one period");
    ensures!(s, r.tenor().length == 0, "of no tenor");
}

//@ native
pub fn a_schedule_keeps_its_terms<S: Src>(s: &mut S) {
    let mut t = terms(s, &[0, 1]);
    let r = match t.expected() {
        Some(_) => t.build(),
        None => {
            s.skip();
            return;
        }
    };
    ensures!(s, r.tenor() == Period::new(t.n, t.unit), "its tenor");
    ensures!(s, r.business_day_convention() == t.conv, "its convention");
    ensures!(s, r.end_of_month() == (t.eom && (t.unit == Months || t.unit == Years)), "its month-end flag, for tenors of months or years");
    ensures!(s, r.calendar().name() == t.cal.cal.clone().name(), "its calendar");
    // what is left out is Following, backwards, and the convention for the termination date
    t.conv = Following;
    t.tconv = Following;
    t.rule = 0;
    t.eom = false;
    let plain = ScheduleBuilder::new(PricingContext::new(day(EVAL)), day(t.effective), day(t.termination), Period::new(t.n, t.unit), t.cal.cal.clone());
    match t.expected() {
        Some(e) => {
            ensures!(s, dates(&plain.build()) == e.dates, "defaults");
        }
        None => {
            s.skip();
            return;
        }
    }
    t.rule = s.int(0, 1);
    let b = ScheduleBuilder::new(PricingContext::new(day(EVAL)), day(t.effective), day(t.termination), Period::new(t.n, t.unit), t.cal.cal.clone()).with_convention(ModifiedFollowing);
    let b = if t.rule == 0 { b.backwards() } else { b.forwards() };
    t.conv = ModifiedFollowing;
    t.tconv = ModifiedFollowing;
    if let Some(e) = t.expected() {
        ensures!(s, dates(&b.build()) == e.dates, "the convention serves for the termination date too");
    }
}

/// the effective date may be left out of a backward schedule, which then reaches back towards the evaluation date
//@ native
pub fn a_backward_schedule_without_an_effective_date<S: Src>(s: &mut S) {
    let mut t = terms(s, &[0]);
    t.eom = false;
    let eval = t.effective;
    requires!(s, t.unit == Months || t.unit == Years);
    if s.boolean() {
        t.last = Some(eval + s.int(1, t.termination - eval));
        requires!(s, t.last < Some(t.termination));
    }
    let anchor = t.last.unwrap_or(t.termination);
    let years = (anchor - eval) / 366 + 1;
    let from = moved(anchor, -12 * years, Months).unwrap();
    let mut b = ScheduleBuilder::new(PricingContext::new(day(eval)), rust_quantlib::datetime::date::Date::default(), day(t.termination), Period::new(t.n, t.unit), t.cal.cal.clone())
        .with_convention(t.conv)
        .with_termination_convention(t.tconv)
        .backwards();
    if let Some(l) = t.last {
        b = b.with_next_to_last_date(day(l));
    }
    t.effective = from;
    let e = match t.expected() {
        Some(e) => e,
        None => {
            s.skip();
            return;
        }
    };
    ensures!(s, dates(&b.build()) == e.dates, "whole years back from the termination date, or from the next to last");
}

//@ native reject
pub fn contradictory_terms_are_rejected<S: Src>(s: &mut S) {
    let mut t = terms(s, &[0, 1]);
    let which = s.int(0, 9);
    let span = t.termination - t.effective;
    let n = s.int(1, 300);
    let k = s.int(0, 7);
    match which {
        0 => std::mem::swap(&mut t.effective, &mut t.termination),
        1 => t.termination = t.effective,
        2 => t.n = -t.n,
        3 => t.first = Some(t.termination + n),
        4 => t.first = Some(t.effective - n),
        5 => t.last = Some(t.effective - n),
        6 => t.last = Some(t.termination + n),
        7 => {
            requires!(s, span > 3);
            t.first = Some(t.effective + 1 + s.int(1, span - 2));
            t.last = Some(s.int(t.effective + 1, t.first.unwrap() - 1));
        }
        8 => {
            // rules that know no stub dates
            t.rule = [2, 4, 5, 6, 7, 8, 9, 3][k as usize];
            t.eom = false;
            requires!(s, span > 2);
            let x = t.effective + s.int(1, span - 1);
            requires!(s, t.rule != 3 || third_wednesday(x) != x);
            if s.boolean() {
                t.first = Some(x);
            } else {
                t.last = Some(x);
            }
        }
        _ => {
            // month ends against rules that fix the day
            t.rule = [3, 4, 5, 6, 7, 8, 9, 3][k as usize];
            t.eom = true;
            requires!(s, t.unit == Months || t.unit == Years);
        }
    }
    rejects!(s, t.build(), "no such schedule");
}
