//! Schedules for the obligations: any terms, and the dates they stand for.
use crate::cal::*;
use crate::obl::*;
use rust_quantlib::context::pricing_context::PricingContext;
use rust_quantlib::datetime::{
    businessdayconvention::BusinessDayConvention::{self, *},
    calendar::Calendar,
    date::Date,
    dategenerationrule::DateGenerationRule::{self, *},
    period::Period,
    schedule::Schedule,
    schedulebuilder::ScheduleBuilder,
    timeunit::TimeUnit::{self, *},
};

pub const EVAL: i32 = 40000;
pub fn day(n: i32) -> Date {
    Date::from_serial(n)
}
pub fn num(d: &Date) -> i32 {
    ymd_of(d).serial()
}
pub fn rule(k: i32) -> DateGenerationRule {
    match k {
        0 => Backward,
        1 => Forward,
        2 => Zero,
        3 => ThirdWednesday,
        4 => ThirdWednesdayInclusive,
        5 => Twentieth,
        6 => TwentiethIMM,
        7 => OldCDS,
        8 => CDS,
        _ => CDS2015,
    }
}
pub struct Terms {
    pub effective: i32,
    pub termination: i32,
    pub n: i32,
    pub unit: TimeUnit,
    pub cal: Edited,
    pub conv: BusinessDayConvention,
    pub tconv: BusinessDayConvention,
    pub rule: i32,
    pub eom: bool,
    pub first: Option<i32>,
    pub last: Option<i32>,
}
impl Terms {
    pub fn build(&self) -> Schedule {
        let mut b = ScheduleBuilder::new(PricingContext::new(day(EVAL)), day(self.effective), day(self.termination), Period::new(self.n, self.unit), self.cal.cal.clone())
            .with_convention(self.conv)
            .with_termination_convention(self.tconv)
            .with_rule(rule(self.rule))
            .with_end_of_month(self.eom);
        if let Some(f) = self.first {
            b = b.with_first_date(day(f));
        }
        if let Some(l) = self.last {
            b = b.with_next_to_last_date(day(l));
        }
        b.build()
    }
    /// the date k tenors from the anchor, the month's last day staying the last where asked
    pub fn step(&self, anchor: i32, k: i32) -> Option<i32> {
        let t = moved(anchor, k * self.n, self.unit)?;
        if self.eom && (self.unit == Months || self.unit == Years) && k != 0 && anchor == month_end(anchor) {
            Some(month_end(t))
        } else {
            Some(t)
        }
    }
    pub fn adj(&self, s: i32) -> i32 {
        self.cal.adjusted(s, self.conv).unwrap()
    }
    pub fn tadj(&self, s: i32) -> i32 {
        self.cal.adjusted(s, self.tconv).unwrap()
    }
}
pub fn tenor<S: Src>(s: &mut S) -> (i32, TimeUnit) {
    match s.int(0, 7) {
        0 => (s.int(1, 24), Months),
        1 => (s.int(1, 3), Years),
        2 => (s.int(1, 60), Weeks),
        3 => (s.int(1, 400), Days),
        4 => (3, Months),
        5 => (6, Months),
        6 => (1, Months),
        _ => (1, Years),
    }
}
pub fn months(n: i32, u: TimeUnit) -> i32 {
    match u {
        Months => 30 * n,
        Years => 360 * n,
        Weeks => 7 * n,
        _ => n,
    }
}
pub fn terms<S: Src>(s: &mut S, rules: &[i32]) -> Terms {
    let r = rules[s.int(0, rules.len() as i32 - 1) as usize];
    let a = ymd_between(s, 1950, 2100);
    let mut effective = a.serial();
    if s.int(0, 3) == 0 {
        effective = month_end(effective);
    }
    let (n, unit) = tenor(s);
    let k = s.int(0, 12);
    let shift = if s.boolean() { 0 } else { s.int(0, months(n, unit)) };
    let mut termination = match moved(effective, k * n, unit) {
        Some(t) => t + shift,
        None => effective,
    };
    if s.int(0, 3) == 0 {
        termination = month_end(termination);
    }
    requires!(s, termination > effective && termination < effective + 15000);
    let conv = convention(s);
    let mut cal = Edited::of(s.int(0, MARKETS - 1));
    // now and then the market closes for long
    if s.int(0, 5) == 0 {
        let a = if s.boolean() { effective + s.int(-3, 60) } else { termination - s.int(-3, 60) };
        for x in a..a + s.int(1, 45) {
            cal.edit(x, true);
        }
    }
    Terms {
        effective,
        termination,
        n,
        unit,
        cal,
        conv,
        tconv: if s.boolean() { conv } else { convention(s) },
        rule: r,
        eom: s.boolean(),
        first: None,
        last: None,
    }
}
/// stub dates in order
pub fn stubs<S: Src>(s: &mut S, t: &mut Terms) {
    let which = s.int(0, 3);
    let span = t.termination - t.effective;
    requires!(s, span > 2);
    let a = t.effective + if s.boolean() { s.int(1, span - 1) } else { s.int(1, (span - 1).min(2 * months(t.n, t.unit))) };
    let b = t.termination - if s.boolean() { s.int(1, span - 1) } else { s.int(1, (span - 1).min(2 * months(t.n, t.unit))) };
    if which & 1 == 1 {
        t.first = Some(if s.int(0, 3) == 0 { month_end(a) } else { a });
    }
    if which & 2 == 2 {
        t.last = Some(if s.int(0, 3) == 0 { month_end(b) } else { b });
    }
}

// ---------------------------------------------------------------------------------------------
// the dates the terms stand for
pub struct Expected {
    pub dates: Vec<i32>,
    /// per period: Some(flag), or None where dates were merged or a stub happens to be a tenor long
    pub flags: Vec<Option<bool>>,
}
fn quarterly(r: i32) -> bool {
    r >= 6
}
fn roll_day(y: i32, m: i32, r: i32) -> bool {
    let _ = y;
    !quarterly(r) || m % 3 == 0
}
/// the earliest 20th (of a quarter month) on or after the day
pub fn next20(s: i32, r: i32) -> i32 {
    let x = civil(s);
    let mut k = month_index(x.y, x.m);
    loop {
        let (y, m) = (k / 12, k % 12 + 1);
        if roll_day(y, m, r) && serial(y, m, 20) >= s {
            return serial(y, m, 20);
        }
        k += 1;
    }
}
pub fn prev20(s: i32, r: i32) -> i32 {
    let x = civil(s);
    let mut k = month_index(x.y, x.m);
    loop {
        let (y, m) = (k / 12, k % 12 + 1);
        if roll_day(y, m, r) && serial(y, m, 20) <= s {
            return serial(y, m, 20);
        }
        k -= 1;
    }
}
pub fn third_wednesday(s: i32) -> i32 {
    let x = civil(s);
    let f = serial(x.y, x.m, 15);
    f + (4 + 7 - wday(f)) % 7
}
impl Terms {
    pub fn ordered(&self) -> bool {
        let ok = |x: i32| x > self.effective && x < self.termination;
        self.effective < self.termination
            && self.first.map_or(true, ok)
            && self.last.map_or(true, ok)
            && (self.first.is_none() || self.last.is_none() || self.first <= self.last)
    }
    /// dates before adjustment, with the flag of the period that ends there
    fn raw(&self) -> Vec<(i32, Option<bool>)> {
        let same = |a: i32, b: i32| self.adj(a) == self.adj(b);
        let tsame = |a: i32, b: i32| self.tadj(a) == self.tadj(b);
        let (e, t) = (self.effective, self.termination);
        let one = |a: i32, b: i32| self.step(a, 1) == Some(b) || self.step(b, -1) == Some(a);
        let stub = |a: i32, b: i32| if one(a, b) { None } else { Some(false) };
        if self.rule == 2 {
            return vec![(e, None), (t, Some(true))];
        }
        if self.rule == 0 {
            // later dates first, with the flag of the period that starts there
            let mut r: Vec<(i32, Option<bool>)> = vec![(t, None)];
            if let Some(l) = self.last {
                r.push((l, Some(self.step(t, -1) == Some(l))));
            }
            let anchor = self.last.unwrap_or(t);
            let floor = self.first.unwrap_or(e);
            for k in 1.. {
                match self.step(anchor, -k) {
                    Some(x) if x >= floor => {
                        if !same(r[r.len() - 1].0, x) {
                            r.push((x, Some(true)));
                        }
                    }
                    _ => break,
                }
            }
            let back = r[r.len() - 1].0;
            if self.first.is_some_and(|f| !same(back, f)) {
                r.push((self.first.unwrap(), stub(self.first.unwrap(), back)));
            }
            let back = r[r.len() - 1].0;
            if !same(back, e) {
                r.push((e, stub(e, back)));
            }
            // shift the flags on to the period's end
            let mut out = vec![];
            for i in (0..r.len()).rev() {
                out.push((r[i].0, if i + 1 < r.len() { r[i + 1].1 } else { None }));
            }
            return out;
        }
        let mut r: Vec<(i32, Option<bool>)> = vec![];
        if self.rule >= 8 {
            let p = prev20(e, self.rule);
            if self.adj(p) > e {
                r.push((moved(p, -3, Months).unwrap(), None));
                r.push((p, Some(true)));
            } else {
                r.push((p, None));
            }
        } else {
            r.push((e, None));
        }
        let mut anchor = r[r.len() - 1].0;
        if let Some(f) = self.first {
            r.push((f, Some(self.step(anchor, 1) == Some(f))));
            anchor = f;
        } else if self.rule >= 5 {
            let mut n = next20(e, self.rule);
            if self.rule == 7 && n - e < 30 {
                n = next20(n + 1, self.rule);
            }
            if n != e {
                r.push((n, Some(self.rule >= 8)));
                anchor = n;
            }
        }
        let ceiling = self.last.unwrap_or(t);
        for k in 1.. {
            match self.step(anchor, k) {
                Some(x) if x <= ceiling => {
                    if !same(r[r.len() - 1].0, x) {
                        r.push((x, Some(true)));
                    }
                }
                _ => break,
            }
        }
        let back = r[r.len() - 1].0;
        if self.last.is_some_and(|l| !same(back, l)) {
            r.push((self.last.unwrap(), stub(back, self.last.unwrap())));
        }
        let back = r[r.len() - 1].0;
        if !tsame(back, t) {
            if self.rule >= 5 {
                r.push((next20(t, self.rule), Some(true)));
            } else {
                r.push((t, stub(back, t)));
            }
        }
        r
    }
    /// None where the terms leave no two dates
    pub fn expected(&self) -> Option<Expected> {
        let mut r = self.raw();
        let n = r.len();
        let cal = &self.cal;
        if self.rule == 3 || self.rule == 4 {
            for i in 0..n {
                if self.rule == 4 || (i > 0 && i + 1 < n) {
                    r[i].0 = third_wednesday(r[i].0);
                }
            }
        }
        let anchor = if self.rule == 0 { self.last.unwrap_or(self.termination) } else { self.first.unwrap_or(self.effective) };
        let eom = self.eom && (self.unit == Months || self.unit == Years) && self.rule <= 1 && cal.at_end_of_month(anchor);
        let last_business = |x: i32| cal.prev(month_end(x)).unwrap();
        if eom {
            for i in 1..n - 1 {
                r[i].0 = if self.conv == Unadjusted { month_end(r[i].0) } else { last_business(r[i].0) };
            }
            let (mut a, mut b) = (r[0].0, r[n - 1].0);
            if self.tconv != Unadjusted {
                a = last_business(a);
                b = last_business(b);
            } else if self.rule == 0 {
                b = month_end(b);
            } else {
                a = month_end(a);
            }
            if a != b {
                r[0].0 = a;
                r[n - 1].0 = b;
            }
        } else {
            for i in 0..n - 1 {
                if i > 0 || self.rule != 7 {
                    r[i].0 = self.adj(r[i].0);
                }
            }
            if self.rule < 8 {
                r[n - 1].0 = self.tadj(r[n - 1].0);
            }
        }
        // coinciding dates are kept once
        let (a, b) = (r[0].0, r[n - 1].0);
        if a >= b {
            return None;
        }
        let mut dates = vec![a];
        let mut flags = vec![];
        let mut merged = false;
        for i in 1..n {
            let x = r[i].0;
            if i < n - 1 && (x <= dates[dates.len() - 1] || x >= b) {
                merged = true;
            } else {
                dates.push(x);
                flags.push(if merged { None } else { r[i].1 });
                merged = false;
            }
        }
        Some(Expected { dates, flags })
    }
}
