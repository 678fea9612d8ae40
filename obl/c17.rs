//! C17: schedule look-ups and truncations
use crate::cal::*;
use crate::obl::*;
use crate::sched::*;
use rust_quantlib::datetime::schedule::Schedule;

fn dates(r: &Schedule) -> Vec<i32> {
    r.dates().iter().map(num).collect()
}
fn flags(r: &Schedule) -> Vec<bool> {
    (1..r.size()).map(|i| r.is_regular(i)).collect()
}
/// a schedule: backward, forward or third Wednesdays, with or without stubs; perhaps truncated already
fn any_schedule<S: Src>(s: &mut S) -> (Terms, Schedule) {
    let mut t = terms(s, &[0, 1, 3, 8]);
    t.eom = t.rule < 2 && t.eom;
    if t.rule < 2 && s.boolean() {
        stubs(s, &mut t);
    }
    requires!(s, t.ordered() && t.expected().is_some());
    let mut r = t.build();
    if s.int(0, 3) == 0 {
        let (a, b) = (num(r.start_date()), num(r.end_date()));
        let x = s.int(a, b);
        if x < b && s.boolean() {
            r = r.after(&day(x));
        } else if x > a {
            r = r.until(&day(x));
        }
    }
    (t, r)
}
/// a day in or around the schedule, often one of its dates
fn reference<S: Src>(s: &mut S, d: &[i32]) -> i32 {
    let (a, b) = (d[0], d[d.len() - 1]);
    match s.int(0, 3) {
        0 => s.int(a - 40, b + 40),
        1 => d[s.int(0, d.len() as i32 - 1) as usize],
        2 => d[s.int(0, d.len() as i32 - 1) as usize] + s.int(-1, 1),
        _ => s.int(a, b),
    }
}

//@ native
pub fn next_and_previous_dates_are_the_nearest<S: Src>(s: &mut S) {
    let (_, r) = any_schedule(s);
    let d = dates(&r);
    let x = reference(s, &d);
    let null = MIN;
    let next = d.iter().copied().filter(|y| *y >= x).min().unwrap_or(null);
    let previous = d.iter().copied().filter(|y| *y < x).max().unwrap_or(null);
    ensures!(s, num(&r.next_date(&day(x))) == next, "the earliest date not before");
    ensures!(s, num(&r.previous_date(&day(x))) == previous, "the latest date before");
    // the null date stands for the evaluation date
    let next = d.iter().copied().filter(|y| *y >= EVAL).min().unwrap_or(null);
    let previous = d.iter().copied().filter(|y| *y < EVAL).max().unwrap_or(null);
    ensures!(s, num(&r.next_date(&day(null))) == next, "from the evaluation date");
    ensures!(s, num(&r.previous_date(&day(null))) == previous, "before the evaluation date");
}

//@ native
pub fn the_accessors_describe_one_list<S: Src>(s: &mut S) {
    let (_, r) = any_schedule(s);
    let d = dates(&r);
    ensures!(s, r.size() == d.len() && !r.empty(), "its size");
    ensures!(s, num(r.start_date()) == d[0] && num(r.end_date()) == d[d.len() - 1], "its ends");
    ensures!(s, (0..d.len()).all(|i| num(&r[i]) == d[i]), "its elements");
    ensures!(s, r.has_is_regular() && flags(&r).len() == d.len() - 1, "its flags");
}

//@ native
pub fn after_keeps_the_dates_from_the_cut_on<S: Src>(s: &mut S) {
    let (t, r) = any_schedule(s);
    let (d, f) = (dates(&r), flags(&r));
    let x = reference(s, &d);
    requires!(s, x < d[d.len() - 1] && x >= MIN);
    let a = r.after(&day(x));
    let mut want = d.clone();
    let mut wf = f.clone();
    if x > d[0] {
        let k = d.iter().filter(|y| **y < x).count();
        want = d[k..].to_vec();
        wf = f[k..].to_vec();
        if want[0] != x {
            want.insert(0, x);
            wf.insert(0, false);
        }
    }
    ensures!(s, dates(&a) == want, "the dates from the cut on, with the cut first");
    ensures!(s, flags(&a) == wf, "their flags; a cut period is irregular");
    ensures!(s, a.tenor() == r.tenor() && a.business_day_convention() == t.conv && a.end_of_month() == r.end_of_month(), "the same terms");
    ensures!(s, dates(&r) == d && flags(&r) == f, "the original stays");
}

//@ native
pub fn until_keeps_the_dates_up_to_the_cut<S: Src>(s: &mut S) {
    let (t, r) = any_schedule(s);
    let (d, f) = (dates(&r), flags(&r));
    let x = reference(s, &d);
    requires!(s, x > d[0] && x <= MAX);
    let a = r.until(&day(x));
    let mut want = d.clone();
    let mut wf = f.clone();
    if x < d[d.len() - 1] {
        let k = d.iter().filter(|y| **y <= x).count();
        want = d[..k].to_vec();
        wf = f[..k - 1].to_vec();
        if want[k - 1] != x {
            want.push(x);
            wf.push(false);
        }
    }
    ensures!(s, dates(&a) == want, "the dates up to the cut, with the cut last");
    ensures!(s, flags(&a) == wf, "their flags; a cut period is irregular");
    ensures!(s, a.tenor() == r.tenor() && a.business_day_convention() == t.conv && a.end_of_month() == r.end_of_month(), "the same terms");
    ensures!(s, dates(&r) == d && flags(&r) == f, "the original stays");
}

//@ native reject
pub fn cuts_beyond_the_schedule_are_rejected<S: Src>(s: &mut S) {
    let (_, r) = any_schedule(s);
    let d = dates(&r);
    let n = s.int(0, 100);
    let which = s.int(0, 3);
    rejects!(s, {
        match which {
            0 => { r.after(&day(d[d.len() - 1] + n)); }
            1 => { r.until(&day(d[0] - n)); }
            2 => { r.is_regular(0); }
            _ => { r.is_regular(d.len() + n as usize); }
        }
    }, "nothing is left");
}
