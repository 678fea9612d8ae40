//! C15: comparison, equality and hashing of periods
use crate::c14::{dayish, span, unit};
use crate::obl::*;
use rust_quantlib::datetime::{period::Period, timeunit::TimeUnit::*};
use std::cmp::Ordering::{self, *};
use std::hash::{Hash, Hasher};

/// lengths whose span in days is representable (366 n)
const N: i32 = 5_800_000;

fn limits(p: &Period) -> (i64, i64) {
    let n = p.length as i64;
    let (a, b) = match p.unit {
        Days => (n, n),
        Weeks => (7 * n, 7 * n),
        Months => (28 * n, 31 * n),
        _ => (365 * n, 366 * n),
    };
    if a <= b {
        (a, b)
    } else {
        (b, a)
    }
}
fn order(p: &Period, q: &Period) -> Option<Ordering> {
    if p.length == 0 || q.length == 0 || dayish(p.unit) == dayish(q.unit) {
        // comparable exactly: at most one of months and days differs from zero on both sides
        let (a, b) = (span(p), span(q));
        let (x, y) = (a.0 + a.1, b.0 + b.1);
        return Some(if x < y {
            Less
        } else if x > y {
            Greater
        } else {
            Equal
        });
    }
    let (a, b) = (limits(p), limits(q));
    if a.1 < b.0 {
        Some(Less)
    } else if a.0 > b.1 {
        Some(Greater)
    } else {
        None
    }
}

//@ native
pub fn comparison_is_sound_and_complete<S: Src>(s: &mut S) {
    let p = Period::new(s.int(-N, N), unit(s));
    let q = Period::new(s.int(-N, N), unit(s));
    ensures!(s, p.partial_cmp(&q) == order(&p, &q), "comparison of two periods");
}

//@ native
pub fn swapping_the_arguments_swaps_the_answer<S: Src>(s: &mut S) {
    let p = Period::new(s.int(-N, N), unit(s));
    let q = Period::new(s.int(-N, N), unit(s));
    let r = match p.partial_cmp(&q) {
        Some(Less) => Some(Greater),
        Some(Greater) => Some(Less),
        x => x,
    };
    ensures!(s, q.partial_cmp(&p) == r, "antisymmetry");
}

fn operators<S: Src>(s: &mut S, n: i32) {
    let p = Period::new(s.int(-n, n), unit(s));
    let q = Period::new(s.int(-n, n), unit(s));
    let o = order(&p, &q);
    ensures!(s, (p == q) == (o == Some(Equal)), "==");
    ensures!(s, (p != q) == (o != Some(Equal)), "!=");
    ensures!(s, (p < q) == (o == Some(Less)), "<");
    ensures!(s, (p > q) == (o == Some(Greater)), ">");
    ensures!(s, (p <= q) == (o == Some(Less) || o == Some(Equal)), "<=");
    ensures!(s, (p >= q) == (o == Some(Greater) || o == Some(Equal)), ">=");
}

//@ kani unwind=2 bounded="|length| <= 400"
pub fn equality_and_operators_agree_with_comparison<S: Src>(s: &mut S) {
    operators(s, 400)
}
//@ native
pub fn equality_and_operators_agree_at_any_length<S: Src>(s: &mut S) {
    operators(s, N)
}

//@ kani unwind=2
pub fn a_period_equals_itself<S: Src>(s: &mut S) {
    let n = s.int(i32::MIN, i32::MAX);
    let u = match s.int(0, 8) {
        0 => Days,
        1 => Weeks,
        2 => Months,
        3 => Years,
        4 => Hours,
        5 => Minutes,
        6 => Seconds,
        7 => Milliseconds,
        _ => Microseconds,
    };
    let p = Period::new(n, u);
    ensures!(s, p == Period::new(n, u), "reflexivity");
}

/// records what is hashed
#[derive(PartialEq)]
struct Tape {
    n: usize,
    v: [u64; 8],
}
impl Hasher for Tape {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        let mut x = 0u64;
        for c in b {
            x = (x << 8) | *c as u64;
        }
        self.push(x);
    }
    fn write_i32(&mut self, i: i32) {
        self.push(i as u32 as u64)
    }
    fn write_u8(&mut self, i: u8) {
        self.push(i as u64)
    }
    fn write_i64(&mut self, i: i64) {
        self.push(i as u64)
    }
    fn write_isize(&mut self, i: isize) {
        self.push(i as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.push(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.push(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.push(i)
    }
}
impl Tape {
    fn push(&mut self, x: u64) {
        if self.n < 8 {
            self.v[self.n] = x;
        }
        self.n += 1;
    }
}
fn tape(p: &Period) -> Tape {
    let mut t = Tape { n: 0, v: [0; 8] };
    p.hash(&mut t);
    t
}

//@ kani unwind=10
pub fn equal_periods_hash_equally<S: Src>(s: &mut S) {
    let p = Period::new(s.int(-N, N), unit(s));
    let q = Period::new(s.int(-N, N), unit(s));
    requires!(s, order(&p, &q) == Some(Equal));
    let (a, b) = (tape(&p), tape(&q));
    ensures!(s, a.n == b.n && a.n > 0 && a.n <= 8, "equal periods feed the hasher alike");
    let k = s.int(0, 7) as usize;
    ensures!(s, a.v[k] == b.v[k], "equal periods feed the hasher the same values");
}

/// periods that are equal under a different spelling (the random pairs above seldom are)
//@ native
pub fn respelled_periods_hash_equally<S: Src>(s: &mut S) {
    let n = s.int(-400_000, 400_000);
    let (p, q) = match s.int(0, 2) {
        0 => (Period::new(12 * n, Months), Period::new(n, Years)),
        1 => (Period::new(7 * n, Days), Period::new(n, Weeks)),
        _ => (Period::new(0, unit(s)), Period::new(0, unit(s))),
    };
    ensures!(s, p == q && tape(&p) == tape(&q), "respelled periods hash equally");
}
