//! Native driver: `list`, `replay NAME v...`, `search NAME SEED SECONDS MAXCASES`, several names at once
//! with `searchall`.  Values are printed so that a failure can be replayed.
use crate::obl::{Failed, Skipped, Src};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug)]
pub enum V {
    I(i32),
    F(f64),
}

pub struct NatSrc {
    mode: Mode,
    drawn: Vec<V>,
    rng: u64,
    case: u64,
    pos: usize,
    pub first_span: u64,
    shared: Option<std::sync::Arc<std::sync::Mutex<Vec<V>>>>,
}
enum Mode {
    Replay(Vec<String>),
    Search,
}
impl NatSrc {
    fn record(&mut self, v: V) {
        self.drawn.push(v);
        if let Some(s) = &self.shared {
            s.lock().unwrap().push(v);
        }
    }
    fn search(seed: u64, case: u64) -> NatSrc {
        let mut s = NatSrc {
            mode: Mode::Search,
            drawn: vec![],
            rng: (seed.wrapping_mul(0x9E3779B97F4A7C15) ^ case.wrapping_mul(0xD1342543DE82EF95)) | 1,
            case,
            pos: 0,
            first_span: 0,
            shared: None,
        };
        s.next();
        s.next();
        s
    }
    fn next(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng.wrapping_mul(0x2545F4914F6CDD1D)
    }
}
impl Src for NatSrc {
    fn int(&mut self, lo: i32, hi: i32) -> i32 {
        let pos = self.pos;
        self.pos += 1;
        let span = (hi as i64 - lo as i64) as u64 + 1;
        let r = match &self.mode {
            Mode::Replay(v) => match v.get(pos).and_then(|x| match x.strip_prefix('u') {
                Some(h) => u128::from_str_radix(h, 16).ok().map(|u| u as u32 as i32 as i64),
                None => x.parse::<i64>().ok(),
            }) {
                Some(x) if x >= lo as i64 && x <= hi as i64 => x as i32,
                _ => std::panic::panic_any(Skipped),
            },
            Mode::Search => {
                if pos == 0 && span <= 400_000 {
                    // sweep the first draw completely (in a scrambled order), the others at random
                    self.first_span = span;
                    let k = (self.case % span).wrapping_mul(1_000_003) % span;
                    (lo as i64 + k as i64) as i32
                } else {
                    let r = self.next();
                    let pick = match (r >> 32) % 16 {
                        0 => 0,
                        1 => span - 1,
                        2 if span > 2 => 1,
                        3 if span > 2 => span - 2,
                        4 | 5 if lo < 0 && hi > 0 => ((-(lo as i64)) + ((r >> 40) % 7) as i64 - 3)
                            .clamp(0, span as i64 - 1) as u64,
                        6 | 7 if span > 1000 => {
                            // near zero or the low end, log-uniform
                            let bits = (r >> 40) % 20;
                            let off = (self.next() % (1u64 << (bits + 1))).min(span - 1);
                            if lo < 0 && hi > 0 {
                                let z = -(lo as i64);
                                let o = if r & 1 == 0 { off as i64 } else { -(off as i64) };
                                (z + o).clamp(0, span as i64 - 1) as u64
                            } else {
                                off
                            }
                        }
                        _ => self.next() % span,
                    };
                    (lo as i64 + pick as i64) as i32
                }
            }
        };
        self.record(V::I(r));
        r
    }
    fn real(&mut self, lo: f64, hi: f64) -> f64 {
        let pos = self.pos;
        self.pos += 1;
        let r = match &self.mode {
            Mode::Replay(v) => match v.get(pos).and_then(|x| {
                match x.strip_prefix('u') {
                    Some(h) => u128::from_str_radix(h, 16).ok().map(|u| f64::from_bits(u as u64)),
                    None => x.strip_prefix("0x").and_then(|h| u64::from_str_radix(h, 16).ok()).map(f64::from_bits),
                }
            }) {
                Some(x) if x >= lo && x <= hi => x,
                _ => std::panic::panic_any(Skipped),
            },
            Mode::Search => {
                let r = self.next();
                match (r >> 32) % 16 {
                    0 => lo,
                    1 => hi,
                    2 if lo <= 0.0 && hi >= 0.0 => 0.0,
                    3 if lo <= 1.0 && hi >= 1.0 => 1.0,
                    4 => (lo + (hi - lo) * 0.5).round().clamp(lo, hi),
                    5..=7 => {
                        let u = (self.next() >> 11) as f64 / (1u64 << 53) as f64;
                        (((lo + (hi - lo) * u) * 100.0).round() / 100.0).clamp(lo, hi)
                    }
                    _ => {
                        let u = (self.next() >> 11) as f64 / (1u64 << 53) as f64;
                        (lo + (hi - lo) * u).clamp(lo, hi)
                    }
                }
            }
        };
        self.record(V::F(r));
        r
    }
    fn skip(&mut self) {
        std::panic::panic_any(Skipped)
    }
}

pub enum Outcome {
    Ok,
    Skip,
    Fail(String),
}

thread_local! { static LAST: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

pub fn run_one(f: fn(&mut NatSrc), s: &mut NatSrc) -> Outcome {
    LAST.with(|l| l.borrow_mut().clear());
    match catch_unwind(AssertUnwindSafe(|| f(s))) {
        Ok(()) => Outcome::Ok,
        Err(p) => {
            if p.is::<Skipped>() {
                Outcome::Skip
            } else if let Some(x) = p.downcast_ref::<Failed>() {
                Outcome::Fail(format!("postcondition `{}` is false", x.0))
            } else {
                let at = LAST.with(|l| l.borrow().clone());
                Outcome::Fail(format!("the code panics on an input that meets the precondition: {at}"))
            }
        }
    }
}

fn show(v: &[V]) -> String {
    v.iter()
        .map(|x| match x {
            V::I(i) => format!("{i}"),
            V::F(f) => format!("0x{:016x}", f.to_bits()),
        })
        .collect::<Vec<_>>()
        .join(" ")
}
fn human(v: &[V]) -> String {
    v.iter()
        .map(|x| match x {
            V::I(i) => format!("{i}"),
            V::F(f) => format!("{f:?}"),
        })
        .collect::<Vec<_>>()
        .join(", ")
}

pub fn main(table: &'static [(&'static str, fn(&mut NatSrc))]) {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST.with(|l| *l.borrow_mut() = format!("{m} at {at}").replace('\n', " "));
    }));
    let a: Vec<String> = std::env::args().collect();
    let find = |n: &str| table.iter().find(|t| t.0 == n).map(|t| t.1).unwrap_or_else(|| panic!("no obligation {n}"));
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for t in table {
                println!("{}", t.0);
            }
        }
        Some("replay") => {
            let f = find(&a[2]);
            let mut s = NatSrc { mode: Mode::Replay(a[3..].to_vec()), drawn: vec![], rng: 1, case: 0, pos: 0, first_span: 0, shared: None };
            match run_one(f, &mut s) {
                Outcome::Ok => println!("HELD [{}]", human(&s.drawn)),
                Outcome::Skip => println!("SKIPPED (precondition not met) [{}]", human(&s.drawn)),
                Outcome::Fail(m) => {
                    println!("FAILED {} [{}] {}", a[2], human(&s.drawn), m);
                    std::process::exit(1);
                }
            }
        }
        Some("search") => {
            // search SEED SECONDS_PER_OBLIGATION MAX_CASES NAME...
            let seed: u64 = a[2].parse().unwrap();
            let secs: f64 = a[3].parse().unwrap();
            let max: u64 = a[4].parse().unwrap();
            let names: Vec<String> = a[5..].to_vec();
            let next = std::sync::atomic::AtomicUsize::new(0);
            let out = std::sync::Mutex::new(());
            let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
            // (case number + 1, index of the obligation) each worker is in; 0 = idle
            let slots: Vec<(std::sync::atomic::AtomicU64, std::sync::atomic::AtomicUsize)> =
                (0..workers).map(|_| Default::default()).collect();
            let done = std::sync::atomic::AtomicUsize::new(0);
            std::thread::scope(|sc| {
                // watchdog: a case that runs for over 5 s does not terminate (cases take micro- to milliseconds)
                sc.spawn(|| {
                    let mut last: Vec<(u64, usize, Instant)> = (0..workers).map(|_| (0, 0, Instant::now())).collect();
                    while done.load(std::sync::atomic::Ordering::SeqCst) < workers {
                        std::thread::sleep(Duration::from_millis(50));
                        for (i, sl) in slots.iter().enumerate() {
                            let c = sl.0.load(std::sync::atomic::Ordering::SeqCst);
                            let k = sl.1.load(std::sync::atomic::Ordering::SeqCst);
                            if c == 0 || last[i].0 != c || last[i].1 != k {
                                last[i] = (c, k, Instant::now());
                            } else if last[i].2.elapsed() > Duration::from_secs(5) {
                                let f = find(&names[k]);
                                let vals = std::sync::Arc::new(std::sync::Mutex::new(vec![]));
                                let v2 = vals.clone();
                                std::thread::spawn(move || {
                                    let mut s = NatSrc::search(seed, c - 1);
                                    s.shared = Some(v2);
                                    run_one(f, &mut s);
                                });
                                std::thread::sleep(Duration::from_millis(500));
                                let v = vals.lock().unwrap().clone();
                                println!("FAIL\t{}\t{}\t{}\tthe code does not terminate on this input", names[k], show(&v), human(&v));
                                std::process::exit(0);
                            }
                        }
                    }
                });
                for w in 0..workers {
                    let slot = &slots[w].0;
                    let idx = &slots[w].1;
                    let (next, names, out, done) = (&next, &names, &out, &done);
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(sc, move || loop {
                            let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                            if k >= names.len() {
                                done.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                                break;
                            }
                            idx.store(k, std::sync::atomic::Ordering::SeqCst);
                            let name = &names[k];
                            let f = find(name);
                            let t0 = Instant::now();
                            let lim = Duration::from_secs_f64(secs);
                            let (mut cases, mut ok, mut span) = (0u64, 0u64, 0u64);
                            let mut failure = None;
                            let mut sample = String::new();
                            while cases < max {
                                if cases % 16 == 0 && t0.elapsed() > lim {
                                    break;
                                }
                                let mut s = NatSrc::search(seed, cases);
                                slot.store(cases + 1, std::sync::atomic::Ordering::SeqCst);
                                cases += 1;
                                let o = run_one(f, &mut s);
                                slot.store(0, std::sync::atomic::Ordering::SeqCst);
                                span = span.max(s.first_span);
                                match o {
                                    Outcome::Ok => {
                                        ok += 1;
                                        if ok == 1 {
                                            sample = human(&s.drawn);
                                        }
                                    }
                                    Outcome::Skip => {}
                                    Outcome::Fail(m) => {
                                        failure = Some((show(&s.drawn), human(&s.drawn), m));
                                        break;
                                    }
                                }
                                // a single small draw: the sweep is complete
                                if s.drawn.len() <= 1 && s.first_span > 0 && cases >= s.first_span {
                                    break;
                                }
                            }
                            let _g = out.lock().unwrap();
                            match failure {
                                Some((raw, hum, m)) => println!("FAIL\t{name}\t{raw}\t{hum}\t{m}"),
                                None => println!("OK\t{name}\t{cases}\t{ok}\t{span}\t{:.2}\t{sample}", t0.elapsed().as_secs_f64()),
                            }
                        })
                        .unwrap();
                }
            });
        }
        _ => panic!("usage"),
    }
}
