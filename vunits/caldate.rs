/// The proleptic Gregorian calendar: pure mathematics, no code of /repo, no axioms
pub mod caldate {
use vstd::prelude::*;

pub open spec fn MIN() -> int { 2 }
pub open spec fn MAX() -> int { 109574 }

pub open spec fn leap(y: int) -> bool {
    y % 400 == 0 || (y % 4 == 0 && y % 100 != 0)
}
/// the k-th month, counted from the year 0, starts on this serial number
pub open spec fn before(m: int, lp: bool) -> int {
    let l: int = if lp { 1 } else { 0 };
    if m <= 1 { 0 } else if m == 2 { 31 } else if m == 3 { 59 + l } else if m == 4 { 90 + l } else if m == 5 { 120 + l }
    else if m == 6 { 151 + l } else if m == 7 { 181 + l } else if m == 8 { 212 + l } else if m == 9 { 243 + l }
    else if m == 10 { 273 + l } else if m == 11 { 304 + l } else { 334 + l }
}
pub open spec fn mlen(y: int, m: int) -> int {
    if m == 2 { if leap(y) { 29 } else { 28 } } else if m == 4 || m == 6 || m == 9 || m == 11 { 30 } else { 31 }
}
/// serial number of a civil date
pub open spec fn ser(y: int, m: int, d: int) -> int {
    365 * (y - 1900) + ((y - 1) / 4 - 474) - ((y - 1) / 100 - 18) + ((y - 1) / 400 - 4) + before(m, leap(y)) + d + 1
}
/// month index: 12 * year + (month - 1)
pub open spec fn first(k: int) -> int { ser(k / 12, k % 12 + 1, 1) }
pub open spec fn len(k: int) -> int { mlen(k / 12, k % 12 + 1) }
pub open spec fn K0() -> int { 22800 }

pub open spec fn in_month(s: int, k: int) -> bool { first(k) <= s < first(k) + len(k) }
/// index of the month of a serial number
pub open spec fn mi(s: int) -> int { choose|k: int| k >= K0() && in_month(s, k) }
pub open spec fn year_of(s: int) -> int { mi(s) / 12 }
pub open spec fn month_of(s: int) -> int { mi(s) % 12 + 1 }
pub open spec fn dom_of(s: int) -> int { s - first(mi(s)) + 1 }
pub open spec fn last_of(k: int) -> int { first(k) + len(k) - 1 }

pub proof fn lemma_step(k: int)
    requires k >= K0(),
    ensures first(k + 1) == first(k) + len(k), 28 <= len(k) <= 31,
{
    let y = k / 12;
    let m = k % 12 + 1;
    if m < 12 {
        assert((k + 1) / 12 == y && (k + 1) % 12 + 1 == m + 1);
    } else {
        assert((k + 1) / 12 == y + 1 && (k + 1) % 12 + 1 == 1);
        assert((y % 4 == 0) ==> y / 4 == (y - 1) / 4 + 1);
        assert((y % 4 != 0) ==> y / 4 == (y - 1) / 4);
        assert((y % 100 == 0) ==> y / 100 == (y - 1) / 100 + 1);
        assert((y % 100 != 0) ==> y / 100 == (y - 1) / 100);
        assert((y % 400 == 0) ==> y / 400 == (y - 1) / 400 + 1);
        assert((y % 400 != 0) ==> y / 400 == (y - 1) / 400);
        assert(y % 400 == 0 ==> y % 100 == 0);
        assert(y % 100 == 0 ==> y % 4 == 0);
    }
}
pub proof fn lemma_mono(a: int, b: int)
    requires K0() <= a < b,
    ensures first(a) + len(a) <= first(b), first(b) >= first(a) + 28 * (b - a), first(b) <= first(a) + 31 * (b - a),
    decreases b - a,
{
    lemma_step(b - 1);
    if a < b - 1 {
        lemma_mono(a, b - 1);
    } else {
        lemma_step(a);
    }
}
proof fn lemma_find(s: int, k: int) -> (r: int)
    requires k >= K0(), first(k) <= s,
    ensures r >= K0() && in_month(s, r),
    decreases s - first(k),
{
    lemma_step(k);
    if s < first(k) + len(k) { k } else { lemma_find(s, k + 1) }
}
pub proof fn lemma_first_month()
    ensures first(K0()) == 2, first(26400) == MAX() + 1, first(26399) == MAX() - 30,
{
    assert(first(22800) == 2) by (compute);
    assert(first(26400) == 109575) by (compute);
    assert(first(26399) == 109544) by (compute);
}
pub proof fn lemma_mi(s: int)
    requires s >= 2,
    ensures mi(s) >= K0(), in_month(s, mi(s)), 1 <= month_of(s) <= 12, 1 <= dom_of(s) <= mlen(year_of(s), month_of(s)),
            ser(year_of(s), month_of(s), dom_of(s)) == s,
            s <= MAX() ==> 1900 <= year_of(s) <= 2199,
{
    lemma_first_month();
    let r = lemma_find(s, K0());
    assert(r >= K0() && in_month(s, r));
    if s <= MAX() && mi(s) >= 26400 {
        if mi(s) > 26400 { lemma_mono(26400, mi(s)); }
    }
}
pub proof fn lemma_unique(s: int, k: int)
    requires k >= K0(), in_month(s, k), s >= 2,
    ensures mi(s) == k,
{
    lemma_mi(s);
    if mi(s) < k { lemma_mono(mi(s), k); }
    if mi(s) > k { lemma_mono(k, mi(s)); }
}
pub proof fn lemma_order(s: int, t: int)
    requires 2 <= s <= t,
    ensures mi(s) <= mi(t), 28 * (mi(t) - mi(s)) <= t - s + 31, 31 * (mi(t) - mi(s)) >= t - s - 31,
            mi(s) == mi(t) ==> dom_of(t) - dom_of(s) == t - s,
            mi(t) > mi(s) ==> last_of(mi(s)) < t,
{
    lemma_mi(s);
    lemma_mi(t);
    if mi(t) < mi(s) { lemma_mono(mi(t), mi(s)); }
    if mi(s) < mi(t) { lemma_mono(mi(s), mi(t)); }
}
/// dates no more than 250 days apart are in the same month exactly when their month numbers agree
pub proof fn lemma_same_month(s: int, t: int)
    requires s >= 2, t >= 2, -250 <= t - s <= 250,
    ensures (month_of(s) == month_of(t)) == (mi(s) == mi(t)),
{
    if s <= t { lemma_order(s, t); } else { lemma_order(t, s); }
    lemma_mi(s);
    lemma_mi(t);
}
pub proof fn lemma_last(s: int)
    requires MIN() <= s <= MAX(),
    ensures s <= last_of(mi(s)) <= MAX(), mi(last_of(mi(s))) == mi(s), first(mi(s)) >= MIN(), mi(first(mi(s))) == mi(s),
            dom_of(last_of(mi(s))) == mlen(year_of(s), month_of(s)),
{
    lemma_mi(s);
    lemma_first_month();
    lemma_step(mi(s));
    lemma_unique(last_of(mi(s)), mi(s));
    if mi(s) > K0() { lemma_mono(K0(), mi(s)); }
    lemma_unique(first(mi(s)), mi(s));
    if mi(s) >= 26400 { if mi(s) > 26400 { lemma_mono(26400, mi(s)); } }
    if mi(s) < 26399 { lemma_mono(mi(s), 26399); }
}
}
