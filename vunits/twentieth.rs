// ------------------------------------------------------------------ twentieths
pub open spec fn on_the_twentieth(r: DateGenerationRule) -> bool { r == DateGenerationRule::Twentieth || quarterly(r) }
pub open spec fn quarterly(r: DateGenerationRule) -> bool { r == DateGenerationRule::TwentiethIMM || r == DateGenerationRule::OldCDS || cds(r) }
pub open spec fn cds(r: DateGenerationRule) -> bool { r == DateGenerationRule::CDS || r == DateGenerationRule::CDS2015 }
/// a 20th, of March, June, September or December for the quarterly rules
pub open spec fn roll(s: int, r: DateGenerationRule) -> bool { dom_of(s) == 20 && (quarterly(r) ==> month_of(s) % 3 == 0) }
#[verifier::opaque]
pub open spec fn month_from(s: int, r: DateGenerationRule) -> int {
    let k = if dom_of(s) > 20 { mi(s) + 1 } else { mi(s) };
    if quarterly(r) { k + (2 - k % 3) } else { k }
}
#[verifier::opaque]
pub open spec fn month_until(s: int, r: DateGenerationRule) -> int {
    let k = if dom_of(s) < 20 { mi(s) - 1 } else { mi(s) };
    if quarterly(r) { k - (k + 1) % 3 } else { k }
}
#[verifier::opaque]
pub open spec fn next_roll(s: int, r: DateGenerationRule) -> int { first(month_from(s, r)) + 19 }
#[verifier::opaque]
pub open spec fn last_roll(s: int, r: DateGenerationRule) -> int { first(month_until(s, r)) + 19 }
pub proof fn lemma_twentieth(k: int)
    requires K0() <= k < 26400,
    ensures mi(first(k) + 19) == k, dom_of(first(k) + 19) == 20, MIN() <= first(k) + 19 < MAX(),
{
    lemma_first_month();
    lemma_step(k);
    if k > K0() { lemma_mono(K0(), k); }
    if k < 26399 { lemma_mono(k, 26399); }
    lemma_unique(first(k) + 19, k);
}
proof fn the_next_roll_is_the_earliest(s: int, r: DateGenerationRule)
    requires MIN() <= s <= MAX(), month_from(s, r) < 26400,
    ensures
        s <= next_roll(s, r), roll(next_roll(s, r), r),
        forall|x: int| s <= x < next_roll(s, r) ==> !#[trigger] roll(x, r),
{
    hide(ser); hide(mlen); hide(mi); hide(caldate::leap); hide(first);
    reveal(next_roll); reveal(month_from);
    lemma_mi(s);
    let k = month_from(s, r);
    lemma_twentieth(k);
    let n = next_roll(s, r);
    assert((k + 1) % 3 == month_of(n) % 3) by { assert(month_of(n) == k % 12 + 1); }
    assert(s <= n) by { if n < s { lemma_order(n, s); lemma_mi(n); } }
    assert forall|x: int| s <= x < n implies !#[trigger] roll(x, r) by {
        lemma_mi(x);
        lemma_order(s, x);
        lemma_order(x, n);
        if roll(x, r) {
            assert((mi(x) + 1) % 3 == month_of(x) % 3) by { assert(month_of(x) == mi(x) % 12 + 1); }
            if mi(x) == mi(s) { assert(dom_of(x) >= dom_of(s)); }
            if mi(x) == k { assert(dom_of(n) - dom_of(x) == n - x); }
        }
    }
}
proof fn the_last_roll_is_the_latest(s: int, r: DateGenerationRule)
    requires MIN() <= s <= MAX(), month_until(s, r) >= K0(),
    ensures
        last_roll(s, r) <= s, roll(last_roll(s, r), r),
        forall|x: int| last_roll(s, r) < x <= s ==> !#[trigger] roll(x, r),
{
    hide(ser); hide(mlen); hide(mi); hide(caldate::leap); hide(first);
    reveal(last_roll); reveal(month_until);
    lemma_mi(s);
    let k = month_until(s, r);
    assert(k < 26400) by { lemma_first_month(); if mi(s) >= 26400 { if mi(s) > 26400 { lemma_mono(26400, mi(s)); } } }
    lemma_twentieth(k);
    let n = last_roll(s, r);
    assert((k + 1) % 3 == month_of(n) % 3) by { assert(month_of(n) == k % 12 + 1); }
    assert(n <= s) by { if s < n { lemma_order(s, n); lemma_mi(n); } }
    assert forall|x: int| n < x <= s implies !#[trigger] roll(x, r) by {
        lemma_mi(x);
        lemma_order(n, x);
        lemma_order(x, s);
        if roll(x, r) {
            assert((mi(x) + 1) % 3 == month_of(x) % 3) by { assert(month_of(x) == mi(x) % 12 + 1); }
            if mi(x) == mi(s) { assert(dom_of(x) <= dom_of(s)); }
            if mi(x) == k { assert(dom_of(x) - dom_of(n) == x - n); }
        }
    }
}
/// moving a 20th by months keeps it a 20th
proof fn lemma_move_twentieth(k: int, n: int)
    requires K0() <= k < 26400, K0() <= k + n < 26400,
    ensures plus(first(k) + 19, n, TimeUnit::Months) == first(k + n) + 19,
{
    hide(ser); hide(mlen); hide(mi); hide(caldate::leap); hide(first);
    lemma_twentieth(k);
    lemma_step(k + n);
}
proof fn lemma_this_month(s: int)
    requires MIN() <= s <= MAX(),
    ensures K0() <= mi(s) < 26400, 28 <= mlen(year_of(s), month_of(s)), 1900 <= year_of(s) < 2200, 1 <= month_of(s) <= 12,
        ser(year_of(s), month_of(s), 20) == first(mi(s)) + 19, dom_of(s) >= 1, s == first(mi(s)) + dom_of(s) - 1,
{
    hide(mi);
    lemma_mi(s);
    lemma_first_month();
    lemma_step(mi(s));
    if mi(s) >= 26400 { if mi(s) > 26400 { lemma_mono(26400, mi(s)); } }
}
//@fn src/datetime/schedule.rs "" previous_twentieth
//@sub "m as Integer" => "month_int(m)"
//@ret r
    requires wf(*d),
    ensures wf(r), r.s() == last_roll(d.s(), rule), r.s() < MAX(), K0() <= month_until(d.s(), rule),
//@top
        hide(ser); hide(mlen); hide(mi); hide(caldate::leap); hide(first);
        reveal(next_roll); reveal(last_roll); reveal(month_from); reveal(month_until); reveal(shifted); reveal(shiftable);
        proof {
            lemma_this_month(d.s());
            lemma_twentieth(mi(d.s()));
            if mi(d.s()) > K0() { lemma_move_twentieth(mi(d.s()), -1); lemma_twentieth(mi(d.s()) - 1); }
            let k = if dom_of(d.s()) < 20 { mi(d.s()) - 1 } else { mi(d.s()) };
            let skip = (k + 1) % 3;
            if k >= K0() {
                assert(((k % 12) + 1) % 3 == skip);
                if k - skip >= K0() { lemma_move_twentieth(k, -skip); lemma_twentieth(k - skip); }
            }
        }
//@end
//@fn src/datetime/schedule.rs "" next_twentieth
//@sub "m as Integer" => "month_int(m)"
//@ret r
    requires wf(*d),
    ensures wf(r), r.s() == next_roll(d.s(), rule), r.s() < MAX(), month_from(d.s(), rule) < 26400,
//@top
        hide(ser); hide(mlen); hide(mi); hide(caldate::leap); hide(first);
        reveal(next_roll); reveal(last_roll); reveal(month_from); reveal(month_until); reveal(shifted); reveal(shiftable);
        proof {
            lemma_this_month(d.s());
            lemma_twentieth(mi(d.s()));
            if mi(d.s()) < 26399 { lemma_move_twentieth(mi(d.s()), 1); lemma_twentieth(mi(d.s()) + 1); }
            let k = if dom_of(d.s()) > 20 { mi(d.s()) + 1 } else { mi(d.s()) };
            let skip = 2 - k % 3;
            if k < 26400 {
                assert(((k % 12) + 1) % 3 == (k + 1) % 3);
                if k + skip < 26400 { lemma_move_twentieth(k, skip); lemma_twentieth(k + skip); }
            }
        }
//@end
/// a month as a number
fn month_int(m: Month) -> (r: i32)
    ensures r == month_number(m),
{
    match m { Month::January => 1, Month::February => 2, Month::March => 3, Month::April => 4, Month::May => 5, Month::June => 6,
              Month::July => 7, Month::August => 8, Month::September => 9, Month::October => 10, Month::November => 11, Month::December => 12 }
}

