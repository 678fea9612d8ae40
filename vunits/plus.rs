proof fn lemma_plus(s: int, n: int, u: TimeUnit)
    requires MIN() <= s <= MAX(), movable(s, n, u),
    ensures MIN() <= plus(s, n, u) <= MAX(),
{
    lemma_mi(s);
    lemma_first_month();
    if u == TimeUnit::Months || u == TimeUnit::Years {
        let k = mi(s) + (if u == TimeUnit::Months { n } else { 12 * n });
        lemma_step(k);
        if k > K0() { lemma_mono(K0(), k); }
        if k < 26399 { lemma_mono(k, 26399); }
    }
}
