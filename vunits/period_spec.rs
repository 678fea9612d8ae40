// the span of a period: months and days
pub open spec fn months_of(p: Period) -> int {
    match p.unit { TimeUnit::Months => p.length as int, TimeUnit::Years => 12 * p.length, _ => 0 }
}
pub open spec fn days_of(p: Period) -> int {
    match p.unit { TimeUnit::Days => p.length as int, TimeUnit::Weeks => 7 * p.length, _ => 0 }
}
pub open spec fn calendar_unit(u: TimeUnit) -> bool {
    u == TimeUnit::Days || u == TimeUnit::Weeks || u == TimeUnit::Months || u == TimeUnit::Years
}
pub open spec fn dayish(u: TimeUnit) -> bool {
    u == TimeUnit::Days || u == TimeUnit::Weeks
}
pub open spec fn wide(p: Period) -> bool {
    fits(months_of(p)) && fits(days_of(p)) && fits(p.length as int) && calendar_unit(p.unit)
}
/// the two spans have a sum
pub open spec fn addable(a: Period, b: Period) -> bool {
    &&& wide(a) && wide(b)
    &&& fits(months_of(a) + months_of(b)) && fits(days_of(a) + days_of(b))
    &&& dayish(a.unit) == dayish(b.unit) || a.length == 0 || b.length == 0
}
