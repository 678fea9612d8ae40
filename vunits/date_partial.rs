#[verifier::opaque]
pub open spec fn shifted(s: int, n: int, u: TimeUnit) -> int { plus(s, n, u) }
#[verifier::opaque]
pub open spec fn shiftable(s: int, n: int, u: TimeUnit) -> bool { movable(s, n, u) }
pub open spec fn null() -> int { MIN() }
/// assert! and panic! do not return
#[verifier::external_body]
pub fn reject_unless(b: bool)
    ensures b,
{ unimplemented!() }
#[verifier::external_body]
pub fn reject() -> !
    ensures false,
{ unimplemented!() }

// --- dates and periods: the contracts of C01-C04 and C14, a panic being a call that does not return
impl SubSpecImpl<Period> for Date {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, p: Period) -> bool { wf(self) }
    open spec fn sub_spec(self, p: Period) -> Date { self }
}
impl Sub<Period> for Date {
    type Output = Date;
    #[verifier::external_body]
    fn sub(self, p: Period) -> (r: Date)
        ensures shiftable(self.s(), -p.length, p.unit), wf(r), r.s() == shifted(self.s(), -p.length, p.unit),
    { unimplemented!() }
}
impl AddAssignSpecImpl<Period> for Date {
    open spec fn obeys_add_assign_spec() -> bool { false }
    open spec fn add_assign_req(&self, p: Period) -> bool { wf(*self) }
    open spec fn add_assign_spec(&self, p: Period) -> &Date { self }
}
impl AddAssign<Period> for Date {
    #[verifier::external_body]
    fn add_assign(&mut self, p: Period)
        ensures shiftable(old(self).s(), p.length as int, p.unit), wf(*final(self)), final(self).s() == shifted(old(self).s(), p.length as int, p.unit),
    { unimplemented!() }
}
impl SubAssignSpecImpl<Period> for Date {
    open spec fn obeys_sub_assign_spec() -> bool { false }
    open spec fn sub_assign_req(&self, p: Period) -> bool { wf(*self) }
    open spec fn sub_assign_spec(&self, p: Period) -> &Date { self }
}
impl SubAssign<Period> for Date {
    #[verifier::external_body]
    fn sub_assign(&mut self, p: Period)
        ensures shiftable(old(self).s(), -p.length, p.unit), wf(*final(self)), final(self).s() == shifted(old(self).s(), -p.length, p.unit),
    { unimplemented!() }
}
impl Date {
    #[verifier::external_body]
    fn new(d: Day, m: Month, y: Year) -> (r: Date)
        requires 1900 <= y < 2200, 1 <= d <= mlen(y as int, month_number(m)),
        ensures r.s() == ser(y as int, month_number(m), d as int), wf(r),
    { unimplemented!() }
    // the null date
    #[verifier::external_body]
    pub fn default() -> (r: Date)
        ensures r.s() == MIN(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn nth_weekday(nth: Size, day_of_week: Weekday, m: Month, y: Year) -> (r: Date)
        requires 1900 <= y < 2200, 1 <= nth <= 4,
        ensures wf(r), mi(r.s()) == 12 * y + month_number(m) - 1, 7 * (nth - 1) < dom_of(r.s()) <= 7 * nth, weekday_at(r.s()) == day_of_week,
    { unimplemented!() }
}
impl Period {
    #[verifier::external_body]
    pub fn new(length: i32, unit: TimeUnit) -> (r: Period)
        ensures r.length == length, r.unit == unit,
    { unimplemented!() }
}
