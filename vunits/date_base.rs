/// The contract of Date used by callers.  It is assumed here and discharged elsewhere: C01-C04 prove it for the real Date
/// (Kani, whole domain; months also unbounded in the unit `date`).  A date is its serial number.
#[derive(Debug)]
pub struct Date { pub serial_number: i32 }
impl Clone for Date { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for Date {}
impl Date {
    pub open spec fn s(self) -> int { self.serial_number as int }
}
pub open spec fn wf(d: Date) -> bool { MIN() <= d.s() <= MAX() }
pub open spec fn day(s: int) -> Date { Date { serial_number: s as i32 } }

impl PartialEqSpecImpl for Date {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Date) -> bool { self.serial_number == o.serial_number }
}
impl PartialEq for Date {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> bool { unimplemented!() }
}
impl Eq for Date {}
impl core::hash::Hash for Date {
    #[verifier::external_body]
    fn hash<H: core::hash::Hasher>(&self, state: &mut H) { unimplemented!() }
}
impl PartialOrdSpecImpl for Date {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Date) -> Option<Ordering> {
        if self.serial_number < o.serial_number { Some(Ordering::Less) }
        else if self.serial_number == o.serial_number { Some(Ordering::Equal) }
        else { Some(Ordering::Greater) }
    }
}
impl PartialOrd for Date {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> { unimplemented!() }
}
impl AddSpecImpl<i32> for Date {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, n: i32) -> bool { MIN() <= self.s() + n <= MAX() }
    open spec fn add_spec(self, n: i32) -> Date { day(self.s() + n) }
}
impl Add<i32> for Date {
    type Output = Date;
    #[verifier::external_body]
    fn add(self, n: i32) -> Date { unimplemented!() }
}
impl SubSpecImpl<i32> for Date {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, n: i32) -> bool { MIN() <= self.s() - n <= MAX() }
    open spec fn sub_spec(self, n: i32) -> Date { day(self.s() - n) }
}
impl Sub<i32> for Date {
    type Output = Date;
    #[verifier::external_body]
    fn sub(self, n: i32) -> Date { unimplemented!() }
}
impl<'a> AddSpecImpl<i32> for &'a Date {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, n: i32) -> bool { MIN() <= self.s() + n <= MAX() }
    open spec fn add_spec(self, n: i32) -> Date { day(self.s() + n) }
}
impl<'a> Add<i32> for &'a Date {
    type Output = Date;
    #[verifier::external_body]
    fn add(self, n: i32) -> Date { unimplemented!() }
}
impl<'a> SubSpecImpl<i32> for &'a Date {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, n: i32) -> bool { MIN() <= self.s() - n <= MAX() }
    open spec fn sub_spec(self, n: i32) -> Date { day(self.s() - n) }
}
impl<'a> Sub<i32> for &'a Date {
    type Output = Date;
    #[verifier::external_body]
    fn sub(self, n: i32) -> Date { unimplemented!() }
}
impl SubSpecImpl<Date> for Date {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: Date) -> bool { wf(self) && wf(o) }
    open spec fn sub_spec(self, o: Date) -> i32 { (self.s() - o.s()) as i32 }
}
impl Sub<Date> for Date {
    type Output = i32;
    #[verifier::external_body]
    fn sub(self, o: Date) -> i32 { unimplemented!() }
}
impl<'a> SubSpecImpl<&'a Date> for &'a Date {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: &'a Date) -> bool { wf(*self) && wf(*o) }
    open spec fn sub_spec(self, o: &'a Date) -> i32 { (self.s() - o.s()) as i32 }
}
impl<'a> Sub for &'a Date {
    type Output = i32;
    #[verifier::external_body]
    fn sub(self, o: &'a Date) -> i32 { unimplemented!() }
}
impl AddAssignSpecImpl<i32> for Date {
    open spec fn obeys_add_assign_spec() -> bool { true }
    open spec fn add_assign_req(&self, n: i32) -> bool { MIN() <= self.s() + n <= MAX() }
    open spec fn add_assign_spec(&self, n: i32) -> &Date { &day(self.s() + n) }
}
impl AddAssign<i32> for Date {
    #[verifier::external_body]
    fn add_assign(&mut self, n: i32) { unimplemented!() }
}
impl SubAssignSpecImpl<i32> for Date {
    open spec fn obeys_sub_assign_spec() -> bool { true }
    open spec fn sub_assign_req(&self, n: i32) -> bool { MIN() <= self.s() - n <= MAX() }
    open spec fn sub_assign_spec(&self, n: i32) -> &Date { &day(self.s() - n) }
}
impl SubAssign<i32> for Date {
    #[verifier::external_body]
    fn sub_assign(&mut self, n: i32) { unimplemented!() }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Structural)]
pub enum Month { January = 1, February = 2, March = 3, April = 4, May = 5, June = 6, July = 7, August = 8, September = 9, October = 10, November = 11, December = 12 }
pub open spec fn month_number(m: Month) -> int {
    match m { Month::January => 1, Month::February => 2, Month::March => 3, Month::April => 4, Month::May => 5, Month::June => 6,
              Month::July => 7, Month::August => 8, Month::September => 9, Month::October => 10, Month::November => 11, Month::December => 12 }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Structural)]
pub enum Weekday { Sunday = 1, Monday = 2, Tuesday = 3, Wednesday = 4, Thursday = 5, Friday = 6, Saturday = 7 }
pub open spec fn weekday_number(w: Weekday) -> int {
    match w { Weekday::Saturday => 0, Weekday::Sunday => 1, Weekday::Monday => 2, Weekday::Tuesday => 3, Weekday::Wednesday => 4, Weekday::Thursday => 5, Weekday::Friday => 6 }
}
pub open spec fn weekday_at(s: int) -> Weekday {
    if s % 7 == 0 { Weekday::Saturday } else if s % 7 == 1 { Weekday::Sunday } else if s % 7 == 2 { Weekday::Monday }
    else if s % 7 == 3 { Weekday::Tuesday } else if s % 7 == 4 { Weekday::Wednesday } else if s % 7 == 5 { Weekday::Thursday } else { Weekday::Friday }
}

/// a date moved by a period
pub open spec fn plus(s: int, n: int, u: TimeUnit) -> int {
    match u {
        TimeUnit::Days => s + n,
        TimeUnit::Weeks => s + 7 * n,
        TimeUnit::Months => first(mi(s) + n) + (if dom_of(s) < len(mi(s) + n) { dom_of(s) } else { len(mi(s) + n) }) - 1,
        _ => first(mi(s) + 12 * n) + (if dom_of(s) < len(mi(s) + 12 * n) { dom_of(s) } else { len(mi(s) + 12 * n) }) - 1,
    }
}
pub open spec fn movable(s: int, n: int, u: TimeUnit) -> bool {
    match u {
        TimeUnit::Days => MIN() <= s + n <= MAX(),
        TimeUnit::Weeks => MIN() <= s + 7 * n <= MAX(),
        TimeUnit::Months => K0() <= mi(s) + n < 26400,
        TimeUnit::Years => K0() <= mi(s) + 12 * n < 26400,
        _ => false,
    }
}
