//@include caldate.rs
use caldate::*;

pub type Integer = i32;
pub type SerialNumber = i32;
pub type Size = usize;
pub type Day = u32;
pub type Year = i32;
pub type Time = Real;
pub type Rate = Real;
pub type DiscountFactor = Real;

//@include real.rs
//@type src/datetime/timeunit.rs enum TimeUnit derive(Clone, Copy, Debug, PartialEq, Eq, Structural)
//@type src/datetime/period.rs struct Period derive(Clone, Copy, Debug)
//@include date_base.rs
//@include date_period_ops.rs
//@include rates_base.rs
use Frequency::Annual;
use Compounding::Simple;

impl Period {
    // C14
    #[verifier::external_body]
    pub fn new(length: i32, unit: TimeUnit) -> (r: Period)
        ensures r.length == length, r.unit == unit,
    { unimplemented!() }
}
pub open spec fn earlier(a: Date, b: Date) -> Date { if b.s() < a.s() { b } else { a } }
pub open spec fn later(a: Date, b: Date) -> Date { if a.s() <= b.s() { b } else { a } }
pub open spec fn null() -> int { MIN() }
impl Date {
    // the null date
    #[verifier::external_body]
    pub fn default() -> (r: Date)
        ensures r.s() == MIN(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn min(self, o: Date) -> (r: Date)
        ensures r == earlier(self, o),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn max(self, o: Date) -> (r: Date)
        ensures r == later(self, o),
    { unimplemented!() }
}
pub trait OrNull { 
    spec fn or_null(self) -> int;
    fn or_default(self) -> (r: Date)
        ensures r.s() == self.or_null(),
    ;
}
impl OrNull for Option<Date> {
    open spec fn or_null(self) -> int { match self { Some(d) => d.s(), None => MIN() } }
    #[verifier::external_body]
    fn or_default(self) -> (r: Date) { unimplemented!() }
}
// --- the day counter's count
pub uninterp spec fn count(dc: DayCounter, d1: int, d2: int) -> int;
impl DayCounter {
    #[verifier::external_body]
    pub fn day_count(&self, d1: &Date, d2: &Date) -> (r: SerialNumber)
        ensures r == count(*self, d1.s(), d2.s()),
    { unimplemented!() }
}
// --- interest rates, by the contracts proved in the unit `rates` (C18)
impl InterestRate {
    #[verifier::external_body]
    pub fn new(rate: Rate, daycounter: DayCounter, compounding: Compounding, frequency: Frequency) -> (r: InterestRate)
        ensures
            r.valid(), r.rate.v() == rate.v(), r.daycounter == daycounter, r.compounding == compounding,
            compounds(compounding) ==> r.frequency.v() == per_year(frequency) as real && frequency != Frequency::Once && frequency != Frequency::NoFrequency,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn discount_factor(&self, t: Time) -> (r: DiscountFactor)
        requires self.valid(), t.v() >= 0real ==> self.at(t.v()) != 0real,
        ensures t.v() >= 0real, r.v() == 1real / self.at(t.v()), r.v() * self.at(t.v()) == 1real,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn compound_factor_between_dates(&self, d1: &Date, d2: &Date, ref_start: &Date, ref_end: &Date) -> (r: Real)
        requires self.valid(), wf(*d1), wf(*d2),
        ensures d1.s() <= d2.s(), r.v() == self.at(fraction(self.daycounter, d1.s(), d2.s(), ref_start.s(), ref_end.s())),
    { unimplemented!() }
}

// --- cash flows
/// paid before the date, or on it when payments on the date are excluded
pub open spec fn paid(date: int, s: int, include: bool) -> bool { date < s || (date == s && !include) }
/// the time from the previous payment (or the valuation date) to this one
pub struct Dates { pub on: int, pub acc_start: int, pub acc_end: int, pub ref_start: int, pub ref_end: int, pub ex: int }
pub open spec fn step_time(c: Dates, dc: DayCounter, npv_date: int, last: int) -> real {
    let fake = c.ref_start == null() && c.ref_end == null();
    let a = if fake { if last == npv_date { plus(c.on, -1, TimeUnit::Years) } else { last } } else { c.ref_start };
    let b = if fake { c.on } else { c.ref_end };
    if c.acc_start != null() && last != c.acc_start {
        fraction(dc, c.acc_start, c.on, a, b) - fraction(dc, c.acc_start, last, a, b)
    } else {
        fraction(dc, last, c.on, a, b)
    }
}
/// from the start of accrual, up to its end, and nothing outside the coupon's life
pub open spec fn days_accrued(c: Dates, dc: DayCounter, d: int) -> int {
    if d <= c.acc_start || d > c.on { 0 }
    else { count(dc, c.acc_start, if d < c.acc_end { d } else { c.acc_end }) }
}
pub open spec fn period_accrued(c: Dates, dc: DayCounter, d: int) -> real {
    if d <= c.acc_start || d > c.on { 0real }
    else if c.ex != null() && c.ex <= d { -fraction(dc, d, if d < c.acc_end { c.acc_end } else { d }, c.ref_start, c.ref_end) }
    else { fraction(dc, c.acc_start, if d < c.acc_end { d } else { c.acc_end }, c.ref_start, c.ref_end) }
}
pub trait CashFlow {
    spec fn ok(&self) -> bool;
    /// the payment date
    spec fn on(&self) -> int;
    spec fn pays(&self) -> real;
    spec fn accrued(&self, date: int) -> real;
    spec fn ex(&self) -> int;
    spec fn acc_start(&self) -> int;
    spec fn acc_end(&self) -> int;
    spec fn ref_start(&self) -> int;
    spec fn ref_end(&self) -> int;

    fn accrual_start_date(&self) -> (r: Date)
        requires self.ok(),
        ensures r.s() == self.acc_start(), wf(r),
    ;
    fn accrual_end_date(&self) -> (r: Date)
        requires self.ok(),
        ensures r.s() == self.acc_end(), wf(r),
    ;
    fn accrued_amount(&self, date: Date) -> (r: Real)
        requires self.ok(), wf(date),
        ensures r.v() == self.accrued(date.s()),
    ;
    fn amount(&self) -> (r: Real)
        requires self.ok(),
        ensures r.v() == self.pays(),
    ;
    fn date(&self) -> (r: Date)
        requires self.ok(),
        ensures r.s() == self.on(), wf(r),
    ;
    fn ex_coupon_date(&self) -> (r: Date)
        requires self.ok(),
        ensures r.s() == self.ex(),
    ;
    fn reference_period_start(&self) -> (r: Date)
        requires self.ok(),
        ensures r.s() == self.ref_start(),
    ;
    fn reference_period_end(&self) -> (r: Date)
        requires self.ok(),
        ensures r.s() == self.ref_end(),
    ;
//@fn src/cashflows/cashflow.rs "pub trait CashFlow" get_stepwise_discount_time
//@ret r
        requires self.ok(), wf(npv_date), wf(last_date), movable(self.on(), -1, TimeUnit::Years),
        ensures r.v() == step_time(Dates { on: self.on(), acc_start: self.acc_start(), acc_end: self.acc_end(), ref_start: self.ref_start(), ref_end: self.ref_end(), ex: self.ex() }, *daycounter, npv_date.s(), last_date.s()),
//@end
//@fn src/cashflows/cashflow.rs "pub trait CashFlow" has_occurred
//@ret r
        requires self.ok(), wf(*ref_date),
        ensures r == paid(self.on(), ref_date.s(), include_ref_date),
//@end
//@fn src/cashflows/cashflow.rs "pub trait CashFlow" trading_ex_coupon
//@ret r
        requires self.ok(),
        ensures r == (self.ex() != null() && self.ex() <= ref_date.s()),
//@end
}

// --- plain payments
//@type src/cashflows/simplecashflow.rs struct SimpleCashFlow
impl SimpleCashFlow {
//@fn src/cashflows/simplecashflow.rs "impl SimpleCashFlow" new
//@ret r
    ensures r.amount == amount, r.date == date,
//@end
}
impl CashFlow for SimpleCashFlow {
    open spec fn ok(&self) -> bool { wf(self.date) }
    open spec fn on(&self) -> int { self.date.s() }
    open spec fn pays(&self) -> real { self.amount.v() }
    open spec fn accrued(&self, date: int) -> real { 0real }
    open spec fn ex(&self) -> int { null() }
    open spec fn acc_start(&self) -> int { null() }
    open spec fn acc_end(&self) -> int { null() }
    open spec fn ref_start(&self) -> int { null() }
    open spec fn ref_end(&self) -> int { null() }
//@fn src/cashflows/simplecashflow.rs "impl CashFlow for SimpleCashFlow" accrual_start_date
//@real
//@end
//@fn src/cashflows/simplecashflow.rs "impl CashFlow for SimpleCashFlow" accrual_end_date
//@real
//@end
//@fn src/cashflows/simplecashflow.rs "impl CashFlow for SimpleCashFlow" accrued_amount
//@real
//@end
//@fn src/cashflows/simplecashflow.rs "impl CashFlow for SimpleCashFlow" amount
//@real
//@end
//@fn src/cashflows/simplecashflow.rs "impl CashFlow for SimpleCashFlow" date
//@real
//@end
//@fn src/cashflows/simplecashflow.rs "impl CashFlow for SimpleCashFlow" reference_period_start
//@real
//@end
//@fn src/cashflows/simplecashflow.rs "impl CashFlow for SimpleCashFlow" reference_period_end
//@real
//@end
//@fn src/cashflows/cashflow.rs "pub trait CashFlow" ex_coupon_date
//@end
}
//@type src/cashflows/simplecashflow.rs struct Redemption
impl Redemption {
//@fn src/cashflows/simplecashflow.rs "impl Redemption" new
//@ret r
    ensures r.cashflow.amount == amount, r.cashflow.date == date,
//@end
}
impl CashFlow for Redemption {
    open spec fn ok(&self) -> bool { wf(self.cashflow.date) }
    open spec fn on(&self) -> int { self.cashflow.date.s() }
    open spec fn pays(&self) -> real { self.cashflow.amount.v() }
    open spec fn accrued(&self, date: int) -> real { 0real }
    open spec fn ex(&self) -> int { null() }
    open spec fn acc_start(&self) -> int { null() }
    open spec fn acc_end(&self) -> int { null() }
    open spec fn ref_start(&self) -> int { null() }
    open spec fn ref_end(&self) -> int { null() }
//@fn src/cashflows/simplecashflow.rs "impl CashFlow for Redemption" accrual_start_date
//@real
//@end
//@fn src/cashflows/simplecashflow.rs "impl CashFlow for Redemption" accrual_end_date
//@real
//@end
//@fn src/cashflows/simplecashflow.rs "impl CashFlow for Redemption" accrued_amount
//@real
//@end
//@fn src/cashflows/simplecashflow.rs "impl CashFlow for Redemption" amount
//@real
//@end
//@fn src/cashflows/simplecashflow.rs "impl CashFlow for Redemption" date
//@real
//@end
//@fn src/cashflows/simplecashflow.rs "impl CashFlow for Redemption" reference_period_start
//@real
//@end
//@fn src/cashflows/simplecashflow.rs "impl CashFlow for Redemption" reference_period_end
//@real
//@end
//@fn src/cashflows/cashflow.rs "pub trait CashFlow" ex_coupon_date
//@end
}
//@type src/cashflows/simplecashflow.rs struct AmortizingPayment
impl AmortizingPayment {
//@fn src/cashflows/simplecashflow.rs "impl AmortizingPayment" new
//@ret r
    ensures r.cashflow.amount == amount, r.cashflow.date == date,
//@end
}
impl CashFlow for AmortizingPayment {
    open spec fn ok(&self) -> bool { wf(self.cashflow.date) }
    open spec fn on(&self) -> int { self.cashflow.date.s() }
    open spec fn pays(&self) -> real { self.cashflow.amount.v() }
    open spec fn accrued(&self, date: int) -> real { 0real }
    open spec fn ex(&self) -> int { null() }
    open spec fn acc_start(&self) -> int { null() }
    open spec fn acc_end(&self) -> int { null() }
    open spec fn ref_start(&self) -> int { null() }
    open spec fn ref_end(&self) -> int { null() }
//@fn src/cashflows/simplecashflow.rs "impl CashFlow for AmortizingPayment" accrual_start_date
//@real
//@end
//@fn src/cashflows/simplecashflow.rs "impl CashFlow for AmortizingPayment" accrual_end_date
//@real
//@end
//@fn src/cashflows/simplecashflow.rs "impl CashFlow for AmortizingPayment" accrued_amount
//@real
//@end
//@fn src/cashflows/simplecashflow.rs "impl CashFlow for AmortizingPayment" amount
//@real
//@end
//@fn src/cashflows/simplecashflow.rs "impl CashFlow for AmortizingPayment" date
//@real
//@end
//@fn src/cashflows/simplecashflow.rs "impl CashFlow for AmortizingPayment" reference_period_start
//@real
//@end
//@fn src/cashflows/simplecashflow.rs "impl CashFlow for AmortizingPayment" reference_period_end
//@real
//@end
//@fn src/cashflows/cashflow.rs "pub trait CashFlow" ex_coupon_date
//@end
}
// --- a shared flow is the flow
impl<T: CashFlow + ?Sized> CashFlow for Rc<T> {
    open spec fn ok(&self) -> bool { (**self).ok() }
    open spec fn on(&self) -> int { (**self).on() }
    open spec fn pays(&self) -> real { (**self).pays() }
    open spec fn accrued(&self, date: int) -> real { (**self).accrued(date) }
    open spec fn ex(&self) -> int { (**self).ex() }
    open spec fn acc_start(&self) -> int { (**self).acc_start() }
    open spec fn acc_end(&self) -> int { (**self).acc_end() }
    open spec fn ref_start(&self) -> int { (**self).ref_start() }
    open spec fn ref_end(&self) -> int { (**self).ref_end() }
//@fn src/cashflows/cashflow.rs "impl<T> CashFlow for Rc<T> where T: CashFlow + ?Sized," accrual_start_date
//@end
//@fn src/cashflows/cashflow.rs "impl<T> CashFlow for Rc<T> where T: CashFlow + ?Sized," accrual_end_date
//@end
//@fn src/cashflows/cashflow.rs "impl<T> CashFlow for Rc<T> where T: CashFlow + ?Sized," accrued_amount
//@end
//@fn src/cashflows/cashflow.rs "impl<T> CashFlow for Rc<T> where T: CashFlow + ?Sized," amount
//@end
//@fn src/cashflows/cashflow.rs "impl<T> CashFlow for Rc<T> where T: CashFlow + ?Sized," date
//@end
//@fn src/cashflows/cashflow.rs "impl<T> CashFlow for Rc<T> where T: CashFlow + ?Sized," reference_period_start
//@end
//@fn src/cashflows/cashflow.rs "impl<T> CashFlow for Rc<T> where T: CashFlow + ?Sized," reference_period_end
//@end
//@fn src/cashflows/cashflow.rs "impl<T> CashFlow for Rc<T> where T: CashFlow + ?Sized," ex_coupon_date
//@end
}

// --- coupons
pub trait Coupon: CashFlow {
    spec fn counter(&self) -> DayCounter;
    spec fn notional(&self) -> real;
    spec fn pays_rate(&self) -> real;
    fn day_counter(&self) -> (r: &DayCounter)
        requires self.ok(),
        ensures *r == self.counter(),
    ;
    fn nominal(&self) -> (r: Real)
        requires self.ok(),
        ensures r.v() == self.notional(),
    ;
    fn rate(&self) -> (r: Rate)
        requires self.ok(),
        ensures r.v() == self.pays_rate(),
    ;
//@fn src/cashflows/coupon.rs "pub trait Coupon: CashFlow" accrual_days
//@ret r
        requires self.ok(),
        ensures r == count(self.counter(), self.acc_start(), self.acc_end()),
//@end
//@fn src/cashflows/coupon.rs "pub trait Coupon: CashFlow" accrual_period
//@ret r
        requires self.ok(),
        ensures r.v() == fraction(self.counter(), self.acc_start(), self.acc_end(), self.ref_start(), self.ref_end()),
//@end
//@fn src/cashflows/coupon.rs "pub trait Coupon: CashFlow" accrued_days
//@ret r
        requires self.ok(), wf(date),
        ensures r == days_accrued(Dates { on: self.on(), acc_start: self.acc_start(), acc_end: self.acc_end(), ref_start: self.ref_start(), ref_end: self.ref_end(), ex: self.ex() }, self.counter(), date.s()),
//@end
//@fn src/cashflows/coupon.rs "pub trait Coupon: CashFlow" accrued_period
//@real
//@ret r
        requires self.ok(), wf(date),
        ensures r.v() == period_accrued(Dates { on: self.on(), acc_start: self.acc_start(), acc_end: self.acc_end(), ref_start: self.ref_start(), ref_end: self.ref_end(), ex: self.ex() }, self.counter(), date.s()),
//@end
}
impl<T: Coupon + ?Sized> Coupon for Rc<T> {
    open spec fn counter(&self) -> DayCounter { (**self).counter() }
    open spec fn notional(&self) -> real { (**self).notional() }
    open spec fn pays_rate(&self) -> real { (**self).pays_rate() }
//@fn src/cashflows/coupon.rs "impl<T> Coupon for Rc<T> where T: Coupon + ?Sized," day_counter
//@end
//@fn src/cashflows/coupon.rs "impl<T> Coupon for Rc<T> where T: Coupon + ?Sized," nominal
//@end
//@fn src/cashflows/coupon.rs "impl<T> Coupon for Rc<T> where T: Coupon + ?Sized," rate
//@end
}

//@type src/cashflows/fixedratecoupon.rs struct FixedRateCoupon
impl FixedRateCoupon {
    /// interest over part of the period
    pub open spec fn interest(&self, from: int, to: int) -> real {
        self.nominal.v() * (self.rate.at(fraction(self.rate.daycounter, from, to, self.ref_period_start.s(), self.ref_period_end.s())) - 1real)
    }
//@fn src/cashflows/fixedratecoupon.rs "impl FixedRateCoupon" new
//@sub "ref_period_start.unwrap_or_default()" => "ref_period_start.or_default()"
//@sub "ref_period_end.unwrap_or_default()" => "ref_period_end.or_default()"
//@sub "ex_coupon_date.unwrap_or_default()" => "ex_coupon_date.or_default()"
//@ret r
    requires wf(payment_date), wf(accrual_start_date), wf(accrual_end_date),
    ensures
        r.ok(), r.payment_date == payment_date, r.nominal == nominal, r.accrual_start_date == accrual_start_date, r.accrual_end_date == accrual_end_date,
        r.ref_period_start.s() == ref_period_start.or_null(), r.ref_period_end.s() == ref_period_end.or_null(), r.ex_coupon_date.s() == ex_coupon_date.or_null(),
        r.rate.rate.v() == rate.v(), r.rate.daycounter == daycounter, r.rate.compounding == Compounding::Simple,
//@end
//@fn src/cashflows/fixedratecoupon.rs "impl FixedRateCoupon" with_interest_rate
//@sub "ref_period_start.unwrap_or_default()" => "ref_period_start.or_default()"
//@sub "ref_period_end.unwrap_or_default()" => "ref_period_end.or_default()"
//@sub "ex_coupon_date.unwrap_or_default()" => "ex_coupon_date.or_default()"
//@ret r
    requires wf(payment_date), wf(accrual_start_date), wf(accrual_end_date), interest_rate.valid(),
    ensures
        r.ok(), r.payment_date == payment_date, r.nominal == nominal, r.accrual_start_date == accrual_start_date, r.accrual_end_date == accrual_end_date,
        r.ref_period_start.s() == ref_period_start.or_null(), r.ref_period_end.s() == ref_period_end.or_null(), r.ex_coupon_date.s() == ex_coupon_date.or_null(),
        r.rate == interest_rate,
//@end
}
impl CashFlow for FixedRateCoupon {
    open spec fn ok(&self) -> bool { wf(self.payment_date) && wf(self.accrual_start_date) && wf(self.accrual_end_date) && self.rate.valid() }
    open spec fn on(&self) -> int { self.payment_date.s() }
    open spec fn pays(&self) -> real { self.interest(self.accrual_start_date.s(), self.accrual_end_date.s()) }
    /// nothing outside the coupon's life, what is still to accrue (negative) when it trades ex-coupon, and otherwise what has accrued
    open spec fn accrued(&self, date: int) -> real {
        if date <= self.accrual_start_date.s() || date > self.payment_date.s() { 0real }
        else if self.ex() != null() && self.ex() <= date { -self.interest(date, if date < self.accrual_end_date.s() { self.accrual_end_date.s() } else { date }) }
        else { self.interest(self.accrual_start_date.s(), if date < self.accrual_end_date.s() { date } else { self.accrual_end_date.s() }) }
    }
    open spec fn ex(&self) -> int { self.ex_coupon_date.s() }
    open spec fn acc_start(&self) -> int { self.accrual_start_date.s() }
    open spec fn acc_end(&self) -> int { self.accrual_end_date.s() }
    open spec fn ref_start(&self) -> int { self.ref_period_start.s() }
    open spec fn ref_end(&self) -> int { self.ref_period_end.s() }
//@fn src/cashflows/fixedratecoupon.rs "impl CashFlow for FixedRateCoupon" accrual_start_date
//@real
//@end
//@fn src/cashflows/fixedratecoupon.rs "impl CashFlow for FixedRateCoupon" accrual_end_date
//@real
//@end
//@fn src/cashflows/fixedratecoupon.rs "impl CashFlow for FixedRateCoupon" accrued_amount
//@real
//@top
        proof {
            let d = date.s();
            let x = self.rate.at(fraction(self.rate.daycounter, d, if d < self.accrual_end_date.s() { self.accrual_end_date.s() } else { d }, self.ref_period_start.s(), self.ref_period_end.s())) - 1real;
            let n = self.nominal.v();
            assert((-n) * x == -(n * x)) by (nonlinear_arith);
        }
//@end
//@fn src/cashflows/fixedratecoupon.rs "impl CashFlow for FixedRateCoupon" amount
//@real
//@end
//@fn src/cashflows/fixedratecoupon.rs "impl CashFlow for FixedRateCoupon" date
//@real
//@end
//@fn src/cashflows/fixedratecoupon.rs "impl CashFlow for FixedRateCoupon" reference_period_start
//@real
//@end
//@fn src/cashflows/fixedratecoupon.rs "impl CashFlow for FixedRateCoupon" reference_period_end
//@real
//@end
//@fn src/cashflows/fixedratecoupon.rs "impl CashFlow for FixedRateCoupon" ex_coupon_date
//@real
//@end
}
impl Coupon for FixedRateCoupon {
    open spec fn counter(&self) -> DayCounter { self.rate.daycounter }
    open spec fn notional(&self) -> real { self.nominal.v() }
    open spec fn pays_rate(&self) -> real { self.rate.rate.v() }
//@fn src/cashflows/fixedratecoupon.rs "impl Coupon for FixedRateCoupon" day_counter
//@end
//@fn src/cashflows/fixedratecoupon.rs "impl Coupon for FixedRateCoupon" nominal
//@end
//@fn src/cashflows/fixedratecoupon.rs "impl Coupon for FixedRateCoupon" rate
//@end
}

