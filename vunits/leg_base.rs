//@type src/datetime/businessdayconvention.rs enum BusinessDayConvention derive(Clone, Copy, Debug, PartialEq, Eq, Structural)
//@type src/datetime/dategenerationrule.rs enum DateGenerationRule derive(Clone, Copy, Debug, PartialEq, Eq, Structural)
//@type src/context/pricing_context.rs struct PricingContext derive(Clone, Copy, Debug)
use BusinessDayConvention::Following;
use TimeUnit::Days;

// --- calendars, by the contracts proved in the unit `calendar` (C07)
#[verifier::external_body]
pub struct Calendar { _p: u8 }
/// r is the date advance() defines
pub uninterp spec fn advanced(c: Calendar, s: int, n: int, u: TimeUnit, conv: BusinessDayConvention, eom: bool, r: int) -> bool;
pub uninterp spec fn advanceable(c: Calendar, s: int, n: int, u: TimeUnit, conv: BusinessDayConvention, eom: bool) -> bool;
impl Calendar {
    #[verifier::external_body]
    pub fn advance_by_days(&self, date: Date, n: Integer, unit: TimeUnit, convention: BusinessDayConvention, end_of_month: bool) -> (r: Date)
        requires wf(date), advanceable(*self, date.s(), n as int, unit, convention, end_of_month), n > i32::MIN,
        ensures wf(r), advanced(*self, date.s(), n as int, unit, convention, end_of_month, r.s()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn advance_by_period(&self, date: Date, period: Period, convention: BusinessDayConvention, end_of_month: bool) -> (r: Date)
        requires wf(date), advanceable(*self, date.s(), period.length as int, period.unit, convention, end_of_month), period.length > i32::MIN,
        ensures wf(r), advanced(*self, date.s(), period.length as int, period.unit, convention, end_of_month, r.s()),
    { unimplemented!() }
}
impl NegSpecImpl for Period {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { self.length > i32::MIN }
    open spec fn neg_spec(self) -> Period { Period { length: (-self.length) as i32, unit: self.unit } }
}
impl Neg for Period {
    type Output = Self;
    #[verifier::external_body]
    fn neg(self) -> Self::Output { unimplemented!() }
}

// --- schedules
//@type src/datetime/schedule.rs struct Schedule
impl Schedule {
    /// what C16 and C17 say of a schedule: a flag per period, dates in the range
    pub open spec fn ok(self) -> bool {
        self.dates.len() >= 2 && self.is_regular.len() == self.dates.len() - 1 && self.tenor.length > i32::MIN
            && forall|i: int| 0 <= i < self.dates.len() ==> wf(#[trigger] self.dates[i])
    }
    pub open spec fn at(self, i: int) -> int { self.dates[i].s() }
//@fn src/datetime/schedule.rs "impl Schedule" calendar
//@ret r
    ensures *r == self.calendar,
//@end
//@fn src/datetime/schedule.rs "impl Schedule" tenor
//@ret r
    ensures r == self.tenor,
//@end
//@fn src/datetime/schedule.rs "impl Schedule" business_day_convention
//@ret r
    ensures r == self.convention,
//@end
//@fn src/datetime/schedule.rs "impl Schedule" end_of_month
//@ret r
    ensures r == self.end_of_month,
//@end
//@fn src/datetime/schedule.rs "impl Schedule" size
//@ret r
    ensures r == self.dates.len(),
//@end
//@fn src/datetime/schedule.rs "impl Schedule" has_is_regular
//@ret r
    ensures r == (self.is_regular.len() > 0),
//@end
//@fn src/datetime/schedule.rs "impl Schedule" is_regular
//@partial
//@ret r
    ensures 1 <= i <= self.is_regular.len(), r == self.is_regular[i - 1],
//@end
}

// --- rates, by the contracts proved in the unit `rates` (C18)
impl InterestRate {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: InterestRate)
        ensures r == *self,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn frequency(&self) -> (r: Frequency)
        requires self.valid(),
        ensures if compounds(self.compounding) { per_year(r) as real == self.frequency.v() } else { r == Frequency::NoFrequency },
    { unimplemented!() }
}
/// the rate q with the day counter dc
pub open spec fn requoted(r: InterestRate, q: InterestRate, dc: DayCounter) -> bool {
    r.valid() && r.rate.v() == q.rate.v() && r.compounding == q.compounding && r.daycounter == dc && (compounds(q.compounding) ==> r.frequency.v() == q.frequency.v())
}
proof fn lemma_requoted(r: InterestRate, q: InterestRate, dc: DayCounter, t: real)
    requires requoted(r, q, dc),
    ensures r.at(t) == q.at(t),
{}

// --- legs
//@type src/cashflows/fixedrateleg.rs struct FixedRateLeg
/// the entry of a position, the last one persisting
pub open spec fn pick<T>(x: Seq<T>, i: int) -> T { if i < x.len() { x[i] } else { x[x.len() - 1] } }
impl FixedRateLeg {
    pub open spec fn n(self) -> int { self.schedule.dates.len() as int }
    pub open spec fn calendar(self) -> Calendar { match self.payment_calendar { Some(c) => c, None => self.schedule.calendar } }
    pub open spec fn conv(self) -> BusinessDayConvention { match self.payment_adjustment { Some(c) => c, None => Following } }
    pub open spec fn lag(self) -> int { match self.payment_lag { Some(n) => n as int, None => 0 } }
    /// payment and ex-coupon dates, and the notional tenors of irregular end periods, are dates
    pub open spec fn dated(self) -> bool {
        let s = self.schedule;
        &&& self.lag() > i32::MIN
        &&& forall|i: int| 1 <= i < self.n() ==> advanceable(self.calendar(), (#[trigger] s.dates[i]).s(), self.lag(), Days, self.conv(), false)
        &&& advanceable(s.calendar, s.at(1), -s.tenor.length, s.tenor.unit, s.convention, s.end_of_month)
        &&& advanceable(s.calendar, s.at(self.n() - 2), s.tenor.length as int, s.tenor.unit, s.convention, s.end_of_month)
        &&& match self.ex_coupon_period {
            Some(p) => p.length > i32::MIN && forall|i: int, d: int| 1 <= i < self.n() && #[trigger] advanced(self.calendar(), (#[trigger] s.dates[i]).s(), self.lag(), Days, self.conv(), false, d)
                ==> advanceable(self.ex_coupon_calendar->0, d, -p.length, p.unit, self.ex_coupon_adjustment->0, self.ex_coupon_end_of_month->0),
            None => true,
        }
    }
    pub open spec fn ok(self) -> bool {
        self.schedule.ok() && self.dated() && forall|i: int| 0 <= i < self.coupon_rates.len() ==> (#[trigger] self.coupon_rates[i]).valid()
    }
    /// the day counter of period i
    pub open spec fn counter(self, i: int) -> DayCounter {
        if i == 1 && self.first_period_dc is Some { self.first_period_dc->0 }
        else if i > 1 && i == self.n() - 1 && self.last_period_dc is Some { self.last_period_dc->0 }
        else { pick(self.coupon_rates@, i - 1).daycounter }
    }
    pub open spec fn ex(self, payment: int, ex: int) -> bool {
        match self.ex_coupon_period {
            Some(p) => self.ex_coupon_calendar is Some && self.ex_coupon_adjustment is Some && self.ex_coupon_end_of_month is Some
                && advanced(self.ex_coupon_calendar->0, payment, -p.length, p.unit, self.ex_coupon_adjustment->0, self.ex_coupon_end_of_month->0, ex),
            None => ex == null(),
        }
    }
    /// the period itself, or one tenor for an irregular end period
    pub open spec fn reference(self, i: int, a: int, b: int) -> bool {
        let s = self.schedule;
        if i == 1 && !s.is_regular[0] { b == s.at(1) && advanced(s.calendar, s.at(1), -s.tenor.length, s.tenor.unit, s.convention, s.end_of_month, a) }
        else if i > 1 && i == self.n() - 1 && !s.is_regular[i - 1] { a == s.at(i - 1) && advanced(s.calendar, s.at(i - 1), s.tenor.length as int, s.tenor.unit, s.convention, s.end_of_month, b) }
        else { a == s.at(i - 1) && b == s.at(i) }
    }
    /// the coupon of period i
    pub open spec fn pays(self, i: int, c: FixedRateCoupon) -> bool {
        &&& c.ok()
        &&& c.accrual_start_date.s() == self.schedule.at(i - 1) && c.accrual_end_date.s() == self.schedule.at(i)
        &&& advanced(self.calendar(), self.schedule.at(i), self.lag(), Days, self.conv(), false, c.payment_date.s())
        &&& c.nominal.v() == pick(self.notionals@, i - 1).v()
        &&& requoted(c.rate, pick(self.coupon_rates@, i - 1), self.counter(i))
        &&& self.reference(i, c.ref_period_start.s(), c.ref_period_end.s())
        &&& self.ex(c.payment_date.s(), c.ex_coupon_date.s())
    }
//@fn src/cashflows/fixedrateleg.rs "impl FixedRateLeg" new
//@ret r
    ensures
        r.schedule == schedule, r.notionals@ == notionals@, r.coupon_rates@ == coupon_rates@, r.first_period_dc is None, r.last_period_dc is None,
        r.payment_calendar is None, r.payment_adjustment is None, r.payment_lag is None, r.ex_coupon_period is None,
//@end
//@fn src/cashflows/fixedrateleg.rs "impl FixedRateLeg" with_notional
//@owned
//@ret r
    ensures r == (FixedRateLeg { notionals: r.notionals, ..self }), r.notionals@ =~= seq![notional],
//@end
//@fn src/cashflows/fixedrateleg.rs "impl FixedRateLeg" with_notionals
//@owned
//@ret r
    ensures r == (FixedRateLeg { notionals: notionals, ..self }),
//@end
//@fn src/cashflows/fixedrateleg.rs "impl FixedRateLeg" with_coupon_rate
//@owned
//@ret r
    ensures
        r == (FixedRateLeg { coupon_rates: r.coupon_rates, ..self }), r.coupon_rates.len() == 1,
        r.coupon_rates[0].valid(), r.coupon_rates[0].rate.v() == rate.v(), r.coupon_rates[0].daycounter == daycounter, r.coupon_rates[0].compounding == compounding,
        compounds(compounding) ==> r.coupon_rates[0].frequency.v() == per_year(frequency) as real,
//@end
//@fn src/cashflows/fixedrateleg.rs "impl FixedRateLeg" with_coupon_rates
//@owned
//@walked
//@sub "let rate = &rates[" => "let rate = rates["
//@sub "compounding.clone()" => "compounding"
//@ret r
    ensures
        r == (FixedRateLeg { coupon_rates: r.coupon_rates, ..self }), r.coupon_rates.len() == rates.len(),
        forall|i: int| #![trigger r.coupon_rates[i]] 0 <= i < rates.len() ==> r.coupon_rates[i].valid() && r.coupon_rates[i].rate.v() == rates[i].v() && r.coupon_rates[i].daycounter == daycounter
            && r.coupon_rates[i].compounding == compounding && (compounds(compounding) ==> r.coupon_rates[i].frequency.v() == per_year(frequency) as real),
//@loop 0 "while rate_i < rates.len()"
            invariant
                rate_i <= rates.len(),
                this == (FixedRateLeg { coupon_rates: this.coupon_rates, ..self }), this.coupon_rates.len() == rate_i,
                forall|i: int| #![trigger this.coupon_rates[i]] 0 <= i < rate_i ==> this.coupon_rates[i].valid() && this.coupon_rates[i].rate.v() == rates[i].v() && this.coupon_rates[i].daycounter == daycounter
                    && this.coupon_rates[i].compounding == compounding && (compounds(compounding) ==> this.coupon_rates[i].frequency.v() == per_year(frequency) as real),
            decreases rates.len() - rate_i,
//@end
//@fn src/cashflows/fixedrateleg.rs "impl FixedRateLeg" with_interest_rate
//@owned
//@ret r
    ensures r == (FixedRateLeg { coupon_rates: r.coupon_rates, ..self }), r.coupon_rates@ =~= seq![interest_rate],
//@end
//@fn src/cashflows/fixedrateleg.rs "impl FixedRateLeg" with_interest_rates
//@owned
//@ret r
    ensures r == (FixedRateLeg { coupon_rates: interest_rates, ..self }),
//@end
//@fn src/cashflows/fixedrateleg.rs "impl FixedRateLeg" with_first_period_daycounter
//@owned
//@ret r
    ensures r == (FixedRateLeg { first_period_dc: Some(daycounter), ..self }),
//@end
//@fn src/cashflows/fixedrateleg.rs "impl FixedRateLeg" with_last_period_daycounter
//@owned
//@ret r
    ensures r == (FixedRateLeg { last_period_dc: Some(daycounter), ..self }),
//@end
//@fn src/cashflows/fixedrateleg.rs "impl FixedRateLeg" with_payment_calendar
//@owned
//@ret r
    ensures r == (FixedRateLeg { payment_calendar: Some(calendar), ..self }),
//@end
//@fn src/cashflows/fixedrateleg.rs "impl FixedRateLeg" with_payment_adjustment
//@owned
//@ret r
    ensures r == (FixedRateLeg { payment_adjustment: Some(convention), ..self }),
//@end
//@fn src/cashflows/fixedrateleg.rs "impl FixedRateLeg" with_payment_lag
//@owned
//@ret r
    ensures r == (FixedRateLeg { payment_lag: Some(lag), ..self }),
//@end
//@fn src/cashflows/fixedrateleg.rs "impl FixedRateLeg" with_ex_coupon_period
//@owned
//@ret r
    ensures r == (FixedRateLeg { ex_coupon_period: Some(period), ex_coupon_calendar: Some(calendar), ex_coupon_adjustment: Some(convention), ex_coupon_end_of_month: Some(end_of_month), ..self }),
//@end
//@fn src/cashflows/fixedrateleg.rs "impl FixedRateLeg" build
//@matched
//@partial
//@sub "self.schedule[" => "self.schedule.dates["
//@ret r
    requires self.ok(),
    ensures
        // a leg without rates or notionals does not return
        self.coupon_rates.len() > 0, self.notionals.len() > 0,
        r.len() == self.n() - 1,
        forall|i: int| 1 <= i < self.n() ==> #[trigger] self.pays(i, r[i - 1]),
//@loop 0 "for i in 2..self.schedule.size() - 1"
            invariant
                self.ok(), self.coupon_rates.len() > 0, self.notionals.len() > 0,
                *payment_calendar == self.calendar(), payment_lag == self.lag(), payment_adjustment == self.conv(),
                self.n() >= 3 ==> leg.len() == i - 1,
                self.n() < 3 ==> leg.len() == 1,
                self.n() >= 3 ==> start == self.schedule.dates[i - 1],
                forall|k: int| 1 <= k <= leg.len() ==> #[trigger] self.pays(k, leg[k - 1]),
//@end
//@fn src/cashflows/fixedrateleg.rs "impl FixedRateLeg" make_first_period_coupon
//@sub "self.schedule[" => "self.schedule.dates["
//@sub "interest_rate.compounding.clone()" => "interest_rate.compounding"
//@ret r
    requires
        self.ok(), self.coupon_rates.len() > 0, self.notionals.len() > 0, *payment_calendar == self.calendar(), payment_lag == self.lag(), payment_adjustment == self.conv(),
    ensures self.pays(1, r),
//@end
//@fn src/cashflows/fixedrateleg.rs "impl FixedRateLeg" make_regular_period_coupon
//@sub "self.schedule[" => "self.schedule.dates["
//@ret r
    requires
        self.ok(), self.coupon_rates.len() > 0, self.notionals.len() > 0, *payment_calendar == self.calendar(), payment_lag == self.lag(), payment_adjustment == self.conv(),
        1 < i < self.n() - 1, start == self.schedule.dates[i - 1],
    ensures self.pays(i as int, r),
//@end
//@fn src/cashflows/fixedrateleg.rs "impl FixedRateLeg" make_last_period_coupon
//@sub "self.schedule[" => "self.schedule.dates["
//@sub "interest_rate.compounding.clone()" => "interest_rate.compounding"
//@ret r
    requires
        self.ok(), self.coupon_rates.len() > 0, self.notionals.len() > 0, *payment_calendar == self.calendar(), payment_lag == self.lag(), payment_adjustment == self.conv(),
        self.n() > 2, start == self.schedule.dates[self.n() - 2],
    ensures self.pays(self.n() - 1, r),
//@end
//@fn src/cashflows/fixedrateleg.rs "impl FixedRateLeg" make_ex_coupon_date
//@matched
//@partial
//@ret r
    requires
        self.ok(), wf(payment_date),
        exists|i: int| 1 <= i < self.n() && advanced(self.calendar(), (#[trigger] self.schedule.dates[i]).s(), self.lag(), Days, self.conv(), false, payment_date.s()),
    ensures self.ex(payment_date.s(), r.s()),
//@end
}
