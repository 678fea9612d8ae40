"""What decides each property: obligation modules (obl/), Verus units (vunits/) with the functions the property rests on."""

CAL = "Calendar::"
VCAL_NOTE = ("Verus proves the code of Calendar (cut out of the current source) against a contract of Date that C01-C04 prove of the real Date, "
             "for any market rule and any set of edits, with no bound on dates, lengths or holidays other than that business days lie within 250 days; "
             "the native search of the same contracts on the real code with all markets supplies failing inputs.")

CASHFLOW = [
    'pub trait CashFlow::get_stepwise_discount_time',
    'pub trait CashFlow::has_occurred',
    'pub trait CashFlow::trading_ex_coupon',
    'SimpleCashFlow::new',
    'CashFlow for SimpleCashFlow::accrual_start_date',
    'CashFlow for SimpleCashFlow::accrual_end_date',
    'CashFlow for SimpleCashFlow::accrued_amount',
    'CashFlow for SimpleCashFlow::amount',
    'CashFlow for SimpleCashFlow::date',
    'CashFlow for SimpleCashFlow::reference_period_start',
    'CashFlow for SimpleCashFlow::reference_period_end',
    'pub trait CashFlow::ex_coupon_date',
    'Redemption::new',
    'CashFlow for Redemption::accrual_start_date',
    'CashFlow for Redemption::accrual_end_date',
    'CashFlow for Redemption::accrued_amount',
    'CashFlow for Redemption::amount',
    'CashFlow for Redemption::date',
    'CashFlow for Redemption::reference_period_start',
    'CashFlow for Redemption::reference_period_end',
    'AmortizingPayment::new',
    'CashFlow for AmortizingPayment::accrual_start_date',
    'CashFlow for AmortizingPayment::accrual_end_date',
    'CashFlow for AmortizingPayment::accrued_amount',
    'CashFlow for AmortizingPayment::amount',
    'CashFlow for AmortizingPayment::date',
    'CashFlow for AmortizingPayment::reference_period_start',
    'CashFlow for AmortizingPayment::reference_period_end',
    'impl<T> CashFlow for Rc<T> where T: CashFlow + ?Sized,::accrual_start_date',
    'impl<T> CashFlow for Rc<T> where T: CashFlow + ?Sized,::accrual_end_date',
    'impl<T> CashFlow for Rc<T> where T: CashFlow + ?Sized,::accrued_amount',
    'impl<T> CashFlow for Rc<T> where T: CashFlow + ?Sized,::amount',
    'impl<T> CashFlow for Rc<T> where T: CashFlow + ?Sized,::date',
    'impl<T> CashFlow for Rc<T> where T: CashFlow + ?Sized,::reference_period_start',
    'impl<T> CashFlow for Rc<T> where T: CashFlow + ?Sized,::reference_period_end',
    'impl<T> CashFlow for Rc<T> where T: CashFlow + ?Sized,::ex_coupon_date',
    'pub trait Coupon: CashFlow::accrual_days',
    'pub trait Coupon: CashFlow::accrual_period',
    'pub trait Coupon: CashFlow::accrued_days',
    'pub trait Coupon: CashFlow::accrued_period',
    'impl<T> Coupon for Rc<T> where T: Coupon + ?Sized,::day_counter',
    'impl<T> Coupon for Rc<T> where T: Coupon + ?Sized,::nominal',
    'impl<T> Coupon for Rc<T> where T: Coupon + ?Sized,::rate',
    'next_cashflow',
    'accrued_amount',
    'accrued_days',
    'accrued_period',
    'maturity_date',
    'npv',
    'modified_duration',
    "impl<'a, T: CashFlow> IrrFinder<'a, T>::new",
    "impl<'a, T: CashFlow> IrrFinder<'a, T>::at",
    "impl<'a, T: CashFlow> IrrFinder<'a, T>::derivative",
    "bond_yield",
    "impl<'a, T: CashFlow> IrrFinder<'a, T>::check_sign",
]
BOND = [
    "close", "lower_bound", "Schedule::end_date", "bond_yield", "accrued_amount", "accrued_days", "accrued_period", "dirty_price", "maturity_date",
    *("pub trait Bond::" + x for x in ["notional", "is_tradeable", "settlement_date", "accrued_amount", "dirty_price_from_yield", "clean_price_from_yield",
                                       "bond_yield_with_options", "bond_yield", "dirty_price"]),
    *("ZeroCouponBond::" + x for x in ["new", "new_with_options", "price_from_discount_yield", "period"]),
    *("FixedRateBond::" + x for x in ["new", "new_with_options", "calculate_notionals_from_cashflows", "calculate_redemptions"]),
    *(f"Bond for {b}::{x}" for b in ["ZeroCouponBond", "FixedRateBond"]
      for x in ["calendar", "cashflows", "issue_date", "maturity_date", "notional_schedule", "notionals", "settlement_days"]),
]
COUPON = [
    'pub trait Coupon: CashFlow::accrual_days',
    'pub trait Coupon: CashFlow::accrual_period',
    'pub trait Coupon: CashFlow::accrued_days',
    'pub trait Coupon: CashFlow::accrued_period',
    'FixedRateCoupon::new',
    'FixedRateCoupon::with_interest_rate',
    'CashFlow for FixedRateCoupon::accrual_start_date',
    'CashFlow for FixedRateCoupon::accrual_end_date',
    'CashFlow for FixedRateCoupon::accrued_amount',
    'CashFlow for FixedRateCoupon::amount',
    'CashFlow for FixedRateCoupon::date',
    'CashFlow for FixedRateCoupon::reference_period_start',
    'CashFlow for FixedRateCoupon::reference_period_end',
    'CashFlow for FixedRateCoupon::ex_coupon_date',
    'Coupon for FixedRateCoupon::day_counter',
    'Coupon for FixedRateCoupon::nominal',
    'Coupon for FixedRateCoupon::rate',
]

PROPS = {
    "C01": dict(functions=['Date::new (real crate, Kani)', 'Date::from_serial (real crate, Kani)', 'Date::serial_number (real crate, Kani)', 'Date::day_of_month (real crate, Kani)', 'Date::month (real crate, Kani)', 'Date::year (real crate, Kani)', 'Date::day_of_year (real crate, Kani)', 'Date::min_date (real crate, Kani)', 'Date::max_date (real crate, Kani)', 'Date::todays_date (real crate, Kani)', 'Date::default (real crate, Kani)'], modules=["c01"], note="Complete over the whole input domain (loop-free symbolic proof by Kani of the contracts of the date constructors and accessors); chrono is assumed to meet its contract, which is compared natively over the whole range on every run."),
    "C02": dict(functions=['Add<i32> for Date (real crate, Kani)', 'Add<i32> for &Date (real crate, Kani)', 'Sub<i32> for Date (real crate, Kani)', 'Sub<i32> for &Date (real crate, Kani)', 'AddAssign<i32> for Date (real crate, Kani)', 'SubAssign<i32> for Date (real crate, Kani)', 'Add<Period> for Date (days) (real crate, Kani)', 'Sub<Period> for Date (days) (real crate, Kani)', 'Sub<Date> for Date (real crate, Kani)', 'Date::days_between (real crate, Kani)', 'PartialOrd for Date (real crate, Kani)', 'Ord for Date (real crate, Kani)', 'PartialEq for Date (real crate, Kani)', 'Hash for Date (real crate, Kani)'], modules=["c02"], note="Complete over all dates, pairs and offsets; chrono by contract, compared natively on every run."),
    "C03": dict(functions=['Add<Period> for Date (real crate, Kani)', 'Sub<Period> for Date (real crate, Kani)', 'AddAssign<Period> for Date (real crate, Kani)', 'SubAssign<Period> for Date (real crate, Kani)'], modules=["c03"], verus=["date"], note="Years and weeks complete; months proved for |n| <= 60 (bounded label in evidence beyond) and, unbounded, in Verus for the extracted advance function; chrono by contract."),
    "C04": dict(functions=['Date::weekday (real crate, Kani)', 'Date::is_leap (real crate, Kani)', 'Date::end_of_month (real crate, Kani)', 'Date::is_end_of_month (real crate, Kani)', 'Date::nth_weekday (real crate, Kani)', 'Weekday numbers (real crate, Kani)', 'Month numbers (real crate, Kani)'], modules=["c04"], note="Complete over all dates, weekdays and ordinals; chrono by contract."),
    "C05": dict(modules=["c05"], uses=["cal"], verus=[("calendar", [CAL + "new", CAL + "is_business_day", CAL + "is_holiday", CAL + "adjust", CAL + "adjust_with_following"])],
                note=VCAL_NOTE),
    "C06": dict(modules=["c06"], uses=["cal"], verus=[("calendar", [CAL + "advance_by_days", CAL + "advance_by_days_with_following", CAL + "advance_by_period",
                CAL + "advance_by_period_with_following", CAL + "is_end_of_month", CAL + "end_of_month", "Period::new"])], note=VCAL_NOTE),
    "C07": dict(modules=["c07"], uses=["cal"], verus=[("calendar", [CAL + "business_days_between", CAL + "holiday_list", CAL + "business_day_list", CAL + "is_end_of_month",
                CAL + "end_of_month", CAL + "is_weekend"])], note=VCAL_NOTE),
    "C08": dict(modules=["c08"], uses=["cal"], verus=[("calendar", [CAL + "new", CAL + "reset_added_and_removed_holidays", CAL + "is_business_day", CAL + "is_holiday",
                CAL + "add_holiday", CAL + "remove_holiday"])], note=VCAL_NOTE),
    "C09": dict(functions=['is_business_day of NilHoliday, WeekendsOnly, Target, UnitedKingdom (3 markets), UnitedStates (6), Italy (2), Switzerland, Brazil (2), Japan (real crate, Kani)', 'Weekend::is_weekend (real crate, Kani)'], modules=["c09"], uses=["cal", "rules"], kani_timeout=200, note="Kani proves, for each of the 18 markets and every civil date of the range, that the real rule closes exactly on the days of an independently written rule (nominal days, observances, computus); every day is also enumerated natively."),
    "C10": dict(functions=['western and orthodox easter_monday (calendar and holiday modules) (real crate, Kani)'], modules=["c10"], uses=["rules"], note="Kani proves the four tables against the Gregorian and Julian computus for every year of the range, and rejection of every other year."),
    "C11": dict(modules=["c11"], verus=["imm"], note="Verus proves next_date (cut out of the current source) for every date, both cycles and any evaluation date, against the Date contracts of C01-C04; Kani proves the date test; codes are strings, whose functions are enumerated natively over every two-byte string, every letter and digit and every reference day (bounded evidence, not counted as proved)."),
    "C12": dict(modules=["c12"], verus=[("thirty", ["is_last_of_february"] + [c + "::" + f for c in ("US", "ISMA", "EU", "IT", "ISDA", "NASD", "Thirty365", "Thirty360")
                for f in ("day_count", "year_fraction")])],
                note="Kani proves every day count of the real crate against its published rule for every pair of dates; Verus proves day counts and year fractions of the same code cut out of the current source, with floats read as mathematical reals; the native search runs the real floats."),
    "C13": dict(modules=["c13"], verus=["actual", "isma", ("thirty", ["Simple::new", "Simple::day_count", "Simple::year_fraction"])],
                note="Verus proves the counts and year fractions of Actual/360, Actual/366, 1/1, Simple, Actual/Actual ISDA, AFB and ISMA, the latter with and without a schedule (code cut out of the current source, floats read as mathematical reals); Kani proves the day counts on the real crate; the native search runs the real floats."),
    "C14": dict(modules=["c14"], verus=["period"], note="Verus proves the period operators, normalisation, frequency and unit conversions for all lengths that do not overflow; Kani proves the loop-free parts on the real crate; divisions over symbolic lengths are unbounded in Verus only."),
    "C15": dict(modules=["c15"], uses=["c14"], verus=["period_order"], note="Verus proves equality and comparison for all pairs with representable day limits; Kani proves hashing on the real crate."),
    "C16": dict(modules=["c16"], uses=["cal", "sched"], search_secs=12, verus=["generate"], verus_timeout=300,
                note="Verus proves, on the code cut out of the current source, that Schedule::new and every setter and build() of the builder return exactly the schedule of the specification -- the walk by whole tenors or twentieths from the end the rule names, stubs, end of month, the shift of each date by its own convention, merged dates, regularity flags -- for any calendar, tenor, rule and dates on which the walk stays inside the range, and that both loops end; natively the same contract is searched on the real code against an independently written generator, over all rules, tenors, conventions, stubs and edited calendars."),
    "C17": dict(modules=["c17"], uses=["cal", "sched"], verus=[("schedule", ["lower_bound", "Schedule::lower_bound", "Schedule::next_date", "Schedule::previous_date", "Schedule::start_date",
                "Schedule::end_date", "Schedule::size", "Schedule::dates", "Schedule::empty", "Schedule::has_is_regular", "Schedule::is_regular", "Schedule::after", "Schedule::until"])],
                note="Verus proves every look-up and both truncations (cut out of the current source) for any schedule in order with a flag per period, against the Date contracts of C01-C04; natively the same contracts are searched on generated schedules."),
    "C18": dict(modules=["c18"], verus=["rates"],
                note="Verus proves every method of InterestRate (cut out of the current source) for any day counter, rate, time, rule and frequency, with floats read as mathematical reals and the usual laws of powers, exponentials and logarithms assumed; natively the same contracts are searched with machine floats and all day counters."),
    "C19": dict(modules=["c19"], uses=["cal"], verus=[("cashflow", CASHFLOW)],
                note="Verus proves occurrence, ex-coupon, the next payment, accrued sums, maturity, present value, modified duration and the yield's objective for any leg of any flows, rate and day counter (code cut out of the current source, floats read as mathematical reals), with the lemma that each amount is discounted from its own date where the day counter adds up; and that bond_yield's answer is, by the contract of any solver (C23), a zero or a sign change, within the solver's accuracy, of the price above the present value as a function of the yield, for legs on which the solver's preconditions hold (for the Newton solvers: the duration is not zero where the value is the price); a division by zero is read as a computation that does not return; that the machine's answer reprices the leg is searched natively; Kani proves occurrence on the real crate."),
    "C20": dict(modules=["c20"], uses=["cal", "sched"], search_secs=12, verus=[("cashflow", COUPON), "leg"], note="Verus proves, on the code cut out of the current source with floats read as mathematical reals, the coupon (amount, accrual, periods) for any rate, day counter and dates, every setter of the leg builder, and that build() makes exactly one coupon per period, each with the accrual dates, payment date, notional, rate, day counter, reference period and ex-coupon date of its position, for schedules, lists and settings of any size; natively the same contracts are searched on the real code with machine floats."),
    "C21": dict(modules=["c21"], uses=["cal", "sched"], search_secs=12, verus=[("bond", BOND)],
                note="Verus proves, on the code cut out of the current source with floats read as mathematical reals and the contracts of C07, C18, C19 and C20, the construction of both bonds (the leg's coupons, the redemption of what is outstanding with the last of them, their order, the notionals and when they fall), that the notional is whole before the redemption and nothing from it on, tradeability, settlement, the accrued amount per hundred of notional, the price at a yield, the maturity date and the bank discount price, for all bonds and dates; that a bond's yield is a yield of its remaining leg at the dirty price in money (a zero or sign change of price less value within the accuracy, by the contracts of C19 and C23); natively the same contracts are searched on the real code with machine floats."),
    "C22": dict(modules=["c22"], verus=["interpolation"],
                note="Verus proves the searches for any ordered type, all of linear interpolation, and that Lagrange interpolation returns the nodes and evaluates the barycentric formula with its weights, for every grid, on the code cut out of the current source with floats read as mathematical reals; that the barycentric formula is the interpolating polynomial is classical and assumed, and searched natively."),
    "C23": dict(modules=["c23"], verus=["solvers"],
                note="Verus proves, for any function, bracket, guess and accuracy, on the code cut out of the current source with floats read as mathematical reals, that every answer lies in the bracket and bounds and meets the solver's accuracy, that each loop ends, and that calls with bad arguments do not return; natively the same contracts are searched with machine floats."),
    "C24": dict(modules=["c24"], verus=["rounding"],
                note="Verus proves the rounding rules, their adjacency, idempotence and oddness, and the closeness tests with their symmetry, on the code cut out of the current source with floats read as mathematical reals; rounding effects of the machine are searched natively on the real code."),
    "C25": dict(modules=["c25"], verus=["cds"],
                note="Verus proves cds_maturity and previous_twentieth (cut out of the current source) for every trade date, tenor and rule, against the contracts of dates and periods (C01-C04, C15); natively the same contracts are searched on the real code."),
    "C26": dict(modules=["c26"], verus=["array"],
                note="Verus proves every operation of Array (cut out of the current source, iterator chains written as counted loops, floats read as mathematical reals) for arrays of any size; natively the same contracts are searched with machine floats."),
    "C27": dict(modules=["c27"], verus=["curve"],
                note="Verus proves the default methods of the term structures, and quotes, stocks and instruments (cut out of the current source, floats read as mathematical reals), for every curve and instrument; natively the same contracts are searched with machine floats."),
}
NOT_APPLICABLE = {}
