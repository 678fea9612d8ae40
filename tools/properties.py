#!/usr/bin/env python3
"""Source of /verif/properties.jsonl: python3 tools/properties.py"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe:
        a["observe_at"] = observe
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a))

prop("C01", "Serial numbers and calendar dates are in one-to-one correspondence",
     "Every serial number from 1900-01-01 to 2199-12-31 and every civil date of that range stand for one another: a date built from either reports exactly the serial number, day, month, year and day of the year that the proleptic Gregorian calendar gives, and the serial number counts days without gaps. Anything outside the range, or not a real day of the calendar, is rejected instead of yielding a date.",
     ["inputs"], "all 109 573 serial numbers and all (day, month, year) triples, valid or not",
     "Tests convert a handful of dates; a wrong leap rule, month offset or bound at one century or month end is invisible to them.",
     ["src/datetime/date.rs", "src/datetime/months.rs"],
     [("Date::new / Date::from_serial", "src/datetime/date.rs"), ("Month from integer", "src/datetime/months.rs")])

prop("C02", "Day arithmetic, ordering, equality and hashing of dates follow the serial number",
     "Adding or subtracting days in any spelling moves the date by exactly that many days, the difference of two dates is the number of days between them, and dates compare, are equal and hash exactly as their serial numbers do. A result outside the supported range is rejected, never wrapped or returned as a malformed date.",
     ["inputs"], "all dates, all pairs of dates, all day offsets",
     "Tests exercise a few offsets of one spelling of each operator; agreement of all spellings for every pair is a for-all statement.",
     ["src/datetime/date.rs"],
     [("Add/Sub/AddAssign/SubAssign of days, date difference, PartialEq/PartialOrd/Ord/Hash", "src/datetime/date.rs")])

prop("C03", "Month, year and week arithmetic clamps to the end of the month",
     "A date moved by n months (or n years) lands in the calendar month n months (or 12n months) away, on the same day of the month or on the last day of a shorter target month; n weeks are 7n days. All spellings of the operation agree, intraday units are rejected, and so is any result outside 1900-2199.",
     ["inputs"], "all dates and all period lengths, positive and negative",
     "Tests add a few whole-month periods; the interaction of year wrap, negative lengths and leap clamping over the full range is not sampled.",
     ["src/datetime/date.rs", "src/datetime/period.rs"],
     [("Date::advance and the operators between dates and periods", "src/datetime/date.rs")])

prop("C04", "Weekdays, nth weekdays, month ends and leap years are those of the calendar",
     "For every date the reported weekday follows the seven-day cycle from Monday 1900-01-01, the end-of-month date and test agree with the Gregorian month lengths, and leap years are the Gregorian ones. Asking for the nth given weekday of a month yields exactly that day and rejects requests with no answer.",
     ["inputs"], "all dates, weekdays, months, years and ordinal numbers",
     "Tests check one or two weekdays; a slip in the table arithmetic for one weekday/first-of-month combination needs all 7x7 combinations in all years.",
     ["src/datetime/date.rs", "src/datetime/weekday.rs"],
     [("weekday, next_weekday, nth_weekday, end_of_month, is_end_of_month, is_leap_year", "src/datetime/date.rs")])

prop("C05", "Business-day adjustment follows the stated convention on every calendar",
     "Adjusting a date under Following, Modified Following, Preceding, Modified Preceding, Half-Month Modified Following, Nearest or Unadjusted yields the date that convention defines: a business day (unless unadjusted) that is the nearest one in the convention's direction, kept in the month or half month where the convention says so. A business day is left where it is under every convention.",
     ["inputs", "configurations"], "all dates, all conventions, any calendar (any set of holidays that leaves business days within reach)",
     "Tests adjust a few dates on one calendar; the property quantifies over every arrangement of holidays around a month end.",
     ["src/datetime/calendar.rs", "src/datetime/businessdayconvention.rs"],
     [("Calendar::adjust", "src/datetime/calendar.rs")])

prop("C06", "Advancing a date over a calendar counts business days and honours end of month",
     "Advancing by n days moves over exactly n business days in either direction and by zero adjusts; advancing by weeks, months or years moves by the calendar period and then adjusts by the convention. With the end-of-month flag, a start on the last business day of its month ends on the last business day of the target month, and the length-and-unit spelling agrees with the period spelling.",
     ["inputs", "configurations"], "all dates, lengths of either sign, units, conventions and end-of-month flags, any calendar",
     "Tests advance by a few periods on a few calendars.",
     ["src/datetime/calendar.rs"],
     [("Calendar::advance, advance_by_period, advance_by_days", "src/datetime/calendar.rs")])

prop("C07", "Business-day counts, day lists and month ends agree with the day test",
     "The number of business days between two dates is the number of days in that interval that the calendar calls business days, with each end counted exactly when its flag says so and with the opposite sign when the dates are reversed. The business-day and holiday lists are exactly the days of the closed interval on which the test says so, in order, and the calendar's end of month is the last business day of the month.",
     ["inputs", "configurations"], "all pairs of dates in either order, all four inclusion choices, any calendar",
     "Tests count between a few dates in one order; the corner cases are the two ends being holidays, equal or reversed.",
     ["src/datetime/calendar.rs", "src/datetime/holiday.rs"],
     [("Calendar::business_days_between, holiday_list, business_day_list, end_of_month, is_end_of_month", "src/datetime/calendar.rs")])

prop("C08", "Holidays added and removed by the user are honoured everywhere and only there",
     "After any sequence of adding and removing holidays, a date is a business day exactly when the last action on it says so, or, if none applies, when the market rule says so; every other date is unaffected. Every operation of the calendar (tests, adjustment, advancing, counting, lists) sees the edited set, a business day and a holiday are always opposite, and a calendar without a market treats only the edits as holidays.",
     ["histories", "inputs"], "all sequences of add_holiday and remove_holiday on any calendar, observed at any date",
     "Tests add and remove one or two holidays and look at one of them; the quantifier is over edit histories.",
     ["src/datetime/calendar.rs", "src/datetime/holiday.rs"],
     [("Calendar::add_holiday, remove_holiday, is_holiday, is_business_day", "src/datetime/calendar.rs")])

prop("C09", "Each market calendar closes exactly on its documented holidays",
     "For every supported market (TARGET, United Kingdom, United States, Italy, Switzerland, Brazil, Japan, weekends-only, null) a day is a business day exactly when it is neither a weekend day of that market nor one of the holidays its documentation lists, including moved observances, first and last years and one-off closings.",
     ["inputs", "configurations"], "all dates from 1900 to 2199 for all markets",
     "Tests list the holidays of two or three years of a few markets; the rules carry year limits, weekday shifts and Easter offsets over 300 years.",
     ["src/datetime/holidays/target.rs", "src/datetime/holidays/unitedkingdom.rs", "src/datetime/holidays/unitedstates.rs", "src/datetime/holidays/italy.rs", "src/datetime/holidays/switzerland.rs", "src/datetime/holidays/brazil.rs", "src/datetime/holidays/japan.rs", "src/datetime/holidays/weekendsonly.rs", "src/datetime/holidays/nilholiday.rs", "src/datetime/weekend.rs", "src/datetime/holiday.rs"],
     [("is_holiday of each market", "src/datetime/holidays/*.rs"), ("is_weekend", "src/datetime/weekend.rs")])

prop("C10", "Easter is where the Western and Orthodox computus puts it",
     "For every year of the supported range the Easter Monday the library uses for Western and for Orthodox calendars is the day after the Easter Sunday given by the Gregorian and the Julian computus.",
     ["inputs"], "all years 1901-2199, both rites",
     "Tests touch the Easter dates of a few years; the 600 table entries are independent data.",
     ["src/datetime/weekend.rs", "src/datetime/holiday.rs"],
     [("easter_monday tables", "src/datetime/weekend.rs")])

prop("C11", "IMM dates and codes are consistent with one another",
     "A date is an IMM date exactly when it is a third Wednesday (of a quarter month for the main cycle), the next IMM date after a date is the earliest one strictly later, and code and date translate into each other without loss. A string is a valid code exactly when it is a futures month letter of the cycle followed by a digit, and the date of a code is the first matching one not before the reference date.",
     ["inputs"], "all dates, both cycles, all strings and all reference dates from 1901",
     "Tests check a few codes at one reference date; the decade wrap and month roll are for-all statements.",
     ["src/datetime/imm.rs"],
     [("IMM::is_imm_date, is_imm_code, code, date, next_date, next_code", "src/datetime/imm.rs")])

prop("C12", "The 30/360 family counts days by its published rules",
     "For every pair of dates each 30/360 convention (USA, Bond Basis, European, Eurobond Basis, Italian, German, ISMA, ISDA, NASD) and 30/365 returns the day count its published end-of-month rules give, antisymmetric where the convention is, and the year fraction is that count over 360 (or 365). No pair of dates makes it fail.",
     ["inputs"], "all pairs of dates and all conventions",
     "Tests use a few published examples; the February, 31st and reversed-order cases interact.",
     ["src/datetime/daycounters/thirty360.rs", "src/datetime/daycounters/thirty365.rs", "src/datetime/daycounter.rs"],
     [("Thirty360 day_count and year_fraction", "src/datetime/daycounters/thirty360.rs")])

prop("C13", "Actual day counters count calendar days over the right denominators",
     "Actual/360, Actual/365, Actual/366, Actual/364-style, Actual/Actual, simple and 1/1 day counters count actual days (plus one where the last day is included) and divide by the stated basis; Actual/Actual ISDA splits the interval over leap and ordinary years, is additive over adjacent intervals and antisymmetric. Simple gives exact fractions for whole-month intervals, and 1/1 gives the sign.",
     ["inputs", "configurations"], "all pairs of dates, all counters and their options",
     "Tests use the published examples only.",
     ["src/datetime/daycounters/actual360.rs", "src/datetime/daycounters/actual366.rs", "src/datetime/daycounters/actualactual.rs", "src/datetime/daycounters/simple.rs", "src/datetime/daycounters/one.rs", "src/datetime/daycounter.rs"],
     [("day_count and year_fraction of each counter", "src/datetime/daycounters/*.rs")])

prop("C14", "Period arithmetic, normalisation and frequency conversion preserve the time span",
     "Adding, subtracting, negating, multiplying and dividing periods yields the period whose span is the arithmetic result, or is rejected when no exact answer exists; normalising never changes the span and is idempotent. A frequency converts to the period that occurs that often and back to itself, and unit conversions are exact or rejected.",
     ["inputs"], "all pairs of periods (length and unit), all frequencies",
     "Tests check a table of a few periods; unit pairs, zero and negative lengths multiply beyond it.",
     ["src/datetime/period.rs", "src/datetime/frequency.rs"],
     [("Period operators, normalize, frequency, years/months/weeks/days", "src/datetime/period.rs")])

prop("C15", "Period comparison is sound and consistent with equality and hashing",
     "Days compare exactly with weeks and months with years; any other pair of units compares as less (greater) exactly when every day count of the first, with months of 28 to 31 days and years of 365 or 366, is below (above) every day count of the second, and is incomparable otherwise. Two periods are equal exactly when they compare as equal, swapping the arguments swaps the answer, and equal periods hash equally.",
     ["inputs"], "all pairs of periods",
     "Tests compare a few pairs; mixed units, signs and zero lengths multiply beyond them.",
     ["src/datetime/period.rs"],
     [("PartialEq, PartialOrd, Hash of Period", "src/datetime/period.rs")])

prop("C16", "Generated schedules cover the requested span in order with the stated tenor",
     "A generated schedule starts at the effective date and ends at the termination date (each moved as its convention and the rule ask), its dates strictly increase, interior dates are the tenor steps from the anchor implied by the generation rule (adjusted, moved to month end or to IMM or CDS days where asked), and a stub appears only next to the first or next-to-last date. A period flagged regular spans exactly one tenor before adjustment and one of another length is flagged irregular, and contradictory inputs are rejected.",
     ["inputs", "configurations"], "all effective and termination dates, tenors, calendars, conventions, rules, end-of-month flags and stub dates",
     "Tests enumerate a few dozen schedules; the rule/stub/end-of-month interplay is a product space.",
     ["src/datetime/schedule.rs", "src/datetime/schedulebuilder.rs", "src/datetime/dategenerationrule.rs"],
     [("Schedule::new", "src/datetime/schedule.rs"), ("ScheduleBuilder::build", "src/datetime/schedulebuilder.rs")])

prop("C17", "Schedule look-ups and truncations agree with the date list",
     "The next (previous) date of a schedule relative to a reference date is the earliest date not before (latest date before) it, or none. Truncating a schedule after or until a date keeps exactly the dates on the stated side with the cut date itself as the new end, leaves their regularity flags, and start, end, size and indexing describe the same list.",
     ["inputs"], "all schedules and all reference dates",
     "Tests truncate two schedules at a few dates.",
     ["src/datetime/schedule.rs"],
     [("Schedule::after, until, next_date, previous_date, start_date, end_date", "src/datetime/schedule.rs")])

prop("C18", "Compounding, discounting and implied rates are mutually consistent",
     "For every rate, compounding rule and frequency the compound factor is the rule's formula, the discount factor is its reciprocal, and both over a pair of dates use the day counter's year fraction of that pair. The rate implied from a compound factor reproduces that factor, and an equivalent rate under another rule gives the same factor over the same time; impossible inputs are rejected.",
     ["inputs", "configurations"], "all rates, times, compounding rules, frequencies and day counters",
     "Tests use a table of thirty conversions.",
     ["src/rates/interestrate.rs", "src/rates/compounding.rs"],
     [("InterestRate::compound_factor, discount_factor, implied_rate, equivalent_rate", "src/rates/interestrate.rs")])

prop("C19", "Cash-flow analysis counts each future payment once at its own date",
     "A cash flow has occurred exactly when its payment date is before the reference date (or on it, when payments on the date are excluded). The next payment of a leg is the first one that has not occurred, accruals of the flows paid on that date are summed, and a leg matures at its latest accrual end (or, when nothing accrues, its latest payment). Net present value is the sum of the amounts not yet occurred, except those trading ex-coupon, each discounted from its payment date; the modified duration is minus the value's relative derivative in the rate, and the implied yield reprices the leg.",
     ["inputs", "configurations"], "all legs, settlement dates and inclusion flags",
     "Tests price a few bonds; boundary days (payment on the reference date, ex-coupon day) need the for-all.",
     ["src/cashflows/cashflow.rs", "src/cashflows/simplecashflow.rs", "src/cashflows/coupon.rs", "src/cashflows/irrfinder.rs"],
     [("CashFlow::has_occurred, trading_ex_coupon and the leg functions", "src/cashflows/cashflow.rs")])

prop("C20", "A fixed-rate leg pays one coupon per schedule period at the right date and rate",
     "A leg built from a schedule has exactly one coupon per period; accrual dates tile the schedule, each coupon pays on the period end adjusted by the payment calendar, convention and lag, and uses the rate and notional of its position, the last given ones persisting. Coupon amounts are notional times the compounded rate over the accrual period, ex-coupon dates are the requested period before payment, accrued interest grows from zero to the coupon amount, and irregular first and last periods get reference periods one tenor long.",
     ["inputs", "configurations"], "all schedules, notionals, rates, lags, conventions and ex-coupon settings",
     "Tests price two bonds.",
     ["src/cashflows/fixedrateleg.rs", "src/cashflows/fixedratecoupon.rs", "src/cashflows/coupon.rs"],
     [("FixedRateLeg::build", "src/cashflows/fixedrateleg.rs"), ("FixedRateCoupon accrual", "src/cashflows/fixedratecoupon.rs")])

prop("C21", "Bonds redeem their notional, settle on business days and report accrued amounts",
     "A bond's cash flows are its coupons followed by redemption of the outstanding notional at the stated percentage on the adjusted maturity date; its notional is the full amount before that date and zero from it on, and it is tradeable exactly while notional remains. Settlement is the given number of business days after the trade date and never before issue, and the accrued amount is the running coupon's accrual per hundred of notional; price and yield convert into each other.",
     ["inputs", "configurations"], "all bonds, trade dates and settlement lags",
     "Tests price a handful of bonds at one date.",
     ["src/instruments/bond.rs", "src/instruments/fixedratebond.rs", "src/instruments/zerocouponbond.rs", "src/pricingengines/bond/bondfunctions.rs"],
     [("Bond trait and constructors", "src/instruments/*.rs"), ("BondFunctions", "src/pricingengines/bond/bondfunctions.rs")])

prop("C22", "Interpolation brackets its argument and reproduces the nodes",
     "For every sorted grid the binary searches return the first position not less (greater) than the value; linear interpolation returns each node's value at the node, lies on the chord of the bracketing nodes in between (with its slope as derivative and its integral as primitive) and extends the end segments outside, and Lagrange interpolation reproduces every node and any polynomial of degree below the number of nodes. Arguments outside the grid are rejected unless extrapolation is on.",
     ["inputs"], "all sorted grids, values and arguments",
     "Tests interpolate on one or two grids at a few points.",
     ["src/maths/bounds.rs", "src/maths/interpolations/linearinterpolation.rs", "src/maths/interpolations/lagrangeinterpolation.rs", "src/maths/interpolations/interpolation.rs"],
     [("lower_bound, upper_bound", "src/maths/bounds.rs"), ("LinearInterpolation", "src/maths/interpolations/linearinterpolation.rs"), ("LagrangeInterpolation", "src/maths/interpolations/lagrangeinterpolation.rs")])

prop("C23", "A one-dimensional solver returns a root of the bracketed function or fails",
     "When a solver returns a value, it lies within the bracket and the enforced bounds. Brent's is within the requested accuracy of a zero crossing; the safe Newton methods' last step, from inside a bracketed crossing, is shorter than the accuracy (so the value is that close wherever the slope varies by less than a factor of two). When the interval does not bracket a root, the bounds are inconsistent or the evaluation limit is exceeded, it fails instead of returning a value.",
     ["inputs"], "all continuous functions, brackets, guesses, bounds, accuracies and evaluation limits",
     "Tests solve three textbook functions.",
     ["src/maths/solvers1d/solver1d.rs", "src/maths/solvers1d/brent.rs", "src/maths/solvers1d/newtonsafe.rs", "src/maths/solvers1d/finitedifferencenewtonsafe.rs"],
     [("Solver1D::solve / solve_with_bounds and the implementations", "src/maths/solvers1d/*.rs")])

prop("C24", "Rounding and floating-point comparison follow their stated rules",
     "Rounding a value at a given precision with the up, down, closest, floor or ceiling rule gives the adjacent multiple of the precision step that the rule and the rounding digit select, is odd-symmetric for the symmetric rules and idempotent. The closeness tests are symmetric, hold for equal values, and accept exactly the pairs whose distance is within the stated multiple of machine epsilon.",
     ["inputs"], "all values, precisions, rounding digits and tolerances",
     "Tests round a table of ten values.",
     ["src/maths/rounding.rs", "src/maths/comparison.rs"],
     [("Rounding::apply and the rule constructors", "src/maths/rounding.rs"), ("close, close_enough", "src/maths/comparison.rs")])

prop("C25", "Credit default swaps mature on the twentieth their trade date rolls to",
     "For every trade date and tenor of whole quarters the maturity is the 20th of the month that lies the tenor and a quarter after the last roll up to the trade date: rolls are the 20th of March, June, September and December under the CDS and old CDS rules, and of March and September under CDS2015. A maturity not after the trade date is never returned (under CDS2015 a zero tenor then has none, the null date), and other rules, other tenors and a zero tenor under the old rule are rejected.",
     ["inputs"], "all trade dates, tenors and rules",
     "Tests tabulate a few dozen trade dates and tenors.",
     ["src/instruments/creditdefaultswap.rs", "src/datetime/schedule.rs"],
     [("cds_maturity", "src/instruments/creditdefaultswap.rs"), ("previous_twentieth", "src/datetime/schedule.rs")])

prop("C26", "Array arithmetic acts position by position",
     "Adding, subtracting, multiplying or dividing two arrays of one size, or an array and a number, and negating, taking absolute values, roots, logarithms, exponentials or powers gives the array whose every position holds the operation on that position; the dot product is the sum of the products and the norm the root of an array's product with itself. Arrays of different sizes are rejected, and swapping exchanges the whole contents.",
     ["inputs"], "all arrays of any size",
     "Tests use arrays of three elements.",
     ["src/maths/array.rs"],
     [("Array", "src/maths/array.rs")])

prop("C27", "Curves and instruments derive their figures from one source",
     "The discount factor of a zero-yield curve over a time is e to minus the yield for that time times the time, and one at time zero; a yield curve's discount factor for a date is that of the time the curve assigns to the date, and its forward rate over a period is that between the date and the date moved by the period, in the counter, compounding and frequency asked for. An instrument is worth what its calculation says, and a stock is worth its quote.",
     ["inputs"], "all curves, dates, times, periods, quotes and instruments",
     "Tests value one stock; no curve is tested.",
     ["src/termstructures/yieldtermstructure.rs", "src/termstructures/zeroyieldstructure.rs", "src/instruments/instrument.rs", "src/instruments/stock.rs", "src/quotes/simplequote.rs"],
     [("YieldTermStructure::discount_from_date, forward_rate_from_date_period", "src/termstructures/yieldtermstructure.rs"), ("ZeroYieldStructure::discount", "src/termstructures/zeroyieldstructure.rs"), ("Instrument::npv, Stock", "src/instruments/stock.rs")])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
