From 8a6507992fa2f50035f3e888dc8770610d97dd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:02 +0000
Subject: [PATCH 01/27] fix: Calendar::is_holiday honours user-added and
 user-removed holidays

---
 src/datetime/calendar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datetime/calendar.rs b/src/datetime/calendar.rs
index 25a16a4..0e7a030 100644
--- a/src/datetime/calendar.rs
+++ b/src/datetime/calendar.rs
@@ -65,7 +65,7 @@ impl Calendar {
 
     /// Returns `true` iff the date is a holiday for the given market
     pub fn is_holiday(&self, date: &Date) -> bool {
-        !self.holiday.is_business_day(date)
+        !self.is_business_day(date)
     }
 
     /// Returns `true` iff the weekday is part of the weekend for the given market.    
-- 
2.43.0


From c916fe8a46f0765f944e8fb00b378c6f37be8c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:02 +0000
Subject: [PATCH 02/27] fix: US settlement and Libor-impact calendars close on
 weekends

---
 src/datetime/holidays/unitedstates.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/datetime/holidays/unitedstates.rs b/src/datetime/holidays/unitedstates.rs
index d0675e9..6896002 100644
--- a/src/datetime/holidays/unitedstates.rs
+++ b/src/datetime/holidays/unitedstates.rs
@@ -77,7 +77,7 @@ impl UnitedStatesSettlement {
 
     pub fn is_business_day(&self, date: &Date) -> bool {
         let w = date.weekday();
-        self.is_weekend(w) || is_settlement_business_day(date)
+        !self.is_weekend(w) && is_settlement_business_day(date)
     }
 
     pub fn is_weekend(&self, weekday: Weekday) -> bool {
@@ -121,7 +121,7 @@ impl UnitedStatesLiborImpact {
             return true;
         }
 
-        self.is_weekend(w) || is_settlement_business_day(date)
+        !self.is_weekend(w) && is_settlement_business_day(date)
     }
 
     pub fn is_weekend(&self, weekday: Weekday) -> bool {
-- 
2.43.0


From fe3ef4cd54fdb81a829b89f234d7ec8690c4f16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:02 +0000
Subject: [PATCH 03/27] fix: comparing a period with a zero-length period on
 the right is not reversed

---
 src/datetime/period.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datetime/period.rs b/src/datetime/period.rs
index a7b458b..212820a 100644
--- a/src/datetime/period.rs
+++ b/src/datetime/period.rs
@@ -61,7 +61,7 @@ impl PartialOrd for Period {
             return 0.partial_cmp(&p2.length);
         }
         if p2.length == 0 {
-            return 0.partial_cmp(&p1.length);
+            return p1.length.partial_cmp(&0);
         }
 
         // exact comparisons
-- 
2.43.0


From 385f0ab0ed906aa7e28c3a7a3aa776d828c76a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:48 +0000
Subject: [PATCH 04/27] fix: 30/360 and 30/365 day counts do not overflow when
 the end day precedes the start day

---
 src/datetime/daycounters/thirty360.rs | 10 +++++-----
 src/datetime/daycounters/thirty365.rs |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/datetime/daycounters/thirty360.rs b/src/datetime/daycounters/thirty360.rs
index 0e04e88..c6a2c22 100644
--- a/src/datetime/daycounters/thirty360.rs
+++ b/src/datetime/daycounters/thirty360.rs
@@ -176,7 +176,7 @@ impl ISMA {
         if dd2 == 31 && dd1 == 30 {
             dd2 = 30;
         }
-        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 - dd1) as Integer
+        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 as Integer - dd1 as Integer)
     }
 
     pub fn year_fraction(
@@ -215,7 +215,7 @@ impl EU {
             dd2 = 30;
         }
 
-        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 - dd1) as Integer
+        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 as Integer - dd1 as Integer)
     }
 
     pub fn year_fraction(
@@ -261,7 +261,7 @@ impl IT {
             dd2 = 30;
         }
 
-        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 - dd1) as Integer
+        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 as Integer - dd1 as Integer)
     }
 
     pub fn year_fraction(
@@ -310,7 +310,7 @@ impl ISDA {
             dd2 = 30;
         }
 
-        360 * (yy2 - yy1) + 30 * (mm2 as Integer - mm1 as Integer) + (dd2 - dd1) as Integer
+        360 * (yy2 - yy1) + 30 * (mm2 as Integer - mm1 as Integer) + (dd2 as Integer - dd1 as Integer)
     }
 
     pub fn year_fraction(
@@ -353,7 +353,7 @@ impl NASD {
             mm2 += 1;
         }
 
-        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 - dd1) as Integer
+        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 as Integer - dd1 as Integer)
     }
 
     pub fn year_fraction(
diff --git a/src/datetime/daycounters/thirty365.rs b/src/datetime/daycounters/thirty365.rs
index c6bc9ef..cfc7bd6 100644
--- a/src/datetime/daycounters/thirty365.rs
+++ b/src/datetime/daycounters/thirty365.rs
@@ -29,7 +29,7 @@ impl Thirty365 {
         let yy1 = d1.year();
         let yy2 = d2.year();
 
-        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 - dd1) as Integer
+        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 as Integer - dd1 as Integer)
     }
 
     pub fn year_fraction(
-- 
2.43.0


From 508ba546ba6db204c7de764fba8ea8529bb17ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:48 +0000
Subject: [PATCH 05/27] fix: equal periods hash equally

---
 src/datetime/period.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/datetime/period.rs b/src/datetime/period.rs
index 212820a..8619056 100644
--- a/src/datetime/period.rs
+++ b/src/datetime/period.rs
@@ -44,8 +44,15 @@ impl PartialEq for Period {
 
 impl Hash for Period {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
-        self.length.hash(state);
-        self.unit.hash(state);
+        // periods which compare equal normalise to the same length and unit
+        let (length, unit) = match (self.length, self.unit) {
+            (0, _) => (0, Days),
+            (n, Months) if n % 12 == 0 => (n / 12, Years),
+            (n, Days) if n % 7 == 0 => (n / 7, Weeks),
+            other => other,
+        };
+        length.hash(state);
+        unit.hash(state);
     }
 }
 
-- 
2.43.0


From 5b96bdca7012db4fac6fe896993ba9b1a6fdd4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:48 +0000
Subject: [PATCH 06/27] fix: periods whose lengths in days overlap do not
 compare as ordered

---
 src/datetime/period.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/datetime/period.rs b/src/datetime/period.rs
index 8619056..30d23d1 100644
--- a/src/datetime/period.rs
+++ b/src/datetime/period.rs
@@ -1,4 +1,5 @@
 use std::{
+    cmp::Ordering,
     hash::Hash,
     ops::{AddAssign, Div, DivAssign, Mul, Neg, SubAssign}, fmt::Debug,
 };
@@ -38,7 +39,7 @@ impl Debug for Period {
 
 impl PartialEq for Period {
     fn eq(&self, other: &Self) -> bool {
-        !(self < other || other < self)
+        self.partial_cmp(other) == Some(Ordering::Equal)
     }
 }
 
@@ -89,9 +90,18 @@ impl PartialOrd for Period {
         }
 
         // inexact comparisons (handled by converting to days and using limits)
-        let p1_lim = p1.days_min_max();
-        let p2_lim = p2.days_min_max();
-        p1_lim.partial_cmp(&p2_lim)
+        let (a, b) = p1.days_min_max();
+        let (p1_min, p1_max) = (a.min(b), a.max(b));
+        let (a, b) = p2.days_min_max();
+        let (p2_min, p2_max) = (a.min(b), a.max(b));
+        if p1_max < p2_min {
+            Some(Ordering::Less)
+        } else if p1_min > p2_max {
+            Some(Ordering::Greater)
+        } else {
+            // undecidable, e.g. 1 month against 30 days
+            None
+        }
     }
 }
 
-- 
2.43.0


From b8b5b8183a3176a868b7da7c899205933fadb70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:20 +0000
Subject: [PATCH 07/27] fix: Period::frequency of a negative number of months
 does not panic

---
 src/datetime/period.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datetime/period.rs b/src/datetime/period.rs
index 30d23d1..45f08af 100644
--- a/src/datetime/period.rs
+++ b/src/datetime/period.rs
@@ -316,7 +316,7 @@ impl Period {
                 }
             }
             Months => {
-                if 12 % self.length == 0 && self.length <= 12 {
+                if self.length > 0 && 12 % self.length == 0 && self.length <= 12 {
                     Frequency::from(12 / self.length)
                 } else {
                     OtherFrequency
-- 
2.43.0


From fe0c335f5aef8635e548c42560fe64b277050ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:23 +0000
Subject: [PATCH 08/27] fix: IMM::is_imm_code rejects non-ASCII input instead
 of panicking

---
 src/datetime/imm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datetime/imm.rs b/src/datetime/imm.rs
index cd6949b..9b73781 100644
--- a/src/datetime/imm.rs
+++ b/src/datetime/imm.rs
@@ -55,7 +55,7 @@ impl IMM {
 
     /// Returns whether or not the given `input` string is an IMM code
     pub fn is_imm_code(&self, input: &str, main_cycle: bool) -> bool {
-        if input.len() != 2 {
+        if input.len() != 2 || !input.is_ascii() {
             return false;
         }
         let mut str1 = "0123456789";
-- 
2.43.0


From 3ecf0286c46401c3e8f996fc19b10d247b804762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:26 +0000
Subject: [PATCH 09/27] fix: a cash flow behind Rc keeps its ex-coupon date

---
 src/cashflows/cashflow.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cashflows/cashflow.rs b/src/cashflows/cashflow.rs
index 2a1e42f..a1a7568 100644
--- a/src/cashflows/cashflow.rs
+++ b/src/cashflows/cashflow.rs
@@ -146,6 +146,10 @@ where
         (**self).date()
     }
 
+    fn ex_coupon_date(&self) -> Date {
+        (**self).ex_coupon_date()
+    }
+
     fn reference_period_start(&self) -> Date {
         (**self).reference_period_start()
     }
-- 
2.43.0


From 8a5eabbae614a387d410be33c7c6fa7eb5225c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:29 +0000
Subject: [PATCH 10/27] fix: the accrued amount of a coupon trading ex-coupon
 is negative

---
 src/cashflows/fixedratecoupon.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cashflows/fixedratecoupon.rs b/src/cashflows/fixedratecoupon.rs
index b9fd397..281d70e 100644
--- a/src/cashflows/fixedratecoupon.rs
+++ b/src/cashflows/fixedratecoupon.rs
@@ -89,7 +89,7 @@ impl CashFlow for FixedRateCoupon {
                 &self.ref_period_start,
                 &self.ref_period_end,
             );
-            self.nominal * (compound_factor - 1.0)
+            -self.nominal * (compound_factor - 1.0)
         } else {
             // usual case
             let compound_factor = self.rate.compound_factor_between_dates(
-- 
2.43.0


From 575d48709c6be494c4b4549e70ef04375c384b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:32 +0000
Subject: [PATCH 11/27] fix: FixedRateLeg setters replace the notionals and
 rates given earlier

---
 src/cashflows/fixedrateleg.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/cashflows/fixedrateleg.rs b/src/cashflows/fixedrateleg.rs
index 4377767..35cb880 100644
--- a/src/cashflows/fixedrateleg.rs
+++ b/src/cashflows/fixedrateleg.rs
@@ -51,7 +51,7 @@ impl FixedRateLeg {
     }
 
     pub fn with_notional(mut self, notional: Real) -> Self {
-        self.notionals.resize(1, notional);
+        self.notionals = vec![notional];
         self
     }
 
@@ -67,10 +67,7 @@ impl FixedRateLeg {
         compounding: Compounding,
         frequency: Frequency,
     ) -> Self {
-        self.coupon_rates.resize(
-            1,
-            InterestRate::new(rate, daycounter, compounding, frequency),
-        );
+        self.coupon_rates = vec![InterestRate::new(rate, daycounter, compounding, frequency)];
         self
     }
 
@@ -81,6 +78,7 @@ impl FixedRateLeg {
         compounding: Compounding,
         frequency: Frequency,
     ) -> Self {
+        self.coupon_rates.clear();
         for rate in rates {
             let r = InterestRate::new(rate, daycounter.clone(), compounding.clone(), frequency);
             self.coupon_rates.push(r);
@@ -89,7 +87,7 @@ impl FixedRateLeg {
     }
 
     pub fn with_interest_rate(mut self, interest_rate: InterestRate) -> Self {
-        self.coupon_rates.resize(1, interest_rate);
+        self.coupon_rates = vec![interest_rate];
         self
     }
 
-- 
2.43.0


From 0681963afa06c36af0dc936659d4b243aa3a2590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:35 +0000
Subject: [PATCH 12/27] fix: a backward schedule without an effective date
 starts before the evaluation date

---
 src/datetime/schedule.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/datetime/schedule.rs b/src/datetime/schedule.rs
index 0db6400..45075a2 100644
--- a/src/datetime/schedule.rs
+++ b/src/datetime/schedule.rs
@@ -121,6 +121,10 @@ impl Schedule {
                 let date_diff_serial = &next_to_last - eval_date;
                 let y = date_diff_serial / 366 + 1;
                 effective_date = next_to_last - Period::new(y, Years);
+            } else {
+                let date_diff_serial = &termination_date - eval_date;
+                let y = date_diff_serial / 366 + 1;
+                effective_date = termination_date - Period::new(y, Years);
             }
         } else {
             assert!(
-- 
2.43.0


From 46af7cb1aa8661d41b937c1bfe6ad7c6f1e8bc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:38 +0000
Subject: [PATCH 13/27] fix: the last schedule date is adjusted with the
 termination date convention

---
 src/datetime/schedule.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/datetime/schedule.rs b/src/datetime/schedule.rs
index 45075a2..9e3443a 100644
--- a/src/datetime/schedule.rs
+++ b/src/datetime/schedule.rs
@@ -503,7 +503,9 @@ impl Schedule {
                 && result.rule != DateGenerationRule::CDS2015
             {
                 let len = result.dates.len();
-                result.dates[len - 1] = result.calendar.adjust(result.dates[len - 1], convention);
+                result.dates[len - 1] = result
+                    .calendar
+                    .adjust(result.dates[len - 1], termination_date_convention);
             }
         }
 
-- 
2.43.0


From 473cf5fe61fccebaa02f06268234f5236fb9ae09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:20 +0000
Subject: [PATCH 14/27] fix: maturity_date of cash flows which do not accrue is
 the last payment date

---
 src/cashflows/cashflow.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cashflows/cashflow.rs b/src/cashflows/cashflow.rs
index a1a7568..ea544a5 100644
--- a/src/cashflows/cashflow.rs
+++ b/src/cashflows/cashflow.rs
@@ -259,6 +259,12 @@ pub fn maturity_date<T: CashFlow>(cashflows: &Vec<T>) -> Date {
     for cf in cashflows {
         d = d.max(cf.accrual_end_date());
     }
+    if d == Date::default() {
+        // nothing accrues (e.g. there is only a redemption): it matures when it is paid
+        for cf in cashflows {
+            d = d.max(cf.date());
+        }
+    }
     d
 }
 
-- 
2.43.0


From f23ab514d305da12fa7e20cad9df4dc7d2d10d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:43 +0000
Subject: [PATCH 15/27] fix: linear interpolation at the last node uses the
 last segment

---
 src/maths/interpolations/linearinterpolation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maths/interpolations/linearinterpolation.rs b/src/maths/interpolations/linearinterpolation.rs
index a3f6888..61d2319 100644
--- a/src/maths/interpolations/linearinterpolation.rs
+++ b/src/maths/interpolations/linearinterpolation.rs
@@ -70,7 +70,7 @@ impl<'a> Interpolation for LinearInterpolation<'a> {
         } else if x > self.x[self.x.len() - 1] {
             self.x.len() - 2
         } else {
-            upper_bound(self.x, x) - 1
+            upper_bound(&self.x[..self.x.len() - 1], x) - 1
         }
     }
 
-- 
2.43.0


From 743cb4dce7bd2c140eb3b57958a2ad346d80d28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:21 +0000
Subject: [PATCH 16/27] fix: += and -= of days reject dates outside the
 supported range

---
 src/datetime/calendar.rs | 8 ++++++++
 src/datetime/date.rs     | 8 ++------
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/datetime/calendar.rs b/src/datetime/calendar.rs
index 0e7a030..31655bb 100644
--- a/src/datetime/calendar.rs
+++ b/src/datetime/calendar.rs
@@ -120,6 +120,10 @@ impl Calendar {
             if self.is_holiday(&d) && (include_weekends || !self.is_weekend(d.weekday())) {
                 result.push(d);
             }
+            if d == to {
+                // avoid incrementing past Date::max_date()
+                break;
+            }
             d += 1;
         }
         result
@@ -139,6 +143,10 @@ impl Calendar {
             if self.is_business_day(&d) {
                 result.push(d);
             }
+            if d == to {
+                // avoid incrementing past Date::max_date()
+                break;
+            }
             d += 1;
         }
         result
diff --git a/src/datetime/date.rs b/src/datetime/date.rs
index bc3cf87..0504f15 100644
--- a/src/datetime/date.rs
+++ b/src/datetime/date.rs
@@ -84,9 +84,7 @@ impl<'a> Add<SerialNumber> for &'a Date {
 
 impl AddAssign<SerialNumber> for Date {
     fn add_assign(&mut self, rhs: SerialNumber) {
-        self.date_time = Date::min_date().date_time
-            + Duration::days(self.serial_number as BigInteger + rhs as BigInteger - 2);
-        self.serial_number += rhs;
+        *self = Date::from_serial(self.serial_number + rhs);
     }
 }
 
@@ -110,9 +108,7 @@ impl<'a> Sub<SerialNumber> for &'a Date {
 
 impl SubAssign<SerialNumber> for Date {
     fn sub_assign(&mut self, rhs: SerialNumber) {
-        self.date_time = Date::min_date().date_time
-            + Duration::days(self.serial_number as BigInteger - rhs as BigInteger - 2);
-        self.serial_number -= rhs;
+        *self = Date::from_serial(self.serial_number - rhs);
     }
 }
 
-- 
2.43.0


From 236cb32749140d4f6045ae68eafc211031f3517d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:45 +0000
Subject: [PATCH 17/27] fix: leap years in the Japanese equinox days

---
 src/datetime/holidays/japan.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/datetime/holidays/japan.rs b/src/datetime/holidays/japan.rs
index aeb90c6..b44da47 100644
--- a/src/datetime/holidays/japan.rs
+++ b/src/datetime/holidays/japan.rs
@@ -44,7 +44,8 @@ impl Japan {
 
         // equinox calculation
         let moving_amount = (y - 2000) as Time * DIFF_PER_YEAR;
-        let number_of_leap_years = (y - 2000) / 4 + (y - 2000) / 100 - (y - 2000) / 400;
+        let dy = y - 2000;
+        let number_of_leap_years = dy.div_euclid(4) - dy.div_euclid(100) + dy.div_euclid(400);
         let ve = // vernal equinox day
             (EXACT_VERNAL_EQUINOX_TIME + moving_amount - number_of_leap_years as Time) as Day;
         let ae = // autumnal equinox day
-- 
2.43.0


From c54cffaa813f98e2e3b8d4f3caa1bd364873745c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:46 +0000
Subject: [PATCH 18/27] fix: NYSE closes on election day, the Tuesday after the
 first Monday of November

---
 src/datetime/holidays/unitedstates.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/datetime/holidays/unitedstates.rs b/src/datetime/holidays/unitedstates.rs
index 6896002..c6c98b4 100644
--- a/src/datetime/holidays/unitedstates.rs
+++ b/src/datetime/holidays/unitedstates.rs
@@ -192,8 +192,12 @@ impl UnitedStatesNyse {
             return false;
         }
 
-        if (y <= 1968 || (y <= 1980 && y % 4 == 0)) && m == November && d <= 7 && w == Tuesday {
-            // Presidential election days
+        if (y <= 1968 || (y <= 1980 && y % 4 == 0))
+            && m == November
+            && (2..=8).contains(&d)
+            && w == Tuesday
+        {
+            // Presidential election days (Tuesday after the first Monday in November)
             return false;
         }
 
-- 
2.43.0


From 7d6548b8f13511b9dff2cda7a4d90d3d2b83298e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:12 +0000
Subject: [PATCH 19/27] fix: IMM dates of 1900 for codes ending in 0

---
 src/datetime/imm.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/datetime/imm.rs b/src/datetime/imm.rs
index 9b73781..b4cc238 100644
--- a/src/datetime/imm.rs
+++ b/src/datetime/imm.rs
@@ -134,16 +134,12 @@ impl IMM {
         // This cannot panic, since we have already checked abvoe that the code is valid.
         let mut y = code[1..2].parse::<Integer>().unwrap();
 
-        // year < 1900 are not valid QuantLib years: to avoid a run-time
-        // exception few lines below we need to add 10 years right away
-        if y == 0 && reference_date.year() < 1909 {
-            y += 10;
-        }
         let reference_year = reference_date.year() % 10;
         y += reference_date.year() - reference_year;
-        let result = self.next_date(&Date::new(1, month, y), false);
+        // not through next_date, for which the 1st of January, 1900 is the null date
+        let result = Date::nth_weekday(3, Wednesday, month, y);
         if &result < reference_date {
-            return self.next_date(&Date::new(1, month, y + 10), false);
+            return Date::nth_weekday(3, Wednesday, month, y + 10);
         }
         result
     }
-- 
2.43.0


From 2a727a8f059d4086908245a96adf09b226efce02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:12 +0000
Subject: [PATCH 20/27] fix: Actual/Actual ISDA in the last year of the date
 range

---
 src/datetime/daycounters/actualactual.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/datetime/daycounters/actualactual.rs b/src/datetime/daycounters/actualactual.rs
index 1261a6d..18aafe5 100644
--- a/src/datetime/daycounters/actualactual.rs
+++ b/src/datetime/daycounters/actualactual.rs
@@ -404,7 +404,8 @@ impl ISDA {
         let dib2 = if Date::is_leap(y2) { 366.0 } else { 365.0 };
 
         let mut sum = (y2 - y1 - 1) as Time;
-        sum += Date::days_between(d1, &Date::new(1, January, y1 + 1)) / dib1;
+        // up to the end of the year; the 1st of January of the next year may not be a valid date
+        sum += (Date::days_between(d1, &Date::new(31, December, y1)) + 1.0) / dib1;
         sum += Date::days_between(&Date::new(1, January, y2), d2) / dib2;
         sum
     }
-- 
2.43.0


From 97308feb975fae69400e93319ce4b1e2f248d34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:12 +0000
Subject: [PATCH 21/27] fix: Actual/Actual AFB in the first year of the date
 range

---
 src/datetime/daycounters/actualactual.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/datetime/daycounters/actualactual.rs b/src/datetime/daycounters/actualactual.rs
index 18aafe5..369c6e5 100644
--- a/src/datetime/daycounters/actualactual.rs
+++ b/src/datetime/daycounters/actualactual.rs
@@ -442,7 +442,8 @@ impl AFB {
         let mut new_d2 = *d2;
         let mut temp = *d2;
         let mut sum = 0.0;
-        while &temp > d1 {
+        // a year before the first year of the date range is before d1
+        while &temp > d1 && new_d2.year() > Date::min_date().year() {
             temp = new_d2 - Period::new(1, Years);
             if temp.day_of_month() == 28 && temp.month() == February && Date::is_leap(temp.year()) {
                 temp += 1;
-- 
2.43.0


From 6dbe8db97bf78caa0cf385e000bf43326a1a508d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:48 +0000
Subject: [PATCH 22/27] fix: Actual/Actual ISMA with a long first and an
 irregular last period

---
 src/datetime/daycounters/actualactual.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/datetime/daycounters/actualactual.rs b/src/datetime/daycounters/actualactual.rs
index 369c6e5..e1a04b8 100644
--- a/src/datetime/daycounters/actualactual.rs
+++ b/src/datetime/daycounters/actualactual.rs
@@ -188,7 +188,9 @@ impl ISMA {
                 self.schedule.business_day_convention(),
                 self.schedule.end_of_month(),
             );
-            new_dates[self.schedule.size() - 1] = notional_last_coupon;
+            // not at the schedule's own last position, a quasi payment may have been put in front
+            let last = new_dates.len() - 1;
+            new_dates[last] = notional_last_coupon;
             if notional_last_coupon < *self.schedule.end_date() {
                 let next_notional_coupon = self.schedule.calendar().advance_by_period(
                     notional_last_coupon,
-- 
2.43.0


From 8ffc2dbbbfc150e8ecbf5e74947b35c72c19b08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:46 +0000
Subject: [PATCH 23/27] fix: rounding a multiple of the step moved it by one
 step

---
 src/maths/rounding.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/maths/rounding.rs b/src/maths/rounding.rs
index 13448c9..9aa3cdd 100644
--- a/src/maths/rounding.rs
+++ b/src/maths/rounding.rs
@@ -1,4 +1,7 @@
-use crate::types::{Decimal, Integer};
+use crate::{
+    maths::comparison::close_n,
+    types::{Decimal, Integer},
+};
 
 #[derive(Clone, PartialEq, Eq)]
 pub struct NoRounding {}
@@ -155,6 +158,11 @@ impl RoundingData {
     fn round(&self, value: Decimal, rounding: &Rounding) -> Decimal {
         let mult = 10_f64.powf(self.precision as f64);
         let mut lvalue = value.abs() * mult;
+        // a multiple of the step stays one: scaling it may leave it off by a rounding error
+        let nearest = lvalue.round();
+        if close_n(lvalue, nearest, 2) {
+            lvalue = nearest;
+        }
         let mod_val = lvalue.fract();
         lvalue -= mod_val;
 
-- 
2.43.0


From 95a3fcb9a8d56349d295c3e5abe2a58b8bc0988b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:06 +0000
Subject: [PATCH 24/27] fix: Lagrange interpolation at a node at zero

---
 src/maths/interpolations/lagrangeinterpolation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maths/interpolations/lagrangeinterpolation.rs b/src/maths/interpolations/lagrangeinterpolation.rs
index 7f7e472..5c753db 100644
--- a/src/maths/interpolations/lagrangeinterpolation.rs
+++ b/src/maths/interpolations/lagrangeinterpolation.rs
@@ -84,7 +84,7 @@ impl<'a> Interpolation for LagrangeInterpolation<'a> {
         self.check_range(x, allow_extrapolation);
         let eps = 10.0 * f64::EPSILON * x.abs();
         let lb = lower_bound(self.x, x - eps);
-        if lb != self.x.len() && self.x[lb] - x < eps {
+        if lb != self.x.len() && self.x[lb] - x <= eps {
             return self.y[lb];
         }
         let mut n = 0.0;
-- 
2.43.0


From d5dc1d72b0423696d698202f8d6c796aee6003ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:41 +0000
Subject: [PATCH 25/27] fix: every frequency converts from its integer value

---
 src/datetime/frequency.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/datetime/frequency.rs b/src/datetime/frequency.rs
index 591af31..03331e0 100644
--- a/src/datetime/frequency.rs
+++ b/src/datetime/frequency.rs
@@ -32,6 +32,8 @@ pub enum Frequency {
 impl From<Integer> for Frequency {
     fn from(n: Integer) -> Self {
         match n {
+            -1 => Self::NoFrequency,
+            0 => Self::Once,
             1 => Self::Annual,
             2 => Self::Semiannual,
             3 => Self::EveryFourthMonth,
@@ -42,6 +44,7 @@ impl From<Integer> for Frequency {
             26 => Self::Biweekly,
             52 => Self::Weekly,
             365 => Self::Daily,
+            999 => Self::OtherFrequency,
             other => panic!("Invalid frequency: {}", other),
         }
     }
-- 
2.43.0


From 4b40a2633fc54675836a3eadd12fb801753a6747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:38 +0000
Subject: [PATCH 26/27] fix: a first date later than the next to last date is
 rejected

---
 src/datetime/schedule.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/datetime/schedule.rs b/src/datetime/schedule.rs
index 9e3443a..f824417 100644
--- a/src/datetime/schedule.rs
+++ b/src/datetime/schedule.rs
@@ -225,6 +225,15 @@ impl Schedule {
             }
         }
 
+        if result.first_date != Date::default() && result.next_to_last_date != Date::default() {
+            assert!(
+                result.first_date <= result.next_to_last_date,
+                "first date ({:?}) later than next to last date ({:?})",
+                result.first_date,
+                result.next_to_last_date
+            );
+        }
+
         // calendar needed for endOfMonth adjustment
         let nil_holiday = NilHoliday::new();
         let mut periods = 1;
-- 
2.43.0


From 383588d8ab62abe91ea07b0e2cd75b2bceca50e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:48 +0000
Subject: [PATCH 27/27] fix: a schedule keeps a date once when stubs, month
 ends or conventions make dates coincide

---
 src/datetime/schedule.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/datetime/schedule.rs b/src/datetime/schedule.rs
index f824417..73fd8e2 100644
--- a/src/datetime/schedule.rs
+++ b/src/datetime/schedule.rs
@@ -518,10 +518,22 @@ impl Schedule {
             }
         }
 
-        // Final safety checks to remove extra next-to-last date, if necessary. It can happen to
+        // A stub date and a generated one can be moved to the same date (for instance the end of
+        // their month), which is kept once.
+        let mut i = 2;
+        while i + 1 < result.dates.len() {
+            if result.dates[i] <= result.dates[i - 1] {
+                result.dates.remove(i);
+                result.is_regular.remove(i - 1);
+            } else {
+                i += 1;
+            }
+        }
+
+        // Final safety checks to remove extra next-to-last dates, if necessary. It can happen to
         // be equal or later than the end date due to EOM adjustments (see the Schedule test suite
         // for an example).
-        if result.dates.len() >= 2
+        while result.dates.len() >= 2
             && result.dates[result.dates.len() - 2] >= result.dates[result.dates.len() - 1]
         {
             // there might be two dates only, then is_regular has size one
@@ -536,8 +548,10 @@ impl Schedule {
             result.is_regular.pop();
         }
 
-        if result.dates.len() >= 2 && result.dates[1] <= result.dates[0] {
-            result.is_regular[1] = result.dates[1] == result.dates[0];
+        while result.dates.len() >= 2 && result.dates[1] <= result.dates[0] {
+            if result.is_regular.len() >= 2 {
+                result.is_regular[1] = result.dates[1] == result.dates[0];
+            }
             result.dates[1] = result.dates[0];
             result.dates.remove(0); // this is expensive
             result.is_regular.remove(0); // this is expensive
-- 
2.43.0

