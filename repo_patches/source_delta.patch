From 29de70bae77ae7523dea12a386b64db24dff60b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:29 +0000
Subject: [PATCH 01/25] fix: year/day-of-year to MJD is wrong before 1898 and
 after 2100

ydoy2mjd used a formula (Remondi) that takes every 4th year as leap, so it
disagreed with cal2mjd outside 1897-2100.
---
 src/dtfund.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dtfund.cpp b/src/dtfund.cpp
index 1e84911..abf338a 100644
--- a/src/dtfund.cpp
+++ b/src/dtfund.cpp
@@ -214,11 +214,11 @@ ngpt::modified_julian_day::to_ymd() const noexcept
 ngpt::modified_julian_day
 ngpt::ydoy2mjd(ngpt::year yr, ngpt::day_of_year doy) noexcept
 {
-    long iyr {static_cast<long>(yr.as_underlying_type())};
+    int  iyr {yr.as_underlying_type()};
     long idy {static_cast<long>(doy.as_underlying_type())};
 
-    return modified_julian_day {((iyr-1901)/4)*1461 + ((iyr-1901)%4)*365 +
-        idy - 1 + ngpt::jan11901};
+    // Jan. 1st of any year is always a valid date; cal2mjd will not throw
+    return modified_julian_day {ngpt::cal2mjd(iyr, 1, 1) + idy - 1};
 }
 
 /// 
-- 
2.43.0


From 66c8eda9c65de8710822e6e4cb2be15391d61090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:29 +0000
Subject: [PATCH 02/25] fix: MJD to year/day-of-year is wrong before 1901 and
 after 2100

modified_julian_day::to_ydoy took every 4th year as leap and truncated towards
1901, giving wrong or non-positive days of year outside 1901-2100.
---
 src/dtfund.cpp | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/src/dtfund.cpp b/src/dtfund.cpp
index abf338a..9b43e2a 100644
--- a/src/dtfund.cpp
+++ b/src/dtfund.cpp
@@ -164,19 +164,7 @@ ngpt::day_of_month::is_valid(ngpt::year y, ngpt::month m) const noexcept
 ngpt::ydoy_date
 ngpt::modified_julian_day::to_ydoy() const noexcept
 {
-  long days_fr_jan1_1901 { m_mjd - ngpt::jan11901 };
-  long num_four_yrs      { days_fr_jan1_1901/1461L };
-  long years_so_far      { 1901L + 4*num_four_yrs };
-  long days_left         { days_fr_jan1_1901 - 1461*num_four_yrs };
-  long delta_yrs         { days_left/365 - days_left/1460 };
-  
-  ydoy_date ydoy;
-  ydoy.__doy = day_of_year{static_cast<day_of_year::underlying_type>
-              (days_left-365*delta_yrs+1)};
-  ydoy.__year= year{static_cast<year::underlying_type>
-              (years_so_far + delta_yrs)};
-
-  return ydoy;
+  return this->to_ymd().to_ydoy();
 }
 
 ///
-- 
2.43.0


From 9b4ebc84b232aaa8f1b3b009cf4d6e719557aa23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:29 +0000
Subject: [PATCH 03/25] fix: debug build aborts on day-of-year 344 and later

guess is 11 for days of year >= 344, which is a valid index.
---
 src/dtfund.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dtfund.cpp b/src/dtfund.cpp
index 9b43e2a..d8f9313 100644
--- a/src/dtfund.cpp
+++ b/src/dtfund.cpp
@@ -232,7 +232,7 @@ ngpt::ydoy_date::to_ymd() const noexcept
   int guess = __doy.as_underlying_type() * 0.032;
   int leap = __year.is_leap();
 #ifdef DEBUG
-  assert( guess >= 0 && guess < 11 );
+  assert( guess >= 0 && guess < 12 );
 #endif
   int more = (( __doy.as_underlying_type() - month_day[leap][guess+1] ) > 0);
   yd.__month = month{guess + more + 1};
-- 
2.43.0


From 070fa1cb41940487375b5b7071a153b82987eb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:05 +0000
Subject: [PATCH 04/25] fix: nonexistent calendar date terminates the program

The date-time constructors taking year, month and day call cal2mjd, which throws
std::out_of_range for a date that does not exist; being noexcept they turned
that (e.g. when reading "2015-13-01") into std::terminate.
---
 src/dtcalendar.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/dtcalendar.hpp b/src/dtcalendar.hpp
index 39bf625..0c1407f 100644
--- a/src/dtcalendar.hpp
+++ b/src/dtcalendar.hpp
@@ -264,7 +264,7 @@ public:
     
   /// Constructor from year, month, day of month and sec type.
   explicit constexpr
-  datetime(year y, month m, day_of_month d, S s) noexcept
+  datetime(year y, month m, day_of_month d, S s)
     : m_mjd{cal2mjd(y, m, d)},
       m_sec{s}
   {
@@ -285,7 +285,7 @@ public:
                 std::is_same<S, decltype(static_cast<S>(T{}))>::value, bool>
                >
   explicit
-  datetime(year y, month m, day_of_month d, T t) noexcept
+  datetime(year y, month m, day_of_month d, T t)
     : m_mjd{cal2mjd(y, m, d)},
       m_sec{S(t)}
   {
@@ -316,7 +316,6 @@ public:
                >
   explicit
   datetime(year y, month m, day_of_month d, hours hr, minutes mn, T sec)
-  noexcept
     : m_mjd{cal2mjd(y, m, d)},
       m_sec{hr, mn, S(sec)}
   {
@@ -341,7 +340,6 @@ public:
   /// Constructor from year, month, day of month and fractional seconds.
   explicit
   datetime(year y, month m, day_of_month d, hours hr, minutes mn, double fsecs)
-  noexcept
     : m_mjd{cal2mjd(y, m, d)},
       m_sec{hr, mn, fsecs}
   {
@@ -361,7 +359,7 @@ public:
   /// second type S.
   explicit
   datetime(year y, month m, day_of_month d, hours hr=hours(),
-           minutes mn=minutes(), S sec=S()) noexcept
+           minutes mn=minutes(), S sec=S())
     : m_mjd{cal2mjd(y, m, d)},
       m_sec{hr, mn, sec}
   {
-- 
2.43.0


From 1588a8a57864fe189ac0fde02a1a171430bd7a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:05 +0000
Subject: [PATCH 05/25] fix: date-time from GPS week and negative time of week
 is not normalized

The time of day stayed negative, so comparisons and conversions were wrong; e.g.
the week/sow of a date before the GPS epoch did not convert back to that date.
---
 src/dtcalendar.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/dtcalendar.hpp b/src/dtcalendar.hpp
index 0c1407f..b45f876 100644
--- a/src/dtcalendar.hpp
+++ b/src/dtcalendar.hpp
@@ -401,11 +401,10 @@ public:
   explicit
   datetime(gps_week w, S sow) noexcept
     : m_mjd{w.as_underlying_type()*7
-           +sow.as_underlying_type()/S::max_in_day
            +jan61980},
     m_sec{sow}
   {
-    m_sec.remove_days();
+    this->normalize();
   }
 
   /// Get the Modified Julian Day (const).
-- 
2.43.0


From 5303b831129fbf8155ce2352d3b0376ea8e0495a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:05 +0000
Subject: [PATCH 06/25] fix: stringify prints the fraction twice and not the
 seconds

The integral seconds never appeared; the fractional ticks were added instead.
---
 src/dtcalendar.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dtcalendar.hpp b/src/dtcalendar.hpp
index b45f876..4a1a06d 100644
--- a/src/dtcalendar.hpp
+++ b/src/dtcalendar.hpp
@@ -740,7 +740,7 @@ public:
     double fsec { st.as_underlying_type() / S::template sec_factor<double>() };
     std::ostringstream out;
     out << std::fixed << std::setprecision(9) 
-        << (fsec + static_cast<double>(st.as_underlying_type()));
+        << (fsec + static_cast<double>(std::get<2>(hms).as_underlying_type()));
 
     return std::string {
                  std::to_string( ymd.__year.as_underlying_type() )
-- 
2.43.0


From dbc3feac8fecc7be13c521222ead35406cb10974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:05 +0000
Subject: [PATCH 07/25] fix: dividing an interval is off by one unit for some
 values

The quotient was computed in double precision and truncated, e.g. 2 days / 7 in
seconds lost one second for some dividends.
---
 src/dtcalendar.hpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/dtcalendar.hpp b/src/dtcalendar.hpp
index 4a1a06d..a387f49 100644
--- a/src/dtcalendar.hpp
+++ b/src/dtcalendar.hpp
@@ -170,14 +170,17 @@ public:
   datetime_interval
   operator/(int div) const noexcept
   {
-    double d = static_cast<double>(m_days.as_underlying_type());
-    double i, f;
-    f = std::modf(d/div, &i);
-    auto new_mjd = static_cast<modified_julian_day::underlying_type>(i);
-
-    d = static_cast<double>(m_secs.as_underlying_type());
-    d = d/div + f*S::max_in_day;
-    auto new_sec = static_cast<typename S::underlying_type>(d);
+    // integer arithmetic; days that do not divide go to the seconds part
+    auto days = m_days.as_underlying_type();
+    auto new_mjd = days / div;
+    auto rem_day = days % div;
+
+    // (rem_day days + seconds) / div, without overflowing in rem_day days
+    auto day_quo = S::max_in_day / div;
+    auto day_rem = S::max_in_day % div;
+    auto secs    = m_secs.as_underlying_type();
+    auto new_sec = rem_day * day_quo + secs / div
+                 + (rem_day * day_rem + secs % div) / div;
 
     return datetime_interval{modified_julian_day{new_mjd}, S{new_sec}};
   }
-- 
2.43.0


From b654cb71c1afe18750e933d1532b8a37ead6bdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:05 +0000
Subject: [PATCH 08/25] fix: cast_to overflows for amounts representable in
 both types

e.g. 2e16 microseconds (634 years) to milliseconds, or any cast of a type to
itself beyond max/factor.
---
 src/dtfund.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/dtfund.hpp b/src/dtfund.hpp
index 8c58f2f..091a222 100644
--- a/src/dtfund.hpp
+++ b/src/dtfund.hpp
@@ -2098,8 +2098,12 @@ template<typename Ssrc,
   // seconds _s1 = cast_to<milliseconds, seconds>(milliseconds{2000L});
   // this is: (1/1000)*2000 which is 0 because 1/1000 is 0, but
   // (2000*1)/1000 = 2 which is correct
-  auto numerator { s.__member_ref__() * Strg::template sec_factor<long>() };
-  return Strg {numerator / Ssrc::template sec_factor<long>()};
+  // only scale by the ratio of the two factors: multiplying by the whole target
+  // factor first overflows for amounts that both types can hold.
+  constexpr long src { Ssrc::template sec_factor<long>() };
+  constexpr long trg { Strg::template sec_factor<long>() };
+  if (trg >= src) return Strg {s.__member_ref__() * (trg / src)};
+  return Strg {s.__member_ref__() / (src / trg)};
 }
 
 /// For user-defined literals, i am going to replace long with
-- 
2.43.0


From 6f8cbdcbc2ff8b618bc9b59ee1cfd37eff596985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:05 +0000
Subject: [PATCH 09/25] fix: fractional seconds lose one unit of the resolution

The product seconds*factor was truncated although it can be just below the
intended integer, e.g. "1.001" as milliseconds became 1.000.
---
 src/dtfund.hpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/dtfund.hpp b/src/dtfund.hpp
index 091a222..b03af47 100644
--- a/src/dtfund.hpp
+++ b/src/dtfund.hpp
@@ -111,6 +111,21 @@ is_leap(int iy) noexcept
   return !(iy%4) && (iy%100 || !(iy%400));
 }
 
+/// @brief Fractional seconds to an integral number of ticks (e.g. microseconds)
+///
+/// Anything finer than one tick is dropped. The binary representation of a
+/// decimal number of seconds can be (very slightly) smaller than that number,
+/// e.g. 1.001*1000 is 1000.9999999999999; this error must not cost a tick.
+///
+/// @param[in] fs  Fractional seconds
+/// @param[in] tps Ticks per second
+inline constexpr long
+__fractional_sec_to_ticks__(double fs, double tps) noexcept
+{
+  return static_cast<long>(fs * tps
+         * (1e0 + 2e0 * std::numeric_limits<double>::epsilon()));
+}
+
 /// @brief Transform a calendar date to modified_julian_day.
 ///
 /// @param[in] y The year.
@@ -1361,7 +1376,7 @@ public:
   /// the fs input argument).
   explicit constexpr
   milliseconds(hours h, minutes m, double fs) noexcept
-    : m_sec{ static_cast<underlying_type>(fs * sec_factor<double>())
+    : m_sec{ __fractional_sec_to_ticks__(fs, sec_factor<double>())
              + (m.as_underlying_type()*60L + h.as_underlying_type()*3600L)
              * sec_factor<underlying_type>()}
   {
@@ -1601,7 +1616,7 @@ public:
   ///       up to 10e-6.
   explicit constexpr
   microseconds(hours h, minutes m, double fs) noexcept
-    : m_sec{ static_cast<underlying_type>(fs * sec_factor<double>())
+    : m_sec{ __fractional_sec_to_ticks__(fs, sec_factor<double>())
             + (m.as_underlying_type()*60L
             + h.as_underlying_type()*3600L) * sec_factor<underlying_type>() }
   {};
-- 
2.43.0


From 9a6ee2aeeaca401375a6e4ac0010b99b0db5bd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:05 +0000
Subject: [PATCH 10/25] fix: microseconds are formatted with five digits

The last digit was lost, and 59.999996 and up was written as second 60.
---
 src/datetime_write.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datetime_write.hpp b/src/datetime_write.hpp
index 484b79e..f9c0a63 100644
--- a/src/datetime_write.hpp
+++ b/src/datetime_write.hpp
@@ -66,7 +66,7 @@ template<typename T>
        + _i2s_((ymd.__dom).as_underlying_type(), 2) + ' '
        + _i2s_(std::get<0>(hmsf).as_underlying_type(),2) + ':'
        + _i2s_(std::get<1>(hmsf).as_underlying_type(),2) + ':'
-       + _d2s_(secs, 5);
+       + _d2s_(secs, 6);
 }
 template<typename T>
   std::string
-- 
2.43.0


From f95b9d895d47ad5a3fad786b678ee7a41951131d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:40 +0000
Subject: [PATCH 11/25] fix: valid differences abort when built with
 USE_DATETIME_CHECKS

delta_sec, delta_date and remove_seconds (of a finer resolution) went through
a negative intermediate amount, which the checks of the second types refuse,
although the operands and the result are valid.
---
 src/dtcalendar.hpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/dtcalendar.hpp b/src/dtcalendar.hpp
index a387f49..9bf348f 100644
--- a/src/dtcalendar.hpp
+++ b/src/dtcalendar.hpp
@@ -601,7 +601,8 @@ public:
   constexpr S
   delta_sec(const datetime& d) const noexcept
   {
-    return (m_sec - d.m_sec) + mjd_sec_diff<S>(m_mjd, d.m_mjd);
+    // order matters: do not go through negative seconds unless *this < d
+    return (mjd_sec_diff<S>(m_mjd, d.m_mjd) + m_sec) - d.m_sec;
   }
 
   /// Overload equality operator.
@@ -677,7 +678,13 @@ public:
   constexpr datetime_interval<S>
   delta_date(const datetime& d) const noexcept
   {
-    datetime_interval<S> dt { m_mjd - d.m_mjd, m_sec - d.m_sec };
+    modified_julian_day days { m_mjd - d.m_mjd };
+    S sec { m_sec };
+    if (sec < d.m_sec) { // borrow a day
+      --days;
+      sec += S{S::max_in_day};
+    }
+    datetime_interval<S> dt { days, sec - d.m_sec };
     dt.normalize();
     return dt;
   }
@@ -850,7 +857,10 @@ private:
   {
     T sect = ngpt::cast_to<S, T>(m_sec);
     sect -= sec;
-    m_sec = ngpt::cast_to<T, S>(sect);
+    // normalize before casting, S should not get a negative value
+    datetime<T> dt { m_mjd, sect };
+    m_mjd = dt.mjd();
+    m_sec = ngpt::cast_to<T, S>(dt.sec());
     this->normalize();
 #ifdef USE_DATETIME_CHECKS
     assert(m_mjd >= modified_julian_day{0} && m_sec >= S{0});
@@ -903,7 +913,7 @@ template<typename S1,
 {
   S1 diff  = mjd_sec_diff<S1>(d1.mjd(), d2.mjd()); // days dif in S1
   S1 s2sec = ngpt::cast_to<S2, S1>(d2.sec());      // cast d2 secs to S1
-  return diff + (d1.sec() - s2sec);
+  return (diff + d1.sec()) - s2sec;
 }
 
 /// Difference of two datetime instances in seconds, when they are of different
@@ -934,7 +944,7 @@ template<typename S1,
 {
   S2 diff  = mjd_sec_diff<S2>(d1.mjd(), d2.mjd()); // days dif in S2
   S2 s1sec = ngpt::cast_to<S1, S2>(d1.sec());      // cast d1 secs to S2
-  return diff + (s1sec - d2.sec());
+  return (diff + s1sec) - d2.sec();
 }
 
 /// Because we have a function of type:
-- 
2.43.0


From 7e62c242df63765a1d305d9aa410efc65b291d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:08 +0000
Subject: [PATCH 12/25] fix: readers access memory past the end of the text

Stepping over the delimiter after the last number skipped the terminating
null when the text ended there.
---
 src/datetime_read.hpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/datetime_read.hpp b/src/datetime_read.hpp
index ab0b47b..103dc2b 100644
--- a/src/datetime_read.hpp
+++ b/src/datetime_read.hpp
@@ -16,6 +16,7 @@
 
 #include <cstdlib>
 #include <cctype>         // for std::isalpha
+#include <cstring>        // for std::strncpy
 #include <stdexcept>
 #include "dtfund.hpp"
 #include "dtcalendar.hpp"
@@ -51,7 +52,7 @@ template<typename T>
         ("Invalid date format: \"" + std::string(str) 
          + "\" (argument #" + std::to_string(i+1) + ").");
     }
-    start = end+1;
+    start = *end ? end+1 : end;
   }
   if (stop) *stop = end - 1;
   return datetime<T> {year{ints[0]},
@@ -87,7 +88,7 @@ template<typename T>
         ("Invalid date format: \"" + std::string(str)
          + "\" (argument #" + std::to_string(i+1) + ").");
     }
-    start = end+1;
+    start = *end ? end+1 : end;
   }
   if (stop) *stop = end - 1;
   return datetime<T> {year{ints[0]},
@@ -123,7 +124,7 @@ template<typename T>
         ("Invalid date format: \""+std::string(str)+
           "\" (argument #" + std::to_string(i+1) + ").");
     }
-    start = end+1;
+    start = *end ? end+1 : end;
   }
   secs = std::strtod(start, &end);
   if (errno == ERANGE) {
@@ -168,15 +169,16 @@ template<typename T>
     throw std::invalid_argument
       ("Invalid date format: \""+std::string(str)+"\" (argument #1).");
   }
-  start = end+1;
+  start = *end ? end+1 : end;
 
-  if ( !std::isalpha(*start) ) ++start;
-  std::memcpy(month_str, start, 3);
+  if ( *start && !std::isalpha(*start) ) ++start;
+  std::strncpy(month_str, start, 3);
   month_str[0] = std::toupper(month_str[0]);
   month_str[1] = std::tolower(month_str[1]);
   month_str[2] = std::tolower(month_str[2]);
   month mnt {month_str};
-  start += 4;
+  start += 3;
+  if (*start) ++start;
 
   for (int i = 2; i < 5; ++i) {
     ints[i] = static_cast<int>( std::abs(std::strtol(start, &end, 10)) );
@@ -186,7 +188,7 @@ template<typename T>
         ("Invalid date format: \"" + std::string(str) 
          +"\" (argument #" + std::to_string(i+1) + ").");
     }
-    start = end+1;
+    start = *end ? end+1 : end;
   }
 
   secs = std::strtod(start, &end);
@@ -232,7 +234,7 @@ template<typename T>
         ("Invalid date format: \"" + std::string(str) 
          + "\" (argument #" + std::to_string(i+1) + ").");
     }
-    start = end+1;
+    start = *end ? end+1 : end;
   }
   secs = std::strtod(start, &end);
   if (errno == ERANGE) {
-- 
2.43.0


From b53af6783ed9fc95ad28a338a36046a55a8d9c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:08 +0000
Subject: [PATCH 13/25] fix: text without seconds is read as if it had zero
 seconds

---
 src/datetime_read.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/datetime_read.hpp b/src/datetime_read.hpp
index 103dc2b..0d1fc93 100644
--- a/src/datetime_read.hpp
+++ b/src/datetime_read.hpp
@@ -127,7 +127,7 @@ template<typename T>
     start = *end ? end+1 : end;
   }
   secs = std::strtod(start, &end);
-  if (errno == ERANGE) {
+  if (errno == ERANGE || start == end) {
     errno = 0;
     throw std::invalid_argument
       ("Invalid date format: \""+std::string(str)+"\" (argument #6)");
@@ -192,7 +192,7 @@ template<typename T>
   }
 
   secs = std::strtod(start, &end);
-  if (errno == ERANGE) {
+  if (errno == ERANGE || start == end) {
     errno = 0;
     throw std::invalid_argument
       ("Invalid date format: \"" + std::string(str) + "\" (argument #6)");
@@ -237,7 +237,7 @@ template<typename T>
     start = *end ? end+1 : end;
   }
   secs = std::strtod(start, &end);
-  if (errno == ERANGE) {
+  if (errno == ERANGE || start == end) {
     errno = 0;
     throw std::invalid_argument
       ("Invalid date format: \""+std::string(str)+"\" (argument #5)");
-- 
2.43.0


From 2bfc94df6e2857f8b51b89547f5da0b1425e09cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:08 +0000
Subject: [PATCH 14/25] fix: readers accept integers that do not fit and fail
 on a stale errno

Values that do not fit an int were truncated to some other value (and the
absolute value of LONG_MIN is undefined); an error left in errno by an
earlier, unrelated call made valid text fail.
---
 src/datetime_read.hpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/datetime_read.hpp b/src/datetime_read.hpp
index 0d1fc93..ac224e0 100644
--- a/src/datetime_read.hpp
+++ b/src/datetime_read.hpp
@@ -14,6 +14,8 @@
 #ifndef __NGPT_DT_READERS__
 #define __NGPT_DT_READERS__
 
+#include <cerrno>
+#include <climits>
 #include <cstdlib>
 #include <cctype>         // for std::isalpha
 #include <cstring>        // for std::strncpy
@@ -27,6 +29,18 @@
 
 namespace ngpt {
 
+/// Resolve an integer (base 10) from a c-string and return its absolute value.
+/// Like std::strtol, errno is set to ERANGE (but also cleared if no error
+/// occurs) for values that cannot be represented, here as int.
+inline int
+__read_int__(const char* str, char** end) noexcept
+{
+  errno = 0;
+  const long l = std::strtol(str, end, 10);
+  if (l > INT_MAX || l < -INT_MAX) errno = ERANGE;
+  return errno == ERANGE ? 0 : static_cast<int>(std::abs(l));
+}
+
 /// @brief Read from YYYY-MM-DD
 ///
 /// Read and return a date from a c-string of type: YYYY-MM-DD, where the 
@@ -45,7 +59,7 @@ template<typename T>
   int ints[3];
 
   for (int i = 0; i < 3; ++i) {
-    ints[i] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
+    ints[i] = __read_int__(start, &end);
     if (errno == ERANGE || start == end) {
       errno = 0;
       throw std::invalid_argument
@@ -81,7 +95,7 @@ template<typename T>
   int ints[2];
 
   for (int i = 0; i < 2; ++i) {
-    ints[i] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
+    ints[i] = __read_int__(start, &end);
     if (errno == ERANGE || start == end) {
       errno = 0;
       throw std::invalid_argument
@@ -117,7 +131,7 @@ template<typename T>
   double secs;
 
   for (int i = 0; i < 5; ++i) {
-    ints[i] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
+    ints[i] = __read_int__(start, &end);
     if (errno == ERANGE || start == end) {
       errno = 0;
       throw std::invalid_argument
@@ -163,7 +177,7 @@ template<typename T>
   month_str[3] = '\0';
   double secs;
 
-  ints[0] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
+  ints[0] = __read_int__(start, &end);
   if (errno == ERANGE || start == end) {
     errno = 0;
     throw std::invalid_argument
@@ -181,7 +195,7 @@ template<typename T>
   if (*start) ++start;
 
   for (int i = 2; i < 5; ++i) {
-    ints[i] = static_cast<int>( std::abs(std::strtol(start, &end, 10)) );
+    ints[i] = __read_int__(start, &end);
     if (errno == ERANGE || start == end) {
       errno = 0;
       throw std::invalid_argument
@@ -227,7 +241,7 @@ template<typename T>
   double secs;
 
   for (int i = 0; i < 4; ++i) {
-    ints[i] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
+    ints[i] = __read_int__(start, &end);
     if (errno == ERANGE || start == end) {
       errno = 0;
       throw std::invalid_argument
-- 
2.43.0


From 49ce3844e173777eff70ff29c2ae12c8e1cbc550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:46 +0000
Subject: [PATCH 15/25] fix: readers convert seconds that are not representable

Infinite, NaN or too large seconds were converted to an integer type that
cannot hold them, which is undefined behaviour (and gives an arbitrary instant).
---
 src/datetime_read.hpp | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/datetime_read.hpp b/src/datetime_read.hpp
index ac224e0..597d4cb 100644
--- a/src/datetime_read.hpp
+++ b/src/datetime_read.hpp
@@ -16,7 +16,9 @@
 
 #include <cerrno>
 #include <climits>
+#include <cmath>          // for std::abs(double)
 #include <cstdlib>
+#include <limits>
 #include <cctype>         // for std::isalpha
 #include <cstring>        // for std::strncpy
 #include <stdexcept>
@@ -41,6 +43,23 @@ __read_int__(const char* str, char** end) noexcept
   return errno == ERANGE ? 0 : static_cast<int>(std::abs(l));
 }
 
+/// Resolve (fractional) seconds from a c-string. Like std::strtod, errno is set
+/// to ERANGE (but also cleared if no error occurs) for values that cannot be
+/// represented, here as (ticks of) the second type T; that includes infinities
+/// and NaNs. The limit leaves room for any hours and minutes to be added.
+template<typename T>
+  inline double
+  __read_sec__(const char* str, char** end) noexcept
+{
+  constexpr double limit { static_cast<double>(
+    std::numeric_limits<typename T::underlying_type>::max() / 8)
+    / T::template sec_factor<double>() };
+  errno = 0;
+  const double s = std::strtod(str, end);
+  if ( !(std::abs(s) < limit) ) errno = ERANGE;
+  return s;
+}
+
 /// @brief Read from YYYY-MM-DD
 ///
 /// Read and return a date from a c-string of type: YYYY-MM-DD, where the 
@@ -140,7 +159,7 @@ template<typename T>
     }
     start = *end ? end+1 : end;
   }
-  secs = std::strtod(start, &end);
+  secs = __read_sec__<T>(start, &end);
   if (errno == ERANGE || start == end) {
     errno = 0;
     throw std::invalid_argument
@@ -205,7 +224,7 @@ template<typename T>
     start = *end ? end+1 : end;
   }
 
-  secs = std::strtod(start, &end);
+  secs = __read_sec__<T>(start, &end);
   if (errno == ERANGE || start == end) {
     errno = 0;
     throw std::invalid_argument
@@ -250,7 +269,7 @@ template<typename T>
     }
     start = *end ? end+1 : end;
   }
-  secs = std::strtod(start, &end);
+  secs = __read_sec__<T>(start, &end);
   if (errno == ERANGE || start == end) {
     errno = 0;
     throw std::invalid_argument
-- 
2.43.0


From 3efa0bb99c3eb87bd8a1d7fa66f4773145feb73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:46 +0000
Subject: [PATCH 16/25] fix: readers drop fractional seconds under a locale
 with a decimal comma

std::strtod follows the current C locale, the format read does not.
---
 src/datetime_read.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/datetime_read.hpp b/src/datetime_read.hpp
index 597d4cb..a0b106a 100644
--- a/src/datetime_read.hpp
+++ b/src/datetime_read.hpp
@@ -16,6 +16,8 @@
 
 #include <cerrno>
 #include <climits>
+#include <clocale>        // for newlocale
+#include <stdlib.h>       // for strtod_l
 #include <cmath>          // for std::abs(double)
 #include <cstdlib>
 #include <limits>
@@ -55,7 +57,10 @@ template<typename T>
     std::numeric_limits<typename T::underlying_type>::max() / 8)
     / T::template sec_factor<double>() };
   errno = 0;
-  const double s = std::strtod(str, end);
+  // the decimal point is always '.', whatever the current C locale says
+  const locale_t c_locale = ::newlocale(LC_ALL_MASK, "C", nullptr);
+  const double s = ::strtod_l(str, end, c_locale);
+  ::freelocale(c_locale);
   if ( !(std::abs(s) < limit) ) errno = ERANGE;
   return s;
 }
-- 
2.43.0


From c7acda14e04da30227f2cd8eee5d33686cf5bd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:46 +0000
Subject: [PATCH 17/25] fix: text of a date-time depends on the global C++
 locale

E.g. the year was written with a thousands separator, or the seconds with a
decimal comma, which the readers cannot read back.
---
 src/datetime_write.hpp | 3 +++
 src/dtcalendar.hpp     | 1 +
 2 files changed, 4 insertions(+)

diff --git a/src/datetime_write.hpp b/src/datetime_write.hpp
index f9c0a63..3aeb393 100644
--- a/src/datetime_write.hpp
+++ b/src/datetime_write.hpp
@@ -15,6 +15,7 @@
 
 #include <iostream>
 #include <iomanip>
+#include <locale>
 #include <sstream>
 #include <stdexcept>
 #include "dtfund.hpp"
@@ -28,6 +29,7 @@ inline std::string
 _d2s_(double d, int n=2) noexcept
 {
   std::stringstream stream;
+  stream.imbue(std::locale::classic());
   stream << std::fixed << std::setprecision(n) << d;
   return stream.str();
 }
@@ -37,6 +39,7 @@ inline std::string
 _i2s_(int i, int w=2) noexcept
 {
   std::stringstream stream;
+  stream.imbue(std::locale::classic());
   stream << std::setfill('0') << std::setw(w) << i;
   return stream.str();
 }
diff --git a/src/dtcalendar.hpp b/src/dtcalendar.hpp
index 9bf348f..bc7f966 100644
--- a/src/dtcalendar.hpp
+++ b/src/dtcalendar.hpp
@@ -749,6 +749,7 @@ public:
     S st { std::get<3>(hms) };
     double fsec { st.as_underlying_type() / S::template sec_factor<double>() };
     std::ostringstream out;
+    out.imbue(std::locale::classic());
     out << std::fixed << std::setprecision(9) 
         << (fsec + static_cast<double>(std::get<2>(hms).as_underlying_type()));
 
-- 
2.43.0


From 256faa48f94d2397f4c08a0fbd9d1c622b9e9631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:39 +0000
Subject: [PATCH 18/25] fix: readers of date and time report the end one
 character too far

As documented (and as strptime_ymd and strptime_ydoy do), stop is the last
character interpreted.
---
 src/datetime_read.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/datetime_read.hpp b/src/datetime_read.hpp
index a0b106a..a8cc8fa 100644
--- a/src/datetime_read.hpp
+++ b/src/datetime_read.hpp
@@ -170,7 +170,7 @@ template<typename T>
     throw std::invalid_argument
       ("Invalid date format: \""+std::string(str)+"\" (argument #6)");
   }
-  if (stop) *stop = end;
+  if (stop) *stop = end - 1;
   return datetime<T> {year{ints[0]},
     month{ints[1]},
     day_of_month{ints[2]},
@@ -236,7 +236,7 @@ template<typename T>
       ("Invalid date format: \"" + std::string(str) + "\" (argument #6)");
   }
 
-  if (stop) *stop = end;
+  if (stop) *stop = end - 1;
 
   return datetime<T> {year{ints[0]},
     mnt,
@@ -280,7 +280,7 @@ template<typename T>
     throw std::invalid_argument
       ("Invalid date format: \""+std::string(str)+"\" (argument #5)");
   }
-  if (stop) *stop = end;
+  if (stop) *stop = end - 1;
   return datetime<T> {year{ints[0]},
     day_of_year{ints[1]},
     hours{ints[2]},
-- 
2.43.0


From d2575ac8be80a38bbcbfa8329208f226b25ad69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:31 +0000
Subject: [PATCH 19/25] fix: month names do not depend on the C locale's case
 rules

---
 src/dtfund.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/dtfund.cpp b/src/dtfund.cpp
index d8f9313..a344da7 100644
--- a/src/dtfund.cpp
+++ b/src/dtfund.cpp
@@ -82,12 +82,18 @@ ngpt::cal2mjd(ngpt::year y, ngpt::month m, ngpt::day_of_month d)
   return ngpt::modified_julian_day{mjd};
 }
 
+/// Lower case of an ASCII letter, whatever the current C locale says (e.g. in a
+/// turkish locale, std::tolower('I') is not 'i').
+static char
+__ascii_lower__(char c) noexcept
+{ return (c >= 'A' && c <= 'Z') ? static_cast<char>(c - 'A' + 'a') : c; }
+
 int
 __lower_strncmp__(const char *str1, const char *str2, std::size_t n=0)
 {
   if (!n) n = std::max(std::strlen(str1), std::strlen(str2));
   for (std::size_t i = 0; i < n; i++) 
-    if ( !(std::tolower(str1[i]) == std::tolower(str2[i])) ) 
+    if ( !(__ascii_lower__(str1[i]) == __ascii_lower__(str2[i])) ) 
       return 1;
   return 0;
 }
-- 
2.43.0


From cc555322185eb8464efa3a12735cc5a07d0776fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:31 +0000
Subject: [PATCH 20/25] fix: strptime_yod_hms does not depend on the C locale's
 idea of a letter

---
 src/datetime_read.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/datetime_read.hpp b/src/datetime_read.hpp
index a8cc8fa..3abea48 100644
--- a/src/datetime_read.hpp
+++ b/src/datetime_read.hpp
@@ -21,7 +21,6 @@
 #include <cmath>          // for std::abs(double)
 #include <cstdlib>
 #include <limits>
-#include <cctype>         // for std::isalpha
 #include <cstring>        // for std::strncpy
 #include <stdexcept>
 #include "dtfund.hpp"
@@ -209,11 +208,11 @@ template<typename T>
   }
   start = *end ? end+1 : end;
 
-  if ( *start && !std::isalpha(*start) ) ++start;
+  // only ASCII letters, whatever the current C locale says
+  if ( *start && !((*start >= 'A' && *start <= 'Z')
+                || (*start >= 'a' && *start <= 'z')) ) ++start;
+  // the month name is matched case-insensitively
   std::strncpy(month_str, start, 3);
-  month_str[0] = std::toupper(month_str[0]);
-  month_str[1] = std::tolower(month_str[1]);
-  month_str[2] = std::tolower(month_str[2]);
   month mnt {month_str};
   start += 3;
   if (*start) ++start;
-- 
2.43.0


From 9a969ba5fc0c954ee4551c8a8d2302166741f34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:48 +0000
Subject: [PATCH 21/25] fix: modified_julian_day plus/minus a floating point
 number compiled and dropped the fraction

---
 src/dtfund.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dtfund.hpp b/src/dtfund.hpp
index b03af47..552a757 100644
--- a/src/dtfund.hpp
+++ b/src/dtfund.hpp
@@ -744,10 +744,10 @@ public:
   /// the "-" operator. Now the "-" can only work if the right-hand-side is
   /// a modified_julian_day instance.
   /// 
-  /// @tparam     I    Any integral type
+  /// @tparam     I    Any arithmetic type
   /// @param[in] _intv Any instance of type I
   template<typename I,
-           typename = std::enable_if_t<std::is_integral_v<I>>
+           typename = std::enable_if_t<std::is_arithmetic_v<I>>
            >
   inline constexpr modified_julian_day
   operator-(I _intv) const noexcept = delete;
@@ -772,10 +772,10 @@ public:
   /// the "+" operator. Now the "+" can only work if the right-hand-side is
   /// a modified_julian_day instance.
   /// 
-  /// @tparam     I    Any integral type
+  /// @tparam     I    Any arithmetic type
   /// @param[in] _intv Any instance of type I
   template<typename I,
-           typename = std::enable_if_t<std::is_integral_v<I>>
+           typename = std::enable_if_t<std::is_arithmetic_v<I>>
            >
   inline constexpr modified_julian_day
   operator+(I _intv) const noexcept = delete;
-- 
2.43.0


From cbe037f229916986de9bfc1703dacfe885820a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:13 +0000
Subject: [PATCH 22/25] fix: fractional seconds beyond 2^51 ticks gained a tick

---
 src/dtfund.hpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/dtfund.hpp b/src/dtfund.hpp
index 552a757..96a24df 100644
--- a/src/dtfund.hpp
+++ b/src/dtfund.hpp
@@ -115,15 +115,25 @@ is_leap(int iy) noexcept
 ///
 /// Anything finer than one tick is dropped. The binary representation of a
 /// decimal number of seconds can be (very slightly) smaller than that number,
-/// e.g. 1.001*1000 is 1000.9999999999999; this error must not cost a tick.
+/// e.g. 1.001*1000 is 1000.9999999999999; this error must not cost a tick: if
+/// fs is the representation of one more tick, then it is one more tick. Numbers
+/// of ticks from 2^53 on are beyond the precision of a double.
 ///
 /// @param[in] fs  Fractional seconds
 /// @param[in] tps Ticks per second
 inline constexpr long
-__fractional_sec_to_ticks__(double fs, double tps) noexcept
+__fractional_sec_to_ticks__(double fs, long tps) noexcept
 {
-  return static_cast<long>(fs * tps
-         * (1e0 + 2e0 * std::numeric_limits<double>::epsilon()));
+  const double dtps  { static_cast<double>(tps) };
+  const long   whole { static_cast<long>(fs) };
+  const long   ticks { whole * tps
+                     + static_cast<long>((fs - static_cast<double>(whole)) * dtps) };
+  if (ticks <= -(1L << 53) || ticks >= (1L << 53)) return ticks;
+  const long   one   { fs < 0e0 ? -1L : 1L };
+  const double afs   { fs < 0e0 ? -fs : fs };
+  if (static_cast<double>((ticks + one) * one) / dtps <= afs) return ticks + one;
+  if (static_cast<double>(ticks * one) / dtps > afs) return ticks - one;
+  return ticks;
 }
 
 /// @brief Transform a calendar date to modified_julian_day.
@@ -1376,7 +1386,7 @@ public:
   /// the fs input argument).
   explicit constexpr
   milliseconds(hours h, minutes m, double fs) noexcept
-    : m_sec{ __fractional_sec_to_ticks__(fs, sec_factor<double>())
+    : m_sec{ __fractional_sec_to_ticks__(fs, sec_factor<underlying_type>())
              + (m.as_underlying_type()*60L + h.as_underlying_type()*3600L)
              * sec_factor<underlying_type>()}
   {
@@ -1616,7 +1626,7 @@ public:
   ///       up to 10e-6.
   explicit constexpr
   microseconds(hours h, minutes m, double fs) noexcept
-    : m_sec{ __fractional_sec_to_ticks__(fs, sec_factor<double>())
+    : m_sec{ __fractional_sec_to_ticks__(fs, sec_factor<underlying_type>())
             + (m.as_underlying_type()*60L
             + h.as_underlying_type()*3600L) * sec_factor<underlying_type>() }
   {};
-- 
2.43.0


From 3499b8092eb0501e4cfc018253c9f6f8e8007370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:06 +0000
Subject: [PATCH 23/25] fix: members declared constexpr that no constant
 expression could call

---
 src/dtcalendar.hpp | 8 ++++----
 src/dtfund.hpp     | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/dtcalendar.hpp b/src/dtcalendar.hpp
index bc7f966..d327c3a 100644
--- a/src/dtcalendar.hpp
+++ b/src/dtcalendar.hpp
@@ -98,13 +98,13 @@ public:
 
   /// Get the number of days of the instance.
   /// @return The number of days in the instance, as ngpt::modified_julian_day
-  modified_julian_day
+  constexpr modified_julian_day
   days() const noexcept
   { return m_days; }
     
   /// Get the number of *seconds (as type S) of the instance.
   /// @return The number of *seconds (as type S) of the instance.
-  S
+  constexpr S
   sec() const noexcept
   { return m_secs; }
     
@@ -392,7 +392,7 @@ public:
   }
     
   /// Constructor from modified julian day, and second type S.
-  explicit
+  explicit constexpr
   datetime(modified_julian_day mjd, S sec=S()) noexcept
     : m_mjd{mjd},
       m_sec{sec}
@@ -417,7 +417,7 @@ public:
   
   /// Get the number of *seconds (as type S) of the instance.
   /// @return The number of *seconds (as type S) of the instance.
-  S
+  constexpr S
   sec() const noexcept
   { return m_sec; }
     
diff --git a/src/dtfund.hpp b/src/dtfund.hpp
index 96a24df..3c97f50 100644
--- a/src/dtfund.hpp
+++ b/src/dtfund.hpp
@@ -2083,7 +2083,7 @@ template<typename S,
 template<typename S,
         typename = std::enable_if_t<S::is_of_sec_type>
         >
-  inline S
+  inline constexpr S
   mjd_sec_diff(modified_julian_day d1, modified_julian_day d2) noexcept
 {
   modified_julian_day d {d1-d2};
@@ -2115,7 +2115,7 @@ template<typename Ssrc,
          typename = std::enable_if_t<Ssrc::is_of_sec_type>,
          typename = std::enable_if_t<Strg::is_of_sec_type>
         >
-  inline Strg
+  inline constexpr Strg
   cast_to(Ssrc s) noexcept
 {
   // this is tricky! We must first compute the numerator and then the fraction.
-- 
2.43.0


From 422ff083819016485747071b3dbb508624e619f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:50 +0000
Subject: [PATCH 24/25] fix: dat(year, month) overflowed an int for years from
 178956970 on

The month count 12*year+month does not fit an int for late years; it became
negative and the table was read before its first entry. Count in long.
---
 src/dat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dat.cpp b/src/dat.cpp
index 5fd60f7..8301899 100644
--- a/src/dat.cpp
+++ b/src/dat.cpp
@@ -74,7 +74,7 @@ ngpt::dat(ngpt::year iy, ngpt::month im) noexcept
   constexpr int NDAT { (int) (sizeof changes / sizeof changes[0]) };
 
   // Combine year and month to form a date-ordered integer...
-  int m = 12*iy.as_underlying_type() + im.as_underlying_type();
+  long m = 12L*iy.as_underlying_type() + im.as_underlying_type();
   // ...and use it to find the preceding table entry.
   int idx = NDAT-1;
   for (; idx >= 0; idx--) {
-- 
2.43.0


From 08434827417b140a7002b1c38a087dfe658a1a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:50 +0000
Subject: [PATCH 25/25] fix: a year before 0 was formatted with its sign after
 the padding

strftime_ymd_hmfs and strftime_ymd_hms wrote year -5 as "00-5". Put the
padding after the sign ("-005").
---
 src/datetime_write.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/datetime_write.hpp b/src/datetime_write.hpp
index 3aeb393..8e39c9d 100644
--- a/src/datetime_write.hpp
+++ b/src/datetime_write.hpp
@@ -34,13 +34,14 @@ _d2s_(double d, int n=2) noexcept
   return stream.str();
 }
 
-/// Format a double to an std::string with a width of w chars
+/// Format an int to an std::string with a width of w chars, padded with zeros
+/// (a minus sign, if any, comes first, e.g. "-005")
 inline std::string
 _i2s_(int i, int w=2) noexcept
 {
   std::stringstream stream;
   stream.imbue(std::locale::classic());
-  stream << std::setfill('0') << std::setw(w) << i;
+  stream << std::setfill('0') << std::internal << std::setw(w) << i;
   return stream.str();
 }
 
-- 
2.43.0

