// C23: constant expressions of one group (-DGROUP=n) and the same expressions at run time
#include "C23.hpp"
#include "dtfund.hpp"
#include "dtcalendar.hpp"
using namespace ngpt;
#ifndef GROUP
#define GROUP 0
#endif
#ifndef DEPTH
#define DEPTH 0
#endif
constexpr long bits(double x) { return __builtin_bit_cast(long, x); }
template<class T> constexpr long val(T x) { return static_cast<long>(x.as_underlying_type()); }
constexpr long mixl(long h, long v) { return static_cast<long>((static_cast<unsigned long>(h) * 0x9e3779b97f4a7c15ul + static_cast<unsigned long>(v)) ^ (static_cast<unsigned long>(h) >> 29)); }
// ---------------------------------------------------------------- alphabets
constexpr long SMALL[] = {0, 1, -1, 2, 3, 4, 5, 6, 7, 12, 13, 23, 24, 25, 28, 29, 30, 31, 32, 48, 59, 60, 61, 96, 100, 365, 366, 367, 400, 1000, 1440, 1441, 1582, 1899, 1900, 1901, 1999, 2000, 2001, 2016, 2100, 2400, 3600, 9999, 86399, 86400, 86401,
  -2, -3, -4, -7, -12, -24, -31, -60, -61, -100, -365, -366, -400, -4800, 32767, 32768, 65535, 65536, -32768, -32769, 44244, 51544, 58000, 1000000, -1000000, 536870912, -536870912, 1073741822, -1073741823};
constexpr long BIG[] = {0, 1, -1, 2, 7, 59, 60, 61, 365, 366, 999, 1000, 1001, 3599, 3600, 3601, 86399, 86400, 86401, 172800, 999999, 1000000, 1000001, 3599999, 3600000, 86399999, 86400000, 86400001, 172800000, 3599999999, 3600000000, 86399999999, 86400000000, 86400000001, 172799999999,
  -2, -7, -59, -60, -999, -1000, -1001, -3600, -86399, -86400, -86401, -1000000, -86399999, -86400000, -86400001, -86399999999, -86400000000, -86400000001, 44244, 51544, 58000, 57754, 15385, -678576, 2973483, 1L << 31, (1L << 31) - 1, -(1L << 31), -(1L << 31) - 1, (1L << 32) + 5, 1L << 40, -(1L << 40), 1L << 52, (1L << 53) + 1, -(1L << 53) - 1, 1L << 57, -(1L << 57)
#if DEPTH
  , 3, 4, 5, 6, 8, 9, 10, 11, 12, 31, 32, 33, 99, 100, 101, 364, 367, 1440, 1461, 3661, 7200, 9999, 10000, 36524, 36525, 43200, 60000, 61000, 146097, 604799, 604800, 604801, 86399000, 86399999 + 86400000L, 604800000, 604800000000, 7200000, 43200000000, 1234567890123, -1234567890123, 41317, 44243, 41499, 51543, 51545, 57753,
  -3, -10, -31, -86402, -172800, -172801, -604800, -604801, -3600000, -3600000000, -172800000, -172800000000, -604800000000, -1L << 20, 1L << 20, (1L << 24) - 1, (1L << 33) - 1, 1L << 36, (1L << 44) + 1, -(1L << 44), 1L << 48, 1L << 55, -(1L << 55) + 1, 1000000000000000, -1000000000000000, 86400L * 1000000 * 365, 86400L * 1000000 * 36525 - 1
#endif
};
// ---------------------------------------------------------------- a quantity
template<class Q> struct more { static constexpr long f(int, Q, Q, long) { return 0; } };
template<class Q, bool ASSIGN> struct quantity {
  static constexpr const char* ops[] = {"as_underlying_type()", "==", "!=", "<", "<=", ">", ">=", "+= (same type)", "+= (integer)", "-= (same type)", "-= (integer)", "++x", "x++", "--x", "x--", "= (integer)", "default value", "further member 1", "further member 2", "further member 3"};
  static constexpr long f(int op, long a, long b) {
    typedef typename Q::underlying_type U;
    Q x{static_cast<U>(a)}, y{static_cast<U>(b)}; const U n = static_cast<U>(b);
    switch (op) {
      case 0: return val(x);
      case 1: return x == y; case 2: return x != y; case 3: return x < y; case 4: return x <= y; case 5: return x > y; case 6: return x >= y;
      case 7: { long r = val(x += y); return mixl(r, val(x)); }
      case 8: { long r = val(x += n); return mixl(r, val(x)); }
      case 9: { long r = val(x -= y); return mixl(r, val(x)); }
      case 10: { long r = val(x -= n); return mixl(r, val(x)); }
      case 11: { long r = val(++x); return mixl(r, val(x)); }
      case 12: { long r = val(x++); return mixl(r, val(x)); }
      case 13: { long r = val(--x); return mixl(r, val(x)); }
      case 14: { long r = val(x--); return mixl(r, val(x)); }
      case 15: if constexpr (ASSIGN) { x = n; } return val(x);
      case 16: { Q z{}; return val(z); }
      default: return more<Q>::f(op, x, y, b);
    }
  }
};
template<> struct more<year> { static constexpr long f(int op, year x, year, long) { return op == 17 ? x.is_leap() : op == 18 ? ngpt::is_leap(x.as_underlying_type()) : 0; } };
template<> struct more<day_of_year> { static constexpr long f(int op, day_of_year x, day_of_year y, long) { return op == 17 ? x.is_valid(year{y.as_underlying_type()}) : 0; } };
template<> struct more<hours> { static constexpr long f(int op, hours x, hours, long) { if (op == 17) { long r = x.remove_days(); return mixl(r, val(x)); } return 0; } };
template<class Q> struct plusminus { static constexpr long f(int op, Q x, Q y, long) { return op == 17 ? val(x + y) : op == 18 ? val(x - y) : 0; } };
template<> struct more<modified_julian_day> { static constexpr long f(int op, modified_julian_day x, modified_julian_day y, long n) { return op == 19 ? (val(modified_julian_day::max()) & 0xffff) + val(modified_julian_day::min()) : plusminus<modified_julian_day>::f(op, x, y, n); } };
template<> struct more<seconds> : plusminus<seconds> { };
template<> struct more<milliseconds> : plusminus<milliseconds> { };
template<> struct more<microseconds> : plusminus<microseconds> { };
// ---------------------------------------------------------------- literals, dates, constants
struct rest {
  static constexpr const char* ops[] = {"_Y", "_M", "_D", "_h", "_m", "_sec", "_millisec", "_microsec", "ymd_date", "ydoy_date", "max_days_allowed", "sec_factor", "max_in_day", "is_of_sec_type, is_dt_fundamental_type", "numbers of the namespace", "day_of_week"};
  static constexpr long f(int op, long a, long b) {
    const unsigned long long u = static_cast<unsigned long long>(a < 0 ? -a : a);
    switch (op) {
      case 0: return val(ngpt::operator""_Y(u)); case 1: return val(ngpt::operator""_M(u)); case 2: return val(ngpt::operator""_D(u)); case 3: return val(ngpt::operator""_h(u)); case 4: return val(ngpt::operator""_m(u));
      case 5: return val(ngpt::operator""_sec(u)); case 6: return val(ngpt::operator""_millisec(u)); case 7: return val(ngpt::operator""_microsec(u));
      case 8: { ymd_date d{year{static_cast<int>(a)}, month{static_cast<int>(b)}, day_of_month{static_cast<int>(a - b)}}; return mixl(mixl(val(d.__year), val(d.__month)), val(d.__dom)); }
      case 9: { ydoy_date d{year{static_cast<int>(a)}, day_of_year{static_cast<int>(b)}}; return mixl(val(d.__year), val(d.__doy)); }
      case 10: return mixl(mixl(max_days_allowed<seconds>(), max_days_allowed<milliseconds>()), max_days_allowed<microseconds>());
      case 11: return mixl(mixl(mixl(mixl(seconds::sec_factor<long>(), milliseconds::sec_factor<long>()), microseconds::sec_factor<long>()), bits(seconds::sec_factor<double>())), mixl(bits(milliseconds::sec_factor<double>()), bits(microseconds::sec_factor<double>())));
      case 12: return mixl(mixl(seconds::max_in_day, milliseconds::max_in_day), microseconds::max_in_day);
      case 13: return seconds::is_of_sec_type && milliseconds::is_of_sec_type && microseconds::is_of_sec_type && year::is_dt_fundamental_type && month::is_dt_fundamental_type && modified_julian_day::is_dt_fundamental_type && hours::is_dt_fundamental_type;
      case 14: return mixl(mixl(mixl(jan61980, jan11901), mixl(bits(sec_per_day), bits(j2000_jd))), mixl(mixl(bits(j2000_mjd), bits(mjd0_jd)), mixl(mixl(bits(tt_minus_tai), bits(days_in_julian_year)), bits(days_in_julian_cent))));
      case 15: { const long s = (a < 0 ? -a : a) % 604800; return mixl(mixl(day_of_week(seconds{s}), day_of_week(milliseconds{s * 1000 + 999})), day_of_week(microseconds{s * 1000000 + 999999})); }
    }
    return 0;
  }
};
// ---------------------------------------------------------------- a second type
constexpr int hour_of(long a) { return static_cast<int>(a % 1000); }
constexpr int minute_of(long a) { return static_cast<int>(a / 7 % 100); }
template<class S> struct second_type {
  template<class T> static constexpr bool fits(long a) { const long k = T::max_in_day > S::max_in_day ? T::max_in_day / S::max_in_day : 1; return a < (1L << 60) / k && a > -(1L << 60) / k; }
  static constexpr const char* ops[] = {"to_days()", "more_than_day()", "fractional_days()", "to_fractional_seconds()", "to_hmsf() hours", "to_hmsf() minutes", "to_hmsf() seconds", "to_hmsf() ticks", "remove_days()", "(hours, minutes, ticks)", "(hours, minutes, fractional seconds)", "explicit conversion", "resolve_sec()", "cast_to seconds", "cast_to milliseconds", "cast_to microseconds", "mjd_sec_diff"};
  static constexpr long f(int op, long a, long b) {
    S x{a}; const long D = S::max_in_day;
    const bool days = a / D < 2147483647L && a / D > -2147483647L, hrs = a / (D / 24) < 2147483647L && a / (D / 24) > -2147483647L;
    switch (op) {
      case 0: return days ? x.to_days() : 0;
      case 1: return x.more_than_day();
      case 2: return bits(x.fractional_days());
      case 3: return bits(x.to_fractional_seconds());
      case 4: return hrs ? val(std::get<0>(x.to_hmsf())) : 0;
      case 5: return hrs ? val(std::get<1>(x.to_hmsf())) : 0;
      case 6: return hrs ? val(std::get<2>(x.to_hmsf())) : 0;
      case 7: return hrs ? std::get<3>(x.to_hmsf()) : 0;
      case 8: if (!days) return 0; else { const long r = x.remove_days(); return mixl(r, val(x)); }
      case 9: return val(S{hours{hour_of(b)}, minutes{minute_of(b)}, x});
      case 10: { const double fs = static_cast<double>(a % 1000000000L) / 1000e0 + static_cast<double>(b % 1000) / 1e6; return val(S{hours{hour_of(b)}, minutes{minute_of(b)}, fs}); }
      case 11: if constexpr (std::is_same<S, milliseconds>::value) return val(static_cast<seconds>(x)); else if constexpr (std::is_same<S, microseconds>::value) return mixl(val(static_cast<seconds>(x)), val(static_cast<milliseconds>(x))); else return 0;
      case 12: if constexpr (std::is_same<S, milliseconds>::value) { double d = 0; const long r = val(x.resolve_sec(d)); return mixl(r, bits(d)); } else return 0;
      case 13: return val(ngpt::cast_to<S, seconds>(x));
      case 14: return fits<milliseconds>(a) ? val(ngpt::cast_to<S, milliseconds>(x)) : 0;
      case 15: return fits<microseconds>(a) ? val(ngpt::cast_to<S, microseconds>(x)) : 0;
      case 16: { const long n = 1L << 26; return val(mjd_sec_diff<S>(modified_julian_day{a % n}, modified_julian_day{b % n})); }
    }
    return 0;
  }
};
// ---------------------------------------------------------------- date-times: default, then add, then remove
template<class S> struct date_time {
  static constexpr long whole(const datetime<S>& t) { return mixl(val(t.mjd()), t.sec_as_i()); }
  static constexpr const char* ops[] = {"mjd()", "sec_as_i()", "as_mjd()", "as_hmsf()", "as_gps_wsow(S)", "as_gps_wsow(long)", "==", "!=", "<", "<=", ">", ">=", "delta_date()", "delta_date(,)", "min(), max()", "normalize()", "remove then add", "sec()", "delta_sec()", "+= interval", "add()", "add_seconds of seconds", "add_seconds of milliseconds", "add_seconds of microseconds", "remove_seconds of seconds", "remove_seconds of milliseconds", "remove_seconds of microseconds", "from a day and a time"};
  static constexpr long f(int op, long a, long b) {
    datetime<S> t{}; t.add_seconds(S{a}); datetime<S> u{t}; t.remove_seconds(S{b});
    const long N = 1L << 42; const long d = val(t.mjd()) - jan61980; const bool week = d / 7 < 2147483647L && d / 7 > -2147483647L;
    switch (op) {
      case 0: return val(t.mjd());
      case 1: return t.sec_as_i();
      case 2: return bits(t.as_mjd());
      case 3: { const auto q = t.as_hmsf(); return mixl(mixl(mixl(val(std::get<0>(q)), val(std::get<1>(q))), val(std::get<2>(q))), std::get<3>(q)); }
      case 4: if (!week) return 0; else { S w{0}; const long r = val(t.as_gps_wsow(w)); return mixl(r, val(w)); }
      case 5: if (!week) return 0; else { long w = 0; const long r = val(t.as_gps_wsow(w)); return mixl(r, w); }
      case 6: return t == u; case 7: return t != u; case 8: return t < u; case 9: return t <= u; case 10: return t > u; case 11: return t >= u;
      case 12: return bits(t.delta_date(u).as_mjd());
      case 13: return bits(delta_date(u, t).as_mjd());
      case 14: return mixl(mixl(val(datetime<S>::max().mjd()), datetime<S>::max().sec_as_i()), mixl(val(datetime<S>::min().mjd()), datetime<S>::min().sec_as_i()));
      case 15: t.normalize(); return mixl(val(t.mjd()), t.sec_as_i());
      case 16: t.add_seconds(S{b}); return whole(t);
      case 17: return val(t.sec());
      case 18: return val(t.delta_sec(u));
      case 19: if (b < 0) return 0; t += datetime_interval<S>{modified_julian_day{b % 100000}, S{b}}; return whole(t);
      case 20: return whole(t.add(modified_julian_day{a % 100000}, S{b}));
      case 21: t.add_seconds(seconds{b % N}); return whole(t);
      case 22: t.add_seconds(milliseconds{b % N}); return whole(t);
      case 23: t.add_seconds(microseconds{b % N}); return whole(t);
      case 24: t.remove_seconds(seconds{b % N}); return whole(t);
      case 25: t.remove_seconds(milliseconds{b % N}); return whole(t);
      case 26: t.remove_seconds(microseconds{b % N}); return whole(t);
      case 27: { const datetime<S> v{modified_julian_day{a}, S{b}}; return whole(v); }
    }
    return 0;
  }
};
template<class S> struct interval {
  static constexpr const char* ops[] = {"as_mjd()", "==", "!=", "<", "<=", ">", ">=", "normalize()", "default", "days()", "sec()"};
  static constexpr long f(int op, long a, long b) {
    datetime_interval<S> t{modified_julian_day{a}, S{b}}; const datetime_interval<S> u{modified_julian_day{a}, S{b / 2 + a % 1000}};
    switch (op) {
      case 0: return bits(t.as_mjd());
      case 1: return t == u; case 2: return t != u; case 3: return t < u; case 4: return t <= u; case 5: return t > u; case 6: return t >= u;
      case 7: t.normalize(); return bits(t.as_mjd());
      case 8: { const datetime_interval<S> z{}; return bits(z.as_mjd()); }
      case 9: return val(t.days()); case 10: return val(t.sec());
    }
    return 0;
  }
};
// ---------------------------------------------------------------- this group
template<const long* P, int N> struct alpha { static constexpr const long* p = P; static constexpr int n = N; };
typedef alpha<SMALL, sizeof SMALL / sizeof *SMALL> Small; typedef alpha<BIG, sizeof BIG / sizeof *BIG> Big;
#if GROUP == 0
typedef quantity<year, true> G; typedef Small AA; constexpr char NAME[] = "year";
#elif GROUP == 1
typedef quantity<month, false> G; typedef Small AA; constexpr char NAME[] = "month";
#elif GROUP == 2
typedef quantity<gps_week, true> G; typedef Small AA; constexpr char NAME[] = "gps_week";
#elif GROUP == 3
typedef quantity<day_of_month, true> G; typedef Small AA; constexpr char NAME[] = "day_of_month";
#elif GROUP == 4
typedef quantity<day_of_year, true> G; typedef Small AA; constexpr char NAME[] = "day_of_year";
#elif GROUP == 5
typedef quantity<modified_julian_day, true> G; typedef Big AA; constexpr char NAME[] = "modified_julian_day";
#elif GROUP == 6
typedef quantity<hours, true> G; typedef Small AA; constexpr char NAME[] = "hours";
#elif GROUP == 7
typedef quantity<minutes, true> G; typedef Small AA; constexpr char NAME[] = "minutes";
#elif GROUP == 8
typedef quantity<seconds, true> G; typedef Big AA; constexpr char NAME[] = "seconds";
#elif GROUP == 9
typedef quantity<milliseconds, true> G; typedef Big AA; constexpr char NAME[] = "milliseconds";
#elif GROUP == 10
typedef quantity<microseconds, true> G; typedef Big AA; constexpr char NAME[] = "microseconds";
#elif GROUP == 11
typedef rest G; typedef Small AA; constexpr char NAME[] = "literals, dates and constants";
#elif GROUP == 12
typedef second_type<seconds> G; typedef Big AA; constexpr char NAME[] = "members of seconds";
#elif GROUP == 13
typedef second_type<milliseconds> G; typedef Big AA; constexpr char NAME[] = "members of milliseconds";
#elif GROUP == 14
typedef second_type<microseconds> G; typedef Big AA; constexpr char NAME[] = "members of microseconds";
#elif GROUP == 15
typedef date_time<seconds> G; typedef Big AA; constexpr char NAME[] = "datetime<seconds>";
#elif GROUP == 16
typedef date_time<milliseconds> G; typedef Big AA; constexpr char NAME[] = "datetime<milliseconds>";
#elif GROUP == 17
typedef date_time<microseconds> G; typedef Big AA; constexpr char NAME[] = "datetime<microseconds>";
#elif GROUP == 18
typedef interval<seconds> G; typedef Big AA; constexpr char NAME[] = "datetime_interval<seconds>";
#elif GROUP == 19
typedef interval<milliseconds> G; typedef Big AA; constexpr char NAME[] = "datetime_interval<milliseconds>";
#elif GROUP == 20
typedef interval<microseconds> G; typedef Big AA; constexpr char NAME[] = "datetime_interval<microseconds>";
#endif
constexpr int NOPS = sizeof G::ops / sizeof *G::ops;
struct Table { long v[NOPS * AA::n * AA::n]; };
constexpr Table make() {
  Table t{};
  for (int o = 0; o < NOPS; ++o) for (int i = 0; i < AA::n; ++i) for (int j = 0; j < AA::n; ++j) t.v[(o * AA::n + i) * AA::n + j] = G::f(o, AA::p[i], AA::p[j]);
  return t;
}
#ifndef RUNTIME_ONLY
static constexpr Table table = make();
#else
static const Table table = {};
#endif
static long __attribute__((noinline)) run(int op, long a, long b) { asm volatile("" : "+r"(op), "+r"(a), "+r"(b)); return G::f(op, a, b); }
extern "C" __attribute__((visibility("default"))) void c23_group(C23Group* g) { *g = {NAME, NOPS, G::ops, AA::n, AA::p, AA::n, AA::p, table.v, run}; }
