// gg.hpp -- the library under test and small adapters used by every harness.
#pragma once
#include "ref.hpp"
#include "dtfund.hpp"
#include "dtcalendar.hpp"
#include "datetime_read.hpp"
#include "datetime_write.hpp"

namespace gg {
using mc::u64; using mc::i64; using mc::i128; using mc::fmt; using mc::Ctx;
using namespace ngpt;

template<class S> struct Tr;
template<> struct Tr<seconds>      { static constexpr i64 tps = 1;       static constexpr int dig = 0; static const char* name() { return "seconds"; } };
template<> struct Tr<milliseconds> { static constexpr i64 tps = 1000;    static constexpr int dig = 3; static const char* name() { return "milliseconds"; } };
template<> struct Tr<microseconds> { static constexpr i64 tps = 1000000; static constexpr int dig = 6; static const char* name() { return "microseconds"; } };
template<class S> constexpr i64 day_ticks() { return 86400 * Tr<S>::tps; }

template<class Q> inline i64 val(const Q& q) { return (i64)q.as_underlying_type(); }
template<class S> inline datetime<S> mk(i64 mjd, i64 ticks) { return datetime<S>{modified_julian_day{(long)mjd}, S{(long)ticks}}; }
template<class S> inline i128 inst(const datetime<S>& t) { return ref::inst(val(t.mjd()), val(t.sec()), Tr<S>::tps); }
template<class S> inline std::string str(const datetime<S>& t) { return fmt("(mjd %lld, %lld %s)", val(t.mjd()), val(t.sec()), Tr<S>::name()); }
template<class S> inline bool normal(const datetime<S>& t) { i64 v = val(t.sec()); return v >= 0 && v < day_ticks<S>(); }

// days every property looks at: epochs, leap days, century ends, leap-second
// dates, the ends of the supported range, both sides of each.
inline const std::vector<i64>& day_alphabet() {
  static std::vector<i64> v = [] {
    std::set<i64> s;
    i64 c[] = {0, 51544, 44244, 41317, 57754, 15020, 15385, ref::to_mjd(1, 1, 1), ref::to_mjd(0, 2, 29), ref::to_mjd(-4799, 1, 1) + 1,
               ref::to_mjd(1900, 2, 28), ref::to_mjd(2000, 2, 29), ref::to_mjd(2004, 2, 29), ref::to_mjd(2100, 3, 1), ref::to_mjd(1600, 12, 31),
               ref::to_mjd(9999, 12, 31), 44786, 50083, 56109, 57204, 58000, ref::to_mjd(2038, 1, 19), ref::to_mjd(2019, 4, 7), ref::to_mjd(1999, 8, 22),
               1000000, ref::to_mjd(40000, 3, 1)};
    for (i64 d : c) { s.insert(d - 1); s.insert(d); s.insert(d + 1); }
    return std::vector<i64>(s.begin(), s.end());
  }();
  return v;
}
// days far outside the calendar: around every power of two, and where a day count in ticks leaves a long
// lo .. hi, each value num/den times the one before: thresholds that are no power of two or ten
inline std::vector<i64> ladder(i64 lo, i64 hi, int num, int den) { std::vector<i64> r; for (i128 x = lo; x <= (i128)hi; x = x * num / den > x ? x * num / den : x + 1) r.push_back((i64)x); return r; }
inline const std::vector<i64>& far_days() {
  static std::vector<i64> v = [] {
    std::set<i64> s; auto in = [&](i64 d) { for (i64 e = -1; e <= 1; ++e) { s.insert(d + e); s.insert(-(d + e)); } };
    for (int k = 20; k <= 62; ++k) in(k < 62 ? 1LL << k : (1LL << 62) - 2);
    for (i64 u : {1LL, 1000LL, 1000000LL}) for (i64 k : {1LL, 2LL, 4LL}) { in(9223372036854775807LL / (86400 * u) / k); in((9223372036854775807LL / (86400 * u) - 51544) / k); }
    in(100000000LL); in(1000000000LL); in(10000000000LL); in(1000000000000LL);
    for (i64 d : ladder(1 << 20, 1LL << 62, 4, 3)) { s.insert(d); s.insert(-d); }
    return std::vector<i64>(s.begin(), s.end());
  }();
  return v;
}
// years after 9999 to the limit of int
inline const std::vector<i64>& far_years() { static auto v = [] { std::set<i64> s; for (int k = 14; k < 31; ++k) for (i64 e = -1; e <= 1; ++e) s.insert((1LL << k) + e);
  for (i64 p = 10000; p < 2147000000; p *= 10) for (i64 e = 0; e <= 1; ++e) { s.insert(p + e); if (p > 10000) s.insert(p - 1); } for (i64 y : ladder(10000, 2147479547, 103, 100)) s.insert(y); s.insert(2147479547); return std::vector<i64>(s.begin(), s.end()); }(); return v; }
// boundary times of day in ticks of S
template<class S> inline const std::vector<i64>& tod_alphabet() {
  static std::vector<i64> v = [] {
    std::set<i64> s; const i64 u = Tr<S>::tps, D = day_ticks<S>();
    i64 secs[] = {0, 1, 59, 60, 61, 3599, 3600, 3661, 43199, 43200, 45296, 82800, 86339, 86340, 86399};
    for (i64 x : secs) { s.insert(x * u); s.insert(x * u + u - 1); if (u > 1) { s.insert(x * u + 1); s.insert(x * u + u / 2); } }
    if (u == 1000000) for (i64 x : secs) { s.insert(x * u + 999); s.insert(x * u + 1000); s.insert(x * u + 999000); s.insert(x * u + 123456); }
    if (u == 1000) for (i64 x : secs) s.insert(x * u + 123);
    for (auto it = s.begin(); it != s.end();) if (*it < 0 || *it >= D) it = s.erase(it); else ++it;
    return std::vector<i64>(s.begin(), s.end());
  }();
  return v;
}
// amounts of time in ticks of S: zero, units, around every carry, many days, both signs
template<class S> inline const std::vector<i64>& amt_alphabet() {
  static std::vector<i64> v = [] {
    std::set<i64> s; const i64 u = Tr<S>::tps, D = day_ticks<S>();
    i64 base[] = {0, 1, 2, u - 1, u, u + 1, 59 * u, 60 * u, 3599 * u, 3600 * u, 3661 * u, 43200 * u, D - u, D - 1, D, D + 1, D + u, 2 * D - 1, 2 * D, 2 * D + 1,
                  3 * D, 7 * D - 1, 7 * D, 7 * D + 1, 30 * D, 365 * D, 366 * D + 12345, 36524 * D + 1, 36525 * D, 400 * 365 * D + 97 * D - 1, 2147483647, 2147483648, 4294967295, 4294967296};
    for (i64 x : base) { s.insert(x); s.insert(-x); }
    return std::vector<i64>(s.begin(), s.end());
  }();
  return v;
}
#define GG_EACH_SEC(F) F(ngpt::seconds) F(ngpt::milliseconds) F(ngpt::microseconds)
}  // namespace gg
