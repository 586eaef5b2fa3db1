// C09 splitting a time of day, removing whole days, fractions.
#include "gg.hpp"
#include <cfloat>
#include <climits>
using namespace gg;

template<class T> static void fields(u64 i, const char* what, const T& q, i64 t, i64 tps, Ctx& c) {
  const i64 h = std::get<0>(q).as_underlying_type(), m = std::get<1>(q).as_underlying_type(), s = std::get<2>(q).as_underlying_type(), f = std::get<3>(q);
  if (h < 0 || h > 23 || m < 0 || m > 59 || s < 0 || s > 59 || f < 0 || f >= tps || ((h * 60 + m) * 60 + s) * tps + f != t)
    c.fail(i, "C09", "%s of %lld ticks (%lld per second): %lld h %lld min %lld s %lld", what, t, tps, h, m, s, f);
}
template<class S> static inline void hmsf(u64 i, i64 t, Ctx& c) { fields(i, "to_hmsf", S{(long)t}.to_hmsf(), t, Tr<S>::tps, c); }
static bool close(double g, long double e) { long double d = (long double)g - e; if (d < 0) d = -d; return d <= 4 * (long double)DBL_EPSILON * (e < 0 ? -e : e); }

template<class S> static void sec_only(u64 i, i64 x, Ctx& c) {
  if constexpr (std::is_same<S, milliseconds>::value) {
    double f = -7; const S a{(long)x}; const i64 s = val(a.resolve_sec(f)); c.tr();
    long double r = (long double)(x - s * 1000) / 1000;
    if (x / 1000 != s && s * 1000 > x) c.fail(i, "C09", "resolve_sec of %lld ms: %lld s", x, s);
    if (!(f > -1 && f < 1) || x - s * 1000 <= -1000 || x - s * 1000 >= 1000 || !close(f, r)) c.fail(i, "C09", "resolve_sec of %lld ms: %lld s and %.17g", x, s, f);
  }
}
template<class S> static void amount(u64 i, i64 x, Ctx& c) {
  const i64 D = day_ticks<S>();
  if (x / D <= INT_MAX && x / D >= INT_MIN) {
    S a{(long)x}; const i64 n = a.remove_days(), r = val(a); c.tr();
    if ((i128)n * D + r != x || r <= -D || r >= D || (x >= 0 && r < 0)) c.fail(i, "C09", "remove_days of %lld %s: %lld days and %lld", x, Tr<S>::name(), n, r);
    const S b{(long)x};
    if (x >= 0) { const i64 k = b.to_days(); c.tr(); if (k != n || val(b) != x) c.fail(i, "C09", "to_days of %lld %s = %lld, remove_days %lld", x, Tr<S>::name(), k, n); }
  }
  const S b{(long)x};
  const double fd = b.fractional_days(), fs = b.to_fractional_seconds(); c.tr(3);
  if (!close(fd, (long double)x / (long double)D)) c.fail(i, "C09", "fractional_days of %lld %s = %.17g", x, Tr<S>::name(), fd);
  if (!close(fs, (long double)x / (long double)Tr<S>::tps)) c.fail(i, "C09", "to_fractional_seconds of %lld %s = %.17g", x, Tr<S>::name(), fs);
  if (b.more_than_day() != (x > D)) c.fail(i, "C09", "more_than_day of %lld %s = %d", x, Tr<S>::name(), (int)b.more_than_day());
  sec_only<S>(i, x, c); c.st();
}
template<class S> static const std::vector<i64>& extremes() {
  static auto v = [] { std::set<i64> s; const i64 D = day_ticks<S>(), u = Tr<S>::tps;
    auto add = [&](i128 z) { for (i64 e = -2; e <= 2; ++e) { i128 q = z + e; if (q > LONG_MIN && q <= LONG_MAX) { s.insert((i64)q); s.insert((i64)-q); } } };
    for (int b = 0; b < 64; ++b) add((i128)1 << b);
    for (i128 n = 0; n <= 800; ++n) { add(n * D); add(n * D + u); add(n * D - u); add(n * D + D / 2); }
    for (i128 n : {36525LL, 146097LL, 1000000LL, 106751991LL, 2147483646LL, 2147483647LL}) { add(n * D); add(n * D + u); add(n * D + D - 1); }
    for (i64 n : ladder(800, LONG_MAX / D, 51, 50)) if (n < 2147483647LL) { add((i128)n * D); s.insert(n * D + D - 1); s.insert(-n * D - D + 1); s.insert(n * D + u); s.insert(n * D + D / 2); }
    add(LONG_MAX); for (i64 x : amt_alphabet<S>()) add(x);
    return std::vector<i64>(s.begin(), s.end()); }();
  return v;
}
template<class S> static void spaces() {
  auto& R = mc::R(); const std::string nm = Tr<S>::name(); const bool us = Tr<S>::tps == 1000000;
  const i64 st = us && !mc::g_thorough ? 53 : 1;
  R.add("hmsf-" + nm, fmt("to_hmsf of %s time of day%s", st == 1 ? "every" : "every 53rd", us ? " (and of every boundary one)" : ""), 864, 4,
        [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); for (int q = 0; q < 100; ++q) { const i64 s0 = ((i64)i * 100 + q) * Tr<S>::tps; u64 n = 0;
            for (i64 t = s0; t < s0 + Tr<S>::tps; t += st) { hmsf<S>(i, t, c); ++n; }
            hmsf<S>(i, s0, c); hmsf<S>(i, s0 + Tr<S>::tps - 1, c); c.st(n); c.tr(n); c.beat(); } c.out(i); } },
        [=](u64 i) { return fmt("100 seconds from %llu", i * 100); });
  R.add("as_hmsf-" + nm, "as_hmsf of date-times: boundary days x boundary times of day", day_alphabet().size(), 8,
        [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); for (i64 t : tod_alphabet<S>()) { c.st(); c.tr(); fields(i, "as_hmsf", mk<S>(day_alphabet()[i], t).as_hmsf(), t, Tr<S>::tps, c); c.out(t); } } },
        [=](u64 i) { return fmt("mjd %lld", day_alphabet()[i]); });
  const i64 dst = us ? 10007 : Tr<S>::tps == 1000 && !mc::g_thorough ? 7 : 1;
  R.add("as_hmsf-day-" + nm, fmt("as_hmsf of date-times: every %lld. tick of one day", dst), 864, 4,
        [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); for (i64 t = (i64)i * 100 * Tr<S>::tps; t < ((i64)i + 1) * 100 * Tr<S>::tps; t += dst) { c.st(); c.tr(); fields(i, "as_hmsf", mk<S>(51544, t).as_hmsf(), t, Tr<S>::tps, c); } c.out(i); } },
        [=](u64 i) { return fmt("100 seconds from %llu", i * 100); });
  R.add("amounts-" + nm, fmt("removing whole days, day counts, fractions: %zu amounts of any sign around every day multiple to 800 days, powers of two, the limits", extremes<S>().size()), extremes<S>().size(), 500,
        [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); amount<S>(i, extremes<S>()[i], c); c.out((u64)extremes<S>()[i]); } }, [=](u64 i) { return fmt("%lld %s", extremes<S>()[i], Tr<S>::name()); });
  // complete ranges
  const i64 lim = us ? (mc::g_thorough ? 3600000000LL : 30000000LL) : Tr<S>::tps == 1000 ? (mc::g_thorough ? 10LL : 1LL) * 86400000 + 1000 : (mc::g_thorough ? 10000LL : 400LL) * 86400;
  const i64 blk = (2 * lim + 2047) / 2048;
  R.add("range-" + nm, fmt("the same for every amount from -%lld to %lld", lim, lim), 2048, 16,
        [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); i64 lo = -lim + (i64)i * blk, hi = std::min(lo + blk, lim + 1); for (i64 x = lo; x < hi; ++x) { amount<S>(i, x, c); if ((x & 0xffff) == 0) c.beat(); } c.out(i); } },
        [=](u64 i) { return fmt("%lld amounts from %lld", blk, -lim + (i64)i * blk); });
}
template<class Q> static void ints(u64 i, i64 lo, i64 hi, Ctx& c) {
  for (i64 x = lo; x < hi; ++x) {
    i64 n, r, u;
    Q q{(int)x};
    if constexpr (std::is_same<Q, hours>::value) { n = q.remove_days(); u = 24; } else { n = q.remove_hours().as_underlying_type(); u = 60; }
    r = q.as_underlying_type();
    if (n * u + r != x || r <= -u || r >= u || (x >= 0 && r < 0)) c.fail(i, "C09", "%s(%lld): %lld whole, %lld left", u == 24 ? "hours::remove_days" : "minutes::remove_hours", x, n, r);
  }
  c.st(hi - lo); c.tr(hi - lo); c.out(i);
}
int main(int argc, char** argv) {
  mc::init("C09");
  spaces<seconds>(); spaces<milliseconds>(); spaces<microseconds>();
  auto& R = mc::R();
  auto desc = [](u64 i) { return fmt("ints from %lld", -2147483648LL + (i64)i * 1048576); };
  R.add("hours", "hours::remove_days for every int", 4096, 32, [](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); ints<hours>(i, -2147483648LL + (i64)i * 1048576, -2147483648LL + (i64)(i + 1) * 1048576, c); } }, desc);
  R.add("minutes", "minutes::remove_hours for every int", 4096, 32, [](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); ints<minutes>(i, -2147483648LL + (i64)i * 1048576, -2147483648LL + (i64)(i + 1) * 1048576, c); } }, desc);
  return R.main(argc, argv);
}
