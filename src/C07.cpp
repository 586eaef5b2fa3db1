// C07 the six comparisons are the order of the timeline; as_mjd follows it.
#include "gg.hpp"
#include <cfloat>
#include <algorithm>
using namespace gg;

template<class X, class Y> static void six(u64 i, const X& a, const Y& b, i128 d, Ctx& c, const char* what, const std::function<std::string()>& txt) {
  const int lt = a < b, le = a <= b, eq = a == b, ne = a != b, ge = a >= b, gt = a > b; c.tr(6);
  if (lt != (d < 0) || le != (d <= 0) || eq != (d == 0) || ne != (d != 0) || ge != (d >= 0) || gt != (d > 0))
    c.fail(i, "C07", "%s %s (first minus second: %s ticks): <%d <=%d ==%d !=%d >=%d >%d", what, txt().c_str(), mc::i128s(d).c_str(), lt, le, eq, ne, ge, gt);
  if (lt + eq + gt != 1) c.fail(i, "C07", "%s %s: %d of <, ==, > hold", what, txt().c_str(), lt + eq + gt);
}
template<class S> static const std::vector<datetime<S>>& ST() {
  static auto v = [] { std::vector<datetime<S>> r; for (i64 d : day_alphabet()) for (i64 t : tod_alphabet<S>()) r.push_back(mk<S>(d, t)); return r; }();
  return v;
}
template<class S> static std::string istr(const datetime_interval<S>& q) { return fmt("(%lld days, %lld %s)", val(q.days()), val(q.sec()), Tr<S>::name()); }
struct DA { i64 d, t; };
template<class S> static const std::vector<DA>& IA() {
  static auto v = [] { std::vector<DA> r; for (i64 d : {0LL, 1LL, 2LL, 3LL, 7LL, 365LL, 36525LL, 146097LL, 2147483648LL, -1LL, -2LL, -365LL, -146097LL}) { for (i64 t : tod_alphabet<S>()) r.push_back({d, t}); for (i64 t : amt_alphabet<S>()) r.push_back({d, t}); } return r; }();
  return v;
}
template<class S> static void pairs(u64 i, Ctx& c) {
  const auto& V = ST<S>(); const auto& a = V[i]; const i128 ia = inst(a); c.st();
  for (auto& b : V) { six(i, a, b, ia - inst(b), c, "date-times", [&] { return str(a) + " and " + str(b); }); }
  c.out((u64)ia);
  const datetime<S> mx = datetime<S>::max(), mn = datetime<S>::min();
  if (!(mx > a) || !(mn < a) || mx < a || mn > a || mx == a) c.fail(i, "C07", "%s is not between min() and max()", str(a).c_str());
}
template<class S> static void ipairs(u64 i, Ctx& c) {
  const auto& V = IA<S>(); const i128 D = day_ticks<S>(); c.st();
  datetime_interval<S> a{modified_julian_day{(long)V[i].d}, S{(long)V[i].t}}; i128 ia = (i128)V[i].d * D + V[i].t;
  for (auto& x : V) { datetime_interval<S> b{modified_julian_day{(long)x.d}, S{(long)x.t}};
    six(i, a, b, ia - ((i128)x.d * D + x.t), c, "intervals", [&] { return istr(a) + " and " + istr(b); }); }
  c.out((u64)ia);
}
// as_mjd: close to the exact value, never decreasing
template<class S> static void mjd_run(u64 i, i64 day, i64 lo, i64 hi, i64 step, Ctx& c) {
  const i64 D = day_ticks<S>(); const double u = 2 * DBL_EPSILON * std::max(1.0, (double)(day < 0 ? -day : day) + 1);
  double prev = 0; bool first = true;
  for (i64 t = lo; t < hi; t += step) {
    double g = mk<S>(day, t).as_mjd();
    long double e = (long double)day + (long double)t / (long double)D;
    if (!(fabsl((long double)g - e) <= u)) c.fail(i, "C07", "as_mjd of %s = %.17g, exact %.20Lg", str(mk<S>(day, t)).c_str(), g, e);
    if (!first && !(g >= prev)) c.fail(i, "C07", "as_mjd decreases at %s: %.17g after %.17g", str(mk<S>(day, t)).c_str(), g, prev);
    prev = g; first = false; c.tr();
  }
  c.st((hi - lo + step - 1) / step); c.out(mc::hstr((const char*)&prev, sizeof prev));
  if (hi >= D) { double g = mk<S>(day + 1, 0).as_mjd(); if (!(g >= prev)) c.fail(i, "C07", "as_mjd decreases from %lld to midnight of mjd %lld", hi - 1, day + 1); }
}
template<class S> static void order_run(u64 i, i64 day, i64 lo, i64 hi, Ctx& c) {
  for (i64 t = lo; t < hi; ++t) { auto a = mk<S>(day, t); auto b = a; b.add_seconds(S{1}); c.tr(6);
    if (!(a < b) || !(a <= b) || a == b || !(a != b) || !(b > a) || !(b >= a) || b < a || b <= a || a > b || a >= b || !(a == a)) c.fail(i, "C07", "%s against one tick later", str(a).c_str()); }
  c.st(hi - lo);
}
template<class S> static void spaces() {
  auto& R = mc::R(); const std::string nm = Tr<S>::name();
  R.add("pairs-" + nm, fmt("all ordered pairs of %zu boundary instants, six operators each, and min()/max()", ST<S>().size()), ST<S>().size(), 20,
        [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); pairs<S>(i, c); } }, [=](u64 i) { return str(ST<S>()[i]) + " against every instant"; });
  R.add("interval-pairs-" + nm, fmt("all ordered pairs of %zu intervals (given with any sign and size of the time part), six operators each", IA<S>().size()), IA<S>().size(), 20,
        [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); ipairs<S>(i, c); } }, [=](u64 i) { return fmt("%lld days, %lld ticks against every interval", IA<S>()[i].d, IA<S>()[i].t); });
  R.add("mjd-alphabet-" + nm, "as_mjd along all boundary times of every boundary day and into the next day", day_alphabet().size(), 4,
        [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); i64 d = day_alphabet()[i]; double prev = -1e300; c.st();
          for (i64 t : tod_alphabet<S>()) { double g = mk<S>(d, t).as_mjd(); c.tr(); if (!(g >= prev)) c.fail(i, "C07", "as_mjd decreases at %s", str(mk<S>(d, t)).c_str()); prev = g; mjd_run<S>(i, d, t, std::min(t + 50, day_ticks<S>()), 1, c); } } },
        [=](u64 i) { return fmt("mjd %lld", day_alphabet()[i]); });
  static const i64 days[] = {0, 51544, 58000, -678576, 2973483, 1000000, -1, 44244};
  const int nd = mc::g_thorough ? 8 : (Tr<S>::tps == 1000000 ? 1 : 8);
  const i64 step = Tr<S>::tps == 1000000 ? (mc::g_thorough ? 5 : 101) : (Tr<S>::tps == 1000 && !mc::g_thorough ? 3 : 1);
  R.add("mjd-day-" + nm, fmt("as_mjd along every %s tick of %d whole days", step == 1 ? "single" : fmt("%lldth", step).c_str(), nd), 86400ull / 100 * nd, 8,
        [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); i64 k = (i64)(i % 864) * 100; mjd_run<S>(i, days[i / 864], k * Tr<S>::tps, (k + 100) * Tr<S>::tps, step, c); } },
        [=](u64 i) { return fmt("mjd %lld, 100 seconds from %llu", days[i / 864], (i % 864) * 100); });
  R.add("far-days-" + nm, fmt("all ordered pairs of %zu days to +-2^62 x four times of day, as date-times and as intervals, six operators; as_mjd of each and along them (to +-2^53)", far_days().size()), far_days().size(), 2,
        [=](u64 a, u64 b, Ctx& c) { const i64 D = day_ticks<S>(); const i64 T[] = {0, 1, D / 2, D - 1}; for (u64 i = a; i < b; ++i) { c.at(i); const i64 d = far_days()[i]; double prev = i && far_days()[i - 1] > -(1LL << 53) ? mk<S>(far_days()[i - 1], D - 1).as_mjd() : -1e300; const double u = 2 * DBL_EPSILON * ((double)(d < 0 ? -d : d) + 2);
            for (i64 t : T) { const auto x = mk<S>(d, t); const double g = x.as_mjd(); const long double e = (long double)d + (long double)t / (long double)D; if (d < (1LL << 53) && -d < (1LL << 53) - 1 && (!(g >= prev) || !(fabsl((long double)g - e) <= u))) c.fail(i, "C07", "as_mjd of %s = %.17g, exact %.20Lg, before %.17g", str(x).c_str(), g, e, prev); prev = g; c.tr();
              const datetime_interval<S> p{modified_julian_day{(long)d}, S{(long)t}};
              for (i64 z : far_days()) for (i64 v : T) { const auto y = mk<S>(z, v); six(i, x, y, inst(x) - inst(y), c, "date-times", [&] { return str(x) + " and " + str(y); }); const datetime_interval<S> r{modified_julian_day{(long)z}, S{(long)v}}; six(i, p, r, inst(x) - inst(y), c, "intervals", [&] { return istr(p) + " and " + istr(r); }); } }
            c.st(4); c.out((u64)d); } },
        [=](u64 i) { return fmt("mjd %lld", far_days()[i]); });
  const i64 d0 = mc::g_thorough ? -2400000 : -700000, d1 = mc::g_thorough ? 6000000 : 700000;
  R.add("every-day-" + nm, fmt("every day of mjd %lld..%lld: as_mjd along five times of day into the next day, and six operators between the times of neighbouring days in every order", d0, d1), (u64)(d1 - d0) / 1000, 4,
        [=](u64 a, u64 b, Ctx& c) { const i64 D = day_ticks<S>(); for (u64 i = a; i < b; ++i) { c.at(i); for (i64 d = d0 + (i64)i * 1000; d < d0 + (i64)i * 1000 + 1000; ++d) {
            const i64 T[] = {0, 1, (i64)(((u64)d * 2654435761u) % (u64)(D - 4)) + 2, D / 2, D - 1}; i64 q[5]; std::copy(T, T + 5, q); if (q[2] > q[3]) std::swap(q[2], q[3]); double prev = -1e300; const double u = 2 * DBL_EPSILON * (double)((d < 0 ? -d : d) + 2);
            for (int k = 0; k < 6; ++k) { const i64 dd = k < 5 ? d : d + 1, t = k < 5 ? q[k] : 0; const double g = mk<S>(dd, t).as_mjd(); const long double e = (long double)dd + (long double)t / (long double)D; if (!(g >= prev) || !(fabsl((long double)g - e) <= u)) c.fail(i, "C07", "as_mjd of %s = %.17g, exact %.20Lg, before %.17g", str(mk<S>(dd, t)).c_str(), g, e, prev); prev = g; c.tr(); }
            for (i64 t : T) for (i64 v : T) for (int e = 0; e < 2; ++e) { const auto x = mk<S>(d, t), y = mk<S>(d + e, v); six(i, x, y, inst(x) - inst(y), c, "date-times", [&] { return str(x) + " and " + str(y); }); six(i, y, x, inst(y) - inst(x), c, "date-times", [&] { return str(y) + " and " + str(x); });
              const datetime_interval<S> p{modified_julian_day{(long)d}, S{(long)t}}, r{modified_julian_day{(long)(d + e)}, S{(long)v}}; six(i, p, r, inst(x) - inst(y), c, "intervals", [&] { return istr(p) + " and " + istr(r); }); } }
          c.st(1000); c.out(i); } },
        [=](u64 i) { return fmt("from mjd %lld", d0 + (i64)i * 1000); });
  if (Tr<S>::tps <= 1000 || mc::g_thorough)
    R.add("step-day-" + nm, "every tick of a whole day compared with the next tick", 864, 4,
          [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); for (int q = 0; q < 100; ++q) { order_run<S>(i, 58000, ((i64)i * 100 + q) * Tr<S>::tps, ((i64)i * 100 + q + 1) * Tr<S>::tps, c); c.beat(); } } },
          [=](u64 i) { return fmt("100 seconds from %llu", i * 100); });
}
int main(int argc, char** argv) {
  mc::init("C07");
  spaces<seconds>(); spaces<milliseconds>(); spaces<microseconds>();
  return mc::R().main(argc, argv);
}
