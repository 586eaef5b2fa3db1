// C20 intervals as exact durations.
#include "gg.hpp"
using namespace gg; using namespace ngpt;
template<class S> static i128 total(i64 d, i64 s) { return (i128)d * day_ticks<S>() + s; }
template<class S> static i128 dur(const datetime_interval<S>& v) { return total<S>(val(v.days()), val(v.sec())); }
template<class S> static std::string istr(i64 d, i64 s) { return fmt("(%lld days, %lld %s)", d, s, Tr<S>::name()); }
// two units in the last place of the larger of the result and its day part (a negative day part and a positive fraction cancel)
static bool dbl_ok(double g, long double w, i64 days) { const long double scale = days < 0 ? std::max(std::fabs(w), std::fabs((long double)days)) : std::fabs(w); const long double t = std::max(scale * 4.5e-16L, 1e-18L); return std::fabs((long double)g - w) <= t; }
template<class S> static void build(u64 i, i64 d, i64 s, Ctx& c) {
  const i64 D = day_ticks<S>(); const i128 w = total<S>(d, s); c.st(); c.tr(4);
  datetime_interval<S> v{modified_julian_day{(long)d}, S{(long)s}};
  const i64 t = val(v.sec()); if (dur(v) != w || t < 0 || t >= D) c.fail(i, "C20", "interval of %s holds %s", istr<S>(d, s).c_str(), istr<S>(val(v.days()), t).c_str());
  const i64 d0 = val(v.days()); v.normalize(); if (val(v.days()) != d0 || val(v.sec()) != t) c.fail(i, "C20", "normalising again changed the interval of %s to %s", istr<S>(d, s).c_str(), istr<S>(val(v.days()), val(v.sec())).c_str());
  const double m = v.as_mjd(); const long double e = (long double)val(v.days()) + (long double)t / (long double)D; if (!dbl_ok(m, e, val(v.days()))) c.fail(i, "C20", "%s as days is %.17g, not %.17Lg", istr<S>(d, s).c_str(), m, e);
  datetime_interval<S> q{v}; if (!(q == v) || q != v || q < v || q > v || !(q <= v) || !(q >= v) || dur(q) != w) c.fail(i, "C20", "a copy of %s differs", istr<S>(d, s).c_str());
}
template<class S> static void divide(u64 i, i64 d, i64 s, int k, Ctx& c) {
  c.st(); c.tr(); const datetime_interval<S> v{modified_julian_day{(long)d}, S{(long)s}}; const datetime_interval<S> q = v / k; const i128 w = total<S>(d, s) / k;
  if (dur(q) != w || val(q.sec()) < 0 || val(q.sec()) >= day_ticks<S>()) c.fail(i, "C20", "%s / %d gives %s; exact quotient rounded down is %s ticks", istr<S>(d, s).c_str(), k, istr<S>(val(q.days()), val(q.sec())).c_str(), mc::i128s(w).c_str());
}
static std::vector<int> divisors(int upto) { std::set<int> s; for (int k = 1; k <= upto; ++k) s.insert(k); for (int k = 1; k < 31; ++k) for (int e = -1; e <= 1; ++e) if ((1LL << k) + e > 0) s.insert((1 << k) + e); for (int x : {86399, 86400, 86401, 3600, 1000000, 999983, 43200000, 86400000, 86399999, 2147483647, 2147483646, 1000000007, 2000000000, 146097, 36524}) s.insert(x); return std::vector<int>(s.begin(), s.end()); }
static std::vector<i64> daysv(bool neg) { std::set<i64> s; for (i64 d = 0; d <= 20; ++d) s.insert(d); for (int k = 0; k <= 40; ++k) for (int e = -1; e <= 1; ++e) s.insert((1LL << k) + e); for (i64 d : {30, 31, 365, 366, 1461, 36524, 146097, 44244, 57754, 99999, 100000}) s.insert(d); std::set<i64> r; for (i64 d : s) { if (d >= 0) r.insert(d); if (neg) r.insert(-d); } return std::vector<i64>(r.begin(), r.end()); }
template<class S> static std::vector<i64> ticks(bool neg) { std::set<i64> r; for (i64 t : amt_alphabet<S>()) if (t >= 0 || neg) r.insert(t); for (i64 t : tod_alphabet<S>()) { r.insert(t); if (neg) r.insert(-t); } for (i64 x = 1; x < (1LL << 61); x <<= 2) for (int e = -1; e <= 1; ++e) { r.insert(x + e); if (neg) r.insert(-x - e); } return std::vector<i64>(r.begin(), r.end()); }
template<class S> static void spaces(mc::Runner& R, bool th) {
  static const std::string n = Tr<S>::name(); const i64 D = day_ticks<S>();
  static const auto DN = daysv(true), DP = daysv(false); static const auto TN = ticks<S>(true), TP = ticks<S>(false);
  R.add("build-" + n, fmt("every (day part, time part) of %zu x %zu values, both signs", DN.size(), TN.size()), DN.size(), 8,
        [](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); for (i64 t : TN) build<S>(i, DN[i], t, c); c.out(i); } }, [](u64 i) { return fmt("%lld days", DN[i]); });
  const i64 step = Tr<S>::tps == 1000000 ? (th ? 97 : 40009) : Tr<S>::tps == 1000 ? (th ? 1 : 37) : 1; const i64 span = 3 * D, per = span / 300;
  R.add("build-whole-days-" + n, fmt("%s tick of six days around zero with five day parts", step == 1 ? "every" : fmt("every %lldth", step).c_str()), 600, 4,
        [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); const i64 lo = -span + (i64)i * per; for (i64 t = lo; t < lo + per; t += step) { for (i64 d : {0LL, 1LL, -1LL, 57754LL, -44244LL}) build<S>(i, d, t, c); if ((t & 1023) == 0) c.beat(); } build<S>(i, 0, lo, c); build<S>(i, 0, lo + per - 1, c); c.out(1000 + i); } }, [=](u64 i) { return fmt("from %lld", -span + (i64)i * per); });
  static const auto KV = divisors(th ? 5000 : 400);
  R.add("divide-" + n, fmt("every (day part, time part, divisor) of %zu x %zu x %zu non-negative values", DP.size(), TP.size(), KV.size()), DP.size(), 1,
        [](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); for (i64 t : TP) { if (total<S>(DP[i], t) > ((i128)1 << 62) && DP[i] > (1LL << 41)) continue; for (int k : KV) divide<S>(i, DP[i], t, k, c); c.beat(); } c.out(3000 + i); } }, [](u64 i) { return fmt("%lld days", DP[i]); });
  static const auto LK = ladder(5, 2147483647LL, th ? 101 : 21, th ? 100 : 20), LD = ladder(21, 1LL << 40, 5, 4);
  R.add("divide-ladder-" + n, fmt("%zu divisors up to 2^31-1 (each 1.05 times the one before, thorough 1.01) x day parts around their multiples and halves, and %zu others to 2^40, x seven time parts", LK.size(), LD.size()), LK.size(), 8,
        [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); const i64 k = LK[i]; std::set<i64> ds(LD.begin(), LD.end()); for (i64 d : {k - 1, k, k + 1, k / 2, 2 * k - 1, 3 * k / 2, 4 * k / 5, 10 * k - 1, 1000 * k - 1}) ds.insert(d); for (i64 d : ds) for (i64 t : {(i64)0, (i64)1, D / 3, D / 2, D - 2, D - 1, 2 * D + 5}) divide<S>(i, d, t, (int)k, c); c.out(5000 + i); } },
        [=](u64 i) { return fmt("divisor %lld", LK[i]); });
  const i64 sp = th ? 2000000 : 100000;
  R.add("every-day-part-" + n, fmt("every day part of -%lld..%lld with five time parts: built, and (when not negative) divided by ten divisors", sp, sp), 2 * (u64)sp / 1000, 4,
        [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); for (i64 d = -sp + (i64)i * 1000; d < -sp + (i64)i * 1000 + 1000; ++d) { const i64 h = (i64)(((u64)d * 2654435761u) % (u64)D); for (i64 t : {(i64)0, (i64)1, D - 1, h, -h, h + 3 * D}) { build<S>(i, d, t, c); if (d >= 0 && t >= 0) { for (int k : {1, 2, 3, 7, 10, 24, 60, 365, 1000, 86400}) divide<S>(i, d, t, k, c); divide<S>(i, d, t, (int)(d % 997) + 1, c); } } } c.out(7000 + i); c.beat(); } },
        [=](u64 i) { return fmt("from %lld days", -sp + (i64)i * 1000); });
  const i64 s2 = Tr<S>::tps == 1000000 ? (th ? 86399 * 17 : 86399 * 1009) : Tr<S>::tps == 1000 ? (th ? 997 : 86399) : (th ? 1 : 7); const int K2 = th ? 120 : 61;
  R.add("divide-day-" + n, fmt("0..40 days and every %lldth tick of a day divided by 1..%d", s2, K2), 41, 1,
        [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); for (i64 t = 0; t < D; t += s2) { for (int k = 1; k <= K2; ++k) divide<S>(i, (i64)i, t, k, c); if ((t & 63) == 0) c.beat(); } c.out(4000 + i); } }, [](u64 i) { return fmt("%llu days", i); });
}
int main(int argc, char** argv) {
  mc::init("C20"); auto& R = mc::R(); const bool th = mc::g_thorough;
  spaces<seconds>(R, th); spaces<milliseconds>(R, th); spaces<microseconds>(R, th);
  R.add("zero", "the default interval is empty", 1, 1, [](u64 a, u64, Ctx& c) { c.at(a); c.st(); if (dur(datetime_interval<seconds>{}) || dur(datetime_interval<milliseconds>{}) || dur(datetime_interval<microseconds>{})) c.fail(a, "C20", "the default interval is not empty"); }, [](u64) { return std::string("default"); });
  return R.main(argc, argv);
}
