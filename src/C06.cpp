// C06 differences.
#include "gg.hpp"
using namespace gg;

template<class A, class B, bool = (Tr<A>::tps >= Tr<B>::tps)> struct Finer { typedef A type; };
template<class A, class B> struct Finer<A, B, false> { typedef B type; };
template<class S> static std::vector<datetime<S>> states(bool small) {
  std::vector<datetime<S>> v; const auto& D = day_alphabet(); const auto& T = tod_alphabet<S>();
  for (size_t i = 0; i < D.size(); ++i) for (size_t j = 0; j < T.size(); ++j) {
    if (small && ((i + j) % 11 || D[i] > 1000000 - 2 + 3)) continue;
    v.push_back(mk<S>(D[i], T[j])); }
  return v;
}
template<class S> static const std::vector<datetime<S>>& ST() { static auto v = states<S>(false); return v; }
template<class S> static const std::vector<datetime<S>>& SM() { static auto v = states<S>(true); return v; }

template<class A, class B> static void mixed(u64 i, Ctx& c) {
  typedef typename Finer<A, B>::type F;
  const datetime<A>& a = ST<A>()[i];
  i128 ia = inst(a) * (Tr<F>::tps / Tr<A>::tps);
  const auto& V = ST<B>();
  // B states are ordered day-major; a stride keeps the mixed pairs affordable in the quick tier
  const size_t step = mc::g_thorough ? 1 : 5;
  for (size_t j = i % step; j < V.size(); j += step) {
    const datetime<B>& b = V[j];
    F d = delta_sec(a, b), e = delta_sec(b, a); c.tr(2);
    static_assert(std::is_same<decltype(delta_sec(a, b)), F>::value, "difference must be in the finer resolution");
    i128 w = ia - inst(b) * (Tr<F>::tps / Tr<B>::tps);
    if (val(d) != w) c.fail(i, "C06", "delta_sec(%s, %s) = %lld, expected %s", str(a).c_str(), str(b).c_str(), val(d), mc::i128s(w).c_str());
    if (val(e) != -w) c.fail(i, "C06", "delta_sec(%s, %s) = %lld, expected %s", str(b).c_str(), str(a).c_str(), val(e), mc::i128s(-w).c_str());
    if ((j & 63) == 0) c.out((u64)w);
  }
  c.st();
}
template<class S> static void same(u64 i, Ctx& c) {
  const datetime<S>& a = ST<S>()[i];
  const auto& V = ST<S>();
  const i64 D = day_ticks<S>();
  for (size_t j = 0; j < V.size(); ++j) {
    const datetime<S>& b = V[j]; c.tr(5);
    i128 w = inst(a) - inst(b);
    S d = a.delta_sec(b);
    if (val(d) != w) c.fail(i, "C06", "%s.delta_sec(%s) = %lld, expected %s", str(a).c_str(), str(b).c_str(), val(d), mc::i128s(w).c_str());
    datetime_interval<S> q = a.delta_date(b), r = delta_date(a, b);
    i64 qs = val(q.sec()), qd = val(q.days());
    if (qs < 0 || qs >= D || (i128)qd * D + qs != w) c.fail(i, "C06", "%s.delta_date(%s) = %lld days, %lld", str(a).c_str(), str(b).c_str(), qd, qs);
    if (val(r.days()) != qd || val(r.sec()) != qs) c.fail(i, "C06", "delta_date(%s, %s) = %lld days, %lld but member gives %lld, %lld", str(a).c_str(), str(b).c_str(), val(r.days()), val(r.sec()), qd, qs);
    datetime<S> u = b; u += q;
    if (!(u == a) || inst(u) != inst(a)) c.fail(i, "C06", "%s + delta_date = %s, expected %s", str(b).c_str(), str(u).c_str(), str(a).c_str());
    datetime<S> v = b; v.add_seconds(d);
    if (inst(v) != inst(a)) c.fail(i, "C06", "%s + delta_sec = %s, expected %s", str(b).c_str(), str(v).c_str(), str(a).c_str());
    if ((j & 63) == 0) c.out((u64)w);
  }
  c.st();
}
template<class S> static void chain(u64 i, Ctx& c) {
  const auto& V = SM<S>(); const datetime<S>& a = V[i];
  for (auto& b : V) { i64 ab = val(delta_sec(a, b)); i128 abd = (i128)val(a.delta_date(b).days()) * day_ticks<S>() + val(a.delta_date(b).sec());
    for (auto& d : V) { c.tr();
      if (ab + val(delta_sec(b, d)) != val(delta_sec(a, d))) c.fail(i, "C06", "delta_sec not additive: %s, %s, %s", str(a).c_str(), str(b).c_str(), str(d).c_str());
      auto q = b.delta_date(d), r = a.delta_date(d);
      if (abd + (i128)val(q.days()) * day_ticks<S>() + val(q.sec()) != (i128)val(r.days()) * day_ticks<S>() + val(r.sec())) c.fail(i, "C06", "delta_date not additive: %s, %s, %s", str(a).c_str(), str(b).c_str(), str(d).c_str()); }
    c.out((u64)ab); }
  c.st();
}
template<class S> static void mjdd(u64 i, Ctx& c) {
  const auto& D = day_alphabet(); c.st();
  for (i64 b : D) { c.tr(); i64 g = val(mjd_sec_diff<S>(modified_julian_day{(long)D[i]}, modified_julian_day{(long)b})); i128 w = (i128)(D[i] - b) * day_ticks<S>();
    if (g != w) c.fail(i, "C06", "mjd_sec_diff<%s>(%lld, %lld) = %lld", Tr<S>::name(), D[i], b, g); c.out((u64)w); }
}
template<class A, class B> static void add_mixed() {
  mc::R().add(std::string("mixed-") + Tr<A>::name() + "-" + Tr<B>::name(), "all pairs of boundary instants (day alphabet x time alphabet of each resolution; quick tier: every fifth of the second operand, shifted), both orders", ST<A>().size(), 40,
              [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); mixed<A, B>(i, c); } }, [=](u64 i) { return str(ST<A>()[i]) + " against every " + Tr<B>::name() + " instant"; });
}
// nearby: complete windows, where every borrow and carry happens
template<class A, class B> static void near_case(u64 i, Ctx& c) {
  typedef typename Finer<A, B>::type F;
  const i64 base = day_alphabet()[i];
  static const i64 off[] = {-2, -1, 0, 1, 2};
  for (i64 da : off) for (i64 ta : tod_alphabet<A>()) { datetime<A> a = mk<A>(base + da, ta); i128 ia = inst(a) * (Tr<F>::tps / Tr<A>::tps);
    for (i64 tb : tod_alphabet<B>()) { datetime<B> b = mk<B>(base, tb); c.tr();
      i128 w = ia - inst(b) * (Tr<F>::tps / Tr<B>::tps); i64 g = val(delta_sec(a, b));
      if (g != w) c.fail(i, "C06", "delta_sec(%s, %s) = %lld, expected %s", str(a).c_str(), str(b).c_str(), g, mc::i128s(w).c_str()); c.out((u64)w); } }
  c.st();
}
template<class A, class B> static void add_near() {
  mc::R().add(std::string("near-") + Tr<A>::name() + "-" + Tr<B>::name(), "around every boundary day: day offsets -2..2 x all pairs of boundary times of day", day_alphabet().size(), 8,
              [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); near_case<A, B>(i, c); } }, [=](u64 i) { return fmt("around mjd %lld", day_alphabet()[i]); });
}
template<class S> static void add_same() {
  const std::string nm = Tr<S>::name();
  mc::R().add("same-" + nm, "all pairs of boundary instants: delta_sec, delta_date (member and free), adding the difference back", ST<S>().size(), 40,
              [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); same<S>(i, c); } }, [=](u64 i) { return str(ST<S>()[i]) + " against every instant"; });
  mc::R().add("chain-" + nm, fmt("all triples of %zu boundary instants", SM<S>().size()), SM<S>().size(), 20,
              [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); chain<S>(i, c); } }, [=](u64 i) { return str(SM<S>()[i]) + " against every pair"; });
  mc::R().add("mjd-" + nm, "mjd_sec_diff, all pairs of boundary days", day_alphabet().size(), 100,
              [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); mjdd<S>(i, c); } }, [=](u64 i) { return fmt("mjd %lld", day_alphabet()[i]); });
}
// every time of day of A (microseconds: blocks) against a few instants of B
template<class A, class B> static void add_sweep() {
  typedef typename Finer<A, B>::type F; const i64 per = day_ticks<A>() / 86400;
  mc::R().add(std::string("sweep-") + Tr<A>::name() + "-" + Tr<B>::name(), std::string("every time of day of the first operand") + (per > 1000 ? (mc::g_thorough ? ", against one of 3 instants of the other in turn" : " (one ms per second and its neighbourhood), against 3 instants of the other") : ", against 3 instants of the other") + ", both orders", 86400, 400,
              [=](u64 a, u64 b, Ctx& c) { static const datetime<B> o[] = {mk<B>(57000, 0), mk<B>(57001, day_ticks<B>() - 1), mk<B>(44244, day_ticks<B>() / 3)};
                for (u64 i = a; i < b; ++i) { c.at(i); const bool all = per <= 1000, few = !all && !mc::g_thorough; const i64 n = few ? 3000 : per, t0 = few ? (i64)i * per + (i64)(i * 7919 % 1000) * 997 : (i64)i * per; u64 h = 0; const int only = all || few ? -1 : (int)(i % 3);
                for (i64 t = t0; t < t0 + n && t < day_ticks<A>(); ++t) { const datetime<A> x = mk<A>(57000, t); const i128 ix = inst(x) * (Tr<F>::tps / Tr<A>::tps);
                  for (int q = only < 0 ? 0 : only; q < (only < 0 ? 3 : only + 1); ++q) { const auto& y = o[q]; const i128 w = ix - inst(y) * (Tr<F>::tps / Tr<B>::tps); const i64 g = val(delta_sec(x, y)), r = val(delta_sec(y, x));
                    if (g != w || r != -w) c.fail(i, "C06", "delta_sec(%s, %s) = %lld, the other way round %lld, expected %s", str(x).c_str(), str(y).c_str(), g, r, mc::i128s(w).c_str()); h += (u64)g; } }
                c.st(n); c.tr((only < 0 ? 6 : 2) * n); c.out(h); } },
              [=](u64 i) { return fmt("second %llu of the day", i); });
}
// every distance in days
template<class A, class B> static void one_diff(u64 i, const datetime<A>& x, const datetime<B>& y, Ctx& c) {
  typedef typename Finer<A, B>::type F; const i128 w = inst(x) * (Tr<F>::tps / Tr<A>::tps) - inst(y) * (Tr<F>::tps / Tr<B>::tps);
  const i64 g = val(delta_sec(x, y)), r = val(delta_sec(y, x)); c.tr(2);
  if (g != w || r != -w) c.fail(i, "C06", "delta_sec(%s, %s) = %lld, the other way round %lld, expected %s", str(x).c_str(), str(y).c_str(), g, r, mc::i128s(w).c_str());
}
template<class S> static void add_days() {
  const i64 span = mc::g_thorough ? 3000000 : 200000;
  mc::R().add(std::string("days-") + Tr<S>::name(), fmt("every distance of -%lld..%lld days, with four pairs of times of day: delta_sec with every resolution, delta_date, mjd_sec_diff", span, span), 2 * (u64)span / 1000, 4,
              [=](u64 a, u64 b, Ctx& c) { const i64 D = day_ticks<S>(), T[] = {0, D - 1, D / 3, 1}; for (u64 i = a; i < b; ++i) { c.at(i); u64 h = 0;
                for (i64 n = -span + (i64)i * 1000; n < -span + (i64)i * 1000 + 1000; ++n) for (int k = 0; k < 4; ++k) { const datetime<S> x = mk<S>(51544 + n, T[k]); const i64 t = (i64)(((u64)n * 2654435761u) % 86400u); const datetime<S> y = mk<S>(51544, t * Tr<S>::tps);
                  one_diff(i, x, mk<seconds>(51544, t), c); one_diff(i, x, mk<milliseconds>(51544, t * 1000 + 1), c); one_diff(i, x, mk<microseconds>(51544, t * 1000000 + 999999), c); one_diff(i, x, y, c);
                  const i128 w = inst(x) - inst(y); const auto q = x.delta_date(y), r = delta_date(y, x); if ((i128)val(q.days()) * D + val(q.sec()) != w || val(q.sec()) < 0 || val(q.sec()) >= D || (i128)val(r.days()) * D + val(r.sec()) != -w || val(r.sec()) < 0 || val(r.sec()) >= D) c.fail(i, "C06", "%s minus %s: %lld days %lld; the other way round %lld days %lld", str(x).c_str(), str(y).c_str(), val(q.days()), val(q.sec()), val(r.days()), val(r.sec()));
                  datetime<S> z = y; z += q; if (inst(z) != inst(x)) c.fail(i, "C06", "%s + delta_date = %s, expected %s", str(y).c_str(), str(z).c_str(), str(x).c_str());
                  if (val(mjd_sec_diff<S>(x.mjd(), y.mjd())) != (i128)n * D) c.fail(i, "C06", "mjd_sec_diff over %lld days = %lld", n, val(mjd_sec_diff<S>(x.mjd(), y.mjd()))); c.tr(4); h += (u64)w; }
                c.st(4000); c.out(h); } },
              [=](u64 i) { return fmt("from %lld days", -span + (i64)i * 1000); });
}
// days far away: differences wherever they can be represented
template<class A, class B> static void far_one(u64 i, const datetime<A>& x, const datetime<B>& y, Ctx& c) {
  typedef typename Finer<A, B>::type F; const i128 w = inst(x) * (Tr<F>::tps / Tr<A>::tps) - inst(y) * (Tr<F>::tps / Tr<B>::tps), m = ((i128)1 << 63) - 3 * day_ticks<F>();
  if (w < m && w > -m) one_diff(i, x, y, c);
}
template<class S> static void add_far() {
  mc::R().add(std::string("far-") + Tr<S>::name(), fmt("all pairs of %zu days to +-2^62 x five times of day: delta_date and adding it back, delta_sec with every resolution wherever the difference fits", far_days().size()), far_days().size(), 2,
              [=](u64 a, u64 b, Ctx& c) { const i64 D = day_ticks<S>(), T[] = {0, 1, D / 3, D / 2, D - 1}; for (u64 i = a; i < b; ++i) { c.at(i); c.st(5);
                std::vector<i64> O(far_days()); O.push_back(51544); O.push_back(0); for (int e = -2; e <= 2; ++e) if (e) O.push_back(far_days()[i] + e);
                for (i64 d : O) for (i64 u : T) for (i64 v : T) { const i64 z = far_days()[i]; const datetime<S> x = mk<S>(z, u), y = mk<S>(d, v); const i128 w = inst(x) - inst(y);
                  far_one(i, x, y, c); far_one(i, x, mk<seconds>(d, v / Tr<S>::tps), c); far_one(i, x, mk<milliseconds>(d, v / Tr<S>::tps * 1000 + 1), c); far_one(i, x, mk<microseconds>(d, v / Tr<S>::tps * 1000000 + 999999), c);
                  if ((i128)z - d > ((i128)1 << 63) - 3 || (i128)z - d < -(((i128)1 << 63) - 3)) continue;
                  const auto q = x.delta_date(y), r = delta_date(y, x); c.tr(3); if ((i128)val(q.days()) * D + val(q.sec()) != w || val(q.sec()) < 0 || val(q.sec()) >= D || (i128)val(r.days()) * D + val(r.sec()) != -w || val(r.sec()) < 0 || val(r.sec()) >= D) c.fail(i, "C06", "%s minus %s: %lld days %lld, the other way round %lld days %lld", str(x).c_str(), str(y).c_str(), val(q.days()), val(q.sec()), val(r.days()), val(r.sec()));
                  datetime<S> k = y; k += q; if (inst(k) != inst(x)) c.fail(i, "C06", "%s + delta_date = %s, expected %s", str(y).c_str(), str(k).c_str(), str(x).c_str()); }
                c.out(i); } },
              [=](u64 i) { return fmt("mjd %lld", far_days()[i]); });
}
int main(int argc, char** argv) {
  mc::init("C06");
  add_far<seconds>(); add_far<milliseconds>(); add_far<microseconds>();
  add_days<seconds>(); add_days<milliseconds>(); add_days<microseconds>();
  add_sweep<seconds, milliseconds>(); add_sweep<seconds, microseconds>(); add_sweep<milliseconds, microseconds>(); add_sweep<milliseconds, seconds>(); add_sweep<microseconds, milliseconds>(); add_sweep<microseconds, seconds>(); add_sweep<milliseconds, milliseconds>(); add_sweep<microseconds, microseconds>();
  add_near<seconds, milliseconds>(); add_near<seconds, microseconds>(); add_near<milliseconds, seconds>(); add_near<milliseconds, microseconds>();
  add_near<microseconds, seconds>(); add_near<microseconds, milliseconds>(); add_near<seconds, seconds>(); add_near<milliseconds, milliseconds>(); add_near<microseconds, microseconds>();
  add_same<seconds>(); add_same<milliseconds>(); add_same<microseconds>();
  add_mixed<seconds, milliseconds>(); add_mixed<seconds, microseconds>(); add_mixed<milliseconds, microseconds>();
  add_mixed<milliseconds, seconds>(); add_mixed<microseconds, seconds>(); add_mixed<microseconds, milliseconds>();
  // complete: every second of one day against every minute boundary +-1 of three days
  static std::vector<i64> bs; for (i64 m = -86400; m < 2 * 86400; m += mc::g_thorough ? 1 : 60) for (i64 e = mc::g_thorough ? 0 : -1; e <= (mc::g_thorough ? 0 : 1); ++e) bs.push_back(57000LL * 86400 + m + e);
  mc::R().add("full-day-seconds", fmt("every second of a day against %zu seconds of the three days around it (%s)", bs.size(), mc::g_thorough ? "all" : "every minute boundary and its neighbours"), 86400, 500,
              [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); c.st(); auto t = mk<seconds>(57000, (i64)i); i64 it = 57000LL * 86400 + (i64)i;
                for (i64 x : bs) { auto u = mk<seconds>(x / 86400, x % 86400); auto q = t.delta_date(u); i64 w = it - x;
                  if (val(t.delta_sec(u)) != w || val(q.days()) * 86400 + val(q.sec()) != w || val(q.sec()) < 0 || val(q.sec()) >= 86400)
                    c.fail(i, "C06", "%s minus %s: delta_sec %lld, delta_date %lld days %lld", str(t).c_str(), str(u).c_str(), val(t.delta_sec(u)), val(q.days()), val(q.sec())); }
                c.tr(2 * bs.size()); c.out(i); } },
              [=](u64 i) { return fmt("second %llu of MJD 57000", i); });
  return mc::R().main(argc, argv);
}
