// C05 adding and removing time: every transition of the date-time register.
#include "gg.hpp"
#include <algorithm>
#include <unordered_map>
using namespace gg;

template<class S> static void want(u64 i, const char* op, const datetime<S>& from, const datetime<S>& got, i128 delta, Ctx& c, i64 x) {
  c.tr();
  if (!normal(got)) c.fail(i, "C05", "%s %s %lld -> %s: not in normal form", str(from).c_str(), op, x, str(got).c_str());
  i128 e = inst(from) + delta, g = inst(got);
  if (g != e) c.fail(i, "C05", "%s %s %lld -> %s: off by %s ticks", str(from).c_str(), op, x, str(got).c_str(), mc::i128s(g - e).c_str());
}
// one state, every operation with every amount
template<class S> static void step_own(u64 i, const datetime<S>& t, i64 x, Ctx& c) {
  datetime<S> a = t; a.add_seconds(S{(long)x}); want(i, "add_seconds", t, a, x, c, x);
  datetime<S> r = a; r.remove_seconds(S{(long)x}); want(i, "add then remove", t, r, 0, c, x);
  datetime<S> b = t; b.remove_seconds(S{(long)x}); want(i, "remove_seconds", t, b, -(i128)x, c, x);
  r = b; r.add_seconds(S{(long)x}); want(i, "remove then add", t, r, 0, c, x);
  c.out(mc::mix((u64)val(a.mjd()), (u64)val(a.sec())));
}
template<class S> static void step_days(u64 i, const datetime<S>& t, i64 n, i64 x, Ctx& c) {
  want(i, "add(days,S)", t, t.add(modified_julian_day{(long)n}, S{(long)x}), (i128)n * day_ticks<S>() + x, c, n);
  datetime<S> a = t; a += datetime_interval<S>{modified_julian_day{(long)n}, S{(long)x}};
  want(i, "+= interval", t, a, (i128)n * day_ticks<S>() + x, c, n);
}
// T coarser than S: exact
template<class S, class T> static typename std::enable_if<(Tr<T>::tps < Tr<S>::tps)>::type step_other(u64 i, const datetime<S>& t, Ctx& c) {
  const i64 k = Tr<S>::tps / Tr<T>::tps;
  for (i64 x : amt_alphabet<T>()) {
    datetime<S> a = t; a.add_seconds(T{(long)x}); want(i, (std::string("add_seconds of ") + Tr<T>::name()).c_str(), t, a, (i128)x * k, c, x);
    datetime<S> b = t; b.remove_seconds(T{(long)x}); want(i, (std::string("remove_seconds of ") + Tr<T>::name()).c_str(), t, b, -(i128)x * k, c, x);
    b.add_seconds(T{(long)x}); want(i, "remove then add, coarser", t, b, 0, c, x);
  }
}
// T finer than S: within less than one unit of S; exact for whole units
template<class S, class T> static typename std::enable_if<(Tr<T>::tps > Tr<S>::tps)>::type step_other(u64 i, const datetime<S>& t, Ctx& c) {
  const i64 k = Tr<T>::tps / Tr<S>::tps;
  for (i64 x : amt_alphabet<T>())
    for (int sg = 0; sg < 2; ++sg) {
      datetime<S> a = t; if (sg) a.remove_seconds(T{(long)x}); else a.add_seconds(T{(long)x});
      c.tr();
      i128 err = (inst(a) - inst(t)) * k - (sg ? -(i128)x : (i128)x);
      if (!normal(a)) c.fail(i, "C05", "%s %s %lld %s -> %s: not in normal form", str(t).c_str(), sg ? "remove" : "add", x, Tr<T>::name(), str(a).c_str());
      if (err <= -k || err >= k || (x % k == 0 && err != 0)) c.fail(i, "C05", "%s %s %lld %s -> %s: error %s %s", str(t).c_str(), sg ? "remove" : "add", x, Tr<T>::name(), str(a).c_str(), mc::i128s(err).c_str(), Tr<T>::name());
    }
  // and through add(days, finer)
  for (i64 x : amt_alphabet<T>()) {
    datetime<S> a = t.add(modified_julian_day{3}, T{(long)x}); c.tr();
    i128 err = (inst(a) - inst(t) - 3 * day_ticks<S>()) * k - (i128)x;
    if (!normal(a) || err <= -k || err >= k || (x % k == 0 && err != 0)) c.fail(i, "C05", "%s add(3 days, %lld %s) -> %s", str(t).c_str(), x, Tr<T>::name(), str(a).c_str());
  }
}
template<class S> static void step_other_dispatch(u64 i, const datetime<S>& t, Ctx& c);
template<> void step_other_dispatch<seconds>(u64 i, const datetime<seconds>& t, Ctx& c) { step_other<seconds, milliseconds>(i, t, c); step_other<seconds, microseconds>(i, t, c); }
template<> void step_other_dispatch<milliseconds>(u64 i, const datetime<milliseconds>& t, Ctx& c) { step_other<milliseconds, seconds>(i, t, c); step_other<milliseconds, microseconds>(i, t, c); }
template<> void step_other_dispatch<microseconds>(u64 i, const datetime<microseconds>& t, Ctx& c) { step_other<microseconds, seconds>(i, t, c); step_other<microseconds, milliseconds>(i, t, c); }

template<class S> static const std::vector<i64>& huge_amt() {
  static const std::vector<i64> v = [] { std::set<i64> s; const i64 D = day_ticks<S>(); auto in = [&](i128 x) { for (int e = -2; e <= 2; ++e) if (x + e <= (i128)1 << 62 && x + e > 0) { s.insert((i64)(x + e)); s.insert(-(i64)(x + e)); } };
    for (int k = 0; k <= 62; ++k) { in((i128)1 << k); in((i128)D << k); } for (i128 p = 1; p < (i128)1 << 62; p *= 10) { in(p); in(3 * p); in(7 * p); } for (i64 x : ladder(1000, 1LL << 62, 6, 5)) { s.insert(x); s.insert(-x); } return std::vector<i64>(s.begin(), s.end()); }();
  return v;
}
template<class S, class T> static void huge_other(u64 i, const datetime<S>& t, Ctx& c) {
  const i64 up = Tr<S>::tps > Tr<T>::tps ? Tr<S>::tps / Tr<T>::tps : 1, dn = Tr<T>::tps > Tr<S>::tps ? Tr<T>::tps / Tr<S>::tps : 1;
  for (i64 x : huge_amt<T>()) { if ((i128)x * up > ((i128)1 << 62) || (i128)x * up < -((i128)1 << 62)) continue;
    for (int sg = 0; sg < 2; ++sg) { datetime<S> a = t; if (sg) a.remove_seconds(T{(long)x}); else a.add_seconds(T{(long)x}); c.tr();
      const i128 err = (inst(a) - inst(t)) * dn - (sg ? -(i128)x : (i128)x) * up;
      if (!normal(a) || err <= -dn || err >= dn || (x % dn == 0 && err != 0)) c.fail(i, "C05", "%s %s %lld %s -> %s", str(t).c_str(), sg ? "remove" : "add", x, Tr<T>::name(), str(a).c_str()); } }
}
template<class S> static void huge_case(u64 i, Ctx& c) {
  const auto& T = tod_alphabet<S>(); const i64 d0[] = {57000, 0, -678576}; const datetime<S> t = mk<S>(d0[i / T.size()], T[i % T.size()]); c.st();
  for (i64 x : huge_amt<S>()) { step_own<S>(i, t, x, c); step_days<S>(i, t, 3, x, c); if (x > -(1LL << 55) && x < (1LL << 55)) { step_days<S>(i, t, x, 5, c); step_days<S>(i, t, x, -7, c); } }
  huge_other<S, seconds>(i, t, c); huge_other<S, milliseconds>(i, t, c); huge_other<S, microseconds>(i, t, c);
}
// every amount of T within a day (microseconds: blocks) and every time of day of S
template<class S, class T> static void add_amounts() {
  const i64 per = day_ticks<T>() / 86400;
  mc::R().add(std::string("amounts-") + Tr<T>::name() + "-to-" + Tr<S>::name(), std::string("every amount of 0..1 day of ") + Tr<T>::name() + (per > 1000 ? (mc::g_thorough ? ", added to or removed from one of three date-times in turn" : " (one window per second), added to and removed from three date-times") : ", added to and removed from three date-times"), 86400, 400,
              [=](u64 a, u64 b, Ctx& c) { static const datetime<S> o[] = {mk<S>(57000, 0), mk<S>(57001, day_ticks<S>() - 1), mk<S>(44244, day_ticks<S>() / 3)};
                const i64 up = Tr<S>::tps > Tr<T>::tps ? Tr<S>::tps / Tr<T>::tps : 1, dn = Tr<T>::tps > Tr<S>::tps ? Tr<T>::tps / Tr<S>::tps : 1;
                for (u64 i = a; i < b; ++i) { c.at(i); const bool all = per <= 1000, few = !all && !mc::g_thorough; const int only = all || few ? -1 : (int)(i % 6); const i64 n = few ? 1500 : per, x0 = few ? (i64)i * per + (i64)(i * 7919 % 1000) * 998 : (i64)i * per; u64 h = 0;
                for (i64 x = x0; x < x0 + n; ++x) for (int q = only < 0 ? 0 : only; q < (only < 0 ? 6 : only + 1); ++q) { const auto& t = o[q >> 1]; const int sg = q & 1; datetime<S> u = t; if (sg) u.remove_seconds(T{(long)x}); else u.add_seconds(T{(long)x});
                  const i128 err = (inst(u) - inst(t)) * dn - (i128)(sg ? -x : x) * up; h += (u64)val(u.sec());
                  if (!normal(u) || err <= -dn || err >= dn || (x % dn == 0 && err != 0)) c.fail(i, "C05", "%s %s %lld %s -> %s", str(t).c_str(), sg ? "remove" : "add", x, Tr<T>::name(), str(u).c_str()); }
                c.st(n); c.tr((only < 0 ? 6 : 1) * n); c.out(h); } },
              [=](u64 i) { return fmt("amounts around second %llu", i); });
}
template<class S, class T> static void add_times() {
  const i64 per = day_ticks<S>() / 86400;
  mc::R().add(std::string("times-") + Tr<S>::name() + "-plus-" + Tr<T>::name(), "every time of day, adding and removing amounts of a finer resolution (0, 1, 999, 1000, 1001, a day)", 86400, 400,
              [=](u64 a, u64 b, Ctx& c) { const i64 dn = Tr<T>::tps / Tr<S>::tps; const i64 am[] = {0, 1, dn - 1, dn, dn + 1, day_ticks<T>()};
                for (u64 i = a; i < b; ++i) { c.at(i); u64 h = 0; for (i64 k = (i64)i * per; k < ((i64)i + 1) * per; ++k) { const datetime<S> t = mk<S>(57000, k); for (i64 x : am) for (int sg = 0; sg < 2; ++sg) { datetime<S> u = t; if (sg) u.remove_seconds(T{(long)x}); else u.add_seconds(T{(long)x});
                  const i128 err = (inst(u) - inst(t)) * dn - (sg ? -x : x); h += (u64)val(u.sec());
                  if (!normal(u) || err <= -dn || err >= dn || (x % dn == 0 && err != 0)) c.fail(i, "C05", "%s %s %lld %s -> %s", str(t).c_str(), sg ? "remove" : "add", x, Tr<T>::name(), str(u).c_str()); } }
                c.st(per); c.tr(12 * per); c.out(h); } },
              [=](u64 i) { return fmt("second %llu of the day", i); });
}
static const i64 DAYS[] = {0, 1, 2, 7, 31, 365, 366, 36524, 146097, 1000000, -1, -2, -7, -31, -365, -146097};

template<class S> static void alphabet_case(u64 i, Ctx& c) {
  const auto& D = day_alphabet(); const auto& T = tod_alphabet<S>();
  i64 d = D[i / T.size()], s = T[i % T.size()];
  datetime<S> t = mk<S>(d, s); c.st();
  if (val(t.mjd()) != d || val(t.sec()) != s) c.fail(i, "C05", "(mjd %lld, %lld) built as %s", d, s, str(t).c_str());
  for (i64 x : amt_alphabet<S>()) { step_own<S>(i, t, x, c); }
  for (i64 n : DAYS) for (i64 x : amt_alphabet<S>()) step_days<S>(i, t, n, x, c);
  step_other_dispatch<S>(i, t, c);
}
// breadth-first search over operation sequences from one start; the model state
// is the net instant; every path into a state must reach the same date-time
template<class S> struct Op { int kind; i64 a, b; };
template<class S> static const std::vector<Op<S>>& ops() {
  static std::vector<Op<S>> v = [] {
    std::vector<Op<S>> r; const i64 D = day_ticks<S>(), u = Tr<S>::tps;
    for (i64 x : {(i64)1, u, 60 * u, 3600 * u + 1, D - 1, D, D + 1, 2 * D - 1, -1 * (D - 1), (i64)-1, -u, -D}) { r.push_back({0, x, 0}); r.push_back({1, x, 0}); }
    r.push_back({2, 1, 0}); r.push_back({2, -1, D - 1}); r.push_back({2, 31, -5 * u}); r.push_back({3, 0, D - 1}); r.push_back({3, 1, 1}); r.push_back({4, 1, 0}); r.push_back({4, -86399, 0}); r.push_back({5, 86401, 0});
    return r; }();
  return v;
}
template<class S> static i128 apply(datetime<S>& t, const Op<S>& o) {
  const i64 D = day_ticks<S>(), u = Tr<S>::tps;
  switch (o.kind) {
    case 0: t.add_seconds(S{(long)o.a}); return o.a;
    case 1: t.remove_seconds(S{(long)o.a}); return -(i128)o.a;
    case 2: t = t.add(modified_julian_day{(long)o.a}, S{(long)o.b}); return (i128)o.a * D + o.b;
    case 3: t += datetime_interval<S>{modified_julian_day{(long)o.a}, S{(long)o.b}}; return (i128)o.a * D + o.b;
    case 4: t.add_seconds(seconds{(long)o.a}); return (i128)o.a * u;
    case 5: t.remove_seconds(seconds{(long)o.a}); return -(i128)o.a * u;
  }
  return 0;
}
template<class S> static void bfs_case(u64 i, Ctx& c, int depth) {
  static const i64 sd[] = {0, 51544, 44244, 58000, -678576, 2973483};
  const auto& T = tod_alphabet<S>();
  datetime<S> s0 = mk<S>(sd[i % 6], T[(i / 6) * 7 % T.size()]);
  struct N { datetime<S> t; i128 net; };
  // keyed by the implementation state: distinct futures only if distinct states
  struct H { size_t operator()(const std::pair<i64, i64>& k) const { return mc::mix((u64)k.first, (u64)k.second); } };
  std::unordered_map<std::pair<i64, i64>, i128, H> seen;
  std::vector<N> fr{{s0, 0}}, nx;
  seen[{val(s0.mjd()), val(s0.sec())}] = 0;
  const i128 base = inst(s0);
  for (int k = 0; k < depth; ++k) {
    nx.clear();
    for (auto& n : fr)
      for (auto& o : ops<S>()) {
        datetime<S> t = n.t; i128 net = n.net + apply(t, o); c.tr(); 
        if (!normal(t) || inst(t) != base + net)
          c.fail(i, "C05", "start %s, a sequence of %d operations ending in op kind %d(%lld,%lld) from %s gave %s, expected net %s ticks", str(s0).c_str(), k + 1, o.kind, o.a, o.b, str(n.t).c_str(), str(t).c_str(), mc::i128s(net).c_str());
        auto r = seen.emplace(std::make_pair(val(t.mjd()), val(t.sec())), net);
        if (r.second) { nx.push_back({t, net}); c.st(); }
        else if (r.first->second != net) c.fail(i, "C05", "two operation sequences with different totals reach %s", str(t).c_str());
      }
    fr.swap(nx); c.beat();
  }
  c.out(seen.size());
}
template<class S> static void spaces() {
  auto& R = mc::R(); const std::string nm = Tr<S>::name();
  const u64 NS = day_alphabet().size() * tod_alphabet<S>().size();
  R.add("alphabet-" + nm, "boundary days x boundary times of day x every operation x boundary amounts (own, coarser, finer resolution; days; intervals)", NS, 60,
        [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); alphabet_case<S>(i, c); } },
        [=](u64 i) { const auto& T = tod_alphabet<S>(); return fmt("mjd %lld, time of day %lld", day_alphabet()[i / T.size()], T[i % T.size()]); });
  R.add("huge-" + nm, fmt("3 days x boundary times of day x %zu huge amounts (powers of two and ten, day multiples of both, +-2, to 2^62 ticks) of every resolution, days and intervals", huge_amt<S>().size()), 3 * tod_alphabet<S>().size(), 4,
        [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); huge_case<S>(i, c); } },
        [=](u64 i) { const auto& T = tod_alphabet<S>(); return fmt("day case %llu, time of day %lld", i / T.size(), T[i % T.size()]); });
  R.add("far-" + nm, fmt("%zu days to +-2^62 x four times of day x every operation x boundary amounts (own, coarser, finer resolution; days; intervals)", far_days().size()), far_days().size() * 4, 8,
        [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); c.st(); const i64 D = day_ticks<S>(), T[] = {0, 1, D / 2, D - 1}; const datetime<S> t = mk<S>(far_days()[i / 4], T[i % 4]);
            if (val(t.mjd()) != far_days()[i / 4] || val(t.sec()) != T[i % 4]) c.fail(i, "C05", "(mjd %lld, %lld) built as %s", far_days()[i / 4], T[i % 4], str(t).c_str());
            for (i64 x : amt_alphabet<S>()) step_own<S>(i, t, x, c);
            for (i64 n : DAYS) for (i64 x : amt_alphabet<S>()) step_days<S>(i, t, n, x, c);
            step_other_dispatch<S>(i, t, c); } },
        [=](u64 i) { return fmt("mjd %lld, time of day case %llu", far_days()[i / 4], i % 4); });
  R.add("far-amounts-" + nm, fmt("numbers of days to +-2^62 added as days and as interval, to and from four times of day"), far_days().size(), 8,
        [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); c.st(); const i64 D = day_ticks<S>(), T[] = {0, 1, D / 2, D - 1}; for (i64 u : T) for (i64 x : T) for (i64 d : {57000LL, 0LL, -678576LL}) { const datetime<S> t = mk<S>(d, u); step_days<S>(i, t, far_days()[i], x, c); step_days<S>(i, t, far_days()[i], -x, c); } } },
        [=](u64 i) { return fmt("%lld days", far_days()[i]); });
  const i64 span = mc::g_thorough ? 3000000 : 200000;
  R.add("days-" + nm, fmt("every number of days of -%lld..%lld added as days with a time part and as interval, and as an amount of time, to and from four times of day; every one of them also as the day the operation starts from", span, span), 2 * (u64)span / 1000, 4,
        [=](u64 a, u64 b, Ctx& c) { const i64 D = day_ticks<S>(), T[] = {0, D - 1, D / 3, 1}; for (u64 i = a; i < b; ++i) { c.at(i); u64 h = 0;
          for (i64 n = -span + (i64)i * 1000; n < -span + (i64)i * 1000 + 1000; ++n) for (int k = 0; k < 4; ++k) { const datetime<S> t = mk<S>(57000, T[k]), u = mk<S>(57000 + n, T[k]); const i64 x = (i64)(((u64)n * 2654435761u) % (u64)D);
            step_days<S>(i, t, n, x, c); step_days<S>(i, u, 1, x, c); step_days<S>(i, u, -1, -x, c);
            datetime<S> v = t; v.add_seconds(S{(long)(n * D + x)}); want(i, "add_seconds", t, v, (i128)n * D + x, c, n); v.remove_seconds(S{(long)(n * D + x)}); want(i, "add then remove", t, v, 0, c, n);
            v = t; v.add_seconds(seconds{(long)(n * 86400 + k)}); want(i, "add_seconds of seconds", t, v, ((i128)n * 86400 + k) * Tr<S>::tps, c, n);
            v = u; v.add_seconds(S{(long)x}); want(i, "add_seconds", u, v, x, c, x); v = u; v.remove_seconds(S{(long)x}); want(i, "remove_seconds", u, v, -(i128)x, c, x); h += (u64)x; }
          c.st(4000); c.out(h); } },
        [=](u64 i) { return fmt("from %lld days", -span + (i64)i * 1000); });
  const int depth = mc::g_thorough ? 8 : 4;
  R.add("sequences-" + nm, fmt("breadth-first search of all operation sequences up to length %d over %zu operations from 48 start states; states keyed by (day, time of day)", depth, ops<S>().size()), 48, 1,
        [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); bfs_case<S>(i, c, depth); } },
        [=](u64 i) { return fmt("start %llu", i); });
}
int main(int argc, char** argv) {
  mc::init("C05");
  auto& R = mc::R();
  spaces<seconds>(); spaces<milliseconds>(); spaces<microseconds>();
  add_amounts<milliseconds, seconds>(); add_amounts<microseconds, seconds>(); add_amounts<microseconds, milliseconds>(); add_amounts<seconds, milliseconds>(); add_amounts<milliseconds, microseconds>(); add_amounts<microseconds, microseconds>();
  add_times<seconds, milliseconds>(); add_times<seconds, microseconds>(); add_times<milliseconds, microseconds>();
  // complete day at one-second resolution
  static std::vector<i64> am = [] { std::vector<i64> v; for (i64 x = -172801; x <= 172801; x += mc::g_thorough ? 1 : 97) v.push_back(x); for (i64 x = -90; x <= 90; ++x) { v.push_back(x); v.push_back(86400 + x); v.push_back(-86400 + x); } for (i64 x = -172800; x <= 172800; x += 60) v.push_back(x); std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }();
  R.add("full-day-seconds", fmt("every second of the day x %zu amounts within two days either way (%s), add and remove", am.size(), mc::g_thorough ? "all of them" : "every 97th, every minute, and all near 0 and one day"), 86400, 400,
        [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); c.st(); const datetime<seconds> t = mk<seconds>(57000, (i64)i);
          for (i64 x : am) { i64 e = 57000LL * 86400 + (i64)i + x, q = e / 86400, r = e % 86400;
            datetime<seconds> u = t; u.add_seconds(seconds{(long)x});
            if (val(u.mjd()) != q || val(u.sec()) != r) c.fail(i, "C05", "%s add %lld s -> %s", str(t).c_str(), x, str(u).c_str());
            u = t; u.remove_seconds(seconds{(long)-x});
            if (val(u.mjd()) != q || val(u.sec()) != r) c.fail(i, "C05", "%s remove %lld s -> %s", str(t).c_str(), -x, str(u).c_str()); }
          c.tr(2 * am.size()); c.out(i); } },
        [=](u64 i) { return fmt("second %llu of MJD 57000", i); });
  // complete day at one-millisecond resolution, boundary amounts
  static std::vector<i64> ma; for (i64 x : amt_alphabet<milliseconds>()) if (x > -200000000LL && x < 200000000LL && (mc::g_thorough || x % 7 != 3)) ma.push_back(x);
  const i64 stride = mc::g_thorough ? 1 : 13;
  R.add("full-day-milliseconds", fmt("every %lldth millisecond of the day x %zu boundary amounts", stride, ma.size()), 86400, 400,
        [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); u64 n = 0;
          for (i64 s = (i64)i * 1000; s < (i64)i * 1000 + 1000; s += stride) { const datetime<milliseconds> t = mk<milliseconds>(57000, s); ++n;
            for (i64 x : ma) { i64 e = 57000LL * 86400000 + s + x, q = e / 86400000, r = e % 86400000;
              datetime<milliseconds> u = t; u.add_seconds(milliseconds{(long)x});
              if (val(u.mjd()) != q || val(u.sec()) != r) c.fail(i, "C05", "%s add %lld ms -> %s", str(t).c_str(), x, str(u).c_str());
              u.remove_seconds(milliseconds{(long)x});
              if (val(u.mjd()) != 57000 || val(u.sec()) != s) c.fail(i, "C05", "%s add, remove %lld ms -> %s", str(t).c_str(), x, str(u).c_str()); } }
          c.st(n); c.tr(2 * n * ma.size()); c.out(i); } },
        [=](u64 i) { return fmt("milliseconds of second %llu of MJD 57000", i); });
  return R.main(argc, argv);
}
