// C17, what an object was asked and how it got its value does not matter: every sequence of operations on two objects
// of one type, each step and finally every view compared with objects newly made from the same values.
#pragma once
#include <array>
#include <type_traits>
namespace obj {
using namespace gg;
template<class T> struct Machine {
  std::string name; int depth = 3;
  std::vector<std::pair<T, T>> start;
  std::vector<std::pair<std::string, std::function<void(T&, T&)>>> mut;
  std::vector<std::pair<std::string, std::function<u64(const T&, const T&)>>> obs;
  std::function<std::array<i64, 2>(const T&)> key; std::function<T(const std::array<i64, 2>&)> fresh;
  typedef std::array<i64, 4> K; std::map<K, std::vector<u64>> memo; std::vector<int> trail; u64 at = 0, n = 0; bool primed = false; std::pair<std::string, std::string> s0;
  K k(const T& a, const T& b) const { const auto x = key(a), y = key(b); return {x[0], x[1], y[0], y[1]}; }
  const std::vector<u64>& want(const K& q) { auto it = memo.find(q); if (it != memo.end()) return it->second; std::vector<u64> v; for (auto& o : obs) { const T a = fresh({q[0], q[1]}), b = fresh({q[2], q[3]}); v.push_back(o.second(a, b)); } return memo[q] = v; }
  std::string path(size_t st) const { std::string s = fmt("%s, pair %zu%s", name.c_str(), st, primed ? ", every view asked for" : ""); for (int o : trail) s += "; " + (o < (int)mut.size() ? mut[o].first : obs[o - mut.size()].first); return s; }
  void views(T& a, T& b, size_t st, Ctx& c) { const auto& w = want(k(a, b)); for (size_t o = 0; o < obs.size(); ++o) { c.tr(); if (obs[o].second(a, b) != w[o]) c.fail(at, "C17", "%s; then %s differs from that of new objects of the same value (%lld, %lld)", path(st).c_str(), obs[o].first.c_str(), key(a)[0], key(a)[1]); } }
  void rec(const T& a0, const T& b0, int d, size_t st, Ctx& c) {
    if ((++n & 255) == 0) c.beat();
    c.st();
    if (!d) { T a = a0, b = b0; views(a, b, st, c); return; }
    const int tot = (int)(mut.size() + obs.size());
    for (int o = 0; o < tot; ++o) step(a0, b0, o, d, st, c);
  }
  void step(const T& a0, const T& b0, int o, int d, size_t st, Ctx& c) {
    T a = a0, b = b0; trail.push_back(o); c.tr();
    if (o < (int)mut.size()) { T x = fresh(key(a)), y = fresh(key(b)); mut[o].second(a, b); mut[o].second(x, y); const K g = k(a, b), w = k(x, y);
      if (g != w) c.fail(at, "C17", "%s gives (%lld, %lld), (%lld, %lld) but (%lld, %lld), (%lld, %lld) from new objects of the same values", path(st).c_str(), g[0], g[1], g[2], g[3], w[0], w[1], w[2], w[3]); }
    else if (obs[o - mut.size()].second(a, b) != want(k(a, b))[o - mut.size()]) c.fail(at, "C17", "%s: differs from new objects of the same value (%lld, %lld)", path(st).c_str(), key(a)[0], key(a)[1]);
    rec(a, b, d - 1, st, c); trail.pop_back();
  }
  u64 cases() const { return start.size() * 2 * (mut.size() + obs.size()); }
  void run(u64 i, Ctx& c) { at = i; const u64 tot = mut.size() + obs.size(); const size_t st = i / (2 * tot); primed = i / tot % 2; T a = fresh(key(start[st].first)), b = fresh(key(start[st].second)); trail.clear();
    if (primed) for (auto& o : obs) { (void)o.second(a, b); (void)o.second(b, a); }
    step(a, b, (int)(i % tot), depth, st, c); c.out(i); c.trace(); }
};
inline u64 hs(const std::string& s) { return mc::hstr(s); }
inline u64 h(std::initializer_list<i64> l) { u64 r = 7; for (i64 x : l) r = mc::mix(r, (u64)x); return r; }
inline u64 hd(double d) { u64 r; memcpy(&r, &d, 8); return r; }
#define OP(NAME, ...) m.mut.push_back({NAME, [](T& a, T& b) { (void)a; (void)b; __VA_ARGS__; }})
#define OB(NAME, ...) m.obs.push_back({NAME, [](const T& a, const T& b) -> u64 { (void)a; (void)b; __VA_ARGS__; }})
#define ORDER OB("the comparisons", return (u64)(a == b) | (u64)(a != b) << 1 | (u64)(a < b) << 2 | (u64)(a <= b) << 3 | (u64)(a > b) << 4 | (u64)(a >= b) << 5)
template<class S> Machine<datetime<S>>& datetimes(int depth) {
  typedef datetime<S> T; static Machine<T> m; m.name = fmt("date-times (%s)", Tr<S>::name()); m.depth = depth;
  constexpr i64 u = Tr<S>::tps, D = day_ticks<S>();
  m.key = [](const T& t) { return std::array<i64, 2>{val(t.mjd()), val(t.sec())}; }; m.fresh = [](const std::array<i64, 2>& v) { return mk<S>(v[0], v[1]); };
  m.start = {{mk<S>(ref::to_mjd(2015, 12, 31), D - 1), mk<S>(ref::to_mjd(2016, 2, 28), 0)}, {mk<S>(ref::to_mjd(2000, 3, 1), 0), mk<S>(ref::to_mjd(2000, 3, 1), 1)}, {mk<S>(ref::to_mjd(2017, 1, 1), 43200 * u), mk<S>(ref::to_mjd(2017, 1, 1), 43200 * u)}};
  OP("a.add_seconds(1 tick)", a.add_seconds(S{1L})); OP("a.remove_seconds(1 tick)", a.remove_seconds(S{1L})); OP("a.add_seconds(1 day)", a.add_seconds(S{D})); OP("a.remove_seconds(31 days)", a.remove_seconds(S{31 * D}));
  OP("a += 1 tick", a += datetime_interval<S>(modified_julian_day{0L}, S{1L})); OP("a += 1 day", a += datetime_interval<S>(modified_julian_day{1L}, S{0L}));
  OP("a.add_seconds(3 s)", a.template add_seconds<seconds>(seconds{3L})); OP("a.remove_seconds(3 s)", a.template remove_seconds<seconds>(seconds{3L})); OP("a.add_seconds(2000000 us)", a.template add_seconds<microseconds>(microseconds{2000000L})); OP("a.remove_seconds(2000000 us)", a.template remove_seconds<microseconds>(microseconds{2000000L}));
  OP("a.normalize()", a.normalize()); OP("a = b", a = b); OP("b = a", b = a); OP("a = a", T& q = a; a = q); OP("swap(a, b)", std::swap(a, b)); OP("b = T(move(a))", T q(std::move(b)); b = T(a); (void)q); OP("a = a.add(40 days, 1 tick)", a = a.add(modified_julian_day{40L}, S{1L})); OP("a = another", a = mk<S>(58000, 77)); OP("b.add_seconds(1 day)", b.add_seconds(S{D}));
  OB("as_ymd", auto y = a.as_ymd(); return h({val(y.__year), val(y.__month), val(y.__dom)})); OB("as_ydoy", auto y = a.as_ydoy(); return h({val(y.__year), val(y.__doy)})); OB("as_hmsf", auto x = a.as_hmsf(); return h({val(std::get<0>(x)), val(std::get<1>(x)), val(std::get<2>(x)), (i64)std::get<3>(x)}));
  OB("as_gps_wsow(long)", long w; auto g = a.as_gps_wsow(w); return h({val(g), w})); OB("as_gps_wsow", S w{0L}; auto g = a.as_gps_wsow(w); return h({val(g), val(w)})); OB("as_mjd", return hd(a.as_mjd())); OB("stringify", return hs(a.stringify())); OB("strftime_ymd_hms", return hs(strftime_ymd_hms(a))); OB("strftime_ymd_hmfs", return hs(strftime_ymd_hmfs(a)));
  OB("dat", return val(a.mjd()) < 41317 ? 0 : (u64)dat(a)); OB("cast_to", auto x = a.template cast_to<seconds>(); auto y = a.template cast_to<microseconds>(); return h({val(x.mjd()), val(x.sec()), val(y.mjd()), val(y.sec())})); OB("sec_as_i", return (u64)a.sec_as_i()); OB("delta_sec", return h({val(a.delta_sec(b)), val(delta_sec(b, a))})); OB("delta_date", auto x = a.delta_date(b); auto y = delta_date(b, a); return h({val(x.days()), val(x.sec()), val(y.days()), val(y.sec())})); ORDER;
  return m;
}
template<class S> Machine<datetime_interval<S>>& intervals(int depth) {
  typedef datetime_interval<S> T; static Machine<T> m; m.name = fmt("intervals (%s)", Tr<S>::name()); m.depth = depth;
  m.key = [](const T& t) { return std::array<i64, 2>{val(t.days()), val(t.sec())}; }; m.fresh = [](const std::array<i64, 2>& v) { return T(modified_julian_day{(long)v[0]}, S{(long)v[1]}); };
  m.start = {{T(modified_julian_day{3L}, S{5L}), T(modified_julian_day{3L}, S{5L})}, {T(modified_julian_day{0L}, S{day_ticks<S>() - 1}), T(modified_julian_day{1L}, S{0L})}};
  OP("a.normalize()", a.normalize()); OP("a = b", a = b); OP("b = a", b = a); OP("swap(a, b)", std::swap(a, b)); OP("a = a / 2", a = a / 2); OP("a = another", a = T(modified_julian_day{100L}, S{77L})); OP("a = T()", a = T()); OP("b = b / 3", b = b / 3);
  OB("as_mjd", return hd(a.as_mjd())); OB("parts", return h({val(a.days()), val(a.sec())})); OB("a / 7", auto x = a / 7; return h({val(x.days()), val(x.sec())})); ORDER;
  return m;
}
template<class T> void plain(Machine<T>& m, const char* name, int depth, std::initializer_list<long> st) {
  m.name = name; m.depth = depth; typedef typename T::underlying_type U;
  m.key = [](const T& t) { return std::array<i64, 2>{val(t), 0}; }; m.fresh = [](const std::array<i64, 2>& v) { return T{(U)v[0]}; };
  for (long x : st) m.start.push_back({T{(U)x}, T{(U)(x + 1)}});
  OP("++a", ++a); OP("a--", a--); OP("a += 2", a += 2); OP("a -= b", a -= b); OP("a = b", a = b); OP("b = a", b = a); OP("swap(a, b)", std::swap(a, b)); OP("b += 31", b += 31); OP("a = 5", a = T{(U)5});
  OB("the value", return (u64)val(a)); ORDER;
}
template<class T, class = void> struct has_days : std::false_type {};
template<class T> struct has_days<T, decltype((void)std::declval<T&>().remove_days())> : std::true_type {};
template<class S> Machine<S>& amounts(const char* name, int depth) {
  typedef S T; static Machine<T> m; constexpr long D = S::max_in_day; plain<T>(m, name, depth, {0, D - 1, 3 * D + 7});
  OP("a.remove_days()", a.remove_days()); OP("a = a + b", a = a + b); OP("a += 1 day", a += D);
  OB("to_days", return (u64)a.to_days()); OB("fractional_days", return hd(a.fractional_days())); OB("to_fractional_seconds", return hd(a.to_fractional_seconds())); OB("more_than_day", return (u64)a.more_than_day()); OB("to_hmsf", auto x = a.to_hmsf(); return h({val(std::get<0>(x)), val(std::get<1>(x)), val(std::get<2>(x)), (i64)std::get<3>(x)})); OB("as seconds", return (u64)val(static_cast<seconds>(a)));
  OB("cast_to", return h({val(cast_to<S, microseconds>(S(a))), val(cast_to<S, seconds>(S(a)))}));
  return m;
}
inline Machine<modified_julian_day>& mjds(int depth) {
  typedef modified_julian_day T; static Machine<T> m; plain<T>(m, "day numbers", depth, {57386, 57447, 51603, 44243});
  OB("to_ymd", auto y = a.to_ymd(); return h({val(y.__year), val(y.__month), val(y.__dom)})); OB("to_ydoy", auto y = a.to_ydoy(); return h({val(y.__year), val(y.__doy)})); OB("to_julian_day", return hd(a.to_julian_day())); OB("dat", return val(a) < 41317 ? 0 : (u64)dat(a)); OB("a + b, a - b", return h({val(a + b), val(a - b)}));
  return m;
}
inline Machine<month>& months(int depth) {
  typedef month T; static Machine<T> m; m.name = "months"; m.depth = depth; m.key = [](const T& t) { return std::array<i64, 2>{val(t), 0}; }; m.fresh = [](const std::array<i64, 2>& v) { return T{(int)v[0]}; };
  for (int x : {1, 2, 11}) m.start.push_back({T{x}, T{x + 1}});
  OP("++a", if (val(a) < 12) ++a); OP("--a", if (val(a) > 1) --a); OP("a = b", a = b); OP("b = a", b = a); OP("swap(a, b)", std::swap(a, b)); OP("a = Aug", a = T{"Aug"}); OP("b -= 1", if (val(b) > 1) b -= 1);
  OB("short_name", return hs(a.short_name())); OB("long_name", return hs(a.long_name())); OB("is_valid", return (u64)a.is_valid()); OB("days", u64 r = 0; for (int d = 28; d < 32; ++d) r = r * 2 + day_of_month{d}.is_valid(year{2016}, a); return r); ORDER;
  return m;
}
#undef OP
#undef OB
#undef ORDER
template<class M> void space(mc::Runner& R, M& m) {
  R.add("objects: " + m.name, fmt("every sequence of %d out of %zu operations on two objects from %zu pairs, with and without every view asked for before; every view after each sequence", m.depth + 1, m.mut.size() + m.obs.size(), m.start.size()), m.cases(), 1,
        [&m](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); m.run(i, c); } },
        [&m](u64 i) { const u64 t = m.mut.size() + m.obs.size(), o = i % t; return fmt("pair %llu%s, sequences beginning ", i / t / 2, i / t % 2 ? ", viewed" : "") + (o < m.mut.size() ? m.mut[o].first : m.obs[o - m.mut.size()].first); });
}
inline void all(mc::Runner& R, bool th) {
  const int d = th ? 4 : 3;   // after the first operation
  space(R, datetimes<seconds>(d)); space(R, datetimes<milliseconds>(d)); space(R, datetimes<microseconds>(d));
  space(R, intervals<seconds>(d + 1)); space(R, intervals<milliseconds>(d + 1)); space(R, intervals<microseconds>(d + 1));
  space(R, amounts<seconds>("seconds", d)); space(R, amounts<milliseconds>("milliseconds", d)); space(R, amounts<microseconds>("microseconds", d)); space(R, mjds(d)); space(R, months(d));
}
}
