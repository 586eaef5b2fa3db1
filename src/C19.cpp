// C19 every quantity type against the integer it wraps.
#include "gg.hpp"
#include <memory>
using namespace gg; using namespace ngpt;
template<class Q> struct Nm; 
#define NM(Q, D) template<> struct Nm<Q> { static const char* s() { return #Q; } static constexpr i64 def = D; };
NM(year, 1900) NM(month, 1) NM(gps_week, 1) NM(day_of_month, 1) NM(day_of_year, 0) NM(modified_julian_day, 1) NM(hours, 0) NM(minutes, 0) NM(seconds, 0) NM(milliseconds, 0) NM(microseconds, 0)
#define EACH_Q(F) F(0, year) F(1, month) F(2, gps_week) F(3, day_of_month) F(4, day_of_year) F(5, modified_julian_day) F(6, hours) F(7, minutes) F(8, seconds) F(9, milliseconds) F(10, microseconds)
template<class Q> using U = typename Q::underlying_type;
template<class Q> constexpr bool has_plus = std::is_same<Q, modified_julian_day>::value || std::is_same<Q, seconds>::value || std::is_same<Q, milliseconds>::value || std::is_same<Q, microseconds>::value;
template<class Q> constexpr bool has_assign = !std::is_same<Q, month>::value;
template<class T> static bool fits(i128 v) { return v >= (i128)std::numeric_limits<T>::min() && v <= (i128)std::numeric_limits<T>::max(); }
template<class T> static const std::vector<i64>& limits() {
  static std::vector<i64> v = [] { std::set<i64> s; for (int k = 0; k < 64; ++k) for (int e = -1; e <= 1; ++e) for (int g = -1; g <= 1; g += 2) { i128 x = (i128)g * ((i128)1 << k) + e; if (fits<T>(x)) s.insert((i64)x); }
    for (i64 x : {86400LL, 86400000LL, 86400000000LL, 1000LL, 1000000LL, 3600LL, 44244LL, 57754LL, 146097LL}) for (int e = -1; e <= 1; ++e) for (int g = -1; g <= 1; g += 2) if (fits<T>(g * x + e)) s.insert(g * x + e);
    s.insert(std::numeric_limits<T>::min()); s.insert(std::numeric_limits<T>::max()); return std::vector<i64>(s.begin(), s.end()); }();
  return v;
}
#define BAD(...) c.fail(i, "C19", "%s", (std::string(Nm<Q>::s()) + ": " + fmt(__VA_ARGS__)).c_str())
template<class Q, bool P> struct Plus { static void t(u64, i64, i64, Ctx&) {} };
template<class Q> struct Plus<Q, true> { static void t(u64 i, i64 a, i64 b, Ctx& c) {
  const Q x{(U<Q>)a}, y{(U<Q>)b};
  if (fits<U<Q>>((i128)a + b)) { auto z = x + y; static_assert(std::is_same<decltype(z), Q>::value, ""); if (val(z) != a + b) BAD("%lld + %lld gives %lld", a, b, val(z)); }
  if (fits<U<Q>>((i128)a - b)) { auto z = x - y; static_assert(std::is_same<decltype(z), Q>::value, ""); if (val(z) != a - b) BAD("%lld - %lld gives %lld", a, b, val(z)); }
  if (val(x) != a || val(y) != b) BAD("plus/minus changed its operands %lld, %lld", a, b);
} };
template<class Q> static void pair(u64 i, i64 a, i64 b, Ctx& c) {
  const Q x{(U<Q>)a}, y{(U<Q>)b}; c.st(); c.tr(10);
  if (val(x) != a || x.as_underlying_type() != (U<Q>)a) BAD("built from %lld holds %lld", a, val(x));
  if ((x == y) != (a == b) || (x != y) != (a != b) || (x < y) != (a < b) || (x <= y) != (a <= b) || (x > y) != (a > b) || (x >= y) != (a >= b)) BAD("comparison of %lld and %lld is not that of the integers", a, b);
  if (fits<U<Q>>((i128)a + b)) { Q z = x; Q& r = (z += y); if (&r != &z || val(z) != a + b) BAD("%lld += quantity %lld gives %lld%s", a, b, val(z), &r != &z ? " and does not return the object" : ""); Q w = x; U<Q> k = (U<Q>)b; Q& q = (w += k); if (&q != &w || val(w) != a + b || k != b) BAD("%lld += integer %lld gives %lld", a, b, val(w)); }
  if (fits<U<Q>>((i128)a - b)) { Q z = x; Q& r = (z -= y); if (&r != &z || val(z) != a - b) BAD("%lld -= quantity %lld gives %lld%s", a, b, val(z), &r != &z ? " and does not return the object" : ""); Q w = x; U<Q> k = (U<Q>)b; Q& q = (w -= k); if (&q != &w || val(w) != a - b) BAD("%lld -= integer %lld gives %lld", a, b, val(w)); }
  { Q z = x; Q& r = (z = y); if (&r != &z || val(z) != b || val(y) != b) BAD("%lld = quantity %lld gives %lld", a, b, val(z)); }
  if (val(x) != a || val(y) != b) BAD("an operation changed its operand (%lld, %lld)", a, b);
  Plus<Q, has_plus<Q>>::t(i, a, b, c);
}
template<class Q, class I> static typename std::enable_if<has_assign<Q>>::type assign(u64 i, i64 a, I v, i128 m, Ctx& c) { if (fits<U<Q>>(m)) { Q z{(U<Q>)a}; Q& r = (z = v); if (&r != &z || val(z) != (i64)m) BAD("= integer %s gives %lld", mc::i128s(m).c_str(), val(z)); } }
template<class Q, class I> static typename std::enable_if<!has_assign<Q>>::type assign(u64, i64, I, i128, Ctx&) {}
template<class Q, class I> static void with_int(u64 i, Ctx& c) {  // right operand of another integer type
  for (i64 k : limits<long>()) { if (!fits<I>(k)) { if (!(std::is_unsigned<I>::value && k < 0)) continue; } const I v = (I)k; const i128 m = (i128)v;
    for (i64 a : {(i64)0, (i64)1, (i64)-1, (i64)57754, (i64)std::numeric_limits<U<Q>>::max(), (i64)std::numeric_limits<U<Q>>::min(), (i64)(std::numeric_limits<U<Q>>::max() / 2)}) {
      c.st(); c.tr(3);
      if (fits<U<Q>>((i128)a + m)) { Q z{(U<Q>)a}; Q& r = (z += v); if (&r != &z || val(z) != (i64)(a + m)) BAD("%lld += %s (integer of %zu bytes) gives %lld", a, mc::i128s(m).c_str(), sizeof(I), val(z)); }
      if (fits<U<Q>>((i128)a - m)) { Q z{(U<Q>)a}; Q& r = (z -= v); if (&r != &z || val(z) != (i64)(a - m)) BAD("%lld -= %s (integer of %zu bytes) gives %lld", a, mc::i128s(m).c_str(), sizeof(I), val(z)); }
      assign<Q, I>(i, a, v, m, c);
    } }
}
template<class Q> static void steps(u64 i, i64 a, Ctx& c) {
  c.st(); c.tr(4); const U<Q> A = (U<Q>)a;
  if (fits<U<Q>>((i128)a + 1)) { Q z{A}; Q& r = ++z; if (&r != &z || val(z) != a + 1) BAD("++ on %lld gives %lld%s", a, val(z), &r != &z ? " and does not return the object" : ""); Q w{A}; Q o = w++; if (val(o) != a || val(w) != a + 1) BAD("postfix ++ on %lld returns %lld, leaves %lld", a, val(o), val(w)); }
  if (fits<U<Q>>((i128)a - 1)) { Q z{A}; Q& r = --z; if (&r != &z || val(z) != a - 1) BAD("-- on %lld gives %lld%s", a, val(z), &r != &z ? " and does not return the object" : ""); Q w{A}; Q o = w--; if (val(o) != a || val(w) != a - 1) BAD("postfix -- on %lld returns %lld, leaves %lld", a, val(o), val(w)); }
  if (fits<U<Q>>((i128)a + a)) { Q z{A}; z += z; if (val(z) != a + a) BAD("x += x on %lld gives %lld", a, val(z)); }
  { Q z{A}; z -= z; if (val(z) != 0) BAD("x -= x on %lld gives %lld", a, val(z)); Q y{A}; Q& self = y; y = self; Q w{y}; Q v{std::move(w)}; if (val(y) != a || val(v) != a || !(y == self) || y != v || y < self || !(y <= self)) BAD("self assignment, copy or self comparison on %lld", a); }
}
// all operation sequences on two registers x, y against two integers
static const int NOPS = 19;
template<class Q> static typename std::enable_if<has_assign<Q>>::type set(Q& q, i64 v) { q = (long)v; }
template<class Q> static typename std::enable_if<!has_assign<Q>>::type set(Q& q, i64 v) { q = Q{(U<Q>)v}; }
template<class Q, bool P> struct Sum { static void f(Q& x, Q& y, bool m) { if (m) x -= y; else x += y; } };
template<class Q> struct Sum<Q, true> { static void f(Q& x, Q& y, bool m) { x = m ? x - y : x + y; } };
template<class Q> static bool apply(int op, Q& x, Q& y, i128& a, i128& b, std::string* t) {  // false: would overflow
  i128 na = a, nb = b;
  switch (op) { case 0: case 1: na = a + 1; break; case 2: case 3: na = a - 1; break; case 4: na = a + 7; break; case 5: na = a - 86400; break; case 6: na = a + b; break; case 7: na = a - b; break; case 8: nb = b + a; break; case 9: nb = b - a; break;
    case 10: na = a + a; break; case 11: na = 31; break; case 12: na = b; break; case 13: na = b; nb = a; break; case 14: nb = a; na = a + 1; break; case 15: nb = a - 1; na = nb; break; case 16: na = a + b; break; case 17: na = a - b; break; case 18: nb = -3; break; }
  if (!fits<U<Q>>(na) || !fits<U<Q>>(nb)) return false;
  switch (op) { case 0: ++x; break; case 1: x++; break; case 2: --x; break; case 3: x--; break; case 4: x += 7; break; case 5: x -= 86400u; break; case 6: x += y; break; case 7: x -= y; break; case 8: y += x; break; case 9: y -= x; break;
    case 10: x += x; break; case 11: set(x, 31); break; case 12: x = y; break; case 13: std::swap(x, y); break; case 14: y = x++; break; case 15: y = --x; break; case 16: Sum<Q, has_plus<Q>>::f(x, y, false); break; case 17: Sum<Q, has_plus<Q>>::f(x, y, true); break; case 18: set(y, -3); break; }
  static const char* nm[] = {"++x", "x++", "--x", "x--", "x+=7", "x-=86400u", "x+=y", "x-=y", "y+=x", "y-=x", "x+=x", "x=31", "x=y", "swap(x,y)", "y=x++", "y=--x", "x=x+y", "x=x-y", "y=-3"};
  if (t) { if (!t->empty()) *t += "; "; *t += nm[op]; }
  a = na; b = nb; return true;
}
template<class Q> static void seqs(u64 i, i64 s, i64 s2, int depth, Ctx& c) {
  std::vector<int> ops; u64 cnt = 0;
  std::function<void(Q, Q, i128, i128, int)> go = [&](Q x, Q y, i128 a, i128 b, int d) {
    for (int op = 0; op < NOPS; ++op) { Q p = x, q = y; i128 u = a, v = b; if (!apply(op, p, q, u, v, nullptr)) continue; ++cnt; ops.push_back(op);
      if (val(p) != (i64)u || val(q) != (i64)v || (p < q) != (u < v) || (p == q) != (u == v) || (p >= q) != (u >= v)) { std::string t; Q m{(U<Q>)s}, n{(U<Q>)s2}; i128 e = s, f = s2; for (int o : ops) apply(o, m, n, e, f, &t); BAD("from x=%lld y=%lld, %s: holds %lld, %lld; the integers %lld, %lld", s, s2, t.c_str(), val(p), val(q), (i64)u, (i64)v); }
      if (d > 1) go(p, q, u, v, d - 1); ops.pop_back(); } };
  go(Q{(U<Q>)s}, Q{(U<Q>)s2}, s, s2, depth); c.st(cnt); c.tr(cnt); c.trace(cnt); c.beat();
}
template<class F> static void each_q(u64 q, F f) { switch (q) { 
#define CASE(k, T) case k: f(std::unique_ptr<T>()); break;
  EACH_Q(CASE) } }
static const char* qname(u64 q) { const char* r = ""; each_q(q, [&](auto p) { r = Nm<typename decltype(p)::element_type>::s(); }); return r; }
int main(int argc, char** argv) {
  mc::init("C19"); auto& R = mc::R(); const bool th = mc::g_thorough; const int B = th ? 700 : 200;
  R.add("small-pairs", fmt("11 types, every ordered pair of values in -%d..%d: six comparisons, += -= (same kind, integer), assignment, + - where offered", B, B), 11 * (u64)(2 * B + 1), 8,
        [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); const i64 x = (i64)(i % (2 * B + 1)) - B; each_q(i / (2 * B + 1), [&](auto p) { typedef typename decltype(p)::element_type Q; for (i64 y = -B; y <= B; ++y) pair<Q>(i, x, y, c); }); c.out(i); } },
        [=](u64 i) { return fmt("%s, left operand %lld", qname(i / (2 * B + 1)), (i64)(i % (2 * B + 1)) - B); });
  R.add("limit-pairs", "11 types, every ordered pair of 2^k-1, 2^k, 2^k+1 (both signs, k to the width of the type), the type limits and unit boundaries", 11, 1,
        [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); each_q(i, [&](auto p) { typedef typename decltype(p)::element_type Q; for (i64 x : limits<U<Q>>()) { for (i64 y : limits<U<Q>>()) pair<Q>(i, x, y, c); steps<Q>(i, x, c); } for (i64 x = -3; x <= 3; ++x) for (i64 y : limits<U<Q>>()) { pair<Q>(i, x, y, c); pair<Q>(i, y, x, c); } }); c.out(100 + i); } },
        [=](u64 i) { return std::string(qname(i)); });
  const i64 W = th ? 40000000 : 1000000;
  R.add("steps", fmt("11 types, every value in -%lld..%lld: ++, --, postfix, aliasing, copies; the same around the limits", W, W), 11 * 200, 4,
        [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); each_q(i / 200, [&](auto p) { typedef typename decltype(p)::element_type Q; const i64 n = 2 * W / 200; const i64 lo = -W + (i64)(i % 200) * n; for (i64 x = lo; x < lo + n; ++x) steps<Q>(i, x, c); if (i % 200 == 0) for (i64 k = 0; k < 20000; ++k) { steps<Q>(i, (i64)std::numeric_limits<U<Q>>::max() - k, c); steps<Q>(i, (i64)std::numeric_limits<U<Q>>::min() + k, c); } }); c.out(1000 + i); } },
        [=](u64 i) { return fmt("%s, part %llu", qname(i / 200), i % 200); });
  R.add("integer-types", "11 types, += -= = with every integer type on the right, values 2^k-1..2^k+1 of that type", 11, 1,
        [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); each_q(i, [&](auto p) { typedef typename decltype(p)::element_type Q; with_int<Q, signed char>(i, c); with_int<Q, unsigned char>(i, c); with_int<Q, char>(i, c); with_int<Q, bool>(i, c); with_int<Q, short>(i, c); with_int<Q, unsigned short>(i, c); with_int<Q, int>(i, c); with_int<Q, unsigned>(i, c); with_int<Q, long>(i, c); with_int<Q, unsigned long>(i, c); with_int<Q, long long>(i, c); with_int<Q, unsigned long long>(i, c); with_int<Q, wchar_t>(i, c); with_int<Q, char16_t>(i, c); }); c.out(5000 + i); } },
        [=](u64 i) { return std::string(qname(i)); });
  static const i64 ST[][2] = {{0, 1}, {-1, 0}, {2147483640, 6}, {-2147483648LL, 1}, {100, -100}};
  const int depth = th ? 5 : 4;
  R.add("sequences", fmt("11 types, two registers, every sequence of at most %d of %d operations (in-place, postfix, aliasing, assignment, swap) from 5 starts", depth, NOPS), 11 * 5, 1,
        [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); each_q(i / 5, [&](auto p) { typedef typename decltype(p)::element_type Q; seqs<Q>(i, ST[i % 5][0], ST[i % 5][1], depth, c); }); c.out(6000 + i); } },
        [=](u64 i) { return fmt("%s from x=%lld y=%lld", qname(i / 5), ST[i % 5][0], ST[i % 5][1]); });
  R.add("defaults", "default values; smallest and largest day number", 11, 11,
        [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); c.st(); each_q(i, [&](auto p) { typedef typename decltype(p)::element_type Q; Q q; if (val(q) != Nm<Q>::def || val(Q{}) != Nm<Q>::def) BAD("default value is %lld, documented %lld", val(q), Nm<Q>::def); }); }
            typedef modified_julian_day Q; const u64 i = a; if (val(Q::max()) != std::numeric_limits<long>::max() || val(Q::min()) != std::numeric_limits<long>::min()) BAD("min/max"); },
        [=](u64 i) { return std::string(qname(i)); });
  R.add("literals", "the eight literal operators on every value 0..200000, 2^k-1..2^k+1 within their range", 8, 1,
        [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); std::set<i64> v; for (i64 x = 0; x <= 200000; ++x) v.insert(x); for (i64 x : limits<long>()) if (x >= 0) v.insert(x);
            for (i64 x : v) { i64 g = x; bool small = x <= 2147483647; c.st(); c.tr(); switch (i) { case 0: if (small) g = val(operator""_Y((unsigned long long)x)); break; case 1: if (small) g = val(operator""_M((unsigned long long)x)); break; case 2: if (small) g = val(operator""_D((unsigned long long)x)); break; case 3: if (small) g = val(operator""_h((unsigned long long)x)); break; case 4: if (small) g = val(operator""_m((unsigned long long)x)); break; case 5: g = val(operator""_sec((unsigned long long)x)); break; case 6: g = val(operator""_millisec((unsigned long long)x)); break; case 7: g = val(operator""_microsec((unsigned long long)x)); break; }
              if (g != x) c.fail(i, "C19", "literal %llu of %lld gives %lld", i, x, g); } c.out(7000 + i); } },
        [=](u64 i) { static const char* n[] = {"_Y", "_M", "_D", "_h", "_m", "_sec", "_millisec", "_microsec"}; return std::string(n[i]); });
  R.add("days-that-fit", "per resolution: the advertised number of days fits and one more does not; days in a day; whole days at the limit come back", 3, 3,
        [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); auto f = [&](auto z) { typedef decltype(z) Q; c.st(); c.tr(4); const i128 n = max_days_allowed<Q>(), D = (i128)day_ticks<Q>(); if ((i128)Q::max_in_day != D) BAD("max_in_day is %lld", (i64)Q::max_in_day); if (!fits<U<Q>>(n * D) || fits<U<Q>>((n + 1) * D)) BAD("max_days_allowed is %lld", (i64)n);
              for (i64 k = 0; k < 100000; ++k) { const i64 d = (i64)n - k; const Q x = mjd_sec_diff<Q>(modified_julian_day{(long)d}, modified_julian_day{0}); if ((i128)val(x) != d * D) BAD("%lld days give %lld ticks", d, val(x)); } };
            if (i == 0) f(seconds{0}); else if (i == 1) f(milliseconds{0}); else f(microseconds{0}); c.out(8000 + i); } },
        [=](u64 i) { return fmt("resolution %llu", i); });
  return R.main(argc, argv);
}
