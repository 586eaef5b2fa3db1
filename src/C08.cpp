// C08 changing resolution keeps the instant.
#include "gg.hpp"
#include <climits>
using namespace gg;

template<class A, class B> struct Pair { static constexpr i64 up = Tr<B>::tps >= Tr<A>::tps ? Tr<B>::tps / Tr<A>::tps : 1, dn = Tr<A>::tps > Tr<B>::tps ? Tr<A>::tps / Tr<B>::tps : 1; };
template<class A, class B> static bool expect(i64 x, i64& r) {  // false: not representable
  i128 w = (i128)x * Pair<A, B>::up; if (w > LONG_MAX || w < LONG_MIN) return false;
  if (Pair<A, B>::dn > 1) { i128 q = x / Pair<A, B>::dn; w = q; }  // C++ division: toward zero
  r = (i64)w; return true;
}
template<class A, class B> static void amount(u64 i, i64 x, Ctx& c) {
  i64 w; if (!expect<A, B>(x, w)) return;
  const A a{(long)x}; const B b = ngpt::cast_to<A, B>(a); c.tr();
  if (val(b) != w) c.fail(i, "C08", "cast_to<%s, %s>(%lld) = %lld, expected %lld", Tr<A>::name(), Tr<B>::name(), x, val(b), w);
  if (val(a) != x) c.fail(i, "C08", "cast_to<%s, %s> changed its argument", Tr<A>::name(), Tr<B>::name());
  if constexpr (Tr<A>::tps >= Tr<B>::tps) {
    const B s = static_cast<B>(a); const B k{a}; B as(a); c.tr(3);
    if (val(s) != w || val(k) != w || val(as) != w) c.fail(i, "C08", "%s(%lld) converted to %s: static_cast %lld, constructor %lld, cast_to %lld", Tr<A>::name(), x, Tr<B>::name(), val(s), val(k), w);
    const B r = ngpt::cast_to<A, B>(ngpt::cast_to<B, A>(b)); c.tr();
    if (val(r) != w) c.fail(i, "C08", "%s: %lld to %s and back gave %lld", Tr<B>::name(), w, Tr<A>::name(), val(r));
  } else {
    const A r = ngpt::cast_to<B, A>(b); c.tr();
    if (val(r) != x) c.fail(i, "C08", "%s: %lld to %s and back gave %lld", Tr<A>::name(), x, Tr<B>::name(), val(r));
  }
}
// through every intermediate resolution the result is the same
template<class A, class M, class B> static void via(u64 i, i64 x, Ctx& c) {
  // truncation composes only when the intermediate is at least as fine as the coarser end
  i64 m, w, d; if (!expect<A, M>(x, m) || !expect<A, B>(x, w) || !expect<M, B>(m, d)) return;
  if (Tr<M>::tps < Tr<A>::tps && Tr<M>::tps < Tr<B>::tps) return;
  const B r = ngpt::cast_to<M, B>(ngpt::cast_to<A, M>(A{(long)x})); c.tr();
  if (val(r) != w) c.fail(i, "C08", "%lld %s via %s to %s gave %lld, directly %lld", x, Tr<A>::name(), Tr<M>::name(), Tr<B>::name(), val(r), w);
}
static const std::vector<i64>& extremes() {
  static auto v = [] { std::set<i64> s;
    auto add = [&](i128 z) { for (i64 e = -3; e <= 3; ++e) { i128 q = z + e; if (q >= LONG_MIN && q <= LONG_MAX) { s.insert((i64)q); if (-q <= LONG_MAX) s.insert((i64)-q); } } };
    for (int b = 0; b < 64; ++b) add((i128)1 << b);
    i128 p = 1; for (int k = 0; k < 19; ++k) { for (int m = 1; m < 10; ++m) add(p * m); p *= 10; }
    for (i128 d : {1000, 1000000}) { add(LONG_MAX / d); add((i128)LONG_MAX / d * d); add(LONG_MIN / d); add((i128)LONG_MIN / d * d); }
    for (i128 u : {1, 1000, 1000000}) { const i128 D = 86400 * u; for (i128 n : {1, 2, 7, 365, 36525, 146097, 1000000, 106751991}) { add(D * n); add(D * n + u - 1); add(D * n - u); add(D * n + u / 2); } add(60 * u); add(3600 * u); }
    for (i64 x : ladder(1000, LONG_MAX, 51, 50)) { s.insert(x); s.insert(-x); }
    add(LONG_MAX); add(LONG_MIN);
    return std::vector<i64>(s.begin(), s.end()); }();
  return v;
}
template<class A> static void all_amounts(u64 i, i64 x, Ctx& c) {
  amount<A, seconds>(i, x, c); amount<A, milliseconds>(i, x, c); amount<A, microseconds>(i, x, c); c.st();
}
template<class A> static void all_via(u64 i, i64 x, Ctx& c) {
  via<A, seconds, seconds>(i, x, c); via<A, seconds, milliseconds>(i, x, c); via<A, seconds, microseconds>(i, x, c);
  via<A, milliseconds, seconds>(i, x, c); via<A, milliseconds, milliseconds>(i, x, c); via<A, milliseconds, microseconds>(i, x, c);
  via<A, microseconds, seconds>(i, x, c); via<A, microseconds, milliseconds>(i, x, c); via<A, microseconds, microseconds>(i, x, c);
}
template<class A, class B> static void dt_one(u64 i, i64 d, i64 t, Ctx& c) {
  const datetime<A> a = mk<A>(d, t); const auto b = a.template cast_to<B>(); c.tr();
  i64 w = Tr<B>::tps >= Tr<A>::tps ? t * Pair<A, B>::up : t / Pair<A, B>::dn;
  if (val(b.mjd()) != d || val(b.sec()) != w) c.fail(i, "C08", "%s cast to %s gave %s", str(a).c_str(), Tr<B>::name(), str(b).c_str());
  if (val(a.mjd()) != d || val(a.sec()) != t) c.fail(i, "C08", "cast_to changed its object, now %s", str(a).c_str());
  if (Tr<B>::tps >= Tr<A>::tps) { auto r = b.template cast_to<A>(); c.tr(); if (!(r == a)) c.fail(i, "C08", "%s cast to %s and back gave %s", str(a).c_str(), Tr<B>::name(), str(r).c_str()); }
}
template<class A> static void dt(u64 i, i64 d, i64 t, Ctx& c) { dt_one<A, seconds>(i, d, t, c); dt_one<A, milliseconds>(i, d, t, c); dt_one<A, microseconds>(i, d, t, c); c.st(); }
template<class A> static void spaces() {
  auto& R = mc::R(); const std::string nm = Tr<A>::name();
  R.add("extreme-" + nm, fmt("%zu amounts around every power of two, decimal boundaries, day multiples and the limits of the type x 3 targets, every spelling, there and back, and via every intermediate resolution", extremes().size()), extremes().size(), 200,
        [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); all_amounts<A>(i, extremes()[i], c); all_via<A>(i, extremes()[i], c); c.out((u64)extremes()[i]); } }, [=](u64 i) { return fmt("%lld %s", extremes()[i], Tr<A>::name()); });
  // complete ranges
  const i64 lim = Tr<A>::tps == 1 ? 86400LL * 400 : Tr<A>::tps == 1000 ? 2LL * 86400000 : (mc::g_thorough ? 2LL * 86400000000LL : 61000000LL);
  const i64 blk = (lim + 4095) / 4096;
  R.add("range-" + nm, fmt("every amount from -%lld to %lld x 3 targets, every spelling, there and back", lim, lim), 8192, 64,
        [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); i64 lo = -lim + (i64)i * blk, hi = std::min(lo + blk, lim + 1); for (i64 x = lo; x < hi; ++x) { all_amounts<A>(i, x, c); if ((x & 0xfffff) == 0) c.beat(); } c.out(i); } },
        [=](u64 i) { return fmt("%lld amounts from %lld %s", blk, -lim + (i64)i * blk, Tr<A>::name()); });
  R.add("datetime-" + nm, "date-times: boundary days x boundary times of day x 3 targets, and back", day_alphabet().size(), 4,
        [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); for (i64 t : tod_alphabet<A>()) dt<A>(i, day_alphabet()[i], t, c); c.out(i); } }, [=](u64 i) { return fmt("mjd %lld", day_alphabet()[i]); });
  R.add("datetime-far-" + nm, fmt("date-times: %zu days to +-2^62 x boundary times of day x 3 targets, and back", far_days().size()), far_days().size(), 4,
        [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); for (i64 t : tod_alphabet<A>()) dt<A>(i, far_days()[i], t, c); c.out(i); } }, [=](u64 i) { return fmt("mjd %lld", far_days()[i]); });
  const i64 st = Tr<A>::tps == 1000000 ? (mc::g_thorough ? 1 : 997) : 1;
  R.add("datetime-day-" + nm, fmt("date-times: every %s tick of one day x 3 targets, and back", st == 1 ? "single" : "997th"), 864, 4,
        [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); for (int q = 0; q < 100; ++q) { i64 s0 = ((i64)i * 100 + q) * Tr<A>::tps; for (i64 t = s0; t < s0 + Tr<A>::tps; t += st) dt<A>(i, 57754, t, c); c.beat(); } c.out(i); } },
        [=](u64 i) { return fmt("100 seconds from %llu", i * 100); });
}
int main(int argc, char** argv) {
  mc::init("C08");
  spaces<seconds>(); spaces<milliseconds>(); spaces<microseconds>();
  return mc::R().main(argc, argv);
}
