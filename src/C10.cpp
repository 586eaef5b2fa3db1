// C10 GPS week and time of week.
#include "gg.hpp"
using namespace gg;
static const i64 EPOCH = ref::to_mjd(1980, 1, 6);

template<class S> static void one(u64 i, i64 mjd, i64 t, i64 week, int dow, Ctx& c) {
  const datetime<S> d = mk<S>(mjd, t); const i64 D = day_ticks<S>();
  long sow = -77; S ticks{(long)424242}; c.tr(4);
  const gps_week w1 = d.as_gps_wsow(sow), w2 = d.as_gps_wsow(ticks);
  const i64 want = (i64)dow * D + t;
  if (val(w1) != week || val(w2) != week) c.fail(i, "C10", "%s: week %lld (whole seconds overload), %lld (own resolution); expected %lld", str(d).c_str(), val(w1), val(w2), week);
  if (sow != want / Tr<S>::tps) c.fail(i, "C10", "%s: %ld seconds of week, expected %lld", str(d).c_str(), sow, want / Tr<S>::tps);
  if (val(ticks) != want) c.fail(i, "C10", "%s: time of week %lld %s, expected %lld", str(d).c_str(), val(ticks), Tr<S>::name(), want);
  const datetime<S> r{w2, ticks};
  if (!(r == d) || inst(r) != inst(d) || !normal(r)) c.fail(i, "C10", "%s: built back from week %lld and %lld: %s", str(d).c_str(), val(w2), val(ticks), str(r).c_str());
  const int k = day_of_week(ticks), k2 = day_of_week(seconds{sow});
  if (k != dow || k2 != dow) c.fail(i, "C10", "%s: day of week %d from own resolution, %d from seconds; expected %d", str(d).c_str(), k, k2, dow);
  if (!w1.is_valid()) c.fail(i, "C10", "week of %s not valid", str(d).c_str());
}
template<class S> static void carry(u64 i, i64 week, i64 x, Ctx& c) {  // x >= 0 or negative, any size
  const datetime<S> d{gps_week{(long)week}, S{(long)x}}; c.tr(2); c.st();
  const i128 want = ref::inst(EPOCH + 7 * week, x, Tr<S>::tps);
  if (inst(d) != want || !normal(d)) c.fail(i, "C10", "week %lld, time of week %lld %s: %s", week, x, Tr<S>::name(), str(d).c_str());
  if (inst(d) < ref::inst(EPOCH, 0, Tr<S>::tps)) return;
  S tow; const gps_week w = d.as_gps_wsow(tow); const i128 W = (i128)7 * day_ticks<S>();
  if ((i128)val(w) * W + val(tow) != (i128)week * W + x || val(tow) < 0 || val(tow) >= W) c.fail(i, "C10", "week %lld, time of week %lld %s: back as week %lld, %lld", week, x, Tr<S>::name(), val(w), val(tow));
  c.out((u64)want);
}
static const std::vector<i64>& LADW() { static const auto v = ladder(1000, 1LL << 58, 5, 4); return v; }
static i64 FARW(u64 i) { return i < 59 * 3 ? (1LL << (i / 3)) + (i64)(i % 3) - 1 : LADW()[i - 59 * 3]; }
template<class S> static void spaces() {
  auto& R = mc::R(); const std::string nm = Tr<S>::name();
  // walk: week and day of week advance with the day-successor relation
  const i64 lastY = mc::g_thorough ? 99999 : 9999; const i64 nw = (ref::to_mjd(lastY, 12, 31) - EPOCH) / 7 + 1;
  R.add("walk-" + nm, fmt("every day from the GPS epoch through year %lld x %zu boundary times of day: both overloads, day of week, and back", lastY, tod_alphabet<S>().size()), nw, 2000,
        [=](u64 a, u64 b, Ctx& c) { const auto& T = tod_alphabet<S>(); i64 mjd = EPOCH + 7 * (i64)a;
          for (u64 i = a; i < b; ++i) { c.at(i); for (int d = 0; d < 7; ++d, ++mjd) { c.st(); for (i64 t : T) one<S>(i, mjd, t, (i64)i, d, c); } c.out(i); } },
        [=](u64 i) { ref::Day k = ref::from_mjd(EPOCH + 7 * (i64)i); return fmt("GPS week %llu (from %lld-%02d-%02d)", i, k.y, k.m, k.d); });
  R.add("far-" + nm, "weeks 2^k-1, 2^k, 2^k+1 for k up to 58, and 1000*1.25^k: every day of the week x boundary times", 59 * 3 + LADW().size(), 10,
        [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); i64 w = FARW(i); for (int d = 0; d < 7; ++d) { c.st(); for (i64 t : tod_alphabet<S>()) one<S>(i, EPOCH + 7 * w + d, t, w, d, c); } c.out(w); } },
        [=](u64 i) { return fmt("week %lld", FARW(i)); });
  R.add("carry-" + nm, "weeks 0..2500 (0..100000 thorough) x times of week around every multiple of a day up to four weeks, many weeks, and negative ones", mc::g_thorough ? 100001 : 2501, 100,
        [=](u64 a, u64 b, Ctx& c) { const i64 D = day_ticks<S>(), u = Tr<S>::tps;
          for (u64 i = a; i < b; ++i) { c.at(i);
            for (i64 n = -15; n <= 29; ++n) for (i64 e : {-u, (i64)-1, (i64)0, (i64)1, u, D / 2}) carry<S>(i, (i64)i, n * D + e, c);
            for (i64 x : amt_alphabet<S>()) carry<S>(i, (i64)i, x, c); } },
        [=](u64 i) { return fmt("week %llu", i); });
  // complete weeks
  const i64 st = Tr<S>::tps == 1 ? 1 : Tr<S>::tps == 1000 ? (mc::g_thorough ? 1 : 11) : (mc::g_thorough ? 101 : 100003);
  static const i64 weeks[] = {0, 1, 1023, 1024, 2048, 2047, 522, 4095};
  R.add("full-week-" + nm, fmt("every %s tick of eight whole weeks", st == 1 ? "single" : fmt("%lld.", st).c_str()), 8 * 7 * 24, 4,
        [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); const i64 w = weeks[i / 168], d = (i % 168) / 24, h = i % 24; const i64 H = 3600 * Tr<S>::tps;
            for (i64 t = h * H; t < h * H + H; t += st) { one<S>(i, EPOCH + 7 * w + d, t, w, (int)d, c); c.st(); if ((t & 0xfffff) == 0) c.beat(); } c.out(i); } },
        [=](u64 i) { return fmt("week %lld, hour %llu of the week", weeks[i / 168], i % 168); });
}
int main(int argc, char** argv) {
  mc::init("C10");
  spaces<seconds>(); spaces<milliseconds>(); spaces<microseconds>();
  return mc::R().main(argc, argv);
}
