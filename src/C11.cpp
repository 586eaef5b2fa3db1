// C11 TAI-UTC against the published table, walked day by day.
#include "gg.hpp"
using namespace gg;
static const i64 START = ref::to_mjd(1972, 1, 1);

template<class S> static void dtq(u64 i, i64 mjd, int want, Ctx& c) {
  for (i64 t : {(i64)0, (i64)1, day_ticks<S>() / 2, day_ticks<S>() - Tr<S>::tps, day_ticks<S>() - 1}) {
    const datetime<S> d = mk<S>(mjd, t); const int g = dat(d); c.tr();
    if (g != want) c.fail(i, "C11", "dat(%s) = %d, published %d", str(d).c_str(), g, want);
  }
}
static void day(u64 i, const ref::Day& k, int want, Ctx& c) {
  c.st();
  int g = dat(modified_julian_day{(long)k.mjd}); c.tr();
  if (g != want) c.fail(i, "C11", "dat(MJD %lld = %lld-%02d-%02d) = %d, published %d", k.mjd, k.y, k.m, k.d, g, want);
  g = dat(year{(int)k.y}, month{k.m}); c.tr();
  if (g != want) c.fail(i, "C11", "dat(%lld, month %d) = %d, published %d", k.y, k.m, g, want);
  dtq<seconds>(i, k.mjd, want, c); dtq<milliseconds>(i, k.mjd, want, c); dtq<microseconds>(i, k.mjd, want, c);
}
int main(int argc, char** argv) {
  mc::init("C11");
  auto& R = mc::R();
  const i64 last = mc::g_thorough ? 400000 : 12000;
  R.add("walk", fmt("every day from 1972-01-01 through year %lld: by month, by MJD, by date-time of each resolution at five times of day", last), last - 1971, 20,
        [=](u64 a, u64 b, Ctx& c) { int n; const ref::Leap* L = ref::leaps(n);
          for (u64 i = a; i < b; ++i) { c.at(i); ref::Day k = ref::jan1(1972 + (i64)i); const i64 y = k.y; int v = ref::tai_utc(k.mjd);
            while (k.y == y) { for (int q = 0; q < n; ++q) if (L[q].y == k.y && L[q].m == k.m && k.d == 1) v = L[q].dat; day(i, k, v, c); k.next(); } c.out(v * 100000 + i % 1000); } },
        [=](u64 i) { return fmt("year %llu", 1972 + i); });
  // complete table years at every second: the change is at midnight
  R.add("leap-days", "the two days around each of the 28 table entries, every second of both (every resolution, first and last tick of the second)", 28, 1,
        [](u64 a, u64 b, Ctx& c) { int n; const ref::Leap* L = ref::leaps(n); if (n != 28) abort();
          for (u64 i = a; i < b; ++i) { c.at(i); const i64 m = ref::to_mjd(L[i].y, L[i].m, 1);
            for (i64 d = i ? -1 : 0; d < 1; ++d) for (i64 s = 0; s < 86400; ++s) { const int w = d < 0 ? L[i - 1].dat : L[i].dat; c.st(); c.tr(5);
              const datetime<seconds> q = mk<seconds>(m + d, s);
              const datetime<milliseconds> u = mk<milliseconds>(m + d, s * 1000 + 999), u0 = mk<milliseconds>(m + d, s * 1000); const datetime<microseconds> v = mk<microseconds>(m + d, s * 1000000 + 999999), v0 = mk<microseconds>(m + d, s * 1000000);
              if (dat(q) != w || dat(u) != w || dat(v) != w || dat(u0) != w || dat(v0) != w) c.fail(i, "C11", "second %lld of %lld: %d %d %d %d %d, published %d", s, m + d, dat(q), dat(u0), dat(u), dat(v0), dat(v), w); }
            c.out(i); } },
        [](u64 i) { int n; const ref::Leap* L = ref::leaps(n); return fmt("%d-%02d-01", L[i].y, L[i].m); });
  const u64 ny = mc::g_thorough ? 10000000 : 1000000;
  R.add("months", fmt("every month of years 1972..%llu by year and month", 1972 + ny), ny, 10000,
        [](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); c.st(12); for (int m = 1; m <= 12; ++m) { c.tr(); const i64 y = 1972 + (i64)i; const int w = y > 2017 ? 37 : ref::tai_utc(ref::to_mjd(y, m, 1)), g = dat(year{(int)y}, month{m}); if (g != w) c.fail(i, "C11", "dat(%lld, month %d) = %d, published %d", y, m, g, w); } } },
        [](u64 i) { return fmt("year %llu", 1972 + i); });
  static const auto FY = [] { std::set<i64> s; for (int k = 11; k < 31; ++k) for (i64 e = -1; e <= 1; ++e) s.insert((1LL << k) + e); for (i64 y : ladder(1972, 2147483647LL, 201, 200)) s.insert(y); for (i64 y = 2147483647LL - 20; y <= 2147483647LL; ++y) s.insert(y); for (i64 y = 178956970 - 3; y < 178956970 + 3; ++y) s.insert(y); return std::vector<i64>(s.begin(), s.end()); }();
  R.add("far-months", fmt("every month of %zu years to the limit of int (2^k, 1972*1.005^k)", FY.size()), FY.size(), 100,
        [](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); c.st(12); for (int m = 1; m <= 12; ++m) { c.tr(); const i64 y = FY[i]; const int w = y > 2017 ? 37 : ref::tai_utc(ref::to_mjd(y, m, 1)), g = dat(year{(int)y}, month{m}); if (g != w) c.fail(i, "C11", "dat(%lld, month %d) = %d, published %d", y, m, g, w); } } },
        [](u64 i) { return fmt("year %lld", FY[i]); });
  R.add("far-days", fmt("%zu days to 2^62: by MJD and by date-time of each resolution", far_days().size()), far_days().size(), 50,
        [](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); const i64 m = far_days()[i]; if (m < 57754) continue; c.st(); c.tr(); const int g = dat(modified_julian_day{(long)m}); if (g != 37) c.fail(i, "C11", "dat(MJD %lld) = %d, published 37", m, g); dtq<seconds>(i, m, 37, c); dtq<milliseconds>(i, m, 37, c); dtq<microseconds>(i, m, 37, c); } },
        [](u64 i) { return fmt("MJD %lld", far_days()[i]); });
  const u64 nd = mc::g_thorough ? 1ull << 31 : 1ull << 26;
  R.add("days", fmt("every MJD from 1972-01-01 on, %llu days", nd), nd >> 16, 16,
        [](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); for (i64 m = START + ((i64)i << 16); m < START + ((i64)(i + 1) << 16); ++m) { const int w = m >= 57754 ? 37 : ref::tai_utc(m), g = dat(modified_julian_day{(long)m}); if (g != w) c.fail(i, "C11", "dat(MJD %lld) = %d, published %d", m, g, w); } c.st(65536); c.tr(65536); } },
        [](u64 i) { return fmt("MJD from %lld", START + ((i64)i << 16)); });
  return R.main(argc, argv);
}
