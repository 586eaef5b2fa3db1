// C01 calendar date <-> MJD: walk of the successor relation.
#include "gg.hpp"
using namespace gg;

// start years of the 400-year cycles explored; year -4799 starts in cycle -17
static void cycle_case(u64 idx, i64 cyc, Ctx& c) {
  i64 y0 = 2000 + 400 * cyc;
  ref::Day k = ref::jan1(y0);
  i64 yend = y0 + 400;
  if (y0 < -4799) k = ref::jan1(-4799);
  for (; k.y < yend; k.next()) {
    if (k.y > 2147483647LL) break;
    c.st(); c.tr(4);
    year y{(int)k.y}; month m{k.m}; day_of_month d{k.d};
    modified_julian_day a = cal2mjd(y, m, d);
    if (val(a) != k.mjd) c.fail(idx, "C01", "cal2mjd(%lld-%d-%d) = %lld, expected %lld", k.y, k.m, k.d, val(a), k.mjd);
    modified_julian_day b{y, m, d};
    if (val(b) != k.mjd) c.fail(idx, "C01", "modified_julian_day(%lld-%d-%d) = %lld, expected %lld", k.y, k.m, k.d, val(b), k.mjd);
    ymd_date r = modified_julian_day{(long)k.mjd}.to_ymd();
    if (val(r.__year) != k.y || val(r.__month) != k.m || val(r.__dom) != k.d)
      c.fail(idx, "C01", "mjd %lld to_ymd = %lld-%lld-%lld, expected %lld-%d-%d", k.mjd, val(r.__year), val(r.__month), val(r.__dom), k.y, k.m, k.d);
    double jd = a.to_julian_day();
    if (jd != (double)((long double)k.mjd + 2400000.5L)) c.fail(idx, "C01", "mjd %lld to_julian_day = %.9g", k.mjd, jd);
    if (k.d == 1 || k.d > 27) c.out((u64)k.mjd);
  }
  c.beat();
}
template<class S> static void dt_cycle(u64 idx, i64 cyc, Ctx& c) {
  i64 y0 = 2000 + 400 * cyc;
  ref::Day k = ref::jan1(y0 < -4799 ? -4799 : y0);
  for (; k.y < y0 + 400; k.next()) {
    c.st(); c.tr(3);
    datetime<S> t{year{(int)k.y}, month{k.m}, day_of_month{k.d}};
    if (val(t.mjd()) != k.mjd || val(t.sec()) != 0) c.fail(idx, "C01", "datetime<%s>(%lld-%d-%d) = %s, expected mjd %lld", Tr<S>::name(), k.y, k.m, k.d, str(t).c_str(), k.mjd);
    static const i64 tods[2] = {0, day_ticks<S>() - 1};
    for (i64 s : tods) {
      ymd_date r = mk<S>(k.mjd, s).as_ymd();
      if (val(r.__year) != k.y || val(r.__month) != k.m || val(r.__dom) != k.d)
        c.fail(idx, "C01", "datetime<%s>(mjd %lld, %lld).as_ymd() = %lld-%lld-%lld, expected %lld-%d-%d", Tr<S>::name(), k.mjd, s, val(r.__year), val(r.__month), val(r.__dom), k.y, k.m, k.d);
    }
    if (k.d == 1) c.out((u64)k.mjd);
  }
  c.beat();
}
int main(int argc, char** argv) {
  mc::init("C01");
  auto cdesc = [](i64 cyc) { i64 a = 2000 + 400 * cyc; return fmt("every day of years %lld..%lld", a < -4799 ? -4799 : a, a + 399); };
  // cycle -17 = years -4800..-4401, entered at -4799
  const i64 lo = -17, hi = mc::g_thorough ? 60000 : 1500;
  const i64 near = 30;
  mc::R().add("walk-near", "every day, years -4799..13999: date->MJD (function and constructor), MJD->date, JD", near - lo, 1,
              [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); cycle_case(i, lo + (i64)i, c); } },
              [=](u64 i) { return cdesc(lo + (i64)i); });
  mc::R().add("walk-far", fmt("every day, years 14000..%lld", 2000 + 400 * hi - 1), hi - near, mc::g_thorough ? 200 : 30,
              [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); cycle_case(i, near + (i64)i, c); } },
              [=](u64 i) { return cdesc(near + (i64)i); });
  // 400-year windows at every power of two of the year up to the largest int
  static std::vector<i64> win;
  for (int p = 19; p < 31; ++p) for (i64 f : {2, 3}) { i64 y = f << (p - 1); if (y < 2147483647LL) win.push_back((y - 2000) / 400); }
  for (i64 y : ladder(600000, 2147000000LL, 101, 100)) win.push_back((y - 2000) / 400);
  win.push_back((2147483647LL - 2000) / 400 - 1); win.push_back((2147483647LL - 2000) / 400);
  mc::R().add("walk-int-limits", "every day of the 400-year cycles around years 2^k, 3*2^(k-1) (k=19..30), 600000*1.01^k and the last two cycles an int year can name", win.size(), 2,
              [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); cycle_case(i, win[i], c); } },
              [=](u64 i) { return cdesc(win[i]); });
#define F(S) mc::R().add(std::string("datetime-") + Tr<S>::name(), "every day of years -4799..13999 through datetime<S>: constructor from calendar date; as_ymd at the first and last tick of the day", near - lo, 1, \
              [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); dt_cycle<S>(i, lo + (i64)i, c); } }, \
              [=](u64 i) { return cdesc(lo + (i64)i); });
  GG_EACH_SEC(F)
#undef F
  return mc::R().main(argc, argv);
}
