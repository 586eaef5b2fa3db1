// C02 year/doy <-> calendar date <-> MJD: three views of one day.
#include "gg.hpp"
using namespace gg;

static void conv(u64 idx, const ref::Day& k, Ctx& c) {
  c.st(); c.tr(7);
  year y{(int)k.y}; month m{k.m}; day_of_month d{k.d}; day_of_year n{k.doy};
  i64 a = val(ydoy2mjd(y, n));
  if (a != k.mjd) c.fail(idx, "C02", "ydoy2mjd(%lld,%d) = %lld, expected %lld", k.y, k.doy, a, k.mjd);
  a = val(modified_julian_day{y, n});
  if (a != k.mjd) c.fail(idx, "C02", "modified_julian_day(%lld,%d) = %lld, expected %lld", k.y, k.doy, a, k.mjd);
  ydoy_date q = modified_julian_day{(long)k.mjd}.to_ydoy();
  if (val(q.__year) != k.y || val(q.__doy) != k.doy) c.fail(idx, "C02", "mjd %lld to_ydoy = %lld,%lld, expected %lld,%d", k.mjd, val(q.__year), val(q.__doy), k.y, k.doy);
  q = ymd_date{y, m, d}.to_ydoy();
  if (val(q.__year) != k.y || val(q.__doy) != k.doy) c.fail(idx, "C02", "%lld-%d-%d to_ydoy = %lld,%lld, expected doy %d", k.y, k.m, k.d, val(q.__year), val(q.__doy), k.doy);
  ymd_date p = ydoy_date{y, n}.to_ymd();
  if (val(p.__year) != k.y || val(p.__month) != k.m || val(p.__dom) != k.d) c.fail(idx, "C02", "%lld,%d to_ymd = %lld-%lld-%lld, expected %lld-%d-%d", k.y, k.doy, val(p.__year), val(p.__month), val(p.__dom), k.y, k.m, k.d);
  // by way of the third view
  p = modified_julian_day{y, n}.to_ymd();
  if (val(p.__year) != k.y || val(p.__month) != k.m || val(p.__dom) != k.d) c.fail(idx, "C02", "%lld,%d -> mjd -> %lld-%lld-%lld, expected %lld-%d-%d", k.y, k.doy, val(p.__year), val(p.__month), val(p.__dom), k.y, k.m, k.d);
  q = modified_julian_day{y, m, d}.to_ydoy();
  if (val(q.__year) != k.y || val(q.__doy) != k.doy) c.fail(idx, "C02", "%lld-%d-%d -> mjd -> %lld,%lld, expected doy %d", k.y, k.m, k.d, val(q.__year), val(q.__doy), k.doy);
  if (k.d == 1) c.out((u64)k.mjd);
}
static void cycle_case(u64 idx, i64 cyc, Ctx& c) {
  i64 y0 = 2000 + 400 * cyc;
  ref::Day k = ref::jan1(y0 < -4799 ? -4799 : y0);
  for (; k.y < y0 + 400 && k.y <= 2147483647LL; k.next()) conv(idx, k, c);
  c.beat();
}
template<class S> static void dt_cycle(u64 idx, i64 cyc, Ctx& c) {
  i64 y0 = 2000 + 400 * cyc;
  const i64 last = day_ticks<S>() - 1;
  ref::Day k = ref::jan1(y0 < -4799 ? -4799 : y0);
  for (; k.y < y0 + 400; k.next()) {
    c.st(); c.tr(4);
    year y{(int)k.y}; day_of_year n{k.doy};
    datetime<S> t{y, n}, u{year{(int)k.y}, month{k.m}, day_of_month{k.d}};
    if (!(t == u) || val(t.mjd()) != k.mjd || val(t.sec()) != 0) c.fail(idx, "C02", "datetime<%s>(%lld,%d) = %s, from %d-%d = %s, expected mjd %lld", Tr<S>::name(), k.y, k.doy, str(t).c_str(), k.m, k.d, str(u).c_str(), k.mjd);
    datetime<S> v{y, n, S{(long)last}}, w{y, month{k.m}, day_of_month{k.d}, S{(long)last}};
    if (!(v == w) || val(v.mjd()) != k.mjd || val(v.sec()) != last) c.fail(idx, "C02", "datetime<%s>(%lld,%d,last tick) = %s, from %d-%d = %s", Tr<S>::name(), k.y, k.doy, str(v).c_str(), k.m, k.d, str(w).c_str());
    ydoy_date q = v.as_ydoy(), q0 = mk<S>(k.mjd, 0).as_ydoy();
    if (val(q.__year) != k.y || val(q.__doy) != k.doy || val(q0.__year) != k.y || val(q0.__doy) != k.doy)
      c.fail(idx, "C02", "datetime<%s>(mjd %lld).as_ydoy() = %lld,%lld / %lld,%lld, expected %lld,%d", Tr<S>::name(), k.mjd, val(q0.__year), val(q0.__doy), val(q.__year), val(q.__doy), k.y, k.doy);
    if (k.d == 1) c.out((u64)k.mjd);
  }
  c.beat();
}
int main(int argc, char** argv) {
  mc::init("C02");
  auto cdesc = [](i64 cyc) { i64 a = 2000 + 400 * cyc; return fmt("every day of years %lld..%lld", a < -4799 ? -4799 : a, a + 399); };
  const i64 lo = -17, near = 30, hi = mc::g_thorough ? 30000 : 800;
  mc::R().add("views-near", "every day, years -4799..13999: all six conversions among year/doy, y/m/d and MJD", near - lo, 1,
              [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); cycle_case(i, lo + (i64)i, c); } },
              [=](u64 i) { return cdesc(lo + (i64)i); });
  mc::R().add("views-far", fmt("every day, years 14000..%lld", 2000 + 400 * hi - 1), hi - near, mc::g_thorough ? 100 : 15,
              [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); cycle_case(i, near + (i64)i, c); } },
              [=](u64 i) { return cdesc(near + (i64)i); });
  static std::vector<i64> win;
  for (int p = 19; p < 31; ++p) win.push_back(((1LL << p) - 2000) / 400);
  for (i64 y : ladder(300000, 2147000000LL, 101, 100)) win.push_back((y - 2000) / 400);
  win.push_back((2147483647LL - 2000) / 400);
  mc::R().add("views-int-limits", "every day of the 400-year cycles around years 2^k (k=19..30), 300000*1.01^k and of the last cycle an int year can name", win.size(), 2,
              [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); cycle_case(i, win[i], c); } },
              [=](u64 i) { return cdesc(win[i]); });
#define F(S) mc::R().add(std::string("datetime-") + Tr<S>::name(), "every day of years -4799..13999: datetime<S> from year/doy against the one from month/day, first and last tick; as_ydoy", near - lo, 1, \
              [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); dt_cycle<S>(i, lo + (i64)i, c); } }, \
              [=](u64 i) { return cdesc(lo + (i64)i); });
  GG_EACH_SEC(F)
#undef F
  return mc::R().main(argc, argv);
}
