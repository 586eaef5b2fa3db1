// The operations threads run in C16. This file and the library are compiled to
// LLVM IR and instrumented; the text of a result is made by the (uninstrumented) runtime.
#include "dtfund.hpp"
#include "dtcalendar.hpp"
#include "datetime_read.hpp"
#include "datetime_write.hpp"
#include "C16.hpp"
using namespace ngpt;
typedef microseconds US; typedef milliseconds MS; typedef seconds SS;

template<class S> static void put(Res* r, const datetime<S>& d) { mc_pure_num(r, d.mjd().as_underlying_type()); mc_pure_num(r, d.sec().as_underlying_type()); }
static void put(Res* r, const std::string& s) { mc_pure_str(r, s.c_str()); }
#define READ(F, S, TXT) do { char* e = nullptr; const char* t = TXT; datetime<S> d = F<S>(t, &e); put(r, d); mc_pure_num(r, e - t); } while (0)
#define THROWS(X) do { try { X; mc_pure_str(r, "no exception"); } catch (std::invalid_argument& e) { mc_pure_str(r, e.what()); } catch (std::out_of_range& e) { mc_pure_str(r, e.what()); } } while (0)

static void op_ymd(int v, Res* r) { READ(strptime_ymd, US, (v ? "2015-12-30" : "1980-01-06")); }
static void op_ydoy(int v, Res* r) { READ(strptime_ydoy, MS, (v ? "2016-366" : "1972-001")); }
static void op_ymd_hms(int v, Res* r) { READ(strptime_ymd_hms, US, (v ? "2015-12-30 12:09:30.000001" : "2004-02-29 23:59:59.999999")); }
static void op_yod_hms(int v, Res* r) { READ(strptime_yod_hms, MS, (v ? "2015-Dec-30 12:09:30.125" : "2004-feb-29 23:59:59.999")); }
static void op_ydoy_hms(int v, Res* r) { READ(strptime_ydoy_hms, SS, (v ? "2015-364 12:09:30" : "2004-060 23:59:59.75")); }
static void op_bad_ymd(int v, Res* r) { THROWS(strptime_ymd<US>(v ? "2015-12" : "99999999999-1-1")); THROWS(strptime_ymd<US>(v ? "2015-02-29" : "2015-13-01")); }
static void op_bad_ydoy(int v, Res* r) { THROWS(strptime_ydoy<US>(v ? "2015" : "x")); THROWS(strptime_ydoy<US>(v ? "1-99999999999" : "-")); }
static void op_bad_hms(int v, Res* r) { THROWS(strptime_ymd_hms<US>(v ? "2015-12-30 12:09" : "2015-12-30 12:09:nan")); THROWS(strptime_ydoy_hms<US>(v ? "2015-12 1:" : "2015-12 1:1:1e300")); }
static void op_bad_yod(int v, Res* r) { THROWS(strptime_yod_hms<US>(v ? "2015-Dex-30 12:09:00" : "2015-J")); THROWS(strptime_yod_hms<US>(v ? "2015-Feb-30 12:09:00" : "2015-Jan-30 12")); }
static void op_month(int v, Res* r) { mc_pure_num(r, month{v ? "sePTember" : "January"}.as_underlying_type()); mc_pure_num(r, month{v ? "oct" : "MAY"}.as_underlying_type()); THROWS(month{v ? "Sept" : "x"}); }
static void op_hmfs(int v, Res* r) { put(r, strftime_ymd_hmfs(datetime<US>{modified_julian_day{v ? 57386 : 44244}, US{v ? 43770000001L : 1L}}, v ? '/' : '-')); }
static void op_hms(int v, Res* r) { put(r, strftime_ymd_hms(datetime<MS>{modified_julian_day{v ? 57386 : 44244}, MS{v ? 43770123L : 86399999L}}, v ? '.' : '-')); }
static void op_str(int v, Res* r) { put(r, datetime<US>{modified_julian_day{v ? 57386 : 51603}, US{v ? 43770000001L : 86399999999L}}.stringify()); }
static void op_ctor(int v, Res* r) { put(r, datetime<US>{year{v ? 2015 : 1999}, month{v ? 2 : 12}, day_of_month{v ? 28 : 31}, hours{v ? 25 : 3}, minutes{4}, US{5}}); put(r, datetime<MS>{year{v ? 2015 : 1999}, day_of_year{v ? 60 : 365}, hours{1}, minutes{v ? 59 : 0}, 7.125}); THROWS((datetime<US>{year{2015}, month{v ? 2 : 13}, day_of_month{v ? 29 : 1}})); }
static void op_conv(int v, Res* r) { modified_julian_day m{v ? 57386 : 15385}; ymd_date a = m.to_ymd(); ydoy_date b = m.to_ydoy(); mc_pure_num(r, a.__year.as_underlying_type()); mc_pure_num(r, a.__month.as_underlying_type()); mc_pure_num(r, a.__dom.as_underlying_type()); mc_pure_num(r, b.__year.as_underlying_type()); mc_pure_num(r, b.__doy.as_underlying_type()); mc_pure_num(r, b.to_ymd().__month.as_underlying_type()); mc_pure_num(r, a.to_ydoy().__doy.as_underlying_type()); mc_pure_num(r, modified_julian_day{a.__year, a.__month, a.__dom}.as_underlying_type()); mc_pure_num(r, modified_julian_day{b.__year, b.__doy}.as_underlying_type()); mc_pure_dbl(r, m.to_julian_day()); }
static void op_dat(int v, Res* r) { mc_pure_num(r, dat(year{v ? 2015 : 1981}, month{v ? 7 : 6})); mc_pure_num(r, dat(modified_julian_day{v ? 57204 : 44785})); mc_pure_num(r, dat(datetime<US>{modified_julian_day{v ? 57203 : 44786}, US{86399999999L}})); }
static void op_add(int v, Res* r) { datetime<MS> d{modified_julian_day{v ? 57386 : 44244}, MS{v ? 86399999L : 0L}}; d.add_seconds(MS{v ? 1L : -1L}); put(r, d); d.remove_seconds(SS{v ? 86401L : 1L}); put(r, d); d.add_seconds(US{1500}); put(r, d); d = d.add(modified_julian_day{v ? 3 : -3}, MS{7}); put(r, d); d += datetime_interval<MS>{modified_julian_day{1}, MS{v ? 86399999L : 5L}}; put(r, d); put(r, d.cast_to<SS>()); put(r, d.cast_to<US>()); }
static void op_diff(int v, Res* r) { datetime<MS> a{modified_julian_day{v ? 57386 : 44244}, MS{v ? 5L : 86399999L}}; datetime<US> b{modified_julian_day{v ? 57384 : 44250}, US{7}}; datetime<MS> k{modified_julian_day{57000}, MS{77}}; mc_pure_num(r, delta_sec(a, b).as_underlying_type()); mc_pure_num(r, a.delta_sec(k).as_underlying_type()); auto q = a.delta_date(k); mc_pure_num(r, q.days().as_underlying_type()); mc_pure_num(r, q.sec().as_underlying_type()); datetime_interval<MS> z{modified_julian_day{v ? 9 : 11}, MS{5}}; auto h = z / (v ? 7 : 4); mc_pure_num(r, h.days().as_underlying_type()); mc_pure_num(r, h.sec().as_underlying_type()); mc_pure_dbl(r, q.as_mjd()); mc_pure_num(r, a < k); mc_pure_num(r, a == k); }
static void op_gps(int v, Res* r) { datetime<US> d{modified_julian_day{v ? 57386 : 44244}, US{v ? 43770000001L : 1L}}; long s; US t; gps_week w = d.as_gps_wsow(s); mc_pure_num(r, w.as_underlying_type()); mc_pure_num(r, s); w = d.as_gps_wsow(t); mc_pure_num(r, t.as_underlying_type()); put(r, datetime<US>{w, t}); mc_pure_num(r, day_of_week(t)); mc_pure_dbl(r, d.as_mjd()); }
static void op_split(int v, Res* r) { US t{v ? 43770000001L : 186399999999L}; auto q = t.to_hmsf(); mc_pure_num(r, std::get<0>(q).as_underlying_type()); mc_pure_num(r, std::get<1>(q).as_underlying_type()); mc_pure_num(r, std::get<2>(q).as_underlying_type()); mc_pure_num(r, std::get<3>(q)); mc_pure_num(r, t.remove_days()); mc_pure_num(r, t.as_underlying_type()); mc_pure_dbl(r, t.fractional_days()); MS m{v ? 1234L : 99999L}; double f; mc_pure_num(r, m.resolve_sec(f).as_underlying_type()); mc_pure_dbl(r, f); hours h{v ? 49 : 25}; mc_pure_num(r, h.remove_days()); ++h; h += 5; h--; mc_pure_num(r, h.as_underlying_type()); mc_pure_num(r, day_of_month{v ? 29 : 31}.is_valid(year{2000}, month{2})); mc_pure_str(r, month{v ? 3 : 9}.long_name()); mc_pure_str(r, month{v ? 3 : 9}.short_name()); }
static void op_chain(int v, Res* r) { datetime<US> d = strptime_ymd_hms<US>(v ? "2015-12-30 12:09:30.000001" : "1999-01-02 03:04:05.6"); d.add_seconds(US{v ? 86400000000L : -1L}); put(r, strftime_ymd_hmfs(d)); put(r, strptime_ymd_hms<US>(strftime_ymd_hmfs(d, '/').c_str())); }

extern "C" const OpDesc mc_ops[] = {
  {"strptime_ymd", op_ymd}, {"strptime_ydoy", op_ydoy}, {"strptime_ymd_hms", op_ymd_hms}, {"strptime_yod_hms", op_yod_hms}, {"strptime_ydoy_hms", op_ydoy_hms},
  {"failing strptime_ymd", op_bad_ymd}, {"failing strptime_ydoy", op_bad_ydoy}, {"failing ymd/ydoy_hms", op_bad_hms}, {"failing strptime_yod_hms", op_bad_yod}, {"month from text", op_month},
  {"strftime_ymd_hmfs", op_hmfs}, {"strftime_ymd_hms", op_hms}, {"stringify", op_str}, {"constructors", op_ctor}, {"calendar conversions", op_conv}, {"dat", op_dat},
  {"add/remove", op_add}, {"differences", op_diff}, {"gps", op_gps}, {"splits and counters", op_split}, {"read, add, write, read", op_chain}};
extern "C" const int mc_nops = sizeof mc_ops / sizeof *mc_ops;
