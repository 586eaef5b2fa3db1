// C21: the public operations, compiled once per configuration into a shared object. Only
// arguments the library documents as valid (also with USE_DATETIME_CHECKS) come in.
#include "dtfund.hpp"
#include "dtcalendar.hpp"
#include "datetime_read.hpp"
#include "datetime_write.hpp"
#include <cstdio>
#include <cfloat>
#include "C21.hpp"
using namespace ngpt;
#define N(...) r->n((long)(__VA_ARGS__).as_underlying_type())
template<class S> static void put(C21Rec* r, const datetime<S>& d) { N(d.mjd()); N(d.sec()); }
template<class S> static void put(C21Rec* r, const datetime_interval<S>& d) { N(d.days()); N(d.sec()); }
template<class T> static void hmsf(C21Rec* r, const T& q) { N(std::get<0>(q)); N(std::get<1>(q)); N(std::get<2>(q)); r->n(std::get<3>(q)); }
template<class S> static constexpr long TPS = S::max_in_day / 86400;

// one day: every calendar path
static void day(const long* a, C21Rec* r) {
  const modified_julian_day m{a[0]}; const ymd_date y = m.to_ymd(); const ydoy_date q = m.to_ydoy();
  N(y.__year); N(y.__month); N(y.__dom); N(q.__year); N(q.__doy); r->n(y.is_valid()); r->n(q.is_valid()); r->n(y.__year.is_leap());
  const ydoy_date q2 = y.to_ydoy(); const ymd_date y2 = q.to_ymd(); N(q2.__year); N(q2.__doy); N(y2.__year); N(y2.__month); N(y2.__dom);
  const modified_julian_day m2{y.__year, y.__month, y.__dom}, m3{q.__year, q.__doy}; N(m2); N(m3); r->f(m.to_julian_day());
  r->s(y.__month.short_name()); r->s(y.__month.long_name()); r->n(y.__dom.is_valid(y.__year, y.__month)); r->n(q.__doy.is_valid(q.__year)); r->n(y.__month.is_valid());
  const long Y = y.__year.as_underlying_type();
  if (Y >= 1972) { r->n(dat(y.__year, y.__month)); r->n(dat(m)); r->n(dat(datetime<milliseconds>{m, milliseconds{86399999}})); }
}
// a date-time of resolution S at day a[0], tick a[1]: constructors, views, texts and back
template<class S> static void moment(const long* a, C21Rec* r) {
  const datetime<S> t{modified_julian_day{a[0]}, S{a[1]}}; put(r, t); r->f(t.as_mjd());
  const ymd_date y = t.as_ymd(); const ydoy_date q = t.as_ydoy(); N(y.__year); N(y.__month); N(y.__dom); N(q.__year); N(q.__doy);
  const auto h = t.as_hmsf(); hmsf(r, h); r->n((long)t.sec_as_i());
  put(r, datetime<S>{y.__year, y.__month, y.__dom, t.sec()}); put(r, datetime<S>{q.__year, q.__doy, t.sec()});
  const long whole = a[1] / TPS<S>, hh = whole / 3600, mm = whole / 60 % 60, ss = whole % 60, fr = a[1] % TPS<S>; const long tail = ss * TPS<S> + fr;
  put(r, datetime<S>{y.__year, y.__month, y.__dom, hours{(int)hh}, minutes{(int)mm}, S{tail}}); put(r, datetime<S>{q.__year, q.__doy, hours{(int)hh}, minutes{(int)mm}, S{tail}});
  const double fs = ((double)tail + 0.5) / (double)TPS<S>;  // mid-tick: which tick it is in does not depend on rounding
  put(r, datetime<S>{y.__year, y.__month, y.__dom, hours{(int)hh}, minutes{(int)mm}, fs}); put(r, datetime<S>{q.__year, q.__doy, hours{(int)hh}, minutes{(int)mm}, fs});
  const std::string A = strftime_ymd_hmfs(t), B = strftime_ymd_hms(t, '/'), C = t.stringify(); r->s(A.c_str()); r->s(B.c_str()); r->s(C.c_str());
  char b[96]; char* e; const char* sec = fr ? ".%06ld" : "";  char fsec[24] = ""; if (fr) snprintf(fsec, sizeof fsec, sec, fr * (1000000 / TPS<S>));
  const long Y = y.__year.as_underlying_type();
#define RD(F, ...) do { snprintf(b, sizeof b, __VA_ARGS__); e = nullptr; put(r, F<S>(b, &e)); r->n(e - b); } while (0)
  RD(strptime_ymd, "%ld-%02d-%02d", Y, y.__month.as_underlying_type(), y.__dom.as_underlying_type()); RD(strptime_ydoy, "%ld/%03ld", Y, (long)q.__doy.as_underlying_type());
  RD(strptime_ymd_hms, "%ld-%02d-%02d %02ld:%02ld:%02ld%s", Y, y.__month.as_underlying_type(), y.__dom.as_underlying_type(), hh, mm, ss, fsec);
  RD(strptime_yod_hms, "%ld-%s-%02d %02ld:%02ld:%02ld%s", Y, y.__month.short_name(), y.__dom.as_underlying_type(), hh, mm, ss, fsec);
  RD(strptime_ydoy_hms, "%ld-%03ld %02ld:%02ld:%02ld%s", Y, (long)q.__doy.as_underlying_type(), hh, mm, ss, fsec);
  if (a[0] >= 44244) { long sow; S s2{0}; gps_week w = t.as_gps_wsow(sow); N(w); r->n(sow); w = t.as_gps_wsow(s2); N(w); N(s2); r->n(day_of_week(s2)); put(r, datetime<S>{w, s2}); }
  if (Y >= 1972) r->n(dat(t));
}
// an operation: moment a[0],a[1] of S and amount a[2] >= 0 of T; removing only when the result is not before MJD 0
template<class S, class T, bool B> struct AddDays { static void f(const datetime<S>&, long, C21Rec*) {} };
template<class S, class T> struct AddDays<S, T, true> { static void f(const datetime<S>& t, long amt, C21Rec* r) { for (long d : {0L, 1L, 400L}) put(r, t.add(modified_julian_day{d}, T{amt})); } };
template<class S, class T> static void amount(const long* a, C21Rec* r) {
  const datetime<S> t{modified_julian_day{a[0]}, S{a[1]}}; const T x{a[2]};
  datetime<S> u = t; u.add_seconds(x); put(r, u);
  for (const datetime<S>& b : {t, u}) {
    const __int128 have = ((__int128)b.mjd().as_underlying_type() * 86400 * TPS<S> + b.sec().as_underlying_type()) * (1000000 / TPS<S>), take = (__int128)a[2] * (1000000 / TPS<T>);
    if (take <= have) { datetime<S> w = b; w.remove_seconds(x); put(r, w); }
  }
  AddDays<S, T, (TPS<S> <= TPS<T>)>::f(t, a[2], r);
  const datetime<T> c = t.template cast_to<T>(); put(r, c); N(cast_to<T, S>(x)); N(cast_to<S, T>(t.sec()));
}
// two moments, the first not before the second, of S and T
template<class S, class T> static void mixed(const long* a, C21Rec* r) {
  const datetime<S> t{modified_julian_day{a[0]}, S{a[1]}}; const datetime<T> u{modified_julian_day{a[2]}, T{a[3]}}; N(delta_sec(t, u));
}
template<class S> static void both(const long* a, C21Rec* r) {
  const datetime<S> t{modified_julian_day{a[0]}, S{a[1]}}, u{modified_julian_day{a[2]}, S{a[3]}};
  r->n((t == u) | (t != u) << 1 | (t < u) << 2 | (t <= u) << 3 | (t > u) << 4 | (t >= u) << 5 | (u < t) << 6 | (u <= t) << 7 | (u > t) << 8 | (u >= t) << 9);
  N(delta_sec(t, u)); N(t.delta_sec(u)); const datetime_interval<S> v = t.delta_date(u); put(r, v); put(r, delta_date(t, u)); r->f(v.as_mjd());
  datetime<S> w = u; w += v; put(r, w); N(mjd_sec_diff<S>(t.mjd(), u.mjd())); for (int k : {1, 2, 7, 60, 86400}) put(r, v / k);
  const datetime_interval<S> z{modified_julian_day{a[2]}, S{a[3]}}; r->n((v == z) | (v != z) << 1 | (v < z) << 2 | (v <= z) << 3 | (v > z) << 4 | (v >= z) << 5);
}
// an amount a[0] >= 0 of S, a[1] hours and a[2] minutes
template<class S> static void frac(const S&, C21Rec*) {}
static void frac(const milliseconds& s, C21Rec* r) { double f = 0; N(s.resolve_sec(f)); r->f(f); }
template<class S> static void quantity(const long* a, C21Rec* r) {
  S s{a[0]}; N(s); r->n(s.more_than_day()); r->n(s.to_days()); r->f(s.fractional_days()); r->f(s.to_fractional_seconds()); hmsf(r, s.to_hmsf()); frac(s, r);
  S c = s; r->n(c.remove_days()); N(c); N((S{hours{(int)a[1]}, minutes{(int)a[2]}, S{a[0]}})); const double fs = ((double)(a[0] % (1L << 40)) + 0.5) / (double)TPS<S>; N((S{hours{(int)a[1]}, minutes{(int)a[2]}, fs}));
  S x = s; x += S{7}; N(x); x -= S{7}; N(x); ++x; N(x); x--; N(x); x = 5; N(x); x += 3; N(x); N(s + S{1}); N(s + S{1} - s); r->n(max_days_allowed<S>());
  r->n((s == c) | (s != c) << 1 | (s < c) << 2 | (s <= c) << 3 | (s > c) << 4 | (s >= c) << 5);
}
static void calendar_quantity(const long* a, C21Rec* r) {
  const int k = (int)a[0]; const hours h{k}; const minutes m{k}; N(h); N(m); year y{k}; y += 4; N(y); r->n(y.is_leap()); gps_week w{k}; ++w; N(w); day_of_year d{k}; d--; N(d); modified_julian_day j{k}; j += modified_julian_day{1}; N(j); N(j - modified_julian_day{3}); N(j + modified_julian_day{3});
  day_of_month o{k}; o += 1; N(o); month n{1 + k % 12}; N(n); r->n(n.is_valid()); r->s(n.short_name()); r->s(n.long_name()); N(month{n.short_name()}); N(month{n.long_name()}); r->n(sizeof(datetime<seconds>)); r->n(sizeof(datetime<microseconds>)); r->n(sizeof(ymd_date)); r->n(sizeof(ydoy_date)); r->n(sizeof(datetime_interval<milliseconds>)); r->n(sizeof(month)); r->n(sizeof(year));
  const datetime<seconds> e{}; put(r, e); put(r, datetime<microseconds>::max()); put(r, datetime<milliseconds>::min()); put(r, datetime_interval<seconds>{}); N(year{}); N(month{}); N(day_of_month{}); N(day_of_year{}); N(hours{}); N(minutes{}); N(gps_week{}); N(modified_julian_day{}); N(milliseconds{});
}
// a text through a reader (a[0] points to it): result, end and exception
template<class S> static void text(int which, const char* t, C21Rec* r) {
  char* e = nullptr;
  try {
    datetime<S> d; switch (which) { case 0: d = strptime_ymd<S>(t, &e); break; case 1: d = strptime_ydoy<S>(t, &e); break; case 2: d = strptime_ymd_hms<S>(t, &e); break; case 3: d = strptime_yod_hms<S>(t, &e); break; case 4: d = strptime_ydoy_hms<S>(t, &e); break; default: N(month{t}); return; }
    put(r, d); r->n(e - t);
  } catch (std::invalid_argument& x) { r->n(-1); r->s(x.what()); } catch (std::out_of_range& x) { r->n(-2); r->s(x.what()); }
}
#define S3(F) switch (kind % 10) { case 0: F<seconds>(a, r); break; case 1: F<milliseconds>(a, r); break; default: F<microseconds>(a, r); break; }
#define S9(F) switch (kind % 10) { case 0: F<seconds, seconds>(a, r); break; case 1: F<seconds, milliseconds>(a, r); break; case 2: F<seconds, microseconds>(a, r); break; \
  case 3: F<milliseconds, seconds>(a, r); break; case 4: F<milliseconds, milliseconds>(a, r); break; case 5: F<milliseconds, microseconds>(a, r); break; \
  case 6: F<microseconds, seconds>(a, r); break; case 7: F<microseconds, milliseconds>(a, r); break; default: F<microseconds, microseconds>(a, r); break; }
extern "C" __attribute__((visibility("default"))) void c21_run(int kind, const long* a, C21Rec* r) {
  switch (kind / 10) {
    case 0: day(a, r); break;
    case 1: S3(moment) break;
    case 2: S9(amount) break;
    case 3: S9(mixed) break;
    case 4: S3(both) break;
    case 5: S3(quantity) break;
    case 6: calendar_quantity(a, r); break;
    case 7: text<milliseconds>(kind % 10, (const char*)a, r); break;
    case 8: text<seconds>(kind % 10, (const char*)a, r); break;
  }
}
