// C04 every constructor denotes the instant its arguments add up to, in normal form.
#include "gg.hpp"
#include <climits>
using namespace gg;

// hours and minutes: ordinary, at carries, negative, many days, the limits of int
static const std::vector<int> HRS{0, 1, 12, 23, 24, 25, 47, 48, 49, 100, 8760, 1000000, -1, -23, -24, -25, -48, -1000, INT_MAX, INT_MIN + 1};
static const std::vector<int> MNS{0, 1, 59, 60, 61, 1439, 1440, 1441, 100000, -1, -59, -60, -61, -1440, -1441, INT_MAX, INT_MIN + 1};

struct YD { i64 y; int m, d, doy; i64 mjd; };
static const std::vector<YD>& dates() {
  static std::vector<YD> v = [] { std::vector<YD> r; for (i64 mjd : day_alphabet()) { ref::Day k = ref::from_mjd(mjd); if (k.y >= -4799) r.push_back({k.y, k.m, k.d, k.doy, mjd}); } return r; }();
  return v;
}
// result must be exactly instant want (ticks since MJD 0), in normal form;
// slack: digits finer than the target were given with a negative sum
static const std::vector<i64>& LADY() { static const auto v = ladder(5000, 2147000000LL, 11, 10); return v; }
template<class S> static void check(u64 i, const char* ctor, const datetime<S>& t, i128 want, bool slack, Ctx& c, const char* args) {
  c.tr();
  if (!normal(t)) c.fail(i, "C04", "datetime<%s>%s: %s from (%s) is not in normal form", Tr<S>::name(), ctor, str(t).c_str(), args);
  i128 g = inst(t);
  bool ok = slack ? (g >= want - 1 && g <= want + 1) : g == want;
  if (!ok) c.fail(i, "C04", "datetime<%s>%s(%s) = %s, off by %s ticks", Tr<S>::name(), ctor, args, str(t).c_str(), mc::i128s(g - want).c_str());
  c.out(mc::mix((u64)val(t.mjd()), (u64)val(t.sec())));
}
template<class S> struct Ex {  // expected: days, then time part in ticks of S
  static i128 at(i64 mjd, i64 h, i64 m, i128 ticks) { return ref::inst(mjd, ((i128)h * 3600 + (i128)m * 60) * Tr<S>::tps + ticks, Tr<S>::tps); }
};
// amount x in ticks of T seen at resolution S (finer digits dropped toward zero)
template<class S, class T> static i128 seen(i64 x, bool& neg_frac) {
  i64 k = Tr<T>::tps / Tr<S>::tps; neg_frac = x < 0 && x % k; return x / k;
}
template<class S, class T> static void from_T(u64 i, const YD& k, int h, int m, i64 x, Ctx& c) {
  year y{(int)k.y}; month mo{k.m}; day_of_month d{k.d}; day_of_year n{k.doy}; bool s; i128 w = seen<S, T>(x, s);
  std::string a = fmt("%lld-%d-%d/doy %d, %d h, %d min, %lld %s", k.y, k.m, k.d, k.doy, h, m, x, Tr<T>::name());
  check<S>(i, "(y,m,d,h,min,T)", datetime<S>{y, mo, d, hours{h}, minutes{m}, T{(long)x}}, Ex<S>::at(k.mjd, h, m, w), s, c, a.c_str());
  check<S>(i, "(y,doy,h,min,T)", datetime<S>{y, n, hours{h}, minutes{m}, T{(long)x}}, Ex<S>::at(k.mjd, h, m, w), s, c, a.c_str());
  if (h == 0 && m == 0) {
    check<S>(i, "(y,m,d,T)", datetime<S>{y, mo, d, T{(long)x}}, Ex<S>::at(k.mjd, 0, 0, w), s, c, a.c_str());
    check<S>(i, "(y,doy,T)", datetime<S>{y, n, T{(long)x}}, Ex<S>::at(k.mjd, 0, 0, w), s, c, a.c_str());
  }
}
template<class S, class T> static typename std::enable_if<(Tr<T>::tps >= Tr<S>::tps)>::type from_T_all(u64 i, const YD& k, int h, int m, Ctx& c) {
  for (i64 x : amt_alphabet<T>()) from_T<S, T>(i, k, h, m, x, c);
}
template<class S, class T> static typename std::enable_if<(Tr<T>::tps < Tr<S>::tps)>::type from_T_all(u64, const YD&, int, int, Ctx&) {}
template<class S> static void product(u64 i, const YD& k, int h, Ctx& c) {
  for (int m : MNS) {
    c.st();
    from_T_all<S, seconds>(i, k, h, m, c); from_T_all<S, milliseconds>(i, k, h, m, c); from_T_all<S, microseconds>(i, k, h, m, c);
    std::string a = fmt("mjd %lld, %d h, %d min", k.mjd, h, m);
    for (i64 x : amt_alphabet<S>()) check<S>(i, "(mjd,h,min,S)", datetime<S>{modified_julian_day{(long)k.mjd}, hours{h}, minutes{m}, S{(long)x}}, Ex<S>::at(k.mjd, h, m, x), false, c, a.c_str());
    check<S>(i, "(mjd,h,min)", datetime<S>{modified_julian_day{(long)k.mjd}, hours{h}, minutes{m}}, Ex<S>::at(k.mjd, h, m, 0), false, c, a.c_str());
    check<S>(i, "(y,m,d,h,min)", datetime<S>{year{(int)k.y}, month{k.m}, day_of_month{k.d}, hours{h}, minutes{m}}, Ex<S>::at(k.mjd, h, m, 0), false, c, a.c_str());
    check<S>(i, "(y,doy,h,min)", datetime<S>{year{(int)k.y}, day_of_year{k.doy}, hours{h}, minutes{m}}, Ex<S>::at(k.mjd, h, m, 0), false, c, a.c_str());
  }
  check<S>(i, "(y,m,d,h)", datetime<S>{year{(int)k.y}, month{k.m}, day_of_month{k.d}, hours{h}}, Ex<S>::at(k.mjd, h, 0, 0), false, c, "");
  check<S>(i, "(y,doy,h)", datetime<S>{year{(int)k.y}, day_of_year{k.doy}, hours{h}}, Ex<S>::at(k.mjd, h, 0, 0), false, c, "");
  check<S>(i, "(mjd,h)", datetime<S>{modified_julian_day{(long)k.mjd}, hours{h}}, Ex<S>::at(k.mjd, h, 0, 0), false, c, "");
  if (h == 0) {
    check<S>(i, "(y,m,d)", datetime<S>{year{(int)k.y}, month{k.m}, day_of_month{k.d}}, Ex<S>::at(k.mjd, 0, 0, 0), false, c, "");
    check<S>(i, "(y,doy)", datetime<S>{year{(int)k.y}, day_of_year{k.doy}}, Ex<S>::at(k.mjd, 0, 0, 0), false, c, "");
    for (i64 x : amt_alphabet<S>()) check<S>(i, "(mjd,S)", datetime<S>{modified_julian_day{(long)k.mjd}, S{(long)x}}, Ex<S>::at(k.mjd, 0, 0, x), false, c, fmt("mjd %lld, %lld", k.mjd, x).c_str());
  }
}
// fractional seconds: k / 10^p seconds, exactly representable questions only
template<class S> static void frac(u64 i, const YD& k, int h, int m, i64 num, i64 den, Ctx& c, bool full) {
  double fs = (double)num / (double)den;  // the double nearest to the decimal number
  i128 t = (i128)num * Tr<S>::tps; bool s = num < 0 && t % den != 0; i128 w = t / den;
  const char* a = "";
  std::string as; 
  datetime<S> p{year{(int)k.y}, month{k.m}, day_of_month{k.d}, hours{h}, minutes{m}, fs};
  i128 want = Ex<S>::at(k.mjd, h, m, w), g = inst(p);
  if (g != want || !normal(p) || full) { as = fmt("%lld-%d-%d %d h %d min %lld/%lld s", k.y, k.m, k.d, h, m, num, den); a = as.c_str(); check<S>(i, "(y,m,d,h,min,double)", p, want, s, c, a); }
  else { c.tr(); if (num % 1000 == 0) c.out(mc::mix((u64)g, (u64)(g >> 64))); }
  if (full) check<S>(i, "(y,doy,h,min,double)", datetime<S>{year{(int)k.y}, day_of_year{k.doy}, hours{h}, minutes{m}, fs}, want, s, c, a);
}
template<class S> static void sec_type(u64 i, int h, int m, Ctx& c) {  // S's own constructors
  for (i64 x : amt_alphabet<S>()) { c.tr(); i64 g = val(S{hours{h}, minutes{m}, S{(long)x}}); i128 w = ((i128)h * 3600 + (i128)m * 60) * Tr<S>::tps + x;
    if (g != w) c.fail(i, "C04", "%s(%d h, %d min, %lld) = %lld, expected %s", Tr<S>::name(), h, m, x, g, mc::i128s(w).c_str()); }
  for (i64 ms = 0; ms < 61000; ms += 1) { c.tr(); i64 g = val(S{hours{h}, minutes{m}, (double)ms / 1000.0}); i128 w = ((i128)h * 3600 + (i128)m * 60) * Tr<S>::tps + (i128)ms * Tr<S>::tps / 1000;
    if (g != w) c.fail(i, "C04", "%s(%d h, %d min, %lld/1000 s) = %lld, expected %s", Tr<S>::name(), h, m, ms, g, mc::i128s(w).c_str()); }
  c.st();
}
// |num| / den seconds where the double is known to stand for exactly one number of units
template<class S> static void frac_large(u64 i, i64 c0, Ctx& c) {
  const i64 tps = Tr<S>::tps; const i64 span = mc::g_thorough ? 20000 : 1000;
  for (i64 k = c0 - span; k <= c0 + span; ++k) { if (k < 0 || k >= (1LL << 51)) continue; c.st(); frac<S>(i, dates()[20], 0, 0, k, tps, c, false); frac<S>(i, dates()[20], 0, 0, -k, tps, c, false); }
  for (i64 e = -8; e <= 8; ++e) { i64 n = c0 + e; if (n < 0 || n >= (1LL << 53) || n > (i64)((1ull << 62) / (u64)tps)) continue; c.st();
    frac<S>(i, dates()[20], -3, 4, n, 1, c, true); frac<S>(i, dates()[20], 3, -4, -n, 1, c, true);
    if (n < (1LL << 36)) for (i64 q = 1; q < 8; ++q) { frac<S>(i, dates()[20], 0, 0, n * 8 + q, 8, c, false); frac<S>(i, dates()[20], 0, 0, -(n * 8 + q), 8, c, false); } }
}
static const std::vector<i64>& large() { static const std::vector<i64> v = [] { std::set<i64> s; for (int k = 0; k < 62; ++k) { s.insert(1LL << k); s.insert(3LL << (k > 60 ? 0 : k)); } for (i64 p = 1; p < 1000000000000000000LL; p *= 10) for (i64 q : {1, 2, 5, 9}) s.insert(p * q); for (i64 d : {1, 7, 365, 10000, 24855, 24856, 36525, 106751}) for (i64 t : {86400LL, 86400000LL, 86400000000LL}) s.insert(d * t); return std::vector<i64>(s.begin(), s.end()); }(); return v; }
// every constructor at one date with one set of time fields; text is only made when something is wrong
template<class S> static void every_ctor(u64 i, const YD& k, int h, int m, i64 x, i64 frac_den, Ctx& c) {
  const year y{(int)k.y}; const month mo{k.m}; const day_of_month d{k.d}; const day_of_year n{k.doy}; const modified_julian_day j{(long)k.mjd}; const hours H{h}; const minutes M{m}; const S s{(long)x};
  const i128 day0 = ref::inst(k.mjd, 0, Tr<S>::tps), hm = ((i128)h * 3600 + (i128)m * 60) * Tr<S>::tps, full = day0 + hm + x; int q = 0; u64 o = 0;
  auto ck = [&](const datetime<S>& t, i128 w) { ++q; if (!normal(t) || inst(t) != w) c.fail(i, "C04", "datetime<%s>, constructor %d of the list, from %lld-%d-%d (doy %d, mjd %lld), %d h, %d min, %lld %s: %s, off by %s ticks", Tr<S>::name(), q, k.y, k.m, k.d, k.doy, k.mjd, h, m, x, Tr<S>::name(), str(t).c_str(), mc::i128s(inst(t) - w).c_str()); o += (u64)val(t.sec()); };
  ck(datetime<S>{y, mo, d, H, M, s}, full); ck(datetime<S>{y, n, H, M, s}, full); ck(datetime<S>{j, H, M, s}, full);
  ck(datetime<S>{y, mo, d, s}, day0 + x); ck(datetime<S>{y, n, s}, day0 + x); ck(datetime<S>{j, s}, day0 + x);
  ck(datetime<S>{y, mo, d, H, M}, day0 + hm); ck(datetime<S>{y, n, H, M}, day0 + hm); ck(datetime<S>{j, H, M}, day0 + hm);
  ck(datetime<S>{y, mo, d}, day0); ck(datetime<S>{y, n}, day0); ck(datetime<S>{j, S{0}}, day0);
  ck(datetime<S>{y, mo, d, H}, day0 + (i128)h * 3600 * Tr<S>::tps); ck(datetime<S>{y, n, H}, day0 + (i128)h * 3600 * Tr<S>::tps); ck(datetime<S>{j, H}, day0 + (i128)h * 3600 * Tr<S>::tps);
  if (frac_den) { const double f = (double)x / (double)Tr<S>::tps; ck(datetime<S>{y, mo, d, H, M, f}, full); ck(datetime<S>{y, n, H, M, f}, full); }
  const microseconds us{(long)(x * (1000000 / Tr<S>::tps))}; ck(datetime<S>{y, mo, d, H, M, us}, full); ck(datetime<S>{y, n, H, M, us}, full); ck(datetime<S>{y, mo, d, us}, day0 + x); ck(datetime<S>{y, n, us}, day0 + x);
  const i64 g = k.mjd - 44244; if (g >= 0) { ck(datetime<S>{gps_week{(long)(g / 7)}, S{(long)(g % 7 * day_ticks<S>() + x)}}, day0 + x); ck(datetime<S>{gps_week{(long)(g / 7 + 1)}, S{(long)((g % 7 - 7) * day_ticks<S>() + x)}}, day0 + x); }
  c.st(); c.tr(q); if ((k.mjd & 15) == 0) c.out(mc::mix((u64)full, o));
}
template<class S> static void spaces() {
  auto& R = mc::R(); const std::string nm = Tr<S>::name(); const u64 ND = dates().size();
  R.add("product-" + nm, fmt("%llu dates x 20 hours x 17 minutes (negative, multi-day, int limits) x ~70 amounts of every admissible resolution x 13 constructors", ND), ND * HRS.size(), 20,
        [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); product<S>(i, dates()[i / HRS.size()], HRS[i % HRS.size()], c); } },
        [=](u64 i) { return fmt("mjd %lld, %d hours", dates()[i / HRS.size()].mjd, HRS[i % HRS.size()]); });
  const i64 y0 = mc::g_thorough ? -4799 : -10, y1 = mc::g_thorough ? 20000 : 4000;
  R.add("every-date-" + nm, fmt("every date of the years %lld..%lld through 23 constructors, with four times of day that differ from date to date", y0, y1), (u64)(y1 - y0 + 1), 20,
        [=](u64 a, u64 b, Ctx& c) { const i64 D = day_ticks<S>(); for (u64 i = a; i < b; ++i) { c.at(i); const i64 y = y0 + (i64)i; i64 mjd = ref::to_mjd(y, 1, 1); const int n = ref::leap(y) ? 366 : 365; int m = 1, d = 1;
          for (int doy = 1; doy <= n; ++doy, ++mjd) { const YD k{y, m, d, doy, mjd}; const i64 t = (i64)(((u64)mjd * 2654435761u) % (u64)D);
            every_ctor<S>(i, k, (int)(doy % 24), (int)((y + doy) % 60 + 60) % 60, t % (60 * Tr<S>::tps), 1, c); every_ctor<S>(i, k, 0, 0, t, 1, c); every_ctor<S>(i, k, 0, 0, 0, 1, c); every_ctor<S>(i, k, -(doy % 30), (m * 31 + d) % 99, t - D, 0, c);
            if (++d > ref::mlen(y, m)) { d = 1; ++m; } } } },
        [=](u64 i) { return fmt("year %lld", y0 + (i64)i); });
  R.add("far-" + nm, fmt("%zu days to +-2^62 x 20 hours x 17 minutes x amounts through the constructors from a day; every month end and start of the years 2^k-1..2^k+1 (k from 12 to 30), of 5000*1.1^k and of the first and last years of the calendar formula through 23 constructors", far_days().size()), far_days().size() + 60 + LADY().size(), 8,
        [=](u64 a, u64 b, Ctx& c) { const i64 D = day_ticks<S>(); for (u64 i = a; i < b; ++i) { c.at(i); c.st();
          if (i < far_days().size()) { const i64 d = far_days()[i]; const modified_julian_day j{(long)d}; int q = 0; auto ck = [&](const datetime<S>& t, int h, int m, i64 x) { ++q; const i128 w = ref::inst(d, 0, Tr<S>::tps) + ((i128)h * 3600 + (i128)m * 60) * Tr<S>::tps + x; if (!normal(t) || inst(t) != w) c.fail(i, "C04", "datetime<%s> from mjd %lld, %d h, %d min, %lld: %s, off by %s ticks", Tr<S>::name(), d, h, m, x, str(t).c_str(), mc::i128s(inst(t) - w).c_str()); };
            for (i64 x : amt_alphabet<S>()) { ck(datetime<S>{j, S{(long)x}}, 0, 0, x); for (int h : HRS) ck(datetime<S>{j, hours{h}, minutes{h % 100}, S{(long)x}}, h, h % 100, x); for (int m : MNS) ck(datetime<S>{j, hours{7}, minutes{m}, S{(long)x}}, 7, m, x); }
            for (int h : HRS) for (int m : MNS) { ck(datetime<S>{j, hours{h}, minutes{m}}, h, m, 0); } for (int h : HRS) ck(datetime<S>{j, hours{h}}, h, 0, 0); c.tr(q); c.out((u64)d); }
          else { const u64 k = i - far_days().size(); const i64 y = k < 57 ? (1LL << (12 + k / 3)) + (i64)(k % 3) - 1 : k == 57 ? 2147479547 : k == 58 ? -4799 : k == 59 ? -4798 : LADY()[k - 60];
            int doy = 1; i64 mjd = ref::to_mjd(y, 1, 1); for (int m = 1; m <= 12; ++m) { const int n = ref::mlen(y, m); for (int d : {1, 2, 28, n}) { if (d == n && n == 28) continue; const YD z{y, m, d, doy + d - 1, mjd + d - 1}; for (i64 t : {(i64)0, (i64)1, D / 2, D - 1}) every_ctor<S>(i, z, (int)(d % 24), m, t, 1, c); every_ctor<S>(i, z, -25, 70, -D, 0, c); } doy += n; mjd += n; } c.out((u64)y); } } },
        [=](u64 i) { return i < far_days().size() ? fmt("mjd %lld", far_days()[i]) : fmt("year case %llu", i - far_days().size()); });
  R.add("every-field-" + nm, "every hour of -3000..3000, every minute of -9000..9000 and every second of -270000..270000 (one field at a time) through 23 constructors at three dates", 3 * 541, 20,
        [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); const YD& k = dates()[i % 3 == 0 ? 20 : i % 3 == 1 ? 33 : 50]; const i64 z = (i64)(i / 3) - 270;
          for (i64 q = 0; q < 12; ++q) { const i64 h = z * 12 + q; if (h >= -3000 && h <= 3000) { every_ctor<S>(i, k, (int)h, 0, 0, 1, c); every_ctor<S>(i, k, (int)h, 17, 5, 1, c); } }
          for (i64 q = 0; q < 34; ++q) { const i64 m = z * 34 + q; every_ctor<S>(i, k, 0, (int)m, 0, 1, c); every_ctor<S>(i, k, 5, (int)m, 59, 1, c); }
          for (i64 q = 0; q < 1000; ++q) { const i64 t = z * 1000 + q; every_ctor<S>(i, k, 0, 0, t * Tr<S>::tps, 1, c); if (Tr<S>::tps > 1) { every_ctor<S>(i, k, 1, 2, t * Tr<S>::tps + Tr<S>::tps - 1, 0, c); every_ctor<S>(i, k, 0, 0, t, 0, c); } } } },
        [=](u64 i) { return fmt("block %lld", (i64)(i / 3) - 270); });
  R.add("sec-type-" + nm, "the second type's own (hours, minutes, amount) and (hours, minutes, fractional seconds) constructors: 20 x 17 x (all milliseconds of 0..60.999 s + amounts)", HRS.size() * MNS.size(), 40,
        [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); sec_type<S>(i, HRS[i / MNS.size()], MNS[i % MNS.size()], c); } },
        [=](u64 i) { return fmt("%d hours %d minutes", HRS[i / MNS.size()], MNS[i % MNS.size()]); });
  R.add("frac-us-" + nm, "every whole number of microseconds of 0..60 s as fractional seconds", 61 * 4, 8,
        [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); c.st(250000); for (i64 k = (i64)i * 250000; k < ((i64)i + 1) * 250000; ++k) frac<S>(i, dates()[30], 0, 0, k, 1000000, c, k % 1000 == 1); } },
        [=](u64 i) { return fmt("%llu..%llu us", i * 250000, (i + 1) * 250000 - 1); });
  R.add("frac-ms-day-" + nm, "every whole millisecond of two days (and of minus one day) as fractional seconds", 3 * 86400, 2000,
        [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); c.st(1000); i64 s = (i64)i - 86400; for (i64 k = s * 1000; k < s * 1000 + 1000; ++k) frac<S>(i, dates()[31], 0, 0, k, 1000, c, false); } },
        [=](u64 i) { return fmt("second %lld", (i64)i - 86400); });
  R.add("frac-large-" + nm, fmt("around %zu magnitudes (powers of two and ten, day multiples): consecutive numbers of units to 2^51 and of seconds (and eighths) to 2^62 units (under 2^53 seconds), both signs, as fractional seconds", large().size()), large().size(), 2,
        [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); frac_large<S>(i, large()[i], c); } },
        [=](u64 i) { return fmt("around %lld", large()[i]); });
  R.add("frac-tail-" + nm, "n whole units plus or minus 1..9 parts of 10^-3..10^-6 of a unit for boundary n (where a double can tell): only the finer digits are dropped", 1, 1,
        [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i);
          for (i64 t : tod_alphabet<S>()) for (i64 den : {1000LL, 10000LL, 100000LL, 1000000LL}) for (i64 e = -9; e <= 9; ++e) { i64 num = t * den + e; if (num < 0 || (e && (double)(e < 0 ? -e : e) / (double)den < 1e-15 * (double)t)) continue; c.st(); frac<S>(i, dates()[20], 3, 4, num, den * Tr<S>::tps, c, true); } } },
        [=](u64) { return std::string("all"); });
  R.add("gps-" + nm, "datetime from GPS week and time of week: weeks 0..5300 and large x ~70 amounts, positive, negative and beyond a week", 5310, 200,
        [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); c.st(); i64 w = i < 5301 ? (i64)i : (i64)(1LL << (10 + 3 * (i - 5300)));
          for (i64 x : amt_alphabet<S>()) check<S>(i, "(gps_week,S)", datetime<S>{gps_week{(long)w}, S{(long)x}}, ref::inst(44244 + 7 * w, x, Tr<S>::tps), false, c, fmt("week %lld, %lld", w, x).c_str()); } },
        [=](u64 i) { return fmt("week case %llu", i); });
  if (mc::g_thorough)
    R.add("frac-us-day-" + nm, "every whole number of microseconds of a whole day as fractional seconds of the second type", 86400, 200,
          [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); c.st(1000000); c.tr(1000000); i64 w = (i64)i * Tr<S>::tps, n = 0; const i64 step = 1000000 / Tr<S>::tps;
            for (i64 k = (i64)i * 1000000; k < ((i64)i + 1) * 1000000; ++k) {
              i64 g = val(S{hours{0}, minutes{0}, (double)k / 1e6}); if (g != w) c.fail(i, "C04", "%s(0 h, 0 min, %lld/1000000 s) = %lld, expected %lld", Tr<S>::name(), k, g, w);
              if (++n == step) { n = 0; ++w; } }
            c.out((u64)w); } },
          [=](u64 i) { return fmt("second %llu", i); });
}
int main(int argc, char** argv) {
  mc::init("C04");
  spaces<seconds>(); spaces<milliseconds>(); spaces<microseconds>();
  return mc::R().main(argc, argv);
}
