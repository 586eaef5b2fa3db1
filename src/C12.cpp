// C12 reading well-formed text yields exactly what was written.
#include "gg.hpp"
#include <functional>
using namespace gg;

enum Reader { YMD, YDOY, YMDHMS, YODHMS, YDOYHMS };
static const char* RN[] = {"strptime_ymd", "strptime_ydoy", "strptime_ymd_hms", "strptime_yod_hms", "strptime_ydoy_hms"};
template<class S> static datetime<S> rd(int r, const char* s, char** e) {
  switch (r) { case YMD: return strptime_ymd<S>(s, e); case YDOY: return strptime_ydoy<S>(s, e); case YMDHMS: return strptime_ymd_hms<S>(s, e); case YODHMS: return strptime_yod_hms<S>(s, e); default: return strptime_ydoy_hms<S>(s, e); }
}
template<class S> static void one(u64 i, int r, const char* s, size_t last, i64 mjd, i64 ticks, bool nostop, Ctx& c) {
  char* stop = nullptr; c.tr();
  datetime<S> d;
  try { d = rd<S>(r, s, &stop); } catch (std::exception& e) { c.fail(i, "C12", "%s<%s>(\"%s\") threw %s", RN[r], Tr<S>::name(), mc::cstr(s).c_str(), e.what()); return; }
  if (val(d.mjd()) != mjd || val(d.sec()) != ticks) c.fail(i, "C12", "%s<%s>(\"%s\") = %s, expected (mjd %lld, %lld)", RN[r], Tr<S>::name(), mc::cstr(s).c_str(), str(d).c_str(), mjd, ticks);
  if (stop != s + last) c.fail(i, "C12", "%s<%s>(\"%s\") reports end at offset %lld, the last character interpreted is at %zu", RN[r], Tr<S>::name(), mc::cstr(s).c_str(), (i64)(stop - s), last);
  if (nostop) { try { d = rd<S>(r, s, nullptr); } catch (std::exception& e) { c.fail(i, "C12", "%s<%s>(\"%s\") without stop threw %s", RN[r], Tr<S>::name(), mc::cstr(s).c_str(), e.what()); return; }
    if (val(d.mjd()) != mjd || val(d.sec()) != ticks) c.fail(i, "C12", "%s<%s>(\"%s\") without stop = %s", RN[r], Tr<S>::name(), mc::cstr(s).c_str(), str(d).c_str()); c.tr(); }
}
static void all_s(u64 i, int r, const char* s, size_t last, i64 mjd, i64 sec, i64 pico, bool nostop, Ctx& c) {  // pico: 10^-12 s
  one<seconds>(i, r, s, last, mjd, sec, nostop, c);
  one<milliseconds>(i, r, s, last, mjd, sec * 1000 + pico / 1000000000, nostop, c);
  one<microseconds>(i, r, s, last, mjd, sec * 1000000 + pico / 1000000, nostop, c);
}
static const char* MN[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
struct T { char b[320]; int n; T() : n(0) { b[0] = 0; }
  void ch(char c) { b[n++] = c; b[n] = 0; }
  void num(i64 v, int w) { n += snprintf(b + n, 40, w == 4 ? "%04lld" : w == 3 ? "%03lld" : w == 2 ? "%02lld" : "%lld", v); }
  void s(const char* p) { while (*p) b[n++] = *p++; b[n] = 0; } };
struct F { i64 y; int m, d, doy; i64 mjd; int h, mi, se; const char* frac; int cs; };
// sep: the separators in order; pad: zero padded
static void text(T& t, int r, const F& f, const char* sep, bool pad) {
  t.num(f.y, pad ? 4 : 0); t.ch(*sep++);
  if (r == YDOY || r == YDOYHMS) t.num(f.doy, pad ? 3 : 0);
  else { if (r == YODHMS) { char b[4]; memcpy(b, MN[f.m - 1], 4); for (int k = 0; k < 3; ++k) b[k] = (f.cs >> k & 1) ? (char)toupper(b[k]) : (char)tolower(b[k]); t.s(b); } else t.num(f.m, pad ? 2 : 0);
    t.ch(*sep++); t.num(f.d, pad ? 2 : 0); }
  if (r == YMD || r == YDOY) return;
  t.ch(*sep++); t.num(f.h, pad ? 2 : 0); t.ch(*sep++); t.num(f.mi, pad ? 2 : 0); t.ch(*sep++); t.num(f.se, pad ? 2 : 0); t.s(f.frac);
}
static int nsep(int r) { static const int n[] = {2, 1, 5, 5, 4}; return n[r]; }
static const char* DEF(int r) { static const char* d[] = {"--", "-", "-- ::", "-- ::", "- ::"}; return d[r]; }
static i64 pico(const char* frac) { if (!*frac) return 0; i64 v = 0; int n = 0; for (const char* p = frac + 1; *p && n < 12; ++p, ++n) v = v * 10 + (*p - '0'); for (; n < 12; ++n) v *= 10; return v; }
static void rd_all(u64 i, int r, const F& f, const char* sep, bool pad, const char* tail, bool nostop, Ctx& c) {
  T t; text(t, r, f, sep, pad); size_t last = t.n - 1; t.s(tail);
  i64 s = (r == YMD || r == YDOY) ? 0 : (f.h * 60 + f.mi) * 60 + f.se;
  all_s(i, r, t.b, last, f.mjd, s, (r == YMD || r == YDOY) ? 0 : pico(f.frac), nostop, c);
}
static const F BASE[] = {{2015, 12, 30, 364, 57386, 12, 9, 30, ".000001", 1}, {1980, 1, 6, 6, 44244, 0, 0, 0, "", 1}, {2000, 2, 29, 60, 51603, 23, 59, 59, ".999999", 7}, {0, 3, 1, 61, 0, 5, 7, 8, ".5", 0}, {9999, 12, 31, 365, 2973483, 1, 2, 3, ".123456789", 1}, {2004, 9, 5, 249, 53253, 8, 8, 9, ".09", 2}};
static F base(int k) { F f = BASE[k]; f.mjd = ref::to_mjd(f.y, f.m, f.d); return f; }

int main(int argc, char** argv) {
  mc::init("C12");
  auto& R = mc::R();
  // 1 every date, all readers; time of day rotates through the boundary seconds
  const i64 ny = mc::g_thorough ? 100000 : 10000;
  R.add("dates", fmt("every date of years 0..%lld x five readers x three resolutions x padded and unpadded (time of day rotating through the boundary seconds)", ny - 1), ny, 40,
        [](u64 a, u64 b, Ctx& c) { const auto& S = tod_alphabet<seconds>(); u64 rot = 0;
          for (u64 i = a; i < b; ++i) { c.at(i); for (ref::Day k = ref::jan1((i64)i); k.y == (i64)i; k.next()) { i64 s = S[rot++ % S.size()]; c.st();
              F f{k.y, k.m, k.d, k.doy, k.mjd, (int)(s / 3600), (int)(s / 60 % 60), (int)(s % 60), rot % 3 ? "" : ".25", 1};
              for (int r = 0; r < 5; ++r) { rd_all(i, r, f, DEF(r), true, "", false, c); if (mc::g_thorough || rot % 5 == (u64)r || k.d <= 2) rd_all(i, r, f, DEF(r), false, "", true, c); } }
            c.out(i); } },
        [](u64 i) { return fmt("year %llu", i); });
  R.add("far-years", fmt("every date of %zu years after 9999 to the limit of int (2^k, 10^k, 10000*1.03^k) x five readers x three resolutions", far_years().size()), far_years().size(), 4,
        [](u64 a, u64 b, Ctx& c) { const auto& S = tod_alphabet<seconds>(); u64 rot = 0;
          for (u64 i = a; i < b; ++i) { c.at(i); const i64 y = far_years()[i]; int doy = 0; i64 mjd = ref::to_mjd(y, 1, 1); for (int m = 1; m <= 12; ++m) for (int d = 1; d <= ref::mlen(y, m); ++d, ++mjd) { ++doy; i64 s = S[rot++ % S.size()]; c.st();
              F f{y, m, d, doy, mjd, (int)(s / 3600), (int)(s / 60 % 60), (int)(s % 60), rot % 3 ? "" : ".25", 1};
              for (int r = 0; r < 5; ++r) rd_all(i, r, f, DEF(r), rot & 1, "", d == 1, c); } c.out((u64)y); } },
        [](u64 i) { return fmt("year %lld", far_years()[i]); });
  // 2 every second of the day
  R.add("times", "every second of the day x three readers x padded and unpadded x fractions none, .0, .9, .999, .000001, .999999 x three resolutions", 86400, 200,
        [](u64 a, u64 b, Ctx& c) { static const char* fr[] = {"", ".0", ".9", ".999", ".000001", ".999999"};
          for (u64 i = a; i < b; ++i) { c.at(i); c.st(); F f = base(i % 6); f.h = i / 3600; f.mi = i / 60 % 60; f.se = i % 60;
            for (const char* q : fr) { f.frac = q; for (int r = YMDHMS; r <= YDOYHMS; ++r) { rd_all(i, r, f, DEF(r), true, "", false, c); rd_all(i, r, f, DEF(r), false, "", false, c); } } c.out(i); } },
        [](u64 i) { return fmt("%02llu:%02llu:%02llu", i / 3600, i / 60 % 60, i % 60); });
  // 3 month names
  R.add("months", "12 months x 8 letter cases x every separator before and after the name x all days of the month", 12 * 8, 2,
        [](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); F f = base(2); f.y = 2004; f.m = (int)(i / 8) + 1; f.cs = i % 8;
            for (f.d = 1; f.d <= ref::mlen(2004, f.m); ++f.d) { f.mjd = ref::to_mjd(2004, f.m, f.d); c.st(); rd_all(i, YODHMS, f, DEF(YODHMS), f.d & 1, "", true, c); }
            f.d = 10; f.mjd = ref::to_mjd(2004, f.m, 10);
            for (int s = 1; s < 256; ++s) { if (s >= '0' && s <= '9') continue; char sep[6] = {(char)s, (char)s, 'T', ':', ':', 0}; rd_all(i, YODHMS, f, sep, true, "", false, c); c.st(); }
            c.out(i); } },
        [](u64 i) { return fmt("month %llu, letter case %llu", i / 8 + 1, i % 8); });
  // 4 separators: every byte in every position, and every byte in all positions at once; thorough: every pair of bytes in every pair of positions
  R.add("separators", "every non-digit byte (1..255) in every separator position and in all at once x five readers x six base texts, padded and unpadded", 5 * 6, 1,
        [](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); const int r = (int)(i / 6); const F f = base(i % 6); const int n = nsep(r);
            for (int s = 1; s < 256; ++s) { if (s >= '0' && s <= '9') continue;
              for (int p = 0; p <= n; ++p) { char sep[6]; strcpy(sep, DEF(r)); for (int q = 0; q < n; ++q) if (p == n || q == p) sep[q] = (char)s; c.st(); rd_all(i, r, f, sep, true, "", false, c); rd_all(i, r, f, sep, false, "", false, c); } }
            c.out(i); } },
        [](u64 i) { return fmt("%s, base text %llu", RN[i / 6], i % 6); });
  R.add("separator-pairs", "every pair of non-digit bytes in every two adjacent separator positions x five readers (quick: every pair of 40 characters)", 5 * 256, 4,
        [](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); const int r = (int)(i / 256), s = (int)(i % 256); if (!s || (s >= '0' && s <= '9')) continue;
            static const char quick[] = " \t\n\r\v\f-+./:;,_TtZzeExXpPaAjJdDnNiI#'\"\x7f\x80\xe9\xff"; if (!mc::g_thorough && !strchr(quick, s)) continue;
            const F f = base((int)(s % 3)); const int n = nsep(r);
            for (int u = 1; u < 256; ++u) { if (u >= '0' && u <= '9') continue; if (!mc::g_thorough && !strchr(quick, u)) continue;
              for (int p = 0; p + 1 < n; ++p) { char sep[6]; strcpy(sep, DEF(r)); sep[p] = (char)s; sep[p + 1] = (char)u; c.st(); rd_all(i, r, f, sep, u & 1, "", false, c); } }
            c.out(i); } },
        [](u64 i) { return fmt("%s, byte %llu", RN[i / 256], i % 256); });
  // 5 trailing text
  R.add("trailing", "every byte that cannot continue the last field, followed by nothing, digits, letters, the same byte or a long text x five readers x six base texts", 5 * 6, 1,
        [](u64 a, u64 b, Ctx& c) { static const char* rest[] = {"", "1", "00", "e5", "UTC", " 2015-01-01 00:00:00", ":59", ".5", "-"};
          for (u64 i = a; i < b; ++i) { c.at(i); const int r = (int)(i / 6); const F f = base(i % 6);
            for (int s = 1; s < 256; ++s) { if (s >= '0' && s <= '9') continue; if (r >= YMDHMS && strchr(".eExXpP", s)) continue;
              for (const char* q : rest) { char tail[64]; tail[0] = (char)s; strcpy(tail + 1, q); c.st(); rd_all(i, r, f, DEF(r), true, tail, false, c); }
              char tail[3] = {(char)s, (char)s, 0}; rd_all(i, r, f, DEF(r), false, tail, true, c); }
            c.out(i); } },
        [](u64 i) { return fmt("%s, base text %llu", RN[i / 6], i % 6); });
  R.add("long-trailing", "27 lengths up to 200000 of text after the last field (a byte that cannot continue it, then one of six fillers) x five readers x six base texts", 5 * 6 * 27, 4,
        [](u64 a, u64 b, Ctx& c) { static const int len[27] = {30, 31, 32, 33, 60, 63, 64, 65, 100, 127, 128, 129, 200, 236, 255, 256, 257, 300, 511, 512, 1023, 1024, 4095, 4096, 65536, 100000, 200000};
          for (u64 i = a; i < b; ++i) { c.at(i); const int r = (int)(i / 27 / 6); const F f = base(i / 27 % 6); const i64 s = r < YMDHMS ? 0 : (f.h * 60 + f.mi) * 60 + f.se;
            for (char x : {' ', 'x', '0', '9', '\n', '-'}) for (char first : {' ', ',', 'Z'}) { T t; text(t, r, f, DEF(r), x == '0'); std::string w(t.b); w += first; w.append(len[i % 27], x); c.st(); all_s(i, r, w.c_str(), t.n - 1, f.mjd, s, r < YMDHMS ? 0 : pico(f.frac), true, c); c.beat(); }
            c.out(i); } },
        [](u64 i) { return fmt("%s, base text %llu, length case %llu", RN[i / 162], i / 27 % 6, i % 27); });
  // 6 fractions
  R.add("digits", "all fractional digit strings up to 5 digits, each alone and continued to 6..12 digits by 0s, 9s, 1s or mixed tails, at seconds 0, 9, 30 and 59", 100000 + 10000 + 1000 + 100 + 10, 100,
        [](u64 a, u64 b, Ctx& c) { static const int sec[] = {0, 9, 30, 59}; static const char* tl[] = {"", "9", "999", "9999999", "0000001", "5", "49999", "123456", "000", "1"};
          for (u64 i = a; i < b; ++i) { c.at(i); c.st(); u64 j = i; int w = 1; u64 p = 10; while (j >= p) { j -= p; p *= 10; ++w; }
            F f = base(i % 6); char fr[32];
            for (int k = 0; k < 10; ++k) { int n = snprintf(fr, sizeof fr, ".%0*llu%s", w, j, tl[k]); if (n > 13) fr[13] = 0; f.frac = fr; f.se = sec[(i + k) % 4];
              const int r = YMDHMS + (int)((i + k) % 3); T t; text(t, r, f, DEF(r), true); all_s(i, r, t.b, t.n - 1, f.mjd, (f.h * 60 + f.mi) * 60 + f.se, pico(fr), false, c); }
            c.out(i); } },
        [](u64 i) { return fmt("digit string case %llu", i); });
  R.add("long-digits", "all fractional digit strings up to 3 digits continued to every length of 13..80 (and 19 longer ones to 200) by 0s, 5s or 3s, and seconds written with 0..80 leading zeros before them", 1110, 8,
        [](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); u64 j = i; int w = 1; u64 p = 10; while (j >= p) { j -= p; p *= 10; ++w; }
            F f = base(i % 6); char fr[256];
            for (int len = 13; len <= 100; ++len) for (char x : {'0', '5', '3'}) { const int l = len <= 80 ? len : 80 + (len - 80) * 6; int n = snprintf(fr, sizeof fr, ".%0*llu", w, j); while (n < l + 1) fr[n++] = x; fr[n] = 0; f.frac = fr; f.se = (int)((i * 7 + (u64)len) % 60);
              const int r = YMDHMS + (int)((i + (u64)len) % 3); c.st(); T t; text(t, r, f, DEF(r), true); all_s(i, r, t.b, t.n - 1, f.mjd, (f.h * 60 + f.mi) * 60 + f.se, pico(fr), false, c);
              if (len <= 93 && x == '5') { F g = f; fr[w + 3] = 0; T z; text(z, r, g, DEF(r), true); const char* dot = strrchr(z.b, '.'); const int at = (int)(dot - z.b) - 2; char q[320]; snprintf(q, sizeof q, "%.*s%0*d%s", at, z.b, len - 13 + 2, g.se, dot); c.st(); all_s(i, r, q, strlen(q) - 1, f.mjd, (f.h * 60 + f.mi) * 60 + f.se, pico(fr), false, c); } }
            c.out(i); } },
        [](u64 i) { return fmt("digit string case %llu", i); });
  static const int secs[] = {0, 59, 30, 1, 17, 42, 7, 58};
  const int nsec = mc::g_thorough ? 60 : 4;
  R.add("microseconds", fmt("all 1000000 six-digit fractions x %d seconds of the minute at microsecond (and millisecond) resolution", nsec), 1000ull * nsec, 20,
        [](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); const int se = mc::g_thorough ? (int)(i / 1000) : secs[i / 1000]; F f = base(i % 6); f.se = se; char fr[16]; f.frac = fr;
            for (int q = 0; q < 1000; ++q) { i64 us = (i64)(i % 1000) * 1000 + q; snprintf(fr, sizeof fr, ".%06lld", us); c.st();
              T t; const int r = YMDHMS + q % 3; text(t, r, f, DEF(r), true); i64 s = (f.h * 60 + f.mi) * 60 + f.se;
              one<microseconds>(i, r, t.b, t.n - 1, f.mjd, s * 1000000 + us, false, c); if (q % 10 == 0) one<milliseconds>(i, r, t.b, t.n - 1, f.mjd, s * 1000 + us / 1000, false, c); }
            c.out(i); } },
        [](u64 i) { return fmt("milliseconds %llu of second case %llu", i % 1000, i / 1000); });
  // 7 all leading-zero widths
  R.add("widths", "every field printed with 0..5 extra leading zeros (all combinations over up to six fields, 0 or 3 extra each plus single fields 0..12)", 5 * 6, 1,
        [](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); const int r = (int)(i / 6); const F f = base(i % 6);
            auto pr = [&](const std::vector<int>& z) { T t; int k = 0; const char* sp = DEF(r); auto nm = [&](i64 v) { for (int q = 0; q < z[k]; ++q) t.ch('0'); ++k; t.num(v, 0); };
              nm(f.y); t.ch(*sp++); if (r == YDOY || r == YDOYHMS) nm(f.doy); else { if (r == YODHMS) t.s(MN[f.m - 1]); else nm(f.m); t.ch(*sp++); nm(f.d); }
              if (r >= YMDHMS) { t.ch(*sp++); nm(f.h); t.ch(*sp++); nm(f.mi); t.ch(*sp++); nm(f.se); t.s(f.frac); }
              c.st(); all_s(i, r, t.b, t.n - 1, f.mjd, r < YMDHMS ? 0 : (f.h * 60 + f.mi) * 60 + f.se, r < YMDHMS ? 0 : pico(f.frac), false, c); };
            for (int m = 0; m < 64; ++m) { std::vector<int> z(6); for (int q = 0; q < 6; ++q) z[q] = (m >> q & 1) ? 3 : 0; pr(z); }
            for (int q = 0; q < 6; ++q) for (int w = 0; w <= 12; ++w) { std::vector<int> z(6, 0); z[q] = w; pr(z); }
            c.out(i); } },
        [](u64 i) { return fmt("%s, base text %llu", RN[i / 6], i % 6); });
  return R.main(argc, argv);
}
