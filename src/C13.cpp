// C13 reading any text is safe. Built with AddressSanitizer and UBSan; every
// text ends at the last byte before an inaccessible page.
#include "gg.hpp"
#include <climits>
#include <cmath>
#include <sys/mman.h>
using namespace gg;

enum Reader { YMD, YDOY, YMDHMS, YODHMS, YDOYHMS };
static const char* RN[] = {"strptime_ymd", "strptime_ydoy", "strptime_ymd_hms", "strptime_yod_hms", "strptime_ydoy_hms"};
template<class S> static datetime<S> rd(int r, const char* s, char** e) {
  switch (r) { case YMD: return strptime_ymd<S>(s, e); case YDOY: return strptime_ydoy<S>(s, e); case YMDHMS: return strptime_ymd_hms<S>(s, e); case YODHMS: return strptime_yod_hms<S>(s, e); default: return strptime_ydoy_hms<S>(s, e); }
}
struct Guard {
  static const size_t SZ = 1 << 16; char* end;
  Guard() { char* p = (char*)mmap(0, SZ + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) abort(); if (mprotect(p + SZ, 4096, PROT_NONE)) abort(); end = p + SZ; }
  char* put(const char* s, size_t n) { char* t = end - n - 1; memcpy(t, s, n); t[n] = 0; if (n < 64) t[-1] = '7'; return t; }
};
static char* guarded(const char* s, size_t n) { static Guard g; return g.put(s, n); }

// Reference scan: true when the text certainly has a field missing, a number
// that does not fit, or a date that does not exist. Fields are separated by one
// character; an integer may have white space and a sign before it.
static bool integer(const char* t, size_t& p, i64& v) {
  size_t q = p; while (t[q] == ' ' || (t[q] >= '\t' && t[q] <= '\r')) ++q;
  if (t[q] == '+' || t[q] == '-') ++q;
  if (t[q] < '0' || t[q] > '9') return false;
  v = 0; while (t[q] >= '0' && t[q] <= '9') { if (v < (1LL << 40)) v = v * 10 + (t[q] - '0'); ++q; }
  p = q; return true;
}
static int month_at(const char* t) {
  static const char* N = "janfebmaraprmayjunjulaugsepoctnovdec";
  for (int m = 0; m < 12; ++m) { int k = 0; while (k < 3 && t[k] && (t[k] | 32) == N[3 * m + k] && ((t[k] >= 'a' && t[k] <= 'z') || (t[k] >= 'A' && t[k] <= 'Z'))) ++k; if (k == 3) return m + 1; }
  return 0;
}
static const char* must_throw(int r, const char* t, double tps) {
  size_t p = 0; i64 f[6]; int n = 0; const int ni = r == YMD ? 3 : r == YDOY ? 2 : r == YDOYHMS ? 4 : 5; int mon = 0; const char* why = nullptr;
  for (int k = 0; k < ni; ++k) {
    if (r == YODHMS && k == 1) {
      if (int m = month_at(t + p)) { mon = m; p += 3; }
      else if (t[p] && (m = month_at(t + p + 1))) { mon = m; p += 4; }
      else return "no month name";
    } else { if (!integer(t, p, f[n])) return "a required number is missing"; if (f[n] > INT_MAX) why = "a number does not fit"; ++n; }
    if (t[p]) ++p;
  }
  if (r >= YMDHMS) {
    char* e; double s = strtod(t + p, &e);
    if (e == t + p) return "seconds are missing";
    if (!std::isfinite(s) || std::fabs(s) * tps > 9.3e18) return "seconds do not fit";
  }
  if (why) return why;
  if (r == YMD || r == YMDHMS) { if (!ref::valid(f[0], f[1], f[2])) return "no such date"; }
  if (r == YODHMS) { if (!ref::valid(f[0], mon, f[1])) return "no such date"; }
  return nullptr;
}
template<class S> static void one(u64 i, int r, char* t, size_t n, bool withstop, Ctx& c) {
  char* stop = nullptr; c.tr();
  const char* why = must_throw(r, t, (double)Tr<S>::tps);
  bool ret = false; datetime<S> d;
  try { d = rd<S>(r, t, withstop ? &stop : nullptr); ret = true; }
  catch (const std::exception&) { }
  catch (...) { c.fail(i, "C13", "%s<%s>(\"%s\") threw something that is not a std::exception", RN[r], Tr<S>::name(), mc::cstr(t).c_str()); }
  if (ret) {
    if (why) c.fail(i, "C13", "%s<%s>(\"%s\") returned %s although %s", RN[r], Tr<S>::name(), mc::cstr(t).c_str(), str(d).c_str(), why);
    if (!normal(d)) c.fail(i, "C13", "%s<%s>(\"%s\") returned %s, not in normal form", RN[r], Tr<S>::name(), mc::cstr(t).c_str(), str(d).c_str());
    if (withstop && !(stop >= t && stop <= t + n)) c.fail(i, "C13", "%s<%s>(\"%s\") reports an end %lld characters from the start of a text of %zu", RN[r], Tr<S>::name(), mc::cstr(t).c_str(), stop ? (i64)(stop - t) : -999999LL, n);
  } else if (withstop && stop && !(stop >= t && stop <= t + n)) c.fail(i, "C13", "%s<%s>(\"%s\") threw and left an end position outside the text", RN[r], Tr<S>::name(), mc::cstr(t).c_str());
}
static void text(u64 i, int r, const char* s, size_t n, Ctx& c, u64 k = 0) {
  char* t = guarded(s, n);
  snprintf(c.s->note, sizeof c.s->note, "%s of \"%.120s\"", RN[r], s);
  switch (k % 3) { case 0: one<microseconds>(i, r, t, n, true, c); break; case 1: one<milliseconds>(i, r, t, n, true, c); break; default: one<seconds>(i, r, t, n, true, c); }
  if (memcmp(t, s, n)) c.fail(i, "C13", "%s changed its text \"%s\"", RN[r], mc::cstr(s).c_str());
}
static void readers(u64 i, const std::string& s, Ctx& c, u64 k) { c.st(); for (int r = 0; r < 5; ++r) text(i, r, s.c_str(), strlen(s.c_str()), c, k + r); }
static void all_res(u64 i, const std::string& s, Ctx& c) { c.st(); for (int r = 0; r < 5; ++r) for (int k = 0; k < 3; ++k) text(i, r, s.c_str(), strlen(s.c_str()), c, k);
  // exact heap block: also watches the bytes before the text
  const size_t n = strlen(s.c_str()); char* h = (char*)malloc(n + 1); memcpy(h, s.c_str(), n + 1);
  for (int r = 0; r < 5; ++r) { one<microseconds>(i, r, h, n, true, c); one<milliseconds>(i, r, h, n, false, c); } free(h); }

static const std::vector<std::string> BASE{
  "2015-12-30", "2015-364", "2015-12-30 12:09:30.000001", "2015-Dec-30 12:09:30.000001", "2015-364 12:09:30.000001",
  "0-1-1 0:0:0", "0 1 0:0:0", "9-feb-9 9:9:9.9", "2004/02/29T23:59:59.999999Z", "1980-006 00:00:00", "1999 aug 22 01:02:03"};

template<class Fn> static void product(const char* alpha, int na, int len, u64 first, u64 count, Fn f) {  // strings of exactly len, numbered
  std::string s(len, 0);
  for (u64 q = first; q < first + count; ++q) { u64 v = q; for (int k = len - 1; k >= 0; --k) { s[k] = alpha[v % na]; v /= na; } f(s, q); }
}
static u64 ipow(u64 b, int e) { u64 r = 1; while (e--) r *= b; return r; }
static void add_strings(const char* name, const char* what, const std::string& prefix, const std::string& suffix, const char* alpha, int maxlen, unsigned readers_mask) {
  const int na = (int)strlen(alpha);
  for (int L = 0; L <= maxlen; ++L) {
    const u64 total = ipow(na, L), per = 4096, n = (total + per - 1) / per;
    mc::R().add(fmt("%s-%d", name, L), fmt("%s: all %llu strings of length %d over %d characters", what, total, L, na), n, n > 2000 ? 8 : 1,
                [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); product(alpha, na, L, i * per, std::min(per, total - i * per), [&](const std::string& s, u64 q) { std::string t = prefix + s + suffix; c.st(); for (int r = 0; r < 5; ++r) if (readers_mask >> r & 1) text(i, r, t.c_str(), t.size(), c, q + r); }); c.out(i); } },
                [=](u64 i) { return fmt("strings %llu.. of length %d", i * per, L); });
  }
}
int main(int argc, char** argv) {
  mc::init("C13");
  auto& R = mc::R(); const bool th = mc::g_thorough;
  add_strings("short", "whole text", "", "", "019-+ .:exJan", th ? 7 : 5, 31);
  add_strings("sec-ymd", "seconds field of YYYY-MM-DD HH:MM:", "2015-12-30 12:09:", "", "019.-+eExpnaif ", th ? 6 : 4, 1 << YMDHMS);
  add_strings("sec-ydoy", "seconds field of YYYY-DDD HH:MM:", "2015-364 12:09:", "", "019.-+eExpnaif ", th ? 5 : 4, 1 << YDOYHMS);
  add_strings("sec-yod", "seconds field of YYYY-OOO-DD HH:MM:", "2015-Dec-30 12:09:", "", "019.-+eExpnaif ", th ? 5 : 4, 1 << YODHMS);
  add_strings("month-open", "after the year of YYYY-OOO-DD, text ends", "2015", "", "-JanUFEBdec1 ", th ? 6 : 5, 1 << YODHMS);
  add_strings("month-inner", "around the month of YYYY-OOO-DD HH:MM:SS", "2015", "-01 00:00:00", "-JanUFEBdec1 ", th ? 6 : 5, 1 << YODHMS);
  add_strings("after-month", "after the month of YYYY-OOO, text ends", "2015-Jan", "", "019-+ .:ex", th ? 7 : 5, 1 << YODHMS);
  add_strings("day-of-year", "second field of YYYY-DDD", "2015-", " 1:2:3", "019-+ .:ex", th ? 6 : 5, 1 << YDOY | 1 << YDOYHMS);
  add_strings("month-number", "second and third field of YYYY-MM-DD", "2000-", " 1:2:3", "0123-+ .", th ? 7 : 5, 1 << YMD | 1 << YMDHMS);
  // corruptions of well-formed texts, all readers, all resolutions
  R.add("truncations", "all substrings of the base texts x five readers x three resolutions, guard page and exact heap block", BASE.size(), 1,
        [](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); const std::string& s = BASE[i]; for (size_t p = 0; p <= s.size(); ++p) for (size_t q = p; q <= s.size(); ++q) { all_res(i, s.substr(p, q - p), c); all_res(i, s.substr(0, p) + s.substr(q), c); } c.out(i); } },
        [](u64 i) { return BASE[i]; });
  R.add("one-byte", "all one-byte substitutions and insertions (255 bytes), deletions and transpositions of the base texts x five readers x three resolutions", BASE.size() * 30, 4,
        [](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); const std::string& s = BASE[i / 30]; const size_t p = i % 30; if (p > s.size()) continue;
            for (int q = 1; q < 256; ++q) { std::string t = s; t.insert(p, 1, (char)q); all_res(i, t, c); if (p < s.size()) { t = s; t[p] = (char)q; all_res(i, t, c); } }
            for (size_t u = p + 1; u < s.size(); ++u) { std::string t = s; std::swap(t[p], t[u]); all_res(i, t, c); }
            c.out(i); } },
        [](u64 i) { return fmt("%s at %llu", BASE[i / 30].c_str(), i % 30); });
  static const std::string A2 = std::string("0159-+ .:eExXnaiJdT\t\x80") + '\0';
  R.add("two-byte", "all substitutions of two bytes by any of 22 (including a null) in the base texts x five readers", BASE.size() * 30, 2,
        [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); const std::string& s = BASE[i / 30]; const size_t p = i % 30; u64 k = 0;
            for (size_t u = p + 1; u < s.size(); ++u) for (char x : A2) for (char y : A2) { std::string t = s; t[p] = x; t[u] = y; readers(i, t, c, k++); }
            c.beat(); c.out(i); } },
        [](u64 i) { return fmt("%s at %llu and later", BASE[i / 30].c_str(), i % 30); });
  if (th) {
    static const std::string A3 = std::string("09-. :e") + '\0';
    R.add("three-byte", "all substitutions of three bytes by any of 8 (including a null) in the base texts x five readers", BASE.size() * 30 * 30, 8,
          [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); const std::string& s = BASE[i / 900]; const size_t p = i / 30 % 30, u = i % 30; u64 k = 0; if (u <= p || u >= s.size()) continue;
              for (size_t w = u + 1; w < s.size(); ++w) for (char x : A3) for (char y : A3) for (char z : A3) { std::string t = s; t[p] = x; t[u] = y; t[w] = z; readers(i, t, c, k++); }
              c.out(i); } },
          [](u64 i) { return fmt("%s at %llu, %llu and later", BASE[i / 900].c_str(), i / 30 % 30, i % 30); });
  }
  // field values: every combination of three fields over extreme tokens, the others ordinary
  static const std::vector<std::string> TOK{"", "0", "1", "00", "12", "29", "31", "99", "-1", "+1", " 1", "-", "+", " ", "x", "1x", ".", "1.5", "-0", "2147483647", "2147483648", "-2147483647", "-2147483648", "4294967297", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "99999999999999999999999", "00000000000000000000001",
    "nan", "inf", "-inf", "infinity", "nan(1)", "1e5", "-1e5", "1e18", "1e19", "-1e19", "1e300", "1e999", "-1e999", "1e-999", "0x10", "0x1p70", "1e", "1e+", "1152921504606846975", "1152921504606846977", "9223372036854", "9223372036855", "Jan", "Feb"};
  static const char* ORD[5][6] = {{"2015", "12", "30", "", "", ""}, {"2015", "364", "", "", "", ""}, {"2015", "12", "30", "12", "09", "30.5"}, {"2015", "Dec", "30", "12", "09", "30.5"}, {"2015", "364", "12", "09", "30.5", ""}};
  static const int NF[5] = {3, 2, 6, 6, 5};
  R.add("fields", fmt("every combination of %zu tokens (missing, extreme, malformed numbers, infinities) in every three fields of each format x five readers", TOK.size()), 5 * TOK.size() * TOK.size(), 32,
        [](u64 a, u64 b, Ctx& c) { const u64 n = TOK.size(); static const char SEP[5][6] = {"--", "-", "-- ::", "-- ::", "- ::"};
          for (u64 i = a; i < b; ++i) { c.at(i); const int r = (int)(i / (n * n)); const std::string& x = TOK[i / n % n]; const std::string& y = TOK[i % n]; const int nf = NF[r]; u64 k = 0;
            auto emit = [&](std::vector<std::string> f) { std::string t; for (int q = 0; q < nf; ++q) { t += f[q]; if (q + 1 < nf) t += SEP[r][q]; } c.st(); text(i, r, t.c_str(), t.size(), c, k); ++k; if (k % 7 == 0) text(i, (r + 1 + (int)(k / 7) % 4) % 5, t.c_str(), t.size(), c, k); };
            std::vector<std::string> o(ORD[r], ORD[r] + 6);
            for (int p = 0; p < nf; ++p) for (int q = p + 1; q < nf; ++q) {
              auto f = o; f[p] = x; f[q] = y; for (int z = 0; z < 3; ++z) emit(f);
              for (int w = q + 1; w < nf; ++w) for (const auto& z : TOK) { auto g = f; g[w] = z; emit(g); } }
            c.out(i); } },
        [](u64 i) { const u64 n = TOK.size(); return fmt("%s, tokens \"%s\" and \"%s\"", RN[i / (n * n)], TOK[i / n % n].c_str(), TOK[i % n].c_str()); });
  // numeric neighbourhood of the limits: the second field that just fits, for each resolution
  R.add("limits", "every field set to 2^k-1, 2^k, 2^k+1 (both signs) for k up to 70, one at a time and hours with minutes and seconds together x five readers x three resolutions", 71 * 3, 3,
        [](u64 a, u64 b, Ctx& c) { static const char SEP[5][6] = {"--", "-", "-- ::", "-- ::", "- ::"};
          for (u64 i = a; i < b; ++i) { c.at(i); i128 v = ((i128)1 << (i / 3)) + (int)(i % 3) - 1; std::string num = mc::i128s(v);
            for (int r = 0; r < 5; ++r) for (u64 m = 1; m < (1u << NF[r]); ++m) for (int sg = 0; sg < 2; ++sg) { std::string t; for (int q = 0; q < NF[r]; ++q) { t += (m >> q & 1) ? (sg ? "-" + num : num) : ORD[r][q]; if (q + 1 < NF[r]) t += SEP[r][q]; } c.st(); for (int k = 0; k < 3; ++k) text(i, r, t.c_str(), t.size(), c, k); }
            c.out(i); } },
        [](u64 i) { return fmt("2^%llu %+d", i / 3, (int)(i % 3) - 1); });
  R.add("long", "one character repeated up to 60000 times before, after and inside every field of the base texts x five readers", BASE.size() * 12, 4,
        [](u64 a, u64 b, Ctx& c) { static const char ch[] = "0 9-.a\t:eJ+\xff";
          for (u64 i = a; i < b; ++i) { c.at(i); const std::string& s = BASE[i / 12]; const char x = ch[i % 12];
            for (size_t n : {7u, 30u, 63u, 64u, 65u, 255u, 400u, 4095u, 60000u}) { c.beat(); for (size_t p = 0; p <= s.size(); p += n > 400 ? 5 : 1) { std::string t = s; t.insert(p, n, x); readers(i, t, c, p); } }
            c.out(i); } },
        [](u64 i) { return fmt("%s with character case %llu", BASE[i / 12].c_str(), i % 12); });
  return R.main(argc, argv);
}
