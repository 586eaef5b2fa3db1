// C14 formatting shows the date and time, and reads back to the same instant.
#include "gg.hpp"
using namespace gg;

static bool digits(const char*& p, int lo, int hi, i64& v) { v = 0; int n = 0; while (*p >= '0' && *p <= '9' && n < hi + 1) { v = v * 10 + (*p++ - '0'); ++n; } return n >= lo && n <= hi; }
// "S.ffffff..." or "SS.fff": exact value in picoseconds; at least `need` fractional digits
static bool secs(const char* p, const char* end, int need, i64& pico) {
  i64 s; if (!digits(p, 1, 2, s)) return false;
  i64 f = 0; int n = 0;
  if (*p == '.') { ++p; while (*p >= '0' && *p <= '9' && n < 12) { f = f * 10 + (*p++ - '0'); ++n; } }
  if (n < need || p != end) return false;
  for (; n < 12; ++n) f *= 10;
  pico = s * 1000000000000LL + f; return true;
}
template<class S> static void one(u64 i, const ref::Day& k, i64 t, char del, bool rt, bool gen, Ctx& c) {
  const datetime<S> d = mk<S>(k.mjd, t); const i64 s = t / Tr<S>::tps, h = s / 3600, m = s / 60 % 60, sec = s % 60, fr = t % Tr<S>::tps;
  const i64 pico = sec * 1000000000000LL + fr * (1000000000000LL / Tr<S>::tps);
  const std::string a = strftime_ymd_hmfs(d, del); c.tr();
  // a year before 0: a minus and the digits of the year, however padded
  char want[64]; int pad = 4; if (k.y < 0) for (pad = 2; pad < 8 && !(a.size() > (size_t)pad && a[pad] == del && a[pad - 1] >= '0' && a[pad - 1] <= '9'); ) ++pad;
  int n = snprintf(want, sizeof want, "%0*lld%c%02d%c%02d %02lld:%02lld:", k.y < 0 ? pad : 4, k.y, del, k.m, del, k.d, h, m);
  i64 p;
  if (a.size() < (size_t)n || a.compare(0, n, want, n) || !secs(a.c_str() + n, a.c_str() + a.size(), Tr<S>::dig, p) || p != pico)
    c.fail(i, "C14", "strftime_ymd_hmfs of %s, del 0x%02x: \"%s\"", str(d).c_str(), (unsigned char)del, mc::cstr(a).c_str());
  const std::string b = strftime_ymd_hms(d, del); c.tr();
  n += snprintf(want + n, sizeof want - n, "%02lld", sec);
  if (b.size() != (size_t)n || memcmp(b.data(), want, n)) c.fail(i, "C14", "strftime_ymd_hms of %s, del 0x%02x: \"%s\"", str(d).c_str(), (unsigned char)del, mc::cstr(b).c_str());
  if (del == '-') { c.tr(); if (strftime_ymd_hms(d) != b || strftime_ymd_hmfs(d) != a) c.fail(i, "C14", "default separator of %s: \"%s\"", str(d).c_str(), strftime_ymd_hms(d).c_str()); }
  if (rt) {
    try { datetime<S> r = strptime_ymd_hms<S>(a.c_str()); c.tr();
      if (!(r == d) || val(r.mjd()) != k.mjd || val(r.sec()) != t) c.fail(i, "C14", "%s written \"%s\" reads back as %s", str(d).c_str(), mc::cstr(a).c_str(), str(r).c_str());
      r = strptime_ymd_hms<S>(b.c_str()); c.tr();
      if (val(r.mjd()) != k.mjd || val(r.sec()) != t - fr) c.fail(i, "C14", "%s written \"%s\" reads back as %s", str(d).c_str(), mc::cstr(b).c_str(), str(r).c_str());
    } catch (std::exception& e) { c.fail(i, "C14", "\"%s\" or \"%s\" cannot be read back: %s", mc::cstr(a).c_str(), mc::cstr(b).c_str(), e.what()); }
  }
  if (gen) {
    const std::string g = d.stringify(); c.tr(); const char* q = g.c_str(); i64 y, mo, da, hh, mi; bool ok = true; int neg = *q == '-' ? (++q, -1) : 1;
    ok = digits(q, 1, 10, y) && *q++ == '/' && digits(q, 1, 2, mo) && *q++ == '/' && digits(q, 1, 2, da) && *q++ == ' ' && digits(q, 1, 2, hh) && *q++ == ':' && digits(q, 1, 2, mi) && *q++ == ':' && secs(q, g.c_str() + g.size(), Tr<S>::dig, p);
    if (!ok || y * neg != k.y || mo != k.m || da != k.d || hh != h || mi != m || p != pico) c.fail(i, "C14", "stringify of %s: \"%s\"", str(d).c_str(), mc::cstr(g).c_str());
  }
  if ((t & 15) == 0) c.out(mc::hstr(a));
}
static const std::vector<i64>& roundtrip_days() { static auto v = [] { std::vector<i64> r; for (i64 d : day_alphabet()) { ref::Day k = ref::from_mjd(d); if (k.y >= 0 && k.y <= 9999) r.push_back(d); } return r; }(); return v; }
static const std::vector<i64>& FARY() { static auto v = [] { std::vector<i64> r; for (i64 y = -4799; y < 0; y += y < -1100 ? 10 : 1) r.push_back(y); r.insert(r.end(), far_years().begin(), far_years().end()); return r; }(); return v; }
template<class S> static void spaces() {
  auto& R = mc::R(); const std::string nm = Tr<S>::name();
  R.add("dates-" + nm, "every day of years 0..9999 (time of day rotating through the boundary times): three formats, read back", 10000, 20,
        [](u64 a, u64 b, Ctx& c) { const auto& T = tod_alphabet<S>(); for (u64 i = a; i < b; ++i) { c.at(i); u64 q = i * 7; for (ref::Day k = ref::jan1((i64)i); k.y == (i64)i; k.next()) { c.st(); one<S>(i, k, T[q++ % T.size()], '-', true, true, c); } } },
        [](u64 i) { return fmt("year %llu", i); });
  R.add("far-years-" + nm, "month ends of years before 0 and after 9999 to the limit of int (each tenth before -1100; 2^k, 10^k, 10000*1.03^k): three formats", FARY().size(), 8,
        [](u64 a, u64 b, Ctx& c) { const auto& T = tod_alphabet<S>(); for (u64 i = a; i < b; ++i) { c.at(i); const i64 y = FARY()[i]; u64 q = i; for (int m = 1; m <= 12; ++m) for (int d : {1, ref::mlen(y, m)}) for (char del : {'-', '/', '.'}) { c.st(); ref::Day k = ref::from_mjd(ref::to_mjd(y, m, d)); one<S>(i, k, T[q++ % T.size()], del, false, true, c); } c.out((u64)y); } },
        [](u64 i) { return fmt("year %lld", FARY()[i]); });
  R.add("alphabet-" + nm, "boundary days x boundary times of day x three formats, read back", roundtrip_days().size(), 4,
        [](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); ref::Day k = ref::from_mjd(roundtrip_days()[i]); for (i64 t : tod_alphabet<S>()) { c.st(); one<S>(i, k, t, '/', true, true, c); } } },
        [](u64 i) { return fmt("mjd %lld", roundtrip_days()[i]); });
  R.add("separators-" + nm, "every byte as date separator x boundary times (read back except digits and null)", 256, 4,
        [](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); ref::Day k = ref::from_mjd(57754), k2 = ref::from_mjd(ref::to_mjd(7, 3, 4)); for (i64 t : tod_alphabet<S>()) { c.st(); const bool rt = i && !(i >= '0' && i <= '9'); one<S>(i, k, t, (char)i, rt, false, c); one<S>(i, k2, t, (char)i, rt, false, c); } } },
        [](u64 i) { return fmt("byte %llu", i); });
  const i64 st = Tr<S>::tps == 1 ? 1 : Tr<S>::tps == 1000 ? (mc::g_thorough ? 1 : 61) : (mc::g_thorough ? 1009 : 100003);
  R.add("times-" + nm, fmt("every %s time of day x three formats, read back", st == 1 ? "single" : fmt("%lld.", st).c_str()), 8640, 20,
        [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); ref::Day k = ref::from_mjd(59000 + (i64)(i % 100)); const i64 lo = (i64)i * 10 * Tr<S>::tps, hi = lo + 10 * Tr<S>::tps; for (i64 t = (lo + st - 1) / st * st; t < hi; t += st) { c.st(); one<S>(i, k, t, '-', true, t % 3 == 0, c); } } },
        [](u64 i) { return fmt("ten seconds from %llu", i * 10); });
  if (Tr<S>::tps > 1) {
    const int ns = mc::g_thorough ? 60 : 3;
    R.add("fractions-" + nm, fmt("every fraction of %d different seconds of the minute x three formats, read back", ns), 1000ull * ns, 10,
          [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); ref::Day k = ref::from_mjd(51544); const i64 se = mc::g_thorough ? (i64)(i / 1000) : (i64[]){0, 59, 8}[i / 1000], step = Tr<S>::tps / 1000; const i64 lo = (86340 + se) * Tr<S>::tps + (i64)(i % 1000) * step; for (i64 t = lo; t < lo + step; ++t) { c.st(); one<S>(i, k, t, '-', true, true, c); } } },
          [](u64 i) { return fmt("millisecond %llu of second case %llu", i % 1000, i / 1000); });
  }
}
int main(int argc, char** argv) {
  mc::init("C14");
  spaces<seconds>(); spaces<milliseconds>(); spaces<microseconds>();
  return mc::R().main(argc, argv);
}
