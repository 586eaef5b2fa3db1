// C03 validity predicates and refusal of nonexistent calendar dates.
#include "gg.hpp"
#include <climits>
using namespace gg;

static std::vector<int> ext_ints() {
  std::set<int> s;
  for (int k = 5; k < 31; ++k) for (int e = -2; e <= 2; ++e) { s.insert((1 << k) + e); s.insert(-(1 << k) + e); }
  for (int e = 0; e < 4; ++e) { s.insert(INT_MAX - e); s.insert(INT_MIN + e); }
  for (int k : {256, 512, 65536, 1 << 24}) for (int e = -1; e <= 32; ++e) s.insert(k + e);
  return std::vector<int>(s.begin(), s.end());
}
static std::vector<int> months() { std::set<int> s; for (int m = -14; m <= 26; ++m) s.insert(m); for (int x : ext_ints()) s.insert(x); return std::vector<int>(s.begin(), s.end()); }
static std::vector<int> days() { std::set<int> s; for (int m = -33; m <= 64; ++m) s.insert(m); for (int x : ext_ints()) s.insert(x); return std::vector<int>(s.begin(), s.end()); }

// every way of turning y/m/d into a day or a date-time; returns a bit mask of
// those that produced a value, and in bad those whose value names another day
template<class F> static inline bool makes(F f, i64& got) { try { got = f(); return true; } catch (...) { return false; } }
#define NWAYS 19
static bool way(int w, int iy, int im, int id, i64& got) {
  year y{iy}; month m{im}; day_of_month d{id}; hours h{1}; minutes mi{2};
  switch (w) {
    case 0: return makes([&] { return val(cal2mjd(y, m, d)); }, got);
    case 1: return makes([&] { return val(modified_julian_day{y, m, d}); }, got);
#define W3(B, S) \
    case B + 0: return makes([&] { return val(datetime<S>{y, m, d}.mjd()); }, got); \
    case B + 1: return makes([&] { return val(datetime<S>{y, m, d, S{5}}.mjd()); }, got); \
    case B + 2: return makes([&] { return val(datetime<S>{y, m, d, h, mi, S{5}}.mjd()); }, got); \
    case B + 3: return makes([&] { return val(datetime<S>{y, m, d, h, mi, 5.5}.mjd()); }, got); \
    case B + 4: return makes([&] { return val(datetime<S>{y, m, d, microseconds{5}}.mjd()); }, got);
    W3(2, seconds) W3(7, milliseconds) W3(12, microseconds)
    case 17: return makes([&] { return val(datetime<seconds>{y, m, d, h, mi, microseconds{5}}.mjd()); }, got);
    case 18: return makes([&] { return val(datetime<milliseconds>{y, m, d, h, mi, microseconds{5}}.mjd()); }, got);
  }
  return false;
}
static void ymd_case(u64 idx, int y, int m, int d, int w0, int w1, Ctx& c) {
  bool ok = ref::valid(y, m, d);
  c.st(); c.tr(w1 - w0 + 2);
  bool p = day_of_month{d}.is_valid(year{y}, month{m}), q = ymd_date{year{y}, month{m}, day_of_month{d}}.is_valid();
  if (p != ok || q != ok) c.fail(idx, "C03", "%d-%d-%d: day_of_month::is_valid %d, ymd_date::is_valid %d, exists %d", y, m, d, p, q, ok);
  for (int w = w0; w < w1; ++w) {
    i64 got = 0; bool made = way(w, y, m, d, got);
    if (made != ok) c.fail(idx, "C03", "%d-%d-%d, way %d: %s, but the date %s", y, m, d, w, made ? fmt("made mjd %lld", got).c_str() : "raised", ok ? "exists" : "does not exist");
    if (ok && y >= -4799 && got != ref::to_mjd(y, m, d)) c.fail(idx, "C03", "%d-%d-%d, way %d: mjd %lld", y, m, d, w, got);
  }
  c.out(mc::mix(mc::mix(ok, (u64)m), (u64)d));
}
int main(int argc, char** argv) {
  mc::init("C03");
  auto& R = mc::R();
  // predicates over every int
  const u64 B = 1ull << 22, NB = (1ull << 32) / B;
  R.add("leap-every-int", "is_leap(int) and year::is_leap for every int", NB, 8,
        [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i);
          for (u64 k = 0; k < B; ++k) { int y = (int)(uint32_t)(i * B + k); bool e = ref::leap(y);
            if (is_leap(y) != e || year{y}.is_leap() != e) c.fail(i, "C03", "is_leap(%d) = %d, year::is_leap %d, expected %d", y, (int)is_leap(y), (int)year{y}.is_leap(), e); }
          c.st(B); c.tr(2 * B); c.out(i); } },
        [=](u64 i) { return fmt("ints %lld..%lld", (i64)(int)(uint32_t)(i * B), (i64)(int)(uint32_t)(i * B + B - 1)); });
  R.add("month-week-every-int", "month::is_valid and gps_week::is_valid for every int", NB, 8,
        [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i);
          for (u64 k = 0; k < B; ++k) { int y = (int)(uint32_t)(i * B + k); bool e = y >= 1 && y <= 12, g = y >= 0;
            if (month{y}.is_valid() != e) c.fail(i, "C03", "month(%d).is_valid() = %d", y, !e);
            if (gps_week{y}.is_valid() != g) c.fail(i, "C03", "gps_week(%d).is_valid() = %d", y, !g); }
          c.st(B); c.tr(2 * B); c.out(i); } },
        [=](u64 i) { return fmt("ints %lld..%lld", (i64)(int)(uint32_t)(i * B), (i64)(int)(uint32_t)(i * B + B - 1)); });
  R.add("week-long", "gps_week::is_valid at 2^k+e and its negative, k=0..62, |e|<=2", 63 * 5 * 2, 630,
        [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); long v = (1L << (i / 10)) + (long)(i % 5) - 2; if (i % 10 >= 5) v = -v;
          c.st(); c.tr(); c.out(v); if (gps_week{v}.is_valid() != (v >= 0)) c.fail(i, "C03", "gps_week(%ld).is_valid() wrong", v); } },
        [=](u64 i) { return fmt("case %llu", i); });
  // doy validity
  const int y0 = -4799, y1 = mc::g_thorough ? 100000 : 12000;
  R.add("doy", fmt("ydoy_date/day_of_year validity, doy -40..410 and extreme ints, every year %d..%d", y0, y1 - 1), y1 - y0, 500,
        [=](u64 a, u64 b, Ctx& c) { static const std::vector<int> ex = ext_ints();
          for (u64 i = a; i < b; ++i) { c.at(i); int y = y0 + (int)i, L = ref::ylen(y);
            auto one = [&](int n) { bool e = n >= 1 && n <= L; c.st(); c.tr(2);
              bool p = day_of_year{n}.is_valid(year{y}), q = ydoy_date{year{y}, day_of_year{n}}.is_valid();
              if (p != e || q != e) c.fail(i, "C03", "year %d doy %d: day_of_year::is_valid %d, ydoy_date::is_valid %d, exists %d", y, n, p, q, e); };
            for (int n = -40; n <= 410; ++n) one(n);
            for (int n : ex) one(n);
            c.out(mc::mix(L, y)); } },
        [=](u64 i) { return fmt("year %d", y0 + (int)i); });
  // y/m/d: complete box, every way of making a day or a date-time
  const int a0 = -4799, a1 = mc::g_thorough ? 10000 : 2600;
  R.add("ymd-box-core", fmt("is_valid, cal2mjd, modified_julian_day for month -1..14 x day -1..33, every year %d..%d", a0, a1 - 1), a1 - a0, 50,
        [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i);
          for (int m = -1; m <= 14; ++m) for (int d = -1; d <= 33; ++d) ymd_case(i, a0 + (int)i, m, d, 0, 2, c); } },
        [=](u64 i) { return fmt("year %d", a0 + (int)i); });
  static const std::vector<int> ys = [] { std::vector<int> v; for (int y = 1580; y < 2420; ++y) v.push_back(y); for (int y : {-4799, -4, -1, 0, 1, 4, 100, 400, 4000, 9999, 10000, 1000000}) v.push_back(y); return v; }();
  R.add("ymd-box-all-ways", "the same box through all 19 constructors and functions taking year/month/day, years 1580..2419 and 12 distant ones", ys.size(), 8,
        [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i);
          for (int m = -1; m <= 14; ++m) for (int d = -1; d <= 33; ++d) ymd_case(i, ys[i], m, d, 0, NWAYS, c); } },
        [=](u64 i) { return fmt("year %d", ys[i]); });
  static const std::vector<int> ey = [] { std::vector<int> v{1900, 2000, 2019, 2020}; for (int x : {INT_MAX, INT_MAX - 3, 1 << 30, 1 << 20}) v.push_back(x); return v; }();
  static const std::vector<int> em = months(), ed = days();
  R.add("ymd-extreme", "month and day from wide ranges and 2^k neighbourhoods of int, 8 years", ey.size() * em.size(), 20,
        [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i);
          int y = ey[i / em.size()], m = em[i % em.size()]; for (int d : ed) ymd_case(i, y, m, d, 0, 3, c); } },
        [=](u64 i) { return fmt("year %d month %d", ey[i / em.size()], em[i % em.size()]); });
  // text
  R.add("ymd-text", "the box through the readers: month 0..14 x day 0..33, every year 1890..2110", 221, 5,
        [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); int y = 1890 + (int)i;
          for (int m = 0; m <= 14; ++m) for (int d = 0; d <= 33; ++d) { c.st(); c.tr(2);
            bool e = ref::valid(y, m, d); std::string s = fmt("%d-%d-%d", y, m, d), t = s + " 1:2:3"; i64 g = 0;
            bool p = makes([&] { return val(strptime_ymd<seconds>(s.c_str()).mjd()); }, g), q = makes([&] { return val(strptime_ymd_hms<milliseconds>(t.c_str()).mjd()); }, g);
            if (p != e || q != e) c.fail(i, "C03", "'%s': strptime_ymd %s, strptime_ymd_hms %s, date exists %d", s.c_str(), p ? "returned" : "raised", q ? "returned" : "raised", e);
            c.out(mc::mix(mc::mix(e, m), d)); } } },
        [=](u64 i) { return fmt("year %d", 1890 + (int)i); });
  return R.main(argc, argv);
}
