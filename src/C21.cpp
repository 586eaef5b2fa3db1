// C21 every configuration of the library in one process, call by call.
#include "gg.hpp"
#include "C21.hpp"
#include <dlfcn.h>
using namespace gg;
struct Conf { std::string name; C21Fn f; };
static std::vector<Conf> K;
static u64 g_calls_per_case = 0;
static bool close_enough(double a, double b) { if (a == b || (a != a && b != b)) return true; const double s = std::max(std::fabs(a), std::fabs(b)); return std::fabs(a - b) <= s * 1e-14; }
static std::string show(const C21Rec& r, int k) { return k < r.ni ? fmt("%ld", r.i[k]) : std::string("nothing"); }
// the same call in every configuration
static void call(u64 i, int kind, const long* a, Ctx& c, const std::function<std::string()>& what) {
  C21Rec ref; c.st(); c.tr(K.size());
  for (size_t k = 0; k < K.size(); ++k) {
    memcpy(c.s->note, K[k].name.c_str(), K[k].name.size() + 1);
    C21Rec r; K[k].f(kind, a, &r);
    if (k == 0) { ref = r; continue; }
    int bad = -1; if (r.ni != ref.ni) { bad = std::min(r.ni, ref.ni); for (int j = 0; j < bad; ++j) if (r.i[j] != ref.i[j]) bad = j; } else if (memcmp(r.i, ref.i, sizeof(long) * r.ni)) { bad = 0; while (r.i[bad] == ref.i[bad]) ++bad; }
    if (bad >= 0) c.fail(i, "C21", "%s: value #%d is %s with %s but %s with %s", what().c_str(), bad, show(ref, bad).c_str(), K[0].name.c_str(), show(r, bad).c_str(), K[k].name.c_str());
    if (r.nd != ref.nd) c.fail(i, "C21", "%s: %d real values with %s but %d with %s", what().c_str(), ref.nd, K[0].name.c_str(), r.nd, K[k].name.c_str());
    for (int j = 0; j < r.nd; ++j) if (!close_enough(r.d[j], ref.d[j])) c.fail(i, "C21", "%s: real value #%d is %.17g with %s but %.17g with %s", what().c_str(), j, ref.d[j], K[0].name.c_str(), r.d[j], K[k].name.c_str());
  }
  c.s->note[0] = 0; u64 h = kind; for (int j = 0; j < ref.ni; ++j) h = mc::mix(h, (u64)ref.i[j]); c.out(h); c.beat();
}
static const char* SN[] = {"seconds", "milliseconds", "microseconds"};
static i64 TP(int s) { return s == 0 ? 1 : s == 1 ? 1000 : 1000000; }
static std::vector<i64> tods(int s) { return s == 0 ? tod_alphabet<ngpt::seconds>() : s == 1 ? tod_alphabet<ngpt::milliseconds>() : tod_alphabet<ngpt::microseconds>(); }
static std::vector<i64> amts(int s) { std::vector<i64> v = s == 0 ? amt_alphabet<ngpt::seconds>() : s == 1 ? amt_alphabet<ngpt::milliseconds>() : amt_alphabet<ngpt::microseconds>(); std::vector<i64> r; for (i64 x : v) if (x >= 0) r.push_back(x); return r; }
int main(int argc, char** argv) {
  mc::init("C21"); auto& R = mc::R(); const bool th = mc::g_thorough;
  // C21_LIBS: lines "name<TAB>path"; the configurations are loaded side by side
  { std::string l = getenv("C21_LIBS") ? getenv("C21_LIBS") : ""; size_t p = 0; while (p < l.size()) { size_t e = l.find('\n', p); if (e == std::string::npos) e = l.size(); std::string line = l.substr(p, e - p); p = e + 1; size_t t = line.find('\t'); if (t == std::string::npos) continue;
      void* h = dlopen(line.substr(t + 1).c_str(), RTLD_NOW | RTLD_LOCAL); C21Fn f = h ? (C21Fn)dlsym(h, "c21_run") : nullptr; if (!f) { fprintf(stderr, "cannot load %s: %s\n", line.c_str(), dlerror()); return 3; } K.push_back({line.substr(0, t).substr(0, 180), f}); } }
  if (K.size() < 2) { fprintf(stderr, "no configurations\n"); return 3; }
  for (size_t a = 0; a < K.size(); ++a) for (size_t b = 0; b < a; ++b) if (K[a].f == K[b].f) { fprintf(stderr, "two configurations share code\n"); return 3; }
  const std::string N = fmt(" in %zu configurations", K.size());
  const i64 Y0 = th ? 1200 : 1600, Y1 = th ? 2700 : 2400;
  R.add("days", fmt("every day of the years %lld..%lld", Y0, Y1) + N, (u64)(Y1 - Y0 + 1), 4, [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); for (i64 d = ref::to_mjd(Y0 + (i64)i, 1, 1); d < ref::to_mjd(Y0 + (i64)i + 1, 1, 1); ++d) { long v[] = {(long)d}; call(i, 0, v, c, [&] { return fmt("calendar paths of MJD %lld", d); }); } } }, [=](u64 i) { return fmt("year %lld", Y0 + (i64)i); });
  static std::vector<i64> days; { std::set<i64> s; const i64 lo = ref::to_mjd(1, 1, 1), hi = ref::to_mjd(9999, 12, 31); for (i64 d : day_alphabet()) if (d >= lo && d <= hi) s.insert(d); for (i64 y : {1968, 1972, 1980, 1999, 2000, 2015, 2016, 2100}) for (int m = 1; m <= 12; ++m) { i64 d = ref::to_mjd(y, m, 1); s.insert(d); s.insert(d - 1); s.insert(d + 14); } days.assign(s.begin(), s.end()); }
  static std::vector<i64> opdays; for (i64 d : days) if (d >= 0 && (d % (th ? 2 : 5) == 0 || d < 100 || d == 44244 || d == 51544 || d == 57753 || d == 57754)) opdays.push_back(d);
  for (int s = 0; s < 3; ++s) {
    static std::vector<i64> T[3], A[3]; T[s] = tods(s); A[s] = amts(s); const i64 D = 86400 * TP(s);
    R.add(std::string("moments-") + SN[s], fmt("%s (day, time of day) of %zu x %zu: constructors, views, texts and the texts read back", th ? "every" : "a third, rotating, of every", days.size(), T[s].size()) + N, days.size(), 1, [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); for (size_t k = th ? 0 : i % 3; k < T[s].size(); k += th ? 1 : 3) { long v[] = {(long)days[i], (long)T[s][k]}; call(i, 10 + s, v, c, [&] { return fmt("(MJD %lld, %lld %s)", days[i], T[s][k], SN[s]); }); } } }, [=](u64 i) { return fmt("MJD %lld", days[i]); });
    R.add(std::string("operations-") + SN[s], fmt("every (day, time, amount of any resolution, differences, comparisons) over %zu days, a rotating third or fifth of the times of day", opdays.size()) + N, opdays.size(), 1, [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); const i64 d = opdays[i];
        for (size_t k = i % (th ? 3 : 5); k < T[s].size(); k += th ? 3 : 5) { const i64 t = T[s][k];
          for (int s2 = 0; s2 < 3; ++s2) for (i64 x : A[s2]) { if (x > 86400LL * 40000 * TP(s2)) continue; long v[] = {(long)d, (long)t, (long)x}; call(i, 20 + 3 * s + s2, v, c, [&] { return fmt("(MJD %lld, %lld %s) and %lld %s", d, t, SN[s], x, SN[s2]); }); }
          for (i64 back : {0LL, 1LL, 2LL, 365LL, 36525LL}) for (int s2 = 0; s2 < 3; ++s2) { const auto& U = T[s2]; for (size_t j = 0; j < U.size(); ++j) { if ((j + k) % 3) continue; if (back > d) continue; if (back == 0 && (i128)U[j] * TP(s) > (i128)t * TP(s2)) continue; long v[] = {(long)d, (long)t, (long)(d - back), (long)U[j]};
              call(i, 30 + 3 * s + s2, v, c, [&] { return fmt("difference of (MJD %lld, %lld %s) and (MJD %lld, %lld %s)", d, t, SN[s], d - back, U[j], SN[s2]); }); if (s2 == s) call(i, 40 + s, v, c, [&] { return fmt("(MJD %lld, %lld) against (MJD %lld, %lld) %s", d, t, d - back, U[j], SN[s]); }); } } } } }, [=](u64 i) { return fmt("MJD %lld", opdays[i]); });
    static std::vector<i64> Q[3]; { std::set<i64> q(A[s].begin(), A[s].end()); for (i64 t : T[s]) { q.insert(t); q.insert(t + 3 * D); } for (int k = 0; k < 58; ++k) for (int e = -1; e <= 1; ++e) if ((1LL << k) + e > 0) q.insert((1LL << k) + e); const i64 st = th ? 1 : 7; for (i64 x = 0; x < 200000; x += st) q.insert(x); for (i64 x = D - 2000; x < D + 2000; x += st) q.insert(x); Q[s].assign(q.begin(), q.end()); }
    R.add(std::string("amounts-") + SN[s], fmt("%zu amounts through every member of the type", Q[s].size()) + N, (Q[s].size() + 199) / 200, 1, [=](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); for (size_t k = i * 200; k < Q[s].size() && k < (i + 1) * 200; ++k) { if (Q[s][k] / (D / 24) > 2000000000LL) continue; long v[] = {(long)Q[s][k], (long)(k % 25), (long)(k % 61)}; call(i, 50 + s, v, c, [&] { return fmt("%lld %s", Q[s][k], SN[s]); }); } } }, [=](u64 i) { return fmt("from %lld", Q[s][i * 200]); });
  }
  static const int CQ = th ? 60000 : 3000;
  R.add("calendar-quantities", fmt("1..%d through hours, minutes, years, months, weeks and days; defaults, limits and object sizes", CQ) + N, CQ / 100, 1, [](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); for (int k = 1; k <= 100; ++k) { long v[] = {(long)(i * 100 + k)}; call(i, 60, v, c, [&] { return fmt("quantities from %ld", v[0]); }); } } }, [](u64 i) { return fmt("from %llu", i * 100 + 1); });
  static std::vector<std::pair<int, std::string>> X; {
    const char* dates[][3] = {{"2015-12-30", "2015-364", "2015-Dec-30"}, {"1858 11 17", "1858x321", "1858/nov/17"}, {"2004/02/29", "2004/060", "2004 FEB 29"}, {"9999.12.31", "9999.365", "9999.dEc.31"}, {"0001-1-1", "0001-1", "0001-Jan-1"}, {"1900:2:28", "1900:59", "1900:Feb:28"}, {"+1972-07-01", "+1972-183", "+1972-Jul-01"}};
    const char* hh[] = {"0", "00", "23", "24", "007"}; const char* mm[] = {"0", "59", "60"}; const char* ss[] = {"0", "59.999999", "60", "30.5", "0.1", "12.345678", "1e3", "0x1p3", "nan", "inf", "1e300", "x", "", "7 trailing", "7-", "00.000001"};
    for (auto& d : dates) { for (int t = 0; t < 2; ++t) for (const char* tail : {"", " ", "T12:00", "-x"}) X.push_back({t, std::string(d[t]) + tail}); for (int r = 2; r < 5; ++r) for (const char* h : hh) for (const char* m : mm) for (const char* s : ss) for (const char* sep : {" ", "T"}) X.push_back({r, std::string(d[r == 2 ? 0 : r == 3 ? 2 : 1]) + sep + h + ":" + m + ":" + s}); }
    for (int r = 0; r < 5; ++r) for (const char* t : {"", "x", "2015", "2015-", "2015-12", "2015-1", "99999999999-1-1", "2015-Xyz-01 1:2:3", "2015-Ja", "- - -", "2015-99999999999"}) { if (r == 1 && t[0] == '2' && strlen(t) <= 7 && strchr(t, '-') && t[5] >= '0' && t[5] <= '9') {} X.push_back({r, t}); }
    for (const char* m : {"jan", "FEB", "March", "aPRIL", "may", "June", "jul", "AUGUST", "sept", "sep", "October", "nov", "december", "x", "", "janu", "m"}) X.push_back({5, m});
  }
  R.add("texts", fmt("%zu texts through the five readers (two resolutions) and the month constructor", X.size()) + N, (X.size() + 19) / 20, 1, [](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); for (size_t k = i * 20; k < X.size() && k < (i + 1) * 20; ++k) for (int base : {70, 80}) call(i, base + X[k].first, (const long*)X[k].second.c_str(), c, [&] { return fmt("reader %d on \"%s\"", X[k].first, X[k].second.c_str()); }); } }, [](u64 i) { return X[i * 20].second; });
  return R.main(argc, argv);
}
