// C17 results do not depend on earlier calls or on ambient process state.
// Every call sequence up to length 3 over the operations of C16_ops.cpp runs in
// a fresh process under every combination of error number, C++ global locale, C
// locale and time zone; each result must equal that of the call in a fresh default
// process, and the locales must be found as they were left.
#include "gg.hpp"
#include "C16.hpp"
#include "C17_obj.hpp"
#include <locale>
#include <clocale>
#include <cerrno>
#include <cfenv>
#include <sys/mman.h>
using namespace gg; using namespace ngpt;

extern "C" {
static void put(Res* r, const char* s) { int k = (int)strlen(s); if (r->n + k < (int)sizeof r->b) { memcpy(r->b + r->n, s, k + 1); r->n += k; } }
void mc_pure_num(Res* r, long v) { char b[32]; char* p = b + 31; *p = 0; unsigned long u = v < 0 ? 0ul - (unsigned long)v : (unsigned long)v; do { *--p = (char)('0' + u % 10); u /= 10; } while (u); if (v < 0) *--p = '-'; put(r, p); put(r, " "); }
void mc_pure_dbl(Res* r, double v) { long b; memcpy(&b, &v, 8); mc_pure_num(r, b); }
void mc_pure_str(Res* r, const char* s) { put(r, s); put(r, "|"); }
}
struct Comma : std::numpunct<char> { char do_decimal_point() const override { return ','; } char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\1\2"; } std::string do_truename() const override { return "wahr"; } };
static bool g_loc;
static const char* const CL[] = {"C", "de_DE.UTF-8", "tr_TR.ISO-8859-9", "C.utf8"};
static const int ERR[] = {0, ERANGE, EINVAL};
struct Amb { int e, cpp, cl, tz; };
static std::vector<Amb> ambs(int level) {  // 0: a few, 1: every combination, 2: a few more
  std::vector<Amb> v; const int ncl = g_loc ? 4 : 1, ncpp = g_loc ? 3 : 2;
  if (level == 0) { v.push_back({0, 0, 0, 0}); v.push_back({1, 1, 0, 1}); v.push_back({2, 1, 0, 0}); if (g_loc) { v.push_back({1, 0, 1, 0}); v.push_back({0, 2, 2, 1}); v.push_back({2, 1, 3, 0}); } return v; }
  if (level == 2) { v = ambs(0); if (g_loc) { v.push_back({0, 1, 2, 0}); v.push_back({1, 2, 3, 1}); } return v; }
  for (int e = 0; e < 3; ++e) for (int p = 0; p < ncpp; ++p) for (int c = 0; c < ncl; ++c) for (int z = 0; z < 2; ++z) v.push_back({e, p, c, z});
  return v;
}
static std::string show(const Amb& a) { return fmt("errno=%d, C++ global locale %s, C locale %s, TZ %s", ERR[a.e], a.cpp == 0 ? "classic" : a.cpp == 1 ? "classic with decimal comma and digit grouping" : "de_DE.UTF-8", CL[a.cl], a.tz ? "EST5EDT" : "unset"); }
static std::string g_setl; static std::locale* g_cpp;
static void enter(const Amb& a) {
  if (a.tz) setenv("TZ", "EST5EDT4,M3.2.0,M11.1.0", 1); else unsetenv("TZ"); tzset();
  if (a.cpp == 0) std::locale::global(std::locale::classic()); else if (a.cpp == 1) std::locale::global(std::locale(std::locale::classic(), new Comma)); else std::locale::global(std::locale("de_DE.UTF-8"));
  setlocale(LC_ALL, CL[a.cl]);
  g_setl = setlocale(LC_ALL, nullptr); delete g_cpp; g_cpp = new std::locale(); errno = ERR[a.e];
}
static std::string left(const Amb& a) {  // what was changed behind the caller's back
  std::string n = setlocale(LC_ALL, nullptr); if (n != g_setl) return "the C locale was changed to " + n;
  if (!(std::locale() == *g_cpp)) return "the C++ global locale was changed";
  if (fegetround() != FE_TONEAREST) return "the rounding mode was changed";
  const char* z = getenv("TZ"); if ((z != nullptr) != (a.tz != 0)) return "TZ was changed";
  return "";
}
static const Res& call(int k) { static Res r; r.n = 0; r.b[0] = 0; try { mc_ops[k / 2].f(k % 2, &r); } catch (...) { mc_pure_str(&r, "escaped exception"); } return r; }
static int NK; static std::vector<std::string> g_want; static char* g_box;
static std::string opn(int k) { return fmt("%s (variant %d)", mc_ops[k / 2].name, k % 2); }
// runs f in a fresh process; the text it writes to g_box, or how the process died
static std::string fresh(const std::function<void()>& f) {
  g_box[0] = 0; pid_t p = fork(); if (p == 0) { f(); _exit(0); } if (p < 0) return "fork failed";
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) { }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return g_box;
  return fmt("process ended by %s %d", WIFSIGNALED(st) ? "signal" : "status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
}
static void own() { static pid_t me = 0; if (me != getpid()) { me = getpid(); g_box = (char*)mmap(0, 8192, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); } }
// executes the sequence under a; empty if all is well
static std::string seq(const int* k, int n, const Amb& a) {
  for (int i = 0; i < n; ++i) { errno = ERR[a.e]; const Res& r = call(k[i]);
    if (g_want[k[i]] != r.b) return fmt("call %d, %s, gives \"%s\"; in a fresh default process it gives \"%s\"", i + 1, opn(k[i]).c_str(), r.b, g_want[k[i]].c_str());
    std::string l = left(a); if (!l.empty()) return fmt("after call %d, %s, %s", i + 1, opn(k[i]).c_str(), l.c_str()); }
  return "";
}
static void one_pair(u64 i, int x, int y, int depth, const Amb& a, Ctx& c) {  // all sequences (x,y,*), each in a process of its own; depth 4: then every call in turn
  own(); const int tail = NK;
  std::string m = fresh([&] { // one process runs x, y; a copy of it runs each tail
    enter(a); int k[4] = {x, y, 0, 0}; std::string e = seq(k, 2, a); if (!e.empty()) { snprintf(g_box, 8000, "%s", e.c_str()); _exit(0); }
    for (int t = 0; t < tail; ++t) { pid_t p = fork(); if (p < 0) { snprintf(g_box, 8000, "fork failed"); _exit(0); }
      if (p == 0) { std::vector<int> q{t}; if (depth == 4) for (int z = 0; z < NK; ++z) q.push_back(z); std::string f = seq(q.data(), (int)q.size(), a); if (!f.empty()) { snprintf(g_box, 8000, "sequence %s; %s; %s%s: %s", opn(x).c_str(), opn(y).c_str(), opn(t).c_str(), depth == 4 ? "; all calls in turn" : "", f.c_str()); _exit(3); } _exit(0); }
      int st; waitpid(p, &st, 0); if (!WIFEXITED(st)) { snprintf(g_box, 8000, "sequence %s; %s; tail %d: died by signal %d", opn(x).c_str(), opn(y).c_str(), t, WTERMSIG(st)); _exit(0); } if (WEXITSTATUS(st)) _exit(0);
      if ((t & 63) == 0) c.beat(); }
  });
  c.st(tail); c.tr((u64)tail * (depth == 3 ? 3 : 3 + NK)); c.trace(tail); c.out(i);
  if (!m.empty()) c.fail(i, "C17", "%s: first calls %s; %s: %s", show(a).c_str(), opn(x).c_str(), opn(y).c_str(), m.c_str());
}
// long lists of texts and objects: a result text per case
static const char* const SHORTN[] = {"jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"};
static const char* const LONGN[] = {"january", "february", "march", "april", "may", "june", "july", "august", "september", "october", "november", "december"};
template<class F> static u64 guard(F f) { try { return f(); } catch (std::invalid_argument& e) { return mc::mix(1, mc::hstr(e.what())); } catch (std::out_of_range& e) { return mc::mix(2, mc::hstr(e.what())); } catch (...) { return 3; } }
static u64 mon(const char* s) { return guard([&] { return (u64)val(month{s}); }); }
template<class S> static u64 rd(int k, const char* s) { return guard([&] { char* e = nullptr; datetime<S> d = k == 0 ? strptime_ymd<S>(s, &e) : k == 1 ? strptime_ydoy<S>(s, &e) : k == 2 ? strptime_ymd_hms<S>(s, &e) : k == 3 ? strptime_yod_hms<S>(s, &e) : strptime_ydoy_hms<S>(s, &e); return mc::mix(mc::mix((u64)val(d.mjd()), (u64)val(d.sec())), (u64)(e - s)); }); }
static u64 rd(int k, const char* s) { return mc::mix(rd<seconds>(k, s), rd<microseconds>(k, s)); }
struct Item { std::string what; std::function<u64()> f; };
// the groups of items; makes only group `want` (-1: none) and counts them
static u64 make_items(i64 want, std::vector<Item>& res) {
  u64 g = 0; struct V { bool on; std::vector<Item>* r; void push_back(Item&& x) { if (on) r->push_back(std::move(x)); } } v{want == 0, &res}; auto flush = [&] { ++g; v.on = want == (i64)g; };
  for (int m = 0; m < 12; ++m) { for (const char* n : {SHORTN[m], LONGN[m]}) { std::string b = n; for (u64 k = 0; k < (1ull << b.size()); ++k) { std::string s = b; for (size_t j = 0; j < s.size(); ++j) if (k >> j & 1) s[j] -= 32; v.push_back({"month \"" + s + "\"", [s] { return mon(s.c_str()); }}); } } flush(); }
  for (int m = 0; m < 12; ++m) { for (const char* n : {SHORTN[m], LONGN[m]}) for (size_t p = 0; p <= strlen(n); ++p) for (int x = 1; x < 256; ++x) { std::string s = n; if (p < s.size()) s[p] = (char)x; else s += (char)x; v.push_back({"month \"" + s + "\"", [s] { return mon(s.c_str()); }}); } flush(); }
  // every byte as separator at each position, every pair of bytes before and after the month
  static const char* const TX[] = {"2015-12-30", "2015-364", "2015-12-30 12:09:30.25", "2015-Dec-30 12:09:30.25", "2015-364 12:09:30.25"};
  for (int k = 0; k < 5; ++k) { const std::string b = TX[k]; for (size_t p = 0; p <= b.size(); ++p) { for (int x = 1; x < 256; ++x) for (int ins = 0; ins < 2; ++ins) { std::string s = b; if (ins || p == s.size()) s.insert(p, 1, (char)x); else s[p] = (char)x; v.push_back({fmt("reader %d \"", k) + s + "\"", [k, s] { return rd(k, s.c_str()); }}); } flush(); } }
  for (int x = 1; x < 256; ++x) { for (int y = 1; y < 256; ++y) { std::string s = std::string("2015") + (char)x + (char)y + "Apr-30 12:09:30.5", t = std::string("2015-Apr") + (char)x + (char)y + "30 12:09:30.5", u = std::string("2015-Apr-30 12:09:30") + (char)x + (char)y + "5"; for (auto& q : {s, t, u}) v.push_back({"reader 3 \"" + q + "\"", [q] { return rd(3, q.c_str()); }}); std::string w = std::string("2015-12-30 12:09:30") + (char)x + (char)y + "5"; v.push_back({"reader 2 \"" + w + "\"", [w] { return rd(2, w.c_str()); }}); } flush(); }
  for (int sep = 0; sep < 3; ++sep) { for (int fr = 0; fr < 1000; ++fr) { std::string s = std::string("2015-12-30 12:09:30") + ".,'"[sep] + fmt("%03d", fr); v.push_back({"reader 2 \"" + s + "\"", [s] { return rd(2, s.c_str()); }}); } for (const char* q : {"1e1", "0x1p3", "1,5", "1.5e0", "inf", "nan", "1.234,5", "1,234.5", "59,999999", "5e-1", "+1.5", "-1.5"}) { std::string s = std::string("2015-12-30 12:09:") + q; v.push_back({"reader 2 \"" + s + "\"", [s] { return rd(2, s.c_str()); }}); } flush(); }
  for (i64 d : day_alphabet()) { auto w = [&](auto z, i64 t) { typedef decltype(z) S; auto x = mk<S>(d, t); v.push_back({"write " + str(x), [x] { return mc::mix(mc::mix(mc::hstr(strftime_ymd_hmfs(x)), mc::hstr(strftime_ymd_hms(x, '.'))), mc::hstr(x.stringify())); }}); };
    for (i64 t : tod_alphabet<seconds>()) w(seconds{0}, t); for (i64 t : tod_alphabet<milliseconds>()) w(milliseconds{0}, t); for (i64 t : tod_alphabet<microseconds>()) w(microseconds{0}, t); flush(); }
  return g;
}
// const members and const references leave their object alone
template<class S> static void keeps(u64 i, i64 d, i64 t, Ctx& c) {
  const datetime<S> x = mk<S>(d, t), y = mk<S>(d - 3, t / 2); const datetime<seconds> z = mk<seconds>(d, 5); const S q{t}; const S q0 = q; const modified_julian_day m{d}; const modified_julian_day m0 = m;
  const ymd_date a = m.to_ymd(); const ydoy_date b = m.to_ydoy(); const datetime_interval<S> iv{modified_julian_day{7}, S{t}}; const i64 ivd = val(iv.days()), ivs = val(iv.sec());
  u64 h = mc::hstr(strftime_ymd_hmfs(x)); h += mc::hstr(strftime_ymd_hms(x)) + mc::hstr(x.stringify());
  x.as_ymd(); x.as_ydoy(); x.as_hmsf(); x.as_mjd(); x.sec_as_i(); x.delta_sec(y); x.delta_date(y); delta_sec(x, y); delta_sec(x, z); x.template cast_to<seconds>(); long s; x.as_gps_wsow(s); S g; x.as_gps_wsow(g);
  (void)(x == y); (void)(x < y); (void)(x > y); (void)(x <= y); (void)(x >= y); (void)(x != y); q.to_hmsf(); q.fractional_days(); (void)(iv / 3); iv.as_mjd(); x.add(modified_julian_day{1}, S{1}); m.to_julian_day(); a.to_ydoy(); b.to_ymd(); if (d >= 41317) { dat(m); dat(x); }
  if (val(x.mjd()) != d || val(x.sec()) != t || val(y.mjd()) != d - 3 || val(y.sec()) != t / 2 || val(z.mjd()) != d || val(z.sec()) != 5 || !(q == q0) || !(m == m0) || val(iv.days()) != ivd || val(iv.sec()) != ivs) c.fail(i, "C17", "an operation changed its const argument at %s", str(mk<S>(d, t)).c_str());
  c.st(); c.tr(30); c.out(h);
}
static void civ(i64 mjd, i64& y, int& m, int& d) { ref::Day k = ref::from_mjd(mjd); y = k.y; m = k.m; d = k.d; }
// ---- histories over wide argument alphabets: every ordered pair of calls ----
struct Call { std::string what; std::function<u64()> f; };
struct Group { std::string name; std::vector<Call> v; size_t off = 0; };
static std::vector<Group> g_groups; static u64* g_w;  // results in fresh processes
static char g_buf[256];  // texts are always passed at the same address
static const char* at_buf(const std::string& s) { strcpy(g_buf, s.c_str()); return g_buf; }
static std::vector<i64> hist_days(int level) {
  std::set<i64> s; const i64 B[] = {57386, 44244};
  for (i64 b : B) { s.insert(b); for (int k = 0; k <= 20; ++k) for (int j : {1, 3}) { s.insert(b + ((i64)j << k)); s.insert(b - ((i64)j << k)); }
    for (i64 m : {7, 30, 31, 100, 365, 366, 730, 1000, 1461, 3652, 10000, 36524, 36525, 100000, 146097, 1000000}) { s.insert(b + m); s.insert(b - m); }
    for (int k = 0; k < (level ? 400 : 60); ++k) s.insert(b + k);
    for (int y = 1; y < (level ? 300 : 30); ++y) { s.insert(ref::to_mjd(ref::from_mjd(b).y + y, 2, 28 - y % 3)); s.insert(ref::to_mjd(ref::from_mjd(b).y - y, 12, 30)); } }
  std::vector<i64> v; for (i64 d : s) if (d >= -2400000 && d < 3000000) v.push_back(d); return v;
}
template<class S> static std::vector<i64> hist_ticks(int level) {
  const i64 day = S::max_in_day, b = day / 86400 * 43770 + day / 86400 / 3; std::set<i64> s{0, day - 1, day / 2, b};
  for (i64 k = 1; k < day; k *= 2) for (i64 j : {1, 3}) for (i64 o : {b, i64(0)}) { i64 q = o + j * k; if (q < day) s.insert(q); q = o - j * k; if (q >= 0) s.insert(q); }
  for (i64 u = day / 86400; u < day; u *= 60) for (int k = 1; k < (level ? 60 : 12); ++k) { i64 q = b + k * u; if (q < day) s.insert(q); q = b - k * u; if (q >= 0) s.insert(q); }
  return std::vector<i64>(s.begin(), s.end());
}
template<class S> static u64 hd(const datetime<S>& d) { return mc::mix((u64)val(d.mjd()), (u64)val(d.sec())); }
static void add_group(const std::string& n, std::vector<Call> v) { Group g; g.name = n; g.v = std::move(v); g_groups.push_back(std::move(g)); }
template<class S> static void hist_res(const std::vector<i64>& D, int level) {
  const std::string R = sizeof(S) ? std::is_same<S, seconds>::value ? "s" : std::is_same<S, milliseconds>::value ? "ms" : "us" : "";
  std::vector<i64> T = hist_ticks<S>(level); struct DT { i64 d, t; }; std::vector<DT> X;
  for (size_t i = 0; i < D.size(); ++i) X.push_back({D[i], T[i * 7 % T.size()]});
  for (i64 t : T) X.push_back({57386, t}); for (i64 t : T) if (t % 3 == 0) X.push_back({44244, t}); for (i64 d : D) if (d % 3 == 0) X.push_back({d, 0});
  auto all = [&](const char* n, std::function<u64(DT)> f, bool gps = false, bool atai = false, bool y4 = false) { std::vector<Call> v; for (auto& x : X) { if (gps && x.d < 44244) continue; if (atai && x.d < 41317) continue; if (y4 && (x.d < -678941 || x.d > 2973483)) continue; DT q = x; v.push_back({fmt("%s<%s> at %s", n, R.c_str(), str(mk<S>(q.d, q.t)).c_str()), [f, q] { return f(q); }}); } add_group(fmt("%s<%s>", n, R.c_str()), v); };
  const i64 per = S::max_in_day / 86400;
  auto text = [per](DT x, int k) { i64 y; int m, dd; civ(x.d, y, m, dd); i64 s = x.t / per; int fd = per == 1 ? 0 : per == 1000 ? 3 : 6; std::string tod = fmt("%02lld:%02lld:%02lld", s / 3600, s / 60 % 60, s % 60); if (fd) tod += fmt(".%0*lld", fd, x.t % per); int doy = (int)(x.d - ref::to_mjd(y, 1, 1)) + 1;
    switch (k) { case 0: return fmt("%04lld-%02d-%02d", y, m, dd); case 1: return fmt("%04lld-%03d", y, doy); case 2: return fmt("%04lld-%02d-%02d ", y, m, dd) + tod; case 3: return fmt("%04lld-%s-%02d ", y, SHORTN[m - 1], dd) + tod; default: return fmt("%04lld-%03d ", y, doy) + tod; } };
  for (int k = 0; k < 5; ++k) all(fmt("reader %d", k).c_str(), [text, k](DT x) { std::string s = text(x, k); const char* b = at_buf(s); return guard([&] { char* e = nullptr; datetime<S> n = k == 0 ? strptime_ymd<S>(b) : k == 1 ? strptime_ydoy<S>(b) : k == 2 ? strptime_ymd_hms<S>(b) : k == 3 ? strptime_yod_hms<S>(b) : strptime_ydoy_hms<S>(b); datetime<S> d = k == 0 ? strptime_ymd<S>(b, &e) : k == 1 ? strptime_ydoy<S>(b, &e) : k == 2 ? strptime_ymd_hms<S>(b, &e) : k == 3 ? strptime_yod_hms<S>(b, &e) : strptime_ydoy_hms<S>(b, &e); return mc::mix(mc::mix(hd(d), hd(n)), (u64)(e - b)); }); }, false, false, true);
  all("strftime_ymd_hmfs", [](DT x) { return mc::hstr(strftime_ymd_hmfs(mk<S>(x.d, x.t))); });
  all("strftime_ymd_hms", [](DT x) { return mc::hstr(strftime_ymd_hms(mk<S>(x.d, x.t))); });
  all("stringify", [](DT x) { return mc::hstr(mk<S>(x.d, x.t).stringify()); });
  all("as_ymd, as_ydoy", [](DT x) { auto d = mk<S>(x.d, x.t); auto a = d.as_ymd(); auto b = d.as_ydoy(); return mc::mix(mc::mix(mc::mix((u64)val(a.__year), (u64)val(a.__month)), (u64)val(a.__dom)), mc::mix((u64)val(b.__year), (u64)val(b.__doy))); });
  all("as_hmsf", [](DT x) { auto q = mk<S>(x.d, x.t).as_hmsf(); return mc::mix(mc::mix((u64)val(std::get<0>(q)), (u64)val(std::get<1>(q))), mc::mix((u64)val(std::get<2>(q)), (u64)std::get<3>(q))); });
  all("as_mjd", [](DT x) { double v = mk<S>(x.d, x.t).as_mjd(); u64 b; memcpy(&b, &v, 8); return b; });
  all("as_gps_wsow", [](DT x) { long s; S t; auto d = mk<S>(x.d, x.t); gps_week w = d.as_gps_wsow(s), z = d.as_gps_wsow(t); return mc::mix(mc::mix((u64)val(w), (u64)s), mc::mix((u64)val(z), (u64)val(t))); }, true);
  all("from gps week", [](DT x) { return hd(datetime<S>{gps_week{(int)((x.d - 44244) / 7)}, S{(x.d - 44244) % 7 * S::max_in_day + x.t}}); }, true);
  all("dat(datetime)", [](DT x) { return (u64)dat(mk<S>(x.d, x.t)); }, false, true);
  all("from ymd", [per](DT x) { i64 y; int m, dd; civ(x.d, y, m, dd); i64 s = x.t / per; return guard([&] { return mc::mix(hd(datetime<S>{year{(int)y}, month{m}, day_of_month{dd}, hours{(int)(s / 3600)}, minutes{(int)(s / 60 % 60)}, S{x.t % (60 * per)}}), hd(datetime<S>{year{(int)y}, month{m}, day_of_month{dd}, hours{(int)(s / 3600)}, minutes{(int)(s / 60 % 60)}, (double)(x.t % (60 * per)) / (double)per})); }); });
  all("from ydoy", [](DT x) { i64 y; int m, dd; civ(x.d, y, m, dd); return guard([&] { return hd(datetime<S>{year{(int)y}, day_of_year{(int)(x.d - ref::to_mjd(y, 1, 1)) + 1}, S{x.t}}); }); });
  all("add_seconds", [](DT x) { auto d = mk<S>(57000, 5); d.add_seconds(S{(x.d - 57386) * S::max_in_day + x.t}); return hd(d); });
  all("remove_seconds", [](DT x) { auto d = mk<S>(x.d, x.t); d.remove_seconds(S{x.t / 2 + 1}); return hd(d); });
  all("interval arithmetic", [](DT x) { auto d = mk<S>(x.d, x.t); d += datetime_interval<S>{modified_julian_day{x.d & 1023}, S{x.t}}; datetime_interval<S> v{modified_julian_day{x.d & 0xfffff}, S{x.t}}; auto q = v / 7; return mc::mix(hd(d), mc::mix((u64)val(q.days()), (u64)val(q.sec()))); });
  all("differences", [](DT x) { auto d = mk<S>(x.d, x.t), e = mk<S>(51544, 12345); auto q = d.delta_date(e); return mc::mix(mc::mix((u64)val(d.delta_sec(e)), (u64)val(delta_sec(mk<seconds>(51544, 777), d))), mc::mix((u64)val(q.days()), (u64)val(q.sec()))); });
  all("comparisons", [](DT x) { auto d = mk<S>(x.d, x.t), e = mk<S>(57386, 86399); return (u64)(d < e) | (d <= e) << 1 | (d > e) << 2 | (d >= e) << 3 | (d == e) << 4 | (d != e) << 5; });
  all("conversions", [](DT x) { auto d = mk<S>(x.d, x.t); S t{x.t}; return mc::mix(mc::mix(hd(d.template cast_to<seconds>()), hd(d.template cast_to<microseconds>())), mc::mix((u64)val(ngpt::cast_to<S, milliseconds>(t)), (u64)val(static_cast<seconds>(t)))); });
  all("splits", [](DT x) { S t{x.t + (x.d & 15) * S::max_in_day}; auto q = t.to_hmsf(); u64 h = mc::mix((u64)val(std::get<0>(q)), (u64)std::get<3>(q)); double f = t.fractional_days(); u64 b; memcpy(&b, &f, 8); h = mc::mix(h, b); h = mc::mix(h, (u64)t.to_days()); h = mc::mix(h, (u64)t.remove_days()); return mc::mix(h, (u64)val(t)); });
}
// calls that differ in one of several arguments
template<class S> static u64 rdr(int k, const char* b) { return guard([&] { return hd(k == 0 ? strptime_ymd<S>(b) : k == 1 ? strptime_ydoy<S>(b) : k == 2 ? strptime_ymd_hms<S>(b) : k == 3 ? strptime_yod_hms<S>(b) : strptime_ydoy_hms<S>(b)); }); }
template<class S> static void hist_args() {
  const std::string N = Tr<S>::name(); const i64 D = S::max_in_day, u = Tr<S>::tps; std::vector<Call> v;
  struct DT { i64 d, t; }; const std::vector<DT> X = {{57386, 43770 * u}, {57386, 43770 * u + u / 2}, {57386, 0}, {57387, 43770 * u}, {57387, 0}, {57386, D - 1}, {57751, 43770 * u}, {51603, 43770 * u}};
  for (auto x : X) { for (char e : {'-', '/', '.', ' ', '0', '%', '\1', '\xff'}) { v.push_back({fmt("strftime_ymd_hms of %s, separator 0x%02x", str(mk<S>(x.d, x.t)).c_str(), e & 255), [x, e] { return mc::hstr(strftime_ymd_hms(mk<S>(x.d, x.t), e)); }}); v.push_back({fmt("strftime_ymd_hmfs of %s, separator 0x%02x", str(mk<S>(x.d, x.t)).c_str(), e & 255), [x, e] { return mc::hstr(strftime_ymd_hmfs(mk<S>(x.d, x.t), e)); }}); } v.push_back({"stringify of " + str(mk<S>(x.d, x.t)), [x] { return mc::hstr(mk<S>(x.d, x.t).stringify()); }}); }
  add_group("writers and separators, " + N, v); v.clear();
  for (auto x : X) for (auto y : X) { const std::string w = str(mk<S>(x.d, x.t)) + " and " + str(mk<S>(y.d, y.t));
    v.push_back({"differences of " + w, [x, y] { auto a = mk<S>(x.d, x.t), b = mk<S>(y.d, y.t); auto q = a.delta_date(b); return mc::mix(mc::mix((u64)val(a.delta_sec(b)), (u64)val(delta_sec(a, b))), mc::mix((u64)val(q.days()), (u64)val(q.sec()))); }});
    v.push_back({"mixed differences of " + w, [x, y] { auto a = mk<S>(x.d, x.t); auto b = mk<seconds>(y.d, y.t / Tr<S>::tps); auto e = mk<microseconds>(y.d, y.t); return mc::mix(mc::mix((u64)val(delta_sec(a, b)), (u64)val(delta_sec(b, a))), mc::mix((u64)val(delta_sec(a, e)), (u64)val(delta_sec(e, a)))); }});
    v.push_back({"order of " + w, [x, y] { auto a = mk<S>(x.d, x.t), b = mk<S>(y.d, y.t); return (u64)(a < b) | (u64)(a <= b) << 1 | (u64)(a > b) << 2 | (u64)(a >= b) << 3 | (u64)(a == b) << 4 | (u64)(a != b) << 5; }}); }
  add_group("pairs of date-times, " + N, v); v.clear();
  for (auto x : X) for (i64 t : {i64(1), u, D - 1, D, 2 * D + 1, 400 * D}) { const std::string w = fmt("%s, %lld", str(mk<S>(x.d, x.t)).c_str(), t);
    v.push_back({"amounts: " + w, [x, t] { auto a = mk<S>(x.d, x.t), b = a, e = a, f = a, g = a, h = a; a.add_seconds(S{t}); b.remove_seconds(S{t}); e += datetime_interval<S>{modified_julian_day{(long)(t % 1000)}, S{t}}; f.template add_seconds<seconds>(seconds{t}); g.template remove_seconds<microseconds>(microseconds{t}); h = h.add(modified_julian_day{(long)(t % 1000)}, S{t}); return mc::mix(mc::mix(mc::mix(hd(a), hd(b)), mc::mix(hd(e), hd(f))), mc::mix(hd(g), hd(h))); }}); }
  for (i64 d : {0ll, 1ll, 2ll, 7ll, 365ll}) for (i64 t : {i64(0), i64(1), D / 2, D - 1}) for (int k : {1, 2, 3, 7, 1000, 86400}) v.push_back({fmt("interval (%lld days, %lld) / %d", d, t, k), [=] { const datetime_interval<S> a{modified_julian_day{(long)d}, S{t}}; auto q = a / k; double f = a.as_mjd(); u64 b; memcpy(&b, &f, 8); return mc::mix(mc::mix((u64)val(q.days()), (u64)val(q.sec())), b); }});
  add_group("amounts and intervals, " + N, v); v.clear();
  for (int m : {2, 3}) for (int d : {1, 28}) for (int h : {0, 23, 25, -1}) for (int mi : {0, 59, 60}) for (double f : {0.0, 59.5, 60.25}) v.push_back({fmt("constructors at month %d day %d %d:%d:%g", m, d, h, mi, f), [=] { return guard([&] { const S s{(long)(f * (double)Tr<S>::tps)}; return mc::mix(mc::mix(hd(datetime<S>{year{2016}, month{m}, day_of_month{d}, hours{h}, minutes{mi}, f}), hd(datetime<S>{year{2016}, month{m}, day_of_month{d}, hours{h}, minutes{mi}, s})), mc::mix(hd(datetime<S>{year{2016}, day_of_year{m * d}, hours{h}, minutes{mi}, s}), hd(datetime<S>{modified_julian_day{57000L + m * d}, hours{h}, minutes{mi}, s}))); }); }});
  add_group("constructors, " + N, v);
}
static void hist_all(int level) {
  std::vector<i64> D = hist_days(level);
  hist_res<seconds>(D, level); hist_res<milliseconds>(D, level); hist_res<microseconds>(D, level);
  auto all = [&](const char* n, std::function<u64(i64)> f, i64 from = -2400000) { std::vector<Call> v; for (i64 d : D) if (d >= from) v.push_back({fmt("%s for day %lld", n, d), [f, d] { return f(d); }}); add_group(n, v); };
  auto ymd = [](const ymd_date& a) { return mc::mix(mc::mix((u64)val(a.__year), (u64)val(a.__month)), (u64)val(a.__dom)); };
  all("to_ymd", [ymd](i64 d) { return ymd(modified_julian_day{d}.to_ymd()); });
  all("to_ydoy", [](i64 d) { auto b = modified_julian_day{d}.to_ydoy(); return mc::mix((u64)val(b.__year), (u64)val(b.__doy)); });
  all("cal2mjd", [](i64 d) { i64 y; int m, dd; civ(d, y, m, dd); return guard([&] { return (u64)val(cal2mjd(year{(int)y}, month{m}, day_of_month{dd})); }); });
  all("cal2mjd of a date that may not exist", [](i64 d) { i64 y; int m, dd; civ(d, y, m, dd); return guard([&] { return (u64)val(cal2mjd(year{(int)y}, month{m}, day_of_month{dd % 5 + 27})); }); });
  all("ydoy2mjd", [](i64 d) { i64 y; int m, dd; civ(d, y, m, dd); return (u64)val(ydoy2mjd(year{(int)y}, day_of_year{(int)(d - ref::to_mjd(y, 1, 1)) + 1})); });
  all("ymd to ydoy", [](i64 d) { i64 y; int m, dd; civ(d, y, m, dd); return (u64)val(ymd_date{year{(int)y}, month{m}, day_of_month{dd}}.to_ydoy().__doy); });
  all("ydoy to ymd", [ymd](i64 d) { i64 y; int m, dd; civ(d, y, m, dd); ydoy_date q; q.__year = year{(int)y}; q.__doy = day_of_year{(int)(d - ref::to_mjd(y, 1, 1)) + 1}; return ymd(q.to_ymd()); });
  all("validity", [](i64 d) { i64 y; int m, dd; civ(d, y, m, dd); int e = dd % 5 + 27; return (u64)year{(int)y}.is_leap() | (u64)day_of_month{e}.is_valid(year{(int)y}, month{m}) << 1 | (u64)ymd_date{year{(int)y}, month{m}, day_of_month{e}}.is_valid() << 2 | (u64)day_of_year{366}.is_valid(year{(int)y}) << 3; });
  all("dat(mjd)", [](i64 d) { return (u64)dat(modified_julian_day{d}); }, 41317);
  all("dat(year, month)", [](i64 d) { i64 y; int m, dd; civ(d, y, m, dd); return (u64)dat(year{(int)y}, month{m}); }, 41317);
  all("to_julian_day", [](i64 d) { double v = modified_julian_day{d}.to_julian_day(); u64 b; memcpy(&b, &v, 8); return b; });
  { std::vector<Call> v; for (int m = 0; m < 12; ++m) { for (const char* n : {SHORTN[m], LONGN[m]}) { std::string b = n; for (int k = 0; k < 5; ++k) { std::string s = b; if (k == 1) s[0] -= 32; if (k == 2) for (auto& c : s) c -= 32; if (k == 3) s += "x"; if (k == 4) s[s.size() - 1] = 'q'; v.push_back({"month \"" + s + "\"", [s] { return mon(at_buf(s)); }}); } } int q = m + 1; v.push_back({fmt("names of month %d", q), [q] { return mc::mix(mc::hstr(month{q}.short_name()), mc::hstr(month{q}.long_name())); }}); } add_group("month names", v); }
  { std::vector<Call> v; static const char* const BAD[] = {"", "x", "2015", "2015-12", "2015-12-", "2015-12-30", "2015-12-30 12", "2015-12-30 12:09:", "2015-12-30 12:09:30", "2015-12-30 12:09:30.25", "2015-12-30 12:09:31.25", "2016-12-30 12:09:30.25", "2015-02-29", "2015-13-01", "99999999999-1-1", "2015-12-30 12:09:nan", "2015-12-30 12:09:1e300", "2015-Dec-30 12:09:30.25", "2015-dec-30 12:09:30.25", "2015-Dex-30 12:09:30.25", "2015-364", "2015-366", "2015-364 12:09:30.25", "2015-364 12:09", "2015-1-1", "2015-01-01", " 2015-1-1", "+2015-1-1", "15-1-1", "0-1-1"};
    for (int k = 0; k < 5; ++k) for (const char* b : BAD) { std::string s = b; v.push_back({fmt("reader %d \"", k) + s + "\"", [k, s] { return rd(k, at_buf(s)); }}); } add_group("all readers, well and badly formed", v); }
  { std::vector<Call> v; for (int k = 0; k < 5; ++k) for (const char* b : {"2015-12-30 12:09:30.25", "2015-12-30 12:09:31.25", "2015-12-31 12:09:30.25", "2016-364 12:09:30.25", "2015-364 12:09:30.25", "2015-Dec-30 12:09:30", "2015-Nov-30 12:09:30", "2015-364", "2015-363", "x"}) for (int e = 0; e < 2; ++e) { std::string s = b; v.push_back({fmt("reader %d, %s, \"", k, e ? "end wanted" : "no end wanted") + s + "\"", [k, s, e] { const char* b = at_buf(s); return e ? rd(k, b) : guard([&] { datetime<milliseconds> d = k == 0 ? strptime_ymd<milliseconds>(b) : k == 1 ? strptime_ydoy<milliseconds>(b) : k == 2 ? strptime_ymd_hms<milliseconds>(b) : k == 3 ? strptime_yod_hms<milliseconds>(b) : strptime_ydoy_hms<milliseconds>(b); return hd(d); }); }}); } add_group("all readers, with and without an end pointer", v); }
  hist_args<seconds>(); hist_args<milliseconds>(); hist_args<microseconds>();
  { std::vector<Call> v; for (const char* b : {"2015-12-30 12:09:30.25", "2015-12-30 12:09:30.250001", "2015-12-30 12:09:30", "2015-364 12:09:30.25", "2015-Dec-30 12:09:30.25", "2015-dec-30 12:09:30.999999", "2015/12/30 12.09.30.25", "02015-012-030 012:09:030.25", "2015-12-30"}) for (int k = 0; k < 5; ++k) { std::string s = b; v.push_back({fmt("reader %d<seconds> \"", k) + s + "\"", [k, s] { return rdr<seconds>(k, at_buf(s)); }}); v.push_back({fmt("reader %d<milliseconds> \"", k) + s + "\"", [k, s] { return rdr<milliseconds>(k, at_buf(s)); }}); v.push_back({fmt("reader %d<microseconds> \"", k) + s + "\"", [k, s] { return rdr<microseconds>(k, at_buf(s)); }}); } add_group("one text, five readers and three resolutions", v); }
  { std::vector<Call> v; for (i64 t : {0ll, 1ll, 999ll, 1000ll, 1001ll, 86399ll, 86400ll, 86399999ll, 86400000ll, 86399999999ll, 86400000000ll, -1ll, -86401ll}) {
      v.push_back({fmt("casts of %lld s", t), [t] { seconds x{t}; return mc::mix(mc::mix((u64)val(ngpt::cast_to<seconds, seconds>(x)), (u64)val(ngpt::cast_to<seconds, milliseconds>(x))), (u64)val(ngpt::cast_to<seconds, microseconds>(x))); }});
      v.push_back({fmt("casts of %lld ms", t), [t] { milliseconds x{t}; return mc::mix(mc::mix((u64)val(ngpt::cast_to<milliseconds, seconds>(x)), (u64)val(ngpt::cast_to<milliseconds, milliseconds>(x))), (u64)val(ngpt::cast_to<milliseconds, microseconds>(x))); }});
      v.push_back({fmt("casts of %lld us", t), [t] { microseconds x{t}; return mc::mix(mc::mix((u64)val(ngpt::cast_to<microseconds, seconds>(x)), (u64)val(ngpt::cast_to<microseconds, milliseconds>(x))), (u64)val(ngpt::cast_to<microseconds, microseconds>(x))); }}); } add_group("one amount, nine conversions", v); }
  { std::vector<Call> v; for (int y : {1900, 2000, 2015, 2016, 2100}) for (int m : {1, 2, 3, 12, 0, 13}) for (int d : {1, 28, 29, 30, 31, 32}) v.push_back({fmt("the date %d-%d-%d", y, m, d), [=] { const ymd_date q{year{y}, month{m}, day_of_month{d}}; u64 h = (u64)q.is_valid() | (u64)day_of_month{d}.is_valid(year{y}, month{m}) << 1; return mc::mix(h, guard([&] { return (u64)val(cal2mjd(year{y}, month{m}, day_of_month{d})) * 3 + (u64)val(q.to_ydoy().__doy); })); }}); add_group("neighbouring and nonexistent dates", v); }
  // and across operations: a few arguments of each of the above
  std::vector<Call> mx; for (auto& g : g_groups) { size_t n = level ? 14 : 6; for (size_t j = 0; j < n && j < g.v.size(); ++j) mx.push_back(g.v[(j * g.v.size() / n + j * 3) % g.v.size()]); } add_group("across operations", mx);
  size_t o = 0; for (auto& g : g_groups) { g.off = o; o += g.v.size(); }
  g_w = (u64*)mmap(0, o * 8 + 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::vector<const Call*> flat; for (auto& g : g_groups) for (auto& c : g.v) flat.push_back(&c);
  for (int w = 0; w < 8; ++w) if (fork() == 0) { for (size_t i = w; i < o; i += 8) { g_w[i] = 0xdeadull << 48; pid_t p = fork(); if (p == 0) { g_w[i] = flat[i]->f(); _exit(0); } int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) { } } _exit(0); }
  while (wait(nullptr) > 0) { }
}
int main(int argc, char** argv) {
  mc::init("C17"); const char* lp = getenv("C16_LOCALE"); g_loc = lp && *lp == '1'; NK = 2 * mc_nops; own(); unsetenv("TZ");
  for (int k = 0; k < NK; ++k) g_want.push_back(fresh([k] { const Res& r = call(k); snprintf(g_box, 8000, "%s", r.b); }));
  auto& R = mc::R(); const bool th = mc::g_thorough; static std::vector<Amb> A = ambs(th ? 2 : 0), B = ambs(1);
  std::string where = g_loc ? "error number 0/ERANGE/EINVAL, C++ locale classic/comma and grouping/de_DE, C locale C/de_DE.UTF-8/tr_TR.ISO-8859-9/C.utf8, TZ" : "error number 0/ERANGE/EINVAL, C++ locale classic/comma and grouping, TZ";
  std::vector<Item> none; const u64 NG = make_items(-1, none);
  R.add("sequences-3", fmt("every sequence of three of %d calls, each in a process of its own, under %zu ambient settings (%s; %s)", NK, A.size(), where.c_str(), "a covering selection"), (u64)NK * NK * A.size(), 8,
        [](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); u64 p = i / A.size(); one_pair(i, (int)(p / NK), (int)(p % NK), 3, A[i % A.size()], c); } },
        [](u64 i) { u64 p = i / A.size(); return opn((int)(p / NK)) + "; " + opn((int)(p % NK)) + "; any; " + show(A[i % A.size()]); });
  if (th) R.add("sequences-4", fmt("every sequence of three of %d calls, each in a process of its own, and then all calls in turn, default ambient state", NK), (u64)NK * NK, 1,
        [](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); one_pair(i, (int)(i / NK), (int)(i % NK), 4, B[0], c); } },
        [](u64 i) { return opn((int)(i / NK)) + "; " + opn((int)(i % NK)) + "; any; all in turn"; });
  R.add("ambient-texts", fmt("%zu groups of texts and objects (letter cases and one-byte edits of the month names, every separator byte and pair, decimal separators, all writers) under every ambient setting (%zu) against the default", (size_t)NG, B.size()), NG, 1,
        [](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); std::vector<Item> v; make_items((i64)i, v); enter(B[0]); std::vector<u64> w(v.size()); for (size_t k = 0; k < v.size(); ++k) { w[k] = v[k].f(); c.out(w[k]); }
            for (auto& m : B) { enter(m); for (size_t k = 0; k < v.size(); ++k) { errno = ERR[m.e]; if (v[k].f() != w[k]) c.fail(i, "C17", "%s: %s: result differs from the default environment", show(m).c_str(), mc::jesc(v[k].what).c_str()); } std::string l = left(m); if (!l.empty()) c.fail(i, "C17", "%s: %s", show(m).c_str(), l.c_str()); c.beat(); }
            c.st(v.size()); c.tr(v.size() * B.size()); c.trace(v.size() * B.size()); } },
        [](u64 i) { std::vector<Item> v; make_items((i64)i, v); return mc::jesc(v.front().what) + " .. " + mc::jesc(v.back().what); });
  hist_all(th); static std::vector<std::pair<int, int>> HC; u64 np = 0; for (size_t g = 0; g < g_groups.size(); ++g) { np += g_groups[g].v.size() * g_groups[g].v.size(); for (size_t x = 0; x < g_groups[g].v.size(); ++x) HC.push_back({(int)g, (int)x}); }
  R.add("histories", fmt("%zu groups of calls (one operation with a wide alphabet of arguments; one group across operations): every ordered pair of calls of a group (%llu), x y x in one process, against each call in a process of its own", g_groups.size(), np), HC.size(), 8,
        [](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); const Group& g = g_groups[HC[i].first]; const u64* w = g_w + g.off; const size_t x = HC[i].second; const Call& cx = g.v[x];
            auto chk = [&](size_t z, size_t before) { errno = 0; u64 r = g.v[z].f(); if (r != w[z]) c.fail(i, "C17", "%s gives a different result after %s than in a process of its own", g.v[z].what.c_str(), before == (size_t)-1 ? "earlier calls of this group" : g.v[before].what.c_str()); };
            chk(x, (size_t)-1); for (size_t y = 0; y < g.v.size(); ++y) { chk(y, x); chk(x, y); } (void)cx; c.beat(); c.st(g.v.size()); c.tr(2 * g.v.size() + 1); c.trace(g.v.size()); c.out(w[x]); } },
        [](u64 i) { return g_groups[HC[i].first].v[HC[i].second].what + "; any; the first again"; });
  R.add("results-held", "results of earlier calls (names of months, texts, date-times) stay as they were while later calls are made: every ordered pair of 24 names, and each of the calls above after each name", 24 + 1, 1,
        [](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); auto nm = [](int k) { month m{k / 2 + 1}; return k & 1 ? m.long_name() : m.short_name(); };
            if (i < 24) { const char* p = nm((int)i); const std::string was = p; for (int y = 0; y < 24; ++y) { const char* q = nm(y); if (was != p) c.fail(i, "C17", "the name \"%s\" returned earlier became \"%s\" when the name of month %d was asked for", was.c_str(), mc::cstr(p).c_str(), y / 2 + 1); (void)q; }
              for (int k = 0; k < NK; ++k) { call(k); if (was != p) c.fail(i, "C17", "the name \"%s\" returned earlier changed after %s", was.c_str(), opn(k).c_str()); } c.st(); c.tr(24 + NK); c.out(i); continue; }
            for (i64 d : day_alphabet()) { if (d < -678941) continue; const auto x = mk<microseconds>(d, 45296123456ll); const auto& t1 = strftime_ymd_hmfs(x); const auto& t2 = strftime_ymd_hms(x); const auto& t3 = x.stringify(); const auto& y = x.add(modified_julian_day{1L}, microseconds{5L}); const auto& q = x.delta_date(mk<microseconds>(d - 1, 0)); const auto& g = x.as_ymd(); const std::string s1 = t1, s2 = t2, s3 = t3; const i64 yd = val(y.mjd()), ys = val(y.sec()), qd = val(q.days()), qs = val(q.sec()), gy = val(g.__year), gm = val(g.__month), gd = val(g.__dom);
              const auto z = mk<microseconds>(d + 12345, 777); (void)strftime_ymd_hmfs(z); (void)strftime_ymd_hms(z); (void)z.stringify(); (void)z.add(modified_julian_day{2L}, microseconds{7L}); (void)z.delta_date(x); (void)z.as_ymd(); for (int k = 0; k < NK; ++k) call(k);
              if (t1 != s1 || t2 != s2 || t3 != s3 || val(y.mjd()) != yd || val(y.sec()) != ys || val(q.days()) != qd || val(q.sec()) != qs || val(g.__year) != gy || val(g.__month) != gm || val(g.__dom) != gd) c.fail(i, "C17", "a result for %s changed when the same was asked for another date-time", str(x).c_str()); c.st(); c.tr(12); } } },
        [](u64 i) { return i < 24 ? fmt("name %llu", i) : std::string("texts and date-times"); });
  static const auto& D = day_alphabet();
  R.add("const-arguments", "every const operation on the boundary date-times leaves its operands as they were", D.size(), 4,
        [](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); if (D[i] < 0) continue; for (i64 t : tod_alphabet<seconds>()) keeps<seconds>(i, D[i], t, c); for (i64 t : tod_alphabet<milliseconds>()) keeps<milliseconds>(i, D[i], t, c); for (i64 t : tod_alphabet<microseconds>()) keeps<microseconds>(i, D[i], t, c); } },
        [](u64 i) { return fmt("mjd %lld", D[i]); });
  obj::all(R, th);
  return R.main(argc, argv);
}
