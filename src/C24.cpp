// C24 running out of memory: every subset (up to a size) of the allocations of every call is made to fail.
// An execution is (call, set of failing allocations); each runs in its own process, forked from one that has
// never called the library, as: call with the faults (cold) / without / with the faults four times / without three times.
#include "gg.hpp"
#include <malloc.h>
#include <locale>
using namespace gg;

extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t); }
namespace inj {
  static bool on = false; static int n = 0, hits = 0; static int set[8], ns = 0; static int from = 1 << 30; static long live = 0, bytes = 0;
  static bool fault() { if (!on) return false; const int k = n++; bool f = k >= from; for (int q = 0; q < ns; ++q) f |= set[q] == k; if (f) { ++hits; errno = ENOMEM; } return f; }
  static void* got(void* p) { if (p) { ++live; bytes += (long)malloc_usable_size(p); } return p; }
  static void gone(void* p) { if (p) { --live; bytes -= (long)malloc_usable_size(p); } }
}
extern "C" {
  void* malloc(size_t s) { return inj::fault() ? nullptr : inj::got(__libc_malloc(s)); }
  void free(void* p) { inj::gone(p); __libc_free(p); }
  void* calloc(size_t a, size_t b) { return inj::fault() ? nullptr : inj::got(__libc_calloc(a, b)); }
  void* realloc(void* p, size_t s) { if (inj::fault()) return nullptr; const long u = p ? (long)malloc_usable_size(p) : 0; void* q = __libc_realloc(p, s); if (q || !s) { if (p) { --inj::live; inj::bytes -= u; } inj::got(q); } return q; }
  void* memalign(size_t a, size_t s) { return inj::fault() ? nullptr : inj::got(__libc_memalign(a, s)); }
  void* aligned_alloc(size_t a, size_t s) { return memalign(a, s); }
  int posix_memalign(void** r, size_t a, size_t s) { void* p = memalign(a, s); if (!p) return ENOMEM; *r = p; return 0; }
}

struct Rec { char t[1500]; bool threw; };
// what the call did, written without allocating
struct Out { Rec* r; size_t n = 0;
  void v(i64 x) { n += snprintf(r->t + n, sizeof r->t - n, "%lld ", x); }
  void s(const std::string& x) { const size_t k = x.size() < 600 ? x.size() : 600; if (n + k + 40 < sizeof r->t) { memcpy(r->t + n, x.data(), k); n += k; n += snprintf(r->t + n, 40, "|%zu ", x.size()); } }
  template<class S> void d(const datetime<S>& x) { v(val(x.mjd())); v(val(x.sec())); } };

struct Call { std::string name; std::function<void(Out&)> f; bool text; };
static std::vector<Call> C;
static void call(const std::string& n, std::function<void(Out&)> f, bool text = false) { C.push_back({n, f, text}); }
static std::string shown(const std::string& s) { return s.size() <= 60 ? mc::cstr(s) : mc::cstr(s.substr(0, 60)) + fmt("... (%zu bytes)", s.size()); }

template<class S> static void calls(bool th) {
  const char* N = Tr<S>::name(); const i64 T = Tr<S>::tps;
  struct D { int y, m, d; i64 t; }; std::vector<D> dates = {{2015, 12, 30, 43769 * T + T / 3}, {9, 1, 1, 0}, {9999, 12, 31, 86400 * T - 1}, {123456, 7, 8, 3661 * T}};
  if (th) { dates.push_back({-4799, 2, 3, 5 * T}); dates.push_back({0, 2, 29, 59 * T + T - 1}); dates.push_back({21474836, 1, 1, 43200 * T}); }
  for (auto& x : dates) { const i64 j = ref::to_mjd(x.y, x.m, x.d), t = x.t; const std::string w = fmt("%s of %d-%d-%d + %lld ticks", N, x.y, x.m, x.d, t);
    call("stringify, " + w, [=](Out& o) { o.s(mk<S>(j, t).stringify()); }, true);
    for (char del : {'-', '/'}) { if (del == '/' && !th) continue;
      call("strftime_ymd_hms, " + w, [=](Out& o) { o.s(strftime_ymd_hms(mk<S>(j, t), del)); }, true);
      call("strftime_ymd_hmfs, " + w, [=](Out& o) { o.s(strftime_ymd_hmfs(mk<S>(j, t), del)); }, true); }
    call("the date-time operations, " + w, [=](Out& o) { auto a = mk<S>(j, t); auto b = a; b.add_seconds(S{90000 * T}); o.d(b); b.remove_seconds(S{1}); o.d(b); o.v(val(delta_sec(a, b))); o.v(val(a.delta_sec(b))); auto e = b.delta_date(a); o.v(val(e.days())); o.v(val(e.sec())); a += e; o.d(a);
        long sow; o.v(val(a.as_gps_wsow(sow))); o.v(sow); o.v(val(a.as_ymd().__dom)); o.v(val(a.as_ydoy().__doy)); if (val(a.mjd()) >= 41317) o.v(dat(a)); o.v(a < b); o.v(a == b); o.v((i64)(a.as_mjd() * 8)); o.d(a.template cast_to<microseconds>()); o.d(a.template cast_to<seconds>()); o.v(val(std::get<0>(a.as_hmsf()))); o.d(datetime<S>{year{2004}, day_of_year{60}, hours{3}, minutes{-5}, 7.25}); });
  }
  // readers: valid texts, and every way to be refused, short and long
  typedef datetime<S> (*R)(const char*, char**);
  struct X { const char* n; R r; std::vector<std::string> t; };
  std::vector<X> xs = {
    {"strptime_ymd", strptime_ymd<S>, {"2015-12-30", "0009/1/1x", "2015", "2015-", "", "2015-13-01", "2015-02-30", "99999999999-01-01", "x", "2015-12-30 and then a long remark that does not change anything at all"}},
    {"strptime_ydoy", strptime_ydoy<S>, {"2015-364", "2015", "-", "2015-9999999999", "2015--"}},
    {"strptime_ymd_hms", strptime_ymd_hms<S>, {"2015-12-30 12:09:30.000001", "2015-12-30 12:09", "2015-12-30 12:09:", "2015-12-30", "2015-00-30 12:09:30", "2015-12-32 12:09:30", "2015-12-30 12:09:1e300", "2015-12-30 12:09:nan"}},
    {"strptime_yod_hms", strptime_yod_hms<S>, {"2015-DEC-30 12:09:30.5", "2015-Foo-30 12:09:30", "2015-", "2015", "", "2015-Feb-30 12:09:30", "2015-Dec-30 12:09", "2015-Dec-30 12:09:", "2015-Dec-x"}},
    {"strptime_ydoy_hms", strptime_ydoy_hms<S>, {"2015-364 12:09:30.25", "2015-364 12:09:", "2015-364 12", "", "2015-364 99999999999:0:0", "2015-364 12:09:inf"}}};
  for (auto& x : xs) for (auto t : x.t) for (int lng = 0; lng < 2; ++lng) { if (lng) t = t + std::string(" #") + std::string(1000, 'z');
    const R r = x.r; for (int st = 0; st < (th ? 2 : 1); ++st)
    call(fmt("%s<%s>(%s%s)", x.n, N, shown(t).c_str(), st ? ", no end pointer" : ""), [=](Out& o) { char* e = nullptr; const datetime<S> d = r(t.c_str(), st ? nullptr : &e); o.d(d); o.v(e ? e - t.c_str() : -1); }); }
  // dates that do not exist
  struct B { int y, m, d; }; for (B q : {B{2015, 2, 29}, B{2015, 13, 1}, B{2015, 0, 1}, B{2015, 4, 31}, B{2016, 2, 29}}) {
    const std::string w = fmt("%s %d-%d-%d", N, q.y, q.m, q.d); const year y{q.y}; const month m{q.m}; const day_of_month d{q.d};
    call("constructor (day), " + w, [=](Out& o) { o.d(datetime<S>{y, m, d}); });
    call("constructor (amount), " + w, [=](Out& o) { o.d(datetime<S>{y, m, d, S{5}}); });
    call("constructor (h, m, s), " + w, [=](Out& o) { o.d(datetime<S>{y, m, d, hours{1}, minutes{2}, S{5}}); });
    call("constructor (h, m, fraction), " + w, [=](Out& o) { o.d(datetime<S>{y, m, d, hours{1}, minutes{2}, 5.5}); });
    call("cal2mjd, " + w, [=](Out& o) { o.v(val(cal2mjd(y, m, d))); }); }
}
static void others() {
  for (std::string t : {"Jan", "september", "DEC", "Foo", "", "x", "Decembers", "Janu"}) for (int lng = 0; lng < 2; ++lng) { if (lng) t += std::string(1000, 'z');
    call("month from " + shown(t), [=](Out& o) { o.v(val(month{t.c_str()})); }); }
  call("names, leap seconds and quantities", [](Out& o) { for (int m = 1; m <= 12; ++m) { o.v(month{m}.short_name()[1]); o.v(month{m}.long_name()[2]); o.v(dat(year{2000 + m}, month{m})); } o.v(is_leap(2000)); o.v(year{1900}.is_leap()); hours h{5}; ++h; h += 3; o.v(val(h)); o.v(val(day_of_month{3})); o.v(day_of_month{31}.is_valid(year{2015}, month{4})); o.v(val(modified_julian_day{57386}.to_ymd().__year)); o.v((i64)modified_julian_day{57386}.to_julian_day()); o.v(val(ydoy2mjd(year{2004}, day_of_year{366}))); });
}

struct Shm { Rec base, cold, after, again; int n; int hits; long live[8], bytes[8]; volatile int stage; };
static Shm* sh;
static void run1(const Call& k, Rec* r, bool faulty) {
  r->t[0] = 0; r->threw = false; Out o{r};
  inj::n = 0; inj::hits = 0;
  try { inj::on = faulty; struct Off { ~Off() { inj::on = false; } } off; k.f(o); inj::on = false; }
  catch (const std::exception& e) { inj::on = false; r->threw = true; snprintf(r->t, sizeof r->t, "throws %.60s: %.1000s", typeid(e).name(), e.what()); }
  catch (...) { inj::on = false; r->threw = true; snprintf(r->t, sizeof r->t, "throws something else"); }
}
static const char* STAGE[] = {"the first call", "the call after it, with memory", "the repeated call", "the calls after them, with memory"};
static std::string setname() { std::string s = "allocation"; if (inj::from < (1 << 30)) return fmt("every allocation from no. %d on", inj::from); if (inj::ns > 1) s += "s"; for (int q = 0; q < inj::ns; ++q) s += fmt(" %d", inj::set[q]); return inj::ns ? s : std::string("no allocation"); }

// a standard stream that cannot grow drops characters: the text then is the ordinary one with some left out
static bool part_of(const char* x, const char* y) {
  const char* xe = strrchr(x, '|'); const char* ye = strrchr(y, '|'); if (!xe || !ye) return false;
  while (x < xe && y < ye) { if (*x == *y) ++x; ++y; } return x == xe; }
// one execution; returns the number of allocations the faulty call attempted
static int execute(u64 i, bool loc, Ctx& c) {
  const Call& k = C[i]; c.beat(); c.tr(9); c.st();
  c.note("%s, %s failing%s", k.name.c_str(), setname().c_str(), loc ? ", another global C++ locale" : "");
  sh->stage = 0; fflush(stdout); const pid_t p = fork(); if (p < 0) { perror("fork"); _exit(3); }
  if (!p) {
    if (loc) { struct P : std::numpunct<char> { char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\3"; } char do_decimal_point() const override { return ','; } }; std::locale::global(std::locale(std::locale::classic(), new P)); }
    alarm(20);
    run1(k, &sh->cold, true); sh->n = inj::n; sh->hits = inj::hits; sh->stage = 1;
    run1(k, &sh->after, false); sh->stage = 2;
    for (int q = 0; q < 4; ++q) { run1(k, &sh->again, true); sh->live[q] = inj::live; sh->bytes[q] = inj::bytes; } sh->stage = 3;
    for (int q = 4; q < 7; ++q) { run1(k, &sh->again, false); sh->live[q] = inj::live; sh->bytes[q] = inj::bytes; } sh->stage = 4;
    _exit(0);
  }
  int st; if (waitpid(p, &st, 0) != p) _exit(3);
  const std::string what = k.name + ": with " + setname() + " failing" + (loc ? " (another global C++ locale)" : "");
  if (!WIFEXITED(st) || WEXITSTATUS(st)) c.fail(i, "C24", "%s, %s ended the program (%s)", what.c_str(), STAGE[sh->stage], WIFSIGNALED(st) ? strsignal(WTERMSIG(st)) : "exit");
  const Rec& b = sh->base;
  if (!sh->cold.threw && (b.threw || strcmp(b.t, sh->cold.t)) && !(k.text && !b.threw && sh->hits && part_of(sh->cold.t, b.t))) c.fail(i, "C24", "%s, the call returned \"%s\" without an exception; with enough memory: \"%s\"", what.c_str(), sh->cold.t, b.t);
  if (!sh->hits && sh->cold.threw != b.threw) c.fail(i, "C24", "%s, the call %s", what.c_str(), sh->cold.t);
  for (const Rec* r : {&sh->after, &sh->again}) if (r->threw != b.threw || strcmp(r->t, b.t)) c.fail(i, "C24", "%s: a later call with enough memory gives \"%s\" instead of \"%s\"", what.c_str(), r->t, b.t);
  for (int q : {1, 4}) if (sh->bytes[q + 1] > sh->bytes[q] && sh->bytes[q + 2] > sh->bytes[q + 1] && (q == 4 || sh->bytes[q + 2] > sh->bytes[0])) c.fail(i, "C24", "%s: memory is lost, %ld bytes in %ld blocks for each %s call", what.c_str(), sh->bytes[q + 2] - sh->bytes[q + 1], sh->live[q + 2] - sh->live[q + 1], q == 1 ? "failing" : "successful");
  c.out(mc::hstr(sh->cold.t, strlen(sh->cold.t)));
  return sh->n;
}
static void explore(u64 i, bool loc, int depth, Ctx& c) {
  const int n = execute(i, loc, c);
  if (!depth) return;
  for (int k = inj::ns ? inj::set[inj::ns - 1] + 1 : 0; k < n; ++k) { inj::set[inj::ns++] = k; explore(i, loc, depth - 1, c); --inj::ns; }
}
int main(int argc, char** argv) {
  mc::init("C24");
  auto& R = mc::R(); const bool th = mc::g_thorough; const int depth = 8;
  calls<seconds>(th); calls<milliseconds>(th); calls<microseconds>(th); others();
  auto space = [&](const char* name, bool loc, int dep) {
    R.add(name, fmt("every call x every set of at most %d of its allocations failing, and every tail of them%s", dep, loc ? ", under another global C++ locale" : ""), C.size(), 1,
          [=](u64 a, u64 b, Ctx& c) { sh = (Shm*)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (sh == MAP_FAILED) _exit(3);
            for (u64 i = a; i < b; ++i) { c.at(i); const pid_t p = fork(); if (!p) { run1(C[i], &sh->base, false); _exit(0); } int st; waitpid(p, &st, 0);
              if (!WIFEXITED(st) || WEXITSTATUS(st)) c.fail(i, "C24", "%s ended the program although nothing failed", C[i].name.c_str());
              explore(i, loc, dep, c);
              inj::ns = 0; for (int k = 0; k < (1 << 29); ++k) { inj::from = k; if (execute(i, loc, c) <= k) break; }
              inj::from = 1 << 30; } },
          [](u64 i) { return C[i].name; });
  };
  space("faults", false, depth);
  space("faults-locale", true, depth);
  // what a failed call leaves behind: every call after it, with enough memory
  R.add("after", fmt("every call with every single allocation failing (and every tail of them), then %s of all calls in the same process, against each in a fresh process", th ? "each" : "every fifth"), C.size(), 1,
        [=](u64 a, u64 b, Ctx& c) { const u64 step = th ? 1 : 5, n = C.size();
          Rec* base = (Rec*)mmap(0, sizeof(Rec) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); sh = (Shm*)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (base == MAP_FAILED || sh == MAP_FAILED) _exit(3);
          for (u64 i = a; i < b; ++i) { c.at(i);
            for (u64 k = i % step; k < n; k += step) { fflush(stdout); const pid_t p = fork(); if (!p) { run1(C[k], &base[k], false); _exit(0); } int st; waitpid(p, &st, 0); c.beat(); if (!WIFEXITED(st) || WEXITSTATUS(st)) c.fail(k, "C24", "%s ended the program although nothing failed", C[k].name.c_str()); }
            for (int tail = 0; tail < 2; ++tail) for (int q = 0;; ++q) { inj::ns = !tail; inj::set[0] = q; inj::from = tail ? q : 1 << 30; c.beat(); c.st(); c.tr(n / step);
              c.note("%s, %s failing, then others", C[i].name.c_str(), setname().c_str()); sh->hits = 0; sh->base.t[0] = 0; sh->stage = 0;
              const pid_t p = fork(); if (!p) { alarm(20); run1(C[i], &sh->cold, true); sh->hits = inj::hits; inj::ns = 0; inj::from = 1 << 30; Rec* r = &sh->after;
                for (u64 k = i % step; k < n; k += step) { sh->stage = (int)k; run1(C[k], r, false); if (r->threw != base[k].threw || strcmp(r->t, base[k].t)) { snprintf(sh->base.t, sizeof sh->base.t, "%.150s gives \"%.300s\" instead of \"%.300s\"", C[k].name.c_str(), r->t, base[k].t); _exit(5); } } _exit(0); }
              int st; waitpid(p, &st, 0);
              if (sh->base.t[0]) c.fail(i, "C24", "after %s with %s failing, %s", C[i].name.c_str(), setname().c_str(), sh->base.t);
              if (!WIFEXITED(st) || WEXITSTATUS(st)) c.fail(i, "C24", "%s with %s failing, or %s after it, ended the program", C[i].name.c_str(), setname().c_str(), C[sh->stage].name.c_str());
              if (!sh->hits) break; }
            inj::ns = 0; inj::from = 1 << 30; munmap(base, sizeof(Rec) * n); munmap(sh, sizeof(Shm)); } },
        [](u64 i) { return C[i].name; });
  return R.main(argc, argv);
}
