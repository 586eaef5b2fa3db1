// C16 stateless search over thread interleavings of the real library code.
// The library and the operations (C16_ops.cpp) are instrumented in LLVM IR by
// bin/mcinstr.py; this file is the scheduler. One thread runs at a time; at every
// visible action of the running thread (access to memory that is not its own and
// not read-only; call of an outside function that may touch process state) the
// schedule may hand over to another thread. All schedules with at most PB
// preemptions are executed, each in a fresh process.
#include "mc.hpp"
#include "C16.hpp"
#include <locale>
#include <clocale>
#include <cerrno>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <time.h>
using mc::u64; using mc::fmt; using mc::Ctx;

static const int MAXP = 6000, MAXT = 3;
struct Log { volatile int n, over, steals, race, race_kind, race_other; unsigned char tid[MAXP], en[MAXP], kind[MAXP]; u64 shr, shw, ext, priv; Res res[MAXT]; volatile int done[MAXT]; };
static Log* g_log;
struct Pre { int pos, to; };
static std::vector<Pre> g_L; static size_t g_np;
static int g_nt; static volatile int g_cur; static volatile int g_done[MAXT]; static sem_t g_sem[MAXT], g_fin; static volatile u64 g_prog;
static __thread int me = -1; static __thread bool argshared;
static char *stk[MAXT], *arena[MAXT]; static char* volatile apos[MAXT];
static const size_t STK = 1 << 18, ARENA = 1 << 22;
static std::vector<std::pair<uintptr_t, uintptr_t>> g_ro;  // read-only mappings

static bool shared_writable(const void* q) {
  uintptr_t p = (uintptr_t)q; if (p < 4096) return false;
  if (p >= (uintptr_t)stk[me] && p < (uintptr_t)stk[me] + STK) return false;
  if (p >= (uintptr_t)arena[me] && p < (uintptr_t)arena[me] + ARENA) return false;
  for (auto& r : g_ro) if (p >= r.first && p < r.second) return false;
  return true;
}
static void wait_mine() {
  while (g_cur != me) {
    u64 pr = g_prog; timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_nsec += 700000000; if (ts.tv_nsec >= 1000000000) { ts.tv_sec++; ts.tv_nsec -= 1000000000; }
    if (sem_timedwait(&g_sem[me], &ts) && errno == ETIMEDOUT && g_cur != me && g_prog == pr) { g_log->steals++; g_cur = me; }  // the running thread is blocked in the kernel
  }
}
static unsigned others() { unsigned m = 0; for (int t = 0; t < g_nt; ++t) if (t != me && !g_done[t]) m |= 1u << t; return m; }
static int choose(int dflt, int kind) {
  int n = g_log->n; if (n >= MAXP) { g_log->over = 1; return dflt; }
  g_log->tid[n] = (unsigned char)me; g_log->en[n] = (unsigned char)others(); g_log->kind[n] = (unsigned char)kind; g_log->n = n + 1; g_prog = g_prog + 1;
  if (g_np < g_L.size() && g_L[g_np].pos == n) return g_L[g_np++].to;
  return dflt;
}
static void give(int t) { g_cur = t; sem_post(&g_sem[t]); }
static void point(int kind) {
  int e = errno; wait_mine(); int t = choose(me, kind); if (t != me) { give(t); wait_mine(); } errno = e;
}
static void blocked() {  // waiting for another thread: some other runnable thread must go on
  int e = errno; wait_mine(); unsigned o = others(); if (!o) { errno = e; return; }
  int d = -1; for (int k = 1; k <= g_nt; ++k) { int t = (me + k) % g_nt; if (o >> t & 1) { d = t; break; } }
  int t = choose(d, 5); if (t == me) t = d; give(t); wait_mine(); errno = e;
}
// happens-before: conflicting accesses of two threads with no synchronisation between them
typedef int Clk[MAXT];
static Clk g_clk[MAXT]; static struct { uintptr_t a; Clk c; } g_sync[256]; static int g_nsync;
static struct Shadow { uintptr_t a; int wt, wc; Clk r; } g_sh[4096];
static int* sync_of(uintptr_t a) { for (int i = 0; i < g_nsync; ++i) if (g_sync[i].a == a) return g_sync[i].c; if (g_nsync == 256) return g_sync[255].c; g_sync[g_nsync].a = a; return g_sync[g_nsync++].c; }
static void hb_acquire(const void* a) { if (me < 0) return; int* c = sync_of((uintptr_t)a); for (int t = 0; t < MAXT; ++t) if (c[t] > g_clk[me][t]) g_clk[me][t] = c[t]; }
static void hb_release(const void* a) { if (me < 0) return; int* c = sync_of((uintptr_t)a); for (int t = 0; t < MAXT; ++t) if (g_clk[me][t] > c[t]) c[t] = g_clk[me][t]; g_clk[me][me]++; }
static void hb_access(const void* p, bool write) {
  uintptr_t a = (uintptr_t)p; Shadow* s = nullptr; for (unsigned k = 0, h = (unsigned)(mc::mix(1, a) & 4095); k < 64; ++k, h = (h + 1) & 4095) if (g_sh[h].a == a || !g_sh[h].a) { s = &g_sh[h]; break; }
  if (!s) return; if (!s->a) { s->a = a; s->wt = -1; }
  if (s->wt >= 0 && s->wt != me && s->wc > g_clk[me][s->wt]) { g_log->race = 1; g_log->race_kind = write ? 3 : 1; g_log->race_other = s->wt; }
  if (write) { for (int t = 0; t < MAXT; ++t) if (t != me && s->r[t] > g_clk[me][t]) { g_log->race = 1; g_log->race_kind = 2; g_log->race_other = t; } s->wt = me; s->wc = g_clk[me][me]; }
  else s->r[me] = g_clk[me][me];
}
extern "C" {
void mc_mem(const void* p, int kind) {  // 0 load 1 store 2 read-modify-write 3 atomic load 4 atomic store
  if (me < 0) return; if (!shared_writable(p)) { g_log->priv++; return; }
  if (kind == 0 || kind == 3) g_log->shr++; else g_log->shw++;
  point(kind == 0 || kind == 3 ? 0 : 1);
  if (kind < 2) hb_access(p, kind); else { if (kind != 4) hb_acquire(p); if (kind != 3) hb_release(p); }
}
void mc_arg(const void* p) { if (me < 0) return; if (shared_writable(p)) argshared = true; }
void mc_ext(int pure) { if (me < 0) return; bool v = !pure || argshared; argshared = false; if (v) { g_log->ext++; point(3); } }
// one-time initialisation of function-local statics
static volatile int g_guard_owner[64]; static void* g_guard[64]; static int g_ng;
int mc_guard_acquire(char* g) {
  if (me >= 0) point(6);
  for (;;) {
    if (*g & 1) { hb_acquire(g); return 0; }
    int f = -1; for (int i = 0; i < g_ng; ++i) if (g_guard[i] == g) f = i;
    if (f < 0) { hb_acquire(g); g_guard[g_ng++ & 63] = g; return 1; }
    blocked();
  }
}
void mc_guard_release(char* g) { hb_release(g); *g = 1; for (int i = 0; i < g_ng; ++i) if (g_guard[i] == g) g_guard[i] = nullptr; if (me >= 0) point(6); }
void mc_guard_abort(char* g) { for (int i = 0; i < g_ng; ++i) if (g_guard[i] == g) g_guard[i] = nullptr; }
int mc_mutex_lock(pthread_mutex_t* m) { if (me < 0) return pthread_mutex_lock(m); point(6); int r; while ((r = pthread_mutex_trylock(m)) == EBUSY) blocked(); hb_acquire(m); return r; }
int mc_mutex_unlock(pthread_mutex_t* m) { hb_release(m); int r = pthread_mutex_unlock(m); if (me >= 0) point(6); return r; }
int mc_rw_wr(pthread_rwlock_t* m) { if (me < 0) return pthread_rwlock_wrlock(m); point(6); int r; while ((r = pthread_rwlock_trywrlock(m)) == EBUSY) blocked(); hb_acquire(m); return r; }
int mc_rw_rd(pthread_rwlock_t* m) { if (me < 0) return pthread_rwlock_rdlock(m); point(6); int r; while ((r = pthread_rwlock_tryrdlock(m)) == EBUSY) blocked(); hb_acquire(m); return r; }
int mc_rw_un(pthread_rwlock_t* m) { hb_release(m); int r = pthread_rwlock_unlock(m); if (me >= 0) point(6); return r; }
// results
static void put(Res* r, const char* s) { int k = (int)strlen(s); if (r->n + k < (int)sizeof r->b) { memcpy(r->b + r->n, s, k + 1); r->n += k; } }
void mc_pure_num(Res* r, long v) { char b[32]; char* p = b + 31; *p = 0; unsigned long u = v < 0 ? 0ul - (unsigned long)v : (unsigned long)v; do { *--p = (char)('0' + u % 10); u /= 10; } while (u); if (v < 0) *--p = '-'; put(r, p); put(r, " "); }
void mc_pure_dbl(Res* r, double v) { long b; memcpy(&b, &v, 8); mc_pure_num(r, b); }
void mc_pure_str(Res* r, const char* s) { put(r, s); put(r, "|"); }
// a private heap per worker thread
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_realloc(void*, size_t); void* __libc_calloc(size_t, size_t);
static int in_arena(const void* p) { for (int t = 0; t < MAXT; ++t) if (arena[t] && (const char*)p >= arena[t] && (const char*)p < arena[t] + ARENA) return t; return -1; }
void* malloc(size_t n) { if (me < 0) return __libc_malloc(n); char* p = apos[me]; size_t k = (n + 31) & ~(size_t)15; if (p + k > arena[me] + ARENA) return __libc_malloc(n); *(size_t*)p = n; apos[me] = p + k + 0; return p + 16; }
void free(void* p) { if (!p || in_arena(p) >= 0) return; __libc_free(p); }
void* calloc(size_t a, size_t b) { if (me < 0) return __libc_calloc(a, b); void* p = malloc(a * b); memset(p, 0, a * b); return p; }
void* realloc(void* p, size_t n) { if (p && in_arena(p) < 0) return __libc_realloc(p, n); void* q = malloc(n); if (p && q) { size_t o = *(size_t*)((char*)p - 16); memcpy(q, p, o < n ? o : n); } return q; }
}
struct Comma : std::numpunct<char> { char do_decimal_point() const override { return ','; } char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\3"; } };
static int g_amb;
static void ambient(int a) { if (a == 1) { setlocale(LC_ALL, "de_DE.UTF-8"); std::locale::global(std::locale(std::locale::classic(), new Comma)); } }
struct Job { int op, var; };
static Job g_job[MAXT];
static void* worker(void* a) {
  me = (int)(long)a; wait_mine();
  Res r; r.n = 0; r.b[0] = 0; errno = g_amb ? ERANGE : 0;
  try { mc_ops[g_job[me].op].f(g_job[me].var, &r); } catch (...) { mc_pure_str(&r, "escaped exception"); }
  wait_mine();
  int m = me; memcpy(&g_log->res[m], &r, sizeof r); g_log->done[m] = 1; g_done[m] = 1;
  unsigned o = others(); int nx = -1;
  if (o) { int d = __builtin_ctz(o); nx = choose(d, 4); if (!(o >> nx & 1)) nx = d; }
  me = -1;
  if (nx >= 0) { g_cur = nx; sem_post(&g_sem[nx]); } else sem_post(&g_fin);
  return nullptr;
}
// one execution in a fresh process; false with a message if it died
static bool execute(int nt, const Job* jobs, int start, int amb, const std::vector<Pre>& L, std::string& died) {
  g_log->n = g_log->over = g_log->steals = g_log->race = 0; g_log->shr = g_log->shw = g_log->ext = g_log->priv = 0; for (int t = 0; t < MAXT; ++t) { g_log->done[t] = 0; g_log->res[t].n = 0; g_log->res[t].b[0] = 0; }
  pid_t p = fork(); if (p < 0) { died = "fork"; return false; }
  if (p == 0) {
    alarm(20); g_amb = amb; ambient(amb); g_L = L; g_np = 0; g_nt = nt; for (int t = 0; t < nt; ++t) { g_job[t] = jobs[t]; g_done[t] = 0; g_clk[t][t] = 1; sem_init(&g_sem[t], 0, 0); }
    sem_init(&g_fin, 0, 0); g_cur = start; pthread_t th[MAXT];
    for (int t = 0; t < nt; ++t) { pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, stk[t], STK); if (pthread_create(&th[t], &at, worker, (void*)(long)t)) _exit(99); }
    sem_post(&g_sem[start]); sem_wait(&g_fin); for (int t = 0; t < nt; ++t) if (!g_done[t]) _exit(98);
    _exit(0);
  }
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) { }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return true;
  died = WIFSIGNALED(st) ? fmt("process ended by signal %d (%s)", WTERMSIG(st), WTERMSIG(st) == SIGALRM ? "no progress" : strsignal(WTERMSIG(st))) : fmt("process ended with status %d", WEXITSTATUS(st));
  return false;
}
static std::string alone(const Job& j, int amb) {
  static std::map<std::tuple<int, int, int>, std::string> memo; auto k = std::make_tuple(j.op, j.var, amb); auto it = memo.find(k); if (it != memo.end()) return it->second;
  std::string d; bool ok = execute(1, &j, 0, amb, {}, d); return memo[k] = ok ? g_log->res[0].b : "died: " + d;
}
struct Search { u64 idx; int nt; Job jobs[MAXT]; int start, amb; std::string want[MAXT]; Ctx* c; u64 runs = 0, maxn = 0; };
static std::string show(const Search& s, const std::vector<Pre>& L) {
  std::string r; for (int t = 0; t < s.nt; ++t) r += fmt("%sT%d: %s (variant %d)", t ? ", " : "", t, mc_ops[s.jobs[t].op].name, s.jobs[t].var);
  r += fmt("; start T%d", s.start); for (auto& p : L) r += fmt(", at action %d switch to T%d", p.pos, p.to); return r;
}
static void explore(Search& s, std::vector<Pre> L, int from, int pb) {
  std::string d; bool ok = execute(s.nt, s.jobs, s.start, s.amb, L, d); ++s.runs; s.c->trace(); s.c->beat();
  const int n = g_log->n; s.c->st(n); s.c->tr(n + 1); if ((u64)n > s.maxn) s.maxn = n;
  s.c->s->extra[0] += g_log->shw; s.c->s->extra[1] += g_log->shr; s.c->s->extra[2] += g_log->ext; s.c->s->extra[3] += g_log->priv;
  if (!ok) s.c->fail(s.idx, "C16", "%s: %s", show(s, L).c_str(), d.c_str());
  if (g_log->race) s.c->fail(s.idx, "C16", "%s: data race: two threads access the same memory with no synchronisation (%s)", show(s, L).c_str(), g_log->race_kind == 1 ? "read after write" : g_log->race_kind == 2 ? "write after read" : "write after write");
  if (g_log->over) s.c->s->extra[4]++;
  std::vector<unsigned char> en(g_log->en, g_log->en + n), kd(g_log->kind, g_log->kind + n), td(g_log->tid, g_log->tid + n);
  u64 h = 0; for (int t = 0; t < s.nt; ++t) { std::string g = g_log->res[t].b; if (g != s.want[t]) s.c->fail(s.idx, "C16", "%s: T%d returned \"%s\", alone it returns \"%s\"", show(s, L).c_str(), t, g.c_str(), s.want[t].c_str()); h = mc::mix(h, mc::hstr(g)); }
  for (int k = 0; k < n; ++k) h = mc::mix(h, td[k]);
  s.c->out(h);
  for (int p = from; p < n; ++p) {
    const bool free_choice = kd[p] == 4 || kd[p] == 5; if (!free_choice && pb == 0) continue;
    int dflt = -1; if (kd[p] == 4) dflt = __builtin_ctz(en[p] ? en[p] : 1);
    if (kd[p] == 5) continue;  // a waiting thread always hands over round-robin
    for (int t = 0; t < s.nt; ++t) { if (!(en[p] >> t & 1) || t == dflt) continue; auto M = L; M.push_back({p, t}); explore(s, M, p + 1, pb - (free_choice ? 0 : 1)); }
  }
}
static void run_case(u64 idx, int nt, const Job* j, int start, int amb, int pb, Ctx& c) {
  Search s; s.idx = idx; s.nt = nt; s.start = start; s.amb = amb; s.c = &c; for (int t = 0; t < nt; ++t) { s.jobs[t] = j[t]; s.want[t] = alone(j[t], amb); if (s.want[t].compare(0, 4, "died") == 0) c.fail(idx, "C16", "%s: %s alone", mc_ops[j[t].op].name, s.want[t].c_str()); }
  explore(s, {}, 0, pb);
}
int main(int argc, char** argv) {
  mc::init("C16");
  g_log = (Log*)mmap(0, sizeof(Log), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (int t = 0; t < MAXT; ++t) { stk[t] = (char*)mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); arena[t] = (char*)mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); apos[t] = arena[t]; }
  if (FILE* f = fopen("/proc/self/maps", "r")) { char l[512]; while (fgets(l, sizeof l, f)) { unsigned long a, b; char pr[8]; if (sscanf(l, "%lx-%lx %7s", &a, &b, pr) == 3 && pr[1] != 'w') g_ro.push_back({a, b}); } fclose(f); }
  auto& R = mc::R(); static const int N = mc_nops; const bool th = mc::g_thorough;
  const char* lp = getenv("C16_LOCALE"); const bool loc = lp && *lp == '1';
  // every worker of the explorer needs its own log
  auto own = [] { static bool d = false; if (!d) { d = true; g_log = (Log*)mmap(0, sizeof(Log), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); } };
  const int pbs = th ? 3 : 2, pbp = th ? 3 : 2;
  R.add("same-operation", fmt("two threads running the same operation on different arguments, all %d operations, both starting threads: all schedules with at most %d preemptions", N, pbs), (u64)N * 2, 1,
        [=](u64 a, u64 b, Ctx& c) { own(); for (u64 i = a; i < b; ++i) { c.at(i); Job j[2] = {{(int)(i / 2), 0}, {(int)(i / 2), 1}}; run_case(i, 2, j, i % 2, 0, pbs, c); } },
        [=](u64 i) { return fmt("%s, thread %llu first", mc_ops[i / 2].name, i % 2); });
  R.add("pairs", fmt("two threads, every ordered pair of operations: all schedules with at most %d preemption(s)", pbp), (u64)N * N, 2,
        [=](u64 a, u64 b, Ctx& c) { own(); for (u64 i = a; i < b; ++i) { c.at(i); Job j[2] = {{(int)(i / N), 0}, {(int)(i % N), 1}}; run_case(i, 2, j, 0, 0, pbp, c); } },
        [=](u64 i) { return fmt("%s with %s", mc_ops[i / N].name, mc_ops[i % N].name); });
  R.add("three", fmt("three threads, operation k twice and one of five others: all schedules with at most %d preemption(s), all orders of completion hand-over", th ? 2 : 1), (u64)N * 5, 1,
        [=](u64 a, u64 b, Ctx& c) { own(); for (u64 i = a; i < b; ++i) { c.at(i); static const int ot[] = {0, 2, 3, 10, 13}; Job j[3] = {{(int)(i / 5), 0}, {(int)(i / 5), 1}, {ot[i % 5], 0}}; run_case(i, 3, j, i % 3, 0, th ? 2 : 1, c); } },
        [=](u64 i) { return fmt("%s case %llu", mc_ops[i / 5].name, i % 5); });
  R.add("ambient", fmt("two threads in a process with a stale errno, a C++ global locale with decimal comma and grouping%s: same operation and each with the readers and writers: at most %d preemption(s)", loc ? " and C locale de_DE" : "", pbp), (u64)N * 6, 2,
        [=](u64 a, u64 b, Ctx& c) { own(); for (u64 i = a; i < b; ++i) { c.at(i); static const int ot[] = {-1, 2, 3, 7, 10, 12}; int o = ot[i % 6] < 0 ? (int)(i / 6) : ot[i % 6]; Job j[2] = {{(int)(i / 6), 0}, {o, 1}}; run_case(i, 2, j, 0, 1, pbp, c); } },
        [=](u64 i) { return fmt("%s case %llu", mc_ops[i / 6].name, i % 6); });
  int rc = R.main(argc, argv);
  return rc;
}
