// mc.hpp -- the explorer.
//
// A check is a list of spaces. A space is a finite, completely enumerated set of
// cases 0..n-1; every case executes the real code and compares it with the
// reference model. Cases are run in chunks, each chunk in a freshly forked
// process, so that a case's history is exactly the earlier cases of its chunk
// (deterministic, replayable) and a crash, abort, std::terminate or hang is
// attributed to the case that was running. A failure is reported only after it
// was reproduced in a new process (alone, else with its chunk's prefix).
#pragma once
#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

namespace mc {

typedef unsigned long long u64;
typedef long long i64;
typedef __int128 i128;

constexpr u64 BM_BITS = 1ull << 22;
constexpr int MAXW = 64, NKNOWN = 8;

struct Slot {
  volatile u64 cur;    // case being executed
  volatile u64 beat;   // progress indicator
  u64 states, trans, traces;
  volatile int failed;
  u64 failcase;
  char key[160];
  char msg[1600];
  char note[800];
  u64 known[NKNOWN];
  u64 extra[8];
};
struct Shared {
  Slot slots[MAXW];
  unsigned char bm[BM_BITS / 8];
};

inline Shared* g_sh = nullptr;
inline std::vector<std::string> g_known;  // keys listed as known findings
inline bool g_verbose = false;
inline bool g_thorough = false;

inline u64 mix(u64 h, u64 v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 32);
}
inline u64 hstr(const char* s, size_t n) {
  u64 h = 1469598103934665603ull;
  for (size_t i = 0; i < n; ++i) h = (h ^ (unsigned char)s[i]) * 1099511628211ull;
  return h;
}
inline u64 hstr(const std::string& s) { return hstr(s.data(), s.size()); }

struct Ctx {
  Slot* s;
  u64 oc = 0;
  inline void at(u64 i) { s->cur = i; s->beat = s->beat + 1; }
  inline void beat() { s->beat = s->beat + 1; }
  inline void st(u64 n = 1) { s->states += n; }
  inline void tr(u64 n = 1) { s->trans += n; }
  inline void trace(u64 n = 1) { s->traces += n; }
  // distinct observed outcomes (hashed; the count reported is a lower bound)
  inline void out(u64 h) {
    h = mix(0x1234567, h) & (BM_BITS - 1);
    unsigned char m = (unsigned char)(1u << (h & 7)), &b = g_sh->bm[h >> 3];
    if (!(b & m)) __atomic_fetch_or(&b, m, __ATOMIC_RELAXED);
  }
  void note(const char* f, ...) __attribute__((format(printf, 2, 3))) {
    va_list a; va_start(a, f); vsnprintf(s->note, sizeof s->note, f, a); va_end(a);
  }
  // a mismatch in case i; does not return unless key is a listed known finding
  void fail(u64 i, const char* key, const char* f, ...) __attribute__((format(printf, 4, 5), noinline, cold)) {
    for (size_t k = 0; k < g_known.size() && k < NKNOWN; ++k)
      if (g_known[k] == key) { s->known[k]++; return; }
    va_list a; va_start(a, f); vsnprintf(s->msg, sizeof s->msg, f, a); va_end(a);
    snprintf(s->key, sizeof s->key, "%s", key);
    s->failcase = i;
    s->failed = 1;
    _exit(10);
  }
};

struct Space {
  std::string name;    // identifies the space (also in replay files)
  std::string bounds;  // what is enumerated
  u64 n = 0;           // number of cases
  u64 chunk = 1;       // cases per process
  std::function<void(u64, u64, Ctx&)> run;
  std::function<std::string(u64)> describe;
};

inline double now() {
  timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
inline std::string jesc(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o + "\"";
}
inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) {
  char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}
inline std::string i128s(i128 v) {
  if (v == 0) return "0";
  bool n = v < 0; unsigned __int128 u = n ? -(unsigned __int128)v : v; std::string s;
  while (u) { s.insert(s.begin(), '0' + (int)(u % 10)); u /= 10; }
  return n ? "-" + s : s;
}
inline std::string cstr(const std::string& s) { return jesc(s); }

struct Runner {
  std::string prop, outfile, errdir;
  std::vector<Space> spaces;
  int nw = 8;
  double deadline = 600, hang = 30;
  std::vector<std::string> assumptions;

  void add(const std::string& name, const std::string& bounds, u64 n, u64 chunk,
           std::function<void(u64, u64, Ctx&)> run, std::function<std::string(u64)> describe) {
    Space s; s.name = name; s.bounds = bounds; s.n = n; s.chunk = chunk ? chunk : 1;
    s.run = run; s.describe = describe; spaces.push_back(s);
  }

  pid_t launch(size_t sp, u64 lo, u64 hi, int slot) {
    Slot& s = g_sh->slots[slot];
    // counters are cumulative over the slot's life; only per-job fields are reset
    s.cur = lo; s.beat = 0; s.failed = 0; s.note[0] = 0; s.msg[0] = 0; s.key[0] = 0;
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p < 0) { perror("fork"); exit(3); }
    if (p == 0) {
      std::string ef = errdir + "/" + std::to_string(slot);
      int fd = open(ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
      if (fd >= 0) { dup2(fd, 2); if (!g_verbose) dup2(fd, 1); close(fd); }
      rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
      Ctx c; c.s = &s;
      spaces[sp].run(lo, hi, c);
      _exit(0);
    }
    return p;
  }
  std::string errtail(int slot) {
    std::string ef = errdir + "/" + std::to_string(slot), r; char b[700];
    int fd = open(ef.c_str(), O_RDONLY); if (fd < 0) return r;
    ssize_t n = read(fd, b, sizeof b - 1); close(fd);
    for (ssize_t i = 0; i < n; ++i) r += (b[i] == '\n') ? ' ' : b[i];
    return r;
  }
  // describes how a finished child failed; empty if it did not
  bool verdict(int st, bool hung, int slot, std::string& key, std::string& msg, u64& cs) {
    Slot& s = g_sh->slots[slot];
    if (hung) { key = "hang"; msg = fmt("no progress for %.0f s", hang); cs = s.cur; }
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 10 && s.failed) { key = s.key; msg = s.msg; cs = s.failcase; return true; }
    else if (WIFSIGNALED(st)) { key = fmt("signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))); msg = "process ended by " + key; cs = s.cur; }
    else { key = "exit"; msg = fmt("process ended with status %d", st); cs = s.cur; }
    std::string t = errtail(slot);
    if (s.note[0]) msg += std::string("; during: ") + s.note;
    if (!t.empty()) msg += "; stderr: " + t;
    return true;
  }
  // run one range to completion; true if it failed
  bool once(size_t sp, u64 lo, u64 hi, double limit, std::string& key, std::string& msg, u64& cs) {
    pid_t p = launch(sp, lo, hi, MAXW - 1);
    Slot& s = g_sh->slots[MAXW - 1];
    u64 beat = s.beat; double t = now(); int st; bool hung = false;
    for (;;) {
      pid_t r = waitpid(p, &st, WNOHANG);
      if (r == p) break;
      if (s.beat != beat) { beat = s.beat; t = now(); }
      if (now() - t > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); hung = true; break; }
      usleep(1000);
    }
    return verdict(st, hung, MAXW - 1, key, msg, cs);
  }

  int main(int argc, char** argv) {
    const char* rs = nullptr; u64 rlo = 0, rhi = 0; bool list = false; std::string only;
    for (int i = 1; i < argc; ++i) {
      std::string a = argv[i];
      if (a == "--out") outfile = argv[++i];
      else if (a == "--workers") nw = atoi(argv[++i]);
      else if (a == "--deadline") deadline = atof(argv[++i]);
      else if (a == "--known") g_known.push_back(argv[++i]);
      else if (a == "--only") only = argv[++i];
      else if (a == "--list") list = true;
      else if (a == "--verbose") g_verbose = true;
      else if (a == "--replay") { rs = argv[++i]; rlo = strtoull(argv[++i], 0, 10); rhi = strtoull(argv[++i], 0, 10); }
    }
    if (nw > MAXW - 1) nw = MAXW - 1;
    if (list) {
      u64 t = 0;
      for (auto& s : spaces) { printf("%-28s n=%llu chunk=%llu  %s\n", s.name.c_str(), s.n, s.chunk, s.bounds.c_str()); t += s.n; }
      printf("total %llu\n", t); return 0;
    }
    g_sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (g_sh == MAP_FAILED) { perror("mmap"); return 3; }
    char td[] = "/tmp/mcXXXXXX"; if (!mkdtemp(td)) { perror("mkdtemp"); return 3; } errdir = td;
    auto cleanup = [&] {
      for (int i = 0; i < MAXW; ++i) unlink((errdir + "/" + std::to_string(i)).c_str());
      rmdir(errdir.c_str());
    };
    double t0 = now();

    if (rs) {
      for (size_t sp = 0; sp < spaces.size(); ++sp)
        if (spaces[sp].name == rs) {
          if (rhi > spaces[sp].n) { printf("REPLAY-DIVERGED: case %llu outside the space\n", rhi); cleanup(); return 3; }
          std::string k, m; u64 c = 0;
          bool f = once(sp, rlo, rhi, hang * 4, k, m, c);
          if (f) printf("REPRODUCED space=%s case=%llu (%s) key=%s: %s\n", rs, c, spaces[sp].describe(c).c_str(), k.c_str(), m.c_str());
          else printf("not reproduced: space=%s range=[%llu,%llu)\n", rs, rlo, rhi);
          cleanup(); return f ? 1 : 0;
        }
      printf("no space %s\n", rs); cleanup(); return 3;
    }

    struct SpStat { u64 done = 0, states = 0, trans = 0, traces = 0, jobs = 0, ocs = 0; double secs = 0; bool capped = false; };
    std::vector<SpStat> ss(spaces.size());
    struct Job { size_t sp; u64 lo, hi; pid_t p; u64 beat; double t, start; u64 s0, t0, r0; bool busy = false, hung = false; };
    std::vector<Job> w(nw);
    bool found = false; std::string vkey, vmsg, vdesc; u64 vlo = 0, vhi = 0, vcase = 0; size_t vsp = 0; bool valone = false;
    std::vector<std::string> unconfirmed;
    bool capped = false;
    u64 total_oc = 0;
    struct Fail { size_t sp; u64 lo, hi, cs; std::string key, msg; };
    auto reap = [&](int i, int st) -> bool {  // returns true when a violation was confirmed
      Job& j = w[i]; Slot& s = g_sh->slots[i];
      SpStat& q = ss[j.sp];
      q.states += s.states - j.s0; q.trans += s.trans - j.t0; q.traces += s.traces - j.r0;
      q.jobs++; q.secs += now() - j.start; j.busy = false;
      std::string key, msg; u64 cs = j.lo;
      bool bad = verdict(st, j.hung, i, key, msg, cs);
      if (!bad) { q.done += j.hi - j.lo; return false; }
      // replay before report
      std::string k2, m2; u64 c2 = 0;
      bool alone = once(j.sp, cs, cs + 1, hang * 3, k2, m2, c2);
      if (alone) { vlo = cs; vhi = cs + 1; }
      else {
        u64 hi = key == "hang" || cs + 1 > j.hi ? j.hi : cs + 1;
        bool again = once(j.sp, j.lo, hi, hang * 3, k2, m2, c2);
        if (!again) {
          unconfirmed.push_back(fmt("%s[%llu,%llu) case %llu key=%s: %s", spaces[j.sp].name.c_str(), j.lo, j.hi, cs, key.c_str(), msg.c_str()));
          return false;
        }
        vlo = j.lo; vhi = hi;
      }
      found = true; valone = alone; vsp = j.sp; vkey = k2; vmsg = m2; vcase = c2;
      vdesc = spaces[j.sp].describe(c2);
      return true;
    };
    for (size_t sp = 0; sp < spaces.size() && !found; ++sp) {
      if (!only.empty() && spaces[sp].name.find(only) == std::string::npos) continue;
      Space& S = spaces[sp];
      memset(g_sh->bm, 0, sizeof g_sh->bm);
      u64 next = 0; int running = 0;
      while ((next < S.n || running) && !found) {
        bool idle = true;
        for (int i = 0; i < nw && !found; ++i) {
          Job& j = w[i];
          if (j.busy) {
            int st; pid_t r = waitpid(j.p, &st, WNOHANG);
            if (r == j.p) { --running; idle = false; if (reap(i, st)) break; }
            else {
              Slot& s = g_sh->slots[i]; double t = now();
              if (s.beat != j.beat) { j.beat = s.beat; j.t = t; }
              else if (t - j.t > hang && !j.hung) { j.hung = true; kill(j.p, SIGKILL); }
            }
          }
          if (!j.busy && next < S.n) {
            if (now() - t0 > deadline) { ss[sp].capped = capped = true; next = S.n; continue; }
            u64 hi = next + S.chunk < S.n ? next + S.chunk : S.n;
            Slot& s = g_sh->slots[i];
            j.sp = sp; j.lo = next; j.hi = hi; j.hung = false; j.s0 = s.states; j.t0 = s.trans; j.r0 = s.traces;
            j.p = launch(sp, next, hi, i); j.beat = 0; j.t = j.start = now(); j.busy = true; ++running; next = hi; idle = false;
          }
        }
        if (idle) usleep(500);
      }
      for (int i = 0; i < nw; ++i) if (w[i].busy) { kill(w[i].p, SIGKILL); int st; waitpid(w[i].p, &st, 0); w[i].busy = false; }
      for (u64 b = 0; b < BM_BITS / 8; ++b) ss[sp].ocs += __builtin_popcount(g_sh->bm[b]);
      total_oc += ss[sp].ocs;
      if (ss[sp].done < S.n && !found && !ss[sp].capped && unconfirmed.empty()) ss[sp].capped = capped = true;
      if (g_verbose)
        fprintf(stderr, "%-28s cases=%llu/%llu states=%llu transitions=%llu outcomes=%llu cpu=%.1fs\n", S.name.c_str(), ss[sp].done, S.n, ss[sp].states, ss[sp].trans, ss[sp].ocs, ss[sp].secs);
    }
    double wall = now() - t0;
    u64 S = 0, T = 0, R = 0, C = 0;
    for (auto& q : ss) { S += q.states; T += q.trans; R += q.traces; C += q.done; }
    u64 kn[NKNOWN] = {0}, ex[8] = {0};
    for (int i = 0; i < MAXW; ++i) { for (int k = 0; k < NKNOWN; ++k) kn[k] += g_sh->slots[i].known[k]; for (int k = 0; k < 8; ++k) ex[k] += g_sh->slots[i].extra[k]; }
    FILE* f = outfile.empty() ? stdout : fopen(outfile.c_str(), "w");
    if (!f) { perror("out"); cleanup(); return 3; }
    fprintf(f, "{\"states\":%llu,\"transitions\":%llu,\"traces\":%llu,\"cases\":%llu,\"distinct_outcomes\":%llu,\"wall_s\":%.3f,\"capped\":%s,\"workers\":%d,\n", S, T, R, C, total_oc, wall, capped ? "true" : "false", nw);
    fprintf(f, "\"known\":{");
    for (size_t k = 0; k < g_known.size() && k < NKNOWN; ++k) fprintf(f, "%s%s:%llu", k ? "," : "", jesc(g_known[k]).c_str(), kn[k]);
    fprintf(f, "},\n\"extra\":[%llu,%llu,%llu,%llu,%llu,%llu,%llu,%llu],\n\"unconfirmed\":[", ex[0], ex[1], ex[2], ex[3], ex[4], ex[5], ex[6], ex[7]);
    for (size_t k = 0; k < unconfirmed.size(); ++k) fprintf(f, "%s%s", k ? "," : "", jesc(unconfirmed[k]).c_str());
    fprintf(f, "],\n\"spaces\":[");
    for (size_t i = 0; i < spaces.size(); ++i) {
      fprintf(f, "%s\n{\"name\":%s,\"bounds\":%s,\"cases\":%llu,\"completed\":%llu,\"states\":%llu,\"transitions\":%llu,\"distinct_outcomes\":%llu,\"cpu_s\":%.2f,\"capped\":%s,\"samples\":[",
              i ? "," : "", jesc(spaces[i].name).c_str(), jesc(spaces[i].bounds).c_str(), spaces[i].n, ss[i].done, ss[i].states, ss[i].trans, ss[i].ocs, ss[i].secs, ss[i].capped ? "true" : "false");
      u64 n = spaces[i].n; u64 pick[3] = {0, n / 2, n - 1};
      for (int k = 0; k < 3; ++k) if (n && (k == 0 || pick[k] != pick[k - 1])) fprintf(f, "%s%s", k ? "," : "", jesc(spaces[i].describe(pick[k])).c_str());
      fprintf(f, "]}");
    }
    fprintf(f, "],\n\"violation\":");
    if (found)
      fprintf(f, "{\"space\":%s,\"lo\":%llu,\"hi\":%llu,\"case\":%llu,\"alone\":%s,\"key\":%s,\"case_text\":%s,\"message\":%s}",
              jesc(spaces[vsp].name).c_str(), vlo, vhi, vcase, valone ? "true" : "false", jesc(vkey).c_str(), jesc(vdesc).c_str(), jesc(vmsg).c_str());
    else fprintf(f, "null");
    fprintf(f, "}\n");
    if (f != stdout) fclose(f);
    cleanup();
    return found ? 1 : 0;
  }
};

inline Runner& R() { static Runner r; return r; }
inline void init(const char* prop) {
  R().prop = prop;
  const char* t = getenv("VERIF_TIER");
  g_thorough = t && !strcmp(t, "thorough");
  if (const char* h = getenv("MC_HANG")) R().hang = atof(h);
}

// mixed-radix decoding of a case number; the first radix varies slowest
struct Dec {
  u64 v;
  explicit Dec(u64 i) : v(i) {}
  u64 take(u64 radix) { u64 r = v % radix; v /= radix; return r; }
};

}  // namespace mc
