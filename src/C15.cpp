// C15 month names and nothing else.
#include "gg.hpp"
#include <sys/mman.h>
using namespace gg;
static const char* SHORT[] = {"jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"};
static const char* LONG[] = {"january", "february", "march", "april", "may", "june", "july", "august", "september", "october", "november", "december"};
static char low(char c) { return c >= 'A' && c <= 'Z' ? (char)(c + 32) : c; }
static bool same(const char* a, const char* b) { for (; *a && *b; ++a, ++b) if (low(*a) != *b) return false; return !*a && !*b; }
static int want(const char* s) { for (int m = 0; m < 12; ++m) if (same(s, SHORT[m]) || same(s, LONG[m])) return m + 1; return 0; }
static char* guarded(const char* s, size_t n) {
  static char* end = nullptr;
  if (!end) { char* p = (char*)mmap(0, 1 << 18, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) abort(); if (mprotect(p + (1 << 18) - 4096, 4096, PROT_NONE)) abort(); end = p + (1 << 18) - 4096; }
  memcpy(end - n - 1, s, n); end[-1] = 0; return end - n - 1;
}
static void one(u64 i, const char* s, size_t n, Ctx& c) {
  char* t = guarded(s, n); const int w = want(t); c.tr();
  try { const month m{t}; if (val(m) != w) { if (w) c.fail(i, "C15", "month{\"%s\"} = %lld, expected %d", mc::cstr(t).c_str(), val(m), w); else c.fail(i, "C15", "month{\"%s\"} = %lld, which is no month name", mc::cstr(t).c_str(), val(m)); } }
  catch (const std::invalid_argument&) { if (w) c.fail(i, "C15", "month{\"%s\"} threw", mc::cstr(t).c_str()); return; }
  catch (const std::exception& e) { c.fail(i, "C15", "month{\"%s\"} threw %s instead of std::invalid_argument", mc::cstr(t).c_str(), e.what()); return; }
  c.out(w);
}
static std::vector<std::string> names() { std::vector<std::string> v; for (int m = 0; m < 12; ++m) { v.push_back(SHORT[m]); v.push_back(LONG[m]); } return v; }
int main(int argc, char** argv) {
  mc::init("C15");
  auto& R = mc::R(); const bool th = mc::g_thorough; static auto N = names();
  R.add("upto3", "every text of 0 to 3 bytes (255 byte values)", 1 + 255 + 65025 / 255, 2,
        [](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); char s[4] = {0}; if (i == 0) { one(i, s, 0, c); for (int x = 1; x < 256; ++x) { s[0] = (char)x; s[1] = 0; one(i, s, 1, c); } c.st(256); continue; } if (i > 255) continue;
            s[0] = (char)i; for (int y = 1; y < 256; ++y) { s[1] = (char)y; s[2] = 0; one(i, s, 2, c); for (int z = 1; z < 256; ++z) { s[2] = (char)z; one(i, s, 3, c); } } c.st(65280); c.out(1000 + i); } },
        [](u64 i) { return i ? fmt("first byte %llu", i) : std::string("empty and one byte"); });
  R.add("cases", "every letter-case variant of the 24 names", 24, 1,
        [](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); for (u64 m = 0; m < (1ull << N[i].size()); ++m) { std::string s = N[i]; for (size_t k = 0; k < s.size(); ++k) if (m >> k & 1) s[k] = (char)(s[k] - 32); one(i, s.c_str(), s.size(), c); c.st(); } c.out(100 + i); } },
        [](u64 i) { return N[i]; });
  R.add("names", "short and long names of the twelve months and reading them back; every month from its number", 12, 12,
        [](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); c.st(); c.tr(4); const month m{(int)i + 1}; if (val(month{m.short_name()}) != (i64)i + 1 || val(month{m.long_name()}) != (i64)i + 1 || !same(m.short_name(), SHORT[i]) || !same(m.long_name(), LONG[i])) c.fail(i, "C15", "month %llu is called %s, %s", i + 1, m.short_name(), m.long_name()); } },
        [](u64 i) { return fmt("month %llu", i + 1); });
  R.add("edits", "all substrings, one-byte substitutions, insertions, appended and prepended bytes, transpositions of the names and all concatenations of two pieces of names, in three letter cases", 24 * 3, 1,
        [](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); std::string s = N[i / 3]; if (i % 3 == 1) s[0] -= 32; if (i % 3 == 2) for (char& x : s) x -= 32;
            auto t = [&](const std::string& q) { one(i, q.c_str(), q.size(), c); c.st(); };
            for (size_t p = 0; p <= s.size(); ++p) for (size_t n = 0; p + n <= s.size(); ++n) { t(s.substr(p, n)); t(s.substr(0, p) + s.substr(p + n)); for (auto& o : N) { t(s.substr(0, p) + o.substr(std::min(n, o.size()))); t(s.substr(p, n) + o); } }
            for (size_t p = 0; p <= s.size(); ++p) for (int x = 1; x < 256; ++x) { std::string q = s; q.insert(p, 1, (char)x); t(q); if (p < s.size()) { q = s; q[p] = (char)x; t(q); } }
            for (size_t p = 0; p < s.size(); ++p) for (size_t q = p + 1; q < s.size(); ++q) { std::string u = s; std::swap(u[p], u[q]); t(u); }
            if (mc::g_thorough) for (size_t p = 0; p < s.size(); ++p) for (size_t q = p + 1; q < s.size(); ++q) for (int x = 1; x < 256; ++x) for (int y = 1; y < 256; ++y) { std::string u = s; u[p] = (char)x; u[q] = (char)y; t(u); }
            if (mc::g_thorough) for (int x = 1; x < 256; ++x) for (int y = 1; y < 256; ++y) { char e[3] = {(char)x, (char)y, 0}; t(s + e); t(e + s); }
            c.out(i); } },
        [](u64 i) { return fmt("%s, letter case %llu", N[i / 3].c_str(), i % 3); });
  R.add("anagrams", "every order of the letters of each name", 24, 1,
        [](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); std::string s = N[i]; std::sort(s.begin(), s.end()); u64 k = 0; do { one(i, s.c_str(), s.size(), c); c.st(); if ((++k & 4095) == 0) c.beat(); } while (std::next_permutation(s.begin(), s.end())); c.out(i); } },
        [](u64 i) { return N[i]; });
  // words over letters occurring in names
  static const char A5[] = "abcdefghijklmnopqrstuvwxyz"; const int L = th ? 6 : 4;
  for (int len = 4; len <= L; ++len) {
    u64 n = 26 * 26;
    R.add(fmt("words-%d", len), fmt("all %d-letter lower-case words", len), n, 4,
          [=](u64 a, u64 b, Ctx& c) { char s[8] = {0}; for (u64 i = a; i < b; ++i) { c.at(i); s[0] = A5[i / 26]; s[1] = A5[i % 26]; u64 tot = 1; for (int k = 2; k < len; ++k) tot *= 26; for (u64 q = 0; q < tot; ++q) { u64 v = q; for (int k = 2; k < len; ++k) { s[k] = A5[v % 26]; v /= 26; } one(i, s, len, c); if ((q & 4095) == 0) c.beat(); } c.st(tot); c.out(5000 + i); } },
          [](u64 i) { return fmt("words beginning %c%c", A5[i / 26], A5[i % 26]); });
  }
  R.add("long", fmt("each name followed or preceded by any one byte repeated 1..%d, 247..265, 503..520, 65536 times; some bytes 300, 4000, 131072 and 200000 times", th ? 300 : 40), 24 * 255, 64,
        [](u64 a, u64 b, Ctx& c) { for (u64 i = a; i < b; ++i) { c.at(i); const std::string& s = N[i / 255]; const char x = (char)(i % 255 + 1); for (int n = 1; n <= (mc::g_thorough ? 300 : 40); ++n) { std::string r(n, x); one(i, (s + r).c_str(), s.size() + n, c); one(i, (r + s).c_str(), s.size() + n, c); c.st(2); }
            auto rep = [&](int n) { std::string r(n, x); one(i, (s + r).c_str(), s.size() + n, c); one(i, (r + s).c_str(), s.size() + n, c); c.st(2); };
            for (int n = 247; n <= 265; ++n) rep(n);   // a length kept in too narrow a type
            for (int n = 503; n <= 520; ++n) rep(n);
            if (mc::g_thorough || i % 3 == 0) rep(65536);
            c.beat();
            if (i % 51 == 0) for (int n : {300, 4000, 131072, 200000}) { std::string r(n, x); one(i, (s + r).c_str(), s.size() + n, c); one(i, (r + s).c_str(), s.size() + n, c); one(i, r.c_str(), n, c); } c.out(9000 + i); } },
        [](u64 i) { return fmt("%s and byte %llu", N[i / 255].c_str(), i % 255 + 1); });
  return R.main(argc, argv);
}
