// C23 constant expressions against the same expressions at run time
#include "gg.hpp"
#include "C23.hpp"
#include <dlfcn.h>
using namespace gg;
struct Grp { std::string who; C23Group g; };
static std::vector<Grp> K;
int main(int argc, char** argv) {
  mc::init("C23"); auto& R = mc::R();
  // C23_LIBS: lines "compiler<TAB>path"
  { std::string l = getenv("C23_LIBS") ? getenv("C23_LIBS") : ""; size_t p = 0; while (p < l.size()) { size_t e = l.find('\n', p); if (e == std::string::npos) e = l.size(); std::string line = l.substr(p, e - p); p = e + 1; size_t t = line.find('\t'); if (t == std::string::npos) continue;
      void* h = dlopen(line.substr(t + 1).c_str(), RTLD_NOW | RTLD_LOCAL); auto f = h ? (void (*)(C23Group*))dlsym(h, "c23_group") : nullptr; if (!f) { fprintf(stderr, "cannot load %s: %s\n", line.c_str(), dlerror()); return 3; } Grp g; g.who = line.substr(0, t); f(&g.g); K.push_back(g); } }
  if (K.empty()) { fprintf(stderr, "no groups\n"); return 3; }
  for (size_t k = 0; k < K.size(); ++k) { const C23Group& G = K[k].g; const std::string who = K[k].who;
    R.add(fmt("%s, %s", G.name, who.c_str()), fmt("%d expressions x %d x %d arguments, computed by the compiler (%s) and at run time", G.nops, G.na, G.nb, who.c_str()), (u64)G.nops * G.na, 20,
          [k](u64 a, u64 b, Ctx& c) { const C23Group& G = K[k].g; for (u64 i = a; i < b; ++i) { c.at(i); const int o = (int)(i / G.na), x = (int)(i % G.na); u64 h = 0;
              for (int y = 0; y < G.nb; ++y) { const long w = G.constant[(size_t)i * G.nb + y], g = G.run(o, G.a[x], G.b[y]); h = mc::mix(h, (u64)w);
                if (w != g) c.fail(i, "C23", "%s, %s with arguments %ld and %ld: %ld as a constant (%s) but %ld at run time", G.name, G.ops[o], G.a[x], G.b[y], w, K[k].who.c_str(), g); }
              c.st(G.nb); c.tr(2 * G.nb); c.trace(G.nb); c.out(h); } },
          [k](u64 i) { const C23Group& G = K[k].g; return fmt("%s, first argument %ld", G.ops[i / G.na], G.a[i % G.na]); }); }
  return R.main(argc, argv);
}
