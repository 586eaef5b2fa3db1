#pragma once
struct Res { int n; char b[1020]; };
struct OpDesc { const char* name; void (*f)(int variant, Res* r); };
extern "C" {
void mc_pure_num(Res*, long); void mc_pure_dbl(Res*, double); void mc_pure_str(Res*, const char*);
extern const OpDesc mc_ops[]; extern const int mc_nops;
}
