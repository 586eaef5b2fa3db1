// The record one call of a configuration fills in: integers must agree exactly, doubles to rounding.
#pragma once
#include <cstring>
struct C21Rec { int ni = 0, nd = 0; long i[220]; double d[24];
  void n(long v) { if (ni < 220) i[ni++] = v; }
  void f(double v) { if (nd < 24) d[nd++] = v; }
  void s(const char* p) { unsigned long h = 1469598103934665603ul; for (; *p; ++p) h = (h ^ (unsigned char)*p) * 1099511628211ul; n((long)h); } };
typedef void (*C21Fn)(int kind, const long* a, C21Rec* r);
