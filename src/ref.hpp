// ref.hpp -- the reference model. Deliberately boring, written from the
// definition of the Gregorian calendar and plain integers; shares no formula
// with the library.
#pragma once
#include "mc.hpp"

namespace ref {
using mc::u64; using mc::i64; using mc::i128;

inline bool leap(i64 y) {
  if (y % 400 == 0) return true;
  if (y % 100 == 0) return false;
  return y % 4 == 0;
}
inline int mlen(i64 y, int m) {
  switch (m) {
    case 2: return leap(y) ? 29 : 28;
    case 4: case 6: case 9: case 11: return 30;
    default: return 31;
  }
}
inline int ylen(i64 y) { return leap(y) ? 366 : 365; }
inline bool valid(i64 y, i64 m, i64 d) { return m >= 1 && m <= 12 && d >= 1 && d <= mlen(y, (int)m); }

inline i64 fdiv(i64 a, i64 b) { i64 q = a / b; return (a % b != 0 && (a % b < 0) != (b < 0)) ? q - 1 : q; }
inline i64 fmod_(i64 a, i64 b) { return a - fdiv(a, b) * b; }
inline i128 fdiv(i128 a, i128 b) { i128 q = a / b; return (a % b != 0 && (a % b < 0) != (b < 0)) ? q - 1 : q; }

// A calendar day. next() is the successor relation the whole model rests on.
struct Day {
  i64 y; int m, d, doy; i64 mjd;
  void next() {
    ++mjd; ++doy; ++d;
    if (d > mlen(y, m)) { d = 1; ++m; if (m > 12) { m = 1; doy = 1; ++y; } }
  }
};
// One anchor (2000-01-01 is MJD 51544) and the length of the 400-year cycle,
// which the constructor obtains by walking the successor relation.
struct Cycle {
  i64 days; i64 ystart[401];
  Cycle() {
    Day k{2000, 1, 1, 1, 51544};
    for (int y = 0; y <= 400; ++y) { while (k.y < 2000 + y) k.next(); ystart[y] = k.mjd - 51544; }
    days = ystart[400];
  }
};
inline const Cycle& cyc() { static Cycle c; return c; }
inline Day jan1(i64 y) {
  i64 c = fdiv(y - 2000, (i64)400), r = (y - 2000) - 400 * c;
  return Day{y, 1, 1, 1, 51544 + c * cyc().days + cyc().ystart[r]};
}
inline Day from_mjd(i64 mjd) {
  i64 n = mjd - 51544, c = fdiv(n, cyc().days), r = n - c * cyc().days;
  int y = (int)(r / 366); while (cyc().ystart[y + 1] <= r) ++y;
  Day k{2000 + 400 * c + y, 1, 1, 1, 51544 + c * cyc().days + cyc().ystart[y]};
  i64 left = mjd - k.mjd; k.mjd = mjd; k.doy = (int)left + 1;
  while (left >= mlen(k.y, k.m)) { left -= mlen(k.y, k.m); ++k.m; }
  k.d = (int)left + 1;
  return k;
}
inline i64 to_mjd(i64 y, int m, int d) {
  Day k = jan1(y); i64 r = k.mjd; for (int i = 1; i < m; ++i) r += mlen(y, i);
  return r + d - 1;
}

// Instants: ticks since MJD 0 00:00, tps ticks per second, 128 bit.
inline i128 inst(i64 mjd, i128 ticks, i64 tps) { return (i128)mjd * 86400 * tps + ticks; }
struct Norm { i64 mjd; i64 ticks; };
inline Norm norm(i128 t, i64 tps) {
  i128 day = (i128)86400 * tps, q = fdiv(t, day);
  return Norm{(i64)q, (i64)(t - q * day)};
}

// IERS: first day of each TAI-UTC value since 1972, and its MJD.
struct Leap { int y, m, dat; };
inline const Leap* leaps(int& n) {
  static const Leap t[] = {
      {1972, 1, 10}, {1972, 7, 11}, {1973, 1, 12}, {1974, 1, 13}, {1975, 1, 14}, {1976, 1, 15}, {1977, 1, 16},
      {1978, 1, 17}, {1979, 1, 18}, {1980, 1, 19}, {1981, 7, 20}, {1982, 7, 21}, {1983, 7, 22}, {1985, 7, 23},
      {1988, 1, 24}, {1990, 1, 25}, {1991, 1, 26}, {1992, 7, 27}, {1993, 7, 28}, {1994, 7, 29}, {1996, 1, 30},
      {1997, 7, 31}, {1999, 1, 32}, {2006, 1, 33}, {2009, 1, 34}, {2012, 7, 35}, {2015, 7, 36}, {2017, 1, 37}};
  n = sizeof t / sizeof *t; return t;
}
inline int tai_utc(i64 mjd) {
  int n; const Leap* t = leaps(n); int r = 0;
  for (int i = 0; i < n; ++i) if (mjd >= to_mjd(t[i].y, t[i].m, 1)) r = t[i].dat;
  return r;
}
}  // namespace ref
