// C23: what one group of constant expressions offers to the explorer
#pragma once
struct C23Group {
  const char* name; int nops; const char* const* ops; int na; const long* a; int nb; const long* b;
  const long* constant;                 // [op][a][b], computed by the compiler
  long (*run)(int op, long a, long b);  // the same expression at run time
};
