#include "scripts.h"
// recorded findings (see KNOWN_FINDINGS)
static scripts::Add a1("C04", "dead-failing-operation",
"import sim; int f(int n){ int[] a = new int[2]; int x = a[n]; ei(1); return 5; } ei(f(7)); return 1;",
"!! ERROR: array index out of bounds");
static scripts::Add a2("C04", "variable-of-unwound-frame",
"import sim; import std.error; int ref() h; int fill(int n){ int[32] a; for(int i = 0; i < 32; i++) a[i] = n + i; int s = 0; for(int i = 0; i < 32; i++) s += a[i]; return s; }"
"int f(int p){ int x = p; h = auto(){ return x; }; int[] a = new int[1]; return a[p]; } try(auto(){ return f(77); }); fill(3); ei(h()); return 1;",
"i:77\n=> 1");
static scripts::Add a3("C04", "register-of-merged-values",
"import sim; int ix(int i, n){ return n == 0 ? 0 : (1) % n; } class St5{ auto ref f9; } class St10{ int f11; } class Cl23 extendable{ int a; }"
"class Cl30 : Cl23{ Cl30 ref f35; void Cl30(int q_){ a = q_; } void Cl30(int q_, Cl30 ref r_){ a = q_; f35 = r_; } } class Cl36 : Cl23{ }"
"St5 gv40; int[] g45; int ref(int)[] g47; int g50; St10[] g53;"
"Cl36 ref fn111(long p112, int ref(int)[] p113){ int v114 = (1); if((p112)){ g47[ix((v114++), g47.size)] = auto(int x118){ return (1); }; } else { int v121 = ((g45.size) ? g45[ix((1), g45.size)] : 2); g50 = (v114 += g47.size); gv40.f9 = new Cl30(((g45.size) ? g45[ix(v121, g45.size)] : 4), new Cl30(1)); } g53[ix((v114), g53.size)].f11 = (1); return nullptr; } ei(3); return 1;",
"i:3\n=> 1");
