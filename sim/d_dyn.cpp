// C13: fixed scenarios.
#include "scripts.h"
// recorded finding (see KNOWN_FINDINGS)
static scripts::Add g1("C13", "globals-of-evaluated-code",
"import sim; import std.dynamic; int f(int n){ int[8] a; for(int i = 0; i < 8; i++) a[i] = n + i;"
" eval(\"{ int q = 5; int ref() h = auto(){ q++; return q; }; h(); } { int r = 5; int ref() h = auto(){ r++; return r; }; h(); } { int s = 5; int ref() h = auto(){ s++; return s; }; h(); } { int t = 5; int ref() h = auto(){ t++; return t; }; h(); }\");"
" int s = n * 1000; for(int i = 0; i < 8; i++) s += a[i]; return s; } ei(f(10)); return 1;",
"i:10108\n=> 1");
static scripts::Add g3("C13", "long-constants-of-evaluated-code",
"import sim; import std.dynamic; long g; int f(int n){ for(int i = 0; i < n; i++) { eval(\"g += 10000000001l; double d = g * 0.125; if(d < 1.5) g = 0;\"); } return n; } f(40); ei(g == 400000000040l); return 1;",
"i:1\n=> 1");
static scripts::Add g4("C22", "many-host-calls-in-one-run",
"import sim; int n; int f(int x){ n += x; return n; } int s; for(int i = 0; i < 6000; i++){ s += hostcall(f, 1) & 1; s += rawcall(f, 1) & 1; } ei(n); ei(s); return 1;",
"i:12000\ni:6000\n=> 1");
