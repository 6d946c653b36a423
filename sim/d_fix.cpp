#include "scripts.h"
// repaired defects, kept as fixed scenarios
#define STORE "import sim; import std.error; int g = 3; int z = 0; class A{ int x; } A ref a = new A;" \
"int q(int y, A ref a){ int w = y * 3 + 2; w = w - 2; a.x = 7; a.x = 5 % w; return 0; }" \
"int q2(int y){ int w = y * 3 + 2; w = w - 2; g = 1; g = 5 / w; return 0; }" \
"int f(){ return q(z, a); } int h(){ return q2(z); } try(f); try(h); ei(g); return g * 10 + a.x;"
static scripts::Add f1("C04", "store-before-failing-operation", STORE, "i:1\n=> 17");
static scripts::Add f2("C06", "store-before-failing-operation", STORE, "i:1\n=> 17");
static scripts::Add f3("C09", "upvalue-list-of-recursive-scopes",
"import sim; int ref() keepInner; int ref() outer;"
"int ref() mk1(int n, int callOuter){ auto r = auto(){ keepInner = auto(){ return n; }; return n; }; if(callOuter) outer(); return r; }"
"int deep(int n){ int[16] a; for(int i = 0; i < 16; i++) a[i] = n + i; return n == 0 ? a[3] : deep(n - 1) + a[2] - a[1]; }"
"outer = mk1(5, 0); int ref() m = mk1(7, 1); ei(deep(30)); ei(m()); ei(outer()); ei(keepInner()); return 1;",
"i:33\ni:7\ni:5\ni:5\n=> 1");
static scripts::Add f4("C04", "float-store-forward",
"import sim; class V{ float x; float y; } V mk(double a, b){ V v; v.x = a; v.y = b; return v; } float gf;"
"int f(double p){ float x = 7.7; ed(x); x = p; ed(x); x += 0.1; ed(x); V v = mk(p, 1.1); ed(v.x + v.y); gf = p; ed(gf); float[2] q = { 7.7f, 1.3f }; ed(q[0]); return 1; } return f(5.3);",
"d:7.6999998092651367\nd:5.3000001907348633\nd:5.4000000953674316\nd:6.4000002145767212\nd:5.3000001907348633\nd:7.6999998092651367\n=> 1");
static scripts::Add f5("C01", "list-comprehension-of-objects",
"import sim; class Foo{ int a; } void Foo:Foo(int x){ a = x; } auto x = { for(int i = 0; i < 9; i++) yield new Foo(10 + i); }; Foo ref[] y = duplicate(x); x = nullptr; for(i in y) ei(i.a); return 1;",
"i:10\ni:11\ni:12\ni:13\ni:14\ni:15\ni:16\ni:17\ni:18\n=> 1");
static scripts::Add f6("C06", "null-pointer-in-object-functions",
"import sim; import std.error; class Foo{ int a; int b; } Foo ref n; int f1(){ duplicate(n); return 1; } int f2(){ Foo ref m = new Foo; replace(n, m); return 1; } int f3(){ Foo ref m = new Foo; swap(n, m); return 1; }"
"int f4(){ Foo ref m = new Foo; return equal(n, m); } int f5(){ int ref p; auto[] q = auto_array(int, 2); q.set(p, 0); return 1; }"
"int f6(){ auto[] q = auto_array(int, 1); for(int i = 0; i < 40; i++){ int j = i * 3; q.set(&j, j); } int[] b = q; return b[117]; }"
"ei(!try(f1)); ei(!try(f2)); ei(!try(f3)); ei(!try(f4)); ei(!try(f5)); ei(f6()); return 1;",
"i:1\ni:1\ni:1\ni:1\ni:1\ni:117\n=> 1");
static scripts::Add f20("C07", "wrong-arguments-of-a-guarded-call",
"import sim; import std.error; int f(int x){ return x + 1; } int g(int x, y){ return x + y; } int h(){ return 5; } char[] m; auto ref ex;"
"int[] probe = { 3, 4 }; auto ref nothing; int ref() none; int n = 4; char[64] b;"
"int a1(){ char[] m; auto ref e, v; try(f, &m, &e, &v); return 1; } int a2(){ char[] m; auto ref e, v; try(g, &m, &e, &v); return 1; } int a3(){ char[] m; auto ref e, v; try(n, &m, &e, &v); return 1; } int a4(){ char[] m; auto ref e, v; try(nothing, &m, &e, &v); return 1; } int a5(){ char[] m; auto ref e, v; try(none, &m, &e, &v); return 1; }"
"ei(!try(a1)); ei(!try(a2)); ei(!try(a3)); ei(!try(a4)); auto r = try(h); ei(r ? 1 : 0); if(r) ei(int(r.value)); ei(probe[1]); return 1;",
"i:1\ni:1\ni:1\ni:1\ni:1\ni:5\ni:4\n=> 1");
