// C02, C03: a mutator script driven by the host, with a model of the object graph: who is reachable, who was finalized, what every object holds.
#include "eng.h"
#include "corpus.h"
#include "session.h"
#include "big.h"
#include <set>
#include <algorithm>

namespace
{
	const int SLOTS = 10, REZ = 4, CLOS = 4, COS = 3, ARRN = 5;
	// classes: 0-2 with a finalizer (64 bytes, 512 pool, large block), 3-4 without; S has array form
	const char *CN[] = { "S", "M", "B", "P", "Q" }; const int FILL[] = { 0, 60, 300, 0, 200 };
	std::string scriptText()
	{
		std::string t = "import sim;\n";
		for(int c = 0; c < 5; c++)
		{
			std::string n = CN[c];
			t += "class " + n + "{ int id, pay; auto ref l, r; int[] arr;" + (FILL[c] ? sim::fmt(" int[%d] fill;", FILL[c]) : "") + " }\n";
			t += "int " + n + ":gid(){ return id; } auto ref " + n + ":gl(){ return l; } auto ref " + n + ":gr(){ return r; } void " + n + ":sl(auto ref x){ l = x; } void " + n + ":sr(auto ref x){ r = x; }\n";
			t += "int " + n + ":sum(){ int s = pay; for(int i = 0; i < arr.size; i++) s = s * 31 + arr[i];" + (FILL[c] ? sim::fmt(" for(int i = 0; i < %d; i++) s = s * 3 + fill[i];", FILL[c]) : "") + " return s; }\n";
			t += "void " + n + ":init(int i, p){ id = i; pay = p; int m = p % 7; arr = new int[m]; for(int k = 0; k < m; k++) arr[k] = p + k;" + (FILL[c] ? sim::fmt(" for(int k = 0; k < %d; k++) fill[k] = p ^ k;", FILL[c]) : "") + " }\n";
		}
		t += "auto ref[] slots = new auto ref[10]; auto ref[4] rez; int ref()[] clos = new (int ref())[4]; int ref()[] cos = new (int ref())[3]; int junk;\n";
		t += "int idof(auto ref x){ return x == nullptr ? -1 : x.gid(); }\n";
		t += "void garbage(int n, kind){ int s = 0; for(int i = 0; i < n; i++){ if(kind == 0){ int[] a = new int[i % 40 + 1]; a[0] = i; s += a[0]; } else if(kind == 1){ int[] a = new int[200 + i % 90]; a[7] = i; s += a[7]; } else if(kind == 2){ auto f = auto(){ return i + s; }; s += f(); } else if(kind == 3){ P ref a = new P; P ref b = new P; a.l = b; b.l = a; a.pay = i; s += a.pay; } else { P ref[] a = new P ref[i % 20 + 1]; a[0] = new P; a[0].l = a[0]; s += a.size; } } junk += s; }\n";
		t += "int[] chk(int n){ int[4] a; a[0] = n; a[3] = n * 2; int[] b = a; return b; } int ref chr_(int n){ int[4] a; a[2] = n; return &a[n & 3]; }\n";
		t += "int churn(int n, kind, len){ int s = 0; for(int i = 0; i < n; i++){ if(kind < 5){ garbage(len, kind); } else if(kind == 5){ P ref h = nullptr; for(int k = 0; k < len; k++){ P ref x = new P; x.l = h; h = x; } s += h.pay; } else if(kind == 6){ auto ref[] v = new auto ref[len + 1]; for(int k = 0; k < len; k++){ Q ref q = new Q; q.l = v; v[k] = q; } s += v.size; } else if(kind == 7){ int[] x = chk(i); s += x[3]; int ref y = chr_(i); s += *y; } else if(kind == 8){ coroutine int co(){ int q = i; while(1){ yield q; q++; } return 0; } for(int k = 0; k < len; k++) s += co(); } else { char[] st = \"\"; for(int k = 0; k < len; k++) st = st + \"abc\"; s += st.size; } } junk += s; return s; }\n";
		t += "int flood(int n, len){ int s = 0; for(int i = 0; i < n; i++){ if(len > 100 || !(i & 7)){ int[] a = new int[len + (i & 31)]; a[3] = i; s += a[3]; } else { P ref a = new P; a.pay = i; a.l = a; s += a.pay; } if(!(i & 63)) sim_host(8, i, 0); } junk += s; return s; }\n";
		for(int c = 0; c < 3; c++)
		{
			std::string n = CN[c];
			t += "void " + n + ":finalize(){ sim_host(1, id, sum()); sim_host(2, idof(l), idof(r)); int act = sim_host(3, id, 0); if(act == 1){ rez[sim_host(4, id, 0)] = this; } else if(act == 2){ garbage(20, id % 5); } else if(act == 3){ sim_host(5, 0, 0); } else if(act == 4){ S ref x = new S; x.init(sim_host(6, 0, 0), 3); x.l = this; int where = sim_host(7, 0, 0); if(where >= 0) rez[where] = x; } else if(act == 5){ int[] z = new int[1]; z[id + 1] = 2; } }\n";
		}
		t += "void mk(int s, id, pay, cls){ auto ref x = nullptr;";
		for(int c = 0; c < 5; c++) t += sim::fmt(" %sif(cls == %d){ %s ref y = new %s; y.init(id, pay); x = y; }", c ? "else " : "", c, CN[c], CN[c]);
		t += " slots[s] = x; }\n";
		t += "void mkarr(int s, id, pay){ S[] a = new S[5]; for(int i = 0; i < 5; i++) a[i].init(id + i, pay + i); auto ref x = &a[pay % 5]; slots[s] = x; }\n";
		t += "void setl(int a, b){ slots[a].sl(slots[b]); } void setr(int a, b){ slots[a].sr(slots[b]); } void cutl(int a){ slots[a].sl(nullptr); } void cutr(int a){ slots[a].sr(nullptr); }\n";
		t += "void mv(int a, b){ slots[a] = slots[b]; } void drop(int a){ slots[a] = nullptr; } void dropr(int a){ rez[a] = nullptr; } void fromrez(int a, b){ slots[a] = rez[b]; } void walk(int a, w){ slots[a] = w ? slots[a].gr() : slots[a].gl(); }\n";
		t += "void clo(int k, s){ auto ref cap = slots[s]; int ref() f = auto(){ return cap.gid(); }; clos[k] = f; } void cloDrop(int k){ clos[k] = nullptr; } int cloRun(int k){ return clos[k](); }\n";
		t += "auto mkco(auto ref x){ coroutine int f(){ auto ref y = x; int i = 0; while(1){ yield y.gid() + i; i++; } return 0; } return f; } void co(int k, s){ int ref() f = mkco(slots[s]); f(); cos[k] = f; } void coDrop(int k){ cos[k] = nullptr; } int coRun(int k){ return cos[k](); }\n";
		t += "void show(auto ref x, int d){ if(x == nullptr){ ei(-1); return; } ei(x.gid()); if(d > 0){ ei(x.sum()); show(x.gl(), d - 1); show(x.gr(), d - 1); } }\n";
		t += "void showAll(){ for(int i = 0; i < 10; i++) show(slots[i], 3); for(int i = 0; i < 4; i++) show(rez[i], 3); }\n";
		t += "void drain(){ for(int i = 0; i < 10; i++) slots[i] = nullptr; for(int i = 0; i < 4; i++){ rez[i] = nullptr; clos[i] = nullptr; } for(int i = 0; i < 3; i++) cos[i] = nullptr; }\n";
		// recursion that holds objects only in locals and arguments of active calls
		t += "int deep(auto ref x, int n){ if(n == 0){ garbage(8, junk & 3); sim_host(5, 0, 0); return 0; } auto ref y = n & 1 ? x.gl() : x.gr(); int s = x.gid(); if(y == nullptr) y = x; s += deep(y, n - 1); return s + x.gid() * 3 + y.gid(); } int deepSlot(int s, n){ auto ref x = slots[s]; slots[s] = nullptr; int r = deep(x, n); slots[s] = x; return r; }\n";
		t += "return 0;\n";
		return t;
	}
	struct Obj { int cls = 0, pay = 0, l = -1, r = -1, group = -1; bool fin = false, dead = false, known = true; };
	struct World
	{
		const Plan &plan; std::map<int, Obj> o; int slots[SLOTS], rez[REZ], clos[CLOS], cos[COS]; int coN[COS]; std::vector<int> locals;
		int nextId = 1000000; bool finalizing = false, actions = true; u64 fins = 0, res = 0; int curFin = -1; std::string err; std::vector<std::string> got; std::set<int> fresh; int budget = 300; unsigned peak = 0; bool failOk = false; int failures = 0;
		explicit World(const Plan &p): plan(p) { std::fill(slots, slots + SLOTS, -1); std::fill(rez, rez + REZ, -1); std::fill(clos, clos + CLOS, -1); std::fill(cos, cos + COS, -1); std::fill(coN, coN + COS, 0); }
		bool finable(int c){ return c < 3; }
		std::set<int> reach()
		{
			std::set<int> s; std::vector<int> st;
			auto add = [&](int i){ if(i >= 0 && s.insert(i).second) st.push_back(i); };
			for(int i : slots) add(i); for(int i : rez) add(i); for(int i : clos) add(i); for(int i : cos) add(i); for(int i : locals) add(i);
			while(!st.empty()){ int i = st.back(); st.pop_back(); Obj &x = o[i]; add(x.l); add(x.r); if(x.group >= 0) for(int k = 0; k < ARRN; k++) add(x.group + k); }
			return s;
		}
		void mark(){ std::set<int> s = reach(); for(auto &i : o) if(!s.count(i.first) && !fresh.count(i.first)) i.second.dead = true; }
		int sum(const Obj &x){ unsigned s = unsigned(x.pay); int m = x.pay % 7; for(int i = 0; i < m; i++) s = s * 31 + unsigned(x.pay + i); for(int i = 0; i < FILL[x.cls]; i++) s = s * 3 + unsigned(x.pay ^ i); return int(s); }
		void bad(const std::string &c, const std::string &m){ sim::fail(c, m); }
		int host(int op, int a, int b)
		{
			switch(op)
			{
			case 1:
			{
				sim::log("finalize %d", a); fins++;
				if(!o.count(a)) bad("finalizer:unknown-object", sim::fmt("the finalizer ran on an object with id %d which was never created", a));
				Obj &x = o[a]; curFin = a;
				if(x.fin) bad("finalizer:twice", sim::fmt("the finalizer of object %d (class %s) ran again", a, CN[x.cls]));
				if(!finalizing && !x.dead) bad("finalizer:reachable-object", sim::fmt("the finalizer of object %d (class %s) ran although the program can reach the object", a, CN[x.cls]));
				if(sum(x) != b) bad("finalizer:content", sim::fmt("the finalizer of object %d (class %s) saw changed content: sum %d, expected %d", a, CN[x.cls], b, sum(x)));
				x.fin = true; sim::probe(x.group >= 0 ? "finalized_array_element" : x.cls == 2 ? "finalized_large" : "finalized");
				return 0;
			}
			case 2: { Obj &x = o[curFin]; if(x.l != a || x.r != b) bad("finalizer:references", sim::fmt("the finalizer of object %d saw references %d, %d, expected %d, %d", curFin, a, b, x.l, x.r)); return 0; }
			case 3: { if(!actions || budget <= 0) return 0; budget--; int m = int(plan.get("actions")); u64 h = mix64(plan.seed * 31 + u64(a)); if(!(h % 3) && m){ int act = 1 + int((h >> 8) % 5); if(act == 5){ if(!failOk || !(m >> 5 & 1)) return 0; failures++; sim::fault("failing_finalizer"); } if(!(m >> act & 1) || (finalizing && act == 4)) return 0; if(act == 1){ res++; sim::probe("resurrected"); } if(act == 3) sim::fault("collection_in_finalizer"); return act; } return 0; }
			case 4: { int k = int(mix64(u64(a)) % REZ); rez[k] = a; mark(); return k; }
			case 5: { sim::fault("collection_in_callback"); int c = curFin; NULLC::CollectMemory(); curFin = c; return 0; }
			case 6: { int id = nextId++; Obj x; x.cls = 0; x.pay = 3; x.l = curFin; o[id] = x; fresh.insert(id); return id; }
			case 8: peak = std::max(peak, NULLC::UsedMemory()); return 0;
			case 7: { int id = nextId - 1; int k = int(mix64(u64(id)) % (REZ + 2)); if(k < REZ) rez[k] = id; else k = -1; fresh.erase(id); if(k < 0) o[id].dead = true; mark(); return k; }
			}
			return 0;
		}
		void show(std::vector<std::string> &w, int i, int d){ auto e = [&](int v){ w.push_back("i:" + std::to_string(v)); }; if(i < 0){ e(-1); return; } e(i); if(d > 0){ e(sum(o[i])); show(w, o[i].l, d - 1); show(w, o[i].r, d - 1); } }
	};
	struct Driver
	{
		World w; int ex, opt; bool c02;
		Driver(const Plan &p, bool c02): w(p), c02(c02) { ex = int(p.get("exec")); opt = int(p.get("opt")); }
		void start()
		{
			std::string err; gcsim::s.on = false;
			if(!eng::build(scriptText(), ex, opt, err)) sim::fail("heap:does-not-compile", err);
			eng::hooks.onHost = [this](int a, int b, int c){ return w.host(a, b, c); };
			eng::hooks.onEvent = [this](const std::string &t){ w.got.push_back(t); };
			if(!nullcRunFunction(NULL)) sim::fail("heap:main-fails", nullcGetLastError());
			gcsim::s.on = true;
		}
		std::string where(){ return sim::fmt("%s, optimization %d: ", ex ? "x86" : "interpreter", opt); }
		int call(const char *f, std::vector<int> a)
		{
			w.mark();
			bool ok = a.size() == 0 ? nullcRunFunction(f) : a.size() == 1 ? nullcRunFunction(f, a[0]) : a.size() == 2 ? nullcRunFunction(f, a[0], a[1]) : a.size() == 3 ? nullcRunFunction(f, a[0], a[1], a[2]) : nullcRunFunction(f, a[0], a[1], a[2], a[3]);
			if(w.failures){ if(ok) sim::fail("finalizer:error-lost", where() + sim::fmt("a finalizer failed during %s but the call succeeded", f)); std::string e = eng::errorKind(nullcGetLastError()); if(e != "ERROR: array index out of bounds") sim::fail("finalizer:wrong-error", where() + e); w.failures = 0; return 0; }
			if(!ok) sim::fail("heap:call-fails", where() + sim::fmt("%s: %s", f, eng::errorKind(nullcGetLastError()).c_str()));
			return nullcGetResultType() == NULLC_TYPE_VOID ? 0 : nullcGetResultInt();
		}
		void collect(int n){ w.failOk = true; for(int i = 0; i < n; i++){ w.mark(); NULLC::CollectMemory(); sim::fault("host_collection"); } w.failOk = false; w.failures = 0; }
		unsigned used(){ return NULLC::UsedMemory(); }
		// everything dropped: used memory has to be what it was with nothing allocated by the script
		void settle(unsigned base, const char *when)
		{
			call("drain", {}); std::fill(w.slots, w.slots + SLOTS, -1); std::fill(w.rez, w.rez + REZ, -1); std::fill(w.clos, w.clos + CLOS, -1); std::fill(w.cos, w.cos + COS, -1);
			bool a = w.actions; w.actions = false;
			call("drain", {});	// nothing of the last call is left in result or argument storage
			collect(4);
			for(auto &i : w.o) if(w.finable(i.second.cls) && !i.second.fin) sim::fail("finalizer:missing", where() + sim::fmt("object %d (class %s) was dropped and two collections passed but its finalizer did not run", i.first, CN[i.second.cls]));
			if(used() != base) sim::fail("reclaim:memory-left", where() + sim::fmt("%s: %u bytes are in use after everything was dropped and collected, %u before", when, used(), base));
			w.o.clear(); w.actions = a; sim::probe("settled");
		}
		void step(const Op &op, unsigned base)
		{
			auto A = [&](int i, int m){ return int(((op.arg(size_t(i)) % m) + m) % m); };
			const std::string &n = op.name; World &W = w; sim::step(); sim::log("%s %lld %lld %lld %lld", n.c_str(), op.arg(0), op.arg(1), op.arg(2), op.arg(3));
			if(n == "mk"){ int s = A(0, SLOTS), id = int(op.arg(1)), c = A(3, 5); if(W.o.count(id)) return; Obj x; x.cls = c; x.pay = int(op.arg(2)); W.o[id] = x; W.fresh.insert(id); call("mk", { s, id, x.pay, c }); W.slots[s] = id; W.fresh.clear(); }
			else if(n == "mkarr"){ int s = A(0, SLOTS), id = int(op.arg(1)) + 500000; if(W.o.count(id)) return; int p = int(op.arg(2)); for(int i = 0; i < ARRN; i++){ Obj x; x.cls = 0; x.pay = p + i; x.group = id; W.o[id + i] = x; W.fresh.insert(id + i); } call("mkarr", { s, id, p }); W.slots[s] = id + p % 5; W.fresh.clear(); }
			else if(n == "setl" || n == "setr"){ int a = A(0, SLOTS), b = A(1, SLOTS); if(W.slots[a] < 0) return; call(n.c_str(), { a, b }); (n == "setl" ? W.o[W.slots[a]].l : W.o[W.slots[a]].r) = W.slots[b]; }
			else if(n == "cutl" || n == "cutr"){ int a = A(0, SLOTS); if(W.slots[a] < 0) return; call(n.c_str(), { a }); (n == "cutl" ? W.o[W.slots[a]].l : W.o[W.slots[a]].r) = -1; }
			else if(n == "mv"){ int a = A(0, SLOTS), b = A(1, SLOTS); call("mv", { a, b }); W.slots[a] = W.slots[b]; }
			else if(n == "drop"){ int a = A(0, SLOTS); call("drop", { a }); W.slots[a] = -1; }
			else if(n == "dropr"){ int a = A(0, REZ); call("dropr", { a }); W.rez[a] = -1; }
			else if(n == "fromrez"){ int a = A(0, SLOTS), b = A(1, REZ); call("fromrez", { a, b }); W.slots[a] = W.rez[b]; }
			else if(n == "walk"){ int a = A(0, SLOTS), d = A(1, 2); if(W.slots[a] < 0) return; call("walk", { a, d }); W.slots[a] = d ? W.o[W.slots[a]].r : W.o[W.slots[a]].l; }
			else if(n == "clo"){ int k = A(0, CLOS), s = A(1, SLOTS); if(W.slots[s] < 0) return; call("clo", { k, s }); W.clos[k] = W.slots[s]; }
			else if(n == "cloDrop"){ int k = A(0, CLOS); call("cloDrop", { k }); W.clos[k] = -1; }
			else if(n == "cloRun"){ int k = A(0, CLOS); if(W.clos[k] < 0) return; int r = call("cloRun", { k }); if(r != W.clos[k]) sim::fail("heap:closure", where() + sim::fmt("closure returned %d, expected %d", r, W.clos[k])); }
			else if(n == "co"){ int k = A(0, COS), s = A(1, SLOTS); if(W.slots[s] < 0) return; call("co", { k, s }); W.cos[k] = W.slots[s]; W.coN[k] = 1; }
			else if(n == "coDrop"){ int k = A(0, COS); call("coDrop", { k }); W.cos[k] = -1; }
			else if(n == "coRun"){ int k = A(0, COS); if(W.cos[k] < 0) return; int r = call("coRun", { k }); if(r != W.cos[k] + W.coN[k]) sim::fail("heap:coroutine", where() + sim::fmt("coroutine returned %d, expected %d", r, W.cos[k] + W.coN[k])); W.coN[k]++; }
			else if(n == "garbage"){ W.failOk = A(1, 5) != 2;	// (variables captured by closures of an unwound call stay attached: recorded finding of C04)
				 call("garbage", { A(0, 200), A(1, 5) }); W.failOk = false; }
			else if(n == "deep"){ int s = A(0, SLOTS), d = A(1, 30); if(W.slots[s] < 0) return; int id = W.slots[s]; W.locals.push_back(id); int r = call("deepSlot", { s, d }); W.locals.clear(); int e = deep(id, d); if(r != e) sim::fail("heap:recursion", where() + sim::fmt("recursive walk returned %d, expected %d", r, e)); }
			else if(n == "collect") collect(1 + A(0, 3));
			else if(n == "show"){ W.got.clear(); call("showAll", {}); std::vector<std::string> e; for(int i : W.slots) W.show(e, i, 3); for(int i : W.rez) W.show(e, i, 3); if(e != W.got) { size_t k = 0; while(k < e.size() && k < W.got.size() && e[k] == W.got[k]) k++; sim::fail("heap:graph", where() + sim::fmt("the object graph differs at value %zu: %s, expected %s", k, k < W.got.size() ? W.got[k].c_str() : "end", k < e.size() ? e[k].c_str() : "end")); } }
			else if(n == "settle") settle(base, "after a phase");
			else if(n == "flood")
			{
				// garbage without a limit that could be felt: collections have to keep memory near the size of the live data
				w.actions = false; unsigned before = used(), bound = 12u * 1024 * 1024 + 6 * before; w.peak = 0;
				int len = A(0, 2) ? 20000 + A(1, 20000) : 10 + A(1, 60); call("flood", { len > 100 ? 300 : 150000, len }); w.actions = true; sim::fault("garbage_flood");
				if(w.peak > bound) sim::fail("reclaim:unbounded-garbage", where() + sim::fmt("memory in use grew to %u bytes while little more than %u bytes were live", w.peak, before));
			}
			else if(n == "churn")
			{
				// garbage far beyond the limit while little is live
				w.actions = false; unsigned limit = used() + 200000 + unsigned(A(2, 100)) * 10000; nullcSetGlobalMemoryLimit(limit); sim::fault("memory_limit");
				int kind = A(0, 10), len = 1 + A(1, 30); call("churn", { kind == 8 ? 300 : kind == 6 ? 400 : 2000, kind, len });
				if(used() > limit) sim::fail("limit:exceeded", where() + sim::fmt("%u bytes are in use, the limit is %u", used(), limit));
				nullcSetGlobalMemoryLimit(1024u * 1024 * 1024); w.actions = true;
			}
		}
		int deep(int id, int n){ if(n == 0) return 0; int y = n & 1 ? w.o[id].l : w.o[id].r; if(y < 0) y = id; int s = id + deep(y, n - 1); return s + id * 3 + y; }
		void run()
		{
			start();
			call("drain", {}); collect(3); unsigned base = used();
			for(auto &op : w.plan.ops) step(op, base);
			if(c02) settle(base, "at the end");
			else
			{
				w.mark(); w.finalizing = w.failOk = true; nullcFinalize(); w.finalizing = w.failOk = false; w.failures = 0;
				for(auto &i : w.o) if(w.finable(i.second.cls) && !i.second.fin) sim::fail("finalizer:missing", where() + sim::fmt("object %d (class %s) was not finalized by the end of the program", i.first, CN[i.second.cls]));
				// the engine can go on, what is reachable is intact and nothing is finalized again
				w.actions = false; step(Op("show"), base); collect(2); step(Op("show"), base); step(Op("garbage", { 100, 1 }), base);
				settle(base, "after the program was finalized");
			}
			if(w.fins > 3 || w.plan.ops.size() > 12) sim::nontrivial();
			sim::state(w.fins * 1000 + w.res);
			arena::checkAll();
		}
	};
	void genOps(Rng &r, Plan &p, bool c02)
	{
		session::config(r, p); p.cfg["actions"] = c02 ? (r.coin() ? 0 : 4 + 8) : r.below(32) * 2;
		int n = r.range(8, 70), id = 1;
		int weights[24]; for(int &x : weights) x = r.chance(1, 5) ? 0 : r.range(1, 6);
		static const char *names[] = { "mk", "mk", "mk", "mkarr", "setl", "setl", "setr", "setr", "cutl", "cutr", "mv", "drop", "drop", "dropr", "fromrez", "walk", "clo", "cloDrop", "cloRun", "co", "coDrop", "coRun", "garbage", "show" };
		int total = 0; for(int x : weights) total += x;
		for(int i = 0; i < n; i++)
		{
			int k = int(r.below(u32(total ? total : 1))), j = 0; while(j < 23 && k >= weights[j]) k -= weights[j++];
			Op o(i < 6 && r.coin() ? "mk" : names[j], { r.range(0, 999), r.range(0, 999), r.range(0, 999), r.range(0, 999) });
			if(o.name == "mk" || o.name == "mkarr"){ o.a[1] = id; id += 7; }
			p.ops.push_back(o);
			if(r.chance(1, 8)) p.ops.push_back(Op("collect", { r.range(0, 2) }));
			if(r.chance(1, 14)) p.ops.push_back(Op("deep", { r.range(0, 999), r.range(0, 999) }));
			if(r.chance(1, 25)) p.ops.push_back(Op("settle"));
			if(c02 && r.chance(1, 60)) p.ops.push_back(Op("flood", { r.range(0, 999), r.range(0, 99999) }));
			if(c02 && r.chance(1, 25)) p.ops.push_back(Op("churn", { r.range(0, 999), r.range(0, 999), r.range(0, 999) }));
		}
		if(r.chance(1, 3)) p.cfg["gc_period"] = r.range(1, 20);
		else session::randomCollections(r, p);
	}
	void gen3(Rng &r, Plan &p, int){ genOps(r, p, false); }
	void exec3(const Plan &p){ gcsim::configure(p); Driver d(p, false); d.run(); }
	// C02: half of the runs are phases of the mutator, the other half repeat a whole program and compare what it leaves behind
	void gen2(Rng &r, Plan &p, int)
	{
		if(r.chance(1, 12)){ big::gen(r, p); p.cfg["id_kind"] = 3; return; }
		int k = int(r.below(10)); p.cfg["id_kind"] = k < 4 ? 0 : k < 7 ? 1 : 2;
		if(k < 4) genOps(r, p, true);
		else if(k < 7){ session::config(r, p); corpus::choose(r, p); }
		else { session::config(r, p); static const int kinds[] = { 1, 2, 3, 5, 0, 6 }; prog::makePlan(r, p, kinds[r.below(6)], [](mini::Profile &q){ q.tries = 0; q.risk = 0; q.fault = 0; }); }
	}
	void exec2(const Plan &p)
	{
		gcsim::configure(p); int kind = int(p.get("id_kind"));
		if(kind == 3){ big::exec(p, true); return; }
		if(kind == 0){ Driver d(p, true); d.run(); return; }
		gcsim::s.on = false; int ex = int(p.get("exec")), opt = int(p.get("opt")); std::string text, err; mini::Program *q = nullptr;
		if(kind == 1) text = corpus::pick(p).text; else { q = prog::fromPlan(p, [](mini::Profile &q){ q.tries = 0; q.risk = 0; q.fault = 0; }); text = q->text(); eng::hooks.onHost = mini::defaultHost; }
		if(text.find("std.dynamic") != std::string::npos) return;	// every run links more code
		if(!eng::build(text, ex, opt, err)){ if(q) prog::notBuilt("C02", err); return; }
		unsigned used[6]; gcsim::s.on = true;
		for(int i = 0; i < 6; i++)
		{
			bool ok = nullcRunFunction(NULL) != 0; if(ok && q && p.get("id_hf", 0)) nullcRunFunction("dumpall", 0);
			for(int k = 0; k < 3; k++) NULLC::CollectMemory();
			used[i] = NULLC::UsedMemory(); sim::log("used %u", used[i]);
		}
		if(used[3] != used[2] || used[5] > used[2])
			sim::fail("reclaim:repeated-run", sim::fmt("%s, optimization %d: the same program run again and again leaves more in use each time: %u, %u, %u, %u, %u, %u bytes", ex ? "x86" : "interpreter", opt, used[0], used[1], used[2], used[3], used[4], used[5]));
		sim::nontrivial(); sim::state(used[2]); arena::checkAll();
	}
	std::string desc2(const Plan &p){ int k = int(p.get("id_kind")); if(k == 0) return "script:\n" + scriptText(); if(k == 3) return big::describe(); if(k == 1) return corpus::describe(p); mini::Program *q = prog::fromPlan(p, [](mini::Profile &q){ q.tries = 0; q.risk = 0; q.fault = 0; }); return "program:\n" + q->text(); }
}
static RegisterProperty reg3({ "C03", "seeded histories of a script that builds and drops graphs of finalizable objects in every size class and in arrays, held by slots, closures, coroutines and active calls, with resurrecting, allocating and collecting finalizers, against a model of reachability and content", eng::warm, gen3, exec3, [](const Plan&){ return "script:\n" + scriptText(); }, 40000, 2000000, 25, 900, "a run with more than three finalizers or twelve operations; distinct by event hash",
	"compiler, optimizer, linker, both executors, collector, object allocator: real", "host allocator (deterministic arena), host callbacks, collection schedule (seam in the object allocator)" });
static RegisterProperty reg2({ "C02", "phases of allocation and dropping of every kind of object, allocation far beyond a tight limit with little live data, and whole programs repeated in one engine, with used memory compared before and after", eng::warm, gen2, exec2, desc2, 40000, 2000000, 30, 900, "a run of more than twelve operations or a repeated program; distinct by event hash",
	"compiler, optimizer, linker, both executors, collector, object allocator, standard modules: real", "host allocator (deterministic arena), host callbacks, memory limit, collection schedule (seam in the object allocator)" });
