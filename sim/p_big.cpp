// Heaps of many pages: thousands of objects of every size class held only through pointers into their middle, pages at seeded addresses.
#include "eng.h"
#include "session.h"
#include "big.h"

namespace NULLC { void CollectMemory(); }
namespace
{
	const int N = 9000;
	const int IW[] = { 1, 2, 3, 5, 6, 7, 13, 14, 15, 29, 30, 45, 61, 62, 80, 125, 126, 127, 200 }; const int nIW = int(sizeof(IW) / sizeof(IW[0]));
	const int CW[] = { 5, 8, 23, 24, 56, 120, 248, 503, 504 }; const int nCW = int(sizeof(CW) / sizeof(CW[0]));
	const int kKinds = nIW + nCW + 2;	// + large arrays, + list nodes
	std::string scriptText()
	{
		std::string t = sim::fmt("import sim;\nint ref[] slots = new int ref[%d]; char ref[] cslots = new char ref[%d];\nclass Node{ Node ref next; int v; long w; }\nNode ref[] heads = new Node ref[8]; int junkSum;\n", N, N);
		t += "int hsh(int a, b){ int x = a * 1103515245 + b * 12345 + 777; x = x ^ (x >> 13); x = x * 69069 + 1; return x & 0x7fffffff; }\n";
		for(int w : IW) t += sim::fmt("class K%d{ int[%d] f; } int ref mk%d(int v, m){ K%d ref x = new K%d; for(int i = 0; i < %d; i++) x.f[i] = v + i; return &x.f[m %% %d]; }\n", w, w, w, w, w, w, w);
		for(int w : CW) t += sim::fmt("class C%d{ char[%d] f; } char ref cmk%d(int v, m){ C%d ref x = new C%d; for(int i = 0; i < %d; i++) x.f[i] = char((v + i) & 63); return &x.f[m %% %d]; }\n", w, w, w, w, w, w, w);
		t += "int ref mkarr(int n, v, m){ int[] a = new int[n]; for(int i = m & 3; i < n; i += 4) a[i] = v + i; return &a[m]; }\n";
		t += "void junk(int k, h){ if(h & 1){ int ref x = new int; *x = h; junkSum += *x; } if(h & 2){ int[] a = new int[h % 40 + 1]; a[0] = h; junkSum += a[0]; } if((h & 60) == 60){ int[] a = new int[h % 400 + 100]; a[9] = h; junkSum += a[9]; } }\n";
		t += "void fill(int kind, from, n, seed){ int k = from; for(int i = 0; i < n; i++){ int h = hsh(k, seed); switch(kind){\n";
		for(int i = 0; i < nIW; i++) t += sim::fmt("case %d: slots[k] = mk%d(h & 0xffffff, h >> 8); cslots[k] = nullptr; break;\n", i, IW[i]);
		for(int i = 0; i < nCW; i++) t += sim::fmt("case %d: cslots[k] = cmk%d(h & 0xffffff, h >> 8); slots[k] = nullptr; break;\n", nIW + i, CW[i]);
		t += "default: slots[k] = nullptr; cslots[k] = nullptr; }\n if(seed & 1) junk(k, h); k++; if(k == slots.size) k = 0; } }\n";
		t += "void large(int k, n, v, m){ slots[k] = mkarr(n, v, m); cslots[k] = nullptr; }\n";
		t += "int get(int k){ if(slots[k] != nullptr) return *slots[k]; if(cslots[k] != nullptr) return *cslots[k]; return -1; }\n";
		t += "int check(int from, n){ int s = 1; for(int i = from; i < from + n; i++) s = s * 31 + get(i); return s; }\n";
		t += "void write(int from, n, v){ for(int i = from; i < from + n; i++){ if(slots[i] != nullptr) *slots[i] = v + i; if(cslots[i] != nullptr) *cslots[i] = char((v + i) & 63); } }\n";
		t += "void drop(int from, n, step){ for(int i = from; i < from + n; i += step){ slots[i] = nullptr; cslots[i] = nullptr; } }\n";
		t += "void chain(int c, n, v){ Node ref h = nullptr; for(int i = 0; i < n; i++){ Node ref x = new Node; x.next = h; x.v = v + i; x.w = (v + i) * 3l; h = x; if(!(i & 7)) junk(i, v + i); } heads[c] = h; }\n";
		t += "int walk(int c){ int s = 1; Node ref x = heads[c]; while(x){ s = s * 31 + x.v; if(x.w != x.v * 3l) s = s * 31 - 1; x = x.next; } return s; }\n";
		t += "void drain(){ for(int i = 0; i < slots.size; i++){ slots[i] = nullptr; cslots[i] = nullptr; } for(int i = 0; i < 8; i++) heads[i] = nullptr; }\n";
		t += "void none(int a, b, c, d){} return 0;\n";
		return t;
	}
	int hsh(int a, int b){ unsigned x = unsigned(a) * 1103515245u + unsigned(b) * 12345u + 777u; x = x ^ unsigned(int(x) >> 13); x = x * 69069u + 1; return int(x & 0x7fffffff); }
	struct Run
	{
		const Plan &plan; std::vector<int> val; std::vector<bool> ch; std::vector<std::pair<int, int>> chains; std::string where;
		Run(const Plan &p): plan(p), val(N, -1), ch(N, false), chains(8, { 0, 0 }) {}
		template<class... A> void call(const char *f, A... a){ if(!nullcRunFunction(f, a...)) sim::fail("heap:call-fails", where + f + ": " + eng::errorKind(nullcGetLastError())); }
		void check(int from, int n)
		{
			call("check", from, n); unsigned s = 1; for(int i = from; i < from + n; i++) s = s * 31 + unsigned(val[size_t(i)]);
			if(nullcGetResultInt() == int(s)) return;
			for(int i = from; i < from + n; i++){ call("get", i); int g = nullcGetResultInt(); if(g != val[size_t(i)]) sim::fail("heap:lost-object", where + sim::fmt("the object held by pointer %d has the value %d, expected %d", i, g, val[size_t(i)])); }
		}
		void walk(int c){ call("walk", c); unsigned s = 1; for(int i = chains[size_t(c)].first - 1; i >= 0; i--) s = s * 31 + unsigned(chains[size_t(c)].second + i); if(nullcGetResultInt() != int(s)) sim::fail("heap:lost-object", where + sim::fmt("list %d of %d nodes has changed", c, chains[size_t(c)].first)); }
		void collect(){ NULLC::CollectMemory(); sim::fault("host_collection"); }
		void step(const Op &o)
		{
			auto A = [&](size_t i, int m){ return int(((o.arg(i) % m) + m) % m); }; sim::step();
			sim::log("%s %lld %lld %lld %lld", o.name.c_str(), o.arg(0), o.arg(1), o.arg(2), o.arg(3));
			if(o.name == "fill")
			{
				int kind = A(0, nIW + nCW), from = A(1, N), n = 1 + A(2, 3500), seed = A(3, 100000); int w = kind < nIW ? IW[kind] : CW[kind - nIW]; if(w > 100) n = n / 4 + 1;
				call("fill", kind, from, n, seed);
				for(int i = 0; i < n; i++){ int k = (from + i) % N; int h = hsh(k, seed); int v = (h & 0xffffff) + (h >> 8) % w; val[size_t(k)] = kind < nIW ? v : v & 63; ch[size_t(k)] = kind >= nIW; }
			}
			else if(o.name == "large"){ int k = A(0, N), n = 200 + (A(1, 3) ? A(2, 3000) : A(2, 70000)), m = A(3, n), v = A(2, 99991); call("large", k, n, v, m); val[size_t(k)] = v + m; ch[size_t(k)] = false; sim::probe(n > 16400 ? "large_over_64k" : "large"); }
			else if(o.name == "drop"){ int from = A(0, N), n = std::min(N - from, 1 + A(1, 5000)), st = 1 + A(2, 4); call("drop", from, n, st); for(int i = from; i < from + n; i += st){ val[size_t(i)] = -1; ch[size_t(i)] = false; } }
			else if(o.name == "write"){ int from = A(0, N), n = std::min(N - from, 1 + A(1, 5000)), v = A(2, 10000); call("write", from, n, v); for(int i = from; i < from + n; i++) if(val[size_t(i)] != -1) val[size_t(i)] = ch[size_t(i)] ? (v + i) & 63 : v + i; }
			else if(o.name == "check"){ int from = A(0, N), n = std::min(N - from, 1 + A(1, N)); check(from, n); }
			else if(o.name == "chain"){ int c = A(0, 8), n = A(1, 6000), v = A(2, 10000); call("chain", c, n, v); chains[size_t(c)] = { n, v }; }
			else if(o.name == "walk") walk(A(0, 8));
			else if(o.name == "collect") collect();
		}
		void run(bool reclaim)
		{
			where = sim::fmt("%s, optimization %d: ", plan.get("exec") ? "x86" : "interpreter", int(plan.get("opt")));
			gcsim::configure(plan); gcsim::s.on = false; std::string err; arena::shufflePages(u64(plan.get("page_seed")));
			if(!eng::build(scriptText(), int(plan.get("exec")), int(plan.get("opt")), err)) sim::fail("heap:does-not-compile", err);
			if(!nullcRunFunction(NULL)) sim::fail("heap:main-fails", nullcGetLastError());
			call("drain"); call("none", 0, 0, 0, 0); collect(); collect(); unsigned base = NULLC::UsedMemory();
			gcsim::s.on = true;
			for(auto &o : plan.ops) step(o);
			collect(); check(0, N); for(int i = 0; i < 8; i++) walk(i);
			if(reclaim)
			{
				call("drain"); call("none", 0, 0, 0, 0); collect(); collect(); unsigned used = NULLC::UsedMemory();
				if(used != base) sim::fail("reclaim:memory-left", where + sim::fmt("%u bytes are in use after everything was dropped and collected, %u before", used, base));
			}
			sim::nontrivial(); sim::state(hashStr(std::to_string(NULLC::UsedMemory()))); arena::checkAll();
		}
	};
}
namespace big
{
	void gen(Rng &r, Plan &p)
	{
		session::config(r, p); p.cfg["id_big"] = 1; p.cfg["page_seed"] = r.chance(1, 4) ? 0 : 1 + (long long)(r.below(1000000));
		int n = r.range(4, 16), fav = int(r.below(nIW + nCW)); bool one = r.coin();
		for(int i = 0; i < n; i++)
		{
			static const char *names[] = { "fill", "fill", "fill", "large", "drop", "write", "chain", "check", "walk" };
			Op o(i == 0 ? "fill" : names[r.below(9)], { r.range(0, 99999), r.range(0, 99999), r.range(0, 99999), r.range(0, 99999) });
			if(o.name == "fill" && one && r.chance(2, 3)) o.a[0] = fav;
			p.ops.push_back(o);
			if(r.chance(1, 3)) p.ops.push_back(Op("collect"));
		}
		for(int i = r.range(0, 3); i > 0; i--) p.ops.push_back(Op("gc", { r.range(1, 12000) }));
	}
	void exec(const Plan &p, bool reclaim){ Run x(p); x.run(reclaim); }
	std::string describe(){ return "script:\n" + scriptText(); }
}
