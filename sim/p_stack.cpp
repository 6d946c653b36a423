// C22: recursion of seeded shapes, frames and stack sizes driven to the limits of every stack, with errors at the bottom.
#include "eng.h"

namespace
{
	enum Frame { F_INT, F_DBL, F_ARR, F_HEAP, F_ARG, F_RET, F_COUNT };
	enum Box { B_FN, B_METHOD, B_VIRTUAL, B_INNER, B_CORO, B_OPER, B_COUNT };
	enum Call { C_DIRECT, C_PTR, C_CLOSURE, C_HOST, C_RAW, C_HOSTTRY, C_TRY, C_COUNT };
	struct Part { int frame, n, box, call; };
	struct Shape { std::vector<Part> parts; bool catches = false, heap = false; };
	struct Prog { std::vector<Shape> shapes; std::string text; };
	std::vector<int> caught; bool recording = false;

	void stkCaught(int d){ caught.push_back(d); }
	int stkTry(NULLCFuncPtr f, int x)
	{
		if(nullcCallFunction(f, x)) return nullcGetResultInt();
		nullcClearError(); caught.push_back(x + 1); sim::fault("host_clears_error");
		return 1000;
	}
	void stkThrow(){ sim::fault("host_throws"); nullcThrowError("boom"); }
	void stkEvent(int){ sim::step(); }

	void warm()
	{
		eng::warm();
		if(!nullcLoadModuleBySource("stk", "void stk_caught(int d); int stk_try(int ref(int) f, int x); void stk_throw(); void stk_event(int d);")){ fprintf(stderr, "stk: %s\n", nullcGetLastError()); exit(3); }
		nullcBindModuleFunctionHelper("stk", stkCaught, "stk_caught", 0);
		nullcBindModuleFunctionHelper("stk", stkTry, "stk_try", 0);
		nullcBindModuleFunctionHelper("stk", stkThrow, "stk_throw", 0);
		nullcBindModuleFunctionHelper("stk", stkEvent, "stk_event", 0);
	}

	Part makePart(Rng &r)
	{
		Part p; p.frame = r.below(F_COUNT); p.box = r.chance(2, 5) ? B_FN : r.below(B_COUNT); p.call = r.chance(2, 5) ? r.below(2) : r.below(C_COUNT);
		static const int ints[] = { 1, 2, 4, 9, 20, 60, 120 }, arrs[] = { 4, 10, 33, 250, 1020, 1024, 1030, 2047, 5000, 15000 };
		p.n = p.frame <= F_DBL ? ints[r.below(7)] : arrs[r.below(10)];
		return p;
	}
	int contribution(const Part &p, int d)
	{
		unsigned u = unsigned(d), s = 0;
		switch(p.frame)
		{
		case F_INT: for(int i = 0; i < p.n; i++) s += u * 3 + unsigned(i); return int(s);
		case F_DBL: return int(u * unsigned(p.n));
		case F_ARR: return int(u * 3 + 3);
		case F_HEAP: return int(u + 5);
		case F_ARG: return int(u * 2);
		case F_RET: return int(u);
		}
		return 0;
	}
	std::string callText(const Part &p, const std::string &next)
	{
		switch(p.call)
		{
		case C_DIRECT: return "r = " + next + "(d - 1);";
		case C_PTR: return "int ref(int) g = " + next + "; r = g(d - 1);";
		case C_CLOSURE: return "int kk = d; int g(int x){ return " + next + "(x) + kk; } r = g(d - 1) - d;";
		case C_HOST: return "r = hostcall(" + next + ", d - 1);";
		case C_RAW: return "r = rawcall(" + next + ", d - 1);";
		case C_HOSTTRY: return "r = stk_try(" + next + ", d - 1);";
		case C_TRY: return "auto t = try(<>{ r = " + next + "(d - 1); return 1; }); if(!t){ stk_caught(d); r = 1000; }";
		}
		return "";
	}
	const char *leafText = "if(d <= 0){ if(leafKind == 1) return 5 / zero; if(leafKind == 2) return *nullp; if(leafKind == 3) return garr[gidx]; if(leafKind == 4){ garr = new int[50]; GC.CollectMemory(); return 7; } if(leafKind == 5) stk_event(d); if(leafKind == 6) stk_throw(); return 7; }";
	std::string partText(const Part &p, const std::string &name, const std::string &next)
	{
		std::string pre, fill, sum, call = callText(p, next), c = "B" + std::to_string(p.n);
		char b[200];
		switch(p.frame)
		{
		case F_INT: for(int i = 0; i < p.n; i++){ sprintf(b, "int ivar%d = d * 3 + %d; ", i, i); fill += b; sprintf(b, " + ivar%d", i); sum += b; } break;
		case F_DBL: for(int i = 0; i < p.n; i++){ sprintf(b, "double dvar%d = d * 0.5; ", i); fill += b; sprintf(b, " + int(dvar%d * 2.0)", i); sum += b; } break;
		case F_ARR: sprintf(b, "int[%d] a; a[0] = d; a[%d] = d + 1; a[%d] = d + 2; ", p.n, p.n / 2, p.n - 1); fill = b; sprintf(b, " + a[0] + a[%d] + a[%d]", p.n / 2, p.n - 1); sum = b; break;
		case F_HEAP: fill = "int ref hp = new int; *hp = d + 5; "; sum = " + *hp"; break;
		case F_ARG:
			sprintf(b, " return r + c.b[0] + c.b[%d]; }\n", p.n - 1);
			pre = "int " + name + "_h(" + c + " c, int d){ int r = 0; " + call + b;
			sprintf(b, "c.b[0] = d; c.b[%d] = d; ", p.n - 1); fill = c + " c; " + b; call = "r = " + name + "_h(c, d);"; break;
		case F_RET:
			sprintf(b, " c.b[0] = r; c.b[%d] = d; return c; }\n", p.n - 1);
			pre = c + " " + name + "_g(int d){ " + c + " c; int r = 0; " + call + b;
			call = c + " q = " + name + "_g(d); r = q.b[0];"; sprintf(b, " + q.b[%d]", p.n - 1); sum = b; break;
		}
		std::string body = std::string(leafText) + " int r = 0; " + fill + call;
		std::string ret = " return r" + sum + ";";
		switch(p.box)
		{
		case B_FN: return pre + "int " + name + "(int d){ " + body + ret + " }\n";
		case B_METHOD: return pre + "class M_" + name + "{ int k; int m(int d){ " + body + ret + " } }\nM_" + name + " o_" + name + "; int " + name + "(int d){ return o_" + name + ".m(d); }\n";
		case B_VIRTUAL: return pre + "class A_" + name + " extendable{ int k; int m(int d){ return -1; } }\nclass V_" + name + " : A_" + name + "{ int z; int m(int d){ " + body + ret + " } }\nA_" + name + " ref o_" + name + " = new V_" + name + "(); int " + name + "(int d){ return o_" + name + ".m(d); }\n";
		case B_INNER: return pre + "int " + name + "(int e){ int cap = e; int inner(int d){ " + body + " r += cap - e;" + ret + " } return inner(e); }\n";
		case B_CORO: return pre + "int " + name + "(int e){ coroutine int co(int d){ " + body + " yield r" + sum + "; return -1; } return co(e); }\n";
		case B_OPER: return pre + "class W_" + name + "{ int k; }\nint operator%(W_" + name + " w, int d){ " + body + ret + " }\nint " + name + "(int d){ W_" + name + " w; return w % d; }\n";
		}
		return "";
	}
	Prog program(const Plan &plan)
	{
		Prog p; Rng r(u64(plan.get("id_prog")));
		int ns = int(plan.get("id_shapes", 2)); std::map<int, bool> classes; std::string protos, bodies;
		for(int k = 0; k < ns; k++)
		{
			Shape s; int m = r.chance(1, 2) ? 1 : r.range(2, 4);
			for(int j = 0; j < m; j++){ s.parts.push_back(makePart(r)); const Part &q = s.parts.back(); if(q.call >= C_HOSTTRY) s.catches = true; if(q.frame >= F_ARG) classes[q.n] = true; }
			for(int j = 0; j < m; j++){ std::string n = sim::fmt("s%d_%d", k, j); protos += "int " + n + "(int d);\n"; bodies += partText(s.parts[size_t(j)], n, sim::fmt("s%d_%d", k, (j + 1) % m)); }
			bodies += sim::fmt("int e%d(int d){ return s%d_0(d); }\n", k, k);
			bodies += sim::fmt("int storm%d(int n, int d, int deep, int viaHost){ int c = 0, mark = d * 7 + n; for(int i = 0; i < n; i++){ if(viaHost){ if(stk_try(e%d, d) == 1000) c++; }else{ auto t = try(<>{ return e%d(d); }); if(!t) c++; } if(mark != d * 7 + n) return -1; } stormCount = c; leafKind = 0; return e%d(deep); }\n", k, k, k, k);
			p.shapes.push_back(s);
		}
		p.text = "import sim; import stk; import std.gc; import std.error;\nint stormCount = -1, leafKind = 0, zero = 0, gidx = 99; int ref nullp; int[] garr = new int[3];\n";
		for(auto &c : classes) p.text += sim::fmt("class B%d{ int[%d] b; }\n", c.first, c.first);
		p.text += protos + bodies + "return 1;\n";
		return p;
	}
	// value of shape s called with depth D when the level "from" got the result r from below
	int value(const Shape &s, int D, int from, int r)
	{
		unsigned v = unsigned(r);
		for(int d = from; d <= D; d++) v += unsigned(contribution(s.parts[size_t(D - d) % s.parts.size()], d));
		return int(v);
	}
	const char *leafError[] = { nullptr, "integer division by zero", "null pointer access", "array index out of bounds", nullptr, nullptr, "boom" };
	const long long sizes[] = { 0, 4096, 10000, 16384, 65536, 100000, 262144, 1 << 20, 3000000, 4 << 20 };

	void gen(Rng &r, Plan &p, int)
	{
		p.cfg["id_prog"] = (long long)(r.next() >> 2); p.cfg["id_shapes"] = r.range(1, 3); p.cfg["exec"] = r.below(2); p.cfg["opt"] = r.below(3);
		p.cfg["size"] = r.chance(1, 2) ? 0 : r.below(10);
		if(r.chance(1, 3)) p.cfg["gc_period"] = r.range(1, 200);
		int n = r.range(4, 9);
		for(int i = 0; i < n; i++)
		{
			long long s = r.below(4), leaf = r.chance(1, 2) ? 0 : r.below(7);
			switch(r.below(10))
			{
			case 0: case 1: p.ops.push_back(Op("call", { s, leaf, r.below(r.coin() ? 6 : 60) })); break;
			case 2: case 3: p.ops.push_back(Op("probe", { s })); break;
			case 4: case 5: case 6: p.ops.push_back(Op("edge", { s, leaf, r.range(-4, 2) })); break;
			case 7: p.ops.push_back(Op("unbounded", { s, leaf })); break;
			case 8: if(r.coin()) p.ops.push_back(Op("unbounded", { s, leaf })); else p.ops.push_back(Op("storm", { s, leaf, r.below(12), r.coin(), r.range(2, 5) })); break;
			default: p.ops.push_back(Op(r.coin() ? "main" : "resize", { r.below(10) })); break;
			}
		}
		p.ops.push_back(Op("call", { r.below(4), 0, r.below(8) }));
	}

	struct World
	{
		const Plan &plan; Prog p; int exec, opt; std::map<int, int> limit; bool usable = false;
		World(const Plan &pl): plan(pl), p(program(pl)), exec(int(pl.get("exec"))), opt(int(pl.get("opt"))) {}
		std::string who(){ return sim::fmt("%s, optimization %d", exec ? "x86" : "interpreter", opt); }
		void build(long long size)
		{
			limit.clear(); std::string err; nullcClean(); nullcSetExecutor(exec ? NULLC_X86 : NULLC_REG_VM);
			if(size && !nullcSetExecutorStackSize(unsigned(size))) sim::fail("stack:size-rejected", who() + ": nullcSetExecutorStackSize failed without a program: " + nullcGetLastError());
			if(!eng::build(p.text, exec, opt, err)) sim::fail("stack:not-built", err + "\n" + p.text);
			main();
		}
		void main()
		{
			usable = nullcRunFunction(NULL);
			if(!usable && !strstr(nullcGetLastError(), "overflow")) sim::fail("stack:main", who() + ": " + nullcGetLastError());
			if(!usable) sim::probe("globals_do_not_fit");
		}
		// 1 correct, 0 overflow, 2 the expected error of the leaf
		int call(int k, int leaf, int D)
		{
			const Shape &s = p.shapes[size_t(k)]; nullcSetGlobal("leafKind", &leaf); caught.clear();
			sim::log("call %d leaf %d depth %d", k, leaf, D); sim::step();
			bool ok = nullcRunFunction(sim::fmt("e%d", k).c_str(), D);
			if(ok)
			{
				int got = nullcGetResultInt(), want;
				if(!caught.empty()){ int c = caught.back(); if(c < 1 || c > D) sim::failf("stack:result", "%s: an error was caught at depth %d of %d", who().c_str(), c, D); want = value(s, D, c, 1000); sim::probe("overflow_or_error_caught_inside"); }
				else { if(leafError[leaf]) sim::failf("stack:error-lost", "%s: shape %d, depth %d: the call succeeded although its innermost call must fail with: %s", who().c_str(), k, D, leafError[leaf]); want = value(s, D, 1, 7); }
				if(got != want) sim::failf("stack:result", "%s: shape %d, depth %d, leaf %d: result %d, expected %d", who().c_str(), k, D, leaf, got, want);
				sim::log("ok %d", got); return 1;
			}
			std::string e = nullcGetLastError(), kind = eng::errorKind(e); sim::log("error %s", kind.c_str()); sim::fault("error_reported");
			// an error caught at the innermost level can be followed by an overflow of the handler
			if(kind.find("overflow") != std::string::npos){ sim::probe(("limit: " + kind).c_str()); sim::nontrivial(); return 0; }
			if(leafError[leaf] && kind.find(leafError[leaf]) != std::string::npos && (caught.empty() || true)) return 2;
			sim::failf("stack:wrong-error", "%s: shape %d, depth %d, leaf %d: error '%s'", who().c_str(), k, D, leaf, kind.c_str());
		}
		// many errors caught one after the other by one function, then a deep call from there: nothing of the failed calls may remain on any stack
		void storm(int k, int leaf, int D, int viaHost, int times)
		{
			const Shape &s = p.shapes[size_t(k)]; if(s.catches) return;
			if(!limit.count(k)) probe(k);
			int top = limit[k], deep = top * 3 / 4 - 6; if(deep < 1) return;
			D = std::min(D * top / 16, deep / 2); int n = std::min(3000, times * top / (D + 1) + 3);
			nullcSetGlobal("leafKind", &leaf); int none = -1; nullcSetGlobal("stormCount", &none); sim::log("storm %d leaf %d depth %d times %d", k, leaf, D, n);
			bool ok = nullcRunFunction(sim::fmt("storm%d", k).c_str(), n, D, deep, viaHost); int count = *(int*)nullcGetGlobal("stormCount"), got = ok ? nullcGetResultInt() : 0, fails = leafError[leaf] ? n : 0; caught.clear();
			std::string where = sim::fmt("%s: shape %d: %d %s calls of depth %d that %s, then depth %d", who().c_str(), k, n, viaHost ? "host-guarded" : "guarded", D, fails ? "fail" : "succeed", deep);
			if(count != -1 && count != fails) sim::failf("stack:storm-errors", "%s: %d errors were caught, expected %d", where.c_str(), count, fails);
			if(!ok) sim::fail("stack:storm-leak", where + ": " + eng::errorKind(nullcGetLastError()));
			if(got != value(s, deep, 1, 7)) sim::failf("stack:result", "%s: result %d, expected %d", where.c_str(), got, value(s, deep, 1, 7));
			sim::fault("caught_errors", u64(fails)); sim::probe("many_caught_errors"); sim::nontrivial(); sim::step();
		}
		bool fits(int r){ return r != 0; }
		int probe(int k)
		{
			const Shape &s = p.shapes[size_t(k)]; if(s.catches) return -1;
			if(call(k, 0, 200000)) sim::failf("stack:unbounded", "%s: shape %d: recursion to depth 200000 did not exhaust anything", who().c_str(), k);
			int lo = -1, hi = 200000;
			while(hi - lo > 1){ int mid = lo < 0 ? std::min(8, hi - 1) : lo < hi / 4 ? std::min(lo * 2 + 1, hi - 1) : lo + (hi - lo) / 2; if(mid == lo) mid++; if(call(k, 0, mid)) lo = mid; else hi = mid; if(lo < 0 && hi <= 8){ // first bound failed: bisect below
				while(hi - lo > 1){ int m = lo + (hi - lo) / 2; if(call(k, 0, m)) lo = m; else hi = m; } } }
			auto it = limit.find(k);
			if(it != limit.end() && it->second != lo) sim::failf("stack:limit-changed", "%s: shape %d: the deepest recursion that fits was %d, now %d", who().c_str(), k, it->second, lo);
			limit[k] = lo; sim::state(u64(lo) * 8 + u64(exec)); return lo;
		}
	};
	void exec(const Plan &plan)
	{
		World w(plan); gcsim::configure(plan); gcsim::s.maxCollections = 200; eng::hooks.onHost = nullptr;
		w.build(sizes[plan.get("size") % 10]);
		for(auto &o : plan.ops)
		{
			int k = int(o.arg(0) % (long long)w.p.shapes.size()), leaf = int(o.arg(1) % 7);
			if(o.name == "main"){ w.main(); continue; }
			if(o.name == "resize"){ w.build(sizes[1 + o.arg(0) % 9]); continue; }
			if(!w.usable) continue;
			if(o.name == "call"){ int D = int(o.arg(2)); int r = w.call(k, leaf, D); auto it = w.limit.find(k); if(!r && it != w.limit.end() && D + 4 <= it->second) sim::failf("stack:limit-changed", "%s: shape %d: depth %d overflows, depth %d did not", w.who().c_str(), k, D, it->second); }
			else if(o.name == "probe") w.probe(k);
			else if(o.name == "storm") w.storm(k, leaf, int(o.arg(2)), int(o.arg(3)), int(o.arg(4)));
			else if(o.name == "edge"){ if(!w.limit.count(k)) w.probe(k); auto it = w.limit.find(k); int D = it == w.limit.end() ? 300 : it->second + int(o.arg(2)); if(D >= 0) w.call(k, leaf, D); }
			else if(o.name == "unbounded"){ int r = w.call(k, leaf, 500000); if(r == 1 && caught.empty()) sim::failf("stack:unbounded", "%s: shape %d: recursion to depth 500000 did not exhaust anything", w.who().c_str(), k); }
		}
		arena::checkAll();
	}
	std::string desc(const Plan &p){ return "program:\n" + program(p).text; }
}
static RegisterProperty r22({ "C22", "recursion through functions, methods, virtual calls, closures, coroutines, operators, host callbacks and error handlers with seeded frames and stack sizes, driven to and around the deepest level that fits, with failing operations, host errors and collections at the bottom", warm, gen, exec, desc, 20000, 1000000, 25, 900,
	"a run in which a stack was exhausted; distinct by event hash", "compiler, linker, both executors, signal handling, host calls: real", "host allocator" });
