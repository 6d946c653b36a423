// C13: code replaced while a program runs. A script asks the host at every call depth what to do next: call a function (directly, by pointer,
// as a method, from freshly evaluated code, through the host), override a function with another or with new text, evaluate text, link further
// code from the host, fail, collect. The host keeps a model of which implementation every function reaches and of every active call.
#include "eng.h"

namespace NULLC { void CollectMemory(); }
namespace
{
	const int NF = 12;	// 0-5 functions, 6-7 methods, 8 lambda with a captured variable, 9 raw host, 10 wrapped host, 11 function of a module
	struct Impl { int body; bool host = false; };
	struct Frame { int body, x; bool silent = false; };
	struct Mark { size_t depth; bool pending; };	// places where an error is handled
	struct World
	{
		const Plan *plan; size_t at = 0; int exec = 0, opt = 0;
		Impl impl[NF]; std::vector<Frame> frames; std::vector<size_t> tries;
		bool pending = false; int pendBody = 0, pendX = 0; bool pendHost = false, pendSilent = false; int arg = 0; std::string code;
		bool expectOut = false; std::vector<long long> rets; int nextBody = 100; int coCount = 0, cntCount = 0, gsum = 0, nodes = 0; bool inFail = false; int nested = 0; int links = 0; u64 replaced = 0;
		std::string lastHostError; bool dirtyTop = true; int freshNative = 0; std::string failText;
	};
	World *w;

	long long retOf(int body, int x){ return body * 1000 + (x & 255); }
	std::string modName(int f){ static const char *n[] = { "f0", "f1", "f2", "f3", "f4", "f5" }; return f < 6 ? n[f] : "?"; }

	[[noreturn]] void bad(const char *cls, const std::string &t){ std::string st; for(auto &f : w->frames) st += sim::fmt(" %d(%d)", f.body, f.x); sim::fail(std::string("dynamic:") + cls, t + "; active calls:" + st); }

	// what the next call of function f has to reach
	void expect(int f, int x){ w->pending = true; w->pendSilent = false; w->pendBody = w->impl[f].body; w->pendHost = w->impl[f].host; w->pendX = x; }

	// body of a function or an evaluated text: everything it holds is checked after the operations made inside of it
	std::string bodyText(int B, const char *x, int shape, bool ret)
	{
		std::string b = std::to_string(B), X = x, s;
		s += "enter(" + b + ", " + X + "); int a1 = " + X + " * 3 + " + b + "; ";
		if(shape & 1) s += "int[" + std::to_string(5 + B % 40) + "] arr; for(int i = 0; i < arr.size; i++) arr[i] = a1 + i; ";
		if(shape & 2) s += "Node ref n1 = mk(" + X + " + " + b + "), n2 = mk(" + X + "); Node ref[3] ns; ns[0] = n2; ns[2] = mk(7); ";
		if(shape & 4) s += "int q = a1 + 1; int ref(int) cl = auto(int z){ q += z; return q + a1; }; ";
		if(shape & 8) s += "double d = a1 * 0.5; long l = a1 * 10000000000l; char c = a1; char[] str = \"text" + b + "\"; ";
		if(shape & 32) s += "int ref(int) pl = auto(int z){ return z * 2 + " + b + "; }; int nested(int z){ int[7] na; na[3] = z; return na[3] * 3 + " + b + "; } ";
		if(shape & 64) s += "int[" + std::to_string(60 + B) + "] ga; ga[1] = a1; if(gensum(ga) != a1 + " + std::to_string(60 + B) + ") bad(11); ";
		if(shape & 16) s += "if(pre(" + std::to_string((B * 7 + 3) % 6) + ", " + X + " + 2)) out(f" + std::to_string((B * 7 + 3) % 6) + "(" + X + " + 2)); ";
		s += std::string(B == 90 ? "tickg(" : "tick(") + b + "); if(a1 != " + X + " * 3 + " + b + ") bad(1); ";
		if(shape & 1) s += "for(int i = 0; i < arr.size; i++) if(arr[i] != a1 + i) bad(2); ";
		if(shape & 2) s += "if(!okn(n1, " + X + " + " + b + ") || !okn(n2, " + X + ") || ns[0] != n2 || ns[1] != nullptr || !okn(ns[2], 7)) bad(3); ";
		if(shape & 4) s += "if(cl(5) != a1 + 6 + a1 || q != a1 + 6) bad(4); ";
		if(shape & 8) s += "if(d != a1 * 0.5 || l != a1 * 10000000000l || c != char(a1) || str != \"text" + b + "\") bad(5); ";
		if(shape & 32) s += "if(pl(a1) != a1 * 2 + " + b + " || nested(a1) != a1 * 3 + " + b + ") bad(12); ";
		if(shape & 64) s += "ga[1] = 8; if(gensum(ga) != " + std::to_string(68 + B) + " || ga[2] != 0) bad(13); ";
		s += "leave(" + b + "); ";
		if(ret) s += "return " + std::to_string(B * 1000) + " + (" + X + " & 255);";
		return s;
	}

	const char *module11 = "import dynhost; int f11(int x){ enter(11, x); int[9] arr; for(int i = 0; i < 9; i++) arr[i] = x + i; tickm(11); for(int i = 0; i < 9; i++) if(arr[i] != x + i) bad(6); leave(11); return 11000 + (x & 255); }";

	std::string script(const Plan &p)
	{
		std::string t = "import dynhost; import dynmod; import std.dynamic; import std.error;\n"
			"class Node{ int v; Node ref link; }\nint gensum(generic x){ return x.size + x[1]; }\nNode ref mk(int v){ Node ref n = new Node; n.v = v; n.link = new Node; n.link.v = v ^ 1234; return n; }\n"
			"bool okn(Node ref n, int v){ return n && n.v == v && n.link && n.link.v == (v ^ 1234); }\n"
			"int G; Node ref GN; int GC; void tick(int B); void tickg(int B); class Obj{ int k; Node ref n; }\nint ref(int)[12] fp;\n"
			"int ref() cnt;\n";
		for(int i = 0; i < 6; i++) t += sim::fmt("int f%d(int x){ ", i) + bodyText(i, "x", int(p.get(sim::fmt("shape%d", i).c_str())) & 15, true) + " }\n";
		for(int i = 6; i < 8; i++) t += sim::fmt("int Obj:m%d(int x){ if(k != 77 || !okn(n, 78)) bad(7); ", i) + bodyText(i, "x", int(p.get(sim::fmt("shape%d", i).c_str())) & 15, true) + " }\n";
		t += "int h9(int x); int h10(int x);\n";
		t = t.substr(0, t.rfind("int h9"));
		t += "Obj ref o = new Obj; o.k = 77; o.n = mk(78);\n"
			"coroutine int co(){ int i = 0; Node ref m = mk(5); while(1){ if(!okn(m, 5 + i)) bad(8); i++; m = mk(5 + i); yield i * 3; } return 0; }\n"
			"{ int c = 0; Node ref m = mk(9); cnt = auto(){ if(!okn(m, 9)) bad(9); c++; return c; }; }\n"
			"{ Node ref m = mk(10); fp[8] = auto(int x){ if(!okn(m, 10)) bad(10); " + bodyText(8, "x", int(p.get("shape8")) & 11, true) + " }; }\n"
			"for(int i = 0; i < 1; i++){ fp[0] = f0; fp[1] = f1; fp[2] = f2; fp[3] = f3; fp[4] = f4; fp[5] = f5; fp[6] = o.m6; fp[7] = o.m7; fp[9] = h9; fp[10] = h10; fp[11] = f11; }\n"
			"void call(int f, int x){ if(f == 0) out(f0(x)); else if(f == 1) out(f1(x)); else if(f == 2) out(f2(x)); else if(f == 3) out(f3(x)); else if(f == 4) out(f4(x)); else if(f == 5) out(f5(x)); else if(f == 6) out(o.m6(x)); else if(f == 7) out(o.m7(x)); else if(f == 8) out(fp[8](x)); else if(f == 9) out(h9(x)); else if(f == 10) out(h10(x)); else out(f11(x)); }\n"
			"void tick(int B)\n{\n\tint op; Node ref keep = mk(B);\n\twhile((op = next(B)) != 0)\n\t{\n\t\tint x = arg(0), y = arg(1);\n"
			"\t\tif(op == 1) call(x, y);\n"
			"\t\tif(op == 2) out(fp[x](y));\n"
			"\t\tif(op == 3) override(fp[x], fp[y]);\n"
			"\t\tif(op == 4) override(fp[x], code());\n"
			"\t\tif(op == 5) eval(code());\n"
			"\t\tif(op == 6){ auto r = try(<>{ eval(code()); return 1; }); done(r ? 1 : 0); }\n"
			"\t\tif(op == 7){ auto r = try(<>{ override(fp[x], code()); return 1; }); done(r ? 1 : 0); }\n"
			"\t\tif(op == 8){ auto r = try(<>{ out(fp[x](y)); return 1; }); done(r ? 1 : 0); }\n"
			"\t\tif(op == 9) hostop(x);\n"
			"\t\tif(op == 10) out(co());\n"
			"\t\tif(op == 11) out(cnt());\n"
			"\t\tif(op == 12){ int z; out(10 / z); }\n"
			"\t\tif(op == 13) out(hostcall(fp[x], y));\n"
			"\t\tif(op == 14){ G += x; Node ref n = mk(x); n.link.link = GN; GN = n; GC += 1; }\n"
			"\t\tif(op == 15){ int c = 0; Node ref n = GN; while(n){ if(n.v != (n.link.v ^ 1234)) bad(11); c++; n = n.link.link; } if(c != GC) bad(12); out(G); out(GC); }\n"
			"\t\tif(op == 16) override(fp[x], auto(int z){ " + bodyText(90, "z", 3, true) + " });\n"
			"\t\tif(!okn(keep, B)) bad(13);\n"
			"\t}\n}\n"
			"void tickf(int B){ tick(B); }\nvoid tickg(int B){ tick(B); }\nsettick(tickf);\nreturn 1;\n";
		return t;
	}

	// ---- host functions
	NULLCFuncPtr tickFn;
	void hSetTick(NULLCFuncPtr f){ tickFn = f; }
	void hTickm(int B){ nullcCallFunction(tickFn, B); }
	void hEnter(int B, int x)
	{
		sim::log("enter %d %d", B, x); sim::step();
		if(!w->pending) bad("unexpected-call", sim::fmt("implementation %d was called with %d, no call was made", B, x));
		if(w->pendHost || B != w->pendBody) bad("wrong-implementation", sim::fmt("a call reached implementation %d instead of %s %d", B, w->pendHost ? "host function" : "implementation", w->pendBody));
		if(x != w->pendX) bad("wrong-argument", sim::fmt("implementation %d was called with %d instead of %d", B, x, w->pendX));
		w->pending = false; w->frames.push_back({ B, x, w->pendSilent }); w->pendSilent = false;
	}
	void hLeave(int B){ if(w->frames.empty() || w->frames.back().body != B) bad("wrong-frame", sim::fmt("implementation %d returns", B)); long long r = retOf(B, w->frames.back().x); bool silent = w->frames.back().silent; w->frames.pop_back(); if(!silent) w->rets.push_back(r); }
	int hostF(int id, int x)
	{
		sim::log("host %d %d", id, x);
		if(!w->pending || !w->pendHost || w->pendBody != id) bad("wrong-implementation", sim::fmt("a call reached host function %d instead of %s %d", id, w->pendHost ? "host function" : "implementation", w->pendBody));
		if(x != w->pendX) bad("wrong-argument", sim::fmt("host function %d was called with %d instead of %d", id, x, w->pendX));
		w->pending = false; w->rets.push_back(retOf(id, x)); return int(retOf(id, x));
	}
	int h9(int x){ return hostF(9, x); }
	int h10(int x){ return hostF(10, x); }
	int hPre(int f, int x){ if(w->frames.size() > 7) return 0; expect(f, x); return 1; }
	void hOut(int v)
	{
		sim::log("out %d", v);
		if(w->rets.empty()) bad("unexpected-value", sim::fmt("a value %d was reported, no call was made", v));
		long long want = w->rets.back(); w->rets.pop_back();
		if(want != v) bad("wrong-result", sim::fmt("a call returned %d instead of %lld", v, want));
	}
	void hBad(int k){ bad("corrupted", sim::fmt("data of an active call, a closure, a coroutine or a global is not what it was (check %d)", k)); }
	int hArg(int k){ return k ? (w->arg >> 16) & 0xffff : w->arg & 0xffff; }
	std::string pad(int n){ std::string t = " /* "; while(int(t.size()) < n) t += "xyz "; return t + "*/ "; }
	NULLCArray hCode(){ NULLCArray a; char *m = (char*)nullcAllocate(unsigned(w->code.size() + 1)); memcpy(m, w->code.c_str(), w->code.size() + 1); a.ptr = m; a.len = unsigned(w->code.size() + 1); return a; }
	void hDone(int ok)
	{
		sim::log("done %d", ok); size_t d = w->tries.back(); w->tries.pop_back();
		if(w->inFail){ if(ok) bad("failure-lost", "an operation that has to fail did not"); w->inFail = false; while(w->frames.size() > d) w->frames.pop_back(); w->rets.clear(); w->pending = false; sim::probe("failure_caught"); }
		else if(!ok) bad("unexpected-error", std::string("an operation that has to work failed: ") + nullcGetLastError());
	}
	// links one more function from the host, or a text that can't be linked
	void link(int kind, int target, int shape)
	{
		int B = w->nextBody++; w->links++;
		std::string name = sim::fmt("nf%d", B), t;
		if(kind == 0) t = "import __last; int " + name + "(int x){ " + bodyText(B, "x", shape, true) + " }";
		if(kind == 1) t = "import __last; int " + name + "(int x){ return unknown_name; }";
		if(kind == 2) t = sim::fmt("int unrelated%d(int x){ return x; } int mk(int x){ return x; } int f%d(int x){ return 1; }", B, target % 6);	// redefinition
		if(!nullcCompile(t.c_str())){ if(kind != 1) bad("compile", nullcGetLastError() + std::string(" in ") + t); sim::probe("link_text_does_not_compile"); return; }
		char *bc = nullptr; nullcGetBytecodeNoCache(&bc); bool ok = nullcLinkCode(bc) != 0; delete[] bc;
		if(ok != (kind == 0)) bad("link", sim::fmt("linking (%d) gives %d: %s", kind, ok, nullcGetLastError()));
		if(!ok){ sim::fault("failed_link"); return; }
		sim::probe(w->frames.empty() ? "link_between_calls" : "link_during_calls");
		NULLCFuncPtr f; if(!nullcGetFunction(name.c_str(), &f) || !nullcSetFunction(modName(target % 6).c_str(), f)) bad("redirect", nullcGetLastError());
		w->impl[target % 6] = Impl{ B }; w->replaced++;
	}
	const Op* take(){ return w->at < w->plan->ops.size() ? &w->plan->ops[w->at++] : nullptr; }
	int pickDest(long long v){ return int(v % NF); }
	int hNext(int B)
	{
		sim::step();
		if(w->frames.empty() || w->frames.back().body != B) bad("wrong-frame", sim::fmt("implementation %d asks for an operation", B));
		if(!w->rets.empty()) bad("lost-value", "a call returned without its result");
		if(w->pending) bad("lost-call", sim::fmt("implementation %d was not reached", w->pendBody));
		const Op *o = take(); if(!o) return 0;
		size_t depth = w->frames.size(); int f = pickDest(o->arg(0)), g = pickDest(o->arg(1)), x = int(o->arg(2)) & 1023, shape = int(o->arg(3)) & 123; const std::string &n = o->name;
		if(n == "ret") return 0;
		sim::log("op %s %d %d %d %d", n.c_str(), f, g, x, shape);
		auto replace = [&](int f){ int B = w->nextBody++; w->code = bodyText(B, "arg0", shape, true); if(o->arg(4) % 5 == 0) w->code = pad(int(o->arg(4) * 97 % 5000)) + w->code; w->impl[f] = Impl{ B }; w->replaced++; sim::probe("override_with_text"); for(auto &q : w->frames) if(q.body == f) { sim::probe("override_of_active_function"); break; } };
		auto evalOk = [&]{ int B = w->nextBody++; w->code = bodyText(B, "0", shape, false); if(o->arg(4) % 5 == 0) w->code = pad(int(o->arg(4) * 97 % 5000)) + w->code; w->pending = true; w->pendHost = false; w->pendBody = B; w->pendX = 0; w->pendSilent = true; sim::probe("eval"); };
		auto evalBad = [&]{ static const char *texts[] = { "int a = ; ", "unknown(); ", "return missing; ", "\" ", "int[3] q; f0(1, 2, 3); ", "} ", "class { }", "" }; int k = int(o->arg(4) % 8); if(k < 7){ w->code = texts[k]; sim::fault("text_that_does_not_compile"); } else { int B = w->nextBody++; w->code = sim::fmt("enter(%d, 0); int[7] r; r[arg(0) + 7] = 1; leave(%d);", B, B); w->pending = true; w->pendHost = false; w->pendBody = B; w->pendX = 0; w->pendSilent = true; sim::fault("text_that_fails"); } w->inFail = true; };
		if(n == "call" || n == "callptr" || n == "hostcall" || n == "trycall")
		{
			if(depth > 7 || (n == "hostcall" && w->nested > 2)) return hNext(B);
			expect(f, x); w->arg = f | (x << 16); if(n == "call") return 1; if(n == "callptr") return 2; if(n == "hostcall") return 13;
			w->tries.push_back(depth); return 8;
		}
		if(n == "over")
		{
			// methods take methods; nothing that needs a context is given to a function without it
			bool md = f == 6 || f == 7; if(!md && (g == 6 || g == 7 || g == 8)) g = g - 6; if(md && g == 8) g = 6;
			if(md && w->impl[g].body == 8 && !w->impl[g].host) return hNext(B);
			w->arg = f | (g << 16); if(!md) { int b = w->impl[g].body; bool ctx = !w->impl[g].host && b >= 6 && b <= 8; if(ctx) return hNext(B); }
			for(auto &q : w->frames) if(q.body == w->impl[f].body) { sim::probe("override_of_active_function"); break; }
			w->impl[f] = w->impl[g]; w->replaced++; sim::probe("override_with_function"); return 3;
		}
		if(n == "lambda"){ w->arg = f; w->impl[f] = Impl{ 90 }; w->replaced++; return 16; }
		if(n == "code"){ w->arg = f; replace(f); return 4; }
		if(n == "eval"){ if(depth > 7) return hNext(B); evalOk(); return 5; }
		if(n == "tryeval"){ if(depth > 7) return hNext(B); w->tries.push_back(depth); w->arg = 0; if(o->arg(5) & 1) evalBad(); else evalOk(); return 6; }
		if(n == "trycode"){ w->tries.push_back(depth); w->arg = f; if(o->arg(5) & 1){ static const char *texts[] = { "return ", "return arg9;", "int x = \"a\"; return x;", "}" }; w->code = texts[o->arg(4) % 4]; w->inFail = true; sim::fault("text_that_does_not_compile"); } else replace(f); return 7; }
		if(n == "evalbad"){ evalBad(); w->arg = 0; return 5; }
		if(n == "link"){ w->arg = int(w->at - 1); return 9; }
		if(n == "co"){ w->rets.push_back(++w->coCount * 3); return 10; }
		if(n == "cnt"){ w->rets.push_back(++w->cntCount); return 11; }
		if(n == "fail"){ w->inFail = true; sim::fault("runtime_error"); return 12; }
		if(n == "node"){ w->arg = x; w->gsum += x; w->nodes++; return 14; }
		if(n == "walk"){ w->rets.push_back(w->nodes); w->rets.push_back(w->gsum); return 15; }
		if(n == "collect"){ NULLC::CollectMemory(); sim::fault("collection"); return hNext(B); }
		return hNext(B);
	}
	void hHostop(int at){ const Op &o = w->plan->ops[at]; link(int(o.arg(4) % 5 == 0 ? 1 + o.arg(5) % 2 : 0), int(o.arg(0)), int(o.arg(3)) & (w->frames.empty() ? 31 : 27)); }
	int hHostcall(NULLCFuncPtr f, int x){ w->nested++; bool ok = nullcCallFunction(f, x) != 0; w->nested--; if(!ok) return -1; return nullcGetResultInt(); }

	void warm()
	{
		eng::warm();
		nullcLoadModuleBySource("dynhost", "void enter(int b, x); void leave(int b); int next(int b); int arg(int k); char[] code(); void out(int v); void bad(int k); void done(int ok); void hostop(int at); int hostcall(int ref(int) f, int x); int pre(int f, x); int h9(int x); int h10(int x); void tickm(int b); void settick(void ref(int) f);");
		nullcBindModuleFunctionHelper("dynhost", hEnter, "enter", 0); nullcBindModuleFunctionHelper("dynhost", hLeave, "leave", 0); nullcBindModuleFunctionHelper("dynhost", hNext, "next", 0); nullcBindModuleFunctionHelper("dynhost", hArg, "arg", 0);
		nullcBindModuleFunctionHelper("dynhost", hCode, "code", 0); nullcBindModuleFunctionHelper("dynhost", hOut, "out", 0); nullcBindModuleFunctionHelper("dynhost", hBad, "bad", 0); nullcBindModuleFunctionHelper("dynhost", hDone, "done", 0);
		nullcBindModuleFunctionHelper("dynhost", hHostop, "hostop", 0); nullcBindModuleFunctionHelper("dynhost", hHostcall, "hostcall", 0); nullcBindModuleFunctionHelper("dynhost", hPre, "pre", 0);
		nullcBindModuleFunction("dynhost", (void(*)())h9, "h9", 0); nullcBindModuleFunctionHelper("dynhost", h10, "h10", 0); nullcBindModuleFunctionHelper("dynhost", hTickm, "tickm", 0); nullcBindModuleFunctionHelper("dynhost", hSetTick, "settick", 0);
		nullcClean();
		if(!nullcLoadModuleBySource("dynmod", module11)){ fprintf(stderr, "dynmod: %s\n", nullcGetLastError()); exit(3); }
		nullcClean();
	}
	void gen(Rng &r, Plan &p, int)
	{
		p.cfg["exec"] = r.below(2); p.cfg["opt"] = r.below(3);
		for(int i = 0; i < 9; i++) p.cfg[sim::fmt("shape%d", i)] = r.below(16);
		switch(r.below(4)){ case 0: p.cfg["gc_period"] = 1; break; case 1: p.cfg["gc_period"] = r.range(2, 9); break; case 2: p.cfg["gc_period"] = r.range(10, 60); break; default: break; }
		p.cfg["gc_offset"] = r.below(40);
		static const char *names[] = { "call", "call", "call", "callptr", "callptr", "callptr", "hostcall", "trycall", "over", "over", "lambda", "code", "code", "eval", "eval", "tryeval", "trycode", "evalbad", "link", "co", "cnt", "fail", "node", "walk", "collect", "ret", "ret", "ret", "ret" };
		bool fails = r.coin(); int n = r.range(5, 70);
		for(int i = 0; i < n; i++)
		{
			std::string nm = names[r.below(sizeof(names) / sizeof(names[0]))]; if(!fails && (nm == "fail" || nm == "evalbad")) nm = "call"; if((nm == "fail" || nm == "evalbad") && r.coin()) nm = "code";
			p.ops.push_back(Op(nm, { r.below(NF), r.below(NF), r.below(1024), r.below(128), r.below(60), r.below(8) }));
		}
	}
	void exec(const Plan &plan)
	{
		World world; w = &world; w->plan = &plan; w->exec = int(plan.get("exec")); w->opt = int(plan.get("opt"));
		for(int i = 0; i < NF; i++){ w->impl[i].body = i; w->impl[i].host = i == 9 || i == 10; }
		gcsim::reset(); gcsim::s.on = false; std::string err, text = script(plan);
		if(!eng::build(text, w->exec, w->opt, err)) sim::fail("dynamic:does-not-compile", err);
		gcsim::s.period = int(plan.get("gc_period")); gcsim::s.offset = int(plan.get("gc_offset")); gcsim::s.on = true; gcsim::s.maxCollections = 4000;
		{ eng::Result r = eng::runMain(); if(!r.ok) sim::fail("dynamic:setup", r.error); }
		u64 calls = 0;
		while(const Op *o = take())
		{
			if(o->name == "collect"){ NULLC::CollectMemory(); sim::fault("collection"); continue; }
			if(o->name == "link"){ gcsim::s.on = false; hHostop(int(w->at - 1)); gcsim::s.on = true; continue; }
			int f = int(o->arg(0) % 6), x = int(o->arg(2)) & 1023; expect(f, x); calls++;
			bool ok = nullcRunFunction(modName(f).c_str(), x) != 0;
			if(ok)
			{
				if(w->inFail) bad("failure-lost", "a run that has to fail did not");
				if(w->pending || !w->frames.empty() || w->rets.size() != 1) bad("lost-call", "the call did not reach what it had to");
				if(nullcGetResultInt() != w->rets.back()) bad("wrong-result", sim::fmt("a call from the host returned %d instead of %lld", nullcGetResultInt(), w->rets.back()));
			}
			else
			{
				if(!w->inFail) bad("unexpected-error", nullcGetLastError());
				sim::probe("failure_reported_to_host"); w->inFail = false; w->frames.clear(); w->tries.clear(); w->pending = false; w->nested = 0;
			}
			w->rets.clear(); u64 h = 0; for(auto &i : w->impl) h = h * 131 + u64(i.body); sim::state(mix64(h) ^ w->at);
		}
		if(calls && w->replaced) sim::nontrivial();
		if(gcsim::s.collections) sim::fault("forced_collection", gcsim::s.collections);
		arena::checkAll();
	}
	std::string describe(const Plan &plan){ return "script:\n" + script(plan); }
}
static RegisterProperty reg({ "C13", "histories of overrides, evaluations, links and redirections made at every call depth, with failing texts, runtime errors and collections, against a model of what every call reaches", warm, gen, exec, describe, 12000, 400000, 40, 800, "a run is non-trivial when functions were replaced and called; distinct by implementation table", "compiler, linker, both executors, collector, std.dynamic, std.error", "host program (drives every step), memory below the engine allocator" });
