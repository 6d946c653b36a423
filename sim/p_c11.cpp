// C11: histories over the module registry against a map; C20: the same and everything else an engine can go through, ended by termination.
#include "life.h"
#include "corpus.h"
#include "session.h"
#include <algorithm>
using namespace life;
namespace NULLC { void CollectMemory(); }
namespace
{
	const char *NAMES[] = { "m0", "m1", "m2", "pkg.m3", "pkg.m4", "deep.er.m5" }; const int NN = 6;
	struct Loaded { Mod m; int gen; std::map<std::string, int> depGen; };	// a module is usable while its imports are the ones it was compiled against
	struct World
	{
		const Plan &plan; std::map<std::string, Loaded> reg; int gen = 0; std::set<std::string> base; std::unique_ptr<Inst> linked; u64 builds = 0, fails = 0; int exec = 0, opt = 0; std::string linkedText;
		struct Saved { std::string name; Mod m; std::map<std::string, int> depGen; std::vector<char> bytes; }; std::vector<Saved> saved;
		explicit World(const Plan &p): plan(p) {}
		bool usable(const std::string &n){ auto i = reg.find(n); if(i == reg.end()) return false; for(auto &d : i->second.depGen){ auto j = reg.find(d.first); if(j == reg.end() || j->second.gen != d.second || !usable(d.first)) return false; } return true; }
		void close(const std::string &n, Registry &r){ r[n] = reg[n].m; for(auto &d : reg[n].m.deps) close(d, r); }
		std::vector<std::string> usableOf(u64 mask, int below){ std::vector<std::string> v; for(int i = 0; i < NN && i < below; i++) if(mask >> i & 1 && usable(NAMES[i])) v.push_back(NAMES[i]); return v; }
		std::map<std::string, int> gens(const std::vector<std::string> &v){ std::map<std::string, int> r; for(auto &d : v) r[d] = reg[d].gen; return r; }
		std::string where(){ return sim::fmt("%s, optimization %d: ", exec ? "x86" : "interpreter", opt); }
		void config(int e, int o){ exec = e; opt = o; nullcSetExecutor(e ? NULLC_X86 : NULLC_REG_VM); nullcSetOptimizationLevel(o); }
		// events of a call against the model
		void outcome(const char *what, const std::vector<std::string> &want, long long ret, bool fails, std::function<nullres()> fn)
		{
			std::vector<std::string> got; eng::hooks.onEvent = [&](const std::string &t){ got.push_back(t); };
			bool ok = fn() != 0; eng::hooks.onEvent = nullptr;
			for(size_t i = 0; i < want.size() || i < got.size(); i++) if(i >= want.size() || i >= got.size() || want[i] != got[i]) sim::fail("registry:output", where() + sim::fmt("%s: output %zu is %s, expected %s", what, i, i < got.size() ? got[i].c_str() : "missing", i < want.size() ? want[i].c_str() : "none"));
			if(ok == fails) sim::fail("registry:outcome", where() + what + (ok ? " succeeded, it has to fail" : std::string(" fails: ") + eng::errorKind(nullcGetLastError())));
			if(ok && nullcGetResultInt() != int(ret)) sim::fail("registry:result", where() + sim::fmt("%s: result %d, expected %lld", what, nullcGetResultInt(), ret));
			sim::step();
		}
		void enumCheck()
		{
			std::vector<std::string> v = enumerate(); std::set<std::string> s(v.begin(), v.end()), want = base;
			if(s.size() != v.size()) sim::fail("registry:listed-twice", "enumeration lists a module twice");
			for(auto &r : reg) want.insert(path(r.first));
			for(auto &n : want) if(!s.count(n)) sim::fail("registry:not-listed", "module " + n + " is loaded but not listed");
			for(auto &n : s) if(!want.count(n)) sim::fail("registry:unknown-listed", "module " + n + " is listed but was not loaded");
		}
		void load(int idx, int ver, u64 mask, bool binary)
		{
			std::string n = NAMES[idx]; Mod m; m.name = n; m.ver = ver; m.deps = usableOf(mask, idx); std::string t = modText(m); bool have = reg.count(n) != 0;
			(void)binary; bool ok = nullcLoadModuleBySource(n.c_str(), t.c_str()) != 0; sim::log("load %s %d: %d", n.c_str(), ver, ok);
			if(ok == have) sim::fail("registry:load", where() + "loading module " + n + (ok ? " succeeded although it is loaded" : std::string(" fails: ") + nullcGetLastError()));
			if(!ok){ std::string e = nullcGetLastError(); if(e != "ERROR: module already loaded") sim::fail("registry:load-error", where() + e); fails++; return; }
			Loaded l; l.m = m; l.gen = ++gen; l.depGen = gens(m.deps); reg[n] = l; sim::probe("module_loaded");
		}
		void save(int idx, int ver, u64 mask)
		{
			Saved s; s.name = NAMES[idx]; s.m.name = s.name; s.m.ver = ver; s.m.deps = usableOf(mask, idx); s.depGen = gens(s.m.deps); std::string t = modText(s.m);
			if(!nullcCompile(t.c_str())) sim::fail("registry:module-compile", where() + nullcGetLastError());
			char *b = nullptr; unsigned size = nullcGetBytecodeNoCache(&b); s.bytes.assign(b, b + size); delete[] b; saved.push_back(s); if(saved.size() > 6) saved.erase(saved.begin());
		}
		void loadBinary(u64 k)
		{
			if(saved.empty()) return; Saved &s = saved[size_t(k % saved.size())];
			for(auto &d : s.depGen){ if(!usable(d.first) || reg[d.first].gen != d.second) return; }
			bool have = reg.count(s.name) != 0, ok = nullcLoadModuleByBinary(s.name.c_str(), s.bytes.data()) != 0; sim::log("loadbin %s: %d", s.name.c_str(), ok);
			if(ok == have) sim::fail("registry:load-binary", where() + "loading bytecode of module " + s.name + (ok ? " succeeded although it is loaded" : std::string(" fails: ") + nullcGetLastError()));
			if(!ok){ fails++; return; }
			Loaded l; l.m = s.m; l.gen = ++gen; l.depGen = s.depGen; reg[s.name] = l; sim::probe("module_loaded_from_bytecode");
		}
		void badLoad(int idx, int kind)
		{
			std::string n = NAMES[idx], t; Mod m; m.name = n; m.ver = kind; t = modText(m);
			switch(kind % 5){ case 0: t = t.substr(0, t.size() / 2) + " @ "; break; case 1: t = "import no.such.module;\n" + t; break; case 2: t += "int broken(){ return undefined_thing; }"; break; case 3: for(int i = 0; i < NN; i++) if(!reg.count(NAMES[i])){ t = "import " + std::string(NAMES[i]) + ";\n" + t; break; } t += "int a = \"x\";"; break; default: t += "int a; int a;"; }
			if(nullcLoadModuleBySource(n.c_str(), t.c_str())) sim::fail("registry:bad-load", where() + "a broken module was loaded");
			fails++; sim::fault("failed_module_load");
		}
		void remove(int idx)
		{
			std::string n = NAMES[idx]; nullcRemoveModule(path(n).c_str()); if(reg.erase(n)) sim::probe("module_removed"); sim::log("remove %s", n.c_str());
		}
		bool build(u64 mask, int seed, bool any)
		{
			Prog p; p.seed = gcsim::s.period ? seed & ~1 : seed;	// (finalizers and a collection at the start of a repeated run: recorded finding of C03)
			for(int i = 0; i < NN; i++) if(mask >> i & 1 && (usable(NAMES[i]) || (any && !reg.count(NAMES[i])))) p.imports.push_back(NAMES[i]);
			bool can = true; for(auto &i : p.imports) if(!usable(i)) can = false;
			std::string t = progText(p), err; bool ok = nullcBuild(t.c_str()) != 0; if(!ok) err = nullcGetLastError(); sim::log("build %d %s: %d", seed, p.imports.empty() ? "" : p.imports[0].c_str(), ok);
			if(ok != can) sim::fail(ok ? "registry:missing-import-found" : "registry:build", where() + (ok ? "a program that imports a module which is not loaded was built" : "a program that imports loaded modules is rejected: " + err));
			if(!ok){ fails++; sim::fault("import_of_missing_module"); if(err.find("is not found") == std::string::npos && err.find("module import is not implemented") == std::string::npos && err.find("module") == std::string::npos) sim::fail("registry:import-error", where() + err); return false; }
			linked.reset(new Inst); linked->p = p; for(auto &i : p.imports) close(i, linked->mods); builds++; return true;
		}
		void run(){ if(!linked) return; long long ret; auto e = linked->run(ret); outcome("run", e, ret, false, []{ return nullcRunFunction(NULL); }); }
		void hf(int x){ if(!linked || !linked->ran) return; long long ret; bool f; auto e = linked->hf(x, ret, f); if(f) sim::fault("runtime_error"); outcome("call", e, ret, f, [&]{ return nullcRunFunction("hf", x); }); }
		void global(){ if(!linked || !linked->ran) return; int *p = (int*)nullcGetGlobal("pg"); if(!p || *p != linked->pg) sim::fail("registry:global", where() + sim::fmt("global variable of the linked program is %d, expected %d", p ? *p : -1, linked->pg)); }
		bool step(const Op &o)
		{
			auto A = [&](int i, int m){ return int(((o.arg(size_t(i)) % m) + m) % m); };
			const std::string &n = o.name; sim::step();
			if(n == "load") load(A(0, NN), A(1, 1000), u64(o.arg(2)), false);
			else if(n == "save") save(A(0, NN), A(1, 1000), u64(o.arg(2)));
			else if(n == "loadbin") loadBinary(u64(o.arg(0)));
			else if(n == "badload") badLoad(A(0, NN), A(1, 100));
			else if(n == "remove") remove(A(0, NN));
			else if(n == "enum") enumCheck();
			else if(n == "build") build(u64(o.arg(0)), A(1, 100000), o.arg(2) != 0);
			else if(n == "run") run();
			else if(n == "hf") hf(int(o.arg(0)));
			else if(n == "global") global();
			else if(n == "config"){ nullcClean(); linked.reset(); config(A(0, 2), A(1, 3)); }
			else return false;
			return true;
		}
	};
	Op randomOp(Rng &r)
	{
		int k = r.below(100);
		if(k < 24) return Op("load", { r.below(NN), r.below(1000), r.below(64) });
		if(k < 32) return Op("save", { r.below(NN), r.below(1000), r.below(64) });
		if(k < 40) return Op("loadbin", { r.below(20) });
		if(k < 46) return Op("badload", { r.below(NN), r.below(100) });
		if(k < 58) return Op("remove", { r.below(NN) });
		if(k < 63) return Op("enum");
		if(k < 78) return Op("build", { r.below(64), r.below(100000), r.chance(1, 5) });
		if(k < 86) return Op("run");
		if(k < 94) return Op("hf", { r.chance(1, 6) ? 13 : r.range(-50, 200) });
		return Op("global");
	}
	// ---- C11
	void gen11(Rng &r, Plan &p, int){ p.cfg["exec"] = r.below(2); p.cfg["opt"] = r.below(3); int n = r.range(10, 60); for(int i = 0; i < n; i++) p.ops.push_back(randomOp(r)); if(r.chance(1, 3)) p.cfg["gc_period"] = r.range(1, 20); }
	void exec11(const Plan &plan)
	{
		gcsim::configure(plan); World w(plan); w.config(int(plan.get("exec")), int(plan.get("opt")));
		auto v = enumerate(); w.base.insert(v.begin(), v.end());
		for(auto &o : plan.ops) w.step(o);
		w.enumCheck(); w.hf(5); w.global(); w.run(); w.hf(7);
		if(w.builds > 1) sim::nontrivial();
		sim::state(w.builds * 10000 + w.fails * 100 + w.reg.size());
		arena::checkAll();
	}
	std::string desc(const Plan &){ return ""; }
}
static RegisterProperty r11({ "C11", "seeded histories of loading modules from source and bytecode, removing, enumerating, failing loads, building programs against them and running those, against a map from name to module version and a model of every program", eng::warm, gen11, exec11, desc, 40000, 2000000, 25, 900, "a run with more than one program built; distinct by event hash",
	"compiler, module cache, linker, both executors, collector: real", "host allocator (deterministic arena), host callbacks" });

// ---------------------------------------------------------------- C20
namespace
{
	struct Streams { u64 opened = 0, closed = 0, written = 0; std::set<void*> live; } streams;
	bool failOpen = false;
	void* streamOpen(const char *name){ if(failOpen){ sim::fault("log_stream_open_failure"); return nullptr; } (void)name; void *p = (void*)(uintptr_t(0x1000) + ++streams.opened); streams.live.insert(p); return p; }
	void streamWrite(void *s, const char *d, unsigned n){ if(!streams.live.count(s)) sim::fail("streams:write-to-closed", "a log stream that is not open was written to"); streams.written += n; volatile char c = 0; for(unsigned i = 0; i < n; i += 64) c = c + d[i]; }
	void streamClose(void *s){ if(!streams.live.erase(s)) sim::fail("streams:closed-twice", "a log stream that is not open was closed"); streams.closed++; }
	void streamsCheck(){ if(!streams.live.empty()) sim::fail("streams:left-open", sim::fmt("%zu log streams are open after the operation", streams.live.size())); }

	Op randomOp20(Rng &r)
	{
		switch(r.below(20))
		{
		case 0: case 1: return Op("script", { r.below(100000), r.below(2) });
		case 2: return Op("logs", { r.below(4) });
		case 3: return Op("compile", { r.below(100000), r.below(4) });
		case 4: return Op("finalize");
		case 5: return Op("collect");
		case 6: return Op("clean");
		case 7: return Op("path", { r.below(4), r.below(2) });
		case 8: return Op("initAgain");
		case 9: return Op("limit", { r.range(1000, 4000000) });
		case 10: case 11: return Op("reinit", { r.below(3), r.below(2) });
		case 12: return Op("bind", { r.below(3) });
		case 13: return Op("config", { r.below(2), r.below(3) });
		case 14: return Op("stack", { r.range(1, 64) });
		default: return randomOp(r);
		}
	}
	void gen20(Rng &r, Plan &p, int){ p.cfg["exec"] = r.below(2); p.cfg["opt"] = r.below(3); p.cfg["full"] = r.chance(1, 3); int n = r.range(6, 40); for(int i = 0; i < n; i++) p.ops.push_back(randomOp20(r)); if(r.chance(1, 4)) p.cfg["gc_period"] = r.range(1, 20); }
	void bind0(){}
	struct Life
	{
		const Plan &plan; std::unique_ptr<World> w; bool full = false; bool stackChanged = false; std::vector<std::string> fresh[2]; u64 cycles = 0; bool logs = false;
		explicit Life(const Plan &p): plan(p) {}
		void init(bool f)
		{
			bool on = gcsim::s.on; gcsim::s.on = false; full = f; logs = false; failOpen = false;
			if(f) eng::initEngine();
			else { if(!nullcInitCustomAlloc(arena::alloc, arena::dealloc)) sim::fail("restart:init", std::string("the engine cannot be initialised again: ") + nullcGetLastError()); eng::bindHostModule(); }
			w.reset(new World(plan)); w->config(int(plan.get("exec")), int(plan.get("opt")));
			auto v = enumerate(); std::sort(v.begin(), v.end());
			if(fresh[f].empty()) fresh[f] = v; else if(fresh[f] != v) sim::fail("restart:modules", sim::fmt("an engine initialised again has %zu modules, it had %zu the first time", v.size(), fresh[f].size()));
			w->base.insert(v.begin(), v.end());
			if(NULLC::UsedMemory()) sim::fail("restart:memory", sim::fmt("%u bytes of object memory are in use in an engine that was just initialised", NULLC::UsedMemory()));
			if(*nullcGetLastError()) sim::fail("restart:error", std::string("an engine that was just initialised reports an error: ") + nullcGetLastError());
			if(nullcGetGlobal("pg")) sim::fail("restart:global", "an engine that was just initialised has a global of an earlier program");
			if(nullcHasImportPath("some/path/") || nullcHasImportPath("other/")) sim::fail("restart:import-path", "an import path of an earlier instance is still known");
			if(nullcBuild("import m0; return 1;")) sim::fail("restart:module", "a module of an earlier instance is still known");
			nullcSetGlobalMemoryLimit(1024u * 1024 * 1024); nullcSetEnableLogFiles(0, 0, 0, 0); gcsim::s.on = on;
		}
		void term(int times)
		{
			nullcTerminate(); for(int i = 0; i < times; i++) nullcTerminate();
			cycles++; arena::checkAll();
			if(arena::live) { auto b = arena::liveBlocks(0); std::string t; for(size_t i = 0; i < b.size() && i < 12; i++) t += sim::fmt(" #%llu:%u", (unsigned long long)b[i].first, b[i].second); sim::fail("restart:leak", sim::fmt("%lld host blocks (%lld bytes) were not returned by the time the engine was terminated:%s", arena::live, arena::liveBytes, t.c_str())); }
			streamsCheck(); sim::fault("engine_restart");
		}
		void off()
		{
			// a terminated engine answers with an error
			if(nullcCompile("return 1;") || nullcBuild("return 1;") || nullcRun() || nullcRunFunction("f") || nullcLoadModuleBySource("a", "int a;")) sim::fail("restart:off", "an operation on a terminated engine succeeded");
			nullcClean(); nullcEnumerateModules(0); nullcGetGlobal("a"); nullcRemoveModule("a"); nullcFinalize(); nullcAllocate(4); char *b = nullptr; nullcGetBytecode(&b); nullcDebugClearBreakpoints();
		}
		bool step(const Op &o)
		{
			const std::string &n = o.name;
			if(w->step(o)){ streamsCheck(); return true; }
			if(n == "script")
			{
				if(!full) return true; const corpus::Script &s = corpus::all()[size_t(o.arg(0)) % corpus::all().size()]; 
				if(nullcBuild(s.text.c_str())){ nullcRun(); if(o.arg(1)) nullcRun(); } else sim::fault("failed_compilation"); w->linked.reset(); for(auto &m : enumerate()) if(m.find("std/") != std::string::npos) w->base.insert(m);
			}
			else if(n == "logs"){ logs = o.arg(0) != 0; failOpen = o.arg(0) == 3; nullcSetEnableLogFiles(logs, streamOpen, streamWrite, streamClose); }
			else if(n == "compile")
			{
				Mod m; m.name = "zz"; m.ver = int(o.arg(0) % 1000); std::string t = modText(m); if(o.arg(1) == 1) t = t.substr(0, t.size() * 2 / 3);
				bool ok = nullcCompile(t.c_str()) != 0; if(!ok) sim::fault("failed_compilation"); char *b = nullptr; if(ok && o.arg(1) == 2){ nullcGetBytecode(&b); delete[] b; } if(o.arg(1) == 3) nullcAnalyze(t.c_str());
				if(ok && logs && o.arg(1) == 0) nullcSaveListing("listing.txt");
			}
			else if(n == "finalize"){ nullcFinalize(); }
			else if(n == "collect"){ if(w->linked && w->linked->ran) NULLC::CollectMemory(); }
			else if(n == "clean"){ nullcClean(); w->linked.reset(); }
			else if(n == "path"){ const char *p = o.arg(0) & 1 ? "some/path/" : "other/"; if(o.arg(1)) nullcAddImportPath(p); else nullcRemoveImportPath(p); }
			else if(n == "initAgain"){ if(nullcInit()) sim::fail("restart:double-init", "an initialised engine was initialised again"); }
			else if(n == "limit"){ nullcSetGlobalMemoryLimit(unsigned(o.arg(0))); nullcSetGlobalMemoryLimit(1024u * 1024 * 1024); }
			else if(n == "reinit"){ term(int(o.arg(0))); off(); init(o.arg(1) && plan.get("full")); sim::probe("restarted"); }
			else if(n == "bind"){ nullcClean(); w->linked.reset(); if(nullcBindModuleFunction("sim", bind0, o.arg(0) ? "no_such_function" : "ei", 7)) sim::fail("restart:bind", "a function that does not exist was bound"); }
			else if(n == "stack") nullcSetExecutorStackSize(unsigned(o.arg(0)) * 65536);
			streamsCheck();
			return true;
		}
	};
	void exec20(const Plan &plan)
	{
		gcsim::configure(plan); Life l(plan); bool on = gcsim::s.on; gcsim::s.on = false; l.term(0); gcsim::s.on = on; l.off(); l.init(plan.get("full") != 0);
		for(auto &o : plan.ops) l.step(o);
		l.term(0); l.off();
		if(l.cycles > 2) sim::nontrivial();
		sim::state(l.cycles * 1000 + streams.opened % 1000);
	}
}
static RegisterProperty r20({ "C20", "seeded histories of compilations, links, runs, errors, module operations and log files, failed ones included, with the engine terminated and initialised again in between and at the end; host blocks and log streams are counted and an initialised engine is compared with a fresh one", eng::warm, gen20, exec20, desc, 40000, 2000000, 25, 900, "a run with at least three terminations; distinct by event hash",
	"initialisation and termination, compiler, module cache, linker, both executors, collector, standard modules: real", "host allocator (deterministic arena with accounting), log streams" });

// ---------------------------------------------------------------- C21
namespace
{
	typedef std::vector<char> Bytes;
	Bytes compileBytes(const std::string &t, std::string &err, bool cache = false)
	{
		Bytes r; if(!nullcCompile(t.c_str())){ err = nullcGetLastError(); return r; }
		char *b = nullptr; unsigned n = cache ? nullcGetBytecode(&b) : nullcGetBytecodeNoCache(&b); r.assign(b, b + n); delete[] b; return r;
	}
	void same(const Bytes &a, const Bytes &b, const char *when)
	{
		if(a == b) return; size_t k = 0; while(k < a.size() && k < b.size() && a[k] == b[k]) k++;
		sim::fail("bytecode:differs", sim::fmt("%s: the same text is compiled to different bytecode: %zu and %zu bytes, first difference at %zu", when, a.size(), b.size(), k));
	}
	void tune21(mini::Profile &q){ q.stmts = 16; }
	void gen21(Rng &r, Plan &p, int)
	{
		session::config(r, p); int k = int(r.below(10)); p.cfg["id_mode"] = k < 4 ? 0 : k < 7 ? 1 : 2;
		if(k < 4){ static const int kinds[] = { 0, 1, 2, 3, 4, 5, 6, 7 }; prog::makePlan(r, p, kinds[r.below(8)], tune21); }
		else if(k < 7) corpus::choose(r, p);
		int n = r.range(1, 9);
		for(int i = 0; i < n; i++)
			switch(r.below(8))
			{
			case 0: p.ops.push_back(Op("noise", { r.below(100000), r.below(3) })); break;
			case 1: p.ops.push_back(Op("shift", { r.range(1, 400), r.below(1000) })); break;
			case 2: p.ops.push_back(Op("broken", { r.below(100000) })); break;
			case 3: p.ops.push_back(Op("again", { r.below(2) })); break;
			case 4: p.ops.push_back(Op("restart", { r.below(3) })); break;
			case 5: p.ops.push_back(Op("level", { r.below(3), r.below(2) })); break;
			default: p.ops.push_back(Op("use")); if(k < 4) session::randomSteps(r, p, r.range(0, 3)); break;
			}
		if(k >= 7) for(int i = 0; i < 8; i++) p.ops.push_back(Op("mod", { r.below(NN), r.below(1000), r.below(64) }));
		if(r.chance(1, 3)) p.cfg["gc_period"] = r.range(1, 20);
	}
	void restart(int how)
	{
		bool on = gcsim::s.on; gcsim::s.on = false; nullcTerminate(); arena::checkAll();
		if(how == 2) for(int i = 0; i < 50; i++) arena::alloc(100 + i * 37);	// other addresses
		eng::initEngine();
		if(how == 1) nullcBuild("import std.list; import std.hashmap; import std.range; return 1;");	// other modules are loaded, in another order
		gcsim::s.on = on; sim::fault("engine_restart");
	}
	void exec21(const Plan &plan)
	{
		int mode = int(plan.get("id_mode")), ex = int(plan.get("exec")), opt = int(plan.get("opt")); 
		std::unique_ptr<session::Session> s; std::string text, err; corpus::Outcome base; Registry mods; std::vector<std::string> order; std::vector<Bytes> modBytes; Inst inst; bool linked = false; u64 uses = 0, restarts = 0;
		gcsim::configure(plan); gcsim::s.on = false;
		if(mode == 0){ s.reset(new session::Session(plan, tune21)); gcsim::s.on = false; text = s->p->text(); }
		else if(mode == 1){ text = corpus::pick(plan).text; if(text.find("std.dynamic") != std::string::npos || text.find("UsedMemory") != std::string::npos) return; /* object memory in use includes what the host library keeps */ base = corpus::run(text, ex, opt); if(!base.built) return; }
		nullcSetExecutor(ex ? NULLC_X86 : NULLC_REG_VM); nullcSetOptimizationLevel(opt);
		if(mode == 2)
		{
			for(auto &o : plan.ops) if(o.name == "mod")
			{
				std::string n = NAMES[o.arg(0) % NN]; if(mods.count(n)) continue;
				Mod m; m.name = n; m.ver = int(o.arg(1)); for(int i = 0; i < o.arg(0) % NN; i++) if(o.arg(2) >> i & 1 && mods.count(NAMES[i])) m.deps.push_back(NAMES[i]);
				Bytes b = compileBytes(modText(m), err); if(b.empty()) sim::fail("bytecode:module", err);
				if(!nullcLoadModuleBySource(n.c_str(), modText(m).c_str())) sim::fail("bytecode:module", nullcGetLastError());
				mods[n] = m; order.push_back(n); modBytes.push_back(b);
			}
			inst.p.seed = int(plan.seed % 100000) & ~1; inst.p.imports = order; inst.mods = mods; text = progText(inst.p);
		}
		Bytes code = compileBytes(text, err);
		if(code.empty()){ if(mode == 0) prog::notBuilt("C21", err); sim::fail("bytecode:compile", err); }
		nullcClean(); gcsim::s.on = true;
		auto use = [&]
		{
			nullcClean(); nullcSetExecutor(ex ? NULLC_X86 : NULLC_REG_VM); nullcSetOptimizationLevel(opt); bool on = gcsim::s.on; gcsim::s.on = false;
			if(!nullcLinkCode(code.data())) sim::fail("bytecode:link", sim::fmt("saved bytecode cannot be linked: %s", nullcGetLastError()));
			gcsim::s.on = on; linked = true; uses++; sim::probe("linked_from_saved_bytecode");
			if(mode == 0) s->run();
			else if(mode == 1){ corpus::Outcome o = corpus::run(text, ex, opt, false); std::string d = corpus::difference(base, o); if(!d.empty()) sim::fail("bytecode:behaviour", sim::fmt("%s, optimization %d, linked from saved bytecode: ", ex ? "x86" : "interpreter", opt) + d); }
			else
			{
				World w(plan); w.exec = ex; w.opt = opt; long long ret; bool f; auto e = inst.run(ret); w.outcome("run from saved bytecode", e, ret, false, []{ return nullcRunFunction(NULL); });
				for(int x : { 3, 13, 40 }){ auto e2 = inst.hf(x, ret, f); w.outcome("call into saved bytecode", e2, ret, f, [&]{ return nullcRunFunction("hf", x); }); }
			}
		};
		for(auto &o : plan.ops)
		{
			const std::string &n = o.name; sim::step();
			bool on = gcsim::s.on; gcsim::s.on = false;
			if(n == "noise"){ const corpus::Script &c = corpus::all()[size_t(o.arg(0)) % corpus::all().size()]; nullcClean(); linked = false; if(c.text.find("std.dynamic") == std::string::npos && nullcBuild(c.text.c_str()) && o.arg(1)){ nullcRun(); NULLC::CollectMemory(); } sim::probe("other_compilation"); }
			else if(n == "shift"){ for(int i = 0; i < o.arg(0); i++){ void *p = arena::alloc(int(16 + (o.arg(1) * (i + 1)) % 5000)); if(i & 1) arena::dealloc(p); } }
			else if(n == "broken"){ const std::string &t = corpus::all()[size_t(o.arg(0)) % corpus::all().size()].text; if(!nullcCompile((t.substr(0, t.size() / 2) + " @").c_str())) sim::fault("failed_compilation"); }
			else if(n == "again"){ nullcSetOptimizationLevel(opt); Bytes b = compileBytes(text, err, o.arg(0) != 0); if(b.empty()) sim::fail("bytecode:compile", "the text was compiled before, now it fails: " + err); same(code, b, "in the same engine"); }
			else if(n == "level"){ nullcSetOptimizationLevel(int(o.arg(0))); nullcSetExecutor(o.arg(1) ? NULLC_X86 : NULLC_REG_VM); nullcClean(); linked = false; }
			else if(n == "restart")
			{
				restart(int(o.arg(0))); linked = false; restarts++;
				nullcSetOptimizationLevel(opt); for(size_t i = 0; i < order.size(); i++) if(!nullcLoadModuleByBinary(order[i].c_str(), modBytes[i].data())) sim::fail("bytecode:module", "saved module cannot be loaded");
				Bytes b = compileBytes(text, err); if(b.empty()) sim::fail("bytecode:compile", "after a restart the text is rejected: " + err); same(code, b, "after a restart"); nullcClean();
			}
			gcsim::s.on = on;
			if(n == "use") use();
			else if(mode == 0 && linked) s->step(o);
		}
		use(); if(mode == 0) s->dump();
		restart(2); nullcSetOptimizationLevel(opt); for(size_t i = 0; i < order.size(); i++) if(!nullcLoadModuleByBinary(order[i].c_str(), modBytes[i].data())) sim::fail("bytecode:module", "saved module cannot be loaded");
		// The linker takes modules from those already known to the engine
		std::string imports; for(size_t at = 0; at < text.size(); ){ size_t e = text.find('\n', at); if(e == std::string::npos) e = text.size(); std::string l = text.substr(at, e - at); if(l.compare(0, 7, "import ") == 0) imports += l.substr(0, l.rfind(';') + 1) + "\n"; at = e + 1; }
		if(!compileBytes(imports + "return 1;", err).size()) sim::fail("bytecode:compile", "the imports of the text are rejected after a restart: " + err);
		nullcClean(); use(); if(mode == 0) s->dump();
		if(uses > 2 || restarts){ sim::nontrivial(); } sim::state(code.size());
		arena::checkAll();
	}
	std::string desc21(const Plan &p){ if(p.get("id_mode") == 0){ mini::Program *q = prog::fromPlan(p, tune21); return "program:\n" + q->text(); } return p.get("id_mode") == 1 ? corpus::describe(p) : ""; }
}
static RegisterProperty r21({ "C21", "programs and modules compiled to bytecode that is kept while the engine goes through other compilations, failures, heap shifts and terminations; afterwards it is linked and run against the reference, and the text is compiled again and compared byte by byte", eng::warm, gen21, exec21, desc21, 40000, 2000000, 30, 900, "a run with more than two links of saved bytecode or a restart; distinct by event hash",
	"initialisation and termination, compiler, module cache, linker, both executors, collector, standard modules: real", "host allocator (deterministic arena), host callbacks, the storage of bytecode is the host's memory" });
