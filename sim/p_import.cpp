// C10: imports through a simulated file layer. Sources, import paths and what every read returns are decided by the plan; a model of the lookup predicts the reads, the outcome and the behaviour.
#include "life.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <signal.h>
#include <unistd.h>
#include <algorithm>
#include <functional>
using namespace life;
namespace
{
	const char *MODS[] = { "m0", "m1", "lib.n0", "lib.n1", "m2", "lib.sub.k0", "m3", "lib.n2" }; const int NM = 8;
	const char *PATHS[] = { "p1/", "p2/", "p1/p3/" }; const int NP = 3;
	struct File { std::string text; Mod m; bool good = true; };
	struct Fault { std::string path; int kind = 0; long long pos = 0; bool fired = false; };	// 0 missing, 1 cut, 2 empty, 3 corrupt byte
	struct Read { std::string path; bool found; std::string text; };
	struct Cached { File f; std::string text; bool known = true; std::map<std::string, std::string> deps; };
	struct World;
	World *world;
	std::string fileName(const std::string &n){ return path(n); }
	struct World
	{
		const Plan &plan; int exec = 0, opt = 0, handlerMode = 0; std::map<std::string, File> fs; std::vector<std::string> paths{ "" }; std::map<std::string, Cached> cache; std::set<std::string> base;
		std::vector<Read> reads; std::map<const char*, std::string> out; std::vector<Fault> armed; u64 loads = 0, frees = 0, builds = 0, fails = 0; std::unique_ptr<Inst> linked;
		explicit World(const Plan &p): plan(p) { world = this; }
		std::string where(){ return sim::fmt("%s, optimization %d: ", exec ? "x86" : "interpreter", opt); }

		// ---- the file layer
		static std::string damage(const std::string &t, const Fault &f)
		{
			if(f.kind == 1) return t.substr(0, size_t(f.pos) % (t.size() + 1));
			if(f.kind == 2) return "";
			if(f.kind == 3 && !t.empty()){ static const char bad[] = "}{(#;\"\x01@"; std::string s = t; s[size_t(f.pos / 8) % s.size()] = bad[f.pos % 8]; return s; }
			return t;
		}
		const char* load(const char *name, unsigned *size)
		{
			sim::step(); loads++; sim::probe("file_read"); Read r; r.path = name; r.found = false; *size = 0; auto i = fs.find(name);
			if(i != fs.end())
			{
				r.found = true; r.text = i->second.text;
				for(auto &f : armed) if(!f.fired && f.path == name)
				{
					f.fired = true; static const char *names[] = { "read_fails", "read_truncated", "read_empty", "read_corrupted" }; sim::fault(names[f.kind]);
					if(f.kind == 0) r.found = false, r.text = ""; else r.text = damage(r.text, f);
				}
			}
			sim::log("read %s %d %zu", name, r.found, r.text.size()); reads.push_back(r);
			if(!r.found) return nullptr;
			char *b = (char*)arena::alloc(int(r.text.size() + 1)); memcpy(b, r.text.data(), r.text.size()); b[r.text.size()] = 0; *size = unsigned(r.text.size()); out[b] = name; return b;
		}
		void release(const char *b)
		{
			frees++; auto i = out.find(b); if(i == out.end()) sim::fail("import:release", where() + (b ? "a buffer that is not outstanding was released (released twice, or not from this file layer)" : "a null buffer was released"));
			memset((void*)b, '}', strlen(b)); out.erase(i); arena::dealloc((void*)b);
		}
		static const char* loadCb(const char *n, unsigned *s){ return world->load(n, s); }
		static void freeCb(const char *b){ world->release(b); }
		// ---- the model of the lookup
		struct Sim { std::vector<Read> reads; std::map<std::string, Cached> cache; std::vector<Fault> armed; bool strict = true; std::vector<std::string> may; };
		std::string cachedAs(Sim &s, const std::string &name){ for(auto &p : paths) if(s.cache.count(p + name)) return p + name; return ""; }
		bool find(Sim &s, const std::string &name, std::string &full, std::string &text, File &f)
		{
			for(auto &p : paths)
			{
				Read r; r.path = p + name; r.found = false; auto i = fs.find(r.path);
				if(i != fs.end()){ r.found = true; r.text = i->second.text; for(auto &a : s.armed) if(!a.fired && a.path == r.path){ a.fired = true; if(a.kind == 0) r.found = false, r.text = ""; else r.text = damage(r.text, a); } }
				s.reads.push_back(r); if(r.found){ full = r.path; text = r.text; f = i->second; return true; }
			}
			return false;
		}
		// 1: imported, 0: fails, -1: the model does not know
		int import(Sim &s, const std::string &name, const std::string &root, std::vector<std::string> active, std::string &full)
		{
			std::string mod = root.empty() ? name : root + "/" + name; full = cachedAs(s, mod); if(full.empty()){ mod = name; full = cachedAs(s, mod); }
			for(auto &a : active) if(a == mod) return 0;
			if(!full.empty()) return s.cache[full].known ? 1 : -1;
			active.push_back(mod); std::string next = root, text; File f; bool found = false; auto dir = [](const std::string &n){ size_t k = n.rfind('/'); return k == std::string::npos ? std::string() : n.substr(0, k); };
			if(!root.empty() && find(s, root + "/" + name, full, text, f)){ found = true; if(name.find('/') != std::string::npos) next = root + "/" + dir(name); }
			if(!found && find(s, name, full, text, f)){ found = true; if(name.find('/') != std::string::npos) next = dir(name); }
			if(!found) return 0;
			s.may.push_back(full);
			if(text != f.text){ int depth = 0; for(char c : text) depth += c == '{' || c == '(' || c == '[' ? 1 : c == '}' || c == ')' || c == ']' ? -1 : 0; return text.size() < f.text.size() && depth > 0 ? 0 : -1; }
			Cached c; c.f = f; c.text = text;
			size_t at = 0; while(text.compare(at, 7, "import ") == 0)
			{
				size_t e = text.find(';', at); std::string n = text.substr(at + 7, e - at - 7), sub; for(char &ch : n) if(ch == '.') ch = '/'; at = e + 2;
				int k = import(s, n + ".nc", next, active, sub); if(k != 1) return k; c.deps[n] = sub;
			}
			if(!f.good) return 0;
			s.cache[full] = c; return 1;
		}
		// ---- invariants of every operation
		void settled(const char *what){ if(!out.empty()) sim::fail("import:leak", where() + sim::fmt("%zu buffers of the file layer were not released by the time %s returned, one is for %s", out.size(), what, out.begin()->second.c_str())); }
		void traceCheck(const Sim &s, const char *what, bool exact)
		{
			for(size_t i = 0; i < s.reads.size() || (exact && i < reads.size()); i++)
				if(i >= s.reads.size() || i >= reads.size() || s.reads[i].path != reads[i].path)
					sim::fail("import:lookup-order", where() + sim::fmt("%s: read %zu is of %s, the lookup order gives %s", what, i, i < reads.size() ? reads[i].path.c_str() : "nothing", i < s.reads.size() ? s.reads[i].path.c_str() : "nothing"));
		}
		void adopt(const Sim &s, const char *what, bool exact)
		{
			std::vector<std::string> v = enumerate(); std::set<std::string> now(v.begin(), v.end());
			if(now.size() != v.size()) sim::fail("import:listed-twice", where() + what + ": a module is listed twice");
			for(auto &c : s.cache) if(!now.count(c.first)) sim::fail("import:not-cached", where() + sim::fmt("%s: %s was imported but is not known as a module", what, c.first.c_str()));
			std::map<std::string, Cached> next = s.cache;
			for(auto &n : now)
			{
				if(base.count(n) || next.count(n)) continue;
				std::string got; for(auto &r : reads) if(r.path == n && r.found) got = r.text;
				auto i = fs.find(n); if(exact || i == fs.end()) sim::fail("import:partial-module", where() + sim::fmt("%s: %s is known as a module although importing it failed", what, n.c_str()));
				if(got == i->second.text && !i->second.good) sim::fail("import:partial-module", where() + sim::fmt("%s: the broken module %s is known after its import failed", what, n.c_str()));
				Cached c; c.f = i->second; c.text = got; c.known = got == i->second.text;
				// what it imports has to be complete as well
				size_t at = 0; while(c.text.compare(at, 7, "import ") == 0){ size_t e = c.text.find(';', at); if(e == std::string::npos) break; std::string d = c.text.substr(at + 7, e - at - 7); for(char &ch : d) if(ch == '.') ch = '/'; at = e + 2; std::string as; for(auto &m : now) if(m.size() >= d.size() + 3 && m.compare(m.size() - d.size() - 3, d.size() + 3, d + ".nc") == 0) as = m; if(as.empty()) sim::fail("import:partial-module", where() + sim::fmt("%s: %s is known as a module without what it imports (%s)", what, n.c_str(), d.c_str())); c.deps[d] = as; }
				next[n] = c;
			}
			cache = next;
			for(bool more = true; more; ){ more = false; for(auto &c : cache) if(c.second.known) for(auto &d : c.second.deps) if(!cache.count(d.second) || !cache[d.second].known){ c.second.known = false; more = true; } }
		}
		// ---- the outcome in an engine that never saw a fault, from a forked copy without modules
		struct Shared { int done, ok; u64 code; char error[1 << 16]; };
		static u64 codeHash(){ char *b = nullptr; unsigned n = nullcGetBytecodeNoCache(&b); u64 h = hashStr(b, n); delete[] b; return h; }
		bool pristine(const std::string &text, Shared *&m)
		{
			static Shared *sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); m = sh; m->done = 0;
			pid_t c = fork();
			if(c == 0)
			{
				for(int i : { SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL }) signal(i, SIG_DFL);
				if(!freopen("/dev/null", "w", stderr)) _exit(1);
				alarm(20);
				nullcClean(); for(auto &n : enumerate()) if(!base.count(n)) nullcRemoveModule(n.c_str());
				std::vector<Read> seq = reads; fs.clear(); for(auto &x : cacheBefore) fs[x.first].text = x.second.text;
				served.clear(); replay = &seq; handlers(3);
				m->ok = nullcCompile(text.c_str()) != 0; snprintf(m->error, sizeof(m->error), "%s", m->ok ? "" : nullcGetLastError()); m->code = m->ok ? codeHash() : 0; m->done = 1; _exit(0);
			}
			int st = 0; waitpid(c, &st, 0); return m->done != 0;
		}
		std::map<std::string, Cached> cacheBefore; std::vector<Read> *replay = nullptr; std::map<std::string, size_t> served;
		const char* loadReplay(const char *name, unsigned *size)
		{
			std::string t; bool found = false; auto i = fs.find(name);
			if(i != fs.end()){ found = true; t = i->second.text; }
			else { size_t k = served[name], n = 0; for(auto &r : *replay) if(r.path == name){ found = r.found; t = r.text; if(n++ == k) break; } served[name]++; }
			if(!found) return nullptr; *size = unsigned(t.size()); return strdup(t.c_str());
		}
		void handlers(int mode)
		{
			handlerMode = mode;
			if(mode == 3) nullcSetFileReadHandler([](const char *n, unsigned *s){ return world->loadReplay(n, s); }, [](const char*){});
			else nullcSetFileReadHandler(loadCb, freeCb);
		}
		// ---- operations
		void write(int idx, int where, int ver, u64 mask, int bad)
		{
			Mod m; m.name = MODS[idx]; m.ver = ver; for(int i = 0; i < idx; i++) if(mask >> i & 1) m.deps.push_back(MODS[i]);
			File f; f.m = m; f.text = modText(m); f.good = true;
			// modules of the same folder are also reachable without it
			size_t dot = m.name.rfind('.'); if(dot != std::string::npos && ver % 3){ std::string pre = "import " + m.name.substr(0, dot + 1); for(size_t k = 0; (k = f.text.find(pre, k)) != std::string::npos; ) f.text.replace(k, pre.size(), "import "); }
			if(bad == 1){ f.good = false; f.text += "int broken(){ return undefined_thing; }\n"; }
			if(bad == 2){ f.good = false; f.text += " @ {"; }
			if(bad == 3){ f.good = false; f.text = "import " + m.name + ";\n" + f.text; }
			if(bad == 4){ f.good = false; f.text = "import not.there;\n" + f.text; }
			if(bad == 5){ f.good = false; for(int i = idx + 1; i < NM; i++) if(mask >> i & 1){ f.text = "import " + std::string(MODS[i]) + ";\n" + f.text; break; } f.text += " int x = \"s\"; int x;"; }
			std::string p = (where ? PATHS[where - 1] : "") + fileName(m.name); fs[p] = f; sim::log("write %s %d %d", p.c_str(), ver, bad);
		}
		void forget(const std::string &full)
		{
			// a module goes together with everything that was compiled against it
			std::vector<std::string> go{ full }; for(size_t k = 0; k < go.size(); k++) for(auto &c : cache) for(auto &d : c.second.deps) if(d.second == go[k] && std::find(go.begin(), go.end(), c.first) == go.end()) go.push_back(c.first);
			for(auto &g : go){ nullcRemoveModule(g.c_str()); cache.erase(g); }
		}
		void forgetAll(){ std::vector<std::string> v; for(auto &c : cache) v.push_back(c.first); for(auto &n : v){ nullcRemoveModule(n.c_str()); cache.erase(n); } }
		bool uses(const std::string &text, const std::string &name){ return text.find(ident(name)) != std::string::npos; }
		void close(const std::string &full, Registry &r, std::map<std::string, std::string> &names){ Cached &c = cache[full]; Mod m = c.f.m; r[m.name] = m; names[m.name] = full; for(auto &d : c.deps) close(d.second, r, names); }
		void checkCall(const char *what, const std::vector<std::string> &want, long long ret, bool fails, std::function<nullres()> fn)
		{
			std::vector<std::string> got; eng::hooks.onEvent = [&](const std::string &t){ got.push_back(t); };
			bool ok = fn() != 0; eng::hooks.onEvent = nullptr;
			for(size_t i = 0; i < want.size() || i < got.size(); i++) if(i >= want.size() || i >= got.size() || want[i] != got[i]) sim::fail("import:behaviour", where() + sim::fmt("%s: output %zu is %s, the delivered sources give %s", what, i, i < got.size() ? got[i].c_str() : "missing", i < want.size() ? want[i].c_str() : "none"));
			if(ok == fails) sim::fail("import:behaviour", where() + what + (ok ? " succeeded, it has to fail" : std::string(" fails: ") + nullcGetLastError()));
			if(ok && nullcGetResultInt() != int(ret)) sim::fail("import:behaviour", where() + sim::fmt("%s: result %d, the delivered sources give %lld", what, nullcGetResultInt(), ret));
		}
		void callLinked(int x){ if(!linked || !linked->ran) return; long long ret; bool f; auto e = linked->hf(x, ret, f); checkCall("a call", e, ret, f, [&]{ return nullcRunFunction("hf", x); }); }
		bool compile(const Prog &p, bool link, bool always)
		{
			std::string text = progText(p), err; reads.clear(); loads = frees = 0; for(auto &f : armed) f.fired = false;
			Sim s; s.cache = cache; s.armed = armed; cacheBefore = cache; int want = 1; Registry mods; std::vector<std::string> tops; bool faults = !armed.empty();
			for(auto &i : p.imports){ std::string full, n = i; for(char &c : n) if(c == '.') c = '/'; want = import(s, n + ".nc", "", {}, full); if(want != 1) break; tops.push_back(full); }
			bool ok = (link ? nullcBuild(text.c_str()) : nullcCompile(text.c_str())) != 0; if(!ok) err = nullcGetLastError(); const char *what = link ? "a build" : "a compilation";
			sim::log("%s: %d expected %d, %zu reads", what, ok, want, reads.size()); sim::step();
			settled(what); bool fired = false; for(auto &f : armed) fired |= f.fired; armed.clear();
			traceCheck(s, what, want == 1);
			if(want >= 0 && ok != (want == 1)) sim::fail("import:outcome", where() + sim::fmt("%s %s", what, ok ? "succeeded although an import cannot be satisfied" : (std::string(fired ? "after reads that were repeated elsewhere fails: " : "with intact files fails: ") + err).c_str()));
			if(!ok && err.empty()) sim::fail("import:no-error", where() + what + " failed without an error");
			u64 code = 0; if(ok && !link) code = codeHash();
			if(faults || always || want < 0)
			{
				Shared *m; if(pristine(text, m))
				{
					if((m->ok != 0) != ok) sim::fail("import:differs-from-fresh", where() + sim::fmt("%s %s, with the same sources and no earlier history it %s %s", what, ok ? "succeeded" : ("fails: " + err).c_str(), m->ok ? "succeeds" : "fails:", m->error));
					if(!ok && err.compare(0, sizeof(m->error) - 1, m->error)) sim::fail("import:error-differs", where() + sim::fmt("%s reports\n%s\nwith the same sources and no earlier history it reports\n%s", what, err.c_str(), m->error));
					if(ok && !link && m->code != code) sim::fail("import:code-differs", where() + sim::fmt("%s produced other bytecode than the same sources without earlier history", what));
					sim::probe("compared_with_fresh_engine");
				}
				else sim::probe("text_crashes_compiler");
			}
			adopt(s, what, want == 1); if(fired && ok) sim::probe("build_survives_fault"); if(fired && !ok) sim::probe("build_fails_by_fault");
			if(!ok){ fails++; if(!link) nullcClean(), linked.reset(); return false; }
			if(link){ linked.reset(); bool known = true; for(auto &t : tops) if(!cache.count(t) || !cache[t].known) known = false; if(want == 1 && known){ linked.reset(new Inst); linked->p = p; std::map<std::string, std::string> names; for(auto &t : tops) close(t, linked->mods, names); builds++; long long ret; auto e = linked->run(ret); checkCall("the run", e, ret, false, []{ return nullcRunFunction(NULL); }); callLinked(3); } }
			else { nullcClean(); linked.reset(); }
			return ok;
		}
		Prog last; bool haveLast = false;
		// A damaged text that crashes the compiler on its own is left out: what the compiler does with one text is not the subject
		bool survivable(const std::string &text)
		{
			pid_t c = fork();
			if(c == 0){ for(int i : { SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL }) signal(i, SIG_DFL); if(!freopen("/dev/null", "w", stderr)) _exit(1); alarm(20); armed.clear(); nullcClean(); nullcCompile(text.c_str()); _exit(0); }
			int st = 0; waitpid(c, &st, 0); return WIFEXITED(st) && WEXITSTATUS(st) == 0;
		}
		void arm(u64 k, int kind, long long pos)
		{
			if(fs.empty()) return; auto i = fs.begin(); std::advance(i, size_t(k % fs.size())); Fault f; f.path = i->first; f.kind = kind; f.pos = pos;
			if((kind == 1 || kind == 3) && !survivable(damage(i->second.text, f))){ sim::probe("text_crashes_compiler"); return; }
			armed.push_back(f);
		}
		void bindMissing(int idx)
		{
			std::string n = MODS[idx], full; nullcClean(); linked.reset(); reads.clear(); for(auto &f : armed) f.fired = false; Sim s; s.cache = cache; s.armed = armed; cacheBefore = cache;
			int want = 1; if(cachedAs(s, fileName(n)).empty()) want = import(s, fileName(n), "", {}, full);
			bool ok = nullcBindModuleFunction(n.c_str(), []{}, "no_such_function_here", 0) != 0; std::string err = nullcGetLastError(); sim::log("bind %s %d", n.c_str(), ok);
			settled("a binding"); armed.clear(); traceCheck(s, "a binding", want == 1); if(ok) sim::fail("import:bind", where() + "a function that does not exist was bound");
			if(want == 1 && err.find("is not found in module") == std::string::npos) sim::fail("import:bind", where() + "binding a missing function of an intact module: " + err);
			adopt(s, "a binding", want == 1); nullcClean();
		}
	};
	void gen(Rng &r, Plan &p, int)
	{
		p.cfg["exec"] = r.below(2); p.cfg["opt"] = r.below(3); p.cfg["fresh"] = r.chance(1, 3);
		int bad = r.chance(2, 3) ? 0 : r.range(3, 20), n = r.range(5, 9);
		auto write = [&](int lo, int hi){ int x = r.range(lo, hi - 1); p.ops.push_back(Op("write", { x, r.chance(2, 3) ? 0 : r.range(1, NP), r.below(32), r.below(256) & (r.coin() ? r.below(256) : 255), bad && r.below(u32(bad)) == 0 ? r.range(1, 5) : 0 })); };
		for(int i = 0; i < NM; i++) if(!r.chance(1, 20)){ write(i, i + 1); if(r.chance(1, 4)) write(i, i + 1); }
		for(int i = 0; i < NP; i++) if(!r.chance(1, 6)) p.ops.push_back(Op("addpath", { i }));
		if(r.chance(1, 3)) std::swap(p.ops[p.ops.size() - 1], p.ops[p.ops.size() - 2]);
		for(int i = 0; i < n; i++)
		{
			int k = r.below(100); if(k < 20) write(0, NM);
			else if(k < 27) p.ops.push_back(Op("delete", { r.below(1000) }));
			else if(k < 39) p.ops.push_back(Op("forget", { r.below(1000), r.chance(1, 3) }));
			else if(k < 46) p.ops.push_back(Op("addpath", { r.below(NP) }));
			else if(k < 52) p.ops.push_back(Op("rmpath", { r.below(NP) }));
			else if(k < 55) p.ops.push_back(Op("clearpaths"));
			else if(k < 60) p.ops.push_back(Op("call", { r.chance(1, 5) ? 13 : r.range(-40, 200) }));
			else if(k < 66) p.ops.push_back(Op("bind", { r.below(NM) }));
			else if(k < 68) p.ops.push_back(Op("restart", { r.below(2) }));
			int f = r.chance(1, 2) ? 0 : r.range(1, 3); for(int j = 0; j < f; j++) p.ops.push_back(Op("fault", { r.below(1000), r.below(4), r.below(100000) }));
			p.ops.push_back(Op(r.chance(1, 5) ? "compile" : "build", { r.below(256), r.below(100000) }));
			if(f && r.chance(2, 3)) p.ops.push_back(Op("retry", { r.chance(1, 5) }));
			if(f && r.chance(1, 4)) p.ops.push_back(Op("call", { r.range(-40, 200) }));
		}
		if(r.chance(1, 3)) p.cfg["gc_period"] = r.range(1, 30);
	}
	void exec(const Plan &plan)
	{
		gcsim::configure(plan); World w(plan); w.exec = int(plan.get("exec")); w.opt = int(plan.get("opt"));
		nullcSetExecutor(w.exec ? NULLC_X86 : NULLC_REG_VM); nullcSetOptimizationLevel(w.opt); nullcClearImportPaths();
		auto v = enumerate(); w.base.insert(v.begin(), v.end()); w.handlers(0); bool fresh = plan.get("fresh") != 0;
		for(auto &o : plan.ops)
		{
			const std::string &n = o.name; sim::step();
			if(n == "write") w.write(int(o.arg(0)), int(o.arg(1)), int(o.arg(2)), u64(o.arg(3)), int(o.arg(4)));
			else if(n == "delete"){ if(!w.fs.empty()){ auto i = w.fs.begin(); std::advance(i, size_t(o.arg(0)) % w.fs.size()); w.fs.erase(i); sim::fault("file_deleted"); } }
			else if(n == "forget"){ if(o.arg(1)) w.forgetAll(); else if(!w.cache.empty()){ auto i = w.cache.begin(); std::advance(i, size_t(o.arg(0)) % w.cache.size()); w.forget(std::string(i->first)); } }
			else if(n == "addpath"){ nullcAddImportPath(PATHS[o.arg(0)]); if(std::find(w.paths.begin(), w.paths.end(), PATHS[o.arg(0)]) == w.paths.end()) w.paths.push_back(PATHS[o.arg(0)]); if(!nullcHasImportPath(PATHS[o.arg(0)])) sim::fail("import:path", "an import path that was added is not known"); }
			else if(n == "rmpath"){ w.forgetAll(); nullcRemoveImportPath(PATHS[o.arg(0)]); auto i = std::find(w.paths.begin(), w.paths.end(), PATHS[o.arg(0)]); if(i != w.paths.end()) w.paths.erase(i); if(nullcHasImportPath(PATHS[o.arg(0)])) sim::fail("import:path", "an import path that was removed is still known"); }
			else if(n == "clearpaths"){ w.forgetAll(); nullcClearImportPaths(); w.paths = { "" }; }
			else if(n == "call") w.callLinked(int(o.arg(0)));
			else if(n == "bind") w.bindMissing(int(o.arg(0)));
			else if(n == "fault") w.arm(u64(o.arg(0)), int(o.arg(1)), o.arg(2));
			else if(n == "compile" || n == "build")
			{
				Prog p; p.seed = int(o.arg(1)) & ~1; for(int i = 0; i < NM; i++) if(o.arg(0) >> i & 1) p.imports.push_back(MODS[(i * 5 + o.arg(1)) % NM]);
				if(p.imports.size() > 4) p.imports.resize(4); w.last = p; w.haveLast = true; w.compile(p, n == "build", fresh);
			}
			else if(n == "retry"){ if(w.haveLast) w.compile(w.last, true, fresh || o.arg(0)); sim::probe("retry_after_fault"); }
			else if(n == "restart")
			{
				nullcTerminate(); if(!nullcInitCustomAlloc(arena::alloc, arena::dealloc)) sim::fail("import:restart", "the engine cannot be initialised again");
				sim::fault("engine_restart"); eng::bindHostModule(); w.cache.clear(); w.linked.reset(); w.paths = { "" }; w.haveLast = false;
				nullcSetExecutor(w.exec ? NULLC_X86 : NULLC_REG_VM); nullcSetOptimizationLevel(w.opt);
				// until it is given a file layer the new instance reads real files, and it releases what it read itself
				auto e = enumerate(); w.base.clear(); w.base.insert(e.begin(), e.end());
				if(o.arg(0))
				{
					u64 l = w.loads, f = w.frees; if(nullcBuild("import no_such_file; return 1;")) sim::fail("import:restart", "a missing module was imported");
					nullcAddImportPath("/repo/Modules/"); if(!nullcBuild("import std.range; int s = 0; for(i in range(1, 4)) s += i; return s;") || !nullcRun() || nullcGetResultInt() != 10) sim::fail("import:restart", std::string("a module in a real file cannot be used after a restart: ") + nullcGetLastError());
					nullcClean(); if(w.loads != l || w.frees != f) sim::fail("import:restart", "the file layer of an earlier engine instance was used by a new one");
					for(auto &n : enumerate()) if(!w.base.count(n)) nullcRemoveModule(n.c_str());
					nullcClearImportPaths(); sim::probe("real_files_after_restart");
				}
				w.handlers(0);
			}
		}
		w.callLinked(5); if(w.builds > 1) sim::nontrivial(); sim::state(w.builds * 1000 + w.fails * 10 + w.paths.size()); sim::state(w.fs.size() * 100 + w.cache.size() + 100000); arena::checkAll();
	}
	std::string desc(const Plan&){ return ""; }
}
static RegisterProperty r10({ "C10", "compilations whose imports are read through a simulated file layer: import graphs over folders and import paths, files written, deleted and broken between compilations, reads that fail, are cut, empty or corrupted, retries without faults, engine restarts", eng::warm, gen, exec, desc, 40000, 2000000, 25, 900, "a run with more than one successful build; distinct by event hash",
	"import lookup, compiler, module cache, linker, both executors: real", "the file layer (nullcSetFileReadHandler), host allocator, host callbacks" });
