// C12: a linked program is driven by the host while other texts are compiled - correct, mutated, cut, too large for the analysis limit - at any point, inside host callbacks included.
#include "session.h"
#include "corpus.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <signal.h>
#include <unistd.h>
using namespace session;
using mini::Profile;

static void tune(Profile &p){ p.fault = 2; p.stmts = 14; p.host = 25; }
static std::string mutate(const std::string &t, Rng &r, int kind)
{
	std::string s = t; if(s.empty()) return s;
	auto word = [&](size_t &b, size_t &e){ b = r.below(u32(s.size())); while(b && (isalnum((unsigned char)s[b - 1]) || s[b - 1] == '_')) b--; e = b; while(e < s.size() && (isalnum((unsigned char)s[e]) || s[e] == '_')) e++; if(e == b) e = b + 1; };
	static const char *junk[] = { "}", "{", ")", "(", ";", "\"", "'", "int", "class Zz{ int q; ", "return", " import no.such.module; ", " @ ", "auto ref", "for(", "<@T>", "coroutine", "yield", ".", "[", "]", "0x", "1e999", "new", "zzz_unknown", "nullptr", "const int[2] = 4", "enum", "namespace Q{", "typeof(", "generic", "operator", "sizeof(", "$", "/*", "//", "\\", "\x01", "1 / 0", "noalias", "align(7)", "switch(", "case", "extendable" };
	size_t b, e;
	switch(kind)
	{
	case 0: return s;
	case 1: return s.substr(0, r.below(u32(s.size())));
	case 2: s.insert(r.below(u32(s.size())), std::string(" ") + junk[r.below(sizeof(junk) / sizeof(junk[0]))] + " "); return s;
	case 3: word(b, e); return s.erase(b, e - b);
	case 4: { word(b, e); std::string w = s.substr(b, e - b); size_t b2, e2; word(b2, e2); return s.replace(b2, e2 - b2, w); }
	case 5: { size_t k = r.below(u32(s.size())), n = r.below(60); std::string part = s.substr(k, n); return s.insert(r.below(u32(s.size())), part); }
	case 6: word(b, e); return s.replace(b, e - b, junk[r.below(sizeof(junk) / sizeof(junk[0]))]);
	case 7: { int n = r.range(2, 6); for(int i = 0; i < n; i++) s = mutate(s, r, r.range(2, 6)); return s; }
	case 8: { static const char *bad[] = { "int f(){ return g(); } return f();", "int x = \"a\"; return x;", "class A{ A a; } return 1;", "int[2] a; a.b = 4; return 1;", "return foo(1);", "import std.nothere; return 1;", "void f(int a); f(4); return 1;", "auto f(generic a){ return f(a + 1.0); } return f(1);", "class G<T>{ T x; } G<int> a; a.x = a; return 1;", "int a; int a; return 1;", "return 1 / 0;", "int f(){ } yield 1;", "typedef int a; int a = 4; return a;", "for(i in 4) i; return 1;", "auto a = { 1, \"b\" }; return 1;", "int ref a = nullptr; return a + a;", "coroutine int f(){ yield \"x\"; } return f();", "class A extendable{} class B : A{} class C : Zed{} return 1;", "int n = 4; int[n] a; return 1;", "@if(1){ int x; " };
		return bad[r.below(sizeof(bad) / sizeof(bad[0]))]; }
	default: { std::string d; int n = r.range(100, 3000); switch(r.below(4)){ case 0: d = "return " + std::string(size_t(n), '(') + "1" + std::string(size_t(n), ')') + ";"; break; case 1: d = "int f(){ return 1; } return 1"; for(int i = 0; i < n / 10; i++) d += " + f()"; d += ";"; break; case 2: for(int i = 0; i < n / 50; i++) d += "{ int a" + std::to_string(i) + " = 1; "; break; default: d = "auto x = " ; for(int i = 0; i < n / 40; i++) d += "{ "; d += "1"; d += ";"; } return d; }
	}
}
static void gen(Rng &r, Plan &p, int)
{
	static const int kinds[] = { 5, 0, 2, 3, 4, 7, 1 };
	config(r, p); prog::makePlan(r, p, kinds[r.below(7)], tune);
	int n = r.range(4, 10); p.ops.push_back(Op("run"));
	for(int i = 0; i < n; i++)
	{
		int c = r.range(1, 3);
		for(int k = 0; k < c; k++) p.ops.push_back(Op("compile", { r.below(100000), r.chance(1, 12) ? 9 : r.below(9), r.below(7), r.chance(1, 3) ? -1 : int(r.below(100000)), r.chance(1, 10) ? r.range(1000, 4000000) : 0, r.chance(1, 4) ? r.range(1, 12) : 0 }));
		randomSteps(r, p, r.range(1, 2), false);
	}
	if(r.chance(1, 3)) p.cfg["gc_period"] = r.range(1, 30);
	if(r.chance(1, 3)) randomFaults(r, p, r.range(1, 3), 30);
}
struct Text { std::string text, error; bool ok = false, crashes = false; u64 code = 0; };
static u64 codeHash(bool cache)
{
	char *b = nullptr; unsigned n = cache ? nullcGetBytecode(&b) : nullcGetBytecodeNoCache(&b); u64 h = hashStr(b, n); delete[] b; return h;
}
// The outcome of a text in an engine that has seen nothing else, from a forked copy of it. Texts that crash the compiler even there are left out: what the compiler does with one text is not the subject here.
struct Pristine { int done, ok; u64 code; char error[1 << 18]; };
static void pristine(Text &t, unsigned limit)
{
	static Pristine *m = (Pristine*)mmap(nullptr, sizeof(Pristine), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	m->done = 0; pid_t c = fork();
	if(c == 0)
	{
		for(int i : { SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL }) signal(i, SIG_DFL);
		if(!freopen("/dev/null", "w", stderr)) _exit(1);
		alarm(20);
		if(limit) nullcSetModuleAnalyzeMemoryLimit(limit);
		m->ok = nullcCompile(t.text.c_str()) != 0; snprintf(m->error, sizeof(m->error), "%s", m->ok ? "" : nullcGetLastError()); m->code = m->ok ? codeHash(false) : 0; m->done = 1; _exit(0);
	}
	int st = 0; waitpid(c, &st, 0);
	if(!m->done){ t.crashes = true; sim::probe("text_crashes_compiler"); return; }
	t.ok = m->ok != 0; t.error = m->error; t.code = m->code;
}
static void exec(const Plan &plan)
{
	Session s(plan, tune);
	std::vector<Text> texts; std::vector<const Op*> ops;
	// every text once in an engine that has seen nothing else: is it correct, with what error, to what code
	nullcSetExecutor(s.exec ? NULLC_X86 : NULLC_REG_VM); nullcSetOptimizationLevel(s.opt);
	for(auto &o : plan.ops)
	{
		if(o.name != "compile") continue;
		Rng r(u64(o.arg(0))); Text t; const std::string own = s.p->text();
		std::string base = o.arg(3) < 0 ? own : corpus::all()[size_t(o.arg(3)) % corpus::all().size()].text; if(base.find("std.dynamic") != std::string::npos) base = own;
		t.text = mutate(base, r, int(o.arg(1)));
		pristine(t, unsigned(o.arg(4)));
		texts.push_back(t); ops.push_back(&o);
		sim::log("text %zu ok=%d %s", texts.size(), t.ok, eng::errorKind(t.error).c_str());
	}
	size_t next = 0; u64 fails = 0; bool inside = false;
	auto compile = [&](size_t k)
	{
		const Text &t = texts[k]; if(t.crashes) return; const Op &o = *ops[k]; std::string where = sim::fmt("compilation %zu%s: ", k, inside ? " inside a host callback" : "");
		bool limit = o.arg(4) != 0; if(limit){ nullcSetModuleAnalyzeMemoryLimit(unsigned(o.arg(4))); sim::fault("analysis_memory_limit"); }
		int api = int(o.arg(2)); if(t.ok && (api == 2 || api == 3)) api = 0; if(inside && api >= 1 && api <= 3) api = 0; if(t.text.find("import ") != std::string::npos && limit) api = 0;
		bool ok; std::string what;
		if(api == 1){ ok = nullcAnalyze(t.text.c_str()) != 0; what = "nullcAnalyze"; if(!t.ok && ok){ nullcSetModuleAnalyzeMemoryLimit(128 * 1024 * 1024); sim::probe("analysed_only"); return; } }
		else if(api == 2){ ok = nullcBuild(t.text.c_str()) != 0; what = "nullcBuild"; }
		else if(api == 3){ ok = nullcLoadModuleBySource(sim::fmt("broken%zu", k).c_str(), t.text.c_str()) != 0; what = "nullcLoadModuleBySource"; }
		else { ok = nullcCompile(t.text.c_str()) != 0; what = "nullcCompile"; }
		std::string err = ok ? "" : nullcGetLastError();
		nullcSetModuleAnalyzeMemoryLimit(128 * 1024 * 1024);
		if(ok != t.ok) sim::fail("compile:outcome", where + what + (t.ok ? " fails with \"" + err + "\" where it succeeded before" : " succeeds where it failed before with \"" + t.error + "\""));
		if(!ok){ fails++; sim::fault("failed_compilation"); if(inside) sim::fault("failed_compilation_in_callback"); if(err != t.error) sim::fail("compile:error-text", where + what + " reports \"" + err + "\", before it was \"" + t.error + "\""); }
		else if(api == 4 || api == 0 || api == 5) { if(codeHash(api == 5 && !inside) != t.code) sim::fail("compile:code", where + "the compiled code differs from what the same text was compiled to before"); sim::probe("compiled_without_link"); }
	};
	s.link();
	{
		auto base = eng::hooks.onHost; size_t left = 0; 
		for(size_t k = 0; k < ops.size(); k++) left += ops[k]->arg(5) != 0;
		if(left) eng::hooks.onHost = [&, base](int a, int b, int c)
		{
			static u64 n = 0; n++;
			for(size_t k = next; k < ops.size(); k++) if(ops[k]->arg(5) && u64(ops[k]->arg(5)) == n && !inside){ bool on = gcsim::s.on; gcsim::s.on = false; inside = true; compile(k); inside = false; gcsim::s.on = on; }
			return base(a, b, c);
		};
	}
	for(auto &o : plan.ops)
	{
		if(o.name == "compile"){ compile(next); next++; }
		else s.step(o);
	}
	s.globals(); s.dump();
	if(fails) sim::nontrivial();
	arena::checkAll();
	// the next successful compilation is what it was
	s.link(); s.run(); s.dump(); arena::checkAll();
}
static std::string desc(const Plan &p)
{
	mini::Program *q = prog::fromPlan(p, tune); std::string t = "program:\n" + q->text(); int n = 0;
	for(auto &o : p.ops) if(o.name == "compile"){ Rng r(u64(o.arg(0))); std::string base = o.arg(3) < 0 ? q->text() : corpus::all()[size_t(o.arg(3)) % corpus::all().size()].text; if(base.find("std.dynamic") != std::string::npos) base = q->text(); t += sim::fmt("\ntext %d:\n", n++) + mutate(base, r, int(o.arg(1))); }
	return t;
}
static RegisterProperty reg({ "C12", "a generated program driven by the host while correct, mutated and cut texts are compiled, analysed and loaded as modules between its calls and inside its host callbacks, also under small analysis limits; the program must go on as its reference and every compilation must give the outcome it gave in an untouched engine", eng::warm, gen, exec, desc, 40000, 2000000, 30, 900, "a run with at least one failed compilation after the program was linked; distinct by event hash",
	"compiler, module cache, linker, both executors, collector: real", "host allocator (deterministic arena), host callbacks" });
