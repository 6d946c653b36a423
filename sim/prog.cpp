#include "prog.h"

namespace prog
{
	using namespace mini;
	Profile profile(int kind, Rng &r)
	{
		Profile p;
		p.stmts = r.range(10, 26); p.funcs = r.range(2, 5); p.globals = r.range(7, 13);
		switch(kind)
		{
		case 1: p.heap = 70; p.values = 30; p.autos = 25; p.churn = 12; p.strings = 25; p.risk = 2; p.ptrs = 15; p.gens = 12; p.closures = 20; break;
		case 2: p.closures = 55; p.loops = 40; p.gens = 12; p.risk = 3; p.heap = 25; p.autos = 4; p.values = 8; break;
		case 3: p.gens = 60; p.closures = 15; p.loops = 35; p.risk = 4; p.tries = 14; break;
		case 4: p.risk = 22; p.tries = 8; p.host = 12; break;
		case 5: p.host = 50; p.closures = 35; p.risk = 5; p.values = 10; break;
		case 6: p.strings = 50; p.values = 45; p.dbl = 20; p.risk = 3; break;
		case 7: p.tries = 45; p.risk = 16; p.host = 14; p.gens = 18; p.closures = 25; break;
		default: break;
		}
		return p;
	}
	bool makePlan(Rng &rng, Plan &plan, int kind, std::function<void(Profile&)> tune)
	{
		for(int i = 0; i < 20; i++)
		{
			u64 ps = rng.next() >> 2, profSeed = rng.next() >> 2; Rng pr(profSeed); Profile prof = profile(kind, pr); if(tune) tune(prof);
			u64 accepted = 0; Program *p = generateAccepted(ps, prof, accepted);
			if(!p) continue;
			plan.cfg["id_pseed"] = (long long)accepted; plan.cfg["id_prof"] = (long long)profSeed; plan.cfg["id_kind"] = kind;
			addStmtOps(plan, p); return true;
		}
		return false;
	}
	Program* fromPlan(const Plan &plan, std::function<void(Profile&)> tune)
	{
		Rng pr(u64(plan.get("id_prof"))); Profile prof = profile(int(plan.get("id_kind")), pr); if(tune) tune(prof);
		Program *p = generate(u64(plan.get("id_pseed")), prof); enableFromPlan(plan, p); return p;
	}
	static Expect *cur = nullptr;
	void expect(Expect *e)
	{
		cur = e;
		eng::hooks.onEvent = [](const std::string &t)
		{
			if(!cur) return;
			if(cur->pos >= cur->events.size()) sim::fail("behaviour:extra-output", sim::fmt("%s: the program produced \"%s\" after the %zu outputs the language semantics define", cur->where.c_str(), t.c_str(), cur->events.size()));
			if(cur->events[cur->pos] != t) sim::fail("behaviour:wrong-output", sim::fmt("%s: output %zu is \"%s\", the language semantics define \"%s\"", cur->where.c_str(), cur->pos, t.c_str(), cur->events[cur->pos].c_str()));
			cur->pos++;
		};
	}
	// An operation with constant operands that the compiler evaluates and finds to fail is a compilation error by design
	void notBuilt(const std::string &where, const std::string &err)
	{
		if(err.find("during constant folding") != std::string::npos) { sim::probe("rejected_by_constant_folding"); rejectRun(); }
		sim::fail("behaviour:does-not-compile", where + ": the program was rejected: " + err);
	}
	void compare(const char *where, const RefRun &ref, const eng::Result &got, Expect &e)
	{
		if(!got.built) notBuilt(where, got.error);
		if(ref.ok)
		{
			if(!got.ok) sim::fail("behaviour:unexpected-error:" + eng::errorKind(got.error).substr(0, 80), sim::fmt("%s: the run failed with \"%s\" after %zu of %zu outputs; the language semantics define no error", where, got.error.c_str(), e.pos, e.events.size()));
			if(e.pos != e.events.size()) sim::fail("behaviour:missing-output", sim::fmt("%s: %zu of %zu outputs were produced", where, e.pos, e.events.size()));
			if(got.value != std::to_string(ref.ret)) sim::fail("behaviour:wrong-result", sim::fmt("%s: the result is %s instead of %lld", where, got.value.c_str(), ref.ret));
		}
		else
		{
			if(got.ok) sim::fail("behaviour:missing-error", sim::fmt("%s: the run succeeded; it must stop with \"%s\"", where, ref.error.c_str()));
			if(e.pos != e.events.size()) sim::fail("behaviour:missing-output", sim::fmt("%s: %zu of %zu outputs were produced before the error \"%s\"", where, e.pos, e.events.size(), got.error.c_str()));
			std::string kind = eng::errorKind(got.error);
			bool cut = kind.size() >= 1000 && ref.error.compare(0, kind.size(), kind) == 0; // a message given by the program may be cut at the size of the error buffer
			if(kind != ref.error && !cut) sim::fail("behaviour:wrong-error", sim::fmt("%s: the run stopped with \"%s\" instead of \"%s\"", where, eng::errorKind(got.error).c_str(), ref.error.c_str()));
		}
	}
	void run(const char *where, const RefRun &ref)
	{
		Expect e; e.events = ref.events; e.where = where; expect(&e);
		eng::Result r = eng::runMain();
		sim::log("%s: ok=%d value=%s error=%s", where, r.ok, r.value.c_str(), eng::errorKind(r.error).c_str());
		compare(where, ref, r, e); expect(nullptr);
	}
	void install(Ref *ref){ ref->onHost = defaultHost; eng::hooks.onHost = defaultHost; }
	std::string describe(const Plan &plan)
	{
		Program *p = fromPlan(plan); return "program:\n" + p->text();
	}
	void rejectRun(){ sim::log("rejected"); sim::done(); }
}
