// Properties decided on generated programs driven through host histories: C01, C06, C07, C08, C09, C14 (programs).
#include "session.h"
#include "big.h"
using namespace session;
using mini::Profile;

static const char *REAL = "compiler, optimizer, linker, both executors, collector, standard modules, binding layer: all real; one process, one seeded plan";
static const char *STUB = "host allocator (deterministic arena), host callbacks and their errors, collection schedule (seam in the object allocator), nullc's console output is not used";

// ---------------------------------------------------------------- C01
static void gen01(Rng &r, Plan &p, int)
{
	if(r.chance(1, 12)){ big::gen(r, p); return; }
	static const int kinds[] = { 1, 1, 1, 2, 3, 6, 0, 7 };
	config(r, p); prog::makePlan(r, p, kinds[r.below(8)]); randomSteps(r, p, r.range(2, 7)); randomCollections(r, p);
}
static void exec01(const Plan &plan)
{
	if(plan.get("id_big")){ big::exec(plan, false); return; }
	Session s(plan); s.link();
	for(auto &o : plan.ops) s.step(o);
	s.dump();
	arena::checkAll();
	if(gcsim::s.collections > 2) sim::nontrivial();
}
static RegisterProperty r01({ "C01", "generated heap-heavy programs and host call histories; collections forced at seeded allocations, inside host callbacks and between calls; freed memory is overwritten; heaps of many pages at seeded addresses with thousands of objects held only by interior pointers", eng::warm, gen01, exec01, [](const Plan &p){ return p.get("id_big") ? big::describe() : prog::describe(p); }, 40000, 2000000, 30, 900, "a run is non-trivial when more than two collections happened; distinct by event hash", REAL, STUB });

// ---------------------------------------------------------------- C06
static void tune06(Profile &p){ p.fault = 6; p.tries = p.tries / 4; }
static void gen06(Rng &r, Plan &p, int)
{
	static const int kinds[] = { 4, 4, 5, 0, 3, 2 };
	config(r, p); prog::makePlan(r, p, kinds[r.below(6)], tune06); randomSteps(r, p, r.range(4, 12)); randomFaults(r, p, r.range(1, 5), 40);
	if(r.chance(1, 4)) p.cfg["gc_period"] = r.range(1, 20);
}
static void exec06(const Plan &plan)
{
	Session s(plan, tune06); s.link();
	s.onOutcome = [&](const mini::RefRun &rr, const eng::Result &got)
	{
		if(rr.ok) return;
		if(got.error.find("Call stack:") == std::string::npos) sim::fail("error:no-call-stack", "the error \"" + got.error + "\" has no call stack");
	};
	for(auto &o : plan.ops) s.step(o);
	s.globals(); s.dump();
	arena::checkAll();
	if(s.errorsSeen) sim::nontrivial();
}
static RegisterProperty r06({ "C06", "generated programs and host call histories with runtime errors, thrown objects and errors raised by host callbacks at seeded calls; later calls and globals must behave as the failed run left them", eng::warm, gen06, exec06, [](const Plan &p){ mini::Program *q = prog::fromPlan(p, tune06); return "program:\n" + q->text(); }, 40000, 2000000, 30, 900, "a run is non-trivial when at least one top-level call ended in an error; distinct by event hash", REAL, STUB });

// ---------------------------------------------------------------- C07
static void tune07(Profile &p){ p.fault = 8; p.tries = 45; }
static void gen07(Rng &r, Plan &p, int)
{
	static const int kinds[] = { 7, 7, 7, 3, 5, 2 };
	config(r, p); prog::makePlan(r, p, kinds[r.below(6)], tune07); randomSteps(r, p, r.range(1, 6)); randomFaults(r, p, r.range(0, 6), 30);
	if(r.chance(1, 2)) p.cfg["gc_period"] = r.range(1, 20);
}
static void exec07(const Plan &plan)
{
	Session s(plan, tune07); s.link();
	for(auto &o : plan.ops) s.step(o);
	s.globals(); s.dump();
	arena::checkAll();
	if(s.ref.errorsCaught){ sim::nontrivial(); sim::probe("errors_caught_by_try", s.ref.errorsCaught); }
}
static RegisterProperty r07({ "C07", "generated programs with nested guarded calls; runtime errors, thrown objects and host errors at seeded calls below them; everything after a guarded call must continue as sequential execution defines", eng::warm, gen07, exec07, [](const Plan &p){ mini::Program *q = prog::fromPlan(p, tune07); return "program:\n" + q->text(); }, 40000, 2000000, 30, 900, "a run is non-trivial when a guarded call caught an error; distinct by event hash", REAL, STUB });

// ---------------------------------------------------------------- C09
static void tune09(Profile &p){ p.closures = 70; p.loops = 45; p.risk = 2; p.tries = 6; p.fault = 0; }
static void gen09(Rng &r, Plan &p, int)
{
	static const int kinds[] = { 2, 2, 2, 3, 6, 1 };
	config(r, p); prog::makePlan(r, p, kinds[r.below(6)], tune09); randomSteps(r, p, r.range(2, 8)); if(r.chance(2, 3)) randomCollections(r, p);
}
static void exec09(const Plan &plan)
{
	Session s(plan, tune09); s.link();
	for(auto &o : plan.ops) s.step(o);
	s.globals(); s.dump();
	arena::checkAll();
	if(s.runs > 2) sim::nontrivial();
}
static RegisterProperty r09({ "C09", "generated closure-heavy programs (captured locals, parameters, loop variables, nested and recursive scopes) under host call histories and forced collections, against a reference that keeps one cell per variable instance", eng::warm, gen09, exec09, [](const Plan &p){ mini::Program *q = prog::fromPlan(p, tune09); return "program:\n" + q->text(); }, 40000, 2000000, 30, 900, "every run of more than two host operations; distinct by event hash", REAL, STUB });
