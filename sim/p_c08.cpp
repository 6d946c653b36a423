// C08: coroutine instances resumed in seeded orders, from the script and from the host, with collections and failing calls between resumptions.
#include "session.h"
using namespace session;
using mini::Profile;
static void tune(Profile &p){ p.gens = 75; p.loops = 40; p.risk = 5; p.tries = 14; p.fault = 5; p.globals += 3; p.closures = 18; }
static void gen(Rng &r, Plan &p, int)
{
	config(r, p); prog::makePlan(r, p, 3, tune); randomSteps(r, p, r.range(4, 16));
	if(r.chance(1, 2)) randomFaults(r, p, r.range(1, 5), 60);
	if(r.chance(2, 3)) randomCollections(r, p);
}
static void exec(const Plan &plan)
{
	Session s(plan, tune); s.link();
	for(auto &o : plan.ops) s.step(o);
	s.globals(); s.dump();
	arena::checkAll();
	if(s.ref.probes["yield"] > 3 || s.runs > 3) sim::nontrivial();
	for(auto &i : s.ref.probes) if(i.second) sim::probe(i.first.c_str(), i.second);
}
static RegisterProperty reg({ "C08", "generated coroutine-heavy programs (local coroutines, generators, generators in loops and captured by closures) resumed in seeded orders by the script and by the host, with forced collections and failing calls in between, against a reference that runs every instance as its own sequential execution", eng::warm, gen, exec, [](const Plan &p){ mini::Program *q = prog::fromPlan(p, tune); return "program:\n" + q->text(); }, 40000, 2000000, 30, 900, "a run of more than three host operations or resumptions; distinct by event hash",
	"compiler, optimizer, linker, both executors, collector, standard modules: all real; one process, one seeded plan", "host allocator (deterministic arena), host callbacks and their errors, collection schedule (seam in the object allocator)" });
