// C04: one program, every executor / optimization level / collection schedule, one behaviour.
#include "prog.h"
using namespace mini;
static void gen(Rng &r, Plan &p, int){ prog::makePlan(r, p, int(r.below(8))); p.cfg["gc_period"] = r.range(1, 40); p.cfg["gc_offset"] = r.below(40); }
static void exec(const Plan &plan)
{
	Program *p = prog::fromPlan(plan); Ref ref(p); prog::install(&ref); RefRun rr;
	try { rr = ref.runMain(); } catch(Reject&) { prog::rejectRun(); }
	std::string text = p->text();
	for(int exec = 0; exec < 2; exec++) for(int opt = 0; opt < 3; opt++) for(int g = 0; g < 2; g++)
	{
		gcsim::configure(plan); gcsim::s.on = g != 0;
		std::string where = sim::fmt("%s, optimization %d, %s", exec ? "x86" : "interpreter", opt, g ? "with forced collections" : "without forced collections"), err;
		if(g == 0 && !eng::build(text, exec, opt, err)) prog::notBuilt(where, err);
		prog::run(where.c_str(), rr);
		if(!rr.ok) sim::probe("run_ended_in_error");
	}
	if(rr.events.size() > 5) sim::nontrivial();
}
static RegisterProperty reg({ "C04", "generated programs under both executors, three optimization levels and forced collection schedules, compared with a reference evaluator", eng::warm, gen, exec, prog::describe, 3000, 200000, 40, 600, "a run is non-trivial when the program produced more than five outputs; distinct by event hash", "", "" });
