// C05: allocations that fail - refused by the host allocator, refused by the engine's own limit, or failing at a seeded script allocation.
#include "session.h"
#include "corpus.h"
using namespace session;
using mini::Profile;

static void tune(Profile &p){ p.tries = 0; p.risk = 2; p.fault = 0; p.heap += 20; p.strings += 20; p.autos += 10; }
static void gen(Rng &r, Plan &p, int)
{
	config(r, p);
	if(r.chance(1, 2)) corpus::choose(r, p); else { static const int kinds[] = { 1, 1, 2, 3, 6, 0, 5 }; p.cfg["id_gen"] = 1; prog::makePlan(r, p, kinds[r.below(7)], tune); }
	int n = r.range(1, 4);
	for(int i = 0; i < n; i++)
		switch(r.below(4))
		{
		case 0: p.ops.push_back(Op("failalloc", { r.chance(1, 2) ? r.range(1, 12) : r.range(1, 150) })); break;
		case 1: p.ops.push_back(Op("failfrom", { r.chance(1, 2) ? r.range(1, 12) : r.range(1, 150) })); break;
		case 2: p.ops.push_back(Op("limit", { r.chance(1, 2) ? r.range(0, 4000) : r.range(0, 40000) })); break;
		default: p.ops.push_back(Op("refuse", { r.range(1, 40), r.chance(1, 3) })); break;
		}
	if(r.chance(1, 3)) p.cfg["gc_period"] = r.range(1, 30);
}
static u64 limit = 0;
static void checkLimit(const char *where)
{
	if(limit && NULLC::UsedMemory() > limit) sim::fail("limit:exceeded", sim::fmt("%s: used memory is %u with the limit set to %llu", where, NULLC::UsedMemory(), (unsigned long long)limit));
}
static bool memoryError(const std::string &e)
{
	return e == "ERROR: reached global memory maximum" || e == "ERROR: allocation failed" || e == "Allocation failed." || e.find("ERROR: can't allocate array with") == 0;
}
static void arm(const Op &o)
{
	gcsim::s.failAt.clear(); gcsim::s.failFrom = false; gcsim::s.count = 0; arena::refuseReset(); limit = 0;
	nullcSetGlobalMemoryLimit(1024u * 1024 * 1024);
	if(o.name == "failalloc") gcsim::s.failAt = { u64(o.arg(0)) };
	else if(o.name == "failfrom"){ gcsim::s.failAt = { u64(o.arg(0)) }; gcsim::s.failFrom = true; }
	else if(o.name == "limit"){ NULLC::CollectMemory(); limit = NULLC::UsedMemory() + u64(o.arg(0)); nullcSetGlobalMemoryLimit(unsigned(limit)); sim::fault("memory_limit"); }
	else if(o.name == "refuse"){ arena::refuseAfter = o.arg(0); arena::refuseSticky = o.arg(1) != 0; }
}
static void disarm(){ arm(Op("none")); }
static bool isFault(const Op &o){ return o.name == "failalloc" || o.name == "failfrom" || o.name == "limit" || o.name == "refuse"; }
// an outcome under faults: everything before the error as without faults, then a memory error
static void faulted(const std::string &where, const corpus::Outcome &base, const corpus::Outcome &o, u64 fired)
{
	for(size_t i = 0; i < o.events.size(); i++)
		if(i >= base.events.size() || base.events[i] != o.events[i]) sim::fail("faulted:wrong-output", where + ": output " + std::to_string(i) + " is \"" + o.events[i] + "\" which the program does not produce without faults");
	if(!o.ok && memoryError(o.error)) { sim::probe("stopped_by_memory_error"); return; }
	if(!fired && !limit)
	{
		std::string d = corpus::difference(base, o); if(!d.empty()) sim::fail("faulted:no-fault-different", where + ": " + d);
		return;
	}
	if(o.ok && base.ok && o.result == base.result) { sim::probe("survived"); return; }
	if(!o.ok && !base.ok && o.error == base.error) return;
	sim::fail("faulted:wrong-outcome", where + ": " + (o.ok ? "the run succeeded with " + o.result : "the run stopped with \"" + o.error + "\"") + "; only a memory error or the fault-free outcome (" + (base.ok ? base.result : base.error) + ") is right");
}
static bool catchesErrors(const std::string &t){ return t.find("std.error") != std::string::npos || t.find("std.dynamic") != std::string::npos || t.find("std.gc") != std::string::npos || t.find("std.memory") != std::string::npos; }
static void exec(const Plan &plan)
{
	gcsim::configure(plan); gcsim::s.on = false;
	int ex = int(plan.get("exec")), opt = int(plan.get("opt")); std::string text; mini::Program *p = nullptr;
	if(plan.get("id_gen")){ p = prog::fromPlan(plan, tune); text = p->text(); eng::hooks.onHost = mini::defaultHost; } else text = corpus::pick(plan).text;
	corpus::Outcome base = corpus::run(text, ex, opt);
	if(!base.built) { if(p) prog::notBuilt("C05", base.error); return; }
	if(p)
	{
		mini::Ref ref(p); ref.onHost = mini::defaultHost; mini::RefRun rr; try { rr = ref.runMain(); } catch(mini::Reject&) { prog::rejectRun(); }
		if(rr.ok != base.ok || rr.events != base.events) sim::fail("behaviour:differs", "the fault-free run differs from the reference evaluator");
	}
	bool catches = !p && catchesErrors(text);
	for(auto &o : plan.ops)
	{
		if(!isFault(o)) continue;
		if(o.name == "refuse" && text.find("std.dynamic") != std::string::npos) continue;	// the compiler's own memory is not object memory
		std::string where = (ex ? "x86" : "interpreter") + sim::fmt(", optimization %d, %s %lld", opt, o.name.c_str(), o.arg(0)), err;
		gcsim::s.on = false; if(!eng::build(text, ex, opt, err)) sim::fail("rebuild:fails", where + ": the program does not compile any more: " + err);
		arm(o); gcsim::s.on = true; u64 fired0 = gcsim::s.failures + arena::refused;
		corpus::Outcome got; eng::hooks.onEvent = nullptr;
		{
			std::vector<std::string> ev; eng::hooks.onEvent = [&](const std::string &t){ ev.push_back(t); checkLimit(where.c_str()); };
			arena::refuseOn = o.name == "refuse"; eng::Result r = eng::runMain(); arena::refuseOn = false; eng::hooks.onEvent = nullptr;
			got.built = true; got.ok = r.ok; got.result = r.value; got.error = eng::errorKind(r.error); got.events = ev; got.globals = base.globals;
			sim::log("%s: %d %s %s", o.name.c_str(), got.ok, got.result.c_str(), got.error.c_str());
		}
		checkLimit(where.c_str());
		u64 fired = gcsim::s.failures + arena::refused - fired0;
		if(fired) sim::nontrivial();
		if(!catches) faulted(where, base, got, fired);
		if(!got.ok && memoryError(got.error)) sim::nontrivial();
		disarm(); gcsim::s.on = plan.get("gc_period") != 0;
		// what is left must be collectable and the program must run again, first as it is linked, then after a new link
		NULLC::CollectMemory(); arena::checkAll();
		if(p){ corpus::Outcome again = corpus::run(text, ex, opt, false); std::string d = corpus::difference(base, again); if(!d.empty()) sim::fail("rerun:differs", where + ", then run again: " + d); }
		gcsim::s.on = false; corpus::Outcome fresh = corpus::run(text, ex, opt); std::string d = corpus::difference(base, fresh);
		if(!d.empty()) sim::fail("rebuild:differs", where + ", then compiled and run again: " + d);
		sim::state(hashStr(got.error) ^ got.events.size() * 31 ^ hashStr(o.name));
	}
	arena::checkAll();
}
static std::string describe(const Plan &p){ if(p.get("id_gen")){ mini::Program *q = prog::fromPlan(p, tune); return "program:\n" + q->text(); } return corpus::describe(p); }
static RegisterProperty reg({ "C05", "generated programs and scripts collected from the repository's tests with failing allocations: the n-th script allocation, every one from the n-th on, the host allocator refusing object pages and large blocks, and tight memory limits; then the same program again without faults", eng::warm, gen, exec, describe, 40000, 2000000, 30, 900, "a run is non-trivial when an allocation was refused or a run ended in a memory error; distinct by event hash",
	"compiler, optimizer, linker, both executors, collector, object allocator, standard modules: real", "host allocator (deterministic arena that refuses object memory on request), host callbacks, failing allocation (seam in the object allocator)" });
