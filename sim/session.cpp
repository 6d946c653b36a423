#include "session.h"
namespace session
{
	using namespace mini;
	Session::Session(const Plan &pl, std::function<void(Profile&)> tune): plan(pl), p(prog::fromPlan(pl, tune)), ref(p), exec(int(pl.get("exec"))), opt(int(pl.get("opt")))
	{
		for(auto &o : plan.ops) { if(o.name == "fault") faultAt.insert(u64(o.arg(0))); if(o.name == "hostthrow") hostThrowAt.insert(u64(o.arg(0))); }
		collectEvery = int(plan.get("collect_every"));
		ref.onFault = [this](int){ if(faultAt.count(++refFaults)){ NErr e; e.text = "simulated host error"; throw e; } };
		ref.onHost = [this](int a, int b, int c){ if(hostThrowAt.count(++refHost)){ NErr e; e.text = "simulated host failure"; throw e; } return defaultHost(a, b, c); };
		eng::hooks.onFault = [this](int){ if(faultAt.count(++engFaults)){ sim::fault("host_error"); sim::log("fault %llu", (unsigned long long)engFaults); nullcThrowError("simulated host error"); } };
		eng::hooks.onHost = [this](int a, int b, int c)
		{
			if(collectEvery && ++engEvents % u64(collectEvery) == 0){ NULLC::CollectMemory(); sim::fault("collection_in_host_call"); }
			if(hostThrowAt.count(++engHost)){ sim::fault("host_error"); sim::log("hostthrow %llu", (unsigned long long)engHost); nullcThrowError("simulated host failure"); return 0; }
			return defaultHost(a, b, c);
		};
		gcsim::configure(plan);
	}
	RefRun Session::reference(std::function<RefRun()> fn){ try { return fn(); } catch(Reject&) { prog::rejectRun(); } }
	void Session::link()
	{
		std::string err;
		bool on = gcsim::s.on; gcsim::s.on = false;
		if(!eng::build(p->text(), exec, opt, err)) prog::notBuilt("session", err);
		gcsim::s.on = on;
	}
	void Session::execute(const std::string &where, const RefRun &rr, std::function<eng::Result()> fn)
	{
		prog::Expect e; e.events = rr.events; e.where = where; prog::expect(&e);
		eng::Result r = fn(); r.built = true; runs++;
		sim::log("%s: ok=%d value=%s error=%s", where.c_str(), r.ok, r.value.c_str(), eng::errorKind(r.error).c_str());
		prog::compare(where.c_str(), rr, r, e); prog::expect(nullptr);
		if(!rr.ok) { errorsSeen++; sim::probe("run_ended_in_error"); }
		if(onOutcome) onOutcome(rr, r);
		sim::state(hashStr(where) ^ ref.stateHash());
	}
	void Session::run()
	{
		RefRun rr = reference([&]{ return ref.runMain(); });
		execute("run", rr, []{ return eng::runMain(); });
	}
	void Session::call(int index, int arg)
	{
		if(p->hostFns.empty()) return;
		index = int(unsigned(index) % unsigned(p->hostFns.size()));
		RefRun rr = reference([&]{ return ref.callHostFn(index, arg); });
		std::string name = "hf" + std::to_string(index);
		execute(name + "(" + std::to_string(arg) + ")", rr, [&]{ eng::Result r; if(nullcRunFunction(name.c_str(), arg)){ r.ok = true; r.value = nullcGetResult(); } else r.error = nullcGetLastError(); return r; });
	}
	void Session::dump()
	{
		RefRun rr = reference([&]{ return ref.runDump(); });
		execute("dumpall", rr, []{ eng::Result r; if(nullcRunFunction("dumpall", 0)){ r.ok = true; r.value = nullcGetResult(); } else r.error = nullcGetLastError(); return r; });
	}
	void Session::globals()
	{
		if(!runs) return;
		for(size_t i = 0; i < p->globals.size(); i++)
		{
			std::string want = ref.globalValue(int(i)); if(want.empty()) continue;
			std::string name = want.substr(0, want.find('=')), got; void *ptr = nullcGetGlobal(name.c_str());
			if(!ptr) sim::fail("globals:missing", "global " + name + " cannot be read by the host");
			unsigned t = nullcGetGlobalType(name.c_str());
			if(t == NULLC_TYPE_INT) got = name + "=" + std::to_string(*(int*)ptr); else if(t == NULLC_TYPE_LONG) got = name + "=" + std::to_string(*(long long*)ptr); else if(t == NULLC_TYPE_DOUBLE) got = name + "=" + sim::fmt("%.17g", *(double*)ptr); else sim::fail("globals:wrong-type", "global " + name + " has the wrong type");
			if(got != want) sim::fail("globals:wrong-value", "the host reads " + got + " where the language semantics define " + want);
			sim::logText(got);
		}
	}
	void Session::collect(){ if(!runs) return; NULLC::CollectMemory(); sim::fault("collection_between_runs"); }
	void Session::step(const Op &o)
	{
		if(o.name == "run") run();
		else if(o.name == "call") call(int(o.arg(0)), int(o.arg(1)));
		else if(o.name == "dump") dump();
		else if(o.name == "globals") globals();
		else if(o.name == "collect") collect();
	}
	void randomSteps(Rng &r, Plan &plan, int n, bool first)
	{
		if(first) plan.ops.push_back(Op("run"));
		for(int i = 0; i < n; i++)
			switch(r.below(12))
			{
			case 0: plan.ops.push_back(Op("run")); break;
			case 1: case 2: plan.ops.push_back(Op("dump")); break;
			case 3: plan.ops.push_back(Op("globals")); break;
			case 4: plan.ops.push_back(Op("collect")); break;
			default: plan.ops.push_back(Op("call", { r.range(0, 5), r.range(-20, 100) }));
			}
	}
	void randomFaults(Rng &r, Plan &plan, int count, int range)
	{
		for(int i = 0; i < count; i++) plan.ops.push_back(Op(r.chance(3, 4) ? "fault" : "hostthrow", { r.range(1, range) }));
	}
	void randomCollections(Rng &r, Plan &plan)
	{
		switch(r.below(4))
		{
		case 0: plan.cfg["gc_period"] = 1; break;
		case 1: plan.cfg["gc_period"] = r.range(2, 8); plan.cfg["gc_offset"] = r.below(8); break;
		case 2: plan.cfg["gc_period"] = r.range(9, 60); plan.cfg["gc_offset"] = r.below(60); break;
		default: { int n = r.range(1, 12); for(int i = 0; i < n; i++) plan.ops.push_back(Op("gc", { r.range(1, 400) })); break; }
		}
		if(r.chance(1, 2)) plan.cfg["collect_every"] = r.range(1, 4);
	}
	void config(Rng &r, Plan &plan){ plan.cfg["exec"] = r.below(2); plan.cfg["opt"] = r.below(3); }
}
