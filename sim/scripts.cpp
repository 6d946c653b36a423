// Fixed scripts with their defined behaviour: each is run under every executor, optimization level and collection mode.
#include "prog.h"
#include "scripts.h"

namespace scripts
{
	static void expectation(const std::string &t, mini::RefRun &r)
	{
		size_t pos = 0;
		while(pos < t.size())
		{
			size_t e = t.find('\n', pos); if(e == std::string::npos) e = t.size();
			std::string l = t.substr(pos, e - pos); pos = e + 1;
			if(l.empty()) continue;
			if(!l.compare(0, 3, "=> ")){ r.ok = true; r.ret = atoll(l.c_str() + 3); }
			else if(!l.compare(0, 3, "!! ")){ r.ok = false; r.error = l.substr(3); }
			else r.events.push_back(l);
		}
	}
	void execScript(const Plan &plan)
	{
		std::string text, want;
		for(auto &o : plan.ops) { if(o.name == "=text") text = o.s; if(o.name == "=want") want = o.s; }
		mini::RefRun rr; expectation(want, rr);
		eng::hooks.onHost = mini::defaultHost;
		int mask = int(plan.get("id_mask", 077));
		for(int exec = 0; exec < 2; exec++) for(int opt = 0; opt < 3; opt++) for(int g = 0; g < 2; g++)
		{
			if(!(mask >> (exec * 3 + opt) & 1)) continue;
			gcsim::configure(plan); gcsim::s.on = g != 0; gcsim::s.period = 1;
			std::string where = sim::fmt("%s, optimization %d, %s", exec ? "x86" : "interpreter", opt, g ? "collection at every allocation" : "without forced collections"), err;
			if(g == 0 && !eng::build(text, exec, opt, err)) sim::fail("behaviour:does-not-compile", where + ": " + err);
			prog::run(where.c_str(), rr);
		}
	}
	Add::Add(const char *prop, const char *name, const char *text, const char *want, int mask)
	{
		Directed d; d.prop = prop; d.name = name; d.execute = execScript;
		d.plan.cfg["id_mask"] = mask;
		d.plan.ops.push_back(Op("=text", {}, text)); d.plan.ops.push_back(Op("=want", {}, want));
		addDirected(d);
	}
}
