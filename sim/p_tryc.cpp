// survey of the collected scripts (not a property)
#include "corpus.h"
static void gen(Rng &r, Plan &p, int){ static int n = 0; (void)r; const char *s = getenv("SURVEY"); p.cfg["id_script"] = s ? atoi(s) : n++; }
static void exec(const Plan &plan)
{
	const corpus::Script &s = corpus::pick(plan); corpus::Outcome base;
	if(getenv("TRYLOG")) nullcSetEnableLogFiles(1, [](const char*) -> void* { return malloc(1); }, [](void*, const char *d, unsigned n){ volatile unsigned x = 0; for(unsigned i = 0; i < n; i++) x += d[i]; }, [](void *p){ free(p); });
	for(int c = 0; c < 6; c++) for(int g = 0; g < 2; g++)
	{
		gcsim::configure(plan); gcsim::s.on = g != 0; gcsim::s.period = 1;
		if(g == 0 || getenv("REB")){ std::string err; if(!eng::build(s.text, c / 3, c % 3, err)) { if(c == 0) sim::fail("nobuild", s.name + ": " + eng::errorKind(err)); sim::fail("diff", s.name + ": build " + err); } }
		corpus::Outcome o = corpus::run(s.text, c / 3, c % 3, false);
		if(c == 0 && g == 0) base = o;
		std::string d = corpus::difference(base, o);
		if(!d.empty()) sim::fail(sim::fmt("diff"), s.name + sim::fmt(": exec %d opt %d gc %d: ", c / 3, c % 3, g) + d);
	}
	arena::checkAll();
}
static RegisterProperty reg({ "SURVEY", "", eng::warm, gen, exec, corpus::describe, 100, 100, 10, 10, "", "", "" });
