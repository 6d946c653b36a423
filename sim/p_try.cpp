// Debug helper: run a script file under a configuration (not a property).
#include "eng.h"
#include "mini.h"
#include <fstream>
#include <sstream>
static void execTry(const Plan &p)
{
	std::ifstream f(getenv("TRY")); std::stringstream ss; ss << f.rdbuf();
	gcsim::configure(p); eng::hooks.onHost = mini::defaultHost;
	if(getenv("TRYGC")){ gcsim::s.period = atoi(getenv("TRYGC")); }
	const char *cf = getenv("TRYCFG");
	for(int exec = 0; exec < 2; exec++) for(int opt = 0; opt < 3; opt++)
	{
		if(cf && atoi(cf) != exec * 10 + opt) continue;
		gcsim::s.count = 0;
		sim::log("--- exec %d opt %d", exec, opt);
		if(getenv("TRYLOG")) nullcSetEnableLogFiles(1, 0, 0, 0);
		eng::Result r = eng::buildAndRun(ss.str(), exec, opt);
		sim::log("ok=%d built=%d value=%s error=%s", r.ok, r.built, r.value.c_str(), r.error.c_str());
	}
}
static void gen(Rng&, Plan&, int){}
static RegisterProperty reg({ "TRY", "debug", eng::warm, gen, execTry, nullptr, 1, 1, 10, 10, "", "", "" });
