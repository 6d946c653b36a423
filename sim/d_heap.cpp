// C02, C03: fixed scenarios.
#include "scripts.h"
#include "eng.h"
static void execSecond(const Plan &plan)
{
	for(int exec = 0; exec < 2; exec++) for(int opt = 0; opt < 3; opt++)
	{
		gcsim::configure(plan); gcsim::s.on = false;
		std::vector<std::string> got; eng::hooks.onEvent = [&](const std::string &t){ got.push_back(t); };
		std::string err, where = sim::fmt("%s, optimization %d: ", exec ? "x86" : "interpreter", opt);
		if(!eng::build("import sim; class F{ int id; F ref next; } void F:finalize(){ ei(id); } F ref g; void mk(int n){ for(int i = 0; i < n; i++){ F ref f = new F; f.id = i; g = f; } } mk(3); ei(100); return 5;", exec, opt, err)) sim::fail("heap:does-not-compile", where + err);
		if(!nullcRunFunction(NULL)) sim::fail("heap:main-fails", where + nullcGetLastError());
		gcsim::s.on = true; gcsim::s.period = 1;
		if(!nullcRunFunction(NULL)) sim::fail("second-run-fails", where + "running the program again fails: " + eng::errorKind(nullcGetLastError()));
		gcsim::s.on = false; nullcFinalize();
		int n = 0; for(auto &t : got) n += t != "i:100";
		if(n != 6) sim::fail("second-run-finalizers", where + sim::fmt("%d finalizers ran, expected 6", n));
	}
}
static struct AddSecond { AddSecond(){ Directed d; d.prop = "C03"; d.name = "collection-at-start-of-second-run"; d.execute = execSecond; addDirected(d); } } h2;
static void execFailing(const Plan &plan)
{
	for(int exec = 0; exec < 2; exec++) for(int opt = 0; opt < 3; opt++) for(int atEnd = 0; atEnd < 2; atEnd++)
	{
		gcsim::configure(plan); gcsim::s.on = false;
		std::map<std::string, int> got; eng::hooks.onEvent = [&](const std::string &t){ got[t]++; };
		std::string err, where = sim::fmt("%s, optimization %d: ", exec ? "x86" : "interpreter", opt);
		if(!eng::build("import sim; class F{ int id; } void F:finalize(){ ei(id); int[] a = new int[1]; if(id % 3 == 2) a[id] = 1; } void mk(int n){ for(int i = 0; i < n; i++){ F ref f = new F; f.id = i; } F[] a = new F[5]; for(int i = 0; i < 5; i++) a[i].id = 100 + i; } mk(10); return 5;", exec, opt, err)) sim::fail("heap:does-not-compile", where + err);
		if(!nullcRunFunction(NULL)) sim::fail("heap:main-fails", where + nullcGetLastError());
		if(!atEnd) for(int i = 0; i < 3; i++) NULLC::CollectMemory();
		nullcFinalize();
		for(int i = 0; i < 15; i++) { int k = i < 10 ? i : 90 + i, c = got[sim::fmt("i:%d", k)]; if(c != 1) sim::fail("finalizer-count", where + sim::fmt("some finalizers fail: the finalizer of object %d ran %d times", k, c)); }
	}
}
static struct AddFailing { AddFailing(){ Directed d; d.prop = "C03"; d.name = "failing-finalizers"; d.execute = execFailing; addDirected(d); } } h3;
