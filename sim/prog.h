// Shared driver: a generated program, its reference behaviour, and the engine held to it.
#pragma once
#include "mini.h"
#include "eng.h"

namespace prog
{
	mini::Profile profile(int kind, Rng &r);	// kind: 0 mixed 1 heap 2 closures 3 coroutines 4 errors 5 host 6 strings/values 7 try
	// Plan <-> program. makePlan draws an accepted program and lists its statements as droppable operations.
	bool makePlan(Rng &rng, Plan &plan, int kind, std::function<void(mini::Profile&)> tune = nullptr);
	mini::Program* fromPlan(const Plan &plan, std::function<void(mini::Profile&)> tune = nullptr);
	struct Expect { std::vector<std::string> events; size_t pos = 0; std::string where; bool prefixOk = false; };
	// from now on every event the engine produces must be the next one of e
	void expect(Expect *e);
	void unexpected(const std::string &what);
	// compare an outcome with the reference outcome
	void compare(const char *where, const mini::RefRun &ref, const eng::Result &got, Expect &e);
	void run(const char *where, const mini::RefRun &ref);	// runs the linked program's global code and compares
	void install(mini::Ref *ref);	// host callbacks for the engine side equal to the reference's
	std::string describe(const Plan &plan);
	[[noreturn]] void rejectRun();	// a minimised program that is not usable counts as held
	void notBuilt(const std::string &where, const std::string &err);
}
