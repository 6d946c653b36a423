// A linked generated program driven by the host through a history of operations, held to the reference after every one of them.
#pragma once
#include "prog.h"
namespace NULLC { void CollectMemory(); }

namespace session
{
	struct Session
	{
		const Plan &plan; mini::Program *p; mini::Ref ref; int exec, opt;
		u64 refFaults = 0, engFaults = 0, refHost = 0, engHost = 0, engEvents = 0;
		std::set<u64> faultAt, hostThrowAt; int collectEvery = 0;
		u64 errorsSeen = 0, runs = 0;
		explicit Session(const Plan &pl, std::function<void(mini::Profile&)> tune = nullptr);
		void link();					// build and link; reports a violation when the program does not compile
		void run();						// global code from the start
		void call(int index, int arg);	// script function hfN(arg)
		void dump();					// script function that prints everything reachable from globals
		void globals();					// simple globals read by the host
		void collect();
		void step(const Op &op);		// run, call i arg, dump, globals, gc
		mini::RefRun reference(std::function<mini::RefRun()> fn);	// Reject ends the run as held
		std::function<void(const mini::RefRun&, const eng::Result&)> onOutcome;
		void execute(const std::string &where, const mini::RefRun &rr, std::function<eng::Result()> fn);
	};
	void randomSteps(Rng &r, Plan &plan, int n, bool startWithRun = true);
	void randomFaults(Rng &r, Plan &plan, int count, int range);	// ops "fault n" (n-th sim_fault raises an error) and "hostthrow n"
	void randomCollections(Rng &r, Plan &plan);
	void config(Rng &r, Plan &plan);
}
