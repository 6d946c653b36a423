// Threads as fibers of one operating system thread: the debug adapter's threads, mutexes and condition variables run on a scheduler the plan decides.
#pragma once
#include "sim.h"
#include <functional>
namespace fib
{
	enum Kind { READ, WRITE, LOCK, UNLOCK, WAIT, SIGNAL, CREATE, OUT, IN, JOIN, START, KINDS };
	extern const char *kindName[KINDS];
	struct Config
	{
		u64 seed = 1; int policy = 0; u64 maxSteps = 400000; int fill = 0;
		std::function<void(Kind, u64)> at;	// called at every scheduling point of a thread of the program with the count of points of its kind
		std::function<bool()> clientReady; std::function<void()> atIdle;	// nothing can run
	};
	void run(const Config &c, std::function<void()> program, std::function<void()> client);	// until the program's first thread ends
	void point(Kind k);
	void block(std::function<bool()> ready, Kind k, const char *why);	// the current fiber waits
	void preempt(int choice);	// called from Config::at: give way to the client (0), the client and then another thread (1), another thread (2)
	void spurious();	// wake every thread that waits for a condition variable
	bool inClient(); bool active(); int current(); int threads(); int alive(); u64 switches(); u64 trail();	// trail: hash of the sequence of switches
	std::string where();	// what every thread waits for
}
