// The engine under simulation: bring-up, host module, trace of host callbacks.
#pragma once
#include "sim.h"
#include "NULLC/nullc.h"
#include "NULLC/nullbind.h"
#include "NULLC/nullc_debug.h"
#include "NULLC/StdLib.h"

namespace eng
{
	typedef std::vector<std::string> Trace;

	struct Hooks
	{
		// called for every host event a script produces; text is "i:5", "s:abc", ...
		std::function<void(const std::string&)> onEvent;
		// may call nullcThrowError; called by script function sim_fault(int)
		std::function<void(int)> onFault;
		// generic script -> host operation
		std::function<int(int, int, int)> onHost;
	};
	extern Hooks hooks;

	void warm();			// init with the arena allocator and all standard modules (imports preloaded)
	void initEngine();		// just nullcInitCustomAlloc + modules
	void bindHostModule();

	struct Result { bool ok = false; bool built = false; std::string value, error; };
	bool build(const std::string &src, int exec, int opt, std::string &error);	// nullcBuild with the given configuration
	Result runMain();		// nullcRunFunction(NULL)
	Result buildAndRun(const std::string &src, int exec, int opt);
	std::string errorKind(const std::string &error);	// the first line of an error
}
