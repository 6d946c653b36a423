#pragma once
#include "sim.h"
namespace scripts
{
	// text is run with both executors and the optimization levels in mask (bit exec*3+opt), with and without a collection at every allocation;
	// want lists the outputs, then "=> result" or "!! error"
	struct Add { Add(const char *prop, const char *name, const char *text, const char *want, int mask = 077); };
	void execScript(const Plan &plan);
}
