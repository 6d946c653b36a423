// Scripts collected from the repository's own tests, used as programs whose fault-free behaviour is the model of their behaviour under faults.
#pragma once
#include "eng.h"
namespace corpus
{
	struct Script { std::string name, text; };
	const std::vector<Script>& all();
	std::string globals();	// values of the linked program's globals of plain types
	struct Outcome { bool built = false, ok = false; std::string result, error, globals; eng::Trace events; };
	Outcome run(const std::string &text, int exec, int opt, bool link = true);	// builds unless link is false; records events
	std::string difference(const Outcome &want, const Outcome &got);	// "" when equal
	const Script& pick(const Plan &p);
	inline void choose(Rng &r, Plan &p){ p.cfg["id_script"] = r.below(u32(all().size())); }
	std::string describe(const Plan &p);
}
