// Module registry, programs that use it and engine restarts: texts built from small templates with a model of what they do.
#pragma once
#include "eng.h"
#include <set>
#include <memory>

namespace life
{
	struct Mod { std::string name; int ver = 0; std::vector<std::string> deps; };
	typedef std::map<std::string, Mod> Registry;
	std::string modText(const Mod &m);
	std::string ident(const std::string &name);		// dots are replaced
	std::string path(const std::string &name);		// key in the registry
	struct Prog { int seed = 0; std::vector<std::string> imports; };
	std::string progText(const Prog &p);
	// a linked program: its own view of the modules, its globals
	struct Inst
	{
		Prog p; Registry mods; std::map<std::string, int> glob; int pg = 0; bool ran = false;
		std::vector<std::string> run(long long &ret); std::vector<std::string> hf(int x, long long &ret, bool &fails);
		int val(const std::string &n); int inc(const std::string &n, int k);
	};
	bool closed(const Registry &r, const std::string &n, const Registry &known);
	std::vector<std::string> enumerate();
}
