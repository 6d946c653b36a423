// Random type-correct nullc programs together with a reference evaluator of the language subset they use.
#pragma once
#include "sim.h"
#include <set>

namespace mini
{
	enum K : unsigned char { VOID, CHAR, SHORT, INT, LONG, FLOAT, DOUBLE, STR, ARRI, ARRO, ARRV, OBJ, VAL, FN, GEN, AUTO, PINT, FIXI, FIXO };
	struct Ty { K k; int c; Ty(K kk = VOID, int cc = 0): k(kk), c(cc) {} bool operator==(const Ty &o) const { return k == o.k && c == o.c; } };

	// weights out of 100 unless noted
	struct Profile
	{
		int stmts = 22, funcs = 4, globals = 10, classes = 3;
		int closures = 20, gens = 15, tries = 12, risk = 6, host = 10, heap = 40, strings = 15, values = 15, autos = 12, virt = 12, loops = 25, gccall = 2, fault = 0, ptrs = 8, dbl = 10;
		int churn = 4, small = 40, burst = 35;
		bool topLevelErrors = true;	// a run may end in an uncaught error
		bool finals = true;			// dump globals at the end
		bool incExpr = true;		// ++/-- and assignments inside expressions
		int fuel = 40000;
		int maxEvents = 1500;
		std::string extraTop;		// extra declarations placed before the generated ones
	};

	struct FnDef; struct E; struct S; struct Var; struct Cls;
	struct Obj; struct Cell; struct Clo;
	struct Value { K k = VOID; int tag = 0; long long i = 0; double d = 0; Obj *o = nullptr; Cell *c = nullptr; Clo *f = nullptr; std::string *s = nullptr; };
	struct Cell { Ty ty; Value v; bool bad = false, stale = false; std::vector<std::pair<Clo*, Var*>> watch; };	// bad: addressed through a null pointer, fails when it is read or written

	struct Reject {};	// the program is not usable (too long, too deep, undefined by design)
	struct NErr { std::string text; Value obj; };	// a script error

	struct HostFn { std::string name; FnDef *fn; };

	struct Program
	{
		std::vector<Cls*> classes;
		std::vector<Var*> globals;
		std::vector<FnDef*> funcs;		// in declaration order
		std::vector<S*> mainBody;
		FnDef *mainFn = nullptr;
		std::vector<S*> byId;			// droppable statements
		std::vector<FnDef*> hostFns;	// int f(int) callable from the host
		Profile prof;
		std::string extraTop;
		std::string text() const;		// nullc source
	};
	Program* generate(u64 seed, const Profile &prof);

	struct RefRun { bool ok = false; long long ret = 0; std::string error; std::vector<std::string> events; u64 statements = 0; };
	struct Ref
	{
		Program *p; void *impl;
		explicit Ref(Program *prog);
		std::function<void(int)> onFault;	// may throw NErr
		std::function<int(int, int, int)> onHost;
		std::function<void(const std::string&)> onEvent;
		RefRun runMain();			// re-initialises globals
		RefRun callHostFn(int index, int arg);	// globals persist
		RefRun runDump();
		std::map<std::string, u64> probes;
		u64 errorsCaught = 0;
		std::string globalValue(int index);	// simple value text or "" when not simple
		u64 stateHash();
	};
	// Generates until the reference accepts; returns nullptr after too many attempts. pseed receives the accepted sub-seed.
	Program* generateAccepted(u64 seed, const Profile &prof, u64 &pseed, RefRun *out = nullptr, std::function<int(int,int,int)> host = nullptr);
	void addStmtOps(Plan &plan, Program *p);
	void enableFromPlan(const Plan &plan, Program *p);	// turns off droppable statements that are not listed
	int defaultHost(int a, int b, int c);
}
