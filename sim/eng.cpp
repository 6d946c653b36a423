#include "eng.h"
#include "NULLC/includes/file.h"
#include "NULLC/includes/io.h"
#include "NULLC/includes/math.h"
#include "NULLC/includes/string.h"
#include "NULLC/includes/vector.h"
#include "NULLC/includes/random.h"
#include "NULLC/includes/time.h"
#include "NULLC/includes/gc.h"
#include "NULLC/includes/memory.h"
#include "NULLC/includes/error.h"
#include "NULLC/includes/pugi.h"
#include "NULLC/includes/canvas.h"
#include "NULLC/includes/typeinfo.h"
#include "NULLC/includes/dynamic.h"

namespace eng
{
	Hooks hooks;
	static void event(const std::string &t){ sim::logText(t); sim::step(); if(hooks.onEvent) hooks.onEvent(t); }

	static void emitI(int v){ event("i:" + std::to_string(v)); }
	static void emitL(long long v){ event("l:" + std::to_string(v)); }
	static void emitD(double v){ event(sim::fmt("d:%.17g", v)); }
	static void emitS(NULLCArray s)
	{
		std::string t = "s:"; 
		for(unsigned i = 0; i < s.len; i++) { if(!s.ptr[i] && i + 1 == s.len) break; t += s.ptr[i]; }
		event(t);
	}
	static void simFault(int k){ if(hooks.onFault) hooks.onFault(k); }
	static int simHost(int a, int b, int c){ return hooks.onHost ? hooks.onHost(a, b, c) : 0; }
	// host calling back into the script: f(x)
	static int hostCall(NULLCFuncPtr f, int x)
	{
		sim::probe("host_callback");
		if(!nullcCallFunction(f, x)) return -1;	// the error stays pending and must reach the outer run
		return nullcGetResultInt();
	}
	static int rawSum(int a, long long b, double c, char d, short e){ return int(a + b + (long long)c + d + e); }

	void bindHostModule()
	{
		nullcLoadModuleBySource("sim",
			"void ei(int v); void el(long v); void ed(double v); void es(char[] s);"
			"void sim_fault(int k); int sim_host(int a, b, c);"
			"int hostcall(int ref(int) f, int x); int rawcall(int ref(int) f, int x);"
			"int rawsum(int a, long b, double c, char d, short e);");
		nullcBindModuleFunctionHelper("sim", emitI, "ei", 0);
		nullcBindModuleFunctionHelper("sim", emitL, "el", 0);
		nullcBindModuleFunctionHelper("sim", emitD, "ed", 0);
		nullcBindModuleFunctionHelper("sim", emitS, "es", 0);
		nullcBindModuleFunctionHelper("sim", simFault, "sim_fault", 0);
		nullcBindModuleFunctionHelper("sim", simHost, "sim_host", 0);
		nullcBindModuleFunctionHelper("sim", hostCall, "hostcall", 0);
		nullcBindModuleFunction("sim", (void(*)())hostCall, "rawcall", 0);
		nullcBindModuleFunction("sim", (void(*)())rawSum, "rawsum", 0);
	}

	void initEngine()
	{
		if(!nullcInitCustomAlloc(arena::alloc, arena::dealloc)){ fprintf(stderr, "nullcInit failed: %s\n", nullcGetLastError()); exit(3); }
		nullcAddImportPath("/repo/Modules/");
		bool ok = nullcInitTypeinfoModule() && nullcInitDynamicModule() && nullcInitFileModule() && nullcInitIOModule() && nullcInitMathModule() && nullcInitStringModule()
			&& nullcInitRandomModule() && nullcInitTimeModule() && nullcInitGCModule() && nullcInitMemoryModule() && nullcInitErrorModule() && nullcInitPugiXMLModule() && nullcInitVectorModule();
		if(!ok){ fprintf(stderr, "module init failed: %s\n", nullcGetLastError()); exit(3); }
		bindHostModule();
	}
	void warm()
	{
		initEngine();
		// preload script-only modules into the cache
		nullcSetOptimizationLevel(2);
		if(!nullcCompile("import std.hashmap; import std.list; import std.vector; import std.string; import std.error; import std.gc; import std.dynamic; import std.algorithm; import std.event; import std.range; import sim; return 1;")){ fprintf(stderr, "preload: %s\n", nullcGetLastError()); exit(3); }
		nullcClean();
	}

	std::string errorKind(const std::string &e){ size_t p = e.find_first_of("\r\n"); return e.substr(0, p); }

	bool build(const std::string &src, int exec, int opt, std::string &error)
	{
		nullcSetExecutor(exec ? NULLC_X86 : NULLC_REG_VM);
		nullcSetOptimizationLevel(opt);
		if(!nullcBuild(src.c_str())){ error = nullcGetLastError(); return false; }
		return true;
	}
	Result runMain()
	{
		Result r; r.built = true;
		if(nullcRunFunction(NULL)){ r.ok = true; r.value = nullcGetResult(); }
		else r.error = nullcGetLastError();
		return r;
	}
	Result buildAndRun(const std::string &src, int exec, int opt)
	{
		Result r;
		if(!build(src, exec, opt, r.error)) return r;
		return runMain();
	}
}
