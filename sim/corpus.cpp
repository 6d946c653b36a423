#include "corpus.h"
asm(".section .rodata\n.global corpus_data\ncorpus_data:\n.incbin \"corpus.txt\"\n.byte 0\n.text\n");
extern "C" const char corpus_data[];
namespace corpus
{
	const std::vector<Script>& all()
	{
		static std::vector<Script> v;
		if(v.empty())
			for(const char *p = corpus_data; *p == 1; )
			{
				const char *e = strchr(p + 1, '\n'); Script s; s.name.assign(p + 1, e); const char *q = e + 1; while(*q && *q != 1) q++;
				s.text.assign(e + 1, q); v.push_back(s); p = q;
			}
		return v;
	}
	const Script& pick(const Plan &p){ return all()[size_t(p.get("id_script")) % all().size()]; }
	std::string describe(const Plan &p){ return "script " + pick(p).name + ":\n" + pick(p).text; }
	std::string globals()
	{
		std::string r; unsigned nv = 0, nt = 0, ns = 0, nd = 0;
		ExternVarInfo *v = nullcDebugVariableInfo(&nv); ExternTypeInfo *t = nullcDebugTypeInfo(&nt); char *sym = nullcDebugSymbols(&ns); char *data = (char*)nullcGetVariableData(&nd);
		if(!v || !t || !data) return r;
		for(unsigned i = 0; i < nv; i++)
		{
			if(v[i].type >= nt || v[i].offset + t[v[i].type].size > nd) continue;
			const char *n = sym + v[i].offsetToName; if(!*n || *n == '$' || strchr(n, '$')) continue;
			unsigned ty = v[i].type, count = 1; char *p = data + v[i].offset;
			if(t[ty].subCat == ExternTypeInfo::CAT_ARRAY && t[ty].arrSize != ~0u){ count = t[ty].arrSize; ty = t[ty].subType; if(count > 64) count = 64; }
			if(ty != NULLC_TYPE_BOOL && ty != NULLC_TYPE_CHAR && ty != NULLC_TYPE_SHORT && ty != NULLC_TYPE_INT && ty != NULLC_TYPE_LONG && ty != NULLC_TYPE_FLOAT && ty != NULLC_TYPE_DOUBLE) continue;
			r += n; r += '=';
			for(unsigned k = 0; k < count; k++)
			{
				switch(ty)
				{
				case NULLC_TYPE_BOOL: case NULLC_TYPE_CHAR: r += std::to_string(int(*p)); p += 1; break;
				case NULLC_TYPE_SHORT: r += std::to_string(int(*(short*)p)); p += 2; break;
				case NULLC_TYPE_INT: r += std::to_string(*(int*)p); p += 4; break;
				case NULLC_TYPE_LONG: r += std::to_string(*(long long*)p); p += 8; break;
				case NULLC_TYPE_FLOAT: r += sim::fmt("%.9g", *(float*)p); p += 4; break;
				default: r += sim::fmt("%.17g", *(double*)p); p += 8; break;
				}
				r += ' ';
			}
		}
		return r;
	}
	Outcome run(const std::string &text, int exec, int opt, bool link)
	{
		Outcome o; std::string err;
		auto old = eng::hooks.onEvent;
		if(link && !eng::build(text, exec, opt, err)){ o.error = err; return o; }
		o.built = true;
		eng::hooks.onEvent = [&](const std::string &t){ o.events.push_back(t); };
		eng::Result r = eng::runMain();
		eng::hooks.onEvent = old;
		o.ok = r.ok; o.result = r.value; o.error = eng::errorKind(r.error); o.globals = globals();
		sim::log("%d %s %s %s", o.ok, o.result.c_str(), o.error.c_str(), o.globals.c_str());
		return o;
	}
	std::string difference(const Outcome &w, const Outcome &g)
	{
		if(w.built != g.built) return "build: " + (w.built ? "fails with " + g.error : "succeeds instead of failing with " + w.error);
		if(!w.built) return "";
		for(size_t i = 0; i < w.events.size() && i < g.events.size(); i++) if(w.events[i] != g.events[i]) return "output " + std::to_string(i) + " is \"" + g.events[i] + "\" instead of \"" + w.events[i] + "\"";
		if(w.ok != g.ok) return w.ok ? "the run fails with \"" + g.error + "\"" : "the run succeeds instead of failing with \"" + w.error + "\"";
		if(w.events.size() != g.events.size()) return "number of outputs " + std::to_string(g.events.size()) + " instead of " + std::to_string(w.events.size());
		if(w.result != g.result) return "result " + g.result + " instead of " + w.result;
		if(w.error != g.error) return "error \"" + g.error + "\" instead of \"" + w.error + "\"";
		if(w.globals != g.globals) return "global variables " + g.globals + " instead of " + w.globals;
		return "";
	}
}
