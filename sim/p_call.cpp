// C14: host functions of many signatures (raw and wrapped), script functions of the same signatures called by the host, alternating to seeded depths, with collections and errors in between.
#include "eng.h"
#include <memory>
namespace NULLC { void CollectMemory(); }
namespace
{
	struct ClassDef { const char *name, *members; int nest; };	// members from 'nest' on are in a member of another class, unless it is 0; -1: they are in an array; 100 + k: those from k on are in an array
	struct SigDef { const char *ret; std::vector<const char*> args; };
	template<int K> struct Tag {};
	typedef std::string Flat;
	// a value of a script type as leaves
	struct Leaf { long long i = 0; double d = 0; };
	struct Val { std::string type; std::vector<Leaf> v; std::string s; };
	struct In { const std::vector<Val> *vals; size_t k = 0, leaf = 0; const Val& cur(){ return (*vals)[k]; } const Leaf& next(){ const Leaf &l = (*vals)[k].v[leaf++]; if(leaf == (*vals)[k].v.size()){ k++; leaf = 0; } return l; } const Val& whole(){ leaf = 0; return (*vals)[k++]; } };
	void put(Flat &o, char v){ o += "c" + std::to_string(int(v)) + " "; }
	void put(Flat &o, short v){ o += "s" + std::to_string(int(v)) + " "; }
	void put(Flat &o, int v){ o += "i" + std::to_string(v) + " "; }
	void put(Flat &o, bool v){ o += v ? "b1 " : "b0 "; }
	void put(Flat &o, long long v){ o += "l" + std::to_string(v) + " "; }
	void put(Flat &o, float v){ o += sim::fmt("f%.9g ", double(v)); }
	void put(Flat &o, double v){ o += sim::fmt("d%.17g ", v); }
	void get(In &o, char &v){ v = char(o.next().i); }
	void get(In &o, short &v){ v = short(o.next().i); }
	void get(In &o, int &v){ v = int(o.next().i); }
	void get(In &o, bool &v){ v = o.next().i != 0; }
	void get(In &o, long long &v){ v = o.next().i; }
	void get(In &o, float &v){ v = float(o.next().d); }
	void get(In &o, double &v){ v = o.next().d; }
	// while the host prepares arguments nothing but its own C++ variables holds them
	struct HostHold { bool on; HostHold(): on(gcsim::s.on) { gcsim::s.on = false; } void off(){ gcsim::s.on = on; } };
	typedef std::function<void(Flat&)> Fill;
	struct World; World *world;
	const int NTID = 5, NG = 8;
	unsigned tids[NTID]; 	// int, double, KII, char, int[]
	int tidIndex(unsigned t){ for(int i = 0; i < NTID; i++) if(tids[i] == t) return i; return -1; }
	struct HostCall { int sig; Fill fill; Val ret; HostCall(int s, const Fill &f): sig(s), fill(f) {} const Val& result(); };
	// what the host sees of an argument
	template<typename T> void arg(Flat &o, Tag<'K'>, const T &v){ put(o, v); }
	template<int K, typename T> void arg(Flat &o, Tag<K>, const T &v){ put(o, v); }
	void putInts(Flat &o, const char *p, unsigned n){ o += "[" + std::to_string(n) + " "; for(unsigned i = 0; i < n && i < 50; i++) put(o, ((const int*)p)[i]); }
	void arg(Flat &o, Tag<'A'>, const NULLCArray &v){ putInts(o, v.ptr, v.len); }
	void arg(Flat &o, Tag<'C'>, const NULLCArray &v){ o += "\"" + std::string(v.ptr ? v.ptr : "(null)", v.ptr && v.len ? v.len - 1 : 0) + "\" "; }
	void arg(Flat &o, Tag<'P'>, int *v){ if(v) put(o, *v); else o += "null "; }
	void arg(Flat &o, Tag<'R'>, const NULLCRef &v){ int k = tidIndex(v.typeID); o += "t" + std::to_string(k) + " "; if(!v.ptr) o += "null "; else if(k == 0) put(o, *(int*)v.ptr); else if(k == 1) put(o, *(double*)v.ptr); else if(k == 2){ put(o, ((int*)v.ptr)[0]); put(o, ((int*)v.ptr)[1]); } }
	void arg(Flat &o, Tag<'G'>, const NULLCFuncPtr &v);
	void arg(Flat &o, Tag<'U'>, const NULLCAutoArray &v){ o += "t" + std::to_string(tidIndex(v.typeID)) + " "; putInts(o, v.ptr, v.len); }
	void arg(Flat &o, Tag<'T'>, unsigned v){ o += "T" + std::to_string(tidIndex(v)) + " "; }
	NULLCArray intArray(const Val &v){ NULLCArray a = nullcAllocateArrayTyped(tids[0], unsigned(v.v.size())); for(unsigned i = 0; i < a.len; i++) ((int*)a.ptr)[i] = int(v.v[i].i); return a; }
	NULLCFuncPtr gfunc(long long k){ NULLCFuncPtr *f = (NULLCFuncPtr*)nullcGetGlobal("gfuncs"); return f[k & (NG - 1)]; }
	// values the host makes
	template<typename T> T make(const Val &v){ std::vector<Val> one{ v }; In in; in.vals = &one; T t; get(in, t); return t; }
	template<typename T> T back(Tag<'K'>, T*, const Val &v);
	template<int K, typename T> T back(Tag<K>, T*, const Val &v);
	NULLCArray back(Tag<'A'>, NULLCArray*, const Val &v){ return intArray(v); }
	NULLCArray back(Tag<'C'>, NULLCArray*, const Val &v){ NULLCArray a = nullcAllocateArrayTyped(tids[3], unsigned(v.s.size() + 1)); memcpy(a.ptr, v.s.c_str(), v.s.size() + 1); return a; }
	int* back(Tag<'P'>, int**, const Val &v){ int *p = (int*)nullcAllocateTyped(tids[0]); *p = int(v.v[0].i); return p; }
	NULLCRef back(Tag<'R'>, NULLCRef*, const Val &v){ int k = int(v.v[0].i); NULLCRef r = nullcAllocateObjectTyped(tids[k]); if(k == 0) *(int*)r.ptr = int(v.v[1].i); else if(k == 1) *(double*)r.ptr = v.v[1].d; else { ((int*)r.ptr)[0] = int(v.v[1].i); ((int*)r.ptr)[1] = int(v.v[2].i); } return r; }
	NULLCFuncPtr back(Tag<'G'>, NULLCFuncPtr*, const Val &v){ return gfunc(v.v[0].i); }
	NULLCAutoArray back(Tag<'U'>, NULLCAutoArray*, const Val &v){ NULLCArray a = intArray(v); NULLCAutoArray u; u.typeID = tids[0]; u.ptr = a.ptr; u.len = a.len; return u; }
	unsigned back(Tag<'T'>, unsigned*, const Val &v){ return tids[v.v[0].i]; }
	template<int K, typename T> auto val(In &in, Tag<K> t, T *p){ return back(t, p, in.whole()); }
	// default argument promotions for variadic calls
	int val(In &in, Tag<'c'>, char*){ return int(in.next().i); } int val(In &in, Tag<'s'>, short*){ return int(in.next().i); } int val(In &in, Tag<'b'>, bool*){ return int(in.next().i); } double val(In &in, Tag<'f'>, float*){ return in.next().d; }
}
#include "calls_sigs.inc"
namespace
{
	template<typename T> T back(Tag<'K'>, T*, const Val &v){ return make<T>(v); }
	template<int K, typename T> T back(Tag<K>, T*, const Val &v){ return make<T>(v); }

	const char* members(const std::string &t){ for(auto &c : classDefs) if(t == c.name) return c.members; return nullptr; }
	int nest(const std::string &t){ for(auto &c : classDefs) if(t == c.name) return c.nest; return 0; }
	std::string path(const std::string &t, size_t i){ int k = nest(t); if(k < 0) return sim::fmt("a[%zu]", i); if(k >= 100) return i >= size_t(k - 100) ? sim::fmt("a[%zu]", i - size_t(k - 100)) : sim::fmt("m%zu", i); return k && i >= size_t(k) ? sim::fmt("n.m%zu", i) : sim::fmt("m%zu", i); }
	const char* scriptType(const std::string &t)
	{
		static std::map<std::string, const char*> m = { { "c", "char" }, { "s", "short" }, { "i", "int" }, { "l", "long" }, { "f", "float" }, { "d", "double" }, { "b", "bool" }, { "A", "int[]" }, { "C", "char[]" }, { "P", "int ref" }, { "R", "auto ref" }, { "G", "int ref(int)" }, { "U", "auto[]" }, { "T", "typeid" }, { "v", "void" } };
		auto i = m.find(t); if(i != m.end()) return i->second; for(auto &c : classDefs) if(t == c.name) return c.name; return "?";
	}
	Leaf leaf(Rng &r, char t)
	{
		Leaf l; int e = r.below(6);
		switch(t)
		{
		case 'c': l.i = e == 0 ? 127 : e == 1 ? -128 : r.range(-100, 100); break;
		case 's': l.i = e == 0 ? 32767 : e == 1 ? -32768 : r.range(-3000, 3000); break;
		case 'i': l.i = e == 0 ? 2147483647 : e == 1 ? -2147483647 : r.range(-100000, 100000); break;
		case 'b': l.i = r.below(2); break;
		case 'l': l.i = e == 0 ? 0x7fffffffffffffffll : e == 1 ? -0x7fffffffffffffffll : e == 2 ? (long long)(r.next() >> 8) - (1ll << 54) : r.range(-1000, 1000); break;
		case 'f': l.d = e == 0 ? r.range(-4000, 4000) * 1048576.0 : e == 1 ? r.range(-4000, 4000) * 1099511627776.0 : r.range(-4000, 4000) * 0.5; break;
		case 'd': l.d = e == 0 ? r.range(-1000000, 1000000) * 1048576.5 : r.range(-4000, 4000) * 0.5; break;
		}
		return l;
	}
	Val value(u64 seed, const std::string &t)
	{
		Rng r(seed); Val v; v.type = t; auto I = [](long long i){ Leaf l; l.i = i; return l; };
		if(const char *m = members(t)) for(; *m; m++) v.v.push_back(leaf(r, *m));
		else switch(t[0])
		{
		case 'A': case 'U': { int n = r.range(1, 6); for(int i = 0; i < n; i++) v.v.push_back(leaf(r, 'i')); break; }
		case 'C': { int n = r.range(0, 12); for(int i = 0; i < n; i++) v.s += char('a' + r.below(26)); break; }
		case 'P': v.v.push_back(leaf(r, 'i')); break;
		case 'R': { int k = r.below(3); v.v.push_back(I(k)); v.v.push_back(leaf(r, k == 1 ? 'd' : 'i')); if(k == 2) v.v.push_back(leaf(r, 'i')); break; }
		case 'G': v.v.push_back(I(r.below(NG))); break;
		case 'T': v.v.push_back(I(r.below(NTID))); break;
		case 'v': break;
		default: v.v.push_back(leaf(r, t[0])); break;
		}
		return v;
	}
	int gcall(long long k, int x){ return int(unsigned(x) * 3u + unsigned(k) * 11u); }
	void putLeaf(Flat &o, char t, const Leaf &l)
	{
		switch(t){ case 'c': put(o, char(l.i)); break; case 's': put(o, short(l.i)); break; case 'i': put(o, int(l.i)); break; case 'b': put(o, l.i != 0); break; case 'l': put(o, (long long)l.i); break; case 'f': put(o, float(l.d)); break; case 'd': put(o, l.d); break; }
	}
	// the model's form of what the host sees
	void flat(Flat &o, const Val &v)
	{
		if(const char *m = members(v.type)){ for(size_t i = 0; m[i]; i++) putLeaf(o, m[i], v.v[i]); return; }
		auto ints = [&]{ o += "[" + std::to_string(v.v.size()) + " "; for(auto &l : v.v) putLeaf(o, 'i', l); };
		switch(v.type[0])
		{
		case 'A': ints(); break;
		case 'U': o += "t0 "; ints(); break;
		case 'C': o += "\"" + v.s + "\" "; break;
		case 'P': putLeaf(o, 'i', v.v[0]); break;
		case 'R': { int k = int(v.v[0].i); o += "t" + std::to_string(k) + " "; putLeaf(o, k == 1 ? 'd' : 'i', v.v[1]); if(k == 2) putLeaf(o, 'i', v.v[2]); break; }
		case 'G': o += "g" + std::to_string(gcall(v.v[0].i, 5)) + " "; break;
		case 'T': o += "T" + std::to_string(v.v[0].i) + " "; break;
		default: putLeaf(o, v.type[0], v.v[0]);
		}
	}
	// the events of e_T(x) in the script
	void shown(std::vector<std::string> &e, const Val &v)
	{
		auto L = [&](char t, const Leaf &l){ if(t == 'l') e.push_back("l:" + std::to_string(l.i)); else if(t == 'f' || t == 'd') e.push_back(sim::fmt("d:%.17g", l.d)); else e.push_back("i:" + std::to_string(l.i)); };
		if(const char *m = members(v.type)){ for(size_t i = 0; m[i]; i++) L(m[i], v.v[i]); return; }
		switch(v.type[0])
		{
		case 'A': case 'U': e.push_back("i:" + std::to_string(v.v.size())); for(auto &l : v.v) L('i', l); break;
		case 'C': e.push_back("s:" + v.s); break;
		case 'P': L('i', v.v[0]); break;
		case 'R': { int k = int(v.v[0].i); e.push_back("i:" + std::to_string(k)); L(k == 1 ? 'd' : 'i', v.v[1]); if(k == 2) L('i', v.v[2]); break; }
		case 'G': e.push_back("i:" + std::to_string(gcall(v.v[0].i, 7))); break;
		case 'T': e.push_back("i:" + std::to_string(v.v[0].i)); break;
		default: L(v.type[0], v.v[0]);
		}
	}
	std::string literal(char t, const Leaf &l)
	{
		switch(t)
		{
		case 'c': return sim::fmt("char(%lld)", l.i); case 's': return sim::fmt("short(%lld)", l.i); case 'b': return l.i ? "true" : "false";
		case 'l': return l.i < 0 ? sim::fmt("(0l - %lldl)", -l.i) : sim::fmt("%lldl", l.i); case 'f': return sim::fmt("%.1ff", l.d); case 'd': return sim::fmt("%.1f", l.d);
		default: return l.i < 0 ? sim::fmt("(0 - %lld)", -l.i) : std::to_string(l.i);
		}
	}
	std::string declare(const Val &v, const std::string &name, bool heap)
	{
		std::string T = scriptType(v.type), s; const char *N = name.c_str();
		if(const char *m = members(v.type)){ s = T + " " + name + ";"; for(size_t i = 0; m[i]; i++) s += sim::fmt(" %s.%s = %s;", N, path(v.type, i).c_str(), literal(m[i], v.v[i]).c_str()); return s; }
		auto list = [&](const char *vn){ std::string t; if(heap){ t = sim::fmt("int[] %s = new int[%zu];", vn, v.v.size()); for(size_t i = 0; i < v.v.size(); i++) t += sim::fmt(" %s[%zu] = %s;", vn, i, literal('i', v.v[i]).c_str()); } else { t = sim::fmt("int[%zu] %s_f; int[] %s = %s_f;", v.v.size(), vn, vn, vn); for(size_t i = 0; i < v.v.size(); i++) t += sim::fmt(" %s[%zu] = %s;", vn, i, literal('i', v.v[i]).c_str()); } return t; };
		switch(v.type[0])
		{
		case 'A': return list(N);
		case 'U': return list((name + "_a").c_str()) + sim::fmt(" auto[] %s = %s_a;", N, N);
		case 'C': return sim::fmt("char[] %s = \"%s\";", N, v.s.c_str());
		case 'P': return heap ? sim::fmt("int ref %s = new int; *%s = %s;", N, N, literal('i', v.v[0]).c_str()) : sim::fmt("int %s_t = %s; int ref %s = &%s_t;", N, literal('i', v.v[0]).c_str(), N, N);
		case 'R': { int k = int(v.v[0].i); if(k == 0) return sim::fmt("int ref %s_p = new int; *%s_p = %s; auto ref %s = %s_p;", N, N, literal('i', v.v[1]).c_str(), N, N); if(k == 1) return sim::fmt("double ref %s_p = new double; *%s_p = %s; auto ref %s = %s_p;", N, N, literal('d', v.v[1]).c_str(), N, N); return sim::fmt("KII ref %s_p = new KII; %s_p.m0 = %s; %s_p.m1 = %s; auto ref %s = %s_p;", N, N, literal('i', v.v[1]).c_str(), N, literal('i', v.v[2]).c_str(), N, N); }
		case 'G': return heap ? sim::fmt("int ref(int) %s = mkG(%lld);", N, v.v[0].i) : sim::fmt("int ref(int) %s = gfuncs[%lld];", N, v.v[0].i);
		case 'T': { static const char *t[] = { "int", "double", "KII", "char", "int[]" }; return sim::fmt("typeid %s = %s;", N, t[v.v[0].i]); }
		default: return T + " " + name + " = " + literal(v.type[0], v.v[0]) + ";";
		}
	}
	// ---- programs
	struct Stmt { int kind = 0, sig = 0, fn = 0; bool wrapped = false; std::vector<int> args; int dst = -1; std::vector<int> more; int k = 0; };	// 0 local, 1 host call, 2 script call, 3 int expression over two host calls, 4 show everything, 5 script error when the fuse says so
	struct Fn { int sig = 0; std::vector<Stmt> body; std::vector<Val> locals; std::vector<std::string> types; std::vector<char> heap; int ret = -1; };
	struct Prog { std::vector<Fn> fns; std::string text; };
	std::vector<int> intSigs;
	int local(Rng &r, Fn &f, const std::string &t, bool fresh)
	{
		if(!fresh) { std::vector<int> c; for(size_t i = 0; i < f.types.size(); i++) if(f.types[i] == t) c.push_back(int(i)); if(!c.empty() && r.chance(2, 3)) return c[r.below(u32(c.size()))]; }
		f.types.push_back(t); f.locals.push_back(value(r.next(), t)); f.heap.push_back(r.coin()); Stmt s; s.kind = 0; s.dst = int(f.types.size()) - 1; f.body.push_back(s); return s.dst;
	}
	void makeFn(Rng &r, Prog &p, int idx, int count, int sig)
	{
		Fn f; f.sig = sig; const SigDef &d = sigDefs[sig]; for(auto a : d.args){ f.types.push_back(a); f.locals.push_back(Val()); f.heap.push_back(0); }
		int n = idx == 0 ? r.range(3, 6) : r.range(1, 4);
		for(int i = 0; i < n; i++)
		{
			int k = r.below(10); Stmt s;
			if(k < 6 || (k < 8 && idx + 1 >= count)){ s.kind = 1; s.sig = r.below(SIGS); s.wrapped = r.coin(); for(auto a : sigDefs[s.sig].args) s.args.push_back(local(r, f, a, false)); if(*sigDefs[s.sig].ret != 'v'){ s.dst = int(f.types.size()); f.types.push_back(sigDefs[s.sig].ret); f.locals.push_back(Val()); f.heap.push_back(0); } }
			else if(k < 8){ s.kind = 2; s.fn = r.range(idx + 1, count - 1); s.k = -1; s.args.clear(); s.sig = -1; }
			else if(k < 9 && !intSigs.empty()){ s.kind = 3; s.sig = intSigs[r.below(u32(intSigs.size()))]; s.fn = intSigs[r.below(u32(intSigs.size()))]; s.wrapped = r.coin(); s.k = r.range(1, 1000); for(auto a : sigDefs[s.sig].args) s.args.push_back(local(r, f, a, false)); for(auto a : sigDefs[s.fn].args) s.more.push_back(local(r, f, a, false)); s.dst = int(f.types.size()); f.types.push_back("i"); f.locals.push_back(Val()); f.heap.push_back(0); }
			else if(r.coin()) s.kind = 4; else s.kind = 5;
			f.body.push_back(s);
		}
		{ Stmt s; s.kind = 4; f.body.push_back(s); }
		if(*d.ret != 'v') f.ret = local(r, f, d.ret, false);
		if(f.ret >= 0 && strchr("APRU", *d.ret) && *d.ret && !d.ret[1]) { f.ret = local(r, f, d.ret, true); f.heap[size_t(f.ret)] = 1; }	// nothing that lives in the frame leaves it
		p.fns.push_back(f);
	}
	std::string lname(const Fn &f, int k){ return size_t(k) < sigDefs[f.sig].args.size() ? sim::fmt("p%d", k) : sim::fmt("v%d", k); }
	bool reads(const Fn &f, const Stmt &s, int k){ (void)f; (void)s; (void)k; return true; }
	std::string shownText()
	{
		std::string t;
		for(auto &c : classDefs){ t += sim::fmt("void e_%s(%s x){", c.name, c.name); for(size_t i = 0; c.members[i]; i++) t += sim::fmt(c.members[i] == 'l' ? " el(x.%s);" : strchr("fd", c.members[i]) ? " ed(x.%s);" : c.members[i] == 'b' ? " ei(x.%s ? 1 : 0);" : " ei(x.%s);", path(c.name, i).c_str()); t += " }\n"; }
		t += "void e_c(char x){ ei(x); } void e_s(short x){ ei(x); } void e_i(int x){ ei(x); } void e_b(bool x){ ei(x ? 1 : 0); } void e_l(long x){ el(x); } void e_f(float x){ ed(x); } void e_d(double x){ ed(x); }\n"
			"void e_A(int[] x){ ei(x.size); for(int i = 0; i < x.size; i++) ei(x[i]); } void e_C(char[] x){ es(x); } void e_P(int ref x){ ei(*x); } void e_G(int ref(int) x){ ei(x(7)); }\n"
			"void e_U(auto[] x){ ei(x.size); for(int i = 0; i < x.size; i++) ei(int(x[i])); } void e_T(typeid x){ int k = -1; for(int i = 0; i < tids.size; i++) if(tids[i] == x) k = i; ei(k); }\n"
			"void e_R(auto ref x){ if(typeid(x) == int){ ei(0); ei(int(x)); }else if(typeid(x) == double){ ei(1); ed(double(x)); }else{ ei(2); KII ref k = x; ei(k.m0); ei(k.m1); } }\n";
		return t;
	}
	std::string classText(){ std::string t; for(auto &c : classDefs){ if(c.nest < 0 || c.nest >= 100){ size_t k = c.nest < 0 ? 0 : size_t(c.nest - 100), n = strlen(c.members) - k; t += sim::fmt("class %s{", c.name); for(size_t i = 0; i < k; i++) t += sim::fmt(" %s m%zu;", scriptType(std::string(1, c.members[i])), i); t += sim::fmt(" %s[%zu] a; }\n", scriptType(std::string(1, c.members[k])), n); continue; } t += sim::fmt(c.nest ? "class %s_in{" : "class %s{", c.name); for(size_t i = size_t(c.nest); c.members[i]; i++) t += sim::fmt(" %s m%zu;", scriptType(std::string(1, c.members[i])), i); t += " }\n"; if(c.nest){ t += sim::fmt("class %s{", c.name); for(size_t i = 0; i < size_t(c.nest); i++) t += sim::fmt(" %s m%zu;", scriptType(std::string(1, c.members[i])), i); t += sim::fmt(" %s_in n; }\n", c.name); } } return t; }
	std::string moduleText()
	{
		std::string t = classText();
		for(int k = 0; k < SIGS; k++) for(int w = 0; w < 2; w++){ t += sim::fmt("%s %c%d(", scriptType(sigDefs[k].ret), w ? 'w' : 'r', k); for(size_t i = 0; i < sigDefs[k].args.size(); i++) t += sim::fmt("%s%s a%zu", i ? ", " : "", scriptType(sigDefs[k].args[i]), i); t += ");\n"; }
		return t;
	}
	// globals the host sets: a few types for each program, each between two guards
	std::vector<std::string> globalTypes(const Plan &plan)
	{
		Rng r(u64(plan.get("id_prog")) ^ 0x61626364); std::vector<std::string> all, v; for(auto &c : classDefs) all.push_back(c.name);
		for(const char *t = "csilfdbACPRGUT"; *t; t++) all.push_back(std::string(1, *t));
		for(int i = 0; i < 6; i++){ std::string t = all[r.below(all.size())]; if(std::find(v.begin(), v.end(), t) == v.end()) v.push_back(t); }
		return v;
	}
	std::string globalText(const std::vector<std::string> &types)
	{
		std::string t; for(auto &g : types) t += sim::fmt("int gpre_%s = 0x12345678; %s gv_%s; int gpost_%s = 0x23456789; void sg_%s(){ e_%s(gv_%s); }\n", g.c_str(), scriptType(g), g.c_str(), g.c_str(), g.c_str(), g.c_str(), g.c_str());
		return t;
	}
	template<typename T> std::string raw(const T &v){ return std::string((const char*)&v, sizeof(T)); }
	// the bytes of a value as a host lays them out
	std::string bytes(const Val &v)
	{
		auto one = [](char t, const Leaf &l){ switch(t){ case 'c': return raw(char(l.i)); case 'b': return raw(bool(l.i != 0)); case 's': return raw(short(l.i)); case 'i': return raw(int(l.i)); case 'l': return raw((long long)l.i); case 'f': return raw(float(l.d)); default: return raw(double(l.d)); } };
		if(const char *m = members(v.type))
		{
			std::string o; size_t top = 1; for(size_t i = 0; m[i]; i++){ std::string b = one(m[i], v.v[i]); while(o.size() % b.size()) o += '\0'; o += b; top = std::max(top, b.size()); }
			return o;
		}
		struct Quiet: HostHold { ~Quiet(){ off(); } } hold;
		switch(v.type[0])
		{
		case 'A': return raw(back(Tag<'A'>(), (NULLCArray*)0, v)).substr(0, 12); case 'C': return raw(back(Tag<'C'>(), (NULLCArray*)0, v)).substr(0, 12); case 'P': return raw(back(Tag<'P'>(), (int**)0, v)); case 'R': return raw(back(Tag<'R'>(), (NULLCRef*)0, v)); case 'G': return raw(back(Tag<'G'>(), (NULLCFuncPtr*)0, v)); case 'U': return raw(back(Tag<'U'>(), (NULLCAutoArray*)0, v)); case 'T': return raw(back(Tag<'T'>(), (unsigned*)0, v));
		}
		return one(v.type[0], v.v[0]);
	}
	std::string text(const Prog &p, const std::string &globals)
	{
		std::string t = "import sim;\nimport calls;\ntypeid[" + std::to_string(NTID) + "] tids; tids[0] = int; tids[1] = double; tids[2] = KII; tids[3] = char; tids[4] = int[];\n"
			"auto mkG(int k){ return auto(int x){ return x * 3 + k * 11; }; }\nint ref(int)[8] gfuncs; for(int i = 0; i < 8; i++) gfuncs[i] = mkG(i);\n" + shownText() + globals;
		for(size_t k = p.fns.size(); k-- > 0; )
		{
			const Fn &f = p.fns[k]; const SigDef &d = sigDefs[f.sig]; t += sim::fmt("%s q%zu(", scriptType(d.ret), k);
			for(size_t i = 0; i < d.args.size(); i++) t += sim::fmt("%s%s p%zu", i ? ", " : "", scriptType(d.args[i]), i); t += ")\n{\n";
			for(size_t i = 0; i < d.args.size(); i++) t += sim::fmt("\te_%s(p%zu);\n", d.args[i], i);
			std::vector<int> live; for(size_t i = 0; i < d.args.size(); i++) live.push_back(int(i));
			auto call = [&](int sig, bool w, const std::vector<int> &a){ std::string c = sim::fmt("%c%d(", w ? 'w' : 'r', sig); for(size_t i = 0; i < a.size(); i++) c += (i ? ", " : "") + lname(f, a[i]); return c + ")"; };
			int n = 0;
			for(auto &s : f.body)
			{
				n++;
				if(s.kind == 0){ t += "\t" + declare(f.locals[size_t(s.dst)], lname(f, s.dst), f.heap[size_t(s.dst)] != 0) + "\n"; live.push_back(s.dst); }
				else if(s.kind == 1){ t += "\t"; if(s.dst >= 0){ t += std::string(scriptType(f.types[size_t(s.dst)])) + " " + lname(f, s.dst) + " = "; live.push_back(s.dst); } t += call(s.sig, s.wrapped, s.args) + ";\n"; }
				else if(s.kind == 2){ const SigDef &c = sigDefs[p.fns[size_t(s.fn)].sig]; t += "\t{ "; for(size_t i = 0; i < c.args.size(); i++) t += declare(value(u64(n) * 1000 + k * 100000 + i, c.args[i]), sim::fmt("t%d_%zu", n, i), false) + " "; if(*c.ret != 'v') t += sim::fmt("e_%s(", c.ret); t += sim::fmt("q%d(", s.fn); for(size_t i = 0; i < c.args.size(); i++) t += sim::fmt("%st%d_%zu", i ? ", " : "", n, i); t += *c.ret != 'v' ? ")); }\n" : "); }\n"; }
				else if(s.kind == 3){ live.push_back(s.dst); t += sim::fmt("\tint base%d = %d; int %s = base%d * 3 + ", n, s.k, lname(f, s.dst).c_str(), n) + call(s.sig, s.wrapped, s.args) + sim::fmt(" - base%d * ", n) + call(s.fn, !s.wrapped, s.more) + sim::fmt(" + base%d;\n", n); }
				else if(s.kind == 4) for(int l : live) t += sim::fmt("\te_%s(%s);\n", f.types[size_t(l)].c_str(), lname(f, l).c_str());
				else t += sim::fmt("\t{ int[] fz = new int[2]; ei(fz[sim_host(1, %zu, %d)]); }\n", k, n);
			}
			if(f.ret >= 0) t += "\treturn " + lname(f, f.ret) + ";\n";
			t += "}\n";
		}
		return t + "q0();\nreturn 77;\n";
	}
	Prog program(const Plan &plan)
	{
		if(intSigs.empty()) for(int i = 0; i < SIGS; i++) if(!strcmp(sigDefs[i].ret, "i")) intSigs.push_back(i);
		Prog p; Rng r(u64(plan.get("id_prog"))); int n = int(plan.get("id_fns", 4)), zero = -1; for(int i = 0; i < SIGS; i++) if(zero < 0 && !strcmp(sigDefs[i].ret, "v") && sigDefs[i].args.empty()) zero = i;
		(void)zero;
		for(int i = 0; i < n; i++) makeFn(r, p, i, n, i ? int(r.below(SIGS)) : zero);
		p.text = text(p, globalText(globalTypes(plan))); return p;
	}
	// ---- decisions of the host, the same for the model and the real run
	struct Failure { std::string what; };
	enum Action { NONE, BY_NAME, BY_POINTER, COLLECT, THROW };
	struct Decide
	{
		const Plan &plan; const Prog &prog; u64 calls = 0, fuses = 0; int depth = 0, maxDepth; u64 seed;
		Decide(const Plan &p, const Prog &g): plan(p), prog(g), maxDepth(int(p.get("depth", 4))), seed(u64(p.get("id_host"))) {}
		u64 h(u64 c, u64 salt){ return mix64(seed * 31 + c * 7919 + salt); }
		Action action(u64 c){ bool skip = false; for(auto &o : plan.ops) if(o.name == "quiet" && u64(o.arg(0)) == c) skip = true; for(auto &o : plan.ops) if(o.name == "throw" && u64(o.arg(0)) == c) return THROW; if(skip || c > 400) return NONE; u64 x = h(c, 1) % 100; if(x < 12) return COLLECT; if(depth >= maxDepth) return NONE; return x < 28 ? BY_NAME : x < 42 ? BY_POINTER : NONE; }
		int usable(u64 x) const { std::vector<int> v; for(size_t i = 1; i < prog.fns.size(); i++){ bool ok = true; for(auto a : sigDefs[prog.fns[i].sig].args) if(*a == 'T' || nest(a)) ok = false; if(ok) v.push_back(int(i)); } return v.empty() ? -1 : v[size_t(x % v.size())]; }	// (a typeid argument and a class with a member of a class type cannot be given by the host: reported as unsupported)
		int fn(u64 c){ return usable(h(c, 2)); }
		std::vector<Val> args(u64 c, int fn){ std::vector<Val> v; const SigDef &d = sigDefs[prog.fns[size_t(fn)].sig]; for(size_t i = 0; i < d.args.size(); i++) v.push_back(value(h(c, 100 + i), d.args[i])); return v; }
		Val ret(u64 c, int sig){ return value(h(c, 3), sigDefs[sig].ret); }
		bool clears(u64 c){ return h(c, 4) % 3 == 0; }
		bool blows(u64 c){ for(auto &o : plan.ops) if(o.name == "fuse" && u64(o.arg(0)) == c) return true; return false; }
	};
	struct Model: Decide
	{
		std::vector<std::string> ev; using Decide::Decide;
		Val host(int sig, const std::vector<Val> &args)
		{
			u64 c = calls++; Flat f; for(auto &a : args) flat(f, a); ev.push_back(sim::fmt("h%d %s", sig, f.c_str())); bool dead = false; std::string error;
			switch(action(c))
			{
			case THROW: ev.push_back("throw"); throw Failure{ sim::fmt("thrown by host call %llu", (unsigned long long)c) };
			case BY_NAME: case BY_POINTER: { int k = fn(c); if(k < 0) break; depth++; try { Val v = call(k, Decide::args(c, k)); Flat o; if(v.type != "v") flat(o, v); ev.push_back("returned " + o); } catch(Failure &e){ dead = true; error = e.what; } depth--; if(dead){ ev.push_back("failed " + error); if(clears(c)) ev.push_back("cleared"), dead = false; } break; }
			default: break;
			}
			Flat again; for(auto &a : args) flat(again, a); if(!dead) ev.push_back("after " + again);
			if(dead) throw Failure{ error };
			return ret(c, sig);
		}
		Val call(int k, const std::vector<Val> &args)
		{
			const Fn &f = prog.fns[size_t(k)]; std::vector<Val> v(f.types.size()); for(size_t i = 0; i < args.size(); i++){ v[i] = args[i]; shown(ev, args[i]); }
			std::vector<int> live; for(size_t i = 0; i < args.size(); i++) live.push_back(int(i)); int n = 0;
			auto pick = [&](const std::vector<int> &a){ std::vector<Val> o; for(int i : a) o.push_back(v[size_t(i)]); return o; };
			for(auto &s : f.body)
			{
				n++;
				if(s.kind == 0){ v[size_t(s.dst)] = f.locals[size_t(s.dst)]; live.push_back(s.dst); }
				else if(s.kind == 1){ Val r = host(s.sig, pick(s.args)); if(s.dst >= 0){ v[size_t(s.dst)] = r; live.push_back(s.dst); } }
				else if(s.kind == 2){ const SigDef &c = sigDefs[prog.fns[size_t(s.fn)].sig]; std::vector<Val> a; for(size_t i = 0; i < c.args.size(); i++) a.push_back(value(u64(n) * 1000 + u64(k) * 100000 + i, c.args[i])); Val r = call(s.fn, a); if(*c.ret != 'v') shown(ev, r); }
				else if(s.kind == 3){ unsigned b = unsigned(s.k); unsigned x = unsigned(host(s.sig, pick(s.args)).v[0].i); unsigned y = unsigned(host(s.fn, pick(s.more)).v[0].i); Val r; r.type = "i"; Leaf l; l.i = int(b * 3 + x - b * y + b); r.v.push_back(l); v[size_t(s.dst)] = r; live.push_back(s.dst); }
				else if(s.kind == 4) for(int l : live) shown(ev, v[size_t(l)]);
				else { u64 c = fuses++; if(blows(c)) throw Failure{ "array index out of bounds" }; ev.push_back("i:0"); }
			}
			if(f.ret >= 0) return v[size_t(f.ret)]; Val none; none.type = "v"; return none;
		}
	};
	struct World: Decide
	{
		std::vector<std::string> ev; const std::vector<std::string> *want = nullptr; u64 nested = 0; int exec = 0, opt = 0; using Decide::Decide;
		void event(const std::string &t)
		{
			size_t k = ev.size(); ev.push_back(t); sim::step();
			if(want && (k >= want->size() || (*want)[k] != t)) sim::fail(k < want->size() && t.substr(0, 1) != (*want)[k].substr(0, 1) ? "call:order" : t[0] == 'h' ? "call:argument" : t[0] == 'r' ? "call:result" : t[0] == 'a' ? "call:argument-after" : t[0] == 'f' ? "call:error" : "call:script-value", sim::fmt("%s, optimization %d: event %zu is\n  %s\nexpected\n  %s\nbefore it: %s", exec ? "x86" : "interpreter", opt, k, t.c_str(), k < want->size() ? (*want)[k].c_str() : "(nothing)", k ? ev[k - 1].c_str() : ""));
		}
		// the result of the nested call that just returned
		std::string result(int k)
		{
			Flat o; std::string t = sigDefs[prog.fns[size_t(k)].sig].ret; if(t == "v") return o;
			if(t.size() == 1 && strchr("csibfld", t[0]))
			{
				NULLCRef r = nullcGetResultObject(); unsigned n = 0; auto *ti = nullcDebugTypeInfo(&n); std::string as = r.typeID < n ? nullcDebugSymbols(nullptr) + ti[r.typeID].offsetToName : "?", a, b; bool whole = as == "int" || as == "bool" || as == "char" || as == "short";
				if(whole && strchr("csib", t[0])){ long long v = ti[r.typeID].size == 1 ? *r.ptr : ti[r.typeID].size == 2 ? *(short*)r.ptr : *(int*)r.ptr; a = std::to_string(v); b = std::to_string(nullcGetResultInt()); }
				else if(as == "long" && t[0] == 'l') put(a, *(long long*)r.ptr), put(b, (long long)nullcGetResultLong());
				else if(as == "float" && t[0] == 'f') put(a, *(float*)r.ptr), put(b, float(nullcGetResultDouble()));
				else if(as == "double" && t[0] == 'd') put(a, *(double*)r.ptr), put(b, nullcGetResultDouble());
				else a = "an object of type " + as, b = scriptType(t);
				if(a != b) sim::fail("call:result-object", sim::fmt("%s, optimization %d: the result object of a %s function holds %s, the result is %s", exec ? "x86" : "interpreter", opt, scriptType(t), a.c_str(), b.c_str()));
			}
			if(t.size() == 1) switch(t[0])
			{
			case 'i': put(o, nullcGetResultInt()); return o; case 'c': put(o, char(nullcGetResultInt())); return o; case 's': put(o, short(nullcGetResultInt())); return o; case 'b': put(o, nullcGetResultInt() != 0); return o;
			case 'l': put(o, nullcGetResultLong()); return o; case 'f': put(o, float(nullcGetResultDouble())); return o; case 'd': put(o, nullcGetResultDouble()); return o;
			}
			NULLCRef r = nullcGetResultObject();
			if(t.size() == 1) switch(t[0])
			{
			case 'A': arg(o, Tag<'A'>(), *(NULLCArray*)r.ptr); return o; case 'C': arg(o, Tag<'C'>(), *(NULLCArray*)r.ptr); return o; case 'P': arg(o, Tag<'P'>(), *(int**)r.ptr); return o; case 'R': arg(o, Tag<'R'>(), r); return o;
			case 'G': arg(o, Tag<'G'>(), *(NULLCFuncPtr*)r.ptr); return o; case 'U': arg(o, Tag<'U'>(), *(NULLCAutoArray*)r.ptr); return o; case 'T': arg(o, Tag<'T'>(), *(unsigned*)r.ptr); return o;
			}
			const char *m = members(t); std::vector<size_t> off; size_t at = 0;
			for(const char *c = m; *c; c++){ size_t sz = *c == 'c' || *c == 'b' ? 1 : *c == 's' ? 2 : *c == 'l' || *c == 'd' ? 8 : 4, al = sz; at = (at + al - 1) / al * al; off.push_back(at); at += sz; }
			for(size_t i = 0; m[i]; i++){ Leaf l; const char *p = r.ptr + off[i]; switch(m[i]){ case 'c': l.i = *p; break; case 'b': l.i = *p; break; case 's': l.i = *(short*)p; break; case 'i': l.i = *(int*)p; break; case 'l': memcpy(&l.i, p, 8); break; case 'f': l.d = *(float*)p; break; case 'd': memcpy(&l.d, p, 8); break; } putLeaf(o, m[i], l); }
			return o;
		}
		Val host(int sig, Fill &fill)
		{
			u64 c = calls++; Flat f; fill(f); event(sim::fmt("h%d %s", sig, f.c_str())); sim::probe("host_call");
			switch(action(c))
			{
			case THROW: event("throw"); sim::fault("host_throws"); nullcThrowError("thrown by host call %llu", (unsigned long long)c); return ret(c, sig);
			case COLLECT: NULLC::CollectMemory(); sim::fault("collection_in_host_call"); break;
			case BY_NAME: case BY_POINTER:
			{
				int k = fn(c); if(k < 0) break; auto vals = Decide::args(c, k); In in; in.vals = &vals; std::string name = sim::fmt("q%d", k); NULLCFuncPtr ptr; bool byName = action(c) == BY_NAME;
				if(!byName && !nullcGetFunction(name.c_str(), &ptr)) sim::fail("call:lookup", "a script function is not found by name: " + name);
				depth++; nested++; sim::probe(sim::fmt("nested_depth_%d", depth).c_str());
				bool ok = callFns[prog.fns[size_t(k)].sig](byName ? name.c_str() : nullptr, &ptr, in) != 0; depth--;
				if(ok){ event("returned " + result(k)); }
				else
				{
					std::string e = eng::errorKind(nullcGetLastError()); if(e.compare(0, 7, "ERROR: ") == 0) e = e.substr(7);
					event("failed " + e); sim::fault("nested_call_fails");
					if(!clears(c)) return ret(c, sig);
					nullcClearError(); event("cleared");
				}
				break;
			}
			default: break;
			}
			Flat again; fill(again); event("after " + again);
			return ret(c, sig);
		}
	};
	void arg(Flat &o, Tag<'G'>, const NULLCFuncPtr &v)
	{
		// a function value is what it does; the events and decisions of this call are outside the history
		if(!nullcCallFunction(v, 5)) { o += "g? "; return; } o += "g" + std::to_string(nullcGetResultInt()) + " ";
	}
	const Val& HostCall::result(){ ret = world->host(sig, fill); return ret; }
	void gen(Rng &r, Plan &p, int)
	{
		p.cfg["id_prog"] = (long long)(r.next() >> 2); p.cfg["id_host"] = (long long)(r.next() >> 2); p.cfg["id_fns"] = r.range(3, 7); p.cfg["exec"] = r.below(2); p.cfg["opt"] = r.below(3); p.cfg["depth"] = r.range(1, 6);
		if(r.chance(1, 2)) p.cfg["gc_period"] = r.range(1, 20);
		int n = r.below(4); for(int i = 0; i < n; i++) p.ops.push_back(Op(r.coin() ? "throw" : "fuse", { r.below(r.coin() ? 10 : 60) }));
		for(int i = 0; i < 3; i++) p.ops.push_back(Op("call", { r.below(10), (long long)(r.next() >> 2) }));
		for(int i = 0; i < 3; i++) p.ops.insert(p.ops.begin() + long(r.below(p.ops.size() + 1)), Op("set", { r.below(6), (long long)(r.next() >> 2) }));
	}
	void warm()
	{
		eng::warm(); if(!nullcLoadModuleBySource("calls", moduleText().c_str())){ fprintf(stderr, "calls: %s\n", nullcGetLastError()); exit(3); }
		bindAll();
	}
	void exec(const Plan &plan)
	{
		Prog p = program(plan); World w(plan, p); Model m(plan, p); world = &w; w.exec = int(plan.get("exec")); w.opt = int(plan.get("opt")); std::string err;
		if(!eng::build(p.text, w.exec, w.opt, err)) sim::fail("C14:not-built", err + "\n" + p.text);
		static const char *names[] = { "int", "double", "KII", "char", "int[]" }; for(int i = 0; i < NTID; i++){ unsigned n = 0, k = 0; (void)n; for(const char *t; (k < 100000); k++){ auto *ti = nullcDebugTypeInfo(&n); if(k >= n) break; t = nullcDebugSymbols(nullptr) + ti[k].offsetToName; if(!strcmp(t, names[i])) tids[i] = k; } }
		gcsim::configure(plan); eng::hooks.onEvent = [&](const std::string &t){ w.event(t); };
		eng::hooks.onHost = [&](int, int, int){ u64 c = w.fuses++; if(w.blows(c)){ sim::fault("script_error"); return 2; } return 0; };
		auto outer = [&](const std::function<Val()> &model, const std::function<nullres()> &real, int fn)
		{
			m.ev.clear(); w.ev.clear(); std::string error; Val ret; m.depth = w.depth = 0;
			try { ret = model(); } catch(Failure &f){ error = f.what; }
			w.want = &m.ev; bool ok = real() != 0; std::string got = ok ? "" : eng::errorKind(nullcGetLastError()); if(got.compare(0, 7, "ERROR: ") == 0) got = got.substr(7);
			if(w.ev.size() < m.ev.size() && (ok || !error.empty())) sim::fail("call:missing", sim::fmt("%s, optimization %d: %zu events, expected %zu; the next one is %s (outcome: %s)", w.exec ? "x86" : "interpreter", w.opt, w.ev.size(), m.ev.size(), m.ev[w.ev.size()].c_str(), ok ? "success" : got.c_str()));
			if(ok != error.empty() || got != error) sim::fail("call:outcome", sim::fmt("%s, optimization %d: the call %s, expected %s", w.exec ? "x86" : "interpreter", w.opt, ok ? "succeeded" : ("failed: " + got).c_str(), error.empty() ? "success" : ("error: " + error).c_str()));
			if(ok && fn >= 0){ Flat o; if(ret.type != "v") flat(o, ret); std::string r = w.result(fn); if(r != o) sim::fail("call:result", sim::fmt("%s, optimization %d: the host gets %s, expected %s", w.exec ? "x86" : "interpreter", w.opt, r.c_str(), o.c_str())); }
			sim::step(); return ok;
		};
		outer([&]{ Val v = m.call(0, {}); return v; }, []{ return nullcRunFunction(NULL); }, -1);
		auto gtypes = globalTypes(plan);
		for(auto &o : plan.ops)
		{
			if(o.name == "set" && nullcGetGlobal("gfuncs"))
			{
				std::string t = gtypes[size_t(o.arg(0)) % gtypes.size()]; Val v = value(u64(o.arg(1)), t); const char *where = w.exec ? "x86" : "interpreter";
				// the host always hands over a whole value
				size_t size = 0; std::string name = "gv_" + t; { unsigned n = 0; auto *ti = nullcDebugTypeInfo(&n); unsigned k = nullcGetGlobalType(name.c_str()); if(k < n) size = ti[k].size; if(k >= n || strcmp(nullcDebugSymbols(nullptr) + ti[k].offsetToName, scriptType(t))) sim::fail("call:global", sim::fmt("%s, optimization %d: the type of global %s is given as %s, it is %s", where, w.opt, name.c_str(), k < n ? nullcDebugSymbols(nullptr) + ti[k].offsetToName : "?", scriptType(t))); }
				std::string b = bytes(v), whole = b; if(whole.size() < size) whole.resize(size); sim::probe("global_set");
				if(b.size() > size) sim::fail("call:global", sim::fmt("global %s has %zu bytes, a host value of its type has %zu", name.c_str(), size, b.size()));
				if(!nullcSetGlobal(name.c_str(), &whole[0])) sim::fail("call:global", "a global is not found by name: " + name);
				char *at = (char*)nullcGetGlobal(name.c_str()); if(!at || memcmp(at, &b[0], b.size())) sim::fail("call:global", sim::fmt("%s, optimization %d: global %s reads back differently from what the host set", where, w.opt, name.c_str()));
				int *pre = (int*)nullcGetGlobal(("gpre_" + t).c_str()), *post = (int*)nullcGetGlobal(("gpost_" + t).c_str());
				if(!pre || !post || *pre != 0x12345678 || *post != 0x23456789) sim::fail("call:global", sim::fmt("%s, optimization %d: a variable next to global %s changed when the host set it", where, w.opt, name.c_str()));
				std::string fn = "sg_" + t; outer([&]{ shown(m.ev, v); Val none; none.type = "v"; return none; }, [&]{ return nullcRunFunction(fn.c_str()); }, -1);
				if(*pre != 0x12345678 || *post != 0x23456789) sim::fail("call:global", "a guard of " + name + " changed");
				continue;
			}
			if(o.name != "call" || p.fns.size() < 2 || !nullcGetGlobal("gfuncs")) continue;
			int k = w.usable(u64(o.arg(0))); if(k < 0) continue; std::vector<Val> v; const SigDef &d = sigDefs[p.fns[size_t(k)].sig]; for(size_t i = 0; i < d.args.size(); i++) v.push_back(value(u64(o.arg(1)) + i, d.args[i]));
			In in; in.vals = &v; std::string name = sim::fmt("q%d", k); outer([&]{ return m.call(k, v); }, [&]{ return callFns[p.fns[size_t(k)].sig](name.c_str(), nullptr, in); }, k);
		}
		if(w.nested) sim::nontrivial(); sim::state(w.nested * 1000 + w.calls); arena::checkAll();
	}
	std::string desc(const Plan &p){ return "program:\n" + program(p).text; }
}
static RegisterProperty r14({ "C14", "programs that call host functions of 189 signatures (raw and wrapped) which call back script functions of the same signatures to seeded depths; collections, thrown and cleared errors in between", warm, gen, exec, desc, 40000, 2000000, 25, 900, "a run with a script function called from a host function; distinct by event hash",
	"compiler, linker, both executors, argument marshalling, collector: real", "host functions, host allocator" });
