#include "life.h"
namespace life
{
	static int K(const Mod &m){ return int(mix64(u64(m.ver) * 977 + hashStr(m.name)) % 100000); }
	static int A(const Mod &m){ return 3 + m.ver % 17; }
	static int G(const Mod &m){ return K(m) % 1000; }
	std::string ident(const std::string &n){ std::string s = n; for(char &c : s) if(c == '.') c = '_'; return s; }
	std::string path(const std::string &n){ std::string s = n; for(char &c : s) if(c == '.') c = '/'; return s + ".nc"; }
	std::string modText(const Mod &m)
	{
		std::string n = ident(m.name), t, val, inc; const char *N = n.c_str();
		for(auto &d : m.deps){ t += "import " + d + ";\n"; val += " + " + ident(d) + "_val()"; inc += " + " + ident(d) + "_inc(k)"; }
		if(m.ver & 1) t += sim::fmt("class %s_Extra{ long q; double[3] w; } int %s_unused(int a, b, c){ return a * b - c; }\n", N, N);
		if(m.ver & 2) t += sim::fmt("int %s_pad = 77; int[10] %s_pads;\n", N, N);
		t += sim::fmt("int %s_glob = %d;\n", N, G(m));
		if(m.ver & 8) t += sim::fmt("%s_glob = %s_glob + 1;\n", N, N);
		// local functions, coroutines and closure types of the same name with other contents in every module
		if(m.ver % 3 == 1) t += sim::fmt("int %s_val(){ coroutine int each(){ %s p = %d; yield int(p); return 0; } return each()%s; }\n", N, m.ver % 2 ? "long" : "double", K(m), val.c_str());
		else if(m.ver % 3 == 2) t += sim::fmt("int %s_val(){ int[] p = new int[%d]; p[1] = %d; int each(){ return p[1]; } return each()%s; }\n", N, 2 + m.ver % 7, K(m), val.c_str());
		else t += sim::fmt("int %s_val(){ return %d%s; }\n", N, K(m), val.c_str());
		if(m.ver & 4) t += sim::fmt("int %s_val2(){ return %s_val() * 2; } int %s_helper(int a){ return a - 1; }\n", N, N, N);
		t += sim::fmt("int %s_inc(int k){ int pick(int z){ return z * 3 + k; } %s_glob = pick(%s_glob)%s; return %s_glob; }\n", N, N, N, inc.c_str(), N);
		t += sim::fmt("class %s_C{ %sint x; int y; } int %s_C:get(){ return x * %d + y + %s_val(); }\n", N, m.ver & 1 ? "long pad; " : "", N, A(m), N);
		switch(m.ver / 2 % 4)
		{
		case 0: t += sim::fmt("auto %s_mk(int b){ int c = b; return auto(){ c = c * 2 + %d; return c; }; }\n", N, A(m)); break;
		case 1: t += sim::fmt("auto %s_mk(int b){ long c = b; return auto(){ c = c * 2 + %d; return int(c); }; }\n", N, A(m)); break;
		case 2: t += sim::fmt("auto %s_mk(int b){ int ref c = new int; *c = b; return auto(){ *c = *c * 2 + %d; return *c; }; }\n", N, A(m)); break;
		default: t += sim::fmt("auto %s_mk(int b){ int[] c = new int[3]; c[1] = b; return auto(){ c[1] = c[1] * 2 + %d; return c[1]; }; }\n", N, A(m)); break;
		}
		t += sim::fmt("auto %s_gen(generic a){ return a + a + %d; } int %s_over(int a){ return a + 1; } int %s_over(double a){ return int(a) + %d; }\n", N, A(m), N, N, A(m));
		if(m.ver & 16) t += sim::fmt("coroutine int %s_co(){ int i = %d; while(1){ yield i; i++; } return 0; }\n", N, A(m));
		return t;
	}
	std::string progText(const Prog &p)
	{
		std::string t = "import sim;\n", hf;
		for(auto &i : p.imports) t += "import " + i + ";\n";
		t += sim::fmt("int pg = %d;\n int ref() keep; int[] arr = new int[50];\n ei(pg * 7);\n", p.seed % 1000);
		if(p.seed & 1) t += "class Own{ int a; } void Own:finalize(){ a = 0; } for(int i = 0; i < 3; i++){ Own ref o = new Own; o.a = i; }\n";
		int k = 0;
		for(auto &i : p.imports)
		{
			std::string n = ident(i); const char *N = n.c_str(); k++;
			t += sim::fmt("ei(%s_val()); ei(%s_inc(%d)); %s_C c%d; c%d.x = %d; c%d.y = pg; ei(c%d.get()); auto f%d = %s_mk(%d); f%d(); ei(f%d()); ei(%s_gen(%d)); ei(%s_over(4)); ei(%s_over(4.5)); keep = f%d;\n", N, N, k, N, k, k, k + 1, k, k, k, N, k, k, k, N, k, N, N, k);
			hf += sim::fmt(" s += %s_inc(x) + %s_val();", N, N);
		}
		t += "int hf(int x){ pg = pg * 5 + x; int s = pg;" + hf + " ei(s); if(x == 13) return s / (x - 13); arr = new int[x & 31]; return s; }\nreturn pg;\n";
		return t;
	}
	int Inst::val(const std::string &n){ Mod &m = mods[n]; unsigned v = unsigned(K(m)); for(auto &d : m.deps) v += unsigned(val(d)); return int(v); }
	int Inst::inc(const std::string &n, int k){ Mod &m = mods[n]; unsigned v = unsigned(glob[n]) * 3 + unsigned(k); for(auto &d : m.deps) v += unsigned(inc(d, k)); return glob[n] = int(v); }
	std::vector<std::string> Inst::run(long long &ret)
	{
		std::vector<std::string> e; auto ei = [&](unsigned v){ e.push_back("i:" + std::to_string(int(v))); };
		for(auto &m : mods) glob[m.first] = G(m.second) + (m.second.ver & 8 ? 1 : 0);
		pg = p.seed % 1000; ran = true; ei(unsigned(pg) * 7); int k = 0;
		for(auto &i : p.imports)
		{
			k++; Mod &m = mods[i]; ei(unsigned(val(i))); ei(unsigned(inc(i, k))); ei(unsigned(k + 1) * unsigned(A(m)) + unsigned(pg) + unsigned(val(i)));
			unsigned c = unsigned(k) * 2 + unsigned(A(m)); c = c * 2 + unsigned(A(m)); ei(c); ei(unsigned(k + k + A(m))); ei(5); ei(unsigned(4 + A(m)));
		}
		ret = pg; return e;
	}
	std::vector<std::string> Inst::hf(int x, long long &ret, bool &fails)
	{
		unsigned s; pg = int(unsigned(pg) * 5 + unsigned(x)); s = unsigned(pg);
		for(auto &i : p.imports){ s += unsigned(inc(i, x)); s += unsigned(val(i)); }
		ret = int(s); fails = x == 13; return { "i:" + std::to_string(int(s)) };
	}
	bool closed(const Registry &r, const std::string &n, const Registry &known)
	{
		auto it = r.find(n); if(it == r.end()) return false; (void)known;
		for(auto &d : it->second.deps) if(!closed(r, d, known)) return false;
		return true;
	}
	std::vector<std::string> enumerate(){ std::vector<std::string> v; while(const char *n = nullcEnumerateModules(unsigned(v.size()))) v.push_back(n); return v; }
}
