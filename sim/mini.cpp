// Program generator (nullc text) and reference evaluator over the same AST.
#include "mini.h"
#include <algorithm>

namespace mini
{
	enum Op_ : unsigned char { O_I, O_L, O_D, O_S, O_VAR, O_FIELD, O_VFIELD, O_INDEX, O_DEREF, O_BIN, O_NEG, O_NOT, O_BNOT, O_TERN, O_AND, O_OR, O_CALL, O_CALLV, O_METHOD, O_AUTOMETHOD,
		O_NEWOBJ, O_NEWARR, O_LAMBDA, O_ADDR, O_CAST, O_SIZE, O_STRIDX, O_BOX, O_UNBOX, O_TYPEIS, O_HOSTCALL, O_RAWCALL, O_SIMHOST, O_RAWSUM, O_INCDEC, O_ASSIGN, O_NULL, O_IX, O_CL, O_TRUTH, O_STRCAT, O_ARRLIT, O_SUMA, O_INTSTR, O_CHURN, O_KK, O_RPUT, O_RCALL };
	struct Var { std::string name; Ty ty; FnDef *owner = nullptr; int slot = 0; bool ro = false, nonnull = false, nocap = false; };
	struct E { Op_ op; bool keep = false; Ty ty; std::vector<E*> k; long long iv = 0; double dv = 0; std::string sv; Var *var = nullptr; FnDef *fn = nullptr; int field = 0; };
	enum SK : unsigned char { S_EXPR, S_ASSIGN, S_DECL, S_IF, S_FOR, S_WHILE, S_DO, S_SWITCH, S_BREAK, S_CONT, S_RET, S_EMIT, S_TRY, S_YIELD, S_FORARR, S_FORGEN, S_BLOCK, S_THROW, S_ASSERT, S_LOCALFN, S_GC, S_FAULT };
	struct S { SK k; int id = 0; bool on = true; E *a = nullptr, *b = nullptr, *c = nullptr; std::string sv; Var *var = nullptr, *var2 = nullptr; std::vector<S*> body, els; std::vector<std::vector<S*>> cases; std::vector<int> caseVals; FnDef *fn = nullptr; S *parent = nullptr; int iv = 0; };
	struct Field { std::string name; Ty ty; };
	struct Cls { int idx; std::string name; bool isVal = false, ext = false; int base = -1; std::vector<Field> f; FnDef *vm = nullptr, *dump = nullptr; bool ctorRef = false; int ctorRefField = -1; };
	struct FnDef
	{
		std::string name; std::vector<Var*> params; Ty ret; std::vector<S*> body; int nslots = 0; FnDef *parent = nullptr;
		int index = 0; bool isLambda = false, isLocal = false, isCo = false, isFactory = false, rec = false; int cls = -1; Var *thisVar = nullptr; Var *selfVar = nullptr;
		Var* addVar(const std::string &n, Ty t){ Var *v = new Var; v->name = n; v->ty = t; v->owner = this; v->slot = nslots++; return v; }
	};

	static const std::vector<Cls*> *gc_;	// classes of the program being handled

	static bool isInt(K k){ return k == CHAR || k == SHORT || k == INT; }
	static bool isArr(K k){ return k == ARRI || k == ARRO || k == ARRV; }
	static Ty ARRF(){ return Ty(ARRI, -2); }	// array of functions: ARRI with marker
	static bool isArrF(Ty t){ return t.k == ARRI && t.c == -2; }
	static Ty elemTy(Ty t){ if(isArrF(t)) return Ty(FN); switch(t.k){ case ARRI: case FIXI: return Ty(INT); case ARRO: return Ty(OBJ, t.c); case FIXO: return Ty(OBJ, t.c & 255); case ARRV: return Ty(VAL, t.c); default: return Ty(); } }
	static int fixSize(Ty t){ return t.k == FIXI ? t.c : t.c >> 8; }
	static std::string tyName(Ty t)
	{
		switch(t.k)
		{
		case VOID: return "void"; case CHAR: return "char"; case SHORT: return "short"; case INT: return "int"; case LONG: return "long"; case FLOAT: return "float"; case DOUBLE: return "double"; case STR: return "char[]";
		case ARRI: return isArrF(t) ? "int ref(int)[]" : "int[]"; case ARRO: return (*gc_)[t.c]->name + " ref[]"; case ARRV: return (*gc_)[t.c]->name + "[]"; case OBJ: return (*gc_)[t.c]->name + " ref"; case VAL: return (*gc_)[t.c]->name;
		case FN: return "int ref(int)"; case GEN: return "int ref()"; case AUTO: return "auto ref"; case PINT: return "int ref";
		case FIXI: return "int[" + std::to_string(t.c) + "]"; case FIXO: return (*gc_)[t.c & 255]->name + " ref[" + std::to_string(t.c >> 8) + "]";
		}
		return "?";
	}

	// ------------------------------------------------------------------ rendering
	struct Out { std::string t; int ind = 0; void line(const std::string &s){ t.append(size_t(ind), '\t'); t += s; t += '\n'; } };
	static std::string rx(E *e);
static std::string rx0(E *e);
	static void rs(Out &o, S *s);
	static void rbody(Out &o, const std::vector<S*> &v){ o.ind++; for(S *s : v) rs(o, s); o.ind--; }
	static std::string params(FnDef *f){ std::string r; for(size_t i = 0; i < f->params.size(); i++) r += (i ? ", " : "") + tyName(f->params[i]->ty) + " " + f->params[i]->name; return r; }
	static std::string dlit(double d){ std::string s = sim::fmt("%.17g", d); if(s.find_first_of(".e") == std::string::npos) s += ".0"; return s; }
	// the value nullc gives to the decimal text of a literal (digits are accumulated, the last bit may differ from correct rounding)
	static double litValue(double d)
	{
		std::string t = dlit(d < 0 ? -d : d); const char *s = t.c_str(); double in = 0, fr = 0; unsigned g;
		while((g = unsigned(*s - '0')) < 10) { in = in * 10.0 + g; s++; }
		if(*s == '.') { double pw = 0.1; s++; while((g = unsigned(*s - '0')) < 10) { fr = fr + pw * g; pw /= 10.0; s++; } }
		double v = in + fr; return d < 0 ? -v : v;
	}
	static std::string strlitText(const std::string &s){ return "\"" + s + "\""; }
	static std::string lambdaText(FnDef *f)
	{
		Out o; o.t = "auto(" + params(f) + "){\n"; o.ind = 0; Out b; b.ind = 1; for(S *s : f->body) rs(b, s); return o.t + b.t + "}";
	}
	static bool isBool(E *e){ if(e->op == O_AND || e->op == O_OR || e->op == O_NOT || e->op == O_TYPEIS) return true; if(e->op == O_TRUTH) return e->sv != "auto"; if(e->op == O_BIN) { const std::string &o = e->sv; return o == "<" || o == ">" || o == "<=" || o == ">=" || o == "==" || o == "!="; } return false; }
	static std::string rx0(E *e);
	// comparisons have type bool; where the program needs a number the conversion is spelled out
	// 'keep': an operation that may fail is passed through a function that is never inlined, so that its value is always used
	static std::string rx(E *e){ return isBool(e) ? "int" + rx0(e) : e->keep ? "ux(" + rx0(e) + ")" : rx0(e); }
	// in a place that is assigned to or whose address is taken
	static std::string rc(E *e){ return isBool(e) ? rx0(e) : rx(e); }
	static std::string rl(E *e)
	{
		if(e->op == O_VFIELD) return rl(e->k[0]) + "." + e->sv;
		if(e->op == O_INDEX) return rl(e->k[0]) + "[" + rx(e->k[1]) + "]";
		if(e->op == O_FIELD) return rx(e->k[0]) + "." + e->sv;
		if(e->op == O_DEREF) return "*" + rx(e->k[0]);
		return rx0(e);
	}
	static std::string rx0(E *e)
	{
		auto args = [&](size_t from){ std::string r; for(size_t i = from; i < e->k.size(); i++) r += (i > from ? ", " : "") + rx(e->k[i]); return r; };
		switch(e->op)
		{
		case O_I: return e->iv < 0 ? "(" + std::to_string(e->iv) + ")" : std::to_string(e->iv);
		case O_L: return e->iv < 0 ? "(" + std::to_string(e->iv) + "l)" : std::to_string(e->iv) + "l";
		case O_D: return e->dv < 0 ? "(" + dlit(e->dv) + ")" : dlit(e->dv);
		case O_S: return e->iv ? "kz" : strlitText(e->sv);
		case O_VAR: return e->var->name;
		case O_FIELD: return rx(e->k[0]) + "." + e->sv;
		case O_VFIELD: return rx(e->k[0]) + "." + e->sv;
		case O_INDEX: return (e->k[0]->ty.k == FIXI || e->k[0]->ty.k == FIXO ? rl(e->k[0]) : rx(e->k[0])) + "[" + rx(e->k[1]) + "]";
		case O_DEREF: return "*" + rx(e->k[0]);
		case O_BIN: return "(" + rx(e->k[0]) + " " + e->sv + " " + rx(e->k[1]) + ")";
		case O_AND: case O_OR: return "(" + rc(e->k[0]) + " " + e->sv + " " + rc(e->k[1]) + ")";
		case O_NEG: return "(-" + rx(e->k[0]) + ")";
		case O_NOT: return "(!" + rc(e->k[0]) + ")";
		case O_BNOT: return "(~" + rx(e->k[0]) + ")";
		case O_TERN: return "(" + rc(e->k[0]) + " ? " + rx(e->k[1]) + " : " + rx(e->k[2]) + ")";
		case O_CALL: return e->fn->name + "(" + args(0) + ")";
		case O_CALLV: return rx(e->k[0]) + "(" + args(1) + ")";
		case O_METHOD: case O_AUTOMETHOD: return rx(e->k[0]) + ".vm(" + args(1) + ")";
		case O_NEWOBJ: return "new " + (*gc_)[e->ty.c]->name + "(" + args(0) + ")";
		case O_NEWARR: { Ty t = elemTy(e->ty); return (t.k == FN || t.k == OBJ ? "new (" + tyName(t) + ")[" : "new " + tyName(t) + "[") + rx(e->k[0]) + "]"; }
		case O_LAMBDA: return lambdaText(e->fn);
		case O_ADDR: return "&" + rl(e->k[0]);
		case O_CAST: return tyName(e->ty) + "(" + rx(e->k[0]) + ")";
		case O_SIZE: return rx(e->k[0]) + ".size";
		case O_STRIDX: return "sx(" + rx(e->k[0]) + ", " + rx(e->k[1]) + ")";
		case O_BOX: return rx(e->k[0]);
		case O_UNBOX: return e->ty.k == INT ? "int(" + rx(e->k[0]) + ")" : "(" + tyName(e->ty) + "(" + rx(e->k[0]) + "))";
		case O_TYPEIS: return "(typeid(" + rx(e->k[0]) + ") == " + (e->ty.c < 0 ? std::string("int") : (*gc_)[e->iv]->name) + ")";
		case O_HOSTCALL: return "hostcall(" + args(0) + ")";
		case O_RAWCALL: return "rawcall(" + args(0) + ")";
		case O_SIMHOST: return "sim_host(" + args(0) + ")";
		case O_RAWSUM: return "rawsum(" + args(0) + ")";
		case O_INCDEC: return e->iv & 1 ? "(" + rl(e->k[0]) + (e->iv & 2 ? "++" : "--") + ")" : std::string("(") + (e->iv & 2 ? "++" : "--") + rl(e->k[0]) + ")";
		case O_ASSIGN: return "(" + rl(e->k[0]) + " " + e->sv + " " + rx(e->k[1]) + ")";
		case O_NULL: return "nullptr";
		case O_IX: return "ix(" + args(0) + ")";
		case O_CL: return "cl(" + args(0) + ")";
		case O_TRUTH: return e->sv == "auto" ? "(" + rx(e->k[0]) + " ? 1 : 0)" : "(" + rx(e->k[0]) + " " + e->sv + " nullptr)";
		case O_STRCAT: return "(" + rx(e->k[0]) + " + " + rx(e->k[1]) + ")";
		case O_ARRLIT: return "{ " + args(0) + " }";
		case O_SUMA: return "suma(" + args(0) + ")";
		case O_INTSTR: return rx(e->k[0]) + ".str()";
		case O_CHURN: return "churn(" + args(0) + ")";
		case O_RPUT: return (e->k[0]->ty.k == GEN ? "gput(" : "rput(") + args(0) + ")";
		case O_RCALL: return (e->iv ? "gcall(" : "rcall(") + args(0) + ")";
		case O_KK: return "kk";
		}
		return "?";
	}
	static void rs(Out &o, S *s)
	{
		if(!s->on) return;
		switch(s->k)
		{
		case S_EXPR: o.line(rx(s->a) + ";"); break;
		case S_ASSIGN: o.line(rl(s->a) + " " + s->sv + " " + rx(s->b) + ";"); break;
		case S_DECL: o.line(tyName(s->var->ty) + " " + s->var->name + (s->a ? " = " + rx(s->a) : std::string()) + ";"); break;
		case S_IF: o.line("if(" + rc(s->a) + "){"); rbody(o, s->body); if(!s->els.empty()){ o.line("}else{"); rbody(o, s->els); } o.line("}"); break;
		case S_FOR: o.line("for(int " + s->var->name + " = 0; " + s->var->name + " < " + rx(s->a) + "; " + s->var->name + (s->iv ? "++" : " += 1") + "){"); rbody(o, s->body); o.line("}"); break;
		case S_WHILE: o.line("int " + s->var->name + " = 0;"); o.line("while(" + s->var->name + " < " + rx(s->a) + "){"); o.ind++; o.line(s->var->name + "++;"); o.ind--; rbody(o, s->body); o.line("}"); break;
		case S_DO: o.line("int " + s->var->name + " = 0;"); o.line("do{"); o.ind++; o.line(s->var->name + "++;"); o.ind--; rbody(o, s->body); o.line("}while(" + s->var->name + " < " + rx(s->a) + ");"); break;
		case S_SWITCH:
			o.line("switch(" + rx(s->a) + "){");
			for(size_t i = 0; i < s->cases.size(); i++){ o.line(s->caseVals[i] < 0 ? std::string("default:") : "case " + std::to_string(s->caseVals[i]) + ":"); rbody(o, s->cases[i]); o.ind++; o.line("break;"); o.ind--; }
			o.line("}"); break;
		case S_BREAK: o.line(s->iv > 1 ? "break " + std::to_string(s->iv) + ";" : std::string("break;")); break;
		case S_CONT: o.line(s->iv > 1 ? "continue " + std::to_string(s->iv) + ";" : std::string("continue;")); break;
		case S_RET: o.line("return " + rx(s->a) + ";"); break;
		case S_EMIT: o.line(s->sv + "(" + rx(s->a) + ");"); break;
		case S_YIELD: o.line("yield " + rx(s->a) + ";"); break;
		case S_TRY:
		{
			std::string n = s->sv;
			o.line("auto " + n + " = try(" + rx(s->a) + ");");
			o.line("if(" + n + "){ ei(" + n + ".value);" + (s->b ? " " + rl(s->b) + " += " + n + ".value;" : std::string()) + " }");
			o.line("else{ es(" + n + ".message); if(" + n + ".exception) ei(" + n + ".exception.vm(1));" + (s->c ? " " + rl(s->c) + " = " + n + ".exception;" : std::string()) + " }");
			break;
		}
		case S_FORARR: o.line("for(" + s->var->name + " in " + rx(s->a) + "){"); rbody(o, s->body); o.line("}"); break;
		case S_FORGEN: o.line("for(" + s->var->name + " in " + rx(s->a) + "){"); rbody(o, s->body); o.line("}"); break;
		case S_BLOCK: o.line("{"); rbody(o, s->body); o.line("}"); break;
		case S_THROW: o.line("throw(" + rx(s->a) + ");"); break;
		case S_ASSERT: o.line("assert(" + rc(s->a) + ", " + strlitText(s->sv) + ");"); break;
		case S_LOCALFN: { FnDef *f = s->fn; o.line((f->isCo ? "coroutine int " : "int ") + f->name + "(" + params(f) + "){"); rbody(o, f->body); o.line("}"); break; }
		case S_GC: o.line("GC.CollectMemory();"); break;
		case S_FAULT: o.line("sim_fault(" + std::to_string(s->iv) + ");"); break;
		}
	}

	std::string Program::text() const
	{
		gc_ = &classes; Out o;
		o.line("import sim;"); o.line("import std.error;"); o.line("import std.gc;");
		if(!extraTop.empty()) o.t += extraTop;
		o.line("int ix(int i, n){ return n == 0 ? 0 : (i & 0x7fffffff) % n; }");
		o.line("char[] kz = \"z\"; int kk = 0;");
		o.line("auto ux(generic x){ if(kk) kk--; return x; }");
		o.line("int sx(char[] s, int i){ return s.size == 0 ? 0 : s[ix(i, s.size)]; }");
		o.line("double cl(double x){ return (x > 1000000.0 || x < -1000000.0) ? 1.0 : x; }");
		o.line("int suma(int[] a){ int s = a.size; for(int i = 0; i < a.size; i++) s = s * 31 + a[i]; return s; }");
		o.line("int ref(int)[8] rgf; int ref()[8] rgg; int rgn = 0, rgm = 0;");
		o.line("int rput(int ref(int) f){ rgf[rgn & 7] = f; rgn++; return rgn; }");
		o.line("int gput(int ref() f){ rgg[rgm & 7] = f; rgm++; return rgm; }");
		o.line("int rcall(int i, int x){ int ref(int) f = rgf[i & 7]; return f != nullptr ? f(x) : x; }");
		o.line("int gcall(int i){ int ref() f = rgg[i & 7]; return f != nullptr ? f() : i; }");
		o.line("class Junk{ int[4] x; Junk ref o; int[] z; }");
		o.line("int churn(int n){ Junk ref p; for(int i = 0; i < n; i++){ Junk ref q = new Junk; q.x[i & 3] = i; q.o = p; q.z = new int[(i & 15) + 1]; if((i & 3) != 3) p = q; else p = nullptr; } return n; }");
		for(Cls *c : classes)
		{
			o.line("class " + c->name + (c->ext ? " extendable" : "") + (c->base >= 0 ? " : " + classes[c->base]->name : "") + "{"); o.ind++;
			size_t from = c->base >= 0 ? classes[c->base]->f.size() : 0;
			for(size_t i = from; i < c->f.size(); i++) o.line(tyName(c->f[i].ty) + " " + c->f[i].name + ";");
			if(!c->isVal)
			{
				o.line("void " + c->name + "(int q_){ a = q_; }");
				if(c->ctorRefField >= 0) o.line("void " + c->name + "(int q_, " + tyName(c->f[c->ctorRefField].ty) + " r_){ a = q_; " + c->f[c->ctorRefField].name + " = r_; }");
			}
			o.ind--; o.line("}");
		}
		for(Var *g : globals) o.line(tyName(g->ty) + " " + g->name + ";");
		for(Cls *c : classes) if(c->vm) o.line("int " + c->name + ":vm(" + params(c->vm) + ");");
		for(FnDef *f : funcs)
		{
			if(f->cls >= 0) o.line("int " + classes[f->cls]->name + ":vm(" + params(f) + "){");
			else if(f->isFactory) o.line("auto " + f->name + "(" + params(f) + "){");
			else o.line(tyName(f->ret) + " " + f->name + "(" + params(f) + "){");
			rbody(o, f->body); o.line("}");
		}
		o.ind = -1; rbody(o, mainBody);
		return o.t;
	}

	// ------------------------------------------------------------------ generation
	static E* mk(Op_ op, Ty ty, std::vector<E*> k = {}){ E *e = new E; e->op = op; e->ty = ty; e->k = k; return e; }
	static E* I(long long v){ E *e = mk(O_I, INT); e->iv = v; return e; }
	static E* V(Var *v){ E *e = mk(O_VAR, v->ty); e->var = v; return e; }
	static E* bin(const char *op, Ty t, E *a, E *b){ E *e = mk(O_BIN, t, { a, b }); e->sv = op; return e; }
	static E* notNull(E *a){ E *e = mk(O_TRUTH, INT, { a }); e->sv = a->ty.k == AUTO ? "auto" : "!="; return e; }
	static E* fieldOf(E *o, int idx){ const Field &f = (*gc_)[o->ty.c]->f[idx]; E *e = mk(o->ty.k == VAL ? O_VFIELD : O_FIELD, f.ty, { o }); e->field = idx; e->sv = f.name; return e; }

	struct Gen
	{
		Rng r; const Profile &pr; Program *p;
		Gen(u64 seed, const Profile &prof): r(seed), pr(prof), p(new Program) { p->prof = prof; gc_ = &p->classes; }
		FnDef *fn = nullptr; std::vector<Var*> scope; int nameId = 0, loopDepth = 0, brkDepth = 0, risk = 0, fnLimit = 0, lambdaDepth = 0, stmtDepth = 0; bool inCo = false, noDroppable = false; bool inSwitch = false;
		std::set<u32> usedHashes;
		static u32 nameHash(const std::string &s){ u32 h = 5381; for(char c : s) h = h * 33 + (unsigned char)c; return h; }
		// nullc looks names up by this hash alone, so two names must not share it
		std::string nm(const char *pre)
		{
			if(usedHashes.empty()) for(const char *w : { "try", "Junk", "churn", "rput", "rcall", "gput", "gcall", "rgf", "rgn", "rgg", "rgm", "suma", "cl", "sx", "kz", "kk", "ux", "ix", "ei", "el", "ed", "es", "throw", "assert", "hostcall", "rawcall", "rawsum", "sim_host", "sim_fault", "typeid", "size", "this", "str", "int", "GC", "dumpall", "vm", "a" }) usedHashes.insert(nameHash(w));
			for(;;) { std::string n = pre + std::to_string(nameId++); if(usedHashes.insert(nameHash(n)).second) return n; }
		}
		bool pc(int w){ return int(r.below(100)) < w; }

		std::vector<Var*> visible(std::function<bool(Var*)> f)
		{
			std::vector<Var*> v; for(Var *x : p->globals) if(f(x)) v.push_back(x);
			for(Var *x : scope) { if(x->owner != fn && x->nocap) continue; if(f(x)) { v.push_back(x); v.push_back(x); } }
			return v;
		}
		std::vector<Var*> vars(Ty t, bool writable = false){ return visible([&](Var *x){ return x->ty == t && (!writable || !x->ro); }); }
		// guard: cond ? a : dflt
		E* tern(E *c, E *a, E *b){ return mk(O_TERN, a->ty, { c, a, b }); }
		static E* keep(E *e){ e->keep = true; return e; }
		static void keepIn(E *e){ for(;;) { if(e->op == O_FIELD || e->op == O_INDEX || e->op == O_DEREF || e->op == O_VFIELD || e->op == O_UNBOX) { e->keep = true; return; } if(e->k.empty()) return; e = e->k[0]; } }
		static bool isConst(E *e){ switch(e->op) { case O_I: case O_L: case O_D: return true; case O_BIN: case O_NEG: case O_NOT: case O_BNOT: case O_TERN: case O_AND: case O_OR: case O_CAST: for(E *k : e->k) if(!isConst(k)) return false; return true; default: return false; } }
		bool risky(){ return risk > 0 && pc(risk); }

		// a pure path to an object: variable or variable.field; may be null
		E* objPath(int cls = -1)
		{
			auto v = visible([&](Var *x){ return x->ty.k == OBJ && (cls < 0 || x->ty.c == cls); });
			if(v.empty()) return nullptr;
			E *e = V(r.pick(v));
			return e;
		}
		bool nonNullPath(E *e){ return e->op == O_VAR && e->var->nonnull; }
		static bool baseOf(int b, int d){ for(; d >= 0; d = (*gc_)[d]->base) if(d == b) return true; return false; }

		long long smallInt(){ static const int sp[] = { 0, 1, -1, 2, 3, 5, 7, 10, 31, 32, 100, 127, 128, 255, 256, 1000, 32767, 32768, 65535, 65536, 2147483647, -2147483647, 1000000007 }; return pc(70) ? r.range(-9, 20) : sp[r.below(sizeof sp / sizeof *sp)]; }

		E* gI(int d)
		{
			if(d <= 0 || pc(18))
			{
				if(pc(55)) { auto v = pc(20) ? visible([](Var *x){ return x->ty.k == CHAR || x->ty.k == SHORT; }) : vars(INT); if(!v.empty()) return wide(V(r.pick(v))); }
				return I(smallInt());
			}
			for(int tries = 0; tries < 12; tries++)
			{
				switch(r.below(32))
				{
				case 0: case 1: case 2: { static const char *ops[] = { "+", "-", "*", "&", "|", "^" }; return bin(ops[r.below(6)], INT, gI(d - 1), gI(d - 1)); }
				case 3: { E *b = bin("&", INT, gI(d - 1), I(15)); return bin(pc(50) ? "<<" : ">>", INT, gI(d - 1), b); }
				case 4: { const char *o = pc(50) ? "/" : "%"; if(risky()) { E *dv = gI(d - 1); return keep(bin(o, INT, gI(d - 1), bin("&", INT, isConst(dv) ? bin("+", INT, dv, mk(O_KK, INT)) : dv, I(3)))); } return bin(o, INT, gI(d - 1), bin("+", INT, bin("&", INT, gI(d - 1), I(15)), I(1))); }
				case 5: return cmp(d);
				case 6: { E *e = mk(pc(50) ? O_AND : O_OR, INT, { gI(d - 1), gI(d - 1) }); e->sv = e->op == O_AND ? "&&" : "||"; return e; }
				case 7: { static const Op_ u[] = { O_NEG, O_NOT, O_BNOT }; return mk(u[r.below(3)], INT, { gI(d - 1) }); }
				case 8: return tern(cond(d - 1), gI(d - 1), gI(d - 1));
				case 9: case 10: case 11: { E *e = fieldRead(d, [](Ty t){ return isInt(t.k); }); if(e){ if(e->ty.k != INT){ e = e->op == O_TERN ? e : e; } return e; } break; }
				case 12: case 13: { E *e = idxRead(d, INT); if(e) return e; break; }
				case 14: case 15: { E *e = callFn(INT, d); if(e) return e; break; }
				case 16: case 17: if(pc(pr.closures * 3)) { E *e = callVal(d); if(e) return e; } break;
				case 18: if(pc(pr.gens * 3) && !inCo) { E *e = callGen(); if(e) return e; } break;
				case 19: if(pc(pr.virt * 4)) { E *e = method(d); if(e) return e; } break;
				case 20: if(pc(pr.autos * 4)) { E *e = autoUse(d); if(e) return e; } break;
				case 21: if(pc(pr.host * 4)) { E *e = hostUse(d); if(e) return e; } break;
				case 22: { auto v = visible([](Var *x){ return isArr(x->ty.k) || x->ty.k == STR; }); if(!v.empty()) return mk(O_SIZE, INT, { V(r.pick(v)) }); break; }
				case 23: if(pc(pr.strings * 3)) { auto v = vars(STR); if(!v.empty()) return mk(O_STRIDX, INT, { V(r.pick(v)), gI(d - 1) }); } break;
				case 24: if(pr.incExpr && pc(40)) { auto v = vars(INT, true); if(!v.empty()) { E *e = mk(O_INCDEC, INT, { V(r.pick(v)) }); e->iv = r.below(4); return e; } } break;
				case 25: if(pr.incExpr && pc(40)) { auto v = vars(INT, true); if(!v.empty()) { static const char *ops[] = { "=", "+=", "-=", "*=", "^=" }; E *e = mk(O_ASSIGN, INT, { V(r.pick(v)), gI(d - 1) }); e->sv = ops[r.below(5)]; return e; } } break;
				case 26: { auto v = vars(PINT); if(!v.empty() && pc(pr.ptrs * 5)) { E *q = V(r.pick(v)); return risky() ? keep(mk(O_DEREF, INT, { q })) : tern(notNull(q), mk(O_DEREF, INT, { q }), I(smallInt())); } break; }
				case 27: { E *c = mk(O_CAST, INT, { pc(60) ? gL(d - 1) : mk(O_CL, DOUBLE, { gD(d - 1) }) }); return c; }
				case 28: { auto v = visible([](Var *x){ return x->ty.k == ARRI && !isArrF(x->ty); }); if(!v.empty()) return mk(O_SUMA, INT, { V(r.pick(v)) }); break; }
				case 30: if(fn == p->mainFn && !inCo && pc(pr.closures * 3)) return mk(O_RCALL, INT, { I(r.below(8)), gI(d - 1) }); break;
				case 31: if(fn == p->mainFn && !inCo && pc(pr.gens * 3)) { E *e = mk(O_RCALL, INT, { I(r.below(8)) }); e->iv = 1; return e; } break;
				case 29: if(pr.virt && pc(40)) { E *a = objPath(), *b = a ? objPath(a->ty.c) : nullptr; if(b) return bin(pc(50) ? "==" : "!=", INT, a, b); } break;
				}
			}
			return I(smallInt());
		}
		E* cmp(int d)
		{
			static const char *ops[] = { "<", ">", "<=", ">=", "==", "!=" }; const char *o = ops[r.below(6)];
			switch(r.below(6)) { case 0: return bin(o, INT, gL(d - 1), gL(d - 1)); case 1: return bin(o, INT, gD(d - 1), gD(d - 1)); case 2: if(pc(pr.strings * 3)) return bin(pc(50) ? "==" : "!=", INT, gS(d - 1), gS(d - 1)); break; default: break; }
			return bin(o, INT, gI(d - 1), gI(d - 1));
		}
		E* cond(int d){ return pc(70) ? cmp(d < 1 ? 1 : d) : gI(d); }
		E* gL(int d)
		{
			if(d <= 0 || pc(25)) { if(pc(50)) { auto v = vars(LONG); if(!v.empty()) return V(r.pick(v)); } E *e = mk(O_L, LONG); e->iv = pc(70) ? r.range(-20, 100) : (long long)(r.next() >> r.range(1, 40)); return e; }
			switch(r.below(8))
			{
			case 0: case 1: { static const char *ops[] = { "+", "-", "*", "&", "|", "^" }; return bin(ops[r.below(6)], LONG, gL(d - 1), gL(d - 1)); }
			case 2: return bin(pc(50) ? "/" : "%", LONG, gL(d - 1), bin("+", LONG, mk(O_CAST, LONG, { bin("&", INT, gI(d - 1), I(31)) }), [&]{ E *e = mk(O_L, LONG); e->iv = 1; return e; }()));
			case 3: return bin(pc(50) ? "<<" : ">>", LONG, gL(d - 1), mk(O_CAST, LONG, { bin("&", INT, gI(d - 1), I(31)) }));
			case 4: { E *e = fieldRead(d, [](Ty t){ return t.k == LONG; }); if(e) return e; return mk(O_CAST, LONG, { gI(d - 1) }); }
			case 5: { E *e = callFn(LONG, d); if(e) return e; return mk(O_CAST, LONG, { gI(d - 1) }); }
			case 6: return tern(cond(d - 1), gL(d - 1), gL(d - 1));
			default: return mk(O_CAST, LONG, { gI(d - 1) });
			}
		}
		E* gD(int d)
		{
			if(d <= 0 || pc(25)) { if(pc(50)) { auto v = vars(pc(25) ? FLOAT : DOUBLE); if(!v.empty()) return wide(V(r.pick(v))); } E *e = mk(O_D, DOUBLE); e->dv = r.range(-40, 200) * 0.25; return e; }
			switch(r.below(7))
			{
			case 0: case 1: { static const char *ops[] = { "+", "-", "*" }; return bin(ops[r.below(3)], DOUBLE, gD(d - 1), gD(d - 1)); }
			case 2: { E *e = fieldRead(d, [](Ty t){ return t.k == DOUBLE; }); if(e) return e; break; }
			case 3: { E *e = fieldRead(d, [](Ty t){ return t.k == FLOAT; }); if(e) return e; break; }
			case 4: { E *e = callFn(DOUBLE, d); if(e) return e; break; }
			case 5: return mk(O_NEG, DOUBLE, { gD(d - 1) });
			}
			return mk(O_CAST, DOUBLE, { gI(d - 1) });
		}
		E* gS(int d)
		{
			auto v = vars(STR);
			if(d <= 0 || pc(30)) { if(!v.empty() && pc(60)) return V(r.pick(v)); E *e = mk(O_S, STR); static const char *w[] = { "", "a", "bc", "hello", "node", "x y", "0123456789abcdef", "longer string used to cross a size class" }; e->sv = w[r.below(8)]; return e; }
			switch(r.below(5))
			{
			case 0: case 1: return mk(O_STRCAT, STR, { gS(d - 1), gS(d - 1) });
			case 2: { E *e = fieldRead(d, [](Ty t){ return t.k == STR; }); if(e) return e; break; }
			case 3: { E *e = callFn(STR, d); if(e) return e; break; }
			case 4: return mk(O_INTSTR, STR, { mk(O_CAST, INT, { gI(d - 1) }) });
			}
			return mk(O_STRCAT, STR, { gS(d - 1), gS(d - 1) });
		}
		E* dflt(Ty t){ switch(t.k){ case CHAR: case SHORT: case INT: return I(r.range(0, 9)); case LONG: { E *e = mk(O_L, LONG); e->iv = r.range(0, 9); return e; } case FLOAT: case DOUBLE: { E *e = mk(O_D, DOUBLE); e->dv = 0.5; return e; } case STR: { E *e = mk(O_S, STR); e->sv = "z"; e->iv = 1; return e; } default: return mk(O_NULL, t); } }
		// guarded field read of one of the accepted types; widened to int/double
		E* fieldRead(int d, std::function<bool(Ty)> ok)
		{
			(void)d;
			std::vector<E*> cands;
			for(int t = 0; t < 3; t++)
			{
				E *o;
				if(pc(pr.values * 2)) { auto v = visible([](Var *x){ return x->ty.k == VAL; }); if(v.empty()) continue; o = V(r.pick(v)); }
				else o = objPath();
				if(!o) continue;
				std::vector<int> fs; auto &f = (*gc_)[o->ty.c]->f;
				for(size_t i = 0; i < f.size(); i++) if(ok(f[i].ty)) fs.push_back(int(i));
				// one more hop through an object field
				if(o->ty.k == OBJ && pc(25)) { std::vector<int> hs; for(size_t i = 0; i < f.size(); i++) if(f[i].ty.k == OBJ) hs.push_back(int(i)); if(!hs.empty()) {
					E *h = fieldOf(o, r.pick(hs)); std::vector<int> f2; auto &g = (*gc_)[h->ty.c]->f; for(size_t i = 0; i < g.size(); i++) if(ok(g[i].ty)) f2.push_back(int(i));
					if(!f2.empty()) { E *c = mk(O_AND, INT, { notNull(o), notNull(h) }); c->sv = "&&"; E *rd = wide(fieldOf(h, r.pick(f2))); if(risky()) { keepIn(rd); keepIn(h); return rd; } return tern(c, rd, dflt(rd->ty)); } } }
				// a value struct inside an object
				if(o->ty.k == OBJ && pc(30)) { std::vector<int> hs; for(size_t i = 0; i < f.size(); i++) if(f[i].ty.k == VAL) hs.push_back(int(i)); if(!hs.empty()) {
					E *h = fieldOf(o, r.pick(hs)); std::vector<int> f2; auto &g = (*gc_)[h->ty.c]->f; for(size_t i = 0; i < g.size(); i++) if(ok(g[i].ty)) f2.push_back(int(i));
					if(!f2.empty()) { E *rd = wide(fieldOf(h, r.pick(f2))); if(nonNullPath(o)) { if(risky()) keepIn(rd); return rd; } return tern(notNull(o), rd, dflt(rd->ty)); } } }
				if(fs.empty()) continue;
				E *rd = wide(fieldOf(o, r.pick(fs)));
				if(o->ty.k == VAL) return rd; if(risky()) { keepIn(rd); return rd; } if(nonNullPath(o)) return rd;
				return tern(notNull(o), rd, dflt(rd->ty));
			}
			return nullptr;
		}
		E* wide(E *e){ if(e->ty.k == CHAR || e->ty.k == SHORT) return mk(O_CAST, INT, { e }); if(e->ty.k == FLOAT) return mk(O_CAST, DOUBLE, { e }); return e; }
		// pure array path: variable, or field of nonnull object
		E* arrPath(Ty t)
		{
			auto v = visible([&](Var *x){ return x->ty == t || (t.k == ARRI && !isArrF(t) && x->ty.k == FIXI) || (t.k == ARRO && x->ty.k == FIXO && (x->ty.c & 255) == t.c); });
			std::vector<E*> c; for(Var *x : v) c.push_back(V(x));
			auto o = visible([&](Var *x){ return x->ty.k == OBJ && x->nonnull; });
			for(Var *x : o) { auto &f = (*gc_)[x->ty.c]->f; for(size_t i = 0; i < f.size(); i++) if(f[i].ty == t || (t.k == ARRI && !isArrF(t) && f[i].ty.k == FIXI) || (t.k == ARRO && f[i].ty.k == FIXO && (f[i].ty.c & 255) == t.c)) c.push_back(fieldOf(V(x), int(i))); }
			if(c.empty()) return nullptr;
			return r.pick(c);
		}
		static bool hasCall(E *e){ switch(e->op){ case O_CALL: case O_CALLV: case O_METHOD: case O_AUTOMETHOD: case O_HOSTCALL: case O_RAWCALL: case O_SIMHOST: case O_LAMBDA: case O_ASSIGN: case O_INCDEC: case O_RPUT: case O_RCALL: return true; default: break; } for(E *k : e->k) if(hasCall(k)) return true; return false; }
		E* index(E *a, E *i){ E *sz = (a->ty.k == FIXI || a->ty.k == FIXO) ? I(fixSize(a->ty)) : mk(O_SIZE, INT, { a }); E *e = mk(O_INDEX, elemTy(a->ty), { a, mk(O_IX, INT, { i, sz }) }); if(hasCall(i)) e->keep = true; return e; }
		E* idxRead(int d, Ty et)
		{
			Ty at; if(et.k == INT) at = ARRI; else if(et.k == OBJ) at = Ty(ARRO, et.c); else if(et.k == FN) at = ARRF(); else return nullptr;
			if(et.k == INT && pc(pr.values)) // element of an array of structs
			{
				auto v = visible([](Var *x){ return x->ty.k == ARRV; }); if(!v.empty()) { E *a = V(r.pick(v)); std::vector<int> fs; auto &f = (*gc_)[a->ty.c]->f; for(size_t i = 0; i < f.size(); i++) if(f[i].ty.k == INT) fs.push_back(int(i)); if(!fs.empty()) return tern(bin(">", INT, mk(O_SIZE, INT, { a }), I(0)), fieldOf(index(a, gI(d - 1)), r.pick(fs)), I(3)); }
			}
			E *a = arrPath(at); if(!a) return nullptr;
			bool fix = a->ty.k == FIXI || a->ty.k == FIXO;
			if(risky() && !fix) return keep(mk(O_INDEX, et, { a, bin("&", INT, gI(d - 1), I(7)) }));
			E *rd = index(a, gI(d - 1));
			if(fix) return rd;
			return tern(bin(">", INT, mk(O_SIZE, INT, { a }), I(0)), rd, dflt(et));
		}
		E* callFn(Ty t, int d)
		{
			if(inCo && pc(50)) return nullptr;
			std::vector<FnDef*> c; for(FnDef *f : p->funcs) if(f->cls < 0 && !f->isFactory && f->index < fnLimit && f->ret == t) c.push_back(f);
			std::vector<Var*> lf; if(t.k == INT) lf = visible([](Var *x){ return x->ty.k == FN && x->ro && x->name[0] == 'l'; });
			if(!lf.empty() && (c.empty() || pc(40))) return mk(O_CALLV, INT, { V(r.pick(lf)), gI(d - 1) });
			if(c.empty()) return nullptr;
			FnDef *f = r.pick(c); E *e = mk(O_CALL, t); e->fn = f;
			for(size_t i = 0; i < f->params.size(); i++) e->k.push_back(f->rec && i == 0 ? I(r.range(0, 4)) : gAny(f->params[i]->ty, d - 1));
			return e;
		}
		E* callVal(int d)
		{
			E *f = nullptr;
			auto v = vars(FN);
			if(!v.empty() && pc(70)) f = V(r.pick(v));
			if(!f) { E *a = arrPath(ARRF()); if(a) { E *i = I(r.range(0, 5)); E *el = index(a, i); E *c = mk(O_AND, INT, { bin(">", INT, mk(O_SIZE, INT, { a }), I(0)), notNull(el) }); c->sv = "&&"; return tern(c, mk(O_CALLV, INT, { el, gI(d - 1) }), I(smallInt())); } }
			if(!f) return nullptr;
			E *call = mk(O_CALLV, INT, { f, gI(d - 1) });
			if(f->var->ro || f->var->nonnull || risky()) return call;
			return tern(notNull(f), call, I(smallInt()));
		}
		E* callGen()
		{
			auto v = vars(GEN); if(v.empty()) return nullptr; E *g = V(r.pick(v)); E *call = mk(O_CALLV, INT, { g });
			if(g->var->nonnull || risky()) return call; return tern(notNull(g), call, I(-5));
		}
		E* method(int d)
		{
			E *o = objPath(); if(!o) return nullptr;
			E *call = mk(O_METHOD, INT, { o, gI(d - 1) }); bool virt_ = (*gc_)[o->ty.c]->ext || (*gc_)[o->ty.c]->base >= 0; if(nonNullPath(o) || (risky() && virt_)) { call->keep = true; return call; } return tern(notNull(o), call, I(smallInt()));
		}
		E* autoUse(int d)
		{
			auto v = vars(Ty(AUTO, 0)), w = vars(Ty(AUTO, 1));
			if(!w.empty() && pc(40)) { E *a = V(r.pick(w)); E *u = mk(O_UNBOX, INT, { a }); return risky() ? keep(u) : tern(notNull(a), u, I(6)); }
			if(v.empty()) return nullptr; E *a = V(r.pick(v));
			if(pc(50)) {  E *call = mk(O_AUTOMETHOD, INT, { a, gI(d - 1) }); if(risky()) { call->keep = true; return call; } return tern(notNull(a), call, I(4)); }
			std::vector<int> cs; for(Cls *c : p->classes) if(!c->isVal) cs.push_back(c->idx);
			int c = r.pick(cs); E *ti = mk(O_TYPEIS, Ty(INT, 0), { a }); ti->iv = c;
			E *rd = fieldOf(mk(O_UNBOX, Ty(OBJ, c), { a }), p->classes[c]->ext || p->classes[c]->base >= 0 ? 0 : 0);
			return risky() ? (keep(rd->k[0]), keep(rd)) : tern(ti, rd, I(8));
		}
		E* hostUse(int d)
		{
			switch(r.below(4))
			{
			case 0: case 1: { E *f = nullptr; if(pc(50)) f = lambda(d - 1); else { auto v = vars(FN); if(!v.empty()) f = V(r.pick(v)); } if(!f) return nullptr; E *c = mk(pc(50) ? O_HOSTCALL : O_RAWCALL, INT, { f, gI(d - 1) }); return (f->op == O_LAMBDA || f->var->ro) ? c : tern(notNull(f), c, I(3)); }
			case 2: return mk(O_SIMHOST, INT, { gI(d - 1), gI(d - 1), gI(d - 1) });
			default: return mk(O_RAWSUM, INT, { gI(d - 1), gL(d - 1), mk(O_CL, DOUBLE, { gD(d - 1) }), mk(O_CAST, CHAR, { bin("&", INT, gI(d - 1), I(127)) }), mk(O_CAST, SHORT, { bin("&", INT, gI(d - 1), I(32767)) }) });
			}
		}
		E* gObj(int cls, int d, bool nonnull)
		{
			auto v = visible([&](Var *x){ return x->ty.k == OBJ && baseOf(cls, x->ty.c) && (!nonnull || x->nonnull); });
			if(!v.empty() && (d <= 0 || pc(45))) return V(r.pick(v));
			if(d > 0 && !nonnull)
			{
				if(pc(15)) { E *e = idxRead(d, Ty(OBJ, cls)); if(e) return e; }
				if(pc(15)) { E *e = fieldRead(d, [&](Ty t){ return t.k == OBJ && t.c == cls; }); if(e) return e; }
				if(pc(20)) { E *e = callFn(Ty(OBJ, cls), d); if(e) return e; }
				if(pc(8)) return mk(O_NULL, Ty(OBJ, cls));
			}
			std::vector<int> cs; for(Cls *c : p->classes) if(!c->isVal && baseOf(cls, c->idx)) cs.push_back(c->idx);
			int c = r.pick(cs); Cls *k = p->classes[c];
			E *e = mk(O_NEWOBJ, Ty(OBJ, c), { gI(d > 0 ? d - 1 : 0) });
			if(k->ctorRefField >= 0 && d > 0 && pc(40)) e->k.push_back(gObj(k->f[k->ctorRefField].ty.c, d - 1, false));
			return e;
		}
		E* gArr(Ty t, int d)
		{
			auto v = vars(t); if(!v.empty() && pc(d <= 0 ? 80 : 35)) return V(r.pick(v));
			if(t.k == ARRI && !isArrF(t) && d > 0 && pc(20)) { E *e = mk(O_ARRLIT, t); int n = r.range(1, 5); for(int i = 0; i < n; i++) e->k.push_back(gI(d - 1)); return e; }
			if(d > 0 && pc(10)) return mk(O_NULL, t);
			return mk(O_NEWARR, t, { pc(80) ? I(r.range(1, 9)) : bin("&", INT, gI(0), I(pc(85) ? 31 : 1023)) });
		}
		FnDef *newFn(const char *pre, Ty ret){ FnDef *f = new FnDef; f->name = nm(pre); f->ret = ret; f->parent = fn; return f; }
		// lambda int(int)
		E* lambda(int d, bool noParam = false, int stm = 3)
		{
			FnDef *f = newFn("lam", INT); f->isLambda = true; fnBody(f, noParam ? 0 : 1, r.range(0, stm), d, true);
			E *e = mk(O_LAMBDA, noParam ? Ty(GEN) : Ty(FN)); e->fn = f; return e;
		}
		void fnBody(FnDef *f, int nInt, int ns, int d, bool ret)
		{
			FnDef *old = fn; size_t sz = scope.size(); int ol = loopDepth, obd = brkDepth, os = stmtDepth; bool oc = inCo, sw = inSwitch; loopDepth = 0; brkDepth = 0; inCo = false; fn = f; lambdaDepth++; stmtDepth++; inSwitch = false;
			for(int i = 0; i < nInt; i++){ Var *v = f->addVar(nm("x"), INT); f->params.push_back(v); scope.push_back(v); }
			f->body = block(ns, nullptr);
			if(ret) { S *s = st(S_RET); s->a = gI(std::max(1, d)); f->body.push_back(s); }
			scope.resize(sz); fn = old; loopDepth = ol; brkDepth = obd; stmtDepth = os; inCo = oc; lambdaDepth--; inSwitch = sw;
		}
		E* gFn(int d)
		{
			auto v = vars(FN); if(!v.empty() && pc(25)) return V(r.pick(v));
			std::vector<FnDef*> c; for(FnDef *f : p->funcs) if(f->isFactory && f->ret.k == FN && f->index < fnLimit) c.push_back(f);
			if(!c.empty() && pc(25) && d > 0) return factoryCall(r.pick(c), d);
			if(lambdaDepth > 2 || stmtDepth > 4) { if(!v.empty()) return V(r.pick(v)); return mk(O_NULL, FN); }
			return lambda(d);
		}
		E* factoryCall(FnDef *f, int d){ E *e = mk(O_CALL, f->ret); e->fn = f; for(Var *q : f->params) e->k.push_back(gAny(q->ty, d - 1)); return e; }
		E* gGen(int d)
		{
			auto v = vars(GEN); std::vector<FnDef*> c; for(FnDef *f : p->funcs) if(f->isFactory && f->ret.k == GEN && f->index < fnLimit) c.push_back(f);
			if(!c.empty() && (v.empty() || pc(70))) return factoryCall(r.pick(c), d);
			if(!v.empty()) return V(r.pick(v));
			return mk(O_NULL, GEN);
		}
		E* gVal(int cls, int d)
		{
			auto v = vars(Ty(VAL, cls)); std::vector<E*> c; for(Var *x : v) c.push_back(V(x));
			auto o = visible([&](Var *x){ return x->ty.k == OBJ && x->nonnull; });
			for(Var *x : o){ auto &f = (*gc_)[x->ty.c]->f; for(size_t i = 0; i < f.size(); i++) if(f[i].ty == Ty(VAL, cls)) c.push_back(fieldOf(V(x), int(i))); }
			if(d > 0 && pc(30)) { E *e = callFn(Ty(VAL, cls), d); if(e) return e; }
			if(c.empty()) return nullptr;
			return r.pick(c);
		}
		E* gAuto(int c, int d){ if(c == 1) return mk(O_BOX, Ty(AUTO, 1), { bin("+", INT, gI(d), I(0)) }); auto v = vars(Ty(AUTO, 0)); if(!v.empty() && pc(20)) return V(r.pick(v)); std::vector<int> cs; for(Cls *k : p->classes) if(!k->isVal) cs.push_back(k->idx); return mk(O_BOX, Ty(AUTO, 0), { gObj(r.pick(cs), d, true) }); }
		E* gPtr(int d)
		{
			auto v = vars(PINT); if(!v.empty() && pc(30)) return V(r.pick(v));
			std::vector<E*> c;
			for(Var *g : p->globals){ if(g->ty.k == INT && !g->ro) c.push_back(mk(O_ADDR, PINT, { V(g) })); }
			auto o = visible([&](Var *x){ return x->ty.k == OBJ && x->nonnull; });
			for(Var *x : o){ auto &f = (*gc_)[x->ty.c]->f; for(size_t i = 0; i < f.size(); i++) { if(f[i].ty.k == INT) for(int n = 0; n < 3; n++) c.push_back(mk(O_ADDR, PINT, { fieldOf(V(x), int(i)) })); if(f[i].ty.k == FIXI) c.push_back(mk(O_ADDR, PINT, { index(fieldOf(V(x), int(i)), gI(0)) })); } }
			if(c.empty() || pc(5)) return mk(O_NULL, PINT);
			(void)d; return r.pick(c);
		}
		E* gAny(Ty t, int d, bool nonnull = false)
		{
			switch(t.k)
			{
			case CHAR: case SHORT: case INT: return gI(d); case LONG: return gL(d); case FLOAT: { E *e = mk(O_D, DOUBLE); e->dv = r.range(-40, 200) * 0.25; return pc(50) ? e : mk(O_CL, DOUBLE, { mk(O_CAST, DOUBLE, { bin("&", INT, gI(d), I(4095)) }) }); } case DOUBLE: return mk(O_CL, DOUBLE, { gD(d) }); case STR: return gS(d);
			case ARRI: case ARRO: case ARRV: return gArr(t, d); case OBJ: return gObj(t.c, d, nonnull); case VAL: return gVal(t.c, d); case FN: return gFn(d); case GEN: return gGen(d); case AUTO: return gAuto(t.c, d); case PINT: return gPtr(d);
			default: return nullptr;
			}
		}

		// ---- statements
		S* st(SK k){ S *s = new S; s->k = k; return s; }
		S* drop(S *s){ if(!noDroppable){ p->byId.push_back(s); s->id = int(p->byId.size()); } return s; }
		Ty randTy(bool local)
		{
			for(;;)
			{
				switch(r.below(17))
				{
				case 0: case 1: return INT; case 2: if(pc(pr.small)) switch(r.below(pr.dbl ? 4 : 3)) { case 0: return CHAR; case 1: case 2: return SHORT; default: return FLOAT; } return INT; case 3: return LONG; case 4: if(pc(pr.dbl * 5)) return DOUBLE; break; case 5: if(pc(pr.strings * 4)) return STR; break;
				case 6: case 7: case 8: if(pc(pr.heap * 2)) return Ty(OBJ, refCls()); break; case 9: if(pc(pr.heap * 2)) return ARRI; break; case 10: if(pc(pr.heap)) return Ty(ARRO, refCls()); break;
				case 11: if(pc(pr.values * 4)) return Ty(VAL, valCls()); break; case 12: if(pc(pr.closures * 4)) return FN; break; case 13: if(pc(pr.gens * 5)) return GEN; break; case 14: if(pc(pr.autos * 5)) return Ty(AUTO, int(r.below(4) == 0)); break;
				case 15: if(pc(pr.ptrs * 5)) return PINT; if(pc(pr.closures * 3)) return ARRF(); break;
				case 16: if(pc(pr.values * 3)) return pc(50) ? Ty(ARRV, valCls()) : local ? (pc(50) ? Ty(FIXI, r.range(2, 6)) : Ty(FIXO, refCls() | (r.range(2, 4) << 8))) : Ty(ARRV, valCls()); break;
				}
			}
		}
		int refCls(){ std::vector<int> c; for(Cls *k : p->classes) if(!k->isVal) c.push_back(k->idx); return r.pick(c); }
		int valCls(){ std::vector<int> c; for(Cls *k : p->classes) if(k->isVal) c.push_back(k->idx); return r.pick(c); }

		// declarations at block start
		void decls(std::vector<S*> &out, int n)
		{
			for(int i = 0; i < n; i++)
			{
				Ty t = randTy(true); S *s = st(S_DECL); Var *v = fn->addVar(nm("v"), t);
				if(t.k != FIXI && t.k != FIXO && t.k != VAL) { bool nn = t.k == OBJ && pc(70); s->a = gAny(t, 2, nn); if(nn) v->nonnull = true; if(s->a && s->a->op == O_NULL && t.k == FN) s->a = mk(O_NULL, FN); }
				else if(t.k == VAL && pc(40)) s->a = gVal(t.c, 2);
				s->var = v; if(t.k == FIXI || t.k == FIXO) v->nocap = pc(50) ? true : false;
				out.push_back(s); scope.push_back(v);
			}
		}
		// a local of this block that a longer-lived function value keeps changing
		void capturedLocal(std::vector<S*> &out)
		{
			auto v = vars(FN, true); if(v.empty()) return;
			Var *target = r.pick(v); S *d = st(S_DECL); Var *c = fn->addVar(nm("c"), INT); d->var = c; d->a = gI(1); out.push_back(d); scope.push_back(c);
			FnDef *f = newFn("lam", INT); f->isLambda = true; Var *x = f->addVar(nm("x"), INT); f->params.push_back(x);
			FnDef *old = fn; fn = f; S *a = st(S_ASSIGN); a->a = V(c); a->b = pc(60) ? V(x) : bin("^", INT, V(x), V(c)); a->sv = pc(50) ? "+=" : "="; f->body.push_back(drop(a)); S *rt = st(S_RET); rt->a = pc(50) ? V(c) : bin("-", INT, V(c), V(x)); f->body.push_back(rt); fn = old;
			E *e = mk(O_LAMBDA, Ty(FN)); e->fn = f; if(pc(65)) { S *x = drop(st(S_EXPR)); x->a = mk(O_RPUT, INT, { e }); out.push_back(x); } else out.push_back(drop(assign(V(target), e)));
		}
		std::vector<S*> block(int n, S *parent)
		{
			std::vector<S*> out; size_t sz = scope.size();
			if(n > 0 && pc(75)) decls(out, r.range(1, fn == p->mainFn && stmtDepth == 0 ? 4 : 2));
			if(n > 0 && stmtDepth > 0 && lambdaDepth < 2 && pc(loopDepth > 0 ? pr.closures * 2 / 3 : pr.closures / 4)) capturedLocal(out);
			for(int i = 0; i < n; i++) { S *s = stmt(); if(s) out.push_back(s); }
			(void)parent;
			scope.resize(sz);
			return out;
		}
		S* wrapIf(E *c, S *s){ if(!c) return drop(s); S *w = st(S_IF); w->a = c; w->body.push_back(s); return drop(w); }
		S* assign(E *lv, E *rhs, const char *op = "="){ S *s = st(S_ASSIGN); s->a = lv; s->b = rhs; s->sv = op; return s; }

		S* emit(int d)
		{
			S *s = st(S_EMIT);
			switch(r.below(8)) { case 0: s->sv = "el"; s->a = gL(d); break; case 1: s->sv = "ed"; s->a = mk(O_CL, DOUBLE, { gD(d) }); break; case 2: if(pc(pr.strings * 4)){ s->sv = "es"; s->a = gS(d); break; } /* fallthrough */ default: s->sv = "ei"; s->a = gI(d); }
			return drop(s);
		}
		S* storeStmt()
		{
			Ty t = randTy(true);
			if(t.k == FIXI || t.k == FIXO) t = INT;
			const char *op = "=";
			if(t.k == INT && pc(50)) { static const char *ops[] = { "+=", "-=", "*=", "^=", "&=", "|=" }; op = ops[r.below(6)]; }
			else if(t.k == LONG && pc(40)) op = pc(50) ? "+=" : "*=";
			// field, element or variable
			int how = int(r.below(3));
			if(how == 0)
			{
				E *o = pc(75) ? objPath() : nullptr; bool val = false; if(!o) { auto v = visible([](Var *x){ return x->ty.k == VAL && !x->ro; }); if(!v.empty()){ o = V(r.pick(v)); val = true; } }
				if(o) { auto &f = (*gc_)[o->ty.c]->f; int i = int(r.below(u32(f.size()))); E *lv = fieldOf(o, i); E *guard = (val || nonNullPath(o) || risky()) ? nullptr : notNull(o); E *rhs = nullptr;
					if(lv->ty.k == FIXI || lv->ty.k == FIXO) { E *el = index(lv, gI(1)); rhs = gAny(el->ty, 2); if(rhs) return wrapIf(guard, assign(el, rhs)); }
					else if(lv->ty.k == VAL && pc(60)) { auto &g = (*gc_)[lv->ty.c]->f; E *l2 = fieldOf(lv, int(r.below(u32(g.size())))); if(l2->ty.k != FIXI && l2->ty.k != FIXO && l2->ty.k != VAL) { rhs = gAny(l2->ty, 2); if(rhs) return wrapIf(guard, assign(l2, rhs)); } }
					else { rhs = gAny(lv->ty, 2); if(rhs) { const char *o2 = isInt(lv->ty.k) && pc(40) ? (pc(50) ? "+=" : "-=") : "="; return wrapIf(guard, assign(lv, rhs, o2)); } }
				}
			}
			if(how == 1)
			{
				E *a = nullptr;
				switch(r.below(4)) { case 0: a = arrPath(ARRI); break; case 1: a = arrPath(Ty(ARRO, refCls())); break; case 2: if(pc(pr.closures * 4)) a = arrPath(ARRF()); break; case 3: { auto v = visible([](Var *x){ return x->ty.k == ARRV; }); if(!v.empty()) a = V(r.pick(v)); } }
				if(a)
				{
					bool fix = a->ty.k == FIXI || a->ty.k == FIXO; E *guard = fix || risky() ? nullptr : bin(">", INT, mk(O_SIZE, INT, { a }), I(0));
					E *el = index(a, gI(1));
					if(el->ty.k == VAL) { if(pc(70)) { auto &g = (*gc_)[el->ty.c]->f; el = fieldOf(el, int(r.below(u32(g.size())))); if(el->ty.k == FIXI || el->ty.k == FIXO || el->ty.k == VAL) return nullptr; } }
					E *rhs = gAny(el->ty, 2); if(rhs) return wrapIf(guard, assign(el, rhs, el->ty.k == INT && pc(40) ? "+=" : "="));
				}
			}
			if(t.k == INT && pc(pr.ptrs)) { auto v = vars(PINT); if(!v.empty()) { E *q = V(r.pick(v)); return wrapIf(risky() ? nullptr : notNull(q), assign(mk(O_DEREF, INT, { q }), gI(2), pc(40) ? "+=" : "=")); } }
			auto v = vars(t, true); if(v.empty()) return nullptr;
			Var *x = r.pick(v); E *rhs = gAny(t, 3, x->nonnull); if(!rhs) return nullptr;
			return drop(assign(V(x), rhs, op));
		}
		S* stmt()
		{
			for(int tries = 0; tries < 20; tries++)
			{
				int deep = stmtDepth;
				if(pr.fault && pc(pr.fault)) { S *s = drop(st(S_FAULT)); s->iv = nameId++; return s; }
				switch(r.below(23))
				{
				case 21: case 22: if(deep < 4 && pc(pr.burst)) { S *s = burst(); if(s) return s; } break;
				case 20: if(risk > 0 && pc(risk * 3)) { S *s = overwritten(); if(s) return s; } break;
				case 0: case 1: case 2: if(inCo && pc(50)) break; return emit(3);
				case 3: case 4: case 5: case 6: case 7: { S *s = storeStmt(); if(s) return s; break; }
				case 8: if(deep < 4) { S *s = drop(st(S_IF)); s->a = cond(2); stmtDepth++; s->body = block(r.range(1, 3), s); if(pc(40)) s->els = block(r.range(1, 2), s); stmtDepth--; return s; } break;
				case 9: case 10: if(deep < 4 && pc(pr.loops * 3)) return loop(); break;
				case 11: if(deep < 3 && pc(pr.tries * 4) && !inCo) return tryStmt(); break;
				case 12: if(deep < 4 && pc(pr.closures * 3) && lambdaDepth < 2 && !inCo) return localFn(); break;
				case 13: if(loopDepth > 0 && pc(40)) { S *w = drop(st(S_IF)); w->a = cond(2); bool br = pc(50); S *x = st(br ? S_BREAK : S_CONT); int most = br ? brkDepth : loopDepth, least = br && inSwitch ? 2 : 1; x->iv = least > most ? most : pc(45) ? most : r.range(least, most); w->body.push_back(x); return w; } break;
				case 14: if(risk > 0 && pc(risk * 2)) { S *s; if(pc(50)) { s = st(S_THROW); s->a = pc(50) ? gS(1) : mk(O_BOX, Ty(AUTO, 0), { gObj(refCls(), 1, true) }); } else { s = st(S_ASSERT); s->a = gI(2); s->sv = "check " + std::to_string(nameId++); } if(s->k == S_THROW) { S *w = drop(st(S_IF)); w->a = cond(2); w->body.push_back(s); return w; } return drop(s); } break;
				case 15: if(fn && fn != p->mainFn && !inCo && loopDepth == 0 && stmtDepth > 0 && pc(15) && fn->ret.k != VOID) { S *w = drop(st(S_IF)); w->a = cond(2); S *s = st(S_RET); s->a = gAny(fn->ret, 2); if(!s->a || s->a->op == O_NULL) break; w->body.push_back(s); return w; } break;
				case 16: if(pc(pr.gccall * 3)) return drop(st(S_GC)); break;
				case 17: { S *s = drop(st(S_EXPR)); E *e = nullptr; switch(r.below(6)) { case 4: e = pc(pr.closures * 2) ? mk(O_RPUT, INT, { gFn(2) }) : nullptr; break; case 5: e = pc(pr.gens * 2) ? mk(O_RPUT, INT, { gGen(2) }) : nullptr; break; case 0: e = callFn(INT, 2); break; case 1: e = pc(pr.churn * 5) ? mk(O_CHURN, INT, { I(r.range(1, 12)) }) : nullptr; break; case 2: e = callFn(Ty(OBJ, refCls()), 2); break; case 3: { auto v = vars(INT, true); if(!v.empty()) { e = mk(O_INCDEC, INT, { V(r.pick(v)) }); e->iv = r.below(4); } } } if(!e) { p->byId.pop_back(); break; } s->a = e; return s; }
				case 18: if(deep < 3) { S *s = drop(st(S_SWITCH)); s->a = bin("&", INT, gI(2), I(3)); int n = r.range(1, 3); stmtDepth++; brkDepth++; bool o = inSwitch; inSwitch = true; for(int i = 0; i < n; i++){ s->caseVals.push_back(i); s->cases.push_back(block(1, s)); } if(pc(60)){ s->caseVals.push_back(-1); s->cases.push_back(block(1, s)); } inSwitch = o; stmtDepth--; brkDepth--; return s; } break;
				case 19: if(deep < 3 && pc(20)) { S *s = drop(st(S_BLOCK)); stmtDepth++; s->body = block(r.range(1, 3), s); stmtDepth--; return s; } break;
				}
				if(inCo && pc(35) && !inSwitch) { S *s = drop(st(S_YIELD)); s->a = gI(2); return s; }
			}
			return emit(2);
		}
		// a location outside of the function is written, an operation that may fail follows, then it is written again and shown
		S* overwritten()
		{
			std::vector<E*> c; for(Var *g : p->globals) if(g->ty.k == INT && !g->ro) c.push_back(V(g));
			Var *o = nullptr; for(Var *x : scope) if(x->ty.k == OBJ && x->nonnull && x->owner == fn) o = x;
			if(o) { auto &f = (*gc_)[o->ty.c]->f; for(size_t i = 0; i < f.size(); i++) if(f[i].ty.k == INT) c.push_back(fieldOf(V(o), int(i))); }
			if(c.empty()) return nullptr;
			E *l = r.pick(c); S *b = drop(st(S_BLOCK)); S *d = st(S_DECL); Var *w = fn->addVar(nm("w"), INT); d->var = w; d->a = bin("&", INT, bin("+", INT, gI(1), mk(O_KK, INT)), I(3)); b->body.push_back(d); scope.push_back(w);
			b->body.push_back(drop(assign(l, I(smallInt())))); E *rhs = nullptr; if(pc(35)) { auto v = visible([](Var *x){ return x->ty.k == ARRI && !isArrF(x->ty); }); if(!v.empty()) rhs = index(V(r.pick(v)), V(w)); }
			if(rhs && rhs->op == O_INDEX && rhs->k[1]->op == O_IX) rhs->k[1] = V(w);
			if(!rhs) rhs = bin(pc(50) ? "/" : "%", INT, I(r.range(1, 50)), V(w));
			b->body.push_back(assign(l, rhs)); S *e = st(S_EMIT); e->sv = "ei"; e->a = l; b->body.push_back(e); scope.pop_back();
			return b;
		}
		// places of simple types that can be named without any check
		E* place(std::function<bool(Ty)> ok)
		{
			std::vector<E*> c;
			auto fields = [&](E *o){ auto &f = (*gc_)[o->ty.c]->f; for(size_t i = 0; i < f.size(); i++) { if(ok(f[i].ty)) c.push_back(fieldOf(o, int(i))); if(f[i].ty.k == FIXI && ok(INT)) c.push_back(mk(O_INDEX, INT, { fieldOf(o, int(i)), I(r.below(u32(f[i].ty.c))) })); if(f[i].ty.k == VAL) { E *q = fieldOf(o, int(i)); auto &g = (*gc_)[q->ty.c]->f; for(size_t j = 0; j < g.size(); j++) if(ok(g[j].ty)) c.push_back(fieldOf(q, int(j))); } } };
			for(Var *x : visible([](Var*){ return true; }))
			{
				if(x->ro && x->ty.k != OBJ) continue;
				if(ok(x->ty)) c.push_back(V(x));
				if(x->ty.k == VAL || (x->ty.k == OBJ && x->nonnull)) fields(V(x));
				if(x->ty.k == FIXI && ok(INT)) c.push_back(mk(O_INDEX, INT, { V(x), I(r.below(u32(x->ty.c))) }));
			}
			return c.empty() ? nullptr : r.pick(c);
		}
		E* constOf(Ty t)
		{
			switch(t.k) { case CHAR: case SHORT: case INT: return pc(50) ? I(r.range(-9, 9)) : I(pc(50) ? r.range(-300000, 300000) : smallInt()); case LONG: { E *e = mk(O_L, LONG); e->iv = pc(50) ? r.range(-9, 9) : (long long)(r.next() >> r.range(1, 40)); return e; } case FLOAT: case DOUBLE: { E *e = mk(O_D, DOUBLE); e->dv = r.range(-40, 200) * (pc(50) ? 0.25 : 0.1); return e; } default: return nullptr; }
		}
		// one place is written and read several times with something in between that may or may not change it
		S* burst()
		{
			auto simple = [](Ty t){ return t.k == CHAR || t.k == SHORT || t.k == INT || t.k == LONG || t.k == FLOAT || t.k == DOUBLE; };
			bool wantInt = pc(50); E *l = place([&](Ty t){ return wantInt ? t.k == INT : simple(t); }); if(!l) return nullptr;
			S *b = drop(st(S_BLOCK)); stmtDepth++; size_t sz = scope.size();
			E *q = nullptr;
			auto value = [&]{ return pc(55) ? constOf(l->ty) : gAny(l->ty, 1); };
			auto show = [&](E *e){ S *s = st(S_EMIT); s->sv = e->ty.k == LONG ? "el" : e->ty.k == FLOAT || e->ty.k == DOUBLE ? "ed" : "ei"; s->a = e; b->body.push_back(drop(s)); };
			if(l->ty.k == INT && pc(45)) { S *d = st(S_DECL); Var *w = fn->addVar(nm("q"), PINT); d->var = w; d->a = mk(O_ADDR, PINT, { l }); b->body.push_back(d); q = mk(O_DEREF, INT, { V(w) }); }
			int n = r.range(2, 5);
			if(pc(80)) b->body.push_back(drop(assign(l, value())));
			for(int i = 0; i < n; i++)
			{
				S *s = nullptr;
				switch(r.below(10))
				{
				case 0: if(q) s = assign(q, value(), pc(30) ? "+=" : "="); break;
				case 1: { E *m = place([&](Ty t){ return t == l->ty; }); if(m) { E *v = pc(40) ? l : value(); s = assign(m, v); } break; }
				case 2: { E *c = callFn(INT, 1); if(c) { s = st(S_EXPR); s->a = c; } break; }
				case 3: { s = st(S_IF); s->a = cond(1); s->body.push_back(assign(q && pc(40) ? q : l, value())); if(pc(40)) s->els.push_back(assign(l, value())); break; }
				case 4: { auto v = visible([](Var *x){ return x->ty.k == VAL && !x->ro; }); if(!v.empty()) { Var *x = r.pick(v); E *rv = gVal(x->ty.c, 1); if(rv) s = assign(V(x), rv); } break; }
				case 5: if(!inCo && loopDepth < 2) { S *lp = drop(st(S_FOR)); lp->iv = 1; lp->a = I(r.range(1, 3)); Var *iv = fn->addVar(nm("i"), INT); iv->ro = true; iv->nocap = true; lp->var = iv; scope.push_back(iv); loopDepth++; brkDepth++; bool o = inSwitch; inSwitch = false; if(isInt(l->ty.k) && pc(50)) lp->body.push_back(drop(assign(l, pc(50) ? V(iv) : gI(1), pc(50) ? "+=" : "="))); else lp->body.push_back(drop(assign(l, value()))); if(pc(40)) { S *x = stmt(); if(x) lp->body.push_back(x); } inSwitch = o; loopDepth--; brkDepth--; scope.pop_back(); b->body.push_back(lp); } break;
				case 6: if(isInt(l->ty.k)) { s = st(S_EXPR); E *e = l->ty.k == INT ? mk(O_INCDEC, INT, { l }) : nullptr; if(e) { e->iv = r.below(4); s->a = e; } else s = assign(l, value(), "+="); } break;
				case 7: s = assign(l, value()); break;
				case 8: { S *x = storeStmt(); if(x) b->body.push_back(x); break; }
				case 9: show(q && pc(40) ? q : l); break;
				}
				if(s) b->body.push_back(drop(s));
			}
			show(l); if(q && pc(50)) show(q);
			scope.resize(sz); stmtDepth--; return b;
		}
		S* loop()
		{
			S *s; int kind = int(r.below(7)); size_t sz = scope.size(); bool osw = inSwitch;
			if(kind == 5 && !inCo) // for over array
			{
				E *a = arrPath(ARRI); if(a)
				{
					s = drop(st(S_FORARR)); s->a = a; s->var = fn->addVar(nm("e"), INT); s->var->nocap = true; scope.push_back(s->var); stmtDepth++; loopDepth++; brkDepth++; inSwitch = false; s->body = block(r.range(1, 2), s); loopDepth--; brkDepth--; stmtDepth--; inSwitch = osw; scope.resize(sz); return s;
				}
			}
			if(kind == 6 && !inCo && pc(pr.gens * 5))
			{
				E *g = gGen(2); if(g->op != O_NULL && (g->op == O_CALL || g->var->nonnull))
				{
					s = drop(st(S_FORGEN)); s->a = g; s->var = fn->addVar(nm("e"), INT); s->var->nocap = true; scope.push_back(s->var); stmtDepth++; loopDepth++; brkDepth++; inSwitch = false; s->body = block(r.range(1, 2), s); loopDepth--; brkDepth--; stmtDepth--; inSwitch = osw; scope.resize(sz); return s;
				}
			}
			s = drop(st(kind < 4 ? S_FOR : kind == 4 ? S_WHILE : S_DO)); s->iv = r.below(2);
			s->a = pc(80) ? I(r.range(1, 5)) : bin("&", INT, gI(1), I(7));
			if(s->a->op != O_I) { // the bound must not change while looping: evaluate once
				s->a = I(r.range(1, 6)); }
			s->var = fn->addVar(nm("i"), INT); s->var->ro = true; 
			scope.push_back(s->var); stmtDepth++; loopDepth++; brkDepth++; inSwitch = false; s->body = block(r.range(1, 3), s); loopDepth--; brkDepth--; stmtDepth--; inSwitch = osw; scope.resize(sz);
			return s;
		}
		S* tryStmt()
		{
			S *s = drop(st(S_TRY)); s->sv = nm("t"); int o = risk; risk = std::max(risk, pr.risk * 2 + 5); s->a = lambda(2, true, 3); risk = o;
			if(pc(30)) { auto v = vars(INT, true); if(!v.empty()) s->b = V(r.pick(v)); }
			if(pc(30)) { auto v = vars(Ty(AUTO, 0), true); if(!v.empty()) s->c = V(r.pick(v)); }
			return s;
		}
		S* localFn()
		{
			// the function is declared in its own block together with its uses
			S *b = drop(st(S_BLOCK)); stmtDepth++;
			size_t sz = scope.size();
			decls(b->body, r.range(1, 2));
			FnDef *f = newFn("lf", INT); f->isLocal = true; fnBody(f, 1, r.range(1, 3), 2, true);
			S *d = st(S_LOCALFN); d->fn = f; Var *v = fn->addVar(f->name, FN); v->ro = true; f->selfVar = v; d->var = v; b->body.push_back(d); scope.push_back(v);
			int n = r.range(1, 3); for(int i = 0; i < n; i++) { S *s = stmt(); if(s) b->body.push_back(s); }
			scope.resize(sz); stmtDepth--; return b;
		}

		void makeClasses()
		{
			int nv = 1 + int(r.below(2)), nr = std::max(1, pr.classes - 1 + int(r.below(2)));
			auto addFields = [&](Cls *c, int n, bool val)
			{
				for(int i = 0; i < n; i++)
				{
					Ty t;
					switch(r.below(16))
					{
					case 0: t = CHAR; break; case 1: t = SHORT; break; case 2: case 3: t = INT; break; case 4: t = LONG; break; case 5: t = FLOAT; break; case 6: t = DOUBLE; break; case 7: t = STR; break; case 8: t = ARRI; break;
					case 9: case 10: case 11: { std::vector<int> k; for(Cls *q : p->classes) if(!q->isVal) k.push_back(q->idx); if(k.empty()){ t = INT; break; } t = Ty(OBJ, r.pick(k)); break; }
					case 12: { std::vector<int> k; for(Cls *q : p->classes) if(!q->isVal) k.push_back(q->idx); if(k.empty()){ t = ARRI; break; } t = Ty(ARRO, r.pick(k)); break; }
					case 13: t = val ? Ty(INT) : Ty(FN); break;
					case 14: { std::vector<int> k; for(Cls *q : p->classes) if(q->isVal) k.push_back(q->idx); if(val || k.empty()){ t = Ty(AUTO, 0); break; } t = Ty(VAL, r.pick(k)); break; }
					case 15: { std::vector<int> k; for(Cls *q : p->classes) if(!q->isVal) k.push_back(q->idx); t = pc(50) || k.empty() ? Ty(FIXI, r.range(2, 5)) : Ty(FIXO, r.pick(k) | (r.range(2, 3) << 8)); break; }
					}
					c->f.push_back({ nm("f"), t });
				}
			};
			auto add = [&](bool val, int base, bool ext){ Cls *c = new Cls; c->idx = int(p->classes.size()); c->name = nm(val ? "St" : "Cl"); c->isVal = val; c->base = base; c->ext = ext; p->classes.push_back(c); if(base >= 0) c->f = p->classes[base]->f; else c->f.push_back({ "a", INT }); addFields(c, r.range(2, 6), val); return c; };
			add(false, -1, false);
			for(int i = 0; i < nv; i++) add(true, -1, false);
			for(int i = 1; i < nr; i++) add(false, -1, false);
			if(pc(pr.virt * 5)) { Cls *b = add(false, -1, true); add(false, b->idx, false); if(pc(40)) add(false, b->idx, false); }
			for(Cls *c : p->classes) if(!c->isVal) for(size_t i = 0; i < c->f.size(); i++) if(c->f[i].ty.k == OBJ) c->ctorRefField = int(i);
		}
		void makeDump(Cls *c)
		{
			FnDef *f = new FnDef; f->name = "dump" + c->name; f->ret = INT; Var *o = f->addVar("o_", Ty(OBJ, c->idx)), *d = f->addVar("d_", INT); f->params = { o, d }; c->dump = f; f->index = -1;
			p->funcs.push_back(f);
			FnDef *old = fn; fn = f;
			S *g = st(S_IF); g->a = [&]{ E *e = mk(O_TRUTH, INT, { V(o) }); e->sv = "=="; return e; }(); S *rr = st(S_RET); rr->a = I(-1); S *em = st(S_EMIT); em->sv = "ei"; em->a = I(-1); g->body = { em, rr }; f->body.push_back(g);
			dumpFields(f->body, V(o), c, d);
			S *ret = st(S_RET); ret->a = I(0); f->body.push_back(ret); fn = old;
		}
		void dumpOne(std::vector<S*> &out, E *e, Var *d)
		{
			auto em = [&](const char *n, E *x){ S *s = st(S_EMIT); s->sv = n; s->a = x; out.push_back(s); };
			switch(e->ty.k)
			{
			case CHAR: case SHORT: case INT: em("ei", e); break; case LONG: em("el", e); break; case FLOAT: case DOUBLE: em("ed", e); break; case STR: em("es", e); break;
			case ARRI: if(isArrF(e->ty)) em("ei", mk(O_SIZE, INT, { e })); else em("ei", mk(O_SUMA, INT, { e })); break;
			case ARRV: em("ei", mk(O_SIZE, INT, { e })); break;
			case FIXI: for(int i = 0; i < e->ty.c; i++) em("ei", mk(O_INDEX, INT, { e, I(i) })); break;
			case FN: case GEN: { E *t = mk(O_TRUTH, INT, { e }); t->sv = "!="; em("ei", t); break; }
			case AUTO: em("ei", notNull(e)); break;
			case PINT: { E *t = tern(notNull(e), mk(O_DEREF, INT, { e }), I(-3)); em("ei", t); break; }
			case VAL: { Cls *c = (*gc_)[e->ty.c]; dumpFields(out, e, c, d); break; }
			case OBJ: { Cls *c = (*gc_)[e->ty.c]; if(!c->dump) break; S *w = st(S_IF); w->a = d ? bin(">", INT, V(d), I(0)) : I(1); S *x = st(S_EXPR); E *call = mk(O_CALL, INT, { e, d ? bin("-", INT, V(d), I(1)) : I(2) }); call->fn = c->dump; x->a = call; w->body = { x }; out.push_back(w); break; }
			case ARRO: case FIXO: { Cls *c = (*gc_)[elemTy(e->ty).c]; if(e->ty.k == ARRO) em("ei", mk(O_SIZE, INT, { e })); if(!c->dump) break; S *l = st(S_FOR); l->iv = 1; l->var = fn->addVar(nm("i"), INT); l->var->ro = true; l->a = e->ty.k == ARRO ? mk(O_SIZE, INT, { e }) : I(fixSize(e->ty)); S *w = st(S_IF); w->a = d ? bin(">", INT, V(d), I(0)) : I(1); S *x = st(S_EXPR); E *call = mk(O_CALL, INT, { mk(O_INDEX, elemTy(e->ty), { e, V(l->var) }), d ? bin("-", INT, V(d), I(1)) : I(1) }); call->fn = c->dump; x->a = call; w->body = { x }; l->body = { w }; out.push_back(l); break; }
			default: break;
			}
		}
		void dumpFields(std::vector<S*> &out, E *o, Cls *c, Var *d){ for(size_t i = 0; i < c->f.size(); i++) dumpOne(out, fieldOf(o, int(i)), d); }

		void makeFunctions()
		{
			int index = 1;
			// dumps first: each only reaches classes with a dump declared before (or itself)
			for(Cls *c : p->classes) if(!c->isVal) makeDump(c);
			int nf = pr.funcs + int(r.below(3));
			for(int i = 0; i < nf; i++)
			{
				fnLimit = index; scope.clear(); FnDef *f;
				bool factory = pc(pr.gens * 2 + pr.closures / 2);
				if(factory)
				{
					bool gen = pc(65) && pr.gens > 0; if(!gen && pr.closures == 0) gen = pr.gens > 0;
					f = new FnDef; f->name = nm("mk"); f->isFactory = true; f->ret = gen ? Ty(GEN) : Ty(FN); f->index = index++;
					fn = f; Var *v = f->addVar(nm("n"), INT); f->params.push_back(v); scope.push_back(v); if(pc(50)) { Var *q = f->addVar(nm("q"), pc(50) ? Ty(OBJ, refCls()) : Ty(ARRI)); f->params.push_back(q); scope.push_back(q); }
					decls(f->body, r.range(0, 2));
					FnDef *g = newFn(gen ? "g" : "h", INT); g->isLocal = true; bool co = gen || pc(40); g->isCo = co; 
					FnDef *old = fn; fn = g; lambdaDepth++; stmtDepth = 1; inCo = co;
					if(!gen) { Var *x = g->addVar(nm("x"), INT); g->params.push_back(x); scope.push_back(x); }
					size_t sz = scope.size();
					int rk = risk; risk = pr.risk / 3;
					if(co) { decls(g->body, r.range(1, 2)); S *l = st(S_FOR); l->iv = 1; l->a = I(r.range(1, 4)); l->var = g->addVar(nm("i"), INT); l->var->ro = true; scope.push_back(l->var); loopDepth = 1; brkDepth = 1; stmtDepth = 2; l->body = block(r.range(0, 2), l); S *y = st(S_YIELD); y->a = gI(2); l->body.push_back(y); if(pc(40)) { S *s2 = stmt(); if(s2) l->body.push_back(s2); } loopDepth = 0; brkDepth = 0; stmtDepth = 1; scope.pop_back(); g->body.push_back(l); if(pc(50)) { S *s2 = stmt(); if(s2) g->body.push_back(s2); } if(pc(30)) { S *y2 = drop(st(S_YIELD)); y2->a = gI(1); g->body.push_back(y2); } }
					else { auto bl = block(r.range(1, 3), nullptr); g->body.insert(g->body.end(), bl.begin(), bl.end()); }
					S *ret = st(S_RET); ret->a = gI(1); g->body.push_back(ret); risk = rk;
					scope.resize(sz); fn = old; lambdaDepth--; inCo = false; stmtDepth = 0;
					S *d = st(S_LOCALFN); d->fn = g; Var *gv = f->addVar(g->name, f->ret); gv->ro = true; g->selfVar = gv; d->var = gv; f->body.push_back(d);
					S *rt = st(S_RET); rt->a = V(gv); f->body.push_back(rt);
					p->funcs.push_back(f); scope.clear();
					continue;
				}
				f = new FnDef; f->name = nm("fn"); f->index = index++;
				switch(r.below(10)) { case 0: f->ret = LONG; break; case 1: f->ret = DOUBLE; break; case 2: f->ret = STR; break; case 3: case 4: f->ret = Ty(OBJ, refCls()); break; case 5: f->ret = Ty(VAL, valCls()); break; default: f->ret = INT; }
				f->rec = f->ret.k == INT && pc(30);
				fn = f; if(f->rec) { Var *d = f->addVar(nm("d"), INT); d->ro = true; f->params.push_back(d); scope.push_back(d); }
				int np = r.range(1, 3); for(int k = 0; k < np; k++) { Ty t = randTy(false); if(t.k == VAL && gNoVal()) t = INT; if(t.k == GEN || t.k == FN || isArrF(t)) t = pc(50) ? t : Ty(INT); if(f->rec && (t.k == FN || t.k == GEN)) t = INT; if(t.k == VAL || t.k == ARRV) { if(p->globals.empty()) t = INT; } Var *v = f->addVar(nm("p"), t); if(t == Ty(AUTO, 1)) v->nocap = true; /* the value an argument was made from lives in the caller */ f->params.push_back(v); scope.push_back(v); }
				risk = pc(50) ? pr.risk / 2 : 0; stmtDepth = 1;
				size_t sz = scope.size();
				decls(f->body, r.range(1, 3));
				if(f->rec) { S *w = st(S_IF); w->a = bin("<=", INT, V(f->params[0]), I(0)); S *s = st(S_RET); s->a = gI(2); w->body = { s }; f->body.push_back(w); }
				int n = r.range(2, 5); for(int k = 0; k < n; k++) { S *s = stmt(); if(s) f->body.push_back(s); }
				if(f->rec) { S *s = st(S_DECL); Var *v = f->addVar(nm("v"), INT); s->var = v; E *call = mk(O_CALL, INT, { bin("-", INT, V(f->params[0]), I(1)) }); call->fn = f; for(size_t k = 1; k < f->params.size(); k++) call->k.push_back(gAny(f->params[k]->ty, 1)); s->a = call; f->body.push_back(s); scope.push_back(v); if(pc(50)) { S *q = stmt(); if(q) f->body.push_back(q); } }
				S *s = st(S_RET); s->a = gAny(f->ret, 2); if(!s->a) s->a = dfltRet(f->ret); if(s->a->op == O_NULL) s->a = mk(O_NULL, f->ret); f->body.push_back(s);
				scope.resize(sz); risk = 0; stmtDepth = 0; scope.clear();
				p->funcs.push_back(f);
			}
			// methods
			for(Cls *c : p->classes) if(!c->isVal)
			{
				fnLimit = index; FnDef *f = new FnDef; f->name = "vm"; f->cls = c->idx; f->ret = INT; f->index = 900; fn = f; scope.clear();
				Var *t = f->addVar("this", Ty(OBJ, c->idx)); t->ro = t->nonnull = true; f->thisVar = t; Var *x = f->addVar(nm("x"), INT); f->params.push_back(x); scope = { t, x }; stmtDepth = 2; risk = pr.risk / 3;
				f->body = block(r.range(0, 2), nullptr); S *s = st(S_RET); s->a = gI(2); f->body.push_back(s); stmtDepth = 0; risk = 0;
				c->vm = f; p->funcs.push_back(f); scope.clear();
			}
			// host entry points
			for(int i = 0; i < 3; i++)
			{
				fnLimit = 1001; FnDef *f = new FnDef; f->name = "hf" + std::to_string(i); f->ret = INT; f->index = 1000 + i; fn = f; scope.clear(); Var *x = f->addVar(nm("x"), INT); f->params.push_back(x); scope.push_back(x); stmtDepth = 1; risk = pr.risk;
				decls(f->body, r.range(0, 2)); int n = r.range(2, 5); for(int k = 0; k < n; k++) { S *s = stmt(); if(s) f->body.push_back(s); }
				S *s = st(S_RET); s->a = gI(2); f->body.push_back(s); stmtDepth = 0; risk = 0; scope.clear(); p->hostFns.push_back(f); p->funcs.push_back(f);
			}
			// dump of all globals
			{
				FnDef *f = new FnDef; f->name = "dumpall"; f->ret = INT; f->index = 1999; fn = f; scope.clear(); Var *x = f->addVar("x_", INT); f->params.push_back(x); 
				for(Var *g : p->globals) dumpOne(f->body, V(g), nullptr);
				for(int i = 0; i < 16; i++) { if(!(i < 8 ? pr.closures : pr.gens)) continue; E *e = mk(O_RCALL, INT, { I(i & 7) }); if(i < 8) e->k.push_back(I(i + 1)); else e->iv = 1; S *s = drop(st(S_EMIT)); s->sv = "ei"; s->a = e; f->body.push_back(s); }
				S *s = st(S_RET); s->a = I(0); f->body.push_back(s); p->funcs.push_back(f); dumpFn = f;
			}
		}
		FnDef *dumpFn = nullptr;
		bool gNoVal(){ return false; }
		E* dfltRet(Ty t){ switch(t.k){ case INT: return I(0); case LONG: { E *e = mk(O_L, LONG); return e; } case DOUBLE: { E *e = mk(O_D, DOUBLE); e->dv = 1; return e; } case STR: { E *e = mk(O_S, STR); return e; } default: return mk(O_NULL, t); } }

		Program* run()
		{
			FnDef *m = new FnDef; m->name = "main"; m->ret = INT; p->mainFn = m; m->index = 2000; 
			makeClasses();
			for(int c = 0; c < (int)p->classes.size(); c++) if(p->classes[c]->isVal) { Var *g = new Var; g->name = nm("gv"); g->ty = Ty(VAL, c); p->globals.push_back(g); }
			for(int i = 0; i < pr.globals; i++) { Var *g = new Var; g->name = nm("g"); g->ty = i < 2 ? Ty(INT) : i == 2 && pr.heap ? Ty(OBJ, refCls()) : i == 3 && pr.heap ? Ty(ARRI) : randTy(true); p->globals.push_back(g); }
			makeFunctions();
			fn = m; scope.clear(); fnLimit = 3000; stmtDepth = 0; loopDepth = 0; brkDepth = 0; risk = 0;
			// initial values of globals
			for(Var *g : p->globals) { if(g->ty.k == VAL || g->ty.k == FIXI || g->ty.k == FIXO) continue; if(pc(80)) { E *e = gAny(g->ty, 2); if(e && e->op != O_NULL) p->mainBody.push_back(drop(assign(V(g), e))); } }
			decls(p->mainBody, r.range(2, 5));
			risk = pr.topLevelErrors ? pr.risk / 2 : 0;
			for(int i = 0; i < pr.stmts; i++) { S *s = stmt(); if(s) p->mainBody.push_back(s); }
			if(pr.finals) { S *s = st(S_EXPR); E *e = mk(O_CALL, INT, { I(0) }); e->fn = dumpFn; s->a = e; p->mainBody.push_back(s); for(Var *v : std::vector<Var*>(scope)) dumpOne(p->mainBody, V(v), nullptr); }
			S *s = st(S_RET); s->a = gI(2); p->mainBody.push_back(s);
			return p;
		}
	};
	Program* generate(u64 seed, const Profile &prof){ Gen g(seed, prof); Program *p = g.run(); p->extraTop = prof.extraTop; return p; }

	// ------------------------------------------------------------------ evaluation
	struct Obj { int cls = -1; int n = 0; Cell *cells = nullptr; };
	typedef std::map<Var*, Cell*> Env;	// a closure's variables: shared with the scope and other closures until the scope ends, its own copy afterwards
	struct Clo { FnDef *fn; Env *env; Cell **co = nullptr; S *resume = nullptr; bool active = false, finished = false; };
	struct Frame { FnDef *fn; Cell **slots; Env *env; Clo *co = nullptr; S *seek = nullptr; Value ret; Value yielded; int levels = 0; };

	enum Flow { NEXT, BRK, CONT, RET, YLD };

	static Value vi(long long i){ Value v; v.k = INT; v.i = i; return v; }
	static std::string* str(const std::string &s){ return new std::string(s); }

	struct Eval
	{
		Program *p; Ref *ref; std::map<Var*, Cell*> globals; RefRun *out = nullptr; int fuel = 0; int depth = 0; Cell ***gslots = nullptr; Value ring[8], ringG[8]; int ringN = 0, ringM = 0;
		Obj* newObj(int cls){ Obj *o = new Obj; o->cls = cls; auto &f = p->classes[cls]->f; o->n = int(f.size()); o->cells = new Cell[o->n]; for(int i = 0; i < o->n; i++){ o->cells[i].ty = f[i].ty; o->cells[i].v = zero(f[i].ty); } return o; }
		Obj* newArr(Ty el, int n){ Obj *o = new Obj; o->n = n; o->cells = new Cell[n ? n : 1]; for(int i = 0; i < n; i++){ o->cells[i].ty = el; o->cells[i].v = zero(el); } return o; }
		Value zero(Ty t){ Value v; v.k = t.k; if(t.k == VAL) v.o = newObj(t.c); if(t.k == FIXI || t.k == FIXO) v.o = newArr(elemTy(t), fixSize(t)); if(t.k == STR) v.s = str(""); return v; }
		void spoil(Cell *c){ c->bad = true; if(c->ty.k == VAL || c->ty.k == FIXI || c->ty.k == FIXO) for(int i = 0; i < c->v.o->n; i++) spoil(&c->v.o->cells[i]); }
		Cell* badCell(Ty t){ Cell *c = newCell(t); spoil(c); return c; }
		Cell* newCell(Ty t){ Cell *c = new Cell; c->ty = t; c->v = zero(t); return c; }
		void store(Cell &c, const Value &v)
		{
			if(c.bad) errNull();
			switch(c.ty.k)
			{
			case CHAR: c.v.i = (signed char)v.i; break; case SHORT: c.v.i = (short)v.i; break; case INT: c.v.i = (int)v.i; break; case LONG: c.v.i = v.i; break; case FLOAT: c.v.d = (float)v.d; break; case DOUBLE: c.v.d = v.d; break;
			case VAL: case FIXI: case FIXO: if(v.o == c.v.o) break; for(int i = 0; i < c.v.o->n; i++) store(c.v.o->cells[i], v.o->cells[i].v); break;
			case AUTO: c.v.tag = v.tag; c.v.o = v.o; c.v.c = v.c; break;
			default: c.v.o = v.o; c.v.c = v.c; c.v.f = v.f; c.v.s = v.s ? v.s : (c.ty.k == STR ? str("") : nullptr); break;
			}
		}
		Value load(const Cell &c){ if(c.bad) errNull(); Value v = c.v; if(c.ty.k == VAL || c.ty.k == FIXI || c.ty.k == FIXO) { if(c.ty.k == VAL) { Cell *n = newCell(c.ty); store(*n, c.v); return n->v; } } return v; }
		void tick(){ if(--fuel < 0) throw Reject(); }
		[[noreturn]] void err(const std::string &t){ NErr e; e.text = t; throw e; }
		[[noreturn]] void errNull(){ err("ERROR: null pointer access"); }
		void ev(const std::string &t){ out->events.push_back(t); if((int)out->events.size() > p->prof.maxEvents) throw Reject(); if(ref->onEvent) ref->onEvent(t); }
		Cell* findVar(Frame &f, Var *v)
		{
			if(!v->owner) return globals[v];
			if(v->owner == f.fn) { Cell *c = f.slots[v->slot]; if(!c) throw Reject(); return c; }
			if(f.env) { auto it = f.env->find(v); if(it != f.env->end()) { if(!it->second || it->second->stale) throw Reject(); return it->second; } }
			throw Reject();
		}
		std::map<FnDef*, std::vector<Var*>> freeOf;
		static void freeE(E *e, FnDef *fn, std::set<Var*> &out){ if(!e) return; if(e->var && e->var->owner && e->var->owner != fn) out.insert(e->var); if(e->op == O_LAMBDA) { std::set<Var*> in; freeL(e->fn->body, e->fn, in); for(Var *v : in) if(v->owner != fn) out.insert(v); } for(E *k : e->k) freeE(k, fn, out); }
		static void freeL(const std::vector<S*> &l, FnDef *fn, std::set<Var*> &out){ for(S *s : l) if(s->on) { freeE(s->a, fn, out); freeE(s->b, fn, out); freeE(s->c, fn, out); for(Var *v : { s->var, s->var2 }) if(v && v->owner && v->owner != fn) out.insert(v); freeL(s->body, fn, out); freeL(s->els, fn, out); for(auto &c : s->cases) freeL(c, fn, out); if(s->fn) { std::set<Var*> in; freeL(s->fn->body, s->fn, in); for(Var *v : in) if(v->owner != fn) out.insert(v); } } }
		const std::vector<Var*>& freeVars(FnDef *fn){ auto it = freeOf.find(fn); if(it != freeOf.end()) return it->second; std::set<Var*> in; freeL(fn->body, fn, in); auto &v = freeOf[fn]; v.assign(in.begin(), in.end()); std::sort(v.begin(), v.end(), [](Var *a, Var *b){ return a->name < b->name; }); return v; }
		void capture(Frame &f, Clo *c)
		{
			c->env = new Env;
			for(Var *v : freeVars(c->fn))
			{
				Cell *x = nullptr;
				if(v->owner == f.fn) x = f.slots[v->slot]; else if(f.env) { auto it = f.env->find(v); if(it != f.env->end()) x = it->second; }
				(*c->env)[v] = x; if(x) x->watch.push_back({ c, v });
			}
		}
		// the scope of a variable ends: every closure that captured it keeps a copy with its last value
		void closeCell(Cell *c)
		{
			if(!c) return;
			for(auto &w : c->watch) { Cell *&x = (*w.first->env)[w.second]; if(x != c) continue; Cell *n = newCell(c->ty); n->bad = c->bad; n->stale = c->stale; n->v = c->v; if(c->ty.k == VAL || c->ty.k == FIXI || c->ty.k == FIXO) { n->v = zero(c->ty); store(*n, c->v); } x = n; }
			c->watch.clear();
		}
		void closeVar(Frame &f, Var *v){ if(v && v->owner == f.fn) closeCell(f.slots[v->slot]); }
		void closeScope(Frame &f, const std::vector<S*> &l){ if(&l == &p->mainBody) return; for(S *s : l) if(s->on && (s->k == S_DECL || s->k == S_LOCALFN || s->k == S_WHILE || s->k == S_DO)) closeVar(f, s->var); }
		// a slot is reused for a new instance while closures still hold the previous, never closed one (its scope was left by an error): not defined
		void renew(Frame &f, Var *v, Cell *c){ Cell *o = f.slots[v->slot]; if(o && o != c && !o->watch.empty() && f.fn != p->mainFn) for(auto &w : o->watch) if((*w.first->env)[w.second] == o) { o->stale = true; break; } f.slots[v->slot] = c; }
		Cell* lv(Frame &f, E *e)
		{
			tick();
			switch(e->op)
			{
			case O_VAR: return findVar(f, e->var);
			case O_FIELD: { Value o = ex(f, e->k[0]); if(!o.o) return badCell(p->classes[e->k[0]->ty.c]->f[e->field].ty); return &o.o->cells[e->field]; }
			case O_VFIELD: { Cell *c = lv(f, e->k[0]); return &c->v.o->cells[e->field]; }
			case O_INDEX:
			{
				Ty at = e->k[0]->ty; Obj *o; if(at.k == FIXI || at.k == FIXO) o = lv(f, e->k[0])->v.o; else o = ex(f, e->k[0]).o;
				int i = int(ex(f, e->k[1]).i); if(i < 0 || i >= (o ? o->n : 0)) err("ERROR: array index out of bounds"); return &o->cells[i];
			}
			case O_DEREF: { Value v = ex(f, e->k[0]); if(!v.c) return badCell(INT); return v.c; }
			default: throw Reject();
			}
		}
		Value call(FnDef *fn, Env *env, const std::vector<Value> &args, Clo *clo, const Value *self)
		{
			if(++depth > 120) throw Reject();
			struct Dec { int &d; ~Dec(){ d--; } } dec{ depth };
			Frame fr; fr.fn = fn; fr.env = env; int n = fn->nslots + 1;
			if(fn->isCo)
			{
				if(clo->active) throw Reject();
				if(!clo->co){ clo->co = new Cell*[n](); }
				fr.slots = clo->co; fr.co = clo; fr.seek = clo->resume; 
				for(size_t i = 0; i < args.size(); i++) { Cell *c = newCell(fn->params[i]->ty); store(*c, args[i]); fr.slots[fn->params[i]->slot] = c; }
				clo->active = true; struct Act { Clo *c; ~Act(){ c->active = false; } } act{ clo };
				Flow fl = list(fr, fn->body);
				for(Var *v : fn->params) closeCell(fr.slots[v->slot]);
				if(fl == YLD) return fr.yielded;
				clo->resume = nullptr; clo->finished = true;
				return fr.ret;
			}
			fr.slots = new Cell*[n]();
			if(self){ Cell *c = newCell(fn->thisVar->ty); c->v = *self; fr.slots[fn->thisVar->slot] = c; }
			for(size_t i = 0; i < args.size(); i++) { Cell *c = newCell(fn->params[i]->ty); store(*c, args[i]); fr.slots[fn->params[i]->slot] = c; }
			// the engine does not detach variables captured from frames an error unwinds (recorded finding): programs that use one afterwards are not generated
			try { list(fr, fn->body); } catch(NErr&) { for(int i = 0; i < fn->nslots; i++) if(fr.slots[i]) fr.slots[i]->stale = true; throw; }
			for(Var *v : fn->params) closeCell(fr.slots[v->slot]); if(fn->thisVar) closeCell(fr.slots[fn->thisVar->slot]);
			return fr.ret;
		}
		Value callClo(const Value &f, const std::vector<Value> &args){ if(!f.f) err("ERROR: invalid function pointer"); return call(f.f->fn, f.f->env, args, f.f, nullptr); }
		FnDef* vmOf(int cls){ return p->classes[cls]->vm; }
		static bool truth(const Value &v){ return v.i != 0; }
		Value ex(Frame &f, E *e)
		{
			tick();
			switch(e->op)
			{
			case O_I: return vi(e->iv);
			case O_L: { Value v; v.k = LONG; v.i = e->iv; return v; }
			case O_D: { Value v; v.k = DOUBLE; v.d = litValue(e->dv); return v; }
			case O_KK: { Value v; v.k = INT; return v; }
			case O_S: { Value v; v.k = STR; v.s = str(e->sv + std::string(1, '\0')); return v; }
			case O_VAR: case O_INDEX: case O_DEREF: case O_FIELD: case O_VFIELD:
			{
				Cell *c = lv(f, e);
				if(isArr(e->ty.k) == false && (c->ty.k == FIXI || c->ty.k == FIXO)) { if(c->bad) errNull(); return c->v; }
				return load(*c);
			}
			case O_BIN: return binary(f, e);
			case O_NEG: { Value a = ex(f, e->k[0]); if(e->ty.k == DOUBLE) a.d = -a.d; else a.i = (int)(0u - (u32)a.i); return a; }
			case O_NOT: { Value a = ex(f, e->k[0]); return vi(a.i == 0); }
			case O_BNOT: { Value a = ex(f, e->k[0]); return vi(~(int)a.i); }
			case O_TERN: return ex(f, truth(ex(f, e->k[0])) ? e->k[1] : e->k[2]);
			case O_AND: { if(!truth(ex(f, e->k[0]))) return vi(0); return vi(truth(ex(f, e->k[1]))); }
			case O_OR: { if(truth(ex(f, e->k[0]))) return vi(1); return vi(truth(ex(f, e->k[1]))); }
			case O_CALL:
			{
				std::vector<Value> a; for(E *k : e->k) a.push_back(ex(f, k));
				return call(e->fn, nullptr, a, nullptr, nullptr);
			}
			case O_CALLV: { Value fv = ex(f, e->k[0]); std::vector<Value> a; for(size_t i = 1; i < e->k.size(); i++) a.push_back(ex(f, e->k[i])); return callClo(fv, a); }
			case O_METHOD: { int sc = e->k[0]->ty.c; bool virt = p->classes[sc]->ext || p->classes[sc]->base >= 0; Value o = ex(f, e->k[0]); if(!o.o && virt) errNull(); std::vector<Value> a; a.push_back(ex(f, e->k[1])); Value self = o; return call(vmOf(virt ? o.o->cls : sc), nullptr, a, nullptr, &self); }
			case O_AUTOMETHOD: { Value o = ex(f, e->k[0]); if(o.tag == 0) err("ERROR: type 'void' doesn't implement method 'void::vm' of type 'int ref(int)'"); if(o.tag == 1) throw Reject(); std::vector<Value> a; a.push_back(ex(f, e->k[1])); Value self = o; self.k = OBJ; return call(vmOf(o.tag - 2), nullptr, a, nullptr, &self); }
			case O_NEWOBJ: { Cls *c = p->classes[e->ty.c]; Value v; v.k = OBJ; v.o = newObj(e->ty.c); std::vector<Value> a; for(E *k : e->k) a.push_back(ex(f, k)); store(v.o->cells[0], a[0]); if(a.size() > 1) store(v.o->cells[c->ctorRefField], a[1]); return v; }
			case O_NEWARR: { int n = int(ex(f, e->k[0]).i); if(n > 5000 || n < 0) throw Reject(); Value v; v.k = e->ty.k; v.o = newArr(elemTy(e->ty), n); return v; }
			case O_ARRLIT: { std::vector<Value> a; for(E *k : e->k) a.push_back(ex(f, k)); Value v; v.k = ARRI; v.o = newArr(INT, int(a.size())); for(size_t i = 0; i < a.size(); i++) store(v.o->cells[i], a[i]); return v; }
			case O_LAMBDA: { Value v; v.k = FN; v.f = new Clo{ e->fn, nullptr }; capture(f, v.f); return v; }
			case O_ADDR: { Value v; v.k = PINT; v.c = lv(f, e->k[0]); if(v.c->bad) throw Reject(); return v; }
			case O_CAST:
			{
				Value a = ex(f, e->k[0]); K from = e->k[0]->ty.k; Value v; v.k = e->ty.k; bool fd = from == DOUBLE || from == FLOAT;
				switch(e->ty.k) { case INT: v.i = fd ? (long long)(int)a.d : (int)a.i; break; case LONG: v.i = fd ? (long long)a.d : a.i; break; case CHAR: v.i = (signed char)a.i; break; case SHORT: v.i = (short)a.i; break; case DOUBLE: v.d = fd ? a.d : (double)a.i; break; default: throw Reject(); }
				return v;
			}
			case O_SIZE: { Value a = ex(f, e->k[0]); if(e->k[0]->ty.k == STR) return vi((long long)a.s->size()); return vi(a.o ? a.o->n : 0); }
			case O_STRIDX: { Value s = ex(f, e->k[0]); int i = int(ex(f, e->k[1]).i); if(s.s->empty()) return vi(0); return vi((signed char)(*s.s)[size_t((i & 0x7fffffff) % (int)s.s->size())]); }
			case O_SUMA: { Value a = ex(f, e->k[0]); int n = a.o ? a.o->n : 0; u32 s = u32(n); for(int i = 0; i < n; i++) s = s * 31 + u32(a.o->cells[i].v.i); fuel -= n; return vi((int)s); }
			case O_INTSTR: { Value a = ex(f, e->k[0]); Value v; v.k = STR; v.s = str(std::to_string((int)a.i) + std::string(1, '\0')); return v; }
			case O_RPUT: { Value fv = ex(f, e->k[0]); if(e->k[0]->ty.k == GEN) { ringG[ringM++ & 7] = fv; return vi(ringM); } ring[ringN++ & 7] = fv; return vi(ringN); }
			case O_RCALL: { Value i = ex(f, e->k[0]); if(e->iv) { Value fv = ringG[i.i & 7]; if(!fv.f) return i; ref->probes["ring_resume"]++; return callClo(fv, {}); } Value x = ex(f, e->k[1]); Value fv = ring[i.i & 7]; if(!fv.f) return x; ref->probes["ring_call"]++; return callClo(fv, { x }); }
			case O_CHURN: { Value a = ex(f, e->k[0]); return a; }
			case O_BOX: { Value a = ex(f, e->k[0]); Value v; v.k = AUTO; if(e->ty.c == 1){ v.tag = 1; v.c = newCell(INT); store(*v.c, a); } else { int sc = e->k[0]->ty.c; bool virt = p->classes[sc]->ext || p->classes[sc]->base >= 0; if(e->k[0]->op == O_NULL) { v.tag = 0; return v; } if(!a.o && virt) errNull(); v.o = a.o; v.tag = 2 + (virt ? a.o->cls : sc); } return v; }
			case O_UNBOX:
			{
				Value a = ex(f, e->k[0]); Value v; v.k = e->ty.k;
				auto name = [&](){ return a.tag == 0 ? std::string("void") : a.tag == 1 ? std::string("int") : p->classes[a.tag - 2]->name; };
				if(e->ty.k == INT) { if(a.tag != 1) err("ERROR: cannot convert from " + name() + " ref to int ref"); return vi(a.c->v.i); }
				int c = e->ty.c; bool ok = a.tag >= 2 && Gen::baseOf(c, a.tag - 2);
				if(!ok) err("ERROR: cannot convert from " + name() + " ref to " + p->classes[c]->name + " ref");
				v.o = a.o; return v;
			}
			case O_TYPEIS: { Value a = ex(f, e->k[0]); return vi(a.tag == 2 + (int)e->iv); }
			case O_TRUTH: { Value a = ex(f, e->k[0]); bool nn = a.o || a.c || a.f; if(e->k[0]->ty.k == STR) throw Reject(); if(e->sv == "auto") return vi(nn); return vi((e->sv == "!=") == nn); }
			case O_HOSTCALL: case O_RAWCALL: { Value fv = ex(f, e->k[0]); Value x = ex(f, e->k[1]); ref->probes["host_to_script"]++; if(!fv.f) throw Reject(); return callClo(fv, { x }); }
			case O_SIMHOST: { int a = int(ex(f, e->k[0]).i), b = int(ex(f, e->k[1]).i), c = int(ex(f, e->k[2]).i); return vi(ref->onHost ? ref->onHost(a, b, c) : 0); }
			case O_RAWSUM: { long long t[5]; double d = 0; for(int i = 0; i < 5; i++) { Value v = ex(f, e->k[i]); if(i == 2) d = v.d; t[i] = v.i; } return vi((int)(u64)((long long)(u64(t[0]) + u64(t[1]) + u64((long long)d) + u64(t[3]) + u64(t[4])))); }
			case O_INCDEC: { Cell *c = lv(f, e->k[0]); if(c->bad) errNull(); long long o = c->v.i; Value n = vi((int)((u32)o + (e->iv & 2 ? 1u : ~0u))); store(*c, n); return e->iv & 1 ? vi(o) : vi(c->v.i); }
			case O_ASSIGN: { Cell *c = lv(f, e->k[0]); Value old = load(*c); Value v = ex(f, e->k[1]); store(*c, compound(e->sv, c->ty, old, v, e->k[1]->ty)); return load(*c); }
			case O_NULL: { Value v; v.k = e->ty.k; if(e->ty.k == STR) v.s = str(""); return v; }
			case O_IX: { int i = int(ex(f, e->k[0]).i), n = int(ex(f, e->k[1]).i); return vi(n == 0 ? 0 : (i & 0x7fffffff) % n); }
			case O_CL: { Value v = ex(f, e->k[0]); if(v.d > 1000000.0 || v.d < -1000000.0) v.d = 1.0; return v; }
			case O_STRCAT: { Value a = ex(f, e->k[0]), b = ex(f, e->k[1]); if(a.s->size() + b.s->size() > 4000) throw Reject(); Value v; v.k = STR; v.s = str((!a.s->empty() && a.s->back() == 0 ? a.s->substr(0, a.s->size() - 1) : *a.s) + *b.s); return v; }
			}
			throw Reject();
		}
		Value compound(const std::string &op, Ty t, const Value &old, const Value &v, Ty vt)
		{
			if(op == "=") { if(t.k == FLOAT || t.k == DOUBLE) return v; return v; }
			Value r = v; 
			if(t.k == DOUBLE || t.k == FLOAT) throw Reject();
			u64 a = u64(old.i), b = u64(v.i); (void)vt;
			switch(op[0]) { case '+': r.i = (long long)(a + b); break; case '-': r.i = (long long)(a - b); break; case '*': r.i = (long long)(a * b); break; case '^': r.i = (long long)(a ^ b); break; case '&': r.i = (long long)(a & b); break; case '|': r.i = (long long)(a | b); break; default: throw Reject(); }
			return r;
		}
		Value binary(Frame &f, E *e)
		{
			Value a = ex(f, e->k[0]), b = ex(f, e->k[1]); K k = e->k[0]->ty.k; const std::string &o = e->sv;
			if(k == DOUBLE)
			{
				if(o == "<") return vi(a.d < b.d); if(o == ">") return vi(a.d > b.d); if(o == "<=") return vi(a.d <= b.d); if(o == ">=") return vi(a.d >= b.d); if(o == "==") return vi(a.d == b.d); if(o == "!=") return vi(a.d != b.d);
				Value v; v.k = DOUBLE; v.d = o == "+" ? a.d + b.d : o == "-" ? a.d - b.d : a.d * b.d; return v;
			}
			if(k == STR) { bool eq = *a.s == *b.s; return vi((o == "==") == eq); }
			if(k == OBJ) { bool eq = a.o == b.o; return vi((o == "==") == eq); }
			if(o == "<") return vi(a.i < b.i); if(o == ">") return vi(a.i > b.i); if(o == "<=") return vi(a.i <= b.i); if(o == ">=") return vi(a.i >= b.i); if(o == "==") return vi(a.i == b.i); if(o == "!=") return vi(a.i != b.i);
			bool L = k == LONG; Value v; v.k = L ? LONG : INT; u64 x = u64(a.i), y = u64(b.i); long long r;
			if(o == "+") r = (long long)(x + y); else if(o == "-") r = (long long)(x - y); else if(o == "*") r = (long long)(x * y); else if(o == "&") r = (long long)(x & y); else if(o == "|") r = (long long)(x | y); else if(o == "^") r = (long long)(x ^ y);
			else if(o == "<<") r = L ? (long long)(x << (y & 63)) : (int)((u32)x << (y & 31)); else if(o == ">>") r = L ? a.i >> (y & 63) : (int)a.i >> (y & 31);
			else { if(b.i == 0) err("ERROR: integer division by zero"); if(b.i == -1) { if(L ? a.i == (long long)(1ull << 63) : (int)a.i == (int)0x80000000) throw Reject(); } r = o == "/" ? a.i / b.i : a.i % b.i; }
			v.i = L ? r : (int)r; return v;
		}
		bool within(S *s, S *target){ for(S *t = target; t; t = t->parent) if(t == s) return true; return false; }
		Flow list(Frame &f, const std::vector<S*> &v){ Flow fl = list1(f, v); if(fl != YLD) closeScope(f, v); return fl; }
		Flow list1(Frame &f, const std::vector<S*> &v)
		{
			for(S *s : v)
			{
				if(!s->on) continue;
				if(f.seek && !within(s, f.seek)) continue;
				Flow fl = exec(f, s); if(fl != NEXT) return fl;
			}
			return NEXT;
		}
		Flow exec(Frame &f, S *s)
		{
			tick(); out->statements++;
			switch(s->k)
			{
			case S_EXPR: ex(f, s->a); return NEXT;
			case S_ASSIGN: { Cell *c = lv(f, s->a); Value old = s->sv == "=" ? Value() : load(*c); Value v = ex(f, s->b); store(*c, compound(s->sv, c->ty, old, v, s->b->ty)); return NEXT; }
			case S_DECL: { Cell *c = nullptr; Value v; bool has = s->a != nullptr; if(has) v = ex(f, s->a); c = newCell(s->var->ty); if(has) store(*c, v); renew(f, s->var, c); return NEXT; }
			case S_IF: if(f.seek) { for(S *x : s->body) if(within(x, f.seek)) return list(f, s->body); return list(f, s->els); } return list(f, truth(ex(f, s->a)) ? s->body : s->els);
			case S_FOR: case S_WHILE: case S_DO:
			{
				bool seeking = f.seek != nullptr;
				if(!seeking) { Cell *c = newCell(INT); renew(f, s->var, c); }
				Cell *c = f.slots[s->var->slot]; if(!c) throw Reject();
				bool firstDo = s->k == S_DO;
				for(;;)
				{
					if(!seeking) { if(!firstDo && !(c->v.i < (int)ex(f, s->a).i)) break; firstDo = false; if(s->k != S_FOR) c->v.i++; }
					seeking = false; firstDo = false;
					tick();
					Flow fl = list(f, s->body);
					if(fl == YLD) return fl;
					if(s->k == S_FOR) closeVar(f, s->var);
					if(fl == BRK && --f.levels == 0) break;
					if(fl == CONT && --f.levels == 0) fl = NEXT;
					if(fl != NEXT) return fl;
					if(s->k == S_FOR) { c = f.slots[s->var->slot]; c->v.i++; }	// what closures captured in this iteration is detached before the step
				}
				return NEXT;
			}
			case S_SWITCH: { if(f.seek) throw Reject(); int v = int(ex(f, s->a).i); int sel = -1; for(size_t i = 0; i < s->cases.size(); i++) if(s->caseVals[i] == v) sel = int(i); if(sel < 0) for(size_t i = 0; i < s->cases.size(); i++) if(s->caseVals[i] < 0) sel = int(i); if(sel < 0) return NEXT; Flow fl = list(f, s->cases[sel]); return fl == BRK && --f.levels == 0 ? NEXT : fl; }
			case S_BREAK: if(s->iv > 1) ref->probes["break_outer"]++; f.levels = s->iv > 1 ? s->iv : 1; return BRK;
			case S_CONT: if(s->iv > 1) ref->probes["continue_outer"]++; f.levels = s->iv > 1 ? s->iv : 1; return CONT;
			case S_RET: { Value v = ex(f, s->a); if(f.fn->ret.k == VAL) { Cell *c = newCell(f.fn->ret); store(*c, v); v = c->v; } f.ret = v; return RET; }
			case S_EMIT:
			{
				Value v = ex(f, s->a);
				if(s->sv == "ei") ev("i:" + std::to_string((int)v.i)); else if(s->sv == "el") ev("l:" + std::to_string(v.i)); else if(s->sv == "ed") ev(sim::fmt("d:%.17g", v.d));
				else { std::string t = *v.s; if(!t.empty() && !t.back()) t.pop_back(); ev("s:" + t); }
				return NEXT;
			}
			case S_YIELD: if(f.seek == s) { f.seek = nullptr; return NEXT; } f.yielded = ex(f, s->a); f.co->resume = s; ref->probes["yield"]++; return YLD;
			case S_TRY:
			{
				Value fv = ex(f, s->a); Value r; NErr er; bool ok = true; int dp = depth;
				try { r = callClo(fv, {}); } catch(NErr &x) { ok = false; er = x; depth = dp; ref->errorsCaught++; }
				if(ok) { ev("i:" + std::to_string((int)r.i)); if(s->b) { Cell *c = lv(f, s->b); c->v.i = (int)((u32)c->v.i + (u32)r.i); } }
				else
				{
					ev("s:" + er.text);
					if(er.obj.o) { Value self = er.obj; self.k = OBJ; Value m = call(vmOf(er.obj.o->cls), nullptr, { vi(1) }, nullptr, &self); ev("i:" + std::to_string((int)m.i)); }
					if(s->c) { Cell *c = lv(f, s->c); Value v = er.obj; v.k = AUTO; store(*c, v); }
				}
				return NEXT;
			}
			case S_FORARR:
			{
				Ty at = s->a->ty; auto get = [&]{ return at.k == FIXI ? lv(f, s->a)->v.o : ex(f, s->a).o; };	// the array expression is evaluated for the bound and for the element in every iteration
				for(int i = 0;; i++) { tick(); Obj *o = get(); if(i >= (o ? o->n : 0)) break; o = get(); if(i >= (o ? o->n : 0)) err("ERROR: array index out of bounds"); if(o->cells[i].bad) throw Reject(); f.slots[s->var->slot] = &o->cells[i]; Flow fl = list(f, s->body); if(fl == BRK && --f.levels == 0) break; if(fl == CONT && --f.levels == 0) fl = NEXT; if(fl != NEXT) return fl; }
				return NEXT;
			}
			case S_FORGEN:
			{
				Value g = ex(f, s->a); if(!g.f) throw Reject();
				for(;;) { tick(); g.f->finished = false; Value v = callClo(g, {}); if(g.f->finished && g.f->fn->isCo && !g.f->resume) break; Cell *c = newCell(INT); store(*c, v); renew(f, s->var, c); Flow fl = list(f, s->body); if(fl == YLD) return fl; closeVar(f, s->var); if(fl == BRK && --f.levels == 0) break; if(fl == CONT && --f.levels == 0) fl = NEXT; if(fl != NEXT) return fl; }
				return NEXT;
			}
			case S_BLOCK: return list(f, s->body);
			case S_THROW: { Value v = ex(f, s->a); NErr e; if(s->a->ty.k == STR) { e.text = *v.s; if(!e.text.empty() && !e.text.back()) e.text.pop_back(); if(e.text.size() > 1023) e.text.resize(1023); } else { if(v.tag < 2) throw Reject(); e.obj = v; e.text = p->classes[v.tag - 2]->name; } throw e; }
			case S_ASSERT: { Value v = ex(f, s->a); if(!v.i) err(s->sv); return NEXT; }
			case S_LOCALFN: { Value v; v.k = s->var->ty.k; v.f = new Clo{ s->fn, nullptr }; Cell *c = newCell(s->var->ty); c->v = v; renew(f, s->var, c); capture(f, v.f); c->v = v; return NEXT; }
			case S_GC: return NEXT;
			case S_FAULT: if(ref->onFault) ref->onFault(s->iv); return NEXT;
			}
			return NEXT;
		}
	};

	static void setParents(std::vector<S*> &v, S *par);
	static void setParents1(S *s, S *par){ s->parent = par; setParents(s->body, s); setParents(s->els, s); for(auto &c : s->cases) setParents(c, s); if(s->fn) setParents(s->fn->body, nullptr); }
	static void setParents(std::vector<S*> &v, S *par){ for(S *s : v) setParents1(s, par); }

	Ref::Ref(Program *prog): p(prog)
	{
		gc_ = &p->classes; Eval *e = new Eval; e->p = p; e->ref = this; impl = e;
		for(FnDef *f : p->funcs) setParents(f->body, nullptr);
		for(Var *g : p->globals) e->globals[g] = e->newCell(g->ty);
	}
	static RefRun finish(Eval *e, std::function<Value()> fn)
	{
		gc_ = &e->p->classes; RefRun r; e->out = &r; e->fuel = e->p->prof.fuel; e->depth = 0;
		try { Value v = fn(); r.ok = true; r.ret = (int)v.i; } catch(NErr &x) { r.error = x.text; }
		return r;
	}
	RefRun Ref::runMain()
	{
		Eval *e = (Eval*)impl; for(Var *g : p->globals) e->globals[g] = e->newCell(g->ty);
		for(int i = 0; i < 8; i++) e->ring[i] = e->ringG[i] = Value(); e->ringN = e->ringM = 0;
		return finish(e, [&]{ Frame f; f.fn = p->mainFn; f.slots = new Cell*[p->mainFn->nslots + 1](); f.env = nullptr; e->list(f, p->mainBody); return f.ret; });
	}
	RefRun Ref::callHostFn(int i, int arg){ Eval *e = (Eval*)impl; return finish(e, [&]{ return e->call(p->hostFns[i], nullptr, { vi(arg) }, nullptr, nullptr); }); }
	RefRun Ref::runDump(){ Eval *e = (Eval*)impl; FnDef *d = nullptr; for(FnDef *f : p->funcs) if(f->name == "dumpall") d = f; return finish(e, [&]{ return e->call(d, nullptr, { vi(0) }, nullptr, nullptr); }); }
	std::string Ref::globalValue(int i){ Eval *e = (Eval*)impl; Var *g = p->globals[i]; Cell *c = e->globals[g]; switch(g->ty.k){ case INT: return g->name + "=" + std::to_string(c->v.i); case LONG: return g->name + "=" + std::to_string(c->v.i); case DOUBLE: return g->name + "=" + sim::fmt("%.17g", c->v.d); default: return ""; } }

	u64 Ref::stateHash(){ Eval *e = (Eval*)impl; u64 h = 0; for(Var *g : p->globals) { Cell *c = e->globals[g]; h = mix64(h ^ u64(c->v.i) ^ (c->v.o ? 0x55 + u64(c->v.o->n) : 0) ^ (c->v.f ? 0x99 : 0) ^ hashStr(g->name)); } return h; }
	int defaultHost(int a, int b, int c){ return (int)((u32)a * 31u + (u32)b * 7u + (u32)c); }

	Program* generateAccepted(u64 seed, const Profile &prof, u64 &pseed, RefRun *out, std::function<int(int,int,int)> host)
	{
		for(int i = 0; i < 60; i++)
		{
			u64 s = mix64(seed + u64(i) * 7919);
			Program *p = generate(s, prof);
			try { Ref r(p); r.onHost = host ? host : defaultHost; RefRun rr = r.runMain(); if(out) *out = rr; pseed = s; return p; } catch(Reject&) {}
		}
		return nullptr;
	}
	void addStmtOps(Plan &plan, Program *p){ for(S *s : p->byId) plan.ops.push_back(Op("stmt", { s->id })); }
	void enableFromPlan(const Plan &plan, Program *p){ std::set<int> on; for(auto &o : plan.ops) if(o.name == "stmt") on.insert(int(o.arg(0))); for(S *s : p->byId) s->on = on.count(s->id) > 0; }
}
