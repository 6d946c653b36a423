// C19: histories of operations on the standard containers, driven one call at a time, against plain models.
// Collections at seeded allocations, failing allocations inside the operations (caught by the host or by try), errors of wrong use.
#include "eng.h"
#include <algorithm>
#include <set>

namespace NULLC { void CollectMemory(); }
static void simCollect(){ NULLC::CollectMemory(); }
namespace
{
	struct Kind { const char *n, *type, *mk, *id; bool eq; };
	const Kind kKinds[] = {
		{ "I", "int", "return x;", "return v;", true },
		{ "C", "char", "return x;", "return v;", true },
		{ "L", "long", "return long(x) * 4294967311l;", "return int(v / 4294967311l);", true },
		{ "D", "double", "return x * 0.5 + 0.25;", "return int((v - 0.25) * 2);", true },
		{ "V", "Val", "Val v; v.a = x; v.b = x * 3l; v.c = x % 50; v.d = x * 0.5; return v;", "if(v.b != v.a * 3l || v.c != v.a % 50 || v.d != v.a * 0.5) return -999; return v.a;", true },
		{ "N", "Node ref", "Node ref n = new Node; n.id = x; n.link = new Node; n.link.id = x ^ 21; return n;", "if(!v) return -1; if(!v.link || v.link.id != (v.id ^ 21)) return -998; return v.id;", false },
		{ "S", "string", "string s = string(x.str()); s += string(\"abc\"); return s;", "if(v.data.size == 0) return -1; if(v.size < 4 || v.data[v.data.size - 1] != 0) return -997; string r = v.substr(0, v.size - 3); if(v != r + \"abc\") return -996; return int(r.data);", true },
		{ "A", "char[]", "return x.str();", "if(v.size == 0) return -1; return int(v);", true },
		{ "F", "int ref()", "int k = x; return auto(){ return k; };", "if(v == nullptr) return -1; return v();", false },
		{ "W", "vector<int> ref", "auto w = new vector<int>; for(int i = 0; i < x % 4 + 1; i++) w.push_back(x + i); return w;", "if(!v) return -1; if(v.size() != int(v[0]) % 4 + 1) return -995; for(int i = 0; i < v.size(); i++) if(v[i] != int(v[0]) + i) return -994; return v[0];", false },
		{ "R", "auto ref", "auto ref r = duplicate(x); return r;", "if(!v) return -1; return int(v);", false },
	};
	const int nKinds = int(sizeof(kKinds) / sizeof(kKinds[0]));

	const char *prelude =
		"import sim; import std.vector; import std.list; import std.hashmap; import std.string; import std.error; import std.algorithm; import std.event; import std.range;\n"
		"class Val{ int a; long b; char c; double d; }\nbool operator==(Val ref a, b){ return a.a == b.a; }\n"
		"class Node{ int id; Node ref link; }\n";

	std::string repl(std::string t, const std::string &a, const std::string &b){ size_t p = 0; while((p = t.find(a, p)) != std::string::npos){ t.replace(p, a.size(), b); p += b.size(); } return t; }
	const char *tryWrap = "int t@P@(int s, int op, int a, int b){ auto r = try(<>{ return @P@(s, op, a, b); }); if(!r){ ei(-7777); return 0; } return 1; }\n";

	const char *vecT = R"(
vector<@T@> ref vec@K@0 = new vector<@T@>, vec@K@1 = new vector<@T@>;
vector<@T@> ref vec@K@(int s){ return s ? vec@K@1 : vec@K@0; }
int vop@K@(int s, int op, int a, int b)
{
	vector<@T@> ref v = vec@K@(s), w = vec@K@(1 - s);
	if(op == 0){ v.push_back(mk@K@(a)); return 1; }
	if(op == 1){ v.pop_back(); return 1; }
	if(op == 2){ ei(id@K@(*v.back())); return 1; }
	if(op == 3){ ei(id@K@(*v.front())); return 1; }
	if(op == 4){ ei(id@K@(v[a])); return 1; }
	if(op == 5){ v[a] = mk@K@(b); return 1; }
	if(op == 6){ ei(v.size()); assert(v.capacity() >= v.size()); return 1; }
	if(op == 7){ v.resize(a); return 1; }
	if(op == 8){ v.reserve(a); assert(v.capacity() >= a); return 1; }
	if(op == 9){ v.clear(); return 1; }
	if(op == 10){ v.destroy(); return 1; }
	if(op == 11){ for(i in v) ei(id@K@(i)); return 1; }
	if(op == 12){ for(i in v){ int n = 0; for(j in v){ n += id@K@(j) * 3 + id@K@(i); } ei(n); } return 1; }
	if(op == 13){ v.sort(<x, y>{ id@K@(x) < id@K@(y); }); return 1; }
	if(op == 14){ for(i in v) w.push_back(i); return 1; }
	if(op == 15){ auto sp = v[a, b]; for(int i = 0; i <= b - a; i++) ei(id@K@(sp[i])); return 1; }
	if(op == 16){ ei(v.sum(<x>{ id@K@(x); })); return 1; }
	if(op == 17){ ei(v.count_if(<x>{ id@K@(x) % 3 == 0; })); ei(v.all(<x>{ id@K@(x) % 2 == 0; }) ? 1 : 0); ei(v.any(<x>{ id@K@(x) % 5 == 0; }) ? 1 : 0); return 1; }
	if(op == 18){ for(i in v.map(<x>{ mk@K@((id@K@(x) + a) % 100); })) ei(id@K@(i)); return 1; }
	if(op == 19){ for(i in v.filter(<x>{ id@K@(x) % 2 == a % 2; })) ei(id@K@(i)); return 1; }
	if(op == 20){ ei(v.min_element(<x>{ id@K@(x); })); ei(v.max_element(<x>{ id@K@(x); })); return 1; }
	if(op == 21){ ei(id@K@(v.foldl(<x, y>{ mk@K@((id@K@(x) * 3 + id@K@(y)) % 100); }))); ei(id@K@(v.foldr(<x, y>{ mk@K@((id@K@(x) * 3 + id@K@(y)) % 100); }))); return 1; }
	if(op == 22){ v.push_back_mult({ mk@K@(a), mk@K@(b), mk@K@(a) }); return 1; }
	if(op == 23){ v.fill({ mk@K@(a), mk@K@(b) }); return 1; }
	if(op == 24){ @IN@ return 1; }
	if(op == 25){ v.push_back_mult(coroutine auto(){ for(int i = 0; i < a; i++) yield mk@K@(b + i); return mk@K@(0); }); return 1; }
	return 0;
}
)";
	const char *listT = R"(
list<@T@> ref lst@K@0 = new list<@T@>, lst@K@1 = new list<@T@>;
list<@T@> ref lst@K@(int s){ return s ? lst@K@1 : lst@K@0; }
int lop@K@(int s, int op, int a, int b)
{
	list<@T@> ref v = lst@K@(s), w = lst@K@(1 - s);
	if(op == 0){ v.push_back(mk@K@(a)); return 1; }
	if(op == 1){ v.push_front(mk@K@(a)); return 1; }
	if(op == 2){ v.pop_back(); return 1; }
	if(op == 3){ v.pop_front(); return 1; }
	if(op == 4){ auto n = v.begin(); for(int i = 0; i < a; i++) n = n.next; v.insert(n, mk@K@(b)); return 1; }
	if(op == 5){ auto n = v.begin(); for(int i = 0; i < a; i++) n = n.next; v.erase(n); return 1; }
	if(op == 6){ v.clear(); return 1; }
	if(op == 7){ ei(id@K@(*v.back())); return 1; }
	if(op == 8){ ei(id@K@(*v.front())); return 1; }
	if(op == 9){ ei(v.empty() ? 1 : 0); return 1; }
	if(op == 10){ @FIND@ return 1; }
	if(op == 11){ for(i in v) ei(id@K@(i)); return 1; }
	if(op == 12){ auto n = v.end(); while(n){ ei(id@K@(n.elem)); n = n.prev; } return 1; }
	if(op == 13){ ei(v.sum(<x>{ id@K@(x); })); return 1; }
	if(op == 14){ ei(v.count_if(<x>{ id@K@(x) % 3 == 0; })); ei(v.all(<x>{ id@K@(x) % 2 == 0; }) ? 1 : 0); ei(v.any(<x>{ id@K@(x) % 5 == 0; }) ? 1 : 0); return 1; }
	if(op == 15){ for(i in v){ int n = 0; for(j in v){ n += id@K@(j) * 3 + id@K@(i); } ei(n); } return 1; }
	if(op == 16){ for(i in v) w.push_back(i); return 1; }
	if(op == 17){ auto n = v.begin(); while(n){ auto x = n.next; if(id@K@(n.elem) % 3 == a % 3) v.erase(n); n = x; } return 1; }
	if(op == 18){ w.insert(v.begin(), mk@K@(a)); return 1; }
	if(op == 19){ for(i in v) i = mk@K@((id@K@(i) + a) % 100); return 1; }
	if(op == 20){ ei(v.min_element(<x>{ id@K@(x); })); ei(v.max_element(<x>{ id@K@(x); })); return 1; }
	if(op == 21){ @IN@ return 1; }
	return 0;
}
)";
	const char *mapT = R"(
@HASH@
hashmap<@KT@, @T@> ref map@M@0 = new hashmap<@KT@, @T@>(hash@M@), map@M@1 = new hashmap<@KT@, @T@>(hash@M@);
hashmap<@KT@, @T@> ref map@M@(int s){ return s ? map@M@1 : map@M@0; }
int mop@M@(int s, int op, int a, int b)
{
	hashmap<@KT@, @T@> ref m = map@M@(s);
	if(op == 0){ m[mk@KK@(a)] = mk@K@(b); return 1; }
	if(op == 1){ auto x = m.find(mk@KK@(a)); if(x) ei(id@K@(*x)); else ei(-5); return 1; }
	if(op == 2){ m.remove(mk@KK@(a)); return 1; }
	if(op == 3){ m.clear(); return 1; }
	if(op == 4){ int n = 0, h = 0; for(i in m.entries){ hashmap_node<@KT@, @T@> ref x = i; while(x){ n++; h += id@KK@(x.key) * 7 + id@K@(x.value) * 13; x = x.next; } } ei(n); ei(h); return 1; }
	if(op == 5){ auto x = m.find(mk@KK@(a)); if(x) *x = mk@K@(b); else ei(-5); return 1; }
	if(op == 6){ ei(id@K@(m[mk@KK@(a)])); return 1; }
	return 0;
}
)";
	const char *evT = R"(
event<void ref(int)> ev0, ev1;
void h0(int x){ ei(x * 10); } void h1(int x){ ei(x * 10 + 1); }
class Holder{ int k; } void Holder:on(int x){ ei(x * 10 + k); }
Holder ref holder2 = new Holder, holder3 = new Holder; holder2.k = 2; holder3.k = 3;
void ref(int)[6] handlers; handlers[0] = h0; handlers[1] = h1; handlers[2] = holder2.on; handlers[3] = holder3.on;
{ int q4 = 4, q5 = 5; handlers[4] = auto(int x){ ei(x * 10 + q4); }; handlers[5] = auto(int x){ ei(x * 10 + q5); }; }
int evop(int s, int op, int a, int b)
{
	event<void ref(int)> ref e = s ? &ev1 : &ev0;
	if(op == 0){ e.attach(handlers[a % 6]); return 1; }
	if(op == 1){ e.detach(handlers[a % 6]); return 1; }
	if(op == 2){ if(s) ev1(a); else ev0(a); return 1; }
	if(op == 3){ e.detach_all(); return 1; }
	if(op == 4){ if(s){ if(ev1) ei(1); else ei(0); } else { if(ev0) ei(1); else ei(0); } return 1; }
	return 0;
}
)";
	const char *strT = R"(
string[3] strs;
int sop(int s, int op, int a, int b)
{
	string ref v = &strs[s], w = &strs[(s + 1) % 3];
	string ref sub = new string; *sub = string((b < 0 ? 0 : b % 3) + (op % 2), char('a' + a % 3));
	if(op == 0){ *v += string(a % 7, char('a' + b % 4)); return 1; }
	if(op == 1){ *v = string((a * 37).str()); return 1; }
	if(op == 2){ v.insert(a, w); return 1; }
	if(op == 3){ v.erase(a, b); return 1; }
	if(op == 4){ v.replace(a, b, w); return 1; }
	if(op == 5){ ei(v.find(sub, a)); return 1; }
	if(op == 6){ ei(v.rfind(sub, a)); return 1; }
	if(op == 7){ *w = v.substr(a, b); return 1; }
	if(op == 8){ ei(*v == *w ? 1 : 0); ei(*v != *w ? 1 : 0); ei(*v < *w ? 1 : 0); ei(*v >= *w ? 1 : 0); ei(*v <= *w ? 1 : 0); ei(*v > *w ? 1 : 0); return 1; }
	if(op == 9){ ei(v.find_first_of(sub, a)); ei(v.find_last_of(sub, a)); ei(v.find_first_not_of(sub, a)); ei(v.find_last_not_of(sub, a)); return 1; }
	if(op == 10){ ei(v.find(char('a' + b % 4), a)); ei(v.rfind(char('a' + b % 4), a)); return 1; }
	if(op == 11){ v.swap(w); return 1; }
	if(op == 12){ v.clear(); return 1; }
	if(op == 13){ string r = *v + *w; *w = r; return 1; }
	if(op == 14){ *v += w; return 1; }
	if(op == 15){ ei(v.size); ei(v.length()); ei(v.empty() ? 1 : 0); return 1; }
	if(op == 16){ char[] t = "ab"; *v += t; *v = "x" + *v; *v = *v + "yz"; return 1; }
	if(op == 17){ v[a] = 'q'; return 1; }
	if(op == 18){ ei(*v == "aab" ? 1 : 0); ei("aab" == *v ? 1 : 0); ei(*v != "aab" ? 1 : 0); ei(*v < "aab" ? 1 : 0); ei("aab" < *v ? 1 : 0); return 1; }
	if(op == 19){ *v = *w; return 1; }
	if(op == 20){ v.insert(a, b % 4, 'k'); return 1; }
	if(op == 21){ v.replace(a, b, 2, 'r'); return 1; }
	if(op == 22){ string c = string(w); c += string(1, 'c'); *v = c; return 1; }
	return 0;
}
int sshow(int s, int op, int a, int b){ string ref v = &strs[s]; if(v.data.size == 0) es(""); else { assert(v.data[v.data.size - 1] == 0); for(int i = 0; i < v.size; i++) assert(v.data[i] != 0); es(v.data); } return 1; }
)";

	// ---- models. An operation returns false when it is an error that leaves everything as it was. -1 in an element: unknown
	struct M
	{
		std::vector<int> out; bool unknown = false;	// unknown: emitted values can't be predicted
		void e(int v){ out.push_back(v); }
	};
	const int UNK = -100000;
	typedef std::vector<int> Seq;
	bool anyUnk(const Seq &s){ for(int x : s) if(x == UNK) return true; return false; }

	struct Cont { int type; int kind, key, hash; Seq seq[2]; std::map<int, int> mp[2]; std::string str[3]; };	// type 0 vector 1 list 2 hashmap 3 event 4 string

	int fold(const Seq &s, bool left){ if(left){ int t = s[0]; for(size_t i = 1; i < s.size(); i++) t = (t * 3 + s[i]) % 100; return t; } int t = s.back(); for(size_t i = s.size() - 1; i-- > 0;) t = (t * 3 + s[i]) % 100; return t; }

	// compound: on an allocation failure only a part may have been done
	bool vecOp(Seq &v, Seq &w, int op, int a, int b, M &m, bool &compound, bool eq)
	{
		int n = int(v.size());
		switch(op)
		{
		case 0: v.push_back(a); return true;
		case 1: if(!n) return false; v.pop_back(); return true;
		case 2: if(!n) return false; m.e(v.back()); return true;
		case 3: if(!n) return false; m.e(v[0]); return true;
		case 4: if(a < 0 || a >= n) return false; m.e(v[a]); return true;
		case 5: if(a < 0 || a >= n) return false; v[a] = b; return true;
		case 6: m.e(n); return true;
		case 7: if(a < 0) return false; v.resize(a, UNK); return true;
		case 8: return a >= 0;
		case 9: case 10: v.clear(); return true;
		case 11: for(int x : v) m.e(x); return true;
		case 12: if(anyUnk(v)){ m.unknown = true; return true; } for(int x : v){ int t = 0; for(int y : v) t += y * 3 + x; m.e(t); } return true;
		case 13: if(anyUnk(v)){ v.assign(v.size(), UNK); return true; } compound = false; std::sort(v.begin(), v.end()); return true;
		case 14: compound = true; w.insert(w.end(), v.begin(), v.end()); return true;
		case 15: if(a < 0 || b < a || a >= n) return false; for(int i = a; i <= b; i++){ if(i >= n) return false; m.e(v[i]); } return true;
		case 16: { if(anyUnk(v)){ m.unknown = true; return true; } int t = 0; for(int x : v) t += x; m.e(t); return true; }
		case 17: { if(anyUnk(v)){ m.unknown = true; return true; } int c = 0, all = n ? 1 : 0, any = 0; for(int x : v){ c += x % 3 == 0; all = all && x % 2 == 0; any = any || x % 5 == 0; } m.e(c); m.e(all); m.e(any); return true; }
		case 18: if(anyUnk(v)){ m.unknown = true; return true; } for(int x : v) m.e((x + a) % 100); return true;
		case 19: if(anyUnk(v)){ m.unknown = true; return true; } for(int x : v) if(x % 2 == a % 2) m.e(x); return true;
		case 20: if(!n) return false; if(anyUnk(v)){ m.unknown = true; return true; } m.e(*std::min_element(v.begin(), v.end())); m.e(*std::max_element(v.begin(), v.end())); return true;
		case 21: if(!n) return false; if(anyUnk(v)){ m.unknown = true; return true; } m.e(fold(v, true)); m.e(fold(v, false)); return true;
		case 22: compound = true; v.push_back(a); v.push_back(b); v.push_back(a); return true;
		case 23: compound = true; v.clear(); v.push_back(a); v.push_back(b); return true;
		case 24: if(!eq) return true; if(anyUnk(v)){ m.unknown = true; return true; } m.e(std::count(v.begin(), v.end(), a) ? 1 : 0); return true;
		case 25: compound = true; for(int i = 0; i < a; i++) v.push_back(b + i); return true;
		}
		return true;
	}
	bool listOp(Seq &v, Seq &w, int op, int a, int b, M &m, bool &compound, bool eq)
	{
		int n = int(v.size());
		switch(op)
		{
		case 0: v.push_back(a); return true;
		case 1: v.insert(v.begin(), a); return true;
		case 2: if(!n) return false; v.pop_back(); return true;
		case 3: if(!n) return false; v.erase(v.begin()); return true;
		case 4: if(a < 0 || a >= n) return false; v.insert(v.begin() + a + 1, b); return true;
		case 5: if(a < 0 || a >= n) return false; v.erase(v.begin() + a); return true;
		case 6: v.clear(); return true;
		case 7: if(!n) return false; m.e(v.back()); return true;
		case 8: if(!n) return false; m.e(v[0]); return true;
		case 9: m.e(n == 0); return true;
		case 10: if(!eq) return true; { int at = -1; for(int i = 0; i < n && at < 0; i++) if(v[i] == a) at = i; m.e(at); } return true;
		case 11: for(int x : v) m.e(x); return true;
		case 12: for(int i = n; i-- > 0;) m.e(v[i]); return true;
		case 13: { int t = 0; for(int x : v) t += x; m.e(t); return true; }
		case 14: { int c = 0, all = n ? 1 : 0, any = 0; for(int x : v){ c += x % 3 == 0; all = all && x % 2 == 0; any = any || x % 5 == 0; } m.e(c); m.e(all); m.e(any); return true; }
		case 15: for(int x : v){ int t = 0; for(int y : v) t += y * 3 + x; m.e(t); } return true;
		case 16: compound = true; w.insert(w.end(), v.begin(), v.end()); return true;
		case 17: compound = true; { Seq k; for(int x : v) if(x % 3 != a % 3) k.push_back(x); v = k; } return true;
		case 18: return false;	// an iterator of another list, or none
		case 19: compound = true; for(int &x : v) x = (x + a) % 100; return true;
		case 20: if(!n) return false; m.e(*std::min_element(v.begin(), v.end())); m.e(*std::max_element(v.begin(), v.end())); return true;
		case 21: if(!eq) return true; m.e(std::count(v.begin(), v.end(), a) ? 1 : 0); return true;
		}
		return true;
	}
	bool mapOp(std::map<int, int> &mp, int op, int a, int b, M &m)
	{
		auto it = mp.find(a);
		switch(op)
		{
		case 0: mp[a] = b; return true;
		case 1: if(it == mp.end()) m.e(-5); else m.e(it->second); return true;
		case 2: if(it == mp.end()) return false; mp.erase(it); return true;
		case 3: mp.clear(); return true;
		case 4: { int h = 0; bool unk = false; for(auto &x : mp){ h += x.first * 7 + x.second * 13; unk |= x.second == UNK; } m.e(int(mp.size())); m.e(unk ? UNK : h); return true; }
		case 5: if(it == mp.end()) m.e(-5); else it->second = b; return true;
		case 6: if(it == mp.end()){ mp[a] = UNK; m.e(UNK); } else m.e(it->second); return true;
		}
		return true;
	}
	bool evOp(Seq &v, int op, int a, M &m)
	{
		auto it = std::find(v.begin(), v.end(), a % 6);
		switch(op)
		{
		case 0: if(it == v.end()) v.push_back(a % 6); return true;
		case 1: if(it != v.end()) v.erase(it); return true;
		case 2: for(int x : v) m.e(a * 10 + x); return true;
		case 3: v.clear(); return true;
		case 4: m.e(v.empty() ? 0 : 1); return true;
		}
		return true;
	}
	int pos(size_t p){ return p == std::string::npos ? -1 : int(p); }
	// only uses whose meaning the comments of the module define; others are not generated (see legal)
	bool strOp(std::string *s, int i, int op, int a, int b, M &m)
	{
		std::string &v = s[i], &w = s[(i + 1) % 3]; int n = int(v.size());
		std::string sub(size_t((b < 0 ? 0 : b % 3) + (op % 2)), char('a' + a % 3));
		switch(op)
		{
		case 0: v += std::string(size_t(a % 7), char('a' + b % 4)); return true;
		case 1: v = std::to_string(a * 37); return true;
		case 2: if(w.empty()) return true; v.insert(size_t(a), w); return true;
		case 3: v.erase(size_t(a), b < 0 ? std::string::npos : size_t(b)); return true;
		case 4: v.replace(size_t(a), b < 0 ? std::string::npos : size_t(b), w); return true;
		case 5: m.e(pos(v.find(sub, size_t(a)))); return true;
		case 6: m.e(pos(v.rfind(sub, a < 0 ? std::string::npos : size_t(a)))); return true;
		case 7: w = v.substr(size_t(a), b < 0 ? std::string::npos : size_t(b)); return true;
		case 8: m.e(v == w); m.e(v != w); m.e(v < w); m.e(v >= w); m.e(v <= w); m.e(v > w); return true;
		case 9: m.e(pos(v.find_first_of(sub, size_t(a)))); m.e(pos(v.find_last_of(sub, size_t(a)))); m.e(pos(v.find_first_not_of(sub, size_t(a)))); m.e(pos(v.find_last_not_of(sub, size_t(a)))); return true;
		case 10: m.e(pos(v.find(char('a' + b % 4), size_t(a)))); m.e(pos(v.rfind(char('a' + b % 4), size_t(a)))); return true;
		case 11: std::swap(v, w); return true;
		case 12: v.clear(); return true;
		case 13: w = v + w; return true;
		case 14: v += w; return true;
		case 15: m.e(n); m.e(n); m.e(n == 0); return true;
		case 16: v += "ab"; v = "x" + v; v = v + "yz"; return true;
		case 17: v[size_t(a)] = 'q'; return true;
		case 18: m.e(v == "aab"); m.e("aab" == v); m.e(v != "aab"); m.e(v < "aab"); m.e("aab" < v); return true;
		case 19: v = w; return true;
		case 20: v.insert(size_t(a), size_t(b % 4), 'k'); return true;
		case 21: v.replace(size_t(a), b < 0 ? std::string::npos : size_t(b), 2, 'r'); return true;
		case 22: v = w + "c"; return true;
		}
		return true;
	}

	// sorting, ranges, map, filter, folds and bound functions of std.algorithm and std.range
	const char *algT = R"(
int anext(int ref v){ *v = (*v * 75 + 74) % 65537; return *v; }
int aval(int i, n, mode, int ref v)
{
	int x = anext(v);
	if(mode == 0) return x;
	if(mode == 1) return x % 5;
	if(mode == 2) return i;
	if(mode == 3) return n - i;
	if(mode == 4) return i < n / 2 ? i : n - i;
	if(mode == 5) return x % (n + 1);
	return i % 16 == 15 ? x : i;
}
class Guard1{ char[8] lo; char[1] mid; char[8] hi; } class Guard4{ char[8] lo; char[4] mid; char[8] hi; } class Guard7{ char[8] lo; char[7] mid; char[8] hi; }
Guard1 gd1; Guard4 gd4; Guard7 gd7; Guard4 ref gh = new Guard4; char[] cnull;
char[] cbuf(int len, term, zero, int ref v)
{
	if(len < 0) return cnull;
	char[] r = new char[len + (term ? 1 : 0)];
	for(int i = 0; i < len; i++) r[i] = 'a' + anext(v) % 2;
	if(zero && len) r[len / 2] = 0;
	return r;
}
int cguards(char[] lo, hi){ int s = 0; for(i in lo) s += i != 0; for(i in hi) s += i != 0; return s; }
int ahash(int h, x){ return (h * 31 + (x & 65535)) & 0xffffff; }
int alop(int s, int op, int a, int b)
{
	int n = a * 3, mode = b % 7, v = a * 7 + b + s * 1000, h = 1;
	if(op == 0)
	{
		int[] arr = new int[n]; for(int i = 0; i < n; i++) arr[i] = aval(i, n, mode, &v);
		sort(arr, <l, r>{ *l < *r; });
		for(i in arr) h = ahash(h, i);
		ei(arr.size); ei(h); return 1;
	}
	if(op == 1)
	{
		int[] arr = new int[n]; for(int i = 0; i < n; i++) arr[i] = aval(i, n, mode, &v);
		sort(arr, a, n - a, auto(int x, y){ return x > y; });
		for(i in arr) h = ahash(h, i);
		ei(h); return 1;
	}
	if(op == 2)
	{
		double[] arr = new double[n]; for(int i = 0; i < n; i++) arr[i] = aval(i, n, mode, &v) * 0.25 - 1000.0;
		sort(arr, <l, r>{ *l < *r; });
		for(i in arr) h = ahash(h, int((i + 1000.0) * 4.0));
		ei(h); return 1;
	}
	if(op == 3)
	{
		Val[] arr = new Val[n]; int sum = 0; for(int i = 0; i < n; i++){ int x = aval(i, n, mode, &v); arr[i].a = x; arr[i].b = x * 3l; arr[i].c = x % 50; arr[i].d = x * 0.5; }
		sort(arr, 0, arr.size, auto(Val l, r){ return l.a % 10 < r.a % 10; });
		for(i in arr){ h = ahash(h, i.a % 10); sum = (sum + i.a) & 0xffffff; if(i.b != i.a * 3l || i.c != i.a % 50 || i.d != i.a * 0.5) sum = -1000000; }
		ei(h); ei(sum); return 1;
	}
	if(op == 4)
	{
		Node ref[] arr = new Node ref[n]; for(int i = 0; i < n; i++){ arr[i] = new Node; arr[i].id = aval(i, n, mode, &v); arr[i].link = i ? arr[i - 1] : nullptr; }
		Node ref last = n ? arr[n - 1] : nullptr;
		sort(arr, 0, arr.size, auto(Node ref l, r){ return l.id < r.id; });
		for(i in arr) h = ahash(h, i.id);
		ei(h); h = 1; while(last){ h = ahash(h, last.id); last = last.link; } ei(h); return 1;
	}
	if(op == 5)
	{
		int c = 0, step = b % 5 + 1; for(i in range(s - b, a, step)){ h = ahash(h, i); c++; } ei(c); ei(h); return 1;
	}
	if(op == 6)
	{
		int[] arr = new int[n]; for(int i = 0; i < n; i++) arr[i] = aval(i, n, mode, &v);
		auto m = map(arr, <int ref x>{ *x * 2l; }); long t = 0; for(i in m) t += i;
		auto k = map(arr, <int ref x>{ *x + b; }); for(i in k) h = ahash(h, i);
		ei(m.size); ei(int(t & 0xffffff)); ei(h); return 1;
	}
	if(op == 7)
	{
		int[] arr = new int[n]; for(int i = 0; i < n; i++) arr[i] = aval(i, n, mode, &v);
		auto[] f = filter(arr, <x>{ int(x) % 3 == b % 3; }); for(int i = 0; i < f.size; i++) h = ahash(h, int(f[i]));
		ei(f.size); ei(h); return 1;
	}
	if(op == 8 || op == 9)
	{
		int[] arr = new int[n]; for(int i = 0; i < n; i++) arr[i] = aval(i, n, mode, &v);
		if(op == 8) ei(foldl(arr, auto(int x, y){ return (x * 31 + y) & 0xffffff; }));
		else ei(foldr(arr, auto(int x, y){ return (x * 31 + y) & 0xffffff; }));
		return 1;
	}
	if(op == 10)
	{
		auto f = bind_first(auto(int x, y){ return x * 3 - y; }, a), l = bind_last(auto(int x, y){ return x * 3 - y; }, a), ff = bind_first(f, b);
		ei(f(b)); ei(l(b)); ei(ff()); return 1;
	}
	if(op == 11)
	{
		int ref(int)[] fs = new int ref(int)[a + 1]; for(int i = 0; i <= a; i++){ int q = aval(i, n, mode, &v); fs[i] = auto(int x){ return q % 100 + x; }; }
		sort(fs, 0, fs.size, auto(int ref(int) l, r){ return l(0) < r(0); });
		for(int i = 0; i <= a; i++) h = ahash(h, fs[i](b));
		ei(h); return 1;
	}
	if(op == 12){ char[] t = cbuf(a % 12 - 1, b % 4, b % 5 == 0, &v); ei(strlen(t)); return 1; }
	if(op == 13){ char[] t = cbuf(a % 12 - 1, b % 4, b % 5 == 0, &v); ei(strchr(t, char('a' + b % 3 - 1) * char(b % 3 != 0))); return 1; }
	if(op == 14){ char[] t = cbuf(a % 30 - 1, b % 8, b % 11 == 0, &v), u = cbuf(b % 4 - 1, a % 8, 0, &v); ei(strstr(t, u)); return 1; }
	if(op == 15){ char[] t = cbuf(a % 6 - 1, b % 8, b % 11 == 0, &v), u = cbuf(b % 6 - 1, a % 8, 0, &v); ei(strcmp(t, u)); return 1; }
	if(op == 16 || op == 17)
	{
		char[] t = cbuf(op == 16 ? b % 10 - 1 : b % 4, op == 16 ? a % 8 : 1, b % 11 == 0, &v), d; int k = a % 4;
		if(k == 0) d = gd1.mid; else if(k == 1) d = gd4.mid; else if(k == 2) d = gd7.mid; else d = gh.mid;
		int r = strcpy(d, t); ei(r); for(int i = 0; i <= r; i++) h = ahash(h, d[i]); ei(h); return 1;
	}
	if(op == 18){ ei(cguards(gd1.lo, gd1.hi) + cguards(gd4.lo, gd4.hi) + cguards(gd7.lo, gd7.hi) + cguards(gh.lo, gh.hi)); return 1; }
	return 1;
}
)";
	int algHash(int h, int x){ return (h * 31 + (x & 65535)) & 0xffffff; }
	bool algOp(int s, int op, int a, int b, M &m)
	{
		int n = a * 3, mode = b % 7, v = a * 7 + b + s * 1000, h = 1; std::vector<int> d;
		auto val = [&](int i){ v = (v * 75 + 74) % 65537; int x = v; return mode == 0 ? x : mode == 1 ? x % 5 : mode == 2 ? i : mode == 3 ? n - i : mode == 4 ? (i < n / 2 ? i : n - i) : mode == 5 ? x % (n + 1) : i % 16 == 15 ? x : i; };
		if(op != 5 && op < 10) for(int i = 0; i < n; i++) d.push_back(val(i));
		bool null = false;
		auto cbuf = [&](int len, int term, bool zero){ std::string r; null = len < 0; if(null) return r; for(int i = 0; i < len; i++){ v = (v * 75 + 74) % 65537; r += char('a' + v % 2); } if(term) r += '\0'; if(zero && len) r[size_t(len / 2)] = 0; return r; };
		auto bad = [&](const std::string &t){ return t.empty() || t.back(); };
		auto all = [&]{ for(int x : d) h = algHash(h, x); m.e(h); };
		switch(op)
		{
		case 0: std::sort(d.begin(), d.end()); m.e(n); all(); return true;
		case 1: std::sort(d.begin() + a, d.begin() + (n - a), [](int x, int y){ return x > y; }); all(); return true;
		case 2: std::sort(d.begin(), d.end()); all(); return true;
		case 3: { int sum = 0; for(int &x : d){ sum = (sum + x) & 0xffffff; x %= 10; } std::sort(d.begin(), d.end()); all(); m.e(sum); return true; }
		case 4: { std::vector<int> o = d; std::sort(d.begin(), d.end()); all(); h = 1; for(size_t i = o.size(); i-- > 0;) h = algHash(h, o[i]); m.e(h); return true; }
		case 5: { int c = 0; for(int i = s - b; i <= a; i += b % 5 + 1){ h = algHash(h, i); c++; } m.e(c); m.e(h); return true; }
		case 6: { long long t = 0; m.e(n); for(int &x : d){ t += x * 2ll; x += b; } m.e(int(t & 0xffffff)); all(); return true; }
		case 7: { std::vector<int> f; for(int x : d) if(x % 3 == b % 3) f.push_back(x); d = f; m.e(int(d.size())); all(); return true; }
		case 8: case 9: { if(d.empty()) return false; if(op == 9) std::reverse(d.begin(), d.end()); int t = d[0]; for(size_t i = 1; i < d.size(); i++) t = (t * 31 + d[i]) & 0xffffff; m.e(t); return true; }
		case 10: m.e(a * 3 - b); m.e(b * 3 - a); m.e(a * 3 - b); return true;
		case 11: for(int i = 0; i <= a; i++) d.push_back(val(i) % 100); std::sort(d.begin(), d.end()); for(int x : d) h = algHash(h, x + b); m.e(h); return true;
		case 12: { std::string t = cbuf(a % 12 - 1, b % 4, b % 5 == 0); size_t p = t.find('\0'); if(null || p == std::string::npos) return false; m.e(int(p)); return true; }
		case 13: { std::string t = cbuf(a % 12 - 1, b % 4, b % 5 == 0); if(null || bad(t)) return false; const char *p = strchr(t.c_str(), b % 3 ? 'a' + b % 3 - 1 : 0); m.e(p ? int(p - t.c_str()) : -1); return true; }
		case 14: { std::string t = cbuf(a % 30 - 1, b % 8, b % 11 == 0); bool n1 = null; std::string u = cbuf(b % 4 - 1, a % 8, false); if(n1 || null || bad(t) || bad(u)) return false; const char *p = strstr(t.c_str(), u.c_str()); m.e(p ? int(p - t.c_str()) : -1); return true; }
		case 15: { std::string t = cbuf(a % 6 - 1, b % 8, b % 11 == 0); bool n1 = null; std::string u = cbuf(b % 6 - 1, a % 8, false); if(n1 || null || bad(t) || bad(u)) return false; int c = strcmp(t.c_str(), u.c_str()); m.e(c < 0 ? -1 : c > 0); return true; }
		case 16: case 17: { std::string t = cbuf(op == 16 ? b % 10 - 1 : b % 4, op == 16 ? a % 8 : 1, b % 11 == 0); size_t p = t.find('\0'), cap[] = { 1, 4, 7, 4 }; if(null || p == std::string::npos || p >= cap[a % 4]) return false; m.e(int(p)); for(size_t i = 0; i <= p; i++) h = algHash(h, t[i]); m.e(h); return true; }
		case 18: m.e(0); return true;
		}
		return true;
	}

	std::string keyHash(const Cont &c, const std::string &M, const Kind &k)
	{
		if(std::string(k.n) == "A") return "int hash" + M + "(char[] x){ return hash_value(x)" + (c.hash == 0 ? "" : c.hash == 1 ? " & 3" : " * 1024") + "; }";
		return "int hash" + M + "(" + k.type + " x){ return " + (c.hash == 0 ? "id" + std::string(k.n) + "(x)" : c.hash == 1 ? "id" + std::string(k.n) + "(x) & 3" : "id" + std::string(k.n) + "(x) * 1024 - 1") + "; }";
	}
	std::string script(std::vector<Cont> &cs)
	{
		std::string t = prelude; std::set<int> kinds; for(auto &c : cs){ if(c.type < 3) kinds.insert(c.kind); if(c.type == 2) kinds.insert(c.key); }
		for(int k : kinds){ const Kind &q = kKinds[k]; t += std::string(q.type) + " mk" + q.n + "(int x){ " + q.mk + " }\nint id" + q.n + "(" + q.type + " v){ " + q.id + " }\n"; }
		int mi = 0;
		for(auto &c : cs)
		{
			const Kind &k = kKinds[c.kind]; std::string s, P;
			if(c.type == 0)
			{
				s = vecT; P = std::string("vop") + k.n;
				s = repl(s, "@IN@", k.eq ? "ei(mk@K@(a) in v ? 1 : 0);" : ""); s = repl(s, "@END@", "");
			}
			else if(c.type == 1)
			{
				s = listT; P = std::string("lop") + k.n;
				s = repl(s, "@FIND@", k.eq ? "auto f = v.find(mk@K@(a)); int p = 0; auto n = v.begin(); while(n && n != f){ p++; n = n.next; } ei(f ? p : -1);" : ""); s = repl(s, "@IN@", k.eq ? "ei(mk@K@(a) in v ? 1 : 0);" : "");
			}
			else if(c.type == 2)
			{
				s = mapT; std::string M = std::to_string(mi++); P = "mop" + M; const Kind &kk = kKinds[c.key];
				s = repl(s, "@HASH@", keyHash(c, M, kk)); s = repl(s, "@M@", M); s = repl(s, "@KT@", kk.type); s = repl(s, "@KK@", kk.n);
			}
			else if(c.type == 3) s = evT, P = "evop";
			else if(c.type == 5) s = algT, P = "alop";
			else s = strT, P = "sop";
			s = repl(s, "@T@", k.type); s = repl(s, "@K@", k.n);
			t += s + repl(tryWrap, "@P@", P);
		}
		return t + "return 1;\n";
	}
	std::vector<Cont> conts(const Plan &p)
	{
		std::vector<Cont> r; int mi = 0; (void)mi;
		for(auto &o : p.ops) if(o.name == "cont") { Cont c; c.type = int(o.arg(0)) % 6; c.kind = int(o.arg(1)) % nKinds; int keys[] = { 0, 2, 7 }; c.key = keys[o.arg(2) % 3]; c.hash = int(o.arg(3)) % 3; bool dup = false; for(auto &q : r) if(q.type == c.type && (c.type > 2 || (c.type < 2 && q.kind == c.kind))) dup = true; if(!dup) r.push_back(c); }
		return r;
	}
	std::string fn(const std::vector<Cont> &cs, size_t i)
	{
		const Cont &c = cs[i]; if(c.type == 0) return std::string("vop") + kKinds[c.kind].n; if(c.type == 1) return std::string("lop") + kKinds[c.kind].n; if(c.type == 3) return "evop"; if(c.type == 4) return "sop"; if(c.type == 5) return "alop";
		int m = 0; for(size_t k = 0; k < i; k++) if(cs[k].type == 2) m++; return "mop" + std::to_string(m);
	}
	void gen(Rng &r, Plan &p, int)
	{
		int n = r.range(1, 3);
		for(int i = 0; i < n; i++) p.ops.push_back(Op("cont", { (long long)r.below(10) < 3 ? 0 : (long long)r.below(6) < 2 ? 1 : (long long)r.below(4) < 2 ? 2 : r.range(3, 5), r.below(nKinds), r.below(3), r.below(3) }));
		p.cfg["exec"] = r.below(2); p.cfg["opt"] = r.below(3);
		switch(r.below(4)){ case 0: p.cfg["gc_period"] = 1; break; case 1: p.cfg["gc_period"] = r.range(2, 9); break; case 2: p.cfg["gc_period"] = r.range(10, 60); break; default: break; }
		p.cfg["gc_offset"] = r.below(40);
		bool faults = r.chance(2, 3); int ops = r.range(10, 120), grow = r.range(0, 3);
		for(int i = 0; i < ops; i++)
		{
			int op = int(r.below(64)); if(int(r.below(6)) < grow) op = r.coin() ? 0 : 1;
			long long fault = faults && r.chance(1, 6) ? r.range(1, r.chance(1, 2) ? 4 : 30) : 0;
			p.ops.push_back(Op("op", { r.below(3), r.below(3), op, r.chance(1, 12) ? -(long long)r.below(4) : r.below(r.chance(1, 10) ? 100 : 16), r.chance(1, 12) ? -(long long)r.below(4) : r.below(r.chance(1, 3) ? 100 : 12), fault, r.coin() }));
			if(r.chance(1, 20)) p.ops.push_back(Op("collect"));
		}
	}
	void exec(const Plan &plan)
	{
		std::vector<Cont> cs = conts(plan); if(cs.empty()) return;
		std::string text = script(cs), err; int executor = int(plan.get("exec")), opt = int(plan.get("opt"));
		std::vector<int> got; std::string gotS;
		eng::hooks.onEvent = [&](const std::string &t){ if(t[0] == 'i') got.push_back(atoi(t.c_str() + 2)); else if(t[0] == 's') gotS = t.substr(2); };
		gcsim::reset(); gcsim::s.on = false;
		if(!eng::build(text, executor, opt, err)) sim::fail("containers:does-not-compile", err);
		gcsim::s.period = int(plan.get("gc_period")); gcsim::s.offset = int(plan.get("gc_offset")); gcsim::s.on = true; gcsim::s.maxCollections = 4000;
		{ eng::Result r = eng::runMain(); if(!r.ok) sim::fail("containers:setup", r.error); }
		u64 ops = 0, failed = 0;
		auto call = [&](const std::string &f, int s, int op, int a, int b, std::string &error)
		{
			got.clear();
			bool ok = nullcRunFunction(f.c_str(), s, op, a, b) != 0; if(!ok) error = nullcGetLastError();
			return ok;
		};
		for(auto &o : plan.ops)
		{
			if(o.name == "collect"){ simCollect(); sim::fault("collection_between_calls"); continue; }
			if(o.name != "op") continue;
			size_t ci = size_t(o.arg(0)) % cs.size(); Cont &c = cs[ci]; int counts[] = { 26, 22, 7, 5, 23, 19 }, s = int(o.arg(1)) % (c.type == 4 ? 3 : 2), op = int(o.arg(2)) % counts[c.type], a = int(o.arg(3)), b = int(o.arg(4));
			bool eq = kKinds[c.kind].eq; if(c.type == 3 && a < 0) a = -a;
			// element values have to be representable by every element type
			auto val = [](int x){ return x < 0 ? -x : x; };
			if(c.type == 0){ if(op == 0 || op == 18 || op == 19 || op == 22 || op == 23 || op == 24) a = val(a); if(op == 5 || op == 22 || op == 23) b = val(b); if(op == 25){ a = val(a) % 20; b = val(b); } if((op == 7 || op == 8) && a > 60) a = 60; }
			if(c.type == 1){ if(op == 0 || op == 1 || op == 10 || op == 17 || op == 19 || op == 21) a = val(a); if(op == 4 || op == 5){ a = val(a); b = val(b); } if(op == 18) a = val(a); }
			if(c.type == 0 && (op == 20 || op == 21) && c.seq[s].empty()) continue;
			if(c.type == 1 && op == 20 && c.seq[s].empty()) continue;
			if(c.type == 0 && (op == 18 || op == 21) && anyUnk(c.seq[s])) continue;
			if(c.type == 0 && (op == 22 || op == 23) && std::string(kKinds[c.kind].n) == "R") continue;
			if(c.type == 2){ a = val(a); b = val(b); }
			if((c.type == 0 || c.type == 1) && (c.seq[0].size() > 200 || c.seq[1].size() > 200)) { if((c.type == 0 && (op == 14 || op == 22 || op == 25)) || (c.type == 1 && op == 16)) continue; }
			if((c.type == 0 && op == 12 && c.seq[s].size() > 60) || (c.type == 1 && op == 15 && c.seq[s].size() > 60)) continue;
			if(c.type == 0 && op == 18 && std::string(kKinds[c.kind].n) == "C") continue;	// chars in a map result are promoted
			if(c.type == 4)
			{
				int n = int(c.str[s].size()); if(b < 0) b = op == 3 || op == 4 || op == 7 || op == 21 ? -1 : -b;
				if(op != 6 && a < 0) a = -a; if(op == 6 && a < 0) a = -1;
				if(n > 150 || c.str[(s + 1) % 3].size() > 150){ if(op == 13 || op == 14 || op == 2 || op == 4 || op == 16 || op == 0) op = 12; }
				if(op == 2 || op == 3 || op == 4 || op == 7 || op == 20 || op == 21) a = a % (n + 1);	// positions inside of the string
				if(op == 20 && b % 4 == 0) b++;
				if(op == 17 || op == 5 || op == 9 || op == 10) { if(!n && op == 17) continue; if(n) a %= n; else a = 0; }
				if(op == 6 && n) a = a >= n ? n - 1 : a;
				if((op == 9 || op == 10 || op == 6) && !n) continue;
			}
			if(c.type == 5){ a = val(a); b = val(b); if(gcsim::s.period == 1 && a > 20) a = a % 20; }
			Cont before = c; M m; bool compound = false, ok = false;
			if(c.type == 0) ok = vecOp(c.seq[s], c.seq[1 - s], op, a, b, m, compound, eq);
			else if(c.type == 1) ok = listOp(c.seq[s], c.seq[1 - s], op, a, b, m, compound, eq);
			else if(c.type == 2) ok = mapOp(c.mp[s], op, a, b, m);
			else if(c.type == 3) ok = evOp(c.seq[s], op, a, m);
			else if(c.type == 5) ok = algOp(s, op, a, b, m);
			else { ok = strOp(c.str, s, op, a, b, m); if(op == 16) compound = true; }
			if(!ok && c.type < 3 && !(c.type == 0 && op == 15)) { if(c.type == 0 || c.type == 1) { c.seq[0] = before.seq[0]; c.seq[1] = before.seq[1]; } }
			std::string f = fn(cs, ci), error; bool guarded = o.arg(6) != 0;
			std::string where = sim::fmt("%s<%s> instance %d operation %d (%d, %d)", c.type == 0 ? "vector" : c.type == 1 ? "list" : c.type == 2 ? "hashmap" : c.type == 3 ? "event" : c.type == 4 ? "string" : "algorithm", c.type < 3 ? kKinds[c.kind].type : "", s, op, a, b);
			gcsim::s.failAt.clear(); gcsim::s.failFrom = false; u64 failures = gcsim::s.failures;
			if(o.arg(5)) gcsim::s.failAt.push_back(gcsim::s.count + u64(o.arg(5)));
			bool r = call(guarded ? "t" + f : f, s, op, a, b, error); ops++; sim::step();
			gcsim::s.failAt.clear();
			bool hit = gcsim::s.failures != failures; bool errored = guarded ? !got.empty() && got.back() == -7777 : !r;
			if(guarded && !r && !hit) sim::fail("containers:guard", where + ": a guarded operation failed: " + error);
			if(hit) { sim::fault("failed_allocation"); failed++; if(guarded && !r) errored = true; }
			sim::log("%s guarded %d -> ok %d errored %d hit %d", where.c_str(), guarded, r, errored, hit);
			if(hit && errored)
			{
				sim::probe("failed_operation");
				// previous contents
				{
					for(int q = 0; q < 2 && c.type < 2; q++)
					{
						std::string e2; std::string ff = fn(cs, ci); if(!call(ff, q, 11, 0, 0, e2)) sim::fail("containers:unusable-after-failure", where + ": iterating after a failed allocation fails: " + e2);
						Seq now = got;
						auto same = [&](const Seq &m){ if(m.size() != now.size()) return false; for(size_t i = 0; i < m.size(); i++) if(m[i] != UNK && m[i] != now[i]) return false; return true; };
						if(same(before.seq[q])){ c.seq[q] = before.seq[q]; continue; }
						if(same(c.seq[q])) continue;
						// a part of the elements was added, removed or replaced
						Seq want = c.seq[q], old = before.seq[q]; bool fits = false;
						if(!compound) sim::fail("containers:partial-contents", where + ": after a failed allocation the contents are neither those before nor those after it");
						if(anyUnk(want) || anyUnk(old)) { c.seq[q].assign(now.size(), UNK); continue; }
						if(c.type == 0 && op == 23 && now.size() <= want.size() && std::equal(now.begin(), now.end(), want.begin())) fits = true;
						else if(now.size() >= old.size() && now.size() <= want.size() && std::equal(now.begin(), now.end(), want.begin()) && want.size() >= old.size() && !(c.type == 1 && (op == 17 || op == 19))) fits = true;
						else if(c.type == 1 && op == 19 && now.size() == old.size()) { fits = true; bool changed = true; for(size_t i = 0; i < now.size(); i++){ if(now[i] == want[i] && changed) continue; changed = false; if(now[i] != old[i]) fits = false; } }
						else if(c.type == 1 && op == 17) { fits = true; }
						if(!fits) sim::fail("containers:partial-contents", where + ": after a failed allocation the contents are neither those before nor a part of the result");
						c.seq[q] = now;
					}
					if(c.type == 2)
					{
						// a new entry may be there without its value yet
						std::string e2; M w0, w1, w2; mapOp(before.mp[s], 4, 0, 0, w0); mapOp(c.mp[s], 4, 0, 0, w1); if(!call(fn(cs, ci), s, 4, 0, 0, e2) || got.size() != 2) sim::fail("containers:unusable-after-failure", where + ": " + e2);
						auto same = [&](const M &m){ return got[0] == m.out[0] && (m.out[1] == UNK || got[1] == m.out[1]); };
						bool unk = false; for(auto &x : c.mp[s]) unk |= x.second == UNK;
						if(unk && (op == 0 || op == 5 || op == 6) && got[0] == w1.out[0]){ if(op != 5 || c.mp[s].count(a)) c.mp[s][a] = UNK; }
						else if(same(w0)) c = before;
						else if(!same(w1)){ if((op == 0 || op == 6) && !before.mp[s].count(a)){ c = before; c.mp[s][a] = UNK; mapOp(c.mp[s], 4, 0, 0, w2); if(!same(w2)) sim::fail("containers:partial-contents", where); } else sim::fail("containers:partial-contents", where + ": after a failed allocation the contents are neither those before nor those after it"); }
					}
					if(c.type == 4) for(int q = 0; q < 3; q++)
					{
						std::string e2; gotS.clear(); if(!call("sshow", q, 0, 0, 0, e2)) sim::fail("containers:unusable-after-failure", where + ": " + e2);
						if(gotS == c.str[q]) continue;
						if(gotS != before.str[q] && op != 16) sim::fail("containers:partial-contents", where + ": after a failed allocation a string is neither as before nor as after it");
						c.str[q] = gotS;
					}
					if(c.type == 3)
					{
						std::string e2; Seq want[2]; for(int q = 0; q < 2; q++) for(int x : (q ? c : before).seq[s]) want[q].push_back(x);
						if(!call("evop", s, 2, 0, 0, e2)) sim::fail("containers:unusable-after-failure", where + ": " + e2);
						if(got == want[0]) c = before; else if(got != want[1]) sim::fail("containers:partial-contents", where + ": after a failed allocation the handlers are neither those before nor those after it");
					}
				}
			}
			else
			{
				if(hit && !errored) sim::probe("failed_allocation_had_no_effect");
				if(ok && errored) sim::fail("containers:unexpected-error", where + " failed with \"" + eng::errorKind(error) + "\"");
				if(!ok && !errored) sim::fail("containers:missing-error", where + " has to be an error");
				if(!ok) sim::probe("wrong_use");
				if(ok && !m.unknown)
				{
					if(got.size() != m.out.size()) sim::failf("containers:wrong-count", "%s gave %zu values, the model gives %zu", where.c_str(), got.size(), m.out.size());
					for(size_t i = 0; i < got.size(); i++) if(m.out[i] != UNK && got[i] != m.out[i]) sim::failf("containers:wrong-value", "%s: value %zu is %d, the model gives %d", where.c_str(), i, got[i], m.out[i]);
				}
			}
			// contents afterwards
			if(c.type < 2) for(int q = 0; q < 2; q++)
			{
				std::string e2; if(!call(fn(cs, ci), q, 11, 0, 0, e2)) sim::fail("containers:unusable", where + ": iterating fails: " + e2);
				if(got.size() != c.seq[q].size()) sim::failf("containers:contents", "after %s instance %d has %zu elements, the model has %zu", where.c_str(), q, got.size(), c.seq[q].size());
				for(size_t i = 0; i < got.size(); i++) if(c.seq[q][i] != UNK && got[i] != c.seq[q][i]) sim::failf("containers:contents", "after %s element %zu of instance %d is %d, the model has %d", where.c_str(), i, q, got[i], c.seq[q][i]);
				if(c.type == 1)
				{
					if(!call(fn(cs, ci), q, 12, 0, 0, e2)) sim::fail("containers:unusable", where + ": iterating backwards fails: " + e2);
					if(got.size() != c.seq[q].size()) sim::failf("containers:contents", "after %s instance %d has %zu elements from back to front, the model has %zu", where.c_str(), q, got.size(), c.seq[q].size());
					for(size_t i = 0; i < got.size(); i++) if(got[i] != c.seq[q][c.seq[q].size() - 1 - i]) sim::failf("containers:contents", "after %s elements of instance %d from back to front differ", where.c_str(), q);
				}
			}
			else if(c.type == 2)
			{
				std::string e2; M w; mapOp(c.mp[s], 4, 0, 0, w); if(!call(fn(cs, ci), s, 4, 0, 0, e2)) sim::fail("containers:unusable", where + ": walking fails: " + e2);
				if(got.size() != 2 || got[0] != w.out[0] || (w.out[1] != UNK && got[1] != w.out[1])) sim::failf("containers:contents", "after %s the map has %d entries with sum %d, the model has %d with %d", where.c_str(), got.size() > 0 ? got[0] : -1, got.size() > 1 ? got[1] : -1, w.out[0], w.out[1]);
				M f1; mapOp(c.mp[s], 1, a, 0, f1); if(!call(fn(cs, ci), s, 1, a, 0, e2) || got.size() != 1 || (f1.out[0] != UNK && got[0] != f1.out[0])) sim::failf("containers:contents", "after %s the entry is not found as the model has it", where.c_str());
			}
			else if(c.type == 3) for(int q = 0; q < 2; q++)
			{
				std::string e2; if(!call("evop", q, 2, 0, 0, e2)) sim::fail("containers:unusable", where + ": raising the event fails: " + e2);
				if(got != c.seq[q]) sim::fail("containers:contents", "after " + where + " other handlers are called than the model has");
			}
			else if(c.type == 5 && op > 11){ std::string e2; if(!call("alop", 0, 18, 0, 0, e2) || got.size() != 1 || got[0] != 0) sim::fail("containers:outside-of-the-array", where + " changed memory next to the destination"); }
			else if(c.type == 4) for(int q = 0; q < 3; q++)
			{
				std::string e2; gotS.clear(); if(!call("sshow", q, 0, 0, 0, e2)) sim::fail("containers:bad-string", where + ": string " + std::to_string(q) + " is malformed: " + eng::errorKind(e2));
				if(gotS != c.str[q]) sim::fail("containers:contents", sim::fmt("after %s string %d is \"%s\", the model has \"%s\"", where.c_str(), q, gotS.c_str(), c.str[q].c_str()));
			}
			u64 h = 0; for(int q = 0; q < 2; q++){ for(int x : c.seq[q]) h = h * 31 + u64(x); for(auto &x : c.mp[q]) h = h * 31 + u64(x.first * 7 + x.second); } for(auto &x : c.str) h ^= hashStr(x); sim::state(mix64(h) ^ u64(c.type * 100 + c.kind));
		}
		if(ops > 8) sim::nontrivial();
		if(gcsim::s.collections) sim::fault("forced_collection", gcsim::s.collections);
		arena::checkAll();
	}
	std::string describe(const Plan &plan){ std::vector<Cont> cs = conts(plan); return "script:\n" + script(cs); }
}
static RegisterProperty reg({ "C19", "histories of operations on vectors, lists, hash maps, events and strings of eleven element types with collections and failing allocations at seeded points, against plain models", eng::warm, gen, exec, describe, 6000, 150000, 40, 600, "a run is non-trivial when more than eight operations were made; distinct by contents reached", "compiler, virtual machine, register VM code, garbage collector and the standard modules in Modules/std", "memory below the engine allocator (arena), host program" });
