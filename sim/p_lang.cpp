// C17: the language server as a whole, run in process. Its input is one byte stream cut into seeded pieces and possibly ended early, its files are a simulated disk, its output is collected and
// checked against a model of the protocol, of the documents and (for documents whose text the model understands) of the answers.
#include "sim.h"
#include <iostream>
#include <streambuf>
#include <algorithm>
#include <set>
#include "rapidjson/document.h"
#include "rapidjson/stringbuffer.h"
#include "rapidjson/writer.h"
#include "../NULLC/nullc.h"
extern "C" int ls_main(int argc, char **argv);
std::map<std::string, std::string> simLangDisk; bool simLangDiskOn = false;	// shared with p_dap.cpp
namespace
{
	std::map<std::string, std::string> &disk = simLangDisk; bool &diskOn = simLangDiskOn; u64 diskReads = 0;
	struct ReadCookie { std::string data; size_t pos; };
	ssize_t cookieRead(void *c, char *b, size_t n){ ReadCookie *r = (ReadCookie*)c; size_t k = std::min(n, r->data.size() - std::min(r->pos, r->data.size())); memcpy(b, r->data.data() + r->pos, k); r->pos += k; return ssize_t(k); }
	int cookieSeek(void *c, off64_t *o, int w){ ReadCookie *r = (ReadCookie*)c; long long p = w == SEEK_SET ? *o : w == SEEK_CUR ? (long long)r->pos + *o : (long long)r->data.size() + *o; if(p < 0) return -1; r->pos = size_t(p); *o = p; return 0; }
	int cookieCloseRead(void *c){ delete (ReadCookie*)c; return 0; }
	ssize_t cookieWrite(void *c, const char *b, size_t n){ std::string &s = *(std::string*)c; if(s.size() < 64u << 20) s.append(b, n); return ssize_t(n); }
	FILE* outFile(std::string *s){ cookie_io_functions_t f = { nullptr, cookieWrite, nullptr, nullptr }; return fopencookie(s, "w", f); }
}
extern "C" FILE* sim_lang_fopen(const char *name, const char *mode)
{
	if(!diskOn) return fopen(name, mode);
	if(mode[0] != 'r') return nullptr;
	diskReads++; auto i = disk.find(name); if(i == disk.end()) return nullptr;
	cookie_io_functions_t f = { cookieRead, nullptr, cookieSeek, cookieCloseRead }; return fopencookie(new ReadCookie{ i->second, 0 }, "r", f);
}
namespace
{
	// ---- the input stream: pieces of seeded size
	struct Pieces: std::streambuf
	{
		std::string data; size_t pos = 0; Rng r; int mode;	// mode 0: all at once, 1: one byte at a time, 2: small pieces, 3: mixed
		u64 pieces = 0; Pieces(const std::string &d, u64 seed, int m): data(d), r(seed), mode(m) {}
		int_type underflow() override
		{
			if(pos >= data.size()) return traits_type::eof();
			size_t n = mode == 0 ? data.size() : mode == 1 ? 1 : mode == 2 ? 1 + r.below(7) : r.coin() ? 1 + r.below(3) : 1 + r.below(400);
			n = std::min(n, data.size() - pos); setg(&data[pos], &data[pos], &data[pos] + n); pos += n; pieces++; return traits_type::to_int_type(*gptr());
		}
	};
	struct Result { std::string out, err; int rc = -1; };
	Result serve(const std::vector<std::string> &args, const std::string &in, u64 seed, int mode)
	{
		Result r; Pieces p(in, seed, mode); std::cin.clear(); std::streambuf *was = std::cin.rdbuf(&p);
		FILE *o = stdout, *e = stderr; FILE *no = outFile(&r.out), *ne = outFile(&r.err); setvbuf(no, nullptr, _IONBF, 0);
		std::vector<char*> av; std::string self = "server"; av.push_back(&self[0]); std::vector<std::string> copy = args; for(auto &a : copy) av.push_back(&a[0]); av.push_back(nullptr);
		fflush(o); fflush(e); stdout = no; stderr = ne; diskOn = true;
		r.rc = ls_main(int(av.size()) - 1, av.data());
		diskOn = false; fflush(no); fflush(ne); stdout = o; stderr = e; fclose(no); fclose(ne); std::cin.rdbuf(was); std::cin.clear();
		if(p.pieces > 1) sim::fault("input_split", p.pieces - 1);
		if(!nullcInit()) sim::fail("lang:not-terminated", std::string("the server returned and left the engine initialised: ") + nullcGetLastError());
		nullcTerminate(); return r;
	}

	// ---- json
	std::string quote(const std::string &s){ std::string o = "\""; for(unsigned char c : s){ if(c == '"' || c == '\\'){ o += '\\'; o += char(c); } else if(c == '\n') o += "\\n"; else if(c == '\r') o += "\\r"; else if(c == '\t') o += "\\t"; else if(c < 32) o += sim::fmt("\\u%04x", c); else o += char(c); } return o + "\""; }
	std::string text(const rapidjson::Value &v){ rapidjson::StringBuffer b; rapidjson::Writer<rapidjson::StringBuffer> w(b); v.Accept(w); return std::string(b.GetString(), b.GetSize()); }

	// ---- the documents
	struct Span { size_t pos; std::string name; };
	bool nameAt(const std::string &t, size_t i, std::string &name)	// an identifier of the templates: one letter of vfCop and a number
	{
		if(i && (isalnum((unsigned char)t[i - 1]) || t[i - 1] == '_')) return false;
		if(!strchr("vfCop", t[i]) || !t[i]) return false;
		size_t j = i + 1; while(j < t.size() && isdigit((unsigned char)t[j])) j++;
		if(j == i + 1 || (j < t.size() && (isalnum((unsigned char)t[j]) || t[j] == '_'))) return false;
		name = t.substr(i, j - i); return true;
	}
	std::vector<std::pair<size_t, size_t>> lineSpans(const std::string &t)	// begin and end (without the line break) of every line
	{
		std::vector<std::pair<size_t, size_t>> r; size_t b = 0;
		for(size_t i = 0;; i++)
		{
			if(i == t.size()){ r.push_back({ b, i }); break; }
			if(t[i] == '\r'){ r.push_back({ b, i }); if(i + 1 < t.size() && t[i + 1] == '\n') i++; b = i + 1; }
			else if(t[i] == '\n'){ r.push_back({ b, i }); b = i + 1; }
		}
		return r;
	}
	size_t offsetOf(const std::string &t, long long line, long long ch){ auto l = lineSpans(t); if(line >= (long long)l.size()) return t.size(); return std::min(l[size_t(line)].first + size_t(ch), l[size_t(line)].second); }
	std::pair<int, int> positionOf(const std::string &t, size_t off){ auto l = lineSpans(t); for(size_t i = 0; i < l.size(); i++) if(off <= l[i].second) return { int(i), int(off - l[i].first) }; return { int(l.size()) - 1, 0 }; }
	struct Doc { std::string text; bool open = false, known = true; };
	struct Facts { bool valid = true, junk = false, empty = true, odd = false; std::map<std::string, size_t> decl; std::vector<Span> uses; std::set<int> imports; };
	// ---- the state of the server as the model sees it
	struct Model
	{
		std::map<std::string, Doc> docs; std::string root, modules, dflt; bool initialised = false, trace = false, link = false, tree = false, config = false; std::string firstUri;
		static std::string folder(const std::string &uri){ return uri.compare(0, 8, "file:///") == 0 ? uri.substr(8, uri.rfind('/') - 7) : ""; }
		std::string moduleFile(const std::string &uri, int k){ std::vector<std::string> p; if(!root.empty()) p.push_back(root); if(!modules.empty()) p.push_back(modules); if(!dflt.empty()) p.push_back(dflt); std::string d = folder(uri); if(!d.empty()) p.push_back(d); p.insert(p.begin(), ""); for(auto &x : p) if(disk.count(x + sim::fmt("mod%d.nc", k))) return x + sim::fmt("mod%d.nc", k); return ""; }
		Facts facts(const std::string &uri, const std::string &t)
		{
			Facts f; bool code = false; std::set<std::string> have;
			for(auto &sp : lineSpans(t))
			{
				std::string l = t.substr(sp.first, sp.second - sp.first); if(l.empty() || l.compare(0, 2, "//") == 0) continue;
				f.empty = f.empty && l.compare(0, 7, "import ") == 0; if(l.find("@@") != std::string::npos){ f.junk = true; f.valid = false; continue; }
				if(l.compare(0, 10, "import mod") == 0){ int k = atoi(l.c_str() + 10); if(code || moduleFile(uri, k).empty() || f.imports.count(k)) f.valid = false; f.imports.insert(k); have.insert(sim::fmt("p%d", k)); continue; }
				code = true; std::vector<Span> here; { static const char *starts[] = { "int v", "int f", "class C", "for(int i", "if(v" }; bool k = false; for(auto x : starts) if(l.compare(0, strlen(x), x) == 0) k = true; if(strchr("vCo", l[0]) && l.size() > 1 && isdigit((unsigned char)l[1])) k = true; if(!k || (l.back() != ';' && l.back() != '}' && l.find(" // tail") == std::string::npos)) f.odd = true; }
				for(size_t i = sp.first; i < sp.second; i++){ std::string n; if(!nameAt(t, i, n)) continue; here.push_back({ i, n }); i += n.size() - 1; }
				std::string dn, du; size_t skip = ~size_t(0);
				if(l.compare(0, 4, "int ") == 0 || l.compare(0, 6, "class ") == 0) skip = 0; else if(here.size() >= 2 && here[0].pos == sp.first && here[0].name[0] == 'C') skip = 1;
				if(skip != ~size_t(0) && skip < here.size()){ dn = here[skip].name; }
				for(size_t i = 0; i < here.size(); i++){ f.uses.push_back(here[i]); if(i == skip){ if(f.decl.count(dn)) f.valid = false; else f.decl[dn] = here[i].pos; if(dn[0] == 'f' || dn[0] == 'C') have.insert(dn); } else if(!have.count(here[i].name) && !(here[i].name == dn)) f.valid = false; else if(here[i].name == dn && dn[0] == 'v') f.valid = false; }
				if(!dn.empty()) have.insert(dn);
			}
			return f;
		}
	};
	struct Want { int kind; std::string id, uri, method; Facts facts; std::string text; bool known = false, error = false; int code = 0; size_t off = 0; std::string name; bool link = false, tree = false, trace = false; std::string modFile; std::vector<std::string> fresh; };	// kind 0: response, 1: diagnostics, 2: request for configuration
	const char *METHODS[] = { "hover", "definition", "references", "documentHighlight", "documentSymbol", "foldingRange", "completion", "signatureHelp" };
	std::string uriOf(int d){ static const char *u[] = { "file:///w/a.nc", "file:///w/b.nc", "file:///other/c.nc", "untitled:Untitled-1", "file:///disk/d.nc" }; return u[d % 5]; }

	struct World
	{
		const Plan &plan; Model m; std::string stream; std::vector<size_t> ends; std::vector<std::vector<Want>> want; std::vector<std::string> args; u64 nextId = 1; std::vector<std::string> setup; std::string initText; int phase = 0;
		explicit World(const Plan &p): plan(p) {}
		static std::string frame(const std::string &body, int style)
		{
			std::string h = sim::fmt("Content-Length: %zu\r\n", body.size());
			if(style == 1) h += "Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n"; if(style == 2) h = "Content-Type: application/vscode-jsonrpc; charset=utf8\r\n" + h; if(style == 3) h += "X-Extra: 12\r\n";
			return h + "\r\n" + body;
		}
		void send(const std::string &body, int style, std::vector<Want> w = {}){ stream += frame(body, style); ends.push_back(stream.size()); want.push_back(w); sim::step(); }
		std::string newId(int style){ nextId++; return style == 1 ? sim::fmt("\"req-%llu\"", (unsigned long long)nextId) : style == 2 ? sim::fmt("%llu", (unsigned long long)(2147483000u + nextId)) : sim::fmt("%llu", (unsigned long long)nextId - 2); }
		Want diag(const std::string &uri){ Want w; w.kind = 1; w.uri = uri; Doc &d = m.docs[uri]; w.text = d.text; w.known = d.known; w.facts = m.facts(uri, d.text); return w; }
		std::vector<Want> allDiags(){ std::vector<Want> r; for(auto &d : m.docs) if(d.second.open) r.push_back(diag(d.first)); return r; }
		void build()
		{
			for(auto &f : { "w/mod0.nc", "root/Modules/mod1.nc", "dflt/mod2.nc", "other/mod3.nc", "mods/mod4.nc", "root/mod5.nc" }){ int k = f[strlen(f) - 4] - '0'; disk[f] = sim::fmt("// module %d\nint p%d(int x){ return x + %d; }\nint q%d(int y){ return y; }\n", k, k, k, k); }
			disk["disk/d.nc"] = "int v900 = 5;\nint f901(int a, int b){ return a * b + v900; }\nv900 = f901(v900, 3);\n";
			if(plan.get("debug")) args.push_back(plan.get("debug") == 1 ? "--debug" : "-d"), m.trace = true; if(plan.get("full")) args.push_back("--debug_full_messages");
			if(plan.get("dflt")){ m.dflt = "dflt/"; args.push_back(plan.get("dflt") == 1 ? "--module_path=dflt/" : "-mp=dflt/"); }
			int style0 = int(plan.get("hdr"));
			{
				m.link = plan.get("link"); m.tree = plan.get("tree"); m.config = plan.get("config"); std::string root = plan.get("root") == 1 ? "\"file:///root\"" : plan.get("root") == 2 ? "\"file:///root/\"" : plan.get("root") == 3 ? "\"untitled:x\"" : "null";
				std::string p = "{\"processId\":1,\"rootUri\":" + root + ",\"capabilities\":{";
				if(plan.get("caps")) p += sim::fmt("\"workspace\":{\"configuration\":%s},\"textDocument\":{\"definition\":{\"linkSupport\":%s},\"documentSymbol\":{\"hierarchicalDocumentSymbolSupport\":%s}}", m.config ? "true" : "false", m.link ? "true" : "false", m.tree ? "true" : "false"); else m.link = m.tree = m.config = false;
				p += "}}"; if(plan.get("root") == 1 || plan.get("root") == 2){ m.root = "root/"; m.modules = "root/Modules/"; }
				Want w; w.kind = 0; w.id = "0"; w.method = "initialize"; std::vector<Want> ws{ w }; if(m.config){ Want c; c.kind = 2; ws.push_back(c); }
				std::string body = "{\"jsonrpc\":\"2.0\",\"id\":0,\"method\":\"initialize\",\"params\":" + p + "}"; initText = body; send(body, style0, ws);
				send("{\"jsonrpc\":\"2.0\",\"method\":\"initialized\",\"params\":{}}", style0);
			}
			for(auto &o : plan.ops) op(o, style0);
		}
		void touch(const std::string &uri){ if(m.firstUri.empty()){ m.firstUri = uri; } if(m.root.empty() && uri.compare(0, 8, "file:///") == 0){ m.root = uri.substr(8, uri.find_last_of('/') - 8) + "/"; if(m.modules.empty()) m.modules = m.root + "Modules/"; setup.push_back("{\"jsonrpc\":\"2.0\",\"method\":\"textDocument/didOpen\",\"params\":{\"textDocument\":{\"uri\":" + quote(uri) + ",\"languageId\":\"nullc\",\"version\":1,\"text\":\"\"}}}"); } }
		std::string fix(const std::string &s){ if(!plan.get("crlf")) return s; std::string r; for(char c : s){ if(c == '\n') r += '\r'; r += c; } return r; }
		void op(const Op &o, int style)
		{
			std::string uri = uriOf(int(o.arg(0))), q = quote(uri); Doc *d = nullptr; if(o.name != "config" && o.name != "unknown" && o.name != "note" && o.name != "initagain"){ auto i = m.docs.find(uri); if(i != m.docs.end() && i->second.open) d = &i->second; }
			if(o.name == "open")
			{
				if(d || o.arg(0) % 5 == 4) return;
				touch(uri); Doc &n = m.docs[uri]; n.open = true; n.text = fix(o.s); n.known = !o.arg(1);
				send("{\"jsonrpc\":\"2.0\",\"method\":\"textDocument/didOpen\",\"params\":{\"textDocument\":{\"uri\":" + q + ",\"languageId\":\"nullc\",\"version\":1,\"text\":" + quote(n.text) + "}}}", style, { diag(uri) }); sim::probe("open");
			}
			else if(o.name == "close")
			{
				if(!d) return; m.docs.erase(uri); send("{\"jsonrpc\":\"2.0\",\"method\":\"textDocument/didClose\",\"params\":{\"textDocument\":{\"uri\":" + q + "}}}", style); sim::probe("close");
			}
			else if(o.name == "change")	// a: doc, then per change kind, x, y; s: texts separated by '\x1f'
			{
				if(!d) return; std::vector<std::string> parts; std::string cur; for(char c : o.s){ if(c == '\x1f'){ parts.push_back(cur); cur = ""; } else cur += c; } parts.push_back(cur);
				std::string list; size_t np = 0;
				for(size_t i = 1; i + 2 < o.a.size() + 0; i += 3)
				{
					int kind = int(o.a[i]); long long x = o.a[i + 1], y = o.a[i + 2]; std::string t = np < parts.size() ? fix(parts[np]) : ""; np++; auto l = lineSpans(d->text); std::string nl = plan.get("crlf") ? "\r\n" : "\n"; long long l1, c1, l2, c2; bool lossy = false;
					if(kind == 0){ if(!list.empty()) list += ","; list += "{\"text\":" + quote(t) + "}"; d->text = t; d->known = true; sim::probe("change_full"); continue; }
					if(kind == 1){ l1 = l2 = x % (long long)l.size(); c1 = c2 = 0; t += nl; }	// insert lines before a line
					else if(kind == 2){ l1 = x % (long long)l.size(); l2 = l1 + 1; c1 = c2 = 0; t = ""; if(l2 >= (long long)l.size()) c2 = 0, sim::probe("change_at_end"); }	// delete a line, the range may end after the last line
					else if(kind == 3)	// replace a number
					{
						std::vector<std::pair<size_t, size_t>> nums; for(size_t j = 0; j < d->text.size(); j++) if(isdigit((unsigned char)d->text[j]) && (j == 0 || !(isalnum((unsigned char)d->text[j - 1]) || d->text[j - 1] == '_'))){ size_t k = j; while(k < d->text.size() && isdigit((unsigned char)d->text[k])) k++; nums.push_back({ j, k }); j = k; }
						if(nums.empty()) continue; auto n = nums[size_t(x) % nums.size()]; auto a = positionOf(d->text, n.first), b = positionOf(d->text, n.second); l1 = a.first; c1 = a.second; l2 = b.first; c2 = b.second; t = sim::fmt("%lld", y % 100000);
						std::string cl = d->text.substr(l[size_t(l1)].first, l[size_t(l1)].second - l[size_t(l1)].first); bool ascii = true; for(unsigned char c : cl) if(c > 127) ascii = false; if(!ascii) continue; if(cl.compare(0, 2, "//") != 0 && cl.find("mod") == std::string::npos){} 
					}
					else if(kind == 4){ l1 = l2 = (long long)l.size() + x % 3; c1 = c2 = y % 5; if(l.back().first != l.back().second) t = nl + t; sim::probe("change_past_document"); }	// append with a position after the end of the document
					else if(kind == 5){ l1 = 0; c1 = 0; l2 = (long long)l.size() + x % 4; c2 = y % 7; sim::probe("change_whole_range"); d->known = true; }	// replace everything by a range
					else if(kind == 6){ size_t j = size_t(x) % l.size(); l1 = l2 = (long long)j; bool ascii = true; for(size_t b = l[j].first; b < l[j].second; b++) if((unsigned char)d->text[b] > 127) ascii = false; if(!ascii) continue; c1 = c2 = (long long)(l[j].second - l[j].first) + 1 + y % 9; t = " // " + t; if(t.find('\n') != std::string::npos) continue; sim::probe("change_past_line"); }	// a comment after the end of a line
					else { size_t a = size_t(x) % (d->text.size() + 1), b = a + size_t(y) % 12; if(b > d->text.size()) b = d->text.size(); if(a && a < d->text.size() && d->text[a - 1] == '\r' && d->text[a] == '\n') a++; if(b && b < d->text.size() && d->text[b - 1] == '\r' && d->text[b] == '\n') b++; if(b < a) b = a; auto pa = positionOf(d->text, a), pb = positionOf(d->text, b); l1 = pa.first; c1 = pa.second; l2 = pb.first; c2 = pb.second; for(unsigned char c : d->text) if(c > 127) lossy = true; if(lossy) continue; d->known = false; sim::probe("change_chaos"); }
					size_t a = offsetOf(d->text, l1, c1), b = offsetOf(d->text, l2, c2); d->text.replace(a, b - a, t);
					if(!list.empty()) list += ",";
					list += sim::fmt("{\"range\":{\"start\":{\"line\":%lld,\"character\":%lld},\"end\":{\"line\":%lld,\"character\":%lld}},\"text\":", l1, c1, l2, c2) + quote(t) + "}"; sim::probe("change_range");
				}
				if(list.empty()) return;
				send("{\"jsonrpc\":\"2.0\",\"method\":\"textDocument/didChange\",\"params\":{\"textDocument\":{\"uri\":" + q + ",\"version\":2},\"contentChanges\":[" + list + "]}}", style, { diag(uri) });
			}
			else if(o.name == "query")	// a: doc, method, token (or -1), x, y, id style
			{
				int me = int(o.arg(1)) % 8; Want w; w.kind = 0; w.id = newId(int(o.arg(5))); w.method = METHODS[me]; w.uri = uri; w.link = m.link; w.tree = m.tree; w.trace = m.trace; std::string body; long long line = o.arg(3) % 40, ch = o.arg(4) % 40;
				bool direct = !d && disk.count(uri.compare(0, 8, "file:///") == 0 ? uri.substr(8) : std::string("?"));
				if(!d && !direct){ w.error = true; w.code = -32602; sim::probe("query_no_document"); }
				else
				{
					std::string t = d ? d->text : disk[uri.substr(8)]; w.text = t; w.known = d ? d->known : true; w.facts = m.facts(uri, t); if(direct) sim::probe("query_direct_file");
					if(w.known && !w.facts.uses.empty() && o.arg(2) >= 0){ auto &u = w.facts.uses[size_t(o.arg(2)) % w.facts.uses.size()]; w.name = u.name; w.off = u.pos; auto p = positionOf(t, u.pos + size_t(o.arg(3)) % u.name.size()); line = p.first; ch = p.second; if(me == 7){ size_t k = t.find('(', u.pos); auto pl = positionOf(t, u.pos); if(k == u.pos + u.name.size() && (u.name[0] == 'f' || u.name[0] == 'p') && w.facts.decl.count(u.name) && w.facts.decl[u.name] != u.pos){ ch = pl.second + int(u.name.size()) + 1; } else w.name = ""; } if(!w.name.empty() && w.name[0] == 'p') { w.modFile = m.moduleFile(uri, atoi(w.name.c_str() + 1)); std::string f = sim::fmt("mod%d.nc", atoi(w.name.c_str() + 1)); if(w.modFile != m.root + f && w.modFile != m.modules + f && w.modFile != m.dflt + f) w.modFile = ""; } }
					// the same question to a server that only ever saw this text
					w.fresh = setup; w.fresh.insert(w.fresh.begin(), initText); if(d) w.fresh.push_back("{\"jsonrpc\":\"2.0\",\"method\":\"textDocument/didOpen\",\"params\":{\"textDocument\":{\"uri\":" + q + ",\"languageId\":\"nullc\",\"version\":1,\"text\":" + quote(t) + "}}}");
				}
				std::string p = "{\"textDocument\":{\"uri\":" + q + "}"; if(me != 4 && me != 5) p += sim::fmt(",\"position\":{\"line\":%lld,\"character\":%lld}", line, ch); if(me == 2) p += ",\"context\":{\"includeDeclaration\":true}"; if(me == 6 && o.arg(6)) p += o.arg(6) == 1 ? ",\"context\":{\"triggerKind\":1}" : ",\"context\":{\"triggerKind\":2,\"triggerCharacter\":\".\"}"; if(me == 7 && o.arg(6) == 1) p += ",\"context\":{\"triggerKind\":1,\"isRetrigger\":false}";
				body = std::string("{\"jsonrpc\":\"2.0\",\"id\":") + w.id + ",\"method\":\"textDocument/" + METHODS[me] + "\",\"params\":" + p + "}}"; if(!w.error) w.fresh.push_back(std::string("{\"jsonrpc\":\"2.0\",\"id\":77,\"method\":\"textDocument/") + METHODS[me] + "\",\"params\":" + p + "}}"); send(body, style, { w }); sim::probe(METHODS[me]);
			}
			else if(o.name == "unknown"){ static const char *names[] = { "shutdown", "textDocument/rename", "workspace/symbol", "textDocument/hoverx", "$/custom" }; Want w; w.kind = 0; w.id = newId(int(o.arg(1))); w.error = true; w.code = -32601; w.method = names[o.arg(0) % 5]; send("{\"jsonrpc\":\"2.0\",\"id\":" + w.id + ",\"method\":\"" + w.method + "\"" + (o.arg(2) ? ",\"params\":{\"query\":\"x\"}" : "") + "}", style, { w }); sim::probe("unknown_request"); }
			else if(o.name == "note"){ static const char *names[] = { "textDocument/didSave", "workspace/didChangeConfiguration", "$/cancelRequest", "$/setTraceNotification", "textDocument/unknown" }; send(std::string("{\"jsonrpc\":\"2.0\",\"method\":\"") + names[o.arg(0) % 5] + "\",\"params\":" + (o.arg(0) % 5 == 2 ? "{\"id\":1}" : o.arg(0) % 5 == 1 ? "{\"settings\":{}}" : "{\"textDocument\":{\"uri\":\"file:///w/a.nc\"}}") + "}", style); sim::probe("other_notification"); }
			else if(o.name == "config")
			{
				std::string item; bool restart = false; std::string was = m.modules;
				if(o.arg(0) == 0) item = "{\"trace\":{\"server\":\"off\"}}", m.trace = false; else if(o.arg(0) == 1) item = "{\"trace\":{\"server\":\"info\"}}", m.trace = false; else if(o.arg(0) == 2) item = "{\"trace\":{\"server\":\"debug\"}}", m.trace = true;
				else if(o.arg(0) == 3){ item = "{\"module_path\":\"mods\"}"; m.modules = "mods/"; restart = true; } else if(o.arg(0) == 4){ item = "{\"module_path\":\"root/Modules/\",\"trace\":{\"server\":\"off\"}}"; m.modules = "root/Modules/"; m.trace = false; restart = true; } else if(o.arg(0) == 5) item = "null"; else if(o.arg(0) == 6) item = "{\"module_path\":\"\"}"; else if(o.arg(0) == 7) item = "{\"trace\":\"verbose\"}"; else item = "";
				std::string body = o.arg(0) == 9 ? "{\"jsonrpc\":\"2.0\",\"id\":\"server.configuration\",\"error\":{\"code\":-32601,\"message\":\"no\"}}" : o.arg(0) == 10 ? "{\"jsonrpc\":\"2.0\",\"id\":\"server.configuration\",\"result\":null}" : "{\"jsonrpc\":\"2.0\",\"id\":\"server.configuration\",\"result\":[" + item + "]}";
				if(o.arg(0) < 9) setup.push_back(body); send(body, style, restart ? allDiags() : std::vector<Want>()); sim::probe(o.arg(0) == 9 ? "config_refused" : restart ? "config_restart" : "config");
			}
		}
		// ---- checks
		static std::vector<std::string> split(const std::string &out, size_t &good)
		{
			std::vector<std::string> r; size_t i = 0; good = 0;
			while(i < out.size()){ const char *h = "Content-Length: "; if(out.compare(i, strlen(h), h) != 0) break; size_t j = i + strlen(h), n = 0; size_t k = j; while(k < out.size() && isdigit((unsigned char)out[k])) n = n * 10 + size_t(out[k++] - '0'); if(k == j || out.compare(k, 4, "\r\n\r\n") != 0 || k + 4 + n > out.size()) break; r.push_back(out.substr(k + 4, n)); i = k + 4 + n; good = i; }
			return r;
		}
		static std::string brief(const std::string &s, size_t n = 700){ return s.size() > n ? s.substr(0, n) + "..." : s; }
		[[noreturn]] void bad(const char *cls, const Want &w, const std::string &got, const std::string &what){ sim::fail(std::string("lang:") + cls + ":" + w.method, what + "\nmethod " + (w.kind == 1 ? "publishDiagnostics" : w.method) + ", document " + w.uri + (w.name.empty() ? "" : ", at '" + w.name + "'") + "\ngot: " + brief(got) + "\ntext:\n" + brief(w.text, 1500)); }
		bool rangeStart(const rapidjson::Value &v, int &l, int &c){ if(!v.IsObject() || !v.HasMember("start")) return false; l = v["start"]["line"].GetInt(); c = v["start"]["character"].GetInt(); return true; }
		void semantic(const Want &w, const rapidjson::Value &res, const std::string &got)
		{
			if(!w.known || !w.facts.valid || w.facts.empty || w.facts.odd) return;
			std::string method = w.method; const Facts &f = w.facts; char kind = w.name.empty() ? 0 : w.name[0];
			std::vector<std::pair<int, int>> occ; if(kind) for(auto &u : f.uses) if(u.name == w.name) occ.push_back(positionOf(w.text, u.pos)); std::sort(occ.begin(), occ.end());
			bool isDecl = kind && f.decl.count(w.name) && f.decl.at(w.name) == w.off;
			if(kind == 'C' && isDecl && (method == "hover" || method == "definition")) return;
			if(method == "hover" && kind)
			{
				if(!res.IsObject() || !res.HasMember("contents")) bad("hover-missing", w, got, "no answer at an identifier of a correct document");
				std::string v = text(res["contents"]); if(v.find(w.name) == std::string::npos) bad("hover-wrong", w, got, "the answer does not name the identifier");
				sim::probe("checked_hover");
			}
			else if(method == "definition" && kind && !(kind == 'p' && w.modFile.empty()))
			{
				if(!res.IsArray() || res.Size() != 1) bad("definition-missing", w, got, "expected exactly one definition");
				const rapidjson::Value &e = res[0u]; std::string u = e.HasMember("targetUri") ? e["targetUri"].GetString() : e.HasMember("uri") ? e["uri"].GetString() : ""; const rapidjson::Value &r = e.HasMember("targetSelectionRange") ? e["targetSelectionRange"] : e["range"]; int l = -1, c = -1; rangeStart(r, l, c);
				if(w.link != e.HasMember("targetUri")) bad("definition-form", w, got, "the form of the answer is not the one the client asked for");
				if(kind == 'p'){ std::string dec; for(size_t i = 0; i < u.size(); i++){ if(u[i] == '%' && i + 2 < u.size()){ dec += char(strtoul(u.substr(i + 1, 2).c_str(), nullptr, 16)); i += 2; } else dec += u[i]; } if(dec != "file:///" + w.modFile || l != 1 || c != 4) bad("definition-wrong", w, got, "the function is declared at 1:4 of " + w.modFile); }
				else { auto p = positionOf(w.text, f.decl.at(w.name)); if(u != w.uri || l != p.first || c != p.second) bad("definition-wrong", w, got, sim::fmt("it is declared at %d:%d of this document", p.first, p.second)); }
				sim::probe("checked_definition");
			}
			else if((method == "references" || method == "documentHighlight") && (kind == 'v' || kind == 'f' || kind == 'o' || kind == 'p'))
			{
				std::vector<std::pair<int, int>> r; if(res.IsArray()) for(auto &e : res.GetArray()){ int l = -1, c = -1; rangeStart(e["range"], l, c); r.push_back({ l, c }); if(e.HasMember("uri") && w.uri != e["uri"].GetString()) bad("references-uri", w, got, "a reference in another document"); }
				std::sort(r.begin(), r.end()); auto all = r; r.erase(std::unique(r.begin(), r.end()), r.end()); if(r != occ){ std::string x = "the occurrences are"; for(auto &p : occ) x += sim::fmt(" %d:%d", p.first, p.second); bad("references-wrong", w, got, x); }
				sim::probe("checked_references");
			}
			else if(method == "documentSymbol")
			{
				if(!res.IsArray()) bad("symbols-missing", w, got, "no list"); std::set<std::string> a, b; for(auto &e : res.GetArray()){ a.insert(e["name"].GetString()); if(e.HasMember("location") == w.tree) bad("symbols-form", w, got, "the form of the answer is not the one the client asked for"); }
				for(auto &d : f.decl) if(d.first[0] == 'f' || d.first[0] == 'C') b.insert(d.first);
				for(auto &n : b) if(!a.count(n)) bad("symbols-missing", w, got, n + " is not listed"); for(auto &n : a) if(!b.count(n) && isalpha((unsigned char)n[0]) && strchr("fCvo", n[0]) && n.size() > 1 && isdigit((unsigned char)n[1])) bad("symbols-extra", w, got, n + " is listed and is not in the document"); sim::probe("checked_symbols");
			}
			else if(method == "signatureHelp" && !w.name.empty())
			{
				if(!res.IsObject() || !res.HasMember("signatures") || res["signatures"].Size() < 1) bad("signature-missing", w, got, "no signature inside the arguments of a call"); bool found = false; for(auto &e : res["signatures"].GetArray()) if(std::string(e["label"].GetString()).find(" " + w.name + "(") != std::string::npos) found = true; if(!found) bad("signature-wrong", w, got, "no signature of the called function"); sim::probe("checked_signature");
			}
			(void)isDecl;
		}
		void match(const Want &w, const std::string &got)
		{
			rapidjson::Document d; d.Parse(got.c_str(), got.size()); if(d.HasParseError() || !d.IsObject()) bad("not-json", w, got, "the server sent something that is not a JSON object");
			if(!d.HasMember("jsonrpc")) bad("form", w, got, "no jsonrpc member");
			if(w.kind == 2){ if(!d.HasMember("method") || std::string("workspace/configuration") != d["method"].GetString()) bad("order", w, got, "expected the request for the configuration"); return; }
			if(w.kind == 1)
			{
				if(!d.HasMember("method") || std::string("textDocument/publishDiagnostics") != d["method"].GetString() || d.HasMember("id")) bad("order", w, got, "expected diagnostics of a document");
				if(std::string(d["params"]["uri"].GetString()) != w.uri) bad("diagnostics-uri", w, got, "diagnostics of another document than the one opened or changed");
				const rapidjson::Value &l = d["params"]["diagnostics"]; if(w.known && w.facts.odd) return; if(w.known && w.facts.empty){ sim::probe("diagnosed_empty"); return; } if(w.known && w.facts.valid && l.Size()) bad("diagnostics-extra", w, got, "errors are reported in a correct document"); if(w.known && !w.facts.valid && !l.Size()) bad("diagnostics-missing", w, got, "no error is reported in an incorrect document"); sim::probe(w.known ? w.facts.valid ? "diagnosed_valid" : "diagnosed_invalid" : "diagnosed_chaos"); sim::state(hashStr(got) & 0xffff); return;
			}
			if(!d.HasMember("id") || text(d["id"]) != w.id) bad("order", w, got, "expected the response to request " + w.id);
			if(d.HasMember("method")) bad("form", w, got, "a response with a method"); if(d.HasMember("result") == d.HasMember("error")) bad("form", w, got, "a response needs either a result or an error");
			if(d.HasMember("error") != w.error) bad(w.error ? "error-missing" : "error-unexpected", w, got, w.error ? "expected an error" : "unexpected error");
			if(w.error){ if(d["error"]["code"].GetInt() != w.code) bad("error-code", w, got, sim::fmt("expected error %d", w.code)); return; }
			semantic(w, d["result"], got);
		}
		std::string payload(const std::string &got){ rapidjson::Document d; d.Parse(got.c_str(), got.size()); if(d.HasParseError()) return got; return d.HasMember("result") ? "result " + text(d["result"]) : d.HasMember("error") ? "error " + text(d["error"]) : got; }
		void run()
		{
			build(); sim::nontrivial(); Result r = serve(args, stream, plan.seed, int(plan.get("split", 3))); sim::log("%zu bytes in, %zu bytes out, %d", stream.size(), r.out.size(), r.rc); sim::log("out %016llx", (unsigned long long)hashStr(r.out));
			size_t good; auto msgs = split(r.out, good); if(good != r.out.size()) sim::fail("lang:framing", "what the server wrote is not a sequence of framed messages from byte " + sim::fmt("%zu", good) + ":\n" + brief(r.out.substr(good)));
			std::vector<const Want*> all; for(auto &w : want) for(auto &x : w) all.push_back(&x);
			for(size_t i = 0; i < std::min(all.size(), msgs.size()); i++) match(*all[i], msgs[i]);
			if(msgs.size() < all.size()) bad("unanswered", *all[msgs.size()], brief(r.err.size() > 600 ? r.err.substr(r.err.size() - 600) : r.err), sim::fmt("%zu messages were expected from the server and %zu came", all.size(), msgs.size())); if(msgs.size() > all.size()) sim::fail("lang:extra", sim::fmt("%zu messages were expected from the server and %zu came, the first extra one is ", all.size(), msgs.size()) + brief(msgs[all.size()]));
			if(r.rc != 0) sim::fail("lang:exit", sim::fmt("exit code %d after the end of the input\n", r.rc) + brief(r.err));
			std::vector<size_t> outEnd; { size_t p = 0; for(auto &x : msgs){ p += x.size() + sim::fmt("Content-Length: %zu\r\n\r\n", x.size()).size(); outEnd.push_back(p); } }
			// the same stream in one piece
			{ Result s = serve(args, stream, 1, 0); if(s.out != r.out){ size_t i = 0; while(i < s.out.size() && i < r.out.size() && s.out[i] == r.out[i]) i++; sim::fail("lang:fragmentation", sim::fmt("the same stream, delivered in other pieces, gave other output from byte %zu on", i)); } }
			// the stream cut short
			for(int c = 0; c < 3; c++)
			{
				std::string key = sim::fmt("cut%d", c); if(!plan.cfg.count(key)) continue; size_t cut = size_t(plan.get(key.c_str())) % (stream.size() + 1); int where = int(plan.get((key + "w").c_str())); if(where && !ends.empty()){ size_t i = size_t(plan.get(key.c_str())) % ends.size(); size_t b = i ? ends[i - 1] : 0; size_t h = stream.find("\r\n\r\n", b); cut = where == 1 ? h + size_t(where ? plan.get(key.c_str()) / 7 % 5 : 0) : where == 2 ? ends[i] - 1 - size_t(plan.get(key.c_str()) / 11) % 3 : b + 1 + size_t(plan.get(key.c_str()) / 13) % 20; if(cut > stream.size()) cut = stream.size(); }
				size_t complete = 0; while(complete < ends.size() && ends[complete] <= cut) complete++; size_t n = 0; for(size_t i = 0; i < complete; i++) n += want[i].size(); std::string expect = r.out.substr(0, n ? outEnd[n - 1] : 0);
				Result s = serve(args, stream.substr(0, cut), plan.seed + u64(c), int(plan.get("split", 3))); sim::fault(cut == stream.size() || (complete && ends[complete - 1] == cut) ? "input_ends_between_messages" : "input_ends_inside_message"); sim::log("cut %zu: %zu bytes out, %d", cut, s.out.size(), s.rc);
				if(s.out != expect) sim::fail("lang:truncation", sim::fmt("the input ends at byte %zu, after %zu complete messages; the server wrote %s than the answers to those messages\n", cut, complete, s.out.size() > expect.size() ? "more" : "other or less") + "the input ends with: " + brief(stream.substr(cut > 120 ? cut - 120 : 0, std::min<size_t>(cut, 120))) + "\noutput from there: " + brief(s.out.size() > expect.size() ? s.out.substr(expect.size()) : s.out));
				if(s.rc != 0) sim::fail("lang:truncation-exit", sim::fmt("the input ends at byte %zu, after %zu complete messages, and the server reports exit code %d\n", cut, complete, s.rc) + "the input ends with: " + brief(stream.substr(cut > 120 ? cut - 120 : 0, std::min<size_t>(cut, 120))) + "\n" + brief(s.err.size() > 300 ? s.err.substr(s.err.size() - 300) : s.err));
			}
			// the same questions to fresh servers
			Rng pick(plan.seed ^ 0x5151); std::vector<size_t> qs; for(size_t i = 0; i < all.size(); i++) if(all[i]->kind == 0 && !all[i]->fresh.empty()) qs.push_back(i);
			for(int k = 0; k < int(plan.get("fresh", 2)) && !qs.empty(); k++)
			{
				size_t i = qs[pick.below(u32(qs.size()))]; const Want &w = *all[i]; std::string st; for(auto &b : w.fresh) st += frame(b, 0); Result s = serve(args, st, 1, 0); auto fm = split(s.out, good); if(fm.empty()) sim::fail("lang:fresh", "a fresh server gives no answer:\n" + brief(s.err)); std::string a = payload(msgs[i]), b = payload(fm.back()); sim::probe("compared_with_fresh_server"); sim::log("fresh %zu", i);
				if(a != b) bad("history", w, brief(a) + "\na server that was only given this text: " + brief(b), "the answer depends on what happened before");
			}
		}
	};
	// ---- generation
	struct Gen
	{
		Rng &r; int n = 0; std::vector<int> vs, fs, cs, os, ps; explicit Gen(Rng &g): r(g) {}
		int any(std::vector<int> &v, int d){ return v.empty() ? d : v[r.below(u32(v.size()))]; }
		std::string value(){ switch(r.below(4)){ case 0: if(!vs.empty()) return sim::fmt("v%d", any(vs, 0)); break; case 1: if(!fs.empty()) return sim::fmt("f%d(%d, %s)", any(fs, 0), r.range(0, 99), vs.empty() ? "1" : sim::fmt("v%d", any(vs, 0)).c_str()); break; case 2: if(!ps.empty()) return sim::fmt("p%d(%d)", any(ps, 0), r.range(0, 9)); break; } return sim::fmt("%d", r.range(0, 9999)); }
		std::string line(bool wide)
		{
			int id = ++n;
			switch(r.below(12))
			{
			case 0: case 1: { std::string t = sim::fmt("int v%d = ", id) + value() + ";"; vs.push_back(id); return t; }
			case 2: { std::string t = sim::fmt("int f%d(int a, int b){ return a + b * ", id) + value() + "; }"; fs.push_back(id); return t; }
			case 3: if(!vs.empty()) return sim::fmt("v%d = ", any(vs, 0)) + value() + " + " + value() + ";"; break;
			case 4: { std::string t = sim::fmt("class C%d{ int m; int k; }", id); cs.push_back(id); return t; }
			case 5: if(!cs.empty()){ std::string t = sim::fmt("C%d o%d;", any(cs, 0), id); os.push_back(id); return t; } break;
			case 6: if(!os.empty()) return sim::fmt("o%d.m = ", any(os, 0)) + value() + ";"; break;
			case 7: if(!vs.empty()) return sim::fmt("for(int i = 0; i < %d; i++){ v%d += ", r.range(1, 9), any(vs, 0)) + value() + "; }"; break;
			case 8: if(!vs.empty()) return sim::fmt("if(v%d > %d){ v%d = ", any(vs, 0), r.range(0, 50), any(vs, 0)) + value() + "; }"; break;
			case 9: return wide ? "// comment \xc3\xbc\xc3\xb1\xe2\x82\xac " + sim::fmt("%d", r.range(0, 99)) : sim::fmt("// comment %d", r.range(0, 99));
			case 10: return "";
			}
			std::string t = sim::fmt("int v%d = %d;", id, r.range(0, 500)); vs.push_back(id); return t;
		}
		std::string document(int lines, bool wide, bool imports)
		{
			std::string t; vs.clear(); fs.clear(); cs.clear(); os.clear(); ps.clear(); if(imports) for(int k = 0; k < 6; k++) if(r.chance(1, 4)){ t += sim::fmt("import mod%d;\n", k); if(r.coin()) ps.push_back(k); }
			for(int i = 0; i < lines; i++) t += line(wide) + (i + 1 < lines || r.coin() ? "\n" : ""); return t;
		}
		std::string chaos()
		{
			static const char *f[] = { "{", "}", "(", ")", ";", "int", "class X", "\"", "'", "/*", "*/", "v1", "f2(", ".", "import mod0;", "@", "typeof(", "<", ">", "auto", "return", "\n", "if(", "for(", "generic", "yield", "coroutine", "0x", "1e", "[", "]", "new ", ".a", "ref", "operator", "namespace N{", "enum E{ A, B }", "else", "while(1)", "=", "+", "&&", "->", "?:", "*", "&", "//", ",", "int f(int a = ", "class G<T>{ T x; }", "switch", "case 1:", "do", "break", "in", "int[4] x", "const", "sizeof(", "extendable", "finalizable", "explicit", "<x>{ x; }", "list", "null", "nullptr", "assert(", "@if(1)", "operator[]", "int ref(int)", "x => x", "..." };
			std::string t; int n = r.range(1, 4); for(int i = 0; i < n; i++){ t += f[r.below(sizeof(f) / sizeof(f[0]))]; if(r.coin()) t += " "; } return t;
		}
	};
	void generate(Rng &r, Plan &p, int tier)
	{
		Gen g(r); bool wide = r.chance(1, 5), imports = r.coin(); bool chaosOn = r.chance(1, 2); int style = r.chance(1, 4) ? r.range(1, 3) : 0; p.cfg["hdr"] = style; p.cfg["split"] = r.range(0, 3); p.cfg["crlf"] = r.chance(1, 3); p.cfg["root"] = r.below(4); p.cfg["caps"] = r.chance(4, 5); p.cfg["config"] = r.coin(); p.cfg["link"] = r.coin(); p.cfg["tree"] = r.coin(); p.cfg["dflt"] = r.below(3); p.cfg["debug"] = r.chance(1, 6) ? r.range(1, 2) : 0; p.cfg["full"] = r.chance(1, 10);
		for(int c = 0; c < 3; c++) if(r.chance(3, 4)){ p.cfg[sim::fmt("cut%d", c)] = (long long)(r.next() % 100000); p.cfg[sim::fmt("cut%dw", c)] = r.below(4); }
		int n = r.range(3, tier ? 40 : 24); bool opened[5] = {}; std::map<int, Gen> memory;
		for(int i = 0; i < n; i++)
		{
			int d = r.chance(2, 3) ? 0 : r.range(0, 4); u32 k = r.below(100);
			if(!opened[d] && k < 60 && d != 4){ Gen &m = memory.emplace(d, g).first->second; m.n = d * 200; if(r.chance(1, 8)){ p.ops.push_back(Op("open", { d, 1 }, m.chaos() + m.chaos())); } else p.ops.push_back(Op("open", { d, 0 }, m.document(r.range(0, 10), wide, imports))); opened[d] = true; continue; }
			Gen &m = memory.emplace(d, g).first->second;
			if(k < 30)
			{
				Op o("change", { d }); int c = r.chance(1, 4) ? r.range(2, 4) : 1;
				for(int j = 0; j < c; j++)
				{
					int kind; std::string t; u32 z = r.below(20); if(z < 2) kind = 0, t = m.document(r.range(0, 8), wide, imports); else if(z < 7) kind = 1, t = r.chance(1, 12) ? "int z@@ = 5;" : m.line(wide) + (r.chance(1, 4) ? "\n" + m.line(wide) : ""); else if(z < 10) kind = 2; else if(z < 13) kind = 3; else if(z < 15) kind = 4, t = m.line(wide); else if(z < 16) kind = 5, t = m.document(r.range(0, 6), wide, imports); else if(z < 17) kind = 6, t = "tail"; else { if(!chaosOn){ kind = 3; } else { kind = 7; t = r.chance(1, 4) ? "" : m.chaos(); } }
					o.a.push_back(kind); o.a.push_back(r.below(1000)); o.a.push_back(r.below(10000)); o.s += (j ? "\x1f" : "") + t;
				}
				p.ops.push_back(o);
			}
			else if(k < 80) p.ops.push_back(Op("query", { d, (long long)r.below(8), r.chance(1, 4) ? -1 : (long long)r.below(200), (long long)r.below(40), (long long)r.below(40), (long long)r.below(3), (long long)r.below(3) }));
			else if(k < 84){ p.ops.push_back(Op("close", { d })); opened[d] = false; }
			else if(k < 88) p.ops.push_back(Op("unknown", { (long long)r.below(5), (long long)r.below(3), (long long)r.below(2) }));
			else if(k < 91) p.ops.push_back(Op("note", { (long long)r.below(5) }));
			else if(p.cfg["config"] && p.cfg["caps"]) p.ops.push_back(Op("config", { (long long)r.below(11) }));
		}
	}
	void execute(const Plan &p){ World w(p); w.run(); }
	std::string describe(const Plan &p){ World w(p); w.build(); std::string s = "arguments:"; for(auto &a : w.args) s += " " + a; s += "\nthe input stream:\n"; std::string st = w.stream; for(char c : st) if(c != '\r') s += c; return s; }
	void warm(){}
	RegisterProperty prop({ "C17", "the language server: one input stream in seeded pieces, ended at seeded bytes, over a simulated disk; every answer checked against a model of the protocol and the documents, and against fresh servers", warm, generate, execute, describe, 12000, 150000, 45, 600,
		"one response per complete request, in order; diagnostics after every open and change and after a restart of the engine; a truncated stream gives the answers to its complete messages; the answers are those of a server that only saw the current text; for texts the model understands: validity, hover, definition, references, symbols, signatures",
		"the language server (main.cpp, handler.cpp, rapidjson), the compiler, the binary cache", "standard input, output and error (in-process streams), the file system (simulated disk)" });
}
