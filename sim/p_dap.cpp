// C16: the debug adapter as a whole, run in process. Its threads, mutexes and condition variables are fibers on a seeded scheduler (fiber.cpp), its input and output are in-process
// streams to a simulated client, its files are a simulated disk. The client answers every stop; the program is one whose every executed line the model predicts.
#include "sim.h"
#include "fiber.h"
#include <iostream>
#include <streambuf>
#include <algorithm>
#include <set>
#include <exception>
#include <dirent.h>
#include "rapidjson/document.h"
#include "rapidjson/stringbuffer.h"
#include "rapidjson/writer.h"
#include "../NULLC/nullc.h"
extern "C" int da_main(int argc, char **argv);
extern std::map<std::string, std::string> simLangDisk; extern bool simLangDiskOn;
namespace
{
	// ---- the wires
	std::string toServer; size_t readPos = 0; bool inputClosed = false; Rng wireRng(1); int wireMode = 0;
	std::string fromServer, diagnostics; size_t parsed = 0;
	struct Input: std::streambuf
	{
		std::string piece;
		int_type underflow() override
		{
			fib::block([]{ return readPos < toServer.size() || inputClosed; }, fib::IN, "waits for input"); if(readPos >= toServer.size()) return traits_type::eof();
			size_t n = toServer.size() - readPos; if(wireMode == 1) n = 1; else if(wireMode == 2) n = std::min<size_t>(n, 1 + wireRng.below(60)); piece = toServer.substr(readPos, n); readPos += n; setg(&piece[0], &piece[0], &piece[0] + n); return traits_type::to_int_type(*gptr());
		}
	};
	struct Output: std::streambuf { int_type overflow(int_type c) override { if(c != traits_type::eof()) fromServer += char(c); fib::point(fib::OUT); return c; } std::streamsize xsputn(const char *s, std::streamsize n) override { fromServer.append(s, size_t(n)); fib::point(fib::OUT); return n; } };
	ssize_t cookieWrite(void *c, const char *b, size_t n){ std::string &s = *(std::string*)c; if(s.size() < 16u << 20) s.append(b, n); return ssize_t(n); }
	FILE* outFile(std::string *s){ cookie_io_functions_t f = { nullptr, cookieWrite, nullptr, nullptr }; return fopencookie(s, "w", f); }
}
extern "C"
{
	int sim_dap_fprintf(FILE *f, const char *format, ...){ va_list a; va_start(a, format); int r = vfprintf(f, format, a); va_end(a); fib::point(fib::OUT); return r; }
	size_t sim_dap_fwrite(const void *p, size_t n, size_t k, FILE *f){ size_t r = fwrite(p, n, k, f); fib::point(fib::OUT); return r; }
	int sim_dap_fputs(const char *s, FILE *f){ int r = fputs(s, f); fib::point(fib::OUT); return r; }
	int sim_dap_fflush(FILE *f){ int r = fflush(f); fib::point(fib::OUT); return r; }
}
namespace
{
	std::string quote(const std::string &s){ std::string o = "\""; for(unsigned char c : s){ if(c == '"' || c == '\\'){ o += '\\'; o += char(c); } else if(c == '\n') o += "\\n"; else if(c == '\r') o += "\\r"; else if(c == '\t') o += "\\t"; else if(c < 32) o += sim::fmt("\\u%04x", c); else o += char(c); } return o + "\""; }
	std::string brief(const std::string &s, size_t n = 900){ return s.size() <= n ? s : s.substr(0, n) + "..."; }

	// ---- the program under the debugger: straight lines, loops of known length and functions; every line it executes is known in advance
	struct Expr { int kind = 0, op = 0; std::string a, b; int fn = -1; };	// 0: a op b, 1: fn(a), 2: fn(a) op b
	struct Stmt { enum K { SET, ADD, PRINT, TEXT, LOOP, ENDLOOP, RET, FAIL, HEAD, END, CALL } k; std::string var; Expr e; int n = 0; int line = 0; bool decl = false; std::string text; };
	struct Fn { std::string name, param; std::vector<Stmt> body; int first = 0, last = 0; };
	struct Pos { int line = 0, depth = 0; bool ret = false; std::string fn; std::map<std::string, int> locals, globals; };
	struct Program
	{
		std::vector<std::string> text; std::vector<Fn> fns; std::vector<Stmt> top; std::vector<int> lines; bool fails = false; int probe = 0;
		std::vector<Pos> trace; std::string out; bool failed = false; std::string result;
		std::map<std::string, int> globals; int probeLine = 0, probePrint = 0;
		static std::string show(const Expr &e, const std::vector<Fn> &f){ static const char *o[] = { " + ", " - ", " * " }; if(e.kind == 0) return e.a + o[e.op] + e.b; std::string c = f[size_t(e.fn)].name + "(" + e.a + ")"; return e.kind == 1 ? c : c + o[e.op] + e.b; }
		void emit(Stmt &s, const std::string &t){ text.push_back(t); s.line = int(text.size()); s.text = t; }
		Expr expr(Rng &r, const std::vector<std::string> &vars, int maxFn)
		{
			Expr e; auto atom = [&]{ return vars.empty() || r.chance(1, 3) ? sim::fmt("%d", r.range(0, 40)) : vars[r.below(u32(vars.size()))]; };
			e.a = atom(); e.b = atom(); e.op = int(r.below(3)); if(maxFn > 0 && r.chance(2, 5)){ e.kind = r.range(1, 2); e.fn = int(r.below(u32(maxFn))); } return e;
		}
		void body(Rng &r, std::vector<Stmt> &out, std::vector<std::string> vars, std::vector<std::string> assignable, int n, int maxFn, int &names, bool inLoop, const char *prefix)
		{
			for(int i = 0; i < n; i++)
			{
				Stmt s; u32 k = r.below(12);
				if(k < 4){ s.k = Stmt::SET; s.decl = !inLoop; s.e = expr(r, vars, maxFn); if(inLoop){ if(assignable.empty()) continue; s.var = assignable[r.below(u32(assignable.size()))]; emit(s, s.var + " = " + show(s.e, fns) + ";"); } else { s.var = sim::fmt("%s%d", prefix, names++); emit(s, "int " + s.var + " = " + show(s.e, fns) + ";"); vars.push_back(s.var); assignable.push_back(s.var); } out.push_back(s); }
				else if(k < 7 && !assignable.empty()){ s.k = Stmt::ADD; s.var = assignable[r.below(u32(assignable.size()))]; s.e = expr(r, vars, maxFn); emit(s, s.var + " += " + show(s.e, fns) + ";"); out.push_back(s); }
				else if(k < 9){ s.k = Stmt::PRINT; s.e = expr(r, vars, maxFn); emit(s, "Print(" + show(s.e, fns) + ", 10);"); out.push_back(s); }
				else if(k < 10){ s.k = Stmt::TEXT; s.var = sim::fmt("t%d \\\"q\\\" %d ", int(text.size()), r.range(0, 9)); emit(s, "Print(\"" + s.var + "\");"); out.push_back(s); }
				else if(k < 11 && !inLoop)
				{
					s.k = Stmt::LOOP; s.n = r.range(1, 3); std::string v = sim::fmt("i%d", int(text.size())); emit(s, "for(int " + v + " = 0; " + v + sim::fmt(" < %d; ", s.n) + v + "++){"); out.push_back(s);
					body(r, out, vars, assignable, r.range(1, 2), maxFn, names, true, prefix); Stmt e; e.k = Stmt::ENDLOOP; emit(e, "}"); out.push_back(e);
				}
				else if(maxFn > 0){ s.k = Stmt::CALL; s.e = expr(r, vars, maxFn); s.e.kind = 1; if(s.e.fn < 0) s.e.fn = int(r.below(u32(maxFn))); emit(s, fns[size_t(s.e.fn)].name + "(" + s.e.a + ");"); out.push_back(s); }
			}
		}
		void generate(const Plan &p)
		{
			Rng r(u64(p.get("pseed"))); text.push_back("import std.io;"); std::vector<std::string> gv; int nf = int(p.get("nf")), nl = int(p.get("nl")), names = 0;
			{ Stmt s; s.k = Stmt::SET; s.decl = true; s.var = "probe"; s.e.a = sim::fmt("%d", probe = r.range(1, 90)); s.e.b = "0"; emit(s, "int probe = " + s.e.a + " + 0;"); probeLine = s.line; top.push_back(s); }
			{ Stmt s; s.k = Stmt::SET; s.decl = true; s.var = "g0"; s.e.a = sim::fmt("%d", r.range(1, 90)); s.e.b = "1"; emit(s, "int g0 = " + s.e.a + " + 1;"); top.push_back(s); gv.push_back("g0"); }
			for(int i = 0; i < nf; i++)
			{
				Fn f; f.name = sim::fmt("f%d", i); f.param = "a"; int ln = 0; std::vector<Stmt> b; text.push_back("int " + f.name + "(int a){"); f.first = int(text.size()); std::vector<std::string> vars = gv; vars.push_back("a"); std::vector<std::string> as = gv; as.push_back("a");
				body(r, b, vars, as, r.range(0, 3), i, ln, false, "x"); Stmt s; s.k = Stmt::RET; s.e = expr(r, vars, i); emit(s, "return " + show(s.e, fns) + ";"); b.push_back(s); text.push_back("}"); f.last = int(text.size()); f.body = b; fns.push_back(f);
			}
			body(r, top, gv, gv, nl, nf, names, false, "v");
			if(p.get("err")){ Stmt z; z.k = Stmt::FAIL; z.e.a = "g0"; emit(z, "g0 = g0 / (g0 - g0);"); size_t at = top.size(); top.insert(top.begin() + long(at), z); fails = true; }
			{ Stmt s; s.k = Stmt::TEXT; s.var = "probe:"; emit(s, "Print(\"probe:\");"); top.push_back(s); } { Stmt s; s.k = Stmt::PRINT; s.e.a = "probe"; s.e.b = "0"; emit(s, "Print(probe + 0, 10);"); probePrint = s.line; top.push_back(s); }
			{ Stmt s; s.k = Stmt::RET; s.e = expr(r, gv, nf); emit(s, "return " + show(s.e, fns) + ";"); top.push_back(s); }
			std::set<int> l; for(auto &s : top) if(s.k != Stmt::LOOP && s.k != Stmt::ENDLOOP) l.insert(s.line); for(auto &f : fns) for(auto &s : f.body) if(s.k != Stmt::LOOP && s.k != Stmt::ENDLOOP) l.insert(s.line); lines.assign(l.begin(), l.end());
		}
		std::string owner(int line){ for(size_t i = 0; i < fns.size(); i++) if(!fns[i].body.empty() && line >= fns[i].first && line <= fns[i].last) return fns[i].name; return "global"; }
		std::string source(){ std::string s; for(auto &t : text) s += t + "\n"; return s; }
		// the run
		struct Frame { std::map<std::string, int> v; int depth; std::string fn; bool global; };
		int get(Frame &f, const std::string &n){ if(isdigit((unsigned char)n[0])) return atoi(n.c_str()); if(!f.global){ auto i = f.v.find(n); if(i != f.v.end()) return i->second; } return globals[n]; }
		void set(Frame &f, const std::string &n, int v, bool decl){ if(f.global || (!decl && !f.v.count(n))) globals[n] = v; else f.v[n] = v; }
		int eval(Frame &f, const Expr &e, int line)
		{
			auto op = [](int o, int a, int b){ return int(o == 0 ? u32(a) + u32(b) : o == 1 ? u32(a) - u32(b) : u32(a) * u32(b)); };
			if(e.kind == 0) return op(e.op, get(f, e.a), get(f, e.b));
			int v = call(size_t(e.fn), get(f, e.a), f.depth + 1); mark(f, line, true); if(e.kind == 1) return v; int b = get(f, e.b); return op(e.op, v, b);
		}
		void mark(Frame &f, int line, bool ret){ if(trace.size() > 4000) return; Pos p; p.line = line; p.depth = f.depth; p.ret = ret; p.fn = f.fn; p.locals = f.global ? std::map<std::string, int>() : f.v; p.globals = globals; trace.push_back(p); }
		int call(size_t fn, int a, int depth){ Frame f; f.depth = depth; f.fn = fns[fn].name; f.global = false; f.v["a"] = a; int r = 0; exec(f, fns[fn].body, r); return r; }
		bool exec(Frame &f, std::vector<Stmt> &b, int &r)
		{
			for(size_t i = 0; i < b.size(); i++)
			{
				Stmt &s = b[i]; mark(f, s.line, false);
				switch(s.k)
				{
				case Stmt::SET: { int v = eval(f, s.e, s.line); set(f, s.var, v, s.decl); break; }
				case Stmt::ADD: { int before = get(f, s.var); int v = eval(f, s.e, s.line); set(f, s.var, int(u32(before) + u32(v)), false); break; }
				case Stmt::PRINT: { int v = eval(f, s.e, s.line); out += sim::fmt("%d", v); break; }
				case Stmt::TEXT: for(size_t k = 0; k < s.var.size(); k++) if(s.var[k] != '\\') out += s.var[k]; break;
				case Stmt::CALL: eval(f, s.e, s.line); break;
				case Stmt::RET: r = eval(f, s.e, s.line); return true;
				case Stmt::FAIL: failed = true; return true;
				case Stmt::LOOP: s.n = abs(s.n); loops.push_back({ i, s.n }); break;
				case Stmt::ENDLOOP: if(--loops.back().second > 0){ i = loops.back().first; mark(f, b[i].line, true); } else { mark(f, b[loops.back().first].line, true); loops.pop_back(); } break;
				default: break;
				}
				if(failed) return true;
			}
			return false;
		}
		std::vector<std::pair<size_t, int>> loops;
		void run(){ Frame f; f.depth = 0; f.fn = "global"; f.global = true; int r = 0; exec(f, top, r); if(!failed) result = sim::fmt("%d", r); }
	};

	struct Message { std::string raw; rapidjson::Document d; std::string type, what; long long seq = 0, reply = -1; bool ok = false; };
	struct Sent { int seq; std::string command; };

	struct World
	{
		const Plan &plan; Program prog; std::vector<std::string> args; std::vector<Message> msgs; std::vector<Sent> sent; int nextSeq = 1; size_t seen = 0; bool closed = false, gone = false, hostile = false, restarted = false, launchFails = false, asyncBp = false; std::string folder, programPath, modulesPath; bool terminateSent = false, disconnectSent = false, running = false;
		u64 resumes = 0; std::set<int> bps; size_t answers = 0; std::vector<const Op*> ans; bool stepped = false; int asyncResumes = 0; size_t pos = 0; std::set<size_t> cands; bool havePos = false, posKnown = true; int lastLine = -1; bool lastStep = false; int runs = 0; std::vector<int> probeValue; std::map<std::string, int> changed, shown; std::map<size_t, int> changedBy; u64 stopsSeen = 0; std::vector<int> stopLines; int restarts = 0; bool ended = false; int expectedStops = 0;
		explicit World(const Plan &p): plan(p) { for(auto &o : p.ops) if(o.name == "ans") ans.push_back(&o); prog.generate(p); prog.run(); launchFails = p.get("launch") != 0; }
		[[noreturn]] void bad(const std::string &cls, const std::string &text){ sim::fail("dap:" + cls, text + "\n" + tail()); }
		std::string tail(){ std::string s = "the last messages from the adapter:\n"; for(size_t i = msgs.size() > 8 ? msgs.size() - 8 : 0; i < msgs.size(); i++) s += "  " + brief(msgs[i].raw, 220) + "\n"; s += "the last messages to the adapter:\n"; for(size_t i = sent.size() > 6 ? sent.size() - 6 : 0; i < sent.size(); i++) s += sim::fmt("  %d %s\n", sent[i].seq, sent[i].command.c_str()); if(!diagnostics.empty()) s += "stderr: " + brief(diagnostics.size() > 300 ? diagnostics.substr(diagnostics.size() - 300) : diagnostics) + "\n"; return s; }
		// -- client side of the wires
		int send(const std::string &command, const std::string &arguments)
		{
			if(closed) return -1; int seq = nextSeq++; std::string b = sim::fmt("{\"seq\":%d,\"type\":\"request\",\"command\":\"%s\"", seq, command.c_str()) + (arguments.empty() ? "" : ",\"arguments\":" + arguments) + "}"; toServer += sim::fmt("Content-Length: %zu\r\n", b.size()) + (plan.get("hdr") ? "Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n" : "") + "\r\n" + b; sent.push_back({ seq, command });
			if(command == "continue" || command == "next" || command == "stepIn" || command == "stepOut" || command == "restart" || command == "terminate" || command == "disconnect") resumes++; if(command == "disconnect") disconnectSent = true; if(command == "terminate") terminateSent = true; sim::log("> %s %s", command.c_str(), arguments.c_str()); sim::step(); return seq;
		}
		void close(){ if(!closed){ closed = true; inputClosed = true; resumes++; sim::log("> eof"); } }
		void parse()
		{
			while(true)
			{
				size_t h = fromServer.find("\r\n\r\n", parsed); if(h == std::string::npos){ if(fromServer.size() - parsed > 200) bad("framing", "no message header in: " + brief(fromServer.substr(parsed), 300)); return; }
				std::string head = fromServer.substr(parsed, h - parsed); size_t len = 0; int used = 0; if(sscanf(head.c_str(), "Content-Length: %zu%n", &len, &used) != 1 || size_t(used) != head.size()) bad("framing", "not a message header: " + brief(fromServer.substr(parsed, 300), 300));
				if(fromServer.size() < h + 4 + len) return; Message m; m.raw = fromServer.substr(h + 4, len); parsed = h + 4 + len; m.d.Parse(m.raw.c_str(), m.raw.size()); if(m.d.HasParseError() || !m.d.IsObject()) bad("framing", "the body of a message is not a JSON object: " + brief(m.raw, 300));
				if(!m.d.HasMember("seq") || !m.d["seq"].IsInt() || !m.d.HasMember("type")) bad("form", "a message without seq or type: " + brief(m.raw, 300)); m.seq = m.d["seq"].GetInt(); m.type = m.d["type"].GetString();
				for(auto &o : msgs) if(o.seq == m.seq) bad("seq", sim::fmt("two messages carry the number %lld: ", m.seq) + brief(o.raw, 200) + " and " + brief(m.raw, 200));
				if(m.type == "event") m.what = m.d["event"].GetString(); else if(m.type == "response"){ m.what = m.d["command"].GetString(); m.reply = m.d["request_seq"].GetInt(); m.ok = m.d["success"].GetBool(); } else bad("form", "a message that is neither an event nor a response: " + brief(m.raw, 300));
				sim::log("< %s %s %s", m.type.c_str(), m.what.c_str(), m.type == "event" ? brief(m.raw, 120).c_str() : m.ok ? "ok" : "failed"); msgs.push_back(std::move(m)); watch(msgs.back());
			}
		}
		// -- as messages arrive
		u64 stops = 0, exited = 0, terminated = 0, processes = 0, responses = 0; std::vector<std::string> outputs; std::vector<int> codes; std::string console, errorText;
		void watch(Message &m)
		{
			if(m.type == "response")
			{
				if(responses >= sent.size()) bad("response-extra", "a response nobody asked for: " + brief(m.raw)); Sent &s = sent[responses++]; if(s.seq != m.reply || s.command != m.what) bad("response-order", sim::fmt("expected the response to request %d (%s), got ", s.seq, s.command.c_str()) + brief(m.raw, 300)); return;
			}
			bool progress = m.what == "stopped" || m.what == "exited" || (m.what == "output"); if(progress && stops > resumes) bad("resumed-by-itself", "the program went on from a stop although no request to go on was sent: " + brief(m.raw, 200));
			if(m.what == "stopped"){ stops++; if(!processes || exited >= processes) bad("event-order", "a stop of a program that is not running"); }
			else if(m.what == "process"){ processes++; outputs.push_back(""); }
			else if(m.what == "exited"){ exited++; if(exited > processes) bad("exited", sim::fmt("%llu exited events for %llu started programs", (unsigned long long)exited, (unsigned long long)processes)); codes.push_back(m.d["body"]["exitCode"].GetInt()); }
			else if(m.what == "terminated"){ terminated++; if(terminated > 1u + u64(restarts)) bad("terminated", "a second terminated event"); if(restarts == 0 && exited < processes) bad("event-order", "the terminated event came before the program exited"); }
			else if(m.what == "output"){ std::string cat = m.d["body"].HasMember("category") ? m.d["body"]["category"].GetString() : "console"; std::string t = m.d["body"]["output"].GetString(); if(cat == "stdout"){ if(outputs.empty()) bad("event-order", "output of a program that was not started"); outputs.back() += t; } else if(cat == "console") console = t; else errorText = t; }
		}
		Message* await(int seq){ Message *f = nullptr; if(seq < 0) return nullptr; auto find = [&]{ for(auto &m : msgs) if(m.type == "response" && m.reply == seq) f = &m; return f != nullptr; }; fib::block([&]{ parse(); return find(); }, fib::IN, "waits for a response"); return f; }
		Message* nextEvent(){ auto find = [&]{ while(seen < msgs.size() && msgs[seen].type != "event") seen++; return seen < msgs.size(); }; fib::block([&]{ parse(); return find(); }, fib::IN, "waits for an event"); return &msgs[seen++]; }
		bool unread(){ return parsed < fromServer.size(); }
		// -- the model of stops
		int oddLine = -1; std::string src_; bool odd = false, launched = false; size_t printAt = ~size_t(0);
		bool exact(){ return !hostile && !stepped && !asyncBp; }
		std::string posText(size_t i){ return i < prog.trace.size() ? sim::fmt("line %d (%s)", prog.trace[i].line, prog.text[size_t(prog.trace[i].line - 1)].c_str()) : "the end"; }
		bool isStop(size_t i){ return !prog.trace[i].ret && bps.count(prog.trace[i].line); }
		void stopAt(int line, int depth)	// the program reports a stop; line 0: not known
		{
			if(hostile || asyncBp || !posKnown){ posKnown = false; return; }
			std::set<size_t> next; std::string why; std::set<size_t> was = cands; if(!havePos) was.insert(~size_t(0));
			for(size_t c : was)
			{
				size_t from = c + 1, j = from; auto here = [&](size_t k){ return (!line || prog.trace[k].line == line) && (depth < 0 || prog.trace[k].depth == depth); };
				for(; j < prog.trace.size(); j++)
				{
					bool bp = isStop(j) && !(lastStep && prog.trace[j].line == lastLine); if(here(j) && (stepped || bp)) next.insert(j);	// temporary breakpoints of earlier steps may stop it anywhere, nothing lets it pass a breakpoint
					if(bp) break;
				}
				why = j < prog.trace.size() ? "the next breakpoint is at " + posText(j) + sim::fmt(", %d calls deep", prog.trace[j].depth) : "there is no further breakpoint on its way";
			}
			if(next.empty()) bad("stop-wrong", sim::fmt("the program stopped at line %d, %d calls deep; ", line, depth) + (havePos ? "coming from " + posText(pos) + ", " : "") + why);
			if(!line && stepped){ if(!havePos){ posKnown = false; return; } next.insert(cands.begin(), cands.end()); }	// it may have stopped at a place that belongs to no line
			cands = next; havePos = true; pos = *cands.begin();
		}
		void atEnd()	// the program ended by itself: no breakpoint may have been passed
		{
			if(hostile || asyncBp || !posKnown) return; std::set<size_t> was = cands; if(!havePos) was.insert(~size_t(0)); std::string why;
			for(size_t c : was){ bool passed = false; for(size_t j = c + 1; j < prog.trace.size() && !passed; j++) if(isStop(j) && !(lastStep && prog.trace[j].line == lastLine)){ passed = true; why = posText(j); } if(!passed) return; }
			bad("breakpoint-missed", "the program ended and passed the breakpoint at " + why + (havePos ? ", last stop " + posText(pos) : ""));
		}
		std::string bpArgs(const std::set<int> &b, int style){ std::string l; for(int x : b) l += (l.empty() ? "" : ",") + (style == 1 ? sim::fmt("%d", plan.get("lines0") ? x - 1 : x) : sim::fmt("{\"line\":%d}", plan.get("lines0") ? x - 1 : x)); std::string src = "{\"name\":\"main.nc\",\"path\":" + quote(programPath) + "}"; return "{\"source\":" + src + ",\"" + (style == 1 ? "lines" : "breakpoints") + "\":[" + l + "]}"; }
		std::set<int> chosen(const Op &o, size_t from){ std::set<int> b; for(size_t i = from; i < o.a.size(); i++) if(!prog.lines.empty()) b.insert(prog.lines[size_t(o.a[i]) % prog.lines.size()]); return b; }
		void checkBps(Message *m, const std::set<int> &want){ if(!m || terminateSent) return; if(!m->ok) bad("breakpoints", "setBreakpoints failed: " + brief(m->raw, 300)); auto &l = m->d["body"]["breakpoints"]; if(l.Size() != want.size()) bad("breakpoints", sim::fmt("%zu breakpoints were requested: ", want.size()) + brief(m->raw, 400)); size_t i = 0; for(int x : want){ auto &b = l[rapidjson::SizeType(i++)]; if(!b["verified"].GetBool()) bad("breakpoints", sim::fmt("a breakpoint at line %d is refused: ", x) + brief(m->raw, 400)); } }
		void queries(const Op &o, int &line, int &depth)
		{
			int q = int(o.arg(1)); if(q == 0) return; if(q & 8) send("threads", "");
			Message *m = await(send("stackTrace", "{\"threadId\":1}")); if(!m || gone) return; if(!m->ok || hostile) { if(!hostile) bad("stackTrace", "failed: " + brief(m->raw, 300)); return; }
			auto &f = m->d["body"]["stackFrames"]; if(f.Size() == 0) bad("stackTrace", "an empty stack at a stop"); line = f[0]["line"].GetInt() + (plan.get("lines0") ? 1 : 0); depth = int(f.Size()) - 1; int id = f[0]["id"].GetInt(); std::string fn = f[0]["name"].GetString(), src = f[0].HasMember("source") && f[0]["source"].HasMember("name") ? f[0]["source"]["name"].GetString() : ""; src_ = src; odd = src != "main.nc" || prog.owner(line) != (fn.compare(0, 1, "f") == 0 && fn.size() <= 3 ? fn : "global");
			sim::probe("stack_checked"); if(!(q & 2)){ return; }
			Message *s = await(send("scopes", sim::fmt("{\"frameId\":%d}", id))); if(!s || hostile) return; pendingScopes.clear(); for(auto &x : s->d["body"]["scopes"].GetArray()) pendingScopes.push_back({ x["name"].GetString(), x["variablesReference"].GetInt() });
			pendingVars.clear(); for(auto &x : pendingScopes){ Message *v = await(send("variables", sim::fmt("{\"variablesReference\":%d}", x.second))); if(!v || hostile) return; if(!v->ok) bad("variables", "failed: " + brief(v->raw, 300)); for(auto &y : v->d["body"]["variables"].GetArray()) pendingVars.push_back({ x.first + "." + y["name"].GetString(), y["value"].GetString() }); }
		}
		std::vector<std::pair<std::string, int>> pendingScopes; std::vector<std::pair<std::string, std::string>> pendingVars;
		void checkVars()
		{
			if(pendingVars.empty() || !posKnown || !havePos || hostile) return; const Pos &p = prog.trace[pos]; bool global = p.depth == 0; std::map<std::string, int> want = global ? p.globals : p.locals; if(global && want.count("probe") && shown.count("probe")) want["probe"] = shown["probe"];
			if(cands.size() != 1) return;	// it is not certain where in the program it stopped
			for(auto &w : want){ bool found = false; for(auto &v : pendingVars) if(v.first.substr(v.first.find('.') + 1) == w.first && (v.first[0] == 'G') == global){ found = true; if(v.second != sim::fmt("%d", w.second)) bad("variables", sim::fmt("at line %d variable %s is shown as %s and is %d", p.line, v.first.c_str(), v.second.c_str(), w.second)); } if(!found) bad("variables", sim::fmt("at line %d variable %s is not shown", p.line, w.first.c_str())); }
			sim::probe("variables_checked");
		}
		void onStop()
		{
			stopsSeen++; Op none("ans", { 0, 0 }); const Op &o = answers < ans.size() ? *ans[answers] : none; answers++; int line = 0, depth = -1; odd = false; pendingVars.clear(); queries(o, line, depth); if(gone) return;
			if(odd){ if(exact()) bad("stop-wrong", sim::fmt("a stop at line %d outside the program although nothing but continue was requested", line)); sim::probe("stop_outside_program"); oddLine = src_ == "main.nc" ? line : -1; line = 0; } else { stopAt(line, depth); checkVars(); } sim::state(u64(line) * 64 + u64(depth + 1));
			if((o.arg(1) & 4) && !odd && !hostile && posKnown && havePos && cands.size() == 1 && prog.trace[pos].depth == 0 && prog.trace[pos].globals.count("probe"))
			{
				int v = int(o.arg(2)); Message *m = nullptr; for(auto &x : pendingScopes) if(x.first == "Globals" && !pendingVars.empty()) m = await(send("setVariable", sim::fmt("{\"variablesReference\":%d,\"name\":\"probe\",\"value\":\"%d\"}", x.second, v)));
				if(m){ if(!m->ok) bad("setVariable", "failed: " + brief(m->raw, 300)); shown["probe"] = v; if(prog.trace[pos].line <= prog.probePrint) changed["probe"] = v, changedBy[outputs.size()] = v; sim::probe("variable_set"); }
			}
			if(o.arg(3) == 1 && !prog.lines.empty()){ std::set<int> b = chosen(o, 4); Message *m = await(send("setBreakpoints", bpArgs(b, int(plan.get("bpstyle"))))); checkBps(m, b); bps = b; sim::probe("breakpoints_changed_at_stop"); }
			int act = int(o.arg(0)); static const char *names[] = { "continue", "next", "stepIn", "stepOut", "restart", "terminate", "disconnect" };
			lastLine = odd ? oddLine : line ? line : cands.size() == 1 ? prog.trace[pos].line : -2; if(lastLine == -2 && act >= 1 && act <= 3) posKnown = false;
			if(act <= 3){ int s = send(names[act], "{\"threadId\":1}"); lastStep = act != 0; if(act) stepped = true; if(o.arg(1) & 16) await(s); sim::probe(names[act]); }
			else if(act == 4){ restart(); }
			else if(act == 5){ sim::probe("terminate_at_stop"); hostile = true; await(send("terminate", "{}")); }
			else if(act == 6){ sim::probe("disconnect_at_stop"); hostile = true; leave(); }
			else { sim::fault(act == 7 ? "client_gone_at_stop" : "client_gone_inside_message"); hostile = true; if(act == 8 && !closed) toServer += "Content-Length: 70\r\n\r\n{\"seq\":900,\"type\":\"request\",\"comm"; close(); gone = true; }
		}
		void restart(){ sim::probe("restart_at_stop"); restarts++; Message *m = await(send("restart", "{}")); if(m && !m->ok && !terminateSent) bad("restart", "failed: " + brief(m->raw, 300)); for(size_t i = 0; i < msgs.size(); i++) if(msgs[i].what == "process" && seen < i + 1) seen = i + 1; if(stepped) posKnown = !stepped; havePos = false; cands.clear(); pos = 0; lastStep = false; lastLine = -1; changed.clear(); shown.clear(); }
		void leave(){ if(gone) return; await(send("disconnect", "{}")); close(); gone = true; }
		void spontaneous(int what)	// from a scheduling point of the adapter: the user does something while the program runs
		{
			if(closed || disconnectSent || gone || !launched || launchFails) return; if((terminateSent || !processes) && (what < 10 && what != 0 && what != 2 && what != 8)) return; 
			switch(what)
			{
			case 0: send("threads", ""); break;
			case 1: hostile = true; send("continue", "{\"threadId\":1}"); break;
			case 2: send("loadedSources", ""); break;
			case 3: { asyncBp = true; std::set<int> b; for(auto &o : plan.ops) if(o.name == "bp2"){ b = chosen(o, 0); break; } bps = b; send("setBreakpoints", bpArgs(b, 0)); break; }
			case 4: hostile = true; restarts++; send("restart", "{}"); break;
			case 5: hostile = true; send("disconnect", "{}"); break;
			case 6: hostile = true; send("terminate", "{}"); break;
			case 7: hostile = true; close(); gone = true; break;
			case 8: send("noSuchRequest", "{}"); break;
			case 10: send("stackTrace", "{\"threadId\":1}"); break;
			case 11: send("scopes", "{\"frameId\":0}"); break;
			case 12: send("variables", "{\"variablesReference\":1}"); break;
			case 13: if(!processes) hostile = true; send("configurationDone", ""); break;
			case 14: send("source", "{\"sourceReference\":1}"); break;
			case 9: hostile = true; stepped = true; send("next", "{\"threadId\":1}"); break;
			}
			static const char *names[] = { "async_threads", "async_continue", "async_sources", "async_breakpoints", "async_restart", "async_disconnect", "async_terminate", "client_gone_while_running", "async_unknown", "async_step", "async_stack", "async_scopes", "async_variables", "async_configuration_done", "async_source" }; sim::fault(names[what % 15]);
		}
		void client()
		{
			bool l0 = plan.get("lines0"); await(send("initialize", !l0 && plan.get("linesDefault") ? std::string("{\"adapterID\":\"nullc\"}") : sim::fmt("{\"adapterID\":\"nullc\",\"linesStartAt1\":%s,\"columnsStartAt1\":true}", l0 ? "false" : "true"))); if(gone) return;
			std::string la = "{\"program\":" + quote(programPath); if(plan.get("mp") == 0) la += ",\"modulePath\":\"mods\""; if(plan.get("mp") == 1) la += ",\"workspaceFolder\":\"ws\""; if(plan.get("trace")) la += sim::fmt(",\"trace\":\"%s\"", plan.get("trace") == 1 ? "off" : "info"); la += "}";
			Message *m = await(send("launch", la)); if(!m) return; if(m->ok == launchFails) bad("launch", launchFails ? "the launch of a broken program succeeded" : "the launch failed: " + brief(m->raw, 600));
			if(launchFails){ sim::probe("launch_failed"); if(plan.get("end") == 1){ close(); gone = true; return; } leave(); return; }
			launched = true; while(nextEvent()->what != "initialized"){}
			for(auto &o : plan.ops) if(o.name == "bp"){ bps = chosen(o, 0); break; } const std::set<int> first = bps;
			int a = send("setBreakpoints", bpArgs(first, int(plan.get("bpstyle")))), b = send("setExceptionBreakpoints", "{\"filters\":[]}"); if(plan.get("wait")){ checkBps(await(a), first); await(b); } a = plan.get("wait") ? -1 : a; int c = send("configurationDone", ""); if(a >= 0) checkBps(await(a), first); if(plan.get("wait")) await(c); running = true;
			while(!gone)
			{
				Message *e = nextEvent(); if(e->what == "stopped"){ onStop(); continue; }
				if(e->what == "exited" && !hostile && !ended){ ended = true; atEnd(); }
				if(e->what == "terminated") break;
			}
			if(gone) return; sim::probe("session_ended_by_program"); if(plan.get("end") == 1){ close(); gone = true; } else leave();
		}
		void setup()
		{
			auto &disk = simLangDisk; static const char *ps[] = { "mods/", "ws/Modules/", "proj/Modules/" }; std::string mp = ps[plan.get("mp") % 3]; programPath = plan.get("mp") == 2 ? "proj/main.nc" : plan.get("mp") == 1 ? "ws/main.nc" : "work/main.nc"; for(auto &m : modules()) disk[mp + m.first] = m.second;
			int how = int(plan.get("launch")); std::string src = prog.source(); if(how == 1) src += "int broken = ;\n"; if(how != 2) disk[programPath] = src; if(how == 3){ disk.erase(mp + "std/io.nc"); } if(plan.get("crlf")){ std::string t; for(char c : src){ if(c == '\n') t += '\r'; t += c; } if(how != 2) disk[programPath] = t; }
			if(how) sim::fault(how == 1 ? "program_broken" : how == 2 ? "program_missing" : "module_missing");
		}
		static std::map<std::string, std::string>& modules(){ static std::map<std::string, std::string> m; return m; }
		void finish()
		{
			parse(); if(parsed != fromServer.size()) bad("framing", "bytes after the last message: " + brief(fromServer.substr(parsed), 300));
			// responses: up to and including the first disconnect; with the input closed or ended by a broken message, everything sent before
			size_t need = sent.size(); for(size_t i = 0; i < sent.size(); i++) if(sent[i].command == "disconnect"){ need = i + 1; break; } if(responses < need) bad("response-missing", sim::fmt("request %d (%s) got no response", sent[responses].seq, sent[responses].command.c_str()));
			if(exited != processes) bad("exited", sim::fmt("%llu exited events for %llu started programs at the end of the session", (unsigned long long)exited, (unsigned long long)processes));
			bool silent = launchFails && !disconnectSent; if(!silent && terminated == 0 && !(gone && processes == 0)) bad("terminated", "the session ended without a terminated event"); if(restarts == 0 && terminated > 1) bad("terminated", "more than one terminated event");
			if(processes)
			{
				for(size_t i = 0; i < outputs.size(); i++){ bool last = i + 1 == outputs.size(); std::string want = prog.out; if(changedBy.count(i + 1) && !prog.failed){ size_t k = want.rfind("probe:"); want.replace(k + 6, sim::fmt("%d", prog.probe).size(), sim::fmt("%d", changedBy[i + 1])); } if(outputs[i] != want){ bool prefix = prog.out.compare(0, outputs[i].size(), outputs[i]) == 0 || want.compare(0, outputs[i].size(), outputs[i]) == 0; if(!prefix || (last && !hostile && !gone)) bad("output", "the program wrote:\n" + brief(outputs[i], 400) + "\nexpected:\n" + brief(want, 400)); } }
				if(!hostile && restarts == 0 && codes.size()){ int code = prog.failed ? -1 : atoi(prog.result.c_str()); if(codes.back() != code && !(stopped())) bad("exit-code", sim::fmt("exit code %d, expected %d", codes.back(), code)); }
				if(!hostile && !asyncBp && !stepped && restarts == 0){ int changedBps = 0; for(auto &o : plan.ops) if(o.name == "ans" && o.arg(3) == 1) changedBps++; if(!changedBps){ u64 n = 0; for(size_t i = 0; i < prog.trace.size(); i++) if(isStop(i)) n++; if(stops != n) bad("stop-count", sim::fmt("%llu stops, the program passes %llu breakpoints", (unsigned long long)stops, (unsigned long long)n)); } }
			}
			if(fib::alive()) bad("threads", "the adapter returned while its program thread is running: " + fib::where());
		}
		bool stopped(){ return terminateSent || gone; }
		void run()
		{
			setup(); wireRng = Rng(plan.seed ^ 3); wireMode = int(plan.get("split")); Input in; Output co; std::streambuf *was = std::cin.rdbuf(&in), *wasOut = std::cout.rdbuf(&co); std::cin.clear();
			FILE *o = stdout, *e = stderr; FILE *no = outFile(&fromServer), *ne = outFile(&diagnostics); setvbuf(ne, nullptr, _IONBF, 0); fflush(o); fflush(e);
			if(plan.get("mp") == 3) args.push_back("--module_path=mods/"); if(plan.get("mp") == 4) args.push_back("-mp=mods/");
			fib::Config c; c.seed = plan.seed; c.policy = int(plan.get("policy")); c.fill = int(plan.get("fill")); c.clientReady = []{ return true; };
			std::vector<const Op*> pre; for(auto &x : plan.ops) if(x.name == "pre" || x.name == "async" || x.name == "spur") pre.push_back(&x);
			c.at = [&](fib::Kind k, u64 n){ for(auto x : pre) if(x->arg(0) == k && u64(x->arg(1)) == n){ if(x->name == "pre") { fib::preempt(int(x->arg(2))); } else if(x->name == "async") spontaneous(int(x->arg(2))); else fib::spurious(); } };
			std::set_terminate([]{ sim::fail("dap:aborted", "std::terminate was called: " + fib::where()); });
			int rc = -1; std::vector<char*> av; std::string self = "adapter"; av.push_back(&self[0]); std::vector<std::string> copy = args; for(auto &a : copy) av.push_back(&a[0]); av.push_back(nullptr);
			sim::nontrivial(); stdout = no; stderr = ne; simLangDiskOn = true;
			fib::run(c, [&]{ rc = da_main(int(av.size()) - 1, av.data()); }, [&]{ client(); });
			simLangDiskOn = false; fflush(no); fflush(ne); stdout = o; stderr = e; std::cin.rdbuf(was); std::cout.rdbuf(wasOut); std::cin.clear();
			sim::log("end %d, %llu switches, %llu", rc, (unsigned long long)fib::switches(), (unsigned long long)fib::trail()); sim::state(fib::trail()); finish();
		}
	};
	void readModules(const std::string &dir, const std::string &rel, std::map<std::string, std::string> &out)
	{
		DIR *d = opendir((dir + rel).c_str()); if(!d) return; std::vector<std::string> subs; while(dirent *e = readdir(d)){ std::string n = e->d_name; if(n[0] == '.') continue; if(n.size() > 3 && n.compare(n.size() - 3, 3, ".nc") == 0){ FILE *f = fopen((dir + rel + n).c_str(), "rb"); if(!f) continue; std::string s; char b[4096]; size_t k; while((k = fread(b, 1, sizeof(b), f)) > 0) s.append(b, k); fclose(f); out[rel + n] = s; } else if(n.find('.') == std::string::npos) subs.push_back(rel + n + "/"); }
		closedir(d); for(auto &s : subs) readModules(dir, s, out);
	}
	void generate(Rng &r, Plan &p, int tier)
	{
		p.cfg["pseed"] = (long long)(r.next() % 1000000); p.cfg["nf"] = r.range(0, 3); p.cfg["nl"] = r.range(1, tier ? 10 : 7); p.cfg["err"] = r.chance(1, 8); p.cfg["policy"] = r.below(3); p.cfg["fill"] = r.below(4); p.cfg["split"] = r.below(3); p.cfg["hdr"] = r.chance(1, 4); p.cfg["mp"] = r.below(3); p.cfg["trace"] = r.below(3); p.cfg["end"] = r.chance(1, 3); p.cfg["wait"] = r.coin(); p.cfg["crlf"] = r.chance(1, 4); p.cfg["bpstyle"] = r.chance(1, 4); p.cfg["lines0"] = r.chance(1, 5); p.cfg["linesDefault"] = r.chance(1, 5);
		if(r.chance(1, 25)) p.cfg["launch"] = r.range(1, 3);
		{ Op b("bp"); int n = r.range(0, 4); for(int i = 0; i < n; i++) b.a.push_back(r.below(40)); p.ops.push_back(b); } { Op b("bp2"); int n = r.range(0, 3); for(int i = 0; i < n; i++) b.a.push_back(r.below(40)); p.ops.push_back(b); }
		int n = r.range(0, 10); bool steps = r.coin(), leaves = r.chance(1, 3);
		for(int i = 0; i < n; i++)
		{
			int act = steps ? r.range(0, 3) : 0; if(leaves && r.chance(1, 4)) act = r.range(4, 8); Op a("ans", { act, r.chance(1, 4) ? 0 : (long long)r.below(32) | 1, r.range(-50, 5000), r.chance(1, 8) }); if(a.a[3]) for(int k = r.range(0, 4); k > 0; k--) a.a.push_back(r.below(40)); p.ops.push_back(a);
		}
		int np = r.chance(1, 6) ? 0 : r.range(1, 5); for(int i = 0; i < np; i++){ int k = int(r.below(fib::KINDS)); u32 m = 1u << r.range(1, 7); p.ops.push_back(Op("pre", { k, 1 + (long long)r.below(m), (long long)r.below(3) })); }
		if(r.chance(1, 3)){ int na = r.range(1, 3); for(int i = 0; i < na; i++) p.ops.push_back(Op("async", { (long long)r.below(fib::KINDS), 1 + (long long)r.below(1u << r.range(2, 8)), (long long)r.below(15) })); }
		if(r.chance(1, 4)) p.ops.push_back(Op("spur", { (long long)r.below(fib::KINDS), 1 + (long long)r.below(1u << r.range(1, 7)) }));
	}
	void execute(const Plan &p){ World w(p); w.run(); }
	std::string describe(const Plan &p)
	{
		World w(p); std::string s = "the program:\n"; for(size_t i = 0; i < w.prog.text.size(); i++) s += sim::fmt("%3zu  ", i + 1) + w.prog.text[i] + "\n"; s += "the lines it executes:"; for(size_t i = 0; i < w.prog.trace.size() && i < 80; i++) s += sim::fmt(" %d%s", w.prog.trace[i].line, w.prog.trace[i].ret ? "r" : ""); s += "\n";
		static const char *acts[] = { "continue", "next", "stepIn", "stepOut", "restart", "terminate", "disconnect", "closes the connection", "closes the connection inside a message" }, *async[] = { "threads", "continue", "loadedSources", "setBreakpoints", "restart", "disconnect", "terminate", "end of input", "an unknown request", "next", "stackTrace", "scopes", "variables", "configurationDone", "source" }, *ch[] = { "the client", "the client and then another thread", "another thread" };
		for(auto &o : p.ops){ if(o.name == "bp" || o.name == "bp2"){ s += o.name == "bp" ? "breakpoints at lines:" : "breakpoints set while it runs:"; for(int l : w.chosen(o, 0)) s += sim::fmt(" %d", l); s += "\n"; } else if(o.name == "ans") s += sim::fmt("answer to the next stop: queries %lld, %s%s\n", o.arg(1), o.arg(3) == 1 ? "new breakpoints, " : "", acts[o.arg(0) % 9]); else if(o.name == "pre") s += sim::fmt("at %s number %lld of the adapter the scheduler switches to %s\n", fib::kindName[o.arg(0) % fib::KINDS], o.arg(1), ch[o.arg(2) % 3]); else if(o.name == "async") s += sim::fmt("at %s number %lld of the adapter the client sends: %s\n", fib::kindName[o.arg(0) % fib::KINDS], o.arg(1), async[o.arg(2) % 15]); else if(o.name == "spur") s += sim::fmt("at %s number %lld of the adapter every waiting thread wakes up spuriously\n", fib::kindName[o.arg(0) % fib::KINDS], o.arg(1)); }
		return s;
	}
	void warm(){ if(World::modules().empty()) readModules("/repo/Modules/", "", World::modules()); }
	RegisterProperty prop({ "C16", "the debug adapter: its threads as fibers on a seeded scheduler, a simulated client that answers every stop and sends requests at seeded points, a simulated disk", warm, generate, execute, describe, 6000, 100000, 45, 600,
		"one response per request, in order, of its own number; whole messages; one exited event per started program and one terminated event per session; no thread waits for ever; no stop ends without a request; stops, stacks, variables, output and exit code are those of the program",
		"the debug adapter (main.cpp, handler.cpp, debug.cpp, rapidjson), the compiler, the register VM", "threads, mutexes and condition variables (fibers), standard input, output and error (in-process streams), the file system (simulated disk)" });
}
