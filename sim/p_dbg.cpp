// C15: the interpreter under a debugger whose every action - breakpoints before the run and inside break callbacks, answers - is decided by the plan.
// The full instruction trace of the program (every instruction holding a breakpoint, every stop answered "proceed") predicts
// where the same program has to stop under any other history of breakpoints and step commands.
#include "session.h"
#include <memory>
#include <algorithm>
using namespace mini;

namespace
{
	struct Ent { unsigned instr, depth; uintptr_t sp; unsigned events; };
	struct Trace { std::vector<Ent> t; };
	const size_t kMaxTrace = 60000;

	Trace *rec = nullptr;				// recording
	prog::Expect *curExpect = nullptr;
	std::set<unsigned> entries;

	unsigned codeSize()
	{
		unsigned n = 0;
		while(nullcDebugAddBreakpoint(n)) n++;
		return n;
	}
	unsigned recordBreak(void*, unsigned instr)
	{
		if(rec->t.size() >= kMaxTrace) prog::rejectRun();
		rec->t.push_back({ instr, nullcDebugGetStackFrameCount(), uintptr_t(__builtin_frame_address(0)), curExpect ? unsigned(curExpect->pos) : 0 });
		return NULLC_BREAK_PROCEED;
	}

	// Native stack taken by a direct call of a script function; a call that goes through the host takes more
	uintptr_t callFrame = 0;
	void warm()
	{
		eng::warm();
		std::string err; if(!eng::build("int leaf(int a){ return a + 1; } int value = 5; return leaf(value);", 0, 0, err)){ fprintf(stderr, "%s\n", err.c_str()); exit(3); }
		Trace tr; rec = &tr; codeSize(); nullcDebugSetBreakFunction(nullptr, recordBreak);
		if(!nullcRunFunction(NULL)){ fprintf(stderr, "%s\n", nullcGetLastError()); exit(3); }
		for(size_t i = 1; i < tr.t.size(); i++) if(tr.t[i].depth == tr.t[i - 1].depth + 1) callFrame = tr.t[i - 1].sp - tr.t[i].sp;
		nullcDebugClearBreakpoints(); nullcDebugSetBreakFunction(nullptr, nullptr); nullcClean();
		if(!callFrame){ fprintf(stderr, "no call was seen\n"); exit(3); }
	}

	// What the breakpoints are, as far as the host can know. Steps can be predicted in more than one way where the trace alone does not tell
	struct Hyp { std::set<unsigned> armed; long long at = -1; };
	struct Model
	{
		std::vector<Hyp> hyps; std::map<unsigned, bool> bps;	// instruction -> one hit
		const Trace *T = nullptr;
		bool stopped(unsigned i, const Hyp &h) const { return bps.count(i) || h.armed.count(i); }
		long long next(const Hyp &h) const { for(size_t m = size_t(h.at + 1); m < T->t.size(); m++) if(stopped(T->t[m].instr, h)) return (long long)m; return -1; }
	};
	struct Hist
	{
		std::vector<Op> answers; size_t pos = 0; unsigned stops = 0, limit = 0, N = 0; bool stopUsed = false; long long stopAt = -1; std::string where;
		Model m; long long lenient = -1; unsigned added = 0, once = 0, removed = 0, cleared = 0, steps = 0, into = 0, out = 0;
	};
	Hist *hist = nullptr;

	// which instruction an operation means: relative to the current position of the trace, or anywhere in it, or the return address
	unsigned pick(const Hist &h, long long kind, long long a)
	{
		const std::vector<Ent> &t = h.m.T->t; if(t.empty()) return unsigned(a) % (h.N ? h.N : 1);
		long long at = h.m.hyps.empty() ? -1 : h.m.hyps[0].at;
		switch(kind)
		{
		case 0: { long long k = at + a; if(k < 0) k = 0; if(k >= (long long)t.size()) k = (long long)t.size() - 1; return t[size_t(k)].instr; }	// a instructions ahead (0: here)
		case 1: return t[size_t(u64(a) % t.size())].instr;
		case 2: { if(at < 0) return t[0].instr; unsigned d = t[size_t(at)].depth; for(size_t k = size_t(at); k < t.size(); k++) if(t[k].depth < d) return t[k].instr; return t.back().instr; }	// where the caller goes on
		case 3: return h.N + 100 + unsigned(a % 3);	// outside of the code
		default: return unsigned(a) % h.N;
		}
	}
	void edit(Hist &h, const Op &o)
	{
		if(o.name == "clear")
		{
			if(!nullcDebugClearBreakpoints()) sim::fail("debug:clear-failed", h.where + ": breakpoints could not be cleared");
			h.m.bps.clear(); for(auto &y : h.m.hyps) y.armed.clear(); h.cleared++; sim::log("clear"); return;
		}
		unsigned i = pick(h, o.arg(0), o.arg(1));
		bool range = i < h.N, has = h.m.bps.count(i) != 0, mayArmed = h.lenient == (long long)i, mustArmed = !h.m.hyps.empty(); for(auto &y : h.m.hyps) { if(y.armed.count(i)) mayArmed = true; else mustArmed = false; }
		if(o.name == "add" || o.name == "once")
		{
			bool ok = o.name == "add" ? nullcDebugAddBreakpoint(i) : nullcDebugAddOneHitBreakpoint(i);
			sim::log("%s %u %d", o.name.c_str(), i, ok);
			// a regular breakpoint replaces a one time breakpoint: the host cannot know where step commands have left those
			if(o.name == "add"){ if(has && h.m.bps[i]) has = false, sim::probe("one_time_replaced"); if(mayArmed) sim::probe("step_breakpoint_replaced"); mayArmed = false; }
			if(ok && (!range || has)) sim::failf("debug:add-accepted", "%s: a breakpoint at instruction %u was accepted although %s", h.where.c_str(), i, has ? "there is one already" : "the code ends before it");
			if(!ok && range && !has && !mayArmed) sim::failf("debug:add-refused", "%s: a breakpoint at instruction %u was refused: %s", h.where.c_str(), i, nullcGetLastError());
			if(ok) { h.m.bps[i] = o.name == "once"; h.added++; if(o.name == "once") h.once++; }
			if(ok) for(auto &y : h.m.hyps) y.armed.erase(i);
		}
		else if(o.name == "remove")
		{
			bool ok = nullcDebugRemoveBreakpoint(i) != 0;
			sim::log("remove %u %d", i, ok);
			if(ok && !has && !mayArmed) sim::failf("debug:remove-accepted", "%s: a breakpoint at instruction %u was removed, there was none", h.where.c_str(), i);
			if(!ok && (has || mustArmed)) sim::failf("debug:remove-refused", "%s: the breakpoint at instruction %u could not be removed: %s", h.where.c_str(), i, nullcGetLastError());
			if(ok) { h.m.bps.erase(i); for(auto &y : h.m.hyps) y.armed.erase(i); h.removed++; }
		}
	}
	// instructions a step command may have put its one time breakpoint on
	const unsigned NONE = ~0u;
	std::vector<unsigned> targets(const Hist &h, long long at, unsigned response)
	{
		const std::vector<Ent> &t = h.m.T->t; const Ent &e = t[size_t(at)];
		bool last = size_t(at) + 1 >= t.size();
		// the call instruction this frame was entered from
		unsigned caller = NONE; bool direct = false;
		for(long long c = at - 1; c >= 0; c--)
		{
			const Ent &k = t[size_t(c)];
			if(k.depth + 1 == e.depth) { caller = k.instr + 1; direct = k.sp - e.sp == callFrame; break; }
			if(k.depth < e.depth) break;
		}
		if(response == NULLC_BREAK_STEP_OUT && direct) return { caller };
		std::vector<unsigned> leave = { e.instr + 1, caller, NONE };	// the frame entered by the host is left, or an error stops it
		if(last) return leave;
		const Ent &n = t[size_t(at) + 1];
		if(n.depth > e.depth && e.sp - n.sp == callFrame) return { response == NULLC_BREAK_STEP_INTO ? n.instr : e.instr + 1 };
		if(n.depth > e.depth) return { e.instr + 1 };
		if(n.depth < e.depth ? n.sp - e.sp == callFrame : n.sp == e.sp && !entries.count(n.instr)) return { n.instr };
		leave.push_back(n.instr); return leave;
	}
	unsigned playBreak(void*, unsigned instr)
	{
		Hist &h = *hist; const std::vector<Ent> &t = h.m.T->t; unsigned depth = nullcDebugGetStackFrameCount();
		sim::step();
		std::vector<Hyp> ok; std::string want;
		for(auto &y : h.m.hyps)
		{
			long long m = h.m.next(y);
			if(m >= 0 && t[size_t(m)].instr == instr && t[size_t(m)].depth == depth) { Hyp z = y; z.at = m; z.armed.erase(instr); ok.push_back(z); }
			else want += (want.empty() ? "" : " or ") + (m < 0 ? std::string("nowhere") : sim::fmt("%u (call depth %u, position %lld)", t[size_t(m)].instr, t[size_t(m)].depth, m));
		}
		sim::log("stop %u depth %u", instr, depth);
		if(ok.empty()) sim::failf("debug:wrong-stop", "%s: stop %u was at instruction %u (call depth %u); the breakpoints and step commands so far define the next stop %s", h.where.c_str(), h.stops, instr, depth, want.c_str());
		h.m.hyps = ok; h.stops++;
		if(curExpect && curExpect->pos != t[size_t(ok[0].at)].events) sim::failf("debug:stop-position", "%s: stop %u at instruction %u came after %zu outputs instead of %u", h.where.c_str(), h.stops, instr, curExpect->pos, t[size_t(ok[0].at)].events);
		// a one time breakpoint may count as present until its callback returns
		h.lenient = h.m.bps.count(instr) && !h.m.bps[instr] ? -1 : (long long)instr;
		auto bp = h.m.bps.find(instr); if(bp != h.m.bps.end() && bp->second) h.m.bps.erase(bp), sim::probe("one_hit_hit");
		unsigned response = NULLC_BREAK_PROCEED;
		while(h.pos < h.answers.size())
		{
			const Op &o = h.answers[h.pos++];
			if(o.name == "answer") { response = unsigned(o.arg(0)); break; }
			edit(h, o); sim::probe("edit_in_callback");
		}
		h.lenient = -1;
		if(h.stops > h.limit){ nullcDebugClearBreakpoints(); h.m.bps.clear(); for(auto &y : h.m.hyps) y.armed.clear(); response = NULLC_BREAK_PROCEED; }
		if(response == NULLC_BREAK_STOP && h.stopUsed) response = NULLC_BREAK_PROCEED;
		if(response == NULLC_BREAK_STOP){ h.stopUsed = true; h.stopAt = h.m.hyps[0].at; sim::probe("stop_command"); sim::fault("debugger_stop"); sim::log("answer stop"); return response; }
		if(response)
		{
			std::vector<Hyp> nh;
			for(auto &y : h.m.hyps) for(unsigned x : targets(h, y.at, response)) { Hyp z = y; if(x != NONE && !h.m.bps.count(x)) z.armed.insert(x); bool dup = false; for(auto &q : nh) if(q.at == z.at && q.armed == z.armed) dup = true; if(!dup) nh.push_back(z); }
			if(nh.size() > 64) nh.resize(64), sim::probe("too_many_hypotheses");
			h.m.hyps = nh;
			sim::probe(response == NULLC_BREAK_STEP ? "step" : response == NULLC_BREAK_STEP_INTO ? "step_into" : "step_out");
		}
		sim::log("answer %u", response);
		return response;
	}

	void gen(Rng &r, Plan &p, int)
	{
		prog::makePlan(r, p, int(r.below(8)), [](Profile &f){ f.stmts = f.stmts * 2 / 3; f.fuel = 5000; });
		p.cfg["exec"] = 0; p.cfg["opt"] = r.below(3);
		session::randomCollections(r, p); if(r.coin()) session::randomFaults(r, p, r.range(1, 3), 20);
		int steps = r.range(1, 4);
		for(int s = 0; s < steps; s++)
		{
			// breakpoints set while the program does not run
			int pre = r.range(s ? 0 : 1, 6);
			for(int i = 0; i < pre; i++) switch(r.below(8)){ case 0: p.ops.push_back(Op("clear")); break; case 1: p.ops.push_back(Op("remove", { 1, r.below(3000) })); break; case 2: case 3: p.ops.push_back(Op("once", { r.chance(1, 8) ? r.range(3, 4) : 1, r.below(3000) })); break; default: p.ops.push_back(Op("add", { r.chance(1, 8) ? r.range(3, 4) : r.chance(1, 3) ? 0 : 1, r.chance(1, 2) ? r.below(60) : r.below(3000) })); }
			int answers = r.range(0, r.chance(1, 3) ? 60 : 14); bool stepping = r.coin(); int stopAt = r.chance(1, 4) ? r.range(0, 12) : -1;
			for(int i = 0; i < answers; i++)
			{
				int edits = r.chance(1, 3) ? r.range(1, 4) : 0;
				for(int e = 0; e < edits; e++)
				{
					long long kind = r.below(6) < 4 ? 0 : r.range(1, 4), a = kind == 0 ? (r.chance(1, 3) ? 0 : r.range(-3, 25)) : r.below(5000);
					switch(r.below(10)){ case 0: p.ops.push_back(Op("clear")); break; case 1: case 2: p.ops.push_back(Op("remove", { kind, a })); break; case 3: case 4: case 5: p.ops.push_back(Op("once", { kind, a })); break; default: p.ops.push_back(Op("add", { kind, a })); }
				}
				p.ops.push_back(Op("answer", { i == stopAt ? 4 : stepping ? (r.chance(3, 4) ? r.range(1, 3) : 0) : (r.chance(1, 3) ? r.range(1, 3) : 0) }));
			}
			if(s == 0 || r.chance(1, 4)) p.ops.push_back(Op("run")); else p.ops.push_back(Op("call", { r.range(0, 5), r.range(-20, 100) }));
		}
	}
	void exec(const Plan &plan)
	{
		auto tune = [](Profile &f){ f.stmts = f.stmts * 2 / 3; f.fuel = 5000; };
		std::vector<Trace> traces; unsigned N = 0; bool truncated = false;
		// 1: undebugged, 2: recording, 3: under the debugger
		for(int pass = 1; pass <= 3; pass++)
		{
			session::Session s(plan, tune); Hist h; hist = &h; size_t stepNo = 0; std::vector<Trace> done;
			s.link();
			if(pass == 2){ N = codeSize(); unsigned fc = 0; ExternFuncInfo *f = nullcDebugFunctionInfo(&fc); entries.clear(); for(unsigned i = 0; i < fc; i++) if(f[i].regVmAddress != ~0u) entries.insert(f[i].regVmAddress); nullcDebugSetBreakFunction(nullptr, recordBreak); }
			if(pass == 3){ nullcDebugSetBreakFunction(nullptr, playBreak); h.N = N; h.limit = unsigned(plan.get("limit", 120)); h.m.hyps.push_back(Hyp()); }
			std::vector<Op> pending; bool started = false;
			for(const Op &o : plan.ops)
			{
				if(o.name == "add" || o.name == "once" || o.name == "remove" || o.name == "clear" || o.name == "answer"){ pending.push_back(o); continue; }
				if(o.name != "run" && o.name != "call") continue;
				if(o.name == "call" && (s.p->hostFns.empty() || !started)) { pending.clear(); continue; }
				started = true;
				if(pass == 3)
				{
					if(stepNo >= traces.size()) break;
					h.m.T = &traces[stepNo]; for(auto &y : h.m.hyps) y.at = -1; h.stops = 0; h.stopAt = -1; h.stopUsed = false; h.pos = 0; h.answers.clear();
					h.where = sim::fmt("step %zu (%s)", stepNo, o.name.c_str());
					// operations before the first answer are done before the run, the rest in the callbacks
					size_t k = 0; while(k < pending.size() && pending[k].name != "answer" && k < 3) edit(h, pending[k++]);
					h.answers.assign(pending.begin() + k, pending.end());
				}
				pending.clear();
				Trace tr; rec = &tr; bool isRun = o.name == "run";
				int idx = int(unsigned(o.arg(0)) % unsigned(s.p->hostFns.empty() ? 1 : s.p->hostFns.size())); int arg = int(o.arg(1));
				RefRun rr = s.reference([&]{ return isRun ? s.ref.runMain() : s.ref.callHostFn(idx, arg); });
				std::string where = sim::fmt("%s, %s", pass == 1 ? "undebugged" : pass == 2 ? "a breakpoint at every instruction" : "under the debugger", isRun ? "run" : "call"), name = "hf" + std::to_string(idx);
				prog::Expect e; e.events = rr.events; e.where = where; prog::expect(&e); curExpect = &e;
				eng::Result r; r.built = true;
				if(isRun ? nullcRunFunction(NULL) : nullcRunFunction(name.c_str(), arg)) { r.ok = true; r.value = nullcGetResult(); } else r.error = nullcGetLastError();
				curExpect = nullptr;
				sim::log("%s: ok=%d value=%s error=%s", where.c_str(), r.ok, r.value.c_str(), eng::errorKind(r.error).c_str());
				if(pass == 3 && h.stopAt >= 0)
				{
					// everything ends at the stop
					const Ent &at = h.m.T->t[size_t(h.stopAt)];
					if(r.ok) sim::failf("debug:stop-ignored", "%s: the stop command was answered at instruction %u, the run went on and succeeded", where.c_str(), at.instr);
					if(eng::errorKind(r.error) != "ERROR: execution was stopped after breakpoint") sim::failf("debug:stop-error", "%s: the run stopped by the debugger reports \"%s\"", where.c_str(), eng::errorKind(r.error).c_str());
					if(e.pos != at.events) sim::failf("debug:stop-not-at-once", "%s: the program produced %zu outputs, it was stopped after %u", where.c_str(), e.pos, at.events);
					prog::expect(nullptr);
					// a stopped program is started again
					edit(h, Op("clear")); nullcDebugSetBreakFunction(nullptr, nullptr);
					session::Session again(plan, tune); prog::install(&again.ref);
					again.run(); sim::probe("run_after_stop"); truncated = true;
				}
				else
				{
					prog::compare(where.c_str(), rr, r, e); prog::expect(nullptr); if(!rr.ok) sim::probe("run_ended_in_error");
					if(pass == 3)
					{
						// no stop may be missing
						bool any = false; std::string want; for(auto &y : h.m.hyps){ long long m = h.m.next(y); if(m < 0) any = true; else want = sim::fmt("instruction %u at position %lld of %zu", h.m.T->t[size_t(m)].instr, m, h.m.T->t.size()); }
						if(!any) sim::failf("debug:missing-stop", "%s: the run ended after %u stops without stopping at %s", h.where.c_str(), h.stops, want.c_str());
						std::vector<Hyp> keep; for(auto &y : h.m.hyps) if(h.m.next(y) < 0) keep.push_back(y); h.m.hyps = keep;
						sim::state(mix64(h.stops) ^ hashStr(where) ^ mix64(h.m.T->t.size()));
						if(h.stops > 2) sim::nontrivial();
					}
				}
				if(pass == 2) done.push_back(tr);
				stepNo++;
				if(truncated) break;
			}
		if(pass == 2){ traces = done; nullcDebugClearBreakpoints(); for(auto &t : traces) sim::log("trace %zu", t.t.size()); }
			if(pass == 3) { nullcDebugClearBreakpoints(); }
			nullcDebugSetBreakFunction(nullptr, nullptr);
			arena::checkAll();
		}
	}
	std::string describe(const Plan &plan){ return prog::describe(plan); }
}
static RegisterProperty reg({ "C15", "generated programs under a simulated debugger: breakpoints of both kinds and step commands decided by the plan, also inside break callbacks, against the full instruction trace", warm, gen, exec, describe, 4000, 60000, 40, 600, "a run is non-trivial when a debugged run stopped more than twice; distinct by stop counts and traces", "", "" });
