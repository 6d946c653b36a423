// C18: std.file over a simulated disk (C stdio of the platform on top of it) and std.io over simulated console streams.
#include "eng.h"
#include "NULLC/includes/io.h"
#include <memory>
#include <algorithm>
#include <errno.h>

namespace
{
	typedef std::vector<unsigned char> Bytes;
	struct Disk { std::map<std::string, std::shared_ptr<Bytes>> files; long long capacity = -1; std::map<std::string, u64> calls; std::map<std::pair<std::string, u64>, int> faults; } disk;
	struct Handle { std::shared_ptr<Bytes> data; size_t pos = 0; bool append = false, closed = false; };
	// what the operation in progress really transferred
	struct Truth { Bytes out, in; bool hitEnd = false, readFailed = false, seekFailed = false, seeked = false; int opened = 0, closed = 0; bool openFailed = false; } truth;
	Handle *lastOpened = nullptr; int openHandles = 0;
	bool active = false;

	// the fault for this low level call, if any: kind and a parameter
	bool faultNow(const char *kind, int &arg)
	{
		if(!active) return false;
		auto it = disk.faults.find({ kind, disk.calls[kind]++ }); if(it == disk.faults.end()) return false;
		arg = it->second; sim::fault(kind); return true;
	}
	ssize_t ioRead(void *c, char *b, size_t n)
	{
		Handle *h = (Handle*)c; int a; if(faultNow("read_error", a)){ truth.readFailed = true; errno = EIO; return -1; }
		size_t avail = h->pos < h->data->size() ? h->data->size() - h->pos : 0, k = std::min(n, avail);
		if(k > 1 && faultNow("short_read", a)) k = 1 + size_t(a) % (k - 1);
		if(k) memcpy(b, h->data->data() + h->pos, k);
		if(!k && n) truth.hitEnd = true;
		truth.in.insert(truth.in.end(), (unsigned char*)b, (unsigned char*)b + k); h->pos += k; return ssize_t(k);
	}
	ssize_t ioWrite(void *c, const char *b, size_t n)
	{
		Handle *h = (Handle*)c; int a; if(h->append) h->pos = h->data->size();
		if(faultNow("write_error", a)){ errno = EIO; return 0; }
		size_t k = n; if(n > 0 && faultNow("short_write", a)) k = size_t(a) % n;
		size_t used = 0; for(auto &f : disk.files) used += f.second->size();
		if(disk.capacity >= 0 && h->pos + k > h->data->size()){ size_t grow = h->pos + k - h->data->size(), room = size_t(disk.capacity) > used ? size_t(disk.capacity) - used : 0; if(grow > room){ sim::fault("disk_full"); size_t over = grow - room; k = over >= k ? 0 : k - over; errno = ENOSPC; } }
		if(k && h->pos + k > h->data->size()) h->data->resize(h->pos + k, 0);
		if(k) memcpy(h->data->data() + h->pos, b, k);
		truth.out.insert(truth.out.end(), b, b + k); h->pos += k; return ssize_t(k);
	}
	int ioSeek(void *c, off64_t *off, int whence)
	{
		Handle *h = (Handle*)c; int a; if(faultNow("seek_error", a)){ truth.seekFailed = true; errno = EIO; return -1; }
		long long base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (long long)h->pos : (long long)h->data->size(), t = base + *off;
		if(t < 0){ truth.seekFailed = true; errno = EINVAL; return -1; }
		h->pos = size_t(t); *off = t; truth.seeked = true; return 0;
	}
	int ioClose(void *c)
	{
		Handle *h = (Handle*)c; int a; if(h->closed) sim::fail("file:closed-twice", "a file handle was closed twice");
		h->closed = true; openHandles--; truth.closed++; if(faultNow("close_error", a)){ errno = EIO; return -1; } return 0;
	}
}
extern "C" FILE* sim_fopen(const char *name, const char *mode)
{
	int a; if(!active) return nullptr;
	if(faultNow("open_error", a)){ truth.openFailed = true; errno = EACCES; return nullptr; }
	auto it = disk.files.find(name); char m = mode[0];
	if(m != 'r' && m != 'w' && m != 'a'){ truth.openFailed = true; errno = EINVAL; return nullptr; }
	if(m == 'r' && it == disk.files.end()){ truth.openFailed = true; errno = ENOENT; return nullptr; }
	if(it == disk.files.end()) it = disk.files.insert({ name, std::make_shared<Bytes>() }).first;
	if(m == 'w') it->second->clear();
	static std::vector<std::unique_ptr<Handle>> all; all.emplace_back(new Handle()); Handle *h = all.back().get(); h->data = it->second; h->append = m == 'a';
	cookie_io_functions_t fn = { ioRead, ioWrite, ioSeek, ioClose };
	FILE *f = fopencookie(h, mode, fn); if(!f){ truth.openFailed = true; return nullptr; }
	setvbuf(f, nullptr, _IONBF, 0);	// every transfer reaches the simulated disk at once
	openHandles++; truth.opened++; lastOpened = h; return f;
}

namespace
{
	const char *script =
		"import std.file; import std.io; import std.error;\n"
		"File[5] f; char[] buf; long lastL; double lastD; int gint;\n"
		"char[] name(int i){ if(i == 0) return \"f0\"; if(i == 1) return \"f1\"; if(i == 2) return \"f2\"; return \"f3\"; }\n"
		"char[] mode(int i){ if(i == 0) return \"rb\"; if(i == 1) return \"wb\"; if(i == 2) return \"ab\"; if(i == 3) return \"r+b\"; if(i == 4) return \"w+b\"; if(i == 5) return \"a+b\"; return \"?\"; }\n"
		"int fo(int h, int n, int m){ f[h].Open(name(n), mode(m)); return f[h].Opened(); }\n"
		"int fn(int h, int n, int m){ f[h] = File(name(n), mode(m)); return f[h].Opened(); }\n"
		"int fc(int h){ f[h].Close(); return 0; }\n"
		"int fp(int h){ return f[h].Opened(); }\n"
		"int fe(int h){ return f[h].Eof(); }\n"
		"int fs(int h, int o, int s){ if(o == 0) f[h].Seek(Seek.SET, s); else if(o == 1) f[h].Seek(Seek.CUR, s); else f[h].Seek(Seek.END, s); return 0; }\n"
		"int ft(int h){ lastL = f[h].Tell(); return 0; }\n"
		"int fz(int h){ lastL = f[h].Size(); return 0; }\n"
		"int w0(int h, long v){ return f[h].Write(char(v)); }\n"
		"int w1(int h, long v){ return f[h].Write(short(v)); }\n"
		"int w2(int h, long v){ return f[h].Write(int(v)); }\n"
		"int w3(int h, long v){ return f[h].Write(v); }\n"
		"int w4(int h, long v){ return f[h].Write(float(int(v))); }\n"
		"int w5(int h, long v){ return f[h].Write(double(int(v))); }\n"
		"int r0(int h){ char x = 'z'; int r = f[h].Read(&x); lastL = x; return r; }\n"
		"int r1(int h){ short x = 77; int r = f[h].Read(&x); lastL = x; return r; }\n"
		"int r2(int h){ int x = 77; int r = f[h].Read(&x); lastL = x; return r; }\n"
		"int r3(int h){ long x = 77; int r = f[h].Read(&x); lastL = x; return r; }\n"
		"int r4(int h){ float x = 77; int r = f[h].Read(&x); lastD = x; return r; }\n"
		"int r5(int h){ double x = 77; int r = f[h].Read(&x); lastD = x; return r; }\n"
		"int mk(int n){ if(n < 0) buf = nullptr; else buf = new char[n]; return 0; }\n"
		"int ra(int h){ return f[h].Read(buf); }\n"
		"int wa(int h){ return f[h].Write(buf); }\n"
		"int pa(int h){ return f[h].Print(buf); }\n"
		"int ro(int h, int o, int n){ return f[h].Read(buf, o, n); }\n"
		"int wo(int h, int o, int n){ return f[h].Write(buf, o, n); }\n"
		"int nullop(int k){ File ref n; if(k == 0) n.Close(); else if(k == 1) n.Write(5); else if(k == 2) return n.Eof(); else n.Open(\"f0\", \"wb\"); return 0; }\n"
		"int ip(){ Print(buf); return 0; }\n"
		"int iw(){ Write(buf); return 0; }\n"
		"int ii(int v, int b){ Print(v, b); return 0; }\n"
		"int il(long v, int b){ Print(v, b); return 0; }\n"
		"int ic(int v){ Print(char(v)); return 0; }\n"
		"int inl(){ return Input(buf); }\n"
		"int inn(){ gint = 77; Input(&gint); return 0; }\n"
		"int inz(){ int ref p; Input(p); return 0; }\n"
		"return 1;\n";

	struct Console { Bytes out, in; size_t pos = 0; std::map<u64, int> eofAt; u64 reads = 0; u64 acceptAll = 1; std::map<u64, int> shortWrites; u64 writes = 0; } con;
	unsigned conWrite(void *, char *d, unsigned n)
	{
		auto it = con.shortWrites.find(con.writes++); unsigned k = n; if(it != con.shortWrites.end()){ sim::fault("console_write_fails"); k = 0; (void)k; }
		con.out.insert(con.out.end(), d, d + n); return k;
	}
	unsigned conRead(void *, char *d, unsigned n)
	{
		u64 r = con.reads++; if(con.eofAt.count(r)){ sim::fault("console_end_of_input"); return 0; }
		if(con.pos >= con.in.size() || !n) return 0;
		*d = char(con.in[con.pos++]); return 1;
	}
	void warm(){ eng::warm(); }

	void gen(Rng &r, Plan &p, int)
	{
		p.cfg["exec"] = r.below(2); p.cfg["opt"] = r.below(3); p.cfg["id_input"] = (long long)(r.next() >> 2);
		if(r.chance(1, 3)) p.cfg["capacity"] = r.range(0, 300);
		if(r.chance(1, 4)) p.cfg["gc_period"] = r.range(1, 6);
		int n = r.range(10, 70); bool console = r.chance(1, 3);
		for(int i = 0; i < n; i++)
		{
			long long h = r.below(r.coin() ? 2 : 5);
			if(console && r.coin()) switch(r.below(8))
			{
			case 0: p.ops.push_back(Op("iprint", { r.below(40), (long long)r.next() >> 3 })); continue;
			case 1: p.ops.push_back(Op("iwrite", { (long long)r.range(-1, 30), (long long)r.next() >> 3 })); continue;
			case 2: p.ops.push_back(Op("iint", { (long long)(int)r.next(), r.range(-1, 18) })); continue;
			case 3: p.ops.push_back(Op("ilong", { r.chance(1, 8) ? (long long)0x8000000000000000ull : (long long)r.next(), r.range(1, 17) })); continue;
			case 4: p.ops.push_back(Op("ichar", { r.below(256) })); continue;
			case 5: case 6: p.ops.push_back(Op("input", { (long long)r.range(-1, r.coin() ? 8 : 80) })); continue;
			default: p.ops.push_back(Op(r.chance(1, 6) ? "inputnull" : "inputint", {})); continue;
			}
			switch(r.below(22))
			{
			case 0: case 1: case 2: p.ops.push_back(Op(r.coin() ? "open" : "create", { h, r.below(4), r.chance(1, 15) ? 6 : r.below(6) })); break;
			case 3: p.ops.push_back(Op("close", { h })); break;
			case 4: p.ops.push_back(Op("opened", { h })); break;
			case 5: p.ops.push_back(Op("eof", { h })); break;
			case 6: case 7: p.ops.push_back(Op("seek", { h, r.below(3), r.chance(1, 4) ? -(long long)r.below(40) : r.below(60) })); break;
			case 8: p.ops.push_back(Op("tell", { h })); break;
			case 9: p.ops.push_back(Op("size", { h })); break;
			case 10: case 11: case 12: p.ops.push_back(Op("wtype", { h, r.below(6), (long long)r.next() })); break;
			case 13: case 14: p.ops.push_back(Op("rtype", { h, r.below(6) })); break;
			case 15: p.ops.push_back(Op("rarr", { h, (long long)r.range(-1, 60) })); break;
			case 16: case 17: p.ops.push_back(Op("warr", { h, (long long)r.range(-1, 60), (long long)(r.next() >> 2) })); break;
			case 18: p.ops.push_back(Op("print", { h, (long long)r.range(-1, 60), (long long)(r.next() >> 2) })); break;
			case 19: p.ops.push_back(Op("rpart", { h, (long long)r.range(-1, 40), (long long)r.range(-2, 30), (long long)r.range(-2, 40) })); break;
			case 20: p.ops.push_back(Op("wpart", { h, (long long)r.range(-1, 40), (long long)r.range(-2, 30), (long long)r.range(-2, 40), (long long)(r.next() >> 2) })); break;
			default: p.ops.push_back(r.chance(1, 3) ? Op("nullop", { r.below(4) }) : Op("close", { h })); break;
			}
		}
		int nf = r.chance(1, 4) ? 0 : r.range(1, 8); static const char *kinds[] = { "open_error", "read_error", "short_read", "write_error", "short_write", "seek_error", "close_error" };
		for(int i = 0; i < nf; i++) p.ops.push_back(Op("fault", { r.below(u32(n) / 4 + 2), r.below(100) }, kinds[r.below(7)]));
		int ne = console ? r.below(4) : 0; for(int i = 0; i < ne; i++) p.ops.push_back(Op("conend", { r.below(200) }));
		if(console && r.coin()) p.ops.push_back(Op("confail", { r.below(60) }));
	}

	struct Slot { bool open = false, readable = false, writable = false, append = false; Handle *h = nullptr; int eof = 0; };	// eof: 0 no, 1 yes, 2 unknown
	struct World
	{
		int exec, opt; Slot s[5]; size_t nop = 0; std::string op;
		[[noreturn]] void bad(const char *cls, const std::string &m){ sim::fail(cls, sim::fmt("%s, optimization %d, operation %zu (%s): %s", exec ? "x86" : "interpreter", opt, nop, op.c_str(), m.c_str())); }
		bool ok = false; int ret = 0; std::string err;
		template<typename... A> void call(const char *fn, A... a)
		{
			truth = Truth(); ok = nullcRunFunction(fn, a...) != 0; ret = ok ? nullcGetResultInt() : 0; err = ok ? "" : eng::errorKind(nullcGetLastError());
			sim::log("%s -> %d %d %s out %zu in %zu", fn, ok, ret, err.c_str(), truth.out.size(), truth.in.size()); sim::step();
			if(!ok) sim::probe("operation_reports_an_error");
		}
		long long glong(const char *n){ long long v = 0; nullcGetGlobal(n) ? memcpy(&v, nullcGetGlobal(n), 8) : nullptr; return v; }
		NULLCArray array(){ return *(NULLCArray*)nullcGetGlobal("buf"); }
		void mk(int n, u64 fill)
		{
			call("mk", n); if(!ok) bad("file:setup", err); if(n <= 0) return; NULLCArray a = array(); Rng r(fill);
			for(int i = 0; i < n; i++) a.ptr[i] = char(r.chance(1, 12) ? 0 : r.below(256));
			shadow.assign(a.ptr, a.ptr + n);
		}
		Bytes shadow; // content of buf before the operation
		void expectClosedError(){ if(ok || err.find("closed file") == std::string::npos) bad("file:closed", "an operation on a file that is not open did not report an error (" + (ok ? std::string("success") : err) + ")"); }
		void expectOk(){ if(!ok) bad("file:error", "unexpected error: " + err); }
		// position and content: what was really transferred, checked against the value reported
		void noTransfer(){ if(!truth.out.empty() || !truth.in.empty()) bad("file:stray-transfer", "data was transferred by an operation that transfers nothing"); }
	};
	size_t sizes[] = { 1, 2, 4, 8, 4, 8 };

	void exec(const Plan &plan)
	{
		World w; w.exec = int(plan.get("exec")); w.opt = int(plan.get("opt")); std::string e;
		disk = Disk(); disk.capacity = plan.get("capacity", -1); con = Console(); openHandles = 0;
		{ Rng r(u64(plan.get("id_input"))); int lines = r.range(0, 12); for(int i = 0; i < lines; i++){ int n = r.chance(1, 10) ? r.range(2000, 2100) : r.below(30); bool num = r.coin(); if(num){ std::string t = std::to_string((int)r.next()); con.in.insert(con.in.end(), t.begin(), t.end()); } else for(int k = 0; k < n; k++) con.in.push_back((unsigned char)r.range(32, 126)); if(i + 1 < lines || r.coin()) con.in.push_back('\n'); } }
		for(auto &o : plan.ops){ if(o.name == "fault") disk.faults[{ o.s, u64(o.arg(0)) }] = int(o.arg(1)); if(o.name == "conend") con.eofAt[u64(o.arg(0))] = 1; if(o.name == "confail") con.shortWrites[u64(o.arg(0))] = 1; }
		if(!nullcInitIOModule(nullptr, conWrite, conRead)) sim::fail("file:io-module", nullcGetLastError());
		if(!eng::build(script, w.exec, w.opt, e)) sim::fail("file:not-built", e);
		gcsim::configure(plan); active = true; if(!nullcRunFunction(NULL)) sim::fail("file:main", nullcGetLastError());
		int transfers = 0;
		for(auto &o : plan.ops)
		{
			w.nop++; w.op = o.name; int h = int(u64(o.arg(0)) % 5); Slot &s = w.s[h];
			if(o.name == "open" || o.name == "create")
			{
				if(o.name == "create" && s.open) w.op = "open";
				bool was = s.open; int m = int(o.arg(2)) % 7; w.call(w.op == "open" ? "fo" : "fn", h, int(o.arg(1)) % 4, m); w.expectOk(); w.noTransfer();
				if(was && truth.closed != 1) w.bad("file:not-closed", sim::fmt("the file that was open before was closed %d times", truth.closed));
				if(!was && truth.closed) w.bad("file:stray-close", "a file was closed");
				bool got = truth.opened == 1; if(truth.opened > 1) w.bad("file:opened-twice", "the file was opened more than once");
				if(w.ret != int(got)) w.bad("file:opened", sim::fmt("Opened reports %d, the file was %s", w.ret, got ? "opened" : "not opened"));
				s = Slot(); s.open = got; if(got){ s.h = lastOpened; s.readable = m == 0 || m >= 3; s.writable = m != 0; s.append = m == 2 || m == 5; }
			}
			else if(o.name == "close"){ bool was = s.open; w.call("fc", h); w.expectOk(); w.noTransfer(); if(truth.closed != int(was)) w.bad("file:close", sim::fmt("the file was closed %d times, expected %d", truth.closed, int(was))); s = Slot(); }
			else if(o.name == "opened"){ w.call("fp", h); w.expectOk(); w.noTransfer(); if(w.ret != int(s.open)) w.bad("file:opened", sim::fmt("Opened reports %d, expected %d", w.ret, int(s.open))); }
			else if(o.name == "eof"){ w.call("fe", h); w.expectOk(); w.noTransfer(); int want = s.open ? s.eof : 1; if(want != 2 && w.ret != want) w.bad("file:eof", sim::fmt("Eof reports %d, expected %d", w.ret, want)); }
			else if(o.name == "seek")
			{
				size_t before = s.open ? s.h->pos : 0; w.call("fs", h, int(o.arg(1)) % 3, int(o.arg(2))); w.noTransfer(); if(!s.open){ w.expectClosedError(); continue; } w.expectOk();
				long long org = o.arg(1) % 3, t = (org == 0 ? 0 : org == 1 ? (long long)before : (long long)s.h->data->size()) + o.arg(2);
				if(truth.seekFailed || t < 0){ s.eof = 2; if(s.h->pos != before && t < 0) w.bad("file:seek", "a seek before the start of the file moved the position"); }
				else { s.eof = 0; if((long long)s.h->pos != t) w.bad("file:seek", sim::fmt("the position is %zu, expected %lld", s.h->pos, t)); }
			}
			else if(o.name == "tell"){ w.call("ft", h); w.noTransfer(); if(!s.open){ w.expectClosedError(); continue; } w.expectOk(); long long v = w.glong("lastL"); if(truth.seekFailed ? (v != -1 && v != (long long)s.h->pos) : (!s.append && v != (long long)s.h->pos)) w.bad("file:tell", sim::fmt("Tell reports %lld, the position is %zu", v, s.h->pos)); }
			else if(o.name == "size")
			{
				size_t before = s.open ? s.h->pos : 0; w.call("fz", h); w.noTransfer(); if(!s.open){ w.expectClosedError(); continue; } w.expectOk(); long long v = w.glong("lastL"), want = (long long)s.h->data->size();
				if(truth.seekFailed){ if(v != -1 && v != want) w.bad("file:size", sim::fmt("Size reports %lld after a failed operation, the size is %lld", v, want)); if(v != -1 && s.h->pos != before && !s.append) w.bad("file:size-moves", "Size reports success but moved the position in the file"); s.eof = 2; continue; }
				if(v != want) w.bad("file:size", sim::fmt("Size reports %lld, the size is %lld", v, want)); if(s.h->pos != before && !s.append) w.bad("file:size-moves", "Size moved the position in the file"); s.eof = 2;
			}
			else if(o.name == "wtype")
			{
				size_t before = s.open ? (s.append ? s.h->data->size() : s.h->pos) : 0; int k = int(o.arg(1)) % 6; w.call(sim::fmt("w%d", k).c_str(), h, o.arg(2)); if(!s.open){ w.expectClosedError(); w.noTransfer(); continue; } w.expectOk();
				long long v = o.arg(2); float f = float(int(v)); double d = double(int(v)); unsigned char raw[8]; if(k == 4) memcpy(raw, &f, 4); else if(k == 5) memcpy(raw, &d, 8); else memcpy(raw, &v, 8);
				bool all = truth.out.size() == sizes[k]; if(truth.out.size() > sizes[k] || memcmp(truth.out.data(), raw, truth.out.size())) w.bad("file:written-data", "the bytes written are not those of the value");
				if(!s.writable && !truth.out.empty()) w.bad("file:read-only", "a file opened for reading was written");
				if((w.ret != 0) != all) w.bad("file:write-result", sim::fmt("Write reports %d, %zu of %zu bytes reached the file", w.ret, truth.out.size(), sizes[k]));
				if(s.h->pos != before + truth.out.size()) w.bad("file:position", sim::fmt("the position after a write is %zu, expected %zu", s.h->pos, before + truth.out.size())); if(!truth.out.empty()) transfers++; if(!s.writable) s.eof = 2;
			}
			else if(o.name == "rtype")
			{
				size_t before = s.open ? s.h->pos : 0; int k = int(o.arg(1)) % 6; w.call(sim::fmt("r%d", k).c_str(), h); if(!s.open){ w.expectClosedError(); w.noTransfer(); continue; } w.expectOk();
				bool all = truth.in.size() == sizes[k]; if((w.ret != 0) != all) w.bad("file:read-result", sim::fmt("Read reports %d, %zu of %zu bytes came from the file", w.ret, truth.in.size(), sizes[k]));
				if(!s.readable && !truth.in.empty()) w.bad("file:write-only", "a file opened for writing was read");
				if(all){ unsigned char raw[8] = { 0 }; memcpy(raw, s.h->data->data() + before, sizes[k]); long long want = 0; if(k == 0) want = (signed char)raw[0]; else if(k == 1){ short t; memcpy(&t, raw, 2); want = t; } else if(k == 2){ int t; memcpy(&t, raw, 4); want = t; } else if(k == 3) memcpy(&want, raw, 8);
					if(k < 4){ long long v = w.glong("lastL"); if(v != want) w.bad("file:read-data", sim::fmt("the value read is %lld, the file holds %lld", v, want)); }
					else { double dw; if(k == 4){ float t; memcpy(&t, raw, 4); dw = t; } else memcpy(&dw, raw, 8); double v; memcpy(&v, nullcGetGlobal("lastD"), 8); if(memcmp(&v, &dw, 8) && !(v != v && dw != dw)) w.bad("file:read-data", sim::fmt("the value read is %g, the file holds %g", v, dw)); } }
				if(truth.hitEnd) s.eof = 1; if(!s.readable) s.eof = 2; if(!truth.in.empty()) transfers++;
			}
			else if(o.name == "rarr" || o.name == "rpart")
			{
				bool part = o.name == "rpart"; int n = int(o.arg(1)), off = part ? int(o.arg(2)) : 0, cnt = part ? int(o.arg(3)) : n; w.mk(n, 99); size_t before = s.open ? s.h->pos : 0;
				if(part) w.call("ro", h, off, cnt); else w.call("ra", h); if(!s.open){ w.expectClosedError(); w.noTransfer(); continue; }
				long long len = n < 0 ? 0 : n; bool fits = !part || (off >= 0 && cnt >= 0 && (long long)off + cnt <= len);
				NULLCArray a = w.array();
				if(!fits){ if(w.ok || w.err.find("rray") == std::string::npos) w.bad("file:bounds", sim::fmt("a transfer of %d bytes at offset %d of an array of %lld did not report an error (%s)", cnt, off, len, w.err.c_str())); w.noTransfer(); for(long long i = 0; i < len; i++) if((unsigned char)a.ptr[i] != w.shadow[size_t(i)]) w.bad("file:array", "a rejected read changed the array"); continue; }
				w.expectOk(); if(n < 0) cnt = 0;
				if(w.ret < 0 || size_t(w.ret) != truth.in.size() || w.ret > cnt) w.bad("file:read-result", sim::fmt("Read reports %d bytes, %zu came from the file (%d requested)", w.ret, truth.in.size(), cnt));
				if(!s.readable && !truth.in.empty()) w.bad("file:write-only", "a file opened for writing was read");
				for(long long i = 0; i < len; i++){ bool inside = i >= off && i < off + w.ret; unsigned char want = inside ? (*s.h->data)[before + size_t(i - off)] : w.shadow[size_t(i)]; if((unsigned char)a.ptr[i] != want && !(i >= off && i < off + cnt && !inside)) w.bad("file:read-data", sim::fmt("byte %lld of the array is %d, expected %d (%s)", i, (unsigned char)a.ptr[i], want, inside ? "inside of the data read" : "outside of the range given")); }
				if(truth.hitEnd) s.eof = 1; if(!s.readable) s.eof = 2; if(w.ret) transfers++;
			}
			else if(o.name == "warr" || o.name == "wpart" || o.name == "print")
			{
				bool part = o.name == "wpart"; int n = int(o.arg(1)), off = part ? int(o.arg(2)) : 0, cnt = part ? int(o.arg(3)) : n; w.mk(n, u64(o.arg(part ? 4 : 2))); size_t before = s.open ? (s.append ? s.h->data->size() : s.h->pos) : 0;
				if(part) w.call("wo", h, off, cnt); else w.call(o.name == "print" ? "pa" : "wa", h); if(!s.open){ w.expectClosedError(); w.noTransfer(); continue; }
				long long len = n < 0 ? 0 : n; bool fits = !part || (off >= 0 && cnt >= 0 && (long long)off + cnt <= len);
				if(!fits){ if(w.ok || w.err.find("rray") == std::string::npos) w.bad("file:bounds", sim::fmt("a transfer of %d bytes at offset %d of an array of %lld did not report an error (%s)", cnt, off, len, w.err.c_str())); w.noTransfer(); continue; }
				w.expectOk(); if(n < 0) cnt = 0; if(o.name == "print"){ int k = 0; while(k < cnt && w.shadow[size_t(k)]) k++; cnt = k; }
				if(truth.out.size() > size_t(cnt) || (truth.out.size() && memcmp(truth.out.data(), w.shadow.data() + off, truth.out.size()))) w.bad("file:written-data", "the bytes written are not those of the array");
				if(!s.writable && !truth.out.empty()) w.bad("file:read-only", "a file opened for reading was written");
				if(o.name == "print"){ bool all = truth.out.size() == size_t(cnt); if(n >= 0 && (w.ret != 0) != all) w.bad("file:write-result", sim::fmt("Print reports %d, %zu of %d bytes reached the file", w.ret, truth.out.size(), cnt)); }
				else if(size_t(w.ret) != truth.out.size()) w.bad("file:write-result", sim::fmt("Write reports %d bytes, %zu reached the file (%d given)", w.ret, truth.out.size(), cnt));
				if(!truth.out.empty()){ if(s.h->pos != before + truth.out.size()) w.bad("file:position", sim::fmt("the position after a write is %zu, expected %zu", s.h->pos, before + truth.out.size())); transfers++; } if(!s.writable) s.eof = 2;
			}
			else if(o.name == "nullop"){ w.call("nullop", int(o.arg(0)) % 4); w.noTransfer(); if(w.ok || w.err.find("null pointer") == std::string::npos) w.bad("file:null", "an operation on a null file did not report an error: " + w.err); if(truth.opened || truth.closed) w.bad("file:null", "an operation on a null file opened or closed a file"); }
			else if(o.name == "iprint" || o.name == "iwrite")
			{
				bool exact = o.name == "iwrite"; int n = int(o.arg(0)); w.mk(n, u64(o.arg(1))); size_t before = con.out.size(); w.call(exact ? "iw" : "ip");
				if(n < 0 && exact){ if(w.ok) w.bad("console:null", "Write of a null array did not report an error"); if(con.out.size() != before) w.bad("console:output", "output appeared"); continue; }
				w.expectOk(); Bytes want; for(int i = 0; i < n; i++){ if(!exact && !w.shadow[size_t(i)]) break; want.push_back(w.shadow[size_t(i)]); }
				Bytes got(con.out.begin() + long(before), con.out.end()); if(got != want) w.bad("console:output", sim::fmt("%zu bytes were written to the console, expected %zu, or they differ", got.size(), want.size())); transfers++;
			}
			else if(o.name == "iint" || o.name == "ilong" || o.name == "ichar")
			{
				size_t before = con.out.size(); std::string want; long long v = o.arg(0); int b = int(o.arg(1)); bool good = true;
				if(o.name == "ichar"){ w.call("ic", int(v)); want = std::string(1, char(v)); }
				else { if(o.name == "iint"){ v = (int)v; w.call("ii", int(v), b); } else w.call("il", v, b); good = b > 1 && b <= 16; if(good){ unsigned long long u = v < 0 ? 0ull - (unsigned long long)v : (unsigned long long)v; do { want += "0123456789abcdef"[u % unsigned(b)]; u /= unsigned(b); } while(u); if(v < 0) want += '-'; std::reverse(want.begin(), want.end()); } }
				std::string got(con.out.begin() + long(before), con.out.end());
				if(!good){ if(w.ok || w.err.find("base") == std::string::npos) w.bad("console:base", "an impossible base was accepted"); if(!got.empty()) w.bad("console:output", "output appeared"); continue; }
				w.expectOk(); if(got != want) w.bad("console:number", sim::fmt("printed '%s', expected '%s'", got.c_str(), want.c_str()));
			}
			else if(o.name == "input")
			{
				int n = int(o.arg(0)); w.mk(n, 5); size_t before = con.pos; w.call("inl"); if(n < 0){ if(w.ok) w.bad("console:null", "Input into a null array did not report an error"); continue; }
				w.expectOk(); Bytes line(con.in.begin() + long(before), con.in.begin() + long(con.pos)); if(!line.empty() && line.back() == '\n') line.pop_back();
				if(n == 0){ if(w.ret != 0) w.bad("console:input", "Input into an empty array reports characters"); continue; }
				size_t k = std::min(line.size(), size_t(n) - 1); NULLCArray a = w.array();
				if(w.ret < 0 || size_t(w.ret) != k) w.bad("console:input-count", sim::fmt("Input reports %d characters, %zu were placed in the array", w.ret, k));
				if(memcmp(a.ptr, line.data(), k) || a.ptr[k]) w.bad("console:input-data", "the array does not hold the line followed by a zero");
				transfers++;
			}
			else if(o.name == "inputint")
			{
				size_t before = con.pos; w.call("inn"); std::string line(con.in.begin() + long(before), con.in.begin() + long(con.pos)); int v = 0, got; memcpy(&got, nullcGetGlobal("gint"), 4);
				bool good = sscanf(line.substr(0, 127).c_str(), "%d", &v) == 1; if(!good){ if(w.ok) w.bad("console:input-int", "Input of a number succeeded without a number"); if(got != 77) w.bad("console:input-int", "a failed Input changed the variable"); continue; }
				w.expectOk(); if(got != v) w.bad("console:input-int", sim::fmt("the number read is %d, the input was '%s'", got, line.c_str()));
			}
			else if(o.name == "inputnull"){ w.call("inz"); if(w.ok) w.bad("console:null", "Input into a null reference did not report an error"); }
			else continue;
			int want = 0; for(auto &x : w.s) want += x.open; if(openHandles != want) w.bad("file:handles", sim::fmt("%d files are open on the disk, %d in the program", openHandles, want));
		}
		// no state may be buffered anywhere: the disk already holds what the program was told
		if(transfers) sim::nontrivial(); sim::state(u64(transfers)); arena::checkAll(); active = false;
	}
	std::string desc(const Plan &){ return std::string("program:\n") + script; }
}
static RegisterProperty r18({ "C18", "a script's files on a simulated disk with failing, short and refused operations at seeded low level calls, a disk that fills up, and a console with ends of input", warm, gen, exec, desc, 40000, 2000000, 25, 900, "a run that transferred data; distinct by event hash",
	"compiler, executors, std.file and std.io bindings, C stdio: real (unbuffered)", "disk, console streams, host allocator" });
