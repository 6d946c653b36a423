// Orchestration: seeded search over runs in forked children, violation gating, minimisation, replay, evidence.
#include "sim.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <errno.h>
#include <time.h>
#include <poll.h>
#include <algorithm>
#include <unordered_set>
#include <set>

Shm *shm = nullptr;
static std::vector<Property>& props(){ static std::vector<Property> v; return v; }
void registerProperty(const Property &p){ props().push_back(p); }
static std::vector<Directed>& directed(){ static std::vector<Directed> v; return v; }
void addDirected(const Directed &d){ directed().push_back(d); }

std::string Plan::text() const
{
	std::string t = "property " + prop + "\nseed " + std::to_string(seed) + "\n";
	for(auto &c : cfg) t += "cfg " + c.first + " " + std::to_string(c.second) + "\n";
	for(auto &o : ops)
	{
		t += "op " + o.name;
		for(auto x : o.a) t += " " + std::to_string(x);
		if(!o.s.empty())
		{
			t += " \"";
			for(unsigned char ch : o.s) { if(ch == '"' || ch == '\\' || ch < 32 || ch > 126){ char b[8]; snprintf(b, 8, "\\x%02x", ch); t += b; } else t += char(ch); }
			t += "\"";
		}
		t += "\n";
	}
	return t;
}
bool Plan::parse(const std::string &t)
{
	size_t pos = 0;
	while(pos < t.size())
	{
		size_t e = t.find('\n', pos); if(e == std::string::npos) e = t.size();
		std::string l = t.substr(pos, e - pos); pos = e + 1;
		if(l.empty() || l[0] == '#') continue;
		auto sp = l.find(' '); std::string k = l.substr(0, sp), r = sp == std::string::npos ? "" : l.substr(sp + 1);
		if(k == "property") prop = r;
		else if(k == "seed") seed = strtoull(r.c_str(), 0, 10);
		else if(k == "cfg"){ auto s2 = r.find(' '); if(s2 == std::string::npos) return false; cfg[r.substr(0, s2)] = atoll(r.c_str() + s2 + 1); }
		else if(k == "op")
		{
			Op o; auto q = r.find('"'); std::string head = r.substr(0, q);
			size_t i = 0; std::vector<std::string> w;
			while(i < head.size()){ while(i < head.size() && head[i] == ' ') i++; size_t j = i; while(j < head.size() && head[j] != ' ') j++; if(j > i) w.push_back(head.substr(i, j - i)); i = j; }
			if(w.empty()) return false;
			o.name = w[0]; for(size_t n = 1; n < w.size(); n++) o.a.push_back(atoll(w[n].c_str()));
			if(q != std::string::npos)
				for(size_t n = q + 1; n < r.size() && r[n] != '"'; n++) { if(r[n] == '\\' && n + 3 < r.size() && r[n + 1] == 'x'){ o.s += char(strtol(r.substr(n + 2, 2).c_str(), 0, 16)); n += 3; } else o.s += r[n]; }
			ops.push_back(o);
		}
		else if(k == "violation" || k == "hash" || k == "message") {}
		else return false;
	}
	return !prop.empty();
}

namespace sim
{
	bool verbose = false, inRun = false;
	std::string fmt(const char *f, ...){ char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
	static void addLog(const char *b, size_t n)
	{
		shm->hash = hashStr(b, n, shm->hash); shm->hash = hashStr("\n", 1, shm->hash); shm->events++;
		if(verbose) fprintf(stderr, "  %s\n", b);
		// ring of the last events
		for(size_t i = 0; i < n && i < 400; i++) shm->tail[shm->tailLen++ % sizeof shm->tail] = b[i];
		shm->tail[shm->tailLen++ % sizeof shm->tail] = '\n';
	}
	void log(const char *f, ...){ char b[2048]; va_list a; va_start(a, f); int n = vsnprintf(b, sizeof b, f, a); va_end(a); if(n < 0) n = 0; if(n >= (int)sizeof b) n = sizeof b - 1; addLog(b, size_t(n)); }
	void logText(const std::string &s){ addLog(s.c_str(), s.size()); }
	void fail(const std::string &cls, const std::string &msg)
	{
		snprintf(shm->cls, sizeof shm->cls, "%s", cls.c_str()); snprintf(shm->msg, sizeof shm->msg, "%s", msg.c_str());
		shm->status = 2;
		_exit(0);
	}
	void failf(const char *cls, const char *f, ...){ char b[5000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); fail(cls, b); }
	void done(){ shm->status = 1; _exit(0); }
	static void bump(Counter *c, u32 &n, u32 cap, const char *name, u64 k)
	{
		for(u32 i = 0; i < n; i++) if(!strncmp(c[i].name, name, 47)){ c[i].n += k; return; }
		if(n < cap){ snprintf(c[n].name, 48, "%s", name); c[n].n = k; n++; }
	}
	void fault(const char *k, u64 n){ if(n) bump(shm->faults, shm->nfaults, 64, k, n); }
	void probe(const char *k, u64 n){ if(n) bump(shm->probes, shm->nprobes, 192, k, n); }
	void state(u64 s){ if(shm->nstates < 2048) shm->states[shm->nstates++] = s; }
	void step(u64 n){ shm->steps += n; }
	void nontrivial(){ shm->nontrivial = 1; }
	void advance(u64 us){ shm->simTimeUs += us; }
}

struct Outcome { int status = 0; std::string cls, msg, tail; u64 hash = 0; };

static int errFd = -1;
static const Property *cur = nullptr;

static std::string readErr()
{
	char b[3000]; lseek(errFd, 0, SEEK_SET); ssize_t n = read(errFd, b, sizeof b - 1); if(n < 0) n = 0; b[n] = 0; return b;
}

static void resetShm(){ memset(shm, 0, offsetof(Shm, states)); shm->tailLen = 0; shm->hash = 1469598103934665603ull; }

static Outcome runPlan(const Plan &p)
{
	resetShm();
	if(ftruncate(errFd, 0)){}
	lseek(errFd, 0, SEEK_SET);
	fflush(stdout); fflush(stderr);
	pid_t pid = fork();
	if(pid == 0)
	{
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		struct rlimit rl = { 20, 25 }; setrlimit(RLIMIT_CPU, &rl);
		rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
		if(!sim::verbose){ dup2(errFd, 2); int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); }
		sim::inRun = true;
		void (*ex)(const Plan&) = cur->execute;
		for(auto &d : directed()) if(d.prop == p.prop && !p.ops.empty() && p.ops[0].name == "=directed" && p.ops[0].s == d.name) ex = d.execute;
		ex(p);
		shm->status = 1;
		_exit(0);
	}
	int st = 0;
	while(waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
	Outcome o; o.hash = shm->hash; o.status = shm->status;
	if(shm->status == 2){ o.cls = shm->cls; o.msg = shm->msg; }
	else if(WIFSIGNALED(st))
	{
		o.status = 2; int sg = WTERMSIG(st);
		if(sg == SIGXCPU || sg == SIGKILL){ o.cls = "hang"; o.msg = "the run used its whole CPU budget without finishing"; }
		else
		{
			std::string e = readErr(); std::string key;
			size_t a = e.find("Assertion `");
			if(a != std::string::npos){ size_t z = e.find("' failed", a); key = e.substr(a + 11, z == std::string::npos ? 60 : z - a - 11); if(key.size() > 90) key.resize(90); }
			o.cls = sim::fmt("crash:%s%s%s", sg == SIGSEGV ? "SIGSEGV" : sg == SIGABRT ? "SIGABRT" : sg == SIGFPE ? "SIGFPE" : sg == SIGBUS ? "SIGBUS" : sg == SIGILL ? "SIGILL" : "signal", key.empty() ? "" : ":", key.c_str());
			o.msg = sim::fmt("the process was terminated by signal %d\n", sg) + e;
		}
	}
	else if(shm->status != 1)
	{
		o.status = 2; o.cls = sim::fmt("crash:exit%d", WIFEXITED(st) ? WEXITSTATUS(st) : -1); o.msg = "the process exited in the middle of a run\n" + readErr();
	}
	if(o.status == 2)
	{
		if(!p.ops.empty() && p.ops[0].name == "=directed") o.cls = "directed:" + p.ops[0].s + ":" + o.cls;
		u32 n = shm->tailLen; u32 cap = sizeof shm->tail; std::string t;
		if(n <= cap) t.assign(shm->tail, n); else { t.assign(shm->tail + n % cap, cap - n % cap); t.append(shm->tail, n % cap); }
		if(t.size() > 2500) t = t.substr(t.size() - 2500);
		o.tail = t;
	}
	return o;
}

static Plan makePlan(u64 base, u64 index, int tier)
{
	Plan p; p.prop = cur->id; p.seed = mix64(base * 1000003ull + index);
	Rng r(p.seed);
	cur->generate(r, p, tier);
	return p;
}
static const u64 DIRECTED = u64(1) << 50;
static Plan directedPlan(const Directed &d){ Plan p = d.plan; p.prop = cur->id; p.ops.insert(p.ops.begin(), Op("=directed", {}, d.name)); return p; }
static Plan planOf(u64 base, u64 index, int tier){ if(index >= DIRECTED) return directedPlan(directed()[index - DIRECTED]); return makePlan(base, index, tier); }

static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ---- minimisation: remove operations, then simplify numbers, while the same violation class persists
static Plan minimise(const Plan &orig, const std::string &cls, double budget)
{
	double stop = now() + budget; Plan best = orig;
	auto bad = [&](const Plan &p){ Outcome o = runPlan(p); return o.status == 2 && o.cls == cls; };
	bool progress = true;
	while(progress && now() < stop)
	{
		progress = false;
		for(size_t chunk = std::max<size_t>(1, best.ops.size() / 2); ; chunk /= 2)
		{
			for(size_t i = 0; i < best.ops.size() && now() < stop; )
			{
				Plan t = best; size_t e = std::min(best.ops.size(), i + chunk);
				t.ops.erase(t.ops.begin() + long(i), t.ops.begin() + long(e));
				if(bad(t)){ best = t; progress = true; } else i += chunk;
			}
			if(chunk <= 1 || now() >= stop) break;
		}
		for(auto &c : std::map<std::string, long long>(best.cfg))
		{
			if(now() >= stop) break;
			if(c.first.substr(0, 3) == "id_" || !c.second) continue;	// identity keys are not shrunk
			for(long long v : { 0LL, 1LL }) { if(v >= c.second && c.second > 0) break; Plan t = best; t.cfg[c.first] = v; if(bad(t)){ best = t; progress = true; break; } }
		}
		for(size_t i = 0; i < best.ops.size() && now() < stop; i++)
		{
			if(best.ops[i].name == "stmt" || best.ops[i].name[0] == '=') continue;
			for(size_t k = 0; k < best.ops[i].a.size(); k++)
			{
				long long v = best.ops[i].a[k];
				for(long long t2 : { 0LL, 1LL, v / 2, v - 1 })
				{
					if(llabs(t2) >= llabs(v)) continue;
					Plan t = best; t.ops[i].a[k] = t2;
					if(bad(t)){ best = t; progress = true; break; }
				}
			}
		}
	}
	return best;
}

struct WorkerOut
{
	u64 runs = 0, directed = 0, nontriv = 0, events = 0, steps = 0, simTime = 0, violations = 0;
	std::map<std::string, u64> faults, probes;
	std::map<std::string, u64> runsWith;
	std::unordered_set<u64> states, hashes;
	std::vector<std::pair<u64, u64>> bad;	// index
	std::vector<std::string> badCls;
	std::map<std::string, u64> known;
};

static void setupWorker()
{
	shm = (Shm*)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	errFd = memfd_create("simerr", 0);
	arena::init();
	resetShm();
	if(cur->warm) cur->warm();
}
// Every run starts from modules compiled and linked by the code under test. When that fails there is nothing to run: true if it fails (dies or gives up), in a process of its own.
static bool preparationFails(std::string &how)
{
	volatile u32 *stage = (volatile u32*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); fflush(stdout); pid_t k = fork();
	if(!k){ prctl(PR_SET_PDEATHSIG, SIGKILL); alarm(60); auto inner = cur->warm; Property bare = *cur; bare.warm = nullptr; cur = &bare; setupWorker(); *stage = 1; if(inner) inner(); *stage = 2; _exit(0); }
	int st = 0; while(waitpid(k, &st, 0) < 0 && errno == EINTR) {} bool r = *stage == 1; how = WIFSIGNALED(st) ? sim::fmt("signal %d", WTERMSIG(st)) : sim::fmt("exit %d", WEXITSTATUS(st)); munmap((void*)stage, 4096); return r;
}

static std::string jsonStr(const std::string &s)
{
	std::string r = "\"";
	for(unsigned char c : s) { if(c == '"' || c == '\\'){ r += '\\'; r += char(c); } else if(c == '\n') r += "\\n"; else if(c < 32 || c > 126) r += sim::fmt("\\u%04x", c); else r += char(c); }
	return r + "\"";
}

static std::vector<std::pair<std::string, std::string>> knownFindings(const char *path, const char *prop)
{
	// lines: known: property=<id> class=<class> :: description      fixed: ... lines suppress nothing
	std::vector<std::pair<std::string, std::string>> r; FILE *f = fopen(path, "r"); if(!f) return r; char b[4096];
	std::string pre = sim::fmt("known: property=%s class=", prop);
	while(fgets(b, sizeof b, f)){ std::string l = b; while(!l.empty() && (l.back() == '\n' || l.back() == '\r')) l.pop_back(); if(l.compare(0, pre.size(), pre)) continue; size_t e = l.find(" :: "); if(e == std::string::npos) continue; r.push_back({ l.substr(pre.size(), e - pre.size()), l.substr(e + 4) }); }
	fclose(f); return r;
}

// a class that ends with * stands for every class of that one fixed input
static bool knownMatches(const std::string &pattern, const std::string &cls){ if(!pattern.empty() && pattern.back() == '*') return cls.compare(0, pattern.size() - 1, pattern, 0, pattern.size() - 1) == 0; return pattern == cls; }
static int cmdReplay(const char *file, bool quiet)
{
	FILE *f = fopen(file, "rb"); if(!f){ fprintf(stderr, "cannot open %s\n", file); return 2; }
	std::string t; char b[65536]; size_t n; while((n = fread(b, 1, sizeof b, f)) > 0) t.append(b, n); fclose(f);
	Plan p; if(!p.parse(t)){ fprintf(stderr, "bad replay file\n"); return 2; }
	for(auto &q : props()) if(p.prop == q.id) cur = &q;
	if(!cur){ fprintf(stderr, "unknown property\n"); return 2; }
	if(p.get("preparation")){ std::string how; bool bad = preparationFails(how); printf("status=%s class=preparation:fails\n%s\n", bad ? "violation" : "held", bad ? how.c_str() : ""); return bad ? 1 : 0; }
	setupWorker();
	Outcome o = runPlan(p);
	if(!quiet || o.status == 2) printf("status=%s class=%s hash=%016llx\n%s\n", o.status == 2 ? "violation" : "held", o.cls.c_str(), (unsigned long long)o.hash, o.msg.c_str());
	if(o.status == 2 && !quiet) printf("last events:\n%s\n", o.tail.c_str());
	return o.status == 2 ? 1 : 0;
}

int main(int argc, char **argv)
{
	// Fixed addresses for everything, where the sandbox allows it
	int pers = personality(0xffffffff);
	if(pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NO_REEXEC"))
	{
		if(personality(pers | ADDR_NO_RANDOMIZE) != -1){ setenv("SIM_NO_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
	}
	std::sort(props().begin(), props().end(), [](const Property &a, const Property &b){ return strcmp(a.id, b.id) < 0; });
	std::map<std::string, std::string> opt; std::vector<std::string> pos;
	for(int i = 1; i < argc; i++) { if(!strncmp(argv[i], "--", 2)){ std::string k = argv[i] + 2; if(k == "verbose"){ sim::verbose = true; continue; } opt[k] = i + 1 < argc ? argv[++i] : ""; } else pos.push_back(argv[i]); }
	if(pos.empty()){ fprintf(stderr, "usage: sim check|replay|hashes|show|list\n"); return 2; }
	if(pos[0] == "list"){ for(auto &p : props()) printf("%s %s\n", p.id, p.what); return 0; }
	if(pos[0] == "replay") return cmdReplay(pos[1].c_str(), false);
	for(auto &q : props()) if(pos.size() > 1 && pos[1] == q.id) cur = &q;
	if(!cur){ fprintf(stderr, "unknown property\n"); return 2; }

	u64 seed = opt.count("seed") ? strtoull(opt["seed"].c_str(), 0, 10) : 1;
	bool thorough = opt["tier"] == "thorough";
	int tier = thorough ? 1 : 0;
	u64 runs = opt.count("runs") ? strtoull(opt["runs"].c_str(), 0, 10) : u64(thorough ? cur->thoroughRuns : cur->quickRuns);
	double sec = opt.count("sec") ? atof(opt["sec"].c_str()) : (thorough ? cur->thoroughSec : cur->quickSec);
	int workers = opt.count("workers") ? atoi(opt["workers"].c_str()) : int(sysconf(_SC_NPROCESSORS_ONLN));
	if(workers < 1) workers = 1;
	u64 first = opt.count("first") ? strtoull(opt["first"].c_str(), 0, 10) : 0;

	if(pos[0] == "show" || pos[0] == "one")
	{
		setupWorker(); Plan p = makePlan(seed, first, tier);
		printf("%s", p.text().c_str()); if(cur->describe) printf("%s\n", cur->describe(p).c_str());
		if(pos[0] == "one"){ Outcome o = runPlan(p); printf("status=%d class=%s hash=%016llx\n%s\n", o.status, o.cls.c_str(), (unsigned long long)o.hash, o.msg.c_str()); for(u32 i = 0; i < shm->nprobes; i++) printf("probe %s %llu\n", shm->probes[i].name, (unsigned long long)shm->probes[i].n); for(u32 i = 0; i < shm->nfaults; i++) printf("fault %s %llu\n", shm->faults[i].name, (unsigned long long)shm->faults[i].n); printf("events:\n%.*s\n", (int)std::min<u32>(shm->tailLen, sizeof shm->tail), shm->tail); }
		return 0;
	}
	if(pos[0] == "directed")
	{
		setupWorker();
		for(auto &d : directed()) if(d.prop == cur->id){ Outcome o = runPlan(directedPlan(d)); printf("%s %s class=%s\n   %s\n", d.name.c_str(), o.status == 2 ? "FAILS" : "holds", o.cls.c_str(), o.msg.c_str()); }
		return 0;
	}
	if(pos[0] == "hashes")
	{
		std::vector<pid_t> ks;
		std::vector<std::string> fn;
		for(int w = 0; w < workers; w++)
		{
			std::string name = sim::fmt("%s.%d", opt["out"].c_str(), w);
			fn.push_back(name); fflush(stdout);
			pid_t k = fork();
			if(!k){ setupWorker(); FILE *f = fopen(name.c_str(), "w"); for(u64 i = u64(w); i < runs; i += u64(workers)){ Plan p = makePlan(seed, first + i, tier); Outcome o = runPlan(p); fprintf(f, "%llu %016llx %d %s\n", (unsigned long long)(first + i), (unsigned long long)o.hash, o.status, o.cls.c_str()); } fclose(f); _exit(0); }
			ks.push_back(k);
		}
		for(auto k : ks){ int st; waitpid(k, &st, 0); }
		return 0;
	}
	if(pos[0] != "check") return 2;

	std::string evidence = opt.count("evidence") ? opt["evidence"] : sim::fmt("/verif/evidence/%s.json", cur->id);
	std::string replayDir = opt.count("replays") ? opt["replays"] : "/verif/build/replays";
	mkdir(replayDir.c_str(), 0777);
	auto known = knownFindings(opt.count("known") ? opt["known"].c_str() : "/verif/KNOWN_FINDINGS", cur->id);
	double t0 = now();
	volatile u32 *stopFlag = (volatile u32*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	std::string tmp = sim::fmt("%s/w_%s_%d", replayDir.c_str(), cur->id, getpid());
	std::vector<pid_t> kids;
	for(int w = 0; w < workers; w++)
	{
		fflush(stdout);
		pid_t k = fork();
		if(k == 0)
		{
			prctl(PR_SET_PDEATHSIG, SIGKILL);
			setupWorker();
			WorkerOut wo; std::vector<std::string> samples;
			for(size_t i = 0; i < directed().size() && !opt.count("only"); i++)
			{
				if(directed()[i].prop != cur->id || int(i % size_t(workers)) != w) continue;
				Outcome o = runPlan(directedPlan(directed()[i])); wo.directed++;
				if(o.status != 2) continue;
				bool isKnown = false;
				for(auto &kf : known) if(knownMatches(kf.first, o.cls)){ wo.known[kf.first]++; isKnown = true; }
				if(!isKnown){ wo.bad.push_back({ DIRECTED + i, o.hash }); wo.badCls.push_back(o.cls); *stopFlag = 1; }
			}
			for(u64 i = opt.count("only") ? first : u64(w); (i < runs || opt.count("only")) && now() - t0 < sec; i += opt.count("only") ? u64(1) << 40 : u64(workers))
			{
				if((*stopFlag && i > 64 && !opt.count("only")) || i >> 40) break;
				Plan p = makePlan(seed, i, tier);
				Outcome o = runPlan(p);
				wo.runs++; wo.events += shm->events; wo.steps += shm->steps; wo.simTime += shm->simTimeUs;
				if(shm->nontrivial && wo.hashes.insert(shm->hash).second) wo.nontriv++;
				for(u32 n = 0; n < shm->nfaults; n++){ wo.faults[shm->faults[n].name] += shm->faults[n].n; wo.runsWith[shm->faults[n].name]++; }
				for(u32 n = 0; n < shm->nprobes; n++) wo.probes[shm->probes[n].name] += shm->probes[n].n;
				for(u32 n = 0; n < shm->nstates; n++) wo.states.insert(shm->states[n]);
				if(samples.size() < 1 && w == 0) samples.push_back(p.text().substr(0, 1500));
				if(o.status == 2)
				{
					bool isKnown = false;
					for(auto &kf : known) if(knownMatches(kf.first, o.cls)){ wo.known[kf.first]++; isKnown = true; }
					if(isKnown) continue;
					wo.violations++; wo.bad.push_back({ i, o.hash }); wo.badCls.push_back(o.cls); *stopFlag = 1;
					break;
				}
			}
			FILE *f = fopen(sim::fmt("%s.%d", tmp.c_str(), w).c_str(), "w");
			fprintf(f, "directed %llu\n", (unsigned long long)wo.directed); fprintf(f, "runs %llu\nnontriv %llu\nevents %llu\nsteps %llu\nsimtime %llu\n", (unsigned long long)wo.runs, (unsigned long long)wo.nontriv, (unsigned long long)wo.events, (unsigned long long)wo.steps, (unsigned long long)wo.simTime);
			for(auto &x : wo.faults) fprintf(f, "fault %s %llu\n", x.first.c_str(), (unsigned long long)x.second);
			for(auto &x : wo.runsWith) fprintf(f, "faultruns %s %llu\n", x.first.c_str(), (unsigned long long)x.second);
			for(auto &x : wo.probes) fprintf(f, "probe %s %llu\n", x.first.c_str(), (unsigned long long)x.second);
			for(auto x : wo.states) fprintf(f, "state %llu\n", (unsigned long long)x);
			for(auto x : wo.hashes) fprintf(f, "hash %llu\n", (unsigned long long)x);
			for(auto &x : wo.known) fprintf(f, "known %llu %s\n", (unsigned long long)x.second, x.first.c_str());
			for(size_t n = 0; n < wo.bad.size(); n++) fprintf(f, "bad %llu %s\n", (unsigned long long)wo.bad[n].first, wo.badCls[n].c_str());
			for(auto &x : samples) fprintf(f, "sample %s\n", jsonStr(x).c_str());
			fclose(f);
			_exit(0);
		}
		kids.push_back(k);
	}
	bool workerDied = false;
	for(auto k : kids){ int st; while(waitpid(k, &st, 0) < 0 && errno == EINTR) {} if(!WIFEXITED(st) || WEXITSTATUS(st)) workerDied = true; }
	std::map<std::string, u64> tot, faults, faultRuns, probes, knownHit; std::set<u64> states, hashes; std::vector<std::pair<u64, std::string>> bad; std::vector<std::string> samples;
	for(int w = 0; w < workers; w++)
	{
		std::string fn = sim::fmt("%s.%d", tmp.c_str(), w); FILE *f = fopen(fn.c_str(), "r"); if(!f){ workerDied = true; continue; }
		static char b[20000];
		while(fgets(b, sizeof b, f))
		{
			std::string l = b; if(!l.empty() && l.back() == '\n') l.pop_back();
			size_t sp = l.find(' '); std::string k = l.substr(0, sp), r = l.substr(sp + 1);
			if(k == "fault" || k == "probe" || k == "faultruns"){ size_t s2 = r.rfind(' '); auto &m = k == "fault" ? faults : k == "probe" ? probes : faultRuns; m[r.substr(0, s2)] += strtoull(r.c_str() + s2, 0, 10); }
			else if(k == "state") states.insert(strtoull(r.c_str(), 0, 10));
			else if(k == "hash") hashes.insert(strtoull(r.c_str(), 0, 10));
			else if(k == "known"){ size_t s2 = r.find(' '); knownHit[r.substr(s2 + 1)] += strtoull(r.c_str(), 0, 10); }
			else if(k == "bad"){ size_t s2 = r.find(' '); bad.push_back({ strtoull(r.c_str(), 0, 10), r.substr(s2 + 1) }); }
			else if(k == "sample") samples.push_back(r);
			else tot[k] += strtoull(r.c_str(), 0, 10);
		}
		fclose(f); unlink(fn.c_str());
	}
	double searchWall = now() - t0;
	int rc = 0; std::string replayPath; u64 violations = bad.size();
	for(auto &k : known) if(knownHit.count(k.first)) printf("KNOWN-FINDING: property=%s %s\n", cur->id, k.second.c_str());
	std::string how, again;
	if(workerDied && preparationFails(how) && preparationFails(again) && how == again)
	{
		Plan p; p.prop = cur->id; p.cfg["preparation"] = 1; replayPath = sim::fmt("%s/%s_preparation.replay", replayDir.c_str(), cur->id);
		FILE *f = fopen(replayPath.c_str(), "w"); fprintf(f, "# the modules every run imports are not compiled and linked: %s\n%s", how.c_str(), p.text().c_str()); fclose(f);
		printf("violation class: preparation:fails\nthe code under test ends with %s while the modules every run imports are compiled and linked, before the first run\nVIOLATION property=%s replay=%s\n", how.c_str(), cur->id, replayPath.c_str()); rc = 1; violations = 1;
	}
	else if(workerDied){ printf("ERROR: a simulation worker died outside a run\n"); rc = 2; }
	else if(!bad.empty())
	{
		std::sort(bad.begin(), bad.end());
		setupWorker();
		bool reported = false;
		for(auto &bd : bad)
		{
			Plan p = planOf(seed, bd.first, tier);
			Outcome a = runPlan(p), c = runPlan(p);
			if(a.status != 2 || c.status != 2 || a.cls != c.cls || a.hash != c.hash)
			{
				printf("ERROR: run %llu did not repeat: %s / %s (%016llx / %016llx), search saw %s\n", (unsigned long long)bd.first, a.cls.c_str(), c.cls.c_str(), (unsigned long long)a.hash, (unsigned long long)c.hash, bd.second.c_str());
				continue;
			}
			Plan m = bd.first >= DIRECTED ? p : minimise(p, a.cls, thorough ? 240 : 60);
			Outcome fo = runPlan(m);
			replayPath = sim::fmt("%s/%s_%s.replay", replayDir.c_str(), cur->id, bd.first >= DIRECTED ? directed()[bd.first - DIRECTED].name.c_str() : std::to_string(p.seed).c_str());
			FILE *f = fopen(replayPath.c_str(), "w");
			if(bd.first >= DIRECTED) fprintf(f, "# fixed scenario %s\n", directed()[bd.first - DIRECTED].name.c_str());
			fprintf(f, "# VERIF_SEED=%llu run=%llu; original %zu operations, minimised %zu\n# replay: %s replay %s\nviolation %s\nhash %016llx\n%s", (unsigned long long)seed, (unsigned long long)bd.first, p.ops.size(), m.ops.size(), "/verif/build/sim", replayPath.c_str(), fo.cls.c_str(), (unsigned long long)fo.hash, m.text().c_str());
			std::string d = fo.msg + "\nlast events:\n" + fo.tail + (cur->describe ? "\n" + cur->describe(m) : std::string());
			fprintf(f, "# "); for(char ch : d){ fputc(ch, f); if(ch == '\n') fprintf(f, "# "); } fprintf(f, "\n"); fclose(f);
			// a fresh process must fail in the same way
			std::string cmd = sim::fmt("/proc/%d/exe replay %s", getpid(), replayPath.c_str());
			FILE *pp = popen(cmd.c_str(), "r"); std::string out; char b[4096]; size_t n; while(pp && (n = fread(b, 1, sizeof b, pp)) > 0) out.append(b, n); int prc = pp ? pclose(pp) : -1;
			if(!(WIFEXITED(prc) && WEXITSTATUS(prc) == 1) || out.find(sim::fmt("class=%s hash=%016llx", fo.cls.c_str(), (unsigned long long)fo.hash)) == std::string::npos)
			{
				printf("ERROR: the minimised run of %s did not repeat in a fresh process\n%s\n", replayPath.c_str(), out.c_str());
				continue;
			}
			printf("violation class: %s (run %llu, %zu of %zu operations kept)\n%s\n", fo.cls.c_str(), (unsigned long long)bd.first, m.ops.size(), p.ops.size(), fo.msg.c_str());
			printf("VIOLATION property=%s replay=%s\n", cur->id, replayPath.c_str());
			reported = true; break;
		}
		rc = reported ? 1 : 2;
	}
	double wall = now() - t0;
	FILE *f = fopen(evidence.c_str(), "w");
	if(!f){ printf("ERROR: cannot write %s\n", evidence.c_str()); return 2; }
	double hours = searchWall / 3600.0; if(hours <= 0) hours = 1e-9;
	fprintf(f, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %llu,\n \"level\": \"exploration\",\n \"coverage\": {\n", cur->id, thorough ? "thorough" : "quick", (unsigned long long)seed);
	fprintf(f, "  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %zu,\n  \"rule\": %s,\n", (unsigned long long)tot["runs"], hashes.size(), jsonStr(cur->rule).c_str());
	fprintf(f, "  \"samples\": [");
	for(size_t i = 0; i < samples.size(); i++) fprintf(f, "%s%s", i ? ", " : "", samples[i].c_str());
	fprintf(f, "],\n  \"runs_and_seeds_per_hour\": %.0f,\n  \"directed_scenarios\": %llu,\n  \"workers\": %d,\n", double(tot["runs"]) / hours, (unsigned long long)tot["directed"], workers);
	fprintf(f, "  \"events\": %llu,\n  \"simulated_steps\": %llu,\n  \"simulated_time_s\": %.6f,\n", (unsigned long long)tot["events"], (unsigned long long)tot["steps"], double(tot["simtime"]) * 1e-6);
	fprintf(f, "  \"distinct_states\": %zu,\n", states.size());
	auto dump = [&](const char *name, std::map<std::string, u64> &m){ fprintf(f, "  \"%s\": {", name); bool c = false; for(auto &x : m){ fprintf(f, "%s%s: %llu", c ? ", " : "", jsonStr(x.first).c_str(), (unsigned long long)x.second); c = true; } fprintf(f, "},\n"); };
	dump("faults_injected", faults); dump("runs_with_fault", faultRuns); dump("probes", probes); dump("known_findings_hit", knownHit);
	fprintf(f, "  \"simulated\": %s,\n  \"real_components\": %s,\n  \"stubbed_components\": %s\n },\n", jsonStr(cur->what).c_str(), jsonStr(cur->real).c_str(), jsonStr(cur->stub).c_str());
	fprintf(f, " \"assumptions\": [\"seeded sampling: a clean batch is evidence, not proof\", \"a run is a pure function of its plan and the code under test; violations are reported only when they repeat in the same and in a fresh process\"],\n");
	fprintf(f, " \"wall_s\": %.3f,\n \"violations\": %llu\n}\n", wall, (unsigned long long)violations);
	fclose(f);
	printf("%s: %llu runs in %.1fs (%zu distinct non-trivial, %zu states), %llu violations\n", cur->id, (unsigned long long)tot["runs"], searchWall, hashes.size(), states.size(), (unsigned long long)violations);
	return rc;
}
