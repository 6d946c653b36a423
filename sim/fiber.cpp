#include "fiber.h"
#include <ucontext.h>
#include <pthread.h>
#include <dlfcn.h>
#include <errno.h>
#include <sys/mman.h>
#include <time.h>
#include <unordered_set>
#include <deque>
#include <vector>
#include <memory>
namespace fib
{
	const char *kindName[KINDS] = { "read", "write", "lock", "unlock", "wait", "signal", "create", "output", "input", "join", "start" };
	struct Fiber { ucontext_t c; char *stack = nullptr; size_t size = 0; int id = 0; bool done = false, client = false, started = false; std::function<bool()> ready; std::string why; std::function<void()> fn; void *ret = nullptr; const void *cond = nullptr; bool signalled = false, timed = false; };
	namespace
	{
		Config cfg; std::vector<Fiber*> all; Fiber *cur = nullptr; ucontext_t sched; bool on = false; u64 counts[KINDS]; u64 steps = 0, nswitch = 0, hashTrail = 0; std::deque<int> forced; Rng rng(1); Fiber *mainFiber, *clientFiber;
		struct Mutex { Fiber *owner = nullptr; int depth = 0; }; std::map<const void*, Mutex> mutexes; std::unordered_set<u64> shared; bool inPoint = false;
		Fiber* make(std::function<void()> fn, size_t size)
		{
			Fiber *f = new Fiber; f->id = int(all.size()); f->fn = fn; f->size = size; f->stack = (char*)mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if(f->stack == MAP_FAILED) abort();
			mprotect(f->stack, 4096, PROT_NONE); char *top = f->stack + size - 65536; Rng g(cfg.seed ^ 77); for(int i = 0; i < 65536; i++) top[i] = cfg.fill == 0 ? 0 : cfg.fill == 1 ? char(0xff) : cfg.fill == 2 ? char(1) : char(g.next());
			all.push_back(f); return f;
		}
		void entry(){ Fiber *f = cur; f->fn(); f->done = true; f->ready = nullptr; swapcontext(&f->c, &sched); abort(); }
		void toScheduler(){ Fiber *f = cur; bool was = inPoint; inPoint = false; swapcontext(&f->c, &sched); inPoint = was; }
		bool canRun(Fiber *f){ return !f->done && (!f->ready || f->ready()); }
	}
	bool active(){ return on && cur; }
	bool inClient(){ return cur && cur->client; }
	int current(){ return cur ? cur->id : -1; }
	int threads(){ return int(all.size()) - 1; }
	int alive(){ int n = 0; for(auto f : all) if(!f->client && !f->done) n++; return n; }
	u64 switches(){ return nswitch; }
	u64 trail(){ return hashTrail; }
	std::string where(){ std::string s; for(auto f : all) s += sim::fmt("%s %d %s; ", f->client ? "client" : "thread", f->id, f->done ? "ended" : f->why.empty() ? "can run" : f->why.c_str()); return s; }
	void spurious(){ for(auto f : all) if(f->cond && !f->signalled){ f->signalled = true; sim::fault("spurious_wakeup"); sim::log("spurious %d", f->id); } }
	void preempt(int choice)
	{
		if(!cur || cur->client) return; int self = cur->id, other = -1; for(auto f : all) if(f != cur && !f->client && canRun(f)) other = f->id;
		forced.clear(); if(choice == 0){ forced.push_back(clientFiber->id); forced.push_back(self); } else if(choice == 1){ forced.push_back(clientFiber->id); forced.push_back(-1 - self); } else { if(other < 0) return; forced.push_back(other); }
		if(choice < 2 && !canRun(clientFiber)){ forced.pop_front(); if(choice == 0) { forced.clear(); return; } }
		sim::fault("preemption"); sim::log("preempt %d", choice); toScheduler();
	}
	void point(Kind k)
	{
		if(!on || !cur || cur->client || inPoint) return; inPoint = true; counts[k]++; if(++steps > cfg.maxSteps) sim::fail("dap:endless", "the session does not come to an end: " + where());
		if(cfg.at) cfg.at(k, counts[k]); inPoint = false;
	}
	void block(std::function<bool()> ready, Kind k, const char *why)
	{
		if(cur && !cur->client){ point(k); } if(ready()) return; cur->ready = ready; cur->why = why; toScheduler(); cur->ready = nullptr; cur->why = "";
	}
	void run(const Config &c, std::function<void()> program, std::function<void()> client)
	{
		cfg = c; rng = Rng(c.seed ^ 0xf1be); mainFiber = make(program, 64u << 20); clientFiber = make(client, 4u << 20); clientFiber->client = true; on = true;
		while(!mainFiber->done)
		{
			if(++steps > cfg.maxSteps) sim::fail("dap:endless", "the session does not come to an end: " + where());
			Fiber *next = nullptr;
			while(!forced.empty() && !next){ int id = forced.front(); forced.pop_front(); if(id >= 0){ if(canRun(all[size_t(id)])) next = all[size_t(id)]; } else for(auto f : all) if(!f->client && f->id != -1 - id && canRun(f)) next = f; }
			if(!next){ std::vector<Fiber*> can; for(auto f : all) if(canRun(f)) can.push_back(f); if(!can.empty()) next = cfg.policy == 0 ? can.back() : cfg.policy == 1 ? can.front() : can[rng.below(u32(can.size()))]; }
			if(!next){ for(auto f : all) if(!f->done && f->timed && f->cond && !next){ f->signalled = true; f->timed = false; sim::advance(1000000); sim::fault("timeout"); next = f; } if(next) continue; }
			if(!next){ if(cfg.atIdle) cfg.atIdle(); bool any = false; for(auto f : all) any |= canRun(f); if(any) continue; sim::fail("dap:hang", "no thread can go on: " + where()); }
			nswitch++; hashTrail = mix64(hashTrail ^ u64(next->id) ^ (counts[OUT] << 8)); cur = next; if(!next->started){ next->started = true; getcontext(&next->c); next->c.uc_stack.ss_sp = next->stack; next->c.uc_stack.ss_size = next->size; next->c.uc_link = &sched; makecontext(&next->c, (void(*)())entry, 0); }
			swapcontext(&sched, &next->c); cur = nullptr;
		}
		on = false;
	}
	namespace
	{
		void lock(const void *m, bool recursive)
		{
			point(LOCK); Mutex &x = mutexes[m]; if(x.owner == cur && recursive){ x.depth++; return; }
			if(x.owner){ const void *k = m; block([k]{ return !mutexes[k].owner; }, LOCK, "waits for a mutex"); } mutexes[m].owner = cur; mutexes[m].depth = 1;
		}
		void unlock(const void *m){ Mutex &x = mutexes[m]; if(--x.depth <= 0){ x.owner = nullptr; x.depth = 0; } point(UNLOCK); }
		int wait(const void *c, const void *m, bool timed)
		{
			point(WAIT); Fiber *f = cur; Mutex &x = mutexes[m]; x.owner = nullptr; x.depth = 0; f->cond = c; f->signalled = false; f->timed = timed;
			block([f]{ return f->signalled; }, UNLOCK, "waits for a condition variable"); bool timeout = timed && !f->timed; f->cond = nullptr; f->timed = false;
			if(mutexes[m].owner){ const void *k = m; block([k]{ return !mutexes[k].owner; }, LOCK, "waits for a mutex"); } mutexes[m].owner = f; mutexes[m].depth = 1; return timeout ? ETIMEDOUT : 0;
		}
		void signal(const void *c, bool everyone)
		{
			point(SIGNAL); std::vector<Fiber*> w; for(auto f : all) if(f->cond == c && !f->signalled) w.push_back(f); if(w.empty()){ sim::probe("signal_without_waiter"); return; }
			if(everyone) for(auto f : w) f->signalled = true; else w[rng.below(u32(w.size()))]->signalled = true;
		}
		const pthread_t BASE = 0x5100000000000000ull;
		bool onMainStack(const void *p){ return mainFiber && (const char*)p >= mainFiber->stack && (const char*)p < mainFiber->stack + mainFiber->size; }
		void access(const void *p, bool write)
		{
			if(!on || !cur || cur->client || inPoint || !onMainStack(p)) return; u64 k = u64(p) >> 3; if(cur != mainFiber){ if(!shared.count(k)) shared.insert(k); point(write ? WRITE : READ); } else if(shared.count(k)) point(write ? WRITE : READ);
		}
		template<typename T> T next(const char *n){ return (T)dlsym(RTLD_NEXT, n); }
	}
}
#define REAL(name) static auto real = fib::next<decltype(&name)>(#name)
extern "C"
{
	int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void*), void *arg)
	{
		REAL(pthread_create); if(!fib::active()) return real(t, a, fn, arg); using namespace fib; point(CREATE); Fiber *f = make([]{}, 64u << 20); f->fn = [f, fn, arg]{ point(START); f->ret = fn(arg); }; *t = BASE + pthread_t(f->id); sim::log("thread %d", f->id); sim::step(); point(CREATE); return 0;
	}
	int pthread_join(pthread_t t, void **r){ REAL(pthread_join); using namespace fib; if(!active() || t < BASE || t >= BASE + all.size()) return real(t, r); Fiber *f = all[size_t(t - BASE)]; block([f]{ return f->done; }, JOIN, "waits for a thread to end"); if(r) *r = f->ret; return 0; }
	int pthread_detach(pthread_t t){ REAL(pthread_detach); using namespace fib; if(t < BASE || t >= BASE + all.size()) return real(t); return 0; }
	int pthread_mutex_lock(pthread_mutex_t *m) noexcept { REAL(pthread_mutex_lock); if(!fib::active()) return real(m); fib::lock(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE); return 0; }
	int pthread_mutex_trylock(pthread_mutex_t *m) noexcept { REAL(pthread_mutex_trylock); if(!fib::active()) return real(m); using namespace fib; point(LOCK); Mutex &x = mutexes[m]; if(x.owner && !(x.owner == cur && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE)) return EBUSY; x.owner = cur; x.depth++; return 0; }
	int pthread_mutex_unlock(pthread_mutex_t *m) noexcept { REAL(pthread_mutex_unlock); if(!fib::active()) return real(m); fib::unlock(m); return 0; }
	int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m){ REAL(pthread_cond_wait); if(!fib::active()) return real(c, m); return fib::wait(c, m, false); }
	int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *t){ REAL(pthread_cond_timedwait); if(!fib::active()) return real(c, m, t); return fib::wait(c, m, true); }
	int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const timespec *t){ REAL(pthread_cond_clockwait); if(!fib::active()) return real(c, m, k, t); return fib::wait(c, m, true); }
	int pthread_cond_signal(pthread_cond_t *c) noexcept { REAL(pthread_cond_signal); if(!fib::active()) return real(c); fib::signal(c, false); return 0; }
	int pthread_cond_broadcast(pthread_cond_t *c) noexcept { REAL(pthread_cond_broadcast); if(!fib::active()) return real(c); fib::signal(c, true); return 0; }

	// what the compiler calls for every memory access of the adapter (-fsanitize=thread, without its run-time library)
	void __tsan_init(){} void __tsan_func_entry(void*){} void __tsan_func_exit(){}
#define RW(n) void __tsan_read##n(void *p){ fib::access(p, false); } void __tsan_write##n(void *p){ fib::access(p, true); } void __tsan_volatile_read##n(void *p){ fib::access(p, false); } void __tsan_volatile_write##n(void *p){ fib::access(p, true); } void __tsan_unaligned_read##n(void *p){ fib::access(p, false); } void __tsan_unaligned_write##n(void *p){ fib::access(p, true); }
	RW(1) RW(2) RW(4) RW(8) RW(16)
	void __tsan_read_range(void *p, unsigned long){ fib::access(p, false); } void __tsan_write_range(void *p, unsigned long){ fib::access(p, true); }
	void __tsan_vptr_update(void**, void*){} void __tsan_vptr_read(void**){}
	void __tsan_atomic_thread_fence(int){} void __tsan_atomic_signal_fence(int){}
	static void before(const volatile void *p, bool w){ fib::access((const void*)p, w); }
#define AT(n, T) T __tsan_atomic##n##_load(const volatile T *p, int){ before(p, false); return *p; } void __tsan_atomic##n##_store(volatile T *p, T v, int){ before(p, true); *p = v; before(p, true); } \
	T __tsan_atomic##n##_exchange(volatile T *p, T v, int){ before(p, true); T o = *p; *p = v; return o; } T __tsan_atomic##n##_fetch_add(volatile T *p, T v, int){ before(p, true); T o = *p; *p = T(o + v); return o; } T __tsan_atomic##n##_fetch_sub(volatile T *p, T v, int){ before(p, true); T o = *p; *p = T(o - v); return o; } \
	T __tsan_atomic##n##_fetch_and(volatile T *p, T v, int){ before(p, true); T o = *p; *p = T(o & v); return o; } T __tsan_atomic##n##_fetch_or(volatile T *p, T v, int){ before(p, true); T o = *p; *p = T(o | v); return o; } T __tsan_atomic##n##_fetch_xor(volatile T *p, T v, int){ before(p, true); T o = *p; *p = T(o ^ v); return o; } \
	int __tsan_atomic##n##_compare_exchange_strong(volatile T *p, T *e, T v, int, int){ before(p, true); if(*p == *e){ *p = v; return 1; } *e = *p; return 0; } int __tsan_atomic##n##_compare_exchange_weak(volatile T *p, T *e, T v, int, int){ before(p, true); if(*p == *e){ *p = v; return 1; } *e = *p; return 0; } \
	T __tsan_atomic##n##_compare_exchange_val(volatile T *p, T e, T v, int, int){ before(p, true); T o = *p; if(o == e) *p = v; return o; }
	typedef unsigned char u8_; typedef unsigned short u16_; typedef unsigned u32_; typedef unsigned long u64_;
	AT(8, u8_) AT(16, u16_) AT(32, u32_) AT(64, u64_)
}
