#include "sim.h"
#include <sys/mman.h>
#include <map>
#include <set>

// Bump allocation with size-class reuse in one fixed mapping: addresses depend only on the allocation history.
namespace arena
{
	long long live = 0, liveBytes = 0, total = 0;
	long long failAt = 0;
	bool failSticky = false;
	u64 failed = 0, ordinal = 0;
	long long refuseAfter = 0; bool refuseSticky = false, refuseOn = false; u64 refused = 0;
	void refuseReset(){ refuseAfter = 0; refuseSticky = false; refuseOn = false; }
	static u32 objectSize = 0;	// object memory the engine is about to ask for
	void expectObject(u32 size){ objectSize = size; }

	static char *base = nullptr, *top = nullptr, *end = nullptr;
	static const size_t SIZE = size_t(6) << 30;

	struct Header { u64 magic; u64 ordinal; u32 size, cls; Header *next, *prev; u64 pad; };
	static_assert(sizeof(Header) == 48, "header");
	static const u64 MAGIC_LIVE = 0xA110CA7EDA110C01ull, MAGIC_FREE = 0xF4EEDF4EEDF4EE02ull;
	static Header *freeList[256];
	static Header liveList;
	static const u32 TAIL = 16;

	// object pages at addresses that are not in the order of their allocation
	static u64 pageSeed = 0; static std::vector<Header*> pageSlots;
	void shufflePages(u64 seed){ pageSeed = seed; pageSlots.clear(); }
	static Header* pageSlot(u64 need)
	{
		if(pageSlots.empty())
		{
			const int n = 24; if(top + need * n > end) return nullptr;
			for(int i = 0; i < n; i++){ pageSlots.push_back((Header*)top); top += need; }
			for(int i = n - 1; i > 0; i--){ pageSeed = mix64(pageSeed + 1); std::swap(pageSlots[size_t(i)], pageSlots[size_t(pageSeed % u64(i + 1))]); }
		}
		Header *h = pageSlots.back(); pageSlots.pop_back(); return h;
	}

	void init()
	{
		if(base) return;
		base = (char*)mmap((void*)0x300000000000ull, SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
		if(base == MAP_FAILED){ perror("arena"); exit(3); }
		top = base; end = base + SIZE;
		liveList.next = liveList.prev = &liveList;
	}
	bool contains(const void *p){ return p >= base && p < top; }

	static u32 sizeClass(u64 n, u64 &rounded)
	{
		// 16-byte classes up to 1024, then powers of sqrt-ish steps
		if(n <= 1024){ u32 c = u32((n + 15) / 16); if(c == 0) c = 1; rounded = u64(c) * 16; return c; }
		u64 sz = 1024; u32 c = 64;
		while(sz < n){ c++; u64 nx = sz + sz / 4; sz = (nx + 15) & ~u64(15); }
		rounded = sz; return c;
	}
	void* alloc(int size)
	{
		init();
		ordinal++; total++;
		if(failAt > 0){ if(--failAt == 0){ if(failSticky) failAt = 1; failed++; return nullptr; } }
		if(refuseOn && objectSize && refuseAfter > 0)
		{
			// object pages are 64 Kb and a little, large objects have a block of their own
			bool object = objectSize + 8 <= 512 ? size >= 65536 && size < 65536 + 256 : u32(size) >= objectSize && u32(size) < objectSize + 64;
			if(object && (--refuseAfter == 0 || (refuseSticky && refused))){ if(refuseSticky) refuseAfter = 1; refused++; sim::fault("host_allocator_refusal"); sim::log("refused %d", size); return nullptr; }
		}
		if(size < 0) return nullptr;
		u64 rounded; u32 c = sizeClass(u64(size) + TAIL, rounded);
		Header *h = c < 256 ? freeList[c] : nullptr;
		if(h){ freeList[c] = h->next; if(h->magic != MAGIC_FREE) sim::fail("heap:free-list-corrupted", "a freed host block was written after being freed (header)"); }
		else
		{
			// large blocks are page aligned and padded so that page protection never touches a neighbour
			u64 need = sizeof(Header) + rounded;
			if(rounded >= 65536){ top = (char*)((u64(top) + 4095) & ~u64(4095)); need = (need + 4095 + 4096) & ~u64(4095); }
			if(pageSeed && size >= 65536 && size < 65536 + 256) h = pageSlot(need);
			else if(top + need <= end){ h = (Header*)top; top += (need + 15) & ~u64(15); }
			if(!h) return nullptr;
		}
		h->magic = MAGIC_LIVE; h->ordinal = ordinal; h->size = u32(size); h->cls = c;
		h->next = liveList.next; h->prev = &liveList; liveList.next->prev = h; liveList.next = h;
		char *p = (char*)(h + 1);
		if(size <= 65536) memset(p, 0xCD, size_t(size)); 
		memset(p + size, 0xFA, TAIL);
		live++; liveBytes += size;
		return p;
	}
	void dealloc(void *ptr)
	{
		if(!ptr) return;
		if(!contains(ptr)) sim::fail("heap:foreign-free", "a pointer that did not come from the allocator was returned to it");
		Header *h = (Header*)ptr - 1;
		if(h->magic == MAGIC_FREE) sim::failf("heap:double-free", "host block #%llu of %u bytes was returned twice", (unsigned long long)h->ordinal, h->size);
		if(h->magic != MAGIC_LIVE) sim::fail("heap:foreign-free", "a pointer that did not come from the allocator was returned to it, or its header was overwritten");
		for(u32 i = 0; i < TAIL; i++) if(((unsigned char*)ptr)[h->size + i] != 0xFA) sim::failf("heap:overflow", "host block #%llu of %u bytes was written past its end (+%u)", (unsigned long long)h->ordinal, h->size, i);
		h->prev->next = h->next; h->next->prev = h->prev;
		h->magic = MAGIC_FREE;
		if(h->size <= (1u << 20)) memset(ptr, 0xDC, h->size);
		live--; liveBytes -= h->size;
		h->prev = nullptr;
		if(h->cls < 256){ h->next = freeList[h->cls]; freeList[h->cls] = h; }
	}
	void checkAll()
	{
		for(Header *h = liveList.next; h != &liveList; h = h->next)
		{
			if(h->magic != MAGIC_LIVE) sim::fail("heap:overflow", "the header of a live host block was overwritten");
			unsigned char *p = (unsigned char*)(h + 1);
			for(u32 i = 0; i < TAIL; i++) if(p[h->size + i] != 0xFA) sim::failf("heap:overflow", "host block #%llu of %u bytes was written past its end (+%u)", (unsigned long long)h->ordinal, h->size, i);
		}
	}
	std::vector<std::pair<u64, u32>> liveBlocks(u64 since)
	{
		std::vector<std::pair<u64, u32>> r;
		for(Header *h = liveList.next; h != &liveList; h = h->next) if(h->ordinal > since) r.push_back({ h->ordinal, h->size });
		return r;
	}
}

namespace NULLC { void CollectMemory(); }

namespace gcsim
{
	Sched s;
	bool poison = true;
	void reset(){ s = Sched(); }
	void configure(const Plan &p)
	{
		reset();
		s.on = true;
		s.period = int(p.get("gc_period")); s.offset = int(p.get("gc_offset"));
		for(auto &o : p.ops) { if(o.name == "gc") s.at.push_back(u64(o.arg(0))); if(o.name == "failalloc") s.failAt.push_back(u64(o.arg(0))); }
		s.failFrom = p.get("fail_from") != 0;
	}
}

int nullcSimOnAlloc(int size, unsigned type)
{
	(void)size; (void)type;
	using namespace gcsim;
	if(!s.on || !sim::inRun) return 0;
	u64 n = ++s.count; arena::expectObject(u32(size));
	for(u64 f : s.failAt) if(f == n || (s.failFrom && n >= f)){ s.failures++; sim::fault("script_alloc_failure"); sim::log("allocfail %llu", (unsigned long long)n); return 2; }
	bool collect = s.period && n % u64(s.period) == u64(s.offset % s.period);
	for(u64 a : s.at) if(a == n) collect = true;
	if(collect && s.collections < s.maxCollections){ s.collections++; sim::fault("forced_collection"); return 1; }
	return 0;
}
void nullcSimOnFree(void *ptr, unsigned size)
{
	if(gcsim::poison && sim::inRun) memset(ptr, 0xDB, size);
}
