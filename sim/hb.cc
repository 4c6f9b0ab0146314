// Happens-before race detection for the "hb" flavour: bfs is compiled with
// -fsanitize=thread, and this file is the runtime those callbacks reach.  It
// keeps vector clocks over the simulator's fibers, advanced only by the
// synchronisation bfs itself performs with the memory orders it asked for, so
// a missing lock or a too weak memory order is reported in every run in which
// the two accesses happen, whichever way the scheduler ordered them.
#include "core.hh"
#if SIM_HB
#include <malloc.h>
#include <link.h>

namespace sim {
static const int MAXF = 48;
struct VC {
	u32 c[MAXF];
	VC() { memset(c, 0, sizeof c); }
	void join(const VC &o) { for (int i = 0; i < MAXF; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};
struct FC { VC v, acq, rel; bool relf = false; };
static FC *clocks[MAXF];
static std::unordered_map<const void *, VC> sync_;    // mutexes, semaphores, threads
static std::unordered_map<u64, VC> rel_;              // release sequences of atomic locations

static FC *me() {
	if (!cur || cur->actor || cur->id >= MAXF) return nullptr;
	FC *&f = clocks[cur->id];
	if (!f) { f = new FC; f->v.c[cur->id] = 1; }
	return f;
}
void hb_acquire(const void *a) {
	FC *f = me();
	if (!f) return;
	auto it = sync_.find(a);
	if (it != sync_.end()) f->v.join(it->second);
}
void hb_release(const void *a) {
	FC *f = me();
	if (!f) return;
	sync_[a].join(f->v);
	f->v.c[cur->id]++;
}

// Shadow: up to four accesses remembered per eight bytes
struct Cell { u32 clk = 0; u8 f = 0, mask = 0, write = 0, atomic = 0; u32 pc = 0; };
struct Gran { Cell c[4]; u8 next = 0; };
struct Page { Gran g[512]; };
static std::unordered_map<u64, Page *> pages;
static u64 last_no = ~0ull; static Page *last_pg;
static Page *page(u64 no, bool make) {
	if (no == last_no) return last_pg;
	auto it = pages.find(no);
	if (it == pages.end()) {
		if (!make) return nullptr;
		it = pages.emplace(no, new Page).first;
	}
	last_no = no; last_pg = it->second;
	return last_pg;
}
static uintptr_t base_addr() {
	static uintptr_t b = 0;
	if (!b) dl_iterate_phdr([](struct dl_phdr_info *i, size_t, void *p) { *(uintptr_t *)p = i->dlpi_addr; return 1; }, &b);
	return b ? b : (b = 1);
}
static bool reported;
static void race(u64 addr, const Cell &o, bool write, bool atomic, u32 pc) {
	if (reported) return;
	reported = true;
	violation("race", "data race: %s%s by thread %d at @0x%x without synchronisation after %s%s by thread %d at @0x%x",
		atomic ? "atomic " : "", write ? "write" : "read", cur->id, pc, o.atomic ? "atomic " : "", o.write ? "write" : "read", o.f, o.pc);
}
static void gran(u64 g, u8 mask, bool write, bool atomic, u32 pc, FC *f) {
	Gran &s = page(g >> 9, true)->g[g & 511];
	int slot = -1, same = -1;
	for (int i = 0; i < 4; ++i) {
		Cell &c = s.c[i];
		if (!c.clk) { if (slot < 0) slot = i; continue; }
		if (c.f == cur->id) {
			// our own older access, subsumed by this one
			if (c.mask == (c.mask & mask) && (write || !c.write) && (!atomic || c.atomic)) { if (same < 0) same = i; else c.clk = 0; }
			continue;
		}
		if (!(c.mask & mask) || (!write && !c.write) || (atomic && c.atomic)) continue;
		if (c.clk > f->v.c[c.f]) race(g * 8, c, write, atomic, pc);
		else if (write && (c.mask & ~mask) == 0) { c.clk = 0; if (slot < 0) slot = i; } // ordered before a write that covers it
	}
	if (same >= 0) slot = same;
	if (slot < 0) slot = s.next++ & 3;
	Cell &c = s.c[slot];
	c.clk = f->v.c[cur->id]; c.f = cur->id; c.mask = mask; c.write = write; c.atomic = atomic; c.pc = pc;
}
static void access(const void *p, size_t n, bool write, bool atomic, void *ret) {
	FC *f = me();
	if (!f || !n || fibers.size() < 2) return;
	if (p == (void *)&errno) return; // the fibers share one real thread's errno, saved at every switch
	u32 pc = (u32)((uintptr_t)ret - base_addr());
	u64 a = (u64)p, e = a + n;
	while (a < e) {
		u64 g = a >> 3;
		u64 b = std::min(e, (g + 1) * 8);
		u8 mask = (u8)(((1u << (b - a)) - 1) << (a & 7));
		gran(g, mask, write, atomic, pc, f);
		a = b;
	}
}
static void clear(const void *p, size_t n) {
	u64 a = (u64)p >> 3, e = ((u64)p + n + 7) >> 3;
	while (a < e) {
		Page *pg = page(a >> 9, false);
		u64 next = std::min(e, ((a >> 9) + 1) << 9);
		if (pg) for (u64 g = a; g < next; ++g) pg->g[g & 511] = Gran();
		a = next;
	}
	if (n < 4096 || rel_.size() < 64) for (auto it = rel_.begin(); it != rel_.end();) { if (it->first >= (u64)p && it->first < (u64)p + n) it = rel_.erase(it); else ++it; }
}
void hb_alloc(void *p) { if (p) clear(p, malloc_usable_size(p)); }
void hb_free(void *p) {
	if (!p) return;
	size_t n = malloc_usable_size(p);
	access(p, n, true, false, __builtin_return_address(0));
	clear(p, n);
}
void hb_kernel_write(const void *p, size_t n) { access(p, n, true, false, __builtin_return_address(0)); }

static void a_load(const void *p, int mo, FC *f) {
	auto it = rel_.find((u64)p);
	if (it == rel_.end()) return;
	if (mo == __ATOMIC_RELAXED) f->acq.join(it->second); else if (mo != __ATOMIC_RELEASE) f->v.join(it->second);
}
static bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void a_store(const void *p, int mo, FC *f, bool rmw) {
	VC &r = rel_[(u64)p];
	if (!rmw) r = VC();
	if (is_rel(mo)) r.join(f->v);
	else if (f->relf) r.join(f->rel);
	f->v.c[cur->id]++;
}
} // namespace sim
using namespace sim;
extern "C" {
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
#define RET __builtin_return_address(0)
#define RW(n) \
	void __tsan_read##n(void *p) { access(p, n, false, false, RET); } \
	void __tsan_write##n(void *p) { access(p, n, true, false, RET); } \
	void __tsan_unaligned_read##n(void *p) { access(p, n, false, false, RET); } \
	void __tsan_unaligned_write##n(void *p) { access(p, n, true, false, RET); } \
	void __tsan_read_write##n(void *p) { access(p, n, true, false, RET); } \
	void __tsan_unaligned_read_write##n(void *p) { access(p, n, true, false, RET); } \
	void __tsan_volatile_read##n(void *p) { access(p, n, false, false, RET); } \
	void __tsan_volatile_write##n(void *p) { access(p, n, true, false, RET); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access(p, n, false, false, RET); }
void __tsan_write_range(void *p, size_t n) { access(p, n, true, false, RET); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { access(s, n, false, false, RET); access(d, n, true, false, RET); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { access(s, n, false, false, RET); access(d, n, true, false, RET); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { access(d, n, true, false, RET); return memset(d, c, n); }
void __tsan_atomic_thread_fence(int mo) {
	FC *f = me();
	if (!f) return;
	if (mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) f->v.join(f->acq);
	if (is_rel(mo)) { f->rel = f->v; f->relf = true; f->v.c[cur->id]++; }
}
void __tsan_atomic_signal_fence(int) {}
#define RMW(T, n, name, op) \
	T __tsan_atomic##n##_##name(volatile T *p, T v, int mo) { \
		FC *f = me(); \
		access((void *)p, sizeof(T), true, true, RET); \
		T o = *p; *p = op; \
		if (f) { a_load((void *)p, mo, f); a_store((void *)p, mo, f, true); } \
		return o; \
	}
#define AT(T, n) \
	T __tsan_atomic##n##_load(const volatile T *p, int mo) { FC *f = me(); access((void *)p, sizeof(T), false, true, RET); if (f) a_load((void *)p, mo, f); return *p; } \
	void __tsan_atomic##n##_store(volatile T *p, T v, int mo) { FC *f = me(); access((void *)p, sizeof(T), true, true, RET); if (f) a_store((void *)p, mo, f, false); *p = v; } \
	RMW(T, n, exchange, v) RMW(T, n, fetch_add, o + v) RMW(T, n, fetch_sub, o - v) RMW(T, n, fetch_or, o | v) RMW(T, n, fetch_xor, o ^ v) RMW(T, n, fetch_and, o & v) \
	T __tsan_atomic##n##_compare_exchange_val(volatile T *p, T e, T v, int mo, int fmo) { \
		FC *f = me(); \
		T o = *p; \
		bool ok = o == e; \
		access((void *)p, sizeof(T), ok, true, RET); \
		if (f) a_load((void *)p, ok ? mo : fmo, f); \
		if (ok) { *p = v; if (f) a_store((void *)p, mo, f, true); } \
		return o; \
	} \
	int __tsan_atomic##n##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int fmo) { T o = __tsan_atomic##n##_compare_exchange_val(p, *e, v, mo, fmo); if (o == *e) return 1; *e = o; return 0; } \
	int __tsan_atomic##n##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int fmo) { return __tsan_atomic##n##_compare_exchange_strong(p, e, v, mo, fmo); }
AT(uint8_t, 8) AT(uint16_t, 16) AT(uint32_t, 32) AT(uint64_t, 64)
}
#endif
