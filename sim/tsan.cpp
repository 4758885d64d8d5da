// Runtime for the compiler's -fsanitize=thread instrumentation: every memory
// access of the instrumented code is a possible preemption point.
#include "internal.h"
#include <map>
using sim::memAccess;

// Weak memory: happens-before clocks kept from the order arguments of the atomic
// operations of the instrumented code (release/acquire, fences, release sequences).
namespace sim { namespace hb {
enum { N = 16 };
struct VC { uint32_t c[N]; void join(const VC& o) { for (int i = 0; i < N; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
static bool g_on;
static uint64_t g_ops;
static VC g_vc[N], g_rel[N], g_acq[N];
static std::map<const volatile void*, VC> *g_loc;
void start() { ENGINE g_on = true; g_ops = 0; g_loc = new std::map<const volatile void*, VC>(); for (int i = 0; i < N; i++) g_vc[i] = g_rel[i] = g_acq[i] = VC(); }
uint64_t ops() { return g_ops; }
uint32_t stamp() { int t = self(); return t < 0 || t >= N ? 0 : ++g_vc[t].c[t]; }
bool sees(int tid, uint32_t st) { int t = self(); return t < 0 || t >= N || tid < 0 || tid >= N || g_vc[t].c[tid] >= st; }
// kind: 1 load, 2 store, 3 read-modify-write
static void op(const volatile void *p, int mo, int kind)
{
	if (!g_on) return;
	ENGINE
	int t = self();
	if (t < 0 || t >= N) return;
	g_ops++;
	VC& l = (*g_loc)[p];
	if (kind & 1) { if (mo == __ATOMIC_RELAXED || mo == __ATOMIC_RELEASE) g_acq[t].join(l); else g_vc[t].join(l); }
	if (kind & 2) {
		const VC& r = mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST ? g_vc[t] : g_rel[t];
		if (kind == 2) l = r; else l.join(r);
	}
}
static void fence(int mo)
{
	if (!g_on) return;
	int t = self();
	if (t < 0 || t >= N) return;
	g_ops++;
	if (mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) g_vc[t].join(g_acq[t]);
	if (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) g_rel[t] = g_vc[t];
}
} }
// compare_exchange_weak may fail although the value matched
namespace sim { static bool casFails() { return self() >= 0 && g_quiet <= 0 && choose(8) == 7; } }
using sim::hb::op;
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define A(n) void __tsan_##n(void *) { memAccess(); }
A(read1) A(read2) A(read4) A(read8) A(read16) A(write1) A(write2) A(write4) A(write8) A(write16)
A(unaligned_read2) A(unaligned_read4) A(unaligned_read8) A(unaligned_read16)
A(unaligned_write2) A(unaligned_write4) A(unaligned_write8) A(unaligned_write16)
A(volatile_read1) A(volatile_read2) A(volatile_read4) A(volatile_read8) A(volatile_read16)
A(volatile_write1) A(volatile_write2) A(volatile_write4) A(volatile_write8) A(volatile_write16)
A(read_write1) A(read_write2) A(read_write4) A(read_write8) A(read_write16)
void __tsan_vptr_update(void **, void *) { memAccess(); }
void __tsan_vptr_read(void **) { memAccess(); }
void __tsan_read_range(void *, unsigned long) { memAccess(); }
void __tsan_write_range(void *, unsigned long) { memAccess(); }
#define SC __ATOMIC_SEQ_CST
#define OPS(T, N) \
T __tsan_atomic##N##_load(const volatile T *p, int mo) { memAccess(); T r = __atomic_load_n(p, SC); op(p, mo, 1); return r; } \
void __tsan_atomic##N##_store(volatile T *p, T v, int mo) { memAccess(); __atomic_store_n(p, v, SC); op(p, mo, 2); memAccess(); } \
T __tsan_atomic##N##_exchange(volatile T *p, T v, int mo) { memAccess(); T r = __atomic_exchange_n(p, v, SC); op(p, mo, 3); memAccess(); return r; } \
T __tsan_atomic##N##_fetch_add(volatile T *p, T v, int mo) { memAccess(); T r = __atomic_fetch_add(p, v, SC); op(p, mo, 3); memAccess(); return r; } \
T __tsan_atomic##N##_fetch_sub(volatile T *p, T v, int mo) { memAccess(); T r = __atomic_fetch_sub(p, v, SC); op(p, mo, 3); memAccess(); return r; } \
T __tsan_atomic##N##_fetch_and(volatile T *p, T v, int mo) { memAccess(); T r = __atomic_fetch_and(p, v, SC); op(p, mo, 3); return r; } \
T __tsan_atomic##N##_fetch_or(volatile T *p, T v, int mo) { memAccess(); T r = __atomic_fetch_or(p, v, SC); op(p, mo, 3); return r; } \
T __tsan_atomic##N##_fetch_xor(volatile T *p, T v, int mo) { memAccess(); T r = __atomic_fetch_xor(p, v, SC); op(p, mo, 3); return r; } \
T __tsan_atomic##N##_fetch_nand(volatile T *p, T v, int mo) { memAccess(); T r = __atomic_fetch_nand(p, v, SC); op(p, mo, 3); return r; } \
int __tsan_atomic##N##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int fmo) { memAccess(); int r = __atomic_compare_exchange_n(p, e, v, false, SC, SC); op(p, r ? mo : fmo, r ? 3 : 1); memAccess(); return r; } \
int __tsan_atomic##N##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int fmo) { memAccess(); if (sim::casFails()) { *e = __atomic_load_n(p, SC); op(p, fmo, 1); memAccess(); return 0; } int r = __atomic_compare_exchange_n(p, e, v, false, SC, SC); op(p, r ? mo : fmo, r ? 3 : 1); memAccess(); return r; } \
T __tsan_atomic##N##_compare_exchange_val(volatile T *p, T e, T v, int mo, int fmo) { memAccess(); int r = __atomic_compare_exchange_n(p, &e, v, false, SC, SC); op(p, r ? mo : fmo, r ? 3 : 1); memAccess(); return e; }
OPS(unsigned char, 8) OPS(unsigned short, 16) OPS(unsigned int, 32) OPS(unsigned long, 64)
void __tsan_atomic_thread_fence(int mo) { memAccess(); __atomic_thread_fence(SC); sim::hb::fence(mo); }
void __tsan_atomic_signal_fence(int) {}
void *__tsan_memcpy(void *d, const void *s, unsigned long n) { memAccess(); return __builtin_memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, unsigned long n) { memAccess(); return __builtin_memmove(d, s, n); }
void *__tsan_memset(void *d, int c, unsigned long n) { memAccess(); return __builtin_memset(d, c, n); }
// -fsanitize-coverage=trace-pc
void __sanitizer_cov_trace_pc() { memAccess(); }
}
