// Simulator seam: every C11 atomic operation performed by bfs becomes a
// scheduling point of the deterministic scheduler, and weak CASes may fail
// spuriously.  The operation itself is still the real one, with the memory
// order the code asked for (so ThreadSanitizer sees the real orders).
#ifndef SIM_STDATOMIC_H
#define SIM_STDATOMIC_H

#include_next <stdatomic.h>

#ifdef __cplusplus
extern "C" {
#endif
void sim_atomic_pre(int kind);
void sim_atomic_post(int kind);
int sim_cas_spurious(void);
void sim_pause(void);
#ifdef __cplusplus
}
#endif

#define SIM_A_LOAD 0
#define SIM_A_STORE 1
#define SIM_A_RMW 2
#define SIM_A_FENCE 3

#undef atomic_load
#undef atomic_load_explicit
#undef atomic_store
#undef atomic_store_explicit
#undef atomic_exchange
#undef atomic_exchange_explicit
#undef atomic_compare_exchange_strong
#undef atomic_compare_exchange_strong_explicit
#undef atomic_compare_exchange_weak
#undef atomic_compare_exchange_weak_explicit
#undef atomic_fetch_add
#undef atomic_fetch_add_explicit
#undef atomic_fetch_sub
#undef atomic_fetch_sub_explicit
#undef atomic_fetch_or
#undef atomic_fetch_or_explicit
#undef atomic_fetch_xor
#undef atomic_fetch_xor_explicit
#undef atomic_fetch_and
#undef atomic_fetch_and_explicit

#define SIM_RET(kind, expr) \
	({ sim_atomic_pre(kind); __typeof__(expr) sim_ret_ = (expr); sim_atomic_post(kind); sim_ret_; })

#define atomic_load_explicit(obj, o) \
	SIM_RET(SIM_A_LOAD, __c11_atomic_load((obj), (o)))
#define atomic_store_explicit(obj, v, o) \
	(sim_atomic_pre(SIM_A_STORE), __c11_atomic_store((obj), (v), (o)), sim_atomic_post(SIM_A_STORE))
#define atomic_exchange_explicit(obj, v, o) \
	SIM_RET(SIM_A_RMW, __c11_atomic_exchange((obj), (v), (o)))
#define atomic_fetch_add_explicit(obj, v, o) \
	SIM_RET(SIM_A_RMW, __c11_atomic_fetch_add((obj), (v), (o)))
#define atomic_fetch_sub_explicit(obj, v, o) \
	SIM_RET(SIM_A_RMW, __c11_atomic_fetch_sub((obj), (v), (o)))
#define atomic_fetch_or_explicit(obj, v, o) \
	SIM_RET(SIM_A_RMW, __c11_atomic_fetch_or((obj), (v), (o)))
#define atomic_fetch_xor_explicit(obj, v, o) \
	SIM_RET(SIM_A_RMW, __c11_atomic_fetch_xor((obj), (v), (o)))
#define atomic_fetch_and_explicit(obj, v, o) \
	SIM_RET(SIM_A_RMW, __c11_atomic_fetch_and((obj), (v), (o)))
#define atomic_compare_exchange_strong_explicit(obj, e, d, s, f) \
	SIM_RET(SIM_A_RMW, __c11_atomic_compare_exchange_strong((obj), (e), (d), (s), (f)))
#define atomic_compare_exchange_weak_explicit(obj, e, d, s, f) \
	SIM_RET(SIM_A_RMW, sim_cas_spurious() \
		? (*(e) = __c11_atomic_load((obj), (f)), (_Bool)0) \
		: __c11_atomic_compare_exchange_strong((obj), (e), (d), (s), (f)))

#define atomic_load(obj) atomic_load_explicit(obj, memory_order_seq_cst)
#define atomic_store(obj, v) atomic_store_explicit(obj, v, memory_order_seq_cst)
#define atomic_exchange(obj, v) atomic_exchange_explicit(obj, v, memory_order_seq_cst)
#define atomic_fetch_add(obj, v) atomic_fetch_add_explicit(obj, v, memory_order_seq_cst)
#define atomic_fetch_sub(obj, v) atomic_fetch_sub_explicit(obj, v, memory_order_seq_cst)
#define atomic_fetch_or(obj, v) atomic_fetch_or_explicit(obj, v, memory_order_seq_cst)
#define atomic_fetch_xor(obj, v) atomic_fetch_xor_explicit(obj, v, memory_order_seq_cst)
#define atomic_fetch_and(obj, v) atomic_fetch_and_explicit(obj, v, memory_order_seq_cst)
#define atomic_compare_exchange_strong(obj, e, d) \
	atomic_compare_exchange_strong_explicit(obj, e, d, memory_order_seq_cst, memory_order_seq_cst)
#define atomic_compare_exchange_weak(obj, e, d) \
	atomic_compare_exchange_weak_explicit(obj, e, d, memory_order_seq_cst, memory_order_seq_cst)

// Spin-wait hints are where a real CPU would let another thread make progress
#define __builtin_ia32_pause() sim_pause()

#endif
