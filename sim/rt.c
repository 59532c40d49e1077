/*
 * Runtime that the instrumented library calls into: the entry points of
 * -fsanitize=thread and -fsanitize-coverage=trace-pc,trace-cmp. Every one
 * of them is a scheduling point of the simulator. The real sanitizer
 * runtimes are not linked.
 */
#include <stdint.h>
#include "libsim.h"

#define RW(n)                                                                  \
	void __tsan_read##n(void *p) { sim_yield(YK_READ, (uintptr_t)p, n); }  \
	void __tsan_write##n(void *p) { sim_yield(YK_WRITE, (uintptr_t)p, n); }\
	void __tsan_read##n##_pc(void *p, void *c) { (void)c; sim_yield(YK_READ, (uintptr_t)p, n); }  \
	void __tsan_write##n##_pc(void *p, void *c) { (void)c; sim_yield(YK_WRITE, (uintptr_t)p, n); }\
	void __tsan_unaligned_read##n(void *p) { sim_yield(YK_READ, (uintptr_t)p, n); }  \
	void __tsan_unaligned_write##n(void *p) { sim_yield(YK_WRITE, (uintptr_t)p, n); }\
	void __tsan_volatile_read##n(void *p) { sim_yield(YK_READ, (uintptr_t)p, n); }  \
	void __tsan_volatile_write##n(void *p) { sim_yield(YK_WRITE, (uintptr_t)p, n); }\
	void __tsan_unaligned_volatile_read##n(void *p) { sim_yield(YK_READ, (uintptr_t)p, n); }  \
	void __tsan_unaligned_volatile_write##n(void *p) { sim_yield(YK_WRITE, (uintptr_t)p, n); }
RW(1) RW(2) RW(4) RW(8) RW(16)

void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; sim_yield(YK_ENTRY, 0, 0); }
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **a, void *b) { (void)a; (void)b; }
void __tsan_vptr_read(void **a) { (void)a; }
void __tsan_read_range(void *p, unsigned long n) { sim_yield(YK_READ, (uintptr_t)p, n); }
void __tsan_write_range(void *p, unsigned long n) { sim_yield(YK_WRITE, (uintptr_t)p, n); }
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}

#define AT(n, T)                                                               \
	T __tsan_atomic##n##_load(const volatile T *p, int mo) { (void)mo; sim_yield(YK_ATOMIC, (uintptr_t)p, n / 8); return *p; } \
	void __tsan_atomic##n##_store(volatile T *p, T v, int mo) { (void)mo; sim_yield(YK_ATOMIC, (uintptr_t)p, n / 8); *p = v; } \
	T __tsan_atomic##n##_exchange(volatile T *p, T v, int mo) { (void)mo; sim_yield(YK_ATOMIC, (uintptr_t)p, n / 8); return __sync_lock_test_and_set(p, v); } \
	T __tsan_atomic##n##_fetch_add(volatile T *p, T v, int mo) { (void)mo; sim_yield(YK_ATOMIC, (uintptr_t)p, n / 8); return __sync_fetch_and_add(p, v); } \
	T __tsan_atomic##n##_fetch_sub(volatile T *p, T v, int mo) { (void)mo; sim_yield(YK_ATOMIC, (uintptr_t)p, n / 8); return __sync_fetch_and_sub(p, v); } \
	T __tsan_atomic##n##_fetch_and(volatile T *p, T v, int mo) { (void)mo; sim_yield(YK_ATOMIC, (uintptr_t)p, n / 8); return __sync_fetch_and_and(p, v); } \
	T __tsan_atomic##n##_fetch_or(volatile T *p, T v, int mo) { (void)mo; sim_yield(YK_ATOMIC, (uintptr_t)p, n / 8); return __sync_fetch_and_or(p, v); } \
	T __tsan_atomic##n##_fetch_xor(volatile T *p, T v, int mo) { (void)mo; sim_yield(YK_ATOMIC, (uintptr_t)p, n / 8); return __sync_fetch_and_xor(p, v); } \
	T __tsan_atomic##n##_fetch_nand(volatile T *p, T v, int mo) { (void)mo; sim_yield(YK_ATOMIC, (uintptr_t)p, n / 8); return __sync_fetch_and_nand(p, v); } \
	int __tsan_atomic##n##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int f) { T o; (void)mo; (void)f; sim_yield(YK_ATOMIC, (uintptr_t)p, n / 8); o = __sync_val_compare_and_swap(p, *e, v); if (o == *e) return 1; *e = o; return 0; } \
	int __tsan_atomic##n##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int f) { return __tsan_atomic##n##_compare_exchange_strong(p, e, v, mo, f); } \
	T __tsan_atomic##n##_compare_exchange_val(volatile T *p, T e, T v, int mo, int f) { (void)mo; (void)f; sim_yield(YK_ATOMIC, (uintptr_t)p, n / 8); return __sync_val_compare_and_swap(p, e, v); }
#pragma GCC diagnostic ignored "-Wsync-nand"
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { (void)mo; sim_yield(YK_ATOMIC, 0, 0); __sync_synchronize(); }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

void __sanitizer_cov_trace_pc(void) { sim_yield(YK_BLOCK, (uintptr_t)__builtin_return_address(0), 0); }
#define PC ((uintptr_t)__builtin_return_address(0))
#define CMP(n, T)                                                              \
	void __sanitizer_cov_trace_cmp##n(T a, T b) { sim_cmp(PC, (uint64_t)a, (uint64_t)b, 8 * n, 0); } \
	void __sanitizer_cov_trace_const_cmp##n(T a, T b) { sim_cmp(PC, (uint64_t)a, (uint64_t)b, 8 * n, 1); }
CMP(1, int8_t) CMP(2, int16_t) CMP(4, int32_t) CMP(8, int64_t)
/* bits in the order of the values */
static uint64_t
ordered(double d)
{
	union { double d; uint64_t u; } x;
	x.d = d;
	return x.u >> 63 ? ~x.u : x.u | 1ull << 63;
}
void __sanitizer_cov_trace_cmpf(float a, float b) { sim_cmp(PC, ordered(a), ordered(b), 65, 0); }
void __sanitizer_cov_trace_cmpd(double a, double b) { sim_cmp(PC, ordered(a), ordered(b), 65, 0); }
void __sanitizer_cov_trace_switch(uint64_t v, void *c)
{
	uint64_t *p = c, i;
	for (i = 0; i < p[0] && i < 16; i++)
		sim_cmp(PC + i * 0x10000000000ull, p[2 + i], v, 64, 1);
}
