/* Deterministic simulator for the takum library: shared declarations. */
#ifndef LIBSIM_H
#define LIBSIM_H
#include <stdint.h>

enum { K_LOG8, K_LOG16, K_LOG32, K_LOG64, K_LIN8, K_LIN16, K_LIN32, K_LIN64,
       K_EXP, K_F32, K_F64, K_F80, K_U8, K_N };

typedef union {
	int64_t i;
	float f32;
	double f64;
	long double f80;
	uint64_t w[2];
} val;

#define NVARIANT 3

typedef struct {
	const char *name;
	int narg;
	int ret;
	int arg[3];
	void (*call[NVARIANT])(const val *a, val *r);
} apifn;

extern const apifn api[];
extern const int napi;

enum { YK_ENTRY, YK_READ, YK_WRITE, YK_BLOCK, YK_EXT, YK_ATOMIC, YK_SYNC };
void sim_yield(int kind, uintptr_t addr, uintptr_t size);
void sim_ext(int id, uintptr_t a0, uintptr_t a1, uintptr_t a2);
void sim_cmp(uintptr_t pc, uint64_t a, uint64_t b, int width, int isconst);
extern const char *const extname[];
extern const int nextname;
#endif
