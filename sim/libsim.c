/*
 * Deterministic simulator for the takum library.
 *
 * The real library, compiled from the working tree, runs here on real
 * threads that are parked and released one at a time: which thread runs,
 * when it is preempted, interrupted, abandoned or stalled for ever, which
 * allocation is refused and what the ambient state of the process is, is
 * decided by the simulator from one seed or from a plan file.
 *
 *   libsim run   MODE SEED FIRST COUNT CORPUS OUTDIR   seeded search
 *   libsim exec  PLAN                                  one exact replay
 *   libsim sweep LO HI SEED OUTFILE                    reach survey
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <fenv.h>
#include <limits.h>
#include <linux/futex.h>
#include <locale.h>
#include <math.h>
#include <pthread.h>
#include <sched.h>
#include <setjmp.h>
#include <signal.h>
#include <ucontext.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <threads.h>
#include <time.h>
#include <unistd.h>
#include <dirent.h>
#include <malloc.h>
#include <semaphore.h>
#include <sys/eventfd.h>
#include <sys/socket.h>
#include <sys/stat.h>

#include "libsim.h"

#define MAXT 64
#define MAXEV 4096
#define STEP_BOUND 300000
#define FAIR_SLICE 4000
#define STACKSZ (256 * 1024)
#define SMALLSTACK (24 * 1024)
#define STACKLIMIT (16 * 1024)
#define MAXDEPTH 6
#define CALL_STEP (1 << 20) /* C14: number of the first step of a call */
#define DATA_GRAN 16

enum { M_C01, M_C02, M_C03, M_C04, M_C05, M_C06, M_C13, M_C14, M_C15, M_N };
static const char *const modename[] = { "C01", "C02", "C03", "C04", "C05", "C06", "C13", "C14", "C15" };

/* ---------------------------------------------------------------- PRNG */
typedef struct { uint64_t s; } rng;
static uint64_t
rnd(rng *r)
{
	uint64_t z = (r->s += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
static uint64_t rnd_n(rng *r, uint64_t n) { return n ? rnd(r) % n : 0; }
static int chance(rng *r, unsigned p, unsigned q) { return rnd(r) % q < p; }
static uint64_t
mix(uint64_t h, uint64_t v)
{
	h = (h ^ v) * 0xff51afd7ed558ccdull;
	return h ^ (h >> 29);
}

/* ---------------------------------------------------------------- plan */
typedef struct {
	uint16_t fn;
	uint8_t env;   /* bits 0-1 rounding, 2 FTZ, 3 DAZ, 4-5 x87 precision, 6-7 traps */
	uint8_t noise; /* bit 0 sticky flags set, 1 errno set, 2 rand/clock jump, 3-7 stack position */
	val a[3];
} call_t;

/* those from EV_CTORS on happen between the calls of a thread (at step 0), a fork also within one */
enum { EV_SWITCH, EV_NEST, EV_CANCEL, EV_STALL, EV_END, EV_FORK, EV_CTORS, EV_EXIT, EV_FINI, EV_TLS, EV_N };
static const char *const evname[] = { "switch", "nest", "cancel", "stall", "end", "fork", "ctors", "exit", "fini", "tls" };

typedef struct {
	uint16_t tid;
	uint8_t kind;
	uint8_t hitshared;
	uint32_t call, y;
	uint32_t arg;
	call_t nest;
} event_t;

typedef struct {
	int mode;
	int variant;
	uint64_t poison;
	uint64_t ambient;
	int nthreads;
	int start;
	int smallstack;
	int allocfail;  /* 0 none, 1 all, k+1: the k-th */
	int repeat;     /* repeat the whole history, on new threads */
	uint32_t marathon; /* that many further calls: the given ones again and again, between fresh ones */
	uint64_t mseed;
	int fresh;      /* how many per cent of them are fresh */
	int calls_total;
	int ncalls[MAXT];
	call_t *calls[MAXT];
	int nev;
	event_t ev[MAXEV];
} plan_t;

/* results: shared between the simulation process and its parent */
enum { RS_NONE, RS_OK, RS_ABANDONED };
typedef struct {
	uint8_t st;
	uint8_t ctl;
	uint8_t trap;
	uint32_t steps;
	uint32_t stk;
	uint64_t w[2];
} res_t;

enum { S_RUNNING, S_DONE, S_STUCK, S_DEADLOCK, S_EXIT };

#define MAXRES (1 << 18)
#define MAXNEST 512
#define MAXTOUCH 4096
typedef struct {
	int status;
	int cur_tid;
	uint32_t cur_call;
	uint32_t cur_idx;
	uint64_t hash;    /* of the complete execution log */
	uint64_t ihash;   /* of the interleaving */
	uint64_t steps;
	uint64_t shared_hits;
	uint64_t ext_calls;
	uint64_t ev_fired[EV_N], ev_shared;
	uint64_t alloc_calls, alloc_refused, io_refused;
	uint64_t live_bytes[4];
	int fds[4];
	int traps;
	int locale_changed, sig_changed, environ_changed;
	uint64_t maxsteps;
	uint32_t maxstk;
	int maxdepth;
	uint32_t mcalls; /* calls of a marathon */
	int mq;
	int nnest;
	res_t nest[MAXNEST];
	call_t nestcall[MAXNEST];
	int nev;
	event_t ev[MAXEV];
	res_t res[MAXRES];
} shm_t;
static shm_t *S;

/* sweep data, shared with the sweep child */
#define NSITE 1024
typedef struct {
	uint8_t cov[1 << 16];
	int newcov, touched, extother;
	uint32_t touch[64];
	int ntouch;
	uint64_t dict[256];
	int ndict;
	/* climbing: how close each comparison came to equality, and with what */
	uint32_t epoch;
	int nsite, newsite, neq;
	struct site {
		uint64_t pc, a, b, d;
		uint32_t ep;
		uint16_t occ;
		uint8_t eq, fp, h;
		call_t best[2];
	} site[NSITE];
	uint16_t index[4096];
	struct { uint32_t ep; uint64_t pc; uint16_t n; } occ[512];
	call_t cur, pool[128], deep[2];
	int npool;
	uint32_t deepest[2], shown[2];
	uint64_t execs;
} sweep_t;
static sweep_t *W;

/* ---------------------------------------------------------------- FP environment */
static inline unsigned
get_mxcsr(void)
{
	unsigned v;
	__asm__ volatile("stmxcsr %0" : "=m"(v));
	return v;
}
static inline void set_mxcsr(unsigned v) { __asm__ volatile("ldmxcsr %0" : : "m"(v)); }
static inline unsigned
get_cw(void)
{
	uint16_t v;
	__asm__ volatile("fnstcw %0" : "=m"(v));
	return v;
}
struct x87env { uint32_t cw, sw, tw, r[4]; };
/* exceptions that trap, by bits 6-7 of the settings */
static unsigned traps[4] = { 0, 0x04 | 0x01, 0x08 | 0x10, 0x1f & ~0x02 };
static void
env_enter(unsigned env, unsigned noise)
{
	static const unsigned pcs[4] = { 3, 2, 0, 3 };
	unsigned rm = env & 3;
	struct x87env e;
	__asm__ volatile("fninit");
	__asm__ volatile("fnstenv %0" : "=m"(e));
	e.cw = (0x3f & ~traps[env >> 6 & 3]) | (pcs[(env >> 4) & 3] << 8) | (rm << 10);
	e.cw |= 0x40;
	if (env >> 6)
		noise &= ~1u; /* a pending exception would trap at once */
	if (noise & 1)
		e.sw |= 0x3f;
	__asm__ volatile("fldenv %0" : : "m"(e));
	set_mxcsr((0x1f80 & ~(traps[env >> 6 & 3] << 7)) | (rm << 13) | ((env & 4) ? 0x8000 : 0) | ((env & 8) ? 0x40 : 0) | ((noise & 1) ? 0x3f : 0));
}
static void env_default(void) { __asm__ volatile("fninit"); set_mxcsr(0x1f80); }

/* ---------------------------------------------------------------- threads */
typedef struct {
	int id;
	int state; /* 0 runnable, 1 finished, 2 stalled */
	int blocked;
	volatile int tok; /* futex */
	int in_lib, depth, nocancel;
	volatile int trapped; /* a trap was taken and its handler masked all of them */
	uint32_t call, y;
	uint32_t steps; /* own steps of the current top-level call */
	int evi;        /* next replay event */
	int nsince;
	jmp_buf jb[MAXDEPTH + 1];
	uintptr_t stk0;     /* where the stack of the current call begins */
	uint32_t maxstk;
	uintptr_t slo, shi;
	pthread_t th;
	ucontext_t uc; /* C15: threads are coroutines of one thread */
	int err;
	uint32_t base; /* first result slot */
	unsigned lastshared;
} thr_t;

static thr_t thr[MAXT];
static __thread thr_t *self __attribute__((tls_model("initial-exec")));
static volatile int main_tok;

static void
on_fpe(int sig, siginfo_t *si, void *ctx)
{
	ucontext_t *u = ctx;
	if (si->si_code == FPE_INTDIV || si->si_code == FPE_INTOVF || !u->uc_mcontext.fpregs ||
	    ((u->uc_mcontext.fpregs->cwd & 0x3f) == 0x3f && (u->uc_mcontext.fpregs->mxcsr & 0x1f80) == 0x1f80)) {
		signal(SIGFPE, SIG_DFL);
		return;
	}
	if (self)
		self->trapped = 1;
	u->uc_mcontext.fpregs->cwd |= 0x3f;
	u->uc_mcontext.fpregs->swd &= ~0x80ff;
	u->uc_mcontext.fpregs->mxcsr |= 0x1f80;
	u->uc_mcontext.fpregs->mxcsr &= ~0x3f;
}

static void
catch_fpe(void)
{
	struct sigaction sa;
	memset(&sa, 0, sizeof(sa));
	sa.sa_sigaction = on_fpe;
	sa.sa_flags = SA_SIGINFO;
	sigaction(SIGFPE, &sa, NULL);
}

static struct {
	plan_t *p;
	int online;
	rng r;
	uint64_t gap_sh, gap_other; /* 0: never */
	uint64_t next_sh, next_other;
	unsigned w_switch, w_nest, w_cancel, w_stall, w_fork, w_total;
	int coop, nfork, forks_left, late_ctors;
	int burst, stalls_left;
	uint64_t h, ih;
	int evstart[MAXT + 1];
	event_t *sorted;
	int sweep;
	uint32_t prevpc;
	call_t nestpool[8];
	int nnestpool;
	uint64_t allocn;
	uint64_t live;
	uint64_t clock;
	uint64_t randstate;
	uint64_t ambient;
} G;

static long
raw_futex(volatile int *a, int op, int v)
{
	long r;
	register long r10 __asm__("r10") = 0;
	__asm__ volatile("syscall" : "=a"(r) : "0"((long)SYS_futex), "D"(a), "S"((long)op), "d"((long)v), "r"(r10)
	                 : "rcx", "r11", "memory");
	return r;
}
static void
park(volatile int *tok)
{
	while (!__atomic_load_n(tok, __ATOMIC_ACQUIRE))
		raw_futex(tok, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0);
	*tok = 0;
}
static void
unpark(volatile int *tok)
{
	__atomic_store_n(tok, 1, __ATOMIC_RELEASE);
	raw_futex(tok, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1);
}

static void
finish(int status)
{
	if (S->status == S_RUNNING)
		S->status = status;
	S->hash = G.h;
	S->ihash = G.ih;
	syscall(SYS_exit_group, status == S_DONE ? 0 : 3);
}

static int
runnable(int t)
{
	return thr[t].state == 0 && !thr[t].blocked;
}
static int
next_rr(int from)
{
	int i, n = G.p->nthreads;
	for (i = 1; i <= n; i++)
		if (runnable((from + i) % n))
			return (from + i) % n;
	return -1;
}
static int
pick_other(int from)
{
	int c[MAXT], n = 0, i;
	for (i = 0; i < G.p->nthreads; i++)
		if (i != from && runnable(i))
			c[n++] = i;
	return n ? c[rnd_n(&G.r, n)] : -1;
}

/* hand the processor to thread `to` and wait until it comes back */
static void
switch_to(thr_t *T, int to)
{
	if (to == T->id)
		return;
	S->cur_tid = to;
	if (G.coop) {
		/* the scheduler of the coroutines keeps errno for each of them */
		T->err = errno;
		self = &thr[to];
		swapcontext(&T->uc, &thr[to].uc);
		self = T;
		errno = T->err;
	} else {
		unpark(&thr[to].tok);
		park(&T->tok);
	}
	S->cur_tid = T->id;
}

static void record(thr_t *T, int kind, uint32_t arg, const call_t *nest, int sh)
{
	event_t *e;
	if (S->nev >= MAXEV)
		return;
	e = &S->ev[S->nev++];
	memset(e, 0, sizeof(*e));
	e->tid = T->id;
	e->kind = kind;
	e->call = T->call;
	e->y = T->y;
	e->arg = arg;
	e->hitshared = sh;
	if (nest)
		e->nest = *nest;
}

static void do_call(thr_t *T, const call_t *c, res_t *r, int nested);

static void
do_nest(thr_t *T, const call_t *c)
{
	struct x87env e;
	unsigned mx = get_mxcsr();
	int en = errno, k, tr = T->trapped;
	uint32_t lastshared = T->lastshared, steps = T->steps, maxstk = T->maxstk;
	uintptr_t stk0 = T->stk0;
	if (S->nnest >= MAXNEST)
		return;
	__asm__ volatile("fnstenv %0" : "=m"(e));
	k = S->nnest++;
	S->nestcall[k] = *c;
	S->nest[k].st = RS_NONE;
	T->depth++;
	if (T->depth > S->maxdepth)
		S->maxdepth = T->depth;
	T->steps = 0;
	do_call(T, c, &S->nest[k], 1);
	T->depth--;
	T->steps = steps;
	T->stk0 = stk0;
	T->maxstk = maxstk;
	T->trapped = tr;
	T->lastshared = lastshared;
	__asm__ volatile("fldenv %0" : : "m"(e));
	set_mxcsr(mx);
	errno = en;
}

static void stall_self(thr_t *T)
{
	int to;
	T->state = 2;
	to = next_rr(T->id);
	if (to < 0) {
		int i;
		/* every live thread waits for something that a stalled one holds */
		for (i = 0; i < G.p->nthreads; i++)
			if (thr[i].state == 0)
				finish(S_DEADLOCK);
		finish(S_DONE);
	}
	S->cur_tid = to;
	if (G.coop) {
		self = &thr[to];
		setcontext(&thr[to].uc);
	}
	unpark(&thr[to].tok);
	for (;;)
		park(&T->tok);
}

static void forget_onces(void);

/*
 * A fork: the simulation goes on in the child, where this thread is the
 * only one; the parent waits for it and ends in the same way.
 */
static void
do_fork(thr_t *T)
{
	int i, st, lib = T->in_lib, en = errno;
	pid_t pid;
	T->in_lib = 1; /* handlers of the library run inside */
	pid = fork();
	T->in_lib = lib;
	errno = en;
	if (pid > 0) {
		while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
			;
		if (WIFSIGNALED(st)) {
			signal(WTERMSIG(st), SIG_DFL);
			kill(getpid(), WTERMSIG(st));
			for (;;)
				pause();
		}
		syscall(SYS_exit_group, WEXITSTATUS(st));
	}
	if (pid < 0)
		finish(S_DONE);
	alarm(60);
	G.nfork++;
	forget_onces();
	for (i = 0; i < G.p->nthreads; i++)
		if (i != T->id && thr[i].state == 0)
			thr[i].state = 2;
}

/* constructors and destructors of the library, kept from running by the build */
typedef void (*initfn)(int, char **, char **);
extern initfn *const sim_inits[][2];
extern const int nsim_inits;
extern void (**const sim_finis[][2])(void);
extern const int nsim_finis;
extern char **environ;
static void
run_ctors(void)
{
	static char *av[] = { "program", NULL };
	int i;
	initfn *f;
	for (i = 0; i < nsim_inits; i++)
		for (f = sim_inits[i][0]; f < sim_inits[i][1]; f++)
			if (*f)
				(*f)(1, av, environ);
}
static void
run_dtors(void)
{
	int i;
	void (**f)(void);
	for (i = nsim_finis - 1; i >= 0; i--)
		for (f = sim_finis[i][1]; f > sim_finis[i][0];)
			if (*--f)
				(*f)();
}
static struct { void (*f)(void *); void *a; } exits[4096];
static int nexits;
static void
run_exits(void)
{
	while (nexits > 0) {
		nexits--;
		exits[nexits].f(exits[nexits].a);
	}
}
static struct { pthread_key_t k; void (*f)(void *); int used; } keys[1024];
static void
run_keys(void)
{
	int i, n, round;
	for (round = 0; round < 4; round++) {
		for (i = n = 0; i < 1024; i++) {
			void *v;
			if (!keys[i].used || !keys[i].f || !(v = pthread_getspecific(keys[i].k)))
				continue;
			pthread_setspecific(keys[i].k, NULL);
			keys[i].f(v);
			n++;
		}
		if (!n)
			break;
	}
}

static void
apply(thr_t *T, int kind, uint32_t arg, const call_t *nest, int sh)
{
	S->ev_fired[kind]++;
	if (sh)
		S->ev_shared++;
	G.ih = mix(G.ih, ((uint64_t)kind << 56) ^ ((uint64_t)T->id << 48) ^ ((uint64_t)arg << 40) ^ T->y ^
	                     ((uint64_t)(T->call < (uint32_t)G.p->ncalls[T->id] ? G.p->calls[T->id][T->call].fn : 0) << 24));
	G.h = mix(G.h, 0x1000 + kind);
	switch (kind) {
	case EV_SWITCH:
		if ((int)arg < G.p->nthreads && runnable(arg))
			switch_to(T, arg);
		break;
	case EV_NEST:
		if (T->depth < MAXDEPTH)
			do_nest(T, nest);
		break;
	case EV_CANCEL:
		/* the arg innermost calls beyond the first go with it */
		longjmp(T->jb[T->depth - ((int)arg < T->depth ? (int)arg : T->depth)], 1);
		break;
	case EV_STALL:
		stall_self(T);
		break;
	case EV_FORK:
		do_fork(T);
		break;
	}
}

/* what happens before the next call of the thread, by plan */
static void
phases(thr_t *T)
{
	int i, lib = T->in_lib;
	uint32_t y = 1;
	T->steps = 0;
	for (i = G.evstart[T->id]; i < G.evstart[T->id + 1]; i++) {
		event_t *e = &G.sorted[i];
		if (e->call != T->call || e->y || e->kind < EV_FORK)
			continue;
		/* the event is at step 0, what it leads to before the steps of the call */
		T->y = 0;
		record(T, e->kind, e->arg, NULL, 0);
		T->y = y;
		S->ev_fired[e->kind]++;
		G.ih = mix(G.ih, ((uint64_t)e->kind << 56) ^ ((uint64_t)T->id << 48) ^ T->call);
		G.h = mix(G.h, 0x1000 + e->kind);
		if (e->kind == EV_FORK) {
			do_fork(T);
			continue;
		}
		T->in_lib = 1;
		T->steps = 0;
		if (e->kind == EV_CTORS)
			run_ctors();
		else if (e->kind == EV_EXIT)
			run_exits();
		else if (e->kind == EV_FINI)
			run_dtors();
		else if (e->kind == EV_TLS)
			run_keys();
		y = T->y;
		T->in_lib = lib;
	}
}

static void
fire_online(thr_t *T, int sh)
{
	unsigned x;
	int k, to;
	if (S->nev >= MAXEV - MAXT)
		return; /* what is not recorded must not happen */
	x = rnd_n(&G.r, G.w_total);
	if (x < G.w_switch)
		k = EV_SWITCH;
	else if ((x -= G.w_switch) < G.w_nest)
		k = EV_NEST;
	else if ((x -= G.w_nest) < G.w_cancel)
		k = EV_CANCEL;
	else if ((x -= G.w_cancel) < G.w_fork)
		k = EV_FORK;
	else
		k = EV_STALL;
	if (T->depth > 0 && k == EV_STALL)
		return;
	if (k == EV_NEST && T->depth > 0 && (T->depth >= MAXDEPTH || !chance(&G.r, 1, T->depth > 2 ? 4 : 3)))
		return;
	switch (k) {
	case EV_SWITCH:
		to = pick_other(T->id);
		if (to < 0)
			return;
		record(T, k, to, NULL, sh);
		apply(T, k, to, NULL, sh);
		break;
	case EV_NEST: {
		call_t c = G.nestpool[rnd_n(&G.r, G.nnestpool)];
		/* often the very call that is being interrupted, or a near one */
		if (chance(&G.r, 1, 3))
			c = G.p->calls[T->id][T->call];
		c.env = 0; /* a signal handler starts with default settings */
		record(T, k, 0, &c, sh);
		apply(T, k, 0, &c, sh);
		break;
	}
	case EV_CANCEL:
		to = T->depth ? (int)rnd_n(&G.r, T->depth + 1) : 0;
		record(T, k, to, NULL, sh);
		apply(T, k, to, NULL, sh);
		break;
	case EV_FORK:
		if (G.forks_left <= 0 || !T->y)
			return;
		G.forks_left--;
		record(T, k, 0, NULL, sh);
		apply(T, k, 0, NULL, sh);
		break;
	case EV_STALL:
		if (G.stalls_left <= 0)
			return;
		G.stalls_left--;
		record(T, k, 0, NULL, sh);
		apply(T, k, 0, NULL, sh);
		break;
	}
}

extern char __executable_start, etext, edata, end, __data_start;
extern char __init_array_start;

static int
is_shared(thr_t *T, uintptr_t a)
{
	if (a >= T->slo && a < T->shi)
		return 0;
	if (a >= (uintptr_t)&__executable_start && a < (uintptr_t)&__data_start)
		return 0;
	return 1;
}

static void
touch(uintptr_t a)
{
	uint32_t off;
	int i;
	W->touched = 1;
	off = (uint32_t)((a - (uintptr_t)&__data_start) / DATA_GRAN);
	if (a < (uintptr_t)&__data_start || a >= (uintptr_t)&end)
		off = 0xffffffffu;
	for (i = 0; i < W->ntouch; i++)
		if (W->touch[i] == off)
			return;
	if (W->ntouch < 64)
		W->touch[W->ntouch++] = off;
}

static void stuck(void) { finish(S_STUCK); }

static void
decide(thr_t *T, int sh)
{
	if (G.online) {
		if (sh) {
			if (G.gap_sh && --G.next_sh == 0) {
				G.next_sh = 1 + rnd_n(&G.r, 2 * G.gap_sh);
				fire_online(T, 1);
			}
		} else if (G.gap_other && --G.next_other == 0) {
			G.next_other = 1 + rnd_n(&G.r, 2 * G.gap_other);
			fire_online(T, 0);
		}
	} else {
		while (T->evi < G.evstart[T->id + 1]) {
			event_t *e = &G.sorted[T->evi];
			if (e->call < T->call || (e->call == T->call && e->y < T->y)) {
				T->evi++;
				continue;
			}
			if (e->call == T->call && e->y == T->y && e->kind != EV_END) {
				T->evi++;
				record(T, e->kind, e->arg, &e->nest, sh);
				apply(T, e->kind, e->arg, &e->nest, sh);
			}
			break;
		}
	}
}

static uint32_t climb_at;
static void climb_inside(thr_t *T);

void
sim_yield(int kind, uintptr_t addr, uintptr_t size)
{
	thr_t *T = self;
	int sh = 0;
	(void)size;
	if (!T || !T->in_lib)
		return;
	if (G.sweep) {
		uintptr_t sp = (uintptr_t)__builtin_frame_address(0);
		if (T->stk0 - sp > T->maxstk && T->stk0 > sp)
			T->maxstk = T->stk0 - sp;
		T->steps++;
		if (kind == YK_BLOCK) {
			uint32_t pc = (uint32_t)addr, e = (G.prevpc >> 1) ^ (pc * 2654435761u >> 8);
			uint8_t *b = &W->cov[e & 0xffff];
			if (!*b) {
				*b = 1;
				W->newcov = 1;
			}
			G.prevpc = pc * 2654435761u >> 8;
		} else if (addr && kind != YK_BLOCK && is_shared(T, addr))
			touch(addr);
		if (T->steps > STEP_BOUND)
			stuck();
		if (climb_at && T->steps >= climb_at) {
			climb_at = 0;
			climb_inside(T);
		}
		return;
	}
	T->y++;
	T->steps++;
	S->steps++;
	{
		uintptr_t sp = (uintptr_t)__builtin_frame_address(0);
		if (T->stk0 - sp > T->maxstk && T->stk0 > sp)
			T->maxstk = T->stk0 - sp;
	}
	if (addr && kind != YK_BLOCK)
		sh = is_shared(T, addr);
	if (kind == YK_SYNC)
		sh = 1;
	/* the yield right after a shared access is as interesting as the access */
	if (sh) {
		S->shared_hits++;
		T->lastshared = 1;
	} else if (T->lastshared) {
		T->lastshared = 0;
		sh = 1;
	}
	G.h = (G.h ^ (uint64_t)(T->id * 16 + kind)) * 0x100000001b3ull;
	G.clock++;
	if (T->steps > STEP_BOUND)
		stuck();
	if (T->steps % FAIR_SLICE == 0) {
		int to = next_rr(T->id);
		if (to >= 0)
			switch_to(T, to);
	}
	decide(T, sh);
}

/*
 * Comparisons: constants go to the dictionary, and while climbing each
 * one (by place and occurrence within the call) remembers the arguments
 * that brought its operands closest, by difference and by bits.
 */
void
sim_cmp(uintptr_t pc, uint64_t a, uint64_t b, int width, int isconst)
{
	uint64_t d, m = width >= 64 ? ~0ull : (1ull << width) - 1, e;
	unsigned k, n, h;
	struct site *t;
	int i;
	if (!G.sweep || !self || !self->in_lib)
		return;
	if (isconst) {
		for (i = 0; i < W->ndict; i++)
			if (W->dict[i] == a)
				break;
		if (i == W->ndict && W->ndict < 256)
			W->dict[W->ndict++] = a;
	}
	if (G.sweep != 2)
		return;
	k = (unsigned)(pc * 0x9e3779b97f4a7c15ull >> 55);
	if (W->occ[k].ep != W->epoch || W->occ[k].pc != pc) {
		W->occ[k].ep = W->epoch;
		W->occ[k].pc = pc;
		W->occ[k].n = 0;
	}
	n = W->occ[k].n++;
	if (n > 3)
		return;
	pc = pc << 2 | n;
	for (k = (unsigned)(pc * 0x9e3779b97f4a7c15ull >> 52); W->index[k]; k = (k + 1) & 4095)
		if (W->site[W->index[k] - 1].pc == pc)
			break;
	if (!W->index[k]) {
		if (W->nsite == NSITE)
			return;
		t = &W->site[W->nsite++];
		W->index[k] = W->nsite;
		t->pc = pc;
		t->d = ~0ull;
		t->h = 65;
		t->fp = width == 65;
	} else
		t = &W->site[W->index[k] - 1];
	if (t->eq)
		return;
	d = (a - b) & m;
	e = (b - a) & m;
	if (e < d)
		d = e;
	if (!d) {
		t->eq = 1;
		W->neq++;
		return;
	}
	h = (unsigned)__builtin_popcountll((a ^ b) & m);
	if (d < t->d) {
		t->d = d;
		t->a = a;
		t->b = b;
		t->best[0] = W->cur;
	}
	if (h < t->h) {
		t->h = h;
		t->best[1] = W->cur;
	}
}

/* ---------------------------------------------------------------- external calls */
static uint8_t *extmath, *extmem;
static const char *const memfns[] = { "memcpy", "memmove", "memset", "memcmp", "memchr", "strcmp", "strlen", "strcpy",
	"__memcpy_chk", "__memset_chk", "__memmove_chk", NULL };

static void
ext_init(void)
{
	static const char *const nonmath[] = { "fopen", "fclose", "fread", "fwrite", "fprintf", "printf", "puts", "putchar",
		"open", "close", "read", "write", "mmap", "munmap", "sigaction", "sigprocmask", "signal", "raise", "setlocale",
		"fegetenv", "fesetenv", "fesetround", "fegetround", "feholdexcept", "feupdateenv", "feclearexcept",
		"fetestexcept", "feraiseexcept", "feenableexcept", "fedisableexcept", "__errno_location", "qsort", "bsearch",
		"strtod", "strtold", "snprintf", "sprintf", "__snprintf_chk", "__sprintf_chk", "__printf_chk", "__fprintf_chk",
		"lgamma", "lgammaf", "lgammal", "gamma", "syscall", "abort", "exit", "_exit", "setenv", "putenv", "unsetenv", NULL };
	int i, j;
	extmath = calloc(nextname + 1, 1);
	extmem = calloc(nextname + 1, 1);
	for (i = 0; i < nextname; i++) {
		extmath[i] = 1;
		for (j = 0; nonmath[j]; j++)
			if (!strcmp(extname[i], nonmath[j]))
				extmath[i] = 0;
		for (j = 0; memfns[j]; j++)
			if (!strcmp(extname[i], memfns[j]))
				extmem[i] = 1;
	}
}

void
sim_ext(int id, uintptr_t a0, uintptr_t a1, uintptr_t a2)
{
	thr_t *T = self;
	uintptr_t a = 0;
	(void)a2;
	if (!T || !T->in_lib)
		return;
	S->ext_calls++;
	if (extmem[id]) {
		if (is_shared(T, a0))
			a = a0;
		else if (is_shared(T, a1))
			a = a1;
	}
	if (G.sweep && !extmath[id])
		W->extother = 1;
	sim_yield(extmath[id] ? YK_EXT : YK_SYNC, a, 0);
}

static void
ext_other(void)
{
	thr_t *T = self;
	if (T && T->in_lib) {
		if (G.sweep)
			W->extother = 1;
		sim_yield(YK_SYNC, 0, 0);
	}
}

/* allocator: counts what the library holds and refuses what the plan says */
struct ahdr { uint64_t size, magic; };
#define AMAGIC 0x7461616b756d0000ull
static int
refuse_alloc(void)
{
	thr_t *T = self;
	if (!T || !T->in_lib)
		return 0;
	ext_other();
	S->alloc_calls++;
	G.allocn++;
	if (G.p && (G.p->allocfail == 1 || (G.p->allocfail > 1 && (uint64_t)G.p->allocfail == G.allocn + 1))) {
		S->alloc_refused++;
		errno = ENOMEM;
		return 1;
	}
	return 0;
}
static void *
al(size_t n, size_t align, int zero)
{
	struct ahdr *h;
	char *base;
	size_t off = align > 32 ? align : 32;
	if (n > (1ull << 40) || !(base = aligned_alloc(off, (off + n + off - 1) / off * off))) {
		errno = ENOMEM;
		return NULL;
	}
	memset(base, zero ? 0 : (int)(G.ambient & 0xff), off + n);
	h = (struct ahdr *)(base + off - sizeof(*h));
	h->size = n;
	h->magic = AMAGIC ^ off;
	G.live += n;
	return base + off;
}
void *sim_malloc(size_t n) { return refuse_alloc() ? NULL : al(n, 16, 0); }
void *
sim_calloc(size_t a, size_t b)
{
	if (refuse_alloc() || (b && a > SIZE_MAX / b))
		return NULL;
	return al(a * b, 16, 1);
}
void
sim_free(void *p)
{
	struct ahdr *h = (struct ahdr *)p - 1;
	ext_other();
	if (!p)
		return;
	if ((h->magic & ~0xffffull) != AMAGIC) {
		free(p);   /* from the C library itself */
		return;
	}
	G.live -= h->size;
	free((char *)p - (h->magic ^ AMAGIC));
}
void *
sim_realloc(void *p, size_t n)
{
	struct ahdr *h = (struct ahdr *)p - 1;
	void *q;
	if (refuse_alloc())
		return NULL;
	if (p && (h->magic & ~0xffffull) != AMAGIC)
		return realloc(p, n);
	if (!(q = al(n, 16, 0)))
		return NULL;
	if (p) {
		memcpy(q, p, h->size < n ? h->size : n);
		G.live -= h->size;
		free((char *)p - (h->magic ^ AMAGIC));
	}
	return q;
}
void *
sim_reallocarray(void *p, size_t a, size_t b)
{
	if (b && a > SIZE_MAX / b) {
		errno = ENOMEM;
		return NULL;
	}
	return sim_realloc(p, a * b);
}
void *sim_memalign(size_t a, size_t n) { return refuse_alloc() ? NULL : al(n, a, 0); }
void *sim_valloc(size_t n) { return refuse_alloc() ? NULL : al(n, 4096, 0); }
void *sim_aligned_alloc(size_t a, size_t n) { return refuse_alloc() ? NULL : al(n, a, 0); }
int
sim_posix_memalign(void **p, size_t a, size_t n)
{
	void *q;
	if (refuse_alloc() || !(q = al(n, a, 0)))
		return ENOMEM;
	*p = q;
	return 0;
}
char *
sim_strdup(const char *s)
{
	char *p = sim_malloc(strlen(s) + 1);
	return p ? strcpy(p, s) : NULL;
}
char *
sim_strndup(const char *s, size_t n)
{
	size_t k = strnlen(s, n);
	char *p = sim_malloc(k + 1);
	if (p) {
		memcpy(p, s, k);
		p[k] = 0;
	}
	return p;
}
int
sim_vasprintf(char **r, const char *f, va_list a)
{
	va_list b;
	int n;
	va_copy(b, a);
	n = vsnprintf(NULL, 0, f, b);
	va_end(b);
	if (n < 0 || !(*r = sim_malloc(n + 1)))
		return -1;
	return vsnprintf(*r, n + 1, f, a);
}
int
sim_asprintf(char **r, const char *f, ...)
{
	va_list a;
	int n;
	va_start(a, f);
	n = sim_vasprintf(r, f, a);
	va_end(a);
	return n;
}
static int
refuse_io(void)
{
	ext_other();
	if (self && self->in_lib && G.p && G.p->allocfail == 1) {
		S->io_refused++;
		errno = EMFILE;
		return 1;
	}
	return 0;
}
void *
sim_mmap(void *a, size_t n, int pr, int fl, int fd, off_t o)
{
	void *p;
	if (refuse_alloc())
		return MAP_FAILED;
	p = mmap(a, n, pr, fl, fd, o);
	if (p != MAP_FAILED)
		G.live += n;
	return p;
}
int
sim_munmap(void *a, size_t n)
{
	ext_other();
	G.live -= n;
	return munmap(a, n);
}
FILE *sim_fopen(const char *f, const char *m) { return refuse_io() ? NULL : fopen(f, m); }
int
sim_open(const char *f, int fl, ...)
{
	va_list ap;
	int mode;
	va_start(ap, fl);
	mode = va_arg(ap, int);
	va_end(ap);
	return refuse_io() ? -1 : open(f, fl, mode);
}

#define IO(R, fail, nm, args, call) R sim_##nm args { return refuse_io() ? (R)(fail) : (R)nm call; }
IO(int, -1, creat, (const char *f, mode_t m), (f, m))
IO(int, -1, openat, (int d, const char *f, int fl, mode_t m), (d, f, fl, m))
IO(int, -1, pipe, (int *p), (p))
IO(int, -1, pipe2, (int *p, int fl), (p, fl))
IO(int, -1, dup, (int f), (f))
IO(int, -1, socket, (int a, int b, int c), (a, b, c))
IO(int, -1, memfd_create, (const char *n, unsigned fl), (n, fl))
IO(int, -1, eventfd, (unsigned n, int fl), (n, fl))
IO(FILE *, NULL, fdopen, (int f, const char *m), (f, m))
IO(FILE *, NULL, tmpfile, (void), ())
IO(FILE *, NULL, open_memstream, (char **p, size_t *n), (p, n))
IO(FILE *, NULL, fmemopen, (void *p, size_t n, const char *m), (p, n, m))
IO(FILE *, NULL, popen, (const char *c, const char *m), (c, m))
IO(DIR *, NULL, opendir, (const char *n), (n))
IO(locale_t, 0, newlocale, (int m, const char *n, locale_t b), (m, n, b))
IO(locale_t, 0, duplocale, (locale_t l), (l))
static int nkeys;
/* a thread of the library's own: nothing the simulator could order */
int
sim_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x)
{
	int r;
	if (refuse_io())
		return EAGAIN;
	if (!(r = pthread_create(t, a, f, x)))
		nkeys++;
	return r;
}
int
sim_pthread_join(pthread_t t, void **x)
{
	int r;
	ext_other();
	if (!(r = pthread_join(t, x)))
		nkeys--;
	return r;
}
int
sim_thrd_create(thrd_t *t, thrd_start_t f, void *x)
{
	int r;
	if (refuse_io())
		return thrd_nomem;
	if ((r = thrd_create(t, f, x)) == thrd_success)
		nkeys++;
	return r;
}
int
sim_thrd_join(thrd_t t, int *x)
{
	int r;
	ext_other();
	if ((r = thrd_join(t, x)) == thrd_success)
		nkeys--;
	return r;
}
int
sim_pthread_key_create(pthread_key_t *k, void (*f)(void *))
{
	int r;
	if (refuse_io())
		return EAGAIN;
	if (!(r = pthread_key_create(k, f))) {
		nkeys++;
		if (*k < 1024) {
			keys[*k].k = *k;
			keys[*k].f = f;
			keys[*k].used = 1;
		}
	}
	return r;
}
int
sim_pthread_key_delete(pthread_key_t k)
{
	int r;
	ext_other();
	if (!(r = pthread_key_delete(k))) {
		nkeys--;
		if (k < 1024)
			keys[k].used = 0;
	}
	return r;
}
int sim_tss_create(tss_t *k, tss_dtor_t f) { return sim_pthread_key_create(k, f) ? thrd_error : thrd_success; }
void sim_tss_delete(tss_t k) { sim_pthread_key_delete(k); }
/* handlers for the end of the process */
static int
add_exit(void (*f)(void *), void *a)
{
	if (refuse_io() || nexits == 4096)
		return -1;
	exits[nexits].f = f;
	exits[nexits].a = a;
	nexits++;
	nkeys++;
	return 0;
}
int sim_atexit(void (*f)(void)) { return add_exit((void (*)(void *))f, NULL); }
int sim___cxa_atexit(void (*f)(void *), void *a, void *d) { (void)d; return add_exit(f, a); }
int sim_on_exit(void (*f)(int, void *), void *a) { (void)f; (void)a; return refuse_io() ? -1 : (nkeys++, 0); }

/* clock, random numbers, environment: virtual */
static uint64_t vnow(void) { ext_other(); return G.ambient % 2000000000ull * 1000000000ull + G.clock * 1000; }
time_t
sim_time(time_t *t)
{
	time_t v = (time_t)(vnow() / 1000000000ull);
	if (t)
		*t = v;
	return v;
}
clock_t sim_clock(void) { return (clock_t)(vnow() / 1000); }
int
sim_clock_gettime(clockid_t c, struct timespec *ts)
{
	uint64_t v = vnow();
	(void)c;
	ts->tv_sec = v / 1000000000ull;
	ts->tv_nsec = v % 1000000000ull;
	return 0;
}
int sim_timespec_get(struct timespec *ts, int b) { sim_clock_gettime(0, ts); return b; }
int
sim_gettimeofday(struct timeval *tv, void *z)
{
	uint64_t v = vnow();
	(void)z;
	tv->tv_sec = v / 1000000000ull;
	tv->tv_usec = v / 1000 % 1000000;
	return 0;
}
static uint64_t
vrand(void)
{
	rng r;
	ext_other();
	r.s = G.randstate ^ G.ambient;
	G.randstate = rnd(&r);
	return G.randstate >> 33;
}
int sim_rand(void) { return (int)vrand(); }
long sim_random(void) { return (long)vrand(); }
int sim_rand_r(unsigned *s) { ext_other(); return rand_r(s); }
double sim_drand48(void) { return (double)(vrand() & 0xffff) / 65536.0; }
void sim_srand(unsigned s) { ext_other(); G.randstate = s; }
void sim_srandom(unsigned s) { sim_srand(s); }
int sim_getpid(void) { ext_other(); return (int)(1000 + G.ambient % 30000 + G.nfork); }
int sim_getppid(void) { ext_other(); return (int)(G.nfork ? 999 + G.ambient % 30000 + G.nfork : 1 + G.ambient % 7); }
int sim_gettid(void) { ext_other(); return (int)(40000 + (self && !G.coop ? self->id : 0) + 100 * G.nfork); }
char *
sim_getenv(const char *n)
{
	static char *const v[] = { NULL, "", "1", "0", "C", "takum", "debug", "32" };
	uint64_t h = G.ambient;
	ext_other();
	for (; *n; n++)
		h = mix(h, (unsigned char)*n);
	return v[h & 7];
}
/* sleeping takes virtual time only */
int sim_usleep(unsigned us) { ext_other(); G.clock += us; return 0; }
unsigned sim_sleep(unsigned s) { ext_other(); G.clock += 1000000ull * s; return 0; }
int
sim_nanosleep(const struct timespec *a, struct timespec *b)
{
	(void)b;
	ext_other();
	G.clock += 1000000ull * a->tv_sec + a->tv_nsec / 1000;
	return 0;
}
static void
sync_pass(thr_t *T)
{
	int to = next_rr(T->id);
	if (to >= 0)
		switch_to(T, to);
}
int
sim_sched_yield(void)
{
	ext_other();
	if (self && self->in_lib && !G.sweep)
		sync_pass(self);
	return 0;
}

/* locks: owned by the simulator so that waiting is a scheduling decision */
static struct { void *a; int held, owner, count, readers; } locks[256];
static int
lock_slot(void *a)
{
	int i;
	for (i = 0; i < 255 && locks[i].a; i++)
		if (locks[i].a == a)
			return i;
	locks[i].a = a;
	return i;
}
static void
blocked(thr_t *T)
{
	int to, i;
	if (G.sweep)
		finish(S_DEADLOCK);
	T->blocked = 1;
	to = next_rr(T->id);
	if (to < 0) {
		for (i = 0; i < G.p->nthreads; i++)
			thr[i].blocked = 0;
		finish(S_DEADLOCK);
	}
	switch_to(T, to);
}
static void
unblock_all(void)
{
	int i;
	for (i = 0; G.p && i < G.p->nthreads; i++)
		thr[i].blocked = 0;
}
static int
lock_op(void *a, int kind, int try)
{
	thr_t *T = self;
	int s, me = T && !G.coop ? T->id : 0;
	ext_other();
	s = lock_slot(a);
	for (;;) {
		if (kind == -1 && !locks[s].held) {
			locks[s].readers++;
			return 0;
		}
		if (kind != -1 && !locks[s].readers && (!locks[s].held || (kind == PTHREAD_MUTEX_RECURSIVE && locks[s].owner == me))) {
			locks[s].held = 1;
			locks[s].owner = me;
			locks[s].count++;
			return 0;
		}
		if (try)
			return EBUSY;
		if (kind == PTHREAD_MUTEX_ERRORCHECK && locks[s].owner == me)
			return EDEADLK;
		if (!T || !T->in_lib)
			finish(S_DEADLOCK);
		blocked(T);
	}
}
static int
unlock_op(void *a)
{
	int s = lock_slot(a);
	ext_other();
	if (locks[s].readers)
		locks[s].readers--;
	else if (locks[s].held && --locks[s].count == 0)
		locks[s].held = 0;
	unblock_all();
	return 0;
}
int sim_pthread_mutex_lock(pthread_mutex_t *m) { return lock_op(m, m->__data.__kind & 3, 0); }
int sim_pthread_mutex_trylock(pthread_mutex_t *m) { return lock_op(m, m->__data.__kind & 3, 1); }
int sim_pthread_mutex_unlock(pthread_mutex_t *m) { return unlock_op(m); }
int sim_pthread_spin_lock(void *m) { return lock_op(m, 0, 0); }
int sim_pthread_spin_trylock(void *m) { return lock_op(m, 0, 1); }
int sim_pthread_spin_unlock(void *m) { return unlock_op(m); }
int sim_pthread_rwlock_rdlock(void *m) { return lock_op(m, -1, 0); }
int sim_pthread_rwlock_tryrdlock(void *m) { return lock_op(m, -1, 1); }
int sim_pthread_rwlock_trywrlock(void *m) { return lock_op(m, 0, 1); }
int sim_pthread_rwlock_wrlock(void *m) { return lock_op(m, 0, 0); }
int sim_pthread_rwlock_unlock(void *m) { return unlock_op(m); }
int sim_mtx_lock(mtx_t *m) { return lock_op(m, ((pthread_mutex_t *)m)->__data.__kind & 3, 0) ? thrd_error : thrd_success; }
int sim_mtx_trylock(mtx_t *m) { return lock_op(m, ((pthread_mutex_t *)m)->__data.__kind & 3, 1) ? thrd_busy : thrd_success; }
/* waiting with a time limit is waiting: the limit is longer than any run */
int sim_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t) { (void)t; return sim_pthread_mutex_lock(m); }
int sim_mtx_timedlock(mtx_t *m, const struct timespec *t) { (void)t; return sim_mtx_lock(m); }
static int
sem_take(sem_t *s, int try)
{
	ext_other();
	for (;;) {
		if (!sem_trywait(s))
			return 0;
		if (try) {
			errno = EAGAIN;
			return -1;
		}
		if (!self || !self->in_lib)
			finish(S_DEADLOCK);
		blocked(self);
	}
}
int sim_sem_wait(sem_t *s) { return sem_take(s, 0); }
int sim_sem_trywait(sem_t *s) { return sem_take(s, 1); }
int
sim_sem_post(sem_t *s)
{
	int r;
	ext_other();
	r = sem_post(s);
	unblock_all();
	return r;
}
int sim_mtx_unlock(mtx_t *m) { return unlock_op(m); }
static struct { void *a; int st; } onces[64];
static int
once_op(void *a, void (*f)(void))
{
	int i;
	ext_other();
	for (i = 0; i < 63 && onces[i].a && onces[i].a != a; i++)
		;
	onces[i].a = a;
	while (onces[i].st == 1) {
		if (!self || !self->in_lib)
			finish(S_DEADLOCK);
		blocked(self);
	}
	if (onces[i].st == 0) {
		onces[i].st = 1;
		f();
		onces[i].st = 2;
		unblock_all();
		ext_other();
	}
	return 0;
}
/* in a forked child an initialisation that was under way begins again */
static void
forget_onces(void)
{
	int i;
	for (i = 0; i < 64; i++)
		if (onces[i].st == 1)
			onces[i].st = 0;
}
int sim_pthread_once(pthread_once_t *o, void (*f)(void)) { return once_op(o, f); }
void sim_call_once(once_flag *o, void (*f)(void)) { once_op(o, f); }
void sim_exit(int c) { (void)c; finish(S_EXIT); __builtin_unreachable(); }
void sim_abort(void) { finish(S_EXIT); __builtin_unreachable(); }

/* ---------------------------------------------------------------- one call */
static __attribute__((noinline)) void
poison_stack(uint64_t pat)
{
	volatile uint64_t buf[1024];
	unsigned i;
	for (i = 0; i < 1024; i++)
		buf[i] = pat;
	__asm__ volatile("" : : "r"(buf) : "memory");
}

struct invoke { void (*f)(const val *, val *); const val *a; val *r; };
static void invoke1(void *p) { struct invoke *i = p; i->f(i->a, i->r); }
static void
on_stack(void *top, void (*f)(void *), void *arg)
{
	register void *t __asm__("r12") = top;
	register void (*ff)(void *) __asm__("r13") = f;
	__asm__ volatile("mov %%rsp,%%rbx\n\tmov %%r12,%%rsp\n\tcall *%%r13\n\tmov %%rbx,%%rsp"
	                 : "+D"(arg), "+r"(t), "+r"(ff)
	                 :
	                 : "rbx", "rax", "rcx", "rdx", "rsi", "r8", "r9", "r10", "r11", "memory", "cc", "xmm0", "xmm1",
	                   "xmm2", "xmm3", "xmm4", "xmm5", "xmm6", "xmm7", "xmm8", "xmm9", "xmm10", "xmm11", "xmm12",
	                   "xmm13", "xmm14", "xmm15", "st", "st(1)", "st(2)", "st(3)", "st(4)", "st(5)", "st(6)", "st(7)");
}
static char *smallstk;

static void
canon(int ret, val *r, uint64_t *w)
{
	w[0] = w[1] = 0;
	switch (ret) {
	case K_F32:
		if (__builtin_isnan(r->f32))
			w[0] = 0x7fc00000;
		else
			memcpy(w, &r->f32, 4);
		break;
	case K_F64:
		if (__builtin_isnan(r->f64))
			w[0] = 0x7ff8000000000000ull;
		else
			memcpy(w, &r->f64, 8);
		break;
	case K_F80:
		if (__builtin_isnan(r->f80))
			w[1] = 0x7fff;
		else
			memcpy(w, &r->f80, 10);
		break;
	default:
		w[0] = (uint64_t)r->i;
	}
}

static __attribute__((noinline)) void
do_call(thr_t *T, const call_t *c, res_t *r, int nested)
{
	const apifn *f = &api[c->fn];
	plan_t *p = G.p;
	val a[3], out;
	unsigned mx0, cw0, mx1, cw1;
	const int depth = T->depth;
	/* where the frames of the call lie is ambient state as well */
	volatile char *pad = __builtin_alloca(16 + 16 * (c->noise >> 3));
	pad[0] = 0;
	memcpy(a, c->a, sizeof(a));
	memset(&out, 0, sizeof(out));
	r->st = RS_NONE;
	r->ctl = 0;
	r->trap = 0;
	if (c->noise & 4)
		G.ambient = mix(G.ambient, c->noise), G.clock += 12345;
	if (!nested) {
		T->y = G.p->mode == M_C14 ? CALL_STEP : 0;
		T->steps = 0;
	}
	T->maxstk = 0;
	T->stk0 = (uintptr_t)pad;
	if (!G.sweep)
		poison_stack(p->poison);
	env_enter(c->env, c->noise);
	errno = (c->noise & 2) ? ((c->noise & 1) ? ERANGE : EDOM) : 0;
	mx0 = get_mxcsr();
	cw0 = get_cw();
	T->trapped = 0;
	if (setjmp(T->jb[depth]) == 0) {
		T->in_lib = 1;
		if (smallstk && !nested) {
			struct invoke iv = { f->call[p->variant], a, &out };
			char *top = smallstk + SMALLSTACK - 16 * (c->noise >> 3);
			T->stk0 = (uintptr_t)top;
			on_stack(top, invoke1, &iv);
		} else
			f->call[p->variant](a, &out);
		T->in_lib = nested;
		r->st = RS_OK;
		mx1 = get_mxcsr();
		cw1 = get_cw();
		if (((mx0 ^ mx1) & (T->trapped ? 0xe040 : 0xffc0)) || ((cw0 ^ cw1) & (T->trapped ? 0x0f00 : 0x0f3f)))
			r->ctl = 1;
		r->trap = T->trapped != 0;
		if (T->trapped)
			S->traps++;
		/* a result in an x87 register would have been popped already */
		env_default();
		canon(f->ret, &out, r->w);
	} else {
		T->in_lib = nested;
		T->depth = depth;
		env_default();
		r->st = RS_ABANDONED;
	}
	r->stk = T->maxstk;
	if (T->maxstk > S->maxstk)
		S->maxstk = T->maxstk;
	if (!nested) {
		r->steps = T->steps;
		if (T->steps > S->maxsteps)
			S->maxsteps = T->steps;
	}
	G.h = mix(G.h, r->st);
	G.h = mix(mix(G.h, r->w[0]), r->w[1]);
}

/* what the library holds by itself and what the C library holds for it */
static uint64_t
held_bytes(void)
{
	return G.p->mode == M_C05 ? G.live + mallinfo2().uordblks : G.live;
}

static int
count_fds(void)
{
	/* descriptors, thread-specific keys and threads of its own */
	DIR *d = opendir("/proc/self/fd");
	int n = nkeys;
	if (d) {
		while (readdir(d))
			n++;
		closedir(d);
	}
	return n;
}

static void gen_arg(rng *r, int k, val *v);
static void near_call(rng *r, const call_t *o, int fn, call_t *c);

/*
 * A long history: the calls of the plan, then p->marathon calls, each one
 * of those again or a fresh one of the same functions. The result of each
 * repeated call must be what it was in the beginning; it ends at the
 * first that is not.
 */
static void
marathon(thr_t *T, plan_t *p)
{
	rng r = { p->mseed };
	uint32_t i, k, n = p->ncalls[T->id];
	call_t c;
	res_t x;
	int j;
	for (i = 0; i < p->marathon; i++) {
		uint64_t z = rnd(&r);
		k = (uint32_t)(z >> 32) % n;
		c = p->calls[T->id][k];
		S->cur_call = k;
		S->cur_idx = i;
		if (z % 100 < (unsigned)p->fresh) {
			if (z & 0x10000)
				near_call(&r, &p->calls[T->id][k], c.fn, &c);
			else
				for (j = 0; j < api[c.fn].narg; j++)
					gen_arg(&r, api[c.fn].arg[j], &c.a[j]);
			do_call(T, &c, &x, 0);
		} else {
			res_t *b = &S->res[T->base + k];
			c.noise = z >> 24 & 0xff;
			do_call(T, &c, &x, 0);
			if (x.st == RS_OK && b->st == RS_OK && (x.w[0] != b->w[0] || x.w[1] != b->w[1])) {
				*b = x;
				finish(S_DONE);
			}
		}
		if ((i & 0xfff) == 0xfff)
			S->mcalls = i + 1;
		if ((uint64_t)(i + 1) * 4 % p->marathon < 4 && S->mq < 4) {
			S->live_bytes[S->mq] = held_bytes();
			S->fds[S->mq++] = count_fds();
		}
	}
	S->mcalls = i;
}

static void *
thread_main(void *arg)
{
	thr_t *T = arg;
	plan_t *p = G.p;
	char mark;
	int to, i;
	sigset_t m0, m1;
	T->shi = (uintptr_t)&mark + 64;
	T->slo = T->shi - STACKSZ;
	if (!G.coop)
		park(&T->tok);
	self = T;
	sigemptyset(&m0);
	sigaddset(&m0, SIGUSR1);
	if (p->mode == M_C06 && (p->ambient & 1))
		pthread_sigmask(SIG_BLOCK, &m0, NULL);
	if (p->mode == M_C06)
		pthread_sigmask(SIG_BLOCK, NULL, &m0);
	for (T->call = 0; T->call < (uint32_t)p->ncalls[T->id]; T->call++) {
		S->cur_call = T->call;
		if (p->mode == M_C14)
			phases(T);
		do_call(T, &p->calls[T->id][T->call], &S->res[T->base + T->call], 0);
		if (p->mode == M_C06) {
			pthread_sigmask(SIG_BLOCK, NULL, &m1);
			for (i = 1; i < 64; i++)
				if (sigismember(&m0, i) != sigismember(&m1, i))
					S->res[T->base + T->call].ctl |= 2;
		}
	}
	if (p->mode == M_C14)
		phases(T);
	if (p->marathon && T->id == 0)
		marathon(T, p);
	self = NULL;
	T->state = 1;
	T->y = 0;
	/* who runs next is a scheduling decision, too */
	to = -1;
	if (G.online) {
		to = pick_other(T->id);
		if (to >= 0 && to != next_rr(T->id))
			record(T, EV_END, to, NULL, 0);
	} else {
		for (i = G.evstart[T->id]; i < G.evstart[T->id + 1]; i++)
			if (G.sorted[i].kind == EV_END && runnable(G.sorted[i].arg)) {
				to = G.sorted[i].arg;
				record(T, EV_END, to, NULL, 0);
			}
		if (to < 0)
			to = next_rr(T->id);
	}
	if (to < 0) {
		for (i = 0; i < p->nthreads; i++)
			if (thr[i].state == 0)
				finish(S_DEADLOCK);
		if (G.nfork || G.coop)
			finish(S_DONE);
		unpark(&main_tok);
	} else {
		S->cur_tid = to;
		if (G.coop) {
			self = &thr[to];
			setcontext(&thr[to].uc);
		}
		unpark(&thr[to].tok);
	}
	return NULL;
}

static void coroutine(int i) { thread_main(&thr[i]); }

static int
cmp_ev(const void *a, const void *b)
{
	const event_t *x = a, *y = b;
	if (x->tid != y->tid)
		return x->tid < y->tid ? -1 : 1;
	if ((x->kind == EV_END) != (y->kind == EV_END))
		return x->kind == EV_END ? 1 : -1;
	if (x->call != y->call)
		return x->call < y->call ? -1 : 1;
	if (x->y != y->y)
		return x->y < y->y ? -1 : 1;
	return (int)x->kind - y->kind;
}


extern char **environ;
static uint64_t
environ_hash(void)
{
	uint64_t h = 1;
	char **e, *c;
	for (e = environ; e && *e; e++)
		for (c = *e; *c; c++)
			h = mix(h, (unsigned char)*c);
	return h;
}
static uint64_t
sig_hash(void)
{
	uint64_t h = 1;
	struct sigaction sa;
	int i;
	for (i = 1; i < 32; i++)
		if (sigaction(i, NULL, &sa) == 0)
			h = mix(mix(h, (uintptr_t)sa.sa_handler), sa.sa_flags);
	return h;
}

/* run one plan in this (already forked) process; never returns */
static void
child_run(plan_t *p)
{
	int i, rep;
	uint32_t base = 0;
	char loc[256];
	uint64_t eh = 0, sgh = 0;
	G.p = p;
	G.h = 0xcbf29ce484222325ull;
	G.ih = 1;
	G.ambient = p->ambient;
	G.clock = 0;
	G.coop = p->mode == M_C15;
	G.nfork = 0;
	G.sorted = calloc(p->nev + 1, sizeof(event_t));
	memcpy(G.sorted, p->ev, p->nev * sizeof(event_t));
	qsort(G.sorted, p->nev, sizeof(event_t), cmp_ev);
	for (i = 0; i < p->nthreads; i++) {
		int j;
		thr_t *T = &thr[i];
		memset(T, 0, sizeof(*T));
		T->id = i;
		T->base = base;
		base += p->ncalls[i];
		for (j = 0; j < p->nev && G.sorted[j].tid < i; j++)
			;
		G.evstart[i] = T->evi = j;
	}
	G.evstart[p->nthreads] = p->nev;
	if (p->smallstack) {
		char *m = mmap(NULL, SMALLSTACK + 65536, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		mprotect(m + 65536, SMALLSTACK, PROT_READ | PROT_WRITE);
		smallstk = m + 65536;
	}
	if (p->mode == M_C13) {
		traps[3] = 0x3f;
		catch_fpe();
	}
	if (p->mode == M_C06) {
		catch_fpe();
		if (p->ambient & 2)
			setlocale(LC_ALL, "C.UTF-8");
		snprintf(loc, sizeof(loc), "%s", setlocale(LC_ALL, NULL));
		eh = environ_hash();
		sgh = sig_hash();
	}
	if (G.late_ctors) {
		/* nothing has been constructed yet; when it is not by plan, it is now */
		for (i = 0; i < p->nev && p->ev[i].kind != EV_CTORS; i++)
			;
		if (i == p->nev)
			run_ctors();
	}
	if (G.coop) {
		for (i = 0; i < p->nthreads; i++) {
			thr_t *T = &thr[i];
			char *m = mmap(NULL, STACKSZ + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
			mprotect(m, 4096, PROT_NONE);
			getcontext(&T->uc);
			T->uc.uc_stack.ss_sp = m + 4096;
			T->uc.uc_stack.ss_size = STACKSZ;
			T->uc.uc_link = NULL;
			makecontext(&T->uc, (void (*)(void))coroutine, 1, i);
		}
		S->cur_tid = p->start;
		setcontext(&thr[p->start].uc);
	}
	for (rep = 0; rep < (p->repeat ? p->repeat : 1); rep++) {
		for (i = 0; i < p->nthreads; i++) {
			pthread_attr_t at;
			thr_t *T = &thr[i];
			T->state = 0;
			T->evi = G.evstart[i];
			pthread_attr_init(&at);
			pthread_attr_setstacksize(&at, STACKSZ);
			if (pthread_create(&T->th, &at, thread_main, T))
				_exit(4);
		}
		S->cur_tid = p->start;
		unpark(&thr[p->start].tok);
		park(&main_tok);
		for (i = 0; i < p->nthreads; i++)
			if (thr[i].state == 2)
				finish(S_DONE);
		for (i = 0; i < p->nthreads; i++)
			pthread_join(thr[i].th, NULL);
		if (rep < 4 && !p->marathon) {
			S->live_bytes[rep] = held_bytes();
			S->fds[rep] = count_fds();
		}
	}
	if (p->mode == M_C06) {
		S->locale_changed = strcmp(loc, setlocale(LC_ALL, NULL)) != 0;
		S->environ_changed = eh != environ_hash();
		S->sig_changed = sgh != sig_hash();
	}
	finish(S_DONE);
}

/* ---------------------------------------------------------------- parent side */
static int wstat;
static void
run_plan(plan_t *p, int online)
{
	pid_t pid;
	size_t n = p->calls_total;
	memset(S, 0, offsetof(shm_t, nest));
	S->nev = 0;
	S->nnest = 0;
	if (n > MAXRES)
		abort();
	memset(S->res, 0, n * sizeof(res_t));
	G.online = online;
	pid = fork();
	if (pid == 0) {
		alarm(p->marathon ? 300 : 60);
		child_run(p);
	}
	while (waitpid(pid, &wstat, 0) < 0 && errno == EINTR)
		;
}
static int crashed(void) { return WIFSIGNALED(wstat); }

/* every distinct call, alone in a process that has never used the library */
typedef struct { call_t c; res_t r; int status; int crashed; uint32_t steps; uint8_t used; } base_t;
static base_t *bt;
static uint32_t btcap, btn;
static uint64_t nbase;

static uint64_t
call_hash(const call_t *c)
{
	uint64_t h = mix(c->fn, c->env);
	int i, n = api[c->fn].narg;
	for (i = 0; i < n; i++)
		h = mix(mix(h, c->a[i].w[0]), c->a[i].w[1]);
	return h;
}
static int
same_call(const call_t *x, const call_t *y)
{
	int i;
	if (x->fn != y->fn || (x->env) != (y->env))
		return 0;
	for (i = 0; i < api[x->fn].narg; i++)
		if (x->a[i].w[0] != y->a[i].w[0] || x->a[i].w[1] != y->a[i].w[1])
			return 0;
	return 1;
}

static shm_t *SB; /* separate shared block for baselines */

static base_t *
baseline(const call_t *c)
{
	uint64_t i;
	base_t *b;
	static plan_t *bp;
	shm_t *save;
	int savew;
	if (btn * 2 >= btcap) {
		base_t *o = bt;
		uint32_t oc = btcap, k;
		btcap = btcap ? btcap * 2 : 4096;
		bt = calloc(btcap, sizeof(*bt));
		for (k = 0; k < oc; k++)
			if (o[k].used) {
				i = call_hash(&o[k].c) & (btcap - 1);
				while (bt[i].used)
					i = (i + 1) & (btcap - 1);
				bt[i] = o[k];
			}
		free(o);
	}
	i = call_hash(c) & (btcap - 1);
	while (bt[i].used) {
		if (same_call(&bt[i].c, c))
			return &bt[i];
		i = (i + 1) & (btcap - 1);
	}
	b = &bt[i];
	b->used = 1;
	btn++;
	b->c = *c;
	b->c.noise = 0;
	if (!bp)
		bp = calloc(1, sizeof(*bp));
	bp->mode = M_C02;
	bp->nthreads = 1;
	bp->ncalls[0] = 1;
	bp->calls_total = 1;
	bp->calls[0] = &b->c;
	save = S;
	savew = wstat;
	S = SB;
	{
		/* no thread is needed: the process itself is pristine */
		pid_t pid;
		memset(S, 0, offsetof(shm_t, nest));
		memset(&S->res[0], 0, sizeof(res_t));
		pid = fork();
		if (pid == 0) {
			char mark;
			alarm(60);
			G.p = bp;
			G.online = 0;
			G.sorted = NULL;
			G.h = 0;
			G.ambient = 0;
			memset(G.evstart, 0, sizeof(G.evstart));
			self = &thr[0];
			memset(self, 0, sizeof(*self));
			self->shi = (uintptr_t)&mark + 64;
			self->slo = self->shi - STACKSZ;
			if (G.late_ctors) {
				thr_t *t = self;
				self = NULL;
				run_ctors();
				self = t;
			}
			do_call(self, &b->c, &S->res[0], 0);
			self = NULL;
			finish(S_DONE);
		}
		while (waitpid(pid, &wstat, 0) < 0 && errno == EINTR)
			;
		b->crashed = crashed();
		b->status = S->status;
		b->r = S->res[0];
		b->steps = S->res[0].steps;
		nbase++;
	}
	S = save;
	wstat = savew;
	return b;
}

/* ---------------------------------------------------------------- oracle */
typedef struct {
	char kind[24];
	char text[512];
	int tid, call;
} viol_t;

static const char *
fmt_call(const call_t *c, char *buf, size_t n)
{
	int i, k;
	k = snprintf(buf, n, "%s(", api[c->fn].name);
	for (i = 0; i < api[c->fn].narg; i++) {
		int ak = api[c->fn].arg[i];
		if (ak == K_F32)
			k += snprintf(buf + k, n - k, "%s%a", i ? ", " : "", c->a[i].f32);
		else if (ak == K_F64)
			k += snprintf(buf + k, n - k, "%s%a", i ? ", " : "", c->a[i].f64);
		else if (ak == K_F80)
			k += snprintf(buf + k, n - k, "%s%La", i ? ", " : "", c->a[i].f80);
		else if (ak == K_EXP)
			k += snprintf(buf + k, n - k, "%s%lld", i ? ", " : "", (long long)c->a[i].i);
		else {
			static const int wd[] = { 8, 16, 32, 64, 8, 16, 32, 64 };
			uint64_t m = wd[ak] == 64 ? ~0ull : (1ull << wd[ak]) - 1;
			k += snprintf(buf + k, n - k, "%s0x%llx", i ? ", " : "", (unsigned long long)((uint64_t)c->a[i].i & m));
		}
	}
	k += snprintf(buf + k, n - k, ")");
	if (c->env)
		snprintf(buf + k, n - k, " env=%d", c->env);
	return buf;
}

/*
 * Functions that work on the encoding and do not calculate in floating
 * point: sign, absolute value, precision, the reciprocal of logarithmic
 * takums, widening and narrowing within a family
 */
static int
encoding_fn(int fn)
{
	static signed char *known;
	const char *n = api[fn].name, *o;
	int lin, w, w2, k = 0;
	if (!known)
		known = calloc(napi, 1);
	if (known[fn])
		return known[fn] > 0;
	lin = !strncmp(n, "takum_linear", 12);
	if (sscanf(n, lin ? "takum_linear%d_%n" : "takum%d_%n", &w, &k) == 1 && k) {
		o = n + k;
		known[fn] = !strcmp(o, "sign") || !strcmp(o, "absolute") || !strcmp(o, "precision") || (!lin && !strcmp(o, "inversion"));
		k = 0;
		if (sscanf(o, lin ? "from_takum_linear%d%n" : "from_takum%d%n", &w2, &k) == 1 && k && !o[k])
			known[fn] = 1;
	}
	if (!known[fn])
		known[fn] = -1;
	return known[fn] > 0;
}
static int
nar_arg(const call_t *c)
{
	int i, k;
	const char *n = strchr(api[c->fn].name, '_');
	/* power: one to the power of NaR is one, and a base may round to one */
	if (n && (!strcmp(n, "_power") || (!strncmp(n, "_linear", 7) && (n = strchr(n + 1, '_')) && !strcmp(n, "_power"))))
		return 0;
	for (i = 0; i < api[c->fn].narg; i++) {
		k = api[c->fn].arg[i];
		if (k == K_F32 ? __builtin_isnan(c->a[i].f32) : k == K_F64 ? __builtin_isnan(c->a[i].f64) : k == K_F80 ? __builtin_isnan(c->a[i].f80) :
		    k <= K_LIN64 && c->a[i].i == (int64_t)(~0ull << ((8 << (k & 3)) - 1)))
			return 1;
	}
	return 0;
}
static int unsettled(const call_t *c) { return encoding_fn(c->fn) || nar_arg(c); }

/* one result under some settings against the one under the default settings */
static int
check_settings(const call_t *c, const res_t *r, const char *where, viol_t *v)
{
	call_t d = *c;
	base_t *b;
	char b1[200];
	/* an x87 comparison that traps leaves no answer for a handler to go on with */
	if (r->st != RS_OK || !unsettled(c) || (r->trap && !encoding_fn(c->fn)))
		return 0;
	d.env = d.noise = 0;
	b = baseline(&d);
	if (b->crashed || b->status != S_DONE)
		return 0;
	if (r->w[0] != b->r.w[0] || r->w[1] != b->r.w[1]) {
		snprintf(v->kind, sizeof(v->kind), "settings");
		snprintf(v->text, sizeof(v->text), "%s: %s returned %llx:%llx, under default settings it returns %llx:%llx", where,
		         fmt_call(c, b1, sizeof(b1)), (unsigned long long)r->w[1], (unsigned long long)r->w[0],
		         (unsigned long long)b->r.w[1], (unsigned long long)b->r.w[0]);
		return 1;
	}
	if (r->trap && encoding_fn(c->fn)) {
		snprintf(v->kind, sizeof(v->kind), "trap");
		snprintf(v->text, sizeof(v->text), "%s: %s raised a floating-point exception, which kills a caller that traps them", where, fmt_call(c, b1, sizeof(b1)));
		return 1;
	}
	return 0;
}

static int
check_results(plan_t *p, viol_t *v)
{
	int t, i;
	uint32_t base = 0;
	char b1[200];
	for (t = 0; t < p->nthreads; t++) {
		for (i = 0; i < p->ncalls[t]; i++) {
			res_t *r = &S->res[base + i];
			base_t *b;
			if (r->st != RS_OK)
				continue;
			b = baseline(&p->calls[t][i]);
			if (b->crashed || b->status != S_DONE)
				continue;
			if (r->w[0] != b->r.w[0] || r->w[1] != b->r.w[1]) {
				snprintf(v->kind, sizeof(v->kind), "result");
				v->tid = t;
				v->call = i;
				snprintf(v->text, sizeof(v->text), "thread %d call %d: %s returned %llx:%llx, alone it returns %llx:%llx",
				         t, i, fmt_call(&p->calls[t][i], b1, sizeof(b1)), (unsigned long long)r->w[1],
				         (unsigned long long)r->w[0], (unsigned long long)b->r.w[1], (unsigned long long)b->r.w[0]);
				return 1;
			}
		}
		base += p->ncalls[t];
	}
	for (i = 0; i < S->nnest; i++) {
		res_t *r = &S->nest[i];
		base_t *b;
		if (r->st != RS_OK)
			continue;
		b = baseline(&S->nestcall[i]);
		if (b->crashed || b->status != S_DONE)
			continue;
		if (r->w[0] != b->r.w[0] || r->w[1] != b->r.w[1]) {
			snprintf(v->kind, sizeof(v->kind), "result");
			v->tid = -1;
			v->call = i;
			snprintf(v->text, sizeof(v->text), "nested call %s returned %llx:%llx, alone it returns %llx:%llx",
			         fmt_call(&S->nestcall[i], b1, sizeof(b1)), (unsigned long long)r->w[1], (unsigned long long)r->w[0],
			         (unsigned long long)b->r.w[1], (unsigned long long)b->r.w[0]);
			return 1;
		}
	}
	return 0;
}

/* does some call of the plan fail in isolation as well? */
static int
isolated_bad(plan_t *p)
{
	int t, i;
	for (t = 0; t < p->nthreads; t++)
		for (i = 0; i < p->ncalls[t]; i++) {
			base_t *b = baseline(&p->calls[t][i]);
			if (b->crashed || b->status != S_DONE)
				return 1;
		}
	for (i = 0; i < S->nnest; i++) {
		base_t *b = baseline(&S->nestcall[i]);
		if (b->crashed || b->status != S_DONE)
			return 1;
	}
	return 0;
}

static int
check_death(plan_t *p, viol_t *v)
{
	char b1[200];
	const call_t *c = NULL;
	int st = S->status, cr = crashed();
	if (!cr && st == S_DONE)
		return 0;
	if (S->cur_tid < p->nthreads && thr[0].id == 0 && S->cur_call < (uint32_t)p->ncalls[S->cur_tid])
		c = &p->calls[S->cur_tid][S->cur_call];
	snprintf(v->kind, sizeof(v->kind), "%s", cr ? "crash" : st == S_STUCK ? "stuck" : st == S_DEADLOCK ? "deadlock" : "exit");
	v->tid = S->cur_tid;
	v->call = 0;
	snprintf(v->text, sizeof(v->text), "%s in thread %d near %s",
	         cr ? strsignal(WTERMSIG(wstat)) : st == S_STUCK ? "step bound exceeded" : st == S_DEADLOCK ? "waits for ever for another call" : "process exit",
	         S->cur_tid, c ? fmt_call(c, b1, sizeof(b1)) : "?");
	return 1;
}

/* judge the execution that run_plan has just made; 1: violated */
static int
judge(plan_t *p, viol_t *v)
{
	int t, i;
	uint32_t base = 0;
	char b1[200];
	memset(v, 0, sizeof(*v));
	switch (p->mode) {
	case M_C01:
	case M_C02:
	case M_C03:
	case M_C14:
	case M_C15:
		if (check_death(p, v))
			return !isolated_bad(p);
		return check_results(p, v);
	case M_C04:
		return check_death(p, v);
	case M_C05: {
		if (!crashed() && S->status == S_DONE)
			for (t = 0; t < p->nthreads; t++) {
				for (i = 0; i < p->ncalls[t]; i++)
					if (S->res[base + i].stk > STACKLIMIT) {
						snprintf(v->kind, sizeof(v->kind), "stack");
						snprintf(v->text, sizeof(v->text), "thread %d call %d: %s used %u bytes of stack", t, i,
						         fmt_call(&p->calls[t][i], b1, sizeof(b1)), S->res[base + i].stk);
						return 1;
					}
				base += p->ncalls[t];
			}
		base = 0;
		if (p->marathon) {
			if (check_death(p, v))
				return !isolated_bad(p);
			if (check_results(p, v))
				return 1;
			if (S->mq == 4 && S->live_bytes[1] < S->live_bytes[2] && S->live_bytes[2] < S->live_bytes[3] &&
			    2 * (S->live_bytes[3] - S->live_bytes[2]) >= S->live_bytes[2] - S->live_bytes[1]) {
				snprintf(v->kind, sizeof(v->kind), "leak");
				snprintf(v->text, sizeof(v->text), "memory held after 2, 3, 4 quarters of %u calls of %s and others: %llu, %llu, %llu bytes",
				         p->marathon, api[p->calls[0][0].fn].name, (unsigned long long)S->live_bytes[1], (unsigned long long)S->live_bytes[2],
				         (unsigned long long)S->live_bytes[3]);
				return 1;
			}
			if (S->mq == 4 && S->fds[1] < S->fds[2] && S->fds[2] < S->fds[3]) {
				snprintf(v->kind, sizeof(v->kind), "leak");
				snprintf(v->text, sizeof(v->text), "open descriptors, keys and threads after 2, 3, 4 quarters of %u calls: %d, %d, %d", p->marathon, S->fds[1], S->fds[2], S->fds[3]);
				return 1;
			}
			return 0;
		}
		/* the same history without refusals is the reference */
		static shm_t *ref;
		static plan_t *q;
		int w1, k, crf;
		size_t n;
		event_t *ev;
		(void)ev;
		if (!ref) {
			ref = malloc(sizeof(*ref));
			q = malloc(sizeof(*q));
		}
		memcpy(ref, S, offsetof(shm_t, nest));
		n = p->calls_total;
		memcpy(ref->res, S->res, n * sizeof(res_t));
		ref->nev = S->nev;
		memcpy(ref->ev, S->ev, S->nev * sizeof(event_t));
		w1 = wstat;
		memcpy(q, p, sizeof(*q));
		q->allocfail = 0;
		q->smallstack = 0;
		run_plan(q, 0);
		crf = crashed() || S->status != S_DONE;
		if (crf) {
			wstat = w1;
			return 0; /* not a matter of resources */
		}
		/* faulty execution against the reference */
		if (WIFSIGNALED(w1) || ref->status != S_DONE) {
			snprintf(v->kind, sizeof(v->kind), "%s", WIFSIGNALED(w1) ? "crash" : "stuck");
			snprintf(v->text, sizeof(v->text), "%s with %s near thread %d call %u: %s",
			         WIFSIGNALED(w1) ? strsignal(WTERMSIG(w1)) : "no return",
			         p->smallstack ? "a 16 KiB stack" : "refused allocations", ref->cur_tid, ref->cur_call,
			         fmt_call(&p->calls[ref->cur_tid][ref->cur_call < (uint32_t)p->ncalls[ref->cur_tid] ? ref->cur_call : 0], b1, sizeof(b1)));
			memcpy(S, ref, offsetof(shm_t, nest));
			return 1;
		}
		for (t = 0; t < p->nthreads; t++) {
			for (i = 0; i < p->ncalls[t]; i++) {
				res_t *a = &ref->res[base + i], *b = &S->res[base + i];
				if (a->st == RS_OK && b->st == RS_OK && (a->w[0] != b->w[0] || a->w[1] != b->w[1])) {
					snprintf(v->kind, sizeof(v->kind), "refusal");
					snprintf(v->text, sizeof(v->text), "thread %d call %d: %s returned %llx:%llx with resources refused, %llx:%llx otherwise",
					         t, i, fmt_call(&p->calls[t][i], b1, sizeof(b1)), (unsigned long long)a->w[1],
					         (unsigned long long)a->w[0], (unsigned long long)b->w[1], (unsigned long long)b->w[0]);
					memcpy(S, ref, offsetof(shm_t, nest));
					return 1;
				}
			}
			base += p->ncalls[t];
		}
		for (k = 0; k < 2; k++) {
			const shm_t *x = k ? S : ref;
			if (p->repeat >= 4 && x->live_bytes[1] < x->live_bytes[2] && x->live_bytes[2] < x->live_bytes[3] &&
			    x->live_bytes[3] - x->live_bytes[2] == x->live_bytes[2] - x->live_bytes[1]) {
				snprintf(v->kind, sizeof(v->kind), "leak");
				snprintf(v->text, sizeof(v->text), "memory held after repetitions 2, 3, 4 of the same calls: %llu, %llu, %llu bytes",
				         (unsigned long long)x->live_bytes[1], (unsigned long long)x->live_bytes[2], (unsigned long long)x->live_bytes[3]);
				memcpy(S, ref, offsetof(shm_t, nest));
				return 1;
			}
			if (p->repeat >= 4 && x->fds[1] < x->fds[2] && x->fds[2] < x->fds[3]) {
				snprintf(v->kind, sizeof(v->kind), "leak");
				snprintf(v->text, sizeof(v->text), "open descriptors, keys and threads after repetitions 2, 3, 4 of the same calls: %d, %d, %d", x->fds[1], x->fds[2], x->fds[3]);
				memcpy(S, ref, offsetof(shm_t, nest));
				return 1;
			}
		}
		memcpy(S, ref, offsetof(shm_t, nest));
		wstat = w1;
		return 0;
	}
	case M_C13:
		if (check_death(p, v)) {
			int cl = S->cur_call;
			call_t d;
			base_t *b;
			t = S->cur_tid;
			if (t >= p->nthreads || cl >= p->ncalls[t] || S->nnest || !unsettled(&p->calls[t][cl]))
				return 0;
			d = p->calls[t][cl];
			d.env = d.noise = 0;
			b = baseline(&d);
			return !b->crashed && b->status == S_DONE;
		}
		for (t = 0; t < p->nthreads; t++) {
			for (i = 0; i < p->ncalls[t]; i++) {
				snprintf(b1, sizeof(b1), "thread %d call %d", t, i);
				if (check_settings(&p->calls[t][i], &S->res[base + i], b1, v))
					return 1;
			}
			base += p->ncalls[t];
		}
		for (i = 0; i < S->nnest; i++)
			if (check_settings(&S->nestcall[i], &S->nest[i], "nested call", v))
				return 1;
		return 0;
	case M_C06:
		if (crashed() || S->status != S_DONE)
			return 0;
		for (t = 0; t < p->nthreads; t++) {
			for (i = 0; i < p->ncalls[t]; i++)
				if (S->res[base + i].st == RS_OK && S->res[base + i].ctl) {
					snprintf(v->kind, sizeof(v->kind), "control");
					snprintf(v->text, sizeof(v->text), "thread %d call %d: %s changed the thread's %s%s", t, i,
					         fmt_call(&p->calls[t][i], b1, sizeof(b1)), (S->res[base + i].ctl & 1) ? "floating-point control settings" : "",
					         (S->res[base + i].ctl & 2) ? " signal mask" : "");
					return 1;
				}
			base += p->ncalls[t];
		}
		for (i = 0; i < S->nnest; i++)
			if (S->nest[i].st == RS_OK && (S->nest[i].ctl & 1)) {
				snprintf(v->kind, sizeof(v->kind), "control");
				snprintf(v->text, sizeof(v->text), "nested %s changed the floating-point control settings", fmt_call(&S->nestcall[i], b1, sizeof(b1)));
				return 1;
			}
		if (S->locale_changed || S->sig_changed || S->environ_changed) {
			snprintf(v->kind, sizeof(v->kind), "control");
			snprintf(v->text, sizeof(v->text), "after all calls returned the process's %s differs from what it was",
			         S->locale_changed ? "locale" : S->sig_changed ? "signal disposition" : "environment");
			return 1;
		}
		return 0;
	}
	return 0;
}

/* ---------------------------------------------------------------- plan files */
static void
put_call(FILE *f, const call_t *c)
{
	int i;
	fprintf(f, "%s %u %u", api[c->fn].name, c->env, c->noise);
	for (i = 0; i < api[c->fn].narg; i++)
		fprintf(f, " %llx:%llx", (unsigned long long)c->a[i].w[1], (unsigned long long)c->a[i].w[0]);
}
static void
write_plan(FILE *f, const plan_t *p, const event_t *ev, int nev)
{
	int t, i;
	fprintf(f, "mode %s\nvariant %d\npoison %llx\nambient %llx\nstart %d\nsmallstack %d\nallocfail %d\nrepeat %d\nmarathon %u\nmseed %llu\nfresh %d\nthreads %d\n",
	        modename[p->mode], p->variant, (unsigned long long)p->poison, (unsigned long long)p->ambient, p->start,
	        p->smallstack, p->allocfail, p->repeat, p->marathon, (unsigned long long)p->mseed, p->fresh, p->nthreads);
	for (t = 0; t < p->nthreads; t++)
		for (i = 0; i < p->ncalls[t]; i++) {
			fprintf(f, "call %d ", t);
			put_call(f, &p->calls[t][i]);
			fputc('\n', f);
		}
	for (i = 0; i < nev; i++) {
		fprintf(f, "event %d %u %u %s %u", ev[i].tid, ev[i].call, ev[i].y, evname[ev[i].kind], ev[i].arg);
		if (ev[i].kind == EV_NEST) {
			fputc(' ', f);
			put_call(f, &ev[i].nest);
		}
		fputc('\n', f);
	}
}
static int
fn_by_name(const char *s)
{
	int i;
	for (i = 0; i < napi; i++)
		if (!strcmp(api[i].name, s))
			return i;
	return -1;
}
static int
get_call(char *s, call_t *c)
{
	char *t = strtok(s, " \n");
	int i;
	memset(c, 0, sizeof(*c));
	if (!t || (i = fn_by_name(t)) < 0)
		return -1;
	c->fn = i;
	t = strtok(NULL, " \n");
	c->env = t ? atoi(t) : 0;
	t = strtok(NULL, " \n");
	c->noise = t ? atoi(t) : 0;
	for (i = 0; i < api[c->fn].narg; i++) {
		unsigned long long hi, lo;
		t = strtok(NULL, " \n");
		if (!t || sscanf(t, "%llx:%llx", &hi, &lo) != 2)
			return -1;
		c->a[i].w[0] = lo;
		c->a[i].w[1] = hi;
	}
	return 0;
}
static plan_t *
read_plan(const char *fn)
{
	FILE *f = fopen(fn, "r");
	plan_t *p = calloc(1, sizeof(*p));
	static char line[1024];
	int cap[MAXT] = { 0 };
	if (!f)
		return NULL;
	while (fgets(line, sizeof(line), f)) {
		unsigned long long x;
		char k[32];
		int i, t, off;
		if (line[0] == '#' || sscanf(line, "%31s", k) != 1)
			continue;
		if (!strcmp(k, "mode")) {
			sscanf(line, "%*s %31s", k);
			for (i = 0; i < M_N; i++)
				if (!strcmp(modename[i], k))
					p->mode = i;
		} else if (!strcmp(k, "call")) {
			call_t c;
			sscanf(line, "call %d %n", &t, &off);
			if (t < 0 || t >= MAXT || get_call(line + off, &c) < 0)
				return NULL;
			if (p->ncalls[t] == cap[t]) {
				cap[t] = cap[t] ? 2 * cap[t] : 16;
				p->calls[t] = realloc(p->calls[t], cap[t] * sizeof(call_t));
			}
			p->calls[t][p->ncalls[t]++] = c;
			p->calls_total++;
		} else if (!strcmp(k, "event")) {
			event_t *e = &p->ev[p->nev];
			char en[16];
			unsigned tid, call, y, arg;
			if (p->nev >= MAXEV)
				continue;
			memset(e, 0, sizeof(*e));
			if (sscanf(line, "event %u %u %u %15s %u %n", &tid, &call, &y, en, &arg, &off) < 5)
				return NULL;
			e->tid = tid;
			e->call = call;
			e->y = y;
			e->arg = arg;
			for (i = 0; i < EV_N; i++)
				if (!strcmp(en, evname[i]))
					e->kind = i;
			if (e->kind == EV_NEST && get_call(line + off, &e->nest) < 0)
				return NULL;
			p->nev++;
		} else if (sscanf(line, "%*s %llx", &x) == 1 && (!strcmp(k, "poison") || !strcmp(k, "ambient"))) {
			if (k[0] == 'p')
				p->poison = x;
			else
				p->ambient = x;
		} else if (sscanf(line, "%*s %d", &i) == 1) {
			if (!strcmp(k, "variant")) p->variant = i;
			if (!strcmp(k, "start")) p->start = i;
			if (!strcmp(k, "smallstack")) p->smallstack = i;
			if (!strcmp(k, "allocfail")) p->allocfail = i;
			if (!strcmp(k, "repeat")) p->repeat = i;
			if (!strcmp(k, "marathon")) p->marathon = i;
			if (!strcmp(k, "fresh")) p->fresh = i;
			if (!strcmp(k, "mseed")) sscanf(line, "%*s %llu", &x), p->mseed = x;
			if (!strcmp(k, "threads")) p->nthreads = i;
		}
	}
	fclose(f);
	if (p->nthreads < 1 || p->nthreads > MAXT || p->start >= p->nthreads || p->variant >= NVARIANT)
		return NULL;
	for (int i = 0; i < p->nthreads; i++)
		if (!p->calls[i])
			p->calls[i] = calloc(1, sizeof(call_t));
	return p;
}

/* ---------------------------------------------------------------- arguments */
static const int kwidth[] = { 8, 16, 32, 64, 8, 16, 32, 64, 64, 32, 64, 80, 8 };
static int64_t sx(uint64_t v, int w) { return w == 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }

static uint64_t dict[256];
static int ndict;

/*
 * Bit patterns of round values: characteristic and fraction of the value
 * (linear takums) or of twice its logarithm (logarithmic ones)
 */
static uint64_t
takum_pattern(int lin, long double x)
{
	int s = x < 0, e, c, D, rr, sh;
	long double l, m;
	uint64_t b;
	if (x == 0)
		return 0;
	x = fabsl(x);
	if (lin) {
		m = 2 * frexpl(x, &e) - 1;
		c = e - 1;
	} else {
		l = 2 * logl(x);
		c = (int)floorl(l);
		m = l - c;
	}
	if (c < -255 || c > 254)
		return 1;
	D = c >= 0;
	rr = 0;
	while ((D ? (c + 1) : -c) >> (rr + 1))
		rr++;
	b = (uint64_t)D << 62 | (uint64_t)(D ? rr : 7 - rr) << 59;
	sh = 59 - rr;
	b |= ((uint64_t)(D ? c + 1 - (1 << rr) : c + (2 << rr) - 1) & ((1ull << rr) - 1)) << sh;
	b |= (uint64_t)(m * (long double)(1ull << sh));
	return s ? -b : b;
}
static uint64_t
round_value(rng *r, int lin)
{
	static const long double pi = 3.14159265358979323846264338327950288L;
	static const long double top[] = { 2, 3, 4, 10, 0.5L, 1.5L, 0.25L, 100, 0.1L, 1000, 3.14159265358979323846264338327950288L, 5 };
	long double x;
	switch (rnd_n(r, 9)) {
	default: x = top[rnd_n(r, 12)]; break;
	case 4: x = (long double)(rnd(r) % 1000); break;
	case 5: {
		static const short ex[] = { 7, 8, 15, 16, 23, 24, 30, 31, 32, 52, 53, 61, 62, 63, 64, 126, 127, 128, 254 };
		x = ldexpl(1, chance(r, 1, 2) ? (int)(rnd(r) % 509) - 254 : chance(r, 1, 2) ? ex[rnd_n(r, 19)] : -ex[rnd_n(r, 19)]);
		break; }
	case 8: x = ldexpl((long double)(rnd(r) >> 11), (int)(rnd(r) % 80) - 53 - 8); x = floorl(x); break; /* any integer */
	case 6: x = pi * (long double)(1 + rnd(r) % 64) / 4; break;
	case 7: x = (long double)(1 + rnd(r) % 9) * powl(10, (int)(rnd(r) % 60) - 30); break;
	}
	return takum_pattern(lin, chance(r, 1, 4) ? -x : x);
}

static void
gen_int(rng *r, int w, int lin, val *v)
{
	uint64_t x = rnd(r), m = w == 64 ? ~0ull : (1ull << w) - 1, one = 1ull << (w - 2);
	switch (rnd_n(r, 14)) {
	case 12: case 13: x = (uint64_t)((int64_t)round_value(r, lin) >> (64 - w)); break;
	case 0: x = 0; break;
	case 1: x = 1ull << (w - 1); break;
	case 2: x = chance(r, 1, 2) ? one : -one; break;
	case 3: x = (uint64_t)(int64_t)((int)(rnd(r) % 9) - 4); break;
	case 4: x = (1ull << (w - 1)) + (int64_t)(rnd(r) % 9) - 4; break;
	case 5: x = one + (int64_t)(rnd(r) % 33) - 16; if (chance(r, 1, 2)) x = -x; break;
	case 6: { /* few significant bits */
		int k = rnd_n(r, w);
		x = (x >> (w > 8 ? w - 8 : 0)) << k;
		break; }
	case 7: /* near one: moderate characteristic */
		x = one + (sx(x, w) >> (3 + rnd_n(r, 3)));
		if (chance(r, 1, 3)) x = -x;
		break;
	case 8: if (ndict) { x = dict[rnd_n(r, ndict)] + (int64_t)rnd_n(r, 3) - 1; break; } /* fallthrough */
	default: break;
	}
	v->w[1] = 0;
	v->i = sx(x & m, w);
}
static void
gen_exp(rng *r, val *v)
{
	uint64_t x = rnd(r);
	switch (rnd_n(r, 6)) {
	case 0: case 1: x = (uint64_t)((int64_t)(x % 21) - 10); break;
	case 2: x = (uint64_t)((int64_t)(x % 1001) - 500); break;
	case 3: x = (1ull << (x % 64)) + (int64_t)(rnd(r) % 3) - 1; if (chance(r, 1, 2)) x = -x; break;
	case 4: x = chance(r, 1, 2) ? (uint64_t)INT64_MAX - x % 3 : (uint64_t)INT64_MIN + x % 3; break;
	default: break;
	}
	v->w[1] = 0;
	v->i = (int64_t)x;
}
static void
gen_float(rng *r, int k, val *v)
{
	uint64_t x = rnd(r);
	v->w[0] = v->w[1] = 0;
	switch (rnd_n(r, 5)) {
	case 0: { /* special values */
		static const long double sp[] = { 0.0L, -0.0L, 1.0L, -1.0L, 0.5L, 2.0L, 3.0L, 0x1p-60L, 0x1p60L, 1e-40L, 1e-320L, 1e38L,
			5.7896e76L, 1.7272e-77L, 1e300L, 1e4000L, 1e-4900L, 0x1p254L, 0x1p-254L, 0x1p255L, 0x1p-255L };
		long double s = sp[rnd_n(r, sizeof(sp) / sizeof(*sp))];
		if (chance(r, 1, 2)) s = -s;
		if (chance(r, 1, 12)) s = INFINITY;
		if (chance(r, 1, 12)) s = NAN;
		if (k == K_F32) v->f32 = (float)s; else if (k == K_F64) v->f64 = (double)s; else { v->w[0] = v->w[1] = 0; memcpy(v, &s, 10); }
		break; }
	case 1: { /* moderate magnitudes */
		long double s = ldexpl((long double)(int64_t)x, -63 + (int)rnd_n(r, 80) - 40);
		if (k == K_F32) v->f32 = (float)s; else if (k == K_F64) v->f64 = (double)s; else { v->w[0] = v->w[1] = 0; memcpy(v, &s, 10); }
		break; }
	case 2: { /* a small integer */
		long double s = (long double)((int64_t)(x % 2001) - 1000);
		if (k == K_F32) v->f32 = (float)s; else if (k == K_F64) v->f64 = (double)s; else { v->w[0] = v->w[1] = 0; memcpy(v, &s, 10); }
		break; }
	default: /* any valid bit pattern */
		if (k == K_F32) { uint32_t y = (uint32_t)x; memcpy(&v->f32, &y, 4); }
		else if (k == K_F64) memcpy(&v->f64, &x, 8);
		else {
			uint64_t se = rnd(r) & 0xffff;
			if (chance(r, 3, 4)) se = (se & 0x8000) | (16383 - 300 + rnd_n(r, 600));
			if ((se & 0x7fff) == 0) x &= ~(1ull << 63); else x |= 1ull << 63;
			if ((se & 0x7fff) == 0x7fff) x = 1ull << 63 | (chance(r, 1, 2) ? 1ull << 62 : 0);
			v->w[0] = x; v->w[1] = se;
		}
	}
}
static void
gen_arg(rng *r, int k, val *v)
{
	memset(v, 0, sizeof(*v));
	if (k <= K_LIN64)
		gen_int(r, kwidth[k], k >= K_LIN8, v);
	else if (k == K_EXP)
		gen_exp(r, v);
	else
		gen_float(r, k, v);
}
/* an argument that is close to, or easily confused with, another one */
static void
near_arg(rng *r, int k, const val *o, int ok, val *v)
{
	int w = kwidth[k];
	uint64_t x, m;
	if (k > K_EXP || ok > K_EXP) {
		if (k == ok && k != K_F80) {
			*v = *o;
			v->w[0] ^= 1ull << rnd_n(r, k == K_F32 ? 32 : 64);
			return;
		}
		if (k == ok) {
			*v = *o;
			if (chance(r, 1, 2)) v->w[1] ^= 0x8000; else v->w[0] ^= 1ull << rnd_n(r, 63);
			if ((v->w[1] & 0x7fff) == 0x7fff) v->w[0] = 1ull << 63;
			return;
		}
		gen_arg(r, k, v);
		return;
	}
	m = w == 64 ? ~0ull : (1ull << w) - 1;
	x = (uint64_t)o->i;
	if (kwidth[ok] > w && chance(r, 1, 2))
		x >>= kwidth[ok] - w;
	else if (kwidth[ok] < w && chance(r, 1, 2))
		x <<= w - kwidth[ok];
	switch (rnd_n(r, 10)) {
	case 0: case 1: break;
	case 2: x ^= 1ull << rnd_n(r, w); break;
	case 3: x = -x; break;
	case 4: x = ~x; break;
	case 5: x += (int64_t)rnd_n(r, 5) - 2; break;
	case 6: { int h = rnd_n(r, w); uint64_t lo = (1ull << h) - 1; x = (x & ~lo) | (rnd(r) & lo); break; }
	case 7: { int h = rnd_n(r, w); uint64_t lo = (1ull << h) - 1; x = (rnd(r) & ~lo) | (x & lo); break; }
	case 8: x ^= 1ull << (w - 1); break;
	case 9: x += 1ull << rnd_n(r, w); break;
	}
	memset(v, 0, sizeof(*v));
	v->i = sx(x & m, w);
}

/* ---------------------------------------------------------------- corpus */
typedef struct { call_t c; int flagged; } centry;
static centry **corp;
static int *ncorp;
static call_t **corpall;
static size_t ncorpall;
#define MAXGROUP 64
static struct { int n; int fn[700]; } groups[MAXGROUP];
static int ngroups;
static int *flagfns;
static int nflagfns;

/*
 * corpus file: "c NAME flagged args..." and "g id NAME" lines (sets of
 * functions that touch the same writable memory)
 */
static void
load_corpus(const char *fn)
{
	FILE *f = fopen(fn, "r");
	static char line[1024];
	corp = calloc(napi, sizeof(*corp));
	ncorp = calloc(napi, sizeof(*ncorp));
	flagfns = calloc(napi, sizeof(int));
	if (!f)
		return;
	while (fgets(line, sizeof(line), f)) {
		int fl, off, id;
		char nm[128];
		if (sscanf(line, "c %d %n", &fl, &off) == 1) {
			call_t c;
			if (get_call(line + off, &c) < 0)
				continue;
			if (ncorp[c.fn] % 16 == 0)
				corp[c.fn] = realloc(corp[c.fn], (ncorp[c.fn] + 16) * sizeof(centry));
			corp[c.fn][ncorp[c.fn]].c = c;
			corp[c.fn][ncorp[c.fn]++].flagged = fl;
			ncorpall++;
			if (fl) {
				int i;
				for (i = 0; i < nflagfns && flagfns[i] != c.fn; i++)
					;
				if (i == nflagfns)
					flagfns[nflagfns++] = c.fn;
			}
		} else if (sscanf(line, "g %d %127s", &id, nm) == 2 && id < MAXGROUP) {
			int k = fn_by_name(nm);
			if (k >= 0 && groups[id].n < 700)
				groups[id].fn[groups[id].n++] = k;
			if (id >= ngroups)
				ngroups = id + 1;
		}
	}
	{
		int i, k;
		size_t n = 0;
		corpall = malloc((ncorpall + 1) * sizeof(*corpall));
		/* one of each function, then the next of each */
		for (k = 0; n < ncorpall; k++)
			for (i = 0; i < napi; i++)
				if (k < ncorp[i])
					corpall[n++] = &corp[i][k].c;
	}
	fclose(f);
}

static void
gen_call(rng *r, int fn, call_t *c)
{
	int i;
	memset(c, 0, sizeof(*c));
	if (ncorp && ncorp[fn] && chance(r, 1, 2)) {
		int k = rnd_n(r, ncorp[fn]), t;
		for (t = 0; t < 4 && nflagfns && !corp[fn][k].flagged; t++)
			k = rnd_n(r, ncorp[fn]);
		*c = corp[fn][k].c;
		c->env = c->noise = 0;
		if (api[fn].narg > 1 && chance(r, 2, 3)) {
			/* the others keep the path open */
			i = rnd_n(r, api[fn].narg);
			gen_arg(r, api[fn].arg[i], &c->a[i]);
		}
		return;
	}
	c->fn = fn;
	for (i = 0; i < api[fn].narg; i++)
		gen_arg(r, api[fn].arg[i], &c->a[i]);
	if (api[fn].narg > 1 && chance(r, 1, 4))
		for (i = 0; i < api[fn].narg; i++)
			if (api[fn].arg[i] <= K_LIN64)
				c->a[i].i = (int64_t)round_value(r, api[fn].arg[i] >= K_LIN8) >> (64 - kwidth[api[fn].arg[i]]);
}
static void
near_call(rng *r, const call_t *o, int fn, call_t *c)
{
	int i, j = rnd_n(r, api[fn].narg), both = chance(r, 1, 4);
	memset(c, 0, sizeof(*c));
	c->fn = fn;
	for (i = 0; i < api[fn].narg; i++) {
		int s = i < api[o->fn].narg ? i : 0;
		if (fn == o->fn && i != j && !both)
			c->a[i] = o->a[i];
		else
			near_arg(r, api[fn].arg[i], &o->a[s], api[o->fn].arg[s], &c->a[i]);
	}
	if (fn == o->fn && api[fn].narg == 2 && api[fn].arg[0] == api[fn].arg[1] && chance(r, 1, 4)) {
		c->a[0] = o->a[1];
		c->a[1] = o->a[0];
	}
}

/* NaR, or NaN, in one of the places of the arguments */
static void
make_nar(rng *r, call_t *c)
{
	int i = rnd_n(r, api[c->fn].narg ? api[c->fn].narg : 1), k = api[c->fn].arg[i];
	memset(&c->a[i], 0, sizeof(c->a[i]));
	if (k == K_EXP)
		memset(&c->a[i = 0], 0, sizeof(c->a[i])), k = api[c->fn].arg[0];
	switch (k) {
	case K_F32: c->a[i].f32 = __builtin_nanf(""); break;
	case K_F64: c->a[i].f64 = __builtin_nan(""); break;
	case K_F80: c->a[i].f80 = __builtin_nanl(""); break;
	default: c->a[i].i = (int64_t)(~0ull << ((8 << (k & 3)) - 1));
	}
}

/* pick the functions of a run */
static int
pick_fns(rng *r, int *fns, int max)
{
	int n = 1 + rnd_n(r, max), i, k;
	if (ngroups && chance(r, 3, 4)) {
		int g = rnd_n(r, ngroups);
		if (groups[g].n) {
			for (i = 0; i < n; i++)
				fns[i] = groups[g].fn[rnd_n(r, groups[g].n)];
			if (chance(r, 1, 4))
				fns[n - 1] = rnd_n(r, napi);
			return n;
		}
	}
	if (nflagfns && chance(r, 1, 2)) {
		for (i = 0; i < n; i++)
			fns[i] = flagfns[rnd_n(r, nflagfns)];
		return n;
	}
	k = rnd_n(r, napi);
	for (i = 0; i < n; i++) {
		/* neighbours in the table are the same operation in other types or sibling operations */
		if (chance(r, 1, 2))
			fns[i] = (k + rnd_n(r, 17) + napi - 8) % napi;
		else
			fns[i] = rnd_n(r, napi);
	}
	fns[0] = k;
	return n;
}

static unsigned
gen_env(rng *r, int mode)
{
	unsigned e = 0;
	if (mode == M_C13) {
		/* no exception pending, no precision control: now and then */
		e = rnd_n(r, 256);
		if (chance(r, 1, 2))
			e &= 0xcf;
		return chance(r, 1, 2) ? e & 0x3f : e;
	}
	if (chance(r, 1, 3))
		e |= rnd_n(r, 4);
	if (chance(r, 1, 12))
		e |= 4;
	if (chance(r, 1, 12))
		e |= 8;
	if (mode == M_C06 && chance(r, 1, 4))
		e |= rnd_n(r, 3) << 4;
	if (mode == M_C06 && chance(r, 1, 3))
		e |= (1 + rnd_n(r, 3)) << 6;
	return e;
}

static plan_t *
new_plan(int mode)
{
	static plan_t *p;
	int i;
	if (!p)
		p = calloc(1, sizeof(*p));
	for (i = 0; i < MAXT; i++) {
		free(p->calls[i]);
		p->calls[i] = NULL;
		p->ncalls[i] = 0;
	}
	p->mode = mode;
	p->nev = p->calls_total = p->variant = p->start = p->smallstack = p->allocfail = p->repeat = 0;
	p->marathon = p->fresh = 0;
	p->mseed = 0;
	p->poison = p->ambient = 0;
	p->nthreads = 1;
	return p;
}

static void
gap_reset(uint64_t sh, uint64_t other)
{
	G.gap_sh = sh;
	G.gap_other = other;
	G.next_sh = sh ? 1 + rnd_n(&G.r, 2 * sh) : 0;
	G.next_other = other ? 1 + rnd_n(&G.r, 2 * other) : 0;
}

/* what happens in the life of the process and of its threads, and when */
static void
add_phase(plan_t *p, int t, int call, int kind)
{
	event_t *e = &p->ev[p->nev++];
	memset(e, 0, sizeof(*e));
	e->tid = t;
	e->call = call;
	e->kind = kind;
}
static void
gen_phases(rng *r, plan_t *p)
{
	int n = p->ncalls[0], k = 0, t;
	if (chance(r, 1, 2))
		add_phase(p, 0, k = chance(r, 1, 2) && n > 1 ? 1 : rnd_n(r, n + 1), EV_CTORS);
	if (chance(r, 1, 2)) {
		k += rnd_n(r, n + 1 - k);
		if (!k && n > 1)
			k = 1;
		add_phase(p, 0, k, EV_EXIT);
		if (chance(r, 2, 3))
			add_phase(p, 0, k + (chance(r, 1, 2) ? rnd_n(r, n + 1 - k) : 0), EV_FINI);
	}
	for (t = 0; t < p->nthreads; t++) {
		if (chance(r, 1, 3))
			add_phase(p, t, 1 + rnd_n(r, p->ncalls[t]), EV_TLS);
		if (chance(r, 1, 8))
			add_phase(p, t, rnd_n(r, p->ncalls[t]), EV_FORK);
	}
	if (chance(r, 1, 2)) {
		G.w_fork = 1 + rnd_n(r, 2);
		G.forks_left = 1 + chance(r, 1, 8);
	}
}

/* generate the workload and the fault mix of one run */
static plan_t *
gen_plan(int mode, uint64_t seed, uint64_t run)
{
	plan_t *p = new_plan(mode);
	rng r = { seed };
	int fns[6], nf, i, t, npool, maxc;
	call_t pool[12];
	static const uint64_t gs[] = { 1, 2, 3, 6, 16 }, go[] = { 8, 32, 128, 600 };
	rnd(&r);
	nf = pick_fns(&r, fns, chance(&r, 1, 2) ? 1 : mode == M_C02 ? 5 : 3);
	if (mode == M_C13)
		for (i = 0; i < nf; i++)
			while (!encoding_fn(fns[i]) && !chance(&r, 1, 16))
				fns[i] = rnd_n(&r, napi);
	npool = 1 + rnd_n(&r, mode == M_C02 ? 10 : 5);
	for (i = 0; i < npool; i++) {
		int fn = fns[rnd_n(&r, nf)];
		if (i && chance(&r, 2, 3))
			near_call(&r, &pool[rnd_n(&r, i)], fn, &pool[i]);
		else
			gen_call(&r, fn, &pool[i]);
	}
	/* every second run: the next argument of the survey, as it is */
	if (!(run & 1) && ncorpall) {
		pool[0] = *corpall[(run / 2) % ncorpall];
		pool[0].env = pool[0].noise = 0;
	}
	if (mode == M_C13)
		for (i = 0; i < npool; i++)
			if (!encoding_fn(pool[i].fn))
				make_nar(&r, &pool[i]);
	p->poison = chance(&r, 1, 4) ? 0 : chance(&r, 1, 3) ? ~0ull : rnd(&r);
	p->ambient = rnd(&r);
	p->variant = rnd_n(&r, NVARIANT);
	switch (mode) {
	case M_C14:
		p->nthreads = chance(&r, 1, 3) ? 1 : 2 + rnd_n(&r, 3);
		maxc = 5;
		break;
	case M_C15:
		p->nthreads = chance(&r, 1, 24) ? 8 + rnd_n(&r, 40) : 2 + rnd_n(&r, 4);
		maxc = p->nthreads > 6 ? 1 : 4;
		break;
	case M_C01:
		p->nthreads = chance(&r, 1, 24) ? (chance(&r, 1, 3) ? 33 + rnd_n(&r, 32) : 8 + rnd_n(&r, 24)) : 2 + rnd_n(&r, chance(&r, 1, 2) ? 1 : 4);
		maxc = p->nthreads > 6 ? 1 : 4;
		break;
	case M_C02:
		p->nthreads = chance(&r, 1, 5) ? 2 + rnd_n(&r, 3) : 1;
		maxc = chance(&r, 1, 40) ? 3000 : chance(&r, 1, 6) ? 300 : 24;
		/* callers that come and go */
		if (p->nthreads == 1 && maxc <= 24 && chance(&r, 1, 8))
			p->repeat = 2 + rnd_n(&r, chance(&r, 1, 2) ? 8 : 100);
		break;
	case M_C03:
		p->nthreads = chance(&r, 1, 4) ? 2 : 1;
		maxc = 6;
		break;
	case M_C04:
		p->nthreads = 2 + rnd_n(&r, 3);
		maxc = 4;
		break;
	case M_C05:
		p->nthreads = 1;
		maxc = 10;
		p->allocfail = chance(&r, 1, 2) ? 1 : chance(&r, 1, 2) ? 0 : 2 + rnd_n(&r, 6);
		p->smallstack = p->nthreads == 1 && chance(&r, 1, 2);
		p->repeat = 4;
		break;
	default:
		p->nthreads = 1 + rnd_n(&r, 3);
		maxc = 6;
		break;
	}
	for (t = 0; t < p->nthreads; t++) {
		int n = 1 + rnd_n(&r, maxc), last = 0;
		unsigned env = gen_env(&r, mode);
		int sticky = chance(&r, 1, 2);
		p->calls[t] = calloc(n, sizeof(call_t));
		p->ncalls[t] = n;
		p->calls_total += n;
		for (i = 0; i < n; i++) {
			if (!(sticky && i && chance(&r, 1, 2)))
				last = rnd_n(&r, npool);
			if (!t && !i && !(run & 1))
				last = 0;
			p->calls[t][i] = pool[last];
			if (mode == M_C02 || chance(&r, 1, 8)) {
				if (chance(&r, 1, 4))
					env = gen_env(&r, mode);
			} else if (mode == M_C13)
				env = gen_env(&r, mode);
			p->calls[t][i].env = env;
			p->calls[t][i].noise = ((mode == M_C02 || mode == M_C03 || mode == M_C13) ? rnd_n(&r, 8) : 0) | (mode != M_C06 && chance(&r, 1, 2) ? rnd_n(&r, 32) << 3 : 0);
		}
	}
	p->start = rnd_n(&r, p->nthreads);
	/* the fault mix */
	G.r.s = rnd(&r);
	G.w_switch = p->nthreads > 1 ? 4 : 0;
	G.w_nest = G.w_cancel = G.w_stall = G.w_fork = 0;
	G.stalls_left = G.forks_left = 0;
	G.nnestpool = 0;
	switch (mode) {
	case M_C02:
		/* histories: threads run one call after the other, no preemption inside */
		G.w_switch = 0;
		break;
	case M_C03:
		G.w_nest = chance(&r, 4, 5) ? 4 : 0;
		G.w_cancel = chance(&r, 2, 3) ? 3 : 0;
		if (!G.w_nest && !G.w_cancel)
			G.w_nest = 1;
		break;
	case M_C04:
		G.w_stall = 3;
		G.stalls_left = 1 + rnd_n(&r, p->nthreads - 1);
		break;
	case M_C06:
		G.w_nest = chance(&r, 1, 3) ? 2 : 0;
		break;
	case M_C05:
		G.w_switch = p->nthreads > 1 ? 2 : 0;
		break;
	case M_C13:
		G.w_nest = chance(&r, 1, 4) ? 2 : 0;
		break;
	case M_C15:
		if (chance(&r, 1, 4)) {
			G.w_stall = 1;
			G.stalls_left = 1 + rnd_n(&r, p->nthreads - 1);
		}
		break;
	case M_C14:
		gen_phases(&r, p);
		break;
	}
	for (i = 0; i < 4; i++)
		G.nestpool[G.nnestpool++] = pool[rnd_n(&r, npool)];
	G.w_total = G.w_switch + G.w_nest + G.w_cancel + G.w_fork + G.w_stall;
	if (!G.w_total)
		gap_reset(0, 0);
	else
		gap_reset(gs[rnd_n(&r, 5)], chance(&r, 1, ngroups ? 2 : 64) ? 0 : go[rnd_n(&r, 4)]);
	return p;
}

/* ---------------------------------------------------------------- order histories (C02) */
static void child_history(const call_t *c, const uint32_t *order, int n, plan_t *p);
static int
exhaustive_count(int fn)
{
	const apifn *f = &api[fn];
	if (f->narg == 1 && f->arg[0] <= K_LIN64 && kwidth[f->arg[0]] <= 16)
		return 1 << kwidth[f->arg[0]];
	if (f->narg == 2 && f->arg[0] <= K_LIN64 && f->arg[1] <= K_LIN64 && kwidth[f->arg[0]] == 8 && kwidth[f->arg[1]] == 8)
		return 65536;
	return 0;
}
/* the argument list of an order history */
static call_t *
arg_list(int fn, rng *r, int want, int *n)
{
	const apifn *f = &api[fn];
	int ex = exhaustive_count(fn), i;
	call_t *c;
	*n = ex ? ex : want;
	c = calloc(*n, sizeof(call_t));
	for (i = 0; i < *n; i++) {
		c[i].fn = fn;
		if (ex) {
			if (f->narg == 1)
				c[i].a[0].i = sx(i, kwidth[f->arg[0]]);
			else {
				c[i].a[0].i = sx(i & 255, 8);
				c[i].a[1].i = sx(i >> 8, 8);
			}
		} else if (i < (ncorp ? ncorp[fn] : 0)) {
			c[i] = corp[fn][i].c;
			c[i].env = c[i].noise = 0;
		} else if (i && chance(r, 1, 2)) {
			near_call(r, &c[i - 1 - rnd_n(r, i < 8 ? i : 8)], fn, &c[i]);
		} else {
			gen_call(r, fn, &c[i]);
		}
	}
	return c;
}
static void
make_order(rng *r, int policy, uint32_t *o, int n)
{
	int i;
	for (i = 0; i < n; i++)
		o[i] = i;
	switch (policy) {
	case 0: break;
	case 1: for (i = 0; i < n; i++) o[i] = n - 1 - i; break;
	case 2: for (i = n - 1; i > 0; i--) { int j = rnd_n(r, i + 1); uint32_t t = o[i]; o[i] = o[j]; o[j] = t; } break;
	case 3: /* pairs that differ in the top bit, then the next: halves interleaved */
		for (i = 0; i < n; i++) o[i] = (i & 1) ? (uint32_t)(n / 2 + i / 2) % n : (uint32_t)(i / 2);
		break;
	case 4: /* mirrored pairs: x and -x adjacent */
		for (i = 0; i < n; i++) o[i] = (i & 1) ? (uint32_t)(n - 1 - i / 2) : (uint32_t)(i / 2);
		break;
	}
}
static unsigned
hist_noise(uint64_t ambient, int i)
{
	return ((ambient >> (i & 31)) & 3) | ((ambient >> 32) + (unsigned)i * 5 & 31) << 3;
}
static void
child_history(const call_t *c, const uint32_t *order, int n, plan_t *p)
{
	char mark;
	int i;
	G.p = p;
	G.online = 0;
	G.sorted = NULL;
	G.h = 0;
	G.ambient = p->ambient;
	memset(G.evstart, 0, sizeof(G.evstart));
	self = &thr[0];
	memset(self, 0, sizeof(*self));
	self->shi = (uintptr_t)&mark + 64;
	self->slo = self->shi - STACKSZ;
	if (p->mode == M_C13) {
		traps[3] = 0x3f;
		catch_fpe();
	}
	for (i = 0; i < n; i++) {
		call_t x = c[order[i]];
		x.noise = hist_noise(p->ambient, i);
		S->cur_idx = i;
		do_call(self, &x, &S->res[order[i]], 0);
	}
	self = NULL;
	finish(S_DONE);
}

/* ---------------------------------------------------------------- batch */
static struct {
	uint64_t traps;
	uint64_t runs, calls, steps, shared, ext, viol, maxsteps, orders, ordercalls;
	uint64_t ev[EV_N], evsh, allocs, refused, iorefused, preempted_runs, faultruns, smallstack, noise;
	uint64_t det_checked, det_bad;
	uint64_t maxstk, marathons, mcalls, maxdepth;
} ST;
static uint64_t *ihs;
static size_t nih, capih;
static void
add_ih(uint64_t h)
{
	if (nih == capih) {
		capih = capih ? 2 * capih : 4096;
		ihs = realloc(ihs, capih * sizeof(*ihs));
	}
	ihs[nih++] = h;
}
static int
cmp_u64(const void *a, const void *b)
{
	uint64_t x = *(const uint64_t *)a, y = *(const uint64_t *)b;
	return x < y ? -1 : x > y;
}

static void
emit_violation(const char *outdir, plan_t *p, const event_t *ev, int nev, const viol_t *v, uint64_t seed, uint64_t run)
{
	char fn[512];
	FILE *f;
	snprintf(fn, sizeof(fn), "%s/v_%s_%llu.plan", outdir, modename[p->mode], (unsigned long long)run);
	f = fopen(fn, "w");
	if (!f)
		return;
	fprintf(f, "# seed %llu run %llu\n# %s: %s\n", (unsigned long long)seed, (unsigned long long)run, v->kind, v->text);
	write_plan(f, p, ev, nev);
	fclose(f);
	printf("VIOL %s %s %s\n", v->kind, fn, v->text);
	fflush(stdout);
	ST.viol++;
}

static void
order_run(int fn, uint64_t seed, uint64_t run, const char *outdir, uint64_t base_seed)
{
	rng r = { seed };
	int n, k, i, bad = -1;
	call_t *c;
	uint32_t *o[2];
	static res_t *keep;
	plan_t *p = new_plan(M_C02);
	uint64_t amb[2], poi[2];
	int var[2], st[2];
	rnd(&r);
	c = arg_list(fn, &r, 3000, &n);
	if (!keep)
		keep = malloc(sizeof(res_t) * MAXRES);
	for (k = 0; k < 2; k++) {
		pid_t pid;
		o[k] = malloc(n * sizeof(uint32_t));
		make_order(&r, k ? 1 + rnd_n(&r, 4) : chance(&r, 1, 2) ? 0 : 2, o[k], n);
		p->ambient = amb[k] = rnd(&r);
		p->poison = poi[k] = rnd(&r);
		p->variant = var[k] = k ? 1 + rnd_n(&r, 2) : 0;
		memset(S, 0, offsetof(shm_t, nest));
		memset(S->res, 0, n * sizeof(res_t));
		pid = fork();
		if (pid == 0) {
			alarm(120);
			child_history(c, o[k], n, p);
		}
		while (waitpid(pid, &wstat, 0) < 0 && errno == EINTR)
			;
		st[k] = S->cur_idx;
		ST.orders++;
		ST.ordercalls += n;
		ST.shared += S->shared_hits;
		ST.steps += S->steps;
		ST.ext += S->ext_calls;
		add_ih(mix(mix(amb[k], fn), k));
		if (k == 0)
			memcpy(keep, S->res, n * sizeof(res_t));
	}
	for (i = 0; i < n && bad < 0; i++)
		if (keep[i].st == RS_OK && S->res[i].st == RS_OK && (keep[i].w[0] != S->res[i].w[0] || keep[i].w[1] != S->res[i].w[1]))
			bad = i;
	(void)st;
	if (bad >= 0) {
		/* which of the two histories is the odd one? */
		base_t *b = baseline(&c[bad]);
		int which = -1;
		viol_t v;
		if (!b->crashed && b->status == S_DONE) {
			if (b->r.w[0] != keep[bad].w[0] || b->r.w[1] != keep[bad].w[1])
				which = 0;
			else
				which = 1;
		}
		if (which >= 0) {
			int m = 0;
			p = new_plan(M_C02);
			while (o[which][m] != (uint32_t)bad)
				m++;
			p->calls[0] = calloc(m + 1, sizeof(call_t));
			p->ncalls[0] = p->calls_total = m + 1;
			for (i = 0; i <= m; i++) {
				p->calls[0][i] = c[o[which][i]];
				p->calls[0][i].noise = hist_noise(amb[which], i);
			}
			p->ambient = amb[which];
			p->poison = poi[which];
			p->variant = var[which];
			run_plan(p, 0);
			if (judge(p, &v))
				emit_violation(outdir, p, S->ev, S->nev, &v, base_seed, run);
			else
				printf("UNREPRODUCED order history of %s at %d\n", api[fn].name, bad);
		}
	}
	free(o[0]);
	free(o[1]);
	free(c);
}

/* the same arguments under the default settings and under others (C13) */
static int emit_prefix(plan_t *tmpl, const call_t *c, int at, const char *kind, const char *outdir, uint64_t base_seed, uint64_t run);
static void
settings_run(int fn, uint64_t seed, uint64_t run, const char *outdir, uint64_t base_seed)
{
	rng r = { seed };
	int n, k, i, found = 0;
	call_t *c, *d;
	uint32_t *o;
	static res_t *keep;
	plan_t *p = new_plan(M_C13);
	rnd(&r);
	c = arg_list(fn, &r, encoding_fn(fn) ? 24000 : 600, &n);
	if (!encoding_fn(fn)) {
		if (n > 600)
			n = 600;
		for (i = 0; i < n; i++)
			make_nar(&r, &c[i]);
	}
	d = malloc(n * sizeof(*d));
	o = malloc(n * sizeof(*o));
	for (i = 0; i < n; i++)
		o[i] = i;
	if (!keep)
		keep = malloc(sizeof(res_t) * MAXRES);
	for (k = 0; k < 3 && !found; k++) {
		pid_t pid;
		int end;
		p->ambient = rnd(&r);
		p->poison = rnd(&r);
		p->variant = k;
		memcpy(d, c, n * sizeof(*d));
		for (i = 0; i < n; i++)
			d[i].env = k ? gen_env(&r, M_C13) : 0;
		memset(S, 0, offsetof(shm_t, nest));
		memset(S->res, 0, n * sizeof(res_t));
		pid = fork();
		if (pid == 0) {
			alarm(120);
			child_history(d, o, n, p);
		}
		while (waitpid(pid, &wstat, 0) < 0 && errno == EINTR)
			;
		ST.orders++;
		ST.ordercalls += n;
		ST.steps += S->steps;
		ST.ext += S->ext_calls;
		ST.traps += S->traps;
		add_ih(mix(mix(p->ambient, fn), k));
		if (k == 0) {
			memcpy(keep, S->res, n * sizeof(res_t));
			continue;
		}
		end = crashed() || S->status != S_DONE ? (int)S->cur_idx : n;
		for (i = 0; i < n && i <= end && !found; i++)
			if (i == end || (keep[i].st == RS_OK && S->res[i].st == RS_OK &&
			                 (S->res[i].trap ? encoding_fn(fn) : keep[i].w[0] != S->res[i].w[0] || keep[i].w[1] != S->res[i].w[1]))) {
				found = 1;
				emit_prefix(p, d, i, NULL, outdir, base_seed, run);
			}
	}
	free(o);
	free(d);
	free(c);
}

/* totality in isolation (C04): every argument of a list returns within the bound */
static void
total_run(int fn, uint64_t seed, uint64_t run, const char *outdir, uint64_t base_seed)
{
	rng r = { seed };
	int n, i, first = 0;
	call_t *c;
	uint32_t *o;
	plan_t *p = new_plan(M_C04);
	int found = 0;
	rnd(&r);
	c = arg_list(fn, &r, 24000, &n);
	o = malloc(n * sizeof(*o));
	for (i = 0; i < n; i++) {
		o[i] = i;
		c[i].env = chance(&r, 1, 8) ? rnd_n(&r, 4) : 0;
	}
	while (first < n && found < 2) {
		pid_t pid;
		p->poison = rnd(&r);
		memset(S, 0, offsetof(shm_t, nest));
		memset(S->res, 0, n * sizeof(res_t));
		pid = fork();
		if (pid == 0) {
			alarm(120);
			child_history(c, o + first, n - first, p);
		}
		while (waitpid(pid, &wstat, 0) < 0 && errno == EINTR)
			;
		ST.orders++;
		ST.ordercalls += n - first;
		ST.steps += S->steps;
		ST.ext += S->ext_calls;
		if (S->maxsteps > ST.maxsteps)
			ST.maxsteps = S->maxsteps;
		if (!crashed() && S->status == S_DONE)
			break;
		{
			viol_t v;
			int at = first + S->cur_idx;
			plan_t *q = new_plan(M_C04);
			q->calls[0] = calloc(1, sizeof(call_t));
			q->calls[0][0] = c[at];
			q->ncalls[0] = q->calls_total = 1;
			run_plan(q, 0);
			if (judge(q, &v)) {
				emit_violation(outdir, q, S->ev, S->nev, &v, base_seed, run);
				found++;
			} else {
				/* needs its history */
				free(q->calls[0]);
				q->calls[0] = calloc(at - first + 1, sizeof(call_t));
				memcpy(q->calls[0], c + first, (at - first + 1) * sizeof(call_t));
				q->ncalls[0] = q->calls_total = at - first + 1;
				run_plan(q, 0);
				if (judge(q, &v)) {
					emit_violation(outdir, q, S->ev, S->nev, &v, base_seed, run);
					found++;
				}
			}
			first = at + 1;
		}
	}
	free(o);
	free(c);
}

/* the first k calls of a list as a plan of their own, the last one alone if that is enough */
static int
emit_prefix(plan_t *tmpl, const call_t *c, int at, const char *kind, const char *outdir, uint64_t base_seed, uint64_t run)
{
	int k;
	for (k = 0; k < 2; k++) {
		viol_t v;
		plan_t *q = calloc(1, sizeof(*q));
		int n = k ? at + 1 : 1, i, ok;
		memcpy(q, tmpl, offsetof(plan_t, ncalls));
		q->nthreads = 1;
		q->ncalls[0] = q->calls_total = n;
		q->calls[0] = calloc(n, sizeof(call_t));
		memcpy(q->calls[0], c + at + 1 - n, n * sizeof(call_t));
		for (i = 0; i < n; i++)
			q->calls[0][i].noise = hist_noise(tmpl->ambient, at + 1 - n + i);
		run_plan(q, 0);
		ok = judge(q, &v) && (!kind || !strcmp(v.kind, kind));
		if (ok)
			emit_violation(outdir, q, S->ev, S->nev, &v, base_seed, run);
		free(q->calls[0]);
		free(q);
		if (ok)
			return 1;
	}
	return 0;
}

/* resources over a list of arguments (C05): refused and granted, depth of stack, what is kept */
static void
resource_run(int fn, uint64_t seed, uint64_t run, const char *outdir, uint64_t base_seed)
{
	rng r = { seed };
	int n, i, k, end[2];
	call_t *c;
	uint32_t *o;
	static res_t *keep;
	plan_t *p = new_plan(M_C05);
	rnd(&r);
	c = arg_list(fn, &r, 12000, &n);
	o = malloc(n * sizeof(*o));
	for (i = 0; i < n; i++) {
		o[i] = i;
		c[i].env = chance(&r, 1, 16) ? rnd_n(&r, 4) : 0;
	}
	if (!keep)
		keep = malloc(sizeof(res_t) * MAXRES);
	p->ambient = rnd(&r);
	for (k = 0; k < 2; k++) {
		pid_t pid;
		p->allocfail = k;
		memset(S, 0, offsetof(shm_t, nest));
		memset(S->res, 0, n * sizeof(res_t));
		pid = fork();
		if (pid == 0) {
			alarm(120);
			child_history(c, o, n, p);
		}
		while (waitpid(pid, &wstat, 0) < 0 && errno == EINTR)
			;
		ST.orders++;
		ST.ordercalls += n;
		ST.steps += S->steps;
		ST.ext += S->ext_calls;
		ST.allocs += S->alloc_calls;
		ST.refused += S->alloc_refused;
		ST.iorefused += S->io_refused;
		if (S->maxsteps > ST.maxsteps)
			ST.maxsteps = S->maxsteps;
		if (S->maxstk > ST.maxstk)
			ST.maxstk = S->maxstk;
		end[k] = crashed() || S->status != S_DONE ? (int)S->cur_idx : n;
		if (k == 0)
			memcpy(keep, S->res, n * sizeof(res_t));
	}
	p->allocfail = 1;
	for (i = 0; i < n; i++)
		if (S->res[i].stk > STACKLIMIT) {
			emit_prefix(p, c, i, "stack", outdir, base_seed, run);
			goto out;
		}
	if (end[1] < end[0]) {
		emit_prefix(p, c, end[1], NULL, outdir, base_seed, run);
		goto out;
	}
	for (i = 0; i < n; i++)
		if (keep[i].st == RS_OK && S->res[i].st == RS_OK && (keep[i].w[0] != S->res[i].w[0] || keep[i].w[1] != S->res[i].w[1])) {
			emit_prefix(p, c, i, NULL, outdir, base_seed, run);
			break;
		}
out:
	free(o);
	free(c);
}

/* a long history of one function, or of a whole family */
static void
marathon_run(int mode, uint64_t m, uint64_t seed, const char *outdir, uint64_t base_seed, uint64_t scale)
{
	rng r = { seed };
	plan_t *p = new_plan(mode);
	uint64_t j = m % (napi + 9), run = 2000000000ull + m;
	int fam = -1, fn = 0, n = 0, i, k;
	viol_t v;
	rnd(&r);
	if (j % 68 == 0 && j / 68 < 9)
		fam = (int)(j / 68);
	else
		fn = (int)(j - (j / 68 + 1 < 9 ? j / 68 + 1 : 9));
	if (fn >= napi)
		return;
	p->calls[0] = calloc(2 * napi + 64, sizeof(call_t));
	if (fam < 0) {
		for (n = 0; n < 64; n++)
			if (n && chance(&r, 1, 2))
				near_call(&r, &p->calls[0][rnd_n(&r, n)], fn, &p->calls[0][n]);
			else
				gen_call(&r, fn, &p->calls[0][n]);
		p->marathon = (uint32_t)(70000 * scale);
	} else {
		for (i = 0; i < napi; i++)
			if (fam == 8 || api[i].ret == fam || api[i].arg[0] == fam)
				for (k = 0; k < (fam == 8 ? 1 : 2); k++)
					gen_call(&r, i, &p->calls[0][n++]);
		p->marathon = (uint32_t)((fam == 8 ? 1500000 : 1100000) * scale);
	}
	if (!n)
		return;
	if (mode == M_C04)
		p->marathon /= 4;
	for (i = 0; i < n; i++)
		p->calls[0][i].env = chance(&r, 1, 8) ? gen_env(&r, mode) : 0;
	p->ncalls[0] = p->calls_total = n;
	p->mseed = rnd(&r);
	p->fresh = chance(&r, 1, 4) ? 0 : 60;
	p->poison = rnd(&r);
	p->ambient = rnd(&r);
	p->variant = rnd_n(&r, NVARIANT);
	if (mode == M_C05)
		p->allocfail = chance(&r, 1, 2);
	gap_reset(0, 0);
	run_plan(p, 0);
	ST.marathons++;
	ST.mcalls += n + S->mcalls;
	ST.steps += S->steps;
	ST.ext += S->ext_calls;
	if (S->maxsteps > ST.maxsteps)
		ST.maxsteps = S->maxsteps;
	if (S->maxstk > ST.maxstk)
		ST.maxstk = S->maxstk;
	add_ih(mix(seed, 99));
	if (judge(p, &v)) {
		/* it need not go on beyond the first wrong result */
		if (S->cur_idx + 1 < p->marathon && !strcmp(v.kind, "result"))
			p->marathon = S->cur_idx + 1;
		emit_violation(outdir, p, S->ev, 0, &v, base_seed, run);
	}
}

/*
 * A long history of a few calls that use memory which outlives them,
 * again and again with nothing between them
 */
static void
suspect_run(int mode, uint64_t m, uint64_t seed, const char *outdir, uint64_t base_seed)
{
	rng r = { seed };
	plan_t *p = new_plan(mode);
	int fn = flagfns[m % nflagfns], i, n = m / nflagfns % 3 == 2 ? 1 : 8;
	uint64_t run = 3000000000ull + m;
	viol_t v;
	rnd(&r);
	p->calls[0] = calloc(n, sizeof(call_t));
	for (i = 0; i < n; i++) {
		p->calls[0][i] = corp[fn][(m / nflagfns * n + i) % ncorp[fn]].c;
		p->calls[0][i].env = chance(&r, 1, 16) ? gen_env(&r, mode) : 0;
	}
	p->marathon = n == 1 ? 140000 : 420000;
	p->ncalls[0] = p->calls_total = n;
	p->mseed = rnd(&r);
	p->ambient = rnd(&r);
	p->variant = rnd_n(&r, NVARIANT);
	gap_reset(0, 0);
	run_plan(p, 0);
	ST.marathons++;
	ST.mcalls += n + S->mcalls;
	ST.steps += S->steps;
	add_ih(mix(seed, 98));
	if (judge(p, &v)) {
		if (S->cur_idx + 1 < p->marathon && !strcmp(v.kind, "result"))
			p->marathon = S->cur_idx + 1;
		emit_violation(outdir, p, S->ev, 0, &v, base_seed, run);
	}
}

static void
batch(int mode, uint64_t seed, uint64_t first, uint64_t count, const char *outdir, int maxviol, uint64_t orderfirst, uint64_t ordercount,
      uint64_t marfirst, uint64_t marcount)
{
	uint64_t i, k;
	FILE *f;
	char fn[512];
	static event_t evsave[MAXEV];
	struct timespec t0, t1;
	clock_gettime(CLOCK_MONOTONIC, &t0);
	for (i = orderfirst; i < orderfirst + ordercount && (int)ST.viol < maxviol; i++) {
		uint64_t s = mix(mix(seed, 7777), i);
		if (mode == M_C02)
			order_run((int)(i % napi), s, 1000000000ull + i, outdir, seed);
		else if (mode == M_C04)
			total_run((int)(i % napi), s, 1000000000ull + i, outdir, seed);
		else if (mode == M_C05)
			resource_run((int)(i % napi), s, 1000000000ull + i, outdir, seed);
		else if (mode == M_C13)
			settings_run((int)(i % napi), s, 1000000000ull + i, outdir, seed);
	}
	for (i = marfirst; i < marfirst + marcount && (int)ST.viol < maxviol && nflagfns; i++)
		if (i % 6 == 0)
			suspect_run(mode, i / 6, mix(mix(seed, 9999 + mode), i), outdir, seed);
	for (i = marfirst; i < marfirst + marcount && (int)ST.viol < maxviol; i++)
		marathon_run(mode, i, mix(mix(seed, 8888 + mode), i), outdir, seed, i < (uint64_t)napi + 9 ? 1 : i < 2 * ((uint64_t)napi + 9) ? 16 : 4);
	for (i = first; i < first + count && (int)ST.viol < maxviol; i++) {
		uint64_t s = mix(mix(seed, mode + 1), i);
		plan_t *p = gen_plan(mode, s, i);
		viol_t v;
		int nev, bad;
		uint64_t h;
		run_plan(p, 1);
		h = S->hash;
		nev = S->nev;
		memcpy(evsave, S->ev, nev * sizeof(event_t));
		/* late constructors stay late, also when their time did not come */
		for (k = 0; k < p->nev; k++)
			if (p->ev[k].kind == EV_CTORS && nev < MAXEV) {
				int l;
				for (l = 0; l < nev && evsave[l].kind != EV_CTORS; l++)
					;
				if (l == nev)
					evsave[nev++] = p->ev[k];
			}
		ST.runs++;
		ST.calls += p->calls_total;
		ST.steps += S->steps;
		ST.traps += S->traps;
		ST.shared += S->shared_hits;
		ST.ext += S->ext_calls;
		ST.evsh += S->ev_shared;
		ST.allocs += S->alloc_calls;
		ST.refused += S->alloc_refused;
		ST.iorefused += S->io_refused;
		if (S->maxsteps > ST.maxsteps)
			ST.maxsteps = S->maxsteps;
		if (S->maxstk > ST.maxstk)
			ST.maxstk = S->maxstk;
		if (S->maxdepth > (int)ST.maxdepth)
			ST.maxdepth = S->maxdepth;
		for (k = 0; k < EV_N; k++)
			ST.ev[k] += S->ev_fired[k];
		if (nev)
			ST.preempted_runs++;
		ST.smallstack += p->smallstack != 0;
		ST.faultruns += p->allocfail != 0;
		if (mode == M_C02)
			add_ih(mix(s, 1));
		else
			add_ih(mix(S->ihash, mode == M_C05 || mode == M_C06 || mode == M_C13 ? s : 0));
		bad = judge(p, &v);
		if (bad) {
			/* replay the recorded decisions at once: same log, same violation */
			viol_t v2;
			plan_t *q = malloc(sizeof(*q));
			memcpy(q, p, sizeof(*q));
			q->nev = nev;
			memcpy(q->ev, evsave, nev * sizeof(event_t));
			run_plan(q, 0);
			if (!crashed() && S->hash != h && strcmp(v.kind, "leak") && mode != M_C05)
				printf("UNREPRODUCED hash differs run %llu\n", (unsigned long long)i);
			if (judge(q, &v2) && !strcmp(v.kind, v2.kind))
				emit_violation(outdir, q, evsave, nev, &v, seed, i);
			else
				printf("UNREPRODUCED %s run %llu: %s\n", v.kind, (unsigned long long)i, v.text);
			free(q);
		} else if (i % 16 == 0 && S->status == S_DONE && mode != M_C05) {
			/* determinism probe: the recorded decisions give the same log */
			plan_t *q = malloc(sizeof(*q));
			memcpy(q, p, sizeof(*q));
			q->nev = nev;
			memcpy(q->ev, evsave, nev * sizeof(event_t));
			run_plan(q, 0);
			ST.det_checked++;
			if (S->hash != h) {
				ST.det_bad++;
				printf("NONDET run %llu\n", (unsigned long long)i);
				if (ST.det_bad == 1) {
					snprintf(fn, sizeof(fn), "%s/nondet.plan", outdir);
					f = fopen(fn, "w");
					if (f) {
						write_plan(f, q, evsave, nev);
						fclose(f);
					}
				}
			}
			free(q);
		}
	}
	clock_gettime(CLOCK_MONOTONIC, &t1);
	qsort(ihs, nih, sizeof(*ihs), cmp_u64);
	snprintf(fn, sizeof(fn), "%s/ih_%llu.bin", outdir, (unsigned long long)first);
	f = fopen(fn, "w");
	if (f) {
		fwrite(ihs, sizeof(*ihs), nih, f);
		fclose(f);
	}
	printf("STATS runs=%llu calls=%llu steps=%llu shared=%llu ext=%llu switch=%llu nest=%llu cancel=%llu stall=%llu evshared=%llu "
	       "allocs=%llu refused=%llu iorefused=%llu baselines=%llu maxsteps=%llu orders=%llu ordercalls=%llu eventruns=%llu "
	       "smallstack=%llu allocruns=%llu detchecked=%llu detbad=%llu traps=%llu maxstk=%llu maxdepth=%llu marathons=%llu mcalls=%llu fork=%llu ctors=%llu exit=%llu fini=%llu tls=%llu ms=%llu\n",
	       (unsigned long long)ST.runs, (unsigned long long)ST.calls, (unsigned long long)ST.steps, (unsigned long long)ST.shared,
	       (unsigned long long)ST.ext, (unsigned long long)ST.ev[0], (unsigned long long)ST.ev[1], (unsigned long long)ST.ev[2],
	       (unsigned long long)ST.ev[3], (unsigned long long)ST.evsh, (unsigned long long)ST.allocs, (unsigned long long)ST.refused,
	       (unsigned long long)ST.iorefused, (unsigned long long)nbase, (unsigned long long)ST.maxsteps, (unsigned long long)ST.orders,
	       (unsigned long long)ST.ordercalls, (unsigned long long)ST.preempted_runs, (unsigned long long)ST.smallstack,
	       (unsigned long long)ST.faultruns, (unsigned long long)ST.det_checked, (unsigned long long)ST.det_bad, (unsigned long long)ST.traps, (unsigned long long)ST.maxstk,
	       (unsigned long long)ST.maxdepth, (unsigned long long)ST.marathons, (unsigned long long)ST.mcalls,
	       (unsigned long long)ST.ev[EV_FORK], (unsigned long long)ST.ev[EV_CTORS], (unsigned long long)ST.ev[EV_EXIT],
	       (unsigned long long)ST.ev[EV_FINI], (unsigned long long)ST.ev[EV_TLS],
	       (unsigned long long)((t1.tv_sec - t0.tv_sec) * 1000 + (t1.tv_nsec - t0.tv_nsec) / 1000000));
}

/* ---------------------------------------------------------------- sweep: reach survey */
static int skept, skeptf, climbkept;
static void
emit_arg(FILE *w, const call_t *c, int flag)
{
	fprintf(w, "c %d ", flag);
	put_call(w, c);
	fputc('\n', w);
}
static void
sweep_one(FILE *w, const call_t *c)
{
	int nt = W->ntouch, f;
	W->newcov = W->touched = W->extother = W->neq = 0;
	W->cur = *c;
	W->epoch++;
	W->execs++;
	G.prevpc = 0;
	do_call(self, c, &S->res[0], 0);
	f = W->touched || W->extother;
	if (G.sweep == 2) {
		int deep = 0, j;
		uint32_t v[2] = { self->steps, self->maxstk };
		for (j = 0; j < 2; j++) {
			if (v[j] <= W->deepest[j])
				continue;
			W->deepest[j] = v[j];
			W->deep[j] = *c;
			if (v[j] > W->shown[j] + W->shown[j] / 4) {
				W->shown[j] = v[j];
				deep = 1;
			}
		}
		if (W->newcov)
			W->pool[W->npool++ & 127] = *c;
		if (climbkept < 96 && (W->newcov || W->neq || deep)) {
			climbkept++;
			emit_arg(w, c, f);
		} else if (f && W->ntouch > nt)
			emit_arg(w, c, f);
		return;
	}
	if (W->newcov)
		W->pool[W->npool++ & 127] = *c;
	if ((W->newcov && skept < 48) || (f && (W->ntouch > nt || skeptf < 48))) {
		if (W->newcov)
			skept++;
		if (f)
			skeptf++;
		emit_arg(w, c, f);
	}
}

/* a variation of an argument that came close */
static void
mutate(rng *r, call_t *c, const struct site *t)
{
	const apifn *f = &api[c->fn];
	int j = rnd_n(r, f->narg), k = f->arg[j], w, s;
	uint64_t x, m, d;
	if (k == K_F80) {
		val v = c->a[j];
		near_arg(r, k, &v, k, &c->a[j]);
		return;
	}
	if (k > K_EXP && chance(r, 1, 8)) {
		gen_arg(r, k, &c->a[j]);
		return;
	}
	w = k == K_F32 ? 32 : k == K_F64 ? 64 : k == K_U8 ? 8 : kwidth[k];
	m = w == 64 ? ~0ull : (1ull << w) - 1;
	x = c->a[j].w[0];
	s = chance(r, 1, 2) ? 0 : rnd_n(r, 64);
	switch (rnd_n(r, t ? 18 : 10)) {
	case 0: case 1: x ^= 1ull << rnd_n(r, w); break;
	case 2: x += 1ull << rnd_n(r, w); break;
	case 3: x -= 1ull << rnd_n(r, w); break;
	case 4: x += (int64_t)rnd_n(r, 33) - 16; break;
	case 5:
		if (W->ndict) {
			d = W->dict[rnd_n(r, W->ndict)] + (int64_t)rnd_n(r, 3) - 1;
			x = chance(r, 1, 2) ? d << (s % w) : d;
			if (chance(r, 1, 4)) x = -x;
		}
		break;
	case 6: if (f->narg > 1) { int o = (j + 1) % f->narg; if (f->arg[o] <= K_EXP && k <= K_EXP) x = chance(r, 3, 4) ? (uint64_t)c->a[o].i : -(uint64_t)c->a[o].i; } break;
	case 7: x = chance(r, 1, 2) ? -x : ~x; break;
	case 8: { int h = rnd_n(r, w); uint64_t lo = (1ull << h) - 1; x = (x & ~lo) | (rnd(r) & lo); break; }
	case 9: { val v; gen_arg(r, k, &v); x = v.w[0]; break; }
	case 10: case 11: x += (t->b - t->a) << s; break;
	case 12: x -= (t->b - t->a) << s; break;
	case 13: x ^= (t->a ^ t->b) << s; break;
	case 14: x = (chance(r, 1, 2) ? t->b : t->a) << s; break;
	case 15: x += (t->b - t->a) >> s; break;
	case 16: /* all of them alike */
		d = chance(r, 1, 2) ? 1ull << rnd_n(r, w) : (t->b - t->a) << s;
		for (s = 0; s < f->narg; s++)
			if (s != j && f->arg[s] <= K_EXP)
				c->a[s].i = sx((uint64_t)c->a[s].i + d & (kwidth[f->arg[s]] == 64 ? ~0ull : (1ull << kwidth[f->arg[s]]) - 1), kwidth[f->arg[s]]);
		x += d;
		break;
	case 17: /* the number it is compared with */
		if (t->fp && k < K_EXP) {
			uint64_t o[2] = { t->a, t->b };
			double y;
			int q = rnd_n(r, 2);
			o[q] = o[q] >> 63 ? o[q] ^ 1ull << 63 : ~o[q];
			memcpy(&y, &o[q], 8);
			if (y == y && y - y == 0 && y != 0)
				x = (uint64_t)((int64_t)takum_pattern(k >= K_LIN8, y) >> (64 - w));
		}
		break;
	}
	c->a[j].w[1] = 0;
	c->a[j].i = k == K_F32 || k == K_F64 || k == K_U8 ? (int64_t)(x & m) : sx(x & m, w);
}
static void
climb_call(rng *r, int fn, call_t *c)
{
	const struct site *t = NULL;
	int z = rnd_n(r, 100), i;
	if (z < 60 && W->nsite) {
		for (i = 0; i < 12; i++) {
			t = &W->site[rnd_n(r, W->nsite)];
			if (!t->eq)
				break;
		}
		if (t->eq)
			t = NULL;
	}
	if (t)
		*c = t->best[chance(r, 1, 3)];
	else if (z < 85 && W->npool)
		*c = W->pool[rnd_n(r, W->npool < 128 ? W->npool : 128)];
	else if (z < 90 && W->deepest[z & 1])
		*c = W->deep[z & 1];
	else
		gen_call(r, fn, c);
	c->env = chance(r, 1, 4) ? gen_env(r, M_C06) & 0x3f : 0;
	c->noise = 0;
	for (i = chance(r, 2, 3) ? 1 : 1 + rnd_n(r, 4); i; i--)
		mutate(r, c, t);
}

/*
 * Worlds in which a function is climbed in: as always, inside a suspended
 * call of the same function, after the end of everything, before the
 * beginning
 */
enum { W_PLAIN, W_INSIDE, W_LATE, W_EARLY, W_N };
static struct { int fn; rng *r; FILE *w; uint64_t limit; } cl;
static void
climb_inside(thr_t *T)
{
	struct x87env e;
	unsigned mx = get_mxcsr();
	int en = errno, i;
	uint32_t steps = T->steps, maxstk = T->maxstk;
	uintptr_t stk0 = T->stk0;
	__asm__ volatile("fnstenv %0" : "=m"(e));
	T->depth++;
	for (i = 0; i < 400 && W->execs < cl.limit; i++) {
		call_t x;
		climb_call(cl.r, cl.fn, &x);
		sweep_one(cl.w, &x);
	}
	T->depth--;
	T->in_lib = 1;
	T->steps = steps;
	T->stk0 = stk0;
	T->maxstk = maxstk;
	__asm__ volatile("fldenv %0" : : "m"(e));
	set_mxcsr(mx);
	errno = en;
	if (chance(cl.r, 1, 3))
		longjmp(T->jb[T->depth], 1);
}
static void
climb(FILE *w, int fn, rng *r, int world, uint64_t limit)
{
	uint32_t last = 100;
	cl.fn = fn;
	cl.r = r;
	cl.w = w;
	cl.limit = limit;
	if (world == W_LATE) {
		self->in_lib = 1;
		run_keys();
		run_exits();
		run_dtors();
		self->in_lib = 0;
		G.nfork++;
	}
	while (W->execs < limit) {
		call_t x;
		climb_call(r, fn, &x);
		if (world == W_INSIDE)
			climb_at = 1 + rnd_n(r, last);
		sweep_one(w, &x);
		climb_at = 0;
		if (self->steps)
			last = self->steps;
	}
}

/* run a part of the survey in a child; returns whether it came to its end */
static int
sweep_child(FILE *f, int fn, rng *r, const call_t *c, int first, int n, int world, uint64_t limit)
{
	int pipefd[2];
	pid_t pid;
	memset(S, 0, offsetof(shm_t, nest));
	if (pipe(pipefd))
		return 1;
	fflush(f);
	pid = fork();
	if (pid == 0) {
		char mark;
		plan_t *p = new_plan(M_C02);
		FILE *w = fdopen(pipefd[1], "w");
		int i;
		close(pipefd[0]);
		alarm(c ? 120 : 600);
		G.sweep = c ? 1 : 2;
		G.p = p;
		self = &thr[0];
		memset(self, 0, sizeof(*self));
		self->shi = (uintptr_t)&mark + 64;
		self->slo = self->shi - STACKSZ;
		if (world != W_EARLY) {
			thr_t *t = self;
			self = NULL;
			run_ctors();
			self = t;
		}
		if (c)
			for (i = first; i < n; i++) {
				S->cur_idx = i;
				sweep_one(w, &c[i]);
			}
		else
			climb(w, fn, r, world, limit);
		fflush(w);
		self = NULL;
		finish(S_DONE);
	}
	close(pipefd[1]);
	{
		char buf[4096];
		ssize_t k;
		while ((k = read(pipefd[0], buf, sizeof(buf))) > 0)
			fwrite(buf, 1, k, f);
	}
	close(pipefd[0]);
	while (waitpid(pid, &wstat, 0) < 0 && errno == EINTR)
		;
	if (!crashed() && S->status == S_DONE)
		return 1;
	/* that argument does not return: of interest by itself */
	fputc('\n', f);
	emit_arg(f, &W->cur, 0);
	return 0;
}

static void
sweep(int lo, int hi, uint64_t seed, const char *out, uint64_t climbs)
{
	int fn;
	FILE *f = fopen(out, "w");
	for (fn = lo; fn < hi && fn < napi; fn++) {
		rng r = { mix(seed, fn) };
		int n, next, deaths = 0, pass, j, ex = exhaustive_count(fn);
		call_t *c;
		rnd(&r);
		memset(W, 0, sizeof(*W));
		ndict = 0;
		skept = skeptf = climbkept = 0;
		/* second pass: with the constants that the first one saw in comparisons */
		for (pass = 0; pass < 2; pass++) {
			if (pass == 1 && (ex || !W->ndict))
				break;
			ndict = pass ? W->ndict : 0;
			memcpy(dict, W->dict, sizeof(dict));
			c = arg_list(fn, &r, 2500, &n);
			for (next = 0; next < n && deaths < 4; next = S->cur_idx + 1) {
				if (sweep_child(f, fn, &r, c, next, n, W_PLAIN, 0))
					break;
				deaths++;
			}
			free(c);
		}
		/* third: towards the comparisons that never came out equal */
		W->execs = 0;
		for (j = 0; j < W_N && !ex; j++) {
			uint64_t limit = W->execs + (j ? climbs / 12 : climbs * 3 / 4);
			int sites = W->nsite;
			if (j == W_EARLY && !nsim_inits)
				break;
			for (deaths = 0; deaths < 6; deaths++) {
				memcpy(dict, W->dict, sizeof(dict));
				ndict = W->ndict;
				rnd(&r);
				if (sweep_child(f, fn, &r, NULL, 0, 0, j, limit)) {
					if (!j || W->nsite == sites)
						break;
					/* this world has comparisons of its own */
					sites = W->nsite;
					limit += climbs;
				}
			}
		}
		for (j = 0; j < W->ntouch; j++)
			fprintf(f, "t %s %u\n", api[fn].name, W->touch[j]);
		fprintf(f, "d %s", api[fn].name);
		for (j = 0; j < W->ndict; j++)
			fprintf(f, " %llx", (unsigned long long)W->dict[j]);
		fprintf(f, "\ns %d %llu\n", W->nsite, (unsigned long long)W->execs);
	}
	fclose(f);
}

int
main(int argc, char **argv)
{
	int i;
	if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("LIBSIM_REEXEC")) {
		if (personality(ADDR_NO_RANDOMIZE) != -1) {
			setenv("LIBSIM_REEXEC", "1", 1);
			execv("/proc/self/exe", argv);
		}
	}
	unsetenv("LIBSIM_REEXEC");
	setvbuf(stdout, NULL, _IOLBF, 0);
	S = mmap(NULL, sizeof(shm_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	SB = mmap(NULL, sizeof(shm_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	W = mmap(NULL, sizeof(sweep_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	ext_init();
	{
		/* no core files, bounded memory */
		struct rlimit rl = { 0, 0 };
		setrlimit(RLIMIT_CORE, &rl);
		/* room for descriptors that are not given back */
		getrlimit(RLIMIT_NOFILE, &rl);
		if (rl.rlim_max > rl.rlim_cur) {
			rl.rlim_cur = rl.rlim_max < 200000 ? rl.rlim_max : 200000;
			setrlimit(RLIMIT_NOFILE, &rl);
		}
	}
	/* constructors run before main, unless their time is to be decided */
	if (argc >= 3) {
		if (!strcmp(argv[1], "run") || !strcmp(argv[1], "show"))
			G.late_ctors = !strcmp(argv[2], "C14");
		else
			G.late_ctors = !strcmp(argv[1], "sweep") || !strcmp(argv[1], "exec");
	}
	if (!G.late_ctors)
		run_ctors();
	if (argc >= 7 && !strcmp(argv[1], "run")) {
		int mode = 0;
		char *cpu = getenv("LIBSIM_CPU");
		if (cpu) {
			cpu_set_t cs;
			CPU_ZERO(&cs);
			CPU_SET(atoi(cpu), &cs);
			sched_setaffinity(0, sizeof(cs), &cs);
		}
		for (i = 0; i < M_N; i++)
			if (!strcmp(modename[i], argv[2]))
				mode = i;
		load_corpus(argv[6]);
		batch(mode, strtoull(argv[3], NULL, 0), strtoull(argv[4], NULL, 0), strtoull(argv[5], NULL, 0), argv[7], 3,
		      argc > 9 ? strtoull(argv[8], NULL, 0) : 0, argc > 9 ? strtoull(argv[9], NULL, 0) : 0,
		      argc > 11 ? strtoull(argv[10], NULL, 0) : 0, argc > 11 ? strtoull(argv[11], NULL, 0) : 0);
		return 0;
	}
	if (argc >= 3 && !strcmp(argv[1], "exec")) {
		plan_t *p = read_plan(argv[2]);
		viol_t v;
		int bad;
		uint64_t h;
		if (!p) {
			fprintf(stderr, "bad plan %s\n", argv[2]);
			return 2;
		}
		if (p->mode != M_C14) {
			G.late_ctors = 0;
			run_ctors();
		}
		run_plan(p, 0);
		h = crashed() ? (uint64_t)WTERMSIG(wstat) : S->hash;
		bad = judge(p, &v);
		printf("RESULT %s %s %016llx %s\n", bad ? "violated" : "held", bad ? v.kind : "-", (unsigned long long)h, v.text);
		return 0;
	}
	if (argc >= 6 && !strcmp(argv[1], "sweep")) {
		sweep(atoi(argv[2]), atoi(argv[3]), strtoull(argv[4], NULL, 0), argv[5], argc > 6 ? strtoull(argv[6], NULL, 0) : 0);
		return 0;
	}
	if (argc >= 6 && !strcmp(argv[1], "show")) {
		/* print the first plans of a seed */
		int mode = 0;
		uint64_t k;
		for (i = 0; i < M_N; i++)
			if (!strcmp(modename[i], argv[2]))
				mode = i;
		load_corpus(argv[5]);
		for (k = 0; k < strtoull(argv[4], NULL, 0); k++) {
			plan_t *p = gen_plan(mode, mix(mix(strtoull(argv[3], NULL, 0), mode + 1), k), k);
			run_plan(p, 1);
			printf("----\n");
			write_plan(stdout, p, S->ev, S->nev);
		}
		return 0;
	}
	if (argc >= 2 && !strcmp(argv[1], "napi")) {
		printf("%d\n", napi);
		return 0;
	}
	fprintf(stderr, "usage\n");
	return 2;
}
