/*
 * calcsim: deterministic simulation of the example calculator.
 *
 * The real calculator (main renamed to calc_main) runs in a forked child on
 * virtual streams: a plan decides how its input is fragmented, which buffers
 * its streams have, which allocations, reads and writes fail, and in which
 * build variant and memory filling it runs. Everything it does at the seams
 * is recorded in shared memory; a judge process compares the record with an
 * independent model (calcmodel.c).
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <inttypes.h>
#include <math.h>
#include <signal.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include "calcsim.h"

typedef uint64_t u64;
typedef uint32_t u32;

/* ------------------------------------------------------------------ random */
static u64 rs[4];
static u64
sm(u64 *x)
{
	u64 z = (*x += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
static void
rseed(u64 a, u64 b, u64 c)
{
	u64 x = a * 0x9e3779b97f4a7c15ull ^ (b << 40) ^ c;
	for (int i = 0; i < 4; i++) rs[i] = sm(&x);
}
static u64
rnd(void)
{
	u64 r = ((rs[1] * 5) << 7 | (rs[1] * 5) >> 57) * 9, t = rs[1] << 17;
	rs[2] ^= rs[0]; rs[3] ^= rs[1]; rs[1] ^= rs[2]; rs[0] ^= rs[3]; rs[2] ^= t;
	rs[3] = rs[3] << 45 | rs[3] >> 19;
	return r;
}
static u32 rn(u32 n) { return n ? rnd() % n : 0; }
static bool pct(u32 p) { return rn(100) < p; }

/* ------------------------------------------------------------------ plans */
enum { B_FULL, B_LINE, B_NONE };
enum { F_ALLOC, F_READ, F_WRITE };
enum { K_EIO, K_EINTR, K_EAGAIN, K_EOF, K_ENOSPC, K_EPIPE, K_SIGPIPE, K_SHORT, K_EBADF, NKIND };
static const char *const kindname[] = { "EIO", "EINTR", "EAGAIN", "EOF", "ENOSPC", "EPIPE", "SIGPIPE", "SHORT", "EBADF" };
static const int kinderr[] = { EIO, EINTR, EAGAIN, 0, ENOSPC, EPIPE, EPIPE, 0, EBADF };

struct fault { int what; long at; int kind; int stream; long n; long count; };

#define MAXF 32
#define MAXCH 4096
struct plan {
	int mode, variant, poison, tty, repeat, noeol;
	int inmode, outmode;
	u32 insize, outsize;
	u32 ch[MAXCH]; int nch;      /* 0 = up to the next newline */
	struct fault f[MAXF]; int nf;
	char *text; size_t n, cap;   /* the lines, each followed by a newline */
};

static char *input; static size_t ninput, capinput;   /* text * repeat, less the last newline */

static void
expand(const struct plan *p)
{
	size_t need = p->n * (p->repeat ? p->repeat : 1);
	if (need + 1 > capinput) input = realloc(input, capinput = need * 2 + 64);
	for (int i = 0; i < (p->repeat ? p->repeat : 1); i++) memcpy(input + i * p->n, p->text, p->n);
	ninput = need;
	if (p->noeol && ninput && input[ninput - 1] == '\n') ninput--;
}

static void
addtext(struct plan *p, const char *s, size_t n)
{
	if (p->n + n + 1 > p->cap) p->text = realloc(p->text, p->cap = (p->n + n) * 2 + 256);
	memcpy(p->text + p->n, s, n);
	p->n += n;
}

static void
addstr(struct plan *p, const char *s) { addtext(p, s, strlen(s)); }

static const char *const bm[] = { "full", "line", "none" };

static void
write_plan(FILE *o, const struct plan *p)
{
	fprintf(o, "mode C%02d\nvariant %d\npoison %d\ntty %d\nrepeat %d\nnoeol %d\n", p->mode, p->variant, p->poison, p->tty, p->repeat, p->noeol);
	fprintf(o, "inbuf %s %u\noutbuf %s %u\nchunks", bm[p->inmode], p->insize, bm[p->outmode], p->outsize);
	for (int i = 0; i < p->nch; i++) fprintf(o, " %u", p->ch[i]);
	fprintf(o, "\n");
	for (int i = 0; i < p->nf; i++) {
		const struct fault *f = &p->f[i];
		if (f->what == F_ALLOC) fprintf(o, "fault alloc %ld %ld\n", f->at, f->count);
		else if (f->what == F_READ) fprintf(o, "fault read %ld %s %ld\n", f->at, kindname[f->kind], f->count);
		else fprintf(o, "fault write %d %ld %s %ld %ld\n", f->stream, f->at, kindname[f->kind], f->n, f->count);
	}
	size_t b = 0;
	while (b < p->n) {
		size_t e = b;
		fprintf(o, "line ");
		while (e < p->n && p->text[e] != '\n') {
			unsigned char c = p->text[e];
			size_t k = e;
			while (k < p->n && (unsigned char)p->text[k] == c) k++;
			if (k - e >= 16 && c != '\n') {
				fprintf(o, "\\{%zu*%02x}", k - e, c);
				e = k;
				continue;
			}
			if (c < 32 || c > 126 || c == '\\') fprintf(o, "\\x%02x", c); else fputc(c, o);
			e++;
		}
		fprintf(o, "\n");
		b = e + 1;
	}
}

static int
findname(const char *const *t, int n, const char *s)
{
	for (int i = 0; i < n; i++) if (!strcmp(t[i], s)) return i;
	return 0;
}

static void
read_plan(FILE *in, struct plan *p)
{
	char *l = NULL;
	size_t cap = 0;
	ssize_t k;
	memset(p, 0, sizeof(*p));
	p->insize = 4096; p->outsize = 4096;
	while ((k = getline(&l, &cap, in)) > 0) {
		if (l[k - 1] == '\n') l[--k] = 0;
		char w[16], w2[16];
		if (l[0] == '#' || !k) continue;
		if (!strncmp(l, "mode C", 6)) p->mode = atoi(l + 6);
		else if (sscanf(l, "variant %d", &p->variant) == 1) ;
		else if (sscanf(l, "poison %d", &p->poison) == 1) ;
		else if (sscanf(l, "tty %d", &p->tty) == 1) ;
		else if (sscanf(l, "repeat %d", &p->repeat) == 1) ;
		else if (sscanf(l, "noeol %d", &p->noeol) == 1) ;
		else if (sscanf(l, "inbuf %15s %u", w, &p->insize) == 2) p->inmode = findname(bm, 3, w);
		else if (sscanf(l, "outbuf %15s %u", w, &p->outsize) == 2) p->outmode = findname(bm, 3, w);
		else if (!strncmp(l, "chunks", 6)) {
			char *s = l + 6, *e;
			while (p->nch < MAXCH) {
				unsigned long v = strtoul(s, &e, 10);
				if (e == s) break;
				p->ch[p->nch++] = v;
				s = e;
			}
		} else if (!strncmp(l, "fault ", 6) && p->nf < MAXF) {
			struct fault *f = &p->f[p->nf];
			memset(f, 0, sizeof(*f));
			if (sscanf(l, "fault alloc %ld %ld", &f->at, &f->count) == 2) f->what = F_ALLOC, p->nf++;
			else if (sscanf(l, "fault read %ld %15s %ld", &f->at, w, &f->count) == 3) f->what = F_READ, f->kind = findname(kindname, NKIND, w), p->nf++;
			else if (sscanf(l, "fault write %d %ld %15s %ld %ld", &f->stream, &f->at, w2, &f->n, &f->count) == 5) f->what = F_WRITE, f->kind = findname(kindname, NKIND, w2), p->nf++;
		} else if (!strncmp(l, "line ", 5)) {
			for (char *s = l + 5; *s;) {
				unsigned c;
				size_t rep;
				int used = 0;
				if (sscanf(s, "\\{%zu*%2x}%n", &rep, &c, &used) == 2 && used) {
					char ch = c;
					while (rep--) addtext(p, &ch, 1);
					s += used;
				} else if (sscanf(s, "\\x%2x", &c) == 1) {
					char ch = c;
					addtext(p, &ch, 1);
					s += 4;
				} else addtext(p, s++, 1);
			}
			addtext(p, "\n", 1);
		}
	}
	free(l);
	if (!p->nch) p->ch[p->nch++] = 0;
}

/* ------------------------------------------------------------------ record */
#define OUTMAX (4u << 20)
#define RDMAX 400000
#define WRMAX 200000
#define ALMAX 100000
enum { S_NONE, S_RETURN, S_EXIT, S_CRASH, S_STUCK, S_ABORT, S_BADMEM, S_SIGPIPE, S_LIMIT };
static const char *const stname[] = { "none", "returned", "exited", "crashed", "stuck", "aborted", "memory error", "killed by a closed pipe", "record full" };
struct rd { u32 pos; int ret; u32 out, err, nalloc, nlive; u64 live; };
struct wr { int stream; u32 req; int ret; u32 at; };
struct al { u32 size, pos; u32 refused; };
struct rec {
	int status, code, oddend, nullcrash;
	char why[160];
	u32 nout, nerr, nrd, nwr, nal, pos, eofs, nrefused, ngrowrefused;
	u64 steps, live, nlive;
	u64 fired[NKIND];
	struct rd rd[RDMAX];
	struct wr wr[WRMAX];
	struct al al[ALMAX];
	char out[OUTMAX], err[OUTMAX];
};
static struct rec *R0, *R1, *R2;
struct verdict {
	int done, bad, unjudged;
	char kind[24], text[400];
	unsigned char cov[NTYPE][128][8];
};
static struct verdict *V;

/* ------------------------------------------------------------------ child: the simulated environment */
static struct rec *R;
static struct plan *P;
static size_t pos;
static int chi;
static u32 chleft;
static u64 stepmax;
static long nalloc, wcalls[3];
static int forced_flush, inline_, grows_;
static u64 vclock;
static void (*exitfn[32])(void);
static int nexitfn;

static void check_live_blocks(void);
static void check_padding(void);

static void __attribute__((noreturn))
finish(int status, int code, const char *fmt, ...)
{
	va_list a;
	R->status = status;
	R->code = code;
	va_start(a, fmt);
	vsnprintf(R->why, sizeof(R->why), fmt, a);
	va_end(a);
	R->pos = pos;
	_exit(0);
}

void
__sanitizer_cov_trace_pc(void)
{
	if (R && ++R->steps > stepmax) finish(S_STUCK, 0, "more than %llu steps", (unsigned long long)stepmax);
}

/* allocator: every block on its own pages, against a guard page, freed pages never reused */
#define ARENA ((char *)0x200000000000)
#define ARENASZ (64ull << 30)
#define MAXBLK 200000
struct blk { char *p; size_t n; size_t map; int live; size_t room; };   /* room: what it can grow to in place */
#define BIG (128u << 10)
static struct blk *blk;
static size_t nblk, nliveblk;
static u64 livebytes;
static char *brk_;

static struct blk *
findblk(void *p)
{
	size_t lo = 0, hi = nblk;   /* addresses only grow */
	while (lo < hi) {
		size_t m = (lo + hi) / 2;
		if (blk[m].p < (char *)p) lo = m + 1; else hi = m;
	}
	return lo < nblk && blk[lo].p == p ? &blk[lo] : NULL;
}

static void
check_blk(struct blk *b, const char *when)
{
	size_t slack = b->room ? b->room + 64 - b->n : ((b->n + 15) & ~(size_t)15) - b->n;
	if (slack > 64) slack = 64;
	for (size_t i = 0; i < slack; i++)
		if ((unsigned char)b->p[b->n + i] != 0xcb) finish(S_BADMEM, 0, "write past a block of %zu bytes, found %s", b->n, when);
	for (size_t i = 1; i <= 64; i++)
		if ((unsigned char)b->p[-(long)i] != 0xcb) finish(S_BADMEM, 0, "write before a block of %zu bytes, found %s", b->n, when);
}

static void
check_live_blocks(void)
{
	for (size_t i = 0; i < nblk; i++) if (blk[i].live) check_blk(&blk[i], "later");
}

static bool
refused(size_t n)
{
	long k = ++nalloc;
	bool r = false;
	for (int i = 0; i < P->nf; i++) {
		struct fault *f = &P->f[i];
		if (f->what == F_ALLOC && k >= f->at && (f->count < 0 || k < f->at + f->count)) r = true;
	}
	if (n > (1u << 30) || nliveblk > 20000 || nblk >= MAXBLK) r = true;
	if (R->nal < ALMAX) R->al[R->nal++] = (struct al){ n, pos, r };
	if (r) {
		R->nrefused++;
		if (grows_ && !inline_) R->ngrowrefused++;
		errno = ENOMEM;
	}
	return r;
}

static void *
getblk(size_t n)
{
	size_t room = n > BIG ? n + n / 4 : 0, u = ((room ? room + 64 : n) + 15) & ~(size_t)15, map = (u + 64 + 4095) & ~(size_t)4095;
	char *m = brk_ + 4096;
	if (mprotect(m, map, PROT_READ | PROT_WRITE)) finish(S_STUCK, 0, "simulator out of memory");
	brk_ = m + map;
	char *p = brk_ - u;
	memset(p - 64, 0xcb, 64);
	memset(p, P->poison, n);
	memset(p + n, 0xcb, u - n < 64 ? u - n : 64);
	blk[nblk++] = (struct blk){ p, n, map, 1, room };
	nliveblk++;
	livebytes += n;
	return p;
}

static void
putblk(struct blk *b)
{
	char *m = (char *)((uintptr_t)(b->p - 64) & ~(uintptr_t)4095);
	check_blk(b, "when it was released");
	b->live = 0;
	nliveblk--;
	livebytes -= b->n;
	mprotect(m, b->map, PROT_NONE);
	madvise(m, b->map, MADV_DONTNEED);
}

static struct blk *
own(void *p, const char *what)
{
	if ((char *)p < ARENA || (char *)p >= ARENA + ARENASZ) return NULL;
	struct blk *b = findblk(p);
	if (!b) finish(S_BADMEM, 0, "%s of a pointer that was not allocated", what);
	if (!b->live) finish(S_BADMEM, 0, "%s of a block that was released before", what);
	return b;
}

void *sim_malloc(size_t n) { return refused(n) ? NULL : getblk(n); }
void sim_free(void *p)
{
	int e = errno;
	if (!p) return;
	struct blk *b = own(p, "free");
	if (b) putblk(b); else free(p);
	errno = e;
}
void *sim_calloc(size_t a, size_t b)
{
	size_t n;
	if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; }
	void *p = sim_malloc(n);
	if (p) memset(p, 0, n);
	return p;
}
static void *
realloc_(void *p, size_t n)
{
	if (!p) return sim_malloc(n);
	struct blk *b = own(p, "realloc");
	if (!b) return realloc(p, n);
	if (!n) { putblk(b); return NULL; }
	if (refused(n)) return NULL;
	if (b->room && n > b->n && n <= b->room) {
		/* big blocks grow in place now and then, copying each time would take too long */
		check_blk(b, "when it was enlarged");
		memset(b->p + b->n, P->poison, n - b->n);
		memset(b->p + n, 0xcb, 64);
		livebytes += n - b->n;
		b->n = n;
		return p;
	}
	void *q = getblk(n);
	memcpy(q, p, b->n < n ? b->n : n);
	putblk(b);
	return q;
}
void *sim_realloc(void *p, size_t n)
{
	grows_ = 1;
	void *r = realloc_(p, n);
	grows_ = 0;
	return r;
}
void *sim_reallocarray(void *p, size_t a, size_t b)
{
	size_t n;
	if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; }
	return sim_realloc(p, n);
}
void *sim_aligned_alloc(size_t al, size_t n) { (void)al; return sim_malloc(n); }
int sim_posix_memalign(void **r, size_t al, size_t n) { (void)al; void *p = sim_malloc(n); if (!p) return ENOMEM; *r = p; return 0; }
char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = sim_malloc(n); return p ? memcpy(p, s, n) : NULL; }
char *sim_strndup(const char *s, size_t k) { size_t n = strnlen(s, k); char *p = sim_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
int sim_vasprintf(char **r, const char *f, va_list a)
{
	va_list b;
	va_copy(b, a);
	int n = vsnprintf(NULL, 0, f, b);
	va_end(b);
	if (n < 0 || !(*r = sim_malloc(n + 1))) return -1;
	return vsnprintf(*r, n + 1, f, a);
}
int sim_asprintf(char **r, const char *f, ...) { va_list a; va_start(a, f); int n = sim_vasprintf(r, f, a); va_end(a); return n; }
static ssize_t getdelim_(char **lp, size_t *n, int d, FILE *fp)
{
	size_t k = 0;
	int c;
	if (!lp || !n || !fp) { errno = EINVAL; return -1; }
	if (!*lp || !*n) {
		if (!(*lp = sim_realloc(*lp, 120))) return -1;
		*n = 120;
	}
	while ((c = getc(fp)) != EOF) {
		if (k + 2 > *n) {
			char *q = sim_realloc(*lp, *n * 2);
			if (!q) return -1;
			*lp = q;
			*n *= 2;
		}
		(*lp)[k++] = c;
		if (c == d) break;
	}
	if (!k) return -1;
	(*lp)[k] = 0;
	return k;
}
ssize_t sim_getdelim(char **lp, size_t *n, int d, FILE *fp)
{
	inline_ = 1;
	ssize_t r = getdelim_(lp, n, d, fp);
	inline_ = 0;
	return r;
}
ssize_t sim_getline(char **lp, size_t *n, FILE *fp) { return sim_getdelim(lp, n, '\n', fp); }

/* virtual descriptors */
static int closed_[3];
static ssize_t
vread(void *buf, size_t want)
{
	if (closed_[0]) finish(S_STUCK, 0, "reads from standard input whose descriptor it has closed");
	if (forced_flush) fflush(stdout);
	if (R->nrd >= RDMAX - 2) finish(S_LIMIT, 0, "too many reads");
	vclock += 1000 * (1 + R->nrd % 977);
	struct rd *r = &R->rd[R->nrd++];
	*r = (struct rd){ pos, 0, R->nout, R->nerr, nalloc, nliveblk, livebytes };
	size_t lim = ninput;
	for (int i = 0; i < P->nf; i++) {
		struct fault *f = &P->f[i];
		if (f->what != F_READ || !f->count) continue;
		if (f->at == (long)pos) {
			if (f->count > 0) f->count--;
			R->fired[f->kind]++;
			if (f->kind == K_EOF) {
				if (++R->eofs > 1000) finish(S_STUCK, 0, "reads on after the end of input for ever");
				return r->ret = 0;
			}
			if (R->fired[f->kind] > 1000) finish(S_STUCK, 0, "repeats a failing read for ever");
			errno = kinderr[f->kind];
			r->ret = -errno;
			return -1;
		}
		if (f->at > (long)pos && (size_t)f->at < lim) lim = f->at;
	}
	if (pos >= ninput) {
		if (++R->eofs > 1000) finish(S_STUCK, 0, "reads on after the end of input for ever");
		return r->ret = 0;
	}
	if (!chleft) {
		u32 c = P->ch[chi++ % P->nch];
		if (!c) {
			char *e = memchr(input + pos, '\n', ninput - pos);
			c = e ? e - (input + pos) + 1 : ninput - pos;
		}
		chleft = c;
	}
	size_t n = chleft;
	if (n > want) n = want;
	if (n > lim - pos) n = lim - pos;
	memcpy(buf, input + pos, n);
	pos += n;
	chleft -= n;
	return r->ret = n;
}

static ssize_t
vwrite(int s, const void *buf, size_t want)
{
	char *o = s == 2 ? R->err : R->out;
	u32 *no = s == 2 ? &R->nerr : &R->nout;
	size_t n = want;
	if (R->nwr >= WRMAX - 2) finish(S_LIMIT, 0, "too many writes");
	struct wr *w = &R->wr[R->nwr++];
	*w = (struct wr){ s, want, 0, *no };
	long k = ++wcalls[s];
	if (closed_[s]) finish(S_STUCK, 0, "writes to a standard stream whose descriptor it has closed");
	for (int i = 0; i < P->nf; i++) {
		struct fault *f = &P->f[i];
		if (f->what != F_WRITE || f->stream != s || k < f->at || (f->count >= 0 && k >= f->at + f->count)) continue;
		R->fired[f->kind]++;
		if (f->kind == K_SHORT) {
			size_t m = (size_t)f->n < want ? (size_t)f->n : want;
			if (!m) m = 1;
			if (m < n) n = m;
			continue;
		}
		if (f->kind == K_SIGPIPE) {
			struct sigaction sa;
			sigaction(SIGPIPE, NULL, &sa);
			if (sa.sa_handler == SIG_DFL) finish(S_SIGPIPE, 0, "SIGPIPE");
			if (sa.sa_handler != SIG_IGN) raise(SIGPIPE);
		}
		if (R->fired[f->kind] > 20000) finish(S_STUCK, 0, "repeats a failing write for ever");
		errno = kinderr[f->kind];
		w->ret = -errno;
		return -1;
	}
	if (*no + n > 65536 + 2000 * (u64)ninput) finish(S_STUCK, 0, "endless output");
	if (*no + n > OUTMAX) finish(S_LIMIT, 0, "too much output");
	memcpy(o + *no, buf, n);
	*no += n;
	w->ret = n;
	return n;
}

static ssize_t ck_read(void *c, char *b, size_t n) { (void)c; return vread(b, n); }
static ssize_t
ck_write(void *c, const char *b, size_t n)
{
	/* what _IO_new_file_write does with write(2) */
	size_t done = 0;
	while (done < n) {
		ssize_t k = vwrite((int)(intptr_t)c, b + done, n - done);
		if (k < 0) break;
		done += k;
	}
	return done;
}
static FILE *fin, *fout, *ferr_;
ssize_t sim_read(int fd, void *b, size_t n) { if (fd == 0) return vread(b, n); if (fd > 2) return read(fd, b, n); errno = EBADF; return -1; }
ssize_t sim_write(int fd, const void *b, size_t n) { if (fd == 1 || fd == 2) return vwrite(fd, b, n); if (fd > 2) return write(fd, b, n); errno = EBADF; return -1; }
ssize_t sim_writev(int fd, const struct iovec *v, int k)
{
	ssize_t r, n = 0;
	for (int i = 0; i < k; i++) {
		if (!v[i].iov_len) continue;
		r = sim_write(fd, v[i].iov_base, v[i].iov_len);
		if (r < 0) return n ? n : -1;
		n += r;
		if ((size_t)r < v[i].iov_len) break;
	}
	return n;
}
int sim_close(int fd) { if (fd < 0 || fd > 2) return close(fd); if (closed_[fd]) { errno = EBADF; return -1; } closed_[fd] = 1; return 0; }
int sim_vdprintf(int fd, const char *f, va_list a)
{
	char t[4096];
	int n = vsnprintf(t, sizeof(t), f, a);
	return n < 0 ? n : sim_write(fd, t, n < (int)sizeof(t) ? n : (int)sizeof(t) - 1);
}
int sim_dprintf(int fd, const char *f, ...) { va_list a; va_start(a, f); int n = sim_vdprintf(fd, f, a); va_end(a); return n; }
long sim_syscall(long k, long a, long b, long c, long d, long e, long f)
{
	switch (k) {
	case SYS_read: return sim_read(a, (void *)b, c);
	case SYS_write: return sim_write(a, (void *)b, c);
	case SYS_close: return sim_close(a);
	}
	return syscall(k, a, b, c, d, e, f);
}
/* mapped memory comes from where all other does */
void *sim_mmap(void *p, size_t n, int prot, int fl, int fd, off_t o)
{
	if (p || !(fl & MAP_ANONYMOUS) || !(fl & MAP_PRIVATE) || !n || (prot & PROT_EXEC)) return mmap(p, n, prot, fl, fd, o);
	n = (n + 4095) & ~4095ul;
	p = sim_malloc(n);
	return p ? memset(p, 0, n) : MAP_FAILED;
}
int sim_munmap(void *p, size_t n)
{
	if ((char *)p < ARENA || (char *)p >= ARENA + ARENASZ) return munmap(p, n);
	sim_free(p);
	return 0;
}
int sim_isatty(int fd) { if (fd >= 0 && fd <= 2 && P->tty) return 1; errno = fd >= 0 && fd <= 2 ? ENOTTY : EBADF; return 0; }
int sim_fileno(FILE *f) { return f == fin ? 0 : f == fout ? 1 : f == ferr_ ? 2 : fileno(f); }
time_t sim_time(time_t *t) { time_t v = 1700000000 + vclock / 1000; if (t) *t = v; return v; }
clock_t sim_clock(void) { return vclock; }
/* no two readings are alike, and no digit of them is always the same */
static u64 ticks(void) { vclock++; return vclock * 1000003; }
int sim_clock_gettime(clockid_t c, struct timespec *t) { u64 v = ticks(); (void)c; t->tv_sec = 1700000000 + v / 1000000000; t->tv_nsec = v % 1000000000; return 0; }
int sim_gettimeofday(struct timeval *t, void *z) { u64 v = ticks() / 1000; (void)z; t->tv_sec = 1700000000 + v / 1000000; t->tv_usec = v % 1000000; return 0; }
unsigned sim_sleep(unsigned s) { vclock += s * 1000ull; return 0; }
int sim_usleep(unsigned s) { vclock += s / 1000; return 0; }
int sim_nanosleep(const struct timespec *a, struct timespec *b) { (void)b; vclock += a->tv_sec * 1000; return 0; }
char *sim_getenv(const char *n) { (void)n; return NULL; }

static void __attribute__((noreturn))
orderly(int status, int code)
{
	R->live = livebytes;
	R->nlive = nliveblk;
	for (int i = 0; i < nexitfn; i++) exitfn[nexitfn - 1 - i]();
	check_live_blocks();
	if (P->variant == 3) check_padding();
	fflush(stdout);
	if (stdout != fout) fflush(fout);
	fflush(stderr);
	finish(status, code, "");
}
void sim_exit(int c) { orderly(S_EXIT, c); }
void sim__exit(int c) { R->live = livebytes; R->nlive = nliveblk; finish(S_EXIT, c, ""); }
void sim_abort(void) { finish(S_ABORT, 0, "abort"); }
void sim___stack_chk_fail(void) { finish(S_BADMEM, 0, "write past a local array"); }
int sim_atexit(void (*f)(void)) { if (nexitfn < 32) exitfn[nexitfn++] = f; return 0; }

/* ------------------------------------------------------------------ stacks of our own, at fixed places */
#define CSTK ((char *)0x300000000000)
#define CSTKSZ (9ul << 20)
#define MSTK ((char *)0x310000000000)
#define MSTKSZ (1ul << 20)
void on_stack(void *top, void (*f)(void *), void *a);
__asm__(".text\n.globl on_stack\n.type on_stack,@function\non_stack:\n\tpush %rbp\n\tmov %rsp,%rbp\n\tmov %rdi,%rsp\n\tmov %rdx,%rdi\n\tcall *%rsi\n"
        "\tmov %rbp,%rsp\n\tpop %rbp\n\tret\n.size on_stack,.-on_stack");
static void
stacks(void)
{
	if (mmap(CSTK, CSTKSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != CSTK ||
	    mmap(MSTK, MSTKSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != MSTK) { perror("stacks"); exit(2); }
}

/* ------------------------------------------------------------------ checked accesses (build variant 3) */
#define SHADOW(a) ((signed char *)(((uintptr_t)(a) >> 3) + 0x100000000000))
extern char __executable_start[], _end[];
struct asan_global { char *beg; size_t size, full; const char *name, *module; size_t dyn; void *loc, *odr; };
static struct { struct asan_global *g; size_t n; } gl[4096];
static size_t ngl;
static bool shadowed;
void __asan_register_globals(struct asan_global *g, size_t n) { if (ngl < 4096) gl[ngl].g = g, gl[ngl++].n = n; }
void __asan_unregister_globals(struct asan_global *g, size_t n) { (void)g; (void)n; }
void __asan_handle_no_return(void) {}
static void
shadow_range(uintptr_t a, uintptr_t e)
{
	char *m = (char *)((uintptr_t)SHADOW(a) & ~(uintptr_t)4095), *z = (char *)(((uintptr_t)SHADOW(e) + 4095) & ~(uintptr_t)4095);
	if (mmap(m, z - m, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != m) { perror("shadow"); exit(2); }
}
static void
shadows(void)
{
	shadow_range((uintptr_t)__executable_start, (uintptr_t)_end);
	shadow_range((uintptr_t)CSTK, (uintptr_t)CSTK + CSTKSZ);
	for (size_t i = 0; i < ngl; i++)
		for (size_t k = 0; k < gl[i].n; k++) {
			struct asan_global *g = &gl[i].g[k];
			size_t up = (g->size + 7) & ~(size_t)7;
			if (g->size & 7) *SHADOW(g->beg + g->size) = g->size & 7;
			for (size_t j = up; j < g->full; j += 8) *SHADOW(g->beg + j) = (signed char)0xf9;
		}
	shadowed = true;
}
static void
ascheck(uintptr_t a, size_t n, const char *what)
{
	if (!R || !shadowed || !n) return;
	if (!((a >= (uintptr_t)__executable_start && a + n <= (uintptr_t)_end) || (a >= (uintptr_t)CSTK && a + n <= (uintptr_t)CSTK + CSTKSZ))) return;
	for (uintptr_t b = a & ~(uintptr_t)7; b < a + n; b += 8) {
		signed char s = *SHADOW(b);
		if (!s) continue;
		uintptr_t last = a + n - 1 < b + 7 ? a + n - 1 : b + 7;
		if (s < 0 || (signed char)(last & 7) >= s) {
			char nm[64] = "an object";
			for (size_t i = 0; i < ngl; i++)
				for (size_t k = 0; k < gl[i].n; k++)
					if (a >= (uintptr_t)gl[i].g[k].beg && a < (uintptr_t)gl[i].g[k].beg + gl[i].g[k].full) snprintf(nm, sizeof(nm), "%s", gl[i].g[k].name);
			if (a >= (uintptr_t)CSTK && a < (uintptr_t)CSTK + CSTKSZ) strcpy(nm, "a local object");
			finish(S_BADMEM, 0, "%s of %zu bytes outside %s", what, n, nm);
		}
	}
}
#define AS(n) void __asan_load##n##_noabort(uintptr_t a) { ascheck(a, n, "read"); } void __asan_store##n##_noabort(uintptr_t a) { ascheck(a, n, "write"); }
AS(1) AS(2) AS(4) AS(8) AS(16)
void __asan_loadN_noabort(uintptr_t a, size_t n) { ascheck(a, n, "read"); }
void __asan_storeN_noabort(uintptr_t a, size_t n) { ascheck(a, n, "write"); }
void __asan_poison_stack_memory(uintptr_t a, size_t n) { for (size_t i = 0; i + 8 <= n; i += 8) *SHADOW(a + i) = (signed char)0xf8; if (n & 7) *SHADOW(a + n) = (signed char)0xf8; }
void __asan_unpoison_stack_memory(uintptr_t a, size_t n) { for (size_t i = 0; i + 8 <= n; i += 8) *SHADOW(a + i) = 0; if (n & 7) *SHADOW(a + n) = n & 7; }
void __asan_alloca_poison(uintptr_t a, size_t n) { (void)a; (void)n; }
void __asan_allocas_unpoison(uintptr_t a, uintptr_t b) { (void)a; (void)b; }
/* what the C library wrote past a global shows in the padding behind it */
static void
check_padding(void)
{
	for (size_t i = 0; i < ngl; i++)
		for (size_t k = 0; k < gl[i].n; k++)
			for (size_t j = gl[i].g[k].size; j < gl[i].g[k].full; j++)
				if (gl[i].g[k].beg[j]) finish(S_BADMEM, 0, "write past the object %s, found at the end", gl[i].g[k].name);
}

int calc_main(void), vz_calc_main(void), vp_calc_main(void), va_calc_main(void);
static void
calc_entry(void *a)
{
	*(int *)a = P->variant == 1 ? vz_calc_main() : P->variant == 2 ? vp_calc_main() : P->variant == 3 ? va_calc_main() : calc_main();
}
static char ibuf[1 << 17], obuf[1 << 17];
static char altstack[65536];

static void
on_crash(int sig, siginfo_t *si, void *u)
{
	(void)u;
	char *a = si->si_addr;
	const char *w = "";
	if (sig == SIGSEGV && a >= ARENA && a < ARENA + ARENASZ) {
		w = " outside any block";
		for (size_t i = 0; i < nblk; i++) {
			char *m = (char *)((uintptr_t)(blk[i].p - 64) & ~(uintptr_t)4095);
			if (a >= m && a < m + blk[i].map && !blk[i].live) w = " inside a released block";
		}
	} else if (sig == SIGSEGV && (uintptr_t)a < 4096) w = " at a null pointer", R->nullcrash = 1;
	if (sig == SIGVTALRM) finish(S_STUCK, 0, "no progress");
	finish(S_CRASH, sig, "signal %d (%s)%s", sig, strsignal(sig), w);
}

static void
child(void)
{
	cookie_io_functions_t ri = { ck_read, NULL, NULL, NULL }, wi = { NULL, ck_write, NULL, NULL };
	static const int sigs[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM, SIGTRAP };
	struct rlimit rl = { 0, 0 };
	setrlimit(RLIMIT_CORE, &rl);
	stack_t ss = { .ss_sp = altstack, .ss_size = sizeof(altstack) };
	sigaltstack(&ss, NULL);
	for (size_t i = 0; i < sizeof(sigs) / sizeof(*sigs); i++) {
		struct sigaction sa = { .sa_sigaction = on_crash, .sa_flags = SA_SIGINFO | SA_ONSTACK };
		sigaction(sigs[i], &sa, NULL);
	}
	struct itimerval it = { { 0, 0 }, { 20, 0 } };
	setitimer(ITIMER_VIRTUAL, &it, NULL);
	brk_ = ARENA;
	blk = mmap(NULL, MAXBLK * sizeof(*blk), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	fin = fopencookie((void *)0, "r", ri);
	fout = fopencookie((void *)1, "w", wi);
	ferr_ = fopencookie((void *)2, "w", wi);
	static const int bufm[] = { _IOFBF, _IOLBF, _IONBF };
	u32 is = P->insize, os = P->outsize;
	if (is < 1) is = 1;
	if (os < 1) os = 1;
	if (is > sizeof(ibuf)) is = sizeof(ibuf);
	if (os > sizeof(obuf)) os = sizeof(obuf);
	setvbuf(fin, P->inmode == B_NONE ? NULL : ibuf, bufm[P->inmode], is);
	setvbuf(fout, P->outmode == B_NONE ? NULL : obuf, bufm[P->outmode], os);
	setvbuf(ferr_, NULL, _IONBF, 0);
	stdin = fin;
	stdout = fout;
	stderr = ferr_;
	errno = 0;
	int rc = 0;
	/* on a stack whose position and old contents belong to the plan */
	char *top = CSTK + CSTKSZ - 4096 - 16 * (P->poison & 0x7f);
	memset(top - 12288, P->poison, 12288);
	on_stack(top, calc_entry, &rc);
	orderly(S_RETURN, rc);
}

static u64 nsessions;

/* one simulated session of plan p, recorded in r */
static void
session(struct plan *p, struct rec *r, int flush)
{
	memset(r, 0, offsetof(struct rec, rd));
	expand(p);
	nsessions++;
	fflush(stdout);
	pid_t c = fork();
	if (c < 0) { perror("fork"); exit(2); }
	if (!c) {
		static struct plan q;
		q = *p;
		P = &q;
		R = r;
		pos = 0;
		forced_flush = flush;
		stepmax = 3000000 + 4000ull * ninput;
		child();
	}
	int st;
	while (waitpid(c, &st, 0) < 0 && errno == EINTR) ;
	if (WIFSIGNALED(st)) {
		r->status = S_CRASH;
		snprintf(r->why, sizeof(r->why), "signal %d", WTERMSIG(st));
	} else if (r->status == S_NONE) {
		r->status = S_EXIT;
		r->oddend = 1;
	}
}

static u64
fnv(u64 h, const void *d, size_t n)
{
	const unsigned char *c = d;
	for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 0x100000001b3ull;
	return h;
}

static u64
hashrec(u64 h, const struct rec *r)
{
	h = fnv(h, r, offsetof(struct rec, rd));
	h = fnv(h, r->rd, r->nrd * sizeof(*r->rd));
	h = fnv(h, r->wr, r->nwr * sizeof(*r->wr));
	h = fnv(h, r->al, r->nal * sizeof(*r->al));
	h = fnv(h, r->out, r->nout);
	return fnv(h, r->err, r->nerr);
}

/* ------------------------------------------------------------------ judge */
struct res { char label; const char *v; u32 len; u32 end; };
static struct res *rl0, *rl1;

/* result lines of a transcript: a letter, a left arrow, a value, a newline */
static size_t
results(const char *o, size_t n, struct res **out)
{
	static const char arrow[] = " \xe2\x86\x90 ";
	size_t k = 0, cap = 1024, b = 0;
	struct res *l = realloc(*out, cap * sizeof(*l));
	while (b < n) {
		const char *e = memchr(o + b, '\n', n - b);
		if (!e) break;
		size_t ln = e - (o + b);
		for (size_t i = 0; i + 6 <= ln; i++) {
			const char *s = o + b + i;
			if (s[0] >= 'a' && s[0] <= 'z' && (i == 0 || s[-1] == ' ' || s[-1] == '>') && !memcmp(s + 1, arrow, 5)) {
				if (k == cap) l = realloc(l, (cap *= 2) * sizeof(*l));
				l[k++] = (struct res){ s[0], s + 6, ln - i - 6, (u32)(e - o) + 1 };
				break;
			}
		}
		b = e - o + 1;
	}
	*out = l;
	return k;
}

static size_t
errlines(const char *e, size_t n)
{
	size_t k = 0;
	for (size_t i = 0; i < n; i++) k += e[i] == '\n';
	return k + (n && e[n - 1] != '\n');
}

static bool same(const struct res *r, const struct outcome *o) { return r->label == o->label && r->len == strlen(o->text) && !memcmp(r->v, o->text, r->len); }

static void __attribute__((noreturn))
bad(const char *kind, const char *fmt, ...)
{
	va_list a;
	V->bad = 1;
	snprintf(V->kind, sizeof(V->kind), "%s", kind);
	va_start(a, fmt);
	vsnprintf(V->text, sizeof(V->text), fmt, a);
	va_end(a);
	for (char *c = V->text; *c; c++) if (*c == '\n') *c = ' ';
	V->done = 1;
	memcpy(V->cov, model_cov, sizeof(V->cov));
	_exit(0);
}

static void __attribute__((noreturn))
good(int unjudged)
{
	V->unjudged = unjudged;
	V->done = 1;
	memcpy(V->cov, model_cov, sizeof(V->cov));
	_exit(0);
}

static const char *
show(const char *s, size_t n)
{
	static char b[4][100];
	static int k;
	char *o = b[k++ % 4];
	size_t j = 0;
	for (size_t i = 0; i < n && j < 70; i++) {
		unsigned char c = s[i];
		if (c == '\n' && i + 1 == n) break;
		if (c < 32 || c > 126) j += sprintf(o + j, "\\x%02x", c); else o[j++] = c;
	}
	if (n > 70) j += sprintf(o + j, "..(%zu bytes)", n);
	o[j] = 0;
	return o;
}

/* input lines */
struct ln { const char *s; size_t n, b, e; };
static struct ln *lines;
static size_t nlines;
static void
split(void)
{
	size_t cap = 256, b = 0;
	lines = malloc(cap * sizeof(*lines));
	nlines = 0;
	while (b < ninput) {
		char *e = memchr(input + b, '\n', ninput - b);
		size_t n = e ? (size_t)(e - (input + b)) + 1 : ninput - b;
		if (nlines == cap) lines = realloc(lines, (cap *= 2) * sizeof(*lines));
		lines[nlines++] = (struct ln){ input + b, n, b, b + n };
		b += n;
	}
}

/* the world of the model's library */
extern char mdl_d0[], mdl_d1[], mdl_b0[], mdl_b1[];
extern __thread char mdl_td0[], mdl_td1[], mdl_tb0[], mdl_tb1[];
static char *snap[4];
static struct { char *a; size_t n; } rg[4];
static void
model_world(void)
{
	char *a[4] = { mdl_d0, mdl_b0, mdl_td0, mdl_tb0 }, *e[4] = { mdl_d1, mdl_b1, mdl_td1, mdl_tb1 };
	for (int i = 0; i < 4; i++) {
		a[i] += 16;
		if (e[i] < a[i] || e[i] - a[i] > 1 << 24) { fprintf(stderr, "model data not found\n"); exit(2); }
		rg[i].a = a[i];
		rg[i].n = e[i] - a[i];
		snap[i] = malloc(rg[i].n + 1);
		memcpy(snap[i], a[i], rg[i].n);
	}
}
static void run1(void *c) { libcall_run(c); }
void
pristine(struct libcall *c)
{
	int e = errno;
	for (int i = 0; i < 4; i++) if (rg[i].n) memcpy(rg[i].a, snap[i], rg[i].n);
	memset(MSTK + MSTKSZ - 8192, 0, 4096);
	__asm__ volatile("fninit");
	errno = 0;
	on_stack(MSTK + MSTKSZ - 4096, run1, c);
	__asm__ volatile("fninit");
	unsigned mx = 0x1f80;
	__asm__ volatile("ldmxcsr %0" : : "m"(mx));
	errno = e;
}
void *mdl_malloc(size_t n) { return malloc(n); }
void *mdl_calloc(size_t a, size_t b) { return calloc(a, b); }
void *mdl_realloc(void *p, size_t n) { return realloc(p, n); }
void mdl_free(void *p) { (void)p; }
time_t mdl_time(time_t *t) { if (t) *t = 1600000000; return 1600000000; }
clock_t mdl_clock(void) { return 0; }
int mdl_clock_gettime(clockid_t c, struct timespec *t) { (void)c; t->tv_sec = 1600000000; t->tv_nsec = 0; return 0; }
int mdl_gettimeofday(struct timeval *t, void *z) { (void)z; t->tv_sec = 1600000000; t->tv_usec = 0; return 0; }
char *mdl_getenv(const char *n) { (void)n; return NULL; }
int mdl_rand(void) { return 1; }
long mdl_random(void) { return 1; }
ssize_t mdl_read(int fd, void *b, size_t n) { (void)fd; (void)b; (void)n; return 0; }
ssize_t mdl_write(int fd, const void *b, size_t n) { (void)fd; (void)b; return n; }
FILE *mdl_fopen(const char *f, const char *m) { (void)f; (void)m; return NULL; }
int mdl_open(const char *f, int fl, ...) { (void)f; (void)fl; return -1; }
void mdl_exit(int c) { bad("crash", "the library ends the process (exit %d) when called by itself for an operation of the session", c); }
void mdl__exit(int c) { mdl_exit(c); }
void mdl_abort(void) { bad("crash", "the library aborts when called by itself for an operation of the session"); }

static void
must_end(const struct rec *r)
{
	switch (r->status) {
	case S_CRASH: bad("crash", "the calculator crashed: %s, after %u of %zu bytes of input", r->why, r->pos, ninput);
	case S_ABORT: bad("crash", "the calculator aborted after %u of %zu bytes of input", r->pos, ninput);
	case S_BADMEM: bad("memory", "%s, after %u of %zu bytes of input", r->why, r->pos, ninput);
	case S_STUCK: bad("stuck", "the calculator does not end: %s, after %u of %zu bytes of input", r->why, r->pos, ninput);
	}
}

/* the listed defect Q_GROW: after a refused growth of the operand stack the next operand is written through a null pointer */
static bool
lost(const struct rec *r)
{
	return (quirk & Q_GROW) && r->status == S_CRASH && r->nullcrash && r->ngrowrefused;
}

/* the whole transcript against the model of the byte sequence */
static void
judge_sequence(const struct rec *r)
{
	static struct mach m;
	struct outcome o;
	size_t nr = results(r->out, r->nout, &rl0), ne = errlines(r->err, r->nerr), k = 0, exp = 0;
	mach_init(&m);
	for (size_t i = 0; i < nlines; i++) {
		mach_line(&m, lines[i].s, lines[i].n, &o);
		if (o.kind == O_RES) {
			if (k >= nr) bad("result", "line %zu '%s' must be answered %c = %s, there is no such result", i + 1, show(lines[i].s, lines[i].n), o.label, o.text);
			if (!same(&rl0[k], &o)) bad("result", "line %zu '%s' must be answered %c = %s, got %c = %s", i + 1, show(lines[i].s, lines[i].n), o.label, o.text, rl0[k].label, show(rl0[k].v, rl0[k].len));
			k++;
		} else if (o.kind == O_ERR) exp++;
	}
	if (k < nr) bad("result", "%zu results for %zu lines, %zu are due; the extra one is %c = %s", nr, nlines, k, rl0[k].label, show(rl0[k].v, rl0[k].len));
	if (ne != exp) bad("report", "%zu lines fail, %zu messages on the error stream", exp, ne);
}

/* marks: lengths of both streams when input after line i is asked for */
struct mark { u32 out, err; int reached, asked; };
static struct mark *marks;
static void
make_marks(const struct rec *r)
{
	size_t k = 0;
	marks = realloc(marks, (nlines + 1) * sizeof(*marks));
	for (size_t i = 0; i < nlines; i++) {
		while (k < r->nrd && r->rd[k].pos < lines[i].e) k++;
		if (k < r->nrd) marks[i] = (struct mark){ r->rd[k].out, r->rd[k].err, 1, 1 };
		else marks[i] = (struct mark){ r->nout, r->nerr, r->pos >= lines[i].e, 0 };
	}
}

/* what the calculator showed for line i alone */
static void
seg(const struct rec *r, size_t i, size_t *nr, struct res *first, size_t *ne)
{
	u32 a = i ? marks[i - 1].out : 0, b = marks[i].out, c = i ? marks[i - 1].err : 0, d = marks[i].err;
	*nr = results(r->out + a, b - a, &rl1);
	if (*nr) *first = rl1[0];
	*ne = errlines(r->err + c, d - c);
}

static bool
fits(const struct outcome *o, size_t nr, const struct res *f, size_t ne)
{
	if (o->kind == O_RES) return nr == 1 && same(f, o) && ne == 0;
	if (o->kind == O_ERR) return nr == 0 && ne == 1;
	return nr == 0 && ne == 0;
}

static bool
interactive(const struct rec *r)
{
	static struct mach m;
	struct outcome o;
	size_t nr, ne, tot = 0;
	struct res f;
	make_marks(r);
	mach_init(&m);
	for (size_t i = 0; i < nlines; i++) {
		mach_line(&m, lines[i].s, lines[i].n, &o);
		seg(r, i, &nr, &f, &ne);
		tot += nr;
		if ((o.kind == O_RES) != (nr == 1)) return false;
	}
	return true;
}

/* nothing but result lines from the first one on, unless the help is asked for */
static void
only_results(const struct rec *r)
{
	size_t b = 0, k = 0, nr = results(r->out, r->nout, &rl0);
	if (memchr(input, '?', ninput)) return;
	while (b < r->nout) {
		const char *e = memchr(r->out + b, '\n', r->nout - b);
		size_t z = e ? (size_t)(e - r->out) + 1 : r->nout;
		if (k < nr && rl0[k].end == z) k++;
		else if (k && e) bad("extra", "standard output has '%s' besides the results", show(r->out + b, z - b));
		b = z;
	}
}

static void
judge07(void)
{
	must_end(R0);
	judge_sequence(R0);
	only_results(R0);
	if (!interactive(R0)) good(1);
	struct mach m;
	struct outcome o;
	size_t nr, ne;
	struct res f;
	mach_init(&m);
	for (size_t i = 0; i < nlines; i++) {
		mach_line(&m, lines[i].s, lines[i].n, &o);
		seg(R0, i, &nr, &f, &ne);
		if (!fits(&o, nr, &f, ne))
			bad("report", "line %zu '%s' %s and got %zu results and %zu messages", i + 1, show(lines[i].s, lines[i].n),
			    o.kind == O_ERR ? "fails" : o.kind == O_RES ? "has a value" : "needs no answer", nr, ne);
	}
	good(0);
}

static void
judge08(void)
{
	must_end(R1);
	must_end(R0);
	if (!memchr(input, 0, ninput)) {
		judge_sequence(R1);
		judge_sequence(R0);
	}
	if (R0->nout != R1->nout || memcmp(R0->out, R1->out, R0->nout)) {
		u32 i = 0;
		while (i < R0->nout && i < R1->nout && R0->out[i] == R1->out[i]) i++;
		bad("delivery", "standard output differs from that of the same bytes delivered at once, first at byte %u of %u and %u", i, R0->nout, R1->nout);
	}
	if (R0->nerr != R1->nerr || memcmp(R0->err, R1->err, R0->nerr)) bad("delivery", "error stream differs from that of the same bytes delivered at once (%u and %u bytes)", R0->nerr, R1->nerr);
	good(0);
}

/* filled in by the runner: allocations made while reading line i, fault free; UINT32_MAX = unknown */
static u32 *readallocs, *allocstart;

static void
judge09(void)
{
	static struct mach S[64], N[64];
	size_t ns = 1, nn;
	struct outcome o;
	size_t nr, ne;
	struct res f;

	must_end(R1);
	if (!interactive(R1)) good(1);
	if (!lost(R0)) must_end(R0);
	make_marks(R0);
	mach_init(&S[0]);
	for (size_t i = 0; i < nlines; i++) {
		bool any = false, rdphase = false;
		if (lost(R0) && !marks[i].asked) break;   /* crashed in this line, judged up to here */
		for (u32 k = 0; k < R0->nal; k++) {
			if (!R0->al[k].refused) continue;
			u32 p = R0->al[k].pos;
			if (!(p > lines[i].b && p <= lines[i].e) && !(p == 0 && i == 0)) continue;
			any = true;
			if (p < lines[i].e || readallocs[i] == UINT32_MAX || k < allocstart[i] + readallocs[i]) rdphase = true;
		}
		seg(R0, i, &nr, &f, &ne);
		bool ended = R0->pos < lines[i].e || (!R0->eofs && R0->pos == lines[i].e);
		nn = 0;
		for (size_t s = 0; s < ns; s++) {
			struct mach m = S[s];
			mach_line(&m, lines[i].s, lines[i].n, &o);
			if (!(R0->pos < lines[i].e) && fits(&o, nr, &f, ne)) N[nn++] = m;
			if (any && nr == 0) {
				if (ne >= 1 || rdphase) {
					N[nn++] = S[s];
					int t = first_switch(lines[i].s, lines[i].n);
					if (t >= 0) {
						N[nn] = S[s];
						N[nn++].type = t;
					}
				}
			}
		}
		if (!nn) {
			struct mach m = S[0];
			mach_line(&m, lines[i].s, lines[i].n, &o);
			const char *wh = any ? rdphase ? "memory was refused while it was read" : "memory was refused while it was evaluated" : "no memory was refused for it";
			if (R0->pos < lines[i].e && !nr) bad("ended", "the calculator ended before line %zu although %s", i + 1, wh);
			if (nr) bad("wrong", "line %zu '%s' (%s) is due %s %s and got %c = %s (%zu results, %zu messages)", i + 1, show(lines[i].s, lines[i].n), wh,
			            o.kind == O_RES ? "the answer" : "no answer", o.kind == O_RES ? o.text : "", f.label, show(f.v, f.len), nr, ne);
			bad("dropped", "line %zu '%s' (%s) got no answer and %zu messages", i + 1, show(lines[i].s, lines[i].n), wh, ne);
		}
		/* states without repetition */
		ns = 0;
		for (size_t k = 0; k < nn; k++) {
			size_t j;
			for (j = 0; j < ns && memcmp(&S[j], &N[k], sizeof(S[0])); j++) ;
			if (j == ns && ns < 16) S[ns++] = N[k];
		}
		if (ended && (i + 1 < nlines || R0->pos < ninput || !R0->eofs)) {
			if (!rdphase) bad("ended", "the calculator ended at line %zu '%s' although no memory was refused while it was read", i + 1, show(lines[i].s, lines[i].n));
			good(0);
		}
	}
	good(0);
}

/* C10: alternatives at each read fault */
static struct res *obs;
static size_t nobs, nerrs;
static struct fault *rf[MAXF];
static int nrf;
static long budget;
static size_t deepest;

static bool
emit(struct mach *m, const char *s, size_t n, size_t *k, size_t *ne)
{
	struct outcome o;
	mach_line(m, s, n, &o);
	if (o.kind == O_RES) {
		if (*k >= nobs || !same(&obs[*k], &o)) return false;
		++*k;
		if (*k > deepest) deepest = *k;
	} else if (o.kind == O_ERR && ++*ne > nerrs) return false;
	return true;
}

/* explain the rest of the observation from input byte a on, with `part` pending */
static bool
explain(struct mach m, size_t a, int fi, char *part, size_t np, bool skip, size_t k, size_t ne)
{
	if (--budget < 0) return true;
	size_t lim = fi < nrf ? (size_t)rf[fi]->at : ninput;
	while (a < lim) {
		char *e = memchr(input + a, '\n', lim - a);
		size_t n = e ? (size_t)(e - (input + a)) + 1 : lim - a;
		if (!skip) memcpy(part + np, input + a, n), np += n;
		a += n;
		if (e) {
			if (!skip && !emit(&m, part, np, &k, &ne)) return false;
			np = 0;
			skip = false;
		}
	}
	bool last = fi >= nrf;
	/* end here, the fragment processed or not */
	if (k == nobs && ne == nerrs) return true;
	{
		struct mach c = m;
		size_t k2 = k, ne2 = ne;
		if (np && emit(&c, part, np, &k2, &ne2) && k2 == nobs && ne2 == nerrs) return true;
	}
	if (last || rf[fi]->count < 0) return false;
	char *cp = malloc(ninput + 1);
	bool r = false;
	/* seamless retry */
	memcpy(cp, part, np);
	r = explain(m, a, fi + 1, cp, np, skip, k, ne);
	if (!r && np) {
		struct mach c = m;
		size_t k2 = k, ne2 = ne;
		if (emit(&c, part, np, &k2, &ne2)) r = explain(c, a, fi + 1, cp, 0, skip, k2, ne2);   /* split */
		if (!r) r = explain(m, a, fi + 1, cp, 0, false, k, ne);                               /* fragment dropped */
		if (!r) r = explain(m, a, fi + 1, cp, 0, true, k, ne);                                /* line dropped */
	}
	free(cp);
	return r;
}

static int
cmpf(const void *a, const void *b)
{
	const struct fault *x = *(struct fault *const *)a, *y = *(struct fault *const *)b;
	return x->at < y->at ? -1 : x->at > y->at;
}

static void
accepted(const struct rec *r, int s, const char *t, size_t nt)
{
	/* positions of the transcript the accepted bytes may have reached */
	static unsigned char *cur, *nxt;
	const char *o = s == 2 ? r->err : r->out;
	cur = realloc(cur, nt + 1);
	nxt = realloc(nxt, nt + 1);
	memset(cur, 0, nt + 1);
	cur[0] = 1;
	bool gap = false;
	for (u32 i = 0; i < r->nwr; i++) {
		if (r->wr[i].stream != s) continue;
		if (r->wr[i].ret < 0) { gap = true; continue; }
		if (r->wr[i].ret == 0) continue;
		size_t n = r->wr[i].ret, reach = 0;
		const char *w = o + r->wr[i].at;
		if (gap) {
			size_t q = 0;
			while (q <= nt && !cur[q]) q++;
			memset(cur + q, 1, nt + 1 - q);
			gap = false;
		}
		memset(nxt, 0, nt + 1);
		for (size_t q = 0; q + n <= nt; q++) if (cur[q] && !memcmp(t + q, w, n)) nxt[q + n] = 1, reach++;
		if (!reach) bad(s == 2 ? "errout" : "out", "write %u of '%s' to %s is not the continuation of the fault-free transcript", i + 1, show(w, n), s == 2 ? "the error stream" : "standard output");
		unsigned char *x = cur; cur = nxt; nxt = x;
	}
}

static void
judge10(struct plan *p)
{
	struct mach m;
	must_end(R1);
	must_end(R0);
	nrf = 0;
	for (int i = 0; i < p->nf; i++) if (p->f[i].what == F_READ && (size_t)p->f[i].at <= ninput) rf[nrf++] = &p->f[i];
	qsort(rf, nrf, sizeof(*rf), cmpf);
	nobs = results(R1->out, R1->nout, &obs);
	nerrs = errlines(R1->err, R1->nerr);
	mach_init(&m);
	budget = 20000;
	deepest = 0;
	char *part = malloc(ninput + 1);
	if (!nrf) judge_sequence(R1);
	else if (!explain(m, 0, 0, part, 0, false, 0, 0))
		bad("read", "with %s at byte %ld the %zu results and %zu messages fit no account of the input; results agree up to number %zu", kindname[rf[0]->kind], rf[0]->at, nobs, nerrs, deepest);
	accepted(R0, 1, R1->out, R1->nout);
	accepted(R0, 2, R1->err, R1->nerr);
	/* a stream on which nothing failed is complete unless the calculator ended early */
	good(0);
}

static void
judge11(void)
{
	static struct mach m;
	struct outcome o;
	must_end(R1);
	must_end(R0);
	size_t nr = results(R0->out, R0->nout, &rl0), k = 0, exp = 0, li = 0, refcut = 0;
	size_t rk = 0, greet = 0, greetcut = 0;
	mach_init(&m);
	for (u32 i = 0; i < R0->nrd; i++) {
		const struct rd *d = &R0->rd[i];
		if (i && !d[-1].ret) break;   /* the end was seen, what follows awaits nothing */
		while (li < nlines && lines[li].e <= d->pos && input[lines[li].e - 1] == '\n') {
			mach_line(&m, lines[li].s, lines[li].n, &o);
			if (o.kind == O_RES) {
				if (k >= nr || !same(&rl0[k], &o) || rl0[k].end > d->out)
					bad("late", "more input is awaited while line %zu '%s' is not answered %c = %s", li + 1, show(lines[li].s, lines[li].n), o.label, o.text);
				k++;
			} else if (o.kind == O_ERR) exp++;
			li++;
		}
		if (!li) while (greet < R1->nrd && R1->rd[greet].pos == 0) {
			greetcut = R1->rd[greet++].out;
			while (greetcut && R1->out[greetcut - 1] != '\n') greetcut--;
		}
		size_t seen = 0;
		while (seen < nr && rl0[seen].end <= d->out) seen++;
		if (seen > k) bad("early", "%zu results shown for the first %zu lines, %zu are due", seen, li, k);
		size_t ne = errlines(R0->err, d->err);
		if (ne < exp) bad("late", "more input is awaited while %zu of %zu failures in the first %zu lines are reported", ne, exp, li);
		if (ne > exp) bad("early", "%zu messages for the first %zu lines, %zu are due", ne, li, exp);
		/* other text of the answers (help): what the flushed reference had by then, up to its last newline */
		while (rk < R1->nrd && R1->rd[rk].pos < (li ? lines[li - 1].e : 0)) rk++;
		if (rk < R1->nrd) {
			refcut = R1->rd[rk].out;
			while (refcut && R1->out[refcut - 1] != '\n') refcut--;
			if (refcut > greetcut && (d->out < refcut || memcmp(R0->out, R1->out, refcut))) bad("late", "more input is awaited while only %u of %zu bytes of the answers to the first %zu lines are out", d->out, refcut, li);
		}
	}
	good(0);
}

static void
judge12(struct plan *p)
{
	if (!lost(R0) && (R0->status == S_CRASH || R0->status == S_ABORT || R0->status == S_BADMEM)) must_end(R0);
	if (R0->status == S_STUCK) good(1);
	if (R0->eofs && (R0->status == S_RETURN || R0->status == S_EXIT) && R0->nlive > (quirk & Q_GROW ? R0->ngrowrefused : 0))
		bad("leak", "%" PRIu64 " bytes in %" PRIu64 " blocks are still held when the session has ended by end of input", R0->live, R0->nlive);
	int reps = p->repeat;
	if (reps >= 16) {
		u64 live[5] = { 0 };
		int got = 0, want[4] = { reps / 8, reps / 4, reps / 2, reps - 1 };
		for (int q = 0; q < 4; q++) {
			u32 k = 0;
			while (k < R0->nrd && R0->rd[k].pos < want[q] * p->n) k++;
			if (k < R0->nrd && R0->rd[k].pos == want[q] * p->n) live[q] = R0->rd[k].live, got++;
		}
		if (got == 4 && live[0] < live[1] && live[1] < live[2] && live[2] < live[3])
			bad("grow", "memory held between lines grows: %" PRIu64 ", %" PRIu64 ", %" PRIu64 ", %" PRIu64 " bytes after %d, %d, %d, %d repetitions of the same lines",
			    live[0], live[1], live[2], live[3], want[0], want[1], want[2], want[3]);
	}
	good(0);
}

/* ------------------------------------------------------------------ one plan */
static struct { u64 judged, unjudged, alloc, refused, reads, rdfault[NKIND], writes, steps, bytes, lines, ends[9], longest, eofs, spans; } st;
static unsigned char cov[NTYPE][128][8];

static u64
execute(struct plan *p)
{
	static struct plan q;
	u64 h = 0xcbf29ce484222325ull;
	static u32 *ra, *as_;
	session(p, R0, p->mode == 7 || p->mode == 9);
	h = hashrec(h, R0);
	R1->status = S_NONE;
	if (p->mode == 8) {
		q = *p;
		q.variant = 0; q.poison = 0xa5; q.inmode = q.outmode = B_FULL; q.insize = 8192; q.outsize = 4096;
		q.ch[0] = 1u << 30; q.nch = 1;
		session(&q, R1, 0);
		h = hashrec(h, R1);
	} else if (p->mode == 9) {
		q = *p;
		q.nf = 0;
		session(&q, R1, 1);
		expand(p);
		split();
		ra = realloc(ra, (nlines + 1) * sizeof(*ra));
		as_ = realloc(as_, (nlines + 1) * sizeof(*as_));
		for (size_t i = 0; i < nlines; i++) {
			ra[i] = UINT32_MAX;
			as_[i] = 0;
			bool any = false;
			for (u32 k = 0; k < R0->nal; k++) if (R0->al[k].refused && R0->al[k].pos == lines[i].e) any = true;
			if (!any) continue;
			/* the same session, this line blank and nothing refused from it on */
			u32 k = 0;
			while (k < R0->nrd && R0->rd[k].pos < lines[i].b) k++;
			if (k >= R0->nrd || R0->rd[k].pos != lines[i].b) continue;
			as_[i] = R0->rd[k].nalloc;
			q = *p;
			q.nf = 0;
			for (int j = 0; j < p->nf; j++) {
				if (p->f[j].what == F_ALLOC) {
					struct fault f = p->f[j];
					if (f.at > as_[i]) continue;
					if (f.count < 0 || f.at + f.count > as_[i] + 1) f.count = as_[i] + 1 - f.at;
					q.f[q.nf++] = f;
				} else q.f[q.nf++] = p->f[j];
			}
			q.text = malloc(p->n + 1);
			memcpy(q.text, p->text, p->n);
			q.repeat = 0;
			if (p->repeat > 1) { free(q.text); continue; }
			memset(q.text + lines[i].b, ' ', lines[i].n - 1);
			session(&q, R2, 1);
			for (k = 0; k < R2->nrd && R2->rd[k].pos < lines[i].e; k++) ;
			if (k < R2->nrd) ra[i] = R2->rd[k].nalloc - as_[i];
			free(q.text);
		}
		free(lines);
		lines = NULL;
		readallocs = ra;
		allocstart = as_;
		h = hashrec(h, R1);
	} else if (p->mode == 10) {
		q = *p;
		q.nf = 0;
		for (int i = 0; i < p->nf; i++) if (p->f[i].what != F_WRITE) q.f[q.nf++] = p->f[i];
		session(&q, R1, 0);
		h = hashrec(h, R1);
	} else if (p->mode == 11) {
		q = *p;
		q.ch[0] = 0; q.nch = 1;
		session(&q, R1, 1);
		h = hashrec(h, R1);
	}
	memset(V, 0, sizeof(*V));
	expand(p);
	fflush(stdout);
	pid_t c = fork();
	if (!c) {
		struct itimerval it = { { 0, 0 }, { 20, 0 } };
		setitimer(ITIMER_VIRTUAL, &it, NULL);
		/* what the model's library might print must not mix with anything */
		int null = open("/dev/null", O_RDWR);
		dup2(null, 0);
		dup2(null, 1);
		dup2(null, 2);
		split();
		if (R0->status == S_LIMIT || R1->status == S_LIMIT) good(1);
		switch (p->mode) {
		case 7: judge07();
		case 8: judge08();
		case 9: judge09();
		case 10: judge10(p);
		case 11: judge11();
		case 12: judge12(p);
		}
		good(1);
	}
	int s;
	while (waitpid(c, &s, 0) < 0 && errno == EINTR) ;
	if (!V->done) V->unjudged = 2;
	h = fnv(h, V, offsetof(struct verdict, cov));
	return h;
}

static void
account(const struct plan *p)
{
	if (V->unjudged) st.unjudged++; else st.judged++;
	st.alloc += R0->nal;
	st.refused += R0->nrefused;
	st.reads += R0->nrd;
	st.writes += R0->nwr;
	st.steps += R0->steps;
	st.bytes += R0->pos;
	st.eofs += R0->eofs > 0;
	for (int i = 0; i < NKIND; i++) st.rdfault[i] += R0->fired[i];
	for (size_t i = 0; i < p->n; i++) st.lines += p->text[i] == '\n';
	st.ends[R0->status]++;
	if (R0->pos > st.longest) st.longest = R0->pos;
	for (size_t i = 0; i < sizeof(cov); i++) ((unsigned char *)cov)[i] |= ((unsigned char *)V->cov)[i];
}

/*
 * Which of the listed defects (CALCSIM_KNOWN, from known-findings.txt) the
 * code under test shows. One that it does not show is not tolerated.
 */
static void
find_quirks(void)
{
	const char *k = getenv("CALCSIM_KNOWN");
	static struct plan p;
	if (!k) return;
	p.mode = 7;
	p.poison = 0xa5;
	p.insize = p.outsize = 4096;
	p.nch = 1;
	if (strstr(k, "root")) {
		p.n = 0;
		addstr(&p, "8 3.5 root\n7\n");
		session(&p, R0, 1);
		if (R0->status == S_RETURN && results(R0->out, R0->nout, &rl0) == 1 && !R0->nerr) quirk |= Q_ROOT;
	}
	if (strstr(k, "low")) {
		p.n = 0;
		addstr(&p, "-9223372036854775809\n");
		session(&p, R0, 1);
		if (R0->status == S_RETURN && results(R0->out, R0->nout, &rl0) == 1 && rl0[0].len == 20 && !memcmp(rl0[0].v, "-9223372036854775808", 20)) quirk |= Q_LOW;
	}
	if (strstr(k, "grow")) {
		p.n = 0;
		addstr(&p, "1 2 +\n1 2 3 + +\n5\n");
		/* refuse each of the first allocations in turn */
		for (long at = 1; at < 12 && !(quirk & Q_GROW); at++) {
			p.nf = 1;
			p.f[0] = (struct fault){ .what = F_ALLOC, .at = at, .count = 1 };
			session(&p, R0, 1);
			if (R0->ngrowrefused && R0->status == S_CRASH && R0->nullcrash) quirk |= Q_GROW;
		}
	}
}

/* ------------------------------------------------------------------ generation */
#include "calcgen.c"

int
main(int argc, char **argv)
{
	struct plan p;
	if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("CALCSIM_REEXEC") && personality(ADDR_NO_RANDOMIZE) != -1) {
		setenv("CALCSIM_REEXEC", "1", 1);
		execv("/proc/self/exe", argv);
	}
	unsetenv("CALCSIM_REEXEC");
	setvbuf(stdout, NULL, _IOLBF, 1 << 16);
	R0 = mmap(NULL, sizeof(struct rec) * 3, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	R1 = R0 + 1;
	R2 = R0 + 2;
	V = mmap(NULL, sizeof(*V), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (mmap(ARENA, ARENASZ, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != ARENA) { perror("arena"); return 2; }
	stacks();
	shadows();
	model_world();
	find_quirks();
	if (argc == 2 && !strcmp(argv[1], "quirks")) {
		printf("%s%s%s\n", quirk & Q_ROOT ? "root " : "", quirk & Q_LOW ? "low " : "", quirk & Q_GROW ? "grow " : "");
		return 0;
	}
	if (argc == 4 && !strcmp(argv[1], "literals")) return make_literals(argv[2], argv[3]);
	load_corpus();
	if (argc == 3 && !strcmp(argv[1], "exec")) {
		FILE *f = fopen(argv[2], "r");
		if (!f) { perror(argv[2]); return 2; }
		read_plan(f, &p);
		fclose(f);
		u64 h = execute(&p);
		printf("RESULT %s %s %016" PRIx64 " %s\n", V->bad ? "violated" : V->unjudged ? "unjudged" : "held", V->bad ? V->kind : "-", h, V->bad ? V->text : stname[R0->status]);
		if (getenv("CALCSIM_SHOW")) {
			printf("--- out\n%.*s\n--- err\n%.*s\n--- %s %s pos %u allocs %u refused %u live %" PRIu64 "\n", R0->nout, R0->out, R0->nerr, R0->err, stname[R0->status], R0->why, R0->pos, R0->nal, R0->nrefused, R0->live);
		}
		return 0;
	}
	if (argc == 5 && !strcmp(argv[1], "show")) {
		for (int i = 0; i < atoi(argv[4]); i++) {
			generate(&p, atoi(argv[2] + 1), strtoull(argv[3], NULL, 10), i);
			write_plan(stdout, &p);
			printf("----\n");
			free(p.text);
		}
		return 0;
	}
	if (argc == 7 && !strcmp(argv[1], "run")) {
		int mode = atoi(argv[2] + 1);
		u64 seed = strtoull(argv[3], NULL, 10), first = strtoull(argv[4], NULL, 10), count = strtoull(argv[5], NULL, 10);
		char fn[512];
		u64 detchecked = 0, detbad = 0, runs = 0;
		int nviol = 0;
		snprintf(fn, sizeof(fn), "%s/ih_0.bin", argv[6]);
		FILE *ih = fopen(fn, "w");
		for (u64 i = first; i < first + count && nviol < 3; i++) {
			generate(&p, mode, seed, i);
			u64 h = execute(&p);
			runs++;
			account(&p);
			fwrite(&h, 8, 1, ih);
			int isbad = V->bad;
			char text[400], kind[24];
			memcpy(text, V->text, sizeof(text));
			memcpy(kind, V->kind, sizeof(kind));
			if (isbad || i % 61 == 0) {
				u64 h2 = execute(&p);
				detchecked++;
				if (h2 != h) {
					detbad++;
					printf("NONDET run %" PRIu64 " %s\n", i, text);
					if (isbad) printf("UNREPRODUCED hash differs run %" PRIu64 "\n", i);
					isbad = 0;
				}
			}
			if (isbad) {
				snprintf(fn, sizeof(fn), "%s/v_%" PRIu64 ".plan", argv[6], i);
				FILE *o = fopen(fn, "w");
				fprintf(o, "# %s seed=%" PRIu64 " run=%" PRIu64 "\n", argv[2], seed, i);
				write_plan(o, &p);
				fclose(o);
				printf("VIOL %s %s %s\n", kind, fn, text);
				nviol++;
			}
			free(p.text);
		}
		fclose(ih);
		u64 nc = 0;
		for (size_t i = 0; i < sizeof(cov); i++) nc += ((unsigned char *)cov)[i];
		snprintf(fn, sizeof(fn), "%s/cov.bin", argv[6]);
		FILE *cf = fopen(fn, "w");
		fwrite(cov, sizeof(cov), 1, cf);
		fclose(cf);
		printf("STATS runs=%" PRIu64 " sessions=%" PRIu64 " judged=%" PRIu64 " unjudged=%" PRIu64 " detchecked=%" PRIu64 " detbad=%" PRIu64
		       " allocs=%" PRIu64 " refused=%" PRIu64 " reads=%" PRIu64 " writes=%" PRIu64 " steps=%" PRIu64 " bytes=%" PRIu64 " lines=%" PRIu64 " longest=%" PRIu64 " eofs=%" PRIu64,
		       runs, nsessions, st.judged, st.unjudged, detchecked, detbad, st.alloc, st.refused, st.reads, st.writes, st.steps, st.bytes, st.lines, st.longest, st.eofs);
		for (int i = 0; i < NKIND; i++) printf(" f_%s=%" PRIu64, kindname[i], st.rdfault[i]);
		for (int i = 1; i < 9; i++) printf(" end%d=%" PRIu64, i, st.ends[i]);
		printf("\n");
		return 0;
	}
	fprintf(stderr, "usage: calcsim exec PLAN | show MODE SEED N | run MODE SEED FIRST COUNT DIR\n");
	return 2;
}
