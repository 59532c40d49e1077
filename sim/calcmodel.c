/* Independent model of one calculator line: an RPN machine over the public library functions. */
#include <errno.h>
#include <inttypes.h>
#include <math.h>
#include <stdlib.h>
#include <string.h>

#include "takum.h"
#include "calcsim.h"

#define TYPES(X) X(0, takum8, TAKUM8_ONE, double, float64) X(1, takum16, TAKUM16_ONE, double, float64) \
	X(2, takum32, TAKUM32_ONE, double, float64) X(3, takum64, TAKUM64_ONE, double, float64) \
	X(4, takum_linear8, TAKUM_LINEAR8_ONE, double, float64) X(5, takum_linear16, TAKUM_LINEAR16_ONE, double, float64) \
	X(6, takum_linear32, TAKUM_LINEAR32_ONE, double, float64) X(7, takum_linear64, TAKUM_LINEAR64_ONE, long double, extended_float)

#define UNARY(X) X("abs", absolute) X("arccos", arccos) X("arccos_over_pi", arccos_over_pi) X("arccot", arccot) \
	X("arccot_over_pi", arccot_over_pi) X("arccsc", arccsc) X("arccsc_over_pi", arccsc_over_pi) X("arcosh", arcosh) \
	X("arcoth", arcoth) X("arcsch", arcsch) X("arcsec", arcsec) X("arcsec_over_pi", arcsec_over_pi) X("arcsin", arcsin) \
	X("arcsin_over_pi", arcsin_over_pi) X("arctan", arctan) X("arctan_over_pi", arctan_over_pi) X("arsech", arsech) \
	X("arsinh", arsinh) X("artanh", artanh) X("cos", cos) X("cos_pi_times", cos_pi_times) X("cosh", cosh) X("cot", cot) \
	X("cot_pi_times", cot_pi_times) X("coth", coth) X("csc", csc) X("csc_pi_times", csc_pi_times) X("csch", csch) \
	X("exp", exp) X("exp_minus_1", exp_minus_1) X("inv", inversion) X("lb", lb) X("lb_1_plus", lb_1_plus) X("lg", lg) \
	X("lg_1_plus", lg_1_plus) X("ln", ln) X("ln_1_plus", ln_1_plus) X("sec", sec) X("sec_pi_times", sec_pi_times) \
	X("sech", sech) X("sign", sign) X("sin", sin) X("sin_pi_times", sin_pi_times) X("sinh", sinh) X("sqrt", square_root) \
	X("tan", tan) X("tan_pi_times", tan_pi_times) X("tanh", tanh)
#define BINARY(X) X("+", addition) X("-", subtraction) X("*", multiplication) X("/", division) X("arctan2", arctan2) \
	X("arctan2_over_pi", arctan2_over_pi) X("hypotenuse", hypotenuse)

enum {
#define E(id, f) I_##f,
	UNARY(E) BINARY(E)
#undef E
	I_root, I_precision, I_power, NOP
};
static const char *const opname[] = {
#define E(id, f) id,
	UNARY(E) BINARY(E)
#undef E
	"root", "precision", "^"
};

static const char *const opfn[] = {
#define E(id, f) #f,
	UNARY(E) BINARY(E)
#undef E
	"root", "precision", "power"
};
const char *op_fn(int i) { return opfn[i]; }
int op_count(void) { return NOP; }
const char *op_name(int i) { return opname[i]; }
int op_arity(int i) { return i == I_root ? 3 : i == I_precision ? 4 : i == I_power ? 5 : i >= I_addition ? 2 : 1; }

static const char *const typenames[NTYPE] = {
#define E(i, T, one, F, ff) #T,
	TYPES(E)
#undef E
};
const char *type_name(int t) { return typenames[t]; }
int quirk;
unsigned char model_cov[NTYPE][128][8];

#define CONV(i, S) case i: switch (to) { \
	case 0: return (int64_t)CV(takum8, S); case 1: return (int64_t)CV(takum16, S); case 2: return (int64_t)CV(takum32, S); \
	case 3: return (int64_t)CV(takum64, S); case 4: return (int64_t)CV(takum_linear8, S); case 5: return (int64_t)CV(takum_linear16, S); \
	case 6: return (int64_t)CV(takum_linear32, S); case 7: return (int64_t)CV(takum_linear64, S); }
#define CV(T, S) T##_from_##S((S)x)
#define SAME(T) static inline T T##_from_##T(T x) { return x; }
SAME(takum8) SAME(takum16) SAME(takum32) SAME(takum64)
SAME(takum_linear8) SAME(takum_linear16) SAME(takum_linear32) SAME(takum_linear64)

/*
 * Each library call of the model is made as if it were the first one of a
 * process: on a stack of its own at a fixed place, with the library's data
 * as it was at the start.
 */
struct libcall {
	int what, op, t, to;
	int64_t x, y, r;
	long double v;
	const struct num *b;
};
static int64_t conv1(int from, int to, int64_t x);
static int64_t from_ld1(int t, long double v);
static long double to_ld1(int t, int64_t x);
static int64_t integral1(int t, int64_t x);
static int64_t call1(int op, int t, int64_t x, int64_t y, const struct num *b);
void
libcall_run(struct libcall *c)
{
	switch (c->what) {
	case 0: c->r = conv1(c->t, c->to, c->x); break;
	case 1: c->r = from_ld1(c->t, c->v); break;
	case 2: c->v = to_ld1(c->t, c->x); break;
	case 3: c->r = integral1(c->t, c->x); break;
	case 4: c->r = call1(c->op, c->t, c->x, c->y, c->b); break;
	}
}
static int64_t conv(int from, int to, int64_t x) { struct libcall c = { .what = 0, .t = from, .to = to, .x = x }; pristine(&c); return c.r; }
static int64_t from_ld(int t, long double v) { struct libcall c = { .what = 1, .t = t, .v = v }; pristine(&c); return c.r; }
static long double to_ld(int t, int64_t x) { struct libcall c = { .what = 2, .t = t, .x = x }; pristine(&c); return c.v; }
static int64_t integral(int t, int64_t x) { struct libcall c = { .what = 3, .t = t, .x = x }; pristine(&c); return c.r; }
long double model_value(int t, int64_t x) { return to_ld(t, x); }
int64_t model_pattern(int t, long double v) { return from_ld(t, v); }

static int64_t
conv1(int from, int to, int64_t x)
{
	switch (from) {
#define E(i, T, one, F, ff) CONV(i, T)
	TYPES(E)
#undef E
	}
	return 0;
}

static int64_t
as_type(const struct num *n, int t)
{
	return n->type == t ? n->bits : conv(n->type, t, n->bits);
}

static int64_t
from_ld1(int t, long double v)
{
	switch (t) {
#define E(i, T, one, F, ff) case i: return (int64_t)T##_from_extended_float(v);
	TYPES(E)
#undef E
	}
	return 0;
}

static long double
to_ld1(int t, int64_t x)
{
	switch (t) {
#define E(i, T, one, F, ff) case i: return T##_to_extended_float((T)x);
	TYPES(E)
#undef E
	}
	return 0;
}

/* the integer a computed value stands for, or INONE */
static int64_t
integral1(int t, int64_t x)
{
	switch (t) {
#define E(i, T, one, F, ff) case i: \
		if (i < 4) return x == 0 ? 0 : x == (int64_t)one ? 1 : x == -(int64_t)one ? -1 : INONE; \
		else { F v = T##_to_##ff((T)x); if (!(v >= -0x1p63L && v < 0x1p63L)) return INONE; return v == (F)(int64_t)v ? (int64_t)v : INONE; }
	TYPES(E)
#undef E
	}
	return INONE;
}

static struct num
mknum(int t, int64_t bits)
{
	struct num n = { t, bits, integral(t, bits) };
	return n;
}

static int64_t
call1(int op, int t, int64_t x, int64_t y, const struct num *b)
{
	switch (t) {
#define U(id, f) case I_##f: return (int64_t)TT(f)((TY)x);
#define B(id, f) case I_##f: return (int64_t)TT(f)((TY)x, (TY)y);
#define BODY switch (op) { UNARY(U) BINARY(B) \
		case I_root: return (int64_t)TT(root)((TY)x, b->ival); \
		case I_power: return (int64_t)(b->ival == INONE ? TT(power)((TY)x, (TY)y) : TT(integer_power)((TY)x, b->ival)); \
		case I_precision: return TT(precision)((TY)x); } break;
	case 0:
#define TY takum8
#define TT(f) takum8_##f
		BODY
#undef TY
#undef TT
	case 1:
#define TY takum16
#define TT(f) takum16_##f
		BODY
#undef TY
#undef TT
	case 2:
#define TY takum32
#define TT(f) takum32_##f
		BODY
#undef TY
#undef TT
	case 3:
#define TY takum64
#define TT(f) takum64_##f
		BODY
#undef TY
#undef TT
	case 4:
#define TY takum_linear8
#define TT(f) takum_linear8_##f
		BODY
#undef TY
#undef TT
	case 5:
#define TY takum_linear16
#define TT(f) takum_linear16_##f
		BODY
#undef TY
#undef TT
	case 6:
#define TY takum_linear32
#define TT(f) takum_linear32_##f
		BODY
#undef TY
#undef TT
	case 7:
#define TY takum_linear64
#define TT(f) takum_linear64_##f
		BODY
#undef TY
#undef TT
	}
	return 0;
}

static int64_t
call(int op, int t, const struct num *a, const struct num *b)
{
	struct libcall c = { .what = 4, .op = op, .t = t, .b = b };
	c.x = as_type(a, t);
	c.y = b ? as_type(b, t) : 0;
	pristine(&c);
	return op == I_precision ? from_ld(t, (long double)c.r) : c.r;
}

/* a literal: integer of any base the language knows first, then decimal */
static int
literal(const char *s, int t, struct num *n)
{
	char *e;
	long long i;
	long double v;

	n->type = t;
	n->ival = INONE;
	errno = 0;
	i = strtoll(s, &e, 0);
	if (*e == '\0') {
		if (i == INT64_MAX || (errno == ERANGE && !(quirk & Q_LOW))) {
			v = NAN;
		} else {
			v = (long double)i;
			n->ival = i;
		}
	} else {
		v = strtold(s, &e);
		if (*e != '\0') {
			return 1;
		}
		if (v == 0.0L || v == 1.0L || v == -1.0L) {
			n->ival = (int64_t)v;
		}
	}
	n->bits = from_ld(t, v);
	return 0;
}

void
mach_init(struct mach *m)
{
	memset(m, 0, sizeof(*m));
	m->type = 3;
}

static int
typeidx(const char *s)
{
	for (int i = 0; i < NTYPE; i++) {
		if (!strcmp(s, typenames[i])) {
			return i;
		}
	}
	return -1;
}

static void
print_num(const struct num *n, char *out, size_t sz)
{
	long double v;

	if (n->ival != INONE) {
		snprintf(out, sz, "%" PRId64, n->ival);
	} else if (isnan(v = to_ld(n->type, n->bits))) {
		snprintf(out, sz, "NaR");
	} else {
		snprintf(out, sz, "%Lg", v);
	}
}

int
first_switch(const char *s, size_t n)
{
	size_t i = 0;
	while (i < n) {
		while (i < n && (s[i] == ' ' || s[i] == '\n')) i++;
		size_t b = i;
		while (i < n && s[i] != ' ' && s[i] != '\n') i++;
		if (i > b && i - b < 20) {
			char w[24];
			memcpy(w, s + b, i - b);
			w[i - b] = 0;
			int t = typeidx(w);
			if (t >= 0) return t;
		}
	}
	return -1;
}

void
mach_line(struct mach *m, const char *s, size_t n, struct outcome *o)
{
	static struct num *st;
	static size_t cap;
	static char *buf;
	static size_t bcap;
	size_t sp = 0, i = 0, ntok = 0;

	o->kind = O_NONE;
	o->swtype = -1;
	if (n + 1 > bcap) {
		bcap = 2 * n + 256;
		buf = realloc(buf, bcap);
	}
	while (i < n) {
		while (i < n && (s[i] == ' ' || s[i] == '\n')) i++;
		size_t b = i;
		while (i < n && s[i] != ' ' && s[i] != '\n') i++;
		if (i == b) break;
		size_t len = i - b;
		memcpy(buf, s + b, len);
		buf[len] = 0;
		ntok++;
		if (sp + 2 > cap) {
			cap = 2 * cap + 64;
			st = realloc(st, cap * sizeof(*st));
		}
		if (len == 1 && buf[0] >= 'a' && buf[0] <= 'z') {
			st[sp++] = m->reg[buf[0] - 'a'];
			continue;
		}
		if (!strcmp(buf, "?")) return;
		int t = typeidx(buf);
		if (t >= 0) {
			m->type = t;
			o->swtype = t;
			return;
		}
		int op;
		for (op = 0; op < NOP && (buf[0] != opname[op][0] || strcmp(buf, opname[op])); op++) ;
		if (op == NOP) {
			if (literal(buf, m->type, &st[sp])) {
				o->kind = O_ERR;
				return;
			}
			sp++;
			continue;
		}
		int ar = op_arity(op);
		size_t need = (ar == 1 || ar == 4) ? 1 : 2;
		if (sp < need) {
			o->kind = O_ERR;
			model_cov[m->type][op][7] = 1;
			return;
		}
		struct num *a = &st[sp - need], *bb = need == 2 ? &st[sp - 1] : NULL;
		if (ar == 3 && bb->ival == INONE) {
			o->kind = quirk & Q_ROOT ? O_NONE : O_ERR;
			model_cov[m->type][op][6] = 1;
			return;
		}
		model_cov[m->type][op][(a->type == m->type ? 0 : 1) + (bb && bb->ival != INONE ? 2 : 0)] = 1;
		struct num r = mknum(m->type, call(op, m->type, a, bb));
		sp -= need;
		st[sp++] = r;
	}
	if (ntok == 0) return;
	if (sp != 1) {
		o->kind = O_ERR;
		return;
	}
	o->kind = O_RES;
	o->label = 'a' + m->next;
	print_num(&st[0], o->text, sizeof(o->text));
	m->reg[m->next] = st[0];
	m->next = (m->next + 1) % 26;
}
