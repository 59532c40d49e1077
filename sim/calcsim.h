/* Simulated session of the example calculator: shared declarations. */
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>

#define NTYPE 8
#define INONE INT64_MAX

/* ---- reference model (calcmodel.c) ---- */
struct num {
	int type;      /* takum type the value is kept in */
	int64_t bits;  /* pattern in that type, sign extended */
	int64_t ival;  /* exact integer or INONE */
};

struct mach {
	int type;
	int next;             /* register the next result goes to */
	struct num reg[26];
};

enum { O_NONE, O_RES, O_ERR };

struct outcome {
	int kind;
	char label;
	char text[72];
	int swtype;    /* type the line switches to when it is reached, or -1 */
};

void mach_init(struct mach *m);
void mach_line(struct mach *m, const char *s, size_t n, struct outcome *o);
int first_switch(const char *s, size_t n);
struct libcall;
void pristine(struct libcall *c);      /* calcsim.c */
void libcall_run(struct libcall *c);   /* calcmodel.c */
long double model_value(int t, int64_t x);
int64_t model_pattern(int t, long double v);
const char *op_fn(int i);
int op_count(void);
const char *op_name(int i);
int op_arity(int i);   /* 1, 2, 3 = integer second operand, 4 = precision, 5 = power */
const char *type_name(int t);
/* listed defects the code under test was seen to have (known-findings.txt, quirks() in calcsim.c) */
enum { Q_ROOT = 1, Q_LOW = 2, Q_GROW = 4 };
extern int quirk;
extern unsigned char model_cov[NTYPE][128][8];
