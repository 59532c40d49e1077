/* Generation of sessions, deliveries and faults (included by calcsim.c). */

static char tok[70000];

static const char *
gen_number(void)
{
	static const char *const ext[] = {
		"9223372036854775807", "9223372036854775806", "-9223372036854775808", "-9223372036854775809", "-9223372036854775807",
		"18446744073709551616", "9223372036854775808", "99999999999999999999999", "-99999999999999999999999", "0x7fffffffffffffff",
		"0x8000000000000000", "-0x8000000000000000", "0777777777777777777777", "0xffffffffffffffffff", "1.0", "-1.0", "0.0", "-0.0", "-0", "+0", "1e0",
		"0x1p0", "10e-1", "0x1p-1", "-0x1.8p3", "0x1.fffffffffffffffep0", "1.0000000001", "0.99999999999", "inf", "-inf", "nan", "NAN", "INFINITY",
		"-nan", "nan(12)", "1e5000", "-1e5000", "1e-5000", "1e-4940", "1e77", "1e-77", "-1e76", "1.7e38", "5e-324", "0.1", ".5", "5.", "-.25",
		"010", "-010", "0x10", "0", "1", "-1", "2147483647", "-2147483648", "4294967296", "255", "256", "127", "-128", "3.14159265358979323846",
		"2.718281828459045", "1e18", "1e19", "9007199254740993", "4611686018427387904", "1e+2", "00", "0e0", "-0x0p0", "6.5e4", "1E3"
	};
	u64 v;
	switch (rn(12)) {
	case 0: case 1: case 2: case 3:
		sprintf(tok, "%d", (int)rn(41) - 20);
		break;
	case 4:
		v = rnd() >> rn(64);
		sprintf(tok, "%s%" PRIu64, pct(50) ? "-" : "", v);
		break;
	case 5:
		v = rnd() >> (1 + rn(63));
		sprintf(tok, pct(50) ? "%s0x%" PRIx64 : "%s0%" PRIo64, pct(30) ? "-" : "", v);
		break;
	case 6: case 7: case 8:
		sprintf(tok, "%s%.*g", pct(5) ? "+" : "", 1 + (int)rn(17), ((double)(int64_t)rnd() / 9.2e18) * (pct(50) ? 1 : pct(50) ? 30 : 1000));
		break;
	case 9:
		sprintf(tok, "%s%d.%0*de%d", pct(40) ? "-" : "", (int)rn(10), 1 + (int)rn(9), (int)rn(100000), (int)rn(161) - 80);
		break;
	default:
		strcpy(tok, ext[rn(sizeof(ext) / sizeof(*ext))]);
	}
	return tok;
}

static const char *
gen_int(void)
{
	static const char *const e[] = { "0", "1", "-1", "2", "-2", "3", "9223372036854775806", "-9223372036854775808", "1e0", "-1.0", "64", "1000000007" };
	if (pct(30)) strcpy(tok, e[rn(sizeof(e) / sizeof(*e))]);
	else if (pct(80)) sprintf(tok, "%d", (int)rn(31) - 15);
	else sprintf(tok, "%s%" PRIu64, pct(50) ? "-" : "", rnd() >> (1 + rn(62)));
	return tok;
}

static const char *
gen_bad(void)
{
	static const char *const e[] = { "foo", "sinx", "SIN", "A", "takum7", "takum", "takum_linear128", "1x", "1e", "0x", "--1", "1..2", "aa", "ab", "z1", "%s%n%d",
		"%x%x%x%x", "%", "\x80\xff\xfe", "1,5", "e1", "++", "+-", "**", "^^", "=", "(", ")", "1+1", "2sqrt", "sqrt2", "arctan3", "logx", "ln_", "_", "Takum8", "takum08",
		"ln_1_plus_", "\\n", "\"", "'", "0x1pz", "nan(", "infi", "\xe2\x86\x90", "a\xe2\x86\x90", ">", "~", "{", "`", "!", "@", "precision1", "roots", "exponent", "1_000" };
	u32 k = rn(20);
	if (k == 0) {
		u32 n = 1 + rn(300);
		memset(tok, "@#$x"[rn(4)], n);
		tok[n] = 0;
		if (n == 1) strcpy(tok, "##");
		return tok;
	}
	if (k == 1) {
		u32 n = 1 + rn(12);
		for (u32 i = 0; i < n; i++) {
			do tok[i] = 1 + rn(255); while (tok[i] == '\n' || tok[i] == ' ');
		}
		tok[n++] = '@';
		tok[n] = 0;
		return tok;
	}
	if (k < 5) {
		/* a near miss of an operator or type name */
		strcpy(tok, pct(70) ? op_name(rn(op_count())) : type_name(rn(8)));
		size_t n = strlen(tok);
		switch (rn(4)) {
		case 0: tok[n] = "x1_ @"[rn(3)]; tok[n + 1] = 0; break;
		case 1: if (n > 2) tok[n - 1] = 0; else strcat(tok, "@"); break;
		case 2: tok[rn(n)] ^= 32; if (!tok[0] || strchr(tok, ' ') || strchr(tok, '\n')) strcpy(tok, "@1"); break;
		case 3: memmove(tok + 1, tok, n + 1); tok[0] = '@'; break;
		}
		return tok;
	}
	strcpy(tok, e[rn(sizeof(e) / sizeof(*e))]);
	return tok;
}

static char *lb_;          /* line under construction */
static size_t ll, lcap;
static u32 nsolved;        /* rough number of results so far */
static int wantop, wanttype;

static void
put(const char *s, size_t n)
{
	if (ll + n + 1 > lcap) lb_ = realloc(lb_, lcap = (ll + n) * 2 + 256);
	memcpy(lb_ + ll, s, n);
	ll += n;
}

static void
emit_tok(const char *s)
{
	if (ll) put("      ", pct(93) ? 1 : 1 + rn(5));
	put(s, strlen(s));
}

static void
leaf(void)
{
	if (nsolved && pct(45)) {
		char c[2] = { 'a' + (pct(85) ? rn(nsolved < 26 ? nsolved : 26) : rn(26)), 0 };
		emit_tok(c);
	} else if (pct(3)) {
		char c[2] = { 'a' + rn(26), 0 };
		emit_tok(c);
	} else emit_tok(gen_number());
}

static void
expr(int depth, int op)
{
	if (op < 0) {
		if (depth <= 0 || pct(25)) { leaf(); return; }
		op = rn(op_count());
		if (pct(35)) op = op_count() - 3 + rn(3);
		else if (pct(40)) do op = rn(op_count()); while (op_arity(op) != 2);
	}
	switch (op_arity(op)) {
	case 1: case 4: expr(depth - 1, -1); break;
	case 2: expr(depth - 1, -1); expr(depth - 1, -1); break;
	case 3: expr(depth - 1, -1); if (pct(80)) emit_tok(gen_int()); else expr(depth - 1, -1); break;
	case 5: expr(depth - 1, -1); if (pct(50)) emit_tok(gen_int()); else expr(depth - 1, -1); break;
	}
	emit_tok(op_name(op));
}

/* right-leaning: many operands before the operators */
static void
deep(int n)
{
	static const char *const b[] = { "+", "-", "*", "/", "hypotenuse", "arctan2" };
	for (int i = 0; i < n; i++) {
		size_t o = ll;
		leaf();
		/* "+-1" is no number; fine now and then, but not in a long line */
		if (n > 50 && memmem(lb_ + o, ll - o, "+-", 2)) ll = o, emit_tok("-1");
	}
	for (int i = 1; i < n; i++) emit_tok(b[rn(6)]);
}

/*
 * Arguments the survey of the library found to reach rare code, as lines of
 * a session: the entries of the file CALCSIM_CORPUS, made by "literals".
 * Lines are separated by '|'; an entry that starts with '!' must be the first
 * of its session (it refers to register a).
 */
static char **corp, **corpfirst;
static u32 ncorp, ncorpfirst;
/* calls the survey saw use memory that outlives them: "type operator a b" */
static struct suspect { int t, op; int64_t a, b; } *susp;
static u32 nsusp;

static void
load_corpus(void)
{
	static char line[4096];
	const char *fn = getenv("CALCSIM_CORPUS");
	FILE *f = fn ? fopen(fn, "r") : NULL;
	if (!f) return;
	while (fgets(line, sizeof(line), f)) {
		if (line[0] == '*') {
			struct suspect x;
			long long a, b;
			if (sscanf(line + 1, "%d %d %lld %lld", &x.t, &x.op, &a, &b) != 4) continue;
			x.a = a;
			x.b = b;
			if (nsusp % 256 == 0) susp = realloc(susp, (nsusp + 256) * sizeof(*susp));
			susp[nsusp++] = x;
			continue;
		}
		char ***a = line[0] == '!' ? &corpfirst : &corp, *l;
		u32 *n = line[0] == '!' ? &ncorpfirst : &ncorp;
		l = strdup(line + (line[0] == '!'));
		l[strcspn(l, "\n")] = 0;
		for (char *c = l; *c; c++) if (*c == '|') *c = '\n';
		if (*n % 256 == 0) *a = realloc(*a, (*n + 256) * sizeof(**a));
		(*a)[(*n)++] = l;
	}
	fclose(f);
}

static void
corp_lines(struct plan *p, char **c, u32 n, u64 at)
{
	if (!n) return;
	addstr(p, c[at % n]);
	addstr(p, "\n");
	for (const char *x = c[at % n]; *x; x++) nsolved += *x == '\n';
}

/* a text the calculator reads back as the value, or as near as there is one */
static const char *
lit_text(int t, int64_t x)
{
	long double v = model_value(t, x);
	if (isnan(v)) return "nan";
	for (int k = 0; k < 9; k++) {
		long double w = v;
		for (int i = 0; i < (k + 1) / 2; i++) w = nextafterl(w, k & 1 ? INFINITY : -INFINITY);
		if (fabsl(w) < 0x1p62L && w == rintl(w)) sprintf(tok, "%.0Lf", w);
		else sprintf(tok, "%.21Lg", w);
		if (model_pattern(t, strtold(tok, NULL)) == x) return tok;
	}
	if (fabsl(v) < 0x1p62L && v == rintl(v)) sprintf(tok, "%.0Lf", v);
	else sprintf(tok, "%.21Lg", v);
	return tok;
}

/* one line of the survey's corpus as an entry */
static void
corp_entry(const char *l, FILE *o)
{
	char nm[128], fn[100], src[100];
	unsigned long long hi[2], lo[2];
	int fl, off, t = -1, lin, bits, n = 0, k = 0;
	if (sscanf(l, "c %d %127s %*s %*s %n", &fl, nm, &off) < 2) return;
	for (const char *q = l + off; n < 2 && sscanf(q, "%llx:%llx %n", &hi[n], &lo[n], &k) == 2; q += k) n++;
	if (!n) return;
	lin = !strncmp(nm, "takum_linear", 12);
	if (sscanf(nm + (lin ? 12 : 5), "%d_%99s", &bits, fn) != 2) return;
	t = (bits == 8 ? 0 : bits == 16 ? 1 : bits == 32 ? 2 : 3) + 4 * lin;
	if (sscanf(fn, "from_%99s", src) == 1) {
		for (int s = 0; s < NTYPE; s++)
			if (!strcmp(src, type_name(s))) fprintf(o, "!%s|%s|%s|a abs|a a +|a inv|a a *\n", type_name(s), lit_text(s, (int64_t)lo[0]), type_name(t));
		if (!strcmp(src, "extended_float")) {
			long double v = 0;
			memcpy(&v, &lo[0], 8);
			memcpy((char *)&v + 8, &hi[0], 2);
			fprintf(o, "%s|%.21Lg\n", type_name(t), v);
		}
		return;
	}
	char a[128], b[128];
	snprintf(a, sizeof(a), "%s", lit_text(t, (int64_t)lo[0]));
	if (!strcmp(fn, "integer_power") || !strcmp(fn, "root")) {
		if ((int64_t)lo[1] == INT64_MAX || n < 2) return;
		fprintf(o, "%s|%s %lld %s\n", type_name(t), a, (long long)lo[1], fn[0] == 'r' ? "root" : "^");
		for (int i = 0; fl && i < op_count(); i++)
			if (!strcmp(op_fn(i), fn)) fprintf(o, "*%d %d %lld %lld\n", t, i, (long long)lo[0], (long long)lo[1]);
		return;
	}
	if (strstr(fn, "to_") == fn) {
		fprintf(o, "%s|%s\n", type_name(t), a);
		return;
	}
	for (int i = 0; i < op_count(); i++)
		if (!strcmp(op_fn(i), fn)) {
			int two = op_arity(i) == 2 || op_arity(i) == 5;
			if (two && n < 2) return;
			if (two) snprintf(b, sizeof(b), "%s", lit_text(t, (int64_t)lo[1]));
			fprintf(o, "%s|%s %s%s%s\n", type_name(t), a, two ? b : "", two ? " " : "", op_name(i));
			if (fl) fprintf(o, "*%d %d %lld %lld\n", t, i, (long long)lo[0], two ? (long long)lo[1] : 0);
		}
}

/* in processes of their own: the library may not survive its arguments */
static int
make_literals(const char *in, const char *out)
{
	static char chunk[32][1024];
	FILE *f = fopen(in, "r"), *o = fopen(out, "w");
	int n = 0;
	if (!f || !o) { perror(in); return 2; }
	for (bool more = true; more;) {
		more = fgets(chunk[n], sizeof(chunk[n]), f) != NULL;
		if (more && chunk[n][0] == 'c') n++;
		if (n == 32 || (!more && n)) {
			pid_t c = fork();
			if (!c) {
				alarm(20);
				for (int i = 0; i < n; i++) { corp_entry(chunk[i], o); fflush(o); }
				_exit(0);
			}
			waitpid(c, NULL, 0);
			n = 0;
		}
	}
	fclose(o);
	return 0;
}

enum { L_EXPR, L_SWITCH, L_FAIL, L_BLANK, L_HELP, L_SOUP, L_DEEP };

static void
gen_line_kind(int kind)
{
	ll = 0;
	if (pct(4)) put("   ", 1 + rn(3));
	switch (kind) {
	case L_EXPR:
		expr(1 + rn(4), -1);
		nsolved++;
		break;
	case L_DEEP:
		deep(2 + rn(pct(20) ? 40 : 10));
		nsolved++;
		break;
	case L_SWITCH:
		if (pct(10)) leaf();
		emit_tok(type_name(rn(8)));
		if (pct(10)) leaf();
		if (pct(3)) emit_tok(gen_bad());
		break;
	case L_FAIL:
		switch (rn(6)) {
		case 0: emit_tok(gen_bad()); if (pct(50)) leaf(); break;
		case 1: leaf(); if (pct(50)) { leaf(); emit_tok("+"); } emit_tok(gen_bad()); if (pct(50)) emit_tok(gen_bad()); break;
		case 2: if (pct(50)) leaf(); emit_tok(op_name(rn(op_count()))); emit_tok("+"); emit_tok("*"); break;
		case 3: leaf(); leaf(); if (pct(30)) leaf(); if (pct(30)) expr(2, -1); break;
		case 4: leaf(); leaf(); emit_tok(pct(60) ? "root" : "^"); break;
		case 5: if (pct(50)) leaf(); emit_tok(pct(50) ? "root" : pct(50) ? "^" : op_name(rn(op_count()))); break;
		}
		break;
	case L_BLANK:
		for (u32 n = pct(50) ? 0 : rn(9); n; n--) put(" ", 1);
		break;
	case L_HELP:
		if (pct(20)) leaf();
		emit_tok("?");
		if (pct(20)) leaf();
		break;
	case L_SOUP:
		for (u32 n = 1 + rn(8); n; n--) {
			switch (rn(8)) {
			case 0: case 1: case 2: leaf(); break;
			case 3: case 4: case 5: emit_tok(op_name(rn(op_count()))); break;
			case 6: emit_tok(pct(50) ? gen_int() : type_name(rn(8))); break;
			case 7: if (pct(30)) emit_tok(gen_bad()); else leaf(); break;
			}
		}
		break;
	}
	if (pct(4)) put("   ", 1 + rn(3));
}

static int
any_kind(void)
{
	u32 k = rn(100);
	return k < 58 ? L_EXPR : k < 66 ? L_DEEP : k < 74 ? L_SWITCH : k < 86 ? L_FAIL : k < 89 ? L_BLANK : k < 90 ? L_HELP : L_SOUP;
}

static void
add_line(struct plan *p)
{
	/* no zero bytes or stray newlines in a line */
	for (size_t i = 0; i < ll; i++) if (lb_[i] == '\n' || !lb_[i]) lb_[i] = '@';
	addtext(p, lb_, ll);
	addtext(p, "\n", 1);
}

static const u32 edges[] = { 1, 2, 15, 16, 63, 64, 119, 120, 127, 128, 255, 256, 1023, 1024, 4095, 4096, 8191, 8192, 10240, 12800, 16000, 16384, 20000, 25000, 31250, 32768, 39062, 65536 };

static void
gen_long_line(u32 maxlen)
{
	u32 want = edges[rn(sizeof(edges) / sizeof(*edges))];
	if (pct(20)) want = 1 + rn(maxlen);
	while (want > maxlen) want = edges[rn(sizeof(edges) / sizeof(*edges))];
	want += rn(7);
	want = want > 3 ? want - 3 : 1;
	ll = 0;
	switch (rn(8)) {
	case 0:   /* a sum of many terms */
		emit_tok(gen_int());
		while (ll + 8 < want) { leaf(); emit_tok(pct(80) ? "+" : "*"); }
		nsolved++;
		break;
	case 1:   /* many operands first */
		deep(2 + rn(want / 8 > 250 ? 250 : want / 8 + 1));
		nsolved++;
		break;
	case 2: { /* one long literal */
		u32 n = want > 60000 ? 60000 : want;
		memset(tok, '0', n);
		tok[n] = 0;
		if (n > 4) {
			switch (rn(4)) {
			case 0: tok[n - 1] = '7'; break;
			case 1: tok[0] = '1' + rn(9); tok[1] = '.'; tok[n - 1] = '1' + rn(9); break;
			case 2: tok[0] = '-'; tok[1] = '3'; break;
			case 3: tok[1] = 'x'; tok[n - 1] = 'f'; break;
			}
		}
		put(tok, n);
		nsolved++;
		break;
	}
	case 3: { /* one long bad token */
		u32 n = want > 60000 ? 60000 : want;
		memset(tok, "@%x5"[rn(3)], n + 1);
		tok[n] = 0;
		put("@", 1);
		put(tok, n);
		break;
	}
	case 4:   /* spaces in front */
		while (ll + 12 < want) put(" ", 1);
		expr(1, -1);
		nsolved++;
		break;
	case 5:   /* mostly unary operators */
		leaf();
		while (ll + 10 < want) emit_tok(pct(50) ? "inv" : pct(50) ? "abs" : "sign");
		nsolved++;
		break;
	case 6:   /* a token far to the right that matters */
		expr(2, -1);
		while (ll + 3 < want) put(" ", 1);
		emit_tok(pct(50) ? "abs" : pct(50) ? "5" : "takum16");
		break;
	default:
		expr(3, -1);
		nsolved++;
	}
	while (ll < want) put(" ", 1);   /* exact length */
}

/* far beyond what anyone types: lengths and depths at which a limit would show */
static void
gen_huge_line(void)
{
	static const u32 len[] = { 70000, 100000, 131072, 200000, 262144, 300000, 524288, 600000, 1048576, 1100000 };
	static const u32 dep[] = { 65, 129, 257, 513, 600, 1025, 1500, 2049, 4097, 5000, 8193, 10001, 16385, 20000, 32769 };
	u32 want = len[rn(pct(70) ? 7 : 10)] + rn(5);
	ll = 0;
	switch (rn(8)) {
	case 0: case 1: case 6: case 7:
		deep(dep[rn(15)] + rn(3));
		nsolved++;
		return;
	case 2:
		leaf();
		while (ll < want) put(" ", 1);
		emit_tok(pct(50) ? "abs" : pct(50) ? "5" : "@");
		break;
	case 3:
		while (ll < want) put(" ", 1);
		expr(2, -1);
		break;
	case 4:
		emit_tok(gen_int());
		while (ll < want) { emit_tok(gen_int()); emit_tok(pct(80) ? "+" : "-"); }
		nsolved++;
		break;
	case 5:
		put(pct(50) ? "1." : "0x", 2);
		while (ll < want) put("0123456789", 10);
		if (pct(30)) put("@", 1);
		break;
	}
}

static void
delivery(struct plan *p, u32 total)
{
	p->nch = 0;
	switch (rn(7)) {
	case 0: p->ch[p->nch++] = 1; break;
	case 1: p->ch[p->nch++] = 0; break;
	case 2: for (u32 n = 1 + rn(40); n; n--) p->ch[p->nch++] = 1 + rn(12); break;
	case 3: for (u32 n = 1 + rn(20); n; n--) p->ch[p->nch++] = 1 + rn(200); break;
	case 4: for (u32 n = 1 + rn(6); n; n--) p->ch[p->nch++] = edges[rn(20)] + rn(3); break;
	case 5: p->ch[p->nch++] = 1 + rn(total ? total : 1); p->ch[p->nch++] = 1u << 30; break;
	case 6: for (u32 n = 1 + rn(10); n; n--) p->ch[p->nch++] = pct(40) ? 0 : 1 + rn(30); break;
	}
	static const u32 sz[] = { 1, 2, 3, 7, 16, 64, 100, 512, 1024, 4096, 8192, 65536 };
	p->inmode = pct(20) ? B_NONE : pct(50) ? B_LINE : B_FULL;
	p->outmode = pct(20) ? B_NONE : pct(50) ? B_LINE : B_FULL;
	p->insize = sz[rn(12)];
	p->outsize = sz[rn(12)];
}

/* a pattern like the other one: equal, near, with another lower part */
static int64_t
near_pattern(int t, int64_t x)
{
	static const int bits[] = { 8, 16, 32, 64 };
	int n = bits[t & 3];
	u64 m = x;
	switch (rn(8)) {
	case 0: case 1: case 2: break;
	case 3: m += rn(9) - 4; break;
	case 4: m ^= 1ull << rn(n); break;
	case 5: m = -m; break;
	default: m ^= rnd() >> (64 - (1 + rn(n))); break;
	}
	return (int64_t)(m << (64 - n)) >> (64 - n);
}

/* the same few operations again and again with operands that resemble each other */
static void
suspects(struct plan *p, u32 n)
{
	u32 at = rn(nsusp), k[4], nk = 1 + rn(4);
	for (u32 i = 0; i < nk; i++) {
		k[i] = rn(nsusp);
		for (int j = 0; j < 40 && (susp[k[i]].t != susp[at].t || susp[k[i]].op != susp[at].op); j++) k[i] = rn(nsusp);
	}
	k[0] = at;
	for (u32 i = 0; i < n; i++) {
		struct suspect *x = &susp[k[rn(nk)]];
		ll = 0;
		if (!i || nk > 1) {
			emit_tok(type_name(x->t));
			add_line(p);
			ll = 0;
		}
		int64_t a = near_pattern(x->t, x->a), b = near_pattern(x->t, x->b);
		if (pct(10)) { int64_t c = a; a = b; b = c; }
		emit_tok(lit_text(x->t, a));
		if (op_arity(x->op) == 3) {
			char e[32];
			sprintf(e, "%lld", (long long)x->b);
			emit_tok(e);
		} else if (op_arity(x->op) == 2 || op_arity(x->op) == 5) emit_tok(lit_text(x->t, b));
		emit_tok(op_name(x->op));
		nsolved++;
		add_line(p);
		if (pct(8)) { gen_line_kind(any_kind()); add_line(p); }
	}
}

static void
lines_of(struct plan *p, u32 n)
{
	if (nsusp && pct(20)) suspects(p, 1 + rn(8));
	while (n--) {
		if (ncorp && pct(4)) corp_lines(p, corp, ncorp, rnd());
		gen_line_kind(any_kind());
		add_line(p);
	}
}

/* one operation over and over in one session: up to some 100000 library calls */
static void
drill(struct plan *p, u64 k)
{
	int op = k % op_count(), t = k / op_count() % 8;
	static const u32 rep[] = { 90, 350, 700, 1100, 2500, 9000 };
	p->variant = 0;
	addstr(p, type_name(t));
	addstr(p, "\n");
	for (u32 n = 1 + rn(2); n; n--) {
		ll = 0;
		leaf();
		for (u32 j = 6 + rn(9); j; j--) {
			if (op_arity(op) == 2 || op_arity(op) == 5) leaf();
			if (op_arity(op) == 3) emit_tok(gen_int());
			emit_tok(op_name(op));
			nsolved = 5;
		}
		add_line(p);
	}
	p->repeat = rep[rn(6)];
}

static void
generate(struct plan *p, int mode, u64 seed, u64 run)
{
	u32 n;
	memset(p, 0, sizeof(*p));
	p->insize = p->outsize = 4096;
	p->mode = mode;
	p->poison = 0xa5;
	rseed(seed, mode, run);
	nsolved = 0;
	p->ch[p->nch++] = 0;
	static const int poisons[] = { 0xa5, 0, 0xff, 0x20, 0x31, 0x0a, 0x7f };
	switch (mode) {
	case 7: {
		p->poison = poisons[rn(7)];
		p->variant = rn(4);
		p->inmode = p->outmode = B_LINE;
		p->insize = p->outsize = 1024;
		if (run % 64 == 63) { drill(p, run / 64); break; }
		if (nsusp && pct(40)) {
			suspects(p, 2 + rn(pct(70) ? 20 : 200));
			if (pct(20)) p->repeat = 2 + rn(pct(70) ? 20 : 2000);
			break;
		}
		if (ncorpfirst && pct(15)) corp_lines(p, corpfirst, ncorpfirst, run * 0x9e3779b97f4a7c15ull >> 20);
		/* each operator in each type comes up in turn */
		int op = run % op_count(), t = run / op_count() % 8;
		n = pct(60) ? 3 + rn(28) : pct(75) ? 30 + rn(50) : 80 + rn(300);
		u32 at = rn(n);
		for (u32 i = 0; i < n; i++) {
			if (i == at) {
				if (ncorp) corp_lines(p, corp, ncorp, run * 2), corp_lines(p, corp, ncorp, run * 2 + 1);
				addstr(p, type_name(t));
				addstr(p, "\n");
				for (int k = 0; k < 3; k++) {
					ll = 0;
					expr(1 + k, op);
					nsolved++;
					add_line(p);
				}
			}
			if (pct(1)) gen_long_line(3000); else gen_line_kind(any_kind());
			add_line(p);
		}
		if (pct(2)) p->repeat = 2 + rn(20);
		break;
	}
	case 8: {
		p->poison = poisons[rn(7)];
		p->variant = rn(4);
		p->tty = 0;
		n = 1 + rn(pct(70) ? 8 : 40);
		u32 big = pct(60) ? 1 + rn(2) : 0;
		bool huge = rn(1000) < 15, washuge = huge;
		if (huge) n = 1 + rn(4);
		for (u32 i = 0; i < n; i++) {
			if (ncorp && pct(10)) corp_lines(p, corp, ncorp, rnd());
			if (huge && rn(n - i) == 0) { gen_huge_line(); huge = false; }
			else if (big && rn(n - i) < big) {
				gen_long_line(pct(10) ? 66000 : pct(40) ? 17000 : 9000);
				big--;
			} else gen_line_kind(any_kind());
			add_line(p);
		}
		/* end of input anywhere */
		if (pct(45)) {
			p->noeol = 1;
			if (pct(washuge ? 15 : 70) && p->n > 2) {
				p->n = 1 + rn(p->n - 1);
				if (p->text[p->n - 1] != '\n') addtext(p, "\n", 1);
			}
		}
		if (pct(4))
			for (u32 k = 1 + rn(3); k; k--) {
				/* zero bytes: no line of the model, but still a byte like any other */
				u32 at = rn(p->n);
				if (p->text[at] != '\n') p->text[at] = 0;
			}
		delivery(p, p->n);
		if (p->n > 69000) {
			if (p->inmode == B_NONE || p->insize < 512) p->inmode = B_FULL, p->insize = 4096;
			for (int i = 0; i < p->nch; i++) if (p->ch[i] && p->ch[i] < 64) p->ch[i] += 64 * rn(100);
		}
		if (p->n > 20000 && p->ch[0] == 1 && p->nch == 1 && pct(70)) p->ch[0] = 2 + rn(9);
		break;
	}
	case 9: {
		p->poison = poisons[rn(7)];
		p->inmode = pct(30) ? B_NONE : pct(50) ? B_LINE : B_FULL;
		p->outmode = pct(30) ? B_NONE : pct(50) ? B_LINE : B_FULL;
		p->insize = pct(50) ? 4096 : 1 + rn(64);
		p->ch[0] = pct(80) ? 0 : 1;
		n = 2 + rn(pct(60) ? 8 : 22);
		if (nsusp && pct(30)) suspects(p, 1 + rn(12));
		for (u32 i = 0; i < n; i++) {
			if (ncorp && pct(10)) corp_lines(p, corp, ncorp, rnd());
			if (pct(6)) gen_long_line(pct(20) ? 40000 : 21000);
			else gen_line_kind(pct(25) ? L_DEEP : any_kind());
			add_line(p);
		}
		session(p, R0, 1);
		u32 A = R0->nal ? R0->nal : 1;
		for (u32 k = pct(60) ? 1 : 1 + rn(6); k; k--) {
			struct fault *f = &p->f[p->nf++];
			f->what = F_ALLOC;
			f->at = pct(90) ? 1 + rn(A) : 1 + rn(A + 8);
			f->count = pct(70) ? 1 : pct(70) ? 1 + rn(5) : pct(50) ? 1 + rn(A) : -1;
		}
		break;
	}
	case 10: {
		n = 1 + rn(pct(70) ? 10 : 30);
		lines_of(p, n);
		if (pct(8)) { gen_long_line(11000); add_line(p); lines_of(p, 2); }
		if (pct(20)) p->noeol = 1;
		p->tty = pct(50);
		delivery(p, p->n);
		if (pct(70)) {
			u32 k = pct(60) ? 1 : 1 + rn(3);
			while (k--) {
				static const int kk[] = { K_EIO, K_EINTR, K_EAGAIN, K_EOF, K_EBADF };
				struct fault *f = &p->f[p->nf++];
				f->what = F_READ;
				f->kind = kk[rn(5)];
				f->at = rn(p->n + 1);
				if (pct(30)) {
					/* at a line boundary */
					while (f->at > 0 && f->at < (long)p->n && p->text[f->at - 1] != '\n') f->at++;
				}
				f->count = f->kind == K_EINTR ? 1 + rn(3) : pct(50) ? 1 : pct(50) ? 1 + rn(4) : -1;
			}
		}
		if (!p->nf || pct(50)) {
			session(p, R0, 0);
			u32 nw[3] = { 0 };
			for (u32 i = 0; i < R0->nwr; i++) nw[R0->wr[i].stream]++;
			u32 k = pct(50) ? 1 : 1 + rn(5);
			if (pct(15) && nw[1]) {
				/* a part is accepted, the rest is not */
				static const int kk[] = { K_EIO, K_EINTR, K_EAGAIN, K_ENOSPC, K_EPIPE };
				struct fault *f = &p->f[p->nf++], *g = &p->f[p->nf++];
				f->what = g->what = F_WRITE;
				f->stream = g->stream = nw[2] && pct(30) ? 2 : 1;
				f->kind = K_SHORT;
				f->at = 1 + rn(nw[f->stream] + 1);
				f->n = 1 + rn(12);
				f->count = 1;
				g->kind = kk[rn(5)];
				g->at = f->at + 1;
				g->count = pct(80) ? 1 : pct(50) || g->kind == K_EINTR || g->kind == K_EAGAIN ? 2 : -1;
				k--;
			}
			while (k--) {
				static const int kk[] = { K_EIO, K_EINTR, K_EAGAIN, K_ENOSPC, K_EPIPE, K_SIGPIPE, K_SHORT, K_SHORT, K_SHORT, K_SHORT };
				struct fault *f = &p->f[p->nf++];
				f->what = F_WRITE;
				f->stream = nw[2] && pct(30) ? 2 : 1;
				f->kind = kk[rn(10)];
				f->at = 1 + rn(nw[f->stream] + 1);
				f->n = 1 + rn(40);
				/* interruptions come to an end, a program may go on trying */
				f->count = pct(55) ? 1 : pct(60) || f->kind == K_EINTR || f->kind == K_EAGAIN ? 1 + rn(6) : -1;
			}
		}
		break;
	}
	case 11: {
		n = 1 + rn(pct(70) ? 10 : 40);
		lines_of(p, n);
		if (pct(5)) { gen_long_line(9000); add_line(p); lines_of(p, 2); }
		if (pct(10)) p->noeol = 1;
		p->tty = 1;
		p->inmode = p->outmode = B_LINE;
		p->insize = p->outsize = pct(80) ? 1024 : 4096;
		p->nch = 0;
		switch (rn(5)) {
		case 0: p->ch[p->nch++] = 0; break;
		case 1: p->ch[p->nch++] = 1; break;
		case 2: for (u32 k = 1 + rn(20); k; k--) p->ch[p->nch++] = pct(50) ? 0 : 1 + rn(10); break;
		case 3: for (u32 k = 1 + rn(20); k; k--) p->ch[p->nch++] = 1 + rn(60); break;
		case 4: for (u32 k = 1 + rn(5); k; k--) p->ch[p->nch++] = 1 + rn(2000); break;
		}
		p->poison = poisons[rn(7)];
		break;
	}
	case 12: {
		p->poison = poisons[rn(7)];
		p->variant = rn(4);
		n = 1 + rn(pct(60) ? 6 : 20);
		if (nsusp && pct(30)) suspects(p, 1 + rn(12));
		for (u32 i = 0; i < n; i++) {
			if (ncorp && pct(10)) corp_lines(p, corp, ncorp, rnd());
			if (pct(5)) gen_long_line(pct(10) ? 40000 : 12000);
			else gen_line_kind(pct(25) ? L_FAIL : any_kind());
			add_line(p);
		}
		if (pct(60)) {
			static const int reps[] = { 16, 24, 32, 64, 96, 200 };
			p->repeat = reps[rn(p->n > 3000 ? 2 : 6)];
		}
		if (pct(20)) p->noeol = 1;
		if (pct(30)) delivery(p, p->n);
		if (pct(35)) {
			for (u32 k = 1 + rn(3); k; k--) {
				struct fault *f = &p->f[p->nf++];
				f->what = F_ALLOC;
				f->at = 1 + rn(14);
				f->count = pct(70) ? 1 : 1 + rn(5);
			}
		}
		if (pct(15)) {
			static const int kk[] = { K_EIO, K_EINTR, K_EAGAIN, K_EOF };
			struct fault *f = &p->f[p->nf++];
			f->what = F_READ;
			f->kind = kk[rn(4)];
			f->at = rn(p->n + 1);
			f->count = pct(50) ? 1 : 2;
		}
		break;
	}
	}
	(void)wantop;
	(void)wanttype;
}
