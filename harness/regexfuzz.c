/* C14: the example regex engine against a reference matcher.
   regexfuzz run <profile> <seed> <start> <ms> <progress> | dump <profile> <seed> <case> | replay <file>
   A case is a pattern (pieces), flags, a possible failing memory request, and a text given in pieces, with resets. */
#include "core.h"
#include "regexJIT.h"

/* ---------- memory requests ---------- */
#define GUARD 16
#define HMAX 30000
static struct { u8 *p; uw size; void *data; } hb[HMAX]; static int nhb; static const char *herr; static int hfail, hcount, hfailed, nexec;
static int request(void) { hcount++; if (hfail && hcount == hfail) { hfailed = 1; return 0; } return 1; }
void *vt_malloc(unsigned long size, void *data)
{
	u8 *p; int k;
	if (!request() || nhb >= HMAX) return NULL;
	p = (u8*)malloc(size + 2 * GUARD); if (!p) return NULL;
	for (k = 0; k < GUARD; k++) { p[k] = 0xa5; p[GUARD + size + k] = 0x5a; }
	memset(p + GUARD, 0xcd, size);
	hb[nhb].p = p + GUARD; hb[nhb].size = size; hb[nhb++].data = data;
	return p + GUARD;
}
static void hcheck(int k) { int j; for (j = 0; j < GUARD; j++) if (hb[k].p[-1 - j] != 0xa5 || hb[k].p[hb[k].size + j] != 0x5a) herr = "the memory around a block was changed"; }
void vt_free(void *ptr, void *data)
{
	int k;
	if (!ptr) return;
	for (k = nhb - 1; k >= 0; k--) if (hb[k].p == ptr) {
		if (hb[k].data != data) herr = "a block was released with an other allocator data";
		hcheck(k); memset(hb[k].p, 0xdd, hb[k].size); free(hb[k].p - GUARD); hb[k] = hb[--nhb]; return;
	}
	herr = "release of a block that was not allocated";
}
int vt_exec_ok(unsigned long size, void *data) { (void)size; (void)data; return request(); }
void *vt_exec_got(void *p) { if (p) nexec++; return p; }
void vt_exec_freed(void *p) { if (p) nexec--; }

/* ---------- case ---------- */
#define MAXTOK 120
#define MAXPAT 400
#define MAXTXT 600
static struct { u8 s[48]; int n; } tok[MAXTOK]; static int ntok;
static struct { u8 s[24]; int n, end; } piece[MAXTXT]; static int npiece; /* end: 1 - end of a chunk, 2 - reset afterwards */
static int flags, mode, oom;
static u8 pat[MAXPAT + 1]; static int npat;
static char msg[500];
#define FAIL(...) do { snprintf(msg, sizeof(msg), __VA_ARGS__); return 10; } while (0)

/* ---------- reference: parser ---------- */
enum { N_SET, N_CAT, N_ALT, N_STAR, N_PLUS, N_OPT, N_REP, N_ID, N_EMPTY };
typedef struct node { int t, a, b, l, r; u8 set[32]; } node; /* REP: a - min, b - max (-1: no limit) */
#define MAXN 1200
static node nd[MAXN]; static int nn;
static int P, perr, skip; /* perr: the pattern is invalid, skip: it is not judged */
static long nterms;
static int mk(int t) { if (nn >= MAXN) { skip = 1; nn = MAXN - 1; } memset(&nd[nn], 0, sizeof(node)); nd[nn].t = t; nd[nn].l = nd[nn].r = -1; return nn++; }
#define SETB(n, c) (nd[n].set[(c) >> 3] |= (u8)(1 << ((c) & 7)))
#define HASB(n, c) (nd[n].set[(c) >> 3] >> ((c) & 7) & 1)
static long number(int *p) { long v = -1; int k = *p; while (k < npat && pat[k] >= '0' && pat[k] <= '9') { v = (v < 0 ? 0 : v) * 10 + pat[k] - '0'; if (v > 100000000) { skip = 1; v = 100000000; } k++; } *p = k; return v; }
/* iterator at p: 0 - not an iterator, 1 - {n,m}, 2 - {n!} */
static int iter(int *pos, int begin, long *a, long *b)
{
	int p = *pos + 1; long x, y;
	if (p < npat && pat[p] == ',') { x = 0; p++; y = number(&p); if (y < 0) y = -2; }
	else {
		x = number(&p);
		if (x < 0) return 0;
		if (p + 1 < npat && pat[p] == '!' && pat[p + 1] == '}') { *a = x; *pos = p + 2; return 2; }
		if (p < npat && pat[p] == ',') { p++; y = number(&p); if (y < 0) y = -2; } else y = x;
	}
	if (p >= npat || pat[p] != '}' || begin) return 0;
	if (y != -2 && y < x) return 0;
	*pos = p + 1; *a = x; *b = y;
	return 1;
}
static int set_of(int newline)
{
	int n = mk(N_SET), c; (void)newline;
	for (c = 0; c < 256; c++) SETB(n, c);
	if (newline) { nd[n].set['\n' >> 3] &= (u8)~(1 << ('\n' & 7)); nd[n].set['\r' >> 3] &= (u8)~(1 << ('\r' & 7)); }
	return n;
}
static int p_class(void)
{
	int n = mk(N_SET), neg = 0, first = 1, k;
	P++;
	if (P < npat && pat[P] == '^') { neg = 1; P++; }
	if (P < npat && pat[P] == ']') { SETB(n, ']'); P++; if (P + 1 < npat && pat[P] == '-' && pat[P + 1] != ']') skip = 1; } /* POSIX would take it as a range */
	for (;; first = 0) {
		int a, b;
		if (P >= npat) { perr = 1; return n; }
		if (pat[P] == ']') break;
		if (pat[P] == '\\') { P++; if (P >= npat) { perr = 1; return n; } }
		a = pat[P++];
		if (P + 1 < npat && pat[P] == '-' && pat[P + 1] != ']') {
			P++;
			if (pat[P] == '\\') { P++; if (P >= npat) { perr = 1; return n; } }
			b = pat[P++];
			if (a > b) { k = a; a = b; b = k; }
			for (; a <= b; a++) SETB(n, a);
		} else SETB(n, a);
	}
	(void)first;
	P++;
	if (neg) for (k = 0; k < 32; k++) nd[n].set[k] = (u8)~nd[n].set[k];
	return n;
}
static int eff;
static int p_alt(int depth);
static int cat(int l, int r) { int n; if (l < 0) return r; n = mk(N_CAT); nd[n].l = l; nd[n].r = r; return n; }
static int p_seq(int depth)
{
	int seq = -1, atom = -1, begin = 1, n, t; long a = 0, b = 0;
	while (P < npat && !perr && !skip) {
		int c = pat[P];
		if (c == '|' ) break;
		if (c == ')') { if (depth == 0) perr = 1; break; }
		if (c == '*' || c == '+' || c == '?') {
			if (begin) { perr = 1; break; }
			n = mk(c == '*' ? N_STAR : c == '+' ? N_PLUS : N_OPT); nd[n].l = atom; atom = n; P++; continue;
		}
		if (c == '{') {
			t = iter(&P, begin, &a, &b);
			if (t == 1) { n = mk(a == 0 && b == 0 ? N_EMPTY : N_REP); nd[n].a = (int)a; nd[n].b = (int)(b == -2 ? -1 : b); nd[n].l = atom; atom = n; continue; }
			if (t == 2) { n = mk(N_ID); nd[n].a = (int)a; if (begin) seq = cat(seq, n); else atom = cat(atom, n); continue; }
			/* an ordinary character */
		}
		if (atom >= 0) seq = cat(seq, atom);
		atom = -1;
		if (c == '(') { P++; atom = p_alt(depth + 1); if (perr || skip) break; if (P >= npat || pat[P] != ')') { perr = 1; break; } P++; begin = 0; continue; }
		if (c == '[') { atom = p_class(); begin = 0; continue; }
		if (c == '.') { atom = set_of(eff & REGEX_NEWLINE); P++; begin = 0; continue; }
		if (c == '$' && P == npat - 1) { eff |= REGEX_MATCH_END; P++; break; }
		if (c == '\\') { P++; if (P >= npat) { perr = 1; break; } c = pat[P]; }
		atom = mk(N_SET); SETB(atom, c); P++; begin = 0;
	}
	if (atom >= 0) seq = cat(seq, atom);
	return seq < 0 ? mk(N_EMPTY) : seq;
}
static int p_alt(int depth)
{
	int l = p_seq(depth), n;
	while (P < npat && pat[P] == '|' && !perr && !skip) { P++; n = mk(N_ALT); nd[n].l = l; nd[n].r = p_seq(depth); l = n; }
	return l;
}
static long terms(int n)
{
	long l;
	switch (nd[n].t) {
	case N_SET: case N_ID: return 1;
	case N_CAT: case N_ALT: l = 1 + terms(nd[n].l) + terms(nd[n].r); break;
	case N_STAR: case N_PLUS: case N_OPT: l = 1 + terms(nd[n].l); break;
	case N_REP: l = (1 + terms(nd[n].l)) * (1 + (nd[n].b > nd[n].a ? nd[n].b : nd[n].a)); break;
	default: return 1;
	}
	return l > 1000000 ? 1000000 : l;
}
/* the subtree of a {0} takes memory as well until it is removed */
static long peak(int n)
{
	long l = 1;
	if (n < 0) return 0;
	l += peak(nd[n].l); if (nd[n].t != N_REP) l += peak(nd[n].r); else l *= 1 + (nd[n].b > nd[n].a ? nd[n].b : nd[n].a);
	return l > 1000000 ? 1000000 : l;
}
static int root;
static void ref_parse(void)
{
	nn = 0; P = 0; perr = 0; skip = 0; eff = flags;
	if (npat > 0 && pat[0] == '^') { eff |= REGEX_MATCH_BEGIN; P++; }
	root = p_alt(0);
	if (!perr && !skip && P < npat) perr = 1;
	if (!skip && !perr && (peak(root) > 250)) skip = 1;
	nterms = skip || perr ? 0 : terms(root);
}
/* ---------- reference: matcher ---------- */
static u8 txt[MAXTXT * 24 + 1]; static int ntxt;
#define LIM 260
typedef struct { int v[LIM]; } pos;
static long work;
static int merge(pos *a, const pos *b, int n) { int k, ch = 0; for (k = 0; k <= n; k++) if (b->v[k] > a->v[k]) { a->v[k] = b->v[k]; ch = 1; } return ch; }
static void ref_run(int x, const u8 *s, int n, const pos *in, pos *out)
{
	pos a, b; int k, any = 0;
	work += n + 4;
	for (k = 0; k <= n; k++) { out->v[k] = -1; if (in->v[k] >= 0) any = 1; }
	if (!any) return;
	switch (nd[x].t) {
	case N_EMPTY: *out = *in; break;
	case N_ID: for (k = 0; k <= n; k++) if (in->v[k] >= 0) out->v[k] = in->v[k] > nd[x].a ? in->v[k] : nd[x].a; break;
	case N_SET: for (k = 0; k < n; k++) if (in->v[k] >= 0 && HASB(x, s[k])) out->v[k + 1] = in->v[k]; break;
	case N_CAT: ref_run(nd[x].l, s, n, in, &a); ref_run(nd[x].r, s, n, &a, out); break;
	case N_ALT: ref_run(nd[x].l, s, n, in, out); ref_run(nd[x].r, s, n, in, &a); merge(out, &a, n); break;
	case N_OPT: ref_run(nd[x].l, s, n, in, out); merge(out, in, n); break;
	case N_STAR: *out = *in; a = *in; for (;;) { ref_run(nd[x].l, s, n, &a, &b); if (!merge(out, &b, n)) break; a = *out; } break;
	case N_PLUS: ref_run(nd[x].l, s, n, in, out); for (;;) { a = *out; ref_run(nd[x].l, s, n, &a, &b); if (!merge(out, &b, n)) break; } break;
	case N_REP:
		a = *in;
		for (k = 0; k < nd[x].a; k++) { ref_run(nd[x].l, s, n, &a, &b); a = b; }
		*out = a;
		if (nd[x].b < 0) for (;;) { ref_run(nd[x].l, s, n, &a, &b); if (!merge(out, &b, n)) break; a = *out; }
		else for (; k < nd[x].b; k++) { ref_run(nd[x].l, s, n, &a, &b); merge(out, &b, n); a = b; }
		break;
	}
}
static int nl(u8 c) { return c == '\n' || c == '\r'; }
static void ref_match(const u8 *s, int n, int *rb, int *re, int *rid)
{
	int b, e, k; pos in, out;
	for (b = 0; b <= n; b++) {
		if ((eff & REGEX_MATCH_BEGIN) && b > 0 && !((eff & REGEX_NEWLINE) && nl(s[b - 1]))) continue;
		for (k = 0; k <= n; k++) in.v[k] = -1;
		in.v[b] = 0;
		ref_run(root, s, n, &in, &out);
		for (k = b, e = -1; k <= n; k++) if (out.v[k] >= 0) {
			if ((eff & REGEX_MATCH_END) && k != n && !((eff & REGEX_NEWLINE) && nl(s[k]))) continue;
			e = k;
			if (eff & REGEX_MATCH_NON_GREEDY) break;
		}
		if (e >= 0) { *rb = b; *re = e; *rid = out.v[e]; return; }
	}
	*rb = -1; *re = *rid = 0;
}

/* ---------- execution ---------- */
static u8 *page_end;
static u8 *at_end(const u8 *s, int n) { u8 *p = page_end - n; memcpy(p, s, (size_t)n); return p; }
static const char *where(const char *w) { return w; }
static int heap_ok(void) { int k; for (k = 0; k < nhb; k++) hcheck(k); return !herr; }

static int build_pat(void)
{
	int k;
	npat = 0;
	for (k = 0; k < ntok; k++) { if (npat + tok[k].n > MAXPAT) return 1; memcpy(pat + npat, tok[k].s, (size_t)tok[k].n); npat += tok[k].n; }
	return 0;
}
static int nontriv;
static int judge(struct regex_match *m, const char *what)
{
	int b, e = -7, id = -7, rb, re, rid;
	b = regex_get_result(m, &e, &id);
	ref_match(txt, ntxt, &rb, &re, &rid);
	if (b != rb) FAIL("%s: after %d characters the match begins at %d instead of %d", what, ntxt, b, rb);
	if (b >= 0 && e != re) FAIL("%s: after %d characters the match at %d ends at %d instead of %d", what, ntxt, b, e, re);
	if (b >= 0 && id != rid) FAIL("%s: after %d characters the match %d..%d has id %d instead of %d", what, ntxt, b, e, id, rid);
	pg->extra[b < 0 ? 1 : 0]++;
	if (b >= 0 && e > b) nontriv = 1;
	return 0;
}
static int run_match(struct regex_machine *mc)
{
	struct regex_match *m; int k, r, s0 = 0, fin = 0; static u8 chunk[MAXTXT * 24]; int nc = 0;
	hcount = 0;
	m = regex_begin_match(mc);
	if (!m) { if (hfailed) return 0; FAIL("regex_begin_match returned NULL"); }
	ntxt = 0; work = 0;
	for (k = 0; k < npiece; k++) {
		if (ntxt + nc + piece[k].n >= LIM - 2) break;
		memcpy(chunk + nc, piece[k].s, (size_t)piece[k].n); nc += piece[k].n;
		if (!piece[k].end && k + 1 < npiece) continue;
		if ((mode & 1) && !(mode & 2)) regex_continue_match_debug(m, (const regex_char_t*)at_end(chunk, nc), nc);
		else if (mode & 1 && s0 & 1) regex_continue_match_debug(m, (const regex_char_t*)at_end(chunk, nc), nc);
		else regex_continue_match(m, (const regex_char_t*)at_end(chunk, nc), nc);
		s0++; pg->extra[2]++;
		memcpy(txt + ntxt, chunk, (size_t)nc); ntxt += nc; nc = 0;
		if ((r = judge(m, "match")) != 0) goto out;
		if (fin && !regex_is_match_finished(m)) { snprintf(msg, sizeof(msg), "the match is not finished any more"); r = 10; goto out; }
		if (regex_is_match_finished(m)) { fin = 1; pg->extra[3]++; }
		if (piece[k].end == 2) { regex_reset_match(m); ntxt = 0; fin = 0; pg->extra[4]++; if (regex_is_match_finished(m)) { snprintf(msg, sizeof(msg), "the match is finished after the reset"); r = 10; goto out; } }
		if (work > 4000000) break;
	}
	r = 0;
out:
	regex_free_match(m);
	return r;
}
static int run_case(void)
{
	struct regex_machine *mc; int err = -5, r = 0, k, n0 = nhb, e0 = nexec;
	nontriv = 0; herr = NULL; hfail = hfailed = hcount = 0;
	if (build_pat()) return 3;
	ref_parse();
	if (skip) { pg->skipped++; return 0; }
	hfail = oom;
	mc = regex_compile((const regex_char_t*)at_end(pat, npat), npat, flags, (mode & 4) && !oom ? NULL : &err);
	k = hfailed; hfail = 0;
	if (!heap_ok()) FAIL("regex_compile: %s", where(herr));
	if (k) {
		pg->extra[6]++;
		if (mc) FAIL("regex_compile: memory request %d failed, but the pattern is compiled", oom);
		if (err != REGEX_MEMORY_ERROR) FAIL("regex_compile: memory request %d failed, the error code is %d", oom, err);
	} else if (perr) {
		pg->extra[5]++;
		if (mc) FAIL("an invalid pattern is accepted");
		if (err != -5 && err != REGEX_INVALID_REGEX) FAIL("an invalid pattern gives error %d", err);
	} else {
		if (!mc) FAIL("a valid pattern is refused with error %d", err);
		if (err != -5 && err != REGEX_NO_ERROR) FAIL("a valid pattern gives error %d", err);
	}
	if (mc) {
		hfailed = 0;
		r = run_match(mc);
		if (!r && (mode & 8)) { hfail = 1; hfailed = hcount = 0; if (regex_begin_match(mc)) { snprintf(msg, sizeof(msg), "regex_begin_match succeeded without memory"); r = 10; } hfail = 0; r = r ? r : run_match(mc); }
		regex_free_machine(mc);
	}
	if (r) return r;
	if (!heap_ok()) FAIL("%s", where(herr));
	if (nhb != n0 || nexec != e0) FAIL("%d blocks and %d executable blocks are not released", nhb - n0, nexec - e0);
	return 0;
}

/* ---------- generator ---------- */
static void T(const char *s) { int n = (int)strlen(s); if (ntok >= MAXTOK) return; memcpy(tok[ntok].s, s, (size_t)n); tok[ntok++].n = n; }
static void TB(const u8 *s, int n) { if (ntok >= MAXTOK) return; memcpy(tok[ntok].s, s, (size_t)n); tok[ntok++].n = n; }
static u8 alpha[8]; static int nalpha;
static void gen_alpha(void)
{
	static const u8 pool[] = { 'a', 'b', 'c', 'd', '-', ']', '[', '^', '$', '{', '}', '\\', '.', '*', '0', ',', '!', '\n', '\r', 0, 1, 0x7e, 0x7f, 0x80, 0x81, 0xff, 0xfe, 0xc3, '|', '(', ')', ' ' };
	int k; nalpha = 1 + (int)rn(6);
	for (k = 0; k < nalpha; k++) alpha[k] = rp(50) ? (u8)('a' + rn(3)) : rp(50) && (flags & REGEX_NEWLINE) ? (rp(50) ? '\n' : '\r') : rp(75) ? pool[rn(sizeof(pool))] : (u8)rn(256);
}
static u8 rc(void) { return rp(92) ? alpha[rn((u32)nalpha)] : (u8)rn(256); }
static int special(u8 c) { return strchr("\\.()[]|*+?{}^$", c) != NULL && c; }
static void gen_lit(void)
{
	u8 c = rc(), s[2]; int esc = special(c) ? !rp(3) : rp(5);
	if ((c == '{' || c == '}' || c == ']' || c == '^' || c == '$') && rp(20)) esc = 0;
	if (esc) { s[0] = '\\'; s[1] = c; TB(s, 2); } else { s[0] = c; TB(s, 1); }
}
static void gen_class(void)
{
	u8 s[48]; int n = 0, k = 1 + (int)rn(4), w;
	s[n++] = '['; if (rp(35)) s[n++] = '^';
	if (rp(10)) s[n++] = ']';
	for (; k > 0; k--) for (w = 0; w < 2; w++) {
		u8 c = rc();
		if (w) { if (!rp(40)) break; s[n++] = '-'; if (rp(30)) c = (u8)rn(256); }
		if (c == ']' || c == '\\' || ((c == '-' || c == '^') && rp(90)) || rp(5)) s[n++] = '\\';
		s[n++] = c;
	}
	if (rp(6)) s[n++] = '-';
	s[n++] = ']';
	TB(s, n);
}
static int budget;
static int p_expr_weight(int d) { return d; }
static void gen_expr(int depth);
static void gen_iter(void)
{
	char s[48]; int a, b;
	switch (rn(12)) {
	case 0: case 1: T("*"); return;
	case 2: case 3: T("+"); return;
	case 4: case 5: T("?"); return;
	case 6: a = (int)rn(4); b = a; sprintf(s, "{%s%d}", rp(10) ? "0" : "", a); break;
	case 7: sprintf(s, "{%d,}", (int)rn(4)); break;
	case 8: a = (int)rn(4); b = a + (int)rn(4); sprintf(s, "{%s%d,%d}", rp(10) ? "00" : "", a, b); break;
	case 9: sprintf(s, "{,%d}", (int)rn(5)); break;
	case 10: strcpy(s, rp(80) ? "{,}" : "{0}"); break;
	default: a = rp(85) ? (int)rn(5) : (int)rn(40); b = a + (int)rn(rp(80) ? 4 : 30); sprintf(s, "{%d,%d}", a, b); break;
	}
	T(s);
}
static void gen_id(void) { char s[48]; sprintf(s, "{%s%u!}", rp(10) ? "0" : "", rp(85) ? rn(6) : rn(100000000)); T(s); }
static void gen_seq(int depth)
{
	int k, n = rp(8) ? 0 : 1 + (int)rn(4);
	if (rp(6)) gen_id();
	for (k = 0; k < n && budget > 0; k++) {
		u32 x = rn(100); budget--;
		if (x < 52) gen_lit();
		else if (x < 60) T(".");
		else if (x < 72) gen_class();
		else if (depth < 5) { T("("); gen_expr(depth + 1); T(")"); }
		else gen_lit();
		while (rp(30)) gen_iter();
		if (rp(12)) { gen_id(); if (rp(15)) gen_iter(); }
	}
}
static void gen_expr(int depth) { int n = rp(60) ? 1 : 1 + (int)rn(4); (void)p_expr_weight; gen_seq(depth); for (; n > 1; n--) { T("|"); gen_seq(depth); } }

/* a random string of the pattern */
static u8 smp[200]; static int nsmp;
static u8 pick(int x) { int k, c; for (k = 0; k < 30; k++) { c = rc(); if (HASB(x, c)) return (u8)c; } c = (int)rn(256); for (k = 0; k < 256; k++, c = (c + 1) & 255) if (HASB(x, c)) return (u8)c; return 'a'; }
static void sample(int x)
{
	int k, n;
	if (x < 0 || nsmp > 60) return;
	switch (nd[x].t) {
	case N_SET: smp[nsmp++] = pick(x); break;
	case N_CAT: sample(nd[x].l); sample(nd[x].r); break;
	case N_ALT: sample(rp(50) ? nd[x].l : nd[x].r); break;
	case N_OPT: if (rp(50)) sample(nd[x].l); break;
	case N_STAR: case N_PLUS: for (n = (int)rn(4) + (nd[x].t == N_PLUS); n > 0; n--) sample(nd[x].l); break;
	case N_REP: n = nd[x].a + (int)rn(nd[x].b < 0 ? 3 : (u32)(nd[x].b - nd[x].a + 1)); for (k = 0; k < n; k++) sample(nd[x].l); break;
	}
}
static void add_text(const u8 *s, int n, int chunky)
{
	int k;
	for (k = 0; k < n && npiece < MAXTXT; k++) { piece[npiece].s[0] = s[k]; piece[npiece].n = 1; piece[npiece].end = (int)rn(100) < chunky; npiece++; }
}
static void make_case(u64 seed, u64 n)
{
	int k, j, chunky, parts, raw; u8 c;
	rseed(seed, n);
	ntok = npiece = 0;
	flags = 0;
	if (rp(25)) flags |= REGEX_MATCH_BEGIN;
	if (rp(25)) flags |= REGEX_MATCH_END;
	if (rp(40)) flags |= REGEX_NEWLINE;
	if (rp(35)) flags |= REGEX_MATCH_NON_GREEDY;
	mode = (rp(30) ? 1 : 0) | (rp(30) ? 2 : 0) | (rp(30) ? 4 : 0) | (rp(10) ? 8 : 0);
	oom = rp(8) ? 1 + (int)rn(rp(50) ? 12 : 60) : 0;
	gen_alpha();
	budget = 2 + (int)rn(rp(80) ? 8 : 30);
	if (rp(20)) T("^");
	gen_expr(0);
	if (rp(20)) T("$");
	raw = rp(15);
	if (raw) for (k = 1 + (int)rn(3); k > 0; k--) { /* damage */
		static const char *const bad[] = { "(", ")", "[", "]", "{", "}", "*", "+", "?", "|", "\\", "$", "^", "{2", "{1,", "{3,1}", "{,", "[a-", "[^", "{1!", "{!}", "-", ",", "[]", "[^]", "{1}{", "{0,0}", "{,0}" };
		j = (int)rn((u32)ntok + 1);
		switch (rn(3)) {
		case 0: if (j < ntok) { memmove(tok + j, tok + j + 1, sizeof(tok[0]) * (size_t)(ntok - j - 1)); ntok--; } break;
		case 1: if (ntok < MAXTOK) { const char *b = bad[rn(sizeof(bad) / sizeof(bad[0]))]; memmove(tok + j + 1, tok + j, sizeof(tok[0]) * (size_t)(ntok - j)); tok[j].n = (int)strlen(b); memcpy(tok[j].s, b, strlen(b)); ntok++; } break;
		default: if (j < ntok && tok[j].n > 1) tok[j].n--; break;
		}
	}
	while (build_pat()) ntok--;
	ref_parse();
	chunky = rp(25) ? 100 : rp(30) ? 0 : rp(50) ? 50 : 10;
	if (perr || skip) { parts = 1; } else parts = 1 + (int)rn(4);
	for (k = 0; k < parts; k++) {
		u8 noise[40]; int m = (int)rn(rp(50) ? 4 : 14);
		for (j = 0; j < m; j++) noise[j] = rc();
		add_text(noise, m, chunky);
		if (!perr && !skip && rp(85)) {
			nsmp = 0; sample(root);
			if (rp(25) && nsmp) { j = (int)rn((u32)nsmp); switch (rn(3)) { case 0: smp[j] = rc(); break; case 1: nsmp = j; break; default: memmove(smp + j, smp + j + 1, (size_t)(nsmp - j - 1)); nsmp--; } }
			add_text(smp, nsmp, chunky);
		}
		if ((flags & REGEX_NEWLINE) && rp(60)) { c = rp(50) ? '\n' : '\r'; add_text(&c, 1, chunky); }
		if (rp(8) && npiece < MAXTXT) { piece[npiece].n = 0; piece[npiece].end = 1; npiece++; }
		if (rp(20) && npiece) { piece[npiece - 1].end = 2; }
	}
}
static void hex(FILE *f, const u8 *s, int n) { int k; if (!n) fprintf(f, "-"); for (k = 0; k < n; k++) fprintf(f, "%02x", s[k]); }
static void write_case(FILE *f)
{
	int k;
	fprintf(f, "regex %d %d %d\n", flags, mode, oom);
	for (k = 0; k < ntok; k++) { fprintf(f, "i p "); hex(f, tok[k].s, tok[k].n); fprintf(f, "\n"); }
	for (k = 0; k < npiece; k++) { fprintf(f, "i x %d ", piece[k].end); hex(f, piece[k].s, piece[k].n); fprintf(f, "\n"); }
	fprintf(f, "end\n");
}
static int unhex(const char *h, u8 *s, int max) { int n = 0; unsigned v; while (n < max && sscanf(h, "%2x", &v) == 1) { s[n++] = (u8)v; h += 2; } return n; }
static int read_case(FILE *f)
{
	char line[300], h[120]; int k;
	ntok = npiece = 0;
	while (fgets(line, sizeof(line), f)) {
		if (!strncmp(line, "end", 3)) return 0;
		if (sscanf(line, "regex %d %d %d", &flags, &mode, &oom) == 3) { if (flags & ~15) return 1; continue; }
		if (sscanf(line, "i p %100s", h) == 1) { if (ntok >= MAXTOK) return 1; tok[ntok].n = unhex(h, tok[ntok].s, 48); ntok++; }
		else if (sscanf(line, "i x %d %100s", &k, h) == 2) { if (npiece >= MAXTXT) return 1; piece[npiece].end = k; piece[npiece].n = unhex(h, piece[npiece].s, 24); npiece++; }
	}
	return 1;
}
int main(int argc, char **argv)
{
	long ps = sysconf(_SC_PAGESIZE); u8 *p;
	if (argc < 2) return 99;
	p = (u8*)mmap(NULL, 4 * (size_t)ps, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED || mprotect(p + 3 * ps, (size_t)ps, PROT_NONE)) return 99;
	page_end = p + 3 * ps;
	if (!strcmp(argv[1], "run") && argc >= 7) {
		u64 seed = strtoull(argv[3], NULL, 10), n = strtoull(argv[4], NULL, 10), end, stop = stop_at();
		progress_open(argv[6]);
		end = now_ms() + strtoull(argv[5], NULL, 10);
		for (; now_ms() < end && n <= stop; n++) {
			int r; u64 h;
			pg->cur = n; pg->phase = 0;
			if (n % 16 == 0) arm_watchdog(60);
			make_case(seed, n);
			pg->cases++; pg->instrs += (u64)(npat + npiece);
			r = run_case();
			if (r) { printf("MISMATCH case=%llu %s\n", (unsigned long long)n, msg); return r; }
			h = fnv(14695981039346656037ull, pat, (size_t)npat); h = fnv(h, piece, sizeof(piece[0]) * (size_t)npiece) + (u64)flags;
			if (nontriv && dset_add(h)) pg->nontriv++;
		}
		return 0;
	}
	if (!strcmp(argv[1], "dump") && argc >= 5) { make_case(strtoull(argv[3], NULL, 10), strtoull(argv[4], NULL, 10)); printf("# %.*s\n", npat, (char*)pat); write_case(stdout); return 0; }
	if (!strcmp(argv[1], "replay") && argc >= 3) {
		FILE *f = fopen(argv[2], "r"); int r;
		if (!f || read_case(f)) { printf("INVALID unreadable\n"); return 3; }
		fclose(f);
		arm_watchdog(60);
		r = run_case();
		if (r == 3) { printf("INVALID\n"); return 3; }
		if (r) { printf("MISMATCH %s\n", msg); return r; }
		printf("OK\n");
		return 0;
	}
	return 99;
}
