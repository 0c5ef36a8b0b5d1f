/* C15: histories of the utility stack against a model.
   stackfuzz run <profile> <seed> <start> <ms> <progress> | dump <profile> <seed> <case> | replay <file>
   A case is a list of operations on up to four stacks; sizes and positions are in bytes. */
#include "core.h"
#include "osfault.h"

#if (defined SLJIT_UTIL_SIMPLE_STACK_ALLOCATION && SLJIT_UTIL_SIMPLE_STACK_ALLOCATION)
#define SIMPLE 1
#else
#define SIMPLE 0
#endif

/* ---------- memory requests ---------- */
#define GUARD 32
#define HMAX 64
static struct { u8 *p; uw size; void *data; } hb[HMAX]; static int nhb; static const char *herr; static int hfail, hfailed;
void *vt_malloc(unsigned long size, void *data)
{
	u8 *p; uw k;
	if (!os_in) return malloc(size);
	if (hfail && --hfail == 0) { hfailed = 1; return NULL; }
	if ((uw)size > (uw)1 << 22 || nhb >= HMAX) return NULL;
	p = (u8*)malloc(size + 2 * GUARD); if (!p) return NULL;
	for (k = 0; k < GUARD; k++) { p[k] = 0xa5; p[GUARD + size + k] = 0x5a; }
	memset(p + GUARD, 0xcd, size);
	hb[nhb].p = p + GUARD; hb[nhb].size = size; hb[nhb++].data = data;
	return p + GUARD;
}
static void hcheck(int k) { uw j; for (j = 0; j < GUARD; j++) if (hb[k].p[-1 - (sw)j] != 0xa5 || hb[k].p[hb[k].size + j] != 0x5a) herr = "the memory around a block was changed"; }
void vt_free(void *ptr, void *data)
{
	int k;
	if (!os_in) { free(ptr); return; }
	if (!ptr) return;
	for (k = 0; k < nhb; k++) if (hb[k].p == ptr) {
		if (hb[k].data != data) herr = "a block was released with an other allocator data";
		hcheck(k); memset(hb[k].p, 0xdd, hb[k].size); free(hb[k].p - GUARD); hb[k] = hb[--nhb]; return;
	}
	herr = "release of a block that was not allocated";
}
int vt_exec_ok(unsigned long size, void *data) { (void)size; (void)data; return 1; }
void *vt_exec_got(void *p) { return p; }
void vt_exec_freed(void *p) { (void)p; }

enum { O_NEW, O_BAD, O_RESIZE, O_REFUSED, O_WRITE, O_TOP, O_FREE, O_N };
static const char *on[] = { "new", "bad", "resize", "refused", "write", "top", "free" };
typedef struct { int k, a, b, c, fail; } op;
#define MAXOP 120
static op ops[MAXOP]; static int nops;
#define NS 4
typedef struct { struct sljit_stack *s; struct sljit_stack v; void *data; uw size, max; u8 *sh; uw cap; } st;
static st tb[NS];
static uw page;
static char msg[400];
#define FAIL(...) do { snprintf(msg, sizeof(msg), __VA_ARGS__); return 10; } while (0)

/* the shadow copy is indexed downwards from the end of the stack */
#define SHMAX ((uw)1 << 20)
static u8 pat(u32 p, uw k) { return (u8)(p + (p >> 8) * k + (k >> 8) * 3 + 1); }
static int check(const st *t, const char *what, int full)
{
	const struct sljit_stack *s = t->s; uw k, step = full || t->size < 512 ? 1 : t->size / 301 + 1;
	if (memcmp(s, &t->v, sizeof(*s))) FAIL("%s: the fields of a stack are changed: top %lld start %lld end %lld min_start %lld", what, (long long)(s->top - t->v.top), (long long)(s->start - t->v.start), (long long)(s->end - t->v.end), (long long)(s->min_start - t->v.min_start));
	for (k = 1; k <= t->size; k += (k < 64 || t->size - k < 96) ? 1 : step) if (s->end[-(sw)k] != t->sh[k]) FAIL("%s: byte %llu below the end changed (size %llu)", what, (unsigned long long)k, (unsigned long long)t->size);
	return 0;
}
static int reserved(const st *t)
{
	uw len = (uw)(t->s->end - t->s->min_start); int k;
	if (SIMPLE) { for (k = 0; k < nhb; k++) if (t->s->min_start >= hb[k].p && t->s->end <= hb[k].p + hb[k].size) return 1; return 0; }
	return os_find(t->s->min_start, len) != NULL;
}
static int after_op(const char *what, int full)
{
	int k, r, j, n = 0;
	if (os_err) { const char *e = os_err; os_err = NULL; FAIL("%s: %s", what, e); }
	for (k = 0; k < nhb; k++) hcheck(k);
	if (herr) { const char *e = herr; herr = NULL; FAIL("%s: %s", what, e); }
	for (k = 0; k < NS; k++) if (tb[k].s) {
		n++;
		if (!reserved(&tb[k])) FAIL("%s: the memory of a live stack was released", what);
		if ((r = check(&tb[k], what, full)) != 0) return r;
		for (j = 0; j < k; j++) if (tb[j].s && tb[j].s->min_start < tb[k].s->end && tb[k].s->min_start < tb[j].s->end) FAIL("%s: two stacks overlap", what);
	}
	if (SIMPLE ? (os_nmap || nhb != 2 * n) : (os_nmap != n || nhb != n)) FAIL("%s: %d stacks are live, with %d mappings and %d blocks", what, n, os_nmap, nhb);
	return 0;
}
static void paint(st *t, uw from, uw to, u32 p) { uw k; for (k = from + 1; k <= to; k++) t->s->end[-(sw)k] = t->sh[k] = pat(p, k); }

static int do_new(op *o, const char *what, uw size, uw max)
{
	st *t = &tb[o->c % NS]; struct sljit_stack *s; int failed, bad = size > max || size < 1;
	if (t->s) return 0;
	t->data = (void*)(uw)(o->c & 0xff0);
	os_enter(o->fail & 15); hfail = o->fail >> 4; hfailed = 0;
	s = sljit_allocate_stack(size, max, t->data);
	failed = os_failed | hfailed; os_leave(); hfail = 0;
	if (!s) {
		if (!failed && !bad && max < SHMAX) FAIL("%s: a stack of %llu bytes with limit %llu is refused", what, (unsigned long long)size, (unsigned long long)max);
		pg->extra[bad ? 2 : failed ? 3 : 4]++;
		return 0;
	}
	t->s = s; t->v = *s; t->size = size; t->max = max;
	if (bad) FAIL("%s: start size %llu and maximum size %llu are accepted", what, (unsigned long long)size, (unsigned long long)max);
	if ((uw)(s->end - s->start) != size) FAIL("%s: the stack has %lld bytes instead of %llu", what, (long long)(s->end - s->start), (unsigned long long)size);
	if (s->top != s->end) FAIL("%s: top is not initialized", what);
	if (s->start < s->min_start) FAIL("%s: start is below min_start", what);
	if ((uw)(s->end - s->min_start) < max) FAIL("%s: %lld bytes are reserved, %llu are requested", what, (long long)(s->end - s->min_start), (unsigned long long)max);
	if (!SIMPLE && (uw)(s->end - s->min_start) >= max + page) FAIL("%s: %lld bytes are reserved, %llu are requested", what, (long long)(s->end - s->min_start), (unsigned long long)max);
	if (!SIMPLE && ((uw)s->end & (page - 1))) FAIL("%s: the end is not aligned to a page", what);
	if (!reserved(t)) FAIL("%s: the stack is not inside of the reserved memory", what);
	t->max = (uw)(s->end - s->min_start);
	if (t->max > SHMAX + 65536) FAIL("%s: stack of %llu bytes", what, (unsigned long long)t->max);
	if (t->cap < t->max + 1) { free(t->sh); t->sh = (u8*)malloc(t->max + 1); t->cap = t->max + 1; }
	paint(t, 0, size, (u32)o->a * 40503u + (u32)o->c);
	pg->extra[0]++;
	return 0;
}
static void do_free(st *t)
{
	struct sljit_stack *s = t->s; t->s = NULL;
	os_enter(0); sljit_free_stack(s, t->data); os_leave();
	pg->extra[1]++;
}
static int run_case(void)
{
	int n, r, k;
	os_err = herr = NULL; memset(&tb[0].s, 0, sizeof(tb[0].s));
	for (k = 0; k < NS; k++) tb[k].s = NULL;
	if (os_nmap || nhb) FAIL("memory is left from the previous history");
	for (n = 0; n < nops; n++) {
		op *o = &ops[n]; st *t = &tb[o->c % NS]; char what[60]; u8 *ns, *res; uw old, want;
		snprintf(what, sizeof(what), "operation %d (%s)", n, on[o->k]);
		switch (o->k) {
		case O_NEW: if ((r = do_new(o, what, (uw)o->a, (uw)o->a + (uw)o->b)) != 0) return r; break;
		case O_BAD: /* refused sizes: zero, start over maximum, huge values */
			{ uw x = (uw)o->b, s, m;
			switch (o->a % 6) { case 0: s = 0; m = x; break; case 1: s = x + 1; m = x; break; case 2: s = ~(uw)0 - x; m = x; break; case 3: s = 0; m = 0; break;
			case 4: s = ~(uw)0 - x; m = ~(uw)0 - x / 2; break; default: s = x + 1; m = ~(uw)0 - x; break; }
			if ((r = do_new(o, what, s, m)) != 0) return r; }
			break;
		case O_RESIZE:
			if (!t->s) break;
			old = t->size; want = (uw)o->a % t->max + 1;
			if (o->b & 1) { want = (want + page - 1) & ~(page - 1); if (want > t->max) want = t->max; }
			else if (o->b & 2) { sw d = (o->b >> 3) % 41 - 20; sw w = (sw)old + d; want = w < 1 ? 1 : w > (sw)t->max ? t->max : (uw)w; }
			else if (o->b & 4) want = (o->b & 8) ? t->max : 1;
			ns = t->s->end - want;
			os_enter(o->fail & 15); res = sljit_stack_resize(t->s, ns); os_leave();
			if (res != ns) FAIL("%s: resize from %llu to %llu of %llu bytes returned %s", what, (unsigned long long)old, (unsigned long long)want, (unsigned long long)t->max, res ? "a wrong address" : "NULL");
			t->v.start = ns; t->size = want;
			if (want > old) paint(t, old, want, (u32)o->a * 977u + (u32)o->b);
			pg->extra[want > old ? 5 : 6]++;
			break;
		case O_REFUSED:
			if (!t->s) break;
			switch (o->a % 4) { case 0: ns = t->s->end + o->b; break; case 1: ns = t->s->min_start - 1 - o->b; break; case 2: ns = NULL; break; default: ns = (u8*)(~(uw)0 - (uw)o->b); break; }
			os_enter(o->fail & 15); res = sljit_stack_resize(t->s, ns); os_leave();
			if (res) FAIL("%s: a start outside of the reserved area is accepted", what);
			pg->extra[7]++;
			break;
		case O_WRITE: if (t->s) { uw a = (uw)o->a % t->size, b = (uw)o->b % t->size; paint(t, a < b ? a : b, a < b ? b : a, (u32)o->a + (u32)o->b); } break;
		case O_TOP: if (t->s) { t->s->top = t->v.top = o->b & 1 ? t->s->end - (uw)o->a % (t->size + 1) : (u8*)(uw)o->a; } break;
		case O_FREE: if (t->s) do_free(t); break;
		}
		if ((r = after_op(what, 0)) != 0) return r;
	}
	if ((r = after_op("end", 1)) != 0) return r;
	for (k = 0; k < NS; k++) if (tb[k].s) do_free(&tb[k]);
	return after_op("release", 1);
}

static int gen_size(void)
{
	switch (rn(8)) {
	case 0: return rrange(1, 16);
	case 1: return rrange(1, 4096);
	case 2: case 3: return 4096 * rrange(1, 8) - rrange(-2, 2);
	case 4: return 65536 * rrange(1, 4) - rrange(-2, 2);
	case 5: return rrange(1, 40000);
	default: return rrange(1, 300000);
	}
}
static int make_case(u64 seed, u64 n)
{
	int k, single, small; u32 kinds = 0;
	rseed(seed, n);
	nops = 2 + (int)rn(rp(30) ? MAXOP - 4 : 30); single = rp(40); small = rp(50);
	for (k = 0; k < nops; k++) {
		op *o = &ops[k]; u32 x = rn(100);
		memset(o, 0, sizeof(*o)); o->c = (int)rn(0x1000) & (single ? ~3 : ~0);
		if (!k || x < 16) { o->k = O_NEW; o->a = rp(40) ? rrange(1, 64) : gen_size(); o->b = rp(15) ? 0 : gen_size(); if (rp(12)) o->fail = rp(50) ? rrange(1, 2) : rrange(1, 2) << 4;
			if (small) { o->a = o->a % 20000 + 1; o->b %= 40000; } }
		else if (x < 20) { o->k = O_BAD; o->a = (int)rn(6); o->b = rp(50) ? rrange(0, 5000) : gen_size(); }
		else if (x < 65) { o->k = O_RESIZE; o->a = (int)rn(1 << 22); o->b = rp(40) ? 0 : (int)rn(1000); if (rp(10)) o->fail = rrange(1, 2); }
		else if (x < 73) { o->k = O_REFUSED; o->a = (int)rn(4); o->b = rp(50) ? (int)rn(3) : gen_size(); }
		else if (x < 86) { o->k = O_WRITE; o->a = (int)rn(1 << 20); o->b = (int)rn(1 << 20); }
		else if (x < 92) { o->k = O_TOP; o->a = (int)rn(1 << 20); o->b = (int)rn(2); }
		else o->k = O_FREE;
		kinds |= 1u << o->k;
	}
	return (kinds & (1 << O_RESIZE)) != 0;
}
static void write_case(FILE *f) { int k; fprintf(f, "stack\n"); for (k = 0; k < nops; k++) fprintf(f, "i %s %d %d %d %d\n", on[ops[k].k], ops[k].a, ops[k].b, ops[k].c, ops[k].fail); fprintf(f, "end\n"); }
static int read_case(FILE *f)
{
	char line[300], w[30]; nops = 0;
	while (fgets(line, sizeof(line), f)) {
		op o; int k;
		if (!strncmp(line, "end", 3)) return 0;
		if (sscanf(line, "i %29s %d %d %d %d", w, &o.a, &o.b, &o.c, &o.fail) != 5) continue;
		for (k = 0; k < O_N && strcmp(on[k], w); k++) ;
		if (k == O_N || nops >= MAXOP || o.a < 0 || o.b < 0 || o.c < 0 || o.a > 1 << 22 || o.b > 1 << 22 || (k == O_NEW && (o.a < 1 || o.a + o.b > 700000))) return 1;
		o.k = k; ops[nops++] = o;
	}
	return 1;
}
int main(int argc, char **argv)
{
	if (argc < 2) return 99;
	page = (uw)sysconf(_SC_PAGESIZE);
	if (!strcmp(argv[1], "run") && argc >= 7) {
		u64 seed = strtoull(argv[3], NULL, 10), n = strtoull(argv[4], NULL, 10), end, stop = stop_at();
		progress_open(argv[6]);
		end = now_ms() + strtoull(argv[5], NULL, 10);
		for (; now_ms() < end && n <= stop; n++) {
			int nt, r;
			pg->cur = n; pg->phase = 0;
			if (n % 16 == 0) arm_watchdog(20);
			nt = make_case(seed, n);
			pg->cases++; pg->instrs += (u64)nops;
			if (nt && dset_add(fnv(14695981039346656037ull, ops, sizeof(op) * (size_t)nops))) pg->nontriv++;
			r = run_case();
			if (r) { printf("MISMATCH case=%llu %s\n", (unsigned long long)n, msg); return 10; }
		}
		return 0;
	}
	if (!strcmp(argv[1], "dump") && argc >= 5) { make_case(strtoull(argv[3], NULL, 10), strtoull(argv[4], NULL, 10)); write_case(stdout); return 0; }
	if (!strcmp(argv[1], "replay") && argc >= 3) {
		FILE *f = fopen(argv[2], "r"); int r;
		if (!f || read_case(f)) { printf("INVALID unreadable\n"); return 3; }
		fclose(f);
		arm_watchdog(20);
		r = run_case();
		if (r) { printf("MISMATCH %s\n", msg); return 10; }
		printf("OK\n");
		return 0;
	}
	return 99;
}
