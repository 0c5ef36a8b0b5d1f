/* C09: histories of the executable allocator against a model.
   allocfuzz run <profile> <seed> <start> <ms> <progress> | dump <profile> <seed> <case> | replay <file>
   A case is a list of operations; block numbers are taken modulo the number of live blocks. */
#include "core.h"
#include "osfault.h"

#if (defined SLJIT_PROT_EXECUTABLE_ALLOCATOR && SLJIT_PROT_EXECUTABLE_ALLOCATOR)
#define PROT 1
#else
#define PROT 0
#endif
#if (defined SLJIT_WX_EXECUTABLE_ALLOCATOR && SLJIT_WX_EXECUTABLE_ALLOCATOR)
#define WX 1
#else
#define WX 0
#endif
#if (defined SLJIT_CONFIG_X86 && SLJIT_CONFIG_X86)
#define EMULATED 0
#else
#define EMULATED 1
#endif

enum { O_ALLOC, O_GAP, O_GEN, O_FREE, O_UNUSED, O_REWRITE, O_RUN, O_FREEALL, O_HUGE, O_N };
static const char *on[] = { "alloc", "gap", "gen", "free", "unused", "rewrite", "run", "freeall", "huge" };
typedef struct { int k, a, b, fail; } op;
#define MAXOP 200
static op ops[MAXOP]; static int nops;

typedef struct { u8 *p; /* writable address */ sw off; uw size; u32 pat; int gen; void *code; uw ret; int filled; } blk;
#define MAXB 64
static blk bl[MAXB]; static int nb;
static char msg[500];
#define FAIL(...) do { snprintf(msg, sizeof(msg), __VA_ARGS__); return 10; } while (0)

/* position independent functions, used as content of raw blocks */
static u8 tpl[4][256]; static uw tpl_size[4], tpl_ret[4]; static int tpl_bit; static sw tpl_off;
typedef sljit_uw (SLJIT_FUNC *fn0)(void);
static void *compile(uw value, int pad)
{
	struct sljit_compiler *c = sljit_create_compiler(NULL); void *code; int k;
	sljit_emit_enter(c, 0, SLJIT_ARGS0(W), 1, 0, 0);
	for (k = 0; k < pad; k++) sljit_emit_op0(c, SLJIT_NOP);
	sljit_emit_return(c, SLJIT_MOV, SLJIT_IMM, (sw)value);
	code = sljit_generate_code(c, 0, NULL);
	tpl_off = code ? sljit_get_executable_offset(c) : 0;
	tpl_size[0] = code ? sljit_get_generated_code_size(c) : 0; /* also used as the size of the last code */
	if (!code && sljit_get_compiler_error(c) != SLJIT_ERR_EX_ALLOC_FAILED) os_err = "code generation failed with a wrong error";
	sljit_free_compiler(c);
	return code;
}
static void make_templates(void)
{
	int k; uw sz[4];
	for (k = 0; k < 4; k++) {
		void *code; uw a;
		tpl_ret[k] = 0x1230 + (uw)k;
		code = compile(tpl_ret[k], 0);
		if (!code) { fprintf(stderr, "INFRA: template\n"); exit(99); }
		a = (uw)code; tpl_bit = (int)(a & 1); a &= ~(uw)1;
		sz[k] = tpl_size[0];
		if (sz[k] > 256) { fprintf(stderr, "INFRA: template size\n"); exit(99); }
		memcpy(tpl[k], (void*)a, sz[k]);
		sljit_free_code(code, NULL);
	}
	for (k = 0; k < 4; k++) tpl_size[k] = sz[k];
}
static u8 pat_at(u32 pat, uw k) { return (u8)((pat >> ((k & 3) * 8)) + k * 7 + (k >> 8)); }

static void fill(blk *b)
{
	uw k, n = 0;
	if (b->gen) return;
	if (b->size >= tpl_size[b->pat & 3]) { n = tpl_size[b->pat & 3]; memcpy(b->p, tpl[b->pat & 3], n); }
	for (k = n; k < b->size; k++) b->p[k] = pat_at(b->pat, k);
	b->filled = 1;
}
static int check_block(const blk *b, int full)
{
	uw k, n = 0, step; const u8 *x = b->p + b->off;
	if (b->gen) return 0; /* checked by execution and by the copy below */
	if (b->size >= tpl_size[b->pat & 3]) { n = tpl_size[b->pat & 3]; if (memcmp(b->p, tpl[b->pat & 3], n) || memcmp(x, tpl[b->pat & 3], n)) FAIL("the start of a live block of %llu bytes changed", (unsigned long long)b->size); }
	step = full || b->size < 300 ? 1 : b->size / 256 * 2 + 1;
	for (k = n; k < b->size; k += (k < 64 || k + 128 > b->size) ? 1 : step) if (b->p[k] != pat_at(b->pat, k) || x[k] != pat_at(b->pat, k)) FAIL("byte %llu of a live block of %llu bytes changed", (unsigned long long)k, (unsigned long long)b->size);
	if (b->size && (b->p[b->size - 1] != (b->size > n ? pat_at(b->pat, b->size - 1) : b->p[b->size - 1]))) FAIL("the last byte of a live block of %llu bytes changed", (unsigned long long)b->size);
	return 0;
}
static int run_block(const blk *b)
{
	uw r, want, a, lo, hi;
	if (b->gen) { a = (uw)b->code; want = b->ret; }
	else { if (b->size < tpl_size[b->pat & 3]) return 0; a = (uw)(b->p + b->off) | (uw)tpl_bit; want = tpl_ret[b->pat & 3]; }
	lo = (a & ~(uw)4095); hi = PG_UP((a & ~(uw)1) + b->size);
	if (WX && !b->gen) __real_mprotect((void*)lo, hi - lo, PROT_READ | PROT_EXEC);
	if (EMULATED && PROT) { __real_mprotect((void*)lo, hi - lo, PROT_NONE); __real_mprotect((void*)lo, hi - lo, PROT_READ | PROT_EXEC); }
#if EMULATED
	__builtin___clear_cache((char*)(a & ~(uw)1), (char*)(a & ~(uw)1) + b->size);
#endif
	pg->phase = 3;
	r = ((fn0)a)();
	pg->phase = 4;
	if (WX && !b->gen) __real_mprotect((void*)lo, hi - lo, PROT_READ | PROT_WRITE);
	if (r != want) FAIL("the code of a live block returns %llx instead of %llx", (unsigned long long)r, (unsigned long long)want);
	pg->extra[12]++;
	return 0;
}
/* a new block: inside of the mappings, aligned, disjoint */
static int check_new(const blk *b, const char *what)
{
	int k; osmap *m, *x; const u8 *e = b->p + b->off;
	if ((uw)b->p & (sizeof(sljit_uw) - 1)) FAIL("%s: block %p is not aligned", what, (void*)b->p);
	if (!(m = os_find(b->p, b->size)) || (!b->gen && !(m->prot & PROT_WRITE))) FAIL("%s: a block of %llu bytes is not in writable memory of the allocator", what, (unsigned long long)b->size);
	if (!(x = os_find(e, b->size)) || (!WX && !(x->prot & PROT_EXEC))) FAIL("%s: a block of %llu bytes is not in executable memory of the allocator", what, (unsigned long long)b->size);
	for (k = 0; k < nb; k++) if (b != &bl[k] && ((b->p < bl[k].p + bl[k].size && bl[k].p < b->p + b->size) || (e < bl[k].p + bl[k].off + bl[k].size && bl[k].p + bl[k].off < e + b->size)))
		FAIL("%s: a block of %llu bytes overlaps a live block of %llu bytes", what, (unsigned long long)b->size, (unsigned long long)bl[k].size);
	return 0;
}
/* free space between live blocks: gap n of the writable mappings */
static int in_map(const osmap *m, const u8 *p) { return p >= m->p && p < m->p + m->len; }
static uw gap_list(uw *out, int max, int *cnt)
{
	int k, j, n = 0; uw best = 0;
	for (k = 0; k < os_nmap; k++) {
		const u8 *at = os_map[k].p, *nx; int any = 0, go = 1;
		if (PROT && !(os_map[k].prot & PROT_WRITE)) continue;
		while (go) {
			const u8 *ne = NULL;
			nx = os_map[k].p + os_map[k].len; go = 0;
			for (j = 0; j < nb; j++) if (in_map(&os_map[k], bl[j].p) && bl[j].p >= at && bl[j].p < nx) { nx = bl[j].p; ne = bl[j].p + (bl[j].size ? bl[j].size : 1); go = 1; any = 1; }
			if (nx > at) { uw g = (uw)(nx - at); if (n < max) out[n++] = g; if (g > best) best = g; }
			if (go) at = ne;
		}
		(void)any;
	}
	*cnt = n;
	return best;
}
static int maps_used(const osmap *m) { int j; for (j = 0; j < nb; j++) if (in_map(m, bl[j].p) || in_map(m, bl[j].p + bl[j].off)) return 1; return 0; }
static int after_op(const char *what, int full)
{
	int k, r;
	if (os_err) { const char *e = os_err; os_err = NULL; FAIL("%s: %s", what, e); }
	if (os_nfd) { os_nfd = 0; FAIL("%s: a file is left open", what); }
	for (k = 0; k < nb; k++) {
		if (!os_find(bl[k].p, bl[k].size) || !os_find(bl[k].p + bl[k].off, bl[k].size)) FAIL("%s: the memory of a live block was released", what);
		if ((r = check_block(&bl[k], full)) != 0) { char s[300]; snprintf(s, sizeof(s), "%s", msg); FAIL("%s: %s", what, s); }
	}
	return 0;
}
static int do_free(int k)
{
	blk b = bl[k];
	bl[k] = bl[--nb];
	os_enter(0);
	if (b.gen) sljit_free_code(b.code, NULL); else sljit_free_exec(b.p + b.off);
	os_leave();
	pg->extra[2]++;
	return 0;
}
static int run_case(void)
{
	int n, r, k, c; uw gaps[256];
	nb = 0; os_err = NULL; os_nfd = 0;
	if (os_nmap) FAIL("%d mappings are left from the previous history", os_nmap);
	for (n = 0; n < nops; n++) {
		op *o = &ops[n]; char what[80]; blk *b = &bl[nb]; uw size = 0, big; int maps = os_nmap, failed;
		snprintf(what, sizeof(what), "operation %d (%s)", n, on[o->k]);
		switch (o->k) {
		case O_GAP: case O_ALLOC: case O_HUGE:
			size = (uw)o->a;
			big = gap_list(gaps, 256, &c);
			if (o->k == O_GAP) { if (!c) { break; } size = gaps[o->a % c]; size = size > (uw)o->b ? size - (uw)o->b : 1; }
			if (o->k == O_HUGE) size = o->b ? ((uw)1 << (WBITS - o->b)) + (uw)(sw)o->a : (uw)(sw)o->a;
			if (nb >= MAXB) break;
			os_enter(o->fail);
			c = (int)os_mmaps;
			b->p = (u8*)sljit_malloc_exec(size);
			c = (int)os_mmaps - c;
			failed = os_failed;
			os_leave();
			pg->extra[0]++;
			if (!b->p) {
				if (!failed && size < (uw)1 << 21) FAIL("%s: %llu bytes are refused without a reason", what, (unsigned long long)size);
				if (os_nmap != maps) FAIL("%s: a failed allocation changed the number of mappings from %d to %d", what, maps, os_nmap);
				pg->extra[failed ? 3 : 4]++;
				break;
			}
			if (size > (uw)1 << 22) FAIL("%s: a block for %llu bytes was returned", what, (unsigned long long)size);
			/* freed memory is used again: no new mapping when a gap is big enough, with all headers and rounding */
			if (!WX && c && big >= size + 320) FAIL("%s: new memory is mapped for %llu bytes, %llu continuous bytes are free", what, (unsigned long long)size, (unsigned long long)big);
			if (!c) pg->extra[5]++;
			b->size = size; b->gen = 0; b->pat = (u32)(o->a * 2654435761u) ^ (u32)n * 40503u ^ (u32)o->b; b->off = SLJIT_EXEC_OFFSET(b->p); b->filled = 0;
			nb++;
			if ((r = check_new(b, what)) != 0) return r;
			fill(b);
			break;
		case O_GEN:
			if (nb >= MAXB) break;
			b->ret = (uw)(o->b * 2654435761u) ^ (uw)n;
			{ uw k0 = tpl_size[0];
			os_enter(o->fail);
			b->code = compile(b->ret, o->a);
			failed = os_failed;
			os_leave();
			b->size = tpl_size[0]; tpl_size[0] = k0; }
			pg->extra[1]++;
			if (!b->code) { if (!failed) FAIL("%s: code generation failed without a reason", what); if (os_nmap != maps) FAIL("%s: failed code generation changed the number of mappings", what); pg->extra[3]++; break; }
			b->gen = 1; b->off = tpl_off; b->p = (u8*)((uw)b->code & ~(uw)1) - b->off;
			nb++;
			if ((r = check_new(b, what)) != 0) return r;
			if ((r = run_block(b)) != 0) return r;
			break;
		case O_FREE: if (nb) do_free(o->a % nb); break;
		case O_FREEALL: while (nb) { do_free(o->a % nb); if ((r = after_op(what, 0)) != 0) return r; } break;
		case O_UNUSED:
			os_enter(0); sljit_free_unused_memory_exec(); os_leave();
			pg->extra[6]++;
			for (k = 0; k < os_nmap; k++) if (!maps_used(&os_map[k])) FAIL("%s: a mapping without live blocks is not released", what);
			break;
		case O_REWRITE: if (nb) { b = &bl[o->a % nb]; b->pat = (u32)o->b * 97u; fill(b); } break;
		case O_RUN: if (nb && (r = run_block(&bl[o->a % nb])) != 0) return r; break;
		}
		if ((r = after_op(what, 0)) != 0) return r;
	}
	for (k = 0; k < nb; k++) if ((r = run_block(&bl[k])) != 0) return r;
	if ((r = after_op("end", 1)) != 0) return r;
	while (nb) do_free(nb / 2);
	os_enter(0); sljit_free_unused_memory_exec(); os_leave();
	if ((r = after_op("final release", 1)) != 0) return r;
	if (os_nmap) FAIL("%d mappings are left after everything was freed", os_nmap);
	return 0;
}

/* ---------- generation ---------- */
static int gen_size(void)
{
	switch (rn(10)) {
	case 0: return rrange(0, 64);
	case 1: case 2: case 3: return rrange(1, 400);
	case 4: case 5: return rrange(1, 9000);
	case 6: return 65536 * rrange(1, 3) - rrange(0, 300);
	case 7: return rrange(1, 70000);
	case 8: return 4096 * rrange(1, 20) - rrange(-80, 160);
	default: return rrange(1, 300000);
	}
}
static int make_case(u64 seed, u64 n)
{
	int k, style, fl; u32 kinds = 0;
	rseed(seed, n);
	nops = 3 + (int)rn(rp(30) ? MAXOP - 4 : 40); style = (int)rn(4); fl = rp(50) ? 0 : (int)rn(30);
	for (k = 0; k < nops; k++) {
		op *o = &ops[k]; u32 x = rn(100);
		memset(o, 0, sizeof(*o));
		if (x < (style == 0 ? 50u : 38u)) { o->k = O_ALLOC; o->a = style == 3 ? rrange(1, 200) : gen_size(); o->b = (int)rn(1 << 20); }
		else if (x < 52) { o->k = O_GAP; o->a = (int)rn(256); o->b = rp(60) ? rrange(0, 200) : gen_size(); }
		else if (x < 58) { o->k = O_GEN; o->a = rp(80) ? rrange(0, 100) : rrange(0, 9000); o->b = (int)rn(1 << 30); }
		else if (x < 82) { o->k = O_FREE; o->a = (int)rn(1000); }
		else if (x < 85) o->k = O_UNUSED;
		else if (x < 89) { o->k = O_REWRITE; o->a = (int)rn(1000); o->b = (int)rn(1 << 20); }
		else if (x < 95) { o->k = O_RUN; o->a = (int)rn(1000); }
		else if (x < 97) { o->k = O_FREEALL; o->a = (int)rn(1000); }
		else { o->k = O_HUGE; o->b = rp(60) ? 0 : rrange(1, 4); o->a = o->b ? rrange(-100, 100) : -rrange(1, 200); if (rp(20)) { o->b = 0; o->a = -65536 - rrange(-200, 200); } }
		if (rp(fl)) o->fail = rrange(1, 5);
		kinds |= 1u << o->k;
	}
	return (kinds & ((1 << O_ALLOC) | (1 << O_GAP) | (1 << O_GEN))) && (kinds & ((1 << O_FREE) | (1 << O_FREEALL)));
}
static void write_case(FILE *f) { int k; fprintf(f, "alloc\n"); for (k = 0; k < nops; k++) fprintf(f, "i %s %d %d %d\n", on[ops[k].k], ops[k].a, ops[k].b, ops[k].fail); fprintf(f, "end\n"); }
static int read_case(FILE *f)
{
	char line[300], w[30]; nops = 0;
	while (fgets(line, sizeof(line), f)) {
		op o; int k;
		if (!strncmp(line, "end", 3)) return 0;
		if (sscanf(line, "i %29s %d %d %d", w, &o.a, &o.b, &o.fail) != 4) continue;
		for (k = 0; k < O_N && strcmp(on[k], w); k++) ;
		if (k == O_N || nops >= MAXOP || (k != O_HUGE && o.a < 0) || o.b < 0 || o.b > (k == O_HUGE ? 30 : 1 << 30)) return 1;
		o.k = k; ops[nops++] = o;
	}
	return 1;
}
int main(int argc, char **argv)
{
	if (argc < 2) return 99;
	make_templates();
	os_enter(0); sljit_free_unused_memory_exec(); os_leave();
	os_err = NULL; os_nmap = 0;
	if (!strcmp(argv[1], "run") && argc >= 7) {
		u64 seed = strtoull(argv[3], NULL, 10), n = strtoull(argv[4], NULL, 10), end, stop = stop_at();
		progress_open(argv[6]);
		end = now_ms() + strtoull(argv[5], NULL, 10);
		for (; now_ms() < end && n <= stop; n++) {
			int nt, r;
			pg->cur = n; pg->phase = 0;
			if (n % 16 == 0) arm_watchdog(20);
			nt = make_case(seed, n);
			pg->cases++; pg->instrs += (u64)nops;
			if (nt && dset_add(fnv(14695981039346656037ull, ops, sizeof(op) * (size_t)nops))) pg->nontriv++;
			r = run_case();
			if (r) { printf("MISMATCH case=%llu %s\n", (unsigned long long)n, msg); return 10; }
		}
		return 0;
	}
	if (!strcmp(argv[1], "dump") && argc >= 5) { make_case(strtoull(argv[3], NULL, 10), strtoull(argv[4], NULL, 10)); write_case(stdout); return 0; }
	if (!strcmp(argv[1], "replay") && argc >= 3) {
		FILE *f = fopen(argv[2], "r"); int r;
		if (!f || read_case(f)) { printf("INVALID unreadable\n"); return 3; }
		fclose(f);
		arm_watchdog(20);
		r = run_case();
		if (r) { printf("MISMATCH %s\n", msg); return 10; }
		printf("OK\n");
		return 0;
	}
	return 99;
}
