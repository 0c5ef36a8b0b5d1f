/* Long codes: blocks in one code with gaps of chosen sizes between them are visited in a random order by all kinds of jumps.
   spanfuzz run <profile> <seed> <start> <ms> <progress> | dump <profile> <seed> <case> | replay <file> */
#include "core.h"

static u8 *area, *next_block; static uw area_size, got_size;
void *vt_exec_alloc(unsigned long size)
{
	if (!next_block || size + 64 > area_size) return NULL;
	got_size = size; next_block = NULL;
	memset(area + size, 0xa5, 64);
	return area;
}
void vt_exec_release(void *ptr) { (void)ptr; }

#if (defined SLJIT_CONFIG_X86 && SLJIT_CONFIG_X86)
#define NOPSZ 1
#elif (defined SLJIT_CONFIG_ARM_THUMB2 && SLJIT_CONFIG_ARM_THUMB2) || (defined SLJIT_CONFIG_S390X && SLJIT_CONFIG_S390X) || (defined SLJIT_CONFIG_RISCV && SLJIT_CONFIG_RISCV && defined __riscv_compressed)
#define NOPSZ 2
#else
#define NOPSZ 4
#endif
#define MAXB 10
#define MAXX 8 /* extra items of a block */
enum { X_CMPF, X_FLAGF, X_FCMPF, X_OPZF, X_SUB, X_ADDR, X_CONST, X_CMPT, X_FLAGT, X_FCMPT, X_OPZT, X_JUMP, X_IJUMP, X_SUBI, X_MEMADDR, X_NK };
static const char *xn[] = { "cmpf", "flagf", "fcmpf", "opzf", "sub", "addr", "const", "cmp", "flag", "fcmp", "opz", "jump", "ijump", "subi", "maddr" };
/* the items below X_CMPT and above X_IJUMP fall through, those between transfer to the next block */
typedef struct { int k, t, rw, a; s64 v; } xitem;
typedef struct { int nx; xitem x[MAXX]; xitem last; s64 gap; int nops, align; int sub; /* the block is a subroutine */ } block;
static block bl[MAXB]; static int nb, order[MAXB], no; /* order of visits (blocks which are not subroutines) */
static char msg[500];
#define FAIL(...) do { snprintf(msg, sizeof(msg), __VA_ARGS__); return 10; } while (0)
#define MIX(acc, x) ((uw)(acc) * 33 + (uw)(x))
static void mixi(struct sljit_compiler *c, sljit_sw v)
{
	sljit_emit_op2(c, SLJIT_MUL, SLJIT_S0, 0, SLJIT_S0, 0, SLJIT_IMM, 33);
	sljit_emit_op2(c, SLJIT_ADD, SLJIT_S0, 0, SLJIT_S0, 0, SLJIT_IMM, v);
}
static const sljit_s32 ct[] = { SLJIT_EQUAL, SLJIT_NOT_EQUAL, SLJIT_LESS, SLJIT_GREATER_EQUAL, SLJIT_GREATER, SLJIT_LESS_EQUAL, SLJIT_SIG_LESS, SLJIT_SIG_GREATER_EQUAL, SLJIT_SIG_GREATER, SLJIT_SIG_LESS_EQUAL };
/* operands which make the condition true or false */
static void opers(int t, int want, sw *a, sw *b)
{
	static const sw ta[] = { 5, 5, 5, 9, 9, 5, -5, 9, 9, -5 }, tb[] = { 5, 6, 9, 5, 5, 9, 5, -9, -9, 5 };
	static const sw fa[] = { 5, 5, 9, 5, 5, 9, 9, -5, -5, 9 }, fb[] = { 6, 5, 5, 9, 9, 5, -5, 9, 9, -5 };
	*a = want ? ta[t] : fa[t]; *b = want ? tb[t] : fb[t];
}
static const sljit_s32 fct[] = { SLJIT_F_EQUAL, SLJIT_F_NOT_EQUAL, SLJIT_F_LESS, SLJIT_F_GREATER_EQUAL, SLJIT_F_GREATER, SLJIT_F_LESS_EQUAL };
static struct sljit_label *blab[MAXB];
static struct { struct sljit_jump *j; int t; } pend[MAXB * (MAXX + 1) * 2]; static int np;
static struct { uw *slot; int t; } adr[64]; static int na;
static uw slots[64];
static void pendj(struct sljit_jump *j, int t) { if (j) { pend[np].j = j; pend[np++].t = t; } }
static void emit_item(struct sljit_compiler *c, const xitem *x)
{
	sw a, b; sljit_s32 rw = x->rw ? SLJIT_REWRITABLE_JUMP : 0; int want = x->k >= X_CMPT; struct sljit_jump *j = NULL;
	switch (x->k) {
	case X_CMPF: case X_CMPT: opers(x->a, want, &a, &b); sljit_emit_op1(c, SLJIT_MOV, SLJIT_R0, 0, SLJIT_IMM, a); sljit_emit_op1(c, SLJIT_MOV, SLJIT_R1, 0, SLJIT_IMM, b);
		if (x->v & 1) j = sljit_emit_cmp(c, ct[x->a] | rw, SLJIT_R0, 0, SLJIT_R1, 0); else j = sljit_emit_cmp(c, ct[x->a] | rw, SLJIT_R0, 0, SLJIT_IMM, b);
		break;
	case X_FLAGF: case X_FLAGT: opers(x->a, want, &a, &b); sljit_emit_op1(c, SLJIT_MOV, SLJIT_R0, 0, SLJIT_IMM, a); sljit_emit_op1(c, SLJIT_MOV, SLJIT_R1, 0, SLJIT_IMM, b);
		sljit_emit_op2u(c, SLJIT_SUB | (x->a < 2 ? SLJIT_SET_Z : SLJIT_SET(ct[x->a] & ~1)), SLJIT_R0, 0, SLJIT_R1, 0);
		j = sljit_emit_jump(c, ct[x->a] | rw); break;
	case X_FCMPF: case X_FCMPT: opers(x->a % 6, want, &a, &b); sljit_emit_fset64(c, SLJIT_FR0, (double)(int)a); sljit_emit_fset64(c, SLJIT_FR1, (double)(int)b);
		j = sljit_emit_fcmp(c, fct[x->a % 6] | rw, SLJIT_FR0, 0, SLJIT_FR1, 0); break;
	case X_OPZF: case X_OPZT: sljit_emit_op1(c, SLJIT_MOV, SLJIT_R0, 0, SLJIT_IMM, 12); sljit_emit_op1(c, SLJIT_MOV, SLJIT_R1, 0, SLJIT_IMM, ((x->a & 1) == want) ? 4 : 3);
		j = sljit_emit_op2cmpz(c, SLJIT_AND | (x->a & 1 ? SLJIT_JUMP_IF_NON_ZERO : SLJIT_JUMP_IF_ZERO) | rw, SLJIT_R2, 0, SLJIT_R0, 0, SLJIT_R1, 0); break;
	case X_JUMP: j = sljit_emit_jump(c, SLJIT_JUMP | rw); break;
	case X_IJUMP: j = sljit_emit_op_addr(c, SLJIT_MOV_ADDR, x->v & 1 ? SLJIT_R2 : SLJIT_MEM1(SLJIT_SP), x->v & 1 ? 0 : 8);
		sljit_emit_ijump(c, SLJIT_JUMP, x->v & 1 ? SLJIT_R2 : SLJIT_MEM1(SLJIT_SP), x->v & 1 ? 0 : 8); break;
	case X_SUB: j = sljit_emit_jump(c, SLJIT_FAST_CALL | rw); break;
	case X_SUBI: j = sljit_emit_op_addr(c, SLJIT_MOV_ADDR, SLJIT_R2, 0); sljit_emit_ijump(c, SLJIT_FAST_CALL, SLJIT_R2, 0); break;
	case X_ADDR: case X_MEMADDR:
		if (na < 64) {
			if (x->k == X_ADDR) { j = sljit_emit_op_addr(c, SLJIT_MOV_ADDR, SLJIT_R3, 0); sljit_emit_op1(c, SLJIT_MOV_P, SLJIT_MEM0(), (sljit_sw)(uw)&slots[na], SLJIT_R3, 0); }
			else j = sljit_emit_op_addr(c, SLJIT_MOV_ADDR, SLJIT_MEM0(), (sljit_sw)(uw)&slots[na]);
			adr[na].slot = &slots[na]; adr[na++].t = x->t;
		}
		break;
	case X_CONST: sljit_emit_op1(c, SLJIT_MOV, SLJIT_R3, 0, SLJIT_IMM, (sljit_sw)x->v); sljit_emit_op2(c, SLJIT_MUL, SLJIT_S0, 0, SLJIT_S0, 0, SLJIT_IMM, 33); sljit_emit_op2(c, SLJIT_ADD, SLJIT_S0, 0, SLJIT_S0, 0, SLJIT_R3, 0); break;
	}
	pendj(j, x->t);
}
static uw gold(void)
{
	uw acc = 5; int n, k;
	for (n = 0; n < no; n++) {
		const block *b = &bl[order[n]];
		acc = MIX(acc, 1000 + order[n]);
		for (k = 0; k < b->nx; k++) {
			const xitem *x = &b->x[k];
			if (x->k == X_SUB || x->k == X_SUBI) acc = MIX(acc, 1000 + x->t);
			else if (x->k == X_CONST) acc = MIX(acc, (sw)x->v);
		}
	}
	return acc;
}
static int run_case(void)
{
	struct sljit_compiler *c = sljit_create_compiler(NULL); struct sljit_read_only_buffer ro[MAXB]; struct sljit_label *aft[MAXB], *rol[MAXB]; void *code; uw res, exp, total = 0, prev; int k, m, next[MAXB]; sljit_s32 e;
	if (!c) { fprintf(stderr, "INFRA: compiler\n"); exit(99); }
	np = na = 0;
	for (k = 0; k < nb; k++) total += (uw)bl[k].gap + 4096;
	if (total + 0x10000 > area_size) { sljit_free_compiler(c); return 3; }
	for (k = 0; k < nb; k++) next[k] = -1;
	for (k = 0; k + 1 < no; k++) next[order[k]] = order[k + 1];
	sljit_emit_enter(c, 0, SLJIT_ARGS1(W, W), 4 | SLJIT_ENTER_FLOAT(2), 1, 32);
	pendj(sljit_emit_jump(c, SLJIT_JUMP), order[0]);
	for (k = 0; k < nb; k++) {
		block *b = &bl[k];
		for (m = 0; m < b->nops; m++) sljit_emit_op0(c, SLJIT_NOP);
		rol[k] = NULL;
		if (b->gap) { ro[k].next = NULL; ro[k].size = (sljit_uw)b->gap; rol[k] = sljit_emit_aligned_label(c, b->align, &ro[k]); }
		blab[k] = sljit_emit_label(c);
		if (b->sub) {
			sljit_emit_op_dst(c, SLJIT_FAST_ENTER, SLJIT_R1, 0);
			mixi(c, 1000 + k);
			sljit_emit_op_src(c, SLJIT_FAST_RETURN, SLJIT_R1, 0);
		} else {
			mixi(c, 1000 + k);
			for (m = 0; m < b->nx; m++) emit_item(c, &b->x[m]);
			if (next[k] < 0) sljit_emit_return(c, SLJIT_MOV, SLJIT_S0, 0);
			else {
				xitem x = b->last; x.t = next[k];
				emit_item(c, &x);
				/* a transfer which does not happen ends here */
				if (x.k != X_JUMP && x.k != X_IJUMP) sljit_emit_return(c, SLJIT_MOV, SLJIT_IMM, 1 + k);
			}
		}
		aft[k] = sljit_emit_label(c);
	}
	for (k = 0; k < np; k++) sljit_set_label(pend[k].j, blab[pend[k].t]);
	e = sljit_get_compiler_error(c);
	if (e) { sljit_free_compiler(c); FAIL("error %d", e); }
	next_block = area;
	code = sljit_generate_code(c, 0, NULL);
	if (!code) { e = sljit_get_compiler_error(c); sljit_free_compiler(c); FAIL("the code is not generated, error %d", e); }
	if (sljit_get_generated_code_size(c) > got_size) { sljit_free_compiler(c); FAIL("the code has more bytes than its block"); }
	for (k = 0; k < 64; k++) if (area[got_size + (uw)k] != 0xa5) { sljit_free_compiler(c); FAIL("byte %d after the block is overwritten", k); }
	prev = (uw)area;
	for (k = 0; k < nb; k++) {
		uw a = sljit_get_label_abs_addr(blab[k]), z = sljit_get_label_abs_addr(aft[k]);
		if (a < prev + (uw)bl[k].gap || z < a || z > (uw)area + sljit_get_generated_code_size(c)) { sljit_free_compiler(c); FAIL("label of block %d is %llx", k, (unsigned long long)a); }
		if (rol[k]) {
			uw r = sljit_get_label_abs_addr(rol[k]);
			if (r & (((uw)1 << bl[k].align) - 1)) { sljit_free_compiler(c); FAIL("the buffer of block %d is not aligned", k); }
			if (r < prev || r + (uw)bl[k].gap > a) { sljit_free_compiler(c); FAIL("the buffer of block %d is not before its label", k); }
		}
		prev = z;
	}
	memset(slots, 0, sizeof(slots));
	res = (uw)((sljit_sw (SLJIT_FUNC *)(sljit_sw))code)(5);
	exp = gold();
	if (res != exp) { sljit_free_compiler(c); FAIL("result %llx, expected %llx", (unsigned long long)res, (unsigned long long)exp); }
	for (k = 0; k < nb; k++) for (m = 0; m < bl[k].nx; m++) (void)0;
	for (k = 0; k < na; k++) {
		/* only the visited ones are stored, and all blocks are visited */
		if (*adr[k].slot != sljit_get_label_addr(blab[adr[k].t])) { sljit_free_compiler(c); FAIL("address of block %d is %llx instead of %llx", adr[k].t, (unsigned long long)*adr[k].slot, (unsigned long long)sljit_get_label_addr(blab[adr[k].t])); }
	}
	sljit_free_compiler(c);
	return 0;
}
/* ranges of the jump and address instructions of the target (in bytes, ascending) */
static const s64 own[] = {
#if (defined SLJIT_CONFIG_X86 && SLJIT_CONFIG_X86)
	128, 128, 32768
#elif (defined SLJIT_CONFIG_ARM_64 && SLJIT_CONFIG_ARM_64)
	4096, 32768, 1048576, 1048576, 134217728
#elif (defined SLJIT_CONFIG_ARM_THUMB2 && SLJIT_CONFIG_ARM_THUMB2)
	256, 2048, 4096, 1048576, 1048576, 16777216
#elif (defined SLJIT_CONFIG_ARM && SLJIT_CONFIG_ARM)
	1024, 4096, 33554432
#elif (defined SLJIT_CONFIG_RISCV && SLJIT_CONFIG_RISCV)
	256, 2048, 4096, 4096, 1048576
#elif (defined SLJIT_CONFIG_S390X && SLJIT_CONFIG_S390X)
	4096, 65536, 65536, 524288
#elif (defined SLJIT_CONFIG_PPC && SLJIT_CONFIG_PPC)
	32768, 32768, 33554432
#elif (defined SLJIT_CONFIG_LOONGARCH && SLJIT_CONFIG_LOONGARCH)
	2048, 131072, 4194304, 134217728
#else
	131072, 131072, 32768, 268435456
#endif
};
static s64 gen_gap(int big)
{
	static const s64 lim[] = { 128, 256, 510, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 262144, 524288, 1048576, 2097152, 4194304, 8388608, 16777216, 33554432, 67108864, 134217728 };
	s64 g; u32 r = rn(100), k;
	if (r < 10) return rn(120);
	if (r < 60) { for (k = 0; k < 10; k++) { g = own[rn(sizeof(own) / sizeof(own[0]))]; if (g <= (big ? big > 1 ? 140000000 : 3000000 : 140000)) break; } if (k == 10) g = 4096; }
	else if (r < 75) g = lim[rn(5)]; else if (r < 90 || !big) g = lim[5 + rn(rp(20) ? 6 : 4)]; else if (big < 2) g = lim[11 + rn(3)]; else g = lim[14 + rn(6)];
	switch (rn(10)) { case 0: g += rn(60); break; case 1: g -= rn(1 + (u32)(g < 100000 ? g : 100000)); break; case 2: g += rn(1 + (u32)(g < 60000 ? g / 2 : 30000)); break; case 3: case 4: case 5: g -= rn(60); break; default: g -= rn(340); }
	if (g < 0) g = 0;
	return g - g % NOPSZ;
}
static void gen_x(xitem *x, int transfer, int nsub, const int *subs)
{
	memset(x, 0, sizeof(*x));
	if (transfer) x->k = X_CMPT + (int)rn(X_IJUMP - X_CMPT + 1);
	else { x->k = (int)rn(9); if (x->k == 7) x->k = X_SUBI; if (x->k == 8) x->k = X_MEMADDR; if (!nsub && (x->k == X_SUB || x->k == X_SUBI)) x->k = X_CMPF; }
	x->t = (int)rn((u32)nb); x->rw = rp(15); x->a = (int)rn(10); x->v = (s64)rval();
	if (x->k == X_SUB || x->k == X_SUBI) x->t = subs[rn((u32)nsub)];
}
static int huge; /* profile h: gaps above 3 MB as well */
static void make_case(u64 seed, u64 n)
{
	int k, m, nsub = 0, subs[MAXB], big;
	rseed(seed, n);
	nb = 2 + (int)rn(rp(50) ? 3 : MAXB - 2);
	big = rp(10); if (huge && rp(25)) big = 2;
	for (k = 0; k < nb; k++) { memset(&bl[k], 0, sizeof(bl[k])); bl[k].sub = rp(20); if (bl[k].sub) subs[nsub++] = k; }
	if (nsub == nb) { bl[nb - 1].sub = 0; nsub--; }
	no = 0; for (k = 0; k < nb; k++) if (!bl[k].sub) order[no++] = k;
	for (k = no - 1; k > 0; k--) { int j = (int)rn((u32)k + 1), t = order[k]; order[k] = order[j]; order[j] = t; }
	for (k = 0; k < nb; k++) {
		block *b = &bl[k];
		b->gap = rp(25) ? 0 : gen_gap(big); if (b->gap > (big == 2 ? 3000000 : 300000)) big = 0;
		b->nops = rp(50) ? (int)rn(20) : rp(50) ? (int)rn(140) : rp(20) ? (int)rn(1100) : 0; b->align = (int)rn(5); if (b->align > 3 && rp(50)) b->align = 0;
		b->nx = (int)rn(rp(60) ? 4 : MAXX + 1);
		for (m = 0; m < b->nx; m++) gen_x(&b->x[m], 0, nsub, subs);
		gen_x(&b->last, 1, nsub, subs);
	}
}
static void wx(FILE *f, const char *h, const xitem *x) { fprintf(f, "%s %s %d %d %d %lld\n", h, xn[x->k], x->t, x->rw, x->a, (long long)x->v); }
static void write_case(FILE *f)
{
	int k, m;
	fprintf(f, "span %d", nb); for (k = 0; k < no; k++) fprintf(f, " %d", order[k]); fprintf(f, "\n");
	for (k = 0; k < nb; k++) {
		fprintf(f, "b %d %lld %d %d\n", bl[k].sub, (long long)bl[k].gap, bl[k].nops, bl[k].align);
		wx(f, "l", &bl[k].last);
		for (m = 0; m < bl[k].nx; m++) wx(f, "i", &bl[k].x[m]);
	}
	fprintf(f, "end\n");
}
static int rx(const char *s, xitem *x)
{
	char w[30]; int k; long long v;
	memset(x, 0, sizeof(*x));
	if (sscanf(s, "%29s %d %d %d %lld", w, &x->t, &x->rw, &x->a, &v) != 5) return 1;
	x->v = v;
	for (k = 0; k < X_NK && strcmp(xn[k], w); k++) ;
	x->k = k;
	return k == X_NK || x->t < 0 || x->a < 0 || x->a > 9;
}
static int read_case(FILE *f)
{
	char line[300]; int k, m, seen[MAXB] = { 0 }, cur = -1; long long g;
	nb = no = 0;
	while (fgets(line, sizeof(line), f)) {
		if (!strncmp(line, "end", 3)) break;
		if (!strncmp(line, "span ", 5)) {
			char *p = line + 5; nb = (int)strtol(p, &p, 10);
			if (nb < 1 || nb > MAXB) return 1;
			for (;;) { char *q; long v = strtol(p, &q, 10); if (q == p) break; p = q; if (v < 0 || v >= nb || seen[v] || no >= MAXB) return 1; seen[v] = 1; order[no++] = (int)v; }
			continue;
		}
		if (!strncmp(line, "b ", 2)) {
			if (++cur >= nb) return 1;
			memset(&bl[cur], 0, sizeof(bl[cur]));
			if (sscanf(line + 2, "%d %lld %d %d", &bl[cur].sub, &g, &bl[cur].nops, &bl[cur].align) != 4) return 1;
			bl[cur].gap = g;
			if (g < 0 || g > 300000000 || bl[cur].nops < 0 || bl[cur].nops > 5000 || bl[cur].align < 0 || bl[cur].align > 4) return 1;
			bl[cur].gap -= g % NOPSZ;
			continue;
		}
		if (cur < 0) continue;
		if (!strncmp(line, "l ", 2)) { if (rx(line + 2, &bl[cur].last) || bl[cur].last.k < X_CMPT || bl[cur].last.k > X_IJUMP) return 1; }
		else if (!strncmp(line, "i ", 2)) { if (bl[cur].nx >= MAXX || rx(line + 2, &bl[cur].x[bl[cur].nx])) return 1; bl[cur].nx++; }
	}
	if (cur + 1 != nb || !no) return 1;
	for (k = 0; k < nb; k++) {
		if (bl[k].sub == seen[k] || (bl[k].sub & ~1)) return 1;
		for (m = 0; m < bl[k].nx; m++) { const xitem *x = &bl[k].x[m]; if (x->t >= nb || (x->k >= X_CMPT && x->k <= X_IJUMP)) return 1; if ((x->k == X_SUB || x->k == X_SUBI) != 0 && !bl[x->t].sub) return 1; }
	}
	return 0;
}
int main(int argc, char **argv)
{
	if (argc < 2) return 99;
	setvbuf(stdout, NULL, _IOLBF, 0);
	if (argc > 2) huge = argv[2][0] == 'h';
	area_size = 0x18000000;
	area = (u8*)mmap(NULL, area_size, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (area == MAP_FAILED) { area_size = 0xc000000; area = (u8*)mmap(NULL, area_size, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
	if (area == MAP_FAILED) { fprintf(stderr, "INFRA: area\n"); return 99; }
	if (!strcmp(argv[1], "run") && argc >= 7) {
		u64 seed = strtoull(argv[3], NULL, 10), n = strtoull(argv[4], NULL, 10), end, stop = stop_at();
		progress_open(argv[6]);
		end = now_ms() + strtoull(argv[5], NULL, 10);
		for (; now_ms() < end && n <= stop; n++) {
			int r, k; u64 h; s64 g = 0;
			pg->cur = n; pg->phase = 0;
			arm_watchdog(40);
			make_case(seed, n);
			pg->cases++; for (k = 0; k < nb; k++) pg->instrs += (u64)bl[k].nx + 1;
			r = run_case();
			if (r == 3) { pg->skipped++; continue; }
			if (r) { printf("MISMATCH case=%llu %s\n", (unsigned long long)n, msg); return r; }
			for (k = 0; k < nb; k++) if (bl[k].gap > g) g = bl[k].gap;
			pg->extra[39]++;
			h = fnv(14695981039346656037ull, bl, sizeof(block) * (size_t)nb);
			if (g >= 100 && no > 1 && dset_add(h)) pg->nontriv++;
			if (g > 3000000) madvise(area, area_size, MADV_DONTNEED);
		}
		return 0;
	}
	if (!strcmp(argv[1], "dump") && argc >= 5) { make_case(strtoull(argv[3], NULL, 10), strtoull(argv[4], NULL, 10)); write_case(stdout); return 0; }
	if (!strcmp(argv[1], "replay") && argc >= 3) {
		FILE *f = fopen(argv[2], "r"); int r;
		if (!f || read_case(f)) { printf("INVALID unreadable\n"); return 3; }
		fclose(f);
		arm_watchdog(40);
		r = run_case();
		if (r == 3) { printf("INVALID\n"); return 3; }
		if (r) { printf("MISMATCH %s\n", msg); return r; }
		printf("OK\n");
		return 0;
	}
	return 99;
}
