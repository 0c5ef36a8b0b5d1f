/* Far control transfers: codes placed at chosen addresses jump to and call each other at chosen distances.
   farfuzz run <profile> <seed> <start> <ms> <progress> | dump <profile> <seed> <case> | replay <file>
   A case: the address of the main code, up to four targets (distance from the main code, padding), and items of the main code. */
#include "core.h"

/* ---------- placement ---------- */
static u8 *next_block; static uw next_size, got_size; static int xbad;
void *vt_exec_alloc(unsigned long size)
{
	if (!next_block) { xbad |= 1; return NULL; }
	if (size > next_size) return NULL;
	got_size = size;
	{ u8 *p = next_block; next_block = NULL; memset(p, 0xa5, size + 16 <= next_size ? size + 16 : next_size); return p; }
}
static int released;
void vt_exec_release(void *ptr) { (void)ptr; released++; }

#define WIN 8192 /* room of a code */
#define MAXT 4
#define MAXI 24
enum { I_CALL, I_ICALL, I_ICALLR, I_JUMP, I_CMP, I_FLAG, I_FCMP, I_OPZ, I_IJUMP, I_IJUMPR, I_FAST, I_IFAST, I_ADDR, I_LADDR, I_PAD, I_CALLT, I_LAND, I_NK };
static const char *in[] = { "call", "icall", "icallr", "jump", "cmp", "flag", "fcmp", "opz", "ijump", "ijumpr", "fast", "ifast", "addr", "laddr", "pad", "tail", "land" };
typedef struct { int k, t, rw, a, b; s64 v, w; } item; /* t: target, rw: rewritable, a: type, b: other, v and w: values */
typedef struct { s64 d; int pad, pad2; u8 *base; uw func, land, fast; sljit_sw off; } target;
static u64 A; static int mainpad;
static target tg[MAXT]; static int nt;
static item it[MAXI]; static int ni;
static char msg[500];
#define FAIL(...) do { snprintf(msg, sizeof(msg), __VA_ARGS__); return 10; } while (0)

/* With separate writable and executable views: the views of a code are the pages of one file. */
#if (defined SLJIT_PROT_EXECUTABLE_ALLOCATOR && SLJIT_PROT_EXECUTABLE_ALLOCATOR)
#define DUAL 1
#else
#define DUAL 0
#endif
static int mfd = -1;
/* mapped pages; a mapping is kept until an other address is needed */
#define NWIN (2 * (MAXT + 1))
static struct { u8 *p; uw len; } win[NWIN]; static int nwin;
static void unmap_all(void) { int k; for (k = 0; k < nwin; k++) munmap(win[k].p, win[k].len); nwin = 0; }
static int map_at(u64 addr, uw len)
{
	u64 a = addr & ~(u64)0xffff, e = (addr + len + 0xffff) & ~(u64)0xffff; void *p; int k;
	if (a < 0x10000 || addr >> 47 || (!W64 && e > 0xffff0000u) || (W64 && e > ((u64)1 << 47))) return 0;
	for (k = 0; k < nwin; k++) if ((u64)(uw)win[k].p <= a && e <= (u64)(uw)win[k].p + win[k].len) return 1;
	for (; a < e; a += 0x10000) {
		for (k = 0; k < nwin; k++) if ((u64)(uw)win[k].p <= a && a + 0x10000 <= (u64)(uw)win[k].p + win[k].len) break;
		if (k < nwin) continue;
		if (nwin == NWIN) return 0;
		if (DUAL) p = mmap((void*)(uw)a, 0x10000, PROT_READ | PROT_EXEC, MAP_SHARED | MAP_FIXED_NOREPLACE, mfd, nwin * 0x10000);
		else p = mmap((void*)(uw)a, 0x10000, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
		if (p == MAP_FAILED) return 0;
		if (p != (void*)(uw)a) { munmap(p, 0x10000); return 0; }
		win[nwin].p = (u8*)p; win[nwin++].len = 0x10000;
	}
	return 1;
}

/* writable views: [0] is the main code */
static u8 *wview[MAXT + 1];
static u8 *writable(int n, u8 *p)
{
	uw lo = (uw)p & ~(uw)4095, hi = ((uw)p + WIN + 4095) & ~(uw)4095; int k;
	if (!DUAL) return p;
	if (!wview[n]) { wview[n] = (u8*)mmap(NULL, 0x10000, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (wview[n] == MAP_FAILED) { fprintf(stderr, "INFRA: view\n"); exit(99); } }
	for (; lo < hi; lo += 4096) {
		u8 *w = wview[n] + (lo - ((uw)p & ~(uw)4095));
		for (k = 0; k < nwin; k++) if (lo >= (uw)win[k].p && lo < (uw)win[k].p + 0x10000) break;
		if (k == nwin || mmap(w, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, mfd, (off_t)(k * 0x10000 + (lo - (uw)win[k].p))) != w) { fprintf(stderr, "INFRA: view page\n"); exit(99); }
	}
	return wview[n] + ((uw)p & 4095);
}
/* emulators do not see writes through an other view */
static void flush_all(void)
{
#if DUAL && !(defined SLJIT_CONFIG_X86 && SLJIT_CONFIG_X86)
	int k; for (k = 0; k < nwin; k++) if (mprotect(win[k].p, 0x10000, PROT_NONE) || mprotect(win[k].p, 0x10000, PROT_READ | PROT_EXEC)) { fprintf(stderr, "INFRA: mprotect\n"); exit(99); }
#endif
}
static struct sljit_generate_code_buffer gcb;
static u8 *gview;
static void *gen_at(struct sljit_compiler *c, int n, u8 *p)
{
	u8 *w = writable(n, p);
	gview = w;
	memset(w, 0xa5, WIN);
	if (DUAL) { gcb.buffer = w; gcb.size = WIN - 64; gcb.executable_offset = (sljit_sw)((uw)p - (uw)w); got_size = WIN - 64; return sljit_generate_code(c, SLJIT_GENERATE_CODE_BUFFER, &gcb); }
	next_block = p; next_size = WIN; xbad = 0;
	return sljit_generate_code(c, 0, NULL);
}

#define MAIN_ARGS SLJIT_ARGS1(W, W)
#define MAIN_SCR (4 | SLJIT_ENTER_FLOAT(2))
#define MIX(acc, x) ((uw)(acc) * 33 + (uw)(x))
static uw fconst(int t) { return (uw)0x1111 * (uw)(t + 1); }
static uw lconst(int t) { return (uw)0x333 * (uw)(t + 3); }
static uw qconst(int t) { return (uw)0x555 * (uw)(t + 7); }
static void mix(struct sljit_compiler *c, sljit_s32 src, sljit_sw srcw)
{
	sljit_emit_op2(c, SLJIT_MUL, SLJIT_S0, 0, SLJIT_S0, 0, SLJIT_IMM, 33);
	sljit_emit_op2(c, SLJIT_ADD, SLJIT_S0, 0, SLJIT_S0, 0, src, srcw);
}
static void pads(struct sljit_compiler *c, int n) { for (; n > 0; n--) sljit_emit_op0(c, SLJIT_NOP); }

static struct sljit_compiler *mkc(void) { struct sljit_compiler *c = sljit_create_compiler(NULL); if (!c) { fprintf(stderr, "INFRA: compiler\n"); exit(99); } return c; }
static int build_target(int t)
{
	struct sljit_compiler *c = mkc(); struct sljit_label *l, *q; void *code;
	sljit_emit_enter(c, 0, SLJIT_ARGS1(W, W), 2, 1, 0);
	sljit_emit_op2(c, SLJIT_XOR, SLJIT_R0, 0, SLJIT_S0, 0, SLJIT_IMM, (sljit_sw)fconst(t));
	sljit_emit_return(c, SLJIT_MOV, SLJIT_R0, 0);
	pads(c, tg[t].pad);
	sljit_set_context(c, 0, MAIN_ARGS, MAIN_SCR, 3, 32);
	l = sljit_emit_label(c);
	mix(c, SLJIT_IMM, (sljit_sw)lconst(t));
	sljit_emit_ijump(c, SLJIT_JUMP, SLJIT_MEM1(SLJIT_SP), 8);
	pads(c, tg[t].pad2);
	q = sljit_emit_label(c);
	sljit_emit_op_dst(c, SLJIT_FAST_ENTER, SLJIT_R1, 0);
	mix(c, SLJIT_IMM, (sljit_sw)qconst(t));
	sljit_emit_op_src(c, SLJIT_FAST_RETURN, SLJIT_R1, 0);
	code = gen_at(c, t + 1, tg[t].base);
	if (!code) { int e = sljit_get_compiler_error(c); sljit_free_compiler(c); FAIL("target %d is not generated, error %d", t, e); }
	tg[t].func = (uw)code; tg[t].land = sljit_get_label_addr(l); tg[t].fast = sljit_get_label_addr(q);
	tg[t].off = sljit_get_executable_offset(c);
	sljit_free_compiler(c);
	return 0;
}
static const sljit_s32 cmpt[] = { SLJIT_EQUAL, SLJIT_NOT_EQUAL, SLJIT_LESS, SLJIT_GREATER_EQUAL, SLJIT_GREATER, SLJIT_LESS_EQUAL, SLJIT_SIG_LESS, SLJIT_SIG_GREATER_EQUAL, SLJIT_SIG_GREATER, SLJIT_SIG_LESS_EQUAL, SLJIT_OVERFLOW, SLJIT_NOT_OVERFLOW };
static int cmp_eval(int t, sw a, sw b)
{
	switch (t) {
	case 0: return a == b; case 1: return a != b; case 2: return (uw)a < (uw)b; case 3: return (uw)a >= (uw)b; case 4: return (uw)a > (uw)b; case 5: return (uw)a <= (uw)b;
	case 6: return a < b; case 7: return a >= b; case 8: return a > b; case 9: return a <= b;
	default: { sw r = (sw)((uw)a - (uw)b); int o = ((a ^ b) & (a ^ r)) < 0; return t == 10 ? o : !o; }
	}
}
static const sljit_s32 fcmpt[] = { SLJIT_F_EQUAL, SLJIT_F_NOT_EQUAL, SLJIT_F_LESS, SLJIT_F_GREATER_EQUAL, SLJIT_F_GREATER, SLJIT_F_LESS_EQUAL, SLJIT_UNORDERED, SLJIT_ORDERED };
static int fcmp_eval(int t, double a, double b)
{
	switch (t) { case 0: return a == b; case 1: return a != b; case 2: return a < b; case 3: return a >= b; case 4: return a > b; case 5: return a <= b; case 6: return 0; default: return 1; }
}
static sw fit(s64 v) { return (sw)v; }

static struct { struct sljit_jump *j; uw addr; int k; } rwj[MAXI]; static int nrw;
static uw gold(const int *tt)
{
	uw acc = 5; int k; uw r0;
	for (k = 0; k < ni; k++) {
		const item *i = &it[k]; int t = tt[k];
		switch (i->k) {
		case I_CALL: case I_ICALL: case I_ICALLR: acc = MIX(acc, acc ^ fconst(t)); break;
		case I_JUMP: case I_IJUMP: case I_IJUMPR: acc = MIX(acc, lconst(t)); break;
		case I_CMP: case I_FLAG: if (cmp_eval(i->a, fit(i->v), fit(i->w))) acc = MIX(acc, lconst(t)); else acc = MIX(acc, 77); break;
		case I_OPZ: if ((i->a & 1) == ((fit(i->v) & fit(i->w)) != 0)) acc = MIX(acc, lconst(t)); else acc = MIX(acc, 78); break;
		case I_FCMP: if (fcmp_eval(i->a, (double)(int)i->v, (double)(int)i->w)) acc = MIX(acc, lconst(t)); else acc = MIX(acc, 79); break;
		case I_FAST: case I_IFAST: acc = MIX(acc, qconst(t)); break;
		case I_ADDR: r0 = i->b == 0 ? fit(i->v) : i->b == 1 ? tg[t].func : i->b == 2 ? tg[t].land : tg[t].fast;
#if (defined SLJIT_CONFIG_ARM_THUMB2 && SLJIT_CONFIG_ARM_THUMB2)
			if (i->a != SLJIT_MOV_ADDR) r0 &= ~(uw)1; /* an address for reading memory */
#endif
			if (i->a == SLJIT_ADD_ABS_ADDR) r0 += acc; acc = MIX(acc, r0); break;
		case I_LADDR: acc = MIX(acc, 1); break; /* compared with the address of the label */
		case I_CALLT: return acc ^ fconst(t);
		}
	}
	return acc;
}
static int run_case(void)
{
	struct sljit_compiler *c; struct sljit_jump *j, *j2; struct sljit_label *l, *lab[MAXI]; uw ladr[MAXI]; struct sljit_label *ll[MAXI]; struct sljit_jump *lj[MAXI];
	int k, tt[MAXI], r, tailed = 0; void *code; uw res, exp, main_size; sljit_sw off;
	u8 *mb;
	(void)lab; (void)ladr;
	for (k = 0; k < nt; k++) {
		u64 b = A + (u64)tg[k].d; int m;
		if (!W64) b = (u32)b;
		b &= ~(u64)15;
		tg[k].base = (u8*)(uw)b;
		if (b + WIN > A && A + WIN > b) return 3;
		for (m = 0; m < k; m++) if (b + WIN > (u64)(uw)tg[m].base && (u64)(uw)tg[m].base + WIN > b) return 3;
	}
	unmap_all();
	if (!map_at(A, WIN)) { pg->skipped++; return 0; }
	for (k = 0; k < nt; k++) if (!map_at((u64)(uw)tg[k].base, WIN)) { pg->skipped++; return 0; }
	for (k = 0; k < nt; k++) if ((r = build_target(k)) != 0) return r;
	mb = (u8*)(uw)A;
	c = mkc(); nrw = 0;
	sljit_emit_enter(c, 0, MAIN_ARGS, MAIN_SCR, 3, 32);
	pads(c, mainpad);
	for (k = 0; k < ni; k++) {
		item *i = &it[k]; target *t = &tg[i->t]; sljit_s32 rw = i->rw ? SLJIT_REWRITABLE_JUMP : 0; int cond = 0;
		tt[k] = i->t; ll[k] = NULL; lj[k] = NULL;
		switch (i->k) {
		case I_CALL: case I_ICALL: case I_ICALLR:
			sljit_emit_op1(c, SLJIT_MOV, SLJIT_R0, 0, SLJIT_S0, 0);
			if (i->k == I_CALL) { j = sljit_emit_call(c, SLJIT_CALL | rw, SLJIT_ARGS1(W, W)); sljit_set_target(j, t->func); if (i->rw) { rwj[nrw].j = j; rwj[nrw++].k = k; } }
			else if (i->k == I_ICALL) sljit_emit_icall(c, SLJIT_CALL, SLJIT_ARGS1(W, W), SLJIT_IMM, (sljit_sw)t->func);
			else { sljit_emit_op1(c, SLJIT_MOV, SLJIT_R2, 0, SLJIT_IMM, (sljit_sw)t->func); sljit_emit_icall(c, SLJIT_CALL, SLJIT_ARGS1(W, W), SLJIT_R2, 0); }
			mix(c, SLJIT_R0, 0);
			break;
		case I_CMP: case I_FLAG: case I_FCMP: case I_OPZ: cond = 1; /* fall through */
		case I_JUMP: case I_IJUMP: case I_IJUMPR:
			/* address to continue */
			j2 = sljit_emit_op_addr(c, SLJIT_MOV_ADDR, i->b & 4 ? SLJIT_R3 : SLJIT_MEM1(SLJIT_SP), i->b & 4 ? 0 : 8);
			if (i->b & 4) sljit_emit_op1(c, SLJIT_MOV_P, SLJIT_MEM1(SLJIT_SP), 8, SLJIT_R3, 0);
			j = NULL;
			switch (i->k) {
			case I_JUMP: j = sljit_emit_jump(c, SLJIT_JUMP | rw); break;
			case I_IJUMP: sljit_emit_ijump(c, SLJIT_JUMP, SLJIT_IMM, (sljit_sw)t->land); break;
			case I_IJUMPR: sljit_emit_op1(c, SLJIT_MOV, SLJIT_R2, 0, SLJIT_IMM, (sljit_sw)t->land); sljit_emit_ijump(c, SLJIT_JUMP, SLJIT_R2, 0); break;
			case I_CMP: sljit_emit_op1(c, SLJIT_MOV, SLJIT_R0, 0, SLJIT_IMM, fit(i->v)); if (i->b & 1) sljit_emit_op1(c, SLJIT_MOV, SLJIT_R1, 0, SLJIT_IMM, fit(i->w));
				j = sljit_emit_cmp(c, cmpt[i->a] | rw, SLJIT_R0, 0, i->b & 1 ? SLJIT_R1 : SLJIT_IMM, i->b & 1 ? 0 : fit(i->w)); break;
			case I_FLAG: sljit_emit_op1(c, SLJIT_MOV, SLJIT_R0, 0, SLJIT_IMM, fit(i->v)); sljit_emit_op1(c, SLJIT_MOV, SLJIT_R1, 0, SLJIT_IMM, fit(i->w));
				sljit_emit_op2u(c, SLJIT_SUB | (i->a < 2 ? SLJIT_SET_Z : i->a < 10 ? SLJIT_SET(cmpt[i->a] & ~1) : SLJIT_SET_OVERFLOW), SLJIT_R0, 0, SLJIT_R1, 0);
				j = sljit_emit_jump(c, cmpt[i->a] | rw); break;
			case I_FCMP: sljit_emit_fset64(c, SLJIT_FR0, (double)(int)i->v); sljit_emit_fset64(c, SLJIT_FR1, (double)(int)i->w); j = sljit_emit_fcmp(c, fcmpt[i->a] | rw, SLJIT_FR0, 0, SLJIT_FR1, 0); break;
			case I_OPZ: sljit_emit_op1(c, SLJIT_MOV, SLJIT_R0, 0, SLJIT_IMM, fit(i->v)); sljit_emit_op1(c, SLJIT_MOV, SLJIT_R1, 0, SLJIT_IMM, fit(i->w));
				j = sljit_emit_op2cmpz(c, SLJIT_AND | (i->a & 1 ? SLJIT_JUMP_IF_NON_ZERO : SLJIT_JUMP_IF_ZERO) | rw, SLJIT_R2, 0, SLJIT_R0, 0, SLJIT_R1, 0); break;
			}
			if (j) { sljit_set_target(j, t->land); if (i->rw) { rwj[nrw].j = j; rwj[nrw++].k = k; } }
			if (cond) mix(c, SLJIT_IMM, i->k == I_OPZ ? 78 : i->k == I_FCMP ? 79 : 77);
			pads(c, i->b >> 3 & 3);
			l = sljit_emit_label(c); sljit_set_label(j2, l);
			break;
		case I_FAST: j = sljit_emit_jump(c, SLJIT_FAST_CALL | rw); if (j) sljit_set_target(j, t->fast); if (j && i->rw) { rwj[nrw].j = j; rwj[nrw++].k = k; } break;
		case I_IFAST: sljit_emit_ijump(c, SLJIT_FAST_CALL, SLJIT_IMM, (sljit_sw)t->fast); break;
		case I_ADDR:
			if (i->a == SLJIT_ADD_ABS_ADDR) sljit_emit_op1(c, SLJIT_MOV, SLJIT_R0, 0, SLJIT_S0, 0);
			j = sljit_emit_op_addr(c, i->a, SLJIT_R0, 0);
			if (j) sljit_set_target(j, i->b == 0 ? (sljit_uw)fit(i->v) : i->b == 1 ? t->func : i->b == 2 ? t->land : t->fast);
			mix(c, SLJIT_R0, 0);
			break;
		case I_LADDR: lj[k] = sljit_emit_op_addr(c, SLJIT_MOV_ADDR, SLJIT_MEM0(), (sljit_sw)(uw)&sb->out[k]); mix(c, SLJIT_IMM, 1); break;
		case I_LAND: { int m; ll[k] = sljit_emit_label(c); for (m = 0; m < k; m++) if (lj[m] && !ll[m] && it[m].t == i->t) { sljit_set_label(lj[m], ll[k]); ll[m] = ll[k]; } break; }
		case I_PAD: pads(c, i->a); break;
		case I_CALLT: sljit_emit_op1(c, SLJIT_MOV, SLJIT_R0, 0, SLJIT_S0, 0);
			if (i->a) sljit_emit_icall(c, SLJIT_CALL | SLJIT_CALL_RETURN, SLJIT_ARGS1(W, W), SLJIT_IMM, (sljit_sw)t->func);
			else { j = sljit_emit_call(c, SLJIT_CALL | SLJIT_CALL_RETURN | rw, SLJIT_ARGS1(W, W)); sljit_set_target(j, t->func); if (i->rw) { rwj[nrw].j = j; rwj[nrw++].k = k; } }
			tailed = 1; break;
		}
		if (tailed) break;
	}
	l = sljit_emit_label(c);
	for (k = 0; k < ni && k < MAXI; k++) if (it[k].k == I_LADDR && k <= ni && lj[k] && !ll[k]) { sljit_set_label(lj[k], l); ll[k] = l; }
	if (!tailed) sljit_emit_return(c, SLJIT_MOV, SLJIT_S0, 0);
	if (sljit_get_compiler_error(c)) { int e = sljit_get_compiler_error(c); sljit_free_compiler(c); FAIL("error %d of the main code", e); }
	code = gen_at(c, 0, mb);
	if (!code) { int e = sljit_get_compiler_error(c); sljit_free_compiler(c); FAIL("the main code is not generated, error %d", e); }
	main_size = sljit_get_generated_code_size(c); off = sljit_get_executable_offset(c);
	if (main_size > got_size) { sljit_free_compiler(c); FAIL("the main code has %llu bytes in a block of %llu bytes", (unsigned long long)main_size, (unsigned long long)got_size); }
	for (k = 0; k < 16; k++) if (got_size + 16 <= WIN && gview[got_size + (uw)k] != 0xa5) { sljit_free_compiler(c); FAIL("byte %d after the block of the main code is overwritten", k); }
	for (k = 0; k < nrw; k++) rwj[k].addr = sljit_get_jump_addr(rwj[k].j);
	for (r = 0; r < 2; r++) {
		memset(sb->out, 0, sizeof(sb->out));
		pg->extra[37 + r]++; /* the indexes are those of irfuzz and metafuzz */
		flush_all();
		res = (uw)((sljit_sw (SLJIT_FUNC *)(sljit_sw))code)(5);
		exp = gold(tt);
		if (res != exp) { sljit_free_compiler(c); FAIL("%s: result %llx, expected %llx", r ? "after patching" : "run", (unsigned long long)res, (unsigned long long)exp); }
		for (k = 0; k < ni; k++) { if (it[k].k == I_CALLT) break; if (it[k].k == I_LADDR && sb->out[k] != sljit_get_label_addr(ll[k])) { sljit_free_compiler(c); FAIL("address of a label is %llx instead of %llx", (unsigned long long)sb->out[k], (unsigned long long)sljit_get_label_addr(ll[k])); } }
		if (!nrw || nt < 2) break;
		for (k = 0; k < nrw; k++) {
			item *i = &it[rwj[k].k]; int t = (i->t + 1 + (int)((u64)i->v % (u64)(nt - 1))) % nt;
			tt[rwj[k].k] = t;
			sljit_set_jump_addr(rwj[k].addr, i->k == I_CALL || i->k == I_CALLT ? tg[t].func : i->k == I_FAST ? tg[t].fast : tg[t].land, off);
		}
	}
	sljit_free_compiler(c);
	return 0;
}

static s64 gen_dist(void)
{
	static const int near[] = { 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 36, 40, 43, 44, 45, 46 };
	s64 d = (s64)1 << near[rn((W64 ? sizeof(near) / sizeof(near[0]) : 19))];
	switch (rn(8)) {
	case 0: case 1: case 2: d += rrange(-40, 40) * 16; break; /* the entries are up to WIN bytes after the base, the sites as well */
	case 3: case 4: d += rrange(-4096, 4096); break;
	case 5: d += d / 2; break;
	case 6: d -= (s64)(r64() % (u64)d) / 2; break;
	default: d = d - rrange(0, 300) * 4; break;
	}
	if (d < 16384) d = 16384 + rrange(0, 16384);
	return rp(50) ? -d : d;
}
static u64 gen_addr(void)
{
	u64 a;
	switch (rn(W64 ? 9 : 4)) {
	case 0: a = 0x10000 + (u64)rn(0x800000); break;
	case 1: a = ((u64)1 << rrange(20, W64 ? 46 : 31)) + (u64)(s64)rrange(-6000, 4000); break;
	case 2: a = ((u64)rrange(1, W64 ? 40 : 13) << 28) + (u64)(s64)rrange(-6000, 4000); break; /* regions */
	case 3: a = (u64)rn(0x7fff0000u) + 0x10000; break;
	case 4: a = 0x80000000u + (u64)(s64)rrange(-20000, 20000); break;
	case 5: a = 0x100000000ull + (u64)(s64)rrange(-20000, 20000); break;
	case 6: a = (r64() >> 17) >> rn(15); break;
	case 7: a = ((u64)1 << 47) - 0x4000 - rn(0x1000000); break;
	default: a = (u64)r64() & 0x3fffffffffffull; break;
	}
	return a & ~(u64)15;
}
static int ok_range(u64 b) { return b >= 0x10000 && b < (W64 ? (u64)1 << 47 : 0xfff00000ull) - WIN; }
static s64 gen_v(void) { return (s64)rval(); }
static void make_case(u64 seed, u64 n)
{
	int k, m, tries;
	rseed(seed, n);
again:
	do A = gen_addr(); while (!ok_range(A));
	mainpad = rp(50) ? 0 : (int)rn(60);
	nt = 1 + (int)rn(3);
	for (k = 0; k < nt; k++) {
		u64 b;
		for (tries = 0; tries < 50; tries++) {
			tg[k].d = rp(80) ? gen_dist() : (s64)(gen_addr() - A);
			b = (A + (u64)tg[k].d) & ~(u64)15; if (!W64) b = (u32)b;
			if (!ok_range(b) || (b + WIN > A && A + WIN > b)) continue;
			for (m = 0; m < k; m++) { u64 o = (A + (u64)tg[m].d) & ~(u64)15; if (!W64) o = (u32)o; if (b + WIN > o && o + WIN > b) break; }
			if (m == k) break;
		}
		if (tries == 50) goto again;
		tg[k].pad = rp(40) ? 0 : (int)rn(80); tg[k].pad2 = rp(60) ? 0 : (int)rn(40);
	}
	ni = 1 + (int)rn(rp(60) ? 5 : MAXI - 2);
	for (k = 0; k < ni; k++) {
		item *i = &it[k];
		memset(i, 0, sizeof(*i));
		i->k = (int)rn(I_NK - 1); if (i->k == I_CALLT) i->k = I_LAND;
		if (k == ni - 1 && rp(20)) i->k = I_CALLT;
		i->t = (int)rn((u32)nt); i->rw = rp(35); i->v = gen_v(); i->w = rp(40) ? 0 : rp(40) ? i->v : gen_v(); i->b = (int)rn(32);
		switch (i->k) {
		case I_CMP: i->a = (int)rn(10); break;
		case I_FLAG: i->a = (int)rn(12); break;
		case I_FCMP: i->a = (int)rn(8); i->v = rrange(-3, 3); i->w = rrange(-3, 3); break;
		case I_OPZ: i->a = (int)rn(2); break;
		case I_ADDR: i->a = (int)rn(3); i->b = (int)rn(4); if (i->b == 0 && rp(50)) i->v = (s64)(rp(50) ? gen_addr() : A + (u64)gen_dist()); break;
		case I_PAD: i->a = rp(80) ? (int)rn(8) : (int)rn(60); break;
		case I_CALLT: i->a = (int)rn(2); break;
		}
		/* ppc64: an address which is a function needs no context here */
	}
}
static void write_case(FILE *f)
{
	int k;
	fprintf(f, "far %llx %d\n", (unsigned long long)A, mainpad);
	for (k = 0; k < nt; k++) fprintf(f, "t %lld %d %d\n", (long long)tg[k].d, tg[k].pad, tg[k].pad2);
	for (k = 0; k < ni; k++) fprintf(f, "i %s %d %d %d %d %lld %lld\n", in[it[k].k], it[k].t, it[k].rw, it[k].a, it[k].b, (long long)it[k].v, (long long)it[k].w);
	fprintf(f, "end\n");
}
static int read_case(FILE *f)
{
	char line[300], w[30]; int k, x, y; unsigned long long a; long long v, u;
	nt = ni = 0;
	while (fgets(line, sizeof(line), f)) {
		item i;
		if (!strncmp(line, "end", 3)) break;
		if (sscanf(line, "far %llx %d", &a, &x) == 2) { A = a & ~15ull; mainpad = x; continue; }
		if (sscanf(line, "t %lld %d %d", &v, &x, &y) == 3) { if (nt >= MAXT || x < 0 || y < 0 || x > 200 || y > 200) return 1; tg[nt].d = v; tg[nt].pad = x; tg[nt++].pad2 = y; continue; }
		memset(&i, 0, sizeof(i));
		if (sscanf(line, "i %29s %d %d %d %d %lld %lld", w, &i.t, &i.rw, &i.a, &i.b, &v, &u) != 7) continue;
		i.v = v; i.w = u;
		for (k = 0; k < I_NK && strcmp(in[k], w); k++) ;
		if (k == I_NK || ni >= MAXI || i.a < 0 || i.a > 64 || i.b < 0 || i.b > 31) return 1;
		i.k = k;
		if ((k == I_CMP && i.a > 9) || (k == I_FLAG && i.a > 11) || (k == I_FCMP && i.a > 7) || (k == I_ADDR && (i.a > 2 || i.b > 3))) return 1;
		it[ni++] = i;
	}
	for (k = 0; k < ni; k++) { if (it[k].t < 0 || it[k].t >= nt) return 1; if (it[k].k == I_CALLT && k != ni - 1) return 1; }
	return nt < 1 || mainpad < 0 || mainpad > 200 || !ok_range(A);
}
int main(int argc, char **argv)
{
	if (argc < 2) return 99;
	setvbuf(stdout, NULL, _IOLBF, 0);
	if (DUAL) {
		char nm[64]; snprintf(nm, sizeof(nm), "/tmp/farfuzzXXXXXX");
		mfd = mkstemp(nm); if (mfd < 0 || unlink(nm) || ftruncate(mfd, NWIN * 0x10000)) { fprintf(stderr, "INFRA: file\n"); return 99; }
	}
	sb = (sblock*)fixmap(AR_LOW + 0x100000, 0x10000);
	if (!strcmp(argv[1], "run") && argc >= 7) {
		u64 seed = strtoull(argv[3], NULL, 10), n = strtoull(argv[4], NULL, 10), end, stop = stop_at();
		progress_open(argv[6]);
		end = now_ms() + strtoull(argv[5], NULL, 10);
		for (; now_ms() < end && n <= stop; n++) {
			int r; u64 h, sk;
			pg->cur = n; pg->phase = 0;
			if (n % 16 == 0) arm_watchdog(20);
			make_case(seed, n);
			pg->cases++; pg->instrs += (u64)ni; sk = pg->skipped;
			r = run_case();
			if (r == 3) { pg->skipped++; continue; }
			if (r) { printf("MISMATCH case=%llu %s\n", (unsigned long long)n, msg); return r; }
			h = fnv(fnv(14695981039346656037ull, it, sizeof(item) * (size_t)ni), &A, 8) + (u64)tg[0].d;
			if (sk == pg->skipped && dset_add(h)) pg->nontriv++;
		}
		return 0;
	}
	if (!strcmp(argv[1], "dump") && argc >= 5) { make_case(strtoull(argv[3], NULL, 10), strtoull(argv[4], NULL, 10)); write_case(stdout); return 0; }
	if (!strcmp(argv[1], "replay") && argc >= 3) {
		FILE *f = fopen(argv[2], "r"); int r;
		if (!f || read_case(f)) { printf("INVALID unreadable\n"); return 3; }
		fclose(f);
		arm_watchdog(20);
		r = run_case();
		if (r == 3) { printf("INVALID\n"); return 3; }
		if (r) { printf("MISMATCH %s\n", msg); return r; }
		printf("OK\n");
		return 0;
	}
	return 99;
}
