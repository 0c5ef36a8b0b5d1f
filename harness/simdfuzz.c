/* Vector operations against a lane model.
   simdfuzz run <profile> <seed> <start> <ms> <progress> | dump <profile> <seed> <case> | replay <file>
   A case: registers, values of registers and memory, a list of vector operations with their operands. The operations which the target
   does not have are left out (the test form and the real form must agree about it). Bytes of a vector register above the size of the
   last operation which wrote it are not defined, and are never used or compared. */
#include "core.h"
#include <math.h>

#define MAXI 30
enum { K_MOVL, K_MOVS, K_REP, K_LLOAD, K_LSTORE, K_LREP, K_EXT, K_SIGN, K_OP2, K_SHUF, K_KINDS };
enum { dummy_kn };
static const char *kn[] = { "load", "store", "replicate", "lane_load", "lane_store", "lane_replicate", "extend", "sign", "op2", "shuffle" };
enum { S_V, S_R, S_F, S_IMM, S_MEM };
typedef struct { int k; sljit_s32 type; int v, v2, sk, r, mk, off, sh, lane, fl; s64 disp, imm; } item;
static item it[MAXI]; static int ni, nvs, nvv, opts; static u64 dseed;
static char msg[600];
#define FAIL(...) do { snprintf(msg, sizeof(msg), __VA_ARGS__); return 10; } while (0)

/* memory with inaccessible pages on both sides; the page size of the target may be bigger than 4096 */
#define PAGE 4096
static u8 *page; static u8 mmem[PAGE];
#define LOCAL 192
static u8 mloc[LOCAL];
#define GSC 6 /* general scratch registers */
#define GSV 3
#define NFR 4 /* float scratch registers */
static u64 gv[32]; static u64 gk[32]; /* values and known bits by register number */
static u64 fv[64]; static int fk[64]; /* float registers: value and known bytes */
static u8 vv[64][64]; static int vk[64];
static int pairs;
#if (defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
#define SEP 1
#else
#define SEP 0
#endif
#define RSIZE(t) (1 << (((t) >> 12) & 0x3f))
#define RSH(t) (((t) >> 12) & 0x3f)
#define ESH(t) (((t) >> 18) & 0x3f)
#define E2SH(t) (((t) >> 24) & 0x3f)
static int vreg(int i) { return i < nvs ? SLJIT_VR(i) : SLJIT_VS(i - nvs); }
static int be(void) { union { u32 a; u8 b; } x; x.a = 1; return x.b == 0; }

/* vector registers of the model */
static int vget(int reg, int size, u8 *d)
{
	if (pairs) {
		/* the value of a 128 bit register is in vv of the even register, and its halves are not known separately */
		if (size == 16) { int hi = reg + (reg & 1); if (vk[hi] != 16) return 0; memcpy(d, vv[hi], 16); return 1; }
		if (size != 8 || vk[reg] != 8) return 0;
		memcpy(d, vv[reg], 8); return 1;
	}
	if (vk[reg] < size) return 0;
	memcpy(d, vv[reg], (size_t)size); return 1;
}
static void vkill(int reg) { int hi = reg + (reg & 1); vk[reg] = 0; if (pairs && vk[hi] == 16) vk[hi] = 0; }
static void vset(int reg, int size, const u8 *d)
{
	if (pairs) {
		int hi = reg + (reg & 1);
		if (size == 16) { vk[hi - 1] = 0; fk[hi] = fk[hi - 1] = 0; memcpy(vv[hi], d, 16); vk[hi] = 16; return; }
		vkill(reg);
	}
	memcpy(vv[reg], d, (size_t)size); vk[reg] = size;
	if (!SEP) fk[reg] = 0;
}
static void fset(int reg, u64 v, int n) { fv[reg] = v; fk[reg] = n; if (!SEP) vkill(reg); }
static u64 ldn(const u8 *p, int n) { u64 v = 0; int k; for (k = 0; k < n; k++) v |= (u64)p[be() ? n - 1 - k : k] << (8 * k); return v; }
static void stn(u8 *p, int n, u64 v) { int k; for (k = 0; k < n; k++) p[be() ? n - 1 - k : k] = (u8)(v >> (8 * k)); }
static u64 sext(u64 v, int bytes) { int s = 64 - bytes * 8; return s ? (u64)((s64)(v << s) >> s) : v; }
static u64 wmask(int bits32) { return (W64 && !bits32) ? ~(u64)0 : 0xffffffffu; }

/* ---------- case data ---------- */
static u64 dat(u64 n) { u64 x = dseed + n * 0x9e3779b97f4a7c15ull; return splitmix(&x); }
static void init_values(void)
{
	int k, m;
	for (k = 0; k < PAGE / 8; k++) {
		u64 v = dat((u64)k);
		switch (v & 7) { /* also floats and shuffle indexes */
		case 0: { float f[2]; f[0] = (float)(int)(v >> 8 & 0xffff) / 16 - 1000; f[1] = -(float)(int)(v >> 24 & 0xfff) * 65536.0f; memcpy(mmem + k * 8, f, 8); break; }
		case 1: v = 0; memcpy(mmem + k * 8, &v, 8); break;
		case 2: v = ~(u64)0; memcpy(mmem + k * 8, &v, 8); break;
		default: memcpy(mmem + k * 8, &v, 8);
		}
	}
	for (k = 0; k < 512; k++) mmem[512 + k] = (u8)(dat(5000 + (u64)k) & (k & 256 ? 7 : 15)); /* indexes of shuffles */
	memcpy(page, mmem, PAGE);
	for (k = 0; k < LOCAL; k++) mloc[k] = (u8)dat(7000 + (u64)k);
	for (k = 0; k < 32; k++) { gv[k] = dat(8000 + (u64)k); if ((gv[k] & 3) == 0) gv[k] = (u64)(s64)(s32)(gv[k] >> 20 & 0x1ff) - 128; gv[k] &= wmask(0); gk[k] = 0; }
	memset(fk, 0, sizeof(fk)); memset(vk, 0, sizeof(vk));
	for (k = 0; k < 64; k++) { double d = (double)(int)(dat(9000 + (u64)k) & 0xfffff) / 64 - 5000; memcpy(&fv[k], &d, 8); }
	for (m = 0; m < 64; m++) for (k = 0; k < 64; k++) vv[m][k] = mmem[(m * 64 + k) & (PAGE - 1)];
}

/* ---------- operands ---------- */
static int greg(int r) { r %= GSC + GSV; return r < GSC ? SLJIT_R(r) : SLJIT_S(r - GSC); }
static int greg_usable(int reg) { return reg != SLJIT_R0 && reg != SLJIT_R1 && reg != SLJIT_S0; } /* R0, R1: addresses, S0: unused by operands */
static int freg_nosep_ok(int r) { return r >= 0; }
/* register numbers of float operands: scratch float registers */
static int frg(int r) { return SLJIT_FR(r % NFR); }
static int is_local(const item *i) { return i->sk == S_MEM && i->mk == 3; }
/* place of a memory operand with n bytes, NULL when it is not inside */
static u8 *mplace(const item *i, int n, int align)
{
	if (is_local(i)) { int whole = i->k == K_MOVL || i->k == K_MOVS || i->k == K_OP2 || i->k == K_SHUF; if ((whole && align > 1) || (i->off & (align - 1)) || i->off < 0 || i->off + n > LOCAL) return NULL; return mloc + i->off; }
	if (i->off < 0 || i->off + n > PAGE || (i->off & (align - 1))) return NULL;
	return mmem + i->off;
}
static void mop(struct sljit_compiler *c, const item *i, sljit_s32 *o, sljit_sw *w, int emit)
{
	uw a = (uw)(page + i->off);
	switch (i->mk) {
	case 0: *o = SLJIT_MEM0(); *w = (sljit_sw)a; break;
	case 1: if (emit) sljit_emit_op1(c, SLJIT_MOV, SLJIT_R0, 0, SLJIT_IMM, (sljit_sw)(a - (uw)i->disp)); *o = SLJIT_MEM1(SLJIT_R0); *w = (sljit_sw)i->disp; break;
	case 2: if (emit) { sljit_emit_op1(c, SLJIT_MOV, SLJIT_R0, 0, SLJIT_IMM, (sljit_sw)(a - ((uw)i->disp << i->sh))); sljit_emit_op1(c, SLJIT_MOV, SLJIT_R1, 0, SLJIT_IMM, (sljit_sw)i->disp); }
		*o = SLJIT_MEM2(SLJIT_R0, SLJIT_R1); *w = i->sh; break;
	default: *o = SLJIT_MEM1(SLJIT_SP); *w = i->off; break;
	}
	if (emit && i->mk >= 1 && i->mk <= 2) { gv[SLJIT_R0] = (i->mk == 1 ? a - (uw)i->disp : a - ((uw)i->disp << i->sh)) & wmask(0); if (i->mk == 2) gv[SLJIT_R1] = (u64)i->disp & wmask(0); }
}
static struct sljit_compiler *C;
static sljit_s32 call_op(const item *i, sljit_s32 type, sljit_s32 o, sljit_sw w)
{
	switch (i->k) {
	case K_MOVL: case K_MOVS: return sljit_emit_simd_mov(C, type, vreg(i->v), o, w);
	case K_REP: return sljit_emit_simd_replicate(C, type, vreg(i->v), o, w);
	case K_LLOAD: case K_LSTORE: return sljit_emit_simd_lane_mov(C, type, vreg(i->v), i->lane, o, w);
	case K_LREP: return sljit_emit_simd_lane_replicate(C, type, vreg(i->v), vreg(i->v2), i->lane);
	case K_EXT: return sljit_emit_simd_extend(C, type, vreg(i->v), o, w);
	case K_SIGN: return sljit_emit_simd_sign(C, type, vreg(i->v), o, w);
	default: return sljit_emit_simd_op2(C, type, vreg(i->v), vreg(i->v2), o, w);
	}
}
static int isnan_bits(u64 v, int n) { return n == 4 ? (v & 0x7fffffff) > 0x7f800000 : (v & ~((u64)1 << 63)) > (u64)0x7ff << 52; }
/* executes the item on the model: 0 - not possible (a value is not known, or an operand is not valid), 1 - done. phase 0 checks only */
static u8 nanmap[64];
static int model(const item *i, int phase)
{
	int R = RSIZE(i->type), E = 1 << ESH(i->type), k, n, reg = vreg(i->v); u8 a[64], b[64], d[64], *p = NULL; u64 x = 0; int al = 1;
	if (i->k == K_MOVL || i->k == K_MOVS || i->k == K_OP2 || i->k == K_SHUF) al = 1 << E2SH(i->type);
	/* not judged: scalars above 64 bits, and float formats other than 32 and 64 bits */
	if ((i->k == K_REP || i->k == K_LLOAD || i->k == K_LSTORE || i->k == K_SIGN) && E > 8) return 2;
	if (i->k == K_EXT && ((i->type & SLJIT_SIMD_FLOAT) ? E != 4 || E2SH(i->type) != 3 : 0)) return 2;
	switch (i->k) {
	case K_MOVL:
		if (i->sk == S_V) { if (!vget(vreg(i->r), R, d)) return 0; } else { if (!(p = mplace(i, R, al))) return 0; memcpy(d, p, (size_t)R); }
		if (phase) vset(reg, R, d);
		return 1;
	case K_MOVS:
		if (!vget(reg, R, d)) return 0;
		if (i->sk == S_V) { if (phase) vset(vreg(i->r), R, d); } else { if (!(p = mplace(i, R, al))) return 0; if (phase) memcpy(p, d, (size_t)R); }
		return 1;
	case K_REP: case K_LLOAD:
		n = E;
		if (i->sk == S_IMM) x = (u64)i->imm;
		else if (i->sk == S_R) { int g = greg(i->r); u64 need = E == 8 ? ~(u64)0 : ((u64)1 << (E * 8)) - 1; if (!greg_usable(g)) return 0; if ((gk[g] & need) != need) return 0; x = gv[g]; }
		else if (i->sk == S_F) { int f = frg(i->r); if (E < 4 || fk[f] < E) return 0; if (E == 4 && fk[f] != 4) return 0; x = fv[f]; }
		else { if (!(p = mplace(i, E, E))) return 0; x = ldn(p, E); }
		if (i->k == K_REP) { for (k = 0; k < R; k += E) stn(d + k, n, x); }
		else {
			if (i->type & SLJIT_SIMD_LANE_ZERO) memset(d, 0, sizeof(d)); else if (!vget(reg, R, d)) return 0;
			stn(d + i->lane * E, E, x);
		}
		if (phase) vset(reg, R, d);
		return 1;
	case K_LSTORE:
		if (!vget(reg, R, d)) return 0;
		x = ldn(d + i->lane * E, E);
		if (i->sk == S_R) {
			int g = greg(i->r), b32 = (i->type & SLJIT_32) != 0; if (!greg_usable(g)) return 0;
			if (i->type & SLJIT_SIMD_LANE_SIGNED) x = sext(x, E);
			if (phase) { gv[g] = x & wmask(b32); gk[g] = wmask(b32); }
		} else if (i->sk == S_F) { if (E < 4) return 0; if (phase) fset(frg(i->r), x, E); }
		else { if (!(p = mplace(i, E, E))) return 0; if (phase) stn(p, E, x); }
		return 1;
	case K_LREP:
		if (!vget(vreg(i->v2), R, a)) return 0;
		for (k = 0; k < R; k += E) memcpy(d + k, a + i->lane * E, (size_t)E);
		if (phase) vset(reg, R, d);
		return 1;
	case K_EXT: {
		int E2 = 1 << E2SH(i->type), cnt = R / E2;
		if (i->sk == S_V) { if (!vget(vreg(i->r), R, a)) return 0; } else { if (!(p = mplace(i, cnt * E, E))) return 0; memcpy(a, p, (size_t)(cnt * E)); }
		for (k = 0; k < cnt; k++) {
			x = ldn(a + k * E, E);
			if (i->type & SLJIT_SIMD_FLOAT) { float f; double g; u32 y = (u32)x; if (isnan_bits(x, 4)) return 0; memcpy(&f, &y, 4); g = f; memcpy(&x, &g, 8); }
			else if (i->type & SLJIT_SIMD_EXTEND_SIGNED) x = sext(x, E);
			stn(d + k * E2, E2, x);
		}
		if (phase) vset(reg, R, d);
		return 1;
	}
	case K_SIGN:
		if (!vget(reg, R, d)) return 0;
		for (k = 0, x = 0; k < R / E; k++) if (ldn(d + k * E, E) >> (E * 8 - 1) & 1) x |= (u64)1 << (be() ? R / E - 1 - k : k); /* the first element is in the highest bit on big-endian targets */
		{ int b32 = (i->type & SLJIT_32) != 0;
		if (!W64 || b32) { if (R / E > 32) return 0; }
		if (i->sk == S_R) { int g = greg(i->r); if (!greg_usable(g)) return 0; if (phase) { gv[g] = x & wmask(b32); gk[g] = wmask(b32); } }
		else { n = (W64 && !b32) ? 8 : 4; if (!(p = mplace(i, n, n))) return 0; if (phase) stn(p, n, x); } }
		return 1;
	case K_OP2: case K_SHUF:
		if (!vget(vreg(i->v2), R, a)) return 0;
		if (i->sk == S_V) { if (!vget(vreg(i->r), R, b)) return 0; } else { if (!(p = mplace(i, R, al))) return 0; memcpy(b, p, (size_t)R); }
		for (k = 0; k < R; k++) switch (i->type & 7) {
		case SLJIT_SIMD_OP2_AND: d[k] = a[k] & b[k]; break;
		case SLJIT_SIMD_OP2_OR: d[k] = a[k] | b[k]; break;
		case SLJIT_SIMD_OP2_XOR: d[k] = a[k] ^ b[k]; break;
		default: if (b[k] >= R) return 0; d[k] = a[b[k]]; break;
		}
		if (phase) vset(reg, R, d);
		return 1;
	}
	return 0;
}
static void operand(const item *i, sljit_s32 *o, sljit_sw *w, int emit)
{
	switch (i->sk) {
	case S_V: *o = vreg(i->r); *w = 0; break;
	case S_R: *o = greg(i->r); *w = 0; break;
	case S_F: *o = frg(i->r); *w = 0; break;
	case S_IMM: *o = SLJIT_IMM; *w = (sljit_sw)i->imm; break;
	default: mop(C, i, o, w, emit);
	}
}
/* output area: general registers, float registers, vector registers, locals, flags */
static struct { uw g[32]; u64 f[64]; u8 v[64][64]; u8 loc[LOCAL]; uw flag[MAXI]; } *ob;
static int stsize[64];
static int run_case(void)
{
	struct sljit_compiler *c; sljit_s32 e, o; sljit_sw w; int k, m, n, used[64], nuse = 0, sizes[4] = { 64, 32, 16, 8 }; void *code; static const sljit_s32 szt[4] = { SLJIT_SIMD_REG_512, SLJIT_SIMD_REG_256, SLJIT_SIMD_REG_128, SLJIT_SIMD_REG_64 };
	int fl_on[MAXI]; u64 done = 0;
	if (nvs < 1 || nvs > SLJIT_NUMBER_OF_VECTOR_REGISTERS || nvv < 0 || nvv > SLJIT_NUMBER_OF_SAVED_VECTOR_REGISTERS || nvs + nvv > SLJIT_NUMBER_OF_VECTOR_REGISTERS) return 3;
	pairs = sljit_has_cpu_feature(SLJIT_SIMD_REGS_ARE_PAIRS) > 0;
	if (pairs && ((nvs | nvv) & 1)) return 3;
	init_values();
	memset(ob, 0xee, sizeof(*ob));
	C = c = sljit_create_compiler(NULL);
	if (!c) { fprintf(stderr, "INFRA: compiler\n"); exit(99); }
	n = SEP ? NFR : (nvs > NFR ? nvs : NFR);
	if (!SEP && n + nvv > SLJIT_NUMBER_OF_VECTOR_REGISTERS) { sljit_free_compiler(c); return 3; }
	sljit_emit_enter(c, opts, SLJIT_ARGS0V(), GSC | SLJIT_ENTER_FLOAT(n) | SLJIT_ENTER_VECTOR(SEP ? nvs : n), GSV | SLJIT_ENTER_FLOAT(SEP ? 0 : nvv) | SLJIT_ENTER_VECTOR(nvv), 256);
	for (k = 0; k < LOCAL; k += WBYTES) { uw x; memcpy(&x, mloc + k, WBYTES); sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(SLJIT_SP), k, SLJIT_IMM, (sljit_sw)x); }
	/* vector registers */
	for (k = 0; k < nvs + nvv; k++) {
		int reg = vreg(k);
		used[nuse++] = reg;
		for (m = 0; m < 4; m++) {
			if (pairs && sizes[m] != ((reg & 1) == 0 && (dseed >> (20 + (k >> 1)) & 1) ? 16 : 8)) continue;
			if (sljit_emit_simd_mov(c, szt[m] | SLJIT_SIMD_TEST, reg, SLJIT_MEM1(SLJIT_R0), 0) != SLJIT_SUCCESS) continue;
			sljit_emit_op1(c, SLJIT_MOV, SLJIT_R0, 0, SLJIT_IMM, (sljit_sw)(uw)(page + ((reg * 64) & (PAGE - 1))));
			sljit_emit_simd_mov(c, szt[m], reg, SLJIT_MEM1(SLJIT_R0), 0);
			vset(reg, sizes[m], mmem + ((reg * 64) & (PAGE - 1)));
			break;
		}
		if (m == 4) { sljit_free_compiler(c); FAIL("no vector move is supported"); }
	}
	for (k = 0; k < NFR; k++) {
		int f = SLJIT_FR(k);
		if (!SEP && ((dseed >> k) & 1)) continue;
		if ((dseed >> (8 + k)) & 1) { float x; double d; u32 y; memcpy(&d, &fv[f], 8); x = (float)d; sljit_emit_fset32(c, f, x); memcpy(&y, &x, 4); fset(f, y, 4); }
		else { double d; memcpy(&d, &fv[f], 8); sljit_emit_fset64(c, f, d); fset(f, fv[f], 8); }
	}
	for (k = 0; k < GSC + GSV; k++) { int g = greg(k); sljit_emit_op1(c, SLJIT_MOV, g, 0, SLJIT_IMM, (sljit_sw)gv[g]); gk[g] = wmask(0); }
	for (k = 0; k < ni; k++) {
		item *i = &it[k]; int r, t; sljit_s32 type = i->type;
		fl_on[k] = 0;
		if (i->v >= nvs + nvv || i->v2 >= nvs + nvv || (i->sk == S_V && i->r >= nvs + nvv)) continue;
		t = model(i, 0);
		if (!t) continue;
		if (t == 2) { /* only the return values are checked */
			struct sljit_compiler *c2 = sljit_create_compiler(NULL);
			if (!c2) { fprintf(stderr, "INFRA: compiler\n"); exit(99); }
			C = c2;
			sljit_emit_enter(c2, opts, SLJIT_ARGS0V(), GSC | SLJIT_ENTER_FLOAT(n) | SLJIT_ENTER_VECTOR(SEP ? nvs : n), GSV | SLJIT_ENTER_FLOAT(SEP ? 0 : nvv) | SLJIT_ENTER_VECTOR(nvv), 256);
			operand(i, &o, &w, 0);
			t = call_op(i, type | SLJIT_SIMD_TEST, o, w); r = call_op(i, type, o, w); e = sljit_get_compiler_error(c2);
			sljit_free_compiler(c2); C = c;
			if (t != r || e) { sljit_free_compiler(c); FAIL("item %d (%s): the test form returns %d, the other form %d, the error is %d", k, kn[i->k], t, r, e); }
			pg->extra[20]++;
			continue;
		}
		operand(i, &o, &w, 0);
		t = call_op(i, type | SLJIT_SIMD_TEST, o, w);
		if (sljit_get_compiler_error(c)) { e = sljit_get_compiler_error(c); sljit_free_compiler(c); FAIL("item %d (%s): the test form gives error %d", k, kn[i->k], e); }
		if (t == SLJIT_ERR_UNSUPPORTED) {
			r = call_op(i, type, o, w);
			if (r != SLJIT_ERR_UNSUPPORTED || sljit_get_compiler_error(c)) { sljit_free_compiler(c); FAIL("item %d (%s): the test form says unsupported, the other form returns %d", k, kn[i->k], r); }
			pg->extra[10 + i->k]++;
			continue;
		}
		if (t != SLJIT_SUCCESS) { sljit_free_compiler(c); FAIL("item %d (%s): the test form returns %d", k, kn[i->k], t); }
		operand(i, &o, &w, 1);
		if (i->fl) {
			sljit_sw a = (sljit_sw)(i->imm & 0xff), b = i->fl & 2 ? a : a + 3;
			sljit_emit_op1(c, SLJIT_MOV, SLJIT_S0, 0, SLJIT_IMM, a); gv[SLJIT_S0] = (u64)a;
			sljit_emit_op2u(c, SLJIT_SUB | SLJIT_SET_Z | SLJIT_SET_LESS, SLJIT_S0, 0, SLJIT_IMM, b);
		}
		r = call_op(i, type, o, w);
		if (r != SLJIT_SUCCESS) { sljit_free_compiler(c); FAIL("item %d (%s): the test form says it is supported, the other form returns %d", k, kn[i->k], r); }
		if (i->fl) { sljit_emit_op_flags(c, SLJIT_MOV, SLJIT_MEM0(), (sljit_sw)(uw)&ob->flag[k], i->fl & 1 ? SLJIT_EQUAL : SLJIT_LESS); fl_on[k] = 1; }
		model(i, 1);
		pg->extra[i->k]++;
		done++;
	}
	/* results: R0 is used as a base, its value is stored first */
	for (k = 0; k < GSC + GSV; k++) { int g = greg(k); sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM0(), (sljit_sw)(uw)&ob->g[g], g, 0); }
	for (k = 0; k < NFR; k++) { int f = SLJIT_FR(k); if (fk[f]) sljit_emit_fop1(c, fk[f] == 4 ? SLJIT_MOV_F32 : SLJIT_MOV_F64, SLJIT_MEM0(), (sljit_sw)(uw)&ob->f[f], f, 0); }
	for (k = 0; k < nuse; k++) {
		int reg = used[k];
		stsize[reg] = 0;
		for (m = 0; m < 4; m++) {
			if (sizes[m] > vk[reg] || (pairs && sizes[m] != vk[reg])) continue;
			sljit_emit_op1(c, SLJIT_MOV, SLJIT_R0, 0, SLJIT_IMM, (sljit_sw)(uw)&ob->v[reg][0]);
			if (sljit_emit_simd_mov(c, szt[m] | SLJIT_SIMD_STORE | SLJIT_SIMD_TEST, reg, SLJIT_MEM1(SLJIT_R0), 0) != SLJIT_SUCCESS) continue;
			sljit_emit_simd_mov(c, szt[m] | SLJIT_SIMD_STORE, reg, SLJIT_MEM1(SLJIT_R0), 0);
			stsize[reg] = sizes[m]; break;
		}
	}
	for (k = 0; k < LOCAL; k += WBYTES) sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM0(), (sljit_sw)(uw)&ob->loc[k], SLJIT_MEM1(SLJIT_SP), k);
	sljit_emit_return_void(c);
	e = sljit_get_compiler_error(c);
	if (e) { sljit_free_compiler(c); FAIL("error %d", e); }
	code = sljit_generate_code(c, 0, NULL);
	if (!code) { e = sljit_get_compiler_error(c); sljit_free_compiler(c); FAIL("the code is not generated, error %d", e); }
	sljit_free_compiler(c);
	pg->phase = 1;
	((void (SLJIT_FUNC *)(void))code)();
	pg->phase = 0;
	sljit_free_code(code, NULL);
	for (k = 0; k < nuse; k++) { int reg = used[k]; for (m = 0; m < stsize[reg]; m++) if (ob->v[reg][m] != vv[reg][m]) FAIL("vector register %d: byte %d is %02x instead of %02x", reg, m, ob->v[reg][m], vv[reg][m]); }
	for (m = 0; m < PAGE; m++) if (page[m] != mmem[m]) FAIL("memory: byte %d is %02x instead of %02x", m, page[m], mmem[m]);
	for (m = 0; m < LOCAL; m++) if (ob->loc[m] != mloc[m]) FAIL("local %d is %02x instead of %02x", m, ob->loc[m], mloc[m]);
	for (k = 0; k < GSC + GSV; k++) { int g = greg(k); if ((ob->g[g] ^ gv[g]) & gk[g]) FAIL("register %d is %llx instead of %llx", g, (unsigned long long)ob->g[g], (unsigned long long)gv[g]); }
	for (k = 0; k < NFR; k++) { int f = SLJIT_FR(k); if (fk[f]) { u64 x = fk[f] == 4 ? ldn((u8*)&ob->f[f], 4) : ob->f[f]; u64 y = fk[f] == 4 ? fv[f] & 0xffffffffu : fv[f]; if (x != y) FAIL("float register %d is %llx instead of %llx", f, (unsigned long long)x, (unsigned long long)y); } }
	for (k = 0; k < ni; k++) if (fl_on[k]) { uw x = it[k].fl & 1 ? (it[k].fl & 2) != 0 : !(it[k].fl & 2); if (ob->flag[k] != x) FAIL("item %d (%s): a flag is %llx after it instead of %llx", k, kn[it[k].k], (unsigned long long)ob->flag[k], (unsigned long long)x); }
	pg->extra[30] += done;
	(void)nanmap; (void)freg_nosep_ok;
	return done ? 0 : 100;
}
static void make_case(u64 seed, u64 n)
{
	static const sljit_s32 szt[4] = { SLJIT_SIMD_REG_64, SLJIT_SIMD_REG_128, SLJIT_SIMD_REG_256, SLJIT_SIMD_REG_512 };
	int k, tot, favr;
	rseed(seed, n);
	dseed = r64();
	pairs = sljit_has_cpu_feature(SLJIT_SIMD_REGS_ARE_PAIRS) > 0;
	nvs = 2 + (int)rn(rp(70) ? 3 : (u32)(SLJIT_NUMBER_OF_SCRATCH_VECTOR_REGISTERS > 12 ? 12 : SLJIT_NUMBER_OF_SCRATCH_VECTOR_REGISTERS - 2));
	nvv = SLJIT_NUMBER_OF_SAVED_VECTOR_REGISTERS && rp(40) ? 1 + (int)rn((u32)SLJIT_NUMBER_OF_SAVED_VECTOR_REGISTERS) : 0;
	if (pairs) { nvs &= ~1; nvv &= ~1; }
	if ((nvs > NFR ? nvs : NFR) + nvv > SLJIT_NUMBER_OF_VECTOR_REGISTERS) nvv = 0;
	tot = nvs + nvv;
	opts = 0;
#if (defined SLJIT_CONFIG_X86 && SLJIT_CONFIG_X86)
	if (rp(50)) opts = SLJIT_ENTER_USE_VEX;
#endif
	favr = rp(60) ? 1 : (int)rn(4); /* most operations of a case have the same size */
	ni = 1 + (int)rn(rp(50) ? 5 : MAXI);
	for (k = 0; k < ni; k++) {
		item *i = &it[k]; int rs, es, al, R; memset(i, 0, sizeof(*i));
		i->k = (int)rn(K_KINDS);
		rs = rp(75) ? favr : (int)rn(4); R = 8 << rs;
		i->type = szt[rs];
		i->v = (int)rn((u32)tot); i->v2 = rp(20) ? i->v : (int)rn((u32)tot); i->r = (int)rn((u32)tot); i->imm = (s64)rval(); i->fl = rp(30) ? 1 + (int)rn(3) : 0; if (i->fl) i->fl |= 4;
		es = (int)rn(4); if (rp(3)) es = (int)rn(6);
		if (rp(30)) i->type |= SLJIT_SIMD_FLOAT;
		if ((i->type & SLJIT_SIMD_FLOAT) && es < 2 && rp(85)) es = 2 + (int)rn(2);
		i->sk = S_MEM; al = 0;
		switch (i->k) {
		case K_MOVL: case K_MOVS: if (i->k == K_MOVS) i->type |= SLJIT_SIMD_STORE; if (es > rs + 3) es = rs + 3; if (rp(45)) i->sk = S_V; else { al = rp(50) ? 0 : (int)rn((u32)rs + 4); i->type |= al << 24; } break;
		case K_REP: case K_LLOAD: if (es >= rs + 3) es = rs + 2;
			if (i->type & SLJIT_SIMD_FLOAT) i->sk = rp(45) ? S_F : rp(80) ? S_MEM : S_IMM; else i->sk = rp(40) ? S_R : rp(60) ? S_MEM : S_IMM;
			if (i->k == K_LLOAD) { if (rp(25)) i->type |= SLJIT_SIMD_LANE_ZERO; if (!(i->type & SLJIT_SIMD_FLOAT) && es <= 2 && rp(35)) i->type |= SLJIT_32; if (i->sk == S_IMM && (i->type & SLJIT_SIMD_FLOAT)) i->sk = S_MEM; }
			else if (i->sk == S_IMM && ((i->type & SLJIT_SIMD_FLOAT) || rp(15))) i->imm = 0;
			else if (i->sk == S_IMM && rp(60)) i->imm = rp(50) ? (s64)rn(256) : (s64)(s32)rn(0x20000) - 0x10000;
			i->lane = (int)rn((u32)(R >> es)); break;
		case K_LSTORE: if (es >= rs + 3) es = rs + 2; i->type |= SLJIT_SIMD_STORE; i->lane = (int)rn((u32)(R >> es));
			if (i->type & SLJIT_SIMD_FLOAT) i->sk = rp(60) ? S_F : S_MEM;
			else { i->sk = rp(65) ? S_R : S_MEM; if (rp(40)) i->type |= SLJIT_SIMD_LANE_SIGNED; if (es <= 2 && rp(35)) i->type |= SLJIT_32; } break;
		case K_LREP: if (es >= rs + 3) es = rs + 2; i->lane = (int)rn((u32)(R >> es)); break;
		case K_EXT: { int e2; if ((i->type & SLJIT_SIMD_FLOAT) && rp(85)) { es = 2; e2 = 3; } else { es = (int)rn(3); e2 = es + 1 + (int)rn((u32)(3 - es)); if (!(i->type & SLJIT_SIMD_FLOAT) && rp(50)) i->type |= SLJIT_SIMD_EXTEND_SIGNED; }
			if (e2 >= rs + 3) { e2 = 2; if (es >= e2) es = 1; i->type &= ~SLJIT_SIMD_FLOAT; } i->type |= e2 << 24; if (rp(50)) i->sk = S_V; break; }
		case K_SIGN: if (es >= rs + 3) es = rs + 2; i->type |= SLJIT_SIMD_STORE; if (rp(40)) i->type |= SLJIT_32; i->sk = rp(60) ? S_R : S_MEM; break;
		case K_OP2: i->type |= 1 + (int)rn(3); if (es > rs + 3) es = rs + 3; if (rp(60)) i->sk = S_V; else { al = rp(50) ? 0 : (int)rn((u32)rs + 4); i->type |= al << 24; } break;
		case K_SHUF: i->type &= ~SLJIT_SIMD_FLOAT; es = 0; i->type |= SLJIT_SIMD_OP2_SHUFFLE; if (rp(40)) i->sk = S_V; else { al = rp(50) ? 0 : (int)rn((u32)rs + 4); i->type |= al << 24; } break;
		}
		i->type |= es << 18;
		if (i->sk == S_R) i->r = (int)rn(GSC + GSV);
		if (i->sk == S_F) i->r = (int)rn(NFR);
		if (i->sk == S_MEM) {
			int n = i->k == K_SIGN ? ((W64 && !(i->type & SLJIT_32)) ? 8 : 4) : i->k == K_LSTORE || i->k == K_LLOAD || i->k == K_REP ? 1 << es : i->k == K_EXT ? (R >> E2SH(i->type)) << es : R;
			i->mk = (int)rn(4);
			if (i->k == K_SIGN) al = n == 8 ? 3 : 2;
			else if (i->k == K_LSTORE || i->k == K_LLOAD || i->k == K_REP || i->k == K_EXT) al = es;
			if (i->mk == 3) { i->off = (int)rn(LOCAL - 1); if (i->off + n > LOCAL) i->off = LOCAL - n; if (al) i->off &= ~((1 << al) - 1); if (i->off < 0) i->off = 0; if (al && (i->k == K_MOVL || i->k == K_MOVS || i->k == K_OP2 || i->k == K_SHUF)) { i->type &= ~(0x3f << 24); al = 0; } }
			else {
				i->off = rp(25) ? PAGE - n - (rp(50) ? 0 : (int)rn(20)) : rp(10) ? (int)rn(16) : (int)rn((u32)(PAGE - n));
				if (i->k == K_SHUF && rp(80)) i->off = 512 + (int)rn(512 - (u32)n);
				if (i->k == K_MOVL && rp(15) && n < 400) i->off = 512 + (int)rn(512 - (u32)n);
				i->off &= ~((1 << al) - 1);
				i->sh = (int)rn(4);
				i->disp = i->mk == 1 ? (rp(40) ? (s64)rrange(-300, 300) : rp(50) ? (s64)rrange(-70000, 70000) : (s64)(s32)r64()) : (rp(50) ? (s64)rn(4000) : (s64)(s32)r64());
				if (rp(25)) i->disp &= ~(s64)15;
			}
			if (i->off < 0) i->off = 0;
		}
	}
}
static void write_case(FILE *f)
{
	int k;
	fprintf(f, "simd %llx %d %d %d\n", (unsigned long long)dseed, nvs, nvv, opts);
	for (k = 0; k < ni; k++) { const item *i = &it[k]; fprintf(f, "i %s %x %d %d %d %d %d %d %d %d %d %lld %lld\n", kn[i->k], (unsigned)i->type, i->v, i->v2, i->sk, i->r, i->mk, i->off, i->sh, i->lane, i->fl, (long long)i->disp, (long long)i->imm); }
	fprintf(f, "end\n");
}
static int read_case(FILE *f)
{
	char line[300], w[30]; int k; unsigned long long a; unsigned t;
	ni = 0; nvs = -1;
	while (fgets(line, sizeof(line), f)) {
		item i; long long d, m;
		if (!strncmp(line, "end", 3)) break;
		if (sscanf(line, "simd %llx %d %d %d", &a, &nvs, &nvv, &opts) == 4) { dseed = a; continue; }
		memset(&i, 0, sizeof(i));
		if (sscanf(line, "i %29s %x %d %d %d %d %d %d %d %d %d %lld %lld", w, &t, &i.v, &i.v2, &i.sk, &i.r, &i.mk, &i.off, &i.sh, &i.lane, &i.fl, &d, &m) != 13) continue;
		i.type = (sljit_s32)t; i.disp = d; i.imm = m;
		for (k = 0; k < K_KINDS && strcmp(kn[k], w); k++) ;
		if (k == K_KINDS || ni >= MAXI || i.v < 0 || i.v2 < 0 || i.r < 0 || i.r > 31 || i.sk < 0 || i.sk > 4 || i.mk < 0 || i.mk > 3 || i.sh < 0 || i.sh > 3 || i.lane < 0) return 1;
		i.k = k; it[ni++] = i;
	}
	return nvs < 0;
}
int main(int argc, char **argv)
{
	long ps = sysconf(_SC_PAGESIZE); u8 *p;
	if (argc < 2) return 99;
	setvbuf(stdout, NULL, _IOLBF, 0);
	if (ps < PAGE) ps = PAGE;
	p = (u8*)mmap((void*)0x31230000ul, (size_t)ps * 3, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
	if (p == MAP_FAILED) p = (u8*)mmap(NULL, (size_t)ps * 3, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED || mprotect(p, (size_t)ps, PROT_NONE) || mprotect(p + 2 * ps, (size_t)ps, PROT_NONE)) { fprintf(stderr, "INFRA: page\n"); return 99; }
	page = p + 2 * ps - PAGE;
	ob = fixmap(0x32340000ul, (sizeof(*ob) + 4095) & ~4095ul);
	if (!strcmp(argv[1], "run") && argc >= 7) {
		u64 seed = strtoull(argv[3], NULL, 10), n = strtoull(argv[4], NULL, 10), end, stop = stop_at();
		progress_open(argv[6]);
		end = now_ms() + strtoull(argv[5], NULL, 10);
		for (; now_ms() < end && n <= stop; n++) {
			int r; u64 h;
			pg->cur = n; pg->phase = 0;
			if (n % 16 == 0) arm_watchdog(20);
			make_case(seed, n);
			pg->cases++; pg->instrs += (u64)ni;
			r = run_case();
			if (r == 3) { pg->skipped++; continue; }
			if (r && r != 100) { printf("MISMATCH case=%llu %s\n", (unsigned long long)n, msg); return r; }
			h = fnv(fnv(14695981039346656037ull, it, sizeof(item) * (size_t)ni), &dseed, 8);
			if (!r && ni > 1 && dset_add(h)) pg->nontriv++;
		}
		return 0;
	}
	if (!strcmp(argv[1], "dump") && argc >= 5) { make_case(strtoull(argv[3], NULL, 10), strtoull(argv[4], NULL, 10)); write_case(stdout); return 0; }
	if (!strcmp(argv[1], "replay") && argc >= 3) {
		FILE *f = fopen(argv[2], "r"); int r;
		if (!f || read_case(f)) { printf("INVALID unreadable\n"); return 3; }
		fclose(f);
		arm_watchdog(20);
		r = run_case();
		if (r == 3) { printf("INVALID\n"); return 3; }
		if (r && r != 100) { printf("MISMATCH %s\n", msg); return r; }
		printf("OK\n");
		return 0;
	}
	return 99;
}
