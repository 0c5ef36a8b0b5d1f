/* Random program generator: programs are generated while they are executed by the reference interpreter,
   so every executed instruction has a defined result by construction. */
#ifndef VT_GEN_H
#define VT_GEN_H
#include "emit.h"

enum { G_OP1 = 0, G_OP2, G_OP2U, G_OP2R, G_SHI, G_DIV, G_MISC, G_CMP, G_OP2CMPZ, G_MEM, G_MEMUPD, G_FMEM, G_FMEMUPD, G_FOP1, G_FCONV, G_FCMPSET, G_FOP2, G_FOP2R, G_FSET, G_FCOPY, G_FCMP,
	G_LOCALBASE, G_CONST, G_LOOP, G_SUB, G_IJUMP, G_ICALL, G_JUMP, G_CONSUME, G_MOVIMM, G_PAD, G_RECALL, G_MAXK };
typedef struct { const char *name; u8 w[G_MAXK]; int pmem, pflags, pfloat, minlen, maxlen, biglocals; } profile;
static const profile profiles[] = {
/*            OP1 OP2 2U 2R SHI DIV MISC CMP CMPZ MEM UPD FMEM FUPD FOP1 CONV FCS FOP2 F2R FSET FCPY FCMP LB CONST LOOP SUB IJ ICALL JUMP CONS MOVI PAD RECALL */
{ "int",    { 20, 50,  2, 6,  8,  8,   1,  1,   1,  1,  1,   0,   0,   1,   0,  0,   0,  0,   0,   0,   0, 1,   2,   1,  1, 0,   1,   0,   2,   4,  0,   0 }, 25, 15, 1, 8, 30, 0 },
{ "flags",  {  4, 40, 16, 0,  0,  0,   1,  9,   9,  0,  0,   0,   0,   0,   0,  2,   0,  0,   0,   0,   0, 0,   1,   1,  0, 0,   0,   4,  40,   6,  0,   0 }, 18, 85, 1, 8, 34, 0 },
{ "mem",    { 30,  8,  0, 0,  0,  0,   0,  0,   0, 26, 14,  10,   8,   6,   0,  0,   2,  1,   0,   0,   1, 6,   1,   1,  1, 0,   1,   0,   1,   3,  0,   0 }, 85, 10, 1, 8, 30, 1 },
{ "float",  {  2,  2,  0, 0,  0,  0,   0,  0,   0,  0,  0,   4,   2,  16,  24, 14,  22, 10,   8,  10,  12, 1,   0,   1,  1, 0,   1,   1,  20,   2,  0,   0 }, 30, 30, 1, 8, 30, 0 },
{ "ctrl",   {  6,  8,  2, 0,  0,  0,   0,  9,   7,  0,  0,   0,   0,   0,   0,  1,   0,  0,   0,   0,   3, 0,   1,  12,  9, 9,   2,  10,   6,   3, 12,   9 }, 15, 60, 1, 10, 40, 0 },
{ "mix",    { 10, 16,  3, 2,  3,  2,   1,  3,   3,  4,  2,   3,   1,   4,   4,  3,   4,  2,   2,   2,   2, 2,   2,   3,  2, 2,   2,   3,   8,   2,  2,   2 }, 30, 40, 1, 10, 60, 1 },
{ "meta",   {  8, 12,  2, 1,  1,  1,   1,  4,   3,  4,  1,   1,   1,   3,   2,  2,   2,  1,   2,   2,   2, 3,  10,   3,  3, 6,   7,   5,   4,   5,  4,   4 }, 30, 40, 1, 8, 44, 0 },
};
#define NPROFILES ((int)(sizeof(profiles) / sizeof(profiles[0])))

typedef struct { prog *p; vst *s; const profile *pr; int dead; int nlab; struct { s64 lab; int left; } pend[8]; int npend; u32 pin; s32 lastreg, lastfreg; int sz, svt, sv32, ssub; sw hot[6]; int rollback; int depth; s64 subs[4]; int nsubs; u64 kinds; int haslast; s32 lo; sw lw; int nofc; } gen;

static struct sljit_compiler *qc; /* used for support queries only */

/* ----- static flag state (what the documentation says is usable at this point of the instruction stream) ----- */
static void sflags(int *z, int *vt, int *v32, int *sub, const ins *i)
{
	switch (i->k) {
	case K_OP2: case K_OP2U: *z = OPZ(i->op); *vt = OPV(i->op) ? (OPV(i->op) & 0xfe) : -1; *v32 = !!(i->op & SLJIT_32); *sub = (i->op & 0xff) <= SLJIT_ADDC ? 1 : (i->op & 0xff) <= SLJIT_SUBC ? 2 : 0; return;
	case K_OP2CMPZ: *z = 0; *vt = OPV(i->op & ~SLJIT_REWRITABLE_JUMP) ? (OPV(i->op & ~SLJIT_REWRITABLE_JUMP) & 0xfe) : -1; if (*vt == SLJIT_CARRY) *vt = -1; return;
	case K_OP1: if ((i->op & 0xff) <= SLJIT_MOV_P) return; break;
	case K_OP0: if ((i->op & 0xff) == SLJIT_NOP || (i->op & 0xff) == SLJIT_ENDBR || (i->op & 0xff) == SLJIT_MEMORY_BARRIER) return; break;
	case K_FOP1: if ((i->op & 0xff) == SLJIT_MOV_F64) return; if ((i->op & 0xff) == SLJIT_CMP_F64) { *z = 0; *vt = OPV(i->op) & 0xfe; *sub = 0; return; } break;
	case K_OPFLAGS: if ((i->op & 0xff) == SLJIT_MOV || (i->op & 0xff) == SLJIT_MOV32) return; *z = OPZ(i->op); *vt = -1; *v32 = !!(i->op & SLJIT_32); *sub = 0; return;
	case K_SELECT: case K_FSELECT: case K_JUMP: /* the checks regard all flags as lost after the carry flag is consumed */
		if ((i->op & 0xfe) == SLJIT_CARRY) { *vt = -1; *z = 0; } else if (*vt == SLJIT_CARRY && i->k == K_JUMP) *vt = -1; return;
	case K_IJUMP: if (*vt == SLJIT_CARRY) *vt = -1; return;
	case K_MEM: case K_MEMUPD: case K_FMEM: case K_FMEMUPD: case K_PREF: case K_PAD: case K_CONST: case K_OPADDR: case K_FENTER: return;
	case K_SETFLAGS: *z = OPZ(i->op); *vt = OPV(i->op) ? (OPV(i->op) & 0xfe) : -1; *v32 = !!(i->op & SLJIT_CURRENT_FLAGS_32); *sub = (i->op & SLJIT_CURRENT_FLAGS_ADD) ? 1 : (i->op & SLJIT_CURRENT_FLAGS_SUB) ? 2 : 0; return;
	}
	*z = 0; *vt = -1;
}
static int sflag_use_ok(int z, int vt, int v32, int sub, const ins *i)
{
	s32 t = -1;
	switch (i->k) {
	case K_OP2: case K_OP2U: case K_OP2CMPZ:
		if ((i->op & 0xff) == SLJIT_ADDC) return vt == SLJIT_CARRY && v32 == !!(i->op & SLJIT_32) && sub == 1;
		if ((i->op & 0xff) == SLJIT_SUBC) return vt == SLJIT_CARRY && v32 == !!(i->op & SLJIT_32) && sub == 2;
		return 1;
	case K_OPFLAGS: t = (s32)i->x; break;
	case K_SELECT: case K_FSELECT: t = i->op & 0xff; break;
	case K_JUMP: t = i->op & 0xff; if (t == SLJIT_JUMP) return 1; break;
	default: return 1;
	}
	return t <= SLJIT_NOT_ZERO ? z : vt == (t & 0xfe);
}
/* validity of flag uses and labels in emission order; used for replay files, too */
static int prog_flags_ok(const prog *p)
{
	int z = 0, vt = -1, v32 = 0, sub = 0, j;
	for (j = 0; j < p->n; j++) {
		const ins *i = &p->i[j];
		if (!sflag_use_ok(z, vt, v32, sub, i)) { ub = "flag used statically undefined"; return -1; }
		sflags(&z, &vt, &v32, &sub, i);
		switch (i->k) { case K_JUMP: case K_CMP: case K_FCMP: case K_OP2CMPZ: case K_FCALL: case K_OPADDR: if (find_label(p, i->x) < 0) { ub = "no label"; return -1; } }
		if (i->k == K_FCALL) { int l = find_label(p, i->x); if (l + 1 >= p->n || p->i[l + 1].k != K_FENTER) { ub = "no fast enter"; return -1; } }
	}
	return 0;
}

static ins mk(int k, s32 op) { ins i; memset(&i, 0, sizeof(i)); i.k = k; i.op = op; return i; }

static void resync(gen *g) { /* rebuild the state after a rollback */
	st_init(g->s, g->p); { int j; g->sz = 0; g->svt = -1; g->sv32 = 0; g->ssub = 0; for (j = 0; j < g->p->n; j++) sflags(&g->sz, &g->svt, &g->sv32, &g->ssub, &g->p->i[j]); }
	if (run_interp(g->p, g->s)) { fprintf(stderr, "INFRA: resync failed: %s\n", ub); exit(99); }
}
/* appends an instruction and executes it */
/* number of no-operations: distances near the limits of the jump forms (in bytes of code) are preferred */
static int gbigpad;
static s64 padlen(void)
{
#if (defined SLJIT_CONFIG_X86 && SLJIT_CONFIG_X86)
	const u32 sz = 1;
#elif (defined SLJIT_CONFIG_ARM_THUMB2 && SLJIT_CONFIG_ARM_THUMB2) || (defined SLJIT_CONFIG_S390X && SLJIT_CONFIG_S390X)
	const u32 sz = 2;
#else
	const u32 sz = 4;
#endif
	u32 k = rn(1000), d = rn(rp(50) ? 24 : 120), n;
	static const u32 lim[] = { 128, 256, 2048, 4096, 32768, 65536, 131072, 262144, 1048576 };
	if (k < 500) return (s64)rn(100);
	if (k < 750 || !gbigpad) n = lim[rn(2)]; else if (k < 860) n = lim[2 + rn(2)]; else if (k < 960) n = lim[4 + rn(3)]; else if (k < 975) n = lim[7]; else if (k < 983) n = lim[8]; else return (s64)rn(9000);
	n /= sz; if (rp(10)) d = 0u - d;
	return (s64)(n > d || (s32)d < 0 ? n - d : 0);
}

static int put(gen *g, ins i)
{
	prog *p = g->p; int at = p->n;
	if (p->n >= MAXI - 24) return -1;
	if (!sflag_use_ok(g->sz, g->svt, g->sv32, g->ssub, &i)) return -1;
	p->i[p->n++] = i;
	if (!g->dead) {
		if (step(p, g->s)) { p->n = at; resync(g); g->rollback++; return -1; }
	}
	sflags(&g->sz, &g->svt, &g->sv32, &g->ssub, &i);
	if (ISREG(i.o[0]) && i.o[0] < 64) { if (i.k >= K_FOP1 && i.k <= K_FSELECT) g->lastfreg = i.o[0]; else g->lastreg = i.o[0]; }
	return 0;
}

/* ----- registers ----- */
#define PINNED(g, r) (((g)->pin >> (r)) & 1)
static int reg_src_ok(gen *g, s32 r, int is32) { if (!pg_reg_ok(g->p, r)) return 0; if (g->dead) return 1; return is32 && W64 ? g->s->rt[r] == T_I : g->s->rt[r] == T_W; }
static s32 any_reg(gen *g) { s32 r; do r = 1 + (s32)rn(NREGS); while (!pg_reg_ok(g->p, r)); return r; }
static s32 reg_dst(gen *g) { int k; s32 r; for (k = 0; k < 40; k++) { r = (g->lastreg && rp(30) && pg_reg_ok(g->p, g->lastreg)) ? g->lastreg : any_reg(g); if (!PINNED(g, r)) return r; } return 0; }
static s32 reg_src(gen *g, int is32)
{
	int k; s32 r;
	if (g->lastreg && rp(30) && reg_src_ok(g, g->lastreg, is32)) return g->lastreg;
	for (k = 0; k < 12; k++) { r = any_reg(g); if (reg_src_ok(g, r, is32)) return r; }
	return 0;
}
/* a source register of the right type, created if necessary */
static s32 reg_src_force(gen *g, int is32)
{
	s32 r = reg_src(g, is32); ins i;
	if (r) return r;
	r = reg_dst(g); if (!r) return 0;
	i = mk(K_OP1, is32 ? SLJIT_MOV32 : SLJIT_MOV); i.o[0] = r; i.o[1] = SLJIT_IMM; i.w[1] = (sw)rval();
	if (rp(50) && !g->dead) { s32 q = reg_src(g, !is32); if (q && is32) { i.o[1] = q; i.w[1] = 0; } else if (q) { i.op = rp(50) ? SLJIT_MOV_S32 : SLJIT_MOV_U32; i.o[1] = q; i.w[1] = 0; } }
	if (put(g, i)) return 0;
	return r;
}
static s32 any_freg(gen *g) { s32 r; if (g->p->fsc + g->p->fsv == 0) return 0; do r = 1 + (s32)rn(NFREGS); while (!pg_freg_ok(g->p, r)); return r; }
/* integers that lie at or next to the middle of two neighbouring floating point numbers */
static u64 rhalf(void)
{
	int w = rp(40) ? 32 : 64, prec = (w == 64 && rp(50)) ? 53 : 24, drop, sh; u64 v;
	if (!rp(70)) w -= (int)rn((u32)(w - prec));
	drop = w - prec; if (drop < 1) drop = 1;
	v = (r64() | 1ull << 63) >> (64 - prec);
	if (rp(20)) v |= ((1ull << rn((u32)prec)) - 1);
	sh = drop;
	v = (v << sh) | (1ull << (drop - 1));
	v += (u64)(s64)rrange(-1, 1);
	if (rp(15) && drop > 2) v ^= 1ull << rn((u32)(drop - 1));
	return rp(25) ? 0 - v : v;
}
static u64 fbits(int is32)
{
	static const u64 sp64[] = { 0, 0x8000000000000000ull, 0x3ff0000000000000ull, 0xbff0000000000000ull, 0x7ff0000000000000ull, 0xfff0000000000000ull, 0x7ff8000000000000ull, 0xfff8000000000001ull, 1, 0x8000000000000001ull, 0xfffffffffffffull, 0x10000000000000ull, 0x7fefffffffffffffull, 0xffefffffffffffffull,
		0x41dfffffffc00000ull, 0x41e0000000000000ull, 0xc1e0000000000000ull, 0xc1e0000000200000ull, 0x41efffffffe00000ull, 0x41f0000000000000ull, 0x43e0000000000000ull, 0xc3e0000000000000ull, 0x43dfffffffffffffull, 0xc3e0000000000001ull, 0x43f0000000000000ull, 0x3fe0000000000000ull, 0x3fdfffffffffffffull, 0x47efffffe0000000ull, 0x47efffffefffffffull, 0x47f0000000000000ull, 0x3690000000000000ull, 0x36a0000000000000ull, 0x380fffffe0000000ull };
	static const u32 sp32[] = { 0, 0x80000000u, 0x3f800000u, 0xbf800000u, 0x7f800000u, 0xff800000u, 0x7fc00000u, 0xffc00001u, 1, 0x80000001u, 0x7fffff, 0x800000, 0x7f7fffffu, 0xff7fffffu, 0x4effffffu, 0x4f000000u, 0xcf000000u, 0xcf000001u, 0x4f7fffffu, 0x4f800000u, 0x5f000000u, 0xdf000000u, 0x5effffffu, 0xdf000001u, 0x5f800000u, 0x3f000000u, 0x3effffffu };
	switch (rn(9)) {
	case 8: if (!is32) { u64 m = r64() & 0x800fffffe0000000ull; m |= 0x10000000u + (u64)(s64)rrange(-1, 1); return m | ((u64)rrange(rp(70) ? 1023 - 126 : 1023 - 155, 1023 + 127) << 52); } /* fall through: middle of two singles */
	case 0: case 1: return is32 ? sp32[rn(sizeof(sp32) / 4)] : sp64[rn(sizeof(sp64) / 8)];
	case 2: { double d = (double)rrange(-100, 100); return is32 ? of32((float)d) : of64(d); }
	case 3: { double d = (double)(s64)rval(); volatile float f = (float)d; return is32 ? of32(f) : of64(d); }
	case 4: { double d = (double)(s64)rval() + (double)rrange(-4, 4) * 0.25; volatile float f = (float)d; return is32 ? of32(f) : of64(d); }
	case 5: { u64 m = r64(); int e = is32 ? rrange(127 - 30, 127 + 66) : rrange(1023 - 60, 1023 + 66); return is32 ? ((m & 0x807fffffu) | ((u64)e << 23)) : ((m & 0x800fffffffffffffull) | ((u64)e << 52)); }
	case 6: { double d = ((double)rrange(-1000000, 1000000)) / (double)rrange(1, 5000); volatile float f = (float)d; return is32 ? of32(f) : of64(d); }
	default: return is32 ? (u32)r64() : r64();
	}
}
static s32 freg_src(gen *g, int is32)
{
	int k; s32 r; ins i;
	if (!any_freg(g)) return 0;
	if (g->lastfreg && rp(35) && pg_freg_ok(g->p, g->lastfreg) && (g->dead || g->s->ft[g->lastfreg] == (is32 ? FT_32 : FT_64))) return g->lastfreg;
	for (k = 0; k < 10; k++) { r = any_freg(g); if (g->dead || g->s->ft[r] == (is32 ? FT_32 : FT_64)) return r; }
	r = any_freg(g);
	i = mk(is32 ? K_FSET32 : K_FSET64, 0); i.o[0] = r; i.x = (s64)fbits(is32);
	return put(g, i) ? 0 : r;
}

/* ----- memory operands ----- */
static sw disp(void)
{
	static const int bnd[] = { 127, 128, 255, 256, 1023, 1024, 2047, 2048, 4095, 4096, 8191, 8192, 16383, 16384, 32760, 32767, 32768, 65535, 65536, 131072, 262143, 262144, 524287, 524288, 1048575, 1048576, 0x7ff000, 0x800000, 0xfff000, 0x1000000, 0x7ffffff, 0x8000000, 0x7fffffff };
	s64 d;
	switch (rn(8)) {
	case 0: return 0;
	case 1: return (sw)rrange(-64, 64);
	case 2: case 3: case 4: d = bnd[rn(sizeof(bnd) / sizeof(bnd[0]))]; d += (s64)rrange(-9, 9); break;
	case 5: d = (s64)(1ull << rn(W64 && rp(10) ? 62 : 32)); d += (s64)rrange(-9, 9); break;
	case 6: d = (s64)(r64() & 0xffff); break;
	default: d = (s64)(u32)r64() >> rn(20); break;
	}
	return (sw)(rp(45) ? -d : d);
}
/* builds an operand for an access of size bytes with the given alignment; store: the memory is only written */
static int gmem(gen *g, int size, int align, int store, int nolocal, s32 *o, sw *w)
{
	int k, a; uw addr; s32 r, x; sw d; ins i; prog *p = g->p; int shift;
	if (g->dead) { /* anything that is syntactically valid */
		do r = any_reg(g); while (IS_VIRT(r) && rp(90)); if (IS_VIRT(r)) { *o = SLJIT_MEM0(); *w = (sw)(uw)arena[0]; return 0; }
		switch (rn(3)) { case 0: *o = SLJIT_MEM0(); *w = (sw)rval(); return 0; case 1: *o = SLJIT_MEM1(r); *w = disp(); return 0;
		default: x = any_reg(g); if (IS_VIRT(x)) x = r; *o = SLJIT_MEM2(r, x); *w = (sw)rn(4); return 0; }
	}
	if (g->haslast && rp(15)) { mref m; if (!ea(g->s, g->lo, g->lw, size, align, &m)) { int ok = 1, z; if (m.def && (nolocal)) ok = 0; if (m.def && !store) for (z = 0; z < size; z++) if (m.def[z] != 1) ok = 0; if (ok) { *o = g->lo; *w = g->lw; return 0; } } }
	if (p->locals >= size && !nolocal && rp(g->pr->biglocals ? 40 : 25)) {
		for (k = 0; k < 8; k++) {
			sw off = rp(70) ? g->hot[rn(6)] + (sw)(rn(3)) * size : (sw)rn((u32)p->locals);
			int z, ok = 1;
			off &= ~(sw)(align - 1); /* align for opaque words, too */
			if (rp(70)) off &= ~(sw)(size > 8 ? 7 : size - 1);
			if (off < 0 || off + size > p->locals) continue;
			if (!store) for (z = 0; z < size; z++) if (g->s->ldef[off + z] != 1) ok = 0;
			if (!ok) continue;
			if (rp(70)) { *o = SLJIT_MEM1(SLJIT_SP); *w = off; goto done; }
			for (r = 1; r <= NREGS; r++) if (pg_reg_ok(p, r) && g->s->rt[r] == T_LOC && !IS_VIRT(r)) {
				if (rp(40)) { x = reg_src(g, 0); if (x && !IS_VIRT(x) && x != r) { shift = (int)rn(4); if ((sw)(g->s->r[r] + (g->s->r[x] << shift)) == off) { *o = SLJIT_MEM2(r, x); *w = shift; goto done; } } }
				*o = SLJIT_MEM1(r); *w = (sw)((uw)off - g->s->r[r]); goto done;
			}
			*o = SLJIT_MEM1(SLJIT_SP); *w = off; goto done;
		}
	}
	a = (int)rn(N_AR);
	addr = (uw)arena[a] + AR_WIN + rn(AR_SIZE - 2 * AR_WIN - (u32)size * 2);
	if (rp(50)) addr = (uw)arena[a] + AR_WIN + rn(16) * 8; /* hot area */
	addr &= ~(uw)(align - 1);
	if (rp(75)) addr &= ~(uw)((size > 8 ? 8 : size) - 1);
	switch (rn(10)) {
	case 0: *o = SLJIT_MEM0(); *w = (sw)addr; goto done;
	case 1: case 2: case 3: /* natural */
		for (k = 0; k < 10; k++) {
			r = any_reg(g); if (IS_VIRT(r) || g->s->rt[r] != T_W) continue;
			d = (sw)(addr - g->s->r[r]);
			if ((d < 0x200000 && d > -0x200000) || k == 9 || rp(3)) { *o = SLJIT_MEM1(r); *w = d; goto done; }
		}
		/* fall through */
	case 4: case 5: case 6:
		for (k = 0; k < 10; k++) { r = reg_dst(g); if (r && !IS_VIRT(r)) break; }
		if (!r || IS_VIRT(r)) { *o = SLJIT_MEM0(); *w = (sw)addr; goto done; }
		d = disp();
		if (size > 1 && rp(60)) d &= ~(sw)((size > 8 ? 8 : size) - 1);
		i = mk(K_OP1, SLJIT_MOV); i.o[0] = r; i.o[1] = SLJIT_IMM; i.w[1] = (sw)(addr - (uw)d);
		if (put(g, i)) return -1;
		g->pin |= 1u << r;
		*o = SLJIT_MEM1(r); *w = d; goto done;
	default:
		shift = (int)rn(4);
		for (k = 0; k < 10; k++) { r = reg_dst(g); if (r && !IS_VIRT(r)) break; }
		if (!r || IS_VIRT(r)) { *o = SLJIT_MEM0(); *w = (sw)addr; goto done; }
		if (rp(8)) { uw v = 0, mul = 1 + ((uw)1 << shift); if (addr % mul == 0) { v = addr / mul; i = mk(K_OP1, SLJIT_MOV); i.o[0] = r; i.o[1] = SLJIT_IMM; i.w[1] = (sw)v; if (put(g, i)) return -1; g->pin |= 1u << r; *o = SLJIT_MEM2(r, r); *w = shift; goto done; } }
		x = 0;
		for (k = 0; k < 10; k++) { s32 q = any_reg(g); if (q != r && !IS_VIRT(q) && g->s->rt[q] == T_W) { x = q; break; } }
		if (!x || (rp(50) && !PINNED(g, x))) {
			if (!x) for (k = 0; k < 10; k++) { x = reg_dst(g); if (x && x != r && !IS_VIRT(x)) break; x = 0; }
			if (!x) { *o = SLJIT_MEM0(); *w = (sw)addr; goto done; }
			i = mk(K_OP1, SLJIT_MOV); i.o[0] = x; i.o[1] = SLJIT_IMM; i.w[1] = (sw)rrange(-300, 300);
			if (put(g, i)) return -1;
		}
		g->pin |= 1u << x;
		i = mk(K_OP1, SLJIT_MOV); i.o[0] = r; i.o[1] = SLJIT_IMM; i.w[1] = (sw)(addr - (g->s->r[x] << shift));
		if (put(g, i)) return -1;
		g->pin |= 1u << r;
		*o = SLJIT_MEM2(r, x); *w = shift; goto done;
	}
done:
	g->haslast = 1; g->lo = *o; g->lw = *w;
	if (*o & SLJIT_MEM) { s32 b = *o & 0x7f, y = (*o >> 8) & 0x7f; if (b && b != SLJIT_SP) g->pin |= 1u << b; if (y) g->pin |= 1u << y; }
	return 0;
}
#define ISZ(is32) (((is32) || !W64) ? 4 : 8)
/* integer source operand of full width */
static int gsrc(gen *g, int is32, int imm_ok, s32 *o, sw *w)
{
	int k = (int)rn(100); *w = 0;
	if (k < g->pr->pmem) return gmem(g, ISZ(is32), IALIGN(ISZ(is32)), 0, 0, o, w);
	if (imm_ok && k < g->pr->pmem + 28) { *o = SLJIT_IMM; *w = (sw)rval(); if (rp(6) && !g->dead) { s32 r = reg_src(g, is32); if (r) *w = (sw)g->s->r[r]; } return 0; }
	*o = reg_src_force(g, is32);
	return *o ? 0 : -1;
}
static int gdst(gen *g, int size, s32 *o, sw *w)
{
	*w = 0;
	if (rn(100) < (u32)g->pr->pmem) return gmem(g, size, IALIGN(size), 1, 0, o, w);
	*o = reg_dst(g);
	return *o ? 0 : -1;
}
static int gfsrc(gen *g, int is32, s32 *o, sw *w)
{
	*w = 0;
	if (rn(100) < (u32)g->pr->pmem) return gmem(g, is32 ? 4 : 8, FALIGN(is32 ? 4 : 8), 0, 0, o, w);
	*o = freg_src(g, is32);
	return *o ? 0 : -1;
}
static int gfdst(gen *g, int is32, s32 *o, sw *w)
{
	*w = 0;
	if (rn(100) < (u32)g->pr->pmem) return gmem(g, is32 ? 4 : 8, FALIGN(is32 ? 4 : 8), 1, 0, o, w);
	*o = any_freg(g);
	return *o ? 0 : -1;
}

/* ----- flags ----- */
static s32 rand_intflag(void) { static const s32 t[] = { SLJIT_LESS, SLJIT_GREATER, SLJIT_SIG_LESS, SLJIT_SIG_GREATER, SLJIT_OVERFLOW, SLJIT_CARRY, SLJIT_GREATER_EQUAL, SLJIT_LESS_EQUAL, SLJIT_SIG_GREATER_EQUAL, SLJIT_SIG_LESS_EQUAL }; return t[rn(10)]; }
static s32 setbits(s32 opc, int want)
{
	s32 f = 0;
	if (!want) return 0;
	switch (opc) {
	case SLJIT_ADD: switch (rn(6)) { case 0: f = SLJIT_SET_Z; break; case 1: f = SLJIT_SET_OVERFLOW; break; case 2: f = SLJIT_SET_CARRY; break; case 3: f = SLJIT_SET_Z | SLJIT_SET_OVERFLOW; break; case 4: f = SLJIT_SET_Z | SLJIT_SET_CARRY; break; default: f = SLJIT_SET_CARRY; } break;
	case SLJIT_SUB: if (rp(60)) f |= SLJIT_SET_Z; if (rp(75) || !f) f |= SLJIT_SET(rand_intflag() & 0xfe); break;
	case SLJIT_ADDC: case SLJIT_SUBC: f = SLJIT_SET_CARRY; break;
	case SLJIT_MUL: f = SLJIT_SET_OVERFLOW; break;
	case SLJIT_ROTL: case SLJIT_ROTR: f = 0; break;
	default: f = SLJIT_SET_Z;
	}
	return f;
}
/* a condition that is usable now; -1 if none */
static s32 usable_cond(gen *g, int dyn_jump)
{
	int z = g->sz && (g->dead || g->s->zd), v = g->svt >= 0 && (g->dead || (g->s->vt == g->svt && g->s->vv >= 0));
	(void)dyn_jump;
	if (!z && !v) return -1;
	if (z && (!v || rp(40))) return SLJIT_EQUAL + (s32)rn(2);
	return g->svt + (s32)rn(2);
}

static s64 new_label(gen *g) { return g->nlab < MAXL ? g->nlab++ : -1; }
static int gone(gen *g); /* one random instruction */
static int gen_alu_operands(gen *g, s32 op, ins *i);

static void gdead(gen *g, int n) { int k, sp = g->npend; s32 pin = (s32)g->pin; g->dead++; for (k = 0; k < n; k++) { g->pin = (u32)pin; gone(g); } g->dead--; g->pin = (u32)pin; (void)sp; }
static int put_label(gen *g, s64 lab)
{
	ins i = mk(K_LABEL, 0); i.x = lab;
	if (rp(12)) { i.k = K_ALABEL; i.op = (s32)rn(5); }
	return put(g, i);
}
static void flush_pending(gen *g, int all)
{
	int k;
	for (k = 0; k < g->npend; ) {
		if (all || --g->pend[k].left <= 0) {
			/* labels are always placed in live code */
			ins i = mk(K_LABEL, 0); i.x = g->pend[k].lab; if (rp(10)) { i.k = K_ALABEL; i.op = (s32)rn(5); }
			g->p->i[g->p->n++] = i; g->s->pc++; g->s->ra = -1; sflags(&g->sz, &g->svt, &g->sv32, &g->ssub, &i);
			g->pend[k] = g->pend[--g->npend];
		} else k++;
	}
}
static void redeclare(gen *g)
{
	ins i = mk(K_SETFLAGS, 0); vst *s = g->s;
	if (g->dead || s->vt == SLJIT_CARRY || s->vcar || (s->vt >= 0 && s->vv < 0) || !(s->zd || s->vt >= 0)) return;
	if (s->zd) i.op |= SLJIT_SET_Z;
	if (s->vt >= 0 && s->vt != SLJIT_CARRY) i.op |= SLJIT_SET(s->vt);
	if (s->v32) i.op |= SLJIT_CURRENT_FLAGS_32;
	if (s->vsub == 1) i.op |= SLJIT_CURRENT_FLAGS_ADD;
	if (s->vsub == 2) i.op |= SLJIT_CURRENT_FLAGS_SUB;
	if (s->vcmp) i.op |= SLJIT_CURRENT_FLAGS_COMPARE;
	if (s->v2z) i.op |= SLJIT_CURRENT_FLAGS_OP2CMPZ;
	put(g, i);
}
/* a (conditional) forward jump of any kind */
static int put_fwd(gen *g, ins j)
{
	prog *p = g->p; int at = p->n, tk; s64 lab = new_label(g); ins l;
	if (lab < 0) return -1;
	if (p->n > MAXI - 40) return -1;
	j.x = lab; l = mk(K_LABEL, 0); l.x = lab;
	if (!sflag_use_ok(g->sz, g->svt, g->sv32, g->ssub, &j)) return -1;
	if (rp(12)) j.op |= SLJIT_REWRITABLE_JUMP;
	p->i[p->n++] = j;
	if (g->dead) { /* inside dead code: bind to a label right here, or later in the dead code */
		sflags(&g->sz, &g->svt, &g->sv32, &g->ssub, &j);
		p->i[p->n++] = l; sflags(&g->sz, &g->svt, &g->sv32, &g->ssub, &l);
		return 0;
	}
	/* not the next instruction, so the outcome is visible */
	p->i[p->n++] = mk(K_OP0, SLJIT_NOP);
	p->i[p->n++] = l;
	if (step(p, g->s)) { p->n = at; resync(g); g->rollback++; return -1; }
	tk = g->s->pc != at + 1;
	p->n = at + 1;
	sflags(&g->sz, &g->svt, &g->sv32, &g->ssub, &j);
	if (!tk) {
		if (g->npend < 8) { g->pend[g->npend].lab = lab; g->pend[g->npend].left = rrange(1, 9); g->npend++; }
		else { p->i[p->n++] = l; g->s->pc = p->n; sflags(&g->sz, &g->svt, &g->sv32, &g->ssub, &l); }
		return 0;
	}
	/* taken: skipped code follows, then the label */
	gdead(g, (int)rn(4));
	if (g->pr->w[G_PAD] && rp(g->pr->w[G_PAD] * 3)) { ins pd = mk(K_PAD, 0); pd.x = padlen(); p->i[p->n++] = pd; }
	p->i[p->n++] = l; g->s->pc = p->n; g->s->ra = -1;
	sflags(&g->sz, &g->svt, &g->sv32, &g->ssub, &l);
	if (rp(40)) redeclare(g);
	return 0;
}

static int consume(gen *g)
{
	s32 t = usable_cond(g, 0); ins i; int is32;
	if (!g->dead && rp(8)) { redeclare(g); t = usable_cond(g, 0); }
	if (t < 0) return -1;
	switch (rn(10)) {
	case 0: case 1: case 2: case 3: {
		static const s32 ops[] = { SLJIT_MOV, SLJIT_MOV, SLJIT_MOV32, SLJIT_AND, SLJIT_OR, SLJIT_XOR, SLJIT_AND32, SLJIT_OR32, SLJIT_XOR32 };
		i = mk(K_OPFLAGS, ops[rn(9)]); is32 = i.op == SLJIT_MOV32 || (i.op & SLJIT_32); i.x = t;
		if ((i.op & 0xff) == SLJIT_MOV || i.op == SLJIT_MOV32) { if (gdst(g, ISZ(is32), &i.o[0], &i.w[0])) return -1; }
		else {
			if (rp(40)) i.op |= SLJIT_SET_Z;
			if (rn(100) < (u32)g->pr->pmem) { if (gmem(g, ISZ(is32), IALIGN(ISZ(is32)), 0, 0, &i.o[0], &i.w[0])) return -1; }
			else { i.o[0] = reg_src_force(g, is32); if (!i.o[0] || PINNED(g, i.o[0])) return -1; }
		}
		return put(g, i);
	}
	case 4: case 5: case 6:
		is32 = W64 ? rp(50) : rp(20);
		i = mk(K_SELECT, t | (is32 ? SLJIT_32 : 0));
		if (gsrc(g, is32, 1, &i.o[1], &i.w[1])) return -1;
		i.o[2] = reg_src_force(g, is32); i.o[0] = rp(30) ? i.o[2] : reg_dst(g);
		if (!i.o[2] || !i.o[0] || PINNED(g, i.o[0])) return -1;
		return put(g, i);
	case 7:
		is32 = rp(50);
		i = mk(K_FSELECT, t | (is32 ? SLJIT_32 : 0));
		if (gfsrc(g, is32, &i.o[1], &i.w[1])) return -1;
		i.o[2] = freg_src(g, is32); i.o[0] = rp(40) ? i.o[2] : rp(30) && ISREG(i.o[1]) ? i.o[1] : any_freg(g);
		if (!i.o[2] || !i.o[0]) return -1;
		return put(g, i);
	default:
		return put_fwd(g, mk(K_JUMP, t));
	}
}

static int movimm(gen *g, s32 r, int is32, u64 v) { ins i = mk(K_OP1, is32 && W64 ? SLJIT_MOV32 : SLJIT_MOV); i.o[0] = r; i.o[1] = SLJIT_IMM; i.w[1] = (sw)v; return put(g, i); }

/* operands 1 and 2 (and their special cases) of a two operand instruction */
static int gen_alu_operands(gen *g, s32 op, ins *i)
{
	int is32 = !!(op & SLJIT_32), bits = is32 || !W64 ? 32 : 64, opc = op & 0xff;
	if (gsrc(g, is32, 1, &i->o[1], &i->w[1])) return -1;
	if (ISREG(i->o[1])) g->pin |= 1u << i->o[1];
	if (rp(10)) { i->o[2] = i->o[1]; i->w[2] = i->w[1]; }
	else if (gsrc(g, is32, 1, &i->o[2], &i->w[2])) return -1;
	if (ISREG(i->o[2])) g->pin |= 1u << i->o[2];
	if (opc >= SLJIT_SHL && opc <= SLJIT_ROTR) {
		if (i->o[2] == SLJIT_IMM && rp(75)) i->w[2] = (sw)rn((u32)bits);
		if ((opc == SLJIT_SHL || opc == SLJIT_LSHR || opc == SLJIT_ASHR) && i->o[2] != SLJIT_IMM) {
			u32 amt = rp(25) ? (rp(50) ? 0 : (u32)bits - 1) : rn((u32)bits);
			if (i->o[2] & SLJIT_MEM) { ins m = mk(K_OP1, is32 && W64 ? SLJIT_MOV32 : SLJIT_MOV); m.o[0] = i->o[2]; m.w[0] = i->w[2]; m.o[1] = SLJIT_IMM; m.w[1] = (sw)amt; if (put(g, m)) return -1; }
			else if (g->dead || g->s->r[i->o[2]] >= (uw)bits) { s32 r = reg_dst(g); if (!r || r == i->o[1]) return -1; if (movimm(g, r, is32, amt)) return -1; i->o[2] = r; i->w[2] = 0; }
		}
	}
	/* related values make the interesting flag cases frequent */
	if (!g->dead && (opc == SLJIT_SUB || opc == SLJIT_ADD) && i->o[2] == SLJIT_IMM && ISREG(i->o[1]) && rp(25)) { sw v = (sw)g->s->r[i->o[1]]; i->w[2] = (opc == SLJIT_ADD ? (sw)(0 - (uw)v) : v) + (sw)rrange(-1, 1); if (is32) i->w[2] = (s32)i->w[2]; }
	return 0;
}
static int gop2dst(gen *g, s32 op, ins *i)
{
	int is32 = !!(op & SLJIT_32); u32 k = rn(10);
	if (k < 3 && i->o[1] != SLJIT_IMM) { i->o[0] = i->o[1]; i->w[0] = i->w[1]; return 0; }
	if (k < 5 && i->o[2] != SLJIT_IMM) { i->o[0] = i->o[2]; i->w[0] = i->w[2]; return 0; }
	if (rn(100) < (u32)g->pr->pmem) return gmem(g, ISZ(is32), IALIGN(ISZ(is32)), 1, 0, &i->o[0], &i->w[0]);
	/* the destination may be any register, also the base of a source */
	i->o[0] = any_reg(g); i->w[0] = 0;
	return 0;
}
static s32 gpinned_loop; /* registers that must survive (loop counters, return addresses) */
static int dst_reserved(gen *g, s32 o) { (void)g; return ISREG(o) && ((gpinned_loop >> o) & 1); }

static int g_one_kind(gen *g, int k)
{
	ins i; int is32, size; s32 op, r; prog *p = g->p;
	switch (k) {
	case G_MOVIMM: r = reg_dst(g); if (!r) return -1; return movimm(g, r, W64 ? rp(30) : 0, rp(30) ? (u64)(uw)(arena[rn(N_AR)] + AR_WIN + (s32)rn(600)) : rval());
	case G_OP1: {
		static const s32 ops[] = { SLJIT_MOV, SLJIT_MOV, SLJIT_MOV_U8, SLJIT_MOV_S8, SLJIT_MOV_U16, SLJIT_MOV_S16, SLJIT_MOV_U32, SLJIT_MOV_S32, SLJIT_MOV32, SLJIT_MOV32, SLJIT_MOV_P, SLJIT_MOV32_U8, SLJIT_MOV32_S8, SLJIT_MOV32_U16, SLJIT_MOV32_S16,
			SLJIT_CLZ, SLJIT_CLZ32, SLJIT_CTZ, SLJIT_CTZ32, SLJIT_REV, SLJIT_REV32, SLJIT_REV_U16, SLJIT_REV32_U16, SLJIT_REV_S16, SLJIT_REV32_S16, SLJIT_REV_U32, SLJIT_REV_S32 };
		op = ops[rn(g->pr->pmem > 60 ? 15 : 27)];
		i = mk(K_OP1, op); size = op1_size(op); is32 = op1_is32(op);
		if (rn(100) < (u32)g->pr->pmem) { if (gmem(g, size, IALIGN(size), 0, 0, &i.o[1], &i.w[1])) return -1; }
		else if ((op & 0xff) <= SLJIT_MOV_P && rp(25)) { i.o[1] = SLJIT_IMM; i.w[1] = (sw)rval(); }
		else { int s32_ = is32; if (op == SLJIT_MOV32 || op == SLJIT_MOV_U32 || op == SLJIT_MOV_S32) s32_ = rp(50); i.o[1] = reg_src_force(g, s32_ && W64); if (!i.o[1]) return -1; }
		if ((i.o[1] & SLJIT_MEM) && rp(12)) { i.o[0] = i.o[1]; i.w[0] = i.w[1]; }
		else if (rn(100) < (u32)g->pr->pmem) { if (gmem(g, size, IALIGN(size), 1, 0, &i.o[0], &i.w[0])) return -1; }
		else { i.o[0] = any_reg(g); if (rp(15) && ISREG(i.o[1])) i.o[0] = i.o[1]; }
		if (dst_reserved(g, i.o[0])) return -1;
		return put(g, i);
	}
	case G_OP2: case G_OP2U: case G_OP2CMPZ: {
		static const s32 ops[] = { SLJIT_ADD, SLJIT_ADD, SLJIT_SUB, SLJIT_SUB, SLJIT_SUB, SLJIT_ADDC, SLJIT_SUBC, SLJIT_MUL, SLJIT_MUL, SLJIT_AND, SLJIT_AND, SLJIT_OR, SLJIT_OR, SLJIT_XOR, SLJIT_XOR, SLJIT_SHL, SLJIT_MSHL, SLJIT_LSHR, SLJIT_MLSHR, SLJIT_ASHR, SLJIT_MASHR, SLJIT_ROTL, SLJIT_ROTR };
		s32 f;
		op = ops[rn(23)];
		is32 = W64 ? rp(50) : rp(10);
		if (op == SLJIT_ADDC || op == SLJIT_SUBC) {
			if (k != G_OP2 && op != SLJIT_ADDC && op != SLJIT_SUBC) return -1;
			if (!(g->svt == SLJIT_CARRY && (g->dead || (g->s->vt == SLJIT_CARRY && g->s->vv >= 0)))) { /* make a carry first */
				i = mk(K_OP2, (op == SLJIT_ADDC ? SLJIT_ADD : SLJIT_SUB) | SLJIT_SET_CARRY | (is32 ? SLJIT_32 : 0) | (rp(30) ? SLJIT_SET_Z : 0));
				if (gen_alu_operands(g, i.op, &i)) return -1;
				if (rp(20)) { i.k = K_OP2U; } else { i.o[0] = any_reg(g); if (dst_reserved(g, i.o[0])) return -1; }
				if (put(g, i)) return -1;
			} else { op = g->ssub == 1 ? SLJIT_ADDC : g->ssub == 2 ? SLJIT_SUBC : op; is32 = g->sv32; }
			if (k == G_OP2CMPZ) k = G_OP2;
		}
		f = setbits(op, rp(g->pr->pflags) || k == G_OP2U);
		if (k == G_OP2U && !f) return -1;
		if (k == G_OP2CMPZ) { if (op == SLJIT_MUL || op == SLJIT_ROTL || op == SLJIT_ROTR) return -1; f &= ~SLJIT_SET_Z; if (rp(50)) f |= SLJIT_JUMP_IF_ZERO; }
		i = mk(k == G_OP2 ? K_OP2 : k == G_OP2U ? K_OP2U : K_OP2CMPZ, op | (is32 ? SLJIT_32 : 0) | f);
		{ /* operand setup must not destroy a carry */
			if (gen_alu_operands(g, i.op, &i)) return -1;
		}
		if (k != G_OP2U) { if (gop2dst(g, i.op, &i)) return -1; if (dst_reserved(g, i.o[0])) return -1; }
		if (k == G_OP2CMPZ) { if (put_fwd(g, i)) return -1; }
		else if (put(g, i)) return -1;
		if (f && rp(85)) { /* consumers, sometimes with flag preserving instructions in between */
			int n = (int)rn(3);
			if (rp(35)) { g->pin = (u32)gpinned_loop; while (n-- > 0) { int q = (int)rn(8); u32 savepin = g->pin; if (q < 3) g_one_kind(g, G_MOVIMM); else if (q == 3) { ins nn = mk(K_OP0, SLJIT_NOP); put(g, nn); } else { ins m = mk(K_OP1, rp(50) ? SLJIT_MOV : W64 ? SLJIT_MOV32 : SLJIT_MOV); int m32 = m.op == SLJIT_MOV32; if (!gsrc(g, m32, 1, &m.o[1], &m.w[1]) && !gdst(g, ISZ(m32), &m.o[0], &m.w[0]) && !dst_reserved(g, m.o[0])) put(g, m); } g->pin = savepin; } }
			g->pin = (u32)gpinned_loop;
			if ((f & SLJIT_SET(0x3f)) == SLJIT_SET_CARRY && rp(45)) {
				g->pin = (u32)gpinned_loop;
				if (g->svt == SLJIT_CARRY && g->ssub) {
					ins c = mk(K_OP2, (g->ssub == 1 ? SLJIT_ADDC : SLJIT_SUBC) | (g->sv32 ? SLJIT_32 : 0) | (rp(60) ? SLJIT_SET_CARRY : 0));
					if (!gen_alu_operands(g, c.op, &c) && !gop2dst(g, c.op, &c) && !dst_reserved(g, c.o[0])) put(g, c);
				}
			}
			for (n = rrange(1, 3); n > 0; n--) { g->pin = (u32)gpinned_loop; if (usable_cond(g, 0) < 0) break; consume(g); }
		}
		return 0;
	}
	case G_OP2R:
		is32 = W64 ? rp(50) : rp(10);
		i = mk(K_OP2R, is32 ? SLJIT_MULADD32 : SLJIT_MULADD);
		i.o[0] = reg_src_force(g, is32); if (!i.o[0] || dst_reserved(g, i.o[0])) return -1;
		g->pin |= 1u << i.o[0];
		if (gsrc(g, is32, 1, &i.o[1], &i.w[1])) return -1;
		if (ISREG(i.o[1])) g->pin |= 1u << i.o[1];
		if (gsrc(g, is32, 1, &i.o[2], &i.w[2])) return -1;
		return put(g, i);
	case G_SHI: {
		static const s32 ops[] = { SLJIT_SHL, SLJIT_MSHL, SLJIT_LSHR, SLJIT_MLSHR }; int bits;
		is32 = W64 ? rp(50) : rp(10); bits = is32 || !W64 ? 32 : 64;
		i = mk(K_SHI, ops[rn(4)] | (is32 ? SLJIT_32 : 0));
		i.o[1] = reg_src_force(g, is32); if (!i.o[1]) return -1; g->pin |= 1u << i.o[1];
		i.o[2] = rp(20) ? i.o[1] : reg_src_force(g, is32); if (!i.o[2]) return -1; g->pin |= 1u << i.o[2];
		switch (rn(4)) {
		case 0: case 1: i.o[3] = SLJIT_IMM; i.w[3] = (sw)(rp(80) ? rn((u32)bits) : rval()); break;
		case 2: i.o[3] = reg_src_force(g, is32); if (!i.o[3]) return -1; break;
		default: if (gmem(g, ISZ(is32), IALIGN(ISZ(is32)), 0, 0, &i.o[3], &i.w[3])) return -1; break;
		}
		if (((i.op & 0xff) == SLJIT_SHL || (i.op & 0xff) == SLJIT_LSHR) && i.o[3] != SLJIT_IMM) {
			u32 amt = rn((u32)bits);
			if (i.o[3] & SLJIT_MEM) { ins m = mk(K_OP1, is32 && W64 ? SLJIT_MOV32 : SLJIT_MOV); m.o[0] = i.o[3]; m.w[0] = i.w[3]; m.o[1] = SLJIT_IMM; m.w[1] = (sw)amt; if (put(g, m)) return -1; }
			else { r = reg_dst(g); if (!r) return -1; if (movimm(g, r, is32, amt)) return -1; i.o[3] = r; g->pin |= 1u << r; }
		}
		{ int n = 0; do { i.o[0] = rp(30) ? i.o[1] : rp(15) && ISREG(i.o[3]) ? i.o[3] : any_reg(g); } while ((i.o[0] == i.o[2] || dst_reserved(g, i.o[0])) && ++n < 20); if (n >= 20) return -1; }
		if (!g->dead && rp(25)) { u64 amt; s32 t; (void)t; if (i.o[3] == SLJIT_IMM) amt = (u64)i.w[3] & (u64)(bits - 1); else if (ISREG(i.o[3])) amt = g->s->r[i.o[3]] & (uw)(bits - 1); else amt = 0; if (amt) i.op |= SLJIT_SHIFT_INTO_NON_ZERO; }
		return put(g, i);
	}
	case G_DIV: {
		static const s32 ops[] = { SLJIT_LMUL_UW, SLJIT_LMUL_SW, SLJIT_DIVMOD_UW, SLJIT_DIVMOD_SW, SLJIT_DIV_UW, SLJIT_DIV_SW, SLJIT_DIVMOD_U32, SLJIT_DIVMOD_S32, SLJIT_DIV_U32, SLJIT_DIV_S32 };
		u64 a, b; int bits;
		if (p->sc < 2 || (gpinned_loop & 6)) return -1;
		op = ops[rn(10)]; is32 = (op & SLJIT_32) && W64; bits = is32 || !W64 ? 32 : 64;
		if (!g->dead) {
			if (!reg_src_ok(g, 1, is32) || rp(30)) { if (movimm(g, 1, is32, rval())) return -1; }
			if (!reg_src_ok(g, 2, is32) || rp(30)) { if (movimm(g, 2, is32, rval())) return -1; }
			a = g->s->r[1] & msk(bits); b = g->s->r[2] & msk(bits);
			if ((op & 0xff) > SLJIT_LMUL_SW && (b == 0 || (b == msk(bits) && a == 1ull << (bits - 1)))) if (movimm(g, 2, is32, rp(50) ? 3 : (u64)rrange(1, 1000))) return -1;
		}
		i = mk(K_OP0, op);
		return put(g, i);
	}
	case G_MISC:
		switch (rn(4)) {
		case 0: i = mk(K_OP0, SLJIT_ENDBR); return put(g, i);
		case 1: if (!sljit_has_cpu_feature(SLJIT_HAS_MEMORY_BARRIER)) return -1; i = mk(K_OP0, SLJIT_MEMORY_BARRIER); return put(g, i);
		default: i = mk(K_PREF, SLJIT_PREFETCH_L1 + (s32)rn(4)); if (gmem(g, 1, 1, 0, 0, &i.o[1], &i.w[1])) return -1; return put(g, i);
		}
	case G_CMP:
		is32 = W64 ? rp(50) : rp(10);
		i = mk(K_CMP, (s32)rn(10) | (is32 ? SLJIT_32 : 0));
		{ s32 o[3]; sw w[3]; ins t = mk(K_OP2, SLJIT_SUB | (is32 ? SLJIT_32 : 0)); (void)o; (void)w; if (gen_alu_operands(g, t.op, &t)) return -1; i.o[1] = t.o[1]; i.w[1] = t.w[1]; i.o[2] = t.o[2]; i.w[2] = t.w[2]; if (rp(15)) { i.o[2] = SLJIT_IMM; i.w[2] = 0; } if (rp(20)) { s32 x = i.o[1]; sw y = i.w[1]; i.o[1] = i.o[2]; i.w[1] = i.w[2]; i.o[2] = x; i.w[2] = y; } }
		return put_fwd(g, i);
	case G_JUMP: return put_fwd(g, mk(K_JUMP, SLJIT_JUMP));
	case G_CONSUME: return consume(g);
	case G_MEM: {
		static const s32 ops[] = { SLJIT_MOV, SLJIT_MOV, SLJIT_MOV_U8, SLJIT_MOV_S8, SLJIT_MOV_U16, SLJIT_MOV_S16, SLJIT_MOV_U32, SLJIT_MOV_S32, SLJIT_MOV32, SLJIT_MOV_P, SLJIT_MOV32_U8, SLJIT_MOV32_S8, SLJIT_MOV32_U16, SLJIT_MOV32_S16 };
		int store = rp(45), pair = rp(45), al, n; s32 fl = 0, r2 = 0;
		op = pair ? SLJIT_MOV : ops[rn(14)];
		size = op1_size(op); is32 = op1_is32(op);
		switch (rn(4)) { case 0: fl = SLJIT_MEM_UNALIGNED; break; case 1: if (size >= 4) fl = SLJIT_MEM_ALIGNED_16; break; case 2: if (op == SLJIT_MOV || op == SLJIT_MOV_P) fl = SLJIT_MEM_ALIGNED_32; break; default: break; }
		if (!pair && !fl) fl = SLJIT_MEM_UNALIGNED;
		al = fl & SLJIT_MEM_UNALIGNED ? 1 : fl & SLJIT_MEM_ALIGNED_16 ? 2 : fl & SLJIT_MEM_ALIGNED_32 ? 4 : size;
		if (store) { int z = is32; if (op == SLJIT_MOV32) z = rp(50); r = reg_src_force(g, z && W64); if (!r) return -1; g->pin |= 1u << r; if (pair) { r2 = reg_src_force(g, 0); if (!r2 || r2 == r) return -1; g->pin |= 1u << r2; } }
		else { r = any_reg(g); if (dst_reserved(g, r)) return -1; if (pair) { for (n = 0; n < 10 && (!r2 || r2 == r || dst_reserved(g, r2)); n++) r2 = any_reg(g); if (!r2 || r2 == r || dst_reserved(g, r2)) return -1; } }
		i = mk(K_MEM, op | fl | (store ? SLJIT_MEM_STORE : 0));
		i.o[0] = pair ? SLJIT_REG_PAIR(r, r2) : r;
		if (gmem(g, size * (pair ? 2 : 1), al > size ? size : al, store, 0, &i.o[1], &i.w[1])) return -1;
		if (!store && rp(30)) { s32 b = i.o[1] & 0x7f; if (b && b != SLJIT_SP && !dst_reserved(g, b) && b != r2) i.o[0] = pair ? SLJIT_REG_PAIR(b, r2) : b; }
		else if (!store && pair && rp(30)) { s32 b = rp(50) ? i.o[1] & 0x7f : (i.o[1] >> 8) & 0x7f; if (b && b != SLJIT_SP && !dst_reserved(g, b) && b != r) i.o[0] = SLJIT_REG_PAIR(r, b); }
		return put(g, i);
	}
	case G_MEMUPD: case G_FMEMUPD: {
		static const s32 ops[] = { SLJIT_MOV, SLJIT_MOV, SLJIT_MOV_U8, SLJIT_MOV_S8, SLJIT_MOV_U16, SLJIT_MOV_S16, SLJIT_MOV_U32, SLJIT_MOV_S32, SLJIT_MOV32, SLJIT_MOV_P, SLJIT_MOV32_U8, SLJIT_MOV32_S8, SLJIT_MOV32_U16, SLJIT_MOV32_S16 };
		int store = rp(45), post = rp(50), isf = k == G_FMEMUPD, n; uw addr; s32 b, x = 0; sw d;
		if (g->dead || !qc) return -1;
		if (isf) { is32 = rp(50); op = is32 ? SLJIT_MOV_F32 : SLJIT_MOV_F64; size = is32 ? 4 : 8; } else { op = ops[rn(14)]; size = op1_size(op); is32 = op1_is32(op); }
		if (isf) { r = store ? freg_src(g, is32) : any_freg(g); if (!r) return -1; if (store && g->s->fnan[r]) return -1; }
		else if (store) { r = reg_src_force(g, is32 && W64); if (!r) return -1; g->pin |= 1u << r; }
		else { r = any_reg(g); if (dst_reserved(g, r)) return -1; }
		for (n = 0, b = 0; n < 20; n++) { b = reg_dst(g); if (b && !IS_VIRT(b) && (isf || b != r)) break; b = 0; }
		if (!b) return -1;
		addr = ((uw)arena[rn(N_AR)] + AR_WIN + rn(AR_SIZE - 2 * AR_WIN - 16)) & ~(uw)(size - 1);
		i = mk(isf ? K_FMEMUPD : K_MEMUPD, op | (store ? SLJIT_MEM_STORE : 0) | (post ? SLJIT_MEM_POST : 0));
		i.o[0] = r;
		if (rp(65)) { d = (sw)rrange(-260, 260); if (rp(30)) d &= ~7; if (rp(10)) d = rrange(-5000, 5000); i.o[1] = SLJIT_MEM1(b); i.w[1] = d; }
		else { for (n = 0; n < 20; n++) { x = any_reg(g); if (x != b && !IS_VIRT(x) && g->s->rt[x] == T_W && (isf || x != r || store)) break; x = 0; } if (!x) return -1; i.w[1] = (sw)rn(4); i.o[1] = SLJIT_MEM2(b, x); d = (sw)(g->s->r[x] << i.w[1]); g->pin |= 1u << x; }
		if ((isf ? sljit_emit_fmem_update(qc, i.op | SLJIT_MEM_SUPP, i.o[0], i.o[1], i.w[1]) : sljit_emit_mem_update(qc, i.op | SLJIT_MEM_SUPP, i.o[0], i.o[1], i.w[1])) != SLJIT_SUCCESS) return -1;
		g->pin |= 1u << b;
		if (movimm(g, b, 0, post ? addr : addr - (uw)d)) return -1;
		return put(g, i);
	}
	case G_FMEM: {
		int store = rp(45), al; s32 fl;
		is32 = rp(50); size = is32 ? 4 : 8; op = is32 ? SLJIT_MOV_F32 : SLJIT_MOV_F64;
		switch (rn(3)) { case 0: fl = SLJIT_MEM_ALIGNED_16; al = 2; break; case 1: if (!is32) { fl = SLJIT_MEM_ALIGNED_32; al = 4; break; } /* fallthrough */ default: fl = SLJIT_MEM_UNALIGNED; al = 1; }
		r = store ? freg_src(g, is32) : any_freg(g); if (!r) return -1; if (!g->dead && store && g->s->fnan[r]) return -1;
		i = mk(K_FMEM, op | fl | (store ? SLJIT_MEM_STORE : 0)); i.o[0] = r;
		if (gmem(g, size, al, store, 0, &i.o[1], &i.w[1])) return -1;
		return put(g, i);
	}
	case G_FOP1: {
		static const s32 ops[] = { SLJIT_MOV_F64, SLJIT_MOV_F64, SLJIT_NEG_F64, SLJIT_ABS_F64, SLJIT_CONV_F64_FROM_F32 };
		op = ops[rn(5)]; is32 = rp(50);
		i = mk(K_FOP1, op | (is32 ? SLJIT_32 : 0));
		if (gfsrc(g, op == SLJIT_CONV_F64_FROM_F32 ? !is32 : is32, &i.o[1], &i.w[1])) return -1;
		if (rp(25) && ISREG(i.o[1])) i.o[0] = i.o[1]; else if (gfdst(g, is32, &i.o[0], &i.w[0])) return -1;
		return put(g, i);
	}
	case G_FCONV:
		is32 = rp(50);
		if (rp(50)) {
			int s32r = rp(50);
			i = mk(K_FOP1, (s32r ? SLJIT_CONV_S32_FROM_F64 : SLJIT_CONV_SW_FROM_F64) | (is32 ? SLJIT_32 : 0));
			if (rp(45) && any_freg(g)) { ins f = mk(is32 ? K_FSET32 : K_FSET64, 0); f.o[0] = any_freg(g); f.x = (s64)fbits(is32); if (put(g, f)) return -1; i.o[1] = f.o[0]; i.w[1] = 0; }
			else if (gfsrc(g, is32, &i.o[1], &i.w[1])) return -1;
			if (gdst(g, s32r ? 4 : WBYTES, &i.o[0], &i.w[0])) return -1;
			if (dst_reserved(g, i.o[0])) return -1;
			return put(g, i);
		} else {
			static const s32 ops[] = { SLJIT_CONV_F64_FROM_SW, SLJIT_CONV_F64_FROM_S32, SLJIT_CONV_F64_FROM_UW, SLJIT_CONV_F64_FROM_U32 }; int w32;
			op = ops[rn(4)]; w32 = (op == SLJIT_CONV_F64_FROM_S32 || op == SLJIT_CONV_F64_FROM_U32) && W64;
			i = mk(K_FOP1, op | (is32 ? SLJIT_32 : 0));
			if (rp(35)) { r = reg_dst(g); if (!r || movimm(g, r, w32, rp(50) ? rhalf() : rval())) return -1; i.o[1] = r; i.w[1] = 0; }
			else if (rp(15)) { i.o[1] = SLJIT_IMM; { u64 v = rhalf(); i.w[1] = w32 ? (sw)(s32)v : (sw)v; } }
			else if (gsrc(g, w32, 1, &i.o[1], &i.w[1])) return -1;
			if (gfdst(g, is32, &i.o[0], &i.w[0])) return -1;
			return put(g, i);
		}
	case G_FCMPSET: case G_FCMP: {
		s32 t; int n;
		is32 = rp(50);
		t = SLJIT_F_EQUAL + (s32)rn(20);
		i = mk(k == G_FCMP ? K_FCMP : K_FOP1, 0);
		{ s32 oa, ob; sw wa, wb;
			if (gfsrc(g, is32, &oa, &wa)) return -1;
			if (rp(12)) { ob = oa; wb = wa; } else if (gfsrc(g, is32, &ob, &wb)) return -1;
			if (k == G_FCMP) { i.op = t | (is32 ? SLJIT_32 : 0); i.o[1] = oa; i.w[1] = wa; i.o[2] = ob; i.w[2] = wb; return put_fwd(g, i); }
			i.op = SLJIT_CMP_F64 | (is32 ? SLJIT_32 : 0) | SLJIT_SET(t & 0xfe); i.o[0] = oa; i.w[0] = wa; i.o[1] = ob; i.w[1] = wb; }
		if (put(g, i)) return -1;
		for (n = rrange(1, 3); n > 0; n--) { g->pin = (u32)gpinned_loop; if (usable_cond(g, 0) < 0) break; consume(g); }
		return 0;
	}
	case G_FOP2: {
		is32 = rp(50);
		i = mk(K_FOP2, (SLJIT_ADD_F64 + (s32)rn(4)) | (is32 ? SLJIT_32 : 0));
		if (gfsrc(g, is32, &i.o[1], &i.w[1]) || gfsrc(g, is32, &i.o[2], &i.w[2])) return -1;
		if (rp(12)) { i.o[2] = i.o[1]; i.w[2] = i.w[1]; }
		if (rp(25) && ISREG(i.o[1])) i.o[0] = i.o[1]; else if (rp(30) && ISREG(i.o[2])) i.o[0] = i.o[2]; else if (gfdst(g, is32, &i.o[0], &i.w[0])) return -1;
		return put(g, i);
	}
	case G_FOP2R:
		is32 = rp(50);
		i = mk(K_FOP2R, SLJIT_COPYSIGN_F64 | (is32 ? SLJIT_32 : 0));
		if (gfsrc(g, is32, &i.o[1], &i.w[1]) || gfsrc(g, is32, &i.o[2], &i.w[2])) return -1;
		i.o[0] = rp(30) && ISREG(i.o[1]) ? i.o[1] : rp(30) && ISREG(i.o[2]) ? i.o[2] : any_freg(g); if (!i.o[0]) return -1;
		return put(g, i);
	case G_FSET: is32 = rp(50); i = mk(is32 ? K_FSET32 : K_FSET64, 0); i.o[0] = any_freg(g); if (!i.o[0]) return -1; i.x = (s64)fbits(is32); return put(g, i);
	case G_FCOPY:
		is32 = rp(50);
		if (rp(50)) {
			i = mk(K_FCOPY, SLJIT_COPY_TO_F64 | (is32 ? SLJIT_32 : 0));
			i.o[1] = reg_src_force(g, is32 && W64); if (!i.o[1]) return -1;
			i.o[0] = any_freg(g);
			if (!W64 && !is32) { if (rp(65)) { s32 r2 = reg_src_force(g, 0); if (!r2) return -1; i.o[1] = SLJIT_REG_PAIR(i.o[1], r2); } else i.o[0] = freg_src(g, 0); }
		} else {
			i = mk(K_FCOPY, SLJIT_COPY_FROM_F64 | (is32 ? SLJIT_32 : 0));
			i.o[0] = freg_src(g, is32);
			i.o[1] = any_reg(g); if (dst_reserved(g, i.o[1])) return -1;
			if (!W64 && !is32 && rp(65)) { s32 r2 = any_reg(g); if (r2 == i.o[1] || dst_reserved(g, r2)) return -1; i.o[1] = SLJIT_REG_PAIR(i.o[1], r2); }
			if (!g->dead && i.o[0] && g->s->fnan[i.o[0]]) return -1;
		}
		if (!i.o[0]) return -1;
		return put(g, i);
	case G_LOCALBASE:
		if (p->locals <= 0) return -1;
		i = mk(K_LOCALBASE, 0);
		i.x = rp(60) ? (s64)rn((u32)p->locals) : (s64)disp();
		if (rp(12) && p->locals >= 2 * WBYTES) { i.o[0] = SLJIT_MEM1(SLJIT_SP); i.w[0] = (sw)(rn((u32)(p->locals / WBYTES)) * WBYTES); }
		else { i.o[0] = reg_dst(g); if (!i.o[0]) return -1; }
		if (put(g, i)) return -1;
		if (rp(25)) { /* opaque values can be moved around */
			ins m = mk(K_OP1, SLJIT_MOV); m.o[1] = i.o[0]; m.w[1] = i.w[0]; m.o[0] = reg_dst(g); if (m.o[0]) put(g, m);
		}
		return 0;
	case G_CONST: {
		static const s32 ops[] = { SLJIT_MOV, SLJIT_MOV, SLJIT_MOV32, SLJIT_MOV_S32, SLJIT_MOV_U8, SLJIT_MOV32_U8 };
		i = mk(K_CONST, ops[rn(6)]);
		if (gdst(g, (i.op & 0xff) == SLJIT_MOV_S32 ? WBYTES : op1_size(i.op), &i.o[0], &i.w[0])) return -1;
		if (dst_reserved(g, i.o[0])) return -1;
		i.x = (s64)(sw)rval(); if ((i.op & 0xff) == SLJIT_MOV_U8) i.x = rrange(-256, 255); else if (i.op != SLJIT_MOV) i.x = (s32)i.x;
		return put(g, i);
	}
	case G_PAD: i = mk(K_PAD, 0); i.x = rp(90) ? rn(40) : rn(2000); return put(g, i);
	case G_ICALL: {
		int n = (int)rn(5), q; s32 how = (s32)rn(4);
		if (p->sc < n || p->sc < 1 || g->dead) return -1;
		for (q = 1; q <= p->sc; q++) if ((gpinned_loop >> q) & 1) return -1;
		for (q = 1; q <= n; q++) if (g->s->rt[q] != T_W) if (movimm(g, q, 0, rval())) return -1;
		i = mk(K_ICALL, n); i.o[1] = how == 0 ? SLJIT_IMM : how == 1 ? SLJIT_MEM0() : how == 2 ? 2 : 1;
		return put(g, i);
	}
	case G_IJUMP: {
		s64 lab; int at;
		if (g->dead || p->n > MAXI - 40) return -1;
		lab = new_label(g); if (lab < 0) return -1;
		i = mk(K_OPADDR, SLJIT_MOV_ADDR); i.x = lab;
		if (rp(70) || p->locals < WBYTES) { i.o[0] = reg_dst(g); if (!i.o[0]) return -1; } else { i.o[0] = SLJIT_MEM1(SLJIT_SP); i.w[0] = (sw)(rn((u32)(p->locals / WBYTES)) * WBYTES); }
		at = p->n;
		p->i[p->n++] = i; p->i[p->n] = mk(K_IJUMP, 0); p->i[p->n].o[1] = i.o[0]; p->i[p->n].w[1] = i.w[0]; p->n++;
		sflags(&g->sz, &g->svt, &g->sv32, &g->ssub, &p->i[at]); sflags(&g->sz, &g->svt, &g->sv32, &g->ssub, &p->i[at + 1]);
		gdead(g, (int)rn(4));
		if (g->pr->w[G_PAD] && rp(15)) { ins pd = mk(K_PAD, 0); pd.x = padlen(); p->i[p->n++] = pd; }
		{ ins l = mk(rp(20) ? K_ALABEL : K_LABEL, 0); l.x = lab; if (l.k == K_ALABEL) l.op = (s32)rn(5); p->i[p->n++] = l; sflags(&g->sz, &g->svt, &g->sv32, &g->ssub, &l); }
		if (run_interp(p, g->s)) { p->n = at; resync(g); g->rollback++; return -1; }
		return 0;
	}
	case G_LOOP: {
		s64 lab; int at, n, ok = 1, sl = gpinned_loop, cnt; s32 c; int form = (int)rn(4), npend0;
		if (g->dead || g->depth || p->n > MAXI - 120) return -1;
		c = 0; for (n = 0; n < 20 && !c; n++) { c = reg_dst(g); if (c && dst_reserved(g, c)) c = 0; }
		if (!c) return -1;
		lab = new_label(g); if (lab < 0) return -1;
		cnt = rrange(1, 4);
		if (movimm(g, c, 0, (u64)cnt)) return -1;
		g->depth++;
		flush_pending(g, 1);
		{ ins l = mk(K_LABEL, 0); l.x = lab; if (rp(15)) { l.k = K_ALABEL; l.op = (s32)rn(5); } if (put(g, l)) { g->depth--; return -1; } }
		gpinned_loop |= 1 << c;
		npend0 = g->npend; (void)npend0;
		for (n = rrange(1, 7); n > 0; n--) { g->pin = (u32)gpinned_loop; gone(g); if (g->pr->w[G_PAD] && rp(8)) { ins pd = mk(K_PAD, 0); pd.x = padlen(); put(g, pd); } }
		flush_pending(g, 1);
		gpinned_loop = sl;
		at = p->n;
		if (g->s->rt[c] != T_W) ok = 0;
		if (ok) switch (form) {
		case 0: i = mk(K_OP2, SLJIT_SUB | SLJIT_SET_Z); i.o[0] = c; i.o[1] = c; i.o[2] = SLJIT_IMM; i.w[2] = 1; p->i[p->n++] = i; i = mk(K_JUMP, SLJIT_NOT_ZERO); i.x = lab; p->i[p->n++] = i; break;
		case 1: i = mk(K_OP2CMPZ, SLJIT_SUB | SLJIT_JUMP_IF_NON_ZERO); i.o[0] = c; i.o[1] = c; i.o[2] = SLJIT_IMM; i.w[2] = 1; i.x = lab; p->i[p->n++] = i; break;
		case 2: i = mk(K_OP2, SLJIT_ADD); i.o[0] = c; i.o[1] = c; i.o[2] = SLJIT_IMM; i.w[2] = -1; p->i[p->n++] = i; i = mk(K_CMP, SLJIT_SIG_GREATER); i.o[1] = c; i.o[2] = SLJIT_IMM; i.w[2] = 0; i.x = lab; p->i[p->n++] = i; break;
		default: i = mk(K_OP2, SLJIT_SUB); i.o[0] = c; i.o[1] = c; i.o[2] = SLJIT_IMM; i.w[2] = 1; p->i[p->n++] = i; i = mk(K_CMP, SLJIT_NOT_EQUAL); i.o[1] = SLJIT_IMM; i.w[1] = 0; i.o[2] = c; i.x = lab; p->i[p->n++] = i; break;
		}
		g->depth--;
		if (!ok) return -1;
		for (n = at; n < p->n; n++) { if (rp(20) && (p->i[n].k == K_CMP || p->i[n].k == K_JUMP)) p->i[n].op |= SLJIT_REWRITABLE_JUMP; sflags(&g->sz, &g->svt, &g->sv32, &g->ssub, &p->i[n]); }
		if (run_interp(p, g->s)) { p->n = at; resync(g); g->rollback++; return -1; }
		return 0;
	}
	case G_SUB: { /* fast call */
		s64 sub, over; int at = p->n, n, sl = gpinned_loop, rb = g->rollback; s32 d; ins l;
		if (g->dead || g->depth || p->n > MAXI - 120) return -1;
		sub = new_label(g); over = new_label(g); if (sub < 0 || over < 0) return -1;
		g->depth++;
		flush_pending(g, 1); at = p->n;
		i = mk(K_FCALL, rp(20) ? SLJIT_REWRITABLE_JUMP : 0); i.x = sub; p->i[p->n++] = i;
		i = mk(K_JUMP, SLJIT_JUMP); i.x = over; p->i[p->n++] = i;
		l = mk(rp(20) ? K_ALABEL : K_LABEL, 0); l.x = sub; if (l.k == K_ALABEL) l.op = (s32)rn(5); p->i[p->n++] = l;
		i = mk(K_FENTER, 0);
		if (rp(65) || p->locals < WBYTES) { d = reg_dst(g); if (!d || dst_reserved(g, d)) { p->n = at; g->depth--; return -1; } i.o[0] = d; gpinned_loop |= 1 << d; }
		else { d = 0; i.o[0] = SLJIT_MEM1(SLJIT_SP); i.w[0] = (sw)(rn((u32)(p->locals / WBYTES)) * WBYTES); }
		p->i[p->n++] = i;
		g->sz = 0; g->svt = -1;
		if (step(p, g->s) || step(p, g->s)) { p->n = at; gpinned_loop = sl; g->depth--; resync(g); return -1; }
		for (n = rrange(0, 5); n > 0; n--) { g->pin = (u32)gpinned_loop; gone(g); }
		flush_pending(g, 1);
		{ ins f = mk(K_FRET, 0); f.o[1] = i.o[0]; f.w[1] = i.w[0]; p->i[p->n++] = f; }
		l = mk(K_LABEL, 0); l.x = over; p->i[p->n++] = l;
		gpinned_loop = sl; g->depth--; g->sz = 0; g->svt = -1;
		(void)rb;
		if (run_interp(p, g->s)) { g->nofc = 1; return -2; /* cannot be repaired: give up on this program */ }
		if (g->nsubs < 4) g->subs[g->nsubs++] = sub;
		return 0;
	}
	case G_RECALL: {
		int at = p->n;
		if (g->dead || g->depth || !g->nsubs) return -1;
		i = mk(K_FCALL, rp(20) ? SLJIT_REWRITABLE_JUMP : 0); i.x = g->subs[rn((u32)g->nsubs)]; p->i[p->n++] = i;
		g->sz = 0; g->svt = -1;
		if (run_interp(p, g->s)) { p->n = at; resync(g); g->rollback++; return -1; }
		return 0;
	}
	}
	return -1;
}
static int wtotal(const profile *pr) { int k, t = 0; for (k = 0; k < G_MAXK; k++) t += pr->w[k]; return t; }
static int gone(gen *g)
{
	int t, k, r, at = g->p->n;
	if (g->nofc) return -1;
	t = (int)rn((u32)wtotal(g->pr));
	for (k = 0; t >= g->pr->w[k]; k++) t -= g->pr->w[k];
	g->pin |= (u32)gpinned_loop;
	r = g_one_kind(g, k);
	if (r == 0 && !g->dead && g->p->n > at) g->kinds++;
	return r;
}

/* resync during construction of a subroutine would lose the position, so rollbacks inside restart the program */
static int gen_prog(prog *p, const profile *pr, vst *s)
{
	gen G, *g = &G; int len, k; s32 r;
	memset(p, 0, sizeof(*p)); memset(g, 0, sizeof(*g));
	g->p = p; g->s = s; g->pr = pr; g->svt = -1; gpinned_loop = 0;
	gbigpad = rp(pr->w[G_PAD] >= 9 ? 15 : 2);
	p->sc = rp(70) ? rrange(2, NREGS) : rrange(1, 6);
	if (p->sc > NREGS) p->sc = NREGS;
	p->sv = NREGS - p->sc; if (p->sv > SLJIT_NUMBER_OF_SAVED_REGISTERS) p->sv = SLJIT_NUMBER_OF_SAVED_REGISTERS;
	p->sv = rp(40) ? p->sv : rrange(0, p->sv);
	p->fsc = rp(85) ? rrange(1, rp(50) ? 4 : NFREGS) : 0; if (pr->w[G_FOP2] > 5 && p->fsc == 0) p->fsc = 3;
	p->fsv = NFREGS - p->fsc; if (p->fsv > SLJIT_NUMBER_OF_SAVED_FLOAT_REGISTERS) p->fsv = SLJIT_NUMBER_OF_SAVED_FLOAT_REGISTERS;
	p->fsv = rp(60) ? 0 : rrange(0, p->fsv);
	if (!sljit_has_cpu_feature(SLJIT_HAS_FPU)) p->fsc = p->fsv = 0;
#if (defined SLJIT_CONFIG_X86 && SLJIT_CONFIG_X86)
	if (rp(20) && sljit_has_cpu_feature(SLJIT_HAS_AVX)) p->opts = SLJIT_ENTER_USE_VEX;
#endif
	switch (rn(pr->biglocals ? 8 : 20)) { case 0: p->locals = 0; break; case 1: p->locals = rrange(1, 40); break; case 2: p->locals = pr->biglocals ? rrange(1, rp(10) ? 200000 : 20000) : 4096; break; case 3: p->locals = rrange(240, 5000); break; default: p->locals = rrange(16, 600); break; }
	p->basereg = any_reg(g);
	p->aseed = r64();
	for (r = 1; r <= NREGS; r++) { p->r[r] = (uw)(rp(15) ? (u64)(uw)(arena[rn(N_AR)] + AR_WIN + (s32)rrange(-100, 700)) : rval()); p->rt[r] = (W64 && rp(35)) ? T_I : T_W; }
	for (r = 1; r <= NFREGS; r++) { p->ft[r] = rp(50) ? FT_32 : FT_64; p->f[r] = fbits(p->ft[r] == FT_32); }
	g->hot[0] = 0; for (k = 1; k < 6; k++) g->hot[k] = p->locals ? (sw)(rn((u32)p->locals) & ~7u) : 0;
	if (p->locals > 16) g->hot[5] = (p->locals - 8) & ~(sw)7;
	st_init(s, p);
	len = rrange(pr->minlen, pr->maxlen);
	for (k = 0; k < len && p->n < MAXI - 60; k++) {
		g->pin = 0; gpinned_loop = 0;
		gone(g);
		if (g->nofc) return -1;
		flush_pending(g, 0);
	}
	flush_pending(g, 1);
	return g->kinds >= 3 ? 1 : 0;
}

/* full context for support queries */
static void make_qc(void)
{
	qc = sljit_create_compiler(NULL);
	sljit_emit_enter(qc, 0, SLJIT_ARGS0V(), (NREGS - SLJIT_NUMBER_OF_SAVED_REGISTERS) | SLJIT_ENTER_FLOAT(NFREGS - SLJIT_NUMBER_OF_SAVED_FLOAT_REGISTERS), SLJIT_NUMBER_OF_SAVED_REGISTERS | SLJIT_ENTER_FLOAT(SLJIT_NUMBER_OF_SAVED_FLOAT_REGISTERS), 0);
}
#endif
