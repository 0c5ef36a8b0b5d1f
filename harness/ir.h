/* Program representation, text form and the reference interpreter. The interpreter is written from the
   documentation in sljitLir.h and never looks at the emitted code. */
#ifndef VT_IR_H
#define VT_IR_H
#include "core.h"
#include <math.h>

enum { K_OP0 = 1, K_OP1, K_OP2, K_OP2U, K_OP2R, K_SHI, K_PREF, K_OPFLAGS, K_SELECT, K_LABEL, K_JUMP, K_CMP, K_OP2CMPZ, K_FCMP,
	K_SETFLAGS, K_FOP1, K_FOP2, K_FOP2R, K_FSET32, K_FSET64, K_FCOPY, K_FSELECT, K_MEM, K_MEMUPD, K_FMEM, K_FMEMUPD,
	K_LOCALBASE, K_OPADDR, K_CONST, K_FCALL, K_FENTER, K_FRET, K_IJUMP, K_ICALL, K_PAD, K_ALABEL, K_MAX };
static const char *kname[K_MAX] = { "none", "op0", "op1", "op2", "op2u", "op2r", "shift_into", "prefetch", "op_flags", "select", "label", "jump", "cmp", "op2cmpz", "fcmp",
	"setflags", "fop1", "fop2", "fop2r", "fset32", "fset64", "fcopy", "fselect", "mem", "mem_update", "fmem", "fmem_update",
	"local_base", "op_addr", "const", "fast_call", "fast_enter", "fast_return", "ijump", "icall", "pad", "aligned_label" };

typedef struct { s32 k, op; s32 o[4]; sw w[4]; s64 x; } ins;
/* operand use:
   OP1 dst=o0 src=o1; OP2 dst=o0 src1=o1 src2=o2; OP2U src1=o1 src2=o2; OP2R/FOP2R dst reg=o0; SHI dst=o0 src1=o1 src2=o2 src3=o3;
   OPFLAGS dst=o0, x=type; SELECT op=type dst=o0 src1=o1 src2=o2; LABEL x=id; JUMP op=type x=label; CMP op=type o1 o2 x=label;
   OP2CMPZ op o0 o1 o2 x=label; MEM op=type o0=reg o1=mem; LOCALBASE dst=o0 x=offset; OPADDR op dst=o0 x=label; CONST op dst=o0 x=value;
   FCALL x=label; FENTER o0; FRET o1; IJUMP o1; ICALL op=helper, o1=src kind; PAD op=kind x=count; ALABEL op=alignment x=id */

#define MAXI 400
#define MAXL 64
enum { T_UNDEF = 0, T_W = 1, T_I = 2, T_LOC = 3, T_CODE = 4 };
enum { FT_UNDEF = 0, FT_32 = 1, FT_64 = 2 };
typedef struct {
	s32 sc, sv, fsc, fsv, opts; sw locals; s32 basereg; u64 aseed;
	uw r[SB_NR]; u8 rt[SB_NR];
	u64 f[SB_NF]; u8 ft[SB_NF];
	s32 n; ins i[MAXI];
} prog;

#define MAXLOC 0x100000
typedef struct {
	uw r[SB_NR]; u8 rt[SB_NR];
	u64 f[SB_NF]; u8 ft[SB_NF]; u8 fnan[SB_NF]; /* fnan: NaN with an unspecified payload */
	s32 zd, zv, vt, vv, v32, vsub, vcmp, v2z, vcar; /* zero flag defined/value; variable flag type (-1: undefined), value, from a 32 bit op, op class (0 none 1 add 2 sub), from op2u, from op2cmpz, together with a carry */
	s32 pc, ra, steps;
	u32 calls; u64 calllog;
	u8 mem[N_AR][AR_SIZE];
	s32 nloc; u8 *loc, *ldef; /* ldef: 0 undefined, 1 defined, 2 code address byte, 3 local address byte */
} vst;

static const char *ub; /* reason */
#define UB(msg) do { ub = (msg); return -1; } while (0)

static int pg_reg_ok(const prog *p, s32 r) { return (r >= 1 && r <= p->sc) || (r > NREGS - p->sv && r <= NREGS); }
static int pg_freg_ok(const prog *p, s32 r) { return (r >= 1 && r <= p->fsc) || (r > NFREGS - p->fsv && r <= NFREGS); }

static void arena_fill(u64 aseed, u8 m[N_AR][AR_SIZE])
{
	u64 x = aseed * 77 + 5; int a, i;
	for (a = 0; a < N_AR; a++) for (i = 0; i < AR_SIZE; i += 8) {
		u64 v = splitmix(&x), k = splitmix(&x);
		switch (k & 7) { case 0: v = (u64)(s64)(s32)v; break; case 1: v &= 0xff; break; case 2: v = (u64)0 - (v & 0xff); break; case 3: v &= 0x8000800080008000ull; break; case 4: if (k & 8) v = 0; break; default: break; }
		memcpy(&m[a][i], &v, 8);
	}
}

static vst *st_new(void) { vst *s = (vst*)calloc(1, sizeof(vst)); s->loc = (u8*)calloc(1, MAXLOC + 64); s->ldef = (u8*)calloc(1, MAXLOC + 64); return s; }
static void st_init(vst *s, const prog *p)
{
	u8 *l = s->loc, *d = s->ldef; int i;
	memset(s, 0, sizeof(*s)); s->loc = l; s->ldef = d; s->nloc = (s32)p->locals; s->vt = -1; s->ra = -1;
	memset(d, 0, (size_t)p->locals);
	for (i = 1; i <= NREGS; i++) if (pg_reg_ok(p, i)) { s->rt[i] = p->rt[i] ? p->rt[i] : T_W; s->r[i] = s->rt[i] == T_I ? (uw)(u32)p->r[i] : p->r[i]; if (!W64) s->rt[i] = T_W; }
	for (i = 1; i <= NFREGS; i++) if (pg_freg_ok(p, i)) { s->ft[i] = p->ft[i] == FT_32 ? FT_32 : FT_64; s->f[i] = s->ft[i] == FT_32 ? (u32)p->f[i] : p->f[i]; }
	arena_fill(p->aseed, s->mem);
}
static void st_copy(vst *d, const vst *s) { u8 *l = d->loc, *f = d->ldef; memcpy(d, s, sizeof(*d)); d->loc = l; d->ldef = f; memcpy(l, s->loc, (size_t)s->nloc); memcpy(f, s->ldef, (size_t)s->nloc); }

/* ---------- memory ---------- */
typedef struct { u8 *p; u8 *def; s32 isloc; s32 off; } mref;
#define ALN_NAT 0
static int ea_addr(vst *s, s32 o, sw w, int *isloc, uw *addr)
{
	s32 b = o & 0x7f, x = (o >> 8) & 0x7f;
	*isloc = 0;
	if (o == SLJIT_MEM0()) { *addr = (uw)w; return 0; }
	if (b == 0) UB("index without base");
	if (b == SLJIT_SP) { if (x) UB("sp index"); *isloc = 1; *addr = (uw)w; return 0; }
	if (s->rt[b] != T_W && s->rt[b] != T_LOC) UB("base not a word");
	if (IS_VIRT(b) || (x && IS_VIRT(x))) UB("virtual base");
	if (x == 0) { *isloc = s->rt[b] == T_LOC; *addr = s->r[b] + (uw)w; return 0; }
	if (w < 0 || w > 3) UB("bad shift");
	if (s->rt[x] == T_LOC) { if (w || s->rt[b] == T_LOC) UB("local index"); *isloc = 1; }
	else if (s->rt[x] != T_W) UB("index not a word");
	else *isloc = s->rt[b] == T_LOC;
	*addr = s->r[b] + (s->r[x] << w);
	return 0;
}
/* align: required alignment of the access (power of two) */
static int ea_at(vst *s, int isloc, uw addr, int size, int align, mref *m)
{
	int a;
	if (isloc) {
		sw off = (sw)addr;
		if (off < 0 || off > (sw)s->nloc - size) UB("local out of bounds");
		if (off & (align - 1)) UB("local misaligned");
		m->p = s->loc + off; m->def = s->ldef + off; m->isloc = 1; m->off = (s32)off; return 0;
	}
	for (a = 0; a < N_AR; a++) {
		uw base = (uw)arena[a];
		if (addr >= base + AR_WIN && addr <= base + AR_SIZE - AR_WIN - (uw)size) {
			if (addr & (uw)(align - 1)) UB("misaligned");
			m->p = s->mem[a] + (addr - base); m->def = NULL; m->isloc = 0; m->off = (s32)(addr - base); return 0;
		}
	}
	UB("address outside of the arenas");
}
static int ea(vst *s, s32 o, sw w, int size, int align, mref *m) { int l; uw a; if (ea_addr(s, o, w, &l, &a)) return -1; return ea_at(s, l, a, size, align, m); }

#if (defined SLJIT_UNALIGNED && SLJIT_UNALIGNED)
#define IALIGN(size) 1
#else
#define IALIGN(size) (size)
#endif
#if (defined SLJIT_FPU_UNALIGNED && SLJIT_FPU_UNALIGNED)
#define FALIGN(size) 1
#else
#define FALIGN(size) (size)
#endif

static u64 ld(const u8 *p, int size) { u64 v = 0; u8 b; u16 h; u32 i; switch (size) { case 1: memcpy(&b, p, 1); v = b; break; case 2: memcpy(&h, p, 2); v = h; break; case 4: memcpy(&i, p, 4); v = i; break; default: memcpy(&v, p, 8); } return v; }
static void stm(u8 *p, int size, u64 v) { u8 b = (u8)v; u16 h = (u16)v; u32 i = (u32)v; switch (size) { case 1: memcpy(p, &b, 1); break; case 2: memcpy(p, &h, 2); break; case 4: memcpy(p, &i, 4); break; default: memcpy(p, &v, 8); } }
static u64 ext(u64 v, int size, int sgn) { switch (size) { case 1: return sgn ? (u64)(s64)(int8_t)v : (u8)v; case 2: return sgn ? (u64)(s64)(int16_t)v : (u16)v; case 4: return sgn ? (u64)(s64)(s32)v : (u32)v; default: return v; } }
static int mload(vst *s, s32 o, sw w, int size, int align, u64 *v, int *tag)
{
	mref m; int i;
	if (ea(s, o, w, size, align, &m)) return -1;
	*tag = T_W;
	if (m.def) {
		for (i = 1; i < size; i++) if (m.def[i] != m.def[0]) UB("mixed local bytes");
		if (!m.def[0]) UB("undefined local bytes");
		if (m.def[0] >= 2) { if (size != WBYTES || (m.off & (WBYTES - 1))) UB("partial opaque"); *tag = m.def[0] == 2 ? T_CODE : T_LOC; }
	}
	*v = ld(m.p, size);
	return 0;
}
static int mstore(vst *s, s32 o, sw w, int size, int align, u64 v, int tag)
{
	mref m;
	if (ea(s, o, w, size, align, &m)) return -1;
	if (tag == T_CODE || tag == T_LOC) { if (!m.def || size != WBYTES || (m.off & (WBYTES - 1))) UB("opaque value to memory"); }
	stm(m.p, size, v);
	if (m.def) memset(m.def, tag == T_CODE ? 2 : tag == T_LOC ? 3 : 1, (size_t)size);
	return 0;
}

/* ---------- integer operands ---------- */
#define ISREG(o) ((o) > 0 && (o) < SLJIT_IMM)
static int rd32ok(vst *s, s32 r) { return s->rt[r] == T_I || (!W64 && s->rt[r] == T_W); }
/* reads a full operand of an op with the given width */
static int rd(vst *s, s32 o, sw w, int is32, u64 *v)
{
	int t;
	if (o == SLJIT_IMM) { *v = is32 ? (u32)w : W64 ? (u64)w : (u64)(u32)w; return 0; }
	if (o & SLJIT_MEM) { if (mload(s, o, w, (is32 || !W64) ? 4 : 8, IALIGN((is32 || !W64) ? 4 : 8), v, &t)) return -1; if (t != T_W) UB("opaque operand"); return 0; }
	if (is32 && W64) { if (!rd32ok(s, o)) UB("32 bit operand"); *v = (u32)s->r[o]; return 0; }
	if (s->rt[o] != T_W) UB("word operand");
	*v = s->r[o];
	return 0;
}
static void wreg(vst *s, s32 r, int is32, u64 v) { s->r[r] = is32 && W64 ? (uw)(u32)v : (uw)v; s->rt[r] = (is32 && W64) ? T_I : T_W; }
static int wr(vst *s, s32 o, sw w, int is32, u64 v)
{
	if (o & SLJIT_MEM) return mstore(s, o, w, (is32 || !W64) ? 4 : 8, IALIGN((is32 || !W64) ? 4 : 8), v, T_W);
	wreg(s, o, is32, v);
	return 0;
}

static int op1_size(s32 op) { switch (op & 0xff) { case SLJIT_MOV_U8: case SLJIT_MOV_S8: return 1; case SLJIT_MOV_U16: case SLJIT_MOV_S16: case SLJIT_REV_U16: case SLJIT_REV_S16: return 2; case SLJIT_MOV_U32: case SLJIT_MOV_S32: case SLJIT_MOV32: case SLJIT_REV_U32: case SLJIT_REV_S32: return 4; default: return (op & SLJIT_32) || !W64 ? 4 : 8; } }
static int op1_signed(s32 op) { switch (op & 0xff) { case SLJIT_MOV_S8: case SLJIT_MOV_S16: case SLJIT_MOV_S32: case SLJIT_REV_S16: case SLJIT_REV_S32: return 1; default: return 0; } }
static int op1_is32(s32 op) { return (op & SLJIT_32) || (op & 0xff) == SLJIT_MOV32; }

static u64 msk(int n) { return n >= 64 ? ~(u64)0 : ((u64)1 << n) - 1; }
static s64 sx(u64 v, int n) { return n >= 64 ? (s64)v : (s64)(v << (64 - n)) >> (64 - n); }
static void flags_undef(vst *s) { s->zd = 0; s->vt = -1; }
static int ex_op1(vst *s, const ins *i)
{
	s32 op = i->op, b = op & 0xff; int size = op1_size(op), sg = op1_signed(op), is32 = op1_is32(op), t = T_W; u64 v = 0; int n;
	if (b <= SLJIT_MOV_P) {
		if (i->o[1] == SLJIT_IMM) v = (u64)i->w[1];
		else if (i->o[1] & SLJIT_MEM) { if (mload(s, i->o[1], i->w[1], size, IALIGN(size), &v, &t)) return -1; if (t != T_W && b != SLJIT_MOV && b != SLJIT_MOV_P) UB("opaque mov"); }
		else {
			t = s->rt[i->o[1]];
			if (t == T_UNDEF) UB("undefined register");
			if (t == T_LOC || t == T_CODE) { if (b != SLJIT_MOV && b != SLJIT_MOV_P) UB("opaque mov"); }
			else if (b == SLJIT_MOV32 || b == SLJIT_MOV_U32 || b == SLJIT_MOV_S32) { if (t != T_W && t != T_I) UB("mov source"); }
			else if (is32) { if (!rd32ok(s, i->o[1])) UB("32 bit mov source"); }
			else if (t != T_W) UB("mov source");
			v = s->r[i->o[1]];
		}
		if (t == T_CODE || t == T_LOC) {
			if (i->o[0] & SLJIT_MEM) return mstore(s, i->o[0], i->w[0], WBYTES, IALIGN(WBYTES), v, t);
			s->r[i->o[0]] = (uw)v; s->rt[i->o[0]] = (u8)t; return 0;
		}
		v = ext(v, size, sg);
		if (i->o[0] & SLJIT_MEM) return mstore(s, i->o[0], i->w[0], size, IALIGN(size), v, T_W);
		wreg(s, i->o[0], is32, v);
		return 0;
	}
	if (i->o[1] == SLJIT_IMM) UB("immediate source");
	if (i->o[1] & SLJIT_MEM) { if (mload(s, i->o[1], i->w[1], size, IALIGN(size), &v, &t)) return -1; if (t != T_W) UB("opaque"); }
	else if (is32) { if (!rd32ok(s, i->o[1])) UB("32 bit source"); v = s->r[i->o[1]]; }
	else { if (s->rt[i->o[1]] != T_W) UB("source"); v = s->r[i->o[1]]; }
	v = ext(v, size, 0);
	flags_undef(s);
	switch (b) {
	case SLJIT_CLZ: for (n = 0; n < size * 8 && !((v >> (size * 8 - 1 - n)) & 1); n++) ; v = (u64)n; break;
	case SLJIT_CTZ: for (n = 0; n < size * 8 && !((v >> n) & 1); n++) ; v = (u64)n; break;
	default: { u64 x = 0; for (n = 0; n < size; n++) x |= ((v >> (8 * n)) & 0xff) << (8 * (size - 1 - n)); v = ext(x, size, sg); }
	}
	if (i->o[0] & SLJIT_MEM) return mstore(s, i->o[0], i->w[0], size, IALIGN(size), v, T_W);
	wreg(s, i->o[0], is32, v);
	return 0;
}

#if W64
static int mul_ovf(u64 a, u64 b, int n) { if (n == 64) { __int128 r = (__int128)(s64)a * (s64)b; return r != (s64)r; } else { s64 r = (s64)(s32)a * (s32)b; return r != (s32)r; } }
#else
static int mul_ovf(u64 a, u64 b, int n) { s64 r = (s64)(s32)a * (s32)b; (void)n; return r != (s32)r; }
#endif

static int cond_int(s32 t, u64 a, u64 b, int n)
{
	s64 x = sx(a, n), y = sx(b, n);
	switch (t) {
	case SLJIT_EQUAL: return a == b; case SLJIT_NOT_EQUAL: return a != b;
	case SLJIT_LESS: return a < b; case SLJIT_GREATER_EQUAL: return a >= b; case SLJIT_GREATER: return a > b; case SLJIT_LESS_EQUAL: return a <= b;
	case SLJIT_SIG_LESS: return x < y; case SLJIT_SIG_GREATER_EQUAL: return x >= y; case SLJIT_SIG_GREATER: return x > y; default: return x <= y;
	}
}

#define OPZ(op) (!!((op) & SLJIT_SET_Z))
#define OPV(op) (((op) >> 10) & 0x3f)
/* computes an op2; returns -1 if undefined */
static int alu(vst *s, s32 op, u64 a, u64 b, u64 *res, int setflags)
{
	int is32 = !W64 || (op & SLJIT_32), n = is32 ? 32 : 64, vt = OPV(op), vv = 0; u64 m = msk(n), r = 0, c, sh;
	a &= m; b &= m; sh = b & (u64)(n - 1);
	switch (op & 0xff) {
	case SLJIT_ADD: r = (a + b) & m; if (vt == SLJIT_CARRY) vv = r < a; else if (vt == SLJIT_OVERFLOW) vv = (int)(((~(a ^ b) & (a ^ r)) >> (n - 1)) & 1); break;
	case SLJIT_ADDC:
		if (s->vt != SLJIT_CARRY || s->vsub != 1 || s->v32 != !!(op & SLJIT_32)) UB("carry");
		c = (u64)s->vv; r = (a + b + c) & m; vv = c ? r <= a : r < a; break;
	case SLJIT_SUB: r = (a - b) & m;
		if (vt == SLJIT_CARRY) vv = a < b; else if (vt == SLJIT_OVERFLOW) vv = (int)((((a ^ b) & (a ^ r)) >> (n - 1)) & 1); else if (vt) vv = cond_int(vt, a, b, n); break;
	case SLJIT_SUBC:
		if (s->vt != SLJIT_CARRY || s->vsub != 2 || s->v32 != !!(op & SLJIT_32)) UB("carry");
		c = (u64)s->vv; r = (a - b - c) & m; vv = c ? a <= b : a < b; break;
	case SLJIT_MUL: r = (a * b) & m; if (vt) vv = mul_ovf(a, b, n); break;
	case SLJIT_AND: r = a & b; break;
	case SLJIT_OR: r = a | b; break;
	case SLJIT_XOR: r = a ^ b; break;
	case SLJIT_SHL: case SLJIT_LSHR: case SLJIT_ASHR: if (b >= (u64)n) UB("shift out of range"); /* fallthrough: immediates were masked by the caller */
	case SLJIT_MSHL: case SLJIT_MLSHR: case SLJIT_MASHR:
		switch (op & 0xff) {
		case SLJIT_SHL: case SLJIT_MSHL: r = (a << sh) & m; break;
		case SLJIT_LSHR: case SLJIT_MLSHR: r = a >> sh; break;
		default: r = (u64)(sx(a, n) >> sh) & m; break;
		}
		break;
	case SLJIT_ROTL: r = sh ? ((a << sh) | (a >> ((u64)n - sh))) & m : a; break;
	case SLJIT_ROTR: r = sh ? ((a >> sh) | (a << ((u64)n - sh))) & m : a; break;
	default: UB("op2");
	}
	if (setflags) {
		flags_undef(s);
		if (OPZ(op)) { s->zd = 1; s->zv = r == 0; }
		if (vt) { s->vt = vt & 0xfe; s->vv = vv; }
		s->v32 = !!(op & SLJIT_32); s->v2z = 0; s->vcmp = 0; s->vcar = s->vt == SLJIT_CARRY;
		s->vsub = (op & 0xff) <= SLJIT_ADDC ? 1 : (op & 0xff) <= SLJIT_SUBC ? 2 : 0;
		if (vt & 1) s->vv = !s->vv; /* SLJIT_SET of an inverted type is the same flag */
	}
	*res = r;
	return 0;
}
static u64 shift_imm(s32 op, s32 o, u64 v) { int b = op & 0xff; if (o == SLJIT_IMM && (b == SLJIT_SHL || b == SLJIT_LSHR || b == SLJIT_ASHR)) v &= (!W64 || (op & SLJIT_32)) ? 31 : 63; return v; }

/* evaluates a condition; -1 if undefined */
static int cond(vst *s, s32 type)
{
	if (type <= SLJIT_NOT_ZERO) { if (!s->zd) UB("zero flag undefined"); return s->zv ^ (type & 1); }
	if (s->vt != (type & 0xfe)) UB("variable flag undefined");
	if (s->vv < 0) UB("unordered");
	return s->vv ^ (type & 1);
}

/* ---------- floats ---------- */
static double f64of(u64 v) { double d; memcpy(&d, &v, 8); return d; }
static float f32of(u64 v) { float d; u32 x = (u32)v; memcpy(&d, &x, 4); return d; }
static u64 of64(double d) { u64 v; memcpy(&v, &d, 8); return v; }
static u64 of32(float d) { u32 v; memcpy(&v, &d, 4); return v; }
static int isnan_bits(u64 v, int is32) { return is32 ? ((u32)v & 0x7fffffffu) > 0x7f800000u : (v & 0x7fffffffffffffffull) > 0x7ff0000000000000ull; }

/* nan: 1 if the payload of the NaN is unspecified */
static int frd(vst *s, s32 o, sw w, int is32, u64 *v, int *nanunk)
{
	int t;
	*nanunk = 0;
	if (o & SLJIT_MEM) { int z = is32 ? 4 : 8; if (mload(s, o, w, z, FALIGN(z), v, &t)) return -1; if (t != T_W) UB("opaque"); return 0; }
	if (s->ft[o] != (is32 ? FT_32 : FT_64)) UB("float register type");
	*v = s->f[o]; *nanunk = s->fnan[o];
	return 0;
}
static int fwr(vst *s, s32 o, sw w, int is32, u64 v, int nanunk)
{
	if (o & SLJIT_MEM) { int z = is32 ? 4 : 8; if (nanunk) UB("unspecified NaN to memory"); return mstore(s, o, w, z, FALIGN(z), v, T_W); }
	s->f[o] = is32 ? (u32)v : v; s->ft[o] = is32 ? FT_32 : FT_64; s->fnan[o] = (u8)nanunk;
	return 0;
}
static u64 conv_spec(int which, int n) { switch (which) { case SLJIT_CONV_RESULT_MAX_INT: return msk(n - 1); case SLJIT_CONV_RESULT_MIN_INT: return 1ull << (n - 1); default: return 0; } }
static u64 f2i(double d, int n)
{
	double lim = n == 64 ? 9223372036854775808.0 : 2147483648.0;
	if (d != d) return conv_spec(SLJIT_CONV_NAN_FLOAT, n);
	d = trunc(d);
	if (d >= lim) return conv_spec(SLJIT_CONV_MAX_FLOAT, n);
	if (d < -lim) return conv_spec(SLJIT_CONV_MIN_FLOAT, n);
	return (u64)(s64)d & msk(n);
}
/* integer to float, correctly rounded, done on integers */
static u64 i2f(int neg, u64 mag, int is32)
{
	int p = is32 ? 24 : 53, e, sh; u64 q, rem, half;
	u64 sign = neg ? (is32 ? 0x80000000ull : 0x8000000000000000ull) : 0;
	if (!mag) return 0;
	for (e = 63; !((mag >> e) & 1); e--) ;
	if (e >= p) { sh = e - p + 1; q = mag >> sh; rem = mag & msk(sh); half = 1ull << (sh - 1); if (rem > half || (rem == half && (q & 1))) q++; if (q >> p) { q >>= 1; e++; } }
	else q = mag << (p - 1 - e);
	q &= msk(p - 1);
	return is32 ? sign | ((u64)(e + 127) << 23) | q : sign | ((u64)(e + 1023) << 52) | q;
}
static int fcond(s32 t, double a, double b)
{
	int un = a != a || b != b;
	switch (t) {
	case SLJIT_UNORDERED: return un; case SLJIT_ORDERED: return !un;
	case SLJIT_ORDERED_EQUAL: return !un && a == b; case SLJIT_UNORDERED_OR_NOT_EQUAL: return un || a != b;
	case SLJIT_ORDERED_LESS: return !un && a < b; case SLJIT_UNORDERED_OR_GREATER_EQUAL: return un || a >= b;
	case SLJIT_ORDERED_GREATER: return !un && a > b; case SLJIT_UNORDERED_OR_LESS_EQUAL: return un || a <= b;
	case SLJIT_UNORDERED_OR_EQUAL: return un || a == b; case SLJIT_ORDERED_NOT_EQUAL: return !un && a != b;
	case SLJIT_UNORDERED_OR_LESS: return un || a < b; case SLJIT_ORDERED_GREATER_EQUAL: return !un && a >= b;
	case SLJIT_UNORDERED_OR_GREATER: return un || a > b; case SLJIT_ORDERED_LESS_EQUAL: return !un && a <= b;
	}
	if (un) return -1; /* unspecified */
	switch (t) { case SLJIT_F_EQUAL: return a == b; case SLJIT_F_NOT_EQUAL: return a != b; case SLJIT_F_LESS: return a < b; case SLJIT_F_GREATER_EQUAL: return a >= b; case SLJIT_F_GREATER: return a > b; default: return a <= b; }
}
static double fval(u64 v, int is32) { return is32 ? (double)f32of(v) : f64of(v); }

static int ex_fop1(vst *s, const ins *i)
{
	s32 op = i->op, b = op & 0xff; int is32 = !!(op & SLJIT_32), nu, nu2; u64 v, v2;
	switch (b) {
	case SLJIT_MOV_F64:
		if (frd(s, i->o[1], i->w[1], is32, &v, &nu)) return -1;
		return fwr(s, i->o[0], i->w[0], is32, v, nu);
	case SLJIT_CONV_F64_FROM_F32: /* op & 32: dst is f32 */
		if (frd(s, i->o[1], i->w[1], !is32, &v, &nu)) return -1;
		flags_undef(s);
		if (isnan_bits(v, !is32)) return fwr(s, i->o[0], i->w[0], is32, is32 ? 0x7fc00000 : 0x7ff8000000000000ull, 1);
		{ volatile double d = fval(v, !is32); volatile float f = (float)d; return fwr(s, i->o[0], i->w[0], is32, is32 ? of32(f) : of64(d), 0); }
	case SLJIT_CONV_SW_FROM_F64: case SLJIT_CONV_S32_FROM_F64: {
		int s32r = b == SLJIT_CONV_S32_FROM_F64, n = s32r ? 32 : WBITS;
		if (frd(s, i->o[1], i->w[1], is32, &v, &nu)) return -1;
		flags_undef(s);
		v = f2i(fval(v, is32), n);
		if (i->o[0] & SLJIT_MEM) { mref m; if (ea(s, i->o[0], i->w[0], n / 8, FALIGN(n / 8), &m)) return -1; } /* accessed by the fpu */
		return wr(s, i->o[0], i->w[0], s32r, v);
	}
	case SLJIT_CONV_F64_FROM_SW: case SLJIT_CONV_F64_FROM_S32: case SLJIT_CONV_F64_FROM_UW: case SLJIT_CONV_F64_FROM_U32: {
		int w32 = b == SLJIT_CONV_F64_FROM_S32 || b == SLJIT_CONV_F64_FROM_U32, sg = b == SLJIT_CONV_F64_FROM_SW || b == SLJIT_CONV_F64_FROM_S32, n = w32 ? 32 : WBITS;
		if (i->o[1] & SLJIT_MEM) { mref m; if (ea(s, i->o[1], i->w[1], n / 8, FALIGN(n / 8), &m)) return -1; }
		if (rd(s, i->o[1], i->w[1], w32, &v)) return -1;
		flags_undef(s);
		v &= msk(n);
		if (sg && sx(v, n) < 0) v = i2f(1, (u64)0 - (u64)sx(v, n), is32); else v = i2f(0, v, is32);
		return fwr(s, i->o[0], i->w[0], is32, v, 0);
	}
	case SLJIT_CMP_F64: {
		int t = OPV(op);
		if (frd(s, i->o[0], i->w[0], is32, &v, &nu) || frd(s, i->o[1], i->w[1], is32, &v2, &nu2)) return -1;
		flags_undef(s);
		s->vt = t & 0xfe; s->vv = fcond(t & 0xfe, fval(v, is32), fval(v2, is32)); s->v32 = is32; s->vsub = 0; s->vcmp = 0; s->v2z = 0; s->vcar = 0;
		return 0;
	}
	default: /* NEG, ABS */
		if (frd(s, i->o[1], i->w[1], is32, &v, &nu)) return -1;
		flags_undef(s);
		if (isnan_bits(v, is32)) return fwr(s, i->o[0], i->w[0], is32, v, 1);
		{ u64 sb_ = is32 ? 0x80000000ull : 0x8000000000000000ull; v = b == SLJIT_NEG_F64 ? v ^ sb_ : v & ~sb_; }
		return fwr(s, i->o[0], i->w[0], is32, v, 0);
	}
}
static int ex_fop2(vst *s, const ins *i, int isr)
{
	s32 op = i->op, b = op & 0xff; int is32 = !!(op & SLJIT_32), nu, nu2; u64 v, v2;
	if (frd(s, i->o[1], i->w[1], is32, &v, &nu) || frd(s, i->o[2], i->w[2], is32, &v2, &nu2)) return -1;
	flags_undef(s);
	if (isr) {
		u64 sb_ = is32 ? 0x80000000ull : 0x8000000000000000ull;
		if (nu2 || isnan_bits(v2, is32)) UB("sign of NaN"); /* the sign of an arithmetic NaN is unspecified */
		if (isnan_bits(v, is32)) return fwr(s, i->o[0], i->w[0], is32, v, 1);
		return fwr(s, i->o[0], i->w[0], is32, (v & ~sb_) | (v2 & sb_), 0);
	}
	if (is32) {
		volatile float a = f32of(v), c = f32of(v2), r;
		switch (b) { case SLJIT_ADD_F64: r = a + c; break; case SLJIT_SUB_F64: r = a - c; break; case SLJIT_MUL_F64: r = a * c; break; default: r = a / c; }
		v = of32(r);
	} else {
		volatile double a = f64of(v), c = f64of(v2), r;
		switch (b) { case SLJIT_ADD_F64: r = a + c; break; case SLJIT_SUB_F64: r = a - c; break; case SLJIT_MUL_F64: r = a * c; break; default: r = a / c; }
		v = of64(r);
	}
	return fwr(s, i->o[0], i->w[0], is32, v, isnan_bits(v, is32));
}

/* ---------- C helpers called from generated code ---------- */
static u64 mix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }
typedef struct { s32 nargs; s32 args; } helper_t;
static u32 hc_calls; static u64 hc_log;
static uw SLJIT_FUNC hlp0(void) { hc_calls++; hc_log = mix(hc_log, 11); return (uw)0x1234567; }
static uw SLJIT_FUNC hlp1(uw a) { hc_calls++; hc_log = mix(hc_log, a); return a * 3 + 1; }
static uw SLJIT_FUNC hlp2(uw a, uw b) { hc_calls++; hc_log = mix(mix(hc_log, a), b); return a - b; }
static uw SLJIT_FUNC hlp3(uw a, uw b, uw c) { hc_calls++; hc_log = mix(mix(mix(hc_log, a), b), c); return a ^ (b + c); }
static uw SLJIT_FUNC hlp4(uw a, uw b, uw c, uw d) { hc_calls++; hc_log = mix(mix(mix(mix(hc_log, a), b), c), d); return a + b - c + d * 5; }
static void *(*hlp_override)(int);
static void *hlp_addr(int n) { if (hlp_override) return hlp_override(n); switch (n) { case 0: return (void*)hlp0; case 1: return (void*)hlp1; case 2: return (void*)hlp2; case 3: return (void*)hlp3; default: return (void*)hlp4; } }
static uw SLJIT_FUNC hlb0(void) { return hlp0() ^ 0x1111; }
static uw SLJIT_FUNC hlb1(uw a) { return hlp1(a) ^ 0x2222; }
static uw SLJIT_FUNC hlb2(uw a, uw b) { return hlp2(a, b) ^ 0x3333; }
static uw SLJIT_FUNC hlb3(uw a, uw b, uw c) { return hlp3(a, b, c) ^ 0x4444; }
static uw SLJIT_FUNC hlb4(uw a, uw b, uw c, uw d) { return hlp4(a, b, c, d) ^ 0x5555; }
/* which: 1 the other helper of the same signature (target of patched calls) */
static void *hlp_alt(int n, int which) { if (!which) return hlp_addr(n); switch (n) { case 0: return (void*)hlb0; case 1: return (void*)hlb1; case 2: return (void*)hlb2; case 3: return (void*)hlb3; default: return (void*)hlb4; } }
static s32 hlp_types(int n) { switch (n) { case 0: return SLJIT_ARGS0(W); case 1: return SLJIT_ARGS1(W, W); case 2: return SLJIT_ARGS2(W, W, W); case 3: return SLJIT_ARGS3(W, W, W, W); default: return SLJIT_ARGS4(W, W, W, W, W); } }

/* ---------- one step ---------- */
static int find_label(const prog *p, s64 id) { int i; for (i = 0; i < p->n; i++) if ((p->i[i].k == K_LABEL || p->i[i].k == K_ALABEL) && p->i[i].x == id) return i; return -1; }
static int chk_regs(const prog *p, s32 o) /* integer operand uses only registers of the context */
{
	if (o == SLJIT_IMM || o == SLJIT_MEM0()) return 0;
	if (o & SLJIT_MEM) { s32 b = o & 0x7f, x = (o >> 8) & 0x7f; if (b == SLJIT_SP) return x ? -1 : 0; if (!pg_reg_ok(p, b) || (x && !pg_reg_ok(p, x))) return -1; return 0; }
	if (o >> 8) return (pg_reg_ok(p, o & 0x7f) && pg_reg_ok(p, (o >> 8) & 0x7f)) ? 0 : -1;
	return pg_reg_ok(p, o) ? 0 : -1;
}
static int chk_fregs(const prog *p, s32 o) { if (o & SLJIT_MEM) return chk_regs(p, o); return pg_freg_ok(p, o) ? 0 : -1; }

static int jump_to(const prog *p, vst *s, s64 label) { int l = find_label(p, label); if (l < 0) UB("no label"); s->pc = l; return 0; }

static int step(const prog *p, vst *s)
{
	const ins *i = &p->i[s->pc]; u64 a, b, c, r; int t, n, size, nu; s32 type;
	s->pc++;
	s->steps++;
	switch (i->k) {
	case K_OP0:
		switch (i->op & 0xff) {
		case SLJIT_NOP: case SLJIT_ENDBR: case SLJIT_MEMORY_BARRIER: return 0;
		case SLJIT_LMUL_UW: case SLJIT_LMUL_SW:
			if (s->rt[1] != T_W || s->rt[2] != T_W) UB("lmul operand");
			flags_undef(s);
#if W64
			{ unsigned __int128 x; if ((i->op & 0xff) == SLJIT_LMUL_UW) x = (unsigned __int128)s->r[1] * s->r[2]; else x = (unsigned __int128)((__int128)(sw)s->r[1] * (sw)s->r[2]); s->r[1] = (uw)x; s->r[2] = (uw)(x >> 64); }
#else
			{ u64 x; if ((i->op & 0xff) == SLJIT_LMUL_UW) x = (u64)s->r[1] * s->r[2]; else x = (u64)((s64)(sw)s->r[1] * (sw)s->r[2]); s->r[1] = (uw)x; s->r[2] = (uw)(x >> 32); }
#endif
			return 0;
		case SLJIT_DIVMOD_UW: case SLJIT_DIVMOD_SW: case SLJIT_DIV_UW: case SLJIT_DIV_SW: {
			int is32 = !W64 || (i->op & SLJIT_32), bits = is32 ? 32 : 64, o = i->op & 0xff; u64 q, m;
			if (rd(s, 1, 0, !!(i->op & SLJIT_32), &a) || rd(s, 2, 0, !!(i->op & SLJIT_32), &b)) return -1;
			if (!b) UB("division by zero");
			flags_undef(s);
			if (o == SLJIT_DIVMOD_UW || o == SLJIT_DIV_UW) { q = a / b; m = a % b; }
			else { s64 x = sx(a, bits), y = sx(b, bits); if (y == -1 && a == (1ull << (bits - 1))) UB("division overflow"); q = (u64)(x / y); m = (u64)(x % y); }
			wreg(s, 1, !!(i->op & SLJIT_32), q);
			if (o == SLJIT_DIVMOD_UW || o == SLJIT_DIVMOD_SW) wreg(s, 2, !!(i->op & SLJIT_32), m);
			return 0;
		}
		}
		UB("op0");
	case K_OP1: return ex_op1(s, i);
	case K_OP2: case K_OP2U: case K_OP2CMPZ: {
		s32 op = i->op & ~SLJIT_REWRITABLE_JUMP; int is32 = !!(op & SLJIT_32), opc = op & 0xff;
		if (i->k == K_OP2CMPZ) op |= SLJIT_SET_Z;
		if (i->o[1] == SLJIT_SP) { /* never generated */ UB("sp operand"); }
		/* moving a local address: only ADD reg, imm keeps the tag */
		if (i->k == K_OP2 && op == SLJIT_ADD && ISREG(i->o[1]) && s->rt[i->o[1]] == T_LOC && ISREG(i->o[0])) {
			if (rd(s, i->o[2], i->w[2], 0, &b)) return -1;
			flags_undef(s); s->r[i->o[0]] = s->r[i->o[1]] + (uw)b; s->rt[i->o[0]] = T_LOC; return 0;
		}
		if (rd(s, i->o[1], i->w[1], is32, &a) || rd(s, i->o[2], i->w[2], is32, &b)) return -1;
		b = shift_imm(op, i->o[2], b);
		if (alu(s, op, a, b, &r, 1)) return -1;
		if (i->k == K_OP2U) { s->vcmp = opc == SLJIT_SUB; return 0; }
		if (wr(s, i->o[0], i->w[0], is32, r)) return -1;
		if (i->k == K_OP2CMPZ) { int z = s->zv; s->zd = 0; s->v2z = 1; if ((i->op & SLJIT_JUMP_IF_ZERO) ? z : !z) { if (s->vt == SLJIT_CARRY) s->vt = -1; return jump_to(p, s, i->x); } if (s->vt == SLJIT_CARRY) s->vt = -1; }
		return 0;
	}
	case K_OP2R: {
		int is32 = !!(i->op & SLJIT_32);
		if (rd(s, i->o[1], i->w[1], is32, &a) || rd(s, i->o[2], i->w[2], is32, &b) || rd(s, i->o[0], 0, is32, &c)) return -1;
		flags_undef(s);
		wreg(s, i->o[0], is32, (c + a * b) & msk(is32 || !W64 ? 32 : 64));
		return 0;
	}
	case K_SHI: {
		int is32 = !!(i->op & SLJIT_32), bits = is32 || !W64 ? 32 : 64, opc = i->op & 0xff;
		if (rd(s, i->o[1], 0, is32, &a) || rd(s, i->o[2], 0, is32, &b) || rd(s, i->o[3], i->w[3], is32, &c)) return -1;
		if (i->o[0] == i->o[2]) UB("shift_into dst");
		if (opc == SLJIT_MSHL || opc == SLJIT_MLSHR || i->o[3] == SLJIT_IMM) c &= (u64)(bits - 1);
		if (c >= (u64)bits) UB("shift amount");
		if ((i->op & SLJIT_SHIFT_INTO_NON_ZERO) && !c) UB("zero shift");
		flags_undef(s);
		if (opc == SLJIT_SHL || opc == SLJIT_MSHL) r = (a << c) | ((b >> 1) >> (c ^ (u64)(bits - 1))); else r = (a >> c) | ((b << 1 & msk(bits)) << (c ^ (u64)(bits - 1)));
		wreg(s, i->o[0], is32, r & msk(bits));
		return 0;
	}
	case K_PREF: return 0;
	case K_OPFLAGS: {
		int is32 = i->op == SLJIT_MOV32 || (i->op & SLJIT_32), opc = i->op & 0xff;
		t = cond(s, (s32)i->x); if (t < 0) return -1;
		if (opc == SLJIT_MOV || opc == SLJIT_MOV32) return wr(s, i->o[0], i->w[0], is32, (u64)t);
		if (rd(s, i->o[0], i->w[0], is32, &a)) return -1;
		r = opc == SLJIT_AND ? (a & (u64)t) : opc == SLJIT_OR ? (a | (u64)t) : (a ^ (u64)t);
		flags_undef(s);
		if (OPZ(i->op)) { s->zd = 1; s->zv = r == 0; s->v32 = is32 && W64; s->vsub = 0; s->vcmp = 0; s->v2z = 0; s->vcar = 0; }
		return wr(s, i->o[0], i->w[0], is32, r);
	}
	case K_SELECT: {
		int is32 = !!(i->op & SLJIT_32);
		t = cond(s, i->op & 0xff); if (t < 0) return -1;
		if ((i->op & 0xfe) == SLJIT_CARRY) { s->vt = -1; s->zd = 0; }
		if (rd(s, i->o[1], i->w[1], is32, &a) || rd(s, i->o[2], 0, is32, &b)) return -1;
		wreg(s, i->o[0], is32, t ? a : b);
		return 0;
	}
	case K_LABEL: case K_ALABEL: s->ra = -1; return 0;
	case K_PAD: return 0;
	case K_JUMP:
		type = i->op & 0xff;
		if (type != SLJIT_JUMP) { t = cond(s, type); if (t < 0) return -1; } else t = 1;
		if (type != SLJIT_JUMP && (type & 0xfe) == SLJIT_CARRY) s->zd = 0;
		if (s->vt == SLJIT_CARRY) s->vt = -1;
		return t ? jump_to(p, s, i->x) : 0;
	case K_CMP:
		if (rd(s, i->o[1], i->w[1], !!(i->op & SLJIT_32), &a) || rd(s, i->o[2], i->w[2], !!(i->op & SLJIT_32), &b)) return -1;
		flags_undef(s);
		return cond_int(i->op & 0xff, a, b, (!W64 || (i->op & SLJIT_32)) ? 32 : 64) ? jump_to(p, s, i->x) : 0;
	case K_FCMP:
		if (frd(s, i->o[1], i->w[1], !!(i->op & SLJIT_32), &a, &nu) || frd(s, i->o[2], i->w[2], !!(i->op & SLJIT_32), &b, &nu)) return -1;
		flags_undef(s);
		t = fcond(i->op & 0xff, fval(a, !!(i->op & SLJIT_32)), fval(b, !!(i->op & SLJIT_32)));
		if (t < 0) UB("unordered");
		return t ? jump_to(p, s, i->x) : 0;
	case K_SETFLAGS: { /* the declared flags must be the current ones */
		int z = OPZ(i->op), v = OPV(i->op);
		if (z && !s->zd) UB("setflags z");
		/* after a jump the carry is lost, but the flags cannot be described without it */
		if (z != !!s->zd || s->vt == SLJIT_CARRY || (z && s->vcar) || (s->vt >= 0) != !!v || (v && s->vt != (v & 0xfe))) UB("setflags v");
		if ((z || v) && (!!(i->op & SLJIT_CURRENT_FLAGS_32) != s->v32 || !!(i->op & SLJIT_CURRENT_FLAGS_ADD) != (s->vsub == 1) || !!(i->op & SLJIT_CURRENT_FLAGS_SUB) != (s->vsub == 2) || !!(i->op & SLJIT_CURRENT_FLAGS_COMPARE) != s->vcmp || !!(i->op & SLJIT_CURRENT_FLAGS_OP2CMPZ) != s->v2z)) UB("setflags kind");
		if (!z) s->zd = 0;
		if (!v) s->vt = -1;
		return 0;
	}
	case K_FOP1: return ex_fop1(s, i);
	case K_FOP2: return ex_fop2(s, i, 0);
	case K_FOP2R: return ex_fop2(s, i, 1);
	case K_FSET32: flags_undef(s); return fwr(s, i->o[0], 0, 1, (u32)i->x, 0);
	case K_FSET64: flags_undef(s); return fwr(s, i->o[0], 0, 0, (u64)i->x, 0);
	case K_FCOPY: {
		s32 fr = i->o[0], r1 = i->o[1] & 0x7f, r2 = (i->o[1] >> 8) & 0x7f; int is32 = !!(i->op & SLJIT_32);
		flags_undef(s);
		if ((i->op & 0xff) == SLJIT_COPY_TO_F64) {
			if (is32) { if (!rd32ok(s, r1)) UB("fcopy"); return fwr(s, fr, 0, 1, (u32)s->r[r1], 0); }
			if (s->rt[r1] != T_W || (r2 && s->rt[r2] != T_W)) UB("fcopy");
#if W64
			return fwr(s, fr, 0, 0, s->r[r1], 0);
#else
			if (!r2) { if (s->ft[fr] != FT_64 || s->fnan[fr]) UB("fcopy half"); return fwr(s, fr, 0, 0, (s->f[fr] & 0xffffffffull) | ((u64)s->r[r1] << 32), 0); }
			return fwr(s, fr, 0, 0, (u64)s->r[r2] | ((u64)s->r[r1] << 32), 0);
#endif
		}
		if (s->ft[fr] != (is32 ? FT_32 : FT_64) || s->fnan[fr]) UB("fcopy from");
		if (is32) { wreg(s, r1, 1, s->f[fr]); return 0; }
#if W64
		wreg(s, r1, 0, s->f[fr]);
#else
		wreg(s, r1, 0, s->f[fr] >> 32); if (r2) wreg(s, r2, 0, s->f[fr]);
#endif
		return 0;
	}
	case K_FSELECT: {
		int is32 = !!(i->op & SLJIT_32), nu2;
		t = cond(s, i->op & 0xff); if (t < 0) return -1;
		if ((i->op & 0xfe) == SLJIT_CARRY) { s->vt = -1; s->zd = 0; }
		if (frd(s, i->o[1], i->w[1], is32, &a, &nu) || frd(s, i->o[2], 0, is32, &b, &nu2)) return -1;
		return fwr(s, i->o[0], 0, is32, t ? a : b, t ? nu : nu2);
	}
	case K_MEM: {
		int al; s32 ty = i->op & 0xff, r1 = i->o[0] & 0x7f, r2 = (i->o[0] >> 8) & 0x7f, q; int is32 = op1_is32(i->op & (0xff | SLJIT_32)), k, loc; uw ad;
		size = op1_size(i->op & (0xff | SLJIT_32));
		al = (i->op & SLJIT_MEM_UNALIGNED) ? 1 : (i->op & SLJIT_MEM_ALIGNED_16) ? 2 : (i->op & SLJIT_MEM_ALIGNED_32) ? 4 : size; /* a pair without flags is word aligned */
		if (al > size) al = size;
		if (ea_addr(s, i->o[1], i->w[1], &loc, &ad)) return -1;
		for (k = 0; k < (r2 ? 2 : 1); k++) {
			mref m; q = k ? r2 : r1;
			if (ea_at(s, loc, ad + (uw)(k * size), size, al, &m)) return -1;
			if (i->op & SLJIT_MEM_STORE) {
				if (ty == SLJIT_MOV32) { if (s->rt[q] != T_I && s->rt[q] != T_W) UB("mem store"); }
				else if (ty == SLJIT_MOV_U32 || ty == SLJIT_MOV_S32) { if (s->rt[q] != T_W && s->rt[q] != T_I) UB("mem store"); }
				else if (is32) { if (!rd32ok(s, q)) UB("mem store"); }
				else if (s->rt[q] != T_W) UB("mem store");
				stm(m.p, size, s->r[q]); if (m.def) memset(m.def, 1, (size_t)size);
			} else {
				if (m.def) { int z; for (z = 0; z < size; z++) if (m.def[z] != 1) UB("mem load undefined"); }
				s->f[0] = ld(m.p, size); /* first value is written after both were read */
				if (k) { u64 second = s->f[0]; wreg(s, r1, is32, ext(s->f[SB_NF - 1], size, op1_signed(ty))); wreg(s, r2, is32, ext(second, size, op1_signed(ty))); }
				else if (r2) s->f[SB_NF - 1] = s->f[0];
				else wreg(s, r1, is32, ext(s->f[0], size, op1_signed(ty)));
			}
		}
		return 0;
	}
	case K_MEMUPD: case K_FMEMUPD: case K_FMEM: {
		s32 base = i->o[1] & 0x7f; int isf = i->k != K_MEMUPD, is32, al, loc; uw ad, newb; mref m;
		is32 = isf ? !!(i->op & SLJIT_32) : op1_is32(i->op & (0xff | SLJIT_32));
		size = isf ? (is32 ? 4 : 8) : op1_size(i->op & (0xff | SLJIT_32));
		al = isf ? FALIGN(size) : IALIGN(size);
		if (i->k == K_FMEM) { al = (i->op & SLJIT_MEM_UNALIGNED) ? 1 : (i->op & SLJIT_MEM_ALIGNED_16) ? 2 : (i->op & SLJIT_MEM_ALIGNED_32) ? 4 : al; }
		if (ea_addr(s, i->o[1], i->w[1], &loc, &ad)) return -1;
		newb = ad;
		if (i->k != K_FMEM) { if (loc) UB("update local"); if (i->op & SLJIT_MEM_POST) ad = s->r[base]; }
		if (ea_at(s, loc, ad, size, al, &m)) return -1;
		if (i->op & SLJIT_MEM_STORE) {
			if (isf) { if (frd(s, i->o[0], 0, is32, &a, &nu)) return -1; if (nu) UB("nan"); }
			else { s32 q = i->o[0], ty = i->op & 0xff; if (ty == SLJIT_MOV32 || ty == SLJIT_MOV_U32 || ty == SLJIT_MOV_S32) { if (s->rt[q] != T_I && s->rt[q] != T_W) UB("vst"); } else if (is32) { if (!rd32ok(s, q)) UB("vst"); } else if (s->rt[q] != T_W) UB("vst"); a = s->r[q]; }
			stm(m.p, size, a); if (m.def) memset(m.def, 1, (size_t)size);
		} else {
			if (m.def) { int z; for (z = 0; z < size; z++) if (m.def[z] != 1) UB("load undefined"); }
			a = ld(m.p, size);
			if (isf) { if (fwr(s, i->o[0], 0, is32, a, 0)) return -1; } else wreg(s, i->o[0], is32, ext(a, size, op1_signed(i->op & 0xff)));
		}
		if (i->k != K_FMEM) s->r[base] = newb;
		return 0;
	}
	case K_LOCALBASE:
		flags_undef(s);
		if (i->o[0] & SLJIT_MEM) return mstore(s, i->o[0], i->w[0], WBYTES, IALIGN(WBYTES), (uw)i->x, T_LOC);
		s->r[i->o[0]] = (uw)i->x; s->rt[i->o[0]] = T_LOC; return 0;
	case K_OPADDR:
		n = find_label(p, i->x); if (n < 0) UB("no label");
		if (i->o[0] & SLJIT_MEM) return mstore(s, i->o[0], i->w[0], WBYTES, IALIGN(WBYTES), (uw)n, T_CODE);
		s->r[i->o[0]] = (uw)n; s->rt[i->o[0]] = T_CODE; return 0;
	case K_CONST:
		size = op1_size(i->op);
		if ((i->op & 0xff) == SLJIT_MOV_S32 && (i->o[0] & SLJIT_MEM)) size = WBYTES; /* a 32 bit constant which is stored as a word */
		if (i->o[0] & SLJIT_MEM) return mstore(s, i->o[0], i->w[0], size, IALIGN(size), (u64)i->x, T_W);
		if ((i->op & 0xff) == SLJIT_MOV_U8) wreg(s, i->o[0], op1_is32(i->op), (u64)i->x);
		else wreg(s, i->o[0], op1_is32(i->op), ext((u64)i->x, size, op1_signed(i->op)));
		return 0;
	case K_FCALL: flags_undef(s); s->ra = s->pc; n = find_label(p, i->x); if (n < 0) UB("no label"); s->pc = n + 1; return 0;
	case K_FENTER:
		if (s->ra < 0) UB("no fast call");
		a = (u64)s->ra | 0x10000; s->ra = -1; /* not the address of a label */
		if (i->o[0] & SLJIT_MEM) return mstore(s, i->o[0], i->w[0], WBYTES, IALIGN(WBYTES), a, T_CODE);
		s->r[i->o[0]] = (uw)a; s->rt[i->o[0]] = T_CODE; return 0;
	case K_FRET: case K_IJUMP:
		if (i->o[1] & SLJIT_MEM) { if (mload(s, i->o[1], i->w[1], WBYTES, IALIGN(WBYTES), &a, &t)) return -1; if (t != T_CODE) UB("not code"); }
		else { if (s->rt[i->o[1]] != T_CODE) UB("not code"); a = s->r[i->o[1]]; }
		if (i->k == K_FRET) flags_undef(s); else if (s->vt == SLJIT_CARRY) s->vt = -1;
		s->pc = (s32)(a & 0xffff);
		return 0;
	case K_ICALL: {
		uw x[4]; int k; uw res;
		for (k = 0; k < i->op; k++) { if (s->rt[k + 1] != T_W) UB("call argument"); x[k] = s->r[k + 1]; }
		s->calls++;
		switch (i->op) {
		case 0: s->calllog = mix(s->calllog, 11); res = (uw)0x1234567; break;
		case 1: s->calllog = mix(s->calllog, x[0]); res = x[0] * 3 + 1; break;
		case 2: s->calllog = mix(mix(s->calllog, x[0]), x[1]); res = x[0] - x[1]; break;
		case 3: s->calllog = mix(mix(mix(s->calllog, x[0]), x[1]), x[2]); res = x[0] ^ (x[1] + x[2]); break;
		default: s->calllog = mix(mix(mix(mix(s->calllog, x[0]), x[1]), x[2]), x[3]); res = x[0] + x[1] - x[2] + x[3] * 5; break;
		}
		if (i->w[0] & 1) res ^= (uw)(0x1111 * (i->op + 1));
		for (k = 1; k <= p->sc; k++) s->rt[k] = T_UNDEF;
		for (k = 1; k <= p->fsc; k++) s->ft[k] = FT_UNDEF;
		flags_undef(s);
		wreg(s, 1, 0, res);
		return 0;
	}
	}
	UB("unknown instruction");
}

/* every register named by the program exists in its context */
static int prog_static_ok(const prog *p)
{
	int j;
	for (j = 0; j < p->n; j++) {
		const ins *i = &p->i[j]; int bad = 0;
		switch (i->k) {
		case K_OP0: if ((i->op & 0xff) >= SLJIT_LMUL_UW && (i->op & 0xff) <= SLJIT_DIV_SW) bad = p->sc < 2; break;
		case K_OP1: bad = chk_regs(p, i->o[0]) || chk_regs(p, i->o[1]); break;
		case K_OP2: case K_OP2CMPZ: bad = chk_regs(p, i->o[0]) || chk_regs(p, i->o[1]) || chk_regs(p, i->o[2]); break;
		case K_OP2U: case K_CMP: bad = chk_regs(p, i->o[1]) || chk_regs(p, i->o[2]); break;
		case K_OP2R: case K_SELECT: bad = chk_regs(p, i->o[0]) || chk_regs(p, i->o[1]) || chk_regs(p, i->o[2]); break;
		case K_SHI: bad = chk_regs(p, i->o[0]) || chk_regs(p, i->o[1]) || chk_regs(p, i->o[2]) || chk_regs(p, i->o[3]); break;
		case K_OPFLAGS: case K_LOCALBASE: case K_OPADDR: case K_CONST: case K_FENTER: bad = chk_regs(p, i->o[0]); break;
		case K_MEM: case K_MEMUPD: bad = chk_regs(p, i->o[0]) || chk_regs(p, i->o[1]); break;
		case K_FMEM: case K_FMEMUPD: bad = chk_fregs(p, i->o[0]) || chk_regs(p, i->o[1]); break;
		case K_FRET: case K_IJUMP: case K_PREF: bad = chk_regs(p, i->o[1]); break;
		case K_FOP1: switch (i->op & 0xff) { case SLJIT_CONV_SW_FROM_F64: case SLJIT_CONV_S32_FROM_F64: bad = chk_regs(p, i->o[0]) || chk_fregs(p, i->o[1]); break;
			case SLJIT_CONV_F64_FROM_SW: case SLJIT_CONV_F64_FROM_S32: case SLJIT_CONV_F64_FROM_UW: case SLJIT_CONV_F64_FROM_U32: bad = chk_fregs(p, i->o[0]) || chk_regs(p, i->o[1]); break;
			default: bad = chk_fregs(p, i->o[0]) || chk_fregs(p, i->o[1]); } break;
		case K_FOP2: case K_FOP2R: case K_FSELECT: bad = chk_fregs(p, i->o[0]) || chk_fregs(p, i->o[1]) || chk_fregs(p, i->o[2]); break;
		case K_FCMP: bad = chk_fregs(p, i->o[1]) || chk_fregs(p, i->o[2]); break;
		case K_FSET32: case K_FSET64: bad = chk_fregs(p, i->o[0]); break;
		case K_FCOPY: bad = chk_fregs(p, i->o[0]) || chk_regs(p, i->o[1]); break;
		case K_ICALL: bad = p->sc < i->op || p->sc < 1; break;
		}
		if (bad) { ub = "register outside of the context"; return j + 1; }
	}
	return 0;
}
#define MAXSTEPS 20000
static int run_interp(const prog *p, vst *s) { while (s->pc < p->n) { if (s->steps > MAXSTEPS) UB("too many steps"); if (step(p, s)) return -1; } return 0; }

/* ---------- text form ---------- */
static void prog_write(const prog *p, FILE *f, const char *hdr)
{
	int i;
	fprintf(f, "%s", hdr ? hdr : "");
	fprintf(f, "ctx %d %d %d %d %d %lld %d %llx\n", p->sc, p->sv, p->fsc, p->fsv, p->opts, (long long)p->locals, p->basereg, (unsigned long long)p->aseed);
	for (i = 1; i <= NREGS; i++) if (pg_reg_ok(p, i)) fprintf(f, "reg %d %d %llx\n", i, p->rt[i], (unsigned long long)p->r[i]);
	for (i = 1; i <= NFREGS; i++) if (pg_freg_ok(p, i)) fprintf(f, "freg %d %d %llx\n", i, p->ft[i], (unsigned long long)p->f[i]);
	for (i = 0; i < p->n; i++) {
		const ins *x = &p->i[i]; int j;
		fprintf(f, "i %s %x", kname[x->k], (unsigned)x->op);
		for (j = 0; j < 4; j++) fprintf(f, " %x:%llx", (unsigned)x->o[j], (unsigned long long)(s64)x->w[j]);
		fprintf(f, " %llx\n", (unsigned long long)x->x);
	}
	fprintf(f, "end\n");
}
static int prog_read(prog *p, FILE *f)
{
	char line[512]; int gotctx = 0;
	memset(p, 0, sizeof(*p));
	while (fgets(line, sizeof(line), f)) {
		if (!strncmp(line, "ctx ", 4)) { long long l; unsigned long long a; if (sscanf(line + 4, "%d %d %d %d %d %lld %d %llx", &p->sc, &p->sv, &p->fsc, &p->fsv, &p->opts, &l, &p->basereg, &a) != 8) return -1; p->locals = (sw)l; p->aseed = a; gotctx = 1; }
		else if (!strncmp(line, "reg ", 4)) { int r, t; unsigned long long v; if (sscanf(line + 4, "%d %d %llx", &r, &t, &v) != 3 || r < 0 || r >= SB_NR) return -1; p->r[r] = (uw)v; p->rt[r] = (u8)t; }
		else if (!strncmp(line, "freg ", 5)) { int r, t; unsigned long long v; if (sscanf(line + 5, "%d %d %llx", &r, &t, &v) != 3 || r < 0 || r >= SB_NF) return -1; p->f[r] = v; p->ft[r] = (u8)t; }
		else if (!strncmp(line, "i ", 2)) {
			char nm[32]; ins x; unsigned o[4], op; unsigned long long w[4], xx; int j;
			memset(&x, 0, sizeof(x));
			if (sscanf(line + 2, "%31s %x %x:%llx %x:%llx %x:%llx %x:%llx %llx", nm, &op, &o[0], &w[0], &o[1], &w[1], &o[2], &w[2], &o[3], &w[3], &xx) != 11) return -1;
			for (j = 1; j < K_MAX && strcmp(kname[j], nm); j++) ;
			if (j >= K_MAX || p->n >= MAXI) return -1;
			x.k = j; x.op = (s32)op; x.x = (s64)xx;
			for (j = 0; j < 4; j++) { x.o[j] = (s32)o[j]; x.w[j] = (sw)w[j]; }
			p->i[p->n++] = x;
		}
		else if (!strncmp(line, "end", 3)) break;
	}
	return gotctx ? 0 : -1;
}
#endif
