/* C11: argument checking. A case is a list of calls of the public emitter functions with numeric arguments.
   An oracle written from the documentation of sljitLir.h classifies each call: valid (must be accepted), invalid (must be answered
   with the bad argument error, nothing is emitted, the error stays) or not judged (never generated). The sequence ends with code generation.
   argfuzz run <profile> <seed> <start> <ms> <progress> | dump <profile> <seed> <case> | replay <file> */
#include "core.h"

enum { F_enter, F_context, F_ret, F_retvoid, F_retto, F_op0, F_op1, F_op2, F_op2u, F_op2r, F_shift, F_opsrc, F_opdst, F_fop1, F_fop2, F_fop2r, F_fset32, F_fset64, F_fcopy,
	F_label, F_alabel, F_jump, F_call, F_cmp, F_fcmp, F_cmpz, F_ijump, F_icall, F_opflags, F_select, F_fselect, F_mem, F_memup, F_fmem, F_fmemup,
	F_vmov, F_vrep, F_vlmov, F_vlrep, F_vext, F_vsign, F_vop2, F_aload, F_astore, F_lbase, F_const, F_opaddr, F_custom, F_setflags, F_regidx, F_gen, F_N };
#define A(x) F_##x
static const struct { const char *n; int na; } fn[F_N] = {
	{"enter",5},{"context",5},{"ret",3},{"retvoid",0},{"retto",2},{"op0",1},{"op1",5},{"op2",7},{"op2u",5},{"op2r",6},{"shift",6},{"opsrc",3},{"opdst",3},{"fop1",5},{"fop2",7},{"fop2r",6},{"fset32",2},{"fset64",2},{"fcopy",3},
	{"label",0},{"alabel",1},{"jump",1},{"call",2},{"cmp",5},{"fcmp",5},{"cmpz",7},{"ijump",3},{"icall",4},{"opflags",4},{"select",5},{"fselect",5},{"mem",4},{"memup",4},{"fmem",4},{"fmemup",4},
	{"vmov",4},{"vrep",4},{"vlmov",5},{"vlrep",4},{"vext",4},{"vsign",4},{"vop2",5},{"aload",3},{"astore",4},{"lbase",3},{"const",4},{"opaddr",3},{"custom",2},{"setflags",1},{"regidx",2},{"gen",3}};
typedef struct { int f; s64 a[8]; } call;
#define MAXC 64
static call cs[MAXC]; static int nc;
static char msg[400];
#define FAIL(...) do { snprintf(msg, sizeof(msg), __VA_ARGS__); return 10; } while (0)

/* executable memory: one block at a time, it ends at an inaccessible page, the bytes lost by alignment are checked */
#define XSZ (1 << 20)
static u8 *xmem, *xblk; static uw xsize; static int xbad;
static int xslack(void) { uw k; for (k = xsize; k < ((xsize + 15) & ~(uw)15); k++) if (xblk[k] != 0xa5) return 1; return 0; }
void *vt_exec_alloc(unsigned long size)
{
	long ps = sysconf(_SC_PAGESIZE); if (ps < 65536) ps = 65536;
	if (!xmem) { xmem = mmap(NULL, XSZ + (size_t)ps, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (xmem == MAP_FAILED || mprotect(xmem + XSZ, (size_t)ps, PROT_NONE)) { fprintf(stderr, "INFRA: mmap\n"); exit(99); } }
	if (xblk || !size) { xbad |= 1; return NULL; }
	if (size > XSZ) return NULL;
	xsize = size; xblk = xmem + XSZ - ((size + 15) & ~15ul);
	memset(xblk, 0xa5, (size + 15) & ~15ul);
	return xblk;
}
void vt_exec_release(void *ptr) { if (!xblk || ptr != xblk) { xbad |= 2; return; } if (xslack()) xbad |= 4; xblk = NULL; }

enum { V, I, U };
static int comb(int a, int b) { return a == I || b == I ? I : a == U || b == U ? U : V; }
#define R(c) r = comb(r, (c))
#define BAD(c) do { if (c) r = comb(r, I); } while (0)
#define UNK(c) do { if (c) r = comb(r, U); } while (0)

/* ---------- model of the compiler state ---------- */
static struct {
	int entered, opts, ret, sc, sv, fs, fv, vs, vv, local;
	int z; /* 0: no, 1: set, 2: not known */
	int v; /* -1: none, -2: not known, otherwise the type (even) */
	int w32, emitted, ncond, unresolved;
} m;
static int has_simd, has_atomic, has_pair, vpairs;
#define NR SLJIT_NUMBER_OF_REGISTERS
#define NF SLJIT_NUMBER_OF_FLOAT_REGISTERS
#define NV SLJIT_NUMBER_OF_VECTOR_REGISTERS
#define ZBIT 0x200
#define VMASK (0x3f << 10)
#define FLAGS (ZBIT | VMASK)
#define FT(op) (((op) >> 10) & 0x3f)
#define B32 0x100
#define MEMBIT 0x80

static int rng(s64 r, int n, int base, int sc, int sv, int tmpbase, int ntmp)
{
	if (!m.entered) return I;
	if (r >= 1 && r <= sc) return V;
	if (r > n - sv && r <= n) return V;
	if (ntmp && r >= tmpbase && r < tmpbase + ntmp) return U;
	(void)base;
	return I;
}
static int reg(s64 r) { return rng(r, NR, 1, m.sc, m.sv, SLJIT_TMP_REGISTER_BASE, SLJIT_NUMBER_OF_TEMPORARY_REGISTERS); }
static int freg(s64 r, int is32)
{
#if (defined SLJIT_CONFIG_ARM_32 && SLJIT_CONFIG_ARM_32) || (defined SLJIT_CONFIG_MIPS_32 && SLJIT_CONFIG_MIPS_32)
	if (r >= SLJIT_F64_SECOND(0) + 1 && r <= 2 * SLJIT_F64_SECOND(0)) {
		int k = rng(r - SLJIT_F64_SECOND(0), NF, 1, m.fs, m.fv, SLJIT_TMP_FREGISTER_BASE, SLJIT_NUMBER_OF_TEMPORARY_FLOAT_REGISTERS);
		if (!is32) return rng(r, NF, 1, m.fs, m.fv, SLJIT_TMP_FREGISTER_BASE, SLJIT_NUMBER_OF_TEMPORARY_FLOAT_REGISTERS);
		return k == V && !has_pair ? U : k;
	}
#endif
	(void)is32;
	return rng(r, NF, 1, m.fs, m.fv, SLJIT_TMP_FREGISTER_BASE, SLJIT_NUMBER_OF_TEMPORARY_FLOAT_REGISTERS);
}
static int vreg(s64 r, s64 type)
{
#define VR(x) rng(x, NV, 1, m.vs, m.vv, SLJIT_TMP_VREGISTER_BASE, SLJIT_NUMBER_OF_TEMPORARY_VECTOR_REGISTERS)
	if (vpairs && ((type >> 12) & 0x3f) != 3) {
		int a, b;
		if (((type >> 12) & 0x3f) != 4) return U; /* never supported */
		if (r < 1 || r > NV) return r < 1 || !m.entered ? I : VR(r);
		a = VR(((r - 1) | 1)); b = VR(((r - 1) | 1) + 1);
		if (a == V && b == V) return (((r - 1) | 1) <= m.vs) == (((r - 1) | 1) < m.vs) ? V : U; /* both are scratch or both are saved registers */
		return a == b ? a : U;
	}
	return VR(r);
}
static int mem(s64 p, s64 w)
{
	int r = V, b = (int)(p & 0x7f), x = (int)((p >> 8) & 0x7f);
	if (!m.entered || !(p & MEMBIT) || p < 0 || (p & ~(s64)0x7fff)) return I;
	if (b == SLJIT_SP) return x || w < 0 || w >= m.local ? I : V;
	if (x) { BAD(!b || w < 0 || w > 3); R(reg(x)); BAD(IS_VIRT(x)); }
	if (b) { R(reg(b)); BAD(IS_VIRT(b)); }
	return r;
}
static int dst(s64 p, s64 w) { int k = reg(p); if (p > 0 && p < MEMBIT && k != I) return comb(k, w ? I : V); return mem(p, w); }
static int src(s64 p, s64 w) { if (p == SLJIT_IMM) return m.entered ? V : I; return dst(p, w); }
static int fsrc(s64 p, s64 w, int is32) { int k = freg(p, is32); if (k != I) return comb(k, w ? I : V); return mem(p, w); }
static int vsrc(s64 p, s64 w, s64 type) { if (!(p & MEMBIT)) { int k = vreg(p, type); return k != I ? comb(k, w ? I : V) : I; } return mem(p, w); }

static int argtypes(s64 t, int sc, int sv, int fs, int call_)
{
	int r = V, n, words = 0, saved = 0, lastsc = 0, fl = 0, k = (int)(t & 15);
	BAD(t < 0 || k > SLJIT_ARG_TYPE_F32);
	if (k >= SLJIT_ARG_TYPE_F64) UNK(!fs); else if (k) UNK(!sc);
	for (n = 0, t >>= 4; t && n < 8; n++, t >>= 4) {
		int a = (int)(t & 7);
		BAD(n >= 4 || a < SLJIT_ARG_TYPE_W || a > SLJIT_ARG_TYPE_F32);
		if (t & 8) { BAD(call_ || a > SLJIT_ARG_TYPE_P); lastsc = ++words; }
		else if (a >= SLJIT_ARG_TYPE_F64) fl++; else { words++; saved++; }
	}
	if (call_) BAD(words > sc); else BAD(saved > sv || lastsc > sc);
	if (fl > fs) r = comb(r, m.vs > fs && call_ ? U : I); /* vector registers may be floating point registers */
	return r;
}
/* the condition is provided by the last arithmetic operation */
static int cond(s64 t)
{
	if (t < 0 || t > 35) return I;
	if (t <= 1) return m.z == 2 ? U : m.z ? V : I;
	if (m.v == -2) return U;
	if ((t & ~1) == m.v) return V;
	if ((t & ~1) == SLJIT_UNORDERED && m.v >= SLJIT_F_EQUAL) return U;
	if (m.v >= SLJIT_F_EQUAL && t >= SLJIT_F_EQUAL && (m.v >= SLJIT_UNORDERED) == (t >= SLJIT_UNORDERED)) return I;
	return I;
}
static int op2ok(s64 op, int cmpz) /* opcode and status flags of sljit_emit_op2 */
{
	int r = V, o = (int)(op & 0xff), t = FT(op), var = (op & VMASK) != 0, z = (op & ZBIT) != 0;
	BAD(op < 0 || o < SLJIT_ADD || o > SLJIT_ROTR || (op & ~(s64)(0xff | B32 | FLAGS | (cmpz ? 0x10000 : 0))));
	UNK(t & 1);
	switch (o) {
	case SLJIT_ADD: BAD(var && t != SLJIT_CARRY && t != SLJIT_OVERFLOW); break;
	case SLJIT_SUB: BAD(var && (t < SLJIT_LESS || t > SLJIT_CARRY)); UNK(t == 11); break;
	case SLJIT_ADDC: case SLJIT_SUBC: BAD(var && t != SLJIT_CARRY); UNK(z || cmpz);
		if (m.v == -2) UNK(1); else BAD(m.v != SLJIT_CARRY || m.w32 != ((op & B32) != 0)); break;
	case SLJIT_MUL: BAD(z || cmpz || (var && t != SLJIT_OVERFLOW)); break;
	case SLJIT_ROTL: case SLJIT_ROTR: BAD(z || var || cmpz); break;
	default: BAD(var); break;
	}
	return r;
}
static int movtype(s64 o) { return o >= SLJIT_MOV && o <= SLJIT_MOV_P; }
static int op32able(s64 o) { return o >= SLJIT_MOV_U8 && o <= SLJIT_MOV_S16; }
static int simdbase(s64 t, s64 allowed, int strict) /* common bits of simd types */
{
	int r = V, rs = (int)((t >> 12) & 0x3f), es = (int)((t >> 18) & 0x3f);
	UNK(!has_simd);
	BAD(t & ~allowed & 0xffffffffll & ~(s64)0xfff000 & ~(s64)(SLJIT_SIMD_FLOAT | SLJIT_SIMD_TEST));
	BAD(rs < 3 || rs > 6);
	BAD(strict ? es >= rs : es > rs);
	return r;
}

static int classify(const call *c)
{
	const s64 *a = c->a; int r = V, k, x; s64 op;
	switch (c->f) {
	case A(enter): case A(context):
		x = (int)(a[0] & ~(s64)SLJIT_ENTER_REG_ARG & ~(s64)3);
#if (defined SLJIT_CONFIG_X86 && SLJIT_CONFIG_X86)
		x &= ~SLJIT_ENTER_USE_VEX;
#endif
		BAD(x != 0 || ((a[0] & 3) && !(a[0] & SLJIT_ENTER_REG_ARG)));
		BAD((a[0] & 3) > (a[3] & 0xff));
		BAD(((a[2] | a[3]) & ~(s64)0xffffff) != 0);
		BAD((a[2] & 0xff) > NR || (a[3] & 0xff) > SLJIT_NUMBER_OF_SAVED_REGISTERS || (a[2] & 0xff) + (a[3] & 0xff) > NR);
		BAD((a[2] >> 8 & 0xff) > NF || (a[3] >> 8 & 0xff) > SLJIT_NUMBER_OF_SAVED_FLOAT_REGISTERS || (a[2] >> 8 & 0xff) + (a[3] >> 8 & 0xff) > NF);
		BAD((a[2] >> 16 & 0xff) > NV || (a[3] >> 16 & 0xff) > SLJIT_NUMBER_OF_SAVED_VECTOR_REGISTERS || (a[2] >> 16 & 0xff) + (a[3] >> 16 & 0xff) > NV);
		BAD(a[4] < 0 || a[4] > SLJIT_MAX_LOCAL_SIZE);
		R(argtypes(a[1], (int)(a[2] & 0xff), a[0] & SLJIT_ENTER_REG_ARG ? 0 : (int)(a[3] & 0xff), (int)(a[2] >> 8 & 0xff), 0));
		return r;
	case A(ret):
		if (!m.entered) return I;
		op = a[0];
		switch (m.ret) {
		case SLJIT_ARG_TYPE_W: UNK(op == SLJIT_MOV_P); BAD(op != SLJIT_MOV_P && !(op >= SLJIT_MOV && op <= SLJIT_MOV_S32)); break;
		case SLJIT_ARG_TYPE_32: UNK(op == SLJIT_MOV_P); BAD(op != SLJIT_MOV_P && op != SLJIT_MOV32 && !(op >= SLJIT_MOV32_U8 && op <= SLJIT_MOV32_S16)); break;
		case SLJIT_ARG_TYPE_P: UNK(op == SLJIT_MOV); BAD(op != SLJIT_MOV_P && op != SLJIT_MOV); break;
		case SLJIT_ARG_TYPE_F64: BAD(op != SLJIT_MOV_F64); return comb(r, fsrc(a[1], a[2], 0));
		case SLJIT_ARG_TYPE_F32: BAD(op != SLJIT_MOV_F32); return comb(r, fsrc(a[1], a[2], 1));
		default: return I;
		}
		return comb(r, src(a[1], a[2]));
	case A(retvoid): return !m.entered ? U : m.ret ? I : V;
	case A(retto): return src(a[0], a[1]);
	case A(op0):
		op = a[0]; k = (int)(op & ~(s64)B32);
		if (op == SLJIT_NOP) return V;
		if (op == SLJIT_BREAKPOINT || op == SLJIT_ENDBR || op == SLJIT_MEMORY_BARRIER || op == SLJIT_SKIP_FRAMES_BEFORE_RETURN) return m.entered ? V : U;
		if (op == SLJIT_LMUL_UW || op == SLJIT_LMUL_SW || (k >= SLJIT_DIVMOD_UW && k <= SLJIT_DIV_SW)) return m.entered && m.sc >= 2 ? V : I;
		return I;
	case A(op1):
		op = a[0]; k = (int)(op & ~(s64)B32);
		BAD(op < 0 || k < SLJIT_MOV || k > SLJIT_REV_S32);
		if (op & B32) BAD(k == SLJIT_MOV || k == SLJIT_MOV_U32 || k == SLJIT_MOV_S32 || k == SLJIT_MOV32 || k == SLJIT_MOV_P || k == SLJIT_REV_U32 || k == SLJIT_REV_S32);
		if (k >= SLJIT_CLZ) BAD(a[3] == SLJIT_IMM);
		R(dst(a[1], a[2])); return comb(r, src(a[3], a[4]));
	case A(op2): R(op2ok(a[0], 0)); R(dst(a[1], a[2])); R(src(a[3], a[4])); return comb(r, src(a[5], a[6]));
	case A(op2u): R(op2ok(a[0], 0)); UNK(!(a[0] & FLAGS)); R(src(a[1], a[2])); return comb(r, src(a[3], a[4]));
	case A(op2r): BAD(a[0] != SLJIT_MULADD && a[0] != SLJIT_MULADD32); R(reg(a[1])); R(src(a[2], a[3])); return comb(r, src(a[4], a[5]));
	case A(shift):
		op = a[0] & ~(s64)(B32 | SLJIT_SHIFT_INTO_NON_ZERO);
		BAD(op != SLJIT_SHL && op != SLJIT_LSHR && op != SLJIT_MSHL && op != SLJIT_MLSHR);
		R(reg(a[1])); R(reg(a[2])); R(reg(a[3])); BAD(a[1] == a[3]);
		return comb(r, src(a[4], a[5]));
	case A(opsrc):
		BAD(a[0] < SLJIT_FAST_RETURN || a[0] > SLJIT_PREFETCH_ONCE);
		R(src(a[1], a[2]));
		if (a[0] <= SLJIT_SKIP_FRAMES_BEFORE_FAST_RETURN) BAD(a[1] == SLJIT_IMM); else BAD(!(a[1] & MEMBIT));
		return r;
	case A(opdst): BAD(a[0] < SLJIT_FAST_ENTER || a[0] > SLJIT_GET_RETURN_ADDRESS); return comb(r, dst(a[1], a[2]));
	case A(fop1):
		op = a[0] & ~(s64)B32; k = (int)(op & 0xff); x = (a[0] & B32) != 0;
		if (k == SLJIT_CMP_F64) {
			BAD(op < 0 || (op & ~(s64)(0xff | VMASK))); BAD(FT(op) < SLJIT_F_EQUAL || FT(op) > SLJIT_ORDERED_LESS_EQUAL); UNK(FT(op) & 1);
			R(fsrc(a[1], a[2], x)); return comb(r, fsrc(a[3], a[4], x));
		}
		BAD(op < SLJIT_MOV_F64 || op > SLJIT_ABS_F64);
		if (op >= SLJIT_CONV_SW_FROM_F64 && op <= SLJIT_CONV_S32_FROM_F64) { R(dst(a[1], a[2])); return comb(r, fsrc(a[3], a[4], x)); }
		if (op >= SLJIT_CONV_F64_FROM_SW && op <= SLJIT_CONV_F64_FROM_U32) { R(fsrc(a[1], a[2], x)); return comb(r, src(a[3], a[4])); }
		R(fsrc(a[1], a[2], x));
		if (op == SLJIT_CONV_F64_FROM_F32) { UNK(fsrc(a[3], a[4], 0) != fsrc(a[3], a[4], 1) || fsrc(a[1], a[2], 0) != fsrc(a[1], a[2], 1)); }
		return comb(r, fsrc(a[3], a[4], x));
	case A(fop2):
		op = a[0] & ~(s64)B32; x = (a[0] & B32) != 0;
		BAD(op < SLJIT_ADD_F64 || op > SLJIT_DIV_F64);
		R(fsrc(a[1], a[2], x)); R(fsrc(a[3], a[4], x)); return comb(r, fsrc(a[5], a[6], x));
	case A(fop2r):
		x = (a[0] & B32) != 0; BAD((a[0] & ~(s64)B32) != SLJIT_COPYSIGN_F64);
		R(freg(a[1], x)); R(fsrc(a[2], a[3], x)); return comb(r, fsrc(a[4], a[5], x));
	case A(fset32): return freg(a[0], 1);
	case A(fset64): return freg(a[0], 0);
	case A(fcopy):
		x = (a[0] & B32) != 0; op = a[0] & ~(s64)B32;
		BAD(op != SLJIT_COPY_TO_F64 && op != SLJIT_COPY_FROM_F64);
		R(freg(a[1], x));
#if !W64
		if (a[2] > 0xff && (a[2] & 0x8080)) return U; /* bits outside of the fields of a pair */
		if (!x && a[2] > 0xff && a[2] <= 0x7fff) { R(reg(a[2] & 0x7f)); R(reg(a[2] >> 8)); if (op == SLJIT_COPY_FROM_F64) BAD((a[2] & 0x7f) == a[2] >> 8); return r; }
#endif
		return comb(r, reg(a[2]));
	case A(label): return V;
	case A(alabel): return a[0] < SLJIT_LABEL_ALIGN_1 || a[0] > SLJIT_LABEL_ALIGN_16 ? I : V;
	case A(jump):
		op = a[0] & ~(s64)SLJIT_REWRITABLE_JUMP;
		if (op < 0 || op > SLJIT_FAST_CALL) return I;
		if (op >= SLJIT_JUMP) return m.entered ? V : U;
		return cond(op);
	case A(call): case A(icall):
		op = a[0] & ~(s64)(SLJIT_CALL_RETURN | (c->f == A(call) ? SLJIT_REWRITABLE_JUMP : 0));
		BAD(op != SLJIT_CALL && op != SLJIT_CALL_REG_ARG);
		if (!m.entered) return I;
		R(argtypes(a[1], m.sc, 0, m.fs, 1));
		if (a[0] & SLJIT_CALL_RETURN) { BAD((a[1] & 7) != m.ret); BAD((op == SLJIT_CALL_REG_ARG) != ((m.opts & SLJIT_ENTER_REG_ARG) != 0)); }
		if (c->f == A(icall)) R(src(a[2], a[3]));
		return r;
	case A(cmp):
		op = a[0] & ~(s64)(SLJIT_REWRITABLE_JUMP | B32); BAD(op < 0 || op > SLJIT_SIG_LESS_EQUAL);
		R(src(a[1], a[2])); return comb(r, src(a[3], a[4]));
	case A(fcmp):
		op = a[0] & ~(s64)(SLJIT_REWRITABLE_JUMP | B32); BAD(op < SLJIT_F_EQUAL || op > SLJIT_ORDERED_LESS_EQUAL); x = (a[0] & B32) != 0;
		R(fsrc(a[1], a[2], x)); return comb(r, fsrc(a[3], a[4], x));
	case A(cmpz): R(op2ok(a[0], 1) == I ? I : op2ok(a[0], 1)); R(dst(a[1], a[2])); R(src(a[3], a[4])); return comb(r, src(a[5], a[6]));
	case A(ijump): BAD(a[0] != SLJIT_JUMP && a[0] != SLJIT_FAST_CALL); return comb(r, src(a[1], a[2]));
	case A(opflags):
		op = a[0] & ~(s64)B32;
		if (a[0] == SLJIT_MOV || a[0] == SLJIT_MOV32) ; else BAD((op & ~(s64)ZBIT) < SLJIT_AND || (op & ~(s64)ZBIT) > SLJIT_XOR);
		R(cond(a[3])); return comb(r, dst(a[1], a[2]));
	case A(select): if (!m.entered) return I; R(cond(a[0] & ~(s64)B32)); R(reg(a[1])); R(src(a[2], a[3])); return comb(r, reg(a[4]));
	case A(fselect): if (!m.entered) return I; x = (a[0] & B32) != 0; R(cond(a[0] & ~(s64)B32)); R(freg(a[1], x)); R(fsrc(a[2], a[3], x)); return comb(r, freg(a[4], x));
	case A(mem):
		op = a[0]; k = (int)(op & 0xff); x = (int)(op & (SLJIT_MEM_UNALIGNED | SLJIT_MEM_ALIGNED_16 | SLJIT_MEM_ALIGNED_32));
		BAD(op < 0 || !movtype(k) || (op & ~(s64)(0xff | B32 | SLJIT_MEM_STORE | SLJIT_MEM_UNALIGNED | SLJIT_MEM_ALIGNED_16 | SLJIT_MEM_ALIGNED_32)));
		BAD((op & B32) && !op32able(k));
		BAD((x & (x - 1)) != 0);
		BAD((x & SLJIT_MEM_ALIGNED_16) && op32able(k));
		BAD((x & SLJIT_MEM_ALIGNED_32) && k != SLJIT_MOV && k != SLJIT_MOV_P);
		if (a[1] > 0xff && (a[1] & 0x8080)) return U;
		if (a[1] > 0xff && a[1] <= 0x7fff) {
			BAD(k != SLJIT_MOV); R(reg(a[1] & 0x7f)); R(reg(a[1] >> 8));
			if ((a[1] & 0x7f) == a[1] >> 8) R(op & SLJIT_MEM_STORE ? U : I);
		} else { UNK(!x); R(reg(a[1])); }
		return comb(r, mem(a[2], a[3]));
	case A(memup):
		op = a[0]; k = (int)(op & 0xff);
		BAD(op < 0 || !movtype(k) || (op & ~(s64)(0xff | B32 | SLJIT_MEM_STORE | SLJIT_MEM_POST | SLJIT_MEM_SUPP)));
		BAD((op & B32) && !op32able(k));
		R(reg(a[1])); R(mem(a[2], a[3])); BAD(!(a[2] & 0x7f) || (a[2] & 0x7f) == SLJIT_SP || (a[2] & 0x7f) == a[1]);
		return r;
	case A(fmem):
		op = a[0]; x = (int)(op & (SLJIT_MEM_UNALIGNED | SLJIT_MEM_ALIGNED_16 | SLJIT_MEM_ALIGNED_32)); k = (op & B32) != 0;
		BAD(op < 0 || (op & 0xff) != SLJIT_MOV_F64 || (op & ~(s64)(0xff | B32 | SLJIT_MEM_STORE | SLJIT_MEM_UNALIGNED | SLJIT_MEM_ALIGNED_16 | SLJIT_MEM_ALIGNED_32)));
		BAD((x & (x - 1)) != 0); UNK(!x || (k && (x & SLJIT_MEM_ALIGNED_32)));
		R(freg(a[1], k)); return comb(r, mem(a[2], a[3]));
	case A(fmemup):
		op = a[0]; k = (op & B32) != 0;
		BAD(op < 0 || (op & 0xff) != SLJIT_MOV_F64 || (op & ~(s64)(0xff | B32 | SLJIT_MEM_STORE | SLJIT_MEM_POST | SLJIT_MEM_SUPP)));
		R(freg(a[1], k)); R(mem(a[2], a[3])); BAD(!(a[2] & 0x7f) || (a[2] & 0x7f) == SLJIT_SP);
		return r;
	case A(vmov):
		R(simdbase(a[0], SLJIT_SIMD_STORE | 0x3f000000, 0)); k = (int)((a[0] >> 24) & 0x3f);
		BAD(k > (a[2] & MEMBIT ? (int)((a[0] >> 12) & 0x3f) : 0));
		R(vreg(a[1], a[0])); return comb(r, vsrc(a[2], a[3], a[0]));
	case A(vrep):
		R(simdbase(a[0], 0, 1)); R(vreg(a[1], a[0])); k = (int)((a[0] >> 18) & 0x3f);
		if (a[0] & SLJIT_SIMD_FLOAT) { if (a[2] == SLJIT_IMM) BAD(a[3] != 0); else R(fsrc(a[2], a[3], k == 2)); }
		else if (a[2] != SLJIT_IMM) R(dst(a[2], a[3]));
		return r;
	case A(vlmov):
		R(simdbase(a[0], SLJIT_SIMD_STORE | SLJIT_SIMD_LANE_ZERO | SLJIT_SIMD_LANE_SIGNED | B32, 1)); k = (int)((a[0] >> 18) & 0x3f);
		BAD((a[0] & SLJIT_SIMD_STORE) && (a[0] & SLJIT_SIMD_LANE_ZERO)); BAD(!(a[0] & SLJIT_SIMD_STORE) && (a[0] & SLJIT_SIMD_LANE_SIGNED));
		BAD((a[0] & SLJIT_SIMD_FLOAT) && (a[0] & (SLJIT_SIMD_LANE_SIGNED | B32))); UNK((a[0] & B32) && k > 2);
		R(vreg(a[1], a[0]));
		x = (int)((a[0] >> 12) & 0x3f); if (x <= 6 && k <= x) BAD(a[2] < 0 || a[2] >= (1 << (x - k)));
		if (a[0] & SLJIT_SIMD_FLOAT) R(fsrc(a[3], a[4], k == 2));
		else if ((a[0] & SLJIT_SIMD_STORE) || a[3] != SLJIT_IMM) R(dst(a[3], a[4]));
		return r;
	case A(vlrep):
		R(simdbase(a[0], 0, 1)); R(vreg(a[1], a[0])); R(vreg(a[2], a[0])); k = (int)((a[0] >> 18) & 0x3f);
		x = (int)((a[0] >> 12) & 0x3f); if (x <= 6 && k <= x) BAD(a[3] < 0 || a[3] >= (1 << (x - k)));
		return r;
	case A(vext):
		R(simdbase(a[0], SLJIT_SIMD_EXTEND_SIGNED | 0x3f000000, 0)); BAD((a[0] & SLJIT_SIMD_FLOAT) && (a[0] & SLJIT_SIMD_EXTEND_SIGNED));
		k = (int)((a[0] >> 24) & 0x3f); BAD(k <= (int)((a[0] >> 18) & 0x3f) || k >= (int)((a[0] >> 12) & 0x3f));
		R(vreg(a[1], a[0])); return comb(r, vsrc(a[2], a[3], a[0]));
	case A(vsign):
		R(simdbase(a[0], SLJIT_SIMD_STORE | B32, 1)); BAD(!(a[0] & SLJIT_SIMD_STORE));
		R(vreg(a[1], a[0])); return comb(r, dst(a[2], a[3]));
	case A(vop2):
		R(simdbase(a[0] & ~(s64)0xff, 0x3f000000, 0)); op = a[0] & 0xff; BAD(op < SLJIT_SIMD_OP2_AND || op > SLJIT_SIMD_OP2_SHUFFLE);
		UNK(op == SLJIT_SIMD_OP2_SHUFFLE && (((a[0] >> 18) & 0x3f) || (a[0] & SLJIT_SIMD_FLOAT)));
		k = (int)((a[0] >> 24) & 0x3f); BAD(k > (a[3] & MEMBIT ? (int)((a[0] >> 12) & 0x3f) : 0));
		R(vreg(a[1], a[0])); R(vreg(a[2], a[0])); return comb(r, vsrc(a[3], a[4], a[0]));
	case A(aload): case A(astore):
		UNK(!has_atomic);
		op = a[0] & ~(s64)(SLJIT_ATOMIC_TEST | SLJIT_ATOMIC_USE_CAS | SLJIT_ATOMIC_USE_LS); k = (int)(op & 0xff);
		BAD((a[0] & SLJIT_ATOMIC_USE_CAS) && (a[0] & SLJIT_ATOMIC_USE_LS));
		if (c->f == A(astore)) { BAD((op & VMASK) && FT(op) != SLJIT_ATOMIC_STORED); UNK(op & ZBIT); } else UNK(op & FLAGS);
		op &= ~(s64)FLAGS; BAD(op < 0 || !movtype(k) || (op & ~(s64)(0xff | B32)) || ((op & B32) && !op32able(k)));
		R(reg(a[1])); R(reg(a[2])); BAD(IS_VIRT(a[2]));
		if (c->f == A(astore)) { R(reg(a[3])); if (a[1] == a[3] && !(a[0] & SLJIT_ATOMIC_USE_LS)) R(I); UNK(a[1] == a[3] && (a[0] & SLJIT_ATOMIC_USE_LS)); UNK(a[1] == a[2] || a[3] == a[2]); }
		else UNK(a[1] == a[2]);
		return r;
	case A(lbase): return dst(a[0], a[1]);
	case A(const): op = a[0]; BAD(op != SLJIT_MOV && op != SLJIT_MOV32 && op != SLJIT_MOV_S32 && op != SLJIT_MOV_U8 && op != SLJIT_MOV32_U8); return comb(r, dst(a[1], a[2]));
	case A(opaddr): BAD(a[0] < SLJIT_MOV_ADDR || a[0] > SLJIT_ADD_ABS_ADDR); return comb(r, dst(a[1], a[2]));
	case A(custom): /* size, alignment of the instruction data (-1: no data) */
		UNK(a[1] < -1 || a[1] > 15); BAD(a[1] == -1);
		if (!m.entered) UNK(1);
#if (defined SLJIT_CONFIG_X86 && SLJIT_CONFIG_X86)
		BAD(a[0] < 1 || a[0] > 15);
#elif (defined SLJIT_CONFIG_S390X && SLJIT_CONFIG_S390X)
		BAD(a[0] != 2 && a[0] != 4 && a[0] != 6);
#elif (defined SLJIT_CONFIG_ARM_THUMB2 && SLJIT_CONFIG_ARM_THUMB2) || (defined SLJIT_CONFIG_RISCV && SLJIT_CONFIG_RISCV)
		BAD(!(a[0] == 2 && !(a[1] & 1)) && !(a[0] == 4 && !(a[1] & 3)));
#else
		BAD(a[0] != 4 || (a[1] & 3));
#endif
		return r;
	case A(setflags): UNK(a[0] < 0 || (a[0] & ~(s64)(B32 | FLAGS | 0xf)) || (FT(a[0]) & 1) || FT(a[0]) > SLJIT_CARRY || (a[0] & 0xf)); return r;
	case A(regidx):
		if (a[0] == SLJIT_GP_REGISTER) { if (a[1] == SLJIT_SP) return V; k = a[1] >= 1 && a[1] <= NR; return k ? V : a[1] < 1 || a[1] > SLJIT_SP + 8 ? I : U; }
		if (a[0] == SLJIT_FLOAT_REGISTER) return a[1] >= 1 && a[1] <= NF ? V : a[1] < 1 || a[1] > NF + 8 ? I : U;
		if (a[0] >= SLJIT_SIMD_REG_64 && a[0] <= SLJIT_SIMD_REG_512 && !(a[0] & 0xfff)) return a[1] >= 1 && a[1] <= NV && a[1] <= NF ? V : a[1] < 1 || a[1] > NV + NF + 8 ? I : U;
		return U;
	case A(gen): /* options, leave the target of jumps unset */
		BAD(a[0] & ~(s64)(SLJIT_GENERATE_CODE_BUFFER | SLJIT_GENERATE_CODE_NO_CONTEXT)); UNK(a[0] & SLJIT_GENERATE_CODE_BUFFER);
		BAD(a[1] && m.unresolved); BAD(!m.emitted && !m.unresolved); UNK(m.emitted == 2);
		return r;
	}
	return U;
}
/* effect of an accepted call */
static void advance(const call *c)
{
	const s64 *a = c->a; s64 op;
	switch (c->f) { /* calls which emit an instruction on every target */
	case A(enter): case A(op2r): case A(op2): case A(fset32): case A(fset64): case A(jump): case A(call): case A(cmp): case A(fcmp): case A(cmpz): case A(ijump): case A(icall): case A(lbase): case A(const): case A(opaddr): case A(custom): case A(ret): case A(retvoid): case A(retto): m.emitted = 1; break;
	case A(context): case A(label): case A(setflags): case A(regidx): break;
	default: if (!m.emitted) m.emitted = 2; break;
	}
	switch (c->f) {
	case A(enter): case A(context):
		m.entered = 1; m.opts = (int)a[0]; m.ret = (int)(a[1] & 7);
		m.sc = a[2] & 0xff; m.sv = a[3] & 0xff; m.fs = a[2] >> 8 & 0xff; m.fv = a[3] >> 8 & 0xff; m.vs = a[2] >> 16 & 0xff; m.vv = a[3] >> 16 & 0xff; m.local = (int)a[4];
		m.z = 0; m.v = -1; break;
	case A(op0): if ((a[0] >= SLJIT_LMUL_UW && (a[0] & 0xff) <= SLJIT_DIV_SW)) m.z = 0, m.v = -1; else if (a[0] == SLJIT_SKIP_FRAMES_BEFORE_RETURN) m.z = 2, m.v = -2; break;
	case A(ret): case A(retvoid): case A(retto): m.z = 2; m.v = -2; break;
	case A(op1): if ((a[0] & 0xff) >= SLJIT_CLZ) m.z = 2, m.v = -2; break;
	case A(op2): case A(op2u): m.z = (a[0] & ZBIT) != 0; m.v = a[0] & VMASK ? (int)FT(a[0]) : -1; m.w32 = (a[0] & B32) != 0; break;
	case A(op2r): m.z = 0; m.v = -1; break;
	case A(shift): case A(opsrc): case A(opdst): case A(fop2): case A(fop2r): case A(fset32): case A(fset64): case A(fcopy): case A(lbase): m.z = 2; m.v = -2; break;
	case A(fop1): if ((a[0] & 0xff) == SLJIT_CMP_F64) { m.z = 0; m.v = FT(a[0]); } else if ((a[0] & 0xff) != SLJIT_MOV_F64) { m.z = 2; m.v = -2; } break;
	case A(label): case A(alabel): m.z = 0; m.v = -1; break;
	case A(jump): op = a[0] & 0xff; m.unresolved++; if (op >= SLJIT_JUMP) m.z = 2, m.v = -2; else if (m.v == SLJIT_CARRY && op > 1) m.z = 2, m.v = -2; break;
	case A(call): m.unresolved++; /* fallthrough */
	case A(icall): case A(ijump): m.z = 2; m.v = -2; break;
	case A(cmp): m.unresolved++; m.z = 0; m.v = -1; break;
	case A(fcmp): m.unresolved++; m.z = 0; m.v = -2; break;
	case A(cmpz): m.unresolved++; m.z = 2; m.v = a[0] & VMASK ? (int)FT(a[0]) : -1; m.w32 = (a[0] & B32) != 0; break;
	case A(opflags): if ((a[0] & 0xff) >= SLJIT_ADD) { m.z = (a[0] & ZBIT) != 0; m.v = -1; m.w32 = (a[0] & B32) != 0; } break;
	case A(select): case A(fselect): if (m.v == SLJIT_CARRY) m.z = 2, m.v = -2; break;
	case A(aload): m.z = 2; m.v = -2; break;
	case A(astore): m.z = a[0] & ZBIT ? 2 : 0; m.v = a[0] & VMASK ? SLJIT_ATOMIC_STORED : -1; if (a[0] & SLJIT_ATOMIC_TEST) m.z = 2, m.v = -2; break;
	case A(opaddr): m.unresolved++; break;
	case A(custom): m.z = 2; m.v = -2; break;
	case A(setflags): m.z = (a[0] & ZBIT) != 0; m.v = a[0] & VMASK ? (int)FT(a[0]) : -1; m.w32 = (a[0] & B32) != 0; break;
	}
}
static void model_reset(void) { memset(&m, 0, sizeof(m)); m.v = -1; }

/* ---------- the real calls ---------- */
static int gonly;
static u64 mix(u64 x) { x ^= x >> 31; x *= 0x9e3779b97f4a7c15ull; x ^= x >> 29; x *= 0xbf58476d1ce4e5b9ull; return x ^ (x >> 32); }
static struct sljit_compiler *C;
static struct sljit_jump *jumps[MAXC]; static u64 jseed[MAXC], cseed; static int njumps;
static void *code;
#define P(x) ((sljit_s32)(x))
#define W(x) ((sljit_sw)(x))
/* result of a pointer returning function as an error code */
static int ptr_res(void *p) { if (p) return SLJIT_SUCCESS; return C->error ? C->error : -77; }
static int jmp(struct sljit_jump *j) { if (j && njumps < MAXC) { jseed[njumps] = cseed; jumps[njumps++] = j; } return ptr_res(j); }
static struct sljit_label *labels[MAXC]; static int nlabels;
static int lab(struct sljit_label *l) { if (l && nlabels < MAXC) labels[nlabels++] = l; return ptr_res(l); }
static int invoke(const call *c)
{
	const s64 *a = c->a; static u8 __attribute__((aligned(16))) ibuf[32]; union { u32 i; float f; } f32; union { u64 i; double f; } f64; int k;
	cseed = fnv(14695981039346656037ull, c, sizeof(*c));
	switch (c->f) {
	case A(enter): return sljit_emit_enter(C, P(a[0]), P(a[1]), P(a[2]), P(a[3]), P(a[4]));
	case A(context): return sljit_set_context(C, P(a[0]), P(a[1]), P(a[2]), P(a[3]), P(a[4]));
	case A(ret): return sljit_emit_return(C, P(a[0]), P(a[1]), W(a[2]));
	case A(retvoid): return sljit_emit_return_void(C);
	case A(retto): return sljit_emit_return_to(C, P(a[0]), W(a[1]));
	case A(op0): return sljit_emit_op0(C, P(a[0]));
	case A(op1): return sljit_emit_op1(C, P(a[0]), P(a[1]), W(a[2]), P(a[3]), W(a[4]));
	case A(op2): return sljit_emit_op2(C, P(a[0]), P(a[1]), W(a[2]), P(a[3]), W(a[4]), P(a[5]), W(a[6]));
	case A(op2u): return sljit_emit_op2u(C, P(a[0]), P(a[1]), W(a[2]), P(a[3]), W(a[4]));
	case A(op2r): return sljit_emit_op2r(C, P(a[0]), P(a[1]), P(a[2]), W(a[3]), P(a[4]), W(a[5]));
	case A(shift): return sljit_emit_shift_into(C, P(a[0]), P(a[1]), P(a[2]), P(a[3]), P(a[4]), W(a[5]));
	case A(opsrc): return sljit_emit_op_src(C, P(a[0]), P(a[1]), W(a[2]));
	case A(opdst): return sljit_emit_op_dst(C, P(a[0]), P(a[1]), W(a[2]));
	case A(fop1): return sljit_emit_fop1(C, P(a[0]), P(a[1]), W(a[2]), P(a[3]), W(a[4]));
	case A(fop2): return sljit_emit_fop2(C, P(a[0]), P(a[1]), W(a[2]), P(a[3]), W(a[4]), P(a[5]), W(a[6]));
	case A(fop2r): return sljit_emit_fop2r(C, P(a[0]), P(a[1]), P(a[2]), W(a[3]), P(a[4]), W(a[5]));
	case A(fset32): f32.i = (u32)a[1]; return sljit_emit_fset32(C, P(a[0]), f32.f);
	case A(fset64): f64.i = (u64)a[1]; return sljit_emit_fset64(C, P(a[0]), f64.f);
	case A(fcopy): return sljit_emit_fcopy(C, P(a[0]), P(a[1]), P(a[2]));
	case A(label): return lab(sljit_emit_label(C));
	case A(alabel): return lab(sljit_emit_aligned_label(C, P(a[0]), NULL));
	case A(jump): return jmp(sljit_emit_jump(C, P(a[0])));
	case A(call): return jmp(sljit_emit_call(C, P(a[0]), P(a[1])));
	case A(cmp): return jmp(sljit_emit_cmp(C, P(a[0]), P(a[1]), W(a[2]), P(a[3]), W(a[4])));
	case A(fcmp): return jmp(sljit_emit_fcmp(C, P(a[0]), P(a[1]), W(a[2]), P(a[3]), W(a[4])));
	case A(cmpz): return jmp(sljit_emit_op2cmpz(C, P(a[0]), P(a[1]), W(a[2]), P(a[3]), W(a[4]), P(a[5]), W(a[6])));
	case A(ijump): return sljit_emit_ijump(C, P(a[0]), P(a[1]), W(a[2]));
	case A(icall): return sljit_emit_icall(C, P(a[0]), P(a[1]), P(a[2]), W(a[3]));
	case A(opflags): return sljit_emit_op_flags(C, P(a[0]), P(a[1]), W(a[2]), P(a[3]));
	case A(select): return sljit_emit_select(C, P(a[0]), P(a[1]), P(a[2]), W(a[3]), P(a[4]));
	case A(fselect): return sljit_emit_fselect(C, P(a[0]), P(a[1]), P(a[2]), W(a[3]), P(a[4]));
	case A(mem): return sljit_emit_mem(C, P(a[0]), P(a[1]), P(a[2]), W(a[3]));
	case A(memup): return sljit_emit_mem_update(C, P(a[0]), P(a[1]), P(a[2]), W(a[3]));
	case A(fmem): return sljit_emit_fmem(C, P(a[0]), P(a[1]), P(a[2]), W(a[3]));
	case A(fmemup): return sljit_emit_fmem_update(C, P(a[0]), P(a[1]), P(a[2]), W(a[3]));
	case A(vmov): return sljit_emit_simd_mov(C, P(a[0]), P(a[1]), P(a[2]), W(a[3]));
	case A(vrep): return sljit_emit_simd_replicate(C, P(a[0]), P(a[1]), P(a[2]), W(a[3]));
	case A(vlmov): return sljit_emit_simd_lane_mov(C, P(a[0]), P(a[1]), P(a[2]), P(a[3]), W(a[4]));
	case A(vlrep): return sljit_emit_simd_lane_replicate(C, P(a[0]), P(a[1]), P(a[2]), P(a[3]));
	case A(vext): return sljit_emit_simd_extend(C, P(a[0]), P(a[1]), P(a[2]), W(a[3]));
	case A(vsign): return sljit_emit_simd_sign(C, P(a[0]), P(a[1]), P(a[2]), W(a[3]));
	case A(vop2): return sljit_emit_simd_op2(C, P(a[0]), P(a[1]), P(a[2]), P(a[3]), W(a[4]));
	case A(aload): return sljit_emit_atomic_load(C, P(a[0]), P(a[1]), P(a[2]));
	case A(astore): return sljit_emit_atomic_store(C, P(a[0]), P(a[1]), P(a[2]), P(a[3]));
	case A(lbase): return sljit_get_local_base(C, P(a[0]), W(a[1]), W(a[2]));
	case A(const): return ptr_res(sljit_emit_const(C, P(a[0]), P(a[1]), W(a[2]), W(a[3])));
	case A(opaddr): return jmp(sljit_emit_op_addr(C, P(a[0]), P(a[1]), W(a[2])));
	case A(custom): return sljit_emit_op_custom(C, a[1] == -1 ? NULL : ibuf + (a[1] & 15), (sljit_u32)a[0]);
	case A(setflags): sljit_set_current_flags(C, P(a[0])); return C->error;
	case A(regidx): k = sljit_get_register_index(P(a[0]), P(a[1])); return k == -2 ? SLJIT_ERR_BAD_ARGUMENT : k < -2 || k > 255 ? -78 : SLJIT_SUCCESS;
	case A(gen):
		if (!a[1] && njumps && !C->error) {
			struct sljit_label *l = gonly && nlabels && (a[2] & 1) ? labels[mix((u64)a[2]) % (u64)nlabels] : sljit_emit_label(C);
			for (k = 0; k < njumps; k++) {
				/* profile g: targets at all distances, the code is never executed */
				u64 h = mix((u64)a[2] + jseed[k]);
				if (gonly && h % 3 == 1 && nlabels) sljit_set_label(jumps[k], labels[(h >> 8) % (u64)nlabels]);
				else if (gonly && h % 3 == 2) {
					u64 t = h >> 20; int s = (int)((h >> 4) % 45);
					t = h >> 17 & 1 ? ((u64)1 << (s + 12)) + (u64)((s64)(h >> 40 & 0x3fff) - 0x2000) : ((t << 20) ^ t) >> s;
					sljit_set_target(jumps[k], (uw)t & ~(uw)3);
				}
				else sljit_set_label(jumps[k], l);
			}
		}
		code = sljit_generate_code(C, P(a[0]), NULL);
		return code ? (C->error == SLJIT_ERR_COMPILED ? SLJIT_SUCCESS : -79) : C->error ? C->error : -77;
	}
	return -80;
}
static int may_be_unsupported(const call *c)
{
	switch (c->f) {
	case A(memup): case A(fmemup): case A(vmov): case A(vrep): case A(vlmov): case A(vlrep): case A(vext): case A(vsign): case A(vop2): case A(aload): case A(astore): return 1;
	case A(op0): return c->a[0] == SLJIT_MEMORY_BARRIER;
	}
	return 0;
}
static void show(const call *c, char *b, size_t n) { int k, l = snprintf(b, n, "%s", fn[c->f].n); for (k = 0; k < fn[c->f].na; k++) l += snprintf(b + l, n - (size_t)l, " %lld", (long long)c->a[k]); }
static int first_bad, run_n;
static int run_case(void)
{
	int n, k, r = 0, bad = 0; char d[200]; const char *what = "";
	C = sljit_create_compiler(NULL); if (!C) { fprintf(stderr, "INFRA: no compiler\n"); exit(99); }
	model_reset(); njumps = 0; nlabels = 0; code = NULL; first_bad = -1;
	for (n = 0; n < nc && !r; n++) {
		call *c = &cs[n]; uw size = C->size; int cl, res, query;
		run_n = n; pg->phase = (u64)n;
		cl = bad ? (c->f == F_regidx || c->f == F_setflags ? U : I) : classify(c);
		if (cl == U) { if (bad) continue; r = 3; break; }
		res = invoke(c);
		query = c->f == F_regidx;
		show(c, d, sizeof(d));
		if (cl == V) {
			if (res == SLJIT_ERR_UNSUPPORTED && may_be_unsupported(c)) { if (C->error) { if (!gonly) pg->extra[4]++; break; } m.z = 2; m.v = -2; continue; }
			if (res != SLJIT_SUCCESS && gonly) { r = 3; break; }
			if (res != SLJIT_SUCCESS) { snprintf(msg, sizeof(msg), "call %d (%s) is valid, but its result is %d", n, d, res); r = 10; break; }
			if (!gonly) pg->extra[0]++;
			advance(c);
			if (c->f == A(gen)) break;
		} else {
			if (res != SLJIT_ERR_BAD_ARGUMENT) { snprintf(msg, sizeof(msg), "call %d (%s) %s, but its result is %d", n, d, bad ? "follows an error" : "is invalid", res); r = 10; break; }
			if (query) { pg->extra[2]++; continue; }
			if (sljit_get_compiler_error(C) != SLJIT_ERR_BAD_ARGUMENT) { snprintf(msg, sizeof(msg), "call %d (%s): the error did not stay", n, d); r = 10; break; }
			if (C->size != size && c->f != A(gen)) { snprintf(msg, sizeof(msg), "call %d (%s): code was emitted for a refused call", n, d); r = 10; break; }
			if (!bad) { first_bad = n; pg->extra[2]++; pg->extra[8 + c->f % 48]++; }
			else pg->extra[3]++;
			bad = 1;
		}
	}
	if (!r && code) pg->extra[gonly ? 55 : 1]++;
	if (!r && code && xslack()) FAIL("the generated code was written beyond the end of its block");
	if (!r && code && C->executable_size > xsize) FAIL("the size of the generated code (%lu) is larger than its block (%lu)", (unsigned long)C->executable_size, (unsigned long)xsize);
	if (code) sljit_free_code(code, NULL);
	if (!r && (xbad || xblk)) FAIL("wrong use of executable memory %d", xbad);
	xblk = NULL; xbad = 0;
	sljit_free_compiler(C); C = NULL; (void)k; (void)what;
	return r;
}

/* ---------- generator ---------- */
static int g_reg(void) { int n = m.sc + m.sv, k; if (!n) return 1; k = (int)rn((u32)n); return k < m.sc ? k + 1 : NR - (k - m.sc); }
static int g_basereg(void) { int k = 0, r; do r = g_reg(); while (IS_VIRT(r) && k++ < 20); return r; }
static int g_freg(int is32)
{
	int n = m.fs + m.fv, k, r; if (!n) return 1;
	k = (int)rn((u32)n); r = k < m.fs ? k + 1 : NF - (k - m.fs);
#if (defined SLJIT_CONFIG_ARM_32 && SLJIT_CONFIG_ARM_32) || (defined SLJIT_CONFIG_MIPS_32 && SLJIT_CONFIG_MIPS_32)
	if (is32 && has_pair && rp(30)) r = SLJIT_F64_SECOND(r);
#endif
	(void)is32;
	return r;
}
static int g_vreg(void) { int n = m.vs + m.vv, k; if (!n) return 1; k = (int)rn((u32)n); return k < m.vs ? k + 1 : NV - (k - m.vs); }
static s64 g_w(void) { return W64 ? (s64)rval() : (s64)(s32)rval(); }
static void g_mem(s64 *p)
{
	switch (rn(8)) {
	case 0: p[0] = SLJIT_MEM0(); p[1] = g_w(); break;
	case 1: case 2: if (m.local > 0) { p[0] = SLJIT_MEM1(SLJIT_SP); p[1] = rp(20) ? m.local - 1 : (int)rn((u32)m.local); break; } /* fallthrough */
	case 3: case 4: case 5: p[0] = SLJIT_MEM1(g_basereg()); p[1] = rp(50) ? rrange(-300, 300) : g_w(); break;
	default: p[0] = SLJIT_MEM2(g_basereg(), g_basereg()); p[1] = (int)rn(4); break;
	}
}
static void g_dst(s64 *p) { if (rp(60)) p[0] = g_reg(), p[1] = 0; else g_mem(p); }
static void g_src(s64 *p) { if (rp(30)) p[0] = SLJIT_IMM, p[1] = g_w(); else g_dst(p); }
static void g_fsrc(s64 *p, int is32) { if (rp(60)) p[0] = g_freg(is32), p[1] = 0; else g_mem(p); }
static void g_vsrc(s64 *p) { if (rp(50)) p[0] = g_vreg(), p[1] = 0; else g_mem(p); }
static s64 g_args(int sc, int sv, int fs, int regarg, int call_, int ret)
{
	s64 t = 0; int n = (int)rn(5), k, words = 0, saved = 0, fl = 0;
	for (k = 0; k < n; k++) {
		int ty, s = 0;
		if (fs > fl && rp(35)) { ty = rp(50) ? SLJIT_ARG_TYPE_F64 : SLJIT_ARG_TYPE_F32; fl++; }
		else {
			ty = rrange(SLJIT_ARG_TYPE_W, SLJIT_ARG_TYPE_P);
			if (call_) { if (words >= sc) break; }
			else if (!regarg && saved < sv && (words >= sc || rp(50))) saved++;
			else if (words < sc) s = 8;
			else break;
			words++;
		}
		t |= (s64)(ty | s) << (4 * (k + 1));
	}
	if (ret < 0) { ret = (int)rn(SLJIT_ARG_TYPE_F32 + 1); if ((ret >= SLJIT_ARG_TYPE_F64 && !fs) || (ret && ret < SLJIT_ARG_TYPE_F64 && !sc)) ret = 0; }
	return t | ret;
}
static void g_counts(int n, int nsaved, int *a, int *b, int few) { if (few) { *a = rrange(0, n < 4 ? n : 4); *b = rrange(0, 2); } else { *a = (int)rn((u32)n + 1); *b = (int)rn((u32)nsaved + 1); } if (rp(15)) *a = n; if (rp(15)) *b = nsaved; if (*b > nsaved) *b = nsaved; if (*a + *b > n) { if (rp(50)) *a = n - *b; else { *b = n - *a; } } }
static void g_enter(call *c)
{
	int sc, sv, fs, fv, vs = 0, vv = 0;
	c->f = rp(75) ? A(enter) : A(context);
	g_counts(NR, SLJIT_NUMBER_OF_SAVED_REGISTERS, &sc, &sv, rp(40)); g_counts(NF, SLJIT_NUMBER_OF_SAVED_FLOAT_REGISTERS, &fs, &fv, rp(40));
	if (has_simd || rp(30)) g_counts(NV, SLJIT_NUMBER_OF_SAVED_VECTOR_REGISTERS, &vs, &vv, rp(40));
	if (rp(70) && sc < 2 && sv < NR - 1) { sc = 2; if (sc + sv > NR) sv = NR - sc; }
	c->a[0] = 0;
	if (rp(25)) { c->a[0] = SLJIT_ENTER_REG_ARG; if (rp(60)) c->a[0] |= rrange(0, sv < 3 ? sv : 3); }
#if (defined SLJIT_CONFIG_X86 && SLJIT_CONFIG_X86)
	if (rp(30)) c->a[0] |= SLJIT_ENTER_USE_VEX;
#endif
	c->a[1] = g_args(sc, sv, fs, (c->a[0] & SLJIT_ENTER_REG_ARG) != 0, 0, -1);
	c->a[2] = sc | SLJIT_ENTER_FLOAT(fs) | SLJIT_ENTER_VECTOR(vs); c->a[3] = sv | SLJIT_ENTER_FLOAT(fv) | SLJIT_ENTER_VECTOR(vv);
	c->a[4] = rp(20) ? 0 : rp(20) ? SLJIT_MAX_LOCAL_SIZE - (int)rn(3) : (int)rn(rp(50) ? 64 : 5000);
}
static s64 g_op2(int cmpz)
{
	s64 op = rrange(SLJIT_ADD, SLJIT_ROTR);
	if ((op == SLJIT_ADDC || op == SLJIT_SUBC) && (m.v != SLJIT_CARRY || cmpz)) op = SLJIT_ADD;
	if (m.v == SLJIT_CARRY && !cmpz && rp(40)) op = rp(50) ? SLJIT_ADDC : SLJIT_SUBC;
	if (cmpz && (op == SLJIT_MUL || op >= SLJIT_ROTL)) op = SLJIT_SUB;
	if (rp(35)) op |= B32;
	switch (op & 0xff) {
	case SLJIT_ADD: if (rp(50)) op |= (rp(60) ? SLJIT_CARRY : SLJIT_OVERFLOW) << 10; break;
	case SLJIT_SUB: if (rp(60)) op |= 2 * rrange(1, 6) << 10; break;
	case SLJIT_ADDC: case SLJIT_SUBC: op = (op & ~(s64)B32) | (m.w32 ? B32 : 0); if (rp(50)) op |= SLJIT_CARRY << 10; return op;
	case SLJIT_MUL: if (rp(50)) op |= SLJIT_OVERFLOW << 10; return op;
	case SLJIT_ROTL: case SLJIT_ROTR: return op;
	}
	if (rp(50)) op |= ZBIT;
	return op;
}
static s64 g_mov(void) { s64 o = rrange(SLJIT_MOV, SLJIT_MOV_P); if (op32able(o) && rp(30)) o |= B32; return o; }
static int g_cond(void) { int t = -1; if (m.z == 1 && (m.v < 0 || rp(50))) t = 0; else if (m.v >= 0) t = m.v; return t < 0 ? -1 : t + (int)rn(2); }
static s64 g_simd(int strict, int memalign) { int rs = rrange(3, 6), es; if (rp(70)) rs = rrange(3, 4 + (int)rn(2)); es = (int)rn((u32)(strict ? rs : rs + 1)); if (es > 5) es = 5; if (rp(60) && es > 3) es = rrange(0, 3); return ((s64)rs << 12) | ((s64)es << 18) | (rp(35) ? SLJIT_SIMD_FLOAT : 0) | (rp(30) ? SLJIT_SIMD_TEST : 0) | ((s64)(memalign ? rn((u32)rs + 1) : 0) << 24); }
static void g_call(call *c)
{
	s64 *a = c->a; int k, x;
	memset(c, 0, sizeof(*c));
	c->f = (int)rn(F_gen);
	if (g_cond() >= 0 && rp(25)) { static const int cf[] = { A(jump), A(opflags), A(select), A(fselect) }; c->f = cf[rn(4)]; }
	if (!has_simd && c->f >= A(vmov) && c->f <= A(vop2)) c->f = A(op2);
	if (!has_atomic && (c->f == A(aload) || c->f == A(astore))) c->f = A(op2);
	if (!m.entered && rp(95)) c->f = A(enter);
	if ((c->f == A(enter) || c->f == A(context)) && m.entered && rp(70)) c->f = A(op2);
	switch (c->f) {
	case A(enter): case A(context): g_enter(c); break;
	case A(ret):
		switch (m.ret) {
		case 0: c->f = A(retvoid); break;
		case SLJIT_ARG_TYPE_W: a[0] = rrange(SLJIT_MOV, SLJIT_MOV_S32); g_src(a + 1); break;
		case SLJIT_ARG_TYPE_32: a[0] = rp(50) ? SLJIT_MOV32 : rrange(SLJIT_MOV_U8, SLJIT_MOV_S16) | B32; g_src(a + 1); break;
		case SLJIT_ARG_TYPE_P: a[0] = SLJIT_MOV_P; g_src(a + 1); break;
		default: x = m.ret == SLJIT_ARG_TYPE_F32; a[0] = x ? SLJIT_MOV_F32 : SLJIT_MOV_F64; g_fsrc(a + 1, x); break;
		}
		break;
	case A(retvoid): break;
	case A(retto): g_src(a); break;
	case A(op0): a[0] = rrange(SLJIT_OP0_BASE, SLJIT_SKIP_FRAMES_BEFORE_RETURN); if (a[0] >= SLJIT_DIVMOD_UW && a[0] <= SLJIT_DIV_SW && rp(40)) a[0] |= B32; break;
	case A(op1): a[0] = rp(60) ? g_mov() : rrange(SLJIT_CLZ, SLJIT_REV_S32); if (a[0] >= SLJIT_CLZ && a[0] <= SLJIT_REV_S16 && rp(40)) a[0] |= B32; g_dst(a + 1); if ((a[0] & 0xff) >= SLJIT_CLZ) g_dst(a + 3); else g_src(a + 3); break;
	case A(op2): a[0] = g_op2(0); g_dst(a + 1); g_src(a + 3); g_src(a + 5); break;
	case A(op2u): a[0] = g_op2(0); g_src(a + 1); g_src(a + 3); break;
	case A(op2r): a[0] = rp(50) ? SLJIT_MULADD : SLJIT_MULADD32; a[1] = g_reg(); g_src(a + 2); g_src(a + 4); break;
	case A(shift): { static const int so[] = { SLJIT_SHL, SLJIT_LSHR, SLJIT_MSHL, SLJIT_MLSHR }; a[0] = so[rn(4)] | (rp(40) ? B32 : 0) | (rp(40) ? SLJIT_SHIFT_INTO_NON_ZERO : 0); a[1] = g_reg(); a[2] = g_reg(); a[3] = g_reg(); g_src(a + 4); break; }
	case A(opsrc): a[0] = rrange(SLJIT_FAST_RETURN, SLJIT_PREFETCH_ONCE); if (a[0] >= SLJIT_PREFETCH_L1) g_mem(a + 1); else g_dst(a + 1); break;
	case A(opdst): a[0] = rrange(SLJIT_FAST_ENTER, SLJIT_GET_RETURN_ADDRESS); g_dst(a + 1); break;
	case A(fop1):
		a[0] = rrange(SLJIT_MOV_F64, SLJIT_ABS_F64); x = rp(40);
		if (a[0] == SLJIT_CMP_F64) { a[0] |= 2 * rrange(8, 17) << 10; g_fsrc(a + 1, x); g_fsrc(a + 3, x); }
		else if (a[0] >= SLJIT_CONV_SW_FROM_F64 && a[0] <= SLJIT_CONV_S32_FROM_F64) { g_dst(a + 1); g_fsrc(a + 3, x); }
		else if (a[0] >= SLJIT_CONV_F64_FROM_SW && a[0] <= SLJIT_CONV_F64_FROM_U32) { g_fsrc(a + 1, x); g_src(a + 3); }
		else { k = a[0] == SLJIT_CONV_F64_FROM_F32 ? 0 : x; g_fsrc(a + 1, k); g_fsrc(a + 3, k); }
		if (x) a[0] |= B32;
		break;
	case A(fop2): x = rp(40); a[0] = rrange(SLJIT_ADD_F64, SLJIT_DIV_F64) | (x ? B32 : 0); g_fsrc(a + 1, x); g_fsrc(a + 3, x); g_fsrc(a + 5, x); break;
	case A(fop2r): x = rp(40); a[0] = SLJIT_COPYSIGN_F64 | (x ? B32 : 0); a[1] = g_freg(x); g_fsrc(a + 2, x); g_fsrc(a + 4, x); break;
	case A(fset32): a[0] = g_freg(1); a[1] = (s64)(u32)r64(); break;
	case A(fset64): a[0] = g_freg(0); a[1] = (s64)rval(); break;
	case A(fcopy): x = rp(50); a[0] = (rp(50) ? SLJIT_COPY_TO_F64 : SLJIT_COPY_FROM_F64) | (x ? B32 : 0); a[1] = g_freg(x); a[2] = g_reg(); if (!W64 && !x && rp(60)) a[2] = SLJIT_REG_PAIR(a[2], g_reg()); break;
	case A(label): break;
	case A(alabel): a[0] = rrange(0, 4); break;
	case A(jump): k = g_cond(); a[0] = (k >= 0 && rp(80) ? k : rp(50) ? SLJIT_JUMP : SLJIT_FAST_CALL) | (rp(30) ? SLJIT_REWRITABLE_JUMP : 0); break;
	case A(call): case A(icall):
		x = rp(30); a[0] = x ? SLJIT_CALL_REG_ARG : SLJIT_CALL; a[1] = g_args(m.sc, 0, m.fs, 0, 1, -1);
		if (rp(30)) { a[0] = SLJIT_CALL_RETURN | (m.opts & SLJIT_ENTER_REG_ARG ? SLJIT_CALL_REG_ARG : SLJIT_CALL); a[1] = (a[1] & ~(s64)15) | m.ret; }
		if (c->f == A(call)) { if (rp(30)) a[0] |= SLJIT_REWRITABLE_JUMP; } else g_src(a + 2);
		break;
	case A(cmp): a[0] = rrange(0, SLJIT_SIG_LESS_EQUAL) | (rp(30) ? SLJIT_REWRITABLE_JUMP : 0) | (rp(40) ? B32 : 0); g_src(a + 1); g_src(a + 3); break;
	case A(fcmp): x = rp(40); a[0] = rrange(SLJIT_F_EQUAL, SLJIT_ORDERED_LESS_EQUAL) | (rp(30) ? SLJIT_REWRITABLE_JUMP : 0) | (x ? B32 : 0); g_fsrc(a + 1, x); g_fsrc(a + 3, x); break;
	case A(cmpz): a[0] = g_op2(1) | (rp(30) ? SLJIT_REWRITABLE_JUMP : 0); g_dst(a + 1); g_src(a + 3); g_src(a + 5); break;
	case A(ijump): a[0] = rp(50) ? SLJIT_JUMP : SLJIT_FAST_CALL; g_src(a + 1); break;
	case A(opflags): if (rp(50)) a[0] = rp(50) ? SLJIT_MOV : SLJIT_MOV32; else a[0] = rrange(SLJIT_AND, SLJIT_XOR) | (rp(40) ? B32 : 0) | (rp(50) ? ZBIT : 0); g_dst(a + 1); a[3] = g_cond(); break;
	case A(select): a[0] = g_cond() | (rp(40) ? B32 : 0); a[1] = g_reg(); g_src(a + 2); a[4] = g_reg(); break;
	case A(fselect): x = rp(40); a[0] = g_cond() | (x ? B32 : 0); a[1] = g_freg(x); g_fsrc(a + 2, x); a[4] = g_freg(x); break;
	case A(mem):
		if (rp(30)) { a[0] = SLJIT_MOV | (rp(50) ? 0 : rp(40) ? SLJIT_MEM_UNALIGNED : rp(50) ? SLJIT_MEM_ALIGNED_16 : SLJIT_MEM_ALIGNED_32); a[1] = SLJIT_REG_PAIR(g_reg(), g_reg()); }
		else { a[0] = g_mov(); a[1] = g_reg(); if (op32able(a[0] & 0xff) || rp(40)) a[0] |= SLJIT_MEM_UNALIGNED; else if ((a[0] == SLJIT_MOV || a[0] == SLJIT_MOV_P) && rp(50)) a[0] |= SLJIT_MEM_ALIGNED_32; else a[0] |= SLJIT_MEM_ALIGNED_16; }
		if (rp(50)) a[0] |= SLJIT_MEM_STORE;
		g_mem(a + 2); break;
	case A(memup): a[0] = g_mov() | (rp(50) ? SLJIT_MEM_STORE : 0) | (rp(50) ? SLJIT_MEM_POST : 0) | (rp(40) ? SLJIT_MEM_SUPP : 0); a[1] = g_reg(); a[2] = rp(50) ? SLJIT_MEM1(g_basereg()) : SLJIT_MEM2(g_basereg(), g_basereg()); a[3] = (a[2] >> 8) ? (int)rn(4) : rrange(-300, 300); break;
	case A(fmem): x = rp(40); a[0] = SLJIT_MOV_F64 | (x ? B32 : 0) | (rp(50) ? SLJIT_MEM_STORE : 0) | (rp(40) ? SLJIT_MEM_UNALIGNED : x || rp(50) ? SLJIT_MEM_ALIGNED_16 : SLJIT_MEM_ALIGNED_32); a[1] = g_freg(x); g_mem(a + 2); break;
	case A(fmemup): x = rp(40); a[0] = SLJIT_MOV_F64 | (x ? B32 : 0) | (rp(50) ? SLJIT_MEM_STORE : 0) | (rp(50) ? SLJIT_MEM_POST : 0) | (rp(40) ? SLJIT_MEM_SUPP : 0); a[1] = g_freg(x); a[2] = rp(50) ? SLJIT_MEM1(g_basereg()) : SLJIT_MEM2(g_basereg(), g_basereg()); a[3] = (a[2] >> 8) ? (int)rn(4) : rrange(-300, 300); break;
	case A(vmov): a[1] = g_vreg(); g_vsrc(a + 2); a[0] = g_simd(0, (a[2] & MEMBIT) != 0) | rn(2); break;
	case A(vrep): a[0] = g_simd(1, 0); a[1] = g_vreg(); if (a[0] & SLJIT_SIMD_FLOAT) { if (rp(20)) a[2] = SLJIT_IMM; else g_fsrc(a + 2, ((a[0] >> 18) & 0x3f) == 2); } else g_src(a + 2); break;
	case A(vlmov): a[0] = g_simd(1, 0) | rn(2); a[1] = g_vreg(); k = (int)((a[0] >> 18) & 0x3f); a[2] = (int)rn(1u << (((a[0] >> 12) & 0x3f) - k));
		if (a[0] & 1) { if (!(a[0] & SLJIT_SIMD_FLOAT) && rp(40)) a[0] |= SLJIT_SIMD_LANE_SIGNED; } else if (rp(40)) a[0] |= SLJIT_SIMD_LANE_ZERO;
		if (a[0] & SLJIT_SIMD_FLOAT) g_fsrc(a + 3, k == 2); else { if (k <= 2 && rp(40)) a[0] |= B32; if (a[0] & 1) g_dst(a + 3); else g_src(a + 3); }
		break;
	case A(vlrep): a[0] = g_simd(1, 0); a[1] = g_vreg(); a[2] = g_vreg(); a[3] = (int)rn(1u << (((a[0] >> 12) & 0x3f) - ((a[0] >> 18) & 0x3f))); break;
	case A(vext): { int rs = rrange(3, 6), e2 = rrange(1, rs - 1), es = (int)rn((u32)e2); a[0] = (rs << 12) | (es << 18) | ((s64)e2 << 24) | (rp(30) ? SLJIT_SIMD_FLOAT : rp(50) ? SLJIT_SIMD_EXTEND_SIGNED : 0) | (rp(30) ? SLJIT_SIMD_TEST : 0); a[1] = g_vreg(); g_vsrc(a + 2); break; }
	case A(vsign): a[0] = g_simd(1, 0) | SLJIT_SIMD_STORE | (rp(40) ? B32 : 0); a[1] = g_vreg(); g_dst(a + 2); break;
	case A(vop2): a[1] = g_vreg(); a[2] = g_vreg(); g_vsrc(a + 3); a[0] = g_simd(0, (a[3] & MEMBIT) != 0); k = rrange(1, 4); if (k == 4) a[0] &= ~(s64)(SLJIT_SIMD_FLOAT | (0x3f << 18)); a[0] |= k; break;
	case A(aload): a[0] = g_mov() | (rp(30) ? SLJIT_ATOMIC_TEST : 0) | (rp(30) ? rp(50) ? SLJIT_ATOMIC_USE_CAS : SLJIT_ATOMIC_USE_LS : 0); a[1] = g_reg(); a[2] = g_basereg(); break;
	case A(astore): a[0] = g_mov() | (rp(30) ? SLJIT_ATOMIC_TEST : 0) | (rp(30) ? rp(50) ? SLJIT_ATOMIC_USE_CAS : SLJIT_ATOMIC_USE_LS : 0) | (rp(50) ? SLJIT_ATOMIC_STORED << 10 : 0); a[1] = g_reg(); a[2] = g_basereg(); a[3] = g_reg(); break;
	case A(lbase): g_dst(a); a[2] = g_w(); break;
	case A(const): { static const int co[] = { SLJIT_MOV, SLJIT_MOV32, SLJIT_MOV_S32, SLJIT_MOV_U8, SLJIT_MOV32_U8 }; a[0] = co[rn(5)]; g_dst(a + 1); a[3] = (a[0] & 0xff) == SLJIT_MOV_U8 ? rrange(-256, 255) : g_w(); break; }
	case A(opaddr): a[0] = rrange(0, 2); g_dst(a + 1); break;
	case A(custom):
#if (defined SLJIT_CONFIG_X86 && SLJIT_CONFIG_X86)
		a[0] = rrange(1, 15); a[1] = (int)rn(16);
#elif (defined SLJIT_CONFIG_S390X && SLJIT_CONFIG_S390X)
		a[0] = 2 * rrange(1, 3); a[1] = (int)rn(16);
#elif (defined SLJIT_CONFIG_ARM_THUMB2 && SLJIT_CONFIG_ARM_THUMB2) || (defined SLJIT_CONFIG_RISCV && SLJIT_CONFIG_RISCV)
		a[0] = 2 * rrange(1, 2); a[1] = a[0] * rrange(0, 3);
#else
		a[0] = 4; a[1] = 4 * rrange(0, 3);
#endif
		break;
	case A(setflags): a[0] = (rp(50) ? ZBIT : 0) | (rp(30) ? B32 : 0) | (rp(60) ? 2 * rrange(1, 6) << 10 : 0); break;
	case A(regidx): k = (int)rn(3); a[0] = k == 0 ? SLJIT_GP_REGISTER : k == 1 ? SLJIT_FLOAT_REGISTER : SLJIT_SIMD_REG_64 + (int)rn(4) * (1 << 12); a[1] = rrange(1, k == 0 ? NR + 1 : NF); break;
	}
}
/* change one argument */
static void mutate(call *c)
{
	int na = fn[c->f].na, k; s64 v, old;
	if (!na) return;
	k = (int)rn((u32)na); old = c->a[k];
	switch (rn(12)) {
	case 0: v = old ^ ((s64)1 << rn(32)); break;
	case 1: v = old ^ ((s64)1 << rn(20)); break;
	case 2: v = old + (rp(50) ? 1 : -1); break;
	case 3: { s64 t[] = { 0, -1, 1, m.sc, m.sc + 1, NR - m.sv, NR - m.sv + 1, NR, NR + 1, m.fs, m.fs + 1, NF - m.fv, NF - m.fv + 1, NF, NF + 1, m.vs, m.vs + 1, NV - m.vv, NV + 1, 0x7e, 0x7f }; v = t[rn(sizeof(t) / sizeof(t[0]))]; break; }
	case 4: v = SLJIT_IMM; break;
	case 5: { s64 p[2]; g_mem(p); v = p[0]; break; }
	case 6: { int r1 = rp(30) ? 0 : rp(50) ? g_reg() : (int)rn(0x80), r2 = rp(50) ? 0 : rp(50) ? g_reg() : (int)rn(0x80); if (rp(20)) r1 = SLJIT_SP; if (rp(10)) r2 = SLJIT_SP; v = MEMBIT | r1 | (r2 << 8); break; }
	case 7: { s64 t[] = { m.local, m.local - 1, m.local + 1, -1, 4, 3, 8, 1, -4, 1048576, 1048577 }; v = t[rn(sizeof(t) / sizeof(t[0]))]; break; }
	case 8: v = (s64)rn(256); break;
	case 9: v = (old & ~(s64)0xff) | rn(256); break;
	case 10: v = (old & ~(s64)VMASK) | (rn(40) << 10); break;
	default: v = (old & ~((s64)0xf << (4 * rn(6)))) | ((s64)rn(16) << (4 * rn(6))); break;
	}
	c->a[k] = (s64)(s32)v;
	/* swap two arguments of the same kind, or move several */
	if (rp(10) && na > 1) { int j = (int)rn((u32)na); v = c->a[j]; c->a[j] = c->a[k]; c->a[k] = v; }
}
/* arguments which are machine words, the others are 32 bit integers */
static int wmask(int f)
{
	switch (f) {
	case A(ret): case A(opsrc): case A(opdst): case A(ijump): case A(opflags): case A(opaddr): return 1 << 2;
	case A(retto): case A(fset64): case A(fset32): return 1 << 1;
	case A(op1): case A(op2u): case A(fop1): case A(cmp): case A(fcmp): return 1 << 2 | 1 << 4;
	case A(op2): case A(fop2): case A(cmpz): return 1 << 2 | 1 << 4 | 1 << 6;
	case A(op2r): case A(fop2r): return 1 << 3 | 1 << 5;
	case A(shift): return 1 << 5;
	case A(icall): case A(select): case A(fselect): case A(mem): case A(memup): case A(fmem): case A(fmemup): case A(vmov): case A(vrep): case A(vext): case A(vsign): return 1 << 3;
	case A(vlmov): case A(vop2): return 1 << 4;
	case A(lbase): return 1 << 1 | 1 << 2;
	case A(const): return 1 << 2 | 1 << 3;
	}
	return 0;
}
static void fix32(call *c) { int k, w = wmask(c->f); for (k = 0; k < 8; k++) if (!((w >> k) & 1) || (!W64 && c->f != A(fset64))) c->a[k] = (s64)(s32)c->a[k]; }
static int make_case(u64 seed, u64 n)
{
	int len, pm, bad = 0, k, try_;
	rseed(seed, n); model_reset(); nc = 0;
	len = 2 + (int)rn(rp(30) ? 40 : 12); pm = gonly || rp(30) ? 0 : rrange(2, 30);
	for (k = 0; k < len; k++) {
		call c; int cl = U;
		for (try_ = 0; try_ < 50; try_++) {
			g_call(&c);
			if (try_ < 40 && (rp(pm) || (k == len - 1 && pm))) { mutate(&c); if (rp(8)) mutate(&c); }
			fix32(&c);
			cl = bad ? I : classify(&c);
			if (cl == V || bad || (cl == I && pm)) break;
		}
		if (cl == U || (cl == I && !pm && !bad)) continue;
		cs[nc++] = c;
		if (bad) { if (++bad > 4) break; continue; }
		if (cl == V) advance(&c); else if (c.f != A(regidx)) bad = 1;
	}
	{ call c; memset(&c, 0, sizeof(c)); c.f = A(gen); if (gonly) c.a[2] = rn(1000); if (rp(5)) c.a[1] = 1; if (rp(4)) c.a[0] = rp(50) ? 2 : (s64)1 << rrange(2, 30);
	  if (bad || classify(&c) != U) cs[nc++] = c; }
	return nc > 1;
}
static void write_case(FILE *f) { int k; char d[200]; fprintf(f, gonly ? "genargs\n" : "args\n"); for (k = 0; k < nc; k++) { show(&cs[k], d, sizeof(d)); fprintf(f, "i %s\n", d); } fprintf(f, "end\n"); }
static int read_case(FILE *f)
{
	char line[400], w[30]; nc = 0;
	while (fgets(line, sizeof(line), f)) {
		call c; int k, l = 0, o; char *p;
		if (!strncmp(line, "end", 3)) return 0;
		if (!strncmp(line, "genargs", 7)) gonly = 1;
		if (sscanf(line, "i %29s%n", w, &l) != 1 || !l) continue;
		for (k = 0; k < F_N && strcmp(fn[k].n, w); k++) ;
		if (k == F_N || nc >= MAXC) return 1;
		memset(&c, 0, sizeof(c)); c.f = k; p = line + l;
		for (k = 0; k < fn[c.f].na; k++) { long long v; if (sscanf(p, "%lld%n", &v, &o) != 1) return 1; c.a[k] = v; p += o; }
		cs[nc++] = c;
	}
	return 1;
}
int main(int argc, char **argv)
{
	if (argc < 2) return 99;
	setvbuf(stdout, NULL, _IONBF, 0);
	if (argc > 2 && !strcmp(argv[2], "g")) gonly = 1;
	has_simd = sljit_has_cpu_feature(SLJIT_HAS_SIMD) != 0; has_atomic = sljit_has_cpu_feature(SLJIT_HAS_ATOMIC) != 0;
	has_pair = sljit_has_cpu_feature(SLJIT_HAS_F64_AS_F32_PAIR) != 0; vpairs = sljit_has_cpu_feature(SLJIT_SIMD_REGS_ARE_PAIRS) != 0;
	if (!strcmp(argv[1], "run") && argc >= 7) {
		u64 seed = strtoull(argv[3], NULL, 10), n = strtoull(argv[4], NULL, 10), end, stop = stop_at();
		progress_open(argv[6]);
		end = now_ms() + strtoull(argv[5], NULL, 10);
		for (; ((n & 15) || now_ms() < end) && n <= stop; n++) {
			int nt, r;
			pg->cur = n; pg->phase = 0;
			if (n % 64 == 0) arm_watchdog(20);
			nt = make_case(seed, n);
			pg->cases++; pg->instrs += (u64)nc;
			if (nt && dset_add(fnv(14695981039346656037ull, cs, sizeof(call) * (size_t)nc))) pg->nontriv++;
			r = run_case();
			if (r == 3) { pg->skipped++; continue; }
			if (r) { printf("MISMATCH case=%llu %s\n", (unsigned long long)n, msg); return 10; }
		}
		return 0;
	}
	if (!strcmp(argv[1], "dump") && argc >= 5) { make_case(strtoull(argv[3], NULL, 10), strtoull(argv[4], NULL, 10)); write_case(stdout); return 0; }
	if (!strcmp(argv[1], "replay") && argc >= 3) {
		FILE *f = fopen(argv[2], "r"); int r;
		if (!f || read_case(f)) { printf("INVALID unreadable\n"); return 3; }
		fclose(f);
		arm_watchdog(20);
		r = run_case();
		if (r == 3) { printf("INVALID\n"); return 3; }
		if (r) { printf("MISMATCH %s\n", msg); return 10; }
		printf("OK\n");
		return 0;
	}
	return 99;
}
