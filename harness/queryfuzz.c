/* Queries and native register indices against what is emitted.
   queryfuzz run <profile> <seed> <start> <ms> <progress> | dump <profile> <seed> <case> | replay <file>
   A case: a function with chosen numbers of registers, custom machine instructions which are built from the reported register indices (moves and additions, all instruction sizes),
   supported-form queries followed by the real operation (which is jumped over), capability and register queries in the middle of the emission, comparison infos.
   All registers are compared with a model at the end; the same function emitted without any query must be the same machine code; a query never changes the state of the compiler. */
#include "core.h"
#include <math.h>

#define MAXI 40
enum { K_MOV, K_ADD, K_TMP, K_FMOV, K_VMOV, K_VTMP, K_MEMUPD, K_FMEMUPD, K_FEAT, K_INDEX, K_CMP, K_SP, K_PLAIN, K_FPAIR, K_KINDS };
typedef struct { int k, a, b, c; s64 x; } item;
static item it[MAXI]; static int ni, nr, ns, nfr, nfs, vec, vsize; static u64 dseed;
static char msg[500];
#define FAIL(...) do { snprintf(msg, sizeof(msg), __VA_ARGS__); return 10; } while (0)
#define WM (W64 ? ~(u64)0 : (u64)0xffffffffu)
#define NREG SLJIT_NUMBER_OF_REGISTERS
#define NFREG SLJIT_NUMBER_OF_FLOAT_REGISTERS
#if (defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
#define SEP 1
#define NVREG SLJIT_NUMBER_OF_VECTOR_REGISTERS
#define NTMPV SLJIT_NUMBER_OF_TEMPORARY_VECTOR_REGISTERS
#define TMPV SLJIT_TMP_VREGISTER_BASE
#else
#define SEP 0
#define NVREG SLJIT_NUMBER_OF_FLOAT_REGISTERS
#define NTMPV SLJIT_NUMBER_OF_TEMPORARY_FLOAT_REGISTERS
#define TMPV SLJIT_TMP_FREGISTER_BASE
#endif

/* ---------- machine instructions ---------- */
static u8 ib[16] __attribute__((aligned(16))); static int il;
static void w32(u32 x) { memcpy(ib + il, &x, 4); il += 4; }
static void by(int n, ...) { va_list a; va_start(a, n); while (n--) ib[il++] = (u8)va_arg(a, int); va_end(a); }
static int low32; /* the instruction only changes the low 32 bits */
/* destination, source, selector of the form: 0 when there is no such instruction */
static int enc_mov(int d, int s, int f)
{
	il = 0; low32 = 0; (void)f; (void)d; (void)s;
#if defined(SLJIT_CONFIG_X86_64) && SLJIT_CONFIG_X86_64
	if (f & 1) by(3, 0x48 | (s >> 3) << 2 | d >> 3, 0x89, 0xc0 | (s & 7) << 3 | (d & 7)); else by(3, 0x48 | (d >> 3) << 2 | s >> 3, 0x8b, 0xc0 | (d & 7) << 3 | (s & 7));
	f >>= 1; f %= 13; while (f-- > 0) by(1, 0x90);
#elif defined(SLJIT_CONFIG_X86_32) && SLJIT_CONFIG_X86_32
	by(2, 0x89, 0xc0 | s << 3 | d); f %= 14; while (f-- > 0) by(1, 0x90);
#elif defined(SLJIT_CONFIG_ARM_64) && SLJIT_CONFIG_ARM_64
	w32(0xaa0003e0u | (u32)s << 16 | (u32)d);
#elif defined(SLJIT_CONFIG_ARM_THUMB2) && SLJIT_CONFIG_ARM_THUMB2
	if (f & 1) { u16 x = (u16)(0x4600 | (d >> 3) << 7 | s << 3 | (d & 7)); memcpy(ib, &x, 2); il = 2; } else w32(0xea4f0000u | (u32)d << 8 | (u32)s);
#elif defined(SLJIT_CONFIG_ARM_32) && SLJIT_CONFIG_ARM_32
	w32(0xe1a00000u | (u32)d << 12 | (u32)s);
#elif defined(SLJIT_CONFIG_RISCV) && SLJIT_CONFIG_RISCV
#if defined(__riscv_compressed) || defined(__riscv_c)
	if (f & 1) { u16 x = (u16)(0x8002 | d << 7 | s << 2); memcpy(ib, &x, 2); il = 2; return 1; }
#endif
	w32(0x13u | (u32)d << 7 | (u32)s << 15);
#elif defined(SLJIT_CONFIG_S390X) && SLJIT_CONFIG_S390X
	if (f % 3 == 0) by(4, 0xb9, 0x04, 0, d << 4 | s); else if (f % 3 == 1) { by(2, 0x18, d << 4 | s); low32 = 1; } else by(6, 0xec, d << 4 | s, 0, 0xbf, 0, 0x55);
#elif defined(SLJIT_CONFIG_LOONGARCH) && SLJIT_CONFIG_LOONGARCH
	w32(0x00150000u | (u32)s << 5 | (u32)d);
#elif defined(SLJIT_CONFIG_PPC) && SLJIT_CONFIG_PPC
	w32(0x7c000378u | (u32)s << 21 | (u32)d << 16 | (u32)s << 11);
#elif defined(SLJIT_CONFIG_MIPS) && SLJIT_CONFIG_MIPS
	w32(0x25u | (u32)s << 21 | (u32)d << 11);
#else
	return 0;
#endif
	return 1;
}
/* d = a + b, d == a where the CPU has two operands only */
static int three_operands(void)
{
#if (defined(SLJIT_CONFIG_X86) && SLJIT_CONFIG_X86) || (defined(SLJIT_CONFIG_S390X) && SLJIT_CONFIG_S390X)
	return 0;
#else
	return 1;
#endif
}
static int enc_add(int d, int a, int b)
{
	il = 0; (void)d; (void)a; (void)b;
#if defined(SLJIT_CONFIG_X86_64) && SLJIT_CONFIG_X86_64
	by(3, 0x48 | (b >> 3) << 2 | d >> 3, 0x01, 0xc0 | (b & 7) << 3 | (d & 7));
#elif defined(SLJIT_CONFIG_X86_32) && SLJIT_CONFIG_X86_32
	by(2, 0x01, 0xc0 | b << 3 | d);
#elif defined(SLJIT_CONFIG_ARM_64) && SLJIT_CONFIG_ARM_64
	w32(0x8b000000u | (u32)b << 16 | (u32)a << 5 | (u32)d);
#elif defined(SLJIT_CONFIG_ARM_THUMB2) && SLJIT_CONFIG_ARM_THUMB2
	w32(0xeb000000u | (u32)a << 16 | (u32)d << 8 | (u32)b);
#elif defined(SLJIT_CONFIG_ARM_32) && SLJIT_CONFIG_ARM_32
	w32(0xe0800000u | (u32)a << 16 | (u32)d << 12 | (u32)b);
#elif defined(SLJIT_CONFIG_RISCV) && SLJIT_CONFIG_RISCV
	w32(0x33u | (u32)d << 7 | (u32)a << 15 | (u32)b << 20);
#elif defined(SLJIT_CONFIG_S390X) && SLJIT_CONFIG_S390X
	by(4, 0xb9, 0x08, 0, d << 4 | b);
#elif defined(SLJIT_CONFIG_LOONGARCH) && SLJIT_CONFIG_LOONGARCH
	w32(0x00108000u | (u32)b << 10 | (u32)a << 5 | (u32)d);
#elif defined(SLJIT_CONFIG_PPC) && SLJIT_CONFIG_PPC
	w32(0x7c000214u | (u32)d << 21 | (u32)a << 16 | (u32)b << 11);
#elif defined(SLJIT_CONFIG_MIPS) && SLJIT_CONFIG_MIPS
	w32((W64 ? 0x2du : 0x21u) | (u32)a << 21 | (u32)b << 16 | (u32)d << 11);
#else
	return 0;
#endif
	return 1;
}
static int enc_fmov(int d, int s)
{
	il = 0; (void)d; (void)s;
#if defined(SLJIT_CONFIG_X86) && SLJIT_CONFIG_X86
	if ((d | s) & 8) by(4, 0x40 | (d >> 3) << 2 | s >> 3, 0x0f, 0x28, 0xc0 | (d & 7) << 3 | (s & 7)); else by(3, 0x0f, 0x28, 0xc0 | d << 3 | s);
#elif defined(SLJIT_CONFIG_ARM_64) && SLJIT_CONFIG_ARM_64
	w32(0x1e604000u | (u32)s << 5 | (u32)d);
#elif (defined(SLJIT_CONFIG_ARM_32) && SLJIT_CONFIG_ARM_32)
	w32(0xeeb00b40u | (u32)(d & 15) << 12 | (u32)(d >> 4) << 22 | (u32)(s & 15) | (u32)(s >> 4) << 5);
#elif defined(SLJIT_CONFIG_RISCV) && SLJIT_CONFIG_RISCV
	w32(0x22000053u | (u32)s << 20 | (u32)s << 15 | (u32)d << 7);
#elif defined(SLJIT_CONFIG_S390X) && SLJIT_CONFIG_S390X
	by(2, 0x28, d << 4 | s);
#elif defined(SLJIT_CONFIG_LOONGARCH) && SLJIT_CONFIG_LOONGARCH
	w32(0x01149800u | (u32)s << 5 | (u32)d);
#elif defined(SLJIT_CONFIG_PPC) && SLJIT_CONFIG_PPC
	w32(0xfc000090u | (u32)d << 21 | (u32)s << 11);
#elif defined(SLJIT_CONFIG_MIPS) && SLJIT_CONFIG_MIPS
	w32(0x46200006u | (u32)s << 11 | (u32)d << 6);
#else
	return 0;
#endif
	return 1;
}
static int enc_vmov(int d, int s, int size)
{
	il = 0; (void)d; (void)s; (void)size;
#if defined(SLJIT_CONFIG_X86) && SLJIT_CONFIG_X86
	if (size == 5) by(5, 0xc4, ((d >> 3) ? 0 : 0x80) | 0x40 | ((s >> 3) ? 0 : 0x20) | 1, 0x7c, 0x28, 0xc0 | (d & 7) << 3 | (s & 7));
	else if (size == 4) { if ((d | s) & 8) by(4, 0x40 | (d >> 3) << 2 | s >> 3, 0x0f, 0x28, 0xc0 | (d & 7) << 3 | (s & 7)); else by(3, 0x0f, 0x28, 0xc0 | d << 3 | s); }
	else return 0;
#elif defined(SLJIT_CONFIG_ARM_64) && SLJIT_CONFIG_ARM_64
	w32((size == 4 ? 0x4ea01c00u : 0x0ea01c00u) | (u32)s << 16 | (u32)s << 5 | (u32)d);
#elif (defined(SLJIT_CONFIG_ARM_THUMB2) && SLJIT_CONFIG_ARM_THUMB2)
	w32((size == 4 ? 0xef200150u : 0xef200110u) | (u32)(s & 15) << 16 | (u32)(s >> 4) << 7 | (u32)(d & 15) << 12 | (u32)(d >> 4) << 22 | (u32)(s & 15) | (u32)(s >> 4) << 5);
#elif (defined(SLJIT_CONFIG_ARM_32) && SLJIT_CONFIG_ARM_32)
	w32((size == 4 ? 0xf2200150u : 0xf2200110u) | (u32)(s & 15) << 16 | (u32)(s >> 4) << 7 | (u32)(d & 15) << 12 | (u32)(d >> 4) << 22 | (u32)(s & 15) | (u32)(s >> 4) << 5);
#elif defined(SLJIT_CONFIG_RISCV) && SLJIT_CONFIG_RISCV
	w32(0x9e003057u | (u32)s << 20 | (u32)d << 7);
#elif defined(SLJIT_CONFIG_S390X) && SLJIT_CONFIG_S390X
	by(6, 0xe7, (d & 15) << 4 | (s & 15), 0, 0, (d >> 4) << 3 | (s >> 4) << 2, 0x56);
#elif defined(SLJIT_CONFIG_LOONGARCH) && SLJIT_CONFIG_LOONGARCH
	w32((size == 5 ? 0x75268000u : 0x71268000u) | (u32)s << 10 | (u32)s << 5 | (u32)d);
#else
	return 0;
#endif
	return 1;
}

/* ---------- the function ---------- */
typedef struct { u64 in[NREG + 1], out[NREG + 1], fin[NFREG + 1], fout[NFREG + 1], aux[8]; u8 pad[64], vin[40][64], vout[40][64]; } objs;
static objs *ob; static u64 M[NREG + 1]; static u64 F[NFREG + 1]; static int ftype[NFREG + 1]; static u8 V[40][64];
static int pairs;
static int nvr(void) { return vec ? nfr + nfs : 0; }
static s32 gr(int i) { return i < nr ? SLJIT_R(i) : SLJIT_S(i - nr); } /* 0 .. nr + ns - 1 */
static s32 fr(int i) { return i < nfr ? SLJIT_FR(i) : SLJIT_FS(i - nfr); }
static s32 vr(int i) { if (SEP) return i < nfr ? SLJIT_VR(i) : SLJIT_VS(i - nfr); return fr(i); }
static int ok_gpr(s32 r) { return sljit_get_register_index(SLJIT_GP_REGISTER, r) >= 0; }
static int feature(int k) { static const int f[18] = { SLJIT_HAS_FPU, SLJIT_HAS_VIRTUAL_REGISTERS, SLJIT_HAS_ZERO_REGISTER, SLJIT_HAS_CLZ, SLJIT_HAS_CTZ, SLJIT_HAS_REV, SLJIT_HAS_ROT, SLJIT_HAS_CMOV, SLJIT_HAS_PREFETCH, SLJIT_HAS_COPY_F32, SLJIT_HAS_COPY_F64,
	SLJIT_HAS_F64_AS_F32_PAIR, SLJIT_HAS_SIMD, SLJIT_SIMD_REGS_ARE_PAIRS, SLJIT_HAS_ATOMIC, SLJIT_HAS_MEMORY_BARRIER, -1, -2 }; return f[k % 18]; }
static s32 first_feat[18]; static int have_first;
static int simd_any(int rs)
{
	struct sljit_compiler *c = sljit_create_compiler(NULL); int e, r = 0;
	sljit_emit_enter(c, 0, SLJIT_ARGS1V(W), 1 | SLJIT_ENTER_FLOAT(2) | SLJIT_ENTER_VECTOR(2), 1, 0);
	for (e = 0; e <= 3 && e <= rs && !r; e++) r = sljit_emit_simd_mov(c, (rs << 12) | (e << 18) | SLJIT_SIMD_TEST, SEP ? SLJIT_VR0 : SLJIT_FR0, SLJIT_MEM1(SLJIT_S0), 0) == SLJIT_SUCCESS;
	sljit_free_compiler(c);
	return r;
}
typedef struct { sljit_uw size; sljit_s32 err, lf; struct sljit_label *ll; struct sljit_jump *lj; struct sljit_const *lc; } cstate;
static cstate state_of(struct sljit_compiler *c) { cstate s; memset(&s, 0, sizeof(s)); s.size = c->size; s.err = sljit_get_compiler_error(c); s.ll = c->last_label; s.lj = c->last_jump; s.lc = c->last_const; return s; }
#define QUIET(what) do { cstate q_ = state_of(c); if (memcmp(&q_, &st, sizeof(st))) FAIL("%s changes the state of the compiler (item %d)", what, n); } while (0)
static int custom(struct sljit_compiler *c, int off)
{
	/* x86 and s390x: any alignment is accepted */
#if (defined(SLJIT_CONFIG_X86) && SLJIT_CONFIG_X86) || (defined(SLJIT_CONFIG_S390X) && SLJIT_CONFIG_S390X)
	u8 b[40]; memset(b, 0xcc, sizeof(b)); memcpy(b + (off & 7), ib, (size_t)il);
	return sljit_emit_op_custom(c, b + (off & 7), (sljit_u32)il);
#else
	u8 b[40] __attribute__((aligned(16))); memset(b, 0xcc, sizeof(b)); off &= il == 2 ? 14 : 12; memcpy(b + off, ib, (size_t)il);
	return sljit_emit_op_custom(c, b + off, (sljit_u32)il);
#endif
}
/* sizes of a float compare and jump */
static sljit_uw cmp_size(int type)
{
	struct sljit_compiler *c = sljit_create_compiler(NULL); sljit_uw r; void *code; struct sljit_jump *j;
	if (!c) return 0;
	sljit_emit_enter(c, 0, SLJIT_ARGS0V(), 1 | SLJIT_ENTER_FLOAT(2), 0, 0);
	j = sljit_emit_fcmp(c, type, SLJIT_FR0, 0, SLJIT_FR1, 0);
	sljit_emit_op1(c, SLJIT_MOV, SLJIT_R0, 0, SLJIT_IMM, 5);
	sljit_set_label(j, sljit_emit_label(c));
	sljit_emit_return_void(c);
	code = sljit_generate_code(c, 0, NULL);
	r = code ? sljit_get_generated_code_size(c) : 0;
	sljit_free_compiler(c);
	if (code) sljit_free_code(code, NULL);
	return r;
}
static const int cmpt[14] = { SLJIT_F_EQUAL, SLJIT_F_NOT_EQUAL, SLJIT_ORDERED_EQUAL, SLJIT_UNORDERED_OR_NOT_EQUAL, SLJIT_ORDERED_LESS, SLJIT_UNORDERED_OR_GREATER_EQUAL, SLJIT_ORDERED_GREATER, SLJIT_UNORDERED_OR_LESS_EQUAL,
	SLJIT_UNORDERED_OR_EQUAL, SLJIT_ORDERED_NOT_EQUAL, SLJIT_UNORDERED_OR_LESS, SLJIT_ORDERED_GREATER_EQUAL, SLJIT_UNORDERED_OR_GREATER, SLJIT_ORDERED_LESS_EQUAL };
static int check_cmp(int n)
{
	sljit_uw sz[14]; int k, i, j;
	for (k = 0; k < 14; k++) { sz[k] = cmp_size(cmpt[k]); if (!sz[k]) FAIL("item %d: float compare %d is not emitted", n, cmpt[k]); }
	for (i = 2; i < 14; i++) for (j = 2; j < 14; j++)
		if (sljit_cmp_info(cmpt[i]) == 0 && sljit_cmp_info(cmpt[j]) != 0 && sz[i] > sz[j]) FAIL("item %d: compare %d is reported as a single instruction (%lu bytes), %d is not (%lu bytes)", n, cmpt[i], (unsigned long)sz[i], cmpt[j], (unsigned long)sz[j]);
	return 0;
}
/* all registers: valid indices, different for different registers */
static int check_index(int n)
{
	s32 seen[80], i, j, cnt = 0, r; int ty, virt = 0;
	for (r = 1; r <= NREG; r++) { i = sljit_get_register_index(SLJIT_GP_REGISTER, r); if (i == -1) { virt = 1; if (!sljit_has_cpu_feature(SLJIT_HAS_VIRTUAL_REGISTERS)) FAIL("item %d: register %d has no index", n, (int)r); continue; } if (i < 0 || i > 31) FAIL("item %d: index of register %d is %d", n, (int)r, (int)i); seen[cnt++] = i; }
	if (!virt && sljit_has_cpu_feature(SLJIT_HAS_VIRTUAL_REGISTERS)) FAIL("item %d: no register is virtual", n);
	i = sljit_get_register_index(SLJIT_GP_REGISTER, SLJIT_SP); if (i < 0 || i > 31) FAIL("item %d: index of SP is %d", n, (int)i); seen[cnt++] = i;
	for (r = 0; r < SLJIT_NUMBER_OF_TEMPORARY_REGISTERS; r++) { i = sljit_get_register_index(SLJIT_GP_REGISTER, SLJIT_TMP_R(r)); if (i < 0 || i > 31) FAIL("item %d: index of temporary register %d is %d", n, (int)r, (int)i); seen[cnt++] = i; }
	for (i = 0; i < cnt; i++) for (j = 0; j < i; j++) if (seen[i] == seen[j]) FAIL("item %d: two integer registers have the index %d", n, (int)seen[i]);
	for (ty = 0; ty < 4; ty++) { /* float, 64, 128, 256 */
		int type = ty == 0 ? SLJIT_FLOAT_REGISTER : (2 + ty) << 12, num = ty && SEP ? NVREG : NFREG, ntmp = ty ? NTMPV : SLJIT_NUMBER_OF_TEMPORARY_FLOAT_REGISTERS; cnt = 0;
		if (ty ? 1 : !sljit_has_cpu_feature(SLJIT_HAS_FPU)) if (!ty || !sljit_has_cpu_feature(SLJIT_HAS_SIMD)) continue;
		if (ty && !simd_any(2 + ty)) continue;
		for (r = 1; r <= num + ntmp; r++) {
			s32 reg = r <= num ? r : ty ? TMPV + r - num - 1 : SLJIT_TMP_FR(r - num - 1);
			i = sljit_get_register_index(type, reg);
			if (i < 0 || i > 31) FAIL("item %d: index of register %d of type %x is %d", n, (int)reg, type, (int)i);
			/* a 128 bit register is a pair of 64 bit registers, with the (even) index of its first half */
			if (ty == 2 && pairs) { s32 b = sljit_get_register_index(type, r <= num && (reg & 1) == 0 ? reg - 1 : reg); if (i & 1) FAIL("item %d: index of register pair %d is %d", n, (int)r, (int)i); if (i != b) FAIL("item %d: index of register %d is %d, of the other half of the pair %d", n, (int)r, (int)i, (int)b); if (r > num || !(r & 1)) continue; }
			seen[cnt++] = i;
		}
		for (i = 0; i < cnt; i++) for (j = 0; j < i; j++) if (seen[i] == seen[j]) FAIL("item %d: two registers of type %x have the index %d", n, type, (int)seen[i]);
	}
	return 0;
}
static int check_features(struct sljit_compiler *c, const item *t, int n)
{
	int k = t->a % 18; s32 r = sljit_has_cpu_feature(feature(k)), e; cstate st = state_of(c);
	if (r < 0 || r > 2) FAIL("item %d: feature %d is reported as %d", n, feature(k), (int)r);
	if (have_first && first_feat[k] != r) FAIL("item %d: feature %d is %d, was %d before", n, feature(k), (int)r, (int)first_feat[k]);
	if (feature(k) < 0 && r) FAIL("item %d: unknown feature is %d", n, (int)r);
	switch (feature(k)) {
	case SLJIT_HAS_SIMD: { int a = simd_any(3) || simd_any(4) || simd_any(5) || simd_any(6); if (!!r != a) FAIL("item %d: vector support is reported as %d, vector moves are %ssupported", n, (int)r, a ? "" : "not "); break; }
#if defined(SLJIT_CONFIG_X86) && SLJIT_CONFIG_X86
	case SLJIT_HAS_CMOV: { s32 a = sljit_has_cpu_feature(SLJIT_HAS_AVX), b = sljit_has_cpu_feature(SLJIT_HAS_AVX2);
		if (!!b != simd_any(5)) FAIL("item %d: AVX2 is reported as %d, but 256 bit moves are %ssupported", n, (int)b, b ? "not " : ""); if (b && !a) FAIL("item %d: AVX2 without AVX", n); break; }
#elif defined(SLJIT_CONFIG_LOONGARCH) && SLJIT_CONFIG_LOONGARCH
	case SLJIT_HAS_CMOV: { s32 a = sljit_has_cpu_feature(SLJIT_HAS_LASX); if (a < 0 || a > 2) FAIL("item %d: LASX is reported as %d", n, (int)a); if (!!a != simd_any(5)) FAIL("item %d: LASX is reported as %d, but 256 bit moves are %ssupported", n, (int)a, a ? "not " : ""); break; }
#endif
	case SLJIT_HAS_ATOMIC: { int a = sljit_emit_atomic_load(c, SLJIT_MOV | SLJIT_ATOMIC_TEST, SLJIT_R0, SLJIT_R1) == SLJIT_SUCCESS; if (nr > 1 && !!r != a) FAIL("item %d: atomic support is reported as %d, the atomic load is %ssupported", n, (int)r, a ? "" : "not "); break; }
	case SLJIT_HAS_MEMORY_BARRIER: if (!r) { QUIET("a feature query"); e = sljit_emit_op0(c, SLJIT_MEMORY_BARRIER); if (e != SLJIT_ERR_UNSUPPORTED) FAIL("item %d: no memory barrier, but it returns %d", n, (int)e); }
		break; }
	QUIET("a feature query");
	return 0;
}
/* queries: zero to leave out all of them */
static int emit(struct sljit_compiler *c, int queries)
{
	int n, k, o = SLJIT_SUCCESS; struct sljit_jump *j; cstate st;
	sljit_emit_enter(c, 0, SLJIT_ARGS1V(W), nr | (vec ? SEP ? SLJIT_ENTER_VECTOR(nfr) | SLJIT_ENTER_FLOAT(1) : SLJIT_ENTER_FLOAT(nfr) | SLJIT_ENTER_VECTOR(nfr) : SLJIT_ENTER_FLOAT(nfr)), ns | (vec ? SEP ? SLJIT_ENTER_VECTOR(nfs) : SLJIT_ENTER_FLOAT(nfs) | SLJIT_ENTER_VECTOR(nfs) : SLJIT_ENTER_FLOAT(nfs)), 16);
	for (k = 0; k < nr + ns; k++) if (gr(k) != SLJIT_S0) sljit_emit_op1(c, SLJIT_MOV, gr(k), 0, SLJIT_MEM1(SLJIT_S0), (sw)offsetof(objs, in) + k * 8 + (W64 ? 0 : 0));
	if (!vec) for (k = 0; k < nfr + nfs; k++) sljit_emit_fop1(c, ftype[k] ? SLJIT_MOV_F32 : SLJIT_MOV_F64, fr(k), 0, SLJIT_MEM1(SLJIT_S0), (sw)offsetof(objs, fin) + k * 8);
	else for (k = 0; k < nvr(); k++) { if (pairs && vsize == 4 && (vr(k) & 1) == 0) continue; sljit_emit_simd_mov(c, (vsize << 12), vr(k), SLJIT_MEM1(SLJIT_S0), (sw)offsetof(objs, vin) + k * 64); }
	if ((o = sljit_get_compiler_error(c))) FAIL("emission error %d before the items", o);
	for (n = 0; n < ni; n++) {
		item *t = &it[n]; int g = nr + ns, a = t->a % g, b = t->b % g, d = t->c % g, x, y, z;
		st = state_of(c);
		switch (t->k) {
		case K_MOV: case K_ADD: case K_TMP: case K_PLAIN:
			if (gr(a) == SLJIT_S0) break;
			x = sljit_get_register_index(SLJIT_GP_REGISTER, gr(a)); y = sljit_get_register_index(SLJIT_GP_REGISTER, gr(b)); z = sljit_get_register_index(SLJIT_GP_REGISTER, gr(d));
			if (t->k == K_PLAIN || x < 0 || y < 0 || (t->k == K_ADD && z < 0)) { o = sljit_emit_op2(c, SLJIT_XOR, gr(a), 0, gr(a), 0, gr(b), 0); M[a] ^= M[b]; break; }
			QUIET("an index query");
			if (t->k == K_MOV) { if (!enc_mov(x, y, (int)t->x)) break; o = custom(c, (int)t->x); M[a] = low32 ? (M[a] & ~(u64)0xffffffffu) | (u32)M[b] : M[b]; }
			else if (t->k == K_ADD) { if (!three_operands()) { z = x; d = a; } if (!enc_add(x, z, y)) break; o = custom(c, 0); M[a] = (M[d] + M[b]) & WM; }
			else { int tr = SLJIT_TMP_R(t->c % SLJIT_NUMBER_OF_TEMPORARY_REGISTERS), ti = sljit_get_register_index(SLJIT_GP_REGISTER, tr);
				if (ti < 0) FAIL("item %d: temporary register has the index %d", n, ti);
				if (!enc_mov(ti, y, 0)) break; o = custom(c, 0);
				if (!o && (t->x & 1)) o = sljit_emit_op1(c, SLJIT_MOV, gr(a), 0, tr, 0); else if (!o) { enc_mov(x, ti, 0); o = custom(c, 0); }
				M[a] = M[b]; }
			break;
		case K_SP: /* the stack register is below the locals */
			if (gr(a) == SLJIT_S0 || (x = sljit_get_register_index(SLJIT_GP_REGISTER, gr(a))) < 0) break;
			y = sljit_get_register_index(SLJIT_GP_REGISTER, SLJIT_SP);
#if defined(SLJIT_CONFIG_ARM_64) && SLJIT_CONFIG_ARM_64
			il = 0; w32(0x91000000u | (u32)y << 5 | (u32)x);
#elif defined(SLJIT_CONFIG_ARM_THUMB2) && SLJIT_CONFIG_ARM_THUMB2
			enc_mov(x, y, 1);
#else
			enc_mov(x, y, 0);
#endif
			o = custom(c, 0);
			if (!o) o = sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(SLJIT_S0), (sw)offsetof(objs, aux), gr(a), 0);
			if (!o) o = sljit_get_local_base(c, gr(a), 0, 0);
			if (!o) o = sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(SLJIT_S0), (sw)offsetof(objs, aux) + 8, gr(a), 0);
			if (!o) o = sljit_emit_op1(c, SLJIT_MOV, gr(a), 0, SLJIT_IMM, 77);
			M[a] = 77; break;
		case K_FMOV:
			if (vec || nfr + nfs < 1) break;
			a = t->a % (nfr + nfs); b = t->b % (nfr + nfs);
			x = sljit_get_register_index(SLJIT_FLOAT_REGISTER, fr(a)); y = sljit_get_register_index(SLJIT_FLOAT_REGISTER, fr(b));
			if (x < 0 || y < 0) FAIL("item %d: float register has no index", n);
			QUIET("an index query");
			if (t->x & 1) { int ti = sljit_get_register_index(SLJIT_FLOAT_REGISTER, SLJIT_TMP_FR(t->c % SLJIT_NUMBER_OF_TEMPORARY_FLOAT_REGISTERS)); if (ti < 0) FAIL("item %d: temporary float register has no index", n);
				if (!enc_fmov(ti, y)) break; o = custom(c, 0); enc_fmov(x, ti); if (!o) o = custom(c, 0); }
			else { if (!enc_fmov(x, y)) break; o = custom(c, (int)t->x); }
			F[a] = F[b]; ftype[a] = ftype[b]; break;
		case K_VMOV: case K_VTMP:
			if (!vec || nvr() < 1) break;
			a = t->a % nvr(); b = t->b % nvr();
			if (pairs && vsize == 4) { if (!(vr(a) & 1) || !(vr(b) & 1)) break; }
			x = sljit_get_register_index(vsize << 12, vr(a)); y = sljit_get_register_index(vsize << 12, vr(b));
			if (x < 0 || y < 0) FAIL("item %d: vector register has no index", n);
			if (t->k == K_VTMP && NTMPV > 0 && !(pairs && vsize == 4)) { int ti = sljit_get_register_index(vsize << 12, TMPV + t->c % NTMPV); if (ti < 0) FAIL("item %d: temporary vector register has no index", n);
				if (!enc_vmov(ti, y, vsize)) break; o = custom(c, 0); enc_vmov(x, ti, vsize); if (!o) o = custom(c, 0); }
			else { if (!enc_vmov(x, y, vsize)) break; o = custom(c, (int)t->x); }
			memcpy(V[a], V[b], 64); break;
		case K_MEMUPD: case K_FMEMUPD: {
			static const s32 ty[17] = { SLJIT_MOV, SLJIT_MOV_U8, SLJIT_MOV_S8, SLJIT_MOV_U16, SLJIT_MOV_S16, SLJIT_MOV32, SLJIT_MOV_P, SLJIT_MOV32_U8, SLJIT_MOV32_S8, SLJIT_MOV32_U16, SLJIT_MOV32_S16, SLJIT_MOV_U32, SLJIT_MOV_S32, SLJIT_MOV, SLJIT_MOV, SLJIT_MOV32, SLJIT_MOV_U8 };
			s32 op, reg, mem, q = 0, w, s = (s32)(t->x & 1), p = (s32)(t->x >> 1 & 1); sw memw = (sw)(t->x >> 8);
			op = t->k == K_MEMUPD ? ty[t->c % 17] : SLJIT_MOV_F64 | (t->c & 1 ? SLJIT_32 : 0);
			if (s) op |= SLJIT_MEM_STORE; if (p) op |= SLJIT_MEM_POST;
			if (t->k == K_FMEMUPD && (vec || nfr + nfs < 1)) break;
			reg = t->k == K_MEMUPD ? gr(t->c / 17 % g) : fr(t->c / 2 % (nfr + nfs));
			if (!ok_gpr(gr(a)) || (t->k == K_MEMUPD && reg == gr(a))) break;
			if (t->x & 4) { if (!ok_gpr(gr(b))) break; mem = SLJIT_MEM2(gr(a), gr(b)); memw &= 3; } else mem = SLJIT_MEM1(gr(a));
			j = sljit_emit_jump(c, SLJIT_JUMP);
			st = state_of(c);
			if (queries) { q = t->k == K_MEMUPD ? sljit_emit_mem_update(c, op | SLJIT_MEM_SUPP, reg, mem, memw) : sljit_emit_fmem_update(c, op | SLJIT_MEM_SUPP, reg, mem, memw); QUIET("SLJIT_MEM_SUPP"); }
			w = t->k == K_MEMUPD ? sljit_emit_mem_update(c, op, reg, mem, memw) : sljit_emit_fmem_update(c, op, reg, mem, memw);
			if (queries) {
				if (q != SLJIT_SUCCESS && q != SLJIT_ERR_UNSUPPORTED) FAIL("item %d: SLJIT_MEM_SUPP returns %d", n, (int)q);
				if (q != w) FAIL("item %d: SLJIT_MEM_SUPP returns %d, the operation %d", n, (int)q, (int)w);
				if (w == SLJIT_ERR_UNSUPPORTED) QUIET("an unsupported update"); else if (c->size == st.size) FAIL("item %d: nothing is emitted for a supported update", n);
			}
			sljit_set_label(j, sljit_emit_label(c)); break; }
		case K_FEAT: if (queries && (x = check_features(c, t, n))) return x; break;
		case K_INDEX: if (queries) { if ((x = check_index(n))) return x; QUIET("an index query"); } break;
		case K_CMP: if (queries) { x = t->a % 60 - 10; y = sljit_cmp_info(x);
			if (y < 0 || y > 2 || (y && !(x >= SLJIT_ORDERED_EQUAL && x <= SLJIT_ORDERED_LESS_EQUAL) && x != SLJIT_UNORDERED && x != SLJIT_ORDERED)) FAIL("item %d: the info of comparison %d is %d", n, x, y);
			if (t->b % 8 == 0 && (x = check_cmp(n))) return x; QUIET("sljit_cmp_info"); } break;
		case K_FPAIR: /* the second half of a double precision register is a register only when it is reported */
			if (vec || nfr + nfs < 2) break;
			x = sljit_has_cpu_feature(SLJIT_HAS_F64_AS_F32_PAIR);
			if (!x) break;
			a = t->a % (nfr + nfs); b = t->b % (nfr + nfs);
			if (ftype[a] != 2 || ftype[b] != 2) { /* both become pairs: the halves are loaded */
				for (z = 0; z < 2; z++) { y = z ? b : a; o = sljit_emit_fop1(c, SLJIT_MOV_F64, fr(y), 0, SLJIT_MEM1(SLJIT_S0), (sw)offsetof(objs, fin) + y * 8); memcpy(&F[y], &ob->fin[y], 8); ftype[y] = 0; if (o) break; } }
			{ u32 h[2][2]; int sw_ = (int)(t->x & 1), dw = (int)(t->x >> 1 & 1);
			memcpy(h[0], &F[a], 8); memcpy(h[1], &F[b], 8);
			/* low word of the value: first half */
			if (!o) o = sljit_emit_fop1(c, SLJIT_MOV_F32, dw ? SLJIT_F64_SECOND(fr(a)) : fr(a), 0, sw_ ? SLJIT_F64_SECOND(fr(b)) : fr(b), 0);
#if (defined SLJIT_BIG_ENDIAN && SLJIT_BIG_ENDIAN)
			h[0][!dw] = h[1][!sw_];
#else
			h[0][dw] = h[1][sw_];
#endif
			memcpy(&F[a], h[0], 8); ftype[a] = 0; }
			break;
		}
		if (o) FAIL("emission error %d at item %d", o, n);
		if (sljit_get_compiler_error(c)) FAIL("compiler error %d at item %d", (int)sljit_get_compiler_error(c), n);
	}
	for (k = 0; k < nr + ns; k++) sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(SLJIT_S0), (sw)offsetof(objs, out) + k * 8, gr(k), 0);
	if (!vec) for (k = 0; k < nfr + nfs; k++) sljit_emit_fop1(c, ftype[k] ? SLJIT_MOV_F32 : SLJIT_MOV_F64, SLJIT_MEM1(SLJIT_S0), (sw)offsetof(objs, fout) + k * 8, fr(k), 0);
	else for (k = 0; k < nvr(); k++) { if (pairs && vsize == 4 && (vr(k) & 1) == 0) continue; sljit_emit_simd_mov(c, (vsize << 12) | SLJIT_SIMD_STORE, vr(k), SLJIT_MEM1(SLJIT_S0), (sw)offsetof(objs, vout) + k * 64); }
	o = sljit_emit_return_void(c);
	if (o) FAIL("emission error %d at the end", o);
	return 0;
}
static void init_model(void)
{
	u64 s = dseed; int k, q;
	memset(ob, 0, sizeof(*ob));
	for (k = 0; k < nr + ns; k++) { M[k] = splitmix(&s) & WM; if (gr(k) == SLJIT_S0) M[k] = (u64)(uw)ob; if (W64) ob->in[k] = M[k]; else { u32 v = (u32)M[k]; memcpy(&ob->in[k], &v, 4); } }
	for (k = 0; k < NFREG; k++) { u64 v = splitmix(&s); ftype[k] = (int)(v >> 60 & 1); if (ftype[k]) { float f = (float)(s32)v; memset(&ob->fin[k], 0, 8); memcpy(&ob->fin[k], &f, 4); } else { double d = (double)(s64)v * 0.37; memcpy(&ob->fin[k], &d, 8); } F[k] = ob->fin[k]; }
	for (k = 0; k < 40; k++) for (q = 0; q < 64; q++) ob->vin[k][q] = V[k][q] = (u8)splitmix(&s);
	memset(ob->fout, 0, sizeof(ob->fout));
}
static int run_case(void)
{
	struct sljit_compiler *c; void *code[2]; sljit_uw sz[2]; int r, k, m;
	if (nr < 2 || ns < 1 || nr + ns > NREG || nfr + nfs > (vec ? NVREG : NFREG) || nfr < 1 || nr > SLJIT_NUMBER_OF_SCRATCH_REGISTERS + NREG) return 3;
	if (ns > SLJIT_NUMBER_OF_SAVED_REGISTERS || (!vec && nfs > SLJIT_NUMBER_OF_SAVED_FLOAT_REGISTERS)) return 3;
	if (vec && nfs > (SEP ? 0 : SLJIT_NUMBER_OF_SAVED_FLOAT_REGISTERS) ) return 3;
	if (vec && nvr() > 40) return 3;
	pairs = sljit_has_cpu_feature(SLJIT_SIMD_REGS_ARE_PAIRS) != 0;
	if (vec && pairs && vsize == 4 && ((nfr | nfs) & 1)) return 3; /* half of a pair */
	if (vec) {
		c = sljit_create_compiler(NULL);
		sljit_emit_enter(c, 0, SLJIT_ARGS1V(W), 1 | SLJIT_ENTER_FLOAT(2) | SLJIT_ENTER_VECTOR(2), 1, 0);
		r = simd_any(vsize) && sljit_emit_simd_mov(c, (vsize << 12) | SLJIT_SIMD_TEST, SEP ? SLJIT_VR0 : SLJIT_FR0, SLJIT_MEM1(SLJIT_S0), 0) == SLJIT_SUCCESS;
		sljit_free_compiler(c);
		if (!r) return 3;
	}
	for (m = 1; m >= 0; m--) {
		init_model();
		c = sljit_create_compiler(NULL);
		r = emit(c, m);
		if (r) { sljit_free_compiler(c); return r; }
		code[m] = sljit_generate_code(c, 0, NULL);
		if (!code[m]) { k = sljit_get_compiler_error(c); sljit_free_compiler(c); FAIL("code generation error %d", k); }
		sz[m] = sljit_get_generated_code_size(c);
		sljit_free_compiler(c);
	}
#if defined(SLJIT_CONFIG_ARM_THUMB2) && SLJIT_CONFIG_ARM_THUMB2
#define BASE(p) ((u8*)((uw)(p) & ~(uw)1))
#else
#define BASE(p) ((u8*)(p))
#endif
	r = 0;
	if (sz[0] != sz[1] || memcmp(BASE(code[0]), BASE(code[1]), sz[0])) { snprintf(msg, sizeof(msg), "the code is different without queries (%lu and %lu bytes)", (unsigned long)sz[1], (unsigned long)sz[0]); r = 10; }
	if (!r) {
		((void (SLJIT_FUNC *)(sljit_sw))(uw)code[1])((sljit_sw)ob);
		for (k = 0; k < nr + ns && !r; k++) { u64 v; if (W64) v = ob->out[k]; else { u32 x; memcpy(&x, &ob->out[k], 4); v = x; } if (v != M[k]) { snprintf(msg, sizeof(msg), "register %d is %llx, expected %llx", (int)gr(k), (unsigned long long)v, (unsigned long long)M[k]); r = 10; } }
		if (!vec) for (k = 0; k < nfr + nfs && !r; k++) { size_t len = ftype[k] ? 4 : 8; if (memcmp(&ob->fout[k], &F[k], len)) { u64 a = ob->fout[k]; snprintf(msg, sizeof(msg), "float register %d is %llx, expected %llx (%s)", (int)fr(k), (unsigned long long)a, (unsigned long long)F[k], ftype[k] ? "f32" : "f64"); r = 10; } }
		else for (k = 0; k < nvr() && !r; k++) { if (pairs && vsize == 4 && (vr(k) & 1) == 0) continue; if (memcmp(ob->vout[k], V[k], (size_t)1 << vsize)) { snprintf(msg, sizeof(msg), "vector register %d has a wrong content", (int)vr(k)); r = 10; } }
		if (!r) for (k = 0; k < ni; k++) if (it[k].k == K_SP) { uw a, b; memcpy(&a, &ob->aux[0], sizeof(a)); memcpy(&b, &ob->aux[1], sizeof(b)); if (a && b && (a > b || b - a > 4096)) { snprintf(msg, sizeof(msg), "the register with the index of SP is %lx, the locals are at %lx", (unsigned long)a, (unsigned long)b); r = 10; } }
	}
	sljit_free_code(code[0], NULL); sljit_free_code(code[1], NULL);
	return r;
}
static void make_case(u64 seed, u64 n)
{
	int k, tot;
	rseed(seed, n);
	dseed = r64();
	tot = rrange(3, NREG); ns = rrange(1, tot - 2 < SLJIT_NUMBER_OF_SAVED_REGISTERS ? tot - 2 : SLJIT_NUMBER_OF_SAVED_REGISTERS); nr = tot - ns;
	vec = rp(35) && sljit_has_cpu_feature(SLJIT_HAS_SIMD); vsize = 3 + (int)rn(3);
	tot = rrange(1, vec ? NVREG : NFREG); nfs = rp(50) ? 0 : (int)rn((u32)((vec && SEP) ? 1 : (tot < SLJIT_NUMBER_OF_SAVED_FLOAT_REGISTERS ? tot : SLJIT_NUMBER_OF_SAVED_FLOAT_REGISTERS + 1))); nfr = tot - nfs;
	if (nfr < 1) { nfr = 1; }
	if (nfr + nfs > (vec ? NVREG : NFREG)) nfs = 0;
	if (vec && vsize == 4 && sljit_has_cpu_feature(SLJIT_SIMD_REGS_ARE_PAIRS)) { nfr &= ~1; nfs &= ~1; if (!nfr) nfr = 2; }
	ni = rrange(1, rp(70) ? 14 : MAXI);
	for (k = 0; k < ni; k++) {
		item *t = &it[k]; static const int w[K_KINDS] = { 14, 8, 8, 14, 14, 6, 14, 5, 5, 1, 1, 2, 6, 2 }; int r = (int)rn(100), q = 0;
		while (r >= w[q]) r -= w[q++];
#if defined(SLJIT_CONFIG_MIPS_32) && SLJIT_CONFIG_MIPS_32
		if (q == K_FPAIR) q = K_PLAIN; /* known finding: F64_AS_F32_PAIR is reported, but the halves are different registers */
#endif
		t->k = q; t->a = (int)rn(1000); t->b = (int)rn(1000); t->c = (int)rn(1000);
		t->x = (s64)rn(256) | (s64)((rp(60) ? (u64)(s64)rrange(-300, 300) : rval()) << 8);
	}
}
static void write_case(FILE *f)
{
	int k;
	fprintf(f, "query %llx %d %d %d %d %d %d\n", (unsigned long long)dseed, nr, ns, nfr, nfs, vec, vsize);
	for (k = 0; k < ni; k++) fprintf(f, "i %d %d %d %d %llx\n", it[k].k, it[k].a, it[k].b, it[k].c, (unsigned long long)it[k].x);
	fprintf(f, "end\n");
}
static int read_case(FILE *f)
{
	char line[200]; unsigned long long a; int ok = 0;
	ni = 0;
	while (fgets(line, sizeof(line), f)) {
		item o;
		if (!strncmp(line, "end", 3)) break;
		if (sscanf(line, "query %llx %d %d %d %d %d %d", &a, &nr, &ns, &nfr, &nfs, &vec, &vsize) == 7) { dseed = a; ok = 1; continue; }
		if (sscanf(line, "i %d %d %d %d %llx", &o.k, &o.a, &o.b, &o.c, &a) != 5) continue;
		o.x = (s64)a;
		if (o.k < 0 || o.k >= K_KINDS || o.a < 0 || o.b < 0 || o.c < 0 || ni >= MAXI) return 1;
		it[ni++] = o;
	}
	return !ok || vsize < 3 || vsize > 6 || nr < 1 || ns < 1 || nfr < 0 || nfs < 0;
}
int main(int argc, char **argv)
{
	int k;
	if (argc < 2) return 99;
	setvbuf(stdout, NULL, _IOLBF, 0);
	ob = fixmap(0x32340000ul, (sizeof(*ob) + 4095) & ~4095ul);
	for (k = 0; k < 18; k++) first_feat[k] = sljit_has_cpu_feature(feature(k));
	have_first = 1;
	if (!strcmp(argv[1], "run") && argc >= 7) {
		u64 seed = strtoull(argv[3], NULL, 10), n = strtoull(argv[4], NULL, 10), end, stop = stop_at();
		progress_open(argv[6]);
		end = now_ms() + strtoull(argv[5], NULL, 10);
		for (; now_ms() < end && n <= stop; n++) {
			int r; u64 h;
			pg->cur = n; pg->phase = 0;
			if (n % 16 == 0) arm_watchdog(20);
			make_case(seed, n);
			pg->cases++; pg->instrs += (u64)ni;
			r = run_case();
			if (r == 3) { pg->skipped++; continue; }
			if (r) { printf("MISMATCH case=%llu %s\n", (unsigned long long)n, msg); return r; }
			for (k = 0; k < ni; k++) pg->extra[it[k].k]++;
			if (vec) pg->extra[20 + vsize]++;
			h = fnv(fnv(14695981039346656037ull, it, sizeof(item) * (size_t)ni), &dseed, 8);
			if (ni > 1 && dset_add(h)) pg->nontriv++;
		}
		return 0;
	}
	if (!strcmp(argv[1], "dump") && argc >= 5) { make_case(strtoull(argv[3], NULL, 10), strtoull(argv[4], NULL, 10)); write_case(stdout); return 0; }
	if (!strcmp(argv[1], "replay") && argc >= 3) {
		FILE *f = fopen(argv[2], "r"); int r;
		if (!f || read_case(f)) { printf("INVALID unreadable\n"); return 3; }
		fclose(f);
		arm_watchdog(20);
		r = run_case();
		if (r == 3) { printf("INVALID\n"); return 3; }
		if (r) { printf("MISMATCH %s\n", msg); return r; }
		printf("OK\n");
		return 0;
	}
	return 99;
}
