/* Independent compilers in several threads.
   thrfuzz run <profile> <seed> <start> <ms> <progress> | dump <profile> <seed> <case> | replay <file>
   A case: a list of operations for each of two to six threads, which start together: generate a function (also with serialization), run it, patch its constants and its
   rewritable call, free it, allocate and free raw executable blocks, utility stacks, release unused memory, ask for features. Each result must be the one which a single
   thread would get (model), code and raw blocks must keep their content, and all memory must be given back at the end.
   Profile f: every case is run in a new process, so the first use of everything happens in several threads. Profile x: one process (used with the thread sanitizer). */
#include "core.h"
#include <pthread.h>
#include <sched.h>
#include <sys/wait.h>

#define MAXT 6
#define MAXO 160
#define SLOTS 6
enum { O_GEN, O_CALL, O_CONST, O_RECALL, O_FREE, O_RAW, O_RAWCHECK, O_STACK, O_UNUSED, O_FEAT, O_YIELD, O_KINDS };
typedef struct { int k, s; u64 a; int n; } op;
static op ops[MAXT][MAXO]; static int no[MAXT], nt, first_query; static u64 dseed;
static struct { char msg[400]; int failed; u32 counts[O_KINDS]; s32 feat[16]; s32 simd[8]; int simd_ok; } *sh; /* shared with the child process */
static pthread_mutex_t ml = PTHREAD_MUTEX_INITIALIZER;
static void fail(const char *f, ...)
{
	va_list a;
	pthread_mutex_lock(&ml);
	if (!sh->failed) { va_start(a, f); vsnprintf(sh->msg, sizeof(sh->msg), f, a); va_end(a); sh->failed = 1; }
	pthread_mutex_unlock(&ml);
}

/* memory taken from the system by the library */
static sw mapped; static int inside_lib;
extern void *__real_mmap(void *, size_t, int, int, int, off_t); extern int __real_munmap(void *, size_t); extern void *__real_mmap64(void *, size_t, int, int, int, off64_t);
static __thread int quiet;
void *__wrap_mmap(void *a, size_t n, int p, int f, int d, off_t o) { void *r = __real_mmap(a, n, p, f, d, o); if (r != MAP_FAILED && !quiet) __atomic_add_fetch(&mapped, (sw)((n + 65535) & ~(size_t)65535) , __ATOMIC_RELAXED); return r; }
void *__wrap_mmap64(void *a, size_t n, int p, int f, int d, off64_t o) { void *r = __real_mmap64(a, n, p, f, d, o); if (r != MAP_FAILED && !quiet) __atomic_add_fetch(&mapped, (sw)((n + 65535) & ~(size_t)65535), __ATOMIC_RELAXED); return r; }
int __wrap_munmap(void *a, size_t n) { if (!quiet) __atomic_sub_fetch(&mapped, (sw)((n + 65535) & ~(size_t)65535), __ATOMIC_RELAXED); return __real_munmap(a, n); }

static sljit_sw SLJIT_FUNC hlp0(sljit_sw x) { return x * 3 + 1; }
static sljit_sw SLJIT_FUNC hlp1(sljit_sw x) { return (x ^ 0x5a5a) + 77; }

/* ---------- programs: one description both emits and evaluates ---------- */
typedef struct { u64 seed; int n; sljit_sw cv[4]; int nc, hl, hasj; void *code; sljit_uw size; sljit_sw off; sljit_uw ca[4], ja; u8 *copy; } fn;
#define WM (W64 ? ~(u64)0 : (u64)0xffffffffu)
static u64 prn(u64 *s) { return splitmix(s); }
static int clzw(u64 v) { int n = 0; v &= WM; while (n < WBITS && !(v >> (WBITS - 1) & 1)) { v = (v << 1) & WM; n++; } return n; }
/* ser: instruction before which the compiler is serialized, -1: not */
static u64 program(fn *f, struct sljit_compiler **pc, int ser, u64 x, int *err)
{
	u64 s = f->seed, R[5], L[4] = { 1, 2, 3, 4 }, d, im, t; int k, nc = 0; struct sljit_compiler *c = pc ? *pc : NULL;
	static const sljit_s32 REG[5] = { SLJIT_R0, SLJIT_R1, SLJIT_R2, SLJIT_S1, SLJIT_S2 };
	f->hasj = 0;
	if (c) {
		sljit_emit_enter(c, 0, SLJIT_ARGS1(W, W), 4 | SLJIT_ENTER_FLOAT(3), 3, 64);
		sljit_emit_op1(c, SLJIT_MOV, SLJIT_R0, 0, SLJIT_S0, 0);
		for (k = 1; k < 5; k++) sljit_emit_op1(c, SLJIT_MOV, REG[k], 0, SLJIT_IMM, (sljit_sw)(f->seed * (u64)(k * 2 + 1)));
		for (k = 0; k < 4; k++) sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(SLJIT_SP), k * WBYTES, SLJIT_IMM, k + 1);
	}
	R[0] = x; for (k = 1; k < 5; k++) R[k] = (f->seed * (u64)(k * 2 + 1)) & WM;
	for (k = 0; k < f->n; k++) {
		int a, b, e, sh_;
		d = prn(&s); a = (int)(d >> 8 & 0xff) % 5; b = (int)(d >> 16 & 0xff) % 5; e = (int)(d >> 24 & 0xff); sh_ = (int)(d >> 32 & 0xff) % WBITS; im = prn(&s);
		if (d >> 60 & 1) im &= 0xff;
		im &= WM;
		if (c && ser == k) {
			sljit_uw sz; sljit_uw *buf = sljit_serialize_compiler(c, 0, &sz); struct sljit_compiler *c2;
			if (!buf) { *err = sljit_get_compiler_error(c); return 0; }
			c2 = sljit_deserialize_compiler(buf, sz, 0, NULL);
			free(buf); /* SLJIT_MALLOC is malloc */
			sljit_free_compiler(c); *pc = c = c2;
			if (!c) { *err = -1; return 0; }
		}
		switch (d % 13) {
		case 0: case 1: { static const sljit_s32 o[5] = { SLJIT_ADD, SLJIT_SUB, SLJIT_XOR, SLJIT_AND, SLJIT_OR };
			if (c) sljit_emit_op2(c, o[e % 5], REG[a], 0, REG[b], 0, SLJIT_IMM, (sljit_sw)im);
			switch (e % 5) { case 0: R[a] = R[b] + im; break; case 1: R[a] = R[b] - im; break; case 2: R[a] = R[b] ^ im; break; case 3: R[a] = R[b] & im; break; default: R[a] = R[b] | im; } break; }
		case 2: if (c) sljit_emit_op2(c, SLJIT_MUL, REG[a], 0, REG[a], 0, REG[b], 0); R[a] *= R[b]; break;
		case 3: { static const sljit_s32 o[4] = { SLJIT_SHL, SLJIT_LSHR, SLJIT_ROTL, SLJIT_ROTR };
			if (c) sljit_emit_op2(c, o[e & 3], REG[a], 0, REG[b], 0, SLJIT_IMM, sh_);
			t = R[b];
			switch (e & 3) { case 0: R[a] = t << sh_; break; case 1: R[a] = t >> sh_; break; case 2: R[a] = sh_ ? (t << sh_) | (t >> (WBITS - sh_)) : t; break; default: R[a] = sh_ ? (t >> sh_) | (t << (WBITS - sh_)) : t; } break; }
		case 4: if (c) sljit_emit_op1(c, e & 1 ? SLJIT_CLZ : SLJIT_REV, REG[a], 0, REG[b], 0);
			if (e & 1) R[a] = (u64)clzw(R[b]); else { int q; t = 0; for (q = 0; q < WBYTES; q++) t |= (R[b] >> (8 * q) & 0xff) << (8 * (WBYTES - 1 - q)); R[a] = t; } break;
		case 5: { struct sljit_jump *j = NULL; if (c) { j = sljit_emit_cmp(c, SLJIT_LESS, REG[a], 0, SLJIT_IMM, (sljit_sw)im); sljit_emit_op2(c, SLJIT_ADD, REG[b], 0, REG[b], 0, SLJIT_IMM, 1234567); sljit_set_label(j, sljit_emit_label(c)); }
			if (!((R[a] & WM) < im)) R[b] += 1234567; break; }
		case 6: if (c) sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(SLJIT_SP), (e & 3) * WBYTES, REG[a], 0); L[e & 3] = R[a]; break;
		case 7: if (c) sljit_emit_op2(c, SLJIT_XOR, REG[a], 0, REG[a], 0, SLJIT_MEM1(SLJIT_SP), (e & 3) * WBYTES); R[a] ^= L[e & 3]; break;
		case 8: if (nc < 4) { if (c) { f->cv[nc] = (sljit_sw)im; sljit_emit_const(c, SLJIT_MOV, SLJIT_R3, 0, (sljit_sw)im); sljit_emit_op2(c, SLJIT_ADD, REG[a], 0, REG[a], 0, SLJIT_R3, 0); } R[a] += (u64)f->cv[nc]; nc++; } break;
		case 9: { s32 v = (s32)R[b]; if (c) { sljit_emit_fop1(c, SLJIT_CONV_F64_FROM_S32, SLJIT_FR0, 0, REG[b], 0); sljit_emit_fop1(c, e & 1 ? SLJIT_NEG_F64 : SLJIT_ABS_F64, SLJIT_FR1, 0, SLJIT_FR0, 0);
				sljit_emit_fop2(c, SLJIT_MUL_F64, SLJIT_FR1, 0, SLJIT_FR1, 0, SLJIT_FR1, 0); sljit_emit_fop1(c, e & 1 ? SLJIT_NEG_F64 : SLJIT_ABS_F64, SLJIT_FR1, 0, SLJIT_FR0, 0);
				sljit_emit_fset64(c, SLJIT_FR2, 0.5); sljit_emit_fop2(c, SLJIT_MUL_F64, SLJIT_FR1, 0, SLJIT_FR1, 0, SLJIT_FR2, 0); sljit_emit_fop1(c, SLJIT_CONV_S32_FROM_F64, SLJIT_R3, 0, SLJIT_FR1, 0);
				sljit_emit_op1(c, SLJIT_MOV_S32, SLJIT_R3, 0, SLJIT_R3, 0); sljit_emit_op2(c, SLJIT_XOR, REG[a], 0, REG[a], 0, SLJIT_R3, 0); }
			{ double q = (double)v; q = (e & 1) ? -q : (q < 0 ? -q : q); q *= 0.5; R[a] ^= (u64)(s64)(s32)q; } break; }
		case 10: if (!f->hasj) { f->hasj = 1;
				if (c) { struct sljit_jump *j; sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(SLJIT_SP), 5 * WBYTES, SLJIT_R1, 0); sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(SLJIT_SP), 6 * WBYTES, SLJIT_R2, 0);
					j = sljit_emit_call(c, SLJIT_CALL | SLJIT_REWRITABLE_JUMP, SLJIT_ARGS1(W, W)); sljit_set_target(j, (sljit_uw)hlp0);
					sljit_emit_op1(c, SLJIT_MOV, SLJIT_R1, 0, SLJIT_MEM1(SLJIT_SP), 5 * WBYTES); sljit_emit_op1(c, SLJIT_MOV, SLJIT_R2, 0, SLJIT_MEM1(SLJIT_SP), 6 * WBYTES); }
				R[0] = f->hl ? (R[0] ^ 0x5a5a) + 77 : R[0] * 3 + 1; } break;
		case 11: if (c) { sljit_emit_op2u(c, SLJIT_SUB | SLJIT_SET_SIG_LESS, REG[a], 0, SLJIT_IMM, (sljit_sw)im); sljit_emit_select(c, SLJIT_SIG_LESS, REG[b], SLJIT_IMM, 4321, REG[b]); }
			if ((sljit_sw)R[a] < (sljit_sw)im) R[b] = 4321; break;
		default: if (c) sljit_emit_op2(c, SLJIT_ADD, SLJIT_R0, 0, SLJIT_R0, 0, REG[b], 0); R[0] += R[b]; break;
		}
		R[a] &= WM; R[b] &= WM; R[0] &= WM;
	}
	if (c) { for (k = 1; k < 5; k++) sljit_emit_op2(c, SLJIT_XOR, SLJIT_R0, 0, SLJIT_R0, 0, REG[k], 0); sljit_emit_return(c, SLJIT_MOV, SLJIT_R0, 0); *err = sljit_get_compiler_error(c); }
	for (k = 1; k < 5; k++) R[0] ^= R[k];
	f->nc = nc;
	return R[0] & WM;
}
typedef struct { fn f[SLOTS]; u8 *raw[SLOTS]; sw rawoff[SLOTS]; sljit_uw rawsize[SLOTS]; u32 rawpat[SLOTS]; int id; } tstate;
#if defined(SLJIT_CONFIG_ARM_THUMB2) && SLJIT_CONFIG_ARM_THUMB2
#define BASE(f) ((u8*)((sljit_uw)(f)->code & ~(sljit_uw)1))
#else
#define BASE(f) ((u8*)(f)->code)
#endif
static int check_fn(tstate *t, int s)
{
	fn *f = &t->f[s];
	if (f->code && memcmp(BASE(f), f->copy, f->size)) {
		sljit_uw k = 0; while (BASE(f)[k] == f->copy[k]) k++;
		fail("thread %d: byte %lu of the code in slot %d was changed", t->id, (unsigned long)k, s); return 0; }
	return 1;
}
static u8 pat(tstate *t, int s, sljit_uw k) { return (u8)((t->rawpat[s] + (u32)k * 2654435761u) >> 13); }
static int check_raw(tstate *t, int s)
{
	sljit_uw k; u8 *p = t->raw[s] - t->rawoff[s];
	if (!t->raw[s]) return 1;
	for (k = 0; k < t->rawsize[s]; k++) if (p[k] != pat(t, s, k)) { fail("thread %d: byte %lu of the raw block in slot %d was changed", t->id, (unsigned long)k, s); return 0; }
	return 1;
}
static void free_raw(tstate *t, int s) { if (t->raw[s]) { check_raw(t, s); sljit_free_exec(t->raw[s]); t->raw[s] = NULL; } }
static void free_fn(tstate *t, int s) { fn *f = &t->f[s]; if (f->code) { check_fn(t, s); sljit_free_code(f->code, NULL); free(f->copy); f->code = NULL; } }
static void gen(tstate *t, const op *o)
{
	fn *f = &t->f[o->s]; struct sljit_compiler *c; struct sljit_const *k; struct sljit_jump *j; int e = 0, n;
	free_fn(t, o->s); free_raw(t, o->s);
	memset(f, 0, sizeof(*f));
	f->seed = o->a; f->n = o->n;
	c = sljit_create_compiler(NULL);
	if (!c) { fail("thread %d: no compiler", t->id); return; }
	program(f, &c, o->a % 3 == 0 ? (int)(o->a >> 8 & 0xffff) % (o->n + 1) : -1, 0, &e);
	if (e || !c) { fail("thread %d: emission error %d", t->id, e); if (c) sljit_free_compiler(c); return; }
	f->code = sljit_generate_code(c, 0, NULL);
	if (!f->code) { fail("thread %d: code generation error %d", t->id, sljit_get_compiler_error(c)); sljit_free_compiler(c); return; }
	f->size = sljit_get_generated_code_size(c); f->off = sljit_get_executable_offset(c);
	for (n = 0, k = sljit_get_first_const(c); k && n < 4; k = sljit_get_next_const(k)) f->ca[n++] = sljit_get_const_addr(k);
	if (n != f->nc) fail("thread %d: %d constants instead of %d", t->id, n, f->nc);
	f->ja = 0;
	for (j = sljit_get_first_jump(c); j; j = sljit_get_next_jump(j)) if (sljit_jump_has_target(j)) f->ja = sljit_get_jump_addr(j);
	if ((f->ja != 0) != f->hasj) fail("thread %d: the call is not in the list of jumps", t->id);
	f->copy = malloc(f->size); memcpy(f->copy, BASE(f), f->size);
	sljit_free_compiler(c);
}
/* answers of the queries, must be the same in all threads */
static const int feats[16] = { SLJIT_HAS_FPU, SLJIT_HAS_VIRTUAL_REGISTERS, SLJIT_HAS_ZERO_REGISTER, SLJIT_HAS_CLZ, SLJIT_HAS_CTZ, SLJIT_HAS_REV, SLJIT_HAS_ROT, SLJIT_HAS_CMOV, SLJIT_HAS_PREFETCH, SLJIT_HAS_COPY_F32, SLJIT_HAS_COPY_F64, SLJIT_HAS_F64_AS_F32_PAIR, SLJIT_HAS_SIMD, SLJIT_HAS_ATOMIC, SLJIT_HAS_MEMORY_BARRIER, SLJIT_HAS_FPU };
static void simd_answers(s32 *r)
{
	struct sljit_compiler *c = sljit_create_compiler(NULL); int k;
	static const sljit_s32 t[8] = { SLJIT_SIMD_REG_64, SLJIT_SIMD_REG_128, SLJIT_SIMD_REG_256, SLJIT_SIMD_REG_512, SLJIT_SIMD_REG_64 | SLJIT_SIMD_ELEM_32, SLJIT_SIMD_REG_128 | SLJIT_SIMD_ELEM_64, SLJIT_SIMD_REG_256 | SLJIT_SIMD_ELEM_8, SLJIT_SIMD_REG_512 | SLJIT_SIMD_ELEM_16 };
	if (!c) { fail("no compiler"); return; }
	sljit_emit_enter(c, 0, SLJIT_ARGS0V(), 2 | SLJIT_ENTER_FLOAT(2) | SLJIT_ENTER_VECTOR(2), 0, 0);
	for (k = 0; k < 8; k++) r[k] = sh->feat[12] > 0 ? sljit_emit_simd_mov(c, t[k] | SLJIT_SIMD_TEST, SLJIT_VR0, SLJIT_MEM1(SLJIT_R0), 0) : -1;
	sljit_free_compiler(c);
}
static void answers(s32 *f, s32 *s) { int k; for (k = 0; k < 16; k++) f[k] = sljit_has_cpu_feature(feats[k]); (void)s; }
static void do_op(tstate *t, const op *o)
{
	int s = o->s % SLOTS, k; fn *f = &t->f[s];
	switch (o->k) {
	case O_GEN: gen(t, o); break;
	case O_CALL: if (f->code) { int e; u64 x = o->a & WM, w, g; check_fn(t, s); w = program(f, NULL, -1, x, &e); g = (u64)((sljit_sw (SLJIT_FUNC *)(sljit_sw))f->code)((sljit_sw)x) & WM;
			if (g != w) fail("thread %d: the function in slot %d returns %llx instead of %llx", t->id, s, (unsigned long long)g, (unsigned long long)w); } break;
	case O_CONST: if (f->code && f->nc) { k = (int)(o->a % (u64)f->nc); check_fn(t, s); sljit_set_const(f->ca[k], SLJIT_MOV, (sljit_sw)prn(&(u64){ o->a }), f->off); f->cv[k] = (sljit_sw)prn(&(u64){ o->a }); memcpy(f->copy, BASE(f), f->size); } break;
	case O_RECALL: if (f->code && f->ja) { check_fn(t, s); f->hl = (int)(o->a & 1); sljit_set_jump_addr(f->ja, f->hl ? (sljit_uw)hlp1 : (sljit_uw)hlp0, f->off); memcpy(f->copy, BASE(f), f->size); } break;
	case O_FREE: free_fn(t, s); free_raw(t, s); break;
	case O_RAW: free_fn(t, s); free_raw(t, s);
		t->rawsize[s] = 1 + (sljit_uw)(o->a % (o->a & 0x10000 ? 70000 : 3000)); t->rawpat[s] = (u32)(o->a >> 20);
		t->raw[s] = (u8*)sljit_malloc_exec(t->rawsize[s]);
		if (!t->raw[s]) { fail("thread %d: allocation of %lu bytes failed", t->id, (unsigned long)t->rawsize[s]); break; }
		t->rawoff[s] = SLJIT_EXEC_OFFSET(t->raw[s]); t->raw[s] += t->rawoff[s]; { sljit_uw q; u8 *p = t->raw[s] - t->rawoff[s]; for (q = 0; q < t->rawsize[s]; q++) p[q] = pat(t, s, q); } break;
	case O_RAWCHECK: check_raw(t, s); check_fn(t, s); break;
	case O_STACK: { sljit_uw mx = 1 + (sljit_uw)(o->a >> 8 & 0x3ffff), st = 1 + (sljit_uw)(o->a >> 30) % mx; struct sljit_stack *z = sljit_allocate_stack(st, mx, NULL); u8 *e, *q;
		if (!z) { fail("thread %d: no stack of %lu bytes", t->id, (unsigned long)mx); break; }
		e = z->end;
		for (q = z->start; q < e; q += 1000) *q = (u8)(uw)q;
		if (!sljit_stack_resize(z, z->min_start)) fail("thread %d: stack is not resized", t->id);
		for (q = e - st; q < e; q += 1000) if (*q != (u8)(uw)q) { fail("thread %d: the stack was changed", t->id); break; }
		memset(z->start, t->id, (size_t)(e - z->start));
		sljit_free_stack(z, NULL); break; }
	case O_UNUSED: sljit_free_unused_memory_exec(); break;
	case O_FEAT: { s32 r[16], m[8]; answers(r, m); for (k = 0; k < 16; k++) if (r[k] != sh->feat[k]) fail("thread %d: feature %d is %d instead of %d", t->id, feats[k], (int)r[k], (int)sh->feat[k]);
		simd_answers(m); for (k = 0; k < 8; k++) if (m[k] != sh->simd[k]) fail("thread %d: vector move form %d returns %d instead of %d", t->id, k, (int)m[k], (int)sh->simd[k]); break; }
	case O_YIELD: sched_yield(); break;
	}
	__atomic_add_fetch(&sh->counts[o->k], 1, __ATOMIC_RELAXED);
}
static int ready, go;
static void *thread_main(void *a)
{
	int id = (int)(sw)a, k; tstate *t = calloc(1, sizeof(*t));
	t->id = id;
	__atomic_add_fetch(&ready, 1, __ATOMIC_SEQ_CST);
	while (!__atomic_load_n(&go, __ATOMIC_ACQUIRE)) sched_yield();
	for (k = 0; k < no[id] && !__atomic_load_n(&sh->failed, __ATOMIC_RELAXED); k++) do_op(t, &ops[id][k]);
	for (k = 0; k < SLOTS; k++) { free_fn(t, k); free_raw(t, k); }
	free(t);
	return NULL;
}
static int run_threads(void)
{
	pthread_t th[MAXT]; int k; sw m0;
	m0 = mapped;
	ready = go = 0;
	for (k = 0; k < nt; k++) if (pthread_create(&th[k], NULL, thread_main, (void*)(sw)k)) { fprintf(stderr, "INFRA: thread\n"); exit(99); }
	while (__atomic_load_n(&ready, __ATOMIC_SEQ_CST) < nt) sched_yield();
	__atomic_store_n(&go, 1, __ATOMIC_RELEASE);
	for (k = 0; k < nt; k++) pthread_join(th[k], NULL);
	if (sh->failed) return 10;
	sljit_free_unused_memory_exec();
	if (mapped != m0) { fail("%ld bytes of mappings are not released", (long)(mapped - m0)); return 10; }
	return 0;
}
static int forks;
static int run_case(void)
{
	pid_t p; int st;
	sh->failed = 0;
	if (!forks) return run_threads();
	fflush(stdout);
	p = fork();
	if (p < 0) { fprintf(stderr, "INFRA: fork\n"); exit(99); }
	if (!p) { arm_watchdog(60); _exit(run_threads()); }
	while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
	if (WIFSIGNALED(st)) { if (!sh->failed) snprintf(sh->msg, sizeof(sh->msg), "the process was ended by signal %d", WTERMSIG(st)); return 10; }
	if (WEXITSTATUS(st) == 99) exit(99);
	if (WEXITSTATUS(st) == 12) { snprintf(sh->msg, sizeof(sh->msg), "the threads hang"); return 10; }
	if (WEXITSTATUS(st) && !sh->failed) { snprintf(sh->msg, sizeof(sh->msg), "the process exited with %d", WEXITSTATUS(st)); return 10; }
	return WEXITSTATUS(st);
}
/* the answers of a process with a single thread */
static void setup(void)
{
	pid_t p; int st;
	if (!forks) { /* first use in this thread, the values kept by the library are never changed later */
		sljit_free_stack(sljit_allocate_stack(1, 1, NULL), NULL);
		{ u8 *p = (u8*)sljit_malloc_exec(1); sljit_free_exec(p + SLJIT_EXEC_OFFSET(p)); } sljit_free_unused_memory_exec();
		answers(sh->feat, sh->simd); simd_answers(sh->simd); return; }
	p = fork();
	if (p < 0) { fprintf(stderr, "INFRA: fork\n"); exit(99); }
	if (!p) { answers(sh->feat, sh->simd); simd_answers(sh->simd); _exit(0); }
	waitpid(p, &st, 0);
	if (st) { fprintf(stderr, "INFRA: setup\n"); exit(99); }
}
static void make_case(u64 seed, u64 n)
{
	int t, k, len;
	rseed(seed, n);
	dseed = r64();
	nt = 2 + (int)rn(MAXT - 1);
	len = rp(60) ? 1 + (int)rn(12) : 1 + (int)rn(MAXO - 1);
	if (!forks && rp(50)) len = 1 + (int)rn(MAXO - 1);
	k = (int)rn(5);
	/* (the first operation is often the same in all threads) */
	{ op fo; memset(&fo, 0, sizeof(fo)); fo.k = k == 0 ? O_GEN : k == 1 ? O_FEAT : k == 2 ? O_RAW : k == 3 ? O_STACK : -1; fo.a = r64(); fo.n = 20;
	for (t = 0; t < nt; t++) {
		no[t] = len;
		for (k = 0; k < len; k++) {
			op *o = &ops[t][k]; static const int w[O_KINDS] = { 22, 26, 8, 8, 10, 12, 4, 3, 4, 2, 1 }; int r = (int)rn(100), q = 0;
			if (k == 0 && fo.k >= 0) { *o = fo; continue; }
			while (r >= w[q]) r -= w[q++];
			o->k = q; o->s = (int)rn(SLOTS); o->a = r64(); o->n = 1 + (int)rn(rp(70) ? 30 : 250);
		}
	} }
}
static void write_case(FILE *f)
{
	int t, k;
	fprintf(f, "thr %llx %d %d\n", (unsigned long long)dseed, nt, forks);
	for (t = 0; t < nt; t++) for (k = 0; k < no[t]; k++) fprintf(f, "i %d %d %d %llx %d\n", t, ops[t][k].k, ops[t][k].s, (unsigned long long)ops[t][k].a, ops[t][k].n);
	fprintf(f, "end\n");
}
static int read_case(FILE *f)
{
	char line[200]; unsigned long long a; int t;
	memset(no, 0, sizeof(no)); nt = 0;
	while (fgets(line, sizeof(line), f)) {
		op o;
		if (!strncmp(line, "end", 3)) break;
		if (sscanf(line, "thr %llx %d %d", &a, &nt, &forks) == 3) { dseed = a; continue; }
		if (sscanf(line, "i %d %d %d %llx %d", &t, &o.k, &o.s, &a, &o.n) != 5) continue;
		o.a = a;
		if (t < 0 || t >= MAXT || o.k < 0 || o.k >= O_KINDS || o.s < 0 || o.s >= SLOTS || o.n < 0 || o.n > 1000 || no[t] >= MAXO) return 1;
		ops[t][no[t]++] = o;
	}
	return nt < 1 || nt > MAXT;
}
#if defined(__SANITIZE_THREAD__)
const char *__tsan_default_options(void) { return "halt_on_error=1:exitcode=10:report_signal_unsafe=0"; }
#endif
int main(int argc, char **argv)
{
	if (argc < 2) return 99;
	setvbuf(stdout, NULL, _IOLBF, 0);
	quiet = 1;
	sh = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (sh == MAP_FAILED) return 99;
	(void)inside_lib;
	if (!strcmp(argv[1], "run") && argc >= 7) {
		u64 seed = strtoull(argv[3], NULL, 10), n = strtoull(argv[4], NULL, 10), end, stop = stop_at();
		progress_open(argv[6]);
		quiet = 0;
		forks = argv[2][0] == 'f';
		setup();
		end = now_ms() + strtoull(argv[5], NULL, 10);
		for (; now_ms() < end && n <= stop; n++) {
			int r, k; u64 h = 14695981039346656037ull;
			pg->cur = n; pg->phase = 0;
			if (!forks) arm_watchdog(100);
			make_case(seed, n);
			pg->cases++;
			for (k = 0; k < nt; k++) { pg->instrs += (u64)no[k]; h = fnv(h, ops[k], sizeof(op) * (size_t)no[k]); }
			r = run_case();
			for (k = 0; k < O_KINDS; k++) { pg->extra[k] += sh->counts[k]; sh->counts[k] = 0; }
			pg->extra[12] += (u64)nt;
			if (r) { printf("MISMATCH case=%llu %s\n", (unsigned long long)n, sh->msg); return 10; }
			if (no[0] > 1 && dset_add(h)) pg->nontriv++;
		}
		return 0;
	}
	if (!strcmp(argv[1], "dump") && argc >= 5) { forks = argv[2][0] == 'f'; make_case(strtoull(argv[3], NULL, 10), strtoull(argv[4], NULL, 10)); write_case(stdout); return 0; }
	if (!strcmp(argv[1], "replay") && argc >= 3) {
		FILE *f = fopen(argv[2], "r"); int r = 0; u64 end;
		if (!f || read_case(f)) { printf("INVALID unreadable\n"); return 3; }
		fclose(f);
		quiet = 0;
		setup();
		arm_watchdog(200);
		end = now_ms() + 3000; /* the schedule is not under control */
		do { r = run_case(); } while (!r && now_ms() < end);
		if (r) { printf("MISMATCH %s\n", sh->msg); return 10; }
		printf("OK\n");
		return 0;
	}
	return 99;
}
