/* abifuzz: function entry, calls, returns against the C ABI (property C06).
   A case is a tree of generated functions, each called from one place, plus calls to C functions of many signatures. The tree is
   called by a generated function that has all saved registers loaded, through a C function of the right type or directly.
   Everything observable is written to slots (arguments, results, saved registers, locals) and compared with a simulation.
   Usage and exit codes as irfuzz. */
#include "core.h"

#define MAXFN 5
#define MAXIT 8
#define SLOTS 128
#define NSLOT (MAXFN * (MAXIT + 2) * SLOTS)
#define POISON 0x5a5ac3c3a5a53c3cull
enum { K_CALLG, K_CALLC, K_SETCTX, K_SPLIT, K_GETRET, K_RET, K_RETTO, K_NKINDS };
static const char *kn[] = { "callg", "callc", "setctx", "split", "getret", "ret", "retto" };
typedef struct { int kind, a, form, tail, rew, sel; } item;
typedef struct { int par, own, conv, keep; char ret; int nargs; char arg[5]; int sc, sv, fsc, fsv, locals; int n; item it[MAXIT]; } fnspec;
typedef struct { u64 seed; int nfn, direct; fnspec f[MAXFN]; } acase;
static acase A;
static u64 *slots, *expect;
static uw *cells; /* [0..] entry, [16..] after the call, [32..] alternative return, [48..] split fragments */
#define C_ENTRY(f) (f)
#define C_AFTER(f) (16 + (f))
#define C_ALT(f) (32 + (f))
#define C_FRAG(f, i) (48 + (f) * MAXIT + (i))
#define C_STUB(f, i) (112 + (f) * MAXIT + (i))
#define C_DATA 192
static char msg[600];
#if (defined __i386__ && __i386__) || (defined __x86_64__) || (defined __aarch64__) || (defined __riscv) || (defined __loongarch__) || (defined __powerpc__) || (defined __mips64)
#define STACK_ALIGN 16
#else
#define STACK_ALIGN 8
#endif

/* ---------- values ---------- */
static u64 hv(int fn, int item_, int k) { u64 x = A.seed ^ ((u64)(fn * 1000 + item_ * 50) * 0x9e3779b97f4a7c15ull + (u64)k * 0xd1342543de82ef95ull); splitmix(&x); return splitmix(&x); }
static uw wval(u64 h)
{
	u64 x = h, v = splitmix(&x);
	switch (h & 7) {
	case 0: return (uw)(sw)(s64)(v % 300) - 150;
	case 1: return (uw)(sw)(s32)v;
	case 2: return (uw)(u32)v;
	case 3: return (uw)(v >> 32 << 32) | (uw)(u32)(0x80000000u - 1 + (u32)(v % 3));
	default: return (uw)v;
	}
}
static u64 fixd(u64 v) { if ((v & 0x7ff0000000000000ull) == 0x7ff0000000000000ull) v ^= 0x4000000000000000ull; return v; }
static u32 fixf(u32 v) { if ((v & 0x7f800000u) == 0x7f800000u) v ^= 0x40000000u; return v; }
static u64 argval(char t, u64 h)
{
	switch (t) {
	case 'I': case 'i': return (u32)wval(h);
	case 'D': return fixd(h & 1 ? h : h << 32);
	case 'F': return fixf((u32)(h >> 7));
	case 'V': return 0;
	default: return wval(h);
	}
}

/* ---------- the C side ---------- */
typedef struct { const char *sig; void *callee; void (*caller)(void *f, const u64 *a, u64 *r); } stub;
typedef struct { const char *sig; int n; u64 v[4]; uw fa; } logent;
static logent clog_[32], elog[32]; static int nclog, nelog;
static uw fa_ref; static void (SLJIT_FUNC *trash_fn)(void);
static logent *lgs(const char *s, uw fa) { static logent dummy; logent *l = nclog < 32 ? &clog_[nclog++] : &dummy; l->sig = s; l->n = 0; l->fa = fa; return l; }
static u64 cret(char t, int n) { return argval(t, hv(77, n, 3)); }
static u64 d2u(double d) { u64 u; memcpy(&u, &d, 8); return u; } static u64 f2u(float f) { u32 u; memcpy(&u, &f, 4); return u; }
static double u2d(u64 u) { double d; memcpy(&d, &u, 8); return d; } static float u2f(u64 v) { u32 u = (u32)v; float f; memcpy(&f, &u, 4); return f; }
#define T_V void
#define T_W sw
#define T_I s32
#define T_D double
#define T_F float
#define L_W(x) l->v[l->n++] = (uw)(x);
#define L_I(x) l->v[l->n++] = (u32)(x);
#define L_D(x) l->v[l->n++] = d2u(x);
#define L_F(x) l->v[l->n++] = f2u(x);
#define X_V return;
#define X_W return (sw)cret('W', nth);
#define X_I return (s32)cret('I', nth);
#define X_D return u2d(cret('D', nth));
#define X_F return u2f(cret('F', nth));
#define G_W(i) ((sw)p[i])
#define G_I(i) ((s32)p[i])
#define G_D(i) u2d(p[i])
#define G_F(i) u2f(p[i])
#define C_V(x) *r = 0; x
#define C_W(x) *r = (uw)(x)
#define C_I(x) *r = (u32)(x)
#define C_D(x) *r = d2u(x)
#define C_F(x) *r = f2u(x)
#define PRE(s) logent *l = lgs(s, (uw)__builtin_frame_address(0)); int nth = nclog - 1; (void)nth;
#define POST(R) trash_fn(); X_##R
#define ST0(R) static T_##R SLJIT_FUNC ce_##R(void) { PRE(#R) (void)l; POST(R) } static void ca_##R(void *f, const u64 *p, u64 *r) { C_##R(((T_##R (SLJIT_FUNC*)(void))f)()); }
#define ST1(R,A) static T_##R SLJIT_FUNC ce_##R##A(T_##A a) { PRE(#R #A) L_##A(a) POST(R) } static void ca_##R##A(void *f, const u64 *p, u64 *r) { C_##R(((T_##R (SLJIT_FUNC*)(T_##A))f)(G_##A(0))); }
#define ST2(R,A,B) static T_##R SLJIT_FUNC ce_##R##A##B(T_##A a, T_##B b) { PRE(#R #A #B) L_##A(a) L_##B(b) POST(R) } \
 static void ca_##R##A##B(void *f, const u64 *p, u64 *r) { C_##R(((T_##R (SLJIT_FUNC*)(T_##A, T_##B))f)(G_##A(0), G_##B(1))); }
#define ST3(R,A,B,C) static T_##R SLJIT_FUNC ce_##R##A##B##C(T_##A a, T_##B b, T_##C c) { PRE(#R #A #B #C) L_##A(a) L_##B(b) L_##C(c) POST(R) } \
 static void ca_##R##A##B##C(void *f, const u64 *p, u64 *r) { C_##R(((T_##R (SLJIT_FUNC*)(T_##A, T_##B, T_##C))f)(G_##A(0), G_##B(1), G_##C(2))); }
#define ST4(R,A,B,C,D) static T_##R SLJIT_FUNC ce_##R##A##B##C##D(T_##A a, T_##B b, T_##C c, T_##D d) { PRE(#R #A #B #C #D) L_##A(a) L_##B(b) L_##C(c) L_##D(d) POST(R) } \
 static void ca_##R##A##B##C##D(void *f, const u64 *p, u64 *r) { C_##R(((T_##R (SLJIT_FUNC*)(T_##A, T_##B, T_##C, T_##D))f)(G_##A(0), G_##B(1), G_##C(2), G_##D(3))); }
#include "abistubs.h"
#define NSTUBS ((int)(sizeof(stubs) / sizeof(stubs[0])))

/* the signature of a generated function as the letters of a stub */
static char cls(char c) { return c == 'P' || c == 'w' || c == 'p' ? 'W' : c == 'i' ? 'I' : c; }
static void fsig(const fnspec *f, char *o) { int k; *o++ = cls(f->ret); for (k = 0; k < f->nargs; k++) *o++ = cls(f->arg[k]); *o = 0; }
static int find_stub(const char *s) { int k; for (k = 0; k < NSTUBS; k++) if (!strcmp(stubs[k].sig, s)) return k; return -1; }

static const stub *top_stub; static void *top_fn; static u64 top_args[4], top_ret;
static void SLJIT_FUNC tramp(void) { top_stub->caller(top_fn, top_args, &top_ret); }

/* ---------- argument types ---------- */
static int atype(char c)
{
	switch (c) {
	case 'W': return SLJIT_ARG_TYPE_W; case 'w': return SLJIT_ARG_TYPE_W_R; case 'P': return SLJIT_ARG_TYPE_P; case 'p': return SLJIT_ARG_TYPE_P_R;
	case 'I': return SLJIT_ARG_TYPE_32; case 'i': return SLJIT_ARG_TYPE_32_R; case 'D': return SLJIT_ARG_TYPE_F64; case 'F': return SLJIT_ARG_TYPE_F32;
	}
	return SLJIT_ARG_TYPE_RET_VOID;
}
static int isfl(char c) { return c == 'D' || c == 'F'; }
static int enter_types(const fnspec *f) { int t = SLJIT_ARG_RETURN(atype(f->ret)), k; for (k = 0; k < f->nargs; k++) t |= SLJIT_ARG_VALUE(atype(f->arg[k]), k + 1); return t; }
static int call_types(char ret, const char *args, int n) { int t = SLJIT_ARG_RETURN(atype(ret)), k; for (k = 0; k < n; k++) t |= SLJIT_ARG_VALUE(atype(args[k]) & ~SLJIT_ARG_TYPE_SCRATCH_REG, k + 1); return t; }
static int nint(const char *a, int n) { int c = 0; while (n-- > 0) c += !isfl(a[n]); return c; }
/* the register of the k-th argument inside of the function */
static int areg(const fnspec *f, int k)
{
	int w = 0, s = 0, fl = 0, j;
	for (j = 0; j <= k; j++) {
		char c = f->arg[j];
		if (isfl(c)) { if (j == k) return SLJIT_FR(fl); fl++; }
		else if (c >= 'a') { if (j == k) return SLJIT_R(w); w++; }
		else { if (j == k) return SLJIT_S(s); s++; w++; }
	}
	return 0;
}

/* ---------- locals of a function ---------- */
static int loc_offs(int fi, sw *o) /* word offsets */
{
	const fnspec *f = &A.f[fi]; int n = 0, k, words = f->locals / WBYTES;
	if (words <= 0) return 0;
	o[n++] = 0;
	if (words > 1) o[n++] = (sw)(words - 1) * WBYTES;
	for (k = 0; k < 8 && n < words && n < 10; k++) { sw v = (sw)(hv(fi, 30, 900 + k) % (u64)words) * WBYTES; int j; for (j = 0; j < n; j++) if (o[j] == v) break; if (j == n) o[n++] = v; }
	return n;
}
static int loc_tail(int fi) { return A.f[fi].locals % WBYTES ? A.f[fi].locals - 1 : -1; }
#define S_VAL(fi, k) ((uw)wval(hv(fi, 31, 100 + (k))))
#define FS_VAL(fi, k) fixd(hv(fi, 32, 200 + (k)))
#define LOC_VAL(fi, k) ((uw)hv(fi, 33, 300 + (k)))
#define SLOT(fi, it, k) (((fi) * (MAXIT + 2) + (it) + 1) * SLOTS + (k)) /* it -1: entry */
/* slot layout of an item: 0 marker, 1 result, 2.. saved, 40.. float saved, 70.. locals, 90 tail byte, 95 local base alignment */

/* ---------- emission ---------- */
typedef struct cctx { struct sljit_compiler *c; int npend; int pend[MAXFN]; struct { struct sljit_jump *j; int fn; } jf[MAXFN]; int njf;
	struct { struct sljit_label *l; int cell; } lab[64]; int nlab; } cctx;
static void *codes[MAXFN * (MAXIT + 2) + 4]; static int ncodes; static int rc_err;
static struct sljit_label *fnlab[MAXFN]; static cctx *fncomp[MAXFN];
#define E(x) do { int e_ = (x); if (e_ && !rc_err) { rc_err = e_; snprintf(msg, sizeof(msg), "emission error %d line %d", e_, __LINE__); } } while (0)
static void setlab(cctx *cc, int cell) { struct sljit_label *l = sljit_emit_label(cc->c); if (cc->nlab < 64) { cc->lab[cc->nlab].l = l; cc->lab[cc->nlab++].cell = cell; } }
#define MEM0S(s) SLJIT_MEM0(), (sw)&slots[s]
/* 32 bit halves of big endian words are left zero: slots hold the native word at their start */
static void rec_w(struct sljit_compiler *c, int s, int r) { E(sljit_emit_op1(c, SLJIT_MOV, MEM0S(s), r, 0)); }
static void rec_i(struct sljit_compiler *c, int s, int r) { E(sljit_emit_op1(c, SLJIT_MOV32, MEM0S(s), r, 0)); }
static void rec_d(struct sljit_compiler *c, int s, int r) { E(sljit_emit_fop1(c, SLJIT_MOV_F64, MEM0S(s), r, 0)); }
static void rec_f(struct sljit_compiler *c, int s, int r) { E(sljit_emit_fop1(c, SLJIT_MOV_F32, MEM0S(s), r, 0)); }
static void rec_t(struct sljit_compiler *c, char t, int s, int r) { switch (cls(t)) { case 'W': rec_w(c, s, r); break; case 'I': rec_i(c, s, r); break; case 'D': rec_d(c, s, r); break; case 'F': rec_f(c, s, r); break; } }
static void set_t(struct sljit_compiler *c, char t, int r, u64 v)
{
	switch (cls(t)) {
	case 'W': E(sljit_emit_op1(c, SLJIT_MOV, r, 0, SLJIT_IMM, (sw)(uw)v)); break;
	case 'I': E(sljit_emit_op1(c, SLJIT_MOV32, r, 0, SLJIT_IMM, (s32)v)); break;
	case 'D': E(sljit_emit_fset64(c, r, u2d(v))); break;
	case 'F': E(sljit_emit_fset32(c, r, u2f(v))); break;
	}
}
/* expected slot content for a value of a type */
static void exp_t(char t, int s, u64 v)
{
	u8 *p = (u8*)&expect[s];
	switch (cls(t)) {
	case 'W': { uw w = (uw)v; memcpy(p, &w, sizeof(w)); break; }
	case 'I': case 'F': { u32 w = (u32)v; memcpy(p, &w, 4); break; }
	case 'D': memcpy(p, &v, 8); break;
	}
}

static void emit_state(cctx *cc, int fi, int it)
{
	const fnspec *f = &A.f[fi]; sw o[12]; int k, n = loc_offs(fi, o);
	for (k = 0; k < f->sv; k++) rec_w(cc->c, SLOT(fi, it, 2 + k), SLJIT_S(k));
	for (k = 0; k < f->fsv; k++) rec_d(cc->c, SLOT(fi, it, 40 + k), SLJIT_FS(k));
	for (k = 0; k < n; k++) E(sljit_emit_op1(cc->c, SLJIT_MOV, MEM0S(SLOT(fi, it, 70 + k)), SLJIT_MEM1(SLJIT_SP), o[k]));
	if (loc_tail(fi) >= 0) E(sljit_emit_op1(cc->c, SLJIT_MOV_U8, MEM0S(SLOT(fi, it, 90)), SLJIT_MEM1(SLJIT_SP), loc_tail(fi)));
}
static void emit_set_state(cctx *cc, int fi)
{
	const fnspec *f = &A.f[fi]; sw o[12]; int k, n = loc_offs(fi, o);
	for (k = 0; k < f->sv; k++) E(sljit_emit_op1(cc->c, SLJIT_MOV, SLJIT_S(k), 0, SLJIT_IMM, (sw)S_VAL(fi, k)));
	for (k = 0; k < f->sc; k++) E(sljit_emit_op1(cc->c, SLJIT_MOV, SLJIT_R(k), 0, SLJIT_IMM, (sw)0x51515151));
	for (k = 0; k < f->fsv; k++) E(sljit_emit_fset64(cc->c, SLJIT_FS(k), u2d(FS_VAL(fi, k))));
	for (k = 0; k < f->fsc; k++) E(sljit_emit_fset64(cc->c, SLJIT_FR(k), 1.25));
	for (k = 0; k < n; k++) E(sljit_emit_op1(cc->c, SLJIT_MOV, SLJIT_MEM1(SLJIT_SP), o[k], SLJIT_IMM, (sw)LOC_VAL(fi, k)));
	if (loc_tail(fi) >= 0) E(sljit_emit_op1(cc->c, SLJIT_MOV_U8, SLJIT_MEM1(SLJIT_SP), loc_tail(fi), SLJIT_IMM, (u8)LOC_VAL(fi, 40)));
}

static void finish(cctx *cc);
static void emit_fn(cctx *cc, int fi);
static int has_retto(int fi) { int k; for (k = 0; k < A.f[fi].n; k++) if (A.f[fi].it[k].kind == K_RETTO) return 1; return 0; }
static int fopts(const fnspec *f) { return f->conv ? (SLJIT_ENTER_REG_ARG | (f->keep ? SLJIT_ENTER_KEEP(f->keep) : 0)) : 0; }

/* the registers a call target may be computed in: not an argument, not kept by the two functions */
static int cand(const fnspec *f, int nargs_int, int ckeep, int base, int sel)
{
	int l[64], n = 0, k, km = f->keep > ckeep ? f->keep : ckeep;
	for (k = nargs_int; k < f->sc; k++) if (!base || !IS_VIRT(SLJIT_R(k))) l[n++] = SLJIT_R(k);
	for (k = km; k < f->sv; k++) if (!base || !IS_VIRT(SLJIT_S(k))) l[n++] = SLJIT_S(k);
	return n ? l[sel % n] : 0;
}
static int s_index(const fnspec *f, int r) { int k; for (k = 0; k < f->sv; k++) if (SLJIT_S(k) == r) return k; return -1; }
/* what a call form writes into saved registers and the local area: shared by emission and simulation */
typedef struct { int form, r1, r2, sh; sw off; uw v1, v2; int loc; } ctgt;
static void call_target(const fnspec *f, const item *t, int nai, int ckeep, int cell, int known, ctgt *g)
{
	uw ca = (uw)&cells[cell]; int s = t->sel;
	memset(g, 0, sizeof(*g)); g->form = t->form;
	if (g->form == 2 && !known) g->form = 4;
	if (g->form == 3) { g->r1 = cand(f, nai, ckeep, 0, s); if (!g->r1) g->form = 4; g->v1 = cells[cell]; }
	if (g->form == 5) { static const sw os[] = { 0, 8, -8, 127, 248, -256, 4088, -4096, 32760, 0x12340, -0x54328 }; g->r1 = cand(f, nai, ckeep, 1, s); if (!g->r1) g->form = 4; g->off = os[(s / 7) % 11]; g->v1 = ca - (uw)g->off; }
	if (g->form == 7) { g->r1 = cand(f, nai, ckeep, 1, s); g->r2 = cand(f, nai, ckeep, 1, s + 1 + s / 5 % 3); g->sh = s % 4; if (!g->r1 || !g->r2 || g->r1 == g->r2) g->form = 4; g->v2 = (uw)(s % 37); g->v1 = ca - (g->v2 << g->sh); }
	if (g->form == 6) { if (f->locals < 2 * WBYTES) g->form = 4; g->loc = 1; }
}
/* the address is in the first word of the local area in form 6; the word is compared like the others (loc 0) */

static void emit_call_(cctx *cc, int fi, int it, int split)
{
	const fnspec *f = &A.f[fi]; const item *t = &f->it[it]; struct sljit_compiler *c = cc->c; char ret, args[5]; int na, conv, ckeep = 0, types, k, fl = 0, wi = 0, cell, type; ctgt g;
	int child = -1, stubi = -1, known; struct sljit_jump *j = NULL;
	if (t->kind == K_CALLG) { const fnspec *ch; child = t->a; ch = &A.f[child]; ret = ch->ret; na = ch->nargs; memcpy(args, ch->arg, 5); conv = ch->conv; ckeep = ch->keep; cell = C_ENTRY(child); known = ch->own == 1; }
	else { const char *s; stubi = t->a; s = stubs[stubi].sig; ret = s[0]; if (ret == 'W' && (t->sel & 64)) ret = 'P'; na = (int)strlen(s) - 1; memcpy(args, s + 1, (size_t)na); conv = 0; cell = C_STUB(fi, it); cells[cell] = (uw)stubs[stubi].callee; known = 1; }
	types = call_types(ret, args, na);
	if (child >= 0 && A.f[child].own == 1) { /* compiled first, in its own compiler */
		cctx *n = (cctx*)calloc(1, sizeof(*n)); n->c = sljit_create_compiler(NULL); emit_fn(n, child); finish(n); free(n);
	} else if (child >= 0 && !(A.f[child].own == 2 && fncomp[child] == cc)) cc->pend[cc->npend++] = child;
	call_target(f, t, nint(args, na), ckeep, cell, known, &g);
	switch (g.form) { /* target first: the arguments must not be lost */
	case 3: E(sljit_emit_op1(c, SLJIT_MOV, g.r1, 0, SLJIT_MEM0(), (sw)&cells[cell])); break;
	case 5: E(sljit_emit_op1(c, SLJIT_MOV, g.r1, 0, SLJIT_IMM, (sw)g.v1)); break;
	case 6: E(sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(SLJIT_SP), 0, SLJIT_MEM0(), (sw)&cells[cell])); break;
	case 7: E(sljit_emit_op1(c, SLJIT_MOV, g.r1, 0, SLJIT_IMM, (sw)g.v1)); E(sljit_emit_op1(c, SLJIT_MOV, g.r2, 0, SLJIT_IMM, (sw)g.v2)); break;
	}
	for (k = 0; k < na; k++) set_t(c, args[k], isfl(args[k]) ? SLJIT_FR(fl++) : SLJIT_R(wi++), argval(args[k], hv(fi, it, 10 + k)));
	type = (conv ? SLJIT_CALL_REG_ARG : SLJIT_CALL) | (t->tail ? SLJIT_CALL_RETURN : 0);
	switch (g.form) {
	case 0: case 1:
		j = sljit_emit_call(c, type | (g.form == 1 ? SLJIT_REWRITABLE_JUMP : 0), types);
		if (!j) { E(sljit_get_compiler_error(c) ? sljit_get_compiler_error(c) : 77); return; }
		if (known) sljit_set_target(j, cells[cell]);
		else if (fnlab[child] && fncomp[child] == cc) sljit_set_label(j, fnlab[child]);
		else { cc->jf[cc->njf].j = j; cc->jf[cc->njf++].fn = child; }
		break;
	case 2: E(sljit_emit_icall(c, type, types, SLJIT_IMM, (sw)cells[cell])); break;
	case 3: E(sljit_emit_icall(c, type, types, g.r1, 0)); break;
	case 4: E(sljit_emit_icall(c, type, types, SLJIT_MEM0(), (sw)&cells[cell])); break;
	case 5: E(sljit_emit_icall(c, type, types, SLJIT_MEM1(g.r1), g.off)); break;
	case 6: E(sljit_emit_icall(c, type, types, SLJIT_MEM1(SLJIT_SP), 0)); break;
	case 7: E(sljit_emit_icall(c, type, types, SLJIT_MEM2(g.r1, g.r2), g.sh)); break;
	}
	if (t->tail) return;
	if (child >= 0) setlab(cc, C_AFTER(child));
	if (ret != 'V') rec_t(c, ret, SLOT(fi, it, 1), isfl(ret) ? SLJIT_FR0 : SLJIT_R0);
	E(sljit_emit_op1(c, SLJIT_MOV, MEM0S(SLOT(fi, it, 0)), SLJIT_IMM, 1));
	if (child >= 0 && has_retto(child)) {
		struct sljit_jump *o = sljit_emit_jump(c, SLJIT_JUMP);
		setlab(cc, C_ALT(child));
		rec_w(c, SLOT(fi, it, 1), SLJIT_R0);
		E(sljit_emit_op1(c, SLJIT_MOV, MEM0S(SLOT(fi, it, 0)), SLJIT_IMM, 2));
		if (o) sljit_set_label(o, sljit_emit_label(c));
	}
	emit_state(cc, fi, it);
}

static const int wops[] = { SLJIT_MOV, SLJIT_MOV_U8, SLJIT_MOV_S8, SLJIT_MOV_U16, SLJIT_MOV_S16, SLJIT_MOV_U32, SLJIT_MOV_S32 };
static const int iops[] = { SLJIT_MOV32, SLJIT_MOV32_U8, SLJIT_MOV32_S8, SLJIT_MOV32_U16, SLJIT_MOV32_S16 };
#if W64
#define NWOPS 7
#else
#define NWOPS 5
#endif
/* the value that the return instruction of a function passes; memory sources read cells[C_DATA] */
static u64 ret_value(int fi, int it, const item *t, int *op)
{
	const fnspec *f = &A.f[fi]; u64 v = argval(f->ret, hv(fi, it, 5)); int k; sw w = (sw)(uw)v; uw mem;
	switch (cls(f->ret)) {
	case 'W':
		k = f->ret == 'P' ? 0 : t->sel % NWOPS; *op = f->ret == 'P' ? SLJIT_MOV_P : wops[k];
		if (t->form >= 2) { mem = (uw)v; switch (k) { case 1: return *(u8*)&mem; case 2: return (uw)(sw)*(signed char*)&mem; case 3: return *(u16*)&mem; case 4: return (uw)(sw)*(short*)&mem; case 5: return *(u32*)&mem; case 6: return (uw)(sw)*(s32*)&mem; } return v; }
		switch (k) { case 1: return (u8)w; case 2: return (uw)(sw)(signed char)w; case 3: return (u16)w; case 4: return (uw)(sw)(short)w; case 5: return (u32)w; case 6: return (uw)(sw)(s32)w; }
		return v;
	case 'I':
		k = t->sel % 5; *op = iops[k];
		if (t->form >= 2) { u32 m = (u32)v; switch (k) { case 1: return *(u8*)&m; case 2: return (u32)(s32)*(signed char*)&m; case 3: return *(u16*)&m; case 4: return (u32)(s32)*(short*)&m; } return (u32)v; }
		switch (k) { case 1: return (u8)w; case 2: return (u32)(s32)(signed char)w; case 3: return (u16)w; case 4: return (u32)(s32)(short)w; }
		return (u32)v;
	case 'D': *op = SLJIT_MOV_F64; return v;
	case 'F': *op = SLJIT_MOV_F32; return v;
	}
	*op = 0; return 0;
}
static void emit_ret(cctx *cc, int fi, int it, const item *t)
{
	const fnspec *f = &A.f[fi]; struct sljit_compiler *c = cc->c; int op, r, form = t->form; u64 v; uw *data = &cells[C_DATA + fi * 4];
	ret_value(fi, it, t, &op); v = argval(f->ret, hv(fi, it, 5));
	if (f->ret == 'V') { E(sljit_emit_return_void(c)); return; }
	if (form == 3 && f->locals < 16) form = 2;
	if (isfl(f->ret)) {
		int nf = f->fsc + f->fsv;
		if (form < 2) { int s = t->sel % nf; r = s < f->fsc ? SLJIT_FR(s) : SLJIT_FS(s - f->fsc); set_t(c, f->ret, r, v); E(sljit_emit_return(c, op, r, 0)); return; }
		if (f->ret == 'D') memcpy(data, &v, 8); else { u32 x = (u32)v; memcpy(data, &x, 4); }
		if (form == 2) { E(sljit_emit_return(c, op, SLJIT_MEM0(), (sw)data)); return; }
		E(sljit_emit_fop1(c, f->ret == 'D' ? SLJIT_MOV_F64 : SLJIT_MOV_F32, SLJIT_MEM1(SLJIT_SP), 8, SLJIT_MEM0(), (sw)data));
		E(sljit_emit_return(c, op, SLJIT_MEM1(SLJIT_SP), 8));
		return;
	}
	if (form == 0) { E(sljit_emit_return(c, op, SLJIT_IMM, (sw)(uw)ret_value(fi, it, t, &op) | 0)); return; }
	if (form == 1) { int s = t->sel / 8 % (f->sc + f->sv); r = s < f->sc ? SLJIT_R(s) : SLJIT_S(s - f->sc); if (s_index(f, r) >= 0 && s_index(f, r) < f->keep) r = SLJIT_R0; set_t(c, f->ret, r, v); E(sljit_emit_return(c, op, r, 0)); return; }
	if (cls(f->ret) == 'I') { u32 x = (u32)v; memcpy(data, &x, 4); } else { uw x = (uw)v; memcpy(data, &x, sizeof(x)); }
	if (form == 2) { E(sljit_emit_return(c, op, SLJIT_MEM0(), (sw)data)); return; }
	E(sljit_emit_op1(c, cls(f->ret) == 'I' ? SLJIT_MOV32 : SLJIT_MOV, SLJIT_MEM1(SLJIT_SP), WBYTES, SLJIT_MEM0(), (sw)data));
	E(sljit_emit_return(c, op, SLJIT_MEM1(SLJIT_SP), WBYTES));
}

static int setctx(struct sljit_compiler *c, const fnspec *f, int enter)
{
	return (enter ? sljit_emit_enter : sljit_set_context)(c, fopts(f), enter_types(f), f->sc | SLJIT_ENTER_FLOAT(f->fsc), f->sv | SLJIT_ENTER_FLOAT(f->fsv), f->locals);
}
static void emit_fn(cctx *cc, int fi)
{
	const fnspec *f = &A.f[fi]; int k, ended = 0, split = 0; cctx *top = cc;
	for (k = 0; k < f->n && f->it[k].kind != K_SPLIT; k++) if (f->it[k].kind == K_CALLG && A.f[f->it[k].a].own == 2) emit_fn(cc, f->it[k].a); /* callee in front of the caller */
	fnlab[fi] = sljit_emit_label(cc->c); fncomp[fi] = cc;
	if (cc->nlab < 64) { cc->lab[cc->nlab].l = fnlab[fi]; cc->lab[cc->nlab++].cell = C_ENTRY(fi); }
	E(setctx(cc->c, f, 1));
	for (k = 0; k < f->nargs; k++) rec_t(cc->c, f->arg[k], SLOT(fi, -1, k), areg(f, k));
	for (k = 0; k < f->keep; k++) rec_w(cc->c, SLOT(fi, -1, 10 + k), SLJIT_S(k));
	emit_set_state(cc, fi);
	if (f->locals > 0) { E(sljit_get_local_base(cc->c, SLJIT_R0, 0, 0)); E(sljit_emit_op2(cc->c, SLJIT_AND, SLJIT_R0, 0, SLJIT_R0, 0, SLJIT_IMM, WBYTES - 1)); rec_w(cc->c, SLOT(fi, -1, 20), SLJIT_R0); }
	for (k = 0; k < f->n && !ended; k++) {
		const item *t = &f->it[k];
		switch (t->kind) {
		case K_CALLG: case K_CALLC: emit_call_(cc, fi, k, split); ended = t->tail; break;
		case K_SETCTX: E(setctx(cc->c, f, 0)); break;
		case K_SPLIT: {
			cctx *n = (cctx*)calloc(1, sizeof(*n)); n->c = sljit_create_compiler(NULL);
			if (t->sel & 1) { E(sljit_emit_op1(cc->c, SLJIT_MOV, SLJIT_R0, 0, SLJIT_MEM0(), (sw)&cells[C_FRAG(fi, k)])); E(sljit_emit_ijump(cc->c, SLJIT_JUMP, SLJIT_R0, 0)); }
			else E(sljit_emit_ijump(cc->c, SLJIT_JUMP, SLJIT_MEM0(), (sw)&cells[C_FRAG(fi, k)]));
			setlab(n, C_FRAG(fi, k));
			E(setctx(n->c, f, 0));
			if (cc != top) { /* a fragment ends here */ finish(cc); free(cc); }
			cc = n; split = 1;
			break; }
		case K_GETRET:
			if (t->form) E(sljit_emit_op_dst(cc->c, SLJIT_GET_RETURN_ADDRESS, MEM0S(SLOT(fi, k, 0))));
			else { E(sljit_emit_op_dst(cc->c, SLJIT_GET_RETURN_ADDRESS, SLJIT_R(t->sel % f->sc), 0)); rec_w(cc->c, SLOT(fi, k, 0), SLJIT_R(t->sel % f->sc)); }
			break;
		case K_RET: emit_ret(cc, fi, k, t); ended = 1; break;
		case K_RETTO: {
			int r = SLJIT_R0; uw v = wval(hv(fi, k, 8)); int form = t->form;
			if (form == 2 && f->locals < WBYTES) form = 0;
			if (form == 1) r = cand(f, 1, f->keep, 0, t->sel);
			if (form == 1 && !r) form = 0;
			if (form == 1) E(sljit_emit_op1(cc->c, SLJIT_MOV, r, 0, SLJIT_MEM0(), (sw)&cells[C_ALT(fi)]));
			if (form == 2) E(sljit_emit_op1(cc->c, SLJIT_MOV, SLJIT_MEM1(SLJIT_SP), 0, SLJIT_MEM0(), (sw)&cells[C_ALT(fi)]));
			E(sljit_emit_op1(cc->c, SLJIT_MOV, SLJIT_R0, 0, SLJIT_IMM, (sw)v));
			if (t->sel & 2) E(sljit_emit_op0(cc->c, SLJIT_SKIP_FRAMES_BEFORE_RETURN));
			if (form == 0) E(sljit_emit_return_to(cc->c, SLJIT_MEM0(), (sw)&cells[C_ALT(fi)]));
			if (form == 1) E(sljit_emit_return_to(cc->c, r, 0));
			if (form == 2) E(sljit_emit_return_to(cc->c, SLJIT_MEM1(SLJIT_SP), 0));
			ended = 1;
			break; }
		}
	}
	if (!ended) { item t; memset(&t, 0, sizeof(t)); t.form = 1; emit_ret(cc, fi, MAXIT, &t); }
	if (cc != top) { finish(cc); free(cc); }
	if (top->npend && fncomp[fi] == top) { /* functions behind the caller */ }
}
static void finish(cctx *cc)
{
	void *code; int k;
	while (cc->npend) emit_fn(cc, cc->pend[--cc->npend]);
	for (k = 0; k < cc->njf; k++) sljit_set_label(cc->jf[k].j, fnlab[cc->jf[k].fn]);
	code = sljit_generate_code(cc->c, 0, NULL);
	if (!code && !rc_err) { rc_err = 99; snprintf(msg, sizeof(msg), "code generation error %d", sljit_get_compiler_error(cc->c)); }
	if (code) { codes[ncodes++] = code; for (k = 0; k < cc->nlab; k++) cells[cc->lab[k].cell] = sljit_get_label_addr(cc->lab[k].l); }
	sljit_free_compiler(cc->c);
}

/* ---------- simulation ---------- */
typedef struct { uw S[40]; u64 FS[40]; uw loc[12]; u8 tail; } fst;
static u64 sim_fn(int fi, const u64 *args, const uw *kin, uw *kout, int top, uw retaddr, int *retto);
static void sim_state(int fi, int it, fst *s)
{
	const fnspec *f = &A.f[fi]; sw o[12]; int k, n = loc_offs(fi, o);
	for (k = 0; k < f->sv; k++) exp_t('W', SLOT(fi, it, 2 + k), s->S[k]);
	for (k = 0; k < f->fsv; k++) exp_t('D', SLOT(fi, it, 40 + k), s->FS[k]);
	for (k = 0; k < n; k++) exp_t('W', SLOT(fi, it, 70 + k), s->loc[k]);
	if (loc_tail(fi) >= 0) *(u8*)&expect[SLOT(fi, it, 90)] = s->tail;
}
/* on 32 bit targets the caller may drop stack arguments or move the result behind the call */
static int ra_ok(int fi) { const fnspec *f = &A.f[fi];
#if W64
	(void)f; return 1;
#else
	return f->nargs == 0 && !isfl(f->ret);
#endif
}
/* a rewritable call of ARM_V6 may be followed by a nop that belongs to the call */
#if defined SLJIT_CONFIG_ARM_V6 && SLJIT_CONFIG_ARM_V6
#define RA_MAY_BE_NOP(g) ((g).form == 1)
#else
#define RA_MAY_BE_NOP(g) 0
#endif
static u64 sim_call(int fi, int it, fst *s, uw myret, uw *kout, int *retto)
{
	const fnspec *f = &A.f[fi]; const item *t = &f->it[it]; char ret, args[5]; int na, ckeep = 0, k, cell, known, child = -1, al = 0; u64 av[4], rv; ctgt g; uw kk[3];
	if (t->kind == K_CALLG) { const fnspec *ch; child = t->a; ch = &A.f[child]; ret = ch->ret; na = ch->nargs; memcpy(args, ch->arg, 5); ckeep = ch->keep; cell = C_ENTRY(child); known = ch->own == 1; }
	else { const char *q = stubs[t->a].sig; ret = q[0]; na = (int)strlen(q) - 1; memcpy(args, q + 1, (size_t)na); cell = C_STUB(fi, it); known = 1; }
	call_target(f, t, nint(args, na), ckeep, cell, known, &g);
	if (g.r1 && g.form != 4 && (k = s_index(f, g.r1)) >= 0) s->S[k] = g.form == 3 ? cells[cell] : g.v1;
	if (g.r2 && g.form == 7 && (k = s_index(f, g.r2)) >= 0) s->S[k] = g.v2;
	if (g.form == 6) s->loc[0] = cells[cell];
	for (k = 0; k < na; k++) av[k] = argval(args[k], hv(fi, it, 10 + k));
	for (k = 0; k < 3; k++) kk[k] = s->S[k];
	if (child >= 0) {
		rv = sim_fn(child, av, kk, kk, 0, !ra_ok(child) ? 0 : t->tail ? myret : RA_MAY_BE_NOP(g) ? 0 : cells[C_AFTER(child)], &al);
		if (t->tail) { for (k = 0; k < f->keep; k++) kout[k] = k < ckeep ? kk[k] : s->S[k]; return rv; }
		for (k = 0; k < ckeep; k++) s->S[k] = kk[k];
	} else {
		rv = cret(cls(ret), nelog);
		if (nelog < 32) { elog[nelog].sig = stubs[t->a].sig; elog[nelog].n = na; memcpy(elog[nelog].v, av, sizeof(av)); nelog++; }
		if (t->tail) { for (k = 0; k < f->keep; k++) kout[k] = s->S[k]; return rv; }
	}
	exp_t('W', SLOT(fi, it, 0), al ? 2 : 1);
	if (al) exp_t('W', SLOT(fi, it, 1), rv); else if (ret != 'V') exp_t(ret, SLOT(fi, it, 1), rv);
	sim_state(fi, it, s);
	return 0;
}
static u64 sim_fn(int fi, const u64 *args, const uw *kin, uw *kout, int top, uw retaddr, int *retto)
{
	const fnspec *f = &A.f[fi]; fst s; sw o[12]; int k, n = loc_offs(fi, o), op;
	memset(&s, 0, sizeof(s)); *retto = 0;
	for (k = 0; k < f->nargs; k++) exp_t(f->arg[k], SLOT(fi, -1, k), args[k]);
	for (k = 0; k < f->keep; k++) exp_t('W', SLOT(fi, -1, 10 + k), kin[k]);
	for (k = 0; k < f->sv; k++) s.S[k] = S_VAL(fi, k);
	for (k = 0; k < f->fsv; k++) s.FS[k] = FS_VAL(fi, k);
	for (k = 0; k < n; k++) s.loc[k] = LOC_VAL(fi, k);
	s.tail = (u8)LOC_VAL(fi, 40);
	if (f->locals > 0) exp_t('W', SLOT(fi, -1, 20), 0);
	for (k = 0; k < f->n; k++) {
		const item *t = &f->it[k]; u64 rv;
		switch (t->kind) {
		case K_CALLG: case K_CALLC: rv = sim_call(fi, k, &s, retaddr, kout, retto); if (t->tail) return rv; break;
		case K_GETRET: if (top || !retaddr) memcpy(&expect[SLOT(fi, k, 0)], &slots[SLOT(fi, k, 0)], 8); else exp_t('W', SLOT(fi, k, 0), retaddr); break;
		case K_RET: { int form = t->form, r; 
			for (r = 0; r < f->keep; r++) kout[r] = s.S[r];
			(void)form; return ret_value(fi, k, t, &op); }
		case K_RETTO: *retto = 1; { int r; for (r = 0; r < f->keep; r++) kout[r] = s.S[r]; } return wval(hv(fi, k, 8));
		}
	}
	{ item t; int r; memset(&t, 0, sizeof(t)); t.form = 1; for (r = 0; r < f->keep; r++) kout[r] = s.S[r]; return ret_value(fi, MAXIT, &t, &op); }
}

/* ---------- running ---------- */
static sblock *msb;
static void *master; static struct sljit_label *ml; static u64 mvals[80];
static void compile_master(void)
{
	struct sljit_compiler *c = sljit_create_compiler(NULL); int k, nsv = SLJIT_NUMBER_OF_SAVED_REGISTERS, nfs = SLJIT_NUMBER_OF_SAVED_FLOAT_REGISTERS; const fnspec *f = &A.f[0];
	int fl = 0, wi = 0; struct sljit_label *after = NULL;
	E(sljit_emit_enter(c, 0, SLJIT_ARGS0V(), 4 | SLJIT_ENTER_FLOAT(4), nsv | SLJIT_ENTER_FLOAT(nfs), 64));
	for (k = 0; k < nsv; k++) E(sljit_emit_op1(c, SLJIT_MOV, SLJIT_S(k), 0, SLJIT_IMM, (sw)wval(hv(60, 0, k))));
	for (k = 0; k < nfs; k++) E(sljit_emit_fset64(c, SLJIT_FS(k), u2d(fixd(hv(60, 1, k)))));
	for (k = 0; k < 4; k++) { E(sljit_emit_op1(c, SLJIT_MOV, SLJIT_R(k), 0, SLJIT_IMM, 0x77777)); E(sljit_emit_fset64(c, SLJIT_FR(k), 3.5)); E(sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(SLJIT_SP), k * WBYTES, SLJIT_IMM, (sw)wval(hv(60, 2, k)))); }
	if (A.direct) {
		for (k = 0; k < f->nargs; k++) set_t(c, f->arg[k], isfl(f->arg[k]) ? SLJIT_FR(fl++) : SLJIT_R(wi++), top_args[k]);
		E(sljit_emit_icall(c, f->conv ? SLJIT_CALL_REG_ARG : SLJIT_CALL, call_types(f->ret, f->arg, f->nargs), SLJIT_IMM, (sw)cells[C_ENTRY(0)]));
		after = sljit_emit_label(c);
		if (f->ret != 'V') switch (cls(f->ret)) {
			case 'W': E(sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM0(), (sw)&msb->out[0], SLJIT_R0, 0)); break;
			case 'I': E(sljit_emit_op1(c, SLJIT_MOV32, SLJIT_MEM0(), (sw)&msb->out[0], SLJIT_R0, 0)); break;
			case 'D': E(sljit_emit_fop1(c, SLJIT_MOV_F64, SLJIT_MEM0(), (sw)&msb->out[0], SLJIT_FR0, 0)); break;
			case 'F': E(sljit_emit_fop1(c, SLJIT_MOV_F32, SLJIT_MEM0(), (sw)&msb->out[0], SLJIT_FR0, 0)); break;
		}
	} else E(sljit_emit_icall(c, SLJIT_CALL, SLJIT_ARGS0V(), SLJIT_IMM, (sw)SLJIT_FUNC_ADDR(tramp)));
	for (k = 0; k < nsv; k++) E(sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM0(), (sw)&msb->r[k], SLJIT_S(k), 0));
	for (k = 0; k < nfs; k++) E(sljit_emit_fop1(c, SLJIT_MOV_F64, SLJIT_MEM0(), (sw)&msb->f[k], SLJIT_FS(k), 0));
	for (k = 0; k < 4; k++) E(sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM0(), (sw)&msb->out[8 + k], SLJIT_MEM1(SLJIT_SP), k * WBYTES));
	E(sljit_emit_return_void(c));
	master = sljit_generate_code(c, 0, NULL);
	if (!master && !rc_err) { rc_err = 98; snprintf(msg, sizeof(msg), "master generation error %d", sljit_get_compiler_error(c)); }
	if (master && after) cells[C_AFTER(0)] = sljit_get_label_addr(after); else cells[C_AFTER(0)] = 0;
	sljit_free_compiler(c);
}

#define FAIL(...) do { snprintf(msg, sizeof(msg), __VA_ARGS__); r = 1; goto out; } while (0)
static int run_case(void)
{
	int r = 0, k, nsv = SLJIT_NUMBER_OF_SAVED_REGISTERS, nfs = SLJIT_NUMBER_OF_SAVED_FLOAT_REGISTERS, al; cctx cc; char sig[8]; uw kk[3], kin[3]; u64 rv; fnspec *f = &A.f[0];
	rc_err = 0; ncodes = 0; master = NULL; nclog = nelog = 0; msg[0] = 0;
	for (k = 0; k < NSLOT; k++) slots[k] = expect[k] = POISON;
	memset(cells, 0, 256 * sizeof(uw)); memset(fnlab, 0, sizeof(fnlab)); memset(fncomp, 0, sizeof(fncomp)); memset(&cc, 0, sizeof(cc)); memset(msb, 0xA5, sizeof(*msb));
	for (k = 0; k < f->nargs; k++) top_args[k] = argval(f->arg[k], hv(59, 0, k));
	cc.c = sljit_create_compiler(NULL);
	emit_fn(&cc, 0); finish(&cc);
	if (!rc_err) compile_master();
	if (rc_err) { r = 1; goto out; }
	fsig(f, sig); k = find_stub(sig);
	if (k < 0 && !A.direct) { r = 2; goto out; }
	if (k >= 0) top_stub = &stubs[k];
	top_fn = (void*)cells[C_ENTRY(0)]; top_ret = 0;
	((void (SLJIT_FUNC*)(void))master)();
	/* simulate */
	for (k = 0; k < 3; k++) kk[k] = kin[k] = wval(hv(60, 0, k));
	rv = sim_fn(0, top_args, kin, kk, !A.direct, A.direct && ra_ok(0) ? cells[C_AFTER(0)] : 0, &al);
	for (k = 0; k < NSLOT; k++) if (slots[k] != expect[k]) {
		int fi = k / SLOTS / (MAXIT + 2), it = k / SLOTS % (MAXIT + 2) - 1, s = k % SLOTS;
		FAIL("function %d item %d (%s) %s %d: got %llx expected %llx", fi, it, it < 0 ? "entry" : kn[A.f[fi].it[it].kind], it < 0 ? (s < 10 ? "argument" : s < 20 ? "kept register S" : "local base alignment") : s == 0 ? "marker" : s == 1 ? "result" : s < 40 ? "saved register 2+" : s < 70 ? "saved float register 40+" : "local 70+",
			s, (unsigned long long)slots[k], (unsigned long long)expect[k]);
	}
	if (nclog != nelog) FAIL("%d calls of C functions, expected %d", nclog, nelog);
	for (k = 0; k < nelog; k++) {
		int j;
		if (strcmp(clog_[k].sig, elog[k].sig)) FAIL("C call %d reached %s instead of %s", k, clog_[k].sig, elog[k].sig);
		for (j = 0; j < elog[k].n; j++) if (clog_[k].v[j] != elog[k].v[j]) FAIL("C call %d (%s) argument %d: got %llx expected %llx", k, elog[k].sig, j, (unsigned long long)clog_[k].v[j], (unsigned long long)elog[k].v[j]);
		if ((clog_[k].fa ^ fa_ref) & (STACK_ALIGN - 1)) FAIL("C call %d (%s): stack is not aligned as required by the ABI: frame %lx reference %lx", k, elog[k].sig, (long)clog_[k].fa, (long)fa_ref);
	}
	for (k = 0; k < nsv; k++) { uw e = k < A.f[0].keep ? kk[k] : (uw)wval(hv(60, 0, k)); if (msb->r[k] != e) FAIL("saved register S%d of the caller: got %lx expected %lx", k, (long)msb->r[k], (long)e); }
	for (k = 0; k < nfs; k++) { u64 e = fixd(hv(60, 1, k)); if (msb->f[k] != e) FAIL("saved float register FS%d of the caller: got %llx expected %llx", k, (unsigned long long)msb->f[k], (unsigned long long)e); }
	for (k = 0; k < 4; k++) if (msb->out[8 + k] != (uw)wval(hv(60, 2, k))) FAIL("local %d of the caller was changed", k);
	if (A.direct) { top_ret = 0; switch (cls(f->ret)) { case 'W': top_ret = msb->out[0]; break; case 'I': case 'F': { u32 x; memcpy(&x, &msb->out[0], 4); top_ret = x; break; } case 'D': memcpy(&top_ret, &msb->out[0], 8); break; } }
	if (cls(f->ret) == 'I') { top_ret = (u32)top_ret; rv = (u32)rv; }
	if (f->ret != 'V' && top_ret != rv) FAIL("result of the top function (%c): got %llx expected %llx", f->ret, (unsigned long long)top_ret, (unsigned long long)rv);
out:
	for (k = 0; k < ncodes; k++) sljit_free_code(codes[k], NULL);
	if (master) sljit_free_code(master, NULL);
	return r;
}

/* ---------- generation ---------- */
static int max_(int a, int b) { return a > b ? a : b; }
static int gsel(void) { return (int)rn(1 << 16); }
static int glocals(void)
{
	switch (rn(12)) {
	case 0: case 1: return 0;
	case 2: return rrange(1, 40);
	case 3: return rrange(100, 300);
	case 4: return rrange(480, 540);
	case 5: { static const int b[] = { 1024, 2048, 4096, 8192, 16384, 32768, 65536 }; return b[rn(7)] + rrange(-80, 40); }
	case 6: return rp(15) ? rrange(100000, SLJIT_MAX_LOCAL_SIZE) : rrange(1, 4000);
	case 7: return rp(10) ? SLJIT_MAX_LOCAL_SIZE - rrange(0, 20) : rrange(1, 128);
	default: return rrange(1, 16) * WBYTES;
	}
}
static void gsig(fnspec *f)
{
	int k; static const char rets[] = "VWPIDF"; static const char al[] = "WPIDFwpiDFWI", ar[] = "wpiDFwiDF";
	f->ret = rets[rn(6)]; f->nargs = (int)rn(5);
	for (k = 0; k < f->nargs; k++) f->arg[k] = f->conv ? ar[rn(9)] : al[rn(12)];
	f->arg[f->nargs] = 0;
	if (f->nargs > 2 && !f->conv) { char s[8]; int i; fsig(f, s); for (i = 0; i < 5; i++) { s[0] = "VWIDF"[i]; if (find_stub(s) >= 0) { f->ret = s[0]; break; } } }
}
static void gen_fn(int fi, int par, int own, int conv, int keepmax, int depth, char force_ret, int no_retto);
static void fix_need(fnspec *f, int nsc, int nsv, int nfsc, int nkeep)
{
	int k, w = 0, s = 0, fl = 0;
	for (k = 0; k < f->nargs; k++) { char c = f->arg[k]; if (isfl(c)) fl++; else if (c >= 'a') { w++; nsc = max_(nsc, w); } else { s++; w++; } }
	nsv = max_(nsv, max_(s, max_(f->keep, nkeep))); nfsc = max_(nfsc, fl);
	nfsc = max_(nfsc, isfl(f->ret)); nsc = max_(nsc, 1);
	f->sv = nsv; f->sc = nsc; f->fsc = nfsc; f->fsv = 0;
	if (rp(80)) f->sv = max_(f->sv, (int)rn(SLJIT_NUMBER_OF_SAVED_REGISTERS + 1));
	if (rp(80)) f->sc = max_(f->sc, (int)rn((u32)(SLJIT_NUMBER_OF_REGISTERS - f->sv + 1)));
	if (rp(60)) f->fsv = (int)rn(SLJIT_NUMBER_OF_SAVED_FLOAT_REGISTERS + 1);
	if (rp(60)) f->fsc = max_(f->fsc, (int)rn((u32)(SLJIT_NUMBER_OF_FLOAT_REGISTERS - f->fsv + 1)));
}
static void gen_fn(int fi, int par, int own, int conv, int keepmax, int depth, char force_ret, int no_retto)
{
	fnspec *f = &A.f[fi]; int n, k, nsc = 1, nfsc = 0, nkeep = 0, ended = 0;
	memset(f, 0, sizeof(*f)); f->par = par; f->own = own; f->conv = conv; f->keep = conv ? (int)rn((u32)(keepmax > 3 ? 3 : keepmax) + 1) : 0;
	gsig(f);
	if (force_ret && force_ret != f->ret) { f->ret = force_ret; if (!conv && f->nargs > 2) { f->nargs = 2; f->arg[2] = 0; } }
	f->locals = glocals();
	n = rrange(0, 5);
	for (k = 0; k < n && f->n < MAXIT - 1 && !ended; k++) {
		item *t = &f->it[f->n]; memset(t, 0, sizeof(*t)); t->sel = gsel();
		switch (rn(10)) {
		case 0: case 1: case 2: case 3: {
			int ch = A.nfn, tail;
			if (ch >= MAXFN || depth >= 4) goto cfun;
			A.nfn++; tail = rp(25);
			t->kind = K_CALLG; t->a = ch; t->tail = tail; t->form = (int)rn(8);
			{ int cown = (int)rn(3), cconv = tail ? conv : rp(40); int bk = f->keep;
			  gen_fn(ch, fi, cown, cconv, tail ? bk : 3, depth + 1, tail ? f->ret : 0, tail); }
			nsc = max_(nsc, nint(A.f[ch].arg, A.f[ch].nargs)); nfsc = max_(nfsc, max_(A.f[ch].nargs - nint(A.f[ch].arg, A.f[ch].nargs), isfl(A.f[ch].ret)));
			nkeep = max_(nkeep, A.f[ch].keep); ended = tail; f->n++;
			break; }
		case 4: case 5: case 6: cfun: {
			const char *s; int na, fl = 0, j; t->kind = K_CALLC; t->form = (int)rn(8); t->tail = !conv && rp(15);
			for (j = 0; j < 200; j++) { t->a = (int)rn((u32)NSTUBS); if (!t->tail || stubs[t->a].sig[0] == cls(f->ret)) break; }
			if (t->tail && (stubs[t->a].sig[0] != cls(f->ret))) t->tail = 0;
			if (t->tail) { if (f->ret == 'P') t->sel |= 64; else t->sel &= ~64; }
			s = stubs[t->a].sig; na = (int)strlen(s) - 1; for (j = 0; j < na; j++) fl += isfl(s[1 + j]);
			nsc = max_(nsc, na - fl); nfsc = max_(nfsc, max_(fl, isfl(s[0]))); ended = t->tail; f->n++;
			break; }
		case 7: t->kind = K_SETCTX; f->n++; break;
		case 8: t->kind = K_SPLIT; f->n++; break;
		case 9: t->kind = K_GETRET; t->form = (int)rn(2); f->n++; break;
		}
	}
	if (!ended) {
		item *t = &f->it[f->n]; int rt; memset(t, 0, sizeof(*t)); t->sel = gsel();
		rt = par >= 0 && !no_retto && (f->ret == 'V' || cls(f->ret) == 'W') && rp(20);
#if !W64
		rt = rt && (f->nargs == 0 || conv);
#endif
		if (rt) { t->kind = K_RETTO; t->form = (int)rn(3); f->n++; }
		else if (rp(90)) { t->kind = K_RET; t->form = (int)rn(4); f->n++; }
	}
	fix_need(f, nsc, 0, nfsc, nkeep);
}
static int gen_case(u64 seed, u64 n)
{
	int k, t = 0, calls = 0; char s[8];
	do {
		rseed(seed, n * 131 + (u64)t);
		memset(&A, 0, sizeof(A)); A.seed = r64(); A.nfn = 1; A.direct = rp(40);
		gen_fn(0, -1, 1, A.direct && rp(50), 3, 0, 0, 1);
		fsig(&A.f[0], s);
	} while (!A.direct && find_stub(s) < 0 && ++t < 20);
	if (!A.direct && find_stub(s) < 0) return -1;
	for (k = 0; k < A.nfn; k++) { int j; for (j = 0; j < A.f[k].n; j++) { calls += A.f[k].it[j].kind <= K_CALLC; } calls += A.f[k].nargs > 0; }
	return calls > 0;
}

/* ---------- text ---------- */
static void write_case(FILE *o)
{
	int k, j;
	fprintf(o, "case %llx direct %d fns %d\n", (unsigned long long)A.seed, A.direct, A.nfn);
	for (k = 0; k < A.nfn; k++) { fnspec *f = &A.f[k]; fprintf(o, "fn %d par %d own %d conv %d keep %d sig %c%s regs %d %d %d %d locals %d\n", k, f->par, f->own, f->conv, f->keep, f->ret, f->arg, f->sc, f->sv, f->fsc, f->fsv, f->locals); }
	for (k = 0; k < A.nfn; k++) for (j = 0; j < A.f[k].n; j++) { item *t = &A.f[k].it[j]; if (t->kind == K_CALLC) fprintf(o, "i %d callc %s form %d tail %d sel %d\n", k, stubs[t->a].sig, t->form, t->tail, t->sel);
		else fprintf(o, "i %d %s %d form %d tail %d sel %d\n", k, kn[t->kind], t->a, t->form, t->tail, t->sel); }
}
static int read_case(FILE *f)
{
	char l[300], kw[16], a[16]; int k, seen[MAXFN] = { 0 };
	memset(&A, 0, sizeof(A));
	while (fgets(l, sizeof(l), f)) {
		unsigned long long s; fnspec x; item t; int d, n, sl;
		if (sscanf(l, "case %llx direct %d fns %d", &s, &d, &n) == 3) { A.seed = s; A.direct = d; A.nfn = n; if (n < 1 || n > MAXFN) return 1; }
		memset(&x, 0, sizeof(x));
		if (!strncmp(l, "fn ", 3)) {
			if (sscanf(l, "fn %d par %d own %d conv %d keep %d sig %15s regs %d %d %d %d locals %d", &k, &x.par, &x.own, &x.conv, &x.keep, a, &x.sc, &x.sv, &x.fsc, &x.fsv, &x.locals) != 11) return 1;
			sl = (int)strlen(a); if (k < 0 || k >= MAXFN || sl > 5) return 1;
			x.ret = a[0]; strcpy(x.arg, a + 1); x.nargs = sl - 1; A.f[k] = x;
		}
		memset(&t, 0, sizeof(t));
		if (sscanf(l, "i %d %15s %15s form %d tail %d sel %d", &k, kw, a, &t.form, &t.tail, &t.sel) == 6) {
			for (t.kind = 0; t.kind < K_NKINDS; t.kind++) if (!strcmp(kn[t.kind], kw)) break;
			if (k < 0 || k >= MAXFN || t.kind == K_NKINDS || A.f[k].n >= MAXIT) return 1;
			t.a = t.kind == K_CALLC ? find_stub(a) : atoi(a);
			if (t.kind <= K_CALLC && t.a < 0) return 1;
			if (t.kind == K_CALLG) { if (t.a >= MAXFN || seen[t.a]++) return 1; }
			A.f[k].it[A.f[k].n++] = t;
		}
	}
	return A.nfn < 1;
}

static int valid_ret(void) { return 1; }
int main(int argc, char **argv)
{
	setvbuf(stdout, NULL, _IOLBF, 0);
	core_init(); msb = sb;
	slots = (u64*)fixmap(AR_LOW + 0x200000, 0x40000); expect = (u64*)malloc(NSLOT * 8);
	cells = (uw*)fixmap(AR_LOW + 0x280000, 0x10000) + 1024;
	{ struct sljit_compiler *c = sljit_create_compiler(NULL); int k;
	  sljit_emit_enter(c, 0, SLJIT_ARGS0V(), SLJIT_NUMBER_OF_REGISTERS | SLJIT_ENTER_FLOAT(SLJIT_NUMBER_OF_FLOAT_REGISTERS), 0, 256);
	  for (k = 0; k < SLJIT_NUMBER_OF_REGISTERS; k++) sljit_emit_op1(c, SLJIT_MOV, SLJIT_R(k), 0, SLJIT_IMM, (sw)0xdeadbeef - k);
	  for (k = 0; k < SLJIT_NUMBER_OF_FLOAT_REGISTERS; k++) sljit_emit_fset64(c, SLJIT_FR(k), -7.75);
	  for (k = 0; k < 256; k += WBYTES) sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(SLJIT_SP), k, SLJIT_IMM, 0x600df00d);
	  sljit_emit_return_void(c); trash_fn = (void (SLJIT_FUNC*)(void))sljit_generate_code(c, 0, NULL); sljit_free_compiler(c);
	  if (!trash_fn) { fprintf(stderr, "INFRA: trash\n"); return 99; } }
	((void (SLJIT_FUNC*)(void))ce_V)(); fa_ref = clog_[0].fa;
	if (argc >= 7 && !strcmp(argv[1], "run")) {
		u64 seed = strtoull(argv[3], NULL, 10), n = strtoull(argv[4], NULL, 10), end, stop = stop_at();
		progress_open(argv[6]); end = now_ms() + strtoull(argv[5], NULL, 10);
		for (; now_ms() < end && n <= stop; n++) {
			int nt, r, k, j; u64 h = 1469598103934665603ull;
			pg->cur = n;
			if (n % 16 == 0) arm_watchdog(20);
			nt = gen_case(seed, n);
			if (nt < 0) { pg->skipped++; continue; }
			pg->cases++;
			for (k = 0; k < A.nfn; k++) { fnspec *f = &A.f[k]; pg->instrs += (u64)f->n; h = fnv(h, &f->conv, 8); h = fnv(h, &f->ret, 1); h = fnv(h, f->arg, 5); pg->extra[10 + f->nargs]++; if (f->conv) pg->extra[8]++; if (f->keep) pg->extra[9]++;
				for (j = 0; j < f->n; j++) { pg->extra[f->it[j].kind]++; if (f->it[j].tail) pg->extra[7]++; if (f->it[j].kind <= K_CALLC) { pg->extra[16 + f->it[j].form]++; h = fnv(h, &f->it[j].form, 8); h = fnv(h, &f->it[j].a, 4); } } }
			if (nt > 0 && dset_add(h)) pg->nontriv++;
			r = run_case();
			if (r == 2) { pg->skipped++; continue; }
			if (r) { printf("MISMATCH case=%llu %s\n", (unsigned long long)n, msg); return 10; }
		}
		return 0;
	}
	if (argc >= 5 && !strcmp(argv[1], "dump")) { if (gen_case(strtoull(argv[3], NULL, 10), strtoull(argv[4], NULL, 10)) < 0) return 3; write_case(stdout); return 0; }
	if (argc >= 3 && !strcmp(argv[1], "replay")) {
		FILE *f = fopen(argv[2], "r"); int r;
		if (!f || read_case(f) || !valid_ret()) { printf("INVALID\n"); return 3; }
		fclose(f); arm_watchdog(20); r = run_case();
		if (r == 2) { printf("INVALID signature\n"); return 3; }
		if (r) { printf("MISMATCH %s\n", msg); return 10; }
		printf("OK\n"); return 0;
	}
	return 99;
}
