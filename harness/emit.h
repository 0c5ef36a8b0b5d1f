/* Emits a program through the public API, runs it and compares the outcome with the reference interpreter. */
#ifndef VT_EMIT_H
#define VT_EMIT_H
#include "ir.h"

typedef struct { struct sljit_label *lab[MAXL]; struct { struct sljit_jump *j; s64 label; } jmp[MAXI]; int nj; int err; int at; } emitctx;

static int base_ok(const prog *p, s32 r) { return pg_reg_ok(p, r) && !IS_VIRT(r); }

/* flags used by code generators which split emission */
#define EM_PROLOGUE 1
#define EM_EPILOGUE 2

static s32 emit_ins(struct sljit_compiler *c, const prog *p, const ins *i, emitctx *e)
{
	struct sljit_jump *j = NULL; s64 k; s32 r;
	(void)p;
	switch (i->k) {
	case K_OP0: return sljit_emit_op0(c, i->op);
	case K_OP1: return sljit_emit_op1(c, i->op, i->o[0], i->w[0], i->o[1], i->w[1]);
	case K_OP2: return sljit_emit_op2(c, i->op, i->o[0], i->w[0], i->o[1], i->w[1], i->o[2], i->w[2]);
	case K_OP2U: return sljit_emit_op2u(c, i->op, i->o[1], i->w[1], i->o[2], i->w[2]);
	case K_OP2R: return sljit_emit_op2r(c, i->op, i->o[0], i->o[1], i->w[1], i->o[2], i->w[2]);
	case K_SHI: return sljit_emit_shift_into(c, i->op, i->o[0], i->o[1], i->o[2], i->o[3], i->w[3]);
	case K_PREF: return sljit_emit_op_src(c, i->op, i->o[1], i->w[1]);
	case K_OPFLAGS: return sljit_emit_op_flags(c, i->op, i->o[0], i->w[0], (s32)i->x);
	case K_SELECT: return sljit_emit_select(c, i->op, i->o[0], i->o[1], i->w[1], i->o[2]);
	case K_LABEL: e->lab[i->x] = sljit_emit_label(c); return sljit_get_compiler_error(c);
	case K_ALABEL: e->lab[i->x] = sljit_emit_aligned_label(c, i->op, NULL); return sljit_get_compiler_error(c);
	case K_JUMP: j = sljit_emit_jump(c, i->op); break;
	case K_CMP: j = sljit_emit_cmp(c, i->op, i->o[1], i->w[1], i->o[2], i->w[2]); break;
	case K_OP2CMPZ: j = sljit_emit_op2cmpz(c, i->op, i->o[0], i->w[0], i->o[1], i->w[1], i->o[2], i->w[2]); break;
	case K_FCMP: j = sljit_emit_fcmp(c, i->op, i->o[1], i->w[1], i->o[2], i->w[2]); break;
	case K_FCALL: j = sljit_emit_jump(c, SLJIT_FAST_CALL | (i->op & SLJIT_REWRITABLE_JUMP)); break;
	case K_OPADDR: j = sljit_emit_op_addr(c, i->op, i->o[0], i->w[0]); break;
	case K_SETFLAGS: sljit_set_current_flags(c, i->op); return sljit_get_compiler_error(c);
	case K_FOP1: return sljit_emit_fop1(c, i->op, i->o[0], i->w[0], i->o[1], i->w[1]);
	case K_FOP2: return sljit_emit_fop2(c, i->op, i->o[0], i->w[0], i->o[1], i->w[1], i->o[2], i->w[2]);
	case K_FOP2R: return sljit_emit_fop2r(c, i->op, i->o[0], i->o[1], i->w[1], i->o[2], i->w[2]);
	case K_FSET32: { sljit_f32 f; u32 v = (u32)i->x; memcpy(&f, &v, 4); return sljit_emit_fset32(c, i->o[0], f); }
	case K_FSET64: { sljit_f64 f; u64 v = (u64)i->x; memcpy(&f, &v, 8); return sljit_emit_fset64(c, i->o[0], f); }
	case K_FCOPY: return sljit_emit_fcopy(c, i->op, i->o[0], i->o[1]);
	case K_FSELECT: return sljit_emit_fselect(c, i->op, i->o[0], i->o[1], i->w[1], i->o[2]);
	case K_MEM: return sljit_emit_mem(c, i->op, i->o[0], i->o[1], i->w[1]);
	case K_MEMUPD: return sljit_emit_mem_update(c, i->op, i->o[0], i->o[1], i->w[1]);
	case K_FMEM: return sljit_emit_fmem(c, i->op, i->o[0], i->o[1], i->w[1]);
	case K_FMEMUPD: return sljit_emit_fmem_update(c, i->op, i->o[0], i->o[1], i->w[1]);
	case K_LOCALBASE: return sljit_get_local_base(c, i->o[0], i->w[0], (sw)i->x);
	case K_CONST: sljit_emit_const(c, i->op, i->o[0], i->w[0], (sw)i->x); return sljit_get_compiler_error(c);
	case K_FENTER: return sljit_emit_op_dst(c, SLJIT_FAST_ENTER, i->o[0], i->w[0]);
	case K_FRET: return sljit_emit_op_src(c, SLJIT_FAST_RETURN, i->o[1], i->w[1]);
	case K_IJUMP: return sljit_emit_ijump(c, SLJIT_JUMP, i->o[1], i->w[1]);
	case K_ICALL:
		if (i->o[1] == SLJIT_IMM) return sljit_emit_icall(c, SLJIT_CALL, hlp_types(i->op), SLJIT_IMM, (sw)SLJIT_FUNC_ADDR(hlp_addr(i->op)));
		if (i->o[1] == SLJIT_MEM0()) { /* through a pointer stored in the state block */ sb->out[60 - i->op] = SLJIT_FUNC_UADDR(hlp_addr(i->op)); return sljit_emit_icall(c, SLJIT_CALL, hlp_types(i->op), SLJIT_MEM0(), (sw)&sb->out[60 - i->op]); }
		j = sljit_emit_call(c, SLJIT_CALL | (i->o[1] == 2 ? SLJIT_REWRITABLE_JUMP : 0), hlp_types(i->op));
		if (!j) return sljit_get_compiler_error(c);
		sljit_set_target(j, SLJIT_FUNC_UADDR(hlp_addr(i->op)));
		return SLJIT_SUCCESS;
	case K_PAD: for (k = 0; k < i->x; k++) if ((r = sljit_emit_op0(c, SLJIT_NOP)) != 0) return r; return SLJIT_SUCCESS;
	}
	if (!j) return sljit_get_compiler_error(c) ? sljit_get_compiler_error(c) : -1;
	e->jmp[e->nj].j = j; e->jmp[e->nj].label = i->x; e->nj++;
	return SLJIT_SUCCESS;
}

#define SBOFF(x) ((sw)offsetof(sblock, x))
static s32 pick_base(const prog *p) { s32 r; if (base_ok(p, p->basereg)) return p->basereg; for (r = 1; r <= NREGS; r++) if (base_ok(p, r)) return r; return 0; }

static s32 emit_prologue(struct sljit_compiler *c, const prog *p)
{
	s32 b = pick_base(p), r, e;
	if (!b) return -100;
	if ((e = sljit_emit_enter(c, p->opts, SLJIT_ARGS0V(), p->sc | SLJIT_ENTER_FLOAT(p->fsc), p->sv | SLJIT_ENTER_FLOAT(p->fsv), (s32)p->locals)) != 0) return e;
	if ((e = sljit_emit_op1(c, SLJIT_MOV, b, 0, SLJIT_IMM, (sw)sb)) != 0) return e;
	for (r = 1; r <= NFREGS; r++) if (pg_freg_ok(p, r)) {
		if ((e = sljit_emit_fop1(c, p->ft[r] == FT_32 ? SLJIT_MOV_F32 : SLJIT_MOV_F64, r, 0, SLJIT_MEM1(b), SBOFF(f) + r * 8)) != 0) return e;
	}
	for (r = 1; r <= NREGS; r++) if (pg_reg_ok(p, r) && r != b)
		if ((e = sljit_emit_op1(c, p->rt[r] == T_I && W64 ? SLJIT_MOV32 : SLJIT_MOV, r, 0, SLJIT_MEM1(b), SBOFF(r) + r * WBYTES)) != 0) return e;
	return sljit_emit_op1(c, p->rt[b] == T_I && W64 ? SLJIT_MOV32 : SLJIT_MOV, b, 0, SLJIT_MEM1(b), SBOFF(r) + b * WBYTES);
}
/* fs: final state of the interpreter, says how each register may be read */
static s32 emit_epilogue(struct sljit_compiler *c, const prog *p, const vst *fs)
{
	s32 b = pick_base(p), r, e;
	if (fs->rt[b] != T_UNDEF)
		if ((e = sljit_emit_op1(c, fs->rt[b] == T_I ? SLJIT_MOV32 : SLJIT_MOV, SLJIT_MEM0(), (sw)&sb->r[b], b, 0)) != 0) return e;
	if ((e = sljit_emit_op1(c, SLJIT_MOV, b, 0, SLJIT_IMM, (sw)sb)) != 0) return e;
	for (r = 1; r <= NREGS; r++) if (pg_reg_ok(p, r) && r != b && fs->rt[r] != T_UNDEF)
		if ((e = sljit_emit_op1(c, fs->rt[r] == T_I ? SLJIT_MOV32 : SLJIT_MOV, SLJIT_MEM1(b), SBOFF(r) + r * WBYTES, r, 0)) != 0) return e;
	for (r = 1; r <= NFREGS; r++) if (pg_freg_ok(p, r) && fs->ft[r] != FT_UNDEF)
		if ((e = sljit_emit_fop1(c, fs->ft[r] == FT_32 ? SLJIT_MOV_F32 : SLJIT_MOV_F64, SLJIT_MEM1(b), SBOFF(f) + r * 8, r, 0)) != 0) return e;
	return sljit_emit_return_void(c);
}

/* loads the initial state into the arenas and the state block */
static void load_state(const prog *p, const vst *s0)
{
	int a, i;
	for (a = 0; a < N_AR; a++) memcpy(arena[a], s0->mem[a], AR_SIZE);
	memset(sb, 0x5a, sizeof(*sb) - sizeof(sb->guard) - sizeof(sb->out));
	for (i = 1; i <= NREGS; i++) if (pg_reg_ok(p, i)) {
		sb->r[i] = p->r[i];
		if (W64 && p->rt[i] == T_I) { u32 x = (u32)p->r[i]; memcpy(&sb->r[i], &x, 4); }
	}
	for (i = 1; i <= NFREGS; i++) if (pg_freg_ok(p, i)) {
		if (p->ft[i] == FT_32) { u32 x = (u32)p->f[i]; sb->f[i] = 0; memcpy(&sb->f[i], &x, 4); } else sb->f[i] = p->f[i];
	}
	hc_calls = 0; hc_log = 0;
}

static char failmsg[512];
static int compare_state(const prog *p, const vst *s, const uw *lab_addr)
{
	int i, a;
	for (i = 1; i <= NREGS; i++) {
		if (!pg_reg_ok(p, i)) continue;
		if (s->rt[i] == T_W && sb->r[i] != s->r[i]) { snprintf(failmsg, sizeof(failmsg), "integer register %d: got %llx expected %llx", i, (unsigned long long)sb->r[i], (unsigned long long)s->r[i]); return -1; }
		if (s->rt[i] == T_I) { u32 x; memcpy(&x, &sb->r[i], 4); if (x != (u32)s->r[i]) { snprintf(failmsg, sizeof(failmsg), "integer register %d (32 bit): got %x expected %x", i, x, (u32)s->r[i]); return -1; } }
		if (s->rt[i] == T_CODE && lab_addr && s->r[i] < MAXI && lab_addr[s->r[i]] && sb->r[i] != lab_addr[s->r[i]]) { snprintf(failmsg, sizeof(failmsg), "code address in register %d: got %llx expected %llx", i, (unsigned long long)sb->r[i], (unsigned long long)lab_addr[s->r[i]]); return -1; }
	}
	for (i = 1; i <= NFREGS; i++) {
		if (!pg_freg_ok(p, i) || s->ft[i] == FT_UNDEF) continue;
		if (s->ft[i] == FT_32) { u32 x; memcpy(&x, &sb->f[i], 4); if (x != (u32)s->f[i] && !(s->fnan[i] && isnan_bits(x, 1))) { snprintf(failmsg, sizeof(failmsg), "float register %d (single): got %x expected %x", i, x, (u32)s->f[i]); return -1; } }
		else if (sb->f[i] != s->f[i] && !(s->fnan[i] && isnan_bits(sb->f[i], 0))) { snprintf(failmsg, sizeof(failmsg), "float register %d (double): got %llx expected %llx", i, (unsigned long long)sb->f[i], (unsigned long long)s->f[i]); return -1; }
	}
	for (a = 0; a < N_AR; a++) if (memcmp(arena[a], s->mem[a], AR_SIZE)) {
		for (i = 0; i < AR_SIZE && arena[a][i] == s->mem[a][i]; i++) ;
		snprintf(failmsg, sizeof(failmsg), "memory arena %d offset %d: got %02x expected %02x", a, i, arena[a][i], s->mem[a][i]); return -1;
	}
	if (hc_calls != s->calls || hc_log != s->calllog) { snprintf(failmsg, sizeof(failmsg), "calls: got %u/%llx expected %u/%llx", hc_calls, (unsigned long long)hc_log, s->calls, (unsigned long long)s->calllog); return -1; }
	return 0;
}

enum { RC_OK = 0, RC_FAIL = 1, RC_INVALID = 3 };

static void bind_jumps(emitctx *e) { int k; for (k = 0; k < e->nj; k++) if (e->lab[e->jmp[k].label]) sljit_set_label(e->jmp[k].j, e->lab[e->jmp[k].label]); }

/* Emits the whole program. Returns a sljit error code; e->at is the failing instruction. */
static s32 emit_prog(struct sljit_compiler *c, const prog *p, const vst *fs, emitctx *e)
{
	s32 r; int k;
	memset(e, 0, sizeof(*e)); e->at = -1;
	if ((r = emit_prologue(c, p)) != 0) return r;
	for (k = 0; k < p->n; k++) { e->at = k; if ((r = emit_ins(c, p, &p->i[k], e)) != 0) return r; }
	e->at = p->n;
	if ((r = emit_epilogue(c, p, fs)) != 0) return r;
	bind_jumps(e);
	return 0;
}

static vst *VS0, *VS1, *VS2;
static uw lab_addrs[MAXI + 1];
static void alloc_states(void) { if (!VS0) { VS0 = st_new(); VS1 = st_new(); VS2 = st_new(); } }

/* Runs the reference; VS0 initial, VS1 final. */
static int prepare(const prog *p)
{
	int r;
	alloc_states();
	if (prog_static_ok(p)) { snprintf(failmsg, sizeof(failmsg), "invalid: %s", ub); return RC_INVALID; }
	st_init(VS0, p); st_copy(VS1, VS0);
	r = run_interp(p, VS1);
	if (r) { snprintf(failmsg, sizeof(failmsg), "invalid: %s at %d", ub, VS1->pc - 1); return RC_INVALID; }
	return RC_OK;
}

static void label_addresses(const prog *p, const emitctx *e)
{
	int k;
	memset(lab_addrs, 0, sizeof(lab_addrs));
	for (k = 0; k < p->n; k++) if (p->i[k].k == K_LABEL || p->i[k].k == K_ALABEL) lab_addrs[k] = sljit_get_label_addr(e->lab[p->i[k].x]);
}

typedef void (SLJIT_FUNC *vfunc)(void);
/* strict: an emission error is a failure (the generator promises valid programs) */
static int run_prog(const prog *p, int strict)
{
	struct sljit_compiler *c; emitctx e; s32 r; void *code; int rc = RC_OK;
	if ((rc = prepare(p)) != RC_OK) return rc;
	pg->phase = 1;
	c = sljit_create_compiler(NULL);
	if (!c) { snprintf(failmsg, sizeof(failmsg), "compiler creation failed"); return RC_FAIL; }
	r = emit_prog(c, p, VS1, &e);
	if (r == -100) { snprintf(failmsg, sizeof(failmsg), "no base register"); sljit_free_compiler(c); return RC_INVALID; }
	if (r) {
		snprintf(failmsg, sizeof(failmsg), "emission error %d at instruction %d", r, e.at);
		sljit_free_compiler(c);
		return strict ? RC_FAIL : RC_INVALID;
	}
	pg->phase = 2;
	code = sljit_generate_code(c, 0, NULL);
	if (!code) { snprintf(failmsg, sizeof(failmsg), "code generation error %d", sljit_get_compiler_error(c)); sljit_free_compiler(c); return RC_FAIL; }
	label_addresses(p, &e);
	sljit_free_compiler(c);
	load_state(p, VS0);
	pg->phase = 3;
	((vfunc)code)();
	pg->phase = 4;
	sljit_free_code(code, NULL);
	rc = compare_state(p, VS1, lab_addrs) ? RC_FAIL : RC_OK;
	return rc;
}
#endif
