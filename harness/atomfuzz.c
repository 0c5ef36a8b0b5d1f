/* Atomic load and store pairs.
   atomfuzz run <profile> <seed> <start> <ms> <progress> | dump <profile> <seed> <case> | replay <file>
   Profile s: transactions of one thread against a model of registers and memory. The compare and swap form is also given expected values
   which differ from the memory (as if another thread had changed it).
   Profile t: several threads update counters in loops built from these pairs; neighbouring bytes belong to other threads. The sum of all updates must
   be in the memory at the end. */
#include "core.h"
#include <pthread.h>

enum { F_DEF, F_CAS, F_LS }; /* forms */
enum { C_NONE, C_JUMP, C_FLAGS, C_FLAGS32, C_FLAGSOR, C_FLAGSAND, C_SELECT, C_FSELECT, C_FSELECT32, C_FLAGSMEM, C_FLAGSADD, C_KINDS };
enum { K_XCHG, K_ADD, K_SUB, K_XOR, K_AND, K_SHL, K_MUL, K_NOT, K_KINDS }; /* how the new value is computed: from the loaded one, or a constant */
enum { P_NONE, P_MOV, P_MOVIMM, P_SPILL, P_FMOV, P_KINDS }; /* instruction between the store and the flag consumer, must keep the flags */
static const int ops[] = { SLJIT_MOV, SLJIT_MOV_U8, SLJIT_MOV_S8, SLJIT_MOV_U16, SLJIT_MOV_S16, SLJIT_MOV_U32, SLJIT_MOV_S32, SLJIT_MOV32, SLJIT_MOV_P, SLJIT_MOV_U8 | SLJIT_32, SLJIT_MOV_S8 | SLJIT_32, SLJIT_MOV_U16 | SLJIT_32, SLJIT_MOV_S16 | SLJIT_32 };
static const int opsz[] = { WBYTES, 1, 1, 2, 2, 4, 4, 4, WBYTES, 1, 1, 2, 2 };
#define NOPS 13
typedef struct { int op, form, noload, off, dst, meml, mems, src, temp, kind, wrong, flag, neg, cons, cd, post, delay; u64 val, x; } item;
#define MAXI 12
static item it[MAXI]; static int ni, nsc, nsv, threads, loops, lsz; static u64 dseed;
static char msg[600];
#define FAIL(...) do { snprintf(msg, sizeof(msg), __VA_ARGS__); return 10; } while (0)

#define MSIZE 64
static u8 *mem, mm[MSIZE];
#define LOCALS 64
static int be(void) { union { u32 a; u8 b; } x; x.a = 1; return x.b == 0; }
static u64 ldn(const u8 *p, int n) { u64 v = 0; int k; for (k = 0; k < n; k++) v |= (u64)p[be() ? n - 1 - k : k] << (8 * k); return v; }
static void stn(u8 *p, int n, u64 v) { int k; for (k = 0; k < n; k++) p[be() ? n - 1 - k : k] = (u8)(v >> (8 * k)); }
static u64 nmask(int n) { return n == 8 ? ~(u64)0 : ((u64)1 << (8 * n)) - 1; }
#define WM (W64 ? ~(u64)0 : (u64)0xffffffffu)
static u64 dat(u64 n) { u64 x = dseed + n * 0x9e3779b97f4a7c15ull; return splitmix(&x); }
static int nreg(void) { return nsc + nsv; }
static int reg(int r) { return r < nsc ? SLJIT_R(r) : SLJIT_S(r - nsc); }
#if (defined SLJIT_CONFIG_X86_32 && SLJIT_CONFIG_X86_32)
static int virt(int r) { int x = reg(r); return sljit_get_register_index(SLJIT_GP_REGISTER, x) < 0; }
#else
#define virt(r) 0
#endif
static int is_signed(int o) { o = ops[o] & ~SLJIT_32; return o == SLJIT_MOV_S8 || o == SLJIT_MOV_S16 || o == SLJIT_MOV_S32; }
static int is32(int o) { return (ops[o] & SLJIT_32) != 0 || ops[o] == SLJIT_MOV32; }
static sljit_s32 opflags(const item *i) { return ops[i->op] | (i->form == F_CAS ? SLJIT_ATOMIC_USE_CAS : i->form == F_LS ? SLJIT_ATOMIC_USE_LS : 0); }
/* the value which a load gives: known bits in *k */
static u64 loaded(int op, u64 m, u64 *k)
{
	int n = opsz[op]; u64 v = m & nmask(n);
	if (is_signed(op) && n < 8) { int s = 64 - 8 * n; v = (u64)((s64)(v << s) >> s); }
	*k = is32(op) ? 0xffffffffu : WM;
	return v & WM;
}
static u64 calc(int kind, u64 v, u64 c)
{
	switch (kind) {
	case K_XCHG: return c; case K_ADD: return v + c; case K_SUB: return v - c; case K_XOR: return v ^ c; case K_AND: return v & c;
	case K_SHL: return v << (c & 7); case K_MUL: return v * c; default: return ~v;
	}
}
static void emit_calc(struct sljit_compiler *c, int kind, int src, int dst, u64 cv)
{
	sljit_sw w = (sljit_sw)cv;
	switch (kind) {
	case K_XCHG: break; /* the constant is in src already */
	case K_ADD: sljit_emit_op2(c, SLJIT_ADD, src, 0, dst, 0, SLJIT_IMM, w); break;
	case K_SUB: sljit_emit_op2(c, SLJIT_SUB, src, 0, dst, 0, SLJIT_IMM, w); break;
	case K_XOR: sljit_emit_op2(c, SLJIT_XOR, src, 0, dst, 0, SLJIT_IMM, w); break;
	case K_AND: sljit_emit_op2(c, SLJIT_AND, src, 0, dst, 0, SLJIT_IMM, w); break;
	case K_SHL: sljit_emit_op2(c, SLJIT_SHL, src, 0, dst, 0, SLJIT_IMM, w & 7); break;
	case K_MUL: sljit_emit_op2(c, SLJIT_MUL, src, 0, dst, 0, SLJIT_IMM, w); break;
	default: sljit_emit_op2(c, SLJIT_XOR, src, 0, dst, 0, SLJIT_IMM, -1); break;
	}
}
/* output: results of flag consumers, number of attempts, registers, locals */
static struct { uw cons[MAXI]; u64 fc[MAXI]; uw jump[MAXI]; uw tries[MAXI], fails[MAXI]; uw g[32]; uw loc[LOCALS / WBYTES]; uw fpost[MAXI]; } *ob;
static u64 gv[32], gk[32];
static void setr(struct sljit_compiler *c, int r, u64 v) { sljit_emit_op1(c, SLJIT_MOV, reg(r), 0, SLJIT_IMM, (sljit_sw)v); gv[r] = v & WM; gk[r] = WM; }
static int bad_item(const item *i)
{
	int n = nreg(), o = opsz[i->op];
	if (i->dst >= n || i->meml >= n || i->mems >= n || i->src >= n || i->temp >= n || i->cd >= n) return 1;
	if (virt(i->meml) || virt(i->mems)) return 1;
	if (i->off + o > MSIZE - 8 || i->off < 8 || (i->off % o)) return 1;
	if (i->temp == i->mems || i->temp == i->meml) return 1;
	if (i->noload && i->form != F_CAS) return 1;
	if (i->wrong && i->form != F_CAS) return 1;
	if (i->form != F_LS && i->src == i->temp) return 1;
	if (!i->noload && i->dst == i->mems) return 1;
	if (i->kind != K_XCHG && i->src == i->mems) return 1; /* the address would be lost */
	if (i->kind != K_XCHG && i->noload) return 1;
	if (i->kind == K_XCHG && !i->noload && i->dst == i->src) return 1;
#if (defined SLJIT_CONFIG_LOONGARCH && SLJIT_CONFIG_LOONGARCH)
	if (i->form != F_CAS && i->dst == i->meml) return 1; /* qemu loses the address of the reservation */
#endif
	/* the temporary register is written before the new value is computed */
	if (i->kind != K_XCHG && i->temp == i->src) return 1;
	return 0;
}
static int supported(struct sljit_compiler *c, const item *i, int *res)
{
	sljit_s32 f = opflags(i), a, b;
	a = sljit_emit_atomic_load(c, f | SLJIT_ATOMIC_TEST, reg(i->dst), reg(i->meml));
	b = sljit_emit_atomic_store(c, f | SLJIT_ATOMIC_TEST, reg(i->src), reg(i->mems), i->temp == i->src && i->form != F_LS ? reg((i->temp + 1) % nreg()) : reg(i->temp));
	if (a != b || (a && a != SLJIT_ERR_UNSUPPORTED) || sljit_get_compiler_error(c)) { snprintf(msg, sizeof(msg), "op %d form %d: test form of load returns %d, of store %d, error %d", i->op, i->form, a, b, sljit_get_compiler_error(c)); *res = 10; return 0; }
	if (a) {
		a = sljit_emit_atomic_load(c, f, reg(i->dst), reg(i->meml)); b = sljit_emit_atomic_store(c, f, reg(i->src), reg(i->mems), reg(i->temp));
		if (a != SLJIT_ERR_UNSUPPORTED || b != a || sljit_get_compiler_error(c)) { snprintf(msg, sizeof(msg), "op %d form %d: the test form says unsupported, the load returns %d, the store %d, error %d", i->op, i->form, a, b, sljit_get_compiler_error(c)); *res = 10; }
		return 0;
	}
	return 1;
}
static int run_seq(void)
{
	struct sljit_compiler *c; struct sljit_label *l; struct sljit_jump *j, *j2; void *code; int k, m, e, on[MAXI], emitted = 0, unsup = 0, res = 0; u64 exp_flag[MAXI], exp_cons[MAXI], cons_mask[MAXI], exp_f[MAXI]; int fmask[MAXI]; double fd1 = 1.5, fd2 = -2.25; float ff1 = 1.5f, ff2 = -2.25f;
	for (k = 0; k < ni; k++) if (bad_item(&it[k])) return 3;
	for (k = 0; k < MSIZE; k++) mem[k] = mm[k] = (u8)dat((u64)k);
	memset(ob, 0xee, sizeof(*ob)); memset(gk, 0, sizeof(gk));
	c = sljit_create_compiler(NULL);
	if (!c) { fprintf(stderr, "INFRA: compiler\n"); exit(99); }
	sljit_emit_enter(c, 0, SLJIT_ARGS0V(), nsc | SLJIT_ENTER_FLOAT(4), nsv, LOCALS);
	for (k = 0; k < LOCALS; k += WBYTES) sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(SLJIT_SP), k, SLJIT_IMM, (sljit_sw)dat(100 + (u64)k));
	for (k = 0; k < nreg(); k++) setr(c, k, dat(200 + (u64)k));
	for (k = 0; k < ni; k++) {
		item *i = &it[k]; int n = opsz[i->op], stored, retry; u64 old, tv, nv, kk; uw a = (uw)(mem + i->off); sljit_s32 cond = i->neg ? SLJIT_ATOMIC_NOT_STORED : SLJIT_ATOMIC_STORED;
		on[k] = 0;
		if (!supported(c, i, &res)) { if (res) { sljit_free_compiler(c); return res; } unsup++; continue; }
		on[k] = 1; emitted++;
		retry = i->flag && i->form != F_CAS;
		sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM0(), (sljit_sw)(uw)&ob->tries[k], SLJIT_IMM, 0);
		l = retry ? sljit_emit_label(c) : NULL;
		if (retry) sljit_emit_op2(c, SLJIT_ADD, SLJIT_MEM0(), (sljit_sw)(uw)&ob->tries[k], SLJIT_MEM0(), (sljit_sw)(uw)&ob->tries[k], SLJIT_IMM, 1);
		if (i->cons >= C_FSELECT && i->cons <= C_FSELECT32) { sljit_emit_fset64(c, SLJIT_FR0, fd1); sljit_emit_fset64(c, SLJIT_FR1, fd2); sljit_emit_fset32(c, SLJIT_FR2, ff1); sljit_emit_fset32(c, SLJIT_FR3, ff2); }
		/* inputs */
		if (i->cd != i->meml && i->cd != i->mems) setr(c, i->cd, i->x);
		old = ldn(mm + i->off, n);
		if (i->temp != i->src) setr(c, i->temp, i->x ^ 0x55);
		if (i->kind == K_XCHG) setr(c, i->src, i->val);
		if (!i->noload) setr(c, i->meml, (u64)a);
		setr(c, i->mems, (u64)a);
		if (i->src == i->meml && i->kind == K_XCHG && i->meml != i->mems && i->noload) setr(c, i->src, i->val);
		if (!i->noload) {
			sljit_emit_atomic_load(c, opflags(i), reg(i->dst), reg(i->meml));
			gv[i->dst] = loaded(i->op, old, &kk); gk[i->dst] = kk;
		}
		tv = loaded(i->op, old, &kk);
		if (i->form != F_LS) {
			if (i->noload) { setr(c, i->temp, tv ^ i->wrong); gk[i->temp] = kk; }
			else {
				if (i->temp != i->dst) { sljit_emit_op1(c, SLJIT_MOV, reg(i->temp), 0, reg(i->dst), 0); gv[i->temp] = tv; gk[i->temp] = kk; }
				if (i->wrong) {
					/* the value stays a properly extended one */
					u64 w = (u64)(u32)i->wrong & (is_signed(i->op) || (n == 4 && is32(i->op)) ? nmask(n) >> 1 : nmask(n));
					if (!w) w = 1;
					sljit_emit_op2(c, SLJIT_XOR, reg(i->temp), 0, reg(i->temp), 0, SLJIT_IMM, (sljit_sw)w); gv[i->temp] ^= w;
				}
			}
		}
		stored = !(i->form == F_CAS && i->wrong);
		if (i->form != F_LS && i->noload && i->wrong) { u64 w = (u64)(u32)i->wrong & (is_signed(i->op) || (n == 4 && is32(i->op)) ? nmask(n) >> 1 : nmask(n)); if (!w) w = 1; setr(c, i->temp, tv ^ w); gk[i->temp] = kk; }
		if (i->kind != K_XCHG) { emit_calc(c, i->kind, reg(i->src), reg(i->dst), i->val); nv = calc(i->kind, gv[i->dst], i->val); gk[i->src] = i->kind == K_AND || i->kind == K_XOR || i->kind == K_NOT ? gk[i->dst] : (gk[i->dst] & WM); gv[i->src] = nv & WM; }
		nv = gv[i->src];
		sljit_emit_atomic_store(c, opflags(i) | (i->flag ? SLJIT_SET_ATOMIC_STORED : 0), reg(i->src), reg(i->mems), reg(i->temp));
		if (!stored) gk[i->temp] = 0;
		if (stored) stn(mm + i->off, n, nv);
		exp_flag[k] = (u64)stored;
		if (i->flag) {
			u64 f = (u64)(stored != i->neg), o = gv[i->cd]; int cr = reg(i->cd), other;
			switch (i->post) {
			case P_MOV: other = (i->cd + 1) % nreg(); sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM0(), (sljit_sw)(uw)&ob->fpost[k], reg(other), 0); break;
			case P_MOVIMM: sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM0(), (sljit_sw)(uw)&ob->fpost[k], SLJIT_IMM, (sljit_sw)i->val); break;
			case P_SPILL: sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(SLJIT_SP), 0, reg(i->src), 0); sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(SLJIT_SP), 0, SLJIT_IMM, (sljit_sw)dat(100)); break;
			case P_FMOV: sljit_emit_fop1(c, SLJIT_MOV_F64, SLJIT_FR3, 0, SLJIT_FR3, 0); break;
			}
			exp_cons[k] = 0; cons_mask[k] = 0; fmask[k] = 0; exp_f[k] = 0;
			switch (i->cons) {
			case C_JUMP:
				sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM0(), (sljit_sw)(uw)&ob->cons[k], SLJIT_IMM, 1);
				j2 = sljit_emit_jump(c, cond);
				sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM0(), (sljit_sw)(uw)&ob->cons[k], SLJIT_IMM, 0);
				sljit_set_label(j2, sljit_emit_label(c));
				exp_cons[k] = f; cons_mask[k] = WM; break;
			case C_FLAGS: sljit_emit_op_flags(c, SLJIT_MOV, cr, 0, cond); gv[i->cd] = f; gk[i->cd] = WM; break;
			case C_FLAGS32: sljit_emit_op_flags(c, SLJIT_MOV32, cr, 0, cond); gv[i->cd] = f; gk[i->cd] = 0xffffffffu; break;
			case C_FLAGSMEM: sljit_emit_op_flags(c, SLJIT_MOV, SLJIT_MEM0(), (sljit_sw)(uw)&ob->cons[k], cond); exp_cons[k] = f; cons_mask[k] = WM; break;
			case C_FLAGSOR: sljit_emit_op_flags(c, SLJIT_OR, cr, 0, cond); gv[i->cd] |= f; break;
			case C_FLAGSAND: sljit_emit_op_flags(c, SLJIT_AND, cr, 0, cond); gv[i->cd] &= f; gk[i->cd] |= WM - 1; gv[i->cd] &= gk[i->cd] | 1; break;
			case C_FLAGSADD: sljit_emit_op_flags(c, SLJIT_XOR, cr, 0, cond); gv[i->cd] ^= f; break;
			case C_SELECT: sljit_emit_select(c, cond, cr, SLJIT_IMM, (sljit_sw)(i->val ^ 0x1234), cr); if (f) { gv[i->cd] = (i->val ^ 0x1234) & WM; gk[i->cd] = WM; } break;
			case C_FSELECT: sljit_emit_fselect(c, cond, SLJIT_FR0, SLJIT_FR1, 0, SLJIT_FR0); memcpy(&exp_f[k], f ? &fd2 : &fd1, 8); fmask[k] = 8; break;
			case C_FSELECT32: sljit_emit_fselect(c, cond | SLJIT_32, SLJIT_FR2, SLJIT_FR3, 0, SLJIT_FR2); memcpy(&exp_f[k], f ? &ff2 : &ff1, 4); fmask[k] = 4; break;
			}
			(void)o;
			/* with the logical operations the flags are not defined after op_flags */
			if (i->cons != C_FLAGSOR && i->cons != C_FLAGSAND && i->cons != C_FLAGSADD) {
				if (retry) {
					/* the flags are not defined after a label */
					j = i->cons == C_JUMP ? sljit_emit_cmp(c, SLJIT_EQUAL, SLJIT_MEM0(), (sljit_sw)(uw)&ob->cons[k], SLJIT_IMM, !i->neg) : sljit_emit_jump(c, SLJIT_ATOMIC_STORED);
					j2 = sljit_emit_cmp(c, SLJIT_LESS, SLJIT_MEM0(), (sljit_sw)(uw)&ob->tries[k], SLJIT_IMM, 1000);
					sljit_set_label(j2, l);
					sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM0(), (sljit_sw)(uw)&ob->tries[k], SLJIT_IMM, 5000);
					sljit_set_label(j, sljit_emit_label(c));
				} else if (i->cons != C_JUMP) sljit_emit_op_flags(c, SLJIT_MOV, SLJIT_MEM0(), (sljit_sw)(uw)&ob->jump[k], SLJIT_ATOMIC_STORED);
			}
			if (fmask[k]) sljit_emit_fop1(c, fmask[k] == 8 ? SLJIT_MOV_F64 : SLJIT_MOV_F32, SLJIT_MEM0(), (sljit_sw)(uw)&ob->fc[k], fmask[k] == 8 ? SLJIT_FR0 : SLJIT_FR2, 0);
		}
		(void)m;
	}
	for (k = 0; k < nreg(); k++) sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM0(), (sljit_sw)(uw)&ob->g[k], reg(k), 0);
	for (k = 0; k < LOCALS / WBYTES; k++) sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM0(), (sljit_sw)(uw)&ob->loc[k], SLJIT_MEM1(SLJIT_SP), k * WBYTES);
	sljit_emit_return_void(c);
	e = sljit_get_compiler_error(c);
	if (e) { sljit_free_compiler(c); FAIL("error %d", e); }
	code = sljit_generate_code(c, 0, NULL);
	if (!code) { e = sljit_get_compiler_error(c); sljit_free_compiler(c); FAIL("the code is not generated, error %d", e); }
	sljit_free_compiler(c);
	pg->phase = 1;
	((void (SLJIT_FUNC *)(void))code)();
	pg->phase = 0;
	sljit_free_code(code, NULL);
	for (k = 0; k < ni; k++) {
		item *i = &it[k]; int simple = i->cons != C_FLAGSOR && i->cons != C_FLAGSAND && i->cons != C_FLAGSADD;
		if (!on[k] || !i->flag) continue;
		if (i->form != F_CAS && simple && ob->tries[k] >= 1000) FAIL("item %d: the store never succeeds", k);
		if (i->form == F_CAS && simple && i->cons != C_JUMP && ob->jump[k] != exp_flag[k]) FAIL("item %d: the stored flag is %llx instead of %llx", k, (unsigned long long)ob->jump[k], (unsigned long long)exp_flag[k]);
		if ((ob->cons[k] ^ exp_cons[k]) & cons_mask[k]) FAIL("item %d: the condition is %llx instead of %llx", k, (unsigned long long)ob->cons[k], (unsigned long long)exp_cons[k]);
		if (fmask[k] && memcmp(&ob->fc[k], &exp_f[k], (size_t)fmask[k])) FAIL("item %d: fselect gives %llx instead of %llx", k, (unsigned long long)ob->fc[k], (unsigned long long)exp_f[k]);
	}
	for (k = 0; k < MSIZE; k++) if (mem[k] != mm[k]) FAIL("memory: byte %d is %02x instead of %02x", k, mem[k], mm[k]);
	for (k = 0; k < nreg(); k++) if ((ob->g[k] ^ gv[k]) & gk[k]) FAIL("register %d is %llx instead of %llx (known bits %llx)", k, (unsigned long long)ob->g[k], (unsigned long long)gv[k], (unsigned long long)gk[k]);
	for (k = 0; k < LOCALS / WBYTES; k++) if (ob->loc[k] != (uw)dat(100 + (u64)(k * WBYTES))) FAIL("local %d is %llx", k * WBYTES, (unsigned long long)ob->loc[k]);
	pg->extra[0] += (u64)emitted; pg->extra[1] += (u64)unsup;
	for (k = 0; k < ni; k++) if (on[k]) { pg->extra[10 + it[k].op]++; pg->extra[24 + it[k].form]++; if (it[k].wrong) pg->extra[2]++; if (it[k].noload) pg->extra[3]++; if (it[k].flag) pg->extra[30 + it[k].cons]++; }
	return emitted ? 0 : 100;
}

/* ---------- threads ---------- */
#define MAXT 8
static void *tcode[MAXT]; static volatile int go; static int tready; static int tn;
static struct { uw n; uw pad[15]; } *cnt; /* number of successful updates of each thread, and of attempts */
static void *thread_main(void *a)
{
	int k = (int)(sw)a;
	__atomic_add_fetch(&tready, 1, __ATOMIC_SEQ_CST);
	while (!__atomic_load_n(&go, __ATOMIC_SEQ_CST)) ;
	if (tcode[k]) ((void (SLJIT_FUNC *)(void))tcode[k])();
	else { /* a thread of the C compiler */
		int n; u8 *p = mem + it[k].off; u64 v = it[k].val;
		for (n = 0; n < loops; n++) switch (opsz[it[k].op]) {
		case 4: __atomic_fetch_add((u32*)p, (u32)v, __ATOMIC_SEQ_CST); break;
#if W64
		case 8: __atomic_fetch_add((u64*)p, (u64)v, __ATOMIC_SEQ_CST); break;
#endif
		}
	}
	return NULL;
}
/* A loop which makes the update loops times. Registers: a loop counter (saved register), the address and temporaries. */
static void *gen_thread(item *i, int k, int *unsup)
{
	struct sljit_compiler *c = sljit_create_compiler(NULL); struct sljit_label *top; struct sljit_jump *j; void *code; int r = 10, dl = -1, q; sljit_s32 cond = i->neg ? SLJIT_ATOMIC_NOT_STORED : SLJIT_ATOMIC_STORED;
	if (!c) { fprintf(stderr, "INFRA: compiler\n"); exit(99); }
	*unsup = 0;
	sljit_emit_enter(c, 0, SLJIT_ARGS0V(), nsc | SLJIT_ENTER_FLOAT(4), nsv, LOCALS);
	r = 0;
	if (!supported(c, i, &r)) { *unsup = r ? -1 : 1; sljit_free_compiler(c); return NULL; }
	/* the counter is on the stack, the delay counter is a free register when there is one */
	for (q = 0; q < nreg(); q++) if (q != i->dst && q != i->meml && q != i->mems && q != i->src && q != i->temp && q != i->cd) dl = q;
	sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(SLJIT_SP), WBYTES, SLJIT_IMM, loops);
	sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(SLJIT_SP), 3 * WBYTES, SLJIT_IMM, 0);
	top = sljit_emit_label(c);
	if (dl >= 0) sljit_emit_op1(c, SLJIT_MOV, reg(dl), 0, SLJIT_IMM, 1 + i->delay);
	if (!i->noload) sljit_emit_op1(c, SLJIT_MOV, reg(i->meml), 0, SLJIT_IMM, (sljit_sw)(uw)(mem + i->off));
	sljit_emit_op1(c, SLJIT_MOV, reg(i->mems), 0, SLJIT_IMM, (sljit_sw)(uw)(mem + i->off));
	if (!i->noload) sljit_emit_atomic_load(c, opflags(i), reg(i->dst), reg(i->meml));
	else sljit_emit_op1(c, ops[i->op], reg(i->dst), 0, SLJIT_MEM1(reg(i->mems)), 0); /* a plain load is enough for compare and swap */
	if (i->form != F_LS && i->temp != i->dst) sljit_emit_op1(c, SLJIT_MOV, reg(i->temp), 0, reg(i->dst), 0);
	emit_calc(c, i->kind, reg(i->src), reg(i->dst), i->val);
	if (dl >= 0 && i->delay) {
		struct sljit_label *dlab = sljit_emit_label(c);
		sljit_emit_op2(c, SLJIT_SUB | SLJIT_SET_Z, reg(dl), 0, reg(dl), 0, SLJIT_IMM, 1);
		sljit_set_label(sljit_emit_jump(c, SLJIT_NOT_ZERO), dlab);
	}
	sljit_emit_atomic_store(c, opflags(i) | SLJIT_SET_ATOMIC_STORED, reg(i->src), reg(i->mems), reg(i->temp));
	switch (i->cons) {
	case C_FLAGS: case C_FLAGS32: case C_FLAGSMEM: case C_FLAGSOR: case C_FLAGSAND: case C_FLAGSADD:
		sljit_emit_op_flags(c, i->cons == C_FLAGS32 ? SLJIT_MOV32 : SLJIT_MOV, i->cons == C_FLAGSMEM ? SLJIT_MEM1(SLJIT_SP) : reg(i->cd), i->cons == C_FLAGSMEM ? 2 * WBYTES : 0, cond);
		j = sljit_emit_cmp(c, (i->neg ? SLJIT_NOT_EQUAL : SLJIT_EQUAL) | (i->cons == C_FLAGS32 ? SLJIT_32 : 0), i->cons == C_FLAGSMEM ? SLJIT_MEM1(SLJIT_SP) : reg(i->cd), i->cons == C_FLAGSMEM ? 2 * WBYTES : 0, SLJIT_IMM, 0);
		break;
	case C_SELECT:
		sljit_emit_op1(c, SLJIT_MOV, reg(i->cd), 0, SLJIT_IMM, 77);
		sljit_emit_select(c, cond, reg(i->cd), SLJIT_IMM, 99, reg(i->cd));
		j = sljit_emit_cmp(c, SLJIT_EQUAL, reg(i->cd), 0, SLJIT_IMM, i->neg ? 99 : 77);
		break;
	case C_FSELECT:
		sljit_emit_fset64(c, SLJIT_FR0, 1.0);
		sljit_emit_fset64(c, SLJIT_FR1, 2.0);
		sljit_emit_fselect(c, cond, SLJIT_FR0, SLJIT_FR1, 0, SLJIT_FR0);
		j = sljit_emit_fcmp(c, i->neg ? SLJIT_F_NOT_EQUAL : SLJIT_F_EQUAL, SLJIT_FR0, 0, SLJIT_FR1, 0);
		if (!i->neg) { sljit_set_label(sljit_emit_jump(c, SLJIT_JUMP), top); sljit_set_label(j, sljit_emit_label(c)); j = NULL; }
		else { struct sljit_jump *jj = sljit_emit_jump(c, SLJIT_JUMP); sljit_set_label(jj, top); sljit_set_label(j, sljit_emit_label(c)); j = NULL; }
		break;
	default:
		if (i->neg) j = sljit_emit_jump(c, SLJIT_ATOMIC_NOT_STORED);
		else { struct sljit_jump *ok = sljit_emit_jump(c, SLJIT_ATOMIC_STORED); j = sljit_emit_jump(c, SLJIT_JUMP); sljit_set_label(ok, sljit_emit_label(c)); }
		break;
	}
	if (j) sljit_set_label(j, top);
	if (i->form != F_LS) { /* the temporary register still holds the loaded value: sums of them are compared */
		sljit_emit_op2(c, SLJIT_ADD, SLJIT_MEM1(SLJIT_SP), 3 * WBYTES, SLJIT_MEM1(SLJIT_SP), 3 * WBYTES, SLJIT_IMM, 1);
	}
	sljit_emit_op2(c, SLJIT_SUB | SLJIT_SET_Z, SLJIT_MEM1(SLJIT_SP), WBYTES, SLJIT_MEM1(SLJIT_SP), WBYTES, SLJIT_IMM, 1);
	sljit_set_label(sljit_emit_jump(c, SLJIT_NOT_ZERO), top);
	sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM0(), (sljit_sw)(uw)&cnt[k].n, SLJIT_IMM, loops);
	sljit_emit_return_void(c);
	code = sljit_generate_code(c, 0, NULL);
	if (!code) { snprintf(msg, sizeof(msg), "thread %d: the code is not generated, error %d", k, sljit_get_compiler_error(c)); *unsup = -1; }
	sljit_free_compiler(c);
	return code;
}
static int run_thr(void)
{
	pthread_t t[MAXT]; int k, m, u, live = 0, bad = 0, big; u64 init;
	for (k = 0; k < ni; k++) if (bad_item(&it[k]) || it[k].kind == K_XCHG || it[k].wrong) { if (it[k].noload && it[k].kind == K_ADD && !it[k].wrong) { item z = it[k]; z.noload = 0; if (!bad_item(&z) && z.dst != z.mems) continue; } return 3; }
	if (ni < 1 || ni > MAXT || loops < 1) return 3;
	for (k = 0; k < ni; k++) if (it[k].kind != K_ADD || it[k].cd == it[k].mems || it[k].cd == it[k].meml) { if (it[k].kind != K_ADD) return 3; }
	for (k = 0; k < MSIZE; k++) mem[k] = mm[k] = (u8)dat((u64)k);
	memset(cnt, 0, sizeof(*cnt) * MAXT);
	for (k = 0; k < ni; k++) {
		tcode[k] = NULL;
		big = opsz[it[k].op] == 4 || opsz[it[k].op] == WBYTES;
		if (it[k].x % 5 == 0 && big && k) { stn(mm + it[k].off, opsz[it[k].op], ldn(mm + it[k].off, opsz[it[k].op]) + it[k].val * (u64)loops); live++; cnt[k].n = (uw)loops; continue; }
		tcode[k] = gen_thread(&it[k], k, &u);
		if (u < 0) bad = 1;
		else if (u) it[k].form = -1; /* not supported */
		else { stn(mm + it[k].off, opsz[it[k].op], ldn(mm + it[k].off, opsz[it[k].op]) + it[k].val * (u64)loops); live++; }
	}
	(void)init; (void)m;
	if (!bad && live) {
		int n = 0;
		go = 0; tready = 0; pg->phase = 2;
		for (k = 0; k < ni; k++) if (it[k].form >= 0) { if (pthread_create(&t[n], NULL, thread_main, (void*)(sw)k)) { fprintf(stderr, "INFRA: thread\n"); exit(99); } n++; }
		while (__atomic_load_n(&tready, __ATOMIC_SEQ_CST) < n) sched_yield();
		__atomic_store_n(&go, 1, __ATOMIC_SEQ_CST);
		for (k = 0; k < n; k++) pthread_join(t[k], NULL);
		pg->phase = 0;
	}
	for (k = 0; k < ni; k++) if (tcode[k]) sljit_free_code(tcode[k], NULL);
	if (bad) return 10;
	for (k = 0; k < ni; k++) if (it[k].form >= 0 && cnt[k].n != (uw)loops) FAIL("thread %d did not finish its loop", k);
	for (k = 0; k < MSIZE; k++) if (mem[k] != mm[k]) {
		for (u = 0; u < ni; u++) if (it[u].form >= 0 && k >= it[u].off && k < it[u].off + opsz[it[u].op]) FAIL("updates of location %d (thread %d, %d bytes) are lost: %llx instead of %llx", it[u].off, u, opsz[it[u].op], (unsigned long long)ldn(mem + it[u].off, opsz[it[u].op]), (unsigned long long)ldn(mm + it[u].off, opsz[it[u].op]));
		FAIL("byte %d is %02x instead of %02x", k, mem[k], mm[k]);
	}
	pg->extra[4] += (u64)live; if (live > 1) pg->extra[5]++; pg->extra[6] += (u64)live * (u64)loops;
	for (k = 0; k < ni; k++) if (it[k].form >= 0) { pg->extra[10 + it[k].op]++; pg->extra[24 + it[k].form]++; pg->extra[30 + it[k].cons]++; }
	return live > 1 ? 0 : 100;
}
static int supp_ops[NOPS * 3], nsupp;
static void find_supported(void)
{
	struct sljit_compiler *c = sljit_create_compiler(NULL); int o, f; item z;
	nsc = 3; nsv = 3;
	sljit_emit_enter(c, 0, SLJIT_ARGS0V(), 3, 3, 0);
	nsupp = 0;
	for (o = 0; o < NOPS; o++) for (f = 0; f < 3; f++) { int res = 0; memset(&z, 0, sizeof(z)); z.op = o; z.form = f; z.src = 2; z.meml = z.mems = 1; z.temp = 0; if (supported(c, &z, &res)) supp_ops[nsupp++] = o * 3 + f; }
	sljit_free_compiler(c);
}
static void make_item(item *i, int thr)
{
	int n, k;
	for (k = 0; k < 300; k++) {
		int s;
		memset(i, 0, sizeof(*i));
		if (nsupp && rp(90)) { s = supp_ops[rn((u32)nsupp)]; i->op = s / 3; i->form = s % 3; } else { i->op = (int)rn(NOPS); i->form = (int)rn(3); }
		n = opsz[i->op];
		i->off = (8 + (int)rn(MSIZE - 16)) / n * n; if (i->off < 8) i->off += 8;
		i->dst = (int)rn((u32)nreg()); i->meml = (int)rn((u32)nreg()); i->mems = rp(50) ? i->meml : (int)rn((u32)nreg()); i->src = (int)rn((u32)nreg());
		i->temp = rp(50) ? i->dst : (int)rn((u32)nreg()); i->cd = (int)rn((u32)nreg());
		if (rp(30)) i->temp = 0; if (rp(15)) i->mems = i->meml = 0; if (rp(15)) i->src = 0; if (rp(15)) i->dst = 0;
		i->kind = thr ? K_ADD : (int)rn(K_KINDS);
		i->val = rval(); i->x = r64();
		i->noload = i->form == F_CAS && rp(30);
		if (i->noload && !thr) i->kind = K_XCHG;
		if (!thr && i->form == F_CAS && rp(35)) { i->wrong = (int)(1u << rn((u32)(n >= 4 ? 31 : n * 8))); if (rp(30)) i->wrong |= (int)(r64() & nmask(n) & 0x7fffffff); if (!(i->wrong & (int)(nmask(n) & 0x7fffffff))) i->wrong = 1; }
		i->flag = thr || rp(85); i->neg = rp(50); i->cons = (int)rn(C_KINDS); i->post = rp(40) ? (int)rn(P_KINDS) : 0;
		i->delay = rp(50) ? 0 : (int)rn(rp(80) ? 20 : 200);
		if (thr) { int nl = i->noload; i->val |= 1; i->noload = 0; s = bad_item(i) || i->dst == i->mems; i->noload = nl; if (!s) return; }
		else if (!bad_item(i)) return;
	}
	i->dst = i->temp = 0; i->meml = i->mems = 1; i->src = 2; i->cd = 2; i->wrong = 0; i->noload = 0; if (thr) i->kind = K_ADD;
	if (virt(1)) abort();
}
static void make_case(const char *prof, u64 seed, u64 n)
{
	int k;
	rseed(seed, n);
	dseed = r64();
	threads = prof[0] == 't';
	nsc = 4 + (int)rn((u32)(SLJIT_NUMBER_OF_SCRATCH_REGISTERS - 3)); nsv = (int)rn((u32)SLJIT_NUMBER_OF_SAVED_REGISTERS + 1);
	if (nsc + nsv > SLJIT_NUMBER_OF_REGISTERS) nsv = SLJIT_NUMBER_OF_REGISTERS - nsc;
	if (rp(30)) { nsc = 3 + (int)rn(2); nsv = 1 + (int)rn(2); }
	loops = 0;
	if (!threads) {
		ni = 1 + (int)rn(rp(60) ? 3 : MAXI);
		for (k = 0; k < ni; k++) make_item(&it[k], 0);
		return;
	}
	ni = 2 + (int)rn(rp(60) ? 3 : 5);
	loops = rp(70) ? 50 + (int)rn(600) : 2000 + (int)rn(6000);
	for (k = 0; k < ni; k++) {
		make_item(&it[k], 1);
		if (k && rp(70)) { /* the same location */
			int o = (int)rn((u32)k), tries;
			for (tries = 0; tries < 100 && opsz[it[k].op] != opsz[it[o].op]; tries++) make_item(&it[k], 1);
			if (opsz[it[k].op] == opsz[it[o].op]) it[k].off = it[o].off;
		} else if (k && rp(70)) { /* a neighbour */
			int o = (int)rn((u32)k), z = it[o].off & ~7, s = opsz[it[k].op];
			it[k].off = (z + (int)rn(8)) / s * s;
		}
		/* locations are the same or disjoint */
		{ int o, again = 0, tries = 0; do { again = 0; for (o = 0; o < k; o++) if (it[o].off != it[k].off || opsz[it[o].op] != opsz[it[k].op]) if (it[o].off < it[k].off + opsz[it[k].op] && it[k].off < it[o].off + opsz[it[o].op]) { again = 1; break; }
			if (again) { int s = opsz[it[k].op]; it[k].off = (8 + (int)rn(MSIZE - 16)) / s * s; if (it[k].off < 8) it[k].off += 8; } } while (again && ++tries < 1000); if (again) { ni = k; break; } }
	}
}
static void write_case(FILE *f)
{
	int k;
	fprintf(f, "atom %llx %d %d %d %d\n", (unsigned long long)dseed, nsc, nsv, threads, loops);
	for (k = 0; k < ni; k++) { const item *i = &it[k]; fprintf(f, "i %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %llx %llx\n", i->op, i->form, i->noload, i->off, i->dst, i->meml, i->mems, i->src, i->temp, i->kind, i->wrong, i->flag, i->neg, i->cons, i->cd, i->post, i->delay, (unsigned long long)i->val, (unsigned long long)i->x); }
	fprintf(f, "end\n");
}
static int read_case(FILE *f)
{
	char line[300]; unsigned long long a, b; int ok = 0;
	ni = 0;
	while (fgets(line, sizeof(line), f)) {
		item i;
		if (!strncmp(line, "end", 3)) break;
		if (sscanf(line, "atom %llx %d %d %d %d", &a, &nsc, &nsv, &threads, &loops) == 5) { dseed = a; ok = 1; continue; }
		if (sscanf(line, "i %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %llx %llx", &i.op, &i.form, &i.noload, &i.off, &i.dst, &i.meml, &i.mems, &i.src, &i.temp, &i.kind, &i.wrong, &i.flag, &i.neg, &i.cons, &i.cd, &i.post, &i.delay, &a, &b) != 19) continue;
		i.val = a; i.x = b;
		if (i.op < 0 || i.op >= NOPS || i.form < 0 || i.form > 2 || i.dst < 0 || i.meml < 0 || i.mems < 0 || i.src < 0 || i.temp < 0 || i.cd < 0 || ni >= MAXI) return 1;
		it[ni++] = i;
	}
	if (nsc < 1 || nsv < 0 || nsc + nsv > SLJIT_NUMBER_OF_REGISTERS || nsc > SLJIT_NUMBER_OF_SCRATCH_REGISTERS || nsv > SLJIT_NUMBER_OF_SAVED_REGISTERS) return 1;
	return !ok;
}
int main(int argc, char **argv)
{
	if (argc < 2) return 99;
	setvbuf(stdout, NULL, _IOLBF, 0);
	mem = (u8*)fixmap(0x31230000ul, 4096) + 1024;
	ob = fixmap(0x32340000ul, (sizeof(*ob) + 4095) & ~4095ul);
	cnt = fixmap(0x33450000ul, 4096);
	if (!sljit_has_cpu_feature(SLJIT_HAS_ATOMIC)) { if (!strcmp(argv[1], "run") && argc >= 7) { progress_open(argv[6]); return 0; } printf("INVALID no atomics\n"); return 3; }
	if (!strcmp(argv[1], "run") && argc >= 7) {
		u64 seed = strtoull(argv[3], NULL, 10), n = strtoull(argv[4], NULL, 10), end, stop = stop_at();
		progress_open(argv[6]);
		find_supported();
		end = now_ms() + strtoull(argv[5], NULL, 10);
		for (; now_ms() < end && n <= stop; n++) {
			int r; u64 h;
			pg->cur = n; pg->phase = 0;
			if (n % 16 == 0 || argv[2][0] == 't') arm_watchdog(argv[2][0] == 't' ? 100 : 20);
			make_case(argv[2], seed, n);
			pg->cases++; pg->instrs += (u64)ni;
			h = fnv(fnv(14695981039346656037ull, it, sizeof(item) * (size_t)ni), &dseed, 8);
			r = threads ? run_thr() : run_seq();
			if (r == 3) { pg->skipped++; continue; }
			if (r && r != 100) { printf("MISMATCH case=%llu %s\n", (unsigned long long)n, msg); return r; }
			if (!r && dset_add(h)) pg->nontriv++;
		}
		return 0;
	}
	if (!strcmp(argv[1], "dump") && argc >= 5) { find_supported(); make_case(argv[2], strtoull(argv[3], NULL, 10), strtoull(argv[4], NULL, 10)); write_case(stdout); return 0; }
	if (!strcmp(argv[1], "replay") && argc >= 3) {
		FILE *f = fopen(argv[2], "r"); int r = 0, k;
		if (!f || read_case(f)) { printf("INVALID unreadable\n"); return 3; }
		fclose(f);
		arm_watchdog(200);
		for (k = 0; k < (threads ? 20 : 1); k++) {
			item save[MAXI]; memcpy(save, it, sizeof(it));
			r = threads ? run_thr() : run_seq();
			memcpy(it, save, sizeof(it));
			if (r == 3) { printf("INVALID\n"); return 3; }
			if (r && r != 100) { printf("MISMATCH %s\n", msg); return r; }
		}
		printf("OK\n");
		return 0;
	}
	return 99;
}
