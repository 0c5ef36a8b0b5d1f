/* Properties of the compiler object and of the generated code as bytes: serialization (ser), determinism (det), code buffers (buf),
   allocation failures (oom), attached memory and object lists (lists), run time patching (patch), read only buffers (robuf).
   metafuzz run <kind> <seed> <start> <ms> <progress> | dump <kind> <seed> <case> | replay <file>
   A case is a line "meta <kind> <seed>" and a program; the seed drives the choices which are not part of the program. */
#include "gen.h"

/* ---------- memory hooks (sljitConfigPre.h) ---------- */
typedef struct { u64 magic; uw size; void *data; } mhdr;
#define MH_LIVE 0x51a7e0c0ffee1234ull
#define MH_PAD 32
static long h_live, h_no, h_fail = -1, h_exec_no; static int h_failed, h_execfail; static u64 h_junk = 1; static const char *h_err; static void *h_data;
static int h_hit(void) { if (h_no++ == h_fail) { h_failed = 1; return 1; } return 0; }
void *vt_malloc(unsigned long size, void *data)
{
	u8 *p; mhdr *h; uw k;
	if (data != h_data && !h_err) h_err = "allocator data differs at an allocation";
	if (h_hit()) return NULL;
	p = (u8*)malloc(MH_PAD * 2 + size); h = (mhdr*)p;
	if (!p) { fprintf(stderr, "INFRA: malloc\n"); exit(99); }
	h->magic = MH_LIVE; h->size = size; h->data = data;
	p += MH_PAD;
	{ u64 v = h_junk | 1; for (k = 0; k + 8 <= size; k += 8, v = v * 0x5851f42d4c957f2dull + 77) memcpy(p + k, &v, 8); for (; k < size; k++) p[k] = (u8)(v >> 8); }
	memset(p + size, 0xc7, MH_PAD);
	h_live++;
	return p;
}
void vt_free(void *ptr, void *data)
{
	u8 *p = (u8*)ptr; mhdr *h; int k;
	if (!ptr) { if (!h_err) h_err = "a null pointer is freed"; return; }
	h = (mhdr*)(p - MH_PAD);
	if (h->magic != MH_LIVE) { if (!h_err) h_err = "free of a block which is not live"; return; }
	if (h->data != data && !h_err) h_err = "allocator data differs at a free";
	for (k = 0; k < MH_PAD; k++) if (p[h->size + (uw)k] != 0xc7 && !h_err) h_err = "write behind a memory block";
	h->magic = 0xdead;
	memset(p, 0xdd, h->size);
	h_live--;
	free(h);
}
int vt_exec_ok(unsigned long size, void *data) { (void)size; (void)data; h_exec_no++; if (h_hit()) { h_execfail = 1; return 0; } return 1; }

/* live executable blocks, by the address that is passed to the free operation */
static u8 *x_live[64]; static int x_n;
void *vt_exec_got(void *ptr)
{
	if (ptr && x_n < 64) x_live[x_n++] = (u8*)ptr + SLJIT_EXEC_OFFSET(ptr);
	return ptr;
}
void vt_exec_freed(void *ptr)
{
	int k;
	for (k = 0; k < x_n; k++) if (x_live[k] == (u8*)ptr) { x_live[k] = x_live[--x_n]; return; }
	printf("MISMATCH memory: executable memory which is not live is freed\n"); fflush(stdout); _exit(10);
}

/* code buffers with separate views exist in this build only */
#if (defined SLJIT_PROT_EXECUTABLE_ALLOCATOR && SLJIT_PROT_EXECUTABLE_ALLOCATOR)
#define HAVE_DUAL 1
#else
#define HAVE_DUAL 0
#endif
/* pages are either writable or executable in this build: the code is always in memory of its allocator */
#if (defined SLJIT_WX_EXECUTABLE_ALLOCATOR && SLJIT_WX_EXECUTABLE_ALLOCATOR)
#define IS_WX 1
#else
#define IS_WX 0
#endif

/* Emulators cache translations by address and do not see writes through another view: the executable view is dropped and mapped
   again before the code runs. (The host does not need it.) */
static struct { u8 *code; uw size; } gens[32]; static int ngens;
static void *vt_generate(struct sljit_compiler *c, s32 options, void *data)
{
	void *p = sljit_generate_code(c, options, data); uw q = (uw)p & ~(uw)1;
	if (p) { gens[ngens % 32].code = (u8*)q; gens[ngens++ % 32].size = sljit_get_generated_code_size(c); }
	return p;
}
static void exec_flush(void *code)
{
#if HAVE_DUAL && !(defined SLJIT_CONFIG_X86 && SLJIT_CONFIG_X86)
	uw q = (uw)code & ~(uw)1, lo, hi; int k, n;
	for (n = 0; n < 32; n++) {
		k = (ngens - 1 - n) & 31;
		if ((uw)gens[k].code != q) continue;
		lo = q & ~(uw)4095; hi = (q + gens[k].size + 4095) & ~(uw)4095;
		if (mprotect((void*)lo, hi - lo, PROT_NONE) || mprotect((void*)lo, hi - lo, PROT_READ | PROT_EXEC)) { fprintf(stderr, "INFRA: mprotect\n"); exit(99); }
		return;
	}
#else
	(void)code;
#endif
}
#define sljit_generate_code vt_generate

/* ---------- second random stream ---------- */
static u64 ms_;
static u32 mrn(u32 n) { u64 v = splitmix(&ms_); return n ? (u32)((v >> 32) * n >> 32) : 0; }
static int mrp(int pct) { return mrn(100) < (u32)pct; }

#define FAIL(...) do { snprintf(failmsg, sizeof(failmsg), __VA_ARGS__); return RC_FAIL; } while (0)

/* ---------- code buffers ---------- */
static u8 *br; static uw br_size; /* region with inaccessible pages on both sides */
#define CB_SIZE 0x1000000
static u8 *cb; /* fixed address, rwx */
static void cb_init(void)
{
	cb = (u8*)mmap((void*)0x21000000ul, CB_SIZE, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
	if (cb == MAP_FAILED) cb = (u8*)mmap(NULL, CB_SIZE, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (cb == MAP_FAILED) { fprintf(stderr, "INFRA: code buffer\n"); exit(99); }
}

/* ---------- emission which records every object ---------- */
#define MAXO (6 * MAXI)
typedef struct { struct sljit_jump *j; int kind; s64 label; uw target; int ejmp; int addr; int pc; } mjump; /* kind 0 label of the program, 1 target, 2 internal label */
typedef struct { struct sljit_const *c; int pc; } mconst;
typedef struct {
	struct sljit_compiler *c; emitctx e;
	struct sljit_label *labs[MAXO]; u8 labuser[MAXO]; int labidx[MAXL]; int nlab;
	mjump j[MAXO]; int nj; mconst k[MAXI]; int nk;
	u8 bound[MAXO];
	struct { u8 *p; int size; u8 pat; } am[600]; int nam;
	int nullarg;
} mctx;
static mctx *mc_new(void) { mctx *m = (mctx*)calloc(1, sizeof(mctx)); if (!m) exit(99); return m; }

static int is_noop(const ins *i) { return i->k == K_SETFLAGS || (i->k == K_PAD && i->x <= 0); } /* steps which may succeed after an error */

/* the new objects of the compiler: those of the program (ul, uj) and those which are created internally (calls of library functions, local branches) */
static s32 m_absorb(mctx *m, struct sljit_label *ul, struct sljit_jump *uj, const ins *i, int ejmp, int pc)
{
	struct sljit_label *l = m->nlab ? sljit_get_next_label(m->labs[m->nlab - 1]) : sljit_get_first_label(m->c); struct sljit_jump *j = m->nj ? sljit_get_next_jump(m->j[m->nj - 1].j) : sljit_get_first_jump(m->c); int k;
	if (sljit_get_compiler_error(m->c)) return 0;
	for (; l && m->nlab < MAXO; l = sljit_get_next_label(l)) { m->labuser[m->nlab] = l == ul; m->labs[m->nlab++] = l; }
	if (ul) {
		for (k = m->nlab - 1; k >= 0 && m->labs[k] != ul; k--) ;
		if (k < 0) { if (!h_err) h_err = "an emitted label is not in the list of labels"; return 0; }
		m->labidx[i->x] = k; m->labuser[k] = 1;
	}
	for (; j && m->nj < MAXO; j = sljit_get_next_jump(j)) {
		mjump *q = &m->j[m->nj];
		q->j = j; q->pc = -1; q->addr = 0; q->ejmp = -1; q->label = -1; q->target = 0; m->bound[m->nj] = 1; m->nj++;
		if (j == uj) { q->kind = 0; q->label = i->x; q->ejmp = ejmp; q->addr = i->k == K_OPADDR; q->pc = pc; m->bound[m->nj - 1] = 0; uj = NULL; continue; }
		q->addr = !!sljit_jump_is_mov_addr(j);
		if (sljit_jump_has_target(j)) { q->kind = 1; q->target = sljit_jump_get_target(j); continue; }
		if (!sljit_jump_has_label(j)) { if (!h_err) h_err = "an internal jump has no target"; continue; }
		q->kind = 2;
		for (k = 0; k < m->nlab && m->labs[k] != sljit_jump_get_label(j); k++) ;
		q->label = k;
		if (k >= m->nlab && !h_err) h_err = "the label of an internal jump is not in the list of labels";
	}
	if (uj && !h_err) h_err = "an emitted jump is not in the list of jumps";
	return 0;
}

static s32 m_emit(mctx *m, const prog *p, int pc)
{
	const ins *i = &p->i[pc]; struct sljit_compiler *c = m->c; s32 r; int nj = m->e.nj;
	if (i->k == K_CONST) {
		struct sljit_const *k = sljit_emit_const(c, i->op, i->o[0], i->w[0], (sw)i->x);
		if (!k) return sljit_get_compiler_error(c) ? sljit_get_compiler_error(c) : -1;
		m->k[m->nk].c = k; m->k[m->nk].pc = pc; m->nk++;
		return sljit_get_compiler_error(c);
	}
	if (i->k == K_ICALL && i->o[1] != SLJIT_IMM && i->o[1] != SLJIT_MEM0()) {
		struct sljit_jump *j = sljit_emit_call(c, SLJIT_CALL | (i->o[1] == 2 ? SLJIT_REWRITABLE_JUMP : 0), hlp_types(i->op));
		if (m->nullarg) sljit_set_target(j, SLJIT_FUNC_UADDR(hlp_addr(i->op)));
		if (!j) return sljit_get_compiler_error(c) ? sljit_get_compiler_error(c) : -1;
		sljit_set_target(j, SLJIT_FUNC_UADDR(hlp_addr(i->op)));
		m->j[m->nj].j = j; m->j[m->nj].kind = 1; m->j[m->nj].addr = 0; m->j[m->nj].ejmp = -1; m->j[m->nj].target = SLJIT_FUNC_UADDR(hlp_addr(i->op)); m->j[m->nj].pc = pc; m->bound[m->nj] = 1; m->nj++;
		return sljit_get_compiler_error(c);
	}
	r = emit_ins(c, p, i, &m->e);
	if (r) return r;
	return m_absorb(m, i->k == K_LABEL || i->k == K_ALABEL ? m->e.lab[i->x] : NULL, m->e.nj > nj ? m->e.jmp[nj].j : NULL, i, nj, pc);
}
/* binds some of the jumps whose label is known; how depends on the case only */
static void m_bind(mctx *m, int all, u64 salt)
{
	int k; u64 x;
	for (k = 0; k < m->nj; k++) if (!m->bound[k] && m->j[k].kind == 0 && m->e.lab[m->j[k].label]) {
		x = salt * 1000003u + (u64)k; x = splitmix(&x);
		if (all || x % 3 == 0) { sljit_set_label(m->j[k].j, m->e.lab[m->j[k].label]); m->bound[k] = 1; }
	}
}
/* walks the lists of the compiler and compares them with what was created */
static int m_lists(mctx *m, const char *when)
{
	struct sljit_label *l; struct sljit_jump *j; struct sljit_const *c; int n;
	for (n = 0, l = sljit_get_first_label(m->c); l; l = sljit_get_next_label(l), n++) {
		if (n >= m->nlab) FAIL("%s: more labels than created", when);
		if (l != m->labs[n]) FAIL("%s: label %d is not the %d. created one", when, n, n);
		if (sljit_get_label_index(l) != (uw)n) FAIL("%s: label %d has index %llu", when, n, (unsigned long long)sljit_get_label_index(l));
	}
	if (n != m->nlab) FAIL("%s: %d labels, %d were created", when, n, m->nlab);
	for (n = 0, j = sljit_get_first_jump(m->c); j; j = sljit_get_next_jump(j), n++) {
		if (n >= m->nj) FAIL("%s: more jumps than created", when);
		if (j != m->j[n].j) FAIL("%s: jump %d is not the %d. created one", when, n, n);
		if (!!sljit_jump_is_mov_addr(j) != m->j[n].addr) FAIL("%s: jump %d: is_mov_addr %d", when, n, sljit_jump_is_mov_addr(j));
		if (!m->bound[n]) { if (sljit_jump_has_label(j) || sljit_jump_has_target(j)) FAIL("%s: jump %d has a target before it was set", when, n); continue; }
		if (m->j[n].kind != 1) {
			if (!sljit_jump_has_label(j) || sljit_jump_has_target(j)) FAIL("%s: jump %d: has_label %d has_target %d", when, n, sljit_jump_has_label(j), sljit_jump_has_target(j));
			if (sljit_jump_get_label(j) != (m->j[n].kind ? m->labs[m->j[n].label] : m->e.lab[m->j[n].label])) FAIL("%s: jump %d: wrong label", when, n);
		} else {
			if (sljit_jump_has_label(j) || !sljit_jump_has_target(j)) FAIL("%s: jump %d: has_label %d has_target %d", when, n, sljit_jump_has_label(j), sljit_jump_has_target(j));
			if (sljit_jump_get_target(j) != m->j[n].target) FAIL("%s: jump %d: wrong target", when, n);
		}
	}
	if (n != m->nj) FAIL("%s: %d jumps, %d were created", when, n, m->nj);
	for (n = 0, c = sljit_get_first_const(m->c); c; c = sljit_get_next_const(c), n++) {
		if (n >= m->nk) FAIL("%s: more constants than created", when);
		if (c != m->k[n].c) FAIL("%s: constant %d is not the %d. created one", when, n, n);
	}
	if (n != m->nk) FAIL("%s: %d constants, %d were created", when, n, m->nk);
	return RC_OK;
}
/* after a deserialization: the objects of the new compiler take the places of the old ones */
static int m_remap(mctx *m, struct sljit_compiler *c2)
{
	struct sljit_label *l; struct sljit_jump *j; struct sljit_const *c; int n, k;
	m->c = c2;
	for (n = 0, l = sljit_get_first_label(c2); l; l = sljit_get_next_label(l), n++) { if (n >= m->nlab) FAIL("deserialized compiler has more than %d labels", m->nlab); m->labs[n] = l; }
	if (n != m->nlab) FAIL("deserialized compiler has %d labels instead of %d", n, m->nlab);
	for (k = 0; k < MAXL; k++) if (m->e.lab[k]) m->e.lab[k] = m->labs[m->labidx[k]];
	for (n = 0, j = sljit_get_first_jump(c2); j; j = sljit_get_next_jump(j), n++) { if (n >= m->nj) FAIL("deserialized compiler has more than %d jumps", m->nj); m->j[n].j = j; if (m->j[n].kind == 0) m->e.jmp[m->j[n].ejmp].j = j; }
	if (n != m->nj) FAIL("deserialized compiler has %d jumps instead of %d", n, m->nj);
	for (n = 0, c = sljit_get_first_const(c2); c; c = sljit_get_next_const(c), n++) { if (n >= m->nk) FAIL("deserialized compiler has more than %d constants", m->nk); m->k[n].c = c; }
	if (n != m->nk) FAIL("deserialized compiler has %d constants instead of %d", n, m->nk);
	return m_lists(m, "after deserialization");
}
static void m_alloc(mctx *m, int n)
{
	static const int bad[] = { 0, -1, -1000, (int)(16 * WBYTES + 1), 1000, 0x7fffffff, (int)0x80000000 };
	while (n-- > 0) {
		int size = mrp(30) ? 16 * WBYTES - (int)mrn(4) : 1 + (int)mrn(16 * WBYTES), k; u8 *p;
		if (mrp(5)) { s32 e = sljit_get_compiler_error(m->c); if (sljit_alloc_memory(m->c, bad[mrn(7)]) != NULL) { if (!h_err) h_err = "sljit_alloc_memory accepts a bad size"; } if (sljit_get_compiler_error(m->c) != e && !h_err) h_err = "sljit_alloc_memory sets an error for a bad size"; continue; }
		p = (u8*)sljit_alloc_memory(m->c, size);
		if (!p) { if (!sljit_get_compiler_error(m->c) && !h_err) h_err = "sljit_alloc_memory failed"; continue; }
		if (((uw)p & (sizeof(sljit_sw) - 1)) && !h_err) h_err = "sljit_alloc_memory result is not aligned";
		if (m->nam >= 600) continue;
		m->am[m->nam].p = p; m->am[m->nam].size = size; m->am[m->nam].pat = (u8)(m->nam * 37 + 11);
		for (k = 0; k < size; k++) p[k] = (u8)(m->am[m->nam].pat + k * 3);
		m->nam++;
	}
}
static int m_alloc_check(mctx *m, const char *when)
{
	int n, k;
	for (n = 0; n < m->nam; n++) for (k = 0; k < m->am[n].size; k++) if (m->am[n].p[k] != (u8)(m->am[n].pat + k * 3)) FAIL("%s: attached block %d of %d (size %d) changed at byte %d", when, n, m->nam, m->am[n].size, k);
	return RC_OK;
}

static int m_tail;
#define NPOS(p) ((p)->n + 3)
/* emits step pos: 0 function entry, 1..n instructions, n+1 end, n+2 binding of the jumps */
static s32 m_step(mctx *m, const prog *p, const vst *fs, int pos, u64 salt, int early)
{
	s32 r;
	if (pos == 0) { if ((r = emit_prologue(m->c, p)) != 0) return r; return m_absorb(m, NULL, NULL, NULL, -1, -1); }
	if (pos <= p->n) { if ((r = m_emit(m, p, pos - 1)) != 0) return r; if (early) m_bind(m, 0, salt + (u64)pos); return 0; }
	if (pos == p->n + 1) {
		if ((r = emit_epilogue(m->c, p, fs)) != 0) return r;
		if (m_tail) { /* a label at the end of the code */
			if (!(m_tail > 1 ? sljit_emit_aligned_label(m->c, m_tail - 1, NULL) : sljit_emit_label(m->c))) return sljit_get_compiler_error(m->c) ? sljit_get_compiler_error(m->c) : 77;
		}
		return m_absorb(m, NULL, NULL, NULL, -1, -1);
	}
	m_bind(m, 1, 0);
	return 0;
}
static s32 m_all(mctx *m, const prog *p, const vst *fs) { int k; s32 r; for (k = 0; k < NPOS(p); k++) if ((r = m_step(m, p, fs, k, 0, 0)) != 0) { m->e.at = k; return r; } return 0; }
static int m_start(mctx *m, void *data) { struct sljit_compiler *c; m->nlab = m->nj = m->nk = m->nam = m->nullarg = 0; memset(&m->e, 0, sizeof(m->e)); h_data = data; c = sljit_create_compiler(data); m->c = c; return c ? 0 : -1; }

static void *m_gen_at(mctx *m, u8 *buf, uw size, sw off, s32 opt) { struct sljit_generate_code_buffer b; b.buffer = buf; b.size = size; b.executable_offset = off; return sljit_generate_code(m->c, opt | SLJIT_GENERATE_CODE_BUFFER, &b); }
#define CODEPTR(x) ((u8*)((uw)(x) & ~(uw)1))

/* everything observable about generated code; used to compare two compilations */
typedef struct { uw size; u8 *bytes; void *code; int nlab, nj, nk; uw lab[MAXO], j[MAXO], k[MAXI]; } image;
static image *im_new(void) { image *i = (image*)calloc(1, sizeof(image)); i->bytes = (u8*)malloc(CB_SIZE); return i; }
static void im_take(image *im, mctx *m, void *code)
{
	int n;
	im->code = code; im->size = sljit_get_generated_code_size(m->c);
	if (im->size > CB_SIZE) im->size = CB_SIZE;
	memcpy(im->bytes, CODEPTR(code), im->size);
	im->nlab = m->nlab; im->nj = m->nj; im->nk = m->nk;
	for (n = 0; n < m->nlab; n++) im->lab[n] = sljit_get_label_addr(m->labs[n]);
	for (n = 0; n < m->nj; n++) im->j[n] = sljit_get_jump_addr(m->j[n].j);
	for (n = 0; n < m->nk; n++) im->k[n] = sljit_get_const_addr(m->k[n].c);
}
static int im_cmp(const image *a, const image *b, const char *what)
{
	uw k; int n;
	if (a->code != b->code) FAIL("%s: code address differs", what);
	if (a->size != b->size) FAIL("%s: code size %llu instead of %llu", what, (unsigned long long)b->size, (unsigned long long)a->size);
	for (k = 0; k < a->size; k++) if (a->bytes[k] != b->bytes[k]) FAIL("%s: code byte %llu of %llu is %02x instead of %02x", what, (unsigned long long)k, (unsigned long long)a->size, b->bytes[k], a->bytes[k]);
	if (a->nlab != b->nlab || a->nj != b->nj || a->nk != b->nk) FAIL("%s: object counts differ", what);
	for (n = 0; n < a->nlab; n++) if (a->lab[n] != b->lab[n]) FAIL("%s: address of label %d differs", what, n);
	for (n = 0; n < a->nj; n++) if (a->j[n] != b->j[n]) FAIL("%s: address of jump %d differs", what, n);
	for (n = 0; n < a->nk; n++) if (a->k[n] != b->k[n]) FAIL("%s: address of constant %d differs", what, n);
	return RC_OK;
}
static int m_end(void)
{
	if (h_err) { snprintf(failmsg, sizeof(failmsg), "memory: %s", h_err); h_err = NULL; return RC_FAIL; }
	if (x_n) { snprintf(failmsg, sizeof(failmsg), "memory: %d executable blocks were not freed", x_n); x_n = 0; return RC_FAIL; }
	if (h_live != 0) { snprintf(failmsg, sizeof(failmsg), "memory: %ld blocks were not freed", h_live); h_live = 0; return RC_FAIL; }
	return RC_OK;
}
static int execute(const prog *p, const vst *s0, const vst *s1, void *code, const uw *labs)
{
	load_state(p, s0);
	pg->phase = 3;
	if (!(CODEPTR(code) >= cb && CODEPTR(code) < cb + CB_SIZE) && !(br && CODEPTR(code) >= br && CODEPTR(code) < br + br_size)) exec_flush(code);
	((vfunc)code)();
	pg->phase = 4;
	return compare_state(p, s1, labs) ? RC_FAIL : RC_OK;
}
static void m_label_addrs(const prog *p, mctx *m) { label_addresses(p, &m->e); }

static image *IA, *IB; static mctx *MA, *MB, *MC;
/* reference compilation into the fixed buffer */
static int reference(const prog *p)
{
	void *code; s32 r;
	if (m_start(MA, NULL)) FAIL("compiler creation failed");
	r = m_all(MA, p, VS1);
	if (r == -100) { sljit_free_compiler(MA->c); return RC_INVALID; }
	if (r) FAIL("emission error %d at step %d", r, MA->e.at);
	{ uw fill = MA->c->size * 16 + 65536; memset(cb, 0xa5, fill > CB_SIZE ? CB_SIZE : fill); }
	code = m_gen_at(MA, cb, CB_SIZE, 0, 0);
	if (!code) FAIL("code generation error %d", sljit_get_compiler_error(MA->c));
	im_take(IA, MA, code);
	m_label_addrs(p, MA);
	sljit_free_compiler(MA->c);
	return m_end();
}

/* ---------- serialization (C08) ---------- */
static u8 *gp; /* guard page region: GP_SIZE bytes, then an inaccessible page */
#define GP_SIZE 0x40000
static void gp_init(void)
{
	gp = (u8*)mmap(NULL, GP_SIZE + 0x10000, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (gp == MAP_FAILED || mprotect(gp, GP_SIZE, PROT_READ | PROT_WRITE)) { fprintf(stderr, "INFRA: guard page\n"); exit(99); }
}
static int bad_buffers(const sljit_uw *buf, uw size)
{
	int t; u32 x; struct sljit_compiler *c; u8 *q;
	if (size + 256 > GP_SIZE) return RC_OK;
	for (t = 0; t < 6; t++) {
		uw s = mrp(30) ? (uw)mrn(200) : mrp(50) && size > 400 ? size - 1 - mrn(300) : (uw)mrn((u32)size);
		if (mrp(60)) s &= ~(uw)(WBYTES - 1);
		if (s >= size) continue;
		q = gp + GP_SIZE - ((s + WBYTES - 1) & ~(uw)(WBYTES - 1));
		memcpy(q, buf, s);
		pg->phase = 5;
		c = sljit_deserialize_compiler((sljit_uw*)q, s, 0, h_data);
		pg->phase = 6;
		pg->extra[41]++;
		if (c) { sljit_free_compiler(c); FAIL("a buffer truncated to %llu of %llu bytes is accepted", (unsigned long long)s, (unsigned long long)size); }
	}
	q = gp + GP_SIZE - size;
	memcpy(q, buf, size);
	memcpy(&x, q, 4); x ^= 1u << mrn(32); memcpy(q, &x, 4);
	if ((c = sljit_deserialize_compiler((sljit_uw*)q, size, 0, h_data)) != NULL) { sljit_free_compiler(c); FAIL("a buffer with a wrong signature is accepted"); }
	memcpy(q, buf, 4); q[4 + mrn(2)] ^= (u8)(1 << mrn(8));
	if ((c = sljit_deserialize_compiler((sljit_uw*)q, size, 0, h_data)) != NULL) { sljit_free_compiler(c); FAIL("a buffer with a wrong version is accepted"); }
	return RC_OK;
}
static int run_ser(const prog *p)
{
	int r, k, n, at[6], nat, pos, live, rc, checkbad; u64 salt; void *data; mctx *M[4]; void *code; s32 e;
	if ((r = reference(p)) != RC_OK) return r;
	if ((r = execute(p, VS0, VS1, IA->code, lab_addrs)) != RC_OK) return r;
	data = mrp(50) ? (void*)&h_junk : NULL; salt = mrn(0x7fffffff);
	nat = 1 + (int)mrn(3);
	for (k = 0; k < nat; k++) at[k] = (int)mrn((u32)NPOS(p) + 1);
	checkbad = mrp(40);
	M[0] = MA; M[1] = MB; M[2] = MC; live = 1;
	if (m_start(MA, data)) FAIL("compiler creation failed");
	for (pos = 0; pos <= NPOS(p); pos++) {
		for (k = 0; k < nat; k++) if (at[k] == pos) {
			sljit_uw *buf; uw size = 12345; struct sljit_compiler *c2; mctx *src = M[mrn((u32)live)], *dst;
			buf = sljit_serialize_compiler(src->c, 0, mrp(95) ? &size : NULL);
			if (!buf) FAIL("serialization at step %d failed, error %d", pos, sljit_get_compiler_error(src->c));
			if (size == 12345) { sljit_uw s2; vt_free(buf, data); buf = sljit_serialize_compiler(src->c, 0, &s2); if (!buf) FAIL("second serialization at step %d failed", pos); size = s2; }
			if (size & (WBYTES - 1)) FAIL("serialized size %llu is not a multiple of the word size", (unsigned long long)size);
			if ((r = m_lists(src, "after serialization")) != RC_OK) return r;
			pg->extra[40]++;
			if (checkbad && (r = bad_buffers(buf, size)) != RC_OK) return r;
			if (mrp(15)) { /* buffers without debug information are refused by a build with argument checks */
				uw s2; sljit_uw *b2 = sljit_serialize_compiler(src->c, SLJIT_SERIALIZE_IGNORE_DEBUG, &s2);
				if (!b2) FAIL("serialization without debug information failed");
				c2 = sljit_deserialize_compiler(b2, s2, 0, data);
#if (defined SLJIT_ARGUMENT_CHECKS && SLJIT_ARGUMENT_CHECKS)
				if (c2) FAIL("a buffer without debug information is accepted");
#else
				if (!c2) FAIL("a buffer without debug information is refused");
#endif
				if (c2) sljit_free_compiler(c2);
				vt_free(b2, data);
			}
			if (size <= GP_SIZE) memcpy(gp + GP_SIZE - size, buf, size);
			c2 = sljit_deserialize_compiler(size <= GP_SIZE ? (sljit_uw*)(gp + GP_SIZE - size) : buf, size, 0, data);
			if (!c2) FAIL("deserialization at step %d failed", pos);
			vt_free(buf, data);
			if (live < 3 && mrp(60)) { dst = M[live++]; *dst = *src; } else { sljit_free_compiler(src->c); dst = src; } /* continue both or only the new one */
			dst->c = c2;
			if ((r = m_remap(dst, c2)) != RC_OK) return r;
		}
		if (pos < NPOS(p)) for (n = 0; n < live; n++) {
			e = m_step(M[n], p, VS1, pos, salt, 1);
			if (e) FAIL("emission error %d at step %d of compiler %d (serialized at %d)", e, pos, n, at[0]);
		}
	}
	rc = RC_OK;
	for (n = 0; n < live; n++) {
		memset(cb, 0xa5, IA->size + 64);
		code = m_gen_at(M[n], cb, CB_SIZE, 0, 0);
		if (!code) FAIL("code generation error %d of compiler %d", sljit_get_compiler_error(M[n]->c), n);
		im_take(IB, M[n], code);
		if ((rc = im_cmp(IA, IB, n ? "deserialized compiler" : "first compiler")) != RC_OK) break;
	}
	if (rc == RC_OK) { m_label_addrs(p, M[live - 1]); rc = execute(p, VS0, VS1, IB->code, lab_addrs); }
	for (n = 0; n < live; n++) sljit_free_compiler(M[n]->c);
	if (rc != RC_OK) return rc;
	return m_end();
}

/* ---------- attached memory and lists (C19) ---------- */
static int run_lists(const prog *p)
{
	int r, pos, n; s32 e; void *data, *code; u64 salt; int dens = 1 + (int)mrn(60);
	data = mrp(50) ? (void*)&h_junk : NULL; salt = mrn(0x7fffffff);
	if (m_start(MA, data)) FAIL("compiler creation failed");
	if (sljit_compiler_get_allocator_data(MA->c) != data) FAIL("allocator data differs");
	if (sljit_compiler_get_user_data(MA->c) != NULL) FAIL("user data is not null at the start");
	sljit_compiler_set_user_data(MA->c, &dens);
	for (pos = 0; pos < NPOS(p); pos++) {
		if (mrp(dens)) m_alloc(MA, 1 + (int)mrn(mrp(10) ? 40 : 4));
		e = m_step(MA, p, VS1, pos, salt, 1);
		if (e == -100) { sljit_free_compiler(MA->c); return RC_INVALID; }
		if (e) FAIL("emission error %d at step %d", e, pos);
		if (mrp(8) && (r = m_lists(MA, "during emission")) != RC_OK) return r;
	}
	if ((r = m_lists(MA, "before code generation")) != RC_OK || (r = m_alloc_check(MA, "before code generation")) != RC_OK) return r;
	pg->extra[44] += (u64)MA->nam; pg->extra[45] += (u64)(MA->nlab + MA->nj + MA->nk);
	code = mrp(50) && !IS_WX ? m_gen_at(MA, cb, CB_SIZE, 0, 0) : sljit_generate_code(MA->c, 0, NULL);
	if (!code) FAIL("code generation error %d", sljit_get_compiler_error(MA->c));
	if ((r = m_alloc_check(MA, "after code generation")) != RC_OK) return r;
	if (sljit_compiler_get_user_data(MA->c) != &dens || sljit_compiler_get_allocator_data(MA->c) != data) FAIL("user or allocator data changed");
	{ /* the lists keep their order, addresses lie inside of the code, labels in creation order do not decrease */
		struct sljit_label *l; struct sljit_jump *j; struct sljit_const *c; uw lo = (uw)CODEPTR(code), hi = lo + sljit_get_generated_code_size(MA->c), prev = 0;
		for (n = 0, l = sljit_get_first_label(MA->c); l; l = sljit_get_next_label(l), n++) {
			if (n >= MA->nlab || l != MA->labs[n]) FAIL("label %d differs after code generation", n);
			if (sljit_get_label_abs_addr(l) < lo || sljit_get_label_abs_addr(l) > hi) FAIL("label %d is outside of the code", n);
			if (sljit_get_label_addr(l) < prev) FAIL("label %d is in front of the previous one", n);
			prev = sljit_get_label_addr(l);
		}
		if (n != MA->nlab) FAIL("%d labels after code generation", n);
		for (n = 0, j = sljit_get_first_jump(MA->c); j; j = sljit_get_next_jump(j), n++) { if (n >= MA->nj || j != MA->j[n].j) FAIL("jump %d differs after code generation", n); }
		if (n != MA->nj) FAIL("%d jumps after code generation", n);
		for (n = 0, c = sljit_get_first_const(MA->c); c; c = sljit_get_next_const(c), n++) {
			if (n >= MA->nk || c != MA->k[n].c) FAIL("constant %d differs after code generation", n);
			if (sljit_get_const_addr(c) + (uw)sljit_get_executable_offset(MA->c) < lo || sljit_get_const_addr(c) + (uw)sljit_get_executable_offset(MA->c) > hi) FAIL("constant %d is outside of the code", n);
		}
		if (n != MA->nk) FAIL("%d constants after code generation", n);
	}
	if (sljit_get_compiler_error(MA->c) != SLJIT_ERR_COMPILED) FAIL("error code is %d after code generation", sljit_get_compiler_error(MA->c));
	m_label_addrs(p, MA);
	r = execute(p, VS0, VS1, code, lab_addrs);
	if (r == RC_OK) r = m_alloc_check(MA, "after execution");
	sljit_free_compiler(MA->c);
	if (CODEPTR(code) != cb) sljit_free_code(code, NULL);
	return r != RC_OK ? r : m_end();
}

/* ---------- allocation failures (C10) ---------- */
static void count_objects(struct sljit_compiler *c, int *a, int *b, int *d)
{
	struct sljit_label *l; struct sljit_jump *j; struct sljit_const *k;
	*a = *b = *d = 0;
	for (l = sljit_get_first_label(c); l; l = sljit_get_next_label(l)) ++*a;
	for (j = sljit_get_first_jump(c); j; j = sljit_get_next_jump(j)) ++*b;
	for (k = sljit_get_first_const(c); k; k = sljit_get_next_const(k)) ++*d;
}
static int oom_script(const prog *p, long fail, u64 seed, long *total)
{
	int r = RC_OK, pos, serat, doser, inbuf, nl = 0, nj = 0, nk = 0, afterlists = 0; s32 e, err = 0, want; void *code = NULL, *data; sljit_uw *buf; uw size; struct sljit_compiler *c2; mctx *m = MA;
	u64 keep = ms_;
	ms_ = seed;
	data = mrp(50) ? (void*)&h_junk : NULL; doser = mrp(30); serat = (int)mrn((u32)NPOS(p)); inbuf = !IS_WX && mrp(30);
	h_no = 0; h_fail = fail; h_failed = 0; h_execfail = 0;
	if (m_start(m, data)) {
		if (!h_failed) { r = RC_FAIL; snprintf(failmsg, sizeof(failmsg), "compiler creation failed without a reason"); }
		goto out;
	}
	m->nullarg = 1;
	if (h_failed) { r = RC_FAIL; snprintf(failmsg, sizeof(failmsg), "compiler creation ignores a failed allocation"); sljit_free_compiler(m->c); goto out; }
	for (pos = 0; pos < NPOS(p) && r == RC_OK; pos++) {
		if (mrp(15)) {
			int n = 1 + (int)mrn(3);
			m_alloc(m, n);
			if (h_failed && !err) { err = sljit_get_compiler_error(m->c); if (!err) { r = RC_FAIL; snprintf(failmsg, sizeof(failmsg), "a failed sljit_alloc_memory leaves no error"); break; } }
		}
		if (doser && pos == serat) {
			size = 1;
			buf = sljit_serialize_compiler(m->c, 0, &size);
			if (err) { if (buf) { r = RC_FAIL; snprintf(failmsg, sizeof(failmsg), "serialization works after an error"); break; } }
			else if (h_failed) { if (buf || size) { r = RC_FAIL; snprintf(failmsg, sizeof(failmsg), "serialization ignores a failed allocation (%p, size %d)", (void*)buf, (int)size); break; } err = sljit_get_compiler_error(m->c); }
			else if (!buf) { r = RC_FAIL; snprintf(failmsg, sizeof(failmsg), "serialization failed without a reason"); break; }
			if (buf) {
				c2 = sljit_deserialize_compiler(buf, size, 0, data);
				if (h_failed) { if (c2) { r = RC_FAIL; snprintf(failmsg, sizeof(failmsg), "deserialization ignores a failed allocation"); sljit_free_compiler(c2); } }
				else if (!c2) { r = RC_FAIL; snprintf(failmsg, sizeof(failmsg), "deserialization failed without a reason"); }
				else sljit_free_compiler(c2);
				vt_free(buf, data);
				if (r != RC_OK) break;
				if (h_failed) { h_failed = 0; h_fail = -1; } /* only the new compiler is lost */
			}
		}
		if (err && !afterlists) { afterlists = 1; count_objects(m->c, &nl, &nj, &nk); }
		e = m_step(m, p, VS1, pos, 0, 0);
		if (err) {
			if (pos != p->n + 2 && e != err && !(pos >= 1 && pos <= p->n && is_noop(&p->i[pos - 1]))) { r = RC_FAIL; snprintf(failmsg, sizeof(failmsg), "step %d returns %d, the error is %d", pos, e, err); }
		} else if (h_failed) {
			err = sljit_get_compiler_error(m->c);
			if (!e || err != SLJIT_ERR_ALLOC_FAILED || e != err) { r = RC_FAIL; snprintf(failmsg, sizeof(failmsg), "allocation %ld failed during step %d (%s %x): returned %d, error %d", fail, pos, pos && pos <= p->n ? kname[p->i[pos - 1].k] : "function start or end", pos && pos <= p->n ? p->i[pos - 1].op : 0, e, err); }
		} else if (e) { r = RC_FAIL; snprintf(failmsg, sizeof(failmsg), "emission error %d at step %d", e, pos); }
		if (err && sljit_get_compiler_error(m->c) != err) { r = RC_FAIL; snprintf(failmsg, sizeof(failmsg), "the error changed from %d to %d", err, sljit_get_compiler_error(m->c)); }
	}
	if (r == RC_OK && afterlists) {
		int a, b, d;
		count_objects(m->c, &a, &b, &d);
		if (a != nl || b != nj || d != nk) { r = RC_FAIL; snprintf(failmsg, sizeof(failmsg), "objects were created after the error"); }
	}
	if (r == RC_OK) {
		int hf = h_failed;
		code = inbuf ? m_gen_at(m, cb, CB_SIZE, 0, 0) : sljit_generate_code(m->c, 0, NULL);
		if (err) {
			if (code) { r = RC_FAIL; snprintf(failmsg, sizeof(failmsg), "code is generated after error %d", err); }
			else if (sljit_get_compiler_error(m->c) != err) { r = RC_FAIL; snprintf(failmsg, sizeof(failmsg), "the error changed from %d to %d during code generation", err, sljit_get_compiler_error(m->c)); }
		} else if (h_failed && !hf) {
			want = h_execfail ? SLJIT_ERR_EX_ALLOC_FAILED : SLJIT_ERR_ALLOC_FAILED;
			if (code || sljit_get_compiler_error(m->c) != want) { r = RC_FAIL; snprintf(failmsg, sizeof(failmsg), "allocation %ld failed during code generation: result %p, error %d", fail, code, sljit_get_compiler_error(m->c)); }
			else {
				e = sljit_emit_op0(m->c, SLJIT_NOP);
				if (e != want || sljit_generate_code(m->c, 0, NULL) || sljit_get_compiler_error(m->c) != want) { r = RC_FAIL; snprintf(failmsg, sizeof(failmsg), "the error of code generation is lost"); }
			}
		} else if (!code) { r = RC_FAIL; snprintf(failmsg, sizeof(failmsg), "code generation error %d", sljit_get_compiler_error(m->c)); }
	}
	if (r == RC_OK) r = m_alloc_check(m, "attached memory");
	if (r == RC_OK && fail < 0 && code) { m_label_addrs(p, m); r = execute(p, VS0, VS1, code, lab_addrs); }
	sljit_free_compiler(m->c);
	if (code && !inbuf) sljit_free_code(code, NULL);
out:
	*total = h_no;
	h_fail = -1; h_failed = 0; h_execfail = 0; ms_ = keep;
	if (r == RC_OK) r = m_end();
	h_live = 0;
	return r;
}
static int run_oom(const prog *p)
{
	long n, total, t2, k; int r; u64 seed = splitmix(&ms_);
	if ((r = oom_script(p, -1, seed, &total)) != RC_OK) return r;
	if (pg->extra[47] < (u64)total) pg->extra[47] = (u64)total;
	for (k = 0; k < 24; k++) {
		n = total <= 24 ? k : k < 4 ? k : k > 18 ? total - 1 - (k - 19) : (long)mrn((u32)total);
		if (n >= total) break;
		pg->extra[46]++;
		if ((r = oom_script(p, n, seed, &t2)) != RC_OK) { char s[400]; snprintf(s, sizeof(s), "%s", failmsg); snprintf(failmsg, sizeof(failmsg), "%s (failed allocation %ld of %ld)", s, n, total); return r; }
	}
	return oom_script(p, -1, seed, &total);
}

/* ---------- code buffers (C18) ---------- */
/* dual mapping of one file: rw and rx view */
static int df = -1; static u8 *drw, *drx;
#define DF_SIZE 0x40000
static void dual_map(uw want)
{
	if (df < 0) {
		char name[] = "/tmp/vtdualXXXXXX";
		df = mkstemp(name);
		if (df < 0 || ftruncate(df, DF_SIZE)) { fprintf(stderr, "INFRA: dual mapping\n"); exit(99); }
		unlink(name);
		drw = (u8*)mmap(NULL, DF_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED, df, 0);
		if (drw == MAP_FAILED) { fprintf(stderr, "INFRA: dual mapping\n"); exit(99); }
	}
	if (drx) munmap(drx, DF_SIZE);
	drx = (u8*)mmap((void*)want, DF_SIZE, PROT_READ | PROT_EXEC, MAP_SHARED, df, 0);
	if (drx == MAP_FAILED) drx = (u8*)mmap(NULL, DF_SIZE, PROT_READ | PROT_EXEC, MAP_SHARED, df, 0);
	if (drx == MAP_FAILED) { fprintf(stderr, "INFRA: dual mapping (exec)\n"); exit(99); }
}
/* the rx view of what was just written: emulators cache translations by address, a new mapping drops them */
static void dual_flush(void) { uw a = (uw)drx; void *q = mmap((void*)a, DF_SIZE, PROT_READ | PROT_EXEC, MAP_SHARED | MAP_FIXED, df, 0); if (q != (void*)a) { fprintf(stderr, "INFRA: dual remap\n"); exit(99); } }


static int addr_in(uw a, uw lo, uw hi) { return a >= lo && a <= hi; }
/* constants and jumps have addresses in the writable view of the code */
static int check_addrs(mctx *m, const prog *p, void *code, uw gs, const char *what)
{
	uw lo = (uw)CODEPTR(code), hi = lo + gs; int n;
	for (n = 0; n < m->nlab; n++) if (!addr_in(sljit_get_label_abs_addr(m->labs[n]), lo, hi)) FAIL("%s: label %d is outside of the code", what, n);
	lo -= (uw)sljit_get_executable_offset(m->c); hi -= (uw)sljit_get_executable_offset(m->c);
	for (n = 0; n < m->nk; n++) if (!addr_in(sljit_get_const_addr(m->k[n].c), lo, hi)) FAIL("%s: constant %d is outside of the code", what, n);
	for (n = 0; n < m->nj; n++) {
		const ins *i;
		if (m->j[n].pc < 0) continue;
		i = &p->i[m->j[n].pc];
		if (!(i->op & SLJIT_REWRITABLE_JUMP) && !(i->k == K_ICALL && i->o[1] == 2)) continue;
		if (!addr_in(sljit_get_jump_addr(m->j[n].j), lo, hi)) FAIL("%s: jump %d is outside of the code", what, n);
	}
	return RC_OK;
}

static int run_buf(const prog *p)
{
	int r, t, opt; uw g, s, al, lo; void *code; s32 e; u8 *b; uw k, seen;
	if ((r = reference(p)) != RC_OK) return r;
	if ((r = execute(p, VS0, VS1, IA->code, lab_addrs)) != RC_OK) return r;
	g = IA->size;
	for (t = 0; t < 5; t++) {
		static const int aligns[] = { 16, 16, 32, 64, 256, 4096 };
		opt = mrp(30) ? SLJIT_GENERATE_CODE_NO_CONTEXT : 0;
#if (defined SLJIT_INDIRECT_CALL && SLJIT_INDIRECT_CALL)
		opt = 0;
#endif
		al = (uw)aligns[mrn(6)];
		switch (mrn(8)) {
		case 0: s = g + mrn(40); break;
		case 1: s = g > 40 ? g - mrn(40) : 0; break;
		case 2: s = mrn((u32)g + 1); break;
		case 3: s = 0; break;
		case 4: s = g + mrn((u32)g + 64); break;
		case 5: s = g * 2 + mrn((u32)g * 4 + 64); break;
		default: s = br_size / 2 + mrn(1000); break;
		}
		if (s > br_size / 2 + 1000) s = br_size / 2 + 1000;
		if (m_start(MA, NULL)) FAIL("compiler creation failed");
		if ((e = m_all(MA, p, VS1)) != 0) FAIL("emission error %d at step %d", e, MA->e.at);
		if (!HAVE_DUAL || mrp(50)) { /* writable and executable buffer, end at the inaccessible page */
			lo = ((uw)br + br_size - s) & ~(al - 1); b = (u8*)lo;
			k = lo - (uw)br > 128 ? 128 : lo - (uw)br;
			memset(b - k, 0x5b, k); memset(b + s, 0x5b, (uw)(br + br_size) - (lo + s));
			code = m_gen_at(MA, b, s, 0, opt);
			pg->extra[42]++;
			for (seen = 0; seen < k; seen++) if (b[-(s64)seen - 1] != 0x5b) { sljit_free_compiler(MA->c); FAIL("write in front of a buffer of %llu bytes", (unsigned long long)s); }
			for (seen = lo + s; seen < (uw)(br + br_size); seen++) if (*(u8*)seen != 0x5b) { sljit_free_compiler(MA->c); FAIL("write behind a buffer of %llu bytes", (unsigned long long)s); }
			if (code && CODEPTR(code) != b) FAIL("the code is not at the start of the buffer");
		} else { /* two views of the buffer */
			uw off; if (s > DF_SIZE / 2) s = DF_SIZE / 2;
			dual_map(mrp(50) ? 0 : W64 ? (uw)0x10000000000ull + ((uw)mrn(1000) << 20) : (uw)0x28000000 + ((uw)mrn(1000) << 16));
			off = (uw)mrn((u32)(DF_SIZE - s)) & ~(al - 1);
			b = drw + off;
			memset(drw, 0x5b, DF_SIZE);
			code = m_gen_at(MA, b, s, (sw)((uw)drx - (uw)drw), opt);
			pg->extra[43]++;
			for (k = 0; k < DF_SIZE; k++) if ((k < off || k >= off + s) && drw[k] != 0x5b) { sljit_free_compiler(MA->c); FAIL("write outside of a buffer of %llu bytes", (unsigned long long)s); }
			if (code && CODEPTR(code) != drx + off) FAIL("the code is not at the executable address of the buffer");
			if (code && sljit_get_executable_offset(MA->c) != (sw)((uw)drx - (uw)drw)) FAIL("executable offset differs");
			dual_flush();
		}
		if (!code) {
			if (sljit_get_compiler_error(MA->c) != SLJIT_ERR_EX_ALLOC_FAILED) { int er = sljit_get_compiler_error(MA->c); sljit_free_compiler(MA->c); FAIL("a buffer of %llu bytes: error %d", (unsigned long long)s, er); }
			sljit_free_compiler(MA->c);
			if (s >= g * 8 + 4096) FAIL("a buffer of %llu bytes is refused, the code needs %llu", (unsigned long long)s, (unsigned long long)g);
			continue;
		}
		if (sljit_get_generated_code_size(MA->c) > s) FAIL("code size %llu is bigger than the buffer (%llu)", (unsigned long long)sljit_get_generated_code_size(MA->c), (unsigned long long)s);
		if ((r = check_addrs(MA, p, code, sljit_get_generated_code_size(MA->c), "caller buffer")) != RC_OK) return r;
		m_label_addrs(p, MA);
		sljit_free_compiler(MA->c);
		if ((r = execute(p, VS0, VS1, code, lab_addrs)) != RC_OK) { char m[400]; snprintf(m, sizeof(m), "%s", failmsg); FAIL("%s (buffer %p, size %llu, code %p)", m, (void*)b, (unsigned long long)s, code); }
	}
	{ /* built-in allocator */
		if (m_start(MA, NULL)) FAIL("compiler creation failed");
		if ((e = m_all(MA, p, VS1)) != 0) FAIL("emission error %d at step %d", e, MA->e.at);
		code = sljit_generate_code(MA->c, 0, NULL);
		if (!code) FAIL("code generation error %d", sljit_get_compiler_error(MA->c));
		if ((r = check_addrs(MA, p, code, sljit_get_generated_code_size(MA->c), "allocator")) != RC_OK) return r;
		m_label_addrs(p, MA);
		sljit_free_compiler(MA->c);
		r = execute(p, VS0, VS1, code, lab_addrs);
		sljit_free_code(code, NULL);
		if (r != RC_OK) return r;
	}
	return m_end();
}

/* ---------- determinism (C16) ---------- */
#ifdef VT_ALT
#include "altapi.h"
static void *shared_hlp(int n) { switch (n) { case 0: return (void*)hlp0; case 1: return (void*)hlp1; case 2: return (void*)hlp2; case 3: return (void*)hlp3; default: return (void*)hlp4; } }
static int stdout_fd = -1;
/* The code for x86 embeds addresses of static data of the library, and every build has its own: a word is allowed to differ if it is the address of data
   of this program in both codes. */
#if (defined SLJIT_CONFIG_X86 && SLJIT_CONFIG_X86)
extern char __executable_start[], _end[];
static int data_address(const u8 *a, const u8 *b, int at, int size)
{
	int k, w; uw x, y;
	/* addresses below 2 GB are stored in 32 bits */
	for (w = 4; w <= WBYTES; w += 4) for (k = at - w + 1; k <= at; k++) {
		if (k < 0 || k + w > size) continue;
		x = y = 0;
		memcpy(&x, a + k, (size_t)w); memcpy(&y, b + k, (size_t)w);
		if (x >= (uw)__executable_start && x < (uw)_end && y >= (uw)__executable_start && y < (uw)_end) return 1;
	}
	return 0;
}
#else
#define data_address(a, b, at, size) 0
#endif
static int run_det(const prog *p)
{
	int r, k, which; s32 e; void *code; static prog other; int verb; altin in; altout out; FILE *f = NULL; int saved = -1;
	if ((r = reference(p)) != RC_OK) return r;
	if ((r = execute(p, VS0, VS1, IA->code, lab_addrs)) != RC_OK) return r;
	/* the same again: other contents of fresh memory, other compilers in between */
	h_junk = splitmix(&ms_);
	if (mrp(40)) {
		u64 k0 = rs[0], k1 = rs[1]; int q;
		rseed(splitmix(&ms_), 7);
		do q = gen_prog(&other, &profiles[mrn(NPROFILES)], VS2); while (q < 0);
		rs[0] = k0; rs[1] = k1;
		st_init(VS2, &other);
		if (!prog_static_ok(&other) && run_interp(&other, VS2) == 0 && !m_start(MB, NULL)) { if (!m_all(MB, &other, VS2)) { code = sljit_generate_code(MB->c, 0, NULL); if (code) sljit_free_code(code, NULL); } sljit_free_compiler(MB->c); }
	}
	if (m_start(MB, NULL)) FAIL("compiler creation failed");
	if ((e = m_all(MB, p, VS1)) != 0) FAIL("second emission: error %d at step %d", e, MB->e.at);
	memset(cb, 0xa5, IA->size + 64);
	code = m_gen_at(MB, cb, CB_SIZE, 0, 0);
	if (!code) FAIL("second code generation: error %d", sljit_get_compiler_error(MB->c));
	im_take(IB, MB, code);
	sljit_free_compiler(MB->c);
	if ((r = im_cmp(IA, IB, "second compilation")) != RC_OK) return r;
	if ((r = m_end()) != RC_OK) return r;
	for (which = 0; which < 2; which++) {
		verb = which == 0 && mrp(60);
		memset(cb, 0xa5, IA->size + 64);
		in.p = p; in.fs = VS1; in.sb = sb; for (k = 0; k < N_AR; k++) in.arena[k] = arena[k]; in.hlp = shared_hlp; in.buf = cb; in.bufsize = CB_SIZE; in.verbose = NULL;
		memset(&out, 0, sizeof(out));
		if (verb) {
			f = tmpfile();
			if (!f) { fprintf(stderr, "INFRA: tmpfile\n"); exit(99); }
			in.verbose = f;
			if (stdout_fd < 0) { FILE *t = tmpfile(); if (!t) exit(99); stdout_fd = fileno(t); }
			fflush(stdout); saved = dup(1); dup2(stdout_fd, 1);
		}
		pg->phase = 7 + (u64)which;
		e = which ? alt2_compile(&in, &out) : alt1_compile(&in, &out);
		pg->phase = 9;
		if (verb) {
			long n; fflush(stdout); dup2(saved, 1); close(saved);
			pg->extra[48]++;
			if (ferror(f)) { fclose(f); FAIL("verbose output failed"); }
			fseek(f, 0, SEEK_END); n = ftell(f); fclose(f);
			if (n < p->n) FAIL("verbose output has %ld bytes", n);
			if (lseek(stdout_fd, 0, SEEK_END) != 0) { if (ftruncate(stdout_fd, 0)) {} lseek(stdout_fd, 0, SEEK_SET); FAIL("verbose output goes to the standard output instead of the file"); }
		}
		if (e) FAIL("build %s: error %d", which ? "without checks" : verb ? "with verbose output enabled" : "with verbose", e);
		if (out.code != IA->code || out.size != IA->size) FAIL("build %s: code size %llu instead of %llu", which ? "without checks" : verb ? "with verbose output enabled" : "with verbose", (unsigned long long)out.size, (unsigned long long)IA->size);
		for (k = 0; k < (int)IA->size; k++) if (cb[k] != IA->bytes[k] && !data_address(IA->bytes, cb, k, (int)IA->size)) FAIL("build %s: code byte %d of %llu is %02x instead of %02x", which ? "without checks" : verb ? "with verbose output enabled" : "with verbose", k, (unsigned long long)IA->size, cb[k], IA->bytes[k]);
	}
	return m_end();
}

#else
static int run_det(const prog *p) { (void)p; fprintf(stderr, "INFRA: det needs VT_ALT\n"); exit(99); }
#endif

/* ---------- run time patching (C07) ---------- */
static sw const_value(s32 op) { s64 v = (s64)(sw)rval(); if ((op & 0xff) == SLJIT_MOV_U8) return (sw)rrange(-256, 255); return op != SLJIT_MOV ? (sw)(s32)v : (sw)v; }
static int same_types(const prog *p, const vst *a, const vst *b)
{
	int i;
	for (i = 1; i <= NREGS; i++) if (pg_reg_ok(p, i) && a->rt[i] != b->rt[i]) return 0;
	for (i = 1; i <= NFREGS; i++) if (pg_freg_ok(p, i) && a->ft[i] != b->ft[i]) return 0;
	return 1;
}
static prog Q, Q2;
static int run_patch(const prog *p)
{
	int r, k, n, tries, round, nlabs = 0; s64 labs[MAXL]; s32 e; void *code; sw off; uw ja[MAXO], ca[MAXI], la[MAXL]; int how = (int)mrn(4);
	if ((how == 1 && !HAVE_DUAL) || IS_WX) how = 2;
	memset(la, 0, sizeof(la));
	if (m_start(MA, NULL)) FAIL("compiler creation failed");
	e = m_all(MA, p, VS1);
	if (e == -100) { sljit_free_compiler(MA->c); return RC_INVALID; }
	if (e) FAIL("emission error %d at step %d", e, MA->e.at);
	if (how == 0) code = m_gen_at(MA, cb, CB_SIZE, 0, 0);
	else if (how == 1 && MA->c->size * 16 < DF_SIZE) { dual_map(0); code = m_gen_at(MA, drw, DF_SIZE, (sw)((uw)drx - (uw)drw), 0); dual_flush(); }
	else { how = 2; code = sljit_generate_code(MA->c, 0, NULL); }
	if (!code) FAIL("code generation error %d", sljit_get_compiler_error(MA->c));
	off = sljit_get_executable_offset(MA->c);
	for (k = 0; k < MA->nj; k++) ja[k] = sljit_get_jump_addr(MA->j[k].j);
	for (k = 0; k < MA->nk; k++) ca[k] = sljit_get_const_addr(MA->k[k].c);
	for (k = 0; k < p->n; k++) if (p->i[k].k == K_LABEL || p->i[k].k == K_ALABEL) { labs[nlabs++] = p->i[k].x; la[p->i[k].x] = sljit_get_label_addr(MA->e.lab[p->i[k].x]); }
	m_label_addrs(p, MA);
	sljit_free_compiler(MA->c);
	r = execute(p, VS0, VS1, code, lab_addrs);
	Q = *p;
	rseed(ms_, 3);
	for (round = 0; r == RC_OK && round < 8; round++) {
		u8 jt[MAXO], kt[MAXI]; int any = 0;
		for (tries = 0; tries < 12; tries++) {
			int cnt = 1 + (int)rn(3), c, done = 0;
			memset(jt, 0, sizeof(jt)); memset(kt, 0, sizeof(kt));
			Q2 = Q;
			for (c = 0; c < cnt; c++) {
				if (MA->nk && rp(MA->nj ? 50 : 100)) { n = (int)rn((u32)MA->nk); Q2.i[MA->k[n].pc].x = rp(10) ? p->i[MA->k[n].pc].x : const_value(Q.i[MA->k[n].pc].op); kt[n] = 1; done = 1; }
				else if (MA->nj) {
					ins *i; n = (int)rn((u32)MA->nj); if (MA->j[n].pc < 0) continue; i = &Q2.i[MA->j[n].pc];
					if (i->k == K_ICALL) { if (i->o[1] != 2) continue; /* helpers of the same signature */ if (i->op < 0) continue; i->w[0] = (i->w[0] + 1) & 1; jt[n] = 1; done = 1; continue; }
					s64 to; int at;
					if (!(i->op & SLJIT_REWRITABLE_JUMP) || i->k == K_OPADDR || !nlabs) continue;
					to = rp(15) ? p->i[MA->j[n].pc].x : labs[rn((u32)nlabs)];
					at = find_label(p, to) + 1;
					if ((i->k == K_FCALL) != (at < p->n && p->i[at].k == K_FENTER)) continue; /* a fast call must reach a fast enter */
					i->x = to; jt[n] = 1; done = 1;
				}
			}
			if (!done) continue;
			st_init(VS2, &Q2);
			if (prog_flags_ok(&Q2) || run_interp(&Q2, VS2) || !same_types(p, VS1, VS2)) continue;
			any = 1; break;
		}
		if (!any) { pg->extra[50]++; break; }
		for (n = 0; n < MA->nk; n++) if (kt[n]) { pg->extra[51]++; sljit_set_const(ca[n], Q2.i[MA->k[n].pc].op, (sw)Q2.i[MA->k[n].pc].x, off); }
		for (n = 0; n < MA->nj; n++) if (jt[n]) {
			ins *i = &Q2.i[MA->j[n].pc];
			pg->extra[i->k == K_ICALL ? 53 : 52]++;
			if (i->k == K_ICALL) sljit_set_jump_addr(ja[n], SLJIT_FUNC_UADDR(hlp_alt(i->op, (int)i->w[0])), off);
			else sljit_set_jump_addr(ja[n], la[i->x], off);
		}
		Q = Q2;
		if (how == 1) dual_flush();
		r = execute(&Q, VS0, VS2, code, lab_addrs);
		if (r != RC_OK) { char m[400]; snprintf(m, sizeof(m), "%s", failmsg); snprintf(failmsg, sizeof(failmsg), "round %d: %s", round, m); }
	}
	if (how > 1) sljit_free_code(code, NULL);
	return r != RC_OK ? r : m_end();
}

/* ---------- read only buffers (C07) ---------- */
#define RB_MAX 16
typedef struct { struct sljit_read_only_buffer b; int group, wr; uw addr; u8 data[400]; int rd[3]; int rk[3]; } robuf;
static int run_robuf(void)
{
	static robuf rb[RB_MAX]; int ng = 1 + (int)mrn(3), nb = 0, g, k, q, n, r, round, order = (int)mrn(2), nt = 2 + (int)mrn(5), how = (int)mrn(4), gal[4], gfirst[5], through[4], tblgroup; sw off;
	struct sljit_compiler *c; struct sljit_jump *j, *jt[4], *out[8]; struct sljit_label *l, *glab[4], *tl[8]; uw tla[8], tval[8]; void *code; s32 e; uw acc, idx;
	(void)order;
	if ((how == 1 && !HAVE_DUAL) || IS_WX) how = 2;
	h_data = NULL;
	c = sljit_create_compiler(NULL);
	if (!c) FAIL("compiler creation failed");
	memset(rb, 0, sizeof(rb));
	/* layout: group 0 holds the jump table in its first buffer */
	tblgroup = 0;
	for (g = 0; g < ng; g++) {
		n = 1 + (int)mrn(4); gfirst[g] = nb; gal[g] = (int)mrn(5); through[g] = g != tblgroup && mrp(30);
		if (g == tblgroup && gal[g] < SLJIT_LABEL_ALIGN_W) gal[g] = SLJIT_LABEL_ALIGN_W;
		for (k = 0; k < n; k++, nb++) {
			rb[nb].group = g; rb[nb].b.size = g == tblgroup && k == 0 ? (uw)nt * WBYTES + mrn(20) : mrp(60) ? (uw)(1 + mrn(16)) * 4 : 1 + mrn(mrp(20) ? 390 : 60);
			rb[nb].wr = !through[g] && (mrp(70) || (g == tblgroup && k == 0));
			rb[nb].b.next = k + 1 < n ? &rb[nb + 1].b : NULL;
			for (q = 0; q < 3; q++) { rb[nb].rd[q] = (int)mrn((u32)rb[nb].b.size); rb[nb].rk[q] = (int)mrn(3); }
		}
	}
	gfirst[ng] = nb;
	if ((e = sljit_emit_enter(c, 0, SLJIT_ARGS1V(W), 4, 2, (s32)mrn(100))) != 0) FAIL("enter: %d", e);
	/* S0: index, S1: state block */
	sljit_emit_op1(c, SLJIT_MOV, SLJIT_S1, 0, SLJIT_IMM, (sw)sb);
	/* reads of the buffers in front of the groups and behind them: one pass */
	static struct { struct sljit_jump *j; int b, q; } ld_[RB_MAX * 3]; int nld = 0;
	for (k = 0; k < nb; k++) for (q = 0; q < 3; q++) {
		int kind = rb[k].rk[q];
		if (kind == 2) { sljit_emit_op1(c, SLJIT_MOV, SLJIT_R1, 0, SLJIT_IMM, (sw)rb[k].rd[q]); j = sljit_emit_op_addr(c, SLJIT_ADD_ABS_ADDR, SLJIT_R1, 0); sljit_emit_op1(c, SLJIT_MOV_U8, SLJIT_R2, 0, SLJIT_MEM1(SLJIT_R1), 0); }
		else if (kind == 1) { j = sljit_emit_op_addr(c, SLJIT_MOV_ABS_ADDR, SLJIT_MEM1(SLJIT_S1), SBOFF(guard)); sljit_emit_op1(c, SLJIT_MOV, SLJIT_R1, 0, SLJIT_MEM1(SLJIT_S1), SBOFF(guard)); sljit_emit_op1(c, SLJIT_MOV_U8, SLJIT_R2, 0, SLJIT_MEM1(SLJIT_R1), rb[k].rd[q]); }
		else { j = sljit_emit_op_addr(c, SLJIT_MOV_ABS_ADDR, SLJIT_R1, 0); sljit_emit_op1(c, SLJIT_MOV_U8, SLJIT_R2, 0, SLJIT_MEM1(SLJIT_R1), rb[k].rd[q]); }
		if (!j) FAIL("op_addr: error %d", sljit_get_compiler_error(c));
		ld_[nld].j = j; ld_[nld].b = k; ld_[nld].q = q; nld++;
		sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(SLJIT_S1), SBOFF(v) + (k * 3 + q) * WBYTES, SLJIT_R2, 0);
	}
	sljit_emit_op1(c, SLJIT_MOV, SLJIT_R0, 0, SLJIT_IMM, 1);
	for (g = ng - 1; g >= 0; g--) { /* the table is behind the others */
		jt[g] = NULL;
		if (!through[g]) { jt[g] = sljit_emit_jump(c, SLJIT_JUMP); if (!jt[g]) FAIL("jump"); }
		glab[g] = sljit_emit_aligned_label(c, gal[g], &rb[gfirst[g]].b);
		if (!glab[g]) FAIL("aligned label: error %d", sljit_get_compiler_error(c));
		if (rb[gfirst[g]].b.u.label != glab[g]) FAIL("the label of the first buffer is not the returned one");
		if (jt[g]) sljit_set_label(jt[g], sljit_emit_label(c));
		sljit_emit_op2(c, SLJIT_ADD, SLJIT_R0, 0, SLJIT_R0, 0, SLJIT_IMM, 16 << g);
	}
	for (k = 0; k < nld; k++) sljit_set_label(ld_[k].j, rb[ld_[k].b].b.u.label);
	/* jump by the table */
	j = sljit_emit_op_addr(c, SLJIT_MOV_ABS_ADDR, SLJIT_R1, 0);
	if (!j) FAIL("op_addr: error %d", sljit_get_compiler_error(c));
	sljit_set_label(j, rb[gfirst[tblgroup]].b.u.label);
	if (mrp(50)) sljit_emit_ijump(c, SLJIT_JUMP, SLJIT_MEM2(SLJIT_R1, SLJIT_S0), SLJIT_WORD_SHIFT);
	else { sljit_emit_op1(c, SLJIT_MOV, SLJIT_R1, 0, SLJIT_MEM2(SLJIT_R1, SLJIT_S0), SLJIT_WORD_SHIFT); sljit_emit_ijump(c, SLJIT_JUMP, SLJIT_R1, 0); }
	for (k = 0; k < nt; k++) {
		tl[k] = mrp(50) ? sljit_emit_label(c) : sljit_emit_aligned_label(c, (s32)mrn(5), NULL);
		tval[k] = 1000 * (uw)(k + 1);
		sljit_emit_op2(c, SLJIT_ADD, SLJIT_R0, 0, SLJIT_R0, 0, SLJIT_IMM, (sw)tval[k]);
		out[k] = sljit_emit_jump(c, SLJIT_JUMP);
	}
	l = sljit_emit_label(c);
	for (k = 0; k < nt; k++) sljit_set_label(out[k], l);
	sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(SLJIT_S1), SBOFF(out), SLJIT_R0, 0);
	if ((e = sljit_emit_return_void(c)) != 0) FAIL("emission: error %d", e);
	if (how == 0) code = sljit_generate_code(c, SLJIT_GENERATE_CODE_BUFFER, &(struct sljit_generate_code_buffer){ cb, CB_SIZE, 0 });
	else if (how == 1) { dual_map(0); code = sljit_generate_code(c, SLJIT_GENERATE_CODE_BUFFER, &(struct sljit_generate_code_buffer){ drw, DF_SIZE, (sw)((uw)drx - (uw)drw) }); dual_flush(); }
	else code = sljit_generate_code(c, 0, NULL);
	if (!code) FAIL("code generation: error %d", sljit_get_compiler_error(c));
	off = sljit_get_executable_offset(c);
	acc = (uw)CODEPTR(code); idx = acc + sljit_get_generated_code_size(c);
	for (k = 0; k < nb; k++) {
		rb[k].addr = sljit_get_label_abs_addr(rb[k].b.u.label);
		if (rb[k].addr < acc || rb[k].addr + rb[k].b.size > idx) FAIL("buffer %d is outside of the code", k);
		if (k > 0 && rb[k].group == rb[k - 1].group && rb[k].addr < rb[k - 1].addr + rb[k - 1].b.size) FAIL("buffers %d and %d overlap", k - 1, k);
		memcpy(rb[k].data, (void*)rb[k].addr, rb[k].b.size); /* initial content: instructions without effect */
	}
	for (g = 0; g < ng; g++) if (sljit_get_label_abs_addr(glab[g]) & (((uw)1 << gal[g]) - 1)) FAIL("label of group %d is not aligned to %d", g, 1 << gal[g]);
	for (k = 0; k < nt; k++) tla[k] = sljit_get_label_addr(tl[k]);
	sljit_free_compiler(c);
	pg->extra[54] += (u64)nb;
	r = RC_OK;
	for (round = 0; round < 3; round++) {
		int perm[8];
		for (k = 0; k < nt; k++) perm[k] = (int)mrn((u32)nt);
		for (k = 0; k < nb; k++) if (rb[k].wr && (round == 0 || mrp(60))) {
			u8 *w = (u8*)sljit_read_only_buffer_start_writing(rb[k].addr, rb[k].b.size, off);
			if (!w) FAIL("start_writing failed");
			for (q = 0; q < (int)rb[k].b.size; q++) rb[k].data[q] = (u8)splitmix(&ms_);
			if (k == gfirst[tblgroup]) for (q = 0; q < nt; q++) memcpy(rb[k].data + q * WBYTES, &tla[perm[q]], WBYTES);
			memcpy(w, rb[k].data, rb[k].b.size);
			sljit_read_only_buffer_end_writing(rb[k].addr, rb[k].b.size, off);
		}
		if (how == 1) dual_flush(); else if (how > 1) exec_flush(code);
		for (n = 0; n < nt && r == RC_OK; n++) {
			uw want = 1, t;
			memset(sb, 0, sizeof(*sb));
			pg->phase = 3;
			((void (SLJIT_FUNC *)(uw))code)((uw)n);
			pg->phase = 4;
			for (g = 0; g < ng; g++) want += (uw)16 << g;
			memcpy(&t, rb[gfirst[tblgroup]].data + n * WBYTES, WBYTES);
			for (k = 0; k < nt && tla[k] != t; k++) ;
			want += tval[k];
			if (sb->out[0] != want) FAIL("round %d, index %d: result %llu instead of %llu", round, n, (unsigned long long)sb->out[0], (unsigned long long)want);
			for (k = 0; k < nb; k++) for (q = 0; q < 3; q++) { uw v; memcpy(&v, (u8*)sb + SBOFF(v) + (k * 3 + q) * WBYTES, WBYTES); if (v != rb[k].data[rb[k].rd[q]]) FAIL("round %d: byte %d of buffer %d is read as %x instead of %x", round, rb[k].rd[q], k, (unsigned)v, rb[k].data[rb[k].rd[q]]); }
		}
		for (k = 0; k < nb; k++) if (memcmp(rb[k].data, (void*)rb[k].addr, rb[k].b.size)) FAIL("round %d: content of buffer %d changed", round, k);
	}
	if (how > 1) sljit_free_code(code, NULL);
	return m_end();
}

/* ---------- cases ---------- */
static const char *kinds[] = { "ser", "det", "buf", "oom", "lists", "patch", "robuf", NULL };
static prog P; static vst *GS; static int KIND; static u64 MSEED;
static int kind_of(const char *s) { int k; for (k = 0; kinds[k]; k++) if (!strcmp(kinds[k], s)) return k; return -1; }
static int make_case(int kind, u64 seed, u64 n)
{
	int r, t = 0, k; const profile *pr;
	rseed(seed ^ 0x777, n);
	MSEED = r64() >> 16; KIND = kind;
	if (kind == 6) { memset(&P, 0, sizeof(P)); return 1; }
	k = (int)rn(10);
	pr = &profiles[k < 2 ? 5 : k < 3 && kind != 5 ? (int)rn(6) : 6];
	do { rseed(seed, n * 131 + (u64)t); r = gen_prog(&P, pr, GS); } while (r < 0 && ++t < 20);
	if (r < 0) return -1;
	if (kind == 5 || rp(30)) for (k = 0; k < P.n; k++) { ins *i = &P.i[k]; if ((i->k == K_JUMP || i->k == K_CMP || i->k == K_FCMP || i->k == K_FCALL) && rp(60)) i->op |= SLJIT_REWRITABLE_JUMP; if (i->k == K_ICALL && rp(50)) i->o[1] = 2; }
	return r;
}
static int run_case(void)
{
	int r;
	m_tail = MSEED & 1 ? KIND == 1 ? 1 : (int)(MSEED >> 1) % 6 : 0;
	ms_ = MSEED * 0x9e3779b97f4a7c15ull + 99; h_err = NULL; h_live = 0; h_fail = -1; h_failed = 0; h_data = NULL; h_junk = MSEED * 31;
	if (KIND == 6) return run_robuf();
	if ((r = prepare(&P)) != RC_OK) return r;
	switch (KIND) {
	case 0: return run_ser(&P);
	case 1: return run_det(&P);
	case 2: return run_buf(&P);
	case 3: return run_oom(&P);
	case 4: return run_lists(&P);
	default: return run_patch(&P);
	}
}

int main(int argc, char **argv)
{
	setvbuf(stdout, NULL, _IOLBF, 0);
	core_init(); alloc_states(); GS = st_new(); cb_init(); gp_init();
	IA = im_new(); IB = im_new(); MA = mc_new(); MB = mc_new(); MC = mc_new();
	br_size = 0x40000;
	br = (u8*)mmap(NULL, br_size + 0x20000, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (br == MAP_FAILED) return 99;
	br += 0x10000;
	if (mprotect(br, br_size, PROT_READ | PROT_WRITE | PROT_EXEC)) { fprintf(stderr, "INFRA: region\n"); return 99; }
	if (argc < 2) return 99;
	make_qc();
	h_live = 0;
	if (!strcmp(argv[1], "run") && argc >= 7) {
		int kind = kind_of(argv[2]); u64 seed = strtoull(argv[3], NULL, 10), n = strtoull(argv[4], NULL, 10), end, stop = stop_at();
		if (kind < 0) return 99;
		progress_open(argv[6]);
		end = now_ms() + strtoull(argv[5], NULL, 10);
		for (; now_ms() < end && n <= stop; n++) {
			int nt, r, k; u64 h = 14695981039346656037ull;
			pg->cur = n; pg->phase = 0;
			if (n % 4 == 0) arm_watchdog(30);
			nt = make_case(kind, seed, n);
			if (nt < 0) { pg->skipped++; continue; }
			pg->cases++; pg->instrs += (u64)P.n;
			for (k = 0; k < P.n; k++) { h = fnv(h, &P.i[k], sizeof(ins)); pg->extra[P.i[k].k]++; }
			h = fnv(h, &MSEED, 8);
			if (nt > 0 && dset_add(h)) pg->nontriv++;
			r = run_case();
			if (r == RC_INVALID) { fprintf(stderr, "INFRA: generator made an invalid program: case %llu %s\n", (unsigned long long)n, failmsg); return 99; }
			if (r == RC_FAIL) { printf("MISMATCH case=%llu %s\n", (unsigned long long)n, failmsg); return 10; }
		}
		return 0;
	}
	if (!strcmp(argv[1], "dump") && argc >= 5) {
		int kind = kind_of(argv[2]), nt; char hdr[100];
		if (kind < 0) return 99;
		nt = make_case(kind, strtoull(argv[3], NULL, 10), strtoull(argv[4], NULL, 10));
		if (nt < 0) return 3;
		snprintf(hdr, sizeof(hdr), "meta %s %llx\n", kinds[kind], (unsigned long long)MSEED);
		if (kind == 6) printf("%send\n", hdr); else prog_write(&P, stdout, hdr);
		return 0;
	}
	if (!strcmp(argv[1], "replay") && argc >= 3) {
		FILE *f = fopen(argv[2], "r"); int r; char line[512], nm[32]; unsigned long long ms;
		KIND = -1;
		while (f && fgets(line, sizeof(line), f)) if (sscanf(line, "meta %31s %llx", nm, &ms) == 2) { KIND = kind_of(nm); MSEED = ms; break; }
		if (KIND < 0) { printf("INVALID unreadable\n"); return 3; }
		if (KIND != 6) {
			if (prog_read(&P, f)) { printf("INVALID unreadable\n"); return 3; }
			if (P.sc < 0 || P.sc > NREGS || P.sv < 0 || P.sc + P.sv > NREGS || P.locals < 0 || P.locals > MAXLOC) { printf("INVALID context\n"); return 3; }
			if (prog_static_ok(&P) || prog_flags_ok(&P)) { printf("INVALID %s\n", ub); return 3; }
		}
		fclose(f);
		arm_watchdog(60);
		r = run_case();
		if (r == RC_INVALID) { printf("INVALID %s\n", failmsg); return 3; }
		if (r == RC_FAIL) { printf("MISMATCH %s\n", failmsg); return 10; }
		printf("OK\n");
		return 0;
	}
	return 99;
}
