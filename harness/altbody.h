#define SLJIT_CONFIG_STATIC 1
#include "sljitLir.c"
#include "emit.h"
#include "altapi.h"
int ALT_NAME(const altin *in, altout *out)
{
	const prog *p = (const prog*)in->p; struct sljit_compiler *c; struct sljit_generate_code_buffer b; static emitctx e; sljit_s32 r;
	sb = (sblock*)in->sb; arena[0] = in->arena[0]; arena[1] = in->arena[1]; hlp_override = in->hlp;
	c = sljit_create_compiler(NULL);
	if (!c) return -1000;
#if (defined SLJIT_VERBOSE && SLJIT_VERBOSE)
	if (in->verbose) sljit_compiler_verbose(c, in->verbose);
#endif
	r = emit_prog(c, p, (const vst*)in->fs, &e);
	if (r) { sljit_free_compiler(c); return r; }
	b.buffer = in->buf; b.size = (sljit_uw)in->bufsize; b.executable_offset = 0;
	out->code = sljit_generate_code(c, SLJIT_GENERATE_CODE_BUFFER, &b);
	r = sljit_get_compiler_error(c);
	out->size = sljit_get_generated_code_size(c);
	sljit_free_compiler(c);
	return out->code ? 0 : r ? r : -1001;
}
