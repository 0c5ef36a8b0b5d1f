/* Compilation by another build of the code under test, linked into the same executable (alt1.c, alt2.c). */
#ifndef VT_ALTAPI_H
#define VT_ALTAPI_H
#include <stdio.h>
typedef struct { const void *p, *fs; void *sb; unsigned char *arena[2]; void *(*hlp)(int); void *buf; unsigned long bufsize; FILE *verbose; } altin;
typedef struct { void *code; sljit_uw size; } altout;
int alt1_compile(const altin *in, altout *out);
int alt2_compile(const altin *in, altout *out);
#endif
