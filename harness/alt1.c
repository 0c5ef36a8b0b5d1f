/* A build with argument checks and verbose output, without debug. */
#undef SLJIT_DEBUG
#undef SLJIT_VERBOSE
#undef SLJIT_ARGUMENT_CHECKS
#define SLJIT_DEBUG 0
#define SLJIT_VERBOSE 1
#define SLJIT_ARGUMENT_CHECKS 1
#define ALT_NAME alt1_compile
#include "altbody.h"
