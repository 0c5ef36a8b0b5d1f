/* A build without debug, checks and verbose output. */
#undef SLJIT_DEBUG
#undef SLJIT_VERBOSE
#undef SLJIT_ARGUMENT_CHECKS
#define SLJIT_DEBUG 0
#define SLJIT_VERBOSE 0
#define SLJIT_ARGUMENT_CHECKS 0
#define ALT_NAME alt2_compile
#include "altbody.h"
