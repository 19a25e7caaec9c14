/* Pretend to be a compiler and CPU the library has no special case for: system headers first,
   then forget who we are. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stddef.h>
#include <limits.h>
#undef __GNUC__
#undef __x86_64__
#undef __x86_64
#undef __amd64__
#undef __amd64
#undef __AMD64__
#undef __x86__
#undef __i386__
#undef __SSE2__
#undef __SSE__
