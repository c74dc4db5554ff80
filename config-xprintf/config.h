#include "../config/config.h"
/* A system without these functions, otherwise like this one. */
#undef HAVE_SNPRINTF
#undef HAVE_VSNPRINTF
#undef HAVE_ASPRINTF
#undef HAVE_VASPRINTF
#define HAVE_STDARG_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STDDEF_H 1
#define HAVE_STDINT_H 1
#define HAVE_INTTYPES_H 1
#define HAVE_VA_COPY 1
#define HAVE_INTMAX_T 1
#define HAVE_UINTMAX_T 1
#define HAVE_UINTPTR_T 1
#define HAVE_PTRDIFF_T 1
#define HAVE_LONG_LONG_INT 1
#define HAVE_UNSIGNED_LONG_LONG_INT 1
