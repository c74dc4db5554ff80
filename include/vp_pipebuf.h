/* A smaller PIPE_BUF, so that "larger than one atomic write" stays small. */
#include <config.h>
#include <limits.h>
#undef PIPE_BUF
#define PIPE_BUF PB
