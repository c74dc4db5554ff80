#include "../config/config.h"
#undef HAVE_POSIX_AIO
