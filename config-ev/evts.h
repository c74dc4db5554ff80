/* Times of the event library in whole milliseconds (it lets one define that). */
#include <time.h>
#include <sys/time.h>
#define EV_TSTAMP_T long
#define EV_TS_CONST(nv) ((long)((nv) * 1000))
#define EV_TS_TO_MSEC(a) (a)
#define EV_TS_FROM_USEC(us) ((us) / 1000)
#define EV_TV_SET(tv, t) do { tv.tv_sec = (t) / 1000; tv.tv_usec = (t) % 1000 * 1000; } while (0)
#define EV_TS_SET(ts, t) do { ts.tv_sec = (t) / 1000; ts.tv_nsec = (t) % 1000 * 1000000; } while (0)
#define EV_TV_GET(tv) ((long)tv.tv_sec * 1000 + (long)tv.tv_usec / 1000)
#define EV_TS_GET(ts) ((long)ts.tv_sec * 1000 + (long)ts.tv_nsec / 1000000)
