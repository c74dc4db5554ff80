/* What the main programs need besides the parts under test. */
#ifndef H_PROG_H
#define H_PROG_H
#include <ev.h>
#include <openssl/crypto.h>
#include "h_ev.h"

static void (*hp_atexit[8])(void);
static int hp_natexit;
int STUB(atexit)(void (*f)(void))
{
	vp_harness(hp_natexit < 8, "few functions to be called on exit");
	hp_atexit[hp_natexit++] = f;
	return 0;
}
static void hp_run_atexit(void)
{
	while (hp_natexit > 0)
		hp_atexit[--hp_natexit]();
}
unsigned STUB(ev_backend)(void) { return EVBACKEND_EPOLL; }
int STUB(ev_version_major)(void) { return 4; }
int STUB(ev_version_minor)(void) { return 33; }
const char *STUB(OpenSSL_version)(int t) { (void)t; return "OpenSSL 3.0.13 30 Jan 2024"; }
#endif
