/*
 * C08: set_psk() as the TLS library calls it, with every identity and password
 * the configuration can hold and buffers of every size.
 */
#include <config.h>
#include <stdlib.h>
#include <string.h>
#include "vp.h"
#include "auth.h"
#include "conf.h"
#include "send_nsca.h"

#ifndef IMAX
# define IMAX 3
#endif
#ifndef BMAX
# define BMAX 5
#endif
#ifndef REP
# define REP 2
#endif
conf *cfg;
int exit_code;
static char *id, *pw;
static int dummy;

char *conf_getstr(conf * restrict c, const char * restrict key)
{
	vp_check(c == cfg, "the configuration is consulted");
	if (strcmp(key, "identity") == 0)
		return id;
	if (strcmp(key, "password") == 0)
		return pw;
	vp_check(0, "only identity and password are asked for");
	return NULL;
}
static size_t min(size_t a, size_t b) { return a < b ? a : b; }
void vp_main(void)
{
	int r;

	cfg = (conf *)(void *)&dummy;
#ifdef SIZES
	id = vp_filled(VP_PICK(0, 1, 127, 128, 255, 256, 257, 600));
	pw = vp_filled(VP_PICK(0, 1, 127, 128, 255, 256, 257, 600));
#else
	id = vp_string(0, IMAX);
	pw = vp_string(0, IMAX);
#endif
	for (r = 0; r < REP; r++) {
#ifdef SIZES
		size_t ni = VP_PICK(128, 129, 256, 513), np = VP_PICK(64, 255, 256, 257, 512), i, li, lp;
#else
		size_t ni = vp_concrete(vp_size(1, BMAX)), np = vp_concrete(vp_size(0, BMAX)), i, li, lp;
#endif
		char *bi = malloc(ni), ci[IMAX + 1], cp[IMAX + 1];
		unsigned char *bp = malloc(np);

		strcpy(ci, id);
		strcpy(cp, pw);
		memset(bi, 0x55, ni);
		memset(bp, 0x55, np);
		lp = set_psk(NULL, NULL, bi, (unsigned)ni, bp, (unsigned)np);
		vp_check(lp == min(strlen(pw), np), "the number of key bytes is reported");
		for (i = 0; i < lp; i++)
			vp_check(bp[i] == (unsigned char)pw[i], "the key is the configured password");
		for (; i < np; i++)
			vp_check(bp[i] == 0x55, "nothing is written beyond the key");
		li = min(strlen(id), ni - 1);
		for (i = 0; i < li; i++)
			vp_check(bi[i] == id[i], "the identity is the configured one");
		vp_check(bi[li] == '\0', "the identity is terminated");
		vp_check(strcmp(ci, id) == 0 && strcmp(cp, pw) == 0, "the configuration is left alone");
		if (li < strlen(id))
			vp_reach("identity cut");
		else if (lp < strlen(pw))
			vp_reach("key cut");
		else
			vp_reach("whole");
		free(bi);
		free(bp);
	}
	free(id);
	free(pw);
}
