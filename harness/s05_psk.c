/*
 * S05: the server's key callback (auth.c, hash.c) for symbolic identities,
 * passwords and buffer sizes, called repeatedly on one connection.
 * With VIA_TLS, the identity goes through the handshake in tls.c.
 */
#include <config.h>
#include <signal.h>
#include "vp.h"
#ifdef VIA_TLS
# include "h_ev.h"
# include "h_ssl.h"
# include "tls.h"
#else
# include <openssl/ssl.h>
# include <stdlib.h>
# include <string.h>
#endif
#include "h_confuse.h"
#include "auth.h"
#include "hash.h"

#ifndef IMAX
# define IMAX 2
#endif
#ifndef PMAX
# define PMAX 3
#endif
#ifndef BMAX
# define BMAX 4
#endif
#ifndef REP
# define REP 2
#endif

void STUB(exit)(int c) { (void)c; vp_check(0, "the server does not exit"); vp_stop(); }
int STUB(regexec)(const regex_t * restrict re, const char * restrict s, size_t nm, regmatch_t * restrict pm, int fl)
{
	(void)re; (void)s; (void)nm; (void)pm; (void)fl;
	return 0;
}
size_t STUB(regerror)(int e, const regex_t * restrict re, char * restrict b, size_t n) { (void)e; (void)re; (void)b; (void)n; return 0; }

static struct h_sect sect[3];
static const char *const titles[3] = { "a", "bc", "*" };
static bool present[3];

static struct h_sect *section_of(const char *id)
{
	int i;

	for (i = 0; i < 3; i++)
		if (present[i] && strcmp(id, titles[i]) == 0)
			return &sect[i];
	return present[2] ? &sect[2] : NULL;
}
static char *last;      /* the identity a key was last supplied for */

#ifndef VIA_TLS
struct ssl_st { void *app; };
static bool set_fails;
int STUB(SSL_set_ex_data)(SSL *s, int i, void *p)
{
	vp_check(i == 0, "application data");
	set_fails = vp_concrete(vp_bool());
	if (set_fails)
		return 0;
	s->app = p;
	return 1;
}
void *STUB(SSL_get_ex_data)(const SSL *s, int i) { vp_check(i == 0, "application data"); return s->app; }
#else
static bool hs_ssl_new_fails(void) { return false; }
static bool hs_peer_fails(void) { return false; }
static const bool set_fails = false;
static int accepted;
static int hs_accept(void) { return accepted++ == 0 ? 1 : -1; }
#endif

/* Returns true if a key was supplied. */
static bool ask(SSL *s, const char *id, unsigned (*psk)(SSL *, const char *, unsigned char *, unsigned))
{
	unsigned char *buf;
	struct h_sect *x = section_of(id);
#ifdef SIZES
	unsigned max = (unsigned)VP_PICK(64, 128, 255, 256, 257, 512), n, i;
#else
	unsigned max = (unsigned)vp_concrete(vp_size(0, BMAX)), n, i;
#endif
	size_t len;
	char *copy = strdup(id);

	buf = malloc(max != 0 ? max : 1);
	for (i = 0; i < max; i++)
		buf[i] = 0xA5;
	if (max == 0)
		buf[0] = 0xA5;
	n = psk(s, id, buf, max);
	vp_check(strcmp(id, copy) == 0, "the identity is left alone");
	if (x == NULL || set_fails) {
		vp_check(n == 0, "no key is supplied for an unknown client");
		vp_check(max == 0 || buf[0] == 0xA5, "no key material for an unknown client");
#ifndef VIA_TLS
		if (x != NULL)
			vp_reach("the identity cannot be stored");
#endif
#ifndef SIZES
		vp_reach("no key");
#endif
		free(copy);
	} else {
		len = strlen(x->password);
		vp_check(n == (len < max ? len : max), "the key's length, within the buffer");
		for (i = 0; i < n; i++)
			vp_check(buf[i] == (unsigned char)x->password[i], "the key is the password of the client's section");
		for (; i < max; i++)
			vp_check(buf[i] == 0xA5, "nothing is written behind the key");
		if (n < len)
			vp_reach("truncated");
		if (x == &sect[2])
			vp_reach("any client");
#ifndef SIZES
		else
			vp_reach("own section");
#endif
		free(last);
		last = copy;
	}
	free(buf);
	return x != NULL && !set_fails;
}

#ifdef VIA_TLS
static char *ids[REP];
static int asked;
static bool keyed;
static int hs_io(int op, SSL *s, void *buf, int n)
{
	(void)buf; (void)n;
	if (op == HS_SHUTDOWN)
		return 1;
	if (op != HS_ACCEPT)
		return hs_failure(3);
	if (asked < REP && !(asked > 0 && vp_concrete(vp_bool()))) {
		ids[asked] = vp_string(0, IMAX);
		keyed = ask(s, ids[asked], (unsigned (*)(SSL *, const char *, unsigned char *, unsigned))s->ctx->psk);
		asked++;
		if (!keyed)
			return hs_failure(6);
		if (vp_concrete(vp_bool()))
			return hs_failure(0);
	}
	return keyed ? 1 : hs_failure(6);
}
static bool connected;
static void on_connect(tls_state *tls)
{
	connected = true;
	vp_check(keyed && last != NULL, "only a client with a key gets a session");
	vp_check(strcmp(tls->id, last) == 0, "the session's identity is the one presented for the key");
	vp_reach("session");
	tls_shutdown(tls);
}
#endif

void vp_main(void)
{
	int i;
#ifndef VIA_TLS
	struct ssl_st ssl = { NULL };
	char *id;
#else
	tls_server_state *ctx;
	int left;
#endif

	hash_new(3);
	for (i = 0; i < 3; i++) {
#ifdef SIZES
		present[i] = i == 2;
#else
		present[i] = vp_concrete(vp_bool());
#endif
		if (!present[i])
			continue;
		h_sect_init(&sect[i], titles[i]);
#ifdef SIZES
		sect[i].password = vp_filled(VP_PICK(1, 127, 128, 255, 256, 257, 600));
#else
		sect[i].password = vp_string(0, PMAX);
#endif
		hash_insert(titles[i], &sect[i]);
	}
#ifndef VIA_TLS
	for (i = 0; i < REP; i++) {
#ifdef SIZES
		id = vp_filled(VP_PICK(1, 127, 128, 255, 256));
#else
		id = vp_string(0, IMAX);
#endif
		ask(&ssl, id, check_psk);
		/* OpenSSL's copy does not stay around. */
		memset(id, '#', strlen(id));
		free(id);
		if (last != NULL)
			vp_check(ssl.app != NULL && strcmp(ssl.app, last) == 0, "the stored identity is the one presented for the key");
		else
			vp_check(ssl.app == NULL, "no identity is stored without a key");
	}
	free(ssl.app);
#else
	HE_NOW = 1.0;
	ctx = tls_server_start("*:5668", "PSK", 60., on_connect, check_psk);
	he_fire(HE.tab[0].w, EV_READ);
	he_run_pending();
	for (left = 0; left < 6 && HS.ssl != NULL; left++) {
		ev_io *w[4];

		vp_check(hs_watchers(NULL, w, 4) > 1, "a living connection waits for I/O");
		he_fire(w[1], EV_READ);
		he_run_pending();
	}
	vp_check(connected || HS.ssl == NULL, "connections without a key are ended");
	tls_server_stop(ctx);
	for (i = 0; i < asked; i++)
		free(ids[i]);
#endif
	free(last);
	for (i = 0; i < 3; i++)
		free(sect[i].password);
}
