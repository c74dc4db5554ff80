/*
 * M01 to M05: the Perl and Python client libraries talking to a server model.
 *   MODE 0  commands and check results (M01: Perl, M02: Python through nscang.c)
 *   MODE 1  arbitrary responses (M03)
 *   MODE 2  credentials of several objects (M04)
 *   MODE 3  the life of a Python object (M05)
 */
#ifdef WITH_NSCANG
# define PY_SSIZE_T_CLEAN
# include <Python.h>
# include "structmember.h"
#endif
#include "h_nsl.h"

#ifndef K
# define K 2
#endif
#ifndef TMAX
# define TMAX 3
#endif
void (exit)(int) __attribute__((__noreturn__));
void STUB(exit)(int n)
{
	(void)n;
	vp_stop(); /* (uthash, out of memory) */
}
#ifdef MALLOCFAIL
static int n_mallocs;
static bool n_mallocs_fail;
void *n_malloc(size_t n)
{
	if (n_mallocs_fail && n_mallocs < MALLOCFAIL && vp_bool()) {
		n_mallocs++;
		return NULL;
	}
	return malloc(n);
}
char *n_strdup(const char *s)
{
	char *d = n_malloc(strlen(s) + 1);

	return d != NULL ? strcpy(d, s) : NULL;
}
#endif

/* What is being submitted. */
static struct {
	char text[2400];        /* the command without timestamp and newline */
	bool stamped;           /* the text brings its own timestamp */
	int accepted;           /* the server took it */
	int seen;
} CUR;

static void n_submission(struct conn *c, const char *d, int n)
{
	int i = 0, l = (int)strlen(CUR.text);
	unsigned long t = 0;

	vp_check(n >= 2 && d[n - 1] == '\n', "the submission ends with a newline");
	if (!CUR.stamped) {
		vp_check(d[i++] == '[', "the submission begins with a timestamp");
		for (; i < n - 1 && d[i] >= '0' && d[i] <= '9'; i++)
			t = t * 10 + (unsigned long)(d[i] - '0');
		vp_check(i < n - 2 && d[i] == ']' && d[i + 1] == ' ', "the timestamp is complete");
		vp_check(t >= (unsigned long)N.start && t <= (unsigned long)N.now, "the timestamp is the current time");
		i += 2;
	}
	n -= i;
	d += i;
#ifndef WITH_NSCANG
	if (l > 0 && CUR.text[l - 1] == '\n') /* (A newline of its own is not doubled.) */
		l--;
#endif
	/* n - 1 bytes of text and the newline */
	vp_check(n - 1 <= l, "nothing is added to the text");
	vp_check(memcmp(d, CUR.text, n - 1) == 0, "the text is sent as it was given");
	if (n - 1 < l) {
		vp_check(n + i >= 1000, "only over-long text is cut");
#ifdef LONGTEXT
		vp_reach("cut");
#endif
	}
#if MODE == 0
	else if (l > 0)
		vp_reach("whole");
#endif
	CUR.seen++;
	if (n_decide(c, N_DATA, "OKAY\r\n"))
		CUR.accepted = 1;
}

#if MODE == 1
# ifndef LMAX
#  define LMAX 8
# endif
static int at, requests;        /* which request is answered arbitrarily */
static char odd[2100];
static int nodd;
static bool asked;
static bool n_respond(struct conn *c, int what)
{
	if (requests++ != at)
		return false;
	asked = true;
	memcpy(c->resp + c->nresp, odd, nodd);
	c->nresp += nodd;
	if (what == N_MOIN)
		c->moined = strncmp(odd, "MOIN 1", 6) == 0;
	if (what == N_PUSH && strncmp(odd, "OKAY", 4) == 0)
		c->want = N.last_push;
	return true;
}
/* The expected result for the response; *ok: it is what was asked for. */
static int oracle(char *err, size_t n, bool moin, bool *ok)
{
	int i, l = nodd;
	char line[1100];

	*ok = false;
	for (i = 0; i < nodd && odd[i] != '\n'; i++)
		;
	if (i >= 1024 || (i == nodd && nodd >= 1024)) {
		snprintf(err, n, "Protocol mismatch - too long response");
		return NSCANG_ERROR_TOO_LONG_RESPONSE;
	}
	if (i == nodd) {
		snprintf(err, n, "Timeout was reached");
		return NSCANG_ERROR_TIMEOUT;
	}
	if (i != nodd - 1)
		return -1;      /* more than one line: see below */
	l = nodd - 1;
	if (l > 0 && odd[l - 1] == '\r')
		l--;
	memcpy(line, odd, l);
	line[l] = '\0';
	if (strcmp(line, "MOIN 1") == 0) {
		*ok = moin;
		snprintf(err, n, "Protocol mismatch - unexpected server response");
		return NSCANG_ERROR_PROTOCOL_MISMATCH;
	}
	if (strncmp(line, "MOIN", 4) == 0) {
		snprintf(err, n, "Protocol mismatch - bad version '%s'", strlen(line) > 5 ? line + 5 : "");
		return NSCANG_ERROR_BAD_PROTO_VERSION;
	}
	if (strncmp(line, "OKAY", 4) == 0) {
		*ok = !moin;
		snprintf(err, n, "Protocol mismatch - unexpected server response");
		return NSCANG_ERROR_PROTOCOL_MISMATCH;
	}
	if (strncmp(line, "FAIL", 4) == 0 || strncmp(line, "BAIL", 4) == 0) {
		snprintf(err, n, "%.4s: %s", line, strlen(line) > 5 ? line + 5 : "");
		return line[0] == 'F' ? NSCANG_ERROR_FAIL : NSCANG_ERROR_BAIL;
	}
	snprintf(err, n, "Protocol mismatch - unknown server response");
	return NSCANG_ERROR_UNKNOWN_RESPONSE;
}
void vp_main(void)
{
	nscang_client_t *c = calloc(1, sizeof(*c));
	char *err, *exp = malloc(1200);
	bool ok;
	int r, e;

	n_init();
	strcpy(CUR.text, "PROCESS_SERVICE_CHECK_RESULT;h;s;0;t");
	at = (int)vp_concrete(vp_upto(2));
# ifdef OVERLONG
	N.fd = 1500;
	nodd = (int)vp_concrete(vp_range(1020, 1028));
	memset(odd, 'x', nodd);
	if (vp_bool())
		memcpy(odd, "FAIL ", 5);
	r = vp_range(-1, 8);
	if (r >= 0) {
		r = (int)vp_concrete(r);
		odd[nodd - 1 - r] = '\n';
		if (r > 0) /* Nothing follows the newline. */
			nodd -= r;
	}
# else
	{
		static const char *const begin[] = { "", "OKAY", "MOIN", "FAIL", "BAIL", "MOIN 1" };
		int b = (int)vp_concrete(vp_upto(sizeof(begin) / sizeof(*begin) - 1));
		int n = (int)vp_concrete(vp_range(b == 0 ? 1 : 0, b == 0 ? LMAX : LMAX / 2));

		nodd = (int)strlen(begin[b]);
		memcpy(odd, begin[b], nodd);
		VP_BYTES(odd + nodd, n);
		nodd += n;
		switch (vp_concrete(vp_upto(2))) {
		case 1:
			odd[nodd++] = '\r';
			/* FALLTHROUGH */
		case 2:
			odd[nodd++] = '\n';
		}
		vp_assume(nodd > 0);
	}
# endif
	r = nscang_client_init(c, "h", 5668, NULL, "id", "pw");
	vp_check(r == 1, "a client can be set up");
	n_begin();
	r = nscang_client_send_push(c, "h", "s", 0, "t", TIMEOUT);
	vp_check(asked || r == 0, "every response is asked for");
	err = malloc(40);
	nscang_client_errstr(c, err, 40);
	e = oracle(exp, 1200, at == 0, &ok);
	if (N.failed != 0)
# ifndef OVERLONG
		vp_reach("connection lost");
# else
		;
# endif
	else if (e == -1) {
		/* Several lines where one was asked for: whatever is done, it is safe. */
		if (r == 1)
			vp_check(strncmp(odd, at == 0 ? "MOIN 1" : "OKAY", at == 0 ? 6 : 4) == 0, "success needs a positive response");
# ifndef OVERLONG
		vp_reach("more than one line");
# endif
	} else if (N.up && r == 0 && c->_errno == NSCANG_ERROR_TIMEOUT)
		vp_check(N.now > N.start, "only a wait that was long enough times out");
	else if (ok) {
		vp_check(r == 1 && CUR.accepted + (at == 2) == 1, "a positive response lets it succeed");
# ifndef OVERLONG
		vp_reach("accepted");
# else
		;
# endif
	} else {
		vp_check(r == 0, "anything but a positive response is an error");
		vp_check((int)c->_errno == e, "the error is told apart");
		exp[39] = '\0';
		vp_check(strcmp(err, exp) == 0, "the error carries the server's text");
		if (e == NSCANG_ERROR_BAIL || e == NSCANG_ERROR_UNKNOWN_RESPONSE)
			vp_check(c->state == NSCANG_STATE_NEW, "the session is over");
# ifdef OVERLONG
		if (e == NSCANG_ERROR_TOO_LONG_RESPONSE)
			vp_reach("too long");
		else
			vp_reach("just short enough");
# else
		switch (e) {
		case NSCANG_ERROR_BAIL: vp_reach("bail"); break;
		case NSCANG_ERROR_FAIL: vp_reach("fail"); break;
		case NSCANG_ERROR_BAD_PROTO_VERSION: vp_reach("other version"); break;
		case NSCANG_ERROR_UNKNOWN_RESPONSE: vp_reach("unknown response"); break;
		}
# endif
	}
	free(err);
	free(exp);
	nscang_client_free(c);
	free(c);
	vp_check(N.live_ssl == 0 && N.live_bio == 0 && N.live_ctx == 0, "nothing is left behind");
}
#else
static bool n_respond(struct conn *c, int what) { (void)c; (void)what; return false; }
#endif

#if MODE == 2
static SSL *callback_for(nscang_client_t *c) { return c->ssl; }
static void query(SSL *s, SSL_psk_client_cb_func f, const char *id, const char *pw)
{
	static int queries;
	unsigned ni = 4, np = 4, r, i, li, lp;
	char *bi;
	unsigned char *bp;

	if (id != NULL && queries++ == 0) {
# ifdef SIZES
		ni = (unsigned)VP_PICK(128, 129, 256, 257);
		np = (unsigned)VP_PICK(64, 256, 257, 512);
# else
		ni = (unsigned)vp_concrete(vp_size(1, TMAX + 2));
		np = (unsigned)vp_concrete(vp_size(1, TMAX + 2));
# endif
	}
	bi = malloc(ni);
	bp = malloc(np);

	memset(bi, 0x55, ni);
	memset(bp, 0x55, np);
	r = f(s, NULL, bi, ni, bp, np);
	vp_check(N.locks == 0, "the lock is released");
	if (id == NULL) {
		vp_check(r == 0, "an unknown connection gets no key");
# ifndef SIZES
		vp_reach("unknown connection");
# endif
	} else {
		li = strlen(id) < ni - 1 ? (unsigned)strlen(id) : ni - 1;
		lp = strlen(pw) < np - 1 ? (unsigned)strlen(pw) : np - 1;
		vp_check(r == lp || (r == np && strlen(pw) >= np), "the length of the key is reported");
		for (i = 0; i < r; i++)
			vp_check(bp[i] == (unsigned char)pw[i], "the key is the object's own");
		for (i = 0; i < li; i++)
			vp_check(bi[i] == id[i], "the identity is the object's own");
		vp_check(bi[li] == '\0', "the identity is terminated");
		vp_reach("own credentials");
	}
	free(bi);
	free(bp);
}
#ifdef MANY
/* Many objects, one of which is destroyed: the others keep their keys. */
void vp_main(void)
{
	static nscang_client_t *c[MANY];
	char id[8], pw[8];
	int n, i, k;
	SSL *gone;
	SSL_psk_client_cb_func f = NULL;

	n_init();
	n = (int)VP_PICK(3, 10, 11, 33, 64, MANY);
	k = (int)vp_concrete(vp_upto((unsigned long)n - 1));
	for (i = 0; i < n; i++) {
		strcpy(id, "id00");
		id[2] = (char)('0' + i / 10);
		id[3] = (char)('0' + i % 10);
		strcpy(pw, "pw00");
		pw[2] = id[2];
		pw[3] = id[3];
		c[i] = malloc(sizeof(*c[i]));
		n_begin();
		vp_check(nscang_client_init(c[i], "host", 5668, NULL, id, pw) == 1, "any number of objects can be made");
		f = c[i]->ssl->psk;
		memset(pw, 'x', 8);
	}
	gone = c[k]->ssl;
	nscang_client_free(c[k]);
	free(c[k]);
	query(gone, f, NULL, NULL);
	for (i = 0; i < n; i++) {
		if (i == k)
			continue;
		strcpy(id, "id00");
		id[2] = (char)('0' + i / 10);
		id[3] = (char)('0' + i % 10);
		strcpy(pw, "pw00");
		pw[2] = id[2];
		pw[3] = id[3];
		query(c[i]->ssl, f, id, pw);
		nscang_client_free(c[i]);
		free(c[i]);
	}
	vp_check(N.live_ssl == 0 && N.live_bio == 0 && N.live_ctx == 0, "nothing is left behind");
}
#else
void vp_main(void)
{
	static nscang_client_t *c[3];
	static char *id[3], *pw[3];
	static SSL *gone;
	SSL_psk_client_cb_func f = NULL;
	struct ssl_st other;
	int i, k, n = 0;

	n_init();
	memset(&other, 0, sizeof(other));
	for (k = 0; k < K; k++) {
		i = (int)vp_concrete(vp_upto(NOBJ - 1));
		if (c[i] == NULL) {
			/* A new object, the memory of which may hold anything. */
			int r;

			c[i] = malloc(sizeof(*c[i]));
# ifdef SIZES
			if (i == 0) {
				id[i] = vp_filled(VP_PICK(0, 31, 32, 63, 64, 127, 128, 129, 255, 256, 300));
				pw[i] = vp_filled(VP_PICK(0, 31, 32, 63, 64, 127, 128, 129, 255, 256, 511, 512));
# else
			if (i == 0) {
				id[i] = vp_string(0, TMAX);
				pw[i] = vp_string(0, TMAX);
# endif
			} else {
				id[i] = vp_string(1, 1);
				pw[i] = vp_string(3, 3);
			}
# ifdef MALLOCFAIL
			n_mallocs_fail = n_hard = true;
# endif
			n_begin();
			r = nscang_client_init(c[i], "host", 5668, vp_bool() ? "C" : NULL, id[i], pw[i]);
# ifdef MALLOCFAIL
			n_mallocs_fail = n_hard = false;
# endif
			if (r == 1) {
				f = c[i]->ssl->psk;
				vp_check(f != NULL && c[i]->ssl->connect, "the connection is prepared");
				vp_check(strcmp(c[i]->ssl->bio->host, "host") == 0 && strcmp(c[i]->ssl->bio->port, "5668") == 0, "the server is the given one");
				if (gone == c[i]->ssl)
					gone = NULL;
				n++;
				continue;
			}
			vp_check(c[i]->_errno != 0, "the failure is explained");
# if INITFAIL || defined(MALLOCFAIL)
			vp_reach("failed to set up");
# endif
			nscang_client_free(c[i]);
		} else {
			if (vp_bool()) {
				query(c[i]->ssl, f, id[i], pw[i]);
				continue;
			}
			gone = c[i]->ssl;
			nscang_client_free(c[i]);
			n--;
		}
		free(c[i]);
		c[i] = NULL;
		free(id[i]);
		free(pw[i]);
		if (f != NULL)
			query(vp_bool() && gone != NULL ? gone : &other, f, NULL, NULL);
	}
	vp_check(N.live_ssl == n, "the connections alive are those of the objects");
	for (i = 0; i < NOBJ; i++)
		if (c[i] != NULL) {
			if (f != NULL)
				query(c[i]->ssl, f, id[i], pw[i]);
			nscang_client_free(c[i]);
			free(c[i]);
			free(id[i]);
			free(pw[i]);
			c[i] = NULL;
		}
	vp_check(N.live_ssl == 0 && N.live_bio == 0 && N.live_ctx == 0, "nothing is left behind");
	vp_reach("end");
}
#endif
#endif

#ifdef WITH_NSCANG
/* ------------------------------------------------- just enough of CPython */
PyObject _Py_NoneStruct;
static PyObject n_excs[4];
PyObject *PyExc_RuntimeError = &n_excs[0], *PyExc_MemoryError = &n_excs[1], *PyExc_ValueError = &n_excs[2], *PyExc_TypeError = &n_excs[3];
static PyObject *raised;
static char raised_text[80];
static PyTypeObject *type;
int STUB(PyType_Ready)(PyTypeObject *t) { type = t; return 0; }
PyObject *STUB(PyModule_Create2)(PyModuleDef *d, int v) { (void)d; (void)v; return &n_excs[3]; }
int STUB(PyModule_AddObject)(PyObject *m, const char *n, PyObject *o) { (void)m; (void)n; (void)o; return 0; }
int STUB(PyModule_AddObjectRef)(PyObject *m, const char *n, PyObject *o) { (void)m; (void)n; (void)o; return 0; }
PyObject *PyInit_nscang(void);
void STUB(_Py_Dealloc)(PyObject *o) { (void)o; }
static void n_free(void *p) { free(p); }
PyObject *STUB(PyErr_Format)(PyObject *e, const char *f, ...)
{
	va_list ap;

	vp_check(raised == NULL, "one exception is raised");
	raised = e;
	va_start(ap, f);
	vsnprintf(raised_text, sizeof(raised_text), f, ap);
	va_end(ap);
	return NULL;
}
void STUB(PyErr_SetString)(PyObject *e, const char *s) { raised = e; strncpy(raised_text, s, sizeof(raised_text) - 1); }
PyObject *STUB(PyErr_NoMemory)(void) { raised = PyExc_MemoryError; return NULL; }
/* The arguments of the call, by position; NULL if missing.  Python's strings
 * live as long as the caller holds them: here, for the call. */
static struct { char *s; int i; bool given; } arg[6];
# undef PyArg_ParseTupleAndKeywords
int STUB(_PyArg_ParseTupleAndKeywords_SizeT)(PyObject *a, PyObject *kw, const char *fmt, char **names, ...)
{
	va_list ap;
	int n = 0;
	bool opt = false;

	(void)a; (void)kw;
	va_start(ap, names);
	for (; *fmt != '\0' && *fmt != ':'; fmt++) {
		if (*fmt == '|') {
			opt = true;
			continue;
		}
		vp_check(names[n] != NULL, "each argument has a name");
		if (!arg[n].given && !opt) {
			raised = PyExc_TypeError;
			va_end(ap);
			return 0;
		}
		switch (*fmt) {
		case 's': {
			char **p = va_arg(ap, char **);

			if (arg[n].given)
				*p = arg[n].s;
			break;
		}
		case 'I':
		case 'i': {
			int *p = va_arg(ap, int *);

			if (arg[n].given)
				*p = arg[n].i;
			break;
		}
		default:
			vp_harness(0, "a known format");
		}
		n++;
	}
	va_end(ap);
	vp_check(names[n] == NULL, "each name has an argument");
	return 1;
}
static char *copy(const char *s)
{
	char *d = malloc(strlen(s) + 1);

	strcpy(d, s);
	return d;
}
static void arg_s(int n, const char *s) { arg[n].given = s != NULL; arg[n].s = s != NULL ? copy(s) : NULL; }
static void arg_i(int n, int i) { arg[n].given = true; arg[n].i = i; arg[n].s = NULL; }
static void arg_end(void)
{
	int i;

	for (i = 0; i < 6; i++) {
		free(arg[i].s);
		arg[i].s = NULL;
		arg[i].given = false;
	}
}
static PyObject *obj_new(void)
{
	PyObject *o = calloc(1, (size_t)type->tp_basicsize); /* as PyType_GenericAlloc() does */

	o->ob_refcnt = 1;
	o->ob_type = type;
	return o;
}
static int obj_init(PyObject *o, const char *host, int port, const char *id, const char *psk, const char *ciphers)
{
	int r;

	arg_s(0, host);
	arg_i(1, port);
	arg_s(2, id);
	arg_s(3, psk);
	arg_s(4, ciphers);
	raised = NULL;
	n_begin();
	r = type->tp_init(o, NULL, NULL);
	vp_check((r == 0) == (raised == NULL) && (r == 0 || r == -1), "a failure raises an exception, a success does not");
	arg_end();
	return r;
}
static int missing = -1;        /* an argument the caller forgot */
static int obj_call(PyObject *o, const char *host, const char *service, int status, const char *text)
{
	PyMethodDef *m = type->tp_methods;
	PyObject *r;
	int n = 0;

	for (; m->ml_name != NULL && strcmp(m->ml_name, service != NULL ? "svc_result" : "host_result") != 0; m++)
		;
	vp_check(m->ml_name != NULL, "there is a method");
	arg_s(n++, host);
	if (service != NULL)
		arg_s(n++, service);
	arg_i(n++, status);
	arg_s(n++, text);
	if (missing >= 0) {
		free(arg[missing].s);
		arg[missing].s = NULL;
		arg[missing].given = false;
	}
	raised = NULL;
	n_begin();
	r = ((PyObject *(*)(PyObject *, PyObject *, PyObject *))(void (*)(void))m->ml_meth)(o, NULL, NULL);
	vp_check((r != NULL) == (raised == NULL), "a failure raises an exception, a success does not");
	vp_check(r == NULL || r == &_Py_NoneStruct, "a success returns None");
	arg_end();
	return r != NULL;
}
static void obj_free(PyObject *o)
{
	type->tp_free = n_free;
	type->tp_dealloc(o);
}
#endif

#if MODE == 0 || MODE == 3
static void expect_push(const char *host, const char *service, int status, const char *text)
{
	if (service == NULL)
		snprintf(CUR.text, sizeof(CUR.text), "PROCESS_HOST_CHECK_RESULT;%s;%d;%s", host, status, text);
	else
		snprintf(CUR.text, sizeof(CUR.text), "PROCESS_SERVICE_CHECK_RESULT;%s;%s;%d;%s", host, service, status, text);
	CUR.stamped = false;
	CUR.accepted = CUR.seen = 0;
}
#endif

#if MODE == 0
# ifdef WITH_NSCANG
static PyObject *obj;
static void start(void)
{
	vp_check(PyInit_nscang() != NULL && type != NULL, "the module is set up");
	obj = obj_new();
	vp_check(obj_init(obj, "h", 5668, "id", "pw", NULL) == 0, "an object is set up");
}
static int push(const char *h, const char *s, int status, const char *t) { return obj_call(obj, h, s, status, t); }
static void finish(void) { obj_free(obj); }
# else
static nscang_client_t *client;
static int ready;
static char err[64];
static void setup(void)
{
	n_begin();
	if (ready)
		return;
	vp_check(nscang_client_init(client, "h", 5668, NULL, "id", "pw") == 1, "a client is set up");
	ready = 1;
}
static void start(void) { client = calloc(1, sizeof(*client)); }
/* As Client.xs does it. */
static int result(int r)
{
	if (r)
		return 1;
	nscang_client_errstr(client, err, sizeof(err));
	ready = 0;
	nscang_client_free(client);
	return 0;
}
static int push(const char *h, const char *s, int status, const char *t)
{
	int r;

	setup();
	r = nscang_client_send_push(client, (char *)h, (char *)s, status, (char *)t, TIMEOUT);
	if (!r && client->_errno == NSCANG_ERROR_TIMEOUT) {
		nscang_client_disconnect(client);
		r = nscang_client_send_push(client, (char *)h, (char *)s, status, (char *)t, TIMEOUT);
	}
	return result(r);
}
static int command(const char *t)
{
	int r;

	setup();
	r = nscang_client_send_command(client, t, TIMEOUT);
	if (!r && client->_errno == NSCANG_ERROR_TIMEOUT)
		nscang_client_disconnect(client);
	return result(r);
}
static void finish(void)
{
	nscang_client_free(client);
	free(client);
}
# endif
static char *text(int call, bool any)
{
# ifdef LONGTEXT
	/* Texts of many lengths, so that the whole has around 1024 bytes. */
	int n = (int)vp_concrete(vp_range(LONGTEXT, LONGTEXT + 40));
	char *s = malloc(n + 1);

	(void)call; (void)any;
	memset(s, 'x', n);
	s[n] = '\0';
	if (vp_bool())
		s[n - 1] = '\n';
	return s;
# else
	char *s = vp_string(any ? 0 : 1, any ? TMAX : 1);

	s = realloc(s, strlen(s) + 2);
	memmove(s + 1, s, strlen(s) + 1);
	s[0] = (char)('a' + call);
	return s;
# endif
}
void vp_main(void)
{
	static const int statuses[] = { 0, 3, -1, 2147483647 };
	int k, r;

	bool texts = K == 1 && vp_bool();

	n_init();
	if (texts) { /* What is sent varies: not how it arrives. */
		N.faults = N.waits = N.cuts = N.odd = 0;
		N.fd = 1500;
		N.random = 2147483647L;
	}
	start();
	for (k = 0; k < K; k++) {
		char *t, *h, *s;
		int odd = N.odd;

		N.up = 0;
		t = text(k, texts);

# ifndef WITH_NSCANG
		if (vp_bool()) { /* a whole command */
			bool bad = false;

#  ifdef LONGTEXT
			if (vp_bool())
				memcpy(t, "[123] ", 6);
#  else
			if (vp_bool()) {
				t[0] = '[';
				if (vp_bool()) {
					t = realloc(t, strlen(t) + 4);
					memmove(t + 4, t + 1, strlen(t));
					memcpy(t + 1, "12]", 3);
				}
			}
#  endif
			strcpy(CUR.text, t);
			CUR.stamped = t[0] == '[';
			CUR.accepted = CUR.seen = 0;
			if (t[0] == '[') {
				int i = 1;

				while (t[i] >= '0' && t[i] <= '9')
					i++;
				bad = i == 1 || t[i] != ']';
			}
#  ifdef LONGTEXT
			if (strlen(t) > 1000)
				vp_reach("long command");
#  endif
			errno = vp_bool() ? ENOENT : 0;
			r = command(t);
			if (bad) {
				vp_check(r == 0 && CUR.seen == 0, "a malformed timestamp is refused");
#  if !defined(LONGTEXT) && K == 1
				vp_reach("malformed timestamp");
#  endif
			} else if (N.failed == 0 && N.odd == odd && !N.up)
				vp_check(r == 1 && CUR.accepted, "a command is submitted");
			goto done;
		}
# endif
		h = "localhost";
		s = (char *)(vp_bool() ? "s" : NULL);
		r = texts ? (int)vp_concrete(vp_upto(3)) : 0;
		expect_push(h, s, statuses[r], t);
		r = push(h, s, statuses[r], t);
		if (N.failed == 0 && N.odd == odd && !N.up)
			vp_check(r == 1 && CUR.accepted, "a check result is submitted");
done:
		if (r)
			vp_check(CUR.accepted, "success is only reported if the server acknowledged it");
		if (r)
			vp_reach("success");
# ifndef LONGTEXT
		else
			vp_reach("failure");
# endif
		free(t);
	}
	finish();
	vp_check(N.live_ssl == 0 && N.live_bio == 0 && N.live_ctx == 0, "nothing is left behind");
}
#endif

#if MODE == 3
/* What CPython does for obj.host and obj.port. */
static char *member(PyObject *o, const char *name)
{
	PyMemberDef *m = type->tp_members;

	for (; m->name != NULL && strcmp(m->name, name) != 0; m++)
		;
	vp_check(m->name != NULL, "there is such an attribute");
	vp_check(m->flags & READONLY, "attributes can't be set");
	vp_check(m->offset >= (Py_ssize_t)sizeof(PyObject) && m->offset + 4 <= type->tp_basicsize, "the attribute lies within the object");
	return (char *)o + m->offset;
}
void vp_main(void)
{
	static const char *const hosts[] = { "h", "other" };
	PyObject *o;
	const char *psk;
	int k, up = 0, which = 0, w, r;

	n_init();
	vp_check(PyInit_nscang() != NULL && type != NULL, "the module is set up");
	o = obj_new();
	for (k = 0; k < K; k++)
		switch (vp_concrete(vp_upto(3))) {
		case 0:
			w = (int)vp_concrete(vp_upto(1));
			psk = vp_bool() ? "pw" : NULL;
			n_mallocs_fail = true;
			r = obj_init(o, hosts[w], 5000 + w, "id", psk, k == 0 ? "C" : NULL);
			n_mallocs_fail = false;
			if (r == 0) {
				up = 1;
				which = w;
				vp_check(N.live_ssl == 1, "an object has one connection");
				vp_reach("set up");
				if (k > 0)
					vp_reach("set up again");
			} else {
				up = raised == PyExc_TypeError ? up : 0;
				vp_reach("not set up");
			}
			break;
		case 1: {
			char *h = *(char **)(void *)member(o, "host");

			if (up) {
				vp_check(h != NULL && strcmp(h, hosts[which]) == 0, "the host is the given one");
				vp_reach("attributes");
			} else if (h != NULL)
				vp_check(strlen(h) < 10, "the host is a string");
			if (up)
				vp_check(*(int *)(void *)member(o, "port") == 5000 + which, "the port is the given one");
			break;
		}
		default: {
			const char *s = vp_bool() ? "s" : NULL;

			expect_push("h", s, 1, "t");
			if (vp_bool()) {
				missing = vp_bool() ? s != NULL : 0;
				r = obj_call(o, "h", s, 1, "t");
				missing = -1;
				vp_check(!r && raised == PyExc_TypeError && CUR.seen == 0, "a call without a required argument submits nothing");
				vp_reach("missing argument");
				break;
			}
			r = obj_call(o, "h", s, 1, "t");
			if (!up) {
				vp_check(!r && CUR.seen == 0, "an object that was not set up submits nothing");
				vp_reach("unusable");
			} else if (N.odd == ODD) {
				vp_check(r && CUR.accepted, "the result is submitted");
				vp_reach("submitted");
			} else if (r)
				vp_check(CUR.accepted, "success is only reported if the server acknowledged it");
		}
		}
	obj_free(o);
	vp_check(N.live_ssl == 0 && N.live_bio == 0 && N.live_ctx == 0, "nothing is left behind");
	vp_reach("end");
}
#endif
