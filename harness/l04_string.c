/*
 * L04: the bundled strcasecmp(), strncasecmp(), strdup(), progname functions
 * and daemon(), compiled under other names.
 */
#include <config.h>
#include <sys/types.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/file.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "vp.h"

#ifndef SMAX
# define SMAX 4
#endif
int rpl_strcasecmp(const char *, const char *);
int rpl_strncasecmp(const char *, const char *, size_t);
char *rpl_strdup(const char *);
const char *rpl_getprogname(void);
void rpl_setprogname(const char *);
int rpl_daemon(int, int);

/* As the C standard has it: anything but an unsigned char or EOF is undefined. */
int STUB(tolower)(int c)
{
	vp_check(c >= -1 && c <= 255, "tolower() is given a character");
	return c >= 'A' && c <= 'Z' ? c + 32 : c;
}
int STUB(toupper)(int c)
{
	vp_check(c >= -1 && c <= 255, "toupper() is given a character");
	return c >= 'a' && c <= 'z' ? c - 32 : c;
}
static int low(char c) { unsigned char u = (unsigned char)c; return u >= 'A' && u <= 'Z' ? u + 32 : u; }
static int ref(const char *a, const char *b, size_t n)
{
	size_t i;

	for (i = 0; i < n; i++) {
		if (low(a[i]) != low(b[i]))
			return low(a[i]) - low(b[i]);
		if (a[i] == '\0')
			return 0;
	}
	return 0;
}
static int sign(int x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }

#if OP == 3
static int forks, outcome[2], opened = -1, dups, closed, dirs, sid;
static bool null_fails;
pid_t STUB(fork)(void)
{
	vp_check(forks < 2, "two forks");
	vp_check(forks == 0 || sid == 1, "the second fork follows the new session");
	outcome[forks] = (int)vp_concrete(vp_upto(2)) - 1;
	return outcome[forks++];
}
pid_t STUB(setsid)(void)
{
	vp_check(forks == 1 && outcome[0] == 0, "the child starts the session");
	if (vp_concrete(vp_bool())) {
		sid = -1;
		return -1;
	}
	sid = 1;
	return 5;
}
void STUB(_exit)(int c)
{
	vp_check(c == 0 && forks > 0 && outcome[forks - 1] > 0, "the parents end successfully");
	vp_reach("parent");
	vp_stop();
}
int STUB(chdir)(const char *p) { vp_check(strcmp(p, "/") == 0, "the root directory is entered"); dirs++; return 0; }
int STUB(open)(const char *p, int fl, ...)
{
	vp_check(strcmp(p, "/dev/null") == 0 && (fl & O_ACCMODE) == O_RDWR, "the null device is opened for reading and writing");
	vp_check(forks == 2, "only the daemon gives up its descriptors");
	null_fails = vp_concrete(vp_bool());
	return null_fails ? -1 : (opened = (int)vp_concrete(vp_upto(4)));
}
int STUB(dup2)(int a, int b) { vp_check(a == opened && b >= 0 && b <= 2, "the standard descriptors are redirected"); dups |= 1 << b; return b; }
int STUB(close)(int fd) { vp_check(fd == opened && fd > 2 && dups == 7, "the spare descriptor is closed"); closed++; return 0; }
#endif
#if OP == 4
int flock(int, int);            /* (renamed, too) */
static int l_fd, l_op, l_calls, l_result, l_error;
int STUB(fcntl)(int fd, int cmd, ...)
{
	struct flock *l;
	va_list ap;

	va_start(ap, cmd);
	l = va_arg(ap, struct flock *);
	va_end(ap);
	l_calls++;
	vp_check(fd == l_fd, "the given descriptor is locked");
	vp_check(cmd == ((l_op & LOCK_NB) ? F_SETLK : F_SETLKW), "only LOCK_NB doesn't wait");
	vp_check(l->l_type == ((l_op & LOCK_EX) ? F_WRLCK : (l_op & LOCK_SH) ? F_RDLCK : F_UNLCK), "the lock is of the requested kind");
	vp_check(l->l_whence == SEEK_SET && l->l_start == 0 && l->l_len == 0, "the whole file is locked");
	if (l_result == -1)
		errno = l_error;
	return l_result;
}
#endif

void vp_main(void)
{
#if OP == 0
	char *a = vp_string(0, SMAX), *b = vp_string(0, SMAX);
	int r = rpl_strcasecmp(a, b), q = ref(a, b, SMAX + 1);

	vp_check((r == 0) == (q == 0), "strings are equal exactly if they only differ in case");
	vp_check(sign(r) == sign(q), "different strings are ordered like unsigned lower-case characters");
	if (q == 0)
		vp_reach("equal");
	if (q > 0)
		vp_reach("greater");
	free(a);
	free(b);
#elif OP == 1
	char *a = vp_string(0, SMAX), *b = vp_string(0, SMAX);
	size_t n = vp_concrete(vp_bool()) ? (size_t)vp_concrete(vp_upto(SMAX + 2)) : vp_u64() | 16;
	int r, q;

	if (n < SMAX) {
		/* Nothing behind the limit may be looked at. */
		char *x = malloc(n + 1), *y = malloc(n + 1);
		size_t i;

		for (i = 0; i < n; i++) {
			x[i] = (char)vp_nz();
			y[i] = (char)vp_nz();
		}
		free(a);
		free(b);
		a = malloc(n + (n == 0));
		b = malloc(n + (n == 0));
		memcpy(a, x, n);
		memcpy(b, y, n);
		free(x);
		free(y);
		vp_reach("unterminated");
	}
	r = rpl_strncasecmp(a, b, n);
	q = ref(a, b, n > 16 ? 16 : n);
	vp_check((r == 0) == (q == 0), "strings are equal exactly if they only differ in case");
	vp_check(sign(r) == sign(q), "different strings are ordered like unsigned lower-case characters");
	if (q == 0)
		vp_reach("equal");
	if (q > 0)
		vp_reach("greater");
	free(a);
	free(b);
#elif OP == 2
	char *a = vp_string(0, SMAX), *c = vp_string(0, 0), *d;
	size_t i, base;

	free(c);
	d = rpl_strdup(a);
	vp_check(d != NULL && d != a, "a new string is returned");
	for (i = 0; a[i] != '\0'; i++)
		vp_check(d[i] == a[i], "the copy equals the string");
	vp_check(d[i] == '\0', "the copy ends where the string ends");
	rpl_setprogname(a);
	for (i = base = 0; a[i] != '\0'; i++)
		if (a[i] == '/')
			base = i + 1;
	if (base > 0)
		vp_reach("path");
	vp_check(rpl_getprogname() == a + base, "the program's name is what follows the last slash");
	free(d);
	free(a);
#elif OP == 3
	int nochdir = (int)vp_concrete(vp_upto(2)), noclose = (int)vp_concrete(vp_upto(2)), r;

	r = rpl_daemon(nochdir, noclose);
	if (r == 0) {
		vp_check(forks == 2 && outcome[0] == 0 && outcome[1] == 0 && sid == 1, "the daemon is the grandchild in a new session");
		vp_check((dirs > 0) == !nochdir, "the directory is changed as requested");
		vp_check((opened >= 0 || null_fails) == !noclose, "the descriptors are redirected as requested");
		vp_check(opened < 0 || dups == 7, "all standard descriptors are redirected");
		vp_check(opened < 3 || closed == 1, "no descriptor is left behind");
		vp_reach("daemon");
	} else {
		vp_check(r == -1 && (sid == -1 || (forks > 0 && outcome[forks - 1] == -1)), "failure is reported if something failed");
		vp_check(opened == -1 && dirs == 0, "nothing else is done after a failure");
		vp_reach("failed");
	}
#elif OP == 4
	int op = (int)vp_u32(), kind = op & (LOCK_EX | LOCK_SH | LOCK_UN), r;

	l_fd = (int)vp_u32();
	l_op = op;
	l_result = -(int)vp_upto(1);
	l_error = (int)vp_range(1, 133);
	errno = 0;
	r = flock(l_fd, op);
	if (kind != LOCK_EX && kind != LOCK_SH && kind != LOCK_UN) {
		vp_check(r == -1 && errno == EINVAL && l_calls == 0, "anything else is refused");
		vp_reach("refused");
		return;
	}
	vp_check(l_calls == 1, "a lock is requested once");
	vp_check(r == l_result, "the result is reported");
	if (r == -1) {
		vp_check(errno == l_error, "the reason is reported");
		vp_reach("not locked");
	} else
		vp_reach("locked");
#endif
}
