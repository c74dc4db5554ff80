/*
 * S15: pidfile.c and flopen.c on a small file system which other processes
 * change (remove, replace, lock, unlock, write) between any two system calls,
 * with every system call failing at will.
 */
#include <config.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/file.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include "vp.h"
#include "libutil.h"
#ifdef OOM
# include "h_oom.h"             /* R01: one allocation fails */
OOM_FUNCTIONS(n, 's')
#endif

#ifndef EVENTS
# define EVENTS 2       /* things other processes do */
#endif
#ifndef FAULTS
# define FAULTS 1       /* system calls that fail for no reason */
#endif
#ifndef CMAX
# define CMAX 3         /* size of the other server's PID file */
#endif
#ifndef PIDMAX
# define PIDMAX 99
#endif
#define NF 4
#define NFD 6
enum { NOBODY, ME, OTHER };
static struct { bool used; int lock; size_t len; char data[24]; bool mine; } file[NF];
static int fd_file[NFD];        /* -1: closed */
static int path_file = -1, events = EVENTS, faults = FAULTS, opens;
static int verified = -1;       /* what the path named when it was last looked at */
static bool replaced;           /* the path was changed by others after that */
static bool interfere = true;
static int naps;
static const char *the_path;

static int new_file(int lock)
{
	int i;

	for (i = 0; i < NF; i++)
		if (!file[i].used) {
			file[i].used = true;
			file[i].lock = lock;
			file[i].len = 0;
			return i;
		}
	vp_harness(0, "enough files");
	return -1;
}
static void fill(int f)
{
	size_t i;

	file[f].len = vp_concrete(vp_size(0, CMAX));
	for (i = 0; i < file[f].len; i++)
		file[f].data[i] = (char)vp_nz();
}
/* Other processes. */
static void others(void)
{
	if (!interfere || events == 0 || !vp_concrete(vp_bool()))
		return;
	events--;
	switch (vp_concrete(vp_upto(3))) {
	case 0:
		path_file = -1;
		replaced = true;
#if defined(OPENING) && EVENTS > 0
		vp_reach("removed by others");
#endif
		break;
	case 1:
		path_file = new_file(vp_concrete(vp_bool()) ? OTHER : NOBODY);
		fill(path_file);
		replaced = true;
#if defined(OPENING) && EVENTS > 0
		vp_reach("replaced by others");
#endif
		break;
	case 2:
		if (path_file >= 0 && file[path_file].lock == NOBODY)
			file[path_file].lock = OTHER;
		else if (path_file >= 0 && file[path_file].lock == OTHER)
			file[path_file].lock = NOBODY;
		break;
	default:
		if (path_file >= 0 && file[path_file].lock == OTHER)
			fill(path_file);
		break;
	}
}
static bool fault(int e)
{
	if (faults == 0 || !vp_concrete(vp_bool()))
		return false;
	faults--;
	errno = e;
	return true;
}
static int f_of(int fd)
{
	vp_check(fd >= 0 && fd < NFD && fd_file[fd] >= 0, "only open descriptors are used");
	return fd_file[fd];
}
int STUB(open)(const char *p, int fl, ...)
{
	int fd;

	vp_check(strcmp(p, the_path) == 0, "the configured path is opened");
	others();
	opens++;
	vp_check(!(fl & O_TRUNC), "the file isn't truncated before it is locked");
	if (fault(EACCES))
		return -1;
	if (path_file == -1) {
		va_list ap;

		if (!(fl & O_CREAT)) {
			errno = ENOENT;
			return -1;
		}
		va_start(ap, fl);
		vp_check(va_arg(ap, int) == 0600, "the file is created with the requested mode");
		va_end(ap);
		path_file = new_file(NOBODY);
	}
	for (fd = 0; fd < NFD && fd_file[fd] >= 0; fd++)
		;
	vp_harness(fd < NFD, "enough descriptors");
	fd_file[fd] = path_file;
	return fd;
}
int STUB(flock)(int fd, int op)
{
	int f = f_of(fd);

	others();
	vp_check(op == (LOCK_EX | LOCK_NB), "an exclusive lock is requested without blocking");
	if (fault(EINTR))
		return -1;
	if (file[f].lock != NOBODY) {
		errno = EWOULDBLOCK;
		return -1;
	}
	file[f].lock = ME;
	return 0;
}
static void describe(int f, struct stat *sb)
{
	memset(sb, 0, sizeof(*sb));
	sb->st_mode = S_IFREG | 0600;
	sb->st_dev = f / 2; /* files may share either of the two numbers */
	sb->st_ino = 10 + f % 2;
}
int STUB(stat)(const char * restrict p, struct stat * restrict sb)
{
	vp_check(strcmp(p, the_path) == 0, "the configured path is examined");
	others();
	if (path_file == -1) {
		errno = ENOENT;
		return -1;
	}
	replaced = false;
	verified = path_file;
	describe(path_file, sb);
	return 0;
}
int STUB(fstat)(int fd, struct stat *sb)
{
	int f = f_of(fd);

	others();
	if (fault(EIO))
		return -1;
	describe(f, sb);
	return 0;
}
static void modify(int f)
{
	vp_check(file[f].lock == ME, "only the locked file is modified");
}
int STUB(ftruncate)(int fd, off_t n)
{
	int f = f_of(fd);

	others();
	modify(f);
	if (fault(EIO))
		return -1;
	vp_check(n == 0, "the file is emptied");
	file[f].len = 0;
	return 0;
}
ssize_t STUB(pwrite)(int fd, const void *b, size_t n, off_t o)
{
	int f = f_of(fd);
	size_t i;

	others();
	modify(f);
	if (fault(ENOSPC))
		return -1;
	vp_check((size_t)o + n <= sizeof(file[f].data), "the PID is short");
	if (faults > 0 && n > 1 && vp_concrete(vp_bool())) {
		faults--;
		n--;
	}
	for (i = 0; i < n; i++)
		file[f].data[(size_t)o + i] = ((const char *)b)[i];
	if ((size_t)o + n > file[f].len)
		file[f].len = (size_t)o + n;
	return (ssize_t)n;
}
ssize_t STUB(write)(int fd, const void *b, size_t n) { return STUB(pwrite)(fd, b, n, (off_t)file[f_of(fd)].len); }
static size_t read_len;
static char read_data[24];
ssize_t STUB(read)(int fd, void *b, size_t n)
{
	int f = f_of(fd);

	others();
	if (fault(EIO))
		return -1;
	vp_check(n > 0 && n < 24, "a limited number of bytes is read");
	read_len = file[f].len < n ? file[f].len : n;
	memcpy(b, file[f].data, read_len);
	memcpy(read_data, file[f].data, read_len);
	return (ssize_t)read_len;
}
int STUB(close)(int fd)
{
	int f = f_of(fd), i, same = 0;

	for (i = 0; i < NFD; i++)
		same += fd_file[i] == f;
	if (file[f].lock == ME && (same == 1 || !file[f].mine))
		file[f].lock = NOBODY;
	fd_file[fd] = -1;
	return fault(EIO) ? -1 : 0;
}
int STUB(unlink)(const char *p)
{
	vp_check(strcmp(p, the_path) == 0, "the configured path is removed");
	if (!replaced)
		vp_check(path_file >= 0 && file[path_file].lock == ME, "only the locked file is removed");
	if (fault(EPERM))
		return -1;
	path_file = -1;
	return 0;
}
int STUB(nanosleep)(const struct timespec *a, struct timespec *b)
{
	(void)b;
	vp_check(a->tv_sec == 0, "retries are quick");
	naps++;
	others();
	return 0;
}
static pid_t pid;
pid_t STUB(getpid)(void) { return pid; }

static int open_fds(void)
{
	int i, n = 0;

	for (i = 0; i < NFD; i++)
		n += fd_file[i] >= 0;
	return n;
}
/* The decimal number the other server's file consists of, or -1. */
static long number(void)
{
	size_t i;
	long v = 0;

	if (read_len == 0)
		return -1;
	for (i = 0; i < read_len; i++) {
		if (read_data[i] < '0' || read_data[i] > '9')
			return -1;
		v = v * 10 + (read_data[i] - '0');
	}
	return v;
}

void vp_main(void)
{
	struct pidfh *h;
	pid_t other = -77;
	int f;
#ifndef LONG_PATH
	int e;
#endif

	for (f = 0; f < NFD; f++)
		fd_file[f] = -1;
#ifdef LONG_PATH
	(void)open_fds;
	(void)number;
	{
		size_t n = (size_t)vp_concrete(vp_size(253, 259)) + (vp_concrete(vp_bool()) ? 3840 : 0);
		char *p = malloc(n + 1);

		memset(p, 'p', n);
		p[n] = '\0';
		the_path = p;
		h = pidfile_open(p, 0600, &other);
		if (n <= 255)
			vp_check(h != NULL, "a path of usual length can be used");
		if (h == NULL) {
			vp_check(errno == ENAMETOOLONG, "a path that is too long is refused");
			vp_check(opens == 0, "a path that is too long isn't used in part");
			vp_reach("too long");
			free(p);
			return;
		}
		vp_reach("long path");
		pid = 1;
		vp_check(pidfile_write(h) == 0, "the file is written");
		vp_check(pidfile_remove(h) == 0, "the file is removed");
		free(p);
	}
#else
	the_path = "/run/x.pid";
	if (vp_concrete(vp_bool())) {
		path_file = new_file(vp_concrete(vp_bool()) ? OTHER : NOBODY);
		fill(path_file);
	}
#ifndef OPENING
	interfere = false;
	faults = 0;
#endif
	errno = 0;
	h = pidfile_open(the_path, 0600, &other);
	e = errno;
	if (h == NULL) {
		vp_check(open_fds() == 0, "a failed attempt leaves no descriptor behind");
		for (f = 0; f < NF; f++)
			vp_check(file[f].lock != ME, "a failed attempt leaves no lock behind");
		vp_check(e != 0, "the reason of a failure is reported");
#ifdef OOM
		if (oom_seen) {
			vp_check(e == ENOMEM && opens == 0, "running out of memory is reported");
			vp_reach("out of memory");
			return;
		}
#endif
		if (e == EEXIST) {
			if (read_len > 0)
				vp_check(number() < 0 || other == number(), "the running server's PID is reported");
			else
				vp_check(other == -1, "an unknown PID is reported as such");
			if (number() > 0)
				vp_reach("another server");
#if defined(OPENING) && EVENTS > 0
			if (naps > 0 && read_len > 0)
				vp_reach("the PID is awaited");
#endif
		} else
			vp_check((number() < 0 && read_len > 0) || faults < FAULTS || events < EVENTS, "a running server is recognised");
		return;
	}
	for (f = 0; f < NFD && fd_file[f] < 0; f++)
		;
	vp_check(open_fds() == 1, "a successful attempt holds one descriptor");
	f = fd_file[f];
	vp_check(file[f].lock == ME, "the file is locked");
	vp_check(f == verified, "the locked file is the one the path named when it was verified");
	vp_check(file[f].len == 0, "the previous PID is gone");
	vp_check(pidfile_fileno(h) >= 0 && fd_file[pidfile_fileno(h)] == f, "the descriptor is known");
	file[f].mine = true;
#ifdef OPENING
	vp_reach("locked");
	interfere = false;
	faults = 0;
	vp_check(pidfile_close(h) == 0, "the file can be released");
	vp_check(open_fds() == 0, "the descriptor is released");
#else
	{
		int k, r, other_file = -1, o_fd = -1, w = 0;
		char want[16];
		size_t i, n;
		bool reused = vp_concrete(vp_bool());

		pid = vp_range(1, PIDMAX);
		n = (size_t)snprintf(want, sizeof(want), "%d", (int)pid);
		faults = FAULTS;
		if (reused) { /* The descriptor is closed behind our back and used for something else. */
			o_fd = pidfile_fileno(h);
			if (vp_concrete(vp_bool()))
				(void)new_file(NOBODY); /* The next one shares the other number. */
			other_file = new_file(ME);
			fill(other_file);
			n = file[other_file].len;
			memcpy(want, file[other_file].data, n);
			fd_file[o_fd] = other_file;
		}
		for (k = 0; k < 2; k++) {
			bool before = faults < FAULTS;

			r = pidfile_write(h);
			if (reused) {
				vp_check(r == -1, "writing to a foreign descriptor is refused");
				vp_check(file[other_file].len == n && memcmp(file[other_file].data, want, n) == 0, "a foreign file is not modified");
				vp_check(fd_file[o_fd] == other_file, "a foreign descriptor is not closed");
				vp_reach("foreign descriptor");
				continue;
			}
			if (r == 0) {
				w++;
				vp_check(file[f].len == n, "the file consists of the PID");
				for (i = 0; i < n; i++)
					vp_check(file[f].data[i] == want[i], "the file consists of the PID");
				vp_reach("written");
				/* Another PID the next time. */
				pid = vp_range(1, 99);
				n = (size_t)snprintf(want, sizeof(want), "%d", (int)pid);
			} else {
				vp_check(faults < FAULTS || before, "writing only fails if a system call failed");
				vp_reach("not written");
			}
		}
		r = pidfile_remove(h);
		if (reused) {
			vp_check(r == -1 && path_file == f, "with a foreign descriptor nothing is removed");
			vp_check(fd_file[o_fd] == other_file, "a foreign descriptor is not closed");
			free(h);
			return;
		}
		if (r == 0) {
			vp_check(path_file == -1 && open_fds() == 0, "the file is removed and closed");
			vp_reach("removed");
		} else {
			vp_check(faults < FAULTS, "removing only fails if a system call failed");
			if (open_fds() > 0 || path_file >= 0)
				vp_reach("not removed");
			vp_stop();
		}
	}
#endif
#endif
}
