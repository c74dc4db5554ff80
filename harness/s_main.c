/*
 * The server program from its command line to its end: the real main() and
 * configuration code; everything that touches the system is a stand-in that
 * records what it was asked to do.
 *   MODE 13  privileges (S13)
 *   MODE 14  options and settings (S14)
 *   MODE 16  signals, restart and exit (S16)
 *   MODE 9   passwords in memory (C09)
 */
#include <config.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <errno.h>
#include <ftw.h>
#include <grp.h>
#include <libutil.h>
#include <pwd.h>
#include <regex.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <systemd/sd-daemon.h>
#include "vp.h"
#include "h_prog.h"
#include "mini_confuse.h"
#include "auth.h"
#include "log.h"
#include "server.h"

int vp_prog_main(int, char **);
#ifdef OOM
# include "h_oom.h"             /* R01: one allocation fails */
OOM_FUNCTIONS(n, 's')
#endif

/* ------------------------------------------------------------ what happened */
static struct {
	int parsed, groups, rooted, cwd, gid, uid, pid_open, started, daemon, pid_written, ran, stopped, removed, freed, closed, ready, alive, execed;
	int failed;             /* a step that must end the program */
	int warned;             /* a failure that need not */
	int loop_forked;
} W;
static bool any_fail;           /* system calls may fail */
static bool fails(void)
{
#ifdef OOM
	return false;
#endif
	if (!any_fail || W.failed || W.warned || !vp_bool())
		return false;
	errno = EPERM;
	return true;
}
static bool fatal(void)
{
	bool f = fails();

	W.failed |= f;
	return f;
}
/* The program goes on: nothing that must end it has happened. */
static void proceed(void)
{
#ifdef OOM
	vp_check(!oom_seen, "without memory the program doesn't go on");
#endif
	vp_check(!W.failed, "after a failed step the program doesn't go on");
}

/* ------------------------------------------------------------------ logging */
int log_level = LOG_LEVEL_DEBUG;
static int l_level = -1, l_target = -1;
void log_set(int level, int target)
{
	vp_check(!W.closed, "the log is open");
	if (level != -1)
		log_level = l_level = level;
	if (target != -1)
		l_target = target;
}
void log_close(void)
{
	vp_check(!W.closed, "the log is closed once");
	W.closed = 1;
}
void vlog(int level, const char *fmt, va_list ap)
{
	char buf[300], f[300];
	size_t i;

	(void)level;
	vp_check(!W.closed, "the log is open");
	if (strstr(fmt, "%.1f") != NULL)
		return;
	for (i = 0; i < sizeof(f) - 1 && fmt[i] != '\0'; i++)
		f[i] = i > 0 && fmt[i - 1] == '%' && fmt[i] == 'm' ? '%' : fmt[i]; /* ("%m" ends up as "%%") */
	f[i] = '\0';
	vsnprintf(buf, sizeof(buf), f, ap); /* (touches the arguments) */
}

/* -------------------------------------------------------------- environment */
static int activated;
static const char *watchdog;
int STUB(sd_listen_fds)(int unset) { vp_check(unset == 0, "the environment is kept for a restart"); return activated; }
int STUB(sd_notify)(int unset, const char *s)
{
	vp_check(unset == 0, "the environment is kept for a restart");
	if (strcmp(s, "READY=1") == 0) {
		vp_check(W.started && !W.ready, "readiness is announced once, when the server was started");
		W.ready = 1;
	} else if (strcmp(s, "WATCHDOG=1") == 0)
		W.alive++;
	return 1;
}
char *STUB(getenv)(const char *n) { return strcmp(n, "WATCHDOG_USEC") == 0 ? (char *)watchdog : NULL; }
void STUB(closefrom)(int fd) { vp_check(fd == 3 && !activated, "inherited descriptors are closed, except for those of a socket activation"); }
static char *const *x_argv;
int STUB(puts)(const char *s) { (void)s; return 1; }
static int usage_on;
int STUB(fprintf)(FILE * restrict f, const char * restrict fmt, ...) { (void)fmt; usage_on = f == stdout ? 1 : 2; return 1; }

/* -------------------------------------------------------- the configuration */
static const char *x_conf = "/usr/local/etc/nsca-ng.cfg";
int STUB(stat)(const char * restrict p, struct stat * restrict sb)
{
	vp_check(strcmp(p, x_conf) == 0, "the configuration is the given or the default one");
	memset(sb, 0, sizeof(*sb));
	sb->st_mode = S_IFREG | 0644;
	return 0;
}
int STUB(nftw)(const char *p, int (*f)(const char *, const struct stat *, int, struct FTW *), int n, int fl) { (void)p; (void)f; (void)n; (void)fl; return -1; }
int STUB(cfg_include)(cfg_t *c, cfg_opt_t *o, int n, const char **v) { (void)c; (void)o; (void)n; (void)v; return 0; }
int STUB(cfg_parse_buf)(cfg_t *c, const char *b) { (void)c; (void)b; return 1; }
int STUB(regcomp)(regex_t * restrict re, const char * restrict pat, int flags) { (void)re; (void)pat; (void)flags; return 0; }
size_t STUB(regerror)(int e, const regex_t * restrict re, char * restrict buf, size_t n) { (void)e; (void)re; strncpy(buf, "bad", n); return 4; }
void STUB(regfree)(regex_t *re) { (void)re; }
static void configure(cfg_t *c);
static int conf_bad;            /* the configuration is to be refused */
static int h_set(int r) { if (r != CFG_SUCCESS) conf_bad = 2; return r; }
static int h_parse(cfg_t *c, const char *file)
{
	vp_check(strcmp(file, x_conf) == 0, "the configuration is the given or the default one");
	W.parsed = 1;
	configure(c);
	return conf_bad == 2 ? CFG_PARSE_ERROR : CFG_SUCCESS;
}

/* --------------------------------------------------------------- privileges */
static const char *x_user, *x_root;
static struct passwd pw;
static void remember_all(void);
struct passwd *STUB(getpwnam)(const char *n)
{
	remember_all();
	proceed();
	vp_check(x_user != NULL && strcmp(n, x_user) == 0, "the configured user is looked up");
	if (any_fail && !W.failed && vp_bool()) {
		W.failed = 1;
		if (vp_bool())
			errno = EIO;
		return NULL;
	}
	pw.pw_name = (char *)x_user;
	pw.pw_dir = "/home/u";
	return &pw;
}
int STUB(initgroups)(const char *n, gid_t g)
{
	proceed();
	vp_check(x_user != NULL && strcmp(n, x_user) == 0 && g == pw.pw_gid, "the groups are those of the configured user");
	vp_check(!W.gid && !W.uid && !W.rooted, "the groups are set before the root directory, group and user are changed");
	if (fatal())
		return -1;
	W.groups = 1;
	return 0;
}
int STUB(chroot)(const char *p)
{
	proceed();
	vp_check(x_root != NULL && strcmp(p, x_root) == 0 && !W.rooted, "the root directory is the configured one");
	vp_check((x_user == NULL || W.groups) && !W.gid && !W.uid, "the root directory is changed after the groups and before group and user");
	if (fatal())
		return -1;
	W.rooted = 1;
	return 0;
}
int STUB(chdir)(const char *p)
{
	proceed();
	vp_check(!W.rooted || strcmp(p, "/") == 0, "the working directory is the new root");
	vp_check(!W.gid && !W.uid, "the working directory is changed before group and user");
	if (fatal())
		return -1;
	if (W.rooted)
		W.cwd = 1;
	return 0;
}
int STUB(setgid)(gid_t g)
{
	proceed();
	vp_check(x_user != NULL && g == pw.pw_gid, "the group is that of the configured user");
	vp_check(W.groups && !W.uid && (x_root == NULL || W.cwd), "the group is set after groups and directories and before the user");
	if (fatal())
		return -1;
	W.gid = 1;
	return 0;
}
int STUB(setuid)(uid_t u)
{
	proceed();
	vp_check(x_user != NULL && u == pw.pw_uid, "the user is the configured one");
	vp_check(W.gid, "the user is set last");
	if (fatal())
		return -1;
	W.uid = 1;
	return 0;
}
static void dropped(void)
{
	proceed();
	vp_check(x_user == NULL || (W.groups && W.gid && W.uid), "the privileges were dropped completely");
	vp_check(x_root == NULL || (W.rooted && W.cwd), "the root directory was changed");
}

/* ------------------------------------------------------------------ startup */
static const char *x_temp = "/tmp", *x_pid, *x_cmd = "/usr/local/var/nagios/rw/nagios.cmd", *x_ciphers = "PSK-AES256-CBC-SHA:PSK-AES128-CBC-SHA:PSK-3DES-EDE-CBC-SHA:PSK-RC4-SHA";
static char x_listen[32] = "*:5668";
static size_t x_max = 16384, x_queue = 1024;
static double x_timeout = 60.0;
static int x_level = 3, x_target = LOG_TARGET_SYSLOG;
static bool x_foreground, x_refused, x_info;
int STUB(access)(const char *p, int m)
{
	remember_all();
	proceed();
	vp_check(strcmp(p, x_temp) == 0, "the directory for temporary files is the configured one");
	vp_check((m & (X_OK | W_OK)) == (X_OK | W_OK), "files can be created there");
	return fatal() ? -1 : 0;
}
struct pidfh { int live; };
struct pidfh *STUB(pidfile_open)(const char *p, mode_t m, pid_t *other)
{
	struct pidfh *h;

	dropped();
	vp_check(x_pid != NULL && strcmp(p, x_pid) == 0 && m == 0600, "the PID file is the configured one, for the owner only");
	vp_check(!W.pid_open, "the PID file is opened once");
	if (any_fail && !W.failed && vp_bool()) {
		W.failed = 1;
		errno = vp_bool() ? EEXIST : EACCES;
		if (errno == EEXIST)
			*other = 4711;
		return NULL;
	}
	W.pid_open = 1;
	h = malloc(sizeof(*h));
	h->live = 1;
	return h;
}
int STUB(pidfile_write)(struct pidfh *h)
{
	proceed();
	vp_check(h != NULL && h->live, "the PID file is open");
	vp_check(W.daemon || x_foreground || activated, "the PID written is that of the daemon");
	if (fatal())
		return -1;
	W.pid_written = 1;
	return 0;
}
int STUB(pidfile_close)(struct pidfh *h) { free(h); return 0; }
int STUB(pidfile_remove)(struct pidfh *h)
{
	vp_check(W.pid_open && !W.removed, "the PID file is removed once");
	vp_check(h->live, "the PID file is open");
	W.removed = 1;
	free(h);
	if (any_fail && !W.failed && !W.warned && vp_bool()) {
		W.warned = 1;
		errno = EACCES;
		return -1;
	}
	return 0;
}
struct server_state_s { int live; };
server_state *STUB(server_start)(const char *l, const char *ciphers, const char *cmd, const char *temp, size_t max, size_t queue, ev_tstamp timeout)
{
	dropped();
	vp_check(!W.started && !x_refused, "the server is started once, if nothing is wrong");
	W.started = 1;
	vp_check((x_pid != NULL) == (W.pid_open != 0), "a configured PID file is held before the server starts");
	vp_check(strcmp(l, x_listen) == 0, "the server listens where it should");
	vp_check(strcmp(ciphers, x_ciphers) == 0, "the ciphers are those of the configuration, else the defaults");
	vp_check(strcmp(cmd, x_cmd) == 0, "the command file is that of the options, else of the configuration, else the default");
	vp_check(strcmp(temp, x_temp) == 0, "the directory for temporary files is the configured or the default one");
	vp_check(max == x_max, "the maximum command size is the configured or the default one");
	vp_check(queue == x_queue, "the maximum queue size is the configured or the default one");
	vp_check(timeout == x_timeout, "the timeout is the configured or the default one");
	return malloc(4);
}
void STUB(server_stop)(server_state *s)
{
	vp_check(W.ran && !W.stopped, "the server is stopped once");
	W.stopped = 1;
	free(s);
}
int STUB(daemon)(int nochdir, int noclose)
{
	proceed();
	vp_check(!x_foreground && !activated && !W.daemon && !W.ran, "the server detaches once, unless it is told or started not to");
	vp_check(nochdir == 0 && noclose == 0, "the server detaches completely");
	if (fatal())
		return -1;
	W.daemon = 1;
	return 0;
}

/* -------------------------------------------------------------------- the end */
static struct { char *s; size_t n; } secret[40];
static int nsecret;
/* The memory of every password: the global one and those of the sections. */
static void remember(cfg_t *c)
{
	cfg_opt_t *o = STUB(cfg_getopt)(c, "password");
	unsigned i;

	for (i = 0; i < o->nvalues; i++)
		if (o->values[i]->string != NULL) {
			vp_harness(nsecret < 40, "few passwords");
			secret[nsecret].s = o->values[i]->string;
			secret[nsecret++].n = strlen(o->values[i]->string);
		}
}
static void remember_all(void)
{
	cfg_opt_t *o = STUB(cfg_getopt)(mc_root, "authorize");
	unsigned i;

	nsecret = 0;
	remember(mc_root);
	for (i = 0; i < o->nvalues; i++)
		remember(o->values[i]->section);
}
static void before_free(void)
{
	int i;
	size_t k;

	vp_check(!W.freed, "the configuration is released once");
	W.freed = 1;
	for (i = 0; i < nsecret; i++)
		for (k = 0; k < secret[i].n; k++)
			vp_check(secret[i].s[k] == '\0', "passwords are overwritten before their memory is released");
#if MODE == 9
	if (nsecret > 1)
		vp_reach("several passwords wiped");
	else
		vp_reach("one password wiped");
#endif
}
static int x_status;            /* the exit status if nothing fails */
static void finish(int c)
{
	hp_run_atexit();
	vp_check(W.closed || activated < 0 || activated > 1, "the log is closed");
	vp_check(W.freed == W.started || !W.started, "the configuration is forgotten");
	vp_check(W.removed == W.pid_open, "a PID file is removed");
	if (W.failed)
		vp_check(c == EXIT_FAILURE, "a failure is reported");
	if (W.started && !W.failed)
		vp_check(W.ran && W.stopped && c == EXIT_SUCCESS, "a server that ran is stopped");
	if (!W.started && !W.failed) {
		if (x_info)
			vp_check(c == EXIT_SUCCESS, "information is given successfully");
		else {
			vp_check(x_refused || conf_bad, "proper options and configurations are accepted");
			vp_check(c == EXIT_FAILURE, "improper ones are reported");
		}
	}
}
void STUB(exit)(int c)
{
#ifdef OOM
	if (oom_seen) {
		W.failed = 1;
		vp_reach("out of memory");
		finish(c);
		vp_stop();
	}
#endif
#if MODE == 14
	if (!W.failed && !W.started && x_refused)
		vp_reach("refused options");
	if (!W.failed && conf_bad)
		vp_reach("refused configuration");
	if (x_info)
		vp_reach("information");
#endif
#if MODE == 13 || MODE == 16
	if (W.failed)
		vp_reach("gave up");
#endif
	finish(c);
	vp_stop();
}
static bool x_restart;
int STUB(execvp)(const char *f, char *const *v)
{
	vp_check(x_restart && W.stopped && !W.execed, "the server restarts if it was told to, after it stopped");
	vp_check(strcmp(f, x_argv[0]) == 0 && v == x_argv, "the server restarts with the name and arguments it was started with");
	vp_check(W.freed, "the configuration is forgotten before the restart");
	vp_check(W.removed == W.pid_open, "the PID file is removed before the restart");
	W.execed = 1;
#if MODE == 16
	vp_reach("restart");
#endif
	if (!fatal())
		vp_stop();
	return -1;
}
static void *by_type(int type, int nth)
{
	int i;

	for (i = 0; i < HE_MAX; i++)
		if (HE.tab[i].type == type && nth-- == 0)
			return HE.tab[i].w;
	return NULL;
}
static void *by_signal(int sig)
{
	int i;

	for (i = 0; i < HE_MAX; i++)
		if (HE.tab[i].type == HE_SIGNAL && ((ev_signal *)HE.tab[i].w)->signum == sig)
			return HE.tab[i].w;
	return NULL;
}
int STUB(ev_run)(int f)
{
	(void)f;
	proceed();
	vp_check(W.started && !W.ran, "the loop runs when the server was started");
	vp_check(W.daemon == (!x_foreground && !activated), "the server detaches unless it is told or started not to");
	vp_check(W.pid_written == (x_pid != NULL), "the PID is written");
	vp_check(l_level == x_level, "the log level is that of the options, else of the configuration, else the default");
	vp_check(l_target == x_target, "messages go where they should");
	vp_check(W.ready, "the init system is told");
	W.ran = 1;
#if MODE == 16
	{
		ev_timer *t = by_type(HE_TIMER, 0);
		long usec = watchdog != NULL ? atol(watchdog) : 0;

		vp_check((t != NULL) == (usec > 0), "the watchdog is fed exactly if the init system asks for it");
		if (t != NULL) {
			vp_check(t->repeat > 0. && t->repeat * 2 <= (double)usec / 1e6 && he_started_after <= t->repeat, "the watchdog is fed at least twice in its interval");
			he_fire(t, EV_TIMER);
			vp_check(W.alive == 1, "the watchdog is fed");
			vp_reach("watchdog");
		}
	}
#endif
	{
		static const int sigs[] = { SIGHUP, SIGINT, SIGTERM };
		int i, s = sigs[vp_concrete(vp_upto(2))];

		for (i = 0; i < 3; i++)
			vp_check(by_signal(sigs[i]) != NULL, "signals that end the server are handled");
		x_restart = s == SIGHUP;
		he_fire(by_signal(s), EV_SIGNAL);
		vp_check(HE.broken, "the loop ends");
	}
	return 0;
}

/* ------------------------------------------------------------------- the cases */
static void section(cfg_t *c, const char *title, const char *password)
{
	cfg_t *s = mc_section(c, "authorize", title);

	if (password != NULL)
		mc_set(s, "password", password);
}
static char *argv[24] = { "nsca-ng" };
static int argc = 1;
static void arg(const char *a) { argv[argc++] = (char *)a; }

#ifndef SMAX
# define SMAX 2
#endif
#if MODE == 14
static void listen_on(const char *l) { strcpy(x_listen, l); if (strchr(l, ':') == NULL) strcat(x_listen, ":5668"); }
static bool numbers;            /* what is passed on varies: not the options */
static char *c_listen, *c_cmd, *c_pid;
static int c_level = -1;
static void configure(cfg_t *c)
{
	long n;
	static const double times[] = { 0., 60., 0.5, 1e9, -1., -0.25 };

	section(c, "*", "x");
	if (c_listen != NULL)
		mc_set(c, "listen", c_listen);
	if (c_cmd != NULL)
		mc_set(c, "command_file", c_cmd);
	if (c_pid != NULL)
		mc_set(c, "pid_file", c_pid);
	if (c_level >= 0)
		h_set(mc_set_num(c, "log_level", c_level, 0));
	if (!numbers)
		return;
	if (vp_bool())
		mc_set(c, "tls_ciphers", x_ciphers = "C");
	if (vp_bool())
		mc_set(c, "temp_directory", x_temp = vp_string(0, SMAX));
	if (vp_bool()) {
		n = (long)vp_u64();
		x_max = (size_t)n;
		if (h_set(mc_set_num(c, "max_command_size", n, 0)) == CFG_SUCCESS)
			vp_check(n >= 0, "negative numbers are refused");
		else
			vp_check(n < 0, "numbers that aren't negative are accepted");
	}
	if (conf_bad)
		return;
	if (vp_bool()) {
		n = (long)vp_u64();
		x_queue = (size_t)n;
		if (h_set(mc_set_num(c, "max_queue_size", n, 0)) == CFG_SUCCESS)
			vp_check(n >= 0, "negative numbers are refused");
		else
			vp_check(n < 0, "numbers that aren't negative are accepted");
	}
	if (conf_bad)
		return;
	if (vp_bool()) {
		x_timeout = times[vp_concrete(vp_upto(5))];
		if (h_set(mc_set_num(c, "timeout", 0, x_timeout)) == CFG_SUCCESS)
			vp_check(x_timeout >= 0, "negative timeouts are refused");
		else
			vp_check(x_timeout < 0, "timeouts that aren't negative are accepted");
	}
	if (!conf_bad && vp_bool()) {
		n = (long)vp_u8() - 100;
		c_level = x_level = (int)n;
		if (h_set(mc_set_num(c, "log_level", n, 0)) == CFG_SUCCESS)
			vp_check(n >= 0, "negative numbers are refused");
		else
			vp_check(n < 0, "numbers that aren't negative are accepted");
	}
}
static bool twice;
static char *value(char opt, const char *other)
{
	char *s = vp_string(1, SMAX);

	if (twice) {    /* The last one counts. */
		char *a = malloc(3);

		a[0] = '-';
		a[1] = opt;
		a[2] = '\0';
		arg(a);
		arg(other);
	}
	return s;
}
static void level(char *d)
{
	d[0] = (char)('0' + vp_upto(5));
	d[1] = '\0';
}
static void options(void)
{
	static char lv[2];
	int t = -1;
	char *s;

	numbers = vp_bool();
	activated = (int)vp_concrete(vp_upto(numbers ? 3 : 1));
	if (activated == 3)
		activated = -ENOENT;
	if (activated < 0 || activated > 1)
		x_refused = true; /* one socket is what it takes */
	if (!numbers) {
		int which = (int)vp_concrete(vp_upto(5));
		bool o = vp_bool(), c = vp_bool();

		twice = o && vp_bool();
		switch (which) {
		case 0:
			if (c) {
				c_listen = vp_string(0, SMAX);
				listen_on(c_listen);
			}
			if (o) {
				s = value('b', "q:1");
				arg("-b");
				arg(s);
				listen_on(s);
			}
			break;
		case 1:
			if (c)
				x_cmd = c_cmd = vp_string(0, SMAX);
			if (o) {
				s = value('C', "q");
				arg("-C");
				arg(s);
				x_cmd = s;
			}
			break;
		case 2:
			if (c)
				x_pid = c_pid = vp_string(0, SMAX);
			if (o) {
				s = value('P', "q");
				arg("-P");
				arg(s);
				x_pid = s;
			}
			break;
		case 3:
			if (c) {
				c_level = (int)vp_upto(5);
				x_level = c_level;
			}
			if (o) {
				level(lv);
				if (twice)
					arg("-l4");
				arg("-l");
				arg(lv);
				x_level = lv[0] - '0';
			}
			break;
		case 4:
			if (o) {
				s = value('c', "q");
				arg("-c");
				arg(s);
				x_conf = s;
			}
			break;
		default: {
			static const char *const odd[] = { "--help", "--version", "-h", "-V", "-x", "-b", "word" };
			int k = (int)vp_concrete(vp_upto(6));

			arg(odd[k]);
			x_info = k < 4;
			x_refused = k >= 4;
			goto done;
		}
		}
	}
	/* Where messages go, and the foreground. */
	if (vp_bool()) {
		arg("-F");
		x_foreground = true;
	}
	switch (vp_concrete(vp_upto(numbers ? 0 : 4))) {
	case 1: arg("-s"); t = LOG_TARGET_SYSLOG; break;
	case 2: arg("-S"); t = LOG_TARGET_SYSLOG | LOG_TARGET_STDERR; break;
	case 3: arg("-sS"); t = LOG_TARGET_SYSLOG | LOG_TARGET_STDERR; break;
	case 4: arg("-S"); arg("-s"); t = LOG_TARGET_SYSLOG | LOG_TARGET_STDERR; break;
	}
	x_target = t != -1 ? t : activated ? LOG_TARGET_SYSTEMD : x_foreground ? LOG_TARGET_STDERR : LOG_TARGET_SYSLOG;
	if (t != -1 && (t & LOG_TARGET_STDERR) && !x_foreground && !activated)
		x_refused = true; /* (not without a terminal) */
	if (activated)
		strcpy(x_listen, "descriptor=3");
done:
	any_fail = false;
}
#endif
#if MODE == 13
static void configure(cfg_t *c)
{
	section(c, "*", "x");
	if (x_user != NULL)
		mc_set(c, "user", x_user);
	if (x_root != NULL)
		mc_set(c, "chroot", x_root);
	if (x_pid != NULL)
		mc_set(c, "pid_file", x_pid);
}
static void options(void)
{
	any_fail = true;
	x_user = vp_bool() ? vp_string(0, 2) : NULL;
	x_root = vp_bool() ? vp_string(0, 2) : NULL;
	x_pid = vp_bool() ? "/p" : NULL;
	pw.pw_uid = (uid_t)vp_u32();
	pw.pw_gid = (gid_t)vp_u32();
	if (vp_bool()) {
		arg("-F");
		x_foreground = true;
		x_target = LOG_TARGET_STDERR;
	}
	if (vp_bool()) {
		activated = 1;
		strcpy(x_listen, "descriptor=3");
		x_target = LOG_TARGET_SYSTEMD;
	}
}
#endif
#if MODE == 16
static void configure(cfg_t *c)
{
	section(c, "*", "x");
	if (x_pid != NULL)
		mc_set(c, "pid_file", x_pid);
}
static void options(void)
{
	static const char *const usecs[] = { NULL, "30000000", "1", "0", "-5", "", "10000000000" };

	any_fail = true;
	x_pid = vp_bool() ? "/p" : NULL;
	arg("-F");
	x_foreground = true;
	x_target = LOG_TARGET_STDERR;
	watchdog = usecs[vp_concrete(vp_upto(6))];
}
#endif
#if MODE == 9
# ifndef PWMAX
#  define PWMAX 3
# endif
static int npw, global_pw;
#ifdef SIZES
static char *a_password(void) { return vp_filled(VP_PICK(0, 1, 63, 64, 127, 128, 129, 255, 256, 257, 600)); }
#endif
static void configure(cfg_t *c)
{
#ifdef SIZES
	char titles[][3] = { "*", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p" };
	int i, which = (int)vp_concrete(vp_upto(npw)), own;
#else
	static const char *const titles[] = { "*", "a" };
	int i;
#endif

	if (x_user != NULL)
		mc_set(c, "user", x_user);
#ifdef SIZES    /* one password of any size among many */
	if (global_pw)
		mc_set(c, "password", which == npw ? a_password() : "global");
	for (i = 0; i < npw; i++) {
		own = !global_pw || i == which || i % 3 == 0;
		section(c, titles[i], !own ? NULL : i == which ? a_password() : "own");
	}
	return;
#endif
	if (global_pw)
		mc_set(c, "password", vp_string(0, PWMAX));
	for (i = 0; i < npw; i++)
		section(c, titles[i], !global_pw || vp_bool() ? vp_string(0, PWMAX) : NULL);
}
static void options(void)
{
	any_fail = true;
	x_user = vp_bool() ? "u" : NULL;
#ifdef SIZES
	npw = (int)VP_PICK(1, 2, 4, 9, 17);
#else
	npw = (int)vp_concrete(vp_range(1, 2));
#endif
	global_pw = (int)vp_concrete(vp_upto(1));
	x_pid = "/p";
	arg("-P");
	arg(x_pid);
}
#endif
void vp_main(void)
{
	int r;

	HE_NOW = 1000;
	mc_before_free = before_free;
	options();
	argv[argc] = NULL;
	x_argv = argv;
	r = vp_prog_main(argc, argv);
	vp_check(W.ran && !x_restart, "the program ends when it was told to");
#if MODE != 9
	vp_reach("ran");
#endif
	finish(r);
}
