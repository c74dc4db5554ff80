/*
 * Logging stand-in (both worlds): messages are not part of the properties
 * that use it, but every string argument must be readable memory.
 */
#include <config.h>
#include <stdarg.h>
#include <stddef.h>
#include <string.h>
#include "vp.h"

#ifdef VP_LOG_LEVEL
int log_level = VP_LOG_LEVEL;
#else
int log_level = 0;
#endif
unsigned int vp_log_calls;

void log_set(int level, int flags)
{
	if (level != -1)
		log_level = level;
	(void)flags;
}
void log_close(void) {}

void vlog(int level, const char *fmt, va_list ap)
{
	vp_log_calls++;
	(void)level;
#ifdef VP_LOG_TOUCH
	{
		size_t i;
		volatile char c = 0;

		for (i = 0; fmt[i] != '\0'; i++) {
			int lng = 0, prec = -1;

			if (fmt[i] != '%')
				continue;
			i++;
			while (fmt[i] == '.' || fmt[i] == '*' || fmt[i] == 'l' || fmt[i] == 'z'
			    || fmt[i] == 'j' || (fmt[i] >= '0' && fmt[i] <= '9')) {
				if (fmt[i] == '*')
					prec = va_arg(ap, int);
				if (fmt[i] == 'l' || fmt[i] == 'z' || fmt[i] == 'j')
					lng = 1;
				i++;
			}
			if (fmt[i] == 's') {
				const char *s = va_arg(ap, const char *);
				if (s != NULL && prec != 0)
					c = s[0];
			} else if (fmt[i] == 'm' || fmt[i] == '%')
				;
			else if (fmt[i] == 'p')
				(void)va_arg(ap, void *);
			else if (fmt[i] == 'f' || fmt[i] == 'g' || fmt[i] == 'e')
				(void)va_arg(ap, double);
			else if (lng)
				(void)va_arg(ap, long);
			else
				(void)va_arg(ap, int);
		}
		(void)c;
	}
#else
	(void)fmt;
	(void)ap;
#endif
}
