/*
 * Stand-in for gethostname(): a host name of the maximum length (64 on Linux),
 * which the identity defaults to.
 */
#ifndef H_HOST_H
#define H_HOST_H
#include <errno.h>
#define H_HOST "host-name-of-64-characters-abcdefghijklmnopqrstuvwxyz-0123456789"
int STUB(gethostname)(char *b, size_t n)
{
	size_t i;

	if (n < sizeof(H_HOST)) {
		errno = ENAMETOOLONG;
		return -1;
	}
	for (i = 0; i < sizeof(H_HOST); i++)
		b[i] = H_HOST[i];
	return 0;
}
#endif
