/* Stand-in for one stdio input file whose bytes the harness chooses. */
#ifndef H_FILE_H
#define H_FILE_H
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static struct {
	const char *name, *data;
	size_t len, pos, fail_at;       /* fail_at: reading fails there (SIZE_MAX: never) */
	int open_fails, close_fails, opened, eof, err;
} HF = { NULL, NULL, 0, 0, SIZE_MAX, 0, 0, 0, 0, 0 };
static char hf_handle[8];
#define HF_FILE ((FILE *)(void *)hf_handle)

FILE *STUB(fopen)(const char * restrict p, const char * restrict m)
{
	vp_check(HF.name == NULL || strcmp(p, HF.name) == 0, "the configured file is opened");
	vp_check(m[0] == 'r' && m[1] != '+', "the file is opened for reading");
	vp_check(HF.opened == 0, "the file is opened once");
	if (HF.open_fails) {
		errno = ENOENT;
		return NULL;
	}
	HF.opened = 1;
	return HF_FILE;
}
static int hf_next(void)
{
	vp_check(HF.opened == 1, "the open file is read");
	if (HF.err)
		return EOF;
	if (HF.pos == HF.fail_at) {
		HF.err = 1;
		errno = EIO;
		return EOF;
	}
	if (HF.pos == HF.len) {
		HF.eof = 1;
		return EOF;
	}
	return (unsigned char)HF.data[HF.pos++];
}
char *STUB(fgets)(char * restrict b, int n, FILE * restrict f)
{
	int i, c = 0;

	vp_check(f == HF_FILE && n > 0, "the open file is read into a buffer");
	((volatile char *)b)[n - 1] = 'x'; /* The whole buffer must be there. */
	for (i = 0; i < n - 1 && (c = hf_next()) != EOF;) {
		b[i++] = (char)c;
		if (c == '\n')
			break;
	}
	if (c == EOF && (i == 0 || HF.err))
		return NULL;
	b[i] = '\0';
	return b;
}
int STUB(fgetc)(FILE *f) { vp_check(f == HF_FILE, "the open file is read"); return hf_next(); }
int STUB(getc)(FILE *f) { return STUB(fgetc)(f); }
int STUB(ferror)(FILE *f) { vp_check(f == HF_FILE, "the open file is examined"); return HF.err; }
int STUB(feof)(FILE *f) { vp_check(f == HF_FILE, "the open file is examined"); return HF.eof; }
int STUB(fclose)(FILE *f)
{
	vp_check(f == HF_FILE && HF.opened == 1, "the open file is closed once");
	HF.opened = 2;
	return HF.close_fails ? EOF : 0;
}
#endif
