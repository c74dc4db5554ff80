/*
 * C03: the standard input reader, with the bytes arriving in any pieces, reads
 * that fail for the moment, and a consumer that asks for the next record at
 * once or later.
 */
#include <config.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "vp.h"
#include "h_ev.h"
#include "input.h"

#ifndef NS
# define NS 5
#endif
#ifndef PAUSES
# define PAUSES 1
#endif
#ifndef CUTS
# define CUTS NS
#endif
#define RMAX (NS + 1)
static unsigned char stream[NS + 1];
static size_t total, sent, nrec, idx, start[RMAX], end_[RMAX];
static int pauses = PAUSES, cuts = CUTS, eofs;
static bool asked, done, broken, nonblock;
static unsigned char sep;
static input_state *in;

void STUB(exit)(int c)
{
	vp_check(c == EXIT_FAILURE, "errors are reported");
	vp_check(broken, "the reader only gives up if reading fails for good");
	vp_stop();
}
int STUB(puts)(const char *s) { (void)s; return 1; }
int STUB(fprintf)(FILE * restrict f, const char * restrict fmt, ...) { (void)f; (void)fmt; return 1; }
int STUB(fcntl)(int fd, int cmd, ...)
{
	va_list ap;

	vp_check(fd == STDIN_FILENO, "the standard input is set up");
	if (cmd == F_GETFL)
		return O_APPEND;
	vp_check(cmd == F_SETFL, "the flags are set");
	va_start(ap, cmd);
	vp_check(va_arg(ap, int) == (O_APPEND | O_NONBLOCK), "the standard input is made non-blocking");
	va_end(ap);
	nonblock = true;
	return 0;
}
ssize_t STUB(read)(int fd, void *b, size_t n)
{
	size_t k, max;

	vp_check(fd == STDIN_FILENO && n > 0, "the standard input is read");
	vp_check(nonblock, "the standard input is non-blocking");
	vp_check(asked, "the standard input is only read on request");
	if (pauses > 0) {
		int e = (int)vp_concrete(vp_upto(3));

		if (e > 0) {
			pauses--;
			errno = e == 1 ? EAGAIN : e == 2 ? EINTR : EIO;
			if (e == 3)
				broken = true;
#if PAUSES > 0
			else
				vp_reach("a pause");
#endif
			return -1;
		}
	}
	if (sent == total) {
		vp_check(eofs++ == 0, "nothing is read after the end of the input");
		return 0;
	}
	max = total - sent < n ? total - sent : n;
	if (cuts > 0 && max > 1) {
#ifdef BULK
		k = vp_concrete(vp_bool()) ? max : max / 2;
		if (k < max)
#else
		if ((k = vp_concrete(vp_size(1, max))) < max)
#endif
			cuts--;
	} else
		k = max;
	memcpy(b, stream + sent, k);
	sent += k;
	return (ssize_t)k;
}
static void on_chunk(input_state * restrict i, char * restrict c)
{
	size_t j, n;

	vp_check(i == in && asked && !done, "a record is delivered on request");
	vp_check(idx < nrec, "only the records of the input are delivered");
	n = end_[idx] - start[idx];
	vp_check(end_[idx] < sent || (idx == nrec - 1 && eofs == 1), "only complete records are delivered");
	for (j = 0; j < n; j++)
		vp_check((unsigned char)c[j] == stream[start[idx] + j], "the records are delivered in order and unmodified");
	vp_check(c[n] == '\0', "the records are terminated");
	free(c);
	idx++;
	asked = false;
	vp_reach("a record");
	if (vp_concrete(vp_bool())) {
		asked = true;
		input_read_chunk(in, on_chunk);
	}
}
static void on_eof(input_state *i)
{
	vp_check(i == in && asked && !done, "the end is reported once, on request");
	vp_check(idx == nrec && sent == total && eofs == 1, "the end is reported after the last record");
	done = true;
	vp_reach("the end");
}

void vp_main(void)
{
	size_t i, s = 0;
	int step;

#ifdef BULK
	{
		static const size_t at[] = { 0, 1, 126, 127, 128, 129, 130, 254, 255, 256, 257, NS - 2, NS - 1 };
		static const size_t lens[] = { 1, 127, 128, 129, 256, 257, NS };

		sep = '\27';
		total = lens[vp_concrete(vp_upto(6))];
		memset(stream, 'a', total);
		for (i = 0; i < 2; i++)
			stream[at[vp_concrete(vp_upto(12))]] = sep;
		for (i = 0; i < total; i++)
			if (stream[i] != sep)
				stream[i] = (unsigned char)(32 + i % 100);
	}
#else
	total = vp_concrete(vp_size(0, NS));
	VP_BYTES(stream, total);
	sep = vp_u8();
#endif
	for (i = 0; i < total; i++)
		if (stream[i] == sep) {
			start[nrec] = s;
			end_[nrec++] = i;
			s = i + 1;
		}
	if (s < total) {
		start[nrec] = s;
		end_[nrec++] = total;
	}
	HE_NOW = 1.0;
	in = input_start((char)sep);
	input_on_eof(in, on_eof);
	for (step = 0; !done; step++) {
		vp_check(step < 4 * NS + 8, "the reader gets on");
		if (!asked) {
			asked = true;
			input_read_chunk(in, on_chunk);
		} else {
			vp_check(he_active() == 1, "an unsatisfied request keeps the input watched");
			vp_check(idx == nrec || end_[idx] >= sent, "a record is delivered as soon as it is complete");
			he_fire(HE.tab[0].w != NULL ? HE.tab[0].w : HE.tab[1].w, EV_READ);
		}
		he_run_pending();
	}
	vp_check(he_active() == 0, "the input isn't watched after its end");
}
