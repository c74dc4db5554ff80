/*
 * T01: buffer.c against a plain array queue, for every sequence of K
 * operations with symbolic kinds, sizes and contents.
 */
#include <config.h>
#include <stdlib.h>
#include <string.h>
#include "vp.h"
#include "buffer.h"

#ifndef K
# define K 4
#endif
#ifndef NMAX
# define NMAX 6
#endif
#ifdef SIZES
# define FIRST (k == 0)
#else
# define FIRST false
#endif
#define QMAX (K * NMAX + 1)

void STUB(exit)(int c) { (void)c; vp_check(0, "unexpected exit"); vp_stop(); }

static unsigned char q[QMAX];
static size_t head, tail;

static void expect(const unsigned char *p, size_t n)
{
	size_t i;

	for (i = 0; i < n; i++)
		vp_check(p[i] == q[head + i], "bytes leave in the order they entered");
	head += n;
}

static size_t find(unsigned char c)
{
	size_t i;

	for (i = head; i < tail; i++)
		if (q[i] == c)
			return i - head + 1;
	return 0;
}

void vp_main(void)
{
	buffer *b = buffer_new();
	int k;
#ifdef TERM
	char term = TERM;
#else
	char term = (char)vp_u8();
#endif

	for (k = 0; k < K; k++) {
		int op = FIRST ? 0 : (int)vp_concrete((unsigned long)vp_range(0, 4));

		if (op == 0) {
			unsigned char in[NMAX];
			#ifdef SIZES
			size_t i, n = VP_PICK(1, 127, 128, 129, 300), nl = n > 1 ? VP_PICK(126, 128, 255) : 0;

			for (i = 0; i < n; i++)
				in[i] = (unsigned char)('A' + (i + tail) % 50);
			in[0] = vp_u8();
			if (nl < n)
				in[nl] = vp_u8();
#else
			size_t i, n = vp_concrete(vp_size(0, NMAX));

			VP_BYTES(in, n);
#endif
			buffer_append(b, in, n);
			for (i = 0; i < n; i++)
				q[tail++] = in[i];
			if (n == NMAX && k == K - 1)
				vp_reach("append at the end of the sequence");
		} else if (op == 1) {
#ifdef SIZES
			size_t n = VP_PICK(1, 127, 128, 172, 5000), got;
#else
			size_t n = vp_concrete(vp_size(0, NMAX + 2)), got;
#endif
			unsigned char *out = malloc(n + 1);

			got = buffer_read(b, out, n);
			vp_check(got == (n < tail - head ? n : tail - head), "read returns what is available");
			expect(out, got);
			free(out);
			if (k > 1 && got > 4)
				vp_reach("read across blocks");
		} else if (op == 2) {
			size_t len = find('\n');
			char *line = buffer_read_line(b);

			vp_check((line != NULL) == (len > 0), "a line is returned exactly if there is one");
			if (line != NULL) {
				size_t n = len - 1;
				if (len >= 2 && q[head + len - 2] == '\r')
					n--;
				vp_check(line[n] == '\0', "the line is terminated where it ended");
				expect((unsigned char *)line, n);
				head += len - n;
				free(line);
				vp_reach("line");
			}
		} else if (op == 3) {
			size_t len = find((unsigned char)term);
			char *chunk = buffer_read_chunk(b, term);

			vp_check((chunk != NULL) == (len > 0), "a chunk is returned exactly if there is one");
			if (chunk != NULL) {
				vp_check(chunk[len - 1] == '\0', "the chunk is terminated where it ended");
				expect((unsigned char *)chunk, len - 1);
				head++;
				free(chunk);
				vp_reach("chunk");
			}
		} else {
			size_t n;
			void *p = buffer_slurp(b, &n);

			vp_check(n == tail - head, "everything is returned");
			expect(p, n);
			free(p);
			if (k > 0 && n > 0)
				vp_reach("slurp");
		}
		vp_check(buffer_size(b) == tail - head, "size is the number of bytes inside");
	}
	buffer_free(b);
}
