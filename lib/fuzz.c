/* libFuzzer target: the front ends on arbitrary bytes.
 * The first byte selects the front end; the oracle is what C12 says of them. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <unistd.h>
#include "diagram.h"
#include "compiler/compile.h"
#include "assembler/assemble.h"
#include "executable.h"

extern size_t __sanitizer_get_current_allocated_bytes(void);
static long stats[3][6];
static void report(void)
{
	static const char *names[] = { "noja", "assembly", "diagram" };
	for (int i = 0; i < 3; i++)
		fprintf(stderr, "FUZZSTAT %s %ld %ld %ld %ld %ld\n", names[i], stats[i][0], stats[i][1], stats[i][2], stats[i][3], stats[i][4]);
}
static void fail(const char *what)
{
	fprintf(stderr, "FUZZFAIL %s\n", what);
	abort();
}

static void one(int mode, const char *text, size_t len)
{
	Error error;
	Error_Init(&error);
	int off = -2;
	bool ok;
	if (mode == 2) {
		char *s = diagramStringAST(text, &error, &off);
		ok = s != NULL;
		if (ok && strncmp(s, "digraph", 7) != 0) fail("the diagram isn't a graph");
		free(s);
	} else {
		Source *s = Source_FromString(NULL, text, len, &error);
		if (s == NULL) fail("no source");
		Executable *exe = mode == 0 ? compile(s, &error, &off) : assemble(s, &error, &off);
		Source_Free(s);
		ok = exe != NULL;
		if (ok) Executable_Free(exe);
	}
	if (ok && error.occurred) fail("success with an error");
	if (!ok && !error.occurred) fail("failure without an error");
	if (!ok) {
		if (error.type != ErrorType_SYNTAX && error.type != ErrorType_SEMANTIC && error.type != ErrorType_INTERNAL) fail("unexpected kind of error");
		if (error.message == NULL || error.message[0] == '\0') fail("no message");
		if (off < -1 || off > (long) len) { fprintf(stderr, "offset %d of %zu: %s\n", off, len, error.message); fail("offset out of the text"); }
		stats[mode][1 + (error.type == ErrorType_SYNTAX ? 1 : error.type == ErrorType_SEMANTIC ? 2 : 3)]++;
	} else stats[mode][1]++;
	stats[mode][0]++;
	Error_Free(&error);
}

int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size)
{
	static int init;
	if (!init) { init = 1; atexit(report); }
	if (size < 1) return 0;
	int mode = data[0] % 3;
	size_t len = size - 1;
	char *text = malloc(len + 1);
	memcpy(text, data + 1, len);
	text[len] = '\0';
	long before = (long) __sanitizer_get_current_allocated_bytes();
	one(mode, text, mode == 2 ? strlen(text) : len);
	long after = (long) __sanitizer_get_current_allocated_bytes();
	/* Believed only if it happens every time: libFuzzer's own thread may allocate
	 * something meanwhile, and streams do the first time. */
	for (int i = 0; after != before; i++) {
		if (i == 8) { fprintf(stderr, "%ld bytes\n", after - before); fail("leak"); }
		usleep(i * 2000);
		before = (long) __sanitizer_get_current_allocated_bytes();
		one(mode, text, mode == 2 ? strlen(text) : len);
		after = (long) __sanitizer_get_current_allocated_bytes();
	}
	free(text);
	return 0;
}
