/* Random histories of operations on the library's containers and text utilities,
   each compared, operation by operation, with a model written here.

   usage: containers SECTION FIRST COUNT DIR
   Runs the histories of seeds FIRST..FIRST+COUNT-1 of the section and prints, as lines,
   "count NAME N" for what was observed, and "BAD seed: text" and exit status 1 at the
   first disagreement. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <unistd.h>
#include <sys/stat.h>
#include "utils/bpalloc.h"
#include "utils/bucketlist.h"
#include "utils/promise.h"
#include "utils/labellist.h"
#include "utils/stack.h"
#include "utils/utf8.h"
#include "utils/path.h"
#include "utils/source.h"
#include "utils/hash.h"
#include "utils/error.h"

static uint64_t st, cur_seed;
static const char *dir;
static uint64_t rnd(void) { st ^= st << 13; st ^= st >> 7; st ^= st << 17; return st * 0x2545F4914F6CDD1Dull >> 11; }
static long R(long n) { return n > 0 ? rnd() % n : 0; }             /* 0 .. n-1 */
static void seed(uint64_t s) { cur_seed = s; st = s * 0x9E3779B97F4A7C15ull + 0x1234567; for (int i = 0; i < 8; i++) rnd(); }

static struct { const char *name; long n; } counts[64];
static void count(const char *name, long n)
{
	for (int i = 0; i < 64; i++) { if (counts[i].name == NULL) counts[i].name = name; if (!strcmp(counts[i].name, name)) { counts[i].n += n; return; } }
}
static void bad(const char *fmt, ...)
{
	va_list va; va_start(va, fmt);
	printf("BAD %llu: ", (unsigned long long) cur_seed); vprintf(fmt, va); printf("\n");
	va_end(va); fflush(stdout); _exit(1);
}
#define CHECK(x, ...) do { if (!(x)) bad(__VA_ARGS__); } while (0)
static void fill(unsigned char *p, long n) { for (long i = 0; i < n; i++) p[i] = rnd(); }

/* ---- an accounting system allocator for the bump allocator ---- */
static struct blk { void *p; long n; } blks[100000];
static int nblks; static long live, fail_at = -1, asked;
static char cookie;
static void *my_malloc(void *u, int n)
{
	CHECK(u == &cookie, "the allocation callback got another pointer");
	CHECK(n > 0, "the allocation callback was asked %d bytes", n);
	if (asked++ == fail_at) return NULL;
	void *p = malloc(n); memset(p, 0xA5, n);
	blks[nblks].p = p; blks[nblks++].n = n; live++;
	return p;
}
static void my_free(void *u, void *p)
{
	CHECK(u == &cookie, "the release callback got another pointer");
	for (int i = 0; i < nblks; i++) if (blks[i].p == p) { free(p); blks[i] = blks[--nblks]; live--; return; }
	bad("released a block that isn't allocated");
}
static void my_reset(void) { for (int i = 0; i < nblks; i++) free(blks[i].p); nblks = 0; live = 0; asked = 0; fail_at = -1; }

static long sizes(void)
{
	switch (R(8)) { case 0: return R(4); case 1: case 2: case 3: return R(64); case 4: return R(600); case 5: return 4080 + R(40); case 6: return 4096 * (1 + R(3)) + R(17) - 8; default: return R(10000); }
}

static BPAlloc *some_alloc(void **mem)
{
	*mem = NULL;
	switch (R(4)) {
		case 0: return BPAlloc_Init(R(3) ? -1 : R(9000));
		case 1: return BPAlloc_Init2(R(2) ? -1 : R(5000), R(2) ? -1 : R(5000), &cookie, my_malloc, my_free);
		case 2: { long n = 4096 + R(9000); *mem = malloc(n); return BPAlloc_Init3(*mem, n, R(2) ? -1 : R(5000), &cookie, my_malloc, my_free); }
		default: { long n = 4096 + R(9000); *mem = malloc(n); return BPAlloc_Init3(*mem, n, -1, NULL, NULL, NULL); }
	}
}
static void done_alloc(BPAlloc *a, void *mem)
{
	BPAlloc_Free(a); free(mem);
	CHECK(live == 0, "%ld chunks weren't released", live);
	my_reset();
}

static void t_bpalloc(void)
{
	enum { N = 400 };
	static struct { unsigned char *p; long n; unsigned char v; } b[N];
	int nb = 0, total = 1 + R(N - 1), kind = R(6);
	BPAlloc *a; void *mem = NULL; long memsize = 0; int failing = 0;
	if (kind == 0) a = BPAlloc_Init(R(2) ? -1 : R(5000));
	else if (kind < 4) {
		if (R(3) == 0) { fail_at = R(12); failing = 1; }
		a = BPAlloc_Init2(R(2) ? -1 : R(3000), R(2) ? -1 : R(3000), &cookie, my_malloc, my_free);
	} else {
		memsize = R(3) ? 200 + R(8000) : R(200);
		mem = malloc(memsize);
		if (R(3) == 0) { fail_at = R(12); failing = 1; }
		a = BPAlloc_Init3(mem, memsize, R(2) ? -1 : R(3000), &cookie, my_malloc, my_free);
	}
	if (a == NULL) {
		CHECK(failing || (mem && memsize < 200), "the allocator couldn't be created (%d, %ld bytes)", kind, memsize);
		count("allocators refused", 1); CHECK(live == 0, "memory kept by a failed creation"); free(mem); my_reset(); return;
	}
	count("allocators", 1);
	for (int i = 0; i < total; i++) {
		long n = sizes();
		unsigned char *p = BPAlloc_Malloc(a, n);
		if (p == NULL) { CHECK(failing && asked > fail_at, "allocation of %ld bytes failed", n); count("failed allocations", 1); continue; }
		CHECK((uintptr_t) p % 8 == 0, "block of %ld bytes at %p isn't aligned", n, (void*) p);
		for (int k = 0; k < nb; k++) CHECK(p + n <= b[k].p || b[k].p + b[k].n <= p || n == 0 || b[k].n == 0, "block %d (%ld bytes) overlaps block %d (%ld bytes)", i, n, k, b[k].n);
		if (kind) {
			int in = (mem && (char*) p >= (char*) mem && (char*) p + n <= (char*) mem + memsize);
			for (int k = 0; k < nblks && !in; k++) in = (char*) p >= (char*) blks[k].p && (char*) p + n <= (char*) blks[k].p + blks[k].n;
			CHECK(in, "block of %ld bytes isn't inside the memory given to the allocator", n);
		}
		b[nb].p = p; b[nb].n = n; b[nb].v = rnd(); memset(p, b[nb].v, n); nb++;
		count("blocks", 1);
	}
	for (int k = 0; k < nb; k++) for (long j = 0; j < b[k].n; j++) CHECK(b[k].p[j] == b[k].v, "block %d changed at byte %ld", k, j);
	BPAlloc_Free(a); free(mem);
	CHECK(live == 0, "%ld chunks weren't released", live);
	my_reset();
}

static void t_bucket(void)
{
	void *mem; BPAlloc *a = some_alloc(&mem);
	enum { L = 3 };
	BucketList *l[L]; unsigned char *m[L]; long n[L] = {0}; struct { unsigned char *p; int l; long at, n; } refs[300]; int nrefs = 0;
	int nl = 1 + R(L);
	for (int i = 0; i < nl; i++) {
		l[i] = BucketList_New(a); CHECK(l[i] != NULL, "BucketList_New failed"); m[i] = malloc(2000000);
		CHECK(BucketList_GetAlloc(l[i]) == a, "BucketList_GetAlloc"); CHECK(BucketList_Size(l[i]) == 0, "a new list isn't empty");
	}
	static unsigned char buf[40000];
	for (int k = R(60) + 1; k > 0; k--) {
		int i = R(nl); long s = sizes();
		if (R(5) == 0) { long left = 4096 - n[i] % 4096; s = left + R(5) - 2; }
		if (s < 0 || n[i] + s > 2000000) s = 0;
		fill(buf, s); int zero = R(4) == 0;
		if (zero) memset(m[i] + n[i], 0, s); else memcpy(m[i] + n[i], buf, s);
		if (R(2)) { CHECK(BucketList_Append(l[i], zero ? NULL : buf, s), "BucketList_Append failed"); count("appended", 1); }
		else {
			unsigned char *p = BucketList_Append2(l[i], zero ? NULL : buf, s);
			CHECK(p != NULL, "BucketList_Append2 failed"); CHECK(!memcmp(p, m[i] + n[i], s), "the returned location hasn't the data");
			if (nrefs < 300) { refs[nrefs].p = p; refs[nrefs].l = i; refs[nrefs].at = n[i]; refs[nrefs++].n = s; }
			count("appended contiguously", 1);
		}
		n[i] += s;
		CHECK(BucketList_Size(l[i]) == n[i], "size is %d instead of %ld", BucketList_Size(l[i]), n[i]);
		/* patching an item already appended */
		if (nrefs && R(3) == 0) {
			int r = R(nrefs);
			if (refs[r].n) { long o = R(refs[r].n), c = 1 + R(refs[r].n - o); fill(buf, c); memcpy(refs[r].p + o, buf, c); memcpy(m[refs[r].l] + refs[r].at + o, buf, c); count("patched", 1); }
		}
		if (R(10) == 0 || k == 1) for (int j = 0; j < nl; j++) {
			long len = R(3) ? -1 : R(n[j] + 1), want = len < 0 ? n[j] : len;
			unsigned char *d = malloc(want + 16); memset(d, 0x5C, want + 16);
			BucketList_Copy(l[j], d, len);
			for (long x = 0; x < want; x++) CHECK(d[x] == m[j][x], "byte %ld of %ld differs from what was appended", x, want);
			for (long x = want; x < want + 16; x++) CHECK(d[x] == 0x5C, "wrote past the %ld bytes requested", want);
			free(d); count("bytes compared", want);
		}
	}
	for (int i = 0; i < nl; i++) free(m[i]);
	done_alloc(a, mem);
}

static struct { Promise *p; unsigned char *dest; long size; unsigned char *want; int called; } subs[400];
static void on_set(void *u)
{
	int i = (int) (intptr_t) u;
	CHECK(!memcmp(subs[i].dest, subs[i].want, subs[i].size), "the callback of subscriber %d ran before the value was there", i);
	subs[i].called++;
}

static void t_promise(void)
{
	void *mem; BPAlloc *a = some_alloc(&mem);
	enum { N = 20 };
	Promise *p[N]; long size[N]; unsigned char *val[N]; int set[N] = {0}, np = 1 + R(N), ns = 0;
	for (int i = 0; i < np; i++) {
		size[i] = R(4) ? 8 : R(300); p[i] = Promise_New(a, size[i]); CHECK(p[i], "Promise_New failed");
		CHECK(Promise_Size(p[i]) == size[i], "Promise_Size"); val[i] = malloc(size[i] + 1); fill(val[i], size[i]);
	}
	int cb[400] = {0}, of[400];
	for (int k = R(150); k > 0; k--) {
		int i = R(np);
		CHECK(Promise_hasResolved(p[i]) == set[i], "promise %d resolved: %d", i, set[i]);
		if (R(6) == 0 && !set[i]) { Promise_Resolve(p[i], val[i], size[i]); set[i] = 1; count("resolved", 1); CHECK(Promise_hasResolved(p[i]), "not resolved after being resolved"); }
		else {
			int s = ns++; of[s] = i; subs[s].p = p[i]; subs[s].size = size[i]; subs[s].want = val[i]; subs[s].called = 0;
			unsigned char *d = malloc(size[i] + 16); memset(d, 0x77, size[i] + 16); subs[s].dest = d;
			cb[s] = R(2);
			CHECK(cb[s] ? Promise_Subscribe2(p[i], d, (void*)(intptr_t) s, on_set) : Promise_Subscribe(p[i], d), "subscribing failed");
			count(set[i] ? "subscribed after" : "subscribed before", 1);
		}
		for (int s = 0; s < ns; s++) {
			if (set[of[s]]) { CHECK(!memcmp(subs[s].dest, subs[s].want, subs[s].size), "subscriber %d hasn't the value", s); CHECK(subs[s].called == cb[s], "callback of subscriber %d called %d times", s, subs[s].called); }
			else { for (long x = 0; x < subs[s].size; x++) CHECK(subs[s].dest[x] == 0x77, "subscriber %d was written before the promise was resolved", s); CHECK(!subs[s].called, "callback called before the promise was resolved"); }
			for (long x = subs[s].size; x < subs[s].size + 16; x++) CHECK(subs[s].dest[x] == 0x77, "wrote past the size of the promise");
		}
	}
	for (int s = 0; s < ns; s++) free(subs[s].dest);
	for (int i = 0; i < np; i++) { Promise_Free(p[i]); free(val[i]); }
	done_alloc(a, mem);
}

static void t_label(void)
{
	void *mem; BPAlloc *a = some_alloc(&mem);
	LabelList *l = LabelList_New(a); CHECK(l, "LabelList_New failed");
	enum { N = 40 };
	static const char *al = "ab_A1";
	char *name[N]; size_t nlen[N]; int used[N] = {0}, set[N] = {0}; long long v[N], *dest[400]; int of[400], ns = 0, n = 0, want = 1 + R(N);
	while (n < want) {
		size_t k = 1 + R(R(3) ? 4 : 60); char *s = malloc(k + 8); for (size_t i = 0; i < k; i++) s[i] = al[R(5)]; memset(s + k, 'b', 8);
		if (n && R(4) == 0) { int o = R(n); if (nlen[o] < 50) { k = nlen[o] + 1; s = realloc(s, k + 8); memcpy(s, name[o], nlen[o]); memset(s + nlen[o], 'a', 9); } }
		int dup = 0; for (int i = 0; i < n; i++) dup |= nlen[i] == k && !memcmp(name[i], s, k);
		if (dup) { free(s); if (R(50) == 0) break; continue; }
		name[n] = s; nlen[n] = k; v[n++] = (long long) (rnd() << 20 ^ rnd());
	}
	for (int k = R(200); k > 0; k--) {
		int i = R(n);
		char *copy = NULL; const char *s = name[i];
		if (R(2) && used[i]) { copy = malloc(nlen[i]); memcpy(copy, s, nlen[i]); s = copy; }   /* the same label, elsewhere and not terminated */
		if (R(4) == 0 && !set[i]) { CHECK(LabelList_SetLabel(l, s, nlen[i], v[i]), "SetLabel failed"); set[i] = used[i] = 1; count("labels set", 1); }
		else {
			Promise *p = LabelList_GetLabel(l, s, nlen[i]); CHECK(p, "GetLabel failed"); used[i] = 1;
			CHECK(Promise_hasResolved(p) == set[i], "label %.*s resolved: %d", (int) nlen[i], name[i], set[i]);
			of[ns] = i; dest[ns] = malloc(sizeof(long long)); *dest[ns] = 0x5555; CHECK(Promise_Subscribe(p, dest[ns]), "subscribing failed"); ns++;
			count("labels used", 1);
		}
		free(copy);
		size_t un = 0; for (int j = 0; j < n; j++) un += used[j] && !set[j];
		CHECK(LabelList_GetUnresolvedCount(l) == un, "%zu labels unresolved instead of %zu", LabelList_GetUnresolvedCount(l), un);
		for (int s2 = 0; s2 < ns; s2++) CHECK(*dest[s2] == (set[of[s2]] ? v[of[s2]] : 0x5555), "use of label %.*s has %lld", (int) nlen[of[s2]], name[of[s2]], *dest[s2]);
	}
	for (int i = 0; i < ns; i++) free(dest[i]);
	LabelList_Free(l);
	for (int i = 0; i < n; i++) free(name[i]);
	done_alloc(a, mem);
}

static void t_stack(void)
{
	long cap = R(5) ? R(70) : -1; Stack *s = Stack_New(cap); CHECK(s, "Stack_New failed"); if (cap < 0) cap = Stack_Capacity(s);
	CHECK(Stack_Capacity(s) == cap && cap >= 0, "capacity is %u", Stack_Capacity(s)); CHECK(Stack_Size(s) == 0, "not empty");
	void **m = malloc(sizeof(void*) * (cap + 1)); long n = 0; Stack *copies[50]; int nc = 0;
	for (int k = R(500); k > 0; k--) {
		Stack *t = nc && R(3) == 0 ? copies[R(nc)] : s;   /* a copy shows the same stack */
		switch (R(7)) {
			case 0: case 1: case 2: { void *x = (void*) (rnd() | 1); int ok = Stack_Push(s, x); CHECK(ok == (n < cap), "push with %ld of %ld: %d", n, cap, ok); if (ok) m[n++] = x; count("pushed", 1); break; }
			case 3: { long c = R(4) ? R(3) : R(n + 3); int ok = Stack_Pop(s, c); CHECK(ok == (c <= n), "pop of %ld with %ld: %d", c, n, ok); if (ok) n -= c; count("popped", 1); break; }
			case 4: { long c = R(n + 3); void *x = Stack_Top(t, -c); CHECK(x == (c < n ? m[n - 1 - c] : NULL), "top(-%ld) of %ld", c, n); count("observed", 1); break; }
			case 5: { long c = R(n + 3); void **x = Stack_TopRef(t, -c); CHECK((x == NULL) == (c >= n), "topref(-%ld) of %ld", c, n); if (x) { CHECK(*x == m[n - 1 - c], "topref(-%ld)", c); if (R(2)) *x = m[n - 1 - c] = (void*) (rnd() | 1); } break; }
			case 6: if (nc < 50 && R(2)) { copies[nc++] = Stack_Copy(s); count("copied", 1); } else if (nc && R(2)) Stack_Free(copies[--nc]); break;
		}
		CHECK(Stack_Size(t) == n, "size %u instead of %ld", Stack_Size(t), n); CHECK(Stack_Capacity(t) == cap, "capacity changed");
	}
	/* the order of releases doesn't matter */
	Stack *all[51]; int na = 0; all[na++] = s; for (int i = 0; i < nc; i++) all[na++] = copies[i];
	while (na) { int i = R(na); Stack *x = all[i]; if (n) CHECK(Stack_Top(x, 0) == m[n - 1], "a copy lost its content"); all[i] = all[--na]; Stack_Free(x); }
	free(m);
}

/* decodes strictly; surrogates are left unspecified: *sur is set */
static int dec(const unsigned char *s, int n, uint32_t *c, int *sur)
{
	if (n == 0) return -1;
	if (s[0] < 0x80) { *c = s[0]; return 1; }
	int k = s[0] >= 0xF8 ? 0 : s[0] >= 0xF0 ? 4 : s[0] >= 0xE0 ? 3 : s[0] >= 0xC0 ? 2 : 0;
	if (!k || k > n) return -1;
	uint32_t x = s[0] & (0x7F >> k);
	for (int i = 1; i < k; i++) { if ((s[i] & 0xC0) != 0x80) return -1; x = x << 6 | (s[i] & 0x3F); }
	static const uint32_t min[] = {0, 0, 0x80, 0x800, 0x10000};
	if (x < min[k] || x > 0x10FFFF) return -1;
	if (x >= 0xD800 && x < 0xE000) *sur = 1;
	*c = x; return k;
}

static void one_utf8(const unsigned char *s0, int n)
{
	char *s = malloc(n ? n : 1); memcpy(s, s0, n);   /* an exact block: the sanitizer sees reads past it */
	int starts[4200], ns = 0, i = 0, valid = 1, sur = 0, len = 0; uint32_t cp[4200], c;
	while (i < n) { int k = dec(s0 + i, n - i, &c, &sur); if (k < 1) { valid = 0; break; } starts[ns] = i; cp[ns++] = c; i += k; len++; }
	if (!sur) {
		int got = utf8_strlen(s, n);
		CHECK(got == (valid ? len : -1), "utf8_strlen is %d instead of %d", got, valid ? len : -1);
		count(valid ? "valid strings" : "invalid strings", 1);
		/* every sequence up to the first that isn't valid */
		for (int k = 0; k < ns; k++) {
			uint32_t x = 0xDEAD; int end = k + 1 < ns ? starts[k + 1] : i;
			int g = utf8_sequence_to_utf32_codepoint(s + starts[k], n - starts[k], &x);
			CHECK(g == end - starts[k] && x == cp[k], "decoded U+%X (%d bytes) instead of U+%X", x, g, cp[k]);
			CHECK(utf8_sequence_to_utf32_codepoint(s + starts[k], n - starts[k], NULL) == g, "decoding without a result differs");
			CHECK(utf8_sequence_to_utf32_codepoint(s + starts[k], g, NULL) == g, "decoding the exact bytes differs");
			if (g > 1) CHECK(utf8_sequence_to_utf32_codepoint(s + starts[k], g - 1, NULL) == -1, "decoded a truncated sequence");
			x = 0xDEAD; CHECK(utf8_curr(s, n, starts[k], &x) == 1 && x == cp[k], "utf8_curr");
			x = 0xDEAD; g = utf8_next(s, n, starts[k], &x);
			if (k + 1 < ns) CHECK(g == starts[k + 1] && x == cp[k + 1], "utf8_next from %d is %d, U+%X", starts[k], g, x);
			else CHECK(g == -1, "utf8_next from the last valid sequence is %d", g);
			x = 0xDEAD; g = utf8_prev(s, n, end, &x);
			CHECK(g == starts[k] && x == cp[k], "utf8_prev from %d is %d, U+%X", end, g, x);
			char buf[8]; memset(buf, 0x33, 8);
			int e = utf8_sequence_from_utf32_codepoint(buf, end - starts[k], cp[k]);
			CHECK(e == end - starts[k] && !memcmp(buf, s + starts[k], e) && buf[e] == 0x33, "U+%X wasn't encoded back", cp[k]);
			CHECK(utf8_sequence_from_utf32_codepoint(buf, e - 1, cp[k]) == -1, "U+%X was encoded in too few bytes", cp[k]);
			count("code points", 1);
		}
		if (!valid) { CHECK(utf8_sequence_to_utf32_codepoint(s + i, n - i, &c) == -1, "decoded an invalid sequence at %d", i); CHECK(utf8_curr(s, n, i, &c) == 0, "utf8_curr accepted an invalid sequence"); }
		if (ns == 0 && n == 0) CHECK(utf8_prev(s, 0, 0, NULL) == 0, "utf8_prev of nothing");
	}
	/* backwards from anywhere: the sequence that ends there, or none */
	for (int e = n > 40 ? n - 40 : 1; e <= n; e++) {
		int h = e - 1, sr = 0; while (h >= 0 && (s0[h] & 0xC0) == 0x80) h--;
		int want = -1; uint32_t w = 0, x = 0xDEAD;
		if (h >= 0 && dec(s0 + h, e - h, &w, &sr) == e - h) want = h;
		int g = utf8_prev(s, n, e, &x);
		if (!sr) CHECK(g == want && (want < 0 || x == w), "utf8_prev from %d is %d (U+%X) instead of %d", e, g, x, want);
	}
	free(s);
}

static void t_utf8(void)
{
	static unsigned char s[4200]; int n = 0, want = R(3) ? R(20) : R(4000);
	static const uint32_t edge[] = {0, 1, 0x7F, 0x80, 0x7FF, 0x800, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, 0xFFFFFFFF, 0xD7FF, 0xE000, 0xFEFF, 0x200000};
	int broken = R(3) == 0;
	while (n < want) {
		if (broken && R(8) == 0) { s[n++] = R(2) ? 0x80 + R(128) : rnd(); continue; }
		uint32_t c = R(3) == 0 ? edge[R(15)] : R(2) ? R(128) : R(2) ? R(0x800) : R(0x110000);
		char b[4]; int k = utf8_sequence_from_utf32_codepoint(b, 4, c);
		CHECK((k == -1) == (c > 0x10FFFF), "encoding U+%X gave %d", c, k);
		if (k > 0) { memcpy(s + n, b, k); n += k; }
	}
	if (broken && n && R(2)) n -= R(n < 4 ? n : 4);
	one_utf8(s, n);
	/* every start of one sequence: seeds cover all pairs of bytes, and edges for the others */
	uint64_t k = cur_seed % 256;
	for (int b = 0; b < 256; b += 1) { s[0] = k; s[1] = b; one_utf8(s, 2); s[2] = R(2) ? 0x80 + R(64) : rnd(); one_utf8(s, 3); s[3] = R(4) ? 0x80 + R(64) : rnd(); one_utf8(s, 4); }
	s[0] = k; one_utf8(s, 1);
	for (uint32_t c = cur_seed % 64; c < 0x110010; c += 64) {
		char b[4]; int e = utf8_sequence_from_utf32_codepoint(b, 4, c); uint32_t x; int sr = 0;
		CHECK((e > 0) == (c <= 0x10FFFF), "encoding U+%X", c);
		if (e > 0) { CHECK(dec((unsigned char*) b, e, &x, &sr) == e && x == c, "U+%X is encoded wrongly", c); count("code points encoded", 1); }
	}
}

static void t_path(void)
{
	char cwd[2000], d[1200]; snprintf(d, sizeof d, "%s", dir);
	switch (R(4)) { case 0: strcpy(d, "/"); break; case 1: break; default: { int k = 1 + R(100); size_t n = strlen(d); d[n++] = '/'; memset(d + n, 'x', k); d[n + k] = 0; mkdir(d, 0700); } }
	CHECK(chdir(d) == 0 && getcwd(cwd, sizeof cwd), "chdir %s", d);
	char p[600]; int n = R(3) ? R(20) : R(590); for (int i = 0; i < n; i++) p[i] = "ab/. \x80"[R(6)]; p[n] = 0; if (R(4) == 0 && n) p[0] = '/';
	CHECK(Path_IsAbsolute(p) == (p[0] == '/'), "Path_IsAbsolute(%s)", p);
	char want[3000]; snprintf(want, sizeof want, "%s%s%s", cwd, !strcmp(cwd, "/") ? "" : "/", p);
	size_t need = strlen(want) + 1;
	for (int k = 0; k < 12; k++) {
		size_t size = k == 0 ? 1024 : k < 6 ? (need > 4 ? need - 4 : 1) + R(9) : 1 + R(need + 10);
		char *b = malloc(size); const char *g = Path_MakeAbsolute(p, b, size);
		if (p[0] == '/') CHECK(g == p, "an absolute path was changed");
		else if (size >= need) CHECK(g == b && !strcmp(g, want), "%s in %s became %s", p, cwd, g ? g : "nothing");
		else CHECK(g == NULL, "%zu bytes were enough for %zu", size, need);
		count(g ? "paths" : "paths refused", 1);
		free(b);
	}
	CHECK(chdir("/") == 0, "chdir /");
}

static void t_source(void)
{
	Error e; Error_Init(&e);
	char name[1300]; int nl = R(60); for (int i = 0; i < nl; i++) name[i] = 'a' + R(26); name[nl] = 0;
	long n = R(3) ? R(200) : sizes() * 5; unsigned char *b = malloc(n + 1); fill(b, n); b[n] = 0;
	if (R(2)) for (long i = 0; i < n; i++) if (!b[i]) b[i] = 1;
	int file = R(2), whole = R(3) == 0; Source *s; char path[2600];
	if (whole && !file) n = strlen((char*) b);
	if (file) {
		snprintf(path, sizeof path, "%s/f_%s", dir, name); FILE *f = fopen(path, "wb"); CHECK(f, "fopen %s", path); fwrite(b, 1, n, f); fclose(f);
		int rel = R(2); if (rel) { CHECK(chdir(dir) == 0, "chdir"); }
		s = Source_FromFile(rel ? path + strlen(dir) + 1 : path, &e);
		CHECK(chdir("/") == 0, "chdir");
	} else {
		unsigned char *x = malloc(whole ? n + 1 : n ? n : 1); memcpy(x, b, whole ? n + 1 : n);
		char *nm = R(5) ? strdup(name) : NULL; s = Source_FromString(nm, (char*) x, whole ? -1 : n, &e);
		if (s) { if (nm) CHECK(Source_GetName(s) && !strcmp(Source_GetName(s), nm) && Source_GetName(s) != nm, "name"); else CHECK(Source_GetName(s) == NULL, "name of an unnamed source"); }
		free(nm); free(x);
	}
	CHECK(s && !e.occurred, "source of %ld bytes: %s", n, e.occurred ? e.message : "no error");
	Source *c[8]; int nc = 0; c[nc++] = s; for (int k = R(7); k > 0; k--) { c[nc] = Source_Copy(c[R(nc)]); CHECK(c[nc], "Source_Copy"); nc++; }
	while (nc) {
		int i = R(nc); Source *x = c[i]; c[i] = c[--nc];
		CHECK(Source_GetSize(x) == n && !memcmp(Source_GetBody(x), b, n) && Source_GetBody(x)[n] == 0, "content of a source of %ld bytes", n);
		if (file) { CHECK(Source_GetAbsolutePath(x) && !strcmp(Source_GetAbsolutePath(x), path), "path is %s", Source_GetAbsolutePath(x)); CHECK(!strcmp(Source_GetName(x), path), "name is %s", Source_GetName(x)); }
		else CHECK(Source_GetAbsolutePath(x) == NULL, "text with a path");
		count(file ? "sources from files" : "sources from text", 1);
		Source_Free(x);
	}
	if (file) unlink(path);
	/* failures */
	const char *miss = R(3) == 0 ? "" : R(2) ? "missing/f" : "nothing-there"; s = Source_FromFile(miss, &e);
	CHECK(s == NULL && e.occurred, "a missing file was read"); Error_Free(&e); Error_Init(&e);
	s = Source_FromFile(dir, &e); CHECK(s == NULL && e.occurred, "a directory was read"); Error_Free(&e); count("failures", 2);
	Error_Init(&e); memset(name, 'q', 1290); name[1290] = 0; s = Source_FromFile(name, &e); CHECK(s == NULL && e.occurred, "a path that's too long"); Error_Free(&e);
	free(b);
}

static int reports; static Error *reported;
static void on_report(Error *e) { reports++; reported = e; CHECK(e->occurred && e->message, "reported before being complete"); }
static void t_error(void)
{
	for (int k = 0; k < 20; k++) {
		Error e; int hook = R(2); reports = 0; if (hook) Error_Init2(&e, on_report); else Error_Init(&e);
		CHECK(!e.occurred, "occurred at once");
		int n = R(3) ? 500 + R(30) : R(5000); if (R(8) == 0) n = 511 + R(3) - 1; char *t = malloc(n + 1); for (int i = 0; i < n; i++) t[i] = 33 + R(90); t[n] = 0;
		ErrorType ty = 1 + R(4); int d = R(100000);
		Error_Report(&e, ty, "%s/%d", t, d);
		char *w = malloc(n + 20); int wn = sprintf(w, "%s/%d", t, d);
		CHECK(e.occurred && e.type == ty, "kind"); CHECK(e.length == wn && !strcmp(e.message, w) && !e.truncated, "message of %d bytes is %d", wn, e.length);
		CHECK(reports == hook && (!hook || reported == &e), "callback called %d times", reports); CHECK(e.line > 0 && e.file && e.func, "place");
		char *out = NULL; size_t on; FILE *f = open_memstream(&out, &on); Error_Print(&e, ErrorType_INTERNAL, f); fclose(f);
		static const char *kind[] = {"Error", "Syntax Error", "Semantic Error", "Runtime Error", "Internal Error"};
		char *want = malloc(n + 60); sprintf(want, "%s: %s.\n", kind[ty], w); CHECK(!strcmp(out, want), "printed %s", out);
		free(want); free(out); free(w); free(t); Error_Free(&e);
		CHECK(!e.occurred, "occurred after being released"); count(wn > 511 ? "long messages" : "short messages", 1);
	}
}

static void t_hash(void)
{
	for (int k = 0; k < 200; k++) {
		int n = 1 + R(R(2) ? 20 : 3000); unsigned char *a = malloc(n), *b = malloc(n + 9), *c = b + R(9); fill(a, n); memcpy(c, a, n);
		int h = hashbytes(a, n); CHECK(h == hashbytes(c, n), "equal bytes with different hashes"); CHECK(h != -1, "-1 is reserved"); CHECK(h == hashbytes(a, n), "changing hash"); CHECK(!memcmp(a, c, n), "changed its input");
		count("hashed", 1); free(a); free(b);
	}
	/* what is hashed matters: of many short strings few may share their hash */
	static int hs[4096]; int n = 0; char t[32];
	for (int k = 0; k < 4096; k++) { int l = sprintf(t, "%llx_%d", (unsigned long long) cur_seed, k); hs[n++] = hashbytes((unsigned char*) t, l); }
	int same = 0; for (int i = 0; i < n; i += 7) for (int j = 0; j < i; j++) same += hs[i] == hs[j];
	CHECK(same < 600, "%d of %d pairs of strings share their hash", same, n * n / 14); count("pairs compared", (long) n * n / 14);
}

int main(int argc, char **argv)
{
	static const struct { const char *name; void (*f)(void); } S[] = {{"bpalloc", t_bpalloc}, {"bucket", t_bucket}, {"promise", t_promise}, {"label", t_label}, {"stack", t_stack}, {"utf8", t_utf8}, {"path", t_path}, {"source", t_source}, {"error", t_error}, {"hash", t_hash}};
	if (argc != 5) return 2;
	unsigned long long first = strtoull(argv[2], 0, 10), n = strtoull(argv[3], 0, 10); dir = argv[4];
	setvbuf(stdout, NULL, _IOFBF, 1 << 16);
	for (unsigned i = 0; i < sizeof S / sizeof *S; i++) if (!strcmp(S[i].name, argv[1])) {
		for (unsigned long long s = first; s < first + n; s++) { seed(s); S[i].f(); count("histories", 1); }
		for (int k = 0; k < 64 && counts[k].name; k++) printf("count %s: %ld\n", counts[k].name, counts[k].n);
		printf("done\n"); return 0;
	}
	return 2;
}
