/* A host program that embeds the interpreter, driven by a script.
 *
 *   embed <script> <results>
 *
 * Commands (one a line, fields separated by spaces, texts in hexadecimal prefixed by 'x'):
 *   table <id> <n>              then n lines "slot <name> <kind> ..."
 *   func <k> <action> [<arg>]   what host function k does
 *   new <heap> <stack> <time> <gcper> <stop> <stdin>   a runtime
 *   default | plug <id> | plugstr <text> | plugfile <path> | plugsrc <name> <text>
 *   run <how> <name> <text>
 *   profile <path>
 *   free
 * Values: n T F i<int> f<hex float> x<hex string> b<hex buffer> l<n> v... m<n> k v ... t<type> q v u v v a A<k>
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <inttypes.h>
#include "run.h"
#include "runtime.h"
#include "builtins/utils.h"

#ifdef VRUN_ASAN
extern size_t __sanitizer_get_current_allocated_bytes(void);
static long allocated(void) { return (long) __sanitizer_get_current_allocated_bytes(); }
#else
static long allocated(void) { return 0; }
#endif

#define NF 24
#define NT 32
static FILE *job, *res;
static Runtime *rt;
static FILE *fin, *fout, *ferr;
static char *out, *err, *inbuf;
static size_t nout, nerr, ninbuf;
static long ncb, gcper, stop, wrong, before, inits[NT];
static int running, probes, shadowed, intr;
static char *lastprobe;

static struct { char action[16]; char *arg; } fn[NF];
static StaticMapSlot *table[NT];
static char token; /* the address is the callback's data */

static char *unhex(const char *h, size_t *n)
{
	if (*h != 'x' && *h != 'b') { fprintf(stderr, "bad text %s\n", h); exit(2); }
	h++;
	size_t l = strlen(h) / 2;
	char *s = malloc(l + 1);
	for (size_t i = 0; i < l; i++) { unsigned v; sscanf(h + 2*i, "%2x", &v); s[i] = v; }
	s[l] = 0;
	if (n) *n = l;
	return s;
}

static void hex(FILE *fp, char c, const char *s, size_t n)
{
	fputc(c, fp);
	for (size_t i = 0; i < n; i++) fprintf(fp, "%02x", (unsigned char) s[i]);
}

static TypeObject *type_named(const char *n)
{
	TypeObject *t[] = { Object_GetTypeType(), Object_GetNoneType(), Object_GetIntType(), Object_GetBoolType(), Object_GetFloatType(), Object_GetStringType(),
		Object_GetListType(), Object_GetMapType(), Object_GetBufferType(), Object_GetFileType(), Object_GetDirType(), Object_GetNullableType(), Object_GetSumType(), Object_GetAnyType() };
	for (unsigned i = 0; i < sizeof(t)/sizeof(*t); i++) if (!strcmp(t[i]->name, n)) return t[i];
	fprintf(stderr, "no type %s\n", n); exit(2);
}

/* Writes a value. */
static void put(FILE *fp, Object *o, int depth)
{
	Heap *heap = Runtime_GetHeap(rt);
	Error e; Error_Init(&e);
	if (o == NULL) fputs("NULL", fp);
	else if (Object_IsNone(o)) fputc('n', fp);
	else if (Object_IsBool(o)) fputc(Object_GetBool(o) ? 'T' : 'F', fp);
	else if (Object_IsInt(o)) fprintf(fp, "i%lld", Object_GetInt(o));
	else if (Object_IsFloat(o)) fprintf(fp, "f%a", Object_GetFloat(o));
	else if (Object_IsString(o)) { size_t n; const char *s = Object_GetString(o, &n); hex(fp, 'x', s, n); if (s[n] != 0 || Object_GetString(o, NULL) != s) fputs("!unterminated", fp); }
	else if (Object_IsBuffer(o)) { size_t n; const char *s = Object_GetBuffer(o, &n); hex(fp, 'b', s, n); }
	else if (Object_IsList(o) && depth < 50) {
		int n = Object_Count(o, &e);
		fprintf(fp, "l%d", n);
		for (int i = 0; i < n; i++) {
			fputc(' ', fp);
			Object *k = Object_FromInt(i, heap, &e);
			put(fp, k ? Object_Select(o, k, heap, &e) : NULL, depth + 1);
		}
	} else if (Object_IsMap(o) && depth < 50) {
		int n = Object_Count(o, &e);
		Object *keys = Object_KeysOf(o, heap, &e);
		fprintf(fp, "m%d", n);
		for (int i = 0; i < n; i++) {
			fputc(' ', fp);
			Object *k = Object_FromInt(i, heap, &e);
			if (k) k = Object_Select(keys, k, heap, &e);
			put(fp, k, depth + 1);
			fputc(' ', fp);
			put(fp, k ? Object_Select(o, k, heap, &e) : NULL, depth + 1);
		}
	} else if (Object_GetType(o) == Object_GetTypeType()) fprintf(fp, "t%s", ((TypeObject*) o)->name);
	else fprintf(fp, "?%s", Object_GetName(o) ? Object_GetName(o) : "");
	if (e.occurred) fprintf(fp, "!error");
	Error_Free(&e);
}

/* Builds a value from its description. */
static Object *get(char **p, Object **argv, unsigned argc, Error *e)
{
	Heap *heap = Runtime_GetHeap(rt);
	while (**p == ' ') ++*p;
	char *t = *p;
	while (**p && **p != ' ') ++*p;
	size_t len = *p - t;
	char buf[len + 1]; memcpy(buf, t, len); buf[len] = 0;
	switch (buf[0]) {
		case 'n': return Object_NewNone(heap, e);
		case 'T': return Object_FromBool(1, heap, e);
		case 'F': return Object_FromBool(0, heap, e);
		case 'i': return Object_FromInt(strtoll(buf + 1, NULL, 10), heap, e);
		case 'f': return Object_FromFloat(strtod(buf + 1, NULL), heap, e);
		case 'x': { size_t n; char *s = unhex(buf, &n); Object *o = Object_FromString(s, n % 2 || memchr(s, 0, n) ? (int) n : -1, heap, e); memset(s, 'z', n); free(s); return o; }
		case 'b': { size_t n; char *s = unhex(buf, &n); Object *o = Object_NewBufferFromString(s, n, heap, e); memset(s, 'z', n); free(s); return o; }
		case 't': return (Object*) type_named(buf + 1);
		case 'q': { Object *x = get(p, argv, argc, e); return x ? Object_NewNullable(x, heap, e) : NULL; }
		case 'u': { Object *x = get(p, argv, argc, e), *y = x ? get(p, argv, argc, e) : NULL; return y ? Object_NewSum(x, y, heap, e) : NULL; }
		case 'a': return Object_NewAny();
		case 'A': { unsigned k = atoi(buf + 1); return k < argc ? argv[k] : Object_NewNone(heap, e); }
		case 'l': {
			int n = atoi(buf + 1);
			Object *items[n + 1];
			for (int i = 0; i < n; i++) if (!(items[i] = get(p, argv, argc, e))) return NULL;
			if (n % 2) return Object_NewList2(n, items, heap, e);
			Object *l = Object_NewList(n % 4 ? -1 : n / 2, heap, e);
			for (int i = 0; l && i < n; i++) {
				Object *k = Object_FromInt(i, heap, e);
				if (!k || !Object_Insert(l, k, items[i], heap, e)) return NULL;
			}
			return l;
		}
		case 'm': {
			int n = atoi(buf + 1);
			Object *m = Object_NewMap(n % 2 ? -1 : n, heap, e);
			for (int i = 0; m && i < n; i++) {
				Object *k = get(p, argv, argc, e), *v = k ? get(p, argv, argc, e) : NULL;
				if (!v || !Object_Insert(m, k, v, heap, e)) return NULL;
			}
			return m;
		}
	}
	fprintf(stderr, "bad value %s\n", buf); exit(2);
}

static void put_error(FILE *fp, Error *e)
{
	fprintf(fp, "%d %d ", e->occurred, e->type);
	hex(fp, 'x', e->message ? e->message : "", e->message ? strlen(e->message) : 0);
	if (e->message && (int) strlen(e->message) != e->length) fprintf(fp, "!length");
}

static FILE *stream(void)
{
	static int k;
	char b[32];
	FILE *fp = fmemopen(NULL, 64, "w+");
	snprintf(b, sizeof(b), "the host's file %d", ++k);
	fputs(b, fp); fflush(fp);
	return fp;
}

static int behave(int k, Runtime *runtime, Object **argv, unsigned argc, Object *rets[static MAX_RETS], Error *e)
{
	fprintf(res, "call %d %u", k, argc);
	for (unsigned i = 0; i < argc; i++) { fputc(' ', res); put(res, argv[i], 0); }
	fputc('\n', res);
	if (runtime != rt) { fputs("a host function is given another runtime\n", stderr); exit(6); }
	if (e->occurred) { fputs("a host function is called with an error already reported\n", stderr); exit(6); }
	char *a = fn[k].action, *arg = fn[k].arg;
	Heap *heap = Runtime_GetHeap(runtime);
	if (!strcmp(a, "ret")) {
		char *p = arg; int n = strtol(p, &p, 10);
		for (int i = 0; i < n; i++) if (!(rets[i] = get(&p, argv, argc, e))) return -1;
		return n;
	}
	if (!strcmp(a, "err")) {
		int type; char text[4096];
		sscanf(arg, "%d %4095s", &type, text);
		char *m = unhex(text, NULL);
		Error_Report(e, type, "%s", m);
		free(m);
		return -1;
	}
	if (!strcmp(a, "call")) {
		if (argc == 0) { Error_Report(e, ErrorType_RUNTIME, "nothing to call"); return -1; }
		Object *r[MAX_RETS];
		int n = Object_Call(argv[0], argv + 1, argc - 1, r, heap, e);
		fprintf(res, "back %d", n);
		for (int i = 0; i < n; i++) { rets[i] = r[i]; fputc(' ', res); put(res, r[i], 0); }
		fputc('\n', res);
		return n;
	}
	if (!strcmp(a, "intr")) { Runtime_Interrupt(runtime); return 0; }
	if (!strcmp(a, "gc")) { return Runtime_CollectGarbage(runtime, e) ? 0 : -1; }
	if (!strcmp(a, "run")) {
		char *s = unhex(arg, NULL);
		int n = runStringEx(runtime, "nested", s, rets, e);
		free(s);
		fprintf(res, "back %d", n);
		for (int i = 0; i < n; i++) { fputc(' ', res); put(res, rets[i], 0); }
		fputc('\n', res);
		return n;
	}
	if (!strcmp(a, "write")) { char *s = unhex(arg, NULL); fputs(s, Runtime_GetOutputStream(runtime)); fputs(s, Runtime_GetErrorStream(runtime)); free(s); return 0; }
	if (!strcmp(a, "read")) {
		int c, n = 0; char b[256];
		while (n < 255 && (c = getc(Runtime_GetInputStream(runtime))) != EOF && c != '\n') b[n++] = c;
		if (n == 0 && c == EOF) return 0;
		return (rets[0] = Object_FromString(b, n, heap, e)) ? 1 : -1;
	}
	if (!strcmp(a, "folder")) {
		char b[4096]; memset(b, 'Z', sizeof(b));
		size_t n = Runtime_GetCurrentScriptFolder(runtime, b, sizeof(b));
		if (n >= sizeof(b) || b[n] != 0) { fputs("the folder isn't terminated\n", stderr); exit(6); }
		for (size_t k = 0; k < n + 3; k++) { /* buffers that are too short, and just enough */
			char *s = malloc(k + !k); memset(s, 'Z', k);
			size_t got = Runtime_GetCurrentScriptFolder(runtime, s, k);
			if (got != (k > n ? n : 0) || (got && memcmp(s, b, n + 1))) { fprintf(stderr, "the folder of %zu bytes in a buffer of %zu: %zu\n", n, k, got); exit(6); }
			free(s);
		}
		const char *abs = Runtime_GetCurrentScriptAbsolutePath(runtime);
		return returnValues2(e, runtime, rets, "oo", Object_FromString(b, n, heap, e), abs ? Object_FromString(abs, -1, heap, e) : Object_NewNone(heap, e));
	}
	if (!strcmp(a, "var")) { /* variables belong to the scripts */
		Object *v = Object_FromInt(1, heap, e);
		return v && Runtime_SetVariable(runtime, e, "injected", v) ? 0 : -1;
	}
	if (!strcmp(a, "varget")) { Object *v; return Runtime_GetVariable(runtime, e, "injected", &v) ? 0 : -1; }
	if (!strcmp(a, "push")) { return Runtime_Push(runtime, e, argc ? argv[0] : Object_NewNone(heap, e)) ? 0 : -1; }
	if (!strcmp(a, "pop")) { return Runtime_Pop(runtime, e, NULL, 1) ? 0 : -1; }
	if (!strcmp(a, "parse")) {
		ParsedArgument pa[40]; memset(pa, 0xAA, sizeof(pa));
		if (!parseArgs(e, argv, argc, pa, arg)) return -1;
		fputs("parsed", res);
		int k = 0;
		for (char *f = arg; *f; f++, k++) {
			int opt = *f == '?'; if (opt) f++;
			if (opt && !pa[k].defined) { fputs(" -", res); continue; }
			switch (*f) {
				case 'b': fprintf(res, " %c", pa[k].as_bool ? 'T' : 'F'); break;
				case 'i': fprintf(res, " i%" PRId64, pa[k].as_int); break;
				case 'f': fprintf(res, " f%a", pa[k].as_float); break;
				case 's': fputc(' ', res); hex(res, 'x', pa[k].as_string.data, pa[k].as_string.size); break;
				case 'B': fputc(' ', res); hex(res, 'b', pa[k].as_buffer.data, pa[k].as_buffer.size); break;
				case 'F': {
					char b[64]; rewind(pa[k].as_file);
					size_t n = fread(b, 1, sizeof(b), pa[k].as_file);
					fputc(' ', res); hex(res, 'x', b, n);
					if (!pa[k].defined) fputs("!undefined", res);
					break;
				}
				default: fputs(" *", res);
			}
		}
		fputc('\n', res);
		return 0;
	}
	if (!strcmp(a, "values")) /* through the helper: "onifs" in the order of the argument, all the same values */
		return !strcmp(arg, "o") ? returnValues2(e, runtime, rets, "o", argc ? argv[0] : Object_NewNone(heap, e))
		     : !strcmp(arg, "nifs") ? returnValues2(e, runtime, rets, "nifs", -(1LL << 62), 0.3, "h\xc3\xa9")
		     : !strcmp(arg, "sfin") ? returnValues(e, heap, rets, "sfin", "", -1e300, 1LL << 40)
		     : !strcmp(arg, "iz") ? returnValues2(e, runtime, rets, "iz", 1LL, 2LL)
		     : !strcmp(arg, "iFs") ? returnValues(e, heap, rets, "iFs", 1LL, stream(), "after")
		     : !strcmp(arg, "D") ? returnValues2(e, runtime, rets, "o", Object_FromDIR(opendir("/"), heap, e))
		     : !strcmp(arg, "iiiiiiii") ? returnValues2(e, runtime, rets, "iiiiiiii", 1LL, 2LL, 3LL, 4LL, 5LL, 6LL, 7LL, 8LL)
		     : !strcmp(arg, "iiiiiiiii") ? returnValues2(e, runtime, rets, "iiiiiiiii", 1LL, 2LL, 3LL, 4LL, 5LL, 6LL, 7LL, 8LL, 9LL)
		     : returnValues2(e, runtime, rets, "");
	if (!strcmp(a, "object")) { /* the operations on objects, from the host */
		if (argc < 2) return 0;
		Error x; Error_Init(&x);
		Object *c = Object_Copy(argv[0], heap, &x);
		fputs("object ", res); put(res, c, 0);
		fprintf(res, " %d", x.occurred);
		Error_Free(&x); Error_Init(&x);
		bool eq = Object_Compare(argv[0], argv[1], &x);
		if (x.occurred) fputs(" -", res); else fprintf(res, " %d", eq);
		Error_Free(&x); Error_Init(&x);
		int n = Object_Count(argv[0], &x);
		if (x.occurred) fputs(" -", res); else fprintf(res, " %d", n);
		Error_Free(&x); Error_Init(&x);
		Object *s = Object_Select(argv[0], argv[1], heap, &x);
		fputc(' ', res);
		if (x.occurred) fputc('-', res); else put(res, s, 0);
		Error_Free(&x); Error_Init(&x);
		fprintf(res, " %s\n", Object_GetType(argv[0])->name);
		return 0;
	}
	fprintf(stderr, "bad action %s\n", a); exit(2);
}

#define D(k) static int host##k(Runtime *r, Object **argv, unsigned argc, Object *rets[static MAX_RETS], Error *e) { return behave(k, r, argv, argc, rets, e); }
D(0) D(1) D(2) D(3) D(4) D(5) D(6) D(7) D(8) D(9) D(10) D(11) D(12) D(13) D(14) D(15) D(16) D(17) D(18) D(19) D(20) D(21) D(22) D(23)
static int (*host[NF])(Runtime*, Object**, unsigned, Object*[static MAX_RETS], Error*) = {
	host0, host1, host2, host3, host4, host5, host6, host7, host8, host9, host10, host11, host12, host13, host14, host15, host16, host17, host18, host19, host20, host21, host22, host23 };

static void init(StaticMapSlot *slots)
{
	for (int i = 0; i < NT; i++) if (table[i] == slots) { inits[i]++; return; }
	fputs("the constructor of a table is given another\n", stderr); exit(6);
}

static bool callback(Runtime *r, void *data)
{
	if (r != rt || data != &token) { fputs("the callback is given something else\n", stderr); exit(6); }
	ncb++;
	if (running && Runtime_GetCurrentIndex(r) >= 0 && Runtime_GetClosure(r) == NULL) {
		Error e; Error_Init(&e);
		if (probes == 0) {
			/* the first instruction: nothing has run yet */
			Object *v = Object_FromString("from the host", -1, Runtime_GetHeap(r), &e);
			if (!v || !Runtime_SetVariable(r, &e, "injected", v)) { fputs("a variable can't be set\n", stderr); exit(6); }
			probes = 1;
		}
		Object *v;
		if (!Runtime_GetVariable(r, &e, "probe", &v)) { fputs("a variable can't be read\n", stderr); exit(6); }
		char *s; size_t n;
		FILE *m = open_memstream(&s, &n);
		put(m, v, 0);
		fclose(m);
		if (!lastprobe || strcmp(lastprobe, s)) { fprintf(res, "probe %s\n", s); free(lastprobe); lastprobe = s; }
		else free(s);
		Error_Free(&e);
	}
	if (running && Runtime_GetCurrentIndex(r) >= 0 && Runtime_GetClosure(r) != NULL) {
		/* in a function: its own variables come before those of the code around it */
		Error e; Error_Init(&e);
		Object *v, *w = NULL, *at[] = { Runtime_GetLocals(r), Runtime_GetClosure(r) };
		Object *k = Object_FromString("probe", -1, Runtime_GetHeap(r), &e);
		for (int i = 0; k && !w && i < 2; i++) if (at[i]) w = Object_Select(at[i], k, Runtime_GetHeap(r), &e);
		if (!Runtime_GetVariable(r, &e, "probe", &v) || v != w) { fputs("a variable of a function isn't the closest\n", stderr); exit(6); }
		if (e.occurred) { fputs("reading a variable fails\n", stderr); exit(6); }
		if (w && Object_Select(at[0], k, Runtime_GetHeap(r), &e)) shadowed++;
	}
	if (gcper > 0 && ncb % gcper == 0) {
		Error e; Error_Init(&e);
		if (!Runtime_CollectGarbage(r, &e)) { Error_Free(&e); return false; }
		Error_Free(&e);
	}
	return !(running && stop > 0 && ncb >= stop);
}

static void result(const char *what, bool ok, Error *e)
{
	fprintf(res, "%s %d ", what, ok);
	if (ok != !e->occurred) fputs("!mismatch ", res);
	put_error(res, e);
	char *t; size_t nt; FILE *m = open_memstream(&t, &nt);
	if (!ok) Runtime_PrintStackTrace(rt, m);
	fclose(m);
	fputc(' ', res); hex(res, 'x', t, nt); free(t);
	fputc('\n', res);
	Error_Free(e);
}

int main(int argc, char **argv)
{
	job = fopen(argv[1], "r");
	res = fopen(argv[2], "w");
	static char jb[1 << 16], rb[1 << 16];
	setvbuf(job, jb, _IOFBF, sizeof(jb)); setvbuf(res, rb, _IOFBF, sizeof(rb));
	size_t cap = 1 << 22; char *line = malloc(cap); ssize_t n;
	while ((n = getline(&line, &cap, job)) > 0) {
		if (line[n-1] == '\n') line[--n] = 0;
		char *f[8] = {0}; int nf = 0;
		char *p = line;
		while (nf < 7 && *p) { f[nf++] = p; while (*p && *p != ' ') p++; if (*p) *p++ = 0; }
		f[nf] = p; /* the rest */
		Error e; Error_Init(&e);
		if (!strcmp(f[0], "table")) {
			int id = atoi(f[1]), k = atoi(f[2]);
			table[id] = calloc(k + 1, sizeof(StaticMapSlot));
			for (int i = 0; i < k; i++) {
				char name[512], kind[16], a[8192], b[64];
				if (getline(&line, &cap, job) < 0) return 2;
				a[0] = b[0] = 0;
				sscanf(line, "slot %511s %15s %8191s %63s", name, kind, a, b);
				StaticMapSlot *s = &table[id][i];
				s->name = unhex(name, NULL);
				switch (kind[0]) {
					case 'b': s->kind = SM_BOOL; s->as_bool = atoi(a); break;
					case 'i': s->kind = SM_INT; s->as_int = strtoll(a, NULL, 10); break;
					case 'f': s->kind = SM_FLOAT; s->as_float = strtod(a, NULL); break;
					case 'F': s->kind = SM_FUNCT; s->as_funct = host[atoi(a)]; s->argc = atoi(b); break;
					case 's': s->kind = SM_STRING; s->as_string = unhex(a, NULL); s->length = atoi(b); break;
					case 'm': s->kind = SM_SMAP; s->as_smap = table[atoi(a)]; break;
					case 'n': s->kind = SM_NONE; break;
					case 't': s->kind = SM_TYPE; s->as_type = type_named(a); break;
					case 'o': s->kind = SM_OBJECT; s->as_object = a[0] == 'a' ? Object_NewAny() : (Object*) type_named(a); break;
				}
			}
			table[id][k].name = NULL; table[id][k].kind = SM_END;
		} else if (!strcmp(f[0], "func")) {
			int k = atoi(f[1]);
			snprintf(fn[k].action, 16, "%s", f[2]);
			/* put the rest back together */
			char *rest = f[3] ? strdup(f[3]) : strdup("");
			for (int i = 4; i <= nf && f[i]; i++) if (f[i][0]) { char *t; if (asprintf(&t, "%s %s", rest, f[i]) < 0) return 2; free(rest); rest = t; }
			free(fn[k].arg); fn[k].arg = rest;
		} else if (!strcmp(f[0], "new")) {
			free(inbuf);
			inbuf = unhex(f[6], &ninbuf);
			before = allocated();
			fin = ninbuf ? fmemopen(inbuf, ninbuf, "r") : fopen("/dev/null", "r");
			fout = open_memstream(&out, &nout); ferr = open_memstream(&err, &nerr);
			RuntimeConfig c = Runtime_GetDefaultConfigs();
			if (c.heap != 1024*1024 || c.stack != 1024 || c.time || c.callback.func || c.stdin != stdin || c.stdout != stdout || c.stderr != stderr) { fputs("the default configuration isn't the documented one\n", stderr); exit(6); }
			c.heap = atol(f[1]); c.stack = atol(f[2]); c.time = atoi(f[3]); gcper = atol(f[4]); stop = atol(f[5]);
			c.stdin = fin; c.stdout = fout; c.stderr = ferr;
			if (gcper >= 0) c.callback = (RuntimeCallback) { callback, &token };
			ncb = 0; running = 0;
			rt = Runtime_New(c);
			if (!rt) { fputs("no runtime\n", stderr); return 2; }
			if (Runtime_GetInputStream(rt) != fin || Runtime_GetOutputStream(rt) != fout || Runtime_GetErrorStream(rt) != ferr || Runtime_GetCallback(rt).func != c.callback.func || !Runtime_GetTimingTable(rt) != !c.time) { fputs("the configuration isn't kept\n", stderr); exit(6); }
			fprintf(res, "new\n");
		} else if (!strcmp(f[0], "default")) { bool ok = Runtime_plugDefaultBuiltins(rt, &e); result("plug", ok, &e); }
		else if (!strcmp(f[0], "intr")) intr = 1;
		else if (!strcmp(f[0], "plug")) {
			int id = atoi(f[1]); long k = inits[id];
			bool ok = Runtime_plugBuiltinsFromStaticMap(rt, table[id], f[2] && f[2][0] ? init : NULL, &e);
			result("plug", ok, &e);
			if (inits[id] != k + (f[2] && f[2][0] ? 1 : 0)) { fputs("the constructor of a table isn't called once\n", stderr); exit(6); }
		} else if (!strcmp(f[0], "plugstr")) { char *s = unhex(f[1], NULL); bool ok = Runtime_plugBuiltinsFromString(rt, s, &e); memset(s, 'z', strlen(s)); free(s); result("plug", ok, &e); }
		else if (!strcmp(f[0], "plugfile")) { char *s = unhex(f[1], NULL); bool ok = Runtime_plugBuiltinsFromFile(rt, s, &e); memset(s, 'z', strlen(s)); free(s); result("plug", ok, &e); }
		else if (!strcmp(f[0], "plugsrc")) {
			char *s = unhex(f[2], NULL), *nm = unhex(f[1], NULL);
			Source *src = Source_FromString(nm, s, -1, &e);
			free(s); free(nm);
			bool ok = Runtime_plugBuiltinsFromSource(rt, src, &e);
			Source_Free(src);
			result("plug", ok, &e);
		} else if (!strcmp(f[0], "run")) {
			char *h = f[1], *nm = !strcmp(f[2], "-") ? NULL : unhex(f[2], NULL), *s = unhex(f[3], NULL);
			Object *rets[MAX_RETS];
			for (int i = 0; i < MAX_RETS; i++) rets[i] = (Object*) 16;
			int k = -2; bool boolean = false;
			if (intr) { Runtime_Interrupt(rt); intr = 0; }
			running = 1; probes = 0; ncb = 0; free(lastprobe); lastprobe = NULL;
			if (!strcmp(h, "string")) boolean = true, k = runString(rt, s, &e) ? 0 : -1;
			else if (!strcmp(h, "stringex")) k = runStringEx(rt, nm, s, rets, &e);
			else if (!strcmp(h, "file")) boolean = true, k = runFile(rt, nm, &e) ? 0 : -1;
			else if (!strcmp(h, "fileex")) k = runFileEx(rt, nm, rets, &e);
			else if (!strcmp(h, "bstring")) boolean = true, k = runBytecodeString(rt, s, &e) ? 0 : -1;
			else if (!strcmp(h, "bstringex")) k = runBytecodeStringEx(rt, nm, s, rets, &e);
			else if (!strcmp(h, "bfile")) boolean = true, k = runBytecodeFile(rt, nm, &e) ? 0 : -1;
			else if (!strcmp(h, "bfileex")) k = runBytecodeFileEx(rt, nm, rets, &e);
			else if (!strcmp(h, "source") || !strcmp(h, "bsource")) {
				Source *src = Source_FromString(nm, s, -1, &e);
				k = h[0] == 'b' ? runBytecodeSource(rt, src, rets, &e) : runSource(rt, src, rets, &e);
				Source_Free(src);
			}
			running = 0;
			free(s); free(nm);
			fflush(fout); fflush(ferr);
			if (k >= 0) {
				fprintf(res, "run %d", k);
				if (!boolean) for (int i = 0; i < k; i++) { fputc(' ', res); put(res, rets[i], 0); }
				if (e.occurred) fprintf(res, " !error");
				fputc('\n', res);
			} else {
				char *t; size_t nt; FILE *m = open_memstream(&t, &nt);
				Error_Print(&e, ErrorType_UNSPECIFIED, m);
				Runtime_PrintStackTrace(rt, m);
				fclose(m);
				fputs("fail ", res); put_error(res, &e); fputc(' ', res); hex(res, 'x', t, nt); fputc('\n', res);
				free(t);
			}
			for (int i = k < 0 ? 0 : k; !boolean && k >= 0 && i < MAX_RETS; i++) if (rets[i] != (Object*) 16) { fprintf(res, "!beyond\n"); break; }
			Error_Free(&e);
			fprintf(res, "out "); hex(res, 'x', out, nout); fputc(' ', res); hex(res, 'x', err, nerr);
			fprintf(res, " %ld %d %d\n", ncb, Runtime_WasInterrupted(rt), shadowed); shadowed = 0;
		} else if (!strcmp(f[0], "profile")) {
			char *path = unhex(f[1], NULL), *t; size_t nt;
			FILE *m = open_memstream(&t, &nt);
			Runtime_SerializeProfilingResultsToStream(rt, m);
			fclose(m);
			bool ok = Runtime_SerializeProfilingResultsToFile(rt, path);
			fprintf(res, "profile %d ", ok); hex(res, 'x', t, nt); fputc('\n', res);
			free(t); free(path);
		} else if (!strcmp(f[0], "free")) {
			Runtime_Free(rt);
			free(lastprobe); lastprobe = NULL;
			fclose(fin); fclose(fout); fclose(ferr);
			fputs("free ", res); hex(res, 'x', out, nout);
			free(out); free(err); out = err = NULL; nout = nerr = 0;
			fprintf(res, " %ld\n", allocated() - before);
		} else { fprintf(stderr, "bad command %s\n", f[0]); return 2; }
	}
	fprintf(res, "end\n");
	fclose(res);
	return 0;
}
