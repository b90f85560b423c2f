/* vrun: runs batches of Noja cases, each one in a process of its own, with the
 * library of /repo linked in, and reports what was observed from the outside.
 *
 * usage: vrun <batch file> <result file>
 *
 * A batch is a sequence of
 *     <id> <mode> <heap> <gcper> <gcphase> <abort_at> <intr_at> <flags> <cpu_s> <nname> <nsrc> <nin>\n
 *     <name bytes><source bytes><stdin bytes>
 *
 *   mode: 0 noja source, 1 assembly, 2 AST diagram, 3 compile + disassemble (no execution),
 *         4 run the file called <name>, 5 run the assembly file called <name>,
 *         6 assemble + disassemble (no execution), 7 diagram of the file called <name>,
 *         8 compare: <name> and <source> are two noja sources; are they compiled to the same code?
 *           (with 2 in the flags they're assembly sources)
 *         9 compile <source> and print it as assembly, 10 same for an assembly source (reassembly);
 *         both also assemble what they printed and say whether it's equivalent to the original
 *   gcper/gcphase: force a collection at the callbacks number gcphase + k*gcper
 *   abort_at: the callback asks to stop at its n-th call (0: never)
 *   intr_at:  Runtime_Interrupt is called at the n-th callback (0: never)
 *   flags: 1 profile, 2 don't plug the builtins, 4 no callback at all, 8 record the opcodes,
 *          16 run it twice in the same runtime, 32 don't free the runtime (for comparison)
 *          bits 8 to 15: the size of the stack (0: the default)
 *
 * For each case the result file gets
 *     <id> <how> <code> <ok> <errtype> <nmsg> <ninstr> <ngc> <gcerr> <leak> <fds> <nout> <nerr> <nops> <depth> <done> <outpos>\n
 *     <stdout><stderr><message><opcode histogram: nops unsigned 32>
 *   (outpos: the position of stdout when the stop was requested, or -1)
 *   (compiled with VRUN_OOM: flags>>16 is the number of the memory request to refuse, counting from 1,
 *   128 in the flags refuses all the following ones too; <gcerr> is the number of requests
 *   refused and <depth> the number of requests)
 *   how: 0 exited, 1 killed by signal <code>, 2 wall clock timeout
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <poll.h>
#include <time.h>
#include <fcntl.h>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include "run.h"
#include "runtime.h"
#include "diagram.h"
#include "compiler/compile.h"
#include "assembler/assemble.h"

#ifdef VRUN_ASAN
extern size_t __sanitizer_get_current_allocated_bytes(void);
static long allocated(void) { return (long) __sanitizer_get_current_allocated_bytes(); }
#else
#include <malloc.h>
static long allocated(void) { return (long) mallinfo2().uordblks; }
#endif

#define MAXOPS 64

#ifdef VRUN_OOM
/* The memory requests of the library go through these (ld --wrap). */
extern void *__real_malloc(size_t), *__real_calloc(size_t, size_t), *__real_realloc(void*, size_t);
static long requests, refuse_at, refused; static int armed, sticky;
static int refuse(void)
{
	if (!armed) return 0;
	requests++;
	if (refuse_at > 0 && (requests == refuse_at || (sticky && requests > refuse_at))) { refused++; errno = ENOMEM; return 1; }
	return 0;
}
void *__wrap_malloc(size_t n) { return refuse() ? NULL : __real_malloc(n); }
void *__wrap_calloc(size_t n, size_t m) { return refuse() ? NULL : __real_calloc(n, m); }
void *__wrap_realloc(void *p, size_t n) { return refuse() ? NULL : __real_realloc(p, n); }
extern FILE *__real_fmemopen(void*, size_t, const char*);
FILE *__wrap_fmemopen(void *b, size_t n, const char *m) { return refuse() ? NULL : __real_fmemopen(b, n, m); }
char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = __wrap_malloc(n); if (p) memcpy(p, s, n); return p; }
#define ARM(c) (requests = refused = 0, refuse_at = (c)->flags >> 16, sticky = ((c)->flags & 128) != 0, armed = 1)
#define DISARM() (armed = 0)
#else
#define ARM(c)
#define DISARM()
#endif

typedef struct {
	int done, ok, errtype;
	int msglen;
	char msg[1024];
	long ninstr, ngc, gcerr, leak, fds, outpos;
	unsigned depth;
	uint32_t ops[MAXOPS];
} Shared;

typedef struct {
	long gcper, gcphase, abort_at, intr_at;
	int flags;
	Shared *sh;
} Ctx;

static bool callback(Runtime *rt, void *data)
{
	Ctx *c = data;
	long n = ++c->sh->ninstr;

	if ((c->flags & 8)) {
		Executable *exe = Runtime_GetCurrentExecutable(rt);
		if (exe != NULL) {
			Opcode op; Operand ops[3]; int opc = 3;
			if (Executable_Fetch(exe, Runtime_GetCurrentIndex(rt), &op, ops, &opc) && (unsigned) op < MAXOPS)
				c->sh->ops[op]++;
		}
		size_t d = Runtime_GetFrameStackUsage(rt);
		if (d > c->sh->depth) c->sh->depth = d;
	}
	if (c->gcper > 0 && n >= c->gcphase && (n - c->gcphase) % c->gcper == 0) {
		Error e;
		Error_Init(&e);
		c->sh->ngc++;
		if (!Runtime_CollectGarbage(rt, &e)) {
			c->sh->gcerr++;
			Error_Free(&e);
			return false;
		}
		Error_Free(&e);
	}
	if (c->intr_at > 0 && n == c->intr_at) {
		c->sh->outpos = ftell(stdout);
		Runtime_Interrupt(rt);
	}
	if (c->abort_at > 0 && n >= c->abort_at) {
		c->sh->outpos = ftell(stdout);
		return false;
	}
	return true;
}

/* Builtins of the host. */
static Shared *host_sh;

static int host_stop(Runtime *rt, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
{
	(void) argc; (void) error;
	host_sh->outpos = ftell(stdout);
	Runtime_Interrupt(rt);
	rets[0] = argv[0];
	return 1;
}

static StaticMapSlot host_table[] = {
	{ "stop", SM_FUNCT, .as_funct = host_stop, .argc = 1 },
	{ NULL, SM_END, {}, {} },
};

static int count_fds(void)
{
	int n = 0;
	DIR *d = opendir("/proc/self/fd");
	if (d == NULL) return -1;
	while (readdir(d) != NULL) n++;
	closedir(d);
	return n;
}

static void take_error(Shared *sh, Error *e)
{
	sh->errtype = e->occurred ? (int) e->type : -1;
	int n = e->message ? e->length : 0;
	if (n < 0) n = 0;
	if (n > (int) sizeof(sh->msg)) n = sizeof(sh->msg);
	if (e->message && n > 0) memcpy(sh->msg, e->message, n);
	sh->msglen = n;
}

/* Prints an executable as an assembly source. */
static void emit(Executable *exe, FILE *fp)
{
	Opcode op; Operand ops[3]; int opc;
	for (int i = 0; opc = 3, Executable_Fetch(exe, i, &op, ops, &opc); i++) {
		fprintf(fp, "L%d: %s", i, Executable_GetOpcodeName(op));
		for (int j = 0; j < opc; j++) {
			fputs(j ? ", " : " ", fp);
			switch (ops[j].type) {
				case OPTP_IDX: fprintf(fp, "L%lld", ops[j].as_int); break;
				case OPTP_INT: fprintf(fp, "%lld", ops[j].as_int); break;
				case OPTP_FLOAT: fprintf(fp, "%.120f", ops[j].as_float); break;
				case OPTP_STRING:
				fputc('"', fp);
				for (const char *p = ops[j].as_string; *p; p++)
					switch (*p) {
						case '\n': fputs("\\n", fp); break;
						case '\t': fputs("\\t", fp); break;
						case '\r': fputs("\\r", fp); break;
						case '"': fputs("\\\"", fp); break;
						case '\\': fputs("\\\\", fp); break;
						default: fputc(*p, fp);
					}
				fputc('"', fp);
				break;
				default: fputs("?", fp);
			}
		}
		fputs(";\n", fp);
	}
}

static void child(int mode, long heap, Ctx *c, const char *name, long nname, const char *src, long nsrc)
{
	Shared *sh = c->sh;
	Error error;
	Error_Init(&error);
	(void) nname;
	long before = allocated();
	int fds = count_fds();
	ARM(c);

	if (mode == 2 || mode == 7) {
		int off = -1;
		char *res = mode == 2 ? diagramStringAST(src, &error, &off) : diagramFileAST(name, &error, &off);
		if (res == NULL) {
			take_error(sh, &error);
			Error_Print(&error, ErrorType_UNSPECIFIED, stderr);
			Error_Free(&error);
		} else {
			sh->ok = 1;
			fwrite(res, 1, strlen(res), stdout);
			free(res);
		}
	} else if (mode == 9 || mode == 10) {
		Source *s = Source_FromString(NULL, src, nsrc, &error);
		int off = -1;
		Executable *exe = s == NULL ? NULL : mode == 10 ? assemble(s, &error, &off) : compile(s, &error, &off);
		if (exe != NULL) {
			char *text; size_t len;
			FILE *m = open_memstream(&text, &len);
			emit(exe, m);
			fclose(m);
			fwrite(text, 1, len, stdout);
			Source *s2 = Source_FromString(NULL, text, len, &error);
			Executable *exe2 = s2 ? assemble(s2, &error, &off) : NULL;
			free(text);
			if (exe2 != NULL) {
				sh->ok = 1;
				fputs(Executable_Equiv(exe, exe2, stderr, "") ? "equivalent\n" : "different\n", stderr);
				Executable_Free(exe2);
			} else fputs("can't be reassembled\n", stderr);
			if (s2) Source_Free(s2);
			Executable_Free(exe);
		}
		if (error.occurred) {
			take_error(sh, &error);
			Error_Print(&error, ErrorType_UNSPECIFIED, stderr);
			fprintf(stderr, "offset=%d\n", off);
			Error_Free(&error);
		}
		if (s) Source_Free(s);
	} else if (mode == 3 || mode == 6 || mode == 8) {
		Source *s = Source_FromString(nname > 0 && mode != 8 ? name : NULL, src, nsrc, &error);
		int off = -1;
		Executable *exe = NULL;
		if (s != NULL)
			exe = mode == 6 || (mode == 8 && (c->flags & 2)) ? assemble(s, &error, &off) : compile(s, &error, &off);
		if (exe == NULL) {
			take_error(sh, &error);
			Error_Print(&error, ErrorType_UNSPECIFIED, stderr);
			fprintf(stderr, "offset=%d\n", off);
			Error_Free(&error);
		} else if (mode != 8) {
			sh->ok = 1;
			Executable_Dump(exe, stdout);
			Executable_Free(exe);
		} else {
			Source *s2 = Source_FromString(NULL, name, nname, &error);
			Executable *exe2 = s2 == NULL ? NULL : (c->flags & 2) ? assemble(s2, &error, &off) : compile(s2, &error, &off);
			if (exe2 == NULL) {
				take_error(sh, &error);
				Error_Print(&error, ErrorType_UNSPECIFIED, stderr);
				Error_Free(&error);
			} else {
				sh->ok = 1;
				fputs(Executable_Equiv(exe, exe2, stderr, "") ? "equivalent\n" : "different\n", stdout);
				Executable_Free(exe2);
			}
			if (s2) Source_Free(s2);
			Executable_Free(exe);
		}
		if (s) Source_Free(s);
	} else {
		RuntimeConfig config = Runtime_GetDefaultConfigs();
		config.time = (c->flags & 1) != 0;
		config.heap = heap;
		if (c->flags >> 8 & 255)
			config.stack = c->flags >> 8 & 255;
		Runtime *rt;
		bool ok = true;
		/* The callback is left out while the builtins are plugged
		 * when it's not wanted at all. */
		if (!(c->flags & 4)) {
			config.callback.func = callback;
			config.callback.data = c;
		}
		rt = Runtime_New(config);
		if (rt == NULL) {
			fprintf(stderr, "Error: Failed to initialize runtime\n");
			sh->errtype = -2;
			goto out;
		}
		long g = c->gcper, a = c->abort_at, i = c->intr_at, f = c->flags;
		if (!(c->flags & 64)) /* only monitor the program, not the prelude */
			c->gcper = c->abort_at = c->intr_at = 0, c->flags &= ~8;
		if (!(c->flags & 2))
			ok = Runtime_plugDefaultBuiltins(rt, &error);
		if (ok && (f & 128)) {
			host_sh = sh;
			ok = Runtime_plugBuiltinsFromStaticMap(rt, host_table, NULL, &error);
		}
		c->gcper = g, c->abort_at = a, c->intr_at = i, c->flags = f;
		if (!(c->flags & 64))
			sh->ninstr = 0;
		for (int rep = 0; ok && rep < ((c->flags & 16) ? 2 : 1); rep++) {
			switch (mode) {
				case 0: ok = runString(rt, src, &error); break;
				case 1: ok = runBytecodeString(rt, src, &error); break;
				case 4: ok = runFile(rt, name, &error); break;
				case 5: ok = runBytecodeFile(rt, name, &error); break;
			}
		}
		if (!ok) {
			take_error(sh, &error);
			Error_Print(&error, ErrorType_RUNTIME, stderr);
			Error_Free(&error);
			Runtime_PrintStackTrace(rt, stderr);
		} else {
			sh->ok = 1;
			if (error.occurred) { /* success with a pending error: inconsistent */
				sh->ok = 2;
				take_error(sh, &error);
				Error_Free(&error);
			}
		}
		if (c->flags & 1) {
			fputs("PROFILE\n", stderr);
			Runtime_SerializeProfilingResultsToStream(rt, stderr);
		}
		fflush(stdout);
		fflush(stderr);
		if (!(c->flags & 32))
			Runtime_Free(rt);
	}
out:
	DISARM();
	fflush(stdout);
	fflush(stderr);
#ifdef VRUN_OOM
	sh->gcerr = refused;
	sh->depth = requests;
#endif
	sh->leak = allocated() - before;
	sh->fds = count_fds() - fds;
	sh->done = 1;
}

static char *slurp_fd(int fd, size_t *n)
{
	off_t len = lseek(fd, 0, SEEK_END);
	if (len < 0) len = 0;
	if (len > (8 << 20)) len = 8 << 20;
	char *p = malloc(len + 1);
	size_t got = 0;
	while (got < (size_t) len) {
		ssize_t k = pread(fd, p + got, len - got, got);
		if (k <= 0) break;
		got += k;
	}
	*n = got;
	return p;
}

static char *slurp(const char *path, size_t *n)
{
	int fd = open(path, O_RDONLY);
	if (fd < 0) { perror(path); exit(2); }
	off_t len = lseek(fd, 0, SEEK_END);
	char *p = malloc(len + 1);
	size_t got = 0;
	while (got < (size_t) len) {
		ssize_t k = pread(fd, p + got, len - got, got);
		if (k <= 0) break;
		got += k;
	}
	p[got] = 0;
	*n = got;
	close(fd);
	return p;
}

static char outbuf[65536], errbuf[65536], inbuf[4096];

int main(int argc, char **argv)
{
	if (argc < 3) return 2;
	size_t n, pos = 0;
	char *batch = slurp(argv[1], &n);
	FILE *res = fopen(argv[2], "wb");
	if (res == NULL) { perror(argv[2]); return 2; }
	Shared *sh = mmap(NULL, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
	signal(SIGPIPE, SIG_IGN);

	while (pos < n) {
		char *nl = memchr(batch + pos, '\n', n - pos);
		if (nl == NULL) break;
		long id, mode, heap, gcper, gcphase, abort_at, intr_at, flags, cpu, nname, nsrc, nin;
		if (sscanf(batch + pos, "%ld %ld %ld %ld %ld %ld %ld %ld %ld %ld %ld %ld", &id, &mode, &heap, &gcper, &gcphase,
			&abort_at, &intr_at, &flags, &cpu, &nname, &nsrc, &nin) != 12) return 3;
		pos = nl + 1 - batch;
		if (pos + nname + nsrc + nin > n) return 3;
		char *name = malloc(nname + 1), *src = malloc(nsrc + 1);
		memcpy(name, batch + pos, nname); name[nname] = 0; pos += nname;
		memcpy(src, batch + pos, nsrc); src[nsrc] = 0; pos += nsrc;
		char *in = batch + pos; pos += nin;

		int fin = memfd_create("in", 0), fout = memfd_create("out", 0), ferr = memfd_create("err", 0);
		if (fin < 0 || fout < 0 || ferr < 0) return 3;
		if (nin > 0 && write(fin, in, nin) != nin) return 3;
		lseek(fin, 0, SEEK_SET);
		memset(sh, 0, sizeof(*sh));
		sh->outpos = -1;
		sh->errtype = -1;
		fflush(res);
		pid_t pid = fork();
		if (pid < 0) return 3;
		if (pid == 0) {
			prctl(PR_SET_PDEATHSIG, SIGKILL);
			dup2(fin, 0); dup2(fout, 1); dup2(ferr, 2);
			close(fin); close(fout); close(ferr); close(fileno(res));
			struct rlimit rl = { cpu, cpu + 2 };
			setrlimit(RLIMIT_CPU, &rl);
			struct rlimit core = { 0, 0 };
			setrlimit(RLIMIT_CORE, &core);
			struct rlimit fs = { 64 << 20, 64 << 20 };
			setrlimit(RLIMIT_FSIZE, &fs);
			signal(SIGPIPE, SIG_DFL);
			setvbuf(stdin, inbuf, _IOFBF, sizeof(inbuf));
			setvbuf(stdout, outbuf, _IOFBF, sizeof(outbuf));
			setvbuf(stderr, errbuf, _IOLBF, sizeof(errbuf));
			Ctx c = { gcper, gcphase, abort_at, intr_at, flags, sh };
			child(mode, heap, &c, name, nname, src, nsrc);
			fflush(NULL);
			_exit(0);
		}
		int st = 0, how = 0, code = 0;
		int pfd = syscall(SYS_pidfd_open, pid, 0);
		struct pollfd p = { pfd, POLLIN, 0 };
		int pr = pfd >= 0 ? poll(&p, 1, (int) (cpu * 4000 + 60000)) : 1;
		if (pr == 0) { kill(pid, SIGKILL); how = 2; }
		waitpid(pid, &st, 0);
		if (pfd >= 0) close(pfd);
		if (how != 2) {
			if (WIFSIGNALED(st)) { how = 1; code = WTERMSIG(st); }
			else code = WEXITSTATUS(st);
		}
		size_t nout, nerr;
		char *out = slurp_fd(fout, &nout), *err = slurp_fd(ferr, &nerr);
		fprintf(res, "%ld %d %d %d %d %d %ld %ld %ld %ld %ld %zu %zu %d %u %d %ld\n", id, how, code, sh->ok, sh->errtype, sh->msglen,
			sh->ninstr, sh->ngc, sh->gcerr, sh->leak, sh->fds, nout, nerr, (flags & 8) ? MAXOPS : 0, sh->depth, sh->done, sh->outpos);
		fwrite(out, 1, nout, res);
		fwrite(err, 1, nerr, res);
		fwrite(sh->msg, 1, sh->msglen, res);
		if (flags & 8) fwrite(sh->ops, 4, MAXOPS, res);
		free(out); free(err); free(name); free(src);
		close(fin); close(fout); close(ferr);
		if (how == 2 || (how == 1 && (code == SIGXCPU || code == SIGKILL)))
			break; /* the caller decides what to do with the rest */
	}
	fclose(res);
	return 0;
}
