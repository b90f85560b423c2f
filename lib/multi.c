/* Runs several programs in one process, each in its own runtime with its own streams.
 *
 *   multi <job> <results>
 *
 * job: "<mode> <seed> <rounds> <n>\n", then for each program "<heap> <gcper> <abort_at> <nsrc> <nstdin>\n<src><stdin>"
 *   mode: 0 one after the other, 1 each in the middle of the one before, 2 in threads that
 *         take turns at the granularity of an instruction, 3 in threads that run freely
 *         (all the runtimes are set up before)
 * results: for each execution "<program> <ok> <errtype> <ninstr> <nmsg> <nout>\n<msg><out>", then "end <leak> <switches>\n"
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <pthread.h>
#include "run.h"
#include "runtime.h"

#ifdef VRUN_ASAN
extern size_t __sanitizer_get_current_allocated_bytes(void);
static long allocated(void) { return (long) __sanitizer_get_current_allocated_bytes(); }
#else
static long allocated(void) { return 0; }
#endif

#define MAXP 64
typedef struct {
	int id;
	long heap, gcper, abort_at, nsrc, nin;
	char *src, *in;
	/* of the current execution */
	Runtime *rt;
	FILE *fin, *fout;
	char *out; size_t nout;
	long n, nest_at;
	int ok, err, nmsg, plugged;
	char msg[4096];
	Error error;
} Prog;

static Prog progs[MAXP];
static int nprogs, mode;
static uint64_t rng;
static FILE *results;
static long switches;

static uint64_t rnd(void)
{
	rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
	return rng;
}

/* Turns: one thread runs at a time. */
static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cond = PTHREAD_COND_INITIALIZER;
static int turn = -1, alive[MAXP];

static void pass_turn(void)
{
	int k = rnd() % nprogs;
	for (int i = 0; i < nprogs; i++)
		if (alive[(k + i) % nprogs]) { turn = (k + i) % nprogs; break; }
	pthread_cond_broadcast(&cond);
}

static void wait_turn(int me)
{
	while (turn != me) pthread_cond_wait(&cond, &lock);
}

static void execute(Prog *p);

static bool callback(Runtime *rt, void *data)
{
	Prog *p = data;
	if (rt != p->rt) {
		fputs("the callback of a runtime is called with the data of another\n", stderr);
		exit(6);
	}
	p->n++;
	if (p->n == p->nest_at && p->id + 1 < nprogs) {
		switches++;
		execute(&progs[p->id + 1]);
	}
	if (mode == 2 && rnd() % 3 == 0) {
		pthread_mutex_lock(&lock);
		pass_turn();
		if (turn != p->id) { switches++; wait_turn(p->id); }
		pthread_mutex_unlock(&lock);
	}
	if (p->gcper > 0 && p->n % p->gcper == 0) {
		Error e;
		Error_Init(&e);
		if (!Runtime_CollectGarbage(rt, &e)) { Error_Free(&e); return false; }
		Error_Free(&e);
	}
	return !(p->abort_at > 0 && p->n >= p->abort_at);
}

static void run(Prog *p)
{
	p->ok = p->plugged && runString(p->rt, p->src, &p->error);
	if (!p->ok) {
		p->err = p->error.occurred ? (int) p->error.type : -1;
		p->nmsg = p->error.message ? p->error.length : 0;
		if (p->nmsg > (int) sizeof(p->msg)) p->nmsg = sizeof(p->msg);
		if (p->nmsg > 0) memcpy(p->msg, p->error.message, p->nmsg);
		Error_Free(&p->error);
	}
}

static void done(Prog *p)
{
	Runtime_Free(p->rt);
	fclose(p->fin);
	fclose(p->fout);
	flockfile(results);
	fprintf(results, "%d %d %d %ld %d %zu\n", p->id, p->ok, p->err, p->n, p->nmsg, p->nout);
	fwrite(p->msg, 1, p->nmsg, results);
	fwrite(p->out, 1, p->nout, results);
	funlockfile(results);
	free(p->out);
}

static bool start_callback(Runtime *rt, void *data)
{
	Prog *p = data;
	return p->plugged ? callback(rt, data) : true;
}

static void setup(Prog *p)
{
	p->n = 0; p->nest_at = 0; p->nmsg = 0; p->err = -1; p->ok = 0; p->plugged = 0;
	p->fin = p->nin > 0 ? fmemopen(p->in, p->nin, "r") : fopen("/dev/null", "r");
	p->fout = open_memstream(&p->out, &p->nout);
	if (!p->fin || !p->fout) { perror("streams"); exit(2); }
	RuntimeConfig c = Runtime_GetDefaultConfigs();
	c.heap = p->heap;
	c.stdin = p->fin;
	c.stdout = p->fout;
	c.callback.func = start_callback;
	c.callback.data = p;
	p->rt = Runtime_New(c);
	if (p->rt == NULL) { fputs("no runtime\n", stderr); exit(2); }
	Error_Init(&p->error);
	p->plugged = Runtime_plugDefaultBuiltins(p->rt, &p->error);
}

static void execute(Prog *p)
{
	setup(p);
	if (mode == 1) p->nest_at = 1 + rnd() % 200;
	run(p);
	done(p);
	/* too short to get there */
	if (mode == 1 && p->n < p->nest_at && p->id + 1 < nprogs)
		execute(&progs[p->id + 1]);
}

static void *thread(void *arg)
{
	Prog *p = arg;
	if (mode == 2) {
		pthread_mutex_lock(&lock);
		wait_turn(p->id);
		pthread_mutex_unlock(&lock);
		setup(p);
	}
	run(p);
	if (mode == 2) {
		done(p);
		pthread_mutex_lock(&lock);
		alive[p->id] = 0;
		pass_turn();
		pthread_mutex_unlock(&lock);
	}
	return NULL;
}

int main(int argc, char **argv)
{
	FILE *f = fopen(argv[1], "rb");
	results = fopen(argv[2], "wb");
	if (argc < 3 || !f || !results) return 2;
	int rounds; unsigned long seed;
	if (fscanf(f, "%d %lu %d %d", &mode, &seed, &rounds, &nprogs) != 4 || fgetc(f) != '\n' || nprogs > MAXP) return 2;
	rng = seed * 2654435761u + 88172645463325252ull;
	for (int i = 0; i < nprogs; i++) {
		Prog *p = &progs[i];
		p->id = i;
		if (fscanf(f, "%ld %ld %ld %ld %ld", &p->heap, &p->gcper, &p->abort_at, &p->nsrc, &p->nin) != 5 || fgetc(f) != '\n') return 2;
		p->src = calloc(p->nsrc + 1, 1);
		p->in = calloc(p->nin + 1, 1);
		if (fread(p->src, 1, p->nsrc, f) != (size_t) p->nsrc || fread(p->in, 1, p->nin, f) != (size_t) p->nin) return 2;
	}
	fclose(f);
	setvbuf(results, NULL, _IOFBF, 1 << 16);
	fprintf(results, "\n"); fflush(results);
	long before = allocated();
	for (int r = 0; r < rounds; r++) {
		if (mode == 0)
			for (int i = 0; i < nprogs; i++) execute(&progs[(i * 7 + r) % nprogs]);
		else if (mode == 1)
			execute(&progs[0]);
		else {
			pthread_t t[MAXP];
			pthread_attr_t a;
			pthread_attr_init(&a);
			pthread_attr_setstacksize(&a, 64 << 20);
			if (mode == 3)
				for (int i = 0; i < nprogs; i++) setup(&progs[i]);
			else {
				for (int i = 0; i < nprogs; i++) alive[i] = 1;
				turn = -1;
			}
			for (int i = 0; i < nprogs; i++)
				if (pthread_create(&t[i], &a, thread, &progs[i])) { perror("thread"); return 2; }
			if (mode == 2) {
				pthread_mutex_lock(&lock);
				pass_turn();
				pthread_mutex_unlock(&lock);
			}
			for (int i = 0; i < nprogs; i++) pthread_join(t[i], NULL);
			if (mode == 3)
				for (int i = 0; i < nprogs; i++) done(&progs[i]);
			pthread_attr_destroy(&a);
		}
	}
	fprintf(results, "end %ld %ld\n", allocated() - before, switches);
	fclose(results);
	return 0;
}
