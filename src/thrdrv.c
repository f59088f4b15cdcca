/*
 * thrdrv - runs the commands of sqldrv in several threads.
 * script (stdin): "@<thread> <command>" per line, or a phase separator:
 *   #free   the following commands run freely, each thread its own in order (until the next phase)
 *   #turns  the following commands run in the order of the script, each in its thread
 *   #locks <db> <table> <n>   every thread takes database_lock/table_lock n times around unprotected counters
 *   #create <db> <hexsql>     one thread holds the database lock while another creates a table
 *   #released <db> <hexsql>   after the statement another thread can take the database lock
 *   #watch <db> <name> <n>    tables name0... are created while a thread that holds the database lock looks at them
 * Each event carries the thread, and the tickets drawn before and after the command.
 */
#define TLS __thread
#define NO_MAIN
#include "sqldrv.c"
#include <sched.h>
#include <time.h>

#define MAXT 16
#define MAXL 200000
static char *lines[MAXL];
static long lineno_[MAXL];
static long nlines;
static int nthreads;
static long ticket;
static unsigned jitter_seed;

static long draw(void) { return __atomic_fetch_add(&ticket, 1, __ATOMIC_RELAXED); }

static pthread_mutex_t turn_mx = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t turn_cv = PTHREAD_COND_INITIALIZER;
static pthread_barrier_t bar;
static long turn;
static int mode_turns;

struct thr { pthread_t id; int t; long *idx; long n; char *buf; size_t len; FILE *log; struct query_output *keep[NDB]; };
static struct thr th[MAXT];

static void one(int t, long i)
{
	char *l = strchr(lines[i], ' ') + 1;
	long a = draw();
	/* the event is completed by command(), which may be preceded by nothing else of this thread */
	fprintf(out, "{\"n\":%ld,\"t\":%d,\"a\":%ld,", lineno_[i], t, a);
	if (command(l))
		exit(2);
	fprintf(out, "{\"done\":%ld,\"b\":%ld}\n", lineno_[i], draw());
}

static void *runner(void *p)
{
	struct thr *me = p;
	unsigned r = jitter_seed * 7919u + me->t * 104729u;
	out = me->log;
	memcpy(held, me->keep, sizeof(held));
	pthread_barrier_wait(&bar);
	for (long k = 0; k < me->n; k++) {
		long i = me->idx[k];
		if (mode_turns) {
			pthread_mutex_lock(&turn_mx);
			while (turn != i)
				pthread_cond_wait(&turn_cv, &turn_mx);
			one(me->t, i);
			turn++;
			pthread_cond_broadcast(&turn_cv);
			pthread_mutex_unlock(&turn_mx);
		} else {
			r = r * 1103515245u + 12345u;
			if ((r >> 16) % 5 == 0)
				sched_yield();
			else if ((r >> 16) % 23 == 0)
				usleep((r >> 20) % 300);
			one(me->t, i);
		}
	}
	memcpy(me->keep, held, sizeof(held));
	return NULL;
}

static void phase(long from, long to)
{
	for (int t = 0; t < nthreads; t++) {
		th[t].t = t;
		th[t].n = 0;
		th[t].idx = malloc(sizeof(long) * (to - from + 1));
		th[t].buf = NULL;
		th[t].log = open_memstream(&th[t].buf, &th[t].len);
	}
	for (long i = from; i < to; i++) {
		int t = atoi(lines[i] + 1);
		th[t].idx[th[t].n++] = i;
	}
	turn = from;
	pthread_barrier_init(&bar, NULL, nthreads);
	for (int t = 0; t < nthreads; t++)
		if (pthread_create(&th[t].id, NULL, runner, &th[t]))
			exit(2);
	for (int t = 0; t < nthreads; t++) {
		pthread_join(th[t].id, NULL);
		fclose(th[t].log);
		fwrite(th[t].buf, 1, th[t].len, out);
		free(th[t].buf);
		free(th[t].idx);
	}
	pthread_barrier_destroy(&bar);
	fflush(out);
}

/* ---- locks */
static struct database *lk_db;
static struct table *lk_tab;
static long lk_n, lk_inside, lk_dbcount, lk_tabcount, lk_tabinside, lk_bad;

static void *locker(void *p)
{
	struct thr *me = p;
	unsigned r = jitter_seed + me->t * 31u;
	pthread_barrier_wait(&bar);
	for (long i = 0; i < lk_n; i++) {
		r = r * 1103515245u + 12345u;
		if (r >> 31) {
			if (database_lock(lk_db)) { __atomic_fetch_add(&lk_bad, 1, __ATOMIC_RELAXED); continue; }
			if (lk_inside++) __atomic_fetch_add(&lk_bad, 1, __ATOMIC_RELAXED);
			if ((r >> 16) % 7 == 0) sched_yield();
			lk_dbcount++;
			lk_inside--;
			if (database_unlock(lk_db)) __atomic_fetch_add(&lk_bad, 1, __ATOMIC_RELAXED);
		} else {
			if (table_lock(lk_tab)) { __atomic_fetch_add(&lk_bad, 1, __ATOMIC_RELAXED); continue; }
			if (lk_tabinside++) __atomic_fetch_add(&lk_bad, 1, __ATOMIC_RELAXED);
			if ((r >> 16) % 7 == 0) sched_yield();
			lk_tabcount++;
			lk_tabinside--;
			if (table_unlock(lk_tab)) __atomic_fetch_add(&lk_bad, 1, __ATOMIC_RELAXED);
		}
	}
	return NULL;
}

static void locks(char *arg, long n)
{
	int k = 0;
	char name[256];
	long cnt = 0;
	sscanf(arg, "%d %255s %ld", &k, name, &cnt);
	lk_db = &dbs[k];
	lk_tab = database_table_get(lk_db, name);
	lk_n = cnt;
	lk_dbcount = lk_tabcount = lk_bad = lk_inside = lk_tabinside = 0;
	pthread_barrier_init(&bar, NULL, nthreads);
	for (int t = 0; t < nthreads; t++) {
		th[t].t = t;
		if (pthread_create(&th[t].id, NULL, locker, &th[t])) exit(2);
	}
	for (int t = 0; t < nthreads; t++)
		pthread_join(th[t].id, NULL);
	pthread_barrier_destroy(&bar);
	fprintf(out, "{\"n\":%ld,\"locks\":%ld,\"db\":%ld,\"tab\":%ld,\"bad\":%ld,\"want\":%ld}\n", n, lk_bad, lk_dbcount, lk_tabcount, lk_bad, cnt * nthreads);
}

/* ---- creating a table waits for the holder of the database lock */
static char *cr_sql;
static int cr_started, cr_done;

static void *creator(void *p)
{
	struct query_output *o;
	UNUSED(p);
	__atomic_store_n(&cr_started, 1, __ATOMIC_SEQ_CST);
	o = query_execute(lk_db, cr_sql);
	__atomic_store_n(&cr_done, o && o->status == ST_OK_EXECUTED ? 1 : 2, __ATOMIC_SEQ_CST);
	if (o) query_free(o);
	return NULL;
}

static void create(char *arg, long n)
{
	int k = 0, used = 0, early;
	size_t l;
	pthread_t id;
	sscanf(arg, "%d %n", &k, &used);
	lk_db = &dbs[k];
	cr_sql = unhex(arg + used, &l);
	cr_started = cr_done = 0;
	if (database_lock(lk_db)) exit(2);
	if (pthread_create(&id, NULL, creator, NULL)) exit(2);
	while (!__atomic_load_n(&cr_started, __ATOMIC_SEQ_CST)) sched_yield();
	usleep(30000);
	early = __atomic_load_n(&cr_done, __ATOMIC_SEQ_CST);
	if (database_unlock(lk_db)) exit(2);
	pthread_join(id, NULL);
	fprintf(out, "{\"n\":%ld,\"create\":%d,\"early\":%d}\n", n, cr_done, early);
	free(cr_sql);
}

/* ---- while a thread holds the database lock, the tables it sees stay the same, although others are being created */
static int wt_stop;
static long wt_rounds, wt_seen, wt_changed, wt_n;
static char wt_name[64];

static long wt_count(void)
{
	long c = 0;
	char name[80];
	for (long i = 0; i < wt_n; i++) {
		snprintf(name, sizeof(name), "%s%ld", wt_name, i);
		c += database_table_exists(lk_db, name);
	}
	return c;
}

static void *watcher(void *p)
{
	long prev = 0;
	unsigned r = jitter_seed;
	UNUSED(p);
	pthread_barrier_wait(&bar);
	do {
		r = r * 1103515245u + 12345u;
		if (database_lock(lk_db)) exit(2);
		long a = wt_count();
		if ((r >> 16) % 3 == 0) usleep((r >> 20) % 200); else sched_yield();
		long b = wt_count();
		if (a != b || a < prev) wt_changed++;
		if (b != prev) wt_seen++;
		prev = b;
		if (database_unlock(lk_db)) exit(2);
		wt_rounds++;
		sched_yield();
	} while (!__atomic_load_n(&wt_stop, __ATOMIC_RELAXED));
	return NULL;
}

static void watch(char *arg, long n)
{
	int k = 0;
	long ok = 0;
	char sql[256];
	pthread_t id;
	sscanf(arg, "%d %60s %ld", &k, wt_name, &wt_n);
	lk_db = &dbs[k];
	wt_stop = 0;
	wt_rounds = wt_seen = wt_changed = 0;
	pthread_barrier_init(&bar, NULL, 2);
	if (pthread_create(&id, NULL, watcher, NULL)) exit(2);
	pthread_barrier_wait(&bar);
	for (long i = 0; i < wt_n; i++) {
		/* every second one is asked for twice; some are wrong */
		snprintf(sql, sizeof(sql), "CREATE TABLE %s%s%ld (w%ld INT, v%ld VARCHAR(9));", i % 3 ? "" : "IF NOT EXISTS ", wt_name, i, i, i);
		struct query_output *o = query_execute(lk_db, sql);
		ok += o && o->status == ST_OK_EXECUTED;
		if (o) query_free(o);
		if (i % 2) {
			o = query_execute(lk_db, sql);
			if (o) query_free(o);
		}
		if (i % 4 == 0) usleep(50);
	}
	__atomic_store_n(&wt_stop, 1, __ATOMIC_RELAXED);
	pthread_join(id, NULL);
	pthread_barrier_destroy(&bar);
	fprintf(out, "{\"n\":%ld,\"watch\":%ld,\"seen\":%ld,\"changed\":%ld,\"ok\":%ld,\"want\":%ld}\n", n, wt_rounds, wt_seen, wt_changed, ok, wt_n);
}

/* ---- no statement keeps the lock, whatever its outcome: after each of them another thread can take it */
static int held_done;

static void *taker(void *p)
{
	UNUSED(p);
	if (database_lock(lk_db) || database_unlock(lk_db)) __atomic_store_n(&held_done, 2, __ATOMIC_SEQ_CST);
	else __atomic_store_n(&held_done, 1, __ATOMIC_SEQ_CST);
	return NULL;
}

static void released(char *arg, long n)
{
	int k = 0, used = 0, got = 0;
	size_t l;
	pthread_t id;
	sscanf(arg, "%d %n", &k, &used);
	lk_db = &dbs[k];
	cr_sql = unhex(arg + used, &l);
	cr_done = held_done = 0;
	if (pthread_create(&id, NULL, creator, NULL)) exit(2);
	for (int i = 0; i < 10000 && !__atomic_load_n(&cr_done, __ATOMIC_SEQ_CST); i++) usleep(1000);
	if (__atomic_load_n(&cr_done, __ATOMIC_SEQ_CST)) {
		pthread_join(id, NULL);
		if (pthread_create(&id, NULL, taker, NULL)) exit(2);
		for (int i = 0; i < 10000 && !(got = __atomic_load_n(&held_done, __ATOMIC_SEQ_CST)); i++) usleep(1000);
		if (got) pthread_join(id, NULL);
	}
	fprintf(out, "{\"n\":%ld,\"released\":%d,\"ran\":%d}\n", n, got, __atomic_load_n(&cr_done, __ATOMIC_SEQ_CST));
	fflush(out);
	if (!got) _exit(0);
	free(cr_sql);
}

int main(int argc, char **argv)
{
	size_t cap = 1 << 20;
	char *line = malloc(cap);
	ssize_t len;

	nthreads = argc > 1 ? atoi(argv[1]) : 2;
	jitter_seed = argc > 2 ? atoi(argv[2]) : 1;
	if (nthreads < 1 || nthreads > MAXT) return 2;
	out = fdopen(dup(1), "w");
	setvbuf(out, malloc(1 << 16), _IOFBF, 1 << 16);
	int nul = open("/dev/null", O_WRONLY);
	dup2(nul, 1);
	while ((len = getline(&line, &cap, stdin)) > 0) {
		while (len > 0 && (line[len - 1] == '\n'))
			line[--len] = 0;
		if (!len) continue;
		lineno_[nlines] = nlines + 1;
		lines[nlines++] = strdup(line);
		if (nlines == MAXL) return 2;
	}
	for (long i = 0; i < nlines;) {
		long j = i + 1;
		if (lines[i][0] != '#') return 2;
		if (!strncmp(lines[i], "#locks ", 7)) { locks(lines[i] + 7, lineno_[i]); i++; continue; }
		if (!strncmp(lines[i], "#create ", 8)) { create(lines[i] + 8, lineno_[i]); i++; continue; }
		if (!strncmp(lines[i], "#watch ", 7)) { watch(lines[i] + 7, lineno_[i]); i++; continue; }
		if (!strncmp(lines[i], "#released ", 10)) { released(lines[i] + 10, lineno_[i]); i++; continue; }
		mode_turns = !strcmp(lines[i], "#turns");
		while (j < nlines && lines[j][0] == '@') j++;
		phase(i + 1, j);
		i = j;
	}
	fprintf(out, "{\"end\":%ld}\n", nlines);
	fflush(out);
	return 0;
}
