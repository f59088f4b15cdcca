/*
 * oomdrv - sqldrv plus the command
 *   K k <max> <seed> <hexsql>   run a statement with its memory allocations failing: the first, the second, ... one (alone, or it and all
 *                               later ones), each in a copy of the process, at most <max> of them; then run it undisturbed
 *   F <sql>                     run a statement in database 0 with the scanner's allocations failing, each in turn
 *   D k                         open database k with its allocations failing in turn, until it opens; then close it
 */
#define NO_MAIN
#include "sqldrv.c"
#include <sys/wait.h>
#include <sys/mman.h>
#include <signal.h>

#include "oom.h"

struct obs { int st; uint64_t aff, res, dig; long dmem; };	/* a statement, and everything that can be observed of it */
struct report { int fired; void *site; int done; struct obs first, second; long closed; };	/* the first two are al_rep */
static struct report *rep;

static uint64_t fnv(uint64_t h, const void *p, size_t n)
{
	for (size_t i = 0; i < n; i++)
		h = (h ^ ((const unsigned char*)p)[i]) * 1099511628211ull;
	return h;
}

/* whatever the order of the columns: SELECT * doesn't promise any */
static uint64_t row_hash(struct table *t, struct row *r)
{
	uint64_t h, sum = 0;
	size_t off = 0;
	for (int i = 0; i < t->column_count; i++) {
		struct column *c = &t->columns[i];
		h = fnv(14695981039346656037ull, c->name, strlen(c->name) + 1);
		if (bit_test(r->null_bitmap, i, sizeof(r->null_bitmap)))
			h = fnv(h, "N", 1);
		else if (c->type == CT_VARCHAR) {
			char *p = *(char**)&r->data[off];
			h = fnv(h, p, strnlen(p, c->precision) + 1);
		} else
			h = fnv(h, &r->data[off], table_calc_column_space(c));
		off += table_calc_column_space(c);
		sum += h * h + h;
	}
	return sum * 0x9E3779B97F4A7C15ull;
}

static uint64_t table_hash(struct table *t)
{
	uint64_t h = fnv(14695981039346656037ull, t->name, strlen(t->name)), rows = 0;
	size_t rs = table_calc_row_size(t);
	struct list_head *pos;

	for (int i = 0; i < t->column_count; i++) {
		struct column *c = &t->columns[i];
		int a[] = { c->type, c->precision, c->nullable, c->unique, c->auto_inc, c->primary_key, c->indexed };
		h = fnv(fnv(h, c->name, strlen(c->name) + 1), a, sizeof(a));
	}
	list_for_each(pos, t->datablock_head)
	{
		struct datablock *b = list_entry(pos, typeof(*b), head);
		for (size_t i = 0; i < DATABLOCK_PAGE_SIZE / rs; i++) {
			struct row *r = (struct row*)&b->data[rs * i];
			if (r->flags.empty || r->flags.deleted)
				continue;
			rows += row_hash(t, r) * 2654435761u + 1;
		}
	}
	return h ^ (rows * 0x9E3779B97F4A7C15ull);
}

static void one_table(struct hashtable *ht, const void *key, size_t kl, const void *val, size_t vl, void *arg)
{
	UNUSED(ht); UNUSED(key); UNUSED(kl); UNUSED(vl);
	*(uint64_t*)arg += table_hash(*(struct table**)val) * 31 + 7;
}

static uint64_t digest(struct database *db)
{
	uint64_t h = 0;
	hashtable_foreach(db->tables, &one_table, &h);
	return h;
}

static void observe(struct database *db, char *sql, struct obs *o)
{
	size_t before = heap_bytes();
	struct query_output *q = query_execute(db, sql);

	oom_off();
	memset(o, 0, sizeof(*o));
	o->st = -1;
	if (q) {
		o->st = q->status;
		o->aff = q->n_rows_aff;
		if (q->status == ST_ERROR && !q->error.message[0])
			o->st = -2;
		if (q->status == ST_OK_WITH_RESULTS) {
			struct table *t = q->results.table;
			while (query_cur_step(&q->results) == MIDORIDB_ROW)
				o->res += row_hash(t, (struct row*)&q->results.cursor_blk->data[q->results.cursor_offset]) * 31 + 7;
		}
		query_free(q);
	}
	o->dmem = (long)heap_bytes() - (long)before;
	o->dig = digest(db);
}

/* how often the allocations of a place were made to fail so far (first come, first entered; by place) */
static struct { uint32_t site; unsigned n; } hist[4096];

static unsigned *tries(uint32_t site)
{
	unsigned i = site * 2654435761u >> 20;
	while (hist[i].site && hist[i].site != site)
		i = (i + 1) % 4096;
	hist[i].site = site;
	return &hist[i].n;
}

/* the next allocation to fail: of a place that was chosen least often; of its allocations, one at random, or the first, or the last */
static long choose(long allocs, unsigned long *seed, unsigned *turn)
{
	unsigned least = ~0u, n = 0, pick;
	long last = 0;
	if (allocs > AL_LOG)
		allocs = AL_LOG;
	for (long i = 0; i < allocs; i++)
		if (*tries(al_log[i]) < least)
			least = *tries(al_log[i]);
	/* one of the places with the fewest tries, whichever comes first */
	uint32_t site = 0;
	for (long i = 0; i < allocs && !site; i++)
		if (*tries(al_log[i]) == least)
			site = al_log[i];
	for (long i = 0; i < allocs; i++)
		if (al_log[i] == site) {
			n++;
			last = i;
		}
	*seed = *seed * 6364136223846793005ull + 1442695040888963407ull;
	*turn = (*tries(site))++;
	pick = *turn % 8 < 2 ? 0 : *turn % 8 < 4 ? n - 1 : (*seed >> 33) % n;
	for (long i = 0; i < allocs; i++)
		if (al_log[i] == site && !pick--)
			return i + 1;
	return last + 1;
}

static void oom(int k, char *arg)
{
	struct database *db = &dbs[k];
	int max = 0, used = 0, nbad = 0, tried = 0, tolerated = 0, ran = 0;
	unsigned long seed = 0;
	al_rep = (void*)(rep = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	int errfd = memfd_create("err", 0);
	static struct report reps[4096];
	static struct { long k; int persist; } what[4096];
	size_t n;

	sscanf(arg, "%d %lu %n", &max, &seed, &used);
	char *sql = unhex(arg + used, &n);
	if (max > 4096) max = 4096;
	uint64_t dig0 = digest(db);

	/* how many allocations does it make, and where? */
	uint32_t *log = al_log = mmap(NULL, AL_LOG * sizeof(*al_log), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	fflush(out);
	pid_t pid = fork();
	if (!pid) {
		struct obs o;
		alarm(60);
		oom_on(0, 0);
		observe(db, sql, &o);
		rep->fired = al_count;
		rep->done = 1;
		free(sql);
		database_close(db);
		rep->closed = (long)heap_bytes();
		rep->done = 3;
		_exit(0);
	}
	int ws;
	waitpid(pid, &ws, 0);
	al_log = NULL;
	long allocs = rep->done ? rep->fired : -1, base = rep->closed;
	fprintf(out, "\"allocs\":%ld,\"bad\":[", allocs);
	for (long x = 0; x < 2 * allocs && tried < max; x++) {
		/* all of them if that's not too many, else those of the places that have seen the fewest failures */
		long i = x / 2 + 1;
		int p = x % 2;
		if (2 * allocs > max) {
			unsigned turn;
			al_log = log;
			i = choose(allocs, &seed, &turn);
			al_log = NULL;
			p = turn & 1;
		}
		{
			memset(rep, 0, sizeof(*rep));
			if (ftruncate(errfd, 0)) exit(2);
			fflush(out);
			pid = fork();
			if (pid < 0) exit(2);
			if (!pid) {
				alarm(30);
				lseek(errfd, 0, SEEK_SET);
				dup2(errfd, 2);
				oom_on(i, p);
				observe(db, sql, &rep->first);
				rep->done = 1;
				if (rep->first.st < 0 || rep->first.st == ST_ERROR)
					observe(db, sql, &rep->second);
				else
					rep->second = rep->first;
				rep->done = 2;
				free(sql);
				database_close(db);
				rep->closed = (long)heap_bytes() - base;
				rep->done = 3;
				_exit(0);
			}
			waitpid(pid, &ws, 0);
			reps[tried] = *rep;
			what[tried].k = i;
			what[tried].persist = p;
			tried++;
			if (rep->done == 3 && rep->first.st != ST_ERROR && rep->first.st != -1) tolerated++;
			if (rep->done != 3 || !WIFEXITED(ws) || WEXITSTATUS(ws)) {
				char buf[3000];
				ssize_t l = pread(errfd, buf, sizeof(buf) - 1, 0);
				if (l < 0) l = 0;
				fprintf(out, "%s{\"k\":%ld,\"p\":%d,\"site\":\"%p\",\"died\":%d,\"done\":%d,\"err\":", nbad++ ? "," : "", i, p,
					rep->site, WIFSIGNALED(ws) ? -WTERMSIG(ws) : WEXITSTATUS(ws), rep->done);
				hexout(buf, l);
				fputc('}', out);
				/* one that waits for ever is enough */
				if (WIFSIGNALED(ws) && WTERMSIG(ws) == SIGALRM)
					break;
			}
		}
	}
	/* undisturbed */
	struct obs o;
	observe(db, sql, &o);
	ran = o.st;
	for (int i = 0; i < tried; i++) {
		struct report *r = &reps[i];
		const char *m = NULL;
		if (r->done != 3) continue;
		bool ok = r->first.st == ST_OK_EXECUTED || r->first.st == ST_OK_WITH_RESULTS;
		if (r->first.st == -2) m = "error without a message";
		else if (!ok && r->first.dig != dig0) m = "a failed statement changed the data";
		else if (ok && (o.st == ST_ERROR || r->first.dig != o.dig || r->first.res != o.res || r->first.aff != o.aff)) m = "success with a wrong effect";
		else if (r->second.st != o.st || r->second.dig != o.dig || r->second.res != o.res || r->second.aff != o.aff) m = "the statement does not work as usual afterwards";
		else if (r->closed != 0) m = "memory is lost";
		if (m)
			fprintf(out, "%s{\"k\":%ld,\"p\":%d,\"site\":\"%p\",\"what\":\"%s\",\"st\":%d,\"lost\":%ld}", nbad++ ? "," : "", what[i].k, what[i].persist,
				r->site, m, r->first.st, r->closed);
	}
	fprintf(out, "],\"seen\":[");
	for (int i = 0, n = 0; i < tried; i++)
		if (reps[i].done == 3)
			fprintf(out, "%s[\"%p\",%d]", n++ ? "," : "", reps[i].site, reps[i].first.st);
	fprintf(out, "],\"tried\":%d,\"tolerated\":%d,\"st\":%d,\"aff\":%lu}\n", tried, tolerated, ran, (unsigned long)o.aff);
	munmap(rep, 4096);
	munmap(log, AL_LOG * sizeof(*al_log));
	al_rep = NULL;
	close(errfd);
	free(sql);
}

static void open_oom(int k)
{
	struct database *db = &dbs[k];
	long n = 0;

	tzset();
	const char *bad = NULL;

	for (int persist = 0; persist < 2 && !bad; persist++)
		for (n = 1; n < 1000; n++) {
			size_t before = heap_bytes();
			memset(db, 0, sizeof(*db));
			oom_on(n, persist);
			int rc = database_open(db);
			bool hit = al_rep->fired;
			oom_off();
			if (!rc) {
				struct query_output *q = query_execute(db, "CREATE TABLE aa (x INT);");
				if (!q || q->status != ST_OK_EXECUTED)
					bad = "it opened, but can't be used";
				query_free(q);
				database_close(db);
			}
			if (heap_bytes() != before)
				bad = "memory is lost";
			if (!hit || bad)
				break;
		}
	fprintf(out, "\"allocs\":%ld,\"bad\":\"%s\"}\n", n, bad ? bad : "");
}

/* the first, second, ... allocation of the scanner fails */
static void scan_oom(int k, char *sql)
{
	int nbad = 0;
	long n;

	fprintf(out, "\"scan\":[");
	for (n = 1; n < 100; n++) {
		char err[2000] = "";
		int ws, fd = fileno(tmpfile());
		fflush(out);
		pid_t pid = fork();
		if (!pid) {
			alarm(30);
			dup2(fd, 2);
			al_scan = n;
			struct query_output *q = query_execute(&dbs[k], sql);
			bool hit = !al_scan;
			al_scan = 0;
			query_free(q);
			_exit(hit ? 0 : 77);
		}
		waitpid(pid, &ws, 0);
		ssize_t l = pread(fd, err, sizeof(err) - 1, 0);
		close(fd);
		if (WIFEXITED(ws) && WEXITSTATUS(ws) == 77)
			break;
		if (WIFEXITED(ws) && !WEXITSTATUS(ws))
			continue;
		fprintf(out, "%s[%ld,%d,", nbad++ ? "," : "", n, WIFSIGNALED(ws) ? -WTERMSIG(ws) : WEXITSTATUS(ws));
		hexout(err, l < 0 ? 0 : l);
		fputc(']', out);
	}
	fprintf(out, "],\"allocs\":%ld}\n", n - 1);
}

int main(void)
{
	size_t cap = 1 << 20;
	char *line = malloc(cap);
	ssize_t len;
	long n = 0;

	tzset();

	out = fdopen(dup(1), "w");
	setvbuf(out, malloc(1 << 16), _IOFBF, 1 << 16);
	int nul = open("/dev/null", O_WRONLY);
	dup2(nul, 1);
	while ((len = getline(&line, &cap, stdin)) > 0) {
		while (len > 0 && (line[len - 1] == '\n'))
			line[--len] = 0;
		if (!len)
			continue;
		n++;
		fprintf(out, "{\"n\":%ld,", n);
		fflush(out);
		if (line[0] == 'K') {
			int k = 0, used = 0;
			sscanf(line + 1, "%d %n", &k, &used);
			oom(k, line + 1 + used);
		} else if (line[0] == 'F') {
			scan_oom(0, line + 2);
		} else if (line[0] == 'D') {
			open_oom(atoi(line + 1));
		} else if (command(line))
			return 2;
		fflush(out);
	}
	fprintf(out, "{\"end\":%ld}\n", n);
	fflush(out);
	return 0;
}
