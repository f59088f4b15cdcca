/*
 * sqldrv - executes a script of commands against the real engine and records an event log on stdout.
 * script (stdin), one command per line:
 *   O k            open database slot k
 *   C k            close database slot k
 *   Q k <hexsql>   query_execute + iterate the result set + query_free
 *   H k h n <hex>  run a query, step its cursor n times and keep the result open as handle h
 *   R h n          step the cursor of handle h at most n times
 *   F h            free handle h
 *   T k <name>     dump every live row of a table (raw storage walk)
 *   M              report the number of bytes in use on the heap
 *   S k <hexsql>   like Q, but the result set is iterated only partially (first row), then freed
 * Every event is flushed before the next command starts, so a crash is attributed to a command.
 */
#include <time.h>
#include <engine/query.h>
#include <engine/database.h>
#include <primitive/table.h>
#include <primitive/row.h>
#include <primitive/column.h>
#include <lib/bit.h>
#include <unistd.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#ifdef PLAIN
#define __sanitizer_get_current_allocated_bytes() 0
#else
size_t __sanitizer_get_current_allocated_bytes(void);
#endif

/* bytes the engine (and the driver, whose share is constant between commands) has on the heap */
static size_t heap_bytes(void)
{
	return __sanitizer_get_current_allocated_bytes();
}

#define NDB 16
#ifndef TLS
#define TLS
#endif
static struct database dbs[NDB];
static TLS FILE *out;

static void hexout(const char *s, size_t n)
{
	fputc('"', out);
	for (size_t i = 0; i < n; i++)
		fprintf(out, "%02x", (unsigned char)s[i]);
	fputc('"', out);
}

static void cell(struct table *t, struct row *row, int i, size_t off)
{
	struct column *c = &t->columns[i];
	if (bit_test(row->null_bitmap, i, sizeof(row->null_bitmap))) {
		fprintf(out, "null");
		return;
	}
	switch (c->type) {
	case CT_VARCHAR: {
		char *p = *(char**)&row->data[off];
		size_t n = strnlen(p, c->precision);
		hexout(p, n);
		break;
	}
	case CT_TINYINT:
		fprintf(out, "%d", *(signed char*)&row->data[off]);
		break;
	case CT_DOUBLE:
		fprintf(out, "\"%a\"", *(double*)&row->data[off]);
		break;
	case CT_DATE:
	case CT_DATETIME:
		/* as if the time zone were UTC: dates are stored in the zone's standard time */
		fprintf(out, "%ld", *(int64_t*)&row->data[off] - timezone);
		break;
	default:
		fprintf(out, "%ld", *(int64_t*)&row->data[off]);
	}
}

static void dump_row(struct table *t, struct row *row)
{
	size_t off = 0;
	fputc('[', out);
	for (int i = 0; i < t->column_count; i++) {
		if (i)
			fputc(',', out);
		cell(t, row, i, off);
		off += table_calc_column_space(&t->columns[i]);
	}
	fputc(']', out);
}

static void dump_cols(struct table *t)
{
	fprintf(out, "\"cols\":[");
	for (int i = 0; i < t->column_count; i++) {
		if (i)
			fputc(',', out);
		fprintf(out, "[");
		hexout(t->columns[i].name, strnlen(t->columns[i].name, sizeof(t->columns[i].name)));
		fprintf(out, ",%d,%d,%d]", t->columns[i].type, t->columns[i].precision,
			(t->columns[i].nullable ? 1 : 0) | (t->columns[i].unique ? 2 : 0) |
			(t->columns[i].auto_inc ? 4 : 0) | (t->columns[i].primary_key ? 8 : 0) |
			(t->columns[i].indexed ? 16 : 0));
	}
	fprintf(out, "]");
}

/* raw walk of the live rows */
static void dump_raw(struct table *t)
{
	struct list_head *pos;
	size_t rs = table_calc_row_size(t);
	int n = 0, blks = 0;
	fprintf(out, "\"rows\":[");
	list_for_each(pos, t->datablock_head)
	{
		struct datablock *b = list_entry(pos, typeof(*b), head);
		blks++;
		for (size_t i = 0; i < DATABLOCK_PAGE_SIZE / rs; i++) {
			struct row *r = (struct row*)&b->data[rs * i];
			if (r->flags.empty)
				break;
			if (r->flags.deleted)
				continue;
			if (n++)
				fputc(',', out);
			dump_row(t, r);
		}
	}
	fprintf(out, "],\"blks\":%d", blks);
}

static int hexval(char c)
{
	return c <= '9' ? c - '0' : (c | 32) - 'a' + 10;
}

static char* unhex(const char *s, size_t *n)
{
	size_t l = strlen(s) / 2;
	char *o = malloc(l + 1);
	for (size_t i = 0; i < l; i++) {
		o[i] = (char)(hexval(s[2 * i]) << 4 | hexval(s[2 * i + 1]));
	}
	o[l] = 0;
	*n = l;
	return o;
}

/* step the cursor at most @max times; true if it reported the end */
static bool step_rows(struct query_output *o, long max)
{
	struct table *t = o->results.table;
	bool end = false;
	long k = 0;

	fprintf(out, "\"cur\":[");
	while (k < max) {
		int ret = query_cur_step(&o->results);
		if (ret != MIDORIDB_ROW) {
			end = true;
			break;
		}
		struct row *r = (struct row*)&o->results.cursor_blk->data[o->results.cursor_offset];
		if (k++)
			fputc(',', out);
		dump_row(t, r);
		/* the public accessor has to agree with the stored value */
		size_t off = 0;
		for (int i = 0; i < t->column_count; i++) {
			if (!bit_test(r->null_bitmap, i, sizeof(r->null_bitmap))) {
				int64_t v = query_column_int64(&o->results, i);
				if ((t->columns[i].type == CT_TINYINT && v != *(signed char*)&r->data[off]) ||
				    ((t->columns[i].type == CT_INTEGER || t->columns[i].type == CT_DATE ||
				      t->columns[i].type == CT_DATETIME) && v != *(int64_t*)&r->data[off]))
					fprintf(out, ",\"ACCESSOR-MISMATCH\"");
			}
			off += table_calc_column_space(&t->columns[i]);
		}
	}
	fprintf(out, "]");
	return end;
}

static void head(struct query_output *o)
{
	fprintf(out, "\"st\":%d,\"aff\":%zu", o->status, o->n_rows_aff);
	if (o->status == ST_ERROR) {
		fprintf(out, ",\"err\":");
		hexout(o->error.message, strnlen(o->error.message, sizeof(o->error.message)));
	} else if (o->status == ST_OK_WITH_RESULTS) {
		fputc(',', out);
		dump_cols(o->results.table);
	}
}

static void query(struct database *db, const char *hex, bool partial)
{
	size_t n;
	char *sql = unhex(hex, &n);
	size_t before = heap_bytes();
	struct query_output *o = query_execute(db, sql);
	if (!o) {
		fprintf(out, "\"st\":-1}\n");
		free(sql);
		return;
	}
	head(o);
	if (o->status == ST_OK_WITH_RESULTS) {
		fputc(',', out);
		if (step_rows(o, partial ? 1 : LONG_MAX) && !partial) {
			/* the end is the end: stepping further neither restarts nor yields rows */
			int again = 0;
			for (int i = 0; i < 3; i++)
				again += query_cur_step(&o->results) == MIDORIDB_ROW;
			fprintf(out, ",\"again\":%d", again);
		}
		fputc(',', out);
		dump_raw(o->results.table);
	}
	query_free(o);
	fprintf(out, ",\"dmem\":%ld}\n", (long)heap_bytes() - (long)before);
	free(sql);
}

/* results kept open across other commands */
static TLS struct query_output *held[NDB];

static void hold(struct database *db, int h, long steps, const char *hex)
{
	size_t n;
	char *sql = unhex(hex, &n);
	struct query_output *o = query_execute(db, sql);
	free(sql);
	if (!o) {
		fprintf(out, "\"st\":-1}\n");
		return;
	}
	head(o);
	if (o->status == ST_OK_WITH_RESULTS) {
		fputc(',', out);
		bool end = step_rows(o, steps);
		fprintf(out, ",\"end\":%d", end);
		held[h] = o;
	} else {
		query_free(o);
	}
	fprintf(out, "}\n");
}

static void resume(int h, long steps)
{
	if (!held[h]) {
		fprintf(out, "\"none\":1}\n");
		return;
	}
	bool end = step_rows(held[h], steps);
	fprintf(out, ",\"end\":%d}\n", end);
}

static void release(int h)
{
	if (held[h])
		query_free(held[h]);
	held[h] = NULL;
	fprintf(out, "\"rel\":1}\n");
}

/* while a database is locked, nothing that is done with others may have to wait */
static TLS int nlocked;

static void stuck(int sig)
{
	static const char m[] = "SUMMARY: waits for the lock of another database\n";
	UNUSED(sig);
	if (write(2, m, sizeof(m) - 1)) {}
	_exit(3);
}

static void lock(struct database *db)
{
	int rc;
	signal(SIGALRM, stuck);
	alarm(10);
	rc = database_lock(db);
	nlocked += !rc;
	fprintf(out, "\"lock\":%d}\n", rc);
}

static void unlock(struct database *db)
{
	int rc = database_unlock(db);
	nlocked--;
	alarm(nlocked ? 10 : 0);
	fprintf(out, "\"lock\":%d}\n", rc);
}

/* run one command; what starts as "{..." is completed to a line of the event log */
static int command(char *line)
{
	int k = 0;
	int used = 0;
	char op = line[0];

	if (op == 'M') {
		fprintf(out, "\"mem\":%zu}\n", heap_bytes());
		return 0;
	}
	sscanf(line + 1, "%d %n", &k, &used);
	char *arg = line + 1 + used;
	if (k < 0 || k >= NDB)
		return 2;
	if (nlocked)
		alarm(10);
	switch (op) {
	case 'L':
		lock(&dbs[k]);
		break;
	case 'U':
		unlock(&dbs[k]);
		break;
	case 'O':
		memset(&dbs[k], 0, sizeof(dbs[k]));
		fprintf(out, "\"open\":%d}\n", database_open(&dbs[k]));
		break;
	case 'C':
		database_close(&dbs[k]);
		fprintf(out, "\"close\":0}\n");
		break;
	case 'Q':
		query(&dbs[k], arg, false);
		break;
	case 'S':
		query(&dbs[k], arg, true);
		break;
	case 'H': {
		int h = 0, used2 = 0;
		long steps = 0;
		sscanf(arg, "%d %ld %n", &h, &steps, &used2);
		hold(&dbs[k], h % NDB, steps, arg + used2);
		break;
	}
	case 'R': {
		resume(k, atol(arg));
		break;
	}
	case 'F':
		release(k);
		break;
	case 'T': {
		if (!database_table_exists(&dbs[k], arg)) {
			fprintf(out, "\"missing\":1}\n");
			break;
		}
		struct table *t = database_table_get(&dbs[k], arg);
		dump_cols(t);
		fputc(',', out);
		dump_raw(t);
		fprintf(out, "}\n");
		break;
	}
	default:
		return 2;
	}
	return 0;
}

#ifndef NO_MAIN
int main(int argc, char **argv)
{
	size_t cap = 1 << 20;
	char *line = malloc(cap);
	ssize_t len;
	long n = 0;

	tzset();
	/* private copy of stdout: the library may print on stdout/stderr */
	out = fdopen(dup(1), "w");
	setvbuf(out, malloc(1 << 16), _IOFBF, 1 << 16);
	int nul = open("/dev/null", O_WRONLY);
	dup2(nul, 1);
	while ((len = getline(&line, &cap, stdin)) > 0) {
		while (len > 0 && (line[len - 1] == '\n'))
			line[--len] = 0;
		if (!len)
			continue;
		n++;
		fprintf(out, "{\"n\":%ld,", n);
		fflush(out);
		if (command(line))
			return 2;
		fflush(out);
	}
	fprintf(out, "{\"end\":%ld}\n", n);
	fflush(out);
	return 0;
}
#endif
