/*
 * stordrv MODULE SEED ROUNDS - drives the storage layer (rows, vacuum, columns) of /repo with random histories and compares the
 * complete contents with a plain model. MODULE: rows (row operations and vacuum) | columns (column changes as well), with _big: hundreds of blocks
 */
#include <primitive/table.h>
#include <primitive/row.h>
#include <primitive/column.h>
#include <primitive/datablock.h>
#include <lib/bit.h>
#include <unistd.h>
size_t __sanitizer_get_current_allocated_bytes(void);
#define HEAP() __sanitizer_get_current_allocated_bytes()

static uint64_t rs;
static uint64_t rnd(void)
{
	rs += 0x9E3779B97F4A7C15ull;
	uint64_t z = rs;
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}
static uint64_t below(uint64_t n) { return rnd() % n; }

static FILE *out;
static unsigned long evals;
static const char *module;
static uint64_t round_seed;
static unsigned long t_ins, t_upd, t_del, t_vac, t_add, t_rem, t_rej, t_walk, t_rowcmp, t_names;

static void viol(const char *key, const char *fmt, ...)
{
	va_list ap;
	fprintf(out, "{\"viol\":\"%s\",\"round_seed\":\"%lu\",\"msg\":\"", key, round_seed);
	va_start(ap, fmt);
	vfprintf(out, fmt, ap);
	va_end(ap);
	fprintf(out, "\"}\n");
	fflush(out);
	_exit(0);
}
#define NSIG 65536
static uint32_t sigs[NSIG];
static int nsig;
static void sig(uint32_t a, uint32_t b, uint32_t c)
{
	uint32_t h = a * 1000003u ^ b * 8191u ^ c * 131u ^ (a << 24);
	uint32_t i = (h * 2654435761u) % NSIG;
	if (!h) h = 1;
	for (; sigs[i]; i = (i + 1) % NSIG)
		if (sigs[i] == h)
			return;
	if (nsig < NSIG / 2) { sigs[i] = h; nsig++; }
}
static unsigned lg(size_t n) { unsigned r = 0; while (n) { r++; n >>= 1; } return r; }
#define OK(c, key, ...) do { evals++; if (!(c)) viol(key, __VA_ARGS__); } while (0)

/* with -DOOM, some operations run with failing allocations: they may fail then (without effect), or succeed all the same */
#ifdef OOM
#include "oom.h"
static unsigned long t_inj, t_fail, t_tol;
static bool inj_hit;
#define INJ(call) ({ bool on_ = below(3) == 0; if (on_) oom_on(1 + below(below(3) ? 3 : 40), below(2)); bool r_ = (call); oom_off(); \
	inj_hit = on_ && al_rep_own.fired; if (inj_hit) { t_inj++; if (r_) t_tol++; else t_fail++; sig(99, (uintptr_t)al_rep_own.site, r_); } r_; })
#else
#define INJ(call) (call)
static const bool inj_hit;
#endif

/* a value: NULL, a string or the bytes of a fixed-size value */
struct val { bool null; int len; unsigned char *b; };
struct mrow { struct val v[TABLE_MAX_COLUMNS]; };

#define MAXR 4000
static struct mrow *mr[MAXR];		/* the model: rows in no particular order */
static int nr;
static struct column mc[TABLE_MAX_COLUMNS];	/* the columns the table should have */
static int nc;
static char history[4096];
static int hl;
static void note(const char *f, ...)
{
	va_list ap;
	va_start(ap, f);
	if (hl > 3900) hl = 0;
	hl += vsnprintf(history + hl, sizeof(history) - hl, f, ap);
	va_end(ap);
}
static const char *tail(void) { return hl > 200 ? history + hl - 200 : history; }

static void val_free(struct val *v) { free(v->b); v->b = NULL; }
static void mrow_free(struct mrow *r) { for (int i = 0; i < nc; i++) val_free(&r->v[i]); free(r); }

static size_t space(struct column *c) { return c->type == CT_VARCHAR ? sizeof(void*) : (size_t)c->precision; }

static int val_cmp(const struct val *a, const struct val *b)
{
	if (a->null != b->null) return a->null ? -1 : 1;
	if (a->null) return 0;
	if (a->len != b->len) return a->len < b->len ? -1 : 1;
	return memcmp(a->b, b->b, a->len);
}
static int mrow_cmp(const void *x, const void *y)
{
	const struct mrow *a = *(struct mrow**)x, *b = *(struct mrow**)y;
	for (int i = 0; i < nc; i++) {
		int r = val_cmp(&a->v[i], &b->v[i]);
		if (r) return r;
	}
	return 0;
}

static struct val rnd_val(struct column *c)
{
	struct val v = { 0 };
	if (c->nullable && below(6) == 0) { v.null = true; return v; }
	if (c->type == CT_VARCHAR) {
		v.len = below(c->precision);	/* up to precision - 1, plus the terminator */
		if (below(4) == 0) v.len = c->precision - 1;
		v.b = malloc(v.len + 1);
		for (int i = 0; i < v.len; i++) v.b[i] = 1 + below(255);
	} else {
		v.len = c->precision;
		v.b = malloc(v.len + 1);
		for (int i = 0; i < v.len; i++) v.b[i] = below(3) ? rnd() : 0;
	}
	return v;
}
static struct mrow *rnd_row(void)
{
	struct mrow *r = calloc(1, sizeof(*r));
	for (int i = 0; i < nc; i++) r->v[i] = rnd_val(&mc[i]);
	return r;
}

/* the row as callers of the storage layer build it; strings in buffers of exactly the column's size */
static struct row *build_row(struct mrow *r, size_t size)
{
	struct row *row = calloc(1, size);
	size_t off = 0;
	memset(row->data, 0xA5, size - sizeof(*row));
	row->flags.empty = false;
	for (int i = 0; i < nc; i++) {
		if (r->v[i].null) {
			bit_set(row->null_bitmap, i, sizeof(row->null_bitmap));
			if (mc[i].type == CT_VARCHAR) memset(&row->data[off], 0, sizeof(void*));
		} else if (mc[i].type == CT_VARCHAR) {
			char *p = calloc(1, mc[i].precision);
			memcpy(p, r->v[i].b, r->v[i].len);
			memcpy(&row->data[off], &p, sizeof(p));
		} else
			memcpy(&row->data[off], r->v[i].b, r->v[i].len);
		off += space(&mc[i]);
	}
	return row;
}
static void drop_row(struct mrow *r, struct row *row, size_t size)
{
	size_t off = 0;
	for (int i = 0; i < nc; i++) {
		if (mc[i].type == CT_VARCHAR && !r->v[i].null) {
			char *p;
			memcpy(&p, &row->data[off], sizeof(p));
			memset(p, 0xEE, mc[i].precision);
			free(p);
		}
		off += space(&mc[i]);
	}
	memset(row, 0xEE, size);
	free(row);
}

struct loc { struct datablock *blk; size_t off; };

/* read every live row of the table; @only: just the row at that position */
static int walk(struct table *t, struct mrow **rows, struct loc *locs, int max, int *deleted, int *blocks)
{
	size_t size = table_calc_row_size(t);
	struct list_head *pos;
	int n = 0;

	*deleted = *blocks = 0;
	t_walk++;
	list_for_each(pos, t->datablock_head) {
		struct datablock *b = list_entry(pos, struct datablock, head);
		(*blocks)++;
		for (size_t i = 0; i < DATABLOCK_PAGE_SIZE / size; i++) {
			struct row *row = (struct row*)&b->data[i * size];
			size_t off = 0;
			if (row->flags.empty) continue;
			if (row->flags.deleted) { (*deleted)++; continue; }
			if (n >= max) return n + 1;
			struct mrow *r = calloc(1, sizeof(*r));
			for (int c = 0; c < nc; c++) {
				struct val *v = &r->v[c];
				v->null = bit_test(row->null_bitmap, c, sizeof(row->null_bitmap));
				if (!v->null) {
					if (mc[c].type == CT_VARCHAR) {
						char *p;
						memcpy(&p, &row->data[off], sizeof(p));
						v->len = strnlen(p, mc[c].precision);
						v->b = malloc(v->len + 1);
						memcpy(v->b, p, v->len);
					} else {
						v->len = mc[c].precision;
						v->b = malloc(v->len + 1);
						memcpy(v->b, &row->data[off], v->len);
					}
				}
				off += space(&mc[c]);
			}
			locs[n].blk = b;
			locs[n].off = i * size;
			rows[n++] = r;
		}
	}
	return n;
}

static struct mrow *wr[MAXR + 1];
static struct loc wl[MAXR + 1];
static int w_del, w_blk;

static void free_walk(int n) { for (int i = 0; i < n; i++) mrow_free(wr[i]); }

static void check_columns(struct table *t)
{
	size_t sz = 0;
	OK(t->column_count == nc, "columns-count", "%d columns, expected %d; after %s", t->column_count, nc, tail());
	for (int i = 0; i < nc; i++) {
		OK(!strcmp(t->columns[i].name, mc[i].name) && t->columns[i].type == mc[i].type && t->columns[i].precision == mc[i].precision &&
		   t->columns[i].nullable == mc[i].nullable && t->columns[i].unique == mc[i].unique && t->columns[i].primary_key == mc[i].primary_key &&
		   t->columns[i].auto_inc == mc[i].auto_inc && t->columns[i].indexed == mc[i].indexed, "columns", "column %d of %d changed; after %s", i, nc, tail());
		OK(table_calc_column_space(&t->columns[i]) == space(&mc[i]), "column-space", "space of column %d", i);
		OK(table_check_var_column(&t->columns[i]) == (mc[i].type == CT_VARCHAR), "var-column", "column %d", i);
		sz += space(&mc[i]);
	}
	OK(table_calc_row_data_size(t) == sz, "row-data-size", "row data size is %zu, expected %zu", table_calc_row_data_size(t), sz);
	OK(table_calc_row_size(t) == sizeof(struct row) + sz, "row-size", "row size");
}

static void check(struct table *t)
{
	check_columns(t);
	int n = walk(t, wr, wl, MAXR, &w_del, &w_blk);
	OK(n == nr, "row-count", "%d live rows, expected %d; after %s", n, nr, tail());
	qsort(wr, n, sizeof(*wr), mrow_cmp);
	qsort(mr, nr, sizeof(*mr), mrow_cmp);
	for (int i = 0; i < n; i++) {
		for (int c = 0; c < nc; c++) {
			OK(!val_cmp(&wr[i]->v[c], &mr[i]->v[c]), "row-contents", "rows differ in column %d of %d (type %d, %s instead of %s), %d rows of %zu bytes; after %s",
			   c, nc, mc[c].type, wr[i]->v[c].null ? "NULL" : "a value", mr[i]->v[c].null ? "NULL" : "a value", nr, table_calc_row_size(t), tail());
		}
		t_rowcmp++;
	}
	free_walk(n);
}

/* letters, then letters, digits and underscores */
static bool legal(const char *n, size_t max)
{
	size_t l = strlen(n);
	if (!l || l > max) return false;
	for (size_t i = 0; i < l; i++) {
		unsigned char c = n[i];
		bool letter = (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z');
		if (!letter && !(i && ((c >= '0' && c <= '9') || c == '_'))) return false;
	}
	return true;
}

static void rnd_name(char *n)
{
	static const char L[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_";
	size_t l = 1 + (below(4) ? below(12) : below(127));
	for (size_t i = 0; i < l; i++) n[i] = L[below(i ? sizeof(L) - 1 : 52)];
	n[l] = 0;
}

static bool known_name(const char *n)
{
	for (int i = 0; i < nc; i++) if (!strcmp(mc[i].name, n)) return true;
	return false;
}

/* names that are just about legal or illegal */
static void names(void)
{
	char n[400];
	for (int k = 0; k < 12; k++) {
		rnd_name(n);
		size_t l = strlen(n);
		switch (below(5)) {
		case 0: n[below(l)] = "@[`{/:-. _$\x7f\x80\xe9\xff!09"[below(19)]; break;
		case 1: l = 125 + below(6); memset(n, 'k', l); n[l] = 0; break;
		case 2: n[below(l)] = "azAZ09_"[below(7)]; break;
		case 3: n[0] = (char)(1 + below(255)); break;
		default: if (below(10) == 0) { l = 255 + below(4); memset(n, 'k', l); n[l] = 0; } if (below(20) == 0) n[0] = 0;
		}
		OK(table_validate_name(n) == legal(n, TABLE_MAX_NAME), "table-name", "table_validate_name is wrong about \"%s\"", n);
		OK(table_validate_column_name(n) == legal(n, TABLE_MAX_COLUMN_NAME), "column-name", "table_validate_column_name is wrong about \"%s\"", n);
		t_names++;
	}
}

static void rnd_column(struct column *c, int uniq)
{
	static const enum COLUMN_TYPE T[] = { CT_VARCHAR, CT_INTEGER, CT_TINYINT, CT_DOUBLE, CT_DATE, CT_DATETIME };
	memset(c, 0, sizeof(*c));
	c->type = T[below(6)];
	switch (below(6)) {
	case 0: case 1: snprintf(c->name, sizeof(c->name), "a_rather_long_name_for_a_column_%d", uniq); break;
	case 2: rnd_name(c->name); break;
	case 3: memset(c->name, 'n', TABLE_MAX_COLUMN_NAME - 4); snprintf(c->name + TABLE_MAX_COLUMN_NAME - 4, 5, "%04d", uniq % 10000); break;
	default: snprintf(c->name, sizeof(c->name), "c%d", uniq);
	}
	if (known_name(c->name)) snprintf(c->name, sizeof(c->name), "c%d", uniq);
	c->precision = c->type == CT_VARCHAR ? 1 + below(below(8) ? 40 : 3000) : table_calc_column_precision(c->type);
	c->nullable = below(4) != 0;
	c->unique = below(4) == 0;
	c->indexed = below(4) == 0;
	c->auto_inc = below(8) == 0;
	c->primary_key = below(8) == 0;
}

static void check(struct table *t);
static int find_model(struct mrow *r)
{
	for (int i = 0; i < nr; i++)
		if (!mrow_cmp(&mr[i], &r)) return i;
	return -1;
}

static void add_col(struct table *t, struct column *c, bool want)
{
	struct column keep = *c;
	bool r = INJ(table_add_column(t, c));
	if (!r && want && inj_hit) { check(t); *c = keep; r = table_add_column(t, c); }
	memset(c, 0xEE, sizeof(*c));
	OK(r == want, "add-column", "adding column %d returned %d, expected %d", nc, r, want);
	note("add(%d) ", keep.type);
	t_add++;
	if (!r) return;
	mc[nc] = keep;
	nc++;
	/* existing rows hold nothing there yet: NULL, zero or the empty string */
	for (int i = 0; i < nr; i++) mr[i]->v[nc - 1] = (struct val){ .null = true };
	int n = walk(t, wr, wl, MAXR, &w_del, &w_blk);
	OK(n == nr, "row-count", "%d live rows after adding a column, expected %d; after %s", n, nr, tail());
	bool isnull = false, mixed = false;
	for (int i = 0; i < n; i++) {
		struct val *v = &wr[i]->v[nc - 1];
		if (!v->null && keep.type == CT_VARCHAR) OK(v->len == 0, "add-column-value", "new column holds text in existing rows");
		for (int k = 0; !v->null && k < v->len; k++) OK(v->b[k] == 0, "add-column-value", "new column holds data in existing rows");
		if (i == 0) isnull = v->null; else if (isnull != v->null) mixed = true;
	}
	OK(!mixed, "add-column-value", "new column is NULL in some rows only");
	if (n && !isnull)
		for (int i = 0; i < nr; i++) {
			struct val *v = &mr[i]->v[nc - 1];
			v->null = false;
			v->len = keep.type == CT_VARCHAR ? 0 : keep.precision;
			v->b = calloc(1, v->len + 1);
		}
	free_walk(n);
}

static void compare_space(struct table *t, size_t used)
{
#ifdef __clang__
	/* MemorySanitizer's allocator statistics aren't exact enough */
	(void)t; (void)used;
	return;
#endif
	/* the same rows, inserted into a new table */
	size_t size = table_calc_row_size(t), before = HEAP();
	struct table *f = table_init("fresh");
	OK(f != NULL, "init", "table_init failed");
	for (int i = 0; i < nc; i++) {
		struct column c = mc[i];
		OK(table_add_column(f, &c), "add-column", "column %d rejected", i);
	}
	for (int i = 0; i < nr; i++) {
		struct row *row = build_row(mr[i], size);
		OK(table_insert_row(f, row, size), "insert", "insert failed");
		drop_row(mr[i], row, size);
	}
	size_t fresh = HEAP() - before;
	/* a table that never held rows has no block; one emptied may keep one */
	size_t now = HEAP();
	void * volatile blk = malloc(sizeof(struct datablock));
	size_t slack = HEAP() - now;
	free(blk);
	OK(used <= fresh + slack, "vacuum-space", "%zu bytes in use after vacuum, %zu suffice for the same %d rows; after %s", used, fresh, nr, tail());
	OK(table_destroy(&f) && !f, "destroy", "destroy failed");
}

static void run(bool columns, bool big)
{
	size_t base = HEAP();
	hl = 0;
	nr = nc = 0;
	struct table *t;
	do t = NULL; while (!INJ((t = table_init("tbl")) != NULL) && inj_hit);
	OK(t != NULL && !strcmp(t->name, "tbl"), "init", "table_init failed");
	int want = below(5) == 0 ? (int)(1 + below(TABLE_MAX_COLUMNS)) : (int)(1 + below(8)), uniq = 0;
	bool eights = below(4) == 0;	/* rows that divide a block evenly */
	if (big && below(3)) want = 30 + below(TABLE_MAX_COLUMNS - 30);
	if (eights) want = (int[]){ 4, 12, 28, 60, 124 }[below(5)];
	if (columns && want == TABLE_MAX_COLUMNS) want -= below(2);
	for (int i = 0; i < want; i++) {
		struct column c;
		rnd_column(&c, uniq++);
		if (eights && c.type == CT_TINYINT) { c.type = CT_INTEGER; c.precision = 8; }
		add_col(t, &c, true);
	}
	size_t size = table_calc_row_size(t), per = (DATABLOCK_PAGE_SIZE - 1) / size;
	int nops = big ? 6 + below(20) : 10 + below(per * 6 < 300 ? per * 6 : 300);
	int bias = 35 + below(40);
	size_t opkinds = 0;

	if (columns) names();

	for (int op = 0; op < nops; op++) {
		unsigned w = below(100);
		size = table_calc_row_size(t);
		if (columns && (big ? w >= 75 : w >= 90) && below(2)) {
			if (below(2)) {
				struct column c;
				bool ok = nc < TABLE_MAX_COLUMNS;
				if (nc && below(5) == 0) { c = mc[below(nc)]; ok = false; }
				else {
					rnd_column(&c, uniq++);
					if (below(10) == 0) { c.precision = 0; ok = false; }
				}
				add_col(t, &c, ok);
				opkinds |= 1;
			} else if (nc) {
				struct column c;
				int k = below(nc);
				bool ok = below(6) != 0 && nc > 1;
				if (ok) c = mc[k];
				else { memset(&c, 0, sizeof(c)); strcpy(c.name, "nosuch"); }
				OK(table_rem_column(t, &c) == ok, "rem-column", "removing a%s column failed", ok ? "n existing" : " missing");
				note("rem(%d/%d) ", k, nc);
				t_rem++;
				if (ok) {
					for (int i = 0; i < nr; i++) {
						val_free(&mr[i]->v[k]);
						memmove(&mr[i]->v[k], &mr[i]->v[k + 1], (nc - k - 1) * sizeof(struct val));
						mr[i]->v[nc - 1] = (struct val){ 0 };
					}
					memmove(&mc[k], &mc[k + 1], (nc - k - 1) * sizeof(*mc));
					nc--;
				}
				opkinds |= 2;
			}
		} else if (w < (unsigned)bias || (nr == 0 && below(3))) {
			int burst = below(6) ? 1 : 1 + below(per * 2);
			if (big) burst = 1 + below(below(2) ? 1400 : 400);
			while (burst-- && nr < MAXR - 1) {
				struct mrow *r = rnd_row();
				struct row *row = build_row(r, size);
				bool done = INJ(table_insert_row(t, row, size));
				OK(done || inj_hit, "insert", "insert failed; after %s", tail());
				drop_row(r, row, size);
				if (done) { mr[nr++] = r; t_ins++; }
				else { mrow_free(r); note("fail "); check(t); }
			}
			note("ins ");
		} else if (w < 80 && nr) {
			/* several rows, located by one walk, as the executors do */
			int n = walk(t, wr, wl, MAXR, &w_del, &w_blk);
			OK(n == nr, "row-count", "%d live rows, expected %d; after %s", n, nr, tail());
			int times = below(4) ? 1 : 1 + below(n), start = below(n), mode = below(3);
			if (below(12) == 0) { times = n; start = 0; if (below(2)) mode = 1; }
			if (big && below(2)) { mode = 1; times = 1 + below(n); }
			for (int k = 0; k < times && start + k < n; k++) {
				int x = start + k, m = find_model(wr[x]);
				OK(m >= 0, "row-contents", "a row the table should not have; after %s", tail());
				if (mode) {
					OK(table_delete_row(t, wl[x].blk, wl[x].off), "delete", "delete failed");
					mrow_free(mr[m]);
					mr[m] = mr[--nr];
					t_del++;
				} else {
					struct mrow *r = rnd_row();
					struct row *row = build_row(r, size);
					OK(table_update_row(t, wl[x].blk, wl[x].off, row, size), "update", "update failed");
					drop_row(r, row, size);
					mrow_free(mr[m]);
					mr[m] = r;
					t_upd++;
				}
			}
			note("%s%d ", mode ? "del" : "upd", times);
			free_walk(n);
			opkinds |= mode ? 4 : 8;
		} else if (w < 88) {
			OK(table_vacuum(t), "vacuum", "vacuum failed");
			note("vac ");
			t_vac++;
			size_t used;
			int dels = w_del, n = walk(t, wr, wl, MAXR, &w_del, &w_blk);
			free_walk(n);
			OK(w_del == 0, "vacuum-deleted", "%d deleted rows left after vacuum", w_del);
			OK(w_blk <= 1 || (size_t)w_blk <= (nr + per - 1) / (per ? per : 1), "vacuum-blocks", "%d blocks for %d rows, %zu per block; after %s", w_blk, nr, per, tail());
			check(t);
			/* what the table alone occupies */
			size_t model = 0;
			for (int i = 0; i < nr; i++) {
				model += sizeof(struct mrow);
				for (int c = 0; c < nc; c++) if (!mr[i]->v[c].null) model += mr[i]->v[c].len + 1;
			}
			used = HEAP() - base - model;
			if (!columns || below(2)) compare_space(t, used);
			opkinds |= 16;
			(void)dels;
		} else {
			/* misuse that has to be refused */
			struct mrow *r = rnd_row();
			struct row *row = build_row(r, size + 8);
			OK(!table_vacuum(NULL) && !table_insert_row(t, row, size + 8) && !table_insert_row(t, row, 0) && !table_insert_row(t, NULL, size) && !table_insert_row(NULL, row, size),
			   "insert-invalid", "invalid insert accepted");
			if (size > 1) OK(!table_insert_row(t, row, size - 1), "insert-invalid", "short row accepted");
			if (!list_is_empty(t->datablock_head)) {
				struct datablock *b = list_entry(t->datablock_head->next, struct datablock, head);
				OK(!table_update_row(t, b, 0, row, size + 1) && !table_update_row(t, b, DATABLOCK_PAGE_SIZE, row, size) && !table_delete_row(t, b, DATABLOCK_PAGE_SIZE) &&
				   !table_delete_row(t, NULL, 0) && !table_update_row(t, NULL, 0, row, size), "invalid", "invalid update or delete accepted");
			}
			drop_row(r, row, size + 8);
			mrow_free(r);
			t_rej++;
		}
		if (op % 4 == 0 || op == nops - 1) {
			check(t);
			if (nr) sig(columns, lg(size) * 64 + w_blk, opkinds * 16 + lg(nr));
		}
		per = (DATABLOCK_PAGE_SIZE - 1) / table_calc_row_size(t);
	}
	for (int i = 0; i < nr; i++) mrow_free(mr[i]);
	OK(table_destroy(&t) && !t, "destroy", "destroy failed");
	OK(HEAP() == base, "leak", "%ld bytes left behind after destroying the table; history: %s", (long)(HEAP() - base), tail());
}

int main(int argc, char **argv)
{
	if (argc < 4) return 2;
	uint64_t seed = strtoull(argv[2], NULL, 10);
	long rounds = atol(argv[3]);
	out = fdopen(dup(1), "w");
	setvbuf(out, malloc(1 << 16), _IOFBF, 1 << 16);
	if (!freopen("/dev/null", "w", stdout)) return 2;
	module = argv[1];
	for (long r = 0; r < rounds; r++) {
		rs = round_seed = seed * 1000003ull + r;
		rnd();
		run(!strncmp(module, "columns", 7), strstr(module, "_big") != NULL);
	}
	fprintf(out, "{\"evals\":%lu,\"rounds\":%ld,\"tally\":{\"inserts\":%lu,\"updates\":%lu,\"deletes\":%lu,\"vacuums\":%lu,\"columns_added\":%lu,\"columns_removed\":%lu,"
		"\"refused\":%lu,\"table_walks\":%lu,\"rows_compared\":%lu,\"names_judged\":%lu", evals, rounds, t_ins, t_upd, t_del, t_vac, t_add, t_rem, t_rej, t_walk, t_rowcmp, t_names);
#ifdef OOM
	fprintf(out, ",\"operations_with_failing_allocations\":%lu,\"of_these_failed\":%lu,\"of_these_succeeded\":%lu", t_inj, t_fail, t_tol);
#endif
	fprintf(out, "},\"sigs\":[");
	bool first = true;
	for (int k = 0; k < NSIG; k++)
		if (sigs[k]) { fprintf(out, "%s%u", first ? "" : ",", sigs[k]); first = false; }
	fprintf(out, "]}\n{\"end\":1}\n");
	fflush(out);
	return 0;
}
