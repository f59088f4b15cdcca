/*
 * primdrv MODULE SEED ROUNDS - drives one data structure of /repo with random operations and compares every answer, and
 * the complete contents, with a plain reference model. Prints counters and signatures as JSON lines.
 */
#include <datastructure/btree.h>
#include <datastructure/hashtable.h>
#include <datastructure/queue.h>
#include <datastructure/stack.h>
#include <datastructure/vector.h>
#include <datastructure/linkedlist.h>
#include <lib/bit.h>
#include <lib/string.h>
#include <lib/regex.h>
#include <unistd.h>
size_t __sanitizer_get_current_allocated_bytes(void);
#define HEAP() __sanitizer_get_current_allocated_bytes()

static uint64_t rs;
static uint64_t rnd(void)
{
	rs += 0x9E3779B97F4A7C15ull;
	uint64_t z = rs;
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}
static uint64_t below(uint64_t n) { return rnd() % n; }

static FILE *out;
static unsigned long evals;
static const char *module;
static uint64_t round_seed;

static void viol(const char *key, const char *fmt, ...)
{
	va_list ap;
	fprintf(out, "{\"viol\":\"%s-%s\",\"round_seed\":\"%lu\",\"msg\":\"", module, key, round_seed);
	va_start(ap, fmt);
	vfprintf(out, fmt, ap);
	va_end(ap);
	fprintf(out, "\"}\n");
	fflush(out);
	_exit(0);
}

/* signatures of non-trivial observations */
#define NSIG 65536
static uint32_t sigs[NSIG];
static int nsig;
static void sig(uint32_t a, uint32_t b, uint32_t c)
{
	uint32_t h = a * 1000003u ^ b * 8191u ^ c * 131u ^ (a << 24);
	uint32_t i = (h * 2654435761u) % NSIG;
	if (!h) h = 1;
	for (; sigs[i]; i = (i + 1) % NSIG)
		if (sigs[i] == h)
			return;
	if (nsig < NSIG / 2) {
		sigs[i] = h;
		nsig++;
	}
}
static unsigned lg(size_t n) { unsigned r = 0; while (n) { r++; n >>= 1; } return r; }

#define OK(c, key, ...) do { evals++; if (!(c)) viol(key, __VA_ARGS__); } while (0)

/* with -DOOM, some operations run with failing allocations: they may fail then (without effect), or succeed all the same */
#ifdef OOM
#include "oom.h"
static unsigned long t_inj, t_fail, t_tol;
static bool inj_hit;
#define INJ(call) ({ bool on_ = below(3) == 0; if (on_) oom_on(1 + below(below(3) ? 3 : 40), below(2)); bool r_ = (call); oom_off(); \
	inj_hit = on_ && al_rep_own.fired; if (inj_hit) { t_inj++; if (r_) t_tol++; else t_fail++; sig(99, (uintptr_t)al_rep_own.site, r_); } r_; })
#else
#define INJ(call) (call)
static const bool inj_hit;
#endif
/* again, until it isn't a failing allocation that stops it */
#define INIT(call, msg) do { bool r_; do r_ = INJ(call); while (!r_ && inj_hit); OK(r_, "init", msg); } while (0)

/* ------------------------------------------------------------------ btree */
struct mkey { bool in; void *key; void *val; };

static size_t bt_walk(struct btree_head *h, struct btree_node *n, bool root, int depth, int *leafdepth, void **prev)
{
	size_t cnt = 0;
	OK(n->key_count <= 2 * h->min_degree - 1, "overfull", "node with %d keys, degree %d", n->key_count, h->min_degree);
	OK(n->key_count >= (root ? 1 : h->min_degree - 1), "underfull", "node with %d keys, degree %d", n->key_count, h->min_degree);
	if (n->is_leaf) {
		if (*leafdepth < 0)
			*leafdepth = depth;
		OK(*leafdepth == depth, "unbalanced", "leaves at depths %d and %d", *leafdepth, depth);
	}
	for (int i = 0; i <= n->key_count; i++) {
		if (!n->is_leaf)
			cnt += bt_walk(h, &n->children[i], false, depth + 1, leafdepth, prev);
		if (i < n->key_count) {
			if (*prev)
				OK(h->cmp_fn(*prev, n->keys[i].key) < 0, "unsorted", "keys out of order");
			*prev = n->keys[i].key;
			cnt++;
		}
	}
	return cnt;
}

static void run_btree(void)
{
	size_t before = HEAP();
	bool str = below(4) == 0;
	int deg = below(4) ? 2 + below(4) : 2 + below(60);
	size_t dom = (size_t[]){ 4, 12, 40, 150, 600, 3000 }[below(6)];
	size_t nops = dom * (2 + below(4)) + 10;
	struct mkey *m = calloc(dom, sizeof(*m));
	struct btree_head *h = NULL;
	size_t n = 0, maxn = 0;
	int pattern = below(5), phase;
	int absent = 0;
	char pbuf[32];
	uint64_t pint;

#define PROBE(i) (str ? (snprintf(pbuf, sizeof(pbuf), "k%lu", (unsigned long)(i)), (void*)pbuf) : (pint = (i) * 0x100000001ull, (void*)&pint))
	INIT((h = btree_init(deg, str ? btree_cmp_str : btree_cmp_ul)) != NULL, "btree_init failed");
	for (size_t op = 0; op < nops; op++) {
		phase = (op * 4 / nops) % 2;	/* growing, shrinking, growing, shrinking */
		size_t k = pattern == 1 ? op % dom : pattern == 2 ? dom - 1 - op % dom : below(dom);
		unsigned w = below(100);
		if (w < (phase ? 20 : 60)) {
			if (!m[k].in) {
				char *kk;
				if (str) { kk = malloc(32); snprintf(kk, 32, "k%lu", (unsigned long)k); }
				else { kk = malloc(8); *(uint64_t*)kk = k * 0x100000001ull; }
				m[k].key = kk;
				m[k].val = malloc(1);
				bool r = INJ(btree_insert(h, kk, m[k].val) == 0);
				OK(r || inj_hit, "insert", "insert failed");
				if (r) {
					m[k].in = true;
					n++;
					if (n > maxn) maxn = n;
				} else {
					free(kk);
					free(m[k].val);
				}
			}
		} else if (w < 80) {
			void *p = PROBE(k);
			bool r = INJ(btree_remove(h, p) == 0);
			OK(r || inj_hit, "remove", "remove failed");
			if (m[k].in && r) {
				free(m[k].key);
				free(m[k].val);
				m[k].in = false;
				n--;
			} else if (r)
				absent++;
		} else if (w < 88) {
			void *p = PROBE(k);
			void *nv = malloc(1);
			bool r = btree_update(h, p, nv);
			OK(r == m[k].in, "update", "update of a%s key returned %d", m[k].in ? " present" : "n absent", r);
			if (r) { free(m[k].val); m[k].val = nv; } else free(nv);
		} else {
			void *p = PROBE(k);
			void *v = btree_lookup(h, p);
			OK(v == (m[k].in ? m[k].val : NULL), "lookup", "lookup of a%s key returned %s", m[k].in ? " present" : "n absent", v ? "another value" : "nothing");
		}
		if (op % (1 + dom / 8) == 0 || op == nops - 1) {
			int ld = -1;
			void *prev = NULL;
			size_t c = h->root ? bt_walk(h, h->root, true, 0, &ld, &prev) : 0;
			OK(c == n, "count", "%zu keys in the tree, %zu expected", c, n);
			for (size_t i = 0; i < dom; i++) {
				void *p = PROBE(i);
				void *v = btree_lookup(h, p);
				OK(v == (m[i].in ? m[i].val : NULL), "contents", "after %zu operations, lookup of a%s key returned %s (degree %d, %zu keys)",
				   op + 1, m[i].in ? " present" : "n absent", v ? "another value" : "nothing", deg, n);
			}
			sig(1, deg * 16 + ld, lg(n) * 32 + phase * 8 + pattern);
		}
	}
	btree_destroy(&h);
	OK(h == NULL, "destroy", "head not cleared");
	for (size_t i = 0; i < dom; i++)
		if (m[i].in) { free(m[i].key); free(m[i].val); }
	free(m);
	OK(HEAP() == before, "leak", "%ld bytes left behind (degree %d, up to %zu keys)", (long)(HEAP() - before), deg, maxn);
}

/* -------------------------------------------------------------- hashtable */
struct mkv { bool in; unsigned char *val; size_t vlen; int seen; };
static size_t keysz[4096];
static unsigned char keyb[4096][40];
static bool bin_cmp(const void *a, size_t al, const void *b, size_t bl) { return al == bl && !memcmp(a, b, al); }
static size_t hash_const(const void *a, size_t al) { (void)a; (void)al; return 7; }
static size_t hash_len(const void *a, size_t al) { (void)a; return al * 16; }

struct farg { struct mkv *m; size_t dom; size_t calls; bool bad; struct hashtable *h; bool drain; };
static void ht_cb(struct hashtable *h, const void *key, size_t klen, const void *val, size_t vlen, void *arg)
{
	struct farg *f = arg;
	f->calls++;
	if (h != f->h) f->bad = true;
	for (size_t i = 0; i < f->dom; i++)
		if (keysz[i] == klen && !memcmp(keyb[i], key, klen)) {
			if (!f->m[i].in || f->m[i].vlen != vlen || memcmp(f->m[i].val, val, vlen))
				f->bad = true;
			f->m[i].seen++;
			if (f->drain) {
				struct hashtable_entry *e = hashtable_remove(h, key, klen);
				if (!e) f->bad = true; else hashtable_free_entry(e);
			}
			return;
		}
	f->bad = true;
}

static void run_hashtable(void)
{
	size_t before = HEAP();
	struct hashtable h;
	bool bin = below(3) == 0;
	int hk = below(4);
	hashtable_hash_fn hf = hk == 0 ? hash_const : hk == 1 ? hash_len : hashtable_str_hash;
	size_t dom = (size_t[]){ 3, 9, 30, 120, 500, 2000 }[below(hk < 2 ? 4 : 6)];
	size_t nops = dom * (2 + below(4)) + 10, n = 0;
	struct mkv *m = calloc(dom, sizeof(*m));

	for (size_t i = 0; i < dom; i++) {
		if (bin) {
			size_t j;
			/* often the start of another key, or another key with more behind it: only the lengths tell them apart */
			do {
				size_t from = i && below(2) ? below(i) : i, have = 0;
				if (from == i) {
					keysz[i] = 3 + below(30);
				} else {
					have = keysz[from];
					keysz[i] = below(2) || have == sizeof(keyb[0]) ? 1 + below(have) : have + 1 + below(sizeof(keyb[0]) - have);
				}
				for (j = 0; j < keysz[i]; j++) keyb[i][j] = j < have ? keyb[from][j] : rnd();
				if (!have) { keyb[i][0] = i; keyb[i][1] = i >> 8; }
				for (j = 0; j < i && (keysz[j] != keysz[i] || memcmp(keyb[j], keyb[i], keysz[i])); j++) ;
			} while (j < i);
		} else {
			static const char *pre[] = { "", "a", "table_", "\xc3\xa9", "Ab" };
			keysz[i] = 1 + snprintf((char*)keyb[i], sizeof(keyb[i]), "%s%zu%s", pre[below(5)], i, below(2) ? "x" : "");
			/* unique by construction of the digits and what surrounds them */
		}
	}
	INIT(hashtable_init(&h, bin ? bin_cmp : hashtable_str_compare, hf), "hashtable_init failed");
	for (size_t op = 0; op < nops; op++) {
		size_t k = below(dom);
		unsigned w = below(100);
		int phase = (op * 4 / nops) % 2;
		/* callers may reuse the memory of keys and values */
		unsigned char kb[40], vb[200];
		size_t kl = keysz[k];
		memcpy(kb, keyb[k], kl);
		if (w < (phase ? 25 : 60)) {
			size_t vl = 1 + below(below(10) ? 12 : 200);
			for (size_t j = 0; j < vl; j++) vb[j] = rnd();
			unsigned char *keep = malloc(vl);
			memcpy(keep, vb, vl);
			bool r = INJ(hashtable_put(&h, kb, kl, vb, vl));
			memset(kb, 0xEE, sizeof(kb));
			memset(vb, 0xEE, sizeof(vb));
			OK(r == !m[k].in || (inj_hit && !r), "put", "put of a %s key returned %d", m[k].in ? "present" : "new", r);
			if (r) { m[k].in = true; m[k].val = keep; m[k].vlen = vl; n++; }
			else free(keep);
		} else if (w < 75) {
			struct hashtable_entry *e = hashtable_remove(&h, kb, kl);
			OK(!!e == m[k].in, "remove", "remove of a%s key returned %s", m[k].in ? " present" : "n absent", e ? "an entry" : "nothing");
			if (e) {
				OK(e->key.len == kl && !memcmp(e->key.content, kb, kl), "remove-key", "removed entry has another key");
				OK(e->value.len == m[k].vlen && !memcmp(e->value.content, m[k].val, m[k].vlen), "remove-value", "removed entry has another value");
				hashtable_free_entry(e);
				free(m[k].val);
				m[k].in = false;
				n--;
			}
		} else {
			struct hashtable_value *v = hashtable_get(&h, kb, kl);
			OK(!!v == m[k].in, "get", "get of a%s key returned %s", m[k].in ? " present" : "n absent", v ? "an entry" : "nothing");
			if (v)
				OK(v->len == m[k].vlen && !memcmp(v->content, m[k].val, v->len), "get-value", "wrong value");
		}
		OK(h.count == n, "count", "count is %zu, expected %zu", h.count, n);
		if (op % (1 + dom / 8) == 0 || op == nops - 1) {
			struct farg f = { m, dom, 0, false, &h, false };
			for (size_t i = 0; i < dom; i++) m[i].seen = 0;
			hashtable_foreach(&h, ht_cb, &f);
			OK(!f.bad && f.calls == n, "foreach", "foreach visited %zu entries of %zu, or wrong ones", f.calls, n);
			for (size_t i = 0; i < dom; i++) {
				OK(m[i].seen == m[i].in, "foreach-once", "an entry was visited %d times", m[i].seen);
				struct hashtable_value *v = hashtable_get(&h, keyb[i], keysz[i]);
				OK(!!v == m[i].in && (!v || (v->len == m[i].vlen && !memcmp(v->content, m[i].val, v->len))), "contents", "entry lost, stale or changed");
			}
			sig(2, hk * 2 + bin, lg(n) * 64 + lg(h.capacity));
		}
	}
	struct farg f = { m, dom, 0, false, &h, true };
	for (size_t i = 0; i < dom; i++) m[i].seen = 0;
	hashtable_foreach(&h, ht_cb, &f);
	OK(!f.bad && f.calls == n && h.count == 0, "drain", "removing every entry while iterating visited %zu of %zu, left %zu", f.calls, n, h.count);
	hashtable_free(&h);
	for (size_t i = 0; i < dom; i++) if (m[i].in) free(m[i].val);
	free(m);
	OK(HEAP() == before, "leak", "%ld bytes left behind", (long)(HEAP() - before));
}

/* ---------------------------------------------------- queue, stack, vector, list */
struct item { unsigned char *p; size_t len; bool raw; };

static unsigned char *blob(size_t *len)
{
	*len = 1 + below(below(8) ? 20 : 700);
	unsigned char *p = malloc(*len);
	for (size_t i = 0; i < *len; i++) p[i] = rnd();
	return p;
}
#define SAME(it, q) ((it).raw ? (void*)(q) == (void*)(it).p : (void*)(q) != (void*)(it).p && !memcmp((q), (it).p, (it).len))

static void run_queue(void)
{
	size_t before = HEAP(), nops = 20 + below(below(5) ? 200 : 3000), n = 0, maxn = 0, head = 0;
	struct item *m = calloc(nops + 1, sizeof(*m));
	struct queue q = { 0 };
	int bias = 30 + below(45);

	INIT(queue_init(&q), "queue_init failed");
	for (size_t op = 0; op < nops; op++) {
		unsigned w = below(100);
		if (w < (unsigned)bias) {
			struct item *it = &m[head + n];
			it->p = blob(&it->len);
			bool r = INJ(queue_offer(&q, it->p, it->len));
			OK(r || inj_hit, "offer", "offer failed");
			if (r) n++;
			else free(it->p);
		} else if (w < 85) {
			void *p = queue_poll(&q);
			OK(!!p == (n > 0), "poll", "poll on %zu items returned %s", n, p ? "something" : "nothing");
			if (p) {
				OK(SAME(m[head], p), "poll-value", "poll returned another item");
				free(p);
				free(m[head].p);
				head++;
				n--;
			}
		} else if (w < 92) {
			void *p = queue_peek(&q);
			OK(!!p == (n > 0) && (!p || SAME(m[head], p)), "peek", "peek returned another item");
		} else if (n) {
			size_t k = below(n);
			void *p = queue_peek_pos(&q, k);
			OK(p && SAME(m[head + k], p), "peek_pos", "item %zu of %zu is another one", k, n);
		}
		OK(queue_length(&q) == n, "length", "length %zu, expected %zu", queue_length(&q), n);
		OK(queue_empty(&q) == !n, "empty", "empty is wrong");
		if (n > maxn) maxn = n;
		if (op % 16 == 0)
			for (size_t i = 0; i < n; i++)
				OK(SAME(m[head + i], queue_peek_pos(&q, i)), "contents", "item %zu of %zu is another one", i, n);
		sig(3, lg(n), lg(op));
	}
	for (size_t i = 0; i < n; i++) free(m[head + i].p);
	free(m);
	queue_free(&q);
	OK(HEAP() == before, "leak", "%ld bytes left behind", (long)(HEAP() - before));
}

static void run_stack(void)
{
	size_t before = HEAP(), nops = 20 + below(below(5) ? 200 : 3000), n = 0;
	struct item *m = calloc(nops + 1, sizeof(*m));
	struct stack s = { 0 };
	int bias = 30 + below(45);

	INIT(stack_init(&s), "stack_init failed");
	for (size_t op = 0; op < nops; op++) {
		unsigned w = below(100);
		if (w < (unsigned)bias) {
			struct item *it = &m[n];
			it->p = blob(&it->len);
			it->raw = below(4) == 0;
			bool r = INJ(it->raw ? stack_unsafe_push(&s, it->p) : stack_push(&s, it->p, it->len));
			OK(r || inj_hit, it->raw ? "unsafe_push" : "push", "push failed");
			if (r) n++;
			else free(it->p);
		} else if (n && w < 85) {
			void *p = stack_pop(&s);
			OK(p && SAME(m[n - 1], p), "pop", "pop returned another item");
			if (!m[n - 1].raw) free(p);
			free(m[n - 1].p);
			n--;
		} else if (n && w < 92) {
			OK(SAME(m[n - 1], stack_peek(&s)), "peek", "peek returned another item");
		} else if (n) {
			size_t k = below(n);
			OK(SAME(m[k], stack_peek_pos(&s, k)), "peek_pos", "item %zu of %zu is another one", k, n);
		}
		OK(stack_empty(&s) == !n, "empty", "empty is wrong");
		if (op % 16 == 0)
			for (size_t i = 0; i < n; i++)
				OK(SAME(m[i], stack_peek_pos(&s, i)), "contents", "item %zu of %zu is another one", i, n);
		sig(4, lg(n), lg(op));
	}
	/* the stack frees what it still holds */
	for (size_t i = 0; i < n; i++) if (!m[i].raw) free(m[i].p);
	free(m);
	stack_free(&s);
	OK(HEAP() == before, "leak", "%ld bytes left behind", (long)(HEAP() - before));
}

static void run_vector(void)
{
	size_t before = HEAP(), nops = 10 + below(200), n = 0, cap = 0;
	unsigned char *m = NULL;
	struct vector v;

	INIT(vector_init(&v), "vector_init failed");
	for (size_t op = 0; op < nops; op++) {
		unsigned w = below(100);
		if (w < 94) {
			size_t l;
			unsigned char *b = blob(&l);
			if (n + l > cap) m = realloc(m, cap = (n + l) * 2);
			bool r = INJ(vector_push(&v, b, l));
			OK(r || inj_hit, "push", "push failed");
			if (r) {
				memcpy(m + n, b, l);
				n += l;
			}
			free(b);
		} else if (w < 97) {
			vector_clear(&v);
			n = 0;
		} else {
			OK(!vector_push(&v, NULL, 4) && !vector_push(&v, "x", 0) && !vector_push(NULL, "x", 1), "push-invalid", "invalid push succeeded");
		}
		OK(v.len == n && v.len <= v.capacity, "len", "len %zu, expected %zu (capacity %zu)", v.len, n, v.capacity);
		OK(!n || !memcmp(v.data, m, n), "contents", "bytes differ");
		sig(5, lg(n), lg(op));
	}
	free(m);
	vector_free(&v);
	OK(!v.data && !v.len && !v.capacity, "free", "vector not cleared by free");
	OK(HEAP() == before, "leak", "%ld bytes left behind", (long)(HEAP() - before));
}

struct lnode { int id; struct list_head head; bool in; };
static void run_list(void)
{
	enum { N = 40 };
	struct lnode nd[N];
	int order[N * 4], n = 0;	/* ids, first to last */
	LIST_HEAD(h);
	struct list_head *pos, *tmp;
	size_t nops = 20 + below(300);

	memset(nd, 0, sizeof(nd));
	for (int i = 0; i < N; i++) nd[i].id = i;
	for (size_t op = 0; op < nops; op++) {
		int k = below(N);
		unsigned w = below(100);
		if (w < 50 && !nd[k].in) {
			if (below(2)) {	/* at the front */
				list_add(&nd[k].head, &h);
				memmove(order + 1, order, n * sizeof(*order));
				order[0] = k;
			} else {	/* at the end, as the storage layer does */
				list_add(&nd[k].head, h.prev);
				order[n] = k;
			}
			nd[k].in = true;
			n++;
		} else if (w < 90 && nd[k].in) {
			list_del(&nd[k].head);
			int j = 0;
			while (order[j] != k) j++;
			memmove(order + j, order + j + 1, (n - j - 1) * sizeof(*order));
			nd[k].in = false;
			n--;
		} else if (w < 93) {	/* remove while iterating */
			int keep = 0;
			list_for_each_safe(pos, tmp, &h) {
				struct lnode *e = list_entry(pos, struct lnode, head);
				if (e->id % 3 == k % 3) { list_del(pos); e->in = false; }
			}
			for (int j = 0; j < n; j++) if (order[j] % 3 != k % 3) order[keep++] = order[j];
			n = keep;
		}
		OK(list_length(&h) == (size_t)n, "length", "length %zu, expected %d", list_length(&h), n);
		OK(list_is_empty(&h) == !n, "empty", "empty is wrong");
		int j = 0;
		list_for_each(pos, &h) {
			OK(j < n && list_entry(pos, struct lnode, head)->id == order[j], "order", "element %d is another one", j);
			OK(pos->next->prev == pos && pos->prev->next == pos, "links", "links don't match");
			j++;
		}
		sig(6, n, lg(op));
	}
}

/* ------------------------------------------------------------ bit, string, regex */
static void run_bit(void)
{
	size_t len = 1 + below(32);
	unsigned char *f = malloc(len), mod[32 * 8] = { 0 };

	memset(f, 0, len);
	for (int op = 0; op < 300; op++) {
		size_t b = below(len * 8 > 256 ? 256 : len * 8);
		switch (below(3)) {
		case 0: bit_set(f, b, len); mod[b] = 1; break;
		case 1: bit_clear(f, b, len); mod[b] = 0; break;
		case 2: bit_toggle(f, b, len); mod[b] ^= 1; break;
		}
		for (size_t i = 0; i < len * 8; i++) {
			OK(bit_test(f, i, len) == mod[i], "value", "bit %zu of %zu bytes is wrong after changing bit %zu", i, len, b);
			OK(((f[i / 8] >> (i % 8)) & 1) == mod[i], "layout", "bit %zu of %zu bytes is stored elsewhere", i, len);
		}
		sig(7, len, b);
	}
	free(f);
}

static char rch(const char *cls) { return cls[below(strlen(cls))]; }

static void run_string(void)
{
	for (int op = 0; op < 200; op++) {
		size_t n = below(40), p = below(40);
		if (below(20) == 0) { n = below(3000); p = n > 3 && below(3) ? n - below(3) : below(3000); }
		char *s = malloc(n + 1), *x = malloc(p + 1);
		for (size_t i = 0; i < n; i++) s[i] = rch("abAB01 _");
		s[n] = 0;
		for (size_t i = 0; i < p; i++) x[i] = i < n && below(30 + 2 * p) ? s[i] : rch("abAB01 _");
		x[p] = 0;
		bool want = p <= n && !memcmp(s, x, p);
		OK(strstarts(s, x) == want, "strstarts", "strstarts of a string of %zu and a prefix of %zu is wrong", n, p);
		sig(8, n, p * 2 + want);
		free(x);
		free(s);

		n = below(below(20) ? 300 : 70000);
		s = malloc(n + 1);
		memset(s, 1, n + 1);
		strrand(s, n);
		OK(s[n] == 0 && strlen(s) == n, "strrand-length", "strrand of %zu made %zu", n, strnlen(s, n));
		for (size_t i = 0; i < n; i++)
			OK((s[i] >= 'a' && s[i] <= 'z') || (s[i] >= 'A' && s[i] <= 'Z') || (s[i] >= '0' && s[i] <= '9'), "strrand-charset", "strrand made character %d", s[i]);
		free(s);
	}
}

static void run_regex(void)
{
	static const struct { const char *re, *cls; int min; } G[] = {
		{ "([a-z]*)", "abcxyz", 0 }, { "([0-9]+)", "0123456789", 1 }, { "([A-Za-z][A-Za-z0-9_]*)", "ABz", 1 }, { "([^ ,:]+)", "a.b'(", 1 },
		{ "([^ ,:]+)", "a\n\t\r*\\$^[", 1 }, { "([^ ,:]*)", "\x01\x7f\x80\xff\xc3\xa9\n", 0 }, { "(q+)?", "q", 1 },
	};
	static const char *SEP[] = { " ", ",", ":", " - " };
	for (int op = 0; op < 60; op++) {
		size_t before = HEAP();
		static char text[90000], want[8][10100];
		char re[800] = "^START";
		strcpy(text, "START");
		int n = 1 + below(8);
		bool brk = below(4) == 0;
		for (int i = 0; i < n; i++) {
			int g = below(7);
			size_t l = G[g].min + below(below(6) ? 12 : below(4) ? 300 : 10000);
			if (g == 6 && below(3) == 0) l = 0;	/* an optional group that takes no part is empty */
			for (size_t j = 0; j < l; j++) want[i][j] = rch(G[g].cls);
			want[i][l] = 0;
			const char *s = SEP[below(4)];
			strcat(re, s); strcat(re, G[g].re);
			strcat(text, s); strcat(text, want[i]);
		}
		if (below(4) == 0) {
			/* the last group takes all that's left, whatever it is */
			char *w = want[n - 1] + 0;
			size_t l = below(below(4) ? 200 : 9000), o = strlen(text) - strlen(w);
			for (size_t j = 0; j < l; j++) w[j] = 1 + below(255);
			w[l] = 0;
			strcpy(text + o, w);
			char *q = re + strlen(re);
			while (*--q != '(') ;
			strcpy(q, "(.*)");
		}
		strcat(re, "$");
		if (brk) text[0] = 'X';
		struct stack s = { 0 };
		INIT(stack_init(&s), "stack_init failed");
		bool r = INJ(regex_ext_match_grp(text, re, &s));
		OK(r == !brk || (inj_hit && !r), "match", "%s of a text that %s match", r ? "match" : "mismatch", brk ? "doesn't" : "does");
		if (r) {
			OK(s.idx == n - 1, "groups", "%d groups, expected %d", s.idx + 1, n);
			for (int i = 0; i < n; i++)
				OK(!strcmp((char*)stack_peek_pos(&s, i), want[i]), "group", "group %d differs", i);
		}
		stack_free(&s);
		if (op)	/* the C library caches what the first call needs */
			OK(HEAP() == before, "leak", "%ld bytes left behind by a %s", (long)(HEAP() - before), r ? "match" : "mismatch");
		sig(9, n, r);
	}
}

/* ------------------------------------------------------------- large structures */
struct bigarg { unsigned char *in, *seen; const uint32_t *val; size_t dom, calls; bool bad, drain; };
static void big_cb(struct hashtable *h, const void *key, size_t klen, const void *val, size_t vlen, void *arg)
{
	struct bigarg *f = arg;
	size_t k = strtoul((const char*)key + 1, NULL, 10);
	f->calls++;
	if (klen != strlen(key) + 1 || k >= f->dom || !f->in[k] || f->seen[k] || vlen != sizeof(uint32_t) || memcmp(val, &f->val[k], vlen)) { f->bad = true; return; }
	f->seen[k] = 1;
	if (f->drain) {
		struct hashtable_entry *e = hashtable_remove(h, key, klen);
		if (!e) f->bad = true; else hashtable_free_entry(e);
	}
}

static void run_hashtable_big(void)
{
	size_t before = HEAP(), dom = 5000 + below(below(2) ? 20000 : 90000), n = 0;
	struct hashtable h;
	unsigned char *in = calloc(1, dom), *seen = calloc(1, dom);
	uint32_t *val = calloc(dom, sizeof(*val));
	char key[24];

	INIT(hashtable_init(&h, hashtable_str_compare, hashtable_str_hash), "hashtable_init failed");
	for (int phase = 0; phase < 5; phase++) {
		/* everything, half of it removed, everything again, nearly everything removed, some again */
		for (size_t k = 0; k < dom; k++) {
			size_t kl = 1 + snprintf(key, sizeof(key), "k%zu", k);
			if (phase % 2 == 0 && !in[k] && (phase < 4 || below(3) == 0)) {
				uint32_t v = rnd();
				bool r = INJ(hashtable_put(&h, key, kl, &v, sizeof(v)));
				OK(r || inj_hit, "put", "put of a new key failed (%zu entries)", n);
				if (r) { in[k] = 1; val[k] = v; n++; }
			} else if (phase % 2 && in[k] && (phase == 3 ? below(50) : below(2))) {
				struct hashtable_entry *e = hashtable_remove(&h, key, kl);
				OK(e && e->value.len == sizeof(uint32_t) && !memcmp(e->value.content, &val[k], 4), "remove", "an entry was lost (%zu entries)", n);
				hashtable_free_entry(e);
				in[k] = 0;
				n--;
			}
		}
		OK(h.count == n, "count", "count is %zu, expected %zu", h.count, n);
		for (size_t k = 0; k < dom; k++) {
			size_t kl = 1 + snprintf(key, sizeof(key), "k%zu", k);
			struct hashtable_value *v = hashtable_get(&h, key, kl);
			OK(!!v == in[k] && (!v || (v->len == 4 && !memcmp(v->content, &val[k], 4))), "contents", "entry lost, stale or changed (%zu entries)", n);
		}
		struct bigarg f = { in, seen, val, dom, 0, false, phase == 4 };
		memset(seen, 0, dom);
		hashtable_foreach(&h, big_cb, &f);
		OK(!f.bad && f.calls == n, "foreach", "foreach visited %zu entries of %zu, or wrong ones", f.calls, n);
		sig(12, phase, lg(n) * 64 + lg(h.capacity));
	}
	OK(h.count == 0, "drain", "%zu entries left", h.count);
	hashtable_free(&h);
	free(in); free(seen); free(val);
	OK(HEAP() == before, "leak", "%ld bytes left behind", (long)(HEAP() - before));
}

static void run_btree_big(void)
{
	size_t before = HEAP(), dom = 3000 + below(40000), n = 0;
	int deg = below(2) ? 2 + below(8) : 60 + below(400), order = below(3);
	uint64_t *keys = calloc(dom, sizeof(*keys));
	unsigned char *in = calloc(1, dom);
	struct btree_head *h = NULL;
	int ld;
	void *prev;

	/* the place of a value in @in is the value */
	for (size_t i = 0; i < dom; i++) keys[i] = i * 0x10001ull;
	INIT((h = btree_init(deg, btree_cmp_ul)) != NULL, "btree_init failed");
	for (int phase = 0; phase < 4; phase++) {
		size_t step = order == 2 ? 7919 : 1;
		while (dom % step == 0 && step > 1) step++;
		for (size_t i = 0; i < dom; i++) {
			size_t k = order == 1 ? dom - 1 - i : (i * step) % dom;
			if (phase % 2 == 0 && !in[k] && below(10)) {
				bool r = INJ(btree_insert(h, &keys[k], &in[k]) == 0);
				OK(r || inj_hit, "insert", "insert failed");
				if (r) { in[k] = 1; n++; }
			} else if (phase % 2 && in[k] && (phase == 3 || below(2))) {
				uint64_t probe = keys[k];
				bool r = INJ(btree_remove(h, &probe) == 0);
				OK(r || inj_hit, "remove", "remove failed");
				if (r) { in[k] = 0; n--; }
			}
		}
		ld = -1;
		prev = NULL;
		size_t c = h->root ? bt_walk(h, h->root, true, 0, &ld, &prev) : 0;
		OK(c == n, "count", "%zu keys in the tree, %zu expected", c, n);
		for (size_t k = 0; k < dom; k++) {
			uint64_t probe = keys[k];
			OK(btree_lookup(h, &probe) == (in[k] ? &in[k] : NULL), "contents", "lookup of a%s key is wrong (degree %d, %zu keys)", in[k] ? " present" : "n absent", deg, n);
		}
		sig(11, deg * 16 + ld, lg(n) * 32 + phase * 8 + order);
	}
	btree_destroy(&h);
	free(keys); free(in);
	OK(HEAP() == before, "leak", "%ld bytes left behind (degree %d)", (long)(HEAP() - before), deg);
}

static void run_seq_big(void)
{
	size_t before = HEAP(), n = 0, max = 3000 + below(20000), head = 0;
	struct queue q = { 0 };
	struct stack s = { 0 };
	struct vector v;

	INIT(queue_init(&q), "queue_init failed");
	INIT(stack_init(&s), "stack_init failed");
	for (uint64_t i = 0; i < max; ) {
		uint64_t x = i * 0x9E3779B97F4A7C15ull;
		bool r = INJ(queue_offer(&q, &x, sizeof(x)));
		OK(r || inj_hit, "offer", "offer failed");
		if (!r) continue;
		do { r = INJ(stack_push(&s, &x, sizeof(x))); OK(r || inj_hit, "push", "push failed"); } while (!r);
		i++;
		if (below(50) == 0) {
			uint64_t *p = queue_poll(&q);
			OK(p && *p == head * 0x9E3779B97F4A7C15ull, "poll-value", "poll returned another item");
			free(p);
			head++;
		}
	}
	OK(queue_length(&q) == max - head, "length", "length %zu, expected %zu", queue_length(&q), max - head);
	for (size_t i = 0; i < max - head; i++)
		OK(*(uint64_t*)queue_peek_pos(&q, i) == (i + head) * 0x9E3779B97F4A7C15ull, "contents", "item %zu of %zu is another one", i, max - head);
	for (size_t i = 0; i < max; i++)
		OK(*(uint64_t*)stack_peek_pos(&s, i) == i * 0x9E3779B97F4A7C15ull, "stack-contents", "item %zu of %zu is another one", i, max);
	while (head < max && below(4000)) {
		uint64_t *p = queue_poll(&q);
		OK(p && *p == head * 0x9E3779B97F4A7C15ull, "poll-value", "poll returned another item");
		free(p);
		head++;
	}
	for (size_t i = max; i && below(40000); i--) {
		uint64_t *p = (uint64_t*)stack_pop(&s);
		OK(*p == (i - 1) * 0x9E3779B97F4A7C15ull, "pop", "pop returned another item");
		free(p);
	}
	queue_free(&q);
	stack_free(&s);

	unsigned char *m = malloc(1 << 20);
	for (size_t i = 0; i < 1 << 20; i++) m[i] = i * 31 + (i >> 8);
	INIT(vector_init(&v), "vector_init failed");
	for (;;) {
		size_t l = 1 + below(below(2) ? 300 : 200000);
		if (n + l > 1 << 20) break;
		bool r = INJ(vector_push(&v, m + n, l));
		OK(r || inj_hit, "vector-push", "push failed");
		if (r) n += l;
		OK(v.len == n && v.len <= v.capacity, "len", "len %zu, expected %zu (capacity %zu)", v.len, n, v.capacity);
		sig(13, lg(n), lg(l));
	}
	OK(!memcmp(v.data, m, n), "vector-contents", "bytes differ after %zu bytes", n);
	vector_free(&v);
	free(m);
	OK(HEAP() == before, "leak", "%ld bytes left behind", (long)(HEAP() - before));
}

int main(int argc, char **argv)
{
	static const struct { const char *n; void (*f)(void); } M[] = {
		{ "btree", run_btree }, { "hashtable", run_hashtable }, { "queue", run_queue }, { "stack", run_stack }, { "vector", run_vector },
		{ "list", run_list }, { "bit", run_bit }, { "string", run_string }, { "regex", run_regex },
		{ "btree_big", run_btree_big }, { "hashtable_big", run_hashtable_big }, { "seq_big", run_seq_big },
	};
	if (argc < 4) return 2;
	uint64_t seed = strtoull(argv[2], NULL, 10);
	long rounds = atol(argv[3]);
	out = fdopen(dup(1), "w");
	setvbuf(out, malloc(1 << 16), _IOFBF, 1 << 16);
	/* the code under test may print */
	if (!freopen("/dev/null", "w", stdout)) return 2;
	module = argv[1];
	for (size_t i = 0; i < sizeof(M) / sizeof(*M); i++) {
		if (strcmp(M[i].n, module)) continue;
		for (long r = 0; r < rounds; r++) {
			rs = round_seed = seed * 1000003ull + r;
			rnd();
			M[i].f();
		}
		fprintf(out, "{\"evals\":%lu,\"rounds\":%ld,", evals, rounds);
#ifdef OOM
		fprintf(out, "\"tally\":{\"operations_with_failing_allocations\":%lu,\"of_these_failed\":%lu,\"of_these_succeeded\":%lu},", t_inj, t_fail, t_tol);
#endif
		fprintf(out, "\"sigs\":[");
		bool first = true;
		for (int k = 0; k < NSIG; k++)
			if (sigs[k]) { fprintf(out, "%s%u", first ? "" : ",", sigs[k]); first = false; }
		fprintf(out, "]}\n{\"end\":1}\n");
		fflush(out);
		return 0;
	}
	return 2;
}
