/*
 * Makes allocations of the engine fail on demand. Its objects call vf_malloc & co instead of malloc (objcopy --redefine-sym, see
 * lib/build.sh, variant oom); the C library, and the code that bison brings with it, don't; that of flex has functions of its own.
 */
#ifndef OOM_H
#define OOM_H
static long al_count, al_fail;
static int al_armed, al_persist;
#define AL_LOG (1 << 20)
static uint32_t *al_log;	/* where the allocations were made, if anyone asks */
static struct { int fired; void *site; } *al_rep, al_rep_own;
extern char __executable_start;

static int fails(void *site)
{
	if (!al_armed)
		return 0;
	al_count++;
	if (al_log && al_count <= AL_LOG)
		al_log[al_count - 1] = (uint32_t)((char*)site - &__executable_start);
	if (al_fail && (al_count == al_fail || (al_persist && al_count > al_fail))) {
		if (!al_rep->fired++)
			al_rep->site = (void*)((char*)site - &__executable_start);
		return 1;
	}
	return 0;
}
#define SITE __builtin_return_address(0)
void *vf_malloc(size_t n) { return fails(SITE) ? NULL : malloc(n); }
void *vf_calloc(size_t n, size_t m) { return fails(SITE) ? NULL : calloc(n, m); }
void *vf_realloc(void *p, size_t n) { return fails(SITE) ? NULL : realloc(p, n); }
char *vf_strdup(const char *s) { return fails(SITE) ? NULL : strdup(s); }
char *vf_strndup(const char *s, size_t n) { return fails(SITE) ? NULL : strndup(s, n); }
void *vf_raw_malloc(size_t n) { return malloc(n); }
/* those of the scanner have a counter of their own: the al_scan-th from now on fails */
static long al_scan;
void *vf_scan_malloc(size_t n) { return al_scan && !--al_scan ? NULL : malloc(n); }
void *vf_scan_realloc(void *p, size_t n) { return al_scan && !--al_scan ? NULL : realloc(p, n); }

/* from here on, until oom_off(), the @k-th allocation fails, with @persist all later ones too; 0: none */
static void oom_on(long k, int persist)
{
	if (!al_rep)
		al_rep = (void*)&al_rep_own;
	al_rep->fired = 0;
	al_rep->site = NULL;
	al_count = 0;
	al_fail = k;
	al_persist = persist;
	al_armed = 1;
}
static void oom_off(void) { al_armed = 0; al_fail = 0; }
#endif
