/* what the C library fills in without MemorySanitizer noticing (linked with --wrap=regexec, lib/vf.py) */
#include <regex.h>
#include <sanitizer/msan_interface.h>
int __real_regexec(const regex_t *re, const char *s, size_t n, regmatch_t m[], int flags);
int __wrap_regexec(const regex_t *re, const char *s, size_t n, regmatch_t m[], int flags)
{
	int ret = __real_regexec(re, s, n, m, flags);
	if (m)
		__msan_unpoison(m, n * sizeof(*m));
	return ret;
}
