// Preemption points at the string functions of the C library, which the
// uninstrumented parts of libstdc++ (std::string) are built on: link with
// LIBC_PREEMPT of props.py.
#pragma once
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <time.h>
namespace sim { void memAccess(); }
extern "C" {
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
size_t __real_strlen(const char *);
struct tm *__real_gmtime_r(const time_t *, struct tm *);
size_t __real_strftime(char *, size_t, const char *, const struct tm *);
char *__real_strerror_r(int, char *, size_t);
#define LP __attribute__((no_sanitize_thread))
LP void *__wrap_memcpy(void *d, const void *s, size_t n) { sim::memAccess(); return __real_memcpy(d, s, n); }
LP void *__wrap_memmove(void *d, const void *s, size_t n) { sim::memAccess(); return __real_memmove(d, s, n); }
LP size_t __wrap_strlen(const char *s) { size_t n = __real_strlen(s); sim::memAccess(); return n; }
LP struct tm *__wrap_gmtime_r(const time_t *t, struct tm *m) { sim::memAccess(); m = __real_gmtime_r(t, m); sim::memAccess(); return m; }
LP size_t __wrap_strftime(char *b, size_t n, const char *f, const struct tm *m) { sim::memAccess(); n = __real_strftime(b, n, f, m); sim::memAccess(); return n; }
LP int __wrap_snprintf(char *b, size_t n, const char *f, ...)
{
	sim::memAccess();
	va_list ap; va_start(ap, f);
	int r = vsnprintf(b, n, f, ap);
	va_end(ap);
	sim::memAccess();
	return r;
}
LP char *__wrap_strerror_r(int e, char *b, size_t n) { sim::memAccess(); char *r = __real_strerror_r(e, b, n); sim::memAccess(); return r; }
#undef LP
}
