// Minimal run time for -fsanitize=thread instrumentation: every instrumented memory access of the SUT is passed to
// the engine's happens-before race detector (no real tsan run time is linked). Race build only.
#include "engine.h"
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <time.h>
namespace mc { void hb_atomic(void *p, bool acq, bool rel); }
using namespace mc;
#define T extern "C" __attribute__((used, noinline))
#define RA __builtin_return_address(0)
T void __tsan_init() {}
T void __tsan_func_entry(void *) {}
T void __tsan_func_exit() {}
#define RW(n) \
  T void __tsan_read##n(void *p) { touch(p, n, false, RA); } \
  T void __tsan_write##n(void *p) { touch(p, n, true, RA); } \
  T void __tsan_unaligned_read##n(void *p) { touch(p, n, false, RA); } \
  T void __tsan_unaligned_write##n(void *p) { touch(p, n, true, RA); } \
  T void __tsan_read##n##_pc(void *p, void *) { touch(p, n, false, RA); } \
  T void __tsan_write##n##_pc(void *p, void *) { touch(p, n, true, RA); } \
  T void __tsan_read_write##n(void *p) { touch(p, n, false, RA); touch(p, n, true, RA); } \
  T void __tsan_unaligned_read_write##n(void *p) { touch(p, n, false, RA); touch(p, n, true, RA); } \
  T void __tsan_volatile_read##n(void *p) { touch(p, n, false, RA); } \
  T void __tsan_volatile_write##n(void *p) { touch(p, n, true, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
T void __tsan_read_range(void *p, unsigned long n) { touch(p, n, false, RA); }
T void __tsan_write_range(void *p, unsigned long n) { touch(p, n, true, RA); }
T void __tsan_vptr_update(void **p, void *) { touch(p, 8, true, RA); }
T void __tsan_vptr_read(void **p) { touch(p, 8, false, RA); }
T void *__tsan_memcpy(void *d, const void *s, unsigned long n) { touch(s, n, false, RA); touch(d, n, true, RA); return memcpy(d, s, n); }
T void *__tsan_memmove(void *d, const void *s, unsigned long n) { touch(s, n, false, RA); touch(d, n, true, RA); return memmove(d, s, n); }
T void *__tsan_memset(void *d, int c, unsigned long n) { touch(d, n, true, RA); return memset(d, c, n); }
T void __tsan_ignore_thread_begin() {}
T void __tsan_ignore_thread_end() {}

// atomics: every atomic access is a scheduling point and (conservatively ordered) synchronisation
typedef unsigned char a8; typedef unsigned short a16; typedef unsigned a32; typedef unsigned long a64;
#define AT(N) \
  T a##N __tsan_atomic##N##_load(const volatile a##N *p, int mo) { point("atomic"); if (mo != __ATOMIC_RELAXED) hb_atomic((void *)p, true, false); return *p; } \
  T void __tsan_atomic##N##_store(volatile a##N *p, a##N v, int mo) { point("atomic"); if (mo != __ATOMIC_RELAXED) hb_atomic((void *)p, false, true); *p = v; } \
  T a##N __tsan_atomic##N##_exchange(volatile a##N *p, a##N v, int) { point("atomic"); hb_atomic((void *)p, true, true); a##N o = *p; *p = v; return o; } \
  T a##N __tsan_atomic##N##_fetch_add(volatile a##N *p, a##N v, int) { point("atomic"); hb_atomic((void *)p, true, true); a##N o = *p; *p = o + v; return o; } \
  T a##N __tsan_atomic##N##_fetch_sub(volatile a##N *p, a##N v, int) { point("atomic"); hb_atomic((void *)p, true, true); a##N o = *p; *p = o - v; return o; } \
  T a##N __tsan_atomic##N##_fetch_and(volatile a##N *p, a##N v, int) { point("atomic"); hb_atomic((void *)p, true, true); a##N o = *p; *p = o & v; return o; } \
  T a##N __tsan_atomic##N##_fetch_or(volatile a##N *p, a##N v, int) { point("atomic"); hb_atomic((void *)p, true, true); a##N o = *p; *p = o | v; return o; } \
  T a##N __tsan_atomic##N##_fetch_xor(volatile a##N *p, a##N v, int) { point("atomic"); hb_atomic((void *)p, true, true); a##N o = *p; *p = o ^ v; return o; } \
  T a##N __tsan_atomic##N##_fetch_nand(volatile a##N *p, a##N v, int) { point("atomic"); hb_atomic((void *)p, true, true); a##N o = *p; *p = ~(o & v); return o; } \
  T int __tsan_atomic##N##_compare_exchange_strong(volatile a##N *p, a##N *c, a##N v, int, int) { point("atomic"); hb_atomic((void *)p, true, true); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
  T int __tsan_atomic##N##_compare_exchange_weak(volatile a##N *p, a##N *c, a##N v, int, int) { point("atomic"); hb_atomic((void *)p, true, true); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
  T a##N __tsan_atomic##N##_compare_exchange_val(volatile a##N *p, a##N c, a##N v, int, int) { point("atomic"); hb_atomic((void *)p, true, true); a##N o = *p; if (o == c) *p = v; return o; }
AT(8) AT(16) AT(32) AT(64)
T void __tsan_atomic_thread_fence(int) { point("fence"); }
T void __tsan_atomic_signal_fence(int) {}

// string functions: the accesses libc makes on behalf of the SUT
#define SH extern "C" __attribute__((used))
SH size_t mc_strlen(const char *s) { size_t n = strlen(s); touch(s, n + 1, false, RA); return n; }
SH size_t mc_strnlen(const char *s, size_t k) { size_t n = strnlen(s, k); touch(s, n, false, RA); return n; }
SH char *mc_strcpy(char *d, const char *s) { size_t n = strlen(s) + 1; touch(s, n, false, RA); touch(d, n, true, RA); return strcpy(d, s); }
SH char *mc_stpcpy(char *d, const char *s) { size_t n = strlen(s) + 1; touch(s, n, false, RA); touch(d, n, true, RA); return stpcpy(d, s); }
SH char *mc_strncpy(char *d, const char *s, size_t k) { touch(s, strnlen(s, k), false, RA); touch(d, k, true, RA); return strncpy(d, s, k); }
SH char *mc_strcat(char *d, const char *s) { size_t n = strlen(s) + 1, m = strlen(d); touch(d, m + 1, false, RA); touch(s, n, false, RA); touch(d + m, n, true, RA); return strcat(d, s); }
SH char *mc_strncat(char *d, const char *s, size_t k) { size_t n = strnlen(s, k), m = strlen(d); touch(d, m + 1, false, RA); touch(s, n, false, RA); touch(d + m, n + 1, true, RA); return strncat(d, s, k); }
static size_t dif(const char *a, const char *b, size_t k) { size_t i = 0; while (i < k && a[i] && a[i] == b[i]) i++; return i < k ? i + 1 : k; }
SH int mc_strcmp(const char *a, const char *b) { size_t n = dif(a, b, (size_t)-1); touch(a, n, false, RA); touch(b, n, false, RA); return strcmp(a, b); }
SH int mc_strncmp(const char *a, const char *b, size_t k) { size_t n = dif(a, b, k); touch(a, n, false, RA); touch(b, n, false, RA); return strncmp(a, b, k); }
SH int mc_strcasecmp(const char *a, const char *b) { touch(a, 1, false, RA); touch(b, 1, false, RA); return strcasecmp(a, b); }
SH int mc_strncasecmp(const char *a, const char *b, size_t k) { if (k) { touch(a, 1, false, RA); touch(b, 1, false, RA); } return strncasecmp(a, b, k); }
SH char *mc_strstr(const char *a, const char *b) { touch(a, strlen(a) + 1, false, RA); touch(b, strlen(b) + 1, false, RA); return (char *)strstr(a, b); }
SH char *mc_strcasestr(const char *a, const char *b) { touch(a, strlen(a) + 1, false, RA); return (char *)strcasestr(a, b); }
SH char *mc_strchr(const char *a, int c) { touch(a, 1, false, RA); return (char *)strchr(a, c); }
SH char *mc_strrchr(const char *a, int c) { touch(a, strlen(a) + 1, false, RA); return (char *)strrchr(a, c); }
SH void *mc_memcpy(void *d, const void *s, size_t n) { touch(s, n, false, RA); touch(d, n, true, RA); return memcpy(d, s, n); }
SH void *mc_memmove(void *d, const void *s, size_t n) { touch(s, n, false, RA); touch(d, n, true, RA); return memmove(d, s, n); }
SH void *mc_memset(void *d, int c, size_t n) { touch(d, n, true, RA); return memset(d, c, n); }
SH int mc_memcmp(const void *a, const void *b, size_t n) { touch(a, n, false, RA); touch(b, n, false, RA); return memcmp(a, b, n); }
SH int mc_bcmp(const void *a, const void *b, size_t n) { touch(a, n, false, RA); touch(b, n, false, RA); return memcmp(a, b, n); }
SH void *mc_memchr(const void *a, int c, size_t n) { touch(a, n ? 1 : 0, false, RA); return (void *)memchr(a, c, n); }
SH int mc_vsprintf(char *d, const char *f, va_list a) { int n = vsprintf(d, f, a); if (n >= 0) touch(d, n + 1, true, RA); return n; }
SH int mc_sprintf(char *d, const char *f, ...) { va_list a; va_start(a, f); int n = vsprintf(d, f, a); va_end(a); if (n >= 0) touch(d, n + 1, true, RA); return n; }
SH int mc_vsnprintf(char *d, size_t k, const char *f, va_list a) { int n = vsnprintf(d, k, f, a); if (n >= 0 && k) touch(d, (size_t)n + 1 < k ? n + 1 : k, true, RA); return n; }
SH int mc_snprintf(char *d, size_t k, const char *f, ...) { va_list a; va_start(a, f); int n = vsnprintf(d, k, f, a); va_end(a); if (n >= 0 && k) touch(d, (size_t)n + 1 < k ? n + 1 : k, true, RA); return n; }
SH char *mc_fgets(char *d, int k, FILE *f) { char *r = fgets(d, k, f); if (r) touch(d, strlen(d) + 1, true, RA); return r; }
SH size_t mc_strftime(char *d, size_t k, const char *f, const struct tm *t) { size_t n = strftime(d, k, f, t); touch(t, sizeof *t, false, RA); touch(d, n + 1, true, RA); return n; }
SH struct tm *mc_gmtime_r(const time_t *t, struct tm *o) { touch(t, sizeof *t, false, RA); touch(o, sizeof *o, true, RA); return gmtime_r(t, o); }
SH struct tm *mc_localtime_r(const time_t *t, struct tm *o) { touch(o, sizeof *o, true, RA); return localtime_r(t, o); }
