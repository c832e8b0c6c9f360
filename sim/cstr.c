/* C library functions as used by the code under test, for the thread flavour: the memory they touch counts as
   touched by the caller (scheduling point, race), and those with hidden static state are preempted around it. */
#define _GNU_SOURCE 1
#include <stdio.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <arpa/inet.h>
#include "csim.h"
extern void __tsan_read_range(void *, size_t), __tsan_write_range(void *, size_t);
#define RD(p, n) __tsan_read_range((void*)(uintptr_t)(p), (n))
#define WR(p, n) __tsan_write_range((void*)(uintptr_t)(p), (n))
size_t sim_strlen(const char *s) { size_t n = strlen(s); RD(s, n + 1); return strlen(s); }
char *sim_strcpy(char *d, const char *s) { RD(s, strlen(s) + 1); WR(d, strlen(s) + 1); return strcpy(d, s); }
char *sim_strncpy(char *d, const char *s, size_t n) { RD(s, strnlen(s, n)); WR(d, n); return strncpy(d, s, n); }
char *sim_strcat(char *d, const char *s) { RD(s, strlen(s) + 1); WR(d, strlen(d) + strlen(s) + 1); return strcat(d, s); }
int sim_strcmp(const char *a, const char *b) { RD(a, strlen(a) + 1); RD(b, strlen(b) + 1); return strcmp(a, b); }
int sim_strncmp(const char *a, const char *b, size_t n) { RD(a, strnlen(a, n)); RD(b, strnlen(b, n)); return strncmp(a, b, n); }
char *sim_strchr(const char *s, int c) { RD(s, strlen(s) + 1); return strchr(s, c); }
char *sim_strrchr(const char *s, int c) { RD(s, strlen(s) + 1); return strrchr(s, c); }
int sim_vsnprintf(char *b, size_t z, const char *f, va_list ap)
{
    static char t[8192]; int n = vsnprintf(t, sizeof t, f, ap);     /* the arguments are read at once */
    if (n < 0) return n;
    size_t k = (size_t)n < sizeof t ? (size_t)n : sizeof t - 1; char *c = alloca(k + 1); memcpy(c, t, k + 1);
    if (z) { size_t m = k < z ? k : z - 1; WR(b, m + 1); memcpy(b, c, m); b[m] = 0; }
    return n;
}
int sim_snprintf(char *b, size_t z, const char *f, ...) { va_list ap; va_start(ap, f); int r = sim_vsnprintf(b, z, f, ap); va_end(ap); return r; }
__attribute__((weak)) int sim_sprintf(char *b, const char *f, ...) { va_list ap; va_start(ap, f); int r = sim_vsnprintf(b, 8192, f, ap); va_end(ap); return r; }
/* hidden static state */
#define HID(call) cs_yield(); __typeof__(call) r = call; cs_yield(); return r
char *sim_strtok(char *s, const char *d) { HID(strtok(s, d)); }
char *sim_inet_ntoa(struct in_addr a) { HID(inet_ntoa(a)); }
struct tm *sim_gmtime(const time_t *t) { HID(gmtime(t)); }
struct tm *sim_localtime(const time_t *t) { HID(localtime(t)); }
char *sim_ctime(const time_t *t) { HID(ctime(t)); }
char *sim_asctime(const struct tm *t) { HID(asctime(t)); }
