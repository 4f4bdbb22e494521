/* Deterministic stand-ins for the sources of randomness and time that @uuid and
 * @crypto read. The n-th 16-byte draw is a fixed function of n; modes make the
 * sources fail. */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <errno.h>
static uint32_t draw, tick;
static int mode(void) { const char *m = getenv("VERIF_RAND"); return m ? atoi(m) : 0; }
static void fill(uint8_t *b, size_t n) {
    uint32_t k = draw++;
    for (size_t i = 0; i < n; i++) b[i] = (uint8_t)(i == 6 ? k : i == 8 ? k >> 8 : (k * 2654435761u) >> ((i * 5) % 25));
}
int getentropy(void *b, size_t n) {
    if (mode()) { errno = ENOSYS; return -1; }
    fill(b, n); return 0;
}
FILE *__real_fopen(const char *p, const char *m);
FILE *__wrap_fopen(const char *p, const char *m) {
    if (strcmp(p, "/dev/urandom") == 0) {
        if (mode() == 2) { errno = ENOENT; return NULL; }
        if (mode() == 3) return __real_fopen("/dev/null", m);
        if (mode() == 1) { uint8_t *b = malloc(1 << 16); fill(b, 1 << 16); return fmemopen(b, 1 << 16, "rb"); }
    }
    return __real_fopen(p, m);
}
int clock_gettime(clockid_t id, struct timespec *ts) {
    static const uint64_t ms[] = {0, 1, 999, 1000, 65535, 65536, 4294967295ull, 4294967296ull, 1700000000123ull, 281474976710655ull};
    uint64_t v = ms[tick++ % 10];
    ts->tv_sec = (time_t)(v / 1000); ts->tv_nsec = (long)(v % 1000) * 1000000L + 999999L;
    return 0;
}
