/* The clock reads what VERIF_CLOCK says ("sec nsec step": nsec added per reading). */
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
static int init; static long long s, ns, step;
static void next(long long *os, long long *on) {
    if (!init) { init = 1; const char *e = getenv("VERIF_CLOCK"); if (e) sscanf(e, "%lld %lld %lld", &s, &ns, &step); }
    *os = s; *on = ns;
    ns += step; s += ns / 1000000000; ns %= 1000000000;
}
int clock_gettime(clockid_t id, struct timespec *ts) { long long a, b; next(&a, &b); ts->tv_sec = a; ts->tv_nsec = b; return 0; }
time_t time(time_t *t) { long long a, b; next(&a, &b); if (t) *t = a; return a; }
