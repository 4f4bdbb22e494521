/* Preempts a time function at every C library call it makes: right after the call
 * returns, another thread runs a time function for another timestamp to completion. */
#define _GNU_SOURCE
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include "stdlib/time.h"
static __thread int inner;
static int armed, points, at, seen; static long long other; static int other_fn;
static long long call(GrayArena *a, int f, long long ts, char *text, size_t cap) {
    GrayString s = {"", 0}; text[0] = 0;
    switch (f) {
    case 0: return gray_time_year(ts); case 1: return gray_time_month(ts); case 2: return gray_time_day(ts);
    case 3: return gray_time_hour(ts); case 4: return gray_time_minute(ts); case 5: return gray_time_second(ts); case 6: return gray_time_weekday(ts);
    case 7: s = gray_time_to_iso(a, ts); break; case 8: s = gray_time_date(a, ts); break; case 9: s = gray_time_to_clock(a, ts); break;
    case 10: s = gray_time_format(a, gray_string_lit("%d/%m/%Y %H:%M:%S %j %a"), ts); break;
    }
    snprintf(text, cap, "%.*s", (int)s.len, s.data);
    return 0;
}
#define NF 11
static void *run_other(void *x) {
    (void)x; inner = 1;
    char t[128]; GrayArena *a = gray_arena_create(1 << 16);
    call(a, other_fn, other, t, sizeof t);
    gray_arena_destroy(a, "time_sched", 0);
    return NULL;
}
static void point(void) {
    if (inner || !armed) return;
    points++;
    if (seen++ != at) return;
    pthread_t t; pthread_create(&t, NULL, run_other, NULL); pthread_join(t, NULL);
}
#define W(ret, name, sig, args) ret __real_##name sig; ret __wrap_##name sig { ret r = __real_##name args; point(); return r; }
W(struct tm *, localtime, (const time_t *t), (t))
W(struct tm *, localtime_r, (const time_t *t, struct tm *m), (t, m))
W(struct tm *, gmtime, (const time_t *t), (t))
W(struct tm *, gmtime_r, (const time_t *t, struct tm *m), (t, m))
W(time_t, mktime, (struct tm *m), (m))
W(size_t, strftime, (char *b, size_t n, const char *f, const struct tm *m), (b, n, f, m))
int main(void) {
    static const long long T[] = {0, 951782399, 951868800, 1700000000, 4102444799, -1, -2208988800LL, 253402300799LL, 1709164800, 86399};
    char want[128], got[128], first[128]; long schedules = 0, bad = 0;
    GrayArena *a = gray_arena_create(1 << 20); (void)first;
    for (int f = 0; f < NF; f++) for (int i = 0; i < 10; i++) {
        armed = 0; long long w = call(a, f, T[i], want, sizeof want);
        armed = 1; points = 0; at = -1; seen = 0; call(a, f, T[i], got, sizeof got);
        int n = points;
        for (int j = 0; j < 10; j++) for (other_fn = 0; other_fn < NF; other_fn++) for (at = 0; at < n; at++) {
            other = T[j]; seen = 0; schedules++;
            long long g = call(a, f, T[i], got, sizeof got);
            if (g != w || strcmp(want, got)) { if (bad++ < 20) printf("BAD f%d(%lld) with f%d(%lld) after library call %d: %lld %s instead of %lld %s\n", f, T[i], other_fn, other, at, g, got, w, want); }
        }
    }
    printf("SCHEDULES %ld BAD %ld\n", schedules, bad);
    return 0;
}
