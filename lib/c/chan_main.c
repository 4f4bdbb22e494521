/* Threads running scripts of channel operations: arguments are capacities "2,1" ("2*1": already holding one value), then one script per thread:
 * words like s0:5 (send 5 on channel 0), r0, t0:5 (try_send), y0 (try_receive), c0 (close). */
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "stdlib/channels.h"
static GrayChannel ch[4]; static char *script[8]; static char res[8][400];
static void *worker(void *x) {
    long id = (long)x; char *p = script[id]; int k = 0; size_t n = 0;
    while (*p) {
        char op = *p++; int c = *p++ - '0'; long long v = 0;
        if (*p == ':') v = strtoll(p + 1, &p, 10);
        if (*p == ' ') p++;
        char b[64]; long long r; GrayChannelTryRecv t;
        switch (op) {
        case 's': gray_channels_send(ch[c], v); snprintf(b, sizeof b, "%ld.%d s\n", id, k); break;
        case 'r': r = gray_channels_receive(ch[c]); snprintf(b, sizeof b, "%ld.%d r %lld\n", id, k, r); break;
        case 't': r = gray_channels_try_send(ch[c], v); snprintf(b, sizeof b, "%ld.%d t %lld\n", id, k, r); break;
        case 'y': t = gray_channels_try_receive(ch[c]); snprintf(b, sizeof b, "%ld.%d y %lld %d\n", id, k, (long long)t.v0, t.v1); break;
        default: gray_channels_close(ch[c]); snprintf(b, sizeof b, "%ld.%d c\n", id, k); break;
        }
        k++; (void)n; (void)res;
        fputs(b, stdout);
    }
    return NULL;
}
int main(int argc, char **argv) {
    int nc = 0; for (char *p = argv[1]; *p; ) { ch[nc++] = gray_channels_open(strtoll(p, &p, 10)); if (*p == '*') { long k = strtol(p + 1, &p, 10); for (long i = 1; i <= k; i++) gray_channels_send(ch[nc - 1], -i); } if (*p == ',') p++; }
    pthread_t t[8]; int n = argc - 2;
    for (int i = 0; i < n; i++) script[i] = argv[i + 2];
    for (int i = 1; i < n; i++) pthread_create(&t[i], NULL, worker, (void *)(long)i);
    worker((void *)0);
    for (int i = 1; i < n; i++) pthread_join(t[i], NULL);
    fputs("end\n", stdout);
    return 0;
}
