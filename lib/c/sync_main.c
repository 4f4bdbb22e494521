/* Threads running scripts of lock operations, one script per argument: words like l0 (lock), t0 (try), u0 (unlock if held), i0 (if held, add one to the cell the
 * lock guards and report it), n4 (make lock 4 in the thread), d4 (destroy it). Locks 0-3 exist from the start; even ones are mutexes, odd ones spinlocks. */
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "stdlib/sync.h"
#include "stdlib/atomic_mod.h"
static GrayMutex mx[8]; static GraySpinLock sp[8]; static int64_t cell[8]; static char *script[8];
static void make(int c) { if (c & 1) sp[c] = gray_atomic_mod_spinlock(); else mx[c] = gray_sync_mutex(); }
static void destroy(int c) { if (c & 1) gray_atomic_mod_spinlock_destroy(&sp[c]); else gray_sync_destroy(mx[c]); }
static void *worker(void *x) {
    long id = (long)x; char *p = script[id]; int k = 0, held[8] = {0};
    while (*p) {
        char op = *p++; int c = *p++ - '0'; int s = c & 1; if (*p == ' ') p++;
        char b[64]; b[0] = 0;
        switch (op) {
        case 'l': if (s) gray_atomic_mod_spin_lock(sp[c]); else gray_sync_lock(mx[c]); held[c] = 1; break;
        case 't': held[c] = s ? gray_atomic_mod_spin_trylock(sp[c]) : gray_sync_try_lock(mx[c]); snprintf(b, sizeof b, "%ld.%d t %d\n", id, k, held[c]); break;
        case 'u': if (held[c]) { held[c] = 0; if (s) gray_atomic_mod_spin_unlock(sp[c]); else gray_sync_unlock(mx[c]); } break;
        case 'i': if (held[c]) { cell[c]++; snprintf(b, sizeof b, "%ld.%d i %lld\n", id, k, (long long)cell[c]); } break;
        case 'n': make(c); break;
        default: destroy(c); break;
        }
        k++;
        if (b[0]) fputs(b, stdout);
    }
    return NULL;
}
int main(int argc, char **argv) {
    for (int c = 0; c < 4; c++) make(c);
    pthread_t t[8]; int n = argc - 1;
    for (int i = 0; i < n; i++) script[i] = argv[i + 1];
    for (int i = 1; i < n; i++) pthread_create(&t[i], NULL, worker, (void *)(long)i);
    worker((void *)0);
    for (int i = 1; i < n; i++) pthread_join(t[i], NULL);
    for (int c = 0; c < 4; c++) destroy(c);
    printf("cells %lld %lld %lld %lld\n", (long long)cell[0], (long long)cell[1], (long long)cell[2], (long long)cell[3]);
    return 0;
}
