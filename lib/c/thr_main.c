/* Scripts of thread operations by the first thread; one word per operation:
 *  sK:B  start thread K with body B;  jK join;  dK detach;  aK is_alive;  n thread_count;  o open the gate;  w wait until thread K's body has run (wK)
 * bodies: 0 nothing, 1 wait for the gate, 2 start a thread of its own (body 0) and join it, 3 the same but detach it, 4 allocate from both arenas. Values are passed as arguments 100*K+B. */
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "runtime/runtime.h"
#include "stdlib/threads.h"
void ms_wait_all(void);
static pthread_mutex_t gm = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t gc = PTHREAD_COND_INITIALIZER; static int open_, ran[10]; static char *keep[10];
static void sub(int64_t a) { printf("sub %d\n", (int)a); }
static void done(int k) { pthread_mutex_lock(&gm); ran[k]++; pthread_cond_broadcast(&gc); pthread_mutex_unlock(&gm); }
static void run(int64_t a) {
    int k = (int)(a / 100), b = (int)(a % 100);
    printf("body %d\n", k);
    if (b == 1) { pthread_mutex_lock(&gm); while (!open_) pthread_cond_wait(&gc, &gm); pthread_mutex_unlock(&gm); }
    if (b == 2 || b == 3) { GrayThread t = gray_threads_spawn_arg(sub, a); if (b == 2) gray_threads_join(t); else gray_threads_detach(t); }
    if (b == 4) { char *p = gray_arena_alloc(gray_default_arena, 64); memset(p, k, 64); keep[k] = gray_arena_alloc(gray_heap_arena, 32); memset(keep[k], 'a' + k, 32); }
    done(k);
}
static void run0(void) { run(0); }
int main(int argc, char **argv) {
    gray_runtime_init();
    GrayThread t[10]; (void)argc;
    int i = 0;
    for (char *p = argv[1]; *p; i++) {
        char op = *p++; int k = 0, b = 0;
        if (*p >= '0' && *p <= '9') k = *p++ - '0';
        if (*p == ':') { b = p[1] - '0'; p += 2; }
        if (*p == ' ') p++;
        switch (op) {
        case 's': t[k] = k == 0 && b == 0 ? gray_threads_spawn(run0) : gray_threads_spawn_arg(run, 100 * k + b); break;
        case 'j': gray_threads_join(t[k]); printf("m%d j%d %d\n", i, k, ran[k]); break;
        case 'd': gray_threads_detach(t[k]); break;
        case 'a': printf("m%d a%d %d\n", i, k, gray_threads_is_alive(t[k])); break;
        case 'n': printf("m%d n %d\n", i, (int)gray_threads_thread_count()); break;
        case 'o': pthread_mutex_lock(&gm); open_ = 1; pthread_cond_broadcast(&gc); pthread_mutex_unlock(&gm); break;
        case 'w': pthread_mutex_lock(&gm); while (!ran[k]) pthread_cond_wait(&gc, &gm); pthread_mutex_unlock(&gm); break;
        }
    }
    ms_wait_all();
    for (int k = 0; k < 10; k++) if (keep[k]) { int ok = 1; for (int i = 0; i < 32; i++) ok &= keep[k][i] == 'a' + k; printf("keep %d %d\n", k, ok); }
    printf("count %d\n", (int)gray_threads_thread_count());
    GrayArena *d = gray_default_arena, *h = gray_heap_arena;
    gray_runtime_shutdown(); free(d); free(h);
    printf("end\n");
    return 0;
}
