/* Stateless model checker for programs using POSIX threads.
 * Link with: msched.o and -Wl,--wrap=main and --wrap of every function in WRAPS (see lib/msched.py);
 * compile the code under test with -fsanitize=thread (compile only: the callbacks are here).
 * Threads are real ones, but exactly one runs at a time; at every visible operation a scheduler decides who
 * goes on.  The explorer forks one process per schedule and enumerates schedules by dynamic partial-order
 * reduction with sleep sets (Flanagan and Godefroid 2005), i.e. at least one of every class of equivalent
 * schedules.  Each execution is monitored for data races (vector clocks over synchronisation only), accesses
 * to freed memory, double frees, misuse of threads and mutexes, and deadlock. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <sys/resource.h>
#include <signal.h>
#define NT 8
#define MAXSTEP 4000
#define NSHARE (1 << 14)
enum { READ, WRITE, RMW, LOCK, TRYLOCK, UNLOCK, WAIT, RESUME, SIGNAL, BCAST, CREATE, START, EXIT_, JOIN, DETACH, DESTROY, SPIN, ALL };
static const char *KN[] = {"read", "write", "atomic", "lock", "trylock", "unlock", "wait", "resume", "signal", "broadcast", "create", "start", "exit", "join", "detach", "destroy", "spinlock", "all"};
typedef struct { int kind; uintptr_t a, b; } Op;
typedef struct { int tid; unsigned enabled, alive, sleep; Op pend[NT]; } Step;
typedef struct {
    /* in */
    int nprefix; unsigned char prefix[MAXSTEP]; unsigned sleep; int spurious;
    /* out */
    int n, blocked, newshared, over, deadlock; Step st[MAXSTEP + 1];
    char msg[4096];
    uintptr_t shared[NSHARE]; int nshared;
    long accesses; int live;
} Shm;
static Shm *S;
static int real_on, in_child;
/* ---- real functions ---- */
#define REAL(ret, name, ...) ret __real_##name(__VA_ARGS__)
REAL(int, main, int, char **);
REAL(void *, malloc, size_t); REAL(void *, calloc, size_t, size_t); REAL(void *, realloc, void *, size_t); REAL(void, free, void *);
REAL(int, pthread_create, pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
REAL(int, pthread_join, pthread_t, void **); REAL(int, pthread_detach, pthread_t);
REAL(int, pthread_mutex_init, pthread_mutex_t *, const pthread_mutexattr_t *);
REAL(int, pthread_mutex_lock, pthread_mutex_t *); REAL(int, pthread_mutex_trylock, pthread_mutex_t *); REAL(int, pthread_mutex_unlock, pthread_mutex_t *); REAL(int, pthread_mutex_destroy, pthread_mutex_t *);
REAL(int, nanosleep, const struct timespec *, struct timespec *);
REAL(void, exit, int);
REAL(int, sched_yield, void);
REAL(char *, strdup, const char *);
void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t);
char *__real_getenv(const char *);
#define getenv __real_getenv
#define memcpy __real_memcpy
#define memmove __real_memmove
#define memset __real_memset
/* ---- state of one execution ---- */
typedef struct { sem_t go; int alive, finished, joined, detached; void *(*fn)(void *); void *arg, *ret; pthread_t pt; uintptr_t lo, hi; unsigned vc[NT]; Op op; int spur; } Thr;
static Thr T[NT]; static int nt = 1, step, active, failed;
static __thread int me; static __thread int inside;
static void say(const char *f, ...) {
    va_list a; va_start(a, f); size_t l = strlen(S->msg);
    char b[400]; vsnprintf(b, sizeof b, f, a); va_end(a);
    if (!strstr(S->msg, b) && l + strlen(b) + 2 < sizeof S->msg) { strcat(S->msg, b); strcat(S->msg, "\n"); }
    failed = 1;
}
static void finish(int code) { fflush(NULL); _exit(code); }
/* ---- objects ---- */
typedef struct { uintptr_t addr; int owner, dead; unsigned vc[NT]; int nsig; unsigned sig[16], waiters; } Obj;
static Obj O[4096]; static int no;
static Obj *obj(uintptr_t a) {
    for (int i = 0; i < no; i++) if (O[i].addr == a) return &O[i];
    if (no == 4096) { say("too many synchronisation objects"); finish(79); }
    Obj *o = &O[no++]; memset(o, 0, sizeof *o); o->addr = a; o->owner = -1; return o;
}
static void vjoin(unsigned *d, const unsigned *s) { for (int i = 0; i < NT; i++) if (s[i] > d[i]) d[i] = s[i]; }
/* ---- heap: fresh memory for every allocation of an execution ---- */
#define HEAP (4096UL << 20)
static char *heap; static size_t hp; static unsigned char *shadow; static int live;
static void heap_init(void) {
    heap = mmap((void *)0x200000000000, HEAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    shadow = mmap(NULL, HEAP / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
static int ours(const void *p) { return heap && (char *)p >= heap && (char *)p < heap + HEAP; }
static void *take(size_t n) {
    size_t r = ((n + 15) & ~15UL) + 48;
    if (n > HEAP || hp + r > HEAP) { errno = ENOMEM; return NULL; }
    char *p = heap + hp + 32; hp += r; *(size_t *)(p - 16) = n;
    size_t k = (p - heap) / 16; memset(shadow + k, 1, (n + 15) / 16 ? (n + 15) / 16 : 1); live++;
    return p;
}
void *__wrap_malloc(size_t n) { return in_child ? take(n) : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { if (!in_child) return __real_calloc(a, b); if (b && a > HEAP / b) { errno = ENOMEM; return NULL; } return take(a * b); }
static void access_(uintptr_t p, size_t n, int w, int atomic);
void __wrap_free(void *p) {
    if (!p) return;
    if (!ours(p)) { __real_free(p); return; }
    size_t k = ((char *)p - heap) / 16, n = *(size_t *)((char *)p - 16);
    if (shadow[k] == 2) { say("double free"); return; }
    if (shadow[k] != 1 || (k && shadow[k - 1] == 1)) { say("free of a wrong pointer"); return; }
    if (active) access_((uintptr_t)p, n < 8 ? (n ? n : 1) : 8, 1, 0);   /* freeing conflicts with every use of the start of the block */
    memset(shadow + k, 2, (n + 15) / 16 ? (n + 15) / 16 : 1); live--;
}
void *__wrap_realloc(void *p, size_t n) {
    if (!in_child || (p && !ours(p))) return __real_realloc(p, n);
    if (!p) return take(n);
    void *q = take(n); if (!q) return NULL;
    size_t o = *(size_t *)((char *)p - 16); memcpy(q, p, o < n ? o : n); __wrap_free(p); return q;
}
char *__wrap_strdup(const char *s) { if (!in_child) return __real_strdup(s); size_t n = strlen(s) + 1; char *p = take(n); return p ? memcpy(p, s, n) : NULL; }
/* ---- scheduling ---- */
static int co(Op *x, Op *y);   /* may be enabled together */
static int dep(const Op *x, const Op *y) {
    int same = (x->a && (x->a == y->a || x->a == y->b)) || (x->b && (x->b == y->a || x->b == y->b));
    if (!same) return 0;
    if (x->kind == START || y->kind == START) return x->kind == CREATE || y->kind == CREATE;
    return !(x->kind == READ && y->kind == READ);
}
static int enabled(int t) {
    Thr *h = &T[t]; if (!h->alive || h->finished) return 0;
    Op *o = &h->op;
    switch (o->kind) {
    case LOCK: return obj(o->a)->owner < 0;
    case SPIN: return *(volatile int32_t *)o->a == 0;
    case RESUME: {
        if (obj(o->b)->owner >= 0) return 0;
        Obj *c = obj(o->a); for (int i = 0; i < c->nsig; i++) if (c->sig[i] >> t & 1) return 1;
        return h->spur; }
    case JOIN: return T[o->a & 15].finished;
    case ALL: for (int i = 0; i < nt; i++) if (i != t && !T[i].finished) return 0;
        return 1;
    }
    return 1;
}
static int choose(void) {   /* called by the running thread, whose next operation is published */
    unsigned en = 0, al = 0; int only_spur = 1;
    for (int t = 0; t < nt; t++) { if (T[t].alive && !T[t].finished) al |= 1u << t; if (enabled(t)) { en |= 1u << t; if (!(T[t].op.kind == RESUME && T[t].spur)) only_spur = 0; } }
    if (step >= MAXSTEP) { S->over = 1; finish(78); }
    Step *s = &S->st[step]; s->enabled = en; s->alive = al; s->sleep = S->sleep; s->tid = -1;
    for (int t = 0; t < nt; t++) s->pend[t] = T[t].op;
    S->n = step;
    if (!en) {
        if (al & 1) {
            char b[200] = ""; for (int t = 0; t < nt; t++) if (al >> t & 1) { char x[40]; snprintf(x, sizeof x, " %d:%s", t, KN[T[t].op.kind]); strcat(b, x); }
            S->deadlock = 1; printf("DEADLOCK%s\n", b); finish(77);
        }
        S->live = live; finish(real_on & 255);
    }
    (void)only_spur;
    int c;
    if (step < S->nprefix) { c = S->prefix[step]; if (!(en >> c & 1)) { say("replay diverged at step %d: thread %d is not enabled", step, c); finish(79); } }
    else {
        unsigned av = en & ~S->sleep;
        if (!av) { S->blocked = 1; finish(76); }
        c = av >> me & 1 ? me : __builtin_ctz(av);
    }
    s->tid = c;
    if (step >= S->nprefix - 1) {   /* from the branching step on: those asleep stay so while independent of what runs */
        unsigned sl = S->sleep & ~(1u << c), k = 0;
        for (int t = 0; t < nt; t++) if ((sl >> t & 1) && !dep(&T[t].op, &T[c].op)) k |= 1u << t;
        S->sleep = k;
    }
    step++; S->n = step; S->st[step].alive = 0;
    int self = c == me;
    if (!self) sem_post(&T[c].go);   /* from here on the other thread runs */
    return self;
}
static void apply(Op *o) {   /* the effect of the operation the scheduler let this thread make */
    Thr *h = &T[me]; Obj *m, *c; h->vc[me]++;
    switch (o->kind) {
    case LOCK: m = obj(o->a); m->owner = me; vjoin(h->vc, m->vc); break;
    case UNLOCK: m = obj(o->a); if (m->owner != me) say("thread %d unlocks a mutex it does not hold", me); m->owner = -1; memcpy(m->vc, h->vc, sizeof m->vc); break;
    case WAIT: m = obj(o->b); c = obj(o->a); if (m->owner != me) say("wait without the mutex"); m->owner = -1; memcpy(m->vc, h->vc, sizeof m->vc); c->waiters |= 1u << me; break;
    case RESUME:
        c = obj(o->a); { int i; for (i = 0; i < c->nsig; i++) if (c->sig[i] >> me & 1) break;
            if (i == c->nsig) h->spur = 0; else { memmove(&c->sig[i], &c->sig[i + 1], (c->nsig - i - 1) * sizeof c->sig[0]); c->nsig--; } 
            c->waiters &= ~(1u << me); int k = 0; for (i = 0; i < c->nsig; i++) if ((c->sig[i] &= ~(1u << me))) c->sig[k++] = c->sig[i]; c->nsig = k; }
        m = obj(o->b); m->owner = me; vjoin(h->vc, m->vc); break;
    case SIGNAL: c = obj(o->a); if (c->waiters && c->nsig < 16) c->sig[c->nsig++] = c->waiters; break;
    case BCAST: c = obj(o->a); for (int t = 0; t < nt; t++) if ((c->waiters >> t & 1) && c->nsig < 16) c->sig[c->nsig++] = 1u << t; break;
    case JOIN: vjoin(h->vc, T[o->a & 15].vc); break;
    case RMW: case SPIN: m = obj(o->a); vjoin(h->vc, m->vc); memcpy(m->vc, h->vc, sizeof m->vc); break;
    }
}
static void point(int kind, uintptr_t a, uintptr_t b) {
    if (!active) return;
    inside++;
    Op o = {kind, a, b}; T[me].op = o;
    if (!choose()) while (sem_wait(&T[me].go)) {}
    apply(&o);
    inside--;
}
/* ---- memory accesses: visible only for addresses seen to be shared ---- */
typedef struct { uintptr_t g; signed char wt[8]; unsigned wc[8]; unsigned rc[8][NT]; unsigned char who, wrote; } Gran;
#define NG (1 << 17)
static Gran *G; static int ng;
static Gran *gran(uintptr_t g) {
    unsigned h = (unsigned)((g * 0x9E3779B97F4A7C15ULL) >> 40) & (NG - 1);
    while (G[h].g && G[h].g != g) h = (h + 1) & (NG - 1);
    if (!G[h].g) { if (++ng > NG / 2) { say("too many addresses"); finish(79); } G[h].g = g; memset(G[h].wt, -1, 8); }
    return &G[h];
}
static int is_shared(uintptr_t g) { unsigned h = (unsigned)((g * 0x9E3779B97F4A7C15ULL) >> 40) & (NSHARE - 1); while (S->shared[h] && S->shared[h] != g) h = (h + 1) & (NSHARE - 1); return S->shared[h] == g; }
static void add_shared(uintptr_t g) { unsigned h = (unsigned)((g * 0x9E3779B97F4A7C15ULL) >> 40) & (NSHARE - 1); while (S->shared[h] && S->shared[h] != g) h = (h + 1) & (NSHARE - 1); if (!S->shared[h]) { S->shared[h] = g; if (++S->nshared > NSHARE / 2) { say("too many shared addresses"); finish(79); } S->newshared = 1; } }
static const char *where(uintptr_t p) { static char b[64]; if (ours((void *)p)) { size_t k = (p - (uintptr_t)heap) / 16; while (k && shadow[k - 1] == shadow[k]) k--; snprintf(b, sizeof b, "heap block+%zu", (size_t)(p - (uintptr_t)heap - k * 16)); } else snprintf(b, sizeof b, "a global"); return b; }
static int skip(uintptr_t p) {
    Thr *h = &T[me]; return p >= h->lo && p < h->hi;
}
static void access_(uintptr_t p, size_t n, int w, int atomic) {
    if (inside || !in_child || !n) return;
    if (ours((void *)p)) { unsigned char s = shadow[(p - (uintptr_t)heap) / 16]; if (s == 2) say("%s of freed memory (%s)", w ? "write" : "read", where(p)); else if (!s) say("%s outside any block", w ? "write" : "read"); }
    if (!active || skip(p)) return;
    inside++;
    S->accesses++;
    int vis = 0;
    for (uintptr_t g = p >> 3; g <= (p + n - 1) >> 3; g++) {
        Gran *q = gran(g); q->who |= 1u << me; if (w) q->wrote = 1;
        if (q->wrote && (q->who & (q->who - 1))) add_shared(g);
        if (is_shared(g)) vis = 1;
    }
    if (vis || atomic) {
        inside--; point(atomic ? RMW : w ? WRITE : READ, p >> 3 << 3, (p + n - 1) >> 3 << 3 == p >> 3 << 3 ? 0 : (p + n - 1) >> 3 << 3); inside++;
    }
    /* the access itself happens next, before the next point of this thread */
    Thr *h = &T[me];
    for (uintptr_t x = p; x < p + n; x++) {
        Gran *q = gran(x >> 3); int i = x & 7; int old = q->wt[i];
        if (!atomic) {
            if (old >= 0 && old != me && q->wc[i] > h->vc[old]) { say("data race: %s of %s by thread %d and an earlier write by thread %d", w ? "write" : "read", where(x), me, old); break; }
            if (w) for (int t = 0; t < NT; t++) if (t != me && q->rc[i][t] > h->vc[t]) { say("data race: write of %s by thread %d and an earlier read by thread %d", where(x), me, t); x = p + n; break; }
        }
        if (x >= p + n) break;
        if (w && !atomic) { q->wt[i] = (signed char)me; q->wc[i] = h->vc[me]; } else if (!w) q->rc[i][me] = h->vc[me];
    }
    inside--;
}
/* an access counts from the thread's latest operation on: clocks must move for accesses after a release */
static void rel(void) { T[me].vc[me]++; }
/* ---- wrapped functions ---- */
void __tsan_write8(void *p);
static void *body(void *x) {
    me = (int)(intptr_t)x; Thr *h = &T[me]; inside = 1;
    pthread_attr_t at; void *lo; size_t sz; pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &lo, &sz); pthread_attr_destroy(&at);
    h->lo = (uintptr_t)lo; h->hi = (uintptr_t)pthread_self() + 4096; if (h->hi < (uintptr_t)lo + sz) h->hi = (uintptr_t)lo + sz;
    h->pt = pthread_self();
    while (sem_wait(&h->go)) {}
    apply(&h->op); inside = 0;
    h->ret = h->fn(h->arg);
    point(EXIT_, 16 + (uintptr_t)me, 0);
    inside = 1; h->finished = 1;
    if (!h->detached) {} 
    h->op.kind = EXIT_; choose();
    for (;;) pause();
    return NULL;
}
int __wrap_pthread_create(pthread_t *pt, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
    if (!in_child) return __real_pthread_create(pt, at, fn, arg);
    if (nt == NT) { say("more than %d threads", NT); finish(79); }
    int fail = getenv("MS_NOTHREAD") && atoi(getenv("MS_NOTHREAD")) == nt; if (fail) return EAGAIN;
    active = 1;
    point(CREATE, 16 + (uintptr_t)nt, 0);
    inside++;
    int t = nt++; Thr *h = &T[t]; memset(h->vc, 0, sizeof h->vc); memcpy(h->vc, T[me].vc, sizeof h->vc); h->fn = fn; h->arg = arg; sem_init(&h->go, 0, 0); h->spur = S->spurious;
    int det = 0; if (at) { pthread_attr_getdetachstate(at, &det); h->detached = det == PTHREAD_CREATE_DETACHED; }
    h->op = (Op){START, 16 + (uintptr_t)t, 0};
    pthread_attr_t a2; pthread_attr_init(&a2); pthread_attr_setstacksize(&a2, 1 << 20);
    int r = __real_pthread_create(&h->pt, &a2, body, (void *)(intptr_t)t);
    if (r) { say("cannot create a thread"); finish(79); }
    inside--;
    __tsan_write8(pt); *pt = h->pt; h->alive = 1; rel();
    return 0;
}
/* for harnesses: goes on when every other thread has ended */
void ms_wait_all(void) { if (active) { point(ALL, 0, 0); for (int t = 0; t < nt; t++) vjoin(T[me].vc, T[t].vc); } }
static int tid_of(pthread_t p) { for (int t = 0; t < nt; t++) if (T[t].alive && pthread_equal(T[t].pt, p)) return t; return -1; }
int __wrap_pthread_join(pthread_t p, void **ret) {
    if (!in_child) return __real_pthread_join(p, ret);
    int t = tid_of(p);
    if (t < 0) { say("join of something that is no thread"); return ESRCH; }
    if (T[t].joined || T[t].detached) { say("join of a thread that is %s", T[t].joined ? "joined" : "detached"); return EINVAL; }
    T[t].joined = 1; point(JOIN, 16 + (uintptr_t)t, 0);
    if (ret) *ret = T[t].ret;
    return 0;
}
int __wrap_pthread_detach(pthread_t p) {
    if (!in_child) return __real_pthread_detach(p);
    int t = tid_of(p);
    if (t < 0) { say("detach of something that is no thread"); return ESRCH; }
    point(DETACH, 16 + (uintptr_t)t, 0);
    if (T[t].joined || T[t].detached) { say("detach of a thread that is %s", T[t].joined ? "joined" : "detached"); return EINVAL; }
    T[t].detached = 1;
    return 0;
}
static int mown(void *m) { return obj((uintptr_t)m)->owner; }
static void muse(pthread_mutex_t *m, int w) { access_((uintptr_t)m, 1, 0, 0); (void)w; }   /* an access to the mutex's memory, for use after free and unordered initialisation */
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { if (in_child) { access_((uintptr_t)m, sizeof *m, 1, 0); inside++; Obj *o = obj((uintptr_t)m); o->owner = -1; o->dead = 0; inside--; } return __real_pthread_mutex_init(m, a); }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
    if (!in_child) return __real_pthread_mutex_lock(m);
    muse(m, 1);
    if (!active) { Obj *o = obj((uintptr_t)m); if (o->owner == me) { printf("DEADLOCK self\n"); S->deadlock = 1; finish(77); } o->owner = me; return 0; }
    point(LOCK, (uintptr_t)m, 0); muse(m, 1); return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
    if (!in_child) return __real_pthread_mutex_trylock(m);
    muse(m, 1); point(TRYLOCK, (uintptr_t)m, 0); Obj *o = obj((uintptr_t)m);
    if (o->owner >= 0) return EBUSY;
    o->owner = me; vjoin(T[me].vc, o->vc); return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!in_child) return __real_pthread_mutex_unlock(m);
    muse(m, 1);
    if (!active) { Obj *o = obj((uintptr_t)m); if (o->owner != me) say("thread %d unlocks a mutex it does not hold", me); o->owner = -1; return 0; }
    point(UNLOCK, (uintptr_t)m, 0); rel(); return 0;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { if (in_child) { access_((uintptr_t)m, sizeof *m, 1, 0); if (mown(m) >= 0) say("a held mutex is destroyed"); point(DESTROY, (uintptr_t)m, 0); return 0; } return __real_pthread_mutex_destroy(m); }
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { (void)a; if (in_child) access_((uintptr_t)c, sizeof *c, 1, 0); memset(c, 0, sizeof *c); return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t *c) { if (in_child) { access_((uintptr_t)c, sizeof *c, 1, 0); point(DESTROY, (uintptr_t)c, 0); } return 0; }
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    access_((uintptr_t)c, 1, 0, 0);
    if (!active) { printf("DEADLOCK 0:resume\n"); S->deadlock = 1; finish(77); }
    point(WAIT, (uintptr_t)c, (uintptr_t)m); rel();
    point(RESUME, (uintptr_t)c, (uintptr_t)m);
    return 0;
}
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { (void)t; int keep = T[me].spur; T[me].spur = 1; int r = __wrap_pthread_cond_wait(c, m); r = T[me].spur ? 0 : ETIMEDOUT; T[me].spur = keep; return r; }
int __wrap_pthread_cond_signal(pthread_cond_t *c) { access_((uintptr_t)c, 1, 0, 0); point(SIGNAL, (uintptr_t)c, 0); return 0; }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { access_((uintptr_t)c, 1, 0, 0); point(BCAST, (uintptr_t)c, 0); return 0; }
int __wrap_sched_yield(void) { return in_child ? 0 : __real_sched_yield(); }
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) {
    if (!in_child) return __real_nanosleep(a, b);
    if (getenv("MS_SLEEP")) printf("SLEEP %ld.%09ld\n", (long)a->tv_sec, a->tv_nsec);
    return 0;
}
void __attribute__((noreturn)) __wrap_exit(int code) { if (in_child) { S->n = step; S->live = live; fflush(NULL); _exit(code); } __real_exit(code); for (;;) {} }
/* library functions with static state: calls are accesses to it */
static char st_time, st_tok, st_host, st_env, st_locale, st_pw, st_err;
#define LIBF(ret, name, sig, args, cell, w) ret __real_##name sig; ret __wrap_##name sig { access_((uintptr_t)&cell, 1, w, 0); return __real_##name args; }
struct tm; struct hostent; struct passwd; struct lconv;
LIBF(struct tm *, localtime, (const time_t *t), (t), st_time, 1) LIBF(struct tm *, gmtime, (const time_t *t), (t), st_time, 1)
LIBF(char *, ctime, (const time_t *t), (t), st_time, 1) LIBF(char *, asctime, (const struct tm *t), (t), st_time, 1)
LIBF(char *, strtok, (char *a, const char *b), (a, b), st_tok, 1) LIBF(struct hostent *, gethostbyname, (const char *n), (n), st_host, 1)
LIBF(char *, setlocale, (int a, const char *b), (a, b), st_locale, 1) LIBF(struct passwd *, getpwuid, (unsigned u), (u), st_pw, 1) LIBF(struct passwd *, getpwnam, (const char *n), (n), st_pw, 1)
LIBF(int, setenv, (const char *a, const char *b, int o), (a, b, o), st_env, 1) LIBF(int, unsetenv, (const char *a), (a), st_env, 1) LIBF(int, putenv, (char *a), (a), st_env, 1)
char *__wrap_getenv(const char *a) { access_((uintptr_t)&st_env, 1, 0, 0); return __real_getenv(a); } LIBF(char *, strerror, (int e), (e), st_err, 1)
/* hand-written atomics (indivisibility of their instructions is checked elsewhere) */
#define RM(p) do { if (in_child && !inside) { access_((uintptr_t)(p), 8, 1, 1); } } while (0)
#define A1(name) int64_t __real_##name(int64_t *, int64_t); int64_t __wrap_##name(int64_t *p, int64_t v) { RM(p); return __real_##name(p, v); }
A1(gray_atomic_add) A1(gray_atomic_sub) A1(gray_atomic_exchange) A1(gray_atomic_and) A1(gray_atomic_or) A1(gray_atomic_xor)
int64_t __real_gray_atomic_load(int64_t *); int64_t __wrap_gray_atomic_load(int64_t *p) { RM(p); return __real_gray_atomic_load(p); }
void __real_gray_atomic_store(int64_t *, int64_t); void __wrap_gray_atomic_store(int64_t *p, int64_t v) { RM(p); __real_gray_atomic_store(p, v); }
int __real_gray_atomic_cas(int64_t *, int64_t, int64_t); int __wrap_gray_atomic_cas(int64_t *p, int64_t a, int64_t b) { RM(p); return __real_gray_atomic_cas(p, a, b); }
void __real_gray_spin_lock(int32_t *); int __real_gray_spin_trylock(int32_t *); void __real_gray_spin_unlock(int32_t *);
void __wrap_gray_spin_lock(int32_t *p) { if (in_child) { access_((uintptr_t)p, 4, 0, 0); if (!active && *p) { printf("DEADLOCK self\n"); S->deadlock = 1; finish(77); } point(SPIN, (uintptr_t)p, 0); } __real_gray_spin_lock(p); }
int __wrap_gray_spin_trylock(int32_t *p) { if (in_child) { access_((uintptr_t)p, 4, 0, 0); point(RMW, (uintptr_t)p, 0); } return __real_gray_spin_trylock(p); }
void __wrap_gray_spin_unlock(int32_t *p) { if (in_child) { access_((uintptr_t)p, 4, 0, 0); point(RMW, (uintptr_t)p, 0); rel(); } __real_gray_spin_unlock(p); }
/* memory functions, which the compiler does not instrument */
void *__wrap_memcpy(void *d, const void *s, size_t n) { access_((uintptr_t)s, n, 0, 0); access_((uintptr_t)d, n, 1, 0); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { access_((uintptr_t)s, n, 0, 0); access_((uintptr_t)d, n, 1, 0); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { access_((uintptr_t)d, n, 1, 0); return __real_memset(d, c, n); }
/* ---- compiler callbacks ---- */
void __tsan_init(void) {} void __tsan_func_entry(void *p) { (void)p; } void __tsan_func_exit(void) {}
#define TS(n) void __tsan_read##n(void *p) { access_((uintptr_t)p, n, 0, 0); } void __tsan_write##n(void *p) { access_((uintptr_t)p, n, 1, 0); } \
  void __tsan_unaligned_read##n(void *p) { access_((uintptr_t)p, n, 0, 0); } void __tsan_unaligned_write##n(void *p) { access_((uintptr_t)p, n, 1, 0); } \
  void __tsan_volatile_read##n(void *p) { access_((uintptr_t)p, n, 0, 0); } void __tsan_volatile_write##n(void *p) { access_((uintptr_t)p, n, 1, 0); }
TS(1) TS(2) TS(4) TS(8) TS(16)
void __tsan_read_range(void *p, size_t n) { access_((uintptr_t)p, n, 0, 0); } void __tsan_write_range(void *p, size_t n) { access_((uintptr_t)p, n, 1, 0); }
#define AT(b, ty) \
 ty __tsan_atomic##b##_load(const volatile ty *p, int m) { (void)m; access_((uintptr_t)p, sizeof *p, 1, 1); return *p; } \
 void __tsan_atomic##b##_store(volatile ty *p, ty v, int m) { (void)m; access_((uintptr_t)p, sizeof *p, 1, 1); *p = v; rel(); } \
 ty __tsan_atomic##b##_exchange(volatile ty *p, ty v, int m) { (void)m; access_((uintptr_t)p, sizeof *p, 1, 1); ty o = *p; *p = v; rel(); return o; } \
 ty __tsan_atomic##b##_fetch_add(volatile ty *p, ty v, int m) { (void)m; access_((uintptr_t)p, sizeof *p, 1, 1); ty o = *p; *p = o + v; rel(); return o; } \
 ty __tsan_atomic##b##_fetch_sub(volatile ty *p, ty v, int m) { (void)m; access_((uintptr_t)p, sizeof *p, 1, 1); ty o = *p; *p = o - v; rel(); return o; } \
 ty __tsan_atomic##b##_fetch_and(volatile ty *p, ty v, int m) { (void)m; access_((uintptr_t)p, sizeof *p, 1, 1); ty o = *p; *p = o & v; rel(); return o; } \
 ty __tsan_atomic##b##_fetch_or(volatile ty *p, ty v, int m) { (void)m; access_((uintptr_t)p, sizeof *p, 1, 1); ty o = *p; *p = o | v; rel(); return o; } \
 ty __tsan_atomic##b##_fetch_xor(volatile ty *p, ty v, int m) { (void)m; access_((uintptr_t)p, sizeof *p, 1, 1); ty o = *p; *p = o ^ v; rel(); return o; } \
 int __tsan_atomic##b##_compare_exchange_strong(volatile ty *p, ty *c, ty v, int m, int f) { (void)m; (void)f; access_((uintptr_t)p, sizeof *p, 1, 1); ty o = *p; if (o == *c) { *p = v; rel(); return 1; } *c = o; return 0; } \
 int __tsan_atomic##b##_compare_exchange_weak(volatile ty *p, ty *c, ty v, int m, int f) { return __tsan_atomic##b##_compare_exchange_strong(p, c, v, m, f); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int m) { (void)m; } void __tsan_atomic_signal_fence(int m) { (void)m; }
/* ---- explorer ---- */
static int co(Op *x, Op *y) {   /* could the two have been enabled together? */
    int xl = x->kind == LOCK || x->kind == RESUME, yl = y->kind == LOCK || y->kind == RESUME;
    if (yl && (x->kind == UNLOCK || x->kind == WAIT) && (x->kind == UNLOCK ? x->a : x->b) == (y->kind == LOCK ? y->a : y->b)) return 0;
    if (xl && y->kind == UNLOCK) return 0;
    if (y->kind == JOIN || x->kind == JOIN || y->kind == START || x->kind == CREATE) return 0;
    return 1;
}
typedef struct { unsigned done, back, sleep; } Node;
static Node N[MAXSTEP + 1]; static unsigned (*C)[NT]; static unsigned cnt[MAXSTEP + 1];
typedef struct { uint64_t h; char *text; long n; int status; int deadlock; char *sched; } Out;
static Out *outs; static int nout, capout;
static int cmpl(const void *a, const void *b) { return strcmp(*(char **)a, *(char **)b); }
static int __attribute__((noinline)) explore(int argc, char **argv) {
    long limit = getenv("MS_LIMIT") ? atol(getenv("MS_LIMIT")) : 100000; int keep_order = getenv("MS_ORDER") != NULL;
    const char *only = getenv("MS_REPLAY");
    S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    C = __real_malloc(sizeof(*C) * (MAXSTEP + 2));
    char path[] = "/dev/shm/msXXXXXX"; int fd = mkstemp(path); unlink(path);
    long execs = 0, blocked = 0, steps = 0, maxn = 0, restarts = 0; int over = 0, cut = 0; int npre = 0; static unsigned char pre[MAXSTEP];
    if (only) for (const char *p = only; *p; p++) pre[npre++] = (unsigned char)(*p - '0');
    memset(N, 0, sizeof N);
    unsigned sleep0 = 0;
    for (;;) {
        S->nprefix = npre; memcpy(S->prefix, pre, npre); S->sleep = sleep0; S->spurious = getenv("MS_SPUR") != NULL; S->n = 0; S->blocked = S->over = S->deadlock = 0; S->newshared = 0; S->live = -1;
        S->msg[0] = 0;
        if (ftruncate(fd, 0)) {} lseek(fd, 0, SEEK_SET);
        pid_t pid = fork();
        if (!pid) {
            dup2(fd, 1); dup2(fd, 2); struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl); alarm(60);
            heap_init(); G = mmap(NULL, sizeof(Gran) * NG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            memset(T, 0, sizeof T); T[0].alive = 1; T[0].pt = pthread_self(); sem_init(&T[0].go, 0, 0); T[0].vc[0] = 1; T[0].spur = S->spurious;
            uintptr_t sp = (uintptr_t)__builtin_frame_address(0); T[0].lo = sp - (64UL << 20); T[0].hi = sp + (1 << 20);
            me = 0; in_child = 1;
            real_on = __real_main(argc, argv);
            if (!active) { S->live = live; finish(real_on); }
            point(EXIT_, 16, 0); inside = 1; T[0].finished = 1; choose(); for (;;) pause();
        }
        int ws; while (waitpid(pid, &ws, 0) < 0 && errno == EINTR) {}
        int status = WIFEXITED(ws) ? WEXITSTATUS(ws) : 1000 + WTERMSIG(ws);
        execs++; steps += S->n; if (S->n > maxn) maxn = S->n; if (S->over) over = 1;
        if (S->newshared && !only) { if (++restarts > 50) { printf("TROUBLE restarts\n"); return 1; } memset(N, 0, sizeof N); npre = 0; sleep0 = 0; execs--; continue; }
        if (S->blocked) blocked++;
        else {
            static char buf[1 << 16]; ssize_t n = pread(fd, buf, sizeof buf - 1, 0); if (n < 0) n = 0; buf[n] = 0;
            if (!keep_order) {
                char *L[512]; int nl = 0; for (char *p = strtok(buf, "\n"); p && nl < 512; p = strtok(NULL, "\n")) L[nl++] = p;
                qsort(L, nl, sizeof *L, cmpl); static char b2[1 << 16]; b2[0] = 0; size_t o = 0; for (int i = 0; i < nl; i++) o += sprintf(b2 + o, "%s\n", L[i]);
                memcpy(buf, b2, o + 1); n = o;
            }
            n += snprintf(buf + n, sizeof buf - n, "@status %d\n", status);
            if (S->live >= 0) n += snprintf(buf + n, sizeof buf - n, "@live %d\n", S->live);
            for (char *m = S->msg; *m; ) { char *e = strchr(m, '\n'); if (!e) e = m + strlen(m); n += snprintf(buf + n, sizeof buf - n, "!%.*s\n", (int)(e - m), m); m = *e ? e + 1 : e; if ((size_t)n > sizeof buf - 500) break; }
            uint64_t h = 1469598103934665603ULL; for (ssize_t i = 0; i < n; i++) h = (h ^ (unsigned char)buf[i]) * 1099511628211ULL;
            int k; for (k = 0; k < nout; k++) if (outs[k].h == h && !strcmp(outs[k].text, buf)) break;
            if (k == nout) {
                if (nout == capout) { capout = capout ? capout * 2 : 64; outs = __real_realloc(outs, capout * sizeof *outs); }
                outs[k] = (Out){h, __real_strdup(buf), 0, status, S->deadlock, NULL}; char *sc = __real_malloc(S->n + 1); for (int i = 0; i < S->n; i++) sc[i] = (char)('0' + (S->st[i].tid < 0 ? 0 : S->st[i].tid)); sc[S->n] = 0; outs[k].sched = sc; nout++;
            }
            outs[k].n++;
        }
        if (getenv("MS_TRACE")) { fprintf(stderr, "== %ld%s\n", execs, S->blocked ? " blocked" : ""); for (int i = 0; i < S->n; i++) { Op *o = &S->st[i].pend[S->st[i].tid]; fprintf(stderr, "%d: %d %s %lx %lx sleep %x\n", i, S->st[i].tid, KN[o->kind], (long)o->a, (long)o->b, S->st[i].sleep); } }
        if (only) break;
        /* happens-before over dependent steps, races, backtracking points */
        int n = S->n; unsigned P[NT][NT]; memset(P, 0, sizeof P); memset(cnt, 0, sizeof cnt); unsigned num[NT] = {0};
        for (int i = 0; i < n; i++) { N[i].done |= i < npre - 1 ? 0 : 0; }
        /* nodes beyond the branching point are new */
        for (int i = npre; i <= n && i <= MAXSTEP; i++) { N[i].done = 0; N[i].back = 0; N[i].sleep = i <= n ? S->st[i].sleep : 0; }
        for (int i = 0; i < n; i++) { int t = S->st[i].tid; if (t < 0) { n = i; break; } N[i].done |= 1u << t; N[i].back |= 1u << t; if (getenv("MS_FULL")) N[i].back |= S->st[i].enabled; }
        for (int i = 0; i <= n; i++) {
            Step *s = &S->st[i];
            unsigned who = i < n ? 1u << s->tid : s->alive;
            for (int p = 0; p < NT; p++) if (who >> p & 1) {
                Op *o = &s->pend[p];
                for (int j = i - 1; j >= 0; j--) {
                    Step *r = &S->st[j]; int q = r->tid; if (q == p) continue;
                    Op *x = &r->pend[q];
                    if (cnt[j] <= P[p][q]) continue;   /* happens before */
                    if (!dep(x, o) || !co(x, o)) continue;
                    /* the steps after j which do not depend on it, then this operation: some thread that can begin them must be tried at j */
                    unsigned I = 0, met = 0; int dp = P[p][q] >= cnt[j]; static int V[MAXSTEP]; int nv = 0;
                    for (int k = j + 1; k < i; k++) {
                        if (C[k][q] >= cnt[j]) continue;
                        int u = S->st[k].tid;
                        if (!(met >> u & 1)) { met |= 1u << u; int first = 1; for (int v = 0; v < nv && first; v++) if (C[k][S->st[V[v]].tid] >= cnt[V[v]]) first = 0; if (first) I |= 1u << u; }
                        if (dep(&S->st[k].pend[u], o) || P[p][u] >= cnt[k]) dp = 1;
                        V[nv++] = k;
                    }
                    if (!(met >> p & 1) && !dp) I |= 1u << p;
                    I &= r->enabled;
                    if (!I) N[j].back |= r->enabled;
                    else if (!(I & (N[j].back | N[j].sleep))) N[j].back |= I >> p & 1 ? 1u << p : I & -I;
                }
            }
            if (i == n) break;
            int t = s->tid; Op *o = &s->pend[t];
            for (int j = i - 1; j >= 0; j--) if (S->st[j].tid != t && cnt[j] > P[t][S->st[j].tid] && dep(&S->st[j].pend[S->st[j].tid], o)) for (int k = 0; k < NT; k++) if (C[j][k] > P[t][k]) P[t][k] = C[j][k];
            /* what a create made happens before everything of the new thread */
            if (o->kind == START) for (int j = i - 1; j >= 0; j--) { Op *x = &S->st[j].pend[S->st[j].tid]; if (x->kind == CREATE && x->a == o->a) { for (int k = 0; k < NT; k++) if (C[j][k] > P[t][k]) P[t][k] = C[j][k]; break; } }
            P[t][t] = ++num[t]; cnt[i] = num[t]; memcpy(C[i], P[t], sizeof C[i]);
        }
        int d; for (d = n - 1; d >= 0; d--) if (N[d].back & ~N[d].done & ~N[d].sleep) break;
        if (d < 0) break;
        if (execs >= limit) { cut = 1; break; }
        unsigned c = N[d].back & ~N[d].done & ~N[d].sleep; int t = __builtin_ctz(c);
        for (int i = 0; i < d; i++) pre[i] = (unsigned char)S->st[i].tid;
        pre[d] = (unsigned char)t; npre = d + 1;
        sleep0 = getenv("MS_NOSL") ? 0 : (N[d].sleep | N[d].done) & ~(1u << t);
        N[d].done |= 1u << t;
    }
    printf("EXECS %ld BLOCKED %ld STEPS %ld MAXLEN %ld SHARED %d CUT %d OVER %d OUTCOMES %d\n", execs, blocked, steps, maxn, S->nshared, cut, over, nout);
    for (int k = 0; k < nout; k++) printf("OUTCOME %ld %zu %s\n%s", outs[k].n, strlen(outs[k].text), outs[k].sched, outs[k].text);
    return 0;
}
int __wrap_main(int argc, char **argv) {
    if (!getenv("MS")) return __real_main(argc, argv);
    if (getenv("MS_CPU")) { cpu_set_t c; CPU_ZERO(&c); CPU_SET(atoi(getenv("MS_CPU")), &c); sched_setaffinity(0, sizeof c, &c); }
    int r = explore(argc, argv); fflush(stdout); _exit(r);
}
