/* Explores every interleaving of the machine instructions of concurrently called functions, with the processor itself as the transition function: each state holds
 * every thread's registers and stack, the shared words and each thread's store buffer; a transition runs one instruction of one thread under the trap flag, or lets one
 * buffered store reach memory. An instruction that reads and writes shared memory without a lock is run as a read and a later write.
 * Usage: astep TABLE < SCENARIOS. TABLE lines: address kind width base index scale disp (kind: L load, S store, M unlocked read-modify-write, X locked or fence).
 * SCENARIO lines: i0 i1 i2 i3 ; op,word,byte,a,b op,... ; op,... (initial words, then one script per thread). Output: states, transitions, then the outcomes. */
#define _GNU_SOURCE
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <ucontext.h>
#include <sys/mman.h>
#include "runtime/atomic.h"
#include "stdlib/atomic_mod.h"
int64_t plain_get(int64_t *); void plain_set(int64_t *, int64_t); void plain_inc(int64_t *);
__asm__(".text\nplain_get: movq (%rdi), %rax\nret\nplain_set: movq %rsi, (%rdi)\nret\nplain_inc: movq (%rdi), %rax\nincq %rax\nmovq %rax, (%rdi)\nret\nmagic_ret: hlt\n");
extern char magic_ret[];
#define F(n, w, r, k) {#n, (void *)n, w, r, k}
/* name, function, bytes of its word, bytes of its result (0 none), 1 for functions that take a lock handle */
static const struct { const char *name; void *fn; int w, r, lk; } OPS[] = {
    F(gray_atomic_mod_load, 8, 8, 0), F(gray_atomic_mod_store, 8, 0, 0), F(gray_atomic_mod_add, 8, 8, 0), F(gray_atomic_mod_sub, 8, 8, 0), F(gray_atomic_mod_exchange, 8, 8, 0), F(gray_atomic_mod_cas, 8, 1, 0),
    F(gray_atomic_mod_and, 8, 8, 0), F(gray_atomic_mod_or, 8, 8, 0), F(gray_atomic_mod_xor, 8, 8, 0),
    F(gray_atomic_load, 8, 8, 0), F(gray_atomic_store, 8, 0, 0), F(gray_atomic_add, 8, 8, 0), F(gray_atomic_sub, 8, 8, 0), F(gray_atomic_exchange, 8, 8, 0), F(gray_atomic_cas, 8, 1, 0),
    F(gray_atomic_and, 8, 8, 0), F(gray_atomic_or, 8, 8, 0), F(gray_atomic_xor, 8, 8, 0),
    F(gray_atomic_load32, 4, 4, 0), F(gray_atomic_store32, 4, 0, 0), F(gray_atomic_add32, 4, 4, 0), F(gray_atomic_sub32, 4, 4, 0), F(gray_atomic_exchange32, 4, 4, 0), F(gray_atomic_cas32, 4, 1, 0),
    F(gray_atomic_load8, 1, 1, 0), F(gray_atomic_store8, 1, 0, 0), F(gray_atomic_exchange8, 1, 1, 0), F(gray_atomic_cas8, 1, 1, 0),
    F(gray_spin_lock, 4, 0, 0), F(gray_spin_trylock, 4, 1, 0), F(gray_spin_unlock, 4, 0, 0), F(gray_atomic_mod_spin_lock, 4, 0, 1), F(gray_atomic_mod_spin_trylock, 4, 1, 1), F(gray_atomic_mod_spin_unlock, 4, 0, 1),
    F(gray_atomic_fence, 0, 0, 0), F(gray_atomic_mod_fence, 0, 0, 0), F(plain_get, 8, 8, 0), F(plain_set, 8, 0, 0), F(plain_inc, 8, 0, 0) };
enum { NOPS = sizeof OPS / sizeof *OPS, MAXT = 3, MAXOP = 6, STK = 192, NB = 4 };
static const int REGS[] = {REG_RAX, REG_RCX, REG_RDX, REG_RSI, REG_RDI, REG_R8, REG_R9, REG_R10, REG_R11, REG_RBX, REG_RBP, REG_R12, REG_R13, REG_R14, REG_R15, REG_RSP, REG_RIP, REG_EFL};
enum { RAX, RCX, RDX, RSI, RDI, R8, R9, R10, R11, RBX, RBP, R12, R13, R14, R15, RSP, RIP, EFL, NR };
typedef struct { uint8_t off, w; uint64_t v; } St;
typedef struct {
    int64_t mem[4];
    struct { int64_t r[NR]; uint8_t stk[STK]; int64_t res[MAXOP]; St buf[NB]; int64_t rd[4]; uint8_t nb, pc, half; } t[MAXT];
} State;
static int64_t *area; static uint8_t *stacks; static int nth; static int nops[MAXT];
static struct { int op, word, byte; int64_t a, b; } sc[MAXT][MAXOP];
static struct { char kind; int8_t w, base, idx, scale; int64_t disp; } *tab; static uintptr_t lo, hi;
static char trouble[200];
/* one instruction */
static int64_t *stepregs; static greg_t mainregs[NGREG]; static volatile int phase;
static void onTrap(int s, siginfo_t *si, void *u) {
    (void)si; greg_t *g = ((ucontext_t *)u)->uc_mcontext.gregs;
    if (s != SIGTRAP) { if (phase == 2) { snprintf(trouble, sizeof trouble, "signal %d", s); } else { signal(s, SIG_DFL); return; } }
    if (phase == 1) { memcpy(mainregs, g, sizeof mainregs); for (int i = 0; i < NR; i++) g[REGS[i]] = stepregs[i]; g[REG_EFL] |= 0x100; phase = 2; }
    else { for (int i = 0; i < NR; i++) stepregs[i] = g[REGS[i]]; stepregs[EFL] &= ~0x10100LL; memcpy(g, mainregs, sizeof mainregs); phase = 0; }
}
static __attribute__((noinline)) void cpu(int64_t *r) { stepregs = r; phase = 1; __asm__ volatile("int3" ::: "memory"); }
static uint8_t *stop(int t) { return stacks + (t + 1) * 65536 - 64; }
static void begin(State *s, int t) {
    if (s->t[t].pc >= nops[t]) return;
    int64_t *r = s->t[t].r; int op = sc[t][s->t[t].pc].op; for (int i = 0; i < NR; i++) r[i] = 0x1111111111111111LL * (i + 1) + t;
    uint8_t *p = (uint8_t *)&area[sc[t][s->t[t].pc].word] + sc[t][s->t[t].pc].byte;
    r[RDI] = (int64_t)p; r[RSI] = sc[t][s->t[t].pc].a; r[RDX] = sc[t][s->t[t].pc].b; r[EFL] = 0x202; r[RIP] = (int64_t)OPS[op].fn; r[RSP] = (int64_t)stop(t) - 8;
    memset(s->t[t].stk, 0, STK); int64_t m = (int64_t)magic_ret; memcpy(s->t[t].stk + STK - 8 - 64, &m, 8);
}
static int64_t ea(int64_t *r, uintptr_t k, int64_t next) { int64_t a = tab[k].disp; if (tab[k].base == 100) a += next; else if (tab[k].base >= 0) a += r[tab[k].base]; if (tab[k].idx >= 0) a += r[tab[k].idx] * tab[k].scale; return a; }
static int shared(int64_t a, int w) { int64_t o = a - (int64_t)area; return o > -16 && o + w > 0 && o < 32; }
static void putbuf(State *s, St *b) { memcpy((uint8_t *)s->mem + b->off, &b->v, b->w); }
/* transition k of thread t: 0 the next instruction (the whole of it, or the read half of an unlocked read-modify-write), 1 its write half, 2 the oldest buffered store. Returns 0 if it cannot happen. */
static int tso;
static int move(State *s, int t, int k) {
    __typeof__(&s->t[0]) T = &s->t[t];
    if (k == 2) { if (!T->nb) return 0; putbuf(s, &T->buf[0]); memmove(T->buf, T->buf + 1, --T->nb * sizeof(St)); memset(&T->buf[T->nb], 0, sizeof(St)); return 1; }
    if (T->pc >= nops[t]) return 0;
    if (k != T->half) return 0;
    uintptr_t ip = T->r[RIP]; char kind = 0; uintptr_t ix = 0; int64_t a = 0; int w = 0;
    if (ip >= lo && ip < hi && tab[ip - lo].kind) { ix = ip - lo; kind = tab[ix].kind; w = tab[ix].w; a = kind == 'X' ? 0 : ea(T->r, ix, 0); if (kind != 'X' && !shared(a, w)) kind = 0; }
    if (kind == 'X' && T->nb) return 0;
    if (kind == 'S' && tso && T->nb == NB) return 0;
    if (kind == 'M' && !T->half) { if (T->nb) return 0; memcpy(T->rd, s->mem, sizeof s->mem); T->half = 1; return 1; }
    /* run it */
    int64_t before[4]; memcpy(before, s->mem, sizeof before);
    if (kind == 'M') memcpy(area, T->rd, 32); else { memcpy(area, s->mem, 32); if (T->nb) for (int i = 0; i < T->nb; i++) memcpy((uint8_t *)area + T->buf[i].off, &T->buf[i].v, T->buf[i].w); }
    int64_t seen[4]; memcpy(seen, area, 32);
    memcpy(stop(t) - STK + 64, T->stk, STK);
    cpu(T->r);
    memcpy(T->stk, stop(t) - STK + 64, STK);
    if (trouble[0]) return 1;
    if (kind == 'S') {
        int off = (int)(a - (int64_t)area); if (off < 0 || off + w > 32) { snprintf(trouble, sizeof trouble, "store outside the words"); return 1; }
        St b; memset(&b, 0, sizeof b); b.off = (uint8_t)off; b.w = (uint8_t)w; memcpy(&b.v, (uint8_t *)area + off, w);
        if (tso) memcpy(&T->buf[T->nb++], &b, sizeof b); else putbuf(s, &b);
    } else if (kind == 'M') {
        memcpy(s->mem, before, 32); int off = (int)(a - (int64_t)area); if (off < 0 || off + w > 32) { snprintf(trouble, sizeof trouble, "store outside the words"); return 1; }
        memcpy((uint8_t *)s->mem + off, (uint8_t *)area + off, w); T->half = 0; memset(T->rd, 0, sizeof T->rd);
    } else if (!T->nb || kind == 'X') memcpy(s->mem, area, 32);
    else if (memcmp(seen, area, 32)) { snprintf(trouble, sizeof trouble, "an unexpected store"); return 1; }
    if ((char *)T->r[RIP] == magic_ret) {
        int op = sc[t][T->pc].op; for (int i = RBX; i <= R15; i++) if (T->r[i] != 0x1111111111111111LL * (i + 1) + t) { snprintf(trouble, sizeof trouble, "%s changes a register that belongs to its caller", OPS[op].name); return 1; }
        if (T->r[RSP] != (int64_t)stop(t) || (T->r[EFL] & 0x400)) { snprintf(trouble, sizeof trouble, "%s leaves the stack or the direction flag changed", OPS[op].name); return 1; }
        int64_t v = T->r[RAX]; switch (OPS[op].r) { case 0: v = 0; break; case 1: v = (uint8_t)v; break; case 4: v = (int32_t)v; break; }
        if (OPS[op].r == 1 && OPS[op].w != 1 && v > 1) { snprintf(trouble, sizeof trouble, "%s returns a bool of %lld", OPS[op].name, (long long)v); return 1; }
        T->res[T->pc++] = v; memset(T->r, 0, sizeof T->r); memset(T->stk, 0, STK); begin(s, t);
    }
    return 1;
}
static State *pool; static int *hnext, *hhead; static int np, cap; static int *eto, *efrom, *enx; static int ne, ecap; 
enum { HB = 1 << 18 };
static uint64_t hash(const State *s) { const uint64_t *p = (const uint64_t *)s; uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < sizeof *s / 8; i++) { h ^= p[i]; h *= 1099511628211ull; h ^= h >> 29; } return h; }
static int add(const State *s) {
    uint64_t h = hash(s) % HB; for (int i = hhead[h]; i >= 0; i = hnext[i]) if (!memcmp(&pool[i], s, sizeof *s)) return i;
    if (np == cap) { cap = cap ? cap * 2 : 4096; pool = realloc(pool, cap * sizeof *pool); hnext = realloc(hnext, cap * sizeof *hnext); }
    memcpy(&pool[np], s, sizeof *s); hnext[np] = hhead[h]; hhead[h] = np; return np++;
}
/* every operation on every combination of values, on the processor, against arithmetic on unsigned integers */
static long gn, gbad;
static void one(int o, int64_t old, int64_t a, int64_t b) {
    static uint64_t m[3]; int w = OPS[o].w; uint64_t mask = w == 8 ? ~0ull : (1ull << 8 * w) - 1; const char *n = OPS[o].name; uint64_t O = (uint64_t)old & mask, A = (uint64_t)a & mask, N = O, R = 0; gn++;
    const char *k = strrchr(n, '_') + 1; int c = 0;
    if (!strncmp(k, "load", 4)) R = O; else if (!strncmp(k, "store", 5)) N = A; else if (!strncmp(k, "add", 3)) { R = O; N = O + A; } else if (!strncmp(k, "sub", 3)) { R = O; N = O - A; }
    else if (!strncmp(k, "exch", 4)) { R = O; N = A; } else if (!strncmp(k, "cas", 3)) { c = O == A; if (c) N = (uint64_t)b & mask; R = c; } else if (!strncmp(k, "and", 3)) { R = O; N = O & A; } else if (!strncmp(k, "or", 2)) { R = O; N = O | A; } else if (!strncmp(k, "xor", 3)) { R = O; N = O ^ A; } else return;
    for (int off = 0; off < 8; off += w) {
        m[0] = 0xa5a5a5a5a5a5a5a5ull; m[1] = 0x5a5a5a5a5a5a5a5aull; m[2] = 0x3c3c3c3c3c3c3c3cull; uint64_t e = m[1] & ~(mask << 8 * off); m[1] = e | O << 8 * off; e |= (N & mask) << 8 * off;
        int64_t r = ((int64_t (*)(void *, int64_t, int64_t))OPS[o].fn)((char *)&m[1] + off, a, b);
        uint64_t q = OPS[o].r == 8 ? (uint64_t)r : OPS[o].r == 4 ? (uint32_t)r : OPS[o].r == 1 ? (uint8_t)r : R & 0xff;
        if (OPS[o].r && q != (OPS[o].r == 1 ? R & 0xff : R)) { if (gbad++ < 10) printf("BAD %s of %llx with %lld, %lld returns %llx instead of %llx\n", n, (long long)O, (long long)a, (long long)b, (long long)q, (long long)R); return; }
        if (m[0] != 0xa5a5a5a5a5a5a5a5ull || m[2] != 0x3c3c3c3c3c3c3c3cull || m[1] != e) { if (gbad++ < 10) printf("BAD %s of %llx with %lld, %lld leaves %llx %llx %llx instead of the middle %llx\n", n, (long long)O, (long long)a, (long long)b, (long long)m[0], (long long)m[1], (long long)m[2], (long long)e); return; }
    }
}
static int grid(int deep) {
    static int64_t v[400]; int n = 0; for (int i = 0; i < 64; i += deep ? 1 : 4) { int64_t p = (int64_t)(1ull << (i == 60 ? 63 : i)); v[n++] = p; v[n++] = p - 1; v[n++] = -p; if (deep) { v[n++] = p + 1; v[n++] = ~p; } }
    v[n++] = 0; v[n++] = 0x0123456789abcdefLL; v[n++] = -0x0123456789abcdefLL; v[n++] = 0x8000000080000000LL;
    for (int o = 0; o < NOPS; o++) {
        if (!OPS[o].w || strstr(OPS[o].name, "spin") || strstr(OPS[o].name, "plain")) continue;
        int cas = strstr(OPS[o].name, "cas") != NULL;
        if (OPS[o].w == 1) { for (int a = 0; a < 256; a++) for (int b = 0; b < 256; b++) { if (!cas) { one(o, a, b, 0); continue; } for (int d = 0; d < 256; d += a == b || deep ? 1 : 51) one(o, a, b, d); } continue; }
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { if (!cas) { one(o, v[i], v[j], 0); continue; } for (int d = 0; d < n; d++) one(o, v[i], v[j], v[d]); }
    }
    printf("GRID %ld %ld\n", gn, gbad); return 0;
}
int main(int argc, char **argv) {
    if (!strcmp(argv[1], "grid")) return grid(argc > 2);
    area = aligned_alloc(4096, 4096); stacks = calloc(MAXT, 65536); hhead = malloc(HB * sizeof *hhead);
    stack_t ss = {malloc(1 << 16), 0, 1 << 16}; sigaltstack(&ss, NULL);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onTrap; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; sigaction(SIGTRAP, &sa, NULL); sigaction(SIGSEGV, &sa, NULL); sigaction(SIGILL, &sa, NULL); sigaction(SIGBUS, &sa, NULL);
    FILE *f = fopen(argv[1], "r"); unsigned long ad; char kd; int w, b, ix, scl; long di; 
    if (fscanf(f, "%lx %lx", &lo, &hi) != 2) return 2;
    tab = calloc(hi - lo + 1, sizeof *tab);
    while (fscanf(f, "%lx %c %d %d %d %d %ld", &ad, &kd, &w, &b, &ix, &scl, &di) == 7) { tab[ad - lo].kind = kd; tab[ad - lo].w = w; tab[ad - lo].base = b; tab[ad - lo].idx = ix; tab[ad - lo].scale = scl; tab[ad - lo].disp = di; }
    static char line[4096]; long maxst = argc > 2 ? atol(argv[2]) : 200000;
    while (fgets(line, sizeof line, stdin)) {
        State s; memset(&s, 0, sizeof s); char *p = line; tso = strtol(p, &p, 10); for (int i = 0; i < 4; i++) s.mem[i] = strtoll(p, &p, 0);
        nth = 0; trouble[0] = 0;
        while (*p == ' ') p++;
        while (*p == ';') { p++; int n = 0; while (*p == ' ') p++;
            while (*p && *p != ';' && *p != '\n') { char nm[64]; int q = 0; while (*p != ',') nm[q++] = *p++; nm[q] = 0; int o = 0; while (o < NOPS && strcmp(OPS[o].name, nm)) o++; if (o == NOPS) { printf("TROUBLE no %s\n", nm); return 2; }
                sc[nth][n].op = o; sc[nth][n].word = strtol(p + 1, &p, 10); sc[nth][n].byte = strtol(p + 1, &p, 10); sc[nth][n].a = strtoll(p + 1, &p, 10); sc[nth][n].b = strtoll(p + 1, &p, 10); n++; while (*p == ' ') p++; }
            nops[nth++] = n; }
        np = 0; ne = 0; memset(hhead, 0xff, HB * sizeof *hhead);
        for (int t = 0; t < nth; t++) begin(&s, t);
        add(&s); long trans = 0; int cut = 0;
        for (int i = 0; i < np && !trouble[0]; i++) {
            if (np > maxst) { cut = 1; break; }
            for (int t = 0; t < nth && !trouble[0]; t++) for (int k = 0; k < 3 && !trouble[0]; k++) {
                State n; memcpy(&n, &pool[i], sizeof n); if (!move(&n, t, k)) continue; trans++;
                int j = add(&n); if (ne == ecap) { ecap = ecap ? ecap * 2 : 8192; efrom = realloc(efrom, ecap * sizeof(int)); eto = realloc(eto, ecap * sizeof(int)); } efrom[ne] = i; eto[ne++] = j;
            }
        }
        printf("STATES %d TRANS %ld CUT %d\n", np, trans, cut);
        if (trouble[0]) printf("TROUBLE %s\n", trouble);
        else if (!cut) {
            char *ok = calloc(np, 1); int left = 0; int *q = malloc(np * sizeof *q), nq = 0; int *head = malloc(np * sizeof *head); memset(head, 0xff, np * sizeof *head); enx = malloc((ne + 1) * sizeof *enx); for (int e = 0; e < ne; e++) { enx[e] = head[eto[e]]; head[eto[e]] = e; }
            for (int i = 0; i < np; i++) { int fin = 1; for (int t = 0; t < nth; t++) if (pool[i].t[t].pc < nops[t] || pool[i].t[t].nb) fin = 0; if (fin) { ok[i] = 1; q[nq++] = i; printf("END"); for (int t = 0; t < nth; t++) for (int o = 0; o < nops[t]; o++) printf(" %lld", (long long)pool[i].t[t].res[o]); printf(" |"); for (int m = 0; m < 4; m++) printf(" %lld", (long long)pool[i].mem[m]); printf("\n"); } }
            for (int a = 0; a < nq; a++) for (int e = head[q[a]]; e >= 0; e = enx[e]) if (!ok[efrom[e]]) { ok[efrom[e]] = 1; q[nq++] = efrom[e]; }
            for (int i = 0; i < np; i++) left += !ok[i];
            if (left) printf("STUCK %d\n", left);
            free(ok); free(q); free(head); free(enx);
        }
        puts("."); fflush(stdout);
    }
    return 0;
}
