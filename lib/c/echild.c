/* The program which os.exec runs in C37: does what its arguments say.
 * a: print all arguments after it, length-prefixed.  E NAME..: print variables.  F: list open fds.
 * Otherwise a list of operations: oN/eN write N bytes of a position-dependent pattern, co/ce close a stream,
 * xN exit, kN kill itself by signal N, s wait 2 ms, S stop the parent for 2 ms, fN.. rest of the operations run in a forked child while the parent waits (f) or leaves (g),
 * wPATH wait until PATH exists, tPATH create PATH, i copy stdin to stdout, p print the parent's pid, q own pid */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <fcntl.h>
#include <dirent.h>
#include <errno.h>
#include <sys/wait.h>
static void nap(long ms) { struct timespec t = {ms / 1000, ms % 1000 * 1000000}; nanosleep(&t, 0); }
static void all(int fd, const char *p, size_t n) {
    while (n) { ssize_t k = write(fd, p, n); if (k < 0) { if (errno == EINTR) continue; _exit(99); } p += k; n -= (size_t)k; }
}
static void pr(const char *s) { char b[32]; int n = snprintf(b, sizeof b, "%zu:", strlen(s)); all(1, b, (size_t)n); all(1, s, strlen(s)); }
static size_t pos[3];
static void wr(int fd, size_t n) {
    char b[4096];
    while (n) {
        size_t k = n < sizeof b ? n : sizeof b;
        for (size_t i = 0; i < k; i++) b[i] = (char)((pos[fd] + i) * 7 + ((pos[fd] + i) >> 8) + (fd == 1 ? 65 : 5));
        all(fd, b, k); pos[fd] += k; n -= k;
    }
}
int main(int argc, char **argv) {
    if (argc > 1 && !strcmp(argv[1], "a")) { pr(argv[0]); for (int i = 2; i < argc; i++) pr(argv[i]); return 0; }
    if (argc > 1 && !strcmp(argv[1], "E")) { for (int i = 2; i < argc; i++) { char *v = getenv(argv[i]); if (v) pr(v); else all(1, "-", 1); } return 0; }
    if (argc > 1 && !strcmp(argv[1], "F")) {
        int m = 0; for (int i = 0; i < 4096; i++) if (fcntl(i, F_GETFD) >= 0) { char b[16]; int n = snprintf(b, sizeof b, "%d,", i); all(1, b, (size_t)n); m++; }
        return m;
    }
    for (int i = 1; i < argc; i++) {
        char *a = argv[i];
        switch (a[0]) {
        case 'o': wr(1, strtoul(a + 1, 0, 10)); break;
        case 'e': wr(2, strtoul(a + 1, 0, 10)); break;
        case 'c': close(a[1] == 'o' ? 1 : 2); break;
        case 'x': _exit(atoi(a + 1));
        case 'k': signal(atoi(a + 1), SIG_DFL); kill(getpid(), atoi(a + 1)); nap(5000); break;
        case 's': nap(2); break;
        case 'S': { pid_t p = getppid(); kill(p, SIGSTOP); nap(2); kill(p, SIGCONT); break; }
        case 'f': { int st; pid_t p = fork(); if (p) { waitpid(p, &st, 0); return WEXITSTATUS(st); } break; }
        case 'g': if (fork()) _exit(atoi(a + 1)); break;
        case 'w': for (int k = 0; k < 10000 && access(a + 1, F_OK); k++) nap(1); break;
        case 't': close(open(a + 1, O_CREAT | O_WRONLY, 0600)); break;
        case 'i': { char b[4096]; ssize_t n; while ((n = read(0, b, sizeof b)) > 0) all(1, b, (size_t)n); break; }
        case 'p': { char b[16]; int n = snprintf(b, sizeof b, "%d", (int)getppid()); all(1, b, (size_t)n); break; }
        case 'q': { char b[16]; int n = snprintf(b, sizeof b, "%d", (int)getpid()); all(1, b, (size_t)n); break; }
        default: _exit(98);
        }
    }
    return 0;
}
