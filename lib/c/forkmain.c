/* Linked into compiled programs with -Wl,--wrap=main. With VERIF_FORK set, reads
 * one case per line from stdin (arguments separated by \x1f), runs the program's
 * main in a forked child for each, and writes "status outlen errlen\n" + both
 * texts. status is the exit code, or 1000 + signal, or 2000 for a time-out. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <errno.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/resource.h>
extern int __real_main(int, char **);
static char buf[1 << 16];
static void dump(int fd, long n, long cap) {
    lseek(fd, 0, SEEK_SET);
    if (n > cap) n = cap;
    while (n > 0) { ssize_t k = read(fd, buf, n < (long)sizeof buf ? (size_t)n : sizeof buf);
        if (k <= 0) break; fwrite(buf, 1, k, stdout); n -= k; }
}
int __wrap_main(int argc, char **argv) {
    if (!getenv("VERIF_FORK")) return __real_main(argc, argv);
    int tmo = atoi(getenv("VERIF_FORK"));
    unsetenv("VERIF_FORK");
    int fo = memfd_create("o", MFD_CLOEXEC), fe = memfd_create("e", MFD_CLOEXEC);
    char *line = NULL; size_t cap = 0; ssize_t n;
    while ((n = getline(&line, &cap, stdin)) > 0) {
        if (line[n - 1] == '\n') line[--n] = 0;
        char *av[4096]; int ac = 0; av[ac++] = argv[0];
        if (n) { char *p = line; for (;;) { char *q = strchr(p, 0x1f); if (ac < 4094) av[ac++] = p; if (!q) break; *q = 0; p = q + 1; } }
        av[ac] = NULL;
        ftruncate(fo, 0); ftruncate(fe, 0); lseek(fo, 0, SEEK_SET); lseek(fe, 0, SEEK_SET);
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
            int z = open("/dev/null", O_RDONLY); dup2(z, 0); if (z > 2) close(z);
            dup2(fo, 1); dup2(fe, 2);
            fcntl(1, F_SETFL, O_APPEND); fcntl(2, F_SETFL, O_APPEND);
            struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
            alarm(tmo > 0 ? tmo : 60);
            exit(__real_main(ac, av));
        }
        int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        int code = WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st) == SIGALRM ? 2000 : 1000 + WTERMSIG(st);
        struct stat so, se; fstat(fo, &so); fstat(fe, &se);
        long lo = so.st_size > (64 << 20) ? (64 << 20) : so.st_size, le = se.st_size > 4096 ? 4096 : se.st_size;
        printf("%d %ld %ld\n", code, lo, le);
        dump(fo, lo, lo); dump(fe, le, le);
    }
    fflush(stdout);
    _exit(0);
}
