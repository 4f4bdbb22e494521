/* Stands in for the C compiler in C18: the "program" it makes prints the MARK_ in the C source and a hash of all of it. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
int main(int c, char **v) {
    char *out = 0, *in = 0;
    for (int i = 1; i < c; i++) {
        size_t n = strlen(v[i]);
        if (!strcmp(v[i], "--version")) return 0;
        if (!strcmp(v[i], "-o")) out = v[++i];
        else if (n > 2 && v[i][0] != '-' && !strcmp(v[i] + n - 2, ".c") && !in) in = v[i];
    }
    if (!out || !in) return 3;
    static char b[1 << 22]; int f = open(in, O_RDONLY); if (f < 0) return 4;
    size_t n = 0; ssize_t k; while ((k = read(f, b + n, sizeof b - 1 - n)) > 0) n += (size_t)k;
    close(f); b[n] = 0;
    unsigned long long h = 1469598103934665603ull; for (size_t i = 0; i < n; i++) h = (h ^ (unsigned char)b[i]) * 1099511628211ull;
    char *m = strstr(b, "MARK_"); char mk[64] = "none"; if (m) { size_t l = strcspn(m, "\"\\ \n"); if (l > 60) l = 60; memcpy(mk, m, l); mk[l] = 0; }
    if (strstr(b, "BADC_")) return 1;
    unlink(out); f = open(out, O_WRONLY | O_CREAT | O_TRUNC, 0600); if (f < 0) return 5;
    char t[256]; int l = snprintf(t, sizeof t, "#!/bin/sh\necho %s %016llx \"$@\"\n", mk, h);
    if (write(f, t, 10) != 10 || write(f, t + 10, (size_t)l - 10) != l - 10) return 6;
    close(f); chmod(out, 0755);
    return 0;
}
