/* request/response loop shared by the drivers: every argument is a heap block of its exact size */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <stdint.h>
#include <unistd.h>
typedef struct { size_t len; char *b; char *s; } arg_t;   /* b: exact bytes, s: NUL-terminated copy */
static char *out; static size_t outlen, outcap;
static void ob(const void *p, size_t n) {
    if (outlen + n + 1 > outcap) { outcap = (outlen + n + 1) * 2; out = realloc(out, outcap); }
    memcpy(out + outlen, p, n); outlen += n;
}
static void os(const char *s) { if (s == NULL) ob("~", 1); else { char t[32]; int k = sprintf(t, "%zu:", strlen(s)); ob(t, k); ob(s, strlen(s)); } }
static void osn(const char *s, size_t n) { char t[32]; int k = sprintf(t, "%zu:", n); ob(t, k); ob(s, n); }
static void oi(long long v) { char t[32]; int k = sprintf(t, "#%lld;", v); ob(t, k); }
static void handle(const char *cmd, int n, arg_t *a);
static long argi(arg_t *a) { return atol(a->s); }
int main(int argc, char **argv)
{
    char cmd[64]; int n;
    setvbuf(stdout, NULL, _IOFBF, 1 << 16);
    while (scanf("%63s %d", cmd, &n) == 2) {
        arg_t *a = calloc(n + 1, sizeof(arg_t));
        for (int i = 0; i < n; i++) {
            long len;
            if (scanf("%ld", &len) != 1) return 3;
            getchar();
            if (len < 0) { a[i].b = a[i].s = NULL; a[i].len = 0; continue; }   /* NULL pointer */
            a[i].len = len; a[i].b = malloc(len ? len : 1); a[i].s = malloc(len + 1);
            if (len == 0) { free(a[i].b); a[i].b = malloc(0); if (!a[i].b) a[i].b = malloc(1); }
            if (fread(a[i].b, 1, len, stdin) != (size_t) len) return 3;
            memcpy(a[i].s, a[i].b, len); a[i].s[len] = 0;
            /* the exact copy stops at the first NUL for string use */
            size_t sl = strlen(a[i].s); char *e = malloc(sl + 1); memcpy(e, a[i].s, sl + 1); free(a[i].s); a[i].s = e;
        }
        outlen = 0;
        alarm(20);
        handle(cmd, n, a);
        alarm(0);
        printf("%zu\n", outlen); fwrite(out, 1, outlen, stdout); putchar('\n'); fflush(stdout);
        for (int i = 0; i < n; i++) { free(a[i].b); free(a[i].s); }
        free(a);
    }
    return 0;
}
