#include <stdio.h>
#include <stdlib.h>
#include "common/stdin.h"
int main(void)
{
    size_t n = 99;
    char *s = bc_stdin_read(&n);
    if (s == NULL) { printf("none:"); return 0; }
    printf("%zu:", n);
    fwrite(s, 1, n, stdout);
    if (s[n] != 0) return 3;
    free(s);
    return 0;
}
