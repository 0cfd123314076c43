ID='m03-microseconds'; PROPERTY='M03'
NEEDS='two modification times that differ by less than a microsecond'
BREAKS='a source changed within the same microsecond is not seen as newer'
EDITS=[('src/blogc-make/ctx.c','if (buf.st_mtim_tv_nsec > ctx->tv_nsec) {','if (buf.st_mtim_tv_nsec / 1000 > ctx->tv_nsec / 1000) {')]
LINK=['common', 'blogc-make']
FILES={'demo.c':'''#include "common/utils.h"
#include "blogc-make/ctx.h"
#include <fcntl.h>
#include <stdio.h>
#include <sys/stat.h>
int main(void) {
    FILE *f = fopen("x", "w"); fclose(f);
    struct timespec t[2] = {{1000, 5000}, {1000, 5001}};
    if (utimensat(AT_FDCWD, "x", t, 0)) return 1;
    bm_filectx_t c = {.path = "x", .short_path = "x", .tv_sec = 1000, .tv_nsec = 5000};
    if (!bm_filectx_changed(&c, NULL, NULL)) return 1;
    c.tv_nsec = 5001;
    return bm_filectx_changed(&c, NULL, NULL);
}
'''}
