ID='m06-short-write-restart'; PROPERTY='M06'
NEEDS='a write that stores only a part of the buffer'
BREAKS='after a short write the copy goes on from the start of the buffer, so the destination differs from the source'
EDITS=[('src/blogc-make/exec-native.c','''            nread -= nwritten;
            out_ptr += nwritten;''','''            nread -= nwritten;
            if (nread < 0)
                out_ptr += nwritten;''')]
LINK=['common', 'blogc-make']
FILES={'demo.c':'''#include "common/utils.h"
#include "blogc-make/ctx.h"
#include "blogc-make/exec-native.h"
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <sys/syscall.h>
ssize_t write(int fd, const void *b, size_t n) { return syscall(SYS_write, fd, b, fd > 2 && n > 7 ? 7 : n); }
int main(void) {
    FILE *f = fopen("a", "w"); fputs("0123456789abcdefghij", f); fclose(f);
    bm_filectx_t s = {.path = "a", .short_path = "a"}, d = {.path = "d/b", .short_path = "d/b"};
    if (bm_exec_native_cp(&s, &d, false)) return 1;
    char x[64] = ""; f = fopen("d/b", "r"); fread(x, 1, 63, f);
    return strcmp(x, "0123456789abcdefghij");
}
'''}
