ID='c05-stop-at-nul'; PROPERTY='C05'
NEEDS='input with a NUL byte followed by a malformed sequence'
BREAKS='bytes after an embedded NUL are no longer validated'
EDITS=[('src/common/utf8.c','''    for (size_t i = 0; i < len; i++)
        state''','''    for (size_t i = 0; i < len && (state != UTF8_ACCEPT || str[i] != 0); i++)
        state''')]
LINK=['common']
FILES={'demo.c':'''#include "common/utf8.h"
#include <string.h>
static int ok(const char *s, size_t n) { return bc_utf8_validate((const uint8_t*) s, n); }
int main(void) {
    if (!ok("a\\0b", 3) || !ok("", 0) || ok("\\xc3", 1) || ok("a\\xff", 2)) return 1;
    return ok("a\\0\\xff", 3) || ok("\\0\\xc3", 2);
}
'''}
