ID='c01-append-c-boundary'; PROPERTY='C01'
NEEDS='a string that grows one character at a time to exactly the buffer size (a multiple of 128)'
BREAKS='the terminator is written one byte past the allocated buffer'
EDITS=[('src/common/utils.c','''    str->len += 1;
    if (str->len + 1 > str->allocated_len) {''','''    str->len += 1;
    if (str->len > str->allocated_len) {''')]
LINK=['common']
FILES={'demo.c':'''#include "common/utils.h"
#include <string.h>
int main(void) {
    for (int n = 1; n < 600; n++) {
        bc_string_t *s = bc_string_new();
        for (int i = 0; i < n; i++) bc_string_append_c(s, 'a' + i % 26);
        if (s->len != (size_t) n || strlen(s->str) != (size_t) n || s->allocated_len <= s->len) return 1;
        bc_string_free(s, true);
    }
    return 0;
}
'''}
