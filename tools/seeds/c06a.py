ID='c06-quote-after-backslash'; PROPERTY='C06'
NEEDS='a quote character right after a backslash'
BREAKS="the quote is taken for already escaped and ends the quoted word, so the rest of the string is interpreted by the shell"
EDITS=[('src/common/utils.c','''                case '\\'':
                    bc_string_append(rv, "'\\\\''");''','''                case '\\'':
                    if (i > 0 && command[i - 1] == '\\\\') {
                        bc_string_append_c(rv, command[i]);
                        break;
                    }
                    bc_string_append(rv, "'\\\\''");''')]
LINK=['common']
FILES={'demo.c':'''#include "common/utils.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
int main(void) {
    const char *in[] = {"plain", "it's", "a\\\\'b 'c", "!x", "", NULL};
    for (int i = 0; in[i]; i++) {
        char *q = bc_shell_quote(in[i]);
        char *c = bc_strdup_printf("printf %%s %s", q);
        FILE *f = popen(c, "r"); char buf[100]; size_t n = fread(buf, 1, 99, f); buf[n] = 0;
        if (pclose(f) != 0 || strcmp(buf, in[i])) return 1;
    }
    return 0;
}
'''}
