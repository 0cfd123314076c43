ID='c07-error-inside-line-break'; PROPERTY='C07'
NEEDS='an error reported at the second character of a CR LF pair'
BREAKS='the column and the quoted line are wrong when the error is at the second character of a line break'
EDITS=[('src/common/error.c','''            if ((i + 1) < src_len) {
                if ((c ==''','''            if ((i + 1) < current) {
                if ((c ==''')]
LINK=['common']
FILES={'demo.c':'''#include "common/error.h"
#include "common/utils.h"
#include <string.h>
int main(void) {
    const char *s = "ab\\r\\ncd\\r\\nef";
    for (size_t i = 0; i < strlen(s); i++) {
        /* line of each offset; both characters of a pair are behind the line, the second one counts as the next */
        int line = i <= 2 ? 1 : i <= 6 ? 2 : 3;
        bc_error_t *e = bc_error_parser(BC_ERROR_CONFIG_PARSER, s, strlen(s), i, "m");
        const char *t = line == 1 ? ": ab" : line == 2 ? ": cd" : ": ef";
        char *p = strstr(e->msg, "near line ");
        if (!p || p[10] != '0' + line || strcmp(e->msg + strlen(e->msg) - 4, t)) return 1;
    }
    return 0;
}
'''}
