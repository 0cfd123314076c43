ID='b01-reserved-prefix'; PROPERTY='B01'
NEEDS='a header whose name starts with the reserved name FILENAME'
BREAKS='header names that only start with a reserved name are refused'
EDITS=[('src/blogc/source-parser.c','''if (((current - start == 8) &&
                         (0 == strncmp("FILENAME"''','''if (((current - start >= 8) &&
                         (0 == strncmp("FILENAME"''')]
LINK=['common', 'blogc']
FILES={'demo.c':'''#include "common/utils.h"
#include "common/error.h"
#include "blogc/source-parser.h"
#include <string.h>
int main(void) {
    const char *s = "FILENAME_2: x\\nA: b\\n----\\nhello\\n";
    bc_error_t *e = NULL;
    bc_trie_t *t = blogc_source_parse(s, strlen(s), 0, &e);
    return !t || strcmp(bc_trie_lookup(t, "FILENAME_2"), "x");
}
'''}
