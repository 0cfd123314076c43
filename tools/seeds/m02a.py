ID='m02-double-separator'; PROPERTY='M02'
NEEDS='a prefix and a second prefix with an empty name between them'
BREAKS='two separators between the prefixes when the name is empty'
EDITS=[('src/blogc-make/utils.c','''    if (have_fname && have_prefix2)
        bc_string_append_c(p, '/');''','''    if (fname != NULL && have_prefix2)
        bc_string_append_c(p, '/');''')]
LINK=['common', 'blogc-make']
FILES={'demo.c':'''#include "common/utils.h"
#include "blogc-make/utils.h"
#include <string.h>
int main(void) {
    if (strcmp(bm_generate_filename2("o", NULL, "a", "f", "b", "g", ".html"), "o/a/f/b/g.html")) return 1;
    return strcmp(bm_generate_filename2("o", NULL, "a", "", "b", "g", ".html"), "o/a/b/g.html");
}
'''}
