ID='b08-last-heading-lowest'; PROPERTY='B08'
NEEDS='a last heading that is of a higher rank than all headings before it'
BREAKS='the last heading is missing from the table'
EDITS=[('src/blogc/toctree.c', '        if (lower_level == 0 || lower_level > lv) {', '        if (lower_level == 0 || (lower_level > lv && l->next != NULL)) {')]
LINK=['common', 'blogc']
FILES={'demo.c':'#include "common/utils.h"\n#include "blogc/toctree.h"\n#include <string.h>\nint main(void) {\n    bc_slist_t *l = blogc_toctree_append(NULL, 3, "a", "A");\n    l = blogc_toctree_append(l, 4, "b", "B");\n    l = blogc_toctree_append(l, 2, "c", "C");\n    char *r = blogc_toctree_render(l, -1, NULL);\n    return !r || !strstr(r, "#a") || !strstr(r, "#b") || !strstr(r, "#c");\n}\n'}
