ID='b03-else-in-else-branch'; PROPERTY='B03'
NEEDS='a taken else branch that holds a condition that is met and has an else itself'
BREAKS='both branches of the inner condition are rendered'
EDITS=[('src/blogc/renderer.c', '                else {\n                    valid_else = false;\n                }\n                free(defined);', '                free(defined);')]
LINK=['common', 'blogc']
FILES={'demo.c':'#include "common/utils.h"\n#include "common/error.h"\n#include "blogc/template-parser.h"\n#include "blogc/renderer.h"\n#include <string.h>\nstatic int is(const char *s, const char *x) {\n    bc_error_t *e = NULL;\n    bc_slist_t *t = blogc_template_parse(s, strlen(s), &e);\n    bc_trie_t *c = bc_trie_new(NULL);\n    bc_trie_insert(c, "A", "1");\n    if (!t) return 0;\n    char *r = blogc_render(t, NULL, NULL, c, false);\n    return !strcmp(r, x);\n}\nint main(void) { return !(is("{% ifdef A %}x{% else %}y{% endif %}", "x") && is("{% ifdef U %}x{% else %}{% ifdef A %}y{% else %}z{% endif %}{% endif %}", "y")); }\n'}
