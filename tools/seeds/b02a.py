ID='b02-cleaner-leaks'; PROPERTY='B02'
NEEDS='a whitespace cleaner after a statement directly followed by another statement, with text after that one'
BREAKS='the whitespace of a later text is removed although no cleaner is next to it'
EDITS=[('src/blogc/template-parser.c', '                    else\n                        lstrip_next = false;\n                    break;\n                }\n                state = TEMPLATE_START;', '                    break;\n                }\n                state = TEMPLATE_START;')]
LINK=['common', 'blogc']
FILES={'demo.c':'#include "common/utils.h"\n#include "common/error.h"\n#include "blogc/template-parser.h"\n#include "blogc/renderer.h"\n#include <string.h>\nstatic int is(const char *s, const char *x) {\n    bc_error_t *e = NULL;\n    bc_slist_t *t = blogc_template_parse(s, strlen(s), &e);\n    bc_trie_t *c = bc_trie_new(NULL);\n    bc_trie_insert(c, "A", "1");\n    if (!t) return 0;\n    char *r = blogc_render(t, NULL, NULL, c, false);\n    return !strcmp(r, x);\n}\nint main(void) { return !(is("{% ifdef A -%}  x{{ A }} y{% endif %}", "x1 y") && is("{% ifdef A -%}{{ A }} y{% endif %}", "1 y")); }\n'}
