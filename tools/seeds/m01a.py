ID='m01-key-range'; PROPERTY='M01'
NEEDS='a global variable with one of [ \\ ] ^ in its name'
BREAKS='a global variable name with other characters than capitals, digits and underscores is accepted'
EDITS=[('src/blogc-make/settings.c', "                if (!((global[i][j] >= 'A' && global[i][j] <= 'Z') ||\n                      (global[i][j] >= '0' && global[i][j] <= '9') ||\n                       global[i][j] == '_')) {", "                if (!((global[i][j] >= 'A' && global[i][j] <= '_') ||\n                      (global[i][j] >= '0' && global[i][j] <= '9'))) {")]
LINK=['common', 'blogc-make']
FILES={'demo.c':'#include "common/utils.h"\n#include "common/error.h"\n#include "blogc-make/settings.h"\n#include <string.h>\nstatic int ok(const char *k) {\n    bc_string_t *s = bc_string_new();\n    bc_string_append_printf(s, "[global]\\nAUTHOR_NAME = a\\nAUTHOR_EMAIL = b\\nSITE_TITLE = c\\nSITE_TAGLINE = d\\nBASE_DOMAIN = e\\n%s = x\\n", k);\n    bc_error_t *e = NULL;\n    return bm_settings_parse(s->str, s->len, &e) != NULL;\n}\nint main(void) { return !(ok("A_B9") && !ok("a") && !ok("A-B") && !ok("A[B]")); }\n'}
