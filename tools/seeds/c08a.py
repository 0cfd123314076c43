ID='c08-list-section-prefix'; PROPERTY='C08'
NEEDS='a map section whose name starts with the name of a list section'
BREAKS='sections whose name extends the name of a list section are read as lists, their bindings lost'
EDITS=[('src/common/config-parser.c','''if (0 == strcmp(section_name, list_sections[i])) {''','''if (0 == strncmp(section_name, list_sections[i],
                                strlen(list_sections[i])))
                            {''')]
LINK=['common']
FILES={'demo.c':'''#include "common/config-parser.h"
#include "common/error.h"
#include <string.h>
int main(void) {
    const char *s = "[posts]\\na\\nb\\n[posts2]\\nk = v\\n";
    const char *l[] = {"posts", NULL};
    bc_error_t *e = NULL;
    bc_config_t *c = bc_config_parse(s, strlen(s), l, &e);
    if (!c || e) return 1;
    const char *v = bc_config_get(c, "posts2", "k");
    return v == NULL || strcmp(v, "v");
}
'''}
