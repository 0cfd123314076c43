ID='b04-ordered-item-tab'; PROPERTY='B04'
NEEDS='an ordered list whose numbers are followed by a tab'
BREAKS='lines of an ordered list that use a tab after the number are not taken as items'
EDITS=[('src/blogc/content-parser.c',"for (i++; i < prefix_len && (str[i] == ' ' || str[i] == '\\t'); i++);","for (i++; i < prefix_len && str[i] == ' '; i++);")]
LINK=['common', 'blogc']
FILES={'demo.c':'''#include "common/utils.h"
#include "blogc/content-parser.h"
#include <string.h>
int main(void) {
    size_t n = 0;
    char *a = blogc_content_parse("1. a\\n2. b\\n", &n, NULL, NULL, NULL, NULL);
    char *b = blogc_content_parse("1.\\ta\\n2.\\tb\\n", &n, NULL, NULL, NULL, NULL);
    return strcmp(a, b) != 0;
}
'''}
