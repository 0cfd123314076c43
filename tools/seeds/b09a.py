ID='b09-last-single-character'; PROPERTY='B09'
NEEDS='a list ending in a name of one character without line ending'
BREAKS='a last name of a single character is lost'
EDITS=[('src/blogc/filelist-parser.c','''                state = LINE;
                continue;''','''                state = LINE;
                bc_string_append_c(line, c);
                break;''')]
LINK=['common', 'blogc']
FILES={'demo.c':'''#include "common/utils.h"
#include "blogc/filelist-parser.h"
#include <string.h>
int main(void) {
    bc_slist_t *l = blogc_filelist_parse("ab\\nc", 4);
    return bc_slist_length(l) != 2 || strcmp(l->next->data, "c");
}
'''}
