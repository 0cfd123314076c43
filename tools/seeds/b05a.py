ID='b05-underscore-kept'; PROPERTY='B05'
NEEDS='a heading with an underscore'
BREAKS='an underscore stays in the slug instead of becoming a dash'
EDITS=[('src/blogc/content-parser.c', "        if (new_str[i] >= 'A' && new_str[i] <= 'Z')\n            new_str[i] += diff;\n", "        if (new_str[i] == '_')\n            continue;\n        if (new_str[i] >= 'A' && new_str[i] <= 'Z')\n            new_str[i] += diff;\n")]
LINK=['common', 'blogc']
FILES={'demo.c':'#include "common/utils.h"\n#include "blogc/content-parser.h"\n#include <string.h>\nint main(void) {\n    return strcmp(blogc_slugify("A b_c.9"), "a-b-c-9");\n}\n'}
