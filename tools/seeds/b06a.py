ID='b06-day-zero'; PROPERTY='B06'
NEEDS='a date whose day is 00'
BREAKS='day 00 is accepted'
EDITS=[('src/blogc/datetime-parser.c','if (tmp < 1 || tmp > 31) {','if (tmp < 0 || tmp > 31) {')]
LINK=['common', 'blogc']
FILES={'demo.c':'''#include "common/utils.h"
#include "common/error.h"
#include "blogc/datetime-parser.h"
#include <string.h>
int main(void) {
    bc_error_t *e = NULL;
    char *a = blogc_convert_datetime("2010-01-01", "%Y", &e);
    if (!a || e || strcmp(a, "2010")) return 1;
    return blogc_convert_datetime("2010-01-00", "%Y", &e) != NULL || e == NULL;
}
'''}
