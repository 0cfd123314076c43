ID='c04-rstrip-vertical-tab'; PROPERTY='C04'
NEEDS='a string that ends in a vertical tab'
BREAKS='a trailing vertical tab is no longer stripped although a leading one is'
EDITS=[('src/common/utils.c','''            (str[i] != '\\v'))
        {
            str[i + 1] = '\\0';''','''            (str[i] != '\\b'))
        {
            str[i + 1] = '\\0';''')]
LINK=['common']
FILES={'demo.c':'''#include "common/utils.h"
#include <string.h>
int main(void) {
    char a[] = "\\v x \\f y \\v", b[] = " z\\v\\v\\t";
    if (strcmp(bc_str_strip(a), "x \\f y")) return 1;
    return strcmp(bc_str_rstrip(b), " z") != 0;
}
'''}
