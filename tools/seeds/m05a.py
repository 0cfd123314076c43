ID='m05-absolute-output-unquoted'; PROPERTY='M05'
NEEDS='an absolute output path with characters special to the shell'
BREAKS='absolute output paths are placed on the command line without quotes'
EDITS=[('src/blogc-make/exec.c','''    if (output != NULL) {
        char *tmp = bc_shell_quote(output);''','''    if (output != NULL) {
        char *tmp = output[0] == '/' && output[1] != '\\0' ? bc_strdup(output) :
            bc_shell_quote(output);''')]
LINK=['common', 'blogc-make']
FILES={'demo.c':'''#include "common/utils.h"
#include "blogc-make/exec.h"
#include <string.h>
int main(void) {
    char *a = bm_exec_build_blogc_cmd("blogc", NULL, NULL, NULL, NULL, false, NULL, "t", "o", false, false);
    if (strcmp(a, "blogc -t 't' -o 'o'")) return 1;
    a = bm_exec_build_blogc_cmd("blogc", NULL, NULL, NULL, NULL, false, NULL, "t", "/x y;z", false, false);
    return strcmp(a, "blogc -t 't' -o '/x y;z'");
}
'''}
