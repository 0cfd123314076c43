ID='m04-hidden-entries'; PROPERTY='M04'
NEEDS='an output directory whose only remaining entry is a hidden file'
BREAKS='a directory that holds only hidden files is taken for empty, and cleaning fails on it'
EDITS=[('src/blogc-make/exec-native.c','''        if ((0 == strcmp(e->d_name, ".")) || (0 == strcmp(e->d_name, "..")))
            continue;''','''        if (e->d_name[0] == '.')
            continue;''')]
LINK=['common', 'blogc-make']
FILES={'demo.c':'''#include "common/utils.h"
#include "common/error.h"
#include "blogc-make/exec-native.h"
#include <stdio.h>
#include <sys/stat.h>
int main(void) {
    bc_error_t *e = NULL;
    mkdir("a", 0700); mkdir("b", 0700);
    FILE *f = fopen("b/.hidden", "w"); fclose(f);
    return !bm_exec_native_is_empty_dir("a", &e) || bm_exec_native_is_empty_dir("b", &e);
}
'''}
