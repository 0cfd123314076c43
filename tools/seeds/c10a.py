ID='c10-chunkwise-validation'; PROPERTY='C10'
NEEDS='a UTF-8 file in which a multibyte character crosses a read chunk boundary'
BREAKS='valid UTF-8 files are refused when a character is split between two chunks'
EDITS=[('src/common/file.c','''        *len += read_len;
        bc_string_append_len(str, tmp, read_len);
    }
    fclose(fp);

    if (utf8 && !bc_utf8_validate_str(str)) {''','''        *len += read_len;
        bc_string_append_len(str, tmp, read_len);
        if (utf8 && valid)
            valid = bc_utf8_validate((uint8_t*) tmp, read_len);
    }
    fclose(fp);

    if (!valid) {'''),('src/common/file.c','''    char *tmp;

    while (!feof(fp)) {''','''    char *tmp;
    bool valid = true;

    while (!feof(fp)) {''')]
LINK=['common']
FILES={'demo.c':'''#include "common/file.h"
#include "common/error.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
int main(void) {
    for (int n = 1000; n < 1100; n++) {
        FILE *f = fopen("x.txt", "w");
        for (int i = 0; i < n; i++) fputc('a', f);
        fputs("\\xc3\\xa9", f);
        fclose(f);
        size_t len; bc_error_t *e = NULL;
        char *c = bc_file_get_contents("x.txt", true, &len, &e);
        if (!c || e || len != (size_t) n + 2) return 1;
        free(c);
    }
    return 0;
}
'''}
