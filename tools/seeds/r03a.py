ID='r03-extension-case'; PROPERTY='R03'
NEEDS='a file whose extension is in the table but written in other case'
BREAKS='extensions are matched without regard to case'
EDITS=[('src/blogc-runserver/mime.c','if (0 == strcmp(content_types[i].extension, extension)) {','if (0 == strcasecmp(content_types[i].extension, extension)) {')]
LINK=['common', 'blogc-runserver']
FILES={'demo.c':'''#include "blogc-runserver/mime.h"
#include <string.h>
int main(void) {
    return strcmp(br_mime_guess_content_type("/a/b.css"), "text/css") || strcmp(br_mime_guess_content_type("/a/b.CSS"), "application/octet-stream");
}
'''}
