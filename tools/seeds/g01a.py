ID='g01-archive-command-prefix'; PROPERTY='G01'
NEEDS='a command whose name extends git-upload-archive'
BREAKS='a command that only starts with git-upload-archive is accepted'
EDITS=[('src/blogc-git-receiver/shell-command-parser.c','((current == 18) &&','((current >= 18) &&')]
LINK=['common', 'blogc-git-receiver']
FILES={'demo.c':'''#include "blogc-git-receiver/shell-command-parser.h"
#include <string.h>
int main(void) {
    char *a = bgr_shell_command_parse("git-upload-archive 'x.git'");
    if (!a || strcmp(a, "x.git") || bgr_shell_command_parse("git-upload-packs 'x.git'")) return 1;
    return bgr_shell_command_parse("git-upload-archive;reboot 'x.git'") != 0;
}
'''}
