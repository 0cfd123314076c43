#include "drv.h"
#include "common.h"
#include "blogc-git-receiver/shell-command-parser.h"
#include "blogc-git-receiver/pre-receive-parser.h"
#include "common/utils.h"
static void handle(const char *cmd, int n, arg_t *a)
{
    if (handle_common(cmd, n, a)) return;
    if (!strcmp(cmd, "command")) { char *r = bgr_shell_command_parse(a[0].s); os(r); free(r); }
    else if (!strcmp(cmd, "refs")) { bc_trie_t *t = bgr_pre_receive_parse(a[0].b, a[0].len); otrie(t); bc_trie_free(t); }
    else os("unknown command");
}
