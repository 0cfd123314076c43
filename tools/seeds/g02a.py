ID='g02-empty-branch'; PROPERTY='G02'
NEEDS='a line whose ref is refs/heads/ with nothing after it'
BREAKS='a line with an empty branch name binds the empty name'
EDITS=[('src/blogc-git-receiver/pre-receive-parser.c','if ((current - start > 11) &&','if ((current - start >= 11) &&')]
LINK=['common', 'blogc-git-receiver']
FILES={'demo.c':'''#include "common/utils.h"
#include "blogc-git-receiver/pre-receive-parser.h"
#include <string.h>
int main(void) {
    const char *s = "0 abc refs/heads/\\n0 def refs/heads/x\\n";
    bc_trie_t *t = bgr_pre_receive_parse(s, strlen(s));
    return !t || bc_trie_lookup(t, "") || !bc_trie_lookup(t, "x") || strcmp(bc_trie_lookup(t, "x"), "def");
}
'''}
