ID='c02-insert-high-bytes'; PROPERTY='C02'
NEEDS='two keys sharing a prefix whose next bytes differ only in the top bit'
BREAKS='inserting the second key goes down the branch of the first: the first binding is overwritten and the second is missing'
EDITS=[('src/common/utils.c','while (tmp != NULL && tmp->key != *key) {','while (tmp != NULL && ((tmp->key ^ *key) & 0x7f) != 0) {')]
LINK=['common']
FILES={'demo.c':'''#include "common/utils.h"
#include <string.h>
int main(void) {
    bc_trie_t *t = bc_trie_new(free);
    bc_trie_insert(t, "tagA", bc_strdup("1"));
    bc_trie_insert(t, "tag\\xc1", bc_strdup("2"));
    char *a = bc_trie_lookup(t, "tagA"), *b = bc_trie_lookup(t, "tag\\xc1");
    if (!a || !b || strcmp(a, "1") || strcmp(b, "2") || bc_trie_size(t) != 2) return 1;
    bc_trie_free(t);
    return 0;
}
'''.replace('#include <string.h>','#include <string.h>\n#include <stdlib.h>')}
