ID='b07-first-page-past-end'; PROPERTY='B07'
NEEDS='a page number beyond the last page'
BREAKS='an empty page past the last one is given FIRST_PAGE'
EDITS=[('src/blogc/loader.c','if (bc_slist_length(rv) > 0)\n            bc_trie_insert(conf, "FIRST_PAGE"','if (counter > 0)\n            bc_trie_insert(conf, "FIRST_PAGE"')]
LINK=['common', 'blogc']
FILES={'demo.c':'''#include "common/utils.h"
#include "common/error.h"
#include "blogc/loader.h"
#include <stdio.h>
#include <string.h>
static bc_trie_t *load(const char *page) {
    bc_trie_t *c = bc_trie_new(NULL);
    bc_trie_insert(c, "FILTER_PAGE", (char*) page);
    bc_trie_insert(c, "FILTER_PER_PAGE", "1");
    bc_slist_t *l = bc_slist_append(NULL, "s.txt");
    bc_error_t *e = NULL;
    blogc_source_parse_from_files(c, l, &e);
    return e ? NULL : c;
}
int main(void) {
    FILE *f = fopen("s.txt", "w"); fputs("A: b\\n---\\nc\\n", f); fclose(f);
    bc_trie_t *a = load("1"), *b = load("3");
    return !a || !b || !bc_trie_lookup(a, "FIRST_PAGE") || bc_trie_lookup(b, "FIRST_PAGE");
}
'''}
