ID='c03-sort-pass-limit'; PROPERTY='C03'
NEEDS='a list of more than 65 elements in nearly reverse order'
BREAKS='the sort gives up after a fixed number of passes and returns an unsorted list'
EDITS=[('src/common/sort.c','''    bool swapped = false;
    bc_slist_t *lptr''','''    bool swapped = false;
    unsigned char passes = 64;  // comparison functions may be inconsistent
    bc_slist_t *lptr'''),('src/common/sort.c','} while(swapped);','} while(swapped && passes-- > 0);')]
LINK=['common']
FILES={'demo.c':'''#include "common/utils.h"
#include "common/sort.h"
static int cmp(const void *a, const void *b) { return *(const int *) a - *(const int *) b; }
int main(void) {
    static int v[200];
    bc_slist_t *l = NULL;
    for (int i = 0; i < 200; i++) { v[i] = 200 - i; l = bc_slist_append(l, v + i); }
    l = bc_slist_sort(l, cmp);
    for (bc_slist_t *t = l; t->next; t = t->next) if (*(int *) t->data > *(int *) t->next->data) return 1;
    return 0;
}
'''}
