#include "drv.h"
#include "common.h"
#include "blogc/content-parser.h"
#include "blogc/datetime-parser.h"
#include "blogc/filelist-parser.h"
#include "blogc/loader.h"
#include "blogc/renderer.h"
#include "blogc/source-parser.h"
#include "blogc/template-parser.h"
#include "blogc/toctree.h"
static void oflist(bc_slist_t *l) { oi(bc_slist_length(l)); for (bc_slist_t *x = l; x; x = x->next) os(x->data); }
/* reads a count at a[*i], then that many key/value pairs */
static bc_trie_t *rtrie(arg_t *a, int *i)
{
    long n = argi(a + (*i)++);
    if (n < 0) return NULL;
    bc_trie_t *t = bc_trie_new(free);
    for (long k = 0; k < n; k++, *i += 2) bc_trie_insert(t, a[*i].s, bc_strdup(a[*i + 1].s));
    return t;
}
static void ftrie(bc_trie_t *t) { if (t) bc_trie_free(t); }
static void onodes(bc_slist_t *l) { oi(bc_slist_length(l)); for (bc_slist_t *x = l; x; x = x->next) { blogc_template_node_t *n = x->data; oi(n->type); oi(n->op); os(n->data[0]); os(n->data[1]); } }
static void handle(const char *cmd, int n, arg_t *a)
{
    if (handle_common(cmd, n, a)) return;
    if (IS("slug")) { char *r = blogc_slugify(a[0].s); os(r); free(r); }
    else if (IS("entities")) { char *r = blogc_htmlentities(a[0].s); os(r); free(r); }
    else if (IS("fixdesc")) { char *r = blogc_fix_description(a[0].s); os(r); free(r); }
    else if (IS("inline")) { char *r = blogc_content_parse_inline(a[0].s); os(r); free(r); }
    else if (IS("olitem")) oi(blogc_is_ordered_list_item(a[0].s, argi(a + 1)));
    else if (IS("content")) {
        size_t ee = 0; char *fh = NULL, *d = NULL, *endl = NULL; bc_slist_t *h = NULL;
        char *r = blogc_content_parse(a[0].s, &ee, &fh, &d, &endl, &h);
        os(r); oi(ee); os(fh); os(d); os(endl); oi(bc_slist_length(h));
        for (bc_slist_t *x = h; x; x = x->next) { blogc_toctree_header_t *t = x->data; oi(t->level); os(t->slug); os(t->text); }
        free(r); free(fh); free(d); free(endl); blogc_toctree_free(h);
        char *r2 = blogc_content_parse(a[0].s, NULL, NULL, NULL, NULL, NULL); os(r2); free(r2);
    }
    else if (IS("datetime")) { bc_error_t *e = NULL; char *r = blogc_convert_datetime(a[0].s, a[1].s, &e); os(r); oerr(e); free(r); bc_error_free(e); }
    else if (IS("filelist")) { bc_slist_t *l = blogc_filelist_parse(a[0].b, a[0].len); oflist(l); bc_slist_free_full(l, free); }
    else if (IS("toctree")) {   /* maxdepth endl {level slug text} */
        bc_slist_t *h = NULL;
        for (int i = 2; i + 2 < n; i += 3) h = blogc_toctree_append(h, argi(a + i), a[i + 1].s, a[i + 2].s);
        oi(bc_slist_length(h));
        char *r = blogc_toctree_render(h, argi(a), a[1].s); os(r); free(r); blogc_toctree_free(h);
    }
    else if (IS("source")) { bc_error_t *e = NULL; bc_trie_t *t = blogc_source_parse(a[0].b, a[0].len, argi(a + 1), &e); oerr(e); otrie(t); ftrie(t); bc_error_free(e); }
    else if (IS("template")) { bc_error_t *e = NULL; bc_slist_t *l = blogc_template_parse(a[0].b, a[0].len, &e); oerr(e); onodes(l); blogc_template_free_ast(l); bc_error_free(e); }
    else if (IS("render")) {   /* template listing global nsources sources.. nentries entries.. */
        bc_error_t *e = NULL; int i = 2; bc_slist_t *s = NULL, *le = NULL;
        bc_slist_t *l = blogc_template_parse(a[0].b, a[0].len, &e);
        oerr(e); bc_error_free(e);
        bc_trie_t *g = rtrie(a, &i);
        for (long k = argi(a + i++); k > 0; k--) s = bc_slist_append(s, rtrie(a, &i));
        for (long k = argi(a + i++); k > 0; k--) le = bc_slist_append(le, rtrie(a, &i));
        char *r = blogc_render(l, s, le, g, argi(a + 1)); os(r); free(r);
        blogc_template_free_ast(l); ftrie(g); bc_slist_free_full(s, (bc_free_func_t) ftrie); bc_slist_free_full(le, (bc_free_func_t) ftrie);
    }
    else if (IS("variable")) {   /* name foreach_name item global local */
        int i = 3; bc_trie_t *g = rtrie(a, &i), *l = rtrie(a, &i);
        bc_slist_t *f = a[2].s ? bc_slist_append(NULL, bc_strdup(a[2].s)) : NULL;
        os(blogc_get_variable(a[0].s, g, l));
        char *r = blogc_format_variable(a[0].s, g, l, a[1].s, f); os(r); free(r);
        bc_slist_t *v = blogc_split_list_variable(a[0].s, g, l); oflist(v);
        bc_slist_free_full(v, free); bc_slist_free_full(f, free); ftrie(g); ftrie(l);
    }
    else if (IS("filename")) { char *r = blogc_get_filename(a[0].s); os(r); free(r); }
    else if (IS("files")) {   /* config, then file names */
        int i = 0; bc_trie_t *g = rtrie(a, &i); bc_slist_t *l = NULL; bc_error_t *e = NULL;
        for (; i < n; i++) l = bc_slist_append(l, bc_strdup(a[i].s));
        bc_slist_t *s = blogc_source_parse_from_files(g, l, &e);
        oerr(e); oi(bc_slist_length(s));
        for (bc_slist_t *x = s; x; x = x->next) { os(bc_trie_lookup(x->data, "FILENAME")); os(bc_trie_lookup(x->data, "RAW_CONTENT")); }
        otrie(g);
        bc_slist_free_full(s, (bc_free_func_t) bc_trie_free); bc_slist_free_full(l, free); bc_error_free(e); ftrie(g);
    }
    else os("unknown command");
}
