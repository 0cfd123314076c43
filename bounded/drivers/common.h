#include "common/utils.h"
#include "common/error.h"
#include "common/utf8.h"
#include "common/file.h"
#include "common/config-parser.h"
#include "common/sort.h"
static void oerr(bc_error_t *e) { if (e == NULL) { ob("~", 1); } else { oi(e->type); os(e->msg); } }
static void trie_cb(const char *k, void *d, void *u) { (*(long *) u)++; os(k); os(d); }
static void otrie(bc_trie_t *t) {
    if (t == NULL) { ob("~", 1); return; }
    oi(bc_trie_size(t)); long n = 0; bc_trie_foreach(t, trie_cb, &n); oi(n);
}
static void ostrv(char **v) { if (v == NULL) { ob("~", 1); return; } oi(bc_strv_length(v)); for (size_t i = 0; v[i]; i++) os(v[i]); }
static int cmp_first(const void *a, const void *b) { return (int) ((const unsigned char *) a)[0] - (int) ((const unsigned char *) b)[0]; }
static int nfreed;
static void count_free(void *p) { nfreed++; free(p); }

static int handle_common(const char *cmd, int n, arg_t *a)
{
#define IS(x) (strcmp(cmd, x) == 0)
    if (IS("string")) {   /* pairs op,arg */
        bc_string_t *s = bc_string_new();
        for (int i = 0; i + 1 < n; i += 2) {
            char op = a[i].s[0];
            bc_string_t *r = s;
            if (op == 'a') r = bc_string_append(s, a[i + 1].s);
            else if (op == 'l') r = bc_string_append_len(s, a[i + 1].b, a[i + 1].len);
            else if (op == 'c') r = bc_string_append_c(s, a[i + 1].b[0]);
            else if (op == 'e') r = bc_string_append_escaped(s, a[i + 1].s);
            else if (op == 'p') r = bc_string_append_printf(s, "<%s|%d>", a[i + 1].s ? a[i + 1].s : "", i);
            else if (op == 'd') { bc_string_t *d = bc_string_dup(s); bc_string_free(s, true); r = s = d; }
            if (r != s) { os("moved"); }
            oi(s->len); oi(s->str == NULL ? -1 : (long) (s->str[s->len] == 0)); oi(s->allocated_len > s->len);
        }
        size_t l = s->len;
        char *p = bc_string_free(s, false);
        if (p == NULL) ob("~", 1); else osn(p, l);
        free(p);
    }
    else if (IS("trie")) {   /* ops: i key val | l key ; then dump */
        bc_trie_t *t = bc_trie_new(count_free); nfreed = 0;
        for (int i = 0; i + 2 < n; i += 3) {
            if (a[i].s[0] == 'i') { char *d = bc_strdup(a[i + 2].s); bc_trie_insert(t, a[i + 1].s, d); if (!a[i + 1].s) free(d); oi(nfreed); }
            else os(bc_trie_lookup(t, a[i + 1].s));
        }
        otrie(t);
        int before = nfreed; bc_trie_free(t); oi(nfreed - before);
    }
    else if (IS("slist")) {
        bc_slist_t *l = NULL;
        for (int i = 0; i + 1 < n; i += 2) {
            char op = a[i].s[0];
            if (op == 'a') l = bc_slist_append(l, a[i + 1].s);
            else if (op == 'p') l = bc_slist_prepend(l, a[i + 1].s);
            else if (op == 'L') { bc_slist_t *m = NULL; for (char *q = a[i + 1].s; *q; q++) m = bc_slist_append(m, a[i + 1].s); l = bc_slist_append_list(l, m); }
            else if (op == 's') l = bc_slist_sort(l, cmp_first);
            oi(bc_slist_length(l));
        }
        for (bc_slist_t *x = l; x; x = x->next) os(x->data);
        bc_slist_free(l);
    }
    else if (IS("slist_free_full")) {
        bc_slist_t *l = NULL; nfreed = 0;
        for (int i = 0; i < n; i++) l = bc_slist_append(l, bc_strdup(a[i].s));
        bc_slist_free_full(l, count_free); oi(nfreed);
    }
    else if (IS("strdup")) { char *p = bc_strdup(a[0].s); os(p); free(p); }
    else if (IS("strndup")) { char *p = bc_strndup(a[0].s, argi(a + 1)); os(p); free(p); }
    else if (IS("isspace")) { for (int c = -1; c < 256; c++) oi(bc_isspace(c)); }
    else if (IS("starts")) oi(bc_str_starts_with(a[0].s, a[1].s));
    else if (IS("ends")) oi(bc_str_ends_with(a[0].s, a[1].s));
    else if (IS("lstrip")) os(bc_str_lstrip(a[0].s));
    else if (IS("rstrip")) os(bc_str_rstrip(a[0].s));
    else if (IS("strip")) os(bc_str_strip(a[0].s));
    else if (IS("split")) { char **v = bc_str_split(a[0].s, a[1].b[0], argi(a + 2)); ostrv(v); bc_strv_free(v); }
    else if (IS("replace")) { char *v = bc_str_replace(a[0].s, a[1].b[0], a[2].s); os(v); free(v); }
    else if (IS("find")) { char *v = bc_str_find(a[0].s, a[1].b[0]); oi(v == NULL ? -1 : v - a[0].s); }
    else if (IS("tobool")) oi(bc_str_to_bool(a[0].s));
    else if (IS("join")) { char **v = bc_malloc(sizeof(char *) * n); for (int i = 1; i < n; i++) v[i - 1] = a[i].s; v[n - 1] = NULL; char *r = bc_strv_join(v, a[0].s); os(r); oi(bc_strv_length(v)); free(r); free(v); }
    else if (IS("quote")) { char *r = bc_shell_quote(a[0].s); os(r); free(r); }
    else if (IS("utf8")) { oi(bc_utf8_validate((uint8_t *) a[0].b, a[0].len)); oi(bc_utf8_skip_bom((uint8_t *) a[0].b, a[0].len)); }
    else if (IS("errpos")) { bc_error_t *e = bc_error_parser(argi(a), a[1].b, a[1].len, argi(a + 2), "%s", a[3].s); oerr(e); bc_error_free(e); }
    else if (IS("file")) { size_t len = 7; bc_error_t *e = NULL; char *c = bc_file_get_contents(a[0].s, argi(a + 1), &len, &e); oerr(e); if (c == NULL) ob("~", 1); else { oi(len); osn(c, len); oi(c[len]); } free(c); bc_error_free(e); }
    else if (IS("config")) {  /* src, list section names... */
        bc_error_t *e = NULL; const char *ls[32]; int k = 0;
        for (int i = 1; i < n && k < 31; i++) ls[k++] = a[i].s;
        ls[k] = NULL;
        bc_config_t *c = bc_config_parse(a[0].b, a[0].len, n > 1 ? ls : NULL, &e);
        oerr(e); bc_error_free(e);
        if (c == NULL) ob("~", 1);
        else {
            char **s = bc_config_list_sections(c); ostrv(s);
            for (size_t i = 0; s && s[i]; i++) {
                char **k = bc_config_list_keys(c, s[i]); ostrv(k);
                for (size_t j = 0; k && k[j]; j++) { os(bc_config_get(c, s[i], k[j])); }
                char **l = bc_config_get_list(c, s[i]); ostrv(l);
                bc_strv_free(k); bc_strv_free(l);
            }
            bc_strv_free(s);
            os(bc_config_get(c, "nonexistent", "k")); os(bc_config_get_with_default(c, "nonexistent", "k", "dflt"));
            bc_config_free(c);
        }
    }
    else return 0;
    return 1;
}
