/* the functions of blogc-make; removals and commands never leave the scratch directory VF_SCRATCH (see --wrap in suites_make.py) */
#include "drv.h"
#include "common.h"
#include "blogc-make/utils.h"
#include "blogc-make/settings.h"
#include "blogc-make/ctx.h"
#include "blogc-make/exec.h"
#include "blogc-make/exec-native.h"
#include "blogc-make/atom.h"
#include "blogc-make/rules.h"
#include <sys/types.h>
#include <sys/stat.h>
#include <errno.h>
#include <fcntl.h>
static int inside(const char *p)
{
    const char *s = getenv("VF_SCRATCH");
    return s != NULL && p[0] == '/' && strncmp(p, s, strlen(s)) == 0 && p[strlen(s)] == '/' && strstr(p, "..") == NULL;
}
int __real_unlink(const char *); int __real_rmdir(const char *); ssize_t __real_read(int, void *, size_t); ssize_t __real_write(int, const void *, size_t);
int __real_remove(const char *); int __real_rename(const char *, const char *);
static bc_string_t *escaped;
static void note(const char *what, const char *p) { if (!escaped) escaped = bc_string_new(); bc_string_append(escaped, what); bc_string_append_c(escaped, ' '); bc_string_append(escaped, p); bc_string_append_c(escaped, '\n'); }
int __wrap_unlink(const char *p) { if (!inside(p) && strncmp(p, "/tmp/blogc-make_", 16)) { note("unlink", p); errno = EPERM; return -1; } return __real_unlink(p); }
int __wrap_rmdir(const char *p) { if (!inside(p)) { note("rmdir", p); errno = EPERM; return -1; } return __real_rmdir(p); }
int __wrap_remove(const char *p) { note("remove", p); errno = EPERM; return -1; }
int __wrap_rename(const char *p, const char *q) { note("rename", p); errno = EPERM; return -1; }
static char *sysc;
int __wrap_system(const char *c) { free(sysc); sysc = strdup(c); return 0; }
/* faults: the k-th read or write of a copy fails, or moves few bytes */
static int armed, failr = -1, failw = -1, shortr, shortw, nr, nw;
ssize_t __wrap_read(int fd, void *b, size_t n)
{
    if (!armed) return __real_read(fd, b, n);
    if (nr++ == failr) { errno = EIO; return -1; }
    return __real_read(fd, b, shortr && n > (size_t) shortr ? (size_t) shortr : n);
}
ssize_t __wrap_write(int fd, const void *b, size_t n)
{
    if (!armed || fd <= 2) return __real_write(fd, b, n);
    if (nw++ == failw) { errno = ENOSPC; return -1; }
    return __real_write(fd, b, shortw && n > (size_t) shortw ? (size_t) shortw : n);
}
static char **lines(const char *s) { return s == NULL ? NULL : bc_str_split(s, '\n', 0); }
static bc_trie_t *pairs(const char *s)
{
    if (s == NULL) return NULL;
    bc_trie_t *t = bc_trie_new(free);
    char **l = lines(s);
    for (size_t i = 0; l[i]; i++) {
        char *e = strchr(l[i], '=');
        if (!e) continue;
        *e = 0; bc_trie_insert(t, l[i], bc_strdup(e + 1));
    }
    bc_strv_free(l);
    return t;
}
static void osettings(bm_settings_t *s)
{
    if (s == NULL) { ob("~", 1); return; }
    otrie(s->global); otrie(s->settings); ostrv(s->posts); ostrv(s->pages); ostrv(s->copy); ostrv(s->tags);
}
static bm_filectx_t fc(const char *s, bm_filectx_t **p)
{   /* sec.nsec.readable, "-" for none */
    bm_filectx_t f; memset(&f, 0, sizeof f); long long a = 0; long b = 0; int c = 0;
    if (sscanf(s, "%lld.%ld.%d", &a, &b, &c) != 3) { *p = NULL; return f; }
    f.tv_sec = a; f.tv_nsec = b; f.readable = c;
    return f;
}
static void stdio_off(int *o, int *e) { fflush(stdout); fflush(stderr); *o = dup(1); *e = dup(2); int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); close(n); }
static void stdio_on(int o, int e) { fflush(stdout); fflush(stderr); dup2(o, 1); dup2(e, 2); close(o); close(e); }

static void handle(const char *cmd, int n, arg_t *a)
{
    if (handle_common(cmd, n, a)) return;
    if (IS("gen")) { char *r = bm_generate_filename(a[0].s, a[1].s, a[2].s, a[3].s, a[4].s); os(r); free(r); }
    else if (IS("gen2")) { char *r = bm_generate_filename2(a[0].s, a[1].s, a[2].s, a[3].s, a[4].s, a[5].s, a[6].s); os(r); free(r); }
    else if (IS("abspath")) {
        bc_error_t *err = NULL;
        if (a[1].s && chdir(a[1].s)) { os("chdir failed"); return; }
        char *r = bm_abspath(a[0].s, &err); os(r); oerr(err); bc_error_free(err); free(r);
        if (chdir("/")) return;
    }
    else if (IS("settings")) {
        bc_error_t *err = NULL;
        bm_settings_t *s = bm_settings_parse(a[0].b, a[0].len, &err);
        osettings(s); oerr(err); bc_error_free(err); bm_settings_free(s);
    }
    else if (IS("atom")) {
        bc_error_t *err = NULL;
        bm_settings_t *s = bm_settings_parse(a[0].b, a[0].len, &err);
        char *r = s ? bm_atom_generate(s) : NULL; os(r); free(r); bc_error_free(err); bm_settings_free(s);
    }
    else if (IS("cmd")) {
        /* bin, settings?(1/0), locale, tags, globals, global vars, local vars, print, listing, entry, template, output, dev, stdin */
        bm_settings_t st; memset(&st, 0, sizeof st);
        st.settings = bc_trie_new(free);
        if (a[2].s) bc_trie_insert(st.settings, "locale", bc_strdup(a[2].s));
        st.tags = lines(a[3].s);
        st.global = pairs(a[4].s);
        bc_trie_t *g = pairs(a[5].s), *l = pairs(a[6].s);
        char *r = bm_exec_build_blogc_cmd(a[0].s, argi(&a[1]) ? &st : NULL, g, l, a[7].s, argi(&a[8]), a[9].s, a[10].s, a[11].s, argi(&a[12]), argi(&a[13]));
        os(r); free(r); bc_trie_free(st.settings); bc_trie_free(st.global); bc_strv_free(st.tags); bc_trie_free(g); bc_trie_free(l);
    }
    else if (IS("rscmd")) {   /* bin, host, port, threads, output dir */
        bm_ctx_t c; memset(&c, 0, sizeof c); c.blogc_runserver = a[0].s; c.output_dir = a[4].s;
        int o, e; stdio_off(&o, &e);
        int rv = bm_exec_blogc_runserver(&c, a[1].s, a[2].s, a[3].s);
        stdio_on(o, e);
        oi(rv); os(sysc); free(sysc); sysc = NULL;
    }
    else if (IS("findbin")) { char *r = bm_exec_find_binary(a[0].s, a[1].s, "VF_NO_SUCH_VARIABLE"); os(r); free(r);
        if (a[2].s) { setenv("VF_BIN", a[2].s, 1); r = bm_exec_find_binary(a[0].s, a[1].s, "VF_BIN"); os(r); free(r); unsetenv("VF_BIN"); } }
    else if (IS("exec")) {
        bc_error_t *err = NULL; char *o = NULL, *e = NULL;
        int rv = bm_exec_command(a[0].s, a[1].s, &o, &e, &err);
        oi(rv); os(o); os(e); oerr(err); free(o); free(e); bc_error_free(err);
    }
    else if (IS("args")) { bc_trie_t *t = bm_rule_parse_args(a[0].s); otrie(t); bc_trie_free(t); }
    else if (IS("rebuild")) {   /* settings, entry, template, output, first only, sources... */
        bm_filectx_t f[4], *p[4], src[32], *sp; bc_slist_t *l = NULL;
        for (int i = 0; i < 4; i++) { f[i] = fc(a[i].s, &p[i]); if (p[i] || strcmp(a[i].s, "-")) p[i] = &f[i]; else p[i] = NULL; }
        for (int i = 5; i < n && i < 37; i++) { sp = &src[i - 5]; src[i - 5] = fc(a[i].s, &sp); l = bc_slist_append(l, strcmp(a[i].s, "-") ? &src[i - 5] : NULL); }
        oi(bm_rule_need_rebuild(l, p[0], p[1], p[2], p[3], argi(&a[4]))); oi(bc_slist_length(l)); bc_slist_free(l);
    }
    else if (IS("changed")) {   /* path, sec, nsec */
        bm_filectx_t f; memset(&f, 0, sizeof f); f.path = a[0].s; f.tv_sec = atoll(a[1].s); f.tv_nsec = atol(a[2].s);
        time_t s = -7; long ns = -7;
        oi(bm_filectx_changed(&f, &s, &ns)); oi(s); oi(ns);
        f.readable = false; bm_filectx_reload(&f); oi(f.readable); oi(f.tv_sec); oi(f.tv_nsec);
    }
    else if (IS("newr")) {   /* root, name: the files listed */
        bm_ctx_t c; memset(&c, 0, sizeof c); c.root_dir = a[0].s;
        bc_slist_t *l = bm_filectx_new_r(NULL, &c, a[1].s);
        oi(bc_slist_length(l)); for (bc_slist_t *x = l; x; x = x->next) { bm_filectx_t *q = x->data; os(q->short_path); os(q->path); oi(q->readable); }
        bc_slist_free_full(l, (bc_free_func_t) bm_filectx_free);
    }
    else if (IS("cp")) {   /* source, dest, short, read fault, write fault, short read, short write */
        bm_filectx_t s, d; memset(&s, 0, sizeof s); memset(&d, 0, sizeof d); s.path = a[0].s; d.path = a[1].s; d.short_path = a[2].s;
        int o, e; stdio_off(&o, &e);
        failr = argi(&a[3]); failw = argi(&a[4]); shortr = argi(&a[5]); shortw = argi(&a[6]); nr = nw = 0;
        int before = open("/dev/null", O_RDONLY); close(before);
        armed = 1; int rv = bm_exec_native_cp(&s, &d, false); armed = 0;
        int after = open("/dev/null", O_RDONLY); close(after);
        stdio_on(o, e);
        oi(rv); oi(before == after);
    }
    else if (IS("rm")) {   /* output dir, path, short path */
        bm_filectx_t d; memset(&d, 0, sizeof d); d.path = a[1].s; d.short_path = a[2].s;
        int o, e; stdio_off(&o, &e);
        int rv = bm_exec_native_rm(a[0].s, &d, false);
        stdio_on(o, e);
        oi(rv); os(escaped ? escaped->str : NULL); bc_string_free(escaped, true); escaped = NULL;
    }
    else if (IS("empty")) { bc_error_t *err = NULL; oi(bm_exec_native_is_empty_dir(a[0].s, &err)); oi(err != NULL); bc_error_free(err); }
    else if (IS("deploy")) {   /* settings text, write fault, short write: content left behind */
        bc_error_t *err = NULL;
        bm_settings_t *s = bm_settings_parse(a[0].b, a[0].len, &err);
        if (!s) { os("bad settings"); return; }
        failr = -1; failw = argi(&a[1]); shortw = argi(&a[2]); nr = nw = 0; armed = 1;
        char *f = bm_atom_deploy(s, &err); armed = 0;
        oi(err != NULL);
        if (f) { size_t len; bc_error_t *e2 = NULL; char *c = bc_file_get_contents(f, false, &len, &e2); os(c); free(c); oi(access(f, F_OK)); bm_atom_destroy(f); oi(access(f, F_OK)); }
        else ob("~", 1);
        free(f); bc_error_free(err); bm_settings_free(s);
    }
    else os("unknown command");
}
