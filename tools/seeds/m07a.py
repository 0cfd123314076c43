ID='m07-page-counts-rebuilt'; PROPERTY='M07'
NEEDS='a build in which a pagination page other than the first is out of date and an earlier one is not'
BREAKS='the page number counts only the pages that are rebuilt, so a page gets the posts of another one'
EDITS=[('src/blogc-make/rules.c','''    for (bc_slist_t *l = outputs; l != NULL; l = l->next, page++) {
        bm_filectx_t *fctx = l->data;
        if (fctx == NULL)
            continue;
        bc_trie_insert(variables, "FILTER_PAGE", bc_strdup_printf("%zu", page));
        if (bm_rule_need_rebuild(ctx->posts_fctx, ctx->settings_fctx,
                ctx->listing_entry_fctx, ctx->main_template_fctx, fctx, false))
        {
            rv =''','''    for (bc_slist_t *l = outputs; l != NULL; l = l->next) {
        bm_filectx_t *fctx = l->data;
        if (fctx == NULL)
            continue;
        if (bm_rule_need_rebuild(ctx->posts_fctx, ctx->settings_fctx,
                ctx->listing_entry_fctx, ctx->main_template_fctx, fctx, false))
        {
            bc_trie_insert(variables, "FILTER_PAGE", bc_strdup_printf("%zu", page++));
            rv =''')]
FILES={}
DEMO=r'''#!/bin/bash
set -e
b=$PWD/_build/src
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
cd "$t"; mkdir content content/post templates
cat > blogcfile <<'X'
[global]
AUTHOR_NAME = a
AUTHOR_EMAIL = b
SITE_TITLE = c
SITE_TAGLINE = d
BASE_DOMAIN = http://e
[settings]
posts_per_page = 1
html_ext = .html
[posts]
one
two
three
X
for p in one two three; do printf 'TITLE: %s\nDATE: 2010-01-0%d\n---\n%s\n' $p ${#p} $p > content/post/$p.txt; done
printf '{%% block listing %%}{{ TITLE }},{%% endblock %%}{%% block entry %%}{{ TITLE }}{%% endblock %%}\n' > templates/main.tmpl
PATH=$b/blogc:$PATH BLOGC=$b/blogc/blogc timeout 100 $b/blogc-make/blogc-make >/dev/null
f=$(ls _build/page/2.html 2>/dev/null || ls _build/page/2/index.html)
cp "$f" first; rm "$f"
PATH=$b/blogc:$PATH BLOGC=$b/blogc/blogc timeout 100 $b/blogc-make/blogc-make >/dev/null
cmp -s first "$f"
'''
