"""Which contracts and which bounded suites decide each property."""
from bounded import suites_common as SC
from bounded import suites_runserver as SR
from bounded import suites_git as SG
from bounded import suites_blogc as SB
from bounded import suites_render as SRN
from bounded import suites_config as SCF
from bounded import suites_file as SFI
from bounded import suites_make as SM
from bounded import suites_site as SS


def suite(fn, n, drv=None):
    def run(seed, scale):
        s = SC.Suite((drv or SC.drv)(), seed)
        fn(s, n * scale)
        bad = s.run()
        return {'cases': len(s.cases), 'bad': bad, 'samples': [{'cmd': c, 'args': [SC.show(a) for a in x]} for c, x, _, _ in s.cases[:3]]}
    return (fn.__name__, run)


def fns(mod, names):
    return [(mod, n) for n in names.split()]


MACH = ['machine integers: every arithmetic operation is checked not to overflow (or is unsigned and wraps); object sizes and strings are below 2^63-1',
        'allocation never fails (bc_malloc/bc_realloc end the program instead)']
VIEW = ['growable strings are seen by client code through view contracts (contracts/abs.py); the concrete contracts of the same functions are discharged by C01']

PROPS = {
    'C01': dict(proofs=fns('utils_c', 'bc_string_new bc_string_free bc_string_dup bc_string_append bc_string_append_len bc_string_append_c bc_string_append_escaped'),
                bounded=[suite(SC.strings, 600)], assume=MACH),
    'C02': dict(proofs=fns('trie_c', 'bc_trie_lookup bc_trie_insert'), bounded=[suite(SC.tries, 800)], assume=MACH),
    'C03': dict(proofs=fns('lists_c', 'bc_slist_append bc_slist_prepend bc_slist_append_list bc_slist_length bc_slist_sort'), bounded=[suite(SC.slists, 800)], assume=MACH),
    'C04': dict(proofs=fns('utils_c', 'bc_strdup bc_strndup bc_isspace bc_str_starts_with bc_str_ends_with bc_str_lstrip bc_str_rstrip bc_str_strip bc_str_split bc_str_find bc_str_to_bool bc_strv_join bc_strv_length') + fns('utils_c', 'bc_strv_free bc_strv_length!own'),
                bounded=[suite(SC.helpers, 500)], assume=MACH + VIEW),
    'C06': dict(proofs=fns('utils_c', 'bc_shell_quote'), bounded=[suite(SC.quoting, 800)], assume=MACH + VIEW),
    'C05': dict(proofs=fns('utf8_c', 'bc_utf8_validate bc_utf8_skip_bom'), bounded=[suite(SC.utf8, 600)], assume=MACH),
    'C07': dict(proofs=fns('error_c', 'bc_error_new bc_error_parser'), bounded=[suite(SC.errpos, 800)], assume=MACH + VIEW),
    'C08': dict(proofs=fns('config_c', 'bc_config_get bc_config_get_with_default'), bounded=[suite(SCF.config, 4000), suite(SCF.fuzz_config, 4000)], assume=MACH + VIEW),
    'C10': dict(proofs=fns('file_c', 'bc_file_get_contents bc_stdin_read'), bounded=[('files', lambda seed, scale: SFI.files(seed, 300 * scale)), ('stdin', lambda seed, scale: SFI.stdin(seed, 100 * scale))],
                assume=MACH + VIEW + ['the C library streams: fread returns the next bytes of the file, and the end and error marks']),
    'R01': dict(proofs=fns('runserver_c', 'br_hextoi br_urldecode br_readline'), bounded=[suite(SR.urldecode, 600, SR.drv), suite(SR.readline, 300, SR.drv), ('split', lambda seed, scale: SR.split_requests(seed, 12 * scale))], assume=MACH + VIEW),
    'R02': dict(proofs=fns('runserver_c', 'is_inside handle_request error'), bounded=[('server', lambda seed, scale: SR.server(seed, 250 * scale))],
                assume=MACH + VIEW + ['the operating system: realpath returns a canonical absolute path, stat/access/read report the file system; no other process replaces files by links between check and use']),
    'R03': dict(proofs=fns('runserver_c', 'br_get_extension br_mime_guess_content_type br_mime_guess_index'), bounded=[suite(SR.mime, 600, SR.drv), ('server', lambda seed, scale: SR.server(seed + 7, 150 * scale))], assume=MACH + VIEW),
    'G01': dict(proofs=fns('gitshell_c', 'has_parent_reference bgr_shell_command_parse') + fns('utils_c', 'bc_shell_quote'),
                bounded=[suite(SG.command, 800, SG.drv), ('shell', lambda seed, scale: SG.shell(seed, 60 * scale))], assume=MACH + VIEW),
    'G02': dict(proofs=fns('gitpre_c', 'bgr_pre_receive_parse'), bounded=[suite(SG.refs, 1500, SG.drv)], assume=MACH + VIEW + ['the ref list is text: it has no NUL byte']),
    'B01': dict(proofs=fns('source_c', 'blogc_source_parse'), bounded=[suite(SRN.sources, 6000, SB.drv)], assume=MACH + VIEW),
    'B02': dict(proofs=fns('template_c', 'blogc_template_parse'), bounded=[suite(SRN.badtree, 20000, SB.drv), suite(SRN.accepts, 30000, SB.drv)], assume=MACH + VIEW),
    'B03': dict(proofs=fns('render_c', 'blogc_get_variable blogc_format_date foreach_value_variable'), bounded=[suite(SRN.variables, 500, SB.drv), suite(SRN.rendering, 5000, SB.drv)], assume=MACH + VIEW),
    'B04': dict(proofs=fns('content_c', 'htmlentities_append blogc_htmlentities blogc_fix_description blogc_is_ordered_list_item'), bounded=[suite(SB.texts, 400, SB.drv), suite(SB.content, 3000, SB.drv), suite(SB.fuzz, 3000, SB.drv)], assume=MACH + VIEW),
    'B05': dict(proofs=fns('content_c', 'blogc_slugify'), bounded=[suite(SB.texts, 500, SB.drv)], assume=MACH),
    'B06': dict(proofs=fns('datetime_c', 'blogc_convert_datetime'), bounded=[suite(SB.dates, 8000, SB.drv)], assume=MACH + VIEW + ['mktime, strftime: the C library']),
    'B07': dict(proofs=fns('loader_c', 'blogc_get_filename'), bounded=[SRN.listings_suite], assume=MACH + VIEW),
    'B08': dict(proofs=fns('toctree_c', 'blogc_toctree_render'), bounded=[suite(SB.toctree, 5000, SB.drv)], assume=MACH + VIEW),
    'B09': dict(proofs=fns('filelist_c', 'blogc_filelist_parse') + fns('loader_c', 'blogc_get_filename'), bounded=[suite(SB.names, 5000, SB.drv)], assume=MACH + VIEW),
    'B10': dict(proofs=fns('cli_c', 'blogc_mkdir_recursive'), bounded=[('cli', lambda seed, scale: SRN.cli(seed, 5 * scale))], assume=MACH + VIEW),
    'M01': dict(proofs=fns('settings_c', 'bm_settings_parse'), bounded=[suite(SM.settings, 2500, SM.drv)], assume=MACH + VIEW),
    'M02': dict(proofs=fns('make_c', 'bm_generate_filename bm_generate_filename2 bm_abspath') + fns('outputs_c', 'index_outputlist atom_outputlist atom_tags_outputlist posts_outputlist tags_outputlist pages_outputlist pagination_outputlist pagination_tags_outputlist'),
                bounded=[('names', SM.names_suite), ('sites', lambda seed, scale: SS.sites(seed, 150 * scale, {'names'}))], assume=MACH + VIEW),
    'M03': dict(proofs=fns('rules_c', 'bm_filectx_changed bm_filectx_reload bm_rule_need_rebuild'), bounded=[suite(SM.rebuild, 6000, SM.drv), ('changed', SM.changed), ('sites', lambda seed, scale: SS.sites(seed + 10, 150 * scale, {'rebuild'}))],
                assume=MACH + ['clocks: a file changed after a build has a later modification time than the build result']),
    'M04': dict(proofs=fns('native_c', 'bm_exec_native_is_empty_dir bm_exec_native_rm') + fns('jobs_c', 'clean_exec'), bounded=[('removal', SM.removal), ('sites', lambda seed, scale: SS.sites(seed + 20, 150 * scale, {'clean'}))], assume=MACH),
    'M05': dict(proofs=fns('exec_c', 'list_variables bm_exec_build_blogc_cmd') + fns('utils_c', 'bc_shell_quote'), bounded=[suite(SM.cmds, 2500, SM.drv)], assume=MACH + VIEW),
    'M06': dict(proofs=fns('native_c', 'bm_exec_native_cp') + fns('jobs_c', 'copy_exec'), bounded=[('copies', SM.copies), ('sites', lambda seed, scale: SS.sites(seed + 30, 100 * scale, {'copy', 'errors'}))], assume=MACH),
    'M07': dict(proofs=fns('jobs_c', 'bm_ctx_settings_lookup bm_ctx_settings_lookup_str posts_ordering posts_pagination posts_pagination_enabled index_exec atom_exec tags_exec atom_tags_exec pagination_exec posts_exec pages_exec'), bounded=[('sites', lambda seed, scale: SS.sites(seed + 40, 250 * scale, {'content'}))], assume=MACH),
}
