P('C01', 'Growable strings hold exactly what was appended',
  'After any sequence of appends (text, counted bytes, single characters, formatted text, text with backslash escapes removed) and copies, a growable string holds exactly the concatenation of what was appended, its recorded length is the number of those bytes, and its buffer is NUL-terminated and larger than the length. Releasing it either hands over that buffer or frees it, and nothing else.',
  ['inputs', 'histories'], 'every history of operations, every content (including NUL bytes in counted appends), every length',
  'tests append a few short strings; errors sit at buffer-size boundaries and in long histories',
  ['src/common/utils.c'], [('capacity arithmetic and copy of every append', 'bc_string_append_len, bc_string_append_c'), ('escape removal', 'bc_string_append_escaped'), ('copy and release', 'bc_string_dup, bc_string_free')],
  note='all loops and appends proved for every input; printf formatting itself is trusted')
P('C02', 'Tries are exact maps from byte strings to values',
  'Looking up a key returns the value most recently inserted under exactly that key, or nothing when it was never inserted, whatever other keys (prefixes, extensions, bytes above 127, the empty key) are present. Replacing a value releases the old one exactly once, the size is the number of distinct keys, and iteration visits every binding exactly once.',
  ['inputs', 'histories'], 'every history of insertions and lookups over every set of keys',
  'tests insert a handful of ASCII keys; the quantifier is over all key sets and histories',
  ['src/common/utils.c'], [('sibling search and node creation', 'bc_trie_insert'), ('lookup walk', 'bc_trie_lookup'), ('counting and iteration', 'bc_trie_size, bc_trie_foreach')],
  note='insert and lookup proved against a ghost map; size and iteration (recursive) are a bounded stand-in')
P('C03', 'Lists keep insertion order and sorting is a stable permutation',
  'Appending, prepending and concatenating linked lists yield exactly the expected sequence of elements. Sorting a list yields a permutation of it that is ordered by the comparison function and keeps equal elements in their original order, for every length and every consistent comparison function.',
  ['inputs', 'histories'], 'every list length and content, every total preorder',
  'tests sort a few short lists',
  ['src/common/utils.c', 'src/common/sort.c'], [('list operations', 'bc_slist_append, bc_slist_prepend, bc_slist_append_list, bc_slist_length'), ('bubble sort', 'bc_slist_sort')],
  note='proved for every list; releasing a list (recursive) is a bounded stand-in')
P('C04', 'String helpers compute exactly what they document',
  'Stripping removes exactly the leading and/or trailing ASCII white space (space, tab, newline, carriage return, form feed, vertical tab); splitting on a separator yields the pieces that joined with it give the string back, at most the requested number; prefix, suffix, escape-aware search, replacement, duplication, joining and boolean reading agree with their mathematical definitions. None of them reads or writes outside its arguments, for any string.',
  ['inputs'], 'every NUL-terminated string, every separator and limit',
  'tests use a few dozen literal strings',
  ['src/common/utils.c'], [('strip', 'bc_str_lstrip, bc_str_rstrip, bc_str_strip'), ('split/join/replace', 'bc_str_split, bc_strv_join, bc_str_replace'), ('search', 'bc_str_find'), ('booleans', 'bc_str_to_bool')],
  note='proved per function; replacement is a composition checked bounded')
P('C06', 'Shell quoting yields one word that reads back as the string',
  'The quoted form of any string, placed on a POSIX shell command line, is read by the shell as exactly one word equal to the original string, and lets no character of it act as shell syntax. An absent string quotes to the empty word.',
  ['inputs'], 'every byte string without NUL',
  'tests quote a few strings; injection needs particular character sequences',
  ['src/common/utils.c'], [('quoting loop', 'bc_shell_quote')],
  note='the result is proved equal, for every string, to a spec function with a proved inverse under shell unquoting rules')
P('C05', 'UTF-8 validation accepts exactly well-formed UTF-8',
  'A byte string is accepted as UTF-8 exactly when it is well-formed UTF-8 (no overlong forms, no surrogates, nothing above U+10FFFF, no truncated sequence); a leading byte-order mark, and nothing else, is skipped when input is read. No byte outside the input is examined.',
  ['inputs'], 'every byte sequence of every length',
  'the space of malformed sequences is far larger than any table of examples',
  ['src/common/utf8.c'], [('DFA over the bytes', 'bc_utf8_validate'), ('byte-order mark', 'bc_utf8_skip_bom')],
  note='proved against a recursive definition of well-formedness for every input')
P('C07', 'Parse errors name the right line and column',
  'An error reported while parsing a text names the line and the column of the place where parsing stopped, counting CR LF (and LF CR) as one line break and CR or LF alone as one, and quotes the text of that line from the input. This holds for every text and every position, and nothing outside the text is read.',
  ['inputs'], 'every text, with any mixture of line-ending conventions, and every error offset',
  'tests use a few one-error inputs with one line-ending style',
  ['src/common/error.c'], [('line and column counting', 'bc_error_parser'), ('error values', 'bc_error_new')],
  note='the counts are proved equal to ghost token counters for every input; the printf of the message is trusted')
P('R01', 'Request lines and URLs are decoded exactly',
  'The web server takes as request line the bytes up to the first CR, LF or NUL, however they are chunked by the network; percent escapes with two hexadecimal digits become that byte, plus becomes space, and every other byte stands for itself, including malformed or truncated escapes. Nothing outside the received data is read.',
  ['inputs'], 'every byte string, every length relative to the receive buffer',
  'tests decode a dozen strings; malformed escapes at the very end and bytes above 127 are not sampled',
  ['src/blogc-runserver/httpd-utils.c'], [('decoding loop', 'br_urldecode, br_hextoi'), ('receive loop', 'br_readline')],
  note='decoding is proved equal to a recursive specification; the line is proved to be the bytes received before the first line end (reading ends with a short read: known finding split-request-line)')
P('R02', 'The web server serves nothing outside its document root',
  'Whatever the request (dot-dot segments, escapes, symbolic links, sibling directories with a common name prefix, malformed lines), a file is read and sent only if its canonical path is the document root or below it. A successful answer carries exactly the bytes of that file and their number; every other request gets the matching 4xx/5xx answer or a redirect, and the server goes on running.',
  ['inputs', 'configurations'], 'every request line and every layout of the document root',
  'the repository has no test of request handling; containment is a statement about all paths',
  ['src/blogc-runserver/httpd.c'], [('request handling', 'handle_request'), ('containment test', 'is_inside'), ('error answers', 'error')],
  note='containment and memory safety proved for every request; exact response bytes are compared on a running server (bounded)')
P('R03', 'Content types and index files follow the documented table',
  'The content type of an answer is the one listed for the extension after the last dot of the last path component (matching case-sensitively), and application/octet-stream when there is none listed. For a directory the first existing index file in the documented order is served, and a directory asked for without final slash is redirected.',
  ['inputs'], 'every path and every set of files in a directory',
  'tests try a handful of names',
  ['src/blogc-runserver/mime.c', 'src/blogc-runserver/httpd-utils.c'], [('extension', 'br_get_extension'), ('table lookup', 'br_mime_guess_content_type'), ('index choice', 'br_mime_guess_index')],
  note='extension, lookup in the table and choice of index proved; the content of the table is compared with the documented one (bounded)')
P('G01', 'The SSH forced command runs only git on repositories below the base dir',
  'A command is accepted exactly when it is one of git-receive-pack, git-upload-pack or git-upload-archive followed by one well-formed single-quoted word; the repository it names is that word as a shell reads it, without one leading slash and never with a dot-dot component. The name reaches git and git-shell as one quoted argument, so no part of it is run as a command; everything else is refused without running anything.',
  ['inputs'], 'every command string a client can send',
  'tests use about forty well-formed commands',
  ['src/blogc-git-receiver/shell-command-parser.c', 'src/blogc-git-receiver/shell.c', 'src/common/utils.c'], [('command parsing', 'bgr_shell_command_parse'), ('use of the name', 'bgr_shell'), ('quoting', 'bc_shell_quote')],
  note='parsing is proved sound and complete against a recursive definition of shell words; what is executed is checked on the program with recording stand-ins (bounded)')
P('G02', 'Pushed branches map to the commit each line announces',
  'From the list of updated refs on the hook input, each complete line whose ref is a branch binds that branch (its name after refs/heads/) to its new commit, the last line winning; other refs, incomplete lines and empty branch names bind nothing. Nothing outside the given bytes is read.',
  ['inputs'], 'every text of every length',
  'tests use a few well-formed lists',
  ['src/blogc-git-receiver/pre-receive-parser.c'], [('line automaton', 'bgr_pre_receive_parse')],
  note='proved equal to a recursive definition over the lines for every text')
P('B01', 'Source files parse to exactly their headers and content',
  'A source file with well-formed headers yields exactly the bindings written there (name in upper case letters, digits and underscores; value stripped; the last one winning), the content after the separator line verbatim as RAW_CONTENT, and the variables derived from it. Every other input (missing separator, bad or reserved name, missing colon or content) is rejected with an error, and nothing outside the input is read.',
  ['inputs'], 'every byte string given as a source file',
  'tests parse a handful of sources; the rejected and boundary inputs are unlimited',
  ['src/blogc/source-parser.c'], [('header automaton', 'blogc_source_parse')])
P('B02', 'Templates are accepted exactly when their statements are well-formed',
  'A template is accepted exactly when every statement in it is complete and known, blocks, conditionals and loops are properly opened and closed, and variable names are valid; the statements and the text between them are then kept in order, byte for byte apart from the white space removed next to a dash. Every other template is rejected with an error naming its position.',
  ['inputs'], 'every byte string given as a template',
  'tests parse a few templates; malformed ones are an unbounded set',
  ['src/blogc/template-parser.c'], [('template automaton', 'blogc_template_parse')])
P('B03', 'Rendering yields what the template says for the variables in scope',
  'Rendering a template replaces each variable by its value (local bindings first, then global ones; date, truncation and loop forms as documented; absent variables by nothing), takes exactly the branches whose condition holds, repeats listing blocks once per source in order and loops once per item, and copies all other text unchanged. Blocks of other modes contribute nothing.',
  ['inputs', 'programs'], 'every well-formed template, every set of sources and variables',
  'tests render about twenty templates with two or three sources',
  ['src/blogc/renderer.c'], [('statement interpreter', 'blogc_render'), ('variable lookup and formats', 'blogc_get_variable, blogc_format_variable'), ('loop items', 'blogc_split_list_variable')])
P('B04', 'Content markup renders as documented and escapes what it must',
  'Contents in the documented light markup (paragraphs, headings, lists, quotes, code, rules, links, images, emphasis) become the documented HTML; text that is not markup appears unchanged, code and attribute text appears with the HTML special characters (& < > " \' /) replaced by entities, and line ending style is kept. Any byte string is converted without error, without reading outside it and without losing text.',
  ['inputs'], 'every byte string given as content',
  'tests convert about two hundred fixed snippets; nesting and unfinished markup combine without limit',
  ['src/blogc/content-parser.c'], [('escaping', 'htmlentities_append, blogc_htmlentities'), ('block automaton', 'blogc_content_parse'), ('inline automaton', 'blogc_content_parse_inline')],
  note='escaping of text is proved equal to its definition for every string; the block and inline automata are compared with an independent renderer on generated documents (bounded) and fuzzed under sanitizers (bounded)')
P('B05', 'Slugs are a fixed character map of the heading',
  'The identifier made from a heading has exactly one character per byte of the heading: lower case letters and digits stay, upper case letters become lower case, every other byte becomes a dash. It is never absent for a present text.',
  ['inputs'], 'every string',
  'tests use two headings',
  ['src/blogc/content-parser.c'], [('character map', 'blogc_slugify')],
  note='proved for every string, including bytes above 127')
P('B06', 'Dates are accepted and read exactly as documented',
  'A date is accepted exactly when it is a prefix of YYYY-MM-DD HH:MM:SS ending at a component boundary with every component in its range; each component then reaches the formatting routine with its value (month and year counted from their origin), and omitted ones with their first value. Every other string is refused with an error and nothing after its end is read.',
  ['inputs'], 'every string given as date',
  'tests try about eighty strings; range and boundary errors of single digits are not all sampled',
  ['src/blogc/datetime-parser.c'], [('date automaton', 'blogc_convert_datetime')],
  note='acceptance and the fields at the call of mktime are proved for every string; the formatted text is compared with a calendar on generated dates (bounded), strftime is trusted')
P('B07', 'Listings show the right sources, in order, on the right page',
  'A listing contains exactly the sources carrying the requested tag, in the requested order (given order, or by date with ties in given order, or reversed), cut to exactly the requested page; the page count and the neighbouring page variables match the number of sources and the page size. The file name variable of each source is the base name without its extension.',
  ['inputs', 'configurations'], 'every list of sources, tag filter, order and page setting',
  'tests use three to six sources',
  ['src/blogc/loader.c'], [('filter and pages', 'blogc_source_parse_from_files'), ('order', 'sort_source'), ('file name', 'blogc_get_filename')])
P('B08', 'The table of contents nests like the headings',
  'The table of contents has one entry per heading up to the requested depth, in order, with its text and identifier, and its lists are opened and closed so that every entry is nested according to the heading levels and every list opened is closed. Without headings or with depth 0 there is none.',
  ['inputs'], 'every sequence of heading levels, every maximum depth',
  'tests use five header sequences',
  ['src/blogc/toctree.c'], [('nesting', 'blogc_toctree_render')])
P('B09', 'File lists yield the listed names exactly',
  'The list of sources read from standard input has one name per non-empty line that is not a comment, in order, with surrounding white space removed and every line ending style accepted; nothing else is added and nothing is lost at the end of the input. The base name used as FILENAME drops directories and the last extension only.',
  ['inputs'], 'every text given as file list, every path',
  'tests use one list',
  ['src/blogc/filelist-parser.c', 'src/blogc/loader.c'], [('list automaton', 'blogc_filelist_parse'), ('base name', 'blogc_get_filename')],
  note='both proved equal to their definition for every input; the ordered-list test of the content parser is compared bounded')
P('B10', 'The blogc command validates its options and reports every failure',
  'The command accepts exactly the documented options and -D bindings (upper case names, valid UTF-8, last one winning), prints the requested output or variable value, and leaves with status 0 exactly when it produced it. Anything else gives an error message and a non-zero status, and no partial output file is left as success.',
  ['inputs', 'configurations'], 'every command line',
  'the repository tests of the command are a few end-to-end runs',
  ['src/blogc/main.c'], [('option loop', 'main'), ('-D validation', 'main')])
P('C08', 'Configuration files mean what they say',
  'A configuration is parsed into its sections: maps from stripped keys to values (quoted, escaped or plain, the last binding of a key winning) and lists of values in order; a section given again replaces the earlier one, comments and blank lines are ignored, every line ending is accepted and the last line needs none. Text outside of a section, a section name with a line ending, a key without value, text after a closing quote or a missing closing quote is an error and gives no configuration; looking up a value gives exactly the bound value or the default.',
  ['inputs'], 'every configuration text, every set of list sections, every lookup',
  'tests parse about twenty fixed texts',
  ['src/common/config-parser.c'], [('configuration automaton', 'bc_config_parse'), ('lookup', 'bc_config_get')],
  note='the lookups are proved; the parser is compared with a generator of configurations and on arbitrary texts (bounded)')
P('C10', 'Files and standard input are read completely and unchanged',
  'Reading a file gives exactly its bytes and their number, whatever its size, followed by a NUL; with UTF-8 asked for, a byte order mark at its very start is dropped (nowhere else) and content that is not valid UTF-8 is an error. A file that cannot be opened or read gives an error naming it and no content, the stream is closed in every case, and standard input is read completely in the same way.',
  ['inputs', 'fault_sequences'], 'every file content and size, every failure of opening or reading',
  'tests read three small fixed contents; sizes around the chunk size and read errors are not among them',
  ['src/common/file.c', 'src/common/stdin.c'], [('chunked read', 'bc_file_get_contents'), ('standard input', 'bc_stdin_read')],
  note='proved for every content, size and failure over the C library streams')
P('M01', 'The blogcfile is read into exactly the documented settings',
  'Reading a blogcfile gives every documented setting its given value or its documented default, the global variables exactly as written, and the posts, pages, tags and copy lists in order (with the [environment] and [copy_files] spellings accepted when the current ones are absent). A global variable name other than an upper case letter followed by upper case letters, digits and underscores, or a required variable that is missing or empty, is an error and nothing is built.',
  ['inputs', 'configurations'], 'every blogcfile',
  'tests read four fixed files',
  ['src/blogc-make/settings.c'], [('validation and defaults', 'bm_settings_parse')],
  note='bounded: generated blogcfiles against an independent reading')
P('M02', 'Every output gets its documented file name',
  'The file name of an index, post, page, tag listing, pagination page or feed is the documented combination of output directory, blog prefix, rule prefix, slug and extension, with exactly one separator between parts, "index" only where a name is needed, and no name when every part is empty. A full build creates exactly the set of files these rules name, and relative paths are resolved against the working directory.',
  ['inputs', 'configurations'], 'every combination of present, empty and absent parts; every configuration of the rules',
  'tests use about sixty fixed combinations',
  ['src/blogc-make/utils.c', 'src/blogc-make/rules.c'], [('file name', 'bm_generate_filename, bm_generate_filename2'), ('absolute path', 'bm_abspath'), ('outputs of the rules', '*_outputlist')],
  note='the name functions are proved for every input; the outputs of whole builds are compared bounded')
P('M03', 'An output is rebuilt exactly when something it depends on is newer',
  'A build writes an output exactly when it does not exist, or when a file it depends on (blogcfile, its template, the listing entry, the listed sources or its own source) is missing or has a later modification time, compared to the nanosecond. Every other output is left untouched.',
  ['histories', 'configurations'], 'every history of file changes between builds, every set of modification times',
  'tests compare a few fixed time stamps',
  ['src/blogc-make/rules.c', 'src/blogc-make/ctx.c'], [('decision', 'bm_rule_need_rebuild'), ('change detection', 'bm_filectx_changed, bm_filectx_reload'), ('dependencies of each rule', '*_exec')])
P('M04', 'Cleaning removes exactly the built files and the directories they leave empty',
  'The clean rule removes every existing file the build rules name, then the directories between it and the output directory (included) that became empty, and nothing else: no source, no file it did not build, no directory that still has an entry (hidden ones included), and nothing above the output directory.',
  ['inputs', 'configurations', 'histories'], 'every content of the output directory, every configuration',
  'tests never run the removal functions',
  ['src/blogc-make/exec-native.c', 'src/blogc-make/rules.c'], [('removal', 'bm_exec_native_rm'), ('empty directory test', 'bm_exec_native_is_empty_dir'), ('files to remove', 'bm_rule_list_built_files')])
P('M05', 'Commands run by blogc-make pass every value unchanged',
  'The command line built for blogc or blogc-runserver is read by a shell as exactly the program, the options and the variable bindings intended: every value of the blogcfile, path, tag, host or port arrives as the bytes it has, as one argument, and nothing in it acts as shell syntax. The status, output and error text of a command are reported as they are.',
  ['inputs', 'configurations'], 'every setting, variable value, path and combination of options',
  'tests build about ten command lines from plain values',
  ['src/blogc-make/exec.c'], [('blogc command', 'bm_exec_build_blogc_cmd, list_variables'), ('server command', 'bm_exec_blogc_runserver'), ('execution', 'bm_exec_command')],
  note='the blogc command is proved equal to its specification built from quoted values; the rest is compared bounded')
P('M06', 'A copied file is complete or the build fails',
  'Copying a file into the output directory gives a file with exactly the bytes of the source, creating the directories it needs, however the reads and writes are split; any failure to read, write or create anything gives a failing status. A build with a source that is missing or broken, or with an unknown rule, ends with a failing status.',
  ['inputs', 'fault_sequences'], 'every file size and content, every failing or short read or write',
  'tests never run the copy; read and write failures are not among them',
  ['src/blogc-make/exec-native.c', 'src/blogc-make/rules.c'], [('copy loop', 'bm_exec_native_cp'), ('status of rules', 'bm_rule_executor, bm_rule_execute')])
P('M07', 'Each build rule renders the right posts with the documented variables',
  'Every file built by a rule is what blogc renders from the documented template with the sources of that rule: all posts of the tag or page in the configured order for listings and feeds, the own source for posts and pages, with MAKE_RULE, MAKE_TYPE, MAKE_SLUG, MAKE_TAGS, MAKE_ENV, the filters, the date format and all global variables bound as documented. The default feed has one entry per post with its address and dates.',
  ['configurations', 'inputs'], 'every blogcfile and set of sources',
  'tests of the rules compare two full builds',
  ['src/blogc-make/rules.c', 'src/blogc-make/atom.c'], [('rules', '*_exec, posts_ordering, posts_pagination'), ('feed template', 'bm_atom_generate')],
  note='what each rule asks blogc for is proved for every configuration; the rendered sites and the feed template are compared bounded')
