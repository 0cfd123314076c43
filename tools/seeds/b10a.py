ID='b10-value-with-equal-sign'; PROPERTY='B10'
NEEDS='a -D value that holds an equal sign'
BREAKS='the value of a -D binding is cut at its first equal sign'
EDITS=[('src/blogc/main.c',"""pieces = bc_str_split(tmp, '=', 2);
                        if (bc_strv_length(pieces) != 2) {""","""pieces = bc_str_split(tmp, '=', 0);
                        if (bc_strv_length(pieces) < 2) {""")]
FILES={}
DEMO=r'''#!/bin/bash
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
printf 'A: b\n---\nc\n' > "$t/s.txt"
r=$(timeout 20 _build/src/blogc/blogc -D 'URL=a=b=c' -p URL "$t/s.txt") || exit 1
[ "$r" = "a=b=c" ]
'''
