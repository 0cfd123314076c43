ID='r02-decode-before-query'; PROPERTY='R02'
NEEDS='a file whose name holds a question mark, asked for with the mark escaped'
BREAKS='an escaped question mark is taken for the start of the query, so another path is answered'
EDITS=[('src/blogc-runserver/httpd.c','''    char **pieces2 = bc_str_split(pieces[1], '?', 2);
    char *path = br_urldecode(pieces2[0]);
    bc_strv_free(pieces2);
''','''    char *decoded = br_urldecode(pieces[1]);
    char **pieces2 = bc_str_split(decoded, '?', 2);
    free(decoded);
    char *path = bc_strdup(pieces2 != NULL ? pieces2[0] : NULL);
    bc_strv_free(pieces2);
''')]
FILES={'demo.py':'''import os, socket, subprocess, sys, tempfile, shutil, time
d = tempfile.mkdtemp()
exe = os.path.abspath('_build/src/blogc-runserver/blogc-runserver')
p = None
try:
    for n, t in (('a.txt', 'plain'), ('a?b.txt', 'mark'), ('a', 'bare')):
        open(os.path.join(d, n), 'w').write(t)
    s = socket.socket(); s.bind(('127.0.0.1', 0)); port = s.getsockname()[1]; s.close()
    p = subprocess.Popen([exe, '-t', '127.0.0.1', '-p', str(port), d], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    def get(path):
        for _ in range(100):
            try:
                c = socket.create_connection(('127.0.0.1', port), timeout=10); break
            except OSError:
                time.sleep(.05)
        c.sendall(b'GET ' + path + b' HTTP/1.0\\r\\n\\r\\n'); c.shutdown(socket.SHUT_WR)
        o = b''
        while True:
            x = c.recv(4096)
            if not x: break
            o += x
        return o.split(b'\\r\\n\\r\\n', 1)[-1]
    r = [get(b'/a.txt'), get(b'/a.txt?x=1'), get(b'/a%3fb.txt')]
    sys.exit(r != [b'plain', b'plain', b'mark'])
finally:
    if p: p.kill(); p.wait()
    shutil.rmtree(d)
'''}
DEMO='#!/bin/bash\nexec timeout 60 python3 "$(dirname "$0")/demo.py"\n'
