"""Front end: clang's typed AST (JSON) of /repo's current source -> compact tables.

Nothing is transcribed by hand: every function body the verifier sees is what
`clang-18 -ast-dump=json` printed for the file in /repo on this very run.
"""
import json, os, re, subprocess, sys, tempfile, glob
sys.setrecursionlimit(100000)

REPO = os.environ.get('VERIF_REPO', '/repo')


class Unsupported(Exception):
    pass


def make_config_h(outdir):
    """config.h as cmake would generate it on this platform (every feature test
    of the project's CMakeLists is true on Linux/glibc)."""
    src = open(os.path.join(REPO, 'config.h.in')).read()
    out = []
    for line in src.splitlines():
        m = re.match(r'\s*#\s*cmakedefine01\s+(\w+)', line)
        if m:
            out.append('#define %s 1' % m.group(1)); continue
        m = re.match(r'\s*#\s*cmakedefine\s+(\w+)(.*)', line)
        if m:
            rest = re.sub(r'@\w+@', '"0.0.0"', m.group(2)).replace('""', '"')
            out.append('#define %s%s' % (m.group(1), rest if rest.strip() else ' 1')); continue
        line = re.sub(r'"?@\w+@"?', '"0.0.0"', line)
        out.append(line)
    os.makedirs(outdir, exist_ok=True)
    p = os.path.join(outdir, 'config.h')
    text = '\n'.join(out) + '\n'
    with open(p, 'w') as fh:
        fh.write(text)
    return p


# ---------------------------------------------------------------- types
INTS = {
    'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False),
    'short': (16, True), 'unsigned short': (16, False),
    'int': (32, True), 'unsigned int': (32, False), 'unsigned': (32, False),
    'long': (64, True), 'unsigned long': (64, False),
    'long long': (64, True), 'unsigned long long': (64, False),
    '_Bool': (8, False), 'bool': (8, False),
    'size_t': (64, False), 'ssize_t': (64, True), 'uint8_t': (8, False),
    'uint32_t': (32, False), 'uint16_t': (16, False), '__mode_t': (32, False),
    'mode_t': (32, False), 'pid_t': (32, True), '__pid_t': (32, True),
    'time_t': (64, True), '__time_t': (64, True), 'off_t': (64, True),
    '__ssize_t': (64, True), '__off_t': (64, True), '__off64_t': (64, True),
    'int64_t': (64, True), 'uint64_t': (64, False), 'int32_t': (32, True),
    'uint_fast32_t': (64, False), 'socklen_t': (32, False), 'in_port_t': (16, False),
    '__int128': (128, True), 'unsigned __int128': (128, False),
    'sa_family_t': (16, False), 'in_addr_t': (32, False),
}
VOID = ('void',)
BOOL = ('bool',)
CHAR = ('int', 8, True)
INT = ('int', 32, True)
SIZE_T = ('int', 64, False)


def Ptr(t):
    return ('ptr', t)


class Unit:
    def __init__(self, path):
        self.path = path
        self.functions = {}
        self.records = {}
        self.enumconst = {}
        self.enums = set()
        self.globals = {}
        self.globals_by_id = {}
        self.typedefs = {}
        self.protos = {}


_type_cache = {}


def strip_quals(s):
    s = re.sub(r'\b(const|volatile|restrict|__restrict|_Nonnull|_Nullable|register|static|extern)\b', ' ', s)
    return re.sub(r'\s+', ' ', s).strip()


def parse_type(s, unit):
    key = (s, id(unit))
    if key in _type_cache:
        return _type_cache[key]
    t = _parse_type(s, unit)
    _type_cache[key] = t
    return t


def _parse_type(s, unit):
    s = strip_quals(s)
    # function pointer:  R (*)(...)
    m = re.match(r'^(.*?)\(\*+\)\s*\(.*\)$', s)
    if m:
        return ('ptr', ('func', s))
    m = re.match(r'^(.*?)\(\*\)\s*\[(\d*)\]$', s)
    if m:
        return ('ptr', ('arr', parse_type(m.group(1), unit), int(m.group(2) or 0)))
    if s.endswith(']'):
        # innermost-first array suffixes
        m = re.match(r'^(.*?)\s*((\[\d*\])+)$', s)
        if m is None:
            raise Unsupported('array type ' + s)
        base = m.group(1)
        dims = re.findall(r'\[(\d*)\]', m.group(2))
        t = parse_type(base, unit)
        for d in reversed(dims):
            t = ('arr', t, int(d or 0))
        return t
    if s.endswith(')'):
        return ('func', s)
    if s.endswith('*'):
        return ('ptr', parse_type(s[:-1].strip(), unit))
    if s == 'void':
        return VOID
    if s in ('_Bool', 'bool'):
        return BOOL
    if s in ('float', 'double', 'long double'):
        return ('float',)
    if s in INTS:
        b, sg = INTS[s]
        return ('int', b, sg)
    if s.startswith('enum '):
        return ('int', 32, False)
    if s.startswith('struct ') or s.startswith('union '):
        return ('struct', s.split(' ', 1)[1])
    if s in unit.records:
        return ('struct', s)
    if s in unit.enums:
        return ('int', 32, False)
    if s in unit.typedefs:
        d = unit.typedefs[s]
        if strip_quals(d) != s:
            return parse_type(d, unit)
    if s in ('va_list', '__builtin_va_list', '__gnuc_va_list', 'struct __va_list_tag'):
        return ('struct', '__va_list_tag')
    return ('struct', s)


def node_type(n, unit):
    t = n.get('type')
    if t is None:
        return VOID
    s = t.get('desugaredQualType') or t.get('qualType')
    return parse_type(s, unit)


def _annotate_lines(root, mainfile):
    """clang's JSON delta-codes file/line; make every node carry an absolute one."""
    cur = {'file': None, 'line': None}

    def loc(d):
        if not isinstance(d, dict):
            return
        if 'spellingLoc' in d or 'expansionLoc' in d:
            for k, v in d.items():
                if k in ('spellingLoc', 'expansionLoc'):
                    loc(v)
            e = d.get('expansionLoc') or d.get('spellingLoc')
            d['_line'] = e.get('_line'); d['_file'] = e.get('_file')
            return
        if 'file' in d:
            cur['file'] = d['file']
        if 'line' in d:
            cur['line'] = d['line']
        d['_line'] = cur['line']
        d['_file'] = cur['file']

    stack = [root]
    while stack:
        n = stack.pop()
        if 'loc' in n:
            loc(n['loc'])
        r = n.get('range')
        if r:
            loc(r.get('begin'))
            loc(r.get('end'))
            b = r.get('begin') or {}
            n['_line'] = b.get('_line'); n['_file'] = b.get('_file')
        for c in reversed(n.get('inner', []) or []):
            if isinstance(c, dict):
                stack.append(c)


def _enum_value(n):
    for c in n.get('inner', []):
        if c.get('kind') == 'ConstantExpr' and 'value' in c:
            return int(c['value'])
        v = _enum_value(c)
        if v is not None:
            return v
    if n.get('kind') == 'IntegerLiteral':
        return int(n['value'])
    return None


def parse_file(path, incdir, extra=()):
    cmd = ['clang-18', '-fsyntax-only', '-w', '-D_GNU_SOURCE', '-DHAVE_CONFIG_H', '-I', incdir,
           '-Xclang', '-ast-dump=json', *extra, path]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise Unsupported('clang failed on %s: %s' % (path, p.stderr.decode()[:2000]))
    root = json.loads(p.stdout)
    _annotate_lines(root, path)
    u = Unit(path)
    last_rec = None
    for n in root.get('inner', []):
        k = n.get('kind')
        if k == 'RecordDecl':
            last_rec = n
            if n.get('completeDefinition'):
                fields = [(c['name'], c) for c in n.get('inner', []) if c.get('kind') == 'FieldDecl' and 'name' in c]
                n['_fields'] = fields
                if 'name' in n:
                    u.records[n['name']] = fields
        elif k == 'EnumDecl':
            if 'name' in n:
                u.enums.add(n['name'])
            v = -1
            for c in n.get('inner', []):
                if c.get('kind') == 'EnumConstantDecl':
                    ev = _enum_value(c)
                    v = ev if ev is not None else v + 1
                    u.enumconst[c['name']] = v
            n['_isenum'] = True
            last_rec = n
        elif k == 'TypedefDecl':
            q = n['type'].get('desugaredQualType') or n['type']['qualType']
            u.typedefs[n['name']] = q
            inner = (n.get('inner') or [{}])[0]
            own = inner.get('ownedTagDecl') or (inner.get('decl') if inner.get('kind') in ('RecordType', 'EnumType') else None)
            if own and own.get('kind') == 'EnumDecl':
                u.enums.add(n['name'])
            if own and own.get('kind') == 'RecordDecl' and last_rec is not None and last_rec.get('id') == own.get('id'):
                u.records[n['name']] = last_rec.get('_fields', [])
            elif last_rec is not None and last_rec.get('_isenum') and own and own.get('id') == last_rec.get('id'):
                u.enums.add(n['name'])
        elif k == 'FunctionDecl':
            u.protos[n['name']] = n
            if any(c.get('kind') == 'CompoundStmt' for c in n.get('inner', [])):
                u.functions[n['name']] = n
        elif k == 'VarDecl':
            u.globals[n['name']] = n
            u.globals_by_id[n['id']] = n
    return u


class Program:
    """All units of the repository, parsed on demand."""

    def __init__(self, incdir):
        self.incdir = incdir
        self.units = {}
        make_config_h(incdir)
        self.index = {}
        self._build_index()

    def _build_index(self):
        for f in sorted(glob.glob(os.path.join(REPO, 'src', '*', '*.c'))):
            txt = open(f, errors='replace').read()
            for m in re.finditer(r'^([A-Za-z_]\w*)\s*\(', txt, re.M):
                self.index.setdefault(m.group(1), []).append(f)

    def unit(self, rel):
        path = rel if os.path.isabs(rel) else os.path.join(REPO, rel)
        if path not in self.units:
            self.units[path] = parse_file(path, self.incdir)
        return self.units[path]

    def find(self, fname, prefer=None):
        """-> (unit, FunctionDecl) or None"""
        if prefer is not None and fname in prefer.functions:
            return prefer, prefer.functions[fname]
        for f in self.index.get(fname, []):
            u = self.unit(f)
            if fname in u.functions:
                fn = u.functions[fname]
                if fn.get('storageClass') == 'static' and prefer is not None and u is not prefer:
                    continue
                return u, fn
        return None
