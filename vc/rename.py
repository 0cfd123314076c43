"""Contracts name local variables.  When a local was renamed in /repo, map it back to the name the
contract was written for (same type, same order of declaration); nothing else is changed."""
import json
import os
from .cast import node_type

FILE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts', 'baseline.json')
_base = None


def base():
    global _base
    if _base is None:
        try:
            _base = json.load(open(FILE))
        except OSError:
            _base = {}
    return _base


def decls(fn):
    out, stack = [], [fn]
    while stack:
        n = stack.pop()
        if n.get('kind') == 'VarDecl' and 'name' in n and n.get('storageClass') != 'static':
            out.append(n)
        for c in reversed(n.get('inner', []) or []):
            if isinstance(c, dict):
                stack.append(c)
    return out


def tyname(n):
    t = n.get('type', {})
    return t.get('desugaredQualType') or t.get('qualType')


def describe(fn):
    return [[d['name'], tyname(d)] for d in decls(fn)]


def undo(path, fn):
    """rename locals of fn (in the AST) back to baseline names where that is unambiguous"""
    key = '%s:%s' % ('/'.join(path.split('/')[-2:]), fn['name'])
    b = base().get(key)
    if b is None or fn.get('_undone'):
        return
    fn['_undone'] = True
    ds = decls(fn)
    cur = [d['name'] for d in ds]
    old = [x[0] for x in b]
    missing = [x for x in b if x[0] not in cur]
    seen = set()
    new = [d for d in ds if d['name'] not in old]
    params = {c['name'] for c in fn.get('inner', []) if c.get('kind') == 'ParmVarDecl' and 'name' in c}
    ren = {}
    used = set()
    for name, ty in missing:
        if name in seen or name in params:
            continue
        seen.add(name)
        for d in new:
            if d['id'] in ren or d['name'] in used or tyname(d) != ty:
                continue
            used.add(d['name'])
            for e in new:
                if e['name'] == d['name'] and tyname(e) == ty:
                    ren[e['id']] = name
            break
    if not ren:
        return
    stack = [fn]
    while stack:
        n = stack.pop()
        if n.get('kind') == 'VarDecl' and n.get('id') in ren:
            n['name'] = ren[n['id']]
        r = n.get('referencedDecl')
        if r and r.get('id') in ren:
            r['name'] = ren[r['id']]
        for c in n.get('inner', []) or []:
            if isinstance(c, dict):
                stack.append(c)


if __name__ == '__main__':
    import glob
    from vc.cast import Program, REPO
    from vc.runner import INC
    os.makedirs(INC, exist_ok=True)
    p = Program(INC)
    out = {}
    for f in sorted(glob.glob(os.path.join(REPO, 'src', '*', '*.c'))):
        try:
            u = p.unit(f)
        except Exception as x:
            print(f, str(x)[:200])
            continue
        for n, fn in u.functions.items():
            if fn.get('_file') in (None, f) or fn.get('_file', '').endswith(os.path.basename(f)):
                out['%s:%s' % ('/'.join(f.split('/')[-2:]), n)] = describe(fn)
    json.dump(out, open(FILE, 'w'), indent=0, sort_keys=True)
    print(len(out), 'functions')
