"""Run the proof jobs of a property in parallel worker processes."""
import importlib
import json
import multiprocessing as mp
import os
import resource
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INC = os.path.join(VERIF, '.build', 'inc')


def contracts_of(mod):
    M = importlib.import_module('contracts.' + mod)
    return getattr(M, 'CONC', {}), getattr(M, 'VIEW', {}), M


def environment(mod, name):
    """-> (contract under proof, contracts visible to it, abstract mode)"""
    from contracts import utils_c, abs as A
    CONC, VIEW, M = contracts_of(mod)
    if name in VIEW:
        c = VIEW[name]
        base = {k: v for k, v in utils_c.CONC.items() if not getattr(v, 'concrete', False)}
        base.update(A.ABS)
        base.update(getattr(M, 'USES', {}))
        base.update(VIEW)
        ab = True
    else:
        c = CONC[name]
        base = dict(utils_c.CONC)
        base.update(getattr(M, 'USES', {}))
        base.update(CONC)
        ab = False
    for k in getattr(c, 'hide', ()):
        base.pop(k, None)
    if not getattr(c, 'recursive', False):
        base.pop(name, None)
    return c, base, ab


def prove_one(prog, mod, name, tier='quick', shard=None):
    from vc.sym import Engine
    from vc import lib
    from vc.cast import Unsupported
    t = time.time()
    r = {'module': mod, 'function': name, 'failures': [], 'obligations': 0, 'by': {}, 'solver_s': 0, 'error': None}
    try:
        c, base, ab = environment(mod, name)
        r['file'] = c.file
        tb = dict(lib.TRUSTED)
        tb.update(getattr(sys.modules['contracts.' + mod], 'BUILTINS', {}))
        e = Engine(prog, base, tb, timeout_ms=10000 if tier == 'quick' else 30000, abstract=ab)
        e.shard = shard
        e.feas_ms = getattr(c, "feas_ms", e.feas_ms)
        e.fnptr_handler = getattr(c, 'fnptr', None)
        e.verify(c)
        r['obligations'] = e.nob
        r['by'] = e.by
        r['kinds'] = e.kinds
        r['solver_s'] = round(e.solver_s, 2)
        r['maxq'] = round(e.maxq, 2)
        r['calls'] = sorted(e.calls_used)
        r['inlined'] = sorted(e.inlined)
        r['terminates'] = {str(k): v for k, v in e.terms.items() if isinstance(k, str)}
        if os.environ.get('VC_FAIL'):
            for f in e.failures:
                print('FAIL', f.name(), f.line, f.status, [str(x[0]) + ':' + str(x[1]) if len(x) > 1 else str(x) for x in f.path[-14:]], f.formula[:700], flush=True)
        vac = [k for k, v in e.covers.items() if not v]
        for f in e.failures:
            r['failures'].append({'obligation': f.name(), 'line': f.line, 'status': f.status, 'formula': f.formula, 'path': [list(map(str, p)) for p in f.path[-12:]], 'inputs': f.inputs})
        if vac and not e.failures and not getattr(c, 'maydead', False):
            r['failures'].append({'obligation': '%s:vacuity:%s' % (name, vac), 'line': None, 'status': 'unreachable', 'formula': 'a contract precondition, loop invariant or return is unreachable', 'path': [], 'inputs': None})
        if e.nob == 0 and shard is None:
            r['failures'].append({'obligation': '%s:vacuity:no obligation generated' % name, 'line': None, 'status': 'none', 'formula': '', 'path': [], 'inputs': None})
    except Unsupported as x:
        r['error'] = 'extraction: %s' % x
    except Exception as x:
        r['error'] = 'verifier: %s: %s' % (type(x).__name__, x)
        r['trace'] = traceback.format_exc()[-3000:]
        if os.environ.get('VC_TRACE'):
            traceback.print_exc()
    if r['error']:
        r['failures'].append({'obligation': '%s:extraction' % name, 'line': None, 'status': r['error'], 'formula': r.get('trace', ''), 'path': [], 'inputs': None})
    r['wall_s'] = round(time.time() - t, 2)
    return r


def _child(prog, mod, name, tier, q, limit, shard=None):
    resource.setrlimit(resource.RLIMIT_AS, (limit, limit))
    sys.setrecursionlimit(20000)
    try:
        q.send(prove_one(prog, mod, name, tier, shard))
    except BaseException as x:
        try:
            q.send({'module': mod, 'function': name, 'failures': [{'obligation': name + ':extraction', 'line': None, 'status': 'verifier ended: %s' % type(x).__name__, 'formula': '', 'path': [], 'inputs': None}],
                    'obligations': 0, 'by': {}, 'solver_s': 0, 'wall_s': 0, 'error': str(x)})
        except Exception:
            pass


def run_jobs(jobs, tier='quick', nproc=8, tmo=420, deadline=None, verbose=False):
    """jobs: [(module, function)] -> results in order. A function for which the solver gave up on a few obligations is
    proved once more, with three times the solver's time: giving up can be a matter of the machine's load."""
    rs = run_once(jobs, tier, nproc, tmo, deadline, verbose)
    t = time.time()
    again = [i for i, r in enumerate(rs) if r['failures'] and len(r['failures']) <= 4 and not r['error'] and all(f['status'] == 'unknown' for f in r['failures'])
             and (not deadline or t + 4 * r['wall_s'] + 40 < deadline)]
    if again and len(again) <= 3:
        for i, r in zip(again, run_once([jobs[i] for i in again], 'thorough', nproc, tmo, deadline, verbose)):
            if not r['failures']:
                r['solver_s'] += rs[i]['solver_s']
                rs[i] = r
    return rs


def run_once(jobs, tier, nproc, tmo, deadline, verbose):
    from vc.cast import Program, Unsupported
    os.makedirs(INC, exist_ok=True)
    prog = Program(INC)
    for mod, name in jobs:
        try:
            c, _, _ = environment(mod, name)
            if c.file:
                prog.unit(c.file)
        except Exception:
            pass
    whole, jobs, part = list(jobs), [], []
    for mod, name in whole:
        k = 1
        try:
            k = getattr(environment(mod, name)[0], 'shards', 1)
        except Exception:
            pass
        for w in range(k):
            jobs.append((mod, name))
            part.append((w, k) if k > 1 else None)
    res = [None] * len(jobs)
    todo = list(range(len(jobs)))
    weights = {}
    try:
        weights = json.load(open(os.path.join(VERIF, 'contracts', 'weights.json')))
    except Exception:
        pass
    todo.sort(key=lambda i: -weights.get('%s.%s' % jobs[i], 1))
    running = {}
    ctx = mp.get_context('fork')
    while todo or running:
        while todo and len(running) < nproc:
            i = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(prog, jobs[i][0], jobs[i][1], tier, b, 6 << 30, part[i]))
            p.start()
            b.close()
            running[i] = (p, a, time.time())
        for i, (p, a, t0) in list(running.items()):
            done = False
            if a.poll(0):
                try:
                    res[i] = a.recv()
                except EOFError:
                    pass
                done = True
            elif not p.is_alive():
                if a.poll(0.1):
                    try:
                        res[i] = a.recv()
                    except EOFError:
                        pass
                done = True
            elif time.time() - t0 > tmo or (deadline and time.time() > deadline):
                done = True
            if done:
                if p.is_alive():
                    p.join(1)
                if p.is_alive():
                    p.terminate(); p.join(2)
                    if p.is_alive():
                        p.kill()
                if res[i] is None:
                    res[i] = {'module': jobs[i][0], 'function': jobs[i][1], 'obligations': 0, 'by': {}, 'solver_s': 0, 'wall_s': round(time.time() - t0, 2), 'error': 'no result',
                              'failures': [{'obligation': jobs[i][1] + ':undecided', 'line': None, 'status': 'verifier out of time or memory', 'formula': '', 'path': [], 'inputs': None}]}
                a.close()
                del running[i]
                if verbose:
                    r = res[i]
                    print('%-34s ob %4d  %6.1fs maxq %s %s' % (r['function'], r['obligations'], r['wall_s'], r.get('maxq'), 'OK' if not r['failures'] else 'FAIL ' + '; '.join('%s@%s(%s)' % (f['obligation'], f['line'], f['status'][:150]) for f in r['failures'][:8])), flush=True)
        time.sleep(0.02)
    out, i = [], 0
    while i < len(jobs):
        k = part[i][1] if part[i] else 1
        out.append(res[i] if k == 1 else merge(res[i:i + k]))
        i += k
    return out


def merge(rs):
    """one result from the shards of one function"""
    r = dict(rs[0])
    for k in ('obligations', 'solver_s'):
        r[k] = sum(x.get(k, 0) for x in rs)
    for k in ('by', 'kinds'):
        d = {}
        for x in rs:
            for a, b in x.get(k, {}).items():
                d[a] = d.get(a, 0) + b
        r[k] = d
    for k in ('calls', 'inlined'):
        r[k] = sorted({a for x in rs for a in x.get(k, [])})
    r['wall_s'] = max(x['wall_s'] for x in rs)
    seen, fl = set(), []
    for x in rs:
        for f in x['failures']:
            t = (f['obligation'], f['line'], str(f['path']))
            if t not in seen:
                seen.add(t)
                fl.append(f)
    r['failures'] = fl
    r['error'] = next((x['error'] for x in rs if x.get('error')), None)
    if r['obligations'] == 0 and not fl:
        r['failures'].append({'obligation': '%s:vacuity:no obligation generated' % r['function'], 'line': None, 'status': 'none', 'formula': '', 'path': [], 'inputs': None})
    return r


if __name__ == '__main__':
    jobs = []
    for a in sys.argv[1:]:
        if ':' in a:
            m, f = a.split(':')
            jobs.append((m, f))
        else:
            cc, vv, _ = contracts_of(a)
            jobs += [(a, n) for n in list(cc) + list(vv)]
    t = time.time()
    rs = run_jobs(jobs, verbose=True)
    print('total obligations', sum(r['obligations'] for r in rs), 'failed functions', sum(1 for r in rs if r['failures']), 'wall %.1f' % (time.time() - t))
