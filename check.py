#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough]: decide one property on /repo's current tree."""
import argparse
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ.setdefault('PYTHONHASHSEED', '0')


def findings(prop):
    out = []
    try:
        for l in open(os.path.join(HERE, 'known_findings.txt')):
            if l.startswith('known:') and ('property=%s ' % prop) in l:
                out.append(l.strip())
    except OSError:
        pass
    return out


def known_match(v, known):
    for k in known:
        key = k.split('key=', 1)[1].split(' ', 1)[0] if 'key=' in k else None
        if key and key == v.get('key'):
            return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--no-proof', action='store_true')
    ap.add_argument('--no-bounded', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    from props import PROPS
    from vc import runner
    p = PROPS[a.prop]
    known = findings(a.prop)
    # ---- stage 1: the verifier
    rs = []
    if not a.no_proof:
        budget = 620 if a.tier == 'quick' else 2400
        rs = runner.run_jobs(list(p['proofs']), a.tier, tmo=600 if a.tier == 'quick' else 1500, deadline=t0 + budget)
    nob = sum(r['obligations'] for r in rs)
    failed = [(r, f) for r in rs for f in r['failures']]
    # ---- stage 2: bounded stand-ins, and the search for a failing input when an obligation failed
    viol, known_hit = [], []
    bounded = []
    samples = []
    if not a.no_bounded:
        scale = 1 if a.tier == 'quick' else 12
        rounds = [(seed, scale)]
        if failed:
            rounds += [(seed + 1000, 4 * scale), (seed + 2000, 8 * scale)]
        for sd, sc in rounds:
            for name, fn in p['bounded']:
                t1 = time.time()
                if time.time() - t0 > 780 and a.tier == 'quick':
                    break
                try:
                    r = fn(sd, sc)
                except Exception as x:
                    msg = '%s: %s' % (type(x).__name__, x)
                    r = {'cases': 0, 'bad': [{'what': name, 'got': 'the code could not be run: ' + msg, 'expected': 'a run', 'norun': True, 'trace': traceback.format_exc()[-2000:]}], 'samples': []}
                bounded.append({'suite': name, 'cases': r['cases'], 'seed': sd, 'wall_s': round(time.time() - t1, 2)})
                samples += r.get('samples', [])[:3]
                for b in r['bad']:
                    b['suite'] = name
                    k = known_match(b, known)
                    if k:
                        known_hit.append(k)
                    else:
                        viol.append(b)
            if [v for v in viol if not v.get('norun')]:
                break
    concrete = [v for v in viol if not v.get('norun')]
    for k in sorted(set(known)):
        print('KNOWN-FINDING: property=%s %s' % (a.prop, k.split(' ', 3)[-1]))
    rp = None
    rc = 0
    if viol or failed:
        rc = 1
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        rp = os.path.join(HERE, 'replays', '%s.json' % a.prop)
        json.dump({'property': a.prop, 'failing_inputs': concrete[:20], 'not_run': [v for v in viol if v.get('norun')][:5],
                   'failed_obligations': [dict(f, function=r['function'], file=r.get('file')) for r, f in failed][:40],
                   'how': 'failing_inputs: request sent to the driver of the suite (bounded/), built from /repo with ASan+UBSan; failed_obligations: named obligation, source line, path and solver answer'},
                  open(rp, 'w'), indent=1)
        for r, f in failed[:10]:
            print('obligation %s (line %s): %s' % (f['obligation'], f['line'], f['status']))
        for v in viol[:5]:
            print('input: %s' % json.dumps(v)[:1500])
        print('VIOLATION property=%s replay=%s%s' % (a.prop, rp, '' if concrete else ' no-failing-input-found'))
    by = {}
    for r in rs:
        for k, v in r['by'].items():
            by[k] = by.get(k, 0) + v
    from vc import lib
    used = sorted({c for r in rs for c in r.get('calls', [])})
    trusted = ['Python VC generator in /verif/vc over the clang 18 AST', 'z3']
    assume = list(p.get('assume', []))
    proved_here = {r['function'] for r in rs}
    allproved = {f for q in PROPS.values() for _, f in q['proofs']}
    for c in used:
        if c in proved_here:
            continue
        if c in allproved:
            assume.append('contract of %s is used here and discharged by another check' % c)
        else:
            n = getattr(lib.TRUSTED.get(c), 'note', '')
            trusted.append('contract of %s (assumed%s)' % (c, ': ' + n if n else ''))
    cov = {'obligations': nob, 'discharged': sum(by.values()), 'checker_cmd': 'python3-vt check.py %s' % a.prop, 'trusted_base': trusted,
           'backends': by, 'solver_s': round(sum(r['solver_s'] for r in rs), 1),
           'functions': [{'function': r['function'], 'file': r.get('file'), 'obligations': r['obligations'], 'kinds': r.get('kinds'), 'wall_s': r['wall_s'], 'inlined': r.get('inlined'), 'loops_proved_terminating': r.get('terminates'), 'failed': [f['obligation'] for f in r['failures']]} for r in rs],
           'bounded': bounded, 'evaluations': sum(b['cases'] for b in bounded), 'distinct_nontrivial': sum(b['cases'] for b in bounded),
           'rule': p.get('rule', 'distinct requests to the instrumented real code, each compared with the executable contract; bounded, never counted as proved'),
           'samples': samples[:6]}
    ev = {'property': a.prop, 'tier': a.tier, 'seed': seed, 'level': p.get('level', 'proof' if p['proofs'] else 'exploration'), 'coverage': cov, 'assumptions': assume + p.get('unverified', []),
          'wall_s': round(time.time() - t0, 2), 'violations': len(viol) + len(failed)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d bounded cases, %.1fs -> %s' % (a.prop, nob, sum(by.values()), cov['evaluations'], time.time() - t0, 'violated' if rc else 'holds'))
    return rc


if __name__ == '__main__':
    sys.exit(main())
