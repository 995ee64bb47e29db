#!/usr/bin/env python3
"""check.py PROPERTY [--thorough]    decide one property on /repo's current tree
check.py --baseline                 regenerate baseline.json (on the unchanged tree only)"""
import json
import os
import sys
import time
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import front, verify, props, lints

HERE = os.path.dirname(os.path.abspath(__file__))
KNOWN = os.path.join(HERE, 'known_findings.txt')


def known():
    """open findings: property -> list of keys"""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('open: '):
                p, key = l[6:].split(' ', 1)
                out.setdefault(p.replace('property=', ''), []).append(key)
    return out


def where_of(prog, path):
    f = prog.defs.get(path) or {}
    return '%s:%s' % (f.get('file', '?'), f.get('line', '?'))


def named(k):
    return k if isinstance(k, str) else 'loops unrolled %d times' % k


def exact(r):
    """what an analysis of precise paths gave"""
    if r.status == 'proved':
        return 'proved: %d obligations on %d paths%s' % (r.discharged, r.outcomes, ', some paths cut off' if r.cut else '')
    return 'failing' if [f for f in r.fails if f[0] != 'analysis'] else 'no failing path, not complete'


def check(prop, tier):
    t0 = time.time()
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'proof'}
    prog = verify.load()
    base = verify.load_base()
    run = verify.Run(prog, base)
    run.prop = prop
    roots = props.roots(prop)
    viol, und, seen = [], [], set()
    if roots:
        if tier == 'thorough':
            run._limit, run.end, run.skip = 1200, t0 + 7200, False
        seen = run.closure(roots)
        viol, und = run.decide(seen, lambda p, rule, msg: props.PROPS[prop][2](p, rule, msg, p in roots))
    lintres = [lints.LINTS[n](prog) for n in props.PROPS[prop][1]]
    entries = []
    for p, fails in viol:
        for rule, msg, w in fails[:3]:
            entries.append({'key': '%s: %s' % (p, rule), 'function': p, 'at': where_of(prog, p), 'rule': rule,
                            'what': msg, 'path': w})
    for lr in lintres:
        for key, what in lr['bad']:
            entries.append({'key': key, 'function': key.split(': ')[0], 'rule': lr['rule'], 'what': what, 'at': '', 'path': ''})
    for p in roots:
        if p not in prog.defs:
            entries.append({'key': '%s: missing' % p, 'function': p, 'at': '', 'rule': 'public operation missing',
                            'what': 'the crate has no such function', 'path': ''})
    kn = known().get(prop, [])
    new = [e for e in entries if e['key'] not in kn]
    for k in kn:
        if any(e['key'] == k for e in entries):
            print('KNOWN-FINDING: property=%s %s' % (prop, k))
    proved = sorted(p for p in seen if run.res[p].status == 'proved')
    trait = sorted({u for p in seen for u in run.res[p].used if verify.SPECS.get(u) and verify.SPECS[u].trait
                    and not run.impls(u)})
    obl = sum(run.res[p].discharged for p in proved)
    for lr in lintres:
        obl += lr['checked']
    undecided = [{'function': p, 'at': where_of(prog, p), 'why': ['%s: %s' % (f[0], f[1]) for f in fs],
                  'on_unchanged_tree': (verify.base_of(base, p) or {}).get('summary', 'unknown'),
                  'precise_paths': {named(k): exact(r) for k, r in sorted(run.peels.get(p, {}).items(), key=str)}} for p, fs in und]
    missing = [p for p in roots if p in run.dropped]
    und_n = len(und)
    ev['level'] = 'proof'
    ev['coverage'] = {
        'obligations': obl + sum(len(run.res[p].fails) for p in seen),
        'discharged': obl,
        'checker_cmd': 'python3 check.py %s%s' % (prop, ' --thorough' if tier == 'thorough' else ''),
        'trusted_base': ['rustc nightly MIR of the library', 'driver/mirdump.rs', 'vlib/ (abstract interpreter and its models of core/alloc functions)']
        + ['assumed contract of each digit type: ' + t for t in trait],
        'explanation': 'Every listed function was analysed from its MIR with symbolic digit count and digit base; loops were '
                       'summarised by inferred invariants, calls by contracts that are themselves listed and verified.',
        'functions_proved': [{'function': p, 'at': where_of(prog, p), 'obligations': run.res[p].discharged,
                              'paths': run.res[p].outcomes, 'loops': run.res[p].loops} for p in proved],
        'undecided': undecided,
        'roots': len(roots), 'roots_without_contract_target': missing, 'notes': run.notes,
        'lints': [{k: v for k, v in lr.items() if k != 'bad'} for lr in lintres],
    }
    ev['assumptions'] = ['contract of %s assumed, its proof is not complete' % u['function'] for u in undecided]
    ev['violations'] = len(new)
    rc = 0
    if new:
        rd = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, prop + '.json')
        json.dump({'property': prop, 'violations': new}, open(rp, 'w'), indent=1)
        for e in new[:8]:
            print('%s %s\n    rule: %s\n    %s\n    %s' % (e['function'], e['at'], e['rule'], e['what'], e['path']))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        rc = 1
    ev['wall_s'] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s: %d obligations discharged, %d functions, %d undecided, %d violations, %.1fs'
          % (prop, obl, len(seen), und_n, len(new), time.time() - t0))
    return rc


def baseline(only=()):
    prog = verify.load()
    run = verify.Run(prog, {})
    ps = [p for p in verify.SPECS if not verify.SPECS[p].trait and p not in run.dropped]
    jobs = [(p, k, run.dropped, 600) for p in ps for k in verify.keys_of(p)]
    out = {}
    if only:
        old = verify.load_base()
        jobs = [j for j in jobs if any(x in j[0] for x in only) and not (
            j[1] is None and '--keep' in only and j[0] in old and old[j[0]]['summary'] != 'proved')]
        out = {p: e for p, e in old.items() if p in ps and p not in {j[0] for j in jobs}}
        for p in {j[0] for j in jobs}:
            if (p, None) not in {j[:2] for j in jobs}:
                out[p] = dict(old[p], complete=[])
    for r in verify.par(jobs):
        e = out.setdefault(r.path, {'sig': verify.signature(prog, prog.defs[r.path]), 'complete': []})
        if r.peel is None:
            e['summary'] = r.status
            if r.status != 'proved':
                e['why'] = '%s: %s' % r.fails[0][:2] if r.fails else ''
                e['used'] = sorted(r.used)
        elif r.status == 'proved':
            e['complete'].append(r.peel)
        if r.status != 'proved':
            print('%-60s peel=%s %s %s %.0fs' % (r.path, r.peel, r.status, r.fails[:1], r.secs))
        elif r.secs > 20:
            print('%-60s peel=%s %.0fs' % (r.path, r.peel, r.secs))
    for e in out.values():
        e['complete'].sort(key=str)
    json.dump(out, open(verify.BASE, 'w'), indent=0, sort_keys=True)
    print('%d contracts, %d proved, %d with precise paths' % (len(out), sum(e['summary'] == 'proved' for e in out.values()),
                                                              sum(bool(e['complete']) for e in out.values())))
    return 0


if __name__ == '__main__':
    a = sys.argv[1:]
    if a[:1] == ['--setup']:
        env = front._env()
        os.makedirs(front.BUILD, exist_ok=True)
        front.build_driver(env)
        sys.exit(0)
    if a[:1] == ['--baseline']:
        sys.exit(baseline(a[1:]))
    tier = 'thorough' if '--thorough' in a or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    sys.exit(check(a[0], tier))
