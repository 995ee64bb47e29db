"""Deciding one property: verify its root functions and everything their proofs rely on."""
import json
import os
import re
import signal
import sys
import time
import multiprocessing as mp
from . import front, models, spec, state
from .spec import SPECS

HERE = front.HERE
BASE = os.path.join(HERE, 'baseline.json')
PEELS = (1, 2, 3)
GIVEN = 'given invariant'      # the loop analysed with an invariant of invariants.py


def variant(key):
    """how a contract is analysed: None (loops summarised), k (loops unrolled k times) or
    'lengths 24,20,- [peel=1] [sample=6/1]' (slices of these lengths, exact paths, some of them sampled) or
    'given invariant' (as None, with a loop invariant of invariants.py)"""
    if not isinstance(key, str):
        return {'peel': key}
    w = key.split()
    if w[0] == 'given':
        return {}
    out = {'pins': [None if x == '-' else int(x) for x in w[1].split(',')]}
    for x in w[2:]:
        k, v = x.split('=')
        if k == 'peel':
            out['peel'] = int(v)
        if k == 'sample':
            out['beam'] = tuple(int(y) for y in v.split('/'))
    return out


def keys_of(p, deep=True):
    sp = SPECS[p]
    return (None,) + tuple(getattr(sp, 'lengths', ())) + (() if getattr(sp, 'lengths', ()) else PEELS)


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout('time limit')


PROG = None


def load():
    global PROG
    from . import contracts, c_ubig      # register the contracts
    for m in ('c_digit', 'c_mul', 'c_div', 'c_text'):
        if os.path.exists(os.path.join(HERE, 'vlib', m + '.py')):
            __import__('vlib.' + m)
    sys.setrecursionlimit(20000)
    d, h = front.facts()
    PROG = front.Program(d)
    from . import c_digit
    for k, v in c_digit.DEFAULTS.items():
        if v in PROG.defs:
            PROG.defs[k] = PROG.defs[v]
    relocate(PROG)
    return PROG


def tail(p):
    i = p.find('<impl ')
    if i >= 0:
        return p[i:]
    return p if p.startswith('<') else p.split('::')[-1]


def relocate(prog):
    """contracts follow functions that moved to another module"""
    base = load_base()
    byt = {}
    for q, f in prog.defs.items():
        if 'body' in f and q not in SPECS:
            byt.setdefault(tail(canon(f, q)), []).append(q)
    for p in list(SPECS):
        sp = SPECS[p]
        if sp.trait or p in prog.defs or p not in base:
            continue
        c = [q for q in byt.get(tail(p), []) if signature(prog, prog.defs[q]) == base[p]['sig']]
        if len(c) == 1:
            SPECS[c[0]] = SPECS.pop(p)
            MOVED[c[0]] = p


MOVED = {}


def base_of(base, p):
    return base.get(MOVED.get(p, p))


def signature(prog, f):
    b = f['body']
    return canon(f, ' '.join(prog.types[b['locals'][i]]['s'] for i in range(0, b['argc'] + 1)))


def canon(f, s):
    """without the names of lifetimes and of a single type parameter"""
    s = re.sub(r"'[a-z_]\w* ?", '', s)
    g = [x for x in f.get('generics') or [] if not x.startswith("'")]
    if len(g) == 1 and g[0] not in ('T', 'Self'):
        s = re.sub(r'\b%s\b' % g[0], 'T', s)
    return s


class Result:
    """what is left of a Verdict when it crosses a process boundary"""
    def __init__(self, path, peel, vd, secs):
        self.path, self.peel = path, peel
        self.status = vd.status
        self.fails = [(r, str(m)[:400], w) for r, m, w in vd.fails]
        self.discharged, self.outcomes = vd.discharged, vd.outcomes
        self.used = set(vd.used)
        self.loops = len(vd.loops)
        self.cut = vd.cut
        self.hinted = vd.hinted
        self.secs = secs


def job(a):
    path, peel, dropped, limit = a
    t = time.time()
    sp = SPECS[path]
    cs = {k: v for k, v in SPECS.items() if k not in dropped}
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    vd = spec.Verdict(path)
    try:
        vd = spec.attempt(PROG, models, cs, sp, PROG.defs[path], vd=vd, **variant(peel))
    except MemoryError:
        vd.status = 'undecided'
        vd.fails.append(('analysis', 'memory', ''))
    except Timeout:
        vd.status = 'undecided'
        vd.fails.append(('analysis', 'time limit', ''))
    except Exception as e:
        vd.status = 'undecided'
        vd.fails.append(('analysis', '%s: %s' % (type(e).__name__, e), ''))
    finally:
        signal.alarm(0)
    return Result(path, peel, vd, time.time() - t)


def par(jobs, procs=8):
    if not jobs:
        return []
    if procs == 1:
        return [job(j) for j in jobs]
    ctx = mp.get_context('fork')
    with ctx.Pool(min(procs, len(jobs)), maxtasksperchild=1) as pool:
        return list(pool.imap_unordered(job, jobs, 1))


def load_base():
    return json.load(open(BASE)) if os.path.exists(BASE) else {}


# expensive functions, analysed for one property only (and for all of them by the thorough commands);
# for the others they enter through their contracts
OWNER = {'ubig::mul::karatsuba::mul_big_karatsuba_into': 'C07', 'ubig::div::long::div_big_long_scaled': 'C10'}


class Run:
    prop = None

    def elsewhere(self, p):
        return self.skip and self.prop and OWNER.get(p, self.prop) != self.prop

    def __init__(self, prog, base, procs=8, limit=150, total=700, skip=True):
        self.prog, self.base, self.procs, self._limit = prog, base, procs, limit
        self.end = time.time() + total
        self.skip = skip
        self.dropped = set()
        self.notes = []
        for p, sp in SPECS.items():
            if sp.trait:
                continue
            f = prog.defs.get(p)
            if f is None or 'body' not in f:
                self.dropped.add(p)
                continue
            b = base_of(base, p)
            if b and b['sig'] != signature(prog, f):
                self.dropped.add(p)
                self.notes.append('signature of %s changed: contract not used, its body is analysed at each call' % p)
        self.res = {}
        self.peels = {}

    @property
    def limit(self):
        return int(max(1, min(self._limit, self.end - time.time())))

    def hopeless(self, p):
        """its summary is not decided on the unchanged tree"""
        b = base_of(self.base, p)
        return self.skip and b is not None and b.get('summary') != 'proved'

    def skipped(self, p):
        vd = spec.Verdict(p)
        vd.status = 'undecided'
        b = base_of(self.base, p) or {}
        if self.elsewhere(p):
            vd.fails.append(('analysis', 'analysed for property %s (and by the thorough command)' % OWNER[p], ''))
        vd.fails.append(('analysis', b.get('why', 'undecided on the unchanged tree'), ''))
        vd.used = set(b.get('used', ()))
        return Result(p, None, vd, 0)

    def closure(self, roots):
        """verify roots and, transitively, the contracts they use (loops summarised)"""
        want = [p for p in roots if p not in self.dropped]
        seen = set(want)
        while want:
            new = [p for p in want if p not in self.res]
            out = par(sorted(((p, None, self.dropped, self.limit * (2 if GIVEN in getattr(SPECS[p], 'lengths', ()) else 1)) for p in new if not self.hopeless(p) and not self.elsewhere(p)), key=lambda j: -j[3]), self.procs)
            out += [self.skipped(p) for p in new if self.hopeless(p) or self.elsewhere(p)]
            for r in out:
                self.res[r.path] = r
            nxt = []
            for p in want:
                for u in self.res[p].used:
                    for q in self.impls(u):
                        if q not in seen and q not in self.dropped:
                            seen.add(q)
                            nxt.append(q)
            want = nxt
        return seen

    def impls(self, u):
        sp = SPECS.get(u)
        if sp is None:
            return []
        if not sp.trait:
            return [u]
        name = u.split('::')[-1]
        return [p for p in SPECS if getattr(SPECS[p], 'impl_of', None) == u]

    def decide(self, seen, counts=lambda p, rule, msg: True):
        """-> (violations, undecided)"""
        bad = [p for p in seen if self.res[p].status != 'proved']
        # precise paths only: loops unrolled, no summaries
        jobs = []
        for p in bad:
            b = base_of(self.base, p) or {}
            if self.elsewhere(p):
                continue
            for k in b.get('complete', []):
                if k == GIVEN:
                    if self.res[p].hinted:
                        self.peels.setdefault(p, {})[k] = self.res[p]
                else:
                    jobs.append((p, k, self.dropped, self.limit))
        for r in par(jobs, self.procs):
            self.peels.setdefault(r.path, {})[r.peel] = r
        viol, und = [], []
        for p in sorted(bad):
            fails = []
            for k, r in sorted(self.peels.get(p, {}).items(), key=str):
                fs = [f for f in r.fails if f[0] != 'analysis' and counts(p, f[0], f[1])]
                if fs:
                    fails = fs
                    break
            if not fails:
                und.append((p, self.res[p].fails[:2]))
                continue
            if not self.public(p) and self.compensated(p, seen):
                und.append((p, [('contract', 'the helper changed but its callers still meet theirs', '')]))
                continue
            viol.append((p, fails))
        return viol, und

    def public(self, p):
        f = self.prog.defs[p]
        return f.get('exported') or f['kind'] == 'AssocFn' and f.get('traitref')

    def compensated(self, p, seen):
        """callers of a changed helper are re-analysed with its body in place of its contract"""
        callers = [q for q in seen if p in self.res[q].used and q != p]
        if not callers:
            return False
        if any(self.hopeless(q) for q in callers):
            return False
        d = self.dropped | {p}
        for r in par([(q, None, d, self.limit) for q in callers], self.procs):
            if r.status != 'proved':
                return False
        return True
