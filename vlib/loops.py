"""Loop summaries: induction variables, recurrences closed by telescoping, array windows as total values,
and Houdini-pruned inequality invariants.  Every candidate is verified inductive before it is used."""
import os
from fractions import Fraction
from . import poly, state
from .poly import ATOMS, P, Poly, ZERO, PONE, const, fresh, fam, famP, Subst, Subst1, NonLinear, lin2poly, power, ONE
from .state import NeedSplit, NeedSplitBool, Undecided, Infeasible, Cfg, B, bp, piece, new_ver, Rope, VERS, F, unscale
from .values import *

DBG = bool(os.environ.get('VDBG'))
_uid = [0]


def dbg(*a):
    if DBG:
        print(*a)


# ------------------------------------------------------------------ the two kinds of loop
def run_loop(I, fr, h, st):
    L = fr.info.loops[h]
    live = set(fr.info.live[h]) | fr.info.borrowed

    def clean(s):
        for k in [k for k in s.env if k[0] == fr.id and k[1] not in live]:
            del s.env[k]

    def body(s):
        outs, back, exits = I.run(fr, h, s, region=L, header=h)
        for b in back:
            clean(b)
        return outs, back, exits

    def kind(key, path):
        if key[0] == fr.id:
            return leaf_kind(I.prog, fr.body['locals'][key[1]], path)
        return None
    from . import invariants
    r = invariants.run(I, fr, h, st)
    if r is not None:
        return r
    todo = [st]
    outs, exits = [], []
    n = 0
    while todo:
        s0 = todo.pop()
        n += 1
        if n > 40:
            raise Undecided('too many splits at a loop')
        s = s0.clone()
        clean(s)
        try:
            o, e = fix(I, s, body, kind, '%s bb%d' % (fr.fn['path'], h))
        except NeedSplit as x:
            todo.extend(I.split(s0, p=x.poly))
            continue
        except NeedSplitBool as x:
            todo.extend(I.split(s0, g=x.g))
            continue
        except Infeasible:
            continue
        outs.extend(o)
        exits.extend(e)
    return outs, exits


def fold(I, st, itv, init, clo, unit=False):
    from .interp import Out, Panic
    from .models import it_next
    _uid[0] += 1
    key = ('fold', _uid[0])
    s = st.clone()
    s.env[key] = tup(itv, init)

    def body(s0):
        outs, back, exits = [], [], []
        todo = [s0]
        while todo:
            s1 = todo.pop()
            s2 = s1.clone()
            try:
                b2, e2, o2 = [], [], []
                x = s2.env[key]
                for s3, it2, item in it_next(I, s2, x.parts[0]):
                    if item is None:
                        e2.append(('done', s3))
                        continue
                    for s4, v in I.call_closure(s3, clo, [item] if unit else [s3_acc(s3, key), item]):
                        if isinstance(v, Panic):
                            o2.append(Out('panic', s4, why=v.why))
                            continue
                        s4.env[key] = tup(it2, init if unit else v)
                        b2.append(s4)
                back += b2
                exits += e2
                outs += o2
            except NeedSplit as x:
                todo.extend(I.split(s1, p=x.poly))
            except NeedSplitBool as x:
                todo.extend(I.split(s1, g=x.g))
            except Infeasible:
                pass
        return outs, back, exits

    # type of the accumulator from the closure
    cty = None
    if isinstance(clo, V) and clo.tag == 'closure':
        f = I.prog.defs.get(clo.meta[0])
        if f and f.get('body'):
            cty = f['body']['locals'][2]

    def kind(k, path):
        if k == key and path and path[0] == 1 and cty is not None:
            return leaf_kind(I.prog, cty, path[1:])
        return None
    outs, exits = fix(I, s, body, kind, 'fold in %s' % I.where[-1])
    res = []
    for o in outs:
        res.append((o.st, Panic(o.why)))
    for _, e in exits:
        v = e.env.pop(key).parts[1]
        res.append((e, v))
    return res


def s3_acc(s, key):
    return s.env[key].parts[1]


def leaf_kind(prog, ti, path):
    t = prog.types[ti]
    for i in path:
        if t['k'] == 'tuple':
            t = prog.types[t['ts'][i]]
        elif t['k'] == 'ref':
            return None
        else:
            return None
    if t['k'] == 'bool':
        return 'bool'
    if t['k'] == 'param':
        from .models import Mode
        return 'digit' if Mode.kind == 'digit' else None
    if t['k'] == 'uint':
        return 'nat'
    if t['k'] == 'adt' and t['path'] in ('digit::BinaryDigit', 'digit::DecimalDigit'):
        return 'digit'
    return None


# ------------------------------------------------------------------ fixpoint
class Leaf:
    __slots__ = ('id', 'mode', 'x0', 'c', 'kind', 'fam', 'what')


def peeled(I, st0, body):
    """explore a bounded number of iterations precisely"""
    outs, exits = [], []
    cur = [st0]
    for i in range(I.peel + 1):
        nxt = []
        for s in cur:
            o, b, e = body(s)
            outs.extend(o)
            exits.extend(e)
            nxt.extend(b)
        cur = nxt
        if not cur:
            break
        if len(cur) + len(exits) > 300:
            break
    if cur:
        I.cut = True
    return outs, exits


def fix(I, st0, body, kindof, name):
    if I.peel is not None:
        return peeled(I, st0, body)
    st0.notes, saved = [], st0.notes
    _uid[0] += 1
    uid = _uid[0]
    k = fresh('k', 'idx')
    K = P(k)
    CURK[uid] = k.id
    mark = len(ATOMS)
    vmark = len(VERS)
    mods = {}          # (key, path) -> Leaf
    arrs = {}          # obj -> dict
    inv_eq, inv_ge, inv_ne = [], [], []
    ghosts = {}

    def ghost(i):
        if i not in ghosts:
            def G(x, i=i):
                return famP(('G', uid, i), 'g%d_%d' % (uid, i), (P(x),), 'nat', None)
            ghosts[i] = G
        return ghosts[i]
    dropped = set()
    shift1 = Subst1({k.id: K + 1})
    at0 = Subst({k.id: ZERO})
    nleaf = [0]
    stable = 0
    derived = False
    cands_done = False
    tried, nderive, last_eq = [], 0, 0
    for rnd in range(40):
        # ---- header state
        H = st0.clone()
        H.notes = []
        closed = known_subst(inv_eq, mods, K)
        for (key, path), lf in mods.items():
            if lf.mode == 'ind':
                v = H.n(lf.x0 + lf.c * K)
            else:
                v = H.n(closed(lf.fam(K)))
            H.env[key] = vset(H.env[key], path, v)
        if not derived:
            ent = entry_subst(st0, mods, arrs)
            if not inv_eq:
                inv_ge = []
            for q in ge_candidates(I, st0, mods, H, K, early=True):
                if q not in dropped and q not in inv_ge and holds(st0, st0.n(ent(at0(q))), q):
                    inv_ge.append(q)
        try:
            for p in inv_ge:
                H.add(p)
            for obj, a in arrs.items():
                set_window(H, obj, a, K)
            for p in inv_eq:
                H.add_eq(p)
        except Infeasible:
            raise Undecided('contradictory invariants')
        outs, back, exits = body(H)
        dbg('LOOP', name, 'round', rnd, 'mods', [(kk, lf.mode, lf.x0, lf.c) for kk, lf in mods.items()], 'arrs', list(arrs), 'back', len(back), 'exits', len(exits), 'outs', len(outs))
        changed = False
        fresh_leaves = set()
        # ---- scalars
        for bs in back:
            for key, hv in H.env.items():
                if key not in bs.env:
                    continue
                bv = bs.env[key]
                if bv is hv:
                    continue
                if not same_shape(hv, bv):
                    raise Undecided('loop-carried value changes shape: %r / %r' % (hv, bv))
                for path, hx in leaves(hv):
                    bx = bs.n(vget(bv, path))
                    lf = mods.get((key, path))
                    if lf is None:
                        d = bs.n(bx - hx)
                        if not d.t or bs.eq0(d):
                            continue
                        lf = Leaf()
                        nleaf[0] += 1
                        lf.id, lf.what = nleaf[0], (key, path)
                        lf.x0 = st0.n(vget(st0.env[key], path))
                        lf.kind = kindof(key, path)
                        lf.mode, lf.c = 'gen', None
                        if lf.kind != 'bool' and lf.kind != 'digit' and invariant_poly(d, mark, k) and d.content_int():
                            lf.mode, lf.c = 'ind', d
                        lf.fam = mkfam(uid, lf, lf.kind)
                        mods[(key, path)] = lf
                        fresh_leaves.add(lf.id)
                        changed = True
                    elif lf.mode == 'ind':
                        d = bs.n(bx - hx - lf.c) if lf.id in fresh_leaves else bs.n(bx - lf.x0 - lf.c * (K + 1))
                        if d.t and not bs.eq0(d):
                            lf.mode = 'gen'
                            lf.fam = mkfam(uid, lf, lf.kind)
                            changed = True
        if changed:
            inv_eq, inv_ge = [], []
            continue
        # ---- arrays
        for bs in back:
            for note in bs.notes:
                if note[0] != 'w':
                    continue
                obj = note[1]
                if obj not in st0.heap:
                    continue
                a = arrs.get(obj)
                if a is None:
                    arrs[obj] = a = {'state': 'new', 'id': obj}
                    changed = True
        if changed or any(a['state'] == 'new' for a in arrs.values()):
            for obj, a in arrs.items():
                if a['state'] == 'new':
                    window(st0, back, obj, a, k, mark, uid, nleaf)
            inv_eq, inv_ge = [], []
            continue
        bad = False
        for obj, a in arrs.items():
            if not window_ok(back, obj, a, K, shift1):
                if a['state'] == 'whole':
                    raise Undecided('array window')
                whole(st0, obj, a, uid, nleaf)
                bad = True
        if bad:
            inv_eq, inv_ge = [], []
            continue
        # ---- recurrences
        ends = []
        for bs in back:
            e = {}
            for (key, path), lf in mods.items():
                if lf.mode == 'gen':
                    e[lf.fam(K + 1).as_atom()] = bs.n(vget(bs.env[key], path))
            for obj, a in arrs.items():
                lo1, hi1 = shift1(a['lo']), shift1(a['hi'])
                tv = bs.n(bs.val(obj, lo1, bs.n(hi1 - lo1)))
                ta = bs.n(a['T']((K + 1,)))
                t_at = a['T']((K + 1,)).as_atom()
                if t_at is not None:
                    e[t_at] = tv
            ends.append((bs, e))
        if not derived:
            derived = True
            new_eq = []
            raws = []
            known = known_subst(inv_eq, mods, K)
            for bs, e in ends:
                raw = []
                raws.append((bs, e, raw))
                for q in derive(st0, H, bs, e, k, mark, vmark, mods, arrs, ghost, raw, known):
                    if q not in new_eq and q not in tried:
                        new_eq.append(q)
            for q in combine(st0, H, raws, k, mark, mods, arrs):
                if q not in new_eq and q not in tried:
                    new_eq.append(q)
            tried.extend(new_eq)
            nderive += 1
            new_ge = ge_candidates(I, st0, mods, H, K)
            dbg('  derived', new_eq)
            dbg('  ge cands', new_ge)
            # entry check
            ent = entry_subst(st0, mods, arrs)
            ent = Subst(dict(ent.m) | {G(ZERO).as_atom(): ZERO for G in ghosts.values()})
            for q in new_eq:
                z = st0.n(ent(at0(q)))
                if not z.t or st0.eq0(z):
                    q = unscale(q)
                    if q not in inv_eq and -q not in inv_eq:
                        inv_eq.append(q)
                else:
                    dbg('  eq fails at entry', q, z)
            for q in new_ge:
                if q in dropped:
                    continue
                z = st0.n(ent(at0(q)))
                if holds(st0, z, q):
                    if q not in inv_ge:
                        inv_ge.append(q)
                else:
                    dbg('  ge fails at entry', q, z)
            if inv_eq or inv_ge:
                continue
        # ---- verify the invariants
        keep_eq, keep_ge = [], []
        for q in inv_eq:
            okk = True
            for bs, e in ends:
                z = bs.n(Subst(e)(shift1(q)))
                z = solve_ghosts(bs, z, [G(K + 1).as_atom() for G in ghosts.values()])
                if z.t and not bs.eq0(z) and not bs.zero_in_cases(z):
                    okk = False
                    dbg('  eq not inductive', q, '->', z)
                    break
            if okk:
                keep_eq.append(q)
        for q in inv_ge:
            okk = True
            for bs, e in ends:
                z = bs.n(Subst(e)(shift1(q)))
                if not holds(bs, z, q):
                    okk = False
                    dbg('  ge not inductive', q, '->', z)
                    break
            if okk:
                keep_ge.append(q)
        if len(keep_eq) < len(inv_eq) or len(keep_ge) < len(inv_ge):
            dropped.update(q for q in inv_ge if q not in keep_ge)
            inv_eq, inv_ge = keep_eq, keep_ge
            continue
        # ---- typed families must stay in range
        bad = False
        for (key, path), lf in mods.items():
            if lf.mode != 'gen' or lf.kind not in ('bool', 'digit', 'nat'):
                continue
            for bs, e in ends + [(st0, None)]:
                v = bs.n(vget(bs.env[key], path))
                ok = bs.entails(v)
                if lf.kind == 'digit':
                    ok = ok and bs.entails(B() - 1 - v)
                elif lf.kind == 'bool':
                    ok = ok and bs.entails(PONE - v)
                if not ok:
                    dbg('  range lost', lf.what, lf.kind, v)
                    lf.kind = None
                    lf.fam = mkfam(uid, lf, 'int')
                    nleaf[0] += 100
                    lf.id = nleaf[0]
                    bad = True
                    break
        if bad:
            inv_eq, inv_ge = [], []
            derived = False
            tried = []
            continue
        if inv_eq and nderive < 3 and last_eq != len(inv_eq):
            # more relations may follow from those found
            last_eq = len(inv_eq)
            derived = False
            continue
        break
    else:
        raise Undecided('loop does not stabilise')
    # ---- results
    hull = []
    for obj, a in arrs.items():
        hull.append(('w', obj, a['lo'], a['hi']))

    def finish(s):
        try:
            for p in inv_ge:
                q = s.n(p)
                if not q.is_const() and s.entails(-q):
                    s.add_eq(q)
        except Infeasible:
            return False
        own = s.notes
        s.notes = list(saved)
        for _, obj, lo, hi in hull:
            s.notes.append(('w', obj, s.n(lo), s.n(hi - lo)))
        s.notes.extend(own)
        return True
    outs = [o for o in outs if finish(o.st)]
    exits = [e for e in exits if finish(e[1])]
    I.loops_done.append((name, len(inv_eq), len(inv_ge)))
    dbg('LOOP done', name, 'eq', inv_eq, 'ge', inv_ge)
    for b, e in exits:
        dbg('   exit', b, e.env if False else '', 'k=', e.n(K))
    return outs, exits


def holds(st, z, q):
    """is z, an instance of the candidate q, non-negative?"""
    if st.entails(z):
        return True
    return len([a for a in q.deps() if ATOMS[a].fam and ATOMS[a].fam[0] == 'C']) > 1 and st.entails_hard(z)


def mkfam(uid, lf, kind):
    i = lf.id
    kd = kind or 'int'

    def f(x):
        return famP(('C', uid, i, kd), 'c%d_%d' % (uid, i), (P(x),), kd, None)
    return f


def invariant_poly(d, mark, k):
    """no dependence on the loop body or the iteration"""
    for a in d.deps():
        if a == k.id:
            return False
        if a >= mark and ATOMS[a].fam is None:
            return False
        if a >= mark and ATOMS[a].fam is not None and ATOMS[a].fam[0] in ('C', 'T'):
            return False
    return True


def entry_subst(st0, mods, arrs):
    m = {}
    for (key, path), lf in mods.items():
        if lf.mode == 'gen':
            m[lf.fam(ZERO).as_atom()] = lf.x0
    for obj, a in arrs.items():
        t = a['T']((ZERO,)).as_atom()
        if t is not None:
            m[t] = a['t0']
    return Subst(m)


# ------------------------------------------------------------------ array windows
def affine(p, k, mark):
    """(a, s) with p = a + s*k, a loop-invariant, s an integer; or None"""
    r = p.coef_of(k.id)
    if r is None:
        return None
    c, rest = r
    if not c.is_const() or not isinstance(c.cval(), int):
        return None
    if not invariant_poly(rest, mark, k):
        return None
    for (at, ex) in rest.t:
        for a, _ in at:
            if ATOMS[a].kind == 'bool':
                return None
    return rest, c.cval()


def window(st0, back, obj, a, k, mark, uid, nleaf):
    K = P(k)
    n0 = st0.n(st0.heap[obj].length())
    rs = []
    grow = None
    for bs in back:
        d = bs.n(bs.heap[obj].length() - n0)
        if d.t and bs.eq0(d):
            d = ZERO
        if grow is None:
            grow = d
        elif grow != d:
            raise Undecided('array grows differently on different paths')
        for note in bs.notes:
            if note[0] == 'w' and note[1] == obj:
                ln = bs.n(note[3])
                if not ln.t:
                    continue
                rs.append((bs, bs.n(note[2]), bs.n(P(note[2]) + note[3])))
    a['grow'] = grow if grow is not None else ZERO
    if a['grow'].t:
        if not (a['grow'].is_const() and a['grow'].cval() > 0):
            raise Undecided('array shrinks or grows irregularly in a loop')
        a['state'] = 'win'
        a['lo'], a['hi'] = ZERO, st0.n(n0 + a['grow'] * K)
        setT(st0, obj, a, uid, nleaf)
        return
    lo = hi = None
    for bs, l, h in rs:
        al, ah = affine(l, k, mark), affine(h, k, mark)
        if al is None or ah is None:
            whole(st0, obj, a, uid, nleaf)
            return
        if lo is None:
            lo, hi = (l, al), (h, ah)
            continue
        if l != lo[0]:
            if bs.entails(l - lo[0]):
                pass
            elif bs.entails(lo[0] - l):
                lo = (l, al)
            else:
                whole(st0, obj, a, uid, nleaf)
                return
        if h != hi[0]:
            if bs.entails(hi[0] - h):
                pass
            elif bs.entails(h - hi[0]):
                hi = (h, ah)
            else:
                whole(st0, obj, a, uid, nleaf)
                return
    if lo is None:
        whole(st0, obj, a, uid, nleaf)
        return
    base, s = lo[1]
    hb, t = hi[1]
    a['lo'] = base if s >= 0 else base - s + K * s
    a['hi'] = hb if t <= 0 else hb - t + K * t
    # the window at entry must be inside the array, with a non-negative length
    l0 = st0.n(Subst({k.id: ZERO})(a['lo']))
    h0 = st0.n(Subst({k.id: ZERO})(a['hi']))
    # the first iteration is feasible only when the loop runs at all: unknown at entry, so check softly
    if not (st0.entails(h0 - l0) and st0.entails(n0 - h0) and st0.entails(l0)):
        whole(st0, obj, a, uid, nleaf)
        return
    a['state'] = 'win'
    setT(st0, obj, a, uid, nleaf)


def whole(st0, obj, a, uid, nleaf):
    n0 = st0.n(st0.heap[obj].length())
    a['state'] = 'whole'
    a['grow'] = ZERO
    a['lo'], a['hi'] = ZERO, n0
    setT(st0, obj, a, uid, nleaf)


def setT(st0, obj, a, uid, nleaf):
    nleaf[0] += 1
    i = nleaf[0]
    L, kid = a['hi'] - a['lo'], CURK[uid]

    def tf(A):
        return [bp(Subst1({kid: A.args[0]})(L)) - 1 - P(A)]

    def T(params):
        return famP(('T', uid, i), 't%d_%d' % (uid, i), (P(params[0]),), 'nat', {'facts': tf})
    a['T'] = T
    a['L'] = a['hi'] - a['lo']
    from .state import new_ver as nv
    a['ver'] = nv('base', a['L'], T, name='w')
    # value at entry
    at0 = Subst({CURK[uid]: ZERO})
    lo0, hi0 = at0(a['lo']), at0(a['hi'])
    a['t0'] = st0.n(st0.val(obj, st0.n(lo0), st0.n(hi0 - lo0)))


CURK = {}


def set_window(H, obj, a, K):
    """H.heap[obj][lo..hi] := the abstract contents after K iterations"""
    if a['grow'].t:
        n0 = H.n(H.heap[obj].length())
        H.heap[obj] = Rope([piece(a['ver'], 0, a['L'], (K,))])
        return
    H.put(obj, H.n(a['lo']), H.n(a['L']), [piece(a['ver'], 0, a['L'], (K,))])


def window_ok(back, obj, a, K, shift1):
    lo1, hi1 = shift1(a['lo']), shift1(a['hi'])
    for bs in back:
        if a['grow'].t:
            if not bs.eq0(bs.heap[obj].length() - hi1):
                return False
            continue
        for note in bs.notes:
            if note[0] == 'w' and note[1] == obj:
                ln = bs.n(note[3])
                if not ln.t:
                    continue
                l = bs.n(note[2])
                if not bs.entails(l - lo1) or not bs.entails(hi1 - l - ln):
                    dbg('  window', obj, 'write', l, ln, 'outside', lo1, hi1)
                    return False
    return True


# ------------------------------------------------------------------ equalities
def is_fresh(a, mark, vmark):
    A = ATOMS[a]
    if A.fam is None:
        return a >= mark
    if A.fam[0] == 'F' and A.fam[1] >= vmark:
        # windows of this very loop are not fresh, their prefixes at other places are
        v = VERS[A.fam[1]]
        if v.name == 'w' and callable(v.T) and len(A.args) > 2:
            return True
        return True
    for d in A.deps:
        if d >= mark and ATOMS[d].fam is None and ATOMS[d].kind != 'idx':
            return True
        if ATOMS[d].fam is not None and ATOMS[d].fam[0] == 'F' and ATOMS[d].fam[1] >= vmark:
            return True
    return False


def unit(c):
    """inverse of a unit monomial (+-1 times a power), or None"""
    if len(c.t) != 1:
        return None
    (m, v), = c.t.items()
    if m[0] or v not in (1, -1):
        return None
    inv = Poly({((), tuple((b, tuple((kk, -vv) for kk, vv in l)) for b, l in m[1])): v})
    return inv


def derive(st0, H, bs, e, k, mark, vmark, mods, arrs, ghost, raw, known):
    eqs = []
    for x, v in e.items():
        eqs.append(P(ATOMS[x]) - v)
    for q in bs.eqs:
        if q not in H.eqs:
            eqs.append(q)
    for a, v in bs.sub.m.items():
        if a not in H.sub.m and not is_fresh(a, mark, vmark) and ATOMS[a].kind != 'bool':
            eqs.append(P(ATOMS[a]) - bs.n(v))
    if known.m:
        eqs = [known(q) for q in eqs]
        eqs = [q for q in eqs if q.t]
    targets = set(e)
    eqs += cancelled(bs, eqs, k, mark, vmark, mods)
    # eliminate body atoms
    fr = set()
    for q in eqs:
        for (at, ex) in q.t:
            for a, _ in at:
                if is_fresh(a, mark, vmark):
                    fr.add(a)
    for u in sorted(fr, key=lambda a: -a):
        best = None
        for i, q in enumerate(eqs):
            r = q.coef_of(u)
            if r is None:
                continue
            c, rest = r
            if not c.t:
                continue
            if u in c.deps() or any(u in ATOMS[d].deps for d in rest.deps()):
                continue
            inv = unit(c)
            if inv is None:
                continue
            rank = (len(rest.t), i)
            if best is None or rank < best[0]:
                best = (rank, i, inv, rest)
        if best is None:
            continue
        _, i, inv, rest = best
        val = -(rest * inv)
        sb = Subst({u: val})
        eqs = [sb(q) for j, q in enumerate(eqs) if j != i]
    out = []
    ng = 0
    for q in eqs:
        if not q.t:
            continue
        us = sorted({a for (at, ex) in q.t for a, _ in at if is_fresh(a, mark, vmark)})
        g = None
        if us:
            g = close(q, us, k, mark, ghost, ng)
            if g is None:
                dbg('   not closed:', q)
                continue
            ng += len(us)
        else:
            if raw is not None:
                raw.append(q)
            g = telescope(q, k, mark)
            if g is None:
                g = lagged(q, targets, k)
                if g is not None:
                    if g not in out:
                        out.append(g)
                    continue
        if g is None:
            dbg('   does not telescope:', q)
            continue
        g0 = Subst({k.id: ZERO})(g)
        ent = entry_subst(st0, mods, arrs)
        if us:
            ent = Subst(dict(ent.m, **{}) | {ghost(i)(ZERO).as_atom(): ZERO for i in range(ng)})
        inv = g - ent(g0)
        if inv.t and inv not in out:
            out.append(inv)
    return out


def cancelled(bs, eqs, k, mark, vmark, mods):
    """the carries out of the top of a multi-digit computation that cancel: in  A + b^j * S = 0  with S a sum of
    body values, try S = 0 and S = x for the loop-carried values x"""
    eqs = list(eqs)
    while True:
        for i, q in enumerate(eqs):
            u = None
            for (at, ex), c in sorted(q.t.items()):
                if c in (1, -1) and not ex and len(at) == 1 and at[0][1] == 1 and is_fresh(at[0][0], mark, vmark):
                    a = at[0][0]
                    if sum(1 for (at2, ex2) in q.t if any(x == a for x, _ in at2)) == 1 and \
                            not any(a in ATOMS[d].deps for d in q.deps()):
                        u = a
            if u is not None:
                c = q.coef_of(u)
                sb = Subst1({u: -(c[1] * c[0])})
                eqs = [sb(x) for j, x in enumerate(eqs) if j != i]
                break
        else:
            break
    out = []
    for q in eqs:
        exs, S = set(), {}
        for (at, ex), c in q.t.items():
            if any(is_fresh(a, mark, vmark) for a, _ in at):
                exs.add(ex)
                S[(at, ())] = c
        if len(exs) != 1 or not list(exs)[0] or len(S) > 3:
            continue
        S = Poly(S)
        for x in [ZERO] + [lf.fam(P(k)) for lf in mods.values() if lf.mode == 'gen']:
            for sg in (1, -1):
                z = bs.n(S - sg * x)
                if z.t and bs.entails_hard(z) and bs.entails_hard(-z):
                    dbg('   cancels', S, x)
                    out.append(S - sg * x)
                    break
    return out


def known_subst(inv_eq, mods, K):
    """loop-carried values already expressed by the iteration number"""
    m = {}
    for (key, path), lf in mods.items():
        if lf.mode != 'gen':
            continue
        x = lf.fam(K).as_atom()
        for q in inv_eq:
            r = q.coef_of(x) if x in q.deps() else None
            if r is None:
                continue
            u = unit(r[0])
            if u is None or any(ATOMS[a].fam and ATOMS[a].fam[0] == 'C' for a in r[1].deps()):
                continue
            v = -(r[1] * u)
            m[x] = v
            m[lf.fam(K + 1).as_atom()] = Subst1({K.as_atom(): K + 1})(v)
            break
    return Subst(m)


def lagged(q, targets, k):
    """x(k+1) = f(k+1) with f free of other loop-carried values: try x(k) = f(k)"""
    ts = [a for a in q.deps() if a in targets]
    if len(ts) != 1:
        return None
    fams = {ATOMS[t].fam for t in targets}
    for a in q.deps():
        if a != ts[0] and ATOMS[a].fam in fams:
            return None
    return Subst1({k.id: P(k) - 1})(q)


def combine(st0, H, raws, k, mark, mods, arrs):
    """relations that hold on different paths through the body, merged over a loop-carried flag"""
    out = []
    K = P(k)
    for (key, path), lf in mods.items():
        if lf.mode != 'gen' or lf.kind != 'bool':
            continue
        a = lf.fam(K).as_atom()
        g0 = [r for r in raws if r[0].n(P(ATOMS[a])) == ZERO]
        g1 = [r for r in raws if r[0].n(P(ATOMS[a])) == PONE]
        tried = set()
        for _, e0, r0 in g0:
            for _, e1, r1 in g1:
                for q0 in r0:
                    for q1 in r1:
                        for x in sorted(q0.deps() & q1.deps() & set(e0)):
                            s0, s1 = q0.coef_of(x), q1.coef_of(x)
                            if s0 is None or s1 is None:
                                continue
                            u0, u1 = unit(s0[0]), unit(s1[0])
                            if u0 is None or u1 is None:
                                continue
                            p0, p1 = q0 * u0, q1 * u1
                            q = p0 + P(ATOMS[a]) * (p1 - p0)
                            if q in tried:
                                continue
                            tried.add(q)
                            if len(tried) > 60:
                                return out
                            g = telescope(q, k, mark)
                            if g is None:
                                dbg('   combination does not telescope', q)
                                continue
                            gg = Subst({k.id: ZERO})(g)
                            inv = g - entry_subst(st0, mods, arrs)(gg)
                            if inv.t and inv not in out:
                                out.append(inv)
    return out


def solve_ghosts(bs, z, gs):
    """choose the new values of the ghost sums so that z = 0, if they are non-negative integers"""
    from .spec import exact_div
    for g in gs:
        r = z.coef_of(g) if g in z.deps() else None
        if r is None or not r[0].t:
            continue
        c, rest = r
        # c * (power of b) * one atom
        cu = unit(c)
        if cu is not None:
            v = -(rest * cu)
        else:
            v = None
            for (at, ex), cc in c.t.items():
                if len(c.t) == 1 and cc in (1, -1) and len(at) == 1 and at[0][1] == 1:
                    v = exact_div(-(rest * cc), P(ATOMS[at[0][0]]))
                    if v is not None and ex:
                        v = v * Poly({((), tuple((b, tuple((kk, -vv) for kk, vv in l)) for b, l in ex)): 1})
        if v is None:
            continue
        v = bs.n(v)
        if v.content_int() and all(not l or True for l in ()) and integral_poly(bs, v) and bs.entails(v):
            z = bs.n(Subst1({g: v})(z))
    return z


def integral_poly(st, v):
    from .poly import lin2poly as l2p
    for (at, ex), c in v.t.items():
        if not isinstance(c, int):
            return False
        for b, l in ex:
            if not st.entails(l2p(l)):
                return False
    return True


def close(q, us, k, mark, ghost, ng):
    """replace unknowns of the loop body by increments of (integer, non-negative) ghost sums"""
    K = P(k)
    if len(us) > 2:
        return None
    r = q.coef_of(us[0])
    if r is None or not r[0].t:
        return None
    kc = None
    for (at, ex) in r[0].t:
        x = 0
        for bname, l in ex:
            if bname == 'b':
                cf = lin2poly(l).coef_of(k.id)
                if cf is None or not cf[0].is_const():
                    return None
                x = cf[0].cval()
        if kc is not None and kc != x:
            return None
        kc = x
    if kc:
        q = q * bp(-K * kc)
    for u in us:
        r = q.coef_of(u)
        if r is None or not invariant_poly(r[0], mark, k):
            return None
        if not is_nonneg_atom(u):
            return None
    for sc in (ONE_, BB):
        m = {}
        for i, u in enumerate(us):
            G = ghost(ng + i)
            m[u] = G(K + 1) - G(K) * sc()
        g = telescope(Subst1(m)(q), k, mark)
        if g is not None:
            return g
    return None


def ONE_():
    return PONE


def BB():
    return B()


def is_nonneg_atom(u):
    from .facts import is_nonneg
    return is_nonneg(ATOMS[u])


def kdep(a, k):
    return a == k.id or k.id in ATOMS[a].deps


def mono_shift(m, k):
    """(canonical monomial, shift s): m = canonical with k -> k + s; canonical None-dependence gives s = 0"""
    at, ex = m
    s = None
    for a, p in sorted(at, key=lambda x: (str(ATOMS[x[0]].fam), x[0])):
        A = ATOMS[a]
        if A.fam is None or k.id not in A.deps:
            continue
        for arg in A.args:
            if isinstance(arg, Poly) and k.id in arg.deps():
                r = arg.coef_of(k.id)
                if r is None:
                    return None
                c, rest = r
                if not c.is_const() or not isinstance(c.cval(), int):
                    return None
                cc = c.cval()
                c0 = rest.cval()
                if not cc or not isinstance(c0, int) or c0 % cc:
                    return None
                s = c0 // cc
                break
        if s is not None:
            break
    if s is None:
        return m, 0
    q = Subst1({k.id: P(k) - s})(Poly({m: 1}))
    if len(q.t) != 1:
        return None
    (m2, c), = q.t.items()
    return (m2, s, c)


def telescope(q, k, mark):
    K = P(k)
    ratios = {0}
    # candidate scalings from pairs of equal families at k+1 and k
    info = []
    for m, c in q.t.items():
        at, ex = m
        fams = []
        okm = True
        for a, p in at:
            if kdep(a, k):
                fams.append((ATOMS[a].fam, p, a))
        info.append((m, c, tuple(sorted(str(f[0]) for f in fams))))
    for m1, c1, f1 in info:
        if not f1:
            continue
        for m2, c2, f2 in info:
            if f1 != f2 or m1 == m2:
                continue
            r1, r2 = mono_shift(m1, k), mono_shift(m2, k)
            if r1 is None or r2 is None or len(r1) < 3 or len(r2) < 3:
                continue
            # canonical monomials may differ by a power of b
            d1, d2 = r1[0], r2[0]
            if d1[0] != d2[0] or r1[1] == r2[1]:
                continue
            e1 = dict((b, lin2poly(l)) for b, l in d1[1]).get('b', ZERO)
            e2 = dict((b, lin2poly(l)) for b, l in d2[1]).get('b', ZERO)
            d = e1 - e2
            if d.is_const() and d.cval() % (r1[1] - r2[1]) == 0:
                ratios.add(-(d.cval() // (r1[1] - r2[1])))
    for sums in (False, True):
        for c in sorted(ratios, key=abs):
            for sg in ((c,) if c == 0 else (c, -c)):
                g = telescope1(q * bp(-K * sg) if sg else q, k, mark, sums)
                if g is not None:
                    return g
    return None


# ------------------------------------------------------------------ definite sums
def kappa():
    return P(fam(('PH',), 'kappa', (), 'idx'))


def SUM(m0, K):
    """the sum of m0(i) for 0 <= i < K; m0 is given in terms of kappa"""
    kd = 'nat' if all(c > 0 for c in m0.t.values()) and all(is_nonneg_atom(a) for (at, ex) in m0.t for a, _ in at) else 'int'
    return famP(('SUM',), 'sum', (P(K), m0), kd)


def _simpl_sum(famkey, name, args, kind, info):
    K, m0 = args
    if not m0.t or not K.t:
        return ZERO
    x = kappa().as_atom()
    c = K.t.get(ONE, 0)
    if not c or not isinstance(c, int) or abs(c) > 4:
        return None
    K0 = K - c
    r = famP(famkey, name, (K0, m0), kind, info) if K0.t else ZERO
    for i in range(c):
        r = r + Subst1({x: K0 + i})(m0)
    for i in range(-c):
        r = r - Subst1({x: K0 - i - 1})(m0)
    return r


poly.SIMPL['SUM'] = _simpl_sum


def sum_of(R, k, mark):
    """the sum of the part that does not telescope"""
    K = P(k)
    out = ZERO
    for (at, ex), c in R.t.items():
        dep, inv = [], []
        for a, p in at:
            if not kdep(a, k):
                inv.append((a, p))
                continue
            if ATOMS[a].fam is None or ATOMS[a].fam[0] != 'F':
                return None
            dep.append((a, p))
        if not dep:
            return None
        kex, iex = [], []
        for bname, l in ex:
            lp_ = lin2poly(l)
            r = lp_.coef_of(k.id)
            if r is None:
                return None
            if r[0].t:
                kex.append((bname, r[0] * K))
            if r[1].t:
                iex.append((bname, r[1]))
        m0 = Poly({(tuple(dep), ()): 1})
        for bname, l in kex:
            m0 = m0 * power(bname, l)
        rest = Poly({(tuple(inv), ()): c})
        for bname, l in iex:
            rest = rest * power(bname, l)
        sh = 0
        for a, p in dep:
            r = ATOMS[a].args[0].coef_of(k.id)
            if r is None or not r[0].is_const() or not r[0].cval() > 0 or not isinstance(r[1].t.get(ONE, 0), int):
                return None
            sh = max(sh, -(r[1].t.get(ONE, 0) // r[0].cval()))
        out = out + rest * SUM(Subst1({k.id: kappa() + sh})(m0), K - sh)
    return out


def telescope1(q, k, mark, sums=False):
    K = P(k)
    G = ZERO
    res = {}
    for m, c in q.t.items():
        r = mono_shift(m, k)
        if r is None:
            return None
        if len(r) == 2:
            res[m] = res.get(m, 0) + c
            continue
        m0, s, cc = r
        base = Poly({m0: c * cc})
        if s > 0:
            for i in range(s):
                G = G + Subst1({k.id: K + i})(base)
        elif s < 0:
            for i in range(1, -s + 1):
                G = G - Subst1({k.id: K - i})(base)
        res[m0] = res.get(m0, 0) + c * cc
    R = Poly({m: c for m, c in res.items() if c})
    if not R.t:
        return G
    # remaining part: constants and powers in k only
    byk = {}
    if sums:
        # something must be carried from one iteration to the next
        if not any(ATOMS[a].fam and ATOMS[a].fam[0] in ('C', 'T') for a in G.deps()):
            return None
        part = Poly({m: c for m, c in R.t.items() if any(kdep(a, k) for a, _ in m[0])})
        sm = sum_of(part, k, mark)
        if sm is None:
            return None
        G = G + sm
        R = R - part
    for m, c in R.t.items():
        at, ex = m
        if any(kdep(a, k) for a, _ in at):
            return None
        kc = 0
        nex = []
        for bname, l in ex:
            lp_ = lin2poly(l)
            r = lp_.coef_of(k.id)
            if r is None:
                return None
            cf, rest = r
            if cf.t:
                if bname != 'b' or not cf.is_const():
                    return None
                kc = cf.cval()
        byk.setdefault(kc, {})[m] = c
    for kc, ms in byk.items():
        p = Poly(ms)
        if kc == 0:
            G = G + p * K
            continue
        # p = C(b) * b^(kc*k): divide C by (b^kc - 1)
        C = p * bp(-K * kc)
        D = bp(const(kc)) - 1
        if kc < 0:
            # b^(kc) - 1 = -b^(kc) (b^(-kc) - 1)
            C = -(C * bp(const(-kc)))
            D = bp(const(-kc)) - 1
        qd = div_poly_b(C, abs(kc))
        if qd is None:
            return None
        G = G + qd * bp(K * kc)
    return G


def div_poly_b(C, n):
    """C / (b^n - 1) as a Laurent polynomial in b with polynomial coefficients, or None"""
    rows = {}
    for (at, ex), c in C.t.items():
        e = ZERO
        rest = []
        for bname, l in ex:
            if bname == 'b':
                e = lin2poly(l)
            else:
                rest.append((bname, l))
        e0 = e.cval()
        sym = (e - e0)
        rows.setdefault((at, tuple(rest), sym.key()), (sym, {}))[1][e0] = c
    out = ZERO
    for (at, rest, _), (sym, co) in rows.items():
        co = dict(co)
        base = Poly({(at, rest): 1}) * bp(sym)
        while co:
            h = max(co)
            c = co.pop(h)
            if not c:
                continue
            if len(co) == 0 and c:
                return None
            # c b^h = c b^(h-n) (b^n - 1) + c b^(h-n)
            out = out + base * bp(const(h - n)) * c
            co[h - n] = co.get(h - n, 0) + c
            if not co[h - n]:
                del co[h - n]
            if co and max(co) - min(co) > 60:
                return None
            if len(co) == 1 and list(co.values())[0] != 0 and max(co) < min(list(co)) + 1 and h < -60:
                return None
    return out


# ------------------------------------------------------------------ inequalities
def ge_candidates(I, st0, mods, H, K, early=False):
    out = []

    def add(p):
        p = P(p)
        if p.t and not p.is_const() and p not in out:
            out.append(p)
    # iterators never overrun, unsigned leaves stay non-negative
    for key, v in H.env.items():
        for x in walk(v):
            if x.tag == 'it' and x.meta[0] in ('slice', 'range', 'chunksmut'):
                d = x.parts[1] - x.parts[0]
                if d.deps() & {K.as_atom()} or any(ATOMS[a].fam and ATOMS[a].fam[0] == 'C' for a in d.deps()):
                    add(d)
    # two carried digits as the digits of a number below a two-digit number
    ds = [lf.fam(K) for lf in mods.values() if lf.mode == 'gen' and lf.kind in ('digit', None)]
    if 2 <= len(ds) <= 3:
        nums = []
        for obj, r in st0.heap.items():
            if st0.n(r.length()) == const(2):
                nums.append(st0.val(obj, ZERO, const(2)))
        for w in nums:
            for x in ds:
                for y in ds:
                    if x != y:
                        add(w - 1 - x * B() - y)
    if early:
        for (key, path), lf in mods.items():
            if lf.mode == 'ind' and lf.kind == 'nat':
                add(lf.x0 + lf.c * K)
    digits, usz = [], []
    for key, v in st0.env.items():
        for path, x in leaves(v):
            a = x.as_atom()
            if a is not None:
                if ATOMS[a].kind == 'digit' and x not in digits:
                    digits.append(x)
                elif ATOMS[a].kind in ('nat', 'shift') and x not in usz:
                    usz.append(x)
    for (key, path), lf in mods.items():
        if lf.mode == 'ind':
            if lf.kind == 'nat':
                add(lf.x0 + lf.c * K)
            continue
        c = lf.fam(K)
        if lf.kind == 'nat':
            add(const(2) - c)
            add(const(1) - c)
            continue
        if lf.kind in ('digit', None):
            add(c)
            add(B() - 1 - c)
            for d in digits:
                add(d - 1 - c)
                add(d - c)
            if Cfg.bval is None:
                for u in usz:
                    add(power('2', u) - 1 - c)
            add(const(2) - c)
            add(const(1) - c)
    return out


def walk(v):
    if isinstance(v, V):
        yield v
        for x in v.parts:
            for y in walk(x):
                yield y
