"""Linear facts offered to the entailment test: stored facts, atom ranges, power monotonicity, products of
ranges, canonical-number facts."""
from . import poly, state
from .poly import ATOMS, P, Poly, ZERO, PONE, const, power, lin2poly, ONE, mono_mul
from .state import Cfg, B, bp, VERS

NONNEG = {'bool', 'nat', 'idx', 'digit', 'F', 'pos', 'S', 'W', 'storage', 'shift', 'even'}


def upper(A):
    """upper bound polynomial of an atom, or None"""
    k = A.kind
    if k == 'bool':
        return PONE
    if k == 'digit':
        return B() - 1
    if k == 'F':
        return bp(A.args[0]) - 1
    if k == 'range' or k == 'storage':
        return A.info and A.info.get('hi')
    return None


def lower(A):
    k = A.kind
    if k == 'range':
        return A.info.get('lo')
    if k == 'pos' or k == 'W':
        return PONE
    if k in NONNEG:
        return ZERO
    return None


def is_nonneg(A):
    if A.kind in NONNEG:
        return True
    lo = lower(A)
    return lo is not None and lo.is_const() and lo.cval() >= 0


def range_facts(st, a):
    A = ATOMS[a]
    out = []
    lo, hi = lower(A), upper(A)
    x = P(A)
    if lo is not None:
        out.append(st.n(x - lo))
    if hi is not None:
        out.append(st.n(hi - x))
    if A.info and isinstance(A.info, dict) and 'facts' in A.info:
        for f in A.info['facts'](A):
            out.append(st.n(f))
    if A.kind == 'F':
        v = VERS[A.fam[1]]
        q, L = A.args[0], A.args[1]
        if v.T is not None:
            T = v.T(A.args[2:]) if callable(v.T) else v.T
            T = st.n(T)
            out.append(st.n(T - x))
            if v.top is not None and st.entails_plain(st.n(q - v.top)):
                out.append(st.n(x - T))
            try:
                out.append(st.n(bp(L) - bp(q) - T + x))
            except poly.NonLinear:
                pass
    return out


def mono_factors(m):
    at, ex = m
    n = sum(p for _, p in at) + len(ex)
    return n


def is_plain(p):
    for (at, ex) in p.t:
        if ex:
            return False
        for a, _ in at:
            if ATOMS[a].kind in ('F',) or ATOMS[a].kind == 'digit':
                return False
    return True


def gather_plain(st, goal):
    base = [f for f in st.facts if is_plain(f)]
    for e in st.eqs:
        if is_plain(e):
            base += [e, -e]
    rel = set(goal.deps())
    pick, rest = [], base
    while True:
        nrest = []
        for f in rest:
            d = f.deps()
            if d & rel:
                pick.append(f)
                rel |= d
            else:
                nrest.append(f)
        if len(nrest) == len(rest):
            break
        rest = nrest
    out = list(pick)
    seen = set(out)
    monos = set(goal.t)
    for f in pick:
        monos |= set(f.t)
    done = set()
    for (at, ex) in list(monos):
        for a, _ in at:
            if a not in done:
                done.add(a)
                for f in range_facts(st, a):
                    if f not in seen and is_plain(f):
                        seen.add(f)
                        out.append(f)
        if len(at) > 1 or (at and at[0][1] > 1):
            if all(is_nonneg(ATOMS[a]) for a, _ in at):
                out.append(Poly({(at, ex): 1}))
            if len(at) == 2:
                for i in (0, 1):
                    # x*y with y >= 1
                    a, pw = at[i]
                    b_, pb = at[1 - i]
                    if pw == 1 and pb == 1 and is_nonneg(ATOMS[b_]):
                        for f in (P(ATOMS[a]) - 1,):
                            if f in seen:
                                out.append(f * P(ATOMS[b_]))
    return out


def gather(st, goal, depth, level):
    key = None
    base = [f for f in st.facts]
    for e in st.eqs:
        base.append(e)
        base.append(-e)
    # canonical numbers
    if depth <= 1:
        for (V, n) in st.canon:
            V, n = st.n(V), st.n(n)
            if n.is_const() and n.cval() == 0:
                continue
            if not related(V, n, goal, base):
                continue
            if (n.is_const() and n.cval() >= 1) or (not n.is_const() and st.entails_plain(n - 1)):
                a = V.as_atom()
                if a is not None and ATOMS[a].kind == 'F' and ATOMS[a].args[0] == n and ATOMS[a].args[1] == n:
                    # the leading digit is at least one
                    f = V - state.F(VERS[ATOMS[a].fam[1]], n - 1, ATOMS[a].args[2:]) - bp(n - 1)
                    f = st.n(f)
                    if level:
                        base.append(V - bp(n - 1))
                else:
                    f = V - bp(n - 1)
                base.append(f)
                f2 = st.n(f * B())
                base.append(f2)
            else:
                base.append(B() * V - bp(n) + 1)
    # relevance closure over atoms
    rel = set(goal.deps())
    pick = []
    rest = base
    for _ in range(4):
        nrest = []
        chg = False
        for f in rest:
            d = f.deps()
            if not d or (d & rel) or (not rel):
                pick.append(f)
                rel |= d
                chg = True
            else:
                nrest.append(f)
        rest = nrest
        if not chg:
            break
    if not goal.deps():
        pick = base
    monos = set(goal.t)
    for f in pick:
        monos |= set(f.t)
    out = list(pick)
    seen = set(out)

    def add(f):
        f = st.n(f)
        if f.t and not f.is_const() and f not in seen:
            seen.add(f)
            out.append(f)
            return f
        return None

    done_m = set()
    done_a = set()
    pending = set(monos)
    pows = set()
    for rnd in range(3):
        newm = set()
        for m in pending:
            if m in done_m:
                continue
            done_m.add(m)
            at, ex = m
            for bname, l in ex:
                if not at and len(ex) == 1:
                    pows.add((bname, l))
            for a, p in at:
                if a not in done_a:
                    done_a.add(a)
                    for f in range_facts(st, a):
                        g = add(f)
                        if g is not None:
                            newm |= set(g.t)
            if mono_factors(m) >= 2 and at:
                if all(is_nonneg(ATOMS[a]) for a, _ in at):
                    add(Poly({m: 1}))
                # bound one atom factor, the rest nonnegative
                if len(at) <= 4:
                    for i, (a, p) in enumerate(at):
                        A = ATOMS[a]
                        others = at[:i] + (((a, p - 1),) if p > 1 else ()) + at[i + 1:]
                        if not all(is_nonneg(ATOMS[x]) for x, _ in others):
                            continue
                        r = Poly({(others, ex): 1})
                        hi = upper(A)
                        if hi is not None:
                            hi = st.n(hi)
                            g = add(r * (hi - P(A)))
                            if g is not None:
                                newm |= set(g.t)
                        lo = lower(A)
                        if lo is not None and lo.t:
                            g = add(r * (P(A) - st.n(lo)))
                            if g is not None:
                                newm |= set(g.t)
        # pairs of prefixes of the same version
        byv = {}
        for a in done_a:
            A = ATOMS[a]
            if A.kind == 'F':
                byv.setdefault((A.fam, A.args[2:]), []).append(A)
        if depth < 2:
            gone = {}
            if byv:
                for a in st.sub.m:
                    A = ATOMS[a]
                    if A.kind == 'F' and (A.fam, A.args[2:]) in byv:
                        gone.setdefault((A.fam, A.args[2:]), []).append(A)
            for k, L in byv.items():
                m = len(L)
                L = L + gone.get(k, [])
                if len(L) > 1:
                    for i in range(len(L)):
                        for j in range(min(i, m)):
                            q1, q2 = L[i].args[0], L[j].args[0]
                            d = st.n(q1 - q2)
                            if nonneg(st, d, depth):
                                hi_, lo_ = L[i], L[j]
                            elif nonneg(st, -d, depth):
                                hi_, lo_ = L[j], L[i]
                            else:
                                continue
                            for f in (P(hi_) - P(lo_), bp(hi_.args[0]) - bp(lo_.args[0]) - P(hi_) + P(lo_)):
                                g = add(f)
                                if g is not None:
                                    newm |= set(g.t)
        pending = newm
        if not newm:
            break
    # powers
    for m in done_m | pending:
        for bname, l in m[1]:
            if not m[0] and len(m[1]) == 1:
                pows.add((bname, l))
    pl = [(bn, lin2poly(l)) for bn, l in pows]
    if len(pl) > 14:
        gd = [(bn, lin2poly(l)) for m in goal.t for bn, l in m[1]]
        pl = (gd + [x for x in pl if x not in gd])[:14]
    if Cfg.bval is None:
        bset = [e for bn, e in pl if bn == 'b']
        if bset or any(m[1] for m in goal.t):
            bset = [ZERO] + bset + [PONE]
        uniq = []
        for e in bset:
            if e not in uniq:
                uniq.append(e)
        for i in range(len(uniq)):
            for j in range(i):
                d = st.n(uniq[i] - uniq[j])
                if d.is_const():
                    s = d.cval()
                elif st.entails_plain(d):
                    s = 1 if st.entails_plain(d - 1) else 0.5
                elif st.entails_plain(-d):
                    s = -1 if st.entails_plain(-d - 1) else -0.5
                else:
                    continue
                a, b2 = (uniq[i], uniq[j]) if s > 0 else (uniq[j], uniq[i])
                add(bp(a) - (bp(b2) if abs(s) < 1 else bp(b2) * Cfg.minb ** min(int(abs(s)), 4)))
    tset = [e for bn, e in pl if bn == '2']
    if tset:
        tset = [ZERO] + tset
        for i in range(len(tset)):
            for j in range(i):
                d = st.n(tset[i] - tset[j])
                if nonneg(st, d - 1, depth):
                    add(power('2', tset[i]) - 2 * power('2', tset[j]))
                elif nonneg(st, -d - 1, depth):
                    add(power('2', tset[j]) - 2 * power('2', tset[i]))
                elif nonneg(st, d, depth):
                    add(power('2', tset[i]) - power('2', tset[j]))
                elif nonneg(st, -d, depth):
                    add(power('2', tset[j]) - power('2', tset[i]))
    if level >= 1:
        orig = list(out)
        prods = []
        cnt = 0
        gm = list(goal.t)
        for f in list(out):
            if len(f.t) > 12:
                continue
            rs = set()
            for m in f.t:
                for g in gm:
                    r = ratio(g, m)
                    if r is not None and r != ONE:
                        rs.add(r)
            for r in sorted(rs, key=lambda r: (mono_factors(r), r))[:8]:
                prods.append(f * Poly({r: 1}))
                cnt += 1
            if cnt > 150:
                break
        new = []
        for f in prods:
            g = add(f)
            if g is not None:
                new.append(g)
        if level >= 2:
            gm = set()
            for f in orig + new:
                for m in f.t:
                    if mono_factors(m) >= 2 and m not in goal.t:
                        gm.add(m)
            gm = sorted(gm, key=lambda m: (mono_factors(m), m))[:40]
            prods = []
            for f in sorted(out, key=lambda f: not (len(f.t) == 2 and all(not m[0] for m in f.t))):
                if len(f.t) > 6:
                    continue
                rs = set()
                for m in f.t:
                    if m == ONE:
                        continue
                    for g in gm:
                        r = ratio(g, m)
                        if r is not None and r != ONE and mono_factors(r) <= 1 and not any(ATOMS[x].kind in ('nat', 'idx') for x, _ in r[0]):
                            rs.add(r)
                for r in sorted(rs, key=lambda r: (mono_factors(r), r))[:8]:
                    prods.append(f * Poly({r: 1}))
                if len(prods) > 300:
                    break
            for f in prods:
                add(f)
    return out


def ratio(g, m):
    """monomial g / m if it is a monomial with nonnegative factors"""
    ga, gx = g
    d = dict(ga)
    for a, p in m[0]:
        q = d.get(a, 0) - p
        if q < 0:
            return None
        if q:
            d[a] = q
        else:
            d.pop(a, None)
    for a in d:
        if not is_nonneg(ATOMS[a]):
            return None
    inv = tuple((b, tuple((k, -v) for k, v in l)) for b, l in m[1])
    r = mono_mul((tuple(sorted(d.items())), gx), ((), inv))
    return r


def nonneg(st, d, depth):
    if d.is_const():
        return d.cval() >= 0
    return st.entails_plain(d)


def related(V, n, goal, base):
    d = goal.deps()
    if not d:
        return True
    vd = V.deps() | n.deps()
    if vd & d:
        return True
    for f in base:
        fd = f.deps()
        if (fd & d) and (fd & vd):
            return True
    return False
