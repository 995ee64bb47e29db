"""Exact linear entailment for the polyhedral part of the abstract domain (Farkas certificates).

entails(facts, goal): is goal >= 0 a non-negative combination of facts (each >= 0) plus a
non-negative constant?  Monomials are treated as independent variables, so a positive answer is
always sound.  Exact rational simplex (phase 1, Bland's rule), written for small sparse problems.
"""
from fractions import Fraction
from .poly import ONE

STATS = {'quick': 0, 'calls': 0, 'pivots': 0, 'time': 0.0}


def _solve(cols, rhs, model, maxpiv=4000):
    """is there x >= 0 with sum_j x_j cols[j] = rhs ?  cols: list of dict row->val; rhs: dict row->val"""
    rows = {}
    for c in cols:
        for r in c:
            if r not in rows:
                rows[r] = len(rows)
    for r, v in rhs.items():
        if r not in rows:
            if v != 0:
                return None
    m, n = len(rows), len(cols)
    # integer tableau rows (each row may be scaled freely); last entries: rhs under key -1
    T = [dict() for _ in range(m)]
    for j, c in enumerate(cols):
        for r, v in c.items():
            if v:
                T[rows[r]][j] = v
    for r, i in rows.items():
        v = rhs.get(r, 0)
        if v < 0:
            T[i] = {k: -x for k, x in T[i].items()}
            v = -v
        T[i][-1] = v
    # scale to integers
    from math import gcd
    factor = [1] * m
    for r, i in rows.items():
        den = 1
        for x in T[i].values():
            d = x.denominator
            den = den * d // gcd(den, d)
        T[i] = {k: int(x * den) for k, x in T[i].items() if x}
        factor[i] = den if rhs.get(r, 0) >= 0 else -den
        T[i][-2 - i] = 1            # the artificial variable: its column gives the dual
    # artificials are implicit: basis[i] = ('a', i); objective = sum of the artificial rows
    basis = [None] * m
    # the objective row is recomputed as a rational combination: keep artificial rows list
    art = set(range(m))
    # rational objective over columns: z_j = sum_{i in art} T[i][j]/T[i][basis coef]; artificial coef scale s_i
    scale = [1] * m  # coefficient of the artificial variable in row i
    piv = 0
    while True:
        # every term is non-negative
        if not any(T[i].get(-1, 0) for i in art):
            break
        z = {}
        L = 1
        for i in art:
            s = scale[i]
            if s != 1:
                L = L * s // gcd(L, s)
        for i in art:
            s = L // scale[i]
            for j, v in T[i].items():
                if j >= 0:
                    z[j] = z.get(j, 0) + (v * s if s != 1 else v)
        if piv < 60:
            best, ent = 0, None
            for j, v in z.items():
                if v > best:
                    best, ent = v, j
        else:
            ent = min((j for j, v in z.items() if v > 0), default=None)
        if ent is None:
            y = [0.0] * m
            for i in art:
                for j, v in T[i].items():
                    if j < -1:
                        y[-2 - j] += v / scale[i]
            model.update((r, -y[i] * factor[i]) for r, i in rows.items())
            return None
        ln, ld, bi = 0, 1, None
        for i in range(m):
            a = T[i].get(ent, 0)
            if a > 0:
                r = T[i].get(-1, 0)
                d = r * ld - ln * a
                if bi is None or d < 0 or (d == 0 and ((i in art) > (bi in art) or ((i in art) == (bi in art) and (basis[i] or -1) < (basis[bi] or -1)))):
                    ln, ld, bi = r, a, i
        if bi is None:
            return None
        piv += 1
        STATS['pivots'] += 1
        if piv > maxpiv:
            return None
        pr = T[bi]
        pa = pr[ent]
        if bi in art:
            art.discard(bi)
        basis[bi] = ent
        for i in range(m):
            if i == bi:
                continue
            a = T[i].get(ent)
            if not a:
                continue
            g = gcd(abs(a), pa)
            f1, f2 = pa // g, a // g
            ri = T[i]
            if f1 != 1:
                ri = {k: v * f1 for k, v in ri.items()}
            else:
                ri = dict(ri)
            for k, v in pr.items():
                x = ri.get(k, 0) - f2 * v
                if x:
                    ri[k] = x
                else:
                    ri.pop(k, None)
            scale[i] = scale[i] * f1
            # reduce
            g = 0
            for v in ri.values():
                g = gcd(g, abs(v))
                if g == 1:
                    break
            if i in art:
                g = gcd(g, scale[i])
            if g > 1:
                ri = {k: v // g for k, v in ri.items()}
                if i in art:
                    scale[i] //= g
            T[i] = ri
    x = [0] * n
    for i in range(m):
        if basis[i] is not None:
            x[basis[i]] = Fraction(T[i].get(-1, 0), T[i][basis[i]])
    return x


def entails(facts, goal):
    """goal >= 0 from facts >= 0"""
    import time
    if not goal.t or (goal.is_const() and goal.cval() >= 0):
        return True
    t0 = time.time()
    STATS['calls'] += 1
    facts = [f for f in facts if f.t]
    # relevance: monomials reachable
    cols = [dict(f.t) for f in facts]
    cols.append({ONE: 1})
    # eliminate columns with a monomial of one sign only that the goal lacks (cannot be cancelled)
    alive = list(range(len(cols)))
    gm = goal.t
    while True:
        pos, neg = set(), set()
        for j in alive:
            for m, v in cols[j].items():
                (pos if v > 0 else neg).add(m)
        nal = []
        for j in alive:
            ok = True
            for m, v in cols[j].items():
                g = gm.get(m, 0)
                if v > 0 and g <= 0 and m not in neg:
                    ok = False
                    break
                if v < 0 and g >= 0 and m not in pos:
                    ok = False
                    break
            if ok:
                nal.append(j)
        if len(nal) == len(alive):
            break
        alive = nal
    for m, v in gm.items():
        if m not in (pos if v > 0 else neg):
            STATS['time'] += time.time() - t0
            return False
    sub = [cols[j] for j in alive]
    for k, w in enumerate(MODELS):
        if refutes(w, sub, gm):
            if k:
                del MODELS[k]
                MODELS.insert(0, w)
            STATS['quick'] += 1
            STATS['time'] += time.time() - t0
            return False
    w = {}
    x = _solve(sub, dict(gm), w)
    if w:
        MODELS.insert(0, w)
        del MODELS[KEEP:]
    STATS['time'] += time.time() - t0
    return x is not None


MODELS = []         # recent counter-valuations of the monomials
KEEP = 8


def refutes(w, cols, goal):
    """all facts hold in w and the goal does not (a wrong answer only loses precision)"""
    s = t = 0.0
    for m, v in goal.items():
        x = v * w.get(m, 0.0)
        s += x
        t += abs(x)
    if s >= -1e-9 * t or t == 0.0:
        return False
    for c in cols:
        s = t = 0.0
        for m, v in c.items():
            x = v * w.get(m, 0.0)
            s += x
            t += abs(x)
        if s < -1e-9 * t:
            return False
    return True


def contradictory(facts):
    from .poly import const
    return entails(facts, const(-1))
