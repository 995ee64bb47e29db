"""Abstract state: a relational domain of polynomial equalities (kept solved as a substitution), linear
inequalities over monomials (entailment by exact Farkas certificates, lp.py), and ropes of array versions
whose prefix values F_v(p) = value of the first p digits of version v."""
import math
from fractions import Fraction
from . import poly
from .poly import (ATOMS, P, Poly, ZERO, PONE, const, fam, famP, fresh, bpow, power, Subst, ONE, SIMPL, NonLinear, lin2poly)
from . import lp


class NeedSplit(Exception):
    """the analysis needs to know the sign of .poly (>= 0 or <= -1) to go on"""
    def __init__(self, p):
        Exception.__init__(self, 'split on %r' % (p,))
        self.poly = p


class NeedSplitBool(Exception):
    def __init__(self, g):
        Exception.__init__(self, 'split on bool %r' % ATOMS[g])
        self.g = g


class Undecided(Exception):
    """construct outside the domain: no verdict for this function"""


class Infeasible(Exception):
    pass


# ------------------------------------------------------------------ config of the digit base
class Cfg:
    bval = None         # concrete base (digit mode) or None
    minb = 100
    binary = False      # b = 2^W


def B():
    return const(Cfg.bval) if Cfg.bval else poly.B


def bp(e):
    e = P(e)
    if Cfg.bval:
        if e.is_const():
            return const(Fraction(Cfg.bval) ** e.cval())
        raise NonLinear('b^%r' % e)
    return bpow_gated(e)


def bpow_gated(e):
    """b^e where e may contain boolean atoms: b^(r+c*g) = b^r (1 + g (b^c - 1))"""
    for (at, ex), c in e.t.items():
        if len(at) >= 1 and not ex and all(ATOMS[a].kind == 'bool' for a, _ in at):
            g = PONE
            for a, _ in at:
                g = g * P(ATOMS[a])
            rest = Poly({m: v for m, v in e.t.items() if m != (at, ex)})
            return bpow_gated(rest) * (PONE + g * (bpow(c) - 1))
    return bpow(e)


# ------------------------------------------------------------------ array versions
VERS = []


class Ver:
    __slots__ = ('id', 'kind', 'L', 'T', 'form', 'name', 'params', 'top')

    def __repr__(self):
        return 'v%d%s' % (self.id, self.name or '')


def new_ver(kind, L, T=None, form=None, name=None, top=None):
    """top: digits from this position on are zero"""
    v = Ver()
    v.top = top
    v.id, v.kind, v.L, v.T, v.form, v.name = len(VERS), kind, P(L), T, form, name
    VERS.append(v)
    return v


ZEROV = None
MAXV = None
DIVIDE = True
PSIG, PLAIN = {}, {}        # what the facts about indices and counts entail


def reset():
    global ZEROV, MAXV
    poly.reset()
    VERS.clear()
    PSIG.clear()
    PLAIN.clear()
    BOOLDEF.clear()
    _BOOLKEY.clear()
    ZEROV = new_ver('zero', 0)
    MAXV = new_ver('max', 0)


def F(v, q, params=()):
    """prefix value of version v at position q"""
    q = P(q)
    if not q.t or v.kind == 'zero':
        return ZERO
    if v.kind == 'max':
        return bp(q) - 1
    if v.kind == 'form':
        return v.form(q)
    for at in list(q.t):
        pass
    return famP(('F', v.id), 'F%d' % v.id, (q, v.L) + tuple(params), 'F')


def _simplF(key, name, args, kind, info):
    v = VERS[key[1]]
    q, L = args[0], args[1]
    if not q.t:
        return ZERO
    if v.kind == 'form':
        return v.form(q)
    if q == L and v.T is not None:
        return v.T(args[2:]) if callable(v.T) else v.T
    # gated positions
    for (at, ex), c in q.t.items():
        for a, _ in at:
            if ATOMS[a].kind == 'bool':
                q0 = Subst({a: ZERO})(q)
                q1 = Subst({a: PONE})(q)
                g = P(ATOMS[a])
                f0 = famP(key, name, (q0,) + args[1:], kind, info)
                f1 = famP(key, name, (q1,) + args[1:], kind, info)
                return f0 + g * (f1 - f0)
    return None


SIMPL['F'] = _simplF

# ------------------------------------------------------------------ boolean atoms
BOOLDEF = {}
_BOOLKEY = {}


def bool_atom(kind, p, name='c'):
    """atom g with g = 1 iff p >= 0 ('ge') / p == 0 ('eq')"""
    key = (kind, p.key())
    a = _BOOLKEY.get(key)
    if a is None:
        a = fresh(name, 'bool')
        _BOOLKEY[key] = a
        BOOLDEF[a.id] = (kind, p)
    return a


# ------------------------------------------------------------------ ropes
class Rope:
    __slots__ = ('pieces',)

    def __init__(self, pieces):
        self.pieces = [p for p in pieces if p[2].t]

    def length(self):
        n = ZERO
        for p in self.pieces:
            n = n + p[2]
        return n

    def __repr__(self):
        return '[' + ' | '.join('%r+%r:%r' % p[:3] for p in self.pieces) + ']'


def piece(v, off, ln, params=()):
    return (v, P(off), P(ln), tuple(params))


STAT = {'entails': 0, 'hit': 0}


class State:
    __slots__ = ('env', 'heap', 'sub', 'facts', 'eqs', 'neqs', 'canon', 'trail', 'gated', 'dead', 'notes', '_ent', 'depth', 'ints')

    def __init__(self):
        self.env = {}
        self.heap = {}
        self.sub = Subst()
        self.facts = []
        self.eqs = []
        self.neqs = []
        self.canon = []
        self.trail = []
        self.gated = []
        self.notes = []
        self._ent = {}
        self.depth = 0

    def clone(self):
        s = State()
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.sub = self.sub
        s.facts = list(self.facts)
        s.eqs = list(self.eqs)
        s.neqs = list(self.neqs)
        s.canon = list(self.canon)
        s.trail = list(self.trail)
        s.gated = list(self.gated)
        s.notes = list(self.notes)
        s._ent = self._ent
        return s

    # ---------------------------------------------------------------- normalisation
    def n(self, p):
        p = P(p)
        r = self.sub(p)
        while True:
            q = canon_pow(r)
            q = self.sub(q)
            if q == r:
                return r
            r = q

    # ---------------------------------------------------------------- facts
    def add(self, p):
        """assume p >= 0"""
        p = unscale(self.n(p))
        if p.is_const():
            if p.cval() < 0:
                raise Infeasible()
            return
        self.facts.append(p)
        self._ent = {}
        c = self.gate_single(p)
        if c is not None:
            self.set_bool(*c)
            return
        self.implied(p)

    def implied(self, p):
        """equalities that follow from the new fact p >= 0"""
        from .facts import is_plain
        np = -p
        if np in self.facts:
            self.add_eq(p)
            return
        if is_plain(p):
            if self.entails_plain(np):
                self.add_eq(p)
                return
            # equalities implied together with the facts already there
            deps = p.deps()
            for f in list(self.facts):
                if f in self.facts and f.deps() & deps and f is not p and is_plain(f) and self.entails_plain(-f):
                    self.add_eq(f)

    def gate_single(self, p):
        """p = g - 1 or -g: fixes a boolean"""
        if len(p.t) <= 2:
            for (at, ex), c in p.t.items():
                if len(at) == 1 and not ex and ATOMS[at[0][0]].kind == 'bool':
                    k = p - Poly({(at, ex): c})
                    if k.is_const():
                        kv = k.cval()
                        # c*g + kv >= 0
                        ok0, ok1 = kv >= 0, c + kv >= 0
                        if ok0 and not ok1:
                            return at[0][0], 0
                        if ok1 and not ok0:
                            return at[0][0], 1
                        if not ok0 and not ok1:
                            raise Infeasible()
        return None

    def add_eq(self, p):
        """assume p == 0"""
        p = unscale(self.n(p))
        if not p.t:
            return
        if p.is_const():
            raise Infeasible()
        best = None
        for (at, ex), c in p.t.items():
            if len(at) == 1 and not ex and at[0][1] == 1:
                a = at[0][0]
                A = ATOMS[a]
                # occurs nowhere else (including arguments and exponents)
                occ = 0
                for (at2, ex2) in p.t:
                    for x, pw in at2:
                        if x == a or a in ATOMS[x].deps:
                            occ += 1
                    for _, l in ex2:
                        if a in lin2poly(l).deps():
                            occ += 2
                if occ != 1:
                    continue
                if A.kind == 'bool' and len(p.t) > 2:
                    continue
                if A.kind in ('param',):
                    continue
                val = -(p - Poly({(at, ex): c}))
                if c != 1:
                    val = val * (Fraction(1) / c)
                if A.deps and any(d in val.deps() and False for d in A.deps):
                    continue
                integral = val.content_int()
                rank = (integral, abs(c) == 1, A.kind != 'F', A.kind != 'bool', A.kind == 'idx', a)
                if best is None or rank > best[0]:
                    best = (rank, a, val)
        if best is None or (not best[0][0]):
            # no integral pivot: also look for a single-power pivot-free form
            if best is None:
                self.eqs.append(p)
                self._ent = {}
                return
            # D * q + c * m + rest = 0 with m inside the definition of q: m runs over a residue class
            a = best[1]
            ca = p.t.get((((a, 1),), ()))
            if ca is not None and isinstance(ca, int):
                for (at, ex), c in sorted(p.t.items()):
                    if len(at) == 1 and not ex and at[0][1] == 1 and c in (1, -1) and at[0][0] in ATOMS[a].deps \
                            and ATOMS[at[0][0]].fam is None and ATOMS[at[0][0]].kind not in ('bool', 'param'):
                        rest = p - Poly({(at, ex): c}) - Poly({(((a, 1),), ()): ca})
                        if at[0][0] in rest.deps() or not all(isinstance(x, int) for x in rest.t.values()):
                            continue
                        j = P(fresh('j', 'int'))
                        self.solve(at[0][0], (j * ca + rest) * (-c))
                        self.add_eq(p)
                        return
        _, a, val = best
        if ATOMS[a].kind == 'bool' and val.is_const():
            self.set_bool(a, val.cval())
            return
        self.solve(a, val)

    def solve(self, a, val):
        A = ATOMS[a]
        # keep range information of the eliminated atom
        rng = atom_range(self, a, val)
        one = poly.Subst1({a: val})
        redo = []
        for a2, v2 in self.sub.m.items():
            if a in ATOMS[a2].deps:
                redo.append(one(P(ATOMS[a2])) - v2)
        self.sub = self.sub.extend(a, val)
        self._ent = {}
        old_eqs, self.eqs = self.eqs, []
        old_facts, self.facts = self.facts, []
        chg = []
        for f in old_facts:
            if a in f.deps():
                g = unscale(self.n(f))
                if g.is_const():
                    if g.cval() < 0:
                        raise Infeasible()
                    continue
                if g not in self.facts:
                    self.facts.append(g)
                    chg.append(g)
            else:
                self.facts.append(f)
        for f in rng:
            g = self.n(f)
            if g.is_const():
                if g.cval() < 0:
                    raise Infeasible()
                continue
            if g not in self.facts:
                self.facts.append(g)
        for g in chg:
            if g in self.facts:
                self.implied(g)
        for p in redo:
            self.add_eq(p)
        for p in old_eqs:
            self.add_eq(p)
        nq, self.neqs = self.neqs, []
        for p in nq:
            self.add_neq(p)

    def set_bool(self, a, v):
        cur = self.n(P(ATOMS[a]))
        if cur.is_const():
            if cur.cval() != v:
                raise Infeasible()
            return
        self.trail.append((a, v))
        self.solve(a, const(v))
        d = BOOLDEF.get(a)
        if d:
            kind, p = d
            if kind == 'ge':
                self.add(p if v else -p - 1)
            elif kind == 'eq':
                if v:
                    self.add_eq(p)
                else:
                    self.add_neq(p)
        self.set_bool_known(a)

    def fire(self):
        """release guarded facts whose guard has become known"""
        for _ in range(4):
            for (g, gv, what, x) in list(self.gated):
                c = self.n(P(ATOMS[g]))
                if c.is_const():
                    self.set_bool_known(g)
                    break
                d = BOOLDEF.get(g)
                if d and d[0] == 'ge':
                    if self.entails(d[1]):
                        self.set_bool(g, 1)
                        break
                    if self.entails(-d[1] - 1):
                        self.set_bool(g, 0)
                        break
            else:
                return

    def set_bool_known(self, a):
        gl, self.gated = self.gated, []
        for (g, gv, what, x) in gl:
            cg = self.n(P(ATOMS[g]))
            if not cg.is_const():
                self.gated.append((g, gv, what, x))
            elif cg.cval() == gv:
                {'eq': self.add_eq, 'fact': self.add, 'neq': self.add_neq, 'canon': self.canon.append}[what](x)
        self._ent = {}

    def add_neq(self, p):
        p = self.n(p)
        if p.is_const():
            if p.cval() == 0:
                raise Infeasible()
            return
        self._ent = {}
        if self.entails(p):
            self.add(p - 1)
        elif self.entails(-p):
            self.add(-p - 1)
        else:
            self.neqs.append(p)

    # ---------------------------------------------------------------- queries
    def entails(self, p, depth=0):
        """p >= 0 ?"""
        p = unscale(self.n(p))
        if p.is_const():
            return p.cval() >= 0
        STAT['entails'] += 1
        r = self._ent.get(p)
        if r is not None:
            STAT['hit'] += 1
            return r
        if depth > 3:
            return False
        r = self._entails(p, depth)
        if depth == 0 or r:
            self._ent[p] = r
        return r

    def entails_plain(self, p):
        """p >= 0 from the facts about indices and counts alone"""
        p = self.n(p)
        if p.is_const():
            return p.cval() >= 0
        sig = self._ent.get('psig')
        if sig is None:
            from .facts import is_plain
            k = (frozenset([f for f in self.facts if is_plain(f)] + [(e,) for e in self.eqs if is_plain(e)]),
                 frozenset([(a, v) for a, v in self.sub.m.items() if is_plain(v)]))
            sig = self._ent['psig'] = PSIG.setdefault(k, len(PSIG))
        key = (sig, p)
        r = PLAIN.get(key)
        if r is None:
            from .facts import gather_plain
            if p in self.facts:
                r = True
            else:
                r = lp.entails(gather_plain(self, p), p)
            PLAIN[key] = r
        return r

    def _entails(self, p, depth):
        from .facts import gather, is_plain
        if is_plain(p) and self.entails_plain(p):
            return True
        if p in self.facts:
            return True
        fs = gather(self, p, depth, 0)
        if lp.entails(fs, p):
            return True
        fs2 = gather(self, p, depth, 1)
        if len(fs2) > len(fs) and lp.entails(fs2, p):
            return True
        if Cfg.bval and all(isinstance(c, int) or c.denominator == 1 for c in p.t.values()):
            # p is an integer: p >= 0 iff p > -1
            g = math.gcd(*[int(c) for m, c in p.t.items() if m != ONE])
            if g > 1:
                p = Poly({m: int(c) // g for m, c in p.t.items() if int(c) // g})
            if lp.entails(fs2, (p + 1) * 2 ** 200 - 1):
                return True
            # ... or iff m p > -m for a positive integer m
            if depth == 0 and len(p.t) <= 3:
                ms = {a for f in fs2 for (at, ex) in f.t if len(at) == 2 and any(P(ATOMS[x]).t.keys() & p.t.keys() for x, _ in at) for a, _ in at}
                for a in sorted(ms):
                    g = self.n((p + 1) * P(ATOMS[a]) - 1)
                    if ATOMS[a].kind in ('nat', 'digit', 'pos') and P(ATOMS[a]).t.keys().isdisjoint(p.t) and self.entails(P(ATOMS[a]) - 1, 1) \
                            and lp.entails(gather(self, g, 1, 1), g):
                        return True
            return False
        # p is an integer: p >= 0 iff m p > -m for a positive integer m
        if len(p.t) <= 3 and not Cfg.bval and depth == 0:
            for m in self.multipliers(p, fs):
                g = self.n((p + 1) * m - 1)
                for lv in (0, 1):
                    if lp.entails(gather(self, g, depth, lv), g):
                        return True
        return False

    def entails_hard(self, p):
        """entails() with products of facts and rounding of integer expressions"""
        from .facts import gather
        p = unscale(self.n(p))
        if self.entails(p):
            return True
        key = ('hard', p)
        r = self._ent.get(key)
        if r is None:
            r = False
            if lp.entails(gather(self, p, 0, 2), p):
                r = True
            elif not Cfg.bval and self.integral(p):
                g = 2 * p + 1
                r = lp.entails(gather(self, g, 0, 1), g) or lp.entails(gather(self, g, 0, 2), g)
                if not r and len(p.t) <= 3:
                    for m in self.multipliers(p, gather(self, p, 0, 0)):
                        g = self.n((p + 1) * m - 1)
                        if lp.entails(gather(self, g, 0, 2), g):
                            r = True
                            break
            self._ent[key] = r
        return r

    def entails_round(self, p, step=1, k=None):
        """p >= 0 for p known to be a multiple of step: m p > -step m for a power m of the base"""
        from .facts import gather
        if Cfg.bval:
            return False
        p = self.n(p)
        if p.is_const():
            return p.cval() >= 0
        low = self.min_exp(p) if k is None else k
        if low is None:
            return k is None and self.entails_round2(p)
        key = ('round', p, step)
        r = self._ent.get(key)
        if r is None:
            g = self.n((p + step) * bp(low) - 1)
            r = any(lp.entails(gather(self, g, 0, lv), g) for lv in (0, 1, 2))
            if not r:
                more = self.leads(low, g)
                r = bool(more) and any(lp.entails(gather(self, g, 0, lv) + more, g) for lv in (0, 1))
            if not r:
                # leading digits compare as the numbers they lead, if those are known to compare
                lead = Poly({m: c for m, c in p.t.items() if not (
                    len(m[0]) == 1 and m[0][0][1] == 1 and ATOMS[m[0][0][0]].kind == 'F' and self.n(ATOMS[m[0][0][0]].args[0] - low).t == {}
                    and len(m[1]) == 1 and self.n(lin2poly(m[1][0][1]) + low).t == {})})
                if lead != p:
                    lead = unscale(self.n(lead * bp(low) - 1))
                    if self.entails_hard(lead):
                        if lead not in self.facts:
                            self.facts.append(lead)
                            self._ent = {}
                        r = any(lp.entails(gather(self, g, 0, lv), g) for lv in (0, 1, 2))
            self._ent[key] = r
        return r

    def leads(self, low, g):
        """facts on leading digits (prefixes divided by b^low) as facts on the whole numbers"""
        out = []
        twos = {lin2poly(l) for m in g.t for bn, l in m[1] if bn == '2'}
        for f in self.facts:
            add = ZERO
            for m, c in f.t.items():
                if len(m[0]) == 1 and m[0][0][1] == 1 and ATOMS[m[0][0][0]].kind == 'F' and self.n(ATOMS[m[0][0][0]].args[0] - low).t == {} \
                        and len(m[1]) == 1 and m[1][0][0] == 'b' and self.n(lin2poly(m[1][0][1]) + low).t == {} and c > 0:
                    add = add - Poly({m: c}) + c - c * bp(-low)
            if add.t:
                f = self.n((f + add) * bp(low))
                out.append(f)
                for e in twos:
                    out.append(self.n(f * power('2', e)))
        return out

    def min_exp(self, p):
        """the least k such that p b^k has no negative powers of the base"""
        es = []
        for (at, ex) in p.t:
            for bname, l in ex:
                if bname == 'b':
                    e = lin2poly(l)
                    if e not in es:
                        es.append(e)
        lead = [e for e in es if not e.is_const()]
        k = max([0] + [-e.cval() for e in es if e.is_const()])
        if all(self.entails_plain(e) for e in lead):
            return const(k) if k else None
        for c in lead:
            if all(self.entails_plain(self.n(e - c)) for e in es):
                if not k or self.entails_plain(self.n(-c - k)):
                    return self.n(-c)
        return const(k) if k else None

    def entails_round2(self, p):
        """p >= 0 for an integer p: 2^e p > -2^e"""
        from .facts import gather
        if not all(isinstance(c, int) for c in p.t.values()):
            return False
        for e in self.two_powers():
            g = self.n((p + 1) * power('2', e) - 1)
            if any(lp.entails(gather(self, g, 0, lv), g) for lv in (0, 1, 2)):
                return True
        return False

    def two_powers(self):
        return sorted({lin2poly(l) for f in self.facts + self.eqs for m in f.t for bn, l in m[1] if bn == '2' and len(m[1]) == 1}, key=repr)[:3]

    def zero_mod(self, p, ks=()):
        """p == 0 because p is a multiple of b^k and -b^k < p < b^k"""
        from .facts import gather
        if Cfg.bval:
            return False
        p = unscale(self.n(p))
        if len(p.t) == 1:
            (at, ex), c = next(iter(p.t.items()))
            if isinstance(c, int) and at and all(x > 0 for _, x in at) and all(bn == 'b' for bn, l in ex):
                q = Poly({(at, ()): abs(c)})
                if any(lp.entails(gather(self, g, 0, lv), g) for g in (self.n((1 - q) * B() - 1),) for lv in (0, 1, 2)) and self.entails(q):
                    return True
        ks = list(ks)
        for (at, ex) in p.t:
            for a, _ in at:
                if ATOMS[a].kind == 'F':
                    ks.append(self.n(ATOMS[a].args[0]))
            for bn, l in ex:
                if bn == 'b':
                    ks.append(lin2poly(l))
        seen = []
        if all(isinstance(c, int) for c in p.t.values()) and self.min_exp(p) is None:
            for e in self.two_powers():
                m = power('2', e)
                if all(any(lp.entails(gather(self, g, 0, lv), g) for lv in (0, 1, 2)) for g in (self.n((1 - p) * m - 1), self.n((1 + p) * m - 1))):
                    return True
        for k in ks:
            if k in seen or not k.t:
                continue
            seen.append(k)
            if not self.multiple_of(p, k):
                continue
            if all(any(lp.entails(gather(self, g, 0, lv), g) for lv in (0, 1, 2)) for g in (self.n(bp(k) - 1 - p), self.n(bp(k) - 1 + p))):
                return True
        return False

    def multiple_of(self, p, k):
        """p is an integer multiple of b^k"""
        for _ in range(3):
            for (at, ex) in p.t:
                for a, _ in at:
                    A = ATOMS[a]
                    if A.kind == 'F' and self.n(A.args[0] - k).t == {}:
                        v = VERS[A.fam[1]]
                        if v.T is not None:
                            T = v.T(A.args[2:]) if callable(v.T) else v.T
                            p = self.n(poly.Subst1({a: T})(p))
                            break
                else:
                    continue
                break
            else:
                break
        def odd(p):
            out = []
            for (at, ex), c in p.t.items():
                e = None
                for bn, l in ex:
                    if bn == 'b':
                        e = lin2poly(l)
                if not (isinstance(c, int) or c.denominator == 1) or e is None or not self.entails_plain(e - k):
                    out.append((at, ex))
            return out
        bad = odd(p)
        while bad:
            # known equations may cancel what is not a multiple
            best = None
            for e in self.eqs:
                for m in bad:
                    if m in e.t:
                        q = self.n(p - e * Fraction(p.t[m], e.t[m]))
                        o = odd(q)
                        if len(o) < len(best[1] if best else bad):
                            best = (q, o)
            if best is None:
                return False
            p, bad = best
        return True

    def integral(self, p):
        for (at, ex), c in p.t.items():
            if isinstance(c, int) or c.denominator == 1:
                continue
            d = c.denominator
            k = d.bit_length() - 1
            if 1 << k != d:
                return False
            for bname, l in ex:
                if bname == '2' and self.entails(lin2poly(l) - k):
                    break
            else:
                return False
        return True

    def multipliers(self, p, fs):
        for c in p.t.values():
            if not isinstance(c, int):
                return []
        out = []
        for (at, ex) in p.t:
            if ex:
                return []
            if len(at) == 1:
                for f in fs:
                    for (a2, e2), c in f.t.items():
                        if a2 == at and e2 and len(e2) == 1 and e2[0][0] == 'b':
                            e = lin2poly(e2[0][1])
                            m = Poly({((), e2): 1})
                            if m not in out and self.entails_plain(e):
                                out.append(m)
        return out[:3]

    def settle(self, p):
        """decide the flags in p whose defining comparison has become known"""
        p = self.n(p)
        for _ in range(6):
            for a in sorted(p.deps()):
                d = BOOLDEF.get(a)
                if ATOMS[a].kind != 'bool' or not d or d[0] != 'ge' or (a,) in self._ent:
                    continue
                if self.entails(d[1]):
                    self.set_bool(a, 1)
                elif self.entails(-d[1] - 1):
                    self.set_bool(a, 0)
                else:
                    self._ent[(a,)] = True
                    continue
                break
            else:
                return p
            p = self.n(p)
        return p

    def zero_in_cases(self, p, depth=0):
        """p = 0 for every value of the flags it mentions"""
        p = self.settle(p)
        if not p.t or self.eq0(p):
            return True
        if depth > 3:
            return False
        for a in sorted(p.deps()):
            if ATOMS[a].kind == 'bool' and a in BOOLDEF:
                for v in (0, 1):
                    s = self.clone()
                    try:
                        s.set_bool(a, v)
                        if not s.zero_in_cases(p, depth + 1) and not s.contradictory():
                            return False
                    except Infeasible:
                        pass
                return True
        return False

    def ge_in_cases(self, p, depth=0):
        """p >= 0 for every value of the flags it mentions"""
        p = self.settle(p)
        if self.entails(p):
            return True
        for a in sorted(p.deps()):
            if ATOMS[a].kind == 'bool' and a in BOOLDEF and depth < 3:
                for v in (0, 1):
                    s = self.clone()
                    try:
                        s.set_bool(a, v)
                        if not s.ge_in_cases(p, depth + 1):
                            return False
                    except Infeasible:
                        pass
                return True
        return False

    def contradictory(self, hard=False):
        """the facts are unsatisfiable (sound, incomplete)"""
        from .facts import gather
        if hard and (self.facts or self.eqs):
            if self.contradictory():
                return True
            if self.lonely():
                return True
            for e in self.eqs:
                if self.entails(e - 1) or self.entails(-e - 1):
                    return True
            for f in self.facts:
                if len(f.t) >= 2 and any(len(m[0]) + bool(m[1]) > 1 for m in f.t) and self.entails_hard(-f - 1):
                    return True
            if not Cfg.bval and lp.contradictory(gather(self, const(-1), 0, 2)):
                return True
            return False
        for q in self.neqs:
            if self.eq0(q):
                return True
        if self.facts:
            fs = gather(self, const(-1), 0, 0)
            if lp.contradictory(fs):
                return True
        return False

    def force_flags(self):
        """decide flags one of whose values contradicts the facts"""
        done = False
        for a in sorted({x for f in self.facts for x in f.deps() if ATOMS[x].kind == 'bool'}):
            if self.n(P(ATOMS[a])).is_const():
                continue
            for v in (1, 0):
                s = self.clone()
                try:
                    s.set_bool(a, v)
                    if not (s.contradictory() or s.lonely()):
                        continue
                except Infeasible:
                    pass
                self.set_bool(a, 1 - v)
                done = True
                break
        return done

    def lonely(self):
        """one fact contradicts the ranges of what it mentions"""
        from .facts import gather, is_plain
        plain = [f for f in self.facts if is_plain(f)]
        eqs = [e for e in self.eqs if is_plain(e)]
        for f in reversed(self.facts):
            if is_plain(f):
                continue
            s = self.clone()
            s.facts, s.eqs, s.canon, s.neqs, s.gated = plain + [f], eqs, [], [], []
            s._ent = {}
            g = self.n(-f - 1)
            for lv in (0, 1):
                if lp.entails(gather(s, g, 0, lv), g):
                    return True
        return False

    def eq0(self, p):
        p = self.n(p)
        if not p.t:
            return True
        if p.is_const():
            return False
        if p in self.eqs or -p in self.eqs:
            return True
        return self.entails(p) and self.entails(-p)

    def ne0(self, p):
        p = self.n(p)
        if p.is_const():
            return p.cval() != 0
        for q in self.neqs:
            if q == p or q == -p:
                return True
        for g in (p - 1, -p - 1):
            if self.entails(g):
                if len(g.t) <= 2 and not Cfg.bval:
                    g = unscale(self.n(g))
                    if g.t and not g.is_const() and g not in self.facts:
                        self.facts.append(g)
                return True
        return False

    def cond_ge(self, p):
        p = self.n(p)
        if self.entails(p):
            return PONE
        if self.entails(-p - 1):
            return ZERO
        return P(bool_atom('ge', p))

    def cond_eq(self, p):
        p = self.n(p)
        if self.eq0(p):
            return PONE
        if self.ne0(p):
            return ZERO
        if len(p.t) > 0:
            if all(isinstance(c, int) for c in p.t.values()):
                g = math.gcd(*p.t.values())
                if g > 1:
                    p = Poly({m: c // g for m, c in p.t.items()})
            # sign-normalise
            m = sorted(p.t.items(), key=lambda kv: kv[0])[0]
            if m[1] < 0:
                p = -p
        return P(bool_atom('eq', p))

    def decide_le(self, p, q):
        """True if p <= q, False if p >= q + 1; NeedSplit otherwise"""
        d = self.n(P(q) - P(p))
        if d.is_const():
            return d.cval() >= 0
        if self.entails(d):
            return True
        if self.entails(-d - 1):
            return False
        raise NeedSplit(d)

    # ---------------------------------------------------------------- ropes
    def split_at(self, obj, p):
        """make p a piece boundary of obj; returns the index of the first piece at or after p"""
        p = self.n(p)
        rope = self.heap[obj]
        pcs = rope.pieces
        acc = ZERO
        for i, pc in enumerate(pcs):
            d = self.n(p - acc)
            if not d.t:
                return i
            end = acc + pc[2]
            e = self.n(p - end)
            if not e.t:
                return i + 1
            # p <= end ?
            if e.is_const():
                inside = e.cval() < 0
            elif self.entails(-e):
                inside = True
            elif self.entails(e):
                inside = False
            else:
                # is it equal to acc by facts?
                if not d.is_const() and self.entails(-d):
                    return i
                raise NeedSplit(-e)
            if inside:
                if not self.entails(d):
                    raise NeedSplit(d)
                v, off, ln, params = pc
                if v.kind == 'base' and isinstance(v.T, Poly) and not params and v.T.t:
                    self.divide(v, self.n(off + d))
                a = piece(v, off, d, params)
                b2 = piece(v, self.n(off + d), self.n(ln - d), params)
                self.heap[obj] = Rope(pcs[:i] + [a, b2] + pcs[i + 1:])
                return i + 1
            acc = end
        d = self.n(p - acc)
        if d.t and not self.eq0(d):
            raise Undecided('position %r beyond the end %r of the array' % (p, self.n(acc)))
        return len(pcs)

    def divide(self, v, x):
        """T = X + b^x Y with integral Y and 0 <= X < b^x: the first x digits of v denote X"""
        if not DIVIDE or not x.t or Cfg.bval:
            return
        f = self.n(self.pre(v, x, ()))
        a = f.as_atom()
        if a is None or ATOMS[a].kind != 'F' or ATOMS[a].fam[1] != v.id:
            return
        key = ('div', v.id, x)
        if key in self._ent:
            return
        self._ent[key] = True
        T = self.n(P(v.T))
        X, Y = {}, {}
        for (at, ex), c in T.t.items():
            r = dict(ex)
            e = self.n((lin2poly(r['b']) if 'b' in r else ZERO) - x)
            if isinstance(c, int) and len(ex) <= 1 and (not r or 'b' in r) and self.entails_plain(e):
                Y[(at, ex)] = c
            else:
                X[(at, ex)] = c
        X = Poly(X)
        if a in X.deps():
            return
        if self.entails(X) and self.entails(bp(x) - 1 - X):
            self.solve(a, X)

    def norm_rope(self, obj):
        r = self.heap[obj]
        out = []
        for v, off, ln, params in r.pieces:
            ln = self.n(ln)
            if not ln.t:
                continue
            off = self.n(off)
            params = tuple(self.n(x) for x in params)
            if out and out[-1][0] is v and v.kind in ('zero',):
                pv = out[-1]
                out[-1] = (v, ZERO, self.n(pv[2] + ln), ())
                continue
            if out and out[-1][0] is v and out[-1][3] == params and self.n(out[-1][1] + out[-1][2]) == off:
                pv = out[-1]
                out[-1] = (v, pv[1], self.n(pv[2] + ln), params)
                continue
            out.append((v, off, ln, params))
        self.heap[obj] = Rope(out)

    def get(self, obj, lo, ln):
        """pieces of obj[lo..lo+ln]; reading leaves no boundaries behind"""
        rope = self.heap[obj]
        try:
            return self._get(obj, lo, ln)
        finally:
            self.heap[obj] = rope

    def _get(self, obj, lo, ln):
        i = self.split_at(obj, lo)
        lo = self.n(lo)
        hi = self.n(lo + P(ln))
        if not self.n(ln).t:
            return []
        j = self.split_at(obj, hi)
        # the first split may have been shifted by nothing: indices before hi are stable
        return self.heap[obj].pieces[i:j]

    def put(self, obj, lo, ln, pieces):
        ln = self.n(ln)
        if not ln.t:
            return
        i = self.split_at(obj, lo)
        j = self.split_at(obj, self.n(P(lo) + ln))
        pcs = self.heap[obj].pieces
        self.heap[obj] = Rope(pcs[:i] + list(pieces) + pcs[j:])
        self.norm_rope(obj)

    def pval(self, pieces):
        acc = ZERO
        pos = ZERO
        for v, off, ln, params in pieces:
            if v.kind != 'zero':
                d = self.pre(v, off + ln, params) - self.pre(v, off, params)
                acc = acc + self.n(d) * bp(self.n(pos - off))
            pos = pos + ln
        return self.n(acc)

    def pre(self, v, x, params):
        if v.top is not None and x.t and x != v.L and self.entails_plain(self.n(x - v.top)):
            return P(v.T)
        return F(v, x, params)

    def val(self, obj, lo, ln):
        return self.pval(self.get(obj, lo, ln))

    def digit(self, obj, pos):
        return self.val(obj, pos, 1)

    def fresh_value(self, obj, lo, ln, value, name=None, bounds=True):
        """obj[lo..lo+ln] := unknown digits with the given total value"""
        ln = self.n(ln)
        if not ln.t:
            return
        value = self.n(value)
        if not value.t:
            self.put(obj, lo, ln, [piece(ZEROV, 0, ln)])
            return
        v = new_ver('base', ln, value, name=name)
        if bounds:
            self.add(value)
            self.add(bp(ln) - 1 - value)
        self.put(obj, lo, ln, [piece(v, 0, ln)])

    def havoc(self, obj, lo, ln, name=None):
        ln = self.n(ln)
        if not ln.t:
            return
        v = new_ver('base', ln, None, name=name)
        self.put(obj, lo, ln, [piece(v, 0, ln)])


def unscale(p):
    """multiply by the power of b that makes the least exponent on a prefix value zero"""
    if Cfg.bval:
        return p
    es = []
    for (at, ex), c in p.t.items():
        if not at:
            continue
        e = None
        for bname, l in ex:
            if bname == 'b':
                e = lin2poly(l)
        if not any(ATOMS[a].kind == 'F' for a, _ in at):
            continue
        es.append(ZERO if e is None else e)
    if not es:
        return p
    base = es[0]
    low = 0
    for e in es[1:]:
        d = e - base
        if not d.is_const():
            return p
        low = min(low, d.cval())
    m = base + low
    if not m.t:
        return p
    return p * bpow(-m)


def canon_pow(p):
    """rewrite gated exponents and 2^(W*x) into b^x"""
    hit = False
    for (at, ex) in p.t:
        for bname, l in ex:
            for (la, le), c in l:
                for a, _ in la:
                    if ATOMS[a].kind == 'bool' or (Cfg.binary and bname == '2' and ATOMS[a].kind == 'W'):
                        hit = True
    if not hit:
        return p
    acc = ZERO
    for (at, ex), c in p.t.items():
        q = Poly({(at, ()): c})
        for bname, l in ex:
            if bname == 'b':
                q = q * bpow_gated(lin2poly(l))
            else:
                rest = {}
                bexp = {}
                for (la, le), cc in l:
                    ws = [i for i, (a, _) in enumerate(la) if ATOMS[a].kind == 'W']
                    if ws and Cfg.binary:
                        i = ws[0]
                        a, pw = la[i]
                        nl = la[:i] + (((a, pw - 1),) if pw > 1 else ()) + la[i + 1:]
                        if cc % 8:
                            rest[(la, le)] = cc
                        else:
                            bexp[(nl, le)] = bexp.get((nl, le), 0) + cc // 8
                    else:
                        rest[(la, le)] = cc
                q = q * bpow_gated(Poly(bexp)) * power(bname, Poly(rest))
        acc = acc + q
    return acc


def atom_range(st, a, val=None):
    """bounds of an atom about to be eliminated, also with respect to other parts of the same sequence"""
    from .facts import range_facts
    out = range_facts(st, a)
    A = ATOMS[a]
    if A.kind == 'F' and val is not None:
        for x in sorted(val.deps()):
            X = ATOMS[x]
            if X.kind == 'F' and x != a and X.fam == A.fam and X.args[2:] == A.args[2:]:
                d = st.n(A.args[0] - X.args[0])
                if d.is_const() and d.cval() or not d.is_const() and st.entails_plain(d):
                    hi, lo = (A, X) if not d.is_const() or d.cval() > 0 else (X, A)
                elif not d.is_const() and st.entails_plain(-d):
                    hi, lo = X, A
                else:
                    continue
                out.append(st.n(P(hi) - P(lo)))
                out.append(st.n(bp(hi.args[0]) - bp(lo.args[0]) - P(hi) + P(lo)))
    return out
