"""Loop invariants given by hand, for loops whose invariant the summariser does not find.

Each is checked, not assumed: it holds on entry of the loop, one iteration from any state in which it
holds leads to a state in which it holds again, and only then is it used behind the loop.  A loop of
another shape than the one the invariant was written for is left to the summariser."""
from .poly import ATOMS, P, Poly, ZERO, fresh, lin2poly, power
from .values import V
from .interp import Undecided, Infeasible, NeedSplit, NeedSplitBool
from .state import B, bp, piece
from . import state
from .loops import walk

INVARIANTS = {}


class Unfit(Exception):
    pass


class Broken(Exception):
    def __init__(self, rule, msg):
        self.rule, self.msg = rule, msg


def invariant(path):
    def d(f):
        INVARIANTS[path] = f
        return f
    return d


def iterator(st, fr, live):
    its = [(k, v) for k, v in st.env.items() if k[0] == fr.id and k[1] in live and isinstance(v, V) and v.tag == 'it']
    if len(its) != 1:
        raise Unfit()
    return its[0]


def countdown(st, fr, live):
    """the single live iterator `(0..E).rev()`: its key, a way to rebuild it, E"""
    k, v = iterator(st, fr, live)
    if v.meta != ('rev',) or not isinstance(v.parts[0], V):
        raise Unfit()
    r = v.parts[0]
    if r.tag != 'it' or r.meta != ('range',):
        raise Unfit()
    lo, hi = r.parts
    if st.n(lo).t:
        raise Unfit()
    return k, (lambda e: V('it', ('rev',), (V('it', ('range',), (ZERO, e)),))), st.n(hi)


def proves(I, st, todo):
    """todo(state): raise Broken if something does not hold; case splits as needed"""
    states, n, out = [st], 0, []
    while states:
        s0 = states.pop()
        n += 1
        if n > 40:
            raise Undecided('too many cases at a loop invariant')
        s = s0.clone()
        try:
            todo(s)
        except NeedSplit as x:
            states.extend(I.split(s0, p=x.poly))
            continue
        except NeedSplitBool as x:
            states.extend(I.split(s0, g=x.g))
            continue
        except Infeasible:
            continue
        except Broken as x:
            try:
                s2 = s0.clone()
                if s2.force_flags():
                    states.append(s2)
                    continue
            except Infeasible:
                continue
            if s0.contradictory(True) or s.contradictory(True):
                continue
            s = enrich(s0)
            try:
                todo(s)
            except Infeasible:
                continue
            except (NeedSplit, NeedSplitBool):
                raise x
            except Broken:
                if s.contradictory(True):
                    continue
                raise
        out.append(s0)
    return out


def enrich(st):
    """with the facts about numbers also times the base, and at other scales"""
    s = st.clone()
    for f in st.facts:
        if any(ATOMS[a].kind == 'F' for a in f.deps()):
            es = {lin2poly(l) for _, ex in f.t for bn, l in ex if bn == 'b'}
            for g in [f * B()] + [f * bp(-e) for e in es if not e.is_const() and s.entails_plain(s.n(-e))]:
                g = s.n(g)
                if g not in s.facts:
                    s.facts.append(g)
    group = {}
    for f in s.facts + s.eqs:
        for (at, ex) in f.t:
            if ex and len(at) == 1 and at[0][1] == 1 and ATOMS[at[0][0]].kind == 'F':
                A = ATOMS[at[0][0]]
                group.setdefault((A.fam, A.args[2:], ex), {})[A.id] = A
    for (_, _, ex), L in group.items():
        L = list(L.values())
        sc = Poly({((), ex): 1})
        for i, a in enumerate(L):
            for b in L[:i]:
                x, y = (a, b) if s.entails_plain(s.n(a.args[0] - b.args[0])) else (b, a)
                if s.entails_plain(s.n(x.args[0] - y.args[0])):
                    s.facts.append(s.n((P(x) - P(y)) * sc))
                    s.facts.append(s.n((bp(x.args[0]) - bp(y.args[0]) - P(x) + P(y)) * sc))
    s._ent = {}
    return s


def eq(st, a, b, what):
    d = st.n(P(a) - P(b))
    if d.t and not st.eq0(d) and not (st.entails_hard(d) and st.entails_hard(-d)) and not st.zero_mod(d):
        raise Broken('relation', '%s: difference %r' % (what, d))


def ge(st, p, what):
    p = st.n(p)
    if not st.entails_hard(p) and not st.entails_round(p):
        raise Broken('relation', '%s: %r >= 0' % (what, p))


def run(I, fr, h, st):
    """-> (outcomes, exits) or None"""
    f = INVARIANTS.get(fr.fn['path'])
    if f is None or I.peel is not None or len(I.where) != 1 or not getattr(I, 'root', None):
        return None
    if len(fr.info.loops) != 1:
        return None
    try:
        return f(I, fr, h, st)
    except Unfit:
        return None


@invariant('ubig::div::long::div_big_long_scaled')
def _(I, fr, h, st):
    """num = [digits not looked at | remainder < den | 0], (quotient so far) den + remainder = leading digits of num"""
    sp, args, init = I.root
    snum, top, sden, squot, swork = args
    n, m, l = (init.len0[x.meta[0]] for x in (snum, sden, squot))
    num, den, quot, work = (x.meta[0] for x in (snum, sden, squot, swork))
    live = set(fr.info.live[h]) | fr.info.borrowed
    key, mk, _ = countdown(st, fr, live)

    def form(s, i):
        """put the state into the form of the invariant; the conserved quantity"""
        v = init.ver[num]
        r = fresh('rem', 'nat')
        s.add(P(r))
        w = s.n(n - m - i)
        R = P(r)
        s.add(bp(m) - 1 - R)
        s.put(num, ZERO, n, [piece(v, 0, i), piece(state.new_ver('base', m, R), 0, m), piece(state.ZEROV, 0, w)])
        s.add(init.value(s, den, ZERO, m) - 1 - R)
        s.havoc(quot, i, w)
        s.havoc(work, ZERO, init.len0[work])
        s.env[key] = mk(P(i))
        s._ent = {}

    def carry(s):
        """the leading digit of the product, if the bounds leave one value"""
        t = s.n(s.val(work, m, 1) - P(top))
        for c in (0, -1):
            if not s.n(t - c).t:
                return
            if s.entails_round(s.n(t - c), k=m) and s.entails_round(s.n(c - t), k=m):
                s.add_eq(s.n(t - c))
                return

    def refute(s):
        s = enrich(s)
        try:
            carry(s)
        except (Infeasible, NeedSplit, NeedSplitBool):
            pass
        return s.contradictory(True)
    I.refute = refute

    def quantity(s, i):
        D = init.value(s, den, ZERO, m)
        R = s.val(num, i, s.n(n - i))
        Q = s.val(quot, i, s.n(l - i))
        return s.n((Q * D + R) * bp(i) + init.value(s, num, ZERO, i))

    def check(s, i):
        D = init.value(s, den, ZERO, m)
        ge(s, D - 1 - s.val(num, i, s.n(n - i)), 'remainder below the denominator')
        for v, off, ln, ps in s.get(num, ZERO, i):
            if not v is init.ver[num] or s.n(off).t:
                raise Broken('relation', 'digits not yet looked at')

    V0 = init.value(st, num, ZERO, n) + bp(n) * P(top)
    outs, exits = [], []
    # entry
    good = []

    def entry(s):
        k, _, e = countdown(s, fr, live)
        if k != key or s.n(e - (n - m)).t:
            raise Unfit()
        carry(s)
        check(s, e)
        eq(s, quantity(s, e), V0, 'quotient and remainder on entry')
    try:
        good = proves(I, st, entry)
    except Broken as x:
        I.hint_fails.append((x.rule, 'loop entry: ' + x.msg, 'bb%d' % h))
        return [], []
    # one iteration
    L = fr.info.loops[h]
    env = {k: v for k, v in st.env.items() if k[0] == fr.id and k[1] in live and k != key}
    held = {x.meta[0] for v in env.values() for x in walk(v) if x.tag == 'ptr'}
    # a local that was borrowed before, but is neither live nor referred to, is not read again
    env = {k: v for k, v in env.items() if k[1] in fr.info.live[h] or k in held}
    sig = (h, repr(sorted((k, repr(v)) for k, v in env.items())))
    if sig not in I.hint_done:
        I.hint_done.add(sig)
        g = fr.entry.clone()
        for o in st.heap:
            if o not in g.heap:
                raise Unfit()
        g.env.update(env)
        i = P(fresh('i', 'nat'))
        g.add(i - 1)
        g.add(n - m - i)
        form(g, i)
        before = quantity(g, i)
        o, back, ex = I.run(fr, h, g, region=L, header=h)
        for x in o:
            if x.kind == 'ret':
                raise Undecided('return from the loop')
            outs.append(x)
        for v, e in ex:
            if not e.contradictory(True):
                raise Undecided('loop left early')
        for b in back:
            def step(s):
                k, _, e = countdown(s, fr, live)
                if k != key or s.n(e - i + 1).t:
                    raise Undecided('iterator of the loop')
                check(s, e)
                eq(s, quantity(s, e), before, 'quotient and remainder after a step')
                for k in env:
                    if s.env.get(k) != env[k] and s.n(s.env[k]) != s.n(env[k]):
                        raise Undecided('local changed in the loop')
            try:
                proves(I, b, step)
            except Broken as x:
                I.fail_state = b
                I.hint_fails.append((x.rule, 'loop step: ' + x.msg, 'bb%d' % h))
    # behind the loop
    for s in good:
        form(s, ZERO)
        for k in [k for k in s.env if k[0] == fr.id and k[1] not in live]:
            del s.env[k]
        s.add_eq(s.n(quantity(s, ZERO) - V0))
        o, back, ex = I.run(fr, h, s, region=L, header=h)
        if back or any(x.kind == 'ret' for x in o):
            raise Undecided('loop does not end')
        outs.extend(o)
        exits.extend(ex)
    I.loops_done.append(('%s bb%d' % (fr.fn['path'], h), 1, 2))
    return outs, exits


@invariant('ubig::ops::<impl core::ops::bit::ShrAssign<usize> for ubig::UBig<digit::DecimalDigit<T>>>::shr_assign')
def _(I, fr, h, st):
    """initial value = value * 2^(n - left) + rest, rest < 2^(n - left)"""
    sp, args, init = I.root
    x, n = args
    o = state_obj(I, st, x)
    live = set(fr.info.live[h])
    n = st.n(n)
    V0 = lambda s: init.value(s, o, ZERO, init.len0[o])
    L = fr.info.loops[h]
    counters = [k for k, v in st.env.items() if k[0] == fr.id and k[1] in live and isinstance(v, Poly) and not st.n(v - n).t and assigned(fr, L, k[1])]
    if len(counters) != 1 or st.n(st.val(o, ZERO, st.heap[o].length()) - V0(st)).t:
        raise Unfit()
    key, = counters
    env = {k: v for k, v in st.env.items() if k[0] == fr.id and k[1] in live and k != key}

    def form(s, left):
        e = s.n(n - left)
        m = P(fresh('len', 'nat'))
        v = state.new_ver('base', m, None)
        s.heap[o] = state.Rope([piece(v, 0, m)])
        q = state.F(v, m)
        s.canon.append((q, m))
        r = P(fresh('rest', 'nat'))
        s.add(power('2', e) - 1)
        s.add(power('2', n) - power('2', e))
        s.add(power('2', e) - 1 - r)
        s.add_eq(s.n(V0(s) - q * power('2', e) - r))
        s.env[key] = left
        s._ent = {}
    I.refute = lambda s: False
    outs, exits = [], []
    g = st.clone()
    left = P(fresh('left', 'nat'))
    g.add(n - left)
    form(g, left)
    oo, back, ex = I.run(fr, h, g, region=L, header=h)
    if any(b.kind == 'ret' for b in oo):
        raise Undecided('return from the loop')
    outs += oo
    exits += ex
    for b in back:
        def step(s):
            l2 = s.n(s.env[key])
            ge(s, l2, 'bits left')
            ge(s, left - l2, 'bits left')
            if any(s.env.get(k) != v and s.n(s.env[k]) != s.n(v) for k, v in env.items() if isinstance(v, Poly)):
                raise Undecided('local changed in the loop')
            m = s.heap[o].length()
            q = s.val(o, ZERO, m)
            from .spec import is_canon
            if not is_canon(s, q, m):
                raise Broken('relation', 'canonical form after a step')
            r = s.n(V0(s) - q * power('2', s.n(n - l2)))
            ge(s, r, 'rest after a step')
            ge(s, power('2', s.n(n - l2)) - 1 - r, 'rest after a step')
        try:
            proves(I, b, step)
        except Broken as y:
            I.fail_state = b
            I.hint_fails.append((y.rule, 'loop step: ' + y.msg, 'bb%d' % h))
    I.loops_done.append(('%s bb%d' % (fr.fn['path'], h), 1, 2))
    return outs, exits


def assigned(fr, L, k):
    return any(s[0] == 'assign' and s[1] == [k] for b in L for s in fr.fn['body']['blocks'][b]['st'])


def state_obj(I, st, x):
    from .spec import ubig_obj
    return ubig_obj(I, st, x)
