"""Contracts of the multiplication algorithms."""
from .poly import P, ZERO, PONE, ATOMS, fresh
from .state import B, bp
from .values import *
from .spec import SPECS, spec, Setup, PreFail

M = 'ubig::mul::'
ID = lambda m: m


def product(c, p, value, ln):
    """p[..ln] := value, its digit count is returned; what lies above stays zero if it was zero"""
    rest = c.n(c.len(p) - ln)
    if c.known0(p, ln, rest):
        m = c.ret_count(ID, p, value, c.len(p))
        c.know(ln - m)
    else:
        c.ret_count(ID, p, value, ln)
        c.havoc(p, ln, rest)


@spec(M + 'long::mul_big_long_into')
def _(c, s, t, p):
    n, m = c.len(s), c.len(t)
    v, w = c.val(s), c.val(t)
    c.panics_if(n + m - c.len(p) - 1)
    product(c, p, v * w, n + m)


@spec(M + 'long::square_long_into')
def _(c, s, p):
    n, v = c.len(s), c.val(s)
    c.panics_if(2 * n - c.len(p) - 1)
    product(c, p, v * v, 2 * n)


# ------------------------------------------------------------------ scratch space
def half(c, n):
    from .models import quot
    return quot(c.st, c.n(n + 1), 2)


def work_name(name):
    return 'work_' + name


def atoms_of(st, fam, *more):
    out = set()
    for p in list(more) + list(st.facts) + list(st.eqs) + [p for p in st.sub.m.values()]:
        for a in p.deps():
            if ATOMS[a].fam == ('fn', fam):
                out.add(a)
    out |= {a for a in st.sub.m if ATOMS[a].fam == ('fn', fam)}
    return sorted(out)


def work_lemmas(c, name, n):
    """what is known of the work size W(n), a function defined by the code of calc_*_work_size"""
    W = c.fn(work_name(name), n)
    st = c.st
    for a in atoms_of(st, work_name(name)):
        N = ATOMS[a].args[0]
        if st.entails(N - n):
            c.know(P(ATOMS[a]) - W)
        elif st.entails(n - N):
            c.know(W - P(ATOMS[a]))
    return W


def unfold(c, name, n):
    if name == 'kara':
        q = half(c, n)
        W = c.fn(work_name(name), n)
        c.know_eq(W - 2 * q - c.fn(work_name(name), q))


def pre_work(c, work, name, n0, n1):
    """the scratch space suffices for N digits, for some N not less than n0 and n1"""
    ln = c.len(work)
    if c.proving:
        if not hasattr(c, 'script') or not isinstance(c, Setup):
            return
        N = P(fresh('N', 'nat'))
        c.st.add(N - n0)
        c.st.add(N - n1)
        c.st.add(ln - c.fn(work_name(name), N))
        return
    st = c.st
    for a in atoms_of(st, work_name(name), st.n(ln)):
        N = ATOMS[a].args[0]
        if st.entails(N - n0) and st.entails(N - n1) and st.entails(ln - P(ATOMS[a])):
            return
    raise PreFail('work space', False)


@spec(M + 'karatsuba::calc_karatsuba_work_size')
def _(c, n):
    W = c.fn(work_name('kara'), n)
    if not c.proving:
        W = work_lemmas(c, 'kara', n)
        if c.cond(n - cutoff('KARATSUBA')):
            unfold(c, 'kara', n)
    c.define(W)


def cutoff(name):
    from . import verify
    return P(verify.PROG.const('ubig::mul::%s_CUTOFF' % name))


@spec(M + 'karatsuba::mul_big_karatsuba_into')
def _(c, s, t, p, work):
    n, m = c.len(s), c.len(t)
    v, w = c.val(s), c.val(t)
    c.pre_canon(v, n)
    c.pre_canon(w, m)
    c.pre(n - cutoff('KARATSUBA'))
    c.pre(m - cutoff('KARATSUBA'))
    c.pre(c.len(p) - n - m)
    if not c.pre_case(cutoff('TOOM3') - 1 - n):
        c.pre(cutoff('TOOM3') - 1 - m)
    pre_work(c, work, 'kara', n, m)
    product(c, p, v * w, n + m)
    c.havoc(work)


@spec(M + 'karatsuba::square_karatsuba_into')
def _(c, s, p, work):
    n, v = c.len(s), c.val(s)
    c.pre_canon(v, n)
    c.pre(n - cutoff('KARATSUBA'))
    c.pre(c.len(p) - 2 * n)
    c.pre(cutoff('TOOM3') - 1 - n)
    pre_work(c, work, 'kara', n, n)
    product(c, p, v * v, 2 * n)
    c.havoc(work)


@spec(M + 'toom3::calc_toom3_work_size')
def _(c, n):
    c.define(c.fn(work_name('toom'), n) if c.proving else work_lemmas(c, 'toom', n))


@spec(M + 'toom3::mul_big_toom3_into')
def _(c, s, t, p, work):
    n, m = c.len(s), c.len(t)
    v, w = c.val(s), c.val(t)
    c.pre_canon(v, n)
    c.pre_canon(w, m)
    c.pre(n - cutoff('TOOM3'))
    c.pre(m - cutoff('TOOM3'))
    c.pre(c.len(p) - n - m)
    pre_work(c, work, 'toom', n, m)
    product(c, p, v * w, n + m)
    c.havoc(work)


@spec(M + 'toom3::square_toom3_into')
def _(c, s, p, work):
    n, v = c.len(s), c.val(s)
    c.pre_canon(v, n)
    c.pre(n - cutoff('TOOM3'))
    c.pre(c.len(p) - 2 * n)
    pre_work(c, work, 'toom', n, n)
    product(c, p, v * v, 2 * n)
    c.havoc(work)


def mul_contract(c, s, t, p, work=None):
    n, m = c.len(s), c.len(t)
    v, w = c.val(s), c.val(t)
    c.pre_canon(v, n)
    if s is not t:
        c.pre_canon(w, m)
    if work is not None:
        k, tc = cutoff('KARATSUBA'), cutoff('TOOM3')
        toom = lambda: pre_work(c, work, 'toom', n, m)
        kara = lambda: pre_work(c, work, 'kara', n, m)
        c.under([n - tc, m - tc], toom)
        c.under([n - k, m - k, tc - 1 - n], kara)
        c.under([n - k, m - k, tc - 1 - m], kara)
    if not c.known0(p, ZERO, n + m):
        if not c.pre_case(n - 1) or s is not t and not c.pre_case(m - 1):
            c.ret(ZERO)
            return
    c.panics_if(n + m - c.len(p) - 1)
    product(c, p, v * w, n + m)
    if work is not None:
        c.havoc(work)


@spec(M + 'mul_big_into')
def _(c, s, t, p):
    mul_contract(c, s, t, p)


@spec(M + 'mul_big_into_with_work')
def _(c, s, t, p, work):
    mul_contract(c, s, t, p, work)


@spec(M + 'square_into')
def _(c, s, p):
    mul_contract(c, s, s, p)


@spec(M + 'square_into_with_work')
def _(c, s, p, work):
    mul_contract(c, s, s, p, work)


# analysed exactly at these lengths when the proof for all lengths is not complete
SPECS[M + 'karatsuba::mul_big_karatsuba_into'].lengths = [
    'lengths %s' % x for x in ('24,20,44,100', '20,21,41,100', '23,23,47,100', '44,20,64,200', '20,43,63,200')]
