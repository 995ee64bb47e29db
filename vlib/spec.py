"""Function contracts and their two uses: as a summary of a call (assume) and as the obligations an
implementation has to meet (prove)."""
import random
from fractions import Fraction
from . import poly, state
from .poly import ATOMS, P, Poly, ZERO, PONE, const, fresh, power, NonLinear
from .state import State, NeedSplit, NeedSplitBool, Undecided, Infeasible, Cfg, B, bp, piece, new_ver, Rope, F, bool_atom
from .values import *
from .interp import Interp, Out, Panic

SPECS = {}


TOPS = True


class Stop(Exception):
    pass


class PanicNow(Exception):
    def __init__(self, why):
        self.why = why


class Fail(Exception):
    """an obligation is not established; .definite when it is known to be false on this path"""
    def __init__(self, rule, msg, definite=False):
        Exception.__init__(self, '%s: %s' % (rule, msg))
        self.rule, self.msg, self.definite = rule, msg, definite


class PreFail(Exception):
    def __init__(self, msg, definite):
        Exception.__init__(self, msg)
        self.definite = definite


def spec(*paths, **kw):
    def d(f):
        for p in paths:
            s = Spec(p, f, **kw)
            SPECS[p] = s
        return f
    return d


class Spec:
    def __init__(self, path, f, mode='digit', prop=(), setup=None, cfg=None, trait=False):
        self.path, self.f, self.mode, self.prop, self.setup, self.cfg, self.trait = path, f, mode, prop, setup, cfg, trait

    # -------------------------------------------------------------- use as a summary
    def apply(self, I, st, args, fj):
        todo = [(st, ())]
        res = []
        n = 0
        while todo:
            s0, script = todo.pop()
            n += 1
            if n > 64:
                raise Undecided('too many cases at a call of ' + self.path)
            s = s0.clone()
            c = Assume(self, I, s, args, script)
            try:
                self.f(c, *args)
            except Choice as e:
                for i in range(e.n):
                    todo.append((s0, script + (i,)))
                continue
            except PanicNow as e:
                res.append((s, Panic('%s in %s' % (e.why, self.path))))
                continue
            except PreFail as e:
                I.pre_fail.append((self.path, str(e), e.definite, list(I.where)))
                if self.trait or self.path in I.noinline:
                    raise Undecided('precondition of %s: %s' % (self.path, e))
                return None
            except Infeasible:
                continue
            except NeedSplit as e:
                raise
            res.append((s, c.retval))
        # several cases: drop the infeasible ones
        if len(res) > 1:
            res = [r for r in res if not r[0].contradictory()]
        return res


class Choice(Exception):
    def __init__(self, n):
        self.n = n


class Base:
    def __init__(self, spec, I, st, args):
        self.spec, self.I, self.st, self.args = spec, I, st, args
        self.retval = UNIT

    def n(self, p):
        return self.st.n(p)

    def pin(self, x, lo, hi):
        pass

    # -------------------------------------------------------------- reading arguments
    def len(self, s):
        if s.tag == 'slice':
            return self.n(s.parts[1])
        raise Undecided('length of %r' % (s,))

    def cond(self, p):
        """p >= 0 ?  (case split if unknown)"""
        c = self.st.cond_ge(P(p))
        return self.I.truth(self.st, c)

    def is0(self, p):
        c = self.st.cond_eq(P(p))
        return self.I.truth(self.st, c)

    tag = ''
    setup = False

    def zero_divisor(self, p):
        """the case of a division by zero"""
        z = self.is0(p)
        if z:
            self.tag = ' [zero divisor]'
        return z

    def pre_case(self, p):
        return self.cond(p)

    def vecval(self, d):
        """the number the digits of a vector denote"""
        while d.tag in ('ptr', 'box'):
            d = self.I.load(self.st, ('env', d.meta[0], d.meta[1])) if d.tag == 'ptr' else d.parts[0]
        if d.tag != 'vec':
            raise Undecided('not a vector: %r' % (d,))
        return self.val(slc(d.meta[0], 0, self.objlen(d.meta[0])))

    def fn(self, name, *args):
        """an unknown but fixed function of lengths"""
        return poly.famP(('fn', name), name, tuple(self.n(P(a)) for a in args), 'nat')



class Assume(Base):
    proving = False

    def __init__(self, spec, I, st, args, script):
        Base.__init__(self, spec, I, st, args)
        self.script, self.pos = script, 0

    def objlen(self, u):
        return self.n(self.st.heap[u].length())

    def obj(self, x):
        """the heap object of a UBig argument (value, pointer)"""
        return ubig_obj(self.I, self.st, x)

    def num(self, x):
        o = self.obj(x)
        n = self.objlen(o)
        return self.st.val(o, ZERO, n), n

    def val(self, s, lo=ZERO, ln=None):
        lo = P(lo)
        if ln is None:
            ln = s.parts[1] - lo
        return self.st.val(s.meta[0], self.n(s.parts[0] + lo), self.n(ln))

    def get(self, x):
        if isinstance(x, Poly):
            return self.n(x)
        lv = self.I.lval_of(self.st, x)
        return self.I.load(self.st, lv)

    def pre(self, p, what=''):
        p = self.n(p)
        if not self.st.entails_hard(p) and not self.st.entails_round(p):
            if self.spec.trait:
                if self.cond(p):
                    return
                raise PanicNow('digit operation outside its domain (%s)' % (what or '%r >= 0' % p))
            raise PreFail('%s needs %r >= 0' % (what, p), self.st.entails(-p - 1))

    def pre_even(self, p, k, what=''):
        """p is an even integer, a multiple of b^-k"""
        p = self.n(p)
        if not self.st.entails_round(p, 2, k):
            raise PreFail('%s needs %r >= 0' % (what, p), self.st.entails(-p - 1))

    def pre_canon(self, V, n):
        if not is_canon(self.st, V, n):
            raise PreFail('canonical form of %r (%r)' % (self.n(V), self.n(n)), False)

    def both_canon(self, v, n, w, m):
        """no leading zeros: the order of the lengths is implied by the order of the values"""
        return is_canon(self.st, self.n(v), self.n(n)) and is_canon(self.st, self.n(w), self.n(m))

    def given_cond(self, p, yes, no):
        """p >= 0 implies yes >= 0, p < 0 implies no >= 0"""
        g = self.st.cond_ge(p)
        if g == PONE:
            self.st.add(yes)
        elif not g.t:
            self.st.add(no)
        else:
            a = g.as_atom()
            self.st.gated.append((a, 1, 'fact', self.n(yes)))
            self.st.gated.append((a, 0, 'fact', self.n(no)))

    def panics_if(self, p, why='documented panic'):
        if self.cond(p):
            raise PanicNow(why)

    def choose(self, n):
        if self.pos < len(self.script):
            self.pos += 1
            return self.script[self.pos - 1]
        raise Choice(n)

    def fresh(self, kind, info=None):
        return P(fresh('r', kind, info))

    def result(self, mk, kinds):
        us = []
        for k in kinds:
            us.append(self.new(k))
        self.retval = mk(*us)
        return us[0] if len(us) == 1 else us

    def new(self, k):
        if isinstance(k, tuple):
            return P(fresh('r', 'range', {'lo': P(k[0]), 'hi': P(k[1])}))
        return P(fresh('r', k))

    def ret(self, v):
        self.retval = v

    def ret_cond(self, p):
        self.retval = self.n(self.st.cond_ge(P(p)))
        return self.retval

    def know(self, p):
        """a consequence of the contract (p >= 0)"""
        p = self.n(p)
        if not p.is_const():
            self.st.add(p)
        elif p.cval() < 0:
            raise Infeasible()

    def know_eq(self, p):
        self.st.add_eq(P(p))

    def write(self, s, expr, lo=ZERO, ln=None):
        lo = P(lo)
        if ln is None:
            ln = s.parts[1] - lo
        pos = self.n(s.parts[0] + lo)
        ln = self.n(ln)
        if not ln.t:
            return
        self.I.log(self.st, s.meta[0], pos, ln)
        self.st.fresh_value(s.meta[0], pos, ln, P(expr))

    def havoc(self, s, lo=ZERO, ln=None):
        lo = P(lo)
        if ln is None:
            ln = s.parts[1] - lo
        pos = self.n(s.parts[0] + lo)
        ln = self.n(ln)
        if not ln.t:
            return
        self.I.log(self.st, s.meta[0], pos, ln)
        self.st.havoc(s.meta[0], pos, ln)

    def copy(self, s, lo, src, slo, ln):
        """s[lo..lo+ln] := the digits src[slo..slo+ln] (initial contents)"""
        ln = self.n(ln)
        if not ln.t:
            return
        pcs = self.st.get(src.meta[0], self.n(src.parts[0] + slo), ln)
        pos = self.n(s.parts[0] + lo)
        self.I.log(self.st, s.meta[0], pos, ln)
        self.st.put(s.meta[0], pos, ln, pcs)

    def set(self, x, expr, kind=None):
        lv = self.I.lval_of(self.st, x)
        e = self.n(expr)
        if lv[0] == 'env':
            v = e
            if e.as_atom() is None and not e.is_const() and kind:
                a = P(fresh('d', kind))
                self.st.add_eq(a - e)
                v = self.n(a)
                # type range of the stored digit
                if kind == 'digit':
                    self.know(v)
                    self.know(B() - 1 - v)
            self.I.store(self.st, lv, v)
        else:
            self.I.store(self.st, lv, e)

    def under(self, ps, f):
        """the precondition f in case all ps are >= 0"""
        st = self.st
        self.st = st.clone()
        try:
            for p in ps:
                self.st.add(self.n(p))
            if not self.st.contradictory():
                f()
        except Infeasible:
            pass
        finally:
            self.st = st

    def newval(self, s, lo=ZERO, ln=None):
        return P(fresh('q', 'nat'))

    def newget(self, x, kind):
        return P(fresh('q', kind))

    def peek(self, mk, kinds):
        return [self.new(k) for k in kinds]

    def peek_ret(self, mk, kinds):
        us = [self.new(k) for k in kinds]
        self.retval = mk(*us)
        return us

    def count(self, s, m, value, ln, rest='zero', lo=ZERO):
        """s[lo..lo+ln] holds value, in exactly its m digits; the digits above are zero (or arbitrary)"""
        value, ln, m = self.n(value), self.n(ln), self.n(m)
        pos = self.n(s.parts[0] + lo)
        self.st.add(ln - m)
        self.st.add(value)
        self.st.add(bp(m) - 1 - value)
        m = self.n(m)
        self.st.canon.append((value, m))
        self.st._ent = {}
        if ln.t:
            self.I.log(self.st, s.meta[0], pos, ln)
            v = new_ver('base', m, value)
            up = self.n(ln - m)
            z = state.ZEROV if rest == 'zero' else new_ver('base', up, None)
            self.st.put(s.meta[0], pos, ln, [piece(v, 0, m), piece(z, 0, up)])

    def define(self, v):
        """the function defines the symbol v"""
        self.retval = v

    def peek_num(self, s, lo, ln):
        """the number in the lowest digits of s, ln of them, when the function returns"""
        return P(fresh('q', 'nat'))

    def after(self, x):
        """the value of a number when the function returns"""
        return P(fresh('q', 'nat'))

    def resnum(self, wrap=None):
        return P(fresh('q', 'nat'))

    def known0(self, s, lo, ln):
        """are these digits known to be zero before the call ?"""
        ln = self.n(ln)
        if not ln.t or self.st.eq0(ln):
            return True
        if not self.pre_case(self.n(s.parts[1] - lo - ln)):
            return False
        return bool(self.st.eq0(self.n(self.val(s, lo, ln))))

    def pre_zero(self, s, lo=ZERO, ln=None):
        v = self.n(self.val(s, lo, ln))
        if not self.st.eq0(v):
            raise PreFail('digits are not zero', self.st.ne0(v))

    def multiple(self, e, f, kind):
        """e is a non-negative multiple of f"""
        q = P(fresh('q', kind))
        self.know_eq(P(e) - q * f)

    def rest(self, kind, e):
        """the (hidden) value e >= 0"""
        r = P(fresh('r', kind))
        self.know_eq(r - P(e))
        return r

    def ret_pick(self, mk, opts):
        i = self.choose(len(opts))
        self.retval = mk(self.n(opts[i]))
        return i

    def canon_if(self, v, n, v2, n2):
        """if v has exactly n digits then v2 has exactly n2 (n2 >= 1)"""
        if is_canon(self.st, v, n):
            self.know(P(v2) - bp(n2 - 1))
        else:
            g = bool_atom('ge', self.n(P(v) - bp(n - 1)))
            self.st.gated.append((g.id, 1, 'fact', self.n(P(v2) - bp(n2 - 1))))

    def pre_zero_above(self, s, lo, hi):
        if self.cond(P(hi) - lo - 1):
            v = self.val(s, lo, P(hi) - lo)
            if not self.st.eq0(v):
                raise PreFail('digits above are not zero', self.st.ne0(v))

    def zeros_after(self, obj, pos, ln):
        """the length of the region from pos that ends where the first nonzero piece behind pos+ln starts"""
        st = self.st
        rope = st.heap[obj]
        try:
            j = st.split_at(obj, self.n(P(pos) + ln))
        except (NeedSplit, NeedSplitBool):
            st.heap[obj] = rope
            return ln
        for pc in st.heap[obj].pieces[j:]:
            if not st.eq0(st.pval([pc])):
                break
            ln = self.n(ln + pc[2])
        st.heap[obj] = rope
        return ln

    def ret_count(self, mk, s, value, ln, given=None, keep=False, lo=ZERO):
        value, ln = self.n(value), self.n(ln)
        canonical = given is None or is_canon(self.st, self.n(given), ln)
        pos = self.n(s.parts[0] + lo)
        full = ln
        if TOPS and not keep and ln.t:
            full = self.zeros_after(s.meta[0], pos, ln)
        if not keep and ln.t:
            self.I.log(self.st, s.meta[0], pos, full)
        if not value.t:
            m = ZERO if canonical else P(fresh('m', 'nat'))
            if not canonical:
                self.st.add(ln - m)
            if ln.t:
                self.st.put(s.meta[0], pos, full, [piece(state.ZEROV, 0, full)])
            self.retval = mk(m)
            return m
        m = P(fresh('m', 'nat'))
        self.st.add(ln - m)
        self.st.add(value)
        self.st.add(bp(m) - 1 - value)
        m = self.n(m)
        if canonical:
            self.st.canon.append((value, m))
            self.st._ent = {}
        else:
            # canonical input gives a canonical count
            g = bool_atom('ge', self.n(P(given) - bp(ln - 1)))
            self.st.gated.append((g.id, 1, 'canon', (value, m)))
        if keep and self.st.eq0(ln - m):
            pass
        elif TOPS and not self.st.eq0(ln - m):
            v = new_ver('base', full, value, top=m)
            self.st.put(s.meta[0], pos, full, [piece(v, 0, full)])
        else:
            v = new_ver('base', m, value)
            self.st.put(s.meta[0], pos, ln, [piece(v, 0, m), piece(state.ZEROV, 0, self.n(ln - m))])
        self.retval = mk(m)
        return m

    # UBig results
    def set_num(self, x, value, canonical=True):
        """the number behind x becomes value, with a canonical digit count"""
        o = self.obj(x)
        n = self.digits(value, canonical)
        self.st.heap[o] = Rope([])
        self.I.log(self.st, o, ZERO, n[1])
        self.st.heap[o] = n[0]
        return n[1]

    def digits(self, value, canonical=True):
        value = self.n(value)
        if not value.t and canonical:
            return Rope([]), ZERO
        n = P(fresh('n', 'nat'))
        self.st.add(value)
        self.st.add(bp(n) - 1 - value)
        if canonical:
            self.st.canon.append((value, n))
        v = new_ver('base', n, value)
        return Rope([piece(v, 0, n)]), n

    def ret_num(self, value, wrap=None, canonical=True):
        r, n = self.digits(value, canonical)
        o = self.I.new_obj(self.st, [])
        self.st.heap[o] = r
        v = ubig(o)
        self.retval = wrap(v) if wrap else v
        return n


def ubig_obj(I, st, x):
    while isinstance(x, V) and x.tag in ('ptr', 'box'):
        x = I.load(st, ('env', x.meta[0], x.meta[1])) if x.tag == 'ptr' else x.parts[0]
    if isinstance(x, V) and x.tag == 'agg' and x.meta[:2] == ('adt', UBIG):
        x = x.parts[0]
        if x.tag == 'vec':
            return x.meta[0]
    raise Undecided('not a number: %r' % (x,))


def is_canon(st, Vv, n):
    Vv, n = st.n(Vv), st.n(n)
    if not n.t:
        return True
    for (v2, n2) in st.canon:
        if st.n(v2) == Vv and st.n(n2) == n:
            return True
    if st.eq0(n):
        return True
    if not st.entails(n - 1):
        # n = 0 is fine, so assume n >= 1
        s = st.clone()
        try:
            s.add(n - 1)
        except Infeasible:
            return True
        return s.contradictory() or s.entails(Vv - bp(n - 1))
    if st.entails(Vv - bp(n - 1)):
        return True
    # v * b^k * 2^j has k digits more than v, or more
    ms = list(Vv.t)
    for m in ms:
        for bname, l in m[1]:
            e = poly.lin2poly(l)
            if e.t and not e.is_const() and (bname == '2' or bname == 'b'):
                f = power('2', e) if bname == '2' else bp(e)
                g = power('2', -e) if bname == '2' else bp(-e)
                w = st.n(Vv * g)
                if st.entails(e) and all(all(x >= 0 for x in y.t.values()) for (_, ex) in w.t for _, l2 in ex for y in [poly.lin2poly(l2)]):
                    if is_canon(st, w, n if bname == '2' else st.n(n - e)):
                        return True
    return False


# ---------------------------------------------------------------------- proving
class Setup(Base):
    setup = True

    def both_canon(self, v, n, w, m):
        return False

    """first pass: collect the preconditions"""
    proving = True

    def __init__(self, spec, I, st, args, pre):
        Base.__init__(self, spec, I, st, args)
        self.P = pre

    def objlen(self, o):
        return self.P.len0[o]

    def obj(self, x):
        return ubig_obj(self.I, self.st, x)

    def num(self, x):
        o = self.obj(x)
        n = self.P.len0[o]
        return self.P.value(self.st, o, ZERO, n), n

    def val(self, s, lo=ZERO, ln=None):
        lo = P(lo)
        if ln is None:
            ln = s.parts[1] - lo
        return self.P.value(self.st, s.meta[0], s.parts[0] + lo, ln)

    def get(self, x):
        if isinstance(x, Poly):
            return self.n(x)
        return self.P.cells[x.meta[0]]

    def pin(self, x, lo, hi):
        """one analysis for each value of x"""
        if self.cases >= len(self.script):
            raise Choice(hi - lo + 1)
        k = self.script[self.cases]
        self.cases += 1
        self.st.add_eq(self.n(x - lo - k))

    def pre(self, p, what=''):
        self.st.add(p)

    def pre_even(self, p, k, what=''):
        self.st.add(p)

    def pre_canon(self, V, n):
        self.st.canon.append((self.n(V), self.n(n)))

    def stop(self, *a, **k):
        raise Stop()

    def cond(self, p):
        c = self.st.cond_ge(P(p))
        if c.is_const():
            return c.cval() != 0
        raise Stop()
    is0 = cond
    script = ()
    cases = 0

    def pre_case(self, p):
        """the precondition distinguishes p >= 0 and p < 0"""
        p = self.n(p)
        if self.st.entails(p):
            return True
        if self.st.entails(-p - 1):
            return False
        if self.cases >= len(self.script):
            raise Choice(2)
        k = self.script[self.cases]
        self.cases += 1
        if k == 0:
            self.st.add(p)
            return True
        self.st.add(-p - 1)
        return False
    def under(self, ps, f):
        for p in ps:
            if not self.pre_case(p):
                return
        f()

    def known0(self, s, lo, ln):
        ln = self.n(ln)
        if not ln.t or self.st.eq0(ln):
            return True
        if not self.pre_case(self.n(s.parts[1] - lo - ln)):
            return False
        if self.cases >= len(self.script):
            raise Choice(2)
        k = self.script[self.cases]
        self.cases += 1
        if k == 0:
            self.pre_zero(s, lo, ln)
            return True
        self.st.add(self.val(s, lo, ln) - 1)
        return False

    newval = newget = peek = multiple = rest = ret_pick = canon_if = ret_count = stop
    peek_ret = count = after = resnum = peek_num = define = stop

    def pre_zero(self, s, lo=ZERO, ln=None):
        ln = s.parts[1] - lo if ln is None else P(ln)
        self.st.add_eq(self.val(s, lo, ln))
        self.st.put(s.meta[0], self.n(s.parts[0] + lo), self.n(ln), [piece(state.ZEROV, 0, self.n(ln))])

    def pre_zero_above(self, s, lo, hi):
        lo, hi = self.n(lo), self.n(hi)
        v = self.val(s, lo, hi - lo)
        self.st.gated.append((bool_atom('ge', self.n(hi - lo)).id, 1, 'eq', v))

    panics_if = choose = result = ret = ret_cond = know = know_eq = write = havoc = set = set_num = ret_num = copy = stop


class Initial:
    """initial contents of the arguments"""
    def __init__(self):
        self.ver, self.len0, self.cells, self.mut = {}, {}, {}, set()

    def value(self, st, obj, lo, ln):
        v = self.ver[obj]
        lo, ln = st.n(lo), st.n(ln)
        return st.n(st.n(F(v, st.n(lo + ln)) - F(v, lo)) * bp(-lo))


class Prove(Setup):
    """second pass: check one outcome against the contract"""
    def __init__(self, spec, I, st, args, pre, out):
        Setup.__init__(self, spec, I, st, args, pre)
        self.out = out
        self.written = {}
        self.done = []
        self.retdone = False
        self.setcells = set()

    pin = Base.pin
    cond = Base.cond
    is0 = Base.is0
    pre_case = Base.pre_case
    known0 = Assume.known0

    def under(self, ps, f):
        pass

    def pre(self, p, what=''):
        pass

    def pre_even(self, p, k, what=''):
        pass

    def pre_canon(self, V, n):
        pass

    def choose(self, n):
        raise Undecided('choice in a proved contract')

    def oblige(self, rule, ok, msg='', definite=None):
        if not ok:
            raise Fail(rule, msg() if callable(msg) else msg)
        self.done.append(rule)

    def eq(self, rule, a, b):
        d = self.n(P(a) - P(b))
        if d.t and not self.st.eq0(d) and not (self.st.entails_hard(d) and self.st.entails_hard(-d)):
            if self.st.zero_mod(d):
                self.st.add_eq(d)
                self.done.append(rule)
                return
            # a symbolic boolean in the difference: split on it
            for (at, ex), _ in sorted(d.t.items()):
                for x, _p in at:
                    if ATOMS[x].kind == 'bool':
                        raise NeedSplitBool(x)
            raise Fail(rule, 'difference %r' % d)
        self.done.append(rule)

    def ge(self, rule, p):
        p = self.n(p)
        if not self.st.entails_hard(p) and not self.st.entails_round(p) and not (state.Cfg.bval and self.st.ge_in_cases(p)):
            raise Fail(rule, '%r >= 0' % p)
        self.done.append(rule)

    def panics_if(self, p, why='documented panic'):
        if self.cond(p):
            if why == 'division by zero':
                self.tag = ' [zero divisor]'
            if self.out.kind == 'panic':
                self.done.append('panic allowed: ' + why)
                raise Stop()
            raise Fail('must panic', why)

    def check_returns(self):
        if self.out.kind == 'panic':
            raise Fail('unexpected panic', self.out.why)

    def result(self, mk, kinds):
        self.check_returns()
        us = [P(fresh('u', 'int')) for _ in kinds]
        shape = mk(*us)
        act = self.out.val
        got = {}
        self.match(shape, act, {u.as_atom(): i for i, u in enumerate(us)}, got)
        rs = [self.n(got[i]) for i in range(len(us))]
        for k, r in zip(kinds, rs):
            if k == 'bool' or k == 'digit' or k == 'nat':
                self.ge('range of result', r)
                if k == 'bool':
                    self.ge('range of result', PONE - r)
                if k == 'digit':
                    self.ge('range of result', B() - 1 - r)
            elif isinstance(k, tuple):
                self.ge('range of result', r - k[0])
                self.ge('range of result', P(k[1]) - r)
        self.retdone = True
        return rs[0] if len(rs) == 1 else rs

    def match(self, shape, act, us, got):
        if isinstance(shape, Poly):
            if not isinstance(act, Poly):
                raise Fail('result', 'returned %r' % (act,))
            a = shape.as_atom()
            if a in us:
                got[us[a]] = act
            else:
                self.eq('result', act, shape)
            return
        if not isinstance(act, V):
            raise Fail('result', 'returned %r' % (act,))
        if shape.tag == 'agg' and shape.meta[:2] == ('adt', ERROR) or act.tag != 'agg':
            if shape.tag == 'agg' and act.tag == 'agg' and shape.meta == act.meta:
                return
            if act.tag == 'opaque' or shape.tag == 'opaque':
                raise Undecided('opaque result')
        if shape.tag != act.tag or shape.meta != act.meta or len(shape.parts) != len(act.parts):
            raise Fail('result', 'returned %s instead of %s' % (short(act), short(shape)))
        for x, y in zip(shape.parts, act.parts):
            self.match(x, y, us, got)

    def ret(self, v):
        self.check_returns()
        self.match(v, self.out.val, {}, {})
        self.done.append('result')
        self.retdone = True

    def ret_cond(self, p):
        self.check_returns()
        r = self.n(self.out.val)
        b = self.I.truth(self.st, r)
        if b:
            self.ge('result true only if', P(p))
        else:
            self.ge('result false only if', -P(p) - 1)
        self.retdone = True
        return const(int(b))

    def newval(self, s, lo=ZERO, ln=None):
        if ln is None:
            ln = s.parts[1] - P(lo)
        return self.st.val(s.meta[0], self.n(s.parts[0] + lo), self.n(ln))

    def newget(self, x, kind):
        return self.n(self.st.env[x.meta[0]])

    def peek(self, mk, kinds):
        r = self.result(mk, kinds)
        self.retdone = False
        return r if isinstance(r, list) else [r]

    def multiple(self, e, f, kind):
        e, f = self.n(e), self.n(f)
        q = exact_div(e, f)
        if q is None:
            raise Fail('multiple', '%r of %r' % (e, f))
        self.ge('multiple', q)

    def rest(self, kind, e):
        self.ge('remainder', P(e))
        return self.n(e)

    def ret_pick(self, mk, opts):
        r = self.peek(mk, ['nat'])[0]
        self.retdone = True
        for i, o in enumerate(opts):
            if self.is0(r - o):
                return i
        raise Fail('result', 'returned %r' % r)

    def canon_if(self, v, n, v2, n2):
        s = self.st.clone()
        try:
            s.canon.append((s.n(v), s.n(n)))
            s._ent = {}
            s.fire()
            if not s.entails(P(v2) - bp(n2 - 1)) and not s.contradictory():
                raise Fail('canonical form', 'digit count %r of %r' % (self.n(n2), self.n(v2)))
        except Infeasible:
            return
        self.done.append('canonical form')

    def pre_zero_above(self, s, lo, hi):
        pass

    def pre_zero(self, s, lo=ZERO, ln=None):
        pass

    def peek_ret(self, mk, kinds):
        r = self.result(mk, kinds)
        self.retdone = True
        return r if isinstance(r, list) else [r]

    def count(self, s, m, value, ln, rest='zero', lo=ZERO):
        if rest == 'zero':
            self.write(s, value, lo, ln)
        else:
            self.write(s, value, lo, m)
            self.havoc(s, P(lo) + m, P(ln) - m)
        self.ge('digit count', P(ln) - m)
        self.ge('digit count', bp(m) - 1 - P(value))
        if not is_canon(self.st, value, m):
            raise Fail('canonical form', 'digit count %r of %r' % (m, self.n(value)))
        self.done.append('canonical form')

    def define(self, v):
        self.check_returns()
        self.retdone = True

    def peek_num(self, s, lo, ln):
        return self.st.val(s.meta[0], self.n(s.parts[0] + lo), self.n(ln))

    def after(self, x):
        o = ubig_obj(self.I, self.st, x)
        return self.st.val(o, ZERO, self.n(self.st.heap[o].length()))

    def resnum(self, wrap=None):
        self.check_returns()
        probe = V('probe')
        x = find(wrap(probe) if wrap else probe, self.out.val, probe)
        if x is None:
            raise Fail('result', 'returned %s' % short(self.out.val))
        o = ubig_obj(self.I, self.st, x)
        return self.st.val(o, ZERO, self.n(self.st.heap[o].length()))

    def ret_count(self, mk, s, value, ln, given=None, keep=False, lo=ZERO):
        m = self.peek(mk, ['nat'])[0]
        self.retdone = True
        if not keep:
            self.write(s, value, lo, ln)
        self.ge('digit count', P(ln) - m)
        self.ge('digit count', bp(m) - 1 - P(value))
        if given is None:
            if not is_canon(self.st, value, m):
                raise Fail('canonical form', 'digit count %r of %r' % (m, self.n(value)))
        else:
            # canonical input gives a canonical count
            s2 = self.st.clone()
            try:
                s2.canon.append((self.n(given), self.n(ln)))
                s2._ent = {}
                s2.fire()
                if not s2.contradictory() and not is_canon(s2, value, m):
                    raise Fail('canonical form', 'digit count %r of %r' % (m, self.n(value)))
            except Infeasible:
                pass
        self.done.append('canonical form')
        return m

    def new(self, k):
        raise Undecided('new in prove')

    def know(self, p):
        self.ge('bound', p)

    def know_eq(self, p):
        self.eq('relation', p, ZERO)

    def write(self, s, expr, lo=ZERO, ln=None):
        lo = P(lo)
        if ln is None:
            ln = s.parts[1] - lo
        pos, ln = self.n(s.parts[0] + lo), self.n(ln)
        self.written.setdefault(s.meta[0], []).append((pos, ln))
        if not ln.t:
            return
        self.eq('value written', self.st.val(s.meta[0], pos, ln), expr)

    def havoc(self, s, lo=ZERO, ln=None):
        lo = P(lo)
        if ln is None:
            ln = s.parts[1] - lo
        self.written.setdefault(s.meta[0], []).append((self.n(s.parts[0] + lo), self.n(ln)))

    def copy(self, s, lo, src, slo, ln):
        pos, ln = self.n(s.parts[0] + lo), self.n(ln)
        self.written.setdefault(s.meta[0], []).append((pos, ln))
        v = self.P.ver[src.meta[0]]
        same_pieces(self, self.st.get(s.meta[0], pos, ln), v, self.n(src.parts[0] + slo), 'digits copied')

    def set(self, x, expr, kind=None):
        self.setcells.add(x.meta[0])
        act = self.st.env[x.meta[0]]
        self.eq('value stored', act, expr)
        if kind == 'digit':
            self.ge('digit range', act)
            self.ge('digit range', B() - 1 - act)

    def set_num(self, x, value, canonical=True):
        o = ubig_obj(self.I, self.st, x)
        self.written.setdefault(self.obj0(x), []).append((ZERO, None))
        return self.num_is(o, value, canonical)

    def obj0(self, x):
        return self.P.cells[x.meta[0]].parts[0].meta[0]

    def num(self, x):
        if isinstance(x, V) and x.tag == 'ptr':
            o = self.obj0(x)
        else:
            o = ubig_obj(self.I, self.st, x)
        n = self.P.len0[o]
        return self.P.value(self.st, o, ZERO, n), self.n(n)

    def num_is(self, o, value, canonical):
        n = self.n(self.st.heap[o].length())
        self.eq('value of the number', self.st.val(o, ZERO, n), value)
        if canonical and not is_canon(self.st, self.st.val(o, ZERO, n), n):
            raise Fail('canonical form', 'digit count %r of %r' % (n, self.n(value)))
        self.done.append('canonical form')
        return n

    def ret_num(self, value, wrap=None, canonical=True):
        self.check_returns()
        act = self.out.val
        probe = V('probe')
        shape = wrap(probe) if wrap else probe
        x = find(shape, act, probe)
        if x is None:
            raise Fail('result', 'returned %s' % short(act))
        o = ubig_obj(self.I, self.st, x)
        self.retdone = True
        return self.num_is(o, value, canonical)

    def finish(self):
        self.check_returns()
        if not self.retdone and self.out.val != UNIT:
            raise Undecided('result not specified')
        # frame
        for o, v in self.P.ver.items():
            if o not in self.P.mut:
                continue
            w = self.written.get(o, [])
            if any(x[1] is None for x in w):
                continue
            n = self.n(self.P.len0[o])
            pos = ZERO
            for lo, ln in w:
                gap = self.n(lo - pos)
                if gap.t and not self.st.eq0(gap):
                    same_pieces(self, self.st.get(o, pos, gap), v, pos, 'frame')
                pos = self.n(lo + ln)
            gap = self.n(n - pos)
            if gap.t and not self.st.eq0(gap):
                same_pieces(self, self.st.get(o, pos, gap), v, pos, 'frame')
        for k, v0 in self.P.cells.items():
            if k in self.setcells or not isinstance(v0, Poly):
                continue
            if k in self.P.mut:
                self.eq('frame', self.st.env[k], v0)


def exact_div(e, f):
    """e / f as a polynomial, or None"""
    if not e.t:
        return ZERO
    if f.is_const():
        if f.cval() and all(Fraction(c) % f.cval() == 0 for c in e.t.values()):
            return e * (Fraction(1) / f.cval())
        return None
    key = lambda m: (sum(p for _, p in m[0]), m)
    lead = max(f.t, key=key)
    q = ZERO
    for _ in range(40):
        if not e.t:
            return q
        for m in sorted(e.t, key=key, reverse=True):
            r = mono_div(m, lead)
            if r is not None:
                break
        else:
            return None
        k = Fraction(e.t[m]) / f.t[lead]
        if k.denominator == 1:
            k = int(k)
        g = Poly({r: k})
        q = q + g
        e = e - g * f
    return None


def mono_div(g, m):
    d = dict(g[0])
    for a, p in m[0]:
        x = d.get(a, 0) - p
        if x < 0:
            return None
        if x:
            d[a] = x
        else:
            d.pop(a, None)
    inv = tuple((b, tuple((k, -v) for k, v in l)) for b, l in m[1])
    return poly.mono_mul((tuple(sorted(d.items())), g[1]), ((), inv))


def find(shape, act, probe):
    if shape is probe:
        return act
    if not isinstance(act, V) or shape.tag != act.tag or shape.meta != act.meta or len(shape.parts) != len(act.parts):
        return None
    for x, y in zip(shape.parts, act.parts):
        r = find(x, y, probe) if isinstance(x, V) else None
        if r is not None:
            return r
    return None


def same_pieces(c, pieces, v, off, rule):
    pos = off
    for (pv, po, ln, par) in pieces:
        if pv is v and c.n(po - pos).t == {}:
            pos = c.n(pos + ln)
            continue
        if pv is v and c.st.eq0(po - pos):
            pos = c.n(pos + ln)
            continue
        # single digits written back
        want = c.n(c.n(F(v, c.n(pos + ln)) - F(v, pos)) * bp(-pos))
        got = c.st.pval([(pv, po, ln, par)])
        if c.n(ln) == PONE or not c.n(want - got).t or c.st.eq0(want) and c.st.eq0(got):
            c.eq(rule, got, want)
            pos = c.n(pos + ln)
            continue
        raise Fail(rule, 'digits at %r changed' % pos)
    c.done.append(rule)


def short(v):
    s = repr(v)
    return s if len(s) < 90 else s[:87] + '...'


# ---------------------------------------------------------------------- building arguments
def build_args(prog, f, I, st, kinds=None):
    from .models import Mode
    init = Initial()
    args = []
    body = f['body']
    names = {}
    for i in range(1, body['argc'] + 1):
        nm = 'a%d' % i
        for x, pl in body.get('names') or []:
            if pl == [i]:
                nm = x
        t = prog.types[body['locals'][i]]
        args.append(build(prog, I, st, init, t, nm, False))
    return args, init


CELL = [0]


def storage_size(st):
    from .models import Mode
    if Mode.S is None:
        Mode.S = fresh('S', 'pos')
        st.add(B() * B() - P(Mode.S))
        st.add(P(Mode.S) - B() - 1)
    return Mode.S


def build(prog, I, st, init, t, nm, mut):
    from .models import Mode
    k = t['k']
    if k == 'ref':
        u = prog.types[t['t']]
        if u['k'] == 'slice':
            return new_slice(prog, st, init, prog.types[u['t']], nm, t.get('mut'))
        if u['k'] == 'str':
            raise Undecided('string argument')
        CELL[0] += 1
        key = ('cell', CELL[0])
        v = build(prog, I, st, init, u, nm, t.get('mut'))
        st.env[key] = v
        init.cells[key] = v
        if t.get('mut'):
            init.mut.add(key)
            if isinstance(v, V) and v.tag == 'agg' and v.meta[:2] == ('adt', UBIG):
                init.mut.add(v.parts[0].meta[0])
        return ptr(key)
    if k == 'bool':
        return P(fresh(nm, 'bool'))
    if k == 'uint':
        w = {'usize': 64, 'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128}[t['s']]
        if t['s'] == 'usize':
            return P(fresh(nm, 'nat'))
        return P(fresh(nm, 'range', {'lo': ZERO, 'hi': const((1 << w) - 1)}))
    if k == 'param':
        if Mode.kind == 'dec':
            # a native integer below the size S of the storage type, where b < S <= b^2
            S = P(storage_size(st))
            v = P(fresh(nm, 'nat'))
            st.add(S - 1 - v)
            return v
        return P(fresh(nm, 'digit'))
    if k == 'adt' and t['path'] in ('digit::BinaryDigit', 'digit::DecimalDigit'):
        return P(fresh(nm, 'digit'))
    if k == 'adt' and t['path'] == UBIG:
        n = P(fresh('n_' + nm, 'nat'))
        v = new_ver('base', n, None, name=nm)
        o = I.new_obj(st, [piece(v, 0, n)], nm)
        init.ver[o], init.len0[o] = v, n
        st.canon.append((F(v, n), n))
        return ubig(o)
    if k == 'adt' and t['s'] == 'std::vec::Vec<T>':
        n = P(fresh('n_' + nm, 'nat'))
        v = new_ver('base', n, None, name=nm)
        o = I.new_obj(st, [piece(v, 0, n)], nm)
        init.ver[o], init.len0[o] = v, n
        return vec(o)
    if k == 'tuple':
        return V('agg', ('tuple',), [build(prog, I, st, init, prog.types[x], nm, mut) for x in t['ts']])
    raise Undecided('argument of type %s' % t['s'])


def new_slice(prog, st, init, et, nm, mut):
    if et['k'] not in ('param', 'adt'):
        raise Undecided('slice of %s' % et['s'])
    n = P(fresh('n_' + nm, 'nat'))
    v = new_ver('base', n, None, name=nm)
    o = 'a:' + nm
    st.heap[o] = Rope([piece(v, 0, n)])
    init.ver[o], init.len0[o] = v, n
    if mut:
        init.mut.add(o)
    return slc(o, 0, n)


# ---------------------------------------------------------------------- verification of one function
class Verdict:
    def __init__(self, path):
        self.path = path
        self.status = None          # 'proved', 'violated', 'undecided'
        self.fails = []             # (rule, msg, where)
        self.discharged = 0
        self.outcomes = 0
        self.loops = []
        self.used = set()
        self.pre_fail = []
        self.cut = False
        self.hinted = False

    def __repr__(self):
        return '%s: %s %d obligations, %d outcomes %s' % (self.path, self.status, self.discharged, self.outcomes, self.fails[:2])


def pin_arg(s, a, k):
    """the argument is k, or a slice of k digits"""
    s.add_eq(s.n((a if isinstance(a, Poly) else a.parts[1]) - k))


def attempt(prog, models, contracts, sp, f, peel=None, vd=None, pins=None, beam=None):
    vd = vd or Verdict(sp.path)
    state.reset()
    CELL[0] = 0
    from . import modes, interp, loops
    interp.Frame._n[0] = 0
    Interp._obj[0] = 0
    loops._uid[0] = 0
    modes.enter(sp, prog)
    I = Interp(prog, models, contracts)
    I.peel = peel
    I.beam = beam and (beam[0], random.Random(beam[1]))
    vd.used = I.used
    st = State()
    try:
        if sp.setup:
            args, init = sp.setup(prog, f, I, st)
        else:
            args, init = build_args(prog, f, I, st)
        I.root = (sp, args, init)
        outs = []
        todo = [()]
        while todo:
            script = todo.pop()
            s = st.clone()
            c = Setup(sp, I, s, args, init)
            c.script = script
            try:
                for a, k in zip(args, pins or ()):
                    if k is not None:
                        pin_arg(s, a, k)
                sp.f(c, *args)
            except Stop:
                pass
            except Infeasible:
                continue
            except Choice as e:
                todo += [script + (i,) for i in range(e.n)]
                continue
            if s.contradictory():
                continue
            outs += I.run_fn(f, args, s)
    except (Undecided, NonLinear) as e:
        vd.status = 'undecided'
        vd.fails.append(('analysis', '%s: %s' % (type(e).__name__, e), '>'.join(I.where[-3:])))
        vd.pre_fail = I.pre_fail
        return vd
    vd.loops = list(I.loops_done)
    vd.used = I.used
    vd.pre_fail = I.pre_fail
    vd.cut = I.cut
    vd.hinted = I.refute is not None
    bad = bool(I.hint_fails)
    vd.fails += I.hint_fails
    for o in outs:
        todo = [o.st]
        n = 0
        while todo:
            s0 = todo.pop()
            n += 1
            s = s0.clone()
            c = Prove(sp, I, s, args, init, o)
            try:
                if n > 60:
                    raise Undecided('too many cases')
                sp.f(c, *args)
                c.finish()
            except Stop:
                pass
            except NeedSplit as e:
                todo.extend(I.split(s0, p=e.poly))
                continue
            except NeedSplitBool as e:
                todo.extend(I.split(s0, g=e.g))
                continue
            except Infeasible:
                continue
            except Fail as e:
                try:
                    s2 = s0.clone()
                    if s2.force_flags():
                        todo.append(s2)
                        continue
                except Infeasible:
                    continue
                if s0.contradictory(True) or s.contradictory(True) or I.refute and I.refute(s0):
                    continue
                bad = True
                vd.fails.append((e.rule + c.tag, e.msg, o.where or ''))
                vd.fail_state = getattr(vd, 'fail_state', None) or s0
                vd.fail_states = getattr(vd, 'fail_states', []) + [s0]
                continue
            except (Undecided, NonLinear) as e:
                bad = True
                vd.fails.append(('analysis', str(e), o.where or ''))
                continue
            vd.outcomes += 1
            vd.discharged += len(c.done)
    vd.status = 'undecided' if bad else 'proved'
    return vd
