"""Abstract interpreter over MIR: trace-partitioned, relational (state.py); loops are summarised by loops.py,
calls by contracts (contracts.py), library models (models.py) or inlining."""
import heapq
from fractions import Fraction
from . import poly, state
from .poly import ATOMS, P, Poly, ZERO, PONE, const, fresh, fam, famP, power, NonLinear
from .state import State, NeedSplit, NeedSplitBool, Undecided, Infeasible, Cfg, B, bool_atom, piece, F
from .values import *

MAX_STATES = 4000


class Out:
    """an outcome of executing a body: kind 'ret' (val) or 'panic' (why)"""
    __slots__ = ('kind', 'val', 'st', 'why', 'where')

    def __init__(self, kind, st, val=None, why=None, where=None):
        self.kind, self.st, self.val, self.why, self.where = kind, st, val, why, where


class Panic:
    def __init__(self, why):
        self.why = why


class Frame:
    _n = [0]

    def __init__(self, fn, promoted=None):
        Frame._n[0] += 1
        self.id = Frame._n[0]
        self.fn = fn
        self.body = fn['body'] if promoted is None else fn['promoted'][promoted]
        self.blocks = self.body['blocks']
        self.info = cfg_info(self.body)


_CFG = {}


class CfgInfo:
    pass


def succs(blk):
    t = blk['term']
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return [b for _, b in t[2]] + [t[3]]
    if k == 'call':
        return [t[4]] if t[4] is not None else []
    if k == 'assert':
        return [t[5]]
    if k == 'drop':
        return [t[2]]
    return []


def place_uses(pl, acc):
    for e in pl[1:]:
        if e[0] == 'index':
            acc.add(e[1])


def op_uses(o, acc):
    if o[0] in ('copy', 'move'):
        acc.add(o[1][0])
        place_uses(o[1], acc)


def rv_uses(r, acc):
    k = r[0]
    if k == 'use':
        op_uses(r[1], acc)
    elif k in ('ref', 'rawptr'):
        acc.add(r[2][0])
        place_uses(r[2], acc)
    elif k in ('cast', ):
        op_uses(r[2], acc)
    elif k == 'bin':
        op_uses(r[2], acc)
        op_uses(r[3], acc)
    elif k == 'un':
        op_uses(r[2], acc)
    elif k == 'repeat':
        op_uses(r[1], acc)
    elif k == 'discr':
        acc.add(r[1][0])
        place_uses(r[1], acc)
    elif k == 'agg':
        for o in r[2]:
            op_uses(o, acc)


def cfg_info(body):
    key = id(body)
    r = _CFG.get(key)
    if r is not None:
        return r[1]
    bl = body['blocks']
    n = len(bl)
    seen, order = set(), []
    stack = [(0, iter(succs(bl[0])))]
    seen.add(0)
    back = []
    onstk = {0}
    while stack:
        u, it = stack[-1]
        adv = False
        for v in it:
            if v in onstk:
                back.append((u, v))
            elif v not in seen:
                seen.add(v)
                onstk.add(v)
                stack.append((v, iter(succs(bl[v]))))
                adv = True
                break
        if not adv:
            order.append(u)
            onstk.discard(u)
            stack.pop()
    order.reverse()
    info = CfgInfo()
    info.rpo = {b: i for i, b in enumerate(order)}
    preds = {}
    for u in order:
        for v in succs(bl[u]):
            preds.setdefault(v, []).append(u)
    loops = {}
    for u, h in back:
        L = loops.setdefault(h, {h})
        work = [u]
        while work:
            x = work.pop()
            if x in L:
                continue
            L.add(x)
            work.extend(preds.get(x, []))
    info.loops = loops
    info.preds = preds
    # liveness of locals at block entry
    live = {b: set() for b in order}
    use, dfn = {}, {}
    borrowed = set()
    for b in order:
        u, d = set(), set()
        for s in bl[b]['st']:
            if s[0] == 'assign':
                acc = set()
                rv_uses(s[2], acc)
                pl = s[1]
                if len(pl) > 1:
                    acc.add(pl[0])
                place_uses(pl, acc)
                u |= acc - d
                if len(pl) == 1:
                    d.add(pl[0])
                if s[2][0] in ('ref', 'rawptr') and not any(e[0] == 'deref' for e in s[2][2][1:]):
                    borrowed.add(s[2][2][0])
        t = bl[b]['term']
        acc = set()
        if t[0] == 'switch':
            op_uses(t[1], acc)
        elif t[0] == 'call':
            op_uses(t[1], acc)
            for a in t[2]:
                op_uses(a, acc)
            if len(t[3]) > 1:
                acc.add(t[3][0])
                place_uses(t[3], acc)
            u |= acc - d
            if len(t[3]) == 1:
                d.add(t[3][0])
        elif t[0] == 'assert':
            op_uses(t[1], acc)
        elif t[0] == 'drop':
            acc.add(t[1][0])
        elif t[0] == 'return':
            acc.add(0)
        u |= acc - d
        use[b], dfn[b] = u, d
    chg = True
    while chg:
        chg = False
        for b in reversed(order):
            o = set()
            for v in succs(bl[b]):
                o |= live.get(v, set())
            x = use[b] | (o - dfn[b])
            if x != live[b]:
                live[b] = x
                chg = True
    info.live = live
    info.borrowed = borrowed
    _CFG[key] = (body, info)
    return info


class Interp:
    def __init__(self, prog, models, contracts=None, inline_limit=12):
        self.prog = prog
        self.models = models
        self.contracts = contracts or {}
        self.nstates = 0
        self.depth = 0
        self.used = set()          # local functions whose contract or body was relied on
        self.libused = set()
        self.precond_fail = []     # (where, msg, st)
        self.skip = set()          # contracts not to use (inline instead)
        self.where = []
        self.loops_done = []
        self.pre_fail = []
        self.root = None           # the function under analysis: (contract, arguments, initial contents)
        self.hint_fails, self.hint_done = [], set()
        self.refute = None         # a stronger search for contradictions
        self.noinline = set()
        self.beam = None           # (number of open states kept, random source)
        self.peel = None           # unroll loops this many times instead of summarising them
        self.cut = False           # some iterations were cut off by .peel

    def lval_of(self, st, x):
        if isinstance(x, V):
            if x.tag == 'ptr':
                return ('env', x.meta[0], x.meta[1])
            if x.tag == 'elem':
                return ('elem', x.meta[0], x.parts[0])
            if x.tag == 'box':
                return ('val', x.parts[0])
        raise Undecided('not a reference: %r' % (x,))

    # ------------------------------------------------------------------ running a function body
    def run_fn(self, f, args, st):
        """execute local function f (def json); returns list of Out"""
        fr = Frame(f)
        body = fr.body
        st = st.clone()
        argc = body['argc']
        if body.get('spread') is not None:
            raise Undecided('spread argument')
        if len(args) != argc:
            raise Undecided('argument count of %s' % f['path'])
        for i, a in enumerate(args):
            st.env[(fr.id, i + 1)] = a
        fr.entry = st.clone()
        self.depth += 1
        self.where.append(f['path'])
        if self.depth > 30:
            raise Undecided('inlining depth')
        try:
            outs, back, exits = self.run(fr, 0, st)
        finally:
            self.depth -= 1
            self.where.pop()
        for o in outs:
            if o.kind == 'ret':
                o.val = o.st.env.get((fr.id, 0), UNIT)
            for k in [k for k in o.st.env if k[0] == fr.id]:
                del o.st.env[k]
        return outs

    def run(self, fr, start, st, region=None, header=None):
        """explore the region from start; returns outcomes, back-edge states, exit (block, state)"""
        outs, back, exits = [], [], []
        work = []
        cnt = 0
        heapq.heappush(work, (fr.info.rpo[start], cnt, start, st, True))
        while work:
            _, _, b, s, first = heapq.heappop(work)
            self.nstates += 1
            if self.nstates > MAX_STATES:
                raise Undecided('too many states')
            if b in fr.info.loops and not (first and b == header):
                from . import loops
                o2, ex2 = loops.run_loop(self, fr, b, s)
                outs.extend(o2)
                nxt = ex2
            else:
                nxt = self.block(fr, b, s, outs)
            if self.beam and len(work) + len(nxt) > self.beam[0]:
                self.sample(fr, work, nxt)
                cnt += 1000
            for v, s2 in nxt:
                if header is not None and v == header:
                    back.append(s2)
                elif region is not None and v not in region:
                    exits.append((v, s2))
                else:
                    cnt += 1
                    heapq.heappush(work, (fr.info.rpo[v], cnt, v, s2, False))
        return outs, back, exits

    def sample(self, fr, work, nxt):
        """keep a random part of the open states (the analysis is then no longer exhaustive)"""
        k, rnd = self.beam
        xs = work + [(fr.info.rpo[v], -i - 1, v, s, False) for i, (v, s) in enumerate(nxt)]
        xs = rnd.sample(xs, k)
        nxt[:] = [(x[2], x[3]) for x in xs if x[1] < 0]
        work[:] = [x for x in xs if x[1] >= 0]
        heapq.heapify(work)
        self.cut = True

    def split(self, st, p=None, g=None):
        res = []
        if g is None:
            g = bool_atom('ge', st.n(p)).id
        for v in (1, 0):
            s = st.clone()
            try:
                held = len(s.gated)
                s.set_bool(g, v)
                if len(s.gated) < held:
                    s.fire()
                if not s.contradictory():
                    res.append(s)
            except Infeasible:
                pass
        return res

    def block(self, fr, b, st, outs):
        blk = fr.blocks[b]
        todo = [st]
        res = []
        n = 0
        while todo:
            s0 = todo.pop()
            n += 1
            if n > 200:
                raise Undecided('too many splits in a block')
            s = s0.clone()
            o = []
            try:
                r = self.exec_block(fr, blk, s, o)
            except NeedSplit as e:
                todo.extend(self.split(s0, p=e.poly))
                continue
            except NeedSplitBool as e:
                todo.extend(self.split(s0, g=e.g))
                continue
            except Infeasible:
                continue
            res.extend(r)
            for x in o:
                if x.where is None:
                    x.where = '%s:%s' % (fr.fn['file'], blk['line'])
            outs.extend(o)
        return res

    # ------------------------------------------------------------------ places
    def lval(self, fr, st, pl):
        cur = ('env', (fr.id, pl[0]), ())
        for e in pl[1:]:
            k = e[0]
            if k == 'deref':
                v = self.load(st, cur)
                if isinstance(v, V):
                    if v.tag == 'ptr':
                        cur = ('env', v.meta[0], v.meta[1])
                    elif v.tag == 'elem':
                        cur = ('elem', v.meta[0], v.parts[0])
                    elif v.tag == 'box':
                        cur = ('val', v.parts[0])
                    else:
                        cur = ('val', v)
                elif isinstance(v, Poly):
                    cur = ('val', v)
                else:
                    raise Undecided('deref')
            elif k == 'field':
                if cur[0] == 'env':
                    v = self.load(st, cur)
                    if isinstance(v, Poly):
                        if e[1] != 0:
                            raise Undecided('field of a number')
                    else:
                        cur = ('env', cur[1], cur[2] + (e[1],))
                elif cur[0] == 'val':
                    v = cur[1]
                    if isinstance(v, Poly):
                        pass
                    elif isinstance(v, V) and v.tag == 'opaque':
                        cur = ('val', v)
                    else:
                        cur = ('val', v.parts[e[1]])
                elif cur[0] == 'elem':
                    pass
            elif k == 'downcast':
                pass
            elif k == 'index':
                ix = self.load(st, ('env', (fr.id, e[1]), ()))
                cur = self.index(st, cur, ix)
            elif k == 'cindex':
                v = self.load(st, cur)
                if isinstance(v, V) and v.tag == 'darr':
                    ln = st.n(st.heap[v.meta[0]].length())
                    cur = self.index(st, cur, ln - e[1] if e[3] else const(e[1]))
                elif isinstance(v, V) and v.tag == 'arr':
                    ix = len(v.parts) - e[1] if e[3] else e[1]
                    cur = self.index(st, cur, const(ix))
                elif isinstance(v, V) and v.tag == 'slice':
                    ix = v.parts[1] - e[1] if e[3] else const(e[1])
                    cur = self.index(st, cur, ix)
                else:
                    raise Undecided('cindex')
            elif k == 'subslice':
                v = self.load(st, cur)
                if isinstance(v, V) and v.tag == 'slice':
                    lo = e[1]
                    hi = v.parts[1] - e[2] if e[3] else const(e[2])
                    cur = ('val', slc(v.meta[0], v.parts[0] + lo, hi - lo))
                else:
                    raise Undecided('subslice')
            else:
                raise Undecided('projection %s' % k)
        return cur

    def index(self, st, cur, ix):
        v = self.load(st, cur)
        ix = st.n(ix)
        if isinstance(v, V) and v.tag == 'slice':
            return ('elem', v.meta[0], st.n(v.parts[0] + ix))
        if isinstance(v, V) and v.tag == 'darr':
            return ('elem', v.meta[0], ix)
        if isinstance(v, V) and v.tag == 'arr':
            if not ix.is_const():
                raise Undecided('symbolic index of an array')
            if cur[0] == 'env':
                return ('env', cur[1], cur[2] + (int(ix.cval()),))
            return ('val', v.parts[int(ix.cval())])
        raise Undecided('index into %r' % (v,))

    def load(self, st, lv):
        if lv[0] == 'env':
            v = st.env.get(lv[1])
            if v is None:
                raise Undecided('read of an uninitialised place %r' % (lv,))
            for i in lv[2]:
                if isinstance(v, Poly):
                    if i != 0:
                        raise Undecided('field of number')
                    continue
                if v.tag == 'opaque':
                    return v
                if i >= len(v.parts):
                    raise Undecided('field %d of %r' % (i, v))
                v = v.parts[i]
            if isinstance(v, Poly):
                return st.n(v)
            return v
        if lv[0] == 'elem':
            return st.digit(lv[1], lv[2])
        return lv[1]

    def store(self, st, lv, x):
        if lv[0] == 'env':
            if not lv[2]:
                st.env[lv[1]] = x
                return
            v = st.env.get(lv[1])
            if isinstance(v, Poly):
                if all(i == 0 for i in lv[2]):
                    st.env[lv[1]] = x
                    return
                raise Undecided('store into number')
            if v is None:
                raise Undecided('partial initialisation')
            # transparent newtypes on the way
            path = []
            cur = v
            for i in lv[2]:
                if isinstance(cur, Poly):
                    continue
                if cur.tag == 'opaque':
                    raise Undecided('store into opaque')
                path.append(i)
                cur = cur.parts[i]
            st.env[lv[1]] = vset(v, tuple(path), x)
            return
        if lv[0] == 'elem':
            if not isinstance(x, Poly):
                raise Undecided('non-number stored in a digit array')
            self.write_digit(st, lv[1], lv[2], x)
            return
        raise Undecided('store to a temporary')

    def write_digit(self, st, obj, pos, x):
        x = st.n(x)
        self.log(st, obj, pos, PONE)
        if not x.t:
            st.put(obj, pos, 1, [piece(state.ZEROV, 0, 1)])
        else:
            st.fresh_value(obj, pos, 1, x, bounds=True)

    def log(self, st, obj, lo, ln):
        st.notes.append(('w', obj, st.n(lo), st.n(ln)))

    # ------------------------------------------------------------------ operands, rvalues
    def const(self, fr, st, c):
        t = self.prog.types[c['ty']]
        if 'fn' in c:
            return V('fn', (FnKey(c['fn']),), ())
        if 'bits' in c:
            b = c['bits']
            if t['k'] == 'int':
                w = int_bits(t['s'])
                if b >= 1 << (w - 1):
                    b -= 1 << w
            if t['k'] == 'adt' and t.get('enum'):
                ds = t['discr']
                for i, d in enumerate(ds):
                    if d == b or (d & 0xff) == b:
                        return adt(t['path'], i)
                raise Undecided('enum constant')
            return const(b)
        if c.get('zst'):
            if t['k'] == 'tuple':
                return UNIT
            if t['k'] == 'closure':
                return V('closure', (t['path'],), ())
            if t['k'] == 'adt':
                return V('agg', ('adt', t['path'], 0), ())
            if t['k'] == 'array':
                return V('arr', (), ())
            return opaque('zst ' + t['s'])
        if 'str' in c:
            return V('str', (c['str'],), ())
        if 'promoted' in c:
            f = self.prog.defs.get(c['uneval'])
            if f is None:
                return opaque('promoted')
            return self.promoted(fr, st, f, c['promoted'])
        if 'uneval' in c:
            r = self.models.assoc_const(self, fr, st, c, t)
            if r is not None:
                return r
        if 'bytes' in c:
            if t['k'] == 'adt' and t.get('local') and not t.get('enum'):
                return const(c['bytes'])
            if t['k'] == 'array':
                et = self.prog.types[t['t']]
                n = t['len']
                if isinstance(n, int) and n and et['k'] in ('uint', 'bool'):
                    w = c['nbytes'] // n * 8
                    return V('arr', (), [const((c['bytes'] >> (w * i)) & ((1 << w) - 1)) for i in range(n)])
            if t['k'] == 'adt' and t.get('enum') and not any(v['fields'] for v in t['variants']):
                return adt(t['path'], c['bytes'])
        return opaque('constant %s' % t['s'])

    def promoted(self, fr, st, f, idx):
        fr2 = Frame(f, idx)
        outs, _, _ = self.run(fr2, 0, st.clone())
        if len(outs) != 1 or outs[0].kind != 'ret':
            return opaque('promoted')
        v = outs[0].st.env.get((fr2.id, 0))
        for k, x in outs[0].st.env.items():
            if k[0] == fr2.id:
                st.env[k] = x
        for k, x in outs[0].st.heap.items():
            if k not in st.heap:
                st.heap[k] = x
        return v

    def op(self, fr, st, o):
        if o[0] in ('copy', 'move'):
            v = self.load(st, self.lval(fr, st, o[1]))
            if o[0] == 'copy' and isinstance(v, V) and v.tag == 'darr':
                return darr(self.new_obj(st, st.heap[v.meta[0]].pieces))
            return v
        if o[0] == 'const':
            return self.const(fr, st, o[1])
        return opaque('rtcheck')

    def num(self, v):
        if not isinstance(v, Poly):
            raise Undecided('number expected, got %r' % (v,))
        return v

    def opty(self, fr, o):
        """type of an operand"""
        if o[0] == 'const':
            return self.prog.types[o[1]['ty']]
        return self.placety(fr, o[1])

    def placety(self, fr, pl):
        t = self.prog.types[fr.body['locals'][pl[0]]]
        for e in pl[1:]:
            if e[0] == 'deref':
                if 't' in t:
                    t = self.prog.types[t['t']]
                else:
                    return {'k': 'other', 's': '?'}
            elif e[0] == 'field':
                t = self.prog.types[e[2]]
            elif e[0] in ('index', 'cindex'):
                t = self.prog.types[t['t']] if 't' in t else {'k': 'other', 's': '?'}
        return t

    def rvalue(self, fr, st, r, dty):
        k = r[0]
        if k == 'use':
            return self.op(fr, st, r[1])
        if k in ('ref', 'rawptr'):
            lv = self.lval(fr, st, r[2])
            if lv[0] == 'env':
                return ptr(lv[1], lv[2])
            if lv[0] == 'elem':
                return elem(lv[1], lv[2])
            v = lv[1]
            if isinstance(v, V) and v.tag in ('slice', 'str', 'opaque', 'vec', 'arr', 'darr'):
                return v
            return V('box', (), (v,))
        if k == 'cast':
            v = self.op(fr, st, r[2])
            t = self.prog.types[r[3]]
            kind = r[1]
            if kind.startswith('IntToInt'):
                ft = self.opty(fr, r[2])
                return self.models.int_cast(self, st, self.num(v), ft, t)
            if 'Unsize' in kind:
                if isinstance(v, V) and v.tag == 'ptr':
                    a = self.load(st, ('env', v.meta[0], v.meta[1]))
                    if isinstance(a, V) and a.tag == 'arr':
                        s = self.arr_slice(st, v, a)
                        if s.tag == 'slice':
                            # from now on the array lives in the heap
                            self.store(st, ('env', v.meta[0], v.meta[1]), darr(s.meta[0]))
                        return s
                    if isinstance(a, V) and a.tag == 'darr':
                        return slc(a.meta[0], 0, st.n(st.heap[a.meta[0]].length()))
                if isinstance(v, V) and v.tag == 'darr':
                    return slc(v.meta[0], 0, st.n(st.heap[v.meta[0]].length()))
                if isinstance(v, V) and v.tag == 'box' and isinstance(v.parts[0], V) and v.parts[0].tag == 'arr':
                    return self.arr_slice(st, v, v.parts[0])
                if isinstance(v, V) and v.tag == 'arr':
                    return self.arr_slice(st, v, v)
                return v
            return v
        if k == 'bin':
            a, b = self.op(fr, st, r[2]), self.op(fr, st, r[3])
            return self.models.binop(self, st, r[1], a, b, self.opty(fr, r[2]))
        if k == 'un':
            a = self.op(fr, st, r[2])
            if r[1] == 'Not':
                t = self.opty(fr, r[2])
                if t['k'] == 'bool':
                    return st.n(PONE - self.num(a))
                w = self.models.width(t)
                return st.n(const((1 << w) - 1) - self.num(a))
            if r[1] == 'Neg':
                return st.n(-self.num(a))
            if r[1] == 'PtrMetadata':
                if isinstance(a, V) and a.tag == 'slice':
                    return st.n(a.parts[1])
                raise Undecided('metadata of %r' % (a,))
            raise Undecided('unary ' + r[1])
        if k == 'repeat':
            v = self.op(fr, st, r[1])
            if isinstance(r[2], int) and r[2] <= 64:
                return V('arr', (), [v] * r[2])
            raise Undecided('repeat')
        if k == 'discr':
            v = self.load(st, self.lval(fr, st, r[1]))
            return self.discr(fr, v)
        if k == 'agg':
            kind = r[1]
            ops = [self.op(fr, st, o) for o in r[2]]
            if kind[0] == 'tuple':
                return V('agg', ('tuple',), ops)
            if kind[0] == 'adt':
                if kind[1] in ('digit::BinaryDigit', 'digit::DecimalDigit'):
                    return ops[0]
                return V('agg', ('adt', kind[1], kind[2]), ops)
            if kind[0] == 'closure':
                return V('closure', (kind[1],), ops)
            if kind[0] == 'array':
                return V('arr', (), ops)
            return opaque('aggregate')
        raise Undecided('rvalue %s' % k)

    def arr_slice(self, st, holder, a):
        """view of a constant-size array as a slice: a read-only copy in the heap"""
        if not all(isinstance(x, Poly) for x in a.parts):
            if not a.parts:
                obj = self.new_obj(st, [])
                return slc(obj, 0, 0)
            return V('arrslice', (), a.parts)
        obj = self.new_obj(st, [])
        from .state import Rope, new_ver
        pcs = []
        for x in a.parts:
            x = st.n(x)
            pcs.append(piece(new_ver('base', 1, x), 0, 1) if x.t else piece(state.ZEROV, 0, 1))
        st.heap[obj] = Rope(pcs)
        return slc(obj, 0, len(a.parts))

    _obj = [0]

    def new_obj(self, st, pieces, name='v'):
        from .state import Rope
        Interp._obj[0] += 1
        o = '%s%d' % (name, Interp._obj[0])
        st.heap[o] = Rope(list(pieces))
        return o

    def discr(self, fr, v):
        if isinstance(v, V) and v.tag == 'agg' and v.meta[0] == 'adt':
            if v.meta[1] == ORDERING:
                return const(v.meta[2] - 1)
            return const(v.meta[2])
        if isinstance(v, Poly):
            return v
        raise Undecided('discriminant of %r' % (v,))

    # ------------------------------------------------------------------ blocks
    def exec_block(self, fr, blk, st, outs):
        for s in blk['st']:
            if s[0] == 'assign':
                v = self.rvalue(fr, st, s[2], None)
                pl = s[1]
                if len(pl) == 1:
                    st.env[(fr.id, pl[0])] = v
                else:
                    self.store(st, self.lval(fr, st, pl), v)
            elif s[0] == 'intrinsic':
                if 'Assume' in s[1] or 'NonDiverging' in s[1]:
                    continue
                raise Undecided('intrinsic')
            else:
                raise Undecided('statement ' + s[0])
        t = blk['term']
        k = t[0]
        if k == 'goto':
            return [(t[1], st)]
        if k == 'return':
            outs.append(Out('ret', st))
            return []
        if k == 'drop':
            return [(t[2], st)]
        if k == 'unreachable':
            raise Infeasible()
        if k == 'switch':
            return self.switch(fr, st, t)
        if k == 'assert':
            c = self.num(self.op(fr, st, t[1]))
            if not t[2]:
                c = st.n(PONE - c)
            return self.assertion(fr, st, c, t, outs)
        if k == 'call':
            return self.call(fr, st, t, outs)
        raise Undecided('terminator ' + k)

    def truth(self, st, c):
        """decide a boolean polynomial; splits if needed"""
        c = st.n(c)
        if c.is_const():
            return c.cval() != 0
        a = c.as_atom()
        if a is None:
            a = st.n(PONE - c).as_atom()
            if a is not None and ATOMS[a].kind == 'bool':
                raise NeedSplitBool(a)
            if st.entails(c - 1):
                return True
            if st.entails(-c):
                return False
            for (at, ex), _ in sorted(c.t.items()):
                for x, _p in at:
                    if ATOMS[x].kind == 'bool':
                        raise NeedSplitBool(x)
            raise NeedSplit(c - 1)
        if ATOMS[a].kind == 'bool':
            if st.entails(c - 1):
                st.set_bool(a, 1)
                return True
            if st.entails(-c):
                st.set_bool(a, 0)
                return False
            raise NeedSplitBool(a)
        if st.entails(c - 1):
            return True
        if st.entails(-c):
            return False
        raise NeedSplit(c - 1)

    def switch(self, fr, st, t):
        v = self.op(fr, st, t[1])
        v = self.num(v)
        ty = self.prog.types[t[4]]
        if ty['k'] == 'bool':
            b = self.truth(st, v)
            for val, blk in t[2]:
                if val == int(b):
                    return [(blk, st)]
            return [(t[3], st)]
        for val, blk in t[2]:
            if ty['k'] == 'int' and val >= 1 << 63:
                w = int_bits(ty['s'])
                val = val - (1 << w) if val < (1 << w) else val - (1 << 128)
            elif ty['k'] == 'int':
                w = int_bits(ty['s'])
                if val >= 1 << (w - 1):
                    val -= 1 << w
            c = st.cond_eq(v - val)
            if c.is_const():
                if c.cval():
                    return [(blk, st)]
                continue
            raise NeedSplitBool(st.n(c).as_atom())
        return [(t[3], st)]

    def assertion(self, fr, st, c, t, outs):
        if c.is_const():
            if c.cval():
                return [(t[5], st)]
            outs.append(Out('panic', st, why='assertion (%s)' % t[3]))
            return []
        b = self.truth(st, c)
        if b:
            return [(t[5], st)]
        outs.append(Out('panic', st, why='assertion (%s)' % t[3]))
        return []

    # ------------------------------------------------------------------ calls
    def call(self, fr, st, t, outs):
        f = t[1]
        args = [self.op(fr, st, a) for a in t[2]]
        if f[0] == 'const' and 'fn' in f[1]:
            fj = f[1]['fn']
        else:
            fv = self.op(fr, st, f)
            if isinstance(fv, V) and fv.tag == 'fn':
                fj = fv.meta[0].j
            else:
                raise Undecided('indirect call')
        rs = self.invoke(st, fj, args, outs, fr)
        dest, tgt = t[3], t[4]
        res = []
        for s, v in rs:
            if isinstance(v, Panic):
                outs.append(Out('panic', s, why=v.why))
                continue
            if tgt is None:
                outs.append(Out('panic', s, why='diverging call to ' + fj['path']))
                continue
            if len(dest) == 1:
                s.env[(fr.id, dest[0])] = v
            else:
                self.store(s, self.lval(fr, s, dest), v)
            res.append((tgt, s))
        return res

    def invoke(self, st, fj, args, outs, fr):
        """returns [(state, value or Panic)]"""
        path = fj.get('res') or fj['path']
        # contracts on the resolved function or on the trait method
        for p in (path, fj['path']):
            c = self.contracts.get(p)
            if c is not None and p not in self.skip:
                r = c.apply(self, st, args, fj)
                if r is not None:
                    self.used.add(p)
                    return r
        f = self.prog.defs.get(path)
        if f is not None and f.get('body') and f['kind'] in ('Fn', 'AssocFn', 'Closure') and not self.models.override(path, fj):
            self.used.add(path)
            os = self.run_fn(f, args, st)
            return self.absorb(os)
        r = self.models.call(self, st, fj, args, fr)
        if r is None:
            f = self.models.prelude(self.prog, path, fj)
            if f is not None:
                return self.absorb(self.run_fn(f, args, st))
        if r is None:
            raise Undecided('call to %s' % path)
        return r

    def absorb(self, os):
        res = []
        for o in os:
            if o.kind == 'ret':
                res.append((o.st, o.val))
            else:
                res.append((o.st, Panic(o.why)))
        return res

    def call_closure(self, st, clo, args):
        """clo: closure or fn value (or pointer to one); args list; returns [(state, value|Panic)]"""
        if isinstance(clo, V) and clo.tag == 'ptr':
            cv = self.load(st, ('env', clo.meta[0], clo.meta[1]))
            return self.call_closure(st, cv, args)
        if isinstance(clo, V) and clo.tag == 'box':
            return self.call_closure(st, clo.parts[0], args)
        if isinstance(clo, V) and clo.tag == 'fn':
            return self.invoke(st, clo.meta[0].j, args, [], None)
        if isinstance(clo, V) and clo.tag == 'closure':
            f = self.prog.defs.get(clo.meta[0])
            if f is None or not f.get('body'):
                raise Undecided('closure body')
            t1 = self.prog.types[f['body']['locals'][1]]
            s = st.clone()
            if t1['k'] == 'ref':
                Frame._n[0] += 1
                key = ('clo', Frame._n[0])
                s.env[key] = clo
                self_arg = ptr(key)
            else:
                self_arg = clo
            self.used.add(clo.meta[0])
            return self.absorb(self.run_fn(f, [self_arg] + list(args), s))
        raise Undecided('call of %r' % (clo,))


class FnKey:
    """hashable wrapper of a callee"""
    def __init__(self, j):
        self.j = j
        self.k = (j.get('res') or j['path'], j['path'])

    def __eq__(self, o):
        return isinstance(o, FnKey) and self.k == o.k

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return 'fn ' + self.k[0]


def int_bits(s):
    return {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128, 'isize': 64,
            'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64}.get(s, 64)
