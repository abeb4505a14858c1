"""Abstract values: structures, vectors as segment lists, guarded choices, mutable references."""
from poly import *
import poly as _p


class V:
    __slots__ = ('_k', '_s')

    def __init__(self):
        self._k = None
        self._s = None


class Struct(V):
    __slots__ = ('path', 'var', 'f')

    def __init__(self, path, var, f):
        V.__init__(self)
        self.path, self.var, self.f = path, var, tuple(f)

    def __repr__(self):
        n = self.path.split('::')[-1]
        return '%s%s(%s)' % (n if n != '()' else '', '' if self.var in (0, None) else '#%s' % self.var, ', '.join(map(vshow, self.f)))


class Vec(V):
    __slots__ = ('segs', '_flat')

    def __init__(self, segs, known=None):
        V.__init__(self)
        self.segs = tuple(segs)
        self._flat = known

    def __repr__(self):
        o = []
        for c, ix, t in self.segs:
            o.append(vshow(t) if ix is None else '%s | %s<%s' % (vshow(t), ix.key, show(c)))
        return '[' + ', '.join(o) + ']'


class Phi(V):
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        V.__init__(self)
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return '(if %s then %s else %s)' % (cshow(self.c), vshow(self.a), vshow(self.b))


class MRef(V):
    __slots__ = ('cell', 'path')

    def __init__(self, cell, path):
        V.__init__(self)
        self.cell, self.path = cell, tuple(path)

    def __repr__(self):
        return '&mut c%s%s' % (self.cell, ''.join('.%s' % (x[1],) if x[0] == 'f' else '[%s]' % (vshow(x[1]),) for x in self.path))


class Clo(V):
    __slots__ = ('did', 'env', 'targs', 'uid')

    def __init__(self, did, env, targs, uid):
        V.__init__(self)
        self.did, self.env, self.targs, self.uid = did, env, targs, uid

    def __repr__(self):
        return 'closure' + self.did


class FnV(V):
    __slots__ = ('callee', 'targs')

    def __init__(self, callee):
        V.__init__(self)
        self.callee = callee

    def __repr__(self):
        return 'fn ' + self.callee['path']


class Opq(V):
    """uninterpreted value"""
    __slots__ = ('tag', 'args')

    def __init__(self, tag, args=()):
        V.__init__(self)
        self.tag, self.args = tag, tuple(args)

    def __repr__(self):
        return '?%s(%s)' % (self.tag, ','.join(vshow(a) if not isinstance(a, str) else a for a in self.args))


class Lit(V):
    __slots__ = ('v',)

    def __init__(self, v):
        V.__init__(self)
        self.v = v

    def __repr__(self):
        return repr(self.v)


class Rng(V):
    """state of a random generator stream: number of draws made so far"""
    __slots__ = ('stream', 'pos')

    def __init__(self, stream, pos):
        V.__init__(self)
        self.stream, self.pos = stream, pos

    def __repr__(self):
        return 'rng %s@%s' % (self.stream, show(self.pos))


class It(V):
    """lazy iterator; kind + parts (values / closures)"""
    __slots__ = ('kind', 'p')

    def __init__(self, kind, *p):
        V.__init__(self)
        self.kind, self.p = kind, tuple(p)

    def __repr__(self):
        return 'iter:%s(%s)' % (self.kind, ', '.join(vshow(x) if not isinstance(x, str) else x for x in self.p))


class Split(Exception):
    def __init__(self, c):
        self.c = c


class Ctx:
    state = None


def vdec(c):
    """decide a condition under the facts of the current abstract state"""
    r = decide(c)
    if r is None and Ctx.state is not None:
        r = Ctx.state.known(c)
    return r


UNIT = Struct('()', 0, ())


def tup(*a):
    return Struct('()', 0, a)


OPTION, RESULT, CF = 'core::option::Option', 'core::result::Result', 'core::ops::control_flow::ControlFlow'


def some(v):
    return Struct(OPTION, 1, (v,))


NONE = Struct(OPTION, 0, ())


def ok(v):
    return Struct(RESULT, 0, (v,))


def err(v):
    return Struct(RESULT, 1, (v,))


def vshow(v):
    if isinstance(v, Poly):
        return show(v)
    if isinstance(v, Cond):
        return cshow(v)
    return repr(v)


# ---------------------------------------------------------------- key / support / substitution
def vkey(v, d=0):
    if isinstance(v, (Poly, Cond)):
        return v.key
    if v._k is not None and d == 0:
        return v._k
    if d:
        return _vkey(v, d)
    # bound variables are numbered above the ones free in v; what the current state knows must not enter
    st, Ctx.state = Ctx.state, None
    try:
        k = v._k = _vkey(v, level('iv', vsup(v)))
    finally:
        Ctx.state = st
    return k


def _vkey(v, d):
    t = type(v)
    if t is Struct:
        return 'S<%s#%s>(%s)' % (v.path, v.var if not isinstance(v.var, Poly) else v.var.key, ','.join(vkey(x, d) for x in v.f))
    if t is Vec:
        o = []
        for c, ix, tm in v.segs:
            if ix is None:
                o.append(vkey(tm, d))
            else:
                o.append('%s:%s' % (c.key, vkey(vsub(tm, {ix: P(ix_atom('v%d' % d))}), d + 1)))
        return 'V[' + ';'.join(o) + ']'
    if t is Phi:
        return 'Phi(%s?%s:%s)' % (v.c.key, vkey(v.a, d), vkey(v.b, d))
    if t is MRef:
        return 'M%s%s' % (v.cell, ''.join('.%s' % (x[1] if x[0] == 'f' else x[1].key if x[0] == 'i' else x[1].key + '..' + x[2].key) for x in v.path))
    if t is Opq:
        return 'O<%s>(%s)' % (v.tag, ','.join(vkey(x, d) if not isinstance(x, str) else x for x in v.args))
    if t is Lit:
        return 'L' + repr(v.v)
    if t is Rng:
        return 'R<%s@%s>' % (v.stream, v.pos.key)
    if t is It:
        return 'I<%s>(%s)' % (v.kind, ','.join(vkey(x, d) if not isinstance(x, str) else x for x in v.p))
    if t is Clo:
        return 'C%s/%s' % (v.did, v.uid)
    if t is FnV:
        return 'F' + v.callee['did']
    if hasattr(v, 'n'):
        return 'Y%d' % v.n
    raise TypeError(t)


def vsup(v):
    if isinstance(v, (Poly, Cond)):
        return v.sup
    if v._s is not None:
        return v._s
    t = type(v)
    s = set()
    if t is Struct:
        for x in v.f:
            s |= vsup(x)
        if isinstance(v.var, Poly):
            s |= v.var.sup
    elif t is Vec:
        for c, ix, tm in v.segs:
            s |= c.sup
            s |= vsup(tm)
    elif t is Phi:
        s = vsup(v.a) | vsup(v.b) | v.c.sup
    elif t is MRef:
        for x in v.path:
            for y in x[1:]:
                if isinstance(y, Poly):
                    s |= y.sup
    elif t in (Opq,):
        for x in v.args:
            if not isinstance(x, str):
                s |= vsup(x)
    elif t is It:
        for x in v.p:
            if not isinstance(x, str):
                s |= vsup(x)
    elif t is Rng:
        s = v.pos.sup
    s = frozenset(s)
    v._s = s
    return s


def vsub(v, m, memo=None):
    if memo is None:
        memo = {}
    ks = memo.get('#k')
    if ks is None:
        ks = memo['#k'] = frozenset(a.key for a in m)
    if isinstance(v, (Poly, Cond)):
        return v.subst(m, memo)
    if vsup(v).isdisjoint(ks):
        return v
    t = type(v)
    if t is Struct:
        return Struct(v.path, v.var.subst(m, memo) if isinstance(v.var, Poly) else v.var, [vsub(x, m, memo) for x in v.f])
    if t is Vec:
        segs = []
        for c, ix, tm in v.segs:
            if ix is None:
                segs.append((c, None, vsub(tm, m, memo)))
                continue
            c2 = c.subst(m, memo)
            if c2 is not c:
                nix = fresh_ix(c2)
                tm = vsub(tm, {ix: P(nix)})
                ix = nix
            segs.append((c2, ix, vsub(tm, m, memo)))
        return mkvec(segs)
    if t is Phi:
        c = v.c.subst(m, memo)
        if c is TRUE:
            return vsub(v.a, m, memo)
        if c is FALSE:
            return vsub(v.b, m, memo)
        return mkphi(c, vsub(v.a, m, memo), vsub(v.b, m, memo))
    if t is MRef:
        return MRef(v.cell, tuple((x[0],) + tuple(y.subst(m, memo) if isinstance(y, Poly) else y for y in x[1:]) for x in v.path))
    if t is Opq:
        if Cond and any(False for _ in ()):
            pass
        for a in m:
            if isinstance(a, Opq) and vkey(a) == vkey(v):
                return m[a]
        return Opq(v.tag, tuple(x if isinstance(x, str) else vsub(x, m, memo) for x in v.args))
    if t is It:
        return It(v.kind, *[x if isinstance(x, str) else vsub(x, m, memo) for x in v.p])
    if t is Rng:
        return Rng(v.stream, v.pos.subst(m, memo))
    return v


def veq(a, b):
    return a is b or vkey(a) == vkey(b)


def is_opq(v):
    """does the value contain uninterpreted parts"""
    if isinstance(v, Poly):
        return any(k.startswith(('opq', 'ph')) for k in v.sup)
    if isinstance(v, Cond):
        return any(k.startswith('opq') for k in v.sup)
    t = type(v)
    if t is Opq:
        return True
    if t is Struct:
        return any(is_opq(x) for x in v.f)
    if t is Vec:
        return any(is_opq(x) or is_opq(c) for c, _, x in v.segs)
    if t is Phi:
        return is_opq(v.a) or is_opq(v.b) or is_opq(v.c)
    if t is It:
        return any(not isinstance(x, str) and is_opq(x) for x in v.p)
    return False


# ---------------------------------------------------------------- guarded choice
def mkphi(c, a, b):
    d = vdec(c)
    if d is True:
        return a
    if d is False:
        return b
    if veq(a, b):
        return a
    r = _phisimp(c, a, b)
    if r is not None:
        return r
    return Phi(c, a, b)


def _eqs(c):
    """substitution implied by a condition"""
    m = {}
    for x in (c.args if c.op == 'and' else (c,)):
        if x.op == 'eq0':
            p = x.args[0].subst(m) if m else x.args[0]
            s = solve(p)
            if s:
                for k in list(m):
                    m[k] = m[k].subst({s[0]: s[1]})
                m[s[0]] = s[1]
    return m


def _phisimp(c, a, b):
    m = _eqs(c)
    if m:
        if veq(vsub(a, m), vsub(b, m)):
            return b
    m = _eqs(c_not(c))
    if m:
        if veq(vsub(a, m), vsub(b, m)):
            return a
    return None


def merge(c, a, b):
    """join of two branch values (a under c)"""
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if veq(a, b):
        return b
    if isinstance(a, Poly) and isinstance(b, Poly):
        r = _phisimp(c, a, b)
        if r is not None:
            return r
        return b + ind(c) * (a - b)
    if isinstance(a, Cond) and isinstance(b, Cond):
        return c_ite(c, a, b)
    if type(a) is Struct and type(b) is Struct and a.path == b.path and len(a.f) == len(b.f) and \
            (a.var == b.var if not isinstance(a.var, Poly) and not isinstance(b.var, Poly) else False):
        return Struct(a.path, a.var, [merge(c, x, y) for x, y in zip(a.f, b.f)])
    if type(a) is Rng and type(b) is Rng and a.stream == b.stream:
        return Rng(a.stream, merge(c, a.pos, b.pos))
    r = _phisimp(c, a, b)
    if r is not None:
        return r
    if type(a) is Vec and type(b) is Vec and len(a.segs) == len(b.segs) and \
            all(x[0].key == y[0].key for x, y in zip(a.segs, b.segs)):
        segs = []
        for (n, i1, t1), (_, i2, t2) in zip(a.segs, b.segs):
            if i1 is None and i2 is None:
                segs.append((n, None, merge(c, t1, t2)))
            else:
                nix = fresh_ix(n)
                segs.append((n, nix, merge(c, vsub(t1, {i1: P(nix)}), vsub(t2, {i2: P(nix)}))))
        return mkvec(segs)
    return Phi(c, a, b)


def as_poly(v):
    if isinstance(v, Poly):
        return v
    if isinstance(v, Phi):
        a, b = as_poly(v.a), as_poly(v.b)
        if a is None or b is None:
            return None
        return b + ind(v.c) * (a - b)
    if isinstance(v, Opq):
        return P(Atom('opq', (vkey(v),) + tuple(x for x in v.args if isinstance(x, Poly))))
    if isinstance(v, Cond):
        return ind(v)
    return None


# ---------------------------------------------------------------- vectors
def single(v):
    return (ONE, None, v)


def vec_of(*vs):
    return mkvec([single(v) for v in vs])


def vec_fn(count, f):
    """vector of the given length with element f(index)"""
    count = P(count)
    k = count.const()
    if k is not None and k <= CONC:
        return mkvec([(ONE, None, f(P(j))) for j in range(k)])
    ix = fresh_ix(count)
    return mkvec([(count, ix, f(P(ix)))])


def mkvec(segs):
    out = []
    for c, ix, t in segs:
        k = c.const()
        if ix is None:
            out.append((ONE, None, t))
        elif k is not None:
            if k <= 0:
                continue
            if k <= CONC:
                for j in range(k):
                    out.append((ONE, None, vsub(t, {ix: P(j)})))
            else:
                out.append((c, ix, t))
        else:
            out.append((c, ix, t))
    # merge neighbours that continue the same pattern
    i = 0
    while i + 1 < len(out):
        (c1, i1, t1), (c2, i2, t2) = out[i], out[i + 1]
        m = None
        if i1 is None and i2 is not None:
            if veq(t1, vsub(t2, {i2: P(-1)})):
                nc = c2 + 1
                nix = fresh_ix(nc)
                m = (nc, nix, vsub(t2, {i2: P(nix) - 1}))
        elif i1 is not None and i2 is None:
            if veq(t2, vsub(t1, {i1: c1})):
                nc = c1 + 1
                nix = fresh_ix(nc)
                m = (nc, nix, vsub(t1, {i1: P(nix)}))
        elif i1 is not None and i2 is not None:
            if veq(vsub(t1, {i1: P(i2) + c1}), t2):
                nc = c1 + c2
                nix = fresh_ix(nc)
                m = (nc, nix, vsub(t1, {i1: P(nix)}))
        if m is not None:
            out[i:i + 2] = [m]
            if m[0].const() is not None and m[0].const() <= CONC:
                return mkvec(out)
            i = max(i - 1, 0)
        else:
            i += 1
    return Vec(out)


def vlen(v):
    if flat(v):
        return P(len(v.segs))
    n = ZERO
    for c, _, _ in v.segs:
        n = n + c
    return n


def flat(v):
    """are all elements written out one by one"""
    f = v._flat
    if f is None:
        f = v._flat = all(ix is None for _, ix, _ in v.segs)
    return f


def vindex(v, p):
    k = p.const()
    if k is not None and 0 <= k < len(v.segs) and flat(v):
        return v.segs[k][2]
    off = ZERO
    pend = []
    for c, ix, t in v.segs:
        q = p - off
        inn = c_lt(q, c)
        d = vdec(inn)
        if d is False:
            off = off + c
            continue
        val = t if ix is None else vsub(t, {ix: q})
        if d is True:
            return _stack(pend, val)
        pend.append((inn, val))
        off = off + c
    if pend:
        # beyond the end is an abort, handled by the caller: last candidate
        last = pend.pop()[1]
        return _stack(pend, last)
    return Opq('oob', (p,))


def _stack(pend, val):
    for c, x in reversed(pend):
        val = merge_el(c, x, val)
    return val


def vset(v, p, val):
    k = p.const()
    if k is not None and 0 <= k < len(v.segs) and flat(v):
        return Vec(v.segs[:k] + (single(val),) + v.segs[k + 1:], True)
    out = []
    off = ZERO
    for c, ix, t in v.segs:
        q = p - off
        before = vdec(c_ge0(-q - 1))      # p < off
        after = vdec(c_ge0(q - c))        # p >= off + c
        if before is True or after is True:
            out.append((c, ix, t))
        elif ix is None:
            out.append((c, ix, mkphi(c_eq0(q), val, t)))
        elif q.const() is not None and q.const() <= CONC and vdec(c_ge0(c - q - 1)) is True:
            # known position from the start of the segment: cut it there
            k0 = q.const()
            for j in range(k0):
                out.append((ONE, None, vsub(t, {ix: P(j)})))
            out.append((ONE, None, val))
            rest = c - q - 1
            nix = fresh_ix(rest)
            out.append((rest, nix, vsub(t, {ix: P(nix) + q + 1})))
        else:
            nix = fresh_ix(c)
            out.append((c, nix, merge_el(c_eq0(P(nix) - q), val, vsub(t, {ix: P(nix)}))))
        off = off + c
    return mkvec(out)


def merge_el(c, a, b):
    d = vdec(c)
    if d is True:
        return a
    if d is False:
        return b
    return merge(c, a, b)


def mkphi_raw(c, a, b):
    d = vdec(c)
    if d is True:
        return a
    if d is False:
        return b
    if veq(a, b):
        return a
    return Phi(c, a, b)


def vslice(v, lo, hi):
    """elements lo..hi (hi exclusive)"""
    i, j = lo.const(), hi.const()
    if i is not None and j is not None and 0 <= i <= j <= len(v.segs) and flat(v):
        return Vec(v.segs[i:j], True)
    out = []
    off = ZERO
    for c, ix, t in v.segs:
        s, e = off, off + c
        off = e
        # clip [s,e) to [lo,hi)
        a = _max(s, lo)
        b = _min(e, hi)
        if a is None or b is None:
            return None
        n = b - a
        d = vdec(c_ge0(n - 1))
        if d is False:
            continue
        if ix is None:
            if d is None:
                return None
            out.append((ONE, None, t))
        else:
            if vdec(c_ge0(n)) is not True:
                return None
            nix = fresh_ix(n)
            out.append((n, nix, vsub(t, {ix: P(nix) + (a - s)})))
    return mkvec(out)


def _max(a, b):
    if vdec(c_ge0(a - b)) is True:
        return a
    if vdec(c_ge0(b - a)) is True:
        return b
    return None


def _min(a, b):
    if vdec(c_ge0(a - b)) is True:
        return b
    if vdec(c_ge0(b - a)) is True:
        return a
    return None


def vconcat(*vs):
    s = []
    for v in vs:
        s.extend(v.segs)
    if all(flat(v) for v in vs):
        return Vec(s, True)
    return mkvec(s)
