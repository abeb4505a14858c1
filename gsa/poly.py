"""Symbolic domain: one commutative polynomial ring for sizes, indices, field elements and group
elements (pairing = product), with bounded sums over index variables, and conditions over it.

Everything here is syntactic normalisation (ring axioms, renaming of bound indices, index shifts,
indicator idempotence, substitution of solved equalities).  No solver is involved."""
from itertools import permutations
from math import gcd
import functools

BOUNDS = {}      # index variable id -> count (0 <= ix < count)
DIM_LB = {}      # Atom key -> lower bound of a size atom (default 0)
_fresh = [0]
CONC = 3000      # sums and lists of known length up to this are written out


class TooBig(Exception):
    pass


SIZES = set()       # constants that sizes and positions were compared with


def note_size(p):
    if isinstance(p, Poly):
        c = p.t.get(M1, 0)
        if c:
            SIZES.add(abs(c))


class Atom:
    __slots__ = ('name', 'args', 'kind', 'key', 'sup', 'fix', '__weakref__')
    pool = {}

    def __new__(cls, name, args=(), kind='F'):
        key = name
        if args:
            key += '[' + ','.join(_akey(a) for a in args) + ']'
        if kind not in ('F', 'int', 'ix'):
            key += ':' + kind
        o = cls.pool.get(key)
        if o is not None:
            return o
        o = object.__new__(cls)
        o.name, o.args, o.kind, o.key = name, args, kind, key
        s = {key}
        for a in args:
            s |= _asup(a)
        if name == 'ph':
            s.add('ph*')
        o.sup = frozenset(s)
        cls.pool[key] = o
        if name in ('opDiv', 'opRem', 'opShr', 'min', 'max') and len(args) == 2:
            note_size(args[1])
            note_size(args[0])
        return o

    def __repr__(self):
        return self.key

    def is_int(self):
        return self.kind in ('int', 'ix')


def _akey(a):
    if isinstance(a, (Poly, Cond)):
        return a.key
    if isinstance(a, tuple):
        return '(' + ','.join(_akey(x) for x in a) + ')'
    return str(a)


_E = frozenset()


def _asup(a):
    if isinstance(a, (Poly, Cond)):
        return a.sup
    if isinstance(a, tuple):
        s = _E
        for x in a:
            s = s | _asup(x)
        return s
    return _E


def _asub(a, m, memo):
    if isinstance(a, (Poly, Cond)):
        return a.subst(m, memo)
    if isinstance(a, tuple):
        return tuple(_asub(x, m, memo) for x in a)
    return a


def ix_atom(i):
    return Atom('i%s' % (i,), (), 'ix')


def fresh_id():
    _fresh[0] += 1
    return _fresh[0]


def fresh_ix(count):
    """new index variable ranging over 0..count-1; returns its Atom"""
    i = fresh_id()
    a = ix_atom(i)
    BOUNDS[a.key] = count
    return a


class Mono:
    __slots__ = ('binders', 'factors', 'key', 'sup', 'deg')
    pool = {}

    def __new__(cls, binders, factors):
        k = '*'.join(a.key if e == 1 else '%s^%d' % (a.key, e) for a, e in factors)
        if binders:
            k = 'S(' + ';'.join('%s<%s' % (b.key, c.key) for b, c in binders) + ')' + k
        o = cls.pool.get(k)
        if o is not None:
            return o
        o = object.__new__(cls)
        o.binders, o.factors, o.key = binders, factors, k
        s = _E
        for a, _ in factors:
            s = s | a.sup
        for _, c in binders:
            s = s | c.sup
        o.sup = s
        cls.pool[k] = o
        return o

    def has_ind(self):
        return any(a.name == 'ind' for a, _ in self.factors)


ONE = None


class Poly:
    __slots__ = ('t', '_key', '_sup')

    def __init__(self, t):
        self.t = t
        self._key = None
        self._sup = None
        if len(t) > 60000:
            raise TooBig()

    @property
    def key(self):
        if self._key is None:
            if not self.t:
                self._key = '0'
            else:
                self._key = '{' + '+'.join(
                    sorted(('%d' % c if not m.key else (m.key if c == 1 else '%d*%s' % (c, m.key)))
                           for m, c in self.t.items())) + '}'
        return self._key

    @property
    def sup(self):
        if self._sup is None:
            s = set()
            for m in self.t:
                s |= m.sup
            self._sup = frozenset(s)
        return self._sup

    def __repr__(self):
        return show(self)

    def is_zero(self):
        return not self.t

    def const(self):
        """constant value or None"""
        if not self.t:
            return 0
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if m is M1:
                return c
        return None

    def __add__(self, o):
        o = P(o)
        if not self.t:
            return o
        if not o.t:
            return self
        t = dict(self.t)
        for m, c in o.t.items():
            n = t.get(m, 0) + c
            if n:
                t[m] = n
            else:
                del t[m]
        return Poly(t)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def __mul__(self, o):
        o = P(o)
        c = o.const()
        if c is not None:
            return self.scale(c)
        c = self.const()
        if c is not None:
            return o.scale(c)
        acc = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                _acc(acc, _mulmono(m1, m2), c1 * c2)
        return Poly(acc)

    __rmul__ = __mul__

    def scale(self, c):
        if c == 0:
            return ZERO
        if c == 1:
            return self
        return Poly({m: k * c for m, k in self.t.items()})

    def subst(self, m, memo=None):
        """m: {Atom: Poly}"""
        if not self.t:
            return self
        if memo is None:
            memo = {}
        ks = memo.get('#k')
        if ks is None:
            ks = memo['#k'] = frozenset(a.key for a in m)
        if self.sup.isdisjoint(ks):
            return self
        r = memo.get(self.key)
        if r is not None:
            return r
        acc = {}
        for mo, c in self.t.items():
            if mo.sup.isdisjoint(ks):
                _acc1(acc, mo, c)
            else:
                _acc(acc, _submono(mo, m, memo, ks), c)
        r = Poly(acc)
        memo[self.key] = r
        return r

    def has(self, atom):
        return atom.key in self.sup

    def linear_in(self, atom):
        """(coef Poly, rest Poly) with self = coef*atom + rest, neither containing atom; or None"""
        co, re = {}, {}
        for m, c in self.t.items():
            if atom.key not in m.sup:
                re[m] = c
                continue
            if m.binders:
                return None
            d = dict(m.factors)
            if d.get(atom) != 1:
                return None
            del d[atom]
            for a in d:
                if atom.key in a.sup:
                    return None
            _acc1(co, Mono((), tuple(sorted(d.items(), key=lambda x: x[0].key))), c)
        return Poly(co), Poly(re)

    def atoms(self):
        s = {}
        for m in self.t:
            for a, _ in m.factors:
                s[a.key] = a
        return list(s.values())

    def is_intlike(self):
        for m in self.t:
            for a, _ in m.factors:
                if not a.is_int() and not (a.name == 'ind'):
                    return False
        return True

    def ncount(self):
        return len(self.t)


def _acc1(acc, m, c):
    n = acc.get(m, 0) + c
    if n:
        acc[m] = n
    elif m in acc:
        del acc[m]


def _acc(acc, p, k):
    for m, c in p.t.items():
        _acc1(acc, m, c * k)


M1 = Mono((), ())
ZERO = Poly({})


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        raise TypeError('bool')
    if isinstance(x, int):
        return Poly({M1: x}) if x else ZERO
    if isinstance(x, Atom):
        return Poly({Mono((), ((x, 1),)): 1})
    raise TypeError(repr(x))


ONE = P(1)
_fkey = lambda x: x[0].key


def _mkfac(d):
    return tuple(sorted(d.items(), key=_fkey))


@functools.lru_cache(maxsize=200000)
def _mulmono(m1, m2):
    d = dict(m1.factors)
    if not m1.binders and not m2.binders:
        for a, e in m2.factors:
            d[a] = d.get(a, 0) + e
        if any(a.name == 'ind' for a in d):
            return mk([], d)
        return Poly({Mono((), _mkfac(d)): 1})
    b1, f1 = _open(m1)
    b2, f2 = _open(m2)
    d = dict(f1)
    for a, e in f2:
        d[a] = d.get(a, 0) + e
    return mk(b1 + b2, d)


def _open(m):
    """rename bound ids to fresh ones with registered bounds"""
    if not m.binders:
        return [], list(m.factors)
    mp = {}
    bs = []
    for b, c in m.binders:
        c2 = c.subst(mp) if mp else c
        f = fresh_ix(c2)
        mp[b] = P(f)
        bs.append((f, c2))
    memo = {}
    fs = [(_subatom_atom(a, mp, memo), e) for a, e in m.factors]
    return bs, fs


def _subatom_atom(a, m, memo):
    """substitution that maps an atom to an atom (renaming of index variables)"""
    ks = memo.get('#k')
    if ks is None:
        ks = memo['#k'] = frozenset(x.key for x in m)
    if a.sup.isdisjoint(ks):
        return a
    if a in m:
        p = m[a]
        (mo, c), = p.t.items()
        return mo.factors[0][0]
    return Atom(a.name, tuple(_asub(x, m, memo) for x in a.args), a.kind)


def _subatom(a, m, memo):
    ks = memo.get('#k')
    if ks is None:
        ks = memo['#k'] = frozenset(x.key for x in m)
    if a.sup.isdisjoint(ks):
        return P(a)
    if a in m:
        return m[a]
    args = tuple(_asub(x, m, memo) for x in a.args)
    if a.name == 'ind':
        return ind(args[0])
    if a.name == 'inv':
        return inv(args[0])
    r = Atom(a.name, args, a.kind)
    if a.name == 'ph' and PHT in m:
        q = m[PHT](r)
        if q is not None:
            return q
    if a.name in FOLD and all(isinstance(x, Poly) and x.const() is not None for x in args):
        q = FOLD[a.name](*[x.const() for x in args])
        if q is not None:
            return P(q)
    if a.name in ('opDiv', 'opRem'):
        return idiv(a.name, args[0], args[1])
    return P(r)


def idiv(op, p, q):
    """p / q or p % q over integers, split when p = x*q + r with 0 <= r < q"""
    d = divide(p, q)
    if d is not None:
        return d[0] if op == 'opDiv' else d[1]
    return P(Atom(op, (p, q), 'int'))


def divide(p, q):
    if len(q.t) != 1 or not isinstance(p, Poly):
        return None
    (qm, qc), = q.t.items()
    if qm.binders or qc <= 0:
        return None
    qd = dict(qm.factors)
    x, r = ZERO, ZERO
    for m, c in p.t.items():
        d = dict(m.factors)
        if m is M1 and qm is M1:
            x, r = x + P(c // qc), r + P(c % qc)
            continue
        if m.binders or c % qc or any(d.get(a, 0) < e for a, e in qd.items()):
            r = r + Poly({m: c})
            continue
        t = P(c // qc)
        for a, e in d.items():
            for _ in range(e - qd.get(a, 0)):
                t = t * P(a)
        x = x + t
    for z in (r, q - 1 - r):
        lb = lower_bound(z)
        if lb is None or lb < 0:
            return None
    return x, r


PHT = Atom('ph*')
FOLD = {
    'opDiv': lambda a, b: a // b if b else None,
    'opRem': lambda a, b: a % b if b else None,
    'opBitAnd': lambda a, b: a & b, 'opBitOr': lambda a, b: a | b, 'opBitXor': lambda a, b: a ^ b,
    'opShr': lambda a, b: a >> b, 'opShl': lambda a, b: (a << b) % (1 << 64),
    'truncu8': lambda a: a & 255, 'truncu16': lambda a: a & 65535, 'truncu32': lambda a: a & 0xffffffff,
    'trunci32': lambda a: a, 'trunci64': lambda a: a,
    'min': lambda a, b: min(a, b), 'max': lambda a, b: max(a, b),
    # the integer representation of small field elements
    'opqnumbits': lambda a: a.bit_length() if 0 <= a < SMALL else None,
    'opqlimb': lambda a, i: (a >> (64 * i)) & (1 << 64) - 1 if 0 <= a < SMALL and 0 <= i < 4 else None,
    'opqbit': lambda a, i: (a >> i) & 1 if 0 <= a < SMALL and i >= 0 else None,
}
SMALL = 1 << 200


def _submono(mo, m, memo, ks):
    bs, fs = _open(mo)
    bs = [(b, c.subst(m, memo)) for b, c in bs]
    for b, c in bs:
        BOUNDS[b.key] = c
    plain = {}
    r = None
    for a, e in fs:
        if a.sup.isdisjoint(ks):
            plain[a] = plain.get(a, 0) + e
            continue
        p = _subatom(a, m, memo)
        if len(p.t) == 1:
            (pm, c), = p.t.items()
            if c == 1 and not pm.binders:
                for a2, e2 in pm.factors:
                    plain[a2] = plain.get(a2, 0) + e2 * e
                continue
        for _ in range(e):
            r = p if r is None else r * p
    if r is None:
        return mk(bs, plain)
    # multiply out under the binders, then sum
    acc = {}
    for m2, c2 in r.t.items():
        b2, f2 = _open(m2)
        d = dict(plain)
        for a, e in f2:
            d[a] = d.get(a, 0) + e
        _acc(acc, mk(bs + b2, d), c2)
    return Poly(acc)


def mk(binders, d, depth=0):
    """normal form of  sum over binders of product d ; binders have registered (non canonical) ids"""
    if depth > 60:
        raise TooBig()
    # --- indicators
    inds = [a for a in d if a.name == 'ind']
    for a in inds:
        c = a.args[0]
        r = decide(c)
        if r is False:
            return ZERO
        if r is True:
            d = dict(d)
            del d[a]
            return mk(binders, d, depth + 1)
        if d[a] != 1:
            d = dict(d)
            d[a] = 1
    bset = {b.key: (b, c) for b, c in binders}
    for a in inds:
        c = a.args[0]
        if c.op != 'eq0':
            continue
        # elimination of a bound index fixed by the indicator
        for b, cnt in binders:
            if b.key in c.sup:
                le = c.args[0].linear_in(b)
                if le and le[0].const() in (1, -1):
                    e = -le[1] if le[0].const() == 1 else le[1]
                    if any(b.key in cc.sup for bb, cc in binders if bb is not b):
                        continue
                    rest = [(bb, cc) for bb, cc in binders if bb is not b]
                    d2 = {x: y for x, y in d.items() if x is not a}
                    guard = ind(c_and(c_ge0(e), c_ge0(cnt - e - 1)))
                    return _prod_sub(rest, d2, {b: e}, guard, depth)
        s = solve(c.args[0])
        if s is None:
            continue
        at, ex = s
        if at.key in bset:
            continue
        if any(at.key in x.sup for x in d if x is not a) or any(at.key in cc.sup for _, cc in binders):
            d2 = {x: y for x, y in d.items() if x is not a}
            return _prod_sub(binders, d2, {at: ex}, P(a), depth)
    # --- binders
    for i, (b, cnt) in enumerate(binders):
        rest = binders[:i] + binders[i + 1:]
        used = any(b.key in x.sup for x in d) or any(b.key in cc.sup for _, cc in rest)
        if not used:
            return mk(rest, d, depth + 1) * cnt if not rest else _under(rest, d, cnt, depth)
        cc = cnt.const()
        if cc is not None:
            if cc <= 0:
                return ZERO
            if cc <= CONC and not any(b.key in c2.sup for _, c2 in rest):
                acc = {}
                for j in range(cc):
                    _acc(acc, _prod_sub(rest, d, {b: P(j)}, None, depth), 1)
                return Poly(acc)
        q = cnt.t.get(M1, 0)
        if cc is None and q and abs(q) <= 8 and not any(b.key in c2.sup for _, c2 in rest):
            # telescoping: bounds carry no constant offset
            c0 = cnt - q
            nb = fresh_ix(c0)
            acc = dict(_prod_sub(rest + [(nb, c0)], d, {b: P(nb)}, None, depth).t)
            for j in range(min(q, 0), max(q, 0)):
                _acc(acc, _prod_sub(rest, d, {b: c0 + j}, None, depth), 1 if q > 0 else -1)
            return Poly(acc)
        sh = _shift(b, cnt, d, binders)
        if sh is not None:
            kind, base = sh
            if any(b.key in c2.sup for _, c2 in rest):
                continue
            nb = fresh_ix(cnt)
            if kind == 'refl':
                return _prod_sub(rest + [(nb, cnt)], d, {b: cnt - 1 - P(nb)}, None, depth)
            # shift by base
            bc = base.const()
            nb2 = fresh_ix(cnt + base)
            full = _prod_sub(rest + [(nb2, cnt + base)], d, {b: P(nb2) - base}, None, depth)
            if bc is not None:
                acc = dict(full.t)
                if bc > 0:
                    for j in range(bc):
                        _acc(acc, _prod_sub(rest, d, {b: P(j) - base}, None, depth), -1)
                else:
                    for j in range(bc, 0):
                        _acc(acc, _prod_sub(rest, d, {b: P(j) - base}, None, depth), 1)
                return Poly(acc)
            nb3 = fresh_ix(base)
            part = _prod_sub(rest + [(nb3, base)], d, {b: P(nb3) - base}, None, depth)
            return full - part
    return _canon(binders, d)


def _under(rest, d, cnt, depth):
    acc = {}
    for m2, c2 in cnt.t.items():
        b2, f2 = _open(m2)
        dd = dict(d)
        for a, e in f2:
            dd[a] = dd.get(a, 0) + e
        _acc(acc, mk(rest + b2, dd, depth + 1), c2)
    return Poly(acc)


def _prod_sub(binders, d, m, extra, depth):
    memo = {}
    ks = memo['#k'] = frozenset(a.key for a in m)
    bs = []
    for b, c in binders:
        c2 = c.subst(m, memo)
        if c2 is not c:
            BOUNDS[b.key] = c2
        bs.append((b, c2))
    plain = {}
    r = extra
    for a, e in d.items():
        if a.sup.isdisjoint(ks):
            plain[a] = plain.get(a, 0) + e
            continue
        p = _subatom(a, m, memo)
        if len(p.t) == 1:
            (pm, c), = p.t.items()
            if c == 1 and not pm.binders:
                for a2, e2 in pm.factors:
                    plain[a2] = plain.get(a2, 0) + e2 * e
                continue
        for _ in range(e):
            r = p if r is None else r * p
    if r is None:
        return mk(bs, plain, depth + 1)
    acc = {}
    for m2, c2 in r.t.items():
        b2, f2 = _open(m2)
        dd = dict(plain)
        for a, e in f2:
            dd[a] = dd.get(a, 0) + e
        _acc(acc, mk(bs + b2, dd, depth + 1), c2)
    return Poly(acc)


def _shift(b, cnt, d, binders):
    plus, minus = [], []
    others = [x.key for x, _ in binders if x is not b]

    def coll(arg):
        if isinstance(arg, Poly):
            if b.key in arg.sup:
                le = arg.linear_in(b)
                if le is None:
                    for a in arg.atoms():
                        for x in a.args:
                            coll(x)
                    return
                k = le[0].const()
                if k == 1:
                    plus.append(le[1])
                elif k == -1:
                    minus.append(le[1])
        elif isinstance(arg, tuple):
            for x in arg:
                coll(x)

    for a in d:
        if a.name == 'ind' or b.key not in a.sup:
            continue
        for x in a.args:
            coll(x)
    if plus:
        ok = [o for o in plus if o.sup.isdisjoint(others) and b.key not in o.sup]
        if not ok:
            return None
        cs = [o.const() for o in ok if o.const() is not None]
        if cs:
            base = min(cs)
            return None if base == 0 else ('shift', P(base))
        base = min(ok, key=lambda o: o.key)
        return ('shift', base)
    if minus:
        ok = [o for o in minus if o.sup.isdisjoint(others)]
        if ok:
            return ('refl', None)
    return None


def level(tag, *sups):
    """first bound-variable number of this kind that none of the given supports mentions"""
    n = 0
    for s in sups:
        for k in s:
            if k[:2] == tag and k[2:].isdigit():
                n = max(n, int(k[2:]) + 1)
    return n


def _canon(binders, d):
    if not binders:
        return Poly({Mono((), _mkfac(d)): 1})
    n = len(binders)
    # the names of bound variables must not capture one free in the body
    lv = level('ib', *[a.sup for a in d], *[c.sup for _, c in binders])
    if n == 1:
        bv = ix_atom('b%d' % lv)
        mp = {binders[0][0]: P(bv)}
        memo = {}
        dd = {}
        for a, e in d.items():
            a2 = _subatom_atom(a, mp, memo)
            dd[a2] = dd.get(a2, 0) + e
        return Poly({Mono(((bv, binders[0][1]),), _mkfac(dd)): 1})
    bkeys = [b.key for b, _ in binders]
    bound = [(a, e) for a, e in d.items() if not a.sup.isdisjoint(bkeys)]
    free = [(a, e) for a, e in d.items() if a.sup.isdisjoint(bkeys)]
    # signature of each binder: skeleton of its occurrences with all bound names anonymised
    anon = ix_atom('b_')
    me = ix_atom('b@')
    sig = []
    for b, c in binders:
        mp = {x: P(anon) for x, _ in binders}
        mp[b] = P(me)
        memo = {}
        s = sorted('%s^%d' % (_subatom_atom(a, mp, memo).key, e) for a, e in bound if b.key in a.sup)
        sig.append((c.subst(mp).key, tuple(s)))
    order = sorted(range(n), key=lambda i: sig[i])
    groups = []
    for i in order:
        if groups and sig[groups[-1][0]] == sig[i]:
            groups[-1].append(i)
        else:
            groups.append([i])
    best = None
    total = 1
    for g in groups:
        for k in range(2, len(g) + 1):
            total *= k
    if total > 5040:
        raise TooBig()

    def rec(gi, cur):
        nonlocal best
        if gi == len(groups):
            mp = {binders[i][0]: P(ix_atom('b%d' % (lv + k))) for k, i in enumerate(cur)}
            memo = {}
            fs = sorted(((_subatom_atom(a, mp, memo), e) for a, e in bound), key=_fkey)
            bs = tuple((ix_atom('b%d' % (lv + k)), binders[i][1].subst(mp, memo)) for k, i in enumerate(cur))
            key = '|'.join(c.key for _, c in bs) + '#' + '*'.join('%s^%d' % (a.key, e) for a, e in fs)
            if best is None or key < best[0]:
                best = (key, bs, fs)
            return
        for p in permutations(groups[gi]):
            rec(gi + 1, cur + list(p))

    rec(0, [])
    dd = {}
    for a, e in best[2] + free:
        dd[a] = dd.get(a, 0) + e
    return Poly({Mono(best[1], _mkfac(dd)): 1})


def residues(x, ix, out):
    """small constants the index is divided by"""
    if isinstance(x, Poly):
        for m in x.t:
            if ix.key in m.sup:
                for a, _ in m.factors:
                    residues(a, ix, out)
    elif isinstance(x, Atom):
        if ix.key in x.sup:
            if x.name in ('opDiv', 'opRem') and x.args[0].key == P(ix).key:
                q = x.args[1].const()
                if q is not None and 1 < q <= 16:
                    out.add(q)
                    return out
            for y in x.args:
                residues(y, ix, out)
    elif isinstance(x, Cond):
        if ix.key in x.sup:
            for y in x.args:
                residues(y, ix, out)
    return out


def addall(ps):
    t = ZERO
    for x in ps:
        t = t + x
    return t


def Sum(ix, count, p):
    """sum of p for ix in 0..count-1"""
    p = P(p)
    c = count.const()
    if c is not None and c <= 0:
        return ZERO
    if c is None:
        g = 0
        for x in count.t.values():
            g = gcd(g, x)
        if g > 1:
            for q in sorted(residues(p, ix, set())):
                if g % q == 0:
                    # residue by residue
                    part = Poly({m: x // q for m, x in count.t.items()})
                    nb = fresh_ix(part)
                    return addall([Sum(nb, part, p.subst({ix: P(nb) * q + j})) for j in range(q)])
    acc = {}
    for m, k in p.t.items():
        if ix.key not in m.sup:
            _acc(acc, Poly({m: 1}) * count, k)
            continue
        bs, fs = _open(m)
        nb = fresh_ix(count)
        mp = {ix: P(nb)}
        bs = [(b, cc.subst(mp)) for b, cc in bs]
        for b, cc in bs:
            BOUNDS[b.key] = cc
        memo = {}
        d = {}
        extra = None
        for a, e in fs:
            if a.name == 'ind' or ix.key in a.sup:
                q = _subatom(a, mp, memo)
                if len(q.t) == 1:
                    (qm, qc), = q.t.items()
                    if qc == 1 and not qm.binders:
                        for a2, e2 in qm.factors:
                            d[a2] = d.get(a2, 0) + e2 * e
                        continue
                for _ in range(e):
                    extra = q if extra is None else extra * q
            else:
                d[a] = d.get(a, 0) + e
        if extra is None:
            _acc(acc, mk([(nb, count)] + bs, d), k)
        else:
            for m2, c2 in extra.t.items():
                b2, f2 = _open(m2)
                dd = dict(d)
                for a, e in f2:
                    dd[a] = dd.get(a, 0) + e
                _acc(acc, mk([(nb, count)] + bs + b2, dd), k * c2)
    return Poly(acc)


def reduce(d, limit=400):
    """rewrite  [p = 0]*lead(p)*q  to  -[p = 0]*rest(p)*q  until nothing matches: zero when the equations make it zero"""
    todo = dict(d.t)
    out = {}
    while todo:
        m = min(todo, key=lambda m: m.key)
        c = todo.pop(m)
        r = _reduce1(m) if limit > 0 and m.has_ind() else None
        if r is None:
            _acc1(out, m, c)
            continue
        limit -= 1
        if len(r.t) + len(todo) > 20000:
            return d
        for m2, c2 in r.t.items():
            c2 = c2 * c + out.pop(m2, 0)
            _acc1(todo, m2, c2)
    return Poly(out)


def _reduce1(m):
    bs, fs = _open(m)
    d = {}
    for a, e in fs:
        d[a] = d.get(a, 0) + e
    for i in d:
        if i.name != 'ind' or i.args[0].op != 'eq0':
            continue
        p = i.args[0].args[0]
        lead = [x for x in p.t if p.t[x] in (1, -1)]
        if not lead:
            continue
        L = max(lead, key=lambda x: (sum(e for a, e in x.factors), len(x.binders), x.key))
        if L is M1 or L.has_ind():
            continue
        r = {a: e for a, e in d.items() if a is not i}
        for q, rest in _divs(r, bs, L, p):
            cof = p - Poly({L: p.t[L]})
            q = dict(q)
            q[i] = 1
            if not cof.t:
                return ZERO
            acc = {}
            for m2, c2 in cof.t.items():
                b2, f2 = _open(m2)
                dd = dict(q)
                for a, e in f2:
                    dd[a] = dd.get(a, 0) + e
                _acc(acc, mk(list(rest) + b2, dd), -c2 * p.t[L])
            return Poly(acc)
    return None


def _divs(r, bs, L, p):
    """ways to write  sum over bs of r  as  L * sum over the rest of q, the rest not depending on what L binds"""
    lb, lf = _open(L) if L.binders else ([], list(L.factors))

    def rec(k, mp, used):
        if k == len(lb):
            memo = {}
            q = dict(r)
            for a, e in lf:
                a2 = _subatom_atom(a, mp, memo) if mp else a
                if q.get(a2, 0) < e:
                    return
                q[a2] -= e
                if not q[a2]:
                    del q[a2]
            rest = [(b, c) for b, c in bs if b.key not in used]
            if any(u in a.sup for u in used for a in q) or any(u in c.sup for u in used for _, c in rest):
                return
            yield q, rest
            return
        want = lb[k][1].subst(mp).key if mp else lb[k][1].key
        for b, c in bs:
            if b.key in used or c.key != want or b.key in p.sup:
                continue
            yield from rec(k + 1, {**mp, lb[k][0]: P(b)}, used | {b.key})
    yield from rec(0, {}, frozenset())


def reduce_cond(c):
    if c.op == 'eq0':
        return c_eq0(reduce(c.args[0]))
    if c.op == 'not':
        return c_not(reduce_cond(c.args[0]))
    if c.op in ('and', 'or'):
        return (c_and if c.op == 'and' else c_or)(*[reduce_cond(x) for x in c.args])
    return c


def inv(p):
    c = p.const()
    if c in (1, -1):
        return p
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c in (1, -1) and not m.binders and len(m.factors) == 1 and m.factors[0] and m.factors[0][0].name == 'inv' and m.factors[0][1] == 1:
            return m.factors[0][0].args[0].scale(c)
    return P(Atom('inv', (p,)))


# ------------------------------------------------------------------ conditions
class Cond:
    __slots__ = ('op', 'args', 'key', 'sup')
    pool = {}

    def __new__(cls, op, args):
        key = op + '(' + ','.join(_akey(a) for a in args) + ')' if args else op
        o = cls.pool.get(key)
        if o is not None:
            return o
        o = object.__new__(cls)
        o.op, o.args, o.key = op, args, key
        s = _E
        for a in args:
            s = s | _asup(a)
        if op in ('opq', 'eq0', 'ge0', 'all', 'flt'):
            s = s | frozenset([key])
        o.sup = s
        cls.pool[key] = o
        return o

    def __repr__(self):
        return cshow(self)

    def subst(self, m, memo=None):
        if memo is None:
            memo = {}
        ks = memo.get('#k')
        if ks is None:
            ks = memo['#k'] = frozenset(a.key for a in m)
        if self.sup.isdisjoint(ks):
            return self
        r = memo.get(self.key)
        if r is not None:
            return r
        o = self.op
        if self in m:
            r = m[self]
        elif o == 'opq':
            r = Cond('opq', tuple(_asub(a, m, memo) for a in self.args))
        elif o == 'flt':
            r = c_order(*[a.subst(m, memo) for a in self.args])
        elif o == 'eq0':
            r = c_eq0(self.args[0].subst(m, memo))
        elif o == 'ge0':
            r = c_ge0(self.args[0].subst(m, memo))
        elif o == 'not':
            r = c_not(self.args[0].subst(m, memo))
        elif o == 'and':
            r = c_and(*[a.subst(m, memo) for a in self.args])
        elif o == 'or':
            r = c_or(*[a.subst(m, memo) for a in self.args])
        elif o == 'all':
            b, cnt, c = self.args
            b = ix_atom(b)
            f = fresh_ix(cnt)
            c = c.subst({b: P(f)})
            cnt = cnt.subst(m, memo)
            BOUNDS[f.key] = cnt
            r = c_all(f, cnt, c.subst(m, memo))
        else:
            r = self
        memo[self.key] = r
        return r


TRUE = Cond('T', ())
FALSE = Cond('F', ())


def c_bool(b):
    return TRUE if b else FALSE


def c_opq(name, *args):
    return Cond('opq', (name,) + tuple(args))


def c_order(a, b):
    """the canonical representative of the field element a is below that of b; of no consequence where a = b"""
    x, y = a.const(), b.const()
    if x is not None and y is not None:
        if x >= 0 and y >= 0:
            return c_bool(x < y)
    if (a - b).is_zero():
        return FALSE
    if b.key < a.key:
        return c_not(Cond('flt', (b, a)))
    return Cond('flt', (a, b))


def c_flt(a, b):
    """a < b for field elements"""
    return c_and(c_not(c_eq0(a - b)), c_order(a, b))


def _norm_sign(p):
    g = 0
    for c in p.t.values():
        g = gcd(g, c)
    lead = max(p.t, key=lambda m: m.key)
    if p.t[lead] < 0:
        g = -g
    if g == 1:
        return p
    return Poly({m: c // g for m, c in p.t.items()})


def c_eq0(p):
    p = P(p)
    c = p.const()
    if c is not None:
        return TRUE if c == 0 else FALSE
    p = _norm_sign(p)
    # a product is zero iff one factor is (no zero divisors for a single unsummed monomial of scalars)
    if p.is_intlike():
        note_size(p)
        lb = lower_bound(p)
        if lb is not None and lb > 0:
            return FALSE
        lb = lower_bound(-p)
        if lb is not None and lb > 0:
            return FALSE
    elif len(p.t) == 1:
        (mo, _), = p.t.items()
        if not mo.binders and any(e > 1 for _, e in mo.factors):
            p = Poly({Mono((), tuple((a, 1) for a, _ in mo.factors)): 1})
    return Cond('eq0', (p,))


def c_eq(a, b):
    return c_eq0(P(a) - P(b))


def c_ge0(p):
    p = P(p)
    c = p.const()
    if c is not None:
        return TRUE if c >= 0 else FALSE
    if not p.is_intlike():
        return Cond('ge0', (p,))
    note_size(p)
    lb = lower_bound(p)
    if lb is not None and lb >= 0:
        return TRUE
    lb = lower_bound(-p)
    if lb is not None and lb > 0:
        return FALSE
    g = 0
    k0 = p.t.get(M1, 0)
    for m, c in p.t.items():
        if m is not M1:
            g = gcd(g, c)
    if g > 1:
        # sum(g*a_i) + k >= 0  <=>  sum(a_i) + floor(k/g) >= 0
        t = {m: c // g for m, c in p.t.items() if m is not M1}
        if k0 // g:
            t[M1] = k0 // g
        p = Poly(t)
    lead = max((m for m in p.t if m is not M1), key=lambda m: m.key)
    if p.t[lead] < 0:
        q = -p - 1          # p >= 0  <=> not (-p-1 >= 0)
        # -p-1>=0 may need re-normalising of nothing: same coefficients
        return Cond('not', (Cond('ge0', (q,)),))
    # two-sided tightness: p>=0 and p<=0 known -> equality
    lb = lower_bound(-p)
    if lb is not None and lb >= 0:
        return c_eq0(p)
    return Cond('ge0', (p,))


def c_lt(a, b):
    return c_ge0(P(b) - P(a) - 1)


def c_le(a, b):
    return c_ge0(P(b) - P(a))


def c_not(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == 'not':
        return c.args[0]
    if c.op == 'and':
        return c_or(*[c_not(x) for x in c.args])
    if c.op == 'or':
        return c_and(*[c_not(x) for x in c.args])
    if c.op == 'ge0':
        p = c.args[0]
        q = -p - 1
        lb = lower_bound(q) if p.is_intlike() else None
        # p < 0 with p >= -1 known  <=> p == -1
        if p.is_intlike():
            l2 = lower_bound(p + 1)
            if l2 is not None and l2 >= 0:
                return c_eq0(p + 1)
    if c.op == 'eq0' and c.args[0].is_intlike():
        p = c.args[0]
        lb = lower_bound(p)
        if lb is not None and lb >= 0:
            r = c_ge0(p - 1)
            if r.op == 'ge0' or r is TRUE or r is FALSE:
                return r
    return Cond('not', (c,))


def c_and(*cs):
    out = {}
    for c in cs:
        for x in (c.args if c.op == 'and' else (c,)):
            if x is FALSE:
                return FALSE
            if x is TRUE:
                continue
            out[x.key] = x
    for k, x in out.items():
        n = c_not(x)
        if n.key in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return next(iter(out.values()))
    # absorption: drop disjunctions satisfied by another conjunct
    for k, x in list(out.items()):
        if x.op == 'or' and any(y.key in out for y in x.args):
            del out[k]
    # equalities substituted into the others
    eqs = [x for x in out.values() if x.op == 'eq0']
    for e in eqs:
        s = solve(e.args[0])
        if s is None or not s[0].is_int():
            continue
        for k, x in list(out.items()):
            if x is e or x.op == 'eq0':
                continue
            if s[0].key in x.sup:
                y = x.subst({s[0]: s[1]})
                del out[k]
                return c_and(y, *out.values())
    if len(out) == 1:
        return next(iter(out.values()))
    return Cond('and', tuple(out[k] for k in sorted(out)))


def c_or(*cs):
    out = {}
    for c in cs:
        for x in (c.args if c.op == 'or' else (c,)):
            if x is TRUE:
                return TRUE
            if x is FALSE:
                continue
            out[x.key] = x
    for k, x in out.items():
        n = c_not(x)
        if n.key in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return next(iter(out.values()))
    for k, x in list(out.items()):
        if x.op == 'and' and any(y.key in out for y in x.args):
            del out[k]
    # or(a, and(not a, b)) = or(a, b)
    for k, x in list(out.items()):
        if x.op == 'and':
            rest = [y for y in x.args if c_not(y).key not in out]
            if len(rest) != len(x.args):
                del out[k]
                return c_or(c_and(*rest), *out.values())
    if len(out) == 1:
        return next(iter(out.values()))
    return Cond('or', tuple(out[k] for k in sorted(out)))


def c_ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return c_or(c_and(c, a), c_and(c_not(c), b))


def c_all(ix, count, c):
    """for all ix < count: c"""
    if c is TRUE:
        return TRUE
    k = count.const()
    if k is not None:
        if k <= 0:
            return TRUE
        if k <= CONC:
            return c_and(*[c.subst({ix: P(j)}) for j in range(k)])
    if c.op == 'and':
        return c_and(*[c_all(ix, count, x) for x in c.args])
    if k is None and ix.key in c.sup:
        g = 0
        for x in count.t.values():
            g = gcd(g, x)
        for r in sorted(residues(c, ix, set())) if g > 1 else ():
            if g % r == 0:
                # residue by residue
                part = Poly({m: x // r for m, x in count.t.items()})
                nb = fresh_ix(part)
                return c_and(*[c_all(nb, part, c.subst({ix: P(nb) * r + j})) for j in range(r)])
    if ix.key not in c.sup:
        return c_or(c_eq0(count), c)
    q = count.t.get(M1, 0)
    if 0 < q <= 8 and (lower_bound(count - q) is not None and lower_bound(count - q) >= 0):
        c0 = count - q
        nb = fresh_ix(c0)
        return c_and(c_all(nb, c0, c.subst({ix: P(nb)})), *[c.subst({ix: c0 + j}) for j in range(q)])
    # the bound variable's name must not capture one free in the body
    b = 'a%d' % level('ia', c.sup, count.sup)
    return Cond('all', (b, count, c.subst({ix: P(ix_atom(b))})))


def ind(c):
    """indicator polynomial of a condition"""
    if c is TRUE:
        return ONE
    if c is FALSE:
        return ZERO
    if c.op == 'not':
        return ONE - ind(c.args[0])
    if c.op == 'and':
        r = ONE
        for x in c.args:
            r = r * ind(x)
        return r
    if c.op == 'or':
        r = ONE
        for x in c.args:
            r = r * (ONE - ind(x))
        return ONE - r
    return P(Atom('ind', (c,)))


def solve(p):
    """p = 0 solved for one atom: (atom, expr) or None"""
    cand = None
    for m, c in p.t.items():
        if m.binders or len(m.factors) != 1 or c not in (1, -1):
            continue
        a, e = m.factors[0]
        if e != 1 or a.name in ('ind', 'inv'):
            continue
        n = 0
        for m2 in p.t:
            if a.key in m2.sup:
                n += 1
        if n != 1:
            continue
        rank = (a.kind == 'ix', a.kind != 'int', a.key)
        if cand is None or rank > cand[0]:
            cand = (rank, a, c)
    if cand is None:
        return None
    _, a, c = cand
    rest = Poly({m: k for m, k in p.t.items() if not (len(m.factors) == 1 and m.factors[0] == (a, 1) and not m.binders)})
    return a, (-rest if c == 1 else rest)


def lower_bound(p, depth=0):
    """a constant lower bound of an integer polynomial over index variables and sizes, or None"""
    c = p.const()
    if c is not None:
        return c
    if depth > 12:
        return None
    for a in p.atoms():
        if a.name in ('opDiv', 'opRem'):
            le = p.linear_in(a)
            if le is None or (_sign(le[0]) or -1) > 0 and le[1].is_zero():
                continue
            co, re = le
            s = _sign(co)
            if s is None:
                return None
            x, q = a.args
            cc, qc = co.const(), q.const() if isinstance(q, Poly) else None
            if a.name == 'opDiv' and cc is not None and qc is not None and qc > 0 and a.key not in x.sup:
                # x - q + 1 <= q * (x / q) <= x
                l = lower_bound(re * qc + (x if s < 0 else x - (qc - 1)) * cc, depth + 1)
                l = None if l is None else -(-l // qc)
                if s >= 0:
                    l2 = lower_bound(re, depth + 1)
                    return l2 if l is None else l if l2 is None else max(l, l2)
                if l is not None:
                    return l
            if s >= 0:
                return lower_bound(re, depth + 1)
            if a.name == 'opRem':
                hi = q - 1
            else:
                b = BOUNDS.get(x.atoms()[0].key) if len(x.t) == 1 and len(x.atoms()) == 1 and x.key == P(x.atoms()[0]).key else None
                d = divide(b, q) if b is not None else None
                if d is None or not d[1].is_zero():
                    return None
                hi = d[0] - 1
            return lower_bound(re + co * hi, depth + 1)
    for a in p.atoms():
        if a.name == 'ind' and not any(m.binders for m in p.t):
            lo = [lower_bound(_fix_ind(p, a, v), depth + 1) for v in (0, 1)]
            return None if None in lo else min(lo)
    # eliminate index variables, innermost (those whose bound mentions others) first
    ixs = [a for a in p.atoms() if a.kind == 'ix']
    if ixs:
        def dep(a):
            b = BOUNDS.get(a.key)
            return 0 if b is None else sum(1 for x in ixs if x.key in b.sup)
        ixs = sorted(ixs, key=lambda a: (-dep(a), a.key))
        for a in ixs:
            le = p.linear_in(a)
            if le is None:
                continue
            co, re = le
            s = _sign(co)
            if s is None:
                continue
            if s >= 0:
                return lower_bound(re, depth + 1)
            b = BOUNDS.get(a.key)
            if b is None:
                continue
            r = lower_bound(re + co * (b - 1), depth + 1)
            return r
        return None
    tot = 0
    # sizes: substitute d = lb + d', d' >= 0
    m = {}
    for a in p.atoms():
        if a.kind != 'int':
            if a.name == 'ind':
                continue
            return None
        lb = DIM_LB.get(a.key, 0)
        if lb:
            m[a] = P(a) + lb
    q = _shift_dims(p, m) if m else p
    for mo, c in q.t.items():
        if mo is M1:
            tot += c
        elif c < 0:
            if mo.factors and all(a.name == 'ind' for a, _ in mo.factors):
                tot += c
                continue
            return None
        # positive coefficient times a product of non-negatives: >= 0
    return tot


def _fix_ind(p, a, v):
    acc = {}
    for m, c in p.t.items():
        if (a, 1) not in m.factors:
            _acc1(acc, m, c)
        elif v:
            _acc1(acc, Mono((), tuple(x for x in m.factors if x[0] is not a)), c)
    return Poly(acc)


def _shift_dims(p, m):
    acc = ZERO
    for mo, c in p.t.items():
        r = P(c)
        for a, e in mo.factors:
            x = m.get(a, P(a))
            for _ in range(e):
                r = r * x
        acc = acc + r
    return acc


def _sign(co):
    c = co.const()
    if c is not None:
        return c
    lb = lower_bound(co, 6)
    if lb is not None and lb >= 0:
        return 1
    lb = lower_bound(-co, 6)
    if lb is not None and lb >= 0:
        return -1
    return None


def decide(c, facts=None):
    """True / False / None"""
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    o = c.op
    if o == 'eq0':
        r = c_eq0(c.args[0])
        return True if r is TRUE else False if r is FALSE else None
    if o == 'ge0':
        r = c_ge0(c.args[0])
        return True if r is TRUE else False if r is FALSE else None
    if o == 'not':
        r = decide(c.args[0])
        return None if r is None else not r
    if o == 'and':
        rs = [decide(x) for x in c.args]
        return False if False in rs else (None if None in rs else True)
    if o == 'or':
        rs = [decide(x) for x in c.args]
        return True if True in rs else (None if None in rs else False)
    return None


# ------------------------------------------------------------------ display
def ashow(a):
    if a.name == 'ind':
        return '[' + cshow(a.args[0]) + ']'
    if a.name == 'inv':
        return '(' + show(a.args[0]) + ')^-1'
    if a.name == 'draw':
        return 'draw%s#%s' % (a.args[0] if a.args[0] != 'rng' else '', '(%s)' % show(a.args[1]) if a.args[1].const() is None else show(a.args[1]))
    if a.args:
        return a.name + ''.join('[%s]' % (show(x) if isinstance(x, Poly) else cshow(x) if isinstance(x, Cond) else str(x)) for x in a.args)
    return a.name


def show(p, lim=12):
    if not isinstance(p, Poly):
        return str(p)
    if not p.t:
        return '0'
    out = []
    for m, c in sorted(p.t.items(), key=lambda x: x[0].key)[:lim]:
        s = '*'.join(ashow(a) + ('' if e == 1 else '^%d' % e) for a, e in m.factors)
        if m.binders:
            s = 'sum{%s} %s' % (', '.join('%s<%s' % (b.key, show(cc)) for b, cc in m.binders), s)
        if not s:
            s = str(abs(c))
        elif abs(c) != 1:
            s = '%d*%s' % (abs(c), s)
        out.append((' - ' if c < 0 else ' + ') + s)
    r = ''.join(out)
    r = r[3:] if r.startswith(' + ') else '-' + r[3:]
    if len(p.t) > lim:
        r += ' ...(%d terms)' % len(p.t)
    return r


def cshow(c):
    o = c.op
    if o == 'T':
        return 'true'
    if o == 'F':
        return 'false'
    if o == 'eq0':
        p = c.args[0]
        pos = Poly({m: k for m, k in p.t.items() if k > 0})
        neg = Poly({m: -k for m, k in p.t.items() if k < 0})
        return '%s = %s' % (show(pos), show(neg))
    if o == 'ge0':
        p = c.args[0]
        pos = Poly({m: k for m, k in p.t.items() if k > 0})
        neg = Poly({m: -k for m, k in p.t.items() if k < 0})
        return '%s >= %s' % (show(pos), show(neg))
    if o == 'not':
        return 'not(%s)' % cshow(c.args[0])
    if o == 'flt':
        return '%s < %s' % (show(c.args[0]), show(c.args[1]))
    if o in ('and', 'or'):
        return '(' + (' %s ' % o).join(cshow(x) for x in c.args) + ')'
    if o == 'all':
        return 'forall %s<%s: %s' % (c.args[0], show(c.args[1]), cshow(c.args[2]))
    return 'cond:' + '/'.join(_akey(x) for x in c.args)
