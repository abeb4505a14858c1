"""Obligations: a property is decided by comparing the abstract result of a function, for symbolic
sizes and values, with the value the property prescribes.

Every obligation is first tried with symbolic sizes (a positive answer covers every size).  When that
leaves a difference or cannot be decided, the same obligation is analysed for fixed small shapes, where
sums and loops are expanded and a difference of normal forms is a genuine difference."""
import signal
import time
import loops
import poly
from poly import *
from values import *
import values as _v
import interp
from interp import Undecided, State, Diverge
from env import Env, Run, Missing

HELD, BOUNDED, UNDEC, BAD = 'held', 'held-bounded', 'undecided', 'violated'


class Unsure(Exception):
    """a comparison that the normal forms do not settle"""


class TimeUp(Exception):
    pass


class Bad(Exception):
    def __init__(self, what, expected=None, actual=None, at=None):
        Exception.__init__(self, what)
        self.what, self.expected, self.actual, self.at = what, expected, actual, at


# ---------------------------------------------------------------- case analysis over leaf conditions
def leaves_cond(c, out):
    if c.op in ('and', 'or', 'not'):
        for x in c.args:
            leaves_cond(x, out)
    elif c.op in ('eq0', 'ge0', 'opq', 'all', 'flt'):
        inner = inds(c)
        if inner:                          # counts of conditions: decide those first
            for x in inner:
                leaves_cond(x, out)
        else:
            out[c.key] = c


def inds(c):
    """conditions counted inside a comparison, free of bound indices"""
    out = []
    if c.op in ('eq0', 'ge0'):
        for m in c.args[0].t:
            for a, _ in m.factors:
                if a.name == 'ind' and bound_free(a.args[0]):
                    out.append(a.args[0])
    return out


def leaves(v, out=None):
    if out is None:
        out = {}
    if isinstance(v, Cond):
        leaves_cond(v, out)
    elif isinstance(v, Poly):
        for m in v.t:
            for a, _ in m.factors:
                if a.name == 'ind':
                    leaves_cond(a.args[0], out)
                else:
                    for x in a.args:
                        if isinstance(x, (Poly, Cond)):
                            leaves(x, out)
    elif isinstance(v, Struct):
        if isinstance(v.var, Poly):
            leaves(v.var, out)
        for x in v.f:
            leaves(x, out)
    elif isinstance(v, Vec):
        for c, _, t in v.segs:
            leaves(t, out)
            leaves(c, out)
    elif isinstance(v, Phi):
        leaves_cond(v.c, out)
        leaves(v.a, out)
        leaves(v.b, out)
    return out


def bound_free(c):
    """no bound index (of a sum or quantifier) inside"""
    return not any(k.startswith('ib') or (k[0] == 'i' and k in BOUNDS) or (k[0] == 'a' and k[1:].isdigit()) or
                   (k[0] == 'v' and k[1:].isdigit()) for k in c.sup)


def opaque(c, free=()):
    if isinstance(c, Cond) and c.op == 'opq':
        return c.args[0] not in free
    return False


def cases(vals, f, S=None, free=(), budget=4000, prune=None):
    """call f(vals, certain, path) for every consistent assignment of the leaf conditions of vals, until it returns True.
    certain: the assignment is realisable and the values hold without further constraints.
    Result: False when the cases are too many to see them all"""
    left = [budget]

    def go(vals, S, certain, path):
        if left[0] <= 0:
            return False
        left[0] -= 1
        if prune is not None and prune(vals):
            return False
        out = {}
        for v in vals:
            leaves(v, out)
        pick = None
        for k in sorted(out):
            c = out[k]
            if not bound_free(c):
                continue
            pick = c
            break
        if pick is None:
            if certain is None:            # some equation was not solved outright: look for a point that satisfies them all
                certain = realisable(list(S0.facts) + [c if t else c_not(c) for c, t in path],
                                     [v for v in vals if isinstance(v, Poly) and not v.is_zero()])
            return bool(f(vals, certain, path))
        for truth in (True, False):
            d = S.known(pick)
            if d is not None and d != truth:
                continue
            S2 = S.fork()
            cert = certain
            S2.add(pick if truth else c_not(pick))
            squeeze(S2)
            if pick.op == 'eq0' and truth and solve(S.norm(pick).args[0] if S.norm(pick).op == 'eq0' else pick.args[0]) is None:
                cert = cert and None
            if pick.op == 'flt' and not tainted(pick, free):
                cert = cert and None
            if pick.op == 'all' or opaque(pick, free) or pick.op != 'opq' and tainted(pick, free):
                cert = False
            m = {pick: TRUE if truth else FALSE}
            w = [S2.norm(vsub(v, m)) for v in vals]
            if go(w, S2, cert, path + ((pick, truth),)):
                return True
        return False
    S0 = State() if S is None else S
    go(vals, S0, None if interp.GENERIC[0] else True, ())
    return left[0] > 0


def squeeze(S):
    """what is neither above nor below a size is equal to it"""
    for p in list(S.ge0s()):
        if c_ge0(-p).key in S.fk or c_not(c_ge0(-p)).key not in S.fk and c_not(c_ge0(p - 1)).key in S.fk:
            S.add(c_eq0(p))


def realisable(conds, extra=()):
    """is there an assignment that makes all equations vanish and none of the inequations: the equations are made
    to vanish identically by fixing a few unknowns; what remains of an inequation is then a non-zero polynomial"""
    eqs, nes, ords = [], list(extra), []
    todo = list(conds)
    while todo:
        c = todo.pop()
        if c.op == 'and':
            todo += c.args
        elif c.op == 'eq0':
            eqs.append(c.args[0])
        elif c.op == 'not' and c.args[0].op == 'eq0':
            nes.append(c.args[0].args[0])
        elif c.op == 'T':
            pass
        elif c.op == 'flt' or c.op == 'not' and c.args[0].op == 'flt':
            ords.append(c)
        elif c.op == 'or' and any(x.op == 'not' and x.args[0].op == 'eq0' for x in c.args):
            nes.append([x for x in c.args if x.op == 'not' and x.args[0].op == 'eq0'][0].args[0].args[0])
        else:
            return False
    if any(tainted(p) or not bound_free_poly(p) for p in eqs + nes) or any(tainted(c) or not bound_free(c) for c in ords):
        return False
    left = [400]

    def fixable(a):
        return not a.is_int() and not a.args == () and a.name not in ('ind', 'inv', 'draw', 'rawdraw', 'sum', 'opq', 'ph') or \
            a.args == () and not a.is_int() and not a.name.startswith(('crs.g', 'key.g', 'draw', 'rawdraw'))

    def go(eqs, nes):
        left[0] -= 1
        if left[0] < 0:
            return False
        if any(p.is_zero() for p in nes):
            return False
        eqs = [p for p in eqs if not p.is_zero()]
        if any(p.const() is not None for p in eqs):
            return False
        if not eqs:
            return True
        p = min(eqs, key=lambda p: (len(p.t), p.key))
        s = solve(p)
        opts = [{s[0]: s[1]}] if s is not None and fixable(s[0]) else []
        atoms = sorted((a for a in p.atoms() if fixable(a)), key=lambda a: (a.name.startswith(('crs', 'key')), -sum(a.key in m.sup for m in p.t), a.key))
        opts += [{a: ZERO} for a in atoms]
        if len(p.t) == 2 and sum(p.t.values()) == 0 and all(not m.binders and len(m.factors) == 1 and m.factors[0][1] == 2 for m in p.t):
            x, y = (m.factors[0][0] for m in p.t)          # x^2 = y^2
            opts += [{x: -P(y)}] if fixable(x) else [{y: -P(x)}] if fixable(y) else []
        for m in opts:
            if go([q.subst(m) for q in eqs], [q.subst(m) for q in nes]):
                return True
        return False
    return not ords and go(eqs, nes) or point(eqs, nes, fixable, ords)


FIELD = 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001      # the scalar field of BLS12-381


class NoValue(Exception):
    pass


def point(eqs, nes, fixable, ords=()):
    """is there an assignment of field elements with all the equations and inequations: most unknowns
    are given fixed pseudo-random values and the equations are solved for the others, in which they are linear"""
    import random
    rnd = random.Random(7)
    if sum(len(p.t) for p in eqs + nes) > 4000:
        return False
    base = {}

    def look(p):
        for a in p.atoms():
            if a.is_int() or a.name.startswith(('opq', 'ph', 'sum', 'limb')):
                raise NoValue()
            if a.name == 'inv':
                look(a.args[0])
            elif a.name == 'ind':
                lookc(a.args[0])
            else:
                base[a.key] = a

    def lookc(c):
        for x in c.args:
            if isinstance(x, Poly):
                look(x)
            elif isinstance(x, Cond):
                lookc(x)
            else:
                raise NoValue()

    def value(a, env):
        if a.key in env:
            return env[a.key]
        if a.name == 'inv':
            v = num(a.args[0], env)
            if v == 0:
                raise NoValue()
            return pow(v, FIELD - 2, FIELD)
        if a.name == 'ind':
            return 1 if true(a.args[0], env) else 0
        raise NoValue()

    def true(c, env):
        if c.op == 'eq0':
            return num(c.args[0], env) == 0
        if c.op == 'flt':
            return num(c.args[0], env) < num(c.args[1], env)
        if c.op == 'not':
            return not true(c.args[0], env)
        if c.op in ('and', 'or'):
            r = [true(x, env) for x in c.args]
            return all(r) if c.op == 'and' else any(r)
        if c.op in ('T', 'F'):
            return c.op == 'T'
        raise NoValue()

    def num(p, env):
        r = 0
        for m, k in p.t.items():
            for a, e in m.factors:
                k = k * pow(value(a, env), e, FIELD) % FIELD
            r += k
        return r % FIELD

    try:
        for p in eqs + nes:
            look(p)
        for c in ords:
            lookc(c)
    except NoValue:
        return False
    deep = {}

    def inner(p, top):
        for a in p.atoms():
            if a.name == 'inv':
                inner(a.args[0], False)
            elif a.name == 'ind':
                innerc(a.args[0])
            elif not top:
                deep[a.key] = a

    def innerc(c):
        for x in c.args:
            inner(x, False) if isinstance(x, Poly) else innerc(x)
    for p in eqs + nes:
        inner(p, True)
    for c in ords:
        innerc(c)
    todo = [p for p in eqs if not p.is_zero()]
    for _ in range(12 + 12 * len(ords)):
        env = {k: rnd.randrange(1, FIELD) for k in sorted(base)}
        # unknowns in which all the equations together are linear
        cand = sorted({a.key: a for p in todo for a in p.atoms()
                       if a.key in base and a.key not in deep and fixable(a)}.items())
        rnd.shuffle(cand)
        free = {}
        for k_, a in cand:
            free[k_] = a
            if any(sum(e for b, e in m.factors if b.key in free) > 1
                   for p in todo if k_ in p.sup for m in p.t):
                del free[k_]
        free = list(free.values())
        try:
            rows = []
            for p in todo:
                row = [0] * (len(free) + 1)
                at = {a.key: i for i, a in enumerate(free)}
                for m, k in p.t.items():
                    c = len(free)
                    for a, e in m.factors:
                        if a.key in at:
                            c = at[a.key]
                        else:
                            k = k * pow(value(a, env), e, FIELD) % FIELD
                    row[c] = (row[c] + k) % FIELD
                rows.append(row)
            done = []
            for row in rows:
                for c, r in done:
                    if row[c]:
                        f = row[c]
                        row = [(x - f * y) % FIELD for x, y in zip(row, r)]
                c = next((c for c in range(len(free)) if row[c]), None)
                if c is None:
                    if row[-1]:
                        raise NoValue()
                    continue
                f = pow(row[c], FIELD - 2, FIELD)
                row = [x * f % FIELD for x in row]
                done = [(d, [(x - r[c] * y) % FIELD for x, y in zip(r, row)]) for d, r in done]
                done.append((c, row))
            piv = {c for c, _ in done}
            for c, row in done:
                v = row[-1]
                for d, a in enumerate(free):
                    if d not in piv:
                        v += row[d] * env[a.key]
                env[free[c].key] = -v % FIELD
            if all(num(p, env) == 0 for p in eqs) and all(num(p, env) for p in nes) and all(true(c, env) for c in ords):
                return True
        except NoValue:
            pass
    return False


def bound_free_poly(p):
    return not any(m.binders for m in p.t) and bound_free(p)


BITS = ('opqnumbits', 'opqlimb', 'opqbit')
POINTS = (0, 1 << 64, 1, (1 << 128) + 1, 2, 4, 5, (1 << 32) + 1, (1 << 64) - 1, 3, (1 << 64) + 3, (1 << 127) + 5, (1 << 190) + (1 << 70) + 1)


def bit_atoms(vs):
    """scalars whose integer representation is looked at"""
    out = {}

    def look(a):
        if isinstance(a, Cond):
            for x in a.args:
                if isinstance(x, (Poly, Cond)):
                    look(x)
        elif isinstance(a, Poly):
            for b in a.atoms():
                if b.name in BITS and isinstance(b.args[0], Poly):
                    for z in b.args[0].atoms():
                        if not z.is_int() and z.name != 'ind' and not z.name.startswith(('opq', 'ph')):
                            out[z.key] = z
                for x in b.args:
                    if isinstance(x, (Poly, Cond)):
                        look(x)
    for v in vs:
        look(v)
    return [out[k] for k in sorted(out)]


def at_points(vs, S):
    """the values and facts with the scalars, whose integer representation matters, set to sample points"""
    facts = list(S.facts) if S is not None else []
    zs = bit_atoms(list(vs) + facts)
    if not zs or len(zs) > 3 or not all(b.startswith('opq') and any(b.startswith(x) for x in BITS) for v in vs for b in v.sup if b.startswith('opq')):
        return
    for i, c in enumerate(POINTS):
        m = {z: P(POINTS[(i + j) % len(POINTS)]) for j, z in enumerate(zs)}
        T = State()
        fs = [f.subst(m) for f in facts]
        if FALSE in fs:
            continue
        for f in fs:
            T.add(f)
        if any(f is FALSE for f in T.facts) or feasible(T.facts) is not True:
            continue
        yield [T.norm(v.subst(m)) for v in vs], T, ', '.join('%s = %s' % (z.key, m[z].const()) for z in zs)


def tainted(v, free=()):
    """contains uninterpreted parts"""
    if isinstance(v, Cond):
        return any(k.startswith(('opq', 'ph')) for k in v.sup if not k.startswith('opq(') or k[4:].split(',')[0].rstrip(')') not in free)
    if isinstance(v, Poly):
        return any(k.startswith(('opq', 'ph')) for k in v.sup if not k.startswith('opq(') or k[4:].split(',')[0].rstrip(')') not in free)
    return is_opq(v)


def poly_diff(p, q, S=None, free=()):
    """None when equal; a description of the first difference when certainly different; Unsure otherwise"""
    d = p - q
    if S is not None:
        d = S.norm(d)
    if d.is_zero():
        return None
    if any(m.has_ind() for m in d.t):
        d = reduce(d)
        if d.is_zero():
            return None
    res = {}

    def leaf(vs, certain, path):
        x = vs[0]
        if x.is_zero():
            return
        if tainted(x, free) or not certain or leaves(x):
            res['unsure'] = path
            return
        res['bad'] = (path, x)
        return True
    if not cases([d], leaf, S, free):
        res['unsure'] = ()
    if 'bad' in res:
        return res['bad']
    if 'unsure' in res:
        for (x,), T, text in at_points([d], S):
            try:
                b = poly_diff(x, ZERO, T, free)
            except Unsure:
                continue
            if b is not None:
                return ((c_opq(text), True),) + b[0], b[1]
        raise Unsure('difference %s' % show(d))
    return None


def case_text(path):
    return ' and '.join(cshow(c if t else c_not(c)) for c, t in path)


# ---------------------------------------------------------------- shapes
class Shape:
    """one attempt at an obligation: symbolic sizes or a fixed assignment"""

    def __init__(self, env, sizes=None, lb=None):
        self.env = env
        self.sizes = sizes          # None = symbolic
        self.lb = lb or {}
        self.runs = []
        self.checked = 0
        self.notes = []

    @property
    def sym(self):
        return self.sizes is None

    def dim(self, name):
        if self.sizes is not None:
            return P(self.sizes[name])
        return P(Atom(name, (), 'int'))

    def text(self):
        return 'all sizes' if self.sym else ', '.join('%s=%s' % x for x in sorted(self.sizes.items())) or 'the only shape'

    def run(self, **kw):
        r = Run(self.env, **kw)
        r.I.fixed = self.sizes is not None
        self.runs.append(r)
        return r

    def call(self, fn, args, facts=(), what=None, may_abort=False, run=None, targs=None):
        """abstract result of fn(args); an abort that can happen is a violation unless allowed"""
        r = run or self.run(facts=facts)
        self.last = fn
        n0 = len(r.I.panics)
        r.call(fn, args, targs)
        if not may_abort:
            self.no_abort(r, fn, n0, what)
        return r

    # ------------------------------------------------------------ judgements
    def no_abort(self, r, fn, n0=0, what=None):
        self.checked += 1
        unsure = None
        for facts, msg, at, where in r.I.panics[n0:]:
            c = feasible(facts)
            if c is True:
                raise Bad('%s can abort: %s at %s' % (what or fn['path'], msg, at), 'no abort on consistent input',
                          'abort when ' + (cond_text(facts) or 'always'), at)
            if c is None:
                unsure = (msg, at)
        if r.aborts:
            raise Bad('%s always aborts' % (what or fn['path']), 'a result', 'abort', fn['at'])
        if unsure:
            raise Unsure('possible abort %s at %s' % unsure)

    def same(self, what, have, want, fn, S=None, free=()):
        """have must equal want, in every part"""
        self.checked += 1
        if self.sizes is None and isinstance(have, V) and isinstance(want, V) and veq(have, want):
            return
        self._same(what, have, want, fn, S, free)

    def _same(self, what, have, want, fn, S, free):
        at = fn['at'] if fn else None
        if isinstance(have, V) and S is not None:
            have = S.norm(have)
        if isinstance(have, Phi) or isinstance(want, Phi):
            def leaf(vs, certain, path):
                h, w = vs
                if isinstance(h, Phi) or isinstance(w, Phi):
                    raise Unsure('unresolved choice in %s' % what)
                try:
                    self._same(what + (' [when %s]' % case_text(path) if path else ''), h, w, fn, S, free)
                except Bad:
                    if not certain:
                        raise Unsure('difference in %s under an unconfirmed case' % what)
                    raise
            # split only the choice at hand
            ph = have if isinstance(have, Phi) else want
            for truth in (True, False):
                S2 = (S or State()).fork()
                d = S2.known(ph.c)
                if d is not None and d is not truth:
                    continue
                sel = lambda v: (v.a if truth else v.b) if isinstance(v, Phi) and v.c is ph.c else v
                S2.add(ph.c if truth else c_not(ph.c))
                fe = feasible([ph.c if truth else c_not(ph.c)] + (list(S.facts) if S else []))
                try:
                    self._same(what, S2.norm(sel(have)), S2.norm(sel(want)), fn, S2, free)
                except Bad as b:
                    if fe is not True:
                        raise Unsure(b.what)
                    b.what += ' [when %s]' % cshow(ph.c if truth else c_not(ph.c))
                    raise
            return
        hp, wp = as_poly(have), as_poly(want)
        if isinstance(want, Cond):
            if not isinstance(have, Cond):
                raise Unsure('%s: not a truth value' % what)
            return self.same_cond(what, have, want, fn, S)
        if wp is not None:
            if hp is None or isinstance(have, Opq):
                if isinstance(have, Opq):
                    raise Unsure('%s is not determined (%s)' % (what, vshow(have)[:80]))
                raise Unsure('%s: form not recognised: %s' % (what, vshow(have)[:80]))
            d = poly_diff(hp, wp, S, free)
            if d is not None:
                path, x = d
                raise Bad('%s differs from the prescribed value' % what, show(wp), show(hp) +
                          ('   [when %s]' % case_text(path) if path else ''), at)
            return
        if isinstance(want, Struct):
            if isinstance(have, Opq):
                raise Unsure('%s is not determined (%s)' % (what, vshow(have)[:80]))
            if not isinstance(have, Struct) or have.path != want.path:
                raise Unsure('%s: form not recognised: %s' % (what, vshow(have)[:80]))
            if isinstance(have.var, Poly) or isinstance(want.var, Poly):
                self._same(what + ' (kind)', P(have.var), P(want.var), fn, S, free)
            elif have.var != want.var:
                raise Bad('%s has a different kind' % what, vshow(want), vshow(have), at)
            for i, (x, y) in enumerate(zip(have.f, want.f)):
                self._same('%s.%s' % (what, self.fname(want, i)), x, y, fn, S, free)
            return
        if isinstance(want, Vec):
            if isinstance(have, Opq):
                raise Unsure('%s is not determined (%s)' % (what, vshow(have)[:80]))
            if not isinstance(have, Vec):
                raise Unsure('%s: form not recognised: %s' % (what, vshow(have)[:80]))
            n, m = vlen(have), vlen(want)
            d = poly_diff(n, m, S, free)
            if d is not None:
                raise Bad('%s has the wrong length' % what, show(m), show(n), at)
            k = m.const()
            if k is not None:
                for i in range(k):
                    self._same('%s[%d]' % (what, i), vindex(have, P(i)), vindex(want, P(i)), fn, S, free)
                return
            if len(have.segs) == len(want.segs):
                ok_ = True
                for (c1, i1, t1), (c2, i2, t2) in zip(have.segs, want.segs):
                    if c1.key != c2.key or (i1 is None) != (i2 is None):
                        ok_ = False
                        break
                if ok_:
                    for (c1, i1, t1), (c2, i2, t2) in zip(have.segs, want.segs):
                        if i1 is None:
                            self._same(what + '[..]', t1, t2, fn, S, free)
                        else:
                            nix = fresh_ix(c1)
                            self._same('%s[%s]' % (what, nix.key), vsub(t1, {i1: P(nix)}), vsub(t2, {i2: P(nix)}), fn, S, free)
                    return
            raise Unsure('%s: lists not aligned' % what)
        if isinstance(want, Rng):
            if not isinstance(have, Rng):
                raise Unsure(what)
            if have.stream != want.stream:
                raise Bad('%s: another generator' % what, vshow(want), vshow(have), at)
            return self._same(what + ' (draws made)', have.pos, want.pos, fn, S, free)
        if veq(have, want):
            return
        raise Unsure('%s: %s vs %s' % (what, vshow(have)[:100], vshow(want)[:100]))

    def fname(self, s, i):
        a = self.env.p.adt_path.get(s.path)
        if a and len(a['variants']) == 1 and i < len(a['variants'][0]['fields']):
            return a['variants'][0]['fields'][i]['name']
        return i

    def same_cond(self, what, have, want, fn, S=None, free=()):
        """two truth values must agree in every case"""
        self.checked += 1
        if S is not None:
            have, want = S.norm(have), S.norm(want)
        if have is want:
            return
        have, want = reduce_cond(have), reduce_cond(want)
        if have is want:
            return
        at = fn['at'] if fn else None
        # conjunctions of equations: compare them one by one
        hs, ws = conj(have), conj(want)
        if hs is not None and ws is not None:
            for k, c in ws.items():
                if k not in hs:
                    raise Bad('%s does not require  %s' % (what, cshow(c)), cshow(want), cshow(have), at)
            for k, c in hs.items():
                if k not in ws:
                    raise Bad('%s additionally requires  %s' % (what, cshow(c)), cshow(want), cshow(have), at)
            return
        res = {}

        def leaf(vs, certain, path):
            h, w = vs
            if h is w:
                return
            if h in (TRUE, FALSE) and w in (TRUE, FALSE) and certain:
                res['bad'] = (path, h, w)
                return True
            res['unsure'] = path
        if not cases([have, want], leaf, S, free, prune=lambda v: v[0].key == v[1].key):
            res['unsure'] = ()
        if 'bad' in res:
            path, h, w = res['bad']
            raise Bad('%s is %s instead of %s%s' % (what, cshow(h), cshow(w), ' when ' + case_text(path) if path else ''),
                      cshow(want), cshow(have), at)
        if 'unsure' in res:
            for (h, w), T, text in at_points([have, want], S):
                try:
                    self.same_cond(what + ' [for %s]' % text, h, w, fn, T, free)
                except Unsure:
                    pass
            raise Unsure('%s: %s vs %s' % (what, cshow(have)[:200], cshow(want)[:200]))

    def is_true(self, what, c, fn, S=None):
        self.same_cond(what, c, TRUE, fn, S)


def conj(c):
    if c is TRUE:
        return {}
    if c.op == 'eq0' and not c.args[0].is_intlike() and not leaves(c.args[0]):
        return {c.key: c}
    if c.op == 'and':
        o = {}
        for x in c.args:
            y = conj(x)
            if y is None:
                return None
            o.update(y)
        return o
    return None


def conds_of(c):
    if c.op in ('and', 'or', 'not'):
        for x in c.args:
            yield from conds_of(x)
    else:
        yield c


def feasible(facts, depth=0):
    """can all these conditions hold together: True / False / None (not settled)"""
    lv = {}
    for c in facts:
        for q in conds_of(c):
            for x in inds(q):
                leaves_cond(x, lv)
    if lv and depth < 6:
        pick = lv[sorted(lv)[0]]
        out = []
        for x, t in ((pick, TRUE), (c_not(pick), FALSE)):
            out.append(feasible([x] + [vsub(c, {pick: t}) for c in facts], depth + 1))
        return True if True in out else False if out == [False, False] else None
    S = State()
    sure, soft = True, 0
    todo = list(facts)
    # equalities first
    todo.sort(key=lambda c: (c.op != 'eq0', c.op == 'or'))
    for c in todo:
        c = S.norm(c)
        d = S.known(c)
        if d is False:
            return False
        if d is True:
            continue
        if c.op in ('opq', 'all') or tainted_cond(c):
            sure = False
        elif c.op == 'flt' or c.op == 'not' and c.args[0].op == 'flt':
            sure, soft = False, soft + 1
        elif c.op == 'eq0':
            s = solve(c.args[0])
            if s is None:
                sure, soft = False, soft + 1
        elif c.op in ('or',):
            sure = sure and any(feasible([x] + S.facts) is True for x in c.args)
        S.add(c)
    for f in S.facts:
        if f is FALSE:
            return False
        if f.op not in ('eq0',) and not simple(f):
            sure = False
    # a few size conditions together: realisable when a small assignment satisfies them all
    if sure and any(is_size(f) for f in S.facts):
        return small_model([f for f in S.facts if is_size(f)])
    if soft and realisable(facts):
        return True
    return True if sure else None


def tainted_cond(c):
    return any(k.startswith(('opq', 'ph')) for k in c.sup)


def simple(c):
    if c.op == 'not':
        return simple(c.args[0])
    if c.op in ('eq0', 'ge0'):
        return not tainted_cond(c) and bound_free(c)
    if c.op in ('and', 'or'):
        return all(simple(x) for x in c.args)
    return c.op in ('T', 'F')


def is_size(c):
    if c.op == 'not':
        return is_size(c.args[0])
    if c.op in ('and', 'or'):
        return any(is_size(x) for x in c.args)
    if c.op in ('eq0', 'ge0'):
        return c.args[0].is_intlike()
    return False


def size_atoms(cs):
    o = {}

    def walk(c):
        for x in c.args:
            if isinstance(x, Cond):
                walk(x)
            elif isinstance(x, Poly):
                for a in x.atoms():
                    if a.is_int():
                        o[a.key] = a
    for c in cs:
        walk(c)
    return list(o.values())


def small_model(cs):
    """do small sizes satisfy these size conditions together (plain enumeration of 0..5)"""
    at = size_atoms(cs)
    if len(at) > 6:
        return None

    def rec(i, m):
        cur = [c.subst(m) for c in cs] if m else cs
        if any(c is FALSE for c in cur):
            return False
        if i == len(at):
            return all(c is TRUE or not is_size(c) for c in cur)
        lo = DIM_LB.get(at[i].key, 0)
        for v in range(lo, lo + 5):
            m2 = dict(m)
            m2[at[i]] = P(v)
            if rec(i + 1, m2):
                return True
        return False
    return True if rec(0, {}) else None


def cond_text(facts):
    return ' and '.join(cshow(c) for c in facts if c is not TRUE)[:400]


# ---------------------------------------------------------------- running obligations
class Result:
    def __init__(self, ob):
        self.ob = ob
        self.status = None
        self.detail = None      # Bad
        self.shape = None
        self.why = []
        self.checked = 0
        self.fns = {}
        self.shapes = []
        self.secs = 0.0
        self.also = 0           # fixed shapes that repeat a verdict for all sizes


class Ob:
    """body(sh) raises Bad / Unsure / Undecided or returns when the obligation holds for that shape"""

    def __init__(self, name, rule, body, shapes=(), lb=None, sym=True, budget=100, key=None):
        self.name, self.rule, self.body = name, rule, body
        self.shapes = list(shapes)
        self.lb = lb or {}
        self.trysym = sym
        self.budget = budget
        self.key = key


def attempt(env, ob, sizes, budget):
    sh = Shape(env, sizes, ob.lb)
    DIM_LB.clear()
    DIM_LB.update(ob.lb)

    def alarm(*a):
        raise TimeUp()
    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, max(budget, 0.5))
    _v.Ctx.state = None
    try:
        ob.body(sh)
        r = (HELD, None)
        if any(getattr(x.I, 'partial', False) for x in sh.runs):
            r = (UNDEC, 'only some of the cases were followed (loop of unknown length, order of a hash table)')
    except Bad as b:
        if b.at is None and getattr(sh, 'last', None):
            b.at = sh.last['at']
        r = (BAD, b)
    except Unsure as u:
        r = (UNDEC, 'comparison not settled: %s' % u)
    except Undecided as u:
        r = (UNDEC, 'outside the analysed fragment: %s%s' % (u.why, last_where(sh)))
    except Diverge:
        r = (UNDEC, 'aborts')
    except TimeUp:
        r = (UNDEC, 'analysis budget used up')
    except Missing:
        raise
    except Split as u:
        r = (UNDEC, 'case split outside a model%s' % last_where(sh))
    except TooBig:
        r = (UNDEC, 'expression too large')
    except (RecursionError, MemoryError):
        r = (UNDEC, 'analysis depth')
    except (AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError) as e:
        # the analyser met a form it has no rule for
        import traceback
        f = traceback.extract_tb(e.__traceback__)[-1]
        r = (UNDEC, 'outside the analysed fragment: %s at %s:%d%s' % (e, f.filename.split('/')[-1], f.lineno, last_where(sh)))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return r, sh


def last_where(sh):
    if sh.runs and sh.runs[-1].I.frames:
        return ' in ' + ' > '.join(x.split('::')[-1] for x in sh.runs[-1].I.where()[-3:])
    return ''


GENERIC_S = 20
CROSS, CROSS_S = 3, 3      # fixed shapes tried again, seconds spent on it


def cross(ob):
    l = [x for x in ob.shapes if x]
    if len(l) <= CROSS:
        return l
    return l if CROSS > 3 else [l[-1], l[len(l) // 2], l[(2 * len(l)) // 3]]


WIDE, WIDE_S = 1100, 30
LADDER = [8, 11, 14]       # and a few sizes beyond the listed ones in any case


def wider(env, ob):
    """shapes just above the constants that sizes were compared with, one dimension at a time"""
    if not ob.trysym:
        return []
    from common import literals
    bases = {}
    for s in ob.shapes:
        for k in s:
            bases.setdefault(k, s)
    seen = {tuple(sorted(s.items())) for s in ob.shapes}
    out = []
    for v in sorted(poly.SIZES | literals(env.p)) + LADDER:
        if not 2 <= v <= WIDE:
            continue
        for x in (v + 1, v, v - 1) if v <= 300 else (v + 1,):
            for k, base in bases.items():
                if k == '*' and x > 20:
                    continue
                s = dict(base)
                s[k] = (x,) * len(base[k]) if isinstance(base[k], tuple) else x
                t = tuple(sorted(s.items()))
                if s[k] >= base[k] and t not in seen:
                    seen.add(t)
                    out.append(s)
            if x <= 12 and len(bases) > 1 and '*' not in bases and all(isinstance(b[k], int) for k, b in bases.items()):
                s = {k: x for k in bases}          # as many rows as columns
                t = tuple(sorted(s.items()))
                if t not in seen:
                    seen.add(t)
                    out.append(s)
    return out


def decide_ob(env, ob, log=None):
    res = Result(ob)
    t0 = time.time()

    def note(sh):
        res.checked += sh.checked
        for r in sh.runs:
            for d, n in r.I.fnset.items():
                res.fns[d] = res.fns.get(d, 0) + n
    if ob.trysym:
        (st, d), sh = attempt(env, ob, None, ob.budget)
        note(sh)
        if st == HELD:
            res.status = HELD
            res.shapes = ['all sizes']
            # the same obligation at fixed shapes: a second opinion on the argument for all sizes
            t1 = time.time()
            for s in cross(ob):
                left = min(CROSS_S - (time.time() - t1), ob.budget - (time.time() - t0))
                if left < 0.5:
                    break
                (st, d), sh = attempt(env, ob, s, left)
                note(sh)
                if st == BAD:
                    res.status, res.detail, res.shape = BAD, d, sh.text()
                    break
                if st == HELD:
                    res.also += 1
            res.secs = time.time() - t0
            return res
        res.why.append(('all sizes', d if isinstance(d, str) else '%s (to be confirmed at a fixed shape)' % d.what))
    und, held = [], []
    wide = wider(env, ob)
    for s in ob.shapes + wide:
        left = ob.budget - (time.time() - t0)
        if left < 1:
            if s not in wide:
                und.append((s, 'analysis budget used up'))
            break
        (st, d), sh = attempt(env, ob, s, min(left, WIDE_S if s in wide else max(ob.budget / 3, 10)))
        note(sh)
        if st == BAD:
            res.status, res.detail, res.shape = BAD, d, sh.text()
            res.secs = time.time() - t0
            return res
        if st == HELD:
            held.append(sh.text())
        elif s not in wide:
            und.append((s, d))
    if und:                    # what stays open is tried again for inputs in general position: enough to confirm a difference
        t1 = time.time()
        interp.GENERIC[0] = True
        try:
            for s in [s for s, _ in und][-6:] + wide:
                if time.time() - t1 > GENERIC_S:
                    break
                (st, d), sh = attempt(env, ob, s, 8)
                note(sh)
                if st == BAD:
                    res.status, res.detail, res.shape = BAD, d, sh.text() + ', inputs in general position'
                    res.secs = time.time() - t0
                    return res
        finally:
            interp.GENERIC[0] = False
    for s, d in und:
        res.why.append((', '.join('%s=%s' % x for x in sorted(s.items())), d))
    res.shapes = held
    res.status = BOUNDED if held and not und else UNDEC
    if not ob.trysym and res.status == BOUNDED:
        res.status = HELD
    res.secs = time.time() - t0
    return res
