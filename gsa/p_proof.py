"""C01-C08, C17, C18: CRS, commitments, proofs and verification."""
from common import *


def frag(fn):
    return fn


# ---------------------------------------------------------------- C01
def c01(env):
    V = Vocab(env)
    gen = env.method('CRS', 'AbstractCrs', 'generate_crs')
    obs = []
    for kind in KINDS:
        xs, ys, npi, nth = SIDES[kind]
        prove, cap = env.method(kind, 'Provable', 'prove'), env.method(kind, 'Provable', 'commit_and_prove')
        ver = env.method(kind, 'Verifiable', 'verify')
        bx, by = env.free(BATCH['X', xs]), env.free(BATCH['Y', ys])

        def setup(sh, kind=kind):
            xs, ys = SIDES[kind][:2]
            m, n = sh.dim('m'), sh.dim('n')
            r = sh.run()
            rng = r.rng()
            sh.call(gen, [rng], run=r)
            crs = r.val
            xf = lambda i: env.sym(V.xt(kind), 'x', {}, (i,))
            yf = lambda j: env.sym(V.yt(kind), 'y', {}, (j,))
            st = V.stmt(kind, m, n)
            st = V.with_target(kind, st, V.equation(kind, st, xf, yf, m, n))
            return m, n, r, rng, crs, vec_fn(m, xf), vec_fn(n, yf), st

        def direct(sh, kind=kind, cap=cap, ver=ver, setup=setup):
            m, n, r, rng, crs, x, y, st = setup(sh)
            sh.call(cap, [st, x, y, crs, rng], run=r)
            pf = r.val
            sh.call(ver, [st, pf, crs], run=r)
            sh.is_true('verify(commit_and_prove(satisfying witness)) for %s' % kind, r.I.as_cond(r.val), ver, r.I.S)

        def steps(sh, kind=kind, prove=prove, ver=ver, bx=bx, by=by, setup=setup):
            m, n, r, rng, crs, x, y, st = setup(sh)
            sh.call(bx, [x, crs, rng], run=r)
            xc = r.val
            sh.call(by, [y, crs, rng], run=r)
            yc = r.val
            sh.call(prove, [st, x, y, xc, yc, crs, rng], run=r)
            ep = r.val
            pf = env.struct('CProof', 'pf', xcoms=xc, ycoms=yc, equ_proofs=vec_of(ep))
            sh.call(ver, [st, pf, crs], run=r)
            sh.is_true('verify(prove(commitments, satisfying witness)) for %s' % kind, r.I.as_cond(r.val), ver, r.I.S)
        lb = {'m': 1, 'n': 1}
        obs.append(Ob('%s: commit_and_prove then verify' % kind, 'completeness', direct, sizes2(env), lb))
        obs.append(Ob('%s: batch commit, prove, then verify' % kind, 'completeness', steps, sizes2(env), lb))
    return obs


# ---------------------------------------------------------------- C02
def binding_crs(env, V):
    """a CRS of the generated form with independent symbolic exponents"""
    A = lambda n, k: P(Atom(n, (), k))
    g1, g2 = A('g1', 'G1'), A('g2', 'G2')
    a1, a2, t1, t2 = (A(x, 'F') for x in ('a1', 'a2', 't1', 't2'))
    u = vec_of(env.com1(g1, a1 * g1), env.com1(t1 * g1, t1 * a1 * g1))
    v = vec_of(env.com2(g2, a2 * g2), env.com2(t2 * g2, t2 * a2 * g2))
    return env.struct('CRS', 'crs', u=u, v=v, g1_gen=g1, g2_gen=g2, gt_gen=g1 * g2), a1, a2


def c02(env):
    V = Vocab(env)
    obs = []
    for kind in KINDS:
        ver = env.method(kind, 'Verifiable', 'verify')

        def full(sh, kind=kind, ver=ver):
            m, n = sh.dim('m'), sh.dim('n')
            st, pf, crs = V.stmt(kind, m, n), V.cproof(kind, m, n), V.crs()
            r = sh.call(ver, [st, pf, crs])
            c = r.I.as_cond(r.val)
            eqs = V.verification(kind, st, pf, crs, m, n)
            want = c_and(*[c_eq0(e) for e in eqs.values()])
            sh.same_cond('%s acceptance' % kind, c, want, ver, r.I.S)

        def sound(sh, kind=kind, ver=ver):
            # extraction functional: weights (a1*a2, -a1, -a2, 1) over the components annihilate u and v
            m, n = sh.dim('m'), sh.dim('n')
            crs, a1, a2 = binding_crs(env, V)
            st, pf = V.stmt(kind, m, n), V.cproof(kind, m, n)
            eqs = V.verification(kind, st, pf, crs, m, n)
            w = {(0, 0): a1 * a2, (0, 1): -a1, (1, 0): -a2, (1, 1): ONE}
            f = sum((w[k] * e for k, e in eqs.items()), ZERO)
            xs, ys = SIDES[kind][:2]
            xc = V.get(V.get(pf, 'CProof', 'xcoms'), 'Commit1', 'coms')
            yc = V.get(V.get(pf, 'CProof', 'ycoms'), 'Commit2', 'coms')
            X = lambda i: V.c(V.at(xc, i), 1) - a1 * V.c(V.at(xc, i), 0)
            Y = lambda j: V.c(V.at(yc, j), 1) - a2 * V.c(V.at(yc, j), 0)
            g1, g2 = V.gen('X', crs), V.gen('Y', crs)
            # constants that are scalars are included through the generator of their side
            f1, f2 = (ONE if xs == 'G' else g1), (ONE if ys == 'G' else g2)
            g = V.get(st, kind, 'gamma')
            a, b = V.get(st, kind, 'a_consts'), V.get(st, kind, 'b_consts')
            e = SumF(n, lambda j: V.poly(V.at(a, P(j))) * f1 * Y(P(j)))
            e = e + SumF(m, lambda i: X(P(i)) * V.poly(V.at(b, P(i))) * f2)
            e = e + SumF(m, lambda i: SumF(n, lambda j: V.poly(V.at(g, P(i), P(j))) * X(P(i)) * Y(P(j))))
            t = V.poly(V.get(st, kind, 'target'))
            e = e - t * {'PPE': ONE, 'MSMEG1': g2, 'MSMEG2': g1, 'QuadEqu': g1 * g2}[kind]
            sh.same('%s: the extraction functional of the verification equation' % kind, f, e, ver)
        lb = {'m': 1, 'n': 1}
        obs.append(Ob('%s: verify is the verification equation' % kind, 'verifier decides exactly the four component equations', full, sizes2(env), lb))
        obs.append(Ob('%s: extraction under a binding key' % kind, 'the verification equation implies the equation on the extracted values', sound, sizes2(env), lb))
    return obs


# ---------------------------------------------------------------- C03
def uniform_g(p, kind):
    """draw behind a uniformly random group element"""
    a = one_draw(p)
    if a is not None and a.kind == kind:
        return a
    # exponent times a fixed generator
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if not m.binders and abs(c) == 1 and len(m.factors) == 2:
            d = [a for a, e in m.factors if a.name == 'draw' and a.kind == 'F' and e == 1]
            g = [a for a, e in m.factors if a.name.startswith('gen') and e == 1]
            if len(d) == 1 and len(g) == 1:
                return d[0]
    return None


def c03(env):
    V = Vocab(env)
    gen = env.method('CRS', 'AbstractCrs', 'generate_crs')

    def body(sh):
        r = sh.run()
        rng = r.rng()
        sh.call(gen, [rng], run=r)
        crs = r.val
        at = gen['at']
        g1, g2 = V.gen('X', crs), V.gen('Y', crs)
        d = {}

        def draw(name, p, ok):
            a = ok(p)
            if a is None:
                if tainted(p) or leaves(p):
                    raise_case(name, p, at)
                raise Bad('%s is not a uniform draw from the caller\'s generator' % name, 'one draw', show(p), at)
            if a.args[0] != 'rng':
                raise Bad('%s is drawn from another generator than the caller\'s' % name, 'rng', str(a.args[0]), at)
            for n2, b in d.items():
                if b.args[1].key == a.args[1].key:
                    raise Bad('%s and %s share one draw' % (name, n2), 'separate draws', a.key, at)
            d[name] = a
            sh.checked += 1
        draw('g1', g1, lambda p: uniform_g(p, 'G1'))
        draw('g2', g2, lambda p: uniform_g(p, 'G2'))
        for side, g, nm in (('X', g1, 'u'), ('Y', g2, 'v')):
            K = lambda i, c: V.key(side, crs, i, c)
            ln = vlen(V.get(crs, 'CRS', nm))
            sh.same('%s key length' % nm, ln, P(2), gen)
            sh.same('%s1.0 (published generator)' % nm, K(0, 0), g, gen)
            a = quotient(K(0, 1), g)
            if a is None:
                raise_case('%s1.1 as a multiple of the generator' % nm, K(0, 1), at)
            draw('a(%s)' % nm, a, one_scalar)
            t = quotient(K(1, 0), g)
            if t is None:
                raise_case('%s2.0 as a multiple of %s1.0' % (nm, nm), K(1, 0), at)
            draw('t(%s)' % nm, t, one_scalar)
            sh.same('%s2.1' % nm, K(1, 1), t * K(0, 1), gen)
        sh.same('gt_gen', V.poly(V.get(crs, 'CRS', 'gt_gen')), g1 * g2, gen)
    return [Ob('generate_crs', 'the CRS as a function of the generator stream', body, [{}])]


def one_scalar(p):
    a = one_draw(p)
    return a if a is not None and a.kind == 'F' else None


def raise_case(name, p, at):
    if tainted(p) and not leaves(p):
        raise Unsure('%s is not determined: %s' % (name, show(p)))
    lv = leaves(p)
    if any(opaque(c) for c in lv.values()):
        raise Unsure('%s is not determined: %s' % (name, show(p)))
    raise Bad('%s does not have the prescribed form' % name, None, show(p), at)


def quotient(p, g):
    """p = q*g for the group element g given as a single monomial"""
    if len(g.t) != 1:
        return None
    (gm, gc), = g.t.items()
    if abs(gc) != 1:
        return None
    acc = ZERO
    for m, c in p.t.items():
        d = dict(m.factors)
        for a, e in gm.factors:
            if d.get(a, 0) < e:
                return None
            d[a] -= e
            if not d[a]:
                del d[a]
        if m.binders:
            return None
        q = P(c * gc)
        for a, e in d.items():
            for _ in range(e):
                q = q * P(a)
        acc = acc + q
    return acc


# ---------------------------------------------------------------- C04
def c04(env):
    V = Vocab(env)
    obs = []
    for (side, sk), name in BATCH.items():
        fn = env.free(name)
        adt = 'Commit1' if side == 'X' else 'Commit2'

        def body(sh, side=side, sk=sk, fn=fn, adt=adt):
            n = sh.dim('n')
            crs = V.crs()
            g = ('G1' if side == 'X' else 'G2') if sk == 'G' else 'F'
            x = V.vals(g, 'x', n)
            r = sh.run()
            sh.call(fn, [x, crs, r.rng()], run=r)
            check_commit(sh, V, r, fn, adt, side, sk, n, lambda i: V.poly(V.at(x, i)), crs)
        obs.append(Ob(name, 'batch commitment = inclusion + key combination by the recorded row', body, sizes1(env), {'n': 1}))
    for (side, sk), name in SINGLE.items():
        fn = env.free(name)
        adt = 'Commit1' if side == 'X' else 'Commit2'

        def body1(sh, side=side, sk=sk, fn=fn, adt=adt):
            crs = V.crs()
            g = ('G1' if side == 'X' else 'G2') if sk == 'G' else 'F'
            x = env.sym(V.g(g), 'x', {})
            r = sh.run()
            sh.call(fn, [x, crs, r.rng()], run=r)
            check_commit(sh, V, r, fn, adt, side, sk, ONE, lambda i: x, crs)
        obs.append(Ob(name, 'commitment = inclusion + key combination by the recorded row', body1, [{}]))
    return obs


def check_commit(sh, V, r, fn, adt, side, sk, n, x, crs):
    coms, rand = V.get(r.val, adt, 'coms'), V.get(r.val, adt, 'rand')
    if not isinstance(coms, Vec) or not isinstance(rand, Vec):
        raise Unsure('result of %s not determined' % fn['path'])
    sh.same('number of commitments', vlen(coms), n, fn, r.I.S)
    sh.same('number of randomness rows', vlen(rand), n, fn, r.I.S)
    w = 2 if sk == 'G' else 1
    for i in each(n):
        row = V.at(rand, i)
        if not isinstance(row, Vec):
            raise Unsure('randomness row not determined')
        sh.same('width of randomness row', vlen(row), P(w), fn, r.I.S)
        sh.same('commitment[%s]' % show(i), V.at(coms, i), V.expected_commit(side, sk, x(i), row, crs), fn, r.I.S)


def each(n):
    k = P(n).const()
    if k is not None:
        return [P(i) for i in range(k)]
    return [P(fresh_ix(P(n)))]


# ---------------------------------------------------------------- C05
class Draws:
    """families of draw positions that must be pairwise distinct"""

    def __init__(self, sh, at):
        self.fam, self.sh, self.at = [], sh, at

    def add(self, label, p, ix=None, count=None):
        self.sh.checked += 1
        a = one_draw(p)
        if a is None:
            lv = leaves(p)
            if tainted(p) and not lv:
                raise Unsure('%s is not determined: %s' % (label, show(p)))
            if any(opaque(c) for c in lv.values()):
                raise Unsure('%s is not determined: %s' % (label, show(p)))
            raise Bad('%s is not one uniform draw from the caller\'s generator' % label, 'a fresh draw', show(p), self.at)
        if a.kind != 'F':
            raise Bad('%s is not a field element draw' % label, 'a fresh draw', a.key, self.at)
        if a.args[0] != 'rng':
            raise Bad('%s is drawn from another generator than the caller\'s' % label, 'rng', str(a.args[0]), self.at)
        pos = a.args[1]
        if ix is not None:
            # within the family: strictly monotone in the index
            le = pos.linear_in(ix)
            if le is None or le[0].const() is None:
                if ix.key not in pos.sup:
                    raise Bad('%s uses the same draw for every value' % label, 'a fresh draw per value', a.key, self.at)
                raise Unsure('draw position of %s' % label)
            if le[0].const() == 0:
                raise Bad('%s uses the same draw for every value' % label, 'a fresh draw per value', a.key, self.at)
        self.fam.append((label, pos, ix, count))

    def check(self):
        for i, (la, pa, xa, ca) in enumerate(self.fam):
            for lb, pb, xb, cb in self.fam[i + 1:]:
                self.sh.checked += 1
                d = pa - (pb if xb is None else pb.subst({xb: P(fresh_ix(cb))}))
                if d.is_zero():
                    raise Bad('%s and %s share one draw' % (la, lb), 'separate draws', 'draw %s' % show(pa), self.at)
                if apart(d):
                    continue
                raise Unsure('draws of %s and %s' % (la, lb))


def apart(d):
    k = d.const()
    if k is not None:
        return k != 0
    for q in (d, -d):
        lb = lower_bound(q)
        if lb is not None and lb > 0:
            return True
    # residues
    g = 0
    c0 = 0
    for m, c in d.t.items():
        if m.factors:
            g = gcd_(g, c)
        else:
            c0 = c
    return g > 1 and c0 % g != 0


def gcd_(a, b):
    a, b = abs(a), abs(b)
    while b:
        a, b = b, a % b
    return a


def blind_coeffs(V, side, sk, com, crs):
    """what the key elements are multiplied with in a commitment (first component), constants removed"""
    p = V.c(com, 0)
    out = []
    for k in range(2 if sk == 'G' else 1):
        (a,) = V.key(side, crs, k, 0).atoms()
        out.append(coeff(p, a))
    return out


def mask_coeff(p, atom):
    """part of the coefficient of a key element made of draws only"""
    acc = ZERO
    for m, c in p.t.items():
        d = dict(m.factors)
        if d.get(atom) != 1:
            continue
        del d[atom]
        if m.binders:
            continue
        if all(a.name in ('draw', 'rawdraw', 'ind', 'opq') for a in d):
            q = P(c)
            for a, e in d.items():
                for _ in range(e):
                    q = q * P(a)
            acc = acc + q
    return acc


def c05(env):
    V = Vocab(env)
    obs = []
    for table, batch in ((BATCH, True), (SINGLE, False)):
        for (side, sk), name in table.items():
            fn = env.free(name)
            adt = 'Commit1' if side == 'X' else 'Commit2'

            def body(sh, side=side, sk=sk, fn=fn, adt=adt, batch=batch):
                crs = V.crs()
                g = ('G1' if side == 'X' else 'G2') if sk == 'G' else 'F'
                n = sh.dim('n') if batch else ONE
                x = V.vals(g, 'x', n) if batch else env.sym(V.g(g), 'x', {})
                r = sh.run()
                sh.call(fn, [x, crs, r.rng()], run=r, may_abort=True)
                coms = V.get(r.val, adt, 'coms')
                D = Draws(sh, fn['at'])
                family(sh, V, D, 'commitment', side, sk, coms, n, crs)
                D.check()
            obs.append(Ob(name, 'blinding factors are fresh distinct draws', body, sizes1(env) if batch else [{}], {'n': 1}))
    for kind in KINDS:
        cap = env.method(kind, 'Provable', 'commit_and_prove')
        xs, ys, npi, nth = SIDES[kind]

        def body2(sh, kind=kind, cap=cap, xs=xs, ys=ys, npi=npi, nth=nth):
            m, n = sh.dim('m'), sh.dim('n')
            st, crs = V.stmt(kind, m, n), V.crs()
            x, y = V.vec(V.xt(kind), 'x', m), V.vec(V.yt(kind), 'y', n)
            r = sh.run()
            sh.call(cap, [st, x, y, crs, r.rng()], run=r, may_abort=True)
            pf = r.val
            D = Draws(sh, cap['at'])
            family(sh, V, D, 'X commitment', 'X', xs, V.get(V.get(pf, 'CProof', 'xcoms'), 'Commit1', 'coms'), m, crs)
            family(sh, V, D, 'Y commitment', 'Y', ys, V.get(V.get(pf, 'CProof', 'ycoms'), 'Commit2', 'coms'), n, crs)
            ep = V.at(V.get(pf, 'CProof', 'equ_proofs'), 0)
            th = V.get(ep, 'EquProof', 'theta')
            for l in range(nth):
                for k in range(npi):
                    (a,) = V.u(crs, k, 0).atoms()
                    q = mask_coeff(V.c(V.at(th, l), 0), a)
                    D.add('mask entry (%d,%d)' % (l, k), q)
            D.check()
        obs.append(Ob('%s::commit_and_prove' % kind, 'X, Y and proof randomness never share a draw', body2, sizes2(env), {'m': 1, 'n': 1}))
    return obs


def family(sh, V, D, label, side, sk, coms, n, crs):
    if not isinstance(coms, Vec):
        raise Unsure('commitments not determined')
    k = P(n).const()
    if k is not None:
        if vlen(coms).const() != k:
            raise Unsure('number of commitments')     # C04's concern
        for i in range(k):
            for j, q in enumerate(blind_coeffs(V, side, sk, V.at(coms, i), crs)):
                D.add('%s %d, factor %d' % (label, i, j), q)
        return
    ix = fresh_ix(n)
    for j, q in enumerate(blind_coeffs(V, side, sk, V.at(coms, P(ix)), crs)):
        D.add('%s i, factor %d' % (label, j), q, ix, n)


# ---------------------------------------------------------------- C06
def c06(env):
    V = Vocab(env)
    obs = []
    for kind in KINDS:
        prove = env.method(kind, 'Provable', 'prove')
        xs, ys, npi, nth = SIDES[kind]

        def body(sh, kind=kind, prove=prove, xs=xs, ys=ys, npi=npi, nth=nth):
            m, n = sh.dim('m'), sh.dim('n')
            st, crs = V.stmt(kind, m, n), V.crs()
            x, y = V.vec(V.xt(kind), 'x', m), V.vec(V.yt(kind), 'y', n)
            xc, yc = V.commit('X', xs, 'xc', m), V.commit('Y', ys, 'yc', n)
            r = sh.run()
            sh.call(prove, [st, x, y, xc, yc, crs, r.rng()], run=r, may_abort=True)
            if r.aborts:
                raise Unsure('prove aborts')
            pi, th = V.get(r.val, 'EquProof', 'pi'), V.get(r.val, 'EquProof', 'theta')
            if not isinstance(pi, Vec) or not isinstance(th, Vec):
                raise Unsure('proof not determined')
            sh.same('number of pi', vlen(pi), P(npi), prove, r.I.S)
            sh.same('number of theta', vlen(th), P(nth), prove, r.I.S)
            D = Draws(sh, prove['at'])
            T = {}
            for l in range(nth):
                for k in range(npi):
                    (a,) = V.u(crs, k, 0).atoms()
                    T[l, k] = mask_coeff(V.c(V.at(th, l), 0), a)
                    D.add('mask entry (%d,%d) of T' % (l, k), T[l, k])
            D.check()
            xr, yr = V.get(xc, 'Commit1', 'rand'), V.get(yc, 'Commit2', 'rand')
            wpi, wth = V.proof_terms(kind, st, lambda i: V.poly(V.at(x, i)), lambda j: V.poly(V.at(y, j)),
                                     lambda i, k: V.poly(V.at(xr, i, k)), lambda j, l: V.poly(V.at(yr, j, l)),
                                     lambda l, k: T[l, k], crs, m, n)
            sh.same('theta', th, wth, prove, r.I.S)
            sh.same('pi', pi, wpi, prove, r.I.S)
            sh.same('equ_type', V.get(r.val, 'EquProof', 'equ_type'), Struct(env.adt('EquType')['path'], TAG[kind], ()), prove, r.I.S)
        obs.append(Ob('%s::prove' % kind, 'proof elements against the Groth-Sahai formula, mask entries fresh', body, sizes2(env), {'m': 1, 'n': 1}))
    return obs


# ---------------------------------------------------------------- C07
def c07(env):
    V = Vocab(env)
    obs = []
    for (side, sk), name in BATCH.items():
        fb, fs = env.free(name), env.free(SINGLE[side, sk])
        adt = 'Commit1' if side == 'X' else 'Commit2'
        app = env.method(adt, 'Commit', 'append')

        def body(sh, side=side, sk=sk, fb=fb, fs=fs, adt=adt, app=app):
            n = sh.dim('n')
            crs = V.crs()
            g = ('G1' if side == 'X' else 'G2') if sk == 'G' else 'F'
            x = V.vals(g, 'x', n)
            rb = sh.run()
            cb = rb.rng()
            sh.call(fb, [x, crs, cb], run=rb)
            endb = rb.at(cb)
            if sh.sym:
                # draws of one single commitment
                r0 = sh.run()
                c0 = r0.rng()
                sh.call(fs, [env.sym(V.g(g), 'x', {}, (ZERO,)), crs, c0], run=r0)
                w = r0.at(c0).pos
                if w.const() is None:
                    raise Unsure('draws of one commitment not constant')
                coms, rand = V.get(rb.val, adt, 'coms'), V.get(rb.val, adt, 'rand')
                if not isinstance(coms, Vec) or not isinstance(rand, Vec):
                    raise Unsure('batch not determined')
                sh.same('number of commitments', vlen(coms), n, fb, rb.I.S)
                sh.same('number of randomness rows', vlen(rand), n, fb, rb.I.S)
                sh.same('generator state', endb, Rng('rng', n * w), fb, rb.I.S)
                ix = P(fresh_ix(n))
                r1 = sh.run()
                c1 = r1.rng(pos=ix * w)
                sh.call(fs, [V.at(x, ix), crs, c1], run=r1)
                sh.same('draws of one commitment', r1.at(c1), Rng('rng', ix * w + w), fs, r1.I.S)
                sh.same('single commitments', V.get(r1.val, adt, 'coms'), vec_of(V.at(coms, ix)), fs, r1.I.S)
                sh.same('single randomness', V.get(r1.val, adt, 'rand'), vec_of(V.at(rand, ix)), fs, r1.I.S)
                return
            r = sh.run()
            c = r.rng()
            acc = None
            for i in range(n.const()):
                sh.call(fs, [V.at(x, i), crs, c], run=r)
                if acc is None:
                    acc = r.cell(r.val)
                else:
                    o = r.cell(r.val)
                    sh.call(app, [acc, o], run=r)
            sh.same('batch against appended single commitments', rb.val, r.at(acc), fb, r.I.S)
            sh.same('generator state', endb, r.at(c), fb, r.I.S)
        obs.append(Ob(name, 'batch commitment = sequence of single commitments', body, sizes1(env), {'n': 1}))
    for adt in ('Commit1', 'Commit2'):
        app = env.method(adt, 'Commit', 'append')
        side = 'X' if adt == 'Commit1' else 'Y'

        def cat(sh, adt=adt, app=app, side=side):
            p, q = sh.dim('p'), sh.dim('q')
            a, b = V.commit(side, 'G', 'l', p), V.commit(side, 'G', 'r', q)
            r = sh.run()
            ca, cb = r.cell(a), r.cell(b)
            sh.call(app, [ca, cb], run=r)
            f = lambda v, n: V.get(v, adt, n)
            for n in ('coms', 'rand'):
                sh.same('%s of the result' % n, f(r.at(ca), n), vconcat(f(a, n), f(b, n)), app, r.I.S)
                sh.same('%s left behind' % n, f(r.at(cb), n), Vec([]), app, r.I.S)

        def mism(sh, adt=adt, app=app, side=side):
            d = {k: sh.dim(k) for k in ('p', 'p2', 'q', 'q2')}
            a = V.commit(side, 'G', 'l', d['p'], rows=d['p2'])
            b = V.commit(side, 'G', 'r', d['q'], rows=d['q2'])
            r = sh.run()
            sh.call(app, [r.cell(a), r.cell(b)], run=r, may_abort=True)
            must_abort(sh, r, app, [(d['p'], d['p2'], 'commitments and randomness of the list'),
                                    (d['q'], d['q2'], 'commitments and randomness of the appended list')])
        obs.append(Ob('%s::append' % adt, 'appending concatenates both parts and empties the other list', cat,
                      [{'p': p, 'q': q} for p in range(4) for q in range(4)], {'p': 0, 'q': 0}))
        obs.append(Ob('%s::append, out of step' % adt, 'appending out-of-step lists aborts', mism,
                      [{'p': a, 'p2': b, 'q': c, 'q2': d} for a in range(3) for b in range(3) for c in range(3) for d in range(3)]))
    return obs


def must_abort(sh, r, fn, pairs, result=None):
    """normal return implies the two sizes of every pair agree (result: the value that counts as refusal)"""
    sh.checked += 1
    if r.aborts:
        if not sh.sym and all(a.key == b.key for a, b, _ in pairs):
            pass
        return
    if not sh.sym:
        bad = [w for a, b, w in pairs if a.const() != b.const()]
        if not bad:
            return
        # every abort that was met is conditional: the call can return
        if result is not None and result(r):
            return
        if r.I.unknown or feasible(r.I.S.facts) is not True:
            raise Unsure('returns, under unconfirmed conditions')
        raise Bad('%s returns although %s disagree' % (fn['path'], ' and '.join(bad)), 'abort', vshow(r.val)[:300], fn['at'])
    if result is not None and result(r):
        return
    S = r.I.S
    for a, b, w in pairs:
        if S.known(c_eq(a, b)) is not True:
            raise Unsure('%s: return does not imply that %s agree' % (fn['path'], w))


# ---------------------------------------------------------------- C08
def c08(env):
    V = Vocab(env)
    obs = []
    for kind in KINDS:
        prove, cap = env.method(kind, 'Provable', 'prove'), env.method(kind, 'Provable', 'commit_and_prove')
        gt = env.method(kind, 'Equation', 'get_type')
        xs, ys, npi, nth = SIDES[kind]
        bx, by = env.free(BATCH['X', xs]), env.free(BATCH['Y', ys])

        def body(sh, kind=kind, prove=prove, cap=cap, bx=bx, by=by):
            m, n = sh.dim('m'), sh.dim('n')
            st, crs = V.stmt(kind, m, n), V.crs()
            x, y = V.vec(V.xt(kind), 'x', m), V.vec(V.yt(kind), 'y', n)
            r = sh.run()
            c = r.rng()
            sh.call(cap, [st, x, y, crs, c], run=r)
            pf, end = r.val, r.at(c)
            q = sh.run()
            d = q.rng()
            sh.call(bx, [x, crs, d], run=q)
            xc = q.val
            sh.call(by, [y, crs, d], run=q)
            yc = q.val
            sh.call(prove, [st, x, y, xc, yc, crs, d], run=q)
            sh.same('xcoms', V.get(pf, 'CProof', 'xcoms'), xc, cap, q.I.S)
            sh.same('ycoms', V.get(pf, 'CProof', 'ycoms'), yc, cap, q.I.S)
            sh.same('equ_proofs', V.get(pf, 'CProof', 'equ_proofs'), vec_of(q.val), cap, q.I.S)
            sh.same('generator state', end, q.at(d), cap, q.I.S)

        def typ(sh, kind=kind, gt=gt):
            st = V.stmt(kind, sh.dim('m'), sh.dim('n'))
            r = sh.call(gt, [st])
            sh.same('get_type', r.val, Struct(env.adt('EquType')['path'], TAG[kind], ()), gt, r.I.S)

        def ptyp(sh, kind=kind, prove=prove):
            m, n = sh.dim('m'), sh.dim('n')
            st, crs = V.stmt(kind, m, n), V.crs()
            x, y = V.vec(V.xt(kind), 'x', m), V.vec(V.yt(kind), 'y', n)
            xs, ys = SIDES[kind][:2]
            r = sh.run()
            sh.call(prove, [st, x, y, V.commit('X', xs, 'xc', m), V.commit('Y', ys, 'yc', n), crs, r.rng()], run=r, may_abort=True)
            if r.aborts:
                raise Unsure('prove aborts')
            sh.same('equ_type of the proof', V.get(r.val, 'EquProof', 'equ_type'), Struct(env.adt('EquType')['path'], TAG[kind], ()), prove, r.I.S)
        lb = {'m': 1, 'n': 1}
        obs.append(Ob('%s::commit_and_prove' % kind, 'commit_and_prove = batch commit X, batch commit Y, prove', body, sizes2(env), lb))
        obs.append(Ob('%s::get_type' % kind, 'kind of the equation', typ, [{'m': 1, 'n': 1}]))
        obs.append(Ob('%s::prove, kind' % kind, 'kind of the proof', ptyp, [{'m': 1, 'n': 1}, {'m': 2, 'n': 3}, {'m': 3, 'n': 1}], lb))
    return obs


# ---------------------------------------------------------------- C17
def c17(env, thorough=False):
    V = Vocab(env)
    obs = []
    for kind in KINDS:
        ver = env.method(kind, 'Verifiable', 'verify')
        xs, ys, npi, nth = SIDES[kind]

        def run(sh, kind, m, n, **kw):
            st, crs = V.stmt(kind, m, n), V.crs()
            pf = V.cproof(kind, m, n, **kw)
            r = sh.run()
            r.call(ver_of[kind], [st, pf, crs])
            return r

        def refused(r):
            return isinstance(r.val, Cond) and r.I.pred(r.val) is FALSE

        def dev(sh, kind=kind, ver=ver, npi=npi, nth=nth):
            """every count of the proof object is independent of the statement"""
            d = {k: sh.dim(k) for k in ('m', 'n', 'x', 'y', 'e', 'pi', 'th', 'k')}
            kw = {'xcoms.coms': d['x'], 'ycoms.coms': d['y'], 'equ_proofs': d['e'],
                  'equ_proofs.pi[]': d['pi'], 'equ_proofs.theta[]': d['th']}
            if not sh.sym:
                kw['equ_proofs.equ_type#'] = d['k'].const()
            else:
                kw['equ_proofs.equ_type#'] = None
            st, crs = V.stmt(kind, d['m'], d['n']), V.crs()
            pf = V.cproof(kind, d['m'], d['n'], **kw)
            r = sh.run()
            r.call(ver, [st, pf, crs])
            pairs = [(d['e'], ONE, 'the number of equation proofs and 1'),
                     (d['x'], d['m'], 'the number of X commitments and X variables'),
                     (d['y'], d['n'], 'the number of Y commitments and Y variables'),
                     (d['pi'], P(npi), 'the number of pi elements and %d' % npi),
                     (d['th'], P(nth), 'the number of theta elements and %d' % nth)]
            if sh.sym:
                ep = V.at(V.get(pf, 'CProof', 'equ_proofs'), 0)
                tg = V.get(ep, 'EquProof', 'equ_type')
                if not r.aborts and not refused(r):
                    pairs.append((P(tg.var), P(TAG[kind]), 'the proof kind and the statement kind'))
            else:
                pairs.append((d['k'], P(TAG[kind]), 'the proof kind and the statement kind'))
            must_abort(sh, r, ver, pairs, refused)
        base = [(1, 1), (2, 1), (1, 2), (2, 2), (2, 3), (3, 2)]
        shapes = []
        for m, n in base:
            ok_ = dict(m=m, n=n, x=m, y=n, e=1, pi=npi, th=nth, k=TAG[kind])
            alt = {'x': sorted({0, 1, 2, 3, m - 1, m + 1, n} - {m}), 'y': sorted({0, 1, 2, 3, n - 1, n + 1, m} - {n}),
                   'e': [0, 2, 3], 'pi': [x for x in range(5) if x != npi], 'th': [x for x in range(5) if x != nth],
                   'k': [x for x in range(4) if x != TAG[kind]]}
            ks = list(alt)
            for a in ks:
                for v in alt[a]:
                    shapes.append(dict(ok_, **{a: v}))
            pairs = [(a, b) for i, a in enumerate(ks) for b in ks[i + 1:]]
            for a, b in pairs:
                if not thorough and (m, n) not in ((1, 1), (2, 1), (2, 2)):
                    continue
                for v in alt[a][:3 if not thorough else None]:
                    for w in alt[b][:3 if not thorough else None]:
                        shapes.append(dict(ok_, **{a: v, b: w}))
        obs.append(Ob('%s::verify' % kind, 'acceptance implies the prescribed counts and kind', dev, shapes, {'m': 1, 'n': 1}, budget=200))
        zero = []
        for m, n in ((0, 0), (0, 1), (1, 0), (0, 2), (2, 0)):
            ok_ = dict(m=m, n=n, x=m, y=n, e=1, pi=npi, th=nth, k=TAG[kind])
            zero.append(ok_)
            for a, vs in (('x', (0, 1, 2)), ('y', (0, 1, 2)), ('e', (0, 2)), ('pi', (0, 1, 2, 3)), ('th', (0, 1, 2, 3)), ('k', (0, 1, 2, 3))):
                zero += [dict(ok_, **{a: v}) for v in vs if v != ok_[a]]
        obs.append(Ob('%s::verify, no variables' % kind, 'acceptance implies the prescribed counts and kind', dev, zero, sym=False, budget=200))
    return obs


ver_of = {}


# ---------------------------------------------------------------- C18
def c18(env, thorough=False):
    V = Vocab(env)
    obs = []
    for kind in KINDS:
        prove = env.method(kind, 'Provable', 'prove')
        xs, ys, npi, nth = SIDES[kind]
        names = ('x', 'y', 'xr', 'yr', 'xw', 'yw', 'gr', 'gc', 'a', 'b')

        def dev(sh, kind=kind, prove=prove, xs=xs, ys=ys):
            d = {k: sh.dim(k) for k in names}
            st = V.stmt(kind, d['x'], d['y'], a=d['a'], b=d['b'], rows=d['gr'], cols=d['gc'])
            crs = V.crs()
            x, y = V.vec(V.xt(kind), 'x', d['x']), V.vec(V.yt(kind), 'y', d['y'])
            xc = V.commit('X', xs, 'xc', d['xr'], width=d['xw'])
            yc = V.commit('Y', ys, 'yc', d['yr'], width=d['yw'])
            r = sh.run()
            r.call(prove, [st, x, y, xc, yc, crs, r.rng()])
            w = lambda s: P(2 if s == 'G' else 1)
            pairs = [(d['xr'], d['x'], 'X openings and X variables'), (d['yr'], d['y'], 'Y openings and Y variables'),
                     (d['gr'], d['x'], 'rows of the coefficient matrix and X variables'),
                     (d['gc'], d['y'], 'columns of the coefficient matrix and Y variables'),
                     (d['a'], d['y'], 'constants of the Y variables and Y variables'),
                     (d['b'], d['x'], 'constants of the X variables and X variables'),
                     (d['xw'], w(xs), 'the kind of X commitments and the X side of the equation'),
                     (d['yw'], w(ys), 'the kind of Y commitments and the Y side of the equation')]
            must_abort(sh, r, prove, pairs)
        shapes = []
        for m, n in [(1, 1), (2, 1), (1, 2), (2, 2), (2, 3), (3, 2), (3, 3)]:
            wx, wy = (2 if xs == 'G' else 1), (2 if ys == 'G' else 1)
            ok_ = dict(x=m, y=n, xr=m, yr=n, xw=wx, yw=wy, gr=m, gc=n, a=n, b=m)
            alt = {k: [v for v in (0, 1, 2, 3, 4) if v != ok_[k]] for k in names}
            alt['xw'], alt['yw'] = [3 - wx], [3 - wy]
            for k in ('gc', 'xr', 'yr'):
                pass
            for k in names:
                for v in alt[k]:
                    shapes.append(dict(ok_, **{k: v}))
            # two sites deviating together in the same way (a coherent but wrong pair)
            groups = [('x', 'xr', 'gr', 'b'), ('y', 'yr', 'gc', 'a')]
            for g in groups:
                for i, k1 in enumerate(g):
                    for k2 in g[i + 1:]:
                        for v in alt[k1]:
                            shapes.append(dict(ok_, **{k1: v, k2: v}))
                for k1 in g:
                    # everything but one
                    for v in alt[k1]:
                        shapes.append(dict(ok_, **{k: v for k in g if k != k1}))
            shapes.append(dict(ok_, gr=n, gc=m, a=m, b=n))
            shapes.append(dict(ok_, xw=3 - wx, yw=3 - wy))
            # the two sides exchanged, or deviating so that sums or products still agree
            sides = [('gr', 'gc'), ('a', 'b'), ('x', 'y'), ('xr', 'yr')]
            for i, (k1, k2) in enumerate(sides):
                p, q = ok_[k1], ok_[k2]
                for v, w in {(q, p), (p + 1, q - 1), (p - 1, q + 1), (p * q, 1), (1, p * q)} - {(p, q)}:
                    if v >= 0 and w >= 0:
                        shapes.append(dict(ok_, **{k1: v, k2: w}))
                for l1, l2 in sides[i + 1:]:
                    shapes.append(dict(ok_, **{k1: q, k2: p, l1: ok_[l2], l2: ok_[l1]}))
            if thorough:
                for i, k1 in enumerate(names):
                    for k2 in names[i + 1:]:
                        for v in alt[k1]:
                            for w in alt[k2]:
                                shapes.append(dict(ok_, **{k1: v, k2: w}))
        seen, sh2 = set(), []
        for s in shapes:
            k = tuple(sorted(s.items()))
            if k not in seen:
                seen.add(k)
                sh2.append(s)
        obs.append(Ob('%s::prove' % kind, 'a returned proof implies consistent inputs', dev, sh2, {k: 1 for k in names}, budget=200))
        zero = [s for s in sh2 if 0 in s.values()]
        obs.append(Ob('%s::prove, empty inputs' % kind, 'a returned proof implies consistent inputs', dev, zero, sym=False, budget=200))
    return obs
