"""What the properties prescribe, written over the same abstract values the analysis produces."""
from poly import *
from values import *
from ob import *
from env import Env, Missing, EP
from prog import kind_of, is_vec, elem, strip

KINDS = ('PPE', 'MSMEG1', 'MSMEG2', 'QuadEqu')
# side kinds: group element ('G') or scalar ('F') on the X (G1) and Y (G2) side; number of pi, theta
SIDES = {'PPE': ('G', 'G', 2, 2), 'MSMEG1': ('G', 'F', 2, 1), 'MSMEG2': ('F', 'G', 1, 2), 'QuadEqu': ('F', 'F', 1, 1)}
VARIANT = {'PPE': 'PairingProduct', 'MSMEG1': 'MultiScalarG1', 'MSMEG2': 'MultiScalarG2', 'QuadEqu': 'Quadratic'}
TAG = {'PPE': 0, 'MSMEG1': 1, 'MSMEG2': 2, 'QuadEqu': 3}
BATCH = {('X', 'G'): 'batch_commit_G1', ('X', 'F'): 'batch_commit_scalar_to_B1',
         ('Y', 'G'): 'batch_commit_G2', ('Y', 'F'): 'batch_commit_scalar_to_B2'}
SINGLE = {('X', 'G'): 'commit_G1', ('X', 'F'): 'commit_scalar_to_B1',
          ('Y', 'G'): 'commit_G2', ('Y', 'F'): 'commit_scalar_to_B2'}


class Vocab:
    """symbolic inputs"""

    def __init__(self, env):
        self.e = env
        # position of each kind among the variants, by name
        names = [v['name'] for v in env.adt('EquType')['variants']]
        if len(names) != 4:
            raise Missing('the four variants of EquType')
        for k, n in VARIANT.items():
            if n in names:
                TAG[k] = names.index(n)

    # ------------------------------------------------------------ types
    def g(self, name):
        """type of the generator field: G1 / G2, scalar, target"""
        e = self.e
        return {'G1': lambda: e.fty('CRS', 'g1_gen'), 'G2': lambda: e.fty('CRS', 'g2_gen'),
                'F': lambda: e.fty('QuadEqu', 'target'), 'GT': lambda: e.fty('CRS', 'gt_gen')}[name]()

    def xt(self, kind):
        return self.g('G1' if SIDES[kind][0] == 'G' else 'F')

    def yt(self, kind):
        return self.g('G2' if SIDES[kind][1] == 'G' else 'F')

    def vec(self, t, name, n):
        return vec_fn(P(n), lambda i: self.e.sym(t, name, {}, (i,)))

    def vals(self, which, name, n):
        return self.vec(self.g(which), name, n)

    def crs(self, name='crs'):
        return self.e.sym(self.e.ty('CRS'), name, {name + '.u': 2, name + '.v': 2})

    def stmt(self, kind, m, n, name='st', a=None, b=None, rows=None, cols=None):
        return self.e.sym(self.e.ty(kind), name, {
            name + '.a_consts': n if a is None else a, name + '.b_consts': m if b is None else b,
            name + '.gamma': m if rows is None else rows, name + '.gamma[]': n if cols is None else cols})

    def cproof(self, kind, m, n, name='pf', **kw):
        npi, nth = SIDES[kind][2:]
        d = {name + '.xcoms.coms': m, name + '.ycoms.coms': n, name + '.equ_proofs': 1,
             name + '.equ_proofs.pi[]': npi, name + '.equ_proofs.theta[]': nth,
             name + '.equ_proofs.equ_type#': TAG[kind]}
        for k, v in kw.items():
            d[name + '.' + k] = v
        return self.e.sym(self.e.ty('CProof'), name, d)

    def commit(self, side, sk, name, n, width=None, rows=None):
        t = 'Commit1' if side == 'X' else 'Commit2'
        w = width if width is not None else (2 if sk == 'G' else 1)
        e = self.e
        f = [x['name'] for x in e.fields(t)]
        rn = f[e.fix(t, 'rand')]
        return e.sym(e.ty(t), name, {name + '.coms': n, '%s.%s' % (name, rn): n if rows is None else rows,
                                     '%s.%s[]' % (name, rn): w})

    # ------------------------------------------------------------ reading values
    def get(self, v, adt, field):
        if isinstance(v, Phi):
            return mkphi(v.c, self.get(v.a, adt, field), self.get(v.b, adt, field))
        if not isinstance(v, Struct):
            raise Unsure('%s is not determined: %s' % (adt, vshow(v)[:120]))
        return v.f[self.e.fix(adt, field)]

    def at(self, v, *ix):
        for i in ix:
            if isinstance(v, Phi):
                v = mkphi(v.c, vindex(v.a, P(i)) if isinstance(v.a, Vec) else v.a, vindex(v.b, P(i)) if isinstance(v.b, Vec) else v.b)
            elif isinstance(v, Vec):
                v = vindex(v, P(i))
            else:
                raise Unsure('not a determined list: %s' % vshow(v)[:100])
        return v

    def c(self, v, i):
        """component of a commitment-group element, as a polynomial"""
        if isinstance(v, Phi):
            return self.c(v.b, i) + ind(v.c) * (self.c(v.a, i) - self.c(v.b, i))
        if isinstance(v, Opq) and v.tag == 'oob':      # an element of an empty sum
            return as_poly(v)
        if not isinstance(v, Struct):
            raise Unsure('not a determined element: %s' % vshow(v)[:100])
        p = as_poly(v.f[i])
        if p is None:
            raise Unsure('component not determined')
        return p

    def poly(self, v):
        p = as_poly(v)
        if p is None:
            raise Unsure('not a determined value: %s' % vshow(v)[:100])
        return p

    # ------------------------------------------------------------ prescribed values
    def u(self, crs, i, c):
        return self.c(self.at(self.get(crs, 'CRS', 'u'), i), c)

    def v(self, crs, i, c):
        return self.c(self.at(self.get(crs, 'CRS', 'v'), i), c)

    def key(self, side, crs, i, c):
        return (self.u if side == 'X' else self.v)(crs, i, c)

    def gen(self, side, crs):
        return self.poly(self.get(crs, 'CRS', 'g1_gen' if side == 'X' else 'g2_gen'))

    def incl(self, side, sk, x, crs):
        """components of the inclusion of x"""
        if sk == 'G':
            return [ZERO, x]
        return [x * self.key(side, crs, 1, 0), x * (self.key(side, crs, 1, 1) + self.gen(side, crs))]

    def com(self, side, comps):
        return self.e.com1(*comps) if side == 'X' else self.e.com2(*comps)

    def expected_commit(self, side, sk, x, row, crs):
        w = 2 if sk == 'G' else 1
        i = self.incl(side, sk, x, crs)
        return self.com(side, [i[c] + sum((self.poly(self.at(row, j)) * self.key(side, crs, j, c) for j in range(w)), ZERO)
                               for c in range(2)])

    def equation(self, kind, st, X, Y, m, n):
        """value of the left-hand side for witness functions X(i), Y(j)"""
        g = self.get(st, kind, 'gamma')
        a, b = self.get(st, kind, 'a_consts'), self.get(st, kind, 'b_consts')
        t = SumF(n, lambda j: self.poly(self.at(a, P(j))) * Y(P(j)))
        t = t + SumF(m, lambda i: X(P(i)) * self.poly(self.at(b, P(i))))
        t = t + SumF(m, lambda i: SumF(n, lambda j: self.poly(self.at(g, P(i), P(j))) * X(P(i)) * Y(P(j))))
        return t

    def with_target(self, kind, st, t):
        f = list(st.f)
        f[self.e.fix(kind, 'target')] = t
        return Struct(st.path, st.var, f)

    def target_incl(self, kind, t, crs):
        """2x2 inclusion of the target"""
        xs, ys = SIDES[kind][:2]
        if kind == 'PPE':
            return {(0, 0): ZERO, (0, 1): ZERO, (1, 0): ZERO, (1, 1): t}
        if kind == 'MSMEG1':
            x, y = self.incl('X', 'G', t, crs), self.incl('Y', 'F', ONE, crs)
        elif kind == 'MSMEG2':
            x, y = self.incl('X', 'F', ONE, crs), self.incl('Y', 'G', t, crs)
        else:
            x, y = self.incl('X', 'F', ONE, crs), self.incl('Y', 'F', t, crs)
        return {(r, c): x[r] * y[c] for r in range(2) for c in range(2)}

    def verification(self, kind, st, pf, crs, m, n):
        """the four component equations lhs - rhs"""
        xs, ys, npi, nth = SIDES[kind]
        g = self.get(st, kind, 'gamma')
        a, b = self.get(st, kind, 'a_consts'), self.get(st, kind, 'b_consts')
        xc = self.get(self.get(pf, 'CProof', 'xcoms'), 'Commit1', 'coms')
        yc = self.get(self.get(pf, 'CProof', 'ycoms'), 'Commit2', 'coms')
        ep = self.at(self.get(pf, 'CProof', 'equ_proofs'), 0)
        pi, th = self.get(ep, 'EquProof', 'pi'), self.get(ep, 'EquProof', 'theta')
        tg = self.target_incl(kind, self.poly(self.get(st, kind, 'target')), crs)
        out = {}
        for r in range(2):
            for c in range(2):
                l = SumF(n, lambda j: self.incl('X', xs, self.poly(self.at(a, P(j))), crs)[r] * self.c(self.at(yc, P(j)), c))
                l = l + SumF(m, lambda i: self.c(self.at(xc, P(i)), r) * self.incl('Y', ys, self.poly(self.at(b, P(i))), crs)[c])
                l = l + SumF(m, lambda i: SumF(n, lambda j: self.poly(self.at(g, P(i), P(j))) * self.c(self.at(xc, P(i)), r) * self.c(self.at(yc, P(j)), c)))
                rh = tg[(r, c)]
                for k in range(npi):
                    rh = rh + self.u(crs, k, r) * self.c(self.at(pi, k), c)
                for k in range(nth):
                    rh = rh + self.c(self.at(th, k), r) * self.v(crs, k, c)
                out[(r, c)] = l - rh
        return out

    def proof_terms(self, kind, st, X, Y, R, S, T, crs, m, n):
        """prescribed pi (list over k of 2 comps) and theta, for randomness R(i,k), S(j,l) and mask T(l,k):
        pi_k    = sum_i R_ik i2(b_i) + sum_ij R_ik g_ij i2(y_j) + sum_l (sum_ij R_ik g_ij S_jl) v_l - sum_l T_lk v_l
        theta_l = sum_j S_jl i1(a_j) + sum_ij S_jl g_ij i1(x_i) + sum_k T_lk u_k"""
        xs, ys, npi, nth = SIDES[kind]
        g = self.get(st, kind, 'gamma')
        a, b = self.get(st, kind, 'a_consts'), self.get(st, kind, 'b_consts')
        G = lambda i, j: self.poly(self.at(g, P(i), P(j)))
        pi, th = [], []
        for k in range(npi):
            comps = []
            for c in range(2):
                p = SumF(m, lambda i: R(P(i), k) * self.incl('Y', ys, self.poly(self.at(b, P(i))), crs)[c])
                p = p + SumF(m, lambda i: SumF(n, lambda j: R(P(i), k) * G(i, j) * self.incl('Y', ys, Y(P(j)), crs)[c]))
                for l in range(nth):
                    p = p + SumF(m, lambda i: SumF(n, lambda j: R(P(i), k) * G(i, j) * S(P(j), l))) * self.v(crs, l, c)
                    p = p - T(l, k) * self.v(crs, l, c)
                comps.append(p)
            pi.append(self.e.com2(*comps))
        for l in range(nth):
            comps = []
            for c in range(2):
                p = SumF(n, lambda j: S(P(j), l) * self.incl('X', xs, self.poly(self.at(a, P(j))), crs)[c])
                p = p + SumF(m, lambda i: SumF(n, lambda j: S(P(j), l) * G(i, j) * self.incl('X', xs, X(P(i)), crs)[c]))
                for k in range(npi):
                    p = p + T(l, k) * self.u(crs, k, c)
                comps.append(p)
            th.append(self.e.com1(*comps))
        return vec_of(*pi), vec_of(*th)


# ---------------------------------------------------------------- randomness
def coeff(p, atom):
    """coefficient polynomial of a non-summed atom in p"""
    acc = ZERO
    for m, c in p.t.items():
        d = dict(m.factors)
        if d.get(atom) == 1:
            del d[atom]
            q = P(c)
            for a, e in d.items():
                for _ in range(e):
                    q = q * P(a)
            if m.binders:
                raise Unsure('summed coefficient')
            acc = acc + q
        elif atom in d:
            raise Unsure('nonlinear in %s' % atom.key)
    return acc


def SumF(n, f):
    """sum of f(i) for i in 0..n-1"""
    n = P(n)
    k = n.const()
    if k is not None:
        return addall([f(P(i)) for i in range(k)])
    ix = fresh_ix(n)
    return Sum(ix, n, f(P(ix)))


def one_draw(p):
    """the draw atom when p is (a non-zero constant times) one draw, else None"""
    if len(p.t) != 1:
        return None
    (m, c), = p.t.items()
    if m.binders or len(m.factors) != 1 or abs(c) != 1:
        return None
    a, e = m.factors[0]
    if e != 1 or a.name != 'draw':
        return None
    return a


def literals(prog):
    """integer literals of the library's code (sizes at which its behaviour may change)"""
    out = set()

    def walk(x):
        if isinstance(x, dict):
            if x.get('e') == 'lit' or x.get('p') in ('const', 'lit', 'range'):
                for k in ('v', 'n', 'val', 'value', 'lo', 'hi'):
                    v = x.get(k)
                    if isinstance(v, str) and v.isdigit():
                        v = int(v)
                    if isinstance(v, int) and not isinstance(v, bool):
                        out.add(v)
            for v in x.values():
                if isinstance(v, (dict, list)):
                    walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    for f in prog.fns.values():
        walk(f['body'])
    return out


def sizes2(env, extra=()):
    """shapes (m, n) >= 1 for the fallback"""
    base = [(1, 1), (2, 1), (1, 2), (2, 2), (2, 3), (3, 2), (3, 3), (4, 2), (2, 4), (5, 3), (3, 5)]
    base = [x for x in base] + list(extra)
    for c in cuts(env):
        base += [(c, 1), (1, c), (c, 2), (2, c), (c, c)] if c <= 12 else [(c, 2), (2, c)]
    seen, out = set(), []
    for x in base:
        if x not in seen:
            seen.add(x)
            out.append({'m': x[0], 'n': x[1]})
    return out


def cuts(env):
    s = set()
    for v in literals(env.p):
        if 4 <= v <= 40:
            s |= {v - 1, v, v + 1}
    return sorted(s)


def sizes1(env, lo=1, name='n'):
    s = set(range(lo, 7)) | set(cuts(env))
    return [{name: x} for x in sorted(s) if x >= lo]
