"""C09-C14, C20: commitment-group arithmetic, pairing, inclusion maps, matrices, conversions, equality."""
from common import *
from p_proof import must_abort, each

GROUPS = ('Com1', 'Com2', 'ComT')
COMP = {'Com1': 'G1', 'Com2': 'G2', 'ComT': 'GT'}


def ncomp(env, adt):
    n = len(env.fields(adt))
    return n


def esym(env, adt, name, idx=()):
    return env.sym(env.ty(adt), name, {}, idx)


def comps(V, v, k):
    return [V.c(v, i) for i in range(k)]


def local_impls(env, adt, traits):
    """impls of a (possibly by-reference) local type for a trait path ending"""
    out = []
    for i in env.p.impls:
        t = i['trait']
        if t is None or t.split('::')[-1] not in traits:
            continue
        s = strip(i['self'])
        if s['k'] == 'adt' and s['path'].split('::')[-1] == adt:
            out.append(i)
    return out


def rhs_of(i):
    t = [x for x in (i.get('targs') or [])[1:] if x is not None]
    return strip(t[0]) if t else None


def same_adt(t, adt):
    return t is not None and t['k'] == 'adt' and t['path'].split('::')[-1] == adt


def fns_of(env, i, names=None):
    return [(it['name'], env.p.fns[it['did']]) for it in i['items']
            if it['kind'] == 'AssocFn' and it['did'] in env.p.fns and (names is None or it['name'] in names)]


# ---------------------------------------------------------------- C09
def c09(env):
    V = Vocab(env)
    obs = []
    ops = {'Add': ('add', lambda a, b: a + b), 'Sub': ('sub', lambda a, b: a - b)}
    asg = {'AddAssign': ('add_assign', lambda a, b: a + b), 'SubAssign': ('sub_assign', lambda a, b: a - b)}
    for adt in GROUPS:
        k = ncomp(env, adt)
        path = env.adt(adt)['path']
        el = lambda ps, path=path: Struct(path, 0, ps)

        def need(trait, adt=adt):
            r = local_impls(env, adt, (trait,))
            if not r:
                raise Missing('%s for %s' % (trait, adt))
            return r

        for trait, (name, f) in list(ops.items()) + list(asg.items()):
            for i in need(trait):
                rt = rhs_of(i) or strip(i['self'])
                if not same_adt(rt, adt):
                    continue
                for nm, fn in fns_of(env, i, (name,)):
                    def body(sh, adt=adt, fn=fn, f=f, k=k, el=el, assign=trait in asg, nm=nm):
                        x, y = esym(env, adt, 'x'), esym(env, adt, 'y')
                        want = el([f(V.c(x, c), V.c(y, c)) for c in range(k)])
                        r = sh.run()
                        if assign:
                            cell = r.cell(x)
                            sh.call(fn, [cell, y], run=r)
                            sh.same('%s: assigned value' % nm, r.at(cell), want, fn, r.I.S)
                        else:
                            sh.call(fn, [x, y], run=r)
                            sh.same('%s: result' % nm, r.val, want, fn, r.I.S)
                        # equal operands (doubling / cancelling) are an instance of the same formula
                        r2 = sh.run()
                        if assign:
                            cell = r2.cell(x)
                            sh.call(fn, [cell, x], run=r2)
                            v = r2.at(cell)
                        else:
                            sh.call(fn, [x, x], run=r2)
                            v = r2.val
                        sh.same('%s: result for equal operands' % nm, v, el([f(V.c(x, c), V.c(x, c)) for c in range(k)]), fn, r2.I.S)
                    obs.append(Ob('%s::%s' % (adt, fn['path'].split(' as ')[-1][:60]), 'componentwise group operation', body, [{}]))
        for i in need('Neg'):
            for nm, fn in fns_of(env, i, ('neg',)):
                def bneg(sh, adt=adt, fn=fn, k=k, el=el):
                    x = esym(env, adt, 'x')
                    r = sh.call(fn, [x])
                    sh.same('neg', r.val, el([-V.c(x, c) for c in range(k)]), fn, r.I.S)
                obs.append(Ob('%s::neg' % adt, 'componentwise group operation', bneg, [{}]))
        for i in need('Zero'):
            for nm, fn in fns_of(env, i):
                def bzero(sh, adt=adt, fn=fn, k=k, el=el, nm=nm):
                    x = esym(env, adt, 'x')
                    if nm == 'zero':
                        r = sh.call(fn, [])
                        sh.same('zero', r.val, el([ZERO] * k), fn, r.I.S)
                    elif nm == 'is_zero':
                        r = sh.call(fn, [x])
                        sh.same_cond('is_zero', r.I.as_cond(r.val), c_and(*[c_eq0(V.c(x, c)) for c in range(k)]), fn, r.I.S)
                    elif nm == 'set_zero':
                        r = sh.run()
                        c = r.cell(x)
                        sh.call(fn, [c], run=r)
                        sh.same('set_zero', r.at(c), el([ZERO] * k), fn, r.I.S)
                obs.append(Ob('%s::%s' % (adt, nm), 'group identity', bzero, [{}]))
        for i in need('Sum'):
            for nm, fn in fns_of(env, i, ('sum',)):
                def bsum(sh, adt=adt, fn=fn, k=k, el=el, loose=False):
                    n = sh.dim('n')
                    xs = V.vec(env.ty(adt), 'x', n)
                    it = It('vec', xs)
                    if loose:
                        it = It('filter', it, interp.PyFn(lambda *a: TRUE))
                    r = sh.call(fn, [it])
                    want = []
                    for c in range(k):
                        want.append(SumF(P(n), lambda j: V.c(V.at(xs, P(j)), c)))
                    sh.same('sum', r.val, el(want), fn, r.I.S)
                obs.append(Ob('%s::sum' % adt, 'sum of every element, any length', bsum, sizes1(env, 0)))
                obs.append(Ob('%s::sum, filtered iterator' % adt, 'sum of every element, length not announced',
                              lambda sh, f=bsum: f(sh, loose=True), sizes1(env, 0)))
        if adt != 'ComT':
            fn = env.method(adt, 'B1' if adt == 'Com1' else 'B2', 'scalar_mul')

            def bsm(sh, adt=adt, fn=fn, k=k, el=el):
                x, s = esym(env, adt, 'x'), env.sym(V.g('F'), 's', {})
                r = sh.call(fn, [x, s])
                sh.same('scalar_mul', r.val, el([s * V.c(x, c) for c in range(k)]), fn, r.I.S)
            obs.append(Ob('%s::scalar_mul' % adt, 'componentwise scalar multiple', bsm, [{}]))
    return obs


# ---------------------------------------------------------------- C10
def c10(env):
    V = Vocab(env)
    pr, ps = env.method('ComT', 'BT', 'pairing'), env.method('ComT', 'BT', 'pairing_sum')
    asm = env.method('ComT', 'BT', 'as_matrix')

    def pair(sh):
        x, y = esym(env, 'Com1', 'x'), esym(env, 'Com2', 'y')
        r = sh.call(pr, [x, y])
        sh.same('pairing', r.val, env.comt(*[V.c(x, a) * V.c(y, b) for a in range(2) for b in range(2)]), pr, r.I.S)
        # the same as a matrix: row by the first, column by the second argument
        sh.call(asm, [r.val], run=r)
        sh.same('pairing as matrix', r.val, vec_of(*[vec_of(*[V.c(x, a) * V.c(y, b) for b in range(2)]) for a in range(2)]), asm, r.I.S)

    def psum(sh):
        n = sh.dim('n')
        x, y = V.vec(env.ty('Com1'), 'x', n), V.vec(env.ty('Com2'), 'y', n)
        r = sh.call(ps, [x, y])
        want = []
        for a in range(2):
            for b in range(2):
                want.append(SumF(P(n), lambda j: V.c(V.at(x, P(j)), a) * V.c(V.at(y, P(j)), b)))
        sh.same('pairing_sum', r.val, env.comt(*want), ps, r.I.S)

    def mism(sh):
        n, m = sh.dim('n'), sh.dim('m')
        x, y = V.vec(env.ty('Com1'), 'x', n), V.vec(env.ty('Com2'), 'y', m)
        r = sh.run()
        r.call(ps, [x, y])
        must_abort(sh, r, ps, [(P(n), P(m), 'the lengths of the two lists')])
    ms = [{'n': a, 'm': b} for a in range(5) for b in range(5) if a != b] + [{'n': c, 'm': 1} for c in cuts(env)] + \
         [{'n': 1, 'm': c} for c in cuts(env)]
    return [Ob('pairing', 'tensor product of the components', pair, [{}]),
            Ob('pairing_sum', 'sum of pairwise pairings, any length', psum, sizes1(env, 0)),
            Ob('pairing_sum, unequal lengths', 'unequal lengths never return', mism, ms)]


# ---------------------------------------------------------------- C11
def c11(env):
    V = Vocab(env)
    B = {'X': ('Com1', 'B1'), 'Y': ('Com2', 'B2')}
    obs = []
    lm, slm = {}, {}
    for side, (adt, tr) in B.items():
        lm[side], slm[side] = env.method(adt, tr, 'linear_map'), env.method(adt, tr, 'scalar_linear_map')
        blm, bslm = env.method(adt, tr, 'batch_linear_map'), env.method(adt, tr, 'batch_scalar_linear_map')
        g = 'G1' if side == 'X' else 'G2'

        def one(sh, side=side, g=g, adt=adt):
            crs = V.crs()
            x, s = env.sym(V.g(g), 'x', {}), env.sym(V.g('F'), 's', {})
            r = sh.call(lm[side], [x])
            sh.same('linear_map', r.val, V.com(side, V.incl(side, 'G', x, crs)), lm[side], r.I.S)
            r = sh.call(slm[side], [s, crs])
            sh.same('scalar_linear_map', r.val, V.com(side, V.incl(side, 'F', s, crs)), slm[side], r.I.S)
        obs.append(Ob('%s inclusions' % adt, 'group elements as (0,x), scalars as x*(second key element + (0,generator))', one, [{}]))

        def many(sh, side=side, g=g, adt=adt, fn=blm):
            n = sh.dim('n')
            x = V.vals(g, 'x', n)
            crs = V.crs()
            r = sh.call(fn, [x])
            sh.same('batch_linear_map', r.val, vec_fn(P(n), lambda i: V.com(side, V.incl(side, 'G', V.poly(V.at(x, i)), crs))), fn, r.I.S)

        def smany(sh, side=side, adt=adt, fn=bslm):
            n = sh.dim('n')
            x = V.vals('F', 'x', n)
            crs = V.crs()
            r = sh.call(fn, [x, crs])
            sh.same('batch_scalar_linear_map', r.val, vec_fn(P(n), lambda i: V.com(side, V.incl(side, 'F', V.poly(V.at(x, i)), crs))), fn, r.I.S)
        obs.append(Ob('%s::batch_linear_map' % adt, 'the single map of every element, in order', many, sizes1(env, 0)))
        obs.append(Ob('%s::batch_scalar_linear_map' % adt, 'the single map of every element, in order', smany, sizes1(env, 0)))
    tmap = {'PPE': 'linear_map_PPE', 'MSMEG1': 'linear_map_MSMEG1', 'MSMEG2': 'linear_map_MSMEG2', 'QuadEqu': 'linear_map_quad'}
    pr = env.method('ComT', 'BT', 'pairing')
    for kind in KINDS:
        tm = env.method('ComT', 'BT', tmap[kind])
        xs, ys = SIDES[kind][:2]

        def comm(sh, kind=kind, tm=tm, xs=xs, ys=ys):
            crs = V.crs()
            x, y = env.sym(V.xt(kind), 'x', {}), env.sym(V.yt(kind), 'y', {})
            r = sh.run()

            def inc(side, sk, v):
                if sk == 'G':
                    sh.call(lm[side], [v], run=r)
                else:
                    sh.call(slm[side], [v, crs], run=r)
                return r.val
            a, b = inc('X', xs, x), inc('Y', ys, y)
            sh.call(pr, [a, b], run=r)
            left = r.val
            sh.call(tm, [x * y] if kind == 'PPE' else [x * y, crs], run=r)
            sh.same('%s of the product' % tmap[kind], r.val, left, tm, r.I.S)
        obs.append(Ob('%s: inclusions commute with the pairing' % kind, 'pairing(i1(x), i2(y)) = iT(x*y)', comm, [{}]))

        def form(sh, kind=kind, tm=tm):
            crs = V.crs()
            t = P(Atom('t', (), kind_of(env.fty(kind, 'target'))))
            r = sh.call(tm, [t] if kind == 'PPE' else [t, crs])
            w = V.target_incl(kind, t, crs)
            sh.same(tmap[kind], r.val, env.comt(*[w[(a, b)] for a in range(2) for b in range(2)]), tm, r.I.S)
        obs.append(Ob(tmap[kind], 'target inclusion', form, [{}]))
    return obs


# ---------------------------------------------------------------- matrices
def mats(env):
    """(name, self name for lookup, element type) of the three matrix instances"""
    V = Vocab(env)
    out = []
    for nm, key, t in (('field', 'Vec<Vec<param>>', V.g('F')), ('B1', 'Vec<Vec<Com1>>', env.ty('Com1')), ('B2', 'Vec<Vec<Com2>>', env.ty('Com2'))):
        out.append((nm, key, t))
    return out


def parts(V, v):
    """components of a matrix entry"""
    if isinstance(v, Struct):
        return [V.c(v, i) for i in range(len(v.f))]
    return [V.poly(v)]


def build(like, ps):
    return Struct(like.path, like.var, ps) if isinstance(like, Struct) else ps[0]


def mat(V, t, name, r, c):
    return vec_fn(P(r), lambda i: vec_fn(P(c), lambda j: V.e.sym(t, name, {}, (i, j))))


def shapes_n(env, names, lo=1, base=(1, 2, 3)):
    import itertools
    out = [dict(zip(names, x)) for x in itertools.product(base, repeat=len(names)) if min(x) >= lo]
    for c in cuts(env):
        for k in names:
            out.append({n: (c if n == k else 2) for n in names})
            if c <= 12:
                out.append({n: (1 if n == k else c) for n in names})
    return out


def c12(env):
    V = Vocab(env)
    obs = []
    for nm, key, t in mats(env):
        for side in ('left_mul', 'right_mul'):
            fn = env.method(key, 'Mat', side)

            def prod(sh, fn=fn, t=t, side=side, par=True):
                r, k, c = sh.dim('r'), sh.dim('k'), sh.dim('c')
                if side == 'left_mul':
                    lhs, rhs = mat(V, V.g('F'), 's', r, k), mat(V, t, 'x', k, c)
                    args = [rhs, lhs]
                else:
                    lhs, rhs = mat(V, t, 'x', r, k), mat(V, V.g('F'), 's', k, c)
                    args = [lhs, rhs]
                sample = V.at(rhs if side == 'left_mul' else lhs, 0, 0)
                n = len(parts(V, sample))

                def entry(i, j):
                    out = []
                    for q in range(n):
                        def term(l):
                            a, b = V.at(lhs, i, l), V.at(rhs, l, j)
                            if side == 'left_mul':
                                return V.poly(a) * parts(V, b)[q]
                            return parts(V, a)[q] * V.poly(b)
                        out.append(SumF(P(k), term))
                    return build(sample, out)
                want = vec_fn(P(r), lambda i: vec_fn(P(c), lambda j: entry(i, j)))
                run = sh.call(fn, args + [TRUE if par else FALSE])
                sh.same('%s (%s)' % (side, 'parallel' if par else 'serial'), run.val, want, fn, run.I.S)

            def nonconf(sh, fn=fn, t=t, side=side, par=True):
                r, k, l, c = sh.dim('r'), sh.dim('k'), sh.dim('l'), sh.dim('c')
                if side == 'left_mul':
                    args = [mat(V, t, 'x', l, c), mat(V, V.g('F'), 's', r, k)]
                else:
                    args = [mat(V, t, 'x', r, k), mat(V, V.g('F'), 's', l, c)]
                run = sh.run()
                run.call(fn, args + [TRUE if par else FALSE])
                must_abort(sh, run, fn, [(P(k), P(l), 'the inner dimensions')])

            def empty(sh, fn=fn, t=t, side=side, par=True):
                a, b, c, d = (sh.dim(x) for x in ('r', 'k', 'l', 'c'))
                if side == 'left_mul':
                    args = [mat(V, t, 'x', c, d), mat(V, V.g('F'), 's', a, b)]
                else:
                    args = [mat(V, t, 'x', a, b), mat(V, V.g('F'), 's', c, d)]
                run = sh.call(fn, args + [TRUE if par else FALSE])
                v = run.val
                if not isinstance(v, Vec):
                    raise Unsure('result not determined')
                if vlen(v).const() != 0:
                    sh.same('%s of an empty operand: number of rows' % side, vlen(v), ZERO, fn, run.I.S)
            for par in (True, False):
                p = 'parallel' if par else 'serial'
                obs.append(Ob('%s %s, %s' % (nm, side, p), 'entries are the sums of products', lambda sh, f=prod, par=par: f(sh, par=par),
                              shapes_n(env, ('r', 'k', 'c')), {'r': 1, 'k': 1, 'c': 1}))
                obs.append(Ob('%s %s, %s, non-conforming' % (nm, side, p), 'non-conforming inner dimensions never return',
                              lambda sh, f=nonconf, par=par: f(sh, par=par),
                              [s for s in shapes_n(env, ('r', 'k', 'l', 'c')) if s['k'] != s['l']], {x: 1 for x in 'rklc'}))
                z = [dict(r=a, k=b, l=c, c=d) for a in range(3) for b in range(3) for c in range(3) for d in range(3)
                     if 0 in (a, b, c, d)]
                # a matrix without rows has no columns either
                z = [s for s in z if (s['r'] or not s['k']) and (s['l'] or not s['c'])]
                obs.append(Ob('%s %s, %s, empty operand' % (nm, side, p), 'an empty operand yields the empty matrix',
                              lambda sh, f=empty, par=par: f(sh, par=par), z, sym=False))
    return obs


def c13(env):
    V = Vocab(env)
    obs = []
    for nm, key, t in mats(env):
        M = {x: env.method(key, 'Mat', x) for x in ('add', 'neg', 'scalar_mul', 'transpose')}

        def ew(f, *ms):
            def e(i, j):
                ps = [parts(V, V.at(m, i, j)) for m in ms]
                return build(V.at(ms[0], i, j), [f(*x) for x in zip(*ps)])
            return e

        def add(sh, fn=M['add'], t=t, ew=ew):
            r, c = sh.dim('r'), sh.dim('c')
            a, b = mat(V, t, 'x', r, c), mat(V, t, 'y', r, c)
            e = ew(lambda x, y: x + y, a, b)
            run = sh.call(fn, [a, b])
            sh.same('add', run.val, vec_fn(P(r), lambda i: vec_fn(P(c), lambda j: e(i, j))), fn, run.I.S)

        def neg(sh, fn=M['neg'], t=t, ew=ew):
            r, c = sh.dim('r'), sh.dim('c')
            a = mat(V, t, 'x', r, c)
            e = ew(lambda x: -x, a)
            run = sh.call(fn, [a])
            sh.same('neg', run.val, vec_fn(P(r), lambda i: vec_fn(P(c), lambda j: e(i, j))), fn, run.I.S)

        def smul(sh, fn=M['scalar_mul'], t=t, ew=ew):
            r, c = sh.dim('r'), sh.dim('c')
            a = mat(V, t, 'x', r, c)
            s = env.sym(V.g('F'), 's', {})
            e = ew(lambda x: x * s, a)
            run = sh.call(fn, [a, s])
            sh.same('scalar_mul', run.val, vec_fn(P(r), lambda i: vec_fn(P(c), lambda j: e(i, j))), fn, run.I.S)

        def trans(sh, fn=M['transpose'], t=t):
            r, c = sh.dim('r'), sh.dim('c')
            a = mat(V, t, 'x', r, c)
            run = sh.call(fn, [a])
            sh.same('transpose', run.val, vec_fn(P(c), lambda j: vec_fn(P(r), lambda i: V.at(a, i, j))), fn, run.I.S)

        def mism(sh, fn=M['add'], t=t):
            r, c, r2, c2 = (sh.dim(x) for x in ('r', 'c', 'r2', 'c2'))
            run = sh.run()
            run.call(fn, [mat(V, t, 'x', r, c), mat(V, t, 'y', r2, c2)])
            must_abort(sh, run, fn, [(P(r), P(r2), 'the numbers of rows'), (P(c), P(c2), 'the numbers of columns')])
        sz = shapes_n(env, ('r', 'c'), base=(1, 2, 3, 4))
        lb = {'r': 1, 'c': 1}
        for name, b in (('add', add), ('neg', neg), ('scalar_mul', smul), ('transpose', trans)):
            obs.append(Ob('%s %s' % (nm, name), 'entrywise, shape kept' if name != 'transpose' else 'entry (i,j) moves to (j,i)', b, sz, lb))
        obs.append(Ob('%s add, different shapes' % nm, 'different shapes never return', mism,
                      [s for s in shapes_n(env, ('r', 'c', 'r2', 'c2')) if (s['r'], s['c']) != (s['r2'], s['c2'])],
                      {x: 1 for x in ('r', 'c', 'r2', 'c2')}))
    return obs


# ---------------------------------------------------------------- C14
def c14(env):
    V = Vocab(env)
    obs = []
    v2c, c2v = env.free('vec_to_col_vec'), env.free('col_vec_to_vec')
    for nm, t in (('scalar', V.g('F')), ('group element', V.g('G1')), ('B1 element', env.ty('Com1'))):
        def rt(sh, t=t):
            n = sh.dim('n')
            x = V.vec(t, 'x', n)
            r = sh.call(v2c, [x])
            sh.same('vec_to_col_vec', r.val, vec_fn(P(n), lambda i: vec_of(V.at(x, i))), v2c, r.I.S)
            sh.call(c2v, [r.val], run=r)
            sh.same('col_vec_to_vec(vec_to_col_vec(x))', r.val, x, c2v, r.I.S)
        obs.append(Ob('list of %ss to column and back' % nm, 'round trip is the identity, any length', rt, sizes1(env, 0)))
    col = lambda *x: vec_of(*[vec_of(y) for y in x])
    for adt, tr in (('Com1', 'B1'), ('Com2', 'B2'), ('ComT', 'BT')):
        k = ncomp(env, adt)
        frm = [f for i in local_impls(env, adt, ('From',)) for n, f in fns_of(env, i, ('from',))
               if (rhs_of(i) or {}).get('k') == 'adt' and is_vec(rhs_of(i))]
        if not frm:
            raise Missing('From<Matrix> for %s' % adt)
        if adt == 'ComT':
            asm = env.method(adt, tr, 'as_matrix')
            forms = [('as_matrix', asm, lambda c: vec_of(vec_of(c[0], c[1]), vec_of(c[2], c[3])), (2, 2))]
        else:
            forms = [('as_col_vec', env.method(adt, tr, 'as_col_vec'), lambda c: col(*c), (2, 1)),
                     ('as_vec', env.method(adt, tr, 'as_vec'), lambda c: vec_of(*c), None)]
        for name, fn, want, _ in forms:
            def conv(sh, adt=adt, fn=fn, want=want, k=k, name=name):
                x = esym(env, adt, 'x')
                r = sh.call(fn, [x])
                sh.same(name, r.val, want([V.c(x, c) for c in range(k)]), fn, r.I.S)
            obs.append(Ob('%s::%s' % (adt, name), 'every component in its place', conv, [{}]))
        rows, cols = forms[0][3]
        for fn in frm:
            def back(sh, adt=adt, fn=fn, f0=forms[0][1], k=k):
                x = esym(env, adt, 'x')
                r = sh.call(f0, [x])
                sh.call(fn, [r.val], run=r)
                sh.same('from(%s)' % f0['path'].split('::')[-1], r.val, x, fn, r.I.S)

            def there(sh, adt=adt, fn=fn, f0=forms[0][1], rows=rows, cols=cols):
                m = mat(V, V.g(COMP[adt]), 'm', rows, cols)
                r = sh.call(fn, [m])
                sh.call(f0, [r.val], run=r)
                sh.same('matrix -> element -> matrix', r.val, m, f0, r.I.S)

            def wrong(sh, adt=adt, fn=fn, rows=rows, cols=cols):
                r0 = sh.dim('rows')
                ws = [sh.dim('w%d' % i) for i in range(2)]
                if sh.sym:
                    # both first rows independent; further rows arbitrary
                    raise Unsure('enumerated')
                g = V.g(COMP[adt])
                widths = [sh.dim('w%d' % i) for i in range(r0.const())]
                m = vec_of(*[vec_fn(w, lambda j, i=i: env.sym(g, 'm%d' % i, {}, (j,))) for i, w in enumerate(widths)])
                r = sh.run()
                r.call(fn, [m])
                pairs = [(r0, P(rows), 'the number of rows and %d' % rows)]
                pairs += [(w, P(cols), 'the length of row %d and %d' % (i, cols)) for i, w in enumerate(widths) if i < rows]
                must_abort(sh, r, fn, pairs)
            import itertools
            bad = []
            for n in range(0, 5):
                for ws in itertools.product(range(0, 5) if n <= 2 else (cols, cols + 1), repeat=n):
                    if n == rows and all(w == cols for w in ws):
                        continue
                    d = {'rows': n, 'w0': 0, 'w1': 0}
                    d.update({'w%d' % i: w for i, w in enumerate(ws)})
                    bad.append(d)

            def any_shape(sh, adt=adt, fn=fn, rows=rows, cols=cols):
                a, b = sh.dim('rows'), sh.dim('cols')
                r = sh.run()
                r.call(fn, [mat(V, V.g(COMP[adt]), 'm', a, b)])
                must_abort(sh, r, fn, [(P(a), P(rows), 'the number of rows and %d' % rows), (P(b), P(cols), 'the number of columns and %d' % cols)])
            obs.append(Ob('%s from its matrix form' % adt, 'round trip is the identity', back, [{}]))
            obs.append(Ob('%s to its matrix form' % adt, 'round trip is the identity', there, [{}]))
            obs.append(Ob('%s from a matrix of any rectangular shape' % adt, 'a wrong shape never returns', any_shape,
                          [{'rows': a, 'cols': b} for a in range(1, 6) for b in range(1, 6) if (a, b) != (rows, cols)], {'rows': 1, 'cols': 1}))
            obs.append(Ob('%s from ragged or empty matrices' % adt, 'a wrong shape never returns', wrong, bad, sym=False))
    return obs


# ---------------------------------------------------------------- C20
def twin(env, t, name):
    """a symbolic value of a local type with all list lengths its own"""
    return env.sym(t, name, {})


def c20(env):
    obs = []
    named = ('Com1', 'Com2', 'ComT', 'Commit1', 'Commit2', 'EquProof', 'CProof', 'EquType', 'PPE', 'MSMEG1', 'MSMEG2', 'QuadEqu')
    seen = set()
    for i in env.p.impls:
        if i['trait'] is None or not i['trait'].endswith('cmp::PartialEq'):
            continue
        s = strip(i['self'])
        if s['k'] != 'adt' or s['did'] not in env.p.adts:
            continue
        adt = s['path'].split('::')[-1]
        if adt not in named:
            continue
        seen.add(adt)
        for nm, fn in fns_of(env, i, ('eq', 'ne')):
            if adt == 'EquType':
                def ek(sh, fn=fn, s=s, nm=nm):
                    nv = len(env.adt('EquType')['variants'])
                    for a in range(nv):
                        for b in range(nv):
                            r = sh.call(fn, [Struct(s['path'], a, ()), Struct(s['path'], b, ())])
                            sh.same_cond('%s of kinds %d and %d' % (nm, a, b), r.I.as_cond(r.val), TRUE if (a == b) == (nm == 'eq') else FALSE, fn, r.I.S)
                obs.append(Ob('EquType::%s' % nm, 'equal exactly when the same kind', ek, [{}], sym=False))
                continue

            def body(sh, fn=fn, s=s, nm=nm, adt=adt):
                d1, d2 = dims_for(env, sh, s, 'x', 0), dims_for(env, sh, s, 'y', 1)
                x, y = env.sym(env.ty(adt), 'x', d1), env.sym(env.ty(adt), 'y', d2)
                r = sh.call(fn, [x, y])
                want = r.I.equal(x, y)
                sh.same_cond('%s on %s' % (nm, adt), r.I.as_cond(r.val), want if nm == 'eq' else c_not(want), fn, r.I.S)
            names = [n for n, _ in list_paths(env, env.ty(adt), '')]
            shapes = eq_shapes(env, names)
            obs.append(Ob('%s::%s' % (adt, nm), 'true exactly when every part is equal', body, shapes))
    for a in named:
        if a not in seen:
            raise Missing('PartialEq for %s' % a)
    return obs


def list_paths(env, t, name, depth=0):
    """(key, depth) of every list inside a type, named as in Env.sym"""
    t = strip(t)
    if kind_of(t) is not None:
        return
    if is_vec(t):
        key = name + '[]' * depth
        yield key, depth
        yield from list_paths(env, elem(t), name, depth + 1)
    elif t['k'] == 'adt' and t['did'] in env.p.adts:
        a = env.p.adts[t['did']]
        if len(a['variants']) == 1:
            for f in a['variants'][0]['fields']:
                yield from list_paths(env, f['ty'], '%s.%s' % (name, f['name']), depth)


def dims_for(env, sh, s, name, which):
    if sh.sym:
        return {}
    out = {}
    for key, d in list_paths(env, env.ty(s['path'].split('::')[-1]), ''):
        v = sh.sizes.get(key, None)
        w = v[which] if v else 1
        if isinstance(w, tuple):           # row lengths that differ from row to row
            out['*ragged'] = True
            out[name + key] = lambda *ix, w=w: w[int(ix[-1].const()) % len(w)]
        else:
            out[name + key] = w
    if not hasattr(sh, 'enum_done'):
        pass
    # kinds inside are compared symbolically
    return out


def eq_shapes(env, names):
    if not names:
        return [{}]
    out = []
    for l in (1, 2, 0, 3):
        out.append({n: (l, l) for n in names})
    for n in names:
        for a, b in ((1, 2), (2, 1), (0, 1), (1, 0), (2, 3), (3, 2)):
            out.append({k: ((a, b) if k == n else (max(1, min(a, b)),) * 2) for k in names})
        if n.endswith('[]'):               # the same entries, cut into rows differently
            for a, b in (((1, 2), (2, 1)), ((2, 0), (1, 1)), ((0, 1), (1, 0)), ((1, 1), (1, 1)), ((1, 2), (1, 2))):
                out.append({k: ((a, b) if k == n else (2, 2) if k == n[:-2] else (1, 1)) for k in names})
            out.append({k: (((2,), (1, 1)) if k == n else (1, 2) if k == n[:-2] else (1, 1)) for k in names})
            out.append({k: (((1, 1), (2,)) if k == n else (2, 1) if k == n[:-2] else (1, 1)) for k in names})
        for c in cuts(env):
            out.append({k: ((c, c) if k == n else (1, 1)) for k in names})
    return out
