"""Symbolic inputs for the library's types and one-shot analysis of a function."""
from poly import *
from values import *
import values as _v
import interp
from prog import Prog, kind_of, is_vec, elem, strip

EP = {'k': 'param', 'idx': 0, 'name': 'E'}


class Missing(Exception):
    """an anchor of the property is not in the program"""


class Env:
    def __init__(self, prog):
        self.p = prog

    # ---------------------------------------------------------------- types
    def adt(self, name):
        a = self.p.adt_named(name)
        if a is None:
            raise Missing('type %s' % name)
        return a

    def ty(self, name):
        a = self.adt(name)
        return {'k': 'adt', 'path': a['path'], 'did': a['did'], 'local': True, 'args': [EP] if a.get('generics', 1) else []}

    def fields(self, name):
        return self.adt(name)['variants'][0]['fields']

    def fix(self, name, field):
        fs = self.fields(name)
        for i, f in enumerate(fs):
            if f['name'] == field:
                return i
        # a private field may be renamed: take the only field that is not public
        priv = [i for i, f in enumerate(fs) if f['vis'] != 'pub']
        if field == 'rand' and len(priv) == 1:
            return priv[0]
        raise Missing('field %s.%s' % (name, field))

    def get(self, I, v, name, field):
        return I.val(I.getf(I.val(v), self.fix(name, field)))

    def fty(self, name, field):
        return self.fields(name)[self.fix(name, field)]['ty']

    def struct(self, name, base, **kw):
        """struct with given fields, others symbolic"""
        a = self.adt(name)
        given = {self.fix(name, k): v for k, v in kw.items()}
        out = []
        for i, f in enumerate(self.fields(name)):
            out.append(given[i] if i in given else self.sym(f['ty'], '%s.%s' % (base, f['name']), {}))
        return Struct(a['path'], 0, out)

    def sym(self, t, name, dims, idx=()):
        t = strip(t)
        k = kind_of(t)
        if k in ('F', 'G1', 'G2', 'GT', 'Fq'):
            return P(Atom(name, idx, k))
        if k == 'int':
            return P(Atom(name, idx, 'int'))
        if k == 'bool':
            return c_opq(name, *idx)
        if is_vec(t):
            key = name + '[]' * len(idx)
            n = dims.get(key)
            if n is None:
                n = P(Atom('len ' + key, idx, 'int'))
            elif callable(n):
                n = n(*idx)
            if '*ragged' in dims and P(n).const() is not None:
                return mkvec([(ONE, None, self.sym(elem(t), name, dims, idx + (P(k),))) for k in range(int(P(n).const()))])
            return vec_fn(P(n), lambda i: self.sym(elem(t), name, dims, idx + (i,)))
        if t['k'] == 'tuple':
            return tup(*[self.sym(x, '%s.%d' % (name, i), dims, idx) for i, x in enumerate(t['tys'])])
        if t['k'] == 'adt' and t['did'] in self.p.adts:
            a = self.p.adts[t['did']]
            if len(a['variants']) == 1:
                return Struct(a['path'], 0, [self.sym(f['ty'], '%s.%s' % (name, f['name']), dims, idx) for f in a['variants'][0]['fields']])
            if all(not v['fields'] for v in a['variants']):
                tag = dims.get(name + '#')
                if tag is not None:
                    return Struct(a['path'], tag, ())
                return Struct(a['path'], P(Atom(name + '#', idx, 'int')), ())
        if t['k'] == 'adt' and t['path'].endswith('PhantomData'):
            return UNIT
        return Opq('in ' + name, idx)

    def el(self, adt, *comps):
        return Struct(self.adt(adt)['path'], 0, [P(c) for c in comps])

    def com1(self, a, b):
        return self.el('Com1', a, b)

    def com2(self, a, b):
        return self.el('Com2', a, b)

    def comt(self, *c):
        return self.el('ComT', *c)

    # ---------------------------------------------------------------- functions
    def method(self, self_name, trait, name):
        r = self.p.method(self_name, trait, name)
        r = [x for x in r if x[1] is not None]
        if len(r) != 1:
            raise Missing('%s::%s for %s' % (trait, name, self_name))
        return r[0][1]

    def free(self, name):
        r = self.p.free_fns(name)
        if len(r) != 1:
            raise Missing('function %s' % name)
        return r[0]


class Run:
    """analysis of one call"""

    def __init__(self, env, facts=(), opts=None):
        self.env = env
        self.I = interp.Interp(env.p)
        if opts:
            self.I.opts.update(opts)
        for f in facts:
            self.I.S.add(f)
        self.val = None
        self.aborts = False

    def rng(self, stream='rng', pos=ZERO):
        return MRef(self.I.cell(Rng(stream, P(pos))), ())

    def cell(self, v):
        return MRef(self.I.cell(v), ())

    def call(self, fn, args, targs=None):
        try:
            self.val = self.I.val(self.I.call_fn(fn, targs, list(args)))
        except interp.Diverge:
            self.aborts = True
            self.val = None
        return self.val

    def at(self, r):
        return self.I.val(r)
