"""Abstract interpreter over the type-checked program (THIR).

One forward pass per function: branches fork the abstract state and are joined again at the merge
point (no path enumeration); calls to local functions are inlined; loops over iterators are
summarised by an inductive closed form that is verified before use (loops.py)."""
import sys
from poly import *
from values import *
import values as _v
from prog import Prog, tsub, kind_of, is_vec, elem, strip, unify

sys.setrecursionlimit(20000)


class Diverge(Exception):
    pass


class Undecided(Exception):
    def __init__(self, why):
        Exception.__init__(self, why)
        self.why = why


class State:
    __slots__ = ('store', 'facts', 'fk', 'eq', 'pc')

    def __init__(self):
        self.store = {}
        self.facts = []
        self.fk = set()
        self.eq = {}
        self.pc = ()

    def fork(self):
        s = State()
        s.store = dict(self.store)
        s.facts = list(self.facts)
        s.fk = set(self.fk)
        s.eq = dict(self.eq)
        s.pc = self.pc
        return s

    def norm(self, c):
        if self.eq:
            for _ in range(4):
                d = c.subst(self.eq) if isinstance(c, (Poly, Cond)) else vsub(c, self.eq)
                if d is c or (isinstance(c, (Poly, Cond)) and d.key == c.key):
                    break
                c = d
        return c

    def settle(self, p):
        """the number with the conditions it counts replaced where they are known"""
        p = self.norm(p)
        m = {}
        for x in p.atoms():
            if x.name == 'ind':
                d = self.known(x.args[0])
                if d is not None:
                    m[x] = ONE if d else ZERO
        return p.subst(m) if m else p

    def count_split(self, *ps):
        """a number that depends on a condition: treat the cases one by one"""
        for p in ps:
            for x in p.atoms():
                if x.name == 'ind' and self.known(x.args[0]) is None:
                    raise Split(x.args[0])

    def add(self, c):
        c = self.norm(c)
        if c is TRUE or c.key in self.fk:
            return
        if c.op == 'and':
            for x in c.args:
                self.add(x)
            return
        if c.op == 'or':
            rest = [x for x in c.args if self.known(x) is not False]
            if any(self.known(x) is True for x in rest):
                return
            if len(rest) < len(c.args):
                self.add(c_or(*rest))
                return
        self.facts.append(c)
        self.fk.add(c.key)
        if c.op == 'eq0':
            s = solve(c.args[0])
            if s is not None:
                m = {s[0]: s[1]}
                for k in list(self.eq):
                    self.eq[k] = self.eq[k].subst(m)
                self.eq[s[0]] = s[1]
                old = self.facts
                self.facts = []
                self.fk = set()
                for f in old:
                    if f is c:
                        self.facts.append(c)
                        self.fk.add(c.key)
                        continue
                    g = f.subst(m)
                    if g is not TRUE and g.key not in self.fk:
                        self.facts.append(g)
                        self.fk.add(g.key)
        # unit resolution of remembered disjunctions
        for f in list(self.facts):
            if f.op == 'or' and f is not c:
                rest = [x for x in f.args if self.known(x) is not False]
                if len(rest) < len(f.args) and f.key in self.fk:
                    self.facts.remove(f)
                    self.fk.discard(f.key)
                    self.add(c_or(*rest))

    def known(self, c):
        c = self.norm(c)
        r = decide(c)
        if r is not None:
            return r
        return self._known(c)

    def _known(self, c):
        if c.key in self.fk:
            return True
        n = c_not(c)
        if n.key in self.fk:
            return False
        o = c.op
        if o == 'not':
            r = self.known(c.args[0])
            return None if r is None else not r
        if o == 'and':
            rs = [self.known(x) for x in c.args]
            return False if False in rs else None if None in rs else True
        if o == 'or':
            rs = [self.known(x) for x in c.args]
            return True if True in rs else None if None in rs else False
        if o == 'ge0' and c.args[0].is_intlike():
            p = c.args[0]
            for q in self.ge0s():
                lb = lower_bound(p - q)
                if lb is not None and lb >= 0:
                    return True
                lb = lower_bound(-p - 1 - q)
                if lb is not None and lb >= 0:
                    return False
        if o == 'eq0' and c.args[0].is_intlike():
            p = c.args[0]
            for q in self.ge0s():
                lb = lower_bound(p - 1 - q)
                if lb is not None and lb >= 0:
                    return False
                lb = lower_bound(-p - 1 - q)
                if lb is not None and lb >= 0:
                    return False
        for f in self.facts:
            if f.op == 'all':
                r = self.inst(f, c)
                if r is not None:
                    return r
        return None

    def ge0s(self):
        for f in self.facts:
            if f.op == 'ge0':
                yield f.args[0]
            elif f.op == 'not' and f.args[0].op == 'ge0':
                yield -f.args[0].args[0] - 1

    def inst(self, f, c):
        b, cnt, body = f.args
        ixs = [k for k in c.sup if k[0] == 'i' and k in BOUNDS]
        for k in ixs:
            a = Atom.pool.get(k)
            if a is None or a.kind != 'ix':
                continue
            lb = lower_bound(cnt - 1 - P(a))
            if lb is None or lb < 0:
                continue
            g = body.subst({ix_atom(b): P(a)})
            for x in (g.args if g.op == 'and' else (g,)):
                if x.key == c.key:
                    return True
                if c_not(x).key == c.key:
                    return False
        return None


class Frame:
    __slots__ = ('fn', 'targs', 'env', 'targets', 'depth')

    def __init__(self, fn, targs, env, depth):
        self.fn, self.targs, self.env, self.depth = fn, targs, env, depth
        self.targets = []


class Target:
    __slots__ = ('id', 'exits', 'pclen', 'base', 'cut')

    def __init__(self, id, S):
        self.id = id
        self.exits = []
        self.cut = []
        self.pclen = len(S.pc)
        self.base = S


GENERIC = [False]             # only inputs in general position: quantities that need not be equal are not


def usual(c):
    """the truth of a condition in general position (None: no preference)"""
    if c.op == 'eq0':
        return None if c.args[0].is_intlike() else False
    if c.op == 'not':
        r = usual(c.args[0])
        return None if r is None else not r
    if c.op in ('and', 'or'):
        rs = [usual(x) for x in c.args]
        stop = c.op == 'or'
        return stop if stop in rs else None if None in rs else not stop
    return None


class Interp:
    def __init__(self, prog, conc=True):
        self.p = prog
        self.S = State()
        self.cells = 0
        self.panics = []          # (cond list, message, where)
        self.quiet = 0
        self.events = []
        self.shared = False
        self.nexits = 0
        self.fixed = False        # the sizes are given numbers
        self.partial = False      # some cases were set aside
        self.fnset = {}           # analysed local functions: did -> inlined count
        self.calls = 0
        self.unknown = {}
        self.conc = conc
        self.opts = {}
        self.frames = []
        self.log_ops = []
        self.cloid = 0
        import models
        self.models = models
        import loops
        self.loops = loops

    # ------------------------------------------------------------ state
    @property
    def S(self):
        return self._S

    @S.setter
    def S(self, s):
        self._S = s
        Ctx.state = s

    def cell(self, v):
        self.cells += 1
        self.S.store[self.cells] = v
        return self.cells

    def decide(self, c):
        return self.S.known(c)

    def pred(self, c):
        """condition normalised under the facts"""
        d = self.S.known(c)
        return TRUE if d is True else FALSE if d is False else self.S.norm(c)

    def push(self, c):
        self.S.pc = self.S.pc + (c,)
        self.S.add(c)

    def branch(self, c, ft, fe):
        d = self.decide(c)
        if d is True:
            return ft()
        if d is False:
            return fe()
        if GENERIC[0]:
            u = usual(c)
            if u is not None and not any(f.op == 'eq0' and not f.args[0].is_intlike() for f in self.S.facts):
                self.S.add(c if u else c_not(c))
                self.partial = True
                if self.decide(c) is u:
                    return ft() if u else fe()
        S0 = self.S
        Sa = S0.fork()
        self.S = Sa
        self.push(c)
        a = b = None
        try:
            a = ft()
            Sa = self.S
        except Diverge:
            Sa = None
        self.S = S0.fork()
        self.push(c_not(c))
        try:
            b = fe()
            Sb = self.S
        except Diverge:
            Sb = None
        if Sa is None and Sb is None:
            self.S = S0
            raise Diverge()
        if Sa is None or Sb is None:
            S, v = (Sb, b) if Sa is None else (Sa, a)
            S.pc = S0.pc
            self.S = S
            return v
        self.S, v = self.join(c, Sa, a, Sb, b, S0)
        return v

    def join(self, c, Sa, a, Sb, b, S0):
        """a under c, b otherwise"""
        S = State()
        S.pc = S0.pc
        S.facts = list(S0.facts)
        S.fk = set(S0.fk)
        S.eq = dict(S0.eq)
        self.S = S
        nc = c_not(c)
        for f in Sa.facts:
            if f.key not in S0.fk:
                if f.key in Sb.fk:
                    S.add(f)
                else:
                    S.add(c_or(nc, f))
        for f in Sb.facts:
            if f.key not in S0.fk and f.key not in Sa.fk:
                S.add(c_or(c, f))
        sa, sb = Sa.store, Sb.store
        st = S.store
        for k, x in sa.items():
            y = sb.get(k)
            if y is None or y is x:
                st[k] = x
            else:
                st[k] = merge(c, x, y)
        for k, y in sb.items():
            if k not in sa:
                st[k] = y
        v = a if a is b else merge(c, a, b)
        return S, v

    def merge_exits(self, t, has, val):
        """join the recorded exits of a target with the normal result (has: state is live)"""
        ex = t.exits
        if not ex:
            if not has:
                raise Diverge()
            return val
        ex = list(ex)
        base = t.base
        if has:
            cur, cv = self.S, val
        else:
            _, cur, cv = ex.pop()
        for c, S, v in reversed(ex):
            cur, cv = self.join(c, S, v, cur, cv, base)
        cur.pc = base.pc
        self.S = cur
        for c in t.cut:
            cur.add(c_not(c))
        return cv

    def record_exit(self, fr, id, val):
        for t in reversed(fr.targets):
            if t.id == id:
                self.nexits += 1
                t.exits.append((c_and(*self.S.pc[t.pclen:]), self.S, val))
                return
        raise Undecided('jump out of a closure')

    def panic(self, msg, at, cond=TRUE):
        if not self.quiet:
            self.panics.append((list(self.S.facts) + [cond], msg, at, self.where()))

    def where(self):
        return [f.fn['path'] if f.fn else '?' for f in self.frames[-6:]]

    def panic_if(self, c, msg, at):
        d = self.decide(c)
        if d is False:
            return
        if d is True:
            self.panic(msg, at)
            raise Diverge()
        self.panic(msg, at, self.S.norm(c))
        self.S.add(c_not(c))

    # ------------------------------------------------------------ memory
    def simp(self, v):
        while isinstance(v, Phi):
            d = self.decide(v.c)
            if d is True:
                v = v.a
            elif d is False:
                v = v.b
            else:
                break
        return v

    def load(self, r):
        v = self.simp(self.S.store[r.cell])
        for x in r.path:
            v = self.step(v, x)
        return v

    def step(self, v, x):
        if x[0] == 'f':
            return self.getf(v, x[1])
        if x[0] == 'i':
            return self.getix(v, x[1])
        if x[0] == 's':
            return self.getsl(v, x[1], x[2])
        raise Undecided('path')

    def dist(self, v, f):
        """apply a pure function below guarded choices"""
        v = self.simp(v)
        if isinstance(v, Phi):
            a, b = self.dist(v.a, f), self.dist(v.b, f)
            return merge(v.c, a, b)
        return f(v)

    def getf(self, v, i):
        def g(v):
            if isinstance(v, MRef):
                return g(self.load(v))
            if isinstance(v, Struct):
                if i < len(v.f):
                    return v.f[i]
                return Opq('field', (v,))
            return Opq('field%d' % i, (v,) if not isinstance(v, (MRef, Clo)) else ())
        return self.dist(v, g)

    def getix(self, v, p):
        def g(v):
            if isinstance(v, Vec):
                return vindex(v, p)
            if isinstance(v, Poly):              # a limb of the integer representation
                return P(Atom('opqlimb', (v, p), 'int'))
            return Opq('ix', (v, p))
        return self.dist(v, g)

    def getsl(self, v, lo, hi):
        def g(v):
            if isinstance(v, Vec):
                a, b = self.S.settle(lo), self.S.settle(hi)
                r = vslice(v, a, b)
                if r is None:
                    self.S.count_split(a, b)
                    raise Undecided('slice bounds')
                return r
            return Opq('slice', (v, lo, hi))
        return self.dist(v, g)

    def len_of(self, v):
        def g(v):
            if isinstance(v, MRef):
                return g(self.load(v))
            if isinstance(v, Vec):
                return vlen(v)
            return P(Atom('opqlen', (vkey(v),), 'int'))
        return as_poly(self.dist(v, g))

    def write(self, r, val):
        if not r.path:
            self.S.store[r.cell] = val
        else:
            self.S.store[r.cell] = self.put(self.S.store[r.cell], r.path, val)

    def put(self, v, path, val):
        if not path:
            return val
        v = self.simp(v)
        if isinstance(v, Phi):
            return merge(v.c, self.put(v.a, path, val), self.put(v.b, path, val))
        x = path[0]
        if x[0] == 'f' and isinstance(v, Struct):
            f = list(v.f)
            if x[1] >= len(f):
                return v
            f[x[1]] = self.put(f[x[1]], path[1:], val)
            return Struct(v.path, v.var, f)
        if x[0] == 'i' and isinstance(v, Vec):
            old = vindex(v, x[1])
            return vset(v, x[1], self.put(old, path[1:], val))
        if x[0] == 's' and isinstance(v, Vec):
            lo, hi = x[1], x[2]
            a, b, c = vslice(v, ZERO, lo), vslice(v, lo, hi), vslice(v, hi, vlen(v))
            if a is None or b is None or c is None:
                raise Undecided('slice store')
            n = self.put(b, path[1:], val)
            if not isinstance(n, Vec):
                raise Undecided('slice store')
            return vconcat(a, n, c)
        if isinstance(v, Opq) or isinstance(v, Poly):
            return Opq('havoc', (v,) if isinstance(v, Opq) else ())
        raise Undecided('store through %s' % (type(v).__name__,))

    def val(self, v):
        """dereference mutable references to a plain value"""
        while isinstance(v, MRef):
            v = self.load(v)
        v = self.simp(v)
        if isinstance(v, Phi) and has_mref(v):       # a choice of references: each is read where it was chosen
            return self.branch(v.c, lambda: self.val(v.a), lambda: self.val(v.b))
        return v

    def isub(self, r, x):
        return MRef(r.cell, r.path + (x,))

    # ------------------------------------------------------------ functions
    def call_fn(self, fn, targs, args, env=None):
        if len(self.frames) > 80:
            raise Undecided('call depth')
        self.calls += 1
        if self.calls > self.opts.get('maxcalls', 400000):
            raise Undecided('budget')
        self.fnset[fn['did']] = self.fnset.get(fn['did'], 0) + 1
        fr = Frame(fn, targs, dict(env) if env else {}, len(self.frames))
        start = self.cells
        self.frames.append(fr)
        t = Target('ret', self.S)
        fr.targets.append(t)
        ps = fn['params']
        try:
            try:
                for p, a in zip(ps, args):
                    if p['pat'] is not None:
                        self.bindp(p['pat'], a, None, fr)
                v = self.ev(fn['body'], fr)
                has = True
            except Diverge:
                v, has = None, False
            r = self.merge_exits(t, has, v)
        finally:
            self.frames.pop()
        self.gc(start, r)
        return r

    def gc(self, start, *vals):
        if any(refs(v) for v in vals):
            return
        st = self.S.store
        for k in [k for k in st if k > start]:
            del st[k]

    def call_clo(self, f, args):
        f = self.simp(f)
        if isinstance(f, MRef):
            f = self.load(f)
        if isinstance(f, Clo):
            fn = self.p.fns[f.did]
            ps = fn['params']
            if len(ps) == len(args) + 1:
                args = [None] + list(args)
            return self.call_fn(fn, f.targs, args, f.env)
        if isinstance(f, FnV):
            return self.call(f.callee, f.targs, list(args), f.callee.get('at', '?'), None)
        if isinstance(f, Phi):
            return self.branch(f.c, lambda: self.call_clo(f.a, args), lambda: self.call_clo(f.b, args))
        if isinstance(f, PyFn):
            return f.f(*args)
        if isinstance(f, Opq) and f.tag.startswith('in '):
            self.models.given(self, [f] + list(args), '?')
        self.havoc(args)
        return Opq('callopq', tuple(a for a in args if not isinstance(a, (MRef, Clo))))

    def havoc(self, args):
        for a in args:
            if isinstance(a, MRef):
                v = self.load(a)
                if isinstance(v, Opq) and v.tag.startswith('in '):
                    if not self.opts.get('still'):
                        self.write(a, Opq(v.tag, ('later',)))
                    continue
                self.write(a, Opq('havoc', ()))
            elif isinstance(a, Clo):
                raise Undecided('closure passed to unknown code')

    def call(self, callee, targs, args, at, ty):
        """callee: dumped callee record whose generic arguments are in the caller's terms (targs)"""
        cargs = [tsub(a, targs) if a is not None else None for a in callee['args']]
        if callee['kind'].startswith('Ctor'):
            return self.ctor(callee, args, ty)
        res = callee.get('res')
        if callee['local'] and callee['did'] in self.p.fns and not callee.get('trait'):
            return self.invoke(self.p.fns[callee['did']], cargs, args, callee)
        if res and res['local'] and res['did'] in self.p.fns and not res['path'].endswith('}'):
            h = self.models.override(self, callee, args)
            if h is not None:
                return h()
            rargs = [tsub(a, targs) if a is not None else None for a in res['args']]
            return self.invoke(self.p.fns[res['did']], rargs, args, callee)
        tr = callee.get('trait')
        if tr and cargs and cargs[0] is not None:
            hit = self.p.find_impl(tr, cargs[0], self.trait_args(tr, cargs))
            if hit is None and cargs[0]['k'] == 'ref':
                sty = strip(cargs[0])
                hit = self.p.find_impl(tr, sty, [sty] + list(cargs[1:]))
            if hit:
                imp, b = hit
                for it in imp['items']:
                    if it['name'] == callee['name'] and it['kind'] == 'AssocFn':
                        fn = self.p.fns.get(it['did'])
                        if fn is None:
                            break
                        ng = len(imp['generics'])
                        targs2 = [b.get(i) for i in range(ng)]
                        tn = self.tgen(tr)
                        rest = cargs[tn:] if tn is not None else []
                        return self.invoke(fn, targs2 + list(rest), args, callee)
            if tr in self.p.traits and callee['did'] in self.p.fns:
                return self.invoke(self.p.fns[callee['did']], cargs, args, callee)
        return self.models.call(self, callee, cargs, args, at, ty)

    def tgen(self, tr):
        t = self.p.traits.get(tr)
        if t:
            return len(t['generics'])
        return {'core::ops::arith::Add': 2, 'core::ops::arith::Sub': 2, 'core::ops::arith::Mul': 2}.get(tr, 1)

    def trait_args(self, tr, cargs):
        return cargs

    def invoke(self, fn, targs, args, callee=None):
        h = self.opts.get('hook')
        if h:
            r = h(self, fn, targs, args)
            if r is not None:
                return r[0]
        return self.call_fn(fn, targs, args)

    def ctor(self, callee, args, ty):
        path = callee['path']
        parts = path.split('::')
        a = self.p.adt_path.get(path)
        if a:
            return Struct(path, 0, args)
        par = '::'.join(parts[:-1])
        a = self.p.adt_path.get(par)
        if a:
            for i, v in enumerate(a['variants']):
                if v['name'] == parts[-1]:
                    return Struct(par, i, args)
        n = parts[-1]
        if par == 'alloc::borrow::Cow':
            return args[0]
        if n == 'Some':
            return some(args[0])
        if n == 'Ok':
            return ok(args[0])
        if n == 'Err':
            return err(args[0])
        return Struct(path, 0, args)

    # ------------------------------------------------------------ expressions
    def ev(self, e, fr):
        return getattr(self, 'e_' + e['e'], self.e_unsupported)(e, fr)

    def e_unsupported(self, e, fr):
        raise Undecided('construct %s' % e['e'])

    def e_scope(self, e, fr):
        inner = e['v']
        k = inner['e']
        if k in ('lit', 'var', 'field', 'ref', 'deref', 'call', 'adt', 'tuple', 'closure', 'zst', 'use', 'coerce', 'bin',
                 'return', 'break', 'cast', 'index', 'assign', 'assignop', 'array', 'un', 'scope'):
            return self.ev(inner, fr)
        t = Target(e['id'], self.S)
        fr.targets.append(t)
        try:
            try:
                v = self.ev(inner, fr)
                has = True
            except Diverge:
                v, has = None, False
        finally:
            fr.targets.remove(t)
        return self.merge_exits(t, has, v)

    def e_use(self, e, fr):
        return self.ev(e['v'], fr)

    e_coerce = e_use

    def e_cast(self, e, fr):
        v = self.val(self.ev(e['v'], fr))
        t = e['ty']
        f = e['v']['ty']
        if t['k'] == 'int' and f['k'] == 'adt':       # a field-less enum
            v = self.enum_number(v, f)
            f = {'k': 'int', 'name': 'u8'}
        p = as_poly(v)
        if t['k'] == 'int' and p is not None:
            return self.trunc(p, f, t)
        if t['k'] in ('int', 'float', 'bool') and not isinstance(v, Opq):
            return Opq('cast', (v,))
        return v

    def enum_number(self, v, t):
        a = self.p.adts.get(t['did'])
        if a is None or any(x.get('discr') is None for x in a['variants']):
            return Opq('cast', (v,))
        ds = [int(x['discr']) for x in a['variants']]

        def g(v):
            if not isinstance(v, Struct):
                return Opq('cast', (v,))
            if isinstance(v.var, int):
                return P(ds[v.var])
            if all(d == i for i, d in enumerate(ds)):
                return v.var
            r = P(ds[-1])
            for i, d in enumerate(ds[:-1]):
                r = r + ind(c_eq(v.var, P(i))) * (d - ds[-1])
            return r
        return self.dist(v, g)

    W = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128}

    def trunc(self, p, ft, t):
        w = self.W.get(t['name'])
        c = p.const()
        if c is not None and w:
            return P(c % (1 << w))
        fw = self.W.get(ft.get('name')) if ft['k'] == 'int' else 1
        if w and fw and w >= fw:
            return p
        if w is None and ft['k'] == 'int':       # signed: values here are small non-negative
            if t['name'] in ('i64', 'i128', 'isize'):
                return p
        if w and 1 < w < 16 and c is None:
            SIZES.update((1 << w, (1 << w) + 1))
        return P(Atom('trunc%s' % t['name'], (p,), 'int'))

    def e_lit(self, e, fr):
        k = e['lk']
        if k == 'int':
            n = int(e['v'])
            return P(-n if e['neg'] else n)
        if k == 'bool':
            return c_bool(e['v'] == 'true')
        return Lit(e['v'])

    def e_var(self, e, fr):
        c = fr.env.get(e['var'])
        if c is None:
            raise Undecided('unbound variable')
        v = self.S.store.get(c)
        if v is None:
            raise Undecided('dead variable')
        s = self.simp(v)
        if s is not v:
            self.S.store[c] = s
        return s

    def e_deref(self, e, fr):
        v = self.ev(e['v'], fr)
        if isinstance(v, MRef):
            return self.load(v)
        if isinstance(v, Phi) and has_mref(v):
            return self.val(v)
        return v

    def e_field(self, e, fr):
        v = self.ev(e['v'], fr)
        return self.getf(v, e['idx'])

    def e_index(self, e, fr):
        v = self.val(self.ev(e['v'], fr))
        i = as_poly(self.val(self.ev(e['i'], fr)))
        if i is None:
            raise Undecided('index')
        self.bounds(v, i, e['at'])
        return self.getix(v, i)

    def bounds(self, v, i, at):
        if isinstance(v, Poly) and i.const() in (0, 1, 2, 3):
            return                               # scalar fields of pairing curves have at least four limbs
        n = self.len_of(v)
        self.panic_if(c_not(c_lt(i, n)), 'index out of bounds', at)

    def e_ref(self, e, fr):
        if e['mut']:
            return self.place(e['v'], fr)
        return self.ev(e['v'], fr)

    def e_rawref(self, e, fr):
        raise Undecided('raw pointer')

    def place(self, e, fr):
        """mutable place of an lvalue expression"""
        k = e['e']
        if k == 'scope' or k == 'use':
            if e['v']['e'] in ('var', 'field', 'deref', 'index', 'scope', 'use'):
                return self.place(e['v'], fr)
        if k == 'var':
            c = fr.env.get(e['var'])
            if c is None:
                raise Undecided('unbound variable')
            return MRef(c, ())
        if k == 'field':
            b = self.place(e['v'], fr)
            b = self.through(b)
            return self.isub(b, ('f', e['idx']))
        if k == 'deref':
            v = self.ev(e['v'], fr)
            v = self.simp(v)
            if isinstance(v, MRef):
                return v
            if isinstance(v, Phi) and has_mref(v):
                raise Split(v.c)
            t = e['v'].get('ty') or {}
            if t.get('k') == 'ref' and t.get('mut') and not isinstance(v, Opq):
                raise Undecided('a reference that is not followed')
            return MRef(self.cell(v), ())
        if k == 'index':
            b = self.through(self.place(e['v'], fr))
            i = as_poly(self.val(self.ev(e['i'], fr)))
            if i is None:
                raise Undecided('index')
            self.bounds(self.load(b), i, e['at'])
            return self.isub(b, ('i', i))
        v = self.ev(e, fr)
        return MRef(self.cell(v), ())

    def through(self, r):
        """if the place holds a mutable reference (a `&mut` variable), follow it"""
        return r

    def e_bin(self, e, fr):
        a = self.val(self.ev(e['l'], fr))
        b = self.val(self.ev(e['r'], fr))
        return self.binop(e['op'], a, b, e['l']['ty'], e['at'])

    def binop(self, op, a, b, ty, at):
        if op in ('Eq', 'Ne'):
            c = self.equal(a, b)
            return c if op == 'Eq' else c_not(c)
        if isinstance(a, Cond) and isinstance(b, Cond):
            if op == 'BitAnd':
                return c_and(a, b)
            if op == 'BitOr':
                return c_or(a, b)
            if op == 'BitXor':
                return c_ite(a, c_not(b), b)
        p, q = as_poly(a), as_poly(b)
        if p is None or q is None:
            return Opq(op, (a, b))
        uns = ty['k'] == 'int' and ty['name'][0] == 'u'
        if op == 'Add' or op == 'AddUnchecked':
            return p + q
        if op == 'Sub' or op == 'SubUnchecked':
            if uns:
                self.panic_if(c_lt(p, q), 'attempt to subtract with overflow', at)
            return p - q
        if op == 'Mul':
            return p * q
        if op in ('Lt', 'Le', 'Gt', 'Ge'):
            if op == 'Lt':
                return c_lt(p, q)
            if op == 'Le':
                return c_le(p, q)
            if op == 'Gt':
                return c_lt(q, p)
            return c_le(q, p)
        c, d = p.const(), q.const()
        if op in ('Div', 'Rem'):
            self.panic_if(c_eq0(q), 'division by zero', at)
            if c is not None and d:
                return P(c // d if op == 'Div' else c % d)
            if d == 1:
                return p if op == 'Div' else ZERO
            if c is None and d is not None and d <= 16:      # residues of a size
                SIZES.update((d, 2 * d, 3 * d))
            return idiv('op' + op, p, q)
        if c is not None and d is not None:
            w = self.W.get(ty.get('name'), 64)
            r = {'BitAnd': c & d, 'BitOr': c | d, 'BitXor': c ^ d, 'Shl': (c << d) % (1 << w) if d < 200 else 0, 'Shr': c >> d}.get(op)
            if r is not None:
                return P(r)
        if op == 'Shl' and d is not None and d < 32:
            return p * (1 << d)
        if op == 'BitAnd' and d == 0:
            return ZERO
        if c is None and op in ('BitAnd', 'BitOr', 'BitXor', 'Shr'):
            SIZES.update((4, 6, 8))
        return P(Atom('op' + op, (p, q), 'int'))

    def e_logic(self, e, fr):
        l = self.evc(e['l'], fr)
        if e['op'] == 'And':
            return self.branch(l, lambda: self.evc(e['r'], fr), lambda: FALSE)
        return self.branch(l, lambda: TRUE, lambda: self.evc(e['r'], fr))

    def evc(self, e, fr):
        return self.as_cond(self.val(self.ev(e, fr)))

    def as_cond(self, v):
        v = self.simp(v)
        if isinstance(v, Cond):
            return v
        if isinstance(v, Phi):
            return c_ite(v.c, self.as_cond(v.a), self.as_cond(v.b))
        if isinstance(v, Opq):
            return c_opq('opq', vkey(v))
        p = as_poly(v)
        if p is not None:
            return c_not(c_eq0(p))
        raise Undecided('condition')

    def e_un(self, e, fr):
        v = self.val(self.ev(e['v'], fr))
        if e['op'] == 'Not':
            if e['ty']['k'] == 'bool':
                return c_not(self.as_cond(v))
            return Opq('not', (v,))
        p = as_poly(v)
        return -p if p is not None else Opq('neg', (v,))

    def e_block(self, e, fr):
        return self.blk(e['b'], fr)

    def blk(self, b, fr):
        if b['unsafe'] and not self.opts.get('unsafe_ok'):
            pass
        for st in b['stmts']:
            if st['s'] == 'let':
                if st['init'] is None:
                    self.declare(st['pat'], fr)
                    continue
                if st['else'] is not None:
                    self.let_else(st, fr)
                    continue
                self.bind_init(st['pat'], st['init'], fr)
            else:
                self.stmt(st['e'], fr)
        if b['expr'] is not None:
            return self.ev(b['expr'], fr)
        return UNIT

    def stmt(self, e, fr, depth=0):
        x = e
        while x['e'] in ('scope', 'use'):
            x = x['v']
        if x['e'] not in ('assign', 'assignop', 'call'):
            return self.ev(e, fr)
        S0, n = self.S.fork(), self.nexits
        try:
            return self.ev(e, fr)
        except Split as s:         # which place is meant depends on a condition: the statement on either side
            if depth > 6 or self.nexits != n:
                raise
            self.S = S0
            if self.decide(s.c) is not None:
                raise Undecided('case split in a statement')
            return self.branch(s.c, lambda: self.stmt(e, fr, depth + 1), lambda: self.stmt(e, fr, depth + 1))

    def declare(self, pat, fr):
        if pat['p'] == 'bind':
            fr.env[pat['var']] = self.cell(Opq('uninit', ()))
        elif pat['p'] in ('leaf',):
            for _, s in pat['subs']:
                self.declare(s, fr)

    def bind_init(self, pat, init, fr):
        if pat['p'] == 'bind' and pat['by'] == 'val' and not pat['sub']:
            v = self.ev(init, fr)
            fr.env[pat['var']] = self.cell(v)
            return
        pl = None
        if needs_place(pat):
            pl = self.place(init, fr)
            v = self.load(pl)
        else:
            v = self.ev(init, fr)
        self.bindp(pat, v, pl, fr)

    def let_else(self, st, fr):
        v, pl = self.scrut(st['init'], [st['pat']], fr)
        c = self.test(st['pat'], v)

        def els():
            self.blk(st['else'], fr)
            raise Diverge()
        self.branch(c, lambda: self.bindp(st['pat'], v, pl, fr) or UNIT, els)

    def scrut(self, e, pats, fr):
        if any(needs_place(p) for p in pats):
            pl = self.place(e, fr)
            return self.load(pl), pl
        return self.ev(e, fr), None

    def branch_cond(self, e, fr, ft, fe):
        k = e['e']
        if k in ('scope', 'use'):
            return self.branch_cond(e['v'], fr, ft, fe)
        if k == 'let':
            v, pl = self.scrut(e['v'], [e['pat']], fr)
            c = self.test(e['pat'], v)

            def th():
                self.bindp(e['pat'], v, pl, fr)
                return ft()
            return self.branch(c, th, fe)
        if k == 'logic' and e['op'] == 'And' and has_let(e):
            return self.branch_cond(e['l'], fr, lambda: self.branch_cond(e['r'], fr, ft, fe), fe)
        return self.branch(self.evc(e, fr), ft, fe)

    def e_let(self, e, fr):
        return self.branch_cond(e, fr, lambda: TRUE, lambda: FALSE)

    def e_if(self, e, fr):
        return self.branch_cond(e['c'], fr, lambda: self.ev(e['t'], fr),
                                (lambda: self.ev(e['f'], fr)) if e['f'] is not None else (lambda: UNIT))

    # ------------------------------------------------------------ patterns
    def test(self, p, v):
        k = p['p']
        if k == 'wild':
            return TRUE
        if k == 'bind':
            return self.test(p['sub'], v) if p['sub'] else TRUE
        if k == 'deref':
            return self.test(p['sub'], self.val(v) if isinstance(v, MRef) else v)
        v = self.simp(v)
        if isinstance(v, MRef):
            v = self.val(v)
        if k == 'or':
            return c_or(*[self.test(x, v) for x in p['pats']])
        if isinstance(v, Phi):
            return c_ite(v.c, self.test(p, v.a), self.test(p, v.b))
        if k == 'leaf':
            return c_and(*[self.test(s, self.getf(v, i)) for i, s in p['subs']])
        if k == 'variant':
            if isinstance(v, Struct):
                if isinstance(v.var, Poly):
                    c = c_eq(v.var, P(p['idx']))
                elif v.var != p['idx']:
                    return FALSE
                else:
                    c = TRUE
                return c_and(c, *[self.test(s, self.getf(v, i)) for i, s in p['subs']])
            return c_opq('variant', vkey(v), str(p['idx']))
        if k == 'const':
            bits = p['val'].get('bits')
            if isinstance(v, Cond):
                return v if bits == '1' else c_not(v)
            q = as_poly(v)
            if q is not None and bits is not None:
                return c_eq(q, P(int(bits)))
            return c_opq('const', vkey(v), str(p['val'].get('s') or bits))
        if k == 'range':
            q = as_poly(v)
            if q is None:
                raise Undecided('range pattern')
            cs = []
            if p['lo'] is not None:
                cs.append(c_le(P(int(p['lo'])), q))
            if p['hi'] is not None:
                cs.append(c_le(q, P(int(p['hi']))) if p['incl'] else c_lt(q, P(int(p['hi']))))
            return c_and(*cs)
        if k == 'slice':
            n = self.len_of(v)
            np, ns = len(p['prefix']), len(p['suffix'])
            c = c_le(P(np + ns), n) if p['slice'] else c_eq(n, P(np + ns))
            if self.decide(c) is False:
                return FALSE
            cs = [c]
            for i, s in enumerate(p['prefix']):
                cs.append(self.test(s, self.getix(v, P(i))))
            for i, s in enumerate(p['suffix']):
                cs.append(self.test(s, self.getix(v, n - ns + i)))
            return c_and(*cs)
        raise Undecided('pattern %s' % k)

    def proj(self, v, idx, i):
        """field i of variant idx"""
        v = self.simp(v)
        if isinstance(v, MRef):
            v = self.val(v)
        if isinstance(v, Phi):
            fa, fb = self.may(v.a, idx), self.may(v.b, idx)
            if fa and not fb:
                return self.proj(v.a, idx, i)
            if fb and not fa:
                return self.proj(v.b, idx, i)
            return merge(v.c, self.proj(v.a, idx, i), self.proj(v.b, idx, i))
        return self.getf(v, i)

    def may(self, v, idx):
        v = self.simp(v)
        if isinstance(v, Phi):
            return self.may(v.a, idx) or self.may(v.b, idx)
        if isinstance(v, Struct):
            return isinstance(v.var, Poly) or v.var == idx
        return True

    def bindp(self, p, v, pl, fr):
        k = p['p']
        if k == 'wild':
            return
        if k == 'bind':
            if p['by'] == 'refmut':
                if pl is None:
                    pl = MRef(self.cell(v), ())
                fr.env[p['var']] = self.cell(pl)
            else:
                fr.env[p['var']] = self.cell(v)
            if p['sub']:
                self.bindp(p['sub'], v, pl, fr)
            return
        if k == 'deref':
            if isinstance(v, MRef):
                return self.bindp(p['sub'], self.load(v), v, fr)
            return self.bindp(p['sub'], v, pl, fr)
        if k == 'leaf':
            if isinstance(v, MRef):
                pl = v
                v = self.load(v)
            for i, s in p['subs']:
                if s['p'] != 'wild':
                    self.bindp(s, self.getf(v, i), self.isub(pl, ('f', i)) if pl else None, fr)
            return
        if k == 'variant':
            if isinstance(v, MRef):
                pl = v
                v = self.load(v)
            for i, s in p['subs']:
                if s['p'] != 'wild':
                    self.bindp(s, self.proj(v, p['idx'], i), self.isub(pl, ('f', i)) if pl else None, fr)
            return
        if k == 'slice':
            n = self.len_of(v)
            np, ns = len(p['prefix']), len(p['suffix'])
            for i, s in enumerate(p['prefix']):
                self.bindp(s, self.getix(v, P(i)), self.isub(pl, ('i', P(i))) if pl else None, fr)
            if p['slice']:
                self.bindp(p['slice'], self.getsl(v, P(np), n - ns), self.isub(pl, ('s', P(np), n - ns)) if pl else None, fr)
            for i, s in enumerate(p['suffix']):
                self.bindp(s, self.getix(v, n - ns + i), self.isub(pl, ('i', n - ns + i)) if pl else None, fr)
            return
        if k == 'or':
            for s in p['pats']:
                if self.decide(self.test(s, v)) is True or s is p['pats'][-1]:
                    return self.bindp(s, v, pl, fr)
            return
        if k == 'const' or k == 'range':
            return
        raise Undecided('pattern %s' % k)

    def e_match(self, e, fr):
        f = self.loops.for_loop(e)
        if f:
            return self.loops.run_for(self, f, e, fr)
        v, pl = self.scrut(e['v'], [a['pat'] for a in e['arms']], fr)
        return self.arms(e['arms'], 0, v, pl, fr)

    def arms(self, arms, i, v, pl, fr):
        if i >= len(arms):
            # exhaustive by type checking: unreachable
            self.last_unreach = True
            raise Diverge()
        a = arms[i]
        c = self.test(a['pat'], v)
        if i == len(arms) - 1 and a['guard'] is None:
            # exhaustiveness is checked by the compiler
            self.bindp(a['pat'], v, pl, fr)
            return self.ev(a['body'], fr)

        def take():
            self.bindp(a['pat'], v, pl, fr)
            if a['guard'] is not None:
                return self.branch_cond(a['guard'], fr, lambda: self.ev(a['body'], fr),
                                        lambda: self.arms(arms, i + 1, v, pl, fr))
            return self.ev(a['body'], fr)
        return self.branch(c, take, lambda: self.arms(arms, i + 1, v, pl, fr))

    # ------------------------------------------------------------ the rest
    def e_call(self, e, fr):
        c = e['callee']
        if c is None:
            f = self.ev(e['fun'], fr)
            args = [self.ev(a, fr) for a in e['args']]
            return self.call_clo(f, args)
        args = [self.ev(a, fr) for a in e['args']]
        r = self.call(c, fr.targs, args, e['at'], e['ty'])
        if e['ty']['k'] == 'never':
            raise Diverge()
        return r

    def e_closure(self, e, fr):
        env = dict(fr.env)
        for u in e['upvars']:
            x = u
            while x['e'] in ('scope', 'use'):
                x = x['v']
            if x['e'] == 'var':
                c = fr.env.get(x['var'])
                if c is not None:
                    env[x['var']] = self.cell(self.S.store[c])
        self.cloid += 1
        return Clo(e['did'], env, fr.targs, self.cloid)

    def e_adt(self, e, fr):
        fs = {}
        for i, x in e['fields']:
            fs[i] = self.ev(x, fr)
        if e['base'] is not None:
            b = self.val(self.ev(e['base'], fr))
            n = len(self.p.adts[e['did']]['variants'][e['variant']]['fields']) if e['did'] in self.p.adts else 0
            for i in range(n):
                if i not in fs:
                    fs[i] = self.getf(b, i)
        n = (max(fs) + 1) if fs else 0
        fl = [fs.get(i, UNIT) for i in range(n)]
        p = e['path']
        n0 = p.split('::')[-1]
        if p.startswith('alloc::borrow::Cow'):
            return fl[0]
        if n0.startswith('Range') and p.startswith('core::ops::range'):
            return self.models.mk_range(self, n0, fl)
        return Struct(p, e['variant'], fl)

    def e_tuple(self, e, fr):
        return tup(*[self.ev(x, fr) for x in e['vs']])

    def e_array(self, e, fr):
        return vec_of(*[self.ev(x, fr) for x in e['vs']])

    def e_repeat(self, e, fr):
        v = self.ev(e['v'], fr)
        n = tsub(e['n'], fr.targs)
        if n.get('v') is None:
            raise Undecided('array length')
        return vec_fn(P(int(n['v'])), lambda i: v)

    def e_assign(self, e, fr):
        v = self.ev(e['r'], fr)
        r = self.place(e['l'], fr)
        self.write(r, v)
        return UNIT

    def e_assignop(self, e, fr):
        b = self.val(self.ev(e['r'], fr))
        r = self.place(e['l'], fr)
        a = self.val(self.load(r))
        op = e['op']
        op = op[:-6] if op.endswith('Assign') else op
        self.write(r, self.binop(op, a, b, e['l']['ty'], e['at']))
        return UNIT

    def e_return(self, e, fr):
        v = self.ev(e['v'], fr) if e['v'] is not None else UNIT
        self.record_exit(fr, 'ret', v)
        raise Diverge()

    def e_break(self, e, fr):
        v = self.ev(e['v'], fr) if e['v'] is not None else UNIT
        self.record_exit(fr, e['label'], v)
        raise Diverge()

    def e_continue(self, e, fr):
        self.record_exit(fr, ('c', e['label']), UNIT)
        raise Diverge()

    def e_loop(self, e, fr):
        return self.loops.run_loop(self, e, fr)

    def e_zst(self, e, fr):
        c = e['callee']
        if c is None:
            return Opq('zst', ())
        return fnv(c, fr.targs)

    def e_const(self, e, fr):
        c = e['callee']
        # constants of the crate have a body
        cargs = [tsub(a, fr.targs) if a is not None else None for a in c['args']]
        res, tr = c.get('res'), c.get('trait')
        if res and res['local'] and res['did'] in self.p.fns:
            return self.call_fn(self.p.fns[res['did']], [tsub(a, fr.targs) if a is not None else None for a in res['args']], [])
        hit = self.p.find_impl(tr, cargs[0], cargs) if tr and cargs and cargs[0] is not None else None
        if hit:
            for it in hit[0]['items']:
                if it['name'] == c['name'] and it['did'] in self.p.fns:
                    return self.call_fn(self.p.fns[it['did']], [hit[1].get(i) for i in range(len(hit[0]['generics']))], [])
        fn = self.p.fns.get(c['did'])
        if fn is not None:
            return self.call_fn(fn, cargs, [])
        return self.models.const(self, c, cargs, e['ty'])

    def e_cparam(self, e, fr):
        t = fr.targs[e['idx']] if e['idx'] < len(fr.targs) else None
        if t is None or t.get('v') is None:
            raise Undecided('const parameter')
        v = t['v']
        if e['ty']['k'] == 'bool':
            return c_bool(int(v))
        return P(int(v))

    def e_constblock(self, e, fr):
        fn = self.p.fns.get(e['did'])
        if fn is None:
            raise Undecided('const block')
        return self.call_fn(fn, fr.targs, [])

    def e_static(self, e, fr):
        self.event('static', e['path'], e['at'])
        rec = [x for x in self.p.statics if x['did'] == e['did']]
        fn = self.p.fns.get(e['did'])
        if fn is not None and rec and not rec[0]['mut'] and rec[0]['freeze']:
            return self.call_fn(fn, [], [])
        return Opq('static:' + e['path'], ())

    def e_threadlocal(self, e, fr):
        return Opq('tls:' + e['path'], ())

    def event(self, *a):
        if not self.quiet:
            self.events.append(a)

    # ------------------------------------------------------------ equality
    def equal(self, a, b):
        """structural equality of plain values (used for foreign types only)"""
        a, b = self.val(a), self.val(b)
        if isinstance(a, Phi):
            return c_ite(a.c, self.equal(a.a, b), self.equal(a.b, b))
        if isinstance(b, Phi):
            return c_ite(b.c, self.equal(a, b.a), self.equal(a, b.b))
        if isinstance(a, Cond) and isinstance(b, Cond):
            return c_ite(a, b, c_not(b))
        p, q = as_poly(a), as_poly(b)
        if p is not None and q is not None:
            return c_eq(p, q)
        if isinstance(a, Struct) and isinstance(b, Struct):
            if a.path == b.path:
                va = a.var if isinstance(a.var, Poly) else P(a.var or 0)
                vb = b.var if isinstance(b.var, Poly) else P(b.var or 0)
                c = c_eq(va, vb)
                if c is FALSE:
                    return FALSE
                return c_and(c, *[self.equal(x, y) for x, y in zip(a.f, b.f)])
        if isinstance(a, Vec) and isinstance(b, Vec):
            return self.vec_eq(a, b, self.equal)
        if isinstance(a, Lit) and isinstance(b, Lit):
            return c_bool(a.v == b.v)
        return c_opq('eq', *sorted([vkey(a), vkey(b)]))

    def vec_eq(self, a, b, eq):
        n, m = vlen(a), vlen(b)
        c = c_eq(n, m)
        if self.decide(c) is False:
            return FALSE
        if n.const() is not None and m.const() is not None:
            return c_and(*[eq(vindex(a, P(i)), vindex(b, P(i))) for i in range(n.const())])
        ix = fresh_ix(n)
        S0 = self.S
        self.S = S0.fork()
        self.S.add(c)
        try:
            x = eq(vindex(a, P(ix)), vindex(b, P(ix)))
        finally:
            self.S = S0
        return c_and(c, c_all(ix, n, x))


class PyFn(V):
    """a function implemented by the analyser"""
    __slots__ = ('f', 'n')
    made = 0

    def __init__(self, f):
        V.__init__(self)
        self.f = f
        PyFn.made += 1
        self.n = PyFn.made


def fnv(callee, targs):
    c = FnV(callee)
    c.targs = targs
    return c


def refs(v):
    if isinstance(v, (Poly, Cond, Lit, Rng)) or v is None:
        return False
    if isinstance(v, (MRef, Clo, It, PyFn)):
        return True
    if isinstance(v, Struct):
        return any(refs(x) for x in v.f)
    if isinstance(v, Vec):
        return any(refs(t) for _, _, t in v.segs)
    if isinstance(v, Phi):
        return refs(v.a) or refs(v.b)
    return False


def has_mref(v):
    if isinstance(v, MRef):
        return True
    if isinstance(v, Phi):
        return has_mref(v.a) or has_mref(v.b)
    return False


def needs_place(p):
    k = p['p']
    if k == 'bind':
        return p['by'] == 'refmut' or (p['sub'] is not None and needs_place(p['sub']))
    if k == 'deref':
        return False
    if k in ('leaf', 'variant'):
        return any(needs_place(s) for _, s in p['subs'])
    if k == 'slice':
        return any(needs_place(s) for s in p['prefix'] + p['suffix']) or (p['slice'] is not None and needs_place(p['slice']))
    if k == 'or':
        return any(needs_place(s) for s in p['pats'])
    return False


def has_let(e):
    if e['e'] in ('scope', 'use'):
        return has_let(e['v'])
    if e['e'] == 'let':
        return True
    if e['e'] == 'logic':
        return has_let(e['l']) or has_let(e['r'])
    return False
