"""The dumped program: functions, types, impl lookup, generic substitution."""
import json

VEC = 'alloc::vec::Vec'


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.raw = d
        self.fns = {f['did']: f for f in d['fns']}
        self.adts = {a['did']: a for a in d['adts']}
        self.adt_path = {a['path']: a for a in d['adts']}
        self.impls = d['impls']
        self.traits = {t['path']: t for t in d['traits']}
        self.statics = d['statics']
        self.by_trait = {}
        self.impl_of = {}
        for i in self.impls:
            self.by_trait.setdefault(i['trait'], []).append(i)
            for it in i['items']:
                if it['kind'] == 'AssocFn':
                    self.impl_of[it['did']] = i

    def fn_by_path(self, path):
        for f in self.fns.values():
            if f['path'] == path:
                return f
        return None

    def free_fns(self, name):
        """named functions that are not trait impl items"""
        return [f for f in self.fns.values() if f.get('name') == name and f['did'] not in self.impl_of]

    def adt_named(self, name):
        r = [a for a in self.adts.values() if a['path'].split('::')[-1] == name]
        return r[0] if len(r) == 1 else None

    def method(self, self_name, trait_last, name):
        """impl fn of `name` for the local adt (or Vec elem spec) in the named trait"""
        out = []
        for i in self.impls:
            t = i['trait']
            if (t.split('::')[-1] if t else None) != trait_last:
                continue
            if not match_name(i['self'], self_name):
                continue
            for it in i['items']:
                if it['name'] == name and it['kind'] == 'AssocFn':
                    out.append((i, self.fns.get(it['did'])))
        return out

    def find_impl(self, trait, sty, targs):
        """(impl, {param idx: type}) for a concrete self type; targs[1:] the other trait args"""
        for i in self.by_trait.get(trait, ()):
            b = {}
            if not unify(i['self'], sty, b):
                continue
            good = True
            for p, c in zip((i.get('targs') or [])[1:], (targs or [])[1:]):
                if p is None or c is None:
                    continue
                if not unify(p, c, b):
                    good = False
                    break
            if good:
                return i, b
        return None


def match_name(t, name):
    t = strip(t)
    if '<' in name:
        head, inner = name.split('<', 1)
        inner = inner[:-1]
        if t['k'] == 'slice' and head == 'Vec':
            return match_name(t['ty'], inner)
        return t['k'] == 'adt' and t['path'].split('::')[-1] == head and t['args'] and match_name(t['args'][0], inner)
    if t['k'] == 'adt':
        return t['path'].split('::')[-1] == name
    if t['k'] == 'param':
        return name == 'param'
    return False


def strip(t):
    while t['k'] == 'ref':
        t = t['ty']
    return t


def tsub(t, targs):
    """substitute generic parameters"""
    if t is None or not targs:
        return t
    k = t['k']
    if k == 'param':
        i = t['idx']
        if i < len(targs) and targs[i] is not None:
            return targs[i]
        return t
    if k in ('adt', 'alias', 'opaque', 'fndef'):
        if not t['args']:
            return t
        r = dict(t)
        r['args'] = [tsub(a, targs) if a is not None else None for a in t['args']]
        return r
    if k == 'cparam':
        i = t['idx']
        if i < len(targs) and targs[i] is not None:
            return targs[i]
        return t
    if k in ('ref', 'slice', 'array', 'ptr'):
        r = dict(t)
        r['ty'] = tsub(t['ty'], targs)
        if k == 'array':
            r['len'] = tsub(t['len'], targs)
        return r
    if k == 'tuple':
        r = dict(t)
        r['tys'] = [tsub(a, targs) for a in t['tys']]
        return r
    return t


def teq(a, b):
    return unify(a, b, None)


def unify(p, c, b):
    if p is None or c is None:
        return p is None and c is None
    if p['k'] in ('param', 'cparam') and b is not None:
        i = p['idx']
        if i in b:
            return teq(b[i], c)
        b[i] = c
        return True
    if p['k'] != c['k']:
        return False
    k = p['k']
    if k in ('adt', 'alias', 'opaque', 'fndef'):
        if p['did'] != c['did']:
            return False
        if b is not None and k == 'alias':
            # a projection of an impl parameter: bind through the arguments
            pass
        return len(p['args']) == len(c['args']) and all(unify(x, y, b) for x, y in zip(p['args'], c['args']))
    if k in ('ref', 'ptr'):
        return p['mut'] == c['mut'] and unify(p['ty'], c['ty'], b)
    if k == 'slice':
        return unify(p['ty'], c['ty'], b)
    if k == 'array':
        return unify(p['ty'], c['ty'], b) and unify(p['len'], c['len'], b)
    if k == 'tuple':
        return len(p['tys']) == len(c['tys']) and all(unify(x, y, b) for x, y in zip(p['tys'], c['tys']))
    if k in ('int', 'float'):
        return p['name'] == c['name']
    if k in ('param', 'cparam'):
        return p['idx'] == c['idx']
    if k == 'const':
        return p.get('v') == c.get('v')
    if k == 'closure':
        return p['did'] == c['did']
    return True


KINDS = {'G1Affine': 'G1', 'G1': 'G1', 'G1Prepared': 'G1', 'G2Affine': 'G2', 'G2': 'G2', 'G2Prepared': 'G2',
         'ScalarField': 'F', 'BaseField': 'Fq', 'TargetField': 'GT', 'PairingOutput': 'GT', 'MillerLoopOutput': 'GT'}


def kind_of(t):
    """scalar kind of a type: G1 G2 GT F int bool or None"""
    if t is None:
        return None
    k = t['k']
    if k == 'ref':
        return kind_of(t['ty'])
    if k == 'bool':
        return 'bool'
    if k == 'int':
        return 'int'
    if k in ('alias', 'adt'):
        n = t['path'].split('::')[-1]
        if k == 'adt' and t['local']:
            return None
        if k == 'adt' and t['path'].startswith(('alloc', 'core', 'std')):
            return None
        if n in KINDS:
            return KINDS[n]
        if n in ('Group', 'Affine', 'AffineRepr', 'CurveGroup', 'Config', 'FullGroup') and t['args']:
            return kind_of(t['args'][0])
        if n == 'Output' and t['args']:
            return kind_of(t['args'][0])
    if k == 'param':
        return 'F' if t['name'] in ('F',) else None
    return None


def tpath(t):
    return t.get('path') if t['k'] in ('adt', 'alias') else None


def is_vec(t):
    return t['k'] == 'slice' or t['k'] == 'array' or (t['k'] == 'adt' and t['path'] == VEC)


def elem(t):
    return t['args'][0] if t['k'] == 'adt' else t['ty']


def short(t):
    from pp import ty
    return ty(t)
