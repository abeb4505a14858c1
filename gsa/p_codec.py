"""C15, C16: encodings."""
from common import *
import models
from models import RD, LOG, COMP, VALI, yes_no, log_size, bad, prim_kind, OK_PAT, CodecMismatch, sname

TYPES = ('Com1', 'Com2', 'Commit1', 'Commit2', 'EquProof', 'EquType', 'PPE', 'MSMEG1', 'MSMEG2', 'QuadEqu', 'CRS')
SER, DE, VALID = 'CanonicalSerialize', 'CanonicalDeserialize', 'Valid'


def list_keys(env, t, name, depth=0):
    t = strip(t)
    if kind_of(t) is not None:
        return
    if is_vec(t):
        yield name + '[]' * depth
        yield from list_keys(env, elem(t), name, depth + 1)
    elif t['k'] == 'adt' and t['did'] in env.p.adts:
        a = env.p.adts[t['did']]
        if len(a['variants']) == 1:
            for f in a['variants'][0]['fields']:
                yield from list_keys(env, f['ty'], '%s.%s' % (name, f['name']), depth)


def tag_keys(env, t, name):
    """enumerations inside a type"""
    t = strip(t)
    if kind_of(t) is not None:
        return
    if is_vec(t):
        yield from tag_keys(env, elem(t), name)
    elif t['k'] == 'adt' and t['did'] in env.p.adts:
        a = env.p.adts[t['did']]
        if len(a['variants']) == 1:
            for f in a['variants'][0]['fields']:
                yield from tag_keys(env, f['ty'], '%s.%s' % (name, f['name']))
        else:
            yield name, len(a['variants'])


def guard(body):
    def f(sh, *a):
        models.VALID[0] = True
        try:
            body(sh, *a)
        except CodecMismatch as e:
            raise Bad('decoding does not follow the encoding: %s' % e.why, 'the value written', None, e.at)
        finally:
            models.VALID[0] = False
    return f


def values(env, sh, adt, name='x'):
    """symbolic values of the type, one per combination of the kinds inside"""
    import itertools
    t = env.ty(adt)
    tags = list(tag_keys(env, t, name))
    for combo in itertools.product(*[range(n) for _, n in tags]):
        dims = {k + '#': v for (k, _), v in zip(tags, combo)}
        if not sh.sym:
            for k in list_keys(env, t, name):
                dims[k] = sh.sizes.get(k, sh.sizes.get('*', 1))
        yield combo, env.sym(t, name, dims)


def okc(r):
    return r.I.pred(r.I.test(OK_PAT, r.val)) if not isinstance(r.val, Opq) else None


def must_ok(sh, r, what, fn):
    if r.val is None or isinstance(r.val, Opq):
        raise Unsure('%s: result not determined' % what)
    sh.same_cond('%s succeeds' % what, r.I.test(OK_PAT, r.val), TRUE, fn, r.I.S)


def c15(env):
    obs = []
    for adt in TYPES:
        ser, de = env.method(adt, SER, 'serialize_with_mode'), env.method(adt, DE, 'deserialize_with_mode')
        siz = env.method(adt, SER, 'serialized_size')
        keys = list(list_keys(env, env.ty(adt), 'x'))
        shapes = [{'*': n} for n in (1, 0, 2, 3)]
        for k in keys:
            shapes += [{'*': 1, k: n} for n in (0, 2, 3, 5)]
        if not keys:
            shapes = [{}]
        for cm in (True, False):
            def rt(sh, adt=adt, ser=ser, de=de, siz=siz, cm=cm):
                for combo, x in values(env, sh, adt):
                    r = sh.run()
                    comp = yes_no(COMP, cm)
                    out = r.cell(Struct(LOG, 0, (Vec([]),)))
                    sh.call(ser, [x, out, comp], run=r)
                    must_ok(sh, r, 'serialising %s' % adt, ser)
                    log = r.at(out).f[0]
                    sh.call(siz, [x, comp], run=r)
                    sh.same('serialized_size', as_poly(r.val), log_size(log), siz, r.I.S)
                    for va in (True, False):
                        q = sh.run()
                        inp = q.cell(Struct(RD, 0, (log, ZERO)))
                        sh.call(de, [inp, comp, yes_no(VALI, va)], run=q)
                        must_ok(sh, q, 'deserialising what was serialised', de)
                        v = q.I.proj(q.val, 0, 0)
                        sh.same('value read back', v, x, de, q.I.S)
                        sh.same('part of the encoding consumed', q.at(inp).f[1], vlen(log), de, q.I.S)
            obs.append(Ob('%s, %s' % (adt, 'compressed' if cm else 'uncompressed'), 'read back equal in every field, whole encoding consumed, size as reported',
                          guard(rt), shapes))
        extra = [(it['name'], env.p.fns[it['did']]) for i in env.p.impls if i['trait'] and i['trait'].split('::')[-1] in (SER, DE)
                 and strip(i['self'])['k'] == 'adt' and strip(i['self'])['path'].split('::')[-1] == adt
                 for it in i['items'] if it['kind'] == 'AssocFn' and it['did'] in env.p.fns]
        for nm, fn in extra:
            # overridden convenience methods must agree with the mode-taking ones
            if nm in ('serialize_compressed', 'serialize_uncompressed'):
                def conv(sh, nm=nm, fn=fn, ser=ser, adt=adt):
                    for combo, x in values(env, sh, adt):
                        logs = []
                        for f, extra_ in ((fn, []), (ser, [yes_no(COMP, nm == 'serialize_compressed')])):
                            r = sh.run()
                            out = r.cell(Struct(LOG, 0, (Vec([]),)))
                            sh.call(f, [x, out] + extra_, run=r)
                            must_ok(sh, r, nm, f)
                            logs.append((r.at(out).f[0], r))
                        sh.same(nm, logs[0][0], logs[1][0], fn, logs[1][1].I.S)
                obs.append(Ob('%s::%s' % (adt, nm), 'agrees with serialize_with_mode', guard(conv), shapes))
            elif nm in ('compressed_size', 'uncompressed_size'):
                def csz(sh, nm=nm, fn=fn, siz=siz, adt=adt):
                    for combo, x in values(env, sh, adt):
                        r = sh.call(fn, [x])
                        q = sh.call(siz, [x, yes_no(COMP, nm == 'compressed_size')])
                        sh.same(nm, as_poly(r.val), as_poly(q.val), fn, q.I.S)
                obs.append(Ob('%s::%s' % (adt, nm), 'agrees with serialized_size', guard(csz), shapes))
            elif nm.startswith('deserialize_') and nm != 'deserialize_with_mode':
                def dconv(sh, nm=nm, fn=fn, ser=ser, adt=adt):
                    for combo, x in values(env, sh, adt):
                        r = sh.run()
                        out = r.cell(Struct(LOG, 0, (Vec([]),)))
                        sh.call(ser, [x, out, yes_no(COMP, 'uncompressed' not in nm)], run=r)
                        must_ok(sh, r, 'serialising', ser)
                        log = r.at(out).f[0]
                        q = sh.run()
                        inp = q.cell(Struct(RD, 0, (log, ZERO)))
                        sh.call(fn, [inp], run=q)
                        must_ok(sh, q, nm, fn)
                        sh.same('value read back', q.I.proj(q.val, 0, 0), x, fn, q.I.S)
                obs.append(Ob('%s::%s' % (adt, nm), 'reads back what was written', guard(dconv), shapes))
    ser = env.method('EquType', SER, 'serialize_with_mode')

    def kinds(sh):
        V = Vocab(env)
        path = env.adt('EquType')['path']
        for n, kind in enumerate(KINDS):
            for cm in (True, False):
                r = sh.run()
                out = r.cell(Struct(LOG, 0, (Vec([]),)))
                sh.call(ser, [Struct(path, TAG[kind], ()), out, yes_no(COMP, cm)], run=r)
                must_ok(sh, r, 'serialising a kind', ser)
                log = r.at(out).f[0]
                sh.same('number of entries written for a kind', vlen(log), ONE, ser, r.I.S)
                e = vindex(log, ZERO)
                if not isinstance(e, Struct) or e.path != '#enc':
                    raise Bad('a kind is not written as a single byte', 'one byte', vshow(e), ser['at'])
                if sname(e.f[0]) != 'u8':
                    raise Bad('a kind is written as a %s' % sname(e.f[0]), 'one byte', vshow(e), ser['at'])
                sh.same('byte of %s' % kind, as_poly(e.f[1]), P(n), ser, r.I.S)
    obs.append(Ob('EquType bytes', 'kinds are the bytes 0..3 in declaration order', guard(kinds), [{}], sym=False))
    return obs


# ---------------------------------------------------------------- C16
def conjuncts(c, out=None):
    """conditions whose conjunction c is"""
    if out is None:
        out = {}
    if c.op == 'and':
        for x in c.args:
            conjuncts(x, out)
    elif c.op == 'not' and c.args[0].op == 'or':
        for x in c.args[0].args:
            conjuncts(c_not(x), out)
    elif c.op == 'all':
        b, n, body = c.args
        ix = fresh_ix(n)
        sub = conjuncts(body.subst({ix_atom(b): P(ix)}))
        for x in sub.values():
            y = c_all(ix, n, x)
            out[y.key] = y
    elif c is not TRUE:
        out[c.key] = c
    return out


def ix_atom(b):
    import poly
    return poly.ix_atom(b)


def all_valid(v, t, where, out):
    """conditions that every component of v has been checked, with the component's name"""
    t = strip(t)
    k = prim_kind(t)
    if k is not None:
        if k in ('G1', 'G2', 'GT'):
            p = as_poly(v)
            if p is None:
                raise Unsure('component %s is not determined' % where)
            out.append((where, c_not(bad(p, k))))
        return out
    if isinstance(v, Phi):
        if fieldless(t):
            return out
        raise Unsure('component %s depends on a condition' % where)
    if is_vec(t):
        if not isinstance(v, Vec):
            raise Unsure('component %s is not determined' % where)
        for n, ix, e in v.segs:
            inner = all_valid(e, elem(t), where + '[]', [])
            for w, c in inner:
                out.append((w, c if ix is None else c_all(ix, n, c)))
        return out
    if t['k'] == 'adt' and t['local']:
        if not isinstance(v, Struct):
            raise Unsure('component %s is not determined' % where)
        import env as _e
        a = ENV.p.adts[t['did']]
        if len(a['variants']) == 1:
            for f, x in zip(a['variants'][0]['fields'], v.f):
                all_valid(x, f['ty'], '%s.%s' % (where, f['name']), out)
        return out
    return out


ENV = None


def fieldless(t):
    return t['k'] == 'adt' and t['local'] and not any(x['fields'] for x in ENV.p.adts[t['did']]['variants'])


def implied(sh, r, ok_cond, parts, fn, what):
    sh.checked += len(parts)
    have = conjuncts(ok_cond)
    open_ = []
    for w, c in parts:
        need = conjuncts(c)
        if all(k in have for k in need):
            continue
        open_.append((w, c))
    if not open_:
        return
    # not literally among the conditions: case analysis
    for w, c in open_:
        bad_ = c_and(ok_cond, c_not(c))
        if bad_ is FALSE:
            continue
        res = {}

        def leaf(vs, certain, path):
            if vs[0] is FALSE:
                return
            if vs[0] is TRUE and certain:
                res['bad'] = path
            else:
                res['unsure'] = path
        if not cases([bad_], leaf, r.I.S, ('bad', 'iofail', 'eof')):
            res['unsure'] = ()
        if 'bad' in res:
            raise Bad('%s accepts a value whose component %s was not checked' % (what, w), 'failure when %s is invalid' % w,
                      'success when ' + cshow(ok_cond)[:600], fn['at'])
        if 'unsure' in res:
            raise Unsure('%s: check of %s' % (what, w))


def set_opts(sh, r):
    if not sh.sym:
        z = sh.sizes

        def n(path):
            k = '.'.join(str(p.const()) for p in path)
            return z.get('len@' + k, z.get('deep%d' % (len(path) // 2), z.get('len', 1)))
        r.I.opts['inlen'] = n


def c16(env):
    global ENV
    ENV = env
    obs = []
    shapes = [{'len': 1}, {'len': 0}] + [{'len': 0, 'deep1': 1, 'len@%d' % i: n} for n in (2, 3) for i in range(5)] + [{'len': 1, 'deep1': n} for n in (2, 3)]
    for adt in TYPES:
        de = env.method(adt, DE, 'deserialize_with_mode')
        t = env.ty(adt)
        if adt == 'EquType':
            continue
        for cm in (True, False):
            def fuzz(sh, adt=adt, de=de, cm=cm, t=t):
                r = sh.run()
                set_opts(sh, r)
                inp = r.cell(Struct(RD, 1, (Opq('s', ()), ZERO)))
                sh.call(de, [inp, yes_no(COMP, cm), yes_no(VALI, True)], run=r)
                if r.val is None or isinstance(r.val, Opq):
                    raise Unsure('result not determined')
                okv = r.I.pred(r.I.test(OK_PAT, r.val))
                v = ok_value(r, okv)
                implied(sh, r, okv, all_valid(v, t, adt, []), de, 'validated deserialisation of %s' % adt)
                # errors while decoding: no component of an accepted value replaces a failed read
                implied(sh, r, okv, all_read(v, t, adt, []), de, 'deserialisation of %s' % adt)
            obs.append(Ob('%s, %s, validated' % (adt, 'compressed' if cm else 'uncompressed'), 'success implies that every decoded component was read and checked', fuzz, shapes))
        chk = env.method(adt, VALID, 'check')

        def check(sh, adt=adt, chk=chk, t=t):
            for combo, x in values(env, sh, adt):
                r = sh.call(chk, [x])
                if r.val is None or isinstance(r.val, Opq):
                    raise Unsure('result not determined')
                implied(sh, r, r.I.pred(r.I.test(OK_PAT, r.val)), all_valid(x, t, adt, []), chk, 'check of %s' % adt)
        vs = [{'*': n} for n in (1, 2, 0, 3)]
        for k in list_keys(env, t, 'x'):
            vs += [{'*': 1, k: n} for n in (2, 3)]
        obs.append(Ob('%s::check' % adt, 'success implies that every component was checked', check, vs))
        bt = [x[1] for x in env.p.method(adt, VALID, 'batch_check') if x[1]]
        for fn in bt:
            def batch(sh, adt=adt, fn=fn, t=t):
                n = sh.dim('batch') if not sh.sym else P(Atom('batch', (), 'int'))
                tags = [(k + '#', 0) for k, _ in tag_keys(env, t, 'x')]
                dims = dict(tags)
                if not sh.sym:
                    for k in list_keys(env, t, 'x', 1):
                        dims[k] = sh.sizes.get('*', 1)
                xs = vec_fn(P(n), lambda i: env.sym(t, 'x', dims, (i,)))
                r = sh.call(fn, [It('vec', xs)])
                if r.val is None or isinstance(r.val, Opq):
                    raise Unsure('result not determined')
                vec_t = {'k': 'slice', 'ty': t}
                implied(sh, r, r.I.pred(r.I.test(OK_PAT, r.val)), all_valid(xs, vec_t, adt, []), fn, 'batch check of %s' % adt)
            obs.append(Ob('%s::batch_check' % adt, 'success implies that every component of every value was checked', batch,
                          [{'batch': b, '*': n} for b in (1, 2, 3) for n in (1, 2)]))
    de = env.method('EquType', DE, 'deserialize_with_mode')

    def bytes_(sh):
        Vocab(env)
        path = env.adt('EquType')['path']
        for cm in (True, False):
            for va in (True, False):
                for b in range(256):
                    log = vec_of(Struct('#enc', 0, (Lit('u8'), P(b), Lit(''))))
                    r = sh.run()
                    inp = r.cell(Struct(RD, 0, (log, ZERO)))
                    sh.call(de, [inp, yes_no(COMP, cm), yes_no(VALI, va)], run=r)
                    if r.val is None or isinstance(r.val, Opq):
                        raise Unsure('result not determined')
                    c = r.I.test(OK_PAT, r.val)
                    if b >= 4:
                        sh.same_cond('byte %d is accepted' % b, c, FALSE, de, r.I.S)
                    else:
                        sh.same_cond('byte %d is accepted' % b, c, TRUE, de, r.I.S)
                        sh.same('kind of byte %d' % b, r.I.proj(r.val, 0, 0), Struct(path, TAG[KINDS[b]], ()), de, r.I.S)

    def bread(sh):
        for va in (True, False):
            r = sh.run()
            inp = r.cell(Struct(RD, 1, (Opq('s', ()), ZERO)))
            sh.call(de, [inp, yes_no(COMP, True), yes_no(VALI, va)], run=r)
            if r.val is None or isinstance(r.val, Opq):
                raise Unsure('result not determined')
            okv = r.I.pred(r.I.test(OK_PAT, r.val))
            implied(sh, r, okv, [('the byte', c_not(c_opq('iofail', ZERO)))], de, 'deserialisation of EquType')
    obs.append(Ob('EquType bytes', 'exactly the bytes 0..3 decode', bytes_, [{}], sym=False))
    obs.append(Ob('EquType read errors', 'a failed read fails the whole', bread, [{}], sym=False))
    return obs


def ok_value(r, okv):
    """the decoded value of a successful result, under the conditions of success"""
    S = r.I.S
    S.add(okv)
    v = S.norm(r.I.proj(r.val, 0, 0))
    return drop(v, S)


def drop(v, S, d=0):
    if d > 12:
        return v
    if isinstance(v, Phi):
        k = S.known(v.c)
        if k is True:
            return drop(v.a, S, d + 1)
        if k is False:
            return drop(v.b, S, d + 1)
        return v
    if isinstance(v, Struct):
        return Struct(v.path, v.var, [drop(x, S, d + 1) if isinstance(x, V) else x for x in v.f])
    return v


def all_read(v, t, where, out):
    """every component of an accepted value comes from a successful read"""
    t = strip(t)
    k = prim_kind(t)
    if k is not None:
        p = as_poly(v)
        if p is None:
            raise Unsure('component %s is not determined' % where)
        for a in p.atoms():
            if a.name == 'ind':
                for c in leaves(P(a)).values():
                    if 'iofail' in c.key:
                        raise Bad('%s is accepted although a read failed' % where, 'failure', show(p), None)
                raise Unsure('component %s depends on a condition' % where)
            if a.name == 'in':
                out.append((where, c_not(c_opq('iofail', *a.args))))
        return out
    if isinstance(v, Phi):
        if any('iofail' in c.key for c in leaves(v).values()):
            raise Bad('%s is accepted although a read failed' % where, 'failure', vshow(v)[:300], None)
        if fieldless(t):
            return out
        raise Unsure('component %s depends on a condition' % where)
    if is_vec(t):
        if not isinstance(v, Vec):
            raise Unsure('component %s is not determined' % where)
        for n, ix, e in v.segs:
            for w, c in all_read(e, elem(t), where + '[]', []):
                out.append((w, c if ix is None else c_all(ix, n, c)))
        return out
    if t['k'] == 'adt' and t['local'] and isinstance(v, Struct):
        a = ENV.p.adts[t['did']]
        if len(a['variants']) == 1:
            for f, x in zip(a['variants'][0]['fields'], v.f):
                all_read(x, f['ty'], '%s.%s' % (where, f['name']), out)
    return out
