"""Transfer functions for library code outside the crate (core, alloc, ark_*, rayon).

The laws of the pairing backend are an assumption of every check (property C24): scalars act
linearly on groups, the pairing is bilinear, encodings of primitives round-trip."""
import math
import re
from poly import *
from values import *
import interp as _i
from loops import (iterate, collect, fold_add, it_len, it_get, Split, SOME_PAT, OK_PAT, indexable)
from prog import tsub, kind_of, is_vec, elem, strip, VEC

TABLE = {}


def m(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


_GEN = re.compile(r'::<(?!impl)[^<>]*(?:<[^<>]*(?:<[^<>]*>[^<>]*)*>[^<>]*)*>')


def owner(callee):
    tr = callee.get('trait')
    if tr:
        return _GEN.sub('', tr).split('::')[-1]
    p = callee['path']
    if p.startswith('<') and ' as ' in p:
        return ''
    x = p.rfind('::')
    h = p[:x]
    if re.search(r'<impl \[T; *N\]>', h):
        return 'array'
    if h.endswith('<impl [T]>') or '<impl [T' in h or '<impl [[T' in h:
        return 'slice'
    mm = re.search(r'<impl ([^>]*)>$', h)
    if mm:
        return mm.group(1)
    h = _GEN.sub('', h)
    h = re.sub(r'<[^<>]*>', '', re.sub(r'<[^<>]*>', '', h))
    return h.rstrip(':').split('::')[-1]


class C:
    """one foreign call"""
    __slots__ = ('I', 'callee', 'cargs', 'args', 'at', 'ty', 'name', 'own')

    def __init__(s, I, callee, cargs, args, at, ty):
        s.I, s.callee, s.cargs, s.args, s.at, s.ty = I, callee, cargs, args, at, ty
        s.name = callee['name']
        s.own = owner(callee)

    def v(s, i=0):
        return s.I.val(s.args[i])

    def p(s, i=0):
        v = s.v(i)
        r = as_poly(v)
        if r is None:
            raise _i.Undecided('non-scalar argument of %s' % s.name)
        return r

    def self_ty(s):
        return s.cargs[0] if s.cargs else None


def override(I, callee, args):
    return None


PANIC = ('core::panicking', 'std::rt', 'std::panicking', 'core::option::unwrap_failed', 'core::option::expect_failed',
         'core::result::unwrap_failed', 'std::process::abort', 'std::process::exit')


def call(I, callee, cargs, args, at, ty):
    c = C(I, callee, cargs, args, at, ty)
    path = callee['path']
    if path.startswith(PANIC) or (ty is not None and ty['k'] == 'never'):
        if c.name in ('assert_failed', 'unwrap_failed', 'panic_display', 'assert_matches_failed'):
            printed(c, [a for a in args if isinstance(a, (Poly, Vec, Struct, Phi, MRef))])
        I.panic(path.split('::')[-1], at)
        raise _i.Diverge()
    f = TABLE.get(c.own + '.' + c.name) or TABLE.get('*.' + c.name)
    if f is not None:
        def go(depth=0):
            # a model that needs to know a condition asks for a split: start again on either side
            S0 = I.S.fork()
            try:
                return f(c)
            except Split as s:
                I.S = S0
                if depth > 6 or I.decide(s.c) is not None:
                    raise _i.Undecided('case split in %s' % c.name)
                return I.branch(s.c, lambda: go(depth + 1), lambda: go(depth + 1))
        r = go()
        if r is not None:
            return r
    return unknown(c)


def unknown(c):
    I = c.I
    I.unknown[c.callee['path']] = I.unknown.get(c.callee['path'], 0) + 1
    r = c.ty
    for a in c.args:
        if isinstance(a, Clo) or (isinstance(a, It) and _i.refs(a)):
            raise _i.Undecided('unknown function %s' % c.callee['path'])
    if c.own in GIVEN or c.callee.get('trait') in I.p.traits:
        given(I, c.args, c.at)
    I.havoc(c.args)
    vals = tuple(a for a in c.args if not isinstance(a, (MRef, Clo, FnV)) and not hasattr(a, 'f') or isinstance(a, Struct))
    return Opq('fn:' + c.callee['path'], vals)


# traits by whose methods an object of the caller's receives values
GIVEN = ('Hash', 'Hasher', 'Write', 'Extend', 'Serializer', 'Serialize', 'BuildHasher', 'Sender')


def foreign(I, v):
    """an object or function supplied by the caller"""
    for _ in range(6):
        if not isinstance(v, MRef):
            break
        v = I.load(v)
    return isinstance(v, Opq) and v.tag.startswith('in ')


def given(I, args, at):
    """values handed to an object of the caller's"""
    if any(foreign(I, a) for a in args):
        for a in args:
            if not foreign(I, a):
                a = I.load(a) if isinstance(a, MRef) else a
                if isinstance(a, (V, Poly, Cond)):
                    I.event('give', I.S.norm(I.simp(a)), at, list(I.S.facts))


def disp(I, trait, name, cargs, args, at='?'):
    """trait method on a given self type"""
    return I.call({'kind': 'AssocFn', 'path': trait + '::' + name, 'name': name, 'trait': trait, 'local': False,
                   'args': cargs, 'did': '-', 'res': None}, None, args, at, None)


def has_local(I, trait, ty):
    return I.p.find_impl(trait, strip(ty), [strip(ty)]) is not None


def const(I, callee, cargs, ty):
    n = callee['name']
    k = kind_of(ty)
    if n == 'ONE' and k == 'F':
        return ONE
    if n == 'ZERO' and k in ('F', 'G1', 'G2', 'GT'):
        return ZERO
    if n == 'MAX' and ty['k'] == 'int':
        return P((1 << I.W.get(ty['name'], 64)) - 1)
    if n == 'MIN' and ty['k'] == 'int' and ty['name'][0] == 'u':
        return ZERO
    if n == 'BITS' and ty['k'] == 'int':
        return P(64)
    return Opq('const:' + callee['path'], ())


RANGE = 'core::ops::range::'


def mk_range(I, name, fl):
    fl = [I.val(x) for x in fl]
    if name == 'Range':
        return It('range', fl[0], fl[1])
    if name == 'RangeInclusive':
        return It('range', fl[0], fl[1] + 1)
    if name == 'RangeFrom':
        return It('rangefrom', fl[0])
    return Struct(RANGE + name, 0, fl)


def into_iter(I, v):
    if isinstance(v, MRef):
        x = I.simp(I.load(v))
        if isinstance(x, It):
            return v
        if isinstance(x, MRef):
            return into_iter(I, x)
        if isinstance(x, Struct) and x.path == MAP:
            return It('vec', map_items(I, x))
        return It('mut', v)
    v = I.simp(v)
    if isinstance(v, It):
        return v
    if isinstance(v, Vec):
        return It('vec', v)
    if isinstance(v, Phi):
        a, b = into_iter(I, v.a), into_iter(I, v.b)
        return Phi(v.c, a, b)
    if isinstance(v, Struct) and v.path == OPTION:
        return It('vec', vec_of(v.f[0]) if v.var == 1 else Vec([]))
    if isinstance(v, Struct) and v.path == MAP:
        return It('vec', map_items(I, v))
    return It('vec', v)


# ================================================================ containers
@m('Vec.new', 'Vec.with_capacity', 'Vec.default', 'String.new', 'VecDeque.new', 'VecDeque.with_capacity')
def _(c):
    return Vec([])


@m('Box.new', 'Rc.new', 'Arc.new', 'Box.pin', 'Deref.deref', 'DerefMut.deref_mut', 'AsRef.as_ref', 'AsMut.as_mut', 'Borrow.borrow',
   'BorrowMut.borrow_mut', 'Vec.as_slice', 'Vec.as_mut_slice', 'Vec.into_boxed_slice', 'slice.into_vec', 'array.as_slice',
   'AffineRepr.into_group', 'CurveGroup.into_affine', 'Iterator.by_ref', 'Iterator.copied', 'Iterator.cloned', 'Iterator.peekable',
   'Iterator.fuse', 'IndexedParallelIterator.with_min_len', 'IndexedParallelIterator.with_max_len', 'ParallelIterator.copied',
   'ParallelIterator.cloned', 'AffineRepr.into_prepared', 'Option.as_deref', 'Option.as_ref', 'Result.as_ref', 'Option.copied',
   'Option.cloned', 'PrimeField.into_bigint', 'Box.into_inner', 'hint.black_box', 'Vec.leak', 'VecDeque.make_contiguous', 'Option.as_slice', 'array.as_mut_slice',
   'convert.identity', 'Cow.into_owned', 'Cow.to_mut', 'Pairing.prepare', 'Box.leak', 'ManuallyDrop.new', 'Vec.into_iter')
def _(c):
    if c.name == 'into_iter':
        return into_iter(c.I, c.args[0])
    return c.args[0]


# the integer representation of a field element: determined for small constants only
def bits(name, *args):
    a = Atom('opq' + name, args, 'int')
    if all(x.const() is not None for x in args):
        q = FOLD['opq' + name](*[x.const() for x in args])
        if q is not None:
            return P(q)
    return P(a)


@m('BigInteger.num_bits')
def _(c):
    return bits('numbits', c.p())


@m('BigInteger.get_bit')
def _(c):
    return c_not(c_eq0(bits('bit', c.p(), c.p(1))))


@m('BigInteger.is_odd', 'BigInteger.is_even')
def _(c):
    z = c_eq0(bits('bit', c.p(), ZERO))
    return c_not(z) if c.name == 'is_odd' else z


@m('Box.new_uninit')
def _(c):
    return Opq('uninit', ())


@m('intrinsics.write_box_via_move')
def _(c):
    return c.args[1]


@m('boxed.box_assume_init_into_vec_unsafe')
def _(c):
    return c.args[0]


@m('mem.drop', '*.drop')
def _(c):
    return UNIT


@m('mem.forget', 'VecDeque.reserve', 'Vec.shrink_to', 'Vec.reserve', 'Vec.reserve_exact', 'Vec.shrink_to_fit')
def _(c):
    return UNIT


@m('Vec.len', 'VecDeque.len', 'slice.len', 'array.len', 'ExactSizeIterator.len', 'IndexedParallelIterator.len', 'String.len')
def _(c):
    v = c.v()
    if isinstance(v, It):
        return lenit(c.I, v)
    return c.I.len_of(v)


def lenit(I, it):
    def go():
        try:
            n = it_len(I, it)
        except Split as s:
            return I.branch(s.c, go, go)
        if n is None:
            raise _i.Undecided('endless iterator')
        return n
    if indexable(it):
        return go()
    return I.len_of(collect(I, it))


@m('Vec.capacity')
def _(c):
    return P(Atom('opqcap', (vkey(c.v()),), 'int'))


@m('Vec.is_empty', 'VecDeque.is_empty', 'slice.is_empty', 'ExactSizeIterator.is_empty', 'String.is_empty')
def _(c):
    v = c.v()
    n = lenit(c.I, v) if isinstance(v, It) else c.I.len_of(v)
    return c_eq0(n)


def upd(c, f, i=0):
    """replace the vector behind the mutable argument"""
    I, r = c.I, c.args[i]
    if not isinstance(r, MRef):
        raise _i.Undecided('mutation through %s' % type(r).__name__)
    v = I.dist(I.val(r), f)
    w = I.load(r)
    while isinstance(w, MRef):
        r, w = w, I.load(w)
    I.write(r, v)


def asvec(v):
    if isinstance(v, Vec):
        return v
    if isinstance(v, Phi):
        raise Split(v.c)
    raise _i.Undecided('not a vector: %s' % (v.tag if isinstance(v, Opq) else type(v).__name__))


def gvec(c, i=0):
    v = c.v(i)
    if isinstance(v, It):
        v = collect(c.I, v)
    return v


@m('Vec.push', 'VecDeque.push_back')
def _(c):
    x = c.args[1]
    upd(c, lambda v: vconcat(asvec(v), vec_of(x)))
    return UNIT


@m('Vec.pop', 'VecDeque.pop_back')
def _(c):
    I = c.I
    n = I.len_of(c.v())

    def yes():
        v = c.v()
        x = I.getix(v, n - 1)
        upd(c, lambda v: sl(asvec(v), ZERO, n - 1))
        return some(x)
    return I.branch(c_ge0(n - 1), yes, lambda: NONE)


def sl(v, lo, hi):
    st = Ctx.state
    if st is not None:
        lo, hi = st.settle(lo), st.settle(hi)
    r = vslice(v, lo, hi)
    if r is None:
        if st is not None:
            st.count_split(lo, hi)
        raise _i.Undecided('slice bounds')
    return r


@m('Vec.append', 'VecDeque.append')
def _(c):
    w = c.v(1)
    upd(c, lambda v: vconcat(asvec(v), asvec(w)))
    upd(c, lambda v: Vec([]), 1)
    return UNIT


@m('Vec.extend_from_slice')
def _(c):
    w = gvec(c, 1)
    upd(c, lambda v: vconcat(asvec(v), asvec(w)))
    return UNIT


@m('Extend.extend', 'Vec.extend', 'VecDeque.extend', 'ParallelExtend.par_extend')
def _(c):
    w = collect(c.I, into_iter(c.I, c.args[1]))
    upd(c, lambda v: vconcat(asvec(v), asvec(w)))
    return UNIT


@m('Vec.clear', 'VecDeque.clear')
def _(c):
    upd(c, lambda v: Vec([]))
    return UNIT


@m('Vec.truncate', 'VecDeque.truncate')
def _(c):
    n = c.p(1)
    I = c.I
    l = I.len_of(c.v())

    def cut():
        upd(c, lambda v: sl(asvec(v), ZERO, n))
        return UNIT
    return I.branch(c_lt(n, l), cut, lambda: UNIT)


@m('Vec.insert')
def _(c):
    i, x = c.p(1), c.args[2]
    I = c.I
    n = I.len_of(c.v())
    I.panic_if(c_lt(n, i), 'insertion index out of bounds', c.at)
    upd(c, lambda v: vconcat(sl(asvec(v), ZERO, i), vec_of(x), sl(v, i, n)))
    return UNIT


@m('Vec.remove', 'Vec.swap_remove')
def _(c):
    i = c.p(1)
    I = c.I
    n = I.len_of(c.v())
    I.panic_if(c_not(c_lt(i, n)), 'removal index out of bounds', c.at)
    x = I.getix(c.v(), i)
    if c.name == 'remove':
        upd(c, lambda v: vconcat(sl(asvec(v), ZERO, i), sl(v, i + 1, n)))
    else:
        l = I.getix(c.v(), n - 1)
        upd(c, lambda v: sl(vset(asvec(v), i, l), ZERO, n - 1))
    return x


@m('Vec.split_off')
def _(c):
    i = c.p(1)
    I = c.I
    n = I.len_of(c.v())
    I.panic_if(c_lt(n, i), 'split_off out of bounds', c.at)
    r = I.getsl(c.v(), i, n)
    upd(c, lambda v: sl(asvec(v), ZERO, i))
    return r


def bounds_of(I, rg, n):
    """(lo, hi) of a range value"""
    rg = I.val(rg)
    if isinstance(rg, It) and rg.kind == 'range':
        return rg.p
    if isinstance(rg, It) and rg.kind == 'rangefrom':
        return rg.p[0], n
    if isinstance(rg, Struct):
        k = rg.path.split('::')[-1]
        if k == 'RangeFull':
            return ZERO, n
        if k == 'RangeTo':
            return ZERO, rg.f[0]
        if k == 'RangeToInclusive':
            return ZERO, rg.f[0] + 1
    return None


@m('Vec.drain', 'VecDeque.drain', 'Vec.splice')
def _(c):
    I = c.I
    n = I.len_of(c.v())
    b = bounds_of(I, c.args[1], n)
    if b is None:
        raise _i.Undecided('drain range')
    lo, hi = b
    I.panic_if(c_not(c_and(c_le(lo, hi), c_le(hi, n))), 'range out of bounds', c.at)
    r = I.getsl(c.v(), lo, hi)
    if c.name == 'splice':
        new = asvec(collect(I, into_iter(I, c.args[2])))
        upd(c, lambda v: vconcat(vconcat(sl(asvec(v), ZERO, lo), new), sl(v, hi, n)))
    else:
        upd(c, lambda v: vconcat(sl(asvec(v), ZERO, lo), sl(v, hi, n)))
    return It('vec', r)


@m('Vec.resize')
def _(c):
    I = c.I
    n, x = c.p(1), c.args[2]
    l = I.len_of(c.v())

    def grow():
        upd(c, lambda v: vconcat(asvec(v), vec_fn(n - l, lambda i: x)))
        return UNIT

    def cut():
        upd(c, lambda v: sl(asvec(v), ZERO, n))
        return UNIT
    return I.branch(c_le(l, n), grow, cut)


@m('slice.swap', 'Vec.swap', 'VecDeque.swap')
def _(c):
    I = c.I
    i, j = c.p(1), c.p(2)
    n = I.len_of(c.v())
    I.panic_if(c_not(c_and(c_lt(i, n), c_lt(j, n))), 'index out of bounds', c.at)
    a, b = I.getix(c.v(), i), I.getix(c.v(), j)
    upd(c, lambda v: vset(vset(asvec(v), i, b), j, a))
    return UNIT


@m('VecDeque.push_front')
def _(c):
    x = c.args[1]
    upd(c, lambda v: vconcat(vec_of(x), asvec(v)))
    return UNIT


@m('VecDeque.pop_front')
def _(c):
    I = c.I
    n = I.len_of(c.v())

    def yes():
        x = I.getix(c.v(), ZERO)
        upd(c, lambda v: sl(asvec(v), ONE, n))
        return some(x)
    return I.branch(c_ge0(n - 1), yes, lambda: NONE)


@m('slice.reverse', 'Vec.reverse')
def _(c):
    v = collect(c.I, It('rev', It('vec', c.v())))
    upd(c, lambda _: v)
    return UNIT


@m('slice.fill')
def _(c):
    x = c.args[1]
    upd(c, lambda v: vec_fn(vlen(asvec(v)), lambda i: x))
    return UNIT


@m('slice.fill_with')
def _(c):
    I = c.I
    f = c.args[1]
    w = collect(I, It('map', It('range', ZERO, I.len_of(c.v())), _i.PyFn(lambda _i: I.call_clo(f, []))))
    upd(c, lambda v: w)
    return UNIT


@m('Vec.resize_with')
def _(c):
    I = c.I
    n, f = c.p(1), c.args[2]
    l = I.len_of(c.v())

    def grow():
        w = collect(I, It('map', It('range', ZERO, n - l), _i.PyFn(lambda _i: I.call_clo(f, []))))
        upd(c, lambda v: vconcat(asvec(v), w))
        return UNIT

    def cut():
        upd(c, lambda v: sl(asvec(v), ZERO, n))
        return UNIT
    return I.branch(c_le(l, n), grow, cut)


@m('slice.copy_from_slice', 'slice.clone_from_slice')
def _(c):
    I = c.I
    w = gvec(c, 1)
    I.panic_if(c_not(c_eq(I.len_of(c.v()), I.len_of(w))), 'slice length mismatch', c.at)
    upd(c, lambda v: w)
    return UNIT


@m('slice.to_vec', 'ToOwned.to_owned', 'slice.into_vec', 'Vec.to_vec')
def _(c):
    return c.v()


@m('slice.iter', 'Vec.iter', 'VecDeque.iter', 'IntoParallelRefIterator.par_iter', 'array.iter', 'Option.iter')
def _(c):
    v = c.v()
    return into_iter(c.I, v)


@m('slice.iter_mut', 'Vec.iter_mut', 'VecDeque.iter_mut', 'IntoParallelRefMutIterator.par_iter_mut')
def _(c):
    r = c.args[0]
    if isinstance(r, MRef):
        w = c.I.load(r)
        while isinstance(w, MRef):
            r, w = w, c.I.load(w)
        return It('mut', r)


@m('IntoIterator.into_iter', 'IntoParallelIterator.into_par_iter')
def _(c):
    return into_iter(c.I, c.args[0])


def turned(I, it):
    """the elements last first: an order in which parallel parts may be delivered or worked on"""
    if I.opts.get('order') == 'fwd':
        return it
    return It('rev', it if indexable(it) else It('vec', collect(I, it)), UNIT)


def level(it):
    """for consumers that do not depend on the order"""
    if isinstance(it, It) and it.kind == 'rev' and len(it.p) > 1:
        return level(it.p[0])
    if isinstance(it, It) and it.kind in ('map', 'filter', 'fmap', 'flat', 'inspect'):
        return It(it.kind, level(it.p[0]), *it.p[1:])
    return it


@m('ParallelBridge.par_bridge')
def _(c):
    return turned(c.I, into_iter(c.I, c.args[0]))


# data shared between threads, and cells: the content lives behind a reference of its own
CELL = 'gsa::Cell'


@m('Mutex.new', 'RwLock.new', 'RefCell.new', 'Cell.new', 'AtomicUsize.new', 'AtomicU64.new', 'AtomicU32.new', 'AtomicBool.new', 'AtomicI64.new',
   'AtomicI32.new', 'AtomicIsize.new', 'AtomicU8.new', 'AtomicU16.new', 'Atomic.new')
def _(c):
    if c.own not in ('RefCell', 'Cell'):
        c.I.shared = True
    return Struct(CELL, 0, (MRef(c.I.cell(c.args[0]), ()),))


def inside(c, k=0):
    v = c.v(k)
    if isinstance(v, Struct) and v.path == CELL:
        return v.f[0]
    return None


@m('Mutex.lock', 'RwLock.read', 'RwLock.write', 'Mutex.get_mut', 'RwLock.get_mut', 'Mutex.try_lock')
def _(c):
    r = inside(c)
    return None if r is None else ok(r)


@m('RefCell.borrow', 'RefCell.borrow_mut', 'RefCell.get_mut', 'Cell.get_mut', 'Atomic.get_mut', 'AtomicUsize.get_mut')
def _(c):
    r = inside(c)
    return r


@m('Mutex.into_inner', 'RwLock.into_inner')
def _(c):
    r = inside(c)
    return None if r is None else ok(c.I.load(r))


@m('RefCell.into_inner', 'Cell.into_inner', 'Cell.get', 'Cell.take', 'RefCell.take', 'RefCell.replace', 'Cell.replace', 'Cell.set')
def _(c):
    r = inside(c)
    if r is None or c.name == 'take':
        return None
    v = c.I.load(r)
    if c.name in ('replace', 'set'):
        c.I.write(r, c.args[1])
    return UNIT if c.name == 'set' else v


def atomic(c):
    r = inside(c)
    if r is None:
        return None
    v = c.I.load(r)
    if c.name in ('load', 'into_inner'):
        return v
    if c.name in ('store', 'swap'):
        c.I.write(r, c.args[1])
        return UNIT if c.name == 'store' else v
    a, b = as_poly(c.I.val(v)), as_poly(c.v(1))
    if c.name in ('fetch_add', 'fetch_sub') and a is not None and b is not None:
        c.I.write(r, a + b if c.name == 'fetch_add' else a - b)
        return v
    if c.name in ('fetch_and', 'fetch_or') and a is None and b is None:
        x, y = c.I.as_cond(v), c.I.as_cond(c.v(1))
        c.I.write(r, c_and(x, y) if c.name == 'fetch_and' else c_or(x, y))
        return v
    if c.name in ('fetch_max', 'fetch_min') and a is not None and b is not None:
        big = c_lt(a, b) if c.name == 'fetch_max' else c_lt(b, a)
        c.I.write(r, c.I.branch(big, lambda: b, lambda: a))
        return v
    return None


for _t in ('Atomic', 'AtomicUsize', 'AtomicU64', 'AtomicU32', 'AtomicBool', 'AtomicI64', 'AtomicI32', 'AtomicIsize', 'AtomicU8', 'AtomicU16'):
    for _n in ('load', 'store', 'swap', 'fetch_add', 'fetch_sub', 'fetch_and', 'fetch_or', 'fetch_max', 'fetch_min', 'into_inner'):
        m('%s.%s' % (_t, _n))(atomic)


def optget(I, v, i):
    n = I.len_of(v)
    return I.branch(c_and(c_ge0(i), c_lt(i, n)), lambda: some(I.getix(I.val(v), i)), lambda: NONE)


@m('slice.get', 'Vec.get', 'VecDeque.get')
def _(c):
    I = c.I
    i = c.v(1)
    v = c.v()
    q = as_poly(i) if not isinstance(i, (It, Struct)) else None
    if q is not None:
        return optget(I, v, q)
    n = I.len_of(v)
    b = bounds_of(I, i, n)
    if b is None:
        raise _i.Undecided('get range')
    return I.branch(c_and(c_le(b[0], b[1]), c_le(b[1], n)), lambda: some(I.getsl(v, *b)), lambda: NONE)


@m('slice.get_mut', 'Vec.get_mut', 'slice.first_mut', 'slice.last_mut', 'VecDeque.get_mut')
def _(c):
    I = c.I
    r = c.args[0]
    if not isinstance(r, MRef):
        return None
    n = I.len_of(c.v())
    i = as_poly(c.v(1)) if c.name == 'get_mut' else ZERO if c.name == 'first_mut' else n - 1
    if i is None:
        raise _i.Undecided('get_mut range')
    return I.branch(c_and(c_ge0(i), c_lt(i, n)), lambda: some(I.isub(r, ('i', i))), lambda: NONE)


@m('slice.first', 'Vec.first', 'VecDeque.front')
def _(c):
    return optget(c.I, c.v(), ZERO)


@m('slice.last', 'Vec.last', 'VecDeque.back')
def _(c):
    return optget(c.I, c.v(), c.I.len_of(c.v()) - 1)


@m('slice.split_first', 'slice.split_last')
def _(c):
    I = c.I
    v = c.v()
    n = I.len_of(v)

    def yes():
        if c.name == 'split_first':
            return some(tup(I.getix(v, ZERO), I.getsl(v, ONE, n)))
        return some(tup(I.getix(v, n - 1), I.getsl(v, ZERO, n - 1)))
    return I.branch(c_ge0(n - 1), yes, lambda: NONE)


@m('slice.first_chunk', 'slice.last_chunk', 'slice.split_first_chunk', 'slice.split_last_chunk', 'slice.split_at_checked', 'slice.as_array')
def _(c):
    I = c.I
    v = c.v()
    n = I.len_of(v)
    if c.name == 'split_at_checked':
        k = c.p(1)
    else:
        k = next((P(x) for x in (int(a['v']) if a and a['k'] == 'const' and a.get('v') is not None else None for a in c.cargs) if x is not None), None)
        if k is None:
            raise _i.Undecided('length of an array')
    if c.name == 'as_array':
        return I.branch(c_eq0(n - k), lambda: some(v), lambda: NONE)

    def yes():
        if c.name == 'first_chunk':
            return some(I.getsl(v, ZERO, k))
        if c.name == 'last_chunk':
            return some(I.getsl(v, n - k, n))
        if c.name == 'split_last_chunk':
            return some(tup(I.getsl(v, ZERO, n - k), I.getsl(v, n - k, n)))
        return some(tup(I.getsl(v, ZERO, k), I.getsl(v, k, n)))
    return I.branch(c_ge0(n - k), yes, lambda: NONE)


@m('slice.copy_within')
def _(c):
    I = c.I
    v = c.v()
    n = I.len_of(v)
    b = bounds_of(I, c.v(1), n)
    if b is None:
        raise _i.Undecided('copy_within range')
    d = c.p(2)
    k = b[1] - b[0]
    I.panic_if(c_not(c_and(c_le(b[0], b[1]), c_le(b[1], n), c_le(d + k, n))), 'range out of bounds', c.at)
    w = I.getsl(v, *b)
    upd(c, lambda v: vconcat(vconcat(sl(asvec(v), ZERO, d), asvec(w)), sl(asvec(v), d + k, n)))
    return UNIT


@m('Vec.extend_from_within')
def _(c):
    I = c.I
    v = c.v()
    n = I.len_of(v)
    b = bounds_of(I, c.v(1), n)
    if b is None:
        raise _i.Undecided('extend_from_within range')
    I.panic_if(c_not(c_and(c_le(b[0], b[1]), c_le(b[1], n))), 'range out of bounds', c.at)
    w = I.getsl(v, *b)
    upd(c, lambda v: vconcat(asvec(v), asvec(w)))
    return UNIT


@m('Vec.try_reserve', 'Vec.try_reserve_exact')
def _(c):
    return ok(UNIT)


@m('Option.unzip')
def _(c):
    I = c.I
    v = c.v()
    return I.branch(I.test(SOME_PAT, v), lambda: tup(some(I.proj(I.proj(v, 1, 0), 0, 0)), some(I.proj(I.proj(v, 1, 0), 0, 1))), lambda: tup(NONE, NONE))


@m('Option.as_mut', 'Result.as_mut', 'Option.as_deref_mut')
def _(c):
    I = c.I
    v, o, ix = side(c)
    r = c.args[0]
    if not isinstance(r, MRef) or not o:
        return None
    return I.branch(I.test(SOME_PAT, v), lambda: some(I.isub(r, ('f', 0))), lambda: NONE)


@m('slice.split_at', 'slice.split_at_mut')
def _(c):
    I = c.I
    v, k = c.v(), c.p(1)
    n = I.len_of(v)
    I.panic_if(c_lt(n, k), 'split_at out of bounds', c.at)
    if c.name == 'split_at_mut' and isinstance(c.args[0], MRef):
        return tup(I.isub(c.args[0], ('s', ZERO, k)), I.isub(c.args[0], ('s', k, n)))
    return tup(I.getsl(v, ZERO, k), I.getsl(v, k, n))


@m('slice.chunks', 'slice.chunks_exact', 'ParallelSlice.par_windows', 'ParallelSlice.par_chunks', 'ParallelSlice.par_chunks_exact', 'slice.windows')
def _(c):
    v, k = c.v(), c.p(1)
    if c.name in ('chunks_exact', 'par_chunks_exact'):
        I = c.I
        I.panic_if(c_eq0(k), 'chunk size must be non-zero', c.at)
        n = I.len_of(v)
        d = divide(n, k)
        if d is not None and d[1].is_zero():
            return It('chunks', v, k)
        q = d[0] if d is not None else idiv('opDiv', n, k)
        if d is None:
            I.S.add(c_ge0(n - q * k))
            I.S.add(c_ge0(q * k + k - 1 - n))
        return It('chunks', I.getsl(v, ZERO, q * k), k, I.getsl(v, q * k, n))
    c.I.panic_if(c_eq0(k), 'chunk size must be non-zero', c.at)
    return It('windows' if c.name.endswith('windows') else 'chunks', v, k)


@m('ChunksExact.remainder', 'ChunksExact.into_remainder')
def _(c):
    it = c.v()
    while isinstance(it, It) and it.kind == 'pos':
        it = it.p[0]
    if isinstance(it, It) and it.kind == 'chunks':
        return it.p[2] if len(it.p) > 2 else Vec([])


@m('slice.concat', 'Concat.concat', 'slice.as_flattened', 'Vec.into_flattened')
def _(c):
    I = c.I
    return collect(I, It('flat', into_iter(I, c.v())))


@m('slice.contains')
def _(c):
    I = c.I
    x = c.v(1)
    t = c.cargs[0] if c.cargs else None
    f = _i.PyFn(lambda y: eq_ty(I, t, t, y, x, c.at) if t else I.equal(y, x))
    return anyall(I, into_iter(I, c.v()), f, False)


@m('slice.repeat')
def _(c):
    I = c.I
    v = c.v()
    n = c.p(1).const()
    if n is None:
        raise _i.Undecided('repeat')
    return vconcat(*[asvec(v)] * n)


@m('vec.from_elem')
def _(c):
    x, n = c.args[0], c.p(1)
    return vec_fn(n, lambda i: x)


@m('array.from_fn', 'array.map')
def _(c):
    I = c.I
    if c.name == 'map':
        return collect(I, It('map', It('vec', c.v()), c.args[1]))
    n = None
    for a in c.cargs:
        if a and a['k'] == 'const' and a.get('v') is not None:
            n = int(a['v'])
    if n is None and c.ty is not None and c.ty['k'] == 'array':
        n = (c.ty.get('len') or {}).get('v')
        n = int(n) if n is not None else None
    if n is None:
        raise _i.Undecided('array length')
    return collect(I, It('map', It('range', ZERO, P(n)), c.args[0]))


TABLE['[T; N].map'] = TABLE['array.map']


# ---------------------------------------------------------------- indexing
@m('Index.index', 'SliceIndex.index')
def _(c):
    I = c.I
    v, i = c.v(), c.v(1)
    p = as_poly(i) if not isinstance(i, (It, Struct)) else None
    if p is not None:
        I.bounds(v, p, c.at)
        return I.getix(c.v(), p)
    n = I.len_of(v)
    b = bounds_of(I, i, n)
    if b is None:
        raise _i.Undecided('index type')
    I.panic_if(c_not(c_and(c_le(b[0], b[1]), c_le(b[1], n))), 'range out of bounds', c.at)
    return I.getsl(v, b[0], b[1])


@m('IndexMut.index_mut')
def _(c):
    I = c.I
    r = c.args[0]
    if not isinstance(r, MRef):
        r = MRef(I.cell(r), ())
    w = I.load(r)
    while isinstance(w, MRef):
        r, w = w, I.load(w)
    i = c.v(1)
    p = as_poly(i) if not isinstance(i, (It, Struct)) else None
    v = I.load(r)
    if p is not None:
        I.bounds(v, p, c.at)
        return I.isub(r, ('i', p))
    n = I.len_of(v)
    b = bounds_of(I, i, n)
    if b is None:
        raise _i.Undecided('index type')
    I.panic_if(c_not(c_and(c_le(b[0], b[1]), c_le(b[1], n))), 'range out of bounds', c.at)
    return I.isub(r, ('s', b[0], b[1]))


# ================================================================ iterators
def adapt(kind):
    def f(c):
        it = c.args[0]
        if isinstance(it, MRef):
            it = into_iter(c.I, it) if not isinstance(c.I.simp(c.I.load(it)), It) else it
        else:
            it = into_iter(c.I, it)
        if isinstance(it, MRef):
            # adaptor over a borrowed iterator: consumes it
            x = c.I.load(it)
            if kind in ('take',):
                raise _i.Undecided('take by reference')
            c.I.write(it, It('vec', Vec([])))
            it = x
        return It(kind, it, *c.args[1:])
    return f


for _n, _k in (('map', 'map'), ('filter', 'filter'), ('filter_map', 'fmap'), ('flat_map', 'flat'), ('flatten', 'flat'),
               ('inspect', 'inspect'), ('take_while', 'takew'), ('skip_while', 'skipw'), ('map_while', 'mapw'), ('enumerate', 'enum'), ('rev', 'rev'),
               ('flat_map_iter', 'flat')):
    for _o in ('Iterator', 'ParallelIterator', 'IndexedParallelIterator', 'DoubleEndedIterator'):
        TABLE[_o + '.' + _n] = adapt(_k)


@m('Option.map', 'Result.map')
def _(c):
    f = c.args[1]
    return optmap(c, lambda x: c.I.call_clo(f, [x]))


@m('Iterator.zip', 'IndexedParallelIterator.zip', 'IndexedParallelIterator.zip_eq', 'Itertools.zip_eq', 'iter.zip')
def _(c):
    I = c.I
    a, b = into_iter(I, c.args[0]), into_iter(I, c.args[1])
    a, b = own(I, a), own(I, b)
    if c.name == 'zip_eq':
        I.panic_if(c_not(c_eq(lenit(I, a), lenit(I, b))), 'zip_eq length mismatch', c.at)
    return It('zip', a, b)


def own(I, it):
    if isinstance(it, MRef):
        x = I.load(it)
        I.write(it, It('vec', Vec([])))
        it = x
    if isinstance(it, It) and not indexable(it):
        return It('vec', collect(I, it))
    return it


@m('Iterator.chain', 'ParallelIterator.chain', 'iter.chain')
def _(c):
    I = c.I
    return It('chain', own2(I, into_iter(I, c.args[0])), own2(I, into_iter(I, c.args[1])))


def own2(I, it):
    if isinstance(it, MRef):
        x = I.load(it)
        I.write(it, It('vec', Vec([])))
        return x
    return it


@m('Iterator.take', 'Iterator.skip', 'IndexedParallelIterator.take', 'IndexedParallelIterator.skip', 'Iterator.step_by')
def _(c):
    I = c.I
    it = into_iter(I, c.args[0])
    n = c.p(1)
    if isinstance(it, MRef):
        src = I.load(it)
        if not indexable(src):
            raise _i.Undecided('take by reference')
        if c.name == 'take':
            I.write(it, It('pos', src, n))
            return It('take', src, n)
        I.write(it, It('vec', Vec([])))
        it = src
    it = own(I, it)
    return It({'take': 'take', 'skip': 'skip', 'step_by': 'stepby'}[c.name], it, n)


@m('ParallelIterator.take_any', 'ParallelIterator.skip_any')
def _(c):
    I = c.I
    return It(c.name[:4], own(I, turned(I, into_iter(I, c.args[0]))), c.p(1))


@m('Iterator.cycle')
def _(c):
    raise _i.Undecided('cycle')


@m('iter.repeat', 'repeat.repeat')
def _(c):
    return It('repeat', c.args[0])


@m('iter.repeat_n', 'repeat_n.repeat_n')
def _(c):
    return It('take', It('repeat', c.args[0]), c.p(1))


@m('iter.repeat_with', 'repeat_with.repeat_with')
def _(c):
    return It('repeatw', c.args[0])


@m('iter.once', 'once.once')
def _(c):
    return It('vec', vec_of(c.args[0]))


@m('slice.from_ref', 'raw.from_ref', 'array.from_ref')
def _(c):
    return vec_of(c.v())


@m('slice.from_mut', 'raw.from_mut', 'array.from_mut')
def _(c):
    raise _i.Undecided('from_mut')


@m('iter.empty', 'empty.empty')
def _(c):
    return It('vec', Vec([]))


@m('RangeInclusive.new')
def _(c):
    return It('range', c.p(0), c.p(1) + 1)


@m('Iterator.next', 'DoubleEndedIterator.next_back')
def _(c):
    I = c.I
    r = c.args[0]
    if not isinstance(r, MRef):
        return None
    it = I.load(r)
    while isinstance(it, MRef):
        r, it = it, I.load(it)
    if not isinstance(it, (It, Phi)):
        return None
    if isinstance(it, It) and not indexable(it):
        it = It('vec', collect(I, it))
        I.write(r, it)

    def go():
        try:
            it = I.simp(I.load(r))
            if isinstance(it, Phi):
                raise Split(it.c)
            n = it_len(I, it)
            if n is None:
                c1 = TRUE
            else:
                c1 = c_ge0(n - 1)

            def yes():
                it = I.simp(I.load(r))
                if c.name == 'next_back':
                    x = it_get(I, it, n - 1)
                    I.write(r, It('take', it, n - 1))
                    return some(x)
                x = it_get(I, it, ZERO)
                I.write(r, It('pos', it.p[0], it.p[1] + 1) if it.kind == 'pos' else It('pos', it, ONE))
                return some(x)
            return I.branch(c1, yes, lambda: NONE)
        except Split as s:
            return I.branch(s.c, go, go)
    return go()


@m('Peekable.peek', 'Peekable.next_if', 'Peekable.next_if_eq')
def _(c):
    I = c.I
    nxt = TABLE['Iterator.next']
    r = c.args[0]
    old = I.load(r)
    import copy
    d = copy.copy(c)
    d.name, d.args = 'next', [r]
    x = nxt(d)
    if x is None:
        return None
    if c.name == 'peek':
        it = I.load(r)
        I.write(r, old if not isinstance(it, It) or it.kind != 'pos' else It('pos', it.p[0], it.p[1] - 1))
        return x

    def keep():
        I.write(r, old)
        return NONE

    def have():
        y = I.proj(x, 1, 0)
        t = I.as_cond(I.val(I.call_clo(c.args[1], [y]) if c.name == 'next_if' else I.equal(I.val(y), I.val(c.args[1]))))
        return I.branch(t, lambda: x, keep)
    return I.branch(I.test(SOME_PAT, x), have, lambda: NONE)


@m('Iterator.collect', 'ParallelIterator.collect', 'FromIterator.from_iter', 'Itertools.collect_vec')
def _(c):
    I = c.I
    tgt = None
    if c.name == 'collect':
        tgt = c.cargs[1] if len(c.cargs) > 1 else None
    elif c.name == 'from_iter':
        tgt = c.cargs[0]
    it = into_iter(I, c.args[0])
    if c.own == 'ParallelIterator' and I.shared and I.opts.get('order') != 'fwd':
        it = It('rev', It('vec', collect(I, turned(I, it))))        # worked on last first, results in their places
    return collect_to(I, it, tgt)


def collect_to(I, it, tgt):
    p = tgt.get('path') if tgt is not None and tgt['k'] == 'adt' else None
    if p in (RESULT, OPTION):
        v = collect(I, it)
        isr = p == RESULT

        def one(v):
            n = vlen(v)
            pat = OK_PAT if isr else SOME_PAT
            idx = 0 if isr else 1
            if n.const() is not None:
                cs = [I.test(pat, vindex(v, P(j))) for j in range(n.const())]
                good = c_and(*cs)
                els = vec_of(*[pj(I, vindex(v, P(j)), idx) for j in range(n.const())])
            else:
                ix = fresh_ix(n)
                x = vindex(v, P(ix))
                good = c_all(ix, n, I.test(pat, x))
                els = mkvec([(n, ix, pj(I, x, idx))])
            inner = tgt['args'][0]
            if inner and inner['k'] == 'tuple' and not inner['tys']:
                els = UNIT
            return merge(good, ok(els) if isr else some(els), err(Opq('collect-err', ())) if isr else NONE)
        return I.dist(v, lambda v: one(asvec(v)))
    if p is not None and p.split('::')[-1] in ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet'):
        class K:
            name = 'collect'
        K.I = I
        isset = p.endswith('Set')
        es = [(x, UNIT) if isset else (I.proj(I.val(x), 0, 0), I.proj(I.val(x), 0, 1)) for x in klist(K, collect(I, it))]
        return Struct(MAP, int('BTree' in p), tuple(tup(TRUE, k, x) for k, x in es))
    if p is not None and p not in (VEC, 'alloc::boxed::Box', 'alloc::collections::vec_deque::VecDeque') and not p.endswith('LinkedList'):
        v = collect(I, it)
        return Opq('collect:' + p, (v,))
    return collect(I, it)


def pj(I, v, idx):
    return I.proj(v, idx, 0) if I.may(v, idx) else Opq('unreach', ())


@m('ParallelIterator.collect_into_vec', 'IndexedParallelIterator.collect_into_vec')
def _(c):
    v = collect(c.I, into_iter(c.I, c.args[0]))
    upd(c, lambda _: v, 1)
    return UNIT


def local_sum(I, c, trait, name):
    t = c.cargs[1] if len(c.cargs) > 1 else None
    if t is not None and strip(t)['k'] == 'adt' and strip(t)['local']:
        hit = I.p.find_impl('core::iter::traits::accum::' + trait, t, [t])
        if hit:
            for it in hit[0]['items']:
                if it['name'] == name and it['did'] in I.p.fns:
                    b = hit[1]
                    ta = [b.get(i) for i in range(len(hit[0]['generics']))]
                    return I.invoke(I.p.fns[it['did']], ta + [c.cargs[0]], [own2(I, into_iter(I, c.args[0]))])
        raise _i.Undecided('sum of %s' % t.get('path'))
    return None


@m('Iterator.sum', 'ParallelIterator.sum', 'Sum.sum')
def _(c):
    I = c.I
    if c.own != 'Sum':
        r = local_sum(I, c, 'Sum', 'sum')
        if r is not None:
            return r
    return fold_add(I, level(into_iter(I, c.args[0])), ZERO)


@m('Iterator.product', 'ParallelIterator.product')
def _(c):
    I = c.I
    r = local_sum(I, c, 'Product', 'product')
    if r is not None:
        return r
    return dofold(I, level(into_iter(I, c.args[0])), ONE, lambda a, x: as_poly(I.val(a)) * as_poly(I.val(x)))


def dofold(I, it, init, f):
    k = I.cell(init)

    def cons(x):
        a = I.S.store[k]
        I.S.store[k] = f(a, x)
        return UNIT
    iterate(I, it, cons)
    return I.S.store.pop(k)


@m('Iterator.fold', 'Iterator.rfold')
def _(c):
    I = c.I
    it = into_iter(I, c.args[0])
    if c.name == 'rfold':
        it = It('rev', own(I, it))
    f = c.args[2]
    return dofold(I, it, c.args[1], lambda a, x: I.call_clo(f, [a, x]))


def parhook(c):
    h = c.I.opts.get('parhook')
    if h is not None:
        h(c, None)


def parts(I, it):
    """the parts a parallel operation may work on: two halves, or (length unknown) everything and a part without elements"""
    v = collect(I, it)
    n = I.len_of(v)
    k = n.const()
    if k is None:
        return [v, vec_of()]
    if k < 2:
        return [v]
    return [I.getsl(v, ZERO, P(k // 2)), I.getsl(v, P(k // 2), n)]


@m('ParallelIterator.reduce')
def _(c):
    I = c.I
    parhook(c)
    f = c.args[2]
    r = None
    for v in parts(I, into_iter(I, c.args[0])):
        x = dofold(I, It('vec', v), I.call_clo(c.args[1], []), lambda a, x: I.call_clo(f, [a, x]))
        r = x if r is None else I.call_clo(f, [r, x])
    return r


@m('Iterator.reduce', 'ParallelIterator.reduce_with')
def _(c):
    I = c.I
    f = c.args[1]
    if c.own == 'ParallelIterator':
        parhook(c)
    v = collect(I, into_iter(I, c.args[0]))
    n = I.len_of(v)

    def yes():
        rest = I.getsl(v, ONE, n)
        return some(dofold(I, It('vec', rest), I.getix(v, ZERO), lambda a, x: I.call_clo(f, [a, x])))
    return I.branch(c_ge0(n - 1), yes, lambda: NONE)


@m('ParallelIterator.fold')
def _(c):
    I = c.I
    parhook(c)
    f = c.args[2]
    return It('vec', vec_of(*[dofold(I, It('vec', v), I.call_clo(c.args[1], []), lambda a, x: I.call_clo(f, [a, x]))
                              for v in parts(I, into_iter(I, c.args[0]))]))


@m('ParallelIterator.fold_with')
def _(c):
    I = c.I
    f = c.args[2]
    return It('vec', vec_of(*[dofold(I, It('vec', v), c.args[1], lambda a, x: I.call_clo(f, [a, x])) for v in parts(I, into_iter(I, c.args[0]))]))


@m('IndexedParallelIterator.fold_chunks')
def _(c):
    I = c.I
    I.panic_if(c_eq0(c.p(1)), 'chunk size must be non-zero', c.at)
    f = c.args[3]
    it = It('chunks', collect(I, into_iter(I, c.args[0])), c.p(1))
    return It('map', it, _i.PyFn(lambda v: dofold(I, It('vec', I.val(v)), I.call_clo(c.args[2], []), lambda a, x: I.call_clo(f, [a, x]))))


@m('IndexedParallelIterator.positions')
def _(c):
    I = c.I
    xs = klist(c, collect(I, into_iter(I, c.args[0])))
    v = vec_of(*[tup(P(k), x) for k, x in enumerate(xs)])
    f = c.args[1]
    kept = It('filter', It('vec', v), _i.PyFn(lambda y: I.call_clo(f, [I.proj(I.val(y), 0, 1)])))
    return It('map', kept, _i.PyFn(lambda y: I.proj(I.val(y), 0, 0)))


@m('ParallelIterator.for_each_init', 'ParallelIterator.for_each_with')
def _(c):
    I = c.I
    f = c.args[2]
    it = into_iter(I, c.args[0])
    if I.shared:
        it = turned(I, it)

    def one(x):
        st = I.call_clo(c.args[1], []) if c.name == 'for_each_init' else c.args[1]
        I.call_clo(f, [MRef(I.cell(I.val(st)), ()), x])
        return UNIT
    iterate(I, it, one)
    return UNIT


@m('ParallelIterator.update')
def _(c):
    I = c.I
    f = c.args[1]

    def one(x):
        k = I.cell(I.val(x))
        I.call_clo(f, [MRef(k, ())])
        return I.S.store[k]
    return It('map', into_iter(I, c.args[0]), _i.PyFn(one))


@m('IndexedParallelIterator.chunks')
def _(c):
    I = c.I
    c.I.panic_if(c_eq0(c.p(1)), 'chunk size must be non-zero', c.at)
    return It('chunks', collect(I, into_iter(I, c.args[0])), c.p(1))


@m('IndexedParallelIterator.unzip_into_vecs')
def _(c):
    I = c.I
    v = It('vec', collect(I, into_iter(I, c.args[0])))
    for k in (0, 1):
        I.write(c.args[k + 1], collect(I, It('map', v, _i.PyFn(lambda x, k=k: I.proj(I.val(x), 0, k)))))
    return UNIT


@m('Iterator.for_each', 'ParallelIterator.for_each')
def _(c):
    I = c.I
    f = c.args[1]
    it = into_iter(I, c.args[0])
    if c.own == 'ParallelIterator' and I.shared:
        it = turned(I, it)
    iterate(I, it, lambda x: I.call_clo(f, [x]))
    return UNIT


def anyall(I, it, f, isall):
    k = I.cell(TRUE if isall else FALSE)

    def cons(x):
        cur = I.S.store[k]

        def test():
            r = I.as_cond(I.val(I.call_clo(f, [x])))
            I.S.store[k] = c_and(cur, r) if isall else c_or(cur, r)
            return UNIT
        return I.branch(cur if isall else c_not(cur), test, lambda: UNIT)
    iterate(I, it, cons)
    return I.S.store.pop(k)


@m('Iterator.all', 'ParallelIterator.all', 'Iterator.any', 'ParallelIterator.any')
def _(c):
    return anyall(c.I, into_iter(c.I, c.args[0]), c.args[1], c.name == 'all')


@m('Iterator.count', 'ParallelIterator.count')
def _(c):
    I = c.I
    it = into_iter(I, c.args[0])
    if isinstance(it, It) and indexable(it):
        return lenit(I, it)
    return I.len_of(collect(I, it))


@m('Iterator.last')
def _(c):
    I = c.I
    v = collect(I, into_iter(I, c.args[0]))
    return optget(I, v, I.len_of(v) - 1)


@m('Iterator.nth')
def _(c):
    I = c.I
    r = c.args[0]
    it = own2(I, into_iter(I, r))
    v = collect(I, it)
    n = c.p(1)
    if isinstance(r, MRef):
        I.write(r, It('skip', It('vec', v), n + 1))
    return optget(I, v, n)


@m('Iterator.unzip', 'ParallelIterator.unzip')
def _(c):
    I = c.I
    v = collect(I, into_iter(I, c.args[0]))
    f = lambda k: collect(I, It('map', It('vec', v), _i.PyFn(lambda x: I.getf(x, k))))
    return tup(f(0), f(1))


@m('Iterator.eq')
def _(c):
    I = c.I
    a, b = collect(I, into_iter(I, c.args[0])), collect(I, into_iter(I, c.args[1]))
    return I.equal(a, b)


def klist(c, v):
    """elements of a list of known length; asks for a case split when it is one of several lists"""
    I = c.I
    v = I.simp(v)
    if isinstance(v, Phi):
        raise Split(v.c)
    n = I.len_of(v).const()
    if n is None:
        raise _i.Undecided(c.name)
    return [vindex(v, P(j)) for j in range(n)]


@m('Iterator.position', 'Iterator.find', 'Iterator.find_map', 'Iterator.rposition', 'DoubleEndedIterator.rfind', 'IndexedParallelIterator.position_first',
   'ParallelIterator.find_first', 'ParallelIterator.find_last', 'IndexedParallelIterator.position_last', 'ParallelIterator.find_map_first',
   'ParallelIterator.find_map_last', 'ParallelIterator.find_any', 'ParallelIterator.find_map_any', 'IndexedParallelIterator.position_any')
def _(c):
    I = c.I
    v = collect(I, into_iter(I, own2(I, into_iter(I, c.args[0]))))
    if I.len_of(v).const() is None and 'map' not in c.name:
        f = c.args[1]
        seen = anyall(I, It('vec', v), _i.PyFn(lambda x: I.as_cond(I.val(I.call_clo(f, [x])))), False)
        return merge(seen, some(Opq('found', (v, P(I.cell(UNIT))))), NONE)
    xs = klist(c, v)
    n = len(xs)
    back = c.name in ('rposition', 'rfind', 'find_last', 'position_last', 'find_map_last') or c.name.endswith('_any') and I.opts.get('order') != 'fwd'

    def at(j):
        if j == n:
            return NONE
        k = n - 1 - j if back else j
        x = xs[k]
        r = I.val(I.call_clo(c.args[1], [x]))
        if 'map' in c.name:
            return I.branch(I.test(SOME_PAT, r), lambda: r, lambda: at(j + 1))
        return I.branch(I.as_cond(r), lambda: some(P(k) if 'position' in c.name else x), lambda: at(j + 1))
    return at(0)


@m('Iterator.try_for_each', 'Iterator.try_fold', 'ParallelIterator.try_for_each')
def _(c):
    I = c.I
    v = collect(I, into_iter(I, own2(I, into_iter(I, c.args[0]))))
    if c.name == 'try_for_each' and I.len_of(v).const() is None:
        f = c.args[1]
        good = anyall(I, It('vec', v), _i.PyFn(lambda x: succ(I, I.val(I.call_clo(f, [x])))), True)
        return merge(good, ok(UNIT), err(Opq('collect-err', ())))
    xs = klist(c, v)
    return tryfold(c, vec_of(*xs), len(xs))


def negated(I, f):
    return _i.PyFn(lambda x: c_not(I.as_cond(I.val(I.call_clo(f, [x])))))


@m('Iterator.partition', 'ParallelIterator.partition')
def _(c):
    I = c.I
    v = collect(I, into_iter(I, c.args[0]))
    return tup(collect(I, It('filter', It('vec', v), c.args[1])), collect(I, It('filter', It('vec', v), negated(I, c.args[1]))))


@m('Vec.retain')
def _(c):
    I = c.I
    v = c.v()
    I.write(c.args[0], collect(I, It('filter', It('vec', v), c.args[1])))
    return UNIT


@m('Iterator.scan')
def _(c):
    I = c.I
    st = MRef(I.cell(I.val(c.args[1])), ())
    f = c.args[2]
    xs = klist(c, collect(I, into_iter(I, c.args[0])))
    n = len(xs)

    def at(j, acc):
        if j == n:
            return vec_of(*acc)
        r = I.val(I.call_clo(f, [st, xs[j]]))
        return I.branch(I.test(SOME_PAT, r), lambda: at(j + 1, acc + [I.proj(r, 1, 0)]), lambda: vec_of(*acc))
    return It('vec', at(0, []))


@m('slice.rotate_left', 'slice.rotate_right')
def _(c):
    I = c.I
    v, k = c.v(), c.p(1)
    n = I.len_of(v)
    I.panic_if(c_lt(n, k), 'rotation by more than the length', c.at)
    if c.name == 'rotate_right':
        k = n - k
    I.write(c.args[0], vconcat(asvec(I.getsl(v, k, n)), asvec(I.getsl(v, ZERO, k))))
    return UNIT


@m('slice.starts_with', 'slice.ends_with')
def _(c):
    I = c.I
    v, w = c.v(), c.v(1)
    n, k = I.len_of(v), I.len_of(w)
    t = c.cargs[0] if c.cargs else None
    lo = ZERO if c.name == 'starts_with' else n - k

    def part():
        a = I.getsl(v, lo, lo + k)
        return I.vec_eq(asvec(a), asvec(w), lambda x, y: eq_ty(I, t, t, x, y, c.at) if t else I.equal(x, y))
    return I.as_cond(I.val(I.branch(c_le(k, n), part, lambda: FALSE)))


@m('slice.chunks_mut', 'ParallelSliceMut.par_chunks_mut', 'slice.chunks_exact_mut', 'ParallelSliceMut.par_chunks_exact_mut')
def _(c):
    I = c.I
    v, k = c.v(), c.p(1)
    r = c.args[0]
    n = I.len_of(v)
    I.panic_if(c_eq0(k), 'chunk size must be non-zero', c.at)
    d = divide(n, k)
    if d is not None and d[1].is_zero():
        return It('map', It('range', ZERO, d[0]), _i.PyFn(lambda i: I.isub(r, ('s', i * k, i * k + k))))
    if n.const() is None or not k.const():
        raise _i.Undecided(c.name)
    q = -(-n.const() // k.const())
    if 'exact' in c.name:
        q = n.const() // k.const()
    return It('vec', vec_of(*[I.isub(r, ('s', P(i * k.const()), P(min(n.const(), (i + 1) * k.const())))) for i in range(q)]))


@m('slice.split_first_mut', 'slice.split_last_mut')
def _(c):
    I = c.I
    r = c.args[0]
    n = I.len_of(c.v())
    if not isinstance(r, MRef):
        return None
    if c.name == 'split_first_mut':
        f = lambda: some(tup(I.isub(r, ('i', ZERO)), I.isub(r, ('s', ONE, n))))
    else:
        f = lambda: some(tup(I.isub(r, ('i', n - 1)), I.isub(r, ('s', ZERO, n - 1))))
    return I.branch(c_ge0(n - 1), f, lambda: NONE)


@m('bool.then', 'bool.then_some')
def _(c):
    I = c.I
    return I.branch(I.as_cond(c.v()), lambda: some(I.call_clo(c.args[1], []) if c.name == 'then' else c.args[1]), lambda: NONE)


@m('Option.insert', 'Option.get_or_insert', 'Option.get_or_insert_with', 'Option.replace')
def _(c):
    I = c.I
    v = c.v()
    if c.name in ('insert', 'replace'):
        I.write(c.args[0], some(c.args[1]))
        return v if c.name == 'replace' else I.isub(c.args[0], ('f', 0))
    new = (lambda: c.args[1]) if c.name == 'get_or_insert' else (lambda: I.call_clo(c.args[1], []))
    t = I.test(SOME_PAT, v)
    I.write(c.args[0], I.branch(t, lambda: v, lambda: some(I.val(new()))))
    return I.isub(c.args[0], ('f', 0))


@m('Option.zip', 'Option.xor')
def _(c):
    I = c.I
    a, b = c.v(), c.v(1)
    ta, tb = I.test(SOME_PAT, a), I.test(SOME_PAT, b)
    if c.name == 'zip':
        return I.branch(c_and(ta, tb), lambda: some(tup(I.proj(a, 1, 0), I.proj(b, 1, 0))), lambda: NONE)
    return I.branch(c_and(ta, c_not(tb)), lambda: a, lambda: I.branch(c_and(tb, c_not(ta)), lambda: b, lambda: NONE))


@m('Option.flatten')
def _(c):
    I = c.I
    v = c.v()
    return I.branch(I.test(SOME_PAT, v), lambda: I.proj(v, 1, 0), lambda: NONE)


@m('Option.transpose', 'Result.transpose')
def _(c):
    I = c.I
    v = c.v()
    if strip(c.cargs[0]) is None:
        return None
    if c.own == 'Option':
        def inner():
            r = I.val(I.proj(v, 1, 0))
            return I.branch(I.test(OK_PAT, r), lambda: ok(some(I.proj(r, 0, 0))), lambda: err(I.proj(r, 1, 0)))
        return I.branch(I.test(SOME_PAT, v), inner, lambda: ok(NONE))

    def inn():
        r = I.val(I.proj(v, 0, 0))
        return I.branch(I.test(SOME_PAT, r), lambda: some(ok(I.proj(r, 1, 0))), lambda: NONE)
    return I.branch(I.test(OK_PAT, v), inn, lambda: some(err(I.proj(v, 1, 0))))


@m('Result.err')
def _(c):
    I = c.I
    v = c.v()
    return I.branch(I.test(OK_PAT, v), lambda: NONE, lambda: some(I.proj(v, 1, 0)))


@m('Option.inspect', 'Result.inspect', 'Result.inspect_err')
def _(c):
    I = c.I
    v, o, ix = side(c)
    t = I.test(SOME_PAT if o else OK_PAT, v)
    if c.name == 'inspect_err':
        t, ix = c_not(t), 1

    def run():
        I.call_clo(c.args[1], [I.proj(v, ix, 0)])
        return UNIT
    I.branch(t, run, lambda: UNIT)
    return v


@m('Iterator.ne')
def _(c):
    I = c.I
    return c_not(I.as_cond(I.val(I.equal(collect(I, into_iter(I, c.args[0])), collect(I, into_iter(I, c.args[1]))))))


ORD = 'core::cmp::Ordering'


def scalar(t):
    """a type whose values are ordered as the canonical integers of field elements"""
    t = strip(t)
    return kind_of(t) == 'F' or t.get('path', '').split('::')[-1] == 'BigInt'


@m('Ord.cmp', 'PartialOrd.partial_cmp')
def _(c):
    I = c.I
    a, b = as_poly(c.v()), as_poly(c.v(1))
    if a is None or b is None:
        return None
    if scalar(c.cargs[0]):
        lt = c_flt(a, b)
    elif a.is_intlike() and b.is_intlike():
        lt = c_lt(a, b)
    else:
        return None
    o = lambda k: Struct(ORD, k, ())
    r = I.branch(lt, lambda: o(0), lambda: I.branch(c_eq0(a - b), lambda: o(1), lambda: o(2)))
    return r if c.name == 'cmp' else some(r)


_is = {'is_eq': (1,), 'is_ne': (0, 2), 'is_lt': (0,), 'is_gt': (2,), 'is_le': (0, 1), 'is_ge': (1, 2)}


@m(*['Ordering.' + n for n in _is])
def _(c):
    def f(v):
        if isinstance(v, Struct) and v.path == ORD and isinstance(v.var, int):
            return c_bool(v.var in _is[c.name])
        raise _i.Undecided('ordering')
    return c.I.as_cond(c.I.dist(c.v(), f))


@m('Ordering.reverse')
def _(c):
    return c.I.dist(c.v(), lambda v: Struct(ORD, 2 - v.var, ()))


@m('ParallelIterator.map_init', 'ParallelIterator.map_with')
def _(c):
    I = c.I
    f = c.args[2]

    def one(x):
        st = I.call_clo(c.args[1], []) if c.name == 'map_init' else c.args[1]
        return I.call_clo(f, [MRef(I.cell(I.val(st)), ()), x])
    return It('map', into_iter(I, c.args[0]), _i.PyFn(one))


@m('Field.inverse_in_place')
def _(c):
    I = c.I
    p = c.p()

    def inverse():
        I.write(c.args[0], inv(p))
        return some(c.args[0])
    return I.branch(c_eq0(p), lambda: NONE, inverse)


@m('fields.batch_inversion', 'ff.batch_inversion', 'fields.serial_batch_inversion_and_mul', 'fields.batch_inversion_and_mul')
def _(c):
    I = c.I
    k = c.p(1) if 'mul' in c.name else ONE
    v = c.v()

    def one(x):
        x = as_poly(I.val(x))
        return I.branch(c_eq0(x), lambda: x, lambda: inv(x) * k)
    I.write(c.args[0], collect(I, It('map', It('vec', v), _i.PyFn(one))))
    return UNIT


@m('PrimeField.from_bigint')
def _(c):
    p = c.p()
    if p.is_intlike() and p.const() is None:
        return None
    return some(p)


@m('array.each_ref')
def _(c):
    return c.v()


def sure(I, k):
    """the truth of a condition; asks for a case split when it is open"""
    d = I.decide(k)
    if d is None:
        raise Split(k)
    return d


def less(c, a, b):
    """a < b for keys whose order is known: integers and truth values, and tuples of them"""
    I = c.I
    a, b = I.val(a), I.val(b)
    if isinstance(a, Struct) and isinstance(b, Struct) and a.path == b.path and a.var == b.var == 0 and len(a.f) == len(b.f):
        for x, y in zip(a.f, b.f):
            if less(c, x, y):
                return True
            if less(c, y, x):
                return False
        return False
    if isinstance(a, Cond) and isinstance(b, Cond):
        return sure(I, c_and(c_not(a), b))
    x, y = as_poly(a), as_poly(b)
    if x is None or y is None or not (x.is_intlike() and y.is_intlike()):
        raise _i.Undecided(c.name)
    return sure(I, c_lt(x, y))


def before(c, f, kind):
    """the strict order given by a key function, a comparison, or the elements themselves"""
    I = c.I
    if kind == 'cmp':
        def g(a, b):
            r = I.val(I.call_clo(f, [a, b]))

            def one(v):
                if isinstance(v, Struct) and v.path == ORD and isinstance(v.var, int):
                    return c_bool(v.var == 0)
                raise _i.Undecided('ordering')
            return sure(I, I.as_cond(I.dist(r, one)))
        return g
    if kind == 'key':
        return lambda a, b: less(c, I.call_clo(f, [a]), I.call_clo(f, [b]))
    return lambda a, b: less(c, a, b)


def kind_by(name):
    return 'key' if name.endswith('key') else 'cmp' if name.endswith('by') else None


@m('Iterator.min_by_key', 'Iterator.max_by_key', 'Iterator.min_by', 'Iterator.max_by')
def _(c):
    xs = klist(c, collect(c.I, into_iter(c.I, c.args[0])))
    lt = before(c, c.args[1], kind_by(c.name))
    if not xs:
        return NONE
    r = xs[0]
    for x in xs[1:]:
        if lt(x, r) if c.name.startswith('min') else not lt(x, r):
            r = x
    return some(r)


@m(*['ParallelSliceMut.par_' + n for n in ('sort', 'sort_by', 'sort_by_key', 'sort_by_cached_key', 'sort_unstable', 'sort_unstable_by', 'sort_unstable_by_key')],
   *['slice.' + n for n in ('sort', 'sort_by', 'sort_by_key', 'sort_by_cached_key', 'sort_unstable', 'sort_unstable_by', 'sort_unstable_by_key')])
def _(c):
    xs = klist(c, c.v())
    lt = before(c, c.args[1] if len(c.args) > 1 else None, kind_by(c.name.replace('_cached', '').replace('par_', '')))
    out = []
    for x in xs:
        k = len(out)
        while k > 0 and lt(x, out[k - 1]):
            k -= 1
        out.insert(k, x)
    c.I.write(c.args[0], vec_of(*out))
    return UNIT


@m('Vec.dedup', 'Vec.dedup_by_key', 'Vec.dedup_by')
def _(c):
    I = c.I
    xs = klist(c, c.v())
    out = []
    for x in xs:
        if out:
            if c.name == 'dedup_by_key':
                cx, cy = I.cell(x), I.cell(out[-1])
                a, b = I.val(I.call_clo(c.args[1], [MRef(cx, ())])), I.val(I.call_clo(c.args[1], [MRef(cy, ())]))
                x, out[-1] = I.S.store[cx], I.S.store[cy]
                same = I.equal(a, b)
            elif c.name == 'dedup_by':
                cx, cy = I.cell(x), I.cell(out[-1])
                same = I.val(I.call_clo(c.args[1], [MRef(cx, ()), MRef(cy, ())]))
                x, out[-1] = I.S.store[cx], I.S.store[cy]
            else:
                t = c.cargs[0]
                same = eq_ty(I, t, t, x, out[-1], c.at)
            if sure(I, I.as_cond(same)):
                continue
        out.append(x)
    I.write(c.args[0], vec_of(*out))
    return UNIT


# ---- maps and sets with keys: the history of insertions, each (made at all, key, value); the last one counts
MAP = 'gsa::Map'
for _o in ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet'):
    for _n in ('new', 'with_capacity', 'default'):
        TABLE[_o + '.' + _n] = lambda c, k=int(_o.startswith('B')): Struct(MAP, k, ())


def mapv(c, r=None):
    v = c.I.simp(c.I.val(c.args[0] if r is None else r))
    if isinstance(v, Phi):
        raise Split(v.c)
    if not (isinstance(v, Struct) and v.path == MAP):
        raise _i.Undecided('%s of an unknown map' % c.name)
    return v


def hits(c, v, k):
    I = c.I
    return [c_and(I.as_cond(e.f[0]), I.as_cond(I.equal(I.val(e.f[1]), I.val(k)))) for e in v.f]


def lookup(c, v, k, yes, no):
    """the value under a key: yes(value, index) for the last entry that has it, no() when none has"""
    I = c.I
    hs = hits(c, v, k)

    def at(j):
        if j < 0:
            return no()
        return I.branch(hs[j], lambda: yes(v.f[j].f[2], j), lambda: at(j - 1))
    return at(len(v.f) - 1)


def put_key(c, r, v, k, x, cond=TRUE):
    e = tup(cond, k, x)
    c.args[0], old = r, c.args[0]
    try:
        upd(c, lambda _: Struct(MAP, v.var, tuple(v.f) + (e,)))
    finally:
        c.args[0] = old


_maps = lambda *ns: m(*[o + '.' + n for o in ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet') for n in ns])


@_maps('insert')
def _(c):
    v = mapv(c)
    isset = c.own.endswith('Set')
    k = c.I.val(c.args[1])
    r = lookup(c, v, k, lambda x, j: FALSE if isset else some(x), lambda: TRUE if isset else NONE)
    put_key(c, c.args[0], v, k, UNIT if isset else c.args[2])
    return r


@_maps('get', 'contains_key', 'contains')
def _(c):
    v = mapv(c)
    opt = c.name == 'get'
    return lookup(c, v, c.args[1], lambda x, j: some(x) if opt else TRUE, lambda: NONE if opt else FALSE)


@m('HashMap.index', 'BTreeMap.index')
def _(c):
    def no():
        c.I.panic('no entry for the key', c.at)
        raise _i.Diverge()
    return lookup(c, mapv(c), c.args[1], lambda x, j: x, no)


@_maps('len', 'is_empty')
def _(c):
    I = c.I
    v = mapv(c)
    n = ZERO
    for j, e in enumerate(v.f):
        n = n + ind(c_and(I.as_cond(e.f[0]), *[c_not(h) for h in hits(c, Struct(MAP, 0, v.f[:j]), e.f[1])]))
    return c_eq0(n) if c.name == 'is_empty' else n


@_maps('clear')
def _(c):
    upd(c, lambda v: Struct(MAP, v.var, ()))
    return UNIT


def entries(I, v):
    """keys and values of a map in the order of its keys (hash tables: no order)"""
    out = []
    for e in v.f:
        if not sure(I, I.as_cond(e.f[0])):
            continue
        k = I.val(e.f[1])
        for j, (q, _) in enumerate(out):
            if sure(I, I.as_cond(I.equal(q, k))):
                out[j] = (q, e.f[2])
                break
        else:
            out.append((k, e.f[2]))
    if v.var == 0 and len(out) > 1:
        if I.opts.get('order') is None:
            I.partial = True                    # one of the possible orders
        return out if I.opts.get('order') == 'fwd' else out[::-1]

    class N:
        name = 'order of keys'
    N.I = I
    res = []
    for x in out:
        j = len(res)
        while j > 0 and less(N, x[0], res[j - 1][0]):
            j -= 1
        res.insert(j, x)
    return res


def map_items(I, v, what=None):
    es = entries(I, v)
    if what is None:
        what = 'keys' if all(isinstance(e.f[2], Struct) and e.f[2].path == '()' for e in v.f) else 'both'
    return vec_of(*[k if what == 'keys' else x if what == 'values' else tup(k, x) for k, x in es])


@_maps('iter', 'keys', 'values', 'into_keys', 'into_values')
def _(c):
    return It('vec', map_items(c.I, mapv(c), 'keys' if c.name.endswith('keys') or c.own.endswith('Set') else 'values' if c.name.endswith('values') else 'both'))


@_maps('remove')
def _(c):
    I = c.I
    v = mapv(c)
    k = c.I.val(c.args[1])
    isset = c.own.endswith('Set')
    r = lookup(c, v, k, lambda x, j: TRUE if isset else some(x), lambda: FALSE if isset else NONE)
    left = [e for e in v.f if not sure(I, I.as_cond(I.equal(I.val(e.f[1]), k)))]
    upd(c, lambda _: Struct(MAP, v.var, tuple(left)))
    return r


@_maps('get_mut')
def _(c):
    I = c.I
    v = mapv(c)
    r = c.args[0]
    if not isinstance(r, MRef):
        return None
    for j in reversed(range(len(v.f))):
        if sure(I, hits(c, v, c.args[1])[j]):
            return some(I.isub(I.isub(r, ('f', j)), ('f', 2)))
    return NONE


@_maps('reserve')
def _(c):
    return UNIT


@m('HashMap.entry', 'BTreeMap.entry')
def _(c):
    return It('entry', c.args[0], c.I.val(c.args[1]))


@m('Entry.or_insert_with', 'Entry.or_insert', 'Entry.or_default', 'Entry.or_insert_with_key')
def _(c):
    I = c.I
    e = c.args[0]
    if not (isinstance(e, It) and e.kind == 'entry'):
        raise _i.Undecided('an unknown entry')
    r, k = e.p

    def new():
        if c.name == 'or_insert':
            return c.args[1]
        if c.name == 'or_default':
            return default_of([t for t in c.cargs if t][1])
        return I.call_clo(c.args[1], [k] if c.name == 'or_insert_with_key' else [])
    v = mapv(c, r)
    hs = hits(c, v, k)
    ds = [I.decide(h) for h in hs]
    live = [j for j in range(len(hs)) if ds[j] is not False]
    if not live or ds[live[-1]] is True:
        if live:
            j = live[-1]
        else:
            j = len(v.f)
            x = I.val(new())
            put_key(c, r, mapv(c, r), k, x)
        return I.isub(I.isub(r, ('f', j)), ('f', 2))
    raise Split(hs[live[-1]])


def tryfold(c, v, n):
    I = c.I
    f = c.args[-1]

    def step(j, acc):
        if j == n:
            return acc
        x = vindex(v, P(j))
        if c.name == 'try_for_each':
            r = I.val(I.call_clo(f, [x]))
        else:
            r = I.val(I.call_clo(f, [acc_val(acc), x]))
        return I.branch(succ(I, r), lambda: step(j + 1, r), lambda: r)

    def acc_val(a):
        a = I.simp(a)
        if isinstance(a, Struct) and a.path == OPTION:
            return I.proj(a, 1, 0)
        return I.proj(a, 0, 0)
    if n == 0 or c.name == 'try_fold':
        rt = c.cargs[-1]
        isopt = rt is not None and rt.get('path') == OPTION
        init = UNIT if c.name == 'try_for_each' else c.args[1]
        return step(0, some(init) if isopt else ok(init))
    return step(0, None)


def succ(I, r):
    x = r
    while isinstance(x, Phi):
        x = x.a
    if isinstance(x, Struct) and x.path == OPTION:
        return I.test(SOME_PAT, r)
    return I.test(OK_PAT, r)


@m('Iterator.min', 'Iterator.max')
def _(c):
    I = c.I
    v = collect(I, into_iter(I, c.args[0]))
    n = I.len_of(v).const()
    if n is None:
        raise _i.Undecided(c.name)
    if n == 0:
        return NONE
    a = as_poly(vindex(v, ZERO))
    for j in range(1, n):
        b = as_poly(vindex(v, P(j)))
        if a is None or b is None:
            raise _i.Undecided(c.name)
        a = pmin(I, a, b) if c.name == 'min' else pmax(I, a, b)
    return some(a)


@m('Iterator.size_hint')
def _(c):
    it = c.v()
    if isinstance(it, It) and not indexable(it):
        if it.kind not in ('filter', 'fmap', 'takew', 'skipw', 'mapw'):
            raise _i.Undecided('size_hint of %s' % it.kind)
        return tup(ZERO, some(Opq('size_hint')))
    n = lenit(c.I, it)
    return tup(n, some(n))


@m('join.join', 'rayon.join', 'rayon_core.join')
def _(c):
    a = c.I.call_clo(c.args[0], [])
    b = c.I.call_clo(c.args[1], [])
    return tup(a, b)


@m('ThreadPool.install', 'rayon_core.install')
def _(c):
    return c.I.call_clo(c.args[1], [])


# ================================================================ Option / Result
def isopt(v):
    while isinstance(v, Phi):
        v = v.a
    return isinstance(v, Struct) and v.path == OPTION


def side(c):
    """(value, is option, success index)"""
    v = c.I.val(c.args[0])
    o = isopt(v) if not isinstance(v, Opq) else c.own == 'Option'
    return v, o, (1 if o else 0)


def optmap(c, f, g=None):
    I = c.I
    v, o, ix = side(c)
    wrap = some if o else ok
    return I.branch(I.test(SOME_PAT if o else OK_PAT, v), lambda: wrap(f(I.proj(v, ix, 0))),
                    lambda: NONE if o else err(I.proj(v, 1, 0)))


@m('Option.unwrap', 'Option.expect', 'Result.unwrap', 'Result.expect', 'Option.unwrap_unchecked', 'Result.unwrap_unchecked')
def _(c):
    I = c.I
    v, o, ix = side(c)
    I.panic_if(c_not(I.test(SOME_PAT if o else OK_PAT, v)), c.name + ' of an empty value', c.at)
    return I.proj(v, ix, 0)


@m('Option.unwrap_or', 'Result.unwrap_or', 'Option.unwrap_or_else', 'Result.unwrap_or_else', 'Option.unwrap_or_default', 'Result.unwrap_or_default')
def _(c):
    I = c.I
    v, o, ix = side(c)

    def els():
        if c.name == 'unwrap_or':
            return c.args[1]
        if c.name == 'unwrap_or_else':
            return I.call_clo(c.args[1], [] if o else [I.proj(v, 1, 0)])
        return default_of(c.cargs[0])
    return I.branch(I.test(SOME_PAT if o else OK_PAT, v), lambda: I.proj(v, ix, 0), els)


@m('Option.is_some', 'Option.is_none', 'Result.is_ok', 'Result.is_err')
def _(c):
    v, o, ix = side(c)
    t = c.I.test(SOME_PAT if o else OK_PAT, v)
    return t if c.name in ('is_some', 'is_ok') else c_not(t)


@m('Option.is_some_and', 'Result.is_ok_and', 'Option.is_none_or')
def _(c):
    I = c.I
    v, o, ix = side(c)
    return I.branch(I.test(SOME_PAT if o else OK_PAT, v), lambda: I.as_cond(I.val(I.call_clo(c.args[1], [I.proj(v, ix, 0)]))),
                    lambda: c_bool(c.name == 'is_none_or'))


@m('Option.map_or', 'Option.map_or_else', 'Result.map_or', 'Result.map_or_else')
def _(c):
    I = c.I
    v, o, ix = side(c)
    return I.branch(I.test(SOME_PAT if o else OK_PAT, v), lambda: I.call_clo(c.args[2], [I.proj(v, ix, 0)]),
                    lambda: c.args[1] if c.name == 'map_or' else I.call_clo(c.args[1], [] if o else [I.proj(v, 1, 0)]))


@m('Option.and_then', 'Result.and_then', 'Option.ok_or', 'Option.ok_or_else', 'Result.map_err', 'Result.ok', 'Option.or', 'Option.or_else',
   'Result.or_else', 'Option.filter', 'Result.and', 'Option.and', 'Result.or')
def _(c):
    I = c.I
    v, o, ix = side(c)
    t = I.test(SOME_PAT if o else OK_PAT, v)
    x = lambda: I.proj(v, ix, 0)
    e = lambda: I.proj(v, 1, 0)
    n = c.name
    if n == 'and_then':
        return I.branch(t, lambda: I.call_clo(c.args[1], [x()]), lambda: NONE if o else err(e()))
    if n == 'and':
        return I.branch(t, lambda: c.args[1], lambda: NONE if o else err(e()))
    if n == 'ok_or':
        return I.branch(t, lambda: ok(x()), lambda: err(c.args[1]))
    if n == 'ok_or_else':
        return I.branch(t, lambda: ok(x()), lambda: err(I.call_clo(c.args[1], [])))
    if n == 'map_err':
        return I.branch(t, lambda: ok(x()), lambda: err(I.call_clo(c.args[1], [e()])))
    if n == 'ok':
        return I.branch(t, lambda: some(x()), lambda: NONE)
    if n == 'or':
        return I.branch(t, lambda: v, lambda: c.args[1])
    if n == 'or_else':
        return I.branch(t, lambda: v, lambda: I.call_clo(c.args[1], [] if o else [e()]))
    if n == 'filter':
        return I.branch(t, lambda: I.branch(I.as_cond(I.val(I.call_clo(c.args[1], [x()]))), lambda: v, lambda: NONE), lambda: NONE)


@m('Option.take')
def _(c):
    v = c.v()
    c.I.write(c.args[0], NONE)
    return v


@m('Try.branch')
def _(c):
    I = c.I
    v = I.val(c.args[0])

    def f(v):
        if isinstance(v, Struct) and v.path == RESULT and isinstance(v.var, int):
            return Struct(CF, 0, (v.f[0],)) if v.var == 0 else Struct(CF, 1, (err(v.f[0]),))
        if isinstance(v, Struct) and v.path == OPTION and isinstance(v.var, int):
            return Struct(CF, 0, (v.f[0],)) if v.var == 1 else Struct(CF, 1, (NONE,))
        if isinstance(v, Struct) and v.path == CF:
            return v if v.var == 0 else Struct(CF, 1, (v,))
        return Phi(c_opq('variant', vkey(v), '1'), Struct(CF, 1, (err(Opq('errof', (v,))),)), Struct(CF, 0, (Opq('okof', (v,)),)))
    return I.dist(v, f)


@m('FromResidual.from_residual')
def _(c):
    return c.args[0]


@m('Try.from_output')
def _(c):
    t = c.cargs[0]
    return some(c.args[0]) if t and t.get('path') == OPTION else ok(c.args[0])


# ================================================================ mem, functions
@m('mem.swap')
def _(c):
    I = c.I
    a, b = I.load(c.args[0]), I.load(c.args[1])
    I.write(c.args[0], b)
    I.write(c.args[1], a)
    return UNIT


@m('mem.replace')
def _(c):
    a = c.I.load(c.args[0])
    c.I.write(c.args[0], c.args[1])
    return a


def default_of(t):
    k = kind_of(t)
    if is_vec(strip(t)):
        return Vec([])
    if k in ('F', 'G1', 'G2', 'GT', 'int'):
        return ZERO
    if k == 'bool':
        return FALSE
    if t.get('path') == OPTION:
        return NONE
    if t['k'] == 'tuple':
        return tup(*[default_of(x) for x in t['tys']])
    if (t.get('path') or '').split('::')[-1] in ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet'):
        return Struct(MAP, 0, ())
    return Opq('default', ())


@m('mem.take')
def _(c):
    a = c.I.load(c.args[0])
    c.I.write(c.args[0], default_of(c.cargs[0]))
    return a


@m('Default.default')
def _(c):
    return default_of(c.cargs[0])


@m('Fn.call', 'FnMut.call_mut', 'FnOnce.call_once')
def _(c):
    a = c.v(1)
    args = list(a.f) if isinstance(a, Struct) else [a]
    return c.I.call_clo(c.args[0] if not isinstance(c.args[0], MRef) else c.I.load(c.args[0]), args)


@m('Clone.clone')
def _(c):
    I = c.I
    v = c.v()
    return clone_ty(I, c.cargs[0], v, c.at)


def clone_ty(I, t, v, at):
    t = strip(t)
    if is_vec(t):
        e = strip(elem(t))
        if local_clone(I, e):
            return collect(I, It('map', It('vec', v), _i.PyFn(lambda x: clone_ty(I, e, x, at))))
        return v
    if t['k'] == 'adt' and t['local'] and I.p.find_impl('core::clone::Clone', t, [t]):
        return disp(I, 'core::clone::Clone', 'clone', [t], [v], at)
    return v


def local_clone(I, t):
    t = strip(t)
    if is_vec(t):
        return local_clone(I, elem(t))
    if t['k'] == 'adt' and t['local']:
        return True
    return False


@m('Clone.clone_from')
def _(c):
    c.I.write(c.args[0], clone_ty(c.I, c.cargs[0], c.v(1), c.at))
    return UNIT


@m('Into.into', 'From.from', 'TryInto.try_into', 'TryFrom.try_from', 'Into.try_into')
def _(c):
    I = c.I
    if c.name == 'into':
        src, dst = c.cargs[0], c.cargs[1] if len(c.cargs) > 1 else None
        if dst is not None:
            hit = I.p.find_impl('core::convert::From', dst, [dst, src])
            if hit:
                return disp(I, 'core::convert::From', 'from', [dst, src], [c.args[0]], c.at)
    else:
        dst = c.cargs[0]
    v = c.args[0] if isinstance(c.args[0], MRef) else c.v()
    if c.name in ('try_into', 'try_from'):
        d = c.cargs[1] if c.name == 'try_into' and len(c.cargs) > 1 else c.cargs[0]
        if d is not None and d['k'] == 'int' and isinstance(c.v(), Poly):
            return ok(c.v())
        if d is not None and d['k'] == 'array' and isinstance(c.v(), Vec):
            n = d.get('n', {}).get('v')
            if n is not None:
                return merge(c_eq(vlen(c.v()), P(int(n))), ok(c.v()), err(Opq('tryfrom', ())))
        return None
    if isinstance(v, Cond):
        return ind(v)
    if isinstance(v, (Poly, Vec, Opq)):
        return v
    if dst is not None and kind_of(dst) in ('F', 'G1', 'G2', 'GT', 'int') and as_poly(v) is not None:
        return as_poly(v)
    if dst is not None and dst.get('path') == OPTION and not isopt(v):
        return some(v)
    return v


@m('intrinsics.discriminant_value', 'mem.discriminant')
def _(c):
    return c.I.dist(c.v(), discr)


def discr(v):
    if isinstance(v, Struct):
        return v.var if isinstance(v.var, Poly) else P(v.var or 0)
    return P(Atom('opqdisc', (vkey(v),), 'int'))


# ================================================================ comparison
def eq_ty(I, ta, tb, a, b, at):
    ta, tb = strip(ta), strip(tb)
    a, b = I.val(a), I.val(b)
    if isinstance(a, Phi):
        return c_ite(a.c, eq_ty(I, ta, tb, a.a, b, at), eq_ty(I, ta, tb, a.b, b, at))
    if isinstance(b, Phi):
        return c_ite(b.c, eq_ty(I, ta, tb, a, b.a, at), eq_ty(I, ta, tb, a, b.b, at))
    if is_vec(ta) and is_vec(tb):
        ea, eb = elem(ta), elem(tb)
        if isinstance(a, Vec) and isinstance(b, Vec):
            return I.vec_eq(a, b, lambda x, y: eq_ty(I, ea, eb, x, y, at))
        return I.equal(a, b)
    if ta['k'] == 'tuple' and tb['k'] == 'tuple':
        return c_and(*[eq_ty(I, x, y, I.getf(a, i), I.getf(b, i), at) for i, (x, y) in enumerate(zip(ta['tys'], tb['tys']))])
    if ta['k'] == 'adt' and ta['local']:
        return I.as_cond(I.val(disp(I, 'core::cmp::PartialEq', 'eq', [ta, tb], [a, b], at)))
    return I.equal(a, b)


@m('PartialEq.eq')
def _(c):
    if strip(c.cargs[0])['k'] == 'adt' and strip(c.cargs[0])['local']:
        return c.I.equal(c.v(), c.v(1))
    return eq_ty(c.I, c.cargs[0], c.cargs[1] if len(c.cargs) > 1 else c.cargs[0], c.args[0], c.args[1], c.at)


@m('PartialEq.ne')
def _(c):
    return c_not(eq_ty(c.I, c.cargs[0], c.cargs[1] if len(c.cargs) > 1 else c.cargs[0], c.args[0], c.args[1], c.at))


@m('PartialOrd.lt', 'PartialOrd.le', 'PartialOrd.gt', 'PartialOrd.ge')
def _(c):
    if scalar(c.cargs[0]):
        a, b = c.p(0), c.p(1)
        return {'lt': lambda: c_flt(a, b), 'le': lambda: c_not(c_flt(b, a)), 'gt': lambda: c_flt(b, a), 'ge': lambda: c_not(c_flt(a, b))}[c.name]()
    if kind_of(strip(c.cargs[0])) != 'int':
        return None
    a, b = c.p(0), c.p(1)
    return {'lt': c_lt(a, b), 'le': c_le(a, b), 'gt': c_lt(b, a), 'ge': c_le(b, a)}[c.name]


def pmin(I, a, b):
    d = I.decide(c_le(a, b))
    return a if d is True else b if d is False else merge(c_le(a, b), a, b)


def pmax(I, a, b):
    d = I.decide(c_le(a, b))
    return b if d is True else a if d is False else merge(c_le(a, b), b, a)


@m('Ord.min', 'cmp.min')
def _(c):
    return pmin(c.I, c.p(0), c.p(1))


@m('Ord.max', 'cmp.max')
def _(c):
    return pmax(c.I, c.p(0), c.p(1))


# ================================================================ integers
def _ints(name):
    def f(c):
        I = c.I
        a = c.p(0)
        b = c.p(1) if len(c.args) > 1 else None
        if name == 'saturating_sub':
            d = I.decide(c_le(b, a))
            return a - b if d is True else ZERO if d is False else ind(c_le(b, a)) * (a - b)
        if name == 'checked_sub':
            return I.branch(c_le(b, a), lambda: some(a - b), lambda: NONE)
        if name in ('checked_add', 'checked_mul'):
            return some(a + b if name == 'checked_add' else a * b)
        if name in ('saturating_add', 'wrapping_add'):
            return a + b
        if name in ('saturating_mul', 'wrapping_mul'):
            return a * b
        if name == 'wrapping_sub':
            d = I.decide(c_le(b, a))
            if d is True:
                return a - b
            return P(Atom('opWSub', (a, b), 'int'))
        if name == 'abs_diff':
            return pmax(I, a, b) - pmin(I, a, b)
        if name == 'pow':
            k = b.const()
            if k is None or k > 64:
                return None
            r = ONE
            for _ in range(k):
                r = r * a
            return r
        if name == 'div_ceil' and a.const() is not None and b.const():
            return P(-(-a.const() // b.const()))
        k = a.const()
        if k is None or k < 0:
            SIZES.update((4, 8))
        elif name == 'is_power_of_two':
            return c_bool(k > 0 and k & (k - 1) == 0)
        elif name in ('next_power_of_two', 'checked_next_power_of_two'):
            r = P(1 << max(k - 1, 0).bit_length())
            return r if name[0] == 'n' else some(r)
        elif name == 'ilog2' and k > 0:
            return P(k.bit_length() - 1)
        elif name == 'isqrt':
            return P(math.isqrt(k))
        elif name == 'count_ones':
            return P(bin(k).count('1'))
        elif name == 'trailing_zeros' and k > 0:
            return P((k & -k).bit_length() - 1)
        elif name in ('next_multiple_of', 'rem_euclid', 'div_euclid') and b.const():
            d = b.const()
            return P(-(-k // d) * d if name[0] == 'n' else k % d if name[0] == 'r' else k // d)
        return None
    return f


for _n in ('saturating_sub', 'checked_sub', 'checked_add', 'checked_mul', 'saturating_add', 'wrapping_add', 'saturating_mul', 'wrapping_mul',
           'wrapping_sub', 'abs_diff', 'div_ceil', 'is_power_of_two', 'next_power_of_two', 'checked_next_power_of_two', 'ilog2', 'isqrt',
           'count_ones', 'trailing_zeros', 'next_multiple_of', 'rem_euclid', 'div_euclid'):
    TABLE['*.' + _n] = _ints(_n)
for _t in ('usize', 'u64', 'u32', 'u128', 'u8'):
    TABLE[_t + '.pow'] = _ints('pow')


# ================================================================ ring / group operations
OPS = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'rem': 'Rem', 'bitand': 'BitAnd', 'bitor': 'BitOr', 'bitxor': 'BitXor',
       'shl': 'Shl', 'shr': 'Shr'}


def arith(I, op, a, b, ta, at):
    a, b = I.val(a), I.val(b)
    if isinstance(a, Cond) and isinstance(b, Cond):
        return I.binop(op, a, b, {'k': 'bool'}, at)
    p, q = as_poly(a), as_poly(b)
    if p is None or q is None:
        return Opq(op, (a, b))
    ta = strip(ta) if ta else None
    if ta is not None and ta['k'] == 'int':
        return I.binop(op, p, q, ta, at)
    if op == 'Add':
        return p + q
    if op == 'Sub':
        return p - q
    if op == 'Mul':
        return p * q
    if op == 'Div':
        I.panic_if(c_eq0(q), 'division by zero', at)
        return p * inv(q)
    return Opq(op, (a, b))


def _bin(name):
    def f(c):
        return arith(c.I, OPS[name], c.args[0], c.args[1], c.cargs[0], c.at)
    return f


def _assign(name):
    def f(c):
        I = c.I
        r = c.args[0]
        if not isinstance(r, MRef):
            return None
        ta = c.cargs[0]
        if ta is not None and strip(ta)['k'] == 'adt' and strip(ta)['local']:
            return None
        while isinstance(I.load(r), MRef):
            r = I.load(r)
        I.write(r, arith(I, OPS[name], I.load(r), c.args[1], ta, c.at))
        return UNIT
    return f


for _n, _o in OPS.items():
    TABLE[_o + '.' + _n] = _bin(_n)
    TABLE[_o + 'Assign.' + _n + '_assign'] = _assign(_n)


@m('Neg.neg')
def _(c):
    return -c.p()


@m('Not.not')
def _(c):
    v = c.v()
    return c_not(v) if isinstance(v, Cond) else None


@m('AffineRepr.zero', 'Zero.zero', 'Field.zero', 'AdditiveGroup.zero', 'AffineRepr.identity', 'Affine.identity', 'Affine.zero')
def _(c):
    return ZERO


@m('One.one', 'Field.one')
def _(c):
    if kind_of(c.cargs[0]) in ('F', 'int', 'Fq'):
        return ONE
    return Opq('one', ())


@m('Zero.is_zero', 'AffineRepr.is_zero')
def _(c):
    return c_eq0(c.p())


@m('One.is_one')
def _(c):
    return c_eq0(c.p() - 1) if kind_of(c.cargs[0]) in ('F', 'int') else None


@m('One.set_one')
def _(c):
    c.I.write(c.args[0], ONE)
    return UNIT


@m('Zero.set_zero')
def _(c):
    c.I.write(c.args[0], ZERO)
    return UNIT


@m('Group.double', 'Field.double', 'AdditiveGroup.double', 'PrimeGroup.double')
def _(c):
    return c.p() * 2


@m('Field.square')
def _(c):
    p = c.p()
    return p * p


def inplace(c, f):
    I = c.I
    r = c.args[0]
    p = as_poly(I.val(r))
    if p is None or not isinstance(r, MRef):
        return None
    while isinstance(I.load(r), MRef):
        r = I.load(r)
    I.write(r, f(p))
    return r


@m('Group.double_in_place', 'Field.double_in_place', 'AdditiveGroup.double_in_place', 'PrimeGroup.double_in_place')
def _(c):
    return inplace(c, lambda p: p * 2)


@m('Field.square_in_place')
def _(c):
    return inplace(c, lambda p: p * p)


@m('Field.neg_in_place', 'AdditiveGroup.neg_in_place', 'Group.neg_in_place')
def _(c):
    return inplace(c, lambda p: -p)


@m('Field.inverse')
def _(c):
    p = c.p()
    return merge(c_eq0(p), NONE, some(inv(p)))


@m('Field.sum_of_products')
def _(c):
    return dot(c.I, c.v(0), c.v(1))


@m('Field.pow')
def _(c):
    v = c.v(1)
    p = c.p(0)
    k = v if isinstance(v, Poly) else vindex(v, ZERO) if isinstance(v, Vec) and vlen(v).const() == 1 else None
    k = k.const() if isinstance(k, Poly) else None
    if k is None or k > 40:
        return None
    r = ONE
    for _ in range(k):
        r = r * p
    return r


@m('Group.mul_bigint', 'AffineRepr.mul_bigint', 'PrimeGroup.mul_bigint')
def _(c):
    v = c.v(1)
    q = as_poly(v)
    if q is None:
        if isinstance(v, Vec) and vlen(v).const() == 1:
            q = as_poly(vindex(v, ZERO))
    return c.p(0) * q if q is not None else None


@m('Group.generator', 'AffineRepr.generator', 'PrimeGroup.generator')
def _(c):
    k = kind_of(c.cargs[0])
    return P(Atom('stdgen', (), k)) if k in ('G1', 'G2') else None


@m('AffineRepr.x')
def _(c):
    """two points have the same first coordinate when they are equal or opposite"""
    p = c.p()
    return c.I.branch(c_eq0(p), lambda: NONE, lambda: some(Struct('gsa::x', 0, (p * p,))))


@m('AffineRepr.clear_cofactor', 'AffineRepr.mul_by_cofactor', 'AffineRepr.mul_by_cofactor_to_group', 'AffineRepr.mul_by_cofactor_inv')
def _(c):
    k = P(Atom('cofactor', (), 'F'))
    return c.p() * (inv(k) if c.name.endswith('inv') else k)


@m('ScalarMul.batch_mul')
def _(c):
    I = c.I
    g = c.p()
    return collect(I, It('map', It('vec', c.v(1)), _i.PyFn(lambda x: g * as_poly(I.val(x)))))


@m('CurveGroup.normalize_batch', 'ScalarMul.batch_convert_to_mul_base')
def _(c):
    return c.v()


def dot(I, a, b):
    z = It('zip', into_iter(I, a), into_iter(I, b))
    return fold_add(I, z, ZERO, lambda x: as_poly(I.val(I.getf(x, 0))) * as_poly(I.val(I.getf(x, 1))))


@m('VariableBaseMSM.msm')
def _(c):
    I = c.I
    a, b = gvec(c, 0), gvec(c, 1)
    n, k = I.len_of(a), I.len_of(b)
    return I.branch(c_eq(n, k), lambda: ok(dot(I, a, b)), lambda: err(pmin(I, n, k)))


@m('VariableBaseMSM.msm_unchecked', 'VariableBaseMSM.msm_bigint')
def _(c):
    return dot(c.I, gvec(c, 0), gvec(c, 1))


@m('Pairing.pairing')
def _(c):
    return c.p(0) * c.p(1)


@m('Pairing.miller_loop')
def _(c):
    return c.p(0) * c.p(1)


@m('Pairing.multi_pairing', 'Pairing.multi_miller_loop')
def _(c):
    I = c.I
    a = collect(I, own2(I, into_iter(I, c.args[0])))
    b = collect(I, own2(I, into_iter(I, c.args[1])))
    n, k = I.len_of(a), I.len_of(b)
    I.panic_if(c_not(c_eq(n, k)), 'multi_pairing length mismatch', c.at)
    if n.key != k.key and isinstance(a, Vec):
        a = I.S.norm(a)
        b = I.S.norm(b)
    return dot(I, a, b)


@m('Pairing.final_exponentiation')
def _(c):
    return some(c.v())


TABLE['PairingOutput.0'] = None


# ================================================================ randomness
def rngref(I, a):
    """the cell of the generator behind a chain of mutable references"""
    for _ in range(8):
        if not isinstance(a, MRef):
            return None
        v = I.simp(I.load(a))
        if isinstance(v, MRef):
            a = v
            continue
        return a if isinstance(v, Rng) else None
    return None


def draw(I, a, kind, raw=False, at='?'):
    r = rngref(I, a)
    if r is None:
        return Opq('rand', ())
    g = I.simp(I.load(r))
    I.write(r, Rng(g.stream, g.pos + 1))
    I.event('draw', g.stream, kind, at)
    if raw:
        return P(Atom('rawdraw', (g.stream, g.pos), 'int'))
    return P(Atom('draw', (g.stream, g.pos), kind))


@m('UniformRand.rand', 'Rng.gen', 'Rng.random', 'Rng.sample', 'Distribution.sample')
def _(c):
    I = c.I
    t = None
    a = c.args[0] if c.args else None
    if c.name == 'rand':
        t = c.cargs[0]
    elif c.name in ('gen', 'random'):
        t = c.cargs[1] if len(c.cargs) > 1 else None
    elif c.name == 'sample' and c.own == 'Rng':
        t = c.cargs[1] if len(c.cargs) > 1 else None
    elif c.name == 'sample':
        t = c.cargs[1] if len(c.cargs) > 1 else None
        a = c.args[1]
    k = kind_of(t) if t else None
    if t is not None and t['k'] == 'adt' and t['local']:
        raise _i.Undecided('random %s' % t['path'])
    if k in ('F', 'G1', 'G2', 'GT'):
        return draw(I, a, k, at=c.at)
    return draw(I, a, k or '?', True, c.at)


@m('RngCore.next_u32', 'RngCore.next_u64', 'Rng.gen_range', 'Rng.gen_bool', 'Rng.random_range')
def _(c):
    p = draw(c.I, c.args[0], 'int', True, c.at)
    if c.name == 'gen_bool':
        return c_opq('randbool', vkey(p))
    return p


@m('RngCore.fill_bytes', 'Rng.fill')
def _(c):
    x = draw(c.I, c.args[0], 'bytes', True, c.at)
    c.I.write(c.args[1], Opq('randbytes', (x,)))
    return UNIT


@m('*.thread_rng', '*.test_rng', '*.from_entropy', '*.from_os_rng', '*.seed_from_u64', '*.from_seed', '*.from_rng', 'OsRng.default', '*.rng')
def _(c):
    I = c.I
    for a in c.args:
        if isinstance(a, MRef):
            draw(I, a, 'seed', True, c.at)
    I.event('foreign-rng', c.callee['path'], c.at)
    return Rng('%s@%s' % (c.name, c.at), ZERO)


# ================================================================ encoding
COMP, VALI = 'Compress', 'Validate'


def mode_of(v):
    """0/1 of a Compress / Validate value, None when symbolic"""
    if isinstance(v, Struct) and isinstance(v.var, int):
        return v.var
    return None


def yes_no(kind, b):
    return Struct('ark_serialize::' + kind, 0 if b else 1, ())


LOG, RD = '#log', '#rd'


def stream(I, a):
    for _ in range(10):
        if not isinstance(a, MRef):
            return None
        v = I.simp(I.load(a))
        if isinstance(v, MRef):
            a = v
            continue
        return a
    return None


def prim_kind(t):
    t = strip(t)
    if t['k'] == 'int':
        return t['name']
    if t['k'] == 'bool':
        return 'bool'
    k = kind_of(t)
    if k in ('F', 'G1', 'G2', 'GT'):
        return k
    return None


class CodecMismatch(Exception):
    def __init__(self, why, at):
        Exception.__init__(self, why)
        self.why, self.at = why, at


def sname(x):
    return x.v if isinstance(x, Lit) else x


def ser(I, t, v, w, comp, at):
    t = strip(t)
    v = I.val(v)
    mo = mode_of(I.val(comp))
    k = prim_kind(t)
    if k is not None:
        if mo is None:
            raise _i.Undecided('symbolic compression mode')
        if isinstance(v, Cond):
            v = ind(v)
        put(I, w, Struct('#enc', 0, (Lit(k), v, Lit('' if isint(k) else 'CU'[mo]))), at)
        return ok(UNIT)
    if is_vec(t):
        e = elem(t)
        if not isinstance(v, Vec):
            raise _i.Undecided('encoding of an unknown vector')
        lenpre = t['k'] != 'array'

        def one(x):
            cl = I.cell(Struct(LOG, 0, (Vec([]),)))
            r = I.val(ser(I, e, x, MRef(cl, ()), comp, at))
            if I.decide(I.test(OK_PAT, r)) is not True:
                raise _i.Undecided('element encoding may fail')
            return I.simp(I.S.store[cl]).f[0]
        inner = collect(I, It('map', It('vec', v), _i.PyFn(one)))
        if lenpre:
            put(I, w, Struct('#enc', 0, (Lit('u64'), I.len_of(v), Lit(''))), at)
        putvec(I, w, flat_log(I, inner), at)
        return ok(UNIT)
    if t['k'] == 'tuple':
        for i, x in enumerate(t['tys']):
            r = I.val(ser(I, x, I.getf(v, i), w, comp, at))
            if I.decide(I.test(OK_PAT, r)) is not True:
                raise _i.Undecided('tuple encoding may fail')
        return ok(UNIT)
    if t['k'] == 'adt' and t['local']:
        return disp(I, 'ark_serialize::CanonicalSerialize', 'serialize_with_mode', [t, {'k': 'param', 'idx': 99, 'name': 'W'}], [v, w, comp], at)
    if t['k'] == 'adt' and t['path'].endswith('PhantomData'):
        return ok(UNIT)
    raise _i.Undecided('encoding of type %s' % t.get('path', t['k']))


def isint(k):
    return k in I_SIZES


I_SIZES = {'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8, 'usize': 8, 'bool': 1, 'i32': 4, 'i64': 8, 'u128': 16}


def flat_log(I, inner):
    """entries of consecutive logs; one '#arr' entry when there are unboundedly many of several entries each"""
    out = []
    for n, ix, e in asvec(inner).segs:
        e = I.simp(e)
        if not isinstance(e, Vec):
            raise _i.Undecided('encoding of an element')
        if ix is None:
            out += e.segs
        elif len(e.segs) == 1 and e.segs[0][1] is None and e.segs[0][0].const() == 1:
            out.append((n, ix, e.segs[0][2]))
        else:
            return vec_of(Struct('#arr', 0, (inner,)))
    return mkvec(out)


def put(I, w, entry, at):
    return putvec(I, w, vec_of(entry), at)


def putvec(I, w, entries, at):
    if foreign(I, w):
        given(I, [w, entries], at)
        return
    r = stream(I, w)
    if r is None:
        raise _i.Undecided('unknown output stream')
    v = I.simp(I.load(r))
    if not (isinstance(v, Struct) and v.path == LOG):
        raise _i.Undecided('unknown output stream')
    I.write(r, Struct(LOG, 0, (vconcat(v.f[0], entries),)))


def size(I, t, v, comp, at):
    t = strip(t)
    v = I.val(v)
    k = prim_kind(t)
    mo = mode_of(I.val(comp))
    if k is not None:
        if k in I_SIZES:
            return P(I_SIZES[k])
        if mo is None:
            raise _i.Undecided('symbolic compression mode')
        return size_atom(k, mo)
    if is_vec(t):
        e = elem(t)
        pre = 8 if t['k'] != 'array' else 0
        return fold_add(I, into_iter(I, v), P(pre), lambda x: size(I, e, x, comp, at))
    if t['k'] == 'tuple':
        r = ZERO
        for i, x in enumerate(t['tys']):
            r = r + as_poly(size(I, x, I.getf(v, i), comp, at))
        return r
    if t['k'] == 'adt' and t['local']:
        return as_poly(I.val(disp(I, 'ark_serialize::CanonicalSerialize', 'serialized_size', [t], [v, comp], at)))
    if t['k'] == 'adt' and t['path'].endswith('PhantomData'):
        return ZERO
    raise _i.Undecided('size of type %s' % t.get('path', t['k']))


def size_atom(k, mo):
    if k == 'F':
        mo = 0          # scalars have one encoding length
    a = Atom('size', (k, 'CU'[mo]), 'int')
    DIM_LB[a.key] = 1
    return P(a)


def log_size(v, mode=None):
    """number of bytes of a log"""
    t = ZERO
    for n, ix, e in v.segs:
        s = entry_size(e)
        t = t + (s if ix is None else Sum(ix, n, s))
    return t


def entry_size(e):
    if isinstance(e, Phi):
        return entry_size(e.b) + ind(e.c) * (entry_size(e.a) - entry_size(e.b))
    if e.path == '#enc':
        k = sname(e.f[0])
        if k in I_SIZES:
            return P(I_SIZES[k])
        return size_atom(k, 'CU'.index(sname(e.f[2])))
    inner = e.f[0]
    t = ZERO
    for n, ix, x in inner.segs:
        s = log_size(x)
        t = t + (s if ix is None else Sum(ix, n, s))
    return t


VALID = [False]     # every value taken to be a valid one


def bad(v, k):
    if k in I_SIZES or k == 'F' or VALID[0]:
        return FALSE
    return c_opq('bad', P(v) if not isinstance(v, Poly) else v)


def de(I, t, r, comp, vali, at):
    t = strip(t)
    mo, va = mode_of(I.val(comp)), mode_of(I.val(vali))
    if va is None or mo is None:
        raise _i.Undecided('symbolic decoding mode')
    k = prim_kind(t)
    rr = stream(I, r)
    if rr is None:
        raise _i.Undecided('unknown input stream')
    st = I.simp(I.load(rr))
    if not isinstance(st, Struct) or st.path != RD:
        raise _i.Undecided('unknown input stream')
    if st.var == 0:
        log, pos = st.f
        fuzz = None
    else:
        fuzz, pos = st.f[0].args, st.f[1]
    if k is not None:
        I.write(rr, Struct(RD, st.var, (st.f[0], pos + 1)))
        if fuzz is not None:
            a = Atom('in', tuple(fuzz) + (pos,), 'int' if k in I_SIZES else k)
            x = P(a)
            if k in ('u64', 'usize') and I.opts.get('inlen') is not None:
                x = P(I.opts['inlen'](tuple(fuzz) + (pos,)))    # one possible stream
            bd = c_opq('iofail', *(tuple(fuzz) + (pos,)))
            if va == 0:
                bd = c_or(bd, bad(x, k))
            y = x if k != 'bool' else c_eq0(x - 1)
            return I.branch(bd, lambda: err(Opq('decode-err', ())), lambda: ok(y))
        e = pick(I, log, pos, at)
        if e.path != '#enc':
            raise _i.Undecided('reads a %s where a sequence was written' % k)
        if sname(e.f[0]).replace('usize', 'u64') != k.replace('usize', 'u64'):
            raise CodecMismatch('reads a %s where a %s was written' % (k, sname(e.f[0])), at)
        if not isint(k) and k != 'F' and sname(e.f[2]) != 'CU'[mo]:
            raise CodecMismatch('reads a %s in another compression mode than it was written' % k, at)
        x = e.f[1]
        if k == 'bool':
            x = c_eq0(as_poly(x) - 1)
        return ok(x)
    if is_vec(t):
        e = elem(t)
        novali = yes_no(VALI, False)
        lenpre = t['k'] != 'array'
        if not lenpre and t['len'].get('v') is None:
            raise _i.Undecided('array length')
        if fuzz is not None:
            I.write(rr, Struct(RD, st.var, (st.f[0], pos + 1)))
            n = I.opts.get('inlen')
            n = P(int(t['len']['v'])) if not lenpre else P(Atom('inlen', tuple(fuzz) + (pos,), 'int')) if n is None else P(n(tuple(fuzz) + (pos,)))

            def elemat(j):
                cl = I.cell(Struct(RD, 1, (Opq('s', tuple(fuzz) + (pos, P(j) if not isinstance(j, Poly) else j)), ZERO)))
                return de(I, e, MRef(cl, ()), comp, novali, at)

            def body():
                results = collect(I, It('map', It('range', ZERO, n), _i.PyFn(elemat)))
                res = collect_to(I, It('vec', results), {'k': 'adt', 'path': RESULT, 'args': [t, None]})
                return I.branch(I.test(OK_PAT, res), lambda: checked(I, t, I.proj(res, 0, 0), va, at), lambda: err(Opq('decode-err', ())))
            return I.branch(c_opq('iofail', *(tuple(fuzz) + (pos,))), lambda: err(Opq('decode-err', ())), body)
        if lenpre:
            en = pick(I, log, pos, at)
            if en.path != '#enc':
                raise _i.Undecided('reads a length where a sequence was written')
            if sname(en.f[0]) not in ('u64', 'usize'):
                raise CodecMismatch('reads a sequence where a %s was written' % sname(en.f[0]), at)
            n = as_poly(en.f[1])
            pos = pos + 1
        else:
            n = P(int(t['len']['v']))
        if n.const() is not None:
            I.write(rr, Struct(RD, st.var, (log, pos)))

            def go(i, acc):
                if i == n.const():
                    return checked(I, t, vec_of(*acc), va, at)
                q = I.val(de(I, e, r, comp, novali, at))
                return I.branch(I.test(OK_PAT, q), lambda: go(i + 1, acc + [I.proj(q, 0, 0)]), lambda: err(Opq('decode-err', ())))
            return go(0, [])
        en, at_ = None, ZERO
        for sn, six, se in log.segs:
            if I.decide(c_eq(at_, pos)) is True:
                en = I.simp(se) if six is None else None
                break
            at_ = at_ + sn
        if isinstance(en, Struct) and en.path == '#arr':
            inner = en.f[0]
            I.write(rr, Struct(RD, st.var, (log, pos + 1)))
            if I.decide(c_eq(vlen(inner), n)) is not True:
                raise _i.Undecided('number of elements read')
        else:
            inner = collect(I, It('map', It('vec', sl(log, pos, pos + n)), _i.PyFn(lambda x: vec_of(x))))
            I.write(rr, Struct(RD, st.var, (log, pos + n)))

        def one(x):
            cl = I.cell(Struct(RD, 0, (x, ZERO)))
            q = I.val(de(I, e, MRef(cl, ()), comp, novali, at))
            s = I.simp(I.S.store[cl])
            if I.decide(c_eq(s.f[1], vlen(x))) is not True:
                raise _i.Undecided('element decoding does not consume what was written')
            return q
        results = collect(I, It('map', It('vec', inner), _i.PyFn(one)))
        res = collect_to(I, It('vec', results), {'k': 'adt', 'path': RESULT, 'args': [t, None]})
        return I.branch(I.test(OK_PAT, res), lambda: checked(I, t, I.proj(res, 0, 0), va, at), lambda: err(Opq('decode-err', ())))
    if t['k'] == 'tuple':
        def go(i, acc):
            if i == len(t['tys']):
                return ok(tup(*acc))
            q = I.val(de(I, t['tys'][i], r, comp, vali, at))
            return I.branch(I.test(OK_PAT, q), lambda: go(i + 1, acc + [I.proj(q, 0, 0)]), lambda: err(Opq('decode-err', ())))
        return go(0, [])
    if t['k'] == 'adt' and t['local']:
        return disp(I, 'ark_serialize::CanonicalDeserialize', 'deserialize_with_mode', [t, {'k': 'param', 'idx': 99, 'name': 'R'}], [r, comp, vali], at)
    if t['k'] == 'adt' and t['path'].endswith('PhantomData'):
        return ok(UNIT)
    raise _i.Undecided('decoding of type %s' % t.get('path', t['k']))


def checked(I, t, v, va, at):
    if va != 0:
        return ok(v)
    q = I.val(batch(I, elem(strip(t)), into_iter(I, v), at))
    return I.branch(I.test(OK_PAT, q), lambda: ok(v), lambda: err(Opq('invalid', ())))


def pick(I, log, pos, at):
    if I.decide(c_lt(pos, vlen(log))) is not True:
        if I.decide(c_lt(pos, vlen(log))) is False:
            raise CodecMismatch('reads past the end of what was written', at)
        raise _i.Undecided('position in the input')
    e = I.simp(vindex(log, pos))
    if not isinstance(e, Struct):
        raise _i.Undecided('ambiguous input')
    return e


def check(I, t, v, at):
    t = strip(t)
    v = I.val(v)
    k = prim_kind(t)
    if k is not None:
        b = bad(v, k) if isinstance(v, Poly) else FALSE
        return merge(b, err(Opq('invalid', ())), ok(UNIT))
    if is_vec(t):
        return batch(I, elem(t), into_iter(I, v), at)
    if t['k'] == 'tuple':
        def go(i):
            if i == len(t['tys']):
                return ok(UNIT)
            q = I.val(check(I, t['tys'][i], I.getf(v, i), at))
            return I.branch(I.test(OK_PAT, q), lambda: go(i + 1), lambda: err(Opq('invalid', ())))
        return go(0)
    if t['k'] == 'adt' and t['local']:
        return disp(I, 'ark_serialize::Valid', 'check', [t], [v], at)
    if t['k'] == 'adt' and t['path'].endswith('PhantomData'):
        return ok(UNIT)
    raise _i.Undecided('validity of type %s' % t.get('path', t['k']))


def batch(I, t, it, at):
    """Valid::batch_check for the element type"""
    t = strip(t)
    if t['k'] == 'adt' and t['local']:
        hit = I.p.find_impl('ark_serialize::Valid', t, [t])
        if hit and any(x['name'] == 'batch_check' for x in hit[0]['items']):
            return disp(I, 'ark_serialize::Valid', 'batch_check', [t], [it], at)
    if is_vec(t):
        # Vec's batch check flattens; list by list is the same conjunction
        e = elem(t)
        return fold_ok(I, collect(I, It('map', it, _i.PyFn(lambda x: batch(I, e, into_iter(I, x), at)))))
    return batch_default(I, t, it, at)


def batch_default(I, t, it, at):
    if isinstance(it, It) and it.kind == 'flat':
        # two nested levels
        f = it.p[1] if len(it.p) > 1 else None
        inner = collect(I, It('map', it.p[0], _i.PyFn(lambda x: batch_default(I, t, into_iter(I, I.call_clo(f, [x]) if f is not None else x), at))))
        return fold_ok(I, inner)
    res = collect(I, It('map', it, _i.PyFn(lambda x: check(I, t, x, at))))
    return fold_ok(I, res)


def fold_ok(I, res):
    r = collect_to(I, It('vec', res), {'k': 'adt', 'path': RESULT, 'args': [{'k': 'tuple', 'tys': []}, None]})
    return r


@m('CanonicalSerialize.serialize_with_mode')
def _(c):
    if is_local(c.cargs[0]):
        return None
    return ser(c.I, c.cargs[0], c.args[0], c.args[1], c.args[2], c.at)


def is_local(t):
    t = strip(t)
    return False


def wr_arg(c, i):
    """a writer passed by value: keep it in a cell"""
    a = c.args[i]
    if isinstance(a, MRef):
        return a
    return MRef(c.I.cell(a), ())


@m('CanonicalSerialize.serialize_compressed', 'CanonicalSerialize.serialize_uncompressed')
def _(c):
    return ser(c.I, c.cargs[0], c.args[0], wr_arg(c, 1), yes_no(COMP, c.name == 'serialize_compressed'), c.at)


@m('CanonicalSerialize.serialized_size')
def _(c):
    return size(c.I, c.cargs[0], c.args[0], c.args[1], c.at)


@m('CanonicalSerialize.compressed_size', 'CanonicalSerialize.uncompressed_size')
def _(c):
    return size(c.I, c.cargs[0], c.args[0], yes_no(COMP, c.name == 'compressed_size'), c.at)


@m('CanonicalDeserialize.deserialize_with_mode')
def _(c):
    return de(c.I, c.cargs[0], c.args[0], c.args[1], c.args[2], c.at)


@m('CanonicalDeserialize.deserialize_compressed', 'CanonicalDeserialize.deserialize_uncompressed',
   'CanonicalDeserialize.deserialize_compressed_unchecked', 'CanonicalDeserialize.deserialize_uncompressed_unchecked')
def _(c):
    n = c.name
    return de(c.I, c.cargs[0], c.args[0], yes_no(COMP, 'uncompressed' not in n), yes_no(VALI, 'unchecked' not in n), c.at)


@m('Valid.check')
def _(c):
    return check(c.I, c.cargs[0], c.args[0], c.at)


@m('Valid.batch_check')
def _(c):
    t = strip(c.cargs[0])
    it = into_iter(c.I, c.args[0])
    if t['k'] == 'adt' and t['local']:
        return batch_default(c.I, t, it, c.at)
    return batch(c.I, t, it, c.at)


@m('Write.by_ref', 'Read.by_ref')
def _(c):
    return c.args[0]


@m('Write.flush')
def _(c):
    return ok(UNIT)


@m('Write.write_all', 'Write.write')
def _(c):
    """single bytes"""
    I = c.I
    v = c.v(1)
    if not isinstance(v, Vec):
        return None
    k = vlen(v).const()
    if k is None:
        return None
    for j in range(k):
        put(I, c.args[0], Struct('#enc', 0, (Lit('u8'), vindex(v, P(j)), Lit(''))), c.at)
    return ok(UNIT) if c.name == 'write_all' else ok(P(k))


@m('Read.read_exact')
def _(c):
    I = c.I
    v = c.v(1)
    k = vlen(v).const() if isinstance(v, Vec) else None
    if k is None:
        return None
    u8 = {'k': 'int', 'name': 'u8'}

    def go(j, acc):
        if j == k:
            I.write(c.args[1], vec_of(*acc))
            return ok(UNIT)
        q = I.val(de(I, u8, c.args[0], yes_no(COMP, True), yes_no(VALI, False), c.at))
        return I.branch(I.test(OK_PAT, q), lambda: go(j + 1, acc + [I.proj(q, 0, 0)]), lambda: err(Opq('decode-err', ())))
    return go(0, [])


@m('Read.read')
def _(c):
    """fills the buffer, or stops early at the end of the input (leaving the rest as it was) or at an error"""
    I = c.I
    v = c.v(1)
    k = vlen(v).const() if isinstance(v, Vec) else None
    rr = stream(I, c.args[0])
    if k is None or rr is None:
        return None
    u8 = {'k': 'int', 'name': 'u8'}

    def go(j, acc):
        st = I.simp(I.load(rr))
        if not isinstance(st, Struct) or st.path != RD:
            raise _i.Undecided('unknown input stream')

        def stop(j=j, acc=acc):
            if j:
                I.write(c.args[1], vconcat(vec_of(*acc), vslice(v, P(j), P(k))))
            return ok(P(j))
        if j == k:
            return stop()
        q = I.val(de(I, u8, c.args[0], yes_no(COMP, True), yes_no(VALI, False), c.at))
        end = c_opq('eof', *(tuple(st.f[0].args) + (st.f[1],))) if st.var == 1 else FALSE
        return I.branch(I.test(OK_PAT, q), lambda: go(j + 1, acc + [I.proj(q, 0, 0)]),
                        lambda: I.branch(end, stop, lambda: err(Opq('decode-err', ()))))
    return go(0, [])


# ================================================================ formatting (what is printed is recorded as events)
def printed(c, vals):
    for v in vals:
        v = c.I.simp(c.I.load(v)) if isinstance(v, MRef) else v
        c.I.event('fmt', c.I.S.norm(v) if isinstance(v, V) else v, c.at, list(c.I.S.facts))
    return Opq('fmt', ())


@m('*.debug_struct_field1_finish', '*.debug_struct_field2_finish', '*.debug_struct_field3_finish', '*.debug_struct_field4_finish',
   '*.debug_struct_field5_finish')
def _(c):
    return printed(c, c.args[3::2])


@m('*.debug_struct_fields_finish', '*.debug_tuple_fields_finish', '*.debug_tuple_field1_finish', '*.debug_tuple_field2_finish',
   '*.debug_tuple_field3_finish', '*.debug_tuple_field4_finish', '*.debug_tuple_field5_finish')
def _(c):
    return printed(c, c.args[2:])


def _builder(c):
    return c.args[0] if isinstance(c.args[0], MRef) else Opq('fmt', ())


@m('Formatter.debug_struct', 'Formatter.debug_tuple', 'Formatter.debug_list', 'Formatter.debug_set', 'Formatter.debug_map')
def _(c):
    return Opq('fmt', ())


@m('DebugStruct.field', 'DebugTuple.field', 'DebugList.entry', 'DebugSet.entry', 'DebugMap.entry', 'DebugMap.key', 'DebugMap.value')
def _(c):
    printed(c, c.args[1:])
    return _builder(c)


@m('DebugList.entries', 'DebugSet.entries', 'DebugMap.entries')
def _(c):
    printed(c, [collect(c.I, into_iter(c.I, c.args[1]))])
    return _builder(c)


@m('DebugStruct.finish', 'DebugStruct.finish_non_exhaustive', 'DebugTuple.finish', 'DebugList.finish', 'DebugSet.finish', 'DebugMap.finish',
   'Formatter.write_str', '*.write_fmt', '*._print', '*._eprint', 'Formatter.alternate', 'Formatter.pad')
def _(c):
    return Opq('fmt', ())


for _n in ('debug', 'display', 'lower_hex', 'upper_hex', 'binary', 'octal', 'lower_exp', 'upper_exp', 'pointer'):
    m('Argument.new_' + _n)(lambda c: printed(c, c.args[:1]))
for _n in ('Debug', 'Display', 'LowerHex', 'UpperHex'):
    m(_n + '.fmt')(lambda c: printed(c, c.args[:1]))
