"""Iterators and loop summarisation.

A loop over a range of symbolic length n is replaced by a closed form for every memory cell it
modifies (unchanged, sum, append, last value, pointwise, one-element-per-round update).  The closed
form is guessed from one symbolic round and then verified by induction: running the body once from
closed(k) must give closed(k+1) for every cell.  If it does not, the analysis of this entry point
gives up (Undecided) rather than guess."""
from poly import *
from poly import PHT
from values import *
import interp as _i

import os
MAXCONC = 3000
CUT = 24           # rounds of a loop of unknown length looked at for a fixed shape
DEBUG = os.environ.get('GSA_DEBUG')


# ---------------------------------------------------------------- recognising `for`
def for_loop(e):
    if 'ForLoop' not in e['src']:
        return None
    a = e['arms'][0]
    if a['pat']['p'] != 'bind':
        return None
    b = a['body']
    label = None
    while b['e'] in ('scope', 'use'):
        if b['e'] == 'scope':
            label = b['id']
        b = b['v']
    if b['e'] != 'loop':
        return None
    x = b['body']
    x = _unwrap(x)
    while x['e'] == 'block':
        bl = x['b']
        if bl['expr'] is not None and not bl['stmts']:
            x = _unwrap(bl['expr'])
        elif len(bl['stmts']) == 1 and bl['expr'] is None and bl['stmts'][0]['s'] == 'expr':
            x = _unwrap(bl['stmts'][0]['e'])
        else:
            return None
    if x['e'] != 'match':
        return None
    some_ = [m for m in x['arms'] if m['pat']['p'] == 'variant' and m['pat']['name'] == 'Some']
    if len(some_) != 1:
        return None
    return {'it': e['v'], 'label': label, 'pat': some_[0]['pat']['subs'][0][1], 'body': some_[0]['body']}


def _unwrap(x):
    while x['e'] in ('scope', 'use'):
        x = x['v']
    return x


def run_for(I, f, e, fr):
    it = I.val(I.ev(f['it'], fr))

    def cons(item):
        I.bindp(f['pat'], item, None, fr)
        I.ev(f['body'], fr)
        return UNIT
    iterate(I, it, cons, f['label'], fr)
    return UNIT


# ---------------------------------------------------------------- indexable iterators
def it_len(I, it):
    """element count of an indexable iterator"""
    it = I.simp(it)
    if isinstance(it, Phi):
        raise Split(it.c)
    k = it.kind if isinstance(it, It) else None
    if k == 'vec':
        v = I.simp(it.p[0])
        if isinstance(v, Phi):
            raise Split(v.c)
        return I.len_of(v)
    if k == 'mut':
        v = I.load(it.p[0])
        if isinstance(v, Phi):
            raise Split(v.c)
        return I.len_of(v)
    if k == 'range':
        lo, hi = it.p
        d = I.decide(c_le(lo, hi))
        if d is None:
            raise Split(c_le(lo, hi))
        return hi - lo if d else ZERO
    if k in ('map', 'enum', 'rev'):
        return it_len(I, it.p[0])
    if k == 'zip':
        a, b = it_len(I, it.p[0]), it_len(I, it.p[1])
        if a is None:
            return b
        if b is None:
            return a
        if a.key == b.key:
            return a
        return imin(I, a, b)
    if k == 'chain':
        return it_len(I, it.p[0]) + it_len(I, it.p[1])
    if k == 'take':
        a = it_len(I, it.p[0])
        return it.p[1] if a is None else imin(I, a, it.p[1])
    if k in ('skip', 'pos'):
        a = it_len(I, it.p[0])
        if a is None:
            return None
        d = I.decide(c_le(it.p[1], a))
        if d is None:
            raise Split(c_le(it.p[1], a))
        return a - it.p[1] if d else ZERO
    if k in ('rangefrom', 'repeat', 'repeatw'):
        return None
    if k == 'stepby':
        a = it_len(I, it.p[0])
        s = it.p[1].const()
        if a.const() is None or not s:
            if s == 1:
                return a
            if not s:
                raise _i.Undecided('step_by')
            d = divide(a, P(s))
            if d is not None:
                return d[0] if d[1].is_zero() else d[0] + 1 if d[1].const() else idiv('opDiv', a + s - 1, P(s))
            return idiv('opDiv', a + s - 1, P(s))
        return P((a.const() + s - 1) // s)
    if k == 'chunks':
        a, s = I.len_of(it.p[0]), it.p[1]
        if a.const() is not None and s.const():
            return P((a.const() + s.const() - 1) // s.const())
        if I.decide(c_le(a, s)) is True and I.decide(c_le(P(1), a)) is True:
            return ONE
        d = divide(a, s)
        if d is not None and d[1].is_zero():
            return d[0]
        raise _i.Undecided('chunks')
    if k == 'windows':
        a, s = I.len_of(it.p[0]), it.p[1]
        d = I.decide(c_le(s, a))
        if d is None:
            raise Split(c_le(s, a))
        return a - s + 1 if d else ZERO
    raise _i.Undecided('iterator %s' % (k or type(it).__name__))


def imin(I, a, b):
    d = I.decide(c_le(a, b))
    if d is True:
        return a
    if d is False:
        return b
    raise Split(c_le(a, b))


def it_get(I, it, j):
    it = I.simp(it)
    if isinstance(it, Phi):
        raise Split(it.c)
    k = it.kind
    if k == 'vec':
        return I.getix(it.p[0], j)
    if k == 'mut':
        return I.isub(it.p[0], ('i', j))
    if k in ('range', 'rangefrom'):
        return it.p[0] + j
    if k == 'map':
        return I.call_clo(it.p[1], [it_get(I, it.p[0], j)])
    if k == 'enum':
        return tup(j, it_get(I, it.p[0], j))
    if k == 'rev':
        return it_get(I, it.p[0], it_len(I, it.p[0]) - 1 - j)
    if k == 'zip':
        return tup(it_get(I, it.p[0], j), it_get(I, it.p[1], j))
    if k == 'chain':
        n = it_len(I, it.p[0])
        return I.branch(c_lt(j, n), lambda: it_get(I, it.p[0], j), lambda: it_get(I, it.p[1], j - n))
    if k == 'take':
        return it_get(I, it.p[0], j)
    if k in ('skip', 'pos'):
        return it_get(I, it.p[0], j + it.p[1])
    if k == 'repeat':
        return it.p[0]
    if k == 'repeatw':
        return I.call_clo(it.p[0], [])
    if k == 'stepby':
        return it_get(I, it.p[0], j * it.p[1])
    if k == 'chunks':
        a = I.len_of(it.p[0])
        lo = j * it.p[1]
        hi = lo + it.p[1]
        if I.decide(c_le(hi, a)) is not True:
            hi = a
        return I.getsl(it.p[0], lo, hi)
    if k == 'windows':
        return I.getsl(it.p[0], j, j + it.p[1])
    raise _i.Undecided('iterator %s' % k)


FILT = ('filter', 'fmap', 'flat', 'inspect', 'takew', 'skipw', 'mapw')


def indexable(it):
    if isinstance(it, Phi):
        return indexable(it.a) and indexable(it.b)
    if not isinstance(it, It):
        return False
    if it.kind in FILT:
        return False
    return all(indexable(x) for x in it.p if isinstance(x, (It, Phi)))


def iterate(I, it, cons, label=None, fr=None, acc=None):
    """run cons(item) for every element in order.  acc = ('push'|'add', cell, value function) when the
    consumer only accumulates into a cell that nothing else can see"""
    it = I.simp(it)
    if isinstance(it, MRef):
        return iterate_ref(I, it, cons, label, fr, acc)
    if isinstance(it, Phi):
        I.branch(it.c, lambda: iterate(I, it.a, cons, label, fr, acc) or UNIT,
                 lambda: iterate(I, it.b, cons, label, fr, acc) or UNIT)
        return
    if isinstance(it, Vec):
        it = It('vec', it)
    if isinstance(it, Struct) and it.path == OPTION:
        if isinstance(it.var, int):
            if it.var == 1:
                cons(it.f[0])
            return
    if not isinstance(it, It):
        raise _i.Undecided('iteration over %r' % (type(it).__name__,))
    if it.kind == 'chain' and label is None:
        iterate(I, it.p[0], cons, None, fr, acc)
        iterate(I, it.p[1], cons, None, fr, acc)
        return
    if indexable(it):
        def go():
            try:
                n = it_len(I, it)
            except Split as s:
                I.branch(s.c, go, go)
                return UNIT
            if n is None:
                raise _i.Undecided('endless iterator')
            n = I.S.norm(n)
            for a in n.atoms():
                if a.name == 'ind' and I.decide(a.args[0]) is None:
                    # the number of rounds depends on a condition: one loop for each case
                    I.branch(a.args[0], go, go)
                    return UNIT
            loop_over(I, n, lambda k: it_get(I, it, k), cons, label, fr, acc)
            return UNIT
        go()
        return
    # filters: push style
    k = it.kind
    src = it.p[0]
    if k == 'filter':
        f = it.p[1]

        def c2(x):
            c = I.as_cond(I.val(I.call_clo(f, [x])))
            I.branch(c, lambda: cons(x) or UNIT, lambda: UNIT)
            return UNIT
        return iterate(I, src, c2, label, fr)
    if k == 'inspect':
        f = it.p[1]

        def c2(x):
            I.call_clo(f, [x])
            return cons(x)
        return iterate(I, src, c2, label, fr)
    if k == 'map':
        f = it.p[1]
        return iterate(I, src, lambda x: cons(I.call_clo(f, [x])), label, fr)
    if k == 'fmap':
        f = it.p[1]

        def c2(x):
            r = I.val(I.call_clo(f, [x]))
            c = I.test(SOME_PAT, r)
            I.branch(c, lambda: cons(I.proj(r, 1, 0)) or UNIT, lambda: UNIT)
            return UNIT
        return iterate(I, src, c2, label, fr)
    if k == 'flat':
        f = it.p[1] if len(it.p) > 1 else None

        def c2(x):
            y = I.call_clo(f, [x]) if f is not None else x
            y = I.models.into_iter(I, y)
            iterate(I, y, cons)
            return UNIT
        return iterate(I, src, c2, label, fr)
    if k in ('enum',):
        c = I.cell(ZERO)

        def c2(x):
            i = I.S.store[c]
            I.S.store[c] = i + 1
            return cons(tup(i, x))
        return iterate(I, src, c2, label, fr)
    if k == 'skipw':
        f = it.p[1]
        on = I.cell(FALSE)

        def c2(x):
            go = I.branch(I.as_cond(I.S.store[on]), lambda: TRUE, lambda: c_not(I.as_cond(I.val(I.call_clo(f, [x])))))
            go = I.as_cond(I.val(go))
            I.S.store[on] = go
            I.branch(go, lambda: cons(x) or UNIT, lambda: UNIT)
            return UNIT
        return iterate(I, src, c2, label, fr)
    if k in ('takew', 'mapw'):
        f = it.p[1]
        myfr = fr or I.frames[-1]
        lab = label if label is not None else ('tw', id(it))

        def c2(x):
            if k == 'takew':
                c = I.as_cond(I.val(I.call_clo(f, [x])))
                y = x
            else:
                r = I.val(I.call_clo(f, [x]))
                c = I.test(SOME_PAT, r)
                y = I.proj(r, 1, 0) if I.may(r, 1) else UNIT

            def stop():
                I.record_exit(myfr, lab, UNIT)
                raise _i.Diverge()
            I.branch(c, lambda: cons(y) or UNIT, stop)
            return UNIT
        return iterate(I, src, c2, lab, myfr)
    if k == 'rev' and isinstance(src, It):
        # materialise, then reverse
        v = collect(I, src)
        return iterate(I, It('rev', It('vec', v)), cons, label, fr, acc)
    if k in ('zip', 'take', 'skip', 'pos', 'chain'):
        parts = [It('vec', collect(I, x)) if isinstance(x, It) and not indexable(x) else x for x in it.p]
        return iterate(I, It(k, *parts), cons, label, fr, acc)
    raise _i.Undecided('iterator %s' % k)


def iterate_ref(I, r, cons, label, fr, acc):
    """by-reference iteration of an iterator variable: consumes it"""
    it = I.load(r)
    iterate(I, it, cons, label, fr, acc)
    I.write(r, It('vec', Vec([])))


SOME_PAT = {'p': 'variant', 'idx': 1, 'subs': [], 'name': 'Some'}
OK_PAT = {'p': 'variant', 'idx': 0, 'subs': [], 'name': 'Ok'}


def collect(I, it):
    c = I.cell(Vec([]))

    def push(x):
        I.S.store[c] = I.dist(I.S.store[c], lambda v: vconcat(v, vec_of(x)))
        return UNIT
    iterate(I, it, push, acc=('push', c, lambda x: x))
    return I.S.store.pop(c)


def fold_add(I, it, init, f=None):
    c = I.cell(init)

    def add(x):
        y = as_poly(I.val(f(x) if f else x))
        if y is None:
            raise _i.Undecided('sum of non-scalars')
        I.S.store[c] = as_poly(I.S.store[c]) + y
        return UNIT

    def val(x):
        y = as_poly(I.val(f(x) if f else x))
        if y is None:
            raise _i.Undecided('sum of non-scalars')
        return y
    iterate(I, it, add, acc=('add', c, val))
    return I.S.store.pop(c)


# ---------------------------------------------------------------- loops
def loop_over(I, n, item, cons, label, fr, acc):
    k = n.const()
    if k is not None:
        if k > MAXCONC:
            raise _i.Undecided('long concrete loop')
        return concrete(I, k, item, cons, label, fr)
    symbolic(I, n, item, cons, label, fr, acc)


def with_targets(I, fr, label, base, f):
    """run f with a break target; returns live value or joins the exits"""
    if fr is None or label is None:
        f()
        return
    t = _i.Target(label, base)
    fr.targets.append(t)
    live = True
    try:
        try:
            f()
        except _i.Diverge:
            live = False
    finally:
        fr.targets.remove(t)
    I.merge_exits(t, live, UNIT)


def one_round(I, fr, label, f):
    """one round of the body, joining `continue` exits"""
    start = I.cells
    if fr is None or label is None:
        f()
    else:
        t = _i.Target(('c', label), I.S)
        fr.targets.append(t)
        live = True
        try:
            try:
                f()
            except _i.Diverge:
                live = False
        finally:
            fr.targets.remove(t)
        I.merge_exits(t, live, UNIT)
    st = I.S.store
    # cells of this round cannot be referenced from outside unless a reference or closure was stored
    keep = any(_i.refs(v) and isinstance(v, (It, Clo, Struct, Vec)) and refs_new(v, start) for c, v in st.items() if c <= start)
    if not keep:
        for c in [c for c in st if c > start]:
            del st[c]


def refs_new(v, start):
    if isinstance(v, MRef):
        return v.cell > start
    if isinstance(v, Clo):
        return any(c > start for c in v.env.values())
    if isinstance(v, It):
        return any(refs_new(x, start) for x in v.p if not isinstance(x, str))
    if isinstance(v, Struct):
        return any(refs_new(x, start) for x in v.f)
    if isinstance(v, Vec):
        return any(refs_new(t, start) for _, _, t in v.segs)
    if isinstance(v, Phi):
        return refs_new(v.a, start) or refs_new(v.b, start)
    return False


def concrete(I, n, item, cons, label, fr):
    def go():
        for j in range(n):
            one_round(I, fr, label, lambda: cons(item(P(j))))
    with_targets(I, fr, label, I.S, go)


class Pass:
    pass


def run_pass(I, S0, cells, k, n, item, cons, label, fr, quiet=True):
    """one round at index k from S0 with some cells replaced"""
    S = S0.fork()
    for c, v in cells.items():
        S.store[c] = v
    S.pc = S0.pc
    I.S = S
    S.add(c_ge0(n - 1))
    base = S.fork()
    I.S = S
    r = Pass()
    lens = [len(t.exits) for t in fr.targets] if fr else []
    t = None
    if fr is not None and label is not None:
        t = _i.Target(label, base)
        fr.targets.append(t)
    if quiet:
        I.quiet += 1
    np, ne = len(I.panics), len(I.events)
    try:
        try:
            one_round(I, fr, label, lambda: cons(item(P(k))))
            r.S = I.S
            settle(I, r.S)
        except _i.Diverge:
            r.S = None
    finally:
        if quiet:
            I.quiet -= 1
        if t is not None:
            fr.targets.remove(t)
    r.brk = t.exits if t else []
    r.out = []
    if fr:
        for tt, l in zip(fr.targets, lens):
            for x in tt.exits[l:]:
                r.out.append((tt, x))
            del tt.exits[l:]
    r.base = base
    r.np, r.ne = np, ne
    I.S = S0
    return r


def changed(S0, S1):
    return [c for c, v in S0.store.items() if S1.store.get(c) is not v and not veq(S1.store[c], v)]


def advance(I, S0, r, mod):
    """iterators the round moves forward (or shortens) start out as moved by nothing"""
    for c in mod:
        v, w = S0.store[c], r.S.store[c]
        if isinstance(v, Struct) and isinstance(w, Struct):
            continue
        w = alive(w)
        if isinstance(v, It) and isinstance(w, It) and v.kind != w.kind and w.kind in ('pos', 'take') and veq(w.p[0], v):
            S0.store[c] = It('pos', v, ZERO) if w.kind == 'pos' else It('take', v, it_len(I, v))


def alive(w):
    """the case in which an iterator still had an element"""
    while isinstance(w, Phi):
        a, b = w.a, w.b
        w = a if isinstance(a, It) and (a.kind in ('pos', 'take') or not isinstance(b, It)) else b
    return w


def symbolic(I, n, item, cons, label, fr, acc):
    S0 = I.S.fork()
    nt = [len(t.exits) for t in fr.targets] if fr else []
    np, ne = len(I.panics), len(I.events)
    seen = []
    try:
        return _symbolic(I, n, item, cons, label, fr, acc, False, seen)
    except _i.Undecided:
        if not seen:
            raise
        I.S = S0
        if fr:
            for tt, l in zip(fr.targets, nt):
                del tt.exits[l:]
        del I.panics[np:]
        del I.events[ne:]
        return _symbolic(I, n, item, cons, label, fr, acc, True, [])      # lists that grow at the front


def _symbolic(I, n, item, cons, label, fr, acc, front, seen):
    settle(I, I.S)
    S0 = I.S.fork()
    if S0.eq:
        for c, v in S0.store.items():
            if not isinstance(v, (Clo, MRef)) and not vsup(v).isdisjoint(a.key for a in S0.eq):
                S0.store[c] = S0.norm(v)
    I.S = S0
    k = fresh_ix(n)
    if acc is not None:
        np, ne = len(I.panics), len(I.events)
        box = []
        r = run_pass(I, S0, {}, k, n, item, lambda x: box.append(acc[2](x)), label, fr, quiet=False)
        if r.S is not None and not changed(S0, r.S) and not r.brk and not r.out and len(box) == 1 and not _i.refs(box[0]):
            v0 = S0.store[acc[1]]
            x = r.S.norm(box[0])
            leave(I, S0, r, k, n)
            if acc[0] == 'push':
                if not isinstance(v0, Vec):
                    raise _i.Undecided('append to unknown vector')
                I.S.store[acc[1]] = mkvec(list(v0.segs) + [(n, k, x)])
            else:
                I.S.store[acc[1]] = as_poly(v0) + Sum(k, n, x)
            return
        del I.panics[np:]
        del I.events[ne:]
        I.S = S0
    r = run_pass(I, S0, {}, k, n, item, cons, label, fr)
    if r.S is None or r.brk:
        return early(I, S0, r, k, n, item, cons, label, fr)
    mod = changed(S0, r.S)
    advance(I, S0, r, mod)
    for rnd in range(4):
        tm = {}
        solver = Solver(I, S0, k, n, front)
        for c in mod:
            tm[c] = solver.template(S0.store[c], r.S.norm(r.S.store[c]), ())
            if isinstance(tm[c], Tm) and tm[c].o == 'grow' and solver.ph[tm[c].a[0]]['g'] == 1:
                seen.append(c)
        r2 = run_pass(I, S0, {c: solver.start(tm[c]) for c in mod}, k, n, item, cons, label, fr)
        if r2.S is None:
            raise _i.Undecided('loop with early exit')
        more = [c for c in S0.store if c not in tm and not same(r2.S, c, S0.store[c])]
        if more:
            mod = mod + more
            # rediscover with the larger set
            for c in more:
                r.S.store[c] = r2.S.store[c]
            continue
        for c in mod:
            solver.collect(tm[c], r2.S.norm(r2.S.store[c]), ())
        solver.solve()
        closed = {c: solver.close(tm[c], P(k)) for c in mod}
        break
    else:
        raise _i.Undecided('loop does not stabilise')
    for att in range(3):
        np, ne = len(I.panics), len(I.events)
        r3 = run_pass(I, S0, closed, k, n, item, cons, label, fr, quiet=False)
        if r3.S is None or r3.brk:
            raise _i.Undecided('loop with early exit')
        bad = []
        for c in S0.store:
            want = S0.store[c]
            if c in closed:
                want = solver.close(tm[c], P(k) + 1)
            if not same(r3.S, c, want):
                bad.append(c)
        if not bad:
            break
        if DEBUG:
            print('LOOP', I.where(), 'n', show(n), 'label', label)
            for c in bad:
                print('  before', vshow(S0.store[c])[:400])
                print('  have', vshow(r3.S.norm(r3.S.store[c]))[:900])
                print('  want', vshow(r3.S.norm(solver.close(tm[c], P(k) + 1)) if c in closed else 'unchanged')[:900])
        if att == 2 or any(c not in closed for c in bad):
            raise _i.Undecided('no closed form for the loop')
        del I.panics[np:]
        del I.events[ne:]
        # refine the guess from what the round did to the closed form
        if not solver.refine(tm, {c: (closed[c], r3.S.norm(r3.S.store[c])) for c in mod}):
            raise _i.Undecided('no closed form for the loop')
        closed = {c: solver.close(tm[c], P(k)) for c in mod}
    fin = {c: solver.close(tm[c], n) for c in mod}
    leave(I, S0, r3, k, n)
    for c, v in fin.items():
        I.S.store[c] = I.S.norm(v) if not isinstance(v, (MRef, Clo)) else v
    for tt, (c, S, v) in r3.out:
        outer_exit(I, S0, tt, c, S, v, k, n)


def same(S, c, want):
    have = S.store.get(c)
    if have is None:
        return False
    if have is want:
        return True
    if isinstance(have, (Clo, MRef)) or isinstance(want, (Clo, MRef)):
        return veq(have, want)
    return veq(have, want) or vsame(S, S.norm(have), S.norm(want))


def zero_cases(S, d, depth=0):
    """is d zero for every order of the integers compared inside"""
    d = S.norm(d)
    cs = {}
    for m in d.t:
        for a, _ in m.factors:
            if a.name == 'ind' and a.args[0].op in ('eq0', 'ge0') and a.args[0].args[0].is_intlike() and \
                    not any(k.startswith('ib') for k in a.args[0].sup):
                cs[(a.args[0].op != 'eq0', a.args[0].key)] = a.args[0]
    for k in list(cs):
        t = S.known(cs[k])
        if t is not None:
            d = d.subst({cs[k]: TRUE if t else FALSE})
            del cs[k]
    if d.is_zero():
        return True
    if not cs or depth > 4:
        return False
    c = cs[min(cs)]
    x = c.args[0]
    split = (c, c_ge0(x - 1), c_ge0(-x - 1)) if c.op == 'eq0' else (c, c_not(c))
    for s in split:
        if S.known(s) is False:
            continue
        S2 = S.fork()
        S2.add(s)
        if not zero_cases(S2, d, depth + 1):
            return False
    return True


def vsame(S, a, b):
    """equal up to the form of the numbers inside"""
    if a is b or veq(a, b):
        return True
    if isinstance(a, Poly) and isinstance(b, Poly):
        return zero_cases(S, a - b)
    if isinstance(a, Struct) and isinstance(b, Struct):
        if a.path != b.path or len(a.f) != len(b.f):
            return False
        if isinstance(a.var, Poly) or isinstance(b.var, Poly):
            if not vsame(S, P(a.var), P(b.var)):
                return False
        elif a.var != b.var:
            return False
        return all(vsame(S, x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, Vec) and isinstance(b, Vec) and len(a.segs) == len(b.segs):
        for (c1, i1, t1), (c2, i2, t2) in zip(a.segs, b.segs):
            if c1.key != c2.key or (i1 is None) != (i2 is None):
                return False
            if i1 is not None:
                nix = fresh_ix(c1)
                t1, t2 = vsub(t1, {i1: P(nix)}), vsub(t2, {i2: P(nix)})
            if not vsame(S, t1, t2):
                return False
        return True
    if isinstance(a, Rng) and isinstance(b, Rng):
        return a.stream == b.stream and vsame(S, a.pos, b.pos)
    return False


def leave(I, S0, r, k, n):
    """state after the loop: facts established in every round"""
    S = S0.fork()
    I.S = S
    for f in r.S.facts:
        if f.key in r.base.fk or f.key in S0.fk:
            continue
        if k.key in f.sup:
            S.add(c_all(k, n, f))
        else:
            S.add(c_or(c_eq0(n), f))


def outer_exit(I, S0, tt, c, S, v, k, n):
    """`return` from inside a symbolic loop: allowed when the value does not depend on the round"""
    base = tt.base
    if k.key in vsup(v):
        raise _i.Undecided('return value depends on the loop round')
    loc = c_and(*[x for x in S.pc[len(S0.pc):]])
    ex = c_not(c_all(k, n, c_not(loc)))
    S2 = S0.fork()
    S2.add(ex)
    pre = c_and(*S0.pc[tt.pclen:])
    tt.exits.append((c_and(pre, ex), S2, v))
    I.S.add(c_not(ex))


def early(I, S0, r, k, n, item, cons, label, fr):
    """loops left early: every round leaves, or rounds that change nothing until one of them leaves"""
    if r.S is None:
        def once():
            concrete(I, 1, item, cons, label, fr)
            return UNIT
        return I.branch(c_ge0(n - 1), once, lambda: UNIT)
    if changed(S0, r.S) or len(r.brk) != 1:
        raise _i.Undecided('loop with early exit')
    r = run_pass(I, S0, {}, k, n, item, cons, label, fr, quiet=False)
    c, S, v = r.brk[0]
    for x in changed(S0, S):
        if k.key in vsup(S.store[x]) or isinstance(S.store[x], (MRef, Clo)):
            raise _i.Undecided('loop left with a value that depends on the round')
    loc = c_and(*[x for x in S.pc[len(r.base.pc):]])
    hit = c_not(c_all(k, n, c_not(loc)))
    leave(I, S0, r, k, n)               # nothing was found in any round
    Sb = I.S
    Sa = S0.fork()
    Sa.add(hit)
    for x in changed(S0, S):
        Sa.store[x] = S.store[x]
    Sb.add(c_not(hit))
    I.S, _ = I.join(hit, Sa, UNIT, Sb, UNIT, S0)
    for tt, (c, S, v) in r.out:
        outer_exit(I, S0, tt, c, S, v, k, n)


# ---------------------------------------------------------------- closed forms
class Solver:
    def __init__(self, I, S0, k, n, front=False):
        self.I, self.S0, self.k, self.n = I, S0, k, n
        self.front = front      # lists grow at the front
        self.ph = {}        # id -> record
        self.cnt = 0

    def new(self, kind, **kw):
        self.cnt += 1
        i = 'q%d' % fresh_id()
        self.ph[i] = dict(kind=kind, id=i, **kw)
        return i

    def template(self, a, b, ctx):
        """a: value before the loop, b: after one round; ctx: index variables in scope"""
        if veq(a, b):
            return a
        if isinstance(a, Poly) and isinstance(b, Poly):
            i = self.new('poly', v0=a, ctx=ctx)
            knd = 'int' if a.is_intlike() and b.is_intlike() else 'F'
            return P(Atom('ph', (i,) + tuple(P(x) for x in ctx), knd))
        if isinstance(a, Cond) and isinstance(b, Cond) and not ctx:
            i = self.new('cond', v0=a, ctx=ctx)
            return Tm('cond', i)
        if isinstance(a, Rng) and isinstance(b, Rng) and a.stream == b.stream:
            return Tm('rng', a.stream, self.template(a.pos, b.pos, ctx))
        if isinstance(a, Struct) and isinstance(b, Struct) and a.path == b.path and not isinstance(a.var, Poly) and \
                a.var == b.var and len(a.f) == len(b.f):
            return Tm('struct', a, [self.template(x, y, ctx) for x, y in zip(a.f, b.f)])
        if isinstance(a, It) and isinstance(b, It) and a.kind == b.kind and len(a.p) == len(b.p):
            return Tm('it', a, [x if isinstance(x, str) else self.template(x, y, ctx) for x, y in zip(a.p, b.p)])
        if isinstance(a, Vec) and isinstance(b, Vec):
            la, lb = vlen(a), vlen(b)
            g = (lb - la).const()
            if g == 1 and self.front:
                return Tm('frow', self.new('frow', ctx=ctx), a)
            if g is not None and g > 0:
                i = self.new('grow', v0=a, ctx=ctx, g=g)
                return Tm('grow', i, a)
            if g is not None and g < 0:
                st = Ctx.state
                for lo, hi in ((-g, 0), (0, -g)):      # shorter at the front or at the back
                    Ctx.state = self.S0.fork()
                    Ctx.state.add(c_ge0(lb))
                    try:
                        c = vslice(a, P(lo), la - hi)
                    finally:
                        Ctx.state = st
                    if c is not None and veq(c, b):
                        return Tm('cut', self.new('cut', ctx=ctx), a, lo, hi)
            if g == 0:
                segs = []
                off = ZERO
                for c, ix, t in a.segs:
                    if ix is None:
                        tb = vindex(b, off)
                        segs.append((c, None, self.template(t, tb, ctx)))
                    else:
                        nix = fresh_ix(c)
                        t0 = vsub(t, {ix: P(nix)})
                        tb = vindex(b, off + P(nix))
                        p = self.point(nix, t0, tb)
                        if p is not None:
                            i = self.new('point', v0=t0, ctx=ctx, ix=nix, c=c)
                            segs.append((c, nix, Tm('point', i, t0, c, nix)))
                        else:
                            segs.append((c, nix, self.template(t0, tb, ctx + (nix,))))
                    off = off + c
                return Tm('vec', segs)
        if not ctx:
            i = self.new('last', v0=a, ctx=ctx)
            return Tm('last', i, a)
        raise _i.Undecided('update pattern in loop')

    def point(self, ix, t0, tb):
        """tb = (if ix == k then new else t0) for a non-numeric element"""
        if isinstance(tb, Phi) and veq(tb.b, t0) and not (isinstance(t0, Poly)):
            if tb.c.op == 'eq0':
                p = tb.c.args[0]
                if p.key == c_eq0(P(ix) - P(self.k)).args[0].key:
                    return tb.a
        return None

    # --- template value at iteration e (placeholders form when solved is False)
    def inst(self, T, e, f):
        """f(kind record, ...) supplies the unsolved/closed content"""
        if not isinstance(T, Tm):
            return f('val', T, e)
        o = T.o
        if o == 'cond':
            return f('cond', T.a[0], e)
        if o == 'rng':
            return Rng(T.a[0], self.inst(T.a[1], e, f))
        if o == 'struct':
            return Struct(T.a[0].path, T.a[0].var, [self.inst(x, e, f) for x in T.a[1]])
        if o == 'it':
            return It(T.a[0].kind, *[x if isinstance(x, str) else self.inst(x, e, f) for x in T.a[1]])
        if o == 'cut':
            a, lo, hi = T.a[1:]
            if e.key == P(self.k).key:
                self.S0.add(c_ge0(vlen(a) - e * (lo + hi)))      # what is left of it after k rounds has a length
            c = vslice(a, e * lo, vlen(a) - e * hi)
            if c is None:
                raise _i.Undecided('slice in loop')
            return c
        if o == 'frow':
            return mkvec(f('frow', T.a[0], e) + list(T.a[1].segs))
        if o == 'grow':
            return f('grow', T.a[0], e)
        if o == 'vec':
            segs = []
            for c, ix, t in T.a[0]:
                if ix is None:
                    segs.append((c, None, self.inst(t, e, f)))
                elif isinstance(t, Tm) and t.o == 'point':
                    segs.extend(f('point', t.a[0], e))
                else:
                    nix = fresh_ix(c)
                    segs.append((c, nix, vsub(self.inst(t, e, f), {ix: P(nix)})))
            return mkvec(segs)
        if o == 'last':
            return f('last', T.a[0], e)
        raise _i.Undecided('template')

    def start(self, T):
        """placeholder content at round k"""
        k = P(self.k)

        def f(kind, i, e):
            if kind == 'val':
                return i
            r = self.ph[i]
            if kind == 'cond':
                r['c'] = c_opq('ph', i)
                return r['c']
            if kind == 'grow':
                ix = fresh_ix(k * r['g'])
                r['hole'] = [(k * r['g'], ix, Opq('hole', (i, P(ix))))]
                return Vec(list(r['v0'].segs) + r['hole'])
            if kind == 'frow':
                ix = fresh_ix(k)
                return [(k, ix, Opq('hole', (i, P(ix))))]
            if kind == 'point':
                ix = fresh_ix(k)
                n2 = r['c'] - k
                ix2 = fresh_ix(n2)
                return [(k, ix, Opq('hole', (i, P(ix)))), (n2, ix2, vsub(r['v0'], {r['ix']: P(ix2) + k}))]
            if kind == 'last':
                return Opq('hole', (i,))
        return self.inst(T, k, f)

    def collect(self, T, b, ctx):
        """match the value after the round against the template"""
        if not isinstance(T, Tm):
            if isinstance(T, Poly):
                at = [a for a in T.atoms() if a.name == 'ph']
                if len(T.t) == 1 and len(at) == 1 and at[0].args[0] in self.ph:
                    q = as_poly(b)
                    if q is None:
                        raise _i.Undecided('loop value')
                    self.ph[at[0].args[0]]['new'] = q
            return
        o = T.o
        I = self.I
        if o == 'cond':
            if not isinstance(b, Cond):
                raise _i.Undecided('loop value')
            self.ph[T.a[0]]['new'] = b
        elif o == 'rng':
            if not isinstance(b, Rng):
                raise _i.Undecided('loop value')
            self.collect(T.a[1], b.pos, ctx)
        elif o == 'struct':
            for i, x in enumerate(T.a[1]):
                self.collect(x, I.getf(b, i), ctx)
        elif o == 'it':
            if not isinstance(b, It) or b.kind != T.a[0].kind:
                raise _i.Undecided('loop value')
            for x, y in zip(T.a[1], b.p):
                if not isinstance(x, str):
                    self.collect(x, y, ctx)
        elif o == 'frow':
            if not isinstance(b, Vec) or not (vlen(b) - vlen(T.a[1]) - P(self.k) - 1).is_zero():
                raise _i.Undecided('append pattern')
            self.ph[T.a[0]]['new'] = vindex(b, ZERO)
        elif o == 'grow':
            r = self.ph[T.a[0]]
            if not isinstance(b, Vec):
                raise _i.Undecided('append pattern')
            g = r['g']
            base = vlen(r['v0']) + P(self.k) * g
            if (vlen(b) - base).const() != g:
                raise _i.Undecided('append pattern')
            r['new'] = [vindex(b, base + j) for j in range(g)]
        elif o == 'vec':
            off = ZERO
            for c, ix, t in T.a[0]:
                if ix is None:
                    self.collect(t, I.getix(b, off), ctx)
                elif isinstance(t, Tm) and t.o == 'point':
                    r = self.ph[t.a[0]]
                    r['new'] = I.getix(b, off + P(self.k))
                else:
                    self.collect(t, I.getix(b, off + P(ix)), ctx + (ix,))
                off = off + c
        elif o == 'cut':
            self.ph[T.a[0]]['new'] = b
        elif o == 'last':
            self.ph[T.a[0]]['new'] = b

    def solve(self):
        for r in self.ph.values():
            if 'new' not in r:
                raise _i.Undecided('loop value')
        for r in self.ph.values():
            if r['kind'] == 'poly':
                me = P(Atom('ph', (r['id'],) + tuple(P(x) for x in r['ctx']), 'int' if r['v0'].is_intlike() and r['new'].is_intlike() else 'F'))
                mes = [a for a in Atom.pool.values() if a.name == 'ph' and a.args and a.args[0] == r['id']]
                d = r['new'] - me
                own = [a for a in mes if a.key in d.sup]
                if not own:
                    r['how'], r['d'] = 'add', d
                elif not any(a.key in r['new'].sup for a in mes):
                    r['how'], r['d'] = 'last', r['new']
                else:
                    r['how'], r['d'] = 'add', self.guess0(d, r)
            elif r['kind'] == 'cond':
                c = r['new']
                ph = c_opq('ph', r['id'])
                parts = list(c.args) if c.op in ('and', 'or') else [c]
                rest = [x for x in parts if x is not ph]
                if len(rest) < len(parts) and not any(ph.key in x.sup for x in rest) and c.op in ('and', 'or'):
                    r['how'] = c.op
                    r['d'] = c_and(*rest) if c.op == 'and' else c_or(*rest)
                elif ph.key not in c.sup:
                    r['how'], r['d'] = 'last', c
                else:
                    raise _i.Undecided('flag pattern in loop')
            else:
                r['how'], r['d'] = r['kind'], r['new']

    def guess0(self, d, r):
        i = r['id']

        def f(a):
            if a.args[0] == i:
                m = dict(zip(r['ctx'], a.args[1:]))
                return r['v0'].subst(m) if m else r['v0']
            return None
        return d.subst({PHT: f})

    def refine(self, tm, vals):
        return False

    def close(self, T, e, depth=0):
        """closed form at round e (all placeholders replaced)"""
        if depth > 12:
            raise _i.Undecided('cyclic loop dependencies')
        I = self.I

        def full(v, at):
            """substitute the remaining placeholders of v (a function of round k) and set k := at"""
            v = vsub(v, {self.k: at}) if False else v
            m = {PHT: lambda a: self.close_ph(a, P(self.k), depth)}
            for i, r in self.ph.items():
                if r['kind'] == 'cond':
                    m[c_opq('ph', i)] = None
            m2 = {PHT: m[PHT]}
            for i, r in self.ph.items():
                if r['kind'] == 'cond':
                    o = c_opq('ph', i)
                    if o.key in vsup(v):
                        m2[o] = self.closecond(i, P(self.k), depth)
            w = vsub(v, m2)
            return vsub(w, {self.k: at})

        def f(kind, i, e):
            if kind == 'val':
                return vsub(i, {PHT: lambda a: self.close_ph(a, e, depth)}) if 'ph*' in vsup(i) else i
            r = self.ph[i]
            if kind == 'cond':
                return self.closecond(i, e, depth)
            if kind == 'grow':
                g = r['g']
                if g == 1:
                    ix = fresh_ix(e)
                    return mkvec(list(r['v0'].segs) + [(e, ix, full(r['d'][0], P(ix)))])
                # several elements per round: only when they continue one pattern
                el = [full(x, P(self.k)) for x in r['d']]
                ix = fresh_ix(e * g)
                pat = unroll(el, self.k, g, ix)
                if pat is None:
                    ec = e.const()
                    if ec is not None:
                        return mkvec(list(r['v0'].segs) + [(ONE, None, vsub(x, {self.k: P(j)})) for j in range(ec) for x in el])
                    pat = vsub(el[-1], {self.k: idiv('opDiv', P(ix), P(g))})
                    for j in range(g - 2, -1, -1):
                        pat = merge_el(c_eq(idiv('opRem', P(ix), P(g)), P(j)), vsub(el[j], {self.k: idiv('opDiv', P(ix), P(g))}), pat)
                return mkvec(list(r['v0'].segs) + [(e * g, ix, pat)])
            if kind == 'frow':
                ix = fresh_ix(e)
                return [(e, ix, full(r['d'], e - 1 - P(ix)))]
            if kind == 'point':
                ix = fresh_ix(e)
                n2 = r['c'] - e
                if I.decide(c_ge0(n2)) is not True:
                    raise _i.Undecided('loop update range')
                ix2 = fresh_ix(n2)
                return [(e, ix, full(r['d'], P(ix))), (n2, ix2, vsub(r['v0'], {r['ix']: P(ix2) + e}))]
            if kind == 'last':
                return merge_el(c_eq0(e), r['v0'], full(r['d'], e - 1))
        return self.inst(T, e, f)

    def closecond(self, i, e, depth):
        r = self.ph[i]
        ix = fresh_ix(e)
        m = {PHT: lambda a: self.close_ph(a, P(ix), depth + 1)}
        d = r['d'].subst({self.k: P(ix)}).subst(m)
        if r['how'] == 'and':
            return c_and(r['v0'], c_all(ix, e, d))
        if r['how'] == 'or':
            return c_or(r['v0'], c_not(c_all(ix, e, c_not(d))))
        d = r['d'].subst({self.k: e - 1})
        return c_ite(c_eq0(e), r['v0'], d)

    def close_ph(self, a, e, depth):
        """closed form of a numeric placeholder atom at round e"""
        if depth > 12:
            raise _i.Undecided('cyclic loop dependencies')
        r = self.ph.get(a.args[0])
        if r is None:
            return None
        m = dict(zip(r['ctx'], a.args[1:]))
        v0, d = r['v0'], r['d']
        if m:
            v0, d = v0.subst(m), d.subst(m)
        if r['how'] == 'add':
            ix = fresh_ix(e)
            dd = d.subst({self.k: P(ix)})
            if 'ph*' in dd.sup:
                dd = dd.subst({PHT: lambda b: self.close_ph(b, P(ix), depth + 1)})
            return v0 + Sum(ix, e, dd)
        dd = d.subst({self.k: e - 1})
        if 'ph*' in dd.sup:
            dd = dd.subst({PHT: lambda b: self.close_ph(b, e - 1, depth + 1)})
        return as_poly(merge_el(c_eq0(e), v0, dd))


class Tm:
    __slots__ = ('o', 'a')

    def __init__(self, o, *a):
        self.o, self.a = o, a


def unroll(el, k, g, ix):
    """elements el[j](k) as one pattern p(g*k + j), or None"""
    cand = None
    # p(i) = el[0] with k := i/g is only available when el[0] depends on k through multiples of g:
    # try replacing g*k by i via a symbolic substitution on a doubled index
    for q in range(1):
        x = half(el[0], k, g, ix)
        if x is None:
            return None
        for j in range(g):
            if not veq(vsub(x, {ix: P(k) * g + j}), el[j]):
                return None
        cand = x
    return cand


def half(v, k, g, ix):
    """v(k) with every g*k replaced by ix; None if k occurs otherwise"""
    big = Atom('gk', (), 'ix')
    try:
        w = _half(v, k, g, ix)
    except ValueError:
        return None
    return w


def _half(v, k, g, ix):
    if isinstance(v, Poly):
        if k.key not in v.sup:
            return v
        acc = ZERO
        for m, c in v.t.items():
            if k.key not in m.sup:
                acc = acc + Poly({m: c})
                continue
            d = dict(m.factors)
            if k in d:
                if d[k] != 1 or c % g:
                    raise ValueError()
                del d[k]
                r = P(c // g) * P(ix)
            else:
                r = P(c)
            if m.binders:
                raise ValueError()
            for a, e in d.items():
                if k.key in a.sup:
                    if a.name in ('ind',):
                        raise ValueError()
                    a = Atom(a.name, tuple(_half(x, k, g, ix) if isinstance(x, Poly) else x for x in a.args), a.kind)
                for _ in range(e):
                    r = r * P(a)
            acc = acc + r
        return acc
    if isinstance(v, Struct):
        return Struct(v.path, v.var, [_half(x, k, g, ix) for x in v.f])
    if k.key not in vsup(v):
        return v
    raise ValueError()


# ---------------------------------------------------------------- `loop` / `while`
def run_loop(I, e, fr):
    label = None
    # the enclosing scope expression carries the label: the innermost target that is a plain id
    for t in reversed(fr.targets):
        if not isinstance(t.id, tuple):
            label = t.id
            break
    tgt = None
    for t in reversed(fr.targets):
        if t.id == label:
            tgt = t
            break
    if label is not None and counted(I, e, fr, label, tgt):
        return UNIT
    und = 0
    for j in range(MAXCONC):
        before = len(tgt.exits)
        one_round(I, fr, label, lambda: I.ev(e['body'], fr))
        if len(tgt.exits) > before:
            und += 1
            if und > (CUT if I.fixed else 24):
                if not I.fixed:
                    raise _i.Undecided('unbounded loop')
                # the cases in which the loop goes on are set aside: what is seen of the others stands,
                # but the obligation cannot hold any more
                I.partial = True
                tgt.cut.append(c_and(*I.S.pc[tgt.pclen:]))
                raise _i.Diverge()
    raise _i.Undecided('unbounded loop')


def size_conds(c, out):
    if c.op in ('and', 'or', 'not'):
        for x in c.args:
            size_conds(x, out)
    elif c.op in ('ge0', 'eq0') and c.args[0].is_intlike():
        out.append(c)


def settle(I, S):
    for c, v in S.store.items():
        if isinstance(v, Phi):
            S.store[c] = I.simp(v)


def counts(I, e, fr, label):
    """candidate numbers of rounds"""
    settle(I, I.S)
    big = P(Atom('tripmax', (), 'int'))
    k = fresh_ix(big)
    S0 = I.S.fork()
    body = lambda x: I.ev(e['body'], fr)
    item = lambda x: UNIT
    r = run_pass(I, S0, {}, k, big, item, body, label, fr)
    if r.S is None:
        return []
    mod = changed(S0, r.S)
    advance(I, S0, r, mod)
    advance(I, I.S, r, mod)
    solver = Solver(I, S0, k, big)
    tm = {}
    for c in mod:
        try:
            tm[c] = solver.template(S0.store[c], r.S.norm(r.S.store[c]), ())
        except _i.Undecided:
            tm[c] = Tm('last', solver.new('last', v0=S0.store[c], ctx=()), S0.store[c])
    r2 = run_pass(I, S0, {c: solver.start(tm[c]) for c in mod}, k, big, item, body, label, fr)
    if r2.S is None:
        return []
    for c in mod:
        solver.collect(tm[c], r2.S.norm(r2.S.store[c]), ())
    solver.solve()
    closed = {}
    for c in mod:
        try:
            closed[c] = solver.close(tm[c], P(k))
        except _i.Undecided:
            closed[c] = Opq('loopval', (str(c),))
    r3 = run_pass(I, S0, closed, k, big, item, body, label, fr)
    cs = []
    for c, S, _ in r3.brk:
        size_conds(c, cs)
    out = []
    for c in cs:
        p = S0.norm(c).args[0] if S0.norm(c).op == c.op else c.args[0]
        a = coeff_of(p, k)
        if a not in (1, -1):
            continue
        x = (p - P(k) * a) * (-a)          # p = 0 at k = x
        for q in ((x, x + 1) if c.op == 'ge0' else (x,)):
            if k.key not in q.sup and q.const() is None and not any(q.key == y.key for y in out):
                out.append(q)
    return out


def coeff_of(p, k):
    a = 0
    for m, c in p.t.items():
        if k.key in m.sup:
            if m.binders or len(m.factors) != 1 or m.factors[0] != (k, 1):
                return None
            a = c
    return a


def counted(I, e, fr, label, tgt):
    """a loop left by a test on a counter: the number of rounds is read off the test before the first round, the
    rounds are summarised like those of a `for` loop (the test must come out the same way in every round), and the
    loop must be left in the state that follows"""
    S0 = I.S
    try:
        cand = counts(I, e, fr, label)
    except (_i.Undecided, Split):
        cand = []
    I.S = S0
    if not cand:
        return False
    why = None
    for n in cand:
        S0 = I.S
        st = S0.fork()
        nt = [len(t.exits) for t in fr.targets]
        np, ne = len(I.panics), len(I.events)

        def rounds():
            symbolic(I, I.S.norm(n), lambda k: UNIT, lambda x: I.ev(e['body'], fr), label, fr, None)
            return UNIT
        try:
            d = I.decide(c_ge0(n))
            if d is True:
                rounds()
            elif d is None:
                I.branch(c_ge0(n), rounds, lambda: UNIT)
            # whatever is left of the loop must leave it at once
            S1 = I.S
            before = len(tgt.exits)
            try:
                one_round(I, fr, label, lambda: I.ev(e['body'], fr))
                live = True
            except _i.Diverge:
                live = False
            if not live and len(tgt.exits) > before:
                raise _i.Diverge()
        except _i.Undecided as u:
            why = u
        I.S = st
        for tt, l in zip(fr.targets, nt):
            del tt.exits[l:]
        del I.panics[np:]
        del I.events[ne:]
    return False
