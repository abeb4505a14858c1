"""C19, C21: effects, sharing, schedules, exposure of randomness."""
import re
from common import *
from p_proof import sizes2
from prog import match_name
import models


# ---------------------------------------------------------------- walking the typed tree
def subs(x):
    """direct sub-expressions of a node"""
    for v in x.values():
        yield from subs_in(v)


def subs_in(v):
    if isinstance(v, dict):
        if isinstance(v.get('e'), str):
            yield v
        elif 'k' not in v or 'body' in v:       # types have 'k'
            for w in v.values():
                yield from subs_in(w)
    elif isinstance(v, list):
        for w in v:
            yield from subs_in(w)


def walk(x):
    st = [x]
    while st:
        e = st.pop()
        yield e
        st.extend(subs(e))


def peel(e):
    while e['e'] in ('scope', 'use', 'coerce', 'ref', 'deref', 'cast') or \
            e['e'] == 'call' and e.get('callee') and e['callee']['name'] in ('borrow_mut', 'as_mut', 'by_ref', 'deref_mut', 'borrow', 'deref') and len(e['args']) == 1:
        e = e['args'][0] if e['e'] == 'call' else e['v']
    return e


def callee_fn(c):
    """resolved target when the call is to a known item"""
    return c.get('res') or c


class Reach:
    """bodies that a user of the crate can make run"""

    def __init__(self, env):
        p = self.p = env.p
        self.nodes = {}
        todo = []
        for f in p.fns.values():
            if f['kind'] in ('Fn', 'AssocFn') and (f.get('reach') or f['did'] in p.impl_of and p.impl_of[f['did']]['trait']):
                todo.append(f['did'])
        by_trait = {}
        for i in p.impls:
            for it in i['items']:
                by_trait.setdefault(it.get('ti'), []).append(it['did'])
        self.callers = {}
        while todo:
            d = todo.pop()
            if d in self.nodes or d not in p.fns:
                continue
            self.nodes[d] = p.fns[d]
            for e in walk(p.fns[d]['body']):
                to = []
                if e.get('callee'):
                    c = e['callee']
                    to.append(c['did'])
                    if c.get('res'):
                        to.append(c['res']['did'])
                    to += by_trait.get(c['did'], [])
                if e['e'] in ('closure', 'static', 'threadlocal', 'constblock', 'const') and e.get('did'):
                    to.append(e['did'])
                for t in to:
                    self.callers.setdefault(t, set()).add(d)
                todo += to

    def calls(self):
        for f in self.nodes.values():
            for e in walk(f['body']):
                if e.get('callee'):
                    yield f, e, e['callee']

    def exprs(self):
        for f in self.nodes.values():
            for e in walk(f['body']):
                yield f, e

    def below(self, f):
        """bodies reached from this one"""
        if not hasattr(self, 'callees'):
            self.callees = {}
            for t, ds in self.callers.items():
                for d in ds:
                    self.callees.setdefault(d, set()).add(t)
        out, todo = {}, [f['did']]
        while todo:
            d = todo.pop()
            if d in out or d not in self.nodes:
                continue
            out[d] = self.nodes[d]
            todo += self.callees.get(d, ())
        return list(out.values())

    def entry_points(self, did):
        """user-callable functions from which this body is reached"""
        out, seen, todo = [], set(), [did]
        while todo:
            d = todo.pop()
            if d in seen:
                continue
            seen.add(d)
            f = self.nodes.get(d)
            if f is not None and f['kind'] in ('Fn', 'AssocFn') and (f.get('reach') or d in self.p.impl_of):
                out.append(f)
            todo += self.callers.get(d, ())
        return out


def analysed(sh, fns):
    """structural obligations: record what was looked at"""
    class I:
        frames = ()
    I.fnset = {f['did']: 1 for f in fns}

    class R:
        pass
    R.I = I
    sh.runs.append(R)


def types_in(t, seen=None):
    if t is None:
        return
    yield t
    k = t['k']
    for a in t.get('args') or ():
        if a is not None:
            yield from types_in(a)
    for a in t.get('tys') or ():
        yield from types_in(a)
    if t.get('ty') is not None:
        yield from types_in(t['ty'])


INTERIOR = re.compile(r'^(core::cell::|std::cell::|core::sync::atomic::|std::sync::(?!Arc)|std::thread::local|once_cell::|lazy_static::|parking_lot|spin::|crossbeam|std::sync::poison::)')


def interior(env, t, seen=()):
    """name of an interior-mutability type inside t"""
    for x in types_in(t):
        if x['k'] == 'adt':
            if INTERIOR.match(x['path']):
                return x['path']
            if x['did'] in env.p.adts and x['did'] not in seen:
                for v in env.p.adts[x['did']]['variants']:
                    for f in v['fields']:
                        r = interior(env, f['ty'], seen + (x['did'],))
                        if r:
                            return r
        if x['k'] == 'ptr' and x.get('mut'):
            return 'raw mutable pointer'
        if x['k'] == 'dyn' and 'Cell' in x.get('s', ''):
            return x['s']
    return None


# ---------------------------------------------------------------- C19
AMBIENT = [
    ('ambient or self-seeded randomness',
     r'(::thread_rng$|::test_rng$|::from_entropy$|::from_os_rng$|^rand::random|^rand::rng$|OsRng|^getrandom::|ThreadRng|RandomState|::hash::random::|^std::random::|::make_rng$|^rand::rngs::thread)'),
    ('clock', r'^(std::time::|core::time::Instant)|(::Instant|::SystemTime)(::<.*>)?::(now|elapsed|duration_since)$'),
    ('process environment, files, network or processes',
     r'^std::(env|fs|net|process|os)::|^std::io::(stdio::)?(stdin|Stdin|read_to_string)|^std::path::.*::(exists|is_file|is_dir|metadata|read_dir|canonicalize)$|^std::sys::'),
    ('thread identity', r'^std::thread::current|^std::thread::(thread|id)::|::current_thread_index$|::current_thread_has_pending_tasks$'),
    ('process-wide configuration', r'ThreadPoolBuilder(::<.*>)?::build_global$|^std::panic::(set_hook|take_hook)|^std::alloc::set_alloc'),
    ('thread-local storage', r'^std::thread::local::'),
    ('schedule-dependent result', r'^std::sync::mpsc::.*(recv|try_recv|iter|try_iter|into_iter|recv_timeout)$|::yield_now$'),
]
SOFT = r'(::current_num_threads$|::available_parallelism$|^alloc::vec::Vec::<.*>::capacity$|::max_num_threads$)'


class Every(dict):
    """the same length for every list"""
    def __init__(self, n):
        self.n = n

    def get(self, k, d=None):
        return d if k.endswith('#') else self.n


def symargs(env, r, fn, tag='arg', dims={}):
    """symbolic arguments for any function; generator parameters become streams"""
    out = []
    for i, (t, p) in enumerate(zip(fn['inputs'], fn['params'] + [None] * len(fn['inputs']))):
        name = tag + str(i)
        if p is not None and p.get('pat') and p['pat'].get('p') == 'bind':
            name = p['pat']['name']
        s = strip(t)
        v = None
        if is_rng(t, fn):
            v = Rng('rng', ZERO)
        elif s['k'] == 'param' and s['name'] == 'Self':
            raise Unsure('generic receiver')
        elif takes(t):
            v = Opq('in ' + name, ())
        else:
            v = env.sym(s, name, dims)
        if t['k'] == 'ref' and t.get('mut'):
            out.append(MRef(r.I.cell(v), ()))
        else:
            out.append(v)
    return out


def outcome(sh, env, fn, opts=None, dims={}):
    """abstract result of a function on arbitrary arguments, and the values behind its &mut arguments"""
    r = sh.run(opts=opts)
    args = symargs(env, r, fn, dims=dims)
    sh.call(fn, args, may_abort=True, run=r)
    sh.checked += 1
    outs = [('result', r.val)] if r.val is not None else []
    for i, a in enumerate(args):
        if isinstance(a, MRef):
            outs.append(('argument %d' % (i + 1), r.at(a)))
    return r, args, outs


def c19(env):
    R = Reach(env)
    obs = []
    st = dict(shapes=[{}], sym=False)
    for what, pat in AMBIENT:
        rx = re.compile(pat)

        def amb(sh, what=what, rx=rx):
            analysed(sh, R.nodes.values())
            for f, e, c in R.calls():
                sh.checked += 1
                for p in (c['path'], (c.get('res') or {}).get('path') or ''):
                    if rx.search(p):
                        raise Bad('%s uses %s: calls %s' % (f['path'], what, p), 'results depend only on the arguments and the caller\'s generator', p, e['at'])
        obs.append(Ob('no %s' % what, 'no call, in any reachable body, to a function of this class', amb, **st))

    free = {}                  # functions whose parallel parts are delivered in no particular order, or meet in shared data
    for f in R.nodes.values():
        for e in walk(f['body']):
            c = e.get('callee')
            if c and (c['name'] == 'par_bridge' or c['path'].startswith('rayon') and re.search(r'_any(_while)?$', c['name'])):
                free.setdefault(f['did'], []).append(('a parallel iterator that does not keep its order', e))
    clos = {e['did']: e for f, e in R.exprs() if e['e'] == 'closure'}
    fixed = []
    for f, e, c in R.calls():
        if not re.match(r'^(rayon|rayon_core|std::thread)::', c['path']):
            continue
        for a in e['args']:
            for t in types_in(a['ty']):
                if t['k'] != 'closure' or t['did'] not in clos:
                    continue
                for q in nested(clos, t['did']):
                    for u in q['upvars']:
                        x = interior(env, u['ty'])
                        if x and c['path'].startswith('rayon') and re.search(r'::(Mutex|RwLock|Atomic\w*)$', x):
                            free.setdefault(f['did'], []).append(('data shared between parallel parts (%s)' % x, u))
                        elif x:
                            fixed.append((f, x, u))

    for f, e, c in R.calls():
        if c['name'] in ('iter', 'iter_mut', 'keys', 'values', 'values_mut', 'drain', 'into_iter', 'into_keys', 'into_values', 'retain', 'par_iter', 'into_par_iter') and e['args']:
            t = strip(e['args'][0]['ty'])
            if t['k'] == 'adt' and re.search(r'^std::collections::hash::', t['path']) and any(x['k'] == 'adt' and 'RandomState' in x['path'] for x in types_in(t)):
                free.setdefault(f['did'], []).append(('iteration over a randomly seeded hash table', e))

    def schedule(sh):
        """the same result whether the parts are worked on first to last or last to first"""
        analysed(sh, R.nodes.values())
        sh.checked += 1 + len(free)
        unsure = None
        lens = sorted({2, 3, 5} | ({x for v in literals(env.p) if v <= 40 for x in (v, v + 1) if x > 5} if free else set()))[:8]
        for d, l in free.items():
            seen = False
            for g in R.entry_points(d):
                for n in lens:
                    try:
                        a = outcome(sh, env, g, {'order': 'fwd'}, Every(P(n)))
                        b = outcome(sh, env, g, {'order': 'rev'}, Every(P(n)))
                        if a[0].I.unknown or b[0].I.unknown or a[0].val is None:
                            raise Unsure('library code not modelled')
                        for (nm, v), (_, w) in zip(a[2], b[2]):
                            sh.same('%s of %s, parts taken in another order' % (nm, g['path']), w, v, g)
                        seen = True
                    except interp.Undecided as u:
                        unsure = u.why
                    except Unsure as u:
                        unsure = str(u)
                if seen and g['did'] == d:
                    break                      # decided for arbitrary arguments: its callers add nothing
            if not seen:
                raise Unsure('%s at %s: %s' % (l[0][0], l[0][1]['at'], unsure))
    obs.append(Ob('order of parallel parts', 'functions with unordered parallel sources or data shared between parallel parts: same results in either order', schedule, **st))

    def statics(sh):
        analysed(sh, R.nodes.values())
        S = {s['did']: s for s in env.p.statics}
        once = set()
        for f, e, c in R.calls():          # a cell filled once by a capture-free initialiser always holds the same value
            if re.match(r'^std::sync::(once_lock::)?OnceLock(::<T>)?::get_or_init$', c['path']) and len(e['args']) == 2:
                clo = peel(e['args'][1])
                if clo.get('e') == 'closure' and not clo.get('upvars') and not clo.get('captures'):
                    for x in walk(e['args'][0]):
                        once.add(id(x))
        for f, e in R.exprs():
            if id(e) in once:
                continue
            if e['e'] == 'static' and S.get(e['did']) and not S[e['did']]['mut'] and S[e['did']]['ty'].get('path', '').endswith('::LazyLock'):
                continue                   # filled once by a capture-free initialiser
            if e['e'] == 'threadlocal':
                raise Bad('%s uses thread-local %s' % (f['path'], e['path']), 'no hidden state', e['path'], e['at'])
            if e['e'] == 'static':
                sh.checked += 1
                s = S.get(e['did'])
                if s is None or s['mut'] or not s['freeze']:
                    raise Bad('%s uses mutable global %s' % (f['path'], e['path']), 'no mutable global', e['path'], e['at'])
                if interior(env, s['ty']):
                    raise Bad('%s uses mutable global %s (%s)' % (f['path'], e['path'], interior(env, s['ty'])), 'no mutable global', e['path'], e['at'])
        sh.checked += len(S)
    obs.append(Ob('no mutable global', 'every static mentioned in a reachable body is immutable', statics, **st))

    def fields(sh):
        for a in env.p.adts.values():
            for v in a['variants']:
                for f in v['fields']:
                    sh.checked += 1
                    x = interior(env, f['ty'])
                    if x:
                        raise Bad('%s.%s can change behind a shared reference (%s)' % (a['path'], f['name'], x), 'plain data', x, a['at'])
    obs.append(Ob('no interior mutability in the library\'s types', 'no field type contains cells, locks, atomics or raw mutable pointers', fields, **st))

    def captures(sh):
        analysed(sh, R.nodes.values())
        sh.checked += 1
        for f, x, u in fixed:
            raise Bad('%s: a parallel closure captures shared mutable data (%s)' % (f['path'], x), 'captures that no thread can change', x, u['at'])
    obs.append(Ob('no shared mutable data in parallel closures', 'captures of closures passed to parallel functions contain no cells or raw mutable pointers (locks, atomics: see order of parallel parts)', captures, **st))

    def sharedargs(sh):
        analysed(sh, R.nodes.values())
        for f, e in R.exprs():
            if e['e'] == 'cast' and e['ty']['k'] == 'ptr' and e['ty'].get('mut'):
                sh.checked += 1
                s = e['v']['ty']
                if s['k'] == 'ptr' and not s.get('mut') or s['k'] == 'ref' and not s.get('mut'):
                    raise Bad('%s casts a shared pointer to a mutable one' % f['path'], 'shared arguments are left unchanged', None, e['at'])
            c = e.get('callee')
            if c and (c['path'].startswith('core::intrinsics::transmute') or c['name'] in ('cast_mut', 'transmute', 'transmute_copy', 'as_mut_unchecked')
                      or c['name'] in ('get', 'raw_get') and 'UnsafeCell' in c['path']):
                sh.checked += 1
                if any(x['k'] in ('ref', 'ptr') and x.get('mut') for x in types_in(e['ty'])):
                    raise Bad('%s turns a shared reference into a mutable one (%s)' % (f['path'], c['path']), 'shared arguments are left unchanged', c['path'], e['at'])
        sh.checked += 1
    obs.append(Ob('shared arguments are left unchanged', 'no conversion of a shared reference or pointer into a mutable one', sharedargs, **st))

    def addresses(sh):
        analysed(sh, R.nodes.values())
        for f, e in R.exprs():
            if e['e'] == 'cast' and e['ty']['k'] == 'int' and e['v']['ty']['k'] in ('ptr', 'fnptr', 'fndef', 'ref'):
                raise Bad('%s turns an address into a number' % f['path'], 'results do not depend on addresses', None, e['at'])
            c = e.get('callee')
            if c and c['name'] in ('addr', 'expose_provenance', 'expose_addr', 'offset_from') and '::ptr::' in c['path']:
                raise Bad('%s turns an address into a number (%s)' % (f['path'], c['path']), 'results do not depend on addresses', c['path'], e['at'])
            sh.checked += 1 if e['e'] == 'cast' else 0
        sh.checked += 1
    obs.append(Ob('no dependence on addresses', 'no conversion of an address into a number', addresses, **st))

    def rngargs(sh):
        analysed(sh, R.nodes.values())
        for f, e, c in R.calls():
            a = draw_arg(c, e)
            if a is None:
                continue
            sh.checked += 1
            o = origin(env, R, f, a)
            if o is False:
                raise Bad('%s draws from a generator that is not the caller\'s' % f['path'], 'the generator passed by the caller', None, e['at'])
            if o is None:
                raise Unsure('generator used at %s' % e['at'])
    obs.append(Ob('randomness comes from the caller\'s generator', 'the generator of every draw is traced to a parameter', rngargs, **st))

    def soft(sh):
        rx = re.compile(SOFT)
        hits = {}
        for f, e, c in R.calls():
            sh.checked += 1
            if rx.search(c['path']):
                hits.setdefault(f['did'], []).append((c, e))
        unsure = None
        for d, l in hits.items():
            for g in R.entry_points(d):
                try:
                    r, args, outs = outcome(sh, env, g)
                except (interp.Undecided, Unsure) as u:
                    unsure = unsure or '%s: %s' % (g['path'], getattr(u, 'why', u))
                    continue
                for nm, v in outs:
                    k = vkey(v) + ' '.join(vsup(v))
                    if re.search(r'current_num_threads|available_parallelism|opqcap', k):
                        raise Bad('%s of %s depends on the machine or on spare capacity (%s)' % (nm, g['path'], l[0][0]['path']), 'a value determined by the arguments', vshow(v)[:300], l[0][1]['at'])
        analysed(sh, R.nodes.values())
        if unsure:
            raise Unsure(unsure)
    obs.append(Ob('no dependence on thread count or capacity', 'such values do not flow into results', soft, **st))

    par = {}
    for f, e, c in R.calls():
        if 'rayon' in c['path'] and c['name'] in ('reduce', 'reduce_with', 'fold', 'fold_with', 'try_reduce', 'try_fold', 'try_reduce_with'):
            par.setdefault(f['did'], []).append((c, e))

    def reductions(sh):
        analysed(sh, R.nodes.values())
        sh.checked += 1
        for d, l in par.items():
            done = set()
            last = None
            for g in R.entry_points(d):
                try:
                    r, args, outs = outcome(sh, env, g, {'parhook': lambda c, q: hook(sh, env, c, q, done)})
                except interp.Undecided as u:
                    last = u.why
            for c, e in l:
                if e['at'] not in done:
                    raise Unsure('parallel %s at %s%s' % (c['name'], e['at'], ': %s' % last if last else ''))
    obs.append(Ob('parallel reductions do not depend on splitting', 'reduction operators are associative with neutral start values', reductions, **st))
    return obs


def chain(f, e):
    """calls of a method chain, from the last inward, looking through local bindings"""
    lets = {}
    for x in all_stmts(f['body']):
        if x.get('s') == 'let' and x.get('init') and x['pat'].get('p') == 'bind':
            lets[x['pat']['var']] = x['init']
    for _ in range(60):
        e = peel(e)
        if e['e'] == 'call' and e.get('callee') and e['args']:
            yield e
            e = e['args'][0]
        elif e['e'] == 'var' and e['var'] in lets:
            e = lets.pop(e['var'])
        else:
            return


def all_stmts(x):
    st = [x]
    while st:
        v = st.pop()
        if isinstance(v, dict):
            if 's' in v and ('init' in v or 'e' in v) and isinstance(v['s'], str):
                yield v
            if 'k' in v and 'e' not in v and 's' not in v and 'body' not in v:
                continue
            st.extend(v.values())
        elif isinstance(v, list):
            st.extend(v)


def nested(clos, did):
    todo, seen = [did], set()
    while todo:
        d = todo.pop()
        if d in seen or d not in clos:
            continue
        seen.add(d)
        yield clos[d]
        for u in clos[d]['upvars']:
            todo += [t['did'] for t in types_in(u['ty']) if t['k'] == 'closure']


DRAW = ('next_u32', 'next_u64', 'fill_bytes', 'try_fill_bytes', 'gen', 'gen_range', 'gen_bool', 'gen_ratio', 'sample', 'sample_iter', 'random', 'random_range',
        'random_bool', 'fill', 'rand', 'try_fill', 'next_u128', 'shuffle', 'choose', 'partial_shuffle', 'choose_multiple', 'sample_single')


def draw_arg(c, e):
    """the generator argument of a call that draws"""
    if c['name'] not in DRAW:
        return None
    tr = c.get('trait') or ''
    last = tr.split('::')[-1]
    if last == 'UniformRand':
        return e['args'][0]
    if last in ('Rng', 'RngCore', 'TryRngCore'):
        return e['args'][0]
    if last in ('Distribution', 'SliceRandom', 'IteratorRandom', 'UniformSampler'):
        return e['args'][-1] if last != 'SliceRandom' or c['name'] != 'partial_shuffle' else e['args'][1]
    return None


def origin(env, R, f, a, depth=0):
    """does the generator expression come from a parameter: True / False / None"""
    if depth > 12:
        return None
    a = peel(a)
    if a['e'] == 'field':
        return origin(env, R, f, a['v'], depth + 1)
    if a['e'] == 'call' and a.get('callee'):
        rs = [origin(env, R, f, x, depth + 1) for x in a['args'] if not plain_data(x['ty'])]
        if any(r is True for r in rs):
            return True
        c = a['callee']
        if re.search(r'(seed_from_u64|from_seed)$', c['path']) or not a['args'] and not c['local']:
            # seeded: from the caller's generator, or from something fixed
            return True if any(mentions_rng(env, R, f, x) for x in a['args']) else False
        if not a['args'] or all(r is False for r in rs) and rs:
            return False if not c['local'] else None
        return None
    if a['e'] == 'var':
        root = R.p.fns.get(f.get('root')) or f
        for g in {root['did']: root, f['did']: f}.values():
            for p in g['params']:
                if p.get('pat') and a['var'] in pat_vars(p['pat']):
                    return True
        for g in [x for x in R.p.fns.values() if x.get('root') == f.get('root')]:
            for p in g['params']:
                if p.get('pat') and a['var'] in pat_vars(p['pat']):
                    return True
            for s in all_stmts(g['body']):
                if s.get('s') == 'let' and s.get('init') and a['var'] in pat_vars(s['pat']):
                    return origin(env, R, g, s['init'], depth + 1)
        return None
    if a['e'] in ('static', 'threadlocal', 'const'):
        return False
    if a['e'] == 'block' and a['b'].get('expr'):
        return origin(env, R, f, a['b']['expr'], depth + 1)
    if a['e'] == 'adt' and a.get('fs') is not None:
        return None
    return None


def plain_data(t):
    return strip(t)['k'] in ('int', 'bool', 'array', 'str', 'float')


def pat_vars(p):
    out = set()
    st = [p]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if x.get('p') == 'bind':
                out.add(x['var'])
            st.extend(v for k, v in x.items() if k not in ('ty',))
        elif isinstance(x, list):
            st.extend(x)
    return out


def mentions_rng(env, R, f, e, depth=0):
    for x in walk(e):
        if x['e'] == 'call' and x.get('callee') and draw_arg(x['callee'], x) is not None:
            return origin(env, R, f, draw_arg(x['callee'], x)) is True
        if x['e'] == 'var' and depth < 6:
            for s in all_stmts((R.p.fns.get(f.get('root')) or f)['body']):
                if s.get('s') == 'let' and s.get('init') and x['var'] in pat_vars(s['pat']) and mentions_rng(env, R, f, s['init'], depth + 1):
                    return True
            # filled in place by a draw
            for y in walk((R.p.fns.get(f.get('root')) or f)['body']):
                if y['e'] == 'call' and y.get('callee') and draw_arg(y['callee'], y) is not None:
                    if any(z['e'] == 'var' and z['var'] == x['var'] for a in y['args'][1:] for z in walk(a)):
                        return True
    return False


def hook(sh, env, c, elem_ty, done):
    """a parallel reduction met during the analysis: its operator must not see how the work is split"""
    I = c.I
    name = c.name
    if name not in ('reduce', 'reduce_with', 'fold'):
        return
    op = c.args[-1]
    if not isinstance(op, Clo):
        return
    fn = env.p.fns[op.did]
    ts = [p['ty'] for p in fn['params']][-2:]
    fn0 = fn
    x, y, z = [env.sym(t, '#par%d' % i, {}) for i, t in enumerate((ts[0], ts[1], ts[1]))]
    call = lambda a, b: I.val(I.call_clo(op, [a, b]))
    if name == 'fold':
        st = I.val(I.call_clo(c.args[1], []))
        # folding a later part separately and adding it must be the same: only checked for additive folds
        one = call(call(x, y), z)
        ps = [as_poly(v) for v in (x, call(st, y), call(x, y))]
        if any(p is None for p in ps):
            return
        sh.same('parallel fold started afresh for a part', ps[0] + ps[1], ps[2], fn0, I.S)
        done.add(c.at)
        return
    sh.same('parallel reduction, parts grouped differently', call(call(x, y), z), call(x, call(y, z)), fn0, I.S)
    if name == 'reduce':
        st = I.val(I.call_clo(c.args[1], []))
        sh.same('parallel reduction from its start value', call(st, x), x, fn0, I.S)
        sh.same('parallel reduction with a start value appended', call(x, st), x, fn0, I.S)
    done.add(c.at)


# ---------------------------------------------------------------- C21
HOLD = {'Commit1': ('coms',), 'Commit2': ('coms',), 'EquProof': ('pi', 'theta', 'equ_type')}


def secret_fields(env, adt):
    """indices of the fields that carry prover randomness"""
    return [i for i, f in enumerate(env.fields(adt)) if f['name'] not in HOLD[adt]]


def c21(env):
    R = Reach(env)
    obs = []
    st = dict(shapes=[{}], sym=False)
    paths = {env.adt(a)['path']: a for a in HOLD}
    secret = {env.adt(a)['path']: secret_fields(env, a) for a in HOLD}

    for adt in HOLD:
        def vis(sh, adt=adt):
            for i in secret_fields(env, adt):
                f = env.fields(adt)[i]
                sh.checked += 1
                if f['vis'] == 'pub':
                    raise Bad('field %s.%s is public' % (adt, f['name']), 'visible to the prover only', 'pub', env.adt(adt)['at'])
        obs.append(Ob('%s: visibility' % adt, 'randomness fields are not public', vis, **st))

    def access(sh):
        analysed(sh, R.nodes.values())
        for f, e in R.exprs():
            if e['e'] != 'field':
                continue
            t = strip(e['v']['ty'])
            if t['k'] == 'adt' and t['path'] in secret and int(e['idx']) in secret[t['path']]:
                sh.checked += 1
                if not e['at'].startswith('src/prover'):
                    raise Bad('%s reads or sets the randomness of %s outside the prover' % (f['path'], paths[t['path']]), 'used by the prover only', None, e['at'])
    obs.append(Ob('the fields are used by the prover only', 'every place that names a randomness field is in the prover', access, **st))

    # value flow through everything a user can call
    skip = ('Clone', 'PartialEq', 'Eq', 'CanonicalSerialize', 'CanonicalDeserialize', 'Valid', 'Debug', 'Hash')
    for f in R.nodes.values():
        if f['kind'] not in ('Fn', 'AssocFn'):
            continue
        i = env.p.impl_of.get(f['did'])
        tr = (i['trait'] or '').split('::')[-1] if i else ''
        if tr in skip:
            continue
        if not (f.get('reach') or i and i['trait']):
            continue
        if not any(touches(env, paths, t) for t in f['inputs'] + [f['output']]) and not any(is_rng(t, f) for t in f['inputs']):
            continue

        if not carries(env, f) and not prints(R, f):
            continue
        kind = [k for k in KINDS if i and match_name(i['self'], k)]
        if tr == 'Provable' and kind and f['name'] in ('prove', 'commit_and_prove'):
            def pflow(sh, f=f, kind=kind[0]):
                expose(sh, env, f, paths, secret, prover_args(sh, env, f, kind))
            obs.append(Ob('flow through %s::%s' % (kind[0], f['name']), 'no scalar result is or contains recorded randomness, and recorded randomness comes from draws or earlier records only',
                          pflow, sizes2(env), {'m': 1, 'n': 1}))
            continue

        def flow(sh, f=f):
            expose(sh, env, f, paths, secret)
        obs.append(Ob('flow through %s' % short(f['path']), 'no scalar result is or contains recorded randomness, and recorded randomness comes from draws or earlier records only', flow, budget=60, **st))

    for adt in list(HOLD) + ['CProof']:
        for i in env.p.impls:
            tr = (i['trait'] or '').split('::')[-1]
            if not match_name(i['self'], adt) or tr not in ('CanonicalSerialize', 'CanonicalDeserialize', 'Debug', 'Display', 'Hash', 'LowerHex', 'UpperHex'):
                continue
            it = {x['name']: env.p.fns[x['did']] for x in i['items'] if x['did'] in env.p.fns}
            if tr == 'CanonicalSerialize' and 'serialize_with_mode' in it:
                def ser(sh, adt=adt, fn=it['serialize_with_mode']):
                    written(sh, env, adt, fn)
                obs.append(Ob('%s: serialised form' % adt, 'no randomness field in what is written', ser, key='%s-serialised' % adt, **st))
            elif tr == 'Hash' and 'hash' in it:
                def hsh(sh, fn=it['hash']):
                    expose(sh, env, fn, paths, secret)
                obs.append(Ob('%s: hash' % adt, 'no randomness field in what is hashed', hsh, key='%s-hash' % adt, **st))
            elif tr in ('Debug', 'Display', 'LowerHex', 'UpperHex') and 'fmt' in it:
                def fmt(sh, adt=adt, fn=it['fmt'], tr=tr):
                    printed(sh, env, adt, fn, tr, secret)
                obs.append(Ob('%s: %s' % (adt, tr), 'no randomness field in the printed form', fmt, key='%s-%s' % (adt, tr), **st))
    return obs


def prover_args(sh, env, f, kind):
    V = Vocab(env)
    m, n = sh.dim('m'), sh.dim('n')
    r = sh.run()
    xs, ys = SIDES[kind][:2]
    st, crs = V.stmt(kind, m, n), V.crs()
    x, y = V.vec(V.xt(kind), 'x', m), V.vec(V.yt(kind), 'y', n)
    if f['name'] == 'prove':
        args = [st, x, y, V.commit('X', xs, 'xcoms', m), V.commit('Y', ys, 'ycoms', n), crs, r.rng()]
    else:
        args = [st, x, y, crs, r.rng()]
    return r, args


def carries(env, f):
    """can the result, or an argument changed in place, hold a scalar or something unknown"""
    def data(t, seen=()):
        for x in types_in(t):
            if x['k'] in ('bool', 'never') or x['k'] == 'tuple':
                continue
            if x['k'] == 'adt' and x['path'].split('::')[-1] in ('Option', 'Result', 'Ordering', 'Global'):
                continue
            return True
        return False
    if data(f['output']):
        return True
    return any((t['k'] == 'ref' and t.get('mut') or takes(t)) and not is_rng(t, f) for t in f['inputs'])


def short(p):
    return re.sub(r'[a-z_]+::', '', p)


def is_rng(t, fn):
    """a generator parameter"""
    s = strip(t)
    if not (t['k'] == 'ref' and t.get('mut')):
        return False
    if s['k'] == 'dyn':
        return 'Rng' in s.get('s', '')
    return s['k'] == 'param' and any(n == s['name'] and tr.split('::')[-1] in ('RngCore', 'Rng', 'CryptoRng', 'CryptoRngCore') for n, tr in fn['bounds'])


def takes(t):
    """a function or object of the caller's that can be handed values"""
    s = strip(t)
    return (s['k'] in ('param', 'dyn') or s['k'] == 'other' and 'fn(' in s['s']) and kind_of(s) is None and s.get('name') not in ('E', 'Self', 'F')


def touches(env, paths, t, seen=()):
    for x in types_in(t):
        if x['k'] == 'adt':
            if x['path'] in paths:
                return True
            if x['did'] in env.p.adts and x['did'] not in seen:
                for v in env.p.adts[x['did']]['variants']:
                    if any(touches(env, paths, f['ty'], seen + (x['did'],)) for f in v['fields']):
                        return True
    return False


def scalar_leaves(v, secret, where='', hidden=False):
    """(path, value, inside a randomness field) for every scalar component"""
    if isinstance(v, Poly):
        yield where, v, hidden
    elif isinstance(v, Cond):
        yield where, v, hidden
    elif isinstance(v, Struct):
        for i, x in enumerate(v.f):
            yield from scalar_leaves(x, secret, '%s.%d' % (where, i), hidden or i in secret.get(v.path, ()))
    elif isinstance(v, Vec):
        for c, ix, t in v.segs:
            yield from scalar_leaves(t, secret, where + '[]', hidden)
    elif isinstance(v, Phi):
        yield from scalar_leaves(v.a, secret, where, hidden)
        yield from scalar_leaves(v.b, secret, where, hidden)
    elif isinstance(v, (It, Opq)):
        for x in (v.p if isinstance(v, It) else v.args):
            if isinstance(x, V):
                yield from scalar_leaves(x, secret, where, hidden)


def secret_atoms(v, names):
    """atoms that are draws or recorded randomness"""
    out = []

    def look(x):
        if isinstance(x, Cond):
            for y in x.args:
                if isinstance(y, (Poly, Cond)):
                    look(y)
            return
        for a in x.atoms():
            if a.name in ('draw', 'rawdraw') or a.name in names:
                out.append(a)
            for y in a.args:
                if isinstance(y, (Poly, Cond)):
                    look(y)
    look(v)
    return out


def expose(sh, env, f, paths, secret, given=None):
    names = set()

    def collect_names(t, base, d=0):
        t = strip(t)
        if is_vec(t):
            return collect_names(elem(t), base, d)
        if t['k'] == 'tuple':
            for i, x in enumerate(t['tys']):
                collect_names(x, '%s.%d' % (base, i), d)
        if t['k'] == 'adt' and t['did'] in env.p.adts and d < 6:
            a = env.p.adts[t['did']]
            if len(a['variants']) == 1:
                for i, fd in enumerate(a['variants'][0]['fields']):
                    nm = '%s.%s' % (base, fd['name'])
                    if i in secret.get(t['path'], ()):
                        names.add(nm)
                    collect_names(fd['ty'], nm, d + 1)
    if given is None:
        r, args, outs = outcome(sh, env, f, {'still': True})
    else:
        r, args = given
        sh.call(f, args, run=r, may_abort=True)
        if r.val is None:
            raise Unsure('%s aborts' % f['path'])
        outs = [('result', r.val)] + [('argument %d' % (i + 1), r.at(a)) for i, a in enumerate(args) if isinstance(a, MRef)]
        for a in HOLD:
            for nm in ('xcoms', 'ycoms'):
                for i in secret_fields(env, a):
                    names.add('%s.%s' % (nm, env.fields(a)[i]['name']))
    for (t, p, k) in zip(f['inputs'], f['params'], range(99)):
        nm = 'arg%d' % k
        if p.get('pat') and p['pat'].get('p') == 'bind':
            nm = p['pat']['name']
        collect_names(t, nm)
    unsure = None
    hidden = hides(sh, env, secret) if any(ev[0] == 'fmt' for ev in r.I.events) else {}
    for ev in r.I.events:
        if ev[0] not in ('fmt', 'give') or not isinstance(ev[1], (V, Poly, Cond)):
            continue
        sh.checked += 1
        gives = ev[0] == 'give'
        for w, x, hid in scalar_leaves(ev[1], secret if gives else hidden, 'text'):
            if hid or is_group(x) or isinstance(x, Poly) and x.is_intlike() and not any(a.name in names for a in secret_atoms(x, names)):
                continue
            s = secret_atoms(x, names)
            if s:
                if isinstance(x, Cond) and not any(a.name in names for a in s):
                    continue
                fe = feasible(grown(within(ev[3])))
                if fe is True:
                    raise Bad('%s %s recorded or drawn randomness (%s)' % (f['path'], 'hands its caller\'s code' if gives else 'prints', s[0].key), 'randomness stays with the prover', str(vshow(x))[:300], ev[2] if ev[2] != '?' else f['at'])
                if fe is None:
                    unsure = '%s at %s' % ('handing out' if gives else 'printing', ev[2])
    for nm, v in outs:
        if isinstance(v, (MRef,)):
            # a reference into an argument
            at = ref_field(env, r, v, secret)
            if at:
                raise Bad('%s hands out a mutable reference to the randomness of %s' % (f['path'], at), 'randomness stays with the prover', vshow(v), f['at'])
            v = r.at(v)
        if isinstance(v, Opq) and v.tag.startswith('in '):
            continue          # an object of the caller's: what it was given are events
        if isinstance(v, Opq):
            unsure = '%s of %s is not determined' % (nm, f['path'])
            continue
        for w, x, hid in scalar_leaves(v, secret, nm):
            sh.checked += 1
            if is_group(x):
                continue
            s = secret_atoms(x, names)
            if not hid and s:
                if isinstance(x, Cond) or all(a.is_int() for a in s) and not any(a.name in names for a in s):
                    if not any(a.name in names for a in s):
                        continue
                if as_poly(x) is not None and x.is_intlike() and not any(a.name in names for a in s):
                    continue
                if isinstance(v, Rng):
                    continue
                raise Bad('%s: %s contains recorded or drawn randomness (%s)' % (f['path'], w, s[0].key), 'randomness stays with the prover', str(vshow(x))[:300], f['at'])
            if hid and not isinstance(x, Cond):
                other = [a for a in x.atoms() if a.name not in ('draw', 'rawdraw', 'ind', 'sum') and a.name not in names and not a.is_int() and not a.name.startswith(('opq', 'ph'))]
                if other and not s and not x.is_intlike():
                    raise Bad('%s: the randomness recorded in %s is set from %s' % (f['path'], w, other[0].key), 'only drawn randomness is recorded', str(vshow(x))[:300], f['at'])
    if unsure:
        raise Unsure(unsure)


AROUND = re.compile(r'^\W*O<fn:(std::(env|fs|io|time|net|process|path)::|log::|core::fmt::Arguments|alloc::fmt::format)')


def within(facts):
    """path conditions without those that the surroundings (environment, files, clock) can make true at will"""
    out = []
    for c in facts:
        d = c.args[0] if c.op == 'not' else c
        if d.op == 'opq' and any(isinstance(a, str) and AROUND.match(a) for a in d.args):
            continue
        out.append(c)
    return out


def grown(facts):
    """without those that long enough lists satisfy, when nothing else restricts lengths"""
    def grows(c):
        return c.op == 'ge0' and isinstance(c.args[0], Poly) and all(k is M1 or k == M1 or v > 0 for k, v in c.args[0].t.items()) \
            and all(a.name.startswith('len ') for a in c.args[0].atoms())
    rest = [c for c in facts if not grows(c)]
    return facts if any(is_size(c) for c in rest) else rest


def is_group(x):
    """a group element (its exponents are hidden by the discrete logarithm)"""
    if not isinstance(x, Poly):
        return False
    for m in x.t:
        for a, _ in m.factors:
            if group_atom(a):
                return True
    return False


def group_atom(a):
    if a.kind in ('G1', 'G2', 'GT'):
        return True
    return any(isinstance(y, Poly) and is_group(y) for y in a.args)


def ref_field(env, r, ref, secret):
    v = r.I.S.store.get(ref.cell)
    for step in ref.path:
        v = r.I.simp(v) if isinstance(v, V) else v
        while isinstance(v, MRef):
            v = r.at(v)
        if isinstance(v, Struct) and step[0] == 'f':
            if step[1] in secret.get(v.path, ()):
                return v.path.split('::')[-1]
            v = v.f[step[1]]
        elif isinstance(v, Vec) and step[0] == 'i':
            v = vindex(v, step[1])
        else:
            return None
    return None


def written(sh, env, adt, fn):
    from models import LOG, COMP, yes_no
    secret = {env.adt(a)['path']: secret_fields(env, a) for a in HOLD}
    for cm in (True, False):
        x, names = marked(env, adt, secret)
        r = sh.run()
        out = r.cell(Struct(LOG, 0, (Vec([]),)))
        sh.call(fn, [x, out, yes_no(COMP, cm)], run=r, may_abort=True)
        log = r.at(out)
        sh.checked += 1
        if not isinstance(log, Struct):
            raise Unsure('what is written is not determined')
        for w, v, _ in scalar_leaves(log, {}, 'output'):
            s = secret_atoms(v, names)
            if s:
                raise Bad('the serialised form of %s contains its recorded randomness (%s)' % (adt, s[0].name.replace('x.', '')), 'randomness is not sent', None, fn['at'])


def marked(env, adt, secret):
    names = set()

    def go(t, base, d=0):
        t = strip(t)
        if is_vec(t):
            return go(elem(t), base, d)
        if t['k'] == 'adt' and t['did'] in env.p.adts and d < 5:
            a = env.p.adts[t['did']]
            if len(a['variants']) == 1:
                for i, fd in enumerate(a['variants'][0]['fields']):
                    if i in secret.get(t['path'], ()):
                        names.add('%s.%s' % (base, fd['name']))
                    go(fd['ty'], '%s.%s' % (base, fd['name']), d + 1)
    go(env.ty(adt), 'x')
    return env.sym(env.ty(adt), 'x', {'x.equ_type#': 0, 'x.equ_proofs.equ_type#': 0}), names


def printed(sh, env, adt, fn, tr, secret):
    """what the formatting code hands to the formatter"""
    x, names = marked(env, adt, secret)
    r = sh.run()
    sh.call(fn, [x, Opq('fmt', ())], run=r, may_abort=True)
    if r.I.unknown:
        raise Unsure('prints through %s' % sorted(r.I.unknown)[0])
    for ev in r.I.events:
        if ev[0] != 'fmt':
            continue
        sh.checked += 1
        # a component with a formatting implementation of its own is judged there
        if not isinstance(ev[1], V):
            raise Unsure('what is printed is not determined')
        for w, v, hid in scalar_leaves(ev[1], secret if adt == 'CProof' else {}, 'output'):
            if hid:
                continue
            s = secret_atoms(v, names)
            if s:
                raise Bad('the %s form of %s prints its recorded randomness (%s)' % (tr, adt, s[0].name.replace('x.', '')), 'randomness is not printed', None, ev[2] if ev[2] != '?' else fn['at'])


def prints(R, f):
    """formatting of something other than plain numbers and text, in any body reachable from f"""
    for g in R.below(f):
        for e in walk(g['body']):
            c = e.get('callee')
            if c and ('fmt::rt::Argument' in c['path'] or c['name'].startswith('assert_failed') or 'fmt::' in c['path'] and c['name'] in ('fmt', 'field', 'entry', 'entries')):
                for t in c['args']:
                    if t is not None and any(data_type(R.p, x) for x in types_in(t)):
                        return True
    return False


def data_type(p, x):
    if x['k'] == 'adt' and x['did'] in p.adts and not any(v['fields'] for v in p.adts[x['did']]['variants']):
        return False
    return x['k'] in ('param', 'alias', 'dyn', 'slice') or x['k'] == 'adt' and x['path'].split('::')[-1] not in ('Formatter', 'Arguments', 'String', 'Global', 'Option', 'Result')


def hides(sh, env, secret):
    """{path: secret fields} for the types whose own formatting leaves the secret fields out"""
    out = {}
    for adt in HOLD:
        path = env.adt(adt)['path']
        for i in env.p.impls:
            tr = (i['trait'] or '').split('::')[-1]
            it = {x['name']: env.p.fns[x['did']] for x in i['items'] if x['did'] in env.p.fns}
            if tr in ('Debug', 'Display') and match_name(i['self'], adt) and 'fmt' in it:
                try:
                    printed(sh, env, adt, it['fmt'], tr, secret)
                    out[path] = secret[path]
                except (Bad, Unsure):
                    out.pop(path, None)
                    break
    return out
