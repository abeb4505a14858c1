"""Decide one property of /repo's current sources.

usage: check.py ID [--thorough]
exit 0: held on everything analysed; exit 1: violation (printed); other: the check could not run."""
import sys
import os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import json
import multiprocessing
import time
import traceback
import fresh
from fresh import VERIF, BuildError

MODULES = ('p_proof', 'p_data', 'p_codec', 'p_effect')
QUICK_S, THOROUGH_S = 420, 780


def registry():
    import importlib
    reg = {}
    for m in MODULES:
        try:
            mod = importlib.import_module(m)
        except ModuleNotFoundError as e:
            if e.name != m:
                raise
            continue
        for k in dir(mod):
            if len(k) == 3 and k[0] == 'c' and k[1:].isdigit():
                reg[k.upper()] = getattr(mod, k)
    return reg


def obligations(fn, env, thorough):
    import inspect
    if 'thorough' in inspect.signature(fn).parameters:
        return fn(env, thorough=thorough)
    return fn(env)


def known(prop):
    """listed findings: key -> description"""
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: '):
                w = l.split(None, 3)
                if w[1] == 'property=' + prop and w[2].startswith('key='):
                    out[w[2][4:]] = w[3] if len(w) > 3 else ''
    return out


class Plain:
    """what an obligation's decision leaves behind, without analysis objects"""
    pass


def plain(r, env):
    o = Plain()
    o.name, o.rule = r.ob.name, r.ob.rule
    o.status, o.shape, o.why, o.checked, o.shapes, o.secs = r.status, r.shape, r.why, r.checked, r.shapes, r.secs
    o.also = r.also
    o.key = r.ob.key or r.ob.name
    o.bad = None
    if r.detail is not None:
        d = r.detail
        t = lambda x: None if x is None else str(x)
        o.bad = (d.what, t(d.expected), t(d.actual), t(d.at))
    o.fns = {}
    for did, n in r.fns.items():
        f = env.p.fns.get(did)
        o.fns[f['path'] if f else did] = n
    return o


_G = {}


def work(i):
    from ob import decide_ob
    end = _G['end']
    env, ob = _G['obs'][i]
    ob.budget = min(ob.budget * _G['mult'], max(3, end - time.time()))
    try:
        return plain(decide_ob(env, ob), env)
    except Exception as e:
        o = Plain()
        o.name, o.error = ob.name, (type(e).__name__, str(e), traceback.format_exc())
        return o


def decide_all(obs, total, mult):
    _G.update(obs=obs, end=time.time() + total, mult=mult)
    if len(obs) == 1:
        return [work(0)]
    order = list(range(len(obs)))
    with multiprocessing.get_context('fork').Pool(min(8, len(obs))) as pool:
        return pool.map(work, order, chunksize=1)


def main(argv):
    prop = argv[0].upper()
    thorough = '--thorough' in argv or os.environ.get('VERIF_TIER') == 'thorough'
    tier = 'thorough' if thorough else 'quick'
    t0 = time.time()
    reg = registry()
    if prop not in reg:
        print('no check for', prop)
        return 2
    rep_dir, ev_dir = os.path.join(VERIF, 'reports'), os.path.join(VERIF, 'evidence')
    os.makedirs(rep_dir, exist_ok=True)
    os.makedirs(ev_dir, exist_ok=True)
    rep, ev = os.path.join(rep_dir, prop + '.txt'), os.path.join(ev_dir, prop + '.json')
    for f in (rep, ev):
        if os.path.exists(f):
            os.remove(f)
    paths, obs = [], []
    try:
        paths.append(fresh.dump())
        if thorough or fresh.two_faced():
            paths.append(fresh.dump(flags='-Cdebug-assertions=off'))
            if open(paths[0], 'rb').read() == open(paths[1], 'rb').read():
                os.remove(paths.pop())
        from prog import Prog
        from env import Env, Missing
        try:
            for i, path in enumerate(paths):
                env = Env(Prog(path))
                for o in obligations(reg[prop], env, thorough):
                    o.key = o.key or o.name
                    o.name += ' (debug assertions off)' if i else ''
                    obs.append((env, o))
        except Missing as e:
            print('cannot decide %s: %s is not in the program' % (prop, e))
            return 2
    except BuildError as e:
        print('cannot decide %s: %s' % (prop, e))
        return 2
    finally:
        for path in paths:
            if os.path.exists(path):
                os.remove(path)
    if not obs:
        print('cannot decide %s: no obligations' % prop)
        return 2
    if thorough:
        import ob
        ob.CROSS = ob.CROSS_S = 1000
    rs = decide_all(obs, THOROUGH_S if thorough else QUICK_S, 4 if thorough else 1)
    for r in rs:
        if hasattr(r, 'error'):
            print('cannot decide %s: %s: %s: %s' % (prop, r.name, r.error[0], r.error[1]))
            if r.error[0] != 'Missing':
                print(r.error[2])
            return 2
    kn = known(prop)
    bad = [r for r in rs if r.status == 'violated' and r.key not in kn]
    hits = [r for r in rs if r.status == 'violated' and r.key in kn]
    write_report(rep, prop, tier, rs, bad, hits, env)
    write_evidence(ev, prop, tier, rs, bad, hits, env, time.time() - t0)
    for r in rs:
        print('%-13s %s%s' % (r.status, r.name, '' if r.status == 'held' else '   (%s)' % '; '.join('%s: %s' % x for x in r.why[:2])))
    for r in hits:
        print('KNOWN-FINDING: property=%s %s' % (prop, r.bad[0]))
    for r in bad:
        print('%s: %s [%s] %s' % (prop, r.bad[3], r.shape, r.bad[0]))
    if bad:
        print('VIOLATION property=%s replay=%s' % (prop, rep))
        return 1
    return 0


def write_report(path, prop, tier, rs, bad, hits, env):
    with open(path, 'w') as f:
        f.write('%s, %s analysis of %s\n' % (prop, tier, fresh.REPO))
        for head, l in (('VIOLATIONS', bad), ('KNOWN FINDINGS', hits)):
            if not l:
                continue
            f.write('\n%s\n' % head)
            for r in l:
                what, exp, act, at = r.bad
                f.write('\n  obligation  %s\n  rule        %s\n  where       %s\n  shape       %s\n  problem     %s\n' % (r.name, r.rule, at, r.shape, what))
                if exp is not None:
                    f.write('  prescribed  %s\n' % exp[:3000])
                if act is not None:
                    f.write('  found       %s\n' % act[:3000])
                f.write('  analysed    %s\n' % ', '.join(sorted(r.fns)))
        f.write('\nOBLIGATIONS\n')
        for r in rs:
            f.write('  %-13s %s  [%s]\n' % (r.status, r.name, '; '.join(r.shapes[:6]) + (' ...' if len(r.shapes) > 6 else '')))
            for a, b in r.why[:6]:
                f.write('                  %s: %s\n' % (a, b))


def write_evidence(path, prop, tier, rs, bad, hits, env, secs):
    fns = {}
    for r in rs:
        for k, n in r.fns.items():
            fns[k] = fns.get(k, 0) + n
    allsz = [r for r in rs if r.status == 'held']
    bnd = [r for r in rs if r.status == 'held-bounded']
    und = [r for r in rs if r.status == 'undecided']
    cov = {
        'explanation': 'Static analysis of the compiler\'s typed tree of /repo (all %d function bodies dumped; %d reached by these obligations). '
                       'Each obligation compares the abstract value of a function with the prescribed one.' % (len(env.p.fns), len(fns)),
        'obligations': len(rs),
        'discharged': len(allsz),
        'held_for_listed_shapes_only': [{'obligation': r.name, 'shapes': r.shapes[:40], 'why_not_all': [list(x) for x in r.why[:1]]} for r in bnd],
        'undecided': [{'obligation': r.name, 'why': [list(x) for x in r.why[:3]]} for r in und],
        'rules': sorted({r.rule for r in rs}),
        'judgements': sum(r.checked for r in rs),
        'per_obligation': [{'name': r.name, 'status': r.status, 'shapes': len(r.shapes) if r.shapes[:1] != ['all sizes'] else 'all sizes',
                            'repeated_at_fixed_shapes': r.also, 'judgements': r.checked, 'functions': len(r.fns), 'seconds': round(r.secs, 2)} for r in rs],
        'functions_analysed': sorted(fns),
        'calls_analysed': sum(fns.values()),
        'known_findings': [r.bad[0] for r in hits],
    }
    json.dump({'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other', 'coverage': cov,
               'assumptions': ['the models of the called library functions (gsa/models.py)', 'the compiler\'s typed tree',
                               'group, field and pairing laws of the backend (C24)'],
               'wall_s': round(secs, 2), 'violations': len(bad)}, open(path, 'w'), indent=1)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
