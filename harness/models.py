"""Specification-level checks.

`cache`: TLC explores the mechanism model ChCache.tla (all histories of small graphs), checks its
invariants, and writes every explored transition with a shortest history leading to it.  The
histories are replayed in the real code and what it answers is judged by ChumpyTrace.tla.
"""
import json
import os
import random
import re
import subprocess
import sys
import time

from . import tlc
from .ops import NONE

HERE = os.path.dirname(os.path.abspath(__file__))
INV = ['NothingOld', 'MemoRight', 'LinksRight', 'ToldRight', 'ToldBefore']
BREAKS = ['no-ascent', 'one-level', 'no-link', 'no-unlink', 'keep-derivatives', 'no-telling', 'no-view-walk', 'keep-memo']

# name: leaves, binary, views, (quick depth, thorough depth), diffs, hooks, drops, (quick, thorough) histories replayed
CACHE = {
    'values': ('{1, 2}', '{3, 4}', '{}', (9, 12), False, False, True, (3000, 16000)),
    'derivatives': ('{1, 2}', '{3, 4}', '{}', (3, 6), True, False, False, (3000, 16000)),
    'views': ('{1, 2}', '{4}', '{3}', (3, 6), True, False, False, (2000, 12000)),
    'deep': ('{1, 2}', '{3, 4, 5}', '{}', (2, 3), False, False, False, (3000, 16000)),
    'hooks': ('{1, 2}', '{3, 4}', '{}', (3, 5), False, True, False, (3000, 16000)),
}


# control flow of dogleg minimisation: constants (quick, thorough), runs replayed
DOGLEG = {
    'dogleg': (('{1, 2, 3}', '{0, 1, 2, 4}', '{0, 1, 2}', 3), ('{1, 2, 3, 5}', '{0, 1, 2, 3, 4, 6}', '{0, 1, 2, 3}', 6),
               ('{3}', '{0, 4}', '{1}', 3), ('{4}', '{0, 5}', '{1}', 3), (1200, 12000)),
}
DBREAKS = ['no-evaluation-budget', 'no-shrink', 'not-put-back', 'keep-worse']


def dogleg_tlc(c, tmp, emit, brk, timeout=300):
    wd = os.path.join(tmp, 'dg_%s_%d_%s' % (brk, emit, c[0].count(',')))
    os.makedirs(wd, exist_ok=True)
    with open(os.path.join(wd, 'c.cfg'), 'w') as f:
        f.write('SPECIFICATION Spec\nCONSTANTS\nMaxIters = %s\nFevs = %s\nRegions = %s\nRanks = %d\nEmit = %s\nBreak = "%s"\n'
                'INVARIANTS Best Settled Budgets Reason\n%sACTION_CONSTRAINT Written\nCHECK_DEADLOCK FALSE\n' % (
                    c[0], c[1], c[2], c[3], 'TRUE' if emit else 'FALSE', brk, '' if emit else 'PROPERTIES Descends Stops\n'))
    return tlc.run_tlc(os.path.join(tlc.SPEC, 'DoglegMC.tla'), os.path.join(wd, 'c.cfg'), wd, timeout, heap='3500m', workers=1)


def run_dogleg(name, tier, seed, prop, tmp, res):
    q = 0 if tier == 'quick' else 1
    c = DOGLEG[name]
    rc, out = dogleg_tlc(c[q], tmp, False, 'none')
    if rc != 0:
        res['errors'].append({'seed': 'DoglegMC', 'tb': out[-2500:]})
        return []
    ms = re.search(r'(\d+) states generated, (\d+) distinct', out)
    res['states'], res['transitions'] = int(ms.group(2)), int(ms.group(1))
    fails = []
    for b in DBREAKS if q else ():
        rc, o = dogleg_tlc(c[0], tmp, False, b)
        if 'violated' not in o:
            res['errors'].append({'seed': 'DoglegMC ' + b, 'tb': 'the broken procedure was not found out\n' + o[-1500:]})
        fails.append(b)
    res['broken_procedures_found_out'] = fails
    rc, out = dogleg_tlc(c[2 + q], tmp, True, 'none')
    if rc != 0:
        res['errors'].append({'seed': 'DoglegMC', 'tb': out[-2500:]})
        return []
    hs = sorted(set(m.group(1).replace('\\"', '"') for m in re.finditer(r'^"?H(\{.*\})"?$', out, re.M)))
    return [json.loads(h) for h in hs]


def cfg_text(c, depth, emit, brk):
    b = lambda x: 'TRUE' if x else 'FALSE'
    return ('SPECIFICATION Spec\nCONSTANTS\nLeaves = %s\nBinary = %s\nViews = %s\nDepth = %d\nDiffs = %s\nHooks = %s\nDrops = %s\n'
            'Emit = %s\nBreak = "%s"\nINVARIANTS %s\nVIEW view\nACTION_CONSTRAINT Written\nCHECK_DEADLOCK FALSE\n' % (
                c[0], c[1], c[2], depth, b(c[4]), b(c[5]), b(c[6]), b(emit), brk, ' '.join(INV)))


def explore(name, depth, tmp, emit=True, brk='none', timeout=500):
    """run TLC on the mechanism model; (return code, output)"""
    wd = os.path.join(tmp, 'mc_%s_%s_%d' % (name, brk, depth))
    os.makedirs(wd, exist_ok=True)
    with open(os.path.join(wd, 'c.cfg'), 'w') as f:
        f.write(cfg_text(CACHE[name], depth, emit, brk))
    return tlc.run_tlc(os.path.join(tlc.SPEC, 'ChCache.tla'), os.path.join(wd, 'c.cfg'), wd, timeout, heap='3500m', workers=1)


def histories(out):
    """histories that are not the beginning of another one, in a fixed order"""
    hs = set()
    for m in re.finditer(r'^"?H(\[.*\])"?$', out, re.M):
        hs.add(m.group(1).replace('\\"', '"'))
    hs = [json.loads(h) for h in hs]
    key = lambda h: tuple(tuple(x) for x in h)
    inner = set(key(h)[:-1] for h in hs)
    return sorted((h for h in hs if key(h) not in inner), key=lambda h: json.dumps(h))


def run_cache(name, tier, tmp, res):
    c = CACHE[name]
    q = 0 if tier == 'quick' else 1
    depth = c[3][q]
    while True:
        try:
            rc, out = explore(name, depth, tmp, timeout=150 if q == 0 else 600)
            break
        except tlc.TLCError as e:      # out of time: a smaller bound
            depth -= 1
            if depth < 1:
                res['errors'].append({'seed': 'ChCache', 'tb': str(e)})
                return []
    if rc != 0:
        res['errors'].append({'seed': 'ChCache ' + name, 'tb': out[-2500:]})
        return []
    ms = re.search(r'(\d+) states generated, (\d+) distinct', out)
    res['states'], res['transitions'], res['depth'] = int(ms.group(2)), int(ms.group(1)), depth
    hs = histories(out)
    if q:
        # the mechanism with one step left out must fail: the model is not vacuous
        fails = []
        for b in BREAKS:
            if (b == 'no-view-walk' and name != 'views') or (b == 'keep-memo' and name != 'hooks') or (
                    b == 'keep-derivatives' and not c[4]) or (b == 'one-level' and name == 'views'):
                continue
            rc, o = explore(name, 4, tmp, emit=False, brk=b)
            if 'is violated' not in o:
                res['errors'].append({'seed': 'ChCache ' + b, 'tb': 'the broken mechanism was not found out\n' + o[-1500:]})
            fails.append(b)
        res['broken_mechanisms_found_out'] = fails
    return hs


def run(m, prop, tier, seed, tmp, stop):
    kind, name = m
    res = {'model': ('ChCache ' if kind == 'cache' else 'DoglegMC ') + name, 'bad': [], 'errors': [], 'states': 0, 'transitions': 0,
           'traces': 0, 'samples': []}
    t0 = time.time()
    q = 0 if tier == 'quick' else 1
    if kind == 'cache':
        hs, n = run_cache(name, tier, tmp, res), CACHE[name][7][q]
    else:
        hs, n = run_dogleg(name, tier, seed, prop, tmp, res), DOGLEG[name][4][q]
    if not hs:
        return res
    res['histories'] = len(hs)
    rng = random.Random('%s-%s-%s' % (seed, prop, name))
    if len(hs) > n:
        hs = rng.sample(hs, n)
    res['replayed'] = len(hs)
    # replay, in several processes
    W = 4 if q == 0 else 8
    procs = []
    env = dict(os.environ)
    for k in range(W):
        part = hs[k::W]
        if not part:
            continue
        fi, fo = os.path.join(tmp, 'mh%s%d.json' % (name, k)), os.path.join(tmp, 'mo%s%d.json' % (name, k))
        with open(fi, 'w') as f:
            json.dump({'prop': prop, 'model': name, 'seed': '%s-%s-m-%s-%d' % (seed, prop, name, k), 'hs': part, 'out': fo}, f)
        procs.append((fo, subprocess.Popen([sys.executable, '-W', 'ignore', os.path.join(HERE, 'run.py'), '--mworker', fi], env=env, cwd=tmp,
                                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)))
    for fo, p in procs:
        try:
            txt = p.communicate(timeout=600 if q == 0 else 3000)[0]
        except subprocess.TimeoutExpired:
            p.kill()
            res['errors'].append({'seed': 'model replay', 'tb': 'timed out'})
            continue
        if not os.path.exists(fo):
            res['errors'].append({'seed': 'model replay', 'tb': (txt or '')[-3000:]})
            continue
        d = json.load(open(fo))
        res['bad'] += d['bad']
        res['errors'] += d['errors']
        res['traces'] += d['cases']
        res['agree'] = res.get('agree', 0) + d['agree']
    if hs:
        res['samples'] = [{'model': name, 'history': hs[len(hs) // 2]}]
    res['wall_s'] = round(time.time() - t0, 1)
    return res


# ---------------------------------------------------------------- replaying
def values(rng, sh):
    import numpy as np
    n = int(np.prod(sh))
    return np.array([rng.choice([x for x in range(-12, 13) if x]) / 8. for _ in range(n)]).reshape(sh)


def replay(r, rng, name, h):
    """one abstract history in the real code, recorded in r"""
    from .rec import Dead
    c = CACHE[name]
    leaves = sorted(json.loads(c[0].replace('{', '[').replace('}', ']')))
    binary = sorted(json.loads(c[1].replace('{', '[').replace('}', ']')))
    views = sorted(json.loads(c[2].replace('{', '[').replace('}', ']')))
    hooks = c[5]
    r.rng = rng
    r.case(hooks=hooks, tag='model-' + name)
    try:
        sh = (2, 2) if views and rng.random() < .6 else rng.choice([(1,), (2,), (2,)])
        for x in leaves:
            r.leaf(values(rng, sh), 'Ch')
        w = list(h[0][1:])
        k = 0
        for n in sorted(binary + views):
            if n in binary:
                a = w[k:k + 2]
                k += 2
                if hooks:
                    o = 'user'
                else:
                    o = rng.choice(['add', 'subtract', 'multiply', 'multiply'])
                m = r.node(o, a, {'k': rng.choice([-2, -1, 2])} if o == 'user' else {}, 'fn')
            else:
                a = w[k:k + 1]
                k += 1
                if len(sh) == 2:
                    o, p = rng.choice([('transpose', {'axes': []}), ('rot90', {'k': 1}), ('roll', {'shift': 1, 'axis': 0}),
                                       ('getitem', {'key': [{'t': 's', 'a': NONE, 'b': NONE, 'c': -1}]})])
                else:
                    o, p = rng.choice([('roll', {'shift': 1, 'axis': NONE}), ('getitem', {'key': [{'t': 's', 'a': NONE, 'b': NONE, 'c': -1}]})])
                m = r.node(o, a, p, 'fn')
            assert m == n, (m, n)
        for st in h[1:]:
            t = st[0]
            if t == 'A':
                x = st[1]
                vs = [v for v in views if r.alive(v) and r.is_view(v) and r.base(v) == x]
                if vs and rng.random() < .5:
                    r.setitem(rng.choice(vs), [{'t': 's', 'a': NONE, 'b': NONE, 'c': NONE}], values(rng, sh))
                elif rng.random() < .25:
                    r.setitem(x, [{'t': 's', 'a': 0, 'b': 1, 'c': NONE}], values(rng, (1,) + sh[1:]))
                else:
                    r.setleaf(x, values(rng, sh), rng.choice(['x', 'x', 'set', 'all']))
            elif t == 'W':
                r.rewire(st[1], st[2] - 1, st[3], rng.choice(['attr', 'set']))
            elif t == 'K':
                old = r.g[st[1]]['p']['k']
                r.setparam(st[1], {'k': rng.choice([q for q in (-3, -1, 2, 3) if q != old])}, rng.choice(['attr', 'set']))
            elif t == 'R':
                r.observe([st[1]])
            elif t == 'D':
                r.observe([], [(st[1], st[2], rng.choice(['fwd', 'fwd', 'rev', 'lop', 'lmult']))])
            elif t == 'P':
                r.prop(st[1], 'pa' if st[2] == 1 else 'pbk')
            elif t == 'X':
                r.forget(st[1])
                r.gc()
        ins = [n for n in binary + views if r.alive(n)]
        wr = [x for x in leaves + views if r.alive(x)]
        rng.shuffle(ins)
        if c[4]:
            r.observe(ins, [(n, x, rng.choice(['fwd', 'fwd', 'rev', 'lmult'])) for n in ins for x in wr])
        else:
            r.observe(ins)
        if hooks:
            for n in ins:
                r.prop(n, 'pa')
                r.prop(n, 'pbk')
    except Dead:
        pass
    finally:
        r.restore()


def replay_dogleg(r, rng, h):
    from .rec import Dead
    from . import opt
    r.rng = rng
    r.case(tag='model-dogleg')
    try:
        opt.scripted(r, rng, h)
    except Dead:
        pass
    finally:
        r.restore()


def mworker(ch, path, validate):
    from .rec import Rec
    d = json.load(open(path))
    rng = random.Random(d['seed'])
    res = {'bad': [], 'errors': [], 'cases': 0, 'agree': 0}
    for b in range(0, len(d['hs']), 1500):
        r = Rec(ch, rng)
        part = d['hs'][b:b + 1500]
        for h in part:
            if d['model'] in CACHE:
                replay(r, rng, d['model'], h)
            else:
                replay_dogleg(r, rng, h)
        r.end()
        cases = r.cases
        for i, cc in enumerate(cases):
            x = json.loads(cc[0])
            x['id'] = i + 1
            cc[0] = json.dumps(x, separators=(',', ':'))
        v = validate(cases, [ln for cc in cases for ln in cc])
        res['cases'] += len(cases)
        res['agree'] += v['cnt'].get('agree', 0)
        for q in v['bad'][:5]:
            q['tag'] = 'model-' + d['model']
            q['seed'] = json.dumps(part[q['case'] - 1])
            q['lines'] = cases[q['case'] - 1]
            res['bad'].append(q)
        if res['bad']:
            break
    with open(d['out'], 'w') as f:
        json.dump(res, f)
