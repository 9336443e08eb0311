"""Scenario generators: each builds one case (a recorded history) in a Rec."""
import copy as _copy
import numpy as np
from . import gen as G
from .ops import OPS, NONE, key_of, shadow_apply
from .rec import Dead, VIEW_OPS

ALLM = ('fwd', 'rev', 'lop', 'lmult')
# operations that may appear in the middle of a larger expression
WAYS = ['copy', 'copy', 'pickle', 'pickle2', 'pickle-1', 'chcopy', 'deepcopy']
MIX = (['add', 'subtract', 'multiply', 'add', 'subtract', 'multiply', 'divide', 'maximum', 'minimum'] +
       ['negative', 'square', 'sin', 'cos', 'arctan', 'absolute', 'sqrt', 'exp', 'log', 'power', 'ipower', 'clip'] +
       ['sum', 'mean', 'sum', 'amax', 'amin', 'SumOfSquares', 'norm', 'cumsum0'] +
       ['reshape', 'ravel', 'transpose', 'swapaxes', 'rollaxis', 'roll', 'rot90', 'tile', 'repeat', 'diag', 'diagflat', 'sort',
        'fliplr', 'flipud', 'expand_dims', 'squeeze', 'atleast', 'getitem', 'getitem', 'getitem'] +
       ['concatenate', 'hstack', 'vstack', 'dstack', 'dot', 'dot', 'tensordot', 'cross', 'floor', 'greater'] +
       ['identity', 'inv', 'det', 'utri', 'usum', 'ualias', 'matvec', 'logabsdet', 'nan_to_num', 'interp3d'])
PLAIN = ['add', 'subtract', 'multiply', 'square', 'sin', 'negative', 'sum', 'getitem', 'reshape', 'concatenate', 'dot', 'transpose', 'mean']


def leaves(r, n=None):
    ids = r.below(n) if n is not None else r.ids()
    return [m for m in ids if r.g[m]['op'] == 'leaf' and r.alive(m)]


def grow(P, op=None):
    if op == 'cumsum0':
        a = P.pick()
        return P.rec.node('cumsum', [a], {'axis': NONE}) if a is not None and P.rec.can('cumsum', [a], {'axis': NONE}) else None
    if op == 'identity':
        a = P.pick(lambda n: n not in P.rec.raw)
        return P.rec.node('identity', [a]) if a is not None else None
    return P.grow(op)


def growmix(P, ops):
    for _ in range(6):
        x = grow(P, P.rng.choice(ops))
        if x is not None:
            return x
    return None


def noderiv(r, n, w=None):
    """does a derivative question about n meet an operation that refuses it?"""
    return any(r.g[m]['op'] == 'cumsum' and r.g[m]['p']['axis'] != NONE for m in r.below(n))


def observe_some(r, rng, nr=3, nd=2, modes=('fwd',), wrt='leaf', top=None, kmax=10):
    ids = [n for n in r.ids() if r.alive(n)]
    inner = [n for n in ids if r.g[n]['op'] != 'leaf'] or ids
    rs = [rng.choice(inner if rng.random() < .8 else ids) for _ in range(nr)]
    if top is not None and rng.random() < .7:
        rs.append(top)
    ds = []
    for _ in range(nd):
        n = top if top is not None and rng.random() < .5 else rng.choice(inner)
        if noderiv(r, n):
            continue
        bel = [m for m in r.below(n) if r.alive(m)]
        if wrt == 'leaf':
            c = [m for m in bel if r.g[m]['op'] == 'leaf']
        elif wrt == 'any':
            c = [m for m in bel if m != n]
            if rng.random() < .15:
                c = ids
        else:
            c = [m for m in ids if r.g[m]['op'] in VIEW_OPS]
        if not c:
            continue
        ds.append((n, rng.choice(c), rng.choice(modes)))
    r.observe(list(set(rs)), ds, kmax=kmax)


# ---------------------------------------------------------------- mutations
class Trial(object):
    """try a change on the mirror graph; undo it if it leaves the domain"""

    def __init__(self, r):
        self.r = r

    def __enter__(self):
        self.saved = [None if x is None else dict(x, a=list(x['a'])) for x in self.r.g]
        return self

    def ok(self):
        return self.r.domain_ok([n for n in self.r.ids()])

    def restore(self):
        self.r.g[:] = self.saved

    def __exit__(self, *a):
        return False


def try_change(r, f):
    """f changes r.g; True if the result stays in the domain. Always restored."""
    with Trial(r) as t:
        try:
            f()
            good = r.acyclic() and t.ok()
        except Exception:
            good = False
        t.restore()
    return good


def m_setleaf(P, reshape=.12):
    r, rng = P.rec, P.rng
    c = leaves(r)
    if not c:
        return False
    for _ in range(6):
        n = rng.choice(c)
        sh = r.g[n]['val'].shape
        if rng.random() < reshape:
            sh = rng.choice(G.SMALL)
        v = G.values(rng, sh, P.lo, P.hi)
        if rng.random() < .06:
            v = r.g[n]['val'].copy()           # assign the value it already has
            sh = v.shape
        if try_change(r, lambda: r.g[n].update(val=v)):
            how = rng.choice(['x', 'x', 'set', 'call', 'all', 'int', 'num'])
            if how == 'all' and sh != r.g[n]['val'].shape:
                how = 'x'
            if how == 'int':
                if not np.all(v == np.round(v)):
                    how = 'x'
            if how == 'num' and sh != (1,):
                how = 'x'
            r.setleaf(n, v, how)
            return True
    return False


def m_setitem(P, views=.7, bad=.1):
    r, rng = P.rec, P.rng
    ids = [n for n in r.ids() if r.alive(n)]
    vs = [n for n in ids if r.g[n]['op'] in VIEW_OPS and r.is_view(n)]
    ls = [n for n in ids if r.g[n]['op'] == 'leaf']
    nv = [n for n in ids if not r.is_view(n) and r.g[n]['op'] not in ('tile', 'repeat', 'diag', 'diagflat', 'sort')
          and r.base(n) == n]
    if nv and rng.random() < bad:
        n = rng.choice(nv)
        # not a rearrangement of a variable: must be refused and change nothing
        r.setitem(n, [{'t': 's', 'a': NONE, 'b': NONE, 'c': NONE}], 1.0, scalar=True)
        return True
    pool = vs if vs and rng.random() < views else ls
    for _ in range(6):
        if not pool:
            return False
        n = rng.choice(pool)
        sh = r.shape(n)
        key = G.rand_key(rng, sh) if rng.random() < .8 else [{'t': 's', 'a': NONE, 'b': NONE, 'c': NONE}]
        try:
            off = np.asarray(r.offsets(n)[key_of(key)])
        except Exception:
            continue
        if off.size == 0 or len(set(off.ravel().tolist())) != off.size:
            continue
        tsh = np.atleast_1d(off).shape
        k = rng.random()
        scalar = k < .2
        if scalar:
            v = G.values(rng, (1,), P.lo, P.hi)
        elif k < .35:
            bs = tuple(rng.choice([1, d]) for d in tsh)
            v = G.values(rng, bs[rng.randrange(len(bs)):], P.lo, P.hi)
        else:
            v = G.values(rng, tsh, P.lo, P.hi)
            if off.ndim == 0:
                scalar = True
        b = r.base(n)

        def do():
            x = r.g[b]['val'].copy()
            x.ravel()[off.ravel()] = np.broadcast_to(v, off.shape if off.ndim else (1,)).ravel()
            r.g[b]['val'] = x
        if try_change(r, do):
            r.setitem(n, key, v, scalar)
            return True
    return False


def attr_ok(r, n, i):
    at = OPS[r.g[n]['op']].attrs
    return i < len(at) and at[i] is not None and not r.g[n].get('swap')


def rewirable(r, n):
    return r.g[n]['op'] != 'leaf' and r.alive(n) and any(attr_ok(r, n, i) for i in range(len(r.g[n]['a'])))


def m_rewire(P, sameshape=.3, newleaf=.25):
    r, rng = P.rec, P.rng
    c = [n for n in r.ids() if rewirable(r, n)]
    if not c:
        return False
    for _ in range(10):
        n = rng.choice(c)
        i = rng.randrange(len(r.g[n]['a']))
        if not attr_ok(r, n, i):
            continue
        if rng.random() < newleaf:
            m = None
        else:
            cand = [m for m in r.ids() if r.alive(m) and n not in r.below(m)]
            if rng.random() < sameshape:
                cand = [m for m in cand if r.shape(m) == r.shape(r.g[n]['a'][i])] or cand
            if not cand:
                continue
            m = rng.choice(cand)
        if m is None:
            sh = r.shape(r.g[n]['a'][i])
            if rng.random() < .2:
                sh = G.bshape(rng, sh)
            v = G.values(rng, sh, P.lo, P.hi)
            r.g.append({'op': 'leaf', 'a': [], 'p': {}, 'val': v})
            t = len(r.g) - 1
            good = False
            saved = r.g[n]['a'][i]
            r.g[n]['a'][i] = t
            good = r.domain_ok()
            r.g[n]['a'][i] = saved
            r.g.pop()
            if not good:
                continue
            m = r.leaf(v, rng.choice(['Ch', 'Ch', 'raw', 'rawnum'] if sh == (1,) else ['Ch', 'Ch', 'raw']))
            r.rewire(n, i, m, rng.choice(['attr', 'attr', 'set']))
            return True

        def do():
            r.g[n]['a'][i] = m
        if try_change(r, do):
            r.rewire(n, i, m, rng.choice(['attr', 'attr', 'set']))
            return True
    return False


def new_param(P, n):
    r, rng = P.rec, P.rng
    nd = r.g[n]
    op = nd['op']
    if not OPS[op].params:
        return None
    sh = r.shape(nd['a'][0])
    if op == 'cross':
        return G.cross_axes(rng, sh, r.shape(nd['a'][1]))
    if op == 'concatenate':
        return {'axis': rng.randrange(-len(sh), len(sh))}
    if op == 'matvec' and rng.random() < .7:
        m = nd['p']['mtx']
        return dict(nd['p'], mtx={'s': m['s'], 'v': [rng.randrange(-8, 9) * 250000 for _ in m['v']]})
    if op == 'interp3d':
        return {'image': G.image(rng, list(nd['p']['image']['s']) if rng.random() < .6 else None)}
    if op == 'utri':
        return dict(nd['p'], k=rng.choice([-3, -2, -1, 0, 2, 4]))
    if op == 'ulazy':
        return {'k': 1 - nd['p']['k']}
    if op == 'user':
        return {'k': rng.choice([-3, -2, -1, 0, 2, 4])}
    if op == 'select':
        N = int(np.prod(sh))
        return dict(nd['p'], idx=[rng.randrange(N) for _ in nd['p']['idx']])
    if rng.random() < .25:
        p = G.tweak(rng, nd['p'])
        if p is not None:
            return p
    p = G.params(rng, op, sh)
    if p is not None:
        p.pop('int', None)
    return p


def m_setparam(P):
    r, rng = P.rec, P.rng
    c = [n for n in r.ids() if r.alive(n) and r.g[n]['op'] != 'leaf' and OPS[r.g[n]['op']].params]
    if not c:
        return False
    for _ in range(8):
        n = rng.choice(c)
        p = new_param(P, n)
        if p is None or p == r.g[n]['p']:
            continue
        if r.g[n]['op'] == 'tile' and 'int' in r.g[n]['p']:
            pass

        def do():
            r.g[n]['p'] = p
        if try_change(r, do):
            r.setparam(n, p, rng.choice(['attr', 'set', 'set' if r.hooks else 'call']))
            return True
    return False


def m_setmany(P):
    """one set() call that changes several terms (and sometimes attributes that are no terms)"""
    r, rng = P.rec, P.rng
    c = [n for n in r.ids() if rewirable(r, n)]
    if not c:
        return False
    for _ in range(8):
        n = rng.choice(c)
        k = len(r.g[n]['a'])
        which = [i for i in range(k) if attr_ok(r, n, i) and rng.random() < .7]
        args = {}
        for i in which:
            cand = [m for m in r.ids() if r.alive(m) and n not in r.below(m)]
            same = [m for m in cand if r.shape(m) == r.shape(r.g[n]['a'][i])]
            if cand:
                args[i] = rng.choice(same or cand)
        p = new_param(P, n) if rng.random() < .4 else None
        if p is not None and r.g[n]['op'] == 'tile':
            p = None
        other = {}
        if rng.random() < .5:
            other = {rng.choice(['zz_note', 'a_note', 'label', 'aa']): 'n%d' % rng.randrange(9)}
        if not args and p is None:
            continue

        def do():
            for i, m in args.items():
                r.g[n]['a'][i] = m
            if p is not None:
                r.g[n]['p'] = p
        if try_change(r, do):
            r.setmany(n, args, p, other)
            return True
    return False


def m_replace(P):
    r, rng = P.rec, P.rng
    for _ in range(8):
        roots = [n for n in r.ids() if r.alive(n) and r.g[n]['op'] != 'leaf']
        if not roots:
            return False
        root = rng.choice(roots)
        # names of the terms must be reachable by the real traversal
        R = [m for m in r.below(root) if m != root and r.alive(m)]
        if not R:
            continue
        old = rng.choice(R)
        reach0 = r._reach_not(root, old, None, set())
        if not all(all(attr_ok(r, m, i) for i in range(len(r.g[m]['a']))) for m in reach0 if r.g[m]['op'] != 'leaf'):
            continue
        if rng.random() < .3:
            v = G.values(rng, r.shape(old), P.lo, P.hi)
            new = None
        else:
            cand = [m for m in r.ids() if r.alive(m) and m != old and m != root]
            wrap = [m for m in cand if old in r.below(m)]
            if wrap and rng.random() < .4:
                cand = wrap               # replaced by an expression of itself
            same = [m for m in cand if r.shape(m) == r.shape(old)]
            cand = same if same and rng.random() < .8 else cand
            if not cand:
                continue
            new = rng.choice(cand)
        made = False
        if new is None:
            r.g.append({'op': 'leaf', 'a': [], 'p': {}, 'val': v})
            new, made = len(r.g) - 1, True

        reach = r._reach_not(root, old, new, set())

        def do():
            for m in reach:
                r.g[m]['a'] = [new if x == old else x for x in r.g[m]['a']]
        good = try_change(r, do)
        if made:
            r.g.pop()
        if not good:
            continue
        if made:
            new = r.leaf(v, 'Ch')
        r.replace(root, old, new)
        return True
    return False


def m_copy(P, how=None):
    r, rng = P.rec, P.rng
    c = [n for n in r.ids() if r.alive(n) and not any(r.objs[m] is None for m in r.below(n))]
    if not c or len(r.g) > 40:
        return None
    n = rng.choice(c)
    if len(r.below(n)) > 14:
        return None
    return r.copy(n, how or rng.choice(WAYS))


def m_dedupe(P):
    r, rng = P.rec, P.rng
    c = [n for n in r.ids() if r.alive(n) and r.g[n]['op'] != 'leaf' and
         all(m in r.raw or r.objs[m] is not None for m in r.below(n)) and
         all(all(attr_ok(r, m, i) for i in range(len(r.g[m]['a']))) for m in r.below(n) if r.g[m]['op'] != 'leaf')]
    if not c:
        return False
    r.dedupe(rng.choice(c))
    return True


MUT = {'setleaf': m_setleaf, 'setitem': m_setitem, 'rewire': m_rewire, 'setparam': m_setparam, 'setmany': m_setmany,
       'replace': m_replace, 'copy': m_copy, 'dedupe': m_dedupe}


# ---------------------------------------------------------------- scenarios
def program(P, ops, nleaf=(1, 3), nnode=(3, 8), shapes=None):
    rng = P.rng
    for _ in range(rng.randint(*nleaf)):
        P.new_leaf(rng.choice(shapes or G.SMALL))
    top = None
    for _ in range(rng.randint(*nnode)):
        x = growmix(P, ops)
        top = x or top
    return top


def history(r, rng, ops, steps, muts, modes=('fwd',), wrt='leaf', nr=3, nd=0, hooks=False, nleaf=(1, 3), nnode=(3, 8),
            maxsize=12, growth=.12, gcs=.06, forget=0., shapes=None, faults=0., breaks=0.):
    P = G.Prog(r, rng, ops, maxsize=maxsize, leafrange=rng.choice([(-3, 3), (.25, 3), (-1, 1)]))
    top = program(P, ops, nleaf, nnode, shapes)
    if top is None:
        return
    kinds = [k for k, w in muts.items() for _ in range(w)]
    if rng.random() < .7:
        observe_some(r, rng, nr, nd, modes, wrt, top)
    for _ in range(steps):
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            k = rng.random()
            if k < growth and len(r.g) < 30:
                growmix(P, ops)
            elif k < growth + gcs:
                r.gc()
            else:
                MUT[rng.choice(kinds)](P)
        if rng.random() < breaks:
            broken(r, rng, P, top)
        if rng.random() < faults:
            fault(r, rng, top)
            if rng.random() < .5:
                MUT[rng.choice(kinds)](P)
        observe_some(r, rng, rng.randint(1, nr), rng.randint(0, nd) if nd else 0, modes, wrt, top)
    return P


def m_clear(P):
    r, rng = P.rec, P.rng
    ids = [n for n in r.ids() if r.alive(n)]
    if r.hooks or not ids:
        return False
    n = rng.choice(ids)
    ws = [m for m in r.below(n) if r.alive(m)]
    w = rng.choice(ws) if ws and rng.random() < .6 else None
    ds = [(m, w, rng.choice(('fwd', 'rev'))) for m in rng.sample(ids, min(3, len(ids))) + [n]
          if w is not None and w in r.below(m) and not noderiv(r, m)] if w is not None else []
    if rng.random() < .5:
        r.observe([], ds)
    r.clear(n, w)
    if rng.random() < .7:
        r.observe([n], ds)
    return True


MUT['clear'] = m_clear


def broken(r, rng, P, top=None):
    """for a while some operands do not fit together; it is asked for in that state; then made to fit again"""
    c = leaves(r)
    ids = [n for n in r.ids() if r.alive(n) and r.g[n]['op'] != 'leaf']
    if not c or not ids:
        return
    n = rng.choice(c)
    old = r.g[n]['val'].shape
    v = G.values(rng, rng.choice(G.SMALL + [(5,), (2, 5), (4,)]), P.lo, P.hi)
    if try_change(r, lambda: r.g[n].update(val=v)):
        r.setleaf(n, v)
        return
    if any(m in r.raw for m in c if m == n):
        return
    above = [m for m in ids if n in r.below(m)] or ids
    kw = r.setleaf(n, v)
    for _ in range(rng.randint(1, 3)):
        m = rng.choice(above) if rng.random() < .8 else rng.choice(ids)
        k = rng.random()
        if k < .55 or m not in above:
            r.attempt(m, ('r',))
        else:
            r.attempt(m, ('d' if k < .9 else 'l', rng.choice([n] + c), rng.choice(['fwd', 'rev'])))
    if rng.random() < .6:
        for _ in range(12):                     # other variables follow
            m = rng.choice(c)
            w = G.values(rng, v.shape, P.lo, P.hi)
            if m != n and try_change(r, lambda: r.g[m].update(val=w)):
                r.setleaf(m, w)
                return
    for _ in range(20):
        w = G.values(rng, old, P.lo, P.hi)
        if try_change(r, lambda: r.g[n].update(val=w)):
            r.setleaf(n, w)
            return
    raise Dead('no way back')


def fault(r, rng, top=None):
    """something is asked for and a callback of a user-defined node fails on the way"""
    inner = [n for n in r.ids() if r.alive(n) and r.g[n]['op'] != 'leaf']
    if not inner:
        return
    for _ in range(rng.randint(1, 2)):
        n = top if top is not None and rng.random() < .6 else rng.choice(inner)
        us = [m for m in inner if r.g[m]['op'] == 'user']
        ws = [m for m in r.below(n) if r.alive(m) and r.g[m]['op'] == 'leaf']
        k = rng.random()
        if k < .2 and us:
            r.faulty(rng.choice(us), ('p', rng.choice(['pa', 'pbk', 'pab', 'pl', 'pk', 'pn'])), 'p', rng.choice([0, 0, 1]))
        elif k < .6 and ws and not noderiv(r, n):
            r.faulty(n, ('d', rng.choice(ws), rng.choice(['fwd', 'rev'])), rng.choice('cd'), rng.choice([0, 0, 1, 2]))
        else:
            r.faulty(n, ('r',), 'c', rng.choice([0, 0, 1, 2]))


def opcase(r, rng, op, modes=ALLM, extra=2, shapes=None, deriv=True, above=.4, below=.3, kmax=10):
    """one operation on every sort of operand, observed, changed and observed again"""
    P = G.Prog(r, rng, [op], maxsize=16)
    lo, hi = G.RANGE.get(op, (-3, 3))
    P.lo, P.hi = lo, hi
    if op == 'power':
        P.lo, P.hi = .25, 3
    sh = rng.choice(shapes or G.SHAPES)
    if op == 'gamma':
        a = r.leaf(G.values(rng, sh, 1, 6, 1))
    else:
        a = P.new_leaf(sh, distinct=rng.random() < .8)
    if op not in ('gamma',) and rng.random() < below:
        g = rng.choice(['transpose', 'reshape', 'getitem', 'negative', 'negative', 'add', 'roll'])
        P.grow(g)
    x = P.grow(op)
    if x is None:
        return
    top = x
    if rng.random() < above:
        y = P.rec.node(rng.choice(['negative', 'square']), [x]) if r.can('square', [x]) else None
        top = y or x

    def look(m):
        ws = [w for w in leaves(r, top) if deriv and not noderiv(r, top)]
        r.observe([x, top], [(n, w, rng.choice(modes)) for w in ws for n in {x, top}], kmax=kmax)
    look(0)
    for _ in range(extra):
        k = rng.random()
        if k < .12 and op != 'moment':
            m_resize(P)
        elif k < .5:
            m_setleaf(P, reshape=0 if op == 'moment' else .35)
        elif k < .7:
            m_setparam(P)
        elif k < .85 and op != 'moment':
            m_rewire(P)
        else:
            m_setitem(P, bad=0)
        look(1)


def same_size(rng, sh):
    n = int(np.prod(sh))
    c = [t for t in G.SHAPES if int(np.prod(t)) == n and t != tuple(sh)]
    return rng.choice(c) if c else tuple(sh)


def m_reshapeleaf(P):
    """give a variable a value with as many elements in another arrangement"""
    r, rng = P.rec, P.rng
    c = leaves(r)
    for _ in range(8):
        if not c:
            return False
        n = rng.choice(c)
        old = r.g[n]['val']
        sh = same_size(rng, old.shape)
        v = old.reshape(sh).copy() if rng.random() < .5 else G.values(rng, sh, P.lo, P.hi)
        if try_change(r, lambda: r.g[n].update(val=v)):
            r.setleaf(n, v, rng.choice(['x', 'set']))
            return True
    return False


MUT['reshapeleaf'] = m_reshapeleaf


def m_resize(P):
    """every axis of some length gets another length, in all variables at once"""
    r, rng = P.rec, P.rng
    c = leaves(r)
    ds = sorted(set(d for n in c for d in r.g[n]['val'].shape))
    for _ in range(6):
        if not ds:
            return False
        d = rng.choice(ds)
        t = rng.choice([x for x in (1, 2, 3, 4) if x != d])
        new = {}
        for n in c:
            sh = r.g[n]['val'].shape
            if d in sh and (len(c) == 1 or rng.random() < .9):
                ax = [i for i in range(len(sh)) if sh[i] == d]
                if rng.random() < .4:
                    ax = ax[:1]
                sh = tuple(t if i in ax else sh[i] for i in range(len(sh)))
                if int(np.prod(sh)) <= 24:
                    new[n] = G.values(rng, sh, P.lo, P.hi, 8, True)
        if not new:
            continue

        def do():
            for n, v in new.items():
                r.g[n].update(val=v)
        if try_change(r, do):
            for n, v in new.items():
                r.setleaf(n, v, rng.choice(['x', 'x', 'set']))
            return True
    return False


MUT['resize'] = m_resize


def m_addterm(P):
    """another term for a node with any number of them"""
    r, rng = P.rec, P.rng
    c = [n for n in r.ids() if r.alive(n) and r.g[n]['op'] == 'usum' and len(r.g[n]['a']) < 8]
    for _ in range(6 if c else 0):
        n = rng.choice(c)
        cand = [m for m in r.ids() if r.alive(m) and n not in r.below(m) and m not in r.raw]
        m = rng.choice(cand)
        if try_change(r, lambda: r.g[n].update(a=r.g[n]['a'] + [m])):
            r.addterm(n, m)
            return True
    return False


MUT['addterm'] = m_addterm


def opcycle(r, rng, ops_, steps=(3, 5), modes=ALLM, deriv=True, below=.25, above=.25, shapes=None, lo=None, hi=None):
    """one operation; its parameters, operands and operand shapes change again and again and
    sometimes back, with value and derivative asked before and after every change"""
    P = G.Prog(r, rng, ops_, maxsize=16)
    op = rng.choice(ops_)
    P.lo, P.hi = G.RANGE.get(op, (-3, 3))
    if op == 'power':
        P.lo, P.hi = .25, 3
    P.new_leaf(rng.choice(shapes or G.SHAPES), distinct=rng.random() < .7)
    if rng.random() < .3:
        P.new_leaf(rng.choice(shapes or G.SHAPES), distinct=True)
    if rng.random() < below:
        P.grow(rng.choice(['transpose', 'reshape', 'negative', 'negative', 'add', 'roll', 'identity'][:-1]))
    x = P.grow(op)
    if x is None:
        return
    top = x
    if rng.random() < above and r.can('square', [x]):
        top = r.node(rng.choice(['negative', 'square']), [x])

    def look():
        ws = [w for w in leaves(r, top) if deriv and not noderiv(r, top)]
        k = rng.random()
        ds = [(n, w, 'fwd' if k < .5 else rng.choice(modes)) for w in ws[:3] for n in {x, top}]
        r.observe([x] if rng.random() < .8 else [], ds)
    look()
    back = []
    haspar = bool(OPS[r.g[x]['op']].params)
    for _ in range(rng.randint(*steps)):
        k = rng.random()
        if haspar and k < .5:
            if back and rng.random() < .35:
                p = rng.choice(back)
                if p != r.g[x]['p'] and try_change(r, lambda: r.g[x].update(p=p)):
                    r.setparam(x, p, rng.choice(['attr', 'set']))
            else:
                for _j in range(6):
                    p = new_param(P, x)
                    if p is not None and p != r.g[x]['p'] and try_change(r, lambda: r.g[x].update(p=p)):
                        back.append(r.g[x]['p'])
                        r.setparam(x, p, rng.choice(['attr', 'set']))
                        break
        elif k < .68:
            m_reshapeleaf(P)
        elif k < .8:
            m_resize(P)
        elif k < .87:
            m_setleaf(P, .5)
        elif k < .95:
            m_rewire(P, .2)
        else:
            m_setitem(P, bad=0)
        look()


def m_badassign(P, keys=True):
    """an assignment that must be refused, to any sort of computed node"""
    r, rng = P.rec, P.rng
    nv = [n for n in r.ids() if r.alive(n) and not r.is_view(n) and
          r.g[n]['op'] not in ('tile', 'repeat', 'diag', 'diagflat', 'sort') and
          r.g[r.base(n)]['op'] != 'leaf']
    if not nv:
        return False
    n = rng.choice(nv)
    key = [{'t': 's', 'a': NONE, 'b': NONE, 'c': NONE}]
    if keys and rng.random() < .7:
        key = G.rand_key(rng, r.shape(n))
    r.setitem(n, key, G.values(rng, (1,), -2, 2), scalar=True)
    return True


LINOPS = ['pinv', 'inv', 'det', 'logabsdet', 'signdet', 'lstsq', 'lstsq_res', 'inv', 'pinv', 'det', 'logabsdets']


def linhist(r, rng, deriv=True, steps=(2, 5), modes=('fwd', 'rev')):
    """linear algebra over matrices that are changed and exchanged"""
    op = rng.choice(LINOPS)
    sq = op in ('inv', 'det', 'logabsdet', 'signdet', 'logabsdets')
    k = rng.choice([1, 2, 2, 3]) if sq else None
    ld = G.lead_of(rng) if sq else ()
    if np.prod(ld) > 2:
        k = 2
    sh = ld + (k, k) if sq else rng.choice([(3, 2), (2, 2), (2, 3), (3, 1), (4, 2)] if op == 'pinv' else [(3, 2), (2, 2), (3, 1), (4, 2)])
    P = G.Prog(r, rng, ['add'], maxsize=12)

    def matrix():
        return G.stack(rng, ld, k) if sq else G.wellcond(rng, *sh)
    mats = [r.leaf(matrix()) for _ in range(2)]
    for _ in range(rng.randint(1, 3)):
        m = rng.choice(mats)
        o = rng.choice(['negative', 'multiply', 'transpose', 'identity', 'add'])
        if o == 'multiply':
            a, p = [m, r.leaf([rng.choice([.5, 1.5, 2.])], rng.choice(['Ch', 'raw']))], {}
        elif o == 'add':
            a, p = [m, r.leaf(G.values(rng, sh, -.25, .25))], {}
        elif o == 'transpose':
            if not sq:
                continue
            o = 'swapaxes' if ld else o
            a, p = [m], {'axis1': -1, 'axis2': len(ld)} if ld else {'axes': []}
        else:
            a, p = [m], {}
        if r.can(o, a, p) and OPS[op].dom([r.shadow(m)]):
            n = r.node(o, a, p)
            if OPS[op].dom([r.shadow(n)]):
                mats.append(n)
    rhs = []
    args = [rng.choice(mats)]
    if op.startswith('lstsq'):
        rsh = rng.choice([(sh[0],), (sh[0], 2)])
        rhs = [r.leaf(G.values(rng, rsh, -2, 2)) for _ in range(2)]
        args.append(rhs[0])
    if op == 'logabsdets':
        args += [rng.choice(mats) for _ in range(rng.randint(1, 2))]
    x = r.node(op, args)
    top = x
    if rng.random() < .5 and r.can('square', [x]):
        top = r.node(rng.choice(['square', 'negative', 'sin']), [x])

    def look():
        n = rng.choice([x, top])
        ws = leaves(r, n)
        r.observe([n] if rng.random() < .8 else [], [(n, w, rng.choice(modes)) for w in rng.sample(ws, min(2, len(ws)))] if deriv else [])
    if rng.random() < .8:
        look()
    for _ in range(rng.randint(*steps)):
        kk = rng.random()
        if kk < .45:
            w = rng.choice([m for m in leaves(r, x) if m not in r.raw] + mats[:2])
            v = matrix() if r.shape(w) == sh and w in mats else G.values(rng, r.shape(w), -2, 2)
            if rng.random() < .2 and w in mats[:2]:
                v = v.reshape(sh)
            if try_change(r, lambda: r.g[w].update(val=v)):
                r.setleaf(w, v, rng.choice(['x', 'all', 'set']))
        elif kk < .7 and attr_ok(r, x, 0):
            m = rng.choice(mats)

            def do():
                r.g[x]['a'][0] = m
            if try_change(r, do):
                r.rewire(x, 0, m, rng.choice(['attr', 'set']))
        elif kk < .85:
            m_setitem(P, bad=0)
        else:
            m_rewire(P, .9, .1)
        look()


_ARR = {}


def arrangements(n, nd=4):
    if (n, nd) not in _ARR:
        out = set()

        def go(left, sh):
            if len(sh) >= 1 and left == 1:
                out.add(tuple(sh))
            if len(sh) == nd:
                return
            for d in range(1, left + 1):
                if left % d == 0:
                    go(left // d, sh + [d])
        go(n, [])
        _ARR[(n, nd)] = sorted(out)
    return _ARR[(n, nd)]


SWEEP_REORDER = ['reshape', 'transpose', 'swapaxes', 'rollaxis', 'roll', 'rot90', 'tile', 'repeat', 'diag', 'sort', 'atleast',
                 'swapaxes', 'rollaxis', 'transpose', 'roll']


def opsweep(r, rng, ops_, steps=(6, 12), deriv=True, second=None):
    """one operation over one variable of a fixed number of elements: the arrangement of the
    elements and the parameters of the operation change many times, the derivative is asked each time"""
    op = rng.choice(ops_)
    lo, hi = G.RANGE.get(op, (-3, 3))
    if op == 'power':
        lo, hi = .25, 3
    n = rng.choice([2, 4, 4, 6, 6, 8, 8, 12, 16] if op not in ('dot', 'tensordot') else [2, 4, 6, 8])
    shs = arrangements(n, 4 if n <= 8 else rng.choice([3, 4]))
    big = [s for s in shs if len([d for d in s if d > 1]) >= 2] or shs
    P = G.Prog(r, rng, [op], maxsize=40)
    P.lo, P.hi = lo, hi
    a = r.leaf(G.values(rng, rng.choice(big), lo, hi, 8, True))
    if op in G.BINARY + ['usq', 'user']:
        b = r.leaf(G.values(rng, (1,), lo, hi))
        ar = [a, b] if rng.random() < .5 or op == 'power' else [b, a]
        if not r.can(op, ar, {'k': 2} if op == 'user' else {}):
            return
        x = r.node(op, ar, {'k': 2} if op == 'user' else {})
    else:
        b = None
        x = None
        for _ in range(10):
            p = G.params(rng, op, r.shape(a))
            if p is not None:
                p.pop('int', None)
                if r.can(op, [a], p):
                    x = r.node(op, [a], p)
                    break
        if x is None:
            return

    def look():
        ws = [a] + ([b] if b and rng.random() < .4 else [])
        r.observe([x] if rng.random() < .4 else [], [(x, w, rng.choice(['fwd', 'fwd', 'rev', 'lop'])) for w in ws] if deriv else [], kmax=4)
    look()
    for _ in range(rng.randint(*steps)):
        for _j in range(6):
            k = rng.random()
            np_, nv, nb = r.g[x]['p'], r.g[a]['val'], None
            if OPS[r.g[x]['op']].params and k < .55:
                np_ = new_param(P, x)
            elif b is not None and k < .5:
                nb = G.values(rng, G.bshape(rng, r.shape(a)), lo, hi)
            elif k < .93:
                nv = nv.reshape(rng.choice(big if rng.random() < .8 else shs)).copy()
            else:
                nv = G.values(rng, nv.shape, lo, hi, 8, True)
            if np_ is None:
                continue

            def do():
                r.g[x]['p'] = np_
                r.g[a]['val'] = nv
                if nb is not None:
                    r.g[b]['val'] = nb
            if try_change(r, do):
                if np_ != r.g[x]['p']:
                    r.setparam(x, np_, rng.choice(['attr', 'set']))
                if nv is not r.g[a]['val']:
                    r.setleaf(a, nv)
                if nb is not None:
                    r.setleaf(b, nb)
                break
        look()
