"""The scenarios of every property."""
import numpy as np
from . import gen as G
from . import scen as S
from .ops import OPS, NONE, key_of, shadow_apply
from .rec import VIEW_OPS, encl

SC = {}
WAYS = S.WAYS


def scen(prop, name, weight=1, hooks=False):
    def d(f):
        SC.setdefault(prop, []).append((name, weight, f, hooks))
        return f
    return d


def choose(prop, rng):
    l = SC[prop]
    k = rng.random() * sum(x[1] for x in l)
    for name, w, f, hooks in l:
        k -= w
        if k <= 0:
            return name, f, hooks
    return l[-1][0], l[-1][2], l[-1][3]


HM = {'setleaf': 4, 'setitem': 2, 'rewire': 3, 'setparam': 2, 'setmany': 1, 'replace': 1}
ARITH = ['add', 'subtract', 'multiply', 'divide', 'negative', 'square', 'sin', 'sum', 'mean', 'maximum', 'dot', 'transpose', 'getitem',
         'concatenate', 'reshape', 'user', 'usq', 'utri', 'usum', 'ualias', 'vstack', 'SumOfSquares', 'identity']

# ------------------------------------------------------------------ C01 / C02: currency


@scen('C01', 'mixed-history', 6)
def c01(r, rng):
    S.history(r, rng, S.MIX, rng.randint(3, 8), HM, nr=3, nd=1, modes=('fwd',))


@scen('C01', 'broken-in-between', 2)
def c01b(r, rng):
    S.history(r, rng, rng.choice([S.MIX, ARITH]), rng.randint(2, 6), dict(HM, clear=2), nr=3, nd=1, breaks=.8, modes=S.ALLM, nnode=(2, 7))


@scen('C02', 'broken-in-between', 2)
def c02b(r, rng):
    S.history(r, rng, rng.choice([S.MIX, ARITH]), rng.randint(2, 6), dict(HM, clear=4), nr=1, nd=3, breaks=.8, modes=S.ALLM, nnode=(2, 7), maxsize=9)


@scen('C01', 'growing-nodes', 1)
def c01g(r, rng):
    S.history(r, rng, ['usum', 'ualias', 'utri', 'usum', 'negative', 'sum', 'getitem'], rng.randint(3, 7), dict(HM, addterm=6), nr=3, nd=1, nnode=(2, 7))


@scen('C02', 'growing-nodes', 1)
def c02g(r, rng):
    S.history(r, rng, ['usum', 'ualias', 'utri', 'usum', 'negative', 'sum', 'getitem'], rng.randint(3, 7), dict(HM, addterm=6), nr=1, nd=4,
              wrt=rng.choice(['leaf', 'any']), nnode=(2, 7), maxsize=9, modes=S.ALLM)


@scen('C01', 'user-nodes', 3, hooks=True)
def c01u(r, rng):
    S.history(r, rng, ['user', 'usq', 'user', 'usq', 'add', 'sum', 'getitem', 'negative'], rng.randint(4, 9), HM, nr=3, nnode=(3, 9), growth=.05,
              faults=.15)


@scen('C01', 'deep-chain', 1)
def c01d(r, rng):
    chain(r, rng, rng.randint(15, 40), deriv=False)


@scen('C01', 'many-parents', 1)
def c01m(r, rng):
    fan(r, rng, deriv=False)


@scen('C01', 'few-reads', 2)
def c01f(r, rng):
    """long stretches of writes with few reads, so that notifications pile up"""
    P = G.Prog(r, rng, S.MIX, maxsize=12)
    top = S.program(P, ARITH, (2, 3), (4, 9))
    kinds = [k for k, w in HM.items() for _ in range(w)]
    for _ in range(rng.randint(2, 4)):
        for _ in range(rng.randint(2, 7)):
            S.MUT[rng.choice(kinds)](P)
            if rng.random() < .25:
                S.observe_some(r, rng, 1, 0)
        S.observe_some(r, rng, 4, 0, top=top)


@scen('C02', 'mixed-history', 6)
def c02(r, rng):
    S.history(r, rng, S.MIX, rng.randint(3, 7), HM, nr=1, nd=4, wrt=rng.choice(['leaf', 'leaf', 'any']), modes=('fwd', 'fwd', 'rev'), maxsize=9)


@scen('C02', 'user-nodes', 2, hooks=True)
def c02u(r, rng):
    S.history(r, rng, ['user', 'usq', 'usq', 'add', 'sum', 'getitem', 'multiply'], rng.randint(3, 7), HM, nr=1, nd=4,
              wrt=rng.choice(['leaf', 'any']), nnode=(3, 8), growth=.05, maxsize=9, faults=.2)


@scen('C02', 'deep-chain', 1)
def c02d(r, rng):
    chain(r, rng, rng.randint(8, 25), deriv=True)


@scen('C02', 'many-parents', 1)
def c02m(r, rng):
    fan(r, rng, deriv=True)


@scen('C02', 'derivatives-first', 2)
def c02f(r, rng):
    """derivatives asked before any value, then changes, then derivatives again"""
    P = G.Prog(r, rng, S.MIX, maxsize=9)
    top = S.program(P, ARITH + ['inv', 'power', 'amax', 'cross', 'norm'], (2, 3), (4, 8))
    if top is None:
        return
    kinds = [k for k, w in HM.items() for _ in range(w)]
    for _ in range(rng.randint(2, 5)):
        S.observe_some(r, rng, 0, 3, ('fwd', 'fwd', 'rev', 'lop', 'lmult'), 'leaf', top)
        for _ in range(rng.randint(1, 3)):
            S.MUT[rng.choice(kinds)](P)
    S.observe_some(r, rng, 2, 3, ('fwd', 'fwd', 'rev'), 'leaf', top)


def chain(r, rng, depth, deriv):
    P = G.Prog(r, rng, S.MIX, maxsize=8)
    sh = rng.choice([(2,), (3,), (1, 2), (2, 2)])
    a = P.new_leaf(sh, -1, 1)
    b = P.new_leaf(rng.choice([sh, (1,)]), -1, 1)
    n = a
    nodes = []
    for i in range(depth):
        o = rng.choice(['add', 'subtract', 'negative', 'sin', 'user', 'usq', 'transpose', 'multiply', 'identity'])
        if o in ('add', 'subtract', 'multiply', 'usq'):
            args, p = [n, b], {}
        elif o == 'user':
            args, p = [n, b], {'k': rng.choice([-1, 1])}
        else:
            args, p = [n], ({'axes': []} if o == 'transpose' else {})
        if not r.can(o, args, p, 40):
            continue
        if len(sh) == 2 and o == 'transpose':
            continue
        n = r.node(o, args, p)
        nodes.append(n)
    if not nodes:
        return
    mid = nodes[len(nodes) // 2]
    for _ in range(rng.randint(2, 4)):
        rs = [n] + ([rng.choice(nodes)] if rng.random() < .5 else [])
        ds = [(n, w, rng.choice(['fwd', 'fwd', 'rev', 'lop', 'lmult'])) for w in (a, b) if w in r.below(n)] if deriv else []
        if deriv and mid != n and rng.random() < .5:
            ds.append((n, mid, 'fwd'))
        r.observe(rs, ds)
        k = rng.random()
        if k < .6:
            S.m_setleaf(P, 0)
        elif k < .8:
            S.m_rewire(P, .9, .2)
        else:
            S.m_setparam(P)
    r.observe([n], [])


def fan(r, rng, deriv):
    """one variable below many expressions, joined at the top"""
    P = G.Prog(r, rng, S.MIX, maxsize=9)
    sh = rng.choice([(2,), (3,), (2, 2), (1, 3)])
    a = P.new_leaf(sh, -2, 2)
    outs = []
    for _ in range(rng.randint(4, 10)):
        o = rng.choice(['negative', 'square', 'sin', 'add', 'multiply', 'user', 'usq', 'sum', 'getitem', 'ravel', 'exp'])
        p = {}
        if o in ('add', 'multiply', 'user', 'usq'):
            args = [a, a if rng.random() < .4 else rng.choice([x for x in [a] + outs if r.shape(x) == sh] or [a])]
            if o == 'user':
                p = {'k': rng.choice([2, -1])}
        else:
            args = [a]
            p = G.params(rng, o, sh) or {}
        if r.can(o, args, p, 60):
            outs.append(r.node(o, args, p))
    flat = [r.node('ravel', [x]) for x in outs]
    if not flat:
        return
    top = r.node('concatenate', flat, {'axis': 0})
    top2 = r.node('sum', [top], {'axis': NONE})
    for _ in range(rng.randint(2, 4)):
        n = rng.choice([top, top2])
        r.observe([n] + ([rng.choice(outs)] if rng.random() < .5 else []),
                  [(n, a, rng.choice(['fwd', 'rev', 'lop', 'lmult']))] if deriv else [])
        rng.choice([S.m_setleaf, S.m_setleaf, S.m_setitem, S.m_rewire])(P)
        if rng.random() < .2:
            r.gc()
    r.observe([top, top2], [(top2, a, 'fwd')] if deriv and a in r.below(top2) else [])


# ------------------------------------------------------------------ C03 / C04: chain rule and modes
DAG = ['add', 'subtract', 'multiply', 'multiply', 'square', 'sin', 'cos', 'negative', 'sum', 'mean', 'dot', 'transpose', 'getitem', 'concatenate',
       'vstack', 'reshape', 'user', 'usq', 'usq', 'utri', 'utri', 'usum', 'ualias', 'divide', 'SumOfSquares', 'exp', 'identity', 'maximum', 'clip', 'tile', 'repeat', 'amax', 'power',
       'floor', 'diag', 'cross', 'inv', 'cumsum0', 'roll', 'hstack', 'dstack', 'tensordot', 'norm', 'atleast']


@scen('C03', 'dag', 6)
def c03(r, rng):
    P = G.Prog(r, rng, DAG, maxsize=8, consts=.08, leafrange=rng.choice([(-2, 2), (.25, 2)]))
    S.program(P, DAG, (1, 3), (6, 14), [(1,), (2,), (3,), (2, 2), (1, 2), (2, 1), (2, 3)])
    look_dag(r, rng, ('fwd', 'rev'))


@scen('C03', 'ladder', 2)
def c03l(r, rng):
    """exponentially many paths: x_{k+1} = f(x_k, x_k or x_{k-1})"""
    sh = rng.choice([(1,), (2,), (2, 2)])
    a = r.leaf(G.values(rng, sh, -1, 1))
    b = r.leaf(G.values(rng, sh, -1, 1))
    xs = [a, b]
    for _ in range(rng.randint(5, 14)):
        o = rng.choice(['add', 'subtract', 'multiply', 'usq', 'user'])
        args = [xs[-1], rng.choice(xs[-3:])]
        rng.shuffle(args)
        p = {'k': rng.choice([-1, 2])} if o == 'user' else {}
        if r.can(o, args, p, 50):
            xs.append(r.node(o, args, p))
        elif r.can('sin', [xs[-1]]):
            xs.append(r.node('sin', [xs[-1]]))
    top = xs[-1]
    ws = [w for w in r.below(top) if w != top]
    r.observe([top], [(top, w, rng.choice(['fwd', 'rev'])) for w in rng.sample(ws, min(4, len(ws)))])


@scen('C03', 'wrt-inner', 2)
def c03i(r, rng):
    P = G.Prog(r, rng, DAG, maxsize=8, consts=.05)
    S.program(P, DAG, (1, 3), (5, 10), [(1,), (2,), (3,), (2, 2), (2, 1)])
    look_dag(r, rng, ('fwd', 'rev'), inner=True)


@scen('C03', 'three-operands', 1)
def c03t(r, rng):
    """several of the operands of one node depend on the variable; asked more than once"""
    x = r.leaf(G.values(rng, rng.choice([(1,), (2,), (3,), (2, 2)]), -2, 2))
    ops_ = rng.random() < .5 and r.shape(x) != (1,)
    forms = ['dense', 'csc', 'lop', 'lop'] if ops_ else ['dense', 'csc', 'csr', 'coo']
    fs = [x] + [r.node(o, [x]) for o in rng.sample(['negative', 'square', 'sin', 'cos', 'arctan', 'identity'], 3)]
    top = None
    for _ in range(rng.randint(1, 4)):
        a = [rng.choice(fs) for _ in range(3)]
        p = {'k': rng.choice([-2, -1, 2, 3]), 'how': rng.choice(forms)}
        if not r.can('utri', a, p, 60):
            continue
        top = r.node('utri', a, p)
        fs.append(top)
        if rng.random() < .3:
            o = rng.choice(['negative', 'sin', 'add', 'multiply'])
            a2 = [top] if o in ('negative', 'sin') else [top, rng.choice(fs)]
            if r.can(o, a2, {}, 60):
                fs.append(r.node(o, a2))
    if top is None:
        return
    tops = [n for n in fs if r.g[n]['op'] != 'leaf']
    for _ in range(rng.randint(2, 3)):
        ds = [(n, w, rng.choice(['fwd', 'fwd', 'fwd' if ops_ else 'rev'])) for n in rng.sample(tops, min(2, len(tops))) for w in [x] + rng.sample(fs, 1)
              if w in r.below(n) and w != n]
        r.observe([fs[-1]], ds + ds[:2])
        if rng.random() < .5:
            r.setleaf(x, G.values(rng, r.shape(x), -2, 2))


def look_dag(r, rng, modes, inner=False, k=6):
    ids = [n for n in r.ids() if r.alive(n) and r.g[n]['op'] != 'leaf' and not S.noderiv(r, n)]
    if not ids:
        return
    ds = []
    for n in ids[-3:]:
        for w in r.below(n):
            if r.alive(w) and w != n and (r.g[w]['op'] == 'leaf') != inner:
                ds.append((n, w, rng.choice(modes)))
    rng.shuffle(ds)
    free = [w for w in r.ids() if r.alive(w) and w not in r.below(ids[-1]) and r.g[w]['op'] == 'leaf']
    if free:
        ds.insert(0, (ids[-1], rng.choice(free), rng.choice(modes)))    # an independent variable
    r.observe([ids[-1]], ds[:k])


@scen('C04', 'all-modes', 5)
def c04(r, rng):
    P = G.Prog(r, rng, DAG, maxsize=8, consts=.08)
    S.program(P, DAG, (1, 3), (4, 10), [(1,), (2,), (3,), (2, 2), (1, 2), (2, 1)])
    ids = [n for n in r.ids() if r.alive(n) and r.g[n]['op'] != 'leaf' and not S.noderiv(r, n)]
    if not ids:
        return
    for rep in range(rng.choice([1, 2])):
        n = rng.choice(ids[-3:])
        ws = [w for w in r.below(n) if r.alive(w) and w != n and r.g[w]['op'] == 'leaf']
        free = [w for w in r.ids() if r.alive(w) and w not in r.below(n) and r.g[w]['op'] == 'leaf']
        ws = rng.sample(ws, min(2, len(ws))) + free[:1]
        r.observe([], [(n, w, m) for w in ws for m in S.ALLM])
        S.m_setleaf(P, 0)


@scen('C04', 'after-changes', 3)
def c04h(r, rng):
    S.history(r, rng, DAG, rng.randint(2, 4), HM, nr=1, nd=4, modes=S.ALLM, wrt=rng.choice(['leaf', 'leaf', 'any']), maxsize=8)


@scen('C04', 'sparse-dense', 2)
def c04s(r, rng):
    """operations with sparse, dense and number-valued Jacobians meeting in one expression"""
    ops_ = ['MatVec', 'sum', 'SumOfSquares', 'getitem', 'dot', 'inv', 'add', 'multiply', 'usq', 'utri', 'mean', 'norm', 'reshape', 'cumsum0', 'matvec', 'det',
            'amax', 'concatenate']
    ops_ = [o for o in ops_ if o != 'MatVec']
    P = G.Prog(r, rng, ops_, maxsize=8)
    S.program(P, ops_, (1, 2), (4, 8), [(1,), (2,), (3,), (2, 2), (1, 1)])
    ids = [n for n in r.ids() if r.alive(n) and r.g[n]['op'] != 'leaf' and not S.noderiv(r, n)]
    if ids:
        n = ids[-1]
        ws = [w for w in S.leaves(r, n)]
        r.observe([n], [(n, w, m) for w in ws[:2] for m in S.ALLM])


# ------------------------------------------------------------------ C05..C08, C11: operations against NumPy semantics
def opgroup(prop, name, ops_, weight=1, **kw):
    @scen(prop, name, weight)
    def f(r, rng):
        S.opcase(r, rng, rng.choice(ops_), **kw)
    return f


opgroup('C05', 'arithmetic', G.BINARY + ['NanDivide', 'negative', 'absolute', 'square', 'reciprocal'], 4, deriv=False)
opgroup('C05', 'functions', G.UNARY + G.FLAT + ['clip', 'nan_to_num', 'ipower', 'ipower'], 2, deriv=False)
opgroup('C05', 'reductions', ['sum', 'mean', 'amax', 'amin', 'nanmax', 'nanmin', 'cumsum', 'moment', 'SumOfSquares'], 2, deriv=False)
opgroup('C05', 'shapes', G.REORDER + G.STACK, 2, deriv=False)
opgroup('C05', 'compare', G.COMPARE, 1, deriv=False)
opgroup('C06', 'unary', G.UNARY + ['clip', 'ipower', 'ipower', 'ipower'], 5, extra=1)
opgroup('C06', 'binary', G.BINARY, 5, extra=1)
@scen('C06', 'undefined-to-zero', 2)
def c06n(r, rng):
    """division with zeros in both places"""
    def vals(sh):
        return np.array([rng.choice([0., 0., 0., 1., -1., 2., .5, -1.5, 3.]) for _ in range(int(np.prod(sh)))]).reshape(sh)
    sh = rng.choice(G.SHAPES)
    a = r.leaf(vals(sh), rng.choice(['Ch', 'Ch', 'raw']))
    b = a if rng.random() < .08 and a not in r.raw else r.leaf(vals(G.bshape(rng, sh)), 'Ch')
    if rng.random() < .3 and r.can('multiply', [b, a]):
        b = r.node(rng.choice(['multiply', 'add', 'subtract']), [b, a])
    x = r.node('NanDivide', [b, a] if rng.random() < .4 else [a, b])
    top = r.node('negative', [x]) if rng.random() < .3 else x
    for _ in range(rng.randint(2, 4)):
        lv = [m for m in S.leaves(r, top) if m not in r.raw]
        r.observe([top], [(top, w, rng.choice(S.ALLM)) for w in lv])
        w = rng.choice(lv)
        r.setleaf(w, vals(r.shape(w)), rng.choice(['x', 'all']))


opgroup('C06', 'flat', G.FLAT + ['gamma'], 1, extra=1)
opgroup('C07', 'sum-mean', ['sum', 'mean', 'SumOfSquares', 'norm', 'moment'], 3, extra=1)
opgroup('C07', 'extrema', ['amax', 'amin', 'nanmax', 'nanmin', 'maximum', 'minimum'], 3, extra=1)
opgroup('C07', 'cumsum', ['cumsum'], 1, extra=1)
opgroup('C08', 'reorder', G.REORDER, 6, extra=1)
opgroup('C08', 'stack', G.STACK, 3, extra=1)
opgroup('C11', 'products', ['dot', 'tensordot', 'cross', 'matvec', 'norm'], 5, extra=1)
opgroup('C11', 'solve', ['inv', 'det', 'logabsdet', 'signdet', 'logabsdets'], 3, extra=1)
opgroup('C11', 'lsq', ['pinv', 'lstsq', 'lstsq_res'], 2, extra=1, below=0, above=0)
opgroup('C24', 'compare', G.COMPARE, 3, extra=2)
opgroup('C24', 'logic', ['logic'], 3, extra=2)


@scen('C05', 'reflected', 2)
def c05r(r, rng):
    """plain numbers and arrays on either side of an operator"""
    sh = rng.choice(G.SHAPES)
    a = r.leaf(G.values(rng, sh, .25, 3))
    c = r.leaf(G.values(rng, rng.choice([(1,), sh]), .25, 3), rng.choice(['raw', 'rawnum']) if rng.random() < .5 else 'raw')
    o = rng.choice(['add', 'subtract', 'multiply', 'divide', 'power', 'greater', 'less', 'greater_equal', 'less_equal', 'not_equal'])
    args = [a, c] if rng.random() < .5 else [c, a]
    if r.objs[c].__class__ is float and False:
        return
    if o == 'power' and not r.can(o, args):
        return
    x = r.node(o, args, {}, 'op')
    r.observe([x], [(x, a, 'fwd')])


def create_some(r, rng):
    ch = r.ch
    f = rng.choice(['ones', 'zeros', 'ones_like', 'zeros_like', 'eye', 'identity', 'tri', 'arange', 'linspace', 'logspace',
                    'fromfunction', 'array', 'fromiter', 'asarray'])
    fn = getattr(ch, f)
    sh = rng.choice(G.SMALL)
    if f in ('ones', 'zeros'):
        arg = sh if len(sh) > 1 or rng.random() < .5 else sh[0]
        return r.create(f, {'s': list(sh)}, lambda: fn(arg), getattr(np, f)(sh))
    if f in ('ones_like', 'zeros_like'):
        return r.create(f, {'s': list(sh)}, lambda: fn(np.full(sh, 2.5)), getattr(np, f)(np.full(sh, 2.5)))
    n, m, k = rng.randint(1, 4), rng.randint(1, 4), rng.randint(-2, 2)
    if f in ('eye', 'tri'):
        if rng.random() < .3:
            return r.create(f, {'n': n, 'm': n, 'k': 0}, lambda: fn(n), getattr(np, f)(n))
        return r.create(f, {'n': n, 'm': m, 'k': k}, lambda: fn(n, m, k), getattr(np, f)(n, m, k))
    if f == 'identity':
        return r.create(f, {'n': n, 'm': n, 'k': 0}, lambda: fn(n), np.identity(n))
    if f == 'arange':
        a, c = rng.randint(-4, 4), rng.choice([1, 1, 2, 3, -1, -2])
        b = a + rng.randint(1, 7) * (1 if c > 0 else -1)
        if a == 0 and c == 1 and rng.random() < .7:
            return r.create(f, {'a': 0, 'b': b, 'c': 1}, lambda: fn(b), np.arange(b))
        return r.create(f, {'a': a, 'b': b, 'c': c}, lambda: fn(a, b, c), np.arange(a, b, c))
    if f == 'linspace':
        a, b, n = rng.randint(-4, 4), rng.randint(-4, 4), rng.choice([2, 3, 5])
        return r.create(f, {'a': a, 'b': b, 'n': n}, lambda: fn(a, b, n), np.linspace(a, b, n))
    if f == 'logspace':
        a, n = rng.randint(0, 2), rng.randint(2, 4)
        return r.create(f, {'a': a, 'n': n}, lambda: fn(a, a + n - 1, n, base=2.), np.logspace(a, a + n - 1, n, base=2.))
    if f == 'fromfunction':
        a = rng.randint(-2, 3)
        return r.create(f, {'s': [n, m], 'a': a}, lambda: fn(lambda i, j: a * i + j, (n, m)), np.fromfunction(lambda i, j: a * i + j, (n, m)))
    v = G.values(rng, sh, -2, 2)
    if f == 'fromiter':
        v = v.ravel()
        return r.create(f, {'s': list(v.shape), 'v': [int(round(x * 1e6)) for x in v]}, lambda: fn(iter(v.tolist()), dtype=float), v)
    return r.create(f, {'s': list(v.shape), 'v': [int(round(x * 1e6)) for x in v.ravel()]},
                    lambda: fn(v.copy()) if rng.random() < .5 else fn(v.tolist()), v)


@scen('C05', 'create', 2)
def c05c(r, rng):
    P = G.Prog(r, rng, ['add', 'multiply', 'subtract'], maxsize=16)
    xs = [create_some(r, rng) for _ in range(rng.randint(1, 3))]
    r.observe(xs, [])
    for _ in range(rng.randint(0, 2)):
        a, b = rng.choice(xs), rng.choice(xs)
        o = rng.choice(['add', 'multiply', 'subtract'])
        if r.can(o, [a, b]):
            x = r.node(o, [a, b])
            r.observe([x], [(x, a, rng.choice(S.ALLM))])
    n = rng.choice(xs)
    S.m_setitem(P, views=0, bad=0)
    r.observe(xs, [])


@scen('C05', 'query', 2)
def c05q(r, rng):
    P = G.Prog(r, rng, ['add', 'getitem', 'subtract', 'transpose'], maxsize=12)
    for _ in range(rng.randint(1, 2)):
        P.new_leaf(rng.choice(G.SHAPES))
    for _ in range(rng.randint(0, 3)):
        S.growmix(P, ['add', 'getitem', 'subtract', 'transpose', 'negative'])

    def ask():
        n = rng.choice([m for m in r.ids() if r.alive(m) and m not in r.raw])
        f = rng.choice(['argmax', 'argmin', 'nanargmax', 'nanargmin', 'argwhere', 'nonzero', 'flatnonzero'])
        r.query(n, f, rng.choice([NONE] + list(range(-len(r.shape(n)), len(r.shape(n))))) if 'arg' in f and f != 'argwhere' else NONE)
    for _ in range(rng.randint(2, 4)):
        for _ in range(2):
            ask()
        S.MUT[rng.choice(['setleaf', 'setitem', 'rewire'])](P)
    ask()


CYC = G.REORDER + ['sum', 'mean', 'amax', 'amin', 'clip', 'concatenate', 'dot', 'add', 'multiply', 'maximum', 'matvec', 'cumsum', 'logic', 'user']


@scen('C02', 'parameter-cycle', 4)
def c02p(r, rng):
    S.opcycle(r, rng, [o for o in CYC if o != 'logic'], modes=('fwd', 'rev', 'lop'))


@scen('C02', 'parameter-sweep', 3)
def c02s(r, rng):
    S.opsweep(r, rng, S.SWEEP_REORDER + ['sum', 'mean', 'amax', 'amin', 'sum', 'mean', 'add', 'multiply', 'clip'])


@scen('C06', 'sweep', 2)
def c06s(r, rng):
    S.opsweep(r, rng, G.BINARY + ['clip'])


@scen('C07', 'sweep', 3)
def c07s(r, rng):
    S.opsweep(r, rng, ['sum', 'mean', 'amax', 'amin', 'nanmax', 'nanmin'])


@scen('C08', 'sweep', 4)
def c08s(r, rng):
    S.opsweep(r, rng, S.SWEEP_REORDER)


@scen('C02', 'linalg', 2)
def c02l(r, rng):
    S.linhist(r, rng)


@scen('C01', 'linalg', 2)
def c01l(r, rng):
    S.linhist(r, rng, deriv=False)


@scen('C01', 'parameter-cycle', 2)
def c01p(r, rng):
    S.opcycle(r, rng, CYC, deriv=False)


@scen('C06', 'cycle', 2)
def c06c(r, rng):
    S.opcycle(r, rng, G.BINARY + G.UNARY + ['clip', 'clip', 'ipower'])


@scen('C07', 'cycle', 4)
def c07c(r, rng):
    S.opcycle(r, rng, ['sum', 'mean', 'amax', 'amin', 'nanmax', 'nanmin', 'SumOfSquares', 'maximum', 'minimum', 'sum', 'mean'])


@scen('C08', 'cycle', 5)
def c08c(r, rng):
    S.opcycle(r, rng, G.REORDER + ['concatenate', 'hstack'])


@scen('C08', 'nested-stack', 3)
def c08n(r, rng):
    """stacks of stacks along all sorts of axes"""
    r.nested = True
    P = G.Prog(r, rng, G.STACK, maxsize=20)
    base = rng.choice([(2,), (3,), (1, 2), (2, 2), (2, 1), (2, 2, 1), (1, 2, 2), (2, 1, 2), (1, 1, 2), (2, 2, 2), (1, 1, 1, 2), (2, 1, 1, 1)])
    xs = [P.new_leaf(base) for _ in range(rng.randint(1, 2))]
    lo = list(base)
    lo[rng.randrange(len(lo))] = rng.choice([1, 2, 3])
    xs.append(P.new_leaf(tuple(lo)))
    if rng.random() < .3:
        xs.append(r.node('negative', [rng.choice(xs)]))
    tops = []
    for _ in range(rng.randint(2, 5)):
        for _j in range(12):
            o = rng.choice(['concatenate', 'concatenate', 'concatenate', 'hstack', 'vstack', 'dstack'])
            a = rng.choice(tops[-2:] if tops and rng.random() < .75 else xs + tops)
            sa = r.shape(a)
            p = {'axis': rng.randrange(-len(sa), len(sa))} if o == 'concatenate' else {}
            c = [m for m in xs + tops if r.can(o, [a, m], p)]
            args = [a] + [rng.choice(c) for _ in range(rng.randint(1, 2))] if c else [a]
            if len(args) == 1 or rng.random() < .3:
                t = list(sa)
                k = p.get('axis', 0 if o == 'vstack' or len(t) == 1 else 1 if o == 'hstack' else min(2, len(t) - 1))
                if (o != 'vstack' or len(t) > 1) and (o != 'dstack' or len(t) > 2):
                    t[k] = rng.choice([1, 2])
                args.append(P.new_leaf(tuple(t)))
            rng.shuffle(args)
            if r.can(o, args, p) and int(np.prod(shadow_apply(o, [r.shadow(m) for m in args], p).shape)) <= 48:
                tops.append(r.node(o, args, p))
                break
    if not tops:
        return
    for _ in range(rng.randint(1, 3)):
        n = rng.choice(tops[-2:])
        lv = S.leaves(r, n)
        r.observe([n], [(n, w, rng.choice(S.ALLM)) for w in rng.sample(lv, min(3, len(lv)))])
        S.MUT[rng.choice(['setleaf', 'setleaf', 'resize', 'setitem'])](P)
    r.observe([tops[-1]], [])


@scen('C11', 'histories', 3)
def c11h(r, rng):
    S.linhist(r, rng, modes=S.ALLM)


@scen('C11', 'cycle', 2)
def c11c(r, rng):
    S.opcycle(r, rng, ['dot', 'cross', 'matvec', 'tensordot', 'norm'])


def distinct_sv(X):
    if X.ndim != 2 or min(X.shape) < 1:
        return False
    s = np.linalg.svd(X, compute_uv=False)
    return s.min() > .25 and (s.size == 1 or np.min(-np.diff(s)) > .3)


@scen('C11', 'svd', 3)
def c11svd(r, rng):
    """decompositions of a matrix that keeps changing"""
    sh = rng.choice([(2, 2), (3, 2), (2, 3), (3, 3), (2, 2), (3, 1), (1, 2), (4, 2)])
    for _ in range(60):
        v = G.values(rng, sh, -3, 3)
        if distinct_sv(v):
            break
    else:
        return
    x = r.leaf(v, 'Ch')
    n = x
    k = rng.random()
    if k < .25:
        n = r.node('multiply', [x, r.leaf(np.array([2.]), 'raw')])
    elif k < .4:
        n = r.node('transpose', [x], {'axes': []})
    elif k < .55:
        n = r.node('add', [x, r.leaf(G.values(rng, sh, -1, 1), 'Ch')])
    elif k < .7:
        A = G.values(rng, (sh[0], sh[0]), -2, 2)
        n = r.node('dot', [r.leaf(A, 'Ch'), x])
    if not distinct_sv(r.shadow(n)):
        return
    usv = r.svd_open(n)
    lv = [m for m in S.leaves(r, n) if r.alive(m)]
    for _ in range(rng.randint(1, 4)):
        order = ['U', 'S', 'V', 'dU', 'dS', 'dV']
        rng.shuffle(order)
        r.svd(n, usv, rng.choice(lv), order)
        for _ in range(20):
            m = rng.choice(lv)
            v = G.values(rng, r.shape(m), -3, 3)

            def good():
                old, r.g[m]['val'] = r.g[m]['val'], v
                try:
                    return distinct_sv(r.shadow(n))
                finally:
                    r.g[m]['val'] = old
            if good():
                r.setleaf(m, v, rng.choice(['x', 'set', 'all']))
                break
        if rng.random() < .3:
            o = usv[rng.randrange(3)]
            r.guard(lambda: o.r)
        if rng.random() < .3:                # decompose another matrix from now on
            v = G.values(rng, r.shape(n), -3, 3)
            if distinct_sv(v):
                n2 = r.leaf(v, 'Ch')
                r.svd_replace(n, n2, usv)
                n, lv = n2, [n2]


@scen('C15', 'decomposition', 1)
def c15svd(r, rng):
    c11svd(r, rng)


@scen('C15', 'linalg', 2)
def c15l(r, rng):
    S.linhist(r, rng)


def nanvals(rng, sh, specials=(np.nan,), p=.35):
    v = G.values(rng, sh, -3, 3, 8, True)
    for i in range(v.size):
        if rng.random() < p:
            v.ravel()[i] = rng.choice(specials)
    return v


def nan_case(r, rng, deriv):
    """reductions that skip entries that are not a number"""
    sh = rng.choice([s for s in G.SHAPES if int(np.prod(s)) > 1])
    op = rng.choice(['nanmax', 'nanmin', 'nanmax', 'nanmin', 'nan_to_num'])
    ax = rng.choice([NONE] + list(range(-len(sh), len(sh))))

    def good(v):
        return op == 'nan_to_num' or not np.any(np.all(np.isnan(v), axis=None if ax == NONE else ax))

    def val():
        for _ in range(40):
            v = nanvals(rng, sh, p=rng.choice([.2, .4, .6]))
            if good(v):
                return v
        return G.values(rng, sh, -3, 3, 8, True)
    a = r.leaf(val())
    x = r.node(op, [a], {} if op == 'nan_to_num' else {'axis': ax})
    top = r.node('square', [x]) if rng.random() < .3 else x
    for _ in range(rng.randint(1, 3)):
        r.observe([x, top], [(n, a, rng.choice(S.ALLM)) for n in {x, top}] if deriv else [])
        v = val()
        if rng.random() < .3:
            v = r.g[a]['val'].copy()
            i = rng.randrange(v.size)
            v.ravel()[i] = rng.choice([np.nan, 1.125])
            if not good(v):
                continue
        r.setleaf(a, v)
        if op != 'nan_to_num' and len(sh) > 1 and rng.random() < .3:
            q = {'axis': rng.choice(range(-len(sh), len(sh)))}
            if not np.any(np.all(np.isnan(r.g[a]['val']), axis=q['axis'])):
                ax = q['axis']
                r.setparam(x, q)
    if not deriv:
        r.observe([x], [])


@scen('C07', 'not-a-number', 3)
def c07n(r, rng):
    nan_case(r, rng, True)


@scen('C05', 'not-a-number', 2)
def c05n(r, rng):
    nan_case(r, rng, False)


def nearvals(rng, sh, bases=None):
    """values that differ by a millionth, if at all"""
    bases = bases or [rng.choice([0, 1, 1.5, -2, .125]) for _ in range(rng.randint(1, 2))]
    n = int(np.prod(sh))
    return np.array([round(rng.choice(bases) * 1e6 + rng.choice([0, 0, 1, -1, 2])) / 1e6 for _ in range(n)]).reshape(sh)


def nearcase(r, rng, ops_, deriv=True):
    """operands that are nearly, but not quite, equal"""
    bases = [rng.choice([0, 1, 1.5, -2, .125]) for _ in range(rng.randint(1, 2))]
    sh = rng.choice(G.SHAPES)
    op = rng.choice(ops_)
    a = r.leaf(nearvals(rng, sh, bases))
    args, p, b = [a], {}, None
    if op in G.COMPARE + ['maximum', 'minimum']:
        b = r.leaf(nearvals(rng, rng.choice([sh, (1,), G.bshape(rng, sh)]), bases), rng.choice(['Ch', 'Ch', 'raw']))
        args = [a, b] if rng.random() < .6 or r.objs[b].__class__ is np.ndarray else [b, a]
    elif op in ('amax', 'amin', 'nanmax', 'nanmin', 'sort'):
        p = {'axis': rng.choice([-1] + list(range(len(sh))) + ([NONE] if op != 'sort' else []))}
    elif op == 'clip':
        lo, hi = sorted([float(nearvals(rng, (1,), bases)[0]), float(nearvals(rng, (1,), bases)[0])])
        p = {'lo': {'s': [1], 'v': [int(round(lo * 1e6))]}, 'hi': {'s': [1], 'v': [int(round(hi * 1e6))]}}
    if not r.can(op, args, p):
        return
    x = r.node(op, args, p)
    for _ in range(rng.randint(1, 3)):
        ws = [w for w in {a, b} - {None} if w not in r.raw]
        r.observe([x], [(x, w, rng.choice(S.ALLM)) for w in ws] if deriv else [])
        r.setleaf(a, nearvals(rng, sh, bases))
    r.observe([x], [])


@scen('C24', 'nearly-equal', 3)
def c24n(r, rng):
    nearcase(r, rng, G.COMPARE)


@scen('C07', 'nearly-equal', 1)
def c07n(r, rng):
    nearcase(r, rng, ['amax', 'amin', 'nanmax', 'nanmin'])


@scen('C06', 'nearly-equal', 1)
def c06n(r, rng):
    nearcase(r, rng, ['maximum', 'minimum', 'clip', 'absolute'])


@scen('C05', 'nearly-equal', 1)
def c05near(r, rng):
    nearcase(r, rng, ['floor', 'ceil', 'sign', 'absolute'], False)


@scen('C08', 'nearly-equal', 1)
def c08n(r, rng):
    nearcase(r, rng, ['sort'])


@scen('C24', 'compare-special', 3)
def c24c(r, rng):
    sh = rng.choice(G.SHAPES)
    sp_ = (np.nan, np.inf, -np.inf, 0.)
    op = rng.choice(G.COMPARE)
    a = r.leaf(nanvals(rng, sh, sp_))
    b = r.leaf(nanvals(rng, rng.choice([sh, (1,), G.bshape(rng, sh)]), sp_), rng.choice(['Ch', 'Ch', 'raw']))
    if rng.random() < .3:
        v = np.broadcast_to(r.g[b]['val'], np.broadcast(r.g[b]['val'], r.g[a]['val']).shape).copy()
        if v.shape == sh:
            for i in range(v.size):
                if rng.random() < .5:
                    v.ravel()[i] = rng.choice(sp_)
            r.setleaf(a, v)
    args = [a, b] if rng.random() < .6 or r.objs[b].__class__ is np.ndarray else [b, a]
    if not r.can(op, args):
        return
    x = r.node(op, args)
    for _ in range(rng.randint(1, 3)):
        r.observe([x], [(x, a, rng.choice(S.ALLM))])
        r.setleaf(a, nanvals(rng, sh, sp_))
    r.observe([x], [])


@scen('C24', 'special-values', 2)
def c24s(r, rng):
    sh = rng.choice(G.SMALL)
    v = G.values(rng, sh, -1, 1, 2)
    for _ in range(rng.randrange(0, 4)):
        v.ravel()[rng.randrange(v.size)] = rng.choice([np.nan, np.inf, -np.inf, 0., 0.])
    a = r.leaf(v)
    p = G.params(rng, 'logic', sh)
    x = r.node('logic', [a], p)
    r.observe([x], [(x, a, rng.choice(S.ALLM))])
    r.setleaf(a, G.values(rng, sh, -1, 1, 1))
    r.observe([x], [(x, a, 'fwd')])


# ------------------------------------------------------------------ C09 / C10: views
VM = {'setitem': 6, 'setleaf': 1}
VOPS = ['getitem'] * 6 + ['reshape', 'transpose', 'swapaxes', 'rollaxis', 'roll', 'rot90', 'ravel', 'squeeze', 'expand_dims', 'fliplr', 'flipud']
VSH = [(4,), (5,), (6,), (2, 3), (3, 2), (3, 4), (2, 2, 2), (2, 1, 3), (1, 4), (4, 1), (2, 3, 2), (1,), (2, 2, 1, 2)]


@scen('C09', 'views', 5)
def c09(r, rng):
    P = G.Prog(r, rng, VOPS, maxsize=16)
    for _ in range(rng.choice([1, 1, 2])):
        P.new_leaf(rng.choice(VSH), distinct=True)
    for _ in range(rng.randint(2, 5)):
        S.growmix(P, VOPS)
    for _ in range(rng.randint(0, 2)):
        S.growmix(P, ['add', 'sum', 'square', 'multiply'])
    for _ in range(rng.randint(2, 5)):
        if rng.random() < .5:
            S.observe_some(r, rng, 3, 0)
        S.m_setitem(P, .75, .12)
        r.observe([n for n in r.ids() if r.alive(n)][:10], [])


@scen('C09', 'reads', 2)
def c09r(r, rng):
    a = r.leaf(G.values(rng, rng.choice(VSH + G.SHAPES), -3, 3, 8, True))
    for _ in range(4):
        p = G.params(rng, 'getitem', r.shape(a))
        if r.can('getitem', [a], p):
            x = r.node('getitem', [a], p)
            r.observe([x], [(x, a, rng.choice(S.ALLM))])


@scen('C09', 'assignment', 2)
def c09a(r, rng):
    """writing to a variable through every sort of key and value"""
    P = G.Prog(r, rng, VOPS, maxsize=16)
    a = P.new_leaf(rng.choice(VSH + G.SHAPES), how=rng.choice(['Ch', 'list', 'int', 'later', 'array']))
    x = S.growmix(P, ['square', 'getitem', 'sum', 'negative'])
    for _ in range(4):
        if S.m_setitem(P, .3, 0):
            r.observe([a] + ([x] if x else []), [])


@scen('C09', 'refused', 3)
def c09b(r, rng):
    """assignments to expressions that are not rearrangements of a variable"""
    P = G.Prog(r, rng, S.MIX, maxsize=12, leafrange=rng.choice([(-3, 3), (.25, 3)]))
    ops_ = [o for o in S.MIX if o not in VOPS] + ['pinv', 'lstsq', 'logabsdet', 'matvec', 'nan_to_num', 'logic', 'ceil', 'sign', 'moment', 'user']
    for _ in range(rng.randint(1, 2)):
        P.new_leaf(rng.choice(VSH + G.SMALL))
    for _ in range(rng.randint(2, 4)):
        S.growmix(P, ops_)
    for _ in range(rng.randint(0, 2)):
        S.growmix(P, VOPS)
    if rng.random() < .6:
        r.observe([n for n in r.ids() if r.alive(n)][:10], [])
    for _ in range(rng.randint(2, 4)):
        S.m_badassign(P)
        if rng.random() < .5:
            S.m_setitem(P, .5, 0)
        S.observe_some(r, rng, 4, 0)
    r.observe([n for n in r.ids() if r.alive(n)][:12], [])


@scen('C10', 'view-wrt', 5)
def c10(r, rng):
    viewcase(r, rng, VOPS)


def viewcase(r, rng, vops):
    P = G.Prog(r, rng, VOPS, maxsize=12)
    P.new_leaf(rng.choice(VSH), distinct=True)
    if rng.random() < .3:
        P.new_leaf(rng.choice(VSH))
    if rng.random() < .3:
        S.growmix(P, ['square', 'sin', 'multiply'])
    for _ in range(rng.randint(1, 4)):
        S.growmix(P, vops)
    views = [n for n in r.ids() if r.g[n]['op'] in VIEW_OPS]
    for _ in range(rng.randint(1, 4)):
        S.growmix(P, ['square', 'sum', 'multiply', 'sin', 'dot', 'add', 'usq', 'concatenate', 'vstack', 'getitem', 'mean'])
    tops = [n for n in r.ids() if r.alive(n) and r.g[n]['op'] != 'leaf']
    for rep in range(2):
        ds = []
        for _ in range(5):
            if views:
                ds.append((rng.choice(tops[-4:]), rng.choice(views), rng.choice(S.ALLM if rng.random() < .3 else ('fwd', 'rev'))))
        r.observe([tops[-1]] if tops else [], ds)
        if rng.random() < .6:
            S.m_setitem(P, .7, 0)
        else:
            S.m_setleaf(P, 0)


@scen('C10', 'view-of-view', 3)
def c10v(r, rng):
    a = r.leaf(G.values(rng, rng.choice([(6,), (3, 4), (2, 3, 2), (4, 3)]), -2, 2, 8, True))
    v = a
    views = []
    for _ in range(rng.randint(2, 3)):
        p = G.params(rng, 'getitem', r.shape(v))
        if r.can('getitem', [v], p):
            v = r.node('getitem', [v], p)
            views.append(v)
    if not views:
        return
    sq = r.node('square', [a])
    m = r.node('multiply', [rng.choice(views), r.leaf(G.values(rng, (1,), 1, 3))])
    q = r.node('sum', [r.node('usq', [views[-1], views[-1]])], {'axis': NONE})
    r.observe([q], [(n, w, rng.choice(['fwd', 'rev', 'fwd'])) for w in views for n in (sq, m, q)])


@scen('C03', 'terms-left-out', 1)
@scen('C10', 'terms-left-out', 1)
def c10l(r, rng):
    sh = rng.choice([(4,), (2, 3), (3, 3), (2, 2)])
    x = r.leaf(G.values(rng, sh, -2, 2, 8, True))
    a = rng.choice([x, r.node('square', [x])])
    views = []
    for _ in range(rng.randint(1, 3)):
        v = rng.choice([a, x] + views)
        op = rng.choice(['getitem', 'getitem', 'transpose', 'reshape', 'roll'])
        p = G.params(rng, op, r.shape(v))
        if p is not None and r.can(op, [v], p):
            views.append(r.node(op, [v], p))
    tops = []
    for v in views * 2:
        q = rng.choice([a, x] + views)
        p = {'k': rng.choice([0, 0, 1])}
        ar = [q, v] if rng.random() < .8 else [v, q]
        if r.can('ulazy', ar, p):
            tops.append(r.node('ulazy', ar, p))
            if rng.random() < .4:
                tops.append(r.node(rng.choice(['sin', 'square', 'ravel']), [tops[-1]], {}))
            if rng.random() < .3:
                tops.append(r.node('usq', [tops[-1], tops[-1]]))
    if not tops:
        return
    P = G.Prog(r, rng, S.MIX)
    for _ in range(rng.randint(1, 3)):
        r.observe([rng.choice(tops)], [(n, x, rng.choice(S.ALLM)) for n in rng.sample(tops, min(3, len(tops)))])
        k = rng.random()
        us = [n for n in tops if r.g[n]['op'] == 'ulazy']
        if k < .5:
            n = rng.choice(us)
            p = {'k': 1 - r.g[n]['p']['k']}

            def do():
                r.g[n]['p'] = p
            if S.try_change(r, do):
                r.setparam(n, p, 'attr')
        else:
            S.m_setleaf(P, 0)


# ------------------------------------------------------------------ C12 / C13: callbacks
PROPS = ['pa', 'pbk', 'pab', 'pl', 'pk', 'pn']
UOPS = ['user', 'usq', 'user', 'usq', 'add', 'sum', 'negative', 'getitem', 'multiply']


@scen('C12', 'notifications', 5, hooks=True)
def c12(r, rng):
    S.history(r, rng, UOPS, rng.randint(4, 9), HM, nr=2, nd=1, nnode=(3, 9), growth=.06, modes=('fwd', 'rev', 'lop', 'lmult'), maxsize=9)


@scen('C12', 'several-terms-at-once', 2, hooks=True)
def c12s(r, rng):
    S.history(r, rng, ['user', 'usq', 'user', 'add'], rng.randint(4, 8), {'setmany': 4, 'setleaf': 2, 'setparam': 2, 'rewire': 2}, nr=2, nd=1,
              nnode=(2, 5), growth=.05, maxsize=9)


@scen('C12', 'failing-callbacks', 2, hooks=True)
def c12f(r, rng):
    S.history(r, rng, UOPS, rng.randint(4, 8), HM, nr=2, nd=1, nnode=(3, 8), growth=.06, modes=('fwd', 'rev', 'lop', 'lmult'), maxsize=9, faults=.7)


@scen('C12', 'writes-between-reads', 3, hooks=True)
def c12w(r, rng):
    P = G.Prog(r, rng, UOPS, maxsize=9)
    top = S.program(P, UOPS, (2, 3), (4, 8))
    kinds = [k for k, w in HM.items() for _ in range(w)]
    for _ in range(rng.randint(3, 6)):
        for _ in range(rng.randint(1, 5)):
            S.MUT[rng.choice(kinds)](P)
        for _ in range(rng.randint(1, 3)):
            S.observe_some(r, rng, 1, 0, top=top)


@scen('C12', 'read-when-needed', 2, hooks=True)
@scen('C01', 'read-when-needed', 1, hooks=True)
def c12l(r, rng):
    ops_ = ['ulazy', 'ulazy', 'ulazy', 'user', 'add', 'negative', 'getitem', 'usq']
    S.history(r, rng, ops_, rng.randint(4, 9), dict(HM, setparam=5), nr=2, nd=1, nnode=(5, 10), growth=.06, modes=('fwd', 'rev'), maxsize=9)


def props(r, rng, k=2):
    us = [n for n in r.ids() if r.alive(n) and r.g[n]['op'] == 'user']
    for _ in range(k):
        if us:
            r.prop(rng.choice(us), rng.choice(PROPS))


@scen('C13', 'memo', 4, hooks=True)
def c13(r, rng):
    P = G.Prog(r, rng, UOPS, maxsize=9)
    S.program(P, UOPS, (2, 3), (3, 7))
    if not any(r.g[n]['op'] == 'user' for n in r.ids()):
        P.grow('user')
    kinds = [k for k, w in HM.items() for _ in range(w)]
    for _ in range(rng.randint(4, 9)):
        if rng.random() < .2:
            S.fault(r, rng)
        props(r, rng, rng.randint(1, 3))
        if rng.random() < .4:
            S.observe_some(r, rng, 1, 0)
        for _ in range(rng.randint(0, 2)):
            S.MUT[rng.choice(kinds)](P)
    props(r, rng, 4)


@scen('C13', 'memo-below-a-chain', 2, hooks=True)
def c13b(r, rng):
    sh = rng.choice([(2,), (3,)])
    a = r.leaf(G.values(rng, sh, -2, 2))
    b = r.leaf(G.values(rng, sh, -2, 2))
    x = r.node('user', [a, b], {'k': 2})
    m = r.node('add', [x, a])
    y = r.node('user', [m, rng.choice([b, x, a])], {'k': -1})
    z = r.node('user', [b, y], {'k': 3})
    P = G.Prog(r, rng, UOPS)
    for _ in range(rng.randint(3, 8)):
        for n in rng.sample([x, y, z], 2):
            r.prop(n, rng.choice(PROPS))
        k = rng.random()
        if k < .5:
            S.m_setleaf(P, 0)
        elif k < .7:
            S.m_setparam(P)
        elif k < .85:
            S.m_setmany(P)
        else:
            S.m_rewire(P, .9, .3)
        if rng.random() < .3:
            r.observe([rng.choice([x, y, z])], [])


# ------------------------------------------------------------------ C14: copies
@scen('C14', 'copy-then-diverge', 5)
def c14(r, rng, ops_=S.MIX):
    P = G.Prog(r, rng, ops_, maxsize=9)
    top = S.program(P, ops_, (1, 3), (3, 7))
    if top is None:
        return
    if rng.random() < .6:
        S.observe_some(r, rng, 3, 2, ('fwd',), 'leaf', top)
    mp = S.m_copy(P)
    kinds = [k for k, w in HM.items() for _ in range(w)]
    for _ in range(rng.randint(2, 5)):
        for _ in range(rng.randint(1, 2)):
            S.MUT[rng.choice(kinds)](P)
        if rng.random() < .2:
            S.m_copy(P)
        S.observe_some(r, rng, 4, 2, ('fwd', 'rev', 'lop'), 'leaf', top)


@scen('C14', 'copy-of-copy', 2)
def c14c(r, rng):
    P = G.Prog(r, rng, ARITH, maxsize=9)
    top = S.program(P, ARITH, (1, 2), (2, 5))
    if top is None:
        return
    cur = top
    for _ in range(3):
        mp = r.copy(cur, rng.choice(WAYS))
        if rng.random() < .5:
            r.observe([cur, mp[cur]], [])
        S.m_setleaf(P)
        S.m_setitem(P)
        r.observe([cur, mp[cur], top], [(mp[cur], w, 'fwd') for w in S.leaves(r, mp[cur])[:1] if not S.noderiv(r, mp[cur])])
        cur = mp[cur]


@scen('C13', 'memo-in-copies', 2, hooks=True)
@scen('C14', 'copies-of-user-nodes', 2, hooks=True)
def c14u(r, rng):
    P = G.Prog(r, rng, UOPS, maxsize=9)
    S.program(P, UOPS, (1, 2), (2, 5))
    x = r.leaf(G.values(rng, rng.choice([(2,), (3,)]), -2, 2))
    us = [r.node('user', [x, x] if rng.random() < .5 else [x, r.leaf(G.values(rng, r.shape(x), -2, 2))], {'k': rng.choice([2, -1])})]
    if rng.random() < .5:
        us.append(r.node('user', [us[0], x], {'k': 3}))
    kinds = [k for k, w in HM.items() for _ in range(w)]
    for _ in range(rng.randint(2, 4)):
        props(r, rng, rng.randint(0, 3))
        if rng.random() < .4:
            S.observe_some(r, rng, 1, 1)
        if rng.random() < .5:
            S.MUT[rng.choice(kinds)](P)
        if len(r.g) < 30:
            n = rng.choice(us)
            if any(r.objs[m] is None for m in r.below(n)):
                return
            mp = r.copy(n, rng.choice(S.WAYS))
            if any(r.objs[m] is None for m in mp.values()):
                return
            us += [mp[u] for u in us if u in mp]
            new = us[-1]
        for _ in range(rng.randint(1, 2)):
            for p in rng.sample(PROPS, 2):
                r.prop(rng.choice([new, new, rng.choice(us)]), p)
            ls = [m for m in r.below(new) if r.g[m]['op'] == 'leaf' and r.alive(m)]
            if ls and rng.random() < .6:
                m = rng.choice(ls)
                r.setleaf(m, G.values(rng, r.shape(m), -2, 2))
            else:
                S.MUT[rng.choice(kinds)](P)
            for p in rng.sample(PROPS, 2):
                r.prop(rng.choice([new, new, rng.choice(us)]), p)
        S.observe_some(r, rng, 2, 1)


# ------------------------------------------------------------------ C15: substitution
@scen('C15', 'rewire', 4)
def c15(r, rng):
    S.history(r, rng, S.MIX, rng.randint(3, 6), {'rewire': 6, 'setmany': 2, 'setleaf': 2, 'setitem': 1}, nr=2, nd=2, modes=('fwd', 'rev'), maxsize=9)


@scen('C15', 'replace', 4)
def c15r(r, rng):
    S.history(r, rng, ARITH, rng.randint(3, 6), {'replace': 6, 'setleaf': 2, 'rewire': 1}, nr=2, nd=2, modes=('fwd', 'rev'), maxsize=9)


@scen('C15', 'params', 2)
def c15p(r, rng):
    S.history(r, rng, S.MIX, rng.randint(3, 6), {'setparam': 6, 'setleaf': 1, 'rewire': 1}, nr=2, nd=2, modes=('fwd', 'rev'), maxsize=9)


@scen('C15', 'notified', 2, hooks=True)
def c15n(r, rng):
    S.history(r, rng, UOPS, rng.randint(3, 6), {'replace': 3, 'rewire': 3, 'setmany': 1, 'setleaf': 1}, nr=2, nd=1, nnode=(3, 7), maxsize=9)


# ------------------------------------------------------------------ C16: redundancy removal
@scen('C16', 'dedupe', 5)
def c16(r, rng):
    """expressions with deliberate duplicates"""
    P = G.Prog(r, rng, ARITH, maxsize=9)
    DED = ['add', 'subtract', 'multiply', 'square', 'negative', 'sin', 'sum', 'getitem', 'reshape', 'transpose', 'user', 'usq', 'concatenate', 'dot',
           'mean', 'amax', 'clip', 'tile', 'diag', 'roll', 'sort']
    S.program(P, DED, (1, 3), (3, 6))
    inner = [n for n in r.ids() if r.g[n]['op'] != 'leaf']
    mp = {}
    for n in inner:                       # rebuild some of them
        if rng.random() < .7:
            nd = r.g[n]
            a = [mp.get(x, x) if rng.random() < .8 else x for x in nd['a']]
            op = nd['op']
            p = nd['p']
            if rng.random() < .25:
                q = S.new_param(P, n)
                if q is not None and r.can(op, a, q):
                    p = q                 # same operation, other parameters: not redundant
            if op == 'concatenate':
                continue
            if len(a) > 1 and rng.random() < .25 and r.can(op, a[::-1], p):
                a = a[::-1]               # same operation, operands exchanged: not redundant
            if r.can(op, a, p):
                mp[n] = r.node(op, a, p)
    flat = []
    for n in list(mp.keys()) + list(mp.values()):
        flat.append(r.node('ravel', [n]))
    if not flat:
        return
    rng.shuffle(flat)
    top = flat[0]
    for k in range(0, len(flat[1:9])):
        top = r.node('add', [r.node('sum', [top], {'axis': NONE}) if r.shape(top) != (1,) else top, r.node('sum', [flat[1 + k]], {'axis': NONE})])
    if not r.domain_ok([top]):
        return
    if rng.random() < .5:
        r.observe([top], [])
    if all(all(S.attr_ok(r, m, i) for i in range(len(r.g[m]['a']))) for m in r.below(top) if r.g[m]['op'] != 'leaf'):
        r.dedupe(top)
    r.observe([top], [(top, w, 'fwd') for w in S.leaves(r, top)[:2] if not S.noderiv(r, top)])
    for _ in range(rng.randint(1, 3)):
        S.m_setleaf(P, 0)
        r.observe([top] + list(mp.values())[:2], [(top, w, rng.choice(['fwd', 'rev'])) for w in S.leaves(r, top)[:2] if not S.noderiv(r, top)])
    if rng.random() < .5:
        S.m_dedupe(P)
        r.observe([top], [])


@scen('C16', 'equal-variables', 2)
def c16v(r, rng):
    """variables that happen to be equal stay separate variables"""
    sh = rng.choice([(2,), (3,), (2, 2), (1,)])
    v = G.values(rng, sh, -2, 2)
    a = r.leaf(v)
    b = r.leaf(v)
    c = r.leaf(G.values(rng, sh, -2, 2))
    f = [r.node('square', [x]) for x in (a, b, a)]
    g = [r.node(rng.choice(['usq', 'add']), [f[0], c]), r.node(rng.choice(['usq', 'add']), [f[1], c])]
    t = r.node('add', [r.node('add', g), r.node('multiply', [f[2], f[0]])])
    if rng.random() < .5:
        r.observe([t], [(t, a, 'fwd')])
    r.dedupe(t)
    r.observe([t], [(t, a, 'fwd'), (t, b, 'rev')])
    r.setleaf(rng.choice([a, b]), G.values(rng, sh, -2, 2))
    r.observe([t, g[0], g[1]], [(t, a, 'fwd'), (t, b, 'fwd'), (t, c, 'fwd')])


@scen('C16', 'again', 2)
def c16a(r, rng):
    """redundancy is removed, expressions change, and it is removed again from new ones"""
    sh = rng.choice([(2,), (3,), (2, 2), (1,)])
    ls = [r.leaf(G.values(rng, sh, -2, 2)) for _ in range(3)]
    P = G.Prog(r, rng, ARITH, maxsize=9)
    OPS_ = [('add', 2), ('multiply', 2), ('subtract', 2), ('square', 1), ('sin', 1), ('usq', 2), ('roll', 1), ('sum', 1), ('clip', 1)]
    made = []

    def build(recipe):
        ids = list(ls)
        for op, a, p in recipe:
            ids.append(r.node(op, [ids[i] for i in a], p))
        t = ids[-1]
        return ids[3:], r.node('multiply', [t, r.leaf(G.values(rng, r.shape(t), 1, 3), 'raw')])
    recipe = []
    shs = [sh] * 3
    for _ in range(rng.randint(1, 3)):
        op, k = rng.choice(OPS_)
        a = [rng.choice(range(max(0, len(shs) - 3), len(shs))) for _ in range(k)]
        if len(recipe):
            a[0] = len(shs) - 1
        if len(set(shs[i] for i in a)) > 1:
            continue
        recipe.append((op, a, G.params(rng, op, shs[a[0]])))
        shs.append(sh if op != 'sum' else None)
        if op == 'sum':
            break
    if not recipe:
        return
    for _ in range(rng.randint(2, 3)):
        for op, a, p in recipe[:1]:
            if not r.can(op, [ls[i] for i in a], p):
                return
        inner, top = build(recipe)
        made.append((inner, top))
        if not r.domain_ok([top]):
            return
        if rng.random() < .5:
            r.observe([top], [])
        r.dedupe(top)
        if rng.random() < .3:
            k = r.node('add', [r.node('sum', [t], {'axis': NONE}) for _, t in (made * 2)[:2]])
            r.dedupe(k)
            r.observe([k], [])
        n = rng.choice(inner)
        if rng.random() < .7:
            i = rng.randrange(len(r.g[n]['a']))
            m = r.leaf(G.values(rng, r.shape(r.g[n]['a'][i]), -2, 2)) if rng.random() < .5 else rng.choice(ls)
            if r.shape(m) == r.shape(r.g[n]['a'][i]) and S.attr_ok(r, n, i) and n not in r.below(m):
                r.rewire(n, i, m)
        else:
            S.m_setparam(P)
        if not r.domain_ok([t for _, t in made]):
            return
        if rng.random() < .5:
            r.observe([t for _, t in made], [])
    for _ in range(2):
        r.observe([t for _, t in made], [(t, w, rng.choice(['fwd', 'rev'])) for _, t in made for w in S.leaves(r, t)[:2] if not S.noderiv(r, t) and w not in r.raw])
        r.setleaf(rng.choice(ls), G.values(rng, sh, -2, 2))
        if not r.domain_ok([t for _, t in made]):
            return
    r.observe([t for _, t in made], [])


# ------------------------------------------------------------------ C17: lambda, handle, group
BODY = ['add', 'subtract', 'multiply', 'square', 'sin', 'sum', 'getitem', 'negative', 'reshape', 'transpose', 'concatenate', 'dot']


def make_lambda(r, rng, P, names, given):
    """a ChLambda over a random body; returns (id of the lambda, {name: handle id})"""
    hs = {}
    ids = {}
    plain = {nm: r.shadow(given[nm]).copy() for nm in names if given.get(nm) is not None and r.g[given[nm]]['op'] == 'leaf' and rng.random() < .25}
    kinds = {nm: rng.choice(['array', 'list', 'number'][:3 if plain[nm].shape == (1,) else 2]) for nm in plain}

    def body(**kw):
        for nm in names:
            h = kw[nm]
            if nm in plain:
                r.ev(ev='leaf', s=list(plain[nm].shape), v=encl(plain[nm]))
                r.objs.append(h.x)
                r.g.append({'op': 'leaf', 'a': [], 'p': {}, 'val': plain[nm]})
                src = len(r.g) - 1
            elif given.get(nm) is None:
                r.ev(ev='leaf', s=[1], v=[names.index(nm) * 1000000])
                r.objs.append(h.x)
                r.g.append({'op': 'leaf', 'a': [], 'p': {}, 'val': np.array([float(names.index(nm))])})
                src = len(r.g) - 1
            else:
                src = given[nm]
            r.ev(ev='node', op='identity', a=[src], p={})
            r.objs.append(h)
            r.g.append({'op': 'identity', 'a': [src], 'p': {}, 'val': None})
            hs[nm] = len(r.g) - 1
        top = None
        for nm in names:
            if rng.random() < .9:
                k = rng.choice(['square', 'negative', 'sin'])
                x = r.node(k, [hs[nm]])
                x = r.node('sum', [x], {'axis': NONE})
                top = x if top is None else r.node(rng.choice(['add', 'multiply', 'subtract']), [top, x])
                if rng.random() < .4 and r.can('add', [top, hs[nm]]):
                    top = r.node('add', [top, hs[nm]])
        if top is None:
            top = r.node('square', [hs[names[0]]])
        if rng.random() < .4 and r.can('square', [top]):
            top = r.node('square', [top])
        ids['top'] = top
        return r.objs[top]
    if len(names) == 1:
        def lmb(x): return body(x=x)
    elif len(names) == 2:
        def lmb(x, y): return body(x=x, y=y)
    else:
        def lmb(x, y, z): return body(x=x, y=y, z=z)
    init = {nm: r.objs[given[nm]] for nm in names if given.get(nm) is not None}
    for nm in plain:
        v = plain[nm].copy()
        init[nm] = v if kinds[nm] == 'array' else v.tolist() if kinds[nm] == 'list' else float(v[0])
    st = rng.random()
    ok, L = r.guard(lambda: r.ch.Ch(lmb, init) if init else r.ch.Ch(lmb))
    if not ok:
        r.die(ev='node', op='identity', a=[1], p={})
    r.ev(ev='node', op='identity', a=[ids['top']], p={})
    r.objs.append(L)
    r.g.append({'op': 'identity', 'a': [ids['top']], 'p': {}, 'val': None})
    return len(r.g) - 1, hs, ids['top']


def set_lambda_args(r, L, hs, new, how='set'):
    """several arguments in one go"""
    ids = dict((nm, r.objs[m]) for nm, m in new.items())
    ok, _ = r.guard(lambda: r.objs[L].set(**ids) if how == 'set' else r.objs[L](**ids))
    for k, (nm, m) in enumerate(sorted(new.items())):
        kw = dict(ev='rewire', n=hs[nm], i=1, m=m)
        if not ok:
            r.die(**kw)
        r.ev(**kw)
        r.g[hs[nm]]['a'][0] = m


def set_lambda_arg(r, L, hs, nm, m, how='attr'):
    kw = dict(ev='rewire', n=hs[nm], i=1, m=m)

    def do():
        if how == 'attr':
            setattr(r.objs[L], nm, r.objs[m])
        elif how == 'set':
            r.objs[L].set(**{nm: r.objs[m]})
        else:
            r.objs[L](**{nm: r.objs[m]})
    ok, _ = r.guard(do)
    if not ok:
        r.die(**kw)
    r.ev(**kw)
    r.g[hs[nm]]['a'][0] = m


@scen('C17', 'lambda', 6)
def c17(r, rng, copies=.15):
    P = G.Prog(r, rng, BODY, maxsize=9, leafrange=(-1, 1))
    names = ['x', 'y', 'z'][:rng.randint(1, 3)]
    shs = [(1,), (2,), (3,), (2, 2)]
    pool = [P.new_leaf(rng.choice(shs)) for _ in range(rng.randint(2, 4))]
    for _ in range(rng.randint(0, 2)):
        x = r.node(rng.choice(['square', 'negative', 'sin']), [rng.choice(pool)])
        pool.append(x)
    given = {nm: (rng.choice(pool) if rng.random() < .6 else None) for nm in names}
    L, hs, top = make_lambda(r, rng, P, names, given)
    above = None
    if rng.random() < .5:
        above = r.node('add', [L, rng.choice(pool)]) if r.can('add', [L, pool[0]]) and False else r.node('square', [L]) if r.can('square', [L]) else None
    obs = [L] + ([above] if above else [])

    def look():
        n = rng.choice(obs)
        ws = [w for w in pool if w in r.below(n) and r.g[w]['op'] == 'leaf']
        r.observe([n], [(n, w, rng.choice(S.ALLM)) for w in rng.sample(ws, min(2, len(ws)))])
    if rng.random() < .6:
        look()
    for _ in range(rng.randint(2, 5)):
        k = rng.random()
        if k < .15 and len(names) > 1:
            new = dict((nm, rng.choice(pool)) for nm in rng.sample(names, rng.randint(2, len(names))) if hasattr(r.objs[L], nm))

            def doall():
                for nm in new:
                    r.g[hs[nm]]['a'][0] = new[nm]
            if new and S.try_change(r, doall):
                set_lambda_args(r, L, hs, new, rng.choice(['set', 'call']))
        elif k < .5:
            nm = rng.choice(names)
            if not hasattr(r.objs[L], nm):
                continue
            m = rng.choice(pool)
            if rng.random() < .3:
                m = P.new_leaf(rng.choice(shs))
                pool.append(m)

            def do():
                r.g[hs[nm]]['a'][0] = m
            if S.try_change(r, do):
                set_lambda_arg(r, L, hs, nm, m, rng.choice(['attr', 'attr', 'set', 'call']))
        elif k < .8:
            n = rng.choice([x for x in pool if r.g[x]['op'] == 'leaf'])
            v = G.values(rng, r.shape(n), -1, 1)
            if S.try_change(r, lambda: r.g[n].update(val=v)):
                r.setleaf(n, v)
        else:
            n = rng.choice([x for x in pool if r.g[x]['op'] == 'leaf'])
            r.setitem(n, [{'t': 's', 'a': NONE, 'b': NONE, 'c': NONE}], G.values(rng, (1,), -1, 1), scalar=True)
        if rng.random() < copies and len(r.g) < 60:
            # the copy is as good as the original, and may take its place
            mp = r.copy(rng.choice(obs) if above else L, rng.choice(WAYS))
            if L in mp and r.objs[mp[L]] is not None:
                obs = obs + [mp[x] for x in obs if x in mp]
                pool += [mp[x] for x in pool if x in mp and r.objs[mp[x]] is not None]
                if rng.random() < .6:
                    hs = {nm: mp.get(h, h) for nm, h in hs.items()} if all(h in mp for h in hs.values()) else hs
                    L = mp[L] if all(h in mp.values() for h in hs.values()) else L
        if rng.random() < .7:
            look()
    r.observe(obs, [(L, w, 'fwd') for w in pool if w in r.below(L) and r.g[w]['op'] == 'leaf'][:2])


@scen('C14', 'copy-of-lambda', 1)
def c14l(r, rng):
    c17(r, rng, .5)


@scen('C17', 'handle', 2)
def c17h(r, rng):
    S.history(r, rng, ['identity', 'identity', 'add', 'square', 'getitem', 'sum', 'multiply'], rng.randint(2, 5),
              {'rewire': 4, 'setleaf': 2}, nr=2, nd=2, modes=S.ALLM, maxsize=9, nnode=(3, 6))


@scen('C17', 'group', 3)
def c17g(r, rng, copies=.1):
    from chumpy.ch import ChGroup
    sh = rng.choice([(2,), (3,), (2, 2)])
    a = r.leaf(G.values(rng, sh, -2, 2))
    b = r.leaf(G.values(rng, sh, -2, 2))
    pool = [a, b]
    if rng.random() < .6:
        pool.append(r.node('square', [rng.choice([a, b])]))
    if rng.random() < .4:
        pool.append(r.node('add', [a, b]))
    m, n = rng.choice(pool), rng.choice(pool)
    u = r.leaf(np.zeros(sh))
    w = r.leaf(np.zeros(sh))
    op = rng.choice(['usq', 'add', 'multiply', 'subtract', 'user'])
    res = r.node(op, [u, w], {'k': 2} if op == 'user' else {}, 'fn')
    # handles over the arguments
    hid = {}
    ok, Gp = r.guard(lambda: ChGroup(r.objs[res], {'a': r.objs[m], 'b': r.objs[n]}))
    if not ok:
        r.die(ev='node', op='identity', a=[res], p={})
    for nm, src, i in (('a', m, 0), ('b', n, 1)):
        r.ev(ev='node', op='identity', a=[src], p={})
        r.objs.append(Gp.args[nm])
        r.g.append({'op': 'identity', 'a': [src], 'p': {}, 'val': None})
        hid[nm] = len(r.g) - 1
        r.ev(ev='rewire', n=res, i=i + 1, m=hid[nm])
        r.g[res]['a'][i] = hid[nm]
    r.ev(ev='node', op='identity', a=[res], p={})
    r.objs.append(Gp)
    r.g.append({'op': 'identity', 'a': [res], 'p': {}, 'val': None})
    g = len(r.g) - 1
    top = r.node('square', [g]) if rng.random() < .5 and r.can('square', [g]) else g

    def look():
        r.observe([g, top], [(top, x, rng.choice(S.ALLM)) for x in (a, b) if x in r.below(top)])
    look()
    for _ in range(rng.randint(1, 4)):
        if rng.random() < .6:
            x = rng.choice([a, b])
            v = G.values(rng, sh, -2, 2)
            if S.try_change(r, lambda: r.g[x].update(val=v)):
                r.setleaf(x, v)
        else:
            nm = rng.choice(['a', 'b'])
            mm = rng.choice(pool)

            def do():
                r.g[hid[nm]]['a'][0] = mm
            if rng.random() < .3:
                new = {'a': rng.choice(pool), 'b': mm}

                def doall():
                    for nm in new:
                        r.g[hid[nm]]['a'][0] = new[nm]
                if S.try_change(r, doall):
                    set_lambda_args(r, g, hid, new, rng.choice(['set', 'call']))
            elif S.try_change(r, do):
                set_lambda_arg(r, g, hid, nm, mm, rng.choice(['attr', 'set', 'call']))
        look()
        if rng.random() < copies:
            mp = r.copy(top, rng.choice(WAYS))
            r.observe([top, mp[top]], [])
            if all(x in mp and r.objs[mp[x]] is not None for x in [g, a, b] + list(hid.values())):
                pool = pool + [mp[x] for x in pool if x in mp and r.objs[mp[x]] is not None]
                if rng.random() < .7:
                    g, top, a, b = mp[g], mp[top], mp[a], mp[b]
                    hid = {nm: mp[h] for nm, h in hid.items()}


@scen('C14', 'copy-of-group', 1)
def c14g(r, rng):
    c17g(r, rng, .6)


# ------------------------------------------------------------------ C22: float64, read-only
@scen('C22', 'inputs', 3)
def c22(r, rng):
    sh = rng.choice(G.SHAPES)
    how = rng.choice(['int', 'list', 'array', 'later', 'Ch'])
    v = G.values(rng, sh, -3, 3, 1 if how == 'int' else 8)
    a = r.leaf(v, how)
    P = G.Prog(r, rng, S.MIX, maxsize=12)
    for _ in range(3):
        S.growmix(P, S.MIX + G.COMPARE + ['logic', 'floor', 'ceil', 'sign', 'argx'][:4])
    r.observe([n for n in r.ids() if r.alive(n)], [])
    vals = G.values(rng, sh, -3, 3, 1)
    if S.try_change(r, lambda: r.g[a].update(val=vals)):
        r.setleaf(a, vals, rng.choice(['int', 'x', 'all']))
        r.observe([n for n in r.ids() if r.alive(n)], [])


WRITES = ['all', 'elem', 'iadd', 'flat', 'ravel', 'slice', 'T', 'fill', 'sort', 'out', 'copyto']


@scen('C22', 'writes', 3)
def c22w(r, rng):
    P = G.Prog(r, rng, S.MIX, maxsize=12, leafrange=(-2, 2))
    for _ in range(rng.randint(1, 2)):
        P.new_leaf(rng.choice(G.SHAPES), how=rng.choice(['Ch', 'list', 'array', 'int', 'later', 'num']))
    for _ in range(rng.randint(2, 5)):
        S.growmix(P, S.MIX + VOPS + ['logic', 'matvec'])
    ids = [n for n in r.ids() if r.alive(n)]
    for _ in range(rng.randint(2, 4)):
        if rng.random() < .5:
            r.observe([rng.choice(ids) for _ in range(2)], [])
        for _ in range(rng.randint(1, 3)):
            r.write(rng.choice(ids), rng.choice(WRITES))
        S.MUT[rng.choice(['setleaf', 'setitem', 'rewire', 'setitem'])](P)
        r.write(rng.choice(ids), rng.choice(WRITES))
        r.observe(list(set(rng.choice(ids) for _ in range(3))), [])
    r.observe(ids[:12], [])


@scen('C22', 'every-op', 3)
def c22e(r, rng):
    op = rng.choice(sorted(set(S.MIX) - {'identity', 'cumsum0'}) + G.COMPARE + ['logic', 'sign', 'ceil', 'matvec', 'logabsdet', 'pinv', 'lstsq'])
    S.opcase(r, rng, op, deriv=False, extra=1)


# ------------------------------------------------------------------ C23: reachability and traversal
@scen('C23', 'history', 4)
def c23(r, rng):
    ops_ = [o for o in S.MIX if o not in ('tensordot', 'norm', 'vstack', 'dstack', 'var', 'std')]
    P = G.Prog(r, rng, ops_, maxsize=9)
    S.program(P, ops_, (1, 3), (4, 12))
    muts = {'rewire': 5, 'setleaf': 2, 'replace': 2, 'setitem': 1, 'setmany': 1}
    kinds = [k for k, w in muts.items() for _ in range(w)]

    def plain(n):
        return all(all(S.attr_ok(r, m, i) for i in range(len(r.g[m]['a']))) for m in r.below(n) if r.g[m]['op'] != 'leaf')

    def look():
        ids = [n for n in r.ids() if r.alive(n)]
        for _ in range(4):
            n, w = rng.choice(ids), rng.choice(ids)
            r.isdr(n, w)
        n = rng.choice(ids)
        if plain(n):
            r.tree(n)
    look()
    for _ in range(rng.randint(2, 6)):
        S.MUT[rng.choice(kinds)](P)
        if rng.random() < .3:
            S.observe_some(r, rng, 1, 1)
        if rng.random() < .2:
            S.growmix(P, ops_)
        look()


# ------------------------------------------------------------------ C18 - C21: minimisation
from . import opt as M


def _after(r, rng, w, fv):
    """the graph is as coherent after a minimisation as before it"""
    ids = [n for n in r.ids() if r.alive(n) and r.g[n]['op'] != 'leaf']
    r.observe([w] + [rng.choice(ids) for _ in range(2)], [(w, r.base(fv[0]), rng.choice(['fwd', 'rev']))], kmax=6)


def mini(r, rng, views=.5, again=.3, mutate=.3):
    pr = M.problem(r, rng, views)
    if pr is None:
        return
    if rng.random() < .4:
        r.observe([pr[1]], [(pr[1], r.base(pr[2][0]), 'fwd')], kmax=6)
    o, so = M.options(rng)
    M.dogleg(r, rng, pr, o, so)
    if rng.random() < .5:
        _after(r, rng, pr[1], pr[2])
    if rng.random() < mutate:
        b = r.base(rng.choice(pr[2]))
        r.setleaf(b, G.values(rng, r.shape(b), -2, 2))
        _after(r, rng, pr[1], pr[2])
        if rng.random() < again:
            o, so = M.options(rng)
            M.dogleg(r, rng, pr, o, so)


@scen('C18', 'dogleg', 4)
def c18(r, rng):
    mini(r, rng)


@scen('C18', 'dogleg-again', 1)
def c18b(r, rng):
    mini(r, rng, again=1., mutate=1.)


@scen('C19', 'dogleg', 4)
def c19(r, rng):
    mini(r, rng, views=.15, again=.2, mutate=.15)


@scen('C19', 'dogleg-curved', 2)
def c19b(r, rng):
    """steps that are often rejected"""
    xs = M.variables(r, rng, 3)
    parts = [rng.choice([M.f_valley, M.f_fit, M.f_domain])(r, rng, xs)]
    w = M.whole(r, rng, parts)
    if not np.all(np.isfinite(r.shadow(w))):
        return
    fv = [x for x in xs if x in r.below(w)]
    o, so = M.options(rng)
    o['maxiter'] = so['maxiter'] = rng.randint(4, 10)
    if rng.random() < .5:
        o['delta_0'] = rng.choice([1., 4., 8., 16.])
        so['delta'] = M.num(o['delta_0'])
    M.dogleg(r, rng, (parts, w, fv), o, so)


@scen('C19', 'dogleg-singular', 1)
def c19c(r, rng):
    """normal equations without a unique solution"""
    pr = M.singular(r, rng)
    if pr is None or not np.any(np.abs(r.shadow(pr[1])) > .1):
        return
    o, so = M.options(rng)
    so['sing'] = 1
    o.pop('sparse_solver', None)
    if rng.random() < .5:
        o['sparse_solver'] = rng.choice(['spsolve', 'cg'])
    o['treat_as_dense'] = rng.choice([True, True, False])
    M.dogleg(r, rng, pr, o, so)


def general(r, rng, views, scripted):
    pr = M.problem(r, rng, views, nmax=3)
    if pr is None:
        return
    if rng.random() < .15:                     # an objective that is one number already
        parts, w, fv = pr
        w2 = r.node('sum', [r.node('square', [w])], {'axis': NONE})
        pr = ([w2], w2, fv)
    if rng.random() < .4:
        r.observe([pr[1]], [(pr[1], r.base(pr[2][0]), 'fwd')], kmax=6)
    n = int(sum(r.shadow(v).size for v in pr[2]))
    one = r.shadow(pr[1]).size == 1
    methods = [m for m in M.REAL if not (one and m in ('trust-ncg', 'trust-krylov', 'trust-constr', 'Newton-CG'))]
    method = rng.choice(methods)
    opts = {'maxiter': rng.randint(1, 4)} if rng.random() < .8 or not scripted else None
    bounds = None
    if method in ('L-BFGS-B', 'TNC', 'SLSQP') and rng.random() < .4:
        bounds = [(-2.5, 2.5)] * n
    M.scipy_min(r, rng, pr, method, scripted, opts=opts, tol=rng.choice([None, None, 1e-3] + ([0., 0, .5] if scripted else [])), bounds=bounds)
    if rng.random() < .7:
        _after(r, rng, pr[1], pr[2])


@scen('C20', 'scripted', 3)
def c20(r, rng):
    general(r, rng, .4, True)


@scen('C20', 'scipy', 2)
def c20b(r, rng):
    general(r, rng, .3, False)


@scen('C21', 'dogleg', 3)
def c21(r, rng):
    mini(r, rng, views=.9, again=.3, mutate=.4)


@scen('C21', 'scripted', 1)
def c21b(r, rng):
    general(r, rng, .9, True)


@scen('C21', 'scipy', 1)
def c21c(r, rng):
    general(r, rng, .9, False)


@scen('C25', 'interpolate', 5)
def c25(r, rng):
    """points inside and outside of an image; points, image and operands change"""
    def coord(d):
        """seldom on the border of an image, where the two sides differ"""
        k = rng.random()
        if k < .12:
            return rng.choice([1., 1., 0., d - 1.])
        while True:
            v = rng.randint(-20, -1) if k < .2 else rng.randint(8 * d - 7, 8 * d + 12) if k < .3 else rng.randint(1, 8 * d - 9)
            if v % 8:
                return v / 8.

    def loc(n):
        return np.array([[coord(d) for d in dims] for _ in range(n)])

    def img():
        return G.image(rng, dims)

    def points(n):
        kind = rng.choice(['leaf', 'leaf', 'sum', 'transpose', 'getitem', 'stack'])
        if kind == 'leaf':
            x = r.leaf(loc(n), rng.choice(['Ch', 'array', 'later']))
            ls.append((x, lambda: loc(n)))
        elif kind == 'sum':
            x, y = r.leaf(loc(n)), r.leaf(small())
            ls.append((x, lambda: loc(n)))
            ls.append((y, small))
            x = r.node('add', [x, y])
        elif kind == 'transpose':
            x = r.leaf(loc(n).T.copy())
            ls.append((x, lambda: loc(n).T.copy()))
            x = r.node('transpose', [x], {'axes': []})
        elif kind == 'getitem':
            x = r.leaf(loc(n + 1))
            ls.append((x, lambda: loc(n + 1)))
            b = rng.choice([0, 1])
            x = r.node('getitem', [x], {'key': [dict(t='s', a=b, b=b + n, c=1)]})
        else:
            x, y = r.leaf(loc(1)), r.leaf(loc(n))
            ls.append((x, lambda: loc(1)))
            ls.append((y, lambda: loc(n)))
            x = r.node('vstack', [x, y])
        return x

    def small():
        return np.array([rng.choice([-7, -5, -3, -1, 1, 3, 5, 7]) / 64. for _ in range(3)])
    dims = [rng.randint(2, 4) for _ in range(3)]
    ls = []
    n = rng.randint(1, 3)
    x = points(n)
    z = r.node('interp3d', [x], {'image': img()})
    top = z
    k = rng.random()
    if k < .2:
        top = r.node('square', [z])
    elif k < .4:
        top = r.node('sum', [z], {'axis': NONE})
    elif k < .5:
        top = r.node('add', [r.node('interp3d', [x], {'image': img()}), z])
    for i in range(rng.randint(3, 5)):
        ws = [w for w, _ in ls if w in S.leaves(r, top)]
        r.observe(rng.sample([z, top], rng.randint(0, 2)), [(rng.choice([z, top]), w, rng.choice(S.ALLM)) for w in rng.sample(ws, rng.randint(1, len(ws)))])
        k = rng.random()
        if k < .5:
            w, f = rng.choice([q for q in ls if q[0] in ws])
            r.setleaf(w, f(), rng.choice(['x', 'all']))
        elif k < .8:
            q = dims
            if rng.random() < .4:
                dims[rng.randrange(3)] += 1
            r.setparam(z, {'image': img()}, rng.choice(['attr', 'set']))
        elif len(ls) < 4 and x in r.g[z]['a']:
            m = points(r.shape(x)[0])
            if r.shape(m) == r.shape(x):
                r.rewire(z, 0, m)
                x = m


@scen('C25', 'histories', 2)
def c25h(r, rng):
    """as part of a larger expression"""
    S.history(r, rng, ['interp3d'] * 6 + ['add', 'negative', 'vstack', 'transpose', 'getitem', 'sum', 'square', 'multiply'], rng.randint(3, 7),
              dict(HM, setparam=5), nr=2, nd=2, nnode=(3, 8), maxsize=9, modes=S.ALLM)


@scen('C25', 'copies', 1)
def c25c(r, rng):
    c14(r, rng, ['interp3d'] * 4 + ['add', 'negative', 'vstack', 'getitem', 'sum'])


def shared_arrays(r, rng, modes):
    """variables made from one and the same array, from results that were read, and from arrays laid out otherwise"""
    sh = rng.choice([(2,), (3,), (2, 2), (2, 3), (1, 3), (1,)])
    v = G.values(rng, sh, -2, 2)
    vs = [r.leaf(v, 'array')]
    for _ in range(rng.randint(1, 2)):
        vs.append(r.leaf(v, rng.choice(['alias', 'alias', 'readonly', 'ordered', 'asarray'])))
    flat = rng.random() < .3
    tops = [r.node('ravel' if flat else rng.choice(['square', 'negative']), [m]) for m in vs]
    tops.append(r.node(rng.choice(['add', 'multiply']), [tops[0], tops[-1]]))
    tops.append(r.node('getitem', [vs[0]], {'key': [dict(t='i', i=0)]}))

    def look():
        r.observe(rng.sample(vs + tops, rng.randint(1, len(vs + tops))), [(rng.choice(tops[:-1]), rng.choice(vs), rng.choice(modes))] if modes else [])
    for _ in range(rng.randint(3, 7)):
        if rng.random() < .8:
            look()
        w = rng.choice(vs)
        k = rng.random()
        if k < .6:
            n = w if rng.random() < .7 else tops[-1] if rng.random() < .4 else w
            r.setitem(n, [dict(t='i', i=0)] if n == w and rng.random() < .7 else [dict(t='s', a=NONE, b=NONE, c=NONE)],
                      G.values(rng, (1,), -2, 2), scalar=True)
        elif k < .8:
            o = rng.choice(vs)
            r.setleaf(w, r.g[o]['val'], rng.choice(['x', 'set']), 'alias')
        else:
            r.setleaf(w, G.values(rng, sh, -2, 2), rng.choice(['x', 'all']))
    r.observe(vs + tops, [])


@scen('C01', 'shared-arrays', 1)
def c01sa(r, rng):
    shared_arrays(r, rng, ())


@scen('C02', 'shared-arrays', 1)
def c02sa(r, rng):
    shared_arrays(r, rng, S.ALLM)


@scen('C09', 'shared-arrays', 1)
def c09sa(r, rng):
    shared_arrays(r, rng, ())


def moved_views(r, rng, modes):
    """views that are pointed elsewhere while derivatives with respect to them are remembered"""
    P = G.Prog(r, rng, VOPS, maxsize=12)
    sh = rng.choice([(3,), (4,), (2, 2), (2, 3), (3, 2), (2, 1, 2)])
    bases = [r.leaf(G.values(rng, sh, -2, 2)) for _ in range(2)]
    if rng.random() < .4:
        bases.append(r.node(rng.choice(['square', 'sin', 'negative']), [rng.choice(bases)]))
    views = []
    for _ in range(rng.randint(1, 3)):
        b = rng.choice(bases + views)
        for _j in range(6):
            o = rng.choice(VOPS)
            p = G.params(rng, o, r.shape(b))
            if p is not None and r.can(o, [b], p):
                v = r.node(o, [b], p)
                if r.g[v]['op'] in VIEW_OPS:
                    views.append(v)
                break
    if not views:
        return
    tops = [r.node(rng.choice(['square', 'sin']), [rng.choice(bases)]), r.node(rng.choice(['multiply', 'add', 'usq']), rng.sample(bases, 2))]
    tops.append(r.node('sum', [rng.choice(tops)], {'axis': NONE}))
    if rng.random() < .5:
        tops.append(r.node('multiply', [r.node('sum', [rng.choice(views)], {'axis': NONE}), rng.choice(tops)]))
    asked = [(rng.choice(tops), rng.choice(views), rng.choice(modes)) for _ in range(rng.randint(2, 4))]
    for _ in range(rng.randint(2, 5)):
        r.observe(rng.sample(tops, 1) if rng.random() < .4 else [], asked)
        v = rng.choice(views)
        k = rng.random()
        if k < .5:
            m = rng.choice([q for q in bases + views if q != v])
            if v not in r.below(m) and r.shape(m) == r.shape(r.g[v]['a'][0]) and S.attr_ok(r, v, 0):
                def do():
                    r.g[v]['a'][0] = m
                if S.try_change(r, do):
                    r.rewire(v, 0, m, rng.choice(['attr', 'set']))
        elif k < .75:
            if OPS[r.g[v]['op']].params:
                p = S.new_param(P, v)

                def do2():
                    r.g[v]['p'] = p
                if p is not None and S.try_change(r, do2):
                    r.setparam(v, p, rng.choice(['attr', 'set']))
        else:
            rng.choice([S.m_setleaf, S.m_setitem, S.m_rewire])(P)
    r.observe([], asked)


@scen('C10', 'moved-views', 4)
def c10m(r, rng):
    moved_views(r, rng, S.ALLM)


@scen('C02', 'moved-views', 1)
def c02m(r, rng):
    moved_views(r, rng, ('fwd', 'fwd', 'rev'))
