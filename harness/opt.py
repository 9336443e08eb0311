"""Driving the minimisers: what they evaluate, accept and return is recorded from the outside -
through a user-defined node on top of the residuals, the step callback and the variables themselves."""
import json
import numpy as np
import scipy.sparse as sp
from . import gen as G
from . import scen as S
from .ops import OPS, NONE, key_of
from .rec import enc, encl, Dead, dense
from . import usernodes as U

NODELTA = [0, -9]


def num(x):
    """a number of the specification's domain"""
    k = x * 1e6
    u = int(round(k))
    return [u, 0 if k == u and (u != 0 or x == 0) else 1]


def snapshot(r, leafs):
    return [[n, encl(r.objs[n].r)] for n in leafs]


def refresh(r, leafs):
    for n in leafs:
        r.g[n]['val'] = np.atleast_1d(np.array(r.objs[n].r, dtype=np.float64))


# ------------------------------------------------------------------ problems
def lit(r, rng, v):
    return r.leaf(np.atleast_1d(v), rng.choice(['raw', 'Ch', 'Ch']))


def axpb(r, x, a, b):
    return r.node('add', [r.node('multiply', [x, a]), b])


def f_linear(r, rng, xs):
    """A x - b for the concatenation of the variables"""
    x = flat(r, rng, xs)
    n = r.shape(x)[0]
    m = rng.randint(n, min(6, n + 2)) if rng.random() < .85 else rng.randint(1, n)
    A = r.leaf(G.values(rng, (m, n), -2, 2, 4), 'Ch')
    b = r.leaf(G.values(rng, (m,), -3, 3), 'Ch')
    return r.node('subtract', [r.node('dot', [A, x]), b])


def flat(r, rng, xs):
    ps = [x if len(r.shape(x)) == 1 else r.node('ravel', [x]) for x in xs]
    return ps[0] if len(ps) == 1 else r.node('concatenate', ps, {'axis': 0})


def item(r, x, i):
    return r.node('getitem', [x], {'key': [{'t': 's', 'a': i, 'b': i + 1, 'c': NONE}]})


def f_valley(r, rng, xs):
    """c (y - x^2), 1 - x for consecutive elements"""
    x = flat(r, rng, xs)
    n = r.shape(x)[0]
    c = lit(r, rng, rng.choice([1., 2., 3., 5.]))
    if n == 1:
        q = r.node('square', [x])
        return r.node('concatenate', [r.node('multiply', [r.node('subtract', [q, lit(r, rng, 2.)]), c]), r.node('subtract', [lit(r, rng, 1.), x])], {'axis': 0})
    a = r.node('getitem', [x], {'key': [{'t': 's', 'a': NONE, 'b': n - 1, 'c': NONE}]})
    b = r.node('getitem', [x], {'key': [{'t': 's', 'a': 1, 'b': NONE, 'c': NONE}]})
    u = r.node('multiply', [r.node('subtract', [b, r.node('square', [a])]), c])
    w = r.node('subtract', [lit(r, rng, 1.), a])
    return r.node('concatenate', [u, w], {'axis': 0})


def f_fit(r, rng, xs):
    """data - f(t; x)"""
    x = flat(r, rng, xs)
    n = r.shape(x)[0]
    m = rng.randint(2, 5)
    t = r.leaf(G.values(rng, (m,), -1.5, 1.5, distinct=True), 'Ch')
    d = r.leaf(G.values(rng, (m,), -2, 2), 'Ch')
    a = item(r, x, 0)
    y = r.node('multiply', [t, a])
    if n > 1:
        y = r.node('add', [y, item(r, x, 1)])
    y = r.node(rng.choice(['sin', 'exp', 'arctan', 'square', 'cos']), [y])
    if n > 2:
        y = r.node('multiply', [y, item(r, x, 2)])
    if n > 3:
        y = r.node('add', [y, item(r, x, 3)])
    return r.node('subtract', [d, y])


def f_domain(r, rng, xs):
    """residuals that are undefined for some steps"""
    x = flat(r, rng, xs)
    n = r.shape(x)[0]
    sh = float(np.max(np.abs(r.shadow(x)))) + rng.choice([.25, .5, 1.])
    s = r.node('add', [x, lit(r, rng, np.ceil(sh * 8) / 8)])
    y = r.node(rng.choice(['sqrt', 'log']), [s])
    d = r.leaf(G.values(rng, (n,), -2, 2), 'Ch')
    y = r.node('subtract', [y, d])
    if rng.random() < .5:
        y = r.node('concatenate', [y, r.node('multiply', [x, lit(r, rng, rng.choice([.125, .5, 1.]))])], {'axis': 0})
    return y


def singular(r, rng):
    """A x - b where several elements of x have the same effect, so that the normal equations are exactly singular"""
    sizes = rng.choice([[2], [3], [4], [2, 1], [2, 2], [1, 1, 1], [3, 1]])
    xs = [r.leaf(G.values(rng, (k,), -2, 2), rng.choice(['Ch', 'list', 'later'])) for k in sizes]
    n = sum(sizes)
    k = rng.randint(1, n - 1)
    for _ in range(50):
        B = G.values(rng, (rng.randint(k, 4), k), -2, 2, 4)
        if np.linalg.matrix_rank(B) == k and np.linalg.cond(B) < 20:
            break
    else:
        return None
    at = list(range(k)) + [rng.randrange(k) for _ in range(n - k)]
    rng.shuffle(at)
    A = np.stack([B[:, j] * rng.choice([1., 1., -1., 2., .5]) for j in at], axis=1)
    b = G.values(rng, (A.shape[0],), -3, 3)
    x = flat(r, rng, xs)
    how = rng.random()
    if how < .6:
        y = r.node('dot', [r.leaf(A, 'Ch'), x])
    else:                                    # as a sum over the columns
        y = None
        for i in range(n):
            t = r.node('multiply', [item(r, x, i), r.leaf(A[:, i].copy(), 'Ch')])
            y = t if y is None else r.node('add', [y, t])
    w = r.node('subtract', [y, r.leaf(b, 'Ch')])
    return [w], w, xs


SMOOTH = ['add', 'subtract', 'multiply', 'multiply', 'square', 'sin', 'cos', 'arctan', 'negative', 'dot', 'transpose', 'reshape', 'getitem',
          'concatenate', 'mean', 'sum', 'identity', 'usq']


def f_random(r, rng, xs):
    P = G.Prog(r, rng, SMOOTH, maxsize=5, leafrange=(-2, 2))
    top = None
    for _ in range(rng.randint(2, 6)):
        t = S.growmix(P, SMOOTH)
        top = t or top
    ps = [flat(r, rng, xs)]
    if top is not None and r.shadow(top).size <= 5:
        ps.append(r.node('ravel', [top]))
    y = ps[0] if len(ps) == 1 else r.node('concatenate', ps, {'axis': 0})
    return r.node('subtract', [y, r.leaf(G.values(rng, (1,), -2, 2), 'Ch')])


FAMILIES = [f_linear, f_valley, f_valley, f_fit, f_fit, f_domain, f_random]


def variables(r, rng, nmax=4):
    out, tot = [], 0
    for _ in range(rng.randint(1, 3)):
        sh = rng.choice([(1,), (2,), (3,), (1, 1), (1, 2), (2, 1), (2, 2), (2, 2), (2, 3), (3, 2), (4,)])
        k = int(np.prod(sh))
        if tot + k > nmax:
            continue
        tot += k
        how = rng.choice(['Ch', 'Ch', 'array', 'list', 'later', 'int'])
        if sh == (1,) and rng.random() < .3:
            how = 'num'
        elif min(sh) > 1 and len(sh) > 1 and rng.random() < .5:
            how = 'ordered'
        out.append(r.leaf(G.values(rng, sh, -2, 2), how))
    return out or [r.leaf(G.values(rng, (2,), -2, 2), 'Ch')]


def one_view(r, rng, v):
    """a selection of v's elements, possibly through another selection"""
    for _ in range(10):
        k = G.rand_key(rng, r.shape(v))
        if not r.can('getitem', [v], {'key': k}):
            continue
        t = np.asarray(OPS['getitem'].shadow([np.arange(r.shadow(v).size).reshape(r.shape(v))], {'key': k})).ravel()
        if len(set(t.tolist())) == t.size:
            return r.node('getitem', [v], {'key': k})
    return None


def free_vars(r, rng, xs, views=.5):
    """some of the variables, or disjoint parts of them"""
    fv = []
    for x in xs:
        if len(fv) and rng.random() < .25:
            continue
        if rng.random() >= views:
            fv.append(x)
            continue
        used = set()
        for _ in range(rng.randint(1, 3)):
            v = one_view(r, rng, x)
            for _d in range(4):
                if v is not None and rng.random() < .35 + .2 * (_d > 0):
                    v = one_view(r, rng, v) or v
                else:
                    break
            if v is None:
                continue
            off = r.offsets(v).ravel().tolist()
            if len(set(off)) == len(off) and not used & set(off):
                used |= set(off)
                fv.append(v)
        if not used:
            fv.append(x)
    rng.shuffle(fv)
    return fv


def objective(r, rng, xs):
    """residual nodes whose concatenation is minimised: (parts, whole)"""
    k = rng.random()
    parts = [rng.choice(FAMILIES)(r, rng, xs)]
    if k < .35:
        parts.append(rng.choice([f_linear, f_valley, f_fit])(r, rng, xs[:1] if rng.random() < .5 else xs))
    return parts


def whole(r, rng, parts):
    ps = [p if len(r.shape(p)) == 1 else r.node('ravel', [p]) for p in parts]
    return ps[0] if len(ps) == 1 else r.node('concatenate', ps, {'axis': 0})


def depends(r, n, fv):
    return all(r.base(v) in r.below(n) for v in fv)


def problem(r, rng, views=.5, nmax=4):
    xs = variables(r, rng, nmax + 2 * (rng.random() < .25))
    parts = objective(r, rng, xs)
    w = whole(r, rng, parts)
    fv = [v for v in free_vars(r, rng, xs, views)]
    fv = [v for v in fv if r.base(v) in r.below(w)] or [xs[0]]
    if r.base(fv[0]) not in r.below(w) or r.shadow(w).size > 10 or not np.all(np.isfinite(r.shadow(w))):
        return None
    return parts, w, fv


def give(r, rng, parts, probe=None):
    """the objective in the form the caller passes it"""
    ob = [r.objs[p] for p in parts]
    if probe is not None:
        j = rng.randrange(len(ob))
        ob[j] = probe(ob[j])
    if len(ob) == 1 and rng.random() < .6:
        return ob[0], 'ch'
    k = rng.choice(['list', 'tuple', 'dict'])
    if k == 'dict':
        names = ['zz', 'a', 'm']
        return dict((names[i], o) for i, o in enumerate(ob)), k
    return (ob if k == 'list' else tuple(ob)), k


# ------------------------------------------------------------------ dogleg
def options(rng, parts=None):
    o = {'disp': False}
    sp_ = {'delta': NODELTA, 'e1': num(1e-15), 'e2': num(1e-15), 'e3': [0, 0], 'fev': 0, 'sing': 0}
    o['maxiter'] = sp_['maxiter'] = rng.choice([1, 2, 3, 4, 5, 6])
    if rng.random() < .7:
        o['delta_0'] = rng.choice([.125, .25, .5, 1., 2., 4., 20.])
        sp_['delta'] = num(o['delta_0'])
    if rng.random() < .3:
        o['max_fevals'] = sp_['fev'] = rng.randint(1, 7)
    if rng.random() < .3:
        o['e_1'] = rng.choice([.0625, .25, 1., 4.])
        sp_['e1'] = num(o['e_1'])
    if rng.random() < .3:
        o['e_2'] = rng.choice([.015625, .0625, .25, .5])
        sp_['e2'] = num(o['e_2'])
    if rng.random() < .35:
        o['e_3'] = rng.choice([.03125, .125, .5, .9])
        sp_['e3'] = num(o['e_3'])
    if rng.random() < .4:
        o['sparse_solver'] = rng.choice(['spsolve', 'cg', sp.linalg.spsolve])
    if rng.random() < .3:
        o['treat_as_dense'] = rng.choice([True, False])
    return o, sp_


def dogleg(r, rng, prob, o, spo, api=None, readcb=True):
    """one minimisation; every evaluation, accepted step and the return are recorded"""
    parts, w, fv = prob
    leafs = [n for n in r.ids() if r.g[n]['op'] == 'leaf' and r.alive(n)]
    r.ev(ev='obegin', obj=w, fv=fv, o=spo)
    W = r.objs[w]

    ne = [0]

    def seen():
        ne[0] += 1
        if ne[0] > 3000:
            raise RuntimeError('evaluations without end')
        r.ev(ev='oeval', L=snapshot(r, leafs), q=encl(W.r))

    sparse = rng.random() < .5
    fun, form = give(r, rng, parts, lambda x: U.probe(a=x, w=W, seen=seen, sparse=sparse))
    x0 = [r.objs[v] for v in fv]
    given = list(x0)
    calls = [0]

    def step(obj):
        calls[0] += 1
        read = readcb and rng.random() < .5
        r.ev(ev='ostep', L=snapshot(r, leafs), q=encl(W.r) if read else [])
    api = api or rng.choice(['minimize', 'minimize', 'dogleg'])

    def run():
        if api == 'minimize':
            return r.ch.minimize(fun, x0=x0, method='dogleg', callback=step, options=o)
        from chumpy.optimization_internal import minimize_dogleg
        return minimize_dogleg(fun, x0, on_step=step, **o)
    ok, res = r.guard(run)
    if not ok:
        r.die(ev='oend', L=[], ret=0)
    try:
        ret = 1 if len(res) == len(given) and all(a is b for a, b in zip(res, given)) else 0
    except TypeError:
        ret = 0
    L = snapshot(r, leafs)
    refresh(r, leafs)
    r.ev(ev='oend', L=L, ret=ret)


def scripted(r, rng, h):
    """dogleg on an objective that answers its trial points as the given run of DoglegMC.tla says"""
    o, h = h['o'], h['h']
    n = rng.choice([1, 2, 2, 3])
    m = n + 1
    e3 = rng.choice([.0625, .125]) if o['e3'] else 0.
    rnd = lambda a: np.round(np.asarray(a, dtype=np.float64) * 1e6) / 1e6

    def jac():
        J = np.zeros((m, n))
        for i in range(n):
            J[i, i] = rng.choice([1., 1.5, 2., -1., -1.25])
            for j in range(i + 1, n):
                J[i, j] = rng.choice([-.5, -.25, 0., .25, .5])
        return J

    def direction(flat):
        v = np.array([rng.choice([-1, 1]) * rng.uniform(.35, 1.) for _ in range(m)])
        if flat:
            v[:n] = 0.
        return v / np.linalg.norm(v)
    script = [x for x in h]
    edge = rng.choice([0., .25, .5])
    st = {'acc': None}

    def make(x):
        if st['acc'] is None:
            v = rnd(direction(False) * rng.choice([1., 2., 3.]))
            J = jac()
            st['acc'] = (np.array(x), v, J)
            return v, J
        ax, ar, aJ = st['acc']
        what = script.pop(0) if script else [rng.choice(['good', 'great', 'poor', 'worse']), 0]
        while what[0] == 'small':
            what = script.pop(0) if script else ['good', 0]
        d = x - ax
        F = ar.dot(ar)
        g = -aJ.T.dot(ar)
        pred = 2 * g.dot(d) - d.dot(aJ.T.dot(aJ.dot(d)))
        flat = what[1] == 1
        J = jac()
        if what[0] == 'equal':
            return ar.copy(), J
        if what[0] == 'undef':
            v = rnd(direction(False))
            v[rng.randrange(m)] = rng.choice([np.nan, np.inf, -np.inf, np.nan])
            return v, J
        if what[0] == 'worse':
            return rnd(direction(False) * np.sqrt(F * rng.choice([1.02, 1.5, 4.]))), J
        top = F / pred if pred > 0 else 1.
        if what[0] == 'great':
            F2 = F - pred * (min(1.3, .5 * (1 + top)) if top > 1.02 else .97)
        elif what[0] == 'good':
            F2 = F - pred * rng.choice([.12, .5, .8])
        elif what[0] == 'poor':
            F2 = F - pred * rng.choice([.02, .04])
        else:
            F2 = F * (1 - (e3 or .1) * rng.choice([.25, .75]))
        if not F2 > 1e-3 * F or F2 < .004:
            F2 = max(.5 * F, .004) if F > .008 else F * .5
        v = direction(flat) * np.sqrt(max(F2, 0.))
        if edge and rng.random() < .6:
            # a gradient just below, or just above, the threshold in its largest element
            gr = np.array([rng.choice([-1, 1]) * edge * rng.choice([.8, .85, .9]) for _ in range(n)])
            if not flat:
                gr[rng.randrange(n)] = rng.choice([-1, 1]) * edge * 1.1
            top = np.linalg.solve(J[:n].T, gr)
            if top.dot(top) < .9 * F2:
                v = np.concatenate([top, [np.sqrt(F2 - top.dot(top))]])
        v = rnd(v)
        if v.dot(v) < F:
            st['acc'] = (np.array(x), v, J)
        return v, J
    x0 = G.values(rng, (n,), -2, 2)
    if not np.any(x0):
        x0[0] = 1.
    x = r.leaf(x0, rng.choice(['Ch', 'later', 'list']))
    w = r.node('table', [x], {'t': []})
    at = len(r.lines) - 1
    rule = U.Table(make)
    r.objs[w].rule = rule
    rule.at(x0)
    opt = {'disp': False, 'maxiter': o['maxiter']}
    spo = {'delta': NODELTA, 'e1': num(1e-15), 'e2': num(1e-15), 'e3': num(e3), 'fev': o['fev'], 'maxiter': o['maxiter'], 'sing': 0}
    if o['fev']:
        opt['max_fevals'] = o['fev']
    if e3:
        opt['e_3'] = e3
    if rng.random() < .75:
        opt['delta_0'] = rng.choice([.25, .5, 1., 2.])
        spo['delta'] = num(opt['delta_0'])
    if edge or rng.random() < .7:
        opt['e_1'] = edge or .015625
        spo['e1'] = num(opt['e_1'])
    if rng.random() < .8:
        d0 = opt.get('delta_0', 1.)
        opt['e_2'] = float(rnd(d0 * .25 ** (h_region(rng) + .5) / max(.5, np.linalg.norm(x0))))
        spo['e2'] = num(opt['e_2'])
    else:
        opt['max_fevals'] = spo['fev'] = o['fev'] or 8
    try:
        dogleg(r, rng, ([w], w, [x]), opt, spo)
    finally:
        t = [{'x': encl(e[0]), 'v': encl(e[1]), 'J': [encl(q) for q in e[2]]} for e in rule.known]
        ln = json.loads(r.lines[at])
        ln['p'] = {'t': t}
        r.lines[at] = json.dumps(ln, separators=(',', ':'))


def h_region(rng):
    return rng.choice([0, 1, 1, 2, 2, 3])


# ------------------------------------------------------------------ the general minimisers
REAL = ['Nelder-Mead', 'Powell', 'CG', 'BFGS', 'Newton-CG', 'L-BFGS-B', 'TNC', 'COBYLA', 'SLSQP', 'trust-ncg', 'trust-krylov', 'trust-constr']
NOCALLBACK = ('powell', 'cobyla', 'slsqp')


class Result(object):
    def __init__(self, x):
        self.x = x


def alike(a, b):
    if a is None or b is None:
        return a is b
    try:
        return np.array_equal(np.array(a, dtype=float), np.array(b, dtype=float), equal_nan=True)
    except (TypeError, ValueError):
        return a == b


def scipy_min(r, rng, prob, method, scripted, limit=14, opts=None, tol=None, bounds=None):
    """one call of minimize with another method; the functions it hands over are recorded as they are called.

    scripted: the minimiser is a stand-in that calls them at points of our own choosing, in any order."""
    import scipy.optimize as so
    parts, w, fv = prob
    leafs = [n for n in r.ids() if r.g[n]['op'] == 'leaf' and r.alive(n)]
    r.ev(ev='sbegin', obj=w, fv=fv)
    fun, form = give(r, rng, parts)
    x0 = [r.objs[v] for v in fv]
    given = list(x0)
    real = so.minimize
    n = int(sum(r.shadow(v).size for v in fv))
    first = np.concatenate([np.asarray(r.shadow(v)).ravel() for v in fv])
    state = {'n': 0, 'kw': None}

    def logged(name, f):
        if f is None or not callable(f):
            return f

        def g(x, *a):
            x_in = np.array(x, dtype=np.float64)
            out = f(x, *a)
            state['n'] += 1
            if state['n'] <= limit or (state['n'] % 17 == 0 and state['n'] < 300):
                p = encl(a[0]) if name == 'hessp' else []
                v = np.asarray(dense(out) if name == 'hess' else out, dtype=np.float64)
                r.ev(ev='scall', f=name, x=encl(x_in), p=p, v=encl(v), L=snapshot(r, leafs))
            return out
        return g

    def stand_in(fun, x0, args=(), method=None, jac=None, hess=None, hessp=None, bounds=None, constraints=(), tol=None, callback=None, options=None):
        state['kw'] = dict(x0=x0, method=method, bounds=bounds, constraints=constraints, tol=tol, options=options)
        F, Jf = logged('fun', fun), logged('jac', jac)
        H, Hp = logged('hess', hess), logged('hessp', hessp)
        if not scripted:
            kw = dict(args=args, method=method, jac=Jf, bounds=bounds, constraints=constraints, tol=tol, callback=callback, options=options)
            if hess is not None:
                kw['hess'] = H
            if hessp is not None:
                kw['hessp'] = Hp
            res = real(F, x0, **kw)
            state['x'] = np.array(res.x, dtype=np.float64)
            return res
        seconds = rng.choice([['hess'], ['hessp'], ['hess', 'hessp']])
        pts = [np.array(x0, dtype=np.float64).ravel()] + [G.values(rng, (n,), -2, 2) for _ in range(rng.randint(1, 3))]
        if rng.random() < .5:                # points that differ in one element only
            q = pts[-1].copy()
            q[rng.randrange(n)] += rng.choice([.125, -.125, 2. ** -10, -2. ** -12])
            pts.append(q)
        inplace, cur = rng.random() < .5, np.zeros(n)
        for _ in range(rng.randint(3, 9)):
            x = rng.choice(pts).copy()
            if inplace:                      # as some of SciPy's methods do
                cur[:] = x
                x = cur
            k = rng.random()
            second = rng.choice(seconds)
            if k < .35:
                F(x, *args)
            elif k < .7 or hess is None and hessp is None:
                Jf(x, *args)
            elif second == 'hess' and hess is not None:
                H(x, *args)
            elif hessp is not None:
                Hp(x, G.values(rng, (n,), -2, 2), *args)
        state['x'] = rng.choice(pts).copy()
        return Result(state['x'].copy())

    cb = None
    ncb = [0]
    if rng.random() < .4:
        def cb(*a, **k):
            ncb[0] += 1
    kw = {}
    if opts is not None:
        kw['options'] = opts
    if tol is not None:
        kw['tol'] = tol
    if bounds is not None:
        kw['bounds'] = bounds
    if cb is not None:
        kw['callback'] = cb
    so.minimize = stand_in
    try:
        ok, res = r.guard(lambda: r.ch.minimize(fun, x0=x0, method=method, **kw))
    finally:
        so.minimize = real
    if not ok:
        r.die(ev='send', L=[], x=[], ret=0)
    try:
        ret = 1 if len(res) == len(given) and all(a is b for a, b in zip(res, given)) else 0
    except TypeError:
        ret = 0
    if state['kw'] is not None:
        k = state['kw']
        good = np.array_equal(np.asarray(k['x0']).ravel(), first) and str(k['method']).lower() == method.lower() and \
            alike(k['bounds'], bounds) and alike(k['tol'], tol) and (k['options'] or {}) == (opts or {})
        r.ev(ev='same', what='arguments-passed-on', n=w, x=[1], y=[1 if good else 0])
    L = snapshot(r, leafs)
    refresh(r, leafs)
    if 'x' in state:
        r.ev(ev='send', L=L, x=encl(state['x']), ret=ret)
