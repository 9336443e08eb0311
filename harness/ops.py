"""The operations of chumpy as the drivers use them.

For every operation of spec/Ops.tla: how the real object is built, the names
of its terms, and a NumPy shadow.  The shadow decides only which programs are
generated (shapes, magnitudes, distance from singularities); it never decides
a verdict.
"""
import numpy as np
import warnings

NONE = 99999


def N(x):
    return None if x == NONE else x


def key_of(items):
    out = []
    for it in items:
        t = it['t']
        if t == 'i':
            out.append(it['i'])
        elif t == 's':
            out.append(slice(N(it['a']), N(it['b']), N(it['c'])))
        elif t == 'l':
            out.append(list(it['l']))
        elif t == 'm':
            out.append(np.array(it['l'], dtype=bool))
        elif t == 'n':
            out.append(None)
        elif t == 'e':
            out.append(Ellipsis)
        elif t == 'M':
            return np.array(it['l'], dtype=bool).reshape(it['sh'])
        elif t == 'z':
            cols = list(zip(*it['l']))
            return tuple(list(c) for c in cols)
    return out[0] if len(out) == 1 else tuple(out)


class Op(object):
    def __init__(self, name, build, shadow, attrs, params=None, dom=None):
        self.name, self.build, self.shadow, self.attrs = name, build, shadow, attrs
        self.params = params or {}
        self.dom = dom            # predicate on argument arrays


OPS = {}


def op(name, build, shadow, attrs, params=None, dom=None):
    OPS[name] = Op(name, build, shadow, attrs, params, dom)


def far(x, lo):
    return bool(np.all(np.abs(x) >= lo))


def register(ch):
    """ch: the chumpy module under test."""
    from . import usernodes as U
    import operator as o

    def bin_(name, cls, npf, attrs, oper=None, dom=None):
        def build(A, p, st):
            if oper is not None and st == 'op' and (hasattr(A[0], 'dterms') or hasattr(A[1], 'dterms')):
                return oper(A[0], A[1])
            return cls(A[0], A[1])
        op(name, build, lambda A, p: npf(A[0], A[1]), attrs, dom=dom)

    bin_('add', ch.add, np.add, ('a', 'b'), o.add)
    bin_('subtract', ch.subtract, np.subtract, ('a', 'b'), o.sub)
    bin_('multiply', ch.multiply, np.multiply, ('a', 'b'), o.mul)
    bin_('divide', ch.divide, np.divide, ('x1', 'x2'), o.truediv, dom=lambda A: far(A[1], .2))
    bin_('power', ch.power, np.power, ('x', 'pow'), o.pow,
         dom=lambda A: bool(np.all(A[0] > .1) and np.all(np.abs(A[1]) <= 3)))
    # integer powers, of bases of any sign (no derivative with respect to the exponent)
    bin_('ipower', ch.power, np.power, ('x', None), o.pow,
         dom=lambda A: bool(np.all(A[1] == np.round(A[1])) and np.all(np.abs(A[1]) <= 4) and (np.all(A[1] >= 0) or far(A[0], .3))))
    bin_('maximum', ch.maximum, np.maximum, ('a', 'b'))
    bin_('minimum', ch.minimum, np.minimum, ('a', 'b'))

    def nandiv(a, b):
        r = np.asarray(a / b)
        r[~np.isfinite(r)] = 0
        return r
    bin_('NanDivide', ch.NanDivide, nandiv, ('x1', 'x2'))
    for nm, f in (('greater', o.gt), ('greater_equal', o.ge), ('less', o.lt), ('less_equal', o.le),
                  ('equal', None), ('not_equal', o.ne)):
        bin_(nm, getattr(ch, nm), lambda a, b, nm=nm: getattr(np, nm)(a, b) * 1., ('x1', 'x2'), f)

    def un(name, build, npf, attr='x', dom=None):
        op(name, lambda A, p, st: build(A[0], st), lambda A, p: npf(A[0]), (attr,), dom=dom)

    un('negative', lambda x, st: -x if st == 'op' else ch.negative(x), np.negative)
    un('absolute', lambda x, st: abs(x) if st == 'op' else ch.abs(x), np.abs)
    un('square', lambda x, st: ch.square(x), np.square)
    un('reciprocal', lambda x, st: ch.reciprocal(x), np.reciprocal, dom=lambda A: far(A[0], .2))
    un('sqrt', lambda x, st: ch.sqrt(x), np.sqrt, dom=lambda A: bool(np.all(A[0] > .02)))
    un('exp', lambda x, st: ch.exp(x), np.exp, dom=lambda A: bool(np.all(np.abs(A[0]) < 5)))
    un('log', lambda x, st: ch.log(x), np.log, dom=lambda A: bool(np.all(A[0] > .05)))
    un('sin', lambda x, st: ch.sin(x), np.sin, dom=lambda A: bool(np.all(np.abs(A[0]) < 90)))
    un('cos', lambda x, st: ch.cos(x), np.cos, dom=lambda A: bool(np.all(np.abs(A[0]) < 90)))
    un('tan', lambda x, st: ch.tan(x), np.tan,
       dom=lambda A: bool(np.all(np.abs(A[0]) < 50) and np.all(np.abs(np.cos(A[0])) > .2)))
    un('arcsin', lambda x, st: ch.arcsin(x), np.arcsin, dom=lambda A: bool(np.all(np.abs(A[0]) < .95)))
    un('arccos', lambda x, st: ch.arccos(x), np.arccos, dom=lambda A: bool(np.all(np.abs(A[0]) < .95)))
    un('arctan', lambda x, st: ch.arctan(x), np.arctan)
    un('nan_to_num', lambda x, st: ch.nan_to_num(x), np.nan_to_num)
    un('floor', lambda x, st: x.floor() if st == 'op' else ch.floor(x), np.floor)
    un('ceil', lambda x, st: x.ceil() if st == 'op' else ch.ceil(x), np.ceil)
    un('sign', lambda x, st: ch.sign(x), np.sign)
    from chumpy import extras
    import scipy.special
    un('gamma', lambda x, st: extras.gamma(x), scipy.special.gamma,
       dom=lambda A: bool(np.all(A[0] >= 1) and np.all(A[0] < 8) and np.all(A[0] == np.round(A[0]))))
    un('identity', lambda x, st: ch.ChHandle(x=x), lambda a: a)

    def bound(b):
        if b['s'] == [1] and abs(b['v'][0]) == 10 ** 9:
            return None          # no bound on this side
        return b['v'][0] / 1e6 if b['s'] == [1] else (np.array(b['v'], dtype=np.float64) / 1e6).reshape(b['s'])

    def clipped(A, p):
        v = np.clip(A[0], bound(p['lo']), bound(p['hi']))
        if v.shape != A[0].shape:
            raise ValueError('bounds larger than the array')
        return v
    op('clip', lambda A, p, st: ch.clip(A[0], bound(p['lo']), bound(p['hi'])), clipped, ('a',),
       {'lo': ('a_min', bound), 'hi': ('a_max', bound)})

    ax = {'axis': ('axis', N)}

    def red(name, f, npf, attr):
        def build(A, p, st):
            a = N(p['axis'])
            if st == 'op' and name in ('sum', 'mean', 'max', 'min', 'cumsum'):
                return getattr(A[0], name)(a)
            return f(A[0], axis=a)
        op(name, build, lambda A, p: npf(A[0], axis=N(p['axis'])), (attr,), ax)
    red('sum', ch.sum, np.sum, 'x')
    red('mean', ch.mean, np.mean, 'x')
    red('var', ch.var, np.var, None)
    red('std', ch.std, np.std, None)
    red('nanmax', ch.nanmax, np.nanmax, 'a')
    red('nanmin', ch.nanmin, np.nanmin, 'a')
    red('cumsum', ch.cumsum, np.cumsum, 'a')
    op('amax', lambda A, p, st: A[0].max(N(p['axis'])) if st == 'op' else ch.amax(A[0], axis=N(p['axis'])),
       lambda A, p: np.amax(A[0], axis=N(p['axis'])), ('a',), ax)
    op('amin', lambda A, p, st: A[0].min(N(p['axis'])) if st == 'op' else ch.amin(A[0], axis=N(p['axis'])),
       lambda A, p: np.amin(A[0], axis=N(p['axis'])), ('a',), ax)
    op('moment', lambda A, p, st: extras.moment(A[0], moment=p['k'], axis=p['axis']),
       lambda A, p: np.mean((A[0] - np.mean(A[0], axis=p['axis'], keepdims=True)) ** p['k'], axis=p['axis']), (None,))
    op('SumOfSquares', lambda A, p, st: ch.SumOfSquares(A[0]), lambda A, p: np.sum(A[0] ** 2), ('x',))
    op('norm', lambda A, p, st: ch.linalg.norm(A[0]), lambda A, p: np.sqrt(np.sum(A[0] ** 2)), (None,),
       dom=lambda A: bool(np.sum(A[0] ** 2) > .1))

    # ---- rearrangements
    op('reshape', lambda A, p, st: A[0].reshape(*p['shape']) if st == 'op' else ch.reshape(A[0], tuple(p['shape'])),
       lambda A, p: A[0].reshape(p['shape']), ('a',), {'shape': ('newshape', tuple)})
    op('ravel', lambda A, p, st: A[0].ravel() if st == 'op' else ch.ravel(A[0]), lambda A, p: A[0].ravel(), ('a',))

    def build_tr(A, p, st):
        if not p['axes']:
            return A[0].T if st == 'op' else ch.transpose(A[0])
        if st == 'op':
            return A[0].transpose(*p['axes'])
        return ch.transpose(A[0], tuple(p['axes']))
    op('transpose', build_tr, lambda A, p: np.transpose(A[0], p['axes'] or None), ('a',),
       {'axes': ('axes', lambda v: tuple(v) if v else None)})
    op('swapaxes', lambda A, p, st: ch.swapaxes(A[0], p['axis1'], p['axis2']),
       lambda A, p: np.swapaxes(A[0], p['axis1'], p['axis2']), ('a',),
       {'axis1': ('axis1', int), 'axis2': ('axis2', int)})
    op('rollaxis', lambda A, p, st: (ch.rollaxis(A[0], p['axis']) if st == 'op' and p['start'] == 0
                                     else ch.rollaxis(A[0], p['axis'], p['start'])),
       lambda A, p: np.rollaxis(A[0], p['axis'], p['start']), ('a',),
       {'axis': ('axis', int), 'start': ('start', int)})
    op('roll', lambda A, p, st: ch.roll(A[0], p['shift'], N(p['axis'])),
       lambda A, p: np.roll(A[0], p['shift'], N(p['axis'])), ('a',), {'shift': ('shift', int), 'axis': ('axis', N)})
    op('rot90', lambda A, p, st: ch.rot90(A[0], p['k']), lambda A, p: np.rot90(A[0], p['k']), ('a',), {'k': ('k', int)})

    def reps(p):
        return p['reps'][0] if p.get('int') else tuple(p['reps'])
    op('tile', lambda A, p, st: ch.tile(A[0], reps(p)), lambda A, p: np.tile(A[0], reps(p)), ('a',),
       {'reps': ('reps', tuple)})

    def rreps(p):
        return p['reps'][0] if len(p['reps']) == 1 else (list(p['reps']) if p.get('lst') else np.array(p['reps']))
    op('repeat', lambda A, p, st: ch.repeat(A[0], rreps(p), N(p['axis'])),
       lambda A, p: np.repeat(A[0], rreps(p), N(p['axis'])), ('a',),
       {'reps': ('repeats', lambda v: v[0] if len(v) == 1 else np.array(v)), 'axis': ('axis', N)})
    op('diag', lambda A, p, st: ch.diag(A[0], p['k']) if (p['k'] or st != 'op') else ch.diag(A[0]),
       lambda A, p: np.diag(A[0], p['k']), ('a',), {'k': ('k', int)})
    op('diagflat', lambda A, p, st: ch.diagflat(A[0], p['k']), lambda A, p: np.diagflat(A[0], p['k']), ('a',), {'k': ('k', int)})
    op('sort', lambda A, p, st: ch.sort(A[0], axis=N(p['axis'])) if p['axis'] != -1 or st != 'op' else ch.sort(A[0]),
       lambda A, p: np.sort(A[0], axis=N(p['axis'])), ('a',), {'axis': ('axis', N)})
    op('fliplr', lambda A, p, st: ch.fliplr(A[0]), lambda A, p: np.fliplr(A[0]), ('a',))
    op('flipud', lambda A, p, st: ch.flipud(A[0]), lambda A, p: np.flipud(A[0]), ('a',))
    op('expand_dims', lambda A, p, st: ch.expand_dims(A[0], p['axis']), lambda A, p: np.expand_dims(A[0], p['axis']), ('a',))
    op('squeeze', lambda A, p, st: A[0].squeeze(N(p['axis'])) if st == 'op' else ch.squeeze(A[0], N(p['axis'])),
       lambda A, p: np.squeeze(A[0], N(p['axis'])), ('a',))
    op('atleast', lambda A, p, st: [ch.atleast_1d, ch.atleast_2d, ch.atleast_3d][p['n'] - 1](A[0]),
       lambda A, p: [np.atleast_1d, np.atleast_2d, np.atleast_3d][p['n'] - 1](A[0]), ('x',), {'n': ('ndims', int)})
    op('getitem', lambda A, p, st: A[0][key_of(p['key'])], lambda A, p: A[0][key_of(p['key'])], ('a',))
    op('select', lambda A, p, st: ch.Select(a=A[0], idxs=np.array(p['idx'], dtype=int), preferred_shape=tuple(p['shape'])),
       lambda A, p: A[0].ravel()[np.array(p['idx'], dtype=int)].reshape(p['shape']), ('a',),
       {'idx': ('idxs', lambda v: np.array(v, dtype=int)), 'shape': ('preferred_shape', tuple)})
    mm = tuple('m%d' % i for i in range(12))
    op('concatenate', lambda A, p, st: ch.concatenate(list(A) if st == 'op' else tuple(A), axis=p['axis']),
       lambda A, p: np.concatenate(A, axis=p['axis']), mm, {'axis': ('axis', int)})
    op('hstack', lambda A, p, st: ch.hstack(list(A)), lambda A, p: np.hstack(A), mm)
    op('vstack', lambda A, p, st: ch.vstack(list(A)), lambda A, p: np.vstack(A), (None,) * 12)
    op('dstack', lambda A, p, st: ch.dstack(list(A)), lambda A, p: np.dstack(A), (None,) * 12)

    # ---- products and linear algebra
    op('dot', lambda A, p, st: A[0].dot(A[1]) if st == 'op' and hasattr(A[0], 'dterms') else ch.dot(A[0], A[1]),
       lambda A, p: np.dot(A[0], A[1]), ('a', 'b'))

    def td_axes(p):
        return p['int'] if 'int' in p else (list(p['xa']), list(p['xb']))
    op('tensordot', lambda A, p, st: ch.tensordot(A[0], A[1], axes=td_axes(p)),
       lambda A, p: np.tensordot(A[0], A[1], axes=td_axes(p)), (None, None))
    def cr(f, A, p, st=None):
        if st == 'op' and (p['xa'], p['xb'], p['xc'], p['axis']) == (-1, -1, -1, NONE):
            return f(A[0], A[1])
        return f(A[0], A[1], axisa=p['xa'], axisb=p['xb'], axisc=p['xc'], axis=N(p['axis']))

    def crs(A, p):
        if p['axis'] != NONE:
            wa, wb = A[0].shape[p['axis']], A[1].shape[p['axis']]
        else:
            wa, wb = A[0].shape[p['xa']], A[1].shape[p['xb']]
        if wa != wb or wa not in (2, 3):
            raise ValueError('not vectors of one dimension')
        return cr(np.cross, A, p)
    op('cross', lambda A, p, st: cr(ch.cross, A, p, st), crs, ('a', 'b'),
       {'xa': ('axisa', int), 'xb': ('axisb', int), 'xc': ('axisc', int), 'axis': ('axis', N)})

    def mtx(p):
        return np.array(p['mtx']['v']).reshape(p['mtx']['s']) / 1e6
    import scipy.sparse as sp

    def mk_mtx(p):
        m = mtx(p)
        return sp.csc_matrix(m) if p.get('sparse') else m
    def mv(x, v):
        return x.reshape((-1, v.shape[1])) if v.ndim > 1 and v.shape[1] > 1 else x
    op('matvec', lambda A, p, st: ch.MatVecMult(mtx=mk_mtx(p), vec=A[0]), lambda A, p: mv(mtx(p).dot(A[0].ravel()), A[0]), ('vec',),
       {'mtx': ('mtx', lambda m: (sp.csr_matrix if len(m['v']) % 2 else np.array)(np.array(m['v']).reshape(m['s']) / 1e6))})

    def cond_ok(A):
        m = A[0]
        if m.ndim >= 3:
            return all(cond_ok([q]) for q in m)
        return m.ndim == 2 and m.shape[0] == m.shape[1] and abs(np.linalg.det(m)) > .5 and np.linalg.cond(m) < 40
    op('inv', lambda A, p, st: ch.linalg.inv(A[0]), lambda A, p: np.linalg.inv(A[0]), ('a',), dom=cond_ok)
    op('det', lambda A, p, st: ch.linalg.det(A[0]), lambda A, p: np.linalg.det(A[0]), ('x',), dom=cond_ok)
    op('logabsdet', lambda A, p, st: ch.linalg.slogdet(A[0])[1], lambda A, p: np.linalg.slogdet(A[0])[1], ('x',), dom=cond_ok)
    op('logabsdets', lambda A, p, st: ch.linalg.slogdet(*A)[1], lambda A, p: np.concatenate([np.atleast_1d(np.linalg.slogdet(q)[1]) for q in A]),
       (None,) * 6, dom=lambda A: len(A) > 1 and all(cond_ok([q]) for q in A))
    op('signdet', lambda A, p, st: ch.linalg.slogdet(A[0])[0] if st == 'op' else ch.linalg.slogdet(A[0], A[0])[0][1], lambda A, p: np.linalg.slogdet(A[0])[0], (None,), dom=cond_ok)

    def full_rank(A):
        if A[0].ndim != 2:
            return False
        s = np.linalg.svd(A[0])[1]
        return s[-1] > .5 and s[0] / s[-1] < 12
    op('pinv', lambda A, p, st: ch.linalg.pinv(A[0]), lambda A, p: np.linalg.pinv(A[0]), ('mtx',), dom=full_rank)
    op('lstsq', lambda A, p, st: ch.linalg.lstsq(A[0], A[1])[0], lambda A, p: np.linalg.pinv(A[0]).dot(A[1]), (None, None), dom=full_rank)
    op('lstsq_res', lambda A, p, st: ch.linalg.lstsq(A[0], A[1])[1],
       lambda A, p: np.sum((A[0].dot(np.linalg.pinv(A[0]).dot(A[1])) - A[1]) ** 2, axis=0), (None, None), dom=full_rank)

    # ---- logic, interpolation, user-defined
    from chumpy import logic

    def lg(A, p, st):
        f = getattr(logic, p['fn'])
        if p['fn'] in ('all', 'any') and p['axis'] != NONE:
            return f(A[0], axis=p['axis'])
        return f(A[0])

    def lgn(A, p):
        f = getattr(np, p['fn'])
        return (f(A[0], axis=N(p['axis'])) if p['fn'] in ('all', 'any') else f(A[0])) * 1.
    op('logic', lg, lgn, ('a',))
    def image(b):
        return (np.array(b['v'], dtype=np.float64) / 1e6).reshape(b['s'])

    def interp(A, p):
        im, L = image(p['image']), A[0]
        if L.ndim != 2 or L.shape[1] != 3:
            raise ValueError('locations')
        c = np.clip(L, 0, np.array(im.shape) - 1)
        f = np.floor(c).astype(int)
        k = tuple(f.T)
        return im[k] + sum(g[k] * (c - f)[:, i] for i, g in enumerate(np.gradient(im)))
    op('interp3d', lambda A, p, st: extras.Interp3D(locations=A[0], image=image(p['image'])), interp, ('locations',),
       {'image': ('image', image)})
    op('user', lambda A, p, st: (U.usersub if p['k'] in (-2, 3) else U.user)(A[0], A[1], p['k']), lambda A, p: A[0] + p['k'] * A[1], ('a', 'b'), {'k': ('k', int)})
    op('table', lambda A, p, st: U.table(x=A[0], rule=p['t']), lambda A, p: np.zeros(1), ('x',))
    def tri(A, p, st):
        kw = dict(a=A[0], b=A[1], c=A[2], k=p['k'], how=p['how'])
        if p['how'].startswith('make'):
            kw['how'] = 'csc' if p['how'] == 'make_dense' else 'dense'
            kw[p['how']] = True
        return U.utri(**kw)
    op('utri', tri, lambda A, p: A[0] * A[1] + p['k'] * A[2], ('a', 'b', 'c'), {'k': ('k', int)})
    op('ualias', lambda A, p, st: U.ualias(h=ch.ChHandle(x=A[0])), lambda A, p: 3 * A[0], ('v',))
    op('usum', lambda A, p, st: U.make_usum(A), lambda A, p: sum(A), tuple('t%d' % i for i in range(12)))
    op('ulazy', lambda A, p, st: U.ulazy(A[0], A[1], p['k']), lambda A, p: A[0] if p['k'] == 0 else A[0] + A[1], ('a', 'b'), {'k': ('k', int)})
    op('usq', lambda A, p, st: U.usq(A[0], A[1]), lambda A, p: A[0] * A[1], ('a', 'b'))


def shadow_apply(name, args, p):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with np.errstate(all='ignore'):
            return np.atleast_1d(np.asarray(OPS[name].shadow(args, p), dtype=np.float64))
