"""Random programs over the operations of ops.py."""
import numpy as np
from .ops import OPS, NONE

SHAPES = [(1,), (2,), (3,), (4,), (5,), (1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (1, 4), (4, 1),
          (1, 1, 1), (2, 1, 3), (1, 2, 2), (2, 2, 2), (2, 3, 2), (1, 3, 1), (3, 1, 2), (2, 1, 1, 2), (1, 2, 3, 1), (2, 2, 1, 2)]
SMALL = [s for s in SHAPES if int(np.prod(s)) <= 6]


def values(rng, shape, lo=-3., hi=3., grid=8, distinct=False):
    n = int(np.prod(shape))
    ks = list(range(int(lo * grid), int(hi * grid) + 1))
    if distinct and len(ks) >= n:
        v = rng.sample(ks, n)
    else:
        v = [rng.choice(ks) for _ in range(n)]
    return (np.array(v, dtype=np.float64) / grid).reshape(shape)


def pos(rng, shape, lo=.25, hi=4.):
    return values(rng, shape, lo, hi)


def wellcond(rng, n, m=None):
    m = m or n
    for _ in range(200):
        a = values(rng, (n, m), -2, 2, 4)
        s = np.linalg.svd(a)[1]
        if s[-1] > .7 and s[0] / s[-1] < 6:
            return a
    return np.eye(n, m) * 2


def stack(rng, lead, k):
    """square matrices along leading axes"""
    return np.array([wellcond(rng, k) for _ in range(int(np.prod(lead)))]).reshape(tuple(lead) + (k, k))


def lead_of(rng):
    return rng.choice([(), (), (), (), (2,), (3,), (1,), (2, 2), (1, 2)])


def axis_of(rng, nd, none=.25):
    if rng.random() < none:
        return NONE
    return rng.randrange(-nd, nd)


def rand_key(rng, shape, adv=True):
    """a random indexing key for an array of this shape"""
    n = int(np.prod(shape))
    r = rng.random()
    if adv and r < .08:
        l = [rng.randrange(2) for _ in range(n)]
        if sum(l) == 0:
            l[rng.randrange(n)] = 1
        return [{'t': 'M', 'l': l, 'sh': list(shape)}]
    if adv and r < .14 and len(shape) >= 2:
        k = rng.randrange(1, 4)
        return [{'t': 'z', 'l': [[rng.randrange(-s, s) for s in shape] for _ in range(k)]}]
    items = []
    used_adv = False
    nd = len(shape)
    upto = nd if rng.random() < .6 else rng.randrange(1, nd + 1)
    ell_at = rng.randrange(0, upto + 1) if rng.random() < .15 else None
    # with an ellipsis, the items after it count from the back
    front = upto if ell_at is None else ell_at
    axes = list(range(front)) + list(range(nd - (upto - front), nd))
    for j, ax in enumerate(axes):
        if ell_at is not None and j == ell_at:
            items.append({'t': 'e'})
        if rng.random() < .06 and not used_adv:
            items.append({'t': 'n'})
        s = shape[ax]
        t = rng.random()
        if t < .3:
            items.append({'t': 'i', 'i': rng.randrange(-s, s)})
        elif t < .8 or used_adv or not adv:
            for _ in range(20):
                a = NONE if rng.random() < .4 else rng.randrange(-s - 1, s + 2)
                b = NONE if rng.random() < .4 else rng.randrange(-s - 1, s + 2)
                c = NONE if rng.random() < .5 else rng.choice([1, 2, -1, -2, 3])
                sl = slice(None if a == NONE else a, None if b == NONE else b, None if c == NONE else c)
                if len(range(*sl.indices(s))) > 0:
                    break
            else:
                a = b = c = NONE
            items.append({'t': 's', 'a': a, 'b': b, 'c': c})
        elif t < .93:
            k = rng.randrange(1, s + 2)
            items.append({'t': 'l', 'l': [rng.randrange(-s, s) for _ in range(k)]})
            used_adv = True
        else:
            l = [rng.randrange(2) for _ in range(s)]
            if sum(l) == 0:
                l[0] = 1
            items.append({'t': 'm', 'l': l})
            used_adv = True
    if ell_at is not None and ell_at >= len(axes):
        items.append({'t': 'e'})
    # NumPy moves a list index to the front when an integer index is separated from it:
    # keep the key free of integers next to list/mask indices
    if any(i['t'] in 'lm' for i in items) and any(i['t'] == 'i' for i in items):
        for i in items:
            if i['t'] == 'i':
                i['t'] = 's'
                i['a'], i['b'], i['c'] = NONE, NONE, NONE
                del i['i']
    if not items:
        items = [{'t': 's', 'a': NONE, 'b': NONE, 'c': NONE}]
    return items


def factor_shapes(rng, n):
    out = [[n]]
    for a in range(1, n + 1):
        if n % a == 0:
            out.append([a, n // a])
            for b in range(1, n // a + 1):
                if (n // a) % b == 0:
                    out.append([a, b, n // a // b])
    s = rng.choice(out)
    if rng.random() < .3:
        s = list(s)
        s[rng.randrange(len(s))] = -1
    return s


def params(rng, op, sh):
    """parameters for a unary op on an array of shape sh; None if it does not apply"""
    nd = len(sh)
    n = int(np.prod(sh))
    if op in ('sum', 'mean', 'amax', 'amin', 'nanmax', 'nanmin', 'var', 'std'):
        return {'axis': axis_of(rng, nd)}
    if op == 'cumsum':
        return {'axis': axis_of(rng, nd, .7)}
    if op == 'moment':
        return {'k': rng.choice([2, 3]), 'axis': rng.randrange(nd)}
    if op == 'reshape':
        return {'shape': factor_shapes(rng, n)}
    if op == 'transpose':
        if rng.random() < .4:
            return {'axes': []}
        ax = list(range(nd))
        rng.shuffle(ax)
        if rng.random() < .2:
            ax = [a - nd for a in ax]
        return {'axes': ax}
    if op == 'swapaxes':
        return {'axis1': rng.randrange(-nd, nd), 'axis2': rng.randrange(-nd, nd)}
    if op == 'rollaxis':
        return {'axis': rng.randrange(-nd, nd), 'start': rng.choice([0, rng.randrange(-nd, nd + 1)])}
    if op == 'roll':
        return {'shift': rng.randrange(-5, 6), 'axis': axis_of(rng, nd, .4)}
    if op == 'rot90':
        return {'k': rng.randrange(-3, 6)} if nd >= 2 else None
    if op == 'tile':
        k = rng.choice([nd, nd, max(1, nd - 1), nd + 1])
        r = [rng.choice([1, 1, 2, 3]) for _ in range(min(k, 4))]
        if int(np.prod(r)) * n > 36:
            return None
        p = {'reps': r}
        if len(r) == 1 and rng.random() < .5:
            p['int'] = 1
        return p
    if op == 'repeat':
        ax = axis_of(rng, nd, .3)
        m = n if ax == NONE else sh[ax]
        if rng.random() < .7:
            r = [rng.choice([1, 2, 3])]
        else:
            r = [rng.choice([0, 1, 2]) for _ in range(m)]
            if sum(r) == 0:
                r[0] = 1
            if len(r) == 1:
                r = [max(1, r[0])]
        if (r[0] if len(r) == 1 else 2) * n > 36:
            return None
        p = {'reps': r, 'axis': ax}
        if len(r) > 1 and rng.random() < .5:
            p['lst'] = 1
        return p
    if op == 'diag':
        if nd == 1 and n <= 4:
            return {'k': rng.choice([0, 0, 1, -1, 2])}
        if nd == 2:
            k = rng.randrange(-sh[0] + 1, sh[1])
            return {'k': k}
        return None
    if op == 'diagflat':
        return {'k': rng.choice([0, 0, 1, -1])} if n <= 4 else None
    if op == 'sort':
        return {'axis': rng.choice([-1, NONE, rng.randrange(-nd, nd)])}
    if op == 'fliplr':
        return {} if nd >= 2 else None
    if op == 'expand_dims':
        return {'axis': rng.randrange(-nd - 1, nd + 1)} if nd <= 3 else None
    if op == 'squeeze':
        ones = [i for i in range(nd) if sh[i] == 1]
        if ones and rng.random() < .5:
            a = rng.choice(ones)
            return {'axis': a if rng.random() < .6 else a - nd}
        return {'axis': NONE}
    if op == 'atleast':
        return {'n': rng.choice([1, 2, 3])}
    if op == 'getitem':
        return {'key': rand_key(rng, sh)}
    if op == 'clip':
        if rng.random() < .6:
            lo = rng.randrange(-16, 4)
            hi = lo + rng.randrange(2, 16)
            free = rng.randrange(5)      # bounded on one side only
            return {'lo': {'s': [1], 'v': [-10 ** 9 if free == 0 else lo * 125000 + 62500]},
                    'hi': {'s': [1], 'v': [10 ** 9 if free == 1 else hi * 125000 + 62500]}}
        lh = []
        for a, b in ((-16, 3), (4, 20)):      # bounds of their own for elements, rows, ...
            t = [1] if rng.random() < .3 else [d if rng.random() < .7 else 1 for d in sh][rng.randrange(nd) if rng.random() < .3 else 0:]
            lh.append({'s': [1], 'v': [a // abs(a) * 10 ** 9]} if rng.random() < .1 and not (lh and lh[0]['v'] == [-10 ** 9]) else {'s': t, 'v': [rng.randrange(a, b) * 125000 + 62500 for _ in range(int(np.prod(t)))]})
        return {'lo': lh[0], 'hi': lh[1]}
    if op == 'logic':
        fn = rng.choice(['all', 'any', 'isfinite', 'isinf', 'isnan', 'isneginf', 'isposinf', 'logical_not'])
        return {'fn': fn, 'axis': axis_of(rng, nd) if fn in ('all', 'any') else NONE}
    if op == 'matvec':
        r = rng.randrange(1, 4)
        return {'mtx': {'s': [r, n], 'v': [rng.randrange(-8, 9) * 250000 for _ in range(r * n)]},
                'sparse': rng.randrange(2)} if nd <= 3 else None
    return {}


def tweak(rng, p):
    """the same parameters in another arrangement: lists permuted, two numbers exchanged or moved against each other"""
    p = dict(p)
    p.pop('int', None)
    ls = [k for k in p if isinstance(p[k], list) and len(p[k]) > 1 and all(isinstance(v, int) for v in p[k]) and k in ('reps', 'axes', 'shape')]
    ns = [k for k in p if isinstance(p[k], int) and p[k] != NONE and k in ('axis', 'axis1', 'axis2', 'start', 'k', 'shift')]
    if ls and rng.random() < .7:
        k = rng.choice(ls)
        v = list(p[k])
        if rng.random() < .3 and k == 'reps':
            i, j = rng.sample(range(len(v)), 2)
            v[i] += 1
            v[j] = max(0, v[j] - 1)
        else:
            rng.shuffle(v)
        p[k] = v
    elif len(ns) > 1:
        i, j = rng.sample(ns, 2)
        d = rng.choice([0, 1, -1])
        p[i], p[j] = (p[j], p[i]) if d == 0 else (p[i] + d, p[j] - d)
    elif ns:
        k = rng.choice(ns)
        p[k] += rng.choice([1, -1])
    else:
        return None
    return p


def cross_axes(rng, sa, sb):
    """axes for a cross product of arrays of these shapes"""
    def neg(i, n):
        return i if rng.random() < .5 else i - n
    for _ in range(6):
        ia = [i for i in range(len(sa)) if sa[i] in (2, 3)]
        if not ia:
            return None
        i = rng.choice(ia)
        ib = [k for k in range(len(sb)) if sb[k] == sa[i]]
        if not ib:
            continue
        k = rng.choice(ib)
        if sa[-1] == sb[-1] and sa[-1] in (2, 3) and rng.random() < .4:
            i, k = len(sa) - 1, len(sb) - 1
        n = max(len(sa), len(sb))
        ax = NONE
        c = rng.choice([-1, -1, neg(rng.randrange(n), n)])
        if i == k and len(sa) == len(sb) and rng.random() < .3:
            ax = neg(i, len(sa))
        return {'xa': neg(i, len(sa)), 'xb': neg(k, len(sb)), 'xc': c, 'axis': ax}
    return None


UNARY = ['negative', 'absolute', 'square', 'reciprocal', 'sqrt', 'exp', 'log', 'sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan']
BINARY = ['add', 'subtract', 'multiply', 'divide', 'power', 'maximum', 'minimum']
COMPARE = ['greater', 'greater_equal', 'less', 'less_equal', 'equal', 'not_equal']
REDUCE = ['sum', 'mean', 'amax', 'amin', 'SumOfSquares', 'norm', 'moment', 'cumsum']
REORDER = ['reshape', 'ravel', 'transpose', 'swapaxes', 'rollaxis', 'roll', 'rot90', 'tile', 'repeat', 'diag', 'diagflat',
           'sort', 'fliplr', 'flipud', 'expand_dims', 'squeeze', 'atleast', 'getitem']
STACK = ['concatenate', 'hstack', 'vstack', 'dstack']
LINALG = ['dot', 'tensordot', 'cross', 'inv', 'det', 'logabsdet', 'pinv', 'lstsq', 'norm', 'matvec']
FLAT = ['floor', 'ceil', 'sign']

# value ranges in which each unary function is generated on leaves
RANGE = {'sqrt': (.25, 6), 'log': (.25, 6), 'arcsin': (-.875, .875), 'arccos': (-.875, .875), 'exp': (-3, 3),
         'tan': (-1.25, 1.25), 'reciprocal': (-4, 4), 'gamma': (1, 6)}


def bshape(rng, s):
    """a shape that broadcasts with s"""
    t = list(s)
    for i in range(len(t)):
        if rng.random() < .3:
            t[i] = 1
    k = rng.random()
    if k < .35:
        t = t[rng.randrange(len(t)):]
    elif k < .5 and len(t) < 3:
        t = [rng.choice([1, 2])] + t
    for i in range(len(t)):
        if t[i] == 1 and rng.random() < .2 and (i >= len(t) - len(s)) and s[i - (len(t) - len(s))] == 1:
            t[i] = 2
    return tuple(t)


class Prog(object):
    """grows a random program in a Rec"""

    def __init__(self, rec, rng, ops, maxsize=12, consts=.15, leafrange=(-3, 3)):
        self.rec, self.rng, self.ops, self.maxsize, self.consts = rec, rng, ops, maxsize, consts
        self.lo, self.hi = leafrange

    def new_leaf(self, shape=None, lo=None, hi=None, how=None, distinct=False):
        rng = self.rng
        shape = shape or rng.choice(SMALL)
        v = values(rng, shape, self.lo if lo is None else lo, self.hi if hi is None else hi, 8, distinct)
        how = how or rng.choice(['Ch', 'Ch', 'Ch', 'array', 'list', 'later'])
        return self.rec.leaf(v, how)

    def nodes(self, pred=None):
        r = self.rec
        out = [n for n in r.ids() if r.alive(n)]
        return [n for n in out if pred(n)] if pred else out

    def pick(self, pred=None, recent=.5):
        c = self.nodes(pred)
        if not c:
            return None
        if self.rng.random() < recent:
            return c[max(0, len(c) - 1 - int(self.rng.random() * 4))]
        return self.rng.choice(c)

    def operand_for(self, a):
        """a second operand that broadcasts with a"""
        rng, r = self.rng, self.rec
        sa = r.shape(a)
        k = rng.random()
        if k < .1:
            return a
        if k < self.consts + .1:
            how = rng.choice(['raw', 'rawnum'])
            v = values(rng, (1,) if how == 'rawnum' else bshape(rng, sa), self.lo, self.hi)
            return r.leaf(v, how)

        def comp(n):
            try:
                return int(np.prod(np.broadcast(np.empty(r.shape(n)), np.empty(sa)).shape)) <= self.maxsize * 2
            except ValueError:
                return False
        b = self.pick(comp, .2)
        if b is None or rng.random() < .35:
            b = self.new_leaf(bshape(rng, sa))
        return b

    def grow(self, op=None, tries=12):
        """add one node; returns its id or None"""
        rng, r = self.rng, self.rec
        for _ in range(tries):
            o = op or rng.choice(self.ops)
            a = self.pick()
            if a is None:
                return None
            sa = r.shape(a)
            p, args = {}, None
            if o in BINARY or o in COMPARE or o in ('user', 'usq', 'ulazy', 'NanDivide'):
                b = self.operand_for(a)
                args = [a, b]
                if rng.random() < .4 and o not in ('power',):
                    args = [b, a]
                if all(x in r.raw for x in args):
                    continue
                if o == 'user':
                    p = {'k': rng.choice([-2, -1, 2, 3])}
                if o == 'ulazy':
                    p = {'k': rng.choice([0, 0, 1])}
                if o in ('user', 'usq', 'ulazy'):
                    if any(x in r.raw for x in args):
                        continue
                if o == 'power':
                    if rng.random() < .6 or r.shape(b) != (1,):
                        args = [a, r.leaf(values(rng, (1,), 1, 3, 1), rng.choice(['raw', 'rawnum', 'Ch']))]
                        if float(r.shadow(args[1])[0]) <= 0:
                            continue
            elif o == 'ipower':
                e = (1,) if rng.random() < .6 else bshape(rng, sa)
                args = [a, r.leaf(values(rng, e, rng.choice([0, 0, 1, 2, -2]), 4 if rng.random() < .2 else 3, 1), rng.choice(['raw', 'rawnum']) if e == (1,) else 'raw')]
            elif o == 'interp3d':
                c = [n for n in self.nodes() if r.shape(n)[1:] == (3,)]
                a = rng.choice(c) if c else self.new_leaf((rng.choice([1, 2, 2]), 3))
                args, p = [a], {'image': image(rng)}
            elif o == 'usum':
                args = [a] + [self.operand_for(a) for _ in range(rng.randint(0, 3))]
                rng.shuffle(args)
                if any(x in r.raw for x in args):
                    continue
            elif o == 'utri':
                args = [a, self.operand_for(a), self.operand_for(a)]
                rng.shuffle(args)
                if any(x in r.raw for x in args):
                    continue
                p = {'k': rng.choice([-2, -1, 2, 3]), 'how': rng.choice(r.forms)}
            elif o in STACK:
                k = rng.choice([1, 2, 2, 3])
                ax = rng.randrange(-len(sa), len(sa)) if o == 'concatenate' else None
                args = [a]
                for _j in range(k - 1):
                    c = None
                    cands = [n for n in self.nodes() if r.can(o, [a, n], {'axis': ax})]
                    if cands and rng.random() < .6:
                        c = rng.choice(cands)
                    else:
                        t = list(sa)
                        pos_ = (ax if ax is not None else 0 if (o == 'vstack' or len(t) == 1) else 1 if o == 'hstack' else 2)
                        if o == 'vstack' and len(t) == 1:
                            pass
                        elif o == 'dstack' and len(t) < 3:
                            pass
                        else:
                            t[pos_] = rng.choice([1, 2])
                        c = self.new_leaf(tuple(t))
                    args.append(c)
                rng.shuffle(args)
                p = {'axis': ax} if ax is not None else {}
            elif o == 'dot':
                if len(sa) > 3:
                    continue
                k = sa[-1]
                cands = [n for n in self.nodes() if r.can('dot', [a, n]) and len(r.shape(n)) <= 2]
                if cands and rng.random() < .5:
                    b = rng.choice(cands)
                else:
                    b = self.new_leaf(rng.choice([(k,), (k, 2), (k, 1), (k, 3)]), how=rng.choice(['Ch', 'Ch', 'raw']))
                args = [a, b]
            elif o == 'tensordot':
                if len(sa) < 2 or len(sa) > 3:
                    continue
                k = rng.choice([1, 2]) if len(sa) > 1 else 1
                if rng.random() < .4:
                    b = self.new_leaf(tuple(sa[-k:]) + rng.choice([(), (2,), (1,)]))
                    p = {'int': k, 'xa': list(range(len(sa) - k, len(sa))), 'xb': list(range(k))}
                else:
                    ax = list(range(len(sa)))
                    rng.shuffle(ax)
                    xa = ax[:k]
                    rest = [sa[i] for i in xa] + ([2] if rng.random() < .6 else [])
                    perm = list(range(len(rest)))
                    rng.shuffle(perm)
                    b = self.new_leaf(tuple(rest[i] for i in perm))
                    xb = [perm.index(i) for i in range(k)]
                    if rng.random() < .3:
                        xa = [i - len(sa) for i in xa]
                    p = {'xa': xa, 'xb': xb}
                args = [a, b]
            elif o == 'cross':
                c = [n for n in self.nodes() if any(d in (2, 3) for d in r.shape(n)) and len(r.shape(n)) <= 3]
                if c and rng.random() < .6:
                    a = rng.choice(c)
                    w = rng.choice([d for d in r.shape(a) if d in (2, 3)])
                else:
                    w = rng.choice([3, 3, 3, 2])
                    sh = [rng.choice([1, 2, 3]) for _ in range(rng.choice([0, 1, 1, 1, 2]))]
                    sh.insert(rng.randint(0, len(sh)) if rng.random() < .4 else len(sh), w)
                    a = self.new_leaf(tuple(sh))
                lead = list(r.shape(a))
                lead.remove(w)
                c = [n for n in c if w in r.shape(n)]
                if c and rng.random() < .4:
                    b = rng.choice(c)
                elif rng.random() < .6:
                    b = self.new_leaf(r.shape(a))
                else:
                    sh = list(bshape(rng, tuple(lead))) if lead and rng.random() < .8 else []
                    sh.insert(rng.randint(0, len(sh)) if rng.random() < .4 else len(sh), w)
                    b = self.new_leaf(tuple(sh))
                p = cross_axes(rng, r.shape(a), r.shape(b))
                if p is None:
                    continue
                args = [a, b]
            elif o in ('inv', 'det', 'logabsdet', 'signdet', 'logabsdets'):
                c = [n for n in self.nodes() if len(r.shape(n)) >= 2 and r.shape(n)[-2] == r.shape(n)[-1] and r.can('inv', [n])]

                def mat(ld):
                    k = rng.choice([1, 2, 2, 3])
                    return r.leaf(stack(rng, ld, 2 if np.prod(ld) > 2 else k))
                a = rng.choice(c) if c else mat(lead_of(rng))
                args = [a]
                for _j in range(rng.choice([1, 2]) if o == 'logabsdets' else 0):
                    c2 = [n for n in c if r.shape(n)[:-2] == r.shape(a)[:-2]]
                    args.append(rng.choice(c2) if c2 and rng.random() < .5 else mat(r.shape(a)[:-2]))
                rng.shuffle(args)
            elif o in ('pinv', 'lstsq', 'lstsq_res'):
                a = r.leaf(wellcond(rng, *rng.choice([(3, 2), (2, 2), (2, 3), (3, 1)])))
                args = [a]
                if o != 'pinv':
                    m = r.shape(a)[0]
                    args.append(self.new_leaf(rng.choice([(m,), (m, 2)])))
            else:
                p = params(rng, o, sa)
                if p is None:
                    continue
                args = [a]
            if not r.can(o, args, p):
                continue
            sz = r_size(r, o, args, p)
            if sz == 0 or sz > self.maxsize * 3:
                continue
            return r.node(o, args, p)
        return None


def image(rng, dims=None):
    dims = dims or [rng.randint(2, 3) for _ in range(3)]
    return dict(s=list(dims), v=[int(q) for q in np.round(values(rng, tuple(dims), -3, 3).ravel() * 1e6)])


def r_size(r, o, args, p):
    from .ops import shadow_apply
    return shadow_apply(o, [r.shadow(m) for m in args], p).size
