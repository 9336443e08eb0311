"""Driving the real chumpy and recording what it does, one event per public call."""
import gc
import json
import signal
import sys
import traceback
import warnings
import numpy as np
import scipy.sparse as sp

from . import ops as O
from .ops import OPS, NONE, shadow_apply, key_of
from . import usernodes as U

BIG, NAN, PINF, MINF = 2000000000, 2000000001, 2000000002, 2000000003
LARGEST = 260      # elements of an array (what TLC evaluates in good time)
VIEW_OPS = ('select', 'reshape', 'transpose', 'swapaxes', 'rollaxis', 'roll', 'rot90')
RESHAPES = ('reshape',)


class Dead(BaseException):
    """the case cannot go on (the code under test raised)"""


class Hang(Exception):
    pass


def _alarm(*a):
    raise Hang('no answer')


def enc(x):
    x = float(x)
    if x != x:
        return NAN
    if x == float('inf'):
        return PINF
    if x == float('-inf'):
        return MINF
    if abs(x) > 1900.:
        return BIG
    return int(round(x * 1e6))


def encl(a):
    return [enc(x) for x in np.asarray(a, dtype=np.float64).ravel()]


def dense(J):
    if sp.issparse(J):
        return np.asarray(J.todense())
    if hasattr(J, 'matmat') and not isinstance(J, np.ndarray):
        return np.asarray(J.dot(np.eye(J.shape[1])))
    return np.asarray(J)


NONVIEW = ('tile', 'repeat', 'diag', 'diagflat', 'sort')     # rearrangements that are not views
PERMUTES = VIEW_OPS + NONVIEW
COMPOSED = ('tensordot', 'moment', 'norm', 'average', 'inner', 'outer', 'atleast', 'cross')
FROZEN = ('tensordot', 'moment', 'norm', 'vstack', 'dstack', 'average')
COMPARES = ('greater', 'greater_equal', 'less', 'less_equal', 'equal', 'not_equal')


def expression(o):
    if not hasattr(o, 'dterms') or not hasattr(o, 'compute_r'):
        raise TypeError('the operation gave %s instead of an expression' % type(o).__name__)
    return o


class Rec(object):
    def __init__(self, ch, rng, limit=20):
        self.ch, self.rng, self.limit = ch, rng, limit
        self.lines = []
        self.cases = []          # finished cases (lists of lines)
        self.log_on = False
        self.forms = ['dense', 'csc', 'csr', 'coo', 'make_dense', 'make_sparse']     # of the derivatives of utri
        self.last_err = None
        self.src = []

    # ------------------------------------------------------------ plumbing
    def ev(self, **kw):
        if self.hooks and "log" not in kw and kw.get("ev") != "case":
            kw["log"] = U.drain()
        self.lines.append(json.dumps(kw, separators=(',', ':')))

    def case(self, hooks=False, tag=''):
        self.end()
        self.cid = len(self.cases) + 1
        self.lines = []
        self.objs = [None]
        self.g = [None]         # mirror graph: dicts op/a/p/val
        self.raw = set()        # ids whose real operand is a plain number or array
        self.dead = False
        self.nested = False         # stacks of stacks whose structure stays as it is
        self.hooks = hooks
        U.LOGGING[0] = bool(hooks)
        U.drain()
        self.ev(ev='case', id=self.cid, tag=tag)

    def restore(self):
        U.LOGGING[0] = False
        U.drain()

    def end(self):
        if self.lines:
            self.cases.append(self.lines)
            self.lines = []

    def guard(self, f):
        """run a call into the code under test; returns (ok, value)"""
        old = signal.signal(signal.SIGVTALRM, _alarm)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.limit)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                with np.errstate(all='ignore'):
                    so = sys.stdout
                    sys.stdout = _Null
                    try:
                        return True, f()
                    finally:
                        sys.stdout = so
        except Hang:
            self.last_err = 'Hang: no answer within %ss' % self.limit
            return False, None
        except Exception as e:
            self.last_err = '%s: %s' % (type(e).__name__, str(e)[:160].replace('"', "'").replace('\\', '/').replace('\n', ' '))
            self.last_tb = traceback.format_exc()
            return False, None
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.signal(signal.SIGVTALRM, old)

    def die(self, **kw):
        self.ev(err=self.last_err, **kw)
        self.dead = True
        raise Dead(self.last_err)

    # ------------------------------------------------------------ shadow
    def shadow(self, n, env=None):
        env = {} if env is None else env
        if n in env:
            return env[n]
        nd = self.g[n]
        if nd['op'] == 'leaf':
            r = nd['val']
        else:
            r = shadow_apply(nd['op'], [self.shadow(m, env) for m in nd['a']], nd['p'])
        env[n] = r
        return r

    def shape(self, n):
        return self.shadow(n).shape

    def below(self, n, avoid=None, acc=None):
        acc = set() if acc is None else acc
        if n in acc or n == avoid:
            return acc
        acc.add(n)
        for m in self.g[n]['a']:
            self.below(m, avoid, acc)
        return acc

    def ids(self):
        return list(range(1, len(self.g)))

    def domain_ok(self, roots=None, big=400.):
        """do all nodes evaluate inside their domains?"""
        env = {}
        for n in (roots or self.ids()):
            try:
                self.shadow(n, env)
            except Exception:
                return False
        for n, v in env.items():
            nd = self.g[n]
            if 'fz' in nd and [env[m].shape for m in nd['a'] if m in env] != nd['fz']:
                return False
            if nd['op'] != 'leaf':
                d = OPS[nd['op']].dom
                if d is not None:
                    try:
                        if not d([env[m] for m in nd['a']]):
                            return False
                    except Exception:
                        return False
            if v.size == 0 or v.size > LARGEST:
                return False
            f = v[np.isfinite(v)]
            if f.size and np.max(np.abs(f)) > big:
                return False
        return True

    # ------------------------------------------------------------ actions
    def same_array(self, val, how):
        """the values of val in an array that is laid out or shared in some way"""
        if how == 'ordered':
            return np.asfortranarray(val)
        if how == 'spread':
            return np.repeat(val, 2, axis=-1)[..., ::2]
        if how == 'single' and np.array_equal(val.astype(np.float32), val, equal_nan=True):
            return val.astype(np.float32)
        if how == 'readonly':
            w = val.copy()
            w.setflags(write=False)
            return w
        if how == 'alias':       # the very array that another variable was made from
            for n in self.rng.sample(range(1, len(self.g)), len(self.g) - 1):
                x = getattr(self.objs[n], 'x', None) if self.g[n]['op'] == 'leaf' else None
                if isinstance(x, np.ndarray) and x.shape == val.shape and np.array_equal(x, val):
                    return x
        return val.copy()

    def leaf(self, val, how='Ch'):
        val = np.atleast_1d(np.array(val, dtype=np.float64))
        if how in ('num', 'rawnum'):
            val = val.ravel()[:1]
        if how == 'int':
            val = np.round(val)
        kw = dict(ev='leaf', s=list(val.shape), v=encl(val))
        if how == 'Ch' and self.rng.random() < .25:
            how = self.rng.choice(['ordered', 'spread', 'single', 'asarray', 'asch', 'contig', 'asfarray', 'alias', 'readonly'])
        given = self.same_array(val, how)

        def make():
            if how == 'Ch':
                return self.ch.Ch(given)
            if how == 'array':
                return self.ch.array(given)
            if how in ('ordered', 'spread', 'single', 'alias', 'readonly'):
                return self.ch.Ch(given)
            if how in ('asarray', 'asfarray', 'contig', 'asch'):
                c = self.ch.Ch(given)
                return self.ch.asarray(given) if how == 'asarray' else self.ch.asarray(c) if how == 'asch' else \
                    self.ch.ascontiguousarray(c) if how == 'contig' else self.ch.asfarray(c)
            if how == 'list':
                return self.ch.Ch(given.tolist())
            if how == 'num':                  # a bare number in a Ch
                return self.ch.Ch(float(given.ravel()[0]))
            if how == 'int':
                return self.ch.Ch(given.astype(int))
            if how == 'later':
                c = self.ch.Ch(0.)
                c.x = given
                return c
            if how == 'raw':
                return given.astype(kind) if whole and kind else given
            if how == 'rawnum':
                v = float(given.ravel()[0])
                return v if not whole or not kind else int(v) if kind is int else np.array(v).astype(kind)[()]
        whole = bool(np.all(np.isfinite(val)) and np.all(val == np.round(val)) and np.all(np.abs(val) < 100))
        kind = self.rng.choice([None, None, int, np.int32, np.int64, np.float32, int]) if how in ('raw', 'rawnum') else None
        if how in ('raw', 'rawnum') and whole and np.all((val == 0) | (val == 1)) and self.rng.random() < .3:
            kind = bool if how == 'raw' else kind
        ok, obj = self.guard(make)
        if not ok:
            self.die(**kw)
        self.ev(**kw)
        self.objs.append(obj)
        self.g.append({'op': 'leaf', 'a': [], 'p': {}, 'val': val})
        if how in ('raw', 'rawnum'):
            self.raw.add(len(self.g) - 1)
        return len(self.g) - 1

    def _elab(self, op, a, p):
        sh = self.shape
        if op == 'getitem' or op in ('fliplr', 'flipud'):
            s = sh(a[0])
            idx = np.arange(int(np.prod(s))).reshape(s)
            r = shadow_apply(op, [idx], p).astype(int)
            t = np.asarray(OPS[op].shadow([idx], p))
            return 'select', list(a), {'idx': [int(k) for k in r.ravel()], 'shape': list(t.shape)}
        if op in ('reshape', 'ravel', 'squeeze', 'expand_dims'):
            tgt = list(p['shape']) if op == 'reshape' else [-1] if op == 'ravel' else \
                list(np.atleast_1d(OPS[op].shadow([np.zeros(sh(a[0]))], p)).shape)
            m = a[0]
            while self.g[m]['op'] == 'reshape':
                m = self.g[m]['a'][0]
            return 'reshape', [m], {'shape': tgt}
        if op in ('concatenate', 'hstack'):
            ax = p['axis'] if op == 'concatenate' else (0 if len(sh(a[0])) == 1 else 1)
            out, todo = [], list(a)
            while todo:
                m = todo.pop(0)
                if self.g[m]['op'] == 'concatenate' and self.g[m]['p']['axis'] == ax:
                    todo = list(self.g[m]['a']) + todo
                else:
                    out.append(m)
            return 'concatenate', out, {'axis': ax}
        return op, list(a), p

    def node(self, op, a, p=None, st=None):
        p = {} if p is None else p
        st = st or self.rng.choice(['op', 'fn'])
        kw = dict(ev='node', op=op, a=list(a), p=p)
        A = [self.objs[m] for m in a]
        through = [self.rng.randrange(40) if hasattr(x, 'dterms') else 9 for x in A]

        def build():
            ch = self.ch
            B = [(+x if t == 0 else ch.asarray(x) if t == 1 else ch.asfarray(x) if t == 2 else ch.ascontiguousarray(x) if t == 3 else x)
                 for t, x in zip(through, A)]
            return expression(OPS[op].build(B, p, st))
        ok, obj = self.guard(build)
        if not ok:
            self.die(**kw)
        self.ev(**kw)
        eop, ea, ep = self._elab(op, a, p)
        self.objs.append(obj)
        self.g.append({'op': eop, 'a': ea, 'p': ep, 'val': None})
        n = len(self.g) - 1
        if op in FROZEN:
            # composed at construction from the shapes the operands had then
            self.g[n]['fz'] = [self.shape(m) for m in ea]
        if op in COMPARES and st == 'op':
            # python may reflect a comparison, so which term is which is not fixed
            self.g[n]['swap'] = True
        if isinstance(obj, U._Logged):
            obj.uid = n
        return n

    def can(self, op, a, p=None, big=400.):
        """would the node be inside the domain (by the shadow)?"""
        p = {} if p is None else p
        if not self.nested and op in ('concatenate', 'hstack', 'vstack', 'dstack') and any(self.g[m]['op'] in ('vstack', 'dstack') for m in a):
            return False         # flattened at construction: which terms it has then is not modelled
        if not self.nested and op in ('reshape', 'ravel', 'squeeze', 'expand_dims') and any(self.g[m]['op'] in COMPOSED for m in a):
            return False         # likewise: reshaping something that ends with a reshape
        try:
            A = [self.shadow(m) for m in a]
            if OPS[op].dom is not None and not OPS[op].dom(A):
                return False
            r = shadow_apply(op, A, p)
        except Exception:
            return False
        f = r[np.isfinite(r)]
        return 0 < r.size <= LARGEST and (f.size == 0 or np.max(np.abs(f)) <= big)

    def setleaf(self, n, val, how='x', array=None):
        val = np.atleast_1d(np.array(val, dtype=np.float64))
        kw = dict(ev='setleaf', n=n, s=list(val.shape), v=encl(val))
        given = self.same_array(val, array or self.rng.choice(['ordered', 'spread', 'single', 'readonly', 'alias']) if array or self.rng.random() < .3 else '')

        def do():
            o = self.objs[n]
            if how == 'x':
                o.x = given
            elif how == 'set':
                o.set(x=given)
            elif how == 'call':
                o(x=given)
            elif how == 'int':
                o.x = given.astype(int)
            elif how == 'num':
                o.x = float(given.ravel()[0])
            elif how == 'all':
                o[:] = given
        ok, _ = self.guard(do)
        if not ok:
            self.die(**kw)
        self.ev(**kw)
        self.g[n]['val'] = val

    def attr(self, n, i):
        if self.g[n]['op'] == 'concatenate':
            return list(self.objs[n].dterms)[i]
        return OPS[self.g[n]['op']].attrs[i]

    def rewire(self, n, i, m, how='attr'):
        """i is 0-based"""
        kw = dict(ev='rewire', n=n, i=i + 1, m=m)
        name = self.attr(n, i)

        def do():
            if how == 'attr':
                setattr(self.objs[n], name, self.objs[m])
            else:
                self.objs[n].set(**{name: self.objs[m]})
        ok, _ = self.guard(do)
        if not ok:
            self.die(**kw)
        self.ev(**kw)
        self.g[n]['a'][i] = m

    def addterm(self, n, m):
        kw = dict(ev='addterm', n=n, m=m)
        name = 't%d' % len(self.g[n]['a'])
        ok, _ = self.guard(lambda: self.objs[n].add_dterm(name, self.objs[m]))
        if not ok:
            self.die(**kw)
        self.ev(**kw)
        self.g[n]['a'].append(m)

    def setparam(self, n, p, how='attr'):
        nd = self.g[n]
        kw = dict(ev='setparam', n=n, p=p)
        pr = OPS[nd['op']].params
        ch_ = {pr[k][0]: pr[k][1](p[k]) for k in pr if k in p and p[k] != nd['p'].get(k)}
        if self.rng.random() < .4:       # the array already there, changed in place and given again
            for k, v in ch_.items():
                cur = self.objs[n].__dict__.get(k)
                if isinstance(v, np.ndarray) and isinstance(cur, np.ndarray) and cur.shape == v.shape and cur.dtype == v.dtype and cur.flags.writeable:
                    cur[...] = v
                    ch_[k] = cur

        def do():
            if how == 'attr':
                for k, v in ch_.items():
                    setattr(self.objs[n], k, v)
            elif how == 'call':
                self.objs[n](**ch_)
            else:
                self.objs[n].set(**ch_)
        ok, _ = self.guard(do)
        if not ok:
            self.die(**kw)
        self.ev(**kw)
        nd['p'] = p

    def setmany(self, n, args, p=None, other=None):
        """one set() call: args {i: m}, new params, plus unrelated attributes"""
        nd = self.g[n]
        kws, ed = {}, []
        for i, m in args.items():
            kws[self.attr(n, i)] = self.objs[m]
            ed.append({'t': 'arg', 'i': i + 1, 'm': m})
        if p is not None:
            pr = OPS[nd['op']].params
            for k in pr:
                if k in p:
                    kws[pr[k][0]] = pr[k][1](p[k])
            ed.append({'t': 'par', 'p': p})
        for k, v in (other or {}).items():
            kws[k] = v
            ed.append({'t': 'other'})
        kw = dict(ev='setmany', n=n, e=ed)
        items = list(kws.items())
        self.rng.shuffle(items)
        ok, _ = self.guard(lambda: self.objs[n].set(**dict(items)))
        if not ok:
            self.die(**kw)
        self.ev(**kw)
        for i, m in args.items():
            nd['a'][i] = m
        if p is not None:
            nd['p'] = p

    def is_view(self, n):
        while self.g[n]['op'] in VIEW_OPS:
            n = self.g[n]['a'][0]
        return self.g[n]['op'] == 'leaf'

    def base(self, n):
        while self.g[n]['op'] in PERMUTES:
            n = self.g[n]['a'][0]
        return n

    def offsets(self, n):
        if self.g[n]['op'] not in PERMUTES:
            s = self.shape(n)
            return np.arange(int(np.prod(s))).reshape(s)
        nd = self.g[n]
        return np.asarray(OPS[nd['op']].shadow([self.offsets(nd['a'][0])], nd['p'])).astype(int).reshape(self.shape(n))

    def setitem(self, n, key, val, scalar=False):
        val = np.array(val, dtype=np.float64)
        kw = dict(ev='setitem', n=n, key=key, s=list(val.shape), v=encl(val))
        given = float(val.ravel()[0]) if scalar else val.copy()

        def do():
            self.objs[n][key_of(key)] = given
        ok, _ = self.guard(do)
        if not ok and self.last_err.startswith('Hang'):
            self.die(**kw)
        kw['rej'] = 0 if ok else 1
        if not ok:
            kw['why'] = self.last_err
        self.ev(**kw)
        if self.is_view(n) and ok:
            off = np.atleast_1d(self.offsets(n)[key_of(key)])
            b = self.base(n)
            v = self.g[b]['val'].copy()
            v.ravel()[off.ravel()] = np.broadcast_to(val, off.shape).ravel()
            self.g[b]['val'] = v
        if self.is_view(n) and not ok:
            self.dead = True
            raise Dead(self.last_err)

    def replace(self, root, old, new):
        kw = dict(ev='replace', n=root, old=old, new=new)
        ok, _ = self.guard(lambda: self.objs[root].replace(self.objs[old], self.objs[new]))
        if not ok:
            self.die(**kw)
        self.ev(**kw)
        for m in self._reach_not(root, old, new, set()):
            self.g[m]['a'] = [new if x == old else x for x in self.g[m]['a']]

    def _reach_not(self, n, old, new, acc):
        if n in acc:
            return acc
        acc.add(n)
        for m in self.g[n]['a']:
            if m != old and m != new:
                self._reach_not(m, old, new, acc)
        return acc

    def acyclic(self):
        state = {}

        def go(n):
            state[n] = 1
            for m in self.g[n]['a']:
                if state.get(m) == 1 or (m not in state and not go(m)):
                    return False
            state[n] = 2
            return True
        return all(n in state or go(n) for n in self.ids())

    def _pairs(self, o, c, out):
        """walk an object graph and its copy in parallel"""
        if id(o) in out:
            return out
        out[id(o)] = c
        for t in list(getattr(o, 'dterms', ())):
            if hasattr(o, t) and hasattr(c, t):
                self._pairs(getattr(o, t), getattr(c, t), out)
        if isinstance(getattr(o, 'args', None), dict) and isinstance(getattr(c, 'args', None), dict):     # ChLambda, ChGroup
            for t in o.args:
                if t in c.args:
                    self._pairs(o.args[t], c.args[t], out)
            if hasattr(o, '_result') and hasattr(c, '_result'):
                self._pairs(o._result, c._result, out)
        return out

    def copy(self, root, how='copy'):
        """copies everything below root; returns {old id: new id}"""
        import pickle
        import copy as external_copy
        ch = self.ch

        def do():
            o = self.objs[root]
            if how == 'copy':
                return o.copy()
            if how == 'chcopy':
                return ch.copy(o)
            if how == 'deepcopy':
                return external_copy.deepcopy(o)
            if how == 'pickle-1':
                return pickle.loads(pickle.dumps(o, -1))
            if how == 'pickle2':
                return pickle.loads(pickle.dumps(o, 2))
            return pickle.loads(pickle.dumps(o))
        olds = sorted(self.below(root))
        kw = dict(ev='copy', olds=olds)
        ok, c = self.guard(do)
        if not ok:
            self.die(**kw)
        okp, pairs = self.guard(lambda: self._pairs(self.objs[root], c, {}))
        self.ev(**kw)
        mp = {}
        for k, n in enumerate(olds):
            mp[n] = len(self.g) + k
        for n in olds:
            nd = self.g[n]
            val = None if nd['val'] is None else nd['val'].copy()
            self.g.append(dict(nd, a=[mp[x] for x in nd['a']], val=val))
            o = self.objs[n]
            co = None
            if okp and hasattr(o, 'dterms'):
                co = pairs.get(id(o))
            if isinstance(co, U._Logged):
                co.uid = mp[n]
            self.objs.append(co)
        return mp

    def dedupe(self, root):
        kw = dict(ev='dedupe')
        ids = sorted(self.below(root))

        def args_now():
            out = {}
            for n in ids:
                nd = self.g[n]
                if nd['op'] == 'leaf':
                    continue
                at = OPS[nd['op']].attrs
                for i in range(len(nd['a'])):
                    if i < len(at) and at[i] is not None:
                        out[(n, i)] = getattr(self.objs[n], at[i])
            return out
        before = args_now()
        ok, _ = self.guard(lambda: self.objs[root].remove_redundancy())
        if not ok:
            self.die(**kw)
        after = args_now()
        rev = {}
        for n in ids + self.ids():
            if self.objs[n] is not None:
                rev.setdefault(id(self.objs[n]), n)
        ed = []
        for k in sorted(before):
            if after[k] is not before[k]:
                m = rev.get(id(after[k]), None)
                if m is None:
                    continue
                ed.append([k[0], k[1] + 1, m])
        self.ev(e=ed, **kw)
        for n, i, m in ed:
            self.g[n]['a'][i - 1] = m
        return len(ed)

    def gc(self):
        gc.collect()
        gc.collect()
        self.ev(ev='nop')

    def clear(self, n, w=None):
        """throw away what the node has cached (everything, or with respect to one variable)"""
        ok, _ = self.guard(lambda: self.objs[n].clear_cache() if w is None else self.objs[n].clear_cache_wrt(self.objs[w]))
        if not ok:
            self.die(ev='nop')
        self.ev(ev='nop')

    def forget(self, n):
        """drop our own reference to a node (it may become garbage)"""
        self.objs[n] = None

    # ------------------------------------------------------------ observations
    def alive(self, n):
        return self.objs[n] is not None and n not in self.raw

    def dr_view_mode(self, n, w):
        """None: not a question with a defined answer; 0: w is a variable; 1: w is a view"""
        if w == n:
            return 0 if self.g[n]['op'] == 'leaf' else None
        if self.g[w]['op'] not in PERMUTES:
            return 0
        bel = self.below(n)
        chain, c = [], w
        while self.g[c]['op'] in PERMUTES:
            if self.g[c]['op'] in NONVIEW:
                return None if w not in bel or self.base(w) in self.below(n, avoid=w) else 0
            chain.append(c)
            c = self.g[c]['a'][0]
        off = self.offsets(w).ravel()
        if len(set(off.tolist())) != off.size:
            return None
        for c in chain:
            o = self.offsets(c).ravel()
            if c in bel and len(set(o.tolist())) != o.size:
                return None        # the intermediate view shows an element twice
            if c in bel and self.base(w) in self.below(n, avoid=c):
                return None
        if n in chain or n == self.base(w):
            return None            # a view of the node itself
        # other rearrangement nodes between n and the base are ordinary paths
        return 0 if w in bel else 1

    def observe(self, rs=(), ds=(), kmax=10, ndir=2, shuffle=True):
        """rs: ids; ds: (n, w, mode) with mode fwd/rev/lop/lmult"""
        q = [('r', n) for n in rs] + [('d',) + tuple(d) for d in ds]
        q += [('d',) + tuple(d) for d in ds if self.rng.random() < .15]       # asked again
        if shuffle:
            self.rng.shuffle(q)
        routs, groups, fatal = [], {}, False
        U.drain()
        for it in q:
            if it[0] == 'r':
                routs.append(self._obs_r(it[1]))
                if routs[-1]['k'] == 2:
                    fatal = True
            else:
                _, n, w, mode = it
                vm = self.dr_view_mode(n, w)
                if vm is None or any(self.g[m]['op'] == 'cumsum' and self.g[m]['p']['axis'] != NONE for m in self.below(n)):
                    continue           # (the derivative of a cumsum along an axis is refused: NotImplementedError)
                wsz = int(np.prod(self.shape(w)))
                key = (w, vm)
                if key not in groups:
                    V = [] if wsz <= kmax else [[self.rng.choice([-2, -1, 0, 1, 2]) for _ in range(wsz)] for _ in range(ndir)]
                    groups[key] = {'w': w, 'view': vm, 'V': V, 'd': [], 'l': []}
                g = groups[key]
                o = self._obs_d(n, w, mode, g['V'], wsz)
                if o is None:
                    continue
                (g['l'] if 'L' in o else g['d']).append(o)
                if o['k'] == 2:
                    fatal = True
            if fatal:
                break
        e = dict(ev='obs', r=routs, g=list(groups.values()))
        if self.hooks:
            e['log'] = U.drain()
        if fatal:
            e['why'] = self.last_err
        self.ev(**e)
        if fatal:
            self.dead = True
            raise Dead(self.last_err)

    def _obs_r(self, n):
        k = self.rng.random()

        def other():
            """the same through other ways of asking"""
            o = self.objs[n]
            sh = tuple(o.shape)
            way = self.rng.choice(['array', 'flat', 'call', 'iter', 'float'])
            if way == 'float' and o.size == 1:
                v = np.array([float(o)])
            elif way == 'flat':
                v = np.array(list(o.flat))
            elif way == 'call':
                v = np.array(o())
            elif way == 'iter':
                v = np.array([o.r[i] for i in range(len(o))])
            else:
                v = np.array(o)
            if len(o) != sh[0] or o.ndim != len(sh) or int(o.size) != int(np.prod(sh)) or o.dtype != np.float64 or v.dtype != np.float64:
                return 0, sh, v
            return 1, sh, v

        def get():
            if k < .06:
                return other()
            r = self.objs[n].r
            flag = 1 if (isinstance(r, np.ndarray) and r.dtype == np.float64 and not r.flags.writeable and r.ndim >= 1
                         and r.flags['C_CONTIGUOUS'] and r.dtype.isnative) else 0
            return flag, r.shape, r.copy()
        ok, v = self.guard(get)
        if not ok:
            return {'n': n, 'k': 2}
        return {'n': n, 'k': 1, 'f': v[0], 's': list(v[1]), 'v': encl(v[2])}

    def _obs_d(self, n, w, mode, V, wsz):
        on, ow = self.objs[n], self.objs[w]
        rows = 1 if mode.endswith('1') else self.rng.choice([1, 2])
        mode = mode.rstrip('1')
        nsz = int(np.prod(self.shape(n)))
        if mode in ('lop', 'lmult'):
            L = [[self.rng.choice([-2, -1, 0, 1, 1, 2]) for _ in range(nsz)] for _ in range(rows)]
            lhs = np.array(L, dtype=np.float64)

            def get():
                J = on.lop(ow, lhs) if mode == 'lop' else on.lmult_wrt(lhs, ow)
                return None if J is None else dense(J)
            ok, J = self.guard(get)
            o = {'n': n, 'L': L, 'k': 2 if not ok else 0 if J is None else 1, 's': [], 'v': []}
            if ok and J is not None:
                o['s'] = list(J.shape)
                J = np.asarray(J, dtype=np.float64)
                if V:
                    if J.size == rows * wsz:
                        o['v'] = encl(J.reshape(rows, wsz).dot(np.array(V, dtype=np.float64).T))
                else:
                    o['v'] = encl(J)
            return o

        def get():
            J = on.dr_wrt(ow, reverse_mode=(mode == 'rev')) if mode != 'fwd' else on.dr_wrt(ow)
            return None if J is None else dense(J)
        ok, J = self.guard(get)
        o = {'n': n, 'm': mode, 'k': 2 if not ok else 0 if J is None else 1, 's': [], 'v': []}
        if ok and J is not None:
            o['s'] = list(J.shape)
            J = np.asarray(J, dtype=np.float64)
            if J.shape == (nsz, wsz):
                with np.errstate(all='ignore'):
                    o['v'] = encl(J.dot(np.array(V, dtype=np.float64).T)) if V else encl(J)
        return o

    def create(self, f, p, make, expect):
        """a creation function; expect: the array by NumPy (for the mirror only)"""
        kw = dict(ev='create', f=f, p=p)
        ok, obj = self.guard(make)
        if not ok:
            self.die(**kw)
        self.ev(**kw)
        self.objs.append(obj)
        self.g.append({'op': 'leaf', 'a': [], 'p': {}, 'val': np.atleast_1d(np.array(expect, dtype=np.float64))})
        return len(self.g) - 1

    def query(self, n, f, axis=NONE):
        kw = dict(ev='query', f=f, n=n, axis=axis)
        fn = getattr(self.ch, f)
        ok, v = self.guard(lambda: fn(self.objs[n]) if axis == NONE else fn(self.objs[n], axis))
        if not ok:
            self.die(**kw)
        v = np.asarray(v)
        self.ev(s=list(v.shape), v=[int(q) for q in v.ravel()], **kw)

    def write(self, n, how, v=7.25):
        """try to write to a value that was read; must be refused"""
        kw = dict(ev='write', n=n, how=how)

        def do():
            r = self.objs[n].r
            try:
                if how == 'all':
                    r[...] = v
                elif how == 'elem':
                    r[(0,) * r.ndim] = v
                elif how == 'iadd':
                    r += v
                elif how == 'flat':
                    r.flat[0] = v
                elif how == 'ravel':
                    r.ravel()[0] = v
                elif how == 'slice':
                    r[0:1][...] = v
                elif how == 'T':
                    r.T[...] = v
                elif how == 'fill':
                    r.fill(v)
                elif how == 'sort':
                    r.sort()
                elif how == 'out':
                    np.add(r, v, out=r)
                elif how == 'copyto':
                    np.copyto(r, v)
                return 0
            except (ValueError, RuntimeError, TypeError):
                return 1
        ok, rej = self.guard(do)
        if not ok:
            self.die(**kw)
        self.ev(rej=rej, **kw)

    def svd_open(self, n):
        """decompose node n; the three results are kept outside the mirror graph"""
        kw = dict(ev='nop')
        ok, usv = self.guard(lambda: [expression(q) for q in self.ch.linalg.svd(self.objs[n])])
        if not ok:
            self.die(**kw)
        self.ev(**kw)
        return list(usv)

    def svd_replace(self, n, m, usv):
        """put node m where the decomposition uses node n (all three results hang together below the last one)"""
        kw = dict(ev='nop')
        top = usv[2] if self.shape(n)[0] < self.shape(n)[1] else usv[0]
        ok, _ = self.guard(lambda: top.replace(self.objs[n], self.objs[m]))
        if not ok:
            self.die(**kw)
        self.ev(**kw)

    def svd(self, n, usv, w, order):
        """observe the decomposition usv of n, and its derivative with respect to w"""
        kw = dict(ev='svd', n=n, w=w)
        out = {}

        def get():
            for k in order:
                i = 'USV'.index(k[-1])
                if k[0] == 'd':
                    J = usv[i].dr_wrt(self.objs[w])
                    out[k] = [] if J is None else encl(dense(J))
                else:
                    out[k] = encl(usv[i].r)
                    out['usv'[i] + 's'] = list(usv[i].r.shape)
        ok, _ = self.guard(get)
        if not ok:
            self.die(**kw)
        self.ev(**dict(kw, **out))

    def isdr(self, n, w):
        if n == w and self.g[n]['op'] != 'leaf':
            return          # whether an expression depends on itself is a matter of taste
        ok, b = self.guard(lambda: bool(self.objs[n].is_dr_wrt(self.objs[w])))
        kw = dict(ev='isdr', n=n, w=w)
        if not ok:
            self.die(**kw)
        self.ev(b=1 if b else 0, **kw)

    def tree(self, n):
        ok, vis = self.guard(lambda: [x for x in self.objs[n].tree_iterator()])
        kw = dict(ev='tree', n=n)
        if not ok:
            self.die(**kw)
        cnt = {}
        for x in vis:
            if x is not None:
                cnt[id(x)] = cnt.get(id(x), 0) + 1
        ids = [m for m in self.below(n) if m in self.raw]
        for m in self.ids():
            if self.alive(m) and id(self.objs[m]) in cnt:
                ids.append(m)
        self.ev(ids=sorted(set(ids)), dup=max(cnt.values()) - 1 if cnt else 0, **kw)

    def faulty(self, n, what, kind, k):
        """ask n for something while a callback of a user-defined node below fails; nothing is concluded from what is asked"""
        U.drain()
        U.ARMED[:] = [kind, k]

        def do():
            o = self.objs[n]
            try:
                if what[0] == 'r':
                    o.r
                elif what[0] == 'd':
                    o.dr_wrt(self.objs[what[1]], reverse_mode=what[2] == 'rev')
                else:
                    getattr(o, what[1])
            except U.Fault:
                pass
        ok, _ = self.guard(do)
        U.ARMED[:] = []
        kw = dict(ev='obs', r=[], g=[])
        if not ok:
            self.die(**kw)
        if self.hooks:
            kw['log'] = U.drain()
        self.ev(**kw)

    def attempt(self, n, what):
        """ask for something that has no value at the moment (operands that do not fit); nothing is concluded"""
        U.drain()

        def do():
            o = self.objs[n]
            if what[0] == 'r':
                o.r
            elif what[0] == 'd':
                o.dr_wrt(self.objs[what[1]], reverse_mode=what[2] == 'rev')
            else:
                o.lop(self.objs[what[1]], np.ones((1, 3)))
        self.guard(do)
        kw = dict(ev='obs', r=[], g=[])
        if self.hooks:
            kw['log'] = U.drain()
        self.ev(**kw)

    def prop(self, n, p):
        U.drain()
        kw = dict(ev='prop', n=n, p=p)
        ok, v = self.guard(lambda: np.array(getattr(self.objs[n], p)))
        if not ok:
            self.die(**kw)
        self.ev(s=list(v.shape), v=encl(v), log=U.drain(), **kw)

    def same(self, n, what, x, y):
        self.ev(ev='same', n=n, what=what, x=x, y=y)


class _NullOut(object):
    def write(self, *a):
        pass

    def flush(self):
        pass


_Null = _NullOut()
