"""User-defined chumpy operations with counted callbacks (pickle-able)."""
import numpy as np
from chumpy import Ch
from chumpy import depends_on as _depends_on

LOG = []          # ordered callbacks since the last drain
LOGGING = [False]
ARMED = []        # [kind of callback, how many to let pass]: the callback after those fails


class Fault(Exception):
    pass


def _fault(t):
    if ARMED and ARMED[0] == t:
        if ARMED[1] == 0:
            del ARMED[:]
            raise Fault(t)
        ARMED[1] -= 1


def drain():
    out = list(LOG)
    del LOG[:]
    return out


def _jac(out_shape, in_shape, data):
    """d out / d in for out = broadcast(in) * data"""
    n = int(np.prod(out_shape))
    m = int(np.prod(in_shape))
    idx = np.broadcast_to(np.arange(m).reshape(in_shape), out_shape).ravel()
    J = np.zeros((n, m))
    J[np.arange(n), idx] = np.broadcast_to(data, out_shape).ravel()
    return J


def depends_on(*names):
    """a declaration that is refused spoils only the property it belongs to"""
    try:
        return _depends_on(*names)
    except Exception as e:
        what = '%s: %s' % (type(e).__name__, e)

        def refused(f):
            def get(self):
                raise TypeError('declaration of %s refused: %s' % (f.__name__, what))
            return property(get)
        return refused


class _Logged(Ch):
    dterms = []
    terms = []

    def _log(self, t, value=None, **kw):
        if LOGGING[0] and hasattr(self, 'uid'):
            d = {'t': t, 'n': self.uid}
            d.update(kw)
            LOG.append(d)
        return value


class user(_Logged):
    """a + k*b"""
    dterms = ('a', 'b')
    terms = ('k',)
    term_order = ('a', 'b', 'k')

    def on_changed(self, which):
        _fault('n')
        self._log('n', w=sorted(which))

    def compute_r(self):
        _fault('c')
        return self._log('c', value=self.a.r + self.k * self.b.r)

    def compute_dr_wrt(self, wrt):
        if wrt is not self.a and wrt is not self.b:
            return None
        _fault('d')
        self._log('d')
        sh = np.broadcast(self.a.r, self.b.r).shape
        J = 0.
        if wrt is self.a:
            J = J + _jac(sh, self.a.shape, 1.)
        if wrt is self.b:
            J = J + _jac(sh, self.b.shape, float(self.k))
        return J

    @depends_on('a')
    def pa(self):
        _fault('p')
        return self._log('p', p='pa', value=self.a.r * 2)

    @depends_on('b', 'k')
    def pbk(self):
        _fault('p')
        return self._log('p', p='pbk', value=self.b.r * self.k)

    @depends_on('a', 'b')
    def pab(self):
        _fault('p')
        return self._log('p', p='pab', value=self.a.r + self.b.r)

    @depends_on(['a', 'k'])
    def pl(self, out):
        _fault('p')
        v = self.a.r * self.k
        if out is not None and out.shape == v.shape:
            out[:] = v
            return self._log('p', p='pl', value=out)
        return self._log('p', p='pl', value=v)

    @depends_on('k')
    def pk(self):
        _fault('p')
        return self._log('p', p='pk', value=np.array([float(self.k)]))

    @depends_on('a', 'b', 'k')
    def pn(self):
        _fault('p')
        return self._log('p', p='pn', value=self.pa + self.pbk)


class usersub(user):
    """inherits terms and properties, declares one of them again"""

    @depends_on('a', 'b', 'k')
    def another(self):
        return self.a.r + self.b.r + self.k

    @depends_on('a')
    def pa(self):
        _fault('p')
        return self._log('p', p='pa', value=self.a.r + self.a.r)


class usq(_Logged):
    """a * b"""
    dterms = ('a', 'b')

    def on_changed(self, which):
        _fault('n')
        self._log('n', w=sorted(which))

    def compute_r(self):
        _fault('c')
        return self._log('c', value=self.a.r * self.b.r)

    def compute_dr_wrt(self, wrt):
        if wrt is not self.a and wrt is not self.b:
            return None
        _fault('d')
        self._log('d')
        sh = np.broadcast(self.a.r, self.b.r).shape
        J = 0.
        if wrt is self.a:
            J = J + _jac(sh, self.a.shape, self.b.r)
        if wrt is self.b:
            J = J + _jac(sh, self.b.shape, self.a.r)
        return J


class ulazy(_Logged):
    """a, or a + b: b is read only if k is not zero"""
    dterms = ('a', 'b')
    terms = ('k',)
    term_order = ('a', 'b', 'k')

    def on_changed(self, which):
        _fault('n')
        self._log('n', w=sorted(which))

    def compute_r(self):
        _fault('c')
        return self._log('c', value=self.a.r + self.b.r if self.k else self.a.r * 1.)

    def compute_dr_wrt(self, wrt):
        if wrt is not self.a and (wrt is not self.b or not self.k):
            return None
        _fault('d')
        self._log('d')
        if not self.k:
            return np.eye(self.a.size)
        sh = np.broadcast(self.a.r, self.b.r).shape
        J = 0.
        if wrt is self.a:
            J = J + _jac(sh, self.a.shape, 1.)
        if wrt is self.b:
            J = J + _jac(sh, self.b.shape, 1.)
        return J


def _dressed(J, how):
    import scipy.sparse as sp
    from scipy.sparse.linalg import aslinearoperator
    return {'dense': lambda: J, 'csc': lambda: sp.csc_matrix(J), 'csr': lambda: sp.csr_matrix(J), 'coo': lambda: sp.coo_matrix(J),
            'lop': lambda: aslinearoperator(J)}[how]()


class ualias(Ch):
    """2 * h + v, where v is another name of what h shows"""
    dterms = ('h', 'v')

    @property
    def v(self):
        return self.h.x

    @v.setter
    def v(self, value):
        self.h.x = value

    def compute_r(self):
        return self.h.r * 2 + self.v.r

    def compute_dr_wrt(self, wrt):
        n = self.h.r.size
        if wrt is self.h:
            return 2 * np.eye(n)
        if wrt is self.v:
            return np.eye(n)


class usum(Ch):
    """the sum of as many terms as it was given"""
    dterms = ()

    def compute_r(self):
        v = 0.
        for k in self.dterms:
            v = v + getattr(self, k).r
        return v

    def compute_dr_wrt(self, wrt):
        J = None
        for k in self.dterms:
            if getattr(self, k) is wrt:
                j = _jac(self.r.shape, wrt.shape, 1.)
                J = j if J is None else J + j
        return J


def make_usum(terms):
    r = usum()
    for i, t in enumerate(terms):
        r.add_dterm('t%d' % i, t)
    return r


class utri(Ch):
    """a * b + k * c; the derivative in a form of the author's choosing"""
    dterms = ('a', 'b', 'c')
    terms = ('k', 'how')

    def compute_r(self):
        return self.a.r * self.b.r + self.k * self.c.r

    def compute_dr_wrt(self, wrt):
        if wrt is not self.a and wrt is not self.b and wrt is not self.c:
            return None
        sh = np.broadcast(self.a.r, self.b.r, self.c.r).shape
        J = 0.
        if wrt is self.a:
            J = J + _jac(sh, self.a.shape, self.b.r)
        if wrt is self.b:
            J = J + _jac(sh, self.b.shape, self.a.r)
        if wrt is self.c:
            J = J + _jac(sh, self.c.shape, float(self.k))
        return _dressed(J, self.how)


class probe(Ch):
    """shows a; tells a listener whenever it is evaluated. w is what the listener looks at"""
    dterms = ('a', 'w')
    terms = ('seen', 'sparse')

    def compute_r(self):
        r = self.a.r
        self.seen()
        return r

    def compute_dr_wrt(self, wrt):
        if wrt is self.a:
            import scipy.sparse as sp
            return sp.eye(self.a.r.size, self.a.r.size, format='csc') if self.sparse else np.eye(self.a.r.size)


class Table(object):
    """a function made up as it is asked for: `make(x, known)` gives value and Jacobian at a new point"""

    def __init__(self, make):
        self.make = make
        self.known = []

    def at(self, x):
        for e in self.known:
            if np.max(np.abs(e[0] - x)) <= 1e-9:
                return e
        v, J = self.make(x)
        e = (np.array(x), v, J)
        self.known.append(e)
        return e


class table(Ch):
    dterms = ('x',)
    terms = ('rule',)

    def compute_r(self):
        return self.rule.at(self.x.r.ravel())[1]

    def compute_dr_wrt(self, wrt):
        if wrt is self.x:
            return self.rule.at(self.x.r.ravel())[2]


class _namesake(Ch):
    """another class that has the name of one of those above, used before it"""
    dterms = ('b', 'a')
    terms = ('m',)
    term_order = ('m', 'b', 'a')

    def compute_r(self):
        return self.pa + self.pk

    @property
    def k(self):
        return 1.

    @depends_on('m')
    def pa(self):
        return self.b.r

    @depends_on('a')
    def pk(self):
        return self.a.r

    @depends_on('b')
    def pbk(self):
        return self.b.r


_namesake.__name__ = 'user'
try:
    _kept = _namesake(m=1., a=np.array([1., 2.]), b=np.array([3., 4.]))
    _kept.r
except Exception:
    pass                         # whatever is wrong will show in the histories
