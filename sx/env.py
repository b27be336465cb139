"""Environment of a run: stubs for randomness and clock, and (symbolic mode) the numpy stand-in."""
import builtins
import math
import os
import sys
import types
import numpy as np
from . import sym as S
from .sym import Sym, SymNum, SymBool, is_sym, has_sym, CUR, to_float
from . import npshim
from .npshim import NpShim, SymArr, wrap, base, symarr

MODULES = []


def load_modules():
    """Import every alipy module of the current tree."""
    if MODULES:
        return MODULES
    import importlib
    names = ['alipy', 'alipy.toolbox', 'alipy.metrics.performance', 'alipy.experiment.stopping_criteria', 'alipy.experiment.state',
             'alipy.experiment.experiment_analyser', 'alipy.experiment.state_io', 'alipy.experiment.al_experiment',
             'alipy.query_strategy.query_type', 'alipy.query_strategy.noisy_oracles', 'alipy.query_strategy.query_features',
             'alipy.query_strategy.cost_sensitive', 'alipy.query_strategy.base', 'alipy.query_strategy.query_labels',
             'alipy.query_strategy.multi_label', 'alipy.data_manipulate.al_split', 'alipy.data_manipulate.datapreprocess',
             'alipy.oracle.knowledge_repository', 'alipy.oracle.oracle', 'alipy.index.multi_label_tools', 'alipy.index.index_collections',
             'alipy.utils.misc', 'alipy.utils.interface', 'alipy.utils.ace_warnings', 'alipy.utils.multi_thread']
    for n in names:
        importlib.import_module(n)
    for n, m in sorted(sys.modules.items()):
        if (n == 'alipy' or n.startswith('alipy.')) and isinstance(m, types.ModuleType):
            MODULES.append(m)
    return MODULES


class RandomStub(object):
    """numpy.random / random: every draw is an arbitrary value of its documented range."""
    def __init__(self, ctx):
        self._c = ctx

    RandomState = np.random.RandomState

    def seed(self, *a, **k):
        pass

    def _perm(self, n):
        c = self._c
        nm = c.fresh_name('rperm')
        if len(c.draws) in c.script:
            return self._draw(c.script[len(c.draws)](n))
        p = self._draw(c.perm(nm, n))
        return p

    def _draw(self, p):
        c = self._c
        if c.max_draws is not None and len(c.draws) >= c.max_draws:
            raise S.PathAbort('bound on the number of random draws')
        if c.split_draws:
            p = [int(x) for x in p]
        c.draws.append(p)
        return p

    def _pick(self, items, k):
        """k distinct positions of items, arbitrary order."""
        c = self._c
        n = len(items)
        nm = c.fresh_name('rsel')
        pos = c.ints(nm, k, 0, n - 1)
        if k > 1:
            c.assume(distinct(pos))
        pos = self._draw(pos)
        return [select(items, p) for p in pos]

    def shuffle(self, x):
        items = list(x)
        p = self._perm(len(items))
        new = [select(items, i) for i in p]
        for i, v in enumerate(new):
            x[i] = v

    def permutation(self, x):
        if isinstance(x, (int, np.integer)):
            items = list(range(int(x)))
        else:
            items = list(x)
        p = self._perm(len(items))
        return mkarr([select(items, i) for i in p])

    def _size(self, size):
        if size is None:
            return None
        if isinstance(size, (int, np.integer)):
            return (int(size),)
        return tuple(int(s) for s in size)

    def _fill(self, size, f):
        sh = self._size(size)
        if sh is None:
            return f()
        n = 1
        for s in sh:
            n *= s
        xs = [f() for _ in range(n)]
        return mkarr(xs).reshape(sh)

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        low, high = int(low), int(high)
        if low >= high:
            raise ValueError('low >= high')
        return self._fill(size, lambda: self._c.int(self._c.fresh_name('rint'), low, high - 1))

    def random_integers(self, low, high=None, size=None):
        if high is None:
            low, high = 1, low
        return self.randint(low, high + 1, size)

    def choice(self, a, size=None, replace=True, p=None):
        items = list(range(int(a))) if isinstance(a, (int, np.integer)) else list(a)
        if not items:
            raise ValueError("'a' cannot be empty unless no samples are taken")
        sh = self._size(size)
        if p is not None:
            items = [x for x, q in zip(items, list(p)) if q > 0]
        if not replace:
            n = 1
            for s in (sh or (1,)):
                n *= s
            if n > len(items):
                raise ValueError('Cannot take a larger sample than population when replace is False')
            xs = self._pick(items, n)
            return xs[0] if sh is None else mkarr(xs).reshape(sh)
        return self._fill(size, lambda: self._pick(items, 1)[0])

    def rand(self, *size):
        return self._fill(size or None, lambda: self._c.real(self._c.fresh_name('runi'), 0, 1))

    def random(self, size=None):
        return self._fill(size, lambda: self._c.real(self._c.fresh_name('runi'), 0, 1))

    random_sample = ranf = uniform01 = random

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._fill(size, lambda: low + (high - low) * self._c.real(self._c.fresh_name('runi'), 0, 1))

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._fill(size, lambda: self._c.real(self._c.fresh_name('rnor'), -4, 4))

    def randn(self, *size):
        return self._fill(size or None, lambda: self._c.real(self._c.fresh_name('rnor'), -4, 4))

    def binomial(self, n, p, size=None):
        return self._fill(size, lambda: self._c.int(self._c.fresh_name('rbin'), 0, int(n)))

    def __getattr__(self, n):
        return getattr(np.random, n)


class PyRandomStub(object):
    """the standard library's random module"""
    def __init__(self, ctx):
        self._c = ctx
        self._r = RandomStub(ctx)

    def seed(self, *a):
        pass

    def sample(self, population, k):
        items = list(population)
        if k > len(items):
            raise ValueError('Sample larger than population or is negative')
        return list(self._r._pick(items, k))

    def choice(self, seq):
        return self._r._pick(list(seq), 1)[0]

    def choices(self, seq, k=1, **kw):
        return [self._r._pick(list(seq), 1)[0] for _ in range(k)]

    def shuffle(self, x):
        self._r.shuffle(x)

    def randint(self, a, b):
        return self._c.int(self._c.fresh_name('pint'), a, b)

    def randrange(self, a, b=None):
        return self._c.int(self._c.fresh_name('pint'), 0 if b is None else a, (a if b is None else b) - 1)

    def random(self):
        return self._c.real(self._c.fresh_name('puni'), 0, 1)

    def uniform(self, a, b):
        return a + (b - a) * self.random()

    def __getattr__(self, n):
        import random
        return getattr(random, n)


def distinct(xs):
    from .engine import Distinct
    return Distinct(xs)


def select(items, i):
    """items[i] for a symbolic i: an ite chain over numbers, a path split otherwise."""
    if isinstance(i, (int, np.integer)):
        return items[i]
    from .engine import Ite
    if all(isinstance(x, (int, float, np.number, SymNum)) and not isinstance(x, (bool, np.bool_)) for x in items):
        if [int(x) if isinstance(x, (int, np.integer)) else None for x in items] == list(range(len(items))):
            return i
        r = items[-1]
        if isinstance(r, np.number):
            r = r.item()
        for k in range(len(items) - 2, -1, -1):
            x = items[k]
            r = Ite(i == k, x.item() if isinstance(x, np.number) else x, r)
        return r
    return items[int(i)]


def mkarr(xs):
    if has_sym(xs):
        a = np.empty(len(xs), dtype=object)
        for i, x in enumerate(xs):
            a[i] = x
        return a.view(SymArr)
    return np.array(xs)


# ------------------------------------------------------------------ builtins that must accept symbols
_IMAP = {int: 'I', float: 'R', bool: 'B'}


def sym_isinstance(x, t):
    if isinstance(x, Sym):
        ts = t if isinstance(t, tuple) else (t,)
        for q in ts:
            if isinstance(q, tuple):
                if sym_isinstance(x, q):
                    return True
                continue
            q = _unshim(q)
            if q is object:
                return True
            if isinstance(q, type) and issubclass(type(x), q):
                return True
            if isinstance(x, SymBool):
                if q in (bool, int):
                    return True
            elif x.is_int:
                if q is int or (isinstance(q, type) and q in (np.integer, np.number, np.generic) and False):
                    return True
            elif q is float or q in (np.floating, np.float64):
                return True
            import numbers
            if isinstance(q, type) and q.__module__ == 'numbers' and q in (numbers.Number, numbers.Real):
                return True
            if x.__class__ is SymNum and x.is_int and q in (numbers.Integral, numbers.Rational):
                return True
        return False
    return builtins.isinstance(x, _unshim_all(t))


class _Conv(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, cls._real) or sym_isinstance(x, cls._real)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)


def _unshim(q):
    return getattr(q, '_real', q) if builtins.isinstance(q, _Conv) else q


def _unshim_all(t):
    return tuple(_unshim_all(q) for q in t) if builtins.isinstance(t, tuple) else _unshim(t)


class SymFloat(float, metaclass=_Conv):
    _real = float

    def __new__(cls, x=0.0):
        return to_float(x) if is_sym(x) else float(x)


class SymInt(int, metaclass=_Conv):
    _real = int

    def __new__(cls, x=0, *a):
        if isinstance(x, SymNum):
            return x.__trunc__()
        if isinstance(x, SymBool):
            return x._num()
        return int(x, *a)


def sym_type(*a):
    if len(a) != 1:
        return type(*a)
    x = a[0]
    if isinstance(x, SymBool):
        return bool
    if isinstance(x, SymNum):
        return int if x.is_int else float
    return type(x)


def _check_array(x, *a, **k):
    if has_sym(x) or isinstance(x, SymArr):
        r = wrap(np.asanyarray(x))
        if not isinstance(r, SymArr):
            r = symarr(r)
        if k.get('ensure_2d', True) and r.ndim != 2:
            raise ValueError('Expected 2D array')
        return r.copy() if k.get('copy') else r
    from sklearn.utils import check_array
    r = check_array(x, *a, **k)
    return r.view(SymArr) if type(r) is np.ndarray else r


def _check_X_y(x, y, *a, **k):
    if has_sym(x) or has_sym(y) or isinstance(x, SymArr) or isinstance(y, SymArr):
        if len(x) != len(y):
            raise ValueError('inconsistent numbers of samples')
        return _check_array(x), symarr(np.asanyarray(y))
    from sklearn.utils import check_X_y
    return check_X_y(x, y, *a, **k)


def _pairwise(kind):
    def f(X, Y=None, **k):
        if has_sym(X) or has_sym(Y):
            Y = X if Y is None else Y
            X, Y = symarr(np.asanyarray(X)), symarr(np.asanyarray(Y))
            out = np.empty((len(X), len(Y)), dtype=object)
            from .npshim import s_sqrt
            for i in range(len(X)):
                for j in range(len(Y)):
                    d = 0
                    for p, q in zip(X[i].tolist(), Y[j].tolist()):
                        d = d + (p - q) * (p - q)
                    out[i, j] = d if (k.get('squared') and kind == 'euclidean') else s_sqrt(d)
            return out.view(SymArr)
        import sklearn.metrics.pairwise as pw
        return getattr(pw, 'euclidean_distances' if kind == 'euclidean' else 'pairwise_distances')(npshim.lower_num(np.asanyarray(X)), None if Y is None else npshim.lower_num(np.asanyarray(Y)), **k)
    return f


def _type_of_target(y, *a, **k):
    if has_sym(y):
        y = np.asanyarray(y)
        if y.ndim == 2 and y.shape[1] > 1:
            return 'multilabel-indicator'
        xs = y.ravel().tolist()
        from .engine import Or, Not, Eq
        first = xs[0]
        vals = []
        for v in xs:
            if not any(bool(Eq(v, w)) for w in vals):
                vals.append(v)
        return 'multiclass' if len(vals) > 2 else 'binary'
    from sklearn.utils.multiclass import type_of_target
    if isinstance(y, SymArr):
        y = base(y)
    return type_of_target(npshim.lower_num(y) if isinstance(y, np.ndarray) else y, *a, **k)


def _unique_labels(*ys):
    if any(has_sym(y) for y in ys):
        return npshim._unique(np.concatenate([np.asarray(y).ravel() for y in ys]))
    from sklearn.utils.multiclass import unique_labels
    return unique_labels(*[npshim.lower_num(np.asanyarray(y)).astype(int) if isinstance(y, np.ndarray) and y.dtype == object else y for y in ys])


def _rankdata(a, method='average', **k):
    if has_sym(a):
        xs = list(np.asarray(a).ravel())
        out = []
        from .engine import Sum
        for i, x in enumerate(xs):
            less = Sum([y < x for j, y in enumerate(xs) if j != i])
            eq = Sum([y == x for j, y in enumerate(xs) if j != i])
            if method == 'average':
                out.append(less + 1 + eq / 2.0)
            elif method == 'min':
                out.append(less + 1)
            elif method == 'max':
                out.append(less + 1 + eq)
            else:
                raise TypeError('rankdata method')
        return mkarr(out)
    from scipy.stats import rankdata
    return rankdata(npshim.lower_num(np.asanyarray(a)), method=method)


class CsrStub(object):
    """A sparse matrix with symbolic entries: which of them are stored is decided when it is asked for."""
    def __init__(self, dense):
        self.dense = symarr(np.asanyarray(dense))
        self.shape = self.dense.shape
        self._idx = None

    def _stored(self):
        if self._idx is None:
            self._idx = [[j for j, v in enumerate(r) if bool(v != 0)] for r in self.dense.tolist()]
        return self._idx

    @property
    def indptr(self):
        return np.cumsum([0] + [len(r) for r in self._stored()])

    @property
    def indices(self):
        return np.array([j for r in self._stored() for j in r], dtype=int)

    def toarray(self):
        return self.dense.copy()

    todense = A = toarray

    def __sub__(self, o):
        return CsrStub(self.dense - (o.dense if isinstance(o, CsrStub) else o.toarray()))

    def __rsub__(self, o):
        return CsrStub(o.toarray() - self.dense)

    __array_ufunc__ = None

    def __ne__(self, o):
        return CsrStub(self.dense != (o.dense if isinstance(o, CsrStub) else o.toarray()))

    @property
    def nnz(self):
        return sum(len(r) for r in self._stored())

    def getnnz(self, axis=None):
        r = self._stored()
        return self.nnz if axis is None else np.array([len(x) for x in r]) if axis in (1, -1) else np.array([sum(j in x for x in r) for j in range(self.shape[1])])

    def __getitem__(self, i):
        return CsrStub(np.atleast_2d(self.dense[i]))


def _csr(x, *a, **k):
    if isinstance(x, CsrStub):
        return x
    if has_sym(x):
        return CsrStub(x)
    import scipy.sparse as sp
    return sp.csr_matrix(npshim.lower_num(np.asanyarray(x)) if isinstance(x, np.ndarray) else x, *a, **k)


_NAMED = {
    'csr_matrix': _csr,
    'check_array': _check_array, 'check_X_y': _check_X_y, 'euclidean_distances': _pairwise('euclidean'),
    'pairwise_distances': _pairwise('pairwise'), 'type_of_target': _type_of_target, 'unique_labels': _unique_labels, 'rankdata': _rankdata,
}


def install(ctx, random=True):
    mods = load_modules()
    rs = RandomStub(ctx)
    ps = PyRandomStub(ctx)
    if ctx.symbolic:
        shim = NpShim(rs)
        for m in mods:
            d = m.__dict__
            for n in ('np', 'numpy'):
                if d.get(n) is np:
                    ctx.patch(m, n, shim)
            for n, f in _NAMED.items():
                if n in d and d[n] is not f and not str(getattr(d[n], '__module__', '')).startswith('alipy'):
                    ctx.patch(m, n, f)
            ctx.patch(m, 'isinstance', sym_isinstance)
            ctx.patch(m, 'int', SymInt)
            ctx.patch(m, 'float', SymFloat)
            ctx.patch(m, 'type', sym_type)
    # scripted draws (both modes): only the module-level random functions are replaced
    import random as _random
    for n in ('seed', 'shuffle', 'permutation', 'randint', 'random_integers', 'choice', 'rand', 'random', 'random_sample', 'uniform', 'normal',
              'randn', 'binomial'):
        ctx.patch(np.random, n, getattr(rs, n))
    for n in ('seed', 'sample', 'choice', 'choices', 'shuffle', 'randint', 'randrange', 'random', 'uniform'):
        ctx.patch(_random, n, getattr(ps, n))
