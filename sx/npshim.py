"""Symbolic arrays (object-dtype ndarray subclass) and a stand-in for the name `np` inside the modules
under test.  Every function not overridden here is numpy's own."""
import math
import numpy as np
from . import expr as X
from .sym import (Sym, SymNum, SymBool, lift, lift_bool, mkbool, mknum, to_float, logical_not, is_sym, has_sym, div, CUR)


def _isarr(x):
    return isinstance(x, np.ndarray)


# ------------------------------------------------------------------ elementwise kernels
def _num(x):
    return x.item() if isinstance(x, np.generic) else x


def s_div(a, b):
    a, b = _num(a), _num(b)
    if is_sym(a) or is_sym(b):
        return a / b if not (not is_sym(b) and b == 0) else div(lift(a), X.const(0, 'R')) if not isinstance(lift(a), float) else a
    if b == 0:
        if CUR[0] is not None and CUR[0].div_zero == 'python':
            raise ZeroDivisionError
        a = float(a)
        return float('nan') if (a == 0 or a != a) else math.copysign(float('inf'), a)
    return a / b


def s_max(a, b):
    a, b = _num(a), _num(b)
    if not is_sym(a) and not is_sym(b):
        if a != a:
            return a
        return b if b != b else (a if a >= b else b)
    la, lb = lift(a), lift(b)
    if isinstance(la, float):
        return a if (la != la or la > 0) else b
    if isinstance(lb, float):
        return b if (lb != lb or lb > 0) else a
    return mknum(X.ite(X.le(lb, la), la, lb))


def s_min(a, b):
    a, b = _num(a), _num(b)
    if not is_sym(a) and not is_sym(b):
        if a != a:
            return a
        return b if b != b else (a if a <= b else b)
    la, lb = lift(a), lift(b)
    if isinstance(la, float):
        return a if (la != la or la < 0) else b
    if isinstance(lb, float):
        return b if (lb != lb or lb < 0) else a
    return mknum(X.ite(X.le(la, lb), la, lb))


def s_fmax(a, b):
    return b if (not is_sym(a) and a != a) else a if (not is_sym(b) and b != b) else s_max(a, b)


def s_fmin(a, b):
    return b if (not is_sym(a) and a != a) else a if (not is_sym(b) and b != b) else s_min(a, b)


def s_and(a, b):
    return mkbool(X.and_(lift_bool(a), lift_bool(b)))


def s_or(a, b):
    return mkbool(X.or_(lift_bool(a), lift_bool(b)))


def s_xor(a, b):
    return mkbool(X.not_(X.eq(lift_bool(a), lift_bool(b))))


def _isb(a):
    return isinstance(a, (bool, np.bool_, SymBool))


def s_band(a, b):
    return s_and(a, b) if _isb(a) and _isb(b) else a & b


def s_bor(a, b):
    return s_or(a, b) if _isb(a) and _isb(b) else a | b


def s_inv(a):
    return logical_not(a) if _isb(a) else ~a


def s_eq(a, b):
    r = (a == b)
    return bool(r) if isinstance(r, np.bool_) else r


def s_ne(a, b):
    r = (a != b)
    return bool(r) if isinstance(r, np.bool_) else r


def s_lt(a, b):
    return _num(a) < _num(b)


def s_le(a, b):
    return _num(a) <= _num(b)


def s_gt(a, b):
    return _num(a) > _num(b)


def s_ge(a, b):
    return _num(a) >= _num(b)


def s_isnan(a):
    return False if (is_sym(a) or a is None) else bool(a != a)


def s_isinf(a):
    return False if is_sym(a) else a in (float('inf'), float('-inf'))


def s_isfinite(a):
    return not s_isnan(a) and not s_isinf(a)


def s_log(a):
    if is_sym(a):
        return CUR[0].fn_log(a)
    a = float(a)
    return math.log(a) if a > 0 else (float('-inf') if a == 0 else (a if a != a else float('nan')))


def s_log2(a):
    r = s_log(a)
    return r / math.log(2)


def s_log10(a):
    return s_log(a) / math.log(10)


def s_log1p(a):
    return s_log(1 + a)


def s_exp(a):
    if is_sym(a):
        return CUR[0].fn_exp(a)
    return float(np.exp(float(a)))


def s_sqrt(a):
    if is_sym(a):
        return CUR[0].fn_sqrt(a)
    a = float(a)
    return math.sqrt(a) if a >= 0 else float('nan')


def s_abs(a):
    return abs(a)


def s_floor(a):
    return to_float(a.__floor__()) if is_sym(a) else (float(math.floor(a)) if s_isfinite(a) else a)


def s_ceil(a):
    return to_float(a.__ceil__()) if is_sym(a) else (float(math.ceil(a)) if s_isfinite(a) else a)


def s_rint(a):
    return to_float(round(a)) if is_sym(a) else float(np.rint(a))


def s_trunc(a):
    return to_float(a.__trunc__()) if is_sym(a) else float(np.trunc(a))


def s_sign(a):
    if is_sym(a):
        e = lift(a)
        z = X.const(0, e.sort)
        return mknum(X.ite(X.lt(z, e), X.const(1, e.sort), X.ite(X.lt(e, z), X.const(-1, e.sort), z)))
    return (a > 0) - (a < 0) if a == a else a


def s_square(a):
    return a * a


def s_pow(a, b):
    a, b = _num(a), _num(b)
    if is_sym(a):
        return a ** b
    if is_sym(b):
        return b.__rpow__(a)
    return float(np.power(float(a), b)) if isinstance(a, float) or isinstance(b, float) else a ** b


def s_recip(a):
    return s_div(1.0, a)


_bool_ufuncs = {
    np.equal: s_eq, np.not_equal: s_ne, np.less: s_lt, np.less_equal: s_le, np.greater: s_gt, np.greater_equal: s_ge,
    np.logical_and: s_and, np.logical_or: s_or, np.logical_xor: s_xor, np.logical_not: logical_not,
    np.isnan: s_isnan, np.isinf: s_isinf, np.isfinite: s_isfinite,
    np.bitwise_and: s_band, np.bitwise_or: s_bor, np.invert: s_inv,
}
_num_ufuncs = {
    np.true_divide: s_div, np.maximum: s_max, np.minimum: s_min, np.fmax: s_fmax, np.fmin: s_fmin, np.log: s_log,
    np.log2: s_log2, np.log10: s_log10, np.log1p: s_log1p, np.exp: s_exp, np.sqrt: s_sqrt, np.absolute: s_abs,
    np.fabs: s_abs, np.floor: s_floor, np.ceil: s_ceil, np.rint: s_rint, np.trunc: s_trunc, np.sign: s_sign,
    np.square: s_square, np.power: s_pow, np.float_power: s_pow, np.reciprocal: s_recip,
}
_UF = {}
for _d in (_bool_ufuncs, _num_ufuncs):
    for _u, _f in _d.items():
        _UF[_u] = (np.frompyfunc(_f, _u.nin, 1), _d is _bool_ufuncs)


def base(x):
    return x.view(np.ndarray) if isinstance(x, SymArr) else x


def wrap(x):
    if type(x) is np.ndarray and x.dtype == object:
        return x.view(SymArr)
    return x


def tighten(x):
    """An object array of booleans without symbols becomes a bool array."""
    if isinstance(x, np.ndarray) and x.dtype == object:
        xs = x.ravel().tolist()
        if all(isinstance(v, (bool, np.bool_)) for v in xs):
            return base(x).astype(bool)
    return x


def lower_bool(x):
    """Boolean array; splits the path on every symbolic element."""
    x = np.asanyarray(x)
    if x.dtype == object:
        b = base(x)
        out = np.empty(b.shape, dtype=bool)
        fo, fi = out.reshape(-1), b.reshape(-1)
        for i in range(fi.shape[0]):
            fo[i] = bool(fi[i])
        return out
    return base(x)


def lower_num(x):
    """An object array without symbols becomes a float array (unchanged otherwise)."""
    if isinstance(x, np.ndarray) and x.dtype == object and not has_sym(x):
        try:
            return base(x).astype(float)
        except (TypeError, ValueError):
            return base(x)
    return base(x)


def lower_index(i):
    if isinstance(i, tuple):
        return tuple(lower_index(v) for v in i)
    if isinstance(i, SymNum):
        return int(i)
    if isinstance(i, SymBool):
        return bool(i)
    if isinstance(i, list) and has_sym(i):
        i = np.array(i, dtype=object)
    if isinstance(i, np.ndarray) and i.dtype == object:
        b = base(i)
        xs = b.ravel().tolist()
        if xs and all(_isb(v) for v in xs):
            return lower_bool(b)
        return np.array([int(v) for v in xs], dtype=int).reshape(b.shape)
    if isinstance(i, SymArr):
        return base(i)
    return i


def box(x):
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def ite_take(a, i, c):
    """a[i] for symbolic in-range positions i as ite chains (no path split); None when it does not apply."""
    if isinstance(i, SymNum):
        xs, shape = [i], None
    elif isinstance(i, (list, np.ndarray)) and has_sym(i):
        i = np.asarray(i, dtype=object)
        xs, shape = i.ravel().tolist(), i.shape
        if any(_isb(v) for v in xs):
            return None
    else:
        return None
    n = a.shape[0]
    rows = base(a).tolist()
    if a.ndim not in (1, 2) or n == 0 or n > 16:
        return None
    flat = rows if a.ndim == 1 else [v for r in rows for v in r]
    if any(isinstance(v, (bool, str, tuple, SymBool)) or v is None for v in flat):
        return None
    for x in xs:
        if is_sym(x) and not c.branch(lift_bool_and(x, n)):
            return None
    from .env import select
    out = []
    for x in xs:
        if a.ndim == 1:
            out.append(select(rows, x))
        else:
            out.append([select([r[j] for r in rows], x) for j in range(a.shape[1])] if is_sym(x) else rows[x])
    if shape is None:
        return out[0] if a.ndim == 1 else np.array(out[0], dtype=object).view(SymArr)
    r = np.empty(len(flat) // n * len(xs), dtype=object)
    r[:] = out if a.ndim == 1 else [v for q in out for v in q]
    return r.reshape(shape + a.shape[1:]).view(SymArr)


def lift_bool_and(x, n):
    return X.and_(X.le(X.const(0, 'I'), x.e), X.lt(x.e, X.const(n, 'I')))


class SymArr(np.ndarray):
    def __array_ufunc__(self, uf, method, *inputs, **kw):
        ins = [base(x) for x in inputs]
        out = kw.get('out')
        if out is not None:
            kw['out'] = tuple(base(o) for o in out)
        obj = any(isinstance(x, Sym) or (isinstance(x, np.ndarray) and x.dtype == object) for x in ins)
        if obj and uf in _UF and method in ('__call__', 'reduce', 'accumulate', 'outer'):
            f, isbool = _UF[uf]
            kw.pop('dtype', None)
            kw.pop('casting', None)
            kw.pop('subok', None)
            if kw.get('where', True) is True:
                kw.pop('where', None)
            if kw.get('initial', 0) is np._NoValue:
                kw.pop('initial', None)
            if method == 'reduce' and uf in (np.logical_and, np.logical_or) and ins[0].size == 0:
                return getattr(uf, method)(ins[0].astype(bool), *ins[1:], **kw)
            if method == 'reduce' and ins[0].ndim and uf in (np.logical_and, np.logical_or):
                ins[0] = np.frompyfunc(lambda v: v if _isb(v) else s_ne(v, 0), 1, 1)(ins[0])
            if method == 'reduce' and isinstance(kw.get('axis', 0), type(None)) and ins[0].ndim != 1:
                if not kw.get('keepdims', False):
                    ins[0] = ins[0].reshape(-1)
                    kw['axis'] = 0
            ins = [box(x) if isinstance(x, Sym) else x for x in ins]
            r = getattr(f, method)(*ins, **kw)
            if isbool:
                r = tighten(r)
        else:
            if obj and method == 'reduce' and 'dtype' in kw and kw['dtype'] is not None:
                kw.pop('dtype')
            r = getattr(uf, method)(*ins, **kw)
        if out is not None and len(out) == 1:
            return out[0]
        if isinstance(r, tuple):
            return tuple(wrap(v) for v in r)
        return wrap(r)

    def __getitem__(self, i):
        c = CUR[0]
        if c is not None and c.ite_index and not isinstance(i, (int, slice, tuple)):
            r = ite_take(self, i, c)
            if r is not None:
                return r
        r = np.ndarray.__getitem__(self, lower_index(i))
        return r

    def __setitem__(self, i, v):
        i = lower_index(i)
        if isinstance(v, np.ndarray) and (isinstance(v, SymArr) or v.dtype != object) and v.size == 1 and v.ndim and self.dtype == object and not isinstance(np.ndarray.__getitem__(base(self), i), np.ndarray):
            # a number array takes the only element
            v = v.reshape(-1).tolist()[0]
        np.ndarray.__setitem__(self, i, v)

    def astype(self, dtype, *a, **k):
        dtype = real_dtype(dtype)
        if self.dtype == object and has_sym(self):
            return conv_dtype(self, dtype)
        return np.ndarray.astype(self, dtype, *a, **k)

    def round(self, decimals=0, out=None):
        if self.dtype == object:
            return wrap(np.frompyfunc(lambda v: to_float(round(v, decimals)) if decimals else s_rint(v), 1, 1)(base(self)))
        return np.ndarray.round(self, decimals, out)

    def nonzero(self):
        return lower_bool(self).nonzero() if self.dtype == object else base(self).nonzero()

    def __deepcopy__(self, memo):
        return self.copy()

    def __contains__(self, x):
        for v in self.ravel().tolist():
            if v == x:
                return True
        return False


_DUMMY = np.empty(0, dtype=object).view(SymArr)


def scalar_ufunc(uf, method, *inputs, **kw):
    """ufunc dispatch when the only special operand is a symbolic scalar."""
    if uf not in _UF or method != '__call__':
        ins = []
        for x in inputs:
            if isinstance(x, Sym):
                a = np.empty((), dtype=object)
                a[()] = x
                x = a
            ins.append(x)
        inputs = ins
    return SymArr.__array_ufunc__(_DUMMY, uf, method, *inputs, **kw)


def real_dtype(d):
    """The number type behind the stand-ins for the names int and float."""
    if isinstance(d, type):
        if d.__name__ == 'SymInt':
            return int
        if d.__name__ == 'SymFloat':
            return float
    return d


def conv_dtype(x, dtype):
    dtype = real_dtype(dtype)
    try:
        k = np.dtype(dtype).kind
    except TypeError:
        k = 'O'
    if k == 'f':
        f = to_float
    elif k in 'iu':
        f = lambda v: v.__trunc__() if isinstance(v, SymNum) else (v._num() if isinstance(v, SymBool) else int(v))
    elif k == 'b':
        f = lambda v: v if _isb(v) else s_ne(v, 0)
    else:
        return wrap(np.array(base(x), dtype=object))
    r = wrap(np.frompyfunc(f, 1, 1)(base(x)))
    return tighten(r) if k == 'b' else r


def symarr(x):
    """SymArr with the same content (float content stays float)."""
    if isinstance(x, SymArr):
        return x
    a = np.asanyarray(x)
    return a.view(SymArr)


def _array(x, dtype=None, copy=True, **k):
    k.pop('like', None)
    dtype = real_dtype(dtype)
    if dtype is not None and dtype is not object and has_sym(x):
        a = np.array(x, dtype=object)
        return conv_dtype(a, dtype)
    k.pop('subok', None)
    was = isinstance(x, SymArr)
    r = np.array(x, dtype=dtype, copy=copy, subok=True, **k)
    if dtype is None and type(x) is list and len(x) <= 4 and x and all(type(v) is float for v in x) and CUR[0] is not None:
        # a literal that the code may fill with symbolic numbers
        return np.array(x, dtype=object).view(SymArr)
    return r.view(SymArr) if type(r) is np.ndarray else r


def _asarray(x, dtype=None, order=None, **k):
    dtype = real_dtype(dtype)
    if dtype is not None and dtype is not object and has_sym(x):
        return conv_dtype(np.asanyarray(x, dtype=object), dtype)
    r = np.asanyarray(x, dtype=dtype, order=order)
    return r.view(SymArr) if type(r) is np.ndarray else r


def _dt_kind(dtype):
    dtype = real_dtype(dtype)
    try:
        return np.dtype(dtype).kind
    except TypeError:
        return 'O'


def _fresh(fill):
    def f(shape, dtype=float, order='C', **k):
        kind = _dt_kind(dtype)
        if kind == 'b':
            return np.full(shape, bool(fill), dtype=bool).view(SymArr)
        v = int(fill) if kind in 'iu' else float(fill)
        if kind == 'O':
            v = fill
        r = np.empty(shape, dtype=object)
        r.fill(v)
        return r.view(SymArr)
    return f


def _full(shape, fill_value, dtype=None, order='C', **k):
    if isinstance(fill_value, (bool, np.bool_)) and dtype in (None, bool):
        return np.full(shape, fill_value, dtype=bool).view(SymArr)
    r = np.empty(shape, dtype=object)
    r[...] = fill_value
    return r.view(SymArr)


def _like(fill):
    f0 = _fresh(fill)

    def f(a, dtype=None, **k):
        a = np.asanyarray(a)
        return f0(a.shape, dtype=(dtype if dtype is not None else (float if a.dtype == object else a.dtype)))
    return f


def _where(c, *ab):
    if not ab:
        return lower_bool(c).nonzero()
    if has_sym(c) or has_sym(ab[0]) or has_sym(ab[1]):
        def f(cc, a, b):
            e = lift_bool(cc)
            if e.op == 'const':
                return a if e.val else b
            d = CUR[0].implied(e)
            if d is not None:
                return a if d else b
            la, lb = lift(a), lift(b)
            if la is None or lb is None or isinstance(la, float) or isinstance(lb, float):
                return a if bool(cc) else b
            if _isb(a) and _isb(b):
                return mkbool(X.ite(e, lift_bool(a), lift_bool(b)))
            return mknum(X.ite(e, la, lb))
        return wrap(np.frompyfunc(f, 3, 1)(base(np.asanyarray(c)), base(np.asanyarray(ab[0], dtype=object)), base(np.asanyarray(ab[1], dtype=object))))
    return np.where(lower_bool(c) if _isarr(c) else c, *ab)


def _uf(u):
    def f(*a, **k):
        if any(has_sym(x) or isinstance(x, SymArr) for x in a):
            if not any(isinstance(x, SymArr) for x in a):
                if not any(isinstance(x, (np.ndarray, list, tuple)) for x in a):
                    return (_bool_ufuncs.get(u) or _num_ufuncs[u])(*a)
                a = list(a)
                for i, x in enumerate(a):
                    if isinstance(x, (np.ndarray, list, tuple)):
                        a[i] = np.asanyarray(x).view(SymArr)
                        break
            return u(*a, **k)
        return u(*a, **k)
    f.__name__ = u.__name__
    f.reduce = lambda a, *r, **k: u.reduce(symarr(a), *r, **k)
    f.accumulate = lambda a, *r, **k: u.accumulate(symarr(a), *r, **k)
    f.outer = u.outer
    f.at = u.at
    return f


def _isin1(v, ys):
    r = X.FALSE
    for y in ys:
        q = s_eq(v, y)
        r = X.or_(r, lift_bool(q))
    return mkbool(r)


def _isin(a, b, assume_unique=False, invert=False, **k):
    if not has_sym(a) and not has_sym(b):
        return np.isin(lower_num(np.asanyarray(a)), lower_num(np.asanyarray(b)), invert=invert)
    ys = np.asanyarray(b).ravel().tolist()
    r = np.frompyfunc(lambda v: _isin1(v, ys), 1, 1)(base(np.asanyarray(a)))
    r = lower_bool(r)
    return ~r if invert else r


def _row_less(a, b):
    for x, y in zip(a, b):
        if x < y:
            return True
        if x > y:
            return False
    return False


def _unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    a = np.asanyarray(a)
    if a.ndim == 1 and axis in (0, -1):
        axis = None
    if a.dtype != object or axis is None:
        if a.dtype == object and not has_sym(a) and a.size:
            xs = a.ravel().tolist()
            if all(isinstance(v, (int, float, np.number)) and not isinstance(v, bool) for v in xs):
                a = base(a)
        return np.unique(a, return_index=return_index, return_inverse=return_inverse, return_counts=return_counts, axis=axis, **k)
    b = base(a)
    rows = np.moveaxis(b, axis, 0)
    items = [(r, i) for i, r in enumerate(rows)]
    import functools

    def cmp(p, q):
        x, y = p[0].ravel().tolist(), q[0].ravel().tolist()
        return -1 if _row_less(x, y) else (1 if _row_less(y, x) else 0)
    items.sort(key=functools.cmp_to_key(cmp))
    groups = []
    for it in items:
        if groups and cmp(groups[-1][-1], it) == 0:
            groups[-1].append(it)
        else:
            groups.append([it])
    out = np.moveaxis(np.array([g[0][0] for g in groups], dtype=object).reshape((len(groups),) + rows.shape[1:]), 0, axis).view(SymArr)
    res = [out]
    if return_index:
        res.append(np.array([min(i for _, i in g) for g in groups], dtype=int))
    if return_inverse:
        inv = np.empty(len(items), dtype=int)
        for gi, g in enumerate(groups):
            for _, i in g:
                inv[i] = gi
        res.append(inv)
    if return_counts:
        res.append(np.array([len(g) for g in groups], dtype=int))
    return res[0] if len(res) == 1 else tuple(res)


def _isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    def f(x, y):
        if is_sym(x) or is_sym(y):
            if isinstance(lift(x), float) or isinstance(lift(y), float):
                return False
            return abs(x - y) <= atol + rtol * abs(y)
        return bool(np.isclose(x, y, rtol, atol, equal_nan))
    r = np.frompyfunc(f, 2, 1)(base(np.asanyarray(a, dtype=object)), base(np.asanyarray(b, dtype=object)))
    return tighten(wrap(r))


def _array_equal(a, b, **k):
    a, b = np.asanyarray(a), np.asanyarray(b)
    if a.shape != b.shape:
        return False
    if has_sym(a) or has_sym(b):
        r = X.TRUE
        for x, y in zip(a.ravel().tolist(), b.ravel().tolist()):
            r = X.and_(r, lift_bool(s_eq(x, y)))
        return mkbool(r)
    return np.array_equal(base(a), base(b), **k)


def _norm(x, ord=None, axis=None, keepdims=False):
    if not has_sym(x):
        return np.linalg.norm(lower_num(np.asanyarray(x)), ord, axis, keepdims)
    x = symarr(x)
    if ord in (None, 2, 'fro') and (axis is None or x.ndim == 1 or isinstance(axis, int)):
        s = np.sum(np.multiply(x, x), axis=axis, keepdims=keepdims)
        return _uf(np.sqrt)(s)
    if ord == 1:
        return np.sum(np.absolute(x), axis=axis, keepdims=keepdims)
    raise TypeError('norm of a symbolic array')


def _count_nonzero(a, axis=None, **k):
    a = np.asanyarray(a)
    if a.dtype == object:
        return np.sum(wrap(np.frompyfunc(lambda v: lift_num(v if _isb(v) else s_ne(v, 0)), 1, 1)(base(a))), axis=axis)
    return np.count_nonzero(base(a), axis=axis, **k)


def lift_num(v):
    return mknum(lift(v))


def _bincount(x, weights=None, minlength=0):
    x = np.asanyarray(x)
    if x.dtype == object:
        x = np.array([int(v) for v in x.tolist()], dtype=int)
    if weights is not None and has_sym(weights):
        n = max(int(x.max()) + 1 if x.size else 0, minlength)
        out = _fresh(0)(n)
        for i, w in zip(x.tolist(), list(weights)):
            out[i] = out[i] + w
        return out
    return np.bincount(base(x), weights, minlength)


def _clip(a, lo, hi, out=None, **k):
    if has_sym(a) or has_sym(lo) or has_sym(hi):
        r = a if is_sym(a) or not isinstance(a, (list, tuple, np.ndarray)) else symarr(a)
        if lo is not None:
            r = _uf(np.maximum)(r, lo)
        if hi is not None:
            r = _uf(np.minimum)(r, hi)
        if out is not None:
            out[...] = r
            return out
        return r
    return np.clip(a, lo, hi, out=out, **k)


def _round(a, decimals=0, out=None):
    if is_sym(a):
        return to_float(round(a, decimals)) if decimals else to_float(round(a))
    if has_sym(a):
        return symarr(a).round(decimals)
    return np.round(a, decimals, out)


def _nanred(f):
    def g(a, axis=None, **k):
        if has_sym(a):
            return f(symarr(a), axis=axis, **k)
        return getattr(np, 'nan' + f.__name__.replace('amax', 'max').replace('amin', 'min'))(lower_num(np.asanyarray(a)), axis=axis, **k)
    return g


def _partition(a, kth, axis=-1, **k):
    """Symbolic rows of up to 4 numbers: a full sort by min and max (one of the orders numpy may leave)."""
    x = np.asanyarray(a)
    if not has_sym(x) or x.ndim not in (1, 2) or x.shape[axis] > 4 or not all(isinstance(v, (int, float, np.number, SymNum)) for v in x.ravel().tolist()):
        return wrap(np.partition(wrap(x), kth, axis=axis))
    b = base(x) if x.ndim == 1 or axis in (-1, 1) else base(x).T
    out = np.empty(b.shape, dtype=object)
    for i, row in enumerate([b] if b.ndim == 1 else b):
        r = row.tolist()
        for p in range(len(r)):
            for q in range(len(r) - 1 - p):
                r[q], r[q + 1] = s_min(r[q], r[q + 1]), s_max(r[q], r[q + 1])
        if b.ndim == 1:
            out[:] = r
        else:
            out[i, :] = r
    return (out if x.ndim == 1 or axis in (-1, 1) else out.T).view(SymArr)


def _setdiff1d(a, b, assume_unique=False):
    a = np.asanyarray(a).ravel()
    if not assume_unique:
        a = _unique(a)
    return a[_isin(a, b, invert=True)]


def _intersect1d(a, b, **k):
    a = _unique(np.asanyarray(a).ravel())
    return a[_isin(a, b)]


def _union1d(a, b):
    return _unique(np.concatenate([np.asanyarray(a).ravel(), np.asanyarray(b).ravel()]))


def _conc(f):
    """Concrete-only numpy function: object arrays without symbols are turned into float arrays first."""
    def g(*a, **k):
        return f(*[lower_num(x) if isinstance(x, np.ndarray) else x for x in a], **k)
    return g


class LinalgShim(object):
    norm = staticmethod(_norm)

    def __getattr__(self, n):
        v = getattr(np.linalg, n)
        return _conc(v) if callable(v) and not isinstance(v, type) else v


def _eye(*a, **k):
    return np.eye(*a, **k).astype(object).view(SymArr)


def _lexsort(keys, axis=-1):
    if has_sym(list(keys)):
        n = len(keys[0])
        import functools
        ks = [list(k) for k in keys][::-1]

        def cmp(i, j):
            for k in ks:
                if k[i] < k[j]:
                    return -1
                if k[i] > k[j]:
                    return 1
            return 0
        return np.array(sorted(range(n), key=functools.cmp_to_key(cmp)), dtype=int)
    return np.lexsort([lower_num(np.asanyarray(k)) for k in keys], axis)


def _savetxt(fname, x, *a, **k):
    x = np.asanyarray(x)
    if has_sym(x):
        x = np.array([int(v) if isinstance(v, SymNum) and v.is_int else v for v in x.ravel().tolist()]).reshape(x.shape)
    return np.savetxt(fname, base(x), *a, **k)


class Masked(object):
    """A masked array of symbolic values (the mask is concrete)."""
    __array_ufunc__ = None

    def __init__(self, data, mask):
        self.data = symarr(np.array(data, dtype=object))
        self.mask = np.broadcast_to(np.asarray(lower_bool(np.asanyarray(mask)), dtype=bool), self.data.shape).copy()

    shape = property(lambda s: s.data.shape)

    def _red(self, f, axis):
        if axis is None:
            v = [x for x, m in zip(self.data.ravel().tolist(), self.mask.ravel()) if not m]
            return f(v)
        d, m = np.moveaxis(base(self.data), axis, -1), np.moveaxis(self.mask, axis, -1)
        o, om = np.empty(d.shape[:-1], dtype=object), np.zeros(d.shape[:-1], dtype=bool)
        for i in np.ndindex(*d.shape[:-1]):
            v = [x for x, y in zip(d[i].tolist(), m[i]) if not y]
            om[i] = not v
            o[i] = f(v) if v else 0
        return Masked(o, om)

    def min(self, axis=None):
        return self._red(lambda v: _fold(s_min, v), axis)

    def max(self, axis=None):
        return self._red(lambda v: _fold(s_max, v), axis)

    def sum(self, axis=None):
        return self._red(lambda v: _fold(lambda a, b: a + b, [lift_num(x) for x in v]), axis)

    def reshape(self, *s):
        return Masked(self.data.reshape(*s), self.mask.reshape(*s))

    def filled(self, v=0):
        o = self.data.copy()
        for i in np.ndindex(*self.shape):
            if self.mask[i]:
                o[i] = v
        return o

    def _cmp(self, o, f):
        om = o.mask if isinstance(o, Masked) else False
        od = o.data if isinstance(o, Masked) else symarr(np.asanyarray(o))
        r = f(self.data, od)
        return Masked(r, np.broadcast_to(self.mask, r.shape) | om)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __getitem__(self, i):
        return Masked(self.data[i], self.mask[i])


def _fold(f, v):
    r = v[0]
    for x in v[1:]:
        r = f(r, x)
    return r


class MaShim(object):
    def masked_array(self, data, mask=False, **k):
        if has_sym(data):
            return Masked(data, mask)
        return np.ma.masked_array(lower_num(np.asanyarray(data)), mask=np.asarray(lower_bool(np.asanyarray(mask)), dtype=bool), **k)

    array = masked_array

    def __getattr__(self, n):
        return getattr(np.ma, n)


class NpShim(object):
    """Stands in for numpy as the global name `np` of a module under test."""
    def __init__(self, random):
        self.random = random
        self.linalg = LinalgShim()
        self.ma = MaShim()
        self.array = _array
        self.asarray = self.asanyarray = self.ascontiguousarray = _asarray
        self.zeros = _fresh(0)
        self.ones = _fresh(1)
        self.empty = _fresh(0)
        self.full = _full
        self.zeros_like = _like(0)
        self.ones_like = _like(1)
        self.empty_like = _like(0)
        self.eye = _eye
        self.arange = lambda *a, **k: np.arange(*[int(x) if is_sym(x) else x for x in a], **k).astype(object).view(SymArr)
        self.ix_ = lambda *a: np.ix_(*[lower_index(np.asanyarray(x)) for x in a])
        self.unravel_index = lambda i, *a, **k: np.unravel_index(lower_index(np.asanyarray(i)), *a, **k)
        self.ravel_multi_index = lambda i, *a, **k: np.ravel_multi_index(tuple(lower_index(np.asanyarray(x)) for x in i), *a, **k)
        self.diag = lambda a, *r, **k: wrap(np.diag(base(np.asanyarray(a)), *r, **k))
        self.where = _where
        self.isin = self.in1d = _isin
        self.unique = _unique
        self.isclose = _isclose
        self.allclose = lambda a, b, **k: np.all(_isclose(a, b, **k))
        self.array_equal = _array_equal
        self.count_nonzero = _count_nonzero
        self.bincount = _bincount
        self.clip = _clip
        self.round = self.around = self.round_ = _round
        self.setdiff1d = _setdiff1d
        self.intersect1d = _intersect1d
        self.union1d = _union1d
        self.nonzero = lambda a: lower_bool(a).nonzero()
        self.flatnonzero = lambda a: lower_bool(np.asanyarray(a).ravel()).nonzero()[0]
        self.argwhere = lambda a: np.argwhere(lower_bool(a))
        self.nanmax = _nanred(np.max)
        self.nanmin = _nanred(np.min)
        self.nansum = _nanred(np.sum)
        self.nanmean = _nanred(np.mean)
        self.nanstd = _nanred(np.std)
        self.lexsort = _lexsort
        self.savetxt = _savetxt
        self.corrcoef = _conc(np.corrcoef)
        self.cov = _conc(np.cov)
        self.kron = np.kron
        for d in (_bool_ufuncs, _num_ufuncs):
            for u in d:
                setattr(self, u.__name__, _uf(u))
        self.abs = self.absolute
        self.divide = self.true_divide
        self.bitwise_not = self.invert
        for n in ('sum', 'mean', 'std', 'var', 'max', 'min', 'amax', 'amin', 'prod', 'cumsum', 'all', 'any', 'sort', 'argsort', 'argmax',
                  'argmin', 'median', 'percentile', 'average', 'diff', 'ptp', 'dot', 'hstack', 'vstack', 'concatenate', 'copy', 'ravel', 'squeeze', 'flip',
                  'transpose', 'reshape', 'take', 'repeat', 'tile', 'delete', 'append', 'insert', 'stack', 'column_stack', 'atleast_1d',
                  'atleast_2d', 'trapz', 'outer', 'multiply', 'add', 'subtract', 'cumprod', 'partition', 'argpartition', 'searchsorted', 'broadcast_to', 'expand_dims'):
            setattr(self, n, _pre(getattr(np, n)))
        self.partition = _partition

    def __getattr__(self, n):
        return getattr(np, n)


def _prep(x):
    if isinstance(x, np.ndarray):
        return wrap(x)
    if isinstance(x, (list, tuple)) and has_sym(x):
        if all(isinstance(v, (Sym, int, float, np.generic)) for v in x):
            return wrap(np.array(x, dtype=object))
        if all(isinstance(v, (list, np.ndarray, tuple)) for v in x):
            return type(x)(_prep(v) for v in x)
    return x


def _pre(f):
    def g(a, *r, **k):
        a = _prep(a)
        if r and f is not np.hstack:
            r = tuple(_prep(x) if isinstance(x, np.ndarray) else x for x in r)
        if isinstance(a, Sym):
            a = np.array(a, dtype=object).view(SymArr) if f not in (np.multiply, np.add, np.subtract, np.dot) else a
        return wrap(f(a, *r, **k))
    g.__name__ = getattr(f, '__name__', 'np')
    if isinstance(f, np.ufunc):
        g.reduce = f.reduce
        g.outer = f.outer
        g.at = f.at
        g.accumulate = f.accumulate
    return g
