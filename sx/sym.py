"""Symbolic scalars.  A SymNum/SymBool carries an SMT term; using one as a truth value, an index or a
dictionary key asks the current path explorer to split the path on it."""
import math
from fractions import Fraction
import numpy as np
from . import expr as X

CUR = [None]  # current symbolic context
REG = []  # registry used so that symbolic values survive pickling


class PathAbort(BaseException):
    """The path's assumptions are infeasible (or the path was cut)."""


def _fraction_floats(o):
    return o == o and o not in (float('inf'), float('-inf'))


def lift(o):
    """E, or a float for inf/nan, or None when o is not a number."""
    if isinstance(o, SymNum):
        return o.e
    if isinstance(o, SymBool):
        return X.ite(o.e, X.const(1, 'I'), X.const(0, 'I'))
    if isinstance(o, (bool, np.bool_)):
        return X.const(1 if o else 0, 'I')
    if isinstance(o, int):
        return X.const(o, 'I')
    if isinstance(o, float):
        return X.const(Fraction(o), 'R') if _fraction_floats(o) else float(o)
    if isinstance(o, Fraction):
        return X.const(o, 'R')
    if isinstance(o, np.generic):
        return lift(o.item())
    if isinstance(o, np.ndarray) and o.ndim == 0:
        return lift(o.item())
    return None


def lift_bool(o):
    if isinstance(o, SymBool):
        return o.e
    if isinstance(o, (bool, np.bool_)):
        return X.TRUE if o else X.FALSE
    if isinstance(o, SymNum):
        return X.not_(X.eq(o.e, X.const(0, o.e.sort)))
    if isinstance(o, np.ndarray) and o.ndim == 0:
        return lift_bool(o.item())
    return X.TRUE if o else X.FALSE


def mkbool(e):
    if e.op == 'const':
        return e.val
    return SymBool(e)


def mknum(e):
    """Constants become Python numbers again (exact)."""
    if e.op == 'const':
        if e.sort == 'I':
            return e.val
        f = float(e.val)
        if Fraction(f) == e.val:
            return f
    return SymNum(e)


def _unpickle(i):
    return REG[i]


class Sym(object):
    __slots__ = ('e',)
    def __array_ufunc__(self, uf, method, *inputs, **kw):
        from .npshim import scalar_ufunc
        return scalar_ufunc(uf, method, *inputs, **kw)

    def __init__(self, e):
        self.e = e

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        REG.append(self)
        return (_unpickle, (len(REG) - 1,))

    def __reduce_ex__(self, p):
        return self.__reduce__()

    def __repr__(self):
        return '<%s %s>' % (type(self).__name__, self.e.name or self.e.op)

    __str__ = __repr__

    def __format__(self, spec):
        return '<sym>'


def _arr(o):
    return isinstance(o, np.ndarray) and o.ndim > 0 or isinstance(o, (list, tuple, str))


class SymBool(Sym):
    __slots__ = ()

    def __bool__(self):
        return CUR[0].branch(self.e)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def _num(self):
        return SymNum(lift(self))

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool, np.bool_)):
            return mkbool(X.eq(self.e, lift_bool(o)))
        if _arr(o):
            return NotImplemented
        return self._num() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else logical_not(r)

    def __and__(self, o):
        if isinstance(o, (SymBool, bool, np.bool_)):
            return mkbool(X.and_(self.e, lift_bool(o)))
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (SymBool, bool, np.bool_)):
            return mkbool(X.or_(self.e, lift_bool(o)))
        return NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (SymBool, bool, np.bool_)):
            return mkbool(X.not_(X.eq(self.e, lift_bool(o))))
        return NotImplemented

    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(X.not_(self.e))

    def __add__(self, o):
        return self._num().__add__(o)

    __radd__ = __add__

    def __sub__(self, o):
        return self._num().__sub__(o)

    def __rsub__(self, o):
        return self._num().__rsub__(o)

    def __mul__(self, o):
        return self._num().__mul__(o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._num().__truediv__(o)

    def __rtruediv__(self, o):
        return self._num().__rtruediv__(o)

    def __neg__(self):
        return -self._num()

    def __pos__(self):
        return self._num()

    def __abs__(self):
        return self._num()

    def __lt__(self, o):
        return self._num() < o

    def __le__(self, o):
        return self._num() <= o

    def __gt__(self, o):
        return self._num() > o

    def __ge__(self, o):
        return self._num() >= o

    def __pow__(self, o):
        return self._num() ** o

    def item(self):
        return self


def _sgn_special(sym, inf):
    """sym * inf"""
    if sym > 0:
        return inf
    if sym < 0:
        return -inf
    return float('nan')


def _mul(a, b):
    c = CUR[0]
    r = c.mul(a, b) if c is not None else None
    return X.mul(a, b) if r is None else r


class SymNum(Sym):
    __slots__ = ()

    @property
    def is_int(self):
        return self.e.sort == 'I'

    # ---------- comparisons
    def _cmp(self, o, f, special):
        if _arr(o):
            return NotImplemented
        b = lift(o)
        if b is None:
            return NotImplemented
        if isinstance(b, float):
            return special(b)
        return mkbool(f(self.e, b))

    def __lt__(self, o):
        return self._cmp(o, X.lt, lambda b: b == float('inf'))

    def __le__(self, o):
        return self._cmp(o, X.le, lambda b: b == float('inf'))

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: X.lt(b, a), lambda b: b == float('-inf'))

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: X.le(b, a), lambda b: b == float('-inf'))

    def __eq__(self, o):
        if _arr(o) and isinstance(o, np.ndarray):
            return NotImplemented
        b = lift(o)
        if b is None:
            return False
        if isinstance(b, float):
            return False
        return mkbool(X.eq(self.e, b))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else logical_not(r)

    # ---------- arithmetic
    def _bin(self, o, f, special):
        if _arr(o):
            return NotImplemented
        b = lift(o)
        if b is None:
            return NotImplemented
        if isinstance(b, float):
            return special(b)
        return mknum(f(self.e, b))

    def __add__(self, o):
        return self._bin(o, X.add, lambda b: b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, X.sub, lambda b: -b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: X.sub(b, a), lambda b: b)

    def __mul__(self, o):
        return self._bin(o, _mul, lambda b: b if b != b else _sgn_special(self, b))

    __rmul__ = __mul__

    def __truediv__(self, o):
        if _arr(o):
            return NotImplemented
        b = lift(o)
        if b is None:
            return NotImplemented
        if isinstance(b, float):
            return b if b != b else 0.0
        return div(self.e, b)

    def __rtruediv__(self, o):
        if _arr(o):
            return NotImplemented
        a = lift(o)
        if a is None:
            return NotImplemented
        if isinstance(a, float):
            return a if a != a else (a if not (self < 0) else -a)
        return div(a, self.e)

    def __floordiv__(self, o):
        if _arr(o):
            return NotImplemented
        b = lift(o)
        if b is None or isinstance(b, float):
            return NotImplemented
        if b.op == 'const' and b.val != 0 and b.sort == 'I' and self.is_int:
            return mknum(X.idiv(self.e, b))
        if self.is_int and b.sort == 'I':
            return mknum(X.idiv(self.e, X.const(int(o), 'I')))
        q = div(self.e, b)
        return q if isinstance(q, float) else mknum(X.to_real(X.to_int(lift(q))))

    def __rfloordiv__(self, o):
        a = lift(o)
        if a is None or isinstance(a, float):
            return NotImplemented
        if a.sort == 'I' and self.is_int:
            return o // int(self)
        q = div(a, self.e)
        return q if isinstance(q, float) else mknum(X.to_real(X.to_int(lift(q))))

    def __mod__(self, o):
        if _arr(o):
            return NotImplemented
        b = lift(o)
        if b is None or isinstance(b, float):
            return NotImplemented
        if self.is_int and b.sort == 'I':
            if b.op != 'const':
                b = X.const(int(o), 'I')
            return mknum(X.imod(self.e, b))
        return self - (self // o) * o

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return o % int(self)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        if isinstance(o, SymNum) and o.is_int:
            o = int(o)
        if isinstance(o, (int, np.integer)) or (isinstance(o, (float, np.floating)) and float(o).is_integer() and abs(o) < 8):
            n = int(o)
            r = 1
            for _ in range(abs(n)):
                r = self * r
            return r if n >= 0 else 1 / r
        if isinstance(o, (float, np.floating)) and o == 0.5:
            return self.sqrt()
        return float(self) ** o

    def __rpow__(self, o):
        if self.is_int:
            return o ** int(self)
        return o ** float(self)

    def __neg__(self):
        return mknum(X.neg(self.e))

    def __pos__(self):
        return self

    def __abs__(self):
        return mknum(X.ite(X.le(X.const(0, self.e.sort), self.e), self.e, X.neg(self.e)))

    # ---------- conversions that split the path
    def __bool__(self):
        return CUR[0].branch(X.not_(X.eq(self.e, X.const(0, self.e.sort))))

    def __index__(self):
        if not self.is_int:
            raise TypeError('non-integer used as an index')
        return CUR[0].split_int(self.e)

    def __int__(self):
        if self.is_int:
            return CUR[0].split_int(self.e)
        return CUR[0].split_int(self.__trunc__().e) if isinstance(self.__trunc__(), SymNum) else int(self.__trunc__())

    def __float__(self):
        if self.e.op == 'const':
            return float(self.e.val)
        if self.is_int:
            return float(CUR[0].split_int(self.e))
        return CUR[0].concretise(self.e)

    def __complex__(self):
        return complex(float(self))

    def __hash__(self):
        return CUR[0].hash_of(self)

    def __floor__(self):
        return mknum(X.to_int(self.e))

    def __ceil__(self):
        return mknum(X.neg(X.to_int(X.neg(self.e))))

    def __trunc__(self):
        z = X.const(0, self.e.sort)
        return mknum(X.ite(X.le(z, self.e), X.to_int(self.e), X.neg(X.to_int(X.neg(self.e)))))

    def __round__(self, n=None):
        if self.is_int:
            return self
        if n:
            s = 10 ** n
            return round(self * s) / s
        half = X.const(Fraction(1, 2), 'R')
        r = X.to_int(X.add(self.e, half))
        tie = X.eq(X.sub(X.to_real(r), self.e), half)
        odd = X.eq(X.imod(r, X.const(2, 'I')), X.const(1, 'I'))
        r = mknum(X.ite(X.and_(tie, odd), X.sub(r, X.const(1, 'I')), r))
        return r if n is None else to_float(r)

    # ---------- numpy object-loop methods and numpy-scalar look-alikes
    def sqrt(self):
        return CUR[0].fn_sqrt(self)

    def log(self):
        return CUR[0].fn_log(self)

    def exp(self):
        return CUR[0].fn_exp(self)

    def rint(self):
        return to_float(round(self))

    def floor(self):
        return to_float(self.__floor__())

    def ceil(self):
        return to_float(self.__ceil__())

    def conjugate(self):
        return self

    def item(self):
        return self

    def tolist(self):
        return self

    def copy(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    def is_integer(self):
        if self.is_int:
            return True
        return mkbool(X.eq(self.e, X.to_real(X.to_int(self.e))))

    def astype(self, t):
        if t in (int, np.int64, np.int32, 'int') or getattr(t, '__name__', '') == 'SymInt':
            return self.__trunc__()
        if t is bool:
            return self != 0
        return to_float(self)


def to_float(x):
    if isinstance(x, SymNum):
        return SymNum(X.to_real(x.e)) if x.e.sort == 'I' else x
    if isinstance(x, SymBool):
        return to_float(x._num())
    return float(x)


def logical_not(x):
    return mkbool(X.not_(lift_bool(x)))


def div(a, b):
    """a / b for terms; splits on b == 0 with numpy (inf/nan) or Python (ZeroDivisionError) semantics."""
    if b.op == 'const':
        zero = b.val == 0
    else:
        zero = CUR[0].branch(X.eq(b, X.const(0, b.sort)))
    if zero:
        if CUR[0].div_zero == 'python':
            raise ZeroDivisionError('division by zero')
        s = mknum(a)
        if s > 0:
            return float('inf')
        if s < 0:
            return float('-inf')
        return float('nan')
    return mknum(X.div(a, b))


def is_sym(o):
    return isinstance(o, Sym)


def has_sym(o):
    if isinstance(o, Sym):
        return True
    if isinstance(o, np.ndarray):
        return o.dtype == object and any(has_sym(x) for x in o.ravel().tolist())
    if isinstance(o, (list, tuple, set, frozenset)):
        return any(has_sym(x) for x in o)
    if isinstance(o, dict):
        return any(has_sym(x) for x in o.keys()) or any(has_sym(x) for x in o.values())
    return False
