"""Path exploration: the real code runs on symbolic values; every branch on one is decided by the solver
(both sides explored when both are feasible), every assertion is a solver query over all values of the path."""
import itertools
import math
import os
import random as _pyrandom
import re as _re
import signal
import sys
import time
import traceback
from fractions import Fraction
import numpy as np
from . import expr as X
from . import sym as S
from .sym import SymNum, SymBool, CUR, PathAbort, lift, lift_bool, mkbool, mknum, is_sym, has_sym
from .npshim import NpShim, SymArr, symarr
from .solver import Solver

TOL = 1e-7
PATH_LIMIT = 45
REPLAY_LIMIT = 30


# ------------------------------------------------------------------ logic usable in both modes
def And(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    xs = list(xs)
    if any(isinstance(x, SymBool) for x in xs):
        return mkbool(X.and_(*[lift_bool(x) for x in xs]))
    return all(bool(x) for x in xs)


def Or(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    xs = list(xs)
    if any(isinstance(x, SymBool) for x in xs):
        return mkbool(X.or_(*[lift_bool(x) for x in xs]))
    return any(bool(x) for x in xs)


def Not(x):
    if isinstance(x, SymBool):
        return mkbool(X.not_(x.e))
    return not x


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        return mkbool(X.eq(lift_bool(a), lift_bool(b)))
    return bool(a) == bool(b)


def Ite(c, a, b):
    if isinstance(c, SymBool):
        if isinstance(a, (bool, np.bool_, SymBool)) and isinstance(b, (bool, np.bool_, SymBool)):
            return mkbool(X.ite(c.e, lift_bool(a), lift_bool(b)))
        return mknum(X.ite(c.e, lift(a), lift(b)))
    return a if c else b


def Eq(a, b):
    """Equality of scalars / nested sequences without splitting the path."""
    if isinstance(a, np.ndarray):
        a = a.tolist()
    if isinstance(b, np.ndarray):
        b = b.tolist()
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))) or len(a) != len(b):
            return False
        return And([Eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, (bool, np.bool_)) and isinstance(b, SymBool):
        return b == a
    r = a == b
    if isinstance(r, np.bool_):
        return bool(r)
    if isinstance(r, np.ndarray):
        return bool(r.all())
    return r


def Close(a, b, tol=TOL):
    """|a-b| <= tol elementwise (nan equals nan, inf equals inf)."""
    if isinstance(a, np.ndarray):
        a = a.tolist()
    if isinstance(b, np.ndarray):
        b = b.tolist()
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))) or len(a) != len(b):
            return False
        return And([Close(x, y, tol) for x, y in zip(a, b)])
    if isinstance(a, SymBool):
        a = a._num()
    if isinstance(b, SymBool):
        b = b._num()
    if not is_sym(a) and not is_sym(b):
        try:
            a, b = float(a), float(b)
        except (TypeError, ValueError):
            return False
        if a != a or b != b:
            return a != a and b != b
        if a in (float('inf'), float('-inf')) or b in (float('inf'), float('-inf')):
            return a == b
        return abs(a - b) <= tol
    la, lb = lift(a), lift(b)
    if la is None or lb is None or isinstance(la, float) or isinstance(lb, float):
        return False
    d = X.sub(X.to_real(la), X.to_real(lb))
    if d.op == 'const':
        return abs(d.val) <= tol
    t = X.const(Fraction(tol), 'R')
    return mkbool(X.and_(X.le(d, t), X.le(X.neg(t), d)))


def In(x, xs):
    return Or([Eq(x, y) for y in xs])


def Distinct(xs):
    xs = list(xs)
    return And([Not(Eq(a, b)) for a, b in itertools.combinations(xs, 2)])


def Sum(xs, start=0):
    r = start
    for x in xs:
        r = r + (x._num() if isinstance(x, SymBool) else (int(x) if isinstance(x, (bool, np.bool_)) else x))
    return r


def Max(xs):
    xs = list(xs)
    r = xs[0]
    for x in xs[1:]:
        r = Ite(r >= x, r, x)
    return r


def Min(xs):
    xs = list(xs)
    r = xs[0]
    for x in xs[1:]:
        r = Ite(r <= x, r, x)
    return r


def Abs(x):
    return abs(x)


def Exp(x):
    return CUR[0].fn_exp(x) if is_sym(x) else math.exp(x)


def ToBool(x):
    if is_sym(x):
        return mkbool(lift_bool(x))
    return bool(x)


# ------------------------------------------------------------------ time limit of one execution
class Hang(BaseException):
    pass


class TimeLimit(object):
    """Raises Hang in the main thread; postponed while the solver pipe is busy."""
    def __init__(self, seconds, solver=None):
        self.s = seconds
        self.solver = solver

    def _alarm(self, *a):
        if self.solver is not None and self.solver.busy:
            signal.setitimer(signal.ITIMER_REAL, 0.5)
            return
        raise Hang('no result after %d s' % self.s)

    def __enter__(self):
        self.old = signal.signal(signal.SIGALRM, self._alarm)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


# ------------------------------------------------------------------ contexts
class CheckFailed(Exception):
    pass


class BaseCtx(object):
    div_zero = 'numpy'
    hash_universe = tuple(range(-1, 8))

    def __init__(self):
        self.patches = []
        self.draws = []
        self.max_draws = None
        self.split_draws = False
        self.script = {}
        self.ite_index = False
        self.covers = set()
        self.obs = []
        self.nchecks = 0
        self._fresh = {}
        self.tmpdirs = []

    def fresh_name(self, p):
        n = self._fresh.get(p, 0)
        self._fresh[p] = n + 1
        return '%s_%d' % (p, n)

    def patch(self, obj, attr, val):
        had = attr in getattr(obj, '__dict__', {})
        self.patches.append((obj, attr, had, getattr(obj, attr, None)))
        setattr(obj, attr, val)

    def unpatch(self):
        for obj, attr, had, old in reversed(self.patches):
            if had:
                setattr(obj, attr, old)
            else:
                try:
                    delattr(obj, attr)
                except AttributeError:
                    pass
        self.patches = []
        import shutil
        for d in self.tmpdirs:
            shutil.rmtree(d, ignore_errors=True)
        self.tmpdirs = []

    def tmpdir(self):
        import tempfile
        d = tempfile.mkdtemp(prefix='sx_')
        self.tmpdirs.append(d)
        return d

    def cover(self, label):
        self.covers.add(label)

    # derived inputs
    def ints(self, name, n, lo, hi):
        return [self.int('%s_%d' % (name, i), lo, hi) for i in range(n)]

    def bools(self, name, n):
        return [self.bool('%s_%d' % (name, i)) for i in range(n)]

    def reals(self, name, n, lo=None, hi=None):
        return [self.real('%s_%d' % (name, i), lo, hi) for i in range(n)]

    def real_mat(self, name, n, m, lo=None, hi=None):
        return [[self.real('%s_%d_%d' % (name, i, j), lo, hi) for j in range(m)] for i in range(n)]

    def int_mat(self, name, n, m, lo, hi):
        return [[self.int('%s_%d_%d' % (name, i, j), lo, hi) for j in range(m)] for i in range(n)]

    def perm(self, name, n):
        """A list with the numbers 0..n-1 in arbitrary (symbolic) order."""
        xs = self.ints(name, n, 0, n - 1)
        if n > 1:
            self.assume(Distinct(xs))
        return xs

    def index(self, name, lo, hi):
        """An arbitrary integer in [lo, hi], split into one path per value (complete)."""
        x = self.int(name, lo, hi)
        return int(x)

    def choice(self, name, options):
        options = list(options)
        return options[self.index(name, 0, len(options) - 1)]

    def flag(self, name):
        return bool(self.bool(name))

    def subset(self, name, items):
        """An arbitrary subset, split into one path per subset."""
        return [x for i, x in enumerate(items) if self.flag('%s_%d' % (name, i))]

    def imp(self, cond, then, label, **k):
        self.check(Implies(cond, then), label, **k)

    def raises(self, exc, f, *a, **k):
        """True when f raises exc."""
        try:
            f(*a, **k)
        except exc:
            return True
        return False


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, ex, prefix, model):
        BaseCtx.__init__(self)
        self.ranges = {}
        self.ex = ex
        self.solver = ex.solver
        self.prefix = prefix
        self.pos = 0
        self.taken = []
        self.model = model
        self.known = {}
        self.vars = {}
        self.conc = 0
        self.fn_terms = {}
        self.taint, self.polys, self.atoms, self.fn_monos, self.fn_prods = {}, {}, {}, {}, {}
        self.unknown_branches = 0
        self.incomplete = False

    # ---------- inputs
    def _newvar(self, name, sort):
        name = 'x_' + _re.sub('[^A-Za-z0-9_]', '_', name)
        if name in self.vars:
            raise RuntimeError('duplicate symbolic input %s' % name)
        e = X.var(name, sort)
        self.vars[name] = sort
        self.solver.term(e)
        return e

    def int(self, name, lo=None, hi=None):
        if lo is not None and lo == hi:
            return lo
        e = self._newvar(name, 'I')
        self.ranges[e.name] = (lo, hi)
        if lo is not None:
            self._assert(X.le(X.const(lo, 'I'), e), silent=True)
        if hi is not None:
            self._assert(X.le(e, X.const(hi, 'I')), silent=True)
        if self.model is not None and not self._model_has(e.name):
            self._extend_model(e.name, lo if lo is not None else (hi if hi is not None else 0))
        return SymNum(e)

    def real(self, name, lo=None, hi=None):
        e = self._newvar(name, 'R')
        self.ranges[e.name] = (lo, hi)
        if lo is not None:
            self._assert(X.le(X.const(Fraction(lo), 'R'), e), silent=True)
        if hi is not None:
            self._assert(X.le(e, X.const(Fraction(hi), 'R')), silent=True)
        if self.model is not None and not self._model_has(e.name):
            self._extend_model(e.name, Fraction(lo) if lo is not None else (Fraction(hi) if hi is not None else Fraction(0)))
        return SymNum(e)

    def bool(self, name):
        e = self._newvar(name, 'B')
        if self.model is not None and not self._model_has(e.name):
            self._extend_model(e.name, False)
        return SymBool(e)

    def grid(self, n, steps):
        """A few exactly representable values of the declared range of input n (None when the range is not known)."""
        if self.vars.get(n) == 'B':
            return [False, True]
        lo, hi = self.ranges.get(n, (None, None))
        if lo is None or hi is None:
            return None
        if self.vars[n] == 'I':
            return list(range(lo, hi + 1)) if hi - lo <= 16 else None
        lo, hi = Fraction(lo), Fraction(hi)
        den = max(1, int(steps / max(1, math.ceil(hi - lo))))
        a, b = math.ceil(lo * den), math.floor(hi * den)
        if b - a > 16:
            return None
        return [Fraction(i, den) for i in range(a, b + 1)]

    def _model_has(self, n):
        return n in self.model

    def _extend_model(self, n, v):
        self.model = dict(self.model)
        self.model[n] = v

    def arr(self, x):
        a = np.array(x, dtype=object) if has_sym(x) else np.asarray(x)
        return a.view(SymArr)

    def const_arr(self, x):
        return np.asarray(x).view(SymArr)

    # ---------- path condition
    def _assert(self, e, silent=False):
        if e is X.TRUE:
            return
        self.solver.assert_(e)

    def assume(self, c):
        e = lift_bool(c)
        if e is X.TRUE:
            return
        if e is X.FALSE:
            raise PathAbort('assume')
        self._assert(e)
        if self.model is not None and X.evaluate(e, self.model) is not True:
            self.model = None
        if self.model is None and self.pos >= len(self.prefix):
            r, m = self.solver.check()
            if r == 'unsat':
                raise PathAbort('assume')
            self.model = m

    def _ensure_model(self):
        if self.model is None:
            r, m = self.solver.check()
            if r == 'unsat':
                raise PathAbort('infeasible')
            self.model = m
        return self.model

    def branch(self, e):
        if e.op == 'const':
            return e.val
        neg = False
        while e.op == 'not':
            e = e.args[0]
            neg = not neg
        k = self.known.get(e.id)
        if k is not None:
            return k != neg
        v = self._branch(e)
        self.known[e.id] = v
        if v and e.op == 'and':
            for a in e.args:
                self._know(a, True)
        if not v and e.op == 'or':
            for a in e.args:
                self._know(a, False)
        return v != neg

    def implied(self, e):
        """True or False when the path decides e, None otherwise (never splits the path)."""
        if e.op == 'const':
            return e.val
        k = self.known.get(e.id)
        if k is not None:
            return k
        if self.pos < len(self.prefix):
            kind, v = self.prefix[self.pos]
            if kind != 'i':
                raise RuntimeError('nondeterministic re-execution')
            self.pos += 1
        else:
            m = self._ensure_model()
            ev = X.evaluate(e, m) if m is not None else None
            v = None
            if ev is not False and self.solver.check(X.not_(e))[0] == 'unsat':
                v = True
            elif ev is not True and self.solver.check(e)[0] == 'unsat':
                v = False
        self.taken.append(('i', v))
        if v is not None:
            self.known[e.id] = v
        return v

    def _know(self, a, v):
        while a.op == 'not':
            a = a.args[0]
            v = not v
        self.known[a.id] = v

    def _branch(self, e):
        if self.pos < len(self.prefix):
            kind, v = self.prefix[self.pos]
            if kind != 'b':
                raise RuntimeError('nondeterministic re-execution')
            self.pos += 1
            self.taken.append(('b', v))
            self._assert(e if v else X.not_(e))
            if self.model is not None and X.evaluate(e, self.model) is not v:
                self.model = None
            return v
        if self.ex.out_of_budget():
            self.incomplete = True
            raise PathAbort('budget')
        m = self._ensure_model()
        ev = X.evaluate(e, m) if m is not None else None
        if ev is None:
            r1, m1 = self.solver.check(e)
            if r1 == 'unsat':
                v, other, mo = False, 'unsat', None
            else:
                v = True
                other, mo = self.solver.check(X.not_(e))
                if m1 is not None:
                    self.model = m1
                if r1 == 'unknown':
                    self.unknown_branches += 1
                    self.model = None
        else:
            v = ev
            other, mo = self.solver.check(X.not_(e) if v else e)
        self.ex.branches += 1
        self.pos += 1
        if other != 'unsat':
            if other == 'unknown':
                self.unknown_branches += 1
                mo = None
            self.ex.push(self.taken + [('b', not v)], mo)
            self.taken.append(('b', v))
            self._assert(e if v else X.not_(e))
        else:
            # forced: entailed by the path condition, still recorded so that re-execution is deterministic
            self.taken.append(('b', v))
        return v

    def split_int(self, e):
        """Concrete value of an integer term; one path for each feasible value."""
        if e.op == 'const':
            return e.val
        k = self.known.get(('i', e.id))
        if k is not None:
            return k
        excluded = ()
        if self.pos < len(self.prefix):
            kind, v = self.prefix[self.pos]
            if kind == '=':
                self.pos += 1
                self.taken.append(('=', v))
                c = X.eq(e, X.const(v, 'I'))
                self._assert(c)
                self.known[c.id] = True
                if self.model is not None and X.evaluate(c, self.model) is not True:
                    self.model = None
                self.known[('i', e.id)] = v
                return v
            if kind != '!=':
                raise RuntimeError('nondeterministic re-execution')
            excluded = v
            for w in excluded:
                c = X.not_(X.eq(e, X.const(w, 'I')))
                self._assert(c)
            if self.model is not None and X.evaluate(e, self.model) in excluded:
                self.model = None
        if self.ex.out_of_budget():
            self.incomplete = True
            raise PathAbort('budget')
        m = self._ensure_model()
        v = X.evaluate(e, m) if m is not None else None
        if v is None:
            t = X.var('sp_%d' % e.id, 'I')
            r, m2 = self.solver.check(X.eq(t, e))
            v = m2.get(t.name) if m2 else None
            if v is None:
                self.incomplete = True
                raise PathAbort('no integer value')
        self.pos += 1
        c = X.eq(e, X.const(v, 'I'))
        self.ex.branches += 1
        r, mo = self.solver.check(X.not_(c))
        if r != 'unsat':
            if len(excluded) >= 64:
                self.incomplete = True
                self.ex.note('integer split over more than 64 values cut')
            else:
                self.ex.push(self.taken + [('!=', excluded + (v,))], mo)
        self.taken.append(('=', v))
        self._assert(c)
        self.known[c.id] = True
        self.known[('i', e.id)] = v
        return v

    def concretise(self, e):
        """float(x): pick the model's value.  Makes the exploration incomplete (recorded)."""
        k = self.known.get(('f', e.id))
        if k is not None:
            return k
        if self.pos < len(self.prefix):
            kind, v = self.prefix[self.pos]
            if kind != 'f':
                raise RuntimeError('nondeterministic re-execution')
        else:
            m = self._ensure_model()
            v = X.evaluate(e, m) if m is not None else None
            if v is None:
                self.incomplete = True
                raise PathAbort('no real value')
        self.pos += 1
        self.taken.append(('f', v))
        c = X.eq(e, X.const(v, 'R'))
        self._assert(c)
        if self.model is not None and X.evaluate(c, self.model) is not True:
            self.model = None
        self.conc += 1
        self.incomplete = True
        f = sys._getframe(2)
        self.ex.conc_sites['%s:%d' % (os.path.basename(f.f_code.co_filename), f.f_lineno)] = self.ex.conc_sites.get('%s:%d' % (os.path.basename(f.f_code.co_filename), f.f_lineno), 0) + 1
        self.known[('f', e.id)] = float(v)
        return float(v)

    def hash_of(self, x):
        e = x.e
        k = self.known.get(('i', e.id))
        if k is not None:
            return hash(k)
        for u in self.hash_universe:
            if self.branch(X.eq(e, X.const(u, e.sort))):
                return hash(u)
        return 7777777

    # ---------- uninterpreted real functions (fresh value per argument, with sound axioms)
    def _fn(self, name, x, axioms):
        e = X.to_real(lift(x))
        d = self.fn_terms.setdefault(name, {})
        if e.id in d:
            return SymNum(d[e.id][1])
        v = X.var('fn_%s_%d' % (name, len(d)), 'R')
        self.vars[v.name] = 'R'
        self.solver.term(v)
        for a in axioms(e, v):
            self._assert(a)
        for e2, v2 in d.values():
            self._assert(X.eq(X.lt(e, e2), X.lt(v, v2)))
            self._assert(X.eq(X.eq(e, e2), X.eq(v, v2)))
        d[e.id] = (e, v)
        self.model = None
        return SymNum(v)

    # ---------- products with such values: one fresh value per monomial, so that the queries stay linear
    def tainted(self, e):
        t = self.taint
        stack = [e]
        while stack:
            x = stack[-1]
            if x.id in t:
                stack.pop()
                continue
            if x.op in ('var', 'const'):
                t[x.id] = x.op == 'var' and x.name.startswith(('fn_log', 'fn_exp', 'fnp'))
                stack.pop()
                continue
            todo = [a for a in x.args if a.id not in t]
            if todo:
                stack.extend(todo)
                continue
            t[x.id] = any(t[a.id] for a in x.args)
            stack.pop()
        return t[e.id]

    def poly(self, e):
        """e as {monomial: coefficient}, a monomial being a sorted tuple of ids of atoms."""
        if e.id in self.polys:
            return self.polys[e.id]
        op = e.op
        if op == 'const':
            r = {(): Fraction(e.val)} if e.val else {}
        elif op == '+' or op == '-':
            r = dict(self.poly(e.args[0]))
            for m, c in self.poly(e.args[1]).items():
                r[m] = r.get(m, 0) + (c if op == '+' else -c)
                if r[m] == 0:
                    del r[m]
        elif op == 'neg':
            r = {m: -c for m, c in self.poly(e.args[0]).items()}
        elif op == '*':
            r = self.pmul(self.poly(e.args[0]), self.poly(e.args[1]))
        elif op == 'to_real':
            r = self.poly(e.args[0])
        elif e.id in self.fn_prods:
            r = {self.fn_prods[e.id]: Fraction(1)}
        else:
            self.atoms[e.id] = e
            r = {(e.id,): Fraction(1)}
        self.polys[e.id] = r
        return r

    def pmul(self, p, q):
        r = {}
        for m, c in p.items():
            for n, d in q.items():
                k = tuple(sorted(m + n))
                r[k] = r.get(k, 0) + c * d
                if r[k] == 0:
                    del r[k]
        return r

    def monomial(self, m):
        if not any(self.tainted(self.atoms[i]) for i in m):
            v = X.to_real(self.atoms[m[0]])
            for i in m[1:]:
                v = X.mul(v, X.to_real(self.atoms[i]))
            return v
        # untainted factors first
        m = tuple(sorted(m, key=lambda i: (self.tainted(self.atoms[i]), i)))
        if len(m) == 1:
            return X.to_real(self.atoms[m[0]])
        if m in self.fn_monos:
            return self.fn_monos[m]
        v = X.var('fnp_%d' % len(self.fn_monos), 'R')
        self.vars[v.name] = 'R'
        self.solver.term(v)
        self.fn_monos[m] = v
        self.fn_prods[v.id] = tuple(sorted(m))
        self.taint[v.id] = True
        a, b = self.monomial(m[:1]), self.monomial(m[1:])
        z, one = X.const(0, 'R'), X.const(1, 'R')
        le, lt, imp = X.le, X.lt, lambda p, q: X.or_(X.not_(p), q)
        for p, q in ((le(z, a), le(z, b)), (le(a, z), le(b, z))):
            self._assert(imp(X.and_(p, q), le(z, v)))
        for p, q in ((le(z, a), le(b, z)), (le(a, z), le(z, b))):
            self._assert(imp(X.and_(p, q), le(v, z)))
        self._assert(X.eq(X.eq(v, z), X.or_(X.eq(a, z), X.eq(b, z))))
        unit = X.and_(le(z, a), le(a, one))
        self._assert(imp(X.and_(unit, le(z, b)), le(v, b)))
        self._assert(imp(X.and_(unit, le(b, z)), le(b, v)))
        self._assert(imp(X.eq(a, one), X.eq(v, b)))
        self.model = None
        return v

    def fn_inputs(self, n):
        """Inputs the value of the fn variable n depends on."""
        for d in self.fn_terms.values():
            for e, v in d.values():
                if v.name == n:
                    out = []
                    for k in X.variables(e):
                        out.extend(self.fn_inputs(k) if k.startswith('fn') else [k])
                    return out
        for m, v in self.fn_monos.items():
            if v.name == n:
                return [k2 for i in m for k in X.variables(self.atoms[i]) for k2 in (self.fn_inputs(k) if k.startswith('fn') else [k])]
        return []

    def fn_true(self, e, mod):
        """Value of e for the inputs mod, with the true values of log and exp (None when undefined)."""
        mod = dict(mod)
        for n in X.variables(e):
            if n.startswith('fn') and n not in mod:
                for name, d in self.fn_terms.items():
                    for a, v in d.values():
                        if v.name == n:
                            t = self.fn_true(a, mod)
                            try:
                                mod[n] = None if t is None else Fraction({'log': math.log, 'exp': math.exp, 'sqrt': math.sqrt}[name](t))
                            except (ValueError, OverflowError):
                                return None
                for m, v in self.fn_monos.items():
                    if v.name == n:
                        mod[n] = self.fn_product(m, mod)
        return X.evaluate(e, mod)

    def fn_product(self, m, mod):
        r = Fraction(1)
        for i in m:
            t = self.fn_true(self.atoms[i], mod)
            if t is None:
                return None
            r = r * t
        return r

    def mul(self, a, b):
        """Product of two terms of which one contains an uninterpreted value (None: use the ordinary product)."""
        if not self.fn_terms or a.op == 'const' or b.op == 'const':
            return None
        if not self.tainted(a) and not self.tainted(b):
            return None
        p, q = self.poly(X.to_real(a)), self.poly(X.to_real(b))
        if len(p) * len(q) > 400:
            return None
        r = X.const(0, 'R')
        for m, c in sorted(self.pmul(p, q).items()):
            t = X.const(c, 'R') if m == () else X.mul(X.const(c, 'R'), self.monomial(m))
            r = X.add(r, t)
        return r

    def fn_log(self, x):
        if not (x > 0):
            return float('-inf') if not (x < 0) else float('nan')
        one = X.const(1, 'R')

        def ax(e, v):
            yield X.le(v, X.sub(e, one))
            for p in (Fraction(1, 4), Fraction(1, 2), Fraction(2)):
                lo, hi = math.log(p) - 1e-9, math.log(p) + 1e-9
                yield X.le(v, X.add(X.const(Fraction(hi) - 1, 'R'), X.mul(e, X.const(1 / p, 'R'))))
                yield X.or_(X.lt(e, X.const(p, 'R')), X.le(X.const(Fraction(lo), 'R'), v))
                yield X.or_(X.lt(X.const(p, 'R'), e), X.le(v, X.const(Fraction(hi), 'R')))
            yield X.eq(X.lt(one, e), X.lt(X.const(0, 'R'), v))
            yield X.eq(X.eq(one, e), X.eq(X.const(0, 'R'), v))
        return self._fn('log', x, ax)

    def fn_exp(self, x):
        one = X.const(1, 'R')

        def ax(e, v):
            yield X.lt(X.const(0, 'R'), v)
            yield X.le(X.add(e, one), v)
            yield X.eq(X.lt(X.const(0, 'R'), e), X.lt(one, v))
            yield X.eq(X.eq(X.const(0, 'R'), e), X.eq(one, v))
        return self._fn('exp', x, ax)

    def fn_sqrt(self, x):
        if x < 0:
            return float('nan')

        def ax(e, v):
            yield X.le(X.const(0, 'R'), v)
            yield X.eq(X.mul(v, v), e)
        return self._fn('sqrt', x, ax)

    # ---------- assertions
    def check(self, cond, label, **info):
        self.nchecks += 1
        e = lift_bool(cond)
        if e is X.TRUE:
            self.ex.trivial += 1
            return
        if e is X.FALSE:
            r, m = 'sat', None
        else:
            k = None
            if self.model is not None:
                k = X.evaluate(e, self.model)
            r, m = self.solver.check(X.not_(e))
            self.ex.record_query(self, e, r)
        if r == 'unsat':
            self.ex.discharged += 1
            return
        if r == 'unknown':
            self.ex.inconclusive += 1
            self.ex.note('assertion %s undecided' % label)
            return
        if self.ex.counterexample(self, X.not_(e), label, m, info):
            raise PathAbort('violation')
        # not reproduced: continue on the side where the assertion holds
        if e is X.FALSE:
            raise PathAbort('assertion')
        self.assume(mkbool(e))

    def observe(self, name, v):
        self.obs.append((name, v))


def random_runs(case, env, n, label):
    """The number of n concrete runs on random values and draws that reach the label."""
    import random as _random
    rnd = _random.Random(1)
    hits = 0
    for _ in range(n):
        ctx = ConCtx({})

        def get(name, default, lo=None, hi=None):
            k = _re.sub('[^A-Za-z0-9_]', '_', name)
            if k not in ctx.values:
                ctx.values[k] = default if lo is None or hi is None else (rnd.randint(lo, hi) if isinstance(lo, int) and isinstance(hi, int) else rnd.uniform(lo, hi))
            return ctx.values[k]
        ctx.int = lambda name, lo=None, hi=None: lo if lo is not None and lo == hi else int(get(name, lo if lo is not None else (hi if hi is not None else 0), lo, hi))
        ctx.real = lambda name, lo=None, hi=None: float(get(name, lo if lo is not None else (hi if hi is not None else 0.0), lo, hi))
        ctx.bool = lambda name: bool(get(name, 0, 0, 1))
        try:
            env(ctx)
            with TimeLimit(REPLAY_LIMIT):
                case.fn(ctx)
        except (PathAbort, Hang, Exception):
            pass
        finally:
            ctx.unpatch()
        hits += label in ctx.covers
    return hits


class ConCtx(BaseCtx):
    """The same harness on concrete values against the unmodified modules (replay and validation)."""
    symbolic = False

    def __init__(self, values):
        BaseCtx.__init__(self)
        self.values = values
        self.failures = []
        self.used = {}

    def _get(self, name, default):
        name = _re.sub('[^A-Za-z0-9_]', '_', name)
        v = self.values.get(name, default)
        self.used[name] = v
        return v

    def int(self, name, lo=None, hi=None):
        if lo is not None and lo == hi:
            return lo
        return int(self._get(name, lo if lo is not None else (hi if hi is not None else 0)))

    def real(self, name, lo=None, hi=None):
        return float(self._get(name, lo if lo is not None else (hi if hi is not None else 0.0)))

    def bool(self, name):
        return bool(self._get(name, False))

    def arr(self, x):
        return np.array(x)

    const_arr = arr

    def assume(self, c):
        if not c:
            raise PathAbort('assumption fails in replay')

    def check(self, cond, label, **info):
        self.nchecks += 1
        if not bool(cond):
            self.failures.append((label, {k: repr(v)[:300] for k, v in info.items()}))

    def observe(self, name, v):
        self.obs.append((name, v))


# ------------------------------------------------------------------ exploration of one case
def plain_values(model):
    d = {}
    for k, v in model.items():
        if k.startswith('x_'):
            d[k[2:]] = v
    return d


def jsonable(values):
    out = {}
    for k, v in values.items():
        if isinstance(v, bool) or isinstance(v, int):
            out[k] = v
        else:
            out[k] = '%d/%d' % (v.numerator, v.denominator) if isinstance(v, Fraction) else v
    return out


def unjson(values):
    return {k: (float(Fraction(v)) if isinstance(v, str) else v) for k, v in values.items()}


class Explorer(object):
    def __init__(self, case, budget_s, max_paths, validate, env, seed=1, timeout_ms=8000, known=(), store_queries=0):
        self.case = case
        self.budget = budget_s
        self.max_paths = max_paths
        self.validate = validate
        self.env = env  # install(ctx)
        self.t0 = time.time()
        self.solver = Solver(timeout_ms)
        self.work = []
        self.rng = _pyrandom.Random(seed)
        self.known = known
        self.paths = 0
        self.aborted = 0
        self.branches = 0
        self.discharged = 0
        self.trivial = 0
        self.inconclusive = 0
        self.checks = 0
        self.unsupported = 0
        self.incomplete_paths = 0
        self.unknown_branches = 0
        self.validated = 0
        self.validation_skipped = 0
        self.val_paths = 0
        self.conc_sites = {}
        self.notes = {}
        self.covers = set()
        self.violations = []
        self.known_hits = {}
        self.irrepro = []
        self.samples = []
        self.cut = False
        self.functions = set()
        self.stored = []
        self.store_queries = store_queries

    def note(self, s):
        self.notes[s] = self.notes.get(s, 0) + 1

    def push(self, prefix, model):
        self.work.append((prefix, model))

    def out_of_budget(self):
        if time.time() - self.t0 > self.budget:
            self.cut = True
            return True
        return False

    def record_query(self, ctx, e, r):
        if r == 'unsat' and len(self.stored) < self.store_queries:
            self.stored.append(self.solver.script([X.not_(e)]))

    def run(self):
        self.work = [([], None)]
        while self.work:
            if self.out_of_budget() or self.paths >= self.max_paths:
                self.cut = True
                break
            if self.violations:
                break
            prefix, model = self.work.pop()
            self.run_path(prefix, model)
        self.remaining = len(self.work)
        self.solver.close()
        return self

    def run_path(self, prefix, model):
        X.reset()
        del S.REG[:]
        self.solver.begin_path()
        ctx = SymCtx(self, prefix, model)
        CUR[0] = ctx
        exc = None
        try:
            with TimeLimit(PATH_LIMIT, self.solver):
                self.env(ctx)
                self.case.fn(ctx)
        except Hang as h:
            exc = h
            exc_tb = 'Hang: no result after %d s' % PATH_LIMIT
        except PathAbort as a:
            self.aborted += 1
            if ctx.incomplete:
                self.incomplete_paths += 1
            ctx.unpatch()
            CUR[0] = None
            return
        except Exception as ex:  # raised by the code under test or by a gap of the shim
            exc = ex
            exc_tb = traceback.format_exc()
        ctx.unpatch()
        self.unknown_branches += ctx.unknown_branches
        try:
            if exc is not None:
                self.exception_path(ctx, exc, exc_tb)
                return
            self.paths += 1
            self.checks += ctx.nchecks
            if ctx.incomplete:
                self.incomplete_paths += 1
            self.covers |= ctx.covers
            if self.validated < self.validate:
                self.validate_path(ctx)
        except PathAbort:
            self.aborted += 1
        finally:
            CUR[0] = None

    # nice models: real inputs on a dyadic grid, so that float replay is exact
    def nice(self, ctx, den):
        out = []
        for n, s in list(ctx.vars.items()):
            if s == 'R' and n.startswith('x_'):
                k = X.var('k_' + n, 'I')
                out.append(X.eq(X.mul(X.var(n, 'R'), X.const(den, 'R')), X.to_real(k)))
        for fn, true in (('log', lambda t: math.log(t) if t > 0 else None), ('exp', lambda t: math.exp(t) if t < 700 else None)):
            for (e, v) in ctx.fn_terms.get(fn, {}).values():
                vs = X.variables(e)
                grids = [ctx.grid(n, 4 if len(vs) == 3 else 8) for n in vs]
                if any(g is None for g in grids) or len(vs) > 3:
                    alts = []
                    pts = [Fraction(p, 8) for p in range(1, 9)] if fn == 'log' else [Fraction(p, 2) for p in range(-8, 5)]
                    for p in pts:
                        t = true(p)
                        if t is not None:
                            alts.append(X.and_(X.eq(e, X.const(p, 'R')), X.eq(v, X.const(Fraction(t), 'R'))))
                    out.append(X.or_(*alts))
                    continue
                alts = []
                for pt in itertools.product(*grids):
                    m = dict(zip(vs, pt))
                    a = X.evaluate(e, m)
                    t = None if a is None else true(a)
                    if t is None:
                        continue
                    alts.append(X.and_(*([X.eq(X.var(n, ctx.vars[n]), X.const(g, ctx.vars[n])) for n, g in m.items()] + [X.eq(v, X.const(Fraction(t), 'R'))])))
                out.append(X.or_(*alts))
        for m, v in ctx.fn_monos.items():
            # the value of a product on the grid of the inputs it depends on
            t = None
            deps = []
            for i in m:
                for n in X.variables(ctx.atoms[i]):
                    for n2 in (ctx.fn_inputs(n) if n.startswith('fn') else [n]):
                        if n2 not in deps:
                            deps.append(n2)
            grids = [ctx.grid(n, 4 if len(deps) == 3 else 8) for n in deps]
            if not deps or len(deps) > 3 or any(g is None for g in grids):
                e = X.to_real(ctx.atoms[m[0]])
                for i in m[1:]:
                    e = X.mul(e, X.to_real(ctx.atoms[i]))
                out.append(X.eq(v, e))
                continue
            alts = []
            for pt in itertools.product(*grids):
                mod = dict(zip(deps, pt))
                t = ctx.fn_product(m, mod)
                if t is not None:
                    alts.append(X.and_(*([X.eq(X.var(n, ctx.vars[n]), X.const(g, ctx.vars[n])) for n, g in mod.items()] + [X.eq(v, X.const(t, 'R'))])))
            out.append(X.or_(*alts))
        return out

    def replay(self, model, want_funcs=False):
        """Run the case concretely on the unmodified modules."""
        saved = CUR[0]
        CUR[0] = None
        vals = {k: (float(v) if isinstance(v, Fraction) else v) for k, v in plain_values(model).items()}
        r = run_concrete(self.case, vals, self.env, self.functions if want_funcs else None)
        CUR[0] = saved
        return r

    def models_for(self, ctx, extra):
        """Candidate assignments, most replayable first."""
        old = self.solver.timeout_ms
        for den in (1, 8, 64):
            r, m = self.solver.check(*(list(extra) + self.nice(ctx, den)), full=False)
            if r == 'sat' and m is not None:
                yield m
        r, m = self.solver.check(*extra)
        if r == 'sat' and m is not None:
            yield m

    def counterexample(self, ctx, neg, label, m, info):
        """True when the violation reproduces on the unmodified code."""
        ctx_patches = ctx.patches
        for mod in self.models_for(ctx, [neg] if neg is not X.TRUE else []):
            self.pause(ctx)
            try:
                r = self.replay(mod)
            finally:
                self.resume(ctx)
            if r['status'] == 'fail':
                self.report(r, mod)
                return True
        self.irrepro.append((label, jsonable(plain_values(m or {})), {k: repr(v)[:200] for k, v in info.items()}))
        return False

    def report(self, r, mod):
        v = {'case': self.case.name, 'label': r['failures'][0][0], 'detail': r['failures'], 'values': jsonable(plain_values(mod))}
        self.violations.append(v)

    def pause(self, ctx):
        self._p = ctx.patches
        self._cwd = os.getcwd()
        for obj, attr, had, old in reversed(ctx.patches):
            cur = getattr(obj, attr, None)
            ctx._resume = getattr(ctx, '_resume', [])
            ctx._resume.append((obj, attr, cur))
            if had:
                setattr(obj, attr, old)
            else:
                delattr(obj, attr)

    def resume(self, ctx):
        for obj, attr, cur in reversed(getattr(ctx, '_resume', [])):
            setattr(obj, attr, cur)
        ctx._resume = []

    def exception_path(self, ctx, exc, tb):
        label = 'exception %s' % type(exc).__name__
        reproduced = False
        tried = 0
        for mod in self.models_for(ctx, []):
            tried += 1
            r = self.replay(mod)
            if r['status'] == 'fail':
                self.report(r, mod)
                return
            if isinstance(exc, Hang):
                break
        self.unsupported += 1
        self.incomplete_paths += 1
        last = tb.strip().split('\n')
        site = [l.strip() for l in last if l.strip().startswith('File')]
        self.note('path not encodable symbolically (replayed concretely, passes): %s at %s' % (last[-1][:160], site[-1] if site else '?'))

    def validate_path(self, ctx):
        """One concrete input of this path through the unmodified code: the observations must agree."""
        cand = None
        r, m = self.solver.check(*self.nice(ctx, 8), full=False)
        if r == 'sat' and m is not None:
            cand = m
        else:
            self.validation_skipped += 1
            return
        r = self.replay(cand, want_funcs=self.validated < 4)
        if r['status'] == 'fail':
            self.report(r, cand)
            return
        if r['status'] == 'skip':
            self.validation_skipped += 1
            return
        mism = []
        for (n1, v1), (n2, v2) in zip(ctx.obs, r['obs']):
            if n1 != n2 or not _agree(v1, v2, cand):
                mism.append('%s: symbolic %s, concrete %r' % (n1, _show(v1, cand), v2))
        if len(ctx.obs) != len(r['obs']):
            mism.append('number of observations differs')
        if mism:
            self.note('observation mismatch between encoding and real code: ' + mism[0][:300])
            self.incomplete_paths += 1
        self.validated += 1
        if len(self.samples) < 3:
            self.samples.append({'case': self.case.name, 'inputs': jsonable(plain_values(cand)), 'observed': [(n, repr(v)[:120]) for n, v in r['obs']][:6]})


def _val(v, model):
    if isinstance(v, (SymNum, SymBool)):
        return X.evaluate(v.e, model)
    return v


def _show(v, model):
    if isinstance(v, np.ndarray):
        v = v.tolist()
    if isinstance(v, (list, tuple)):
        return [_show(x, model) for x in v]
    return _val(v, model)


def _agree(a, b, model):
    if isinstance(a, np.ndarray):
        a = a.tolist()
    if isinstance(b, np.ndarray):
        b = b.tolist()
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))) or len(a) != len(b):
            return False
        return all(_agree(x, y, model) for x, y in zip(a, b))
    a = _val(a, model)
    if a is None:
        return True
    try:
        fa, fb = float(a), float(b)
        return fa == fb or (fa != fa and fb != fb) or abs(fa - fb) <= 1e-6 * max(1.0, abs(fa))
    except (TypeError, ValueError):
        return a == b or str(a) == str(b)


def run_concrete(case, vals, env, funcs=None):
    ctx = ConCtx(vals)
    root = os.environ.get('SX_REPO', '/repo') + '/alipy'
    prof = None
    if funcs is not None:
        def prof(frame, ev, arg):
            if ev == 'call':
                c = frame.f_code
                if c.co_filename.startswith(root):
                    funcs.add('%s:%s' % (os.path.relpath(c.co_filename, os.path.dirname(root)), c.co_name))
    try:
        env(ctx)
        if prof:
            sys.setprofile(prof)
        try:
            with TimeLimit(REPLAY_LIMIT):
                case.fn(ctx)
        finally:
            if prof:
                sys.setprofile(None)
    except Hang:
        ctx.failures.append(('does not terminate', {'error': 'no result after %d s' % REPLAY_LIMIT}))
        return {'status': 'fail', 'failures': ctx.failures, 'obs': ctx.obs}
    except PathAbort:
        if ctx.failures:
            return {'status': 'fail', 'failures': ctx.failures, 'obs': ctx.obs}
        return {'status': 'skip', 'failures': [], 'obs': []}
    except Exception as ex:
        tb = traceback.format_exc().strip().split('\n')
        site = [l.strip() for l in tb if l.strip().startswith('File') and '/alipy/' in l]
        ctx.failures.append(('unexpected exception %s' % type(ex).__name__, {'error': str(ex)[:300], 'site': site[-1] if site else tb[-3:][0]}))
        return {'status': 'fail', 'failures': ctx.failures, 'obs': ctx.obs, 'exc': True, 'in_repo': bool(site)}
    finally:
        ctx.unpatch()
    if ctx.failures:
        return {'status': 'fail', 'failures': ctx.failures, 'obs': ctx.obs}
    return {'status': 'ok', 'failures': [], 'obs': ctx.obs}
