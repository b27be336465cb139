"""Hash-consed SMT expression DAG with constant folding (sorts: 'B' Bool, 'I' Int, 'R' Real)."""
from fractions import Fraction


class E(object):
    __slots__ = ('op', 'args', 'sort', 'id', 'val', 'name')

    def __init__(self, op, args, sort, id_, val=None, name=None):
        self.op = op
        self.args = args
        self.sort = sort
        self.id = id_
        self.val = val
        self.name = name


_table = {}
_count = [0]


def reset():
    _table.clear()
    _count[0] = 0
    _table[('c', 'B', True)] = TRUE
    _table[('c', 'B', False)] = FALSE


def _mk(key, op, args, sort, val=None, name=None):
    e = _table.get(key)
    if e is None:
        _count[0] += 1
        e = E(op, args, sort, _count[0], val, name)
        _table[key] = e
    return e


TRUE = E('const', (), 'B', -1, True)
FALSE = E('const', (), 'B', -2, False)
_table[('c', 'B', True)] = TRUE
_table[('c', 'B', False)] = FALSE


def const(v, sort):
    if sort == 'B':
        return TRUE if v else FALSE
    if sort == 'I':
        v = int(v)
    else:
        v = Fraction(v)
    return _mk(('c', sort, v), 'const', (), sort, val=v)


def var(name, sort):
    return _mk(('v', name), 'var', (), sort, name=name)


def to_real(a):
    if a.sort == 'R':
        return a
    if a.op == 'const':
        return const(Fraction(a.val), 'R')
    return _mk(('to_real', a.id), 'to_real', (a,), 'R')


def to_int(a):  # floor
    if a.sort == 'I':
        return a
    if a.op == 'const':
        return const(a.val.numerator // a.val.denominator, 'I')
    if a.op == 'to_real':
        return a.args[0]
    return _mk(('to_int', a.id), 'to_int', (a,), 'I')


def _coerce(a, b):
    if a.sort != b.sort:
        return to_real(a), to_real(b)
    return a, b


def add(a, b):
    a, b = _coerce(a, b)
    if a.op == 'const':
        if b.op == 'const':
            return const(a.val + b.val, a.sort)
        if a.val == 0:
            return b
    if b.op == 'const' and b.val == 0:
        return a
    if a.id > b.id:
        a, b = b, a
    return _mk(('+', a.id, b.id), '+', (a, b), a.sort)


def neg(a):
    if a.op == 'const':
        return const(-a.val, a.sort)
    if a.op == 'neg':
        return a.args[0]
    return _mk(('neg', a.id), 'neg', (a,), a.sort)


def sub(a, b):
    a, b = _coerce(a, b)
    if a is b:
        return const(0, a.sort)
    if b.op == 'const':
        if a.op == 'const':
            return const(a.val - b.val, a.sort)
        if b.val == 0:
            return a
    return _mk(('-', a.id, b.id), '-', (a, b), a.sort)


def mul(a, b):
    a, b = _coerce(a, b)
    for x, y in ((a, b), (b, a)):
        if x.op == 'const':
            if y.op == 'const':
                return const(x.val * y.val, a.sort)
            if x.val == 0:
                return x
            if x.val == 1:
                return y
            if x.val == -1:
                return neg(y)
    if a.id > b.id:
        a, b = b, a
    return _mk(('*', a.id, b.id), '*', (a, b), a.sort)


def div(a, b):
    """Real division; the caller has excluded b == 0."""
    a, b = to_real(a), to_real(b)
    if b.op == 'const':
        return mul(a, const(1 / b.val, 'R'))
    if a is b:
        return const(1, 'R')
    if a.op == 'const' and a.val == 0:
        return a
    return _mk(('/', a.id, b.id), '/', (a, b), 'R')


def idiv(a, b):
    """Python floor division for Int with a constant divisor."""
    if a.op == 'const':
        return const(a.val // b.val, 'I')
    if b.val == 1:
        return a
    if b.val < 0:
        return idiv(neg(a), const(-b.val, 'I'))
    return _mk(('div', a.id, b.id), 'div', (a, b), 'I')


def imod(a, b):
    if a.op == 'const':
        return const(a.val % b.val, 'I')
    return sub(a, mul(idiv(a, b), b))


def lt(a, b):
    a, b = _coerce(a, b)
    if a is b:
        return FALSE
    if a.op == 'const' and b.op == 'const':
        return TRUE if a.val < b.val else FALSE
    return _mk(('<', a.id, b.id), '<', (a, b), 'B')


def le(a, b):
    a, b = _coerce(a, b)
    if a is b:
        return TRUE
    if a.op == 'const' and b.op == 'const':
        return TRUE if a.val <= b.val else FALSE
    return _mk(('<=', a.id, b.id), '<=', (a, b), 'B')


def eq(a, b):
    if a.sort == 'B' or b.sort == 'B':
        if a.sort != b.sort:
            raise TypeError('eq sorts')
        if a is b:
            return TRUE
        if a.op == 'const':
            return b if a.val else not_(b)
        if b.op == 'const':
            return a if b.val else not_(a)
    else:
        a, b = _coerce(a, b)
        if a is b:
            return TRUE
        if a.op == 'const' and b.op == 'const':
            return TRUE if a.val == b.val else FALSE
    if a.id > b.id:
        a, b = b, a
    return _mk(('=', a.id, b.id), '=', (a, b), 'B')


def not_(a):
    if a.op == 'const':
        return FALSE if a.val else TRUE
    if a.op == 'not':
        return a.args[0]
    return _mk(('not', a.id), 'not', (a,), 'B')


def and_(*xs):
    out = []
    seen = set()
    for x in xs:
        for y in (x.args if x.op == 'and' else (x,)):
            if y is FALSE:
                return FALSE
            if y is TRUE or y.id in seen:
                continue
            seen.add(y.id)
            out.append(y)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _mk(('and',) + tuple(y.id for y in out), 'and', tuple(out), 'B')


def or_(*xs):
    out = []
    seen = set()
    for x in xs:
        for y in (x.args if x.op == 'or' else (x,)):
            if y is TRUE:
                return TRUE
            if y is FALSE or y.id in seen:
                continue
            seen.add(y.id)
            out.append(y)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return _mk(('or',) + tuple(y.id for y in out), 'or', tuple(out), 'B')


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a.sort != b.sort:
        a, b = _coerce(a, b)
    if a is b:
        return a
    if a.sort == 'B':
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if b is FALSE:
            return and_(c, a)
    return _mk(('ite', c.id, a.id, b.id), 'ite', (c, a, b), a.sort)


_SMT = {'+': '+', '-': '-', 'neg': '-', '*': '*', '/': '/', 'div': 'div', '<': '<', '<=': '<=', '=': '=',
        'not': 'not', 'and': 'and', 'or': 'or', 'ite': 'ite', 'to_real': 'to_real', 'to_int': 'to_int'}
SORTS = {'B': 'Bool', 'I': 'Int', 'R': 'Real'}


def const_str(e):
    if e.sort == 'B':
        return 'true' if e.val else 'false'
    if e.sort == 'I':
        return str(e.val) if e.val >= 0 else '(- %d)' % -e.val
    n, d = e.val.numerator, e.val.denominator
    s = '%d.0' % abs(n) if d == 1 else '(/ %d.0 %d.0)' % (abs(n), d)
    return s if n >= 0 else '(- %s)' % s


def variables(e):
    """Names of the variables of e, in order of appearance."""
    seen, out, stack = set(), [], [e]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'var':
            out.append(x.name)
        stack.extend(x.args)
    return out


def evaluate(e, model):
    """Value of e under model (var name -> value); None where a variable has no value."""
    memo = {}
    stack = [e]
    while stack:
        x = stack[-1]
        if x.id in memo:
            stack.pop()
            continue
        if x.op == 'const':
            memo[x.id] = x.val
            stack.pop()
            continue
        if x.op == 'var':
            memo[x.id] = model.get(x.name)
            stack.pop()
            continue
        todo = [a for a in x.args if a.id not in memo]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        v = [memo[a.id] for a in x.args]
        op = x.op
        r = None
        if op == 'and':
            r = False if any(t is False for t in v) else (None if any(t is None for t in v) else True)
        elif op == 'or':
            r = True if any(t is True for t in v) else (None if any(t is None for t in v) else False)
        elif op == 'ite':
            r = None if v[0] is None else (v[1] if v[0] else v[2])
        elif any(t is None for t in v):
            r = None
        elif op == '+':
            r = v[0] + v[1]
        elif op == '-':
            r = v[0] - v[1]
        elif op == 'neg':
            r = -v[0]
        elif op == '*':
            r = v[0] * v[1]
        elif op == '/':
            r = None if v[1] == 0 else Fraction(v[0]) / Fraction(v[1])
        elif op == 'div':
            r = v[0] // v[1]
        elif op == '<':
            r = v[0] < v[1]
        elif op == '<=':
            r = v[0] <= v[1]
        elif op == '=':
            r = v[0] == v[1]
        elif op == 'not':
            r = not v[0]
        elif op == 'to_real':
            r = Fraction(v[0])
        elif op == 'to_int':
            r = v[0].numerator // v[0].denominator
        memo[x.id] = r
    return memo[e.id]
