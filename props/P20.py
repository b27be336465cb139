"""P20 The numeric helpers return what they promise."""
import math
import numpy as np
from sx.case import Registry, Th
from sx.engine import And, Or, Not, Implies, Iff, Eq, Close, In, Distinct, Sum, Ite, Max, Min, Abs, Exp
from alipy.utils import misc
from alipy.data_manipulate.datapreprocess import minmax_scale, StandardScale
from alipy.index.index_collections import IndexCollection

R = Registry()


@R.family('extreme', [(1,), (3,), (4,), Th(5,)], covers=('end',), bounds='n values (reals), any number of positions asked for up to n+1')
def extreme(ctx, n):
    v = ctx.reals('v', n, -5, 5)
    k = ctx.index('k', 1, n + 1)
    a = list(v) if ctx.flag('list') else ctx.arr(v)
    big = ctx.flag('largest')
    s = [int(i) for i in (misc.nlargestarg if big else misc.nsmallestarg)(a, k)]
    ctx.check(len(s) == min(n, int(k)) and len(set(s)) == len(s) and set(s) <= set(range(n)), 'the requested number of distinct positions (or all there are) is returned', got=s)
    for i in s:
        for j in range(n):
            if j not in s:
                ctx.check(v[i] >= v[j] if big else v[i] <= v[j], 'no value left out is more extreme than a returned one', got=s)
    for i, j in zip(s, s[1:]):
        ctx.check(v[i] <= v[j], 'the positions come in ascending order of value', got=s)
    ctx.check(ctx.raises(AssertionError, misc.nlargestarg, a, 0) and ctx.raises(AssertionError, misc.nsmallestarg, a, 0), 'asking for none is refused')
    ctx.cover('end')


@R.family('permutation', [(0,), (1,), (3,), Th(4,)], covers=('end',), bounds='all ranges of n+1 numbers from -1, 0 or 2, all draws, any number of elements')
def permutation(ctx, n):
    start = ctx.choice('start', [0, 2, -1, None])
    lo = start or 0
    arg = (start, lo + n) if ctx.flag('tuple') or lo else n
    if not isinstance(arg, tuple) and ctx.flag('numpy'):
        arg = np.int64(n)
    k = ctx.choice('k', [None] + list(range(n + 3)))
    if k is not None and k > n + 1:
        ctx.check(ctx.raises(ValueError, misc.randperm, arg, k), 'more elements than there are in the range are refused')
    else:
        s = [int(v) for v in misc.randperm(arg, k)]
        ctx.check(len(s) == (n + 1 if k is None else k), 'as many elements as asked for (all by default) are returned', got=s)
        ctx.check(len(set(s)) == len(s) and set(s) <= set(range(lo, lo + n + 1)), 'distinct elements of the range, bounds included', got=s)
    ctx.check(ctx.raises(TypeError, misc.randperm, 1.5) and ctx.raises(TypeError, misc.randperm, 3, 1.0), 'numbers that are not integers are refused')
    ctx.cover('end')


@R.case('permutation_reaches_all', must=('012', '021', '102', '120', '201', '210'), bounds='3 elements')
def permutation_reaches_all(ctx):
    ctx.cover(''.join(str(int(v)) for v in misc.randperm(2)))


@R.case('part_reaches_all', must=('01', '02', '10', '12', '20', '21'), bounds='2 of 3 elements')
def part_reaches_all(ctx):
    ctx.cover(''.join(str(int(v)) for v in misc.randperm(2, 2)))


FORMS = ['none', 'scalar', 'list', 'array', 'collection', 'string']


def make(ctx, name):
    """(object, its number of elements or None)"""
    k = ctx.choice(name, FORMS)
    if k == 'none':
        return None, None
    if k in ('scalar', 'string'):
        return (7 if k == 'scalar' else 'abc'), 1
    n = ctx.index(name + ' size', 0, 3)
    xs = list(range(n))
    return (xs if k == 'list' else np.array(xs) if k == 'array' else IndexCollection(xs)), n


@R.family('correspondence', [(2,), (3,)], covers=('yes', 'no'), bounds='k arguments of any form and up to 3 elements')
def correspondence(ctx, k):
    args = [make(ctx, 'a%d' % i) if i < 2 else ctx.choice('last', [(None, None), ([1], 1), ([1, 2], 2)]) for i in range(k)]
    lens = set(n for _, n in args if n is not None)
    r = misc.check_one_to_one_correspondence(*[a for a, _ in args])
    ctx.check(bool(r) == (len(lens) <= 1), 'exactly the arguments of equal length correspond (None fits all, a single object counts as one)', got=r, lens=str(lens))
    ctx.cover('yes' if r else 'no')


@R.case('unpacking', covers=('end',), bounds='2 arguments of any form')
def unpacking(ctx):
    x = ctx.real('x')
    forms = [7, None, 'abc', [], [x], [x, 1], (x,)]
    a, b = ctx.choice('a', forms), ctx.choice('b', forms)
    r = misc.unpack(a, b)
    ctx.check(isinstance(r, tuple) and len(r) == 2, 'every argument is returned')
    for g, w in zip(r, (a, b)):
        if isinstance(w, list) and len(w) == 1:
            ctx.check(Eq(g, x), 'a list with one element is replaced by it')
        else:
            ctx.check(g is w, 'anything else is returned itself')
    v = misc.unpack(ctx.arr([x]))[0]
    ctx.check(Eq(v, x), 'an array with one element is replaced by it')
    ctx.cover('end')


@R.family('kernel', [(2, 1), (2, 2), (3, 1), Th(3, 2)], covers=('end',), bounds='n instances of d features (reals), any width of the kernel')
def kernel(ctx, n, d):
    X = [ctx.reals('x%d' % i, d, -3, 3) for i in range(n)]
    s = ctx.choice('sigma', [1.0, 0.5, 2.0])
    if ctx.flag('array'):
        K = misc.get_gaussian_kernel_mat(ctx.arr(X), sigma=s)
    else:
        K = misc.get_gaussian_kernel_mat([list(r) for r in X], sigma=s, check_arr=ctx.flag('check'))
    ctx.check(np.shape(K) == (n, n), 'the matrix has a row and a column for every instance')
    for i in range(n):
        for j in range(n):
            d2 = Sum([(a - b) * (a - b) for a, b in zip(X[i], X[j])])
            ctx.check(Close(K[i, j], Exp(-d2 / (2 * s * s))), 'the Gaussian kernel of two instances is exp(-distance^2 / (2 sigma^2))')
    ctx.cover('end')


@R.case('named_kernels', covers=('end',), bounds='4 kernels, 2 parameter sets')
def named_kernels(ctx):
    X = np.array([[1.0, 2.0], [0.5, -1.0], [3.0, 0.0]])
    k = ctx.choice('kernel', ['linear', 'poly', 'rbf', 'callable', 'other'])
    kw = ctx.choice('parameters', [{}, {'gamma': 0.5, 'degree': 2, 'coef0': 3}])
    f = lambda X, Y: np.array([[float(i + 10 * j) for j in range(len(Y))] for i in range(len(X))])
    if k == 'other':
        ctx.check(ctx.raises(NotImplementedError, misc.calc_kernel_matrix, X, 'sigmoid'), 'an unknown kernel is refused')
    else:
        K = misc.calc_kernel_matrix(X, f if k == 'callable' else k, **dict(kw))
        g, dg, c = kw.get('gamma', 1.0), kw.get('degree', 3), kw.get('coef0', 1)
        dot = lambda a, b: sum(p * q for p, q in zip(a, b))
        for i in range(3):
            for j in range(3):
                w = {'linear': dot(X[i], X[j]), 'poly': (g * dot(X[i], X[j]) + c) ** dg, 'rbf': math.exp(-g * sum((p - q) ** 2 for p, q in zip(X[i], X[j]))), 'callable': i + 10.0 * j}[k]
                ctx.check(abs(float(K[i, j]) - w) < 1e-6 * max(1, abs(w)), 'the kernel matrix holds the chosen kernel of every pair of instances', got=(i, j))
    ctx.cover('end')


@R.family('minmax', [(1, 2), (2, 1), (3, 1), (2, 2), Th(4, 1), Th(3, 2)], covers=('end',), bounds='n instances of d features (reals), all ranges')
def minmax(ctx, n, d):
    X = [ctx.reals('x%d' % i, d, -5, 5) for i in range(n)]
    a, b = ctx.choice('range', [(0, 1), (-1, 1), (2, 5), (0.5, 0.75), (1, 1), (1, 0)])
    src = ctx.arr(X)
    if a >= b:
        ctx.check(ctx.raises(ValueError, minmax_scale, src, (a, b)), 'an empty range is refused')
        ctx.cover('end')
        return
    S = minmax_scale([list(r) for r in X] if ctx.flag('list') else src, feature_range=(a, b)) if (a, b) != (0, 1) else minmax_scale(src)
    ctx.check(np.shape(S) == (n, d), 'the shape is kept')
    for j in range(d):
        col = [X[i][j] for i in range(n)]
        lo, hi = Min(col), Max(col)
        for i in range(n):
            # S = a + (x - lo) / (hi - lo) * (b - a)
            ctx.check(Close((S[i, j] - a) * Ite(hi - lo == 0, 1, hi - lo), (col[i] - lo) * (b - a)), 'every feature is mapped linearly from its own range to the given one')
            ctx.check(And(S[i, j] >= a - 1e-9, S[i, j] <= b + 1e-9), 'no value leaves the range')
    ctx.check(Eq(src.tolist(), [list(r) for r in X]), 'the data is not changed')
    ctx.cover('end')


@R.family('standard', [(1, 2), (2, 1), Th(2, 2)], covers=('end', 'constant'), budget=90, bounds='n instances of d features (reals)')
def standard(ctx, n, d):
    X = [ctx.reals('x%d' % i, d, -5, 5) for i in range(n)]
    src = ctx.arr(X)
    S = StandardScale([list(r) for r in X] if n == 1 and ctx.flag('list') else src)
    ctx.check(np.shape(S) == (n, d), 'the shape is kept')
    for j in range(d):
        col, out = [X[i][j] for i in range(n)], [S[i, j] for i in range(n)]
        ctx.check(Close(Sum(out), 0), 'every feature has mean zero')
        m = Sum(col) / n
        v = Sum([(x - m) * (x - m) for x in col]) / n
        if bool(Eq(v, 0)):
            ctx.cover('constant')
            ctx.check(And([Close(o, 0) for o in out]), 'a constant feature becomes zero')
        elif bool(v > 1e-3):
            ctx.check(Close(Sum([o * o for o in out]), n), 'every other feature has variance one')
            for i in range(n):
                ctx.check(Iff(col[i] > m, out[i] > 0), 'the order is kept')
    ctx.check(Eq(src.tolist(), [list(r) for r in X]), 'the data is not changed')
    ctx.cover('end')
