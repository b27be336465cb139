"""P23 The experiment analyser reports and plots exactly the recorded performances."""
import os
import pickle
import shutil
import tempfile
import warnings
import numpy as np
from sx.case import Registry, Th
from sx.engine import And, Or, Not, Implies, Iff, Eq, Close, In, Distinct, Sum, Ite, Max, Min, is_sym
from alipy.experiment import experiment_analyser as E
from alipy.experiment.experiment_analyser import ExperimentAnalyser, StateIOContainer, _ContentSummary
from alipy.experiment.state import State
from alipy.experiment.state_io import StateIO

R = Registry()


class Plt(object):
    """Records what is plotted."""
    def __init__(self):
        self.lines, self.areas = [], []

    def plot(self, x, y, *a, **kw):
        self.lines.append((kw.get('label'), items(x), items(y)))

    def fill_between(self, x, lo, hi, *a, **kw):
        self.areas.append((items(x), items(lo), items(hi)))

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **kw: None


def items(v):
    return list(v.tolist() if hasattr(v, 'tolist') else v)


def stateio(ctx, perf, ip=None, batch=1, costs=None, rnd=0):
    io = StateIO(rnd, [0, 1, 2, 3, 4, 5, 6, 7, 8, 9], [10], [0], [1, 2, 3, 4, 5, 6, 7, 8, 9], initial_point=ip, verbose=False)
    for k, p in enumerate(perf):
        io.add_state(State([1 + batch * k + b for b in range(batch)], performance=p, cost=None if costs is None else costs[k]))
    return io


def perfs(ctx, name, n):
    return [ctx.real('%s%d' % (name, k), 0, 1) for k in range(n)]


def mean(vs):
    return Sum(vs) / len(vs)


def var(vs):
    return Sum([v * v for v in vs]) / len(vs) - mean(vs) * mean(vs)


def is_std(ctx, s, vs, what, **kw):
    ctx.check(And([s >= 0, (Eq if is_sym(s) else Close)(s * s, var(vs))]), what, **kw)


SHAPES = {'single': [1, 1], 'even': [2, 2], 'ragged': [3, 2], 'long': [3, 3], 'one': [3], 'three': [2, 1, 2]}


def method(ctx, name, shape, kinds=('list', 'array', 'stateio', 'stateio+ip', 'container', 'container+ip')):
    """(kind, results as given, expected points of every fold, initial points)."""
    lens = SHAPES[shape]
    kind = ctx.choice('kind_' + name, [k for k in kinds if not (k == 'array' and len(set(lens)) > 1)])
    P = [perfs(ctx, '%s%d_' % (name, f), n) for f, n in enumerate(lens)]
    ips = [ctx.real('%sip%d' % (name, f), 0, 1) for f in range(len(lens))] if '+ip' in kind else None
    if kind == 'list':
        res = [list(p) for p in P]
    elif kind == 'array':
        res = ctx.arr(P)
    else:
        res = [stateio(ctx, p, None if ips is None else ips[f], rnd=f) for f, p in enumerate(P)]
        if 'container' in kind:
            res = StateIOContainer(name, res)
    return kind, res, [([ips[f]] if ips else []) + p for f, p in enumerate(P)], ips


def folds(pts):
    n = min(len(p) for p in pts)
    return [[p[k] for p in pts] for k in range(n)]


@R.family('curve', ['even', 'ragged', 'three', 'single', Th('long')], budget=90, covers=('end', 'area', 'start'), bounds='folds of the lengths of the shape, arbitrary performances, every container, plot interval 1 or 2')
def curve(ctx, shape):
    kind, res, pts, ips = method(ctx, 'a', shape)
    plt = Plt()
    ctx.patch(E, 'plt', plt)
    an = ExperimentAnalyser()
    an.add_method('a', res)
    kw = {}
    opt = ctx.choice('options', ['plain', 'interval', 'shift', 'start', 'start+interval'])
    if 'interval' in opt:
        kw['plot_interval'] = 2
    if opt == 'shift':
        kw['x_shift'] = 3
    if 'start' in opt:
        sp = kw['start_point'] = ctx.real('start', 0, 1)
    area = ctx.flag('area')
    ctx.check(sorted(an.get_methods_names()) == ['a'], 'the names of the methods are known')
    got = an.get_extracted_data('a')
    ctx.check(len(got) == len(pts) and all(len(g) == len(p) for g, p in zip(got, pts)) and And([Eq(g[k], p[k]) for g, p in zip(got, pts) for k in range(len(p))]), 'the data of a method is what was recorded')
    ret = an.plot_learning_curves(std_area=area, show=False, saving_path=None, **kw)
    ctx.check(ret is plt, 'the plot is returned')
    step = kw.get('plot_interval', 1)
    by = folds(pts)
    shift = kw.get('x_shift', 0 if ips else 1) if 'start' not in opt else 1
    xs = [k + shift for k in range(0, len(by), step)]
    ys = [mean(by[k]) for k in range(0, len(by), step)]
    if 'start' in opt:
        xs, ys = [0] + xs, [sp] + ys
        ctx.cover('start')
    ctx.check(len(plt.lines) == 1 and plt.lines[0][0] == 'a' and [float(x) for x in plt.lines[0][1]] == [float(x) for x in xs], 'the curve has one point for every query (at the given interval)', got=str(plt.lines[0][1]) if plt.lines else None, want=xs)
    if plt.lines and len(plt.lines[0][2]) == len(ys):
        for a, b in zip(plt.lines[0][2], ys):
            ctx.check(Close(a, b), 'every point is the mean over the folds')
    else:
        ctx.check(False, 'every query has a mean performance')
    if area:
        ctx.cover('area')
        k0 = 1 if 'start' in opt else 0
        ok = len(plt.areas) == 1 and [float(x) for x in plt.areas[0][0]] == [float(x) for x in xs[k0:]]
        ctx.check(ok, 'the area is drawn along the curve', got=str(plt.areas)[:200])
        if ok:
            for k, a, b in zip(range(0, len(by), step), plt.areas[0][1], plt.areas[0][2]):
                ctx.check(Close((a + b) / 2, mean(by[k])), 'the area surrounds the curve')
                is_std(ctx, (b - a) / 2, by[k], 'by the standard deviation over the folds')
    else:
        ctx.check(plt.areas == [], 'no area is drawn unless asked for')
    ctx.cover('end')


@R.family('mixed', [('even', 'ragged'), ('one', 'even')], budget=90, covers=('end',), bounds='two methods of the given shapes, every combination of list and StateIO results in either order')
def mixed(ctx, s1, s2):
    """The curves of several methods do not influence each other."""
    plt = Plt()
    ctx.patch(E, 'plt', plt)
    an = ExperimentAnalyser()
    ms = []
    for name, s in (('a', s1), ('b', s2)):
        m = method(ctx, name, s, kinds=('list', 'stateio', 'stateio+ip', 'container+ip'))
        an.add_method(name, m[1])
        ms.append((name,) + m)
    ctx.check(sorted(an.get_methods_names()) == ['a', 'b'], 'the names of the methods are known')
    an.plot_learning_curves(show=False, saving_path=None)
    ctx.check([q[0] for q in plt.lines] == ['a', 'b'], 'every method has a curve')
    for line, (name, kind, res, pts, ips) in zip(plt.lines, ms):
        by = folds(pts)
        ctx.check([float(x) for x in line[1]] == [float(k + (0 if ips else 1)) for k in range(len(by))], 'a curve starts at 0 with an initial performance, else at 1', got=str(line[1]), method=name)
        ctx.check(len(line[2]) == len(by) and And([Close(a, mean(b)) for a, b in zip(line[2], by)]), 'every point is the mean over the folds', method=name)
    ctx.cover('end')


@R.family('summary', ['even', 'ragged', 'long', 'three'], budget=90, covers=('end',), bounds='folds of the lengths of the shape, arbitrary performances, StateIO or lists')
def summary(ctx, shape):
    lens = SHAPES[shape]
    P = [perfs(ctx, 'p%d_' % f, n) for f, n in enumerate(lens)]
    eff = min(lens)
    kind = ctx.choice('kind', ['stateio', 'stateio+ip', 'list', 'cost list'])
    C = [[2 + ((k + f) % 3) for k in range(n)] for f, n in enumerate(lens)]
    ips = [ctx.real('ip%d' % f, 0, 1) for f in range(len(lens))] if kind == 'stateio+ip' else None
    batch = [1 + ctx.index('batch%d' % f, 0, 1) for f in range(min(2, len(lens)))] + [1] * len(lens)
    if 'stateio' in kind:
        s = _ContentSummary([stateio(ctx, p, None if ips is None else ips[f], costs=C[f], batch=batch[f], rnd=f) for f, p in enumerate(P)], 0)
        means = [mean(([ips[f]] if ips else []) + P[f][:eff]) for f in range(len(lens))]
        ctx.check(s.batch_flag == (len(set(batch[:len(lens)])) == 1) and (not s.batch_flag or s.batch_size == batch[0]), 'a common batch size is reported exactly if there is one', got=str((s.batch_flag, s.batch_size)), batch=str(batch))
    elif kind == 'list':
        s = _ContentSummary([list(p) for p in P], 1)
        means = [mean(p[:eff]) for p in P]
    else:
        s = _ContentSummary([list(zip(c, p)) for c, p in zip(C, P)], 2)
        means = [mean(p) for p in P]
        ctx.check([float(c) for c in s.cost_inall] == [float(sum(c)) for c in C], 'the total cost of every fold is reported')
    ctx.check(s.folds == len(lens) and s.effective_length == eff, 'the number of folds and of common queries are reported', got=(s.folds, s.effective_length))
    ctx.check(Close(s.mean, mean(means)), 'the mean performance is the mean over folds of their mean')
    if kind == 'list':
        is_std(ctx, s.std, [v for p in P for v in p[:eff]], 'the standard deviation is that of the performances')
    else:
        is_std(ctx, s.std, means, 'the standard deviation is that of the mean performance of the folds')
    ctx.cover('end')


class Lin(object):
    """Linear interpolation."""
    def __init__(self, ctx):
        self.ctx = ctx

    def interp1d(self, x, y, **kw):
        x, y = [float(v) for v in items(x)], items(y)
        ctx = self.ctx
        ctx.check(len(x) == len(y) and all(a < b for a, b in zip(x, x[1:])), 'every accumulated cost has a performance', x=str(x))

        def f(q):
            return ctx.arr([lin(x, y, float(v)) for v in items(q)])
        return f


def lin(x, y, q):
    if q < x[0] or q > x[-1]:
        return 99.0
    for k in range(len(x) - 1):
        if q <= x[k + 1]:
            t = (q - x[k]) / (x[k + 1] - x[k])
            return y[k] + (y[k + 1] - y[k]) * t
    return y[-1]


@R.family('cost', ['even', 'ragged', Th('long')], budget=90, covers=('end', 'area', 'start'), bounds='folds of the lengths of the shape, three cost patterns (numbers or lists, steps of 1, 2 or 4), arbitrary performances')
def cost(ctx, shape):
    lens = SHAPES[shape]
    kind = ctx.choice('kind', ['list', 'stateio', 'stateio+ip', 'container+ip'])
    P = [perfs(ctx, 'p%d_' % f, n) for f, n in enumerate(lens)]
    pat = ctx.index('costs', 0, 2)
    C = [[[2, (1, 2, 4)[(k + f) % 3], 1 + 3 * f][pat] for k in range(n)] for f, n in enumerate(lens)]
    given = [[[c - 0.5, 0.5] for c in cs] for cs in C] if ctx.flag('cost lists') else C
    ips = [ctx.real('ip%d' % f, 0, 1) for f in range(len(lens))] if '+ip' in kind else None
    if kind == 'list':
        res = [list(zip(c, p)) for c, p in zip(given, P)]
    else:
        res = [stateio(ctx, p, None if ips is None else ips[f], costs=given[f], rnd=f) for f, p in enumerate(P)]
        if 'container' in kind:
            res = StateIOContainer('a', res)
    plt = Plt()
    ctx.patch(E, 'plt', plt)
    ctx.patch(E, 'interpolate', Lin(ctx))
    an = ExperimentAnalyser(x_axis='cost')
    kw = {}
    opt = ctx.choice('options', ['plain', 'shift', 'start'])
    area = ctx.flag('area')
    other = ctx.choice('other', ['none', 'more', 'less']) if opt == 'plain' and not area else 'none'
    if other != 'none':                   # a method in front, with more or less to spend
        an.add_method('z', [[(sum(c) - 1.5, 0.5), (2 if other == 'more' else 0.5, 0.5)] for c in C])
    an.add_method('a', res)
    if opt == 'shift':
        kw['x_shift'] = 2
    if opt == 'start':
        kw['start_point'] = sp = ctx.real('start', 0, 1)
        ctx.cover('start')
    an.plot_learning_curves(show=False, saving_path=None, std_area=area, plot_interval=1, **kw)
    X, Y = [], []
    for f in range(len(lens)):
        acc = [sum(C[f][:k + 1]) for k in range(lens[f])]
        first = [sp] if opt == 'start' else [ips[f]] if ips else []
        X.append([0] * len(first) + acc)
        Y.append(first + P[f])
    grid, end = [], min(x[-1] for x in X) - (other == 'less')
    q = max(x[0] for x in X)
    while q < end:
        grid.append(q)
        q += 1
    line = [l for l in plt.lines if l[0] == 'a']
    sh = kw.get('x_shift', 0)
    ok = len(line) == 1 and [float(v) for v in line[0][1]] == [float(g + sh) for g in grid]
    ctx.check(ok, 'the curve covers the costs that all folds have', got=str(line[0][1]) if line else None, want=grid)
    if ok:
        for g, v in zip(grid, line[0][2]):
            ctx.check(Close(v, mean([lin(x, y, g) for x, y in zip(X, Y)])), 'every point is the mean over the folds of the performance at that cost', cost=g)
    if area:
        ctx.cover('area')
        ar = plt.areas[-1:]
        ok = len(ar) == 1 and [float(v) for v in ar[0][0]] == [float(g + sh) for g in grid]
        ctx.check(ok, 'the area is drawn along the curve', got=str(ar)[:200])
        if ok:
            for g, a, b in zip(grid, ar[0][1], ar[0][2]):
                vs = [lin(x, y, g) for x, y in zip(X, Y)]
                ctx.check(Close((a + b) / 2, mean(vs)), 'the area surrounds the curve')
                is_std(ctx, (b - a) / 2, vs, 'by the standard deviation over the folds')
    ctx.cover('end')


@R.case('ttest', covers=('end', 'yes', 'no'), bounds='two samples of 3, arbitrary p-value and level')
def ttest(ctx):
    a, b = perfs(ctx, 'a', 3), perfs(ctx, 'b', 3)
    p = ctx.real('p', 0, 1)
    alpha = ctx.real('alpha', 0.01, 0.2)
    seen = []

    def rel(x, y, *args, **kw):
        seen.append((items(x), items(y)))
        return 0.5, p
    import scipy.stats
    ctx.patch(scipy.stats, 'ttest_rel', rel)
    k = ctx.choice('form', ['list', 'row', 'column', 'array'])
    mk = lambda v: list(v) if k == 'list' else ctx.arr([v]) if k == 'row' else ctx.arr([[x] for x in v]) if k == 'column' else ctx.arr(v)
    an = ExperimentAnalyser()
    default = ctx.flag('default')
    h = an.paired_ttest(mk(a), mk(b)) if default else an.paired_ttest(mk(a), mk(b), alpha=alpha)
    ctx.check(len(seen) == 1 and And([Eq(x, y) for x, y in zip(seen[0][0], a)]) and And([Eq(x, y) for x, y in zip(seen[0][1], b)]), 'the samples are compared pair by pair')
    lim = 0.05 if default else alpha
    ctx.check(Iff(p <= lim, Eq(h, 1)), 'the hypothesis is rejected exactly at the given level')
    ctx.check(Or([Eq(h, 0), Eq(h, 1)]), 'the result is 0 or 1')
    ctx.cover('yes' if bool(Eq(h, 1)) else 'no')
    ctx.check(ctx.raises(AssertionError, an.paired_ttest, [1.0, 2.0], [1.0, 2.0, 3.0]), 'samples of different length are refused')
    ctx.cover('end')


@R.case('container', covers=('end',), bounds='2 folds of 2 and 3 states, arbitrary values, objects or files')
def container(ctx):
    P = [perfs(ctx, 'p%d_' % f, n) for f, n in enumerate((2, 3))]
    C = [[ctx.real('c%d_%d' % (f, k), 0, 5) for k in range(len(p))] for f, p in enumerate(P)]
    ip = ctx.choice('ip', [None, 0.25])
    ios = [stateio(ctx, p, ip, costs=C[f], rnd=f) for f, p in enumerate(P)]
    c = StateIOContainer('m', ios[:1])
    c.add_fold(ios[1])
    ios[0].set_initial_point(0.75)
    ios[0].add_state(State([9], performance=0.5, cost=1))
    ctx.check(len(c) == 2 and [len(x) for x in c] == [2, 3] and [len(c[0]), len(c[1])] == [2, 3] and [len(x) for x in c.to_list()] == [2, 3], 'the container holds the folds as they were added')
    m = c.extract_matrix()
    first = [] if ip is None else [ip]
    ctx.check([len(r) for r in m] == [2 + len(first), 3 + len(first)], 'one value for every state (and the initial one) is extracted')
    for f in range(2):
        for k, v in enumerate(first + P[f]):
            ctx.check(Eq(m[f][k], v), 'the values are extracted in order')
    key = ctx.choice('key', ['cost', 'select_index'])
    m = c.extract_matrix(['performance', key])
    ctx.check([len(r) for r in m] == [2, 3], 'a tuple for every state is extracted')
    for f in range(2):
        for k in range(len(P[f])):
            ctx.check(isinstance(m[f][k], tuple) and And([Eq(m[f][k][0], P[f][k]), Eq(m[f][k][1], C[f][k]) if key == 'cost' else list(m[f][k][1]) == [1 + k]]), 'with the values of the keys in order')
    ctx.check(ctx.raises(ValueError, c.extract_matrix, 'other') and ctx.raises(ValueError, c.extract_matrix, ['performance', 'other']) and ctx.raises(TypeError, c.extract_matrix, 3), 'unknown keys are refused')
    ctx.check(ctx.raises(TypeError, c.add_fold, 3), 'something else is no fold')
    d = tempfile.mkdtemp()
    try:
        path = os.path.join(d, 'x.pkl')
        io = stateio(ctx, [0.25, 0.5], 0.125)
        with open(path, 'wb') as fh:
            pickle.dump(io, fh)
        c.add_fold(path)
    finally:
        shutil.rmtree(d)
    ctx.check(len(c) == 3 and c.extract_matrix()[2] == [0.125, 0.25, 0.5], 'a fold can be read from its file')
    ctx.cover('end')


@R.case('refuse', covers=('end', 'warned', 'quiet'), bounds='2 methods of 2 folds of 2 states; nan or inf at any place; batch sizes and lengths the same or not')
def refuse(ctx):
    """What cannot be plotted is refused; methods of different settings are warned about."""
    bad = ctx.choice('bad', [None, float('nan'), float('inf'), -float('inf')])
    at = ctx.index('at', 0, 3) if bad is not None else -1
    P = [[bad if 2 * f + k == at else 0.25 + 0.125 * k for k in range(2)] for f in range(2)]
    an = ExperimentAnalyser()
    plt = Plt()
    ctx.patch(E, 'plt', plt)
    b2 = 1 + ctx.index('batch', 0, 1)
    n2 = 2 + ctx.index('more', 0, 1)
    f2 = 1 + ctx.index('folds', 0, 1)
    an.add_method('a', [stateio(ctx, p, rnd=f) for f, p in enumerate(P)])
    an.add_method('b', [stateio(ctx, [0.5] * n2, batch=b2, rnd=f) for f in range(f2)])
    seen = []
    ctx.patch(warnings, 'warn', lambda *a, **kw: seen.append(a))
    if bad is not None:
        ctx.check(ctx.raises(ValueError, an.plot_learning_curves, show=False, saving_path=None), 'undefined performances are refused')
    else:
        an.plot_learning_curves(show=False, saving_path=None)
        same = b2 == 1 and n2 == 2 and f2 == 2
        ctx.check(any('Settings' in str(a[0]) for a in seen) == (not same), 'different settings (and only those) are warned about', got=str(seen)[:200])
        ctx.cover('quiet' if same else 'warned')
    for x, data in (('num_of_queries', [[(1, 0.5), (2, 0.5)]]), ('cost', [[0.5, 0.5]]), ('num_of_queries', ['a']), ('cost', 'a')):
        e = ExperimentAnalyser(x)
        ctx.check(ctx.raises((ValueError, TypeError), e.add_method, 'm', data), 'results of another kind are refused', kind=x)
    ctx.check(ctx.raises(ValueError, ExperimentAnalyser, 'other'), 'an unknown axis is refused')
    ctx.cover('end')


class AnyPlt(Plt):
    def __init__(self):
        Plt.__init__(self)
        self.calls = []

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **kw: self.calls.append((name, a, kw))

    def of(self, name):
        return [a for n, a, k in self.calls if n == name]


@R.case('figure', covers=('end', 'saved', 'shown'), bounds='both kinds of axis, a title or none, shown or returned, saved to a file, to a directory or not at all')
def figure(ctx):
    """The figure is saved where asked (a scratch directory) and shown or returned as asked."""
    plt = AnyPlt()
    ctx.patch(E, 'plt', plt)
    x = ctx.choice('x', ['num_of_queries', 'cost'])
    p = ctx.real('p', 0, 1)
    an = ExperimentAnalyser(x)
    if x == 'cost':
        class Lin(object):
            def __init__(self, x, y, **kw):
                self.y = y

            def __call__(self, at):
                return ctx.arr([self.y[0]] * len(at))
        ctx.patch(E.interpolate, 'interp1d', Lin)
        an.add_method('a', [[(1, p), (2, 0.5)]])
    else:
        an.add_method('a', [[p, 0.5]])
    title = ctx.choice('title', [None, 'T1'])
    show = ctx.flag('show')
    d = ctx.tmpdir()
    where = ctx.choice('where', [None, 'dir', 'file'])
    path = None if where is None else d if where == 'dir' else os.path.join(d, 'f.png')
    kw = {'plot_interval': 1} if x == 'cost' else {}
    ret = an.plot_learning_curves(title=title, show=show, saving_path=path, **kw)
    ctx.check(ret is None if show else ret is plt, 'the plot is returned if it is not shown')
    ctx.check(len(plt.of('show')) >= 1 if show else plt.of('show') == [], 'it is shown exactly if asked for')
    saved = [os.path.abspath(str(a[0])) for a in plt.of('savefig')]
    if where is None:
        ctx.check(saved == [], 'nothing is saved unless asked for')
    else:
        ctx.check(len(saved) == 1 and (saved[0] == path if where == 'file' else os.path.dirname(saved[0]) == os.path.abspath(d)), 'the figure is saved once, where asked', got=saved)
        names = [c[0] for c in plt.calls]
        if show:
            ctx.check('savefig' not in names or names.index('savefig') < names.index('show'), 'it is saved before it is shown')
        ctx.cover('saved')
    ctx.check([a[0] for a in plt.of('title')] == ([] if title is None else ['T1']), 'the title is the one given')
    ctx.check(len(plt.of('xlabel')) == 1 and len(plt.of('ylabel')) == 1, 'the axes are labeled')
    if show:
        ctx.cover('shown')
    ctx.cover('end')
