"""P19 Cost-sensitive multi-label selection stays within the budget and is the best within it."""
import itertools
import numpy as np
from sx.case import Registry, Th
from sx.engine import And, Or, Not, Implies, Iff, Eq, Close, In, Distinct, Sum, Ite, Max, Min, Abs
from props.qs import data
from alipy.index.index_collections import MultiLabelIndexCollection
from alipy.oracle import Oracle
from alipy.query_strategy import cost_sensitive as Q

R = Registry()
PAIRS = [(i, j) for i in range(4) for j in range(2)]


def subsets(items):
    return itertools.chain.from_iterable(itertools.combinations(items, k) for k in range(len(items) + 1))


@R.family('knapsack', [(2, 3), (3, 3), (4, 3), Th(4, 4), Th(5, 4), Th(4, 6)], budget=90, covers=('end',), validate=15, bounds='n items, capacity up to C, integer costs 1 to 3, arbitrary values')
def knapsack(ctx, n, C):
    cap = ctx.index('capacity', 0, C)
    cost = [ctx.index('c%d' % i, 1, 3) if i < 3 else 2 for i in range(n)]
    v = ctx.reals('v', n, 0, 5)
    mv, sel = Q.select_Knapsack_01(ctx.arr(v) if ctx.flag('array') else list(v), list(cost), float(cap) if n == 2 else cap)
    s = [i for i in range(n) if bool(sel[i] == 1)]
    ctx.check(And([Or(x == 0, x == 1) for x in list(sel)]) if n else True, 'every item is selected or not')
    ctx.check(sum(cost[i] for i in s) <= cap, 'the selection fits into the capacity', selected=s)
    ctx.check(Close(mv, Sum([v[i] for i in s])), 'the value is that of the selected items')
    for t in subsets(range(n)):
        if sum(cost[i] for i in t) <= cap:
            ctx.check(Sum([v[i] for i in t]) <= mv + 1e-7, 'no selection that fits has a larger value', selected=s)
    ctx.check(ctx.raises(AssertionError, Q.select_Knapsack_01, list(v), list(cost) + [1], cap), 'as many costs as values are needed')
    ctx.cover('end')


@R.family('poss', [(2, 0.5), (3, 0.3), Th(2, 0.6), Th(3, 0.4)], budget=90, covers=('end', 'some'), validate=15, bounds='n items, arbitrary costs and (negative) values, all random draws; 2*e*B^2*n rounds')
def poss(ctx, n, B):
    cost = ctx.reals('c', n, 0.05, 1)
    v = ctx.reals('v', n, -5, -0.1)
    mv, sel = Q.select_POSS(ctx.arr(v), ctx.arr(cost), B)
    ctx.check(And([Or(Eq(x, 0), Eq(x, 1)) for x in list(sel)]), 'every item is selected or not')
    s = list(sel)
    ctx.check(Sum([Ite(Eq(x, 1), c, 0.0) for x, c in zip(s, cost)]) <= B + 1e-9, 'the selection is within the budget')
    none = And([Eq(x, 0) for x in s])
    if bool(none):
        ctx.check(mv == float('inf'), 'selecting nothing has no value')
    else:
        ctx.cover('some')
        ctx.check(Close(mv, Sum([Ite(Eq(x, 1), a, 0.0) for x, a in zip(s, v)])), 'the value is that of the selected items')
    ctx.cover('end')


# ------------------------------------------------------------------ hierarchy
TREES = {'chain': {0: [1], 1: [2]}, 'fork': {0: [1, 2]}, 'flat': {}, 'reversed': {2: [1], 1: [0]}}


def tree(t, n=3):
    m = np.zeros((n, n), dtype=int)
    for a, bs in TREES[t].items():
        for b in bs:
            m[a, b] = 1
    return m


def reach(m, j):
    out, todo = [], [j]
    while todo:
        a = todo.pop()
        for b in range(len(m)):
            if m[a][b] == 1 and b not in out:
                out.append(b)
                todo.append(b)
    return out


@R.family('mark', [(1,), (2,), Th(3,)], budget=60, covers=('end', 'implied'), bounds='k selected pairs of 2 instances and 3 labels, 4 hierarchies, all labels -1 or 1')
def mark(ctx, k):
    t = ctx.choice('tree', sorted(TREES))
    m = tree(t)
    pairs = [(i, j) for i in range(2) for j in range(3)]
    y = [[1 if ctx.flag('y%d_%d' % (i, j)) else -1 for j in range(3)] for i in range(1)] + [[1, -1, 1]]
    if k == 1:
        sel = [ctx.choice('s', pairs)]
        known = [(0, 1), (1, 0)]
    else:
        sel = [(0, ctx.index('a', 0, 2)), ctx.choice('b', [(0, 2), (1, 1)])] + [(1, 0)][:k - 2]
        known = [(0, 0), (1, 2)]
    sel = list(dict.fromkeys(sel))
    known = [p for p in known if p not in sel]
    kl = ctx.choice('form', ['tuples', 'collection'])
    mk = lambda ps: list(ps) if kl == 'tuples' else MultiLabelIndexCollection(list(ps), label_size=3)
    got = Q.hierarchical_multilabel_mark(mk(sel), mk(known), m, np.array(y))
    want = set(sel)
    for i, j in sel:
        r = reach(m.T, j) if y[i][j] == 1 else reach(m, j)
        if r:
            ctx.cover('implied')
        want |= set((i, q) for q in r if (i, q) not in known)
    g = [tuple(int(v) for v in p) for p in got]
    ctx.check(len(g) == len(set(g)), 'no pair is marked twice', got=g)
    ctx.check(set(g) == want, 'the ancestors of relevant and the descendants of irrelevant labels are marked, unless known', got=g, want=str(sorted(want)))
    ctx.cover('end')


# ------------------------------------------------------------------ strategies
class Inverse(object):
    """The decision value 1/u."""
    def __init__(self, u):
        self.u = u

    def __rtruediv__(self, a):
        return a * self.u

    def __abs__(self):
        return self


class Dec(object):
    def __init__(self, ctx, u, sign=None):
        self.ctx, self.u, self.sign = ctx, u, sign

    def rows(self, x):
        return [int(np.asarray(r).tolist()[0]) for r in x]

    def decision_function(self, x):
        v = [self.u.get(r, 0.5) for r in self.rows(x)]
        if not self.ctx.symbolic:
            return np.array([1.0 / a for a in v])
        a = np.empty(len(v), dtype=object)
        for k, q in enumerate(v):
            a[k] = Inverse(q)
        return a

    def predict(self, x):
        return np.array([self.sign[r] for r in self.rows(x)])


def as_pairs(ctx, sel):
    s = [tuple(int(v) for v in p) for p in sel]
    ctx.check(len(set(s)) == len(s), 'no pair is selected twice', got=s)
    return s


def forms(ctx, name, ps, n, m):
    k = ctx.choice(name, ['collection', 'tuples', 'codes'])
    if k == 'tuples':
        return list(ps)
    if k == 'codes':
        # (column major)
        return np.array([j * n + i for i, j in ps])
    return MultiLabelIndexCollection(list(ps), label_size=m)


def pricing(ctx, m):
    """(keyword arguments, cost per label)"""
    k = ctx.choice('pricing', ['none', 'cost', 'oracle'])
    if k == 'none':
        return {}, [1] * m
    c = [2, 1, 3][:m]
    if k == 'cost':
        return {'cost': c}, c
    return {'oracle': Oracle(labels=[0] * m, indexes=list(range(m)), cost=c)}, c


UNL = [(1, 0), (3, 1), (2, 0), (3, 0), (1, 1), (2, 1)]


@R.family('performance', [(2,), (3,), (4,), Th(5,)], budget=100, covers=('end',), validate=15, bounds='n unlabeled pairs of 4 instances and 2 labels, arbitrary decision values, budget 1 to 3, costs per label')
def performance(ctx, n):
    X, _ = data(4)
    y = np.array([[1, -1], [-1, 1], [1, 1], [-1, -1]])
    unl = UNL[:n]
    lab = [p for p in PAIRS if p not in unl and p[0] != 0]
    u = dict((p, ctx.real('u%d_%d' % p, 0.1, 5)) for p in unl)
    models = [Dec(ctx, dict((p[0], v) for p, v in u.items() if p[1] == j)) for j in range(2)]
    kw, cost = pricing(ctx, 2)
    budget = ctx.index('budget', 1, 3)
    fu = forms(ctx, 'fu', unl, 4, 2) if n == 2 else MultiLabelIndexCollection(unl, label_size=2)
    st = Q.QueryCostSensitivePerformance(X, y)
    s = as_pairs(ctx, st.select(MultiLabelIndexCollection(lab, label_size=2), fu, budget=budget, models=models, **kw))
    judge(ctx, s, unl, u, cost, budget)
    ctx.cover('end')


def judge(ctx, s, unl, val, cost, budget):
    ctx.check(set(s) <= set(unl), 'only unlabeled pairs are selected', got=s)
    if not set(s) <= set(unl):
        return
    ctx.check(sum(cost[j] for _, j in s) <= budget, 'the selection is within the budget', got=s)
    got = Sum([val[p] for p in s])
    for t in subsets(unl):
        if sum(cost[j] for _, j in t) <= budget:
            ctx.check(Sum([val[p] for p in t]) <= got + 1e-7, 'no selection within the budget is more informative', got=s)


@R.family('halc', [(2, 'flat'), (3, 'flat'), (2, 'chain'), (3, 'chain'), Th(4, 'flat'), Th(3, 'fork')], budget=100, covers=('end',), validate=15,
          bounds='n unlabeled pairs of 4 instances and 2 labels (3 in a hierarchy), arbitrary decision values, budget 1 to 3, costs and weights per label')
def halc(ctx, n, t):
    m = 2 if t == 'flat' else 3
    X = np.array([[float(i), 0.0] for i in range(4)])
    y = np.array([[1, -1, 1], [-1, 1, 1], [1, 1, -1], [1, -1, -1]])[:, :m]
    if m == 2:
        unl = [(1, 0), (2, 0), (3, 0), (3, 1)][:n] if n != 2 else [(2, 1), (1, 0)]
    else:
        unl = [(1, 0), (1, 2), (2, 1), (1, 1)][:n]
    allp = [(i, j) for i in range(4) for j in range(m)]
    lab = [p for p in allp if p not in unl and p[0] != 0]
    u = dict((p, ctx.real('u%d_%d' % p, 0.1, 5)) for p in unl)
    sg = [1 if ctx.flag('sign%d' % j) else -1 for j in range(m)]
    sign = [dict((i, sg[j]) for i in range(4)) for j in range(m)]
    models = [Dec(ctx, dict((p[0], v) for p, v in u.items() if p[1] == j), sign[j]) for j in range(m)]
    kw, cost = pricing(ctx, m)
    budget = ctx.index('budget', 1, 3)
    w = [1, 3, 2][:m] if ctx.flag('weights') else None
    fu, fl = MultiLabelIndexCollection(unl, label_size=m), MultiLabelIndexCollection(lab, label_size=m)
    st = Q.QueryCostSensitiveHALC(X, y, tree(t, m), weights=w)
    s = as_pairs(ctx, st.select(fl, fu, budget=budget, models=models, **kw))
    W = w or [1] * m
    U = dict((p, W[p[1]] * u[p]) for p in unl)
    tr = tree(t, m)
    val = {}
    for i, j in unl:
        # all 4 instances are neighbours: the known label or the prediction votes
        vote = sum(int(y[q, j]) if (q, j) in lab else sign[j][q] for q in range(4))
        if vote > 0:
            val[(i, j)] = 2 * U[(i, j)]
        elif vote < 0:
            leaves = [q for q in reach(tr, j) if not tr[q].any()] if tr[j].any() else [j]
            val[(i, j)] = U[(i, j)] + Sum([U[(i, q)] for q in leaves if (i, q) in U])
        else:
            val[(i, j)] = 0
    judge(ctx, s, unl, val, cost, budget)
    ctx.cover('end')


@R.family('random', [(2,), (3,), Th(4,)], budget=60, covers=('end', 'all'), bounds='n unlabeled pairs, all draws, budget 1 to 9, costs per label')
def random(ctx, n):
    X, _ = data(4)
    y = np.array([[1, -1], [-1, 1], [1, 1], [-1, -1]])
    unl = UNL[:n]
    kw, cost = pricing(ctx, 2)
    budget = ctx.choice('budget', [1, 2, 3, 9])
    fu = forms(ctx, 'fu', unl, 4, 2)
    before = list(fu)
    s = as_pairs(ctx, Q.QueryCostSensitiveRandom(X, y).select(None, fu, budget=budget, **kw))
    ctx.check(set(s) <= set(unl), 'only unlabeled pairs are selected', got=s)
    tot = sum(cost[j] for _, j in s)
    ctx.check(tot <= budget, 'the selection is within the budget', got=s)
    if len(s) == n:
        ctx.cover('all')
    else:
        ctx.check(any(tot + cost[j] > budget for p in unl if p not in s for j in [p[1]]), 'it ends when a drawn pair exceeds the budget', got=s)
    ctx.check(list(fu) == before, 'the unlabeled set is not changed')
    ctx.cover('end')


class Fit(object):
    log = None

    def fit(self, x, y):
        Fit.log.append(([int(r[0]) for r in np.asarray(x).tolist()], [int(v) for v in y]))
        self.n = len(Fit.log)

    def decision_function(self, x):
        return np.array([1.0 + int(r[0]) for r in np.asarray(x).tolist()])

    def predict(self, x):
        return np.array([1 for r in x])


@R.case('trained', covers=('end',), bounds='4 instances, 2 labels, any labeled pairs of 2 instances')
def trained(ctx):
    X, _ = data(4)
    y = np.array([[1, -1], [-1, 1], [1, 1], [-1, -1]])
    lab = [(0, 0), (0, 1)] + [p for p in [(1, 0), (1, 1), (2, 0), (2, 1)] if ctx.flag('l%d_%d' % p)]
    unl = [p for p in PAIRS if p not in lab]
    Fit.log = []
    st = Q.QueryCostSensitivePerformance(X, y) if ctx.flag('performance') else Q.QueryCostSensitiveHALC(X, y, tree('flat', 2))
    kw = {'basemodel': Fit()} if isinstance(st, Q.QueryCostSensitivePerformance) else {'base_model': Fit()}
    s = as_pairs(ctx, st.select(MultiLabelIndexCollection(lab, label_size=2), MultiLabelIndexCollection(unl, label_size=2), budget=2, **kw))
    ctx.check(len(Fit.log) == 2, 'a model is trained for every label')
    for j, (r, v) in enumerate(Fit.log):
        ctx.check(sorted(r) == [i for i, q in lab if q == j] and v == [int(y[i, j]) for i in r], 'on the instances for which the label is known')
    val = dict((p, (2.0 if 'halc' in type(st).__name__.lower() else 1.0) / (1 + p[0])) for p in unl)
    judge(ctx, s, unl, val, [1, 1], 2)
    ctx.cover('end')
