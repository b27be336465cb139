"""P18 Strategies for noisy oracles select the instance and the oracles by their definition."""
import numpy as np
from sx.case import Registry, Th
from sx.engine import And, Or, Not, Implies, Iff, Eq, Close, In, Distinct, Sum, Ite, Max, Min, Abs
from props.qs import Table, data, form, optimal, simplex, snapshot
from alipy.oracle import Oracle, Oracles
from alipy.query_strategy import noisy_oracles as Q

R = Registry()
NAMES = ['a', 'b', 'c', 'd']


# ------------------------------------------------------------------ votes
def check_vote(ctx, count, res, labels, weight):
    tot = lambda v: Sum([Ite(Eq(v, x), w, 0) for x, w in zip(labels, weight)])
    ctx.check(Or([Eq(res, x) for x in labels]), 'the result of the vote is a label that was given')
    ctx.check(Close(count, tot(res)), 'with the (weighted) number of its votes', got=(count, res))
    ctx.check(And([tot(x) <= tot(res) for x in labels]), 'and no label has more votes', got=(count, res))


@R.family('vote', [(1,), (3,), (4,), Th(5,)], covers=('end',), bounds='k oracles, labels 0..2, no weights or weights 0 to 4 (integers)')
def vote(ctx, k):
    labels = ctx.ints('l', k, 0, 2)
    w = ctx.ints('w', k, 0, 4) if ctx.flag('weights') else None
    count, res = Q.majority_vote(ctx.arr(labels) if ctx.flag('array') else list(labels), w if w is None or not ctx.flag('weight array') else ctx.arr(w))
    check_vote(ctx, count, res, labels, w or [1] * k)
    ctx.check(ctx.raises(AssertionError, Q.majority_vote, list(labels), [1] * (k + 1)), 'as many weights as labels are needed')
    ctx.cover('end')


def group(ctx, labels, costs):
    """The oracles as a list or as Oracles."""
    os = [Oracle(labels=list(l), indexes=list(range(len(l))), cost=list(c)) for l, c in zip(labels, costs)]
    if ctx.flag('list of oracles'):
        return os, list(range(len(os)))
    g = Oracles()
    for n, o in zip(NAMES, os):
        g.add_oracle(oracle_name=n, oracle_object=o)
    return g, NAMES[:len(os)]


@R.family('results', [(2, 2), (3, 2), Th(3, 3)], covers=('end', 'some'), bounds='k oracles, n instances, labels 0..c, arbitrary costs')
def results(ctx, k, n):
    labels = [ctx.ints('l%d' % i, n, 0, 2) for i in range(k)]
    costs = [ctx.reals('c%d' % i, n, 0, 9) for i in range(k)]
    g, names = group(ctx, labels, costs)
    pick = [i for i in range(k) if ctx.flag('p%d' % i)]
    if not pick:
        pick, sel = list(range(k)), None
    else:
        sel = [names[i] for i in pick]
        ctx.cover('some')
    x = ctx.index('x', 0, n - 1)
    arg = x if ctx.flag('scalar') else [x]
    if ctx.flag('vote'):
        count, res, cost = Q.get_majority_vote(arg, g, sel)
        check_vote(ctx, count, res, [labels[i][x] for i in pick], [1] * len(pick))
        ctx.check(Close(cost, Sum([costs[i][x] for i in pick])), 'the cost of the vote is that of the oracles asked')
    else:
        lab, cost = Q.get_query_results(arg, g, sel)
        ctx.check(Eq(list(lab), [labels[i][x] for i in pick]), 'the labels of the oracles asked, in order', got=lab)
        ctx.check(Close(list(cost), [costs[i][x] for i in pick]), 'and their costs')
    if isinstance(g, Oracles):
        ctx.check(Close(g.cost_inall, Sum([costs[i][x] for i in pick])), 'the group accounts for the cost')
    ctx.check(ctx.raises(TypeError, Q.get_query_results, 0, tuple(names)), 'other groups of oracles are refused')
    ctx.cover('end')


# ------------------------------------------------------------------ selection of the instance
class Default(Table):
    tabs = ctx = log = None

    def __init__(self, *a, **k):
        Table.__init__(self, Default.ctx, Default.tabs)

    def fit(self, x, y):
        Default.log.append((self.rows(x), [int(v) for v in y]))
        return self


def prediction(ctx, unl, k, pre='p'):
    pv = dict(zip(sorted(unl), simplex(ctx, pre, len(unl), k)))
    tab = [[1.0 / k] * k] * 8
    for u, r in pv.items():
        tab[u] = r
    return pv, tab


def pick(ctx, st, lab, unl, pv, tab):
    """select through a model, the default model or a prediction matrix"""
    X, y = data(8)
    how = ctx.choice('how', ['model', 'default', 'matrix'])
    fu = form(ctx, 'fu', unl)
    if how == 'matrix':
        return st.select_by_prediction_mat(list(lab), fu, ctx.arr([pv[u] for u in snapshot(fu)]))
    if how == 'model':
        return st.select(list(lab), fu, model=Table(ctx, tab))
    Default.ctx, Default.tabs, Default.log = ctx, tab, []
    ctx.patch(Q, 'LogisticRegression', Default)
    r = st.select(list(lab), fu)
    ctx.check(Default.log == [(list(lab), [int(y[i]) for i in lab])], 'the default model is trained on the labeled instances')
    return r


def least_confident(ctx, ins, unl, pv):
    ctx.check(len(ins) == 1 and int(ins[0]) in unl, 'one unlabeled instance is selected', got=ins)
    i = int(ins[0])
    for j in unl:
        ctx.check(Max(pv[i]) <= Max(pv[j]) + 1e-9, 'the least confident one', got=i)
    return i


@R.family('all_random', [(1, 2), (3, 2), Th(4, 2), Th(3, 3)], covers=('end',), budget=90, validate=10, bounds='n unlabeled instances, k classes, arbitrary probabilities, 3 oracles')
def all_random(ctx, n, k):
    X, y = data(8)
    unl, lab = [6, 0, 4, 2][:n], [1, 5]
    pv, tab = prediction(ctx, unl, k)
    g, names = group(ctx, [[0] * 8, [1] * 8, [0, 1] * 4], [[1] * 8] * 3)
    if ctx.flag('all'):
        st = Q.QueryNoisyOraclesAll(X=X, y=y, oracles=g)
        ins, ora = pick(ctx, st, lab, unl, pv, tab)
        ctx.check(list(ora) == names, 'all oracles are selected', got=ora)
    else:
        st = Q.QueryNoisyOraclesRandom(X=X, y=y, oracles=g)
        ins, ora = pick(ctx, st, lab, unl, pv, tab)
        ctx.check(len(ora) == 1 and ora[0] in names, 'one of the oracles is selected', got=ora)
    least_confident(ctx, ins, unl, pv)
    # what was selected can be queried
    c, r, cost = Q.get_majority_vote(ins, g, ora)
    ctx.check(cost == len(ora), 'the selection can be queried')
    ctx.cover('end')


@R.case('random_reaches_all', covers=('0', '1', '2'), bounds='3 oracles')
def random_reaches_all(ctx):
    X, y = data(8)
    g, names = group(ctx, [[0] * 8] * 3, [[1] * 8] * 3)
    ora = Q.QueryNoisyOraclesRandom(X=X, y=y, oracles=g).select_by_given_instance(4)
    ctx.cover(str(names.index(ora[0])))
    ctx.check(len(ora) == 1, 'one oracle is selected')


# ------------------------------------------------------------------ IEthresh
def t_crit(n, alpha=0.05):
    import scipy.stats
    return float(scipy.stats.t.isf(alpha / 2, n - 1))


@R.family('iethresh', [(3, 2), (2, 3), (3, 3), (2, 4), Th(3, 4), Th(4, 2), Th(4, 3)], covers=('end', 'fewer'), budget=90, bounds='k oracles, r rounds on different instances, arbitrary labels, three values of epsilon, or any (2 oracles or 4 rounds)')
def iethresh(ctx, k, r):
    X, y = data(8)
    inst = [6, 0, 4, 7, 2][:r]
    labels = [[0] * 8 for _ in range(k)]
    for i in range(k):
        for x in inst:
            # what the two labels are called does not matter
            labels[i][x] = ctx.int('l%d_%d' % (i, x), 0, 1) if i or r < 4 else 0
    g, names = group(ctx, labels, [[1] * 8] * k)
    eps = ctx.choice('eps', [None, 0.5, 1.0] if r < 3 else [None]) if not (k == 2 or r > 3) else ctx.real('eps', 0.05, 1)
    st = Q.QueryNoisyOraclesIEthresh(X, y, g, [1, 5], **({} if eps is None else {'epsilon': eps}))
    eps = 0.8 if eps is None else eps
    ui = [1.0] * k
    hist = [[] for _ in range(k)]
    for x in inst:
        ora = st.select_by_given_instance(x)
        want = [i for i in range(k) if names[i] in ora]
        ctx.check(list(ora) == [names[i] for i in want], 'the oracles selected are named in their order', got=ora)
        for i in range(k):
            if i in want:
                ctx.check(ui[i] >= eps * max(ui) - 1e-9, 'an oracle is selected only if its upper bound reaches the threshold', got=ora, bounds=str(ui))
            else:
                ctx.check(ui[i] <= eps * max(ui) + 1e-9, 'every oracle whose upper bound reaches the threshold is selected', got=ora, bounds=str(ui))
        ctx.check(bool(want), 'at least one oracle is selected')
        if not want:
            return
        if len(want) < k:
            ctx.cover('fewer')
        votes = [int(labels[i][x]) for i in want]
        # a tie goes to the label given first
        top = max(votes.count(v) for v in votes)
        maj = [v for v in votes if votes.count(v) == top][0]
        for i, v in zip(want, votes):
            hist[i].append(1.0 if v == maj else 0.0)
            m = sum(hist[i]) / len(hist[i])
            sd = (sum((h - m) ** 2 for h in hist[i]) / len(hist[i])) ** 0.5
            ui[i] = m + t_crit(k) * sd / k ** 0.5
    ctx.cover('end')


@R.case('iethresh_instance', covers=('end',), validate=10, bounds='3 unlabeled instances, 2 classes, arbitrary probabilities')
def iethresh_instance(ctx):
    X, y = data(8)
    unl, lab = [6, 0, 4], [1, 5]
    pv, tab = prediction(ctx, unl, 2)
    g, names = group(ctx, [[0] * 8, [1] * 8, [0, 1] * 4], [[1] * 8] * 3)
    ins, ora = pick(ctx, Q.QueryNoisyOraclesIEthresh(X, y, g, lab), lab, unl, pv, tab)
    least_confident(ctx, ins, unl, pv)
    ctx.check(list(ora) == names, 'all oracles are selected at first')
    ctx.cover('end')


# ------------------------------------------------------------------ CEAL
@R.family('ceal', [(1, 3, 2), (2, 3, 2), (3, 2, 1), Th(3, 3, 2), Th(2, 4, 2)], covers=('end', 'evaluated'), budget=90, validate=20,
          bounds='n unlabeled and l initially labeled instances, q neighbours, 2 oracles right or wrong anywhere, arbitrary probabilities, two cost vectors')
def ceal(ctx, n, l, q):
    pts = [0.0, 1.0, 3.5, 7.25, 15.0, 31.5, 64.0, 130.0]
    X = np.array([[v, 0.0] for v in pts])
    y = np.array([i % 2 for i in range(8)])
    lab, unl = [1, 3, 0, 6][:l], [5, 2, 4][:n]
    pv, tab = prediction(ctx, unl, 2)
    right = [[ctx.flag('r%d_%d' % (a, i)) for i in lab] for a in range(2)]
    ev = ctx.flag('eval cost')
    api = ctx.flag('matrix and array')
    cost = [0.5, 2] if ev else ctx.choice('costs', [[0, 0.5], [2, 0.5]])
    ls = []
    for a in range(2):
        v = [int(c) for c in y]
        for i, r in zip(lab, right[a]):
            if not r:
                v[i] = 1 - v[i]
        ls.append(v)
    g, names = group(ctx, ls, [[c] * 8 for c in cost])
    st = Q.QueryNoisyOraclesCEAL(X, y, g, np.array(lab) if api else list(lab))
    kw = {'n_neighbors': q, 'eval_cost': ev} if ev else {'n_neighbors': q}
    if api:
        ins, ora = st.select_by_prediction_mat(list(lab), list(unl), ctx.arr([pv[u] for u in unl]), **kw)
    else:
        ins, ora = st.select(list(lab), list(unl), model=Table2(ctx, tab, pts), **kw)
    ctx.check(len(ins) == 1 and int(ins[0]) in unl, 'one unlabeled instance is selected', got=ins)
    ctx.check(len(ora) == 1 and ora[0] in names, 'and one oracle', got=ora)
    kk = min(q, l - 1)
    Qv = {}
    for u in unl:
        near = sorted(range(l), key=lambda p: abs(pts[lab[p]] - pts[u]))[:kk]
        for a in range(2):
            s = sum(abs(pts[lab[p]] - pts[u]) for p in near if right[a][p]) / float(kk)
            c = sum(right[a]) / float(l) if ev else cost[a]
            Qv[(u, a)] = (1 - Max(pv[u])) * (s / max(c, 0.0001))
    got = Qv[(int(ins[0]), names.index(ora[0]))]
    for o in Qv.values():
        ctx.check(got >= o - 1e-6, 'no pair has a higher expertise on the neighbours times uncertainty per cost', got=(ins, ora))
    if ev:
        ctx.cover('evaluated')
    ctx.cover('end')


class Table2(Table):
    def __init__(self, ctx, tab, pts):
        Table.__init__(self, ctx, tab)
        self.pts = pts

    def rows(self, x):
        return [self.pts.index(float(r[0])) for r in np.asarray(x).tolist()]
