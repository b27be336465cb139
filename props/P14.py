"""P14 Uncertainty, committee and error-reduction strategies select the instances with the best score."""
import numpy as np
from sx.case import Registry, Th
from sx.engine import And, Or, Not, Implies, Iff, Eq, Close, In, Distinct, Sum, Ite, Max, Min, Abs
from props.qs import Table, data, form, valid, optimal, simplex, snapshot, as_list
from alipy.query_strategy import query_labels as Q

R = Registry()
LAB = [2, 5]
UNL = [6, 0, 4, 1, 7, 3]


def log(ctx, x):
    import alipy.query_strategy.query_labels as m
    return m.np.log(x)


def entropy(ctx, ps):
    return -Sum([p * log(ctx, p + 1e-9) for p in ps])


def measure_score(ctx, measure, row):
    if measure == 'margin':
        top = Max(row)
        # the second largest: the largest after removing one occurrence of the top
        sec = Max([Min([a, b]) for i, a in enumerate(row) for b in row[i + 1:]])
        return sec - top
    if measure == 'least_confident':
        return 1 - Max(row)
    return entropy(ctx, row)


@R.family('uncertainty', [('least_confident', 4, 3), ('margin', 3, 3), ('margin', 4, 2), ('entropy', 3, 3), Th('least_confident', 5, 3), Th('margin', 4, 3), Th('entropy', 4, 3)],
          budget=60, covers=('end', 'by model', 'by matrix'),
          bounds='n unlabeled instances, k classes, arbitrary probabilities, every batch size, by model and by matrix')
def uncertainty(ctx, measure, n, k):
    pv = simplex(ctx, 'p', n, k)
    if measure == 'entropy':
        for r in pv:
            for p in r:
                ctx.assume(p >= 1e-6)
    unl = UNL[:n]
    X, y = data(8)
    batch = ctx.index('batch', 1, n - 1)
    st = Q.QueryInstanceUncertainty(X, y, measure=measure)
    if ctx.flag('model'):
        tab = [[0.5] * k for _ in range(8)]
        for u, r in zip(unl, pv):
            tab[u] = r
        sel = st.select(list(LAB), list(unl), model=Table(ctx, tab), batch_size=batch)
        ctx.cover('by model')
    else:
        sel = st.select_by_prediction_mat(list(unl), ctx.arr(pv), batch_size=batch)
        ctx.cover('by matrix')
    s = valid(ctx, sel, unl, batch)
    sc = {u: measure_score(ctx, measure, r) for u, r in zip(unl, pv)}
    optimal(ctx, s, unl, sc, tol=1e-7)
    ctx.cover('end')


@R.family('boundary', [(3,), Th(4)], covers=('end',), bounds='n unlabeled instances, arbitrary values of the decision function, 1d or one column, by model and by matrix')
def boundary(ctx, n):
    f = ctx.reals('f', n, -3, 3)
    unl = UNL[:n]
    X, y = data(8)
    batch = ctx.index('batch', 1, n - 1)
    st = Q.QueryInstanceUncertainty(X, y, measure='distance_to_boundary')
    col = ctx.flag('column')
    if ctx.flag('model'):
        tab = [[0.0] if col else 0.0] * 8
        for u, v in zip(unl, f):
            tab[u] = [v] if col else v
        sel = st.select(list(LAB), list(unl), model=Table(ctx, tab), batch_size=batch)
    else:
        sel = st.select_by_prediction_mat(list(unl), ctx.arr([[v] for v in f] if col else f), batch_size=batch)
    s = valid(ctx, sel, unl, batch)
    optimal(ctx, s, unl, {u: Abs(v) for u, v in zip(unl, f)}, best=min)
    ctx.cover('end')


@R.case('entropy_values', covers=('end',), bounds='2 instances, 3 classes, arbitrary probabilities including 0')
def entropy_values(ctx):
    pv = simplex(ctx, 'p', 2, 3)
    m = ctx.arr(pv)
    e = Q.QueryInstanceUncertainty.calc_entropy(m)
    for i in range(2):
        ctx.check(Close(e[i], entropy(ctx, pv[i])), 'the entropy is -sum p log p', got=e[i])
    ctx.check(Eq(m.tolist(), pv), 'the prediction matrix of the caller is not changed')
    ctx.cover('end')


@R.case('certain_last', covers=('end',), bounds='a certain prediction against an uncertain one, 2 classes')
def certain_last(ctx):
    p = ctx.choice('p', [0.25, 0.4, 0.5, 0.625, 0.75, 0.9])
    q = 1.0 * ctx.index('q', 0, 1)
    pv = [[q, 1 - q], [p, 1 - p]]
    first = ctx.flag('first')
    unl = [6, 0]
    rows = pv if first else pv[::-1]
    for measure in ('entropy', 'margin', 'least_confident'):
        m = ctx.arr(rows)
        st = Q.QueryInstanceUncertainty(None, None, measure=measure)
        sel = st.select_by_prediction_mat(unl, m, batch_size=1)
        ctx.check(as_list(sel) == [0 if first else 6], measure + ': the uncertain instance goes before the certain one')
        ctx.check(Eq(m.tolist(), rows), measure + ': the prediction matrix of the caller is not changed')
    ctx.cover('end')


# ------------------------------------------------------------------ committee
def vote_entropy(votes, classes):
    """-sum over classes of v/m log(v/m); the votes are concrete here."""
    import math
    m = float(len(votes))
    t = 0.0
    for c in classes:
        v = sum(1 for x in votes if x == c)
        if v:
            t -= v / m * math.log(v / m)
    return t


class Bag(object):
    """Stands in for sklearn's bagging: a committee with given outputs."""
    members = None
    log = None

    def __init__(self, model, n_jobs=None, **k):
        self.model = model

    def fit(self, X, y):
        Bag.log.append((as_list(np.asarray(X)[:, 0]), list(y)))
        self.estimators_ = Bag.members
        return self


@R.family('vote_entropy', [(2, 2, 'labels'), (2, 3, 'labels'), (2, 3, 'onehot'), Th(3, 2, 'labels'), Th(3, 3, 'labels'), Th(3, 2, 'onehot'), Th(3, 3, 'onehot')], budget=90, covers=('end', 'by matrix'),
          bounds='n unlabeled instances, m members of the committee, 3 classes, arbitrary votes')
def vote(ctx, n, m, kind):
    unl = UNL[:n]
    X, y = data(8)
    v = [[ctx.index('v_%d_%d' % (c, i), 0, 2 if kind == 'labels' or m < 3 else 1) for i in range(n)] for c in range(m)]
    batch = ctx.index('batch', 1, n - 1)
    if kind == 'onehot':
        mats = [[[1 if q == t else 0 for t in range(3)] for q in row] for row in v]
    else:
        mats = v
    st = Q.QueryInstanceQBC(X, y, disagreement='vote_entropy')
    if ctx.flag('model') and kind == 'labels':
        Bag.log = []
        Bag.members = []
        for c in range(m):
            tab = [0] * 8
            for i, u in enumerate(unl):
                tab[u] = mats[c][i]
            Bag.members.append(Table(ctx, tab))
        ctx.patch(Q, 'BaggingClassifier', Bag)
        sel = st.select(list(LAB), list(unl), model=Table(ctx, [[0.5, 0.5]] * 8), batch_size=batch)
        ctx.check(Bag.log == [(LAB, [int(y[i]) for i in LAB])], 'the committee is trained on the labeled instances')
        ctx.cover('by model')
    else:
        sel = st.select_by_prediction_mat(list(unl), [np.array(x) for x in mats] if ctx.flag('array') else mats, batch_size=batch)
        ctx.cover('by matrix')
    s = valid(ctx, sel, unl, batch)
    sc = {u: vote_entropy([v[c][i] for c in range(m)], range(3)) for i, u in enumerate(unl)}
    optimal(ctx, s, unl, sc, tol=1e-7)
    ctx.cover('end')


def kl(ctx, rows):
    m = len(rows)
    t = 0
    for lab in range(len(rows[0])):
        cons = Sum([r[lab] for r in rows]) / m + 1e-9
        for r in rows:
            t = t + r[lab] * log(ctx, (r[lab] + 1e-9) / cons)
    return t


@R.family('kl', [(2, 2), Th(3, 2), Th(2, 3)], budget=120, covers=('end',), validate=6, bounds='n unlabeled instances, m members of the committee, 2 classes, arbitrary probabilities')
def kl_case(ctx, n, m):
    unl = UNL[:n]
    X, y = data(8)
    mats = [simplex(ctx, 'p%d' % c, n, 2) for c in range(m)]
    for a in mats:
        for r in a:
            for p in r:
                ctx.assume(p >= 0.01)
    st = Q.QueryInstanceQBC(X, y, disagreement='KL_divergence')
    by_model = ctx.flag('model')
    if by_model:
        Bag.log = []
        Bag.members = []
        for c in range(m):
            tab = [[0.5, 0.5]] * 8
            for i, u in enumerate(unl):
                tab[u] = mats[c][i]
            Bag.members.append(Table(ctx, tab))
        ctx.patch(Q, 'BaggingClassifier', Bag)
        sel = st.select(list(LAB), list(unl), model=Table(ctx, [[0.5, 0.5]] * 8), batch_size=1)
    else:
        sel = st.select_by_prediction_mat(list(unl), [ctx.arr(a) for a in mats], batch_size=1)
    s = valid(ctx, sel, unl, 1)
    sc = {u: kl(ctx, [mats[c][i] for c in range(m)]) for i, u in enumerate(unl)}
    optimal(ctx, s, unl, sc, tol=1e-7)
    ctx.cover('end')


@R.case('kl_grid', covers=('end',), bounds='2 instances, 3 members of the committee, 2 classes, probabilities 0.1, 0.5 or 0.9')
def kl_grid(ctx):
    import math
    g = [[[0.1, 0.5, 0.9][ctx.index('g_%d_%d' % (c, i), 0, 2)] for i in range(2)] for c in range(3)]
    mats = [[[p, 1 - p] for p in row] for row in g]
    score = Q.QueryInstanceQBC.calc_avg_KL_divergence([np.array(a) for a in mats])
    want = []
    for i in range(2):
        t = 0.0
        for lab in range(2):
            cons = sum(a[i][lab] for a in mats) / 3
            t += sum(a[i][lab] * math.log(a[i][lab] / cons) for a in mats) / 3
        want.append(t)
    # the score may be the average or the sum over the committee
    ratio = 3.0 if abs(score[0] - 3 * want[0]) < 1e-6 and abs(score[1] - 3 * want[1]) < 1e-6 else 1.0
    ctx.check(Close([v / ratio for v in score], want, 1e-6), 'the disagreement is the average Kullback-Leibler divergence from the consensus', got=list(score), want=want)
    sel = as_list(Q.QueryInstanceQBC(disagreement='KL_divergence').select_by_prediction_mat([6, 0], mats, batch_size=1))
    optimal(ctx, sel, [6, 0], dict(zip([6, 0], want)), tol=1e-6)
    ctx.cover('end')


@R.case('kl_agreement', covers=('end',), bounds='a committee that agrees on one instance and contradicts itself on the other')
def kl_agreement(ctx):
    p = ctx.real('p', 0, 1)
    ctx.assume(And(p >= 0.1, p <= 0.9))
    first = ctx.flag('first')
    a, b = ([[p, 1 - p], [0.95, 0.05]], [[p, 1 - p], [0.05, 0.95]])
    mats = [a, b] if first else [a[::-1], b[::-1]]
    st = Q.QueryInstanceQBC(disagreement='KL_divergence')
    sel = st.select_by_prediction_mat([6, 0], [ctx.arr(x) for x in mats], batch_size=1)
    ctx.check(as_list(sel) == [0 if first else 6], 'the instance the committee disagrees on is selected')
    ctx.cover('end')


# ------------------------------------------------------------------ expected error reduction
class Refit(object):
    """A model whose predictions after a fit depend on the last training instance and its label."""
    def __init__(self, ctx, pv, tab, classes, fits=None):
        self.ctx, self.pv, self.tab, self.state = ctx, pv, tab, None
        self.classes_ = np.array(classes)
        self.fits = [] if fits is None else fits

    def __deepcopy__(self, memo):
        m = Refit(self.ctx, self.pv, self.tab, list(self.classes_), self.fits)
        m.state = self.state
        return m

    def fit(self, X, y):
        rows = [int(r[0]) for r in np.asarray(X).tolist()]
        ys = [int(v) for v in y]
        self.fits.append((rows, ys))
        self.state = (rows[-1], ys[-1])
        return self

    def predict_proba(self, X):
        rows = [int(r[0]) for r in np.asarray(X).tolist()]
        if self.state is None:
            return self.ctx.arr([self.pv[r] for r in rows])
        return self.ctx.arr([self.tab[self.state][r] for r in rows])


@R.family('expected_error', [(2, (0, 1)), (2, (3, 7)), (3, (0, 1)), Th(3, (3, 7))], budget=90, covers=('end',), validate=8,
          bounds='n unlabeled instances, classes named 0/1 or 3/7, arbitrary current predictions, arbitrary (grid) predictions after each possible addition')
def expected_error(ctx, n, classes):
    unl = UNL[:n]
    X, _ = data(8)
    y = np.array([classes[i % 2] for i in range(8)])
    p = ctx.reals('p', n, 0, 1)
    pv = {u: [q, 1 - q] for u, q in zip(unl, p)}
    tab = {}
    grid = [0.5, 0.9, 1.0]
    for u in unl:
        for c in classes:
            # the predictions after adding (u, c): the same for all the rest, on a grid
            g = grid[ctx.index('g_%d_%d' % (u, c), 0, 2)] if n == 2 or u == unl[0] else 0.8 if c == classes[0] else 0.6
            # (with another certainty for every row)
            tab[(u, c)] = {}
            for k, w in enumerate(unl):
                q = g * (1 - 0.25 * k)
                tab[(u, c)][w] = [q, 1 - q] if k % 2 else [1 - q, q]
    model = Refit(ctx, pv, tab, classes)
    st = Q.QueryExpectedErrorReduction(X, y)
    batch = ctx.index('batch', 1, n - 1)
    sel = st.select(form(ctx, 'fl', LAB), form(ctx, 'fu', unl), model=model, batch_size=batch)
    s = valid(ctx, sel, unl, batch)
    import math
    sc = {}
    for u in unl:
        t = 0
        for ci, c in enumerate(classes):
            loss = sum(-q * math.log(q) for w in unl if w != u for q in tab[(u, c)][w] if q > 0)
            t = t + pv[u][ci] * loss
        sc[u] = t
    optimal(ctx, s, unl, sc, best=min, tol=1e-7)
    want = sorted((sorted(LAB + [u]), c) for u in unl for c in classes)
    got = sorted((sorted(r), v[-1]) for r, v in model.fits)
    ctx.check(got == want, 'the model is refitted on the labeled instances plus each candidate with each class', got=got)
    ctx.check(model.state is None, "the caller's model is not refitted")
    ctx.cover('end')


@R.case('log_loss', covers=('end',), bounds='2 instances, 2 classes, arbitrary probabilities including 0 and 1')
def log_loss(ctx):
    pv = simplex(ctx, 'p', 2, 2)
    X, y = data(4)
    v = Q.QueryExpectedErrorReduction(X, y).log_loss(ctx.arr(pv))
    t = 0
    for r in pv:
        for q in r:
            if q > 0:
                t = t - q * log(ctx, q)
    ctx.check(Close(v, t), 'the expected log-loss is the sum of -p log p', got=v)
    ctx.cover('end')
