"""Shared parts of the query-strategy harnesses."""
import numpy as np
from sx.engine import And, Or, Not, Implies, Iff, Eq, Close, In, Distinct, Sum, Ite
from alipy.index.index_collections import IndexCollection

TOL = 1e-9
FORMS = ['list', 'array', 'collection']


def form(ctx, name, idx):
    k = ctx.choice(name, FORMS)
    return list(idx) if k == 'list' else np.array(idx) if k == 'array' else IndexCollection(list(idx))


class Table(object):
    """A model whose outputs for row r of the data are tab[r]; the first feature of a row is its position."""
    def __init__(self, ctx, tab, kind='proba', classes=None):
        self.ctx, self.tab, self.kind = ctx, tab, kind
        self.fitted = []
        if classes is not None:
            self.classes_ = np.array(classes)

    def __deepcopy__(self, memo):
        m = Table(self.ctx, self.tab, self.kind)
        if hasattr(self, 'classes_'):
            m.classes_ = self.classes_
        m.fitted = list(self.fitted)
        return m

    def rows(self, x):
        return [int(r[0]) for r in np.asarray(x).tolist()]

    def fit(self, x, y):
        self.fitted.append((self.rows(x), list(y)))
        return self

    def predict_proba(self, x):
        return self.ctx.arr([self.tab[r] for r in self.rows(x)])

    def decision_function(self, x):
        return self.ctx.arr([self.tab[r] for r in self.rows(x)])

    def predict(self, x):
        return self.ctx.arr([self.tab[r] for r in self.rows(x)])


def data(n, d=2):
    return np.array([[i] + [(7 * i + 3 * j) % 5 for j in range(d - 1)] for i in range(n)], dtype=float), np.array([i % 2 for i in range(n)])


def as_list(sel):
    return [int(v) for v in (sel.tolist() if isinstance(sel, np.ndarray) else list(sel))]


def valid(ctx, sel, unl, batch, label=''):
    """Right number of distinct members of the unlabeled set."""
    s = as_list(sel)
    ctx.check(len(s) == min(batch, len(unl)), label + 'as many instances as asked for (or all there are) are selected', got=s)
    ctx.check(len(set(s)) == len(s), label + 'no instance is selected twice', got=s)
    ctx.check(set(s) <= set(unl), label + 'only unlabeled instances are selected', got=s)
    return s


def optimal(ctx, sel, unl, score, best=max, label='', tol=TOL):
    """No instance that was not selected has a better score than one that was."""
    for i in sel:
        for j in unl:
            if j not in sel:
                ctx.check(score[i] >= score[j] - tol if best is max else score[i] <= score[j] + tol,
                          label + 'no instance left out has a better score than a selected one', selected=sel)


def simplex(ctx, name, n, k):
    """n rows of k positive probabilities that sum to 1."""
    out = []
    for i in range(n):
        ps = [ctx.real('%s_%d_%d' % (name, i, j), 0, 1) for j in range(k - 1)]
        last = 1 - Sum(ps)
        ctx.assume(last >= 0)
        out.append(ps + [last])
    return out


def snapshot(x):
    if isinstance(x, IndexCollection):
        return list(x.index)
    return [list(r) if isinstance(r, (list, np.ndarray)) else r for r in (x.tolist() if isinstance(x, np.ndarray) else x)]
