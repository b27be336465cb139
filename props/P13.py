"""P13 Every label query strategy selects the requested number of distinct unlabeled instances and changes none of its inputs."""
import sys
import types
import warnings
import numpy as np
from sx.case import Registry, Th
from sx.engine import And, Or, Not, Implies, Iff, Eq, Close, In, Distinct, Sum, Ite, Max, Min, Abs
from props.qs import Table, data, form, valid, simplex, snapshot, as_list
from props import P14, P15
from alipy.index.index_collections import IndexCollection
from alipy.query_strategy import query_labels as Q

R = Registry()
TRAIN = [6, 0, 4, 2, 7]


class Default(Table):
    """Stands in for the default model."""
    tabs, log = None, None

    def __init__(self, *a, **k):
        Table.__init__(self, Default.ctx, Default.tabs)

    def __deepcopy__(self, memo):
        return self

    def fit(self, x, y):
        Default.log.append((self.rows(x), [int(v) for v in y]))
        self.classes_ = np.array([0, 1])
        return self


def strategies(ctx, X, y, train, pv, name):
    """(strategy, keyword arguments of select, largest batch)"""
    tab = [[0.5, 0.5]] * len(X)
    for i, r in pv.items():
        tab[i] = r
    Default.ctx, Default.tabs, Default.log = ctx, tab, []
    ctx.patch(Q, 'LogisticRegression', Default)
    kw = {}
    if name.startswith('uncertainty'):
        m = name.split(':')[1]
        st = Q.QueryInstanceUncertainty(X, y, measure=m)
        if m == 'distance_to_boundary':
            kw['model'] = Table(ctx, [r[0] - 0.5 for r in tab])
        elif ctx.flag('default model'):
            pass
        else:
            kw['model'] = Table(ctx, tab)
    elif name == 'random':
        st = Q.QueryInstanceRandom(X, y)
    elif name == 'old random':
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            st = Q.QueryRandom(X, y)
    elif name.startswith('qbc'):
        st = Q.QueryInstanceQBC(X, y, disagreement=name.split(':')[1])
        P14.Bag.log = []
        P14.Bag.members = [Table(ctx, [r if 'KL' in name else k % 2 for k, r in enumerate(tab)]), Table(ctx, [[0.25, 0.75] if 'KL' in name else k % 3 for k, r in enumerate(tab)])]
        ctx.patch(Q, 'BaggingClassifier', P14.Bag)
        if not ctx.flag('default model'):
            kw['model'] = Table(ctx, tab)
    elif name == 'error reduction':
        st = Q.QueryExpectedErrorReduction(X, y)
        t2 = {(u, c): {w: [0.1 + 0.1 * ((u + 2 * c + w) % 7), 0.9 - 0.1 * ((u + 2 * c + w) % 7)] for w in train} for u in train for c in (0, 1)}
        if not ctx.flag('default model'):
            kw['model'] = P14.Refit(ctx, pv, t2, [0, 1])
    elif name == 'quire':
        K = P15.kmat(1, len(train))
        st = Q.QueryInstanceQUIRE(X, y * 2 - 1, train, kernel=lambda X, Y: np.array(K))
    elif name == 'density':
        ctx.patch(Q, 'kneighbors_graph', P15.ring)
        st = Q.QueryInstanceGraphDensity(X, y, train)
        st.graph_density = ctx.arr([pv[i][0] if i in pv else 0.5 for i in train])
    elif name == 'coreset':
        st = Q.QueryInstanceCoresetGreedy(X, y, train)
        dm = [[0 if i == j else (abs(i - j) % 3 + 1) for j in range(8)] for i in range(8)]
        k = [i for i in train if i in pv]
        for i in k:
            for j in k:
                if i != j:
                    dm[i][j] = dm[j][i] = pv[i][0] * 3 + pv[j][0] * 3
        ctx.patch(Q, 'pairwise_distances', P15.dist_stub(ctx, dm))
    elif name == 'density weighted':
        st = Q.QueryInstanceDensityWeighted(X, y, uncertainty_meansure='least_confident')
        if ctx.flag('by model'):
            kw['model'] = Table(ctx, tab)
        else:
            kw['proba_prediction'] = 'pv'
    elif name == 'lal':
        st = Q.QueryInstanceLAL(X, y, train_slt=False, cls_est=2)
        st.model = P15.Forest(ctx, [])

        class Reg(object):
            def predict(self, F):
                return ctx.arr([tab[int(round(r[0] / 0.055)) - 1][0] for r in np.asarray(F).tolist()])
        st._selector = Reg()
    return st, kw


NAMES = ['uncertainty:entropy', 'uncertainty:margin', 'uncertainty:least_confident', 'uncertainty:distance_to_boundary', 'random', 'old random', 'qbc:vote_entropy', 'qbc:KL_divergence',
         'error reduction', 'quire', 'density', 'coreset', 'density weighted', 'lal']


@R.family('select', [(n, 3) for n in NAMES] + [Th(n, 4) for n in NAMES], budget=120, covers=('end',), validate=12,
          bounds='n unlabeled of 5 training instances, all three container types, every batch size up to more than there are, arbitrary scores of two instances')
def select(ctx, name, n):
    X, y = data(8)
    train = list(TRAIN)
    unl, lab = train[:n], train[n:]
    pv = {}
    for k, i in enumerate(unl):
        if k < 2:
            p = ctx.choice('p%d' % i, [0.1, 0.5, 0.75]) if name in ('qbc:KL_divergence', 'uncertainty:entropy') else ctx.real('p%d' % i, 0.05, 0.95)
            pv[i] = [p, 1 - p]
        else:
            pv[i] = [0.3, 0.7]
    st, kw = strategies(ctx, X, y, np.array(train) if ctx.flag('train array') else train, pv, name)
    fu, fl = form(ctx, 'fu', unl), form(ctx, 'fl', lab)
    before = (snapshot(fu), snapshot(fl), X.tolist(), y.tolist())
    if kw.get('proba_prediction') == 'pv':
        kw['proba_prediction'] = ctx.arr([pv[i] for i in snapshot(fu)])
    if name == 'quire':
        batch = 1
        sel = st.select(fl, fu, **kw)
    else:
        batch = ctx.index('batch', 1, n + 1)
        sel = st.select(fl, fu, batch_size=batch, **kw)
    valid(ctx, sel, unl, batch)
    ctx.check((snapshot(fu), snapshot(fl), X.tolist(), y.tolist()) == before, 'the index sets and the data are not changed')
    if Default.log:
        ctx.check(all(len(r) <= len(lab) + 1 for r, _ in Default.log) and sorted(Default.log[0][0]) == sorted(lab), 'the default model is trained on the labeled instances')
        ctx.check(all(v == [int(y[i]) for i in r] for r, v in Default.log[:1]), 'with their labels')
    # what was selected can be put to use
    c = IndexCollection(list(fu.index) if isinstance(fu, IndexCollection) else list(unl))
    c.difference_update(as_list(sel))
    ctx.check(len(c) == n - min(batch, n), 'the selection can be moved out of the unlabeled set')
    ctx.cover('end')


@R.case('matrix', covers=('end',), bounds='selection by prediction matrices, all container types, every batch size')
def matrix(ctx):
    unl = [6, 0, 4]
    p = ctx.reals('p', 2, 0.05, 0.95) + [0.3]
    pv = [[q, 1 - q] for q in p]
    fu = form(ctx, 'fu', unl)
    batch = ctx.index('batch', 1, 4)
    m = ctx.arr(pv)
    k = ctx.choice('k', ['entropy', 'margin', 'least_confident', 'distance_to_boundary', 'vote_entropy', 'KL_divergence'])
    if k in ('vote_entropy', 'KL_divergence'):
        mats = [m, ctx.arr(pv[::-1])] if k == 'KL_divergence' else [[0, 1, 1], [1, 1, 0]]
        sel = Q.QueryInstanceQBC(disagreement=k).select_by_prediction_mat(fu, mats, batch_size=batch)
    elif k == 'distance_to_boundary':
        sel = Q.QueryInstanceUncertainty(measure=k).select_by_prediction_mat(fu, ctx.arr(p), batch_size=batch)
    else:
        sel = Q.QueryInstanceUncertainty(measure=k).select_by_prediction_mat(fu, m, batch_size=batch)
    valid(ctx, sel, unl, batch)
    ctx.check(Eq(m.tolist(), pv), 'the prediction matrix is not changed')
    ctx.check(sorted(snapshot(fu)) == sorted(unl), 'the unlabeled set is not changed')
    ctx.cover('end')


@R.case('one_left', covers=('end',), bounds='a single unlabeled instance')
def one_left(ctx):
    X, y = data(8)
    train = [6, 0, 4]
    name = ctx.choice('name', NAMES)
    u = ctx.choice('u', train)
    lab = [i for i in train if i != u]
    p = 0.3
    st, kw = strategies(ctx, X, y, train, {u: [p, 1 - p]}, name)
    if kw.get('proba_prediction') == 'pv':
        kw['proba_prediction'] = ctx.arr([[p, 1 - p]])
    fu = form(ctx, 'fu', [u])
    sel = st.select(lab, fu, **kw)
    ctx.check(as_list(sel) == [u], 'the only unlabeled instance is selected', got=sel)
    ctx.cover('end')


@R.case('random_any', covers=('end',), bounds='the random strategy over 4 instances')
def random_any(ctx):
    """Every subset of the requested size is a possible outcome; the draw decides which."""
    X, y = data(8)
    unl = [6, 0, 4, 7]
    batch = ctx.index('batch', 1, 3)
    want = [unl[i] for i in range(4) if ctx.flag('w%d' % i)]
    if len(want) != batch:
        return
    order = want + [u for u in unl if u not in want]
    ctx.script[0] = lambda n: [unl.index(o) for o in order]
    sel = as_list(Q.QueryInstanceRandom(X, y).select([1], unl, batch_size=batch))
    ctx.check(len(ctx.draws) == 1, 'one draw')
    ctx.check(len(sel) == batch and set(sel) <= set(unl), 'a selection of the requested size')
    ctx.cover('end')
