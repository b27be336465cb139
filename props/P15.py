"""P15 Strategies that weigh representativeness select what their definition says."""
import itertools
import sys
import types
import numpy as np
from sx.case import Registry, Th
from sx.engine import And, Or, Not, Implies, Iff, Eq, Close, In, Distinct, Sum, Ite, Max, Min, Abs
from props.qs import Table, data, form, valid, optimal, simplex, snapshot, as_list
from alipy.query_strategy import query_labels as Q

R = Registry()
TRAIN = [6, 0, 4, 2, 7, 3, 5]


# ------------------------------------------------------------------ core-set
def sym_dist(ctx, n):
    d = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            d[i][j] = d[j][i] = ctx.real('d_%d_%d' % (j, i), 0, 8)
    return d


def dist_stub(ctx, d, log=None):
    """pairwise distances by the positions kept in the first feature."""
    def f(X, Y=None, metric='euclidean', **k):
        a = [int(r[0]) for r in np.asarray(X).tolist()]
        b = a if Y is None else [int(r[0]) for r in np.asarray(Y).tolist()]
        if log is not None:
            log.append(metric)
        return ctx.arr([[d[i][j] for j in b] for i in a])
    return f


@R.family('coreset', [(2, 1, 1), (3, 1, 1), (2, 2, 1), (3, 1, 2), Th(3, 2, 1), Th(4, 1, 1), Th(3, 2, 2)], budget=90, covers=('end',),
          bounds='n unlabeled and l labeled instances, arbitrary symmetric distances, every batch size, r rounds of selecting and labeling')
def coreset(ctx, n, l, rounds):
    idx = TRAIN[:n + l]
    X, y = data(8)
    d = sym_dist(ctx, n + l)
    dm = [[0] * 8 for _ in range(8)]
    for a, i in enumerate(idx):
        for b, j in enumerate(idx):
            dm[i][j] = d[a][b]
    ctx.patch(Q, 'pairwise_distances', dist_stub(ctx, dm))
    st = Q.QueryInstanceCoresetGreedy(X, y, np.array(idx) if ctx.flag('array') else list(idx))
    lab, unl = idx[1:1 + l], [idx[0]] + idx[1 + l:]
    for r in range(rounds):
        if len(unl) < 2:
            break
        batch = ctx.index('batch%d' % r, 1, len(unl) - 1)
        s = valid(ctx, st.select(list(lab), list(unl), batch_size=batch), unl, batch)
        cen = list(lab)
        for i in s:
            for j in unl:
                if j not in cen and j != i:
                    ctx.check(Min([dm[i][c] for c in cen]) >= Min([dm[j][c] for c in cen]) - 1e-9, 'each selected instance is the one farthest from the labeled and already selected ones', selected=s)
            cen.append(i)
        lab, unl = lab + s, [u for u in unl if u not in s]
    ctx.cover('end')


# ------------------------------------------------------------------ density weighted uncertainty
def info(ctx, measure, row):
    import alipy.query_strategy.query_labels as m
    if measure == 'least_confident':
        return 1 - Max(row)
    if measure == 'margin':
        return 1 - Max(row) + Max([Min([a, b]) for i, a in enumerate(row) for b in row[i + 1:]])
    return -Sum([p * m.np.log(p + 1e-9) for p in row])


@R.family('density_weighted', [('least_confident', 3, 1), ('margin', 3, 1), ('entropy', 2, 1), ('least_confident', 2, 2), Th('least_confident', 4, 1), Th('margin', 4, 1), Th('entropy', 3, 1)],
          budget=90, covers=('end',), validate=8, bounds='n unlabeled instances, 2 classes, arbitrary probabilities, distances from a grid, exponent beta')
def density_weighted(ctx, measure, n, beta):
    unl = TRAIN[:n]
    X, y = data(8)
    pv = simplex(ctx, 'p', n, 2)
    if measure == 'entropy':
        for r in pv:
            for p in r:
                ctx.assume(p >= 0.01)
    grid = [1.0, 3.0]
    dm = [[0.0] * 8 for _ in range(8)]
    for a, i in enumerate(unl):
        for j in unl[:a]:
            dm[i][j] = dm[j][i] = ctx.choice('d_%d_%d' % (i, j), grid)
    ctx.patch(Q, 'pairwise_distances', dist_stub(ctx, dm))
    st = Q.QueryInstanceDensityWeighted(X, y, uncertainty_meansure=measure, beta=float(beta))
    batch = ctx.index('batch', 1, n - 1)
    if ctx.flag('model'):
        tab = [[0.5, 0.5]] * 8
        for u, r in zip(unl, pv):
            tab[u] = r
        sel = st.select([1], list(unl), batch_size=batch, model=Table(ctx, tab))
    else:
        sel = st.select([1], list(unl), batch_size=batch, proba_prediction=ctx.arr(pv))
    s = valid(ctx, sel, unl, batch)
    sc = {u: info(ctx, measure, r) * (sum(dm[u][w] for w in unl) / float(n)) ** beta for u, r in zip(unl, pv)}
    optimal(ctx, s, unl, sc, tol=1e-6)
    ctx.cover('end')


# ------------------------------------------------------------------ graph density
def ring(X, k, **kw):
    """The neighbour graph: row k and k+1 are neighbours (the first and the last too)."""
    import scipy.sparse as sp
    N = len(X)
    c = np.zeros((N, N))
    for i in range(N):
        c[i, (i + 1) % N] = c[(i + 1) % N, i] = 1.0
    return sp.csr_matrix(c)


@R.family('graph_density', [(3, 1, 1, -4), (3, 1, 2, -4), (4, 1, 1, 0.01), Th(4, 1, 1, -4), Th(4, 1, 2, 0.01), Th(5, 1, 1, 0.01), Th(4, 2, 1, -4)], budget=90, covers=('end',),
          bounds='n unlabeled and l labeled instances, arbitrary densities (from the given value, negative as earlier rounds leave them) on a fixed neighbour graph, every batch size, r rounds of selecting and labeling')
def graph_density(ctx, n, l, rounds, low):
    idx = TRAIN[:n + l]
    N = n + l
    X, y = data(8)
    ctx.patch(Q, 'kneighbors_graph', ring)
    st = Q.QueryInstanceGraphDensity(X, y, np.array(idx) if ctx.flag('array') else list(idx))
    # the densities are those after arbitrary earlier rounds, which can have made them negative
    g = ctx.reals('g', N, low, 4)
    st.graph_density = ctx.arr(list(g))
    st.starting_density = ctx.arr([v + 0.5 + k for k, v in enumerate(g)])
    cur = dict(zip(idx, g))
    lab, unl = idx[1:1 + l], [idx[0]] + idx[1 + l:]
    nb = {idx[k]: [idx[(k + 1) % N], idx[k - 1]] for k in range(N)}
    for r in range(rounds):
        if len(unl) < 2:
            break
        batch = ctx.index('batch%d' % r, 1, len(unl) - 1)
        s = valid(ctx, st.select(list(lab), list(unl), batch_size=batch), unl, batch)
        # the greedy selection: the densest first, its neighbours lose its density
        left = list(unl)
        order = []
        rest = list(s)
        while rest:
            # the one of the selected ones that is densest now goes first
            top = [i for i in rest if bool(And([cur[i] >= cur[j] for j in rest]))]
            i = top[0]
            for j in left:
                ctx.check(cur[i] >= cur[j] - 1e-9, 'each selected instance is the densest one left', selected=s)
            for q in nb[i]:
                cur[q] = cur[q] - cur[i]
            rest.remove(i)
            left.remove(i)
        lab, unl = lab + s, left
    ctx.cover('end')


@R.case('graph_density_values', covers=('end',), bounds='densities of 12 fixed points')
def graph_density_values(ctx):
    import math
    k = ctx.index('k', 0, 2)
    pts = np.array([[((3 + k) * i * i) % 17, (5 * i + k) % 7] for i in range(12)], dtype=float)
    idx = np.arange(12)
    st = Q.QueryInstanceGraphDensity(pts, np.arange(12) % 2, idx)
    d = [[abs(pts[i][0] - pts[j][0]) + abs(pts[i][1] - pts[j][1]) for j in range(12)] for i in range(12)]
    got = st.to_dict()['graph_density']
    con = st.to_dict()['connectivity']
    for i in range(12):
        near = set()
        for j in range(12):
            if i != j:
                # j is among the 10 nearest of i or i among those of j: all but the farthest one
                far_i = max(d[i][q] for q in range(12) if q != i)
                far_j = max(d[j][q] for q in range(12) if q != j)
                if d[i][j] < far_i or d[j][i] < far_j:
                    near.add(j)
        w = [con[i, j] for j in range(12) if con[i, j] > 0]
        ctx.check(near <= set(j for j in range(12) if con[i, j] > 0), 'an instance is connected to its nearest neighbours, both ways')
        ctx.check(Close([con[i, j] for j in range(12) if con[i, j] > 0], [math.exp(-d[i][j] / 2.0) for j in range(12) if con[i, j] > 0], 1e-9), 'with the gaussian weight of their distance')
        ctx.check(Close(got[i], sum(w) / len(w), 1e-9), 'and its density is the mean weight')
    ctx.cover('end')


# ------------------------------------------------------------------ QUIRE
def kmat(k, n):
    pts = [[(2 * i + k * i * i) % 7, (3 * i + k) % 5] for i in range(n)]
    import math
    return [[math.exp(-0.1 * sum((a - b) ** 2 for a, b in zip(p, q))) for q in pts] for p in pts]


@R.family('quire', [(3, 2), (2, 3), (4, 2), Th(4, 3), Th(5, 3)], budget=90, covers=('end',),
          bounds='n unlabeled and l labeled instances, arbitrary labels -1 or 1, three kernel matrices, two values of lambda')
def quire(ctx, n, l):
    N = n + l
    idx = TRAIN[:N]
    X, _ = data(8)
    k = ctx.index('kernel', 0, 2)
    lam = ctx.choice('lam', [1.0, 0.25])
    K = kmat(k, N)
    ys = [ctx.int('y%d' % i, -1, 1) for i in range(l)]
    for v in ys:
        ctx.assume(Not(v == 0))
    y = [1] * 8
    lab, unl = idx[:l], idx[l:]
    for i, v in zip(lab, ys):
        y[i] = v

    def kernel(X, Y):
        return np.array(K)
    st = Q.QueryInstanceQUIRE(X, ctx.arr(y), np.array(idx) if ctx.flag('array') else list(idx), kernel=kernel, **{'lambda': lam})
    s = as_list(st.select(list(lab), list(unl)))
    ctx.check(len(s) == 1 and s[0] in unl, 'one unlabeled instance is selected', got=s)
    # the definition, with plain inverses of the blocks of L
    Kn = np.array(K)
    L = np.linalg.inv(Kn + lam * np.eye(N))
    pos = {i: p for p, i in enumerate(idx)}
    ui, li = [pos[i] for i in unl], [pos[i] for i in lab]
    det = np.linalg.det(L[np.ix_(ui, ui)])
    ev = {}
    for i in unl:
        p = pos[i]
        u = [q for q in ui if q != p]
        coef = L[p, li] - L[p, u].dot(np.linalg.inv(L[np.ix_(u, u)])).dot(L[np.ix_(u, li)]) if u else L[p, li]
        t = Sum([float(c) * v for c, v in zip(coef, ys)])
        ev[i] = float(L[p, p] - det / L[p, p]) + 2 * Abs(t)
    optimal(ctx, s, unl, ev, best=min, tol=1e-7)
    ctx.cover('end')


# ------------------------------------------------------------------ LAL
class Forest(object):
    def __init__(self, ctx, log):
        self.log = log
        self.oob_score_ = 0.75
        self.feature_importances_ = np.array([0.25, 0.75])
        self.estimators_ = []
        for t in range(2):
            e = types.SimpleNamespace()
            e.tree_ = types.SimpleNamespace(max_depth=3 + 2 * t)
            e.predict_proba = (lambda t: lambda X: np.array([[(r[0] + 1) / 20.0 + 0.01 * t * (r[0] + 1), 0.0] for r in np.asarray(X).tolist()]))(t)
            self.estimators_.append(e)

    def fit(self, X, y):
        self.log.append(([int(r[0]) for r in np.asarray(X).tolist()], [int(v) for v in y]))


@R.family('lal', [(3,), Th(4)], covers=('end',), bounds='n unlabeled instances, arbitrary predictions of the regressor, a fixed forest')
def lal(ctx, n):
    unl, lab = TRAIN[:n], [1, 5]
    X, y = data(8)
    st = Q.QueryInstanceLAL(X, y, train_slt=False, cls_est=2)
    ctx.check(ctx.raises(ValueError, st.select, lab, unl), 'without a trained regressor the selection is refused')
    log, feats = [], []
    st.model = Forest(ctx, log)
    red = ctx.reals('r', n, -2, 2)
    tab = dict(zip(unl, red))

    class Reg(object):
        def predict(self, F):
            rows = np.asarray(F).tolist()
            feats.extend(rows)
            return ctx.arr([tab[int(round(r[0] / 0.055)) - 1] for r in rows])
    st._selector = Reg()
    batch = ctx.index('batch', 1, n - 1)
    fu = form(ctx, 'fu', unl)
    unl = snapshot(fu)
    s = valid(ctx, st.select(form(ctx, 'fl', lab), fu, batch_size=batch), unl, batch)
    optimal(ctx, s, unl, tab)
    ctx.check(log == [(lab, [int(y[i]) for i in lab])], 'the forest is trained on the labeled instances')
    for u, f in zip(unl, feats):
        a, b = (u + 1) / 20.0, (u + 1) / 20.0 + 0.01 * (u + 1)
        std = abs(a - b) / 2
        mstd = sum(0.005 * (w + 1) for w in unl) / n
        pos = sum(1 for i in lab if y[i] > 0) / 2.0
        ctx.check(Close([float(v) for v in f], [(a + b) / 2, std, pos, 0.75, 0.125, mstd, 4.0, 2.0], 1e-9), 'the features of the learning state are those LAL is defined on', got=f)
    ctx.cover('end')


# ------------------------------------------------------------------ BMDR and SPAL with a stand-in for the QP solver
class Expr(object):
    """A quadratic function of the variable: x'Qx + l'x + c."""
    __array_ufunc__ = None

    def __init__(self, n, Q=None, l=None, c=0.0):
        self.n = n
        self.Q = np.zeros((n, n)) if Q is None else Q
        self.l = np.zeros(n) if l is None else l
        self.c = c

    def _coerce(self, o):
        if isinstance(o, Expr):
            return o
        if isinstance(o, Vec):
            raise TypeError('a vector where a scalar is expected')
        return Expr(self.n, c=float(o))

    def __add__(self, o):
        o = self._coerce(o)
        return Expr(self.n, self.Q + o.Q, self.l + o.l, self.c + o.c)
    __radd__ = __add__

    def __mul__(self, o):
        o = float(o)
        return Expr(self.n, self.Q * o, self.l * o, self.c * o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * (1.0 / o)

    def __neg__(self):
        return self * -1.0

    def __sub__(self, o):
        return self + (-self._coerce(o))

    def __rsub__(self, o):
        return (-self) + o

    def __eq__(self, o):
        return [('eq', self - o)]

    def __le__(self, o):
        return [('le', self - o)]

    def __ge__(self, o):
        return [('le', (-self) + o)]

    def __hash__(self):
        return 1


class Vec(object):
    """A vector of affine functions of the variable: Ax + b."""
    __array_ufunc__ = None

    def __init__(self, n, A, b):
        self.n, self.A, self.b = n, A, b

    def rows(self):
        return [Expr(self.n, l=self.A[i], c=self.b[i]) for i in range(len(self.b))]

    def __len__(self):
        return len(self.b)

    @property
    def shape(self):
        return (len(self.b),)

    @property
    def T(self):
        return self

    def __iter__(self):
        return iter(self.rows())

    def __getitem__(self, i):
        return self.rows()[i]

    def __rmatmul__(self, o):
        o = np.asarray(o, dtype=float)
        if o.ndim == 1:
            return Expr(self.n, l=o.dot(self.A), c=float(o.dot(self.b)))
        return Vec(self.n, o.dot(self.A), o.dot(self.b))

    def __matmul__(self, o):
        if isinstance(o, Vec):
            return Expr(self.n, self.A.T.dot(o.A), self.A.T.dot(o.b) + o.A.T.dot(self.b), float(self.b.dot(o.b)))
        return self.__rmatmul__(np.asarray(o).T)

    def __mul__(self, o):
        o = np.asarray(o, dtype=float)
        return Vec(self.n, (self.A.T * o).T, self.b * o)
    __rmul__ = __mul__

    def __neg__(self):
        return self * -1.0

    def __add__(self, o):
        if isinstance(o, Vec):
            return Vec(self.n, self.A + o.A, self.b + o.b)
        return Vec(self.n, self.A, self.b + np.asarray(o, dtype=float))
    __radd__ = __add__

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __le__(self, o):
        return [('le', e) for e in (self - o).rows()]

    def __ge__(self, o):
        return [('le', e) for e in ((-self) + o).rows()]

    def __eq__(self, o):
        return [('eq', e) for e in (self - o).rows()]

    def __hash__(self):
        return 1


class QP(object):
    """Stands in for cvxpy: records every problem, solve() gives the weights planned for that round."""
    OSQP, ECOS = 'OSQP', 'ECOS'
    plan = None
    rounds = 0
    asked = None      # the problems solved: (objective, constraints, solver)
    fails = 'no'

    class error(object):
        class DCPError(Exception):
            pass

    class Variable(Vec):
        def __init__(self, n, **kw):
            n = n[0] if isinstance(n, tuple) else n
            Vec.__init__(self, n, np.eye(n), np.zeros(n))
            self.value = None
            QP.last = self

    @staticmethod
    def Minimize(e):
        return e

    @staticmethod
    def Maximize(e):
        return -e

    @staticmethod
    def quad_form(x, P):
        P = np.asarray(P, dtype=float)
        return Expr(x.n, x.A.T.dot(P).dot(x.A), x.A.T.dot(P + P.T).dot(x.b), float(x.b.dot(P).dot(x.b)))

    @staticmethod
    def sum(x):
        return np.ones(len(x)) @ x

    @staticmethod
    def sum_squares(x):
        return x @ x

    @staticmethod
    def multiply(a, b):
        return b * a if isinstance(b, Vec) else a * b

    class Problem(object):
        def __init__(self, obj, cons=()):
            self.obj, self.cons = obj, [c for group in cons for c in group]

        def solve(self, solver=None, gp=False, **kw):
            QP.asked.append((self.obj, self.cons, solver))
            if QP.fails != 'no' and len(QP.asked) == 1:
                if QP.fails == 'refused':
                    raise QP.error.DCPError('not convex')
                QP.last.value = None
                return float('inf')
            QP.last.value = np.array(list(QP.plan(QP.rounds)))
            QP.rounds += 1
            return 1.0


class solver(object):
    """Lets the strategies import the stand-in."""
    def __init__(self, plan, fails='no'):
        QP.plan, QP.rounds, QP.asked, QP.fails = plan, 0, [], fails

    def __enter__(self):
        mod = types.ModuleType('cvxpy')
        for k in ('OSQP', 'ECOS', 'error', 'Variable', 'Minimize', 'Maximize', 'quad_form', 'sum', 'sum_squares', 'multiply', 'Problem'):
            setattr(mod, k, getattr(QP, k))
        self.old = sys.modules.get('cvxpy')
        sys.modules['cvxpy'] = mod

    def __exit__(self, *a):
        if self.old is None:
            del sys.modules['cvxpy']
        else:
            sys.modules['cvxpy'] = self.old


def near(a, b, tol=1e-7):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.max(np.abs(b)))))


def mmd(K, lab, unl, b):
    """Quadratic and linear part of the maximum mean discrepancy between labeled + queried and all instances, times n / 2."""
    l, u = len(lab), len(unl)
    KUU, KLU = K[np.ix_(unl, unl)], K[np.ix_(lab, unl)]
    return KUU / 2.0, ((u - b) * KLU.sum(axis=0) - (l + b) * KUU.sum(axis=0)) / float(l + u)


def worst_loss(f):
    return f * f + 2 * np.abs(f)


def same_problem(ctx, asked, Q, l, eq):
    """The objective is the stated one (up to scale and constant) and so are the constraints; eq: (weights, sum) or None."""
    obj, cons, _ = asked
    n = len(l)
    S = (obj.Q + obj.Q.T) / 2
    k = S[0][0] / Q[0][0]
    ctx.check(k > 0 and near(S, k * Q) and near(obj.l, k * l), 'the objective is the one the method is defined by', got=[(S / k).tolist(), (obj.l / k).tolist()], expected=[Q.tolist(), l.tolist()])
    want = [('le', (e * s).tolist(), -c) for e in np.eye(n) for s, c in ((-1.0, 0.0), (1.0, 1.0))]
    have = [(k, e.l.tolist(), e.c) for k, e in cons if k == 'le']
    ctx.check(len(have) == len(want) and all(any(near(w[1], h[1]) and near([w[2]], [h[2]]) for h in have) for w in want), 'every weight is between 0 and 1', got=have)
    have = [(e.l, e.c) for k, e in cons if k == 'eq']
    if eq is None:
        ctx.check(not have, 'the sum of the weights is not constrained')
    else:
        ctx.check(len(have) == 1 and (near(have[0][0], eq[0]) and near([have[0][1]], [-eq[1]]) or near(-have[0][0], eq[0]) and near([have[0][1]], [eq[1]])),
                  'the weights sum up to the batch size', got=[(a.tolist(), b) for a, b in have])


FITTED = {}  # (the kernel matrix is always the same)


def fitted(K, lab, y, pts, weights, gamma):
    """The model minimising (y - f)^2 on the labeled + gamma |f|^2 + weights * worst loss on the points (by ADMM to high accuracy)."""
    w, rho = np.asarray(weights, dtype=float), 1.0
    key = (tuple(lab), tuple(pts), tuple(y.tolist()), tuple(w.tolist()), gamma)
    if key in FITTED:
        return FITTED[key]
    KLL, KLQ = K[np.ix_(lab, lab)], K[np.ix_(lab, pts)]
    inv = np.linalg.inv(2 * KLL.dot(KLL) + rho * KLQ.dot(KLQ.T) + 2 * gamma * KLL)
    z, d = np.zeros(len(pts)), np.zeros(len(pts))
    for _ in range(500):
        t = inv.dot(2 * KLL.dot(y) + KLQ.dot(rho * z + d))
        f = t.dot(KLQ)
        v = rho * f - d
        new = np.sign(v) * np.maximum(np.abs(v) - 2 * w, 0) / (rho + 2 * w)
        step = np.max(np.abs(new - z)) + np.max(np.abs(new - f))
        z = new
        d = d + rho * (z - f)
        if step < 1e-7:
            break
    FITTED[key] = t
    return t


def qp_world(ctx, cls, labels, **kw):
    X, _ = data(8)
    bits = [1, 0, 1, 1, 1, 0, 0, 1]
    y = [{'bits': (0, 1), 'signs': (-1, 1), 'classes': (3, 7)}[labels][b] for b in bits]
    y = y if labels == 'bits' else np.array(y)
    st = cls(X, y, kernel='rbf', gamma_ker=0.2, **kw)
    K = np.exp(-0.2 * ((X[:, None, :] - X[None, :, :]) ** 2).sum(axis=2))
    return y, st, K, np.array([2.0 * b - 1 for b in bits])


def first_subsets(w, batch, accept):
    """The weights make one of the accepted subsets the best one."""
    n = len(w)
    return Or(*[And(*[w[i] >= w[j] - 1e-9 for i in S for j in range(n) if j not in S]) for S in itertools.combinations(range(n), batch) if accept(list(S))])


@R.family('bmdr', [(3, 'bits', 'no'), (3, 'signs', 'infeasible'), (3, 'classes', 'refused')], budget=120, covers=('end',), validate=10, bounds='n unlabeled and 3 labeled instances, arbitrary weights found by the QP solver in the first two rounds, the later rounds repeat the second')
def bmdr(ctx, n, labels, fails):
    unl, lab = TRAIN[:n], [1, 5, 3]
    w = [ctx.reals('w%d' % r, n, 0, 1) for r in range(2)]
    with solver(lambda r: w[min(r, 1)], fails):
        y, st, K, signed = qp_world(ctx, Q.QueryInstanceBMDR, labels, beta=10, gamma=0.3)
        before = list(y)
        batch = ctx.index('batch', 1, n - 1)
        which = 'OSQP' if labels == 'signs' else 'ECOS'
        s = valid(ctx, st.select(list(lab), list(unl), batch_size=batch, qp_solver=which), unl, batch)
        optimal(ctx, s, unl, dict(zip(unl, w[min(QP.rounds - 1, 1)])))
    ctx.check(2 <= QP.rounds <= 17, 'the selection is repeated until it is stable')
    ctx.check(all(a[2] == which for a in QP.asked), 'the solver asked for is used')
    ctx.check(list(y) == before, "the caller's labels are not changed")
    # the problem of the first two rounds is the one the method is defined by
    Q2, l2 = mmd(K, lab, unl, batch)
    KLL, KLU, yl = K[np.ix_(lab, lab)], K[np.ix_(lab, unl)], signed[lab]
    loss = worst_loss(np.linalg.solve(KLL + 0.3 * np.eye(3), yl).dot(KLU))
    step = 1 if fails == 'no' else 2
    for i, a in enumerate(QP.asked[:step]):
        same_problem(ctx, a, 10 * Q2, 10 * l2 + loss, (np.ones(n), batch) if i == 0 else None)
    a = QP.asked[step]
    loss = a[0].l / (a[0].Q[0][0] / (10 * Q2[0][0])) - 10 * l2
    same_problem(ctx, a, 10 * Q2, 10 * l2 + loss, (np.ones(n), batch))
    ctx.check(first_subsets(w[0], batch, lambda S: near(worst_loss(fitted(K, lab, yl, [unl[i] for i in S], np.ones(batch), 0.3).dot(KLU)), loss, 0.1)),
              'the later rounds weigh the instances by the model fitted to the labeled and the queried ones', got=loss.tolist())
    ctx.cover('end')


@R.family('spal', [(3, 'bits'), (3, 'signs'), Th(4, 'classes')], covers=('end',), validate=10, bounds='n unlabeled and 3 labeled instances, weights found by the QP solver in the first two rounds on a grid, the later rounds repeat the second')
def spal(ctx, n, labels):
    unl, lab = TRAIN[:n], [1, 5, 3]
    w = [[[0.1, 0.5, 0.9][ctx.index('w%d_%d' % (r, i), 0, 2 if i < 2 else 0)] if r == 0 else [0.9, 0.1, 0.4, 0.6][(i + turn) % n] for i in range(n)] for turn in [ctx.index('turn', 0, n - 1)] for r in range(2)]
    lam = ctx.choice('lam', [0.1, 0.7, 1e9])
    fails = ctx.choice('fails', ['no', 'infeasible'])
    with solver(lambda r: w[min(r, 1)], fails):
        y, st, K, signed = qp_world(ctx, Q.QueryInstanceSPAL, labels, mu=2, gamma=0.3, lambda_init=lam)
        before = list(y)
        batch = ctx.index('batch', 1, n - 1)
        which = 'OSQP' if labels == 'signs' else 'ECOS'
        s = valid(ctx, st.select(list(lab), list(unl), batch_size=batch, qp_solver=which), unl, batch)
    ctx.check(2 <= QP.rounds <= 17, 'the selection is repeated until it is stable')
    ctx.check(all(a[2] == which for a in QP.asked), 'the solver asked for is used')
    ctx.check(list(y) == before, "the caller's labels are not changed")
    Q2, l2 = mmd(K, lab, unl, batch)
    KLL, KLU, yl = K[np.ix_(lab, lab)], K[np.ix_(lab, unl)], signed[lab]
    loss = worst_loss(np.linalg.solve(KLL + 0.3 * np.eye(3), yl).dot(KLU))
    step = 1 if fails == 'no' else 2
    for i, a in enumerate(QP.asked[:step]):
        same_problem(ctx, a, 2 * Q2, 2 * l2 + loss, (np.ones(n), batch) if i == 0 else None)
    # the second round: easiness by the losses of the first, model fitted with the weights of the first
    x = np.array(w[0])
    easy = np.where(x * loss < lam, 1 - x * loss / lam, 0.0)
    mix = x * easy
    t = fitted(K, lab, yl, unl, np.where(mix > 0.001, mix, 0.0), 0.3)
    if np.max(mix) > 0.001:
        a = QP.asked[step]
        loss2 = a[0].l / (a[0].Q[0][0] / (2 * Q2[0][0])) - 2 * l2
        same_problem(ctx, a, 2 * Q2, 2 * l2 + loss2, (easy, batch))
        ctx.check(near(loss2, easy * worst_loss(t.dot(KLU)), 0.1), 'the later rounds weigh the instances by their easiness and the model fitted to the labeled and the queried ones', got=loss2.tolist(), expected=(easy * worst_loss(t.dot(KLU))).tolist())
    if QP.rounds == 2:
        # (the selection of the second round is the one returned; its losses are those of the second problem)
        full = worst_loss(t.dot(KLU))
        x = np.array(w[1])
        score = x * np.where(x * full < lam, 1 - x * full / lam, 0.0)
        optimal(ctx, s, unl, dict(zip(unl, [float(v) for v in score])), tol=0.02)
    if lam > 1:
        # (every instance is easy: only the weights count)
        optimal(ctx, s, unl, dict(zip(unl, w[min(QP.rounds - 1, 1)])), tol=1e-6)
    ctx.cover('end')
