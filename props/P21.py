"""P21 The multi-label strategies select unlabeled pairs or instances by their definition."""
import numpy as np
from sx.case import Registry, Th
from sx.engine import And, Or, Not, Implies, Iff, Eq, Close, In, Distinct, Sum, Ite, Max, Min, Abs
from props.qs import data, snapshot
from alipy.index.index_collections import IndexCollection, MultiLabelIndexCollection
from alipy.query_strategy import multi_label as Q
from alipy.query_strategy import query_type as T
from sklearn.linear_model import LogisticRegression
from sklearn.svm import SVC

R = Registry()
INF = float('inf')


def codes(ps, n):
    return [j * n + i for i, j in ps]


def forms(ctx, name, ps, n, m, kinds=('collection', 'tuples', 'codes', 'code list')):
    k = ctx.choice(name, kinds)
    if k == 'tuples':
        return list(ps)
    if k == 'codes':
        return np.array(codes(ps, n))
    if k == 'code list':
        return codes(ps, n)
    return MultiLabelIndexCollection(list(ps), label_size=m)


def as_pairs(sel):
    return [tuple(int(v) for v in p) for p in sel]


def once(ctx, name, make):
    """The input of that name, created where it is first used."""
    d = ctx.__dict__.setdefault('made', {})
    if name not in d:
        d[name] = make(name)
    return d[name]


def content(x):
    return sorted(x.index) if isinstance(x, (IndexCollection, MultiLabelIndexCollection)) else [tuple(v) if isinstance(v, tuple) else int(v) for v in x]


# ------------------------------------------------------------------ QUIRE
def kmat(k, n):
    import math
    g, k = [(0.02, 1), (0.02, 3), (0.1, 5)][k]
    pts = [[(2 * i + k * i * i) % 7, (3 * i + k) % 5] for i in range(n)]
    return [[math.exp(-g * sum((a - b) ** 2 for a, b in zip(p, q))) for q in pts] for p in pts]


@R.family('quire', [(2, 2), (3, 3), Th(4, 4), Th(5, 5)], budget=100, covers=('end',), bounds='n unlabeled, l labeled pairs of 4 instances and 3 labels, arbitrary labels -1 or 1, three kernel matrices, two values of lambda')
def quire(ctx, n, l):
    N, m = 4, 3
    X, _ = data(N)
    k = ctx.index('kernel', 0, 2)
    lam = ctx.choice('lam', [1.0, 0.25])
    K = kmat(k, N)
    lab = [(3, 2), (0, 2), (2, 0), (1, 1), (0, 0)][:l]
    unl = [(2, 2), (1, 2), (0, 1), (3, 1), (1, 0)][:n]
    ys = {}
    y = [[1] * m for _ in range(N)]
    for p in lab:
        v = ctx.int('y%d_%d' % p, -1, 1)
        ctx.assume(Not(v == 0))
        ys[p] = y[p[0]][p[1]] = v
    st = Q.QueryMultiLabelQUIRE(X, ctx.arr(y), kernel=lambda X, Y: np.array(K), **{'lambda': lam})
    fl, fu = (forms(ctx, 'fl', lab, N, m), forms(ctx, 'fu', unl, N, m)) if n == 2 else (MultiLabelIndexCollection(lab, label_size=m), list(unl))
    s = as_pairs(st.select(fl, fu))
    ctx.check(len(s) == 1 and s[0] in unl, 'one unlabeled pair is selected', got=s)
    L1 = np.linalg.inv(np.array(K) + lam * np.eye(N))
    L = lambda p, q: float(L1[p[0], q[0]]) if p[1] == q[1] else 0.0
    ev = {}
    for p in unl:
        u = [q for q in unl if q != p]
        A = np.linalg.inv(np.array([[L(a, b) for b in u] for a in u]))
        v = [Sum([L(a, b) * ys[b] for b in lab]) for a in u]
        w = [L(p, a) for a in u]
        vp = Sum([L(p, b) * ys[b] for b in lab])
        best = None
        for c in (1, -1):
            # the labels of the rest minimise the objective, the label of the pair maximises it
            z = [a + c * b for a, b in zip(v, w)]
            t = L(p, p) + 2 * c * vp - Sum([float(A[i, j]) * z[i] * z[j] for i in range(len(u)) for j in range(len(u)) if A[i, j]])
            best = t if best is None else Max([best, t])
        ev[p] = best
    for q in unl:
        ctx.check(ev[s[0]] <= ev[q] + 1e-6, 'the selected pair minimises the min-max objective', got=s)
    ctx.cover('end')


# ------------------------------------------------------------------ AUDI and AURO
class Ranker(Q.LabelRankingModel):
    """A label ranking model with given outputs."""
    ctx = None
    fits = None
    m = 0
    plain = False     # the predicted labels do not matter

    def __init__(self, *a, **k):
        self._init_flag = True

    def fit(self, X, y, *a, **k):
        Ranker.fits.append(([int(r[0]) for r in np.asarray(X).tolist()], [[float(v) for v in r] for r in np.asarray(y).tolist()]))

    def predict(self, X):
        rows = [int(r[0]) for r in np.asarray(X).tolist()]
        c = Ranker.ctx
        return c.arr([Ranker.pres(r) for r in rows]), np.array([Ranker.labels(r) for r in rows])

    @staticmethod
    def pres(r):
        return [once(Ranker.ctx, 'p%d_%d' % (r, j), lambda k: Ranker.ctx.real(k, -3, 3)) for j in range(Ranker.m + 1)]

    @staticmethod
    def labels(r):
        if Ranker.plain:
            return [1 if (r + j) % 2 else -1 for j in range(Ranker.m)]
        return [1 if once(Ranker.ctx, 'l%d_%d' % (r, j), Ranker.ctx.flag) else -1 for j in range(Ranker.m)]


def ranker(ctx, m, mods=(Q, T), plain=False):
    Ranker.ctx, Ranker.fits, Ranker.m, Ranker.plain = ctx, [], m, plain
    for mod in mods:
        ctx.patch(mod, 'LabelRankingModel', Ranker)


def fitted_on(ctx, lab, y, N, m):
    """The model was trained on exactly the known labels."""
    want = sorted((i, tuple(float(y[i, j]) if (i, j) in lab else 0.0 for j in range(m))) for i in set(p[0] for p in lab))
    ok = len(Ranker.fits) == 1 and sorted((r, tuple(v)) for r, v in zip(*Ranker.fits[0])) == want
    ctx.check(ok, 'the model is trained on the labeled pairs only', got=str(Ranker.fits)[:200])


@R.family('audi', [(2, 2), (3, 2), (3, 3), Th(5, 2), Th(4, 3)], budget=100, covers=('end', 'known'), bounds='n unlabeled pairs of 5 instances and m labels, arbitrary scores and predicted labels')
def audi(ctx, n, m):
    N = 5
    X, _ = data(N)
    y = np.array([[1, -1, 1], [1, 1, -1], [-1, -1, 1], [1, -1, -1], [-1, 1, -1]])[:, :m]
    unl = [(2, 0), (3, m - 1), (2, 1), (1, 0), (1, 1)][:n]
    lab = [(i, j) for i in range(N) for j in range(m) if (i, j) not in unl]
    ranker(ctx, m)
    eps = ctx.choice('epsilon', [None, 2.0])
    kw = {} if eps is None else {'epsilon': eps}
    fl, fu = (forms(ctx, 'fl', lab, N, m), forms(ctx, 'fu', unl, N, m)) if n == 2 else (MultiLabelIndexCollection(lab, label_size=m), MultiLabelIndexCollection(unl, label_size=m))
    before = content(fl), content(fu)
    mod = ctx.choice('model', ['none', 'trained', 'untrained'])
    if mod != 'none':
        kw['model'] = Ranker()
        kw['model']._init_flag = mod == 'trained'
    s = as_pairs(Q.QueryMultiLabelAUDI(X, y).select(fl, fu, **kw))
    if mod != 'trained':
        fitted_on(ctx, lab, y, N, m)
    ctx.check(len(s) == 1 and s[0] in unl, 'one unlabeled pair is selected', got=s)
    ctx.check((content(fl), content(fu)) == before, 'the index sets are not changed')
    if len(s) == 1 and s[0] in unl:
        full = [i for i in range(N) if all((i, j) in lab for j in range(m))]
        avg = sum(sum(1 for j in range(m) if y[i, j] == 1) for i in full) / float(len(full))
        inc = {}
        for i in set(p[0] for p in unl):
            k = sum(1 for p in unl if p[0] == i)
            inc[i] = abs(sum(1 for v in Ranker.labels(i) if v == 1) - avg) / max(k, 0.5 if eps is None else eps)
        i, j = s[0]
        ctx.check(all(inc[i] >= v - 1e-9 for v in inc.values()), 'of an instance whose number of predicted labels is most inconsistent with the average', got=s, inc=str(inc))
        pr = Ranker.pres(i)
        for q in range(m):
            if (i, q) in unl:
                ctx.check(Abs(pr[j] - pr[m]) <= Abs(pr[q] - pr[m]), 'and the label closest to the dummy label among its unlabeled ones', got=s)
            else:
                ctx.cover('known')
    ctx.cover('end')


PAIRS = {
    'forms': [(3, 1), (2, 0), (2, 2)],
    'one': [(3, 1), (2, 0), (2, 2), (2, 1)],               # one instance, three labels to choose from
    'two': [(1, 2), (2, 1), (1, 0), (3, 0), (2, 0), (2, 2)],  # two and three unlabeled labels
    'three': [(0, 3), (0, 1), (1, 0), (1, 2), (3, 2), (1, 3)],
    'wide': [(2, 3), (2, 0), (2, 1), (2, 2), (0, 1), (0, 2), (0, 3)],
}


@R.family('auro', [('forms', 3), ('one', 3), ('two', 3), ('three', 4), Th('wide', 4)], budget=100, covers=('end',), bounds='five patterns of 3 to 6 unlabeled pairs of 4 instances and m labels, arbitrary scores')
def auro(ctx, pattern, m):
    N = 4
    X, _ = data(N)
    y = np.array([[1, -1, 1, 1], [1, 1, -1, 1], [-1, -1, 1, -1], [1, -1, -1, 1]])[:, :m]
    unl = PAIRS[pattern]
    lab = [(i, j) for i in range(N) for j in range(m) if (i, j) not in unl]
    ranker(ctx, m, plain=pattern != 'forms')
    fl, fu = (forms(ctx, 'fl', lab, N, m), forms(ctx, 'fu', unl, N, m)) if pattern == 'forms' else (MultiLabelIndexCollection(lab, label_size=m), MultiLabelIndexCollection(unl, label_size=m))
    before = content(fl), content(fu)
    mod = ctx.choice('model', ['none', 'trained', 'untrained', 'y_mat'] if m == 3 else ['trained', 'none'])
    kw = {} if mod == 'none' else {'y_mat': -y} if mod == 'y_mat' else {'model': Ranker()}
    if 'model' in kw:
        kw['model']._init_flag = mod == 'trained'
    i, a, b = [int(v) for v in T.QueryTypeAURO(X, y).select(fl, fu, **kw)]
    if mod != 'trained':
        fitted_on(ctx, lab, -y if mod == 'y_mat' else y, N, m)
    ctx.check((content(fl), content(fu)) == before, 'the index sets are not changed')
    ctx.check(a != b and (i, a) in unl and (i, b) in unl, 'two unlabeled labels of one instance are compared', got=(i, a, b))
    if a != b and (i, a) in unl and (i, b) in unl:
        cnt = lambda r: sum(1 for p in unl if p[0] == r)
        ctx.check(all(cnt(i) >= cnt(r) for r in range(N)), 'an instance with the most unlabeled labels is selected', got=i)
        pr = Ranker.pres(i)
        for q in range(m):
            if (i, q) in unl:
                ctx.check(pr[a] >= pr[q], 'the first label is the most relevant unlabeled one', got=(i, a, b))
                if q != a:
                    ctx.check(Abs(pr[b] - pr[m]) <= Abs(pr[q] - pr[m]), 'the second the closest to the dummy label of the others', got=(i, a, b))
    ctx.cover('end')


# ------------------------------------------------------------------ the label ranking model
@R.family('ranking', [(2, 1, 1, 2), (1, 2, 2, 1), (2, 2, 1, 2), Th(2, 2, 2, 2), Th(3, 1, 2, 3)], covers=('end',), bounds='c labels, s sub-models, r instances of d features, arbitrary (real) models and data')
def ranking(ctx, c, s, r, d):
    BV = [ctx.reals('b%d' % i, (c + 1) * s, -2, 2) for i in range(d)]
    Z = [[float((3 * i + 2 * j + 1) % 4 - 1) for j in range(d)] for i in range(r)]
    pres, labels = Q.LabelRankingModel().lr_predict(ctx.arr(BV), np.array(Z), s)
    ctx.check(np.shape(pres) == (r, c + 1) and np.shape(labels) == (r, c), 'a score for every label and the dummy and a prediction for every label are returned')
    for i in range(r):
        f = [Max([Sum([Z[i][q] * BV[q][j * s + t] for q in range(d)]) for t in range(s)]) for j in range(c + 1)]
        for j in range(c + 1):
            ctx.check(Close(pres[i, j], f[j]), 'the score of a label is the maximum of its sub-models')
        for j in range(c):
            ctx.check(Eq(labels[i, j], Ite(f[j] > f[c], 1, -1)), 'exactly the labels ranked above the dummy label are predicted')
    ctx.cover('end')


@R.family('retrain', [('anew', 1, 1), Th('on', 1, 1)], budget=60, covers=('end', 'moved'), bounds='an arbitrary initial model of one dimension fitted twice to r instances (features on a grid) of m labels, the pairs taken in their order')
def retrain(ctx, how, r, m):
    X1, X2 = ([[[-1.0, 0.5, 2.0][ctx.index('%s%d' % (nm, i), 0, 2)]] for i in range(r)] for nm in 'ab')
    y1 = np.array([[1 if (i + j) % 2 else -1 for j in range(m)] for i in range(r)])
    y2 = -y1
    ctx.patch(Q, 'randperm', lambda hi, k=None: np.arange(int(hi) + 1)[:k])
    B0, V0 = [[ctx.real('w%d' % j, -1, 1) for j in range(m + 1)]], [[ctx.real('v', 1, 2)]]

    def fresh():
        M = Q.LabelRankingModel()
        mk = lambda v: ctx.arr([list(x) for x in v])
        M.init_model_train = lambda *a, **k: (mk(B0), mk(V0), mk(B0), mk(V0), 1, 0, np.array([1.0, 1.5, 1.8, 2.1]), np.inf, 0.05, 1, 0, 10, 5, 10, 3)
        return M
    A, C = fresh(), fresh()
    A.fit(ctx.arr(X1), y1, n_repeat=1)
    if how == 'anew':
        A.fit(ctx.arr(X2), y2, n_repeat=1, is_incremental=False)
        C.fit(ctx.arr(X2), y2, n_repeat=1)
    else:
        A.fit(ctx.arr(X2), y2, n_repeat=1, is_incremental=True)
        ini = C.init_model_train()
        st = C.train_model(ctx.arr(X1), y1, *(list(ini[:2]) + list(ini[6:7]) + list(ini[7:10]) + list(ini[2:6]) + list(ini[10:13])))
        st = C.train_model(ctx.arr(X2), y2, st[0], st[1], *(list(ini[6:10]) + list(st[2:6]) + list(ini[10:13])))
        C._B, C._V, C._AB, C._AV, C._Anum, C._trounds = st
    msg = 'a model fitted anew forgets what it was fitted to before' if how == 'anew' else 'a model fitted further goes on from where it was'
    for a, b in ((A._B, C._B), (A._V, C._V), (A._AB, C._AB), (A._AV, C._AV)):
        a, b = np.asarray(a), np.asarray(b)
        ctx.check(a.shape == b.shape, msg)
        for u, v in zip(a.ravel().tolist(), b.ravel().tolist()):
            ctx.check(Close(u, v, 1e-9), msg)
    ctx.check(Eq(A._Anum, C._Anum) if not isinstance(A._Anum, int) else A._Anum == C._Anum, msg)
    if A._trounds != C._trounds or A._trounds:
        ctx.cover('moved')
    ctx.check(A._trounds == C._trounds, msg, got=(A._trounds, C._trounds))
    ctx.cover('end')


# ------------------------------------------------------------------ MMC and Adaptive
class Lazy(object):
    """A classifier: what it predicts is an arbitrary function of the training data and the row."""
    def __init__(self, ctx, known=()):
        self.ctx, self.known = ctx, set(known)

    def __deepcopy__(self, memo):
        return type(self)(self.ctx, self.known)

    __copy__ = lambda self: type(self)(self.ctx, self.known)

    def rows(self, x):
        return [int(r[0]) for r in np.asarray(x).tolist()]

    def fit(self, x, y):
        self.key = order(self.rows(x), np.asarray(y).tolist())
        return self

    def value(self, r):
        return lazy(self.ctx, self.known, self.key, r)

    def predict_proba(self, x):
        if not set(self.rows(x)) & set(self.key[0]):
            Counter.pool = self.rows(x)
        v = [self.value(r) for r in self.rows(x)]
        return self.ctx.arr([[(1 - t) / 2, (1 + t) / 2] for t in v])

    def predict(self, x):
        return np.array([1 if bool(self.value(r) > 0) else self.ctx.neg for r in self.rows(x)])


class LazyMargin(Lazy, LogisticRegression):
    def decision_function(self, x):
        return self.ctx.arr([self.value(r) * 2 for r in self.rows(x)])


class LazySVC(Lazy, SVC):
    def decision_function(self, x):
        return self.ctx.arr([self.value(r) * 2 for r in self.rows(x)])


def order(rows, labels):
    """Whatever the order of the training data."""
    return tuple(zip(*sorted((int(r), int(v)) for r, v in zip(rows, labels))))


def lazy(ctx, known, key, r):
    """Between -0.9 and 0.9 (given for the models retrained with instance 5 where the case says so)."""
    if ctx.__dict__.get('given') == 'later' and len(key[0]) > 3:
        return 0.2 * ((3 * r + len(key[0]) + sum(key[0])) % 4) - 0.3
    if r in known or (ctx.__dict__.get('given') and len(key[0]) > 3 and r == 5):
        return 0.25 * ((r + len(key[0])) % 3) - 0.3
    k = 'v_%s_%s_%d' % (''.join(str(i) for i in key[0]), ''.join('1' if i > 0 else '0' for i in key[1]), r)

    def make(k):
        v = ctx.real(k, -0.9, 0.9)
        ctx.assume(Or([v == 0, v <= -0.01, v >= 0.01]))
        return v
    return once(ctx, k, make)


def relevance(ctx, known, y, rows, j, r, extra=None):
    """The model of label j trained on rows (and one more, labeled) as a number in [-1, 1], given instance r."""
    rs, ls = list(rows), [int(y[i][j]) for i in rows]
    if extra is not None:
        rs, ls = rs + [extra[0]], ls + [extra[1]]
    if len(set(ls)) == 1:
        return 1.0 if ls[0] > 0 else -1.0
    return lazy(ctx, known, order(rs, ls), r)


class Counter(object):
    """Predicts the number of relevant labels."""
    ctx = None
    fits = None
    m = 0
    pool = None

    def __init__(self, **kw):
        pass

    def fit(self, F, counts):
        Counter.fits.append([int(v) for v in np.asarray(counts).tolist()])
        for r in np.asarray(F, dtype=object).tolist():
            Counter.ctx.check(Close(Sum(r), 1), 'the probabilities of an instance are normalised')

    def predict(self, F):
        rows = np.asarray(F, dtype=object).tolist()
        for r in rows:
            Counter.ctx.check(And([a >= b for a, b in zip(r, r[1:])] + [Close(Sum(r), 1)]), 'the probabilities of an instance are sorted and normalised')
        return np.array([int(count(Counter.ctx, len(Counter.fits), i)) for i in Counter.pool])


def count(ctx, rnd, i):
    return once(ctx, 'k%d_%d' % (rnd, i), lambda k: ctx.index(k, 0, Counter.m))


class Draw(np.random.RandomState):
    """Any draw."""
    def choice(self, a, *args, **kw):
        self.n = getattr(self, 'n', 0) + 1
        a = list(range(a)) if isinstance(a, int) else list(a)
        return a[int(Draw.ctx.index('draw%d' % self.n, 0, len(a) - 1))] if len(a) > 1 else a[0]


def ins_forms(ctx, name, ins, m):
    k = ctx.choice(name, ['collection', 'list', 'array', 'pairs'])
    if k == 'list':
        return list(ins)
    if k == 'array':
        return np.array(ins)
    if k == 'pairs':
        return MultiLabelIndexCollection([(i, j) for i in ins for j in range(m)], label_size=m)
    return IndexCollection(list(ins))


def both(ctx, lab, unl, m):
    f = ins_forms(ctx, 'form', lab, m)
    if isinstance(f, IndexCollection) and not isinstance(f, MultiLabelIndexCollection):
        return f, IndexCollection(unl) if ctx.flag('same') else np.array(unl)
    return f, MultiLabelIndexCollection([(i, j) for i in unl for j in range(m)], label_size=m) if isinstance(f, MultiLabelIndexCollection) else list(unl) if isinstance(f, list) else IndexCollection(unl)


def prepare(ctx, n, m, varied, free=True):
    """(X, y, labeled, unlabeled instances): `varied` labels have both values on the labeled ones."""
    Counter.ctx, Counter.fits, Counter.m, Draw.ctx = ctx, [], m, ctx
    X, _ = data(6)
    lab, unl = [1, 4, 3], [5, 0, 2][:n]
    NEG = ctx.neg = ctx.choice('irrelevant', [-1, 0]) if m > 2 and free else -1
    full = [[NEG, 1, NEG], [1, NEG, 1], [1, 1, NEG], [1, 1, NEG], [NEG, 1, NEG], [1, NEG, NEG]]
    y = [r[:m] for r in full]
    for j in range(varied, m):
        v = ctx.choice('constant%d' % j, [1, NEG]) if free else [NEG, 1][j % 2]
        for i in lab:
            y[i][j] = v
    return X, y, lab, unl


def singles(ctx, sel, unl, batch):
    s = list(sel)
    ctx.check(all(isinstance(p, tuple) and len(p) == 1 for p in s), 'the result is a list of instances (as tuples)', got=str(s))
    s = [int(p[0]) if isinstance(p, tuple) else int(p) for p in s]
    ctx.check(len(s) == min(batch, len(unl)) and len(set(s)) == len(s) and set(s) <= set(unl), 'as many distinct unlabeled instances as asked for (or all) are selected', got=s)
    return s


@R.family('mmc', [(2, 2, 1), (2, 2, 2), (2, 3, 1), (3, 1, 1), Th(3, 2, 1), Th(2, 3, 2)], budget=100, covers=('end',),
          bounds='n unlabeled of 6 instances, m labels (v of them not constant), arbitrary classifiers and predicted numbers of labels, batch 1 or 2')
def mmc(ctx, n, m, varied):
    X, y, lab, unl = prepare(ctx, n, m, varied)
    ctx.patch(Q, 'LogisticRegression', Counter)
    st = Q.QueryMultiLabelMMC(X, np.array(y), base_clf=Lazy(ctx, lab), random_state=Draw(0))
    simple = n * m > 4 or varied > 1 or n > 2
    fl, fu = both(ctx, lab, unl, m) if not simple else (IndexCollection(lab), IndexCollection(unl))
    before = content(fl), content(fu)
    batch = ctx.index('batch', 1, 2) if n * m <= 6 and n == 2 else n - 1
    s = singles(ctx, st.select(fl, fu, batch_size=int(batch)), unl, int(batch))
    ctx.check((content(fl), content(fu)) == before, 'the index sets are not changed', got=str((content(fl), content(fu))))
    if int(batch) < n:
        L, U = list(lab), content(fu) if isinstance(fu, MultiLabelIndexCollection) else list(fu)
        if isinstance(fu, MultiLabelIndexCollection):
            U = [int(i) for i in fu.get_unbroken_instances()]
        L = [int(i) for i in fl.get_unbroken_instances()] if isinstance(fl, MultiLabelIndexCollection) else L
        rnd = 0
        for a in s:
            cnt = [sum(1 for v in y[i] if v > 0) for i in L]
            const = len(set(cnt)) == 1
            if not const:
                rnd += 1
                ctx.check(len(Counter.fits) >= rnd and sorted(Counter.fits[rnd - 1]) == sorted(cnt), 'the number of relevant labels is learnt from the labeled instances', got=str(Counter.fits))
            score = {}
            for u in U:
                f = [relevance(ctx, lab, y, L, j, u) for j in range(m)]
                k = cnt[0] if const else int(count(ctx, rnd, u))
                # the k most relevant labels are predicted
                pr = sort_desc([(1 + x) / 2 for x in f])
                score[u] = Sum([1 - x for x in pr[:k]]) + Sum(pr[k:])
            for u in U:
                ctx.check(score[a] >= score[u] - 1e-9, 'the loss reduction of the selected instance is maximal', got=s)
            L, U = L + [a], [u for u in U if u != a]
    ctx.cover('end')


def sort_desc(f):
    f = list(f)
    for i in range(len(f)):
        for j in range(i + 1, len(f)):
            a, b = f[i], f[j]
            f[i], f[j] = Max([a, b]), Min([a, b])
    return f


@R.family('adaptive', [(2, 2, 1), (2, 3, 1), (3, 2, 1)], budget=150, covers=('end',),
          bounds='n unlabeled of 6 instances, m labels (v of them not constant), arbitrary classifiers, trade-offs 0, 0.5 and 1, batch 1 (2 for 3 instances)')
def adaptive(ctx, n, m, varied):
    X, y, lab, unl = prepare(ctx, n, m, varied, m == 2)
    ctx.given = 'later' if n > 2 else True
    betas = ctx.choice('betas', [[0.0, 1.0], [0.5], [1.0]]) if n == 2 else [1.0]
    margin = varied == 1 and n == 2 and betas == [0.5]
    st = Q.QueryMultiLabelAdaptive(X, np.array(y), base_clf=((LazySVC if m > 2 or ctx.flag('svc') else LazyMargin) if margin else Lazy)(ctx, lab), betas=betas, random_state=Draw(0))
    fl, fu = both(ctx, lab, unl, m) if n * m <= 4 and varied == 1 and betas == [1.0] else (IndexCollection(lab), list(unl))
    before = content(fl), content(fu)
    batch = 2 if n > 2 else ctx.index('batch', 1, 2) if len(betas) > 1 else 1
    s = singles(ctx, st.select(fl, fu, batch_size=int(batch)), unl, int(batch))
    ctx.check((content(fl), content(fu)) == before, 'the index sets are not changed', got=str((content(fl), content(fu))))
    if int(batch) < n:
        sc = 2 if margin else 1
        L = [int(i) for i in fl.get_unbroken_instances()] if isinstance(fl, MultiLabelIndexCollection) else list(lab)
        U = [int(i) for i in fu.get_unbroken_instances()] if isinstance(fu, MultiLabelIndexCollection) else [int(i) for i in fu]

        def real(j, u, extra=None):
            v = relevance(ctx, lab, y, L, j, u, extra)
            return v if isinstance(v, float) and abs(v) == 1 else v * sc
        for a0 in s:
            avg = sum(sum(y[i]) for i in L) / float(len(L))
            pred, unc, card = {}, {}, {}
            for u in U:
                f = [real(j, u) for j in range(m)]
                pred[u] = [1 if bool(v > 0) else ctx.neg for v in f]
                pos = [v for v in f if bool(v > 0)]
                neg = [v for v in f if bool(v < 0)]
                unc[u] = 1.0 / (Min(pos) - Max(neg)) if pos and neg else 0.0
                card[u] = abs(sum(pred[u]) - avg)
            def best(u, tol, ties):
                r = []
                for b in betas:
                    sco = dict((w, card[w] if b == 0 else unc[w] if b == 1 else unc[w] * card[w]) for w in U)
                    r.append(And([sco[u] >= sco[w] + (0 if ties and b == 0 else tol) for w in U if w != u]))
                return Or(r)
            ctx.check(best(a0, -1e-6, False), 'the selected instance is the best for one of the trade-offs of margin and label cardinality', got=s)
            if len(betas) > 1:
                err = {}
                for a in U:
                    t = []
                    for u in U:
                        f = [real(j, u, (a, pred[a][j])) for j in range(m)]
                        t.append(Max([0.0] + [Ite(v < 0, 0.0, 1 - v) for v in f]) + Max([0.0] + [Ite(v > 0, 0.0, 1 + v) for v in f]))
                    err[a] = Sum(t)
                for a in U:
                    ctx.check(Implies(best(a, 1e-6, True), err[a0] <= err[a] + 1e-9), 'with the least approximate error of them after retraining', got=s)
            L, U = L + [a0], [u for u in U if u != a0]
    ctx.cover('end')


# ------------------------------------------------------------------ random
@R.family('random', [(3,), (4,), Th(5,)], covers=('end', 'all', 'some'), bounds='n unlabeled pairs of 4 instances and 2 labels, all draws, batches up to n+1')
def random(ctx, n):
    N, m = 4, 2
    X, _ = data(N)
    y = np.array([[1, -1], [-1, 1], [1, 1], [-1, -1]])
    unl = [(2, 0), (2, 1), (3, 1), (1, 0), (1, 1)][:n]
    k = ctx.choice('type', ['ins', 'ins-lab', 'default'])
    fu = forms(ctx, 'fu', unl, N, m)
    before = content(fu)
    batch = int(ctx.index('batch', 1, n + 1))
    kw = {} if k == 'default' else {'select_type': k}
    st = Q.QueryMultiLabelRandom(X, y)
    s = st.select(None, fu, batch_size=batch, **kw)
    if k == 'ins':
        ins = sorted(set(p[0] for p in unl))
        got = singles(ctx, s, ins, batch)
        ctx.cover('all' if len(got) == len(ins) else 'some')
    else:
        got = as_pairs(s)
        ctx.check(isinstance(s, list) and len(got) == min(batch, n) and len(set(got)) == len(got) and set(got) <= set(unl), 'as many distinct unlabeled pairs as asked for (or all) are selected', got=got)
        ctx.cover('all' if len(got) == n else 'some')
    ctx.check(content(fu) == before, 'the unlabeled set is not changed')
    ctx.check(ctx.raises(ValueError, st.select, None, fu, select_type='other'), 'an unknown type is refused')
    ctx.cover('end')


@R.case('last', covers=('end',), bounds='0 or 1 unlabeled pair, 4 strategies')
def last(ctx):
    """The last pair is selected, and the result can be used to update the sets."""
    N, m = 4, 2
    X, _ = data(N)
    y = np.array([[1, -1], [-1, 1], [1, 1], [-1, -1]])
    unl = [(2, 1)][:ctx.index('n', 0, 1)]
    lab = [(i, j) for i in range(N) for j in range(m) if (i, j) not in unl]
    ranker(ctx, m)
    k = ctx.choice('strategy', ['quire', 'audi', 'random', 'instances'])
    st = Q.QueryMultiLabelQUIRE(X, y, kernel='linear') if k == 'quire' else Q.QueryMultiLabelAUDI(X, y) if k == 'audi' else Q.QueryMultiLabelRandom(X, y)
    fu = forms(ctx, 'fu', unl, N, m)
    fl = MultiLabelIndexCollection(lab, label_size=m)
    s = st.select(fl, fu, **({'select_type': 'ins'} if k == 'instances' else {}))
    ctx.check(isinstance(s, list) and as_pairs(s) == ([p[:1] for p in unl] if k == 'instances' else unl), 'the last pair (or nothing) is selected', got=str(s))
    if unl and k != 'instances':
        U = MultiLabelIndexCollection(unl, label_size=m)
        fl.update(s)
        U.difference_update(s)
        ctx.check(len(U) == 0 and len(fl) == N * m, 'and can be moved to the labeled set')
    ctx.cover('end')
