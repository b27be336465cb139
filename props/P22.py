"""P22 Feature queries take the unknown entry of largest disagreement; completion keeps what is observed."""
import numpy as np
from sx.case import Registry, Th
from sx.engine import And, Or, Not, Implies, Iff, Eq, Close, In, Distinct, Sum, Ite, Max, Min
from alipy.index.index_collections import MultiLabelIndexCollection
from alipy.query_strategy import query_features as Q
from props.P21 import as_pairs, content, once

R = Registry()
N, D = 4, 2
XF = np.array([[0., 1.5], [1., -0.5], [2., 2.5], [3., 0.75]])
YF = np.array([1., 0., 1., 0.])


def forms(ctx, name, ps, kinds=('collection', 'tuples', 'codes', 'code list')):
    k = ctx.choice(name, kinds)
    cd = [j * N + i for i, j in ps]
    if k == 'tuples':
        return list(ps)
    if k == 'codes':
        return np.array(cd)
    if k == 'code list':
        return cd
    return MultiLabelIndexCollection(list(ps), label_size=D)


def variance(vs):
    """n * n times the variance."""
    n = len(vs)
    return Sum([v * v for v in vs]) * n - Sum(vs) * Sum(vs)


class Completions(object):
    """Stands for matrix completion: arbitrary values of the missing entries."""
    def __init__(self, ctx, rows, miss, tie=False):
        self.tie, self.ctx, self.rows, self.miss, self.calls, self.mats = tie, ctx, rows, miss, [], []

    def matrix(self, X, mask):
        X = np.asarray(X).tolist()
        mask = np.asarray(mask).tolist()
        self.calls.append((X, mask))
        k = 0 if self.tie else len(self.mats)
        m = [[X[i][j] if mask[i][j] == 1 or (i, j) not in self.miss else once(self.ctx, 'c%d_%d_%d' % (k, i, j), lambda q: self.ctx.real(q, -3, 3)) for j in range(D)] for i in range(len(X))]
        self.mats.append(m)
        return self.ctx.arr(m)


def same(ctx, comp, want, what):
    ctx.check(all(c[0] == XF[comp.rows].tolist() for c in comp.calls[-len(want):]) and [[[int(v) for v in r] for r in c[1]] for c in comp.calls[-len(want):]] == want,
              what, got=str(comp.calls)[:300])


def train(ctx, rows):
    """How the training instances are given."""
    k = ctx.choice('train', ['array', 'list', 'none'])
    return None if k == 'none' else list(rows) if k == 'list' else np.array(rows)


def setting(ctx, n):
    """Training instances, missing entries of them, unknown and observed entries of the whole data, and the rest."""
    rows = ctx.choice('rows', [[3, 0, 2], [0, 1, 2]])
    miss = [(rows[1], 1), (rows[2], 0), (rows[2], 1), (rows[0], 1)][:n + 1]
    unk = miss[1:]                      # miss[0] is neither known nor to be queried
    obs = [(i, j) for i in rows for j in range(D) if (i, j) not in miss]
    return rows, miss, unk, obs


@R.family('afasmc', [(2, 2), (3, 2), (2, 3), Th(3, 3), Th(2, 4)], budget=90, covers=('end', 'tie'), bounds='n unknown entries of 3 training instances and 2 features, r rounds, arbitrary completions')
def afasmc(ctx, n, r):
    rows, miss, unk, obs = setting(ctx, n)
    tr = train(ctx, rows) if r == 2 and n == 2 else np.array(rows)
    order = sorted(rows) if tr is None else rows
    at = lambda p: (order.index(p[0]), p[1])
    tie = ctx.flag('tie')               # all completions are the same
    comp = Completions(ctx, order, [at(p) for p in miss], tie)

    def mc(X, y, omega, **kw):
        ctx.check(np.asarray(y).tolist() == YF[order].tolist() and kw == {'lambda1': 2}, 'the labels and parameters are passed on')
        m = [[0] * D for _ in order]
        for p in omega:
            m[p[0]][p[1]] = 1
        return comp.matrix(X, m)

    def mask_mc(X, y, mask, **kw):
        kw.pop('check_para', None)
        ctx.check(np.asarray(y).tolist() == YF[order].tolist() and kw == {'lambda1': 2}, 'the labels and parameters are passed on')
        return comp.matrix(X, mask)
    ctx.patch(Q, 'AFASMC_mc', mc)
    ctx.patch(Q, 'AFASMC_mask_mc', mask_mc)
    masks = ctx.flag('masks') if tr is not None else False
    st = Q.QueryFeatureAFASMC(XF, YF, train_idx=tr)
    for k in range(r):
        if masks:
            m = [[1] * D for _ in order]
            for p in unk:
                m[at(p)[0]][p[1]] = 0
            want = [[v for v in q] for q in m]
            s = as_pairs(st.select_by_mask(np.array(m), lambda1=2))
            s = [(order[p[0]], p[1]) for p in s]
        else:
            o, u = (forms(ctx, 'fo', obs), forms(ctx, 'fu', unk)) if k == 0 and n == 2 else (MultiLabelIndexCollection(obs, label_size=D), list(unk))
            before = content(o), content(u)
            want = [[0] * D for _ in order]
            for p in obs:
                want[at(p)[0]][p[1]] = 1
            s = as_pairs(st.select(o, u, lambda1=2))
            ctx.check((content(o), content(u)) == before, 'the entries given are not changed')
        same(ctx, comp, [want], 'the completion gets the training data and its observed entries')
        ctx.check(len(s) == 1 and s[0] in unk, 'one unknown entry is selected', got=s, unknown=unk)
        if s and s[0] in unk and k:
            best = variance([m[at(s[0])[0]][s[0][1]] for m in comp.mats])
            for p in unk:
                v = variance([m[at(p)[0]][p[1]] for m in comp.mats])
                ctx.check(best >= v - 1e-6, 'its variance over the completions is the largest', got=s, round=k)
            if tie:
                ctx.cover('tie')
    ctx.cover('end')


@R.family('stability', [(2, 2), (3, 2), (2, 3), (3, 1), Th(3, 3), Th(3, 4)], budget=90, covers=('end',), bounds='n unknown entries of 3 training instances and 2 features, committee of r members, arbitrary completions')
def stability(ctx, n, r):
    rows, miss, unk, obs = setting(ctx, n)
    tr = train(ctx, rows) if r == 2 and n == 2 else np.array(rows)
    order = sorted(rows) if tr is None else rows
    at = lambda p: (order.index(p[0]), p[1])
    comp = Completions(ctx, order, [at(p) for p in miss])
    ranks = []

    class Member(object):
        def __init__(self, rank=10, **kw):
            self.rank = rank

        def impute(self, X, observed_mask, **kw):
            ranks.append(self.rank)
            return comp.matrix(X, observed_mask)
    ctx.patch(Q, 'IterativeSVD_mc', Member)
    masks = ctx.flag('masks') if tr is not None else False
    arr = [2, 1, 4, 3][:r]
    default = r == 3 and ctx.flag('default')
    st = Q.QueryFeatureStability(XF, YF, train_idx=tr) if default else Q.QueryFeatureStability(XF, YF, train_idx=tr, rank_arr=arr)
    if masks:
        m = [[1] * D for _ in order]
        for p in unk:
            m[at(p)[0]][p[1]] = 0
        want = m
        s = [(order[p[0]], p[1]) for p in as_pairs(st.select_by_mask(np.array(m)))]
    else:
        o, u = (forms(ctx, 'fo', obs), forms(ctx, 'fu', unk)) if n == 2 else (MultiLabelIndexCollection(obs, label_size=D), list(unk))
        before = content(o), content(u)
        want = [[0] * D for _ in order]
        for p in obs:
            want[at(p)[0]][p[1]] = 1
        s = as_pairs(st.select(o, u))
        ctx.check((content(o), content(u)) == before, 'the entries given are not changed')
    same(ctx, comp, [want] * r, 'every member gets the training data and its observed entries')
    ctx.check(sorted(ranks) == sorted([1, 2, 3] if default else arr), 'the committee has the given ranks', got=ranks)
    ctx.check(len(s) == 1 and s[0] in unk, 'one unknown entry is selected', got=s, unknown=unk)
    if s and s[0] in unk and r > 1:
        best = variance([m[at(s[0])[0]][s[0][1]] for m in comp.mats])
        for p in unk:
            ctx.check(best >= variance([m[at(p)[0]][p[1]] for m in comp.mats]) - 1e-6, 'its variance over the committee is the largest', got=s)
    ctx.cover('end')


@R.family('random', [(3,), (4,), Th(5,)], covers=('end', 'all', 'some'), bounds='n unknown entries, all draws, batches up to n+1')
def random(ctx, n):
    unk = [(2, 0), (2, 1), (3, 1), (1, 0), (0, 1)][:n]
    fu = forms(ctx, 'fu', unk)
    before = content(fu)
    batch = int(ctx.index('batch', 1, n + 1))
    st = Q.QueryFeatureRandom(XF, YF)
    s = st.select(None, fu, batch_size=batch) if batch > 1 else st.select(None, fu)
    got = as_pairs(s)
    ctx.check(isinstance(s, list) and len(got) == min(batch, n) and len(set(got)) == len(got) and set(got) <= set(unk), 'as many distinct unknown entries as asked for (or all) are selected', got=got)
    ctx.check(content(fu) == before, 'the unknown entries are not changed')
    ctx.cover('all' if len(got) == n else 'some')
    ctx.cover('end')


@R.case('last', covers=('end',), bounds='0 or 1 unknown entry, 3 strategies')
def last(ctx):
    """The last entry is selected, and the result can be used to update the sets."""
    unk = [(2, 1)][:ctx.index('n', 0, 1)]
    obs = [(i, j) for i in range(N) for j in range(D) if (i, j) not in unk]
    st = ctx.choice('strategy', [Q.QueryFeatureAFASMC, Q.QueryFeatureStability, Q.QueryFeatureRandom])(XF, YF)
    fu, fo = forms(ctx, 'fu', unk), MultiLabelIndexCollection(obs, label_size=D)
    s = st.select(fo, fu)
    ctx.check(isinstance(s, list) and as_pairs(s) == unk, 'the last entry (or nothing) is selected', got=str(s))
    if unk:
        U = MultiLabelIndexCollection(unk, label_size=D)
        fo.update(s)
        U.difference_update(s)
        ctx.check(len(U) == 0 and len(fo) == N * D, 'and can be moved to the observed ones')
    ctx.cover('end')


# ------------------------------------------------------------------ completion
class Svd(object):
    """Stands for the truncated SVD: an arbitrary reconstruction."""
    ctx = None
    seen = None

    def __init__(self, n_components=2, **kw):
        Svd.ranks.append(n_components)

    def fit_transform(self, X):
        Svd.seen.append([list(r) for r in np.asarray(X).tolist()] if not hasattr(X, 'tolist') else X.tolist())
        return np.zeros((len(X), 1))

    def inverse_transform(self, Z):
        k = len(Svd.seen)
        m = [[Svd.ctx.real('r%d_%d_%d' % (k, i, j), -3, 3) for j in range(Svd.shape[1])] for i in range(Svd.shape[0])]
        Svd.back.append([list(q) for q in m])
        return Svd.ctx.arr(m)


@R.family('svd', [(2, 2, 1), (2, 2, 2), (2, 3, 2), (2, 2, 3), Th(3, 2, 2)], budget=90, covers=('end', 'stop'), bounds='r x c matrices, up to n iterations, arbitrary values and reconstructions; the missing values are nan or arbitrary')
def svd(ctx, r, c, n):
    mask = ctx.choice('mask', [[[1, 0, 1], [0, 1, 1], [1, 1, 0]], [[0, 1, 1], [1, 1, 1], [1, 0, 1]], [[1, 0, 0], [0, 0, 1], [0, 0, 0]]])
    mask = [q[:c] for q in mask[:r]]
    kind = ctx.choice('missing', ['nan', 'any']) if n == 1 else 'any'
    lo, hi = ctx.choice('limits', [(None, None), (-1.0, None), (None, 0.5), (-0.5, 1.0)]) if n == 1 else (None, 1.0) if (r * c, n) == (4, 2) else (None, None)
    rank, grad = ctx.choice('rank', [(2, True), (3, False)][:4 - n] if r * c == 4 else [(10, True), (1, True), (3, False)]) if n > 1 else (1, True)
    X = [[ctx.real('x%d_%d' % (i, j), -2, 2) if mask[i][j] or kind == 'any' else float('nan') for j in range(c)] for i in range(r)]
    A = ctx.arr(X)
    Svd.ctx, Svd.seen, Svd.ranks, Svd.back, Svd.shape = ctx, [], [], [], (r, c)
    ctx.patch(Q, 'TruncatedSVD', Svd)
    ctx.patch(Q, 'check_array', lambda a, **kw: a)
    kw = {} if (lo, hi) == (None, None) else {'min_value': lo, 'max_value': hi}
    out = Q.IterativeSVD_mc(rank=rank, max_iters=n, gradual_rank_increase=grad, **kw).impute(A, mask if n == 1 and ctx.flag('list') else np.array(mask))
    ctx.check(np.shape(out) == (r, c), 'the completed matrix has the shape of the data')
    ctx.check(1 <= len(Svd.seen) <= n, 'the iterations are bounded')
    ctx.check(Svd.ranks == [min(2 ** i, rank) if grad else rank for i in range(len(Svd.ranks))], 'the rank grows up to the given one', got=Svd.ranks)
    clip = lambda v: v if (lo, hi) == (None, None) else Max([lo, v]) if hi is None else Min([hi, v]) if lo is None else Max([lo, Min([hi, v])])
    for i in range(r):
        for j in range(c):
            if mask[i][j]:
                ctx.check(Eq(out[i, j], X[i][j]), 'the observed entries are kept')
                for q in Svd.seen:
                    ctx.check(Eq(q[i][j], X[i][j]), 'every factorisation uses the observed entries')
            else:
                ctx.check(Eq(out[i, j], clip(Svd.back[-1][i][j])), 'the missing entries are the last reconstruction within the limits')
                for q, w in enumerate(Svd.seen):
                    ctx.check(Eq(w[i][j], 0 if q == 0 else clip(Svd.back[q - 1][i][j])), 'no factorisation depends on the values of missing entries')
    # the loop stops when the missing entries have converged
    sq = lambda q, p: Sum([(q[i][j] - p[i][j]) * (q[i][j] - p[i][j]) for i in range(r) for j in range(c) if not mask[i][j]])
    zero = [[0] * c for _ in range(r)]
    B = [[[clip(v) for v in row] for row in b] for b in Svd.back]
    for q in range(1, len(B)):
        a, b = sq(B[q - 1], zero), sq(B[q], B[q - 1])
        if q < len(B) - 1 or len(B) < n:
            last = q == len(B) - 1
            ctx.check(b <= 1.1e-5 * a if last else Or(b >= 0.9e-5 * a, a <= 1e-6), 'it stops exactly when the missing entries have converged')
            if last:
                ctx.cover('stop')
    if n <= 2:
        ctx.cover('stop')
    ctx.check(And([Eq(A[i, j], X[i][j]) for i in range(r) for j in range(c) if mask[i][j] or kind == 'any']), 'the data is not changed')
    ctx.cover('end')


@R.family('mc', [(4, 3), Th(5, 4)], budget=90, covers=('end',), bounds='one data matrix and label vector, 3 masks, n iterations; the values of missing entries are nan or arbitrary')
def mc(ctx, n, d):
    """AFASMC completion: the observed entries are kept, the missing ones do not depend on what they hold."""
    base = [[((3 * i + 5 * j + i * j) % 7) / 3.0 - 1 for j in range(d)] for i in range(n)]
    y = [float((i * i + i) % 3 == 0) for i in range(n)]
    hide = ctx.choice('hide', [[(0, 1), (2, 2), (3, 0)], [(1, 1)], [(0, 0), (1, 0), (2, 1), (3, 1), (3, 2)]])
    kind = ctx.choice('missing', ['nan', 'any'])
    api = ctx.choice('api', ['mask', 'list mask', 'tuples', 'collection', 'codes'])
    kw = ctx.choice('iter', [{'max_in_iter': 3, 'max_out_iter': 2}, {'max_in_iter': 1, 'max_out_iter': 3}, {'max_in_iter': 8, 'max_out_iter': 2, 'lambda1': 0.5, 'lambda2': 2}])
    X = [[base[i][j] if (i, j) not in hide else float('nan') if kind == 'nan' else ctx.real('x%d_%d' % (i, j), -9, 9) for j in range(d)] for i in range(n)]
    mask = [[0 if (i, j) in hide else 1 for j in range(d)] for i in range(n)]
    A = ctx.arr(X) if kind == 'any' else np.array(X)

    def run(A):
        if 'mask' in api:
            return Q.AFASMC_mask_mc(A, np.array(y), np.array(mask) if api == 'mask' else mask, **kw)
        om = [(i, j) for i in range(n) for j in range(d) if mask[i][j]]
        om = om if api == 'tuples' else MultiLabelIndexCollection(om, label_size=d) if api == 'collection' else np.array([j * n + i for i, j in om])
        return Q.AFASMC_mc(A, np.array(y), om, **kw)
    out = run(A)
    ref = run(np.array([[0.0 if (i, j) in hide else base[i][j] for j in range(d)] for i in range(n)]))
    ctx.check(np.shape(out) == (n, d), 'the completed matrix has the shape of the data')
    for i in range(n):
        for j in range(d):
            if mask[i][j]:
                ctx.check(Eq(out[i, j], base[i][j]), 'the observed entries are kept')
            else:
                ctx.check(Close(out[i, j], ref[i, j]), 'the completion does not depend on the values of missing entries', got=str(out[i, j]))
    ctx.cover('end')
