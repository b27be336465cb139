"""P06 Multi-label and feature splits partition the (instance, label) grid."""
import numpy as np
from fractions import Fraction
from sx.case import Registry, Th
from sx.engine import And, Or, Not, Implies, Iff, Eq, In, Distinct, Sum
from alipy.data_manipulate.al_split import split_multi_label, split_features, split_load

R = Registry()
ASSUMPTIONS = ['every shuffle may return any permutation; a path stops after the stated number of draws', 'label matrices hold 0 and 1']


def isperm(xs, ys):
    return And(len(xs) == len(ys), And([Eq(Sum([Eq(x, y) for x in xs]), 1) for y in ys]))


def sizes(ctx, tr, te, n, t):
    ntr = round((1 - t) * n)
    tr, te = list(tr), list(te)
    ctx.check(Eq(len(tr), ntr), 'the training set has round((1-test_ratio)*n) instances', got=len(tr))
    ctx.check(isperm(tr + te, list(range(n))), 'train and test partition the instances', tr=tr, te=te)
    return tr, te


@R.family('multi_label', [(4, 2, 'y'), (4, 2, 'shape'), (3, 2, 'shape_default'), Th(6, 2, 'y'), Th(6, 3, 'shape')], budget=90, covers=('end',), bounds='n instances, L labels, arbitrary ratios and permutation')
def multi_label(ctx, n, L, how):
    ctx.ite_index = True
    t, r = ctx.real('t', 0, 1), ctx.real('r', 0, 1)
    ctx.assume(And(t > 0, t < 1, r > 0, r < 1))
    kw = {'y': dict(y=np.ones((n, L)), all_class=False), 'shape': dict(label_shape=(n, L), all_class=False), 'shape_default': dict(label_shape=(n, L))}[how]
    tr, te, la, un = split_multi_label(test_ratio=t, initial_label_rate=r, split_count=1, saving_path=None, **kw)
    tr, te = sizes(ctx, tr[0], te[0], n, t)
    la, un = list(la[0]), list(un[0])
    nla = round(r * len(tr))
    nla = 1 if nla <= 1 else nla
    if tr:
        ctx.check(all(isinstance(x, tuple) and len(x) == 1 for x in la + un), 'whole instances are indexed as (instance,)')
        ctx.check(Eq(len(la), nla), 'round(rate*n_train) instances are labeled, at least one', got=len(la), want=nla)
        ctx.check(isperm([x[0] for x in la + un], tr), 'labeled and unlabeled partition the training set', la=la, un=un)
    ctx.cover('end')


@R.family('multi_label_all_class', [(4, 2, '1/4', '2/3'), (3, 1, '1/3', '1/5'), Th(5, 2, '1/5', '1/2'), Th(5, 3, '1/5', '3/4')], budget=90, validate=20, covers=('end',), bounds='arbitrary 0/1 label matrix, at most 2 draws')
def multi_label_all(ctx, n, L, t, r):
    t, r = float(Fraction(t)), float(Fraction(r))
    ctx.ite_index = True
    ctx.max_draws = 3 if L == 1 else 2
    y = ctx.int_mat('y', n, L, 0, 1)
    nla = max(1, int(round(r * int(round((1 - t) * n)))))
    # a path that runs out of draws stops at the bound; the draws before it are judged all the same
    has = lambda rows, k: Or([And(Eq(i, j), Eq(y[j][k], 1)) for i in rows for j in range(n)])
    done = False
    try:
        tr, te, la, un = split_multi_label(y=ctx.arr(y), test_ratio=t, initial_label_rate=r, split_count=1, all_class=True, saving_path=None)
        done = True
    finally:
        for d in (ctx.draws[:-1] if done else ctx.draws):
            ctx.check(Or([Not(has(list(d)[:nla], k)) for k in range(L)]), 'a draw that covers all labels is not thrown away', draws=ctx.draws, y=y)
    tr, te = sizes(ctx, tr[0], te[0], n, t)
    la, un = list(la[0]), list(un[0])
    ctx.check(len(la) == nla, 'round(rate*n_train) instances are labeled, at least one', got=len(la), want=nla)
    ctx.check(isperm([x[0] for x in la + un], tr), 'labeled and unlabeled partition the training set')
    for k in range(L):
        ctx.check(has([x[0] for x in la], k), 'every label has a positive instance in the initial labeled set', la=la, y=y)
    ctx.cover('end')


@R.family('features', [(3, 2, '1/3', '1/2', False), (3, 2, '1/3', '1/4', False), (2, 2, '1/2', '1/2', False), (4, 2, '1/2', '1/2', False), Th(4, 3, '1/2', '1/2', False), Th(3, 3, '1/3', '1/3', False)],
          budget=90, validate=20, covers=('end',), bounds='n instances, L features, arbitrary permutations')
def features(ctx, n, L, t, m, allf):
    t, m = float(Fraction(t)), float(Fraction(m))
    ctx.split_draws = True
    how = ctx.flag('shape')
    kw = dict(feature_matrix_shape=(n, L)) if how else dict(feature_matrix=np.ones((n, L)))
    tr, te, la, un = split_features(test_ratio=t, missing_rate=m, split_count=1, all_features=allf, saving_path=None, **kw)
    tr, te = sizes(ctx, tr[0], te[0], n, t)
    la, un = list(la[0]), list(un[0])
    want = int(round((1 - m) * len(tr) * L))
    ctx.check(len(la) == want, 'round((1-missing_rate)*n_train*n_features) entries are known', got=len(la), want=want)
    grid = [(int(i), j) for i in tr for j in range(L)]
    ctx.check(sorted((int(a), int(b)) for a, b in la + un) == sorted(grid), 'known and missing entries partition the entries of the training set', la=la, un=un)
    ctx.cover('end')


@R.family('features_all', [(4, 2, '1/2', '0'), (3, 2, '1/3', '1/4'), Th(4, 2, '1/4', '1/3')], budget=90, validate=20, covers=('end',), bounds='n instances, L features, at most 4 draws')
def features_all(ctx, n, L, t, m):
    t, m = float(Fraction(t)), float(Fraction(m))
    ctx.max_draws = 4
    ctx.split_draws = True
    try:
        tr, te, la, un = split_features(feature_matrix_shape=(n, L), test_ratio=t, missing_rate=m, split_count=1, all_features=True, saving_path=None)
    except ValueError:
        ctx.check(round((1 - m) * round((1 - t) * n)) < L, 'a rate that leaves room for each feature is accepted')
        return
    tr, te = sizes(ctx, tr[0], te[0], n, t)
    la, un = list(la[0]), list(un[0])
    want = int(round((1 - m) * len(tr) * L))
    ctx.check(len(la) == want, 'round((1-missing_rate)*n_train*n_features) entries are known, retries included', got=len(la), want=want)
    grid = [(int(i), j) for i in tr for j in range(L)]
    ctx.check(sorted((int(a), int(b)) for a, b in la + un) == sorted(grid), 'known and missing entries partition the entries of the training set', la=la, un=un)
    ctx.check(set(int(b) for a, b in la) == set(range(L)), 'every feature is known somewhere', la=la)
    ctx.cover('end')


@R.family('features_retry', [5, Th(6)], budget=60, validate=20, covers=('end', 'retried'), bounds='n instances, 2 features, half missing; the first draw misses a feature, the second is any rotation')
def features_retry(ctx, n):
    L, ntr = 2, n - 1
    k = int(round(0.5 * ntr * L))
    first = [i * 2 for i in range(ntr)] + [i * 2 + 1 for i in range(ntr)]
    if ctx.flag('lucky'):
        first = list(range(ntr * L))
    rot = lambda m: list(range(m))
    ctx.script = {0: rot, 1: lambda m: list(first[:m]), 2: lambda m: (lambda s: [(i + s) % m for i in range(m)])(ctx.index('s2', 0, m - 1)),
                  3: lambda m: (lambda s: [(i + s) % m for i in range(m)])(ctx.index('s3', 0, m - 1))}
    ctx.max_draws = 4
    tr, te, la, un = split_features(feature_matrix_shape=(n, L), test_ratio=1.0 / n, missing_rate=0.5, split_count=1, all_features=True, saving_path=None)
    tr, te = list(tr[0]), list(te[0])
    la, un = list(la[0]), list(un[0])
    ctx.check(sorted(int(i) for i in tr + te) == list(range(n)) and len(tr) == ntr, 'train and test partition the instances')
    ctx.check(len(la) == k, 'the number of known entries is the same after a retry', got=len(la), want=k)
    grid = [(int(i), j) for i in tr for j in range(L)]
    ctx.check(sorted((int(a), int(b)) for a, b in la + un) == sorted(grid), 'known and missing entries partition the entries of the training set', la=la, un=un, tr=tr)
    ctx.check(set(int(b) for a, b in la) == set(range(L)), 'every feature is known somewhere', la=la)
    if len(ctx.draws) > 2:
        ctx.cover('retried')
    ctx.cover('end')


@R.family('saved', [('ml', 3), ('fea', 2), Th('ml', 4), Th('fea', 3)], budget=60, validate=20, covers=('end',), bounds='n instances, 2 labels or features, every permutation')
def saved(ctx, kind, n):
    ctx.split_draws = True
    d = ctx.tmpdir()
    if ctx.flag('stale'):
        for f in ('label_idx.txt', 'unlabel_idx.txt'):
            open(d + '/' + f, 'w').write('7 8\n')
    if kind == 'ml':
        a = split_multi_label(label_shape=(n, 2), test_ratio=1 / 3., initial_label_rate=0.5, split_count=1, all_class=False, saving_path=d)
    else:
        a = split_features(feature_matrix_shape=(n, 2), test_ratio=1 / 3., missing_rate=0.5, split_count=1, all_features=False, saving_path=d)
    b = split_load(d)
    flat = lambda z: [int(v) for v in np.asarray(z).ravel().tolist()]
    for x, z, nm in zip(a, b, ('train', 'test', 'labeled', 'unlabeled')):
        ctx.check(z is not None and flat(x) == flat(z), 'the %s indexes are loaded as they were saved' % nm, saved=x, loaded=z)
    ctx.cover('end')
