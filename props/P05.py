"""P05 split() partitions the instances, with the requested sizes and class coverage."""
import numpy as np
from sx.case import Registry, Th
from sx.engine import And, Or, Not, Implies, Iff, Eq, In, Distinct, Sum
from alipy.data_manipulate.al_split import split, split_load

R = Registry()
ASSUMPTIONS = ['every shuffle may return any permutation; a path stops after the stated number of draws']


def isperm(xs, ys):
    return And(len(xs) == len(ys), And([Eq(Sum([Eq(x, y) for x in xs]), 1) for y in ys]))


def partition(ctx, tr, te, la, un, items, t, r):
    n = len(items)
    ntr = round((1 - t) * n)
    nla = round(r * ntr)
    nla = 1 if nla <= 1 else nla
    tr, te, la, un = list(tr), list(te), list(la), list(un)
    ctx.check(Eq(len(tr), ntr), 'the training set has round((1-test_ratio)*n) instances', got=len(tr), want=ntr)
    ctx.check(len(tr) + len(te) == n, 'train and test sizes add up')
    ctx.check(isperm(tr + te, items), 'train and test partition the instances', tr=tr, te=te)
    if len(tr):
        ctx.check(Eq(len(la), nla), 'the labeled set has round(rate*n_train) instances, at least one', got=len(la), want=nla)
        ctx.check(isperm(la + un, tr), 'labeled and unlabeled partition the training set', la=la, un=un, tr=tr)


@R.family('random', [(3, 1), (5, 1), (6, 1), (3, 2), Th(8, 1), Th(12, 1), Th(4, 3)], budget=90, covers=('end',), bounds='n instances, arbitrary ratios in (0,1), arbitrary permutations')
def random(ctx, n, count):
    t, r = ctx.real('t', 0, 1), ctx.real('r', 0, 1)
    ctx.assume(And(t > 0, t < 1, r > 0, r < 1))
    ctx.ite_index = True
    X = np.zeros((n, 2))
    ys = list(range(n))
    how = ctx.choice('how', ['X', 'y', 'Xy', 'idx'])
    kw = {'X': dict(X=X), 'y': dict(y=ys), 'Xy': dict(X=X, y=ys), 'idx': dict(X=X, instance_indexes=[10 + 3 * i for i in range(n)])}[how]
    tr, te, la, un = split(test_ratio=t, initial_label_rate=r, split_count=count, all_class=False, saving_path=None, **kw)
    items = [10 + 3 * i for i in range(n)] if how == 'idx' else list(range(n))
    ctx.check(len(tr) == len(te) == len(la) == len(un) == count, 'one entry for each split')
    for k in range(count):
        partition(ctx, tr[k], te[k], la[k], un[k], items, t, r)
    ctx.cover('end')


@R.family('unsupervised_all_class', [4], covers=('end',), bounds='no labels given, all_class left at its default')
def unsup(ctx, n):
    t, r = ctx.real('t', 0, 1), ctx.real('r', 0, 1)
    ctx.assume(And(t > 0, t < 1, r > 0, r < 1))
    tr, te, la, un = split(X=np.zeros((n, 2)), test_ratio=t, initial_label_rate=r, split_count=1, saving_path=None)
    partition(ctx, tr[0], te[0], la[0], un[0], list(range(n)), t, r)
    ctx.cover('end')


def names(kind, n):
    return [3 * i + 2 for i in range(n)] if kind == 'int' else ['img%d' % i for i in range(n)]


@R.family('all_class', [(4, 2, '1/4', '2/3', None), (5, 2, '2/5', '2/3', 'int'), (4, 3, '1/4', '1', None), (5, 2, '1/2', '7/10', None), (3, 2, '1/3', '1', 'str'), Th(4, 2, '1/4', '2/3', 'str'), Th(6, 3, '1/3', '3/4', None), Th(6, 2, '1/3', '1/2', 'int')],
          budget=90, validate=20, bounds='n instances with arbitrary labels in 0..c-1, at most 2 draws per split')
def all_class(ctx, n, c, t, r, idx):
    from fractions import Fraction
    t, r = float(Fraction(t)), float(Fraction(r))
    y = ctx.ints('y', n, 0, c - 1)
    ctx.max_draws = 2
    ctx.ite_index = idx != 'str'
    ntr = int(round((1 - t) * n))
    nla = max(1, int(round(r * ntr)))
    ncls = Sum([Or([Eq(v, k) for v in y]) for k in range(c)])
    kw = {} if idx is None else dict(instance_indexes=names(idx, n))
    try:
        tr, te, la, un = split(y=ctx.arr(y), test_ratio=t, initial_label_rate=r, split_count=1, all_class=True, saving_path=None, **kw)
    except ValueError:
        ctx.check(nla < ncls, 'a rate that leaves room for each class is accepted')
        ctx.cover('refused')
        return
    items = list(range(n))
    if idx is not None:
        back = {v: i for i, v in enumerate(names(idx, n))}
        pos = lambda a: [back[v] for v in np.asarray(a).tolist()]
        if idx == 'int':
            pos = lambda a: [(v - 2) // 3 for v in np.asarray(a).tolist()]
        tr, te, la, un = [[pos(x) for x in q] for q in (tr, te, la, un)]
    partition(ctx, tr[0], te[0], la[0], un[0], items, t, r)
    lab = list(la[0])
    has = lambda rows, k: Or([And(Eq(i, j), Eq(y[j], k)) for i in rows for j in range(n)])
    for k in range(c):
        ctx.check(Implies(Or([Eq(v, k) for v in y]), has(lab, k)), 'every class occurs in the initial labeled set', lab=lab, y=y)
    for d in ctx.draws[:-1]:
        ctx.check(Or([And(Or([Eq(v, k) for v in y]), Not(has(list(d)[:nla], k))) for k in range(c)]), 'a draw that covers all classes is not thrown away', draws=ctx.draws, y=y)
    ctx.cover('end')


@R.family('all_class_rates', [(4, 2), Th(5, 2), Th(7, 3)], budget=60, bounds='n instances, c classes present, arbitrary ratios')
def all_class_rates(ctx, n, c):
    t, r = ctx.real('t', 0, 1), ctx.real('r', 0, 1)
    ctx.assume(And(t > 0, t < 1, r > 0, r <= 1))
    y = [i % c for i in range(n)]
    ctx.max_draws = 1
    ctx.split_draws = True
    ntr = round((1 - t) * n)
    nla = round(r * ntr)
    try:
        # the only draw on this path is one that covers every class (other draws: all_class)
        split(y=np.array(y), test_ratio=t, initial_label_rate=r, split_count=1, all_class=True, saving_path=None)
    except ValueError:
        ctx.check(Or(nla < c), 'a rate that leaves room for each class is accepted', nla=nla)
        return
    finally:
        # a retry needs a reason: with fewer labels than classes no draw can ever cover them
        ctx.check(Or(len(ctx.draws) == 0, nla >= c), 'a rate that leaves no room for each class is refused, not retried forever', nla=nla)


@R.family('multilabel_y', [(4, 2, '1/4', '2/3'), Th(5, 2, '2/5', '2/3')], budget=60, validate=20, bounds='n x c 0/1 label matrix with each label present, at most 2 draws')
def multilabel_y(ctx, n, c, t, r):
    from fractions import Fraction
    t, r = float(Fraction(t)), float(Fraction(r))
    y = ctx.int_mat('y', n, c, 0, 1)
    for k in range(c):
        ctx.assume(Or([Eq(y[i][k], 1) for i in range(n)]))
    ctx.max_draws = 2
    nla = max(1, int(round(r * int(round((1 - t) * n)))))
    tr, te, la, un = split(y=ctx.arr(y), test_ratio=t, initial_label_rate=r, split_count=1, all_class=True, saving_path=None)
    partition(ctx, tr[0], te[0], la[0], un[0], list(range(n)), t, r)
    has = lambda rows, k: Or([And(Eq(i, j), Eq(y[j][k], 1)) for i in rows for j in range(n)])
    for k in range(c):
        ctx.check(has(list(la[0]), k), 'every label has a positive instance in the initial labeled set')
    for d in ctx.draws[:-1]:
        ctx.check(Or([Not(has(list(d)[:nla], k)) for k in range(c)]), 'a draw that covers all labels is not thrown away')


@R.family('saved', [(3, 1), (4, 2), Th(5, 2)], budget=60, validate=20, covers=('end',), bounds='n instances, s splits, every permutation, ratios 1/3 and 1/2')
def saved(ctx, n, count):
    ctx.split_draws = True
    d = ctx.tmpdir()
    if ctx.flag('stale'):
        np.save(d + '/label_idx.npy', np.zeros((1, 1, 2)))
    a = split(X=np.zeros((n, 1)), test_ratio=1 / 3., initial_label_rate=0.5, split_count=count, all_class=False, saving_path=d)
    b = split_load(d)
    for x, z, nm in zip(a, b, ('train', 'test', 'labeled', 'unlabeled')):
        ctx.check(z is not None, 'the %s indexes are saved' % nm)
        if z is not None:
            ctx.check([[int(v) for v in q] for q in x] == [[int(v) for v in q] for q in np.asarray(z).tolist()] if np.ndim(z) == 2 else False,
                      'the %s indexes are loaded as they were saved' % nm, saved=x, loaded=z)
    ctx.cover('end')


@R.case('refused', bounds='fixed arguments')
def refused(ctx):
    ctx.check(ctx.raises(Exception, split, saving_path=None), 'split without data is refused')
    ctx.check(ctx.raises(ValueError, split, X=np.zeros((3, 1)), y=[0, 1], saving_path=None), 'X and y of different lengths are refused')
    ctx.check(ctx.raises(NotImplementedError, split, X=np.zeros((3, 1)), query_type='Nothing', saving_path=None), 'an unknown query type is refused')
    ctx.check(ctx.raises(Exception, split, X=np.zeros((3, 1)), all_class=False, split_count=1, saving_path='/nonexistent/dir'), 'a missing directory is refused')
