"""P26 A ToolBox hands out tools that agree with its data and its split."""
import builtins
import inspect
import os
import pickle
import numpy as np
from sx.case import Registry, Th
from sx.engine import And, Or, Not, Implies, Iff, Eq, Close, In, Distinct, Sum, Ite
from alipy import toolbox as T
from alipy.toolbox import ToolBox
from alipy.index.index_collections import IndexCollection, MultiLabelIndexCollection, FeatureIndexCollection
from alipy.utils import multi_thread as M
from props.sched import Sched, Module

R = Registry()
ASSUMPTIONS = ['a shuffle may return any permutation']


def pick(table, k):
    """The value stored under the symbolic key k."""
    r = table[-1][1]
    for key, v in table[:-1][::-1]:
        r = Ite(Eq(k, key), v, r)
    return r


def isperm(xs, ys):
    return And(len(xs) == len(ys), And([Eq(Sum([Eq(x, y) for x in xs]), 1) for y in ys]))


def feats(n, d=2):
    return np.array([[float(10 * i + j) for j in range(d)] for i in range(n)])


@R.family('single', [(4, False), (4, True), (3, 'PartLabels'), Th(5, True)], budget=100, validate=20, covers=('end',),
          bounds='n instances, optional instance names, arbitrary labels and costs, an arbitrary permutation in the split')
def single(ctx, n, named):
    kind = 'AllLabels'
    if named == 'PartLabels':
        kind, named = named, False
    names = [(3 * i + 2) % (n + 2) for i in range(n)] if named else list(range(n))
    if len(set(names)) < n:
        names = [n + 1 - i for i in range(n)]
    ctx.hash_universe = tuple(range(n + 2))
    ctx.ite_index = True
    # at least two classes, so that the kind of target is fixed
    ys = [0, 1] + ctx.ints('y', n - 2, 0, 1)
    has_cost, by_example = ctx.flag('cost'), ctx.flag('by_example')
    cs = ctx.reals('c', n, 0, 9) if has_cost else [1] * n
    X = feats(n)
    t = ToolBox(ctx.arr(ys), X=X, instance_indexes=list(names) if named else None, query_type=kind)
    ctx.check(ctx.raises(Exception, t.get_split, 0), 'no split is returned before there is one')
    ret = t.split_AL(test_ratio=0.25, initial_label_rate=0.67, split_count=1, all_class=False)
    tr, te, la, un = [list(p[0]) for p in ret]
    ctx.check(isperm(tr + te, names), 'train and test partition the instances', tr=tr, te=te)
    sizes(ctx, ret, n, 0.25, 0.67)
    ctx.check(isperm(la + un, tr) if not ctx.symbolic else And([Eq(Sum([Eq(x, y) for x in la + un]), 1) for y in tr]), 'the labeled and unlabeled sets partition the training set')
    a, b, L, U = t.get_split(0)
    ctx.check(Eq(list(a), tr) and Eq(list(b), te), 'the round has the split returned before')
    ctx.check(isinstance(L, IndexCollection) and isperm(list(L.index), la) and isperm(list(U.index), un), 'the collections hold the labeled and unlabeled indexes')
    # tools
    o = t.get_clean_oracle(query_by_example=by_example, cost_mat=list(cs) if has_cost else None)
    lab, cost = o.query_by_index(list(U.index))
    for k, i in enumerate(U.index):
        ctx.check(Eq(lab[k], pick(list(zip(names, ys)), i)), 'the oracle returns the label of the instance', index=i)
        ctx.check(Close(cost[k], pick(list(zip(names, cs)), i)), 'the oracle returns the cost of the instance', index=i)
    if by_example:
        lab, cost = o.query_by_example(X[1])
        ctx.check(Eq(list(lab), [ys[1]]) and Close(list(cost), [cs[1]]), 'the oracle answers for the example')
    else:
        ctx.check(ctx.raises(Exception, o.query_by_example, X[1]), 'the oracle answers for examples only if asked to')
    ex = ctx.flag('instances')
    repo = t.get_repository(0, instance_flag=ex)
    rx, ry, ri = repo.get_training_data()
    ctx.check(isperm(list(ri), la), 'the repository holds the initial labeled set')
    for k, i in enumerate(list(ri)):
        ctx.check(Eq(ry[k], pick(list(zip(names, ys)), i)), 'the repository holds the labels of the initial labeled set')
        if ex:
            for j in range(2):
                ctx.check(Eq(rx[k][j], pick([(nm, X[p][j]) for p, nm in enumerate(names)], i)), 'and their examples')
    s = t.get_stateio(0, verbose=False)
    ctx.check(s.round == 0, 'the record is of the round')
    w = s.get_workspace(0)
    ctx.check(Eq(list(w[0]), tr) and Eq(list(w[1]), te) and isperm(list(w[2].index), la) and isperm(list(w[3].index), un), 'the experiment record starts from the split of the round')
    # what is handed out is independent of the toolbox
    q = U.index[0]
    L.update(q)
    U.difference_update(q)
    a[0] = b[0]
    ret2 = t.get_split()
    ctx.check(Eq([list(p[0]) for p in ret2], [tr, te, la, un]), 'using the collections of a round does not change the split')
    ret2[2][0][0] = -1
    again = t.get_split(0)
    ctx.check(isperm(list(again[2].index), la) and isperm(list(again[3].index), un) and Eq(list(again[0]), tr), 'the round can be started again')
    ctx.cover('end')


def sizes(ctx, split, n, test, rate, per=1, rounds=1):
    ctx.check(all(len(p) == rounds for p in split), 'the requested number of splits is made')
    ntr = int(round((1 - test) * n))
    nla = max(1, int(round(rate * ntr * per)))
    for tr, te, la, un in zip(*split):
        ctx.check([len(tr), len(te), len(la), len(un)] == [ntr, n - ntr, nla, ntr * per - nla], 'the sets have the requested sizes', got=[len(tr), len(te), len(la), len(un)], n=n, test=test, rate=rate)


@R.family('multi', [(4, 2, 'AllLabels'), (4, 2, 'PartLabels'), Th(4, 3, 'PartLabels'), Th(5, 2, 'AllLabels')], budget=100, validate=20, covers=('end',),
          bounds='n instances, L labels, arbitrary 0/1 labels, costs for labels or for entries, an arbitrary permutation in the split')
def multi(ctx, n, L, kind):
    ctx.hash_universe = tuple(range(max(n, L)))
    ctx.split_draws = True
    X = feats(n)
    Y = ctx.int_mat('y', n, L, 0, 1)
    t = ToolBox(ctx.arr(Y), X=X, query_type=kind)
    test, rate = ctx.choice('ratios', [(0.25, 0.67), (0.5, 0.5)])
    ret = t.split_AL(test_ratio=test, initial_label_rate=rate, split_count=1, all_class=False)
    sizes(ctx, ret, n, test, rate)
    tr, te, la, un = [list(p[0]) for p in ret]
    ctx.check(isperm(tr + te, list(range(n))), 'train and test partition the instances')
    a, b, Lc, Uc = t.get_split(0)
    ctx.check(isinstance(Lc, MultiLabelIndexCollection) and isinstance(Uc, MultiLabelIndexCollection), 'multi-label collections are made')
    grid = lambda idx: sorted((int(i[0]), j) for i in idx for j in range(L))
    ctx.check(sorted(Lc.index) == grid(la) and sorted(Uc.index) == grid(un), 'the collections hold all labels of the labeled and unlabeled instances')
    how = ctx.choice('cost', ['none', 'label', 'entry'])
    C = [[1] * L] * n if how == 'none' else ([ctx.reals('c', L, 0, 9)] * n if how == 'label' else ctx.real_mat('c', n, L, 0, 9))
    o = t.get_clean_oracle(query_by_example=ctx.flag('by_example'), cost_mat=None if how == 'none' else (C[0] if how == 'label' else C))
    if kind == 'PartLabels':
        q = list(Uc.index)[:3]
        lab, cost = o.query_by_index(q)
        for (i, j), l, c in zip(q, lab, cost):
            ctx.check(Eq(list(l), [Y[i][j]]) and Close(list(c), [C[i][j]]), 'the oracle returns the label and cost of the entry')
    else:
        lab, cost = o.query_by_index([(int(i),) for i in tr])
        for i, l, c in zip(tr, lab, cost):
            ctx.check(Eq(list(l), Y[int(i)]) and Close(list(c), C[int(i)]), 'the oracle returns the labels and costs of the instance')
    ex = ctx.flag('instances')
    repo = t.get_repository(0, instance_flag=ex)
    rx, ry, ri = repo.get_training_data()
    if kind == 'PartLabels':
        idx = [tuple(int(v) for v in i) for i in ri]
        ctx.check(sorted(idx) == grid(la) and len(ry) == len(idx), 'the repository holds the entries of the initial labeled set', got=idx)
        for k, (i, j) in enumerate(idx):
            ctx.check(Eq(ry[k], Y[i][j]), 'the repository holds the labels of the initial labeled set')
            ctx.check(not ex or list(rx[k]) == list(X[i]), 'and their examples')
    else:
        idx = [int(i) for i in ri]
        ctx.check(sorted(idx) == sorted(int(i[0]) for i in la) and len(ry) == len(idx), 'the repository holds the instances of the initial labeled set', got=idx)
        for k, i in enumerate(idx):
            ctx.check(Eq(list(ry[k]), Y[i]), 'the repository holds the labels of the initial labeled set')
            ctx.check(not ex or list(rx[k]) == list(X[i]), 'and their examples')
    s = t.get_stateio(0, verbose=False)
    ctx.check(s.round == 0, 'the record is of the round')
    w = s.get_workspace(0)
    ctx.check(list(w[0]) == list(a) and list(w[1]) == list(b) and sorted(w[2].index) == grid(la) and sorted(w[3].index) == grid(un), 'the experiment record starts from the split of the round')
    Lc.update(Uc.index[0])
    again = t.get_split(0)
    ctx.check(sorted(again[2].index) == grid(la) and sorted(again[3].index) == grid(un), 'using the collections of a round does not change the split')
    ctx.cover('end')


@R.family('features', [(4, 2), Th(4, 3)], budget=100, validate=20, covers=('end',), bounds='n instances, d features with arbitrary values, arbitrary permutations in the split')
def features(ctx, n, d):
    ctx.hash_universe = tuple(range(max(n, d)))
    ctx.split_draws = True
    X = ctx.real_mat('x', n, d, -9, 9)
    t = ToolBox([0, 1] * (n // 2), X=ctx.arr(X), query_type='Features')
    ret = t.split_AL(test_ratio=0.5, initial_label_rate=0.75, split_count=1, all_class=False)
    sizes(ctx, ret, n, 0.5, 0.75, d)
    tr, te, la, un = [list(p[0]) for p in ret]
    ctx.check(isperm(tr + te, list(range(n))), 'train and test partition the instances')
    key = lambda p: sorted(tuple(int(v) for v in i) for i in p)
    grid = sorted((int(i), j) for i in tr for j in range(d))
    ctx.check(key(la + un) == grid, 'known and missing entries partition the entries of the training set', la=la, un=un)
    a, b, Lc, Uc = t.get_split(0)
    ctx.check(isinstance(Lc, FeatureIndexCollection) and key(Lc.index) == key(la) and key(Uc.index) == key(un), 'the collections hold the known and missing entries')
    cs = ctx.reals('c', d, 0, 9) if ctx.flag('cost') else None
    o = t.get_clean_oracle(cost_mat=cs)
    q = list(Uc.index)[:2]
    val, cost = o.query_by_index(q)
    for (i, j), v, c in zip(q, val, cost):
        ctx.check(Close(list(v), [X[i][j]]) and Close(list(c), [cs[j] if cs else 1]), 'the oracle returns the feature and its cost')
    repo = t.get_repository(0)
    rx, ry, ri = repo.get_training_data()
    idx = [tuple(int(v) for v in i) for i in ri]
    ctx.check(sorted(idx) == key(la), 'the repository holds the known entries', got=idx)
    for k, (i, j) in enumerate(idx):
        ctx.check(Close(ry[k], X[i][j]), 'the repository holds the values of the known entries')
    w = t.get_stateio(0, verbose=False).get_workspace(0)
    ctx.check(key(w[2].index) == key(la) and key(w[3].index) == key(un), 'the experiment record starts from the split of the round')
    ctx.cover('end')


SEEN = {}


def target(round, train_id, test_id, Ucollection, Lcollection, saver, examples, labels, global_parameters):
    SEEN[round] = (train_id, test_id, Lcollection, Ucollection, saver, examples, labels)


@R.family('given', [1, 2], budget=40, validate=10, covers=('end',), bounds='k given splits of 5 instances with arbitrary contents, any round')
def given(ctx, k):
    ctx.hash_universe = tuple(range(5))
    sp = [[ctx.ints('s%d' % r, 5, 0, 4) for r in range(k)]]
    for p in sp[0]:
        ctx.assume(Distinct(p))
    part = lambda a, b: [list(p[a:b]) for p in sp[0]]
    given = dict(train_idx=part(0, 4), test_idx=part(4, 5), label_idx=part(0, 1), unlabel_idx=part(1, 4))
    t = ToolBox([0, 1, 1, 0, 1], X=feats(5), **given)
    r = ctx.index('r', 0, k - 1)
    a, b, L, U = t.get_split(r)
    p = sp[0][r]
    ctx.check(Eq(list(a), p[:4]) and Eq(list(b), p[4:]) and Eq(list(L.index), p[:1]) and isperm(list(U.index), p[1:4]), 'a given split is used for its round')
    ctx.check(t.get_stateio(r, verbose=False).round == r, 'the record is of the round')
    for bad in (-1, k):
        for f in (t.get_split, t.get_stateio, t.get_repository):
            ctx.check(ctx.raises(Exception, f, bad), 'a round that does not exist is refused')
    s = t.split_AL(test_ratio=0.5, split_count=3)
    ctx.check(Eq([[list(v) for v in q] for q in s], [given[m] for m in ('train_idx', 'test_idx', 'label_idx', 'unlabel_idx')]), 'a given split is not overwritten by a later one')
    ctx.patch(M, 'threading', Module(Sched(ctx, 0), M.threading))
    ctx.patch(M.aceThreading, '__repr__', lambda self: '')
    ace = t.get_ace_threading(saving_path=ctx.tmpdir(), refresh_interval=0)
    seen = SEEN
    seen.clear()
    ace.set_target_function(target)
    ace.start_all_threads(global_parameters=None)
    ctx.check(sorted(seen) == list(range(k)), 'one thread for each split')
    sig, made = inspect.signature(M.aceThreading.__init__), {}
    ctx.patch(T, 'aceThreading', lambda *a, **kw: made.update(sig.bind(None, *a, **kw).arguments))
    want = dict(max_thread=2, refresh_interval=7, saving_path='/x', target_function=target)
    t.get_ace_threading(**want)
    ctx.check(made['target_func'] is target and all(made[p] == v for p, v in want.items() if p in sig.parameters), 'the threads get the given settings', got=str(made)[-300:])
    for q, p in enumerate(sp[0]):
        v = seen[q]
        ctx.check(Eq(list(v[0]), p[:4]) and Eq(list(v[1]), p[4:]) and Eq(list(v[2].index), p[:1]) and isperm(list(v[3].index), p[1:4]), 'a thread works on the split of its round')
        ctx.check(np.array_equal(v[5], feats(5)) and list(v[6]) == [0, 1, 1, 0, 1] and v[4].round == q, 'and on the data of the toolbox')
    ctx.check(ctx.raises(ValueError, lambda: ToolBox([0, 1, 1, 0, 1], **dict(given, test_idx=given['test_idx'] + [[0]]))), 'splits of different counts are refused')
    ctx.cover('end')


@R.family('given_pairs', ['PartLabels', 'AllLabels', 'Features'], budget=40, validate=10, covers=('end',), bounds='2 given splits of 4 instances with 2 labels (features), any two labeled instances')
def given_pairs(ctx, kind):
    k = [ctx.index('k%d' % r, 0, 2) for r in range(2)]
    tr = [[0, 1, 2], [1, 2, 3]]
    one = lambda i: [(i,)] if kind != 'Features' else [(i, 0), (i, 1)]
    la = [one(t[k[r]]) for r, t in enumerate(tr)]
    un = [sum([one(i) for i in t if i != t[k[r]]], []) for r, t in enumerate(tr)]
    Y = [[0, 1], [1, 0], [1, 1], [0, 0]]
    t = ToolBox(Y, X=feats(4), query_type=kind, train_idx=tr, test_idx=[[3], [0]], label_idx=la, unlabel_idx=un)
    for r in (ctx.index('r', 0, 1), 1):
        a, b, L, U = t.get_split(r)
        i = tr[r][k[r]]
        ctx.check(list(a) == tr[r] and list(b) == [3 - 3 * r], 'a given split is used for its round')
        ctx.check(sorted(L.index) == [(i, 0), (i, 1)] and sorted(U.index) == sorted((j, l) for j in tr[r] if j != i for l in range(2)), 'a given split is used for its round')
        w = t.get_stateio(r, verbose=False).get_workspace(0)
        ctx.check(list(w[0]) == tr[r] and sorted(w[2].index) == sorted(L.index) and sorted(w[3].index) == sorted(U.index), 'the experiment record starts from the split of the round')
        rx, ry, ri = t.get_repository(r, instance_flag=True).get_training_data()
        if kind == 'AllLabels':
            ctx.check([int(v) for v in ri] == [i] and [list(v) for v in ry] == [Y[i]], 'the repository is that of the round')
        else:
            src = Y[i] if kind == 'PartLabels' else list(feats(4)[i])
            ctx.check(sorted((int(p[1]), float(v)) for p, v in zip(ri, ry)) == [(0, src[0]), (1, src[1])] and all(int(p[0]) == i for p in ri), 'the repository is that of the round')
        ctx.check([list(v) for v in rx] == [list(feats(4)[i])] * len(ri), 'with the examples of its instances')
    ctx.cover('end')


METRICS = ['accuracy_score', 'hamming_loss', 'f1_score', 'one_error', 'roc_auc_score', 'get_fps_tps_thresholds', 'coverage_error', 'label_ranking_loss', 'label_ranking_average_precision_score']


@R.family('auc', [('proba', 3), ('score', 3), ('column', 3), Th('proba', 4)], budget=60, validate=20, covers=('end',), bounds='n instances with two classes, arbitrary scores; probabilities of both classes, a score vector or a single column')
def auc(ctx, form, n):
    ys = [0, 1] + ctx.ints('y', n - 2, 0, 1)
    p = ctx.reals('p', n, 0, 1)
    t = ToolBox([0, 1, 0])
    pred = {'proba': lambda: ctx.arr([[1 - v, v] for v in p]), 'score': lambda: ctx.arr(p), 'column': lambda: ctx.arr([[v] for v in p])}[form]()
    got = t.calc_performance_metric(ctx.arr(ys), pred, performance_metric='roc_auc_score')
    pairs = [(a, b) for a in range(n) for b in range(n) if a != b]
    w = Sum([Ite(And(Eq(ys[a], 1), Eq(ys[b], 0)), Ite(p[a] > p[b], 2, Ite(Eq(p[a], p[b]), 1, 0)), 0) for a, b in pairs])
    m = Sum([Eq(y, 1) for y in ys])
    ctx.check(Close(got * (2 * m * (n - m)), w), 'the area under the curve is that of the score of the positive class', got=got, y=ys, p=p)
    ctx.cover('end')


@R.family('metric', [2, Th(3)], budget=60, validate=20, covers=('end',), bounds='n instances, arbitrary labels, predictions and scores')
def metric(ctx, n):
    t = ToolBox([0, 1, 0])
    k = ctx.choice('metric', ['accuracy_score', 'hamming_loss', 'one_error', 'coverage_error', 'label_ranking_loss'])
    L = 2
    if k == 'accuracy_score':
        y, p = ctx.ints('y', n, 0, 2), ctx.ints('p', n, 0, 2)
        want = Sum([Eq(a, b) for a, b in zip(y, p)]) / n
        got = t.calc_performance_metric(ctx.arr(y), ctx.arr(p)) if ctx.flag('default') else t.calc_performance_metric(y_true=ctx.arr(y), y_pred=ctx.arr(p), performance_metric=k)
    else:
        Y = [[1, 0], [0, 1], [0, 1]][:n]
        if k == 'hamming_loss':
            P = ctx.int_mat('p', n, L, 0, 1)
            want = Sum([Ite(Eq(P[i][j], Y[i][j]), 0, 1) for i in range(n) for j in range(L)]) / (n * L)
        else:
            P = ctx.real_mat('s', n, L, 0, 1)
            for r in P:
                ctx.assume(Distinct(r))
            good = [P[i][Y[i].index(1)] > P[i][Y[i].index(0)] for i in range(n)]
            bad = Sum([Not(g) for g in good]) / n
            want = bad + (1 if k == 'coverage_error' else 0)
        got = t.calc_performance_metric(ctx.arr(Y), ctx.arr(P), performance_metric=k)
    ctx.check(Close(got, want), 'the named metric of these predictions is returned', got=got, want=want)
    ctx.check(ctx.raises(NotImplementedError, t.calc_performance_metric, [1], [1], 'no_such_metric'), 'an unknown metric is refused')
    ctx.cover('end')


class Crash(Exception):
    pass


class CrashFile(object):
    def __init__(self, f, budget):
        self.f, self.budget = f, budget

    def write(self, data):
        k = min(len(data), self.budget[0])
        self.f.write(data[:k])
        self.budget[0] -= k
        if k < len(data):
            self.f.flush()
            raise Crash('write')
        return k

    def close(self):
        self.f.close()
        if self.budget[1]:
            raise Crash('close')

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close() if a[0] is None else self.f.close()

    def __getattr__(self, n):
        return getattr(self.f, n)


def same_box(ctx, a, b, text):
    ctx.check(Eq([[list(v) for v in p] for p in a.get_split()], [[list(v) for v in p] for p in b.get_split()]) and a.query_type == b.query_type, text)
    la, lb = a.get_clean_oracle().query_by_index([0, 2])[0], b.get_clean_oracle().query_by_index([0, 2])[0]
    ctx.check(list(la) == list(lb), text)


def given_split(s):
    return dict(train_idx=[[0, 1, s]], test_idx=[[5 - s, 4]], label_idx=[[0]], unlabel_idx=[[1, s]])


@R.family('persist', ['dir', 'file'], budget=60, validate=20, covers=('crashed', 'finished'), bounds="saved, changed, then the process dies after k bytes of the next save (k = 0, 1, 8, .. 36, half, all but one), right after closing the file, or not at all")
def persist(ctx, kind):
    d = ctx.tmpdir()
    path = d if kind == 'dir' else os.path.join(d, 'box.pkl')
    f = os.path.join(d, 'al_settings.pkl' if kind == 'dir' else 'box.pkl')
    y = [0, 1, 1, 0, 1]
    t = ToolBox(y, X=feats(5), saving_path=path, **given_split(2))
    got = ToolBox.load(f)
    same_box(ctx, got, t, 'a saved toolbox is loaded unchanged')
    ctx.check(ToolBox.load(f).split_count == 1, 'the number of splits is kept')
    again = ToolBox([1, 0, 1], saving_path=path)
    same_box(ctx, again, t, 'an existing toolbox is taken over and not overwritten')
    same_box(ctx, ToolBox.load(f), t, 'an existing toolbox is taken over and not overwritten')
    before = ToolBox.load(f)
    t.train_idx[0][2] = 3
    where = ctx.choice('where', ['start', 'early', 'half', 'last', 'closed', 'never'])
    size = len(pickle.dumps(t))
    b = {'start': 0, 'half': size // 2, 'last': size - 1}.get(where, 1 << 30) if where != 'early' else 1 + 7 * ctx.index('off', 0, 5)
    budget = [b, 1 if where == 'closed' else 0]
    real = builtins.open

    def hooked(path, mode='r', *a, **k):
        h = real(path, mode, *a, **k)
        return CrashFile(h, budget) if 'w' in mode and str(path).startswith(d) else h
    ctx.patch(builtins, 'open', hooked)
    try:
        t.save()
        done = True
        ctx.cover('finished')
    except Crash:
        done = False
        ctx.cover('crashed')
    ctx.patch(builtins, 'open', real)
    try:
        got = ToolBox.load(f)
    except Exception as e:
        ctx.check(False, 'after a crash while saving the toolbox can be loaded', error=e, where=where)
        return
    if done:
        same_box(ctx, got, t, 'a finished save holds the toolbox')
    else:
        new = got.get_split()[0][0][2] == 3
        same_box(ctx, got, t if new else before, 'after a crash the file holds the previous or the new toolbox')
    same_box(ctx, ToolBox(y, saving_path=path), got, 'the next run takes the saved toolbox over')


@R.family('tools', [0], budget=60, validate=10, covers=('end',), bounds='each kind of tool, arbitrary stopping values and index contents')
def tools(ctx, _):
    ctx.hash_universe = tuple(range(6))
    X, y = feats(5), [0, 1, 1, 0, 1]
    t = ToolBox(y, X=X, **given_split(2))
    kind = ctx.choice('tool', ['stop', 'strategy', 'noX', 'analyser', 'index', 'multi', 'state', 'refuse', 'shape'])
    if kind == 'stop':
        v = ctx.index('v', 1, 4)
        s = t.get_stateio(0, verbose=False)
        c = t.get_stopping_criterion('num_of_queries', v)
        for i in range(5):
            ctx.check(c.is_stop() == (i >= v), 'the criterion stops at the given number of queries')
            s.add_state(t.State([1], performance=0.5))
            c.update_information(s)
        c = t.get_stopping_criterion()
        c.update_information(s)
        ctx.check(c.is_stop() == (len(s.get_workspace()[3]) == 0), 'without a criterion it stops when nothing is unlabeled')
    elif kind == 'strategy':
        for name, kw in [('QueryInstanceRandom', {}), ('QueryInstanceUncertainty', dict(measure='margin')), ('QueryInstanceQBC', {}), ('QueryInstanceQUIRE', dict(train_idx=[0, 1, 2]))]:
            q = t.get_query_strategy(name, **kw)
            ctx.check(type(q).__name__ == name and (name == 'QueryInstanceQUIRE' or np.array_equal(q.X, X) and list(q.y) == y), 'the named strategy is made for the data of the toolbox', name=name)
        ctx.check(ctx.raises(KeyError, t.get_query_strategy, 'QueryNoSuchThing'), 'an unknown strategy is refused')
        r = t.get_query_strategy()
        got = r.select([0], [1, 2], batch_size=2)
        ctx.check(sorted(got) == [1, 2], 'the default strategy selects from the unlabeled set')
    elif kind == 'noX':
        b = ToolBox(y, **given_split(2))
        ctx.check(sorted(b.get_query_strategy().select([0], [1, 2], batch_size=2)) == [1, 2], 'a strategy that needs no features works without them')
        ctx.check(list(b.get_clean_oracle().query_by_index([0, 1])[0]) == [0, 1], 'an oracle works without features')
        ctx.check(list(b.get_repository(0).get_training_data()[1]) == [0], 'a repository works without features')
        ctx.check(ctx.raises(Exception, b.get_ace_threading), 'threads need the features')
        ctx.check(ctx.raises(Exception, lambda: ToolBox(y, query_type='Features')), 'feature queries need the features')
    elif kind == 'analyser':
        s = t.get_stateio(0, verbose=False)
        p = ctx.reals('p', 2, 0, 1)
        for i, v in enumerate(p):
            s.add_state(t.State([1 + i], performance=v, cost=2))
        cost = ctx.flag('cost')
        a = t.get_experiment_analyser(*(['cost'] if cost else []))
        ctx.check(('Cost' in type(a).__name__) == cost, 'the analyser is for the requested axis')
        a.add_method('m', [s])
        ctx.check(ctx.raises(ValueError, t.get_experiment_analyser, 'days'), 'an unknown axis is refused')
    elif kind == 'index':
        v = ctx.ints('v', 3, 0, 3)
        c = t.IndexCollection(list(v))
        ctx.check(And(And([In(e, v) for e in c.index]), And([In(e, list(c.index)) for e in v])), 'the collection holds the given indexes')
    elif kind == 'multi':
        m = ToolBox([[0, 1], [1, 0], [1, 1]])
        c = m.MultiLabelIndexCollection([(1, 0), (2,)])
        ctx.check(sorted(c.index) == [(1, 0), (2, 0), (2, 1)], 'label tuples stand for their labels')
        v = [ctx.index('v%d' % i, 0, 5) for i in range(2)]
        for order in ('F', 'C'):
            c = m.MultiLabelIndexCollection(np.array(v), order=order)
            want = set((i % 3, i // 3) if order == 'F' else (i // 2, i % 2) for i in v)
            ctx.check(set(c.index) == want, '1d indexes are read in the shape of the label matrix', got=c.index, v=v, order=order)
            c = m.MultiLabelIndexCollection(np.array(v), label_mat_shape=(2, 3), order=order)
            want = set((i % 2, i // 2) if order == 'F' else (i // 3, i % 3) for i in v)
            ctx.check(set(c.index) == want, '1d indexes are read in the given shape', got=c.index, v=v, order=order)
    elif kind == 'state':
        p, c = ctx.real('p', 0, 1), ctx.real('c', 0, 9)
        st = t.State([3], performance=p, queried_label=[1], cost=c)
        ctx.check(Eq(st['performance'], p) and Eq(st['cost'], c) and list(st['select_index']) == [3] and list(st['queried_label']) == [1], 'a state holds what it was given')
    elif kind == 'refuse':
        ctx.ite_index = True
        ctx.check(ctx.raises(ValueError, lambda: ToolBox(y, X=feats(4))), 'features of another number of instances are refused')
        ctx.check(ctx.raises(ValueError, lambda: ToolBox(y, instance_indexes=[1, 2])), 'names of another number of instances are refused')
        ctx.check(ctx.raises(NotImplementedError, lambda: ToolBox(y, query_type='Relations')), 'an unknown query type is refused')
        ctx.check(ctx.raises(TypeError, lambda: ToolBox(y, saving_path=3)), 'a saving path must be a string')
        ctx.check(ctx.raises(TypeError, ToolBox.load, 3), 'a path must be a string')
        b = ToolBox(y + [1, 0, 1])
        kw = dict(test_ratio=0.3, initial_label_rate=0.1)
        ctx.check(ctx.raises(ValueError, lambda: b.split_AL(**kw)), 'by default every class must fit into the initial labeled set')
        ctx.check(len(b.split_AL(all_class=False, **kw)[0]) == 10, 'ten splits are made by default')
        m = ToolBox([[1, 0, 1], [0, 1, 0], [1, 0, 0], [0, 1, 1], [1, 1, 1]])
        ctx.check(ctx.raises(ValueError, lambda: m.split_AL(**kw)), 'by default every label must fit into the initial labeled set')
        sizes(ctx, m.split_AL(all_class=False, split_count=2, **kw), 5, 0.3, 0.1, rounds=2)
    else:
        col = ToolBox([[v] for v in y], X=X, **given_split(2))
        ctx.check(isinstance(col.get_split(0)[2], IndexCollection) and not isinstance(col.get_split(0)[2], MultiLabelIndexCollection), 'a single label column is single-label data')
        ctx.check(list(col.get_clean_oracle().query_by_index([1, 3])[0]) == [1, 0], 'a single label column is single-label data')
        names = ['a', 'b', 'c', 'd', 'e']
        b = ToolBox(y, X=X, instance_indexes=names, train_idx=[['a', 'b', 'c']], test_idx=[['d', 'e']], label_idx=[['b']], unlabel_idx=[['a', 'c']])
        ctx.check(list(b.get_clean_oracle().query_by_index(['d', 'b'])[0]) == [0, 1] and ctx.raises(KeyError, b.get_clean_oracle().query_by_index, 0), 'instances can have names')
        rx, ry, ri = b.get_repository(0, instance_flag=True).get_training_data()
        ctx.check(list(ri) == ['b'] and list(ry) == [1] and [list(v) for v in rx] == [list(X[1])], 'instances can have names')
        names[0] = 'z'
        ctx.check(list(b.get_clean_oracle().query_by_index(['a'])[0]) == [0], 'the names are kept')
    ctx.cover('end')
