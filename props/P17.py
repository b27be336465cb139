"""P17 Ranking metrics equal their definition."""
import numpy as np
from sx.case import Registry, Th
from sx.engine import And, Or, Not, Implies, Iff, Eq, Close, In, Distinct, Sum, Ite, Max, Min, Abs
import alipy.metrics as M

R = Registry()


def weights(ctx, n, zero=False):
    """(argument, weights)"""
    if ctx.flag('weights'):
        ctx.cover('weighted')
        w = ([0, 2, 1, 3] if zero and ctx.flag('zero') else [3, 1, 2, 5])[:n]
        return (w if n == 2 and ctx.flag('weight list') else np.array(w)), w
    return None, [1] * n


def auc(pos, neg):
    """pos, neg: lists of (score, weight)"""
    tot = Sum([a * b * Ite(s > t, 1.0, Ite(s == t, 0.5, 0.0)) for s, a in pos for t, b in neg])
    return tot / float(sum(a for _, a in pos) * sum(b for _, b in neg))


CODES = [([0, 1], None), ([-1, 1], None), ([1, 2], 1), ([1, 2], 2)]


@R.family('roc', [(2,), (3,), Th(4,)], budget=110, covers=('end', 'weighted', 'one class'), validate=10, bounds='n samples, all label vectors, arbitrary scores, one weight vector')
def roc(ctx, n):
    code, pl = ctx.choice('coding', CODES if n == 2 else CODES[1:3])
    pos_code = 1 if pl is None else pl
    ys = [ctx.choice('y%d' % i, code) for i in range(n)]
    s = ctx.reals('s', n, -3, 3)
    arg, w = weights(ctx, n)
    pos = [(a, v) for a, v, y in zip(s, w, ys) if y == pos_code]
    neg = [(a, v) for a, v, y in zip(s, w, ys) if y != pos_code]
    y = ctx.arr(ys)
    if not pos or not neg:
        if pl is not None or set(ys) != {2}:
            ctx.check(ctx.raises(ValueError, M.roc_auc_score, y, ctx.arr(s), pos_label=pl), 'the area is refused for a single class')
        ctx.cover('one class')
        return
    if ctx.flag('area'):
        ctx.check(Close(M.roc_auc_score(y, ctx.arr(s), pos_label=pl, sample_weight=arg), auc(pos, neg)), 'the area is the fraction of pairs in the right order, ties counting half')
        ctx.cover('end')
        return
    fpr, tpr, thr = M.roc_curve(y, ctx.arr(s), pos_label=pl, sample_weight=arg)
    f, t, h = list(fpr), list(tpr), list(thr)
    ctx.check(len(f) == len(t) == len(h), 'a rate of each kind for every threshold')
    ctx.check(And(Close(f[0], 0), Close(t[0], 0), Close(f[-1], 1), Close(t[-1], 1)), 'the curve goes from (0,0) to (1,1)')
    P, N = float(sum(v for _, v in pos)), float(sum(v for _, v in neg))
    for a, b, c in list(zip(f, t, h)):
        ctx.check(Close(a, Sum([Ite(x >= c, v, 0) for x, v in neg]) / N), 'the false positive rate at a threshold is the fraction of negatives with at least that score')
        ctx.check(Close(b, Sum([Ite(x >= c, v, 0) for x, v in pos]) / P), 'the true positive rate that of the positives')
    ctx.check(And([x >= y for x, y in zip(h, h[1:])]), 'the thresholds do not increase')
    ctx.check(And([Or([Eq(c, x) for c in h[1:]]) for x in s]), 'every score is a threshold')
    ctx.cover('end')


@R.family('precision_recall', [(2,), (3,), Th(4,)], budget=110, covers=('end', 'weighted'), validate=10, bounds='n samples, all label vectors with a positive, arbitrary scores, one weight vector')
def precision_recall(ctx, n):
    ys = [ctx.choice('y%d' % i, [0, 1]) for i in range(n)]
    if 1 not in ys:
        return
    s = ctx.reals('s', n, -3, 3)
    arg, w = weights(ctx, n, True)
    pos = [(a, v) for a, v, y in zip(s, w, ys) if y == 1]
    if not sum(v for _, v in pos):
        return
    allw = list(zip(s, w))
    y = ctx.arr(ys)
    if ctx.flag('counts'):
        fps, tps, thr = M.get_fps_tps_thresholds(y, ctx.arr(s), **({} if arg is None else {'sample_weight': arg}))
        for a, b, c in zip(list(fps), list(tps), list(thr)):
            ctx.check(Close(b, Sum([Ite(x >= c, v, 0) for x, v in pos])), 'the true positives at a threshold are the positives with at least that score')
            ctx.check(Close(a + b, Sum([Ite(x >= c, v, 0) for x, v in allw])), 'the false positives the others with at least that score')
        h = list(thr)
        ctx.check(And([x >= z for x, z in zip(h, h[1:])]), 'the thresholds do not increase')
        ctx.check(And([Or([Eq(c, x) for c in h]) for x in s]), 'every score is a threshold')
        ctx.cover('end')
        return
    pr, rc, thr = M.precision_recall_curve(y, ctx.arr(s), sample_weight=arg)
    p, r, h = list(pr), list(rc), list(thr)
    P = float(sum(v for _, v in pos))
    ctx.check(len(p) == len(r) == len(h) + 1, 'one more point than thresholds')
    ctx.check(And(Close(p[-1], 1), Close(r[-1], 0), Close(r[0], 1)), 'the curve ends in (1, 0) and starts with everything recalled')
    for a, b, c in zip(p, r, h):
        tp, n_all = Sum([Ite(x >= c, v, 0) for x, v in pos]), Sum([Ite(x >= c, v, 0) for x, v in allw])
        ctx.check(Close(b, tp / P), 'the recall at a threshold is the fraction of the positives with at least that score')
        ctx.check(Close(a * n_all, tp), 'the precision the fraction of those with at least that score that are positive')
    ctx.check(And([x <= z for x, z in zip(h, h[1:])]), 'the thresholds do not decrease')
    ctx.cover('end')


@R.case('refused', covers=('end',), bounds='3 samples')
def refused(ctx):
    s = ctx.arr(ctx.reals('s', 3, -3, 3))
    y = np.array(ctx.choice('y', [[0, 1, 2], [1, 2, 1], [3, 3, 3], [0, 2, 0]]))
    ctx.check(ctx.raises(ValueError, M.roc_auc_score, y, s), 'labels that are not binary need a positive label')
    ctx.check(ctx.raises(ValueError, M.roc_auc_score, y[:2], s), 'different numbers of samples are refused')
    f = ctx.choice('f', [M.coverage_error, M.label_ranking_loss, M.one_error, M.label_ranking_average_precision_score, M.average_precision_score, M.micro_auc_score])
    t = np.array([[0, 1], [1, 0]])
    ctx.check(ctx.raises(ValueError, f, t, ctx.arr([[0.5, s[0]]])), 'different numbers of samples are refused')
    ctx.check(ctx.raises(ValueError, f, np.array([[0, 1, 2], [1, 2, 0]]), ctx.arr([[s[0], s[1], s[2]]] * 2)), 'labels that are no label sets are refused')
    ctx.cover('end')


# ------------------------------------------------------------------ per label set
def mean(w, xs):
    return Sum([a * x for a, x in zip(w, xs)]) / float(sum(w))


def split(t, s):
    return [x for a, x in zip(t, s) if a], [x for a, x in zip(t, s) if not a]


@R.family('labels', [(1, 2), (1, 3), (2, 2), Th(1, 4), Th(2, 3)], budget=110, covers=('end', 'weighted'), validate=10, bounds='n samples, m labels, all label sets, arbitrary scores, one weight vector')
def labels(ctx, n, m):
    t = [[int(ctx.flag('t%d_%d' % (i, j))) for j in range(m)] for i in range(n)]
    s = ctx.real_mat('s', n, m, -3, 3)
    k = ctx.choice('metric', ['coverage', 'ranking loss', 'lrap', 'one error', 'micro auc', 'average precision'])
    arg, w = weights(ctx, n)
    T, S = ctx.arr(t), ctx.arr(s)
    if k == 'coverage':
        e = []
        for a, b in zip(t, s):
            pos, _ = split(a, b)
            e.append(Sum([Ite(x >= Min(pos), 1, 0) for x in b]) if pos else 0)
        ctx.check(Close(M.coverage_error(T, S, sample_weight=arg), mean(w, e)), 'the coverage is the mean number of labels scored no worse than the worst relevant one')
    elif k == 'ranking loss':
        e = []
        for a, b in zip(t, s):
            pos, neg = split(a, b)
            e.append(Sum([Ite(y >= x, 1.0, 0.0) for x in pos for y in neg]) / (len(pos) * len(neg)) if pos and neg else 0)
        ctx.check(Close(M.label_ranking_loss(T, S, sample_weight=arg), mean(w, e)), 'the ranking loss is the mean fraction of pairs in the wrong order')
    elif k == 'lrap':
        e = []
        for a, b in zip(t, s):
            pos, neg = split(a, b)
            if not pos or not neg:
                e.append(1)
                continue
            fr = []
            for x in pos:
                # fraction c/r of relevant labels among those scored at least x
                c, r = Sum([Ite(y >= x, 1, 0) for y in pos]), Sum([Ite(y >= x, 1, 0) for y in b])
                fr.append(frac(c, r, len(pos), m))
            e.append(Sum(fr) / float(len(pos)))
        ctx.check(Close(M.label_ranking_average_precision_score(T, S, sample_weight=arg), mean(w, e)), 'the ranking precision is the mean fraction of relevant labels among those scored at least as high')
    elif k == 'one error':
        for r in s:
            ctx.assume(Distinct(r))
        e = [Sum([Ite(x >= Max(b), 1 - a, 0) for a, x in zip(r, b)]) for r, b in zip(t, s)]
        ctx.check(Close(M.one_error(T, S, sample_weight=arg), mean(w, e)), 'the one-error is the fraction of samples whose top label is not relevant')
    elif k == 'micro auc':
        pos = [(x, v) for a, b, v in zip(t, s, w) for y, x in zip(a, b) if y]
        neg = [(x, v) for a, b, v in zip(t, s, w) for y, x in zip(a, b) if not y]
        if pos and neg:
            ctx.check(Close(M.micro_auc_score(T, S, sample_weight=arg), auc(pos, neg)), 'the micro AUC is the fraction of (relevant, irrelevant) entries in the right order')
    else:
        for r in s:
            ctx.assume(Distinct(r))
        e, ew = [], []
        for a, b, v in zip(t, s, w):
            pos, neg = split(a, b)
            if pos and neg:
                e.append(Sum([frac(Sum([Ite(y >= x, 1, 0) for y in pos]), Sum([Ite(y >= x, 1, 0) for y in b]), len(pos), m) for x in pos]) / float(len(pos)))
                ew.append(v)
        if e:
            ctx.check(Close(M.average_precision_score(T, S, sample_weight=arg), mean(ew, e)), 'the average precision is the mean over the samples with a ranking of the precision at each relevant label')
    ctx.check(And(T.tolist() == t, Eq(S.tolist(), s)), 'labels and scores are not changed')
    ctx.cover('end')


def frac(c, r, cm, rm):
    """c / r for counts, without a division by a symbol."""
    out = 0.0
    for i in range(1, cm + 1):
        for j in range(i, rm + 1):
            out = out + Ite(And(c == i, r == j), i / float(j), 0.0)
    return out


@R.case('integer_scores', covers=('end',), bounds='2 samples, 3 labels, integer scores 0 to 2, distinct in a row')
def integer_scores(ctx):
    perms = [[0, 1, 2], [2, 0, 1], [1, 2, 0], [2, 1, 0]]
    s = [ctx.choice('s0', perms), ctx.choice('s1', perms)]
    t = [[int(ctx.flag('t%d_%d' % (i, j))) for j in range(3)] for i in range(2)]
    r = [a for a in t if 0 < sum(a) < 3]
    f = ctx.choice('f', [M.average_precision_score, M.label_ranking_average_precision_score, M.label_ranking_loss])
    a, b = f(np.array(t), np.array(s)), f(np.array(t), np.array(s, dtype=float))
    ctx.check(Close(float(a), float(b)), 'integer scores give the same value')
    ctx.cover('end')
