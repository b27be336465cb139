"""P16 Classification metrics equal their definition."""
import numpy as np
from sx.case import Registry, Th
from sx.engine import And, Or, Not, Implies, Iff, Eq, Close, In, Distinct, Sum, Ite, Max, Min, Abs
import alipy.metrics as M

R = Registry()
SHAPES = ['list', 'array', 'column']


def give(ctx, name, ys):
    k = ctx.choice(name, SHAPES)
    return list(ys) if k == 'list' else ctx.arr(ys) if k == 'array' else ctx.arr([[v] for v in ys])


@R.family('classes', [(2, 2), (3, 1), Th(3, 2), Th(4, 1)], budget=90, covers=('end', 'weighted'),
          bounds='n samples, labels 0..c, both lists, arrays or columns, three weight vectors')
def classes(ctx, n, c):
    t, p = ctx.ints('t', n, 0, c), ctx.ints('p', n, 0, c)
    ft, fp = (give(ctx, 'form of truth', t), give(ctx, 'form of prediction', p)) if n == 2 else (ctx.arr(t), list(p))
    hit = [Ite(a == b, 1, 0) for a, b in zip(t, p)]
    w = None
    if ctx.flag('weights'):
        w = ctx.choice('vector', [[3, 1, 2, 5], [0.25, 0.5, 0.125, 0.1], [2, 0, 0, 1]])[:n]
        ctx.cover('weighted')
    W = w or [1] * n
    k = ctx.choice('metric', ['accuracy', 'zero_one', 'hamming'])
    good = Sum([a * b for a, b in zip(W, hit)])
    if k == 'accuracy':
        ctx.check(Close(M.accuracy_score(ft, fp, sample_weight=w), good / float(sum(W))), 'the accuracy is the (weighted) fraction of correct predictions')
    elif k == 'zero_one':
        ctx.check(Close(M.zero_one_loss(ft, fp, sample_weight=w), 1 - good / float(sum(W))), 'the 0/1 loss is the (weighted) fraction of wrong predictions')
        ctx.check(Close(M.zero_one_loss(ft, fp, normalize=False, sample_weight=w), sum(W) - good), 'or their (weighted) number')
    elif w is None:
        ctx.check(Close(M.hamming_loss(ft, fp), (n - good) / float(n)), 'the Hamming loss of single labels is the fraction of wrong ones')
    ctx.cover('end')


@R.family('multilabel', [(1, 2), (2, 2), (1, 3), Th(2, 3), Th(3, 2)], budget=90, covers=('end', 'weighted'), bounds='n samples, m labels, arbitrary label sets, coded 0/1 or -1/1, three weight vectors')
def multilabel(ctx, n, m):
    neg = ctx.choice('negative', [0, -1]) if n * m == 2 else 0
    bt, bp = [ctx.bools('t%d' % i, m) for i in range(n)], [ctx.bools('p%d' % i, m) for i in range(n)]
    code = lambda bs: ctx.arr([[Ite(b, 1, neg) for b in r] for r in bs])
    t, p = code(bt), code(bp)
    diff = [[Ite(Iff(a, b), 0, 1) for a, b in zip(x, y)] for x, y in zip(bt, bp)]
    w = None
    if ctx.flag('weights'):
        w = ctx.choice('vector', [[3, 1, 2, 5], [0.25, 0.5, 0.125, 0.1], [2, 0, 0, 1]])[:n]
        ctx.cover('weighted')
    W = w or [1] * n
    k = ctx.choice('metric', ['accuracy', 'zero_one', 'hamming'])
    good = Sum([v * Ite(Sum(d) == 0, 1, 0) for v, d in zip(W, diff)])
    if k == 'accuracy':
        ctx.check(Close(M.accuracy_score(t, p, sample_weight=w), good / float(sum(W))), 'the accuracy is the (weighted) fraction of label sets predicted exactly')
    elif k == 'zero_one':
        ctx.check(Close(M.zero_one_loss(t, p, sample_weight=w), 1 - good / float(sum(W))), 'the 0/1 loss is the (weighted) fraction of label sets not predicted exactly')
        ctx.check(Close(M.zero_one_loss(t, p, normalize=False, sample_weight=w), sum(W) - good), 'or their (weighted) number')
    elif w is None:
        ctx.check(Close(M.hamming_loss(t, p), Sum([Sum(d) for d in diff]) / float(n * m)), 'the Hamming loss is the fraction of wrong labels')
    ctx.check(Eq(t.tolist(), [[Ite(b, 1, neg) for b in r] for r in bt]), 'the labels are not changed')
    ctx.cover('end')


@R.family('weights', [(1, 'classes'), (2, 'classes'), (2, 'sets'), Th(3, 'classes'), Th(3, 'sets')], covers=('end',), bounds='n samples of two classes or sets of two labels, arbitrary positive weights')
def weights(ctx, n, kind):
    w = ctx.reals('w', n, 0.001, 3)
    if kind == 'classes':
        t, p = ctx.ints('t', n, 0, 1), ctx.ints('p', n, 0, 1)
        hit = [Eq(a, b) for a, b in zip(t, p)]
        t, p = ctx.arr(t), ctx.arr(p)
    else:
        bt, bp = [ctx.bools('t%d' % i, 2) for i in range(n)], [ctx.bools('p%d' % i, 2) for i in range(n)]
        hit = [And([Iff(a, b) for a, b in zip(x, y)]) for x, y in zip(bt, bp)]
        t, p = (ctx.arr([[Ite(b, 1, 0) for b in r] for r in bs]) for bs in (bt, bp))
    good, total = Sum([Ite(h, v, 0) for h, v in zip(hit, w)]), Sum(w)
    ww = ctx.arr(list(w))
    ctx.check(Close(M.accuracy_score(t, p, sample_weight=ww) * total, good), 'the accuracy is the weighted fraction')
    ctx.check(Close(M.zero_one_loss(t, p, sample_weight=ww) * total, total - good), 'the 0/1 loss is the weighted fraction of the others')
    ctx.check(Close(M.zero_one_loss(t, p, normalize=False, sample_weight=ww), total - good), 'or their weight')
    ctx.check(Eq(list(ww), list(w)), 'the weights are not changed')
    ctx.cover('end')


@R.case('refused', covers=('end',), bounds='up to 3 samples')
def refused(ctx):
    a, b = ctx.index('n', 1, 3), ctx.index('m', 1, 3)
    f = ctx.choice('f', [M.accuracy_score, M.zero_one_loss, M.hamming_loss])
    t, p = ctx.ints('t', a, 0, 2), ctx.ints('p', b, 0, 2)
    if a != b:
        ctx.check(ctx.raises(ValueError, f, list(t), list(p)), 'different numbers of samples are refused')
    else:
        ml = [[1, 0]] * a
        ctx.check(ctx.raises(ValueError, f, np.array(ml), list(p)), 'label sets are not compared with single labels')
        ctx.check(ctx.raises(ValueError, f, list(t), np.array(ml)), 'nor single labels with label sets')
        if f is not M.hamming_loss:
            ctx.check(ctx.raises(ValueError, f, list(t), list(p), sample_weight=[1] * (a + 1)), 'too many weights are refused')
    ctx.cover('end')
