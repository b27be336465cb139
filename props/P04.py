"""P04 Flattening, integrating and slicing by multi-label indexes agree on which pairs are meant."""
import numpy as np
from sx.case import Registry, Th
from sx.engine import And, Or, Not, Implies, Iff, Eq, In, Distinct, Sum
from alipy.index.multi_label_tools import flattern_multilabel_index, integrate_multilabel_index, get_labelmatrix_in_multilabel, get_Xy_in_multilabel, infer_label_size_multilabel
from alipy.index.index_collections import MultiLabelIndexCollection

R = Registry()


def mk(ctx, name, form, ni, L):
    i = ctx.int(name + 'i', 0, ni - 1)
    if form == 'full':
        return (i,)
    if form == 'one':
        return (i, ctx.int(name + 'j', 0, L - 1))
    js = [ctx.int('%sj%d' % (name, t), 0, L - 1) for t in range(2)]
    return (i, js if form == 'list' else tuple(js))


def denotes(idx, i, j):
    out = []
    for t in idx:
        if len(t) == 1:
            out.append(Eq(t[0], i))
        elif isinstance(t[1], (list, tuple, set, np.ndarray)):
            out.append(And(Eq(t[0], i), In(j, list(t[1]))))
        else:
            out.append(And(Eq(t[0], i), Eq(t[1], j)))
    return Or(out)


COMBOS = [('one', 'one'), ('full', 'one'), ('one', 'full'), ('list', 'one'), ('one', 'tuple'), ('full', 'list'), ('list', 'full'), ('list', 'tuple')]


@R.family('flatten', [(2, 3) + c for c in COMBOS] + [Th(2, 2, 'one', 'list', 'full'), Th(2, 3, 'list', 'list', 'one')], budget=60, covers=('end',), bounds='ni, label_size, and the index forms listed')
def flatten(ctx, ni, L, *forms):
    ctx.hash_universe = tuple(range(max(ni, L)))
    idx = [mk(ctx, 'a%d' % k, f, ni, L) for k, f in enumerate(forms)]
    flat = flattern_multilabel_index(list(idx), L)
    q = (ctx.int('qi', 0, ni - 1), ctx.int('qj', 0, L - 1))
    ctx.check(all(len(t) == 2 and not isinstance(t[1], (list, tuple)) for t in flat), 'flattening yields pairs')
    ctx.check(Iff(denotes(flat, *q), denotes(idx, *q)), 'flattening denotes the same pairs', flat=flat)
    n = sum(L if f == 'full' else (1 if f == 'one' else 2) for f in forms)
    ctx.check(len(flat) == n, 'one pair for each label named')
    ctx.cover('end')


@R.family('integrate', [(2, 2) + c for c in COMBOS] + [(2, 3, 'one', 'list')] + [Th(2, 3, 'one', 'one', 'list'), Th(3, 2, 'one', 'one', 'full', 'one'), Th(2, 3, 'list', 'list')], budget=60, covers=('end',), bounds='ni, label_size, and the index forms listed')
def integrate(ctx, ni, L, *forms):
    ctx.hash_universe = tuple(range(max(ni, L)))
    idx = [mk(ctx, 'a%d' % k, f, ni, L) for k, f in enumerate(forms)]
    q = (ctx.int('qi', 0, ni - 1), ctx.int('qj', 0, L - 1))
    intg = integrate_multilabel_index(list(idx), L)
    ctx.check(Distinct([t[0] for t in intg]), 'integration yields one index for each instance', got=intg)
    ctx.check(Iff(denotes(intg, *q), denotes(idx, *q)), 'integration denotes the same pairs', got=intg)
    for t in intg:
        if len(t) == 2:
            ctx.check(Not(And([In(j, list(t[1])) for j in range(L)])), 'an instance with all labels is given as (instance,)')
    back = flattern_multilabel_index(intg, L)
    ctx.check(Iff(denotes(back, *q), denotes(idx, *q)), 'flatten and integrate are inverse up to order')
    ctx.cover('end')


@R.family('slice', [(3, 2, 'one', 'one'), (2, 2, 'one', 'one', 'one'), (2, 2, 'full', 'one'), (2, 2, 'one', 'full'), (2, 3, 'list', 'one'), (2, 3, 'one', 'tuple'), (2, 2, 'full', 'full'), Th(3, 3, 'one', 'list', 'full'), Th(3, 3, 'one', 'one', 'one')],
          budget=60, covers=('end',), bounds='n x L label matrix with real entries, indexes of the listed forms')
def slice_(ctx, n, L, *forms):
    idx = [mk(ctx, 'a%d' % k, f, n, L) for k, f in enumerate(forms)]
    y = ctx.real_mat('y', n, L, -2, 2)
    X = ctx.real_mat('X', n, 2, -2, 2)
    unk = ctx.real('unk', -9, 9)
    yy, XX = ctx.arr(y), ctx.arr(X)
    mat, rows = get_labelmatrix_in_multilabel(list(idx), yy, unknown_element=unk)
    Xc, yc, ins = get_Xy_in_multilabel(list(idx), XX, yy, unknown_element=unk)
    rows = [int(r) for r in rows]
    ctx.check(len(rows) == len(mat) == len(Xc) == len(yc), 'one row for each instance')
    ctx.check(Distinct(rows), 'each instance has one row')
    ctx.check(Eq([int(i) for i in ins], rows), 'both functions list the same instances')
    for i in range(n):
        ctx.check(Iff(In(i, rows), Or([Eq(t[0], i) for t in idx])), 'the rows are the indexed instances', rows=rows)
    for r, i in enumerate(rows):
        ctx.check(Eq(list(Xc[r]), X[i]), 'the feature rows belong to the listed instances')
        for j in range(L):
            d = denotes(idx, i, j)
            ctx.check(Implies(d, Eq(mat[r, j], y[i][j])), 'an indexed entry carries its label', mat=mat)
            ctx.check(Implies(Not(d), Eq(mat[r, j], unk)), 'an entry that is not indexed carries the unknown mark', mat=mat)
            ctx.check(Eq(yc[r, j], mat[r, j]), 'both functions give the same matrix')
    for i in range(n):
        for j in range(L):
            ctx.check(Eq(yy[i, j], y[i][j]), 'the label matrix of the caller is unchanged')
    ctx.cover('end')


@R.family('infer', [('one', 'one'), ('one', 'full'), ('list', 'list'), ('list', 'one'), ('tuple', 'full', 'one')], covers=('end',), bounds='labels 0..3')
def infer(ctx, *forms):
    idx = [mk(ctx, 'a%d' % k, f, 2, 4) for k, f in enumerate(forms)]
    L = infer_label_size_multilabel(list(idx))
    labs = []
    for t in idx:
        if len(t) == 2:
            labs += list(t[1]) if isinstance(t[1], (list, tuple)) else [t[1]]
    ctx.check(And([l < L for l in labs]), 'the inferred label size exceeds every label', got=L)
    ctx.check(In(L - 1, labs), 'the inferred label size is the largest label plus one', got=L)
    ctx.check(ctx.raises(Exception, infer_label_size_multilabel, [(0,), (1,)]), 'the label size cannot be inferred from whole-instance indexes')
    ctx.cover('end')


@R.case('refused', bounds='arbitrary integer label', covers=('ok', 'bad'))
def refused(ctx):
    j = ctx.int('j')
    try:
        f = flattern_multilabel_index([(0, j)], 3)
    except AssertionError:
        ctx.check(Not(And(0 <= j, j < 3)), 'labels inside [0, label_size) are accepted')
        ctx.cover('bad')
        return
    ctx.check(And(0 <= j, j < 3), 'a label outside [0, label_size) is refused')
    ctx.cover('ok')
    ctx.check(ctx.raises(TypeError, flattern_multilabel_index, [[0, 1]], 3), 'indexes that are not tuples are refused')
    ctx.check(ctx.raises(TypeError, flattern_multilabel_index, [(0, 1), 3], 3), 'mixed index types are refused')
