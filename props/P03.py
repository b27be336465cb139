"""P03 The views of a pair collection (masks, 1d indexes, instance lists, train mapping) denote the same pairs."""
import numpy as np
from sx.case import Registry, Th
from sx.engine import And, Or, Not, Implies, Iff, Eq, In, Distinct, Sum
from alipy.index.index_collections import MultiLabelIndexCollection, FeatureIndexCollection, IndexCollection, map_whole_index_to_train

R = Registry()
ASSUMPTIONS = ['instance and label numbers are non-negative integers below the matrix shape']


def pairs(ctx, n, ni, L):
    ctx.hash_universe = tuple(range(max(ni, L)))
    return [(ctx.int('i%d' % k, 0, ni - 1), ctx.int('j%d' % k, 0, L - 1)) for k in range(n)]


def has(ps, i, j):
    return Or([And(Eq(a, i), Eq(b, j)) for a, b in ps])


@R.family('views', [(1, 2, 2), (2, 3, 2), (3, 2, 2), (3, 2, 3), Th(4, 3, 2), Th(4, 2, 3)], budget=60, covers=('end',), bounds='n arbitrary pairs in an ni x L grid')
def views(ctx, n, ni, L):
    ps = pairs(ctx, n, ni, L)
    c = MultiLabelIndexCollection(list(ps), L)
    grid = [(i, j) for i in range(ni) for j in range(L)]
    C = c.get_onedim_index(order='C')
    F = c.get_onedim_index(order='F', ins_num=ni)
    ctx.check(len(C) == len(c) and len(F) == len(c), 'one 1d index for each pair')
    for i, j in grid:
        ctx.check(Iff(In(i * L + j, C), has(ps, i, j)), 'row-major 1d index', C=C)
        ctx.check(Iff(In(i + j * ni, F), has(ps, i, j)), 'column-major 1d index', F=F)
    ins = list(c.get_instance_index())
    ub, bk = list(c.get_unbroken_instances()), list(c.get_break_instances())
    for i in range(ni):
        some = Or([has(ps, i, j) for j in range(L)])
        every = And([has(ps, i, j) for j in range(L)])
        ctx.check(Iff(In(i, ins), some), 'instance index lists the instances with a known pair', ins=ins)
        ctx.check(Iff(In(i, ub), every), 'unbroken instances are those with all pairs', ub=ub)
        ctx.check(Iff(In(i, bk), And(some, Not(every))), 'broken instances are those with some but not all pairs', bk=bk)
    ctx.check(Distinct(ins), 'instance index has no duplicates')
    ctx.check(And(Distinct(ub), Distinct(bk)), 'broken and unbroken lists have no duplicates')
    ctx.observe('n', len(c))
    ctx.cover('end')


@R.family('mask', [(2, 2, 2, 1), (2, 3, 2, 1), (2, 2, 3, 5), (2, 2, 2, -1), Th(4, 3, 3, 1)], budget=60, covers=('end',), bounds='n arbitrary pairs in an ni x L grid, fill value given')
def mask(ctx, n, ni, L, fill):
    ps = pairs(ctx, n, ni, L)
    c = MultiLabelIndexCollection(list(ps), L)
    m = c.get_matrix_mask((ni, L), fill_value=fill, sparse=False)
    ctx.check(m.shape == (ni, L), 'the mask has the given shape')
    fmt = ctx.choice('fmt', ['lil_matrix', 'csr_matrix', 'csc_matrix', 'coo_matrix'])
    if ctx.symbolic:
        for t in c.index:
            int(t[0]), int(t[1])
    s = MultiLabelIndexCollection([(int(i), int(j)) for i, j in c.index], L).get_matrix_mask((ni, L), fill_value=fill, sparse=True, sparse_format=fmt)
    sd = s.toarray()
    ctx.check(s.shape == (ni, L), 'the sparse mask has the given shape')
    for i in range(ni):
        for j in range(L):
            ctx.check(Implies(has(ps, i, j), Eq(m[i, j], fill)), 'known pairs carry the fill value')
            ctx.check(Implies(Not(has(ps, i, j)), Eq(m[i, j], 0)), 'unknown pairs are zero')
            ctx.check(Eq(sd[i, j], m[i, j] * 1), 'sparse and dense masks agree', fmt=fmt, sparse=sd, dense=m)
    if fill == 1 and ctx.flag('rt'):
        k = Sum([has(ps, i, j) for i in range(ni) for j in range(L)])
        if And(k > 0, k < ni * L):
            d = MultiLabelIndexCollection.construct_by_element_mask(m)
            for i in range(ni):
                for j in range(L):
                    ctx.check(Iff(has(d.index, i, j), has(ps, i, j)), 'mask and collection convert into each other')
            ctx.cover('roundtrip')
    ctx.cover('end')


@R.family('by_mask', [(2, 2), (2, 3), (3, 2), Th(3, 3), Th(4, 2)], budget=60, covers=('end', 'refused'), bounds='an arbitrary integer matrix with entries -1..2')
def by_mask(ctx, n, L):
    ctx.hash_universe = tuple(range(max(n, L)))
    m = ctx.int_mat('m', n, L, -1, 2)
    flat = [x for r in m for x in r]
    legal = And([Or(Eq(x, 0), Eq(x, 1)) for x in flat])
    try:
        c = MultiLabelIndexCollection.construct_by_element_mask(ctx.arr(m))
    except ValueError:
        ctx.check(Not(And(legal, Or([Eq(x, 1) for x in flat]), Or([Eq(x, 0) for x in flat]))), 'a 0/1 mask with both values is accepted')
        ctx.cover('refused')
        return
    ctx.check(legal, 'a mask with values other than 0 and 1 is refused')
    ps = list(c.index)
    for i in range(n):
        for j in range(L):
            ctx.check(Iff(has(ps, i, j), Eq(m[i][j], 1)), 'the pairs are the entries with value 1')
    ctx.check(c._label_size == L, 'the label size is the number of columns')
    ctx.cover('end')


@R.family('by_1d', [(1, 2, 3, 'C'), (2, 2, 3, 'F'), (2, 3, 2, 'C'), (2, 3, 2, 'F'), Th(3, 3, 4, 'F'), Th(3, 3, 4, 'C')], budget=60, covers=('end',), bounds='k arbitrary 1d indexes of an n x L matrix')
def by_1d(ctx, k, n, L, order):
    ctx.hash_universe = tuple(range(max(n, L)))
    xs = [ctx.index('x%d' % t, 0, n * L - 1) for t in range(k)]
    c = MultiLabelIndexCollection.construct_by_1d_array(xs, (n, L), order=order)
    for i in range(n):
        for j in range(L):
            code = i * L + j if order == 'C' else i + j * n
            ctx.check(Iff(has(c.index, i, j), In(code, xs)), 'the pairs are those the 1d indexes denote', c=c.index, xs=xs)
    back = c.get_onedim_index(order=order, ins_num=n)
    for x in xs:
        ctx.check(In(x, back), 'each 1d index comes back')
    ctx.check(len(back) == len(set(xs)), 'only the given 1d indexes come back')
    c.update((0,))
    ctx.check(And([has(c.index, 0, j) for j in range(L)]), 'the label size is the number of columns')
    ctx.cover('end')


@R.family('to_train', [(3, 2), Th(4, 2), Th(4, 3)], budget=60, covers=('single', 'multi', 'fea'), bounds='a train list in arbitrary order and k of its members')
def to_train(ctx, n, k):
    train = [ctx.int('t%d' % i, 0, n) for i in range(n)]
    ctx.hash_universe = tuple(range(0, 6))
    ctx.assume(Distinct(train))
    pos = ctx.ints('p', k, 0, n - 1)
    ctx.assume(Distinct(pos))
    pos = [int(p) for p in pos]
    whole = [train[p] for p in pos]
    kind = ctx.choice('kind', ['single', 'multi', 'fea'])
    arr = ctx.arr(train) if ctx.flag('arr') else list(train)
    if kind == 'single':
        r = map_whole_index_to_train(arr, IndexCollection(list(whole)))
        ctx.check(Eq(sorted(int(x) for x in r.index), sorted(pos)), 'each index is mapped to its position in the training list', got=r.index, want=pos)
        ctx.check(isinstance(r, IndexCollection) and not isinstance(r, MultiLabelIndexCollection), 'the kind of collection is kept')
    else:
        labs = [ctx.int('l%d' % t, 0, 2) for t in range(k)]
        cls = MultiLabelIndexCollection if kind == 'multi' else FeatureIndexCollection
        src = cls([(w, l) for w, l in zip(whole, labs)], 3)
        r = map_whole_index_to_train(arr, src)
        ctx.check(len(r) == k, 'one mapped pair for each pair')
        for p, l in zip(pos, labs):
            ctx.check(has(r.index, p, l), 'the instance is mapped and the label kept', got=r.index)
        r.update((5,))
        ctx.check(len(r) == k + 3, 'the mapped collection has the label size of the source')
    ctx.cover(kind)
