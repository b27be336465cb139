"""P02 MultiLabelIndexCollection / FeatureIndexCollection are sets of in-range (instance, label) pairs."""
import numpy as np
from sx.case import Registry, Th
from sx.engine import And, Or, Not, Implies, Iff, Eq, In, Distinct, Sum
from alipy.index.index_collections import MultiLabelIndexCollection, FeatureIndexCollection, IndexCollection

R = Registry()
ASSUMPTIONS = ['instance indexes are integers in 0..NI-1 (NI per case), labels arbitrary integers where a case says so']


def pair_eq(p, q):
    return And(Eq(p[0], q[0]), Eq(p[1], q[1]))


def pair_in(q, ps):
    return Or([pair_eq(q, p) for p in ps])


class Ref(object):
    """Membership formula of the reference set for an arbitrary pair q."""
    def __init__(self, ctx, L, ni):
        self.q = (ctx.int('qi', 0, ni - 1), ctx.int('qj', -1, L))
        self.mem = False
        self.L = L

    def pairs(self, x):
        if len(x) == 1:
            return [(x[0], j) for j in range(self.L)]
        if isinstance(x[1], (list, tuple, np.ndarray)):
            return [(x[0], j) for j in x[1]]
        return [x]

    def add(self, xs):
        for x in xs:
            self.mem = Or(self.mem, pair_in(self.q, self.pairs(x)))

    def discard(self, xs):
        for x in xs:
            self.mem = And(self.mem, Not(pair_in(self.q, self.pairs(x))))


def inv(ctx, c, ref, label):
    items = list(c.index)
    for t in items:
        ctx.check(isinstance(t, tuple) and len(t) == 2 and not isinstance(t[1], (list, tuple, np.ndarray)), label + ': every stored element is an (instance, label) pair', item=t)
        if not (isinstance(t, tuple) and len(t) == 2 and not isinstance(t[1], (list, tuple, np.ndarray))):
            return
        ctx.check(And(0 <= t[1], t[1] < ref.L), label + ': stored labels lie in [0, label_size)', item=t)
    ctx.check(And([Not(pair_eq(a, b)) for k, a in enumerate(items) for b in items[:k]]), label + ': no pair stored twice', items=items)
    ctx.check(Iff(pair_in(ref.q, items), ref.mem), label + ': an arbitrary pair is stored iff it is in the reference set', items=items)
    ctx.check(len(c) == len(items), label + ': len() is the number of stored pairs')


def arg(ctx, name, form, L, ni, k=2):
    i = ctx.int(name + 'i', 0, ni - 1)
    if form == 'full':
        return (i,)
    if form == 'one':
        return (i, ctx.int(name + 'j', 0, L - 1))
    js = [ctx.int('%sj%d' % (name, t), 0, L - 1) for t in range(k)]
    return (i, js if form == 'list' else tuple(js))


FORMS = ['full', 'one', 'list', 'tuple']


def make(ctx, cls, forms, L, ni):
    data = [arg(ctx, 'd%d' % k, f, L, ni) for k, f in enumerate(forms)]
    return data, cls(data, L)


@R.family('construct', [('ml', 2, 'one', 'one'), ('ml', 3, 'one', 'list'), ('ml', 2, 'full', 'one'), ('ml', 3, 'tuple', 'one'), ('fea', 2, 'one', 'tuple'), ('fea', 3, 'full'),
                        Th('ml', 3, 'list', 'list'), Th('ml', 3, 'one', 'one', 'one'), Th('ml', 3, 'full', 'list', 'one')], budget=60, covers=('end',),
          bounds='label_size and the index forms listed, instances in 0..2')
def construct(ctx, kind, L, *forms):
    ni = 3
    ctx.hash_universe = tuple(range(max(ni, L)))
    cls = MultiLabelIndexCollection if kind == 'ml' else FeatureIndexCollection
    ref = Ref(ctx, L, ni)
    data, c = make(ctx, cls, forms, L, ni)
    ref.add(data)
    inv(ctx, c, ref, 'construction')
    q = ref.q
    ctx.check(Iff(q in c, ref.mem), 'the in operator agrees with the reference set')
    ctx.cover('end')


OPS = ['add', 'discard', 'update', 'difference_update', 'update_one', 'difference_one']


def apply(ctx, c, ref, op, form, name, L, ni):
    a = arg(ctx, name, form, L, ni)
    if op == 'add':
        r = c.add(a)
        ref.add([a])
    elif op == 'discard':
        r = c.discard(a)
        ref.discard([a])
    elif op == 'update_one':
        r = c.update(a)
        ref.add([a])
    elif op == 'difference_one':
        r = c.difference_update(a)
        ref.discard([a])
    else:
        b = (ctx.int(name + 'bi', 0, ni - 1), ctx.int(name + 'bj', 0, L - 1))
        if op == 'update':
            r = c.update([a, b])
            ref.add([a, b])
        elif op == 'difference_update':
            r = c.difference_update([a, b])
            ref.discard([a, b])
        elif op == 'update_col':
            o = MultiLabelIndexCollection([a, b], L)
            r = c.update(o)
            ref.add([a, b])
        else:
            o = MultiLabelIndexCollection([a, b], L)
            r = c.difference_update(o)
            ref.discard([a, b])
    ctx.check(r is c, op + ' returns the collection itself')


@R.family('step', [(op, f) for op in OPS for f in FORMS if f != 'tuple'] + [Th(op, 'tuple') for op in OPS] + [('update_col', 'one'), ('difference_col', 'one'), ('difference_col', 'full')], budget=60, validate=20, covers=('end',),
          bounds='label_size 3, instances in 0..1, two initial pairs, one operation')
def step(ctx, op, form):
    L, ni = 3, 2
    ctx.hash_universe = tuple(range(3))
    ref = Ref(ctx, L, ni)
    data, c = make(ctx, MultiLabelIndexCollection, ['one', 'one'], L, ni)
    ref.add(data)
    apply(ctx, c, ref, op, form, 'a', L, ni)
    inv(ctx, c, ref, 'after ' + op)
    ctx.cover('end')


@R.family('remove', ['full', 'one', 'list'], budget=60, validate=20, covers=('removed', 'missing'), bounds='label_size 2, instances in 0..2, one initial pair')
def remove(ctx, form):
    L, ni = 2, 3
    ctx.hash_universe = tuple(range(3))
    ref = Ref(ctx, L, ni)
    data, c = make(ctx, MultiLabelIndexCollection, ['one'], L, ni)
    ref.add(data)
    a = arg(ctx, 'a', form, L, ni)
    there = Or([pair_in(p, list(c.index)) for p in ref.pairs(a)])
    try:
        c.remove(a)
        ctx.check(there, 'removing what is not in the collection raises')
        ctx.cover('removed')
    except KeyError:
        ctx.check(Not(there), 'removing what is in the collection does not raise')
        ctx.cover('missing')
    ref.discard([a])
    inv(ctx, c, ref, 'after remove')


@R.family('history', [(a, b) for a in OPS[:4] for b in OPS[:4]] + [Th(a, b) for a in OPS for b in OPS if a in OPS[4:] or b in OPS[4:]] + [Th(a, b, d) for a in OPS[:4] for b in OPS[:4] for d in OPS[:4]], budget=60, validate=10, covers=('end',),
          bounds='label_size 2, instances in 0..1, one initial pair, the listed operations with arbitrary argument form')
def history(ctx, *ops):
    L, ni = 2, 2
    ctx.hash_universe = (0, 1)
    ref = Ref(ctx, L, ni)
    data, c = make(ctx, FeatureIndexCollection, ['one'], L, ni)
    ref.add(data)
    for k, op in enumerate(ops):
        form = ctx.choice('f%d' % k, ['full', 'one'])
        apply(ctx, c, ref, op, form, 'a%d' % k, L, ni)
    inv(ctx, c, ref, 'after history')
    ctx.cover('end')


@R.family('out_of_range', ['add', 'update_one', 'update', 'construct'], covers=('rejected', 'accepted'), bounds='label_size 3, an arbitrary integer label')
def out_of_range(ctx, how):
    L = 3
    ctx.hash_universe = (0, 1, 2)
    i = ctx.int('i', 0, 1)
    j = ctx.int('j')
    ok = And(0 <= j, j < L)
    c = MultiLabelIndexCollection([(0, 1)], L)
    try:
        if how == 'add':
            c.add((i, j))
        elif how == 'update_one':
            c.update((i, j))
        elif how == 'update':
            c.update([(i, j)])
        else:
            c = MultiLabelIndexCollection([(0, 1), (i, j)], L)
    except (ValueError, AssertionError):
        ctx.check(Not(ok), 'a label inside [0, label_size) is accepted')
        items = list(c.index)
        ctx.check(len(items) == 1 and items[0] == (0, 1), 'a rejected index leaves the collection unchanged')
        ctx.cover('rejected')
        return
    ctx.check(ok, 'a label outside [0, label_size) is rejected', got=j)
    ctx.check(pair_in((i, j), list(c.index)), 'an accepted index is stored')
    ctx.cover('accepted')


@R.family('out_of_range_list', ['add', 'update'], bounds='label_size 3, two arbitrary integer labels in one index')
def out_of_range_list(ctx, how):
    L = 3
    ctx.hash_universe = (0, 1, 2)
    j = [ctx.int('j0'), ctx.int('j1')]
    c = MultiLabelIndexCollection([(0, 1)], L)
    try:
        c.update([(1, j)]) if how == 'update' else c.add((1, j))
    except (ValueError, AssertionError):
        ctx.check(Not(And([And(0 <= x, x < L) for x in j])), 'labels inside [0, label_size) are accepted')
    for t in c.index:
        ctx.check(And(0 <= t[1], t[1] < L), 'no label outside [0, label_size) is ever stored')
        ctx.check(Or(pair_eq(t, (0, 1)), And(Eq(t[0], 1), In(t[1], j))), 'only given pairs are stored')


@R.case('copy', covers=('end',), bounds='two arbitrary pairs, label_size 2')
def copy(ctx):
    L, ni = 2, 2
    ctx.hash_universe = (0, 1)
    ref = Ref(ctx, L, ni)
    data, c = make(ctx, MultiLabelIndexCollection, ['one', 'one'], L, ni)
    ref.add(data)
    d = MultiLabelIndexCollection(c)
    a = (ctx.int('ai', 0, 1), ctx.int('aj', 0, 1))
    d.add(a)
    inv(ctx, c, ref, 'original after adding to the copy')
    ref.add([a])
    inv(ctx, d, ref, 'copy after adding')
    b = (ctx.int('bi', 0, 1), ctx.int('bj', 0, 1))
    d.discard(b)
    ref.discard([b])
    inv(ctx, d, ref, 'copy after discarding')
    lst = d.index
    lst.append((9, 9))
    inv(ctx, d, ref, 'after the caller changed the returned list')
    d.difference_update(d)
    ctx.check(len(d) == 0, 'difference_update with itself leaves nothing')
    ctx.cover('end')


@R.family('large', [(25, 4), Th(120, 6)], covers=('end',), bounds='all even-sum pairs of an n x L grid plus one arbitrary operation')
def large(ctx, n, L):
    ctx.hash_universe = tuple(range(n))
    ref = Ref(ctx, L, n)
    data = [(i, j) for i in range(n) for j in range(L) if (i + j) % 2 == 0]
    c = MultiLabelIndexCollection(data, L)
    ref.mem = Eq((ref.q[0] + ref.q[1]) % 2, 0)
    ref.mem = And(ref.mem, 0 <= ref.q[1], ref.q[1] < L)
    op = ctx.choice('op', ['add', 'discard'])
    i = ctx.index('i', 0, n - 1)
    a = (i, ctx.int('j', 0, L - 1)) if ctx.flag('one') else (i,)
    if op == 'add':
        c.add(a)
        ref.add([a])
    else:
        c.discard(a)
        ref.discard([a])
    ctx.check(Iff(pair_in(ref.q, list(c.index)), ref.mem), 'an arbitrary pair is stored iff it is in the reference set')
    ctx.cover('end')
