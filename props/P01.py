"""P01 IndexCollection behaves as a duplicate-free set with insertion order of additions."""
import warnings
from sx.case import Registry, Th
from sx.engine import And, Or, Not, Implies, Iff, Eq, In, Distinct, Sum
from alipy.index.index_collections import IndexCollection

R = Registry()
ASSUMPTIONS = ['elements are Python integers (unbounded in the solver)']


def same_set(ctx, col, model, q, label, contains=False):
    """col holds exactly the elements of model (a list of terms), each once."""
    items = list(col.index)
    ctx.check(len(col) == len(items), label + ': len() is the number of stored elements')
    ctx.check(Distinct(items), label + ': no element stored twice', items=items)
    ctx.check(Iff(In(q, items), In(q, model)), label + ': an arbitrary value is stored iff it is in the reference set', items=items, model=model)
    if contains:
        ctx.check(Iff(q in col, In(q, model)), label + ': the in operator agrees with the reference set')


class Ref(object):
    def __init__(self, xs):
        self.items = []
        for x in xs:
            self.add(x)

    def add(self, x):
        if not any(bool(Eq(x, y)) for y in self.items):
            self.items.append(x)

    def discard(self, x):
        self.items = [y for y in self.items if not bool(Eq(x, y))]


@R.family('construct', [1, 2, 3, 4, Th(5)], budget=60, bounds='n arbitrary integers')
def construct(ctx, n):
    xs = ctx.ints('x', n, None, None)
    q = ctx.int('q')
    c = IndexCollection(list(xs))
    same_set(ctx, c, xs, q, 'construction', n <= 3)
    c2 = IndexCollection(c)
    same_set(ctx, c2, xs, q, 'copy construction')
    c2.update([q])
    same_set(ctx, c2, xs + [q], ctx.int('q2'), 'copy after update')
    same_set(ctx, c, xs, ctx.int('q3'), 'original after updating the copy')
    ctx.cover('end')


OPS = ['add', 'discard', 'update', 'difference_update', 'pop']


def step(ctx, c, ref, op, vals):
    if op == 'add':
        r = c.add(vals[0])
        ref.add(vals[0])
    elif op == 'discard':
        r = c.discard(vals[0])
        ref.discard(vals[0])
    elif op == 'update':
        r = c.update(list(vals))
        for v in vals:
            ref.add(v)
    elif op == 'update1':
        r = c.update(vals[0])
        ref.add(vals[0])
    elif op == 'difference_update':
        r = c.difference_update(list(vals))
        for v in vals:
            ref.discard(v)
    elif op == 'difference_update1':
        r = c.difference_update(vals[0])
        ref.discard(vals[0])
    elif op == 'updateC':
        o = IndexCollection(list(vals))
        r = c.update(o)
        for v in vals:
            ref.add(v)
    elif op == 'difference_updateC':
        o = IndexCollection(list(vals))
        r = c.difference_update(o)
        for v in vals:
            ref.discard(v)
    elif op == 'pop':
        if len(c) == 0:
            return
        before = list(c.index)
        v = c.pop()
        ctx.check(In(v, before), 'pop returns a stored element')
        ref.discard(v)
        r = c
    ctx.check(r is c, op + ' returns the collection itself')


ALLOPS = OPS + ['update1', 'difference_update1', 'updateC', 'difference_updateC']


@R.family('history', [(2, a, b) for a in ALLOPS for b in ALLOPS] + [Th(3, a, b, c) for a in OPS for b in OPS for c in OPS], budget=40, validate=15, covers=('end',),
          bounds='m initial arbitrary integers, then the listed operations with arbitrary integer arguments (two for update/difference_update)')
def history(ctx, m, *ops):
    xs = ctx.ints('x', m, None, None)
    c = IndexCollection(list(xs))
    ref = Ref(xs)
    for t, op in enumerate(ops):
        vals = [ctx.int('v%d_%d' % (t, i)) for i in range(2 if op.startswith(('update', 'difference')) and not op.endswith('1') else 1)]
        step(ctx, c, ref, op, vals)
    same_set(ctx, c, ref.items, ctx.int('q'), 'after history')
    ctx.observe('size', len(c))
    ctx.cover('end')


@R.family('insertion_order', [(2, 3), Th(3, 4)], bounds='additions append in order; discards keep the order of the rest')
def order(ctx, m, k):
    xs = ctx.ints('x', m, None, None)
    c = IndexCollection(list(xs))
    base = list(c.index)
    vs = [ctx.int('v%d' % i) for i in range(k)]
    ref = list(base)
    for v in vs:
        c.add(v)
        if not any(bool(Eq(v, y)) for y in ref):
            ref.append(v)
    ctx.check(Eq(list(c.index), ref), 'added elements are appended in the order given', got=c.index, want=ref)
    d = ctx.int('d')
    c.discard(d)
    ref = [y for y in ref if not bool(Eq(d, y))]
    ctx.check(Eq(list(c.index), ref), 'discard removes exactly the element and keeps the order', got=c.index, want=ref)
    for i in range(len(ref)):
        ctx.check(Eq(c[i], ref[i]), 'positional access agrees with index')
    if m > 2:
        return
    r = ctx.int('r')
    there = any(bool(Eq(r, y)) for y in ref)
    ctx.check(ctx.raises(KeyError, c.remove, r) != there, 'removing an element raises iff it is not in the collection')
    ctx.check(Eq(list(c.index), [y for y in ref if not bool(Eq(r, y))]), 'remove takes out exactly the element', got=c.index)


@R.family('large', [(17, 1), (60, 1), Th(200, 1)], budget=60, bounds='n distinct concrete integers, arguments arbitrary')
def large(ctx, n, k):
    xs = [(i * 7) % n for i in range(n)] if n % 7 else list(range(n))
    c = IndexCollection(list(xs))
    ref = Ref([])
    ref.items = list(xs)
    for t in range(k):
        op = ctx.choice('op%d' % t, ['add', 'discard', 'update', 'difference_update'])
        vals = [ctx.int('v%d_0' % t)]
        step(ctx, c, ref, op, vals)
    q = ctx.int('q')
    items = list(c.index)
    ctx.check(Iff(In(q, items), In(q, ref.items)), 'an arbitrary value is stored iff it is in the reference set')
    ctx.check(len(items) == len(ref.items), 'size agrees with the reference set')


@R.family('sampling', [3, 4, Th(5), Th(6)], budget=90, bounds='n elements, arbitrary rate in (0,1), arbitrary permutation')
def sampling(ctx, n):
    xs = ctx.ints('x', n, None, None)
    ctx.assume(Distinct(xs))
    c = IndexCollection(list(xs))
    rate = ctx.real('rate', 0, 1)
    ctx.assume(And(rate > 0, rate < 1))
    k = round(rate * n)
    try:
        s = c.random_sampling(rate)
    except AssertionError:
        ctx.check(False, 'random_sampling accepts every rate in (0,1)')
    items = list(s.index)
    ctx.check(Eq(len(items), k), 'sample has round(rate*n) elements', got=len(items), want=k)
    ctx.check(Distinct(items), 'sample has no duplicates')
    for v in items:
        ctx.check(In(v, xs), 'sampled elements come from the collection')
    ctx.check(Eq(len(c), n), 'the collection keeps its size')
    for v in xs:
        ctx.check(v in c, 'the collection keeps its elements')


@R.case('aliasing', bounds='3 arbitrary integers')
def aliasing(ctx):
    xs = ctx.ints('x', 3, None, None)
    src = list(xs)
    c = IndexCollection(src)
    v = ctx.int('v')
    idx = c.index
    idx.append(v)
    src.append(v)
    src2 = [ctx.int('w')]
    c.update(src2)
    src2.append(v)
    same_set(ctx, c, xs + [src2[0]], ctx.int('q'), 'after the caller changed the lists it passed or received')
    o = IndexCollection([ctx.int('z')])
    c.difference_update(o)
    ctx.check(len(o) == 1, 'difference_update leaves its argument as it was')


@R.case('self_difference', bounds='3 distinct arbitrary integers')
def self_difference(ctx):
    xs = ctx.ints('x', 3, None, None)
    c = IndexCollection(list(xs))
    c.update(c)
    same_set(ctx, c, xs, ctx.int('q'), 'update with itself')
    c.difference_update(c)
    ctx.check(len(c) == 0, 'difference_update with itself leaves nothing')


@R.case('empty_start', bounds='two arbitrary integers added to an empty collection')
def empty_start(ctx):
    c = IndexCollection()
    ctx.check(len(c) == 0, 'an empty collection has no elements')
    a, b = ctx.int('a'), ctx.int('b')
    c.update([a, b])
    same_set(ctx, c, [a, b], ctx.int('q'), 'updates of an empty collection')
