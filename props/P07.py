"""P07 A workspace rebuilt from the recorded queries is the initial one moved by exactly those queries."""
import numpy as np
from sx.case import Registry, Th
from sx.engine import And, Or, Not, Implies, Iff, Eq, In, Distinct, Sum
from alipy.experiment.state import State
from alipy.experiment.state_io import StateIO
from alipy.index.index_collections import IndexCollection, MultiLabelIndexCollection, FeatureIndexCollection

R = Registry()
ASSUMPTIONS = ['queries are lists of indexes; labeled and unlabeled sets start disjoint']


def build(ctx, nl, nu, form):
    xs = ctx.ints('x', nl + nu, 0, 8)
    ctx.hash_universe = tuple(range(9))
    ctx.assume(Distinct(xs))
    L, U = xs[:nl], xs[nl:]
    if form == 'col':
        return xs, L, U, StateIO(0, list(xs), [50, 51], IndexCollection(list(L)), IndexCollection(list(U)), verbose=False)
    if form == 'mixed':
        return xs, L, U, StateIO(0, list(xs), [50, 51], list(L), IndexCollection(list(U)), verbose=False)
    return xs, L, U, StateIO(0, list(xs), [50, 51], list(L), list(U), verbose=False)


def scribble(ws, U):
    ws[2].update([88])
    ws[3].difference_update(list(U)[:1])
    for x in ws[:2]:
        if isinstance(x, list):
            x.append(99)
        else:
            x[0] = 99


def same(ctx, ws, L, U, queried, q, train, label):
    tr, te, gl, gu = ws
    ctx.check(Eq(list(tr), list(train)) if isinstance(tr, (list, np.ndarray)) else False, label + ': training indexes are the initial ones')
    ctx.check(Eq(list(te), [50, 51]), label + ': testing indexes are the initial ones')
    gl, gu = list(gl.index), list(gu.index)
    ctx.check(Iff(In(q, gl), Or(In(q, L), In(q, queried))), label + ': labeled = initial labeled + queried', got=gl)
    ctx.check(Iff(In(q, gu), And(In(q, U), Not(In(q, queried)))), label + ': unlabeled = initial unlabeled - queried', got=gu)
    ctx.check(And(Distinct(gl), Distinct(gu)), label + ': no index twice')


@R.family('history', [('list', 1, 3, (1, 1)), ('col', 1, 3, (2, 1)), ('mixed', 1, 3, (1, 2)), ('list', 2, 2, (1, 1, 1)), Th('list', 1, 4, (2, 2)), Th('col', 2, 4, (1, 1, 1))], budget=60, validate=20, covers=('end',),
          bounds='nl labeled and nu unlabeled arbitrary distinct indexes, queries of the listed batch sizes with arbitrary unlabeled indexes')
def history(ctx, form, nl, nu, batches):
    xs, L, U, io = build(ctx, nl, nu, form)
    q = ctx.int('q', -1, 9)
    qs = []
    for k, b in enumerate(batches):
        v = ctx.ints('v%d' % k, b, 0, 8)
        for w in v:
            ctx.assume(In(w, U))
        sel = list(v)
        io.add_state(State(sel if b > 1 or k % 2 else sel[0], performance=0.5))
        sel.append(77)
        qs.append(v)
    for it in range(len(batches) + 1):
        queried = [w for v in qs[:it] for w in v]
        ws = io.get_workspace(it)
        same(ctx, ws, L, U, queried, q, xs, 'workspace after %d queries' % it)
        scribble(ws, U)
        same(ctx, io.get_workspace(it), L, U, queried, q, xs, 'workspace again, after the caller changed the first')
    queried = [w for v in qs for w in v]
    same(ctx, io.get_workspace(), L, U, queried, q, xs, 'current workspace')
    ctx.check(len(io) == len(batches), 'reading a workspace discards no state')
    same(ctx, io.recover_workspace(), L, U, queried, q, xs, 'recovered current workspace')
    ctx.check(len(io) == len(batches), 'recovering the current workspace discards no state')
    it = ctx.index('it', 0, len(batches))
    ws = io.recover_workspace(it)
    same(ctx, ws, L, U, [w for v in qs[:it] for w in v], q, xs, 'recovered workspace')
    scribble(ws, U)
    ctx.check(len(io) == it and io.num_of_query() == it, 'recovering discards exactly the later states')
    same(ctx, io.get_workspace(), L, U, [w for v in qs[:it] for w in v], q, xs, 'current workspace after recovery')
    for bad in (it + 1, -1):
        ctx.check(ctx.raises(AssertionError, io.get_workspace, bad), 'an iteration that does not exist is refused')
        ctx.check(ctx.raises(AssertionError, io.recover_workspace, bad), 'an iteration that does not exist is refused')
    w = ctx.int('w', 0, 8)
    ctx.assume(In(w, U))
    io.add_state(State([w], performance=0.1))
    same(ctx, io.get_workspace(), L, U, [x for v in qs[:it] for x in v] + [w], q, xs, 'workspace after recovery and another query')
    ctx.cover('end')


@R.family('pop', [(None,), (0,), (1,)], budget=60, validate=20, covers=('end',), bounds='three single queries, one popped')
def pop(ctx, pos):
    xs, L, U, io = build(ctx, 1, 3, 'list')
    q = ctx.int('q', -1, 9)
    v = ctx.ints('v', 3, 0, 8)
    for w in v:
        ctx.assume(In(w, U))
        io.add_state(State([w], performance=0.5, cost=2))
    st = io.pop() if pos is None else io.pop(pos)
    p = 2 if pos is None else pos
    ctx.check(Eq(st.get_value('select_index')[0], v[p]), 'pop returns the state at the position, by default the last')
    same(ctx, io.get_workspace(), L, U, v[:p] + v[p + 1:], q, xs, 'workspace after pop')
    ctx.check(len(io) == 2, 'pop removes one state')
    ctx.cover('end')


def has(ps, i, j):
    return Or([And(Eq(a, i), Eq(b, j)) for a, b in ps])


@R.family('multi_label', [('one', 'one'), ('full', 'one'), ('list', 'full'), ('one', 'list'), Th('list', 'list')], budget=60, validate=20, covers=('end',), bounds='2 instances x 2 labels, two queries of the listed index forms')
def multi_label(ctx, *forms):
    ni, L = 2, 2
    ctx.hash_universe = (0, 1)
    lab = (ctx.int('li', 0, 1), ctx.int('lj', 0, 1))
    grid = [(i, j) for i in range(ni) for j in range(L)]
    l0 = (int(lab[0]), int(lab[1]))
    U0 = [g for g in grid if g != l0]
    cls = MultiLabelIndexCollection if ctx.flag('ml') else FeatureIndexCollection
    io = StateIO(0, [0, 1], [5], cls([l0], L), cls(list(U0), L), verbose=False)
    qp = [[]]
    for k, f in enumerate(forms):
        i = ctx.int('i%d' % k, 0, 1)
        if f == 'one':
            j = ctx.int('j%d' % k, 0, 1)
            sel, ps = (i, j), [(i, j)]
        elif f == 'full':
            sel, ps = (i,), [(i, 0), (i, 1)]
        else:
            js = ctx.ints('j%d' % k, 2, 0, 1)
            sel, ps = (i, list(js)), [(i, j) for j in js]
        io.add_state(State([sel] if ctx.flag('aslist%d' % k) else sel, performance=0.1))
        qp.append(qp[-1] + ps)
    it = ctx.index('it', 0, len(forms))
    for ws in (io.get_workspace(it), io.recover_workspace(it)):
        for i, j in grid:
            ctx.check(Iff(has(ws[2].index, i, j), Or((i, j) == l0, has(qp[it], i, j))), 'labeled pairs = initial + queried', got=ws[2].index)
            ctx.check(Iff(has(ws[3].index, i, j), And((i, j) != l0, Not(has(qp[it], i, j)))), 'unlabeled pairs = initial - queried', got=ws[3].index)
    ctx.cover('end')


@R.case('multi_label_plain', bounds='index lists of a 2x3 label matrix, labels of the initial labeled set arbitrary', covers=('end',))
def multi_label_plain(ctx):
    ctx.hash_universe = (0, 1, 2)
    lj = ctx.index('lj', 0, 2)
    grid = [(i, j) for i in range(2) for j in range(3)]
    U0 = [g for g in grid if g != (0, lj)]
    io = StateIO(0, [0, 1], [5], [(0, lj)], list(U0), verbose=False)
    i, j = ctx.index('i', 0, 1), ctx.index('j', 0, 2)
    io.add_state(State([(i, j)], performance=0.1))
    ws = io.get_workspace()
    ctx.check(set(ws[2].index) == {(0, lj), (i, j)}, 'labeled pairs = initial + queried', got=ws[2].index)
    ctx.check(set(ws[3].index) == set(U0) - {(i, j)}, 'unlabeled pairs = initial - queried', got=ws[3].index)
    ctx.cover('end')


@R.case('independent', bounds='collections and lists passed by the caller are changed afterwards', covers=('end',))
def independent(ctx):
    xs = ctx.ints('x', 4, 0, 8)
    ctx.hash_universe = tuple(range(9))
    ctx.assume(Distinct(xs))
    train, test = list(xs), [50, 51]
    l, u = IndexCollection([xs[0]]), IndexCollection(list(xs[1:]))
    io = StateIO(0, train, test, l, u, verbose=False)
    l.update(xs[1])
    u.difference_update(xs[1])
    train.append(9)
    test.append(9)
    sel = [xs[2]]
    io.add_state(State(sel, performance=0.5))
    sel[0] = 77
    got = io.get_state(0)
    got.set_value('select_index', [76])
    q = ctx.int('q', -1, 9)
    same(ctx, io.get_workspace(), xs[:1], xs[1:], [xs[2]], q, xs, 'workspace after the caller changed the objects it passed')
    ws = io.recover_workspace(0)
    same(ctx, ws, xs[:1], xs[1:], [], q, xs, 'recovered workspace after the caller changed the objects it passed')
    scribble(ws, xs[1:])
    same(ctx, io.get_workspace(), xs[:1], xs[1:], [], q, xs, 'workspace after the caller changed the recovered one')
    ctx.cover('end')
