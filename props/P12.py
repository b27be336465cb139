"""P12 A matrix repository keeps rows, labels, indexes and costs aligned through every change."""
import numpy as np
from sx.case import Registry, Th
from sx.engine import And, Or, Not, Implies, Iff, Eq, Close, In, Distinct, Sum, Ite
from alipy.oracle.knowledge_repository import MatrixRepository
from alipy.index.index_collections import IndexCollection

R = Registry()
KEYS = [4, 0, 7]


def rows(x):
    return [list(r) for r in x]


def lab(y, multi):
    return rows(y) if multi else list(y)


def model_check(ctx, repo, m, exa, multi, cost, nq, label):
    X, y, ind = repo.get_training_data()
    ctx.check(Eq(list(ind), [r[0] for r in m]), label + ': the training data has each index once, in order', got=list(ind))
    ctx.check(Eq(lab(y, multi), [r[1] for r in m]), label + ': with its label')
    if exa:
        ctx.check(Eq(rows(X), [list(r[2]) for r in m]), label + ': and its example')
    else:
        ctx.check(X is None, label + ': without examples there are none')
    for k in KEYS + [9]:
        ctx.check(bool(k in repo) == (k in [r[0] for r in m]), label + ': membership')
        w = [r for r in m if r[0] == k]
        for form in ((k, [k])):
            X, y = repo.retrieve_by_indexes(form)
            ctx.check(Eq(lab(y, multi), [r[1] for r in w]), label + ': retrieval by index', got=y)
            if exa:
                ctx.check(Eq(rows(X), [list(r[2]) for r in w]), label + ': retrieved example', got=X)
    want = [r for k in (7, 9, 4) for r in m if r[0] == k]
    X, y = repo.retrieve_by_indexes([7, 9, 4])
    ctx.check(Eq(lab(y, multi), [r[1] for r in want]), label + ': several indexes: unknown ones are skipped, the order asked is kept')
    ctx.check(Eq(lab(repo[[7, 9, 4]][1], multi), [r[1] for r in want]), label + ': subscription retrieves')
    ctx.check(Close(repo.cost_inall, cost), label + ': the cost is the sum of the costs given', got=repo.cost_inall, want=cost)
    ctx.check(repo.num_of_queries == nq, label + ': number of queries')
    ctx.check('number_of_queries:%d\n' % nq in repo.full_history().replace(' ', '\n'), label + ': the history shows the queries', got=repo.full_history())


def newlab(ctx, name, multi):
    return ctx.ints(name, 2, 0, 1) if multi else ctx.int(name, 0, 9)


def exs(ctx, name, exa):
    return tuple(ctx.ints(name, 2, -3, 3)) if exa else None


@R.family('history', [(1, True, False, 1), (2, True, False, 1), (1, False, True, 2), (2, True, True, 1), Th(1, True, False, 2), Th(2, False, False, 2), Th(2, True, True, 2)], budget=90, validate=20, covers=('end', 'discarded', 'cleared', 'added'),
          bounds='n initial items, examples or not, one label or two per item, k operations, arbitrary labels, examples and costs, items of 3 indexes')
def history(ctx, n, exa, multi, k):
    m = []
    for i in range(n):
        m.append((KEYS[i], newlab(ctx, 'y%d' % i, multi), exs(ctx, 'e%d' % i, exa)))
    repo = MatrixRepository(ctx.arr([r[1] for r in m]), [r[0] for r in m], examples=ctx.arr([list(r[2]) for r in m]) if exa else None)
    cost, nq = 0, 0

    def put(key, y, e, c):
        # a repeated index is skipped with a warning
        if key in [r[0] for r in m]:
            return 0
        m.append((key, y, e))
        return c
    for t in range(k):
        op = ctx.choice('op%d' % t, ['add', 'update1', 'update2', 'discard', 'clear'])
        key = ctx.choice('k%d' % t, KEYS) if op != 'clear' else None
        y, e, c = newlab(ctx, 'ny%d' % t, multi), exs(ctx, 'x%d' % t, exa), ctx.real('c%d' % t, 0, 5)
        costly = op in ('add', 'update1', 'update2') and ctx.flag('costly%d' % t)
        if not costly:
            c = 0
        if op == 'add':
            repo.add(y, key, cost=c if costly else None, example=list(e) if exa else None)
            cost = cost + put(key, y, e, c)
            ctx.cover('added')
        elif op == 'update1':
            if ctx.flag('bare%d' % t) and not multi:
                repo.update_query(y, key, cost=c if costly else None, examples=[list(e)] if exa else None)
            else:
                repo.update_query([y], [key], cost=[c] if costly else None, examples=[list(e)] if exa else None)
            cost, nq = cost + put(key, y, e, c), nq + 1
        elif op == 'update2':
            key2 = KEYS[(KEYS.index(key) + 1) % 3]
            y2, e2, c2 = newlab(ctx, 'my%d' % t, multi), exs(ctx, 'z%d' % t, exa), ctx.real('d%d' % t, 0, 5) if costly else 0
            ks = IndexCollection([key, key2]) if ctx.flag('coll%d' % t) else [key, key2]
            order = list(ks.index) if not isinstance(ks, list) else ks
            repo.update_query([y, y2], ks, cost=[c, c2] if costly else None, examples=[list(e), list(e2)] if exa else None)
            a = put(order[0], y, e, c)
            b = put(order[1], y2, e2, c2)
            cost, nq = cost + a + b, nq + 1
        elif op == 'discard':
            repo.discard(index=key)
            m[:] = [r for r in m if r[0] != key]
            ctx.cover('discarded')
        else:
            repo.clear()
            m[:], cost, nq = [], 0, 0
            exa = False
            ctx.cover('cleared')
        model_check(ctx, repo, m, exa, multi, cost, nq, 'after %s' % op)
    ctx.cover('end')


@R.family('long', ['adadad', 'aaddad', 'uudada', 'audcad'], budget=60, validate=10, covers=('end',),
          bounds='one initial item, six operations of the kinds given (addition, discarding, query update, clearing), arbitrary costs, items of 3 indexes')
def long(ctx, kinds):
    m, cost, nq = [(KEYS[0], 5, None)], 0, 0
    repo = MatrixRepository([5], [KEYS[0]])
    for t, op in enumerate(kinds):
        key = ctx.choice('k%d' % t, KEYS) if op != 'c' else None
        c = ctx.real('c%d' % t, 0, 5) if op in 'au' else 0
        new = key not in [r[0] for r in m]
        if op == 'd':
            repo.discard(index=key)
            m[:] = [r for r in m if r[0] != key]
        elif op == 'c':
            repo.clear()
            m[:], cost, nq = [], 0, 0
        else:
            repo.add(t + 10, key, cost=c) if op == 'a' else repo.update_query([t + 10], [key], cost=[c])
            nq += op == 'u'
            if new:
                m.append((key, t + 10, None))
                cost = cost + c
    model_check(ctx, repo, m, False, False, cost, nq, 'after %d operations' % len(kinds))
    ctx.cover('end')


@R.family('by_example', [2, 3], budget=60, validate=20, covers=('found', 'missing', 'end'), bounds='n items with arbitrary distinct examples, an arbitrary example asked')
def by_example(ctx, n):
    E = [[ctx.int('e%d' % i, 0, 3), ctx.real('f%d' % i, 0, 1000)] for i in range(n)]
    for i in range(n):
        for j in range(i):
            ctx.assume(Not(Eq(E[i], E[j])))
    Y = ctx.ints('y', n, 0, 9)
    repo = MatrixRepository(ctx.arr(Y), list(range(n)), examples=ctx.arr([list(e) for e in E]))
    q = [ctx.int('q', 0, 3), ctx.real('qf', 0, 1000)]
    known = Or([Eq(q, e) for e in E])
    X, y = repo.retrieve_by_examples(list(q))
    if X is None:
        ctx.check(Not(known), 'an example held is found')
        ctx.cover('missing')
    else:
        ctx.check(And([Implies(Eq(q, e), Eq(y, v)) for e, v in zip(E, Y)]), 'the label of the example is returned')
        ctx.check(And(known, Eq(list(X), q)), 'with the example')
        ctx.cover('found')
    X, y = repo.retrieve_by_examples([list(q), list(E[0])])
    ctx.check(len(y) == 2 if bool(known) else len(y) == 1, 'several examples: those held are returned')
    ctx.check(Eq(y[len(y) - 1], Y[0]), 'in the order asked')
    repo.discard(example=list(q))
    X, y, ind = repo.get_training_data()
    for i in range(n):
        ctx.check(Iff(In(i, list(ind)), Not(Eq(E[i], q))), 'discarding an example removes exactly its item')
    ctx.check(len(ind) == len(y) == len(X), 'rows stay aligned')
    for p, i in enumerate(ind):
        ctx.check(And(Eq(y[p], Y[i]), Eq(list(X[p]), E[i])), 'rows stay aligned')
    ctx.cover('end')


@R.case('independent', bounds='the caller changes what it passed or was given', covers=('end',))
def independent(ctx):
    y0 = ctx.ints('y', 2, 0, 9)
    ys, ks, es = ctx.arr(list(y0)), np.array([4, 0]), np.array([[0, 0], [0, 1]])
    repo = MatrixRepository(ys, ks, examples=es)
    want = [(4, y0[0], (0, 0)), (0, y0[1], (0, 1))]
    ys[0] = 77
    ks[0] = 5
    es[0][0] = 9
    X, y, i = repo.get_training_data()
    i[0] = 55
    y[0] = 44
    X[0] = 33
    model_check(ctx, repo, want, True, False, 0, 0, 'after the caller changed its arrays')
    ctx.cover('end')


@R.case('refused', bounds='fixed arguments')
def refused(ctx):
    ctx.check(ctx.raises(ValueError, MatrixRepository, [1, 2], [1]), 'labels and indexes of different lengths are refused')
    repo = MatrixRepository([1, 2], [4, 0], examples=[(0, 0), (0, 1)])
    want = [(4, 1, (0, 0)), (0, 2, (0, 1))]
    ctx.check(ctx.raises(Exception, repo.add, 1, 7), 'an addition without its example is refused')
    ctx.check(ctx.raises(TypeError, repo.add, [1, 2], 7, None, [1, 1]), 'a label vector is refused where labels are numbers')
    ctx.check(ctx.raises(ValueError, repo.update_query, [1], [7, 8]), 'a query of different lengths is refused')
    ctx.check(ctx.raises(Exception, repo.discard), 'discarding needs an index or an example')
    repo.discard(index=9)
    repo.discard(example=[9, 9])
    model_check(ctx, repo, want, True, False, 0, 0, 'after refused calls')
    multi = MatrixRepository([[1, 0], [0, 1]], [4, 0])
    ctx.check(ctx.raises(ValueError, multi.add, [1, 0, 1], 7), 'a label vector of another length is refused')
    model_check(ctx, multi, [(4, [1, 0], None), (0, [0, 1], None)], False, True, 0, 0, 'after refused calls')
