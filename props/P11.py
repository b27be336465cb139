"""P11 An element repository holds exactly what was put in and not taken out."""
import numpy as np
from sx.case import Registry, Th
from sx.engine import And, Or, Not, Implies, Iff, Eq, Close, In, Distinct, Sum, Ite
from alipy.oracle.knowledge_repository import ElementRepository
from alipy.index.index_collections import IndexCollection

R = Registry()
EXA = [(0, 0), (0, 1), (1, 1)]
KEYS = [4, 0, 7]


def rows(x):
    return [list(r) for r in x]


def model_check(ctx, repo, m, exa, cost, nq, label):
    """m: list of (index, label, example) in order."""
    X, y, ind = repo.get_training_data()
    ctx.check(list(ind) == [r[0] for r in m], label + ': the training data has each index once, in order', got=list(ind), want=[r[0] for r in m])
    if list(ind) == [r[0] for r in m]:
        ctx.check(Eq(list(y), [r[1] for r in m]), label + ': with the label last given')
        if exa:
            ctx.check(Eq(rows(X), [list(r[2]) for r in m]), label + ': and its example')
    for k in KEYS + [9]:
        ctx.check((k in repo) == (k in [r[0] for r in m]), label + ': membership')
        X, y = repo.retrieve_by_indexes(k)
        w = [r for r in m if r[0] == k]
        ctx.check(len(y) == len(w) and Eq(list(y), [r[1] for r in w]), label + ': retrieval by index', got=list(y))
        if exa:
            ctx.check(Eq(rows(X), [list(r[2]) for r in w]), label + ': retrieved example')
    want = [r for k in (7, 9, 4) for r in m if r[0] == k]
    X, y = repo.retrieve_by_indexes([7, 9, 4])
    ctx.check(Eq(list(y), [r[1] for r in want]), label + ': retrieval by several indexes skips unknown ones and keeps the order asked')
    X2, y2 = repo[[7, 9, 4]]
    ctx.check(Eq(list(y2), list(y)), label + ': subscription retrieves')
    if exa:
        for e in EXA:
            X, y = repo.retrieve_by_examples(list(e))
            w = [r for r in m if r[2] == e]
            if not w:
                ctx.check(len(y) == 0, label + ': an example that is not held gives nothing')
            elif len(w) == 1:
                ctx.check(Eq(list(y), [w[0][1]]), label + ': retrieval by example')
            else:
                ctx.check(len(y) == 1 and In(y[0], [r[1] for r in w]), label + ': an example held twice gives one of its labels')
    ctx.check(Close(repo.cost_inall, cost), label + ': the cost is the sum of the costs given', got=repo.cost_inall, want=cost)
    ctx.check(repo.num_of_queries == nq, label + ': number of queries')
    ctx.check('number_of_queries:%d\n' % nq in repo.full_history().replace(' ', '\n'), label + ': the history shows the queries', got=repo.full_history())


def put(m, k, y, e):
    for i, r in enumerate(m):
        if r[0] == k:
            m[i] = (k, y, e)
            return
    m.append((k, y, e))


@R.family('history', [(1, True, 1), (2, True, 1), (1, False, 2), (2, False, 1), Th(1, True, 2), Th(2, True, 2), Th(2, False, 2)], budget=90, validate=20, covers=('end', 'discarded', 'cleared', 'added'),
          bounds='n initial items, k operations, arbitrary labels and costs, items of 3 indexes and 3 examples')
def history(ctx, n, exa, k):
    m = []
    for i in range(n):
        m.append((KEYS[i], ctx.int('y%d' % i, 0, 9), EXA[ctx.index('e%d' % i, 0, 1)] if exa else None))
    repo = ElementRepository([r[1] for r in m], [r[0] for r in m], examples=[list(r[2]) for r in m] if exa else None)
    cost, nq = 0, 0
    for t in range(k):
        op = ctx.choice('op%d' % t, ['add', 'update1', 'update2', 'discard', 'discard_example', 'clear'] if exa else ['add', 'update1', 'update2', 'discard', 'clear'])
        key = ctx.choice('k%d' % t, KEYS) if op != 'clear' else None
        e = EXA[ctx.index('x%d' % t, 0, 2)] if exa and op not in ('discard', 'clear') else None
        y, c = ctx.int('ny%d' % t, 0, 9), ctx.real('c%d' % t, 0, 5)
        costly = op in ('add', 'update1', 'update2') and ctx.flag('costly%d' % t)
        if op == 'add':
            repo.add(key, y, cost=c if costly else None, example=list(e) if exa else None)
            put(m, key, y, e)
            cost = cost + (c if costly else 0)
            ctx.cover('added')
        elif op == 'update1':
            if ctx.flag('bare%d' % t):
                repo.update_query(key, y, cost=c if costly else None, examples=[list(e)] if exa else None)
            else:
                repo.update_query([key], [y], cost=[c] if costly else None, examples=[list(e)] if exa else None)
            put(m, key, y, e)
            cost, nq = cost + (c if costly else 0), nq + 1
        elif op == 'update2':
            key2 = KEYS[(KEYS.index(key) + 1) % 3]
            y2, c2 = ctx.int('my%d' % t, 0, 9), ctx.real('d%d' % t, 0, 5)
            ks = IndexCollection([key, key2]) if ctx.flag('coll%d' % t) else [key, key2]
            order = list(ks.index) if not isinstance(ks, list) else ks
            repo.update_query(ks, [y, y2], cost=[c, c2] if costly else None, examples=[list(e), list(EXA[2])] if exa else None)
            put(m, order[0], y, e)
            put(m, order[1], y2, EXA[2] if exa else None)
            cost, nq = cost + (c + c2 if costly else 0), nq + 1
        elif op == 'discard':
            repo.discard(index=key)
            m[:] = [r for r in m if r[0] != key]
            ctx.cover('discarded')
        elif op == 'discard_example':
            w = [r for r in m if r[2] == e]
            if len(w) > 1:
                # which of the two goes is not specified
                repo.discard(example=list(e))
                left = list(repo.get_training_data()[2])
                ctx.check(len(left) == len(m) - 1, 'discarding an example removes one item')
                m[:] = [r for r in m if r[0] in left or r[2] != e]
            else:
                repo.discard(example=list(e))
                m[:] = [r for r in m if r[2] != e]
        else:
            repo.clear()
            m[:], cost, nq = [], 0, 0
            exa = False
            ctx.cover('cleared')
        model_check(ctx, repo, m, exa, cost, nq, 'after %s' % op)
    ctx.cover('end')


@R.family('long', [('adadad', False), ('aaddad', False), ('uudada', False), ('aduca', False), ('aada', True), ('aduda', True)], budget=60, validate=10, covers=('end',),
          bounds='one initial item, the operations given (addition, discarding, query update, clearing), arbitrary costs, items of 3 indexes and 2 examples')
def long(ctx, kinds, exa):
    m, cost, nq = [(KEYS[0], 5, EXA[0] if exa else None)], 0, 0
    repo = ElementRepository([5], [KEYS[0]], examples=[list(EXA[0])] if exa else None)
    for t, op in enumerate(kinds):
        key = ctx.choice('k%d' % t, KEYS) if op != 'c' else None
        e = EXA[ctx.index('x%d' % t, 0, 1)] if exa and op in 'au' else None
        c = ctx.real('c%d' % t, 0, 5) if op in 'au' else 0
        if op == 'd':
            repo.discard(index=key)
            m[:] = [r for r in m if r[0] != key]
        elif op == 'c':
            repo.clear()
            m[:], cost, nq = [], 0, 0
        else:
            ex = list(e) if exa else None
            repo.add(key, t + 10, cost=c, example=ex) if op == 'a' else repo.update_query([key], [t + 10], cost=[c], examples=[ex] if exa else None)
            nq += op == 'u'
            put(m, key, t + 10, e)
            cost = cost + c
    model_check(ctx, repo, m, exa, cost, nq, 'after %d operations' % len(kinds))
    ctx.cover('end')


@R.case('pairs', bounds='indexes that are (instance, label) pairs', covers=('end',))
def pairs(ctx):
    y, z, w = ctx.int('y', 0, 9), ctx.int('z', 0, 9), ctx.int('w', 0, 9)
    repo = ElementRepository([y], [(0, 1)])
    repo.update_query([(1, 1)], [z])
    repo.update_query([(0, 0), (0, 1)], [y, w])
    X, lab, ind = repo.get_training_data()
    ctx.check(Eq([tuple(int(v) for v in i) for i in ind], [(0, 1), (1, 1), (0, 0)]) and Eq(list(lab), [w, z, y]), 'pairs are kept in order with their labels')
    repo.discard(index=(1, 1))
    ctx.check((1, 1) not in repo and Eq(list(repo.retrieve_by_indexes([(0, 1)])[1]), [w]), 'a pair can be discarded and retrieved')
    ctx.cover('end')


@R.case('independent', bounds='the caller changes the lists it passed or was given', covers=('end',))
def independent(ctx):
    ys, ks, es = ctx.ints('y', 2, 0, 9), [4, 0], [[0, 0], [0, 1]]
    y0 = list(ys)
    repo = ElementRepository(ys, ks, examples=es)
    ys[0] = 77
    ks[0] = 5
    es[0][0] = 9
    X, y, i = repo.get_training_data()
    i[0] = 55
    y[0] = 44
    X[0] = 33
    model_check(ctx, repo, [(4, y0[0], (0, 0)), (0, y0[1], (0, 1))], True, 0, 0, 'after the caller changed its lists')
    n = [ctx.int('n', 0, 9)]
    repo.update_query([7], n, examples=[[1, 1]])
    ctx.cover('end')


@R.case('refused', bounds='fixed arguments')
def refused(ctx):
    ctx.check(ctx.raises(ValueError, ElementRepository, [1, 2], [1]), 'labels and indexes of different lengths are refused')
    ctx.check(ctx.raises(ValueError, ElementRepository, [1, 2], [1, 2], [[1]]), 'examples of another length are refused')
    repo = ElementRepository([1, 2], [4, 0], examples=[(0, 0), (0, 1)])
    ctx.check(ctx.raises(Exception, repo.add, 7, 1), 'an addition without its example is refused')
    ctx.check(ctx.raises(ValueError, repo.update_query, [7, 8], [1], None, None), 'a query of different lengths is refused')
    ctx.check(ctx.raises(Exception, repo.discard), 'discarding needs an index or an example')
    model_check(ctx, repo, [(4, 1, (0, 0)), (0, 2, (0, 1))], True, 0, 0, 'after refused calls')
    plain = ElementRepository([1, 2], [4, 0])
    ctx.check(ctx.raises(Exception, plain.discard, None, (0, 0)) and ctx.raises(Exception, plain.retrieve_by_examples, [(0, 0)]), 'without examples, examples are refused')
    model_check(ctx, plain, [(4, 1, None), (0, 2, None)], False, 0, 0, 'after refused calls')
