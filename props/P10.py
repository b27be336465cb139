"""P10 Oracles answer with the stored labels and costs, in order; unknown items raise KeyError; groups sum the costs."""
import os
import numpy as np
from sx.case import Registry, Th
from sx.engine import And, Or, Not, Implies, Iff, Eq, Close, In, Distinct, Sum, Ite
from alipy.oracle.oracle import Oracle, OracleQueryInstance, OracleQueryMultiLabel, OracleQueryFeatures, Oracles

R = Registry()


def pick(table, k):
    """table: list of (key, value); the value stored under the symbolic key k."""
    r = table[-1][1]
    for key, v in table[:-1][::-1]:
        r = Ite(Eq(k, key), v, r)
    return r


def label_table(ctx, n, kind):
    if kind == 'str':
        return [ctx.choice('y%d' % i, ['a', 'b']) for i in range(n)]
    return [ctx.int('y%d' % i, -2, 5) for i in range(n)]


@R.family('by_index', [(3, 2, 'int'), (2, 2, 'int'), (2, 1, 'str'), Th(4, 3, 'int'), Th(3, 2, 'str')], budget=60, validate=20, covers=('end', 'unknown', 'added'),
          bounds='n items, q queried indexes, arbitrary labels and costs, default or shuffled index keys')
def by_index(ctx, n, q, kind):
    """Queries by index with arbitrary (also unknown) indexes, before and after adding entries."""
    custom = ctx.flag('custom')
    keys = [n + 1, 0, 2, 1][:n] if custom else list(range(n))
    ctx.hash_universe = tuple(range(n + 2))
    ys = label_table(ctx, n, kind)
    has_cost = ctx.flag('has_cost')
    cs = ctx.reals('c', n, 0, 9) if has_cost else [1] * n
    o = OracleQueryInstance(ctx.arr(ys), indexes=list(keys) if custom else None, cost=list(cs) if has_cost else None)
    table = list(zip(keys, zip(ys, cs)))
    for rnd in range(2):
        ctx.check(Eq(sorted(o.index_keys), sorted(k for k, _ in table)), 'index_keys are the known indexes')
        qs = [ctx.int('q%d_%d' % (rnd, i), 0, n + 1) for i in range(q)]
        known = And([In(k, [t[0] for t in table]) for k in qs])
        form = ctx.choice('form%d' % rnd, ['list', 'array', 'scalar']) if q == 1 else 'list'
        arg = qs[0] if form == 'scalar' else (ctx.arr(qs) if form == 'array' else list(qs))
        try:
            lab, cost = o.query_by_index(arg)
            ctx.check(known, 'an unknown index is refused', q=qs)
            ctx.check(len(lab) == q and len(cost) == q, 'one answer and one cost for each query')
            for i in range(q):
                if kind == 'int':
                    ctx.check(Eq(lab[i], pick([(k, v[0]) for k, v in table], qs[i])), 'the stored label is returned')
                else:
                    ctx.check(Or([And(Eq(qs[i], k), lab[i] == v[0]) for k, v in table]), 'the stored label is returned')
                ctx.check(Close(cost[i], pick([(k, v[1]) for k, v in table], qs[i])), 'the stored cost is returned')
        except KeyError:
            ctx.check(Not(known), 'a known index is answered', q=qs)
            ctx.cover('unknown')
        if rnd == 1 or not custom:
            break
        # a later addition, one or two entries
        m = 2 if ctx.flag('two') else 1
        nk = list(range(n + 2, n + 2 + m))
        ny = ['a', 'c'][:m] if kind == 'str' else ctx.ints('ny', m, -2, 5)
        nc = ctx.reals('nc', m, 0, 9) if has_cost else None
        ctx.hash_universe = tuple(range(n + 2 + m))
        if m == 1 and ctx.flag('scalar_add'):
            o.add_knowledge(ny[0], nk[0], cost=nc[0] if has_cost else None)
        else:
            o.add_knowledge(list(ny), list(nk), cost=nc)
        table += list(zip(nk, zip(ny, nc if has_cost else [1] * m)))
        lab, cost = o.query_by_index(list(nk))
        ctx.check(list(lab) == list(ny) if kind == 'str' else Eq(list(lab), list(ny)), 'added labels are returned')
        ctx.check(Close(list(cost), [t[1][1] for t in table[-m:]]), 'added costs are returned')
        ctx.cover('added')
    ctx.cover('end')


@R.family('by_example', [(2, 2), (3, 1), Th(3, 2)], budget=60, validate=20, covers=('end', 'unknown'), bounds='n distinct examples with d integer features in 0..1 (0..3 if d=1)')
def by_example(ctx, n, d):
    hi = 3 if d == 1 else 1
    ctx.hash_universe = tuple(range(hi + 1))
    X = [[ctx.int('x%d_%d' % (i, j), 0, hi) for j in range(d)] for i in range(n)]
    for i in range(n):
        for j in range(i):
            ctx.assume(Not(Eq(X[i], X[j])))
    ys, cs = ctx.ints('y', n, 0, 5), ctx.reals('c', n, 0, 9)
    idx = list(range(10, 10 + n))
    o = Oracle(ctx.arr(ys), examples=ctx.arr(X), indexes=idx, cost=list(cs))
    if d == 2 and ctx.flag('add'):
        if ctx.flag('add list'):
            o.add_knowledge([9], [99], [example_new(X, hi)], [4])
        else:
            o.add_knowledge(9, 99, example_new(X, hi), 4)
        lab, cost = o.query_by_example(list(example_new(X, hi)))
        ctx.check(Eq(list(lab), [9]) and Eq(list(cost), [4]), 'an example added later is found')
    qs = [[ctx.int('q%d_%d' % (i, j), 0, hi) for j in range(d)] for i in range(2)]
    known = And([Or([Eq(q, x) for x in X]) for q in qs])
    try:
        lab, cost = o.query_by_example([list(q) for q in qs])
        ctx.check(known, 'an unknown example is refused')
        for i in range(2):
            for x, y, c in zip(X, ys, cs):
                ctx.check(Implies(Eq(qs[i], x), And(Eq(lab[i], y), Close(cost[i], c))), 'the label and cost of the example are returned')
        ctx.check(len(lab) == 2 and len(cost) == 2, 'one answer for each query')
        ctx.cover('end')
    except KeyError:
        ctx.check(Not(known), 'a known example is answered')
        ctx.cover('unknown')
    ctx.check(ctx.raises(KeyError, o.query_by_example, [[7] * d]), 'an example never seen is refused')
    lab, cost = o.query_by_index(idx)
    ctx.check(And(Eq(list(lab), ys), Close(list(cost), cs)), 'the same items are answered by index')
    p = Oracle(ctx.arr(ys))
    ctx.check(ctx.raises(Exception, p.query_by_example, [X[0]]), 'without examples a query by example is refused')


def example_new(X, hi):
    return [hi + 5] * len(X[0])


FORMS = {'full': lambda c, n, t, L: (c.int('i' + t, 0, n - 1),), 'one': lambda c, n, t, L: (c.int('i' + t, 0, n - 1), c.int('j' + t, 0, L - 1)),
         'list': lambda c, n, t, L: (c.int('i' + t, 0, n - 1), c.ints('j' + t, 2, 0, L - 1)), 'tuple': lambda c, n, t, L: (c.int('i' + t, 0, n - 1), tuple(c.ints('j' + t, 2, 0, L - 1)))}


def at(M, i, j):
    r = M[-1][-1]
    for a in range(len(M)):
        for b in range(len(M[0])):
            r = Ite(And(Eq(i, a), Eq(j, b)), M[a][b], r)
    return r


def ask_multi(ctx, o, Y, C, forms, L, tag=''):
    n = len(Y)
    qs = [FORMS[f](ctx, n, tag + str(k), L) for k, f in enumerate(forms)]
    lab, cost = o.query_by_index(list(qs) if len(qs) > 1 or ctx.flag('listed' + tag) else qs[0])
    ctx.check(len(lab) == len(qs) and len(cost) == len(qs), 'one answer and one cost vector for each query')
    for q, l, c in zip(qs, lab, cost):
        js = list(range(L)) if len(q) == 1 else (list(q[1]) if isinstance(q[1], (list, tuple)) else [q[1]])
        ctx.check(len(l) == len(js) and len(c) == len(js), 'one value for each addressed label', q=q)
        if len(l) == len(js) == len(c):
            ctx.check(Eq(list(l), [at(Y, q[0], j) for j in js]), 'exactly the addressed labels are returned')
            ctx.check(Close(list(c), [at(C, q[0], j) for j in js]), 'exactly their costs are returned')
    return lab, cost


@R.family('multi_label', [('full',), ('one', 'full'), ('list', 'one'), ('tuple',), Th('list', 'full', 'one'), Th('tuple', 'list')], budget=60, validate=20, covers=('end', 'added'),
          bounds='2 instances (3 after an addition), 3 labels, the index forms listed, costs: none, per label, per entry')
def multi_label(ctx, *forms):
    n, L = 2, 3
    Y = ctx.int_mat('y', n, L, -1, 1)
    kind = ctx.choice('cost', ['none', 'label', 'fine', 'fine_array'])
    w = ctx.reals('w', L, 0, 5)
    C = [[1] * L] * n if kind == 'none' else ([list(w)] * n if kind == 'label' else ctx.real_mat('c', n, L, 0, 5))
    o = OracleQueryMultiLabel(ctx.arr(Y), cost=None if kind == 'none' else (list(w) if kind == 'label' else (ctx.arr(C) if kind == 'fine_array' else [list(r) for r in C])))
    ctx.ite_index = True
    ask_multi(ctx, o, Y, C, forms, L)
    ctx.check(ctx.raises(KeyError, o.query_by_index, [(7, 0)]), 'an unknown instance is refused')
    ctx.check(ctx.raises(AssertionError, o.query_by_index, [(0, L)]) and ctx.raises(AssertionError, o.query_by_index, [(0, -1)]), 'a label out of range is refused')
    new = ctx.ints('n', L, -1, 1)
    nc = ctx.reals('nc', L, 0, 5)
    listed = ctx.flag('listed_add')
    how = dict(cost=([list(nc)] if listed else list(nc)) if kind.startswith('fine') else None)
    if listed:
        o.add_knowledge([list(new)], [n], **how)
    else:
        o.add_knowledge(list(new), n, **how)
    Y = Y + [new]
    C = C + [[1] * L if kind == 'none' else (list(w) if kind == 'label' else nc)]
    o.add_knowledge([9] * L, n, cost=[9] * L)
    ask_multi(ctx, o, Y, C, forms, L, 'b')
    ctx.cover('added')
    ctx.check(ctx.raises(ValueError, o.add_knowledge, [1] * (L + 1), n + 1, cost=[1] * L), 'a label vector of another length is refused')
    ctx.cover('end')


@R.family('multi_example', [('full', 'one'), ('list', 'full')], budget=60, validate=20, covers=('end',), bounds='3 examples, 3 labels, two queries')
def multi_example(ctx, *forms):
    n, L = 3, 3
    X = [[0, 0], [0, 1], [2, 1]]
    Y = ctx.int_mat('y', n, L, -1, 1)
    C = ctx.real_mat('c', n, L, 0, 5)
    idx = ['a', 'b', 'c'] if ctx.flag('named') else [5, 0, 2]
    o = OracleQueryMultiLabel(ctx.arr(Y), examples=X, indexes=idx, cost=ctx.arr(C))
    qs, rows = [], []
    for k, f in enumerate(forms):
        i = ctx.index('e%d' % k, 0, n - 1)
        rows.append(i)
        js = None if f == 'full' else (ctx.int('j%d' % k, 0, L - 1) if f == 'one' else ctx.ints('j%d' % k, 2, 0, L - 1))
        qs.append((X[i],) if js is None else (X[i], js))
    ctx.ite_index = True
    lab, cost = o.query_by_example(qs)
    for i, q, l, c in zip(rows, qs, lab, cost):
        js = list(range(L)) if len(q) == 1 else (list(q[1]) if isinstance(q[1], list) else [q[1]])
        ctx.check(Eq(list(l), [at(Y, i, j) for j in js]), 'the labels of the example are returned')
        ctx.check(Close(list(c), [at(C, i, j) for j in js]), 'with their costs')
    ctx.check(ctx.raises(KeyError, o.query_by_example, [([9, 9], 0)]), 'an unknown example is refused')
    ctx.cover('end')


@R.family('features', [('one', 'full'), ('list', 'one')], budget=60, validate=20, covers=('end',), bounds='2 instances x 3 features with real values, two queries')
def features(ctx, *forms):
    n, L = 2, 3
    F = ctx.real_mat('f', n, L, -3, 3)
    w = ctx.reals('w', L, 0, 5)
    o = OracleQueryFeatures(ctx.arr(F), cost=list(w))
    ctx.ite_index = True
    ask_multi(ctx, o, F, [list(w)] * n, forms, L)
    ctx.cover('end')


@R.family('group', [('scalar', 1), ('scalar', 2), ('multi', 1), ('multi', 2), Th('multi', 3), Th('scalar', 3)], budget=60, validate=20, covers=('end',), bounds='two oracles with arbitrary labels and costs, k rounds of queries')
def group(ctx, kind, k):
    """Costs and history of a group; query_from without a name asks some oracle of the group."""
    n, L = 2, 2
    Ys, Cs, os_ = [], [], Oracles()
    names = ['tom', 'amy']
    for a, name in enumerate(names):
        if kind == 'scalar':
            Y, C = ctx.ints('y%d' % a, n, 0, 3), ctx.reals('c%d' % a, n, 0, 5)
            o = OracleQueryInstance(ctx.arr(Y), cost=list(C))
        else:
            Y, C = ctx.int_mat('y%d' % a, n, L, -1, 1), ctx.real_mat('c%d' % a, n, L, 0, 5)
            o = OracleQueryMultiLabel(ctx.arr(Y), cost=ctx.arr(C))
        os_.add_oracle(name, o)
        Ys.append(Y)
        Cs.append(C)
    ctx.check(len(os_) == 2 and list(os_.names()) == names and os_.get_oracle('amy') is os_['amy'], 'the oracles added are in the group')
    ctx.ite_index = True
    total, hist = 0, []
    for r in range(k):
        if kind == 'scalar':
            q = [ctx.index('q%d' % r, 0, n - 1)]
            if ctx.flag('pair%d' % r):
                q = q + [1]
            cost_of = lambda a: [Cs[a][i] for i in q]
            lab_of = lambda a: [Ys[a][i] for i in q]
        else:
            q = [(ctx.index('q%d' % r, 0, n - 1), ctx.index('j%d' % r, 0, L - 1)), (1,)]
            cost_of = lambda a: [[Cs[a][q[0][0]][q[0][1]]], Cs[a][1]]
            lab_of = lambda a: [[Ys[a][q[0][0]][q[0][1]]], Ys[a][1]]
        mode = ctx.choice('mode%d' % r, ['named', 'all', 'some', 'any'])
        if mode == 'named':
            a = ctx.index('a%d' % r, 0, 1)
            res, who = [os_.query_from(q, names[a])], [a]
        elif mode == 'any':
            one = os_.query_from(q)
            res, who = [one], [names.index(os_.query_history[-1][0][0])]
        elif mode == 'all':
            res, who = os_.query_from_s(q), [0, 1]
        else:
            res, who = os_.query_from_s(q, ['amy']), [1]
        ctx.check(len(res) == len(who), 'one answer of each oracle asked')
        for a, (lab, cost) in zip(who, res):
            ctx.check(Eq([list(x) if kind == 'multi' else x for x in lab], lab_of(a)), 'the answer is the one of the oracle asked')
            ctx.check(Close([list(x) if kind == 'multi' else x for x in cost], cost_of(a)), 'so is the cost')
            total = total + Sum([Sum(c) if kind == 'multi' else c for c in cost_of(a)])
        hist.append(([names[a] for a in who], q))
        ctx.check(Close(os_.cost_inall, total), 'the cost of the group is the sum of the costs of its answers', got=os_.cost_inall, want=total)
        ctx.check(len(os_.query_history) == len(hist) and all(list(h[0]) == w[0] and h[2] == w[1] and len(h[1]) == len(w[0]) for h, w in zip(os_.query_history, hist)),
                  'every query is recorded with the oracles asked and the items')
        listed = lambda xs: [list(x) if kind == 'multi' else x for x in xs]
        ctx.check(And([And(Eq(listed(h[0]), listed(g[0])), Close(listed(h[1]), listed(g[1]))) for h, g in zip(os_.query_history[-1][1], res)]), 'and with the answers of each of them')
    ctx.check(ctx.raises(KeyError, os_.query_from, [0], 'bob'), 'an oracle that is not in the group is refused')
    ctx.cover('end')


@R.case('saved', bounds='2 instances, arbitrary labels and costs, saved to a directory or a file', covers=('end',))
def saved(ctx):
    d = ctx.tmpdir()
    Y, C = ctx.ints('y', 2, 0, 3), ctx.reals('c', 2, 0, 5)
    o = OracleQueryInstance(ctx.arr(Y), examples=[[0, 1], [1, 1]], cost=list(C))
    M = ctx.int_mat('m', 2, 2, -1, 1)
    om = OracleQueryMultiLabel(ctx.arr(M))
    in_dir = ctx.flag('dir')
    o.save_oracle(d if in_dir else os.path.join(d, 'a.pkl'))
    o2 = Oracle.load_oracle(os.path.join(d, 'oracle.pkl' if in_dir else 'a.pkl'))
    om.save_oracle(os.path.join(d, 'm.pkl'))
    om2 = OracleQueryMultiLabel.load_oracle(os.path.join(d, 'm.pkl'))
    for x in (o, o2):
        lab, cost = x.query_by_index([1, 0])
        ctx.check(And(Eq(list(lab), Y[::-1]), Close(list(cost), C[::-1])), 'a loaded oracle answers like the saved one')
        lab, cost = x.query_by_example([0, 1])
        ctx.check(And(Eq(list(lab), Y[:1]), Close(list(cost), C[:1])), 'also by example')
    for x in (om, om2):
        lab, cost = x.query_by_index([(1,), (0, 1)])
        ctx.check(Eq([list(l) for l in lab], [M[1], [M[0][1]]]), 'so does a multi-label oracle')
    ctx.cover('end')


@R.case('refused', bounds='fixed arguments')
def refused(ctx):
    ctx.check(ctx.raises(ValueError, Oracle, [1, 2], None, [0, 1, 2]), 'indexes of another length are refused')
    ctx.check(ctx.raises(ValueError, Oracle, [1, 2], None, None, [1]), 'costs of another length are refused')
    o = Oracle([1, 2], examples=[[1], [2]], cost=[1, 2])
    ctx.check(ctx.raises(ValueError, o.add_knowledge, [1, 2], [4, 5], [[3], [4]], [1, 2, 3]), 'additions of different lengths are refused')
    ctx.check(ctx.raises(Exception, o.add_knowledge, 3, 4, None, 1), 'an addition without its example is refused')
    ctx.check(ctx.raises(Exception, o.add_knowledge, 3, 4, [8], None), 'an addition without its cost is refused')
    ctx.check(ctx.raises(TypeError, o.add_knowledge, 'x', 4, [8, 8], 1), 'a label of another type is refused')
    ctx.check(o.query_by_index([0, 1])[0] == [1, 2] and len(o.index_keys) == 2, 'refused additions leave no trace')
