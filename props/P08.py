"""P08 Recorded states are kept exactly, counted exactly, and survive saving, loading and a crash while saving."""
import builtins
import os
import pickle
import numpy as np
from sx.case import Registry, Th
from sx.engine import And, Or, Not, Implies, Iff, Eq, Close, In, Distinct, Sum, Ite
from alipy.experiment.state import State
from alipy.experiment.state_io import StateIO
import alipy.experiment.state_io as sio

R = Registry()


def io0(ctx, **k):
    return StateIO(0, [0, 1, 2, 3, 4], [5, 6], [0], [1, 2, 3, 4], verbose=False, **k)


@R.family('accounting', [(1,), (2, 1), (1, 2, 1), Th(2, 2, 1, 3)], budget=60, validate=20, covers=('end',), bounds='states of the listed batch sizes, arbitrary performances and costs')
def accounting(ctx, *batches):
    io = io0(ctx)
    costs, perfs, sizes = [], [], []
    for k, b in enumerate(batches):
        sel = ctx.ints('s%d' % k, b, 1, 4)
        p = ctx.real('p%d' % k, 0, 1)
        kind = ctx.choice('c%d' % k, ['none', 'scalar', 'list']) if k == len(batches) - 1 else ('list', 'none')[k % 2]
        c = None if kind == 'none' else (ctx.real('cost%d' % k, 0, 9) if kind == 'scalar' else ctx.reals('cost%d' % k, b, 0, 9))
        lab = ctx.ints('l%d' % k, b, 0, 3)
        io.add_state(State(list(sel), performance=p, cost=c if kind != 'list' else list(c), queried_label=list(lab)))
        costs.append(0 if c is None else (c if kind == 'scalar' else Sum(c)))
        perfs.append(p)
        sizes.append(b)
        st = io.get_state(k)
        ctx.check(Eq(list(st.get_value('select_index')), sel), 'the selected indexes are stored as given')
        ctx.check(Eq(st.get_value('performance'), p), 'the performance is stored as given')
        ctx.check(Eq(list(st['queried_label']), lab), 'the queried labels are stored as given')
        ctx.check(('cost' in st.keys()) == (c is not None), 'a cost is stored iff given')
        ctx.check(Close(io.cost_inall, Sum(costs)), 'the accumulated cost is the sum of the costs', got=io.cost_inall, want=Sum(costs))
        ctx.check(io.num_of_query() == k + 1 == len(io), 'one query for each state')
    n, c = io.refresh_info()
    ctx.check(Eq(n, sum(sizes)), 'refreshing counts the queried indexes')
    ctx.check(Close(c, Sum(costs)), 'refreshing sums the costs')
    m, s = io.get_current_performance()
    mean = Sum(perfs) / len(perfs)
    ctx.check(Close(m, mean), 'the current performance is the mean over the states')
    ctx.check(Close(s * s, Sum([(p - mean) * (p - mean) for p in perfs]) / len(perfs), 1e-6), 'and its standard deviation')
    eq = io.check_batch_size()
    if len(set(sizes)) == 1:
        ctx.check(eq, 'equal batch sizes are recognised')
    if len(set(sizes[:-1])) > 1:
        ctx.check(not eq, 'different batch sizes are recognised')
    k = ctx.index('k', 0, len(batches))
    how = ctx.choice('how', ['recover', 'pop'])
    if how == 'recover':
        io.recover_workspace(k)
        keep = list(range(k))
    elif k < len(batches):
        io.pop(k)
        keep = [i for i in range(len(batches)) if i != k]
    else:
        io.pop()
        keep = list(range(len(batches) - 1))
    want = Sum([costs[i] for i in keep])
    ctx.check(Close(io.cost_inall, want), 'states that were dropped no longer count', got=io.cost_inall, want=want)
    io.add_state(State([1], performance=0.5, cost=1))
    ctx.check(Close(io.cost_inall, want + 1), 'accounting goes on from there')
    ctx.check(Eq(io.refresh_info()[0], sum(sizes[i] for i in keep) + 1), 'and so does the number of queried indexes')
    ctx.check([x is not None for x in io] and len(list(io)) == len(keep) + 1, 'iteration yields each state')
    ctx.cover('end')


@R.case('independent', covers=('end',), bounds='two arbitrary indexes, an arbitrary user entry')
def independent(ctx):
    io = io0(ctx)
    sel = ctx.ints('s', 2, 1, 4)
    mine, extra = list(sel), [ctx.real('e', 0, 1)]
    st = State(mine, performance=0.5)
    st.add_element('extra', extra)
    mine.append(9)
    extra.append(9)
    ctx.check(st.batch_size == 2 and Eq(list(st['select_index']), sel), 'a state is independent of the list it was made from')
    ctx.check(len(st['extra']) == 1, 'an added entry is independent of the object passed')
    io.add_state(st)
    st.set_value('performance', 0.9)
    st['extra'] = 3
    ctx.check(Eq(io.get_state(0)['performance'], 0.5) and len(io.get_state(0)['extra']) == 1, 'the stored state is independent of the one passed')
    g = io.get_state(0)
    g.set_value('performance', 0.1)
    ctx.check(Eq(io.get_state(0)['performance'], 0.5), 'the stored state is independent of the one returned')
    st.del_element('select_index')
    st.del_element('performance')
    ctx.check('select_index' in st.keys() and 'performance' in st.keys(), 'critical entries cannot be deleted')
    st.del_element('extra')
    ctx.check('extra' not in st.keys(), 'other entries can')
    ctx.check(ctx.raises(KeyError, st.set_value, 'nope', 1), 'setting an entry that does not exist is refused')
    ctx.check(ctx.raises(AssertionError, io.get_state, 1) and ctx.raises(AssertionError, io.get_state, -1), 'a state that does not exist is refused')
    ctx.cover('end')


@R.case('dictionary', covers=('end',), bounds='a dictionary state with arbitrary index, performance and cost')
def dictionary(ctx):
    io = io0(ctx)
    s, p, c = ctx.int('s', 1, 4), ctx.real('p', 0, 1), ctx.real('c', 0, 5)
    d = {'select_index': [s], 'queried_info': 1, 'performance': p}
    if ctx.flag('cost'):
        d['cost'] = c
    else:
        c = 0
    io.add_state(d)
    ctx.check(len(d) == (4 if 'cost' in d else 3), 'the dictionary passed is unchanged')
    ctx.check(Eq(list(io.get_state(0).get_value('select_index')), [s]) and len(io) == 1, 'a dictionary is stored as a state')
    ctx.check(Eq(io.get_state(0).get_value('performance'), p), 'its performance is stored')
    ctx.check(Close(io.cost_inall, c), 'its cost counts')
    ctx.check(Iff(In(s, io.get_workspace()[2].index), True), 'its index moves to the labeled set')
    ctx.check(ctx.raises(AssertionError, io.add_state, {'select_index': [1]}), 'an incomplete dictionary is refused')
    ctx.cover('end')


def same_io(ctx, a, b, label):
    ctx.check(len(a) == len(b) and a.round == b.round, label + ': number of states and round')
    ctx.check(Close(a.cost_inall, b.cost_inall), label + ': cost')
    for i in range(min(len(a), len(b))):
        x, y = a.get_state(i), b.get_state(i)
        ctx.check(set(x.keys()) == set(y.keys()), label + ': entries of a state')
        for k in x.keys():
            ctx.check(Eq(x[k], y[k]), label + ': %s' % k)
    for x, y in zip(a.get_workspace(), b.get_workspace()):
        x, y = (x.index if hasattr(x, 'index') and not isinstance(x, list) else x), (y.index if hasattr(y, 'index') and not isinstance(y, list) else y)
        ctx.check(Eq(list(x), list(y)), label + ': workspace')


@R.family('roundtrip', [1, 2, Th(4)], budget=60, validate=20, covers=('end',), bounds='n states with arbitrary contents')
def roundtrip(ctx, n):
    d = ctx.tmpdir()
    as_file = ctx.flag('file')
    io = StateIO(ctx.index('round', 0, 2), [0, 1, 2, 3, 4], [5, 6], [0], [1, 2, 3, 4], saving_path=os.path.join(d, 'mine.pkl') if as_file else d, verbose=False, initial_point=0.25)
    for k in range(n):
        io.add_state(State([ctx.int('s%d' % k, 1, 4)], performance=ctx.real('p%d' % k, 0, 1), cost=ctx.real('c%d' % k, 0, 3)))
        io.save()
    path = os.path.join(d, 'mine.pkl' if as_file else 'AL_round_%d.pkl' % io.round)
    ctx.check(os.listdir(d) == [os.path.basename(path)], 'the state is saved in one file at the given place', got=os.listdir(d))
    b = StateIO.load(path)
    same_io(ctx, b, io, 'a loaded object equals the saved one')
    ctx.check(Eq(b.initial_point, 0.25), 'the initial point is kept')
    b.add_state(State([ctx.int('x', 1, 4)], performance=0.5))
    b.save()
    same_io(ctx, StateIO.load(path), b, 'a loaded object can be continued and saved in the same place')
    ctx.cover('end')


class Crash(BaseException):
    pass


class CrashFile(object):
    """A file whose writer dies after `left` bytes."""
    def __init__(self, f, budget):
        self.f, self.b = f, budget

    def write(self, data):
        data = bytes(data)
        if self.b[0] < len(data):
            self.f.write(data[:self.b[0]])
            self.f.close()
            raise Crash()
        self.b[0] -= len(data)
        return self.f.write(data)

    def close(self):
        if not self.f.closed:
            if self.b[1] > 0:
                self.b[1] -= 1
                if self.b[1] == 0:
                    self.f.close()
                    raise Crash()
            self.f.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.f.close()

    def __getattr__(self, n):
        return getattr(self.f, n)


@R.family('crash', [1, Th(2)], budget=90, validate=20, covers=('crashed', 'finished'), bounds='n states saved, one more added, the process dies after k bytes of the next save (k = 0, 1, 8, .. 36, half, all but one) or right after closing the file')
def crash(ctx, n):
    d = ctx.tmpdir()
    io = StateIO(0, [0, 1, 2, 3, 4], [5, 6], [0], [1, 2, 3, 4], saving_path=d, verbose=False)
    for k in range(n):
        io.add_state(State([1 + k], performance=0.5, cost=1))
    io.save()
    before = StateIO.load(os.path.join(d, 'AL_round_0.pkl'))
    io.add_state(State([ctx.index('s', 3, 4)], performance=0.75, cost=2))
    where = ctx.choice('where', ['start', 'early', 'half', 'last', 'closed', 'never'])
    size = len(pickle.dumps(io))
    b = {'start': 0, 'early': 1 + 7 * ctx.index('off', 0, 5), 'half': size // 2, 'last': size - 1}.get(where, 1 << 30) if where != 'early' else 1 + 7 * ctx.index('off', 0, 5)
    budget = [b, 1 if where == 'closed' else 0]
    real = builtins.open

    def hooked(path, mode='r', *a, **k):
        f = real(path, mode, *a, **k)
        return CrashFile(f, budget) if 'w' in mode and str(path).startswith(d) else f
    ctx.patch(builtins, 'open', hooked)
    try:
        io.save()
        ctx.check(where != 'never' or True, 'saved')
        done = True
        ctx.cover('finished')
    except Crash:
        done = False
        ctx.cover('crashed')
    ctx.patch(builtins, 'open', real)
    try:
        got = StateIO.load(os.path.join(d, 'AL_round_0.pkl'))
    except Exception as e:
        ctx.check(False, 'after a crash while saving the intermediate file can be loaded', error=e, where=where)
        return
    if done:
        same_io(ctx, got, io, 'a finished save holds the new state')
    else:
        ctx.check(len(got) in (n, n + 1), 'after a crash the file holds the previous or the new state', got=len(got))
        same_io(ctx, got, before if len(got) == n else io, 'after a crash the file holds the previous or the new state')
