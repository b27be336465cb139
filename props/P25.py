"""P25 A multi-threaded experiment is the same under every schedule and survives a crash at any point."""
import builtins
import os
import numpy as np
from sx.case import Registry, Th
from sx.engine import And, Or, Not, Implies, Iff, Eq, Close, In, Distinct, Sum
from alipy.experiment import al_experiment as A
from alipy.experiment import state_io as SIO
from alipy.experiment.al_experiment import AlExperiment
from alipy.experiment.state import State
from alipy.index.index_collections import IndexCollection, MultiLabelIndexCollection
from alipy.utils import multi_thread as M
from alipy.utils.multi_thread import aceThreading
from props.sched import Sched, Module

R = Registry()
ASSUMPTIONS = ['threads switch between queries only; files keep what was written before a crash, which can hit before and after opening, in the middle of and after writing and closing, and around replacing a file',
               'what a query selects is arbitrary but the same for the same labeled set (with several rounds and crashes, one fixed choice)']

X = np.arange(8, dtype=float).reshape(8, 1)
Y = np.array([0, 1, 1, 0, 1, 0, 1, 0])
SPLITS = [([0, 1, 2, 3], [4, 5], [0, 1], [2, 3]), ([5, 2, 6], [3, 1], [5], [6, 2]), ([7, 4, 1], [0], [7], [4, 1]), ([1, 3, 0], [2, 6], [3], [1, 0])]
W = [None]


class World(object):
    """What the threads of one path share."""
    def __init__(self, ctx, free):
        self.ctx, self.free, self.known, self.calls, self.saved, self.params = ctx, free, {}, [], {}, []
        self.sched, self.tick, self.crash, self.fails, self.runs, self.any = None, 0, None, (), 0, True
        self.restart()

    def restart(self):
        self.sched = Sched(self.ctx, self.free if not self.runs else 0, 'switch%d_' % self.runs)
        self.runs += 1
        self.ctx.patch(M, 'threading', Module(self.sched, M.threading))

    def pick(self, rnd, L, U):
        k = 'sel_%d_%s' % (rnd, '_'.join(map(str, sorted(L))))
        if k not in self.known:
            self.known[k] = self.ctx.index(k, 0, len(U) - 1) if self.any else len(U) - 1
        return sorted(U)[self.known[k]]

    def perf(self, rnd, L):
        k = 'perf_%d_%s' % (rnd, '_'.join(map(str, sorted(L))))
        if k not in self.known:
            self.known[k] = self.ctx.real(k, 0, 1)
        return self.known[k]

    # crashes
    def point(self, what):
        if self.crash is None:
            return
        self.tick += 1
        if bool(self.crash == self.tick):
            self.crash = None
            raise Crash(what)

    def files(self):
        world, ctx = self, self.ctx

        class File(object):
            def __init__(self, path, f):
                self.path, self.f, self.parts = path, f, []

            def write(self, b):
                self.parts.append(bytes(b))
                return len(b)

            def close(self):
                if self.f.closed:
                    return
                data = b''.join(self.parts)
                self.f.write(data[:len(data) // 2])
                self.f.flush()
                if data:
                    world.point('middle of writing ' + os.path.basename(self.path))
                self.f.write(data[len(data) // 2:])
                self.f.close()
                world.point('written ' + os.path.basename(self.path))

            def flush(self):
                pass

            def fileno(self):
                return self.f.fileno()

            closed = property(lambda self: self.f.closed)

            def __getattr__(self, name):
                return getattr(self.f, name)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.close()

        opened = builtins.open

        def op(path, mode='r', *a, **kw):
            if 'w' not in mode or 'sx_' not in str(path) or world.crash is None:
                return opened(path, mode, *a, **kw)
            world.point('before opening ' + os.path.basename(path))
            f = File(path, opened(path, mode, *a, **kw))
            world.point('opened ' + os.path.basename(path))
            return f
        real = os.replace

        def rep(a, b):
            world.point('before replacing ' + os.path.basename(b))
            real(a, b)
            world.point('replaced ' + os.path.basename(b))
        ctx.patch(builtins, 'open', op)
        ctx.patch(os, 'replace', rep)
        ctx.patch(os, 'rename', rep)


class Crash(BaseException):
    pass


class Failure(Exception):
    pass


def work(round, train_id, test_id, Ucollection, Lcollection, saver, examples, labels, global_parameters):
    w = W[0]
    w.params.append(global_parameters)
    w.calls.append((round, list(train_id), list(test_id), sorted(Lcollection), sorted(Ucollection), len(saver)))
    if len(saver) == 0:
        saver.set_initial_point(w.perf(round, Lcollection))
    w.sched.pause()
    while len(Ucollection) > 0:
        s = w.pick(round, Lcollection, Ucollection)
        Ucollection.difference_update([s])
        Lcollection.update([s])
        if (round, len(Ucollection)) in w.fails:
            w.fails = ()
            raise Failure('the thread fails')
        saver.add_state(State([s], performance=w.perf(round, Lcollection)))
        saver.save()
        w.saved[round] = max(w.saved.get(round, 0), len(saver))
        w.sched.pause()


def judge(ctx, w, res, splits, done=None):
    """Every round is complete: each instance queried once, by what was selected, with what was measured."""
    ctx.check(isinstance(res, list) and [r.round for r in res] == list(range(len(splits))), 'there is a result for every round, in order')
    for r, (tr, te, L, U) in zip(res, splits):
        ws = r.get_workspace(0)
        ctx.check(list(ws[0]) == tr and list(ws[1]) == te and sorted(ws[2]) == sorted(L) and sorted(ws[3]) == sorted(U), 'a result holds the split of its round')
        lab, unl = list(L), list(U)
        ctx.check(r.initial_point is not None and Close(r.initial_point, w.perf(r.round, lab)), 'the initial performance is that before any query', round=r.round)
        ctx.check(len(r) == len(U), 'every round has all its queries, none twice', round=r.round, got=len(r))
        for st in r:
            s = [int(i) for i in st.get_value('select_index')]
            if not unl:
                break
            ctx.check(s == [w.pick(r.round, lab, unl)], 'the recorded queries are those that were made, in order', round=r.round, got=s)
            lab, unl = lab + s, [u for u in unl if u not in s]
            ctx.check(Close(st.get_value('performance'), w.perf(r.round, lab)), 'with the performance that was measured', round=r.round)


def make(ctx, w, n, limit, d, target=work):
    parts = [[list(p[k]) for p in SPLITS[:n]] for k in range(4)]
    return aceThreading(X, Y, parts[0], parts[1], parts[2], parts[3], target_func=target, max_thread=limit, refresh_interval=1000, saving_path=d), parts


@R.family('schedule', [(2, None), (2, 1), (3, 2), (4, 2), Th(3, None)], budget=120, covers=('end',), bounds='n rounds of 2 queries, at most the given number of threads, every schedule of up to 5 switches (7 thorough), other threads in the process')
def schedule(ctx, n, limit):
    w = W[0] = World(ctx, 7 if n == 3 and not limit else 2 if n == 4 else 5)
    w.any = n < 3 or bool(limit and n < 4)
    w.sched.foreign = ctx.choice('foreign', [0, 3]) if n == 2 else 0
    ctx.patch(aceThreading, '__repr__', lambda self: '')
    mt, parts = make(ctx, w, n, limit, ctx.tmpdir())
    params = ctx.choice('params', [None, {'a': 3}])
    if params is None:
        mt.start_all_threads()
    else:
        mt.start_all_threads(global_parameters=params)
    ctx.check(w.sched.errors == [], 'no thread fails', got=str(w.sched.errors)[:200])
    ctx.check(sorted(c[0] for c in w.calls) == list(range(n)), 'every round runs once')
    for c in w.calls:
        tr, te, L, U = SPLITS[c[0]]
        ctx.check(c[1] == tr and c[2] == te and c[3] == sorted(L) and c[4] == sorted(U), 'a round starts from its own split', got=c)
    ctx.check(w.params == [params] * n, 'every round gets the parameters')
    ctx.check(w.sched.most <= (limit or n), 'no more rounds run at the same time than allowed', got=w.sched.most)
    ctx.check(not w.sched.alive(), 'all rounds have ended')
    judge(ctx, w, mt.get_results(), SPLITS[:n])
    ctx.check(parts == [[list(p[k]) for p in SPLITS[:n]] for k in range(4)], 'the given split is not changed')
    res = mt.get_results()
    res[0].add_state(State([99], performance=0.5))
    judge(ctx, w, mt.get_results(), SPLITS[:n])
    ctx.cover('end')


def run(ctx, w, mt, params=None):
    """Whether the run ended before the crash."""
    try:
        mt.start_all_threads(global_parameters=params) if params is not None else mt.start_all_threads()
        w.point('end')
        return True
    except Crash:
        return False


@R.family('crash', [(1, None, 0), (2, 1, 0), (2, None, 2), Th(2, None, 4), Th(3, 2, 1)], budget=150, covers=('end', 'crashed', 'finished'), bounds='n rounds of 2 queries; a crash at any point of any file operation or switch; every schedule of the given number of switches; stale files of another experiment or none')
def crash(ctx, n, limit, free):
    w = W[0] = World(ctx, free)
    ctx.patch(aceThreading, '__repr__', lambda self: '')
    d = ctx.tmpdir()
    if ctx.flag('stale'):                     # another experiment was saved here before
        os.makedirs(os.path.join(d, 'AL_result'))
        for r in range(n):
            io = SIO.StateIO(r, [0, 1], [2], [0], [1], saving_path=os.path.join(d, 'AL_result'), verbose=False)
            io.add_state(State([1], performance=0.125))
            io.save()
    w.files()
    w.any = n == 1
    mt, parts = make(ctx, w, n, limit, d)
    w.crash = ctx.int('crash', 1, 400)
    finished = run(ctx, w, mt, {'a': 3})
    w.crash = None
    ctx.cover('finished' if finished else 'crashed')
    path = os.path.join(d, 'multi_thread_state.pkl')
    if not os.path.exists(path):
        ctx.check(not w.saved, 'a run that has saved a query can be recovered', saved=w.saved)
        ctx.cover('end')
        return
    saved, w.calls, w.params = dict(w.saved), [], []
    w.restart()
    mt = aceThreading.recover(path)
    before = mt.get_results()
    for r in before:
        ctx.check(len(r) >= saved.get(r.round, 0), 'no saved query is lost', round=r.round, got=len(r), saved=saved)
    mt.start_all_threads()
    ctx.check(w.sched.errors == [], 'no thread fails', got=str(w.sched.errors)[:200])
    ctx.check(w.sched.most <= (limit or n), 'no more rounds run at the same time than allowed', got=w.sched.most)
    for c in w.calls:
        ctx.check(c[5] == len(before[c[0]]), 'a recovered round goes on where it stopped', got=c)
    ctx.check(all(p == {'a': 3} for p in w.params), 'with the parameters it had', got=str(w.params))
    judge(ctx, w, mt.get_results(), SPLITS[:n])
    ctx.cover('end')


@R.family('failure', [1, 2], budget=60, covers=('end',), bounds='2 rounds of 2 queries; one of them fails at any query; every schedule of 3 switches')
def failure(ctx, limit):
    """A round that failed is not taken for finished when the run is recovered."""
    w = W[0] = World(ctx, 3)
    ctx.patch(aceThreading, '__repr__', lambda self: '')
    d = ctx.tmpdir()
    mt, parts = make(ctx, w, 2, limit, d)
    w.any = False
    w.fails = ((ctx.index('round', 0, 1), ctx.index('left', 0, 1)),)
    mt.start_all_threads()
    ctx.check(len(w.sched.errors) == 1 and isinstance(w.sched.errors[0], Failure), 'one thread fails')
    rnd = [r.round for r in mt.get_results() if len(r) < 2][0]
    if ctx.flag('lost'):                      # its file is gone: it starts again
        os.remove(os.path.join(d, 'AL_result', 'AL_round_%d.pkl' % rnd))
    w.calls = []
    w.restart()
    mt = aceThreading.recover(os.path.join(d, 'multi_thread_state.pkl'))
    mt.start_all_threads()
    ctx.check(len(w.calls) == 1, 'only the round that failed is run again', got=w.calls)
    judge(ctx, w, mt.get_results(), SPLITS[:2])
    ctx.cover('end')


class Mine(object):
    def __init__(self, X, y):
        pass

    def select(self, label_index, unlabel_index, batch_size=1, **kw):
        w = W[0]
        w.sched.pause()
        r = [k for k, p in enumerate(SPLITS) if set(p[2]) <= set(label_index) and set(unlabel_index) <= set(p[3])][0]
        return [w.pick(r, list(label_index), list(unlabel_index))]


class Model(object):
    def fit(self, X, y):
        self.rows = [int(v[0]) for v in np.asarray(X).tolist()]

    def predict(self, X):
        return (tuple(sorted(self.rows)), len(X))


def measured(y_true, y_pred, **kw):
    r = [k for k, p in enumerate(SPLITS) if set(p[2]) <= set(y_pred[0]) <= set(p[2]) | set(p[3])][0]
    return W[0].perf(r, y_pred[0])


@R.family('experiment', [(1, 0), (2, 0), Th(2, 2)], budget=150, covers=('end', 'crashed', 'finished'), bounds='AlExperiment with n folds of 2 queries in threads; a crash at any point of any file operation')
def experiment(ctx, n, free):
    """The main loop of AlExperiment can be recovered, too."""
    w = W[0] = World(ctx, free)
    ctx.patch(aceThreading, '__repr__', lambda self: '')
    ctx.patch(A.performance, 'accuracy_score', measured)
    d = ctx.tmpdir()
    w.files()
    w.any = n == 1
    al = AlExperiment(X, Y, model=Model(), **ctx.choice('stop', [{}, {'stopping_criteria': 'num_of_queries', 'stopping_value': 2}]))
    al.set_data_split(*[[list(p[k]) for p in SPLITS[:n]] for k in range(4)])
    al.set_query_strategy(Mine)
    al.set_performance_metric('accuracy_score')
    w.crash = ctx.int('crash', 1, 400)
    try:
        al.start_query(multi_thread=True, saving_path=d, refresh_interval=1000)
        w.point('end')
        ctx.check(w.sched.errors == [], 'no thread fails', got=str(w.sched.errors)[:200])
        judge(ctx, w, al.get_experiment_result(), SPLITS[:n])
        ctx.cover('finished')
    except Crash:
        ctx.cover('crashed')
    w.crash = None
    path = os.path.join(d, 'multi_thread_state.pkl')
    if os.path.exists(path):
        w.restart()
        mt = aceThreading.recover(path)
        mt.start_all_threads()
        ctx.check(w.sched.errors == [], 'no thread fails', got=str(w.sched.errors)[:200])
        judge(ctx, w, mt.get_results(), SPLITS[:n])
    ctx.cover('end')


@R.case('multilabel', covers=('end',), bounds='2 rounds with pairs as indexes, containers or lists')
def multilabel(ctx):
    """Rounds over (instance, label) pairs start from their own pairs."""
    seen = []
    def f(round, train_id, test_id, Ucollection, Lcollection, saver, examples, labels, global_parameters):
        seen.append((round, Ucollection, Lcollection))
        ctx.check(sorted(saver.init_U) == sorted(Ucollection) and sorted(saver.init_L) == sorted(Lcollection), 'the result has the same initial sets')
    w = W[0] = World(ctx, 0)
    ctx.patch(aceThreading, '__repr__', lambda self: '')
    ctx.patch(aceThreading, 'save', lambda self: None)
    y = np.zeros((6, 2), dtype=int)
    L, U = [[(0, 0)], [(1, 1), (1, 0)]], [[(2, 0), (2, 1)], [(3, 1)]]
    form = ctx.choice('form', ['list', 'collection'])
    mk = (lambda v: list(v)) if form == 'list' else (lambda v: MultiLabelIndexCollection(list(v), label_size=2))
    gl, gu = [mk(v) for v in L], [mk(v) for v in U]
    mt = aceThreading(X, y, [[0, 2], [1, 3]], [[4], [5]], gl, gu, target_func=f, saving_path=ctx.tmpdir(), refresh_interval=1000)
    mt.start_all_threads()
    ctx.check(w.sched.errors == [], 'no thread fails', got=str(w.sched.errors)[:200])
    for r, u, l in seen:
        ctx.check(isinstance(u, MultiLabelIndexCollection) and isinstance(l, MultiLabelIndexCollection), 'pairs are held in multi-label collections')
        ctx.check(sorted(u) == sorted(U[r]) and sorted(l) == sorted(L[r]), 'a round starts from its own pairs', got=str((u, l)))
        u.difference_update([list(u)[0]])
    ctx.check([sorted(v) for v in gl] == [sorted(v) for v in L] and [sorted(v) for v in gu] == [sorted(v) for v in U], 'the given collections are not changed')
    ctx.check(len(seen) == 2, 'every round runs once')
    ctx.cover('end')


@R.case('refuse', covers=('end',), bounds='unusable thread functions, limits and paths')
def refuse(ctx):
    w = W[0] = World(ctx, 0)
    d = ctx.tmpdir()
    mt, parts = make(ctx, w, 2, None, d, None)
    ctx.check(ctx.raises(Exception, mt.start_all_threads), 'no function is refused')
    names = ['round', 'train_id', 'test_id', 'Ucollection', 'Lcollection', 'saver', 'examples', 'labels', 'global_parameters']
    miss = ctx.index('missing', 0, len(names))
    env = {}
    exec('def f(%s): pass' % ', '.join(n for k, n in enumerate(names) if k != miss), env)
    ctx.check(ctx.raises(NameError, mt.set_target_function, env['f']) == (miss < len(names)), 'exactly functions without one of the parameters are refused', missing=miss)
    ctx.check(ctx.raises(AssertionError, make, ctx, w, 2, 0, d), 'less than one thread is refused')
    bad = [list(p) for p in parts]
    bad[ctx.index('short', 0, 3)].pop()
    ctx.check(ctx.raises(AssertionError, aceThreading, X, Y, *bad, saving_path=d), 'index lists of different lengths are refused')
    ctx.check(ctx.raises(TypeError, aceThreading.recover, 3), 'a path must be a string')
    import pickle
    with open(os.path.join(d, 'x.pkl'), 'wb') as f:
        pickle.dump(3, f)
    ctx.check(ctx.raises(TypeError, aceThreading.recover, os.path.join(d, 'x.pkl')), 'a file of something else is refused')
    ctx.cover('end')
