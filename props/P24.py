"""P24 An experiment queries, trains, measures and stops as configured, for each fold by itself."""
import copy
import pickle
import numpy as np
from sx.case import Registry, Th
from sx.engine import And, Or, Not, Implies, Iff, Eq, Close, In, Distinct, Sum
from alipy.experiment import al_experiment as A
from alipy.experiment import experiment_analyser as EA
from alipy.experiment import state_io as SIO
from alipy.experiment import stopping_criteria as SC
from alipy.experiment.al_experiment import AlExperiment
from alipy.utils import multi_thread as M
from props.sched import Sched, Module

R = Registry()
ASSUMPTIONS = ['the model is a stand-in whose predictions are arbitrary but determined by what it was trained on', 'threads switch at model training, prediction, selection and the stopping test only']

X = np.arange(7, dtype=float).reshape(7, 1)
Y = np.array([0, 1, 1, 0, 1, 0, 1])
SPLITS = [([0, 1, 2, 3], [4, 5], [0, 1], [2, 3]), ([5, 2, 6, 0], [3, 1], [5, 6], [2, 0])]
LONG = [([0, 1, 2, 3, 6], [4, 5], [0], [1, 2, 3, 6]), ([5, 2, 6, 0, 4], [3, 1], [6], [2, 5, 0, 4])]


class Model(object):
    """Trained on rows of X; its predictions are arbitrary."""
    def __init__(self, ctx, log=None, pause=None):
        self.ctx, self.log, self.known, self.codes, self.pause = ctx, log if log is not None else [], {}, [], pause
        self.trained = None

    def __deepcopy__(self, memo):
        m = type(self)(self.ctx, self.log, self.pause)
        m.known, m.codes, m.trained = self.known, self.codes, self.trained
        return m
    __copy__ = lambda self: self.__deepcopy__(None)

    def get_params(self, deep=True):
        return {}

    def set_params(self, **kw):
        return self

    def __sklearn_clone__(self):
        m = self.__deepcopy__(None)
        m.trained = None
        return m

    def fit(self, X, y):
        rows = [int(v[0]) for v in np.asarray(X).tolist()]
        lab = [int(v) for v in np.asarray(y).tolist()]
        self.ctx.check(len(rows) == len(lab) and lab == [int(Y[r]) for r in rows] and len(set(rows)) == len(rows), 'the model is trained on instances with their own labels', rows=rows, labels=lab)
        self.trained = tuple(sorted(rows))
        if self.pause:
            self.pause()
        return self

    def predict(self, X):
        t = self.trained
        rows = [int(v[0]) for v in np.asarray(X).tolist()]
        out = np.array([self.code(t, r) for r in rows])
        if self.pause:
            self.pause()
        return out

    def code(self, t, r):
        if (t, r) not in self.codes:
            self.codes.append((t, r))
        return self.codes.index((t, r))

    def measured(self, y_true, y_pred):
        """The metric: an arbitrary value for every model and test set."""
        said = [self.codes[int(c)] for c in np.asarray(y_pred).tolist()]
        self.ctx.check([int(Y[r]) for _, r in said] == [int(v) for v in y_true] and len(set(t for t, _ in said)) == 1, 'predictions are compared with the labels of the same instances')
        return self.value(said[0][0], [r for _, r in said])

    def value(self, labeled, test):
        k = (tuple(sorted(labeled)), tuple(sorted(test)))
        if k not in self.known:
            self.known[k] = self.ctx.real('perf_%s_%s' % tuple('_'.join(map(str, v)) for v in k), 0, 1)
        return self.known[k]


def strategy(ctx, seen, calls, pause=lambda: None):
    """A strategy of the user: what it selects is arbitrary."""
    known = {}
    class Mine(object):
        def __init__(self, X, y, **kw):
            seen.append((np.asarray(X).shape, len(y), kw))

        def select(self, label_index, unlabel_index, batch_size=1, **kw):
            L, U = sorted(int(i) for i in label_index), sorted(int(i) for i in unlabel_index)
            rest, got = list(U), []
            for b in range(min(batch_size, len(U))):
                k = 'sel_%s_%d' % ('_'.join(map(str, L)), b)
                if k not in known:
                    known[k] = ctx.index(k, 0, len(rest) - 1)
                got.append(rest.pop(known[k]))
            calls.append((tuple(L), tuple(U), batch_size, kw, got))
            pause()
            return got
    return Mine


def judge(ctx, res, model, splits, calls, batch, stop, what=''):
    ctx.check(isinstance(res, list) and [r.round for r in res] == list(range(len(splits))), 'there is a result for every fold, in order' + what)
    for r, (tr, te, L, U) in zip(res, splits):
        ws = r.get_workspace(0)
        ctx.check(list(ws[0]) == tr and list(ws[1]) == te and sorted(ws[2]) == sorted(L) and sorted(ws[3]) == sorted(U), 'a result holds the split of its fold' + what)
        lab, unl = sorted(L), sorted(U)
        ctx.check(Close(r.initial_point, model.value(lab, te)), 'the initial performance is that of the model trained on the initial labeled set' + what)
        for n in range(len(r)):
            ctx.check(Not(stop(r.round, n, len(unl), len(U), res)), 'a fold stops as soon as its stopping criterion is met' + what, fold=r.round, queries=n)
            st = r[n]
            sel = [int(i) for i in st.get_value('select_index')]
            ctx.check(len(sel) == min(batch, len(unl)) and set(sel) <= set(unl), 'every query has the batch size and is unlabeled' + what, got=sel)
            ctx.check(any(c[0] == tuple(lab) and c[1] == tuple(unl) and c[4] == sel for c in calls), 'the strategy was asked with the current labeled and unlabeled sets and answered what is recorded' + what, labeled=lab)
            lab = sorted(lab + sel)
            unl = [u for u in unl if u not in sel]
            ctx.check(Close(st.get_value('performance'), model.value(lab, te)), 'the recorded performance is that of the model trained with the query, on the test set' + what, fold=r.round, query=n)
        ctx.check(stop(r.round, len(r), len(unl), len(U), res), 'a fold goes on until its stopping criterion is met' + what, fold=r.round, queries=len(r))


def setup(ctx, splits, batch, crit, value, how, pause=None, **kw):
    model = Model(ctx, pause=pause)
    ctx.patch(A.performance, 'accuracy_score', lambda y_true, y_pred, **kw: model.measured(y_true, y_pred))
    parts = [[list(p[k]) for p in splits] for k in range(4)]
    if how == 'ctor':
        al = AlExperiment(X, Y, model=model, stopping_criteria=crit, stopping_value=value, batch_size=batch, train_idx=parts[0], test_idx=parts[1], label_idx=parts[2], unlabel_idx=parts[3])
    else:
        al = AlExperiment(X, Y, model=model, stopping_criteria=crit, stopping_value=value, batch_size=batch)
        al.set_data_split(parts[0], parts[1], parts[2], parts[3])
    return al, model, parts


CRIT = {'none': (None, None), 'queries': ('num_of_queries', 1), 'percent': ('percent_of_unlabel', None)}


def rule(crit, value=None):
    c, v = CRIT[crit]
    v = v if value is None else value
    def stop(fold, n, left, all, res):
        if left == 0:
            return True
        if c == 'num_of_queries':
            return n >= v
        if c == 'percent_of_unlabel':
            return v * all <= all - left
        return False
    return stop


@R.family('loop', [('none', 1), ('queries', 1), ('percent', 1), ('none', 2), ('queries', 3), Th('percent', 1, 'long'), Th('queries', 1, 'long'), Th('none', 2, 'long')], budget=90, covers=('end',), bounds='2 folds of 2 unlabeled instances (4 thorough), arbitrary selections and predictions, every criterion')
def loop(ctx, crit, batch, size=''):
    splits = LONG if size else SPLITS
    how = ctx.choice('split', ['ctor', 'set'])
    value = CRIT[crit][1]
    if crit == 'percent':
        value = ctx.real('percent', 0, 1)
    if crit == 'queries':
        value = ctx.int('value', 0, 3)
    al, model, parts = setup(ctx, splits, batch, CRIT[crit][0], value, how)
    seen, calls = [], []
    al.set_query_strategy(strategy(ctx, seen, calls), strategyname='mine', a=3, b='x')
    if ctx.flag('metric'):
        al.set_performance_metric('accuracy_score')
    ctx.check(len(seen) == 1 and seen[0][0] == X.shape and seen[0][1] == len(Y) and seen[0][2] == {'a': 3, 'b': 'x'}, 'the strategy is made with the data and its parameters')
    al.start_query(multi_thread=False, verbose=False)
    ctx.check(all(c[2] == batch and c[3] == {'a': 3, 'b': 'x'} for c in calls), 'every query has the batch size and the parameters', got=calls)
    res = al.get_experiment_result()
    judge(ctx, res, model, splits, calls, batch, rule(crit, value))
    ctx.check(parts == [[list(p[k]) for p in splits] for k in range(4)], 'the given split is not changed')
    if ctx.flag('again'):
        al.start_query(multi_thread=False, verbose=False)
        judge(ctx, al.get_experiment_result(), model, splits, calls, batch, rule(crit, value), ' (second run)')
    else:
        res[0].set_initial_point(-1)
        res.pop()
        judge(ctx, al.get_experiment_result(), model, splits, calls, batch, rule(crit, value), ' (read again)')
    ctx.cover('end')


@R.family('threads', [('queries', None), ('queries', 1), Th('none', None)], budget=120, covers=('end',), bounds='2 folds in 2 threads, every schedule of up to 6 (9 thorough) switches at training, prediction, selection and the stopping test, arbitrary selections and predictions')
def threads(ctx, crit, limit):
    """Folds running in threads do not influence each other."""
    s = Sched(ctx, 6 if crit == 'queries' else 9)
    ctx.patch(M, 'threading', Module(s, M.threading))

    class Quiet(object):
        dump = staticmethod(lambda *a, **kw: None)
        dumps = staticmethod(lambda *a, **kw: b'')
        __getattr__ = lambda self, name: getattr(pickle, name)
    ctx.patch(M, 'pickle', Quiet())
    ctx.patch(SIO, 'pickle', Quiet())
    ctx.patch(M.aceThreading, '__repr__', lambda self: '')
    al, model, parts = setup(ctx, SPLITS, 1, CRIT[crit][0], CRIT[crit][1], 'set', pause=s.pause)
    seen, calls = [], []
    al.set_query_strategy(strategy(ctx, seen, calls, s.pause))
    was = SC.StoppingCriteria.is_stop
    ctx.patch(SC.StoppingCriteria, 'is_stop', lambda self: (s.pause(), was(self))[1])
    al.set_performance_metric('accuracy_score')
    al.start_query(multi_thread=True, saving_path=ctx.tmpdir(), max_thread=limit, refresh_interval=1000)
    ctx.check(s.errors == [], 'no thread fails', got=str(s.errors)[:300])
    ctx.check(s.most <= (limit or 2), 'no more threads run at the same time than allowed', got=s.most)
    judge(ctx, al.get_experiment_result(), model, SPLITS, calls, 1, rule(crit))
    ctx.cover('end')


@R.case('time', covers=('end',), bounds='2 folds of 2 unlabeled instances, queries of arbitrary duration, arbitrary limit')
def timed(ctx):
    """The time limit holds for every fold by itself."""
    class Clock(object):
        now = 100.0
        perf_counter = staticmethod(lambda: Clock.now)
        time = perf_counter
        process_time = perf_counter
        monotonic = perf_counter
    ctx.patch(SC, 'time', Clock)
    limit = ctx.real('limit', 0.5, 3)
    al, model, parts = setup(ctx, SPLITS, 1, 'time_limit', limit, 'set')
    Clock.now += ctx.real('before', 0, 5)
    seen, calls = [], []
    base = strategy(ctx, seen, calls)
    spent = []
    class Slow(base):
        def select(self, *a, **kw):
            d = ctx.real('t%d' % len(spent), 0, 3)
            spent.append(d)
            Clock.now += d
            return base.select(self, *a, **kw)
    al.set_query_strategy(Slow)
    al.set_performance_metric('accuracy_score')
    al.start_query(multi_thread=False, verbose=False)
    def stop(fold, n, left, all, res):
        base = sum(len(x) for x in res[:fold])
        return Or([left == 0, Sum(spent[base:base + n]) >= limit])
    judge(ctx, al.get_experiment_result(), model, SPLITS, calls, 1, stop)
    ctx.cover('end')


PARAMS = {
    'QueryInstanceQBC': ([{}, {'method': 'm', 'disagreement': 'd'}], ['method', 'disagreement']),
    'QueryInstanceUncertainty': ([{}, {'measure': 'margin'}], ['measure']),
    'QueryInstanceRandom': ([{}], []),
    'QueryRandom': ([{}], []),
    'QueryExpectedErrorReduction': ([{}], []),
    'QueryInstanceGraphDensity': ([{}, {'metric': 'euclidean'}], ['metric']),
    'QueryInstanceQUIRE': ([{}, {'kernel': 'linear', 'lambda': 2}], []),
    'QueryInstanceBMDR': ([{}, {'beta': 7, 'gamma': 8, 'rho': 9, 'kernel': 'linear'}, {'qp_solver': 'CVXOPT'}], []),
    'QueryInstanceSPAL': ([{}, {'mu': 6, 'gamma': 8, 'rho': 9, 'lambda_init': 5, 'lambda_pace': 4, 'kernel': 'linear'}, {'qp_solver': 'CVXOPT'}], []),
    'QueryInstanceLAL': ([{}, {'mode': 'LAL_independent', 'data_path': '/x', 'cls_est': 3, 'train_slt': False}], []),
}


@R.family('builtin', sorted(PARAMS), budget=60, covers=('end',), bounds='every implemented strategy (as a stand-in of the same signature), default or given parameters, arbitrary selections and predictions')
def builtin(ctx, name):
    """The implemented strategies get the data, the training set, the model and their parameters."""
    import inspect
    cls = getattr(A, 'QueryInstanceRandom' if name == 'QueryRandom' else name)
    sig_init, sig_sel = inspect.signature(cls.__init__), inspect.signature(cls.select)
    made, calls, models = [], [], []
    base = strategy(ctx, [], calls)

    def bind(sig, a, kw):
        b = sig.bind(*a, **kw)
        b.apply_defaults()
        out = dict(b.arguments)
        for p in sig.parameters.values():
            if p.kind == p.VAR_KEYWORD:
                out.update(out.pop(p.name, {}))
        return out

    class Stub(object):
        def __init__(self, *a, **kw):
            made.append(bind(sig_init, (self,) + a, kw))

    def select(self, *a, **kw):
        b = bind(sig_sel, (self,) + a, kw)
        if 'model' in b:
            m = b['model']
            models.append(m is not None and m.trained == tuple(sorted(int(i) for i in b['label_index'])))
        asked.append(b)
        return base.select(None, b['label_index'], b['unlabel_index'], b['batch_size'])
    asked = []
    if 'model' in sig_sel.parameters:
        def sel(self, label_index, unlabel_index, model=None, batch_size=1, **kw):
            return select(self, label_index, unlabel_index, model=model, batch_size=batch_size, **kw)
    else:
        def sel(self, label_index, unlabel_index, batch_size=1, **kw):
            return select(self, label_index, unlabel_index, batch_size=batch_size, **kw)
    Stub.select = sel
    ctx.patch(A, 'QueryInstanceRandom' if name == 'QueryRandom' else name, Stub)
    given = ctx.choice('given', PARAMS[name][0])
    batch = 1 + ctx.index('batch', 0, 1)
    al, model, parts = setup(ctx, SPLITS, batch, 'num_of_queries', 1, 'set')
    al.set_query_strategy(name, **dict(given))
    al.set_performance_metric('accuracy_score')
    al.start_query(multi_thread=False, verbose=False)
    judge(ctx, al.get_experiment_result(), model, SPLITS, calls, batch, rule('queries'))
    default = bind(sig_init, (None, X, Y) + ((None,) if 'train_idx' in sig_init.parameters else ()), {})
    for k, b in enumerate(made):
        ctx.check(np.asarray(b['X']).tolist() == X.tolist() and np.asarray(b['y']).tolist() == Y.tolist(), 'the strategy is made with the data')
        if 'train_idx' in b:
            ctx.check(list(b['train_idx']) == SPLITS[k % 2][0], 'and with the training set of its fold')
        for p, v in given.items():
            if p != 'qp_solver':
                ctx.check(b.get(p) == v, 'and with the given parameters', parameter=p, got=str(b.get(p)))
        for p, v in default.items():
            if p not in given and p not in ('self', 'X', 'y', 'train_idx'):
                ctx.check(b.get(p) == v, 'and otherwise with the defaults', parameter=p, got=str(b.get(p)))
    ctx.check(len(made) == (2 if 'train_idx' in sig_init.parameters else 1), 'a strategy that depends on the training set is made for every fold', got=len(made))
    ctx.check(all(models), 'the model given to the strategy is the one trained on the current labeled set')
    if 'qp_solver' in sig_sel.parameters:
        ctx.check(all(b['qp_solver'] == given.get('qp_solver', 'ECOS') for b in asked), 'the solver is the given one', got=str([b['qp_solver'] for b in asked]))
    ctx.cover('end')


@R.case('metric', covers=('end',), bounds='2 folds, arbitrary predictions, every implemented metric as a stand-in')
def metric(ctx):
    """The metric asked for is the one that is recorded."""
    names = ['accuracy_score', 'roc_auc_score', 'hamming_loss', 'one_error', 'coverage_error', 'label_ranking_loss', 'label_ranking_average_precision_score', 'zero_one_loss']
    name = ctx.choice('name', names)
    other = ctx.flag('in constructor')
    calls = []

    def fake(nm):
        def f(y_true, y_pred, **kw):
            calls.append((nm, [int(v) for v in y_true], list(y_pred), kw))
            return len(calls)
        return f
    for nm in names:
        ctx.patch(A.performance, nm, fake(nm))
    model = Model(ctx)
    al = AlExperiment(X, Y, model=model, stopping_criteria='num_of_queries', stopping_value=1, **({'performance_metric': name} if other else {}))
    al.set_data_split(*[[list(p[k]) for p in SPLITS] for k in range(4)])
    al.set_query_strategy(strategy(ctx, [], []))
    kw = {}
    if not other:
        kw = ctx.choice('kw', [{}, {'pos_label': 1}])
        al.set_performance_metric(name, **kw)
    al.start_query(multi_thread=False, verbose=False)
    res = al.get_experiment_result()
    ctx.check([c[0] for c in calls] == [name] * 4, 'the metric asked for is used', got=[c[0] for c in calls], want=name)
    ctx.check([[r.initial_point, r[0].get_value('performance')] for r in res] == [[1, 2], [3, 4]], 'its values are what is recorded')
    for k, c in enumerate(calls):
        ctx.check(c[1] == [int(Y[i]) for i in SPLITS[k // 2][1]], 'it is given the labels of the test set')
        ctx.check(c[3] == kw, 'and the given parameters', got=str(c[3]))
    ctx.cover('end')


@R.family('plot', [1, 2], covers=('end',), bounds='k folds of 1 or 2 queries, arbitrary predictions')
def plot(ctx, k):
    """The learning curve of the experiment is that of its results."""
    sp, lines = SPLITS[:k], []
    model, calls = Model(ctx), []
    n = 1 + ctx.index('n', 0, 1)
    al = AlExperiment(X, Y, model=model, stopping_criteria='num_of_queries', stopping_value=n)
    al.set_data_split(*[[list(p[q]) for p in sp] for q in range(4)])
    al.set_query_strategy(strategy(ctx, [], calls))
    al.set_performance_metric('accuracy_score')
    al.start_query(multi_thread=False, verbose=False)

    class Plt(object):
        def __getattr__(self, name):
            if name.startswith('__'):
                raise AttributeError(name)
            return lambda *a, **kw: lines.append((name, a, kw))
    ctx.patch(EA, 'plt', Plt())
    ctx.patch(A, 'print', lambda *a, **kw: None)
    ctx.patch(EA.ExperimentAnalyser, '__repr__', lambda self: '')
    al.plot_learning_curve(title='T')
    res = [[r.initial_point] + [r[i].get_value('performance') for i in range(len(r))] for r in al.get_experiment_result()]
    drawn = [a for nm, a, kw in lines if nm == 'plot']
    ctx.check(len(drawn) == 1 and [float(v) for v in drawn[0][0]] == list(range(n + 1)), 'one curve with a point for every query and the initial one', got=str(drawn)[:200])
    if len(drawn) == 1:
        ctx.check(And([Close(v, Sum([r[i] for r in res]) / len(res)) for i, v in enumerate(list(drawn[0][1]))]), 'of the mean performance over the folds')
    ctx.check([a for nm, a, kw in lines if nm == 'title'] == [('T',)], 'with the given title')
    ctx.cover('end')


@R.case('refuse', covers=('end',), bounds='all incomplete or inconsistent settings')
def refuse(ctx):
    new = lambda: AlExperiment(X, Y, model=Model(ctx))
    al = new()
    ctx.check(ctx.raises(Exception, al.start_query, multi_thread=False), 'no split is refused')
    ctx.check(ctx.raises(Exception, al.get_experiment_result) and ctx.raises(Exception, al.plot_learning_curve), 'no result is refused')
    for s in ('QueryInstanceGraphDensity', 'QueryInstanceQUIRE'):
        ctx.check(ctx.raises(ValueError, al.set_query_strategy, s), 'a strategy that needs the training set is refused without one', strategy=s)
    ctx.check(ctx.raises(NotImplementedError, al.set_query_strategy, 'Other'), 'an unknown strategy is refused')
    ctx.check(ctx.raises(NotImplementedError, al.set_performance_metric, 'other'), 'an unknown metric is refused')
    parts = [[list(p[k]) for p in SPLITS] for k in range(4)]
    k = ctx.index('k', 0, 3)
    bad = [p if j != k else p[:1] for j, p in enumerate(parts)]
    ctx.check(ctx.raises(ValueError, al.set_data_split, *bad), 'a split of different counts is refused')
    ctx.check(ctx.raises(ValueError, AlExperiment, X, Y, train_idx=bad[0], test_idx=bad[1], label_idx=bad[2], unlabel_idx=bad[3]), 'a split of different counts is refused')
    al = new()
    seen = {}
    def split(**kw):
        seen.update(kw)
        return parts
    ctx.patch(A, 'split', split)
    a, b, c, d = [ctx.choice(n, v) for n, v in (('t', [0.3, 0.5]), ('r', [0.05, 0.2]), ('c', [10, 2]), ('ac', [True, False]))]
    out = al.split_AL(test_ratio=a, initial_label_rate=b, split_count=c, all_class=d)
    ctx.check([list(o) for o in out] == parts and seen.get('test_ratio') == a and seen.get('initial_label_rate') == b and seen.get('split_count') == c and seen.get('all_class') == d, 'the split asked for is made and returned', got=str(seen)[-200:])
    ctx.check(np.asarray(seen.get('y')).tolist() == Y.tolist(), 'from the labels of the data')
    ctx.cover('end')
