"""P09 Stopping criteria stop exactly when their condition holds for the recorded history."""
import numpy as np
from sx.case import Registry, Th
from sx.engine import And, Or, Not, Implies, Iff, Eq, Close, In, Distinct, Sum, Ite
from alipy.experiment.state import State
from alipy.experiment.state_io import StateIO
from alipy.experiment.stopping_criteria import StoppingCriteria
import alipy.experiment.stopping_criteria as scm

R = Registry()


class Clock(object):
    """A clock that moves by an arbitrary non-negative amount at every reading."""
    def __init__(self, ctx):
        self.c = ctx
        self.t = 0
        self.n = 0

    def _now(self):
        self.t = self.t + self.c.real('dt%d' % self.n, 0, 5)
        self.n += 1
        return self.t

    perf_counter = time = process_time = monotonic = clock = lambda self: self._now()


def run(ctx, n, nu, mk, expect, batch=1):
    """Histories of n queries with arbitrary selected indexes and costs; the criterion is asked after each."""
    io = StateIO(0, list(range(nu + 1)), [90], [0], list(range(1, nu + 1)), verbose=False)
    clock = Clock(ctx)
    ctx.patch(scm, 'time', clock)
    sc = mk()
    start = clock.t
    queried, cost = [], 0
    ctx.hash_universe = tuple(range(nu + 1))

    def ask(k, label):
        left = nu - Sum([In(u, queried) for u in range(1, nu + 1)])
        sc.update_information(io)
        stop = sc.is_stop()
        want = Or(Eq(left, 0), expect(len(io), cost, left, clock.t - start))
        ctx.check(Iff(stop, want), label, queries=len(io), cost=cost, left=left, stop=stop)
    ctx.check(Iff(sc.is_stop(), Or(nu == 0, expect(0, 0, nu, clock.t - start))), 'a new criterion has counted nothing')
    ask(0, 'before any query')
    for k in range(n):
        sel = [ctx.int('s%d_%d' % (k, i), 1, nu) for i in range(batch)]
        c = ctx.real('c%d' % k, 0, 4)
        io.add_state(State(list(sel), performance=0.5, cost=c))
        queried += sel
        cost = cost + c
        ask(k + 1, 'after %d queries' % (k + 1))
        ctx.cover('asked')
    if ctx.flag('recover'):
        it = ctx.index('it', 0, n)
        io.recover_workspace(it)
        queried = queried[:it * batch]
        cost = Sum([io.get_state(i)['cost'] for i in range(it)])
        ask(it, 'after recovering an earlier workspace')
        ctx.cover('recovered')
    sc.reset()
    start = clock.t
    io = StateIO(1, list(range(nu + 1)), [90], [0], list(range(1, nu + 1)), verbose=False)
    queried, cost = [], 0
    ask(0, 'after reset, on a new fold')
    ctx.cover('end')


COV = ('asked', 'recovered', 'end')


@R.family('num_of_queries', [(2, 3), Th(3, 4)], budget=60, validate=20, covers=COV, bounds='n queries over nu unlabeled instances, arbitrary limit')
def num(ctx, n, nu):
    v = ctx.int('v', -1, n + 1)
    if ctx.flag('np') and not ctx.symbolic:
        v = np.int64(v)
    run(ctx, n, nu, lambda: StoppingCriteria('num_of_queries', v), lambda q, c, l, t: q >= v)


@R.family('cost_limit', [(2, 3), Th(3, 4)], budget=60, validate=20, covers=COV, bounds='n queries with arbitrary costs, arbitrary limit')
def cost(ctx, n, nu):
    v = ctx.real('v', 0, 9)
    run(ctx, n, nu, lambda: StoppingCriteria('cost_limit', v), lambda q, c, l, t: c >= v)


@R.family('percent', [(2, 2), (2, 4), Th(3, 8)], budget=60, validate=20, covers=COV, bounds='n queries over nu (a power of two, so that the ratio is exact) unlabeled instances, arbitrary percentage in [0,1]')
def percent(ctx, n, nu):
    v = ctx.real('v', 0, 1)
    # compare in the same way as a ratio of two integers, so that replay in doubles agrees
    run(ctx, n, nu, lambda: StoppingCriteria('percent_of_unlabel', v), lambda q, c, l, t: (nu - l) / (nu * 1.0) >= v if not ctx.symbolic else (nu - l) >= v * nu)


@R.family('none', [(2, 2), (3, 3), Th(3, 4)], budget=60, validate=20, covers=COV, bounds='n queries over nu unlabeled instances, batches of 2')
def none(ctx, n, nu):
    run(ctx, n, nu, lambda: StoppingCriteria(), lambda q, c, l, t: False, batch=2)


@R.family('time_limit', [(1, 3), Th(2, 3)], budget=60, validate=20, bounds='n queries, a clock that advances by arbitrary amounts')
def time_limit(ctx, n, nu):
    v = ctx.real('v', 0, 12)
    clock = Clock(ctx)
    ctx.patch(scm, 'time', clock)
    sc = StoppingCriteria('time_limit', v)
    start = clock.t
    io = StateIO(0, list(range(nu + 1)), [90], [0], list(range(1, nu + 1)), verbose=False)
    for k in range(n + 1):
        sc.update_information(io)
        stop = sc.is_stop()
        ctx.check(Iff(stop, clock.t - start >= v), 'stops when the elapsed time reaches the limit')
        io.add_state(State([1], performance=0.5))
    sc.reset()
    start = clock.t
    stop = sc.is_stop()
    ctx.check(Iff(stop, clock.t - start >= v), 'reset restarts the clock')


@R.case('refused', bounds='an arbitrary percentage', covers=('bad', 'ok'))
def refused(ctx):
    ctx.check(ctx.raises(ValueError, StoppingCriteria, 'whenever', 3), 'an unknown criterion is refused')
    v = ctx.real('v', -3, 3)
    sc = StoppingCriteria('percent_of_unlabel', v)
    try:
        sc.is_stop()
        ctx.check(And(v >= 0, v <= 1), 'a percentage outside [0,1] is refused')
        ctx.cover('ok')
    except ValueError:
        ctx.check(Or(v < 0, v > 1), 'a percentage inside [0,1] is accepted')
        ctx.cover('bad')
    e = StateIO(0, [0], [1], [0], [], verbose=False)
    for crit, val in ((None, None), ('num_of_queries', 5), ('cost_limit', 5), ('percent_of_unlabel', 0.5), ('time_limit', 1e9)):
        s = StoppingCriteria(crit, val)
        s.update_information(e)
        ctx.check(s.is_stop(), 'an empty unlabeled pool stops every criterion', crit=crit)
