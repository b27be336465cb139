"""Threads under a schedule the solver chooses: every switch between threads is a symbolic choice."""
import greenlet


class Sched(object):
    def __init__(self, ctx, free=100, name='switch'):
        self.ctx, self.free, self.name = ctx, free, name      # free: switches chosen arbitrarily; the others run in order
        self.main = greenlet.getcurrent()
        self.threads, self.switches, self.running, self.most = [], 0, None, 0
        self.errors = []
        self.foreign = 0                     # threads of somebody else that run all the time
        sched = self

        class Thread(object):
            def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
                self.target, self.name, self.args, self.kwargs, self.daemon = target, name, args, dict(kwargs or {}), daemon
                self.g, self.ident = None, None

            def start(self):
                if self.g is not None:
                    raise RuntimeError('threads can only be started once')
                self.g = greenlet.greenlet(self.run_all, parent=sched.main)
                sched.threads.append(self)
                self.ident = len(sched.threads)
                sched.most = max(sched.most, len(sched.alive()))
                while sched.step(True):      # it may run before the caller goes on
                    pass

            def run(self):
                if self.target is not None:
                    self.target(*self.args, **self.kwargs)

            def run_all(self):
                try:
                    self.run()
                except Exception as e:       # as threading does: the thread ends, nobody else notices
                    if type(e).__module__.startswith('sx') or getattr(e, 'sx_internal', False):
                        raise
                    sched.errors.append(e)

            def is_alive(self):
                if self.g is None or self.g.dead:
                    return False
                sched.step()
                return not self.g.dead

            def join(self, timeout=None):
                while self.g is not None and not self.g.dead:
                    if timeout is not None:
                        sched.step()
                        return
                    sched.step(force=self)

            def setDaemon(self, d):
                self.daemon = d
        self.Thread = Thread

    def alive(self):
        return [t for t in self.threads if not t.g.dead]

    def active_count(self):
        self.step()
        return 1 + self.foreign + len(self.alive())

    def step(self, optional=False, force=None):
        """The main thread waits: somebody else runs."""
        if greenlet.getcurrent() is not self.main:
            return
        run = self.alive()
        if not run:
            return
        n = len(run) + (1 if optional else 0)
        k = 0 if not optional else len(run)
        if n > 1 and self.switches < self.free:
            self.switches += 1
            k = self.ctx.index('%s%d' % (self.name, self.switches), 0, n - 1)
        if k < len(run):
            run[k].g.switch()
            return True

    def pause(self):
        """A point at which the thread may be interrupted."""
        if greenlet.getcurrent() is not self.main:
            self.main.switch()


class Module(object):
    """Stands for the module threading."""
    def __init__(self, sched, real):
        self.Thread, self.active_count, self.real = sched.Thread, sched.active_count, real
        self.activeCount = sched.active_count

    def __getattr__(self, name):
        return getattr(self.real, name)
