class Case(object):
    """One symbolic harness.  fn(ctx) builds inputs from ctx, calls the real code, asserts with ctx.check."""
    def __init__(self, name, fn, tier='quick', budget=60, paths=200000, covers=(), validate=40, timeout_ms=8000, bounds='', must=()):
        self.name = name
        self.fn = fn
        self.tier = tier
        self.budget = budget
        self.paths = paths
        self.covers = tuple(covers)
        self.must = tuple(must)    # outcomes which the property requires to be possible
        self.validate = validate
        self.timeout_ms = timeout_ms
        self.bounds = bounds


class Registry(object):
    def __init__(self):
        self.cases = []

    def case(self, name, tier='quick', **kw):
        """tier: 'quick' (also part of thorough) or 'thorough'."""
        def deco(fn):
            self.cases.append(Case(name, fn, tier, **kw))
            return fn
        return deco

    def family(self, name, params, tier='quick', **kw):
        """fn(ctx, *param) for each param tuple; params may be (param, tier) through tiers()."""
        def deco(fn):
            for p in params:
                t = tier
                k = dict(kw)
                if isinstance(p, Th):
                    t, p = 'thorough', p.p
                p = p if isinstance(p, tuple) else (p,)
                self.cases.append(Case('%s[%s]' % (name, ','.join(str(x) for x in p)), (lambda q: (lambda ctx: fn(ctx, *q)))(p), t, **k))
            return fn
        return deco


class Th(object):
    """Marks a parameter tuple as thorough-only."""
    def __init__(self, *p):
        self.p = p
