"""The programs that other properties check, for checks that run them in
other ways."""
import importlib, random


class Collector:
    """Stands in for a Check: keeps the programs instead of checking them."""

    def __init__(self, seed, quick=True):
        self.rng = random.Random(seed)
        self.quick = quick
        self.extra, self.assumptions, self.undef, self.undecided = {}, [], {}, []
        self.progs = []

    def check(self, progs, *a, **kw):
        self.progs += list(progs)
        return []

    execute = check

    def validate(self, *a, **kw): pass

    def enough(self): return False


def programs(prop, seed, quick=True):
    m = importlib.import_module(prop.lower())
    c = Collector('%s/%s' % (prop, seed), quick)
    m.run(c)
    return c.progs
