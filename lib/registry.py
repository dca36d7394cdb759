"""The properties and the analyses that decide them."""
from collections import OrderedDict


class Result(object):
    def __init__(self):
        self.n = OrderedDict()
        self.fails = []
        self.skipped = []
        self.analysed = []
        self.extra = {}

    def ok(self, rule, k=1):
        self.n[rule] = self.n.get(rule, 0) + k

    def fail(self, rule, where, msg, facts=''):
        self.n[rule] = self.n.get(rule, 0) + 1
        self.fails.append({'rule': rule, 'function': where[0], 'file': where[1], 'line': where[2], 'what': msg, 'path': facts})

    def add(self, n, fails):
        for k, v in n.items():
            self.n[k] = self.n.get(k, 0) + v
        self.fails += fails


class Property(object):
    def __init__(self, pid, run, explanation, assumptions=(), minimum=None):
        self.pid, self._run = pid, run
        self.explanation = explanation
        self.assumptions = list(assumptions)
        self.minimum = minimum or {}

    def run(self, tier):
        return self._run(tier)


def get(pid):
    import importlib
    for m in ('mcprops', 'srcprops', 'pyprops'):
        try:
            mod = importlib.import_module(m)
        except ImportError as e:
            if e.name != m:
                raise
            continue
        if pid in mod.PROPS:
            return mod.PROPS[pid]
    raise SystemExit('unknown property %s' % pid)
