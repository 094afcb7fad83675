"""Shared by the driver (CPython 3.12 + Hypothesis) and the worker (PyPy 3.9).

Keep this file importable by both and free of numpy / hypothesis / klang
imports at module level.
"""
import json

VERIF = __file__.rsplit('/', 2)[0]
REPO = '/repo'


class Test:

    """One executable check: a generator, an oracle and case budgets.

    strategy  -- callable returning a Hypothesis strategy of JSON-able cases.
    check     -- function(case, ctx); raises Fail if the property is broken.
    quick     -- number of generated cases in the quick tier (whole run).
    thorough  -- number of generated cases in the thorough tier.
    mode      -- how klang's C extensions are provided: 'native' (built from
                 /repo), 'asan' (same, with address/UB sanitizer), 'fallback'
                 (import fails, pure Python code paths).
    cpu       -- CPU seconds after which a single case counts as hung.
    shards    -- at most this many parallel shards (1 for tests which own a
                 port, ...).
    """

    def __init__(self, name, strategy, check, quick=400, thorough=None,
                 mode='native', cpu=30, shards=None):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough or quick * 40
        self.mode = mode
        self.cpu = cpu
        self.shards = shards


class Fail(Exception):

    """The property does not hold for this case."""


class Ctx:

    """Per case observations."""

    def __init__(self):
        self.nontrivial = False
        self.labels = []
        self.cleanups = []

    def hit(self, label=None):
        """Mark case as non-trivial (and label it)."""
        self.nontrivial = True
        if label:
            self.label(label)

    def label(self, label):
        if label not in self.labels:
            self.labels.append(label)

    def defer(self, func, *args):
        self.cleanups.append((func, args))

    def swap(self, module, name, new):
        """Replace an attribute of a module, and wherever a module of klang
        imported it by name, until the end of the case.
        """
        import sys
        old = getattr(module, name)
        places = [(module, name)]
        for key, mod in list(sys.modules.items()):
            if key.partition('.')[0] == 'klang' and mod is not None:
                places.extend((mod, n) for n, val in list(vars(mod).items())
                              if val is old)
        for mod, n in places:
            setattr(mod, n, new)
            self.defer(setattr, mod, n, old)


def dumps(obj):
    return json.dumps(obj, sort_keys=True)


def require(cond, msg, *args):
    if not cond:
        raise Fail(msg % args if args else msg)
