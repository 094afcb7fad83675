"""Robustness of the C extensions."""
from vlib.common import Fail, Test, require

META = {
    'title': 'Native code never crashes, corrupts memory or leaks, whatever it gets',
    'statement': (
        'The native filters and envelope answer any argument, of any type, '
        'shape, memory layout or magnitude, with a correct result or an '
        'ordinary exception. They never crash the interpreter, touch memory '
        'out of bounds, keep an array alive after the call or leak memory. An '
        'object which refused a call goes on working as if that call had not '
        'happened.'),
    'over': ['inputs', 'histories'],
    'quant': ('All sequences of constructor, attribute and method calls with '
              'valid and invalid arguments.'),
    'why': ('Tests pass valid contiguous float arrays only; memory errors do '
            'not show in results and need a sanitizer and hostile input.'),
    'files': ['klang/audio/_filters.c', 'klang/audio/_envelope.c'],
    'mechanism': [
        {'name': 'parse_input_array, RingBufferFilter_new, *_filter',
         'where': 'klang/audio/_filters.c'},
        {'name': 'Envelope_init, setters, Envelope_sample',
         'where': 'klang/audio/_envelope.c'}],
    'observe': ['results and exceptions, interpreter exit status, '
                'AddressSanitizer / UBSan reports, weak references'],
}
RULE = ('Cases are sequences of calls with a mix of valid and hostile '
        'arguments on objects of the extension modules built with '
        '-fsanitize=address,undefined. Non-trivial: at least one hostile '
        'argument and one valid call on the same object after it; 72 or more '
        'calls without growing memory.')
ASSUMPTIONS = ['address and undefined behaviour sanitizers of gcc 13 inside '
               'PyPy 3.9']

HOSTILE = ['str', 'none', 'dict', 'object', '2d', '0d', '3d', 'ragged',
           'complex', 'strlist', 'nan', 'inf', 'huge-int', 'bytes', 'set']
VALID = ['plain', 'strided', 'reversed', 'column', 'float32', 'int', 'empty',
         'bool', 'bigendian', 'readonly', 'unaligned', 'list', 'tuple',
         'int8', 'fortran', 'arraylike']


def strat_filter():
    from hypothesis import strategies as st
    from vlib.gens import ops as oplist, weighted
    op = st.one_of(
        st.tuples(st.just('ok'), st.sampled_from(VALID), st.integers(0, 40)),
        st.tuples(st.just('ok'), st.sampled_from(VALID), st.integers(0, 400)),
        st.tuples(st.just('bad'), st.sampled_from(HOSTILE),
                  st.integers(0, 5)),
        st.tuples(st.just('alpha'), st.sampled_from(
            ['num', 'int', 'str', 'none', 'del', 'nan']),
            st.integers(-5, 5))).map(list)
    length = weighted(
        (6, st.integers(1, 60)), (1, st.sampled_from([0, -1, -5, -2**31])),
        (1, st.sampled_from([60 * 44100, 60 * 44100 + 1, 2**31 - 1, 2**31,
                             2**63, 10**30])),
        (1, st.sampled_from(['str', 'float', 'none', 'nothing'])))
    return st.fixed_dictionaries({
        'cls': st.sampled_from(['ForwardCombFilter', 'BackwardCombFilter',
                                'EchoFilter']),
        'length': length, 'ops': oplist(op, 15),
        'kw': st.booleans(),
        'life': st.sampled_from([False] * 5 + [True])})


def strat_env():
    from hypothesis import strategies as st
    from vlib.gens import ops as oplist
    val = st.sampled_from([0., .001, .01, .5, 1., 1e-12, 1e12, -1., -1e-9,
                           2., 'nan', 'inf', '-inf', 'str', 'none', 'del',
                           'int', 'big'])
    op = st.one_of(
        st.tuples(st.sampled_from(['attack', 'decay', 'sustain', 'release',
                                   'overshoot']), val),
        st.tuples(st.sampled_from(['retrigger', 'loop']),
                  st.sampled_from([True, False, 'int', 'str', 'none'])),
        st.tuples(st.just('gate'), st.sampled_from(
            [True, False, 1, 0, 'str', 'none', 'list', 'badbool'])),
        st.tuples(st.just('sample'), st.one_of(
            st.integers(0, 600), st.sampled_from(
                [-1, 'str', 'none', 'float', 'huge'])))).map(list)
    return st.fixed_dictionaries({
        'args': st.lists(val.filter(lambda v: v != 'del'), min_size=4,
                         max_size=4),
        'dt': st.sampled_from([1 / 44100, 1 / 44100, 1., 0., -1., 'nan']),
        'over': st.sampled_from([None, 1e-3, 1e-9, 0., -1., 1e300, 'nan']),
        'flags': st.tuples(st.booleans(), st.booleans()).map(list),
        'ops': oplist(op, 25)})


def hostile(np, kind, n):
    return {
        'str': 'abc', 'none': None, 'dict': {1: 2}, 'object': object(),
        '2d': np.ones((n, 2)), '0d': np.float64(1.), '3d': np.ones((1, n, 1)),
        'ragged': [[1.], [1., 2.]], 'complex': np.array([1j] * (n + 1)),
        'strlist': ['a', 'b'], 'nan': [float('nan'), 'x'],
        'inf': [[float('inf')]], 'huge-int': [10 ** 400],
        'bytes': b'\x00\xff', 'set': {1., 2.}}[kind]


class ArrayLike:

    """Gets converted to the array it holds."""

    def __init__(self, array):
        self.array = array

    def __array__(self, dtype=None, copy=None):
        return self.array


def valid(np, kind, n):
    x = np.random.RandomState(n).uniform(-1, 1, n)
    if kind == 'empty':
        return np.zeros(0), np.zeros(0)
    if kind == 'bool':
        y = x > 0
        return y, y.astype(float)
    if kind == 'int8':
        y = (x * 100).astype(np.int8)
        return y, y.astype(float)
    if kind == 'bigendian':
        return x.astype('>f8'), x
    if kind == 'unaligned':
        raw = np.zeros(8 * n + 3, dtype=np.uint8)
        y = raw[3:3 + 8 * n].view(np.float64) if n else np.zeros(0)
        y[:] = x
        return y, x
    if kind == 'tuple':
        return tuple(float(v) for v in x), x
    if kind == 'list':
        return [float(v) for v in x], x
    if kind == 'arraylike':
        return ArrayLike(x), x
    if kind == 'fortran':
        big = np.asfortranarray(np.full((3, n), np.nan))
        big[1] = x
        return big[1], x
    from props.c10 import layout
    return layout(np, x, kind)


def check_filter(case, ctx):
    import gc
    import warnings
    import weakref
    import numpy as np
    from klang.audio import _filters
    from props.c10 import model
    from vlib.orc import close
    cls = getattr(_filters, case['cls'])
    typ = {'ForwardCombFilter': 'forward', 'BackwardCombFilter': 'backward',
           'EchoFilter': 'echo'}[case['cls']]
    length = case['length']
    args = {'str': ('x',), 'float': (2.5,), 'none': (None,),
            'nothing': ()}.get(length, (length,))
    ok_len = isinstance(length, int) and 1 <= length <= 60 * 44100
    try:
        if case['kw'] and args:
            fil = cls(length=args[0], alpha=.5)
        elif args:
            fil = cls(args[0], .5)
        else:
            fil = cls()
    except Exception as err:
        require(not ok_len, 'length %r refused with %r', length, err)
        ctx.label('constructor refused')
        return
    require(ok_len, 'length %r accepted', length)
    if length > 1000:
        fil.filter(np.ones(5))
        return
    state = [0.] * length
    alpha = .5
    bad = after = False
    refs = []
    for op, kind, n in case['ops']:
        if op == 'ok':
            block, values = valid(np, kind, n)
            exp = model(np, typ, length, state, values, alpha)
            got = fil.filter(block)
            close(got, exp, '%s, k=%d, %s input of %d' % (
                case['cls'], length, kind, n))
            if isinstance(block, np.ndarray) and block.size:
                refs.append(weakref.ref(block))
            elif kind == 'arraylike':
                refs.append(weakref.ref(values))
            refs.append(weakref.ref(got))
            after = after or bad
            del block, values, got, exp
        elif op == 'bad':
            arg = hostile(np, kind, n)
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    got = fil.filter(arg)
            except Exception:
                bad = True
            else:
                # Accepted: must be what numpy itself makes of it
                try:
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        values = np.asarray(arg).astype(float)
                except Exception:
                    raise Fail('argument %s accepted' % kind)
                require(values.ndim == 1, '%s argument accepted', kind)
                exp = model(np, typ, length, state, values, alpha)
                close(got, exp, '%s input' % kind)
        else:
            try:
                if kind == 'num':
                    fil.alpha = n / 5.
                    alpha = n / 5.
                elif kind == 'int':
                    fil.alpha = n % 2
                    alpha = float(n % 2)
                elif kind == 'nan':
                    continue
                elif kind == 'del':
                    del fil.alpha
                else:
                    fil.alpha = {'str': 'x', 'none': None}[kind]
            except Exception:
                bad = True
            else:
                require(kind in ('num', 'int'), 'alpha = %s accepted', kind)
            require(abs(fil.alpha - alpha) < 1e-12,
                    'alpha is %r after %s', fil.alpha, kind)
    if refs and case['life']:
        control = np.ones(7)
        cref = weakref.ref(control)
        del control
        for _ in range(4):
            gc.collect()
        if cref() is None:
            alive = sum(r() is not None for r in refs)
            require(alive == 0, '%d of %d arrays are kept alive '
                    'after filtering', alive, len(refs))
            ctx.label('lifetime checked')
    if bad and after:
        ctx.hit()


def number(val):
    return {'nan': float('nan'), 'inf': float('inf'), '-inf': -float('inf'),
            'str': 'x', 'none': None, 'int': 1, 'big': 10 ** 400}.get(val, val)


def check_env(case, ctx):
    import numpy as np
    from klang.audio._envelope import Envelope
    args = [number(v) for v in case['args']] + [number(case['dt'])]
    if case['over'] is not None:
        args += [number(case['over'])] + case['flags']
    try:
        env = Envelope(*args)
    except Exception:
        require(any(not isinstance(a, (int, float)) or isinstance(a, int)
                    and abs(a) > 1e300 for a in args),
                'constructor refused %s', args)
        return
    names = ('attack', 'decay', 'sustain', 'release', 'overshoot')
    bad = after = False
    for op, val in case['ops']:
        before = [getattr(env, n) for n in names]
        flags = (bool(env.retrigger), bool(env.loop), env.active)
        arg = number(val)
        refused = False
        try:
            if op == 'gate':
                if val == 'badbool':
                    arg = np.ones(3)
                env.gate([] if val == 'list' else arg)
            elif op == 'sample':
                if val == 'float':
                    arg = 2.5
                if val == 'huge':
                    arg = 10 ** 25
                out = env.sample(arg)
            elif val == 'del':
                delattr(env, op)
            else:
                setattr(env, op, arg)
        except SystemError as err:
            raise Fail('%s = %r: %s' % (op, val, err))
        except Exception:
            refused = True
        if refused:
            bad = True
            now = [getattr(env, n) for n in names]
            require(repr(now) == repr(before) and (
                bool(env.retrigger), bool(env.loop), env.active) == flags,
                'refused %s = %r changed %s to %s', op, val, before, now)
        elif op == 'sample':
            require(isinstance(val, int) and val >= 0 or val == 'float',
                    'sample(%r) accepted', val)
            require(out.shape == (int(arg),), 'sample(%r) gives shape %s',
                    val, out.shape)
            after = after or bad
        elif op in names:
            require(isinstance(arg, (int, float)), '%s = %r accepted', op,
                    val)
            require(not arg < 0, '%s = %r accepted', op, val)
            if op == 'sustain':
                require(0 <= arg <= 1, 'sustain = %r accepted', val)
    if bad and after:
        ctx.hit()


def strat_leak():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'cls': st.sampled_from(['ForwardCombFilter', 'BackwardCombFilter',
                                'EchoFilter']),
        'what': st.sampled_from(['plain', 'float32', 'strided', 'list', 'bad',
                                 'int', 'new', 'refused', 'envelope']),
        'n': st.sampled_from([60000, 65536])})


def memory():
    import resource
    with open('/proc/self/statm') as stream:
        return int(stream.read().split()[1]) * resource.getpagesize() / 1e6


def check_leak(case, ctx):
    """Calls with converted input, refused calls, creation: 0.5 MB each."""
    import gc
    import numpy as np
    from klang.audio import _filters
    from klang.audio._envelope import Envelope
    cls = getattr(_filters, case['cls'])
    what, n = case['what'], case['n']
    arg = {'float32': np.zeros(n, dtype=np.float32),
           'strided': np.zeros((n, 2))[:, 0], 'list': [0.] * n,
           'bad': np.zeros((2, n // 2), dtype=np.float32),
           'int': np.zeros(n, dtype=np.int32)}.get(what, np.zeros(n))
    fil = cls(10, .5)
    env = Envelope(.1, .1, .5, .1, 1 / 44100)

    def once():
        if what == 'envelope':
            env.sample(n)
        elif what == 'new':
            cls(n, .5).filter(np.zeros(5))
        elif what in ('bad', 'refused'):
            for bad in ([arg] if what == 'bad' else [[arg], 'x', arg * 1j]):
                try:
                    fil.filter(bad)
                except Exception:
                    pass
        else:
            fil.filter(arg)

    def run(times):
        for i in range(times):
            once()
            if i % 4 == 3:
                gc.collect()

    run(24)
    before = memory()
    for _ in range(4):  # A leak grows each time
        run(48)
        grown = memory() - before
        if grown < 12:
            ctx.hit()
            return
        before = memory()
    raise Fail('memory grows by %d MB in 48 calls (%s)' % (grown, what))


TESTS = [
    Test('filters', strat_filter, check_filter, quick=800, thorough=60000,
         mode='asan'),
    Test('envelope', strat_env, check_env, quick=1500, thorough=60000,
         mode='asan'),
    Test('leaks', strat_leak, check_leak, quick=36, thorough=300),
]
