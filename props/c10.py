"""Comb and echo filters."""
from vlib.common import Test, require
from vlib.pairs import RULE as PAIRS, together

META = {
    'title': 'Comb and echo filters obey their difference equations for any blocks',
    'statement': (
        'With delay k and gain a, the forward comb filter outputs '
        'y[n] = x[n] + a x[n-k], the backward comb filter '
        'y[n] = x[n] + a y[n-k], and the echo filter the wet signal only, '
        'y[n] = x[n-k] + a y[n-k]. The output does not depend on how the '
        'input is cut into blocks, on its number type or memory layout, nor on '
        'other filters, and the input is left unaltered; gain changes apply '
        'from the next block on. The native and the pure Python filters agree, '
        'the latter for blocks not longer than the delay.'),
    'over': ['inputs', 'histories', 'configurations'],
    'quant': ('All delays, gains, signals and block partitions, for both '
              'implementations.'),
    'why': ('Tests feed an impulse with one delay and one block size and look '
            'at two or three samples.'),
    'files': ['klang/audio/filters.py', 'klang/audio/_filters.c',
              'klang/ring_buffer.py'],
    'mechanism': [
        {'name': '*_filter(), RingBuffer_peek / RingBuffer_append',
         'where': 'klang/audio/_filters.c'},
        {'name': 'PyForwardCombFilter, PyBackwardCombFilter, PyEchoFilter',
         'where': 'klang/audio/filters.py'}],
    'observe': ['filter(block) of the three filter classes'],
}
RULE = ('Cases are filter type, delay, gains, signal, block partition and '
        'array layout; native filters run under the address sanitizer. '
        'Non-trivial: the signal is longer than the delay, not silent, and cut '
        'into at least two blocks.')
ASSUMPTIONS = ['gcc -fsanitize=address,undefined preserves semantics',
               'PyPy numpy arrays behave like CPython numpy arrays']

LAYOUTS = ['plain', 'strided', 'reversed', 'column', 'float32', 'int', 'list',
           'readonly', 'offset']


def strat(python):
    from hypothesis import strategies as st
    from vlib.gens import signals
    gain = st.one_of(st.sampled_from([0., .5, .9, 1., -.7, 1.25, -2.]),
                     st.floats(-1., 1.))

    def build(k, cuts, typ, layouts, alphas, sig, default, other, scale):
        if python:
            cuts = [min(c, k, 256) for c in cuts]
        return {'k': k, 'cuts': cuts, 'type': typ, 'layouts': layouts,
                'alphas': alphas, 'default': default, 'other': other,
                'sig': dict(sig, n=sum(cuts)), 'scale': scale}

    delay = st.one_of(st.integers(1, 8), st.integers(1, 40),
                      st.integers(30, 400))
    cuts = st.one_of(
        st.lists(st.integers(0, 20), min_size=2, max_size=12),
        st.lists(st.integers(1, 60), min_size=4, max_size=12),
        st.lists(st.sampled_from([256, 100, 255, 1, 57, 123]), min_size=2,
                 max_size=6))
    return st.builds(
        build, delay, cuts, st.sampled_from(['forward', 'backward', 'echo']),
        st.lists(st.sampled_from(LAYOUTS), min_size=12, max_size=12),
        st.lists(st.one_of(st.none(), gain), min_size=12, max_size=12),
        signals(1), st.booleans(), st.booleans(),
        st.sampled_from([1., 1., 1., 1e5]))


def layout(np, x, kind):
    """Block in the given memory layout (values as a plain float array)."""
    n = len(x)
    if kind == 'strided':
        big = np.full(2 * n + 1, np.nan)
        big[0:2 * n:2] = x
        return big[0:2 * n:2], x
    if kind == 'reversed':
        return x[::-1].copy()[::-1], x
    if kind == 'column':
        big = np.full((n, 3), np.nan)
        big[:, 1] = x
        return big[:, 1], x
    if kind == 'float32':
        y = x.astype(np.float32)
        return y, y.astype(float)
    if kind == 'int':
        y = np.round(x * 100).astype(int)
        return y, y.astype(float)
    if kind == 'readonly':
        y = x.copy()
        y.setflags(write=False)
        return y, x
    if kind == 'offset':
        big = np.full(n + 5, np.nan)
        big[3:3 + n] = x
        return big[3:3 + n], x
    return x, x


def model(np, typ, k, state, x, a):
    """Difference equations, sample by sample. state: last k values."""
    y = []
    for val in x:
        old = state.pop(0)
        if typ == 'forward':
            out = val + a * old
            state.append(val)
        elif typ == 'backward':
            out = val + a * old
            state.append(out)
        else:
            out = old
            state.append(val + a * old)
        y.append(out)
    return np.array(y, dtype=float)


def run(case, ctx, python):
    import numpy as np
    from klang.audio import filters
    from vlib.orc import close, signal
    require(bool(filters.USE_PYTHON_FALLBACK) == python,
            'expected %s filters', 'Python' if python else 'native')
    cls = {'forward': filters.ForwardCombFilter,
           'backward': filters.BackwardCombFilter,
           'echo': filters.EchoFilter}[case['type']]
    k = case['k']
    scale = case.get('scale', 1.)
    x = scale * signal(case['sig'])
    alpha = .9
    if case['default'] or case['alphas'][0] is None:
        fil = cls(k)
    else:
        alpha = case['alphas'][0]
        fil = cls(k, alpha)
    require(abs(fil.alpha - alpha) < 1e-15, 'gain is %r', fil.alpha)
    state = [0.] * k
    other = cls(k, .5) if case['other'] else None
    pos = 0
    outs = []
    for i, cut in enumerate(case['cuts']):
        block, values = layout(np, x[pos:pos + cut].copy(),
                               case['layouts'][i])
        if case['layouts'][i] == 'list' and not python:
            block = [float(v) for v in values]
        if i and case['alphas'][i] is not None:
            alpha = case['alphas'][i]
            fil.alpha = alpha
        keep = np.array(block, copy=True)
        exp = model(np, case['type'], k, state, values, alpha)
        got = fil.filter(block)
        if other is not None:
            other.filter(np.ones(min(k, 3)))
        close(got, exp, '%s comb/echo filter, k=%d, block %d of %s (%s)' % (
            case['type'], k, i, case['cuts'], case['layouts'][i]),
            tol=1e-9 * scale)
        require(np.array_equal(np.asarray(block), keep),
                'input block %d was altered', i)
        outs.append((got, np.array(got, copy=True)))
        pos += cut
    for i, (got, keep) in enumerate(outs):
        require(np.array_equal(got, keep), 'output block %d changed later', i)
    if pos > k and np.any(x) and len([c for c in case['cuts'] if c]) > 1:
        ctx.hit(case['type'])
    for name in set(case['layouts'][:len(case['cuts'])]):
        ctx.label(name)


def check_native(case, ctx):
    run(case, ctx, False)


def check_python(case, ctx):
    run(case, ctx, True)


def strat_long():
    from hypothesis import strategies as st
    from vlib.gens import signals
    return st.fixed_dictionaries({
        'k': st.one_of(st.integers(1, 300), st.integers(300, 30000)),
        'n': st.one_of(st.integers(33000, 140000),
                       st.integers(1000, 140000)),
        'cut': st.one_of(st.just(0), st.integers(0, 300),
                         st.integers(0, 140000)),
        'alpha': st.one_of(st.none(), st.floats(-1., 1.)),
        'sig': signals(1)})


def check_long(case, ctx):
    """A whole recording at once."""
    import numpy as np
    from klang.audio import filters
    from vlib.orc import close, signal
    n, k = case['n'], case['k']
    x = signal(dict(case['sig'], n=n))
    alpha = .9 if case['alpha'] is None else case['alpha']
    cut = case['cut'] % (n + 1)
    for cls in (filters.ForwardCombFilter, filters.BackwardCombFilter,
                filters.EchoFilter):
        fil = cls(k) if case['alpha'] is None else cls(k, alpha)
        # Delay by delay
        exp, old = np.zeros(n), np.zeros(k)
        for i in range(0, n, k):
            new = x[i:i + k]
            last = old[:len(new)]
            if cls is filters.ForwardCombFilter:
                exp[i:i + k] = new + alpha * last
                old = new
            elif cls is filters.BackwardCombFilter:
                exp[i:i + k] = old = new + alpha * last
            else:
                exp[i:i + k] = last
                old = new + alpha * last
        got = np.concatenate([fil.filter(x[:cut].copy()),
                              fil.filter(x[cut:].copy())])
        close(got, exp, '%s, k=%d, %d samples cut at %d' % (
            cls.__name__, k, n, cut))
    if np.any(x) and k < n:
        ctx.hit('long')


TESTS = [
    Test('long', strat_long, check_long, quick=20, thorough=600, mode='asan'),
    Test('native', lambda: strat(False), check_native, quick=1500,
         thorough=60000, mode='asan'),
    Test('python', lambda: strat(True), check_python, quick=800,
         thorough=30000, mode='fallback'),
]
TESTS.append(together('C10'))
RULE += PAIRS
