"""Filter block."""
from vlib.common import Test, require

META = {
    'title': 'The filter block filters gap-free, per channel, at the set frequency',
    'statement': (
        'The output of a filter block is one continuous pass of the designed '
        'filter over the concatenated input: block borders leave no trace, '
        'channels are independent, and different blocks share no state. The '
        'cutoff is the tabulated frequency next above the requested one '
        '(clamped to 20 Hz to 20 kHz, steps below 0.7 %), and a change of the '
        'frequency input takes effect in that same buffer while keeping the '
        'filter state.'),
    'over': ['inputs', 'histories', 'configurations'],
    'quant': 'All designs, orders, band types, frequencies and signals.',
    'why': 'No test covers the filter block.',
    'files': ['klang/audio/effects.py'],
    'state': ['_Filter.state', '_Filter.currentCoeffs'],
    'mechanism': [
        {'name': 'FilterCoefficients, _Filter, Observer, Filter',
         'where': 'klang/audio/effects.py'}],
    'observe': ['block output'],
    'oracle': 'a direct form II transposed filter with textbook Butterworth '
              'coefficients',
}
RULE = ('Cases are a filter design and a history of buffers and frequency '
        'changes. Non-trivial: non-silent input over at least two buffers with '
        'at least one frequency change after the first buffer.')
ASSUMPTIONS = ['frequencies within 1e-9 of a tabulated one are not judged',
               'scipy.signal.butter of CPython-compatible scipy is trusted '
               'for orders above two']

DESIGNS = [('lowpass', 1), ('lowpass', 2), ('highpass', 1), ('highpass', 2),
           ('lowpass', 4), ('highpass', 3)]


def strat():
    from hypothesis import strategies as st
    from vlib.gens import ops as oplist, signals, weighted
    freq = st.one_of(
        st.sampled_from([440., 1., 0., 30000., 1000, 19990., 20001]),
        st.floats(20.1, 19999.), st.floats(20.1, 1999.))
    op = weighted(
        (3, st.tuples(st.just('mono'), signals(256), signals(256))),
        (2, st.tuples(st.just('stereo'), signals(256), signals(256))),
        (2, st.tuples(st.just('freq'), freq, st.just(0))),
        (1, st.tuples(st.just('step'), st.floats(-.02, .02), st.just(0))),
        (1, st.tuples(st.just('cross'), st.integers(0, 999),
                      st.sampled_from([1e-7, 1e-5, 1e-3]))),
        (1, st.tuples(st.just('other'), st.just(0), st.just(0)))).map(list)
    return st.fixed_dictionaries({
        'design': st.integers(0, len(DESIGNS) - 1), 'freq': freq,
        'ops': oplist(op, 14, lo=3)})


CACHE = {}


def blank(i):
    """Copy of pristine filter block (designing takes long)."""
    import copy
    from klang.audio.effects import Filter
    if i not in CACHE:
        btype, order = DESIGNS[i]
        CACHE[i] = Filter(N=order, btype=btype)
    # The (large, never written) tables are shared where they are found
    memo = {id(fil.coefficients): fil.coefficients
            for fil in getattr(CACHE[i], 'filters', ())
            if hasattr(fil, 'coefficients')}
    return copy.deepcopy(CACHE[i], memo)


def coefficients(np, btype, order, freq):
    import math
    grid = [2. ** (math.log2(20.) + j * (math.log2(20000.) - math.log2(20.))
                   / 999.) for j in range(1000)]
    if any(abs(g - freq) < 1e-9 * freq for g in grid):
        return None
    above = [g for g in grid if g >= freq * (1. - 1e-12)]
    f = above[0] if above else grid[-1]
    if order <= 2:
        # Bilinear transform with prewarping
        k = math.tan(math.pi * f / 44100.)
        if order == 1:
            a = [1., (k - 1.) / (k + 1.)]
            b = ([k / (k + 1.)] * 2 if btype == 'lowpass'
                 else [1. / (k + 1.), -1. / (k + 1.)])
        else:
            q = math.sqrt(2.)
            norm = 1. / (1. + q * k + k * k)
            a = [1., 2. * (k * k - 1.) * norm, (1. - q * k + k * k) * norm]
            b = ([k * k * norm, 2 * k * k * norm, k * k * norm]
                 if btype == 'lowpass' else [norm, -2. * norm, norm])
        return b, a
    import scipy.signal
    b, a = scipy.signal.butter(order, f / 22050., btype)
    return list(b), list(a)


def df2t(x, b, a, z):
    y = []
    n = len(a) - 1
    for val in x:
        out = b[0] * val + z[0]
        for i in range(n - 1):
            z[i] = b[i + 1] * val + z[i + 1] - a[i + 1] * out
        z[n - 1] = b[n] * val - a[n] * out
        y.append(out)
    return y


def check(case, ctx):
    import numpy as np
    from vlib.orc import close, dress, signal
    btype, order = DESIGNS[case['design']]
    fx = blank(case['design'])
    freq = case['freq']
    fx.frequency.set_value(freq)
    other = None
    z = [[0.] * order for _ in range(2)]
    loud = buffers = 0
    changed = False
    for op, a, b in case['ops']:
        if op == 'step':
            # Small relative change (the table has steps of 0.7 %)
            op, a = 'freq', freq * (1. + a)
        if op == 'cross':
            # From one side of a tabulated frequency to the other
            base = 20. * 1000. ** (a / 999.)
            if abs(freq - base) > 2e-3 * base:
                edge = min(range(1000), key=lambda j: abs(
                    20. * 1000. ** (j / 999.) - freq)) if a % 2 else a
                base = 20. * 1000. ** (edge / 999.)
            op, a = 'freq', base * (1. - b if freq > base else 1. + b)
        if op == 'freq':
            changed = changed or (buffers > 0 and a != freq)
            freq = a
            fx.frequency.set_value(a)
            continue
        if op == 'other':
            other = other or blank(case['design'])
            other.input.set_value(np.ones(256))
            other.update()
            continue
        x, y = signal(a), signal(b)
        block = x if op == 'mono' else np.array([x, y])
        block = dress(block, buffers)
        keep = block.copy()
        fx.input.set_value(block)
        fx.update()
        buffers += 1
        loud += bool(np.any(block))
        coeffs = coefficients(np, btype, order, freq)
        if coeffs is None:
            ctx.label('frequency on the grid')
            return
        cb, ca = coeffs
        exp = df2t(x, cb, ca, z[0])
        if op == 'stereo':
            exp = [exp, df2t(y, cb, ca, z[1])]
        scale = 1. if order <= 2 else 1e2
        close(fx.output.value, exp, '%s order %d at %r Hz, buffer %d' % (
            btype, order, freq, buffers), tol=scale * 1e-7, rtol=1e-6)
        require(np.array_equal(block, keep), 'input was altered')
    for fil in getattr(fx, 'filters', ()):
        str(fil)
    if loud and buffers > 1 and changed:
        ctx.hit(btype)
    if other:
        ctx.label('second filter')


def strat_designs():
    from hypothesis import strategies as st
    from vlib.gens import signals, weighted
    own = st.tuples(st.sampled_from(['tilt', 'shelf']), st.integers(1, 3),
                    st.sampled_from(['lowpass', 'highpass']),
                    st.sampled_from([None, 0., .5, 1., 3.])).map(list)
    sci = st.tuples(st.sampled_from(['cheby1', 'cheby2']), st.integers(1, 3),
                    st.sampled_from(['lowpass', 'highpass']),
                    st.sampled_from([1., 6., 20.])).map(list)
    return st.fixed_dictionaries({
        'designs': weighted(
            (20, st.lists(own, min_size=2, max_size=4)),
            (1, st.lists(sci, min_size=2, max_size=2))),
        'freqs': st.lists(st.floats(20.1, 19999.), min_size=4, max_size=4),
        'sigs': st.lists(signals(256), min_size=2, max_size=3)})


def check_designs(case, ctx):
    """Filters of various designs next to each other."""
    import math
    import numpy as np
    import scipy.signal
    from klang.audio.effects import Filter
    from vlib.orc import close, signal

    def tilt(N, Wn, btype, amount=2.):
        k = math.tan(math.pi * Wn / 2.)
        pole = (k - 1.) / (k + 1.)
        b = [amount, 0.] if btype == 'lowpass' else [amount, -1.]
        return np.array(b + N * [.1]), np.array([1., pole] + N * [0.])

    def shelf(N, Wn, btype, amount=2.):
        b, a = tilt(N, Wn, btype, amount)
        return b[::-1], a

    funcs = {'tilt': tilt, 'shelf': shelf, 'cheby1': scipy.signal.cheby1,
             'cheby2': scipy.signal.cheby2}
    grid = [2. ** (math.log2(20.) + j * (math.log2(20000.) - math.log2(20.))
                   / 999.) for j in range(1000)]
    blocks, coeffs, states = [], [], []
    for (name, order, btype, amount), freq in zip(case['designs'],
                                                  case['freqs']):
        if any(abs(g - freq) < 1e-9 * freq for g in grid):
            return
        key = {'cheby1': 'rp', 'cheby2': 'rs'}.get(name, 'amount')
        kwargs = {} if amount is None else {key: amount}
        blocks.append(Filter(frequency=freq, design_func=funcs[name], N=order,
                             btype=btype, **kwargs))
        b, a = funcs[name](N=order, Wn=[g for g in grid if g >= freq][0]
                           / 22050., btype=btype, **kwargs)
        coeffs.append((list(b), list(a)))
        states.append([0.] * (len(a) - 1))
    for k, desc in enumerate(case['sigs']):
        for fx, (b, a), z, design in zip(blocks, coeffs, states,
                                         case['designs']):
            x = signal(desc)
            fx.input.set_value(x)
            fx.update()
            close(fx.output.value, df2t(x, b, a, z), 'buffer %d of %s among '
                  '%s' % (k, design, case['designs']), tol=1e-6, rtol=1e-6)
    if len(set(map(str, case['designs']))) > 1:
        ctx.hit('designs')


TESTS = [
    Test('filter', strat, check, quick=350, thorough=20000),
    Test('designs', strat_designs, check_designs, quick=60, thorough=3000),
]
