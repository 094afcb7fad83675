"""Memoryless effects."""
from vlib.common import Test, require
from vlib.pairs import RULE as PAIRS, together

META = {
    'title': 'Memoryless effects apply their formula to every sample and channel',
    'statement': (
        'Gain, Transformer, OctaveDistortion, TanhDistortion, Subsampler and '
        'Bitcrusher map each buffer, mono or stereo, to the documented '
        'function of it and nothing else: the same buffer gives the same '
        'output whatever came before, and the input buffer as well as earlier '
        'outputs are left alone. '
        'Bitcrushed samples lie on the reduced grid within one step of the '
        'input, sub-sampling holds every k-th sample, and Transformers built '
        'from limits map the input range onto exactly those limits.'),
    'over': ['inputs', 'histories', 'configurations'],
    'quant': ('All parameters and all signals (in [-1, 1] for the bit '
              'crusher).'),
    'why': 'No test covers any effect block.',
    'files': ['klang/audio/effects.py', 'klang/audio/wavfile.py',
              'klang/math.py'],
    'mechanism': [
        {'name': 'Gain, Transformer, OctaveDistortion, TanhDistortion, '
                 'Subsampler, Bitcrusher',
         'where': 'klang/audio/effects.py'}],
    'observe': ['block output'],
    'oracle': 'the documented formula per sample',
}
RULE = ('Cases are an effect with parameters and a list of buffers (repeats '
        'included). Non-trivial: at least two different non-silent buffers.')


def strat():
    from hypothesis import strategies as st
    from vlib.gens import bipolar, signals
    num = st.one_of(bipolar(), st.floats(-20., 20.))
    return st.fixed_dictionaries({
        'fx': st.sampled_from(['gain', 'gainarr', 'transform', 'limits',
                               'limits2', 'ranges', 'octave', 'tanh',
                               'subsample', 'bitcrush', 'bitcrush']),
        'p': st.tuples(num, num, num, num).map(list),
        'scale': st.sampled_from([1., 1., 3.5, 400.]),
        'i': st.integers(0, 15), 'stereo': st.booleans(),
        'dtype': st.sampled_from([None, None, None, 'int', 'bool']),
        'sigs': st.lists(signals(256), min_size=2, max_size=6),
        'order': st.lists(st.integers(0, 5), min_size=2, max_size=6)})


def check(case, ctx):
    import math
    import numpy as np
    from klang.audio import effects
    from vlib.orc import close, dress, signal
    kind, p = case['fx'], case['p']
    gains = None
    if kind == 'gain':
        fx = effects.Gain(p[0])
        func = lambda x: p[0] * x
    elif kind == 'gainarr':
        gains = signal(case['sigs'][0])
        fx = effects.Gain()
        fx.gain.set_value(gains)
        func = lambda x: gains * x
    elif kind == 'transform':
        fx = effects.Transformer(p[0], p[1])
        func = lambda x: p[0] * x + p[1]
    elif kind in ('limits', 'limits2'):
        lo, hi = sorted(p[:2])
        if hi - lo < 1e-6:
            hi = lo + 1.
        if kind == 'limits':
            fx = effects.Transformer.from_limits(lo, hi)
            func = lambda x: lo + x * (hi - lo)
        else:
            fx = effects.Transformer.from_limits_2(lo, hi)
            func = lambda x: lo + (x + 1.) / 2. * (hi - lo)
    elif kind == 'ranges':
        x0, x1 = p[0], p[1]
        if abs(x1 - x0) < .01:
            x1 = x0 + 1.
        fx = effects.Transformer.from_ranges((x0, x1), (p[2], p[3]))
        func = lambda x: p[2] + (x - x0) / (x1 - x0) * (p[3] - p[2])
    elif kind == 'octave':
        fx = effects.OctaveDistortion()
        # cos(2 t) = 2 cos(t)^2 - 1, cosh(2 t) = 2 cosh(t)^2 - 1
        func = lambda x: np.where(
            np.abs(x) <= 1., np.cos(2. * np.arccos(np.clip(x, -1., 1.))),
            np.cosh(2. * np.arccosh(np.maximum(1., np.abs(x)))))
    elif kind == 'tanh':
        fx = effects.TanhDistortion(p[0])
        func = lambda x: 1. - 2. / (
            np.exp(np.minimum(700., 2. * p[0] * x)) + 1.)
    elif kind == 'subsample':
        k = skip = 2 ** (1 + case['i'] % 7)
        fx = effects.Subsampler(k)
        func = lambda x: x[(np.arange(256) // skip) * skip]
    else:
        bits = case['i']
        fx = effects.Bitcrusher(bits)
        func = None
    # Only the bit crusher depends on full scale
    scale = case.get('scale', 1.) if func else 1.
    bufs = [scale * signal(d) for d in case['sigs']]
    dtype = case.get('dtype')
    if func and dtype:
        # Clock ticks and gates
        bufs = [np.round(2. * b).astype(int) if dtype == 'int' else b > .3
                for b in bufs]
        if dtype == 'bool' and kind == 'tanh' or kind == 'octave':
            bufs = [b.astype(int) for b in bufs]
    seen = {}
    loud = set()
    earlier = []
    for k, i in enumerate(case['order']):
        i %= len(bufs)
        x = bufs[i].copy()
        block = np.array([x, x[::-1]]) if case['stereo'] else x
        block = dress(block, k)
        keep = block.copy()
        fx.input.set_value(block)
        fx.update()
        out = np.array(fx.output.value)
        require(out.shape == block.shape, '%s output of shape %s', kind,
                out.shape)
        require(np.array_equal(keep, block), '%s altered its input', kind)
        if func:
            exp = func(x)
            if case['stereo']:
                exp = np.array([exp, func(x[::-1])])
            tol = 1e-6 if kind == 'ranges' else 1e-9
            close(out, exp, kind, tol=tol * scale * (1 + max(map(abs, p))))
        else:
            crush(np, block, out, bits)
        if i in seen:
            require(np.array_equal(seen[i], out), '%s has a memory', kind)
        seen[i] = out
        earlier.append((fx.output.value, out))
        for value, copy in earlier:
            require(np.array_equal(value, copy), '%s altered an earlier '
                    'output', kind)
        if np.any(x):
            loud.add(i)
    if len(loud) > 1:
        ctx.hit(kind)
        if case['stereo']:
            ctx.label('stereo')
        if func and dtype:
            ctx.label('%s signals' % dtype)


def crush(np, x, out, bits):
    """16 bit samples with the lowest bits dropped."""
    step = 2. ** bits / 32768.
    units = out / step
    require(np.all(np.abs(units - np.round(units)) < 1e-6),
            'values off the %d bit grid: %s', 16 - bits, out[..., :3])
    # Rounding to 16 bit (full scale 32767 or 32768) plus one step
    require(np.all(np.abs(out - x) <= step + 2.1 / 32768.),
            'off by %r, step is %r', float(np.abs(out - x).max()), step)
    order = np.argsort(x, axis=-1, kind='stable')
    mono = np.take_along_axis(out, order, axis=-1)
    require(np.all(np.diff(mono, axis=-1) >= 0), 'not monotone')
    if bits:
        require(np.all(out <= x + 2.1 / 32768.), 'not rounded down')


TESTS = [Test('memoryless', strat, check, quick=1200, thorough=60000)]
TESTS.append(together('C18'))
RULE += PAIRS
