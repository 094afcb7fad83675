"""Delay, stereo delay, channel splitter and combiner."""
from vlib.common import Test, require
from vlib.pairs import RULE as PAIRS, together

META = {
    'title': 'Delays return the signal after exactly their time, channels kept apart',
    'statement': (
        'Delay outputs (1 - w) x[n] + w d[n] with d[n] = x[n-k] + f d[n-k], '
        'where k is the delay time in samples (seconds or a note value at '
        'global tempo), for any number of buffers, and averages a multi '
        'channel input. Times beyond the maximum are refused when the block '
        'is built. StereoDelay does this per channel with its own times and '
        'feedbacks, and splitter and combiner route channel i to and from '
        'channel i, broadcasting mono.'),
    'over': ['inputs', 'histories', 'configurations'],
    'quant': ('All delay times of at least one buffer up to the maximum, '
              'feedbacks, blends and signals.'),
    'why': 'No test covers any effect block.',
    'files': ['klang/audio/effects.py', 'klang/ring_buffer.py'],
    'state': ['Delay.ring'],
    'mechanism': [
        {'name': 'Delay.update, Delay.__init__, StereoDelay, AudioSplitter, '
                 'AudioCombiner', 'where': 'klang/audio/effects.py'}],
    'observe': ['block output'],
    'oracle': 'the difference equation',
}
RULE = ('Cases are delay parameters and per buffer signals. Non-trivial: the '
        'input is not silent and at least one delayed sample comes out within '
        'the case.')
ASSUMPTIONS = ['delay time at least one buffer (256 samples), as documented '
               'for ring buffer based effects']


def times():
    """(kind, samples or fraction)"""
    from hypothesis import strategies as st
    k = st.one_of(st.sampled_from([256, 257, 511, 512, 513, 768, 1000]),
                  st.integers(256, 900), st.integers(256, 4000))
    return st.one_of(
        st.tuples(st.just('samples'), k),
        st.tuples(st.just('exact'), k),
        st.tuples(st.just('note'), st.sampled_from(
            [[1, 128], [1, 256], [3, 512], [1, 96]]))).map(list)


def strat():
    from hypothesis import strategies as st
    from vlib.gens import bipolar, signals, unit
    feedback = st.one_of(bipolar(), bipolar(), st.floats(-1.5, 1.5))
    sig = st.tuples(st.sampled_from(['mono', 'mono', 'mono', 'stereo',
                                     'stereo', 'silence', 'row', 'surround']),
                    signals(256), signals(256)).map(list)
    return st.fixed_dictionaries({
        'stereo': st.booleans(), 'times': st.tuples(times(),
                                                    times()).map(list),
        'fb': st.tuples(feedback, feedback).map(list), 'wet': unit(),
        'sigs': st.one_of(st.lists(sig, min_size=4, max_size=9),
                          st.lists(sig, min_size=8, max_size=20))})


def model(np, x, k, fb, wet):
    d = np.zeros(len(x) + k)
    # d[n] = x[n-k] + fb d[n-k]
    for n in range(0, len(x), k):
        m = min(k, len(x) - n)
        d[n + k:n + k + m] = x[n:n + m] + fb * d[n:n + m]
    d = d[:len(x)]
    return (1. - wet) * x + wet * d


def check(case, ctx):
    from fractions import Fraction
    import numpy as np
    from klang.audio.effects import Delay, StereoDelay
    from vlib.orc import close, dress, signal

    def time(t):
        kind, val = t
        if kind == 'note':
            note = Fraction(*val)
            # 120 BPM, quarter beats -> a whole note lasts 2 s
            return note, int(float(note) * 2. * 44100)
        sec = (val + .5) / 44100.
        if kind == 'exact' and val / 44100. * 44100 == val:
            # A whole number of samples, also in floating point
            sec = val / 44100.
        return sec, val

    (t0, k0), (t1, k1) = [time(t) for t in case['times']]
    f0, f1 = case['fb']
    wet = case['wet']
    if case['stereo']:
        fx = StereoDelay(t0, t1, f0, f1, wet)
    else:
        fx = Delay(t0, f0, wet)
    left, right, outs = [], [], []
    for kind, a, b in case['sigs']:
        x, y = signal(a), signal(b)
        if kind == 'silence':
            x, y = np.zeros(256), np.zeros(256)
        if kind in ('row', 'surround') and not case['stereo']:
            # Any number of channels
            block = (np.array([x]) if kind == 'row' else
                     np.array([x, y, -.5 * x, y]))
            x = y = block.mean(axis=0)
        elif kind == 'stereo':
            block = np.array([x, y])
            if not case['stereo']:
                x = y = (x + y) / 2.
        else:
            block, y = x.copy(), x
        block = dress(block, len(outs))
        keep = block.copy()
        fx.input.set_value(block)
        fx.update()
        require(np.array_equal(block, keep), 'input was altered')
        left.append(x)
        right.append(y)
        outs.append(np.array(fx.output.value))
    x, y = np.concatenate(left), np.concatenate(right)
    if case['stereo']:
        exp = np.array([model(np, x, k0, f0, wet), model(np, y, k1, f1, wet)])
        got = np.concatenate(outs, axis=1)
    else:
        exp = model(np, x, k0, f0, wet)
        got = np.concatenate(outs)
    close(got, exp, '%s, k=%d, feedback=%r, wet=%r' % (
        type(fx).__name__, k0, f0, wet))
    if np.any(x) and k0 < len(x) - 256 and wet > 0:
        ctx.hit('stereo' if case['stereo'] else 'mono')
        if k0 * 2 < len(x) and f0:
            ctx.label('feedback')


def strat_limit():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'note': st.booleans(), 'num': st.integers(1, 40),
        'den': st.sampled_from([1, 2, 3, 4, 7, 8]),
        'sec': st.one_of(st.floats(.01, 2.), st.floats(1.9, 2.1),
                         st.floats(2.0001, 50.), st.just(2.)),
        'which': st.integers(0, 2)})


def check_limit(case, ctx):
    from fractions import Fraction
    import numpy as np
    from klang.audio.effects import Delay, StereoDelay
    if case['note']:
        t = Fraction(case['num'], case['den'])
        seconds = float(t) * 2.
    else:
        t = seconds = case['sec']
    try:
        fx = {0: lambda: Delay(t), 1: lambda: StereoDelay(t, 1.),
              2: lambda: StereoDelay(1., t)}[case['which']]()
    except ValueError:
        require(seconds > 2., 'delay time %s refused', t)
        ctx.hit('refused')
        return
    require(seconds <= 2., 'delay time %s accepted', t)
    # An impulse comes back after exactly that many samples
    exact = seconds * 44100
    delay = int(exact)
    if delay >= 256:
        at = case['num'] * 6
        pulse = np.zeros(256)
        pulse[at] = 1.
        heard = []
        for k in range((at + delay + 2) // 256 + 1):
            fx.input.set_value(pulse if k == 0 else np.zeros(256))
            fx.update()
            out = np.atleast_2d(fx.output.value)
            out = out[1 if case['which'] == 2 else 0]
            heard += (256 * k + np.nonzero(out)[0]).tolist()
        heard = [i - at for i in heard if i != at]
        require(heard and heard[0] in ([delay] if exact == delay else
                                       [delay, delay + 1]),
                'echo of %s (%d samples) after %s samples', t, delay,
                heard[:3])
        ctx.label('echo time')
    else:
        fx.input.set_value(np.ones(256))
        fx.update()
        fx.update()
    ctx.hit('accepted')


def strat_route():
    from hypothesis import strategies as st
    from vlib.gens import signals
    return st.fixed_dictionaries({
        'n': st.integers(1, 5), 'ch': st.integers(0, 5),
        'surplus': st.sampled_from([0, 0, 1, 3]),
        'scale': st.sampled_from([1., 1., 1e-13, 1e6]),
        'quiet': st.integers(0, 3),
        'rounds': st.lists(st.lists(signals(256), min_size=5, max_size=5),
                           min_size=1, max_size=3)})


def check_route(case, ctx):
    import numpy as np
    from klang.audio.effects import AudioCombiner, AudioSplitter
    from vlib.orc import close, dress, signal
    n, ch = case['n'], min(case['ch'], case['n'])
    split, comb = AudioSplitter(n), AudioCombiner(n)
    other = AudioCombiner(n)
    for out, inp in zip(split.outputs, comb.inputs):
        out.connect(inp)
    for nr, round_ in enumerate(case['rounds']):
        x = np.array([signal(d) for d in round_]) * case.get('scale', 1.)
        if nr == case.get('quiet'):
            x[:] = 0.
        surplus = x[:n + case.get('surplus', 0)].copy()
        x = x[:n]
        if ch == 0:
            # Mono is broadcast
            split.input.set_value(x[0])
            exp = np.array([x[0]] * n)
        else:
            # Channels without output are left out
            split.input.set_value(surplus)
            exp = x
        split.update()
        for i, out in enumerate(split.outputs):
            require(np.array_equal(out.value, exp[i]), 'splitter output %d '
                    'of %d differs', i, n)
        comb.update()
        close(comb.output.value, exp, 'combined', tol=0.)
        close(other.output.value, np.zeros((n, 256)), 'unused combiner')
    if n > 1:
        ctx.hit('mono' if ch == 0 else 'multi')


TESTS = [
    Test('delay', strat, check, quick=800, thorough=40000),
    Test('limits', strat_limit, check_limit, quick=200, thorough=5000),
    Test('routing', strat_route, check_route, quick=300, thorough=10000),
]
TESTS.append(together('C16'))
RULE += PAIRS
