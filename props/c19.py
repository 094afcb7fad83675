"""Reverb and modulation effects."""
from vlib.common import Test, require
from vlib.pairs import RULE as PAIRS, together

META = {
    'title': 'Reverb, tremolo, ring modulator: echoes and envelopes as specified',
    'statement': (
        'Reverb blends the input with the mean of echo or comb taps at the '
        'next distinct prime delays not below its pre-delay, with gains '
        'exp(-pi t / decay), so nothing but the dry part is heard before the '
        'pre-delay and a finite decay dies out. Tremolo multiplies the input '
        'with a smoothed pulse envelope which stays within [1 - depth, 1] and '
        'runs at its rate and duty cycle without gaps at buffer borders; the '
        'ring modulator multiplies with a sine of continuous phase at the '
        'frequency its LFO and inputs define; the pitch shifter plays the '
        'windowed input faster or slower by its ratio, gapless. The dry end of '
        'every blend is the input unchanged.'),
    'over': ['inputs', 'histories', 'configurations'],
    'quant': 'All parameters, parameter changes between buffers and signals.',
    'why': 'No test covers any effect block.',
    'files': ['klang/audio/effects.py', 'klang/primes.py',
              'klang/audio/filters.py', 'klang/audio/oscillators.py'],
    'state': ['Reverb.filters', 'Tremolo.zi', 'RingModulator.modulator'],
    'mechanism': [
        {'name': 'Reverb.update, compute_alpha, find_next_primes',
         'where': 'klang/audio/effects.py'},
        {'name': 'Tremolo.update, low_pass_coefficients, '
                 'RingModulator.update, PitchShifter.update',
         'where': 'klang/audio/effects.py'}],
    'observe': ['block output'],
}
RULE = ('Cases are an effect, its parameters and a history of buffers and '
        'parameter changes. Non-trivial: non-silent input over at least three '
        'buffers and an effect which is not fully dry.')
ASSUMPTIONS = ['histories in which a pulse edge falls within 1e-9 of a sample '
               'are not judged']


def strat_reverb():
    from hypothesis import strategies as st
    from vlib.gens import signals, unit
    return st.fixed_dictionaries({
        'decay': st.one_of(st.sampled_from([0., -1., 1.5, .01, .0003,
                                            .0009]),
                           st.floats(.01, 5.), st.floats(.01, 5.),
                           st.floats(1e-4, .01),
                           st.floats(5., 2000.)),
        'pre': st.one_of(st.sampled_from([0., .03, .001, 11 / 44100.,
                                          13 / 44100.]), st.floats(0., .03)),
        'wet': st.one_of(unit(), st.sampled_from([-1., 2.])),
        'n': st.one_of(st.integers(1, 12), st.integers(1, 12),
                       st.integers(1, 12), st.integers(12, 48)),
        'type': st.sampled_from(['BackwardCombFilter', 'BackwardCombFilter',
                                 'EchoFilter', 'ForwardCombFilter', None]),
        'sigs': st.lists(signals(256), min_size=2, max_size=8)})


def is_prime(n):
    if n < 2:
        return False
    d = 2
    while d * d <= n:
        if n % d == 0:
            return False
        d += 1
    return True


def check_reverb(case, ctx):
    import math
    import numpy as np
    from klang.audio import effects, filters
    from props.c10 import model
    from vlib.orc import close, dress, signal
    name = case['type']
    kwargs = {'decay': case['decay'], 'preDelay': case['pre'],
              'dryWet': case['wet'], 'nEchos': case['n']}
    if name:
        kwargs['echoType'] = getattr(filters, name)
    fx = effects.Reverb(**kwargs)
    typ = {'EchoFilter': 'echo', 'ForwardCombFilter': 'forward'}.get(
        name, 'backward')
    taps, k = [], int(case['pre'] * 44100)
    while len(taps) < case['n']:
        if is_prime(k):
            taps.append(k)
        k += 1
    wet = min(1., max(0., case['wet']))
    states = [[0.] * k for k in taps]
    loud = False
    for i, desc in enumerate(case['sigs']):
        x = dress(signal(desc), i)
        keep = x.copy()
        loud = loud or bool(np.any(x))
        fx.input.set_value(x)
        fx.update()
        y = 0.
        for k, state in zip(taps, states):
            a = math.exp(-math.pi * k / 44100. / case['decay']) \
                if case['decay'] > 0 else 0.
            y = y + model(np, typ, k, state, keep, a)
        exp = (1. - wet) * keep + wet * y / len(taps)
        close(fx.output.value, exp, 'reverb, taps %s, buffer %d' % (taps, i))
        require(np.array_equal(x, keep), 'input was altered')
    if loud and wet > 0 and len(case['sigs']) > 2:
        ctx.hit(typ)


def strat_mod():
    from hypothesis import strategies as st
    from vlib.gens import ops as oplist, signals, unit, weighted
    amt = st.one_of(unit(), st.floats(0., .02))
    op = weighted(
        (5, st.tuples(st.just('mono'), signals(256))),
        (1, st.tuples(st.just('stereo'), signals(256))),
        (1, st.tuples(st.just('p0'), st.floats(.5, 900.))),
        (1, st.tuples(st.just('p1'), amt)),
        (1, st.tuples(st.just('p2'), amt)),
        (1, st.tuples(st.just('p3'), unit()))).map(list)
    return st.fixed_dictionaries({
        'fx': st.sampled_from(['tremolo', 'ring']),
        'wave': st.sampled_from(['square', 'sine']),
        'p': st.tuples(st.one_of(st.floats(.5, 900.), st.floats(.5, 50.),
                                 st.just('note')),
                       amt, amt, unit()).map(list),
        'ops': oplist(op, 15, lo=3)})


def check_mod(case, ctx):
    import math
    from fractions import Fraction
    import numpy as np
    from klang.audio import effects
    from vlib.orc import close, dress, signal
    tau = 2 * math.pi
    p = list(case['p'])
    trem = case['fx'] == 'tremolo'
    sine = case['wave'] == 'sine'
    arg0 = p[0]
    if p[0] == 'note':
        arg0, p[0] = Fraction(1, 16), 8.
    if trem:
        # rate, depth, smoothness, duty cycle
        fx = effects.Tremolo(arg0, p[1], p[2], p[3])
        ins = [fx.rate, fx.depth, fx.smoothness, fx.dutyCycle]
    else:
        # rate of the LFO, base frequency, amount, dry / wet
        if sine:
            fx = effects.RingModulator(p[1] * 1000., arg0, p[2] * 100.,
                                       np.sin, p[3])
        else:
            fx = effects.RingModulator(p[1] * 1000., arg0, p[2] * 100.,
                                       dryWet=p[3])
        ins = [fx.rate, fx.frequency, fx.amount, fx.dryWet]
        p[1], p[2] = p[1] * 1000., p[2] * 100.
    phase = mphase = z = 0.
    nbuf, loud, wet = 0, False, False
    for op, arg in case['ops']:
        if op[0] == 'p':
            i = int(op[1])
            if not trem and i in (1, 2):
                arg = arg * (1000. if i == 1 else 100.)
            p[i] = arg
            ins[i].set_value(arg)
            continue
        x = signal(arg)
        block = np.array([x, x[::-1]]) if op == 'stereo' else x
        block = dress(block, nbuf)
        keep = block.copy()
        fx.input.set_value(block)
        fx.update()
        nbuf += 1
        loud = loud or bool(np.any(x))
        ph = np.mod(phase + tau * p[0] / 44100. * np.arange(257), tau)
        phase = float(ph[-1])
        ph = ph[:-1]
        out = np.array(fx.output.value)
        if trem:
            duty, depth, smooth = p[3], p[1], p[2]
            near = np.minimum(np.minimum(ph, tau - ph),
                              np.abs(ph - tau * duty))
            exact0 = nbuf == 1 and ph[0] == 0.
            if np.any(near[1 if exact0 else 0:] < 1e-9) or (
                    exact0 and 0 < duty < 1e-9):
                ctx.label('edge on a sample')
                return
            pwm = np.where(ph < tau * duty, 1., -1.)
            decay = max(1e-6, smooth * min(duty, 1. - duty))
            a = math.exp(-tau / decay / 44100.)
            env = np.empty(256)
            for n in range(256):
                z = (1. - a) * pwm[n] + a * z
                env[n] = z
            env = 1. - depth + depth * (.5 + .5 * env)
            close(out, env * keep, 'tremolo rate %r depth %r smoothness %r '
                  'duty %r, buffer %d' % (p[0], depth, smooth, duty, nbuf),
                  tol=1e-7)
            require(np.all(np.abs(out) <= np.abs(keep) + 1e-9)
                    and np.all(np.abs(out) >= (1. - depth) * np.abs(keep)
                               - 1e-9), 'envelope leaves [1 - depth, 1]')
            wet = wet or depth > 0
        else:
            near = np.minimum(np.minimum(ph, tau - ph), np.abs(ph - math.pi))
            if sine:
                lfo = np.sin(ph)
            elif np.any(near[1 if nbuf == 1 else 0:] < 1e-9):
                ctx.label('edge on a sample')
                return
            else:
                lfo = np.where(ph < math.pi, 1., -1.)
            freqs = p[1] + p[2] * lfo
            acc = mphase + tau / 44100. * np.concatenate(
                [[0.], np.cumsum(freqs)])
            mphase = float(np.mod(acc[-1], tau))
            am = np.sin(acc[:-1])
            exp = (1. - p[3]) * keep + p[3] * am * keep
            close(out, exp, 'ring modulator, buffer %d' % nbuf, tol=1e-7)
            wet = wet or p[3] > 0
        require(np.array_equal(block, keep), 'input was altered')
    if nbuf >= 3 and loud and wet:
        ctx.hit(case['fx'])


def strat_shift():
    from hypothesis import strategies as st
    from vlib.gens import signals, unit
    return st.fixed_dictionaries({
        'shift': st.one_of(st.sampled_from([.5, 1., 2.]),
                           st.floats(.3, 3.)), 'wet': unit(),
        'smooth': st.sampled_from([0, 3, 12]),
        'sigs': st.lists(signals(256), min_size=2, max_size=6)})


def check_shift(case, ctx):
    """Two shifters with different blends: output is linear in the blend."""
    import numpy as np
    from klang.audio.effects import PitchShifter
    from vlib.orc import close, signal
    w = case['wet']
    fxs = [PitchShifter(case['shift'], dryWet=v) for v in (0., 1., w)]
    # Linear interpolation can be calculated exactly: the windowed input, read
    # at shifted positions
    shift, window = case['shift'], np.hanning(256)
    lin = PitchShifter(shift, 1., 'linear')
    stream, pos = np.zeros(1), np.arange(256) * shift
    smooth = PitchShifter(shift, 1.)
    for i in range(case.get('smooth', 0)):
        smooth.input.set_value(np.full(256, 1.))
        smooth.update()
        where = (i * 256 + np.arange(256)) * shift % 256
        if i >= 2:
            close(smooth.output.value, np.interp(
                where, np.arange(257), np.append(window, 0.)),
                'pulses shifted by %r' % shift, tol=1e-3)
    loud = False
    for desc in case['sigs']:
        x = signal(desc)
        lin.input.set_value(x.copy())
        lin.update()
        while len(stream) <= int(pos[-1]) + 1:
            stream = np.append(stream, x * window)
        close(lin.output.value, np.interp(pos, np.arange(len(stream)), stream),
              'input shifted by %r' % shift, tol=1e-5)
        pos += 256 * shift
        outs = []
        for fx in fxs:
            fx.input.set_value(x.copy())
            fx.update()
            outs.append(np.array(fx.output.value, dtype=float))
            require(outs[-1].shape == (256,), 'output of shape %s',
                    outs[-1].shape)
        require(np.isfinite(outs[1]).all(), 'output not finite')
        require(np.abs(outs[1]).max() <= 2., 'output of %r',
                float(np.abs(outs[1]).max()))
        close(outs[0], x, 'dry output')
        close(outs[2], (1 - w) * x + w * outs[1], 'blend', tol=1e-6)
        loud = loud or np.any(np.abs(outs[1]) > .01)
    if loud:
        ctx.hit('pitch shifter')


TESTS = [
    Test('reverb', strat_reverb, check_reverb, quick=300, thorough=12000),
    Test('modulation', strat_mod, check_mod, quick=900, thorough=40000),
    Test('shifter', strat_shift, check_shift, quick=150, thorough=5000),
]
TESTS.append(together('C19'))
RULE += PAIRS
