"""Oscillator phase."""
from vlib.common import Test, require
from vlib.pairs import RULE as PAIRS, together

META = {
    'title': 'Oscillators are phase continuous and run at the frequency they are given',
    'statement': (
        'The phase of every oscillator at any sample is its start phase plus '
        'TAU times the exact sum of the frequencies so far, modulo TAU, over '
        'any number of buffers and whatever the frequency does in between: '
        'constant, changed per buffer, a note value at the global tempo, or '
        'modulated sample by sample from another block. FM and PWM oscillators '
        'and LFOs apply their wave to that phase, chirps follow their phase '
        'law and stay continuous beyond the end, and a copy continues exactly '
        'where the original is.'),
    'over': ['inputs', 'histories', 'configurations'],
    'quant': ('All oscillator classes, wave functions, start phases and '
              'frequency histories.'),
    'why': ('Tests look at a single buffer at a time; discontinuities at '
            'buffer borders and after frequency changes need histories.'),
    'files': ['klang/audio/oscillators.py', 'klang/audio/helpers.py',
              'klang/music/tempo.py'],
    'state': ['Phasor.currentPhase', 'Chirper.t'],
    'mechanism': [
        {'name': 'sample_phase, Phasor.sample, Lfo.sample, '
                 'FmOscillator.sample, PwmOscillator.sample',
         'where': 'klang/audio/oscillators.py'},
        {'name': 'chirp_phase, Chirper', 'where':
         'klang/audio/oscillators.py'}],
    'observe': ['block output'],
    'oracle': 'a phase accumulator over the frequency history',
}
RULE = ('Cases are an oscillator and a history of frequency changes, buffers '
        'and copies. Non-trivial: the frequency changes at least once between '
        'buffers or varies within a buffer, over at least three buffers.')
ASSUMPTIONS = ['phases agree within 1e-6 rad; samples closer than that to a '
               'jump of the wave are not compared']


def freqs(arrays=True):
    from hypothesis import strategies as st
    scalar = st.one_of(
        st.sampled_from([0., 1., 440., -440., 44100. / 256, 44100. / 512, 1e5,
                         22050., 440, 1]),
        st.floats(-3000., 3000.), st.floats(0., 20.))
    opts = [st.tuples(st.just('num'), scalar),
            st.tuples(st.just('frac'), st.tuples(
                st.integers(1, 16), st.integers(1, 64))),
            st.tuples(st.just('steady'), scalar)]
    if arrays:
        opts.append(st.tuples(st.just('ramp'), st.tuples(scalar, scalar)))
        opts.append(st.tuples(st.just('noise'), st.integers(0, 10**6)))
        opts.append(st.tuples(st.just('vibrato'), st.tuples(
            scalar, st.sampled_from([1e-5, 1e-4, 1e-3, 1e-2]))))
        opts.append(st.tuples(st.just('block'), st.integers(0, 10**6)))
    return st.one_of(*opts).map(lambda t: [t[0], t[1]])


CLASSES = ['Phasor', 'Oscillator', 'Oscillator', 'LfoScalar', 'LfoVector',
           'Fm', 'Pwm']


def strat():
    from hypothesis import strategies as st
    from vlib.gens import ops as oplist, weighted

    def build(cls):
        arrays = cls not in ('Phasor', 'LfoScalar')
        fr = freqs(arrays)
        op = weighted(
            (4, st.tuples(st.just('update'), st.integers(1, 3))),
            (3, st.tuples(st.just('freq'), fr)),
            (1, st.tuples(st.just('copy'), st.just(0))),
            (1, st.tuples(st.just('param'), st.one_of(
                st.floats(0., 1.), st.sampled_from([0., 0., 1., .5]))))
            ).map(list)
        if cls == 'Fm':
            op = st.one_of(op, op, op, op, st.tuples(
                st.sampled_from(['modfreq', 'modblock', 'modvib']),
                st.floats(0., 50.)).map(list))
        first = st.one_of(fr.filter(lambda f: f[0] in ('num', 'frac')))
        return st.fixed_dictionaries({
            'cls': st.just(cls), 'freq': first,
            'phase': st.one_of(st.just(0.), st.floats(0., 6.283)),
            'wave': st.sampled_from(['identity', 'identity', 'sine', 'square',
                                     'sawtooth', 'triangle']),
            'par': st.tuples(st.floats(-3., 3.), st.floats(0., 50.)).map(list),
            'range': st.sampled_from([[-1., 1.], [0, 1], [2., -3.],
                                      [100., 200.]]),
            'ops': oplist(op, 14, lo=3)})

    return st.sampled_from(range(len(CLASSES))).flatmap(
        lambda i: build(CLASSES[i]))


def wave(np, name, ph):
    """Reference waves and distance of phase to the next jump."""
    tau = 2 * np.pi
    ph = np.mod(ph, tau)
    far = np.full(np.shape(ph), 9.)
    edge = np.minimum(ph, tau - ph)
    if name == 'sine':
        return np.sin(ph), far
    if name == 'sawtooth':
        return ph / np.pi - 1., edge
    if name == 'square':
        return np.where(ph < np.pi, 1., -1.), np.minimum(
            edge, np.abs(ph - np.pi))
    if name == 'triangle':
        # 0 at 0, rising? Sampled from the documented symmetric triangle
        return None, far
    return ph, edge


def check(case, ctx):
    import copy
    from fractions import Fraction
    import numpy as np
    from klang.audio import oscillators, waves
    from klang.block import Block
    from vlib.orc import close
    tau = 2 * np.pi
    dt = 1. / 44100

    class Source(Block):
        def __init__(self):
            super().__init__(nOutputs=1)

    def identity(phase):
        return phase

    cls, name = case['cls'], case['wave']
    func = identity if name == 'identity' else getattr(waves, name)

    def number(freq):
        kind, arg = freq
        return Fraction(*arg) if kind == 'frac' else arg

    def hertz(freq):
        kind, arg = freq
        if kind == 'frac':
            # Quarter notes at 120 BPM
            return 1. / (4. * arg[0] / arg[1] * .5)
        return float(arg)

    f0, ph0 = number(case['freq']), case['phase']
    intensity, mod_freq = case['par']
    duty = .5
    lo, hi = case['range']
    if cls == 'Phasor':
        osc = oscillators.Phasor(f0, ph0)
    elif cls == 'Oscillator':
        osc = oscillators.Oscillator(f0, func, ph0)
    elif cls == 'LfoScalar':
        osc = oscillators.Lfo(f0, func, outputRange=(lo, hi), startPhase=ph0)
    elif cls == 'LfoVector':
        osc = oscillators.Lfo(f0, func, shape=256, outputRange=(lo, hi),
                              startPhase=ph0)
    elif cls == 'Fm':
        name, func = 'sine', waves.sine
        osc = oscillators.FmOscillator(f0, intensity, mod_freq, func, ph0)
    else:
        osc = oscillators.PwmOscillator(f0, duty, ph0)
    freq = ['num', hertz(case['freq'])]
    ph, mph = ph0, 0.
    src = dsrc = msrc = None
    buffers = changes = 0
    nfreq = 0
    for op, arg in case['ops']:
        if op == 'freq':
            kind, val = arg
            if src is not None:
                src.output.disconnect(osc.frequency)
                src = None
            nfreq += buffers > 0
            if kind == 'steady':
                src = Source()
                src.output.connect(osc.frequency)
                src.output.set_value(val)
                freq = ['num', float(val)]
                ctx.label('frequency by block')
                continue
            if kind in ('num', 'frac'):
                osc.frequency.set_value(number(arg))
                freq = ['num', hertz(arg)]
                continue
            if kind == 'ramp':
                arr = np.linspace(val[0], val[1], 256)
            elif kind == 'vibrato':
                # All but constant
                arr = val[0] * (1. + val[1] * np.sin(np.arange(256) / 40.))
            else:
                arr = np.random.RandomState(val).uniform(-500., 2000., 256)
            freq = ['arr', arr]
            if kind == 'block':
                src = Source()
                src.output.connect(osc.frequency)
                src.output.set_value(arr)
                ctx.label('modulated by block')
            else:
                osc.frequency.set_value(arr)
        elif op == 'copy':
            twin = copy.deepcopy(osc)
            require(type(twin) is type(osc), 'copy is a %s', type(twin))
            for other in osc.inputs:
                require(all(other is not port for port in twin.inputs),
                        'copy shares an input')
            require(not any(port.connected for port in twin.inputs),
                    'copy is patched')
            if cls == 'Fm':
                require(twin.modulator is not osc.modulator
                        and not twin.modulator.frequency.connected,
                        'copy shares its modulator')
            # Whatever the copy does ...
            twin.frequency.set_value(123.)
            if cls == 'Fm' and hasattr(twin, 'modulator'):
                twin.modulator.frequency.set_value(321.)
            twin.update()
            # ... the original and other copies do not care.
            osc = copy.deepcopy(osc)
            src = dsrc = msrc = None
            ctx.label('copied')
        elif op in ('modfreq', 'modblock', 'modvib'):
            if op == 'modvib':
                arg = arg * (1. + .3 * np.sin(np.arange(256) / 20.))
                ctx.label('modulated modulator')
            mod_freq = arg
            if msrc is not None:
                msrc.output.disconnect(osc.modulator.frequency)
                msrc = None
            if op == 'modblock':
                msrc = Source()
                msrc.output.connect(osc.modulator.frequency)
                msrc.output.set_value(arg)
                ctx.label('modulator by block')
            else:
                osc.modulator.frequency.set_value(arg)
        elif op == 'param':
            if cls == 'Pwm':
                duty = arg
                if round(arg * 1000) % 5 in (1, 2):
                    # Sample by sample
                    duty = np.linspace(arg, 1. - arg, 256)
                    ctx.label('duty cycle modulated')
                if dsrc is not None:
                    dsrc.output.disconnect(osc.dutyCycle)
                    dsrc = None
                if round(arg * 1000) % 2:
                    dsrc = Source()
                    dsrc.output.connect(osc.dutyCycle)
                    dsrc.output.set_value(duty)
                    ctx.label('duty cycle by block')
                else:
                    osc.dutyCycle.set_value(duty)
            elif cls == 'Fm':
                intensity = 4. * arg
                osc.intensity = intensity
        else:
            for _ in range(arg):
                osc.update()
                buffers += 1
                changes = max(changes, nfreq)
                out = osc.output.value
                f = np.full(256, freq[1]) if freq[0] == 'num' else freq[1]
                acc = ph + tau * dt * np.concatenate(
                    [[0.], np.cumsum(f)])
                phases = acc[:-1]
                ph = float(np.mod(acc[-1], tau))
                if cls in ('Phasor', 'LfoScalar'):
                    require(np.ndim(out) == 0, 'output of shape %s',
                            np.shape(out))
                    phases = phases[:1]
                    out = np.array([float(out)])
                else:
                    require(np.shape(out) == (256,), 'output of shape %s',
                            np.shape(out))
                if cls == 'Phasor':
                    compare(np, out, phases, 'identity', 1., 0.)
                elif cls == 'Oscillator':
                    compare(np, out, phases, name, 1., 0.)
                elif cls.startswith('Lfo'):
                    compare(np, out, phases, name, (hi - lo) / 2.,
                            (hi + lo) / 2.)
                elif cls == 'Fm':
                    macc = mph + tau * dt * np.concatenate(
                        [[0.], np.cumsum(np.full(256, mod_freq))])
                    mph = float(np.mod(macc[-1], tau))
                    close(out, np.sin(phases + intensity
                                      * np.sin(macc[:-1])),
                          'FM output, buffer %d' % buffers, tol=1e-6)
                else:
                    p = np.mod(phases, tau)
                    lim = tau * duty
                    exp = np.where(p < lim, 1., -1.)
                    near = np.minimum(np.minimum(p, tau - p),
                                      np.abs(p - lim)) < 1e-6
                    if np.ndim(duty) == 0 and duty == 0.:
                        near[:] = False  # Always low
                        ctx.label('duty cycle 0')
                    require(np.all((out == exp) | near),
                            'PWM output wrong at %s, duty %r',
                            np.nonzero((out != exp) & ~near)[0][:5], duty)
                    require(np.all(np.abs(out) == 1.), 'PWM not binary')
    if buffers >= 3 and (changes or freq[0] == 'arr'):
        ctx.hit(cls)


def compare(np, out, phases, name, scale, offset):
    from vlib.common import Fail
    if name == 'triangle':
        # Shape: |slope| 2/pi, range [-1, 1], value 0 or +-1 at phase 0
        val = (out - offset) / scale
        require(np.all(np.abs(val) <= 1 + 1e-9), 'triangle exceeds range')
        p = np.mod(phases + np.pi, 2 * np.pi) - np.pi
        exp = 1. - np.abs((2 * p / np.pi) % 4 - 2)
        exp, dist = exp, np.full(len(p), 9.)
    else:
        exp, dist = wave(np, name, phases)
    exp = scale * exp + offset
    bad = np.abs(out - exp) > 1e-6 * (1 + abs(scale)) + 1e-6 * abs(offset)
    bad &= ~(dist < 1e-6)
    if bad.any():
        i = int(np.nonzero(bad)[0][0])
        raise Fail('%s wave at sample %d: %r instead of %r (phase %r)' % (
            name, i, float(out[i]), float(exp[i]), float(phases[i])))


def strat_chirp():
    from hypothesis import strategies as st
    from vlib.gens import weighted
    f = st.floats(1., 5000.)
    return st.fixed_dictionaries({
        'f0': f, 'f1': st.one_of(f, f, st.just(None)),
        'T': st.one_of(st.sampled_from([0., 1e-5, 256 / 44100., 128 / 44100.,
                                        512 / 44100.]),
                       st.floats(.0001, .03), st.floats(.003, .012)),
        'method': st.sampled_from(['linear', 'quadratic', 'logarithmic',
                                   'hyperbolic']),
        'n': st.integers(2, 9), 'reset': st.booleans(),
        # Goes on for a long time
        'far': weighted((16, st.just(0)), (3, st.integers(1, 500)),
                        (1, st.integers(500, 6000)))})


def check_chirp(case, ctx):
    import numpy as np
    from klang.audio.oscillators import Chirper
    f0, T, method = case['f0'], case['T'], case['method']
    f1 = f0 if case['f1'] is None else case['f1']
    if abs(f1 - f0) < 1e-6 * f0:
        f1 = f0  # The chirp formulas cancel out
    chirp = Chirper(f0, T, f1, method=method, wave_func=lambda p: p)

    def run():
        out = []
        for _ in range(case['n']):
            chirp.update()
            out.append(np.array(chirp.output.value))
        return np.concatenate(out)

    got = run()
    if case['reset']:
        chirp.reset()
        require(np.array_equal(run(), got), 'differs after reset')
    # Integral of the instantaneous frequency
    t = np.arange(len(got)) / 44100.
    x = np.minimum(t, T)
    if T <= 0 or f0 == f1:
        cycles = f1 * x
    elif method == 'linear':
        cycles = f0 * x + (f1 - f0) * x ** 2 / (2 * T)
    elif method == 'quadratic':
        cycles = f0 * x + (f1 - f0) * x ** 3 / (3 * T ** 2)
    elif method == 'logarithmic':
        rate = np.log(f1 / f0) / T
        cycles = f0 / rate * np.expm1(rate * x)
    else:
        k = (f0 - f1) / (f1 * T)
        cycles = f0 / k * np.log1p(k * x)
    exp = 2 * np.pi * (cycles + f1 * np.maximum(t - T, 0.))
    err = np.abs(got - exp - (got[0] - exp[0]))
    require(err.max() < 1e-3, '%s chirp %r -> %r Hz in %r s: phase off by %r '
            'at sample %d', method, f0, f1, T, float(err.max()),
            int(err.argmax()))
    step = np.diff(got)
    top = 2 * np.pi * max(f0, f1) / 44100.
    low = 2 * np.pi * min(f0, f1) / 44100.
    require(step.max() <= top + 1e-6 and step.min() >= low - 1e-6,
            'phase steps of %r..%r outside %r..%r', float(step.min()),
            float(step.max()), low, top)
    if f0 != f1 and 0 < T < (case['n'] - 1) * 256 / 44100.:
        ctx.hit(method)
    far = case.get('far', 0)
    if far and T < case['n'] * 256 / 44100. - 1e-6:
        for _ in range(far):
            chirp.update()
        end = np.array(chirp.output.value)
        exp = got[-1] + 2 * np.pi * f1 / 44100. * (
            256. * (far - 1) + 1 + np.arange(256))
        err = np.abs(end - exp).max()
        require(err < 1e-3, '%s chirp to %r Hz: phase off by %r after %d '
                'buffers', method, f1, float(err), far)
        ctx.label('far')


TESTS = [
    Test('phase', strat, check, quick=1500, thorough=60000),
    Test('chirp', strat_chirp, check_chirp, quick=500, thorough=20000),
]
TESTS.append(together('C14'))
RULE += PAIRS
