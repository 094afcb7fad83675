"""Panning laws."""
from vlib.common import Test, require

META = {
    'title': 'Panning follows its law: hard ends, symmetry, power, centre level',
    'statement': (
        'Hard left and hard right reach one side only at full level, levels '
        'beyond them act like them, mirrored levels give mirrored amplitudes, '
        'and moving right never raises the left nor lowers the right '
        'amplitude. Without pan law, constant-power panning keeps the total '
        'power and linear panning the total amplitude at one, and the mixture '
        'is their geometric mean; a pan law sets the same centre power in '
        'every mode, 20 log10 of the power being the law in dB. Panning '
        'scales mono and stereo signals by these amplitudes, whatever was done '
        'with earlier results; unknown modes and positive laws are refused.'),
    'over': ['inputs'],
    'quant': 'All pan levels, modes and non-positive pan laws, all signals.',
    'why': 'There is no panning test at all.',
    'files': ['klang/audio/panning.py'],
    'mechanism': [{'name': 'panning_amplitudes, pan_signal, pan_law_exponent',
                   'where': 'klang/audio/panning.py'}],
    'observe': ['panning_amplitudes(), pan_signal()'],
}
RULE = ('Cases are pairs of pan levels with mode, law and signal. '
        'Non-trivial: two different levels, not both beyond the ends.')


def strat():
    from hypothesis import strategies as st
    from vlib.gens import signals
    level = st.one_of(st.sampled_from([-1., 0., 1., -2., 2., .5, -.5]),
                      st.floats(-1.2, 1.2), st.integers(-2, 2))
    law = st.one_of(st.none(), st.sampled_from([0., -3., -4.5, -6., -6.02, 0,
                                                -3]), st.floats(-24., 0.))
    return st.fixed_dictionaries({
        'p': level, 'q': level,
        'mode': st.sampled_from(['constant_power', 'linear', 'mixture']),
        'law': law, 'bad': st.floats(1e-3, 20.),
        'badmode': st.sampled_from(['', 'foo', 'Linear', 'constant']),
        'sig': signals(64), 'sig2': signals(64)})


def check(case, ctx):
    import math
    import numpy as np
    from klang.audio.panning import pan_signal, panning_amplitudes
    from props.c07 import pan_amps
    from vlib.orc import close, raises, signal
    mode, law = case['mode'], case['law']
    p, q = case['p'], case['q']

    def amps(level, m=mode, l=law):
        out = np.asarray(panning_amplitudes(level, m, l), dtype=float)
        require(out.shape == (2, 1), 'shape %s', out.shape)
        return out[0, 0], out[1, 0]

    tol = 1e-6
    for level in (p, q):
        left, right = amps(level)
        require(-tol <= left <= 1 + tol and -tol <= right <= 1 + tol,
                'amplitudes %s at %s out of range', (left, right), level)
        el, er = pan_amps(float(level), mode, law)
        close([left, right], [el, er], 'amplitudes at %s (%s, %s)' % (
            level, mode, law), tol=tol)
        ml, mr = amps(-level)
        close([mr, ml], [left, right], 'mirror of %s' % level, tol=tol)
        if level >= 1:
            close([left, right], [0, 1], 'hard right', tol=tol)
        if level <= -1:
            close([left, right], [1, 0], 'hard left', tol=tol)
        if law is None and mode == 'constant_power':
            close(left ** 2 + right ** 2, 1., 'power at %s' % level)
        if law is None and mode == 'linear':
            close(left + right, 1., 'amplitude sum at %s' % level)
        if law is None and mode == 'mixture':
            lin, pwr = amps(level, 'linear'), amps(level, 'constant_power')
            close([left, right], [math.sqrt(max(0, a * b)) for a, b in
                                  zip(lin, pwr)], 'mixture at %s' % level,
                  tol=tol)
    if law is not None:
        left, right = amps(0.)
        close(20. * math.log10(left ** 2 + right ** 2), law,
              'centre power for law %s in %s mode' % (law, mode), tol=1e-6)
        close(left, right, 'centre balance')
    lo, hi = min(p, q), max(p, q)
    (l0, r0), (l1, r1) = amps(lo), amps(hi)
    require(l1 <= l0 + tol and r1 >= r0 - tol,
            'not monotone between %s and %s', lo, hi)
    mono = signal(case['sig'])
    stereo = np.array([mono, signal(case['sig2'])])
    left, right = amps(p)
    for sig in (mono, stereo, mono[:2], mono[:1], stereo[:, :2],
                stereo[:, :1]):
        keep = sig.copy()
        got = pan_signal(sig, p, mode, law)
        exp = (np.array([left * sig, right * sig]) if sig.ndim == 1 else
               np.array([left * sig[0], right * sig[1]]))
        close(got, exp, 'panned signal')
        require((sig == keep).all(), 'signal was altered')
    result = panning_amplitudes(p, mode, law)
    try:
        result *= 3.
    except (TypeError, ValueError):
        pass  # Read-only
    close(amps(p), (left, right), 'amplitudes on repetition')
    require(raises(ValueError, panning_amplitudes, p, case['badmode'], law),
            'mode %r accepted', case['badmode'])
    require(raises(ValueError, panning_amplitudes, p, mode, case['bad']),
            'pan law %r accepted', case['bad'])
    if lo != hi and not (lo >= 1 or hi <= -1):
        ctx.hit(mode)


TESTS = [Test('panning', strat, check, quick=1500, thorough=60000)]
