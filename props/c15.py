"""Wave functions and numeric helpers."""
from vlib.common import Test, require
from vlib.pairs import RULE as PAIRS, together

META = {
    'title': 'Waves and LFOs stay in their range, are periodic and elementwise',
    'statement': (
        'Every wave function maps any phase, scalar or array of any shape, to '
        '[-1, 1] elementwise, with period TAU and the symmetry and slope its '
        'name promises, without touching its input, and an LFO stays within '
        'its output range, reaching both ends, for every wave. Phase wrapping, '
        'clipping, normalizing, blending, linear mapping, power-of-two and lcm '
        'helpers satisfy their defining equations for all numbers.'),
    'over': ['inputs', 'configurations'],
    'quant': 'All phases, shapes, ranges and numbers.',
    'why': ('Tests only cover one linear mapping; no wave but the sine is '
            'evaluated anywhere.'),
    'files': ['klang/audio/waves.py', 'klang/math.py',
              'klang/audio/oscillators.py'],
    'mechanism': [
        {'name': 'sine, square, sawtooth, triangle, random',
         'where': 'klang/audio/waves.py'},
        {'name': 'wrap, clip, normalize_values, blend, linear_mapping, '
                 'is_power_of_two, lcm', 'where': 'klang/math.py'}],
    'observe': ['return values, Lfo output'],
    'oracle': 'defining equations and closed forms',
}
RULE = ('Cases are phases (scalars, lists of shapes) or helper arguments. '
        'Non-trivial: a phase outside [0, TAU), a multi-dimensional array or '
        'an LFO with an asymmetric output range; for helpers all cases with '
        'at least two distinct numbers.')


def strat():
    from hypothesis import strategies as st
    ph = st.one_of(st.floats(-50., 50.), st.floats(0., 6.2831),
                   st.integers(-8, 8).map(lambda i: i * 3.141592653589793 / 2))
    return st.fixed_dictionaries({
        'name': st.sampled_from(['sine', 'square', 'sawtooth', 'triangle',
                                 'random']),
        'ph': st.lists(ph, min_size=1, max_size=12),
        'shape': st.sampled_from(['scalar', 'npscalar', 'flat', 'row', 'col',
                                  'cube', 'strided']),
        'k': st.integers(-5, 5)})


def closed_form(np, name, p):
    """Closed form on [0, TAU), independent of klang."""
    tau = 2 * np.pi
    p = np.mod(p, tau)
    if name == 'sine':
        return np.sin(p)
    if name == 'square':
        return np.where(p < np.pi, 1., -1.)
    if name == 'sawtooth':
        return -1. + p / np.pi
    # triangle: piecewise linear through (0, -1), (pi/2, 0), (pi, 1) ...
    return np.where(p <= np.pi, -1. + 2. * p / np.pi, 3. - 2. * p / np.pi)


def check(case, ctx):
    import numpy as np
    from klang.audio import waves
    name = case['name']
    func = getattr(waves, name)
    require(waves.WAVE_FUNCTIONS[name] is func, 'WAVE_FUNCTIONS[%r]', name)
    flat = np.array(case['ph'])
    kind = case['shape']
    if kind == 'scalar':
        x = float(flat[0])
        flat = flat[:1]
    elif kind == 'npscalar':
        x = flat[0]
        flat = flat[:1]
    elif kind == 'row':
        x = flat.reshape(1, -1)
    elif kind == 'col':
        x = flat.reshape(-1, 1)
    elif kind == 'cube':
        x = flat.reshape(1, -1, 1)
    elif kind == 'strided':
        big = np.full(2 * len(flat), 99.)
        big[::2] = flat
        x = big[::2]
    else:
        x = flat.copy()
    keep = np.array(x, copy=True)
    out = np.asarray(func(x), dtype=float)
    require(out.shape == np.shape(x), '%s of shape %s gave %s', name,
            np.shape(x), out.shape)
    require(np.array_equal(keep, x), '%s altered its input', name)
    require(np.all(np.abs(out) <= 1. + 1e-12), '%s out of range: %s', name,
            out)
    if name != 'random':
        exp = closed_form(np, name, flat)
        got = out.reshape(-1)
        p = np.mod(flat, 2 * np.pi)
        edge = np.minimum(np.minimum(p, 2 * np.pi - p), np.abs(p - np.pi))
        jump = {'square': edge, 'sawtooth': np.minimum(p, 2 * np.pi - p)}.get(
            name, np.full(len(p), 9.))
        ok = (np.abs(got - exp) < 1e-9) | (jump < 1e-9)
        require(ok.all(), '%s(%r) = %r, expected %r', name,
                float(flat[~ok][0]) if (~ok).any() else 0.,
                float(got[~ok][0]) if (~ok).any() else 0.,
                float(exp[~ok][0]) if (~ok).any() else 0.)
        shifted = np.asarray(func(flat + 2 * np.pi * case['k']))
        require(np.all((np.abs(shifted - got) < 1e-9) | (jump < 1e-9)),
                '%s is not periodic', name)
    else:
        big = func(np.zeros(4000))
        require(abs(big.mean()) < .1 and big.min() < -.9 and big.max() > .9
                and len(set(big.tolist())) > 3900, 'random is not uniform')
    if (np.abs(flat - np.pi) > np.pi).any() or np.ndim(x) > 1:
        ctx.hit(name)


def strat_lfo():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'name': st.sampled_from(['sine', 'square', 'sawtooth', 'triangle',
                                 'random']),
        'vector': st.booleans(),
        'range': st.one_of(
            st.sampled_from([[0, 1], [-1., 1.], [1, 0], [0., 0.], [5, 6]]),
            st.tuples(st.floats(-100, 100), st.floats(-100, 100)).map(list)),
        'cycle': st.sampled_from([2, 4, 8, 16, 32, 64]),
        'phase': st.floats(0., 6.28)})


def check_lfo(case, ctx):
    import numpy as np
    from klang.audio import waves
    from klang.audio.oscillators import Lfo
    a, b = case['range']
    n = case['cycle']
    freq = 44100. / 256 / n
    kw = {'outputRange': (a, b)}
    if [a, b] == [0, 1]:
        kw = {}  # The default
    lfo = Lfo(freq, getattr(waves, case['name']),
              shape=256 if case['vector'] else 1,
              startPhase=case['phase'], **kw)
    vals = []
    for _ in range(n):
        lfo.update()
        out = np.asarray(lfo.output.value, dtype=float)
        require(out.shape == ((256,) if case['vector'] else ()),
                'output of shape %s', out.shape)
        vals.append(np.atleast_1d(out))
    vals = np.concatenate(vals)
    lo, hi = min(a, b), max(a, b)
    tol = 1e-9 * (1 + abs(lo) + abs(hi))
    require(vals.min() >= lo - tol and vals.max() <= hi + tol,
            'LFO %s leaves [%r, %r]: %r..%r', case['name'], lo, hi,
            float(vals.min()), float(vals.max()))
    if case['vector']:
        near = .02 * (hi - lo) + tol
        require(vals.min() <= lo + near and vals.max() >= hi - near,
                'LFO %s does not reach [%r, %r]: %r..%r', case['name'], lo,
                hi, float(vals.min()), float(vals.max()))
        if case['name'] in ('sine', 'sawtooth', 'triangle', 'square'):
            require(abs(vals.mean() - (lo + hi) / 2) <= .02 * (hi - lo) + tol,
                    'LFO %s is not centered', case['name'])
    if a + b and a != b:
        ctx.hit('lfo ' + case['name'])


def strat_math():
    from hypothesis import strategies as st
    num = st.one_of(st.floats(-1e3, 1e3), st.integers(-20, 20).map(float),
                    st.floats(-1e-3, 1e-3))
    nat = st.one_of(st.integers(1, 5000), st.integers(1, 2**45))
    return st.fixed_dictionaries({
        'nums': st.lists(num, min_size=4, max_size=12),
        'ints': st.tuples(nat, nat, st.integers(-10, 2**40)).map(list),
        'pow': st.integers(0, 70), 'x': st.floats(0., 1.),
        'dtype': st.sampled_from(['int8', 'int16', 'int32', 'uint8',
                                  'float32'])})


def check_math(case, ctx):
    import math
    from fractions import Fraction
    import numpy as np
    from klang import math as km
    from vlib.orc import close, near
    nums = case['nums']
    arr = np.array(nums)
    # wrap
    w = km.wrap(arr)
    require(np.all((w >= -math.pi) & (w <= math.pi)), 'wrap range %s', w)
    turns = (arr - w) / (2 * math.pi)
    require(np.all(np.abs(turns - np.round(turns)) < 1e-9), 'wrap(%s) = %s',
            nums, w)
    require(near(km.wrap(nums[0]), w[0]), 'scalar wrap')
    # normalize
    if np.any(arr):
        n = km.normalize_values(arr)
        require(near(np.abs(n).max(), 1.), 'normalized peak %r',
                float(np.abs(n).max()))
        close(n * np.abs(arr).max(), arr, 'normalized')
    else:
        try:
            km.normalize_values(arr)
            require(False, 'normalized silence')
        except ValueError:
            pass
    require(np.array_equal(arr, nums), 'input altered')
    dtype = np.dtype(case.get('dtype', 'float32'))
    whole = np.array(nums)
    if dtype.kind in 'iu':
        # Full scale, both ends of the integers included
        info = np.iinfo(dtype)
        whole = np.clip(whole * (info.max / 500.), info.min, info.max)
    typed = whole.astype(dtype)
    if typed.any():
        keep = typed.copy()
        exp = typed.astype(float)
        close(km.normalize_values(typed), exp / np.abs(exp).max(),
              'normalized %s' % dtype, tol=1e-6)
        require(np.array_equal(typed, keep), 'input altered')
    # clip
    lo, hi = sorted(nums[1:3])
    c = km.clip(nums[0], lo, hi)
    exp = lo if nums[0] < lo else hi if nums[0] > hi else nums[0]
    require(c == exp, 'clip(%r, %r, %r) = %r', nums[0], lo, hi, c)
    # blend
    a, b, x = arr[:2], arr[2:4], case['x']
    close(km.blend(a, b, x), [(1 - x) * a[0] + x * b[0],
                              (1 - x) * a[1] + x * b[1]], 'blend')
    require(np.array_equal(km.blend(a, b, 0.), a)
            and np.array_equal(km.blend(a, b, 1.), b), 'blend ends')
    # sign
    require(km.sign(nums[0]) == (-1. if math.copysign(1, nums[0]) < 0
                                 else 1.), 'sign(%r)', nums[0])
    # linear mapping
    x0, x1, y0, y1 = nums[:4]
    if abs(x1 - x0) > 1e-2:
        k, d = km.linear_mapping((x0, x1), (y0, y1))
        tol = 1e-6 * (1 + abs(y0) + abs(y1)) * (
            1 + (abs(x0) + abs(x1)) / abs(x1 - x0))
        require(abs(k * x0 + d - y0) < tol and abs(k * x1 + d - y1) < tol,
                'linear_mapping((%r, %r), (%r, %r)) = %r, %r', x0, x1, y0, y1,
                k, d)
    # integers
    p, q, r = case['ints']
    m = km.lcm(p, q)
    require(m % p == 0 and m % q == 0 and m == p * q // math.gcd(p, q),
            'lcm(%d, %d) = %d', p, q, m)
    for n in (r, p, 2 ** case['pow'], 2 ** case['pow'] + 1,
              2 ** case['pow'] - 1, -p, 0):
        exp = n > 0 and bin(n).count('1') == 1
        require(bool(km.is_power_of_two(n)) is exp, 'is_power_of_two(%d)', n)
    require(km.is_power_of_two(2.5) is False, 'is_power_of_two(2.5)')
    for den in (p, 2 ** case['pow']):
        fr = Fraction(q, den)
        require(km.is_dyadic(fr) is (bin(fr.denominator).count('1') == 1),
                'is_dyadic(%s)', fr)
    require(km.is_divisible(p * q, q) is True
            and km.is_divisible(p, q) is (p // q * q == p),
            'is_divisible(%d, %d)', p, q)
    big = p * q * 2 ** case['pow']
    require(km.is_divisible(big, q) is True
            and km.is_divisible(big + 1, q) is (q == 1),
            'is_divisible(%d or one more, %d)', big, q)
    if len(set(nums)) > 1:
        ctx.hit('math')


TESTS = [
    Test('waves', strat, check, quick=1200, thorough=40000),
    Test('lfo', strat_lfo, check_lfo, quick=400, thorough=12000),
    Test('math', strat_math, check_math, quick=800, thorough=40000),
]
TESTS.append(together('C15'))
RULE += PAIRS
