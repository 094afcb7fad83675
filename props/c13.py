"""Pure Python fallback envelope."""
from vlib.common import Test, require
from vlib.pairs import RULE as PAIRS, together

META = {
    'title': 'The fallback envelope keeps the native envelope\'s contract',
    'statement': (
        'Without the C extension, envelopes still stay in [0, 1], start from '
        'the current value, follow the same exponential curves through the '
        'same stages without dropping or repeating samples (a stage may end '
        'up to one sample earlier), hold the sustain level exactly and return '
        'to exact silence and inactive after the release, for any gate '
        'history, with retrigger and loop.'),
    'over': ['inputs', 'histories', 'configurations'],
    'quant': ('All durations, levels and overshoots above zero, flags and '
              'gate histories at buffer boundaries.'),
    'why': ('Tests check single curve pieces to three digits and one gate '
            'cycle; nothing relates stage joints, short stages or the value '
            'range.'),
    'files': ['klang/audio/envelope.py', 'klang/audio/envelopes.py'],
    'state': ['Envelope.stage', 'Envelope.value', 'Envelope.sampleGenerator'],
    'mechanism': [
        {'name': 'curve_samples, constant_samples, time_needed, '
                 'calculate_transfer_function, Envelope.sample',
         'where': 'klang/audio/envelope.py'}],
    'observe': ['Envelope.sample(), .active, envelope block output'],
    'oracle': 'a non-deterministic ADSR stage machine with closed-form curves',
}
RULE = ('Cases are envelope parameters and a history of gates and buffers. '
        'Non-trivial: at least three different stages are visited and a gate '
        'arrives in the middle of a curve.')
ASSUMPTIONS = ['values within 1e-9 of a stage limit may or may not count as '
               'reached (rounding)']

FSR = 44100
EPS = 1e-9


def strat(low=0.):
    from hypothesis import strategies as st
    from vlib.gens import ops as oplist, unit, weighted
    dur = st.one_of(
        st.sampled_from([0., 256. / FSR, 255. / FSR, 512. / FSR, .003]),
        st.floats(0., 60. / FSR), st.floats(0., 800. / FSR),
        st.floats(0., .05))
    op = weighted((5, st.tuples(st.just('sample'), st.just(0))),
                  (2, st.tuples(st.just('gate'), st.booleans()))).map(list)

    def build(a, d, s, r, over, retrigger, loop, ops):
        return {'adsr': [a, d, s, r], 'over': over,
                'flags': [retrigger, loop], 'ops': ops}

    return st.builds(
        build, dur, dur, unit(), dur,
        st.sampled_from([None, 1e-3, .1, 1., 10., 1e-6]), st.booleans(),
        st.sampled_from([False, False, True]), oplist(op, 30, lo=4))


class Model:

    """States are (stage, next value to put out)."""

    def __init__(self, a, d, s, r, over, retrigger, loop):
        from math import exp, log
        self.sustain = s
        self.retrigger, self.loop = retrigger, loop
        self.enabled = False
        self.states = {('off', 0.)}
        self.visited = set()
        self.mid = False

        def coef(duration):
            if duration <= 0:
                return 0.
            return exp(-log((1. + over) / over) / (duration * FSR))

        self.curves = {'attack': (coef(a), 1. + over),
                       'decay': (coef(d), s - over),
                       'release': (coef(r), -over)}

    def gate(self, on):
        self.enabled = on
        new = set()
        for stage, val in self.states:
            if stage in ('attack', 'decay', 'release'):
                self.mid = True
            if on and (self.retrigger or stage in ('off', 'release')):
                stage = 'attack'
            elif not on and stage in ('attack', 'decay', 'sustain'):
                stage = 'release'
            new.add((stage, val))
        self.states = new

    def expand(self, stage, val, depth=0):
        """-> [(output, stage, next value)]"""
        if stage == 'off':
            return [(0., 'off', 0.)]
        if stage == 'sustain':
            return [(self.sustain, 'sustain', self.sustain)]
        c, asym = self.curves[stage]
        new = asym + (val - asym) * c
        if stage == 'attack':
            limit, nxt, gap = 1., 'decay', 1. - new
        elif stage == 'decay':
            limit, gap = self.sustain, new - self.sustain
            if val < limit:
                # Attack ended just below
                new = val + (2. * limit - asym - val) * (1. - c)
                gap = limit - new
            nxt = 'release' if self.loop else 'sustain'
        else:
            limit, gap = 0., new
            nxt = 'attack' if self.loop and self.enabled else 'off'
        out = []
        if gap > -EPS or depth >= 6:
            # (All stages empty: any of the values is fine)
            out.append((val, stage, new if gap > -EPS else val))
        if gap < EPS and depth < 6:
            # Over within the sample
            out += self.expand(nxt, val, depth + 1)
            if limit != val:
                out += self.expand(nxt, limit, depth + 1)
        return out

    def match(self, obs):
        cands = []
        for stage, val in self.states:
            self.visited.add(stage)
            cands += self.expand(stage, val)
        fit = {(st, round(v, 12)): (st, v) for out, st, v in cands
               if abs(out - obs) < 1e-7}
        require(fit, 'value %r, expected one of %s (states %s)', float(obs),
                cands[:6], sorted(self.states)[:6])
        self.states = set(fit.values())

    def check_active(self, env):
        act = {st != 'off' for st, _ in self.states}
        require(len(act) > 1 or env.active in act, 'active is %r in %s',
                env.active, self.states)


def check(case, ctx):
    from klang.audio.envelope import Envelope
    a, d, s, r = case['adsr']
    over = case['over']
    retrigger, loop = case['flags']
    kwargs = {'retrigger': retrigger, 'loop': loop}
    if over is not None:
        kwargs['overshoot'] = over
    env = Envelope(a, d, s, r, **kwargs)
    mod = Model(a, d, s, r, 1e-3 if over is None else over, retrigger, loop)
    require(env.active is False, 'fresh envelope is active')
    drive(env, mod, case, ctx)


def drive(env, mod, case, ctx):
    for op, arg in case['ops']:
        if op == 'gate':
            env.gate(arg)
            mod.gate(arg)
        else:
            out = env.sample()
            require(out.shape == (256,), 'sample() gave shape %s', out.shape)
            require(out.min() >= -1e-12 and out.max() <= 1. + 1e-12,
                    'values in [%r, %r]', float(out.min()), float(out.max()))
            for val in out:
                mod.match(float(val))
        mod.check_active(env)
    if len(mod.visited) >= 3 and mod.mid:
        ctx.hit('loop' if mod.loop else 'plain')
    for stage in mod.visited:
        ctx.label(stage)


def check_block(case, ctx):
    """Envelope block built on the fallback envelope."""
    import copy
    from klang.audio import envelopes
    from klang.audio.envelope import Envelope
    from klang.messages import Note
    require(issubclass(envelopes.ADSR, Envelope), 'native envelope in use')
    a, d, s, r = case['adsr']
    over = case['over']
    retrigger, loop = case['flags']
    kwargs = {'retrigger': retrigger, 'loop': loop}
    if over is not None:
        kwargs['overshoot'] = over
    env = envelopes.ADSR(a, d, s, r, **kwargs)
    mod = Model(a, d, s, r, 1e-3 if over is None else over, retrigger, loop)
    if len(case['ops']) % 2:
        env.input.push(Note(60))
        env.update()
        env = copy.deepcopy(env)
    queue = []
    for op, arg in case['ops']:
        if op == 'gate':
            env.input.push(Note(60, .5 if arg else 0.))
            queue.append(arg)
            continue
        for on in queue:
            mod.gate(on)
        queue = []
        env.update()
        for val in env.output.value:
            mod.match(float(val))
        mod.check_active(env)
    if len(mod.visited) >= 3 and mod.mid:
        ctx.hit('block')


def strat_long():
    from hypothesis import strategies as st
    from vlib.gens import unit
    dur = st.one_of(st.just(0.), st.floats(.5, 30.), st.floats(0., 3.))
    return st.fixed_dictionaries({
        'adsr': st.tuples(dur, dur, unit(), dur).map(list),
        'over': st.sampled_from([None, 1e-3, .1, 1., 10.]),
        # Buffers held after the decay, and after the release
        'hold': st.one_of(st.integers(1, 300), st.integers(1, 6000)),
        'rest': st.one_of(st.integers(1, 30), st.integers(1, 4000))})


def check_long(case, ctx):
    """Slow envelopes and long notes."""
    import math
    import numpy as np
    from klang.audio.envelope import Envelope
    a, d, s, r = case['adsr']
    over = case['over']
    if a and d:
        # The attack may end below a higher level, from which the decay is
        # on its way up for a while
        s = min(s, .99 - 50. / (a * FSR))
        if s < 0.:
            a = 0.
            s = .5
    env = Envelope(a, d, s, r, **({} if over is None else {
        'overshoot': over}))
    over = 1e-3 if over is None else over

    def render(n):
        return np.concatenate([env.sample() for _ in range(n)])

    def curve(start, target, duration):
        """Samples on the way and the slope."""
        if duration <= 0:
            return np.zeros(0), 0.
        k = math.log((1. + over) / over) / (duration * FSR)
        asym = target + math.copysign(over, target - start)
        left = abs(target - start)
        n = 0
        if left:
            n = math.log((left + over) / over) / k
        vals = asym + (start - asym) * np.exp(-k * np.arange(1, int(n) + 1))
        return vals, abs(start - asym) * k

    def judge(got, pieces, end, what):
        exp = np.concatenate([vals for vals, _ in pieces])
        tol = 1e-9 + 4. * max(slope for _, slope in pieces)
        # (stages may end a sample earlier)
        n = len(exp)
        require(len(got) > n + 8, 'harness')
        err = np.abs(got[:n] - exp)
        if tol < .2 and n:
            require(err.max() < tol, '%s: %r instead of %r at sample %d', what,
                    float(got[err.argmax()]), float(exp[err.argmax()]),
                    int(err.argmax()))
        rest = got[n + 4:]
        require(np.all(rest == end), '%s: %s held instead of %r', what,
                rest[rest != end][:3], end)

    env.gate(True)
    up = curve(0., 1., a)
    down = curve(1., s, d)
    need = (len(up[0]) + len(down[0])) // 256 + 2
    judge(render(need + case['hold']), [up, down], s, 'note')
    require(env.active, 'inactive while held')
    env.gate(False)
    off = curve(s, 0., r)
    judge(render(len(off[0]) // 256 + 2 + case['rest']), [off], 0., 'release')
    require(not env.active, 'active after the release')
    if need + case['hold'] > 400:
        ctx.hit('long')


TESTS = [
    Test('long', strat_long, check_long, quick=40, thorough=1500),
    Test('fallback', strat, check, quick=700, thorough=30000),
    Test('block', strat, check_block, quick=300, thorough=12000,
         mode='fallback'),
]
TESTS.append(together('C13', 150, mode='fallback'))
RULE += PAIRS
