"""Native ADSR envelope and the envelope blocks."""
from vlib.common import Test, require
from vlib.pairs import RULE as PAIRS, together

META = {
    'title': 'Envelopes follow the attack-decay-sustain-release contract per sample',
    'statement': (
        'The native envelope outputs values in [0, 1]: after a gate-on it '
        'rises to 1 within the attack time, decays to the sustain level, holds '
        'it until gate-off and releases to zero, each on the exponential curve '
        'given by duration and overshoot, always continuing from the current '
        'value; retrigger, loop, parameter changes, the active flag and '
        'repeated gates follow the documented stage machine. Samples do not '
        'depend on how they are cut into blocks. ADSR, AR, D and R blocks gate '
        'on the notes they receive, in order, and copies start idle with equal '
        'parameters.'),
    'over': ['inputs', 'histories', 'configurations'],
    'quant': ('All durations, levels, overshoots, flags and all sequences of '
              'gates, parameter changes and block lengths.'),
    'why': ('Tests sample one gate cycle at five points with dt = 0.1; '
            'retrigger and loop are marked "how to test?".'),
    'files': ['klang/audio/_envelope.c', 'klang/audio/envelopes.py'],
    'state': ['Envelope.stage', 'Envelope.value', 'Envelope.enabled'],
    'mechanism': [
        {'name': 'Envelope_single_sample, Envelope_gate, '
                 'Envelope_compute_base_values_and_coefficients',
         'where': 'klang/audio/_envelope.c'},
        {'name': 'EnvelopeBase.update, __deepcopy__',
         'where': 'klang/audio/envelopes.py'}],
    'observe': ['Envelope.sample(n), .active, block output'],
    'oracle': 'a non-deterministic ADSR stage machine with closed-form curves',
}
RULE = ('Cases are envelope parameters and a history of gates, parameter '
        'changes and sample(n) calls. Non-trivial: at least three different '
        'stages are visited and one gate arrives in the middle of a curve.')
ASSUMPTIONS = ['values within 1e-9 of a stage limit may or may not count as '
               'reached (rounding)']

FSR = 44100


def durations():
    from hypothesis import strategies as st
    return st.one_of(
        st.sampled_from([0., 1. / FSR, .5 / FSR, 10. / FSR, 256. / FSR]),
        st.floats(0., 60. / FSR), st.floats(0., 800. / FSR),
        st.floats(0., .05), st.floats(.05, 5.), st.floats(5., 400.))


def level():
    from hypothesis import strategies as st
    from vlib.gens import unit
    return st.one_of(unit(), unit(), st.floats(.99, 1.))


def strat():
    from hypothesis import strategies as st
    from vlib.gens import ops as oplist, weighted
    over = st.sampled_from([None, 1e-3, 1e-3, .1, 1., 10., 1e-6, 1e-9, 0.])
    op = weighted(
        (8, st.tuples(st.just('sample'), st.one_of(
            st.integers(0, 30), st.integers(0, 300), st.just(256)))),
        (4, st.tuples(st.just('gate'), st.booleans())),
        (1, st.tuples(st.sampled_from(['attack', 'decay', 'release']),
                      durations())),
        (1, st.tuples(st.just('sustain'), level())),
        (1, st.tuples(st.just('overshoot'),
                      st.sampled_from([1e-3, .5, 1e-9, 10., 0.]))),
        (1, st.tuples(st.sampled_from(['retrigger', 'loop']),
                      st.booleans()))).map(list)
    return st.fixed_dictionaries({
        'adsr': st.tuples(durations(), durations(), level(),
                          durations()).map(list),
        'over': over,
        'flags': st.tuples(st.booleans(), st.sampled_from(
            [False, False, True])).map(list),
        'ops': oplist(op, 36, lo=3), 'recut': st.integers(0, 10**6)})


EPS = 1e-9


class Model:

    """Set of possible (stage, value) pairs of the stage machine."""

    def __init__(self, a, d, s, r, over, retrigger, loop):
        self.p = {'attack': a, 'decay': d, 'sustain': s, 'release': r,
                  'overshoot': over}
        self.retrigger, self.loop = retrigger, loop
        self.enabled = False
        self.states = {'off': 0.}
        self.visited = set()
        self.mid = False
        self.prep()

    def prep(self):
        from math import exp, log
        o = min(max(self.p['overshoot'], 1e-9), 1e9)

        def coef(duration):
            rate = duration * FSR
            if rate <= 0:
                return 0.
            return exp(-log((1. + o) / o) / rate)

        self.curves = {'attack': (coef(self.p['attack']), 1. + o),
                       'decay': (coef(self.p['decay']), self.p['sustain'] - o),
                       'release': (coef(self.p['release']), -o)}

    def gate(self, on):
        self.enabled = on
        new = {}
        for stage, val in self.states.items():
            if stage in ('attack', 'decay', 'release'):
                self.mid = True
            if on and (self.retrigger or stage in ('off', 'release')):
                stage = 'attack'
            elif not on and stage in ('attack', 'decay', 'sustain'):
                stage = 'release'
            new[stage] = val
        self.states = new

    def step(self):
        """Advance all states. -> [(stage, value)]"""
        out = []
        for stage, val in self.states.items():
            self.visited.add(stage)
            if stage == 'off':
                out.append(('off', 0.))
                continue
            if stage == 'sustain':
                out.append(('sustain', self.p['sustain']))
                continue
            c, asym = self.curves[stage]
            new = asym + (val - asym) * c
            if stage == 'attack':
                limit, nxt, gap = 1., 'decay', 1. - new
            elif stage == 'decay':
                limit = self.p['sustain']
                gap = new - limit
                nxt = 'release' if self.loop else 'sustain'
            else:
                limit, gap = 0., new
                nxt = 'attack' if self.loop and self.enabled else 'off'
            if gap <= EPS:
                out.append((nxt, limit))
            if gap > -EPS:
                out.append((stage, new))
        return out

    def match(self, obs):
        cands = self.step()
        fit = {}
        for stage, val in cands:
            if abs(val - obs) < 1e-7:
                fit.setdefault(stage, val)
        if not fit:
            require(False, 'value %r, expected %s (states %s)', float(obs),
                    cands, self.states)
        self.states = fit


def check(case, ctx):
    import numpy as np
    from klang.audio._envelope import Envelope
    a, d, s, r = case['adsr']
    over = case['over']
    retrigger, loop = case['flags']
    kwargs = dict(attack=a, decay=d, sustain=s, release=r, dt=1. / FSR,
                  retrigger=retrigger, loop=loop)
    if over is not None:
        kwargs['overshoot'] = over
    env = Envelope(**kwargs)
    twin = Envelope(**kwargs)
    mod = Model(a, d, s, r, 1e-3 if over is None else over, retrigger, loop)
    require(env.active is False, 'fresh envelope is active')
    cut = case['recut']
    for op, arg in case['ops']:
        if op == 'sample':
            out = env.sample(arg)
            require(out.shape == (arg,), 'sample(%d) gave shape %s', arg,
                    out.shape)
            # Same samples in other portions
            parts, left = [], arg
            while left:
                cut = (cut * 1103515245 + 12345) % 2**31
                n = min(left, 1 + cut % 97)
                parts.append(twin.sample(n))
                left -= n
            other = np.concatenate(parts) if parts else np.zeros(0)
            require(np.array_equal(out, other),
                    'samples depend on the block length')
            if arg:
                require(out.min() >= 0. and out.max() <= 1.,
                        'values in [%r, %r]', float(out.min()),
                        float(out.max()))
            for i in range(arg):
                mod.match(float(out[i]))
        elif op == 'gate':
            env.gate(arg)
            twin.gate(arg)
            mod.gate(arg)
        elif op in ('retrigger', 'loop'):
            for e in (env, twin, mod):
                setattr(e, op, arg)
            require(getattr(env, op) is arg, '%s is %r', op, getattr(env, op))
        else:
            setattr(env, op, arg)
            setattr(twin, op, arg)
            mod.p[op] = min(max(arg, 1e-9), 1e9) if op == 'overshoot' else arg
            mod.prep()
            require(getattr(env, op) == mod.p[op], '%s is %r after setting %r',
                    op, getattr(env, op), arg)
        act = {st != 'off' for st in mod.states}
        require(len(act) > 1 or env.active in act, 'active is %r in %s',
                env.active, mod.states)
    if len(mod.visited) >= 3 and mod.mid:
        ctx.hit('loop' if mod.loop else 'plain')
    for stage in mod.visited:
        ctx.label(stage)


def strat_block():
    from hypothesis import strategies as st
    from vlib.gens import ops as oplist, unit, weighted
    op = weighted(
        (6, st.tuples(st.just('update'), st.just(0))),
        (2, st.tuples(st.just('on'), st.integers(0, 127))),
        (2, st.tuples(st.just('off'), st.integers(0, 127))),
        (1, st.tuples(st.just('copy'), st.just(0)))).map(list)
    dur = st.one_of(st.sampled_from([0., 256. / FSR, .003]),
                    st.floats(0., .02), st.floats(0., .05))
    return st.fixed_dictionaries({
        'cls': st.sampled_from(['ADSR', 'AR', 'D', 'R']),
        'adsr': st.tuples(dur, dur, unit(), dur).map(list),
        'over': st.sampled_from([None, 1e-3, .1, 2.]),
        'flags': st.tuples(st.booleans(), st.sampled_from(
            [False, False, True])).map(list),
        'ops': oplist(op, 24, lo=3)})


def check_block(case, ctx):
    import copy
    import numpy as np
    from klang.audio import envelopes
    from klang.messages import Note
    a, d, s, r = case['adsr']
    over = case['over']
    retrigger, loop = case['flags']
    cls = getattr(envelopes, case['cls'])
    kwargs = {'retrigger': retrigger, 'loop': loop}
    if over is not None:
        kwargs['overshoot'] = over
    if case['cls'] == 'ADSR':
        par, args = (a, d, s, r), (a, d, s, r)
    elif case['cls'] == 'AR':
        par, args = (a, 0., 1., r), (a, r)
    elif case['cls'] == 'D':
        par, args = (0., d, 0., d), (d,)
    else:
        par, args = (0., 0., 1., r), (r,)
    env = cls(*args, **kwargs)

    def model():
        return Model(*(par + (1e-3 if over is None else over, retrigger,
                              loop)))

    def inspect(e):
        require(type(e) is cls, 'type %s', type(e))
        got = (e.attack, e.decay, e.sustain, e.release)
        require(got == par, 'parameters %s instead of %s', got, par)
        require(e.retrigger is retrigger and e.loop is loop, 'flags')
        require(not e.active, 'active when new')
        str(e)

    inspect(env)
    mod = model()
    visited, mid, multi, queued = set(), False, False, 0
    queue = []
    for op, arg in case['ops']:
        if op == 'copy':
            if queue:
                continue
            other = copy.deepcopy(env)
            inspect(other)
            keep = np.array(env.output.value)
            other.input.push(Note(60, 1.))
            other.update()
            other.update()
            require(np.array_equal(env.output.value, keep),
                    'copy shares its output')
            require(env.active == (mod.states.keys() != {'off'})
                    or len(mod.states) > 1, 'copy shares its state')
            # Go on with a fresh copy
            env = copy.deepcopy(other)
            inspect(env)
            mod = model()
        elif op == 'update':
            for on in queue:
                mod.gate(on)
            multi = multi or len(queue) > 1
            queue = []
            env.update()
            out = env.output.value
            require(out.shape == (256,), 'output of shape %s', out.shape)
            for val in out:
                mod.match(float(val))
            require(env.current_level == out[-1], 'current level %r',
                    env.current_level)
            act = {st != 'off' for st in mod.states}
            require(len(act) > 1 or env.active in act, 'active is %r in %s',
                    env.active, mod.states)
            visited |= mod.visited
            mid = mid or mod.mid
        else:
            vel = 0. if op == 'off' else (1 + arg % 10) / 10.
            env.input.push(Note(arg, vel))
            queue.append(vel > 0)
    if len(visited) >= 3 and mid:
        ctx.hit(case['cls'])
    if multi:
        ctx.label('several notes per buffer')


TESTS = [
    Test('native', strat, check, quick=1500, thorough=60000, mode='asan'),
    Test('blocks', strat_block, check_block, quick=600, thorough=30000),
]
TESTS.append(together('C12'))
RULE += PAIRS
